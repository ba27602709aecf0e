"""Views of the allocator: its operations over the page and free-list primitives, and those primitives themselves."""
import re
from common import view
from engine import *
from cacheview import strip

FB = 'cachelot::memalloc::free_blocks_by_size::'
PG = 'cachelot::memalloc::pages::'
PRIM = [FB + x for x in ('try_get_block', 'put_block', 'remove_block')] + [PG + x for x in ('touch', 'page_to_reuse', 'page_boundaries_from_addr')]
KEEP = [r'cachelot::memalloc::free_blocks_by_size::(try_get_block|put_block|remove_block)',
        r'cachelot::memalloc::pages::(touch|page_to_reuse|page_boundaries_from_addr)', r'ext_.*']
CB = 'ext_evicted'
STATS = mk('glob', 'cachelot::__stats__')


def nofork(c):
    return any(t.op == 'load' and split_ptr(t.a[0])[0] is STATS for t in subterms(c))


class MemView:
    def __init__(self):
        # operations over the primitives
        self.ops = view('drv/memalloc.cpp', [r'drv_.*', r'prb_.*'], KEEP)
        # the primitives, everything inlined
        self.prim = view('drv/memalloc.cpp', [r'drv_(pg_touch|reuse_begin|reuse_end|bound_begin|bound_end|pg_ctor|put|remove|try_get|fb_ctor)', r'prb_.*'], [r'ext_.*'])
        P = self.ops
        self.blk = P.fields('cachelot::memalloc::block')
        self.link = self.blk['group_by_size_link']
        n = P.fields('cachelot::intrusive_list_node')
        self.nxt, self.prv = n['next'], n['prev']
        self.pg = P.fields('cachelot::memalloc::pages')
        self.pi = P.fields('cachelot::memalloc::pages::page_info')
        self.pi_size = P.sizeof('cachelot::memalloc::pages::page_info')
        self.mem = P.fields('cachelot::memalloc')
        self.fb = P.fields('cachelot::memalloc::free_blocks_by_size')
        r = self.simple('prb_header')
        if r.op != 'c':
            raise AnalysisError('block header size is not a constant')
        self.header = r.a[0]
        r = self.simple('prb_memory')
        if r is not ptr(mk('arg', 0), self.header):
            raise AnalysisError('user memory does not start right after the block header')
        self.used_atom = self.simple('prb_used')
        self.stats = {}
        for f in P.fns:
            m = re.match(r'prb_stat_mem_(\w+)$', f.name)
            if m:
                ls = [t for t in subterms(self.simple(f.name)) if t.op == 'load']
                if len(ls) != 1:
                    raise AnalysisError('counter probe %s' % f.name)
                self.stats[split_ptr(ls[0].a[0])[1]] = m.group(1)
        self.pages_off = self.member('prb_pages')
        self.arena_off = self.member('prb_arena')
        self.fb_off = self.member('prb_free_blocks')
        self._paths = {}

    def member(self, fn):
        """offset of the pointer member an accessor returns"""
        t = self.simple(fn)
        if t.op != 'load' or split_ptr(t.a[0])[0] is not mk('arg', 0):
            raise AnalysisError('probe %s' % fn)
        return split_ptr(t.a[0])[1]

    def simple(self, fn, prog=None):
        ps = explore(prog or self.ops, fn, Model())
        if len(ps) != 1:
            raise AnalysisError('probe %s has %d paths' % (fn, len(ps)))
        return ps[0].ret

    def paths(self, fn):
        if fn not in self._paths:
            m = Model(nofork=nofork, load_events=True, clobbers=PRIM + [CB], unwind_calls=False)
            self._paths[fn] = explore(self.ops, fn, m)
        return self._paths[fn]

    def prim_paths(self, fn):
        k = 'prim:' + fn
        if k not in self._paths:
            self._paths[k] = explore(self.prim, fn, Model(nofork=nofork, load_events=True))
        return self._paths[k]


_mv = None


def memview():
    global _mv
    if _mv is None:
        _mv = MemView()
    return _mv


def word_used(atom, val, A):
    """does the fact (atom == val) decide the used flag of the block at A?  -> True (used) / False (free) / None"""
    if atom.op != 'atom':
        return None
    p, a, b = atom.a[0], atom.a[1], atom.a[2]

    def word(t):
        """(shift-in-bits of the flag inside t) or None"""
        if t.op == 'load' and t.a[0] is A and t.a[1] == 4:
            return 31
        if t.op == 'load' and t.a[0] is A and t.a[1] == 8:
            return 31
        if t.op == 'load' and t.a[0] is ptr(A, 3) and t.a[1] == 1:
            return 7
        if t.op == 'cast' and t.a[0] in ('zext', 'trunc'):
            return word(t.a[1])
        return None
    if p == 'slt' and b.op == 'c' and b.a[0] == 0 and word(a) is not None:
        return val
    if p == 'slt' and a.op == 'c' and a.a[0] == (1 << (atom.a[3] or 32)) - 1 and word(b) is not None:
        return not val
    if p == 'ult' and b.op == 'c' and word(a) is not None and b.a[0] == 1 << word(a):
        return not val
    if p == 'ult' and a.op == 'c' and word(b) is not None and a.a[0] == (1 << word(b)) - 1:
        return val
    if p in ('eq', 'bool'):
        x = a
        if x.op == 'bin' and x.a[0] == 'and' and x.a[2].op == 'c' and word(x.a[1]) is not None and x.a[2].a[0] == 1 << word(x.a[1]):
            if p == 'eq' and isc(b, 0):
                return not val
            if p == 'eq' and b is x.a[2]:
                return val
        while x.op == 'cast':
            x = x.a[1]
        if x.op == 'bin' and x.a[0] == 'lshr' and x.a[2].op == 'c' and word(x.a[1]) == x.a[2].a[0]:
            if p == 'bool' or isc(b, 1):
                return val
            if isc(b, 0):
                return not val
    return None


def used_fact(p, A, frm=0, upto=None):
    r = None
    for atom, val in p.flist[frm:upto]:
        x = word_used(atom, val, A)
        if x is not None:
            r = x
    return r
