"""Text-protocol view: every path of ascii::handle_received_data as
(request words -> cache calls -> reply bytes -> input position) summaries."""
import re
from common import view
from engine import *
from cacheview import cell, Slice, params, strip, low32

IO = 'cachelot::io_buffer::'
CA = 'cachelot::cache::Cache::'
SL = 'cachelot::slice::'
AS = 'cachelot::memcached::ascii::'
KEEP = [r'cachelot::cache::Cache::(do_.*|create_item|publish_stats|destroy_item)', r'cachelot::io_buffer::.*', r'cachelot::(str_to_int|int_to_str)',
        r'cachelot::slice::(split|search|operator==)', r'boost::system::.*', r'std::.*basic_string.*', r'cachelot::fnv1a::.*',
        r'cachelot::memcached::ascii::(parse_command_name|calc_hash|handle_statistics_command)', r'cachelot::cache::Item::assign_value',
        'std::search', 'std::equal']
RECV, SEND, CACHE = mk('arg', 0), mk('arg', 1), mk('arg', 2)
# calls that cannot raise (destructors, exception runtime, error-code plumbing)
NOTHROW = ['__cxa_end_catch', '__cxa_free_exception', '__cxa_allocate_exception', 'boost::system::error_code::error_code', 'boost::system::system_error::code',
           'boost::system::error_code::category', 'boost::system::error_code::value', 'boost::system::operator==', 'std::__cxx11::basic_string::~basic_string',
           'std::__cxx11::basic_string::front', 'std::__cxx11::basic_string::length', 'std::__cxx11::basic_string::size', 'std::__cxx11::basic_string::data',
           'std::__cxx11::basic_string::c_str', 'std::__cxx11::basic_string::begin', 'strlen', 'boost::system::system_error::~system_error']
IOPURE = [IO + n for n in ('begin_write confirm_write non_read begin_read confirm_read try_read_until read_savepoint write_savepoint '
                           'rollback_read_transaction rollback_write_transaction reset read_all ensure_capacity compact available capacity size').split()]
CMDOP = {'GET': 'do_get', 'GETS': 'do_get', 'ADD': 'do_add', 'APPEND': 'do_append', 'CAS': 'do_cas', 'PREPEND': 'do_prepend', 'REPLACE': 'do_replace',
         'SET': 'do_set', 'DEL': 'do_delete', 'INCR': 'do_incr', 'DECR': 'do_decr', 'TOUCH': 'do_touch', 'STATS': 'publish_stats', 'FLUSH_ALL': 'do_flush_all'}
STORAGE = ('ADD', 'APPEND', 'CAS', 'PREPEND', 'REPLACE', 'SET')


def L(t):
    c, a = lin(t)
    return (c, frozenset(a.items()))


def plus(l, k):
    return ((l[0] + k) & ((1 << 64) - 1), l[1])


def skey(s):
    return (L(s.b), L(s.e))


def slit(prog, s):
    """text of a slice over a constant, or None"""
    d = diff(s.e, s.b)
    if d is None or d < 0:
        return None
    g = prog.gstring(s.b)
    return None if g is None else g[:d]


def ext2(t):
    """begin, end of a slice returned in registers"""
    return Slice(mk('ext', t, 0), mk('ext', t, 1))


class AsciiView:
    def __init__(self):
        P = self.prog = view('drv/ascii.cpp', ['drv_.*', 'prb_.*'], KEEP)
        self.off = {n: P.field('cachelot::cache::Item', n) for n in ('m_timestamp', 'm_hash', 'm_value_length', 'm_expiration_time', 'm_opaque_flags', 'm_key_length')}
        self.item_size = P.sizeof('cachelot::cache::Item')
        self.sp = {k: self.probe_off('prb_split_' + k) for k in ('head_b', 'head_e', 'tail_b', 'tail_e')}
        self.cas_found, self.cas_stored = self.probe_off('prb_cas_found'), self.probe_off('prb_cas_stored')
        self.ar_found, self.ar_value = self.probe_off('prb_ar_found'), self.probe_off('prb_ar_value')
        self.cmds = P.enum('cachelot::memcached::Command')
        self.reply = P.enum('cachelot::net::ConversationReply')
        self.errs = P.enum('cachelot::error::cachelot_error_code')
        self.perrs = P.enum('cachelot::error::protocol_error_code')
        self._p = None

    def simple(self, fn):
        ps = explore(self.prog, fn, Model())
        if len(ps) != 1:
            raise AnalysisError('probe %s has %d paths' % (fn, len(ps)))
        return ps[0].ret

    def probe_off(self, fn):
        r = self.simple(fn)
        ls = [t for t in subterms(r) if t.op == 'load']
        if len(ls) != 1 or split_ptr(ls[0].a[0])[0] is not mk('arg', 0):
            raise AnalysisError('probe %s: unexpected shape %s' % (fn, show(r)))
        return split_ptr(ls[0].a[0])[1]

    def root(self):
        return self.prog.fn('drv_ascii')

    def paths(self):
        if self._p is None:
            nc = IOPURE + [SL + n for n in ('split', 'search', 'operator==')] + [n for n in NOTHROW] + \
                ['cachelot::str_to_int', 'cachelot::int_to_str', AS + 'parse_command_name', AS + 'calc_hash']
            ps = explore(self.prog, self.root(), Model(pure=['boost::system::system_error::code', 'boost::system::error_code::value'], clobbers=nc, nothrow=NOTHROW + [IO + n for n in ('confirm_write', 'confirm_read')], unwind_calls=True))
            self._p = [APath(self, p) for p in ps]
        return self._p


_av = None


def asciiview():
    global _av
    if _av is None:
        _av = AsciiView()
    return _av


def slice_arg(av, e, k):
    """slice passed by reference as argument k of event e"""
    b, o, vs = split_ptr(e.args[k])
    if b.op == 'glob' and not vs:
        x = Explorer.__new__(Explorer)
        x.prog = av.prog
        g = av.prog.globals.get(b.a[0])
        if g and g.get('const') and 'init' in g:
            p, q = x.ginit(g['init'], o, 8), x.ginit(g['init'], o + 8, 8)
            if p is not None and q is not None:
                return Slice(p, q)
    return Slice(cell(e, k, 0, 8), cell(e, k, 8, 8))


class Tok:
    """piece of output: lit(bytes) | copy(src,len) | int(value)"""

    def __init__(self, kind, a, b=None, e=None):
        self.kind, self.a, self.b, self.e = kind, a, b, e

    def __repr__(self):
        return repr(self.a) if self.kind == 'lit' else '%s(%s%s)' % (self.kind, show(self.a), ',' + show(self.b) if self.b is not None else '')


DIGITS = {8: 3, 16: 5, 32: 10, 64: 20}


def decode_output(av, events, buf):
    """-> (tokens, problems, writes) written to buffer `buf`, honouring savepoints"""
    out, prob = [], []
    marks = {}
    pend = None
    for e in events:
        if e.kind == 'store' and pend is not None:
            b, o, vs = split_ptr(e.addr)
            if b is pend['res']:
                if vs:
                    prob.append((e, 'bytes written at a variable position of the reserved space'))
                elif e.val.op == 'c':
                    pend['parts'][o] = Tok('lit', e.val.a[0].to_bytes(e.size, 'little').decode('latin1'), e=e)
                else:
                    pend['parts'][o] = Tok('val', e.val, C(e.size), e=e)
            continue
        if e.kind != 'call':
            continue
        n = e.name
        if n in ('memcpy', 'memmove') and pend is not None and split_ptr(e.args[0])[0] is pend['res']:
            b, o, vs = split_ptr(e.args[0])
            if vs:
                prob.append((e, 'bytes copied to a variable position of the reserved space'))
                continue
            s, ln = e.args[1], e.args[2]
            t = None
            if ln.op == 'c':
                g = av.prog.gstring(s)
                if g is not None and len(g) >= ln.a[0]:
                    t = Tok('lit', g[:ln.a[0]], e=e)
            pend['parts'][o] = t or Tok('copy', s, ln, e=e)
        elif n == 'cachelot::int_to_str' and pend is not None and split_ptr(e.args[-1])[0] is pend['res']:
            b, o, vs = split_ptr(e.args[-1])
            t = Tok('int', e.args[0], None, e=e)
            m = re.search(r'int_to_str<([^>,]*)[>,]', e.full)
            t.type = m.group(1) if m else ''
            pend['parts'][o] = t
        elif n == IO + 'begin_write' and e.args[0] is buf:
            if e.threw:
                continue
            pend = {'res': e.res, 'n': e.args[1] if len(e.args) > 1 else None, 'parts': {}, 'e': e}
        elif n == IO + 'confirm_write' and e.args[0] is buf:
            m = e.args[1]
            if pend is None:
                prob.append((e, 'bytes confirmed that were never reserved'))
                continue
            pos = 0
            toks = []
            rest = None
            for o in sorted(pend['parts']):
                t = pend['parts'][o]
                if rest is not None or o != pos:
                    prob.append((e, 'reserved space is not filled contiguously'))
                toks.append(t)
                if t.kind == 'lit':
                    pos += len(t.a)
                elif t.kind == 'val':
                    pos += t.b.a[0]
                else:
                    rest = t
            if rest is None:
                if m.op != 'c' or m.a[0] != pos:
                    prob.append((e, '%s bytes confirmed but %d written' % (show(m), pos)))
                if pend['n'] is None or pend['n'].op != 'c' or pend['n'].a[0] < pos:
                    prob.append((pend['e'], 'reserved %s bytes for %d' % (show(pend['n']), pos)))
            elif rest.kind == 'copy':
                tot = binop('add', rest.b, C(pos), 64)
                if not same(m, tot):
                    prob.append((e, 'confirmed length %s differs from written length %s' % (show(m), show(tot))))
                if pend['n'] is None or not same(pend['n'], tot):
                    k = pend['n']
                    if k is None or diff(k, tot) is None or diff(k, tot) < 0:
                        prob.append((pend['e'], 'reserved %s bytes for %s' % (show(k), show(tot))))
            elif rest.kind == 'int':
                if not same(m, binop('add', rest.e.res, C(pos), 64)):
                    prob.append((e, 'confirmed length %s is not the length of the number' % show(m)))
                w = {'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned char': 8, 'unsigned long long': 64}.get(getattr(rest, 'type', ''))
                k = pend['n']
                if w is None or k is None or k.op != 'c' or k.a[0] < DIGITS[w] + pos:
                    prob.append((pend['e'], 'reserved %s bytes for a number of type %s' % (show(k), getattr(rest, 'type', '?'))))
            pend = None
            out += toks
        elif n == IO + 'write_savepoint' and e.args[0] is buf:
            marks[e.res] = len(out)
        elif n == IO + 'rollback_write_transaction' and e.args[0] is buf:
            pend = None
            if e.args[1] in marks:
                del out[marks[e.args[1]]:]
            else:
                prob.append((e, 'roll-back to an unknown position'))
        elif n in (IO + 'reset',) and e.args[0] is buf:
            out = []
            pend = None
    # join literals
    j = []
    for t in out:
        if t.kind == 'lit' and j and j[-1].kind == 'lit':
            j[-1] = Tok('lit', j[-1].a + t.a, e=j[-1].e)
        else:
            j.append(t)
    return j, prob


class APath:
    """one path of the protocol handler, decoded"""

    def __init__(self, av, p):
        self.av, self.p = av, p
        self.out, self.prob = decode_output(av, p.events, SEND)
        self.caches = [e for e in p.events if e.kind == 'call' and e.name.startswith(CA)]
        self.catches = [i for i, e in enumerate(p.events) if e.kind == 'call' and e.name == '__cxa_begin_catch']
        self.throws = [e for e in p.events if e.kind == 'call' and e.name == '__cxa_throw']
        self.decode()

    def decode(self):
        av, p = self.av, self.p
        self.rest, self.word, self.slices = {}, {}, {}
        self.hdr = None
        self.conv = {}       # converted number -> (word, event)
        self.eqs = []        # (slice, literal, event)
        self.badsep = []
        self.pc = None
        self.loop = None
        for e in p.events:
            if e.kind == 'loop':
                r1 = [s for k, s in self.slices.items() if self.rest.get(k) == 1]
                b = en = None
                for i, t in e.x[1].items():
                    if r1 and L(t) == L(r1[0].b):
                        b = i
                    elif r1 and L(t) == L(r1[0].e):
                        en = i
                if b is not None and en is not None:
                    self.loop = (e, b, en)
                    s = Slice(mk('lv', e.x[0], b), mk('lv', e.x[0], en))
                    self.rest[skey(s)] = 'L'
                    self.slices[skey(s)] = s
                continue
            if e.kind != 'call':
                continue
            n = e.name
            if n == IO + 'try_read_until' and not e.threw:
                if self.hdr is None:
                    self.hdr = e
                    s = ext2(e.res)
                    h = Slice(s.b, ptr(s.e, -2))
                    self.rest[skey(h)] = 0
                    self.slices[skey(h)] = h
                    self.hdrslice = s
            elif n == SL + 'split':
                s = slice_arg(av, e, 1)
                sep = e.args[2]
                if not (isc(sep, 32) and len(e.args) == 3) and not (len(e.args) == 4 and slit(av.prog, Slice(e.args[2], e.args[3])) == ' '):
                    self.badsep.append(e)
                k = self.rest.get(skey(s))
                if k is None:
                    continue
                hd = Slice(cell2(e, av.sp['head_b']), cell2(e, av.sp['head_e']))
                tl = Slice(cell2(e, av.sp['tail_b']), cell2(e, av.sp['tail_e']))
                self.word[skey(hd)] = k
                self.rest[skey(tl)] = 'N' if k == 'L' else k + 1
                self.slices[skey(hd)] = hd
                self.slices[skey(tl)] = tl
            elif n == AS + 'parse_command_name':
                self.pc = e
            elif n == 'cachelot::str_to_int':
                s = Slice(e.args[0], e.args[1])
                self.conv[e.res] = (self.word.get(skey(s)), e)
            elif n == SL + 'operator==':
                a, b = slice_arg(av, e, 0), slice_arg(av, e, 1)
                la, lb = slit(av.prog, a), slit(av.prog, b)
                if lb is not None:
                    self.eqs.append((a, lb, e))
                elif la is not None:
                    self.eqs.append((b, la, e))

    # ---- classification
    def commands(self):
        """command codes this path can belong to"""
        if self.pc is None:
            return None
        r, st = self.pc.res, self.p.st
        if r in st.keq:
            v = st.keq[r]
            return [n for n, c in self.av.cmds.items() if c == v]
        lo, hi = st.rng.get(r, (0, None))
        ex = st.excl.get(r, ())
        return [n for n, c in self.av.cmds.items() if c >= lo and (hi is None or c <= hi) and c not in ex]

    def noreply(self):
        """('no'|'yes'|'bad'|None, level) by the facts about the rest of the arguments"""
        for s, lit, e in self.eqs:
            if lit == 'noreply' and self.rest.get(skey(s)) is not None:
                v = self.p.truth(e.res)
                if v is not None:
                    return ('yes' if v else 'bad', self.rest[skey(s)])
        best = None
        for k, lv in self.rest.items():
            if isinstance(lv, int) and lv >= 1:
                s = self.slices[k]
                if self.p.truth(cmp('eq', s.b, s.e, 64)):
                    best = ('no', lv)
        return best or (None, None)

    def where(self, e=None):
        if e is not None and e.loc:
            return e.loc.repo()
        return self.p.loc.repo() if self.p.loc else self.p.fn.where

    def has(self, s, word):
        return self.word.get(skey(s)) == word

    def thrown(self):
        """(enum kind, code name) of the last explicit throw before the handler"""
        if not self.throws:
            return None
        t = self.throws[-1]
        code = None
        for e in self.p.events:
            if e is t:
                break
            if e.kind == 'call' and e.name == 'boost::system::error_code::error_code' and len(e.args) >= 2 and e.args[1].op == 'c':
                code = e
        if code is None:
            return None
        v = code.args[1].a[0]
        if 'protocol_error_code' in code.full:
            return ('protocol', rname(self.av.perrs, v))
        if 'cachelot_error_code' in code.full:
            return ('cachelot', rname(self.av.errs, v))
        return None


def cell2(e, off):
    return mk('cres', e.n, 0, off, 8)


def rname(enum, v):
    for n, c in enum.items():
        if c == v:
            return n
    return str(v)
