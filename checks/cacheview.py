"""Cache-level view: every public Cache operation as effect summaries over the index
(dict) and allocator (memalloc) primitives."""
import re
from common import view
from engine import *

D = 'cachelot::dict::'
M = 'cachelot::memalloc::'
NOW = 'cachelot::cache::ExpirationClock::now'
KEEP = [r'cachelot::dict::(entry_for|insert|remove|del|remove_if|get|contains|size|capacity|is_expanding|empty|clear)',
        r'cachelot::dict::iterator::(value|key|unsafe_replace_kv|operator_bool)',
        r'cachelot::hash_table::remove',
        r'cachelot::memalloc::(alloc_or_evict|free|touch|realloc_inplace|reveal_actual_size)',
        r'cachelot::cache::ExpirationClock::now', r'cachelot::(str_to_int|int_to_str)', r'boost::system::.*', r'std::.*basic_string.*']
ROOTS = [r'drv_.*', r'prb_.*']

CMDS = ['get', 'set', 'add', 'replace', 'cas', 'append', 'prepend', 'delete', 'touch', 'incr', 'decr']
STORE = ('set', 'add', 'replace', 'cas', 'append', 'prepend')


def param_types(full):
    """top-level parameter types of a demangled signature"""
    s = full.strip()
    for suf in (' const', ' noexcept', ' &', ' &&'):
        while s.endswith(suf):
            s = s[:-len(suf)].rstrip()
    if not s.endswith(')'):
        return None
    d = 0
    i = len(s) - 1
    while i >= 0:
        c = s[i]
        if c in ')>' and not (c == '>' and s[i - 1] == '-'):
            d += 1
        elif c in '(<':
            d -= 1
            if d == 0:
                break
        i -= 1
    body = s[i + 1:-1]
    out, d, cur = [], 0, ''
    for c in body:
        if c in '(<[{':
            d += 1
        elif c in ')>]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def cell(e, k, off, size):
    """value of a local object passed by address as argument k of event e"""
    b, o, vs = split_ptr(e.args[k])
    if o + off in e.snap.get(k, {}):
        return e.snap[k][o + off]
    av = e.av.get(k)
    if av and av[0] == 'ev':
        return mk('cres', av[1], av[2], o + off, size)
    return mk('load', ptr(e.args[k], off), size, 0)


class Slice:
    def __init__(self, b, e):
        self.b, self.e = b, e

    def __repr__(self):
        return '[%s..%s)' % (show(self.b), show(self.e))


class Iter:
    def __init__(self, t, p):
        self.t, self.p = t, p

    def key(self):
        return (self.t, self.p)

    def __repr__(self):
        return 'at(%s,%s)' % (show(self.t), show(self.p))


def params(e, method=True):
    """-> (sret, this, [decoded parameters])"""
    args = list(range(len(e.args)))
    sret = None
    if args and 'S' in (e.pa[0] if e.pa else ''):
        sret = args.pop(0)
    this = None
    if method and args:
        this = args.pop(0)
    pts = param_types(e.full)
    out = []
    if pts is None:
        raise AnalysisError('cannot decode signature %s' % e.full)
    for t in pts:
        t0 = re.sub(r'\bconst\b', '', t).strip()
        ref = t0.endswith('&') or t0.endswith('*')
        base = t0.rstrip('&* ').strip()
        if base.endswith('slice') and not t0.endswith('*'):
            if ref:
                k = args.pop(0)
                out.append(Slice(cell(e, k, 0, 8), cell(e, k, 8, 8)))
            else:
                k, k2 = args.pop(0), args.pop(0)
                out.append(Slice(e.args[k], e.args[k2]))
        elif base.endswith('::iterator') and not t0.endswith('*'):
            if ref:
                k = args.pop(0)
                out.append(Iter(cell(e, k, 0, 8), cell(e, k, 8, 4)))
            else:
                if len(args) >= 2 and split_ptr(e.args[args[0]])[0].op == 'alloca' and 'B' in e.pa[args[0]]:
                    k = args.pop(0)
                    out.append(Iter(cell(e, k, 0, 8), cell(e, k, 8, 4)))
                else:
                    k, k2 = args.pop(0), args.pop(0)
                    p = e.args[k2]
                    out.append(Iter(e.args[k], p))
        else:
            if not args:
                break
            out.append(e.args[args.pop(0)])
    return sret, this, out


def low32(t):
    """a length that was narrowed to 32 bits and widened again"""
    if t.op == 'cast' and t.a[0] == 'zext' and t.a[3] == 32 and t.a[1].op == 'cast' and t.a[1].a[0] == 'trunc':
        return t.a[1].a[1]
    if t.op == 'bin' and t.a[0] == 'and' and isc(t.a[2], 0xffffffff):
        return t.a[1]
    return t


def strip(t, sub=None, memo=None):
    """forget memory versions of loads (terms compare as access paths) and substitute"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    r = memo.get(id(t))
    if r is not None:
        return r
    if t.op == 'load':
        r = mk('load', strip(t.a[0], sub, memo), t.a[1], 0)
    elif t.op == 'ptr':
        r = ptr(strip(t.a[0], sub, memo), t.a[1], tuple((strip(x, sub, memo), k) for x, k in t.a[2]))
    elif t.op == 'bin':
        r = binop(t.a[0], strip(t.a[1], sub, memo), strip(t.a[2], sub, memo), t.a[3])
    elif t.op == 'cast':
        r = cast(t.a[0], strip(t.a[1], sub, memo), t.a[2], t.a[3])
    elif t.op == 'atom' and t.a[0] in ('eq', 'ult', 'slt'):
        r = cmp(t.a[0], strip(t.a[1], sub, memo), strip(t.a[2], sub, memo), t.a[3])
    elif any(isinstance(x, T) for x in t.a):
        r = mk(t.op, *[strip(x, sub, memo) for x in t.a])
    else:
        r = t
    if sub and r in sub:
        r = sub[r]
    memo[id(t)] = r
    return r


def is_item(t):
    return t.op == 'itemat'


class CacheView:
    def __init__(self):
        self.prog = view('drv/cache.cpp', ROOTS, KEEP)
        P = self.prog
        self._paths = {}
        # anchors
        self.off = {}
        for n in ('m_timestamp', 'm_hash', 'm_value_length', 'm_expiration_time', 'm_opaque_flags', 'm_key_length'):
            self.off[n] = P.field('cachelot::cache::Item', n)
        self.item_size = P.sizeof('cachelot::cache::Item')
        self.found_off = self.probe_off('prb_ef_found')
        self.at_off = self.probe_addr('prb_ef_at')
        self.dict_off = self.probe_addr('prb_dict')
        self.alloc_off = self.probe_addr('prb_alloc')
        self.newest_off = self.probe_off('prb_newest')
        self.evict_off = self.probe_off('prb_evictions_enabled')
        self.page_off = self.probe_off('prb_page_size')
        self.stats = {}
        for f in P.fns:
            m = re.match(r'prb_stat_(cache|mem)_(\w+)$', f.name)
            if m:
                r = self.simple(f.name)
                ls = [t for t in subterms(r) if t.op == 'load']
                if len(ls) != 1:
                    raise AnalysisError('counter probe %s' % f.name)
                b, o, v = split_ptr(ls[0].a[0])
                self.statglob = b
                self.stats[o] = '%s.%s' % (m.group(1), m.group(2))
        if not self.stats:
            raise AnalysisError('no statistics counters found')

    def simple(self, fn):
        ps = explore(self.prog, fn, Model())
        if len(ps) != 1:
            raise AnalysisError('probe %s has %d paths' % (fn, len(ps)))
        return ps[0].ret

    def probe_off(self, fn):
        r = self.simple(fn)
        ls = [t for t in subterms(r) if t.op == 'load']
        if len(ls) != 1 or split_ptr(ls[0].a[0])[0] is not mk('arg', 0):
            raise AnalysisError('probe %s: unexpected shape %s' % (fn, show(r)))
        return split_ptr(ls[0].a[0])[1]

    def probe_addr(self, fn):
        b, o, v = split_ptr(self.simple(fn))
        if b is not mk('arg', 0) or v:
            raise AnalysisError('probe %s: unexpected shape' % fn)
        return o

    # ---- model of the primitives
    def model(self, loads=True):
        def bump(x, st):
            st.extra['dict'] = st.extra.get('dict', 0) + 1
            st.extra['slots'] = {}

        def h_value(x, st, i, e):
            a = e.args[0]
            t = x.load(st, a, 8, 64, None)
            p = x.load(st, ptr(a, 8), 4, 32, None)
            v = st.extra.get('slots', {}).get((t, p))
            if v is None:
                v = mk('itemat', t, p, st.extra.get('dict', 0))
            st.env[i['id']] = v
            e.res = v
            e.x = Iter(t, p)
            return 'event'

        def h_replace(x, st, i, e):
            a = e.args[0]
            t = x.load(st, a, 8, 64, None)
            p = x.load(st, ptr(a, 8), 4, 32, None)
            e.x = Iter(t, p)
            sl = dict(st.extra.get('slots', {}))
            sl[(t, p)] = e.args[-1]
            st.extra['slots'] = sl
            return 'event'

        def h_bump(x, st, i, e):
            bump(x, st)
            return None

        H = {D + 'iterator::value': h_value, D + 'iterator::unsafe_replace_kv': h_replace}
        for n in ('entry_for', 'insert', 'remove', 'del', 'remove_if', 'clear'):
            H[D + n] = h_bump

        def h_alloc(x, st, i, e):
            # an allocation that is not allowed to evict leaves the index alone
            if not isc(params(e)[2][1], 0):
                bump(x, st)
            return None
        H[M + 'alloc_or_evict'] = h_alloc
        nc = [D + n for n in ('entry_for', 'insert', 'remove', 'del', 'remove_if', 'get', 'contains', 'size', 'capacity', 'is_expanding',
                              'iterator::operator_bool', 'iterator::key')]
        nc += [M + n for n in ('alloc_or_evict', 'free', 'touch', 'reveal_actual_size')]
        nc += [NOW, 'cachelot::str_to_int', 'cachelot::int_to_str']

        def nofork(c):
            return any(t.op == 'load' and split_ptr(t.a[0])[0] is mk('glob', 'cachelot::__stats__') for t in subterms(c))
        # the three-state clock is read through NOW only; reading it twice gives two values
        return Model(handlers=H, clobbers=nc, nofork=nofork, load_events=loads, unwind_calls=True)

    def paths(self, cmd):
        if cmd not in self._paths:
            ps = explore(self.prog, 'drv_' + cmd, self.model())
            self._paths[cmd] = [CPath(self, cmd, p) for p in ps]
        return self._paths[cmd]

    # ---- argument terms per command
    def cache_arg(self, cmd):
        return mk('arg', 1) if cmd in ('incr', 'decr') and self.has_sret('drv_' + cmd) else mk('arg', 0)

    def has_sret(self, fn):
        f = self.prog.fn(fn)
        return bool(f.args) and 'S' in (f.args[0].get('a') or '')


_cv = None


def cacheview():
    global _cv
    if _cv is None:
        _cv = CacheView()
    return _cv


class Lookup:
    """one entry_for/get/contains of the command's key"""

    def __init__(self, e, key, hash_, found, at):
        self.e, self.key, self.hash, self.found, self.at = e, key, hash_, found, at
        self.item = None
        self.state = None   # absent | live | dead | unchecked


class CPath:
    def __init__(self, cv, cmd, p):
        self.cv, self.cmd, self.p = cv, cmd, p
        self.decode()

    def sret(self):
        return mk('arg', 0) if self.cv.has_sret('drv_' + self.cmd) else None

    def arg(self, n):
        """n-th parameter after the cache"""
        return mk('arg', n + (2 if self.cv.has_sret('drv_' + self.cmd) else 1))

    @property
    def cache(self):
        return mk('arg', 1 if self.cv.has_sret('drv_' + self.cmd) else 0)

    def decode(self):
        cv, p = self.cv, self.p
        self.acts = []        # (kind, ev, data)
        self.lookups = []
        for e in p.events:
            if e.kind != 'call':
                if e.kind == 'store':
                    self.acts.append(('store', e, None))
                elif e.kind == 'load':
                    self.acts.append(('load', e, None))
                continue
            n = e.name
            if n == D + 'entry_for':
                s, t, ps = params(e)
                if s is None:
                    raise AnalysisError('entry_for: result not returned through memory')
                L = Lookup(e, ps[0], ps[1], mk('cres', e.n, s, cv.found_off, 1),
                           Iter(mk('cres', e.n, s, cv.at_off, 8), mk('cres', e.n, s, cv.at_off + 8, 4)))
                L.this = e.args[t]
                L.threw = e.threw
                self.lookups.append(L)
                self.acts.append(('lookup', e, L))
            elif n == D + 'insert':
                s, t, ps = params(e)
                self.acts.append(('insert', e, ps))
            elif n == D + 'remove':
                s, t, ps = params(e)
                self.acts.append(('remove', e, ps))
            elif n == D + 'del':
                s, t, ps = params(e)
                self.acts.append(('del', e, ps))
            elif n == D + 'iterator::value':
                self.acts.append(('value', e, e.x))
            elif n == D + 'iterator::unsafe_replace_kv':
                s, t, ps = params(e)
                self.acts.append(('replace', e, [e.x] + ps))
            elif n == M + 'free':
                self.acts.append(('free', e, e.args[-1]))
            elif n == M + 'touch':
                self.acts.append(('touch', e, e.args[-1]))
            elif n == M + 'alloc_or_evict':
                s, t, ps = params(e)
                self.acts.append(('alloc', e, ps))
            elif n in (D + 'remove_if', D + 'clear'):
                self.acts.append(('bulk', e, n))
            elif n in ('memcpy', 'memmove'):
                self.acts.append(('copy', e, e.args))
            else:
                self.acts.append(('call', e, n))

    # ---- facts about lookups
    def found(self, L):
        if L.threw:
            return None
        return self.p.truth(L.found)

    def expiry(self, item, upto=None):
        """'live' / 'dead' / None by the path's facts about the item's expiration time"""
        st = item_exp(self.cv, item)
        fl = self.p.flist if upto is None else self.p.flist[:upto]
        for atom, val in fl:
            if atom.op != 'atom':
                continue
            if atom.a[0] == 'ult' and strip(atom.a[2]) is st and is_now(atom.a[1]):
                return 'live' if val else 'dead'
            if atom.a[0] == 'eq' and strip(atom.a[1]) is st and isc(atom.a[2], 0xffffffff) and val:
                return 'live'
        return None

    def where(self, e):
        return e.loc.repo() if e and e.loc else '?'


def is_now(t):
    return t.op == 'callres' and t.a[1] == NOW


def item_exp(cv, item):
    return mk('load', ptr(strip(item), cv.off['m_expiration_time']), 4, 0)
