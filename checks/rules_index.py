"""H01-H03: the hash table and the dictionary built from two of them.

Slot numbers are compared in the ring of integers modulo the (power of two) capacity: `& mask`, the addition of the
capacity and the wrap-around step are all the identity there.  Facts that need the reduced value (a distance comparison,
an array index) additionally require a proof that the term is reduced below the capacity.  Loops are treated by
induction: a path that starts at a loop head stands for every iteration, relations between the loop variables are
inferred from their initial and next values and used only when they are inductive."""
import re
from common import view
from engine import *
from cacheview import strip, cell, Slice
from rules_lib import ev

HTN = 'cachelot::hash_table::'
EQ = 'cachelot::slice::operator=='


def fz(d):
    return frozenset((k, v) for k, v in d.items() if v)


def unf(f):
    return dict(f)


def fadd(a, b, k=1):
    d = dict(a)
    for x, v in b:
        d[x] = d.get(x, 0) + k * v
    return fz(d)


ZERO = fz({})
ONE = fz({1: 1})


def fconst(f):
    """constant value of a form, else None"""
    d = dict(f)
    if not d:
        return 0
    if list(d) == [1]:
        return d[1]
    return None


class Tab:
    def __init__(self, P):
        from rules_cache import ht_fields
        self.P = P
        F = ht_fields(P)
        self.size, self.cap, self.mask, self.h, self.e = (F[x] for x in ('m_size', 'm_capacity', 'mask', 'm_hashes', 'm_entries'))


class TP:
    """one path of a table operation; T: the table"""

    def __init__(self, tab, p, T, elim=None, red=(), seg='last'):
        self.tab, self.p, self.T = tab, p, strip(T)
        self.elim = elim or {}
        self.red = set(red)
        self.busy, self._caps = set(), None
        ev_ = p.events
        k = 0
        self.loop = None
        for n, e in enumerate(ev_):
            if e.kind == 'loop':
                k = n + 1
                self.loop = e
        self.at = k
        self.pre, self.seg = ev_[:k], ev_[k:]
        self.MASK = mk('load', ptr(self.T, tab.mask), 4, 0)
        self.CAP = mk('load', ptr(self.T, tab.cap), 4, 0)
        self.tm = {}
        self.raw = {}                     # load term -> (array, index form)
        self.hs, self.es = [], []         # stores of the segment: (index form, value, event)
        self.prestores = []
        self.sizes = []                   # stores to the element count
        self.bad = []
        for n, e in enumerate(ev_):
            if e.kind == 'load':
                s = self.slot(e.addr)
                if s:
                    self.raw[e.val] = s
                    self.tm.setdefault(e.val, (len(self.hs) if s[0] == 'h' else len(self.es)) if n >= k else 'pre')
            elif e.kind == 'store':
                s = self.slot(e.addr)
                if s is None:
                    if split_ptr(strip(e.addr))[0] is self.T:
                        o = split_ptr(e.addr)[1]
                        if o == tab.size:
                            self.sizes.append((e, n < k))
                        else:
                            self.bad.append(('overwrites a field of the table (+%d)' % o, e))
                    else:
                        self.bad.append(('writes outside the table: %s' % show(e.addr)[:60], e))
                elif n < k:
                    self.prestores.append((s[0], s[1], e.val, e))
                else:
                    (self.hs if s[0] == 'h' else self.es).append((s[1], e.val, e))

    def slot(self, addr):
        """('h'|'e', index form) of an array element address"""
        b, o, vs = split_ptr(addr)
        if b.op != 'load' or b.a[1] != 8:
            return None
        b2 = strip(b.a[0])
        for n, off, w in (('h', self.tab.h, 4), ('e', self.tab.e, 8)):
            if b2 is ptr(self.T, off):
                f = {}
                if o % w or any(c % w for _, c in vs):
                    return None
                r = fz({1: o // w})
                for v, c in vs:
                    r = fadd(r, self.M(v), c // w)
                ok = o == 0 and len(vs) == 1 and vs[0][1] == w and self.reduced(vs[0][0], False) or o == 0 and not vs
                return (n, r, ok)
        return None

    def val(self, t):
        """value of a term: ('h', index form, version) / ('e', ...) for slots, term otherwise"""
        while t.op == 'cast' and t.a[0] == 'zext':
            t = t.a[1]
        if t.op == 'load':
            s = self.raw.get(t) or self.slot(t.a[0])
            if s:
                n = self.tm.get(t, 0)
                i = s[1]
                if n == 'pre':
                    return (s[0], i, 'pre')
                st = self.hs if s[0] == 'h' else self.es
                for j, v, e in reversed(st[:n]):
                    d = fconst(fadd(i, j, -1))
                    if d == 0:
                        return self.val(v)
                    if d is None:
                        return (s[0], i, n)
                return (s[0], i, 0)
        return t

    def M(self, t):
        """t modulo the capacity"""
        if t.op == 'c':
            return fz({1: sgn(t.a[0], t.a[1] or 32)})
        if t.op == 'cast' and t.a[0] in ('zext', 'trunc', 'sext'):
            return self.M(t.a[1])
        if t.op == 'bin':
            o, a, b = t.a[0], t.a[1], t.a[2]
            if o == 'add':
                return fadd(self.M(a), self.M(b))
            if o == 'sub':
                return fadd(self.M(a), self.M(b), -1)
            if o == 'and':
                if self.is_mask(a):
                    return self.M(b)
                if self.is_mask(b):
                    return self.M(a)
            if o == 'urem' and strip(b) is self.CAP:
                return self.M(a)
            if o == 'mul' and b.op == 'c':
                return fz({k: v * b.a[0] for k, v in self.M(a)})
        if t.op == 'sel':
            c, x, y = t.a
            x, y = self.M(x), self.M(y)
            if x == y:
                return x
            e, f, g = (c.a[0], y, x) if c.op == 'not' else (c, x, y)
            if e.op == 'atom' and e.a[0] == 'eq' and isinstance(e.a[2], T):
                # equal where f is taken: then f is g
                d = fadd(self.M(e.a[1]), self.M(e.a[2]), -1)
                if d in (fadd(f, g, -1), fadd(g, f, -1)):
                    return g
            if e.op == 'atom' and e.a[0] == 'ult' and strip(e.a[2]) is self.CAP and self.M(e.a[1]) == f and g == ZERO and e.a[1].op == 'bin' and e.a[1].a[0] == 'add' and isc(e.a[1].a[2], 1) and self.reduced(e.a[1].a[1]):
                return f
        s = strip(t)
        if s is self.CAP:
            return ZERO
        if s is self.MASK:
            return fz({1: -1})
        if t in self.elim:
            return self.elim[t]
        v = self.val(t)
        if isinstance(v, T) and v is not t:
            return self.M(v)
        return fz({v: 1})

    def is_mask(self, t):
        s = strip(t)
        return s is self.MASK or s is binop('sub', self.CAP, C(1, 32), 32) or s is binop('add', self.CAP, C(-1, 32), 32)

    def caps(self):
        if self._caps is None:
            self._caps = {self.CAP} | {x for a, _ in self.p.flist if a.op == 'atom' for x in a.a[1:3] if isinstance(x, T) and strip(x) is self.CAP}
        return self._caps

    def reduced(self, t, soft=True):
        """t is known to be below the capacity; soft: also loop counters that step by one from slot to slot (they stay below, because a table always has an empty slot)"""
        while t.op == 'cast':
            t = t.a[1]
        if t in self.red or isc(t, 0) or soft and ('soft', t) in self.red:
            return True
        if (t, soft) in self.busy:
            return False
        self.busy.add((t, soft))
        try:
            return self._reduced(t, soft)
        finally:
            self.busy.discard((t, soft))

    def _reduced(self, t, soft):
        if t.op == 'sel':
            c, a, b = t.a
            if self.reduced(a, soft) and self.reduced(b, soft):
                return True
            for x, y, at in ((a, b, c), (b, a, neg(c))):
                # wrapped ? 0 : next
                if self.reduced(x, soft) and y.op == 'bin' and y.a[0] == 'add' and isc(y.a[2], 1) and self.reduced(y.a[1], soft) and any(at is cmp('eq', y, k, 32) or at is neg(cmp('ult', y, k, 32)) for k in self.caps() | self.capsin(at)):
                    return True
            # pos < home ? pos + capacity - home : pos - home
            if c.op == 'atom' and c.a[0] == 'ult':
                x, y = c.a[1], c.a[2]
            elif c.op == 'not' and c.a[0].op == 'atom' and c.a[0].a[0] == 'ult':
                x, y = c.a[0].a[1], c.a[0].a[2]
                a, b = b, a
            else:
                return False
            d = lin(binop('sub', x, y, 32), 32)
            e = (d[0], dict(d[1]))
            w = lambda q: (q[0], {strip(k): n for k, n in q[1].items()})
            up = lin(binop('sub', binop('add', x, self.CAP, 32), y, 32), 32)
            return self.reduced(x, soft) and self.reduced(y, soft) and w(lin(a, 32)) == w(up) and w(lin(b, 32)) == w(d)
        if t.op == 'bin':
            o, a, b = t.a[0], t.a[1], t.a[2]
            if o == 'and' and (self.is_mask(a) or self.is_mask(b)):
                return True
            if o == 'urem' and strip(b) is self.CAP:
                return True
            if o == 'sub' and self.reduced(a, soft) and self.p.fact(cmp('ult', a, b, 32)) is False:
                return True
            if o == 'add' and isc(b, 1) and self.reduced(a, soft):
                if any(self.p.fact(cmp('eq', t, k, 32)) is False for k in self.caps()):
                    return True
            if o in ('add', 'sub'):
                # home > pos:  pos + capacity - home
                c, m = lin(t, 32)
                m = {strip(k): n for k, n in m.items()}
                for at, v in self.p.flist:
                    if at.op == 'atom' and at.a[0] == 'ult' and v:
                        x, y = at.a[1], at.a[2]
                        ex = lin(binop('sub', binop('add', x, self.CAP, 32), y, 32), 32)
                        if (c, m) == (ex[0], {strip(k): n for k, n in ex[1].items()}) and self.reduced(x, soft) and self.reduced(y, soft):
                            return True
        return any(self.p.fact(cmp('ult', t, c, 32)) is True for c in self.caps())

    def capsin(self, at):
        return {x for x in subterms(at) if strip(x) is self.CAP}

    def eqs(self):
        """pairs of forms known to be equal"""
        for a, v in self.p.flist:
            if a.op == 'atom' and a.a[0] == 'eq' and v and isinstance(a.a[2], T):
                yield fadd(self.M(a.a[1]), self.M(a.a[2]), -1)

    def infeasible(self):
        """an equality that cannot hold: x + capacity == y for slot numbers x, y"""
        for a, v in self.p.flist:
            if v and a.op == 'atom' and a.a[0] == 'eq' and isinstance(a.a[2], T) and a.a[3] == 32:
                for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                    if x.op == 'bin' and x.a[0] == 'add' and self.reduced(y):
                        for c, o in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                            if strip(c) is self.CAP and self.reduced(o):
                                return True
        return False

    def same(self, f, g):
        d = fadd(f, g, -1)
        if not d:
            return True
        n = fz({k: -v for k, v in d})
        E = set(self.eqs())
        if any(q == d or q == n for q in E):
            return True
        return len(E) <= 40 and any(fadd(q, r, s) in (d, n) for q in E for r in E for s in (1, -1))

    def zero(self, i, ver=0):
        """is the hash of slot i zero?"""
        r = None
        for a, v in self.p.flist:
            if a.op == 'atom' and a.a[0] == 'eq' and a.a[2].op == 'c' and self.val(a.a[1]) == ('h', i, ver):
                if a.a[2].a[0] == 0:
                    r = v
                elif v:
                    r = False
        return r

    def dist(self, a):
        """form of a distance term whose value is exactly (form mod capacity)"""
        return self.M(a) if self.reduced(a) else None

    def less(self, f, g):
        """known order of two distances: set of '<', '>=', '>', '<=' that hold for f ? g"""
        out = set()
        for a, v in self.p.flist:
            if a.op != 'atom' or not isinstance(a.a[2], T):
                continue
            x, y = self.dist(a.a[1]), self.dist(a.a[2])
            if x is None or y is None:
                continue
            if a.a[0] == 'ult':
                if x == f and y == g:
                    out |= {'<', '<='} if v else {'>='}
                elif x == g and y == f:
                    out |= {'>', '>='} if v else {'<='}
            elif a.a[0] == 'eq' and v and (x, y) in ((f, g), (g, f)):
                out |= {'<=', '>='}
        if {'<=', '>='} <= out:
            pass
        return out

    def home(self, i, ver=0):
        """is the entry of slot i at its home position? (its distance is zero)"""
        f = fadd(i, fz({('h', i, ver): 1}), -1)
        r = None
        for a, v in self.p.flist:
            if a.op == 'atom' and isinstance(a.a[2], T):
                x, y = self.dist(a.a[1]), self.dist(a.a[2])
                if a.a[0] == 'eq' and x is not None and y is not None and fadd(x, y, -1) in (f, fz({k: -c for k, c in f})):
                    r = v
                elif a.a[0] == 'ult' and x == f and isc(a.a[2], 1):
                    r = v
                elif a.a[0] == 'ult' and isc(a.a[1], 0) and y == f:
                    r = not v
                elif a.a[0] == 'ult' and v and x is not None and y is not None and fadd(x, y, -1) in (f, fz({k: -c for k, c in f})):
                    r = False
        return r


def group(paths):
    """paths by the loop they end in: [(loop init, [paths])]; straight paths under None"""
    out = {}
    for p in paths:
        l = None
        for e in p.events:
            if e.kind == 'loop':
                l = e
        k = None if l is None else (l.x[0], tuple(sorted(l.x[1].items(), key=lambda z: z[0])))
        out.setdefault(k, []).append(p)
    return out


def induct(tab, T, key, paths, redargs):
    """inductive relations between the variables of a loop: ({variable: form}, reduced variables)"""
    hdr, init = key[0], dict(key[1])
    lv = {k: mk('lv', hdr, k) for k in init}
    back = [p for p in paths if p.outcome == 'backedge' and p.x[0] == hdr]
    num = [k for k in lv if init[k] is not None]
    # which variables stay below the capacity
    red = {lv[k] for k in num} | {('soft', lv[k]) for k in num}
    while True:
        bad = set()
        for k in num:
            for soft in (False, True):
                v = ('soft', lv[k]) if soft else lv[k]
                if v not in red:
                    continue
                t0 = TP(tab, paths[0], T, {}, set(redargs))
                if not t0.reduced(init[k], soft):
                    bad.add(v)
                    continue
                for p in back:
                    x = p.x[1].get(k)
                    tp = TP(tab, p, T, {}, red | set(redargs))
                    if x is None or not (x is lv[k] or tp.reduced(x, soft) or soft and x.op == 'bin' and x.a[0] == 'add' and isc(x.a[2], 1) and tp.reduced(x.a[1])):
                        bad.add(v)
                        break
        if not bad:
            break
        red -= bad
    # relations
    t0 = TP(tab, paths[0], T, {}, set(redargs))
    I = {k: t0.M(init[k]) for k in num}
    cands = []
    E = set(t0.eqs())

    def variants(k):
        """the difference itself, and constants it is equal to by a known equality"""
        return [k] + [z for q in E for s_ in (1, -1) for z in [fadd(k, q, s_)] if fconst(z) is not None and z != k]
    for f in num:
        for g in num:
            if g == f:
                continue
            cands += [(f, (g,), k) for k in variants(fadd(I[f], I[g], -1))]
            for h in num:
                if h not in (f, g):
                    cands += [(f, (g, h), k) for k in variants(fadd(fadd(I[f], I[g], -1), I[h]))]
    good = list(cands)
    while True:
        # with the assumed relations, are they preserved?
        nxt = []
        for f, gs, k in good:
            form = fz({lv[gs[0]]: 1})
            if len(gs) > 1:
                form = fadd(form, fz({lv[gs[1]]: 1}), -1)
            form = fadd(form, k)
            el = {lv[f]: form}
            ok = True
            for p in back:
                tp = TP(tab, p, T, el, red | set(redargs))
                x = [p.x[1].get(z) for z in (f,) + gs]
                if any(z is None for z in x):
                    ok = False
                    break
                r = tp.M(x[1])
                if len(gs) > 1:
                    r = fadd(r, tp.M(x[2]), -1)
                r = fadd(r, k)
                if not tp.same(tp.M(x[0]), r):
                    ok = False
                    break
            if ok:
                nxt.append((f, gs, k))
        if len(nxt) == len(good):
            break
        good = nxt
    elim = {}
    used = set()
    for f, gs, k in sorted(good, key=lambda c: (len(c[1]), fconst(c[2]) is None, -c[0])):
        if lv[f] in elim or lv[f] in used or any(lv[g] in elim for g in gs) or any(mentions_lv(k, z) for z in elim):
            continue
        form = fz({lv[gs[0]]: 1})
        if len(gs) > 1:
            form = fadd(form, fz({lv[gs[1]]: 1}), -1)
        elim[lv[f]] = fadd(form, k)
        used |= {lv[g] for g in gs}
    return elim, red


def mentions_lv(f, v):
    return any(k is v for k, _ in f)


def at_init(tp, form, init, hdr):
    """form with the loop variables replaced by their initial values"""
    r = ZERO
    for k, c in form:
        if isinstance(k, T) and k.op == 'lv' and k.a[0] == hdr and k.a[1] in init:
            r = fadd(r, tp.M(init[k.a[1]]), c)
        elif isinstance(k, T) or k == 1:
            r = fadd(r, fz({k: 1}), c)
        else:
            return None
    return r


def at_next(tp, form, nxt, hdr):
    r = ZERO
    for k, c in form:
        if isinstance(k, T) and k.op == 'lv' and k.a[0] == hdr and k.a[1] in nxt:
            r = fadd(r, tp.M(nxt[k.a[1]]), c)
        elif isinstance(k, T) or k == 1:
            r = fadd(r, fz({k: 1}), c)
        else:
            return None
    return r


def stored_hash(p, t, h):
    """t is the hash kept for h: h itself unless it is zero, else a non-zero constant -> ('=', None) / ('c', constant) / ('x', constant) / None"""
    while t.op == 'cast':
        t = t.a[1]
    if t.op == 'intr' and 'umax' in t.a[0] and {x for x in t.a[1:3]} == {h, C(1, 32)}:
        return ('x', 1)
    if t.op == 'sel':
        z = cmp('eq', h, C(0, 32), 32)
        a, b = t.a[1], t.a[2]
        c = t.a[0]
        if c is z and a.op == 'c' and a.a[0] and b is h:
            return ('x', a.a[0])
        if c is neg(z) and b.op == 'c' and b.a[0] and a is h:
            return ('x', b.a[0])
    if t is h and p.fact(cmp('eq', h, C(0, 32), 32)) is False:
        return ('=', None)
    if t.op == 'c' and t.a[0] and p.fact(cmp('eq', h, C(0, 32), 32)) is True:
        return ('c', t.a[0])
    return None


def where(p):
    for e in reversed(p.events):
        if e.loc and e.loc.j and e.loc.repo().startswith('src/'):
            return e.loc.repo()
    return p.fn.j.get('file', '?')


_iv = None


class IndexView:
    def __init__(self):
        self.low = view('drv/index.cpp', [r'drv_t_.*', r'prb_.*'], [re.escape(EQ), 'ext_pred'])
        self.mid = view('drv/index.cpp', [r'drv_t_(get|put|del|contains|remove_if)'], [re.escape(EQ), 'ext_pred', HTN + '(entry_for|insert|remove)'])
        self.eq = view('drv/index.cpp', [r'drv_(slice|key)_eq'], ['memcmp', 'bcmp'])
        self.dict = view('drv/index.cpp', ['drv_d_.*', 'drv_i_.*', 'drv_t_.*'],
                         ['ext_pred', HTN + '(entry_for|insert|remove|get|put|del|contains|remove_if|size|clear|threshold_reached|empty|empty_at|ok|hash_table|~hash_table|capacity|hash_at)'])
        self.tab = Tab(self.low)
        self.c = {}

    def paths(self, which, fn, **k):
        if (which, fn) not in self.c:
            P = getattr(self, which)
            self.c[which, fn] = explore(P, P.fn(fn), Model(load_events=True, **k))
        return self.c[which, fn]


def iview():
    global _iv
    if _iv is None:
        _iv = IndexView()
    return _iv


A = [mk('arg', k) for k in range(8)]


def key_is(e, k, b, en):
    """argument k of the comparison is the slice [b, en)"""
    return cell(e, k, 0, 8) is b and cell(e, k, 8, 8) is en


def eq_event(tp, e, kb, ke):
    """(index form) of the slot whose key this comparison compares with the wanted key, else None"""
    for i, j in ((0, 1), (1, 0)):
        b, en = cell(e, i, 0, 8), cell(e, i, 8, 8)
        ob, oe = cell(e, j, 0, 8), cell(e, j, 8, 8)
        if ob is kb and oe is ke:
            x = split_ptr(b)[0]
            v = tp.val(x)
            if isinstance(v, tuple) and v[0] == 'e':
                iv = iview()
                want_b = subst_item(iv.low, 'prb_item_key', x)
                want_e = subst_item(iv.low, 'prb_item_key_end', x)
                if strip(b) is want_b and strip(en) is want_e:
                    return v
    return None


_probe = {}


def subst_item(P, fn, item):
    if fn not in _probe:
        ps = explore(P, P.fn(fn), Model())
        if len(ps) != 1:
            raise AnalysisError('probe %s' % fn)
        _probe[fn] = ps[0].ret
    return strip(_probe[fn], {A[0]: strip(item)})


def lookup_rule(ctx, R, consts):
    """entry_for: what it stops at and what it returns"""
    iv = iview()
    fn = 'hash_table::entry_for'
    ps = iv.paths('low', 'drv_t_entry_for')
    ctx.covered(iv.low.fn('drv_t_entry_for'), ps)
    kb, ke, h = A[1], A[2], A[3]
    n = 0
    for key, grp in group(ps).items():
        elim, red = ({}, set()) if key is None else induct(iv.tab, A[0], key, grp, ())
        hdr, init = (None, {}) if key is None else (key[0], dict(key[1]))
        for p in grp:
            tp = TP(iv.tab, p, A[0], elim, red)
            if tp.infeasible():
                continue
            w = where(p)
            if p.outcome not in ('ret', 'backedge'):
                continue
            for m, e in tp.bad:
                ctx.ob(R['kept'], fn, False, 'a lookup ' + m, e.loc.repo(), p)
            ctx.ob(R['kept'], fn, not (tp.hs or tp.es or tp.sizes or tp.prestores), 'a lookup leaves the table unmodified', w, p)
            for e in p.events:
                if e.kind == 'load' and tp.slot(e.addr):
                    s = tp.slot(e.addr)
                    ctx.ob(R['range'], fn, s[2], 'slot index %s is below the capacity' % fshow(s[1]), e.loc.repo(), p)
            # the hash looked for
            H = None
            for t in [x for k in init for x in [init[k]]] + [x for a, _ in p.flist if a.op == 'atom' for x in a.a[1:3] if isinstance(x, T)]:
                for y in subterms(t):
                    s = stored_hash(p, y, h)
                    if s:
                        H = y
                        consts.add(('entry_for',) + s)
            if H is None:
                ctx.ob(R['home'], fn, False, 'the lookup starts from the stored form of the hash (zero is replaced)', w, p)
                continue
            Hf = fz({H: 1})
            # evidence per slot
            passed, found = {}, {}
            for a, v in p.flist:
                if a.op == 'atom' and a.a[0] == 'eq':
                    x, y = tp.val(a.a[1]), tp.val(a.a[2])
                    for s, o in ((x, y), (y, x)):
                        if isinstance(s, tuple) and s[0] == 'h' and o is H and not v:
                            passed[s[1]] = True
            for e in p.calls(EQ):
                v = eq_event(tp, e, kb, ke)
                if v is None:
                    ctx.ob(R['key'], fn, False, 'keys are compared in full: %s' % show(e.args[0])[:40], e.loc.repo(), p)
                    continue
                r = p.truth(e.res)
                if r is False:
                    passed[v[1]] = True
                elif r is True:
                    found[v[1]] = True
            # an empty slot never holds the key
            start = None
            if hdr is None:
                start = Hf
            else:
                # the position the loop is at: the first slot it reads
                for e in tp.seg:
                    if e.kind == 'load' and tp.slot(e.addr) and tp.slot(e.addr)[0] == 'h':
                        start = tp.slot(e.addr)[1]
                        break
                if start is None:
                    ctx.ob(R['stop'], fn, p.outcome != 'ret', 'a lookup inspects a slot before it ends', w, p)
                    continue
                i0 = at_init(tp, start, init, hdr)
                ok = i0 is not None and reach(tp, Hf, i0, passed)
                ctx.ob(R['home'], fn, ok, 'the first slot inspected is the home position of the hash', w, p)
            n += 1
            if p.outcome == 'backedge':
                if p.x[0] != hdr:
                    continue
                nx = at_next(tp, start, p.x[1], hdr)
                ok = nx is not None and fconst(fadd(nx, start, -1)) not in (None, 0) and reach(tp, start, nx, passed) or nx is not None and tp.same(nx, fadd(start, ONE)) and reach(tp, start, fadd(start, ONE), passed)
                ctx.ob(R['step'], fn, ok, 'the lookup goes on to the next slot, and only past a slot with another key: %s -> %s' % (fshow(start), fshow(nx) if nx is not None else '?'), w, p)
                continue
            sink = p.calls('drv_sink_found')
            if len(sink) != 1:
                ctx.ob(R['key'], fn, False, 'lookup returns a result', w, p)
                continue
            fl, pos = sink[0].args
            P = tp.M(pos)
            t = p.truth(fl)
            ctx.ob(R['range'], fn, tp.reduced(pos), 'returned position is below the capacity', w, p)
            if t is True:
                ok = found.get(P) is True and tp.zero(P) is not True
                nz = tp.zero(P) is False or any(a.op == 'atom' and a.a[0] == 'eq' and v and {tp.val(a.a[1]), tp.val(a.a[2])} == {('h', P, 0), H} for a, v in p.flist)
                ctx.ob(R['key'], fn, ok and nz, 'a slot is reported as found only if it is occupied and its key equals the wanted key, and it is that slot', w, p)
            elif t is False:
                D = fadd(P, fz({('h', P, 0): 1}), -1)
                probe = fadd(P, Hf, -1)
                ok = tp.zero(P) is True or '>' in tp.less(probe, D)
                ok = ok and (reach(tp, start, P, passed))
                ctx.ob(R['stop'], fn, ok, 'a lookup gives up only at an empty slot or at an entry closer to its home position, and reports that position', w, p)
            else:
                ctx.ob(R['key'], fn, False, 'result of the lookup is not decided on the path', w, p)
    return n


def reach(tp, a, b, passed):
    """b is a, or lies ahead of a with only slots known to hold other keys in between"""
    k = 0
    while k < 8:
        if tp.same(a, b):
            return True
        if not any(tp.same(x, a) for x in passed):
            return False
        a = fadd(a, ONE)
        k += 1
    return False


def fshow(f):
    return ' + '.join('%s%s' % ('' if c == 1 else '%d*' % c, (show(k)[:40] if isinstance(k, T) else k if k == 1 else '%s[%s]' % (k[0], fshow(k[1])))) for k, c in sorted(f, key=lambda z: str(z))) or '0'


def keyeq_rule(ctx, R):
    iv = iview()
    for fn in ('drv_slice_eq', 'drv_key_eq'):
        ps = iv.paths('eq', fn)
        ctx.covered(iv.eq.fn(fn), ps)
        ab, ae, bb, be = (strip(mk('load', ptr(A[k], o), 8, 0)) for k, o in ((0, 0), (0, 8), (1, 0), (1, 8)))
        seen = {True: 0, False: 0, 'step': 0}
        for p in ps:
            w = where(p)
            eqlen = None      # lengths known equal / different
            memc = None
            for a, v in p.flist:
                if a.op != 'atom' or a.a[0] != 'eq':
                    continue
                x, y = strip(a.a[1]), strip(a.a[2])
                l = lin_sub(x, y)
                want = lin_sub2((ae, 1), (ab, -1), (be, -1), (bb, 1))
                if l in (want, negl(want)):
                    eqlen = v
            # a byte loop compares *(p) with *(p + distance)
            loop = None
            for e in p.events:
                if e.kind == 'loop':
                    loop = e
            bytefact = None
            for a, v in p.flist:
                if a.op == 'atom' and a.a[0] == 'eq' and a.a[1].op == 'load' and a.a[2].op == 'load' and a.a[1].a[1] == 1:
                    bytefact = (v, a)
            pend = None
            ptrs = {}
            for a, v in p.flist:
                if a.op == 'atom' and a.a[0] == 'eq':
                    x, y = strip(a.a[1]), strip(a.a[2])
                    if {x, y} == {ab, bb}:
                        ptrs['b'] = v
                    if {x, y} == {ae, be}:
                        ptrs['e'] = v
            mem = [e for e in p.events if e.kind == 'call' and e.name in ('memcmp', 'bcmp')]
            memeq = None
            for e in mem:
                a0, a1, ln = (strip(x) for x in e.args[:3])
                whole = {a0, a1} == {ab, bb} and lin_sub(ln, C(0)) in (lin_sub2((ae, 1), (ab, -1)), lin_sub2((be, 1), (bb, -1)))
                z = p.fact(cmp('eq', e.res, C(0, 32), 32))
                if whole:
                    memeq = (e, z)
                else:
                    ctx.ob(R['key'], 'slice::operator==', False, 'compares the whole of both ranges', e.loc.repo(), p)
            if p.outcome == 'backedge':
                seen['step'] += 1
                good = bytefact and bytefact[0] is True and len(p.x[1]) >= 1
                good = good and lockstep(p, loop, ab, bb, bytefact[1])
                ctx.ob(R['key'], 'slice::operator==', good, 'the comparison goes on only after equal bytes, one byte at a time from the start of both ranges', w, p)
                continue
            if p.outcome != 'ret':
                continue
            r = p.truth(p.ret)
            if r is None and memeq is not None:
                t = p.ret
                r = 'mem'
                okm = strip(t) in (strip(cmp('eq', memeq[0].res, C(0, 32), 32)), strip(cast('zext', cmp('eq', memeq[0].res, C(0, 32), 32), 8, 1)))
                ctx.ob(R['key'], 'slice::operator==', okm and eqlen is True, 'equal exactly if lengths and bytes are equal', w, p)
                seen[True] += 1
                seen[False] += 1
                continue
            if r is True:
                seen[True] += 1
                atend = loop is not None and ends_at(p, loop, ab, ae, bb, be)
                samep = ptrs.get('b') is True and (ptrs.get('e') is True or eqlen is True)
                zero = memeq is not None and memeq[1] is True
                none = eqlen is True and loop is None and p.fact(cmp('eq', ab, ae, 64)) is True
                ctx.ob(R['key'], 'slice::operator==', samep or eqlen is True and (atend or zero or empty_range(p, ab, ae)), 'keys are reported equal only if their lengths are equal and all bytes compared equal', w, p)
            elif r is False:
                seen[False] += 1
                diffb = bytefact is not None and bytefact[0] is False and loop is not None and lockstep(p, loop, ab, bb, bytefact[1], step=False)
                ctx.ob(R['key'], 'slice::operator==', eqlen is False or diffb or memeq is not None and memeq[1] is False, 'keys are reported different only for different lengths or a different byte', w, p)
            else:
                ctx.ob(R['key'], 'slice::operator==', False, 'undecided result', w, p)
        ctx.ob(R['key'], 'slice::operator==', seen[True] > 0 and seen[False] > 0, 'comparison can succeed and fail', 'src/cachelot/slice.h')


def lin_sub(x, y):
    c1, a1 = lin(x)
    c2, a2 = lin(y)
    m = (1 << 64) - 1
    d = dict(a1)
    for k, v in a2.items():
        d[k] = (d.get(k, 0) - v) & m
    d = {k: v for k, v in d.items() if v}
    return ((c1 - c2) & m, frozenset(d.items()))


def negl(l):
    m = (1 << 64) - 1
    return (-l[0] & m, frozenset((k, -v & m) for k, v in l[1]))


def lin_sub2(*ts):
    m = (1 << 64) - 1
    d = {}
    for t, k in ts:
        d[t] = (d.get(t, 0) + k) & m
    return (0, frozenset((k, v) for k, v in d.items() if v))


def empty_range(p, b, e):
    return any(a.op == 'atom' and a.a[0] == 'eq' and v and {strip(a.a[1]), strip(a.a[2])} == {b, e} for a, v in p.flist)


def lockstep(p, loop, ab, bb, fact, step=True):
    """the two bytes compared are at the same offset from the starts of both ranges, offset 0 first, +1 per round"""
    hdr, init = loop.x
    x, y = strip(fact.a[1].a[0]), strip(fact.a[2].a[0])

    def rep(t, f):
        return strip(subst(t, lambda z: f.get(z)))
    ini = {mk('lv', hdr, k): strip(v) for k, v in init.items() if v is not None}
    i0 = {lin(rep(x, ini)), lin(rep(y, ini))} if False else [lin(rep(x, ini)), lin(rep(y, ini))]
    want = [lin(ab), lin(bb)]
    if not (i0 == want or i0 == want[::-1]):
        return False
    if not step:
        return True
    nx = {mk('lv', hdr, k): strip(v) for k, v in p.x[1].items() if v is not None}
    for t in (x, y):
        if lin(rep(t, nx)) != lin(ptr(t, 1)) and lin_sub(rep(t, nx), t) != (1, frozenset()):
            return False
    return True


def ends_at(p, loop, ab, ae, bb, be):
    """the loop ended because one cursor reached the end of its range"""
    hdr, init = loop.x
    for a, v in p.flist[loop.fpos:]:
        if a.op == 'atom' and a.a[0] in ('eq', 'ult') and isinstance(a.a[2], T):
            x, y = strip(a.a[1]), strip(a.a[2])
            if a.a[0] == 'eq' and v or a.a[0] == 'ult' and not v:
                ini = {mk('lv', hdr, k): strip(z) for k, z in init.items() if z is not None}
                d0 = lin_sub(strip(subst(x, lambda z: ini.get(z))), strip(subst(y, lambda z: ini.get(z))))
                w = lin_sub2((ae, 1), (ab, -1))
                w2 = lin_sub2((be, 1), (bb, -1))
                if d0 in (w, negl(w), w2, negl(w2)):
                    return True
    return False


def entry_value(tp, v):
    """what an entry slot is given: ('e', index form, version) or a term"""
    return tp.val(v)


def contradictory(p, env):
    """facts of the path are impossible for these constant loop variables"""
    for a, v in p.flist:
        r = ev(a, env)
        if r is not None and bool(r) != bool(v):
            return True
    return False


def insert_rule(ctx, R, consts):
    """insert: displacement keeps the probe order, nothing is lost, the new entry is counted and located"""
    iv = iview()
    fn = 'hash_table::insert'
    ps = [p for p in iv.paths('low', 'drv_t_insert') if p.outcome in ('ret', 'backedge')]
    ctx.covered(iv.low.fn('drv_t_insert'), ps)
    pos0, h, item = A[1], A[4], A[5]
    for key, grp in group(ps).items():
        if key is None:
            # no loop on the path
            elim, red, hdr, init = {}, set(), None, {}
        else:
            elim, red = induct(iv.tab, A[0], key, grp, (pos0,))
            hdr, init = key[0], dict(key[1])
        tps = [TP(iv.tab, p, A[0], elim, red | {pos0}) for p in grp]
        lv = {k: mk('lv', hdr, k) for k in init}
        # carried entry and hash: what an exit path stores in the empty slot
        fin = [t for t in tps if t.p.outcome == 'ret']
        car_h = car_e = None
        for t in fin:
            if len(t.hs) >= 1 and len(t.es) >= 1:
                car_h, car_e = t.hs[-1][1], t.es[-1][1]
        if car_h is None:
            for t in tps:
                ctx.ob(R['place'], fn, False, 'the new entry is stored with its hash', where(t.p), t.p)
            continue

        def initial(v):
            return init.get(v.a[1]) if v.op == 'lv' and v.a[0] == hdr else v

        def strip_z(v):
            while v.op == 'cast':
                v = v.a[1]
            return v
        car_h, car_e = strip_z(car_h), strip_z(car_e)
        ih, ie = initial(car_h), initial(car_e)
        s = stored_hash(grp[0], ih, h) if ih is not None else None
        if s:
            consts.add(('insert',) + s)
        ctx.ob(R['hash'], fn, s is not None, 'the hash stored is never zero and otherwise the hash given', where(grp[0]), grp[0])
        ctx.ob(R['place'], fn, ie is item, 'the entry placed first is the new one', where(grp[0]), grp[0])
        kind = {}
        for t in tps:
            p = t.p
            w = where(p)
            for m, e in t.bad:
                ctx.ob(R['place'], fn, False, 'an insertion ' + m, e.loc.repo(), p)
            for a_, i, v, e in t.prestores:
                ctx.ob(R['place'], fn, False, 'slot written before the search for a place', e.loc.repo(), p)
            for e in p.events:
                if e.kind in ('load', 'store') and t.slot(e.addr):
                    sl = t.slot(e.addr)
                    ctx.ob(R['range'], fn, sl[2], 'slot index %s is below the capacity' % fshow(sl[1]), e.loc.repo(), p)
            Q = None
            for e in t.seg:
                if e.kind == 'load' and t.slot(e.addr) and t.slot(e.addr)[0] == 'h':
                    Q = t.slot(e.addr)[1]
                    break
            if Q is None:
                ctx.ob(R['place'], fn, False, 'a slot is inspected before it is written', w, p)
                continue
            if hdr is not None:
                i0 = at_init(t, Q, init, hdr)
                ctx.ob(R['order'], fn, i0 is not None and t.same(i0, t.M(pos0)), 'the search for a place starts at the position the lookup returned', w, p)
            else:
                ctx.ob(R['order'], fn, t.same(Q, t.M(pos0)), 'the search for a place starts at the position the lookup returned', w, p)
            D = fadd(Q, fz({('h', Q, 0): 1}), -1)
            L = fadd(Q, t.M(car_h), -1)
            hv = [(i, t.val(v)) for i, v, e in t.hs]
            evs = [(i, t.val(v)) for i, v, e in t.es]
            ch, ce = t.val(car_h), t.val(car_e)
            if p.outcome == 'backedge':
                if p.x[0] != hdr:
                    continue
                nx = at_next(t, Q, p.x[1], hdr)
                ctx.ob(R['order'], fn, nx is not None and t.same(nx, fadd(Q, ONE)), 'the search for a place visits consecutive slots', w, p)
                ctx.ob(R['order'], fn, t.zero(Q) is False, 'the search goes on only past occupied slots', w, p)
                nh, ne = (t.val(strip_z(p.x[1][v.a[1]])) if v.op == 'lv' and v.a[0] == hdr else v for v in (car_h, car_e))
                if hv or evs:
                    kind[id(p)] = 'swap'
                    ok = hv == [(Q, ch)] and evs == [(Q, ce)] and nh == ('h', Q, 0) and ne == ('e', Q, 0)
                    ctx.ob(R['swap'], fn, ok, 'a displaced entry and its hash are carried on and the carried pair takes their slot', w, p)
                    ctx.ob(R['order'], fn, bool({'<', '<='} & t.less(D, L)), 'an entry is displaced only by one that is at least as far from its home position', w, p)
                else:
                    kind[id(p)] = 'pass'
                    ctx.ob(R['swap'], fn, nh == ch and ne == ce, 'the carried entry and hash stay together', w, p)
                    ctx.ob(R['order'], fn, '>=' in t.less(D, L) or '>' in t.less(D, L), 'an entry keeps its slot only if it is at least as far from its home position as the carried one', w, p)
                if any(not pre for e, pre in t.sizes):
                    ctx.ob(R['count'], fn, False, 'element count changed for every slot visited', w, p)
            else:
                kind[id(p)] = 'final'
                ctx.ob(R['place'], fn, t.zero(Q) is True and hv == [(Q, ch)] and evs == [(Q, ce)], 'the carried entry ends up in an empty slot together with its hash', w, p)
                ctx.ob(R['count'], fn, count_delta(t) == 1, 'an insertion adds one to the element count', w, p)
        # where the new entry is: ghost = has it been placed yet
        if hdr is None:
            for t in tps:
                ctx.ob(R['where'], fn, t.same(t.M(t.p.ret), t.M(pos0)), 'reports the slot of the new entry', where(t.p), t.p)
            continue
        env = {0: {lv[k]: v.a[0] for k, v in init.items() if v is not None and v.op == 'c'}, 1: None}
        stay = {k: True for k in init}            # under ghost 1: variable = slot of the new entry
        for _ in range(12):
            new = {0: dict(env[0]), 1: None if env[1] is None else dict(env[1])}
            for g in (0, 1):
                if env[g] is None:
                    continue
                for t in tps:
                    p = t.p
                    k = kind.get(id(p))
                    if k not in ('swap', 'pass') or contradictory(p, env[g]):
                        continue
                    g2 = 1 if k == 'swap' or g else 0
                    nv = {}
                    for z, v in p.x[1].items():
                        c = ev(v, env[g]) if v is not None else None
                        if c is not None:
                            nv[lv[z]] = c
                    if new[g2] is None:
                        new[g2] = nv
                    else:
                        new[g2] = {z: c for z, c in new[g2].items() if nv.get(z) == c}
            if new == env:
                break
            env = new
        good = set(init)
        while True:
            drop = set()
            for z in good:
                for t in tps:
                    p = t.p
                    k = kind.get(id(p))
                    Q = next((t.slot(e.addr)[1] for e in t.seg if e.kind == 'load' and t.slot(e.addr) and t.slot(e.addr)[0] == 'h'), None)
                    if k == 'swap' and not contradictory(p, env[0]):
                        if not t.same(t.M(p.x[1][z]), Q):
                            drop.add(z)
                    if k in ('swap', 'pass') and env[1] is not None and not contradictory(p, env[1]):
                        if p.x[1][z] is not lv[z]:
                            drop.add(z)
            if not drop:
                break
            good -= drop
        for t in tps:
            p = t.p
            if kind.get(id(p)) != 'final':
                continue
            Q = next((t.slot(e.addr)[1] for e in t.seg if e.kind == 'load' and t.slot(e.addr) and t.slot(e.addr)[0] == 'h'), None)
            w = where(p)
            if not contradictory(p, env[0]):
                r = pick(p.ret, env[0])
                ctx.ob(R['where'], fn, t.same(t.M(r), Q), 'reports the slot of the new entry (nothing displaced)', w, p)
            if env[1] is not None and not contradictory(p, env[1]):
                r = pick(p.ret, env[1])
                ctx.ob(R['where'], fn, r.op == 'lv' and r.a[0] == hdr and r.a[1] in good, 'reports the slot of the new entry, not the one of the entry displaced last', w, p)


def pick(t, env):
    while t.op == 'sel':
        c = ev(t.a[0], env)
        if c is None:
            break
        t = t.a[1] if c else t.a[2]
    return t


def count_delta(t):
    """net change of the element count on the path; None if not constant"""
    if not t.sizes:
        return 0
    cur = None
    n = 0
    addr = ptr(t.T, t.tab.size)
    for e, pre in t.sizes:
        c, a = lin(e.val, 32)
        if not a:
            return ('=', c)
        if len(a) == 1 and list(a.values()) == [1]:
            x = list(a)[0]
            if x.op == 'load' and strip(x.a[0]) is strip(addr):
                n = sgn(c, 32) if cur is None or True else n
                cur = True
                continue
        return None
    # the engine forwards the previous store, so the last one carries the total unless it was re-read
    tot = 0
    prev = None
    for e, pre in t.sizes:
        c, a = lin(e.val, 32)
        x = list(a)[0]
        if prev is not None and x is prev:
            tot = sgn(c, 32)
        else:
            tot += sgn(c, 32)
        prev = x
    return tot


def remove_rule(ctx, R):
    iv = iview()
    fn = 'hash_table::remove'
    ps = [p for p in iv.paths('low', 'drv_t_remove') if p.outcome in ('ret', 'backedge')]
    ctx.covered(iv.low.fn('drv_t_remove'), ps)
    pos = A[1]
    moves = 0
    for key, grp in group(ps).items():
        if key is None:
            elim, red, hdr, init = {}, set(), None, {}
        else:
            elim, red = induct(iv.tab, A[0], key, grp, (pos,))
            hdr, init = key[0], dict(key[1])
        tps = [t for t in (TP(iv.tab, p, A[0], elim, red | {pos}) for p in grp) if not t.infeasible()]
        # hole: the slot that receives the following entry
        hole = None
        for t in tps:
            if t.p.outcome == 'backedge' and t.hs:
                hole = t.hs[0][0]
        # the hole holds zero at the loop head?
        zpre = all(any(a == 'h' and t.same(i, t.M(pos)) and isc(v, 0) for a, i, v, e in t.prestores) for t in tps)
        Z = zpre and hole is not None
        back = [t for t in tps if t.p.outcome == 'backedge' and t.p.x[0] == hdr]

        def val0(t, v, i):
            """v is zero, possibly as the content of the (zero) hole"""
            x = t.val(v)
            return isinstance(x, T) and isc(x, 0) or Z and x == ('h', i, 0)
        for t in back:
            X = fadd(hole, ONE) if hole is not None else None
            if not any(i == X and val0(t, v, hole) for i, v, e in t.hs):
                Z = False
        for t in tps:
            p = t.p
            w = where(p)
            for m, e in t.bad:
                ctx.ob(R['gap'], fn, False, 'a removal ' + m, e.loc.repo(), p)
            for e in p.events:
                if e.kind in ('load', 'store') and t.slot(e.addr):
                    sl = t.slot(e.addr)
                    ctx.ob(R['range'], fn, sl[2], 'slot index %s is below the capacity' % fshow(sl[1]), e.loc.repo(), p)
            for a_, i, v, e in t.prestores:
                ctx.ob(R['gap'], fn, t.same(i, t.M(pos)) and (a_ == 'e' or isc(v, 0)), 'only the removed slot is emptied', e.loc.repo(), p)
            if p.outcome == 'backedge':
                if p.x[0] != hdr:
                    continue
                if any(not pre for e, pre in t.sizes):
                    ctx.ob(R['count'], fn, False, 'element count changed for every slot moved', w, p)
                if hole is None:
                    ctx.ob(R['gap'], fn, False, 'following entries are moved together with their hashes', w, p)
                    continue
                moves += 1
                X = fadd(hole, ONE)
                i0, nx = at_init(t, hole, init, hdr), at_next(t, hole, p.x[1], hdr)
                ctx.ob(R['gap'], fn, i0 is not None and t.same(i0, t.M(pos)) and nx is not None and t.same(nx, X), 'the gap starts at the removed slot and moves to the next slot with every entry moved', w, p)
                lasth, laste = {}, {}
                for i, v, e in t.hs:
                    lasth[i] = t.val(v)
                for i, v, e in t.es:
                    laste[i] = t.val(v)
                ok = lasth.get(hole) == ('h', X, 0) and laste.get(hole) == ('e', X, 0) and set(lasth) <= {hole, X} and set(laste) <= {hole, X}
                ok = ok and (X not in lasth or any(i == X and val0(t, v, hole) for i, v, e in t.hs))
                ctx.ob(R['gap'], fn, ok, 'the following entry moves into the gap together with its hash, and leaves a gap behind', w, p)
                ctx.ob(R['shift'], fn, t.zero(X) is False and t.home(X) is False, 'only entries away from their home position are moved', w, p)
                continue
            # exit
            if hdr is None or hole is None:
                hl = t.M(pos)
                zero = any(i == hl and isc(v, 0) for i, v, e in t.hs) or any(a == 'h' and i == hl and isc(v, 0) for a, i, v, e in t.prestores)
            else:
                hl = hole
                zero = Z or any(t.same(i, hl) and isc(t.val(v) if isinstance(t.val(v), T) else C(1), 0) for i, v, e in t.hs)
            ctx.ob(R['gap'], fn, zero, 'the slot left over is marked empty', w, p)
            X = fadd(hl, ONE)
            ctx.ob(R['shift'], fn, t.zero(X) is True or t.home(X) is True, 'entries stop being moved only at an empty slot or at an entry in its home position', w, p)
            ctx.ob(R['count'], fn, count_delta(t) == -1, 'a removal takes one from the element count', w, p)
    ctx.ob(R['gap'], fn, moves > 0, 'following entries are moved into the gap', 'src/cachelot/hash_table.h')


def sweep_rule(ctx, R):
    iv = iview()
    # clear
    fn = 'hash_table::clear'
    ps = iv.paths('low', 'drv_t_clear')
    ctx.covered(iv.low.fn('drv_t_clear'), ps)
    n = 0
    for key, grp in group(ps).items():
        hdr, init = (None, {}) if key is None else (key[0], dict(key[1]))
        for p in grp:
            t = TP(iv.tab, p, A[0], {}, set())
            w = where(p)
            if p.outcome == 'ret':
                ms = [e for e in p.events if e.kind == 'call' and e.name.startswith('llvm.memset') or e.kind == 'call' and e.name == 'memset']
                okm = any(strip(e.args[0]) is mk('load', ptr(t.T, iv.tab.h), 8, 0) and isc(e.args[1], 0) and lin_sub(strip(e.args[2]), C(0)) == lin_sub2((t.CAP, 4)) for e in ms)
                if okm:
                    n += 1
                ctx.ob(R['clear'], fn, count_delta(t) == ('=', 0), 'clearing sets the element count to zero', w, p)
                if hdr is not None:
                    over = None
                    for a, v in p.flist:
                        if a.op == 'atom' and isinstance(a.a[2], T) and (a.a[0] == 'ult' and not v and strip(a.a[2]) is t.CAP or a.a[0] == 'eq' and v and t.CAP in (strip(a.a[1]), strip(a.a[2]))):
                            x = a.a[1] if strip(a.a[2]) is t.CAP else a.a[2]
                            over = x
                    okx = over is not None and zero_start(over, init, hdr)
                    okp = not okx and (ptr_sweep(t, p, init, hdr, exit_=True) or down_sweep(t, p, init, hdr, exit_=True))
                    ctx.ob(R['clear'], fn, okm or okx or okp, 'clearing ends only after the last slot', w, p)
                else:
                    ctx.ob(R['clear'], fn, okm or p.fact(cmp('eq', t.CAP, C(0, 32), 32)) is True, 'clearing covers all slots', w, p)
            elif p.outcome == 'backedge':
                n += 1
                ok = False
                for i, v, e in t.hs:
                    if isc(v, 0) and i and e.addr is not None:
                        x = split_ptr(e.addr)[2][0][0] if split_ptr(e.addr)[2] else None
                        while x is not None and x.op == 'cast':
                            x = x.a[1]
                        if x is not None and x.op == 'lv' and isc(init.get(x.a[1]), 0) and p.x[1].get(x.a[1]) is binop('add', x, C(1, 32), 32):
                            ok = True
                ok = ok or ptr_sweep(t, p, init, hdr, exit_=False) or down_sweep(t, p, init, hdr, exit_=False)
                ctx.ob(R['clear'], fn, ok, 'every slot from the first on is marked empty', w, p)
    ctx.ob(R['clear'], fn, n > 0, 'slots are marked empty', 'src/cachelot/hash_table.h')
    # remove_if
    fn = 'hash_table::remove_if'
    ps = [p for p in iv.paths('mid', 'drv_t_remove_if') if p.outcome in ('ret', 'backedge')]
    ctx.covered(iv.mid.fn('drv_t_remove_if'), ps)
    seen = set()
    for p in ps:
        w = where(p)
        loops = [e for e in p.events if e.kind == 'loop']
        var = {mk('lv', e.x[0], k): v for e in loops for k, v in e.x[1].items()}
        t = TP(iv.tab, p, A[0], {}, set())
        calls = [e for e in p.events if e.kind == 'call' and (e.name == 'ext_pred' or 'operator()' in e.name) and not e.threw]
        rem = p.calls(HTN + 'remove')
        pos = None
        for v, i in var.items():
            if isc(i, 0):
                pos = v
        if pos is None:
            ctx.ob(R['sweep'], fn, False, 'the sweep starts at the first slot', w, p)
            continue
        if p.outcome == 'ret':
            ok = any(a.op == 'atom' and isinstance(a.a[2], T) and (a.a[0] == 'ult' and not v and a.a[1] is pos and strip(a.a[2]) is t.CAP or a.a[0] == 'eq' and v and {strip(a.a[1]), strip(a.a[2])} == {pos, t.CAP}) for a, v in p.flist)
            ctx.ob(R['sweep'], fn, ok and not rem, 'the sweep ends only after the last slot', w, p)
            seen.add('end')
            continue
        nx = p.x[1].get(pos.a[1], pos) if p.x[0] == pos.a[0] else pos
        tf = fz({pos: 1})
        tv = {tuple_key(t.val(e.args[-1])) for e in calls}
        if rem:
            seen.add('remove')
            ok = len(rem) == 1 and strip(rem[0].args[0]) is t.T and rem[0].args[1] is pos and len(calls) == 1 and tv == {('e', tf)} and p.truth(calls[0].res) is True and nx is pos
            ctx.ob(R['sweep'], fn, ok, 'a slot is removed only if its entry satisfies the condition, and is inspected again because the next entry may have moved there', w, p)
        elif nx is binop('add', pos, C(1, 32), 32):
            seen.add('skip')
            ok = t.zero(tf) is True or len(calls) == 1 and tv == {('e', tf)} and p.truth(calls[0].res) is False
            ctx.ob(R['sweep'], fn, ok, 'a slot is passed only if it is empty or its entry does not satisfy the condition', w, p)
        else:
            ctx.ob(R['sweep'], fn, False, 'the sweep visits consecutive slots', w, p)
    ctx.ob(R['sweep'], fn, seen >= {'end', 'remove', 'skip'}, 'the sweep removes, skips and ends', 'src/cachelot/hash_table.h')


def tuple_key(v):
    return (v[0], v[1]) if isinstance(v, tuple) else v


def zero_start(x, init, hdr):
    while x.op == 'cast':
        x = x.a[1]
    return x.op == 'lv' and isc(init.get(x.a[1]) or C(1), 0)


def ptr_sweep(t, p, init, hdr, exit_):
    """a pointer runs over the hashes from the first to the end"""
    hb = mk('load', ptr(t.T, t.tab.h), 8, 0)
    cur = [mk('lv', hdr, k) for k, v in init.items() if v is not None and strip(v) is hb]
    for c in cur:
        if exit_:
            for a, v in p.flist:
                if a.op == 'atom' and a.a[0] in ('eq', 'ult') and v == (a.a[0] == 'eq') and isinstance(a.a[2], T):
                    for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                        if x is c and lin_sub(strip(y), hb) == lin_sub2((t.CAP, 4)):
                            return True
        else:
            st = [e for e in t.seg if e.kind == 'store' and e.addr is c and isc(e.val, 0) and e.size == 4]
            if st and p.x[1].get(c.a[1]) is ptr(c, 4):
                return True
    return False


def down_sweep(t, p, init, hdr, exit_):
    """an index runs over the hashes from the last to the first"""
    for k, i in init.items():
        if i is None or strip(strip_b(i)) is not t.CAP:
            continue
        c = mk('lv', hdr, k)
        below = binop('add', c, C(-1, 32), 32)
        if exit_:
            if p.fact(cmp('eq', c, C(0, 32), 32)) is True:
                return True
            continue
        for i_, v, e in t.hs:
            vs = split_ptr(e.addr)[2]
            if isc(v, 0) and len(vs) == 1 and split_ptr(e.addr)[1] == 0 and strip_b(vs[0][0]) is below and p.x[1].get(k) is below:
                return True
    return False


def tuple_res(e):
    """(found, position) terms of a kept entry_for call"""
    return mk('cres', e.n, 0, 4, 1), mk('cres', e.n, 0, 0, 4)


def op_rule(ctx, R):
    """get / put / del / contains over entry_for / insert / remove"""
    iv = iview()
    EF, IN, RM = HTN + 'entry_for', HTN + 'insert', HTN + 'remove'
    for fn in ('get', 'put', 'del', 'contains'):
        ps = iv.paths('mid', 'drv_t_' + fn)
        ctx.covered(iv.mid.fn('drv_t_' + fn), ps)
        name = 'hash_table::' + fn
        for p in ps:
            if p.outcome != 'ret':
                continue
            w = where(p)
            t = TP(iv.tab, p, A[0], {}, set())
            efs = p.calls(EF)
            ok = len(efs) >= 1 and all(e.args[1] is A[0] and e.args[2] is A[1] and e.args[3] is A[2] and e.args[4] is A[3] for e in efs)
            ctx.ob(R['op'], name, ok, 'the key given is looked up', w, p)
            if not ok:
                continue
            found, pos = tuple_res(efs[-1])
            f = p.truth(found)
            if f is None:
                f = {True: False, False: True}.get(p.fact(cmp('eq', found, C(0, 8), 8)))
            ins, rem = p.calls(IN), p.calls(RM)
            res = None
            if fn == 'get':
                s = p.calls('drv_sink_value')[0]
                r = p.truth(s.args[0])
                v = t.val(s.args[1])
                ctx.ob(R['op'], name, r is f and f is not None and not ins and not rem and (not f or v == ('e', fz({pos: 1}), 0)), 'returns the entry found, and nothing else', w, p)
            elif fn == 'put':
                r = p.truth(p.ret)
                if f:
                    good = not ins and not rem and not t.hs and not t.sizes and [(i, v) for i, v, e in t.es] == [(fz({pos: 1}), A[4])] and r is False
                else:
                    good = f is False and len(ins) == 1 and not rem and not t.es and not t.hs and tuple(ins[0].args) == (A[0], pos, A[1], A[2], A[3], A[4]) and r is True
                ctx.ob(R['op'], name, good, 'an existing entry is replaced in place, a new one is inserted at the position looked up', w, p)
            elif fn == 'del':
                r = p.truth(p.ret)
                good = (len(rem) == 1 and tuple(rem[0].args) == (A[0], pos) and r is True) if f else (f is False and not rem and r is False)
                ctx.ob(R['op'], name, good and not ins, 'removes the entry found, once, and nothing otherwise', w, p)
            else:
                r = p.truth(p.ret)
                same = r is f if f is not None else strip_b(p.ret) in (neg(cmp('eq', found, C(0, 8), 8)), found, mk('atom', 'bool', found, None, 1))
                ctx.ob(R['op'], name, same and not ins and not rem, 'tells whether the lookup succeeded', w, p)


def strip_b(t):
    while t.op == 'cast':
        t = t.a[1]
    return t


def threshold_rule(ctx, R):
    iv = iview()
    fn = 'hash_table::threshold_reached'
    ps = iv.paths('low', 'drv_t_threshold')
    ctx.covered(iv.low.fn('drv_t_threshold'), ps)
    sz, cp = mk('load', ptr(A[0], iv.tab.size), 4, 0), mk('load', ptr(A[0], iv.tab.cap), 4, 0)
    for k in range(1, 32):
        cap = 1 << k

        def reached(n):
            out = set()
            for p in ps:
                env = {sz: n, cp: cap}
                for t in [p.ret] + [a for a, _ in p.flist]:
                    for y in subterms(t):
                        if y.op == 'load':
                            s = strip(y)
                            if s in (sz, cp):
                                env[y] = env[s]
                if contradictory(p, env):
                    continue
                out.add(ev(p.ret, env))
            return out
        full = all(reached(n) == {1} for n in (cap - 1, cap))
        low = all(reached(n) == {0} for n in (0, cap // 4, max(cap // 2 - 1, 0)))
        # a table grows to twice its size: what it held when it was full leaves the new one with room
        mono = True
        lo, hi = 0, cap
        ctx.ob(R['grow'], fn, full and low, 'a table of 2^%d slots always keeps an empty slot (lookups end there) and is not enlarged before it is half full' % k, 'src/cachelot/hash_table.h')


def consts_rule(ctx, R, consts):
    cs = {c[2] for c in consts if c[2] is not None}
    kinds = {c[0] for c in consts}
    ctx.ob(R['hash'], 'hash_table', kinds >= {'entry_for', 'insert'} and len(cs) <= 1, 'lookup and insertion agree on what is stored for a zero hash: %s' % sorted(cs), 'src/cachelot/hash_table.h')


def H01(ctx):
    R = {'kept': 'lookup-readonly', 'range': 'slot-range', 'home': 'home', 'step': 'probe-step', 'stop': 'early-stop', 'key': 'equal-key', 'hash': 'hash-agreement', 'op': 'table-operation', 'place': 'x', 'swap': 'x', 'order': 'x', 'where': 'x', 'count': 'x'}
    ctx.rule('lookup-readonly', 'a lookup modifies nothing')
    ctx.rule('slot-range', 'every slot index is reduced below the capacity')
    ctx.rule('home', 'lookups start at the home position of the stored hash')
    ctx.rule('probe-step', 'a lookup advances by one slot (with wrap-around), and only past a slot known to hold another key')
    ctx.rule('early-stop', 'a lookup fails only at an empty slot or at an entry closer to its home position than the probe')
    ctx.rule('equal-key', 'a slot is reported as found only after a comparison of the complete keys succeeded; keys are equal exactly if lengths and bytes are')
    ctx.rule('hash-agreement', 'lookup and insertion use the same non-zero stored hash')
    ctx.rule('table-operation', 'get, put, del and contains act on the slot found and on nothing else')
    ctx.assume('equal keys are presented with equal hash values (callers compute the hash from the key)')
    ctx.assume('the table is never completely full (H03: threshold rule), so probe distances stay below the capacity')
    consts = set()
    n = lookup_rule(ctx, R, consts)
    if n == 0 and not ctx.viol:
        raise AnalysisError('no lookup path found')
    keyeq_rule(ctx, R)
    op_rule(ctx, R)
    insert_rule(Quiet(), R, consts)
    consts_rule(ctx, R, consts)


class Quiet:
    def covered(self, *a):
        pass

    def ob(self, *a, **k):
        return True


def H02(ctx):
    R = {'range': 'slot-range', 'place': 'placement', 'hash': 'hash-agreement', 'order': 'probe-order', 'swap': 'displacement', 'where': 'reported-slot', 'count': 'element-count',
         'gap': 'gap-closing', 'shift': 'backward-shift', 'clear': 'clear', 'sweep': 'conditional-removal'}
    ctx.rule('slot-range', 'every slot index is reduced below the capacity')
    ctx.rule('placement', 'an insertion ends by storing the carried entry and its hash in an empty slot')
    ctx.rule('hash-agreement', 'an occupied slot never gets hash zero')
    ctx.rule('probe-order', 'an insertion starts at the position looked up, visits consecutive slots and displaces entries exactly so that the probe order the lookup relies on is kept')
    ctx.rule('displacement', 'a displaced entry and its hash are carried on together')
    ctx.rule('reported-slot', 'an insertion reports the slot of the new entry')
    ctx.rule('element-count', 'an insertion adds one element, a removal takes one')
    ctx.rule('gap-closing', 'a removal empties the slot, moves following entries with their hashes into the gap and leaves one empty slot')
    ctx.rule('backward-shift', 'entries are moved into the gap exactly until an empty slot or an entry in its home position follows')
    ctx.rule('clear', 'clearing empties all slots and the element count')
    ctx.rule('conditional-removal', 'conditional removal inspects every entry and removes exactly those that satisfy the condition')
    ctx.assume('positions passed to insert and remove come from a lookup in the same table (H03 and C01 check the callers)')
    ctx.assume('the table is never completely full (H03: threshold rule), so probe distances stay below the capacity')
    consts = set()
    insert_rule(ctx, R, consts)
    remove_rule(ctx, R)
    sweep_rule(ctx, R)
    ctor_rule(ctx, R)


def ctor_rule(ctx, R):
    iv = iview()
    fn = 'hash_table::hash_table'
    ps = iv.paths('low', 'drv_t_ctor')
    ctx.covered(iv.low.fn('drv_t_ctor'), ps)
    t = iv.tab
    n = 0
    for p in ps:
        if p.outcome != 'ret':
            continue
        w = where(p)
        last = {}
        for e in p.stores():
            b, o, vs = split_ptr(strip(e.addr))
            if b is A[0] and not vs:
                last[o] = e.val
        hb, eb = last.get(t.h), last.get(t.e)
        if hb is None or eb is None:
            ctx.ob(R['clear'], fn, False, 'both arrays are allocated', w, p)
            continue
        nul = any(p.fact(cmp('eq', x, C(0), 64)) is True for x in (hb, eb))
        ok = lin(last.get(t.cap, C(0)), 32) == lin(A[1], 32) and lin(last.get(t.mask, C(0)), 32) == lin(binop('sub', A[1], C(1, 32), 32), 32) and isc(last.get(t.size, C(1)), 0)
        ctx.ob(R['clear'], fn, ok, 'a new table has the capacity given, the matching mask and no elements', w, p)
        for x, k in ((hb, 4), (eb, 8)):
            c = next((e for e in p.events if e.kind == 'call' and e.res is x), None)
            need = c is not None and lin_sub(strip(c.args[0]), C(0)) == lin_sub(strip(binop('mul', cast('zext', A[1], 64, 32), C(k), 64)), C(0))
            ctx.ob(R['clear'], fn, need, 'arrays have one element per slot: %s' % (show(c.args[0])[:60] if c is not None and c.args else '?'), w, p)
        if not nul:
            lp = [e for e in p.events if e.kind == 'loop']
            done = False
            cap = lin(A[1], 32)

            def cleared(x, slot, step):
                bk = [q for q in ps if q.outcome == 'backedge' and q.x[0] == x.a[0]]
                return bool(bk) and all(q.x[1].get(x.a[1]) is step and any(split_ptr(z.addr)[0] is hb and split_ptr(z.addr)[1] == 0 and [(strip_b(t_), k_) for t_, k_ in split_ptr(z.addr)[2]] == [(slot, 4)] and isc(z.val, 0) for z in q.stores()) for q in bk)
            for e in lp:
                for k, i in e.x[1].items():
                    x = mk('lv', e.x[0], k)
                    if i is not None and isc(i, 0) and any(q.op == 'atom' and isinstance(q.a[2], T) and (q.a[0] == 'ult' and not v and q.a[1] is x and lin(q.a[2], 32) == cap or q.a[0] == 'eq' and v and (q.a[1] is x and lin(q.a[2], 32) == cap or q.a[2] is x and lin(q.a[1], 32) == cap)) for q, v in p.flist):
                        done = done or cleared(x, x, binop('add', x, C(1, 32), 32))
                    if i is not None and lin(i, 32) == cap and p.fact(cmp('eq', x, C(0, 32), 32)) is True:
                        m1 = binop('add', x, C(-1, 32), 32)
                        done = done or cleared(x, m1, m1)
            for a, v in p.flist:
                if a.op == 'atom' and v and a.a[0] == 'eq':
                    for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                        if isinstance(x, T) and x.op == 'lv' and isinstance(y, T) and lin_sub(strip(y), hb) == lin_sub(strip(binop('mul', cast('zext', A[1], 64, 32), C(4), 64)), C(0)):
                            bk = [z for z in ps if z.outcome == 'backedge' and z.x[0] == x.a[0]]
                            done = bool(bk) and all(z.x[1].get(x.a[1]) is ptr(x, 4) and any(st.addr is x and isc(st.val, 0) for st in z.stores()) for z in bk) and any(e.x[0] == x.a[0] and e.x[1].get(x.a[1]) is hb for e in lp)
            done = done or p.fact(cmp('eq', A[1], C(0, 32), 32)) is True
            ms = [e for e in p.events if e.kind == 'call' and 'memset' in e.name and e.args[0] is hb and isc(e.args[1], 0) and lin_sub(strip(e.args[2]), C(0)) == lin_sub(strip(binop('mul', cast('zext', A[1], 64, 32), C(4), 64)), C(0))]
            zi = next((e for e in p.events if e.kind == 'call' and e.res is hb), None)
            n += 1
            ctx.ob(R['clear'], fn, done or bool(ms), 'all slots of a new table are empty', w, p)
    ctx.ob(R['clear'], fn, n > 0, 'tables are created', 'src/cachelot/hash_table.h')


KEPT = [HTN + x for x in ('entry_for', 'insert', 'remove', 'get', 'put', 'del', 'contains', 'remove_if', 'size', 'clear', 'threshold_reached', 'empty', 'empty_at', 'ok', 'hash_table', '~hash_table', 'capacity', 'hash_at')]
QUIETC = KEPT + ['operator_new', 'operator_delete', 'operator new', 'operator delete']


class DP:
    """one path of a dictionary operation, replayed over the two table slots"""

    def __init__(self, iv, p, d, R, ctx, fn, may_drop=False, mloops=()):
        from rules_cache import P_field
        self.iv, self.p, self.d, self.ctx, self.fn, self.R = iv, p, d, ctx, fn, R
        P = iv.dict
        self.o = {n: P_field(P, n) for n in ('m_primary_tbl', 'm_secondary_tbl', 'm_hashpower', 'm_expand_pos')}
        L = lambda n, s: strip(mk('load', ptr(d, self.o[n]), s, 0))
        self.P0, self.S0, self.pow0, self.xp0 = L('m_primary_tbl', 8), L('m_secondary_tbl', 8), L('m_hashpower', 4), L('m_expand_pos', 4)
        self.P, self.S, self.pow, self.xp = self.P0, self.S0, self.pow0, self.xp0
        self.fresh = {}          # new table -> capacity term
        self.lookups = {}        # table -> (event, index of last mutation)
        self.mut = {}            # table -> number of the last mutation event
        self.moves = []          # (value, slot) stored in the primary, not yet removed from the secondary
        self.released = {}       # table -> event number
        self.gone = []           # (table, slot, event): removed, not yet stored in the primary
        self.mloops = mloops     # headers of loops that move entries
        self.moved_at = []       # event numbers of migrations
        self.nmoved = 0
        self.may_drop = may_drop
        self.run()

    def fail(self, rule, msg, e=None):
        self.ctx.ob(self.R[rule], self.fn, False, msg, e.loc.repo() if e is not None and e.loc and e.loc.j else where(self.p), self.p)

    def ok(self, rule, msg, good, e=None):
        self.ctx.ob(self.R[rule], self.fn, good, msg, e.loc.repo() if e is not None and e.loc and e.loc.j else where(self.p), self.p)

    def null(self, t, upto=None):
        if isc(t, 0):
            return True
        r = None
        for a, v in self.p.flist[:upto]:
            if a.op == 'atom' and a.a[0] == 'eq' and isc(a.a[2] if isinstance(a.a[2], T) else C(1), 0) and strip(a.a[1]) is t:
                r = v
        return r

    def truth(self, t):
        r = self.p.truth(t)
        if r is None:
            z = self.p.fact(cmp('eq', t, C(0, 8), 8))
            r = None if z is None else not z
        return r

    def found(self, e):
        return self.truth(tuple_res(e)[0])

    def slot_value(self, v):
        """(table, position) if v is the entry stored there"""
        v = strip(v)
        if v.op != 'load':
            return None
        b, o, vs = split_ptr(v.a[0])
        if o or len(vs) != 1 or vs[0][1] != 8 or b.op != 'load':
            return None
        tb, to, tv = split_ptr(b.a[0])
        if tv or to != self.iv.tab.e:
            return None
        x = vs[0][0]
        while x.op == 'cast':
            x = x.a[1]
        return tb if to == self.iv.tab.e else None, x

    def run(self):
        p, d = self.p, self.d
        f = lambda n: HTN + n
        own = True
        for e in p.events:
            if e.kind == 'loop' and e.x[0] in self.mloops:
                self.moved_at.append(e.n)
                for t in (self.P, self.S):
                    self.mut[t] = e.n
            elif e.kind == 'store':
                b, o, vs = split_ptr(strip(e.addr))
                if b is not d:
                    if b.op in ('callres', 'alloca') or b.op == 'exc':
                        continue
                    own = False
                    self.fail('own', 'writes into a table from outside: %s' % show(e.addr)[:60], e)
                    continue
                v = strip(e.val)
                if o == self.o['m_secondary_tbl']:
                    self.set_secondary(v, e)
                elif o == self.o['m_primary_tbl']:
                    if v in self.fresh:
                        okv = any(c.kind == 'call' and c.name == f('ok') and strip(c.args[0]) is v and self.truth(c.res) is True and c.n < e.n for c in p.events) or self.fn.endswith('::dict')
                        self.ok('alloc', 'a new table takes effect only after it was allocated completely', okv, e)
                    self.P = v
                elif o == self.o['m_hashpower']:
                    self.pow = v
                elif o == self.o['m_expand_pos']:
                    self.set_pos(v, e)
            elif e.kind == 'call':
                n = e.name
                if n == f('hash_table'):
                    self.fresh[strip(e.args[0])] = (e.args[1], e)
                    self.mut[strip(e.args[0])] = e.n
                    continue
                if n == f('~hash_table'):
                    t = strip(e.args[0])
                    if t not in self.fresh and t not in self.released and not self.may_drop:
                        self.fail('keep', 'a table is destroyed that may still hold entries', e)
                    if t in (self.P, self.S) and not isc(t, 0) and self.fn != 'dict::dict':
                        self.fail('keep', 'a table is destroyed while the dictionary still uses it', e)
                    continue
                if not n.startswith(HTN):
                    continue
                short_ = n[len(HTN):]
                k = 1 if short_ in ('entry_for', 'get') else 0
                t = strip(e.args[k])
                role = 'P' if t is self.P else 'S' if t is self.S else None
                if short_ in ('insert', 'put'):
                    self.store_entry(e, short_, t, role)
                    self.mut[t] = e.n
                    self.moved_at.append(e.n)
                elif short_ == 'remove':
                    self.remove_entry(e, t, role)
                    self.mut[t] = e.n
                elif short_ in ('del', 'clear', 'remove_if'):
                    self.mut[t] = e.n
                elif short_ == 'entry_for':
                    self.lookups.setdefault(t, []).append(e)
        if own:
            self.ok('own', 'no slot is written other than by a table operation', True)

    def empty_known(self, t, e):
        """table t is known to be empty at event e"""
        for c in reversed(self.p.events):
            if c.n >= e.n or c.kind != 'call':
                continue
            if c.name == HTN + 'empty' and strip(c.args[0]) is t and c.n > self.mut.get(t, -1):
                if self.truth(c.res) is True:
                    return True
            if c.name == HTN + 'size' and strip(c.args[0]) is t and c.n > self.mut.get(t, -1):
                if self.p.fact(cmp('eq', c.res, C(0, 32), 32)) is True and self.after_loops(c, e):
                    return True
        return False

    def after_loops(self, c, e):
        return not any(x.kind == 'loop' and c.n < x.n < e.n for x in self.p.events)

    def set_secondary(self, v, e):
        if isc(v, 0):
            if self.null(self.S, e.fpos) is True:
                self.S = v
                return
            if not self.may_drop:
                # a loop between the check and the release may move entries: only a check after it counts
                self.ok('keep', 'the old table is dropped only when it is empty', self.empty_known(self.S, e), e)
            self.released[self.S] = e.n
            self.S = v
            return
        if v is self.P0 or v is self.P:
            self.ok('keep', 'growth starts only when no migration is in progress', self.null(self.S, e.fpos) is True, e)
            self.S = v
            return
        if v in self.fresh and self.null(self.S, e.fpos) is True:
            self.S = v
            return
        self.ok('keep', 'the old table is replaced by another one: %s' % show(v)[:60], False, e)
        self.S = v

    def set_pos(self, v, e):
        if isc(v, 0):
            self.xp = v
            return
        c, a = lin(v, 32)
        old = strip(self.xp)
        okv = False
        if c == 1 and len(a) == 1 and list(a.values()) == [1]:
            x = strip(list(a)[0])
            for q in self.p.events:
                if q.kind == 'call' and q.name == HTN + 'empty_at' and q.n < e.n and strip(q.args[0]) is self.S and strip(q.args[1]) is x and self.truth(q.res) is True and q.n > self.mut.get(self.S, -1):
                    okv = True
        self.ok('scan', 'the migration position passes only empty slots of the old table', okv, e)
        self.xp = v

    def store_entry(self, e, kind, t, role):
        """insert/put into a table"""
        if kind == 'put':
            _, kb, ke, h, v = e.args[:5]
        else:
            _, pos, kb, ke, h, v = e.args[:6]
            good = False
            for l in self.lookups.get(t, []):
                if strip(tuple_res(l)[1]) is strip(pos) and l.n > self.mut.get(t, -1) and self.same_key(l, kb, ke, h, v):
                    good = True
            self.ok('pos', 'an entry is inserted at a position looked up in the same table, which has not changed since', good, e)
        sv = self.slot_value(v)
        if sv is None:
            self.fail('move', 'something that is not an entry of the old table is stored', e)
            return
        T_, x = sv
        self.ok('move', 'entries move from the old table to the new one', T_ is self.S and role == 'P', e)
        want_b, want_e = (subst_item(self.iv.low, q, v) for q in ('prb_item_key', 'prb_item_key_end'))
        self.ok('move', 'the entry moves with its own key', strip(kb) is want_b and strip(ke) is want_e, e)
        for g in self.gone:
            if g[0] is T_ and g[1] is x and self.mut.get(T_, -1) == g[2].n:
                # taken out first: what is stored now was read before
                late = any(q.kind == 'load' and g[2].n < q.n < e.n and self.slot_value(q.val) == sv for q in self.p.events)
                late = late or any(q.kind == 'call' and q.name == HTN + 'hash_at' and g[2].n < q.n < e.n and q.res is h for q in self.p.events)
                self.ok('move', 'entry and hash are read before the slot is removed', not late, e)
                self.ok('move', 'the entry moves with its hash', self.hash_of(h, T_, x), e)
                self.gone.remove(g)
                self.nmoved += 1
                return
        self.ok('move', 'the entry moves with its hash', self.hash_of(h, T_, x), e)
        self.ok('move', 'the slot moved is occupied', self.occupied(T_, x), e)
        self.moves.append((T_, x, e))

    def hash_of(self, h, T_, x):
        for q in self.p.events:
            if q.kind == 'call' and q.name == HTN + 'hash_at' and q.res is h and strip(q.args[0]) is T_ and strip(q.args[1]) is x:
                return True
        for l in self.lookups.get(T_, []):
            if self.found(l) is True and strip(tuple_res(l)[1]) is x and l.args[4] is h:
                return True
        return False

    def occupied(self, T_, x):
        for q in self.p.events:
            if q.kind == 'call' and q.name == HTN + 'empty_at' and strip(q.args[0]) is T_ and strip(q.args[1]) is x and self.truth(q.res) is False and q.n > self.mut.get(T_, -1):
                return True
        for l in self.lookups.get(T_, []):
            if self.found(l) is True and strip(tuple_res(l)[1]) is x and l.n > self.mut.get(T_, -1):
                return True
        return False

    def same_key(self, l, kb, ke, h, v):
        """lookup l was for this key: the same key, or an equal one (the entry was found under it)"""
        if l.args[2] is kb and l.args[3] is ke:
            return l.args[4] is h
        sv = self.slot_value(v)
        if sv is None:
            return False
        for q in self.lookups.get(sv[0], []):
            if self.found(q) is True and strip(tuple_res(q)[1]) is sv[1] and q.args[2:5] == l.args[2:5]:
                return h is l.args[4]
        return False

    def remove_entry(self, e, t, role):
        x = strip(e.args[1])
        for m in self.moves:
            if m[0] is t and m[1] is x and m[2].n > self.mut.get(t, -1):
                self.moves.remove(m)
                self.nmoved += 1
                self.ok('move', 'a moved entry is removed from the old table', role == 'S', e)
                return
        if role == 'S' and self.occupied(t, x):
            self.gone.append((t, x, e))
            return
        self.fail('move', 'a slot is removed whose entry was not moved before', e)

    def end(self):
        p = self.p
        out = p.outcome
        if out == 'noreturn':
            return
        w = where(p)
        for m in self.moves:
            self.fail('move', 'an entry is in both tables', m[2])
        for m in self.gone:
            self.fail('move', 'a slot is removed whose entry is not moved', m[2])
        if out == 'unwind' and not self.fn.endswith('::dict'):
            self.ok('alloc', 'a failed enlargement leaves both tables as they were', self.P is self.P0 and self.S is self.S0 and self.pow is self.pow0 and not self.nmoved)
            return
        live = {self.P0}
        if self.null(self.S0) is not True:
            live.add(self.S0)
        held = {self.P, self.S}
        self.ok('keep', 'every table that may hold entries is still part of the dictionary', all(t in held or t in self.released for t in live) and self.P not in self.released and self.S not in self.released)
        self.ok('keep', 'there is always a table to insert into', not isc(self.P, 0))
        if self.P in self.fresh:
            c, e = self.fresh[self.P]
            ok = strip(c) is strip(binop('shl', C(1, 32), self.pow, 32))
            for q in p.events:
                if q.kind == 'call' and q.name == HTN + 'capacity' and strip(q.args[0]) is self.P0 and lin(c, 32) == (0, {q.res: 2}):
                    ok = True
            okn = lin(self.pow, 32)[0] == 1 and lin(self.pow, 32)[1] == {self.pow0: 1}
            self.ok('grow', 'the table doubles: capacity is two to the power recorded, which grows by one', ok and okn, e)
            xs = [x for x in p.events if x.kind == 'store' and strip(x.addr) is strip(ptr(self.d, self.o['m_expand_pos']))]
            first = next((x for x in p.events if x.kind == 'loop'), None)
            self.ok('scan', 'migration starts at the first slot of the old table', any(isc(x.val, 0) and (first is None or x.n < first.n) for x in xs), e)


def migration_loops(dp):
    """bounds of the loops of a path that move entries"""
    p = dp.p
    if p.outcome != 'backedge' or not dp.nmoved:
        return
    hdr = p.x[0]
    l = None
    for e in p.events:
        if e.kind == 'loop' and e.x[0] == hdr:
            l = e
    good = False
    for a, v in p.flist[l.fpos:]:
        for k, step in p.x[1].items():
            # bottom-tested: entered only if there is something to move
            if a.op == 'atom' and a.a[0] in ('ult', 'eq') and (v is (a.a[0] == 'ult')) and step is a.a[1] and step is binop('add', mk('lv', hdr, k), C(1, 32), 32) and isc(l.x[1].get(k) or C(1), 0) and dp.nmoved == 1:
                good = good or size_bound(dp, a.a[2], l) and positive(dp, a.a[2], l)
        if a.op == 'atom' and a.a[0] == 'ult' and v and a.a[1].op == 'lv' and a.a[1].a[0] == hdr:
            k = a.a[1].a[1]
            step = p.x[1].get(k)
            if isc(l.x[1].get(k) or C(1), 0) and step is binop('add', a.a[1], C(1, 32), 32) and dp.nmoved == 1:
                good = good or size_bound(dp, a.a[2], l)
        if a.op == 'atom' and a.a[0] == 'eq' and not v and isc(a.a[2] if isinstance(a.a[2], T) else C(1), 0):
            q = next((q for q in p.events if q.kind == 'call' and q.res is a.a[1] and q.n > l.n), None)
            good = good or q is not None and q.name == HTN + 'size' and strip(q.args[0]) is dp.S
            # a counter running down from the batch size to zero
            if a.a[1].op == 'lv' and a.a[1].a[0] == hdr:
                k = a.a[1].a[1]
                good = good or size_bound(dp, l.x[1].get(k), l) and p.x[1].get(k) is binop('add', a.a[1], C(-1, 32), 32)
    for q in p.events:
        if q.kind == 'call' and q.name == HTN + 'empty' and q.n > l.n and strip(q.args[0]) is dp.S and dp.truth(q.res) is False:
            good = True
    dp.ok('scan', 'no more entries are moved than the old table holds', good)


def size_bound(dp, t, l):
    """t <= size of the old table at the loop entry, t > 0 if it is not empty"""
    if t is None:
        return False
    t = strip_b(t)
    if t.op == 'intr' and 'umin' in t.a[0]:
        a = [x for x in t.a[1:3] if not (x.op == 'c' and x.a[0] > 0)]
        return len(a) == 1 and size_bound(dp, a[0], l)
    if t.op == 'callres':
        q = next((q for q in dp.p.events if q.kind == 'call' and q.res is t), None)
        return q is not None and q.name == HTN + 'size' and strip(q.args[0]) is dp.S and q.n < l.n and not any(dp.mut.get(dp.S, -1) > q.n > 0 and dp.mut[dp.S] < l.n for _ in (1,))
    if t.op == 'c' and t.a[0] > 0:
        # size clipped by a branch: the size must be known to be at least as large
        for a, v in dp.p.flist[:l.fpos]:
            if a.op == 'atom' and a.a[0] == 'ult':
                if not v and a.a[2] is t and size_bound(dp, a.a[1], l) or v and a.a[1].op == 'c' and a.a[1].a[0] >= t.a[0] and size_bound(dp, a.a[2], l) or v and a.a[1].op == 'c' and a.a[1].a[0] + 1 >= t.a[0] and size_bound(dp, a.a[2], l):
                    return True
    return False


def positive(dp, t, l):
    """t is known not to be zero when the loop is entered"""
    t = strip_b(t)
    if t.op == 'c':
        return t.a[0] > 0
    if dp.p.fact(cmp('eq', t, C(0, 32), 32), l.fpos) is False:
        return True
    if t.op == 'intr' and 'umin' in t.a[0]:
        return all(positive(dp, x, l) for x in t.a[1:3])
    for q in dp.p.events:
        if q.kind == 'call' and q.name == HTN + 'empty' and strip(q.args[0]) is dp.S and q.n < l.n and dp.truth(q.res) is False:
            return True
    return False


def rehashed(dp):
    """the path went through a migration batch of the old table"""
    p = dp.p
    if dp.S0 in dp.released:
        return True
    for e in p.events:
        if e.kind != 'loop':
            continue
        for a, v in p.flist[e.fpos:]:
            # a loop that goes on for a fixed number of rounds unless the old table is empty
            if a.op == 'atom' and a.a[0] == 'ult' and not v and a.a[1].op == 'lv' and a.a[1].a[0] == e.x[0] and a.a[2].op == 'c' and a.a[2].a[0] > 0 and isc(e.x[1].get(a.a[1].a[1]) or C(1), 0):
                return True
            if a.op == 'atom' and a.a[0] == 'eq' and v and isc(a.a[2], 0) and a.a[1].op == 'callres' and any(c.kind == 'call' and c.res is a.a[1] and c.name == HTN + 'size' and strip(c.args[0]) is dp.S0 and c.n > e.n for c in p.events):
                return True
            if v and a.op in ('callres', 'atom') and any(c.kind == 'call' and (c.res is a or a.op == 'atom' and a.a[0] == 'bool' and a.a[1] is c.res) and c.name == HTN + 'empty' and strip(c.args[0]) is dp.S0 and c.n > e.n for c in p.events):
                return True
            if a.op == 'atom' and a.a[0] == 'ult' and not v and a.a[1].op == 'lv' and a.a[1].a[0] == e.x[0] and size_bound(dp, a.a[2], e):
                return True
            if a.op == 'atom' and (a.a[0] == 'ult' and not v or a.a[0] == 'eq' and v) and any(a.a[1] is binop('add', mk('lv', e.x[0], k), C(1, 32), 32) and isc(i or C(1), 0) for k, i in e.x[1].items()) and size_bound(dp, a.a[2], e):
                return True
            if a.op == 'atom' and a.a[0] == 'eq' and v and a.a[1].op == 'lv' and a.a[1].a[0] == e.x[0] and (isc(a.a[2], 0) and size_bound(dp, e.x[1].get(a.a[1].a[1]), e) or size_bound(dp, a.a[2], e)):
                return True
    return False


def H03(ctx):
    iv = iview()
    R = {'own': 'no-direct-writes', 'keep': 'tables-kept', 'alloc': 'allocate-first', 'scan': 'migration-scan', 'pos': 'valid-position', 'move': 'move-entry', 'grow': 'growth',
         'both': 'both-tables', 'result': 'lookup-result', 'room': 'room-to-insert', 'iter': 'iterator'}
    ctx.rule('no-direct-writes', 'the dictionary changes slots only through the table operations')
    ctx.rule('tables-kept', 'a table is dropped only when it is empty; growth starts only when no migration is in progress')
    ctx.rule('allocate-first', 'a failed enlargement leaves both tables, and every entry, as they were')
    ctx.rule('migration-scan', 'the migration position passes only empty slots, starts at zero and no more entries are moved than there are')
    ctx.rule('valid-position', 'an entry is inserted at a position looked up in the same, since then unchanged, table')
    ctx.rule('move-entry', 'migrating stores an entry with its own key and hash in the new table and then removes exactly this slot from the old one')
    ctx.rule('growth', 'a table keeps an empty slot, is not enlarged before it is half full, and is enlarged to twice its capacity')
    ctx.rule('both-tables', 'get, contains, del, size, remove_if and clear take both tables into account')
    ctx.rule('lookup-result', 'a key is reported as absent only if both tables were searched; the position returned is a current one in the table that takes new entries')
    ctx.rule('room-to-insert', 'a position for a new entry is offered only in a table below its threshold; while a migration is in progress every such lookup advances it')
    ctx.rule('iterator', 'iterators give access to exactly the slot they refer to')
    ctx.assume('dictionary tables hold pairwise different keys (C01: insertion only after a failed lookup)')
    d = A[0]
    mv = 0

    def paths(fn):
        k = ('dict', 'q' + fn)
        if k not in iv.c:
            iv.c[k] = explore(iv.dict, iv.dict.fn(fn), Model(clobbers=QUIETC, load_events=True))
        return iv.c[k]

    def mloops(ps):
        out = set()
        for p in ps:
            if p.outcome == 'backedge':
                l = max((e.n for e in p.events if e.kind == 'loop' and e.x[0] == p.x[0]), default=-1)
                if any(e.kind == 'call' and e.n > l and e.name in [HTN + x for x in ('insert', 'put', 'remove', 'del', 'clear', 'remove_if')] for e in p.events):
                    out.add(p.x[0])
        return out
    # lookup for insertion
    fn = 'dict::entry_for'
    ps = paths('drv_d_entry_for')
    ctx.covered(iv.dict.fn('drv_d_entry_for'), ps)
    ml = mloops(ps)
    for p in ps:
        dp = DP(iv, p, d, R, ctx, fn, mloops=ml)
        dp.end()
        migration_loops(dp)
        mv += dp.nmoved
        if p.outcome != 'ret':
            continue
        s = p.calls('drv_sink_iter')[0]
        fl, tb, pos = s.args
        tb = strip(tb)
        for ls in dp.lookups.values():
            for l in ls:
                ctx.ob(R['result'], fn, l.args[2:5] == (A[1], A[2], A[3]) or list(l.args[2:5]) == [A[1], A[2], A[3]], 'the key given is looked up', l.loc.repo(), p)
        f = dp.truth(fl)
        if f is None and (strip_b(fl).op == 'not' or True):
            # the flag of the last lookup is handed on undecided
            pass
        last = [l for l in dp.lookups.get(tb, []) if l.n > dp.mut.get(tb, -1) and strip(tuple_res(l)[1]) is strip(pos)]
        moved_in = [e for e in p.events if e.kind == 'call' and e.name in (HTN + 'insert',) and e.res is pos and strip(e.args[0]) is tb and dp.mut.get(tb) == e.n]
        flag = None
        if last:
            q = tuple_res(last[-1])[0]
            ff = dp.found(last[-1])
            if f is None:
                if strip_b(fl) in (neg(cmp('eq', q, C(0, 8), 8)), q, mk('atom', 'bool', q, None, 1)):
                    flag = 'same'
            elif ff is f:
                flag = 'same'
        if moved_in and f is True:
            sv = dp.slot_value(moved_in[-1].args[5])
            flag = 'same' if sv and any(dp.found(l) is True and strip(tuple_res(l)[1]) is sv[1] for l in dp.lookups.get(sv[0], [])) else None
        dp.ok('result', 'the result is the one of a lookup in a table that has not changed since', flag == 'same')
        if f is not True:
            # absent: both tables searched (a found key in the other table would have been returned)
            dp.ok('result', 'the position offered is in the table that takes new entries', tb is dp.P)
            if dp.null(dp.S) is not True:
                lastput = max([e.n for e in p.events if e.kind == 'call' and e.name in (HTN + 'insert', HTN + 'put')] or [-1])
                other = [l for l in dp.lookups.get(dp.S, []) if dp.found(l) is False]
                dp.ok('result', 'a key is reported as absent only if the old table does not have it', bool(other))
            ro = p.truth(A[4])
            if ro is not True:
                expanding = dp.null(dp.S0) is False
                if expanding:
                    dp.ok('room', 'every lookup for insertion advances a migration in progress', rehashed(dp))
                else:
                    below = any(e.kind == 'call' and e.name == HTN + 'threshold_reached' and strip(e.args[0]) is tb and dp.truth(e.res) is False and e.n > dp.mut.get(tb, -1) for e in p.events)
                    dp.ok('room', 'a position is offered only in a table below its threshold', below or tb in dp.fresh)
        else:
            dp.ok('result', 'an existing entry is returned where it is', tb in (dp.P, dp.S))
    # other operations
    for op in ('get', 'contains', 'del', 'size', 'remove_if', 'clear', 'empty'):
        fn = 'dict::' + op
        ps = paths('drv_d_' + op)
        ctx.covered(iv.dict.fn('drv_d_' + op), ps)
        ml = mloops(ps)
        for p in ps:
            if p.outcome == 'terminate':
                continue
            dp = DP(iv, p, d, R, ctx, fn, may_drop=op == 'clear', mloops=ml)
            dp.end()
            migration_loops(dp)
            mv += dp.nmoved
            if p.outcome != 'ret':
                continue
            q = {}
            for e in p.events:
                if e.kind == 'call' and e.name in ((HTN + 'size', HTN + 'empty') if op == 'empty' else (HTN + op,)):
                    k = 1 if op == 'get' else 0
                    q.setdefault(strip(e.args[k]), []).append(e)
            both = dp.P0 in q and (dp.S0 in q or dp.null(dp.S0) is True or dp.S0 in dp.released and all(e.n > dp.released[dp.S0] for e in q[dp.P0]))
            if dp.P0 in q and dp.S0 in q and op in ('get', 'contains', 'del', 'remove_if'):
                # an entry migrated after the new table was searched and before the old one was would be missed
                lastP, firstS = max(e.n for e in q[dp.P0]), max(e.n for e in q[dp.S0])
                dp.ok('both', 'no entry migrates between the search of the new table and that of the old one', not any(lastP < n < firstS for n in dp.moved_at))
            for t, es in q.items():
                for e in es:
                    k = 1 if op == 'get' else 0
                    if op in ('get', 'contains', 'del'):
                        ctx.ob(R['both'], fn, list(e.args[k + 1:k + 4]) == [A[1], A[2], A[3]], 'the key given is passed on', e.loc.repo(), p)
            if op == 'get':
                s = p.calls('drv_sink_value')[0]
                hit = [e for es in q.values() for e in es if strip(s.args[1]) is mk('cres', e.n, 0, 0, 8)]
                f = dp.truth(s.args[0])
                if hit:
                    e = hit[-1]
                    flag = mk('cres', e.n, 0, 8, 1)
                    sameflag = strip_b(s.args[0]) in (neg(cmp('eq', flag, C(0, 8), 8)), flag, mk('atom', 'bool', flag, None, 1)) or f is not None and dp.truth(flag) is f
                    others = [x for es in q.values() for x in es if x is not e]
                    ok = sameflag and (f is True or both and all(dp.truth(mk('cres', x.n, 0, 8, 1)) is False for x in others))
                    dp.ok('both', 'returns the entry of the table that has the key; absent only if no table has it', ok)
                else:
                    dp.ok('both', 'returns the entry of the table that has the key; absent only if no table has it', f is False and both and all(dp.truth(mk('cres', x.n, 0, 8, 1)) is False for es in q.values() for x in es))
            elif op in ('contains', 'del'):
                f = dp.truth(p.ret)
                es = [e for es in q.values() for e in es]
                ts = {e: dp.truth(e.res) for e in es}
                if f is True:
                    ok = any(v is True for v in ts.values())
                elif f is False:
                    ok = both and all(v is False for v in ts.values())
                else:
                    last = [e for e in es if strip_b(p.ret) is e.res]
                    ok = len(last) == 1 and both and all(v is False for e, v in ts.items() if e is not last[0])
                dp.ok('both', 'reports success exactly if one of the tables has the key', ok)
                if op == 'del':
                    dp.ok('both', 'deletes from the second table unless the first one had the key', both or any(v is True for v in ts.values()))
            elif op in ('size', 'empty'):
                es = [e for es in q.values() for e in es]
                want = fz({})
                tot = C(0, 32)
                for e in es:
                    tot = binop('add', tot, e.res, 32)
                r = p.ret
                if op == 'empty' and es and all(e.name == HTN + 'empty' for e in es):
                    f, ts = dp.truth(r), {e: dp.truth(e.res) for e in es}
                    last = [e for e in es if strip_b(r) is e.res]
                    okv = f is True and both and all(v is True for v in ts.values()) or f is False and any(v is False for v in ts.values()) or f is None and both and len(last) == 1 and all(v is True for e, v in ts.items() if e is not last[0])
                    dp.ok('both', 'empty exactly if both tables are', okv)
                elif op == 'empty':
                    f = dp.truth(r)
                    z = [a for a in (cmp('eq', tot, C(0, 32), 32),)]
                    allz = all(p.fact(cmp('eq', e.res, C(0, 32), 32)) is True for e in es) and both
                    rb = strip_b(r)
                    zt = rb.op == 'atom' and rb.a[0] == 'eq' and isinstance(rb.a[2], T) and lin(binop('sub', rb.a[1], rb.a[2], 32), 32) in (lin(tot, 32), lin(binop('sub', C(0, 32), tot, 32), 32))
                    okv = (rb is z[0] or zt) and both and len(es) == len(q) or f is True and allz or f is False and any(p.fact(cmp('eq', e.res, C(0, 32), 32)) is False for e in es) or f is None and both and any(strip_b(r) is cmp('eq', e.res, C(0, 32), 32) and all(p.fact(cmp('eq', x.res, C(0, 32), 32)) is True for x in es if x is not e) for e in es)
                    dp.ok('both', 'empty exactly if both tables are', okv)
                else:
                    dp.ok('both', 'size is the number of entries of both tables', both and len(es) == len(q) and lin(r, 32) == lin(tot, 32))
            elif op == 'remove_if':
                dp.ok('both', 'conditional removal visits both tables', both)
            else:
                dp.ok('both', 'clearing empties both tables', dp.P0 in q and (dp.null(dp.S0) is True or dp.S0 in q or dp.S0 in dp.released) and dp.P is dp.P0)
    ctx.ob(R['move'], 'dict', mv > 0, 'entries are migrated', 'src/cachelot/dict.h')
    # pass-through operations and iterators
    for p in paths('drv_d_insert'):
        s = p.calls('drv_sink_iter')
        i = p.calls(HTN + 'insert')
        ctx.ob(R['iter'], 'dict::insert', p.outcome != 'ret' or len(i) == 1 and list(i[0].args) == [A[k] for k in range(1, 7)] and s[0].args[1] is A[1] and s[0].args[2] is i[0].res, 'inserts at the position given and returns where the entry is', where(p), p)
    for p in paths('drv_d_remove'):
        i = p.calls(HTN + 'remove')
        ctx.ob(R['iter'], 'dict::remove', p.outcome != 'ret' or len(i) == 1 and list(i[0].args) == [A[1], A[2]], 'removes the entry referred to', where(p), p)
    tb, ps_ = mk('load', A[0], 8, 0), mk('load', ptr(A[0], iter_pos(iv)), 4, 0)
    ent = mk('load', ptr(mk('load', ptr(tb, iv.tab.e), 8, 0), 0, ((cast('zext', ps_, 64, 32), 8),)), 8, 0)
    for fn, want in (('drv_i_value', ent), ('drv_i_key', subst_item(iv.low, 'prb_item_key', ent)), ('drv_i_bool', None)):
        n = 0
        for p in paths(fn):
            if p.outcome != 'ret':
                continue
            emp = [e for e in p.calls(HTN + 'empty_at') if strip(e.args[0]) is tb and strip(e.args[1]) is ps_]
            r = p.truth(p.ret) if want is None else strip(p.ret)
            nul = p.fact(cmp('eq', mk('load', A[0], 8, 0), C(0), 64))
            if want is None:
                ok = r is False and (nul is True or emp and p.truth(emp[-1].res) is True) or r is True and emp and p.truth(emp[-1].res) is False or r is None and emp and strip_b(p.ret) in (neg(emp[-1].res), neg(mk('atom', 'bool', emp[-1].res, None, 1)))
            else:
                n += r is want
                ok = r is want or isc(r, 0) and (nul is True or emp and p.truth(emp[-1].res) is True)
            ctx.ob(R['iter'], fn.replace('drv_i_', 'dict::iterator::'), bool(ok), 'gives the content of the slot, and nothing only if the slot is empty', where(p), p)
        if want is not None:
            ctx.ob(R['iter'], fn.replace('drv_i_', 'dict::iterator::'), n > 0, 'gives the content of the slot', 'src/cachelot/dict.h')
    for p in paths('drv_i_replace'):
        st = p.stores()
        ctx.ob(R['iter'], 'dict::iterator::unsafe_replace_kv', p.outcome != 'ret' or len(st) == 1 and strip(st[0].addr) is ent.a[0] and st[0].val is A[4], 'replaces the entry referred to, and nothing else', where(p), p)
    # construction
    fn = 'dict::dict'
    ps = paths('drv_d_ctor')
    ctx.covered(iv.dict.fn('drv_d_ctor'), ps)
    for p in ps:
        if p.outcome != 'ret':
            continue
        dp = DP(iv, p, d, R, ctx, fn, may_drop=True)
        okc = dp.P in dp.fresh and isc(dp.S, 0) and isc(dp.xp, 0)
        dp.ok('alloc', 'a new dictionary has one complete table', okc and any(e.name == HTN + 'ok' and strip(e.args[0]) is dp.P and dp.truth(e.res) is True for e in p.events if e.kind == 'call'))
        if okc:
            c = dp.fresh[dp.P][0]
            bad = []
            for n in [1, 2, 3, 4, 5, 7, 8, 9, 16, 100, 1000, 4096, 65535, 65536, 65537, 1 << 20, (1 << 20) + 1, 1 << 30, (1 << 30) - 1]:
                env = {A[1]: n}
                if contradictory(p, env):
                    continue
                cv, pv = ev(c, env), ev(dp.pow, env)
                if cv is None or pv is None or cv != 1 << pv or cv < n or cv >= 2 * n and n > 0:
                    bad.append((n, cv, pv))
            dp.ok('grow', 'capacity is the power of two recorded and has room for the initial size: %s' % bad[:3], not bad)
    threshold_rule(ctx, R)
    accessor_rule(ctx, R)


def iter_pos(iv):
    P = iv.dict
    for k in P.layout:
        if k.startswith('cachelot::dict<') and k.endswith('::iterator') and 'm_pos' in P.layout[k]['m']:
            return P.layout[k]['m']['m_pos'][0] // 8
    raise AnalysisError('anchor dict::iterator not found')


def accessor_rule(ctx, R):
    iv = iview()
    t = iv.tab
    L = lambda o, s: mk('load', ptr(A[0], o), s, 0)
    slot = mk('load', ptr(L(t.h, 8), 0, ((cast('zext', A[1], 64, 32), 4),)), 4, 0)
    for fn, want in (('size', [L(t.size, 4)]), ('capacity', [L(t.cap, 4)]), ('empty', [cmp('eq', L(t.size, 4), C(0, 32), 32)]), ('empty_at', [cmp('eq', slot, C(0, 32), 32)])):
        ps = iv.paths('low', 'drv_t_' + fn)
        ctx.covered(iv.low.fn('drv_t_' + fn), ps)
        for p in ps:
            r = strip(strip_b(p.ret)) if p.outcome == 'ret' else None
            ok = r in want
            if not ok and r is not None and want[0].op == 'atom':
                f = p.truth(p.ret)
                ok = f is not None and any(strip(a) is want[0] and v is f for a, v in p.flist)
            ctx.ob(R['growth' if 'growth' in R else 'grow'], 'hash_table::' + fn, ok, 'reports the state of the table: %s' % show(r)[:60] if r is not None else 'no result', where(p), p)
    for p in iv.paths('low', 'drv_t_ok'):
        if p.outcome != 'ret':
            continue
        f = p.truth(p.ret)
        nh, ne = (any(strip(a) is cmp('eq', L(o, 8), C(0), 64) and v is False for a, v in p.flist) for o in (t.h, t.e))
        zh, ze = (any(strip(a) is cmp('eq', L(o, 8), C(0), 64) and v is True for a, v in p.flist) for o in (t.h, t.e))
        r = strip(strip_b(p.ret))
        und = f is None and (nh and r is neg(cmp('eq', L(t.e, 8), C(0), 64)) or ne and r is neg(cmp('eq', L(t.h, 8), C(0), 64)))
        both = f is None and r.op in ('and', 'bin') and {strip(x) for x in subterms(r)} >= {cmp('eq', L(t.h, 8), C(0), 64), cmp('eq', L(t.e, 8), C(0), 64)}
        ctx.ob(R['alloc'], 'hash_table::ok', f is True and nh and ne or f is False and (zh or ze) or und or both, 'a table is usable only if both of its arrays were allocated', where(p), p)
