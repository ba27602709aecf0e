"""Symbolic chain of adjacent memory blocks.

One path of an allocator operation is replayed, event by event, on an abstract arena: addresses and
sizes are linear forms over what the path read, blocks are identified by their address, and each
block has a size, a back-link, a used flag and a place on (or off) the free lists.  The state at the
beginning and at every loop header is assumed well formed (neighbours agree, free = listed, except
for blocks the operation holds), and must be well formed again where a loop is re-entered and where
the operation returns."""
import itertools
from engine import *
from memview import memview, PRIM, FB, PG, STATS
from rules_lib import ev

HALF = 1 << 31


class L:
    """linear form: sum of coef * atom + c"""
    __slots__ = ('d', 'c', '_h')

    def __init__(self, d=(), c=0):
        self.d = frozenset(d.items() if isinstance(d, dict) else d)
        self.c = c
        self._h = hash((self.d, c))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, L) and self.c == o.c and self.d == o.d

    def __add__(self, o):
        if not isinstance(o, L):
            return L(self.d, self.c + o)
        d = dict(self.d)
        for a, k in o.d:
            v = d.get(a, 0) + k
            if v:
                d[a] = v
            else:
                d.pop(a, None)
        return L(d, self.c + o.c)

    def __neg__(self):
        return L({a: -k for a, k in self.d}, -self.c)

    def __sub__(self, o):
        return self + (-o if isinstance(o, L) else -o)

    def scale(self, k):
        return L({a: v * k for a, v in self.d}, self.c * k) if k else L()

    def coef(self, a):
        for x, k in self.d:
            if x == a:
                return k
        return 0

    def const(self):
        return not self.d

    def __repr__(self):
        out = []
        for a, k in sorted(self.d, key=lambda x: ashow(x[0])):
            out.append(('+' if k > 0 else '-') + ('' if abs(k) == 1 else '%d*' % abs(k)) + ashow(a))
        if self.c or not out:
            out.append('%+d' % self.c)
        return ''.join(out).lstrip('+')


def ashow(a):
    if a[0] == 't':
        t = a[1]
        if t.op == 'arg':
            return 'arg%d' % t.a[0]
        if t.op == 'callres':
            return 'block%d' % t.a[0]
        if t.op == 'lv':
            return 'b%s' % t.a[0]
        return show(t)[:40]
    if a[0] in ('sz', 'lo', 'u'):
        return '%s(%r)%s' % ({'sz': 'size', 'lo': 'back', 'u': 'used'}[a[0]], a[2], "'" * a[1])
    if a[0] == 'dn':
        return 'align(%r)' % (a[1],)
    return a[0]


def lin_c(v, bits):
    if bits == 64 and v >= 1 << 63:
        return v - (1 << 64)
    if bits <= 32 and v >= HALF + (1 << 30):
        return v - (1 << 32)
    return v


PS, AB, ASZ = ('page_size',), ('arena',), ('arena_size',)
Ps = L({PS: 1})


class Undecided(AnalysisError):
    pass


class Infeasible(Exception):
    pass


class Sim:
    def __init__(self, mv, fn, p, cfg, K):
        self.mv, self.fn, self.p, self.cfg, self.K = mv, fn, p, cfg, K
        self.bind = {}           # load term -> form
        self.memo = {}
        self.words = {}          # load term -> block address form (loads of a whole word)
        self.uval = {}           # ('u', ep, A) -> 0/1
        self.ep = 0
        self.sz, self.lo, self.u, self.listed = {}, {}, {}, {}
        self.known = set()       # blocks known to exist in this epoch
        self.created = {}        # address -> event
        self.dead = set()
        self.facts = []          # (g, why): g >= 0
        self.raw = []            # facts that hold as integers only if their sides are not negative
        self.eqs, self.nes = [], []
        self.nonnull, self.null = set(), set()
        self.pages = []          # (address argument, begin, end)
        self.reps = {}
        self.guard = set()
        self.sweep = None        # (begin, end, upto)
        self.inloop = {}
        self.swept = []
        self.bal = L()           # used-memory counter minus memory of used blocks
        self.delta = {}          # counter -> form
        self.callbacks = []
        self.inhand = []
        self.hdr = None          # snapshot at the innermost loop header
        self.alias = {}
        self.out = []            # (property, rule, ok, msg, event)
        self.last = None
        self.given = None
        self.goals_K = []

    # ---------------------------------------------------------------- obligations
    def ob(self, prop, rule, ok, msg, e=None):
        self.out.append((prop, rule, bool(ok), msg, e or self.last))
        return ok

    # ---------------------------------------------------------------- forms
    def N(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.N_(t)
            self.memo[t] = r
        return r

    def atom(self, t):
        return L({('t', self.alias.get(t, t)): 1})

    def low(self, x):
        d = {a: k for a, k in x.d if k % HALF}
        h = (x.c + (HALF >> 1)) // HALF
        return L(d, x.c - h * HALF)

    def high(self, x):
        return x - self.low(x)

    def N_(self, t):
        o = t.op
        if o == 'c':
            return L((), lin_c(t.a[0], t.a[1] or 64))
        if o == 'ptr':
            b, off, vs = t.a
            r = self.N(b) + off
            for v, k in vs:
                r = r + self.N(v).scale(k)
            return r
        if o == 'load':
            r = self.bind.get(t)
            return r if r is not None else self.atom(t)
        if o == 'cast':
            if t.a[0] in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
                to = t.a[2]
                if to >= 32:
                    return self.N(t.a[1])
            return self.atom(t)
        if o == 'bin':
            k, a, b, w = t.a[0], t.a[1], t.a[2], t.a[3]
            if k == 'add':
                return self.wrap(self.N(a) + self.N(b), w)
            if k == 'sub':
                return self.wrap(self.N(a) - self.N(b), w)
            if k == 'mul' and isc(b):
                return self.N(a).scale(lin_c(b.a[0], w))
            if k == 'shl' and isc(b):
                return self.N(a).scale(1 << b.a[0])
            if k == 'lshr' and isc(b, 31) and w == 32:
                h = self.high(self.res(self.N(a)))
                if h.c % HALF == 0 and all(v % HALF == 0 for _, v in h.d):
                    return L({x: v // HALF for x, v in h.d}, h.c // HALF)
            if k == 'and':
                if isc(a):
                    a, b = b, a
                if isc(b):
                    m = b.a[0]
                    if m == HALF - 1:
                        return self.low(self.N(a))
                    if m == HALF:
                        return self.high(self.N(a))
                    if m == (1 << 32) - 1 or m == (1 << w) - 1:
                        return self.N(a)
                    for al in (8, 16, 32):
                        if m in ((1 << w) - al, (1 << 32) - al, HALF - al) and al == 8:
                            x = self.N(a)
                            return self.dn(self.low(x) if m == HALF - al else x)
                    if m == 7:
                        x = self.N(a)
                        return x - self.dn(x)
            if k == 'or':
                x, y = self.N(a), self.N(b)
                lx, ly, hx, hy = self.low(x), self.low(y), self.high(x), self.high(y)
                zero = L()
                if lx == zero or ly == zero:
                    lo = lx + ly
                    if hx == zero or hy == zero:
                        return lo + hx + hy
                    if L((), HALF) in (hx, hy):
                        return lo + HALF
                    if hx == hy:
                        return lo + hx
            if k == 'xor':
                for x, y in ((a, b), (b, a)):
                    if isc(y, HALF):
                        f = self.N(x)
                        return self.low(f) - self.high(f) + HALF
                for x, y in ((a, b), (b, a)):
                    if isc(y) and y.a[0] == (1 << w) - 1:
                        return -self.N(x) - 1
            return self.atom(t)
        if o == 'cres':
            e = self.p.events[t.a[0]] if t.a[0] < len(self.p.events) else None
            for e in self.p.events:
                if e.n == t.a[0] and e.kind == 'call' and e.name in (PG + 'page_to_reuse', PG + 'page_boundaries_from_addr'):
                    b = L({('t', mk('cres', t.a[0], t.a[1], 8, 8)): 1})
                    if t.a[2] == 8:
                        return b
                    if t.a[2] == 0:
                        return b + Ps
            return self.atom(t)
        if o == 'intr' and ('umax' in t.a[0] or 'umin' in t.a[0] or 'smax' in t.a[0] or 'smin' in t.a[0]):
            x, y = self.N(t.a[1]), self.N(t.a[2])
            if x == y:
                return x
            mx = 'max' in t.a[0]
            if self.prove(x - y):
                return x if mx else y
            if self.prove(y - x):
                return y if mx else x
            a = L({('t', t): 1})
            for z in (x, y):
                self.facts.append((a - z if mx else z - a, 'max/min'))
            return a
        if o == 'sel':
            x, y = self.N(t.a[1]), self.N(t.a[2])
            if x == y:
                return x
            return self.atom(t)
        return self.atom(t)

    def wrap(self, x, w):
        if w == 32 and abs(x.c) >= HALF + (1 << 30):
            return L(x.d, lin_c(x.c % (1 << 32), 32))
        return x

    def aligned_atom(self, a):
        if a[0] in ('sz', 'lo', 'dn') or a in (PS, AB, ASZ):
            return True
        if a[0] == 't':
            t = a[1]
            if t.op == 'callres' and FB + 'try_get_block' in t.a:
                return True
            if t.op == 'cres':
                return True
            if t is mk('arg', 1) and self.fn in ('drv_free', 'drv_realloc'):
                return True
            if t.op == 'lv':
                return a in self.cfg['aligned'] or self.cfg['lvok'].get(t, False)
        return False

    def aligned(self, x):
        if x.c % 8 == 0 and all(self.aligned_atom(a) or k % 8 == 0 for a, k in x.d):
            return True
        # known on this path: the rest equals its rounding (it was compared before)
        r = {a: k for a, k in x.d if not (self.aligned_atom(a) or k % 8 == 0)}
        for rest in (L(r, x.c % 8), L({a: -k for a, k in r.items()}, -x.c % 8)):
            for q in self.eqs:
                for y in (q, -q):
                    d = [a for a, k in y.d if a[0] == 'dn' and k == -1]
                    if any(y + L({a: 1}) == rest == a[1] for a in d):
                        return True
        return False

    def dn(self, x):
        x = self.res(x)
        g = {a: k for a, k in x.d if self.aligned_atom(a) or k % 8 == 0}
        r = {a: k for a, k in x.d if a not in g}
        gc = (x.c // 8) * 8
        rc = x.c - gc
        if not r:
            return L(g, gc)
        rest = L(r, rc)
        lead = sorted(r.items(), key=lambda q: ashow(q[0]))[0][1]
        if lead < 0:
            # dn(-y) = -dn(y+7)
            y = -rest
            return L(g, gc) - self.dn(y + 7)
        a = ('dn', rest)
        self.facts_dn(a, rest)
        return L(g, gc) + L({a: 1})

    def facts_dn(self, a, f):
        for g in (f - L({a: 1}), L({a: 1}) - f + 7):
            if not any(x == g for x, _ in self.facts):
                self.facts.append((g, 'rounding'))

    def res(self, x):
        """resolve used flags that are known by now"""
        if not any(a[0] == 'u' for a, _ in x.d):
            return x
        r = L((), x.c)
        for a, k in x.d:
            if a[0] == 'u' and a in self.uval:
                r = r + self.uval[a] * k
            else:
                r = r + L({a: k})
        return r

    # ---------------------------------------------------------------- well-formed arena of this epoch
    def sz0(self, A):
        for a, k in A.d:
            if a[0] == 'lo' and k == -1 and a[1] == self.ep and A + L({a: 1}) == a[2]:
                return L({a: 1}, -self.mv.header)
        return L({('sz', self.ep, A): 1})

    def lo0(self, A):
        for a, k in A.d:
            if a[0] == 'sz' and k == 1 and a[1] == self.ep and A - self.mv.header - L({a: 1}) == a[2]:
                return L({a: 1}, self.mv.header)
        return L({('lo', self.ep, A): 1})

    def u0(self, A):
        a = ('u', self.ep, A)
        return self.uval.get(a)

    def csz(self, A):
        return self.sz.get(A) or self.sz0(A)

    def clo(self, A):
        return self.lo.get(A) or self.lo0(A)

    def cu(self, A):
        """0 / 1 / None"""
        if A in self.u:
            return self.u[A]
        return self.u0(A)

    def clisted(self, A):
        if A in self.listed:
            return self.listed[A]
        u = self.cu(A)
        return None if u is None else not u

    def end(self, A):
        return A + self.csz(A) + self.mv.header

    # ---------------------------------------------------------------- facts and the little prover
    def lb(self, a):
        if a[0] == 'sz':
            return self.K
        if a[0] == 'lo':
            return 0
        if a == PS:
            return 256
        if a[0] == 'u':
            return 0
        if a == ASZ:
            return 1024
        if a[0] == 't' and a[1] is mk('arg', 1) and self.fn in ('drv_alloc', 'drv_plain_alloc'):
            return 0
        if a[0] == 't' and a[1] is mk('arg', 2) and self.fn == 'drv_realloc':
            return 0
        if a[0] == 'dn':
            g = a[1]
            if all(k > 0 and self.lb(x) is not None for x, k in g.d) and g.c >= 0:
                return 0
        return None

    def trivially(self, g):
        s = g.c
        for a, k in g.d:
            lb = self.lb(a)
            if k < 0 or lb is None:
                return False
            s += k * lb
        return s >= 0

    def prove(self, g, depth=3, pool=None):
        g = self.res(g)
        if self.trivially(g):
            return True
        if depth == 0:
            return False
        # rounding up below an aligned bound
        for a, k in g.d:
            if a[0] == 'dn' and k == -1:
                S = g + L({a: 1})
                if self.aligned(S) and self.prove(S + 7 - a[1], depth - 1, pool):
                    return True
        if pool is None:
            pool = [self.res(f) for f, _ in self.facts] + [self.res(x) for x in self.eqs] + [self.res(-x) for x in self.eqs]
        for f in pool:
            if f.d and any(g.coef(a) * k > 0 for a, k in f.d):
                if self.prove(g - f, depth - 1, pool):
                    return True
        return False

    def activate(self):
        ch = True
        while ch:
            ch = False
            for r in list(self.raw):
                x, y, g, why = r
                if self.nonneg(x) and self.nonneg(y):
                    self.raw.remove(r)
                    self.addg(g, why)
                    ch = True

    def nonneg(self, x):
        x = self.res(x)
        if self.pointer(x):
            return True
        return self.prove(x, 2)

    def pointer(self, x):
        """address of something: exactly one base pointer, the rest cannot leave the address space"""
        n = 0
        for a, k in x.d:
            if a == AB or a[0] == 't' and (a[1].op in ('callres', 'cres', 'lv') or a[1] is mk('arg', 1) and self.fn in ('drv_free', 'drv_realloc')):
                if k != 1:
                    return False
                n += 1
        return n == 1

    def addg(self, g, why=''):
        g = self.res(g)
        if g.const():
            if g.c < 0:
                raise Infeasible(why)
            return
        for f, _ in self.facts:
            if (f + g).const() and (f + g).c < 0:
                raise Infeasible(why)
        self.facts.append((g, why))

    def fact(self, atom, val):
        if atom.op == 'not':
            return self.fact(atom.a[0], not val)
        if atom.op == 'and' and val and all(isinstance(x, T) for x in atom.a):
            for x in atom.a:
                self.fact(x, True)
            return
        if atom.op == 'or' and not val and all(isinstance(x, T) for x in atom.a):
            for x in atom.a:
                self.fact(x, False)
            return
        # used flag?
        ws = [t for t in self.outer(atom) if t in self.words]
        if ws and self.flagfact(atom, val, ws):
            return
        if atom.op != 'atom':
            if atom.op == 'cast' or atom.op == 'bin':
                return
            return
        pred, a, b = atom.a[0], atom.a[1], atom.a[2]
        x, y = self.res(self.N(a)), self.res(self.N(b))
        if pred == 'eq':
            g = x - y
            if g.const():
                if (g.c == 0) != val:
                    raise Infeasible('eq')
                return
            if y == L() or x == L():
                z = x if y == L() else y
                (self.null if val else self.nonnull).add(z)
            if val:
                self.eqs.append(g)
                self.addg(g, 'eq')
                self.addg(-g, 'eq')
            else:
                self.nes.append(g)
            return
        if pred in ('ult', 'slt', 'ule', 'sle'):
            strict = 1 if pred.endswith('lt') else 0
            g = y - x - strict if val else x - y - (1 - strict)
            why = show(atom)[:60]
            if pred[0] == 's' or (self.nonneg(x) and self.nonneg(y)):
                self.addg(g, why)
            else:
                self.raw.append((x, y, g, why))
            self.activate()

    def outer(self, t, acc=None):
        """loads a term depends on directly (not through an address)"""
        acc = [] if acc is None else acc
        if t.op == 'load':
            acc.append(t)
        else:
            for x in t.a:
                if isinstance(x, T):
                    self.outer(x, acc)
                elif isinstance(x, tuple):
                    for y in x:
                        for z in (y if isinstance(y, tuple) else (y,)):
                            if isinstance(z, T):
                                self.outer(z, acc)
        return acc

    def flagfact(self, atom, val, ws):
        """does the atom depend on the used flag of one block only?"""
        blocks = {self.words[w][1] for w in ws}
        if len(blocks) != 1:
            return False
        A = next(iter(blocks))
        res = {}
        for u in (0, 1):
            for s in (self.K & ~7, 0x1238, HALF - 8):
                env = {}
                for w in ws:
                    kind = self.words[w][0]
                    v = s | (u << 31)
                    env[w] = v if kind == 'word' else (v >> 24) & 0xff if kind == 'b3' else v
                r = ev(atom, env)
                if r is None:
                    return False
                res.setdefault(u, set()).add(r)
        if len(res[0]) != 1 or len(res[1]) != 1:
            return False
        ok = [u for u in (0, 1) if res[u] == {int(val)}]
        if not ok:
            raise Infeasible('flag')
        if len(ok) == 1:
            forms = {self.bind[w] for w in ws}
            for f in forms:
                for a, k in f.d:
                    if a[0] == 'u':
                        if self.uval.get(a, ok[0]) != ok[0]:
                            raise Infeasible('flag')
                        self.uval[a] = ok[0]
                hs = self.high(self.res(f))
                if hs.const() and hs.c // HALF != ok[0]:
                    raise Infeasible('flag')
        return True

    def lt(self, x, y):
        """x < y follows from the facts"""
        return self.prove(y - x - 1)

    def differs(self, x, y):
        return any(g == x - y or g == y - x for g in map(self.res, self.nes))

    # ---------------------------------------------------------------- pages
    def rep(self, A):
        if A in self.reps:
            return self.reps[A]
        if A in self.guard:
            return A
        self.guard.add(A)
        try:
            for a, k in A.d:
                if a[0] == 'lo' and k == -1 and A + L({a: 1}) == a[2] and self.interior(a[2]):
                    return self.rep(a[2])
                if a[0] == 'sz' and k == 1 and A - self.mv.header - L({a: 1}) == a[2] and self.interior(A):
                    return self.rep(a[2])
            return A
        finally:
            self.guard.discard(A)

    def interior(self, O):
        """the address is known not to be the beginning of a page"""
        for X, b, e in self.pages:
            r = self.rep(X)
            if self.rep(O) == r and (self.lt(b, O) or self.differs(b, O)):
                return True
            for a, k in O.d:
                if a[0] == 'sz' and k == 1:
                    Y = a[2]
                    if O - self.mv.header - L({a: 1}) == Y and self.rep(Y) == r and (self.lt(O, e) or self.differs(O, e)):
                        return True
                if a[0] == 'lo':
                    pass
        return False

    def in_arena(self, O):
        AE = L({AB: 1, ASZ: 1})
        if self.lt(O, AE) or self.differs(O, AE):
            return True
        return self.interior(O) or O in self.known

    def beyond(self, O):
        AE = L({AB: 1, ASZ: 1})
        return self.prove(O - AE)

    # ---------------------------------------------------------------- events
    def cls(self, addr):
        b = split_ptr(addr)[0]
        if b is STATS:
            return 'stat', split_ptr(addr)[1]
        if b.op == 'alloca':
            return 'local', None
        if b is mk('arg', 0):
            return 'cfg', split_ptr(addr)[1]
        if b.op == 'load' and self.bind.get(b) == 'pages':
            return 'pages', split_ptr(addr)[1]
        if b.op == 'glob':
            return 'glob', None
        return 'block', None

    def on_load(self, e):
        t = e.val
        if t.op != 'load' or t in self.bind:
            return
        c, off = self.cls(e.addr)
        m = self.mv
        if c == 'cfg':
            f = {v: k for k, v in m.mem.items()}.get(off)
            if f == 'page_size':
                self.bind[t] = Ps
            elif f == 'arena_size':
                self.bind[t] = L({ASZ: 1})
            elif f == 'm_arena' or off == m.arena_off:
                self.bind[t] = L({AB: 1})
            elif off == m.pages_off:
                self.bind[t] = 'pages'
                self.memo[t] = L({('t', t): 1})
            self.memo.pop(t, None) if t in self.bind and self.bind[t] != 'pages' else None
            return
        if c == 'pages':
            f = {v: k for k, v in m.pg.items()}.get(off)
            if f == 'page_size':
                self.bind[t] = Ps
            elif f == 'arena_begin':
                self.bind[t] = L({AB: 1})
            elif f == 'arena_end':
                self.bind[t] = L({AB: 1, ASZ: 1})
            self.memo.pop(t, None)
            return
        if c != 'block':
            return
        A = self.res(self.N(e.addr))
        self.memo.pop(t, None)
        f = A.c % 8
        B = L(A.d, A.c - f)
        if f == 0 and t.a[1] == 4:
            self.bind[t] = self.word(B)
            self.words[t] = ('word', B)
        elif f == 0 and t.a[1] == 8:
            self.bind[t] = self.word(B) + self.clo(B).scale(1 << 32)
            self.words[t] = ('word', B)
        elif f == 4 and t.a[1] == 4:
            self.bind[t] = self.clo(B)
        elif f == 3 and t.a[1] == 1:
            self.bind[t] = L({('t', t): 1})
            self.words[t] = ('b3', B)
        else:
            raise Undecided('read of an unexpected part of a block: %r' % A)
        self.touching(B, e)

    def touching(self, B, e):
        """a block header is accessed: it must belong to an existing block"""
        if B in self.dead:
            self.ob('M02', 'live-blocks', False, 'the header of block %r is accessed after the block was merged into another one' % B, e)

    def word(self, B):
        u = self.cu(B)
        return self.csz(B) + (L({('u', self.ep, B): HALF}) if u is None else HALF * u)

    def used_mem(self, B):
        u = self.cu(B)
        if B in self.swept:
            return L()
        if u is None:
            return None
        return (self.csz(B) + self.mv.header) if u else L()

    def on_store(self, e):
        c, off = self.cls(e.addr)
        if c == 'stat':
            return self.on_stat(e, off)
        if c == 'local':
            return
        if c in ('cfg', 'pages', 'glob'):
            self.ob('M02', 'bounds', False, 'the allocator\'s configuration is written', e)
            return
        A = self.res(self.N(e.addr))
        f = A.c % 8
        B = L(A.d, A.c - f)
        if f == 4 and e.size == 4:
            ok = self.in_arena(B)
            self.ob('M02', 'bounds', ok, 'back-link written at %r, which is not known to be inside the arena' % B, e)
            self.touching(B, e)
            self.lo[B] = self.res(self.N(e.val))
            return
        if f == 0 and e.size == 4:
            v = self.res(self.N(e.val))
            self.touching(B, e)
            if self.sweep and B == self.sweep[0] and not self.rebuilt and self.sweep[2] != B and B not in self.swept:
                self.swept.append(B)
            before = self.used_mem(B)
            old = self.csz(B) if B not in self.swept else None
            lst = self.clisted(B) if B not in self.swept else False
            h, s = self.high(v), self.low(v)
            exists = self.exists(B)
            if h.const():
                u = h.c // HALF
                if u not in (0, 1):
                    u = None
            else:
                u = None
                for a, k in h.d:
                    if len(h.d) == 1 and a == ('u', self.ep, B) and k == HALF and h.c == 0:
                        u = 'same'
            if exists and lst and (s != old) and not self.ob('M03', 'listed-size', False, 'the size of block %r changes while it is on a free list' % B, e):
                pass
            elif exists and old is not None and s != old:
                self.ob('M03', 'listed-size', True, 'size changed while off the lists', e)
            if u is None:
                self.ob('M03', 'used-flag', False, 'the used flag of block %r is set to an unknown value' % B, e)
                u = self.cu(B)
            if not exists:
                self.created[B] = e
                self.listed[B] = False
                before = L()
                self.reps_created(B)
            if B in self.swept:
                self.swept = [x for x in self.swept if x != B]
                self.listed[B] = False
                self.rebuilt = True
            self.sz[B] = s
            if u != 'same':
                self.u[B] = u
                if exists and B not in self.listed and lst is not None:
                    self.listed[B] = lst
            self.known.add(B)
            after = self.used_mem(B)
            if before is None or after is None:
                if before is not after and u != 'same':
                    self.ob('M03', 'used-flag', False, 'the used flag of block %r is changed without knowing its state' % B, e)
            else:
                self.bal = self.bal - (after - before)
            return
        raise Undecided('write to an unexpected part of a block: %r' % A)

    def reps_created(self, B):
        for A in list(self.known) + list(self.sz):
            if A != B and self.end(A) == B:
                self.reps[B] = self.rep(A)
                return

    def exists(self, B):
        """is there (by the well-formedness of the arena) a block at this address?"""
        if B in self.known:
            return True
        if len(B.d) == 1 and next(iter(B.d))[1] == 1 and B.c == 0 and next(iter(B.d))[0][0] == 't':
            return True
        for a, k in B.d:
            if a[0] == 'lo' and k == -1 and a[1] == self.ep and B + L({a: 1}) == a[2]:
                return True
            if a[0] == 'sz' and k == 1 and a[1] == self.ep and B - self.mv.header - L({a: 1}) == a[2]:
                return True
            # left neighbour in its other spelling
        return False

    def on_stat(self, e, off):
        name = self.mv.stats.get(off)
        d = self.stat_delta(e, off)
        if name is None:
            return
        if d is None:
            self.ob('M05', 'counter-step', False, 'counter %s is not increased or decreased by an amount: %s' % (name, show(e.val)[:120]), e)
            return
        self.delta[name] = self.delta.get(name, L()) + d
        if name == 'used_memory':
            self.bal = self.bal + d

    def stat_delta(self, e, off):
        addr = e.addr
        M = (1 << 64) - 1

        def isbase(t):
            return t.op == 'load' and t.a[0] is addr or t is self.laststat.get(off)

        def dl(t):
            if isbase(t):
                return L()
            if t.op == 'bin' and t.a[0] in ('add', 'sub'):
                a, b = t.a[1], t.a[2]
                x = dl(a)
                if x is not None:
                    y = self.N(b)
                    return x + y if t.a[0] == 'add' else x - y
                if t.a[0] == 'add':
                    y = dl(b)
                    if y is not None:
                        return y + self.N(a)
                return None
            if t.op == 'sel':
                a, b = t.a[1], t.a[2]
                for x, y in ((a, b), (b, a)):
                    if isc(x, M) or isc(x, 0):
                        return dl(y)
                x, y = dl(a), dl(b)
                return x if x is not None and x == y else None
            if t.op == 'intr' and ('uadd.sat' in t.a[0] or 'usub.sat' in t.a[0]):
                x = dl(t.a[1])
                if x is not None:
                    y = self.N(t.a[2])
                    return x + y if 'uadd' in t.a[0] else x - y
                if 'uadd' in t.a[0]:
                    x = dl(t.a[2])
                    if x is not None:
                        return x + self.N(t.a[1])
            return None
        r = dl(e.val)
        self.laststat[off] = e.val
        return None if r is None else self.res(r)

    def on_call(self, e):
        n = e.name
        if n == FB + 'try_get_block':
            R = L({('t', e.res): 1})
            self.inhand.append(R)
            self.u[R] = 0
            self.listed[R] = False
            self.known.add(R)
            self.facts.append((self.csz(R) - self.N(e.args[1]), 'size of the block found'))
            self.tryget = R
            return
        if n == FB + 'put_block':
            B = self.res(self.N(e.args[1]))
            u, l = self.cu(B), self.clisted(B)
            self.touching(B, e)
            ok = self.exists(B) and B not in self.swept
            self.ob('M03', 'list-put', ok and u == 0 and l is False, 'block %r is put on a free list while it is %s' % (
                B, 'not a block' if not ok else 'not known to be free' if u != 0 else 'already listed' if l else 'in an unknown state'), e)
            self.listed[B] = True
            return
        if n == FB + 'remove_block':
            B = self.res(self.N(e.args[1]))
            l = self.clisted(B)
            self.ob('M03', 'list-remove', l is True and B not in self.dead, 'block %r is taken from a free list without being known to be listed' % B, e)
            self.listed[B] = False
            self.advance()
            return
        if n == PG + 'touch':
            return
        if n == PG + 'page_to_reuse':
            b = L({('t', mk('cres', e.n, 0, 8, 8)): 1})
            self.sweep = [b, b + Ps, b]
            self.known.add(b)
            self.pages.append((b, b, b + Ps))
            return
        if n == PG + 'page_boundaries_from_addr':
            b = L({('t', mk('cres', e.n, 0, 8, 8)): 1})
            X = self.res(self.N(e.args[2]))
            X = L(X.d, X.c)
            self.pages.append((X, b, b + Ps))
            self.facts.append((X - b, 'page of address'))
            self.facts.append((b + Ps - X - 1, 'page of address'))
            return
        # anything else that is given the memory of a block reports an eviction
        hit = False
        for a in e.args:
            x = self.res(self.N(a))
            B = x - self.mv.header
            if self.pointer(x) and self.aligned(x):
                hit = True
                self.callbacks.append(B)
                self.ob('M03', 'evict-used', self.cu(B) == 1, 'block %r is reported as evicted without being known to be used' % B, e)
                if self.cu(B) == 1 and self.sweep and B == self.sweep[2]:
                    self.bal = self.bal + self.csz(B) + self.mv.header
                self.advance()
        if not hit and not getattr(e, 'silent', False):
            raise Undecided('call of %s' % n)

    def advance(self):
        """move the boundary of the cleaned part of the recycled page over blocks that were dealt with"""
        s = self.sweep
        if not s:
            return
        B = s[2]
        u = self.cu(B)
        if (u == 1 and B in self.callbacks) or (u == 0 and self.listed.get(B) is False and B not in self.created):
            n = self.end(B)
            ok = B == s[0] or self.lt(B, s[1]) or self.differs(B, s[1]) or self.inloop.get(B) in self.cfg['incl']
            self.ob('M02', 'same-page', ok, 'the loop over the recycled page goes on at %r, possibly beyond its end' % B)
            self.swept.append(B)
            s[2] = n

    # ---------------------------------------------------------------- well-formedness
    def verify(self, e):
        """the arena is well formed (except for the lists: see states())"""
        h = self.mv.header
        reached = set()
        roots = [B for B in self.sz if B not in self.created and B not in self.dead and self.csz(B) != self.sz0(B)]
        if self.sweep and getattr(self, 'rebuilt', False):
            b, en, upto = self.sweep
            if b in self.sz and b not in roots:
                roots.append(b)
        # process left-most roots first: a root absorbed by another one is no root
        absorbed = set()
        for B in list(roots):
            for O in self.chain(B)[1:]:
                if O in roots and O != B:
                    cur = B
                    # is O inside the new extent of B?
                    if self.walk(B) and O not in self.walk(B)[0] and O != self.walk(B)[1]:
                        absorbed.add(O)
        for B in roots:
            if B in absorbed:
                continue
            w = self.walk(B)
            if w is None:
                self.ob('M02', 'chain', False, 'after the size of block %r became %r its right neighbour is not the beginning of a block' % (B, self.csz(B)), e)
                continue
            blocks, last, olds = w
            self.ob('M02', 'chain', True, 'block %r ends at a block boundary' % B, e)
            for X, Y in zip(blocks, blocks[1:]):
                reached.add(Y)
                self.ob('M02', 'back-link', self.same(self.clo(Y), self.csz(X) + h), 'back-link of the new block %r is %r, its left neighbour has %r bytes' % (Y, self.clo(Y), self.csz(X) + h), e)
            for X in blocks:
                okk = self.prove(self.csz(X) - self.K)
                self.goals_K.append(okk)
                self.ob('M02', 'block-size', okk, 'block %r gets a size (%r) that may be too small for the list links' % (X, self.csz(X)), e)
                self.ob('M02', 'alignment', self.aligned(X) and self.aligned(self.csz(X)), 'block %r or its size %r is not aligned' % (X, self.csz(X)), e)
            X = blocks[-1]
            lv = self.clo(last)
            reached.add(last)
            if olds == 'page':
                ok = last in self.lo and self.same(lv, self.csz(X) + h)
            else:
                ok = self.same(lv, self.csz(X) + h)
            self.ob('M02', 'back-link', ok or self.beyond(last), 'back-link of block %r is %s although the block to its left now has %r bytes' % (
                last, repr(lv) if last in self.lo else 'unchanged', self.csz(X) + h), e)
            if olds == 'page':
                continue
            for O in olds:
                if O in blocks:
                    continue
                self.ob('M02', 'same-page', self.interior(O), 'block %r is merged across what may be a page boundary' % O, e)
                self.ob('M03', 'absorbed', self.cu(O) == 0 and self.clisted(O) is False and O not in self.created,
                        'block %r is merged into %r while it is %s' % (O, B, 'not known to be free' if self.cu(O) != 0 else 'still on a free list' if self.clisted(O) else 'in an unknown state'), e)
                self.dead.add(O)
            if len(olds) and olds[0] != B:
                pass
            # the absorbing block itself must not be on a list and must be free (its memory grows) or in hand
        for B, v in self.lo.items():
            if B in reached or B in self.dead or B in self.swept:
                continue
            base = self.lo0(B)
            ok = v == base
            if not ok and self.sweep and B == self.sweep[0]:
                ok = v == base
            self.ob('M02', 'back-link', ok, 'back-link of block %r is set to %r although its left neighbour is unchanged' % (B, v), e)
        for B in self.created:
            if B in self.dead:
                continue
            self.ob('M02', 'chain', B in reached, 'a block is created at %r, which is not next to any block' % B, e)

    def same(self, x, y):
        if self.res(x - y) == L():
            return True
        g = self.res(x - y)
        return any(q == g or -q == g for q in map(self.res, self.eqs))

    def chain(self, B, n=5):
        """old neighbours of B to the right, B first"""
        out = [B]
        X = B
        for _ in range(n):
            X = X + self.sz0(X) + self.mv.header
            out.append(X)
        return out

    def walk(self, B):
        """-> (blocks from B on, old boundary reached, old boundaries passed) or None"""
        olds = self.chain(B)
        blocks = [B]
        X = B
        for _ in range(5):
            nx = self.end(X)
            if self.sweep and nx == self.sweep[1] and B == self.sweep[0]:
                return blocks, nx, 'page'
            if nx in self.created and nx not in self.dead:
                blocks.append(nx)
                X = nx
                continue
            if nx in olds[1:] and not (self.sweep and B == self.sweep[0] and getattr(self, 'rebuilt', False)):
                return blocks, nx, olds[1:olds.index(nx)]
            # equal only by a known equality
            for k, O in enumerate(olds[1:], 1):
                if self.same(nx, O):
                    return blocks, O, olds[1:k]
            return None
        return None

    def states(self):
        """blocks whose list membership does not follow from their flag -> {address: (used, listed)}"""
        r = {}
        for B in set(self.u) | set(self.listed) | set(self.created):
            if B in self.dead or B in self.swept:
                continue
            u, l = self.cu(B), self.clisted(B)
            if B in self.null:
                continue
            if u is None or l is None or bool(l) != (u == 0):
                r[B] = (u, l)
        return r

    # ---------------------------------------------------------------- replay
    def run(self):
        """-> 'ok' or None when the path cannot be taken"""
        p = self.p
        self.laststat = {}
        self.tryget = None
        self.rebuilt = False
        k = 0
        self.start()
        try:
            for e in p.events:
                while k < e.fpos:
                    self.fact(*p.flist[k])
                    k += 1
                self.last = e
                if e.kind == 'load':
                    self.on_load(e)
                elif e.kind == 'store':
                    self.on_store(e)
                elif e.kind == 'call':
                    self.on_call(e)
                elif e.kind == 'loop':
                    self.on_loop(e)
            while k < len(p.flist):
                self.fact(*p.flist[k])
                k += 1
            for g in self.nes:
                if self.res(g) == L():
                    raise Infeasible('ne')
            self.finish()
        except Infeasible:
            self.out = []
            return None
        return 'ok'

    def start(self):
        if self.fn in ('drv_free', 'drv_realloc'):
            B = L({('t', mk('arg', 1)): 1}, -self.mv.header)
            self.given = B
            self.known.add(B)
            self.u[B] = 1
            self.listed[B] = False
            self.size0 = self.csz(B)
            self.facts.append((Ps - self.size0 - self.mv.header, 'a block fits its page'))
        if self.fn in ('drv_alloc', 'drv_plain_alloc'):
            self.facts.append((Ps - self.mv.header - L({('t', mk('arg', 1)): 1}), 'requests are limited to a page'))

    def stores_in(self, header):
        return header in self.cfg['bump']

    def on_loop(self, e):
        header, inits = e.x
        phis = {mk('lv', header, ph): self.res(self.N(v)) for ph, v in inits.items() if isinstance(v, T)}
        bump = self.stores_in(header)
        # loop variables that always have the same value
        for grp in self.cfg['aliases'].get(header, ()):
            for x in grp[1:]:
                self.alias[mk('lv', header, x)] = mk('lv', header, grp[0])
        if bump:
            self.verify(e)
        st = self.states()
        ren = {}
        mode = self.cfg['mode'].get(header, 'move')
        for v, init in phis.items():
            if v in self.alias:
                continue
            vl = L({('t', v): 1})
            if self.cfg['pg'].get(v, True):
                self.reps[vl] = self.rep(init)
            if mode == 'move' and init in st and init not in ren and self.cfg['blockphi'].get(v, True):
                ren[init] = vl
        self.pre = {ren.get(B, B): (B, self.csz(B)) for B in st}
        if bump:
            keep = {}
            for B, s in st.items():
                keep[ren.get(B, B)] = s
            sizes = {ren.get(B, B): self.csz(B) for B in st}
            given = ren.get(self.given, self.given)
            oldsz = {ren.get(B, B): B for B in st}
            self.ep += 1
            self.sz, self.lo, self.created = {}, {}, {}
            self.u = {B: s[0] for B, s in keep.items() if s[0] is not None}
            self.listed = {B: s[1] for B, s in keep.items() if s[1] is not None}
            self.known = set(keep)
            self.dead = set()
            self.gone = self.given if given != self.given else getattr(self, 'gone', None)
            self.given = given
            if self.tryget is not None:
                self.tryget = ren.get(self.tryget, self.tryget)
            for B in keep:
                if self.cfg['mono'].get(header, True):
                    self.facts.append((self.csz(B) - sizes[B], 'the block only grows'))
        # loop variables that follow the address, size or end of a block the operation holds
        rels = {}
        pre = self.pre
        for v, init in phis.items():
            if v in self.alias or L({('t', v): 1}) in ren.values():
                continue
            for B, (b0, s0) in pre.items():
                for kind, base in (('addr', b0), ('size', s0), ('end', b0 + s0)):
                    if v in rels or not self.cfg['rel'].get((v, kind), True):
                        continue
                    if kind == 'addr' and not bump:
                        continue
                    d = init - base
                    if d.const() and not (kind == 'addr' and b0 == B and False):
                        rels[v] = (kind, B, d.c)
        for v, (kind, B, c) in rels.items():
            self.memo[v] = {'addr': B, 'size': self.csz(B), 'end': B + self.csz(B)}[kind] + c
        if self.sweep:
            for v, init in phis.items():
                if init == self.sweep[2] and v not in rels:
                    self.sweep[2] = L({('t', v): 1})
                    self.known.add(self.sweep[2])
                    if init == self.sweep[0]:
                        self.inloop[self.sweep[2]] = header
        self.hdr = dict(header=header, states={B: s for B, s in self.states().items()}, bal=self.bal, delta=dict(self.delta), bump=bump,
                        sweep=list(self.sweep) if self.sweep else None, phis=phis, rels=rels, sizes={B: self.csz(B) for B in self.states()}, ncb=len(self.callbacks), rebuilt=self.rebuilt)
        self.hdrs = getattr(self, 'hdrs', {})
        self.hdrs[header] = self.hdr

    def finish(self):
        p = self.p
        if p.outcome == 'backedge':
            return self.backedge()
        if p.outcome == 'ret':
            return self.ret()
        if p.outcome in ('noreturn', 'terminate', 'unwind'):
            self.ob('M03', 'final-state', False, 'the operation ends with %s' % p.outcome)

    def backedge(self):
        header, nxt = self.p.x
        h = self.hdrs.get(header)
        if h is None:
            raise Undecided('loop header %s' % header)
        val = {mk('lv', header, ph): self.res(self.N(v)) for ph, v in nxt.items() if isinstance(v, T)}
        if h['bump']:
            self.verify(self.last)
        sub = {}
        for v, n in val.items():
            if v not in self.alias:
                sub[L({('t', v): 1})] = n
        want = {}
        for B, s in h['states'].items():
            want[sub.get(B, B)] = s
        got = self.states()
        pr = None
        for B in set(want) | set(got):
            if want.get(B) != got.get(B):
                pr = B
        self.cfgresult('mode', header, pr is None)
        self.ob('M03', 'loop-state', pr is None, 'after one round of the loop block %r is %s, at its start it was %s' % (
            pr, self.sshow(got.get(pr)) if pr is not None else '', self.sshow(want.get(pr)) if pr is not None else ''))
        self.ob('M05', 'balance', self.res(self.bal - h['bal']) == L(), 'one round of the loop changes the used-memory counter by %r bytes more than the memory in use' % self.res(self.bal - h['bal']))
        for n in set(self.delta) | set(h['delta']):
            d = self.res(self.delta.get(n, L()) - h['delta'].get(n, L()))
            if n == 'evictions':
                self.ob('M05', 'counted-once', d == L((), len(self.callbacks) - h['ncb']), '%r evictions are counted for %d evicted blocks' % (d, len(self.callbacks) - h['ncb']))
            elif n != 'used_memory':
                self.ob('M05', 'counted-once', d == L(), 'counter %s changes in a loop' % n)
        if 'evictions' not in self.delta and len(self.callbacks) > h['ncb']:
            self.ob('M05', 'counted-once', False, 'an evicted block is not counted')
        if h['sweep']:
            w = sub.get(h['sweep'][2], h['sweep'][2])
            self.ob('M03', 'page-sweep', self.sweep[2] == w and w != h['sweep'][2], 'a round of the loop over the recycled page does not deal with exactly one block (%r), continues at %r' % (h['sweep'][2], w))
            self.cfgresult('incl', header, self.lt(w, self.sweep[1]) or self.differs(w, self.sweep[1]))
        for v, (kind, B, c) in h['rels'].items():
            n = sub.get(B, B)
            f = {'addr': n, 'size': self.csz(n), 'end': n + self.csz(n)}[kind] + c
            self.cfgresult('rel', (v, kind), v in val and self.same(val[v], f))
        for v, n in val.items():
            if v in h['rels']:
                continue
            if v in self.alias:
                if n != val.get(self.alias[v]):
                    self.cfgresult('aliases', header, False)
                continue
            vl = L({('t', v): 1})
            if self.pointer(n):
                self.cfgresult('pg', v, self.rep(n) == self.rep(vl))
                self.cfgresult('blockphi', v, self.exists(n))
                self.cfgresult('lvok', v, self.aligned(n) and self.aligned(h['phis'].get(v, L())))
        for B, s0 in h['sizes'].items():
            n = sub.get(B, B)
            self.cfgresult('mono', header, n in got and self.prove(self.csz(n) - s0))

    def cfgresult(self, kind, key, ok):
        if not ok:
            self.cfg['failed'].add((kind, key))

    def sshow(self, s):
        if s is None:
            return 'in its normal state'
        return '%s and %s' % ('used' if s[0] == 1 else 'free' if s[0] == 0 else 'in an unknown state', 'listed' if s[1] else 'not listed' if s[1] is False else 'unknown list state')

    def ret(self):
        h = self.mv.header
        p = self.p
        self.verify(self.last)
        st = self.states()
        for B, s in st.items():
            self.ob('M03', 'final-state', False, 'when the operation returns block %r is %s' % (B, self.sshow(s)))
        if not st:
            self.ob('M03', 'final-state', True, 'all blocks are listed exactly if they are free')
        if self.sweep:
            b, en, upto = self.sweep
            done = self.rebuilt and (upto == en or self.prove(upto - en) or self.same(upto, en))
            if not self.rebuilt:
                self.ob('M03', 'page-sweep', not self.swept and self.sweep[2] == b, 'blocks of the recycled page were evicted or unlisted but the page was not rebuilt')
            else:
                self.ob('M03', 'page-sweep', done, 'the recycled page is rebuilt although blocks from %r on may not have been dealt with' % upto)
                self.ob('M02', 'page-rebuild', b in self.sz and b not in self.dead, 'the rebuilt page does not start with a block')
        bal = self.res(self.bal)
        self.ob('M05', 'balance', self.same(bal, L()), 'the used-memory counter changes by %r bytes more than the memory in use' % bal)
        # counters
        need = {}
        r = self.res(self.N(p.ret)) if p.ret is not None else None
        isnull = r is not None and (r == L() or r in self.null)
        if self.fn in ('drv_alloc', 'drv_plain_alloc'):
            need = {'num_malloc': 1, 'num_alloc_errors': int(isnull)}
        elif self.fn == 'drv_free':
            need = {'num_free': 1}
        elif self.fn == 'drv_realloc':
            need = {'num_realloc': 1, 'num_realloc_errors': int(isnull)}
        need['evictions'] = len(self.callbacks)
        for n in ('num_malloc', 'num_free', 'num_realloc', 'num_alloc_errors', 'num_realloc_errors', 'evictions'):
            d = self.res(self.delta.get(n, L()))
            if n == 'evictions' and getattr(self, 'hdrs', None):
                pass
            self.ob('M05', 'counted-once', d == L((), need.get(n, 0)), 'counter %s changes by %r instead of %d' % (n, d, need.get(n, 0)))
        req = None
        if self.fn in ('drv_alloc', 'drv_plain_alloc'):
            req = L({('t', mk('arg', 1)): 1})
            d = lambda n: self.res(self.delta.get(n, L()))
            self.ob('M05', 'amounts', d('total_requested') == req and d('total_unserved') == (req if isnull else L()), 'requested/unserved totals change by %r and %r for a request of %r bytes' % (
                d('total_requested'), d('total_unserved'), req))
            if isnull:
                self.ob('M03', 'final-state', self.tryget is None or self.tryget in self.null, 'no memory is returned although a block was taken from the free lists')
                self.ob('M05', 'amounts', d('total_served') == L(), 'memory is counted as served although none is returned')
            else:
                B = r - h
                ok = self.cu(B) == 1 and self.clisted(B) is False and (B == self.tryget and B in self.nonnull or self.sweep and B == self.sweep[0] and self.rebuilt)
                self.ob('M03', 'returned-block', ok, 'the memory returned (%r) does not belong to a used block taken from the free lists or the recycled page' % r)
                self.ob('M01', 'fits', self.prove(self.csz(B) - req), 'the block returned has %r bytes, requested were %r' % (self.csz(B), req))
                self.ob('M05', 'amounts', d('total_served') == self.csz(B) + h, 'served total changes by %r for a block of %r bytes' % (d('total_served'), self.csz(B) + h))
            used = [X for X in self.u if self.u[X] == 1 and X not in self.swept and X not in self.dead and not (r is not None and X == r - h)]
            self.ob('M03', 'final-state', not used, 'another block (%s) is marked used than the one returned' % ', '.join(map(repr, used)))
        elif self.fn == 'drv_free':
            B = self.given
            self.ob('M03', 'returned-block', self.cu(B) == 0 or B in self.dead, 'the released block is not free')
        elif self.fn == 'drv_realloc':
            B = self.given
            new = L({('t', mk('arg', 2)): 1})
            self.ob('M03', 'returned-block', B == L({('t', mk('arg', 1)): 1}, -h) and self.cu(B) == 1 and self.clisted(B) is False and (isnull or r == B + h),
                    'after the operation the block given is not a used block, or another one is returned')
            g = self.csz(B) - (self.size0 if isnull else new)
            self.ob('M01', 'fits', self.prove(g), 'the block has %r bytes afterwards, needed are %r' % (self.csz(B), self.size0 if isnull else new))
            d = lambda n: self.res(self.delta.get(n, L()))
            rq, sv, un = d('total_realloc_requested'), d('total_realloc_served'), d('total_realloc_unserved')
            if isnull:
                want = (new - self.size0, L(), new - self.size0)
            elif self.prove(self.size0 - new):
                if self.prove(new - self.size0 - 1):
                    return                      # contradictory: no such path
                want = (L(), L(), L())
            else:
                want = (new - self.size0, self.csz(B) - self.size0, L())
            for n, x, y in zip(('requested', 'served', 'unserved'), (rq, sv, un), want):
                self.ob('M05', 'amounts', self.same(self.res(x - y), L()), 'the %s total of resizes changes by %r instead of %r' % (n, x, y))


def run_fn(mv, fn, paths):
    """replay all paths; weakens loop hypotheses until they are inductive -> list of (sim, path)"""
    bump = set()
    for p in paths:
        if p.outcome == 'backedge':
            h = p.x[0]
            seen = False
            for e in p.events:
                if e.kind == 'loop' and e.x[0] == h:
                    seen = True
                elif seen and e.kind == 'store':
                    b = split_ptr(e.addr)[0]
                    if b is not STATS and b.op != 'alloca':
                        bump.add(h)
    aliases = {}
    heads = {}
    for p in paths:
        for e in p.events:
            if e.kind == 'loop':
                heads.setdefault(e.x[0], []).append(e.x[1])
    for h, ins in heads.items():
        nx = [p.x[1] for p in paths if p.outcome == 'backedge' and p.x[0] == h]
        phs = list(ins[0])
        groups = {}
        for ph in phs:
            groups.setdefault((tuple(id(i.get(ph)) for i in ins),), []).append(ph)
        gs = [sorted(g) for g in groups.values() if len(g) > 1]
        if gs:
            aliases[h] = gs
    cfg = dict(bump=bump, aliases=aliases, mode={}, pg={}, mono={}, blockphi={}, rel={}, lvok={}, aligned=set(), failed=set())
    for p in paths:
        for e in p.events:
            if e.kind == 'loop':
                for ph in e.x[1]:
                    cfg['lvok'][mk('lv', e.x[0], ph)] = True
    best = None
    for K in (56, 48, 40, 32, 24, 16):
        c = dict(cfg, mode={}, pg={}, mono={}, blockphi={}, rel={}, lvok=dict(cfg['lvok']), aliases=dict(aliases), failed=set(), incl=set(heads))
        for rnd in range(12):
            c['failed'] = set()
            sims = []
            for p in paths:
                s = Sim(mv, fn, p, c, K)
                s.last = p.events[-1] if p.events else None
                if s.run():
                    sims.append(s)
            ch = False
            for kind, key in sorted(c['failed'], key=lambda x: (x[0], str(x[1]))):
                if kind == 'mode' and c['mode'].get(key, 'move') == 'move':
                    c['mode'][key] = 'stay'
                    ch = True
                elif kind == 'aliases' and key in c['aliases']:
                    c['aliases'].pop(key)
                    ch = True
                elif kind == 'incl' and key in c['incl']:
                    c['incl'].discard(key)
                    ch = True
                elif kind in ('pg', 'mono', 'blockphi', 'lvok', 'rel') and c[kind].get(key, True):
                    c[kind][key] = False
                    ch = True
            if not ch:
                break
        n = sum(1 for s in sims for o in s.out if not o[2] and o[0] != 'M05')
        if best is None or n < best[0]:
            best = (n, sims, K)
        if n == 0:
            break
    return best[1], best[2]
