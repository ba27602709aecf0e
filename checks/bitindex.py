"""Known-bits domain over the two-level index of free blocks.

Path summaries of the index primitives are evaluated on an abstract index: every word is a set of
known bits plus, for the others, the word they were copied from; addresses are (object, offset); the
list of one size class is a ring of blocks.  The abstract states of a case analysis cover every
state of the index, so a rule that holds in each of them holds for every history."""
from engine import *

M64 = (1 << 64) - 1


class I:
    """known bits k with values v; the other bits are those of the word src at the same positions"""
    __slots__ = ('k', 'v', 'src')

    def __init__(self, k, v, src=None):
        self.k, self.v, self.src = k & M64, v & k & M64, src if k & M64 != M64 else None

    def full(self):
        return self.k == M64

    def key(self):
        return (self.k, self.v, self.src)

    def __repr__(self):
        return '%d' % self.v if self.full() else 'bits(%x/%x%s)' % (self.v, self.k, ' of %s' % (self.src,) if self.src else '')


def num(v):
    return I(M64, v)


class P:
    __slots__ = ('b', 'o')

    def __init__(self, b, o):
        self.b, self.o = b, o

    def key(self):
        return ('p', self.b, self.o)

    def __repr__(self):
        return '%s%+d' % (self.b, self.o)


class Tok:
    """an opaque quantity: the requested size, the word or size of a block"""
    __slots__ = ('n',)

    def __init__(self, *n):
        self.n = n

    def key(self):
        return self.n

    def __repr__(self):
        return '-'.join(map(str, self.n))


REQ = Tok('req')


def trunc(x, w):
    if not isinstance(x, I) or w >= 64:
        return x
    m = (1 << w) - 1
    return I(x.k | (M64 & ~m), x.v & m, x.src)


def lohi(x, w):
    m = (1 << w) - 1
    return x.v & m, (x.v & m) | (~x.k & m)


def add(x, y, w, carry=0):
    """ripple carry over known bits (carry None = unknown)"""
    if x.full() and y.full() and carry is not None:
        return num((x.v + y.v + carry) & ((1 << w) - 1))
    k = v = 0
    c = carry
    for i in range(w):
        b = 1 << i
        p = (x.v >> i & 1) if x.k & b else None
        q = (y.v >> i & 1) if y.k & b else None
        n = [t for t in (p, q, c)]
        if None not in n:
            s = sum(n)
            k |= b
            v |= b if s & 1 else 0
            c = s >> 1
        else:
            one = sum(1 for t in n if t == 1)
            zero = sum(1 for t in n if t == 0)
            c = 1 if one >= 2 else 0 if zero >= 2 else None
    return I(k | (M64 & ~((1 << w) - 1)), v)


def inv(x, w):
    m = (1 << w) - 1
    return I(x.k, ~x.v & m)


class State:
    """heap of one abstract index; base objects 'FB', 'ROWS', 'LISTS', blocks"""

    def __init__(self, heap, const, rel, ringbases):
        self.heap, self.const, self.rel, self.ringbases = heap, const, rel, ringbases
        self.env = {}
        self.bad = []
        self.read = False

    def copy(self):
        s = State(dict(self.heap), self.const, self.rel, self.ringbases)
        s.env = dict(self.env)
        s.bad = list(self.bad)
        s.read = self.read
        return s


def ev(s, t, memo):
    r = memo.get(t, memo)
    if r is not memo:
        return r
    r = ev_(s, t, memo)
    memo[t] = r
    return r


def ev_(s, t, memo):
    o = t.op
    if t in s.env:
        return s.env[t]
    if o == 'c':
        return num(t.a[0])
    if o == 'ptr':
        b, off, vs = t.a
        x = ev(s, b, memo)
        if isinstance(x, I) and x.full():
            x = P(None, x.v)
        if not isinstance(x, P):
            return None
        z = x.o + off
        for q, k in vs:
            y = ev(s, q, memo)
            if isinstance(y, P) and k == -1 and y.b == x.b:
                x = P(None, x.o)
                z -= y.o
                continue
            if not isinstance(y, I) or not y.full():
                return None
            z += sgn(y.v, 64) * k
        return P(x.b, z) if x.b is not None else num(z & M64)
    if o == 'load':
        # read before the loop: only what never changes is known
        a = ev(s, t.a[0], memo)
        if isinstance(a, P):
            return s.const.get((a.b, a.o, t.a[1]))
        return None
    if o == 'cast':
        x = ev(s, t.a[1], memo)
        to, fr = t.a[2], t.a[3] if len(t.a) > 3 else 64
        if isinstance(x, I):
            x = trunc(x, fr) if t.a[0] != 'trunc' else trunc(x, to)
            if t.a[0] == 'sext':
                if not x.full():
                    return None
                return num(sgn(x.v, fr) & ((1 << to) - 1))
            return x
        if isinstance(x, (Tok, P)) and t.a[0] in ('zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr') and to >= 32:
            return x
        return None
    if o in ('atom', 'not', 'and', 'or', 'true', 'false'):
        b = truth(s, t, memo)
        return None if b is None else num(int(b))
    if o == 'sel':
        c = truth(s, t.a[0], memo)
        return None if c is None else ev(s, t.a[1] if c else t.a[2], memo)
    if o == 'bin':
        k, w = t.a[0], t.a[3]
        x, y = ev(s, t.a[1], memo), ev(s, t.a[2], memo)
        if isinstance(x, Tok) and isinstance(y, I) and y.full() and k == 'and' and x.n[0] == 'word' and y.v & 0xffffffff == 0x7fffffff:
            return Tok('size', x.n[1])
        if isinstance(x, P) and isinstance(y, I) and y.full() and k in ('add', 'sub'):
            return P(x.b, x.o + (sgn(y.v, 64) if k == 'add' else -sgn(y.v, 64)))
        if isinstance(x, P) and isinstance(y, P) and x.b == y.b and k == 'sub':
            return num((x.o - y.o) & ((1 << w) - 1))
        if not isinstance(x, I) or not isinstance(y, I):
            return None
        m = (1 << w) - 1
        x, y = trunc(x, w), trunc(y, w)
        if k == 'and':
            kz = (x.k & ~x.v) | (y.k & ~y.v)
            src = x.src if y.full() else y.src if x.full() else x.src if x.src == y.src else None
            if src is None and not (x.full() or y.full()):
                return I(kz | (x.k & y.k), x.v & y.v)
            return I(kz | (x.k & y.k), x.v & y.v, src)
        if k == 'or':
            ko = (x.k & x.v) | (y.k & y.v)
            src = x.src if y.full() else y.src if x.full() else None
            return I(ko | (x.k & y.k), x.v | y.v, src)
        if k == 'xor':
            src = x.src if y.full() and y.v & ~x.k == 0 else y.src if x.full() and x.v & ~y.k == 0 else None
            return I(x.k & y.k, x.v ^ y.v, src)
        if k in ('shl', 'lshr', 'ashr'):
            if not y.full() or y.v >= w:
                return None
            n = y.v
            if n == 0:
                return x
            if k == 'shl':
                return I(((x.k << n) | ((1 << n) - 1)) | (M64 & ~m), (x.v << n) & m)
            if k == 'ashr' and not (x.k >> (w - 1) & 1 and not x.v >> (w - 1) & 1):
                return num((sgn(x.v, w) >> n) & m) if x.full() else None
            return I(((x.k & m) >> n) | (m & ~(m >> n)) | (M64 & ~m), (x.v & m) >> n)
        if k == 'add':
            return add(x, y, w)
        if k == 'sub':
            return add(x, inv(y, w), w, 1)
        if x.full() and y.full():
            if k == 'mul':
                return num(x.v * y.v & m)
            if k == 'udiv' and y.v:
                return num(x.v // y.v)
            if k == 'urem' and y.v:
                return num(x.v % y.v)
        return None
    if o == 'intr':
        n = t.a[0]
        w = int(n.split('.i')[-1]) if n.split('.i')[-1].isdigit() else 64
        x = ev(s, t.a[1], memo)
        if not isinstance(x, I):
            return None
        m = (1 << w) - 1
        if 'ctlz' in n or 'cttz' in n:
            for i in (range(w - 1, -1, -1) if 'ctlz' in n else range(w)):
                if not x.k >> i & 1:
                    return None
                if x.v >> i & 1:
                    return num(w - 1 - i if 'ctlz' in n else i)
            return num(w)
        if 'ctpop' in n:
            return num(bin(x.v & m).count('1')) if x.full() else None
        if ('umax' in n or 'umin' in n):
            y = ev(s, t.a[2], memo)
            if isinstance(y, I) and x.full() and y.full():
                return num((max if 'umax' in n else min)(x.v, y.v))
        if 'expect' in n:
            return x
        if 'fsh' in n and t.a[1] is t.a[2]:
            y = ev(s, t.a[3], memo)
            if isinstance(y, I) and y.full():
                k = y.v % w
                if 'fshr' in n:
                    k = (w - k) % w
                rot = lambda z: ((z << k) | ((z & m) >> (w - k))) & m
                return I(rot(x.k & m) | (M64 & ~m), rot(x.v & m))
        return None
    return None


def truth(s, t, memo):
    o = t.op
    if o == 'not':
        b = truth(s, t.a[0], memo)
        return None if b is None else not b
    if o == 'true':
        return True
    if o == 'false':
        return False
    if o in ('and', 'or'):
        v = [truth(s, a, memo) for a in t.a]
        if o == 'and':
            return False if False in v else None if None in v else True
        return True if True in v else None if None in v else False
    if o != 'atom':
        x = ev(s, t, memo)
        return bool(x.v & 1) if isinstance(x, I) and x.k & 1 else None
    p, w = t.a[0], t.a[3]
    x = ev(s, t.a[1], memo)
    if p == 'bool':
        if isinstance(x, I):
            return True if x.v else False if x.full() else None
        return None
    y = ev(s, t.a[2], memo)
    if x is None or y is None:
        return None
    if isinstance(x, I) and isinstance(y, I):
        m = (1 << w) - 1
        x, y = trunc(x, w), trunc(y, w)
        if p == 'eq':
            if x.k & y.k & (x.v ^ y.v):
                return False
            if x.full() and y.full() or x.src is not None and x.key() == y.key():
                return True
            return None
        if p == 'slt':
            z = 1 << (w - 1)
            fx, fy = x.k & z, y.k & z
            if not fx or not fy:
                return None
            x = I(x.k, x.v ^ z)
            y = I(y.k, y.v ^ z)
        a, b = lohi(x, w)
        c, d = lohi(y, w)
        return True if b < c else False if a >= d else None
    if isinstance(x, P) and isinstance(y, P):
        if p == 'eq':
            return (x.b, x.o) == (y.b, y.o)
        if x.b == y.b:
            return x.o < y.o
        return None
    if p == 'eq' and (isinstance(x, P) and isinstance(y, I) and y.full() and y.v == 0 or isinstance(y, P) and isinstance(x, I) and x.full() and x.v == 0):
        return False
    # sizes of blocks against the requested size
    def small(z):
        if isinstance(z, Tok) and z.n[0] in ('size', 'word'):
            return s.rel.get(z.n[1])
        return None
    if p in ('ult', 'slt'):
        if y is REQ or isinstance(y, Tok) and y.n == ('req',):
            return small(x)                       # block < request
        if x is REQ:
            r = small(y)
            return False if r is True else None   # request < block is false when block < request
    if p == 'eq':
        r = small(x) if y is REQ else small(y) if x is REQ else None
        return False if r is True else None
    return None


class Node:
    __slots__ = ('items', 'kids', 'leaf')

    def __init__(self):
        self.kids = {}          # key -> (item, Node)
        self.leaf = None


def trie(paths, start):
    """start(p) -> index of the first event to consider, or None"""
    root = Node()
    for p in paths:
        b = start(p)
        if b is None:
            continue
        fl = p.flist
        k = p.events[b - 1].fpos if b else 0
        cur = root

        def go(item):
            nonlocal cur
            if item not in cur.kids:
                cur.kids[item] = Node()
            cur = cur.kids[item]
        for e in p.events[b:]:
            while k < e.fpos:
                go(('F', fl[k][0], fl[k][1]))
                k += 1
            if e.kind == 'load':
                go(('L', e.addr, e.val, e.size))
            elif e.kind == 'store':
                go(('S', e.addr, e.val, e.size))
            elif e.kind == 'loop':
                go(('H', e.x[0], tuple(sorted(e.x[1].items(), key=lambda q: q[0]))))
                break
            else:
                raise AnalysisError('%s in an operation on the free block index' % (e.name or e.kind))
        else:
            while k < len(fl):
                go(('F', fl[k][0], fl[k][1]))
                k += 1
            x = tuple(sorted(p.x[1].items(), key=lambda q: q[0])) if p.outcome == 'backedge' else None
            go(('X', p.outcome, p.ret, x))
        cur.leaf = p
    return root


def run(root, st, ignore, access):
    """all abstract executions: yields (state, last item, path, memo)"""
    out = []

    def go(node, s, memo):
        while True:
            kids = list(node.kids.items())
            if not kids:
                return
            live = []
            for it, nx in kids:
                if it[0] == 'F':
                    b = truth(s, it[1], memo)
                    if b is not None and b != it[2]:
                        continue
                live.append((it, nx))
            if len(live) > 1:
                for it, nx in live:
                    s2 = s.copy()
                    m2 = dict(memo)
                    if not step(it, nx, s2, m2):
                        go(nx, s2, m2)
                return
            if not live:
                return
            it, nx = live[0]
            if step(it, nx, s, memo):
                return
            node = nx

    def step(it, nx, s, memo):
        k = it[0]
        if k == 'F':
            return False
        if k in ('X', 'H'):
            out.append((s, it, nx.leaf, memo))
            return True
        a = ev(s, it[1], memo)
        if k == 'L':
            if ignore(it[1]):
                return False
            if it[2].op == 'load':
                v = access(s, a, it[3], None, it)
                s.env[it[2]] = v
                memo[it[2]] = v
            return False
        if ignore(it[1]):
            return False
        access(s, a, it[3], ev(s, it[2], memo), it)
        return False
    go(root, st, {})
    return out
