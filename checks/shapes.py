"""Shape domain for circular doubly linked (intrusive) lists.

A path summary is applied, event by event, to every neighbourhood shape of the list (all ring
lengths up to the number of links a summary can follow, every position of the item in it): the
abstract heap maps link cells (node, offset) to nodes.  Branch facts that talk about links select
the shapes a summary applies to; everything else is unknown and never decides anything."""
from engine import *

UNK = ('?',)


class Shape:
    """heap: {(node, off): (node, off)}; objs: term -> (node, off) for the roots the summary starts from"""

    def __init__(self, heap, objs):
        self.heap = dict(heap)
        self.objs = objs
        self.val = {}
        self.bad = []

    def ev(self, t):
        r = self.val.get(t)
        if r is not None:
            return r
        r = self.objs(t)
        if r is not None:
            return r
        if t.op == 'ptr':
            b, o, vs = t.a
            if vs:
                r = self.objs(ptr(b, 0, vs))
                if r is not None:
                    return (r[0], r[1] + o)
                return UNK
            x = self.ev(b)
            return UNK if x is UNK else (x[0], x[1] + o)
        return UNK

    def load(self, e):
        if e.val.op not in ('load',):
            return
        a = self.ev(e.addr)
        if a is not UNK and a in self.heap:
            self.val[e.val] = self.heap[a]

    def store(self, e, links):
        a = self.ev(e.addr)
        if a is UNK:
            if e.size == 8:
                v = self.ev(e.val)
                if v is not UNK:
                    self.bad.append((e, 'link stored to an address outside the list'))
            return
        if a[1] not in links(a[0]):
            return
        v = self.ev(e.val)
        self.heap[a] = v if v is not UNK else ('unknown', show(e.val)[:80])

    def fact(self, atom, val):
        """False when the fact contradicts the shape"""
        if atom.op == 'atom' and atom.a[0] == 'eq':
            x, y = self.ev(atom.a[1]), self.ev(atom.a[2])
            if x is not UNK and y is not UNK:
                return (x == y) == val
        return True

    def apply(self, path, links, upto=None):
        """-> True if the shape is consistent with the path's facts"""
        k = 0
        fl = path.flist
        for e in path.events:
            if upto is not None and e.n >= upto:
                break
            while k < e.fpos:
                if not self.fact(*fl[k]):
                    return False
                k += 1
            if e.kind == 'load':
                self.load(e)
            elif e.kind == 'store':
                self.store(e, links)
        while k < len(fl) and upto is None:
            if not self.fact(*fl[k]):
                return False
            k += 1
        return True


def ring(sent, soff, nodes, noff, nxt, prv):
    """heap of a ring: sentinel object `sent` with its node at soff, member nodes with links at noff"""
    seq = [(sent, soff)] + [(n, noff) for n in nodes]
    h = {}
    for i, (n, o) in enumerate(seq):
        m = seq[(i + 1) % len(seq)]
        h[(n, o + nxt)] = m
        h[(m[0], m[1] + prv)] = (n, o)
    return h


def walk(heap, sent, soff, noff, nxt, prv, limit=20):
    """-> (list of nodes or None, problem)"""
    out = []
    cur = (sent, soff)
    for _ in range(limit):
        x = heap.get((cur[0], cur[1] + nxt))
        if x is None:
            return None, 'a next link leads nowhere'
        if x[0] == 'unknown':
            return None, 'a next link is set to %s' % x[1]
        if heap.get((x[0], x[1] + prv)) != cur:
            return None, 'next and prev links of neighbours disagree'
        if x == (sent, soff):
            return out, None
        if x[1] != noff:
            return None, 'a next link does not point to a list node'
        if x[0] in out:
            return None, 'a node is linked twice'
        out.append(x[0])
        cur = x
    return None, 'the list is not circular any more'
