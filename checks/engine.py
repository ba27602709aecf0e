"""Path-sensitive effect analysis over optimiser-normalised LLVM IR (produced by tool/irview).

For one function the engine walks its control-flow graph with a forward dataflow state:
  * SSA values are value-numbered into interned terms (no numbers are ever computed for inputs),
  * tracked memory cells (locals, object fields) map to terms,
  * branch-correlation facts record which comparison atoms were taken which way,
  * every call that was *not* inlined and every store to shared memory is an event.
Loops are cut at their header: loop-carried values and everything the body may write are
forgotten, so one traversal of the body stands for an arbitrary iteration.
The result is the finite set of acyclic effect summaries (Path objects) which the rules inspect.
There is no solver and nothing is executed: infeasible paths are only pruned when the very same
value-numbered atom was already decided (or compared with a different constant).
"""
import json, sys


class AnalysisError(Exception):
    """The analysis cannot give an answer (vanished anchor, unexpected shape)."""


# ----------------------------------------------------------------------------- terms
class T:
    __slots__ = ('op', 'a', 'h', '_s')
    pool = {}

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op,) + tuple(id(x) if isinstance(x, T) else x for x in a)
    t = T.pool.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t._s = None
        T.pool[key] = t
    return t


def C(v, bits=64):
    return mk('c', v & ((1 << bits) - 1) if bits else v, bits)


TRUE, FALSE = C(1, 1), C(0, 1)
NULL = mk('c', 0, 64)
UNDEF = mk('undef')


def isc(t, v=None):
    return t.op == 'c' and (v is None or t.a[0] == v)


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if t._s is None:
        if d > 12:
            return '…'
        if t.op == 'c':
            s = str(t.a[0])
        elif t.op == 'ptr':
            b, o, vs = t.a
            s = show(b, d + 1) + ('+%d' % o if o else '') + ''.join('+%s*%d' % (show(x, d + 1), k) for x, k in vs)
        elif t.op == 'glob':
            s = '@' + t.a[0]
        else:
            s = t.op + '(' + ','.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a) + ')'
        t._s = s
    return t._s


def ptr(base, off=0, vs=()):
    if base.op == 'ptr':
        b2, o2, v2 = base.a
        off += o2
        d = {}
        for x, k in tuple(v2) + tuple(vs):
            d[x] = d.get(x, 0) + k
        vs = tuple((x, k) for x, k in d.items() if k)
        base = b2
    nvs = []
    for x, k in vs:
        if x.op == 'c':
            v = x.a[0]
            if v >> 63:
                v -= 1 << 64
            off += v * k
        elif x.op == 'bin' and x.a[0] == 'add' and x.a[2].op == 'c' and x.a[3] == 64:
            off += sgn(x.a[2].a[0], 64) * k
            nvs.append((x.a[1], k))
        else:
            nvs.append((x, k))
    off = sgn(off & ((1 << 64) - 1), 64)
    if len(nvs) > 1:
        d = {}
        for x, k in nvs:
            d[x] = d.get(x, 0) + k
        nvs = [(x, k) for x, k in d.items() if k]
    if off == 0 and not nvs:
        return base
    nvs.sort(key=lambda p: (show(p[0]), p[1]))
    key = ('ptr', id(base), off, tuple((id(x), k) for x, k in nvs))
    t = T.pool.get(key)
    if t is None:
        t = T()
        t.op = 'ptr'
        t.a = (base, off, tuple(nvs))
        t._s = None
        T.pool[key] = t
    return t


def split_ptr(t):
    """-> (base, off, vars)"""
    if t.op == 'ptr':
        return t.a
    return (t, 0, ())


def sgn(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


COMM = {'add', 'mul', 'and', 'or', 'xor'}


def binop(op, a, b, bits):
    if not isinstance(bits, int):
        bits = 64
    m = (1 << bits) - 1
    if a.op == 'c' and b.op == 'c':
        x, y = a.a[0], b.a[0]
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
                 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y if y < bits else 0,
                 'lshr': lambda: x >> y if y < bits else 0, 'udiv': lambda: x // y, 'urem': lambda: x % y}[op]()
            return C(r & m, bits)
        except (KeyError, ZeroDivisionError):
            pass
    if op in COMM and a.op == 'c':
        a, b = b, a
    if b.op == 'c':
        y = b.a[0]
        if y == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if op == 'and' and y == m:
            return a
        if op == 'and' and y == 0:
            return C(0, bits)
        if op == 'mul' and y == 1:
            return a
        if op == 'urem' and y and not y & (y - 1):
            return binop('and', a, C(y - 1, bits), bits)
        if op == 'xor' and bits == 1 and y == 1:
            return neg(a)
        if op == 'sub':
            return binop('add', a, C(-y, bits), bits)
        if op == 'or' and a.op == 'bin' and a.a[0] == 'shl' and a.a[2].op == 'c' and y < 1 << a.a[2].a[0]:
            return binop('add', a, b, bits)
        if op == 'add' and a.op == 'bin' and a.a[0] == 'add' and a.a[2].op == 'c':
            return binop('add', a.a[1], C(a.a[2].a[0] + y, bits), bits)
    if op == 'sub' and a is b:
        return C(0, bits)
    if op == 'sub' and (a.op == 'ptr' or b.op == 'ptr') and bits == 64:
        (p, o, v), (q, r, w) = split_ptr(a), split_ptr(b)
        if p is q and v == w:
            return C(o - r, 64)
    if op in COMM and b.op != 'c' and show(a) > show(b):
        a, b = b, a
    return mk('bin', op, a, b, bits)


def neg(c):
    if c.op == 'c':
        return C(1 - c.a[0], 1)
    if c.op == 'not':
        return c.a[0]
    return mk('not', c)


def cmp(pred, a, b, bits):
    """canonical comparison: only eq / ult / slt atoms, plus not()"""
    if pred in ('ugt', 'sgt'):
        return cmp(pred[0] + 'lt', b, a, bits)
    if pred in ('ule', 'sle'):
        return neg(cmp(pred[0] + 'lt', b, a, bits))
    if pred in ('uge', 'sge'):
        return neg(cmp(pred[0] + 'lt', a, b, bits))
    if pred == 'ne':
        return neg(cmp('eq', a, b, bits))
    if pred not in ('eq', 'ult', 'slt'):
        return mk('fcmp', pred, a, b)
    if a.op == 'c' and b.op == 'c':
        x, y = a.a[0], b.a[0]
        if pred == 'eq':
            return C(int(x == y), 1)
        if pred == 'ult':
            return C(int(x < y), 1)
        return C(int(sgn(x, bits or 64) < sgn(y, bits or 64)), 1)
    if a is b:
        return C(int(pred == 'eq'), 1)
    if pred == 'eq' and (a.op == 'ptr' or b.op == 'ptr'):
        (p, o, v), (q, r, w) = split_ptr(a), split_ptr(b)
        if p is q and v == w and o != r:
            return FALSE
    if pred == 'eq':
        if a.op == 'c':
            a, b = b, a
        elif b.op != 'c' and show(a) > show(b):
            a, b = b, a
        if b.op == 'c':
            # strip zero extensions / booleans
            while a.op == 'cast' and a.a[0] == 'zext':
                if b.a[0] >> a.a[3]:
                    return FALSE
                b = C(b.a[0], a.a[3])
                a = a.a[1]
            if a.op in ('atom', 'not', 'fcmp') :
                return a if b.a[0] == 1 else neg(a)
            if a.op == 'bool':
                a = a.a[0]
            if a.op == 'bin' and a.a[0] == 'add' and a.a[2].op == 'c':
                return cmp('eq', a.a[1], C(b.a[0] - a.a[2].a[0], a.a[3]), a.a[3])
            if b.a[0] == 0 and a.op == 'bin' and a.a[0] in ('sub', 'xor'):
                return cmp('eq', a.a[1], a.a[2], a.a[3])
            # pointers into objects / fresh allocations are never null
            if b.a[0] == 0 and (a.op in ('alloca', 'glob', 'fn')):
                return FALSE
    if pred == 'ult':
        if b.op == 'c' and b.a[0] == 0:
            return FALSE
        if b.op == 'c' and b.a[0] == 1:
            return cmp('eq', a, C(0, b.a[1]), bits)
        if isc(a, 0):
            return neg(cmp('eq', b, C(0, a.a[1]), bits))
        if b.op == 'c' and bits and b.a[0] == (1 << bits) - 1:
            return neg(cmp('eq', a, b, bits))
        if a.op == 'c' and bits and a.a[0] == (1 << bits) - 1:
            return FALSE
        if a.op == 'c' and bits and a.a[0] == (1 << bits) - 2:
            return cmp('eq', b, C((1 << bits) - 1, bits), bits)
    return mk('atom', pred, a, b, bits)


def cast(op, a, bits, obits):
    if op in ('bitcast', 'freeze', 'inttoptr', 'ptrtoint', 'addrspacecast'):
        return a
    if a.op == 'c':
        v = a.a[0]
        if op == 'sext':
            v = sgn(v, obits)
        return C(v, bits)
    if op == 'trunc' and a.op == 'cast' and a.a[0] in ('zext', 'sext'):
        ib = a.a[3]
        if ib == bits:
            return a.a[1]
        if ib > bits:
            return cast('trunc', a.a[1], bits, ib)
        return cast(a.a[0], a.a[1], bits, ib)
    if op == 'trunc' and bits == 1:
        # loads of bool: trunc i8 -> i1
        return mk('atom', 'bool', a, None, 1)
    if op == 'zext' and a.op == 'atom' and a.a[0] == 'bool' and obits == 1:
        return mk('cast', 'zext', a, bits, 1)
    if op == 'zext' and a.op == 'cast' and a.a[0] == 'zext':
        return mk('cast', 'zext', a.a[1], bits, a.a[3])
    return mk('cast', op, a, bits, obits)


def subterms(t, seen=None):
    """all subterms of a term"""
    if seen is None:
        seen = set()
    if not isinstance(t, T) or id(t) in seen:
        return
    seen.add(id(t))
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from subterms(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield from subterms(y, seen)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield from subterms(z, seen)


def mentions(t, x):
    return any(s is x for s in subterms(t))


# ----------------------------------------------------------------------------- program
class Loc:
    def __init__(self, j):
        self.j = j

    def __str__(self):
        if not self.j:
            return '?'
        return '%s:%d (%s)' % (short(self.j['f']), self.j['l'], self.j['s'])

    @property
    def file(self):
        return short(self.j['f']) if self.j else '?'

    def scopes(self):
        if not self.j:
            return []
        return [self.j['s']] + [x['s'] for x in self.j.get('at', [])]

    def repo(self):
        """innermost frame inside cachelot sources"""
        if not self.j:
            return '?'
        for x in [self.j] + self.j.get('at', []):
            f = short(x['f'])
            if f.startswith('src/'):
                return '%s:%d (%s)' % (f, x['l'], x['s'])
        return str(self)


def short(f):
    for p in ('/repo/',):
        if f.startswith(p):
            return f[len(p):]
    i = f.find('/src/')
    if i >= 0 and '/usr/' not in f:
        return f[i + 1:]
    return f


class Fn:
    def __init__(self, j, prog):
        self.j = j
        self.prog = prog
        self.name = j['name']
        self.full = j['full']
        self.args = j['args']
        self.blocks = {b['id']: b for b in j['blocks']}
        self.where = '%s:%s' % (short(j.get('file', '?')), j.get('line', '?'))

    def calls(self):
        for b in self.blocks.values():
            for i in b['i']:
                if i['op'] in ('call', 'invoke'):
                    yield i

    def ninstr(self):
        return sum(len(b['i']) for b in self.blocks.values())


class Program:
    def __init__(self, path):
        j = json.load(open(path))
        self.fns = [Fn(f, self) for f in j['fns']]
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f.name, []).append(f)
        self.layout = j['layout']
        self.globals = j['globals']
        self.enums = j['enums']

    def fn(self, name):
        l = self.byname.get(name, [])
        if len(l) != 1:
            raise AnalysisError('anchor function %s: %d definitions' % (name, len(l)))
        return l[0]

    def field(self, struct, member):
        """byte offset of a member"""
        try:
            return self.layout[struct]['m'][member][0] // 8
        except KeyError:
            raise AnalysisError('anchor field %s::%s not found' % (struct, member))

    def sizeof(self, struct):
        try:
            return self.layout[struct]['size']
        except KeyError:
            raise AnalysisError('anchor struct %s not found' % struct)

    def fields(self, struct):
        try:
            return {k: v[0] // 8 for k, v in self.layout[struct]['m'].items()}
        except KeyError:
            raise AnalysisError('anchor struct %s not found' % struct)

    def enum(self, name):
        for k, v in self.enums.items():
            if k == name or k.endswith('::' + name):
                return v
        raise AnalysisError('anchor enum %s not found' % name)

    def gstring(self, t):
        """constant string a pointer term points to, or None"""
        b, o, vs = split_ptr(t)
        if b.op != 'glob' or vs:
            return None
        g = self.globals.get(b.a[0])
        if not g or not g.get('const') or 'init' not in g or g['init'].get('k') != 'str':
            return None
        return g['init']['v'][o:]


# ----------------------------------------------------------------------------- events / paths
class Ev:
    __slots__ = ('kind', 'name', 'args', 'snap', 'res', 'loc', 'n', 'fpos', 'threw', 'full', 'addr', 'val', 'size', 'tb', 'x', 'fv', 'fp', 'av', 'pa')

    def __init__(self, kind, **k):
        self.kind = kind
        self.name = k.get('name', '')
        self.args = k.get('args', ())
        self.snap = k.get('snap', {})
        self.res = k.get('res')
        self.loc = k.get('loc')
        self.n = k.get('n', 0)
        self.fpos = k.get('fpos', 0)
        self.threw = k.get('threw', False)
        self.full = k.get('full', '')
        self.addr = k.get('addr')
        self.val = k.get('val')
        self.size = k.get('size')
        self.tb = k.get('tb')
        self.x = k.get('x')
        self.fv = k.get('fv')
        self.fp = k.get('fp')
        self.av = k.get('av', {})
        self.pa = k.get('pa', ())

    def __repr__(self):
        if self.kind == 'call':
            return '#%d %s(%s)%s' % (self.n, self.name or ('*' + show(self.fv)), ', '.join(show(a) for a in self.args), ' !throws' if self.threw else '')
        if self.kind == 'load':
            return '#%d read [%s]' % (self.n, show(self.addr))
        if self.kind == 'store':
            return '#%d [%s] = %s' % (self.n, show(self.addr), show(self.val))
        return '#%d %s %s' % (self.n, self.kind, self.x)


class Path:
    def __init__(self, fn, st, outcome, ret=None, loc=None, x=None):
        self.fn = fn
        self.events = st.events
        self.flist = st.flist      # ordered (atom, bool)
        self.facts = st.facts
        self.outcome = outcome     # ret | unwind | terminate | noreturn | backedge
        self.ret = ret
        self.loc = loc
        self.mem = st.mem
        self.st = st
        self.x = x

    def calls(self, *names):
        return [e for e in self.events if e.kind == 'call' and e.name in names]

    def stores(self):
        return [e for e in self.events if e.kind == 'store']

    def fact(self, atom, upto=None):
        """True/False/None"""
        pol = True
        if atom.op == 'not':
            atom, pol = atom.a[0], False
        if atom.op == 'c':
            return bool(atom.a[0]) == pol
        if upto is None:
            v = self.facts.get(atom)
        else:
            v = None
            for a, b in self.flist[:upto]:
                if a is atom:
                    v = b
        return None if v is None else (v == pol)

    def truth(self, t):
        """truth of an i1/i8 boolean term under the path's facts: True / False / None"""
        if t is None:
            return None
        x = Explorer.__new__(Explorer)
        if t in self.facts:
            return self.facts[t]
        if t.op in ('atom', 'not', 'fcmp') or (t.op == 'bin' and t.a[3] == 1) or (t.op == 'c' and t.a[1] == 1):
            return x.decide(self.st, t)
        if t.op == 'cast' and t.a[0] == 'zext' and t.a[3] == 1:
            return x.decide(self.st, t.a[1])
        if t.op == 'c':
            return bool(t.a[0] & 1)
        b = mk('atom', 'bool', t, None, 1)
        r = x.decide(self.st, b)
        if r is None:
            r = x.decide(self.st, neg(cmp('eq', t, C(0, 8), 8)))
        return r

    def describe(self, maxev=60):
        out = []
        fl = list(self.flist)
        k = 0
        for e in self.events[:maxev]:
            while k < e.fpos and k < len(fl):
                out.append('    assume %s == %s' % (show(fl[k][0])[:160], fl[k][1]))
                k += 1
            out.append('    %s   @ %s' % (repr(e)[:240], e.loc.repo() if e.loc else '?'))
        while k < len(fl):
            out.append('    assume %s == %s' % (show(fl[k][0])[:160], fl[k][1]))
            k += 1
        out.append('    -> %s %s' % (self.outcome, show(self.ret) if self.ret is not None else ''))
        return '\n'.join(out)


class State:
    __slots__ = ('env', 'mem', 'lcache', 'ver', 'aver', 'escaped', 'facts', 'flist', 'events', 'loops', 'prev', 'keq', 'nev', 'exc', 'extra', 'excl', 'rng')

    def __init__(self):
        self.env = {}
        self.mem = {}      # addr term -> (size, value, tb)
        self.lcache = {}   # (addr,size) -> (term, tb)
        self.ver = 0
        self.aver = {}     # alloca term -> ('ev', n, argidx) | ('init',)
        self.escaped = frozenset()
        self.facts = {}
        self.flist = ()
        self.events = ()
        self.loops = ()
        self.prev = None
        self.keq = {}      # term -> const value
        self.nev = 0
        self.exc = None
        self.extra = None
        self.excl = {}     # term -> frozenset of excluded constants
        self.rng = {}      # term -> (lo, hi) unsigned, from comparisons with constants

    def copy(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.lcache = dict(self.lcache)
        s.ver = self.ver
        s.aver = dict(self.aver)
        s.escaped = self.escaped
        s.facts = dict(self.facts)
        s.flist = self.flist
        s.events = self.events
        s.loops = self.loops
        s.prev = self.prev
        s.keq = dict(self.keq)
        s.nev = self.nev
        s.exc = self.exc
        s.extra = dict(self.extra) if self.extra is not None else None
        s.excl = dict(self.excl)
        s.rng = dict(self.rng)
        return s


DEFAULT_PURE = {
    # library calls that neither touch cachelot state nor matter as events
    'std::chrono::_V2::steady_clock::now',
}

NOEVENT_PREFIX = ('llvm.dbg', 'llvm.lifetime')


class Model:
    """per-view knowledge about the kept primitives"""

    def __init__(self, pure=(), silent=(), nothrow=(), handlers=None, clobbers=None, keyfn=None, nofork=None, load_events=False, init=None, unwind_calls=False):
        self.pure = dict(pure) if isinstance(pure, dict) else {p: () for p in pure}
        self.silent = set(silent)
        self.nothrow = set(nothrow)
        self.handlers = handlers or {}
        # names whose calls do not clobber tracked heap memory
        self.noclobber = set(clobbers or ())
        self.nofork = nofork
        self.load_events = load_events
        self.unwind_calls = unwind_calls
        self.init = init   # init(explorer, state): initial facts


class Explorer:
    def __init__(self, prog, fn, model=None, max_paths=60000, store_events=True, fork_select=True, max_steps=4000000):
        self.prog = prog
        self.fn = fn
        self.model = model or Model()
        self.paths = []
        self.max_paths = max_paths
        self.max_steps = max_steps
        self.steps = 0
        self.store_events = store_events
        self.fork_select = fork_select
        self.loopinfo = {}
        self.bodyset = {}
        for b in fn.blocks.values():
            if b.get('loop'):
                self.bodyset[b['id']] = set(b['body'])
        self.opq = 0

    # ---- operand evaluation
    def const(self, o):
        k = o['k']
        if k == 'int':
            return C(int(o['v']), o['bits'])
        if k == 'null':
            return NULL
        if k == 'undef':
            return UNDEF
        if k == 'fn':
            return mk('fn', o['n'], o['m'])
        if k == 'glob':
            return mk('glob', o['n'])
        if k == 'cgep':
            return ptr(self.const(o['b']), o['o'])
        if k == 'zero':
            return mk('zero')
        if k == 'agg':
            return mk('agg', *[self.const(x) for x in o['a']])
        if k == 'cexpr':
            if o['op'] in ('bitcast', 'inttoptr', 'ptrtoint'):
                return self.const(o['a'][0])
            return mk('cexpr', o['op'], *[self.const(x) for x in o['a']])
        return mk('unk', k)

    def op(self, st, o):
        k = o['k']
        if k in ('v', 'arg'):
            t = st.env.get(o['id'])
            if t is None:
                t = mk('unkv', o['id'])
            return t
        return self.const(o)

    # ---- facts
    def decide(self, st, c):
        """True/False/None for an i1 term"""
        pol = True
        if c.op == 'not':
            c, pol = c.a[0], False
        if c.op == 'c':
            return bool(c.a[0] & 1) == pol
        v = st.facts.get(c)
        if v is None and c.op == 'atom':
            p, a, b = c.a[0], c.a[1], c.a[2]
            if p in ('eq', 'ult', 'slt'):
                ka = a.a[0] if a.op == 'c' else st.keq.get(a)
                kb = b.a[0] if b.op == 'c' else st.keq.get(b)
                if ka is not None and kb is not None:
                    bits = c.a[3] or 64
                    v = ka == kb if p == 'eq' else (ka < kb if p == 'ult' else sgn(ka, bits) < sgn(kb, bits))
                elif p == 'eq' and kb is not None and b.op == 'c' and kb in st.excl.get(a, ()):
                    v = False
                elif p == 'eq' and b.op == 'c':
                    lo, hi = st.rng.get(a, (0, None))
                    if kb < lo or (hi is not None and kb > hi):
                        v = False
                elif p == 'ult' and b.op == 'c':
                    lo, hi = st.rng.get(a, (0, None))
                    if hi is not None and hi < kb:
                        v = True
                    elif lo >= kb:
                        v = False
                elif p == 'ult' and a.op == 'c':
                    lo, hi = st.rng.get(b, (0, None))
                    if lo > ka:
                        v = True
                    elif hi is not None and hi <= ka:
                        v = False
                if v is None and p in ('ult', 'slt'):
                    r = st.facts.get(mk('atom', p, b, a, c.a[3]))
                    if r:
                        v = False
                    e = st.facts.get(cmp('eq', a, b, c.a[3])) if cmp('eq', a, b, c.a[3]).op == 'atom' else None
                    if e:
                        v = False
                if v is None and p == 'eq':
                    for q in ('ult', 'slt'):
                        if st.facts.get(mk('atom', q, a, b, c.a[3])) or st.facts.get(mk('atom', q, b, a, c.a[3])):
                            v = False
        if v is None and c.op == 'bin' and c.a[3] == 1:
            x, y = self.decide(st, c.a[1]), self.decide(st, c.a[2])
            if c.a[0] == 'and':
                v = False if (x is False or y is False) else (True if x and y else None)
            elif c.a[0] == 'or':
                v = True if (x or y) else (False if (x is False and y is False) else None)
            elif c.a[0] == 'xor' and x is not None and y is not None:
                v = x != y
        return None if v is None else (v == pol)

    def assume(self, st, c, want):
        """-> list of states in which c == want; st is consumed"""
        d = self.decide(st, c)
        if d is not None:
            return [st] if d == want else []
        if c.op == 'not':
            return self.assume(st, c.a[0], not want)
        if c.op == 'bin' and c.a[3] == 1 and c.a[0] in ('and', 'or'):
            x, y = c.a[1], c.a[2]
            if (c.a[0] == 'and') == want:
                out = []
                for s in self.assume(st, x, want):
                    out += self.assume(s, y, want)
                return out
            out = []
            s1 = st.copy()
            out += self.assume(s1, x, want)
            for s in self.assume(st, x, not want):
                out += self.assume(s, y, want)
            return out
        st.facts[c] = want
        st.flist = st.flist + ((c, want),)
        if c.op == 'atom' and c.a[0] == 'eq' and c.a[2].op == 'c':
            if want:
                st.keq[c.a[1]] = c.a[2].a[0]
            else:
                st.excl[c.a[1]] = st.excl.get(c.a[1], frozenset()) | {c.a[2].a[0]}
        elif c.op == 'atom' and c.a[0] == 'ult':
            a, b = c.a[1], c.a[2]
            if b.op == 'c':
                lo, hi = st.rng.get(a, (0, None))
                k = b.a[0]
                if want:
                    hi = k - 1 if hi is None else min(hi, k - 1)
                else:
                    lo = max(lo, k)
                if hi is not None and lo > hi:
                    return []
                st.rng[a] = (lo, hi)
            elif a.op == 'c':
                lo, hi = st.rng.get(b, (0, None))
                k = a.a[0]
                if want:
                    lo = max(lo, k + 1)
                else:
                    hi = k if hi is None else min(hi, k)
                if hi is not None and lo > hi:
                    return []
                st.rng[b] = (lo, hi)
        return [st]

    # ---- memory
    def label(self, tb):
        if not tb:
            return None
        return (tb['raw'], tb['o'], tb['a'])

    def is_local(self, base):
        return base.op == 'alloca'

    def may_alias(self, b1, o1, s1, v1, l1, b2, o2, s2, v2, l2):
        if b1 is b2:
            if not v1 and not v2 or v1 == v2:
                return not (o1 + s1 <= o2 or o2 + s2 <= o1)
            # same array base, different index: labels may still separate
            if l1 and l2 and l1[0] == l2[0] and l1[1] != l2[1]:
                return False
            return True
        r1, r2 = b1.op, b2.op
        if 'alloca' in (r1, r2):
            return False
        if r1 == 'glob' and r2 == 'glob':
            return False
        if (r1 == 'glob') != (r2 == 'glob'):
            # statistics globals / constants versus objects reached through pointers
            return False
        if l1 and l2:
            if l1[2] != l2[2] and 'omnipotent char' not in (l1[2], l2[2]):
                return False
            if l1[0] != l2[0]:
                return False
            return l1[1] == l2[1]
        return True

    def load(self, st, addr, size, bits, tb, vol=False):
        base, off, vs = split_ptr(addr)
        lab = self.label(tb)
        c = st.mem.get(addr)
        if c is not None:
            if c[0] == size:
                return c[1]
            if c[0] > size and c[1].op == 'c':
                return C(c[1].a[0], size * 8)
            if c[0] > size and isinstance(bits, int):
                return cast('trunc', c[1], bits, c[0] * 8)
        if base.op == 'alloca' and not vs:
            # part of a wider constant / zero store
            for a2, (sz2, v2, _) in st.mem.items():
                b2, o2, vs2 = split_ptr(a2)
                if b2 is base and not vs2 and o2 <= off and off + size <= o2 + sz2:
                    if v2.op == 'c':
                        return C(v2.a[0] >> ((off - o2) * 8), size * 8)
                    if v2.op == 'zero':
                        return C(0, size * 8)
                    return mk('part', v2, off - o2, size)
            av = st.aver.get(base)
            if av and av[0] == 'ev':
                return mk('cres', av[1], av[2], off, size)
            if av and av[0] == 'opq':
                return mk('opq', av[1], base, off, size)
            if base in st.escaped:
                return mk('load', addr, size, st.ver)
            return mk('uninit', addr)
        if base.op == 'glob' and not vs:
            g = self.prog.globals.get(base.a[0])
            if g and g.get('const') and 'init' in g:
                v = self.ginit(g['init'], off, size)
                if v is not None:
                    return v
        k = (addr, size)
        c = st.lcache.get(k)
        if c is not None:
            return c[0]
        t = mk('load', addr, size, st.ver)
        st.lcache[k] = (t, lab)
        return t

    def ginit(self, init, off, size):
        if init['k'] == 'str':
            b = init['v'].encode('latin1', 'replace')
            if off + size <= len(b):
                return C(int.from_bytes(b[off:off + size], 'little'), size * 8)
        if init['k'] == 'int' and off == 0 and init['bits'] <= size * 8:
            return C(int(init['v']), size * 8)
        if init['k'] == 'agg' and size == 8:
            # arrays / structs made of pointers and 8-byte words
            w = self.words(init)
            if w and off % 8 == 0 and 0 <= off // 8 < len(w):
                return self.const(w[off // 8])
        return None

    def words(self, init):
        out = []
        for x in init['a']:
            if x['k'] == 'agg':
                y = self.words(x)
                if y is None:
                    return None
                out += y
            elif x['k'] in ('cgep', 'glob', 'null', 'fn') or (x['k'] == 'int' and x['bits'] == 64):
                out.append(x)
            else:
                return None
        return out

    def kill(self, st, addr, size, lab):
        base, off, vs = split_ptr(addr)
        loc = base.op == 'alloca'
        for a2 in list(st.mem):
            if a2 is addr and st.mem[a2][0] <= size:
                del st.mem[a2]
                continue
            b2, o2, v2 = split_ptr(a2)
            if loc != (b2.op == 'alloca') or (loc and b2 is not base):
                continue
            sz2, _, l2 = st.mem[a2]
            if self.may_alias(base, off, size, vs, lab, b2, o2, sz2, v2, l2):
                del st.mem[a2]
        if not loc:
            for (a2, s2) in list(st.lcache):
                b2, o2, v2 = split_ptr(a2)
                if self.may_alias(base, off, size, vs, lab, b2, o2, s2, v2, st.lcache[(a2, s2)][1]):
                    del st.lcache[(a2, s2)]
                    st.ver += 0

    def store(self, st, addr, size, v, tb):
        lab = self.label(tb)
        base = split_ptr(addr)[0]
        self.kill(st, addr, size, lab)
        if base.op != 'alloca':
            st.ver += 1
        st.mem[addr] = (size, v, lab)

    def clobber_heap(self, st):
        st.ver += 1
        for a2 in list(st.mem):
            b2 = split_ptr(a2)[0]
            if b2.op != 'alloca' or b2 in st.escaped:
                del st.mem[a2]
        st.lcache = {}
        for a in st.escaped:
            if a in st.aver and st.aver[a][0] == 'ev':
                pass

    def forget_alloca(self, st, al, av):
        for a2 in list(st.mem):
            if split_ptr(a2)[0] is al:
                del st.mem[a2]
        st.aver[al] = av

    def snapshot(self, st, al):
        out = {}
        for a2, (sz, v, _) in st.mem.items():
            b, o, vs = split_ptr(a2)
            if b is al and not vs:
                out[o] = v
        return out

    # ---- main walk
    def run(self):
        st = State()
        for i, a in enumerate(self.fn.args):
            st.env[a['id']] = mk('arg', i)
        st.extra = {}
        if self.model.init:
            self.model.init(self, st)
        work = [(0, st)]
        while work:
            b, st = work.pop()
            self.steps += 1
            if self.steps > self.max_steps or len(self.paths) > self.max_paths:
                raise AnalysisError('path budget exceeded in %s' % self.fn.name)
            work.extend(self.block(b, st))
        return self.paths

    def finish(self, st, outcome, ret=None, loc=None, x=None):
        self.paths.append(Path(self.fn, st, outcome, ret, loc, x))

    def enter(self, st, frm, to):
        """edge frm->to; returns list of (block,state)"""
        # leaving loops?
        if st.loops:
            st.loops = tuple(h for h in st.loops if to in self.bodyset[h])
        blk = self.fn.blocks[to]
        phis = [i for i in blk['i'] if i['op'] == 'phi']
        if blk.get('loop'):
            if to in st.loops:
                vals = {}
                for p in phis:
                    for fb, v in p['in']:
                        if fb == frm:
                            vals[p['id']] = self.op(st, v)
                self.finish(st, 'backedge', None, None, (to, vals))
                return []
            init = {}
            for p in phis:
                for fb, v in p['in']:
                    if fb == frm:
                        init[p['id']] = self.op(st, v)
            st.events = st.events + (Ev('loop', n=st.nev, fpos=len(st.flist), x=(to, init)),)
            st.nev += 1
            st.loops = st.loops + (to,)
            self.havoc_loop(st, to)
            for p in phis:
                # a phi whose back-edge values equal itself or the init value stays the init value
                backs = [v for fb, v in p['in'] if fb in self.bodyset[to]]
                if all(v['k'] == 'v' and v['id'] == p['id'] for v in backs):
                    st.env[p['id']] = init[p['id']]
                else:
                    st.env[p['id']] = mk('lv', to, p['id'])
            st.prev = frm
            return [(to, st)]
        newv = {}
        for p in phis:
            for fb, v in p['in']:
                if fb == frm:
                    newv[p['id']] = self.op(st, v)
        st.env.update(newv)
        st.prev = frm
        return [(to, st)]

    def havoc_loop(self, st, h):
        info = self.loopinfo.get(h)
        if info is None:
            heap = False
            labels = []
            allocas = set()
            defs = {}
            for b in self.fn.blocks.values():
                for i in b['i']:
                    defs[i['id']] = i

            def root(o, d=0):
                if o['k'] != 'v':
                    return o
                i = defs.get(o['id'])
                if i is None or d > 30:
                    return o
                if i['op'] == 'getelementptr':
                    return root(i['b'], d + 1)
                if i['op'] in ('bitcast', 'freeze'):
                    return root(i['a'][0], d + 1)
                return o
            for bid in self.bodyset[h]:
                for i in self.fn.blocks[bid]['i']:
                    if i['op'] == 'store':
                        r = root(i['b'])
                        if r['k'] == 'v' and defs[r['id']]['op'] == 'alloca':
                            allocas.add(r['id'])
                        else:
                            labels.append((r, self.label(i.get('tb')), i['sz']))
                    elif i['op'] in ('call', 'invoke'):
                        nm = i.get('fn', '')
                        if nm.startswith('llvm.mem'):
                            r = root(i['a'][0])
                            if r['k'] == 'v' and defs[r['id']]['op'] == 'alloca':
                                allocas.add(r['id'])
                            else:
                                labels.append((r, None, 1))
                            continue
                        if nm.startswith('llvm.'):
                            continue
                        if i['me'] in ('none', 'read', 'argread') or nm in self.model.pure or nm in self.model.noclobber:
                            pass
                        else:
                            heap = True
                        for a, pa in zip(i['a'], i['pa']):
                            r = root(a)
                            if r['k'] == 'v' and r['id'] in defs and defs[r['id']]['op'] == 'alloca' and 'r' not in pa:
                                allocas.add(r['id'])
            info = self.loopinfo[h] = (heap, labels, allocas)
        heap, labels, allocas = info
        for aid in allocas:
            al = mk('alloca', self.fn.name, aid)
            self.opq += 0
            self.forget_alloca(st, al, ('opq', ('loop', h)))
        if heap:
            self.clobber_heap(st)
        elif labels:
            st.ver += 1
            for r, lab, sz in labels:
                if r['k'] == 'glob':
                    base = mk('glob', r['n'])
                elif r['k'] == 'v' and r['id'] in st.env:
                    base = split_ptr(st.env[r['id']])[0]
                else:
                    base = None
                for a2 in list(st.mem):
                    b2 = split_ptr(a2)[0]
                    if b2.op == 'alloca':
                        continue
                    l2 = st.mem[a2][2]
                    if self._lalias(base, lab, b2, l2):
                        del st.mem[a2]
                for k in list(st.lcache):
                    b2 = split_ptr(k[0])[0]
                    if self._lalias(base, lab, b2, st.lcache[k][1]):
                        del st.lcache[k]

    @staticmethod
    def _lalias(base, lab, b2, l2):
        if base is not None and (base.op == 'glob') != (b2.op == 'glob'):
            return False
        if base is not None and base.op == 'glob' and b2.op == 'glob' and base is not b2:
            return False
        if lab and l2:
            if lab[2] != l2[2] and 'omnipotent char' not in (lab[2], l2[2]):
                return False
            if lab[0] != l2[0]:
                return False
            return lab[1] == l2[1]
        return True

    def block(self, bid, st):
        fn = self.fn
        ins = fn.blocks[bid]['i']
        return self.steps_from(bid, 0, st)

    def steps_from(self, bid, k, st):
        fn = self.fn
        ins = fn.blocks[bid]['i']
        n = len(ins)
        while k < n:
            i = ins[k]
            k += 1
            op = i['op']
            if op == 'phi':
                continue
            if op == 'br':
                if 'c' not in i:
                    return self.enter(st, bid, i['s'][0])
                c = self.op(st, i['c'])
                out = []
                d = self.decide(st, c)
                if d is None:
                    s2 = st.copy()
                    for s in self.assume(st, c, True):
                        out += self.enter(s, bid, i['s'][0])
                    for s in self.assume(s2, c, False):
                        out += self.enter(s, bid, i['s'][1])
                else:
                    out += self.enter(st, bid, i['s'][0 if d else 1])
                return out
            if op == 'switch':
                c = self.op(st, i['c'])
                out = []
                if c.op == 'c' or c in st.keq:
                    v = c.a[0] if c.op == 'c' else st.keq[c]
                    for cv, to in i['cs']:
                        if int(cv['v']) == v:
                            return self.enter(st, bid, to)
                    return self.enter(st, bid, i['d'])
                rest = [st.copy()]
                for cv, to in i['cs']:
                    bits = cv['bits']
                    atom = cmp('eq', c, C(int(cv['v']), bits), bits)
                    nrest = []
                    for s in rest:
                        s1 = s.copy()
                        for q in self.assume(s1, atom, True):
                            out += self.enter(q, bid, to)
                        nrest += self.assume(s, atom, False)
                    rest = nrest
                for s in rest:
                    out += self.enter(s, bid, i['d'])
                return out
            if op == 'ret':
                v = self.op(st, i['a'][0]) if i['a'] else None
                self.finish(st, 'ret', v, Loc(i.get('loc')))
                return []
            if op == 'resume':
                self.finish(st, 'unwind', None, Loc(i.get('loc')))
                return []
            if op == 'unreachable':
                self.finish(st, 'noreturn', None, Loc(i.get('loc')))
                return []
            if op in ('call', 'invoke'):
                r = self.call(st, i, bid)
                if op == 'call':
                    if r == 'stop':
                        return []
                    if r == 'event' and not i.get('nt') and not i.get('nr') and self.model.unwind_calls and i.get('fn') not in self.model.nothrow:
                        # the callee may throw and this frame has nothing to clean up
                        ex = st.copy()
                        self.mark_threw(ex, r)
                        self.finish(ex, 'unwind', None, Loc(i.get('loc')))
                    continue
                out = []
                if r != 'stop' and not i.get('nr'):
                    ok = st.copy()
                    out += self.enter(ok, bid, i['n'])
                if i.get('nt') or i.get('fn') in self.model.nothrow or self.model_nothrow(st, i):
                    return out
                ex = st
                self.mark_threw(ex, r)
                out += self.enter(ex, bid, i['u'])
                return out
            if op == 'select':
                c = self.op(st, i['a'][0])
                d = self.decide(st, c)
                if d is None:
                    if not self.fork_select or i['bits'] == 'a' or (self.model.nofork and self.model.nofork(c)):
                        st.env[i['id']] = mk('sel', c, self.op(st, i['a'][1]), self.op(st, i['a'][2]))
                        continue
                    s2 = st.copy()
                    out = []
                    for s in self.assume(st, c, True):
                        s.env[i['id']] = self.op(s, i['a'][1])
                        out.append(s)
                    for s in self.assume(s2, c, False):
                        s.env[i['id']] = self.op(s, i['a'][2])
                        out.append(s)
                    res = []
                    for s in out:
                        res += self.steps_from(bid, k, s)
                    return res
                st.env[i['id']] = self.op(st, i['a'][1 if d else 2])
                continue
            if op == 'getelementptr' and self.fork_select and i['vo']:
                # table lookup indexed by a truth value
                b = split_ptr(self.op(st, i['b']))[0]
                g = self.prog.globals.get(b.a[0]) if b.op == 'glob' else None
                c = self.op(st, i['vo'][0][0])
                if g and g.get('const') and len(i['vo']) == 1 and c.op == 'cast' and c.a[0] == 'zext' and c.a[3] == 1 and self.decide(st, c.a[1]) is None:
                    res = []
                    for v in (True, False):
                        for s in self.assume(st.copy(), c.a[1], v):
                            s.env[i['id']] = ptr(self.op(s, i['b']), i['o'] + (i['vo'][0][1] if v else 0))
                            res += self.steps_from(bid, k, s)
                    return res
            self.simple(st, i)
        raise AnalysisError('block without terminator')

    def mark_threw(self, ex, r):
        if ex.events and ex.events[-1].kind == 'call' and r == 'event':
            e = ex.events[-1]
            e2 = Ev('call')
            for s in Ev.__slots__:
                setattr(e2, s, getattr(e, s))
            e2.threw = True
            ex.events = ex.events[:-1] + (e2,)
            ex.exc = e2

    def model_nothrow(self, st, i):
        return False

    def simple(self, st, i):
        op = i['op']
        if op == 'alloca':
            al = mk('alloca', self.fn.name, i['id'])
            st.env[i['id']] = al
            st.aver.setdefault(al, ('init',))
        elif op == 'getelementptr':
            vs = tuple((self.op(st, v), k) for v, k in i['vo'])
            st.env[i['id']] = ptr(self.op(st, i['b']), i['o'], vs)
        elif op == 'load':
            a = self.op(st, i['b'])
            self.nonnull(st, a)
            st.env[i['id']] = self.load(st, a, i['sz'], i.get('bits'), i.get('tb'))
            if self.model.load_events and split_ptr(a)[0].op != 'alloca':
                st.events = st.events + (Ev('load', addr=a, val=st.env[i['id']], size=i['sz'], tb=i.get('tb'), loc=Loc(i.get('loc')), n=st.nev, fpos=len(st.flist)),)
                st.nev += 1
        elif op == 'store':
            a = self.op(st, i['b'])
            self.nonnull(st, a)
            v = self.op(st, i['v'])
            # storing the address of a local makes it escape
            vb = split_ptr(v)[0]
            if vb.op == 'alloca' and split_ptr(a)[0].op != 'alloca':
                st.escaped = st.escaped | {vb}
            if split_ptr(a)[0].op != 'alloca' and self.store_events:
                e = Ev('store', addr=a, val=v, size=i['sz'], tb=i.get('tb'), loc=Loc(i.get('loc')), n=st.nev, fpos=len(st.flist))
                st.nev += 1
                st.events = st.events + (e,)
            self.store(st, a, i['sz'], v, i.get('tb'))
        elif op == 'icmp':
            st.env[i['id']] = cmp(i['p'], self.op(st, i['a'][0]), self.op(st, i['a'][1]), i.get('obits', 64))
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            st.env[i['id']] = binop(op, self.op(st, i['a'][0]), self.op(st, i['a'][1]), i['bits'])
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            st.env[i['id']] = cast(op, self.op(st, i['a'][0]), i.get('bits') if isinstance(i.get('bits'), int) else 64, i.get('obits', 64))
        elif op == 'extractvalue':
            t = self.op(st, i['a'][0])
            for ix in i['ix']:
                if t.op == 'agg':
                    t = t.a[ix]
                elif t.op == 'insv' or t.op == 'sel':
                    t = self.ext(t, ix)
                else:
                    t = mk('ext', t, ix)
            st.env[i['id']] = t
        elif op == 'insertvalue':
            st.env[i['id']] = mk('insv', self.op(st, i['a'][0]), self.op(st, i['a'][1]), tuple(i['ix']))
        elif op == 'landingpad':
            st.env[i['id']] = mk('exc', st.nev)
            st.events = st.events + (Ev('landingpad', n=st.nev, fpos=len(st.flist), x=[self.const(c) for c in i['cl']], loc=Loc(i.get('loc'))),)
            st.nev += 1
        else:
            st.env[i['id']] = mk('op', op, i['id'], *[self.op(st, a) for a in i.get('a', [])])

    def nonnull(self, st, addr):
        # a dereferenced pointer is not null from here on
        b, o, vs = split_ptr(addr)
        if b.op not in ('alloca', 'glob', 'c') and not vs:
            st.excl[b] = st.excl.get(b, frozenset()) | {0}
        if addr.op == 'ptr':
            st.excl[addr] = st.excl.get(addr, frozenset()) | {0}

    def ext(self, t, ix):
        if t.op == 'insv':
            if t.a[2] == (ix,):
                return t.a[1]
            return self.ext(t.a[0], ix)
        if t.op == 'agg':
            return t.a[ix]
        if t.op == 'sel':
            return mk('sel', t.a[0], self.ext(t.a[1], ix), self.ext(t.a[2], ix))
        return mk('ext', t, ix)

    def call(self, st, i, bid):
        name = i.get('fn', '')
        args = [self.op(st, a) for a in i['a']]
        if name.startswith('llvm.'):
            return self.intrinsic(st, i, name, args)
        fpos = len(st.flist)
        loc = Loc(i.get('loc'))
        snaps = {}
        avs = {}
        for k, a in enumerate(args):
            b = split_ptr(a)[0]
            if b.op == 'alloca':
                snaps[k] = self.snapshot(st, b)
                avs[k] = st.aver.get(b)
        if name in ('__clang_call_terminate', 'std::terminate'):
            st.events = st.events + (Ev('call', name=name, args=args, loc=loc, n=st.nev, fpos=fpos),)
            self.finish(st, 'terminate', None, loc)
            return 'stop'
        pure = self.model.pure.get(name) if name else None
        if pure is not None:
            # value depends only on arguments (with local snapshots) and the listed state epochs
            ep = tuple((st.extra or {}).get(x, 0) for x in pure)
            key = []
            for k, a in enumerate(args):
                key.append(a)
                if k in snaps:
                    key.append(mk('snap', *[mk('cell', o, v) for o, v in sorted(snaps[k].items())]))
            res = mk('call', name, ep, *key)
        else:
            res = mk('callres', st.nev, name)
        e = Ev('call', name=name, full=i.get('full', ''), args=tuple(args), snap=snaps, res=res, loc=loc, n=st.nev, fpos=fpos, av=avs, pa=i.get('pa', ()),
               fv=self.op(st, i['fv']) if 'fv' in i else None)
        st.nev += 1
        if name not in self.model.silent:
            st.events = st.events + (e,)
        st.env[i['id']] = res
        h = self.model.handlers.get(name)
        if h:
            r = h(self, st, i, e)
            if r:
                return r
        # memory effects
        if pure is None:
            me = i['me']
            for k, (a, pa) in enumerate(zip(args, i['pa'])):
                b = split_ptr(a)[0]
                if b.op != 'alloca':
                    continue
                if 'r' not in pa and me not in ('none', 'read', 'argread'):
                    self.forget_alloca(st, b, ('ev', e.n, k))
                if 'n' not in pa and 'S' not in pa and 'B' not in pa:
                    st.escaped = st.escaped | {b}
            if me not in ('none', 'read', 'argread') and name not in self.model.noclobber:
                self.clobber_heap(st)
                for b in st.escaped:
                    if b.op == 'alloca':
                        self.forget_alloca(st, b, ('ev', e.n, -1))
        if i.get('nr') and i['op'] == 'call':
            if name == '__cxa_throw' or name == '__cxa_rethrow' or not i.get('nt'):
                self.finish(st, 'unwind', None, loc)
            else:
                self.finish(st, 'noreturn', None, loc)
            return 'stop'
        return 'event'

    def intrinsic(self, st, i, name, args):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s, n = args[0], args[1], args[2]
            db, sb = split_ptr(d)[0], split_ptr(s)[0]
            cells = []
            if n.op == 'c' and sb.op == 'alloca' and not split_ptr(s)[2]:
                so = split_ptr(s)[1]
                for a2, (sz, v, l) in list(st.mem.items()):
                    b2, o2, v2 = split_ptr(a2)
                    if b2 is sb and not v2 and o2 >= so and o2 + sz <= so + n.a[0]:
                        cells.append((o2 - so, sz, v, l))
            if db.op == 'alloca':
                sv = st.aver.get(sb) if sb.op == 'alloca' else None
                if n.op == 'c':
                    self.kill(st, d, n.a[0], None)
                else:
                    self.forget_alloca(st, db, ('opq', ('memcpy', st.nev)))
                if not cells and sv and sv[0] == 'ev' and split_ptr(s)[1] == split_ptr(d)[1]:
                    st.aver[db] = sv
                elif not cells:
                    st.aver[db] = ('opq', ('copy', s, st.ver))
                for o, sz, v, l in cells:
                    st.mem[ptr(d, o)] = (sz, v, l)
            else:
                sz = n.a[0] if n.op == 'c' else 1 << 30
                for a2 in list(st.mem):
                    b2, o2, v2 = split_ptr(a2)
                    if b2 is db:
                        del st.mem[a2]
                for (a2, s2) in list(st.lcache):
                    if split_ptr(a2)[0] is db:
                        del st.lcache[(a2, s2)]
                st.ver += 1
                for o, sz, v, l in cells:
                    st.mem[ptr(d, o)] = (sz, v, l)
            if db.op != 'alloca' or True:
                e = Ev('call', name='mem' + ('cpy' if 'memcpy' in name else 'move'), args=(d, s, n), loc=Loc(i.get('loc')), n=st.nev, fpos=len(st.flist))
                st.nev += 1
                st.events = st.events + (e,)
            return 'intr'
        if name.startswith('llvm.memset'):
            d = args[0]
            db = split_ptr(d)[0]
            n = args[2]
            if n.op == 'c':
                self.kill(st, d, n.a[0], None)
                if isc(args[1], 0):
                    st.mem[d] = (n.a[0], mk('zero') if n.a[0] > 8 else C(0, n.a[0] * 8), None)
            elif db.op == 'alloca':
                self.forget_alloca(st, db, ('opq', ('memset', st.nev)))
            e = Ev('call', name='memset', args=tuple(args[:3]), loc=Loc(i.get('loc')), n=st.nev, fpos=len(st.flist))
            st.nev += 1
            st.events = st.events + (e,)
            return 'intr'
        if name == 'llvm.trap':
            self.finish(st, 'noreturn', None, Loc(i.get('loc')))
            return 'stop'
        if name == 'llvm.eh.typeid.for':
            st.env[i['id']] = mk('typeid', args[0])
            return 'intr'
        st.env[i['id']] = mk('intr', name, *args)
        return 'intr'


def explore(prog, fn, model=None, **k):
    if isinstance(fn, str):
        fn = prog.fn(fn)
    return Explorer(prog, fn, model, **k).run()


# ----------------------------------------------------------------------------- linear normal forms
def width(t):
    """bit width of a term when known"""
    if t.op == 'c':
        return t.a[1] or 64
    if t.op == 'bin':
        return t.a[3]
    if t.op == 'cast':
        return t.a[2]
    if t.op in ('load', 'cres'):
        return (t.a[1] if t.op == 'load' else t.a[3]) * 8
    return None


def lin(t, bits=64, sub=None):
    """t as  constant + sum(coeff * atom)  modulo 2**bits; atoms are interned terms.
    sub: mapping term -> replacement term, applied to atoms"""
    m = (1 << bits) - 1
    acc = {}
    const = 0
    work = [(t, 1)]
    while work:
        x, k = work.pop()
        if sub:
            n = 0
            while x in sub and n < 8:
                x = sub[x]
                n += 1
        if x.op == 'c':
            const += k * x.a[0]
        elif x.op == 'ptr':
            b, o, vs = x.a
            const += k * o
            work.append((b, k))
            for v, c in vs:
                work.append((v, k * c))
        elif x.op == 'bin' and (x.a[3] or 64) >= bits and x.a[0] in ('add', 'sub'):
            work.append((x.a[1], k))
            work.append((x.a[2], k if x.a[0] == 'add' else -k))
        elif x.op == 'bin' and (x.a[3] or 64) >= bits and x.a[0] == 'mul' and x.a[2].op == 'c':
            work.append((x.a[1], k * x.a[2].a[0]))
        elif x.op == 'bin' and (x.a[3] or 64) >= bits and x.a[0] == 'shl' and x.a[2].op == 'c':
            work.append((x.a[1], k << x.a[2].a[0]))
        elif x.op == 'bin' and x.a[0] == 'xor' and isc(x.a[2]) and x.a[2].a[0] == (1 << (x.a[3] or 64)) - 1 and (x.a[3] or 64) >= bits:
            const -= k
            work.append((x.a[1], -k))
        elif x.op == 'cast' and x.a[0] == 'trunc' and x.a[2] >= bits:
            work.append((x.a[1], k))
        elif x.op == 'cast' and x.a[0] in ('zext', 'sext') and x.a[3] >= bits:
            work.append((x.a[1], k))
        elif x.op == 'cast' and x.a[0] == 'zext':
            y = x.a[1]
            n = 0
            while sub and y in sub and n < 8:
                y = sub[y]
                n += 1
            if y.op in ('bin', 'cast', 'c', 'ptr'):
                c2, a2 = lin(y, x.a[3], sub)
                if not a2:
                    const += k * c2
                elif c2 == 0 and len(a2) == 1 and list(a2.values())[0] == 1 and (width(list(a2)[0]) or 999) <= x.a[3]:
                    y = list(a2)[0]
                    acc[y] = acc.get(y, 0) + k
                else:
                    y = mk('linx', x.a[3], c2, *[z for p in sorted(a2.items(), key=lambda p: show(p[0])) for z in p])
                    acc[y] = acc.get(y, 0) + k
            else:
                acc[y] = acc.get(y, 0) + k
        elif x.op == 'bin' and x.a[0] == 'and' and isc(x.a[2]) and x.a[2].a[0] & m == m:
            work.append((x.a[1], k))
        else:
            acc[x] = acc.get(x, 0) + k
    acc = {x: k & m for x, k in acc.items() if k & m}
    return const & m, acc


def same(a, b, bits=64, sub=None):
    return lin(a, bits, sub) == lin(b, bits, sub)


def diff(a, b, bits=64, sub=None):
    """a - b when it is a constant (signed), else None"""
    ca, xa = lin(a, bits, sub)
    cb, xb = lin(b, bits, sub)
    if xa != xb:
        return None
    return sgn((ca - cb) & ((1 << bits) - 1), bits)


def add_overflow(p, a, b, bits):
    """does a+b overflow `bits` bits, by the facts of path p (any of the usual guard idioms)? True/False/None"""
    m = (1 << bits) - 1
    ones = C(m, bits)
    na, nb = binop('sub', ones, a, bits), binop('sub', ones, b, bits)
    s = binop('add', a, b, bits)
    for atom, val in p.flist:
        if atom.op == 'ext' and atom.a[1] == 1 and atom.a[0].op == 'intr' and 'uadd.with.overflow' in atom.a[0].a[0] and set(atom.a[0].a[1:3]) == {a, b}:
            return val
        if atom.op != 'atom' or atom.a[0] != 'ult':
            continue
        x, y = atom.a[1], atom.a[2]
        for u, nu, v, nv in ((a, na, b, nb), (b, nb, a, na)):
            if same(x, nu, bits) and same(y, v, bits):      # ~a < b   <=>  overflow
                return val
            if same(y, nu, bits) and same(x, v, bits) and val:      # b < ~a  =>  no overflow
                return False
            if same(x, s, bits) and same(y, u, bits):      # a+b < a  <=>  overflow
                return val
            if same(y, s, bits) and same(x, u, bits) and val:      # a < a+b  => no overflow
                return False
    return None


def sub_underflow(p, a, b, bits):
    """is a < b (a-b would wrap)? True/False/None"""
    for atom, val in p.flist:
        if atom.op == 'ext' and atom.a[1] == 1 and atom.a[0].op == 'intr' and 'usub.with.overflow' in atom.a[0].a[0] and atom.a[0].a[1] is a and atom.a[0].a[2] is b:
            return val
        if atom.op == 'atom' and atom.a[0] == 'ult':
            if same(atom.a[1], a, bits) and same(atom.a[2], b, bits):
                return val
            if same(atom.a[1], b, bits) and same(atom.a[2], a, bits) and val:
                return False
        if atom.op == 'atom' and atom.a[0] == 'eq' and val:
            if {id(atom.a[1]), id(atom.a[2])} == {id(a), id(b)}:
                return False
    return None


def subst(t, f, prog=None, memo=None):
    """rebuild a term with replacements f(t) -> term or None, folding constants"""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        S = lambda x: subst(x, f, prog, memo)
        o, a = t.op, t.a
        if o == 'bin':
            r = binop(a[0], S(a[1]), S(a[2]), a[3])
        elif o == 'cast':
            r = cast(a[0], S(a[1]), a[2], a[3])
        elif o == 'not':
            r = neg(S(a[0]))
        elif o == 'atom' and a[0] == 'bool':
            x = S(a[1])
            r = C(x.a[0] & 1, 1) if x.op == 'c' else mk('atom', 'bool', x, None, 1)
        elif o == 'atom' and a[0] in ('eq', 'ult', 'slt'):
            r = cmp(a[0], S(a[1]), S(a[2]), a[3])
        elif o == 'ptr':
            r = ptr(S(a[0]), a[1], tuple((S(x), k) for x, k in a[2]))
        elif o == 'sel':
            c, x, y = S(a[0]), S(a[1]), S(a[2])
            r = (x if c.a[0] else y) if c.op == 'c' else mk('sel', c, x, y)
        elif o == 'load' and prog is not None and split_ptr(t.a[0])[0].op == 'glob':
            p = S(a[0])
            r = mk('load', p, *a[1:])
            b, off, vs = split_ptr(p)
            g = prog.globals.get(b.a[0])
            if not vs and g and g.get('const') and 'init' in g:
                x = Explorer.__new__(Explorer)
                x.prog = prog
                v = x.ginit(g['init'], off, a[1])
                if v is not None:
                    r = v
        elif o == 'intr':
            xs = [S(x) for x in a[1:]]
            r = mk('intr', a[0], *xs)
            n = a[0].split('.')[1]
            if all(isinstance(x, T) and x.op == 'c' for x in xs) and a[0].rsplit('.i', 1)[-1].isdigit():
                w = int(a[0].rsplit('.i', 1)[-1])
                v = [x.a[0] for x in xs]
                m = (1 << w) - 1
                if n in ('fshl', 'fshr'):
                    k = v[2] % w
                    k = k if n == 'fshl' else w - k
                    r = C((((v[0] << w | v[1]) << k) >> w) & m, w)
                elif n in ('umax', 'umin'):
                    r = C((max if n == 'umax' else min)(v), w)
                elif n in ('smax', 'smin'):
                    r = C((max if n == 'smax' else min)([sgn(x, w) for x in v]), w)
        elif o in ('load', 'ext', 'op', 'bool') and any(isinstance(x, T) for x in a):
            r = mk(o, *[S(x) for x in a])
        else:
            r = t
    memo[t] = r
    return r
