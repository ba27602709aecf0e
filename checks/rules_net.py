"""S04, S07, S08, S09: I/O buffers, connections, datagrams."""
from rules_server import *

FREE = ('realloc', 'free', 'malloc')


# ----------------------------------------------------------------------------- S07
class Buf:
    def __init__(self, P):
        self.o = P.fields('cachelot::io_buffer')
        for n in ('m_capacity', 'm_data', 'm_max_size', 'm_read_pos', 'm_write_pos'):
            if n not in self.o:
                raise AnalysisError('io_buffer::%s not found' % n)
        self.names = {v: k for k, v in self.o.items()}

    def old(self, n):
        return mk('load', ptr(ARG, self.o[n]), 8, 0)

    def final(self, p):
        """field -> value at the end of the path (fields not stored keep their value)"""
        r = {}
        bad = []
        for e in p.events:
            if e.kind == 'store':
                b, o, vs = split_ptr(e.addr)
                if b is ARG and not vs and o in self.names:
                    r[self.names[o]] = (e.val, e)
                elif b is ARG:
                    bad.append(e)
        return r, bad


ARG = mk('arg', 0)


def eq64(a, b):
    return a is b or (lin(a) == lin(b))


def ge(p, n, t, d=0):
    """n >= t on this path (values far from wrap-around)"""
    if d > 6:
        return False
    df = lin(binop('sub', n, t, 64))
    if not df[1] and sgn(df[0] & ((1 << 64) - 1), 64) >= 0:
        return True
    if isc(t) and p.truth(cmp('ult', n, t, 64)) is False:
        return True
    for atom, val in p.flist:
        if atom.op != 'atom' or atom.a[3] != 64:
            continue
        k, x, y = atom.a[0], atom.a[1], atom.a[2]
        if k == 'ult' and not val:                                           # x >= y
            z = lin(binop('sub', x, y, 64))
            if z[1] == df[1] and sgn((df[0] - z[0]) & ((1 << 64) - 1), 64) >= 0:
                return True
        if k == 'ult' and val:                                               # y > x
            z = lin(binop('sub', y, x, 64))
            if z[1] == df[1] and sgn((df[0] - z[0]) & ((1 << 64) - 1), 64) >= -1:
                return True
    if n.op == 'intr' and n.a[0].startswith('llvm.umax'):
        return ge(p, n.a[1], t, d + 1) or ge(p, n.a[2], t, d + 1)
    if n.op == 'intr' and n.a[0].startswith('llvm.umin'):
        return ge(p, n.a[1], t, d + 1) and ge(p, n.a[2], t, d + 1)
    if t.op == 'intr' and t.a[0].startswith('llvm.umin'):
        return ge(p, n, t.a[1], d + 1) or ge(p, n, t.a[2], d + 1)
    if t.op == 'intr' and t.a[0].startswith('llvm.umax'):
        return ge(p, n, t.a[1], d + 1) and ge(p, n, t.a[2], d + 1)
    return False


def S07(ctx):
    P = view('drv/iobuf.cpp', ['drv_.*'], [r'cachelot::slice::search', 'std::search'])
    B = Buf(P)
    R1, R2, R3, R4 = 'positions', 'growth', 'compaction', 'writes-reserved'
    ctx.rule(R1, 'each position operation has exactly its effect: reads cover [read position, write position), confirming moves one position by the confirmed amount, savepoints '
                 'return and restore the position, nothing else of the buffer changes')
    ctx.rule(R2, 'reserving space returns only when capacity - write position is known to be at least the request; growing re-allocates with the old contents to a size not above the '
                 'maximum and stores pointer and capacity together after the allocation succeeded; a failed request changes nothing')
    ctx.rule(R3, 'compaction moves exactly the unread bytes to the front and resets the positions accordingly')
    ctx.rule(R4, 'every write into a buffer by the protocol code stays inside the space reserved for it and confirms exactly what was written')
    c, d, mx, r, w = [B.old(n) for n in ('m_capacity', 'm_data', 'm_max_size', 'm_read_pos', 'm_write_pos')]
    a1, a2 = mk('arg', 1), mk('arg', 2)
    at = lambda pos: ptr(d, 0, ((pos, 1),))
    nr = binop('sub', w, r, 64)
    sl = lambda p: slice_val(P, p.ret)
    add = lambda x, y: binop('add', x, y, 64)

    def norm(t):
        # read position <= write position <= capacity
        if t.op != 'intr' or len(t.a) < 3:
            return None
        for lo, hi in ((r, w), (w, c)):
            if 'usub.sat' in t.a[0] and t.a[1] is hi and t.a[2] is lo:
                return binop('sub', hi, lo, 64)
            if {t.a[1], t.a[2]} == {lo, hi} and ('umin' in t.a[0] or 'umax' in t.a[0]):
                return lo if 'umin' in t.a[0] else hi
        return None

    def eq64(x, y):
        return globals()['eq64'](subst(x, norm), subst(y, norm))
    SPEC = {'capacity': (c, {}), 'size': (w, {}), 'non_read': (nr, {}), 'begin_read': (at(r), {}), 'available': (binop('sub', c, w, 64), {}),
            'read_savepoint': (r, {}), 'write_savepoint': (w, {}), 'rollback_read': (None, {'m_read_pos': a1}), 'rollback_write': (None, {'m_write_pos': a1}),
            'confirm_write': (None, {'m_write_pos': add(w, a1)}), 'reset': (None, {'m_read_pos': C(0), 'm_write_pos': C(0)}),
            'confirm_read': ((at(r), at(add(r, a1))), {'m_read_pos': add(r, a1)}), 'read_all': ((at(r), at(w)), {'m_read_pos': w})}
    model = Model(nothrow=list(FREE) + NOTHROW, clobbers=list(FREE) + ['cachelot::slice::search'] + NOTHROW)

    def paths(n):
        f = P.fn('drv_' + n)
        ps = explore(P, f, model)
        ctx.covered(f, ps)
        if not ps:
            raise AnalysisError('no path in ' + n)
        return f, ps

    def unchanged(f, p, wh, exc=(), rule=R1):
        got, bad = B.final(p)
        ok = not bad and all(n in exc or eq64(v, B.old(n)) for n, (v, e) in got.items())
        ctx.ob(rule, f.name, ok, 'the buffer is changed: %s' % ', '.join(sorted(set(got) - set(exc))), wh, p)
        return got

    for n, (ret, upd) in SPEC.items():
        f, ps = paths(n)
        for p in ps:
            wh = p.loc.repo() if p.loc else f.where
            if not ctx.ob(R1, f.name, p.outcome == 'ret', 'the operation does not return', wh, p):
                continue
            got = unchanged(f, p, wh, upd)
            for k, v in upd.items():
                val = got[k][0] if k in got else B.old(k)
                # writing w to r is the same as leaving r when both are known to be equal
                same_ = eq64(val, v) or (p.truth(cmp('eq', r, w, 64)) and eq64(subst(val, lambda t: w if t is r else None), subst(v, lambda t: w if t is r else None)))
                ctx.ob(R1, f.name, same_, '%s becomes %s' % (k, show(val)), wh, p)
            if isinstance(ret, tuple):
                s = sl(p)
                ctx.ob(R1, f.name, eq64(s.b, ret[0]) and eq64(s.e, ret[1]), 'the returned range is not the confirmed data', wh, p)
            elif ret is not None:
                ctx.ob(R1, f.name, eq64(p.ret, ret), 'returns %s' % show(p.ret), wh, p)
            ctx.ob(R1, f.name, not [e for e in p.events if e.kind == 'call'], 'unexpected call', wh, p)
    # search
    f, ps = paths('try_read_until')
    for p in ps:
        wh = p.loc.repo() if p.loc else f.where
        if not ctx.ob(R1, f.name, p.outcome == 'ret', 'the operation does not return', wh, p):
            continue
        se = [e for e in p.events if e.kind == 'call' and e.name == 'cachelot::slice::search']
        if not ctx.ob(R1, f.name, len(se) == 1 or p.truth(cmp('eq', r, w, 64)), 'the unread data is not searched', wh, p):
            continue
        got = unchanged(f, p, wh, ('m_read_pos',))
        s = sl(p)
        nothing = isc(s.b) and isc(s.e) or eq64(s.b, s.e)
        if not se:
            ctx.ob(R1, f.name, nothing and not got, 'data is taken from an empty buffer', wh, p)
            continue
        e = se[0]
        src = Slice(cell(e, 0, 0, 8), cell(e, 0, 8, 8))
        ctx.ob(R1, f.name, eq64(src.b, at(r)) and eq64(src.e, at(w)), 'the searched range is not the unread data', wh, p)
        ctx.ob(R1, f.name, e.args[1] is a1 and e.args[2] is a2, 'searches for something else than the terminator', wh, p)
        fd = ext2(e.res)
        emp = p.truth(cmp('eq', fd.b, fd.e, 64))
        if emp is False:
            np = got['m_read_pos'][0] if 'm_read_pos' in got else r
            want = add(r, binop('sub', fd.e, at(r), 64))
            ctx.ob(R1, f.name, eq64(s.b, at(r)) and eq64(s.e, fd.e), 'the returned range does not start at the read position or does not end behind the terminator', wh, p)
            ctx.ob(R1, f.name, eq64(np, want), 'the read position is not moved behind the terminator', wh, p)
        else:
            ctx.ob(R1, f.name, emp is True and nothing and (not got or eq64(got['m_read_pos'][0], r)), 'data is consumed although the terminator was not found', wh, p)
    # growth
    for n in ('ensure', 'begin_write', 'begin_write_def', 'ctor'):
        f, ps = paths(n)
        ok_ = 0
        for p in ps:
            wh = p.loc.repo() if p.loc else f.where
            if n == 'ctor':
                # initial state written by the constructor itself
                st = {}
                bad = False
                for e in p.events:
                    if e.kind == 'store' and split_ptr(e.addr)[0] is ARG:
                        st.setdefault(B.names.get(split_ptr(e.addr)[1]), []).append(e)
                z = {k: v[0].val for k, v in st.items()}
                okz = all(isc(z.get(k, UNDEF), 0) for k in ('m_data', 'm_capacity', 'm_read_pos', 'm_write_pos')) and z.get('m_max_size') is a2
                if p.outcome == 'ret' and 'm_data' in z and not isc(z['m_data'], 0):
                    okz = all(isc(z.get(k, UNDEF), 0) for k in ('m_read_pos', 'm_write_pos')) and z.get('m_max_size') is a2
                ctx.ob(R2, f.name, okz, 'a new buffer does not start empty with the given maximum', wh, p)
                C0, D0, M0, W0, N = C(0), C(0), a2, C(0), a1
            else:
                C0, D0, M0, W0, N = c, d, mx, w, (a1 if n != 'begin_write_def' else None)
            got, bad = B.final(p)
            if p.outcome in ('unwind', 'terminate'):
                if n != 'ctor':
                    ctx.ob(R2, f.name, p.outcome == 'unwind' and not got and not bad, 'a failed request leaves the buffer changed', wh, p)
                    ctx.ob(R2, f.name, not [e for e in p.events if e.kind == 'call' and e.name == 'free'], 'a failed request releases the buffer', wh, p)
                continue
            if p.outcome != 'ret':
                ctx.ob(R2, f.name, False, 'the operation does not return', wh, p)
                continue
            ok_ += 1
            nc = got['m_capacity'][0] if 'm_capacity' in got else C0
            nd = got['m_data'][0] if 'm_data' in got else D0
            grown = not eq64(nd, D0)
            if N is None:
                # some positive amount is reserved
                N = C(1)
            if n == 'ctor' and p.truth(cmp('eq', a1, C(0), 64)):
                continue
            ctx.ob(R2, f.name, ge(p, nc, binop('add', W0, N, 64)) or ge(p, binop('sub', nc, W0, 64), N), 'space is granted that the buffer does not have', wh, p)
            if n != 'ctor':
                ctx.ob(R2, f.name, not bad and set(got) <= {'m_capacity', 'm_data'}, 'reserving space changes %s' % sorted(got), wh, p)
            if grown or 'm_capacity' in got and not eq64(nc, C0):
                al = [e for e in p.events if e.kind == 'call' and e.name in ('realloc', 'malloc') and e.res is nd]
                if ctx.ob(R2, f.name, len(al) == 1, 'capacity and memory are not changed together', wh, p):
                    e = al[0]
                    size = e.args[-1]
                    ctx.ob(R2, f.name, eq64(size, nc), 'recorded capacity %s differs from the allocated size' % show(nc)[:80], wh, p)
                    ctx.ob(R2, f.name, ge(p, M0, nc), 'the buffer can grow beyond its maximum', wh, p)
                    ctx.ob(R2, f.name, p.truth(cmp('eq', e.res, C(0), 64)) is False, 'a failed allocation is not noticed', wh, p)
                    if e.name == 'realloc':
                        ctx.ob(R2, f.name, eq64(e.args[0], D0), 'the old contents are not kept', wh, p)
                    elif n != 'ctor':
                        mc = [x for x in p.events if x.kind == 'call' and x.name in ('memcpy', 'memmove') and eq64(x.args[0], nd)]
                        fr = [x for x in p.events if x.kind == 'call' and x.name == 'free']
                        ok = len(mc) == 1 and eq64(mc[0].args[1], D0) and (eq64(mc[0].args[2], w) or eq64(mc[0].args[2], c))
                        ok = ok and len(fr) == 1 and eq64(fr[0].args[0], D0) and fr[0].n > mc[0].n
                        ctx.ob(R2, f.name, ok, 'the old contents are not kept', wh, p)
            if n.startswith('begin_write'):
                ctx.ob(R2, f.name, eq64(p.ret, ptr(nd, 0, ((w, 1),))), 'the returned position is not the write position of the current memory', wh, p)
        if not ok_:
            raise AnalysisError(n + ' never succeeds')
    f, ps = paths('dtor')
    for p in ps:
        fr = [x for x in p.events if x.kind == 'call' and x.name == 'free']
        ctx.ob(R2, f.name, len(fr) == 1 and eq64(fr[0].args[0], d) or (not fr and p.truth(cmp('eq', d, C(0), 64))), 'the memory is not released exactly once', f.where, p)
    # compaction
    f, ps = paths('compact')
    for p in ps:
        wh = p.loc.repo() if p.loc else f.where
        got = unchanged(f, p, wh, ('m_read_pos', 'm_write_pos'), R3)
        nr_ = got['m_read_pos'][0] if 'm_read_pos' in got else r
        nw = got['m_write_pos'][0] if 'm_write_pos' in got else w
        mv = [e for e in p.events if e.kind == 'call' and e.name in ('memmove', 'memcpy')]
        e0 = p.truth(cmp('eq', r, w, 64))
        r0 = p.truth(cmp('eq', r, C(0), 64))
        if e0:
            # where both positions are known to be 0 they need not be written
            z = [isc(x, 0) or eq64(x, nr) or r0 and (x is r or x is w) for x in (nr_, nw)]
            ctx.ob(R3, f.name, not mv and all(z), 'an empty buffer is not reset', wh, p)
        elif r0:
            ok = (isc(nr_, 0) or eq64(nr_, r)) and (eq64(nw, w) or eq64(nw, nr))
            ctx.ob(R3, f.name, ok, 'nothing was read but positions change', wh, p)
        else:
            ok = len(mv) == 1 and mv[0].name == 'memmove' and eq64(mv[0].args[0], d) and eq64(mv[0].args[1], at(r)) and eq64(mv[0].args[2], nr)
            ctx.ob(R3, f.name, ok, 'the unread bytes are not moved to the front', wh, p)
            ctx.ob(R3, f.name, isc(nr_, 0) and eq64(nw, nr), 'the positions do not describe the moved data', wh, p)
    # users
    av = asciiview()
    ctx.covered(av.root(), [a.p for a in av.paths()])
    for ap in av.paths():
        bws = [e for e in ap.p.events if e.kind == 'call' and e.name == IO + 'begin_write']
        if not bws:
            continue
        m = ap.prob[0] if ap.prob else None
        ctx.ob(R4, 'handle_received_data', not ap.prob, m[1] if m else '', ap.where(m[0]) if m else ap.where(), ap.p)
        ctx.ob(R4, 'handle_received_data', all(e.args[0] is SEND for e in bws), 'the receive buffer is written', ap.where(), ap.p)
    ctx.assume('requested amounts and capacities are below 2^62, so their sums do not wrap')
    ctx.assume('callers confirm at most what they reserved and roll back only to positions obtained from the same buffer (decided for the protocol code by rule writes-reserved, '
               'for the connection code by S08 and S09)')


# ----------------------------------------------------------------------------- connection layer
from escape import Escape, ABORT

STARTS = ('drv_start_read', 'drv_start_write', 'drv_start_write_some', 'drv_start_recvfrom', 'drv_start_sendto', 'drv_start_accept')
# position of the handler object, completion and disposal functions in the argument list
HPOS = {'drv_start_read': 3, 'drv_start_write': 3, 'drv_start_write_some': 3, 'drv_start_recvfrom': 4, 'drv_start_sendto': 4, 'drv_start_accept': 2}
NETKEEP = [r'cachelot::io_buffer::.*', r'std::enable_shared_from_this::.*', r'std::__(shared|weak)_count::.*', r'boost::system::.*', r'boost::asio::io_context::.*', r'boost::asio::error::.*',
           r'cachelot::memcached::handle_received_data', r'cachelot::memcached::StreamServer::new_conversation']
SC = 'std::__shared_count::'
NETNOTHROW = NOTHROW + list(STARTS) + ['drv_sock_close', 'drv_sock_is_open', 'drv_sock_shutdown', 'drv_sock_cancel', 'boost::asio::error::get_system_category', SC + '__shared_count',
                                       SC + '~__shared_count', SC + 'operator=', SC + '_M_swap', 'std::__weak_count::__weak_count', 'std::__weak_count::~__weak_count',
                                       'boost::system::error_code::operator_bool', 'boost::system::error_code::failed', 'boost::system::operator!=', 'boost::asio::io_context::stopped', 'boost::asio::io_context::post',
                                       'std::enable_shared_from_this::shared_from_this', 'std::enable_shared_from_this::weak_from_this']
RO = [IO + n for n in ('non_read', 'begin_read', 'available', 'capacity', 'size', 'read_savepoint', 'write_savepoint')]


class Step:
    """one path from a completion (or start) to the return to the event loop"""

    def __init__(self, nv, f, p, kind):
        self.nv, self.f, self.p, self.kind = nv, f, p, kind
        self.starts = [e for e in p.events if e.kind == 'call' and e.name in STARTS]
        self.handles = [e for e in p.events if e.kind == 'call' and not e.name and len(e.args) == 3]
        self.err = None
        self.cmps = []
        mk_ = {}
        for e in p.events:
            if e.kind != 'call':
                continue
            if e.name in ('boost::system::error_code::operator_bool', 'boost::system::error_code::failed'):
                t = p.truth(e.res)
                if t is not None:
                    self.err = t
            if e.name == 'boost::system::error_code::error_code' and len(e.args) >= 2 and isc(e.args[1]):
                mk_[e.args[0]] = e.args[1].a[0]
            if e.name in ('boost::system::operator==', 'boost::system::operator!='):
                code = [mk_[a] for a in e.args if a in mk_]
                t = p.truth(e.res)
                if code and t is not None:
                    self.cmps.append((code[0], t == e.name.endswith('==')))
        if self.err is None and any(c and t for c, t in self.cmps):
            self.err = True

    def where(self, e=None):
        for x in ([e] if e is not None else list(reversed(self.p.events))):
            if x.kind == 'call' and x.loc:
                r = x.loc.repo()
                if r.startswith('src/'):
                    return r
        return self.f.where

    def io(self, name, base, off, after=None, before=None):
        r = []
        for e in self.p.events:
            if e.kind == 'call' and e.name == IO + name and self.nv.at(e.args[0], base, off) and (after is None or e.n > after) and (before is None or e.n < before):
                r.append(e)
        return r


def canon(b):
    """pointers a handler captured (this, or the owning pointer to this) denote the same connection"""
    if b.op == 'load' and split_ptr(b.a[0])[0] is ARG:
        return mk('captured')
    return b


class NetView:
    def __init__(self):
        P = self.prog = view('drv/net.cpp', ['drv_.*', 'prb_.*', 'Done.*'], NETKEEP)
        self.model = Model(nothrow=NETNOTHROW, clobbers=IOPURE + NETNOTHROW + [''])
        self.off = {}
        for n in ('conv_recv', 'conv_send', 'conv_sock', 'udp_recv', 'udp_send', 'udp_remote'):
            ps = explore(P, P.fn('prb_' + n), Model())
            b, o, vs = split_ptr(ps[0].ret)
            if len(ps) != 1 or b is not ARG or vs:
                raise AnalysisError('layout probe ' + n)
            self.off[n] = o
        self.cache = {}
        self.drops = {}

    def at(self, t, base, off):
        b, o, vs = split_ptr(t)
        b2, o2, vs2 = split_ptr(base)
        return canon(b) is canon(b2) and not vs and not vs2 and o == o2 + off

    def paths(self, f):
        if f.j['m'] not in self.cache:
            self.cache[f.j['m']] = explore(self.prog, f, self.model)
        return self.cache[f.j['m']]

    def byfn(self, t):
        """function a code pointer denotes"""
        if t.op == 'fn':
            for f in self.prog.fns:
                if f.j['m'] == t.a[-1]:
                    return f
        return None

    def owned(self, drop):
        """offsets in a handler object whose disposal releases a reference count"""
        if drop.j['m'] not in self.drops:
            ps = explore(self.prog, drop, self.model)
            s = None
            for p in ps:
                o = set()
                for e in p.events:
                    if e.kind == 'call' and e.name == SC + '~__shared_count':
                        b, k, vs = split_ptr(e.args[0])
                        if b is ARG and not vs:
                            o.add(k)
                s = o if s is None else s & o
            self.drops[drop.j['m']] = s or set()
        return self.drops[drop.j['m']]

    def steps(self, roots):
        """completion closure: root functions and every handler they can install -> list of (fn, kind, initiators)"""
        todo = [(self.prog.fn(r), 'start') for r in roots]
        seen = {}
        while todo:
            f, kind = todo.pop(0)
            if f.j['m'] in seen:
                continue
            ss = [Step(self, f, p, kind) for p in self.paths(f)]
            seen[f.j['m']] = (f, kind, ss)
            for s in ss:
                for e in s.starts:
                    h = self.byfn(e.args[HPOS[e.name] + 1])
                    if h is None:
                        raise AnalysisError('completion handler of %s not resolved' % e.name)
                    todo.append((h, e.name[len('drv_start_'):]))
                for e in s.p.events:
                    # functions posted to the event loop run the accept step again
                    pass
        return list(seen.values())


_nv = None


def netview():
    global _nv
    if _nv is None:
        _nv = NetView()
    return _nv


def handler_base(s):
    """the connection object a step works on: what the buffers and the socket are addressed from"""
    return s


def owners(s):
    """location (alloca, offset) of a reference count -> the event that produced the reference it shares"""
    own = {}
    for e in s.p.events:
        if e.kind != 'call':
            continue
        if e.name in ('std::enable_shared_from_this::shared_from_this', 'cachelot::memcached::StreamServer::new_conversation'):
            b, o, vs = split_ptr(e.args[0])
            own[(b, o + 8)] = e
        elif e.name == SC + '__shared_count' and len(e.args) >= 2:
            d, o, vs = split_ptr(e.args[0])
            b2, o2, vs2 = split_ptr(e.args[1])
            if (b2, o2) in own:
                own[(d, o)] = own[(b2, o2)]
            elif b2 is ARG or b2.op == 'load':
                own[(d, o)] = ('closure', b2, o2)
        elif e.name == SC + '_M_swap':
            k1, k2 = [tuple(split_ptr(a)[:2]) for a in e.args[:2]]
            own[k1], own[k2] = own.get(k2), own.get(k1)
        elif e.name == SC + 'operator=':
            k1, k2 = [tuple(split_ptr(a)[:2]) for a in e.args[:2]]
            own[k1] = own.get(k2)
    return own


def sel_facts(p):
    """typeinfo comparisons on a path: [(exception event number, type, truth)]"""
    r = []
    for a, v in p.flist:
        if a.op == 'atom' and a.a[0] == 'eq':
            for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                if y.op == 'typeid' and x.op == 'ext':
                    n = y.a[0]
                    n = n.a[0] if hasattr(n, 'a') else n
                    n = str(n)
                    n = n[len('typeinfo for '):] if n.startswith('typeinfo for ') else n
                    r.append((x, n, v))
    return r


def infeasible(nv, p, throws):
    """a dispatch outcome that the types raised by the throwing call exclude"""
    exc = None
    for e in p.events:
        if e.kind == 'call' and e.threw:
            exc = e
        if e.kind == 'landingpad' and exc is not None:
            ts = throws(exc)
            if ts is not None:
                for x, n, v in sel_facts(p):
                    if x.a[0].op == 'exc' and x.a[0].a[0] == e.n:
                        d = [derives(t, n) for t in ts]
                        if v and not any(d) or not v and all(d):
                            return True
                if not ts:
                    return True
            exc = None
    return False


def derives(t, b):
    from escape import BASE
    while t is not None:
        if t == b:
            return True
        t = BASE.get(t)
    return False


IOTHROWS = {'std::length_error', 'std::bad_alloc'}


def io_throws(e):
    if e.name in (IO + 'begin_write', IO + 'ensure_capacity'):
        return IOTHROWS
    if e.name == 'cachelot::memcached::StreamServer::new_conversation':
        return {'std::bad_alloc'}
    if e.name == '__cxa_end_catch':
        return set()
    return None


def S08(ctx):
    nv = netview()
    o = nv.off
    R1, R2, R3, R4, R5 = 'kept-alive', 'one-operation', 'buffers', 'reply-followed', 'accepting'
    ctx.rule(R1, 'the handler object of every started stream operation owns a shared reference (released by its disposal) obtained from the connection whose socket is used')
    ctx.rule(R2, 'a completed step starts at most one operation of the connection; an error ends the connection without starting any (except message_size, where the data is kept and receiving goes on)')
    ctx.rule(R3, 'received bytes are confirmed once and only those; a receive uses exactly the writable space of the receive buffer, a send exactly the unread data of the send buffer; the buffer handed to '
                 'the system is not touched any more in that step; sent data is removed before new replies are written; processed input is discarded before the next receive')
    ctx.rule(R4, 'the next operation follows the outcome of the request: send on SEND_REPLY_AND_READ, receive on READ_MORE, none otherwise; requests that are already received are processed before '
                 'waiting for more input, and processing repeats only while input shrinks')
    ctx.rule(R5, 'each accepted connection is started once and the next connection is waited for')
    ctx.rule('quit', 'a quit command makes the request end its connection')
    av = asciiview()
    for ap in av.paths():
        if success(ap) and 'QUIT' in (ap.commands() or ()):
            ctx.ob('quit', 'quit', isret(ap, av, 'CLOSE_IMMEDIATELY'), 'quit does not end the connection', ap.where(), ap.p)
    ctx.covered(av.root(), [ap.p for ap in av.paths()])
    steps = nv.steps(['drv_conv_start', 'drv_serv_start'])
    kinds = {k for f, k, ss in steps}
    if not {'read', 'write', 'accept'} <= kinds and not {'read', 'write_some', 'accept'} <= kinds:
        raise AnalysisError('stream operations not found: %s' % sorted(kinds))
    inits = {}
    for f, kind, ss in steps:
        ctx.covered(f, [s.p for s in ss])
        for s in ss:
            for e in s.starts:
                h = nv.byfn(e.args[HPOS[e.name] + 1])
                inits.setdefault(h.j['m'], []).append((s, e))
    MSGSIZE = 90
    for f, kind, ss in steps:
        fn = {'start': 'start', 'read': 'receive completion', 'write': 'send completion', 'write_some': 'send completion', 'accept': 'accept completion'}.get(kind, kind)
        for s in ss:
            p = s.p
            if infeasible(nv, p, io_throws):
                continue
            wh = s.where()
            if p.outcome in ('unwind', 'terminate', 'noreturn'):
                # exceptions are S04's concern; nothing may have been started twice before
                continue
            own = owners(s)
            ops = [e for e in s.starts if e.name not in ('drv_start_accept',)]
            acc = [e for e in s.starts if e.name == 'drv_start_accept']
            for e in s.starts:
                hp = HPOS[e.name]
                drop = nv.byfn(e.args[hp + 2])
                hb, ho, _ = split_ptr(e.args[hp])
                sock = e.args[0] if e.name == 'drv_start_accept' else e.args[2]
                sb, so, _ = split_ptr(sock)
                good = False
                for k in nv.owned(drop):
                    w = own.get((hb, ho + k))
                    if w is None or isinstance(w, tuple):
                        continue
                    if w.name.endswith('shared_from_this'):
                        cb, co, _ = split_ptr(w.args[1])
                        good = good or canon(cb) is canon(sb)
                    elif w.name.endswith('new_conversation'):
                        good = good or (sb.op == 'cres' and sb.a[0] == w.n) or (sb.op == 'cell' and w.n in sb.a)
                ctx.ob(R1, fn, good, 'the handler of %s does not keep its connection alive' % e.name[4:], s.where(e), p)
            # the connection: from the closure (handlers) or the argument (start)
            base = None
            for e in p.events:
                if e.kind == 'call' and e.name.startswith(IO):
                    b = split_ptr(e.args[0])
                    base = b[0]
                    break
            if kind == 'accept' or f.name == 'drv_serv_start':
                if kind == 'accept':
                    ok = s.err is False
                    ctx.ob(R5, fn, len(ops) == 1 and ops[0].name == 'drv_start_read' if ok and not p_threw(p, IO) else not ops or ok, 'an accepted connection is not started exactly once', wh, p)
                    if ops:
                        sb = split_ptr(ops[0].args[2])[0]
                        drop = None
                        # the started connection is the one the handler owns
                        okc = sb.op == 'load' and split_ptr(sb.a[0])[0] is ARG
                        ctx.ob(R5, fn, okc, 'a different connection is started', wh, p)
                    stopped = [p.truth(e.res) for e in p.events if e.kind == 'call' and e.name == 'boost::asio::io_context::stopped']
                    posted = [e for e in p.events if e.kind == 'call' and e.name == 'boost::asio::io_context::post']
                    ctx.ob(R5, fn, len(acc) + len(posted) == (0 if True in stopped else 1), 'the next connection is not waited for exactly once', wh, p)
                else:
                    posted = [e for e in p.events if e.kind == 'call' and e.name == 'boost::asio::io_context::post']
                    ctx.ob(R5, fn, len(acc) + len(posted) == 1 and not ops, 'connections are not waited for', wh, p)
                if not ops:
                    continue
            if base is None:
                ctx.ob(R2, fn, not s.starts, 'an operation is started without looking at the buffers', wh, p)
                continue
            recv, send = o['conv_recv'], o['conv_send']
            ctx.ob(R2, fn, len(ops) <= 1, '%d operations are started' % len(ops), wh, p)
            if kind in ('read', 'write', 'write_some') and s.err is None:
                ctx.ob(R2, fn, False, 'the error of the operation is not looked at', wh, p)
                continue
            muts = [e for e in p.events if e.kind == 'call' and e.name.startswith(IO) and e.name not in RO]
            hs = s.handles
            first_h = hs[0].n if hs else None
            last_h = hs[-1].n if hs else None
            for e in hs:
                ctx.ob(R3, fn, nv.at(e.args[1], base, recv) and nv.at(e.args[2], base, send) and nv.at(e.args[0], base, 0), 'requests are processed on the wrong buffers', s.where(e), p)
            # confirmations
            cw = s.io('confirm_write', base, recv)
            if kind == 'read':
                goes = s.err is False or (MSGSIZE, True) in s.cmps
                if goes:
                    ok = len(cw) == 1 and cw[0].args[1] is mk('arg', 2) and (first_h is None or cw[0].n < first_h)
                    ctx.ob(R3, fn, ok, 'the received bytes are not confirmed exactly once before they are processed', wh, p)
                else:
                    ctx.ob(R2, fn, not s.starts and not hs, 'an operation is started after an error', wh, p)
                    ctx.ob(R3, fn, not cw, 'bytes are confirmed although receiving failed', wh, p)
            else:
                ctx.ob(R3, fn, not cw, 'bytes are confirmed that were not received', wh, p)
            if kind in ('write', 'write_some'):
                if s.err:
                    ctx.ob(R2, fn, not s.starts and not hs, 'an operation is started after an error', wh, p)
                    continue
                done = [e for e in muts if nv.at(e.args[0], base, send) and e.n < (first_h if first_h is not None else 1 << 60)]
                conf = [e for e in done if e.name in (IO + 'confirm_read', IO + 'read_all', IO + 'reset')]
                ok = len([e for e in conf if e.name != IO + 'reset']) <= 1 and len(conf) >= 1
                for e in conf:
                    if e.name == IO + 'confirm_read':
                        a = e.args[1]
                        nr = a.op in ('callres', 'call') and IO + 'non_read' in a.a
                        if kind == 'write':
                            ok = ok and (a is mk('arg', 2) or nr or closure_len(nv, inits.get(f.j['m'], []), a))
                        else:
                            ok = ok and a is mk('arg', 2)
                    elif kind == 'write_some':
                        ok = False
                ctx.ob(R3, fn, ok, 'the data that was sent is not removed from the send buffer', wh, p)
                if kind == 'write_some':
                    # a partial send continues with the rest
                    left = [e for e in s.io('non_read', base, send) if p.truth(cmp('eq', e.res, C(0), 64)) is False]
                    if left:
                        ctx.ob(R3, fn, len(ops) == 1 and ops[0].name.startswith('drv_start_write') and not hs, 'the rest of a partly sent reply is not sent', wh, p)
                        continue
                    empty = [e for e in s.io('non_read', base, send) if p.truth(cmp('eq', e.res, C(0), 64))]
                    ctx.ob(R3, fn, bool(empty), 'a partly sent reply is taken as sent', wh, p)
                comp = [e for e in done if e.name in (IO + 'compact', IO + 'reset')]
                ctx.ob(R3, fn, bool(comp) and comp[-1].n >= conf[0].n if conf else False, 'the space of sent data is not reclaimed', wh, p)
            if kind in ('write', 'write_some') or kind == 'read' and s.err is False:
                ctx.ob(R4, fn, bool(hs), 'requests that have been received are not processed', wh, p)
            if p.outcome == 'backedge':
                # processing repeats: only with a silent request and less input than before
                ok = False
                if hs:
                    nr = s.io('non_read', base, recv)
                    bef = [e for e in nr if e.n < last_h]
                    aft = [e for e in nr if e.n > last_h]
                    ok = any(p.truth(cmp('ult', a.res, b.res, 64)) is True for a in aft for b in bef) and p.truth(cmp('eq', hs[-1].res, C(0, 32), 32)) is True
                    ok = ok and not s.starts
                ctx.ob(R4, fn, ok, 'processing repeats without progress or after a reply', wh, p)
                continue
            if hs:
                rep = hs[-1].res
                poss = [v for v in (0, 1, 2) if p.truth(cmp('eq', rep, C(v, 32), 32)) is not False]
                if not poss:
                    continue                    # not a value of the enumeration
                killed = [a for a, v in p.flist if a.op == 'atom' and a.a[0] == 'eq' and a.a[1].op == 'load' and a.a[3] == 8 and v is False]
                for v in poss:
                    if v == 1:
                        ok = len(ops) == 1 and ops[0].name.startswith('drv_start_write')
                        ctx.ob(R4, fn, ok or not ops and bool(killed), 'a reply is not sent', wh, p)
                    elif v == 0:
                        thr = p_threw(p, IO)
                        ok = len(ops) == 1 and ops[0].name == 'drv_start_read'
                        ctx.ob(R4, fn, ok or not ops and thr, 'the connection does not wait for more input', wh, p)
                        # no complete request may be left unprocessed
                        nr = s.io('non_read', base, recv)
                        bef = [e for e in nr if e.n < last_h]
                        aft = [e for e in nr if e.n > last_h]
                        ok = any(p.truth(cmp('eq', a.res, C(0), 64)) for a in aft) or any(p.truth(cmp('ult', a.res, b.res, 64)) is False for a in aft for b in bef)
                        ctx.ob(R4, fn, ok, 'more input is waited for while received requests may be unprocessed', wh, p)
                    else:
                        ctx.ob(R4, fn, not ops, 'an operation is started on a connection that ends', wh, p)
            # the started operation
            for e in ops:
                if e.name == 'drv_start_read':
                    bw = [x for x in s.io('begin_write', base, recv, before=e.n)]
                    avl = [x for x in s.io('available', base, recv, before=e.n) if x.res is e.args[1]]
                    ok = bool(bw) and e.args[0] is bw[-1].res and bool(avl) and avl[-1].n > bw[-1].n
                    ok = ok or bool(bw) and e.args[0] is bw[-1].res and eq64(e.args[1], bw[-1].args[1])
                    ok = ok and not [m for m in muts if nv.at(m.args[0], base, recv) and m.n > bw[-1].n]
                    ctx.ob(R3, fn, ok, 'the receive does not use the writable space of the receive buffer', s.where(e), p)
                    if hs:
                        comp = [m for m in muts if nv.at(m.args[0], base, recv) and m.n > last_h and m.name in (IO + 'compact', IO + 'reset')]
                        empty = any(p.truth(cmp('eq', x.res, C(0), 64)) for x in s.io('non_read', base, recv, after=last_h))
                        ctx.ob(R3, fn, bool([m for m in comp if m.name == IO + 'compact' or empty]), 'processed input is not discarded', s.where(e), p)
                    else:
                        bad = [m for m in muts if nv.at(m.args[0], base, recv) and m.name not in (IO + 'confirm_write', IO + 'begin_write', IO + 'ensure_capacity', IO + 'compact')]
                        ctx.ob(R3, fn, not bad, 'received data is dropped', s.where(e), p)
                elif e.name.startswith('drv_start_write'):
                    br = [x for x in s.io('begin_read', base, send, before=e.n) if x.res is e.args[0]]
                    nr = [x for x in s.io('non_read', base, send, before=e.n) if x.res is e.args[1]]
                    lim = last_h if last_h is not None else -1
                    ok = bool(br) and bool(nr) and br[-1].n > lim and nr[-1].n > lim
                    ok = ok and not [m for m in muts if nv.at(m.args[0], base, send) and m.n > min(br[-1].n, nr[-1].n)]
                    ctx.ob(R3, fn, ok, 'the send does not cover exactly the reply', s.where(e), p)
                # the received data must survive: nothing but compaction, and no discarding, after processing
            drop_ = [m for m in muts if nv.at(m.args[0], base, recv) and m.name in (IO + 'read_all', IO + 'confirm_read', IO + 'rollback_read_transaction', IO + 'rollback_write_transaction')]
            ctx.ob(R3, fn, not drop_, 'received requests are discarded unprocessed', wh, p)
            extra_send = [m for m in muts if nv.at(m.args[0], base, send) and (first_h is None or m.n > first_h) and m.name not in (IO + 'compact',)]
            ctx.ob(R3, fn, not extra_send or kind in ('write', 'write_some') and first_h is None, 'a reply is modified after it was written', wh, p)
    # the handler of the protocol layer: outcome of the request is passed on, errors close the connection
    f = nv.prog.fn('drv_conv_handle')
    for p in nv.paths(f):
        ctx.covered(f, [p])
        hr = [e for e in p.events if e.kind == 'call' and e.name == 'cachelot::memcached::handle_received_data']
        wh = hr[0].loc.repo() if hr else f.where
        if p.outcome != 'ret':
            continue
        if not ctx.ob(R4, 'handle_data', len(hr) == 1, 'requests are not handed to the protocol', wh, p):
            continue
        ctx.ob(R4, 'handle_data', hr[0].args[0] is mk('arg', 1) and hr[0].args[1] is mk('arg', 2), 'requests are processed on the wrong buffers', wh, p)
        ctx.ob(R4, 'handle_data', isc(p.ret, 2) if hr[0].threw else p.ret is hr[0].res, 'the outcome of the request is not passed on', wh, p)
    # connections end up owned before they are started: the factory returns an owning pointer
    ctx.assume('boost::asio calls each handler at most once and keeps the handler object until the handler returned')
    ctx.assume('starting an operation does not fail for lack of host memory')


def p_threw(p, prefix):
    return any(e.kind == 'call' and e.threw and e.name.startswith(prefix) for e in p.events)


def closure_len(nv, inits, a):
    """value captured by the handler that was the length of the started send"""
    if a.op != 'load' or split_ptr(a.a[0])[0] is not ARG:
        return False
    k = split_ptr(a.a[0])[1]
    if not inits:
        return False
    for s, e in inits:
        hp = HPOS[e.name]
        c = e.snap.get(hp, {})
        ho = split_ptr(e.args[hp])[1]
        if c.get(ho + k) is not e.args[1]:
            return False
    return True


def udp_steps(ctx, R, only_receive=False):
    """obligations of the datagram loop; only_receive: just the emptiness of the receive buffer (S04)"""
    nv = netview()
    o = nv.off
    recv, send = o['udp_recv'], o['udp_send']
    steps = nv.steps(['drv_udp_start'])
    inits = {}
    for f, kind, ss in steps:
        for s in ss:
            for e in s.starts:
                inits.setdefault(nv.byfn(e.args[HPOS[e.name] + 1]).j['m'], []).append((s, e))
    kinds = {k for f, k, ss in steps}
    if not {'recvfrom', 'sendto'} <= kinds:
        raise AnalysisError('datagram operations not found: %s' % sorted(kinds))
    for f, kind, ss in steps:
        fn = {'start': 'start', 'recvfrom': 'datagram receive completion', 'sendto': 'datagram send completion'}[kind]
        ctx.covered(f, [s.p for s in ss])
        for s in ss:
            p = s.p
            if infeasible(nv, p, io_throws):
                continue
            base = None
            for e in p.events:
                if e.kind == 'call' and e.name.startswith(IO):
                    base = split_ptr(e.args[0])[0]
                    break
            wh = s.where()
            muts = [e for e in p.events if e.kind == 'call' and e.name.startswith(IO) and e.name not in RO]
            hs = s.handles
            # state of the receive buffer: empty at the start of a receive
            state = 'empty' if kind != 'recvfrom' else 'filled'
            reserve = None
            threw = None
            okbuf = True
            for e in p.events:
                if e.kind != 'call':
                    continue
                if e in hs:
                    state = 'filled'
                if not e.name.startswith(IO) or base is None or not nv.at(e.args[0], base, recv):
                    continue
                nm = e.name[len(IO):]
                if nm in ('confirm_write', 'rollback_read_transaction'):
                    state = 'filled'
                elif nm == 'reset':
                    state = 'empty'
                elif nm in ('read_all',) or nm == 'confirm_read' and e.args[1].op in ('callres', 'call') and IO + 'non_read' in e.args[1].a:
                    state = 'read' if state != 'empty' else state
                elif nm == 'compact' and state == 'read':
                    state = 'empty'
                elif nm in ('begin_write', 'ensure_capacity'):
                    reserve = e
                    small = isc(e.args[1]) and e.args[1].a[0] <= 500
                    if e.threw and state == 'empty' and small:
                        threw = 'impossible'
                    elif e.threw:
                        threw = 'possible'
            if threw == 'impossible':
                continue
            if p.outcome == 'terminate' or p.outcome == 'unwind' and kind != 'start':
                ctx.ob(R['loop'], fn, False, 'an exception while preparing the next receive ends the server', wh, p)
                continue
            if p.outcome == 'unwind':
                continue
            if only_receive:
                ctx.ob(R['loop'], fn, True, '', wh, p)
                continue
            rcv = [e for e in s.starts if e.name == 'drv_start_recvfrom']
            snd = [e for e in s.starts if e.name == 'drv_start_sendto']
            ctx.ob(R['loop'], fn, len(s.starts) <= 1, 'several operations are started: a reply is being sent while the next datagram is received', wh, p)
            if kind == 'recvfrom' and s.err is None:
                ctx.ob(R['loop'], fn, False, 'the error of the operation is not looked at', wh, p)
                continue
            ABORTED = 125
            ab = (ABORTED, True) in s.cmps
            closed = any(e.kind == 'call' and e.name == 'drv_sock_is_open' and p.truth(e.res) is False for e in p.events)
            if not s.starts:
                ctx.ob(R['loop'], fn, ab or closed or p_threw(p, IO), 'the server stops receiving datagrams', wh, p)
            if kind == 'recvfrom':
                cw = s.io('confirm_write', base, recv) if base is not None else []
                if s.err is False:
                    ok = len(cw) == 1 and cw[0].args[1] is mk('arg', 2) and len(hs) == 1 and cw[0].n < hs[0].n
                    ctx.ob(R['loop'], fn, ok, 'the datagram is not handed over exactly once', wh, p)
                    for e in hs:
                        ctx.ob(R['loop'], fn, nv.at(e.args[1], base, recv) and nv.at(e.args[2], base, send), 'the datagram is processed on the wrong buffers', wh, p)
                    pre = [m for m in muts if m.n < (hs[0].n if hs else 0) and m is not (cw[0] if cw else None) and nv.at(m.args[0], base, recv)]
                    ctx.ob(R['loop'], fn, not pre, 'the datagram is changed before it is processed', wh, p)
                    poss = [v for v in (0, 1, 2) if p.truth(cmp('eq', hs[-1].res, C(v, 32), 32)) is not False] if hs else [0]
                    if not poss:
                        continue                # not a value of the enumeration
                    is_send = poss == [1] or bool(snd) and 1 in poss and 0 not in poss
                    ctx.ob(R['reply'], fn, bool(snd) == bool(is_send), 'a reply is sent that does not exist, or an existing reply is not sent', wh, p)
                else:
                    ctx.ob(R['reply'], fn, not hs and not snd, 'a datagram is processed although receiving failed', wh, p)
            elif kind == 'sendto':
                done = [e for e in muts if nv.at(e.args[0], base, send)] if base is not None else []
                conf = [e for e in done if e.name in (IO + 'confirm_read', IO + 'read_all', IO + 'reset')]
                ok = bool(conf)
                for e in conf:
                    if e.name == IO + 'confirm_read':
                        a = e.args[1]
                        ok = ok and (a.op in ('callres', 'call') and IO + 'non_read' in a.a or closure_len(nv, inits.get(f.j['m'], []), a))
                ctx.ob(R['reply'], fn, ok, 'a reply stays in the send buffer after it was sent', wh, p)
                comp = [e for e in done if e.name in (IO + 'compact', IO + 'reset')]
                ctx.ob(R['reply'], fn, bool(comp) and bool(conf) and comp[-1].n >= conf[0].n, 'the space of a sent reply is not reclaimed', wh, p)
                ctx.ob(R['reply'], fn, not snd and not hs, 'a reply is sent twice', wh, p)
            if s.starts:
                ctx.ob(R['loop'], fn, state == 'empty', 'the datagram is not consumed completely before the next one is received', wh, p)
            for e in rcv:
                ok = reserve is not None and e.args[0] is reserve.res and any(x.res is e.args[1] and x.n > reserve.n for x in s.io('available', base, recv, before=e.n))
                ok = ok and nv.at(e.args[3], base, o['udp_remote'])
                ctx.ob(R['loop'], fn, ok, 'the receive does not use the writable space of the receive buffer', s.where(e), p)
                late = [m for m in muts if m.n > reserve.n and nv.at(m.args[0], base, recv)] if reserve else []
                ctx.ob(R['loop'], fn, not late, 'the receive buffer changes after it was handed to the system', s.where(e), p)
            for e in snd:
                br = [x for x in s.io('begin_read', base, send, before=e.n) if x.res is e.args[0]]
                nr = [x for x in s.io('non_read', base, send, before=e.n) if x.res is e.args[1]]
                lim = hs[-1].n if hs else -1
                ok = bool(br) and bool(nr) and br[-1].n > lim and nr[-1].n > lim
                ok = ok and not [m for m in muts if nv.at(m.args[0], base, send) and m.n > lim]
                ctx.ob(R['reply'], fn, ok, 'the send does not cover exactly the reply', s.where(e), p)
                to = cell(e, 3, 0, 8)
                src = ptr(base, o['udp_remote'])
                okto = to is not None and to.op == 'load' and canon(split_ptr(to.a[0])[0]) is canon(base) and split_ptr(to.a[0])[1] == o['udp_remote']
                ctx.ob(R['reply'], fn, okto, 'the reply is not sent to the sender of the datagram', s.where(e), p)


def S09(ctx):
    nv = netview()
    R = {'loop': 'datagram-loop', 'reply': 'reply-alone', 'frame': 'frame-header'}
    ctx.rule(R['loop'], 'each received datagram is confirmed, handed over once and consumed completely; the next receive is started exactly once, into an empty buffer, and not while a reply is being sent')
    ctx.rule(R['reply'], 'exactly the produced reply is sent, to the sender of the datagram; it leaves the buffer when the send completes, before the next datagram is processed')
    ctx.rule(R['frame'], 'a datagram without a complete, supported frame header reaches neither the protocol nor the output; otherwise the reply starts with a copy of the 8 header bytes; '
                         'when there is no reply or the request fails, the output is rolled back')
    udp_steps(ctx, R)
    P = nv.prog
    f = P.fn('drv_udp_handle')
    ps = nv.paths(f)
    ctx.covered(f, ps)
    RV, SD = mk('arg', 1), mk('arg', 2)
    r = R['frame']
    seen_ok = 0
    for p in ps:
        if infeasible(nv, p, io_throws):
            continue
        evs = [e for e in p.events if e.kind == 'call']
        hr = [e for e in evs if e.name == 'cachelot::memcached::handle_received_data']
        wh = lastwhere(p, f)
        if p.outcome != 'ret':
            continue    # S04
        sv = [e for e in evs if e.name == IO + 'write_savepoint' and e.args[0] is SD]
        cwr = [e for e in evs if e.name == IO + 'confirm_write' and e.args[0] is SD]
        rb = [e for e in evs if e.name == IO + 'rollback_write_transaction' and e.args[0] is SD]
        lens = [e for e in evs if e.name == IO + 'non_read' and e.args[0] is RV]
        full = any(p.truth(cmp('ult', e.res, C(8), 64)) is False for e in lens)
        rolled = bool(rb) and rb[-1].args[1] in [e.res for e in sv if all(w.n > e.n for w in cwr)] and all(w.n < rb[-1].n for w in cwr + hr)
        if not hr:
            ctx.ob(r, 'handle_data', not cwr or rolled, 'output of a rejected datagram is kept', wh, p)
            ctx.ob(r, 'handle_data', isc(p.ret) and p.ret.a[0] != 1, 'a rejected datagram is answered', wh, p)
            iofail = p_threw(p, IO)
            short = any(p.truth(cmp('ult', e.res, C(8), 64)) is True for e in lens)
            hb = [e.res for e in evs if e.name == IO + 'begin_read' and e.args[0] is RV] + [mk('ext', e.res, 0) for e in evs if e.name == IO + 'confirm_read' and e.args[0] is RV]
            wrong = any(excluded(p, h, [0x12, 0x34, 0, 0, 0, 1, 0, 0]) or excluded(p, h, [0] * 8) for h in hb)
            ctx.ob(r, 'handle_data', iofail or short or wrong, 'a well-formed datagram is ignored', wh, p)
            continue
        if not ctx.ob(r, 'handle_data', len(hr) == 1 and hr[0].args[0] is RV and hr[0].args[1] is SD, 'the datagram is processed more than once or on the wrong buffers', wh, p):
            continue
        ctx.ob(r, 'handle_data', full, 'a datagram shorter than the frame header is processed', wh, p)
        # header fields
        br = [e for e in evs if e.name == IO + 'begin_read' and e.args[0] is RV and e.n < hr[0].n]
        hdr = br[0].res if br else None
        cr = [e for e in evs if e.name == IO + 'confirm_read' and e.args[0] is RV]
        if hdr is None and cr and cr[0].n < hr[0].n:
            hdr = mk('ext', cr[0].res, 0)
        okh = hdr is not None and len(cr) == 1 and isc(cr[0].args[1], 8) and cr[0].n < hr[0].n and (not br or br[0].n < cr[0].n)
        if not ctx.ob(r, 'handle_data', okh, 'the frame header is not taken from the datagram', wh, p):
            continue
        ctx.ob(r, 'handle_data', field_zero(p, hdr, 2), 'a datagram with a non-zero sequence number is processed', wh, p)
        ctx.ob(r, 'handle_data', field_zero(p, hdr, 6), 'a datagram with a non-zero reserved field is processed', wh, p)
        ctx.ob(r, 'handle_data', field_max1(p, hdr, 4), 'a part of a multi-datagram request is processed', wh, p)
        bw = [e for e in evs if e.name == IO + 'begin_write' and e.args[0] is SD and e.n < hr[0].n]
        pre = [e for e in cwr if e.n < hr[0].n]
        mc = [e for e in evs if e.name in ('memcpy', 'memmove') and bw and e.args[0] is bw[-1].res]
        stw = [e for e in p.events if e.kind == 'store' and bw and split_ptr(e.addr)[0] is split_ptr(bw[-1].res)[0]]
        def eight(t):
            # 8, or the length of the confirmed 8 bytes
            return isc(t, 8) or bool(cr) and eq64(t, binop('sub', mk('ext', cr[0].res, 1), mk('ext', cr[0].res, 0), 64))
        copied = len(mc) == 1 and mc[0].args[1] is hdr and eight(mc[0].args[2])
        if not copied and not mc and stw:
            got = {}
            for e in stw:
                d = diff(e.addr, bw[-1].res)
                if d is not None and e.val.op == 'load' and diff(e.val.a[0], hdr) == d and e.val.a[1] == e.size:
                    for k in range(d, d + e.size):
                        got[k] = True
            copied = set(got) == set(range(8)) and len(stw) == len([e for e in stw if diff(e.addr, bw[-1].res) is not None])
        ok = len(bw) == 1 and copied and len(pre) == 1 and eight(pre[0].args[1]) and (eight(bw[0].args[1]) or isc(bw[0].args[1]) and bw[0].args[1].a[0] >= 8)
        ctx.ob(r, 'handle_data', ok, 'the reply does not start with the header of the datagram', wh, p)
        later = [e for e in evs if e.n > hr[0].n and e.name.startswith(IO) and e.args[0] is SD and e.name not in RO and e not in rb]
        ctx.ob(r, 'handle_data', not later, 'the reply is changed after it was produced', wh, p)
        if hr[0].threw:
            ctx.ob(r, 'handle_data', rolled and isc(p.ret) and p.ret.a[0] != 1, 'a failed request leaves output behind', wh, p)
        else:
            snt = p.truth(cmp('eq', hr[0].res, C(1, 32), 32))
            if snt:
                seen_ok += 1
                ctx.ob(r, 'handle_data', not rb and (p.ret is hr[0].res or isc(p.ret, 1)), 'a reply is discarded', wh, p)
            elif snt is False:
                ctx.ob(r, 'handle_data', rolled, 'the frame header stays in the output although there is no reply', wh, p)
                ctx.ob(r, 'handle_data', p.ret is hr[0].res or isc(p.ret) and p.ret.a[0] != 1, 'a reply is announced that does not exist', wh, p)
            else:
                # outcome not distinguished: output and answer must agree with both
                ctx.ob(r, 'handle_data', False, 'the output is not rolled back when there is no reply', wh, p)
    ctx.ob(r, 'handle_data', seen_ok > 0, 'no datagram is answered', f.where)
    ctx.assume('boost::asio completes operations one at a time in the single event loop thread')


def hdr_loads(p, hdr, off):
    """terms equal to the 16-bit header field at off"""
    out = []
    for a, v in p.flist:
        for t in subterms(a):
            if t.op == 'load' and diff(t.a[0], hdr) is not None:
                d = diff(t.a[0], hdr)
                if d <= off and d + t.a[1] >= off + 2:
                    out.append((t, d))
    return out


def host_value(t, hdr, off, bytes_):
    """evaluate a term with the header bytes given; None if it depends on anything else"""
    def f(x):
        if x.op == 'load':
            d = diff(x.a[0], hdr)
            if d is not None and 0 <= d and d + x.a[1] <= 8:
                v = 0
                for k in range(x.a[1]):
                    v |= bytes_[d + k] << (8 * k)
                return C(v, x.a[1] * 8)
        if x.op == 'intr' and x.a[0] == 'llvm.bswap.i16':
            y = host_value(x.a[1], hdr, off, bytes_)
            if isc(y):
                y = y.a[0] & 0xffff
                return C((y >> 8) | (y & 255) << 8, 16)
        if x.op == 'call' and x.a[0] in ('ntohs', 'htons') and len(x.a) > 2 and isc(x.a[2]):
            y = x.a[2].a[0] & 0xffff
            return C((y >> 8) | (y & 255) << 8, 16)
        return None
    r = subst(t, f)
    return r


def excluded(p, hdr, bytes_):
    """the path is excluded for this header"""
    for a, v in p.flist:
        if any(x.op == 'load' and diff(x.a[0], hdr) is not None for x in subterms(a)):
            r = host_value(a, hdr, 0, bytes_)
            if isc(r) and bool(r.a[0]) != v:
                return True
            if r.op == 'true' and not v or r.op == 'false' and v:
                return True
    return False


def field_zero(p, hdr, off):
    for k in range(2):
        for bit in range(8):
            b = [0] * 8
            b[off + k] = 1 << bit
            if not excluded(p, hdr, b):
                return False
    return not excluded(p, hdr, [0] * 8)


def field_max1(p, hdr, off):
    for n in [2, 3, 4, 7, 8, 255, 256, 257, 512, 1000, 4096, 32768, 65535]:
        b = [0] * 8
        b[off], b[off + 1] = n >> 8, n & 255
        if not excluded(p, hdr, b):
            return False
    return True


def lastwhere(p, f):
    for e in reversed(p.events):
        if e.kind == 'call' and e.loc and e.loc.repo().startswith('src/'):
            return e.loc.repo()
    return f.where


def server_ext(f, i):
    nm = i.get('fn', '')
    if not nm:
        if f.name.startswith('std::function'):
            return set()
        if f.name.startswith(('boost::', 'std::')):
            return {'std::bad_alloc'}
        return None
    if nm.startswith('operator new'):
        return {'std::bad_alloc'}
    if nm.startswith(('std::__cxx11::basic_string', 'std::allocator')):
        return {'std::bad_alloc', 'std::length_error'}
    if nm.startswith('std::') and nm.split('::')[-1].endswith('_error'):
        return {'std::bad_alloc'}
    if nm.startswith(('boost::asio', 'drv_')) or nm.endswith('::shared_from_this'):
        return set()
    if '::' not in nm:
        return set()
    return None


def S04(ctx):
    R1, R2, R3, R4 = 'no-terminate', 'contained', 'receive-prepared', 'no-abort'
    ctx.rule(R1, 'no exception raised by the protocol, cache or buffer code reaches a terminate handler (noexcept function, destructor, cleanup)')
    ctx.rule(R2, 'no exception leaves a completion handler or a handle_data function')
    ctx.rule(R3, 'preparing the next datagram receive, which must not throw, always finds an empty buffer with enough space')
    ctx.rule(R4, 'no function reachable from the handlers calls abort, exit, an assertion handler or raises a signal')
    P = view('drv/escape.cpp', ['.*'], ['.*'])

    def skip(f):
        return f.name.startswith('boost::asio::') or f.name.endswith('::shared_from_this')
    E = Escape(P, server_ext, skip)
    roots = [f for f in P.fns if f.name in ('Done::done', 'Done1::done', 'drv_conv_handle', 'drv_udp_handle', 'drv_new_conv', 'drv_conv_close')]
    if len(roots) < 8:
        raise AnalysisError('handlers not found')
    E.solve(roots)
    for k in sorted({k[0] for k in E.esc}):
        f = E.bym[k]
        if not f.name.startswith('cachelot::') and f not in roots:
            continue
        bad = [(t, c, v) for (n, t, c), v in E.term.items() if v[2] is f]
        # S04 rule receive-prepared decides the datagram receive path by path
        bad = [x for x in bad if not (f.name.startswith('cachelot::net::datagram_server') and x[1] in (IO + 'begin_write', IO + 'ensure_capacity'))]
        # the eviction callback is user code; a callback that is called through an empty function object is excluded by the check before the call
        bad = [x for x in bad if not (x[1] == 'std::function::operator()' and x[0] == 'std::bad_function_call')]
        if bad:
            for t, c, v in bad:
                ctx.ob(R1, f.name, False, '%s ends the process: %s' % (t, ' <- '.join(v[1])), v[0])
        else:
            ctx.ob(R1, f.name, True, '', f.where)
        for i in f.calls():
            if i.get('fn') in ABORT:
                ctx.ob(R4, f.name, False, 'calls %s' % i['fn'], Loc(i.get('loc')).repo())
        ctx.ob(R4, f.name, True, '', f.where)
    for f in roots:
        esc = dict(E.esc[(f.j['m'], ())])
        if f.name == 'drv_new_conv':
            # decided through the accept handler; a maximum below the initial size is a configuration error
            continue
        if f.name == 'Done1::done':
            for t in list(esc):
                if t == 'std::length_error' and all('new_conversation' in ' '.join(esc[t]) for _ in [0]):
                    del esc[t]
        for t, w in esc.items():
            ctx.ob(R2, f.name, False, '%s leaves the handler: %s' % (t, ' <- '.join(w)), f.where)
        ctx.ob(R2, f.name, True, '', f.where)
    for k, wh in E.unknown.items():
        raise AnalysisError('exceptions of %s called from %s are not known' % (k[1] or 'a function pointer', k[0]))
    udp_steps(ctx, {'loop': R3}, only_receive=True)
    ctx.assume('starting an asynchronous operation and posting to the event loop do not fail for lack of host memory')
    ctx.assume('the eviction callback of the embedding program does not throw')
    ctx.assume('the configured buffer maximum is not below the initial buffer size (500 bytes)')
    ctx.assume('shared_from_this is called on connections owned by a shared pointer (rule kept-alive of S08)')
