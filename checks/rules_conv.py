"""S10: text <-> number conversion."""
from serverview import *

ARG0, ARG1 = mk('arg', 0), mk('arg', 1)
U64 = (1 << 64) - 1
EC = 'boost::system::error_code::'


def bounds(p, t, lo=0, hi=U64, signed=False, pred=None):
    """interval of an unsigned term known from the facts of a path; facts may speak about any term whose linear form equals t's"""
    want = L(t)
    eqt = lambda x: x is t or (x.op not in ('c',) and L(x) == want)
    for atom, val in p.flist:
        if atom.op != 'atom' or atom.a[0] not in ('eq', 'ult', 'slt'):
            continue
        a, b = atom.a[1], atom.a[2]
        k = None
        if b.op == 'c':
            # eq atoms may have folded an additive constant: x + c == k
            d = lindiff(a, t)
            if d is not None and (d == 0 or atom.a[0] == 'eq'):
                k = (b.a[0] - d) & U64 if atom.a[0] == 'eq' else b.a[0]
                if atom.a[0] == 'eq':
                    if val:
                        lo, hi = max(lo, k), min(hi, k)
                    elif lo == k:
                        lo += 1
                    elif hi == k:
                        hi -= 1
                elif val:
                    hi = min(hi, k - 1)
                else:
                    lo = max(lo, k)
        elif a.op == 'c':
            if lindiff(b, t) == 0:
                k = a.a[0]
                if val:
                    lo = max(lo, k + 1)
                else:
                    hi = min(hi, k)
    return lo, hi


def lindiff(a, b):
    ca, da = lin(a)
    cb, db = lin(b)
    if da != db:
        return None
    return (ca - cb) & U64


def poly(t, b):
    """t as sum coeff[i]*byte(b+i) + const (casts of digit bytes are value preserving), or None"""
    c, d = lin(t)
    r = {}
    for a, k in d.items():
        x = a
        while x.op == 'cast' and x.a[0] in ('sext', 'zext'):
            x = x.a[1]
        if x.op != 'load' or x.a[1] != 1:
            return None
        o = diff(x.a[0], b)
        if o is None:
            return None
        r[o] = (r.get(o, 0) + k) & U64
    return c & U64, r


def is_number(t, b, n):
    """t == decimal value of the n bytes at b (mod 2^64)"""
    pl = poly(t, b)
    if pl is None:
        return False
    want = {i: 10 ** (n - 1 - i) & U64 for i in range(n)}
    return pl[1] == want and pl[0] == (-48 * sum(want.values())) & U64


def strip_cast(t):
    while t.op == 'cast':
        t = t.a[1]
    return t


def digit_fact(p, byte, upto=None):
    """True: known digit, False: known non-digit, None: unknown"""
    r = [v for v in range(256) if all_facts(p, byte, v)]
    if r and all(48 <= v <= 57 for v in r):
        return True
    if all(not 48 <= v <= 57 for v in r):
        return False
    return None


_allowed = {}


def allowed(atom, byte):
    """values of the byte for which the atom can be false / true"""
    k = (atom, byte)
    if k not in _allowed:
        if not mentions(atom, byte):
            _allowed[k] = None
        else:
            r = [subst(atom, lambda t: C(v, 8) if t is byte else None) for v in range(256)]
            _allowed[k] = [{v for v in range(256) if r[v].op != 'c' or bool(r[v].a[0]) == w} for w in (False, True)]
    return _allowed[k]


def all_facts(p, byte, v):
    for atom, val in p.flist:
        a = allowed(atom, byte)
        if a is not None and v not in a[bool(val)]:
            return False
    return True


class Conv:
    def __init__(self, ctx, P, fn, bits, R):
        self.ctx, self.P, self.bits, self.R = ctx, P, bits, R
        self.f = P.fn(fn)
        nc = NOTHROW + [EC + 'operator=', EC + 'operator_bool']
        self.ps = [p for p in explore(P, self.f, Model(clobbers=nc, nothrow=NOTHROW, unwind_calls=True)) if self.feasible(p)]
        ctx.covered(self.f, self.ps)
        self.b, self.e = ARG0, ARG1
        self.len = binop('sub', self.e, self.b, 64)
        self.back = {}
        self.init = {}
        for p in self.ps:
            if p.outcome == 'backedge':
                self.back.setdefault(p.x[0], []).append(p)
            for ev in p.events:
                if ev.kind == 'loop':
                    self.init.setdefault(ev.x[0], []).append(ev.x[1])
        self.ps = [p for p in self.ps if self.possible(p)]

    def stride(self, h):
        """loop h walks the text in groups of 2^s bytes, counting down (e - b) >> s groups -> (pointer phi, count phi, 2^s)"""
        if h not in self.back:
            return None
        for k, i in self.init[h][0].items():
            for t, it in self.init[h][0].items():
                lv, cn = mk('lv', h, k), mk('lv', h, t)
                if i is not self.b or it.op != 'bin' or it.a[0] not in ('ashr', 'lshr') or it.a[1] is not self.len or not isc(it.a[2]):
                    continue
                n = 1 << it.a[2].a[0]
                if all(diff(q.x[1][k], lv) == n and lindiff(q.x[1][t], cn) == U64 for q in self.back[h]) and all(d[k] is i and d[t] is it for d in self.init[h]):
                    return lv, cn, n
        return None

    def rest(self, p, h):
        """possible values of e - pointer where the path is (None: 2^s or more)"""
        lv, cn, n = self.stride(h)
        pos = p.truth(cmp('slt', C(0), cn, 64))
        if pos is None:
            z = p.truth(cmp('eq', cn, C(0), 64))
            pos = None if z is None else not z
        r = {None} if pos else set(range(n)) if pos is False else set(range(n)) | {None}
        d = binop('sub', self.e, lv, 64)
        for k in list(r):
            if k is None:
                continue
            for a, v in p.flist:
                if a.op == 'atom' and a.a[0] == 'eq':
                    df = diff(a.a[1], lv) if a.a[2] is self.e else diff(a.a[2], lv) if a.a[1] is self.e else None
                    if a.a[1] is d and isc(a.a[2]):
                        df = a.a[2].a[0]
                    if df is not None and (df == k) != v:
                        r.discard(k)
        for a, v in p.flist:
            if a.op == 'atom' and a.a[0] == 'eq' and v:
                df = diff(a.a[1], lv) if a.a[2] is self.e else diff(a.a[2], lv) if a.a[1] is self.e else a.a[2].a[0] if a.a[1] is d and isc(a.a[2]) else None
                if df is not None and 0 <= df < n:
                    r.discard(None)
        return r

    def possible(self, p):
        return all(self.rest(p, ev.x[0]) for ev in p.events if ev.kind == 'loop' and self.stride(ev.x[0]))

    def digits_at(self, p, lv, n):
        for i in range(n):
            ld = next((t for t in loads(p) if diff(t.a[0], lv) == i), None)
            if ld is None or digit_fact(p, ld) is not True:
                return False
        return True

    def feasible(self, p):
        """the error code answers 'set' exactly after an assignment"""
        for ev in p.events:
            if ev.kind == 'call' and ev.name == EC + 'operator_bool':
                v = p.truth(ev.res)
                if v is not None and v != bool(self.assigned(p, ev.args[0], ev.n)):
                    return False
        return True

    def assigned(self, p, obj, upto=None):
        return [ev for ev in p.events if ev.kind == 'call' and ev.name.startswith(EC + 'operator=') and ev.args[0] is obj and (upto is None or ev.n < upto)]

    def failed(self, p):
        return p.outcome in ('unwind', 'terminate') or bool([ev for ev in p.events if ev.kind == 'call' and ev.name.startswith(EC + 'operator=')])

    def nrange(self, p):
        k = p.st.keq.get(self.len)
        if k is not None:
            return k, k
        if p.truth(cmp('eq', self.b, self.e, 64)):
            return 0, 0
        lo, hi = p.st.rng.get(self.len, (0, None))
        ex = set(p.st.excl.get(self.len, ()))
        if p.truth(cmp('eq', self.b, self.e, 64)) is False:
            ex.add(0)
        lo2, hi2 = bounds(p, self.len)
        lo, hi = max(lo, lo2), min(hi if hi is not None else U64, hi2)
        while lo in ex:
            lo += 1
        while hi in ex:
            hi -= 1
        return lo, hi

    def cursor(self, h):
        """phi of loop h that walks the text one byte at a time: a pointer from b or an index from 0"""
        for start in (self.b, C(0)):
            for k in self.init.get(h, [{}])[0]:
                lv = mk('lv', h, k)
                one = lambda v: diff(v, lv) == 1 if start is self.b else lindiff(v, lv) == 1 or v.op == 'bin' and v.a[0] == 'add' and v.a[1] is lv and isc(v.a[2], 1)
                if all(i.get(k) is start or start is not self.b and isc(i.get(k), 0) for i in self.init[h]) and self.back.get(h) and all(one(p.x[1][k]) for p in self.back[h]):
                    if start is self.b or any(at_cursor(t.a[0], lv) for p in self.back[h] for t in loads(p)):
                        return lv
        return None

    def is_index(self, lv):
        return isc(self.init[lv.a[0]][0][lv.a[1]], 0)

    def ended(self, p, lv):
        if self.is_index(lv):
            n0, n1 = self.nrange(p)
            for a, v in p.flist:
                if a.op == 'atom' and strip_cast(a.a[1]) is lv and v == (a.a[0] == 'eq') and a.a[0] in ('eq', 'ult', 'slt'):
                    if L(a.a[2]) == L(self.len) or isc(a.a[2]) and n0 == n1 == a.a[2].a[0]:
                        return True
            return False
        a = p.truth(cmp('ult', lv, self.e, 64))
        return a is False or p.truth(cmp('eq', lv, self.e, 64)) is True

    def scan_loops(self, p):
        """loops completed on the path that checked every byte of [b,e) to be a digit"""
        r = []
        for ev in p.events:
            if ev.kind == 'loop':
                lv = self.cursor(ev.x[0])
                if lv is not None and self.ended(p, lv):
                    if all(digit_fact(q, mk_load(q, lv)) is True for q in self.back[ev.x[0]] if mk_load(q, lv) is not None) and all(mk_load(q, lv) is not None for q in self.back[ev.x[0]]):
                        r.append((ev.x[0], lv))
                st = self.stride(ev.x[0])
                if st and all(self.digits_at(q, st[0], st[2]) for q in self.back[ev.x[0]]):
                    left = self.rest(p, ev.x[0])
                    if None not in left and all(self.digits_at(p, st[0], k) for k in left):
                        r.append((ev.x[0], st[0]))
        return r

    def bytes_known(self, p, n):
        """every byte i<n individually known to be a digit"""
        for i in range(n):
            ld = next((t for a, v in p.flist for t in subterms(a) if t.op == 'load' and t.a[1] == 1 and diff(t.a[0], self.b) == i), None)
            if ld is None or digit_fact(p, ld) is not True:
                return False
        return True

    def value_of(self, p, n, t):
        """t equals the number denoted by the text"""
        if t.op == 'c':
            v = 0
            for i in range(n):
                ld = next((x for a, w in p.flist for x in subterms(a) if x.op == 'load' and x.a[1] == 1 and diff(x.a[0], self.b) == i), None)
                cand = [c for c in range(256) if ld is not None and all_facts(p, ld, c)]
                if len(cand) != 1:
                    return False
                v = v * 10 + cand[0] - 48
            return v == t.a[0]
        return is_number(t, self.b, n)

    def acc_loop(self, p, t):
        """t is the accumulator of a digit loop over the complete text"""
        if t.op != 'lv':
            return None
        h, k = t.a
        lv = self.cursor(h)
        if lv is None or not self.ended(p, lv) or not all(isc(i[k], 0) for i in self.init[h]):
            return None
        okall = True
        for q in self.back[h]:
            ld = mk_load(q, lv)
            if ld is None:
                return None
            c, d = lin(q.x[1][k])
            dd = {}
            for a, m in d.items():
                s = strip_cast(a)
                dd['acc' if s is t else ('d' if s is ld else s)] = m
            if dd != {'acc': 10, 'd': 1} or c & U64 != -48 & U64:
                return None
            lo, hi = bounds(q, t)
            dl, dh = self.digit_range(q, ld)
            okall = okall and hi * 10 + dh <= U64
        return 'guarded' if okall else 'free'

    def digit_range(self, p, ld):
        c = [v for v in range(48, 58) if all_facts(p, ld, v)]
        return (min(c) - 48, max(c) - 48) if c else (0, 9)

    def fits(self, p, n, t):
        """the 20-digit text is known to fit / not to fit: True / False / None"""
        for ev in p.events:
            if ev.kind == 'call' and ev.name in ('memcmp', 'strncmp') and isc(ev.args[2], 20):
                g = [self.P.gstring(x) for x in ev.args[:2]]
                ix = 0 if diff(ev.args[0], self.b) == 0 else 1
                if g[1 - ix] and g[1 - ix][:20] == '18446744073709551615' and diff(ev.args[ix], self.b) == 0:
                    gt = p.truth(cmp('slt', C(0, 32), ev.res, 32)) if ix == 0 else p.truth(cmp('slt', ev.res, C(0, 32), 32))
                    if gt is not None:
                        return not gt
                    if p.truth(cmp('eq', ev.res, C(0, 32), 32)):
                        return True
        # facts about the number made of the first 19 digits and the last digit
        heads = []
        for a, v in p.flist:
            if a.op == 'atom':
                for x in a.a[1:3]:
                    if isinstance(x, T) and x.op == 'bin':
                        pl = poly(x, self.b)
                        if pl and pl[1] == {i: 10 ** (18 - i) for i in range(19)}:
                            heads.append(x)
        base = None
        for x in heads:
            pl = poly(x, self.b)
            if pl[0] == (-48 * sum(10 ** (18 - i) for i in range(19))) & U64:
                base = x
        if base is None and heads:
            x = heads[0]
            base = binop('add', x, C(-48 * sum(10 ** (18 - i) for i in range(19)) - poly(x, self.b)[0], 64), 64)
        if base is None:
            return None
        lo, hi = bounds(p, base, 0, 10 ** 19 - 1)
        ld = next((x for a, w in p.flist for x in subterms(a) if x.op == 'load' and x.a[1] == 1 and diff(x.a[0], self.b) == 19 and digit_only(a, x)), None)
        dl, dh = self.digit_range(p, ld) if ld is not None else (0, 9)
        if hi * 10 + dh <= U64:
            return True
        if lo * 10 + dl > U64:
            return False
        return None

    def check(self):
        ctx, R, f = self.ctx, self.R, self.f
        mx = (1 << self.bits) - 1
        okn = 0
        for p in self.ps:
            if p.outcome == 'backedge':
                continue
            w = p.loc.repo() if p.loc else f.where
            n0, n1 = self.nrange(p)
            scans = self.scan_loops(p)
            if not self.failed(p):
                t = p.ret
                if self.bits < 64 and t.op == 'cast' and t.a[0] == 'trunc':
                    t = t.a[1]
                acc = self.acc_loop(p, t)
                if not ctx.ob(R, f.name, (n0 == n1 or acc) and n0 >= 1, 'text of unknown or zero length is converted', w, p):
                    continue
                ctx.ob(R, f.name, bool(scans) or (acc and self.loop_digits(t)) or (n0 == n1 and self.bytes_known(p, n0)), 'text is converted although not all of its bytes are known to be digits', w, p)
                ctx.ob(R, f.name, bool(acc) or self.value_of(p, n0, t), 'the result for a text of %d digits is not its decimal value' % n0, w, p)
                fit = acc == 'guarded' or n1 <= 19 or (n1 == 20 and self.fits(p, 20, t) is True)
                ctx.ob(R, f.name, fit, 'a text of %s digits may exceed 64 bits and is converted to a wrong number' % (n0 if n0 == n1 else 'arbitrarily many'), w, p)
                if self.bits < 64:
                    ok = t.op == 'c' and t.a[0] <= mx or bounds(p, t)[1] <= mx or (n1 <= 19 and 10 ** n1 - 1 <= mx)
                    ctx.ob(R, f.name, ok, 'a number larger than the %d-bit type can hold is truncated' % self.bits, w, p)
                okn += 1
            else:
                # error only when the text is no number or too large
                ok = n1 == 0 or n0 > 20
                for a, v in p.flist:
                    for x in subterms(a):
                        if x.op == 'load' and x.a[1] == 1 and digit_only(a, x) and digit_fact(p, x) is False and self.inside(p, x):
                            ok = True
                if not ok and n0 == 20 and self.fits(p, 20, None) is False:
                    ok = True
                if not ok:
                    for a, v in p.flist:
                        for x in a.a[1:3] if a.op == 'atom' else ():
                            if not isinstance(x, T) or x.op == 'c':
                                continue
                            if self.bits < 64 and (self.acc_loop(p, x) or (n0 == n1 and self.value_of(p, n0, x))) and bounds(p, x)[0] > mx:
                                ok = True
                            if x.op == 'lv' and x.a[0] in self.back and self.cursor(x.a[0]) is not None:
                                ld = mk_load(p, self.cursor(x.a[0]))
                                if ld is not None and bounds(p, x)[0] * 10 + self.digit_range(p, ld)[0] > U64:
                                    ok = True
                ctx.ob(R, f.name, ok, 'a text that is a number of the type can be rejected', w, p)
        if not okn:
            raise AnalysisError('%s: no successful path' % f.name)
        # all lengths are accepted
        if not any(p.ret is not None and p.ret.op != 'c' and p.outcome == 'ret' and self.acc_loop(p, strip_cast(p.ret)) for p in self.ps):
            have = {self.nrange(p)[0] for p in self.ps if p.outcome == 'ret' and not self.failed(p)}
            miss = [n for n in range(1, 21) if n not in have and 10 ** (n - 1) <= mx]
            ctx.ob(R, f.name, not miss, 'texts of %s digits are never converted' % miss, f.where)

    def loop_digits(self, t):
        h = t.a[0]
        lv = self.cursor(h)
        return all(mk_load(q, lv) is not None and digit_fact(q, mk_load(q, lv)) is True for q in self.back[h])

    def inside(self, p, ld):
        """the byte belongs to the text"""
        o = diff(ld.a[0], self.b)
        n0, n1 = self.nrange(p)
        if o is not None:
            return 0 <= o < n0
        x = split_ptr(ld.a[0])[0]
        st = self.stride(x.a[0]) if x.op == 'lv' else None
        if st and st[0] is x and 0 <= (diff(ld.a[0], x) if diff(ld.a[0], x) is not None else -1):
            return all(k is None and diff(ld.a[0], x) < st[2] or k is not None and diff(ld.a[0], x) < k for k in self.rest(p, x.a[0]))
        for x in subterms(ld.a[0]):
            if x.op == 'lv' and self.cursor(x.a[0]) is x and at_cursor(ld.a[0], x):
                if not self.is_index(x):
                    return p.truth(cmp('ult', x, self.e, 64)) is True or p.truth(cmp('eq', x, self.e, 64)) is False
                for a, v in p.flist:
                    if a.op == 'atom' and strip_cast(a.a[1]) is x and v == (a.a[0] != 'eq') and a.a[0] in ('eq', 'ult', 'slt') and (L(a.a[2]) == L(self.len) or isc(a.a[2]) and a.a[2].a[0] <= n0):
                        return True
        return False


def digit_only(atom, ld):
    return all(t is ld for t in subterms(atom) if t.op == 'load')


def loads(p):
    """byte loads the facts and (at the end of a round) the next values speak about"""
    for a, v in p.flist:
        for t in subterms(a):
            if t.op == 'load' and t.a[1] == 1:
                yield t
    if p.outcome == 'backedge':
        for v in p.x[1].values():
            for t in subterms(v):
                if t.op == 'load' and t.a[1] == 1:
                    yield t


def at_cursor(a, lv):
    """the address of the byte a loop is at: the pointer itself or text + index"""
    if a is lv:
        return True
    b, o, vs = split_ptr(a)
    return b is ARG0 and o == 0 and len(vs) == 1 and vs[0][1] == 1 and strip_cast(vs[0][0]) is lv


def mk_load(p, lv):
    return next((t for t in loads(p) if at_cursor(t.a[0], lv)), None)


# ----------------------------------------------------------------------------- printing
def divpow(t, x):
    """t == x / 10^k -> k"""
    t = strip_cast(t)
    if t.op == 'bin' and t.a[0] == 'udiv' and strip_cast(t.a[1]) is x and t.a[2].op == 'c':
        k = len(str(t.a[2].a[0])) - 1
        if k >= 1 and t.a[2].a[0] == 10 ** k:
            return k
    return None


def modpow(t, x):
    """t == x mod 10^k -> k"""
    if t.op == 'bin' and t.a[0] == 'urem' and strip_cast(t.a[1]) is x and t.a[2].op == 'c':
        k = len(str(t.a[2].a[0])) - 1
        if k >= 1 and t.a[2].a[0] == 10 ** k:
            return k
    return None


def lin_div(t, x):
    """linear form over x and its quotients -> (const, {'x':c, k: c})"""
    c, d = lin(t)
    r = {}
    for a, m in d.items():
        a = strip_cast(a)
        if a is x:
            r['x'] = r.get('x', 0) + m
            continue
        k = divpow(a, x)
        if k is not None:
            r[k] = r.get(k, 0) + m
            continue
        k = modpow(a, x)
        if k:
            r['x'] = r.get('x', 0) + m
            r[k] = r.get(k, 0) - m * 10 ** k
            continue
        if a.op == 'linx':
            # narrow arithmetic: no wrap-around, the quotients times their divisor stay below x
            w = a.a[0]
            c += sgn(a.a[1], w) * m
            bad = False
            for i in range(2, len(a.a), 2):
                q = strip_cast(a.a[i])
                k = 'x' if q is x else divpow(q, x)
                rk = modpow(q, x)
                if rk and len(a.a) == 4 and 0 <= sgn(a.a[1], w) + sgn(a.a[i + 1], w) * (10 ** rk - 1) < 1 << w:
                    r['x'] = r.get('x', 0) + sgn(a.a[i + 1], w) * m
                    r[rk] = r.get(rk, 0) - sgn(a.a[i + 1], w) * m * 10 ** rk
                    continue
                if k is None:
                    bad = True
                    break
                r[k] = r.get(k, 0) + sgn(a.a[i + 1], w) * m
            if bad:
                return None
            continue
        if a.op == 'bin' and a.a[0] in ('mul', 'sub', 'add', 'shl'):
            sub = lin_wide(a, x)
            if sub is None:
                return None
            c += sub[0] * m
            for q, v in sub[1].items():
                r[q] = r.get(q, 0) + v * m
            continue
        return None
    f = lambda v: ((v & U64) ^ (1 << 63)) - (1 << 63)
    return f(c), {k: f(v) for k, v in r.items() if f(v)}


def lin_wide(a, x):
    """linear form of a narrow arithmetic term whose mathematical value does not wrap (values below the type's range)"""
    op, p, q, w = a.a
    A, B = lin_div(strip_cast(p), x), lin_div(strip_cast(q), x)
    if A is None or B is None:
        return None
    sg = lambda v: v - (1 << w) if v >> (w - 1) & 1 and v >= 0 else v
    if op == 'mul' or op == 'shl':
        if B[1]:
            return None
        k = sg(B[0]) if op == 'mul' else 1 << B[0]
        return A[0] * k, {i: v * k for i, v in A[1].items()}
    s = 1 if op == 'add' else -1
    r = dict(A[1])
    for i, v in B[1].items():
        r[i] = r.get(i, 0) + s * v
    return A[0] + s * (sg(B[0]) if not B[1] else B[0]), r


def digit_ok(P, val, x, k, j):
    """val is the ASCII digit j (0 = lowest) of x mod 10^k"""
    v = strip_cast(val)
    ld = lin_div(v, x)
    if ld is None and v.op == 'bin' and v.a[0] == 'or' and isc(v.a[2], 48):
        ld = lin_div(strip_cast(v.a[1]), x)
        ld = (48, ld[1]) if ld and ld[0] == 0 else None
    if ld is not None:
        return j == 0 and ld[0] == 48 and ld[1] == {'x': 1, 1: -10}
    if v.op == 'load' and v.a[1] == 1:
        b, o, vs = split_ptr(v.a[0])
        if b.op != 'glob' or not vs:
            return False
        tot = (o, {})
        for t, m in vs:
            s = lin_div(t, x)
            if s is None:
                return False
            tot = (tot[0] + s[0] * m, {q: tot[1].get(q, 0) + s[1].get(q, 0) * m for q in set(tot[1]) | set(s[1])})
        # index = st * (x mod 10^k) + c
        tot = (tot[0], {q: sgn(w & U64, 64) for q, w in tot[1].items() if w & U64})
        st = tot[1].get('x')
        if not st or {q: w for q, w in tot[1].items() if w} != {'x': st, k: -st * 10 ** k}:
            return False
        g = P.globals.get(b.a[0])
        if not g or not g.get('const') or 'init' not in g:
            return False
        ex = Explorer.__new__(Explorer)
        ex.prog = P
        for r in range(10 ** k):
            c = ex.ginit(g['init'], tot[0] + st * r, 1)
            if c is None or c.op != 'c' or c.a[0] != ord(str(r // 10 ** j % 10)):
                return False
        return True
    return False


def print_rule(ctx, P, fn, bits, R):
    f = P.fn(fn)
    ps = explore(P, f, Model())
    ctx.covered(f, ps)
    back = {}
    for p in ps:
        if p.outcome == 'backedge':
            back.setdefault(p.x[0], []).append(p)
    digitloop, copyloop = {}, {}

    def at(p, pos, k):
        """value of the buffer byte k below position pos"""
        for key, sz, v in [(a, z, v) for a, (z, v, l) in p.mem.items()] + [(e.addr, e.size, e.val) for e in p.events if e.kind == 'store']:
            if sz == 1:
                if diff(key, pos) == -k:
                    return v
                if split_ptr(key)[0].op == 'alloca' and lindiff(ptr_index(key), pos) == (-k) & U64:
                    return v
        return None

    def lower(h, q):
        """1 if the loop variable is non-zero whenever the loop head is reached"""
        for p in ps:
            for e in p.events:
                if e.kind == 'loop' and e.x[0] == h:
                    v = e.x[1][q]
                    if bounds(p, v)[0] < 1 and bounds(p, strip_cast(v))[0] < 1:
                        return 0
        return 1 if all(nz(p, p.x[1][q], mk('lv', h, q)) for p in back[h]) else 0

    def nz(p, v, x):
        k = divpow(v, x)
        return bounds(p, v)[0] >= 1 or bounds(p, strip_cast(v))[0] >= 1 or (k and bounds(p, x)[0] >= 10 ** k)

    for h, bs in back.items():
        for p in bs:
            nx = p.x[1]
            px = [(q, divpow(v, mk('lv', h, q))) for q, v in nx.items()]
            px = [(q, k) for q, k in px if k]
            if len(px) == 1:
                q, k = px[0]
                pos = [r for r, v in nx.items() if r != q and lindiff(v, mk('lv', h, r)) in ((-k) & U64,) or (r != q and diff(v, mk('lv', h, r)) == -k)]
                w = p.loc.repo() if p.loc else f.where
                if ctx.ob(R, f.name, len(pos) == 1, 'a step that removes %d digits does not move the output position by %d' % (k, k), w, p):
                    x, ps_ = mk('lv', h, q), mk('lv', h, pos[0])
                    ctx.ob(R, f.name, max(bounds(p, x)[0], lower(h, q)) >= 10 ** (k - 1), 'a step that writes %d digits can produce leading zeros' % k, w, p)
                    for j in range(k):
                        v = at(p, ps_, j + 1)
                        ctx.ob(R, f.name, v is not None and digit_ok(P, v, x, k, j), 'digit %d of a group of %d is not a decimal digit of the number' % (j, k), w, p)
                    digitloop[h] = (q, pos[0])
            else:
                st = [e for e in p.events if e.kind == 'store']
                if len(st) >= 1 and strip_cast(st[-1].val).op == 'load':
                    copyloop.setdefault(h, []).append((p, st[-1]))
    n = 0
    for p in ps:
        if p.outcome != 'ret':
            continue
        w = p.loc.repo() if p.loc else f.where
        z = p.truth(cmp('eq', ARG0, C(0, bits), bits))
        loops = [e for e in p.events if e.kind == 'loop']
        if not [l for l in loops if l.x[0] in digitloop]:
            st = [e for e in p.events if e.kind == 'store']
            one = len(st) == 1 and st[0].addr is ARG1 and isc(p.ret, 1)
            small = bounds(p, ARG0, 0, (1 << bits) - 1)
            ok = one and ((z and isc(st[0].val, 48)) or (small[1] <= 9 and digit1(st[0].val, ARG0)))
            ctx.ob(R, f.name, ok, 'number is not printed as its digits', w, p)
            n += 1
            continue
        x, pos, end = ARG0, None, None
        ok = True
        cp = None
        for l in loops:
            h = l.x[0]
            if h in digitloop:
                q, r = digitloop[h]
                ok = ok and strip_cast(l.x[1][q]) is x
                if pos is None:
                    end = l.x[1][r]
                else:
                    ok = ok and l.x[1][r] is pos
                x, pos = mk('lv', h, q), mk('lv', h, r)
            else:
                cp = l
        if not ctx.ob(R, f.name, ok and z is False, 'the number is not processed from its full value on', w, p):
            continue
        lo, hi = bounds(p, x, 0, (1 << bits) - 1)
        lo = max(lo, lower(x.a[0], x.a[1]))
        qs = [p] + [q for q in ps if q.outcome == 'backedge' and cp is not None and q.x[0] == cp.x[0] and q.flist[:cp.fpos] == p.flist[:cp.fpos]]
        k = 0
        while k < 20 and any(at(q, pos, k + 1) is not None for q in qs):
            k += 1
        ok = True
        for j in range(k):
            v = next(at(q, pos, j + 1) for q in qs if at(q, pos, j + 1) is not None)
            ok = ok and (digit_ok(P, v, x, k, j) or (k == 1 and hi <= 9 and digit1(v, x)))
        if k == 0:
            ok = hi == 0
        else:
            ok = ok and lo >= 10 ** (k - 1) and (hi < 10 ** k or any(divpow(t, x) == k and bounds(p, t)[1] == 0 for a, _ in p.flist for t in subterms(a) if t.op == 'bin'))
        ctx.ob(R, f.name, ok, 'the remaining leading digits are lost or wrong', w, p)
        fin = lambda n: binop('add', pos, C(-n, 64), 64) if split_ptr(end)[0].op != 'alloca' else ptr(pos, -n)
        fin = fin(k)
        # copy [fin, end) to dest
        mc = [e for e in p.events if e.kind == 'call' and e.name in ('memcpy', 'memmove')]
        length = lin(binop('sub', end, fin, 64))
        ok = False
        if cp is not None and cp.x[0] in copyloop:
            h = cp.x[0]
            ini = {mk('lv', h, r): v for r, v in cp.x[1].items()}
            ok = True
            for q, e in [z for z in copyloop[h] if z[0] in qs]:
                nxt = {mk('lv', h, r): v for r, v in q.x[1].items()}
                v = strip_cast(e.val)
                ok = ok and v.op == 'load' and v.a[1] == 1
                if not ok:
                    break
                S0, D0 = subst(v.a[0], ini.get), subst(e.addr, ini.get)
                S1, D1 = subst(v.a[0], nxt.get), subst(e.addr, nxt.get)
                src = fin if split_ptr(end)[0].op == 'alloca' else ptr(split_ptr(v.a[0])[0], 0, ((fin, 1),))
                eo = end if split_ptr(end)[0].op == 'alloca' else ptr(split_ptr(v.a[0])[0], 0, ((end, 1),))
                ok = diff(S0, src) == 0 and D0 is ARG1 and diff(S1, v.a[0]) == 1 and diff(D1, e.addr) == 1
                rest = lin(binop('sub', eo, v.a[0], 64))
                ex = False
                for atom, val in p.flist:
                    if atom.op == 'atom' and atom.a[0] in ('ult', 'slt', 'eq') and val == (atom.a[0] == 'eq'):
                        ex = ex or lin(binop('sub', atom.a[2], atom.a[1], 64)) == rest or (atom.a[0] == 'eq' and lin(binop('sub', atom.a[1], atom.a[2], 64)) == rest)
                ok = ok and ex
        elif len(mc) == 1:
            ok = mc[0].args[0] is ARG1 and lin(mc[0].args[2]) == length and (diff(mc[0].args[1], fin) == 0 or split_ptr(mc[0].args[1])[0].op == 'alloca' and lindiff(ptr_index(mc[0].args[1]), fin) == 0)
        ctx.ob(R, f.name, ok, 'the digits are not copied completely and in order', w, p)
        ctx.ob(R, f.name, lin(p.ret) == length, 'the reported length is not the number of digits', w, p)
        n += 1
    if not n or not digitloop:
        raise AnalysisError('%s: printing not recognised' % fn)


def ptr_index(key):
    b, o, vs = split_ptr(key)
    r = C(o, 64)
    for t, m in vs:
        r = binop('add', r, t if m == 1 else binop('mul', t, C(m, 64), 64), 64)
    return r


def digit1(v, x):
    v = strip_cast(v)
    if v.op == 'bin' and v.a[0] == 'or' and isc(v.a[2], 48):
        return strip_cast(v.a[1]) is x
    c, d = lin(v)
    w = (1 << 8) - 1
    d = {strip_cast(a): m for a, m in d.items()}
    return c & w == 48 and d == {x: 1}


def step1(v, lv):
    return lindiff(v, lv) == 1 or diff(v, lv) == 1


def cursor_load(v, s):
    v = strip_cast(v)
    return v.op == 'load' and v.a[1] == 1 and (v.a[0] is s or (split_ptr(v.a[0])[0].op == 'alloca' and lin(ptr_index(v.a[0])) == lin(s)))


def S10(ctx):
    P = view('drv/conv.cpp', ['drv_.*', 'prb_.*'], [r'boost::system::.*'])
    R1, R2, R3 = 'text-to-number', 'number-to-text', 'reserved-space'
    ctx.rule(R1, 'conversion succeeds only on paths where the text is known to consist of 1..20 digits, the result is the decimal polynomial of its bytes (mod 2^64) and the facts '
                 'of the path bound its value by the type\'s maximum; it fails only on paths whose facts contradict that')
    ctx.rule(R2, 'each printing step divides by 10^k, writes the k decimal digits of the remainder below the previous ones, never a leading zero, and all digits are copied in order')
    ctx.rule(R3, 'the space reserved for printing an N-bit number holds its longest decimal text')
    for bits in (16, 32, 64):
        Conv(ctx, P, 'drv_parse_%d' % bits, bits, R1).check()
        Conv(ctx, P, 'drv_parse_ec_%d' % bits, bits, R1).check()
        print_rule(ctx, P, 'drv_print_%d' % bits, bits, R2)
        ps = explore(P, P.fn('prb_len_%d' % bits), Model())
        n = ps[0].ret
        ctx.ob(R3, 'numeric<uint%d>' % bits, isc(n) and n.a[0] >= len(str((1 << bits) - 1)), 'max_str_length = %s is too small' % show(n), 'src/cachelot/string_conv.h')
    n = explore(P, P.fn('prb_abuf'), Model())[0].ret
    ctx.ob(R3, 'AsciiIntegerBuffer', isc(n) and n.a[0] >= 20, 'the integer buffer is too small', 'src/cachelot/string_conv.h')
    ctx.assume('std::isdigit follows the "C" locale (the compiler folds it to a range test)')
