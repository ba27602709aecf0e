"""Start-up code of the server (src/server/main.cpp): P01 configuration, P02 listening and signals.

main() is inlined completely; boost, the standard library and the cachelot components stay calls. Every path is
enumerated; values are traced from the option they come from to the component they configure."""
from engine import *
from common import view
from cacheview import strip

KEEP = [r'boost::.*', r'std::.*', r'cachelot::cache::.*', r'cachelot::net::.*', r'cachelot::memcached::.*', r'cachelot::PrintStats', r'operator.*',
        r'.*invalid_configuration::.*', r'.*\)::validate']
PO = 'boost::program_options::'
CREATE = 'cachelot::cache::Cache::Create'
STREAM, DGRAM = 'cachelot::net::stream_server::start', 'cachelot::net::datagram_server::start'
THROWING = (CREATE, STREAM, DGRAM, PO + 'parse_command_line', PO + 'store', PO + 'notify')
RUN = ('boost::asio::io_context::run',)
ANY = ('boost::asio::ip::address_v4::any', 'boost::asio::ip::tcp::v4', 'boost::asio::ip::udp::v4')
NAMES = {'help': 'h', 'version': 'V', 'tcp-port': 'p', 'udp-port': 'U', 'socket': 's', 'oum-error': 'M', 'memory': 'm', 'page': 'P', 'hashtable': 'H'}
UNITS = {ord('K'): 1 << 10, ord('M'): 1 << 20, ord('G'): 1 << 30}


class _All:
    def __contains__(self, n):
        return True


class _NoThrow:
    def __contains__(self, n):
        return n not in THROWING and not (n or '').startswith('__cxa')


def opaque(nothrow=None):
    m = Model()
    m.noclobber = _All()
    if nothrow is not None:
        m.nothrow = nothrow
    return m


class MainView:
    def __init__(self):
        self.prog = view('drv/main.cpp', ['cachelotd_main', 'prb_.*'], KEEP)
        self.off = {}
        for n in ('memory', 'page', 'hashtable', 'tcp', 'udp', 'evictions'):
            ps = explore(self.prog, 'prb_' + n, Model())
            ls = [t for t in subterms(ps[0].ret) if t.op == 'load']
            b, o, v = split_ptr(ls[0].a[0])
            self.glob = b
            self.off[n] = o
        self.fn = self.prog.fn('cachelotd_main')
        self.paths = [MP(self, p) for p in explore(self.prog, 'cachelotd_main', opaque(_NoThrow()))]

    def text(self, t):
        if not isinstance(t, T):
            return None
        b, o, v = split_ptr(t)
        g = self.prog.globals.get(b.a[0]) if b.op == 'glob' else None
        i = (g or {}).get('init') or {}
        if i.get('k') == 'str' and not v:
            return i['v'][o:].split('\0')[0]
        return None


_mv = None


def mainview():
    global _mv
    if _mv is None:
        _mv = MainView()
    return _mv


def uncast(t):
    while t.op == 'cast':
        t = t.a[1]
    return t


class MP:
    """one path of main: where option values come from and go to"""

    def __init__(self, mv, p):
        self.mv, self.p = mv, p
        self.asval, self.idx, self.counts = {}, {}, []
        strs = {}
        self.assign = []
        for e in p.events:
            if e.kind != 'call' or not e.name:
                continue
            a = e.args
            if e.name.startswith('std::__cxx11::basic_string::basic_string') and len(a) > 1 and mv.text(a[1]) is not None:
                strs[a[0]] = mv.text(a[1])
            elif e.name.startswith('std::map::count') and len(a) == 2 and a[1] in strs:
                self.counts.append((strs[a[1]], e.res, True))
            elif e.name == PO + 'variables_map::operator[]' and a[-1] in strs:
                self.idx[e.res] = strs[a[-1]]
            elif e.name == PO + 'variable_value::as' and a[0] in self.idx:
                self.asval[e.res] = self.idx[a[0]]
            elif e.name == PO + 'variable_value::empty' and a[0] in self.idx:
                self.counts.append((self.idx[a[0]], e.res, False))
            elif e.name.startswith('std::__cxx11::basic_string::operator=') and len(a) == 2:
                self.assign.append(e)
        self.given, self.odd = {}, False
        for o, r, isnum in self.counts:
            for at, v in p.flist:
                g = None
                if at.op == 'atom' and at.a[0] == 'eq' and isc(at.a[2], 0) and uncast(at.a[1]) is r:
                    g = (not v) if isnum else v
                elif at.op == 'atom' and at.a[0] == 'eq' and isc(at.a[2], 1) and uncast(at.a[1]) is r and isnum and v:
                    g = True
                elif at.op == 'atom' and at.a[0] == 'ult' and isc(at.a[1], 0) and uncast(at.a[2]) is r:
                    g = v
                elif at is r or (at.op == 'atom' and at.a[0] == 'bool' and at.a[1] is r):
                    g = v if isnum else not v
                if g is not None:
                    if self.given.setdefault(o, g) != g:
                        self.odd = True

    def source(self, t):
        """('option', name) / ('setting', offset) / None"""
        t = uncast(t)
        if t.op != 'load':
            return None
        b, o, v = split_ptr(t.a[0])
        if t.a[0] in self.asval:
            return ('option', self.asval[t.a[0]])
        if b in self.asval and not v:
            return ('option', self.asval[b])
        if b is self.mv.glob and not v:
            return ('setting', o)
        return None

    def wants(self, opt, off):
        return ('option', opt) if self.given.get(opt) else ('setting', off)

    def calls(self, n):
        return [e for e in self.p.events if e.kind == 'call' and e.name == n]

    def where(self, e):
        return e.loc.repo() if e.loc else 'src/server/main.cpp'

    @property
    def failed(self):
        return any(e.kind == 'call' and (e.threw or e.name == '__cxa_throw') for e in self.p.events)

    def zero(self, want):
        """is the value with that source known to be zero on this path"""
        for at, v in self.p.flist:
            if at.op == 'atom' and at.a[0] == 'eq' and isc(at.a[2], 0) and self.source(at.a[1]) == want:
                return v
            if at.op == 'atom' and at.a[0] == 'ult' and isc(at.a[1], 0) and self.source(at.a[2]) == want:
                return not v
            if at.op == 'atom' and at.a[0] == 'ult' and isc(at.a[2], 1) and self.source(at.a[1]) == want:
                return v
        return None


def boolval(t, leaf, x):
    """value of a boolean term when leaf(load) has value x; None if it depends on something else"""
    if isc(t):
        return t.a[0]
    if t.op == 'load':
        return x if leaf(t) else None
    if t.op == 'cast':
        v = boolval(t.a[1], leaf, x)
        return v
    if t.op == 'not':
        v = boolval(t.a[0], leaf, x)
        return None if v is None else 1 - (v & 1)
    if t.op == 'bin' and t.a[0] in ('xor', 'and', 'or'):
        a, b = boolval(t.a[1], leaf, x), boolval(t.a[2], leaf, x)
        if a is None or b is None:
            return None
        return {'xor': a ^ b, 'and': a & b, 'or': a | b}[t.a[0]]
    if t.op == 'atom' and t.a[0] == 'eq':
        a, b = boolval(t.a[1], leaf, x), boolval(t.a[2], leaf, x)
        return None if a is None or b is None else int(a == b)
    if t.op == 'atom' and t.a[0] == 'bool':
        return boolval(t.a[1], leaf, x)
    if t.op == 'sel':
        c = boolval(t.a[0], leaf, x)
        return None if c is None else boolval(t.a[1] if c else t.a[2], leaf, x)
    return None


def P01(ctx):
    R1, R2, R3, R4, R5 = 'option-names', 'options-honoured', 'memory-units', 'unusable-amounts', 'failure-status'
    ctx.rule(R1, 'every documented option is registered under its long and its short name')
    ctx.rule(R2, 'the cache is created with the values of the options memory, page, hashtable and oum-error when given and with the default setting otherwise')
    ctx.rule(R3, 'a memory amount is the number in front of the suffix times 2^10, 2^20 or 2^30 for K, M, G, and times 2^20 without suffix')
    ctx.rule(R4, 'amounts that are no number, zero, no power of two, or do not fit 64 bits are refused')
    ctx.rule(R5, 'a refused configuration ends the program with a failure status, without an uncaught exception and without a cache')
    ctx.assume('boost::program_options stores each option value under its long name')
    mv = mainview()
    ctx.covered(mv.fn, [m.p for m in mv.paths])
    F = 'main'
    seen = set()
    made = 0
    for m in mv.paths:
        if m.odd:
            continue
        p = m.p
        cr = m.calls(CREATE)
        if m.failed or p.outcome == 'unwind':
            ok = p.outcome == 'ret' and p.ret is not None and isc(p.ret) and p.ret.a[0] != 0
            ctx.ob(R5, F, ok, 'a failure ends in %s %s' % (p.outcome, show(p.ret) if isinstance(p.ret, T) else ''), 'src/server/main.cpp', p)
        thrown = [e for e in p.events if e.kind == 'call' and e.name == '__cxa_throw']
        if thrown:
            ctx.ob(R5, F, not [e for e in cr if e.n > thrown[0].n], 'a cache is created although the configuration was refused', m.where(thrown[0]), p)
        if p.outcome not in ('ret', 'backedge') or not cr:
            continue
        made += 1
        ctx.ob(R2, F, len(cr) == 1, '%d caches are created' % len(cr), m.where(cr[0]), p)
        a = cr[0].args[-4:]
        reg = {}
        for e in p.events:
            if e.kind == 'call' and e.name.startswith(PO + 'options_description_easy_init::operator()') and len(e.args) > 1:
                t = mv.text(e.args[1])
                if t:
                    reg[t.split(',')[0]] = (t.split(',') + [''])[1]
        key = tuple(sorted(reg.items()))
        if key not in seen:
            seen.add(key)
            for n, s in NAMES.items():
                ctx.ob(R1, F, reg.get(n) == s, 'option --%s has the short name %s' % (n, reg.get(n)), 'src/server/main.cpp', p)
        for t, o, s in ((a[0], 'memory', 'memory'), (a[1], 'page', 'page'), (a[2], 'hashtable', 'hashtable')):
            got = m.source(t)
            w = m.wants(o, mv.off[s])
            if o not in m.given:
                ctx.ob(R2, F, False, 'option --%s is ignored' % o, m.where(cr[0]), p)
                continue
            ctx.ob(R2, F, got == w, 'option --%s (%s): the cache gets %s' % (o, 'given' if m.given[o] else 'not given', show(t)[:120]), m.where(cr[0]), p)

        def oum(l):
            return m.source(l) == ('option', 'oum-error')
        for x in (0, 1):
            if any(boolval(at, oum, x) not in (None, int(v)) for at, v in p.flist):
                continue
            ctx.ob(R2, F, boolval(a[3], oum, x) == 1 - x, 'evictions with --oum-error=%d: %s' % (x, boolval(a[3], oum, x)), m.where(cr[0]), p)
        for w in ('help', 'version'):
            ctx.ob(R2, F, m.given.get(w) is not True, 'the server starts although --%s was given' % w, m.where(cr[0]), p)
    ctx.ob(R2, F, made > 0, '%d paths create the cache' % made, 'src/server/main.cpp')
    memory_amounts(ctx, mv, R3, R4)


def memory_amounts(ctx, mv, R3, R4):
    vs = [f for f in mv.prog.fns if f.name.endswith('::validate') and not f.name.startswith('boost::') and len(f.args) >= 2]
    if not vs:
        raise AnalysisError('the validator of memory amounts was not found')
    for f in vs:
        F = 'validate'
        ps = explore(mv.prog, f, opaque())
        ctx.covered(f, ps)
        units = set()
        rets = 0
        for p in ps:
            if p.outcome != 'ret':
                continue
            rets += 1
            ev = [e for e in p.events if e.kind == 'call']
            asg = [e for e in ev if e.name.startswith('boost::any::operator=') or (e.name.startswith('boost::any::any') and e.args and e.args[0] is mk('arg', 0))]
            src = [e for e in ev if e.name.startswith('boost::lexical_cast')]
            if not asg or len(src) != 1:
                ctx.ob(R3, F, False, 'accepts an amount without converting it', 'src/server/main.cpp', p)
                continue
            w = src[0].loc.repo() if src[0].loc else 'src/server/main.cpp'
            # value stored in the result
            val = None
            for e in ev:
                if e.name.startswith(('boost::any::any', 'boost::any::operator=')):
                    for k, s in e.snap.items():
                        if k > 0 and 0 in s:
                            val = s[0]
            # facts on the last character
            suffix, known = None, set()
            for at, v in p.flist:
                if at.op == 'atom' and at.a[0] == 'eq' and isc(at.a[2]) and uncast(at.a[1]).op == 'load' and last_char(uncast(at.a[1]), ev):
                    if v:
                        suffix = at.a[2].a[0] & 255
                    else:
                        known.add(at.a[2].a[0] & 255)
            pops = [e for e in ev if e.name.startswith('std::__cxx11::basic_string::') and e.name.split('::')[-1] in ('pop_back', 'resize', 'erase') and e.n < src[0].n]
            if suffix in UNITS:
                unit = UNITS[suffix]
                ctx.ob(R3, F, len(pops) == 1, 'the suffix %s is %sremoved before the number is converted' % (chr(suffix), '' if pops else 'not '), w, p)
            else:
                unit = 1 << 20
                ctx.ob(R3, F, not pops and set(UNITS) <= known, 'an amount without suffix is taken whole', w, p)
            units.add(suffix)
            n = src[0].res
            want = binop('mul', n, C(unit, 64), 64)
            ok = val is not None and (val is want or scaled(val, n) == unit)
            ctx.ob(R3, F, ok, 'suffix %s: the amount is %s' % (chr(suffix) if suffix else 'none', show(val) if val is not None else 'unknown'), w, p)
            # refusals
            top = (1 << 64) // unit
            ctx.ob(R4, F, limited(p, n, top - 1, unit, val), 'suffix %s: an amount that does not fit 64 bits is accepted' % (chr(suffix) if suffix else 'none'), w, p)
            z = any(at.op == 'atom' and at.a[0] == 'eq' and isc(at.a[2], 0) and (at.a[1] is val or at.a[1] is n) and v is False for at, v in p.flist) or \
                any(at.op == 'atom' and at.a[0] == 'ult' and isc(at.a[1], 0) and (at.a[2] is val or at.a[2] is n) and v for at, v in p.flist)
            pw = any(pow2_atom(at, v, (val, n)) for at, v in p.flist)
            exact = any(at.op == 'atom' and at.a[0] == 'eq' and isc(at.a[2], 1) and v and at.a[1].op == 'intr' and 'ctpop' in at.a[1].a[0] and at.a[1].a[1] in (val, n) for at, v in p.flist)
            ctx.ob(R4, F, z or exact, 'a zero amount is accepted', w, p)
            ctx.ob(R4, F, pw or exact, 'an amount that is no power of two is accepted', w, p)
        ctx.ob(R3, F, rets > 0 and {ord('K'), ord('M'), ord('G')} <= units, 'suffixes K, M and G are understood', 'src/server/main.cpp')


def last_char(l, ev):
    """the load reads the last character of a string"""
    for e in ev:
        if e.res is not None and split_ptr(l.a[0])[0] is e.res:
            n = e.name.split('::')[-1]
            if n == 'back':
                return True
            if n in ('operator[]', 'at'):
                return any(x.res is not None and lin_is(e.args[1], x.res, -1) for x in ev if x.name.split('::')[-1] in ('length', 'size'))
            if n in ('rbegin', 'operator*'):
                return True
    return False


def lin_is(t, b, k):
    return t is binop('add', b, C(k & ((1 << 64) - 1), 64), 64)


def scaled(t, n):
    """factor f with t == n * f"""
    if t is n:
        return 1
    if t.op == 'bin' and t.a[0] == 'mul' and isc(t.a[2]):
        f = scaled(t.a[1], n)
        return None if f is None else f * t.a[2].a[0]
    if t.op == 'ext' and t.a[1] == 0 and umul(t.a[0]):
        x, y = umul(t.a[0])
        for a, b in ((x, y), (y, x)):
            if isc(a):
                f = scaled(b, n)
                return None if f is None else f * a.a[0]
    if t.op == 'bin' and t.a[0] == 'shl' and isc(t.a[2]):
        f = scaled(t.a[1], n)
        return None if f is None else f << t.a[2].a[0]
    return None


def umul(t):
    if t.op == 'intr' and 'umul.with.overflow' in t.a[0]:
        return t.a[1], t.a[2]
    return None


def constval(t):
    """constant value of a term over std::numeric_limits"""
    if isc(t):
        return t.a[0]
    if t.op == 'callres' and 'numeric_limits' in str(t.a[1]) and str(t.a[1]).endswith('max'):
        return (1 << 64) - 1
    if t.op == 'bin':
        a, b = constval(t.a[1]), constval(t.a[2])
        if a is None or b is None:
            return None
        if t.a[0] == 'udiv' and b:
            return a // b
        if t.a[0] == 'lshr':
            return a >> b
        if t.a[0] == 'sub':
            return (a - b) % (1 << 64)
        if t.a[0] == 'add':
            return (a + b) % (1 << 64)
    return None


def limited(p, n, top, unit, val):
    for at, v in p.flist:
        x = at.a[1] if at.op == 'atom' and at.a[0] == 'bool' else at
        if x.op == 'ext' and x.a[1] == 1 and v is False and umul(x.a[0]) and val is not None and val.op == 'ext' and val.a[0] is x.a[0]:
            return True
        if at.op == 'atom' and at.a[0] == 'ult':
            a, b = at.a[1], at.a[2]
            if b is n and v is False and constval(a) is not None and constval(a) <= top:
                return True       # not (c < n)
            if a is n and v is True and constval(b) is not None and constval(b) <= top + 1:
                return True       # n < c
        # value / unit == n
        if at.op == 'atom' and at.a[0] == 'eq' and v:
            for a, b in ((at.a[1], at.a[2]), (at.a[2], at.a[1])):
                if b is n and val is not None and a.op == 'bin' and ((a.a[0] == 'udiv' and isc(a.a[2], unit)) or (a.a[0] == 'lshr' and isc(a.a[2]) and 1 << a.a[2].a[0] == unit)) and a.a[1] is val:
                    return True
    return False


def pow2_atom(at, v, vals):
    if at.op != 'atom':
        return False
    if at.a[0] == 'ult' and isc(at.a[2], 2) and v and at.a[1].op == 'intr' and 'ctpop' in at.a[1].a[0] and at.a[1].a[1] in vals:
        return True
    if at.a[0] == 'eq' and isc(at.a[2], 0) and v and at.a[1].op == 'bin' and at.a[1].a[0] == 'and':
        x, y = at.a[1].a[1], at.a[1].a[2]
        for a, b in ((x, y), (y, x)):
            if a in vals and b is binop('add', a, C((1 << 64) - 1, 64), 64):
                return True
    return False


def P02(ctx):
    R1, R2, R3, R4 = 'listens', 'serves', 'signals', 'exit-status'
    ctx.rule(R1, 'TCP, UDP and the unix socket are listened on exactly once when their port is not zero or their path not empty, else not at all; on all interfaces, at the port or path given by the option or the setting')
    ctx.rule(R2, 'all listeners use the one cache created and the one event loop that is run after they were started')
    ctx.rule(R3, 'the signal handler is installed before the event loop runs, stops it on TERM, INT and QUIT, prints statistics on USR1 and then waits for the next signal')
    ctx.rule(R4, 'the program ends only when the event loop was stopped (status 0) or after a failure (status not 0)')
    ctx.assume('boost::asio::signal_set calls a handler once per async_wait')
    mv = mainview()
    ctx.covered(mv.fn, [m.p for m in mv.paths])
    F = 'main'
    n = 0
    # loops that run the event loop
    runloops = {m.p.x[0] for m in mv.paths if m.p.outcome == 'backedge' and any(e.kind == 'call' and e.name in RUN for e in m.p.events)}
    listed = any(e.kind == 'call' and e.name == 'boost::asio::basic_signal_set::add' and not isc(e.args[1]) for m in mv.paths for e in m.p.events)
    loopobj = {e.args[0] for m in mv.paths for e in m.p.events if e.kind == 'call' and e.name in RUN}
    for m in mv.paths:
        p = m.p
        cr = m.calls(CREATE)
        if m.odd or m.failed or p.outcome not in ('ret', 'backedge'):
            continue
        if not cr:
            ok = m.given.get('help') or m.given.get('version')
            ctx.ob(R4, F, bool(ok), 'the program ends without creating a cache', 'src/server/main.cpp', p)
            continue
        n += 1
        ep, anyaddr = {}, set()
        runs = [e for e in p.events if (e.kind == 'call' and e.name in RUN) or (e.kind == 'loop' and e.x[0] in runloops)]
        if p.outcome == 'backedge' and not runs:
            continue        # a round of another loop
        starts = []
        for e in p.events:
            if e.kind != 'call':
                continue
            if e.name in ANY and e.args:
                anyaddr.add(e.args[0])
            elif e.name in ANY and e.res is not None:
                anyaddr.add(e.res)
            elif e.name == 'boost::asio::ip::address::address' and len(e.args) == 2 and e.args[1] in anyaddr:
                anyaddr.add(e.args[0])
            elif e.name in ('boost::asio::ip::basic_endpoint::basic_endpoint', 'boost::asio::local::basic_endpoint::basic_endpoint'):
                if len(e.args) == 2 and e.args[1] in ep:
                    ep[e.args[0]] = ep[e.args[1]]
                elif 'local' in e.name:
                    ep[e.args[0]] = ('unix', e.args[1])
                else:
                    ep[e.args[0]] = ('ip', e.args[-1], any(x in anyaddr or any(x is y for y in anyaddr) for x in e.args[1:-1]))
            elif e.name in (STREAM, DGRAM):
                k = [ep[x] for x in e.args[1:] if x in ep]
                starts.append((e, k[0] if k else None))
        kinds = {'tcp': [], 'udp': [], 'unix': []}
        for e, k in starts:
            if k is None:
                ctx.ob(R1, F, False, 'listens on an address that was not built from the settings', m.where(e), p)
                continue
            w = 'unix' if k[0] == 'unix' else 'udp' if e.name == DGRAM else 'tcp'
            kinds[w].append((e, k))
        for w, o in (('tcp', 'tcp-port'), ('udp', 'udp-port')):
            src = m.wants(o, mv.off[w])
            z = m.zero(src)
            if o not in m.given or z is None:
                ctx.ob(R1, F, False, 'the %s port is %s' % (w, 'not tested for zero' if o in m.given else 'never read from the command line'), 'src/server/main.cpp', p)
                continue
            ctx.ob(R1, F, len(kinds[w]) == (0 if z else 1), '%s port %s zero: %d listener(s)' % (w, 'is' if z else 'is not', len(kinds[w])), m.where(kinds[w][0][0]) if kinds[w] else 'src/server/main.cpp', p)
            for e, k in kinds[w]:
                ctx.ob(R1, F, m.source(k[1]) == src and k[2], '%s listens at port %s%s' % (w, show(k[1])[:80], '' if k[2] else ', not on all interfaces'), m.where(e), p)
        # unix socket: the string that is tested is the string that is used
        emp = None
        for e in p.events:
            if e.kind == 'call' and e.name.startswith('std::__cxx11::basic_string::') and e.name.split('::')[-1] in ('empty', 'size', 'length') and e.args and split_ptr(e.args[0])[0] is mv.glob:
                path = e.args[0]
                for at, v in p.flist:
                    if at is e.res or (at.op == 'atom' and at.a[0] == 'bool' and at.a[1] is e.res):
                        emp = v
                    elif at.op == 'atom' and at.a[0] == 'eq' and isc(at.a[2], 0) and uncast(at.a[1]) is e.res:
                        emp = (not v) if e.name.endswith('empty') else v
                if emp is not None:
                    if m.given.get('socket'):
                        ok = any(a.n < e.n and a.args[0] is path and m.asval.get(a.args[1]) == 'socket' for a in m.assign)
                        ctx.ob(R1, F, ok, 'the socket path given is %sused' % ('' if ok else 'not '), m.where(e), p)
                    for s, k in kinds['unix']:
                        ctx.ob(R1, F, k[1] is path, 'the unix socket listens at the configured path', m.where(s), p)
                    break
        if emp is None or 'socket' not in m.given:
            ctx.ob(R1, F, False, 'the socket path is %s' % ('never read from the command line' if 'socket' not in m.given else 'not tested'), 'src/server/main.cpp', p)
        else:
            ctx.ob(R1, F, len(kinds['unix']) == (0 if emp else 1), 'socket path %s empty: %d listener(s)' % ('is' if emp else 'is not', len(kinds['unix'])), 'src/server/main.cpp', p)
        # one cache, one loop
        cache = cr[0].args[0]
        ok = bool(runs) and all(e.n < runs[0].n for e, k in starts)
        ctx.ob(R2, F, ok, 'the event loop %s' % ('runs after all listeners were started' if ok else 'does not run after the listeners were started'), m.where(runs[0]) if runs else 'src/server/main.cpp', p)
        for e in p.events:
            if e.kind == 'call' and e.name in ('cachelot::memcached::StreamServer::StreamServer', 'cachelot::memcached::UdpServer::UdpServer') and len(e.args) == 3:
                ctx.ob(R2, F, e.args[1] is cache and loopobj == {e.args[2]}, 'a listener uses another cache or event loop', m.where(e), p)
        # signals
        sets, waits = {}, []
        for e in p.events:
            if e.kind != 'call':
                continue
            if e.name == 'boost::asio::basic_signal_set::basic_signal_set':
                sets[e.args[0]] = {x.a[0] for x in e.args[2:] if isc(x)}
            elif e.name == 'boost::asio::basic_signal_set::add' and e.args[0] in sets and isc(e.args[1]):
                sets[e.args[0]].add(e.args[1].a[0])
            elif e.name == 'boost::asio::basic_signal_set::async_wait':
                waits.append(e)
        got = set()
        for e in waits:
            if runs and e.n < runs[0].n:
                got |= sets.get(e.args[0], set())
        # signals added in a loop over a list: which ones is not decided here
        ctx.ob(R3, F, {15, 2, 3, 10} <= got or (listed and bool(waits)), 'signals waited for: %s' % sorted(got), m.where(waits[0]) if waits else 'src/server/main.cpp', p)
        if p.outcome == 'ret':
            st = [e for e in p.events if e.kind == 'call' and e.name == 'boost::asio::io_context::stopped']
            ended = bool(st) and any(at is st[-1].res or (at.op == 'atom' and at.a[1] is st[-1].res) for at, v in p.flist)
            stopped = any((at is st[-1].res and v) or (at.op == 'atom' and at.a[0] == 'bool' and at.a[1] is st[-1].res and v) or
                          (at.op == 'atom' and at.a[0] == 'eq' and isc(at.a[2], 0) and uncast(at.a[1]) is st[-1].res and not v) for at, v in p.flist) if st else False
            ctx.ob(R4, F, isc(p.ret, 0) and ((ended and stopped) or (not st and bool(runs))), 'ends with status %s while the event loop is %sstopped' % (show(p.ret), '' if stopped else 'not '), 'src/server/main.cpp', p)
    ctx.ob(R1, F, n > 0, '%d start-up paths' % n, 'src/server/main.cpp')
    # the handler
    hs = [f for f in mv.prog.fns if f.name != 'cachelotd_main' and not f.name.startswith('cachelot::') and any(i.get('fn') in ('cachelot::PrintStats', 'boost::asio::io_context::stop') for i in f.calls())]
    hs = [f for f in hs if not f.name.startswith(('boost::asio::io_context::', 'boost::asio::detail::scheduler'))]
    stops = prints = 0
    for f in hs:
        ps = explore(mv.prog, f, opaque(_All()))
        ctx.covered(f, ps)
        both = any(i.get('fn') == 'cachelot::PrintStats' for i in f.calls()) and any(i.get('fn') == 'boost::asio::io_context::stop' for i in f.calls())
        for p in ps:
            ev = [e for e in p.events if e.kind == 'call']
            st = [e for e in ev if e.name == 'boost::asio::io_context::stop']
            pr = [e for e in ev if e.name == 'cachelot::PrintStats']
            aw = [e for e in ev if e.name == 'boost::asio::basic_signal_set::async_wait']
            sig = None
            no = set()
            err = None
            for at, v in p.flist:
                if at.op == 'atom' and at.a[0] == 'eq' and isc(at.a[2]) and at.a[2].a[0] in (2, 3, 10, 15):
                    if v:
                        sig = at.a[2].a[0]
                    else:
                        no.add(at.a[2].a[0])
                elif any('error_code' in str(x.a[1]) for x in subterms(at) if x.op == 'callres'):
                    err = v
            w = (ev[0].loc.repo() if ev and ev[0].loc else 'src/server/main.cpp')
            if pr:
                prints += 1
                ctx.ob(R3, 'signal handler', not st and bool(aw), 'printing statistics %s' % ('stops the server' if st else 'is not followed by waiting for the next signal' if not aw else 'keeps the server running'), w, p)
                ctx.ob(R3, 'signal handler', not both or sig == 10, 'statistics are printed for signal %s' % sig, w, p)
            elif st:
                stops += 1
                ctx.ob(R3, 'signal handler', sig != 10 and (not both or 10 in no or sig is not None), 'the server stops on signal %s' % (sig or 'other than USR1'), w, p)
            else:
                ctx.ob(R3, 'signal handler', err is not None and sig is None and not no, 'signal %s is ignored' % (sig if sig else 'other than %s' % sorted(no)), w, p)
    ctx.ob(R3, 'signal handler', stops > 0, 'a handler stops the event loop', 'src/server/main.cpp')
    ctx.ob(R3, 'signal handler', prints > 0, 'a handler prints the statistics', 'src/server/main.cpp')
