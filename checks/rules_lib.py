"""L01, L02, L03: C interface and configuration."""
import re
from rules_server import *
from rules_cache import ht_fields
from rules_net import eq64, sel_facts
from escape import Escape, ABORT

CKEEP = [r'cachelot::cache::Cache::.*', r'cachelot::cache::Item::(ttl|set_ttl|assign_value)', r'boost::system::.*', r'std::.*basic_string.*', r'.*fnv1a_hasher.*', r'std::function::.*', r'std::_Function.*']
CN = 'cachelot::cache::Cache::'
A = [mk('arg', i) for i in range(8)]


class Api:
    def __init__(self):
        P = self.prog = view('src/cachelot/c_api.cpp', ['cachelot_.*'], CKEEP)
        self.model = Model(nothrow=[CN + 'destroy_item', 'cachelot_t::~cachelot_t', 'cachelot::cache::Item::ttl', 'cachelot::cache::Item::set_ttl', 'cachelot::cache::Item::assign_value',
                                    'std::function::operator=', '__cxa_end_catch', '__cxa_begin_catch'])
        self.err = P.fields('cachelot_error_t')
        self.key = P.fields('cachelot_item_key_t')
        self.opt = P.fields('cachelot_options_t')
        self.item = P.fields('cachelot::cache::Item')
        self.item_size = P.sizeof('cachelot::cache::Item')
        self.fns = sorted((f for f in P.fns if f.name.startswith('cachelot_') and '::' not in f.name and f.j.get('file', '').endswith('c_api.cpp')), key=lambda f: f.name)
        self.cache = {}

    def paths(self, f):
        if f.name not in self.cache:
            self.cache[f.name] = explore(self.prog, f, self.model)
        return self.cache[f.name]


_api = None


def api():
    global _api
    if _api is None:
        _api = Api()
    return _api


# name -> (index of the error argument, failure value)
ERRARG = {'cachelot_init': 1, 'cachelot_create_item_raw': 4, 'cachelot_set': 2, 'cachelot_get_unsafe': 2, 'cachelot_add': 2, 'cachelot_replace': 2, 'cachelot_append': 2, 'cachelot_prepend': 2,
          'cachelot_delete': 2, 'cachelot_touch': 3, 'cachelot_incr': 4, 'cachelot_decr': 4, 'cachelot_flush_all': 1}
ALL = list(ERRARG) + ['cachelot_destroy', 'cachelot_destroy_item', 'cachelot_item_get_ttl_seconds', 'cachelot_item_set_ttl_seconds', 'cachelot_item_get_key', 'cachelot_item_get_keylen',
                      'cachelot_item_get_value', 'cachelot_item_get_valuelen', 'cachelot_on_eviction_callback', 'cachelot_hash', 'cachelot_version']
COPY = ('strncpy', 'memcpy', 'memmove', 'strlcpy', 'snprintf')


def pwhere(p, f):
    for e in reversed(p.events):
        if e.loc is not None and e.loc.repo().startswith('src/'):
            return e.loc.repo()
    return f.where


def describing(p):
    """the path fails while the description of an error is produced (host out of memory)"""
    for e in p.events:
        if e.kind == 'call' and e.threw and (not e.name or e.name.startswith(('boost::system', 'std::'))):
            return True
    return False


# descriptions of errors (see the assumptions of L01)
DESCR = re.compile(r'(boost::system::|std::).*::(message|what|name|to_string)(\[abi:cxx11\])?$|boost::system::detail::.*message.*')


def api_ext(f, i):
    nm = i.get('fn', '')
    if not nm:
        # error category / exception description / eviction callback
        return set()
    if DESCR.match(nm):
        return set()
    if nm.startswith('operator new'):
        return {'std::bad_alloc'}
    if nm.startswith(('std::__cxx11::basic_string', 'std::allocator')) or nm.startswith('std::') and nm.split('::')[-1].endswith(('_error', '_argument')):
        return {'std::bad_alloc'}
    if '::' not in nm:
        return set()
    return None


def L01(ctx):
    R1, R2, R3, R4 = 'no-escape', 'failure-reported', 'success-cleared', 'null-error'
    ctx.rule(R1, 'no exception leaves an extern "C" function: escape set over the whole library below it is empty; no terminate or abort is reached')
    ctx.rule(R2, 'when the operation throws, the failure value is returned and a supplied error structure ends with the code of the exception, a category and a description within its bounds')
    ctx.rule(R3, 'when the operation succeeds, a supplied error structure ends as code 0, no category, empty description')
    ctx.rule(R4, 'the error structure is written only where the pointer is known to be non-null')
    ap = api()
    # --- escape over the un-inlined unit
    P = view('src/cachelot/c_api.cpp', ['.*'], ['.*'])
    roots = [f for f in P.fns if f.name in ALL]
    miss = set(ALL) - {f.name for f in roots}
    if miss:
        raise AnalysisError('C entry points not found: %s' % sorted(miss))
    roots = [f for f in P.fns if f.name.startswith('cachelot_') and '::' not in f.name]
    E = Escape(P, api_ext, lambda f: bool(DESCR.match(f.name)))
    E.solve(roots)
    for f in roots:
        esc = E.esc[(f.j['m'], ())]
        for t, w in esc.items():
            ctx.ob(R1, f.name, False, '%s leaves the C function: %s' % (t, ' <- '.join(w)), f.where)
        ctx.ob(R1, f.name, True, '', f.where)
    for (n, t, c), v in E.term.items():
        # an allocation failure of the host while an error message is built is excluded
        if not n.startswith('cachelot') and n not in [f.name for f in P.fns if f.j.get('file', '').endswith('c_api.cpp')]:
            continue
        if c == 'std::function::operator()' and t == 'std::bad_function_call':
            continue
        ctx.ob(R1, n, False, '%s ends the process: %s' % (t, ' <- '.join(v[1])), v[0])
    for k in sorted({k[0] for k in E.esc}):
        f = E.bym[k]
        if f.name.startswith('cachelot'):
            bad = [i for i in f.calls() if i.get('fn') in ABORT]
            ctx.ob(R1, f.name, not bad, 'calls %s' % (bad[0]['fn'] if bad else ''), f.where)
    for k, wh in E.unknown.items():
        raise AnalysisError('exceptions of %s called from %s are not known' % (k[1] or 'a function pointer', k[0]))
    # --- paths
    oc, og, od = ap.err['code'], ap.err['category'], ap.err['desription']
    room = ap.prog.sizeof('cachelot_error_t') - od
    for name, k in ERRARG.items():
        f = ap.prog.fn(name)
        ps = ap.paths(f)
        ctx.covered(f, ps)
        err = A[k]
        okp = 0
        for p in ps:
            if describing(p):
                continue
            wh = pwhere(p, f)
            if p.outcome in ('unwind', 'terminate', 'noreturn'):
                # decided above with the exact set of exception types
                continue
            threw = [e for e in p.events if e.kind == 'call' and e.threw]
            null = p.truth(cmp('eq', err, C(0), 64))
            w = []
            for e in p.events:
                if e.kind == 'store' and split_ptr(e.addr)[0] is err:
                    w.append((split_ptr(e.addr)[1], e.val, e))
                elif e.kind == 'call' and e.args and split_ptr(e.args[0])[0] is err:
                    w.append((split_ptr(e.args[0])[1], e, e))
            for o, v, e in w:
                nn = p.fact(cmp('eq', err, C(0), 64), e.fpos) if hasattr(p, 'fact') else None
                ctx.ob(R4, name, nn is False, 'the error structure is written without a check for null', e.loc.repo() if e.loc else wh, p)
            last = {}
            for o, v, e in w:
                if e.kind == 'call' and e.name == 'memset' and isc(e.args[1], 0) and isc(e.args[2]):
                    for fo in (oc, og, od):
                        if o <= fo < o + e.args[2].a[0]:
                            last[fo] = C(0)
                else:
                    last[o] = v
            if threw:
                if ap.fns and p.ret is not None:
                    ctx.ob(R2, name, isc(p.ret, 0), 'a failed operation returns %s' % show(p.ret), wh, p)
                if null is not True:
                    d = last.get(od)
                    okd = d is not None and (not isc(d, 0) if not hasattr(d, 'kind') else d.name in COPY)
                    ctx.ob(R2, name, oc in last and og in last and not isc(last.get(og), 0) and okd, 'a failure does not fill the error structure', wh, p)
                    if d is not None and hasattr(d, 'kind'):
                        n = d.args[1] if d.name == 'snprintf' else d.args[2] if len(d.args) > 2 else UNDEF
                        ctx.ob(R2, name, isc(n) and n.a[0] <= room, 'the description may be written beyond the structure', wh, p)
                    sysx = any(v and n.endswith('system_error') for x, n, v in sel_facts(p))
                    if sysx:
                        vals = [e.res for e in p.events if e.kind == 'call' and e.name == 'boost::system::error_code::value']
                        ctx.ob(R2, name, last.get(oc) in vals, 'the code of the failure is not reported', wh, p)
            else:
                okp += 1
                if null is not True:
                    ok = isc(last.get(oc, UNDEF), 0) and isc(last.get(og, UNDEF), 0) and isc(last.get(od, UNDEF), 0)
                    ctx.ob(R3, name, ok, 'the error structure is not cleared', wh, p)
        if not okp:
            raise AnalysisError(name + ' never succeeds')
    ctx.assume('the eviction callback does not throw (it is a C function)')
    ctx.assume('the host does not run out of memory while the description of an error is produced')
    ctx.assume('categories and descriptions of boost::system and std exceptions do not throw')


def same_bool(a, b):
    """equal truth values (1-bit results passed through bytes)"""
    x, y = unbool(a), unbool(b)
    return x is y


def unbool(t):
    while True:
        t = strip_c(t)
        if t.op == 'not' and t.a[0].op == 'atom' and t.a[0].a[0] == 'eq' and isc(t.a[0].a[2], 0):
            t = t.a[0].a[1]
            continue
        if t.op == 'atom' and t.a[0] == 'eq' and isc(t.a[2], 1):
            t = t.a[1]
            continue
        return t


def strip_c(t):
    while t.op == 'cast' and t.a[0] in ('zext', 'trunc'):
        t = t.a[1]
    if t.op == 'bin' and t.a[0] == 'and' and isc(t.a[2], 1):
        return strip_c(t.a[1])
    return t


def L02(ctx):
    R1, R2, R3 = 'own-operation', 'arguments', 'result'
    ctx.rule(R1, 'each C function calls exactly one cache operation, the one it is named after, on the given cache')
    ctx.rule(R2, 'key, hash, item, delta, time-to-live and options reach the operation unchanged')
    ctx.rule(R3, 'the result of the operation (or the attribute of the item) is what the C function returns')
    ap = api()
    P = ap.prog
    K = lambda i: (mk('load', ptr(A[i], ap.key['key']), 8, 0), ptr(mk('load', ptr(A[i], ap.key['key']), 8, 0), 0, ((mk('load', ptr(A[i], ap.key['keylen']), 8, 0), 1),)), mk('load', ptr(A[i], ap.key['hash']), 4, 0))

    def ld(t):
        """the same load, whatever version of memory (argument structures are constant)"""
        return subst(t, lambda x: mk('load', x.a[0], x.a[1], 0) if x.op == 'load' and x.a[2] != 0 and split_ptr(x.a[0])[0].op == 'arg' else None)

    def eqv(a, b):
        a, b = ld(a), ld(b)
        return a is b or eq64(a, b) or strip_c(a) is strip_c(b)

    OPS = {'cachelot_set': ('do_set', [A[1]]), 'cachelot_add': ('do_add', [A[1]]), 'cachelot_replace': ('do_replace', [A[1]]), 'cachelot_append': ('do_append', [A[1]]),
           'cachelot_prepend': ('do_prepend', [A[1]]), 'cachelot_get_unsafe': ('do_get', list(K(1))), 'cachelot_delete': ('do_delete', list(K(1))), 'cachelot_touch': ('do_touch', list(K(1)) + [A[2]]),
           'cachelot_incr': ('do_incr', list(K(1)) + [A[2]]), 'cachelot_decr': ('do_decr', list(K(1)) + [A[2]]), 'cachelot_flush_all': ('do_flush_all', []),
           'cachelot_destroy_item': ('destroy_item', [A[1]])}
    cps = explore(P, P.fn('cachelot_set'), ap.model)
    off = 0
    # where the tuple returned by incr/decr keeps its parts
    for name, (op, want) in OPS.items():
        f = P.fn(name)
        ps = ap.paths(f)
        ctx.covered(f, ps)
        for p in ps:
            if describing(p) or p.outcome != 'ret':
                continue
            wh = pwhere(p, f)
            ops = [e for e in p.events if e.kind == 'call' and e.name.startswith(CN)]
            if name == 'cachelot_destroy_item' and p.truth(cmp('eq', A[1], C(0), 64)):
                ctx.ob(R1, name, not ops, 'a null item is destroyed', wh, p)
                continue
            if not ctx.ob(R1, name, len(ops) == 1 and ops[0].name == CN + op, 'calls %s instead of exactly one %s' % (', '.join(e.name[len(CN):] for e in ops) or 'nothing', op), wh, p):
                continue
            e = ops[0]
            wh = e.loc.repo()
            got = list(e.args)
            sret = got.pop(0) if name in ('cachelot_incr', 'cachelot_decr') else None
            ctx.ob(R1, name, got[0] is A[0], 'the operation is applied to another cache', wh, p)
            ok = len(got) - 1 == len(want) and all(eqv(x, y) for x, y in zip(got[1:], want))
            ctx.ob(R2, name, ok, 'the arguments of %s are not those of the caller' % op, wh, p)
            if e.threw:
                continue
            if name == 'cachelot_set':
                ctx.ob(R3, name, isc(p.ret, 1), 'a successful store is not reported', wh, p)
            elif name in ('cachelot_incr', 'cachelot_decr'):
                res = [x for x in p.events if x.kind == 'store' and split_ptr(x.addr)[0] is A[3]]
                null = p.truth(cmp('eq', A[3], C(0), 64))
                r = unbool(p.ret)
                okr = r.op == 'cres' and r.a[0] == e.n
                ctx.ob(R3, name, okr and r.a[3] == 1, 'the returned flag is not the outcome of the operation', wh, p)
                ctx.ob(R3, name, bool(res) == (null is False), 'the new value is not delivered exactly when a place for it was given', wh, p)
                for x in res:
                    v = ld(x.val)
                    ctx.ob(R3, name, x.addr is A[3] and v.op == 'cres' and v.a[0] == e.n and v.a[3] == 8, 'the delivered value is not the new value', wh, p)
            elif name not in ('cachelot_flush_all', 'cachelot_destroy_item'):
                ctx.ob(R3, name, same_bool(p.ret, e.res), 'returns %s' % show(p.ret), wh, p)
    # construction and destruction
    f = P.fn('cachelot_init')
    for p in ap.paths(f):
        if describing(p) or p.outcome != 'ret':
            continue
        ctx.covered(f, [p])
        wh = pwhere(p, f)
        ops = [e for e in p.events if e.kind == 'call' and e.name == CN + 'Create']
        new = [e for e in p.events if e.kind == 'call' and e.name == 'operator_new']
        if [e for e in new if e.threw]:
            ctx.ob(R3, 'cachelot_init', isc(p.ret, 0), 'returns something although memory is exhausted', wh, p)
            continue
        if not ctx.ob(R1, 'cachelot_init', len(ops) == 1, 'does not create exactly one cache', wh, p):
            continue
        e = ops[0]
        o = lambda n, s: mk('load', ptr(A[0], ap.opt[n]), s, 0)
        want = [o('memory_limit', 8), o('mem_page_size', 8), o('initial_dict_size', 8), o('enable_evictions', 1)]
        ok = len(e.args) == 5 and all(eqv(x, y) for x, y in zip(e.args[1:4], want)) and unbool(ld(e.args[4])) is want[3]
        ctx.ob(R2, 'cachelot_init', ok, 'the cache is created with other options than the given ones', e.loc.repo(), p)
        if e.threw:
            dl = [x for x in p.events if x.kind == 'call' and x.name == 'operator_delete' and new and x.args[0] is new[0].res]
            ctx.ob(R3, 'cachelot_init', isc(p.ret, 0) and (not new or len(dl) == 1), 'memory leaks when creation fails', wh, p)
        else:
            ctx.ob(R3, 'cachelot_init', len(new) == 1 and p.ret is new[0].res and not [x for x in p.events if x.kind == 'call' and x.name == 'operator_delete'], 'the created cache is not returned', wh, p)
    f = P.fn('cachelot_destroy')
    for p in ap.paths(f):
        ctx.covered(f, [p])
        null = p.truth(cmp('eq', A[0], C(0), 64))
        d = [e for e in p.events if e.kind == 'call' and '::~' in e.name]
        fr = [e for e in p.events if e.kind == 'call' and e.name == 'operator_delete']
        if null:
            ctx.ob(R1, f.name, not d and not [e for e in fr if not isc(e.args[0], 0) and e.args[0] is not A[0]], 'a null cache is destroyed', pwhere(p, f), p)
        else:
            ctx.ob(R1, f.name, len(d) == 1 and d[0].args[0] is A[0] and len(fr) == 1 and fr[0].args[0] is A[0] and d[0].n < fr[0].n, 'the cache is not destroyed and released exactly once', pwhere(p, f), p)
    # item creation
    f = P.fn('cachelot_create_item_raw')
    for p in ap.paths(f):
        if describing(p) or p.outcome != 'ret':
            continue
        ctx.covered(f, [p])
        wh = pwhere(p, f)
        ops = [e for e in p.events if e.kind == 'call' and e.name.startswith(CN)]
        if not ctx.ob(R1, f.name, len(ops) == 1 and ops[0].name == CN + 'create_item', 'does not create exactly one item', wh, p):
            continue
        e = ops[0]
        ok = e.args[0] is A[0] and len(e.args) == 7 and all(eqv(x, y) for x, y in zip(e.args[1:5], list(K(1)) + [A[3]])) and isc(e.args[5], 0)
        t = e.args[6]
        ok = ok and (isc(t, 0) or t.op == 'load' and show(t.a[0]).endswith('infinite_TTL'))
        ctx.ob(R2, f.name, ok, 'the item is not created from the given key, hash and length', e.loc.repo(), p)
        if not e.threw:
            av = [x for x in p.events if x.kind == 'call' and x.name == 'cachelot::cache::Item::assign_value']
            ok = len(av) == 1 and av[0].args[0] is e.res and eqv(av[0].args[1], A[2]) and eqv(av[0].args[2], ptr(A[2], 0, ((A[3], 1),)))
            ctx.ob(R2, f.name, ok, 'the value of the item is not the given one', wh, p)
            ctx.ob(R3, f.name, p.ret is e.res, 'the created item is not returned', wh, p)
    # accessors
    it = A[0]
    klen = cast('zext', mk('load', ptr(it, ap.item['m_key_length']), 1, 0), 8, 64)
    vlen = cast('zext', mk('load', ptr(it, ap.item['m_value_length']), 4, 0), 32, 64)
    ACC = {'cachelot_item_get_key': ptr(it, ap.item_size), 'cachelot_item_get_keylen': klen, 'cachelot_item_get_value': ptr(it, ap.item_size, ((klen, 1),)), 'cachelot_item_get_valuelen': vlen}
    for name, want in ACC.items():
        f = P.fn(name)
        for p in ap.paths(f):
            ctx.covered(f, [p])
            ok = p.outcome == 'ret' and eqv(p.ret, want) and not [e for e in p.events if e.kind in ('call', 'store')]
            ctx.ob(R3, name, ok, 'returns %s' % show(p.ret), pwhere(p, f), p)
    for name, call, args in (('cachelot_item_get_ttl_seconds', 'cachelot::cache::Item::ttl', [it]), ('cachelot_item_set_ttl_seconds', 'cachelot::cache::Item::set_ttl', [it, A[1]])):
        f = P.fn(name)
        for p in ap.paths(f):
            ctx.covered(f, [p])
            cs = [e for e in p.events if e.kind == 'call']
            ok = p.outcome == 'ret' and len(cs) == 1 and cs[0].name == call and len(cs[0].args) == len(args) and all(eqv(x, y) for x, y in zip(cs[0].args, args))
            ctx.ob(R1, name, ok, 'does not use %s of the item' % call.split('::')[-1], pwhere(p, f), p)
            if name.endswith('get_ttl_seconds') and cs:
                ctx.ob(R3, name, strip_c(p.ret) is strip_c(cs[0].res), 'the time-to-live is not returned', pwhere(p, f), p)
    f = P.fn('cachelot_hash')
    for p in ap.paths(f):
        ctx.covered(f, [p])
        cs = [e for e in p.events if e.kind == 'call' and 'fnv1a' in e.name]
        ok = p.outcome == 'ret' and len(cs) == 1 and p.ret is cs[0].res and len(cs[0].args) >= 2 and eqv(cs[0].args[-2], A[0]) and eqv(cs[0].args[-1], ptr(A[0], 0, ((A[1], 1),)))
        ctx.ob(R3, 'cachelot_hash', ok, 'the hash function of the cache is not applied to exactly the given key', pwhere(p, f), p)
    f = P.fn('cachelot_on_eviction_callback')
    for p in ap.paths(f):
        ctx.covered(f, [p])
        asg = [e for e in p.events if e.kind == 'call' and e.name.startswith('std::function::') and ('operator=' in e.name or e.name.endswith('swap')) and split_ptr(e.args[0])[0] is A[0]]
        null = p.truth(cmp('eq', A[1], C(0), 64))
        if p.outcome != 'ret':
            continue
        if not ctx.ob(R1, f.name, len(asg) == 1, 'the callback is not installed', pwhere(p, f), p):
            continue
        if null is False:
            cells = [v for c in asg[0].snap.values() for v in c.values()]
            ctx.ob(R2, f.name, any(v is A[1] for v in cells) or A[1] in asg[0].args, 'a different callback is installed', pwhere(p, f), p)
        else:
            cells = [v for c in asg[0].snap.values() for v in c.values()]
            ctx.ob(R2, f.name, not any(v is A[1] for v in cells), 'a null callback is installed', pwhere(p, f), p)
    ctx.assume('Item::ttl, Item::set_ttl and the hash function themselves are decided by C03 and by their single definition')


# ----------------------------------------------------------------------------- L03
def ev(t, env):
    """value of a term under constant arguments; None if it depends on anything else"""
    if t in env:
        return env[t]
    if isc(t):
        return t.a[0]
    o = t.op
    if o == 'true':
        return 1
    if o == 'false':
        return 0
    if o == 'atom':
        x, y = ev(t.a[1], env), ev(t.a[2], env)
        if x is None or y is None:
            return None
        w = t.a[3]
        m = (1 << w) - 1
        x, y = x & m, y & m
        return int({'eq': x == y, 'ult': x < y, 'slt': sgn(x, w) < sgn(y, w)}[t.a[0]])
    if o == 'not':
        x = ev(t.a[0], env)
        return None if x is None else 1 - x
    if o in ('and', 'or') and all(hasattr(a, 'op') for a in t.a):
        v = [ev(a, env) for a in t.a]
        if o == 'and':
            return 0 if 0 in v else None if None in v else 1
        return 1 if 1 in v else None if None in v else 0
    if o == 'sel':
        c = ev(t.a[0], env)
        return None if c is None else ev(t.a[1] if c else t.a[2], env)
    if o == 'cast':
        x = ev(t.a[1], env)
        if x is None:
            return None
        to, fr = t.a[2], t.a[3] if len(t.a) > 3 else 64
        if t.a[0] == 'sext':
            return sgn(x & ((1 << fr) - 1), fr) & ((1 << to) - 1)
        return x & ((1 << min(to, fr)) - 1)
    if o == 'bin':
        x, y, w = ev(t.a[1], env), ev(t.a[2], env), t.a[3]
        if x is None or y is None:
            return None
        m = (1 << w) - 1
        x, y = x & m, y & m
        k = t.a[0]
        if k in ('udiv', 'urem') and y == 0 or k in ('shl', 'lshr') and y >= w:
            return None
        f = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: x >> y,
             'udiv': lambda: x // y, 'urem': lambda: x % y}.get(k)
        return None if f is None else f() & m
    if o == 'intr':
        a = [ev(x, env) for x in t.a[1:]]
        n = t.a[0]
        w = int(n.split('.i')[-1]) if '.i' in n and n.split('.i')[-1].isdigit() else 64
        if a[0] is None:
            return None
        if 'ctpop' in n:
            return bin(a[0] & ((1 << w) - 1)).count('1')
        if 'ctlz' in n:
            return w - (a[0] & ((1 << w) - 1)).bit_length()
        if 'cttz' in n:
            return w if a[0] == 0 else (a[0] & -a[0]).bit_length() - 1
        if 'umax' in n and None not in a:
            return max(a)
        if 'umin' in n and None not in a:
            return min(a)
        if 'fshl' in n and None not in a and t.a[1] is t.a[2]:
            s = a[2] % w
            return ((a[0] << s) | (a[0] >> (w - s))) & ((1 << w) - 1)
        if 'umul.with.overflow' in n:
            return None
    if o == 'ptr' or o == 'add':
        return None
    return None


def pow2_known(p, x):
    """path establishes that x is zero or a power of two"""
    y = binop('and', x, binop('sub', x, C(1), 64), 64)
    for a, v in p.flist:
        if a.op != 'atom':
            continue
        for s, o in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
            if s.op == 'intr' and 'ctpop' in s.a[0] and s.a[1] is x and isc(o):
                n = o.a[0]
                lo = s is a.a[1]
                if a.a[0] == 'ult' and (lo and v and n <= 2 or not lo and not v and n <= 1):
                    return True
                if a.a[0] == 'eq' and v and n <= 1:
                    return True
        if a.a[0] == 'eq' and v and isc(a.a[2], 0) and (a.a[1] is y or lin(a.a[1]) == lin(y)):
            return True
    return False


def refuted(p, env):
    return any(ev(a, env) is not None and bool(ev(a, env)) != v for a, v in p.flist)


def L03(ctx):
    R1, R2, R3 = 'accepted-configurations', 'nothing-allocated', 'allocation-failure'
    ctx.rule(R1, 'every path that constructs the cache implies: memory limit a non-zero power of two, page size a power of two in [256, 2^31], at least 4 whole pages, index size a power of two in [1, 2^31]; '
                 'path conditions are evaluated on all powers of two and on zero, other values are excluded by a power-of-two test on the path')
    ctx.rule(R2, 'a rejected configuration throws before any memory is allocated; the parameters reach allocator and index unchanged')
    ctx.rule(R3, 'the index and the arena are created with exactly the configured sizes, and a failed allocation throws')
    P = view('drv/lib.cpp', ['drv_.*'], [r'cachelot::memalloc::memalloc', r'cachelot::dict::dict', r'cachelot::hash_table::.*', 'std::function.*', r'std::invalid_argument::.*'])
    f = P.fn('drv_cache_create')
    ps = explore(P, f, Model())
    ctx.covered(f, ps)
    lim, page, dct, ev_ = A[1], A[2], A[3], A[4]
    V = [0] + [1 << k for k in range(64)]
    memo = {}
    accept = []
    for p in ps:
        wh = pwhere(p, f)
        al = [e for e in p.events if e.kind == 'call' and e.name in ('cachelot::memalloc::memalloc', 'cachelot::dict::dict')]
        if not al:
            ctx.ob(R2, 'Cache::Create', p.outcome == 'unwind', 'a configuration is neither accepted nor rejected', wh, p)
            bad = [e for e in p.events if e.kind == 'call' and e.name in ('operator_new', 'operator_new[]', 'malloc', 'aligned_alloc')]
            ctx.ob(R2, 'Cache::Create', not bad, 'memory is allocated before the configuration is checked', wh, p)
            continue
        ma = [e for e in al if e.name.endswith('memalloc')]
        di = [e for e in al if e.name.endswith('dict')]
        ok = len(ma) == 1 and ma[0].args[1] is lim and strip_c(ma[0].args[2]) is page
        ctx.ob(R2, 'Cache::Create', ok, 'the arena is not created with the configured sizes', wh, p)
        for e in di:
            ctx.ob(R2, 'Cache::Create', strip_c(e.args[1]) is dct, 'the index is not created with the configured size', wh, p)
        for x, nm in ((lim, 'memory limit'), (page, 'page size'), (dct, 'index size')):
            ctx.ob(R1, 'Cache::Create', pow2_known(p, x), 'a %s that is not a power of two is accepted' % nm, wh, p)
        accept.append(p)
        key = tuple((a, v) for a, v in p.flist if ev(a, {lim: 1, page: 1}) is not None)
        if key not in memo:
            memo[key] = None
            for l in V:
                for g in V:
                    if not (l > 0 and 256 <= g <= 1 << 31 and l >= 4 * g and l % g == 0) and not refuted(p, {lim: l, page: g}):
                        memo[key] = memo[key] or (l, g)
        bad = memo[key]
        ctx.ob(R1, 'Cache::Create', bad is None, 'a memory limit of %s with pages of %s is accepted' % (bad or (0, 0)), wh, p)
        bad = [d for d in V if not refuted(p, {dct: d}) and not 1 <= d <= 1 << 31]
        ctx.ob(R1, 'Cache::Create', not bad, 'an index size of %s is accepted' % (bad[:1] or ''), wh, p)
        if p.outcome == 'ret':
            fl = [e for e in p.events if e.kind == 'store' and unbool(e.val) is ev_]
            ctx.ob(R2, 'Cache::Create', len(fl) == 1, 'the eviction option is not stored', wh, p)
    # usable configurations are accepted
    for l, g, d in ((1 << 26, 1 << 12, 1 << 16), (1 << 30, 1 << 20, 1), (1 << 10, 256, 16), (1 << 36, 1 << 31, 1 << 31)):
        ctx.ob(R1, 'Cache::Create', any(not refuted(p, {lim: l, page: g, dct: d}) for p in accept), 'a usable configuration (%d, %d, %d) is rejected' % (l, g, d), f.where)
    # the index
    P2 = view('drv/lib.cpp', ['drv_(arena|dict|table).*'], [r'cachelot::memalloc::(pages::pages|free_blocks_by_size::(free_blocks_by_size|put_block))', 'cachelot::memalloc::(pages|free_blocks_by_size)::~.*',
                                                            'aligned_alloc', 'aligned_free', 'cachelot::aligned.*'])
    T = ht_fields(P2)
    D_ = [P2.fields(k) for k in P2.layout if k.startswith('cachelot::dict<') and 'm_primary_tbl' in P2.layout[k]['m']][0]
    f = P2.fn('drv_dict_create')
    ps = explore(P2, f, Model())
    ctx.covered(f, ps)
    N = A[0]
    done = 0
    for p in ps:
        wh = pwhere(p, f)
        arr = [e for e in p.events if e.kind == 'call' and e.name == 'operator_new[]' and not e.threw]
        nul = [e for e in arr if p.truth(cmp('eq', e.res, C(0), 64)) is True]
        if p.outcome == 'ret':
            ctx.ob(R3, 'dict', not nul and len(arr) == 2 and all(p.truth(cmp('eq', e.res, C(0), 64)) is False for e in arr), 'a failed allocation of a table is not noticed', wh, p)
            sk = [e for e in p.events if e.kind == 'call' and e.name == 'drv_sink_dict']
            prim = cell(sk[0], 0, D_['m_primary_tbl'], 8)
            sec = cell(sk[0], 0, D_['m_secondary_tbl'], 8)
            hp = cell(sk[0], 0, D_['m_hashpower'], 4)
            xp = cell(sk[0], 0, D_['m_expand_pos'], 4)
            ctx.ob(R3, 'dict', isc(sec, 0) and isc(xp, 0), 'a new index starts in the middle of an expansion', wh, p)
            st = {}
            for e in p.events:
                if e.kind == 'store' and split_ptr(e.addr)[0] is split_ptr(prim)[0]:
                    st[split_ptr(e.addr)[1]] = e.val
            for k in range(32):
                n = 1 << k
                if refuted(p, {N: n}):
                    continue
                done += 1
                g = lambda t: ev(t, {N: n}) if t is not None else None
                ok = g(st.get(T['m_capacity'])) == n and g(st.get(T['mask'])) == n - 1 and g(st.get(T['m_size'])) == 0 and g(hp) == k
                by = {split_ptr(e.addr)[1]: e.val for e in p.events if e.kind == 'store' and e.val in [a.res for a in arr]}
                sz = {o: g([a for a in arr if a.res is v][0].args[0]) for o, v in by.items()}
                ok = ok and sz.get(T['m_hashes']) == 4 * n and sz.get(T['m_entries']) == 8 * n
                ctx.ob(R3, 'dict', ok, 'capacity, mask and memory of a new index of size %d do not agree' % n, wh, p)
        elif p.outcome == 'unwind':
            ctx.ob(R3, 'dict', bool(nul) or any(e.kind == 'call' and e.threw for e in p.events), 'the creation of an index fails without reason', wh, p)
        elif p.outcome == 'backedge':
            pass
        else:
            ctx.ob(R3, 'dict', False, 'the creation of an index ends the process', wh, p)
    if not done:
        raise AnalysisError('creation of an index not understood')
    # the arena
    f = P2.fn('drv_arena_create')
    ps = explore(P2, f, Model())
    ctx.covered(f, ps)
    MF = P2.fields('cachelot::memalloc')
    for p in ps:
        wh = pwhere(p, f)
        aa = [e for e in p.events if e.kind == 'call' and e.name.endswith(('aligned_alloc', 'aligned_alloc')) and not e.threw]
        if p.outcome == 'ret':
            ok = len(aa) == 1 and p.truth(cmp('eq', aa[0].res, C(0), 64)) is False
            ctx.ob(R3, 'memalloc', ok, 'a failed allocation of the arena is not noticed', wh, p)
            ok = ok and strip_c(aa[0].args[0]) is A[1] and aa[0].args[1] is A[0]
            ctx.ob(R3, 'memalloc', ok, 'the arena is not allocated with the configured size, aligned to pages', wh, p)
            sk = [e for e in p.events if e.kind == 'call' and e.name == 'drv_sink_arena'][0]
            g = lambda n, s: cell(sk, 0, MF[n], s)
            pg = [e for e in p.events if e.kind == 'call' and e.name.endswith('pages::pages')]
            fb = [e for e in p.events if e.kind == 'call' and e.name.endswith('::free_blocks_by_size')]
            ok = ok and len(pg) == 1 and len(fb) == 1 and g('arena_size', 8) is A[0] and strip_c(g('page_size', 4)) is A[1] and split_ptr(g('m_pages', 8))[0] is pg[0].args[0] and g('m_free_blocks', 8) is fb[0].args[0]
            ok = ok and strip_c(pg[0].args[1]) is A[1] and pg[0].args[2] is aa[0].res and eq64(pg[0].args[3], ptr(aa[0].res, 0, ((A[0], 1),))) and strip_c(fb[0].args[1]) is A[1]
            ctx.ob(R3, 'memalloc', ok, 'arena, page table and free lists do not describe the same memory', wh, p)
        elif p.outcome == 'unwind':
            ok = any(p.truth(cmp('eq', e.res, C(0), 64)) is True for e in aa) or any(e.kind == 'call' and e.threw for e in p.events)
            ctx.ob(R3, 'memalloc', ok, 'the creation of the arena fails without reason', wh, p)
