"""Server properties S01..S10."""
from serverview import *

IG = ('memcpy', 'memmove', 'memset')


def rt(av, n):
    return av.reply[n]


def isret(ap, av, name):
    return ap.p.ret is not None and isc(ap.p.ret, rt(av, name))


def cname(e):
    return e.name[len(CA):]


def success(ap):
    return ap.p.outcome == 'ret' and not ap.catches


def truth(ap, t):
    return ap.p.truth(t)


def kept_fn(prog, name, pred=lambda f: True):
    l = [f for f in prog.byname.get(name, []) if pred(f)]
    if len(l) != 1:
        raise AnalysisError('anchor function %s: %d definitions' % (name, len(l)))
    return l[0]


def slice_val(prog, t):
    """value of an aggregate {begin,end}"""
    x = Explorer.__new__(Explorer)
    return Slice(x.ext(t, 0), x.ext(t, 1))


# ----------------------------------------------------------------------------- command names
NAMES = {'add': 'ADD', 'cas': 'CAS', 'get': 'GET', 'set': 'SET', 'decr': 'DECR', 'gets': 'GETS', 'incr': 'INCR', 'quit': 'QUIT', 'touch': 'TOUCH',
         'stats': 'STATS', 'append': 'APPEND', 'delete': 'DEL', 'prepend': 'PREPEND', 'replace': 'REPLACE', 'version': 'VERSION', 'flush_all': 'FLUSH_ALL'}


def cmp_text(p, t, b, prog):
    """t = result of strncmp/memcmp of the request text with a constant -> (constant text, bytes compared) or None"""
    if t.op != 'callres' or t.a[1] not in ('strncmp', 'memcmp', 'bcmp'):
        return None
    for ev in p.events:
        if ev.kind == 'call' and ev.res is t:
            a = ev.args
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                g = prog.gstring(x)
                if g is not None and diff(y, b) == 0 and a[2].op == 'c':
                    return g.split('\0')[0][:a[2].a[0]] if ev.name == 'strncmp' else g[:a[2].a[0]]
    return None


def eq_text(p, t, b, e, prog):
    """t = result of comparing the whole request text with a constant slice -> the constant text or None"""
    if t.op != 'callres' or t.a[1] not in (SL + 'operator==', SL + 'operator!='):
        return None
    for ev in p.events:
        if ev.kind == 'call' and ev.res is t:
            sl = []
            for k, a in enumerate(ev.args[:2]):
                c = ev.snap.get(k) or {}
                sl.append((c.get(0), c.get(8)))
            for (x, y), (u, v) in ((sl[0], sl[-1]), (sl[-1], sl[0])):
                if x is b and y is e and u is not None and v is not None:
                    g, n = prog.gstring(u), diff(v, u)
                    if g is not None and n is not None and 0 <= n <= len(g):
                        return g[:n]
    return None


def admits(p, b, e, word, prog, eq=True):
    """can the facts of the path hold for the request text `word`?"""
    n = C(len(word), 64)

    def f(t):
        if t is e and e.op == 'arg':
            return ptr(b, len(word))
        if t.op == 'bin' and t.a[0] == 'sub' and t.a[1] is e and t.a[2] is b:
            return n
        if t.op == 'load':
            d = diff(t.a[0], b)
            if d is not None and 0 <= d and d + t.a[1] <= len(word):
                return C(int.from_bytes(word[d:d + t.a[1]].encode('latin1'), 'little'), 8 * t.a[1])
        g = eq_text(p, t, b, e, prog)
        if g is not None and not eq:
            return None
        if g is not None:
            return C(int((g == word) == t.a[1].endswith('==')), 1)
        g = cmp_text(p, t, b, prog)
        if g is not None and len(g) <= len(word):
            return C(0 if word.startswith(g) else 1, 32)
        return None

    memo = {}
    for atom, val in p.flist:
        r = subst(atom, f, prog, memo)
        if r.op == 'c' and bool(r.a[0]) != bool(val):
            return False
    return True


def name_status(p, b, e, word, prog, eq=True):
    """does the path's knowledge admit the command text `word`: 'must' (nothing else) | 'may' | 'no'"""
    if not admits(p, b, e, word, prog, eq):
        return 'no'
    for atom, val in p.flist:
        if eq and eq_text(p, atom, b, e, prog) == word and bool(val) == atom.a[1].endswith('=='):
            return 'must'
    ln = binop('sub', e, b, 64)
    if p.st.keq.get(ln) != len(word):
        return 'may'
    for i in range(len(word)):
        for v in range(256):
            if v != ord(word[i]) and admits(p, b, e, word[:i] + chr(v) + word[i + 1:], prog, eq):
                return 'may'
    # facts speak about one byte each or compare with a constant, so single-byte deviations decide
    for atom, val in p.flist:
        offs = {diff(t.a[0], b) for t in subterms(atom) if t.op == 'load'}
        if len(offs) > 1 and not (val and atom.op == 'atom' and atom.a[0] == 'eq' and atom.a[1].op == 'load' and atom.a[2].op == 'c'):
            return 'may'
    return 'must'


def command_names(ctx, av, rule):
    ctx.rule(rule, 'a command name is recognised exactly when length and every character match: each path of the name parser that answers with a command pins down '
                   'that command\'s text completely, and every path that answers "unknown" contradicts every command\'s text')
    f = kept_fn(av.prog, AS + 'parse_command_name')
    ps = explore(av.prog, f, Model())
    ctx.covered(f, ps)
    b, e = mk('arg', 0), mk('arg', 1)
    und = av.cmds['UNDEFINED']
    seen = set()
    for p in ps:
        if p.outcome != 'ret':
            continue
        w = p.loc.repo() if p.loc else f.where
        if p.ret.op != 'c':
            raise AnalysisError('parse_command_name: result is not a constant on a path')
        stt = {t: name_status(p, b, e, t, av.prog) for t in NAMES}
        got = rname(av.cmds, p.ret.a[0])
        if any(s == 'no' and name_status(p, b, e, t, av.prog, False) == 'must' for t, s in stt.items()):
            continue                            # characters and comparison contradict each other: no such path
        if p.ret.a[0] == und:
            bad = [t for t, s in stt.items() if s != 'no']
            # contradiction not established
            ctx.ob(rule, f.name, not bad, 'the request line "%s" can be answered as unknown command' % (bad[0] if bad else ''), w, p)
        else:
            txt = [t for t, c in NAMES.items() if c == got]
            ctx.ob(rule, f.name, len(txt) == 1 and stt[txt[0]] == 'must', 'command %s is recognised for a request line that need not be "%s"' % (got, txt[0] if txt else '?'), w, p)
            seen.add(got)
    for t, c in NAMES.items():
        ctx.ob(rule, f.name, c in seen, 'command "%s" is never recognised' % t, f.where)


# ----------------------------------------------------------------------------- S01
OUTCOME = {'ADD': ('STORED', 'NOT_STORED'), 'REPLACE': ('STORED', 'NOT_STORED'), 'APPEND': ('STORED', 'NOT_STORED'), 'PREPEND': ('STORED', 'NOT_STORED'),
           'DEL': ('DELETED', 'NOT_FOUND'), 'TOUCH': ('TOUCHED', 'NOT_FOUND')}


def expected_reply(ap, cmd, op):
    """-> (ok, text) for the reply tokens of a completed command"""
    av = ap.av
    lit = ap.out[0].a if len(ap.out) == 1 and ap.out[0].kind == 'lit' else None
    if cmd == 'SET':
        return lit == 'STORED\r\n', 'STORED'
    if cmd in OUTCOME:
        v = truth(ap, op.res)
        if v is None:
            return False, 'a reply that depends on the outcome'
        x = OUTCOME[cmd][0 if v else 1]
        return lit == x + '\r\n', x
    if cmd == 'CAS':
        s = params(op)[0]
        fo = truth(ap, mk('cres', op.n, s, av.cas_found, 1))
        so = truth(ap, mk('cres', op.n, s, av.cas_stored, 1))
        if fo is None or (fo and so is None):
            return False, 'a reply that depends on the outcome'
        x = 'NOT_FOUND' if not fo else ('STORED' if so else 'EXISTS')
        return lit == x + '\r\n', x
    if cmd in ('INCR', 'DECR'):
        s = params(op)[0]
        fo = truth(ap, mk('cres', op.n, s, av.ar_found, 1))
        if fo is None:
            return False, 'a reply that depends on the outcome'
        if not fo:
            return lit == 'NOT_FOUND\r\n', 'NOT_FOUND'
        ok = len(ap.out) == 2 and ap.out[0].kind == 'int' and ap.out[0].a is mk('cres', op.n, s, av.ar_value, 8) and ap.out[1].kind == 'lit' and ap.out[1].a == '\r\n'
        return ok, 'the new number'
    if cmd == 'FLUSH_ALL':
        return lit == 'OK\r\n', 'OK'
    return False, '?'


def S01(ctx):
    av = asciiview()
    ps = av.paths()
    ctx.covered(av.root(), [a.p for a in ps])
    R1, R2, R3, R4 = 'one-operation', 'arguments', 'reply', 'stats-lines'
    ctx.rule(R1, 'every completed command invokes exactly its own cache operation (storage commands: create_item, assign_value and the operation) and no other')
    ctx.rule(R2, 'the operation receives the key, number, unique number, duration, flags and value taken from the corresponding word of the request, and the hash of that key')
    ctx.rule(R3, 'the reply line corresponds to the operation\'s outcome')
    ctx.assume('slice::split / search / operator== behave as decided under S03; str_to_int as decided under S10')
    command_names(ctx, av, 'command-name')
    done = set()
    for ap in ps:
        if not success(ap) and not (ap.p.outcome == 'backedge' and not ap.catches):
            continue
        cmds = ap.commands()
        if cmds is None:
            ctx.ob(R1, 'handle_received_data', not ap.caches, 'the cache is used before the command name was determined', ap.where(ap.caches[0] if ap.caches else None), ap.p)
            continue
        for cmd in cmds:
            fn = cmd.lower()
            done.add(cmd)
            names = [cname(e) for e in ap.caches]
            if cmd in ('QUIT', 'VERSION', 'UNDEFINED'):
                ctx.ob(R1, fn, not names, 'command %s uses the cache: %s' % (cmd, names), ap.where(), ap.p)
                if cmd == 'VERSION':
                    t = ap.out[0].a if len(ap.out) == 1 and ap.out[0].kind == 'lit' else ''
                    ctx.ob(R3, fn, t.startswith('VERSION ') and t.endswith('\r\n') and t.count('\n') == 1, 'reply is %r' % (ap.out,), ap.where(), ap.p)
                if cmd == 'UNDEFINED':
                    ctx.ob(R3, fn, False, 'an unknown command is not reported', ap.where(), ap.p)
                if cmd == 'QUIT':
                    ctx.ob(R3, fn, not ap.out, 'quit produces output', ap.where(), ap.p)
                continue
            if cmd == 'STATS':
                continue
            op = CMDOP[cmd]
            want = ['create_item', op] if cmd in STORAGE else [op]
            if not ctx.ob(R1, fn, names == want, 'command %s performs %s instead of %s' % (cmd, names, want), ap.where(ap.caches[-1] if ap.caches else None), ap.p):
                continue
            e = ap.caches[-1]
            w = ap.where(e)
            ctx.ob(R1, fn, e.args[params(e)[1]] is CACHE, 'operation on another cache object', w, ap.p)
            s, t, pr = params(e)
            kw = 'L' if cmd in ('GET', 'GETS') else 1
            if cmd in STORAGE:
                c = ap.caches[0]
                storage_args(ctx, av, ap, cmd, c, e, R2, fn)
            elif cmd != 'FLUSH_ALL':
                ctx.ob(R2, fn, isinstance(pr[0], Slice) and ap.has(pr[0], kw), 'the key passed is not the key of the request', w, ap.p)
                ctx.ob(R2, fn, hash_ok(ap, pr[0], pr[1]), 'the hash passed is not the hash of the key', w, ap.p)
                if cmd in ('INCR', 'DECR', 'TOUCH'):
                    ctx.ob(R2, fn, num_ok(ap, pr[2], 2, 32 if cmd == 'TOUCH' else 64), 'the number passed is not the unsigned %d-bit number given as second argument of the request' % (32 if cmd == 'TOUCH' else 64), w, ap.p)
            if cmd in ('GET', 'GETS') or ap.noreply()[0] == 'yes':
                continue
            ok, txt = expected_reply(ap, cmd, e)
            ctx.ob(R3, fn, ok, 'the reply %r does not state the outcome (expected %s)' % (ap.out, txt), ap.where(), ap.p)
    for c in NAMES.values():
        ctx.ob(R1, c.lower(), c in done, 'command %s is not handled' % c, av.root().where)
    rejections(ctx, av, ps, 'rejected-for-cause')
    stats_lines(ctx, av, R4)


def rejections(ctx, av, ps, R):
    ctx.rule(R, 'a request that names a command is refused only if a key is missing or longer than the maximum, the announced value is longer than a page, the data block '
                'is not (yet) there or not terminated, or something else than "noreply" follows the last argument; numbers are refused by their conversion (S10)')
    maxkey = max_key(av)
    for ap in ps:
        th = [e for e in ap.throws if not ap.catches_before(e)]
        cmds = ap.commands()
        if not th or not cmds or 'UNDEFINED' in cmds:
            continue
        t = th[0]
        facts = ap.p.flist[:t.fpos]
        why = None
        for k, x in ap.word.items():
            if x in ('L', 1):
                sl = ap.slices[k]
                if not any(lo <= maxkey and hi >= 1 for lo, hi in key_lengths(ap, sl, t.fpos)):
                    why = 'bad key'
        dl, _ = data_len(ap)
        if dl is not None:
            for atom, val in facts:
                if atom.op == 'atom' and atom.a[0] == 'ult' and val and same(atom.a[2], widen(dl)) and is_setting(atom.a[1]) and atom.a[1].op == 'load':
                    why = 'value too long'
            if missing(ap, dl, t.fpos) is True:
                why = 'data missing'
        for s_, lit, e in ap.eqs:
            if lit == '\r\n' and ap.p.fact(e.res, t.fpos) is False:
                why = 'no terminator'
        for k, lv in ap.rest.items():
            sl = ap.slices.get(k)
            if sl is not None and ap.p.fact(cmp('eq', sl.b, sl.e, 64), t.fpos) is False and (ap.noreply()[0] == 'bad' or set(cmds) <= {'VERSION', 'STATS'}):
                why = 'excess arguments'
        ctx.ob(R, '/'.join(c.lower() for c in cmds), why, 'a well-formed request is refused (%s)' % (ap.thrown(),), ap.where(t), ap.p)


def hash_ok(ap, key, h):
    for e in ap.p.events:
        if e.kind == 'call' and e.res is h and e.name == AS + 'calc_hash':
            return skey(Slice(e.args[0], e.args[1])) == skey(key)
    return False


UNSIGNED = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64}


def num_ok(ap, t, word, bits):
    """t is the number written in that word, and every number of `bits` bits can be given there (and none with a sign)"""
    w = bits
    while t.op == 'cast' and t.a[0] == 'zext':
        w, t = t.a[3], t.a[1]
    c = ap.conv.get(t)
    if c is None or c[0] != word:
        return False
    m = re.search(r'str_to_int<([\w ]+)[,>]', c[1].full)
    return UNSIGNED.get(m.group(1).strip()) == bits if m else w == bits


def data_len(ap):
    """term of the announced value length (5th word)"""
    for r, (w, e) in ap.conv.items():
        if w == 4:
            return r, e
    return None, None


ITEMREAD = ['cachelot::cache::Item::' + n for n in ('key', 'value', 'hash', 'opaque_flags', 'timestamp', 'expiration_time', 'ttl', 'is_expired')]


def storage_args(ctx, av, ap, cmd, c, op, R, fn):
    w = ap.where(c)
    s, t, pr = params(c)
    key, h, n, flags, ttl = pr[0], pr[1], pr[2], pr[3], pr[4]
    ctx.ob(R, fn, ap.has(key, 1), 'the item is created with a key that is not the key of the request', w, ap.p)
    ctx.ob(R, fn, hash_ok(ap, key, h), 'the item is created with a hash that is not the hash of its key', w, ap.p)
    ctx.ob(R, fn, num_ok(ap, flags, 2, 16), 'the item is created with flags that are not the third word of the request', w, ap.p)
    ctx.ob(R, fn, num_ok(ap, ttl, 3, 32), 'the item is created with a time-to-live that is not the fourth word of the request', w, ap.p)
    dl, de = data_len(ap)
    ctx.ob(R, fn, dl is not None and same(n, widen(dl)), 'the item is created for %s value bytes' % show(n), w, ap.p)
    asg = [e for e in ap.p.events if e.kind == 'call' and e.name == 'cachelot::cache::Item::assign_value']
    ok = len(asg) == 1 and asg[0].args[0] is c.res and asg[0].n > c.n and asg[0].n < op.n
    ctx.ob(R, fn, ok, 'the value is not assigned to the new item before it is stored', ap.where(asg[0] if asg else op), ap.p)
    if ok:
        v = Slice(asg[0].args[1], asg[0].args[2])
        base = read_base(ap)
        ctx.ob(R, fn, dl is not None and base is not None and L(v.b) == L(base) and same(binop('sub', v.e, v.b, 64), widen(dl)),
               'the value stored is not the data block of the request', ap.where(asg[0]), ap.p)
    # nothing else is done to the item before the operation gets it
    oth = [e for e in ap.p.events if c.n < e.n < op.n and (e.kind == 'store' and split_ptr(e.addr)[0] is c.res or e.kind == 'call' and e not in asg and e.name not in ITEMREAD and e.args and split_ptr(e.args[0])[0] is c.res)]
    ctx.ob(R, fn, not oth, 'the new item is changed before it is stored', ap.where(oth[0] if oth else op), ap.p)
    s, t, pr = params(op)
    ctx.ob(R, fn, pr[0] is c.res, 'the operation gets another item than the one created', ap.where(op), ap.p)
    if cmd == 'CAS':
        ctx.ob(R, fn, num_ok(ap, pr[1], 5, 64), 'the unique number is not the (64-bit) sixth word of the request', ap.where(op), ap.p)


def widen(t):
    return mk('cast', 'zext', t, 64, 32)


def read_base(ap):
    """address of the first byte after the request line"""
    for e in ap.p.events:
        if e.kind == 'call' and e.name == IO + 'begin_read' and e.args[0] is RECV and ap.hdr is not None and e.n > ap.hdr.n:
            return e.res
        if e.kind == 'call' and e.name == IO + 'confirm_read' and e.args[0] is RECV and ap.hdr is not None and e.n > ap.hdr.n:
            return mk('ext', e.res, 0)
    return None


def stats_lines(ctx, av, R):
    ctx.rule(R, 'stats publishes current values first and then reports every counter once under its own name, ending with END')
    f = av.prog.fn('drv_stats')
    tgt = [g for g in av.prog.fns if g.name == AS + 'handle_statistics_command']
    f = tgt[0] if tgt else f
    nc = IOPURE + ['cachelot::int_to_str']
    ps = explore(av.prog, f, Model(clobbers=nc, nothrow=NOTHROW + [IO + 'begin_write', IO + 'confirm_write'] + [CA + 'publish_stats'], unwind_calls=False))
    ctx.covered(f, ps)
    names = {}
    for g in av.prog.fns:
        m = re.match(r'prb_stat_(cache|mem)_(\w+)$', g.name)
        if m:
            ls = [t for t in subterms(av.simple(g.name)) if t.op == 'load']
            names.setdefault(m.group(2), set()).add(strip(ls[0].a[0]))
    n = 0
    for p in ps:
        if p.outcome != 'ret':
            continue
        bufs = {e.args[0] for e in p.events if e.kind == 'call' and e.name == IO + 'begin_write'}
        w = p.loc.repo() if p.loc else f.where
        if not ctx.ob(R, f.name, len(bufs) == 1, 'statistics are written to several buffers', w, p):
            continue
        out, prob = decode_output(av, p.events, list(bufs)[0])
        n += 1
        for e, m in prob:
            ctx.ob(R, f.name, False, m, e.loc.repo(), p)
        pub = [e for e in p.events if e.kind == 'call' and e.name == CA + 'publish_stats']
        first = [e for e in p.events if e.kind == 'call' and e.name == IO + 'begin_write'][0]
        ctx.ob(R, f.name, len(pub) == 1 and pub[0].n < first.n, 'current values are not published before they are reported', w, p)
        seen = []
        txt = ''
        toks = []
        for t in out:
            if t.kind == 'lit':
                txt += t.a
            else:
                txt += '\1%d\2' % len(toks)
                toks.append(t)
        okk = ctx.ob(R, f.name, txt.endswith('\r\n'), 'the statistics do not end with a line end', w, p)
        lines = txt[:-2].split('\r\n')
        line = lines[-1]
        for ln in lines[:-1]:
            m = re.match(r'^STAT (\w+) (?:\x01(\d+)\x02|([01]))$', ln)
            if not m or m.group(1) not in names:
                okk = ctx.ob(R, f.name, False, 'unexpected line %r in the statistics' % ln, w, p)
                continue
            seen.append(m.group(1))
            cells = names[m.group(1)]
            if m.group(2):
                t = toks[int(m.group(2))]
                v = t.a
                while v.op == 'cast':
                    v = v.a[1]
                ok = t.kind == 'int' and v.op == 'load' and strip(v.a[0]) in cells
                if t.kind == 'val':
                    f2 = lambda k: subst(t.a, lambda x: C(k, 8) if x.op == 'load' and strip(x.a[0]) in cells else None)
                    ok = isc(f2(0), 48) and isc(f2(1), 49)
                ctx.ob(R, f.name, ok, 'the value reported as "%s" is not that counter' % m.group(1), t.e.loc.repo(), p)
            else:
                ok = False
                for atom, val in p.flist:
                    ls = [x for x in subterms(atom) if x.op == 'load' and strip(x.a[0]) in cells and x.a[1] == 1]
                    if ls:
                        r = [subst(atom, lambda x: C(k, 8) if x is ls[0] else None) for k in (0, 1)]
                        k = int(m.group(3))
                        ok = ok or (r[k].op == 'c' and bool(r[k].a[0]) == bool(val) and r[1 - k].op == 'c' and bool(r[1 - k].a[0]) != bool(val))
                ctx.ob(R, f.name, ok, 'the value reported as "%s" is not that flag' % m.group(1), w, p)
        if okk:
            ctx.ob(R, f.name, line == 'END', 'the statistics do not end with END', w, p)
            ctx.ob(R, f.name, sorted(set(seen)) == sorted(names) and len(seen) == sum(len(x) for x in names.values()), 'counters missing or repeated: %s' %
                   sorted(set(names) ^ set(seen)), w, p)
            ctx.ob(R, f.name, isc(p.ret, rt(av, 'SEND_REPLY_AND_READ')), 'the statistics are not sent', w, p)
    if not n:
        raise AnalysisError('statistics command has no completed path')


# ----------------------------------------------------------------------------- S02
TAIL = {'ADD': 5, 'APPEND': 5, 'PREPEND': 5, 'REPLACE': 5, 'SET': 5, 'CAS': 6, 'DEL': 2, 'INCR': 3, 'DECR': 3, 'TOUCH': 3, 'FLUSH_ALL': 1}


def S02(ctx):
    av = asciiview()
    ps = av.paths()
    ctx.covered(av.root(), [a.p for a in ps])
    R1, R2, R3 = 'noreply-silent', 'reply-once', 'tail-decided'
    ctx.rule(R1, 'a completed request with noreply has written nothing and returns READ_MORE')
    ctx.rule(R2, 'a completed request without noreply has written exactly one reply line (for retrieval, statistics and version: its complete reply) and returns SEND_REPLY_AND_READ')
    ctx.rule(R3, 'before the operation of a command with optional noreply starts, the text after its last argument has been found empty or equal to "noreply"')
    for ap in ps:
        cmds = ap.commands() if success(ap) else None
        if cmds is None:
            # executed operations whose reply failed are error paths: decided by S06
            continue
        for cmd in cmds:
            fn = cmd.lower()
            w = ap.where()
            for e, m in ap.prob:
                ctx.ob(R2, fn, False, m, ap.where(e), ap.p)
            if cmd in ('GET', 'GETS', 'VERSION'):
                ctx.ob(R2, fn, isret(ap, av, 'SEND_REPLY_AND_READ') and len(ap.out) > 0, 'the reply is not sent', w, ap.p)
                if cmd == 'VERSION':
                    ctx.ob(R3, fn, ap.noreply() == ('no', 1), 'the command is executed although it is followed by other text', w, ap.p)
                continue
            if cmd == 'QUIT':
                ctx.ob(R2, fn, isret(ap, av, 'CLOSE_IMMEDIATELY'), 'quit does not end the conversation', w, ap.p)
            if cmd not in TAIL:
                continue
            nr, lv = ap.noreply()
            e = ap.caches[-1] if ap.caches else None
            ok = nr in ('yes', 'no') and lv == TAIL[cmd]
            ctx.ob(R3, fn, ok, 'the command is executed although the text after its arguments is neither empty nor noreply', ap.where(e), ap.p)
            if not ok:
                continue
            if nr == 'yes':
                ctx.ob(R1, fn, not ap.out, 'a reply is written in spite of noreply: %r' % ap.out, w, ap.p)
                ctx.ob(R1, fn, isret(ap, av, 'READ_MORE'), 'a send is requested in spite of noreply', w, ap.p)
            else:
                lits = [t.a for t in ap.out if t.kind == 'lit']
                txt = ''.join(lits)
                ctx.ob(R2, fn, ap.out and txt.endswith('\r\n') and txt.count('\r\n') == 1 and len(ap.out) <= 2, 'the request is not answered by exactly one line: %r' % ap.out, w, ap.p)
                ctx.ob(R2, fn, isret(ap, av, 'SEND_REPLY_AND_READ'), 'the reply is not sent', w, ap.p)
    # order: the decision precedes the operation
    for ap in ps:
        for e in ap.caches[:1]:
            cmds = ap.commands() or []
            for cmd in cmds:
                if cmd not in TAIL:
                    continue
                ctx.ob(R3, cmd.lower(), tail_decided(ap, e, TAIL[cmd]), 'the cache is used before the rest of the request line was checked', ap.where(e), ap.p)


def tail_decided(ap, ev, level):
    """on the facts known at event ev, the rest at `level` is empty or noreply"""
    for s, lit, e in ap.eqs:
        if lit == 'noreply' and ap.rest.get(skey(s)) == level and e.n < ev.n and ap.p.fact(e.res if e.res.op != 'callres' else e.res, ev.fpos) is True:
            return True
    for k, lv in ap.rest.items():
        if lv == level:
            s = ap.slices[k]
            if ap.p.fact(cmp('eq', s.b, s.e, 64), ev.fpos) is True:
                return True
    return False


# ----------------------------------------------------------------------------- S03
READMUT = [IO + n for n in ('try_read_until', 'confirm_read', 'read_all', 'reset', 'rollback_read_transaction', 'compact', 'confirm_write', 'begin_write')]


def lits_of(av, e, k):
    return slit(av.prog, Slice(e.args[k], e.args[k + 1]))


def S03(ctx):
    av = asciiview()
    ps = av.paths()
    ctx.covered(av.root(), [a.p for a in ps])
    R1, R2, R3, R4, R5, R6 = 'validated-first', 'data-complete', 'incomplete-retry', 'consumed', 'slice-primitives', 'dispatch'
    ctx.rule(R1, 'before the first cache operation of a command: the line was complete, the key non-empty and not longer than the maximum, every number of the request '
                 'converted; afterwards no request text is parsed any more (retrieval: per key)')
    ctx.rule(R2, 'before a storage command touches the cache, the announced length plus terminator is available in the input and the terminator was verified; the length '
                 'was compared with the page size')
    ctx.rule(R3, '"incomplete" is raised exactly when the line end or the data block is missing, before any cache operation, and answered by restoring the input '
                 'position, writing nothing and asking for more data')
    ctx.rule(R4, 'a completed request consumes its line and, for storage commands, the announced number of bytes plus the terminator, nothing else')
    ctx.rule(R6, 'received data is handed to the text protocol unless empty or starting with the binary magic byte')
    maxkey = max_key(av)
    for ap in ps:
        if ap.p.outcome not in ('ret', 'backedge', 'unwind'):
            continue
        muts = [e for e in ap.p.events if e.kind == 'call' and e.name in READMUT and e.args[0] is RECV]
        for e in ap.badsep:
            ctx.ob(R1, 'handle_received_data', False, 'the request line is split at something else than a space', ap.where(e), ap.p)
        if ap.hdr is not None:
            ctx.ob(R1, 'handle_received_data', lits_of(av, ap.hdr, 1) == '\r\n', 'the end of the request line is not CR LF', ap.where(ap.hdr), ap.p)
        for c in ap.caches[:1]:
            cmds = ap.commands() or []
            w = ap.where(c)
            ok = ap.hdr is not None and ap.p.fact(cmp('eq', ap.hdrslice.b, ap.hdrslice.e, 64), c.fpos) is False
            ctx.ob(R1, 'handle_received_data', ok, 'a command is executed although no complete line was received', w, ap.p)
            for cmd in cmds:
                fn = cmd.lower()
                if cmd in ('FLUSH_ALL', 'STATS'):
                    continue
                kw = 'L' if cmd in ('GET', 'GETS') else 1
                ks = [ap.slices[k] for k, x in ap.word.items() if x == kw]
                ls = key_lengths(ap, ks[0], c.fpos) if len(ks) == 1 else [(0, 1 << 62)]
                ok = all(lo >= 1 for lo, hi in ls)
                ctx.ob(R1, fn, ok, 'an empty key is accepted', w, ap.p)
                ok = all(hi <= maxkey for lo, hi in ls)
                ctx.ob(R1, fn, ok, 'a key longer than %d bytes is accepted' % maxkey, w, ap.p)
                if cmd in STORAGE:
                    storage_complete(ctx, av, ap, cmd, c, R2, fn)
        if ap.caches and not ap.catches:
            cmds = ap.commands() or []
            c = ap.caches[0]
            later = [e for e in ap.p.events if e.n > c.n and e.kind == 'call' and (e.name in ('cachelot::str_to_int', '__cxa_throw', SL + 'split') or
                                                                                 (e.name in READMUT and e.args[0] is RECV))]
            if not set(cmds) & {'GET', 'GETS'}:
                ctx.ob(R1, '/'.join(x.lower() for x in cmds), not later, 'request text is still parsed after the cache was used', ap.where(later[0] if later else c), ap.p)
        # throws after cache use
        if ap.throws and ap.caches and not set(ap.commands() or []) & {'GET', 'GETS', 'STATS'}:
            t = [x for x in ap.throws if x.n > ap.caches[0].n and (not ap.catches or x.n < ap.p.events[ap.catches[0]].n)]
            for x in t:
                th = ap.thrown()
                ctx.ob(R1, 'handle_received_data', th is not None and th[1] == 'unknown_error', 'the request is rejected (%s) after the cache was changed' % (th,), ap.where(x), ap.p)
        # consumed bytes
        if success(ap):
            cmds = ap.commands() or []
            want = [IO + 'try_read_until']
            st = set(cmds) & set(STORAGE)
            if st:
                want.append(IO + 'confirm_read')
            got = [e.name for e in muts]
            ok = got == want
            if ok and st:
                dl, _ = data_len(ap)
                ok = dl is not None and same(muts[1].args[1], binop('add', widen(dl), C(2), 64))
            ctx.ob(R4, '/'.join(x.lower() for x in cmds) or 'handle_received_data', ok, 'input position after the request: %s' % ', '.join('%s(%s)' % (e.name[len(IO):], ', '.join(show(a) for a in e.args[1:])) for e in muts),
                   ap.where(muts[-1] if muts else None), ap.p)
        # incomplete requests
        th = ap.thrown()
        if th == ('cachelot', 'incomplete_request'):
            t = ap.throws[-1]
            dl, _ = data_len(ap)
            c1 = ap.hdr is not None and ap.p.fact(cmp('eq', ap.hdrslice.b, ap.hdrslice.e, 64), t.fpos) is True
            c2 = dl is not None and missing(ap, dl, t.fpos) is True
            ctx.ob(R3, 'handle_received_data', c1 or c2, '"incomplete" is raised for a request that is complete', ap.where(t), ap.p)
            ctx.ob(R3, 'handle_received_data', not ap.caches, '"incomplete" is raised after the cache was used', ap.where(t), ap.p)
        elif ap.throws and ap.hdr is not None and not ap.catches_before(ap.throws[0]) and ap.p.fact(cmp('eq', ap.hdrslice.b, ap.hdrslice.e, 64)) is True:
            ctx.ob(R3, 'handle_received_data', False, 'an incomplete line is reported as %s' % (th,), ap.where(ap.throws[-1]), ap.p)
        if ap.p.outcome == 'ret' and ap.catches:
            k = handler_class(ap)
            if k[0] == 'incomplete':
                sav = [e for e in ap.p.events if e.kind == 'call' and e.name == IO + 'read_savepoint' and e.args[0] is RECV]
                hm = [e for e in muts if e.n > ap.p.events[ap.catches[-1]].n]
                ok = len(hm) == 1 and hm[0].name == IO + 'rollback_read_transaction' and sav and hm[0].args[1] is sav[0].res and (ap.hdr is None or sav[0].n < ap.hdr.n)
                ctx.ob(R3, 'handle_received_data', ok, 'the input position is not restored for an incomplete request', ap.where(hm[-1] if hm else None), ap.p)
                ctx.ob(R3, 'handle_received_data', not ap.out and isret(ap, av, 'READ_MORE'), 'an incomplete request does not simply wait for more data', ap.where(), ap.p)
    slice_rules(ctx, av, R5)
    dispatch_rule(ctx, R6)


def max_key(av):
    """longest key of the memcached protocol"""
    return 250


M64 = (1 << 64) - 1


def affine(t, ln):
    """(sign, offset) with t = sign * ln + offset mod 2^64"""
    for sg in (1, -1):
        d = lin(binop('sub' if sg == 1 else 'add', t, ln, 64))
        if not d[1]:
            return sg, d[0] & M64
    return None


def key_lengths(ap, sl, fpos):
    """lengths of a piece of the request line that the comparisons made up to fpos leave possible, as intervals"""
    ln = binop('sub', sl.e, sl.b, 64)
    poss = [(0, 1 << 62)]
    for atom, val in ap.p.flist[:fpos]:
        if atom.op != 'atom' or atom.a[0] not in ('ult', 'eq') or atom.a[3] != 64:
            continue
        x, y = atom.a[1], atom.a[2]
        if atom is cmp('eq', sl.b, sl.e, 64):
            f, rng = (1, 0), (0, 0)
        elif x.op == 'c' and atom.a[0] == 'ult':
            f, rng = affine(y, ln), (x.a[0] + 1, M64)
        elif y.op == 'c':
            f, rng = affine(x, ln), ((0, y.a[0] - 1) if atom.a[0] == 'ult' else (y.a[0], y.a[0]))
        else:
            continue
        if f is None:
            continue
        sg, k = f
        a, b = ((rng[0] - k) & M64, (rng[1] - k) & M64) if sg == 1 else ((k - rng[1]) & M64, (k - rng[0]) & M64)
        if not val:
            a, b = (b + 1) & M64, (a - 1) & M64
        arcs = [(a, b)] if a <= b else [(0, b), (a, M64)]
        poss = [(max(lo, p), min(hi, q)) for lo, hi in poss for p, q in arcs if max(lo, p) <= min(hi, q)]
    return poss


def missing(ap, dl, fpos):
    """is less than length+2 available, by the comparison made?  True / False / None"""
    need = binop('add', widen(dl), C(2), 64)
    for atom, val in ap.p.flist[:fpos]:
        if atom.op == 'atom' and atom.a[0] == 'ult':
            x, y = atom.a[1], atom.a[2]
            if same(y, need) and nonread(x):
                return val
            if same(y, C(0)) and False:
                return None
            if nonread(y) and same(x, binop('sub', need, C(1), 64)):
                return not val
            if nonread(y) and same(x, need) and val:
                return False
    return None


def nonread(t):
    return t.op == 'callres' and t.a[1] == IO + 'non_read'


def storage_complete(ctx, av, ap, cmd, c, R, fn):
    w = ap.where(c)
    dl, de = data_len(ap)
    if not ctx.ob(R, fn, dl is not None and 'unsigned int' in de.full.split('(')[0], 'the announced length is not converted to a 32-bit number', w, ap.p):
        return
    # bounded by the page size
    ok = False
    for atom, val in ap.p.flist[:c.fpos]:
        if atom.op == 'atom' and atom.a[0] == 'ult':
            x, y = atom.a[1], atom.a[2]
            if same(y, widen(dl)) and not val and is_setting(x):
                ok = True
            if same(x, widen(dl)) and val and is_setting(y):
                ok = True
    ctx.ob(R, fn, ok, 'the announced length was not compared with the page size', w, ap.p)
    ctx.ob(R, fn, missing(ap, dl, c.fpos) is False, 'the command is executed before its data block was received completely', w, ap.p)
    nr = [e for e in ap.p.events if e.kind == 'call' and e.name == IO + 'non_read' and e.args[0] is RECV]
    base = read_base(ap)
    ok = False
    for s, lit, e in ap.eqs:
        if lit == '\r\n' and e.n < c.n and base is not None and ap.p.fact(e.res, c.fpos) is True and L(s.b) == L(ptr(base, 0, ((widen(dl), 1),))) and diff(s.e, s.b) == 2:
            ok = True
    ctx.ob(R, fn, ok, 'the command is executed although the terminator of the data block was not verified', w, ap.p)
    mv = [e for e in ap.p.events if e.kind == 'call' and e.name in READMUT and e.args[0] is RECV and nr and e.n < c.n and e.n < nr[-1].n and e is not ap.hdr]
    ctx.ob(R, fn, nr and not mv and all(x.n > ap.hdr.n for x in nr), 'the amount of available data was determined at another input position', w, ap.p)


def is_setting(t):
    return any(s.op == 'glob' and 'settings' in s.a[0] for s in subterms(t))


def catches_before(self, e):
    return [i for i in self.catches if self.p.events[i].n < e.n]


APath.catches_before = catches_before


def slice_rules(ctx, av, R):
    ctx.rule(R, 'slice::search returns the first occurrence found by std::search over the whole range (or nothing), split cuts exactly before and after it, '
                'equality compares lengths and all bytes, assign_value copies exactly the given bytes and records their number')
    P = av.prog
    a0b, a0e = mk('load', mk('arg', 0), 8, 0), mk('load', ptr(mk('arg', 0), 8), 8, 0)
    # search
    f = kept_fn(P, SL + 'search')
    ps = explore(P, f, Model())
    ctx.covered(f, ps)
    wb, we = mk('arg', 1), mk('arg', 2)
    ln, wl = binop('sub', a0e, a0b, 64), binop('sub', we, wb, 64)
    if not any(p.calls('std::search') for p in ps):
        raise AnalysisError('slice::search does not use std::search')
    for p in ps:
        if p.outcome != 'ret':
            continue
        r = slice_val(P, p.ret)
        w = p.loc.repo() if p.loc else f.where
        empty = isc(r.b, 0) and isc(r.e, 0) or r.b is r.e
        cs = p.calls('std::search')
        short_ = p.truth(cmp('ult', ln, wl, 64))
        if cs:
            c = cs[0]
            ok = len(cs) == 1 and [strip(x) for x in c.args[:4]] == [a0b, a0e, wb, we]
            ctx.ob(R, f.name, ok, 'the search does not cover the whole range', c.loc.repo(), p)
            hit = p.truth(cmp('eq', c.res, mk('load', ptr(mk('arg', 0), 8), 8, 0), 64))
            if hit is None:
                hit = next((v for a, v in p.flist if a.op == 'atom' and a.a[0] == 'eq' and c.res in (a.a[1], a.a[2]) and a0e in (strip(a.a[1]), strip(a.a[2]))), None)
            if hit is True:
                ctx.ob(R, f.name, empty, 'text that does not occur is reported as found', w, p)
            elif hit is False:
                ctx.ob(R, f.name, same(r.b, c.res) and same(r.e, ptr(c.res, 0, ((wl, 1),))), 'the found range is wrong', w, p)
            else:
                ctx.ob(R, f.name, False, 'the result of the search is used without checking whether there is one', w, p)
        elif empty:
            ctx.ob(R, f.name, short_ is True, 'text is reported as absent without searching for it', w, p)
        else:
            ok = r.b is wb and r.e is we and p.truth(cmp('ult', wb, a0b, 64)) is False and p.truth(cmp('ult', a0e, we, 64)) is False
            ctx.ob(R, f.name, ok, 'text is reported as found without searching for it', w, p)
    # split
    for f in P.byname.get(SL + 'split', []):
        ps = explore(P, f, Model(clobbers=[SL + 'search', SL + 'split']))
        ctx.covered(f, ps)
        o = av.sp
        for p in ps:
            if p.outcome != 'ret':
                continue
            w = p.loc.repo() if p.loc else f.where
            se = p.calls(SL + 'search')
            sp = p.calls(SL + 'split')
            if not se and len(sp) == 1:
                e = sp[0]
                b = split_ptr(e.args[2])[0]
                ok = e.args[0] is mk('arg', 0) and e.args[1] is mk('arg', 1) and diff(e.args[3], e.args[2]) == 1 and list(e.snap.get(2, {}).values()) == [mk('arg', 2)]
                ctx.ob(R, f.name, ok, 'splitting at a character is not splitting at that one-character text', w, p)
                continue
            if len(se) != 1:
                raise AnalysisError('slice::split does not use slice::search')
            b0, e0 = mk('load', mk('arg', 1), 8, 0), mk('load', ptr(mk('arg', 1), 8), 8, 0)
            fs = ext2(se[0].res)
            ctx.ob(R, f.name, se[0].args[0] is mk('arg', 1) and se[0].args[1] is mk('arg', 2) and se[0].args[2] is mk('arg', 3), 'split searches for another text', w, p)
            res = {k: cellval(p, mk('arg', 0), o[k]) for k in o}
            hit = p.truth(cmp('eq', fs.b, fs.e, 64))
            g = {k: strip(v) if v is not None else None for k, v in res.items()}
            if hit is False:
                ok = g['head_b'] is b0 and g['head_e'] is strip(fs.b) and g['tail_b'] is strip(fs.e) and g['tail_e'] is e0
            else:
                ok = hit is True and g['head_b'] is b0 and g['head_e'] is e0 and res['tail_b'] is res['tail_e']
            ctx.ob(R, f.name, ok, 'the pieces of the split are not the text before and after the separator', w, p)
    # equality
    f = kept_fn(P, SL + 'operator==')
    ps = explore(P, f, Model(clobbers=['std::equal', 'memcmp', 'bcmp']))
    ctx.covered(f, ps)
    a1b, a1e = mk('load', mk('arg', 1), 8, 0), mk('load', ptr(mk('arg', 1), 8), 8, 0)
    for p in ps:
        if p.outcome != 'ret':
            continue
        w = p.loc.repo() if p.loc else f.where
        leq = p.truth(cmp('eq', binop('sub', a0e, a0b, 64), binop('sub', a1e, a1b, 64), 64))
        cs = p.calls('std::equal', 'memcmp', 'bcmp')
        r = p.truth(p.ret) if p.ret.op != 'callres' else None
        if cs:
            c = cs[0]
            x = [strip(t) for t in c.args]
            if c.name == 'std::equal':
                ok = x[:3] == [a0b, a0e, a1b] or x[:3] == [a1b, a1e, a0b]
                res = p.ret is c.res
            else:
                ok = set(x[:2]) == {a0b, a1b} and any(same(c.args[2], binop('sub', q, s, 64)) for q, s in ((a0e, a0b), (a1e, a1b)))
                res = p.ret is cmp('eq', c.res, C(0, 32), 32) or (p.truth(cmp('eq', c.res, C(0, 32), 32)) is not None and r == p.truth(cmp('eq', c.res, C(0, 32), 32)))
            ctx.ob(R, f.name, ok and res and leq is True, 'texts of different length or content are taken for equal', w, p)
        elif r is False:
            ctx.ob(R, f.name, leq is False, 'equal texts are taken for different', w, p)
        else:
            ok = r is True and leq is True and (p.truth(cmp('eq', a0b, a1b, 64)) is True or p.truth(cmp('eq', a0b, a0e, 64)) is True)
            ctx.ob(R, f.name, ok, 'texts are taken for equal without comparing them', w, p)
    # assign_value
    f = kept_fn(P, 'cachelot::cache::Item::assign_value')
    ps = explore(P, f, Model())
    ctx.covered(f, ps)
    n = binop('sub', mk('arg', 2), mk('arg', 1), 64)
    it = mk('arg', 0)
    dest = ptr(it, av.item_size, ((cast('zext', mk('load', ptr(it, av.off['m_key_length']), 1, 0), 64, 8), 1),))
    for p in ps:
        if p.outcome != 'ret':
            continue
        w = p.loc.repo() if p.loc else f.where
        cp = [e for e in p.events if e.kind == 'call' and e.name in ('memcpy', 'memmove')]
        ok = len(cp) == 1 and same(strip(cp[0].args[0]), dest) and cp[0].args[1] is mk('arg', 1) and same(low32(strip(cp[0].args[2])), n)
        ctx.ob(R, f.name, ok, 'the value bytes are not copied behind the key', w, p)
        st = [e for e in p.events if e.kind == 'store' and e.addr is ptr(it, av.off['m_value_length'])]
        ctx.ob(R, f.name, len(st) == 1 and same(st[-1].val, n, 32), 'the recorded length is not the number of bytes copied', w, p)


def cellval(p, base, off):
    c = p.mem.get(ptr(base, off))
    # part of a structure copied as a whole
    for e in reversed(p.events):
        if e.kind == 'store' and e.addr is ptr(base, off):
            break
        if e.kind == 'call' and e.name == 'memcpy' and isc(e.args[2]):
            b, o, vs = split_ptr(e.args[0])
            if b is base and not vs and o <= off < o + e.args[2].a[0]:
                sb, so, svs = split_ptr(e.args[1])
                if sb.op == 'arg' and not svs:
                    return mk('load', ptr(sb, so + off - o), 8, 0)
                return None
    return c[1] if c else None


def dispatch_rule(ctx, R):
    P = view('drv/dispatch.cpp', [r'cachelot::memcached::handle_received_data'],
             [r'cachelot::io_buffer::.*', r'cachelot::memcached::(ascii|binary)::.*'])
    f = P.fn('cachelot::memcached::handle_received_data')
    ps = explore(P, f, Model(clobbers=IOPURE, unwind_calls=True))
    ctx.covered(f, ps)
    rep = P.enum('cachelot::net::ConversationReply')
    for p in ps:
        w = p.loc.repo() if p.loc else f.where
        asc = [e for e in p.events if e.kind == 'call' and e.name.startswith('cachelot::memcached::ascii::')]
        bi = [e for e in p.events if e.kind == 'call' and e.name.startswith('cachelot::memcached::binary::')]
        nr = [e for e in p.events if e.kind == 'call' and e.name == IO + 'non_read']
        if p.outcome == 'unwind':
            ctx.ob(R, f.name, bool(asc or bi), 'unexpected exception', w, p)
            continue
        has = None
        for e in nr:
            v = p.truth(cmp('eq', e.res, C(0), 64))
            has = (not v) if v is not None else has
        if not asc and not bi:
            ctx.ob(R, f.name, has is False and isc(p.ret, rep['READ_MORE']), 'received data is ignored', w, p)
        else:
            c = (asc + bi)[0]
            ok = len(asc + bi) == 1 and c.args[:3] == (RECV, SEND, CACHE) and p.ret is c.res
            ctx.ob(R, f.name, ok, 'the handler\'s answer is not passed on', w, p)
            br = [e for e in p.events if e.kind == 'call' and e.name == IO + 'begin_read']
            mag = None
            for e in br:
                for atom, val in p.flist:
                    if atom.op == 'atom' and atom.a[0] == 'eq' and isc(atom.a[2]) and atom.a[2].a[0] & 0xff == 0x80 and any(t.op == 'load' and t.a[0] is e.res for t in subterms(atom.a[1])):
                        mag = val
            ctx.ob(R, f.name, has is True and mag is bool(bi), 'data is handed to the wrong protocol or although there is none', w, p)


# ----------------------------------------------------------------------------- S05
def S05(ctx):
    av = asciiview()
    ps = av.paths()
    ctx.covered(av.root(), [a.p for a in ps])
    R1, R2, R3 = 'value-line', 'every-key', 'end'
    ctx.rule(R1, 'for a found item: VALUE <key> <flags> <length>[ <unique>]CRLF, the value bytes, CRLF - all from that item; for a missing one nothing')
    ctx.rule(R2, 'each round takes the next word of the request as key and continues with the rest; it ends exactly when no text is left')
    ctx.rule(R3, 'after the last key exactly END CRLF follows and the reply is sent')
    n = 0
    for ap in ps:
        cmds = ap.commands()
        if not cmds or not set(cmds) & {'GET', 'GETS'} or ap.catches or ap.p.outcome not in ('ret', 'backedge'):
            continue
        n += 1
        fn = '/'.join(c.lower() for c in cmds)
        w = ap.where(ap.caches[0] if ap.caches else None)
        for e, m in ap.prob:
            ctx.ob(R1, fn, False, m, ap.where(e), ap.p)
        if not ctx.ob(R2, fn, ap.loop is not None, 'the keys of the request are not processed one after the other', w, ap.p):
            continue
        gets = [e for e in ap.caches if cname(e) == 'do_get']
        if not ctx.ob(R2, fn, len(gets) == 1 and len(ap.caches) == 1, 'a round does not look up exactly one key', w, ap.p):
            continue
        g = gets[0]
        key = params(g)[2][0]
        ctx.ob(R2, fn, ap.has(key, 'L'), 'the key looked up is not the next word of the request', w, ap.p)
        nx = [ap.slices[k] for k, v in ap.rest.items() if v == 'N']
        ok = len(nx) == 1
        ctx.ob(R2, fn, ok, 'the rest of the request line is lost', w, ap.p)
        fin = ap.p.truth(cmp('eq', nx[0].b, nx[0].e, 64)) if ok else None
        if ap.p.outcome == 'backedge':
            h, vals = ap.p.x
            lo, b, en = ap.loop
            ctx.ob(R2, fn, ok and h == lo.x[0] and L(vals[b]) == L(nx[0].b) and L(vals[en]) == L(nx[0].e) and fin is False, 'the next round does not continue with the rest of the request', w, ap.p)
            tail = ''
        else:
            ctx.ob(R2, fn, fin is True, 'processing ends although keys are left', w, ap.p)
            ctx.ob(R3, fn, isret(ap, av, 'SEND_REPLY_AND_READ'), 'the reply is not sent', w, ap.p)
            tail = 'END\r\n'
        found = ap.p.truth(cmp('eq', g.res, C(0), 64))
        if found is None:
            ctx.ob(R1, fn, False, 'the reply does not depend on whether the item was found', w, ap.p)
            continue
        if found:    # null
            exp = [tail] if tail else []
        else:
            it = g.res
            kl = cast('zext', mk('load', ptr(it, av.off['m_key_length']), 1, 0), 64, 8)
            vl = mk('load', ptr(it, av.off['m_value_length']), 4, 0)
            exp = ['VALUE ', ('copy', ptr(it, av.item_size), kl), ' ', ('int', mk('load', ptr(it, av.off['m_opaque_flags']), 2, 0)), ' ', ('int', vl)]
            if set(cmds) == {'GETS'}:
                exp += [' ', ('int', mk('load', ptr(it, av.off['m_timestamp']), 8, 0))]
            exp += ['\r\n', ('copy', ptr(it, av.item_size, ((kl, 1),)), cast('zext', vl, 64, 32)), '\r\n' + tail]
            if len(cmds) != 1:
                ctx.ob(R1, fn, False, 'get and gets give the same reply', w, ap.p)
                continue
        ok = len(exp) == len(ap.out)
        if ok:
            for x, t in zip(exp, ap.out):
                if isinstance(x, str):
                    ok = ok and t.kind == 'lit' and t.a == x
                elif x[0] == 'copy':
                    # the key of the item found equals the key looked up
                    alt = x is exp[1] and t.kind == 'copy' and L(t.a) == L(key.b) and L(t.b) == L(binop('sub', key.e, key.b, 64))
                    ok = ok and t.kind == 'copy' and (alt or same(strip(t.a), x[1]) and same(strip(t.b), x[2]))
                else:
                    v = strip(t.a)
                    while v.op == 'cast' and v.a[0] in ('zext', 'trunc') and v.a[2] >= (width(x[1]) or 64):
                        v = v.a[1]
                    ok = ok and t.kind == 'int' and v is x[1]
        ctx.ob(R1 if not (found and tail) else R3, fn, ok, 'the reply %r is not the item\'s complete description' % (ap.out,), w, ap.p)
    if n < 8:
        raise AnalysisError('only %d retrieval paths found' % n)


# ----------------------------------------------------------------------------- S06
def handler_class(ap):
    """(class, detail) of the error path by the facts its handler established"""
    ci = ap.catches[-1]
    p = ap.p
    ev = p.events
    pads = [e for e in ev[:ci] if e.kind == 'landingpad']
    exc = mk('ext', mk('exc', pads[-1].n), 1) if pads else None
    kind = None
    for atom, val in p.flist:
        if atom.op == 'atom' and atom.a[0] == 'eq' and val:
            for x, y in ((atom.a[1], atom.a[2]), (atom.a[2], atom.a[1])):
                if x is exc and y.op == 'typeid':
                    kind = 'system' if 'system_error' in show(y) else ('std' if show(y).endswith('typeinfo for std::exception)') else 'other')
    if kind is None:
        return ('catch-all', None)
    if kind == 'std':
        return ('std', None)
    if kind != 'system':
        return ('other', None)
    cat = None
    vals = []
    for e in ev[ci:]:
        if e.kind != 'call':
            continue
        if e.name == 'boost::system::operator==' and 'error_category' in e.full and any('get_protocol_error_category' in show(a) for a in e.args):
            v = p.truth(e.res)
            cat = v if v is not None else cat
        if e.name == 'boost::system::error_code::value' and e.res not in vals:
            vals.append(e.res)
    if cat is None:
        return ('unknown', None)
    if cat:
        return ('protocol', None)
    if not vals:
        return ('unknown', None)
    # every copy of the exception's code has the same value: the facts about all of them hold together
    keqs = {p.st.keq[v] for v in vals if v in p.st.keq}
    ex = set()
    lo, hi = 0, None
    for v in vals:
        ex |= set(p.st.excl.get(v, ()))
        l, h = p.st.rng.get(v, (0, None))
        lo = max(lo, l)
        hi = h if hi is None else (hi if h is None else min(h, hi))
    if len(keqs) > 1 or any(k in ex or k < lo or (hi is not None and k > hi) for k in keqs):
        return ('contradiction', None)
    k = keqs.pop() if keqs else None
    if k is not None:
        n = rname(ap.av.errs, k)
        if n == 'incomplete_request':
            return ('incomplete', n)
        if n == 'broken_request':
            return ('broken', n)
        if n in ('numeric_convert', 'numeric_overflow'):
            return ('numeric', n)
        return ('server', n)
    special = {ap.av.errs[x] for x in ('incomplete_request', 'broken_request', 'numeric_convert', 'numeric_overflow')}
    poss = {x for x in special if x not in ex and x >= lo and (hi is None or x <= hi)}
    if not poss:
        return ('server', None)
    if poss <= {ap.av.errs['numeric_convert'], ap.av.errs['numeric_overflow']} and hi is not None and lo <= hi and all(x in poss or x in ex for x in range(lo, hi + 1)):
        return ('numeric', None)
    return ('unknown', None)


PREFIX = {'protocol': 'CLIENT_ERROR ', 'numeric': 'CLIENT_ERROR ', 'server': 'SERVER_ERROR ', 'std': 'SERVER_ERROR '}


def unmatched(ap):
    """the exception left the function only because it is no std::exception (nothing in the code base raises such)"""
    pads = [e for e in ap.p.events if e.kind == 'landingpad']
    if not pads or not any('std::exception' in show(c) for c in pads[-1].x):
        return False
    return any(a.op == 'atom' and 'std::exception' in show(a) and mentions(a, mk('exc', pads[-1].n)) and not v for a, v in ap.p.flist)


def error_texts(ctx, R):
    ctx.rule(R, 'no error text of cachelot\'s error categories contains a line end, so that the error report is one line')
    P = view('drv/ascii.cpp', [r'cachelot::error::internal::.*::message.*'], [r'std::.*'])
    fs = [f for f in P.fns if f.name.startswith('cachelot::error::internal::') and '::message' in f.name]
    if not fs:
        raise AnalysisError('error categories not found')

    def strings(j, seen):
        if isinstance(j, dict):
            if j.get('k') == 'glob' and j.get('n') not in seen:
                seen.add(j['n'])
                g = P.globals.get(j['n'], {}).get('init')
                if g is not None:
                    if g.get('k') == 'str':
                        yield g['v']
                    else:
                        yield from strings(g, seen)
            for v in j.values():
                yield from strings(v, seen)
        elif isinstance(j, list):
            for v in j:
                yield from strings(v, seen)
    for f in fs:
        ctx.covered(f, [])
        ts = list(strings(f.j['b'] if 'b' in f.j else f.j, set()))
        ctx.ob(R, f.name, bool(ts), 'no error texts found', f.where)
        for t in ts:
            ctx.ob(R, f.name, not set(t) & {'\r', '\n'}, 'the error text %r contains a line end' % t, f.where)


def S06(ctx):
    av = asciiview()
    ps = av.paths()
    ctx.covered(av.root(), [a.p for a in ps])
    R1, R2, R3, R4, R5 = 'discard', 'error-class', 'served-on', 'all-caught', 'unknown-command'
    ctx.rule(R1, 'every exception handler discards everything written since the request began before it writes anything')
    ctx.rule(R2, 'the handler then writes exactly one line whose class matches the error: protocol and number errors CLIENT_ERROR, broken request ERROR, everything else SERVER_ERROR, with the error text')
    ctx.rule(R3, 'after reporting the error the reply is sent and reading continues; the input is rewound only for incomplete requests')
    ctx.rule(R4, 'every exception raised while a request is processed enters a handler (only failures while writing the error report itself leave it)')
    ctx.rule(R5, 'a line that names no command is reported as a broken request')
    error_texts(ctx, 'error-text')
    n = {}
    for ap in ps:
        if ap.p.outcome == 'unwind' and not ap.catches:
            ctx.ob(R4, 'handle_received_data', unmatched(ap), 'an exception raised while processing a request is not handled', ap.where([e for e in ap.p.events if e.kind == 'call'][-1]), ap.p)
            continue
        cmds = ap.commands()
        if not ap.catches and cmds and 'UNDEFINED' in cmds:
            ctx.ob(R5, 'handle_received_data', ap.p.outcome != 'ret', 'an unknown command is not rejected', ap.where(), ap.p)
        if ap.catches and cmds and 'UNDEFINED' in cmds and ap.throws and not ap.caches:
            ctx.ob(R5, 'handle_received_data', ap.thrown() == ('cachelot', 'broken_request'), 'an unknown command is reported as %s' % (ap.thrown(),), ap.where(ap.throws[-1]), ap.p)
        if not ap.catches or ap.p.outcome not in ('ret', 'unwind'):
            continue
        k = handler_class(ap)
        if k[0] == 'contradiction':
            continue
        ci = ap.catches[-1]
        hev = ap.p.events[ci:]
        first_w = next((i for i, e in enumerate(hev) if e.kind == 'call' and e.name in (IO + 'begin_write', IO + 'confirm_write') and e.args[0] is SEND), None)
        if k[0] == 'catch-all' and any(e.kind == 'call' and e.name == '__cxa_rethrow' for e in hev):
            ctx.ob(R4, 'handle_received_data', unmatched(ap), 'a rethrown exception is not handled', ap.where(hev[0]), ap.p)
            continue
        rb = [i for i, e in enumerate(hev) if e.kind == 'call' and e.name == IO + 'rollback_write_transaction' and e.args[0] is SEND]
        sav = [e for e in ap.p.events if e.kind == 'call' and e.name == IO + 'write_savepoint' and e.args[0] is SEND]
        wr = [e for e in ap.p.events if e.kind == 'call' and e.name in (IO + 'begin_write', IO + 'confirm_write') and e.args[0] is SEND]
        if ap.p.outcome == 'unwind' and not rb and first_w is None:
            # the error text could not be obtained: nothing is reported, the conversation ends (S04)
            continue
        ok = len(rb) == 1 and (first_w is None or rb[0] < first_w) and bool(sav) and hev[rb[0]].args[1] is sav[0].res and (not wr or sav[0].n < wr[0].n)
        ctx.ob(R1, 'handle_received_data', ok, 'output of the failed request is not discarded before the error is reported', ap.where(hev[0]), ap.p)
        if ap.p.outcome == 'unwind':
            last = [e for e in hev if e.kind == 'call' and e.threw]
            ctx.ob(R4, 'handle_received_data', bool(last), 'the handler passes the exception on', ap.where(hev[0]), ap.p)
            continue
        n[k[0]] = n.get(k[0], 0) + 1
        for e, m in ap.prob:
            ctx.ob(R2, 'handle_received_data', False, m, ap.where(e), ap.p)
        rr = [e for e in hev if e.kind == 'call' and e.name == IO + 'rollback_read_transaction']
        if k[0] == 'incomplete':
            ctx.ob(R2, 'handle_received_data', not ap.out, 'an incomplete request is answered: %r' % ap.out, ap.where(), ap.p)
            continue
        ctx.ob(R3, 'handle_received_data', isret(ap, av, 'SEND_REPLY_AND_READ'), 'the error report (%s) is not sent' % k[0], ap.where(), ap.p)
        ctx.ob(R3, 'handle_received_data', not rr, 'the failed request (%s) will be processed again' % k[0], ap.where(rr[0] if rr else None), ap.p)
        if k[0] == 'broken':
            ok = len(ap.out) == 1 and ap.out[0].kind == 'lit' and ap.out[0].a == 'ERROR\r\n'
        elif k[0] in PREFIX:
            ok = len(ap.out) == 3 and ap.out[0].kind == 'lit' and ap.out[0].a == PREFIX[k[0]] and ap.out[1].kind == 'copy' and ap.out[2].kind == 'lit' and ap.out[2].a == '\r\n'
        else:
            ok = False
        ctx.ob(R2, 'handle_received_data', ok, 'error of class %s is answered by %r' % (k[0], ap.out), ap.where(), ap.p)
    for c in ('protocol', 'numeric', 'incomplete', 'broken', 'server', 'std'):
        ctx.ob(R2, 'handle_received_data', n.get(c, 0) > 0, 'errors of class %s have no handler' % c, av.root().where)
