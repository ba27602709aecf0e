"""C01..C10: rules over the summaries of the public Cache operations."""
from cacheview import *
from engine import *


def cmd_paths(ctx, cmds):
    cv = cacheview()
    for c in cmds:
        ps = cv.paths(c)
        ctx.covered(cv.prog.fn('drv_' + c), [p.p for p in ps])
        for p in ps:
            yield c, p


def lastcell(p, base, off):
    """last value stored at base+off (exact address) on the path"""
    a = ptr(base, off)
    v = None
    for e in p.p.events:
        if e.kind == 'store' and e.addr is a:
            v = e.val
    return v


class Slot:
    """Abstract content of the index slot of the command's key along one path."""

    def __init__(self, cp):
        self.cp = cp
        self.err = []
        self.content = 'unknown'     # 'unknown' | 'absent' | term
        self.prior = None            # 'absent' | 'live' | 'dead' | 'unchecked' (found but expiry not decided)
        self.old = None
        self.freed = []              # (term, event)
        self.inserted = []           # (term, event)
        self.removed = []            # (term, event)
        self.allocs = []
        self.at = None
        self.run()

    def fail(self, rule, e, msg):
        self.err.append((rule, e, msg))

    def key_ok(self, key, h):
        """lookup key is the command's key"""
        cp, cv = self.cp, self.cp.cv
        if cp.cmd in STORE:
            it = cp.arg(0)
            kb = ptr(it, cv.item_size)
            ok = strip(key.b) is kb and strip(key.e) is ptr(kb, 0, ((cast('zext', mk('load', ptr(it, cv.off['m_key_length']), 1, 0), 64, 8), 1),))
            return ok and strip(h) is mk('load', ptr(it, cv.off['m_hash']), 4, 0)
        if key.b is cp.arg(0) and key.e is cp.arg(1) and h is cp.arg(2):
            return True
        if self.old is not None:
            # repeated lookup by the found item's own key
            return self.is_key_of(key, self.old) and (strip(h) is mk('load', ptr(self.old, cv.off['m_hash']), 4, 0) or h is cp.arg(2))
        return False

    def is_key_of(self, key, item):
        cv = self.cp.cv
        kb = ptr(item, cv.item_size)
        kl = mk('load', ptr(item, cv.off['m_key_length']), 1, 0)
        ends = [ptr(kb, 0, ((cast('zext', kl, 64, 8), 1),))]
        for e in self.cp.p.events:
            if e.kind == 'store' and e.addr is ptr(item, cv.off['m_key_length']):
                v = strip(e.val)
                ends.append(ptr(kb, 0, ((cast('zext', v, 64, 8), 1),)))
                if v.op == 'cast' and v.a[0] == 'trunc' and v.a[3] == 64:
                    ends.append(ptr(kb, 0, ((v.a[1], 1),)))
        return strip(key.b) is kb and strip(key.e) in ends

    def run(self):
        cp, cv = self.cp, self.cp.cv
        for kind, e, d in cp.acts:
            if kind == 'lookup':
                if d.this is not ptr(cp.cache, cv.dict_off):
                    self.fail('lookup-own-index', e, 'lookup in %s instead of the cache index' % show(d.this))
                if not self.key_ok(d.key, d.hash):
                    self.fail('lookup-own-key', e, 'index is searched for %s / hash %s, which is not the key of the command' % (d.key, show(d.hash)))
                if d.threw:
                    continue
                f = cp.found(d)
                self.at = d.at.key()
                self.at_valid = True
                d.item = mk('itemat', d.at.t, d.at.p, self.epoch_after(e))
                if f is None:
                    if self.content == 'unknown':
                        self.content, self.prior = 'unknown', None
                elif f:
                    if self.content in ('unknown', 'absent') or not isinstance(self.content, T) or self.content.op == 'itemat':
                        self.content = d.item
                    self.old = d.item
                    self.oldlook = d
                    if self.prior is None:
                        x = cp.expiry(d.item)
                        self.prior = x or 'unchecked'
                else:
                    self.content = 'absent'
                    if self.prior is None:
                        self.prior = 'absent'
            elif kind == 'remove':
                it = d[0]
                if self.at is None or it.key() != self.at:
                    self.fail('index-position', e, 'removes at %s which is not the position of the key' % it)
                elif not isinstance(self.content, T):
                    self.fail('index-position', e, 'removes at a position where the key was not found')
                else:
                    self.removed.append((self.content, e))
                    self.content = 'absent'
            elif kind == 'del':
                if not (self.key_ok(d[0], d[1]) or (self.old is not None and self.is_key_of(d[0], self.old))):
                    self.fail('lookup-own-key', e, 'deletes another key from the index')
                elif isinstance(self.content, T):
                    self.removed.append((self.content, e))
                self.content = 'absent'
            elif kind == 'insert':
                at, key, h, item = d[0], d[1], d[2], d[3]
                if self.at is None or at.key() != self.at:
                    self.fail('index-position', e, 'inserts at %s which is not the position obtained for the key' % at)
                if isinstance(self.content, T):
                    self.fail('insert-only-absent', e, 'inserts a second entry while the key is present')
                self.check_entry(e, key, h, item)
                self.inserted.append((item, e))
                self.content = item
            elif kind == 'replace':
                at, key, h, item = d[0], d[1], d[2], d[3]
                if self.at is None or at.key() != self.at:
                    self.fail('index-position', e, 'overwrites slot %s which is not the position of the key' % at)
                if not isinstance(self.content, T):
                    self.fail('replace-only-present', e, 'overwrites an index slot although the key was not found there')
                else:
                    self.removed.append((self.content, e))
                self.check_entry(e, key, h, item)
                self.inserted.append((item, e))
                self.content = item
            elif kind == 'free':
                self.freed.append((d, e))
            elif kind == 'alloc' and not e.threw:
                self.allocs.append((e.res, e, d))

    def epoch_after(self, e):
        # epoch counter at the point after event e: number of index-restructuring events up to and including e
        n = 0
        for x in self.cp.p.events:
            if x.kind == 'call' and x.name in BUMPS and not (x.name == M + 'alloc_or_evict' and isc(params(x)[2][1], 0)):
                n += 1
            if x is e:
                break
        return n

    def check_entry(self, e, key, h, item):
        cv = self.cp.cv
        if not self.is_key_of(key, item):
            self.fail('entry-own-key', e, 'index entry for item %s is made with key %s, not the key of that item' % (show(item), key))
        ok = strip(h) is mk('load', ptr(item, cv.off['m_hash']), 4, 0)
        if not ok:
            v = lastcell(self.cp, item, cv.off['m_hash'])
            ok = v is not None and strip(v) is strip(h)
        if not ok:
            self.fail('entry-own-key', e, 'index entry for item %s is made with hash %s, not the hash of that item' % (show(item), show(h)))


BUMPS = tuple(D + n for n in ('entry_for', 'insert', 'remove', 'del', 'remove_if', 'clear')) + (M + 'alloc_or_evict',)


def slot(cp):
    if not hasattr(cp, '_slot'):
        cp._slot = Slot(cp)
    return cp._slot


def fresh(sl, t):
    return any(t is r for r, e, d in sl.allocs)


def result(cp):
    """reported result of the command on a returning path -> tuple of True/False/None or terms"""
    cv, p = cp.cv, cp.p
    if cp.cmd == 'get':
        return (p.ret,)
    if cp.cmd == 'set':
        return ()
    if cp.cmd == 'cas':
        if cp.sret() is None:
            raise AnalysisError('cas result shape')
        return tuple(p.truth(lastcell(cp, cp.sret(), cv.probe_off(f))) for f in ('prb_cas_found', 'prb_cas_stored'))
    if cp.cmd in ('incr', 'decr'):
        if cp.sret() is None:
            raise AnalysisError('incr result shape')
        return (p.truth(lastcell(cp, cp.sret(), cv.probe_off('prb_ar_found'))), lastcell(cp, cp.sret(), cv.probe_off('prb_ar_value')))
    return (p.truth(p.ret),)


def cas_fact(cp, old):
    """True/False/None: does the path establish  given unique number == number of the stored version"""
    t = mk('load', ptr(old, cp.cv.off['m_timestamp']), 8, 0)
    for a, v in cp.p.flist:
        if a.op == 'atom' and a.a[0] == 'eq':
            x, y = strip(a.a[1]), strip(a.a[2])
            if (x is t and y is cp.arg(1)) or (y is t and x is cp.arg(1)):
                return v
    return None


def C01(ctx):
    ctx.rule('conditional-effect', 'the content of the key\'s index slot at the end of each path is the one the command\'s condition table prescribes')
    ctx.rule('result-matches-effect', 'the value reported to the caller is the one prescribed for that effect')
    ctx.rule('own-key-only', 'every index access of a command uses the key and hash of that command, at the position obtained for it')
    ctx.rule('failure-leaves-content', 'a path that ends with an exception leaves the key\'s entry unchanged (expired entries may have been dropped)')
    ctx.assume('dict::entry_for/insert/remove/replace behave as stated in H01-H03; memalloc as in M01-M05')
    n = {}
    for c, cp in cmd_paths(ctx, CMDS):
        if cp.p.outcome in ('terminate', 'noreturn', 'backedge'):
            continue
        sl = slot(cp)
        fn = 'Cache::do_' + c
        w = lastloc(cp)
        bad = [x for x in sl.err]
        ctx.ob('own-key-only', fn, not bad, '; '.join(m for r, e, m in bad) or 'index accesses use the command\'s own key', cp.where(bad[0][1]) if bad else w, cp.p)
        if any(k == 'bulk' for k, e, d in cp.acts):
            ctx.ob('own-key-only', fn, False, 'bulk removal inside a single-key command', w, cp.p)
        prior = sl.prior
        if cp.p.outcome == 'unwind':
            good = sl.content == 'unknown' or (prior in ('live', 'unchecked') and sl.content is sl.old) or (prior in ('absent', 'dead') and sl.content == 'absent')
            ctx.ob('failure-leaves-content', fn, good, 'entry is %s although the command fails' % desc(sl), w, cp.p)
            continue
        if prior is None:
            ctx.ob('conditional-effect', fn, False, 'command completes without having looked its key up', w, cp.p)
            continue
        if prior == 'unchecked':
            prior = 'live'
        live = prior == 'live'
        item = cp.arg(0) if c in STORE else None
        exp, res = None, None
        if c == 'set':
            exp, res = item, ()
        elif c == 'add':
            exp, res = (sl.old, (False,)) if live else (item, (True,))
        elif c == 'replace':
            exp, res = (item, (True,)) if live else ('absent', (False,))
        elif c == 'cas':
            if not live:
                exp, res = 'absent', (False, False)
            else:
                eq = cas_fact(cp, sl.old)
                if eq is None:
                    # the unique numbers were not compared: legitimate only if nothing was decided on them
                    ctx.ob('conditional-effect', fn, False, 'key found but the unique number was not compared with the one of the stored item', w, cp.p)
                    continue
                exp, res = (item, (True, True)) if eq else (sl.old, (True, False))
        elif c in ('append', 'prepend'):
            exp, res = ('fresh', (True,)) if live else ('absent', (False,))
        elif c == 'delete':
            exp, res = 'absent', (live,)
        elif c == 'touch':
            exp, res = (sl.old, (True,)) if live else ('absent', (False,))
        elif c == 'get':
            exp, res = (sl.old, (sl.old,)) if live else ('absent', (NULL,))
        elif c in ('incr', 'decr'):
            exp, res = ('fresh', (True, 'any')) if live else ('absent', (False, 'any'))
        okc = (fresh(sl, sl.content) if exp == 'fresh' else sl.content is exp or sl.content == exp) if isinstance(sl.content, T) or exp != 'fresh' else False
        ctx.ob('conditional-effect', fn, okc, 'key %s before: entry must be %s afterwards but is %s' % (prior, descx(cp, sl, exp), desc(sl)), w, cp.p)
        got = result(cp)
        okr = len(got) == len(res) and all(r == 'any' or g is r or (not isinstance(r, T) and g == r) for g, r in zip(got, res))
        ctx.ob('result-matches-effect', fn, okr, 'key %s before: result must be %s but is %s' % (prior, sh(res), sh(got)), w, cp.p)
        n.setdefault(c, set()).add(prior)
    need = {'set': 2, 'add': 2, 'replace': 2, 'cas': 2, 'append': 2, 'prepend': 2, 'delete': 2, 'touch': 2, 'get': 2, 'incr': 2, 'decr': 2}
    for c, k in need.items():
        pr = n.get(c, set())
        ctx.ob('conditional-effect', 'Cache::do_' + c, 'live' in pr and ('absent' in pr or 'dead' in pr), 'both the found and the not-found outcome exist (%s)' % sorted(pr), 'src/cachelot/cache.h')


def sh(t):
    return '(' + ', '.join(show(x) if isinstance(x, T) else str(x) for x in t) + ')'


def desc(sl):
    return descx(sl.cp, sl, sl.content)


def descx(cp, sl, c):
    if c == 'fresh':
        return 'a newly created item'
    if isinstance(c, T):
        if c is sl.old:
            return 'the existing item'
        if cp.cmd in STORE and c is cp.arg(0):
            return 'the supplied item'
        if fresh(sl, c):
            return 'a newly created item'
        return show(c)
    return str(c)


def lastloc(cp):
    for e in reversed(cp.p.events):
        if e.loc and e.loc.j and e.loc.repo().startswith('src/'):
            return e.loc.repo()
    return '?'


def C02(ctx):
    ctx.rule('released-exactly-once', 'an item that is not reachable when the command ends has been released exactly once')
    ctx.rule('reachable-not-released', 'an item that is reachable when the command ends has not been released')
    ctx.rule('no-use-after-release', 'released items are not read, written, indexed or released again')
    ctx.rule('release-only-owned', 'a command releases only items it owns: the supplied one, one it created, or one it took out of the index')
    ctx.assume('memalloc::free releases exactly the given block (M03)')
    for c, cp in cmd_paths(ctx, CMDS + ['destroy', 'create']):
        fn = 'Cache::' + ('destroy_item' if c == 'destroy' else 'create_item' if c == 'create' else 'do_' + c)
        if cp.p.outcome in ('terminate', 'noreturn', 'backedge'):
            continue
        w = lastloc(cp)
        if c == 'destroy':
            fr = [d for k, e, d in cp.acts if k == 'free']
            ctx.ob('released-exactly-once', fn, fr == [mk('arg', 1)], 'destroy_item releases the given item exactly once (releases: %s)' % ', '.join(map(show, fr)), w, cp.p)
            continue
        sl = slot(cp)
        if c == 'create':
            fr = [d for k, e, d in cp.acts if k == 'free']
            for r, e, d in sl.allocs:
                null = cp.p.truth(cmp('eq', r, NULL, 64))
                if null:
                    continue
                if cp.p.outcome == 'ret':
                    ctx.ob('released-exactly-once', fn, cp.p.ret is r and not fr, 'the created item is handed to the caller', w, cp.p)
                else:
                    ctx.ob('released-exactly-once', fn, sum(x is r for x in fr) == 1, 'memory obtained for the new item is released when creation fails', w, cp.p)
            continue
        owned = []
        if c in STORE:
            owned.append((cp.arg(0), 'the supplied item'))
        for r, e, d in sl.allocs:
            if not cp.p.truth(cmp('eq', r, NULL, 64)):
                owned.append((r, 'the newly created item'))
        for t, e in sl.removed:
            if t.op == 'itemat':
                owned.append((t, 'the item taken out of the index'))
        reach = sl.content if isinstance(sl.content, T) else None
        for t, nm in owned:
            k = sum(1 for x, e in sl.freed if x is t)
            if reach is t:
                ctx.ob('reachable-not-released', fn, k == 0, '%s stays in the index but was released %d time(s)' % (nm, k), w, cp.p)
            else:
                ctx.ob('released-exactly-once', fn, k == 1, '%s is not reachable at the end and was released %d time(s)' % (nm, k), w, cp.p)
        if reach is not None and reach.op == 'itemat':
            k = sum(1 for x, e in sl.freed if x is reach)
            ctx.ob('reachable-not-released', fn, k == 0, 'the existing item stays in the index but was released %d time(s)' % k, w, cp.p)
        names = [t for t, _ in owned] + ([reach] if reach is not None else [])
        for t, e in sl.freed:
            ctx.ob('release-only-owned', fn, any(t is x for x in names), 'releases %s' % show(t), cp.where(e), cp.p)
        # use after release
        gone = {}
        for k, e, d in cp.acts:
            uses = []
            if k in ('load', 'store'):
                uses = [e.addr]
            elif k == 'copy':
                uses = [e.args[0], e.args[1]]
            elif k in ('touch', 'free'):
                uses = [d]
            elif k in ('insert', 'replace'):
                uses = [d[3]]
            elif k == 'lookup':
                uses = [d.key.b]
            elif k == 'del':
                uses = [d[0].b]
            elif k == 'call':
                uses = list(e.args)
            for u in uses:
                b = split_ptr(u)[0] if isinstance(u, T) else None
                if b is not None and b in gone:
                    ctx.ob('no-use-after-release', fn, False, 'item %s released at %s is used again (%s)' % (show(b), gone[b], e.name or e.kind), cp.where(e), cp.p)
            if k == 'free':
                gone[d] = cp.where(e)
        if cp.p.outcome == 'ret' and isinstance(cp.p.ret, T) and cp.p.ret in gone:
            ctx.ob('no-use-after-release', fn, False, 'returns a released item', w, cp.p)
        ctx.ob('no-use-after-release', fn, True, 'released: %s' % ', '.join(show(x) for x in gone), w)



# ----------------------------------------------------------------------------- C03
def uses_of(k, e, d):
    """pointers an action dereferences or hands on"""
    if k in ('load', 'store'):
        return [e.addr]
    if k == 'copy':
        return [e.args[0], e.args[1]]
    if k in ('touch', 'free'):
        return [d]
    if k in ('insert', 'replace'):
        return [d[3], d[1].b]
    if k == 'lookup':
        return [d.key.b]
    if k == 'del':
        return [d[0].b]
    if k == 'call':
        return [a for a in e.args if isinstance(a, T)]
    return []


def base(t):
    return split_ptr(t)[0]


def is_dead_term(t, exp):
    """t is the expression  expiration <= now"""
    return t.op == 'not' and t.a[0].op == 'atom' and t.a[0].a[0] == 'ult' and is_now(t.a[0].a[1]) and strip(t.a[0].a[2]) is exp


def expiry_fact(p, exp):
    for atom, val in p.flist:
        if atom.op != 'atom':
            continue
        if atom.a[0] == 'ult' and is_now(atom.a[1]) and strip(atom.a[2]) is exp:
            return 'live' if val else 'dead'
        if atom.a[0] == 'eq' and strip(atom.a[1]) is exp and isc(atom.a[2], 0xffffffff) and val:
            return 'live'
    return None


def C03(ctx):
    cv = cacheview()
    P = cv.prog
    ctx.rule('expired-iff', 'Item::is_expired is true exactly when the expiration time is not later than the clock')
    ctx.rule('ttl-to-expiration', 'time-to-live 0 sets no expiration; any other sets now + ttl (or never, if that time does not exist)')
    ctx.rule('expiration-assigned', 'a created item and a touched item expire as their time-to-live prescribes; a version made by append/prepend/incr/decr expires when the old one did; nothing else changes an expiration time')
    ctx.rule('steady-clock', 'the expiration clock is the steady clock in whole seconds')
    ctx.rule('expiry-decided', 'every item a command finds is compared with the clock before the command relies on it')
    ctx.rule('expired-is-removed', 'an item found expired is taken out of the index, released, and neither written, refreshed nor returned')
    ctx.rule('flush-only-expired', 'flush_all removes and releases an item exactly when it is expired, in every table and slot')
    # is_expired
    o = cv.off['m_expiration_time']
    ex = mk('load', ptr(mk('arg', 0), o), 4, 0)
    ps = explore(P, 'prb_expired', cv.model())
    ctx.covered(P.fn('prb_expired'), ps)
    for p in ps:
        f = expiry_fact(p, ex)
        t = p.truth(p.ret)
        if t is None:
            ok = is_dead_term(p.ret, ex)
        else:
            ok = f == ('dead' if t else 'live')
        ctx.ob('expired-iff', 'Item::is_expired', ok, 'returns %s under %s' % (show(p.ret), f), 'src/cachelot/item.h', p)
    # set_ttl
    ps = explore(P, 'prb_set_ttl', cv.model())
    ctx.covered(P.fn('prb_set_ttl'), ps)
    a1 = mk('arg', 1)
    for p in ps:
        st = [e for e in p.events if e.kind == 'store']
        where = st[-1].loc.repo() if st else 'src/cachelot/item.h'
        if not st or any(e.addr is not ptr(mk('arg', 0), o) or e.size != 4 for e in st):
            ctx.ob('ttl-to-expiration', 'Item::set_ttl', False, 'does not write the expiration time exactly', where, p)
            continue
        z = p.truth(cmp('eq', a1, C(0, 32), 32))
        v = st[-1].val
        ctx.ob('ttl-to-expiration', 'Item::set_ttl', ttl_value(p, v, a1, z), 'ttl %s: expiration becomes %s' % ('zero' if z else 'non-zero' if z is False else 'any', show(v)), where, p)
    # constructor
    ps = explore(P, 'prb_item_ctor', cv.model())
    ctx.covered(P.fn('prb_item_ctor'), ps)
    for p in ps:
        st = [e for e in p.stores() if e.addr is ptr(mk('arg', 0), o)]
        z = p.truth(cmp('eq', mk('arg', 6), C(0, 32), 32))
        ctx.ob('expiration-assigned', 'Item::Item', bool(st) and ttl_value(p, st[-1].val, mk('arg', 6), z), 'time-to-live %s: a new item expires at %s' % ('zero' if z else 'non-zero' if z is False else 'any', show(st[-1].val) if st else 'nothing'), st[-1].loc.repo() if st else 'src/cachelot/item.h', p)
    # clock
    ps = explore(P, NOW, Model())
    ctx.covered(P.fn(NOW), ps)
    for p in ps:
        cs = [e for e in p.events if e.kind == 'call']
        ok = len(cs) == 1 and cs[0].name == 'std::chrono::_V2::steady_clock::now'
        r = p.ret
        if ok and r.op == 'cast' and r.a[0] == 'trunc':
            r = r.a[1]
        ok = ok and r.op == 'bin' and r.a[0] in ('sdiv', 'udiv') and r.a[1] is cs[0].res and isc(r.a[2], 10 ** 9)
        ctx.ob('steady-clock', 'ExpirationClock::now', ok, 'now() is %s' % show(p.ret), 'src/cachelot/expiration_clock.h', p)
    # commands
    for c, cp in cmd_paths(ctx, CMDS):
        if cp.p.outcome not in ('ret', 'unwind'):
            continue
        fn = 'Cache::do_' + c
        sl = slot(cp)
        expirations(ctx, cv, c, cp, sl, fn)
        first = True
        for L in cp.lookups:
            if not cp.found(L):
                continue
            item = L.item
            x = cp.expiry(item)
            acts = [(k, e, d) for k, e, d in cp.acts if e.n > L.e.n]
            used = [e for k, e, d in acts if k != 'load' and k != 'value' and any(base(u) is item for u in uses_of(k, e, d)) and not (k == 'copy' and base(e.args[0]).op == 'alloca')]
            if first and cp.p.outcome == 'ret':
                if x is None:
                    gone = any(k == 'free' and d is item for k, e, d in acts)
                    ok = c == 'set' and gone
                    ctx.ob('expiry-decided', fn, ok, 'item found for the key is used without comparing its expiration time with the clock', cp.where(used[0]) if used else lastloc(cp), cp.p)
                else:
                    # the decision precedes every use
                    pos = next(i for i, (a, v) in enumerate(cp.p.flist) if is_exp_atom(cv, a, item))
                    early = [e for e in used if e.fpos <= pos and e.name != M + 'touch']
                    ctx.ob('expiry-decided', fn, not early, 'item is used before its expiration time is compared with the clock', cp.where(early[0]) if early else lastloc(cp), cp.p)
            first = False
            if x == 'dead':
                rm = [e for t, e in sl.removed if t is item]
                fr = [e for t, e in sl.freed if t is item]
                other = [e for k, e, d in acts if k in ('store', 'copy', 'touch') and any(base(u) is item for u in uses_of(k, e, d)[:1])]
                cpy = [e for k, e, d in acts if k == 'copy' and base(d[1]) is item]
                ok = len(rm) == 1 and len(fr) == 1 and not other and not cpy and cp.p.ret is not item
                ctx.ob('expired-is-removed', fn, ok, 'expired item: %d removal(s), %d release(s), %d write(s)/refresh(es)/copy(ies)%s' % (len(rm), len(fr), len(other) + len(cpy), ', returned' if cp.p.ret is item else ''), lastloc(cp), cp.p)
    flush_rule(ctx, cv)


def touched(cp, sl):
    """the store that decides when a touched item expires, and whether it is the prescribed time"""
    st = [e for e in cp.p.stores() if base(e.addr) is sl.old and split_ptr(e.addr)[1] == cp.cv.off['m_expiration_time'] and not split_ptr(e.addr)[2]]
    z = cp.p.truth(cmp('eq', cp.arg(3), C(0, 32), 32))
    return st, len(st) >= 1 and ttl_value(cp.p, st[-1].val, cp.arg(3), z)


def expirations(ctx, cv, c, cp, sl, fn):
    o = cv.off['m_expiration_time']
    if c == 'touch' and cp.p.outcome == 'ret' and sl.prior == 'live':
        st, ok = touched(cp, sl)
        ctx.ob('expiration-assigned', fn, ok, 'touch sets the expiration time to %s' % (show(st[-1].val) if st else 'nothing'), cp.where(st[-1]) if st else lastloc(cp), cp.p)
    if c != 'touch':
        bad = [e for e in cp.p.stores() for b, k, vs in [split_ptr(e.addr)] if (b.op == 'itemat' or (c in STORE and b is cp.arg(0))) and not vs and k < o + 4 and k + e.size > o]
        ctx.ob('expiration-assigned', fn, not bad, 'changes the expiration time of an existing or supplied item', cp.where(bad[0]) if bad else lastloc(cp), cp.p)
    if c in ('append', 'prepend', 'incr', 'decr') and cp.p.outcome == 'ret' and isinstance(sl.content, T) and fresh(sl, sl.content):
        old = ItemTerms(cv, [L for L in cp.lookups if cp.found(L)][0].item)
        x = new_version(cp, sl, sl.content).get('m_expiration_time')
        ctx.ob('expiration-assigned', fn, x is not None and x[0] is old.exp, 'the new version expires at %s' % (show(x[0]) if x else 'nothing'), cp.where(x[1]) if x else lastloc(cp), cp.p)


def is_exp_atom(cv, a, item):
    ex = item_exp(cv, item)
    return a.op == 'atom' and ((a.a[0] == 'ult' and strip(a.a[2]) is ex and is_now(a.a[1])) or (a.a[0] == 'eq' and strip(a.a[1]) is ex and isc(a.a[2], 0xffffffff)))


def ttl_value(p, v, ttl, zero):
    """v is the expiration prescribed for time-to-live term `ttl`"""
    MAX = 0xffffffff
    if v.op == 'sel':
        c, x, y = v.a
        if c is cmp('eq', ttl, C(0, 32), 32):
            return isc(x, MAX) and ttl_value(p, y, ttl, False)
        if c is neg(cmp('eq', ttl, C(0, 32), 32)):
            return isc(y, MAX) and ttl_value(p, x, ttl, False)
        return False
    if zero:
        return isc(v, MAX)
    if zero is None:
        return False
    if isc(v, MAX):
        nows = [e.res for e in p.events if e.kind == 'call' and e.name == NOW]
        return any(add_overflow(p, n, ttl, 32) is True or at_least(p, n, ttl) for n in nows)
    if v.op == 'intr' and 'uadd.sat.i32' in v.a[0]:
        return (is_now(v.a[1]) and v.a[2] is ttl) or (is_now(v.a[2]) and v.a[1] is ttl)
    if v.op == 'bin' and v.a[0] == 'add':
        for n, t in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if is_now(n) and t is ttl:
                return add_overflow(p, n, ttl, 32) is False
    return False


def at_least(p, n, ttl):
    """ttl >= MAX - now"""
    lim = binop('sub', C(0xffffffff, 32), n, 32)
    for a, v in p.flist:
        if a.op == 'atom' and a.a[0] == 'ult' and same(a.a[1], ttl, 32) and same(a.a[2], lim, 32) and not v:
            return True
    return False


def flush_rule(ctx, cv):
    P = cv.prog
    # do_flush_all must hand the whole index to remove_if once
    ps = explore(P, 'drv_flush', cv.model())
    ctx.covered(P.fn('drv_flush'), ps)
    for p in ps:
        cs = p.calls(D + 'remove_if')
        ctx.ob('flush-only-expired', 'Cache::do_flush_all', len(cs) == 1 and cs[0].args[0] is ptr(mk('arg', 0), cv.dict_off), 'flush_all sweeps the index once (%d sweeps)' % len(cs), 'src/cachelot/cache.h', p)
    fns = [f for f in P.fns if f.name == D + 'remove_if' and 'do_flush_all' in f.full]
    if len(fns) != 1:
        raise AnalysisError('flush_all: %d sweeps' % len(fns))
    sweep_rule(ctx, cv, fns[0], 'flush-only-expired', 'Cache::do_flush_all', lambda p, item: expiry_fact(p, item_exp(cv, item)) == 'dead',
               lambda p, item: expiry_fact(p, item_exp(cv, item)) == 'live')


HT_REMOVE = 'cachelot::hash_table::remove'


def sweep_rule(ctx, cv, fn, rule, name, must, mustnot):
    """dict::remove_if instantiation: each slot of each table is visited; remove+free exactly when `must`"""
    P = cv.prog
    HT = ht_fields(P)
    ps = explore(P, fn, Model(clobbers=[NOW, M + 'free'], load_events=True))
    ctx.covered(fn, ps)
    loops = {}
    for p in ps:
        for e in p.events:
            if e.kind == 'loop':
                loops.setdefault(e.x[0], []).append((p, e))
    exits = [p for p in ps if p.outcome == 'ret']
    tabs = {}
    for p in ps:
        if p.outcome in ('terminate',):
            continue
        rm = [e for e in p.events if e.kind == 'call' and e.name == HT_REMOVE]
        fr = [e for e in p.events if e.kind == 'call' and e.name == M + 'free']
        nw = [e for e in p.events if e.kind == 'call' and e.name == NOW]
        # at most one item per traversal of a loop body on this path; items are what is freed / compared
        items = set()
        for e in fr:
            items.add(e.args[-1])
        for a, v in p.flist:
            if a.op == 'atom' and a.a[0] == 'ult' and is_now(a.a[1]):
                b = base(a.a[2].a[0]) if a.a[2].op == 'load' else None
                if b is not None:
                    items.add(b)
        for it in items:
            nf = sum(1 for e in fr if e.args[-1] is it)
            if mustnot is not None and mustnot(p, it):
                ctx.ob(rule, name, nf == 0 and not rm, 'an item that must stay is removed or released', lastrepo(p), p)
            elif must(p, it):
                # the item must come from the removed slot of the same table
                ok = nf == 1 and len(rm) == 1 and slot_of(P, HT, it, rm[0].args[0], rm[0].args[1])
                ctx.ob(rule, name, ok, 'item to drop: released %d time(s), slot removals %d (of its own slot: %s)' % (nf, len(rm), ok), lastrepo(p), p)
            else:
                ctx.ob(rule, name, False, 'an item is released or removed without the prescribed condition', lastrepo(p), p)
        if not items:
            ctx.ob(rule, name, not rm, 'a slot is removed without looking at its item', lastrepo(p), p)
    # coverage of slots: each loop counts 0,1,2.. up to the capacity of its table
    for h, les in loops.items():
        for p, e in les:
            init = e.x[1]
            phis = [k for k, v in init.items() if isc(v, 0)]
            # a loop without a counter of its own repeats the same slot: only after a removal
            ok = bool(phis) or (not init and any(x.kind == 'loop' and x.n < e.n and x.x[0] != h for x in p.events))
            for q in ps:
                if q.outcome == 'backedge' and q.x[0] == h:
                    rm = [x for x in q.events if x.kind == 'call' and x.name == HT_REMOVE and x.n > lastloop(q, h).n]
                    ok1 = not phis and bool(rm)
                    for k in phis:
                        lv = mk('lv', h, k)
                        nv = q.x[1].get(k)
                        step = diff(nv, lv, 32) if nv is not None else None
                        if (step == 1 and not rm) or (step == 0 and rm):
                            ok1 = True
                    ok = ok and ok1
            ctx.ob(rule, name, ok, 'slot counter starts at zero and advances by one exactly when the slot was kept', 'src/cachelot/hash_table.h', p)
    # leaving the loop only at capacity, and every table that exists is swept
    prim, sec = ptr(mk('arg', 0), P_field(P, 'm_primary_tbl')), ptr(mk('arg', 0), P_field(P, 'm_secondary_tbl'))
    for p in exits:
        swept = []
        for a, v in p.flist:
            if a.op == 'atom' and a.a[0] in ('ult', 'eq') and not (a.a[0] == 'ult' and v):
                for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                    if y.op == 'load' and split_ptr(y.a[0])[1] == HT['m_capacity'] and (x.op == 'lv' or isc(x, 0)) and (a.a[0] == 'ult' or v):
                        swept.append(base(y.a[0]))
        need = []
        for t in (sec, prim):
            l = mk('load', t, 8, 0)
            null = None
            for a, v in p.flist:
                if a.op == 'atom' and a.a[0] == 'eq' and strip(a.a[1]) is l and isc(a.a[2], 0):
                    null = v
            if t is sec and null is not False:
                if null is None:
                    need.append(l)
                continue
            need.append(l)
        have = [strip(x) for x in swept]
        ctx.ob(rule, name, all(x in have for x in need), 'sweeps the complete range of %d table(s), %d exist' % (len(have), len(need)), 'src/cachelot/dict.h', p)
    ctx.ob(rule, name, bool(loops) and bool(exits), 'the sweep visits slots and ends', 'src/cachelot/dict.h')


def P_field(P, m):
    for k in P.layout:
        if k.startswith('cachelot::dict<') and '::' not in k[k.rindex('>'):] and m in P.layout[k]['m']:
            return P.layout[k]['m'][m][0] // 8
    raise AnalysisError('anchor field dict::%s not found' % m)


def ht_fields(P):
    for k in P.layout:
        if k.startswith('cachelot::hash_table<') and 'm_capacity' in P.layout[k]['m'] and 'ItemDictEntry' in k:
            return {n: v[0] // 8 for n, v in P.layout[k]['m'].items()}
    for k in P.layout:
        if k.startswith('cachelot::hash_table<') and 'm_capacity' in P.layout[k]['m']:
            return {n: v[0] // 8 for n, v in P.layout[k]['m'].items()}
    raise AnalysisError('anchor struct hash_table not found')


def slot_of(P, HT, item, tbl, pos):
    """item is the value stored in m_entries[pos] of tbl"""
    if item.op != 'load':
        return False
    b, o, vs = split_ptr(strip(item.a[0]))
    ent = mk('load', ptr(strip(tbl), HT['m_entries']), 8, 0)
    if b is not ent or len(vs) != 1:
        return False
    x = vs[0][0]
    return x is cast('zext', strip(pos), 64, 32) or x is strip(pos)


def lastloop(p, h):
    r = None
    for e in p.events:
        if e.kind == 'loop' and e.x[0] == h:
            r = e
    return r


def lastrepo(p):
    for e in reversed(p.events):
        if e.loc and e.loc.j and e.loc.repo().startswith('src/'):
            return e.loc.repo()
    return '?'


# ----------------------------------------------------------------------------- C04
def C04(ctx):
    cv = cacheview()
    ctx.rule('fresh-number', 'every new item gets the cache\'s advanced unique-number counter, by the same convention at every creation site')
    ctx.rule('counter-only-grows', 'the unique-number counter changes only by increments')
    ctx.rule('number-is-immutable', 'the unique number of an existing or supplied item is never written')
    ctx.rule('version-is-immutable', 'the key, value and flags that go with the number of an existing item are never written; a changed value is a new version')
    ctx.rule('cas-compares', 'compare-and-swap replaces only under the fact that the given number equals the stored item\'s number')
    conv = {}
    for c, cp in cmd_paths(ctx, CMDS + ['create', 'destroy']):
        if cp.p.outcome in ('terminate', 'noreturn', 'backedge'):
            continue
        fn = fname(c)
        sl = slot(cp) if c != 'destroy' else None
        ctr = ptr(cp.cache, cv.newest_off)
        lt = mk('load', ctr, 8, 0)
        bumps = []
        for e in cp.p.stores():
            if e.addr is ctr:
                d = diff(strip(e.val), lt)
                ok = d is not None and 0 < d < 1 << 32 and e.size == 8
                ctx.ob('counter-only-grows', fn, ok, 'counter becomes %s' % show(e.val), cp.where(e), cp.p)
                bumps.append((e, d))
        if sl is None:
            continue
        for t, e, d in sl.allocs:
            ts = [x for x in cp.p.stores() if base(x.addr) is t and split_ptr(x.addr)[1] == cv.off['m_timestamp'] and not split_ptr(x.addr)[2]]
            if not ts:
                if any(base(x.addr) is t for x in cp.p.stores()):
                    ctx.ob('fresh-number', fn, False, 'new item has no unique number', cp.where(e), cp.p)
                continue
            d = diff(strip(ts[-1].val), lt)
            ok = len(ts) == 1 and ts[0].size == 8 and len(bumps) == 1 and d is not None and bumps[0][1] is not None and 0 <= d <= bumps[0][1]
            k = 'after' if ok and d == bumps[0][1] else 'before'
            ctx.ob('fresh-number', fn, ok and d in (0, bumps[0][1]), 'number of the new item is counter%+d while the counter advances by %s' % (d if d is not None else 0, bumps[0][1] if bumps else 'nothing'), cp.where(ts[-1]), cp.p)
            if ok:
                conv.setdefault(k, (fn, cp.where(ts[-1])))
        for x in cp.p.stores():
            b, o, vs = split_ptr(x.addr)
            if (b.op == 'itemat' or (c in STORE and b is cp.arg(0))) and not vs and o < cv.off['m_timestamp'] + 8 and o + x.size > cv.off['m_timestamp']:
                ctx.ob('number-is-immutable', fn, False, 'writes the unique number of an existing item', cp.where(x), cp.p)
        for k, e, d in cp.acts:
            if k == 'copy' and (base(d[0]).op == 'itemat' or (c in STORE and base(d[0]) is cp.arg(0))):
                ctx.ob('number-is-immutable', fn, not (not split_ptr(d[0])[2] and split_ptr(d[0])[1] < 8), 'copies over the header of an existing item', cp.where(e), cp.p)
        ctx.ob('number-is-immutable', fn, True, 'no write to existing numbers')
        bad = []
        for k, e, d in cp.acts:
            if k not in ('store', 'copy'):
                continue
            b, o, vs = split_ptr(e.addr if k == 'store' else d[0])
            if b.op == 'itemat' and not (k == 'store' and not vs and o < cv.item_size and not any(o < f + n and o + e.size > f for f, n in ((cv.off['m_value_length'], 4), (cv.off['m_key_length'], 1), (cv.off['m_opaque_flags'], 2)))):
                bad.append(e)
        ctx.ob('version-is-immutable', fn, not bad, 'changes what an existing item holds while its number stays', cp.where(bad[0]) if bad else lastloc(cp), cp.p)
        if c == 'cas' and cp.p.outcome == 'ret' and any(t is cp.arg(0) for t, e in sl.inserted):
            e = [e for t, e in sl.inserted if t is cp.arg(0)][0]
            ctx.ob('cas-compares', fn, cas_fact(cp, sl.old) is True, 'stores although the numbers are not known to be equal', cp.where(e), cp.p)
    for c, cp in cmd_paths(ctx, CMDS + ['create', 'destroy', 'flush', 'stats']):
        if cp.p.outcome in ('terminate', 'noreturn') or cp.p.outcome != 'backedge' and c not in ('flush', 'stats'):
            continue
        ctr = ptr(cp.cache, cv.newest_off)
        for e in cp.p.stores():
            b, o, vs = split_ptr(e.addr)
            if b is cp.cache and not vs and o < cv.newest_off + 8 and o + e.size > cv.newest_off:
                v = strip(e.val)
                old = [t for t in subterms(v) if t.op == 'load' and t.a[0] is ctr]
                d = diff(v, old[0]) if old and e.addr is ctr and e.size == 8 else None
                ctx.ob('counter-only-grows', fname(c), d is not None and 0 <= d < 1 << 32, 'counter becomes %s' % show(e.val), cp.where(e), cp.p)
    ctx.ob('fresh-number', 'Cache', len(conv) == 1, 'numbering conventions in use: %s' % conv, list(conv.values())[0][1] if conv else '?')


def fname(c):
    return 'Cache::' + {'destroy': 'destroy_item', 'create': 'create_item', 'flush': 'do_flush_all', 'stats': 'publish_stats'}.get(c, 'do_' + c)


# ----------------------------------------------------------------------------- C05 / C06
def field_sub(cp, items):
    """known field contents of freshly written items: load(field) -> stored value (truncation of lengths dropped)"""
    sub = {}
    for e in cp.p.stores():
        b, o, vs = split_ptr(e.addr)
        if any(b is t for t in items) and not vs:
            v = strip(e.val)
            if v.op == 'cast' and v.a[0] == 'trunc' and o in (cp.cv.off['m_key_length'], cp.cv.off['m_value_length']):
                v = v.a[1]
            k = mk('load', e.addr, e.size, 0)
            if v is not k:
                sub[k] = v
                if (width(v) or 64) == 64 and e.size < 8:
                    sub[z64(k, 8 * e.size)] = v
    return sub


def z64(t, bits):
    return cast('zext', t, 64, bits)


class ItemTerms:
    """symbolic parts of an item"""

    def __init__(self, cv, it):
        it = strip(it)
        self.klen = z64(mk('load', ptr(it, cv.off['m_key_length']), 1, 0), 8)
        self.vlen = z64(mk('load', ptr(it, cv.off['m_value_length']), 4, 0), 32)
        self.key = ptr(it, cv.item_size)
        self.val = ptr(it, cv.item_size, ((self.klen, 1),))
        self.hash = mk('load', ptr(it, cv.off['m_hash']), 4, 0)
        self.flags = mk('load', ptr(it, cv.off['m_opaque_flags']), 2, 0)
        self.exp = mk('load', ptr(it, cv.off['m_expiration_time']), 4, 0)


def new_version(cp, sl, t):
    """decoded contents of the freshly created item t -> dict"""
    cv = cp.cv
    out = {'copies': []}
    for e in cp.p.stores():
        b, o, vs = split_ptr(e.addr)
        if b is t and not vs:
            for n, off in cv.off.items():
                if o == off:
                    out[n] = (strip(e.val), e)
    for k, e, d in cp.acts:
        if k == 'copy' and base(d[0]) is t:
            out['copies'].append(([low32(strip(x)) for x in d], e))
    return out


def C05(ctx):
    cv = cacheview()
    ctx.rule('attributes-kept', 'the version created by append/prepend/incr/decr has the key, hash, flags and expiration time of the existing item')
    ctx.rule('value-composed', 'its value is the prescribed sequence of bytes and its recorded length is the number of these bytes')
    ctx.rule('supplied-item-unchanged', 'set/add/replace/cas never write into the item they store')
    ctx.rule('existing-item-unchanged', 'an item that stays in the cache is not written, except for its expiration time by touch')
    ctx.rule('item-accessors', 'key(), value() and the assign functions address the same bytes')
    accessors(ctx, cv)
    for c, cp in cmd_paths(ctx, CMDS):
        if cp.p.outcome in ('terminate', 'noreturn', 'backedge'):
            continue
        fn = fname(c)
        sl = slot(cp)
        writes = [(k, e, e.addr if k == 'store' else d[0]) for k, e, d in cp.acts if k in ('store', 'copy')]
        if c in STORE:
            bad = [e for k, e, a in writes if base(a) is cp.arg(0)]
            ctx.ob('supplied-item-unchanged', fn, not bad, 'writes into the supplied item', cp.where(bad[0]) if bad else lastloc(cp), cp.p)
        bad = []
        for k, e, a in writes:
            b, o, vs = split_ptr(a)
            if b.op == 'itemat':
                if c == 'touch' and k == 'store' and not vs and o == cv.off['m_expiration_time'] and e.size == 4:
                    continue
                bad.append(e)
        ctx.ob('existing-item-unchanged', fn, not bad, 'writes into the existing item', cp.where(bad[0]) if bad else lastloc(cp), cp.p)
        if c == 'touch' and cp.p.outcome == 'ret' and sl.prior == 'live':
            st, ok = touched(cp, sl)
            ctx.ob('attributes-kept', fn, ok, 'touch sets the expiration time to %s' % (show(st[-1].val) if st else 'nothing'), cp.where(st[-1]) if st else lastloc(cp), cp.p)
        if c not in ('append', 'prepend', 'incr', 'decr') or cp.p.outcome != 'ret' or not (isinstance(sl.content, T) and fresh(sl, sl.content)):
            continue
        t = sl.content
        first = [L for L in cp.lookups if cp.found(L)][0]
        old = ItemTerms(cv, first.item)
        piece = ItemTerms(cv, cp.arg(0)) if c in STORE else None
        nv = new_version(cp, sl, t)
        sub = field_sub(cp, [t])
        w = lastloc(cp)
        # key
        if piece:
            keys = [(old.key, old.klen), (piece.key, piece.klen)]
            hashes = [old.hash, piece.hash]
        else:
            keys = [(cp.arg(0), binop('sub', cp.arg(1), cp.arg(0), 64)), (old.key, old.klen)]
            hashes = [cp.arg(2), old.hash]
        kl = nv.get('m_key_length')
        kcopies = [(d, e) for d, e in nv['copies'] if same(d[0], ptr(t, cv.item_size), 64, sub) and any(same(d[1], kb) and same(d[2], kn) for kb, kn in keys)]
        ok = bool(kcopies) and kl is not None and any(same(kl[0], kn, 8) for kb, kn in keys)
        ctx.ob('attributes-kept', fn, ok, 'key of the new version is the key of the item', cp.where(kl[1]) if kl else w, cp.p)
        h = nv.get('m_hash')
        ctx.ob('attributes-kept', fn, h is not None and h[0] in hashes, 'hash of the new version is %s' % (show(h[0]) if h else 'not set'), cp.where(h[1]) if h else w, cp.p)
        f = nv.get('m_opaque_flags')
        ctx.ob('attributes-kept', fn, f is not None and f[0] is old.flags, 'flags of the new version are %s' % (show(f[0]) if f else 'not set'), cp.where(f[1]) if f else w, cp.p)
        x = nv.get('m_expiration_time')
        ctx.ob('attributes-kept', fn, x is not None and x[0] is old.exp, 'expiration time of the new version is %s' % (show(x[0]) if x else 'not set'), cp.where(x[1]) if x else w, cp.p)
        # value
        v0 = ptr(t, cv.item_size, ((z64(mk('load', ptr(t, cv.off['m_key_length']), 1, 0), 8), 1),))
        vcopies = [(d, e) for d, e in nv['copies'] if not any(d is d2 for d2, _ in kcopies)]
        vl = nv.get('m_value_length')
        if piece:
            parts = [old, piece] if c == 'append' else [piece, old]
            want = [(v0, parts[0].val, parts[0].vlen), (ptr(v0, 0, ((parts[0].vlen, 1),)), parts[1].val, parts[1].vlen)]
            total = binop('add', old.vlen, piece.vlen, 64)
        else:
            i2s = [e for e in cp.p.events if e.kind == 'call' and e.name == 'cachelot::int_to_str']
            if len(i2s) != 1:
                raise AnalysisError('%s: %d number conversions' % (fn, len(i2s)))
            buf = i2s[0].args[1]
            want = [(v0, strip(buf), strip(i2s[0].res))]
            total = strip(i2s[0].res)
        # subst: key length of the fresh item may be spelled as any of the accepted key lengths
        def eqv(a, b):
            if same(a, b, 64, sub):
                return True
            return any(same(a, b, 64, dict(sub, **{})) or lin_swap(a, b, sub, kn, [k2 for _, k2 in keys]) for _, kn in keys)
        ok = len(vcopies) == len(want)
        for wd, ws, wn in want:
            ok = ok and any(eqv(d[0], wd) and same(d[1], ws, 64, sub) and same(d[2], wn, 64, sub) for d, e in vcopies)
        ctx.ob('value-composed', fn, ok, 'value of the new version is written as %s' % '; '.join('%s<-%s len %s' % tuple(map(show, d)) for d, e in vcopies)[:600], cp.where(vcopies[0][1]) if vcopies else w, cp.p)
        ctx.ob('value-composed', fn, vl is not None and same(vl[0], total, 32, {k: v for k, v in sub.items() if k is not mk('load', ptr(t, cv.off['m_value_length']), 4, 0)}), 'recorded value length is %s' % (show(vl[0]) if vl else 'not set'), cp.where(vl[1]) if vl else w, cp.p)


def lin_swap(a, b, sub, k1, ks):
    """equality modulo replacing one accepted spelling of the key length by another"""
    ca, xa = lin(a, 64, sub)
    for k2 in ks:
        if k2 is k1:
            continue
        cb, xb = lin(ptr(b, 0, ((k1, -1), (k2, 1))), 64, sub)
        if (ca, xa) == (cb, xb):
            return True
        cb, xb = lin(ptr(b, 0, ((k1, 1), (k2, -1))), 64, sub)
        if (ca, xa) == (cb, xb):
            return True
    return False


def accessors(ctx, cv):
    P = cv.prog
    it = ItemTerms(cv, mk('arg', 0))
    want = {'prb_key_begin': it.key, 'prb_key_length': it.klen, 'prb_value_begin': it.val, 'prb_value_length': it.vlen}
    for f, wt in want.items():
        ps = explore(P, f, Model())
        ctx.covered(P.fn(f), ps)
        for p in ps:
            ctx.ob('item-accessors', 'Item::' + f[4:], same(strip(p.ret), wt), '%s is %s' % (f[4:], show(p.ret)), 'src/cachelot/item.h', p)
    # assign_value / assign_compose / constructor
    A = lambda n: mk('arg', n)
    ln = lambda b, e: binop('sub', e, b, 64)
    for f, want, total in (('prb_assign', [(it.val, A(1), ln(A(1), A(2)))], ln(A(1), A(2))),
                           ('prb_compose', [(it.val, A(1), ln(A(1), A(2))), (ptr(it.val, 0, ((ln(A(1), A(2)), 1),)), A(3), ln(A(3), A(4)))], binop('add', ln(A(1), A(2)), ln(A(3), A(4)), 64))):
        ps = explore(P, f, Model())
        ctx.covered(P.fn(f), ps)
        for p in ps:
            # (lengths fit in 32 bits: M01)
            cs = [[low32(strip(x)) for x in e.args] for e in p.calls('memcpy', 'memmove')]
            ok = len(cs) == len(want) and all(any(all(same(x, y) for x, y in zip(c, w)) for c in cs) for w in want)
            st = p.stores()
            ok = ok and bool(st) and all(e.addr is ptr(A(0), cv.off['m_value_length']) and e.size == 4 for e in st) and same(strip(st[-1].val), total, 32)
            ctx.ob('item-accessors', 'Item::' + f[4:], ok, 'copies %s and records the length' % '; '.join('%s<-%s' % (show(c[0]), show(c[1])) for c in cs), 'src/cachelot/item.h', p)
    ps = explore(P, 'prb_item_ctor', cv.model())
    ctx.covered(P.fn('prb_item_ctor'), ps)
    for p in ps:
        last = {}
        for e in p.stores():
            b, o, vs = split_ptr(e.addr)
            if b is A(0) and not vs:
                last[o] = strip(e.val)
        o = cv.off
        ok = last.get(o['m_timestamp']) is A(7) and last.get(o['m_hash']) is A(3) and last.get(o['m_opaque_flags']) is A(5)
        ok = ok and o['m_value_length'] in last and same(last[o['m_value_length']], A(4), 32) and o['m_key_length'] in last and same(last[o['m_key_length']], ln(A(1), A(2)), 8)
        cs = [[strip(x) for x in e.args] for e in p.calls('memcpy', 'memmove')]
        ok = ok and len(cs) == 1 and cs[0][0] is it.key and cs[0][1] is A(1) and same(cs[0][2], ln(A(1), A(2)))
        z = p.truth(cmp('eq', A(6), C(0, 32), 32))
        ok = ok and o['m_expiration_time'] in last and ttl_value(p, [e.val for e in p.stores() if e.addr is ptr(A(0), o['m_expiration_time'])][-1], A(6), z)
        ctx.ob('item-accessors', 'Item::Item', ok, 'the constructor records exactly its arguments', 'src/cachelot/item.h', p)


def C06(ctx):
    cv = cacheview()
    ctx.rule('saturating-result', 'the new number is old+delta capped at 2^64-1 (incr) or old-delta floored at 0 (decr), old being the number read from the whole stored value')
    ctx.rule('reported-is-stored', 'the number returned to the caller is the number converted to text and stored')
    ctx.rule('bad-number-leaves-item', 'if the stored text is not a number the command fails before changing anything')
    for c, cp in cmd_paths(ctx, ['incr', 'decr']):
        fn = fname(c)
        p = cp.p
        if p.outcome not in ('ret', 'unwind'):
            continue
        sl = slot(cp)
        s2i = [e for e in p.events if e.kind == 'call' and e.name == 'cachelot::str_to_int']
        i2s = [e for e in p.events if e.kind == 'call' and e.name == 'cachelot::int_to_str']
        for e in s2i:
            if e.threw:
                ch = [x for k, x, d in cp.acts if k in ('insert', 'replace', 'remove', 'free', 'alloc', 'copy') and x.n > 0 and not (k == 'copy' and base(d[0]).op == 'alloca')] if sl.prior == 'live' else []
                ctx.ob('bad-number-leaves-item', fn, p.outcome == 'unwind' and not ch, 'conversion failure must leave the cache unchanged and be reported', cp.where(e), p)
        if p.outcome != 'ret' or sl.prior != 'live':
            continue
        if len(s2i) != 1 or len(i2s) != 1:
            ctx.ob('saturating-result', fn, False, '%d text-to-number and %d number-to-text conversions' % (len(s2i), len(i2s)), lastloc(cp), p)
            continue
        old = ItemTerms(cv, [L for L in cp.lookups if cp.found(L)][0].item)
        a = s2i[0].args
        ctx.ob('saturating-result', fn, same(strip(a[0]), old.val) and same(strip(a[1]), ptr(old.val, 0, ((old.vlen, 1),))), 'reads the number from %s..%s' % (show(a[0]), show(a[1])), cp.where(s2i[0]), p)
        x, dl, v = s2i[0].res, cp.arg(3), i2s[0].args[0]
        MAXV = (1 << 64) - 1
        if c == 'incr':
            ok = (v.op == 'intr' and 'uadd.sat.i64' in v.a[0] and {id(v.a[1]), id(v.a[2])} == {id(x), id(dl)}) \
                or (same(v, binop('add', x, dl, 64)) and add_overflow(p, x, dl, 64) is False) \
                or (isc(v, MAXV) and (add_overflow(p, x, dl, 64) is True or boundary_add(p, x, dl)))
        else:
            ok = (v.op == 'intr' and 'usub.sat.i64' in v.a[0] and v.a[1] is x and v.a[2] is dl) \
                or (same(v, binop('sub', x, dl, 64)) and sub_underflow(p, x, dl, 64) is False) \
                or (isc(v, 0) and (sub_underflow(p, x, dl, 64) is True or at_most(p, x, dl)))
        ctx.ob('saturating-result', fn, ok, 'new number is %s' % show(v), cp.where(i2s[0]), p)
        r = result(cp)
        ctx.ob('reported-is-stored', fn, r[1] is v, 'reports %s, stores %s' % (show(r[1]) if r[1] is not None else 'nothing', show(v)), cp.where(i2s[0]), p)


def at_most(p, x, d):
    """x <= d"""
    for a, v in p.flist:
        if a.op == 'atom' and a.a[0] == 'ult' and a.a[1] is d and a.a[2] is x and not v:
            return True
    return False


def boundary_add(p, x, d):
    """x + d >= MAX:  not (d < ~x)"""
    for u, w in ((x, d), (d, x)):
        lim = binop('sub', C((1 << 64) - 1, 64), u, 64)
        for a, v in p.flist:
            if a.op == 'atom' and a.a[0] == 'ult' and a.a[1] is w and same(a.a[2], lim) and not v:
                return True
    return False


# ----------------------------------------------------------------------------- C07
OUTCOME = {
    'get': {'live': 'get_hits', 'absent': 'get_misses'}, 'set': {'live': 'set_existing', 'absent': 'set_new'},
    'add': {'live': 'add_not_stored', 'absent': 'add_stored'}, 'replace': {'live': 'replace_stored', 'absent': 'replace_not_stored'},
    'cas': {'eq': 'cas_stored', 'ne': 'cas_badval', 'absent': 'cas_misses'},
    'append': {'live': 'append_stored', 'absent': 'append_misses'}, 'prepend': {'live': 'prepend_stored', 'absent': 'prepend_misses'},
    'delete': {'live': 'delete_hits', 'absent': 'delete_misses'}, 'touch': {'live': 'touch_hits', 'absent': 'touch_misses'},
    'incr': {'live': 'incr_hits', 'absent': 'incr_misses'}, 'decr': {'live': 'decr_hits', 'absent': 'decr_misses'},
}


def counter_delta(val, addr, prev):
    """increment a stored counter value represents, or None"""
    v = val
    MAXV = (1 << 64) - 1

    def inc(t):
        if t.op == 'bin' and t.a[0] == 'add' and t.a[2].op == 'c':
            if isbase(t.a[1]):
                return t.a[2].a[0]
            d = inc(t.a[1])
            return None if d is None else d + t.a[2].a[0]
        if t.op == 'sel':
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if isc(x, MAXV):
                    return inc(y)
            return None
        if t.op == 'intr' and 'uadd.sat' in t.a[0]:
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.op == 'c' and isbase(x):
                    return y.a[0]
        return None

    def isbase(t):
        return (t.op == 'load' and t.a[0] is addr) or (prev is not None and t is prev)
    return inc(v)


def C07(ctx):
    cv = cacheview()
    ctx.rule('command-counted-once', 'the command\'s own counter grows by exactly one on every path')
    ctx.rule('outcome-counted-once', 'a returning path adds exactly one to exactly the outcome counter that matches its result')
    ctx.rule('no-foreign-counter', 'no other command counter is written')
    ctx.rule('only-commands-count', 'no code outside the cache commands (allocator, eviction, item handling, protocol handlers, C API) writes a command or outcome counter')
    ctx.rule('published-values', 'publishing the statistics sets exactly the number of items, the capacity and the expansion state of the index, and nothing else')
    for c, cp in cmd_paths(ctx, CMDS + ['flush']):
        if cp.p.outcome not in ('ret', 'unwind'):
            continue
        fn = fname(c)
        p = cp.p
        cnt, last, sat = {}, {}, False
        for a, v in p.flist:
            if a.op == 'atom' and a.a[0] == 'eq' and v and isc(a.a[2], (1 << 64) - 1) and a.a[1].op == 'load' and base(a.a[1].a[0]) is cv.statglob:
                sat = True
        if sat:
            continue
        for e in p.stores():
            b, o, vs = split_ptr(e.addr)
            if b is not cv.statglob:
                continue
            n = cv.stats.get(o)
            d = counter_delta(e.val, e.addr, last.get(o))
            last[o] = e.val
            if n is None or vs:
                ctx.ob('no-foreign-counter', fn, False, 'writes an unknown statistics cell', cp.where(e), p)
                continue
            if d is None:
                ctx.ob('no-foreign-counter', fn, False, 'sets counter %s to %s' % (n, show(e.val)), cp.where(e), p)
                continue
            cnt[n] = cnt.get(n, 0) + d
        own = 'cache.cmd_' + c
        ctx.ob('command-counted-once', fn, cnt.get(own, 0) == 1, '%s grows by %d' % (own, cnt.get(own, 0)), lastloc(cp), p)
        outs = {'cache.' + x for x in OUTCOME.get(c, {}).values()}
        foreign = [k for k in cnt if k.startswith('cache.') and k != own and k not in outs]
        ctx.ob('no-foreign-counter', fn, not foreign, 'writes %s' % (', '.join(foreign) or 'only its own counters'), lastloc(cp), p)
        if c == 'flush' or p.outcome != 'ret':
            if p.outcome == 'ret':
                ctx.ob('outcome-counted-once', fn, True, 'no outcome counters', lastloc(cp))
            continue
        sl = slot(cp)
        st = {'dead': 'absent', 'unchecked': 'live'}.get(sl.prior, sl.prior)
        if c == 'cas' and st == 'live':
            st = 'eq' if cas_fact(cp, sl.old) else 'ne'
        want = {'cache.' + OUTCOME[c][st]: 1} if st in OUTCOME[c] else {}
        got = {k: v for k, v in cnt.items() if k in outs and v}
        ctx.ob('outcome-counted-once', fn, got == want, 'outcome %s: counted %s, must be %s' % (st, got, want), lastloc(cp), p)


    outside_commands(ctx, cv)
    published(ctx, cv)


GAUGES = {'cache.curr_items': 'size', 'cache.hash_capacity': 'capacity', 'cache.hash_is_expanding': 'is_expanding'}


def outside_commands(ctx, cv):
    """scan of the whole un-inlined code: who writes the counters; reached without passing through a command"""
    cmds = {'cachelot::cache::Cache::do_' + c for c in CMDS + ['flush', 'flush_all']}
    gl = cv.statglob.a[0]

    def where(o, v):
        """operand -> offset into the statistics (None: elsewhere)"""
        if o is None or not isinstance(o, dict):
            return None
        if o['k'] == 'glob':
            return 0 if o['n'] == gl else None
        if o['k'] == 'cgep':
            r = where(o['b'], v)
            return None if r is None else r + o['o']
        if o['k'] == 'v':
            return v.get(o['id'])
        return None
    for tu in ('drv/escape.cpp', 'src/cachelot/c_api.cpp'):
        P = view(tu, ['.*'], ['.*'])
        bym = {f.j['m']: f for f in P.fns}
        writes, calls, resets = {}, {}, {}
        for f in P.fns:
            m = f.j['m']
            calls[m] = set()
            writes[m] = []
            v = {}
            for b in f.j['blocks']:
                for i in b['i']:
                    op = i['op']
                    if op == 'gep' and not i.get('v'):
                        r = where(i.get('b'), v)
                        if r is not None:
                            v[i['id']] = r + i.get('o', 0)
                    elif op == 'store':
                        r = where(i.get('b'), v)
                        if r is not None:
                            writes[m].append((r + i.get('o', 0), i))
                    elif op in ('call', 'invoke'):
                        if i.get('m'):
                            calls[m].add(i['m'])
                        n = i.get('fn') or ''
                        if n == 'cachelot::ResetStats':
                            writes[m].append((None, i))
                        elif n.startswith(('llvm.mem', 'mem')) and i.get('a'):
                            r = where(i['a'][0], v)
                            if r is not None:
                                writes[m].append((None, i))
                    # a function whose address is taken (callback, lambda) may run from here
                    for o in ops(i):
                        if o.get('k') == 'fn' and o.get('m'):
                            calls[m].add(o['m'])
        starts = [f for f in P.fns if f.name.startswith(('cachelot', 'Done', 'drv_')) and f.name not in cmds]
        # helpers that only commands call are judged with the commands
        callers = {}
        for a, bs in calls.items():
            for b in bs:
                callers.setdefault(b, set()).add(a)
        private = {f.j['m'] for f in P.fns if f.name in cmds}
        owned = set(private)
        grown = True
        while grown:
            grown = False
            for f in P.fns:
                m = f.j['m']
                if m not in owned and callers.get(m) and callers[m] - {m} and callers[m] - {m} <= owned:
                    owned.add(m)
                    grown = True
        n = 0
        for f in starts:
            m = f.j['m']
            if m in owned:
                continue
            n += 1
            for o, i in writes[m]:
                nm = cv.stats.get(o, 'all counters') if o is not None else 'all counters'
                if nm.startswith('mem.') or nm in GAUGES:
                    continue
                l = i.get('loc') or {}
                ctx.ob('only-commands-count', f.name, False, 'writes %s' % nm, '%s:%s' % (relsrc(l.get('f', '')), l.get('l', '')))
        ctx.ob('only-commands-count', tu, n > 20 and len(private) >= 10, '%d functions outside the commands scanned, %d command functions' % (n, len(private)), 'src/cachelot/stats.h')


def relsrc(f):
    k = f.rfind('/src/')
    return f[k + 1:] if k >= 0 else f


def ops(i):
    for k, v in i.items():
        if isinstance(v, dict) and 'k' in v:
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and 'k' in x:
                    yield x


def published(ctx, cv):
    fn = 'Cache::publish_stats'
    cells = {}
    ps = explore(cv.prog, 'drv_stats', cv.model())
    ctx.covered(cv.prog.fn('drv_stats'), ps)
    for p in ps:
        if p.outcome != 'ret':
            continue
        last = {}
        for e in p.stores():
            b, o, vs = split_ptr(e.addr)
            if b is not cv.statglob:
                continue
            last[cv.stats.get(o, '?')] = e.val
            if cv.stats.get(o) not in GAUGES:
                ctx.ob('published-values', fn, False, 'writes %s' % cv.stats.get(o, 'an unknown cell'), e.loc.repo() if e.loc else '', p)
        for g, m in GAUGES.items():
            v = last.get(g)
            while v is not None and v.op == 'cast':
                v = v.a[1]
            src = [e for e in p.events if e.kind == 'call' and v is not None and v is e.res]
            ok = bool(src) and src[0].name == D + m and src[0].args and split_ptr(src[0].args[0])[1] == cv.dict_off
            ctx.ob('published-values', fn, ok, '%s is set to %s' % (g, src[0].name if src else show(v) if v is not None else 'nothing'), loc_of(p), p)


# ----------------------------------------------------------------------------- C09
def evicting(cp, d):
    """may this allocation evict?"""
    return not isc(d[1], 0)


def C09(ctx):
    cv = cacheview()
    ctx.rule('no-stale-item', 'an item reference obtained before a possible eviction is not used after it')
    ctx.rule('no-stale-position', 'an index position is not used after the index may have been rearranged')
    ctx.rule('no-unindexed-item-while-evicting', 'no item that is not in the index is held while items may be evicted')
    for c, cp in cmd_paths(ctx, CMDS):
        if cp.p.outcome not in ('ret', 'unwind'):
            continue
        fn = fname(c)
        stale_items, stale_pos, dropped = set(), set(), set()
        known_items, known_pos = set(), set()
        n = 0
        for k, e, d in cp.acts:
            # uses first
            for u in uses_of(k, e, d):
                b = base(u) if isinstance(u, T) else None
                if b is not None and b in stale_items:
                    ctx.ob('no-stale-item', fn, False, 'uses an item found before items may have been evicted', cp.where(e), cp.p)
            pos = None
            if k == 'value':
                pos = d
            elif k in ('replace', 'remove', 'insert'):
                pos = d[0]
            if pos is not None and isinstance(pos, Iter):
                n += 1
                if pos.key() in stale_pos:
                    ctx.ob('no-stale-position', fn, False, '%s at an index position obtained before the index was rearranged' % k, cp.where(e), cp.p)
                elif k != 'insert' and pos.key() in dropped:
                    ctx.ob('no-stale-position', fn, False, '%s at an index position whose entry was removed' % k, cp.where(e), cp.p)
                else:
                    ctx.ob('no-stale-position', fn, True, '%s at the current position of the key' % k, cp.where(e))
            if k == 'value' and e.res is not None and e.res.op == 'itemat':
                known_items.add(e.res)
            if k == 'lookup' and not d.threw:
                stale_pos |= known_pos
                known_pos.add(d.at.key())
                dropped = set()
            elif k in ('remove',):
                if isinstance(pos, Iter):
                    dropped.add(pos.key())
            elif k in ('del', 'bulk'):
                stale_pos |= known_pos
            elif k == 'insert':
                stale_pos |= known_pos
            elif k == 'alloc' and evicting(cp, d) and not e.threw:
                held = c in STORE
                ctx.ob('no-unindexed-item-while-evicting', fn, not held, 'allocates with eviction while the supplied item is not indexed', cp.where(e), cp.p)
                stale_items |= known_items
                for L in cp.lookups:
                    if L.e.n < e.n and L.item is not None:
                        stale_items.add(L.item)
                stale_pos |= known_pos
        if cp.p.ret is not None and isinstance(cp.p.ret, T) and cp.p.ret in stale_items:
            ctx.ob('no-stale-item', fn, False, 'returns an item that may have been evicted', lastloc(cp), cp.p)
        ctx.ob('no-stale-item', fn, True, '%d index accesses, %d references checked' % (n, len(known_items)), lastloc(cp))


# ----------------------------------------------------------------------------- C08
def evict_arg(cp, t):
    """-> 'never' / 'enabled' (equals the cache's setting) / None"""
    if isc(t):
        if t.a[0] & 1 == 0:
            return 'never'
    x = t
    while x.op == 'cast':
        x = x.a[1]
    flag = mk('load', ptr(cp.cache, cp.cv.evict_off), 1, 0)

    def is_flag(y):
        while y.op == 'cast':
            y = y.a[1]
        y = strip(y)
        if y is flag:
            return True
        if y.op == 'atom' and y.a[0] == 'bool':
            return is_flag(y.a[1])
        if y.op == 'not' and y.a[0].op == 'atom' and y.a[0].a[0] == 'eq' and isc(y.a[0].a[2], 0):
            return is_flag(y.a[0].a[1])
        return False
    if is_flag(x):
        return 'enabled'
    on = None
    for a, v in cp.p.flist:
        if is_flag(a):
            on = v
        elif a.op == 'atom' and a.a[0] == 'eq' and isc(a.a[2], 0) and is_flag(a.a[1]):
            on = not v
    if on is True and isc(t, 1):
        return 'enabled'
    if on is False and isc(t):
        return None
    return None


def C08(ctx):
    from memview import memview, FB, PG, PRIM, used_fact, nofork as nf
    ctx.rule('evict-only-if-enabled', 'the permission to evict passed to the allocator is the cache\'s setting; append and prepend never permit it')
    ctx.rule('out-of-memory-is-reported', 'when the allocator has no memory the command fails with the out-of-memory error, with the index untouched')
    ctx.rule('no-recycling-when-disabled', 'a page is taken for reuse only on paths on which evictions are enabled and no free block was found')
    ctx.rule('evicted-items-leave-index', 'every used block of the recycled page has its item removed from the index under that item\'s own key and hash, and the eviction callback, if set, called with it')
    ctx.rule('others-untouched', 'allocating memory changes the index in no other way than by removing the evicted items')
    ctx.rule('only-used-blocks', 'blocks that hold no item are not reported as evicted')
    ctx.rule('whole-page-visited', 'the sweep starts at the first block of the recycled page, steps from block to block and ends only beyond the end of the page')
    ctx.assume('the eviction callback does not throw (it runs in a noexcept context)')
    cv = cacheview()
    for c, cp in cmd_paths(ctx, CMDS + ['create']):
        fn = 'Cache::' + ('create_item' if c == 'create' else 'do_' + c)
        for k, e, d in cp.acts:
            if k != 'alloc':
                continue
            r = evict_arg(cp, d[1])
            ok = r == 'never' or (r == 'enabled' and c not in ('append', 'prepend'))
            ctx.ob('evict-only-if-enabled', fn, ok, 'allocation permits eviction: %s' % (r or show(d[1])), cp.where(e), cp.p)
            null = cp.p.truth(cmp('eq', e.res, NULL, 64))
            if null:
                oom = cv.prog.enum('cachelot_error_code')
                thr = [x for x in cp.p.events if x.kind == 'call' and x.n > e.n and throws_code(cv, x, oom.get('out_of_memory'))]
                ctx.ob('out-of-memory-is-reported', fn, cp.p.outcome == 'unwind' and bool(thr), 'allocation failure ends in %s%s' % (cp.p.outcome, '' if thr else ' without the out-of-memory error'), cp.where(e), cp.p)
    # the page sweep as instantiated for create_item
    keep = [x for x in KEEP if 'memalloc' not in x] + [r'cachelot::memalloc::free_blocks_by_size::(try_get_block|put_block|remove_block)',
            r'cachelot::memalloc::pages::(touch|page_to_reuse|page_boundaries_from_addr)', r'cachelot::memalloc::(free|touch|realloc_inplace)']
    P = view('drv/cache.cpp', [r'drv_create'], keep)
    mv = memview()
    # the eviction callback gets a pointer to a const item: it is assumed not to change it
    ps = explore(P, 'drv_create', Model(nofork=nf, unwind_calls=True, clobbers=PRIM + [D + 'del', '']))
    ctx.covered(P.fn('drv_create'), ps)
    cache = mk('arg', 0)
    fnb = 'memalloc::alloc_or_evict (for Cache::create_item)'
    cbf = P.fields('cachelot::cache::Cache')
    cb_off = cbf['on_eviction']
    seen = set()
    for p in ps:
        reuse = p.calls(PG + 'page_to_reuse')
        get = p.calls(FB + 'try_get_block')
        dels = p.calls(D + 'del')
        extra = [e for n in ('insert', 'remove', 'remove_if', 'clear', 'put', 'iterator::unsafe_replace_kv') for e in p.calls(D + n)]
        ctx.ob('others-untouched', fnb, not extra, 'allocating memory changes the index beyond the evicted items: %s' % (extra[0].name if extra else ''), extra[0].loc.repo() if extra and extra[0].loc else loc_of(p), p)
        if not reuse:
            ctx.ob('no-recycling-when-disabled', fnb, not dels, 'items are removed from the index although no page is recycled', loc_of(p), p)
            continue
        en = flag_fact(p, cache, cv.evict_off)
        nofree = bool(get) and p.truth(cmp('eq', get[0].res, NULL, 64)) is True and get[0].n < reuse[0].n
        ctx.ob('no-recycling-when-disabled', fnb, en is True and nofree and len(reuse) == 1, 'recycles a page while evictions enabled=%s, no free block=%s' % (en, nofree), reuse[0].loc.repo(), p)
        beg, end = mk('cres', reuse[0].n, 0, 8, 8), mk('cres', reuse[0].n, 0, 0, 8)
        loops = [e for e in p.events if e.kind == 'loop' and e.n > reuse[0].n]
        if not loops:
            ctx.ob('whole-page-visited', fnb, False, 'the recycled page is not swept', reuse[0].loc.repo(), p)
            continue
        lp = loops[0]
        cur = [k for k, v in lp.x[1].items() if v is beg]
        if not cur:
            ctx.ob('whole-page-visited', fnb, False, 'the sweep does not start at the beginning of the recycled page', reuse[0].loc.repo(), p)
            continue
        A = mk('lv', lp.x[0], cur[0])
        nxtloop = loops[1].n if len(loops) > 1 else 1 << 30
        used = used_fact(p, A)
        # leaving before this block: only beyond the end of the page
        past = p.fact(cmp('ult', A, end, 64))
        seen.add((p.outcome == 'backedge', used))
        if used is None:
            ctx.ob('whole-page-visited', fnb, past is False, 'a block of the recycled page is skipped', lp.loc.repo() if lp.loc else loc_of(p), p)
            ctx.ob('only-used-blocks', fnb, not dels, 'an index entry is removed for a block that was not checked to be used', loc_of(p), p)
            continue
        item = ptr(A, mv.header)
        mine = [e for e in dels if e.n > lp.n and e.n < nxtloop]
        if used and p.outcome in ('terminate', 'noreturn'):
            # a throwing callback ends the process
            continue
        if used:
            okd = False
            if len(dels) == 1 and len(mine) == 1:
                s, t, prm = params(mine[0])
                kb = ptr(item, cv.item_size)
                kl = cast('zext', mk('load', ptr(item, cv.off['m_key_length']), 1, 0), 64, 8)
                okd = mine[0].args[t] is ptr(cache, cv.dict_off) and strip(prm[0].b) is kb and strip(prm[0].e) is ptr(kb, 0, ((kl, 1),)) and strip(prm[1]) is mk('load', ptr(item, cv.off['m_hash']), 4, 0)
            ctx.ob('evicted-items-leave-index', fnb, okd, 'the item of a recycled used block %s' % ('is removed from the index by its own key and hash' if okd else 'is not removed from the index exactly once by its own key and hash'), lastrepo(p), p)
            # callback
            inv = [e for e in p.events if e.kind == 'call' and e.n > lp.n and not e.name and e.args and strip(e.args[0]) is ptr(cache, cb_off)]
            got = [e for e in inv if any(s.get(split_ptr(e.args[k])[1]) is item for k, s in e.snap.items())]
            isset = None
            for a, v in p.flist[lp.fpos:]:
                if a.op == 'atom' and a.a[0] == 'eq' and isc(a.a[2], 0) and strip(a.a[1]).op == 'load' and split_ptr(strip(a.a[1]).a[0])[0] is cache and cb_off <= split_ptr(strip(a.a[1]).a[0])[1] < cb_off + 32:
                    isset = not v
            first = min([e.n for e in inv], default=None)
            if first is not None:
                early = [e for e in p.stores() if lp.n < e.n < first and split_ptr(e.addr)[0] is A and split_ptr(e.addr)[1] >= mv.header]
                ctx.ob('evicted-items-leave-index', fnb, not early, 'the evicted item is changed before the eviction callback sees it', early[0].loc.repo() if early and early[0].loc else lastrepo(p), p)
            if p.outcome in ('ret', 'backedge'):
                ctx.ob('evicted-items-leave-index', fnb, (isset is False and not inv) or (isset is True and len(inv) == 1 == len(got)), 'eviction callback set=%s is called %d time(s) with the evicted item' % (isset, len(got)), lastrepo(p), p)
        else:
            inv = [e for e in p.events if e.kind == 'call' and not e.name and e.args and strip(e.args[0]) is ptr(cache, cb_off)]
            ctx.ob('only-used-blocks', fnb, not dels and not inv, 'a free block is reported as evicted', lastrepo(p), p)
        # step
        if p.outcome == 'backedge' and p.x[0] == lp.x[0]:
            nv = p.x[1][cur[0]]
        else:
            nv = None
        step = right_of(A, mv)
        if nv is not None:
            ctx.ob('whole-page-visited', fnb, same(strip(nv), step) or step_by_size(nv, A, mv), 'the sweep continues at %s, not at the right neighbour' % show(nv)[:120], lastrepo(p), p)
        elif p.outcome in ('ret', 'unwind'):
            ex = [a for a, v in p.flist[lp.fpos:] if a.op == 'atom' and a.a[0] == 'ult' and a.a[2] is end and v is False and step_by_size(a.a[1], A, mv)]
            threw = any(e.kind == 'call' and e.threw for e in p.events if e.n > lp.n)
            ctx.ob('whole-page-visited', fnb, bool(ex) or threw, 'the sweep ends although the end of the page was not reached', lastrepo(p), p)
    for need in ((True, True), (True, False), (False, True), (False, False)):
        pass
    ctx.ob('evicted-items-leave-index', fnb, any(u for b, u in seen), 'the sweep has a path for used blocks', 'src/cachelot/memalloc-inl.h')


def right_of(A, mv):
    w = mk('load', A, 4, 0)
    return ptr(A, mv.header, ((cast('zext', binop('and', w, C(0x7fffffff, 32), 32), 64, 32), 1),))


def step_by_size(t, A, mv):
    """t == A + header + size(A), ignoring the width of the intermediate sum"""
    return nsize(t) == {A: 1, 1: mv.header, ('sz', A): 1}


def nsize(t):
    """linear form over block sizes, ignoring 32/64-bit conversions (block sizes are far below 2**31)"""
    acc = {}

    def add(k, v):
        acc[k] = acc.get(k, 0) + v
        if not acc[k]:
            del acc[k]
    work = [(strip(t), 1)]
    while work:
        x, k = work.pop()
        if x.op == 'c':
            add(1, k * sgn(x.a[0], x.a[1] or 64))
        elif x.op == 'ptr':
            add(1, k * x.a[1])
            work.append((x.a[0], k))
            work += [(y, k * c) for y, c in x.a[2]]
        elif x.op == 'bin' and x.a[0] in ('add', 'sub'):
            work += [(x.a[1], k), (x.a[2], k if x.a[0] == 'add' else -k)]
        elif x.op == 'cast' and x.a[0] in ('zext', 'trunc', 'sext'):
            work.append((x.a[1], k))
        elif x.op == 'bin' and x.a[0] == 'and' and isc(x.a[2], 0x7fffffff) and x.a[1].op == 'load':
            add(('sz', x.a[1].a[0]), k)
        else:
            add(x, k)
    return acc


def flag_fact(p, cache, off):
    flag = mk('load', ptr(cache, off), 1, 0)
    r = None
    for a, v in p.flist:
        if a.op == 'atom' and strip(a.a[1]) is flag:
            if a.a[0] == 'bool':
                r = v
            elif a.a[0] == 'eq' and isc(a.a[2], 0):
                r = not v
    return r


def throws_code(cv, e, code):
    return 'error' in e.name and (any(isinstance(a, T) and isc(a, code) for a in e.args) or any(isc(v, code) for s in e.snap.values() for v in s.values()))


def loc_of(p):
    return lastrepo(p)


def lastrepo(p):
    for e in reversed(p.events):
        if e.loc and e.loc.j and e.loc.repo().startswith('src/'):
            return e.loc.repo()
    return '?'


# ----------------------------------------------------------------------------- C10
def C10(ctx):
    from memview import memview, FB, PG
    from shapes import Shape, ring, walk
    ctx.rule('found-items-are-marked', 'each lookup that finds an unexpired item marks that item\'s page as used before the command returns')
    ctx.rule('allocation-marks-page', 'memory taken from a free block marks the page of that block')
    ctx.rule('own-page', 'the page marked or described for an address is the one containing the address')
    ctx.rule('recency-order', 'marking moves the page strictly towards the most recently used end unless it is there already; no page is lost, duplicated or reordered otherwise')
    ctx.rule('recycle-least-recent', 'the page recycled is the one at the least recently used end; it becomes the most recently used one, the order of the others is unchanged')
    ctx.rule('recycled-page-bounds', 'the memory recycled is exactly the memory of that page')
    cv = cacheview()
    for c, cp in cmd_paths(ctx, CMDS):
        if cp.p.outcome not in ('ret',):
            continue
        for L in cp.lookups:
            if L.threw or not cp.found(L):
                continue
            sl = slot(cp)
            it = L.item
            if it is None or cp.expiry(it) == 'dead':
                continue
            ok = any(k == 'touch' and d is it and e.args[0] is ptr(cp.cache, cv.alloc_off) and e.n > L.e.n for k, e, d in cp.acts)
            # a version that is dropped by the same command needs no mark
            gone = c == 'delete'
            ctx.ob('found-items-are-marked', 'Cache::do_' + c, ok or gone, 'page of the item found is %smarked as used' % ('' if ok else 'not '), cp.where(L.e), cp.p)
            break   # further lookups of the same command find the same item again
    mv = memview()
    P = mv.ops
    for fn in ('drv_alloc', 'drv_plain_alloc'):
        ps = mv.paths(fn)
        ctx.covered(P.fn(fn), ps)
        for p in ps:
            g = p.calls(FB + 'try_get_block')
            if p.outcome != 'ret' or not g or p.truth(cmp('eq', g[0].res, NULL, 64)) is not False:
                continue
            ok = any(e.args[-1] is g[0].res or split_ptr(e.args[-1])[0] is g[0].res for e in p.calls(PG + 'touch') if e.n > g[0].n)
            ctx.ob('allocation-marks-page', 'memalloc::alloc_or_evict', ok, 'page of the block handed out is %smarked' % ('' if ok else 'not '), lastrepo(p), p)
    ps = mv.paths('drv_touch')
    ctx.covered(P.fn('drv_touch'), ps)
    for p in ps:
        ok = any(split_ptr(e.args[-1])[0] is mk('arg', 1) for e in p.calls(PG + 'touch'))
        ctx.ob('found-items-are-marked', 'memalloc::touch', ok or p.outcome != 'ret', 'touch(ptr) marks the page of ptr', lastrepo(p), p)
    pg = mv.pg
    arg0 = mk('arg', 0)
    soff = pg['lru_pages'] + 0
    noff = mv.pi['lru_link']
    vec = pg['all_pages._M_impl._M_start'] if 'all_pages._M_impl._M_start' in pg else None
    if vec is None:
        raise AnalysisError('page table anchor not found')

    def links(node):
        return (soff + mv.nxt, soff + mv.prv) if node == 'L' else (noff + mv.nxt, noff + mv.prv)

    def page_no(t):
        """page index a page_info address was made from, or None"""
        b, o, vs = split_ptr(strip(t))
        if b is mk('load', ptr(arg0, vec), 8, 0) and o == 0 and len(vs) == 1 and vs[0][1] == mv.pi_size:
            return vs[0][0]
        if b is mk('load', ptr(arg0, vec), 8, 0) and len(vs) == 1 and vs[0][1] == 1 and vs[0][0].op == 'bin' and vs[0][0].a[0] == 'shl':
            return vs[0][0].a[1]
        return None
    # ---- touch
    tp = mv.prim_paths('drv_pg_touch')
    ctx.covered(mv.prim.fn('drv_pg_touch'), tp)
    N = 6
    for p in tp:
        if p.outcome != 'ret':
            ctx.ob('recency-order', 'memalloc::pages::touch', p.outcome == 'backedge' or p.outcome == 'noreturn', 'outcome %s' % p.outcome, lastrepo(p), p)
    for n in range(1, N + 1):
        names = ['P%d' % i for i in range(n)]
        for pos in range(n):
            applied = 0
            for p in tp:
                if p.outcome != 'ret':
                    continue
                pn = []

                def objs(t):
                    if t is arg0:
                        return ('L', 0)
                    if t.op == 'ptr' and t.a[2] and page_no(t) is not None:
                        pn.append(page_no(t))
                        return (names[pos], 0)
                    return None
                S = Shape(ring('L', soff, names, noff, mv.nxt, mv.prv), objs)
                if not S.apply(p, links):
                    continue
                applied += 1
                for i in set(pn):
                    ctx.ob('own-page', 'memalloc::pages::touch', is_page_of(i, mk('arg', 1), arg0, pg), 'page index %s belongs to the address' % show(i)[:100], lastrepo(p), p)
                w, prob = walk(S.heap, 'L', soff, noff, mv.nxt, mv.prv)
                if w is None:
                    ctx.ob('recency-order', 'memalloc::pages::touch', False, 'marking page %d of %d: %s' % (pos, n, prob), lastrepo(p), p)
                    continue
                x = names[pos]
                rest = [y for y in w if y != x]
                ok = sorted(w) == sorted(names) and rest == [y for y in names if y != x] and (w.index(x) < pos or (pos == 0 and w.index(x) == 0))
                ctx.ob('recency-order', 'memalloc::pages::touch', ok and not S.bad, 'marking page %d of %d turns order %s into %s' % (pos, n, names, w), lastrepo(p), p)
            if not applied:
                raise AnalysisError('no summary of pages::touch applies to page %d of %d' % (pos, n))
    # ---- page_to_reuse
    for which in ('begin', 'end'):
        rp = mv.prim_paths('drv_reuse_' + which)
        ctx.covered(mv.prim.fn('drv_reuse_' + which), rp)
        for p in rp:
            if p.outcome != 'ret':
                continue
            n_ok = 0
            for n in range(1, N + 1):
                names = ['P%d' % i for i in range(n)]

                def objs(t):
                    return ('L', 0) if t is arg0 else None
                S = Shape(ring('L', soff, names, noff, mv.nxt, mv.prv), objs)
                if not S.apply(p, links):
                    continue
                n_ok += 1
                w, prob = walk(S.heap, 'L', soff, noff, mv.nxt, mv.prv)
                exp = [names[-1]] + names[:-1]
                ctx.ob('recycle-least-recent', 'memalloc::pages::page_to_reuse', w == exp, prob or 'recycling turns order %s into %s' % (names, w), lastrepo(p), p)
                if n < 2 or (p.ret is not None and isc(p.ret, 0)):
                    continue
                # which page's memory is returned
                K = reuse_index(p, S, names[-1], vec, mv.pi_size, arg0)
                begin = ptr(mk('load', ptr(arg0, pg['arena_begin']), 8, 0), 0)
                ps_ = mk('load', ptr(arg0, pg['page_size']), 8, 0)
                ok = False
                for k in K:
                    for off in (binop('mul', strip(k), ps_, 64), binop('shl', strip(k), mk('load', ptr(arg0, pg['log2_page_size']), 8, 0), 64)):
                        want = ptr(begin, 0, ((off, 1),))
                        if which == 'end':
                            want = ptr(want, 0, ((ps_, 1),))
                        ok = ok or same(strip(p.ret), want)
                ctx.ob('recycled-page-bounds', 'memalloc::pages::page_to_reuse', ok, '%s of the recycled page is %s' % (which, show(strip(p.ret))[:160]), lastrepo(p), p)
            for e in p.events:
                if e.kind == 'loop' and p.ret is not None and isc(p.ret, 0):
                    # falling out of the search: only after all pages were compared
                    ok = [v for v in e.x[1].values() if isc(v, 0)]
                    ctx.ob('recycled-page-bounds', 'memalloc::pages::page_to_reuse', bool(ok), 'the page table is searched from its first page', lastrepo(p), p)
    for which in ('begin', 'end'):
        bp = mv.prim_paths('drv_bound_' + which)
        ctx.covered(mv.prim.fn('drv_bound_' + which), bp)
        for p in bp:
            ok = False
            t = strip(p.ret)
            begin = mk('load', ptr(arg0, pg['arena_begin']), 8, 0)
            ps_ = mk('load', ptr(arg0, pg['page_size']), 8, 0)
            c0, atoms = lin(t)
            rest = dict(atoms)
            if rest.pop(begin, None) == 1 and c0 == 0:
                if which == 'end' and rest.get(ps_) == 1:
                    del rest[ps_]
                elif which == 'end':
                    rest['?'] = 1
                if len(rest) == 1:
                    x, k = list(rest.items())[0]
                    lg = mk('load', ptr(arg0, pg['log2_page_size']), 8, 0)
                    if k == 1 and isinstance(x, T) and x.op == 'bin' and x.a[0] == 'mul' and ps_ in x.a[1:3]:
                        i = x.a[1] if x.a[2] is ps_ else x.a[2]
                        ok = is_page_of(i, mk('arg', 1), arg0, pg)
                    elif k == 1 and isinstance(x, T) and x.op == 'bin' and x.a[0] == 'shl' and x.a[2] is lg:
                        ok = is_page_of(x.a[1], mk('arg', 1), arg0, pg)
                    elif k == 1 and isinstance(x, T) and x.op == 'bin' and x.a[0] == 'and':
                        off = binop('sub', mk('arg', 1), begin, 64)
                        ok = any(same(u, off) and same(m, binop('sub', C(0), ps_, 64)) for u, m in ((x.a[1], x.a[2]), (x.a[2], x.a[1])))
            ctx.ob('own-page', 'memalloc::pages::page_boundaries_from_addr', ok, '%s of the page of an address is %s' % (which, show(t)[:160]), lastrepo(p), p)


def is_page_of(i, addr, pages, pg):
    """i is (addr - arena_begin) / page_size in any of the usual spellings"""
    i = strip(i)
    while True:
        if i.op == 'cast':
            i = i.a[1]
        elif i.op == 'bin' and i.a[0] == 'and' and isc(i.a[2], 0xffffffff):
            i = i.a[1]
        else:
            break
    if i.op != 'bin' or not same(i.a[1], binop('sub', addr, mk('load', ptr(pages, pg['arena_begin']), 8, 0), 64)):
        return False
    r = i.a[2]
    while r.op == 'cast':
        r = r.a[1]
    if i.a[0] == 'lshr':
        return r is mk('load', ptr(pages, pg['log2_page_size']), 8, 0)
    if i.a[0] in ('udiv', 'sdiv'):
        return r is mk('load', ptr(pages, pg['page_size']), 8, 0)
    return False


def reuse_index(p, S, node, vec, size, arg0):
    """terms known to be the index of the recycled page in the page table"""
    out = []
    base = mk('load', ptr(arg0, vec), 8, 0)
    for a, v in p.flist:
        if a.op == 'atom' and a.a[0] == 'eq' and v:
            for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                b, o, vs = split_ptr(x)
                if strip(b) is base and o == 0 and len(vs) == 1 and vs[0][1] == size and S.ev(y) == (node, 0):
                    out.append(vs[0][0])
    # pointer difference
    for t in subterms(p.ret):
        if t.op == 'bin' and t.a[0] in ('ashr', 'lshr', 'sdiv', 'udiv') and isc(t.a[2]):
            d = t.a[2].a[0] if t.a[0].endswith('div') else 1 << t.a[2].a[0]
            x = t.a[1]
            if d == size and x.op == 'bin' and x.a[0] == 'sub' and S.ev(x.a[1]) == (node, 0) and strip(x.a[2]) is base:
                out.append(t)
    return out
