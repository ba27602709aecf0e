"""M01-M05: the allocator."""
import itertools
from engine import *
from common import view
from memview import memview, STATS, nofork
from cacheview import cacheview, strip, cell
from rules_lib import ev as cev, refuted, strip_c, pwhere
import rules_cache as rc
import blocksim, bitindex
from bitindex import I, P, Tok, num, REQ, M64

OPS = {'drv_alloc': 'memalloc::alloc_or_evict', 'drv_plain_alloc': 'memalloc::alloc', 'drv_free': 'memalloc::free', 'drv_realloc': 'memalloc::realloc_inplace'}
_sims = {}


def sims(mv, fn):
    if fn not in _sims:
        _sims[fn] = blocksim.run_fn(mv, fn, mv.paths(fn))
    return _sims[fn]


def replay(ctx, prop, fns=OPS):
    mv = memview()
    for fn in fns:
        ps = mv.paths(fn)
        ctx.covered(mv.ops.fn(fn), ps)
        ss, K = sims(mv, fn)
        if not ss:
            raise AnalysisError('no feasible path of %s' % fn)
        ctx.assume('%s: every block has room for at least %d bytes; block sizes are multiples of the alignment' % (OPS[fn], K))
        for s in ss:
            for pr, rule, ok, msg, e in s.out:
                if pr == prop:
                    ctx.ob(rule, OPS[fn], ok, msg, e.loc.repo() if e is not None and e.loc else rc.lastrepo(s.p), s.p)
    # rules that only speak up when broken
    for r in ctx.rules:
        if r in SILENT and not any(o[0] == r for o in ctx.obs):
            ctx.ob(r, 'memalloc', True, 'no access on any path breaks the rule')


SILENT = {'live-blocks', 'used-flag', 'counter-step', 'bounds', 'same-page', 'listed-size'}
ASSUME = ['the allocator is created with a configuration accepted by Cache::Create (L03): page size a power of two, whole pages only',
          'callers free or resize only memory they were given and have not returned (C02), and write only inside it (M01)',
          'eviction callbacks do not call back into the allocator']


# ----------------------------------------------------------------------------- the fresh arena
def arena_rule(ctx, R, RL):
    """header states of the constructor's loop are enumerated from its summary for every page size and small page counts"""
    P2 = view('drv/lib.cpp', ['drv_(arena|dict|table).*'], [r'cachelot::memalloc::(pages::pages|free_blocks_by_size::(free_blocks_by_size|put_block))', 'cachelot::memalloc::(pages|free_blocks_by_size)::~.*',
                                                            'aligned_alloc', 'aligned_free', 'cachelot::aligned.*'])
    mv = memview()
    f = P2.fn('drv_arena_create')
    ps = [p for p in explore(P2, f, Model()) if p.outcome in ('ret', 'backedge')]
    ctx.covered(f, ps)
    heads = {e.x[0] for p in ps for e in p.events if e.kind == 'loop'}
    if len(heads) != 1:
        raise AnalysisError('the arena is not initialised by one loop')
    BASE = 1 << 40
    off = mv.blk

    def envof(p, page, n):
        env = {mk('arg', 0): page * n, mk('arg', 1): page}
        for e in p.events:
            if e.kind == 'call' and e.name.endswith('aligned_alloc'):
                env[e.res] = BASE
        return env

    def val(t, env):
        if t.op == 'ptr':
            b, o, vs = t.a
            x = val(b, env)
            if x is None:
                return None
            x += o
            for v, k in vs:
                y = val(v, env)
                if y is None:
                    return None
                x += sgn(y & M64, 64) * k
            return x & M64
        return cev(t, env)

    def fact(a, env):
        if a.op == 'atom' and a.a[0] in ('eq', 'ult', 'slt'):
            x, y = val(a.a[1], env), val(a.a[2], env)
            if x is None or y is None:
                return None
            m = (1 << a.a[3]) - 1
            x, y = x & m, y & m
            return {'eq': x == y, 'ult': x < y, 'slt': sgn(x, a.a[3]) < sgn(y, a.a[3])}[a.a[0]]
        if a.op == 'not':
            r = fact(a.a[0], env)
            return None if r is None else not r
        r = cev(a, env)
        return None if r is None else bool(r)
    for k in range(8, 32):
        for n in (4, 8, 16):
            page = 1 << k
            st = None
            got = []
            for rnd in range(n + 2):
                live = []
                for p in ps:
                    env = envof(p, page, n)
                    h = [e for e in p.events if e.kind == 'loop'][-1]
                    if st is None:
                        phis = {ph: val(v, env) for ph, v in h.x[1].items()}
                    else:
                        phis = st
                    env.update({mk('lv', h.x[0], ph): v for ph, v in phis.items() if v is not None})
                    if any(fact(a, env) not in (None, v) for a, v in (p.flist if st is None else p.flist[h.fpos:])):
                        continue
                    live.append((p, env, h))
                if len(live) != 1:
                    raise AnalysisError('the loop that initialises the arena is not understood (%d continuations)' % len(live))
                p, env, h = live[0]
                if p.outcome == 'ret':
                    break
                es = [e for e in p.events if e.n > h.n]
                put = [e for e in es if e.kind == 'call' and e.name.endswith('put_block')]
                if len(put) == 1:
                    B = val(put[0].args[1], env)
                    m = {}
                    for e in es:
                        if e.kind == 'store' and e.n < put[0].n and val(e.addr, env) is not None:
                            m[val(e.addr, env) - B, e.size] = val(e.val, env)
                    late = [e for e in es if e.kind == 'store' and e.n > put[0].n and val(e.addr, env) is not None and B <= val(e.addr, env) < B + page]
                    got.append((B - BASE, m.get((0, 4)), m.get((4, 4)), put[0].args[0], not late, p))
                    w8 = m.get((0, 8))
                    if w8 is not None:
                        got[-1] = (B - BASE, w8 & 0xffffffff, w8 >> 32) + got[-1][3:]
                elif put:
                    ctx.ob(RL, 'memalloc::memalloc', False, 'one round of the loop over the arena lists %d blocks' % len(put), pwhere(p, f), p)
                    return
                st = {ph: val(v, env) for ph, v in p.x[1].items()}
            else:
                ctx.ob(R, 'memalloc::memalloc', False, 'the loop over an arena of %d pages of %d bytes does not end with the arena' % (n, page), pwhere(p, f), p)
                return
            wh = pwhere(p, f)
            ctx.ob(R, 'memalloc::memalloc', [g[0] for g in got] == [i * page for i in range(n)], 'the blocks of a new arena (%d pages of %d bytes) do not start where the pages start' % (n, page), wh, p)
            ctx.ob(R, 'memalloc::memalloc', all(g[1] == page - mv.header for g in got), 'a block of a new arena does not fill its page of %d bytes or is not marked free' % page, wh, p)
            ctx.ob(R, 'memalloc::memalloc', all(g[2] == page for g in got[1:]), 'back-links of a new arena do not lead to the page before', wh, p)
            fb = [e for e in p.events if e.kind == 'call' and e.name.endswith('::free_blocks_by_size') and not e.threw]
            ctx.ob(RL, 'memalloc::memalloc', len(fb) == 1 and all(g[3] is not None and g[4] for g in got) and len(got) == n, 'a page of a new arena is not listed as one free block', wh, p)


# ----------------------------------------------------------------------------- M01
def lind(a, b, sub=None):
    """a - b as (const, atoms) with signed coefficients"""
    ca, xa = lin(strip(a), 64, sub)
    cb, xb = lin(strip(b), 64, sub)
    d = {}
    for t, k in xa.items():
        d[t] = sgn(k, 64)
    for t, k in xb.items():
        d[t] = d.get(t, 0) - sgn(k, 64)
    return sgn((ca - cb) & M64, 64), {t: k for t, k in d.items() if k}


def M01(ctx):
    ctx.rule('fits', 'the block an allocation returns has at least the requested number of bytes, and a block resized in place at least what is needed')
    ctx.rule('request-bounded', 'memory is requested for an item only if the path established that the size is at most a page minus the block header, computed without overflow')
    ctx.rule('refused-only-if-too-big', 'item_too_big is reported exactly on paths that established that the item does not fit in a page')
    ctx.rule('item-fits', 'the bytes an item occupies (header, key and value of the recorded lengths) and everything copied into it stay inside the requested memory')
    ctx.rule('lengths-representable', 'a length stored in a narrow field of the item was bounded before')
    for a in ASSUME:
        ctx.assume(a)
    replay(ctx, 'M01', ('drv_alloc', 'drv_plain_alloc', 'drv_realloc'))
    cv = cacheview()
    mv = memview()
    ctx.assume('int_to_str returns the number of characters written, which fits its buffer (S10); slices describe existing memory')
    for c in ('create', 'append', 'prepend', 'incr', 'decr'):
        fn = rc.fname(c)
        ps = cv.paths(c)
        ctx.covered(cv.prog.fn('drv_' + c), [x.p for x in ps])
        sizes = []
        for cp in ps:
            sub = {}
            page = lambda: mk('load', ptr(cp.cache, cv.page_off), 4, 0)
            al = [(e, d) for k, e, d in cp.acts if k == 'alloc']
            for e, d in al:
                n = d[0]
                pg = ptr(cast('zext', page(), 64, 32), 0)
                lim = binop('add', cast('zext', page(), 64, 32), C(-mv.header & M64), 64)
                ok = any(implies_le(a, v, n, lim) for a, v in cp.p.flist[:e.fpos])
                ctx.ob('request-bounded', fn, ok, 'memory for an item of %s bytes is requested without knowing that it fits in a page' % show(strip(n))[:120], cp.where(e), cp.p)
                c0, xs = lin(strip(n))
                bad = []
                neg_ = {t for t, k in xs.items() if sgn(k, 64) < 0}
                for t, k in xs.items():
                    if t in neg_:
                        continue
                    if not bounded(cp.p, t, neg_, e.fpos, page()):
                        bad.append(t)
                ctx.ob('request-bounded', fn, not bad and c0 < 4096, 'the size of the item may overflow: %s is not bounded' % (show(bad[0]) if bad else c0), cp.where(e), cp.p)
                sizes.append(lin(strip(n)))
                if e.threw or cp.p.truth(cmp('eq', e.res, C(0), 64)) is not False:
                    continue
                it = strip(e.res)
                nv = rc.new_version(cp, None, it)
                if 'm_key_length' not in nv or 'm_value_length' not in nv:
                    ctx.ob('item-fits', fn, False, 'the lengths of the new item are not set', cp.where(e), cp.p)
                    continue
                sub = rc.field_sub(cp, [it])
                for L in cp.lookups:
                    # the key that was looked up and the key of the item found have the same length
                    if L.item is not None and cp.found(L) and L.e.n < e.n:
                        kl = rc.ItemTerms(cv, L.item).klen
                        if not isc(kl):
                            kt = strip(binop('sub', L.key.e, L.key.b, 64))
                            for k_, v_ in list(sub.items()):
                                if k_.op == 'load' and rc.z64(v_, 8) is kl:
                                    sub[rc.z64(k_, 8)] = kt
                            if kt is not kl:
                                sub[kl] = kt
                wide = {}
                for f, bits in (('m_key_length', 8), ('m_value_length', 32)):
                    for ee in cp.p.stores():
                        b, o, vs = split_ptr(ee.addr)
                        if b is e.res and not vs and o == cv.off[f]:
                            v = widen(ee.val, bits)
                            okw = narrow_ok(cp.p, v, bits, ee.fpos, n, lim)
                            wide.setdefault(f, []).append(v)
                            ctx.ob('lengths-representable', fn, okw, '%s is stored in %d bits without being bounded' % (show(v)[:100], bits), cp.where(ee), cp.p)
                for k_, v_ in itertools.product(wide['m_key_length'], wide['m_value_length']):
                    dc, dx = lind(n, binop('add', binop('add', strip(k_), strip(v_), 64), C(cv.item_size), 64), sub)
                    ctx.ob('item-fits', fn, dc >= 0 and all(k > 0 for k in dx.values()), 'an item of %d+%s+%s bytes is created in %s bytes of memory' % (cv.item_size, show(strip(k_))[:60], show(strip(v_))[:60], show(strip(n))[:100]), cp.where(e), cp.p)
                for (dst, src, ln), ee in nv['copies']:
                    end = binop('add', binop('sub', dst, it, 64), ln, 64)
                    dc, dx = lind(n, ptr(dst, 0, ((ln, 1),)), dict(sub))
                    dx[it] = dx.get(it, 0) + 1
                    dx = {t: k for t, k in dx.items() if k}
                    ctx.ob('item-fits', fn, dc >= 0 and all(k > 0 for k in dx.values()), '%s bytes copied to %s may exceed the memory of the item' % (show(ln)[:60], show(dst)[:80]), cp.where(ee), cp.p)
        if not sizes:
            ctx.ob('request-bounded', fn, False, 'no memory is requested for the item', '', None)
        for cp in ps:
            page = mk('load', ptr(cp.cache, cv.page_off), 4, 0)
            lim = binop('add', cast('zext', page, 64, 32), C(-mv.header & M64), 64)
            if any(k == 'alloc' for k, e, d in cp.acts):
                thr = [e for e in cp.p.events if e.kind == 'call' and rc.throws_code(cv, e, 5)]
                continue
            thr = [e for e in cp.p.events if e.kind == 'call' and rc.throws_code(cv, e, 5)]
            for e in thr:
                ok = False
                for a, v in cp.p.flist[:e.fpos]:
                    g = gap(a, v)          # lo <= hi - slack
                    if g is None:
                        continue
                    lo, hi, slack = g
                    # hi - lo >= slack with hi - lo = X - lim for X an item size or the value length
                    less = [(s[0], {t: k for t, k in s[1].items() if t is not strip(v_)}) for s in sizes for v_ in vlens(cp, c)]
                    for X in [s for s in sizes] + [lin(strip(t)) for t in vlens(cp, c)] + less:
                        cl, xl = lin(strip(lim))
                        dc, dx = lind(hi, lo)
                        want = dict((t, sgn(k, 64)) for t, k in X[1].items())
                        for t, k in xl.items():
                            want[t] = want.get(t, 0) - sgn(k, 64)
                        want = {t: k for t, k in want.items() if k}
                        wc = sgn((X[0] - cl) & M64, 64)
                        # (hi-lo) = (X-lim) + (dc-wc);  hi-lo>=slack  =>  X-lim >= slack-(dc-wc) >= 1
                        if dx == want and slack - (dc - wc) >= 1:
                            ok = True
                ctx.ob('refused-only-if-too-big', fn, ok, 'an item is refused as too big although it may fit', cp.where(e), cp.p)
            if not thr and cp.p.outcome == 'ret' and c == 'create':
                ctx.ob('request-bounded', fn, False, 'no memory is requested for the item', rc.lastloc(cp), cp.p)
    if not any(o[0] == 'refused-only-if-too-big' for o in ctx.obs):
        ctx.ob('refused-only-if-too-big', 'Cache', False, 'no item is ever refused')


def vlens(cp, c):
    return [cp.arg(3)] if c == 'create' else [e.res for e in cp.p.events if e.kind == 'call' and e.name == 'cachelot::int_to_str']


def gap(a, v):
    """fact -> (lo, hi, slack) with hi - lo >= slack"""
    if a.op != 'atom' or a.a[0] != 'ult':
        return None
    x, y = a.a[1], a.a[2]
    return (x, y, 1) if v else (y, x, 0)


def implies_le(a, v, n, lim):
    """does the fact imply n <= lim (both computed without overflow)?"""
    g = gap(a, v)
    if g is None or (a.a[3] or 64) != 64:
        return False
    lo, hi, slack = g
    dc, dx = lind(hi, lo)
    wc, wx = lind(lim, n)
    # hi-lo = (lim-n) + (dc-wc); hi-lo>=slack => lim-n >= slack-(dc-wc) >= 0
    return dx == wx and slack - (dc - wc) >= 0


def bounded(p, t, negs, upto, page):
    """t is at most some 33-bit number on this path (t may be the end of a slice whose begin is in negs)"""
    w = width(t)
    if w is not None and w <= 32:
        return True
    if t.op == 'callres' and t.a[1] == 'cachelot::int_to_str':
        return True
    forms = [lin(t)] + [lin(binop('sub', t, x, 64)) for x in negs]
    for a, v in p.flist[:upto]:
        g = gap(a, v)
        if g is None or (a.a[3] or 64) != 64:
            continue
        lo, hi, slack = g
        if lin(strip(lo)) in forms:
            hc, hx = lin(strip(hi))
            if all((width(x) or 64) <= 32 and sgn(k, 64) == 1 for x, k in hx.items()) and abs(sgn(hc, 64)) < 1 << 32:
                # page - header: the page is never smaller than the header
                if sgn(hc, 64) >= 0 or any(x is page for x in hx) and sgn(hc, 64) >= -256:
                    return True
            # what remains of a bounded number: hi = A - B where B <= A is known
            for b, u in p.flist[:upto]:
                g2 = gap(b, u)
                if g2 is None or (b.a[3] or 64) != 64:
                    continue
                ac, ax = lin(strip(g2[1]))
                if ax and all((width(x) or 64) <= 32 and sgn(k, 64) == 1 for x, k in ax.items()) and (sgn(ac, 64) >= 0 or any(x is page for x in ax) and sgn(ac, 64) >= -256) \
                        and lind(g2[1], g2[0]) == (sgn(hc, 64), {x: sgn(k, 64) for x, k in hx.items()}):
                    return True
    return False


def widen(v, bits):
    """the 64-bit number whose low bits are stored"""
    if v.op == 'cast' and v.a[0] == 'trunc':
        return v.a[1]
    if v.op == 'bin' and v.a[0] == 'add' and not isc(v.a[2]):
        return binop('add', widen(v.a[1], bits), widen(v.a[2], bits), 64)
    return cast('zext', v, 64, bits)


def narrow_ok(p, v, bits, upto, n, lim):
    """v fits in bits"""
    w = width(v)
    if v.op == 'cast' and v.a[0] == 'zext' and v.a[3] <= bits:
        return True
    if v.op == 'callres' and v.a[1] == 'cachelot::int_to_str':
        return True
    lv = lin(strip(v))
    for a, val in p.flist[:upto]:
        g = gap(a, val)
        if g is None:
            continue
        lo, hi, slack = g
        if lin(strip(lo)) == lv and isc(hi) and hi.a[0] - slack < 1 << bits:
            return True
    if bits < 32:
        return False
    # part of a bounded size: v <= n <= page
    dc, dx = lind(n, v)
    # (the begin of a slice is subtracted from its end)
    pairs = all(k > 0 or t.op == 'arg' and any(o.op == 'arg' and q == -k for o, q in dx.items()) for t, k in dx.items())
    return dc >= 0 and pairs \
        and any(implies_le(a, x, n, lim) for a, x in p.flist[:upto])


# ----------------------------------------------------------------------------- M02 / M03 / M05
def M02(ctx):
    ctx.rule('live-blocks', 'the header of a block that was merged into another one is not used any more')
    ctx.rule('bounds', 'no header is written outside the arena, and the configuration is never written')
    ctx.rule('chain', 'after every change of a size the block ends where another block (or the page) starts')
    ctx.rule('back-link', 'when the operation ends, the back-link of every block that changed neighbours is the size of the block to its left')
    ctx.rule('block-size', 'a block never gets smaller than the list links stored in it')
    ctx.rule('alignment', 'blocks and their sizes stay multiples of the alignment')
    ctx.rule('same-page', 'blocks are merged only if the boundary between them is not a page boundary')
    ctx.rule('page-rebuild', 'a recycled page starts with one block that covers it')
    ctx.rule('fresh-arena', 'the constructor covers every page with one free block and links it to the page before')
    for a in ASSUME:
        ctx.assume(a)
    replay(ctx, 'M02')
    arena_rule(ctx, 'fresh-arena', 'fresh-arena')


def M03(ctx):
    ctx.rule('listed-size', 'the size of a block does not change while it is on a free list')
    ctx.rule('used-flag', 'the used flag is only set to known values of blocks whose state is known')
    ctx.rule('list-put', 'only free blocks that are on no list are put on a free list')
    ctx.rule('list-remove', 'only listed blocks are taken off the lists')
    ctx.rule('evict-used', 'only used blocks are reported as evicted')
    ctx.rule('absorbed', 'a block absorbed by a merge is free and was taken off its list')
    ctx.rule('loop-state', 'a merge loop re-establishes the state of the block it extends')
    ctx.rule('page-sweep', 'the sweep over a recycled page deals with each block exactly once, from the first to the last, before the page is rebuilt')
    ctx.rule('final-state', 'when an operation ends every block is listed exactly if it is free')
    ctx.rule('returned-block', 'memory returned belongs to a used, unlisted block; released memory to a free one; a block that cannot grow keeps its memory')
    ctx.rule('fresh-listed', 'the constructor lists every page of the arena once')
    ctx.rule('list-links', 'put_block and remove_block insert and remove exactly the given block')
    for a in ASSUME:
        ctx.assume(a)
    replay(ctx, 'M03')
    arena_rule(ctx, 'fresh-listed', 'fresh-listed')
    ix = Index(ctx, memview())
    ix.remove_rule('list-links')
    ix.put_rule('list-links', None, None, None)


def M05(ctx):
    ctx.rule('counter-step', 'counters are only increased or decreased')
    ctx.rule('balance', 'on every path the used-memory counter changes by exactly the change of the memory in use blocks, headers included')
    ctx.rule('counted-once', 'each operation, failure and evicted block is counted exactly once')
    ctx.rule('amounts', 'requested, served and unserved totals grow by the amounts of this operation')
    ctx.rule('actual-size', 'reveal_actual_size reports block size and header')
    for a in ASSUME:
        ctx.assume(a)
    replay(ctx, 'M05')
    mv = memview()
    ps = mv.paths('drv_actual')
    ctx.covered(mv.ops.fn('drv_actual'), ps)
    for p in ps:
        w = mk('load', ptr(mk('arg', 1), -mv.header), 4, 0)
        want = binop('add', binop('and', w, C(0x7fffffff, 32), 32), C(mv.header, 32), 32)
        r = strip_c(p.ret) if p.ret is not None else None
        ctx.ob('actual-size', 'memalloc::reveal_actual_size', p.outcome == 'ret' and r is not None and lin(r, 31) == lin(want, 31), 'the actual size is %s' % (show(r) if r is not None else '?'), pwhere(p, mv.ops.fn('drv_actual')), p)


# ----------------------------------------------------------------------------- M04
class Index:
    def __init__(self, ctx, mv):
        self.ctx, self.mv = ctx, mv
        self.prim = mv.prim
        fb = mv.fb
        self.L1 = fb['first_level_bit_index']
        self.NUM = fb['num_powers_of_2_plus_small_blocks_cell']
        self.rows, self.lists = fb['second_level_bit_index._M_impl._M_start'], fb['size_classes_table._M_impl._M_start']
        self.rows_f, self.lists_f = fb['second_level_bit_index._M_impl._M_finish'], fb['size_classes_table._M_impl._M_finish']
        k = [x for x in self.prim.layout if x.startswith('cachelot::intrusive_list<cachelot::memalloc::block')]
        if len(k) != 1:
            raise AnalysisError('type of the free lists')
        self.lsz = self.prim.layout[k[0]]['size']
        self.dummy = self.prim.layout[k[0]]['m']['dummy_link'][0] // 8
        self.nxt, self.prv, self.link = mv.nxt, mv.prv, mv.link

    # --- how a fresh index is built
    def ctor(self):
        f = self.prim.fn('drv_fb_ctor')
        ps = self.mv.prim_paths('drv_fb_ctor')
        self.ctx.covered(f, ps)
        self.ctor_paths = ps
        return ps

    def numrows(self, page):
        """number of rows a fresh index has for this page size, from the constructor's store"""
        r = set()
        for p in self.mv.prim_paths('drv_fb_ctor'):
            if p.outcome not in ('ret', 'backedge') or refuted(p, {mk('arg', 1): page}):
                continue
            for e in p.stores():
                if e.addr is ptr(mk('arg', 0), self.NUM):
                    r.add(cev(e.val, {mk('arg', 1): page}))
        if len(r) != 1 or None in r:
            raise AnalysisError('number of size classes for pages of %d bytes' % page)
        return r.pop()

    # --- abstract states
    def const(self, n):
        c = {('FB', self.NUM, 4): num(n), ('FB', self.rows, 8): P('ROWS', 0), ('FB', self.lists, 8): P('LISTS', 0),
             ('FB', self.rows_f, 8): P('ROWS', 4 * n), ('FB', self.lists_f, 8): P('LISTS', self.lsz * 32 * n)}
        o = self.mv.fb.get('last_power_of_2')
        return c

    def access(self, n):
        def acc(s, a, size, val, it):
            st = it[0] == 'S'

            def bad(m):
                s.bad.append(m)
            if not isinstance(a, P):
                if st:
                    bad('memory is written at %s, which is not known to belong to the index' % show(it[1])[:120])
                return None
            if a.b == 'FB':
                if a.o == self.L1 and size == 4:
                    s.read = True
                    if st:
                        s.heap['L1'] = val if val is not None else I(M64 & ~0xffffffff, 0)
                    return s.heap['L1']
                if st:
                    bad('a field of the index other than its marks is written')
                    return None
                return s.const.get((a.b, a.o, size))
            if a.b == 'ROWS':
                s.read = True
                if a.o % 4 or size != 4 or not 0 <= a.o < 4 * n:
                    bad('the marks of size classes are accessed outside their table (offset %d of %d)' % (a.o, 4 * n))
                    return None
                k = ('row', a.o // 4)
                if st:
                    s.heap[k] = val if val is not None else I(M64 & ~0xffffffff, 0)
                return s.heap.get(k, I(M64 & ~0xffffffff, 0, k))
            if a.b == 'LISTS':
                s.read = True
                if not 0 <= a.o < self.lsz * 32 * n:
                    bad('the table of free lists is accessed outside its bounds (list %d of %d)' % (a.o // self.lsz, 32 * n))
                    return None
            elif a.b not in s.ringbases:
                if st:
                    bad('memory is written at %r' % a)
                return None
            k = (a.b, a.o)
            if size == 8 and k in s.heap:
                if st:
                    s.heap[k] = val if val is not None else 'unknown'
                return s.heap[k] if s.heap[k] != 'unknown' else None
            if st:
                bad('memory is written at %r' % a)
                return None
            if a.o == 0 and size == 4 and a.b in s.ringbases:
                return s.heap.get((a.b, 'word'), Tok('word', a.b))
            return None
        return acc

    def ring(self, heap, idx, blocks):
        seq = [('LISTS', idx * self.lsz + self.dummy)] + [(b, self.link) for b in blocks]
        for i, (b, o) in enumerate(seq):
            m = seq[(i + 1) % len(seq)]
            heap[(b, o + self.nxt)] = P(*m)
            heap[(m[0], m[1] + self.prv)] = P(b, o)

    def walk(self, heap, idx):
        cur = ('LISTS', idx * self.lsz + self.dummy)
        start = cur
        out = []
        for _ in range(9):
            x = heap.get((cur[0], cur[1] + self.nxt))
            if not isinstance(x, P):
                return None
            m = (x.b, x.o)
            y = heap.get((m[0], m[1] + self.prv))
            if not isinstance(y, P) or (y.b, y.o) != cur:
                return None
            if m == start:
                return out
            if m[0] in out or m[1] != self.link:
                return None
            out.append(m[0])
            cur = m
        return None

    def ignore(self, addr):
        return split_ptr(addr)[0] is STATS

    def classes(self):
        """exhaustive partition of the block sizes: (representative text, known bits, value, least size)"""
        for q in range(32):
            yield (q * 8, I(M64 & ~7, q * 8))
        for p in range(8, 31):
            for q in range(32):
                lo = (1 << p) + (q << (p - 5))
                yield (lo, I(M64 & ~((1 << (p - 5)) - 1), lo))

    # --- put_block
    def put(self, n, size, ringlen, idx):
        """abstract results of listing a block of this size"""
        bl = ['x%d' % i for i in range(ringlen)]
        heap = {'L1': I(M64 & ~0xffffffff, 0, 'L1')}
        if idx is not None:
            self.ring(heap, idx, bl)
        heap[('blk', 'word')] = size
        heap[('blk', self.link + self.nxt)] = 'unknown'
        heap[('blk', self.link + self.prv)] = 'unknown'
        st = bitindex.State(heap, self.const(n), {}, set(bl) | {'blk'})
        st.env[mk('arg', 0)] = P('FB', 0)
        st.env[mk('arg', 1)] = P('blk', 0)
        return bitindex.run(self.tput, st, self.ignore, self.access(n))

    def put_rule(self, RL, RM, RO, RB):
        """learns the class of every size"""
        ctx = self.ctx
        f = self.prim.fn('drv_put')
        ps = self.mv.prim_paths('drv_put')
        ctx.covered(f, ps)
        if any(e.kind == 'loop' for p in ps for e in p.events):
            raise AnalysisError('put_block contains a loop')
        self.tput = bitindex.trie(ps, lambda p: 0)
        n = self.numrows(1 << 31)
        self.cls = {}
        pos = {}
        last = (-1, -1)
        fn = 'free_blocks_by_size::put_block'
        for lo, size in self.classes():
            # where does the block go: first without a ring
            r = self.put(n, size, 0, None)
            if not r:
                raise AnalysisError('no path of put_block for blocks of %d bytes' % lo)
            got = set()
            for s, it, p, memo in r:
                wh = pwhere(p, f)
                if it[0] != 'X' or it[1] != 'ret':
                    ctx.ob(RL, fn, False, 'listing a block does not return', wh, p)
                    return False
                ptrs = {x.o // self.lsz for x in [s.heap.get(('blk', self.link + self.nxt)), s.heap.get(('blk', self.link + self.prv))] if isinstance(x, P) and x.b == 'LISTS'}
                rows = [k for k in s.heap if isinstance(k, tuple) and k[0] == 'row']
                chg = []
                for k in rows:
                    v = s.heap[k]
                    bits = [i for i in range(32) if v.k >> i & 1]
                    if v.src != k:
                        chg.append((k[1], None))
                    for i in bits:
                        chg.append((k[1], i if v.v >> i & 1 else None))
                L = s.heap['L1']
                l1 = [(i, L.v >> i & 1) for i in range(32) if L.k >> i & 1] if L.src == 'L1' else None
                got.add((tuple(sorted(ptrs)), tuple(chg), tuple(l1) if l1 is not None else None, tuple(s.bad), p))
            for ptrs, chg, l1, bad, p in got:
                wh = pwhere(p, f)
                if len(chg) == 1 and chg[0][1] is not None:
                    j, sub = chg[0]
                    if RM:
                        ctx.ob(RM, fn, l1 == ((j, 1),), 'listing a block of %d bytes sets mark %d.%d but changes the upper marks to %s' % (lo, j, sub, l1), wh, p)
                    self.cls.setdefault(lo, set()).add((j, sub))
                else:
                    if RM:
                        ctx.ob(RM, fn, False, 'listing a block of %d bytes changes the marks %s (row, class)' % (lo, chg), wh, p)
                    continue
                # with the list in place
                idx = pos.get((j, sub))
                if idx is None:
                    cand = [x for x in ptrs] or self.find_list(n, size)
                    if len(cand) != 1:
                        ctx.ob(RL, fn, False, 'a block of %d bytes is not put on one list' % lo, wh, p)
                        continue
                    idx = cand[0]
                    if idx in pos.values():
                        ctx.ob(RL, fn, False, 'two size classes share a list', wh, p)
                    pos[j, sub] = idx
                if RO:
                    ctx.ob(RO, fn, (j, sub) >= last, 'blocks of %d bytes are in a lower class than smaller ones' % lo, wh, p)
                    last = max(last, (j, sub))
            if len(self.cls.get(lo, ())) == 1:
                j, sub = list(self.cls[lo])[0]
                for rl in (0, 1, 2):
                    for s, it, p, memo in self.put(n, size, rl, pos[j, sub]):
                        w = self.walk(s.heap, pos[j, sub])
                        ok = w is not None and w.count('blk') == 1 and [x for x in w if x != 'blk'] == ['x%d' % i for i in range(rl)]
                        ctx.ob(RL, fn, ok, 'listing a block of %d bytes in a list of %d leaves the list as %s' % (lo, rl, w), pwhere(p, f), p)
                        ctx.ob(RL, fn, not s.bad, '; '.join(s.bad[:1]), pwhere(p, f), p)
            elif RM:
                ctx.ob(RM, fn, False, 'blocks of %d bytes up to the next class have no definite class' % lo, pwhere(r[0][2], f), r[0][2])
        self.pos = pos
        if RB and len(self.cls) == 768 and all(len(v) == 1 for v in self.cls.values()):
            for k in range(8, 32):
                page = 1 << k
                m = self.numrows(page)
                top = [c for lo, _ in self.classes() if lo <= page - self.mv.header for c in self.cls[lo]]
                row = max(c[0] for c in top)
                idx = max(pos[c] for c in top)
                alloc = self.allocated(page)
                ctx.ob(RB, 'free_blocks_by_size', row < m and alloc is not None and alloc[0] >= 4 * (row + 1) and alloc[1] >= self.lsz * (idx + 1),
                       'pages of %d bytes need %d rows and %d lists; %s rows, %s bytes' % (page, row + 1, idx + 1, m, alloc), '', None)
        return True

    def find_list(self, n, size):
        return []

    def allocated(self, page):
        """bytes allocated for rows and lists by the constructor"""
        out = set()
        env = {mk('arg', 1): page}
        for p in self.mv.prim_paths('drv_fb_ctor'):
            if p.outcome != 'ret' or refuted(p, env):
                continue
            r = {}
            for o in (self.rows, self.lists):
                v = None
                for e in p.stores():
                    if e.addr is ptr(mk('arg', 0), o):
                        v = e.val
                for e in p.events:
                    if e.kind == 'call' and e.name in ('operator_new', 'operator_new[]') and e.res is v:
                        r[o] = cev(e.args[0], env)
            if r.get(self.rows) is None or r.get(self.lists) is None:
                continue
            out.add((r[self.rows], r[self.lists]))
        return min(out) if out else None

    # --- remove_block
    def remove_rule(self, R):
        ctx = self.ctx
        f = self.prim.fn('drv_remove')
        ps = self.mv.prim_paths('drv_remove')
        ctx.covered(f, ps)
        t = bitindex.trie(ps, lambda p: 0)
        n = 24
        fn = 'free_blocks_by_size::remove_block'
        for length in (1, 2, 3, 4):
            for at in range(length):
                bl = ['x%d' % i for i in range(length)]
                heap = {'L1': I(M64 & ~0xffffffff, 0, 'L1')}
                self.ring(heap, 5, bl)
                st = bitindex.State(heap, self.const(n), {}, set(bl))
                st.env[mk('arg', 0)] = P('FB', 0)
                st.env[mk('arg', 1)] = P(bl[at], 0)
                rs = bitindex.run(t, st, self.ignore, self.access(n))
                if not rs:
                    raise AnalysisError('no path of remove_block')
                for s, it, p, memo in rs:
                    w = self.walk(s.heap, 5)
                    want = [b for b in bl if b != bl[at]]
                    ok = it[0] == 'X' and it[1] == 'ret' and w == want and not s.bad
                    marks = s.heap['L1'].key() == heap['L1'].key() and not any(isinstance(k, tuple) and k[0] == 'row' for k in s.heap)
                    ctx.ob(R, fn, ok, 'removing block %d of %d leaves the list as %s%s' % (at, length, w, '; ' + s.bad[0] if s.bad else ''), pwhere(p, f), p)
                    ctx.ob(R, fn, marks, 'removing a block changes the marks', pwhere(p, f), p)

    # --- try_get_block
    def states(self, n, r, s, full):
        """cases of the index around position (r, s): yields (name, heap, front relation, ring, next position)"""
        W = M64 & ~0xffffffff

        def nexts():
            for k in range(s + 1, 32):
                yield ('row', k)
            for j in range(r + 1, n):
                if full:
                    for i in range(4):
                        yield ('up', j, (7 * j + 5 * s + r + 8 * i + i) % 32)
                else:
                    yield ('up', j, (7 * j + 5 * s + r) % 32)
            yield None
        allnx = list(nexts())
        if not full and len(allnx) > 6:
            some = {0, len(allnx) - 1, min(31 - s, len(allnx) - 1)}
        else:
            some = set(range(len(allnx)))
        for i, nx in enumerate(allnx):
            if not full and i not in some and (i + 3 * s + r) % 4:
                continue
            for marked in (0, 1):
                for low in (0, 1):       # some class below s in the same row is marked
                    if low and s == 0:
                        continue
                    if not full and i not in some and (low + i) % 2:
                        continue
                    combos = [(0, None)] if not marked else [(0, None), (1, True), (1, False), (2, True), (2, False)]
                    if not full and i not in some and marked:
                        combos = combos[i % 5:i % 5 + 1]
                    for ln, small in combos:
                        # bits of row r
                        k = W | (1 << s)
                        v = marked << s
                        below = (1 << s) - 1
                        k |= below
                        if low:
                            k &= ~((below >> 1) if s > 1 else 0)     # one known mark, the rest of the lower ones unknown
                            v |= 1 << (s - 1)
                        above = 0xffffffff & ~((1 << (s + 1)) - 1)
                        if nx and nx[0] == 'row':
                            known = ((1 << (nx[1] + 1)) - 1) & above
                            k |= known
                            v |= 1 << nx[1]
                        else:
                            k |= above
                        row = I(k, v, ('row', r))
                        nonzero = bool(v)
                        # upper marks: those below r unknown
                        uk = W | (0xffffffff & ~((1 << r) - 1))
                        uv = int(nonzero) << r
                        if nx and nx[0] == 'row':
                            uk = W | (1 << r)                       # upper marks irrelevant
                        elif nx:
                            uk = W | (((1 << (nx[1] + 1)) - 1) & ~((1 << r) - 1))
                            uv |= 1 << nx[1]
                        # rows beyond the table never have marks
                        uk |= 0xffffffff & ~((1 << n) - 1)
                        heap = {'L1': I(uk, uv, 'L1'), ('row', r): row}
                        if nx and nx[0] == 'up':
                            m = nx[2]
                            heap[('row', nx[1])] = I(W | ((1 << (m + 1)) - 1), 1 << m, ('row', nx[1]))
                        yield heap, small, ln, (None if nx is None else (r, nx[1]) if nx[0] == 'row' else (nx[1], nx[2])), nonzero

    def tryget_rule(self, R1, R2, R3, full):
        ctx = self.ctx
        f = self.prim.fn('drv_try_get')
        ps = self.mv.prim_paths('drv_try_get')
        ctx.covered(f, ps)
        fn = 'free_blocks_by_size::try_get_block'
        heads = {e.x[0] for p in ps for e in p.events if e.kind == 'loop'}
        if len(heads) != 1 or any(sum(1 for e in p.events if e.kind == 'loop') > 1 for p in ps):
            raise AnalysisError('try_get_block is not one loop')
        h = heads.pop()
        A0, A1 = mk('arg', 0), mk('arg', 1)
        t0 = bitindex.trie(ps, lambda p: 0)
        t1 = bitindex.trie(ps, lambda p: next((i + 1 for i, e in enumerate(p.events) if e.kind == 'loop'), None))
        # counters among the loop variables carry no position
        phis = {}
        for p in ps:
            for e in p.events:
                if e.kind == 'loop':
                    for ph, v in e.x[1].items():
                        phis.setdefault(ph, []).append(v)
        drop = set()
        for ph in phis:
            lvt = mk('lv', h, ph)
            nx = [p.x[1].get(ph) for p in ps if p.outcome == 'backedge']
            if all(isc(v) for v in phis[ph]) and nx and all(x is not None and x.op == 'bin' and x.a[0] == 'add' and x.a[1] is lvt and isc(x.a[2]) for x in nx):
                drop.add(ph)
        n = self.numrows(1 << 31)
        inv = {}
        for c, i in self.pos.items():
            inv[c] = i
        work, seen = [], {}

        def enter(hdr, ghost, p):
            k = (tuple((ph, None if v is None or ph in drop else v.key()) for ph, v in hdr), ghost)
            if k in seen:
                return
            seen[k] = True
            if len(seen) > 6000:
                raise AnalysisError('the search position of try_get_block is not understood')
            work.append(({ph: v for ph, v in hdr if ph not in drop}, ghost))
        # entry: the search starts at the class of the requested size
        for lo, size in self.classes():
            g = self.cls.get(lo)
            if g is None or len(g) != 1:
                continue
            g = list(g)[0]
            st = bitindex.State({'L1': I(M64 & ~0xffffffff, 0, 'L1')}, self.const(n), {}, set())
            st.env[A0] = P('FB', 0)
            st.env[A1] = size
            for s, it, p, memo in bitindex.run(t0, st, self.ignore, self.access(n)):
                if it[0] == 'H' and not s.read and not s.bad:
                    hdr = [(ph, bitindex.ev(s, v, memo)) for ph, v in it[2]]
                    enter(hdr, g, p)
                else:
                    raise AnalysisError('try_get_block looks at the index before its loop')
        done = 0
        rounds = {}
        while work:
            env, (r, s_) = work.pop()
            done += 1
            idx = inv.get((r, s_))
            for heap, small, ln, nx, nonzero in self.states(n, r, s_, full):
                bl = ['x%d' % i for i in range(ln)]
                hp = dict(heap)
                if idx is not None:
                    self.ring(hp, idx, bl)
                st = bitindex.State(hp, self.const(n), {'x0': small} if ln else {}, set(bl))
                st.env[A0] = P('FB', 0)
                st.env[A1] = REQ
                for ph, v in env.items():
                    if v is not None:
                        st.env[mk('lv', h, ph)] = v
                rs = bitindex.run(t1, st, self.ignore, self.access(n))
                if not rs:
                    raise AnalysisError('no path of try_get_block for a state of the index')
                for s, it, p, memo in rs:
                    wh = pwhere(p, f)
                    where = 'at class %d.%d (%s, list of %d)' % (r, s_, 'marked' if heap[('row', r)].v >> s_ & 1 else 'not marked', ln)
                    ctx.ob(R3, fn, not s.bad, '%s: %s' % (where, s.bad[0] if s.bad else ''), wh, p)
                    w = self.walk(s.heap, idx) if idx is not None else []
                    row0, row1 = heap[('row', r)], s.heap[('row', r)]
                    left = ln
                    fits = ln > 0 and small is False
                    if it[0] == 'X' and it[1] == 'ret':
                        v = bitindex.ev(s, it[2], memo)
                        if isinstance(v, P):
                            okb = v.o == 0 and v.b in bl and s.rel.get(v.b) is False
                            ctx.ob(R1, fn, okb, '%s: the block returned is not known to be listed and as large as requested' % where, wh, p)
                            ctx.ob(R2, fn, w == [b for b in bl if b != v.b], '%s: the block returned is not taken off its list, or others are: %s' % (where, w), wh, p)
                            left -= 1
                        elif isinstance(v, I) and v.full() and v.v == 0:
                            ctx.ob(R1, fn, not fits and nx is None, '%s: no block is returned although %s' % (where, 'the first one fits' if fits else 'class %s.%s above is marked' % (nx or (0, 0))), wh, p)
                            ctx.ob(R2, fn, w == bl, '%s: a list changes although no block is returned' % where, wh, p)
                        else:
                            ctx.ob(R1, fn, False, '%s: the result is unknown (%r)' % (where, v), wh, p)
                            continue
                    elif it[0] == 'X' and it[1] == 'backedge':
                        ctx.ob(R1, fn, not fits, '%s: the search goes on although the first block fits' % where, wh, p)
                        ctx.ob(R2, fn, w == bl, '%s: a list changes although no block is returned' % where, wh, p)
                        if nx is None:
                            ctx.ob(R1, fn, False, '%s: the search goes on although no larger class is marked' % where, wh, p)
                        else:
                            hdr = tuple((ph, bitindex.ev(s, v, memo)) for ph, v in it[3])
                            kk = tuple((ph, None if v is None or ph in drop else v.key()) for ph, v in hdr)
                            rounds.setdefault(nx, {}).setdefault(kk, (hdr, where, wh, p))
                    else:
                        ctx.ob(R1, fn, False, 'the search ends with %s' % it[1], wh, p)
                        continue
                    # marks
                    chgs = [k for k in s.heap if isinstance(k, tuple) and k[0] == 'row' and k in heap and s.heap[k].key() != heap[k].key() and k != ('row', r)]
                    chgs += [k for k in s.heap if isinstance(k, tuple) and k[0] == 'row' and k not in heap and s.heap[k].key()[2] != k]
                    same_ = row1.key() == row0.key()
                    clr = row1.src == row0.src and row1.k == row0.k and row1.v == row0.v & ~(1 << s_)
                    ctx.ob(R2, fn, not chgs and (same_ or clr and left == 0), '%s: marks of classes change although they are not empty' % where, wh, p)
                    u0, u1 = heap['L1'], s.heap['L1']
                    zero = not row1.v
                    ctx.ob(R2, fn, u1.src == u0.src and u1.k == u0.k and u1.v == (u0.v & ~(1 << r) if zero else u0.v), '%s: the upper mark of row %d is %s although the row %s' % (
                        where, r, 'set' if u1.v >> r & 1 else 'cleared', 'has no marks left' if zero else 'still has marks'), wh, p)
            if not work:
                # positions reached through the next-class search
                for nx, ks in list(rounds.items()):
                    for kk, (hdr, where, wh, p) in ks.items():
                        enter(hdr, nx, p)
                rounds = {}
        # every position must be identified by the same loop state, however it is reached
        byg = {}
        for k, g in seen:
            byg.setdefault(g, set()).add(k)
        ctx.ob(R1, fn, done >= len(set(self.pos)), 'only %d of the size classes are searched' % done, '', None)
        self.rounds = done
        ctx.stat['rounds'] = done

    def ctor_rule(self, R):
        ctx = self.ctx
        f = self.prim.fn('drv_fb_ctor')
        ps = self.ctor()
        a0 = mk('arg', 0)
        seen = 0
        loops = {}
        for p in ps:
            if p.outcome not in ('ret', 'backedge'):
                continue
            wh = pwhere(p, f)
            l1 = [e.val for e in p.stores() if e.addr is ptr(a0, self.L1)]
            ctx.ob(R, 'free_blocks_by_size', bool(l1) and isc(l1[-1], 0), 'a new index has upper marks', wh, p)
            lp = [e for e in p.events if e.kind == 'loop']
            for i, e in enumerate(lp):
                after = [x for x in p.events if x.n > e.n and (i + 1 == len(lp) or x.n < lp[i + 1].n) and x.kind == 'store']
                if i + 1 == len(lp) and p.outcome == 'backedge':
                    loops.setdefault(e.x[0], []).append((p, e, after))
            mset = [e for e in p.events if e.kind == 'call' and e.name.startswith('memset')]
            for e in mset:
                ctx.ob(R, 'free_blocks_by_size', isc(e.args[1], 0), 'marks of a new index are not zero', wh, p)
                seen |= 1
        for h, l in loops.items():
            for p, e, sts in l:
                wh = pwhere(p, f)
                offs = {}
                for s in sts:
                    b, o, vs = split_ptr(s.addr)
                    offs[(b, o, vs)] = s
                kinds = {s.size for s in sts}
                if kinds == {4}:
                    ctx.ob(R, 'free_blocks_by_size', all(isc(s.val, 0) for s in sts), 'marks of a new index are not zero', wh, p)
                    seen |= 1
                elif kinds == {8}:
                    # dummy node linked to itself
                    node = [s.val for s in sts]
                    ok = len(sts) == 2 and node[0] is node[1] and {diff(s.addr, node[0]) for s in sts} == {self.nxt, self.prv}
                    ctx.ob(R, 'free_blocks_by_size', ok, 'a list of a new index is not empty', wh, p)
                    seen |= 2
        if seen != 3:
            raise AnalysisError('construction of the index not understood')


def M04(ctx):
    R = {'list-links': 'put_block adds the given block to the list of its class exactly once, remove_block takes exactly the given block off; other lists and blocks are not written',
         'marks-set': 'listing a block sets the mark of its class and of its row and changes no other mark',
         'class-order': 'the class of a size is definite and never lower than the class of a smaller size',
         'table-bounds': 'for every page size the tables have room for the class of the largest block',
         'search': 'from every position: a fitting first block is returned; otherwise the search goes to the next marked larger class, and ends only if there is none; only listed blocks of sufficient size are returned',
         'marks-cleared': 'a mark is cleared only when its list is empty and the upper mark only with the last mark of its row; lists lose exactly the block returned',
         'search-bounds': 'the search reads and writes only the tables, the lists and the counters',
         'fresh-index': 'a new index has no marks and only empty lists'}
    for k, v in R.items():
        ctx.rule(k, v)
    ctx.assume('the free lists are well-formed rings of blocks, each in the list of its class (established by fresh-index, kept by list-links and M03)')
    ctx.assume('the upper mark of a row is set exactly if the row has a mark (established by fresh-index, kept by marks-set and marks-cleared)')
    ix = Index(ctx, memview())
    ix.ctor_rule('fresh-index')
    ix.remove_rule('list-links')
    if ix.put_rule('list-links', 'marks-set', 'class-order', 'table-bounds') and not ctx.viol:
        ix.tryget_rule('search', 'marks-cleared', 'search-bounds', ctx.tier == 'thorough')
