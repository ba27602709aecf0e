"""Interprocedural exception-escape analysis over un-inlined LLVM IR.

For every function: the set of exception types that can leave it, each with one witness chain of call
sites; every place where an exception reaches a terminate handler. Landing pads are evaluated exactly per
thrown type (clause order, selector comparisons), not by pattern."""
from engine import *

BASE = {'std::bad_alloc': 'std::exception', 'std::bad_array_new_length': 'std::bad_alloc', 'std::logic_error': 'std::exception', 'std::length_error': 'std::logic_error',
        'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::domain_error': 'std::logic_error',
        'std::runtime_error': 'std::exception', 'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error', 'std::range_error': 'std::runtime_error',
        'std::system_error': 'std::runtime_error', 'boost::system::system_error': 'std::runtime_error', 'std::bad_cast': 'std::exception', 'std::bad_function_call': 'std::exception',
        'std::bad_weak_ptr': 'std::exception', 'std::bad_exception': 'std::exception'}
THROWERS = {'std::__throw_bad_alloc': 'std::bad_alloc', 'std::__throw_length_error': 'std::length_error', 'std::__throw_out_of_range': 'std::out_of_range',
            'std::__throw_out_of_range_fmt': 'std::out_of_range', 'std::__throw_logic_error': 'std::logic_error', 'std::__throw_invalid_argument': 'std::invalid_argument',
            'std::__throw_bad_function_call': 'std::bad_function_call', 'std::__throw_bad_weak_ptr': 'std::bad_weak_ptr', 'std::__throw_bad_array_new_length': 'std::bad_array_new_length',
            'std::__throw_system_error': 'std::system_error', 'std::__throw_bad_cast': 'std::bad_cast'}
NOTHROW_EXT = ('__cxa_', '_Unwind', 'llvm.')
TERM = ('__clang_call_terminate', 'std::terminate')
ABORT = ('abort', 'exit', '_exit', 'quick_exit', 'raise', 'kill', '__assert_fail')


class Escape:
    def __init__(self, prog, external, skip=lambda f: False):
        self.P = prog
        self.ext = external
        self.skip = skip
        self.bym = {}
        for f in prog.fns:
            self.bym[f.j['m']] = f
        self.base = dict(BASE)
        self.esc = {}
        self.term = {}
        self.sites = 0
        self.unknown = {}
        self.callers = {}
        self.live = {}

    def solve(self, roots):
        """roots: functions; contexts are (function, known constant arguments)"""
        self.work = []
        self.inq = set()
        for f in roots:
            self.need((f.j['m'], ()), None)
        n = 0
        while self.work:
            k = self.work.pop()
            self.inq.discard(k)
            n += 1
            if n > 60000:
                raise AnalysisError('exception analysis does not converge')
            new = self.analyse(self.bym[k[0]], k)
            if set(new) - set(self.esc[k]):
                self.esc[k] = {**new, **self.esc[k]}
                for c in self.callers.get(k, ()):
                    self.push(c)
        return self

    def push(self, k):
        if k not in self.inq:
            self.inq.add(k)
            self.work.append(k)

    def need(self, k, caller):
        if caller is not None:
            self.callers.setdefault(k, set()).add(caller)
        if k not in self.esc:
            self.esc[k] = {}
            self.push(k)
        return self.esc[k]

    def reachable(self, f, key):
        """blocks reachable under the constant arguments of the context, and the constants known"""
        if key in self.live:
            return self.live[key]
        env = {}
        args = dict(key[1])

        def val(o):
            if o['k'] == 'arg':
                return args.get(o['id'])
            if o['k'] == 'int':
                return int(o['v'])
            if o['k'] == 'v':
                v = env.get(o['id'])
                return None if v is varies else v
            return None

        def cell(o):
            if o['k'] == 'v':
                return env.get(o['id'])
            v = val(o)
            return varies if v is None else v
        entry = f.j['blocks'][0]['id']
        # optimistic conditional constant propagation: phis only look at the edges found possible so far
        varies = object()
        edges = {(None, entry)}
        grown = True
        rounds = 0
        while grown:
            grown = False
            rounds += 1
            if rounds > 10000:
                raise AnalysisError('constant propagation does not converge')
            seen = {t for _, t in edges}
            for bk in f.j['blocks']:
                b = bk['id']
                if b not in seen:
                    continue
                for i in f.blocks[b]['i']:
                    if i.get('id') is None:
                        continue
                    old = env.get(i['id'])
                    if old is varies:
                        continue
                    new = self.fold(i, lambda o: cell(o), b, edges, varies)
                    if old is not None and new is None:
                        new = old
                    if old is not None and new is not varies and new != old:
                        new = varies
                    if new is not old and new != old:
                        env[i['id']] = new
                        grown = True
                t = f.blocks[b]['i'][-1]
                if t['op'] == 'br' and 'c' in t and len(t['s']) == 2:
                    c = cell(t['c'])
                    ss = [] if c is None else [t['s'][0]] if c == 1 else [t['s'][1]] if c == 0 else t['s']
                elif t['op'] == 'br':
                    ss = t['s']
                elif t['op'] == 'invoke':
                    ss = [t['n'], t['u']]
                elif t['op'] == 'switch':
                    ss = self.succ(t)
                else:
                    ss = []
                for x in ss:
                    if (b, x) not in edges:
                        edges.add((b, x))
                        grown = True
        seen = {t for _, t in edges}
        self.live[key] = (seen, val)
        return self.live[key]

    @staticmethod
    def fold(i, cell, b, edges, varies):
        """value of one instruction: None (not known yet), a constant, or varies"""
        op = i['op']
        if op == 'phi':
            r = None
            for pb, v in i['in']:
                if (pb, b) not in edges:
                    continue
                c = cell(v)
                if c is None:
                    continue
                if c is varies or (r is not None and c != r):
                    return varies
                r = c
            return r
        if op in ('zext', 'trunc', 'freeze') and i.get('a'):
            v = cell(i['a'][0])
            if v is None or v is varies:
                return v
            return v & ((1 << i['bits']) - 1) if isinstance(i.get('bits'), int) else v
        if op == 'select':
            c, x, y = [cell(a) for a in i['a']]
            if c is None:
                return None
            if c is varies:
                if x is None or y is None:
                    return None
                return x if x is not varies and x == y else varies
            return x if c == 1 else y
        if op == 'icmp' and i['p'] in ('eq', 'ne') or op in ('and', 'or', 'xor') and i.get('a'):
            x, y = cell(i['a'][0]), cell(i['a'][1])
            if op == 'and' and (x == 0 and x is not None or y == 0 and y is not None):
                return 0
            if op == 'or' and i.get('bits') == 1 and (x == 1 or y == 1):
                return 1
            if x is None or y is None:
                return None
            if x is varies or y is varies:
                return varies
            if op == 'icmp':
                return int((x == y) == (i['p'] == 'eq'))
            return x & y if op == 'and' else x | y if op == 'or' else x ^ y
        return varies

    @staticmethod
    def succ(t):
        return [t['d']] + [c[1] for c in t['cs']]

    def derives(self, t, b):
        while t is not None:
            if t == b:
                return True
            t = self.base.get(t)
        return False

    def thrown(self, f, i, key, val):
        """type -> witness for one call site"""
        nm = i.get('fn', '')
        where = Loc(i.get('loc')).repo()
        here = '%s calls %s at %s' % (f.name, nm or 'a function pointer', where)
        if nm in TERM or nm.startswith('llvm.'):
            return {}
        if i.get('nt') and not i.get('def'):
            return {}
        if nm == '__cxa_throw':
            a = i['a'][1]
            t = a.get('n', '?')
            t = t[len('typeinfo for '):] if t.startswith('typeinfo for ') else t
            return {t: ('%s throws %s at %s' % (f.name, t, where),)}
        if nm == '__cxa_rethrow':
            return {}
        if i.get('def') and i.get('m') in self.bym and not self.skip(self.bym[i['m']]):
            g = self.bym[i['m']]
            cargs = tuple((n, val(a)) for n, a in enumerate(i['a']) if val(a) is not None and (a['k'] != 'int' or a.get('bits') in (1, 8))) if len(i['a']) == len(g.args) else ()
            r = self.need((i['m'], cargs), key)
            return {} if i.get('nt') else {t: ((here,) + w)[:12] for t, w in r.items()}
        if nm in THROWERS:
            return {THROWERS[nm]: (here,)}
        if nm.startswith(NOTHROW_EXT):
            return {}
        r = self.ext(f, i)
        if r is None:
            self.unknown[(f.name, nm)] = where
            r = {'?'}
        return {t: (here,) for t in r}

    def dispatch(self, f, lpb, t):
        """outcomes for an exception of type t entering landing pad block lpb: 'escape', 'terminate', ('caught', block)"""
        lp = [i for i in f.blocks[lpb]['i'] if i['op'] == 'landingpad'][0]
        sel = None
        for c in lp['cl']:
            if c['k'] == 'null' or c['k'] == 'int':
                sel = 'any'
                break
            n = c.get('n', '?')
            n = n[len('typeinfo for '):] if n.startswith('typeinfo for ') else n
            if self.derives(t, n) or t == '?' and False:
                sel = n
                break
        if sel is None and not lp['cleanup']:
            return {'escape'}
        out = set()
        seen = set()
        work = [(lpb, None, ())]
        while work:
            b, prev, envt = work.pop()
            if (b, prev, envt) in seen or len(seen) > 400:
                continue
            seen.add((b, prev, envt))
            env = dict(envt)

            def val(o):
                return env.get(o['id']) if o['k'] == 'v' else None
            nxt = None
            for i in f.blocks[b]['i']:
                op = i['op']
                if op == 'phi':
                    for pb, v in i['in']:
                        if pb == prev:
                            x = val(v)
                            if x is not None:
                                env[i['id']] = x
                            break
                elif op == 'landingpad':
                    env[i['id']] = 'LP' if b == lpb else 'other'
                elif op == 'extractvalue':
                    if val(i['a'][0]) == 'LP':
                        env[i['id']] = 'SEL' if i['ix'] == [1] else 'EXN'
                elif op == 'insertvalue':
                    x = [val(a) for a in i['a']]
                    if 'EXN' in x or 'SEL' in x or 'LP' in x:
                        env[i['id']] = 'LP'
                elif op == 'call' and i.get('fn', '').startswith('llvm.eh.typeid.for'):
                    n = i['a'][0].get('n', '?')
                    env[i['id']] = 'T:' + (n[len('typeinfo for '):] if n.startswith('typeinfo for ') else n)
                elif op == 'icmp' and i['p'] in ('eq', 'ne'):
                    x, y = val(i['a'][0]), val(i['a'][1])
                    if y == 'SEL':
                        x, y = y, x
                    if x == 'SEL' and y is not None and y.startswith('T:'):
                        r = y[2:] == sel
                        env[i['id']] = 'B1' if r == (i['p'] == 'eq') else 'B0'
                elif op in ('call', 'invoke'):
                    nm = i.get('fn', '')
                    if nm in TERM:
                        out.add('terminate')
                        nxt = []
                        break
                    if nm == '__cxa_begin_catch':
                        # a terminate helper may have been expanded in place
                        rest = f.blocks[b]['i'][f.blocks[b]['i'].index(i) + 1:]
                        nc = [j for j in rest if j['op'] in ('call', 'invoke')]
                        if nc and nc[0].get('fn') in TERM:
                            out.add('terminate')
                        else:
                            out.add(('caught', b))
                        nxt = []
                        break
                    if op == 'invoke':
                        nxt = [i['n']]
                        break
                    if i.get('nr'):
                        nxt = []
                        break
                elif op == 'resume':
                    out.add('escape')
                    nxt = []
                    break
                elif op == 'br':
                    if 'c' in i and len(i['s']) == 2:
                        c = val(i['c'])
                        nxt = [i['s'][0]] if c == 'B1' else [i['s'][1]] if c == 'B0' else list(i['s'])
                    else:
                        nxt = list(i['s'])
                    break
                elif op == 'switch':
                    nxt = self.succ(i)
                    break
                elif op in ('ret', 'unreachable'):
                    nxt = []
                    break
            for n in nxt or []:
                work.append((n, b, tuple(sorted(env.items()))))
        return out

    def rethrows(self, f, b):
        """rethrow instructions reachable from a catch block before the catch ends"""
        out = []
        seen = set()
        work = [(b, True)]
        while work:
            x, first = work.pop()
            if x in seen:
                continue
            seen.add(x)
            started = not first
            stop = False
            for i in f.blocks[x]['i']:
                if i['op'] in ('call', 'invoke'):
                    nm = i.get('fn')
                    if nm == '__cxa_begin_catch':
                        started = True
                    elif nm == '__cxa_rethrow' and started:
                        out.append(i)
                        stop = True
                        break
                    elif nm == '__cxa_end_catch' and started:
                        stop = True
                        break
            if stop:
                continue
            t = f.blocks[x]['i'][-1]
            for s in (self.succ(t) if t['op'] == 'switch' else t.get('s') or ([t['n']] if 'n' in t else [])):
                work.append((s, False))
        return out

    def analyse(self, f, key):
        out = {}
        todo = []
        live, val = self.reachable(f, key)
        for b in f.blocks.values():
            if b['id'] not in live:
                continue
            for i in b['i']:
                if i['op'] in ('call', 'invoke'):
                    for t, w in self.thrown(f, i, key, val).items():
                        todo.append((i, t, w))
        seen = set()
        while todo:
            i, t, w = todo.pop()
            if (i['id'], t) in seen:
                continue
            seen.add((i['id'], t))
            self.sites += 1
            if i['op'] == 'call':
                out.setdefault(t, w)
                continue
            for r in self.dispatch(f, i['u'], t):
                if r == 'escape':
                    out.setdefault(t, w)
                elif r == 'terminate':
                    self.term.setdefault((f.name, t, i.get('fn', '')), (Loc(i.get('loc')).repo(), w, f))
                else:
                    for j in self.rethrows(f, r[1]):
                        todo.append((j, t, w))
        return out

    def of(self, name):
        r = {}
        for (m, c), v in self.esc.items():
            if self.bym[m].name == name:
                r.update(v)
        return r

    def analysed(self):
        return {k[0] for k in self.esc}
