"""T03: the simple driver hands everything over to the optimizer it was asked for."""
from .core import *

METHODS = {'NLCG': 'nlcg', 'VMLMB': 'vmlmb'}
GETTERS = {'opk_get_task': ('task', 'i'), 'opk_get_status': ('status', 'i'), 'opk_get_evaluations': ('evaluations', 'i'),
           'opk_get_iterations': ('iterations', 'i'), 'opk_get_restarts': ('restarts', 'i'),
           'opk_get_step': ('step', 'f'), 'opk_get_gnorm': ('gnorm', 'f')}


class Driver:
    def __init__(self, c, P, alg, ty, lower, upper):
        self.c, self.P, self.alg, self.ty = c, P, alg, ty
        self.m = METHODS[alg]
        self.lower, self.upper = lower, upper
        self.tag = '%s %s lower=%s upper=%s' % (alg, ty, lower, upper)
        self.En = P.enums
        self.e = e = c.engine(P)
        e.mutable_globals_initial = True
        e.malloc_fails = False
        e.merge = None
        for m in METHODS.values():
            e.models['opk_new_%s_optimizer' % m] = self.inner_new(m)
            e.models['opk_start_' + m] = self.inner_task(m, 'start')
            e.models['opk_iterate_' + m] = self.inner_task(m, 'iterate')
            e.models['opk__set_%s_status' % m] = self.inner_status(m)
            for g, t in GETTERS.values():
                e.models['opk_get_%s_%s' % (m, g)] = self.inner_get(m, g, t)
            e.models['opk_get_%s_description' % m] = self.inner_text(m, 'description')
        e.models['opk_get_nlcg_name'] = self.inner_text('nlcg', 'name')
        e.models['opk_get_vmlmb_method_name'] = self.method
        e.models['opk_copy_string'] = self.copied
        e.models['opk_new_boxset'] = self.boxset
        e.on_store.append(self.store)

    def ob(self, rule, ok, msg):
        return self.c.ob(rule, ok, msg.split(':')[0], '%s, %s' % (msg, self.tag))

    # ------------------------------------------------------------------ inner functions
    def rec(self, st, *a):
        st.gh['calls'] = mk('calls', *(st.gh['calls'].a if 'calls' in st.gh else ()), mk('call', *a))

    def data(self, st, v):
        """the array behind a vector"""
        r = self.e.run(self.c.func(self.P, 'opk_get_simple_%s_vector_data' % self.ty.lower()), [v], st.copy())
        return r[0][1] if len(r) == 1 else mk('none')

    def inner_new(self, m):
        def f(eng, st, a, ins):
            r = mk('ptr', eng.alloc(st, 'inner', 0, 'heap', A.INIT), ZERO)
            self.rec(st, 'new', m, *a)
            return [(st, r)]
        return f

    def inner_task(self, m, what):
        def f(eng, st, a, ins):
            r = isym(what + ' ' + m)
            if what == 'start':
                self.rec(st, what, m, a[0], self.data(st, a[1]))
            else:
                self.rec(st, what, m, a[0], self.data(st, a[1]), a[2], self.data(st, a[3]))
            return [(st, r)]
        return f

    def inner_status(self, m):
        def f(eng, st, a, ins):
            self.rec(st, 'set_status', m, a[0], a[1])
            return [(st, None)]
        return f

    def inner_get(self, m, g, t):
        return lambda eng, st, a, ins: [(st, mk('at', 'result of %s %s for %s' % (m, g, show(a[0])), t) if t == 'f' else
                                         isym('result of %s %s for %s' % (m, g, show(a[0]))))]

    def inner_text(self, m, what):
        def f(eng, st, a, ins):
            self.rec(st, what, m, *a)
            return [(st, isym('length'))]
        return f

    def method(self, eng, st, a, ins):
        r = ext(st, eng, 'name of %s' % show(a[0]))
        return [(st, r)]

    def copied(self, eng, st, a, ins):
        self.rec(st, 'copy', *a)
        return [(st, isym('length'))]

    def boxset(self, eng, st, a, ins):
        r = mk('ptr', eng.alloc(st, 'box', 0, 'heap', A.INIT), ZERO)
        d = [self.data(st, x) if t is I(self.En['OPK_BOUND_VECTOR']) and 'caller' not in show(x) else mk('none')
             for t, x in ((a[1], a[2]), (a[3], a[4]))]
        self.rec(st, 'box', a[0], a[1], a[2], d[0], a[3], a[4], d[1])
        return [(st, r)]

    def store(self, eng, st, p, v, size, ins):
        if p.k == 'ptr' and p.a[0] in self.foreign:
            self.ob('delegation', False, 'caller: the memory of the caller is changed [at %s]' % ins.loc())

    def calls(self, st):
        return st.gh['calls'].a if 'calls' in st.gh else ()

    def run(self, fname, args, st):
        r = self.e.run(self.c.func(self.P, fname), args, st.copy())
        self.ob('delegation', bool(r), '%s: never returns' % fname)
        return r

    # ------------------------------------------------------------------ script
    def go(self):
        e, En = self.e, self.En
        st = State()
        self.foreign = set()

        def mine(name):
            p = ext(st, e, 'caller ' + name)
            self.foreign.add(p.a[0])
            return p
        n = isym('n')
        A.assume_ic(st, n, 4)
        opts, ls = mine('options'), mine('line search')
        lo = mine('lower') if self.lower != 'NONE' else NULL
        up = mine('upper') if self.upper != 'NONE' else NULL
        rets = self.run('opk_new_optimizer', [I(En['OPK_ALGORITHM_' + self.alg]), opts, I(En['OPK_' + self.ty]), n,
                                              I(En['OPK_BOUND_' + self.lower]), lo, I(En['OPK_BOUND_' + self.upper]), up,
                                              ls], st)
        for st, opt in rets:
            if not self.ob('creation', opt.k == 'ptr', 'opk_new_optimizer: no optimizer is created'):
                continue
            news = [x.a for x in self.calls(st) if x.a[0] == 'new']
            boxes = [x.a for x in self.calls(st) if x.a[0] == 'box']
            if not self.ob('creation', len(news) == 1 and news[0][1] == self.m,
                           'opk_new_optimizer: creates %s' % [x[1] for x in news]):
                continue
            new = news[0]
            self.ob('creation', new[2] is opts, 'opk_new_optimizer: the options are not handed over')
            self.ob('creation', new[4] is ls, 'opk_new_optimizer: the line search is not handed over')
            self.space(st, new[3], n)
            bounded = self.lower != 'NONE' or self.upper != 'NONE'
            if self.m == 'vmlmb':
                self.ob('creation', (new[5] is NULL) == (not bounded), 'opk_new_optimizer: %s' % (
                    'the bounds are ignored' if bounded else 'bounds appear'))
            if bounded and new[5] is not NULL:
                self.ob('creation', len(boxes) == 1 and new[5].k == 'ptr' and new[5].a[0].a[0] == 'box',
                        'opk_new_optimizer: the optimizer does not receive the box')
                for b in boxes:
                    self.ob('creation', b[1] is new[3], 'opk_new_optimizer: the box is not in the space of the variables')
                    self.bound('lower', self.lower, lo, *b[2:5])
                    self.bound('upper', self.upper, up, *b[5:8])
            inner = None
            for r in st.mem:
                if r.k == 'reg' and r.a[0] == 'inner':
                    inner = mk('ptr', r, ZERO)
            if inner is None:
                raise Broken('inner optimizer')
            st.gh.pop('calls', None)
            self.session(st, opt, inner, mine)

    def space(self, st, S, n):
        for s, v in self.run('opk_new_simple_%s_vector_space' % self.ty.lower(), [n], st):
            off = {m: self.P.offset('opk_vspace_', m) for m in ('ops', 'size')}
            self.ob('creation', all(get(self.e, s, S, o, t) is get(self.e, s, v, o, t) for o, t in
                                    ((off['ops'], 'p'), (off['size'], 'i'))),
                    'opk_new_optimizer: the variables are not in the simple vector space of the asked type and size')

    def bound(self, what, kind, addr, t, a, d):
        B = lambda k: I(self.En['OPK_BOUND_' + k])
        ok = t is B(kind) and a is addr
        if kind == 'STATIC_' + self.ty:
            ok = ok or (t is B('VECTOR') and d is addr)
        self.ob('creation', ok, 'opk_new_optimizer: the %s bound is not the given one' % what)

    def session(self, st0, opt, inner, mine):
        x, g, x2, g2 = [mine(k) for k in ('x', 'g', 'x2', 'g2')]
        f = fsym('f')
        m, e = self.m, self.e
        ERR, ILL = I(self.En['OPK_TASK_ERROR']), I(self.En['OPK_ILLEGAL_ADDRESS'])

        def step(st, fname, args, want, task):
            out = []
            for s, v in self.run(fname, [opt] + args, st):
                got = tuple(k.a for k in self.calls(s))
                self.ob('delegation', got == (want,), '%s: %s instead of %s' % (
                    fname, ', '.join(' '.join(show(y) if isinstance(y, T) else str(y) for y in k) for k in got) or 'nothing',
                    ' '.join(show(y) if isinstance(y, T) else str(y) for y in want)))
                self.ob('delegation', v is task, '%s: returns %s' % (fname, show(v)))
                s.gh.pop('calls', None)
                out.append(s)
            return out
        work = step(st0, 'opk_start', [x], ('start', m, inner, x), isym('start ' + m))
        hist = list(work)
        for _ in range(2):
            nxt = []
            for st in work:
                for a, b in ((x, g), (x2, g), (x, g2), (g, x2)):
                    nxt += step(st, 'opk_iterate', [a, f, b], ('iterate', m, inner, a, f, b), isym('iterate ' + m))[:1]
            work = nxt
        hist += work[:2]
        for st in hist[:3]:
            step(st, 'opk_start', [x2], ('start', m, inner, x2), isym('start ' + m))
            bad = ('set_status', m, inner, ILL)
            for fname, args in (('opk_start', [NULL]), ('opk_iterate', [NULL, f, g]), ('opk_iterate', [x, f, NULL]),
                                ('opk_iterate', [NULL, f, NULL])):
                for s in step(st, fname, args, bad, ERR):
                    step(s, 'opk_iterate', [x2, f, g2], ('iterate', m, inner, x2, f, g2), isym('iterate ' + m))
            for fname, (gname, t) in GETTERS.items():
                want = 'result of %s %s for %s' % (m, gname, show(inner))
                for s, v in self.run(fname, [opt], st):
                    self.ob('delegation', v is (mk('at', want, 'f') if t == 'f' else isym(want)) and not self.calls(s),
                            '%s: returns %s' % (fname, show(v)))
            buf, size = ext(st, e, 'buffer'), isym('buffer size')
            texts = {'opk_get_description': ('description', m, buf, size, inner),
                     'opk_get_name': ('name', m, buf, size, inner) if m == 'nlcg' else None}
            for fname, want in texts.items():
                for s, v in self.run(fname, [buf, size, opt], st):
                    got = [k.a for k in self.calls(s)]
                    if want is None:
                        ok = len(got) == 1 and got[0][:3] == ('copy', buf, size) and got[0][3].k == 'ptr' and \
                            got[0][3].a[0].a[0] == 'name of %s' % show(inner)
                    else:
                        ok = got == [want]
                    self.ob('delegation', ok and v is isym('length'), '%s: the text is not that of the optimizer' % fname)


@check('T03', 'abstract interpretation of the driver over recorded calls of the inner optimizers, exhaustive over '
              'algorithms, element types and kinds of bounds')
def t03(c):
    P = c.lib()
    kinds = [k[len('OPK_BOUND_'):] for k in P.enums if k.startswith('OPK_BOUND_')]
    todo = [('NLCG', ty, 'NONE', 'NONE') for ty in ('FLOAT', 'DOUBLE')]
    for ty in ('FLOAT', 'DOUBLE'):
        for lo in kinds:
            for up in kinds:
                todo.append(('VMLMB', ty, lo, up))

    def job(part):
        def f(c):
            for k in part:
                d = Driver(c, P, *k)
                d.go()
                c.done(d.e)
        return f
    parallel(c, [job(todo[i::8]) for i in range(8)])
    c.require('creation', 500)
    c.require('delegation', 5000)
