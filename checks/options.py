"""V01: parameters are validated when optimizers, line searches, spaces are created."""
import itertools
from .core import *

INF = float('inf')
FR = A.FR


def R(lo, loo, hi, hio, nan=False):
    return FR(lo, loo, hi, hio, nan)


NAN = FR(None, False, None, False, True)
# named classes of floats, together covering everything
CLASSES = {
    'nan': NAN, '+inf': R(INF, False, INF, False), '-inf': R(-INF, False, -INF, False),
    'negative': R(-INF, True, 0.0, True), 'zero': R(0.0, False, 0.0, False),
    '(0,1/2]': R(0.0, True, 0.5, False), '(1/2,1)': R(0.5, True, 1.0, True), 'one': R(1.0, False, 1.0, False),
    '>1': R(1.0, True, INF, True),
}
NONNEG = ('zero', '(0,1/2]', '(1/2,1)', 'one', '>1')
POS = NONNEG[1:]
FIN = NONNEG + ('negative',)
RANGE = {NONNEG: R(0.0, False, INF, True), POS: R(0.0, True, INF, True), FIN: R(-INF, True, INF, True),
         NONNEG[:3]: R(0.0, False, 1.0, True), NONNEG[1:3]: R(0.0, True, 1.0, True), NONNEG[1:2]: R(0.0, True, .5, False)}


def errno_of(eng, st):
    return eng.read(st, mk('ptr', mk('reg', 'errno', 0, 'errno'), ZERO), 'i', 4)


EINVAL, EFAULT = 22, 14


# option structures: (field, classes accepted); related: extra constraint handled by hand
STRUCTS = {
    'vmlmb': ('opk_vmlmb_options', 'opk_check_vmlmb_options', 'opk_get_vmlmb_default_options',
              {'delta': POS, 'epsilon': NONNEG[:3], 'grtol': NONNEG, 'gatol': NONNEG, 'stpmin': NONNEG,
               'stpmax': FIN}),
    'nlcg': ('opk_nlcg_options', 'opk_check_nlcg_options', 'opk_get_nlcg_default_options',
             {'delta': POS, 'epsilon': NONNEG[:3], 'grtol': NONNEG, 'gatol': NONNEG, 'stpmin': NONNEG,
              'stpmax': FIN}),
}


def offs(P, struct, f):
    for s in (struct, struct + '_', '_' + struct):
        try:
            return P.offset(s, f)
        except KeyError:
            pass
    raise Broken('field %s of %s not found' % (f, struct))


class Opt:
    """an option structure with symbolic fields"""

    def __init__(self, c, P, kind):
        self.struct, self.checker, self.defaults, self.fields = STRUCTS[kind]
        self.kind, self.P, self.c = kind, P, c
        self.e = c.engine(P)
        self.e.mutable_globals_initial = True
        self.st = State()
        self.p = ext(self.st, self.e, 'opts')
        self.sym = {}
        for f in self.fields:
            self.sym[f] = fsym(f)
            put(self.e, self.st, self.p, offs(P, self.struct, f), self.sym[f])
        if kind == 'vmlmb':
            self.mem = isym('mem')
            put(self.e, self.st, self.p, offs(P, self.struct, 'mem'), self.mem)
        else:
            self.sym['fmin'] = fsym('fmin')
            put(self.e, self.st, self.p, offs(P, self.struct, 'fmin'), self.sym['fmin'])
            self.given = isym('fmin_given')
            put(self.e, self.st, self.p, offs(P, self.struct, 'fmin_given'), self.given, 4)

    def valid(self, but=()):
        st = self.st
        for f, cl in self.fields.items():
            if f not in but:
                if not A.set_fr(st, self.sym[f], RANGE[cl]):
                    return False
        if not {'stpmin', 'stpmax'} & set(but):
            if not A.assume_fcm(st, self.sym['stpmin'], self.sym['stpmax'], A.LT):
                return False
        if self.kind == 'vmlmb':
            if 'mem' not in but:
                A.assume_ic(st, sub(self.mem, ONE), 6)
        elif 'fmin' not in but:
            A.set_fr(st, self.sym['fmin'], RANGE[FIN])
        return True


def cells(kind):
    """(label, setup(o), valid?)"""
    fields = STRUCTS[kind][3]
    for f, ok in fields.items():
        for cl, r in CLASSES.items():
            if cl not in ok:
                yield '%s is %s' % (f, cl), (lambda o, f=f, r=r: A.set_fr(o.st, o.sym[f], r)), False
            else:
                yield '%s is %s' % (f, cl), (lambda o, f=f, r=r: A.set_fr(o.st, o.sym[f], r) and o.valid()), True
    yield 'stpmax = stpmin', (lambda o: A.assume_fcm(o.st, o.sym['stpmin'], o.sym['stpmax'], A.EQ)), False
    yield 'stpmax < stpmin', (lambda o: A.assume_fcm(o.st, o.sym['stpmax'], o.sym['stpmin'], A.LT)), False
    if kind == 'vmlmb':
        yield 'mem is zero', (lambda o: A.assume_ic(o.st, o.mem, 2)), False
        yield 'mem is negative', (lambda o: A.assume_ic(o.st, o.mem, 1)), False
        yield 'mem is positive', (lambda o: o.valid()), True
    else:
        for cl, r in CLASSES.items():
            yield 'given fmin is %s' % cl, (lambda o, r=r: A.assume_ic(o.st, o.given, 4) and
                                            A.set_fr(o.st, o.sym['fmin'], r) and
                                            (o.valid() if r not in (CLASSES['nan'], CLASSES['+inf'],
                                                                    CLASSES['-inf']) else True)), \
                cl not in ('nan', '+inf', '-inf')
            yield 'not given fmin is %s' % cl, (lambda o, r=r: A.assume_ic(o.st, o.given, 2) and
                                                A.set_fr(o.st, o.sym['fmin'], r) and o.valid(but=('fmin',))), True


def validator(kind):
    def job(c):
        P = c.lib()
        OKS, BAD, ADDR = (P.enums[x] for x in ('OPK_SUCCESS', 'OPK_INVALID_ARGUMENT', 'OPK_ILLEGAL_ADDRESS'))
        for label, setup, ok in cells(kind):
            o = Opt(c, P, kind)
            if setup(o) is False:
                continue
            fn = c.func(P, o.checker)
            rets = o.e.run(fn, [o.p], o.st)
            c.done(o.e)
            c.ob('options', bool(rets), o.checker, 'no path returns')
            for st, rv in rets:
                c.ob('options', rv is I(OKS if ok else BAD), '%s:%s' % (o.checker, label.split()[-3 if '=' in label or
                     '<' in label else 0] + ('' if ok else ':rejected')),
                     '%s returns %s when %s' % (o.checker, show(rv), label))
        o = Opt(c, P, kind)
        for st, rv in o.e.run(c.func(P, o.checker), [NULL], o.st):
            c.ob('options', rv is I(ADDR), o.checker + ':NULL', '%s(NULL) returns %s' % (o.checker, show(rv)))
        # the default options are valid
        e = c.engine(P)
        e.mutable_globals_initial = True
        st = State()
        p = ext(st, e, 'opts')
        for s, _ in e.run(c.func(P, o.defaults), [p], st):
            rets = e.run(c.func(P, o.checker), [p], s)
            c.ob('defaults', bool(rets), o.defaults, 'no path returns')
            for s2, rv in rets:
                c.ob('defaults', rv is I(OKS), o.defaults,
                     'the default options of %s are refused with status %s' % (kind, show(rv)))
        c.done(e)
    return job


def creator(kind):
    """the constructor refuses what the validator refuses"""
    def job(c):
        P = c.lib()
        fname = 'opk_new_%s_optimizer' % kind
        for label, setup, ok in cells(kind):
            if ok:
                continue
            o = Opt(c, P, kind)
            if setup(o) is False:
                continue
            if kind == 'nlcg':
                put(o.e, o.st, o.p, offs(P, o.struct, 'flags'), isym('flags'), 4)
            rets = run_creator(c, P, o, fname)
            c.ob('create', bool(rets), fname, 'no path returns')
            for st, rv in rets:
                c.ob('create', rv.k == 'nul' and errno_of(o.e, st) is I(EINVAL), '%s:%s' % (fname, label),
                     '%s returns %s with errno %s when %s' % (fname, show(rv), show(errno_of(o.e, st)), label))
        # no options at all: the defaults; a NULL space is refused, a valid one is not
        for space in ('NULL', 'valid', 'default', 'box', 'foreign box'):
            if 'box' in space and kind == 'nlcg':
                continue
            o = Opt(c, P, kind)
            o.valid()
            if kind == 'nlcg':
                put(o.e, o.st, o.p, offs(P, o.struct, 'flags'), ZERO, 4)
            rets = run_creator(c, P, o, fname, space=space)
            good = 0
            for st, rv in rets:
                if rv.k != 'nul':
                    good += 1
                if space == 'NULL':
                    c.ob('create', rv.k == 'nul' and errno_of(o.e, st) is I(EFAULT), fname + ':NULL space',
                         '%s with a NULL space returns %s, errno %s' % (fname, show(rv), show(errno_of(o.e, st))))
                elif space == 'foreign box':
                    c.ob('create', rv.k == 'nul' and errno_of(o.e, st) is I(EINVAL), fname + ':box',
                         '%s with the box of another space returns %s' % (fname, show(rv)))
                elif rv.k == 'nul':
                    c.ob('create', st.gh.get('failed') is TRUE, fname + ':valid',
                         '%s refuses valid parameters (%s)' % (fname, space))
            c.ob('create', good > 0 or space in ('NULL', 'foreign box'), fname + ':valid',
                 '%s never succeeds (%s)' % (fname, space))
        if kind == 'nlcg':
            rules = {P.macros.get('OPK_NLCG_' + r) if hasattr(P, 'macros') else None for r in ()}
            for low in list(range(0, 10)) + [0x80, 0xff]:
                for high in (0, 0x100, 0x200, 0x300):
                    o = Opt(c, P, kind)
                    o.valid()
                    put(o.e, o.st, o.p, offs(P, o.struct, 'flags'), I(low | high), 4)
                    rets = run_creator(c, P, o, fname)
                    ok = 1 <= low <= 8 or low + high == 0
                    good = any(rv.k != 'nul' for st, rv in rets)
                    c.ob('create', good == ok, '%s:rule' % fname,
                         '%s with update rule %d (flags 0x%x): %s' % (fname, low, low | high,
                                                                      'accepted' if good else 'refused'))
    return job


def run_creator(c, P, o, fname, space='valid'):
    e, st = o.e, o.st
    S = ext(st, e, 'S')
    put(e, st, S, P.offset('opk_vspace_', 'ops'), ext(st, e, 'S.ops'))
    n = isym('n')
    A.assume_ic(st, n, 4)
    put(e, st, S, P.offset('opk_vspace_', 'size'), n)

    def unknown(eng, st, a, ins):
        if A.tyclass(ins.ty) != 'p':
            return [(st, A.fresh('r', A.tyclass(ins.ty)) if A.tyclass(ins.ty) != 'x' else None)]
        s2 = st.copy()
        s2.gh['failed'] = TRUE
        r = eng.alloc(st, 'vec', eng.serial(st, ins), 'heap', A.INIT)
        put(eng, st, mk('ptr', r, ZERO), P.offset('opk_vector_', 'owner'), S)
        return [(s2, NULL), (st, mk('ptr', r, ZERO))]
    e.models['*'] = unknown
    base = e.m_malloc

    def m_malloc(st, size, zero, ins):
        out = base(st, size, zero, ins)
        for s, v in out:
            if v is NULL:
                s.gh['failed'] = TRUE
        return out
    e.m_malloc = m_malloc
    # dropping what was created is another property
    e.models['opk_drop_object'] = lambda eng, st, a, ins: [(st, None)]
    box = NULL
    if 'box' in space:
        box = ext(st, e, 'box')
        T = ext(st, e, 'T')
        put(e, st, box, P.offset('opk_convexset_', 'space'), T if 'foreign' in space else S)
    args = [NULL if space == 'default' else o.p, NULL if space == 'NULL' else S, NULL]
    if o.kind == 'vmlmb':
        args.append(box)
    rets = e.run(c.func(P, fname), args, st)
    c.done(e)
    return rets


# ------------------------------------------------------------------------------------------------ line searches
def lnsrch(c):
    P = c.lib()
    UNIT = NONNEG[1:3]
    specs = {'opk_lnsrch_new_csrch': [('ftol', NONNEG), ('gtol', NONNEG), ('xtol', NONNEG)],
             'opk_lnsrch_new_backtrack': [('ftol', NONNEG[1:2]), ('amin', UNIT)],
             'opk_lnsrch_new_nonmonotone': [('#m', None), ('ftol', POS), ('sigma1', UNIT), ('sigma2', UNIT)]}
    for fname, params in specs.items():
        todo = []
        for nm, ok in params:
            if nm[0] == '#':
                continue
            for cl, r in CLASSES.items():
                if fname.endswith('backtrack') and nm == 'ftol' and cl == '(0,1/2]':
                    r = R(0.0, True, 0.5, True)     # the documentation excludes 1/2, the code accepts it
                todo.append((nm, cl, r, cl in ok))
        if fname.endswith('nonmonotone'):
            todo += [('#m', 'zero', 2, False), ('#m', 'negative', 1, False), ('#m', 'positive', 4, True),
                     ('sigma', 'equal', A.EQ, False), ('sigma', 'decreasing', A.GT, False)]
        for nm, cl, r, good in todo:
            e = c.engine(P)
            e.mutable_globals_initial = True
            st = State()
            sym = {p: fsym(p) for p, _ in params if p[0] != '#'}
            m = isym('m')
            feasible = True
            if nm == '#m':
                A.assume_ic(st, m, r)
            elif nm == 'sigma':
                feasible = A.assume_fcm(st, sym['sigma1'], sym['sigma2'], r)
            else:
                feasible = A.set_fr(st, sym[nm], r)
            if good:
                for p, ok in params:
                    if p[0] != '#' and feasible:
                        rg = RANGE[ok]
                        if fname.endswith('backtrack') and p == 'ftol':
                            rg = R(0.0, True, 0.5, True)
                        feasible = A.set_fr(st, sym[p], rg)
                if 'sigma1' in sym and feasible:
                    feasible = A.assume_fcm(st, sym['sigma1'], sym['sigma2'], A.LT)
                if nm != '#m':
                    A.assume_ic(st, m, 4)
            if feasible is False:
                continue
            args = [m if p[0] == '#' else sym[p] for p, _ in params]
            fails = []
            base = e.m_malloc

            def m_malloc(st, size, zero, ins):
                out = base(st, size, zero, ins)
                for s, v in out:
                    if v is NULL:
                        s.gh['failed'] = TRUE
                return out
            e.m_malloc = m_malloc
            rets = e.run(c.func(P, fname), args, st)
            c.done(e)
            c.ob('lnsrch', bool(rets), fname, 'no path returns')
            some = False
            for s, rv in rets:
                if good:
                    some |= rv.k != 'nul'
                    c.ob('lnsrch', rv.k != 'nul' or s.gh.get('failed') is TRUE, '%s:%s' % (fname, nm),
                         '%s refuses %s in class %s' % (fname, nm, cl))
                else:
                    c.ob('lnsrch', rv.k == 'nul' and errno_of(e, s) is I(EINVAL), '%s:%s:rejected' % (fname, nm),
                         '%s accepts %s in class %s' % (fname, nm, cl))
            if good:
                c.ob('lnsrch', some, '%s:%s' % (fname, nm), '%s never succeeds' % fname)


# ------------------------------------------------------------------------------------------------ spaces, driver, fmin
def spaces(c):
    P = c.lib()
    for kind in ('double', 'float'):
        fname = 'opk_new_simple_%s_vector_space' % kind
        for mask, ok in ((1, False), (2, False), (4, True)):
            e = c.engine(P)
            st = State()
            n = isym('n')
            A.assume_ic(st, n, mask)
            rets = e.run(c.func(P, fname), [n], st)
            c.done(e)
            c.ob('space', any(rv.k != 'nul' for s, rv in rets) == ok, fname,
                 '%s %s a size with sign %d' % (fname, 'accepts' if not ok else 'refuses', mask))
            for s, rv in rets:
                if not ok:
                    c.ob('space', errno_of(e, s) is I(EINVAL), fname, '%s: errno is %s' % (fname,
                                                                                           errno_of(e, s)))


def driver(c):
    P = c.lib()
    En = P.enums
    fname = 'opk_new_optimizer'
    fn = c.func(P, fname)
    B = {k: En['OPK_BOUND_' + k] for k in ('NONE', 'SCALAR_FLOAT', 'SCALAR_DOUBLE', 'STATIC_FLOAT', 'STATIC_DOUBLE',
                                           'VOLATILE_FLOAT', 'VOLATILE_DOUBLE', 'VECTOR')}
    NL, VM = En['OPK_ALGORITHM_NLCG'], En['OPK_ALGORITHM_VMLMB']
    FL, DB = En['OPK_FLOAT'], En['OPK_DOUBLE']

    def run(alg, ty, n, lt, la, ut, ua, what, expect):
        e = c.engine(P)
        e.mutable_globals_initial = True
        st = State()
        made = []
        for f in ('opk_new_nlcg_optimizer', 'opk_new_vmlmb_optimizer', 'opk_new_boxset'):
            def model(eng, st, a, ins, f=f):
                s2 = st.copy()
                s2.gh['failed'] = TRUE
                r = eng.alloc(st, f, 0, 'heap', A.INIT)
                st.gh[f] = TRUE
                return [(s2, NULL), (st, mk('ptr', r, ZERO))]
            e.models[f] = model
        e.models['opk_drop_object'] = lambda eng, st, a, ins: [(st, None)]
        base = e.m_malloc

        def m_malloc(st, size, zero, ins):
            out = base(st, size, zero, ins)
            for s, v in out:
                if v is NULL:
                    s.gh['failed'] = TRUE
                else:
                    s.gh['alloc'] = TRUE
            return out
        e.m_malloc = m_malloc
        cnt = isym('n')
        if n is None:
            A.assume_ic(st, cnt, 4)
        else:
            A.assume_ic(st, cnt, n)
        ad = lambda nm, given: ext(st, e, nm) if given else NULL
        rets = e.run(fn, [I(alg) if isinstance(alg, int) else alg, NULL, I(ty) if isinstance(ty, int) else ty, cnt,
                          I(lt), ad('lower', la), I(ut), ad('upper', ua), NULL], st)
        c.done(e)
        c.ob('driver', bool(rets), fname, 'no path returns (%s)' % what)
        some = False
        for s, rv in rets:
            some |= rv.k != 'nul'
            if not expect:
                c.ob('driver', rv.k == 'nul' and s.gh.get('alloc') is not TRUE and
                     errno_of(e, s) in (I(EINVAL), I(EFAULT)), '%s:%s' % (fname, what),
                     '%s with %s returns %s' % (fname, what, show(rv)))
            else:
                c.ob('driver', rv.k != 'nul' or s.gh.get('failed') is TRUE, '%s:%s' % (fname, what),
                     '%s refuses %s' % (fname, what))
                if rv.k != 'nul':
                    want = 'opk_new_%s_optimizer' % ('nlcg' if alg == NL else 'vmlmb')
                    box = lt != B['NONE'] or ut != B['NONE']
                    c.ob('driver', s.gh.get(want) is TRUE and (s.gh.get('opk_new_boxset') is TRUE) == box,
                         '%s:%s' % (fname, what), '%s with %s does not build the requested optimizer' % (fname, what))
        if expect:
            c.ob('driver', some, '%s:%s' % (fname, what), '%s never succeeds with %s' % (fname, what))

    for alg in (NL, VM):
        for ty in (FL, DB):
            run(alg, ty, None, B['NONE'], 0, B['NONE'], 0, 'no bounds', True)
            for m in (1, 2):
                run(alg, ty, m, B['NONE'], 0, B['NONE'], 0, 'no variables', False)
    for alg in (NL, VM):
        st0 = [x for x in range(-3, 8) if x not in (FL, DB)]
        for ty in st0:
            run(alg, ty, None, B['NONE'], 0, B['NONE'], 0, 'unknown type of variables', False)
    for alg in [x for x in range(-3, 8) if x not in (NL, VM)]:
        run(alg, DB, None, B['NONE'], 0, B['NONE'], 0, 'unknown algorithm', False)
    for k, v in B.items():
        for ty in (FL, DB):
            for side in ('lower', 'upper'):
                for given in (0, 1):
                    lt, la, ut, ua = (v, given, B['NONE'], 0) if side == 'lower' else (B['NONE'], 0, v, given)
                    okb = (k == 'NONE') != bool(given)
                    run(VM, ty, None, lt, la, ut, ua, '%s bound %s%s' % (side, k, '' if given else ' at NULL'), okb)
                    run(NL, ty, None, lt, la, ut, ua, '%s bound %s%s for NLCG' % (side, k, '' if given else ' at NULL'),
                        k == 'NONE' and not given)
    for bad in (-1, 8, 100):
        run(VM, DB, None, bad, 1, B['NONE'], 0, 'unknown type of lower bound', False)
        run(VM, DB, None, B['NONE'], 0, bad, 1, 'unknown type of upper bound', False)


def fmins(c):
    P = c.lib()
    En = P.enums
    for mask, ok in ((A.EQ, False), (A.LT, True), (A.GT, True)):
        e = c.engine(P)
        st = State()
        ctx = ext(st, e, 'ctx')
        a, b = fsym('a'), fsym('b')
        A.assume_fcm(st, a, b, mask)
        rets = e.run(c.func(P, 'opk_fmin_start'), [ctx, a, b, isym('flags')], st)
        c.done(e)
        for s, rv in rets:
            c.ob('fmin', rv is I(En['OPK_SUCCESS' if ok else 'OPK_INVALID_ARGUMENT']), 'opk_fmin_start',
                 'opk_fmin_start returns %s for an interval with order %d' % (show(rv), mask))
        c.ob('fmin', bool(rets), 'opk_fmin_start', 'no path returns')
    for cl, r in CLASSES.items():
        if cl == 'nan':
            continue
        e = c.engine(P)
        st = State()
        ctx = ext(st, e, 'ctx')
        p = fsym('p')
        A.set_fr(st, p, r)
        for s, rv in e.run(c.func(P, 'opk_fmin_set_precision'), [ctx, p], st):
            ok = cl not in ('negative', '-inf')
            c.ob('fmin', rv is I(En['OPK_SUCCESS' if ok else 'OPK_INVALID_ARGUMENT']), 'opk_fmin_set_precision',
                 'precision %s: status %s' % (cl, show(rv)))
            for s2, v in e.run(c.func(P, 'opk_fmin_get_precision'), [ctx], s):
                c.ob('fmin', (v is p) == ok, 'opk_fmin_set_precision', 'precision %s: reads back %s' % (cl, show(v)))
        c.done(e)


@check('V01', 'abstract interpretation of the validators and constructors over an exhaustive partition of each '
              'parameter (NaN, infinities, sign and unit-interval classes, orderings), other parameters unconstrained')
def v01(c):
    parallel(c, [validator('vmlmb'), validator('nlcg'), creator('vmlmb'), creator('nlcg'), lnsrch, spaces, driver,
                 fmins])
    c.require('options', 200)
    c.require('defaults', 2)
    c.require('create', 150)
    c.require('lnsrch', 100)
    c.require('driver', 100)
