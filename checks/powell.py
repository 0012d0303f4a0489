"""W*: Powell's derivative-free solvers (COBYLA, NEWUOA, BOBYQA)."""
from collections import defaultdict
from .core import *
from engine import zones as Z
from engine.absint import FR, INF

DIRECT = {'bobyqa': 'bobyqa_optimize', 'newuoa': 'newuoa_optimize', 'cobyla': 'cobyla_optimize'}
REVCOM = ('newuoa', 'cobyla')


def arg(c, fn, name):
    """position of a formal parameter, by name (the prototypes are public)"""
    for n, p in enumerate(fn.params):
        if p[1] == '%' + name:
            return n
    raise Broken('%s has no parameter %s' % (fn.name, name))


# public prototypes: positions of the arguments that matter
ARGS = {'bobyqa_optimize': dict(n=0, npt=1, maximize=2, objfun=3, data=4, x=5, xl=6, xu=7, scl=8, rhobeg=9, rhoend=10,
                                iprint=11, maxfun=12, work=13),
        'newuoa_optimize': dict(n=0, npt=1, maximize=2, objfun=3, data=4, x=5, scl=6, rhobeg=7, rhoend=8, iprint=9,
                                maxfun=10, work=11),
        'cobyla_optimize': dict(n=0, m=1, maximize=2, objfun=3, data=4, x=5, scl=6, rhobeg=7, rhoend=8, iprint=9,
                                maxfun=10, work=11, iact=12)}


def pname(fn, a):
    return fn.params[ARGS[fn.name][a]][1]


def evaluation(sh, i):
    return i.op == 'call' and i.x[0][0] == 'l'


def getter(c, P, name):
    """offset of the member of the context that a getter returns"""
    f = c.func(P, name)
    sh = Z.Shape(f)
    offs = set()
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == 'load' and sh.pointer(i.ops[0])[0] == f.params[0][1]:
                offs.add(sh.pointer(i.ops[0])[1])
    if len(offs) != 1 or None in offs:
        raise Broken('%s does not return a member of the context' % name)
    return offs.pop()


def limit_member(c, P, alg):
    """offset of the member of the context where *_create puts its MAXFUN"""
    f = c.func(P, alg + '_create')
    sh = Z.Shape(f)
    offs = set()
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == 'store' and i.ops[0] == ('l', f.params[5][1]):
                offs.add(sh.pointer(i.ops[1])[1])
    if len(offs) != 1 or None in offs:
        raise Broken('%s_create does not keep MAXFUN in one member of the context' % alg)
    return offs.pop()


def budget_direct(c, P, alg):
    f = c.func(P, DIRECT[alg])
    lim = pname(f, 'maxfun')
    cell = (pname(f, 'iact'), 0) if alg == 'cobyla' else None
    e = Z.Counters(f, lambda sh, op: op == ('l', lim), evaluation, [Z.ZState()], watch=[cell] if cell else [],
                   nonnull={p[1] for p in f.params if p[0][0] == 'p'})
    c.functions.add(f.name)
    c.steps += e.steps
    sites = {}
    for i, r, s in e.calls:
        o = sites.setdefault(i.loc(), [r[0], i])
        o[0] = min(o[0], r[0])
    for loc, (r, i) in sorted(sites.items()):
        c.callsites.add(loc)
        c.ob('budget', r >= 1, '%s' % f.name,
             '%s: the objective function can be called again after MAXFUN evaluations' % f.name, loc)
    if cell:
        for t, s, rv in e.returns:
            if s.b['E'][1] >= 1:
                q = s.c.get(cell, Z.ANY)[1]
                c.ob('count', q == (0, 0), f.name,
                     '%s: IACT[0] is not the number of evaluations at a return (off by %s)' % (f.name, q), t.loc())
    return e


def budget_revcom(c, P, alg):
    f = c.func(P, alg + '_iterate')
    En = P.enums
    it = En[alg.upper() + '_ITERATE']
    ctx = f.params[0][1]
    oc, os_, ol = getter(c, P, alg + '_get_nevals'), getter(c, P, alg + '_get_status'), limit_member(c, P, alg)
    count, status, lim = (ctx, oc), (ctx, os_), (ctx, ol)
    sh = Z.Shape(f)

    def limit(sh, op):
        d = sh.defs.get(op[1]) if op[0] == 'l' else None
        return d is not None and d.op == 'load' and sh.pointer(d.ops[0]) == lim
    # a new or restarted context (other members: anything), about to be given its first evaluation
    s = Z.ZState()
    s.c[count] = s.const(0)
    s.c[status] = s.const(it)
    entries = [s]
    seen = []
    for rnd in range(12):
        start = []
        for s in entries:
            n = s.copy()
            n.b['E'] = Z.plus(n.b['E'], (1, 1))           # the caller evaluates
            n.b['R'] = Z.plus(n.b['R'], (-1, -1))
            n.c = {k: (q[0], Z.plus(q[1], (-1, -1)), q[2], Z.plus(q[3], (1, 1))) for k, q in n.c.items()}
            start.append(n)
        e = Z.Counters(f, limit, lambda sh, i: False, start, watch=[count], status=[status],
                       nonnull={p[1] for p in f.params if p[0][0] == 'p'}, shape=sh)
        c.steps += e.steps
        if os.environ.get('VERIF_DEBUG'):
            for t, s, rv in e.returns:
                print(alg, rnd, rv, s.b, {k[1]: q for k, q in s.c.items() if k in e.cells})
        if rnd == 0:
            c.functions.add(f.name)
        new = [s for t, s, rv in e.returns if rv[0] <= it <= rv[1]]
        old = len(entries)
        merged = {}
        for s in entries + [x.copy() for x in new]:
            s.v, s.bo = {}, {}
            k = tuple(sorted((o, s.c[o][1] if s.c[o][1][0] == s.c[o][1][1] else None) for o in e.cells if o in s.c)) \
                + (s.b['E'] == (0, 0),)
            if k in merged:
                m = merged[k]
                x = Z.ZState()
                wide = rnd > 2

                def j(a, b):
                    h = Z.hull(a, b)
                    return Z.widen(a, h) if wide else h
                x.b = {z: j(m.b[z], s.b[z]) for z in m.b}
                x.c = {v: tuple(j(a, b) for a, b in zip(q, s.c[v])) for v, q in m.c.items() if v in s.c}
                merged[k] = x
            else:
                merged[k] = s
        nxt = list(merged.values())
        if len(nxt) == old and all(a.eq(b) for a, b in zip(nxt, entries)):
            break
        entries = nxt
    else:
        raise Broken('the states of %s between evaluations do not settle' % f.name)
    for t, s, rv in e.returns:
        one = rv[0] == rv[1]
        if rv[0] <= it <= rv[1]:
            c.ob('budget', s.b['R'][0] >= 1, f.name,
                 '%s: one more evaluation can be requested after MAXFUN evaluations' % f.name, t.loc())
        q = s.c.get(count, Z.ANY)[1]
        c.ob('count', q == (0, 0), f.name, '%s: the number of evaluations kept in the context is not the number of '
             'evaluations (off by %s) for status %s' % (f.name, q, rv), t.loc())
        q = s.c.get(status, Z.ANY)[0]
        c.ob('status', one and q == rv, f.name,
             '%s: the status kept in the context (%s) is not the returned one (%s)' % (f.name, q, rv), t.loc())
    if not any(rv[0] <= it <= rv[1] for t, s, rv in e.returns) or len(e.returns) < 2:
        raise Broken('%s never requests an evaluation' % f.name)



# ------------------------------------------------------------------------------------------------ arguments (W01)
GOOD = FR(0.0, True, INF, True, False)
TWO = FR(2.0, False, 2.0, False, False)
ONLY = {'one': FR(1.0, False, 1.0, False, False), 'infinite': FR(INF, False, INF, False, False),
        'NaN': FR(None, False, None, False, True), 'zero': FR(0.0, False, 0.0, False, False),
        'negative': FR(-INF, True, 0.0, True, False), 'minus infinity': FR(-INF, False, -INF, False, False)}
WRAPPERS = {'newuoa': dict(n=0, npt=1, objfun=2, data=3, x=4, rhobeg=5, rhoend=6, iprint=7, maxfun=8, work=9),
            'bobyqa': dict(n=0, npt=1, objfun=2, data=3, x=4, xl=5, xu=6, rhobeg=7, rhoend=8, iprint=9, maxfun=10,
                           work=11),
            'cobyla': dict(n=0, m=1, objfun=2, data=3, x=4, rhobeg=5, rhoend=6, iprint=7, maxfun=8, work=9, iact=10)}
CREATE = {'newuoa_create': dict(n=0, npt=1, rhobeg=2, rhoend=3, iprint=4, maxfun=5),
          'cobyla_create': dict(n=0, m=1, rhobeg=2, rhoend=3, iprint=4, maxfun=5)}


def arg_cells(alg, arrays):
    """(label, n, npt or m, rho, maxfun, scl, bounds, expected status or None)"""
    U = alg.upper() + '_'
    out = []
    ok = dict(n=3, k='mid', rho='ok', maxfun=None, scl=None, want=None, close=None)

    def cell(label, **kw):
        d = dict(ok)
        d.update(kw)
        d['label'] = label
        out.append(d)
    cell('valid arguments')
    least = 1 if alg == 'cobyla' else 2
    cell('N too small', n='small', k='any', want=U + 'BAD_NVARS')
    if alg == 'cobyla':
        cell('a negative M', n='ok', k='low', want=U + 'BAD_NCONS')
        cell('any N and M', n='ok')
        cell('no constraints', n='ok', k='zero')
        cell('N=1', n=1)
    else:
        cell('NPT too small', n='ok', k='low', want=U + 'BAD_NPT')
        for n in (2, 3, 4):
            for k in ('low', 'min', 'mid', 'max', 'high'):
                cell('N=%d and NPT %s' % (n, k), n=n, k=k, want=U + 'BAD_NPT' if k in ('low', 'high') else None)
    cell('RHOEND not positive', rho='zero', want=U + 'BAD_RHO_RANGE')
    cell('RHOEND > RHOBEG', rho='order', want=U + 'BAD_RHO_RANGE')
    cell('RHOEND = RHOBEG', rho='equal')
    if arrays:
        for n in (2, 3):
            cell('scaling factors equal to one', n=n, k='min', scl=['one'] * n)
            cell('scaling factors', n=n, k='min', scl=['good'] * n)
            for bad in ('infinite', 'NaN', 'zero', 'negative', 'minus infinity'):
                for j in range(n):
                    cell('scaling factor %d is %s' % (j + 1, bad), n=n, k='min',
                         scl=[bad if i == j else 'good' for i in range(n)], want=U + 'BAD_SCALING')
            if alg == 'bobyqa':
                for scl in (None, ['two'] * n):
                    for j in range(n):
                        cell('bounds of variable %d too close%s' % (j + 1, ' once scaled' if scl else ''), n=n, k='min',
                             scl=scl, close=j, want=U + 'TOO_CLOSE')
    else:
        for k in (1, 2, 100):
            cell('MAXFUN = %d' % k, maxfun=k)
        cell('MAXFUN < 1', maxfun='low', want=U + 'BAD')
    return out


def scalars(alg, pos, d, args, st):
    """set the scalar arguments of a cell; False when the cell does not apply"""
    n = d['n']
    N = isym('n')
    if n == 'small':
        A.assume_ic(st, sub(N, I(1 if alg == 'cobyla' else 2)), 1)
    elif n == 'ok':
        A.assume_ic(st, sub(N, I(1 if alg == 'cobyla' else 2)), 6)
    else:
        N = I(n)
    args[pos['n']] = N
    k = d['k']
    K = isym('k')
    if alg == 'cobyla':
        if k in ('mid', 'min'):
            A.assume_ic(st, K, 6)
        elif k == 'low':
            A.assume_ic(st, K, 1)
        elif k == 'zero':
            K = ZERO
        args[pos['m']] = K
    else:
        if n in ('ok', 'small'):
            if k == 'low':
                A.assume_ic(st, sub(K, add(N, I(2))), 1)
        else:
            lo, hi = n + 2, (n + 1) * (n + 2) // 2
            if k == 'low':
                A.assume_ic(st, sub(K, I(lo)), 1)
            elif k == 'high':
                A.assume_ic(st, sub(K, I(hi)), 4)
            else:
                K = I({'min': lo, 'mid': (lo + hi) // 2, 'max': hi}[k])
        args[pos['npt']] = K
    a, b = fsym('rhobeg'), fsym('rhoend')
    for x in (a, b):
        A.set_fr(st, x, FR(-INF, False, INF, False, False))
    if alg == 'bobyqa' and d['rho'] in ('ok', 'equal'):
        # the bounds of the cells are made for an initial radius of one
        A.set_fr(st, b, FR(0.0, True, 1.0, True, False))
        args[pos['rhobeg']], args[pos['rhoend']] = F(1.0), b if d['rho'] == 'ok' else F(1.0)
        a = None
    if a is None:
        pass
    elif d['rho'] == 'ok':
        A.set_fr(st, b, FR(0.0, True, INF, True, False))
        A.set_fr(st, a, FR(0.0, True, INF, True, False))
        A.assume_fcm(st, b, a, A.LT)
    elif d['rho'] == 'zero':
        A.set_fr(st, a, FR(0.0, True, INF, True, False))
        A.set_fr(st, b, FR(-INF, False, 0.0, False, False))
    elif d['rho'] == 'order':
        A.set_fr(st, b, FR(0.0, True, INF, True, False))
        A.assume_fcm(st, b, a, A.GT)
    else:
        A.set_fr(st, b, FR(0.0, True, INF, True, False))
        a = b
    if a is not None:
        args[pos['rhobeg']], args[pos['rhoend']] = a, b
    args[pos['iprint']] = isym('iprint')
    mf = d['maxfun']
    M = isym('maxfun')
    if mf == 'low':
        A.assume_ic(st, M, 3)
    elif mf is None:
        A.assume_ic(st, M, 4)
    else:
        M = I(mf)
    args[pos['maxfun']] = M
    return N, K


def validate(c, P, alg, fname, pos, cells):
    fn = c.func(P, fname)
    E = P.enums
    for d in cells:
        e = c.engine(P)
        e.mutable_globals_initial = True
        e.malloc_fails = False
        st = State()
        args = [None] * len(fn.params)
        N, K = scalars(alg, pos, d, args, st)
        if d['n'] not in ('ok', 'small'):
            e.unroll = 300
        reg = {}
        for nm in ('x', 'xl', 'xu', 'work', 'iact', 'data'):
            if nm in pos:
                args[pos[nm]] = reg[nm] = ext(st, e, nm)
        if 'objfun' in pos:
            args[pos['objfun']] = ext(st, e, 'objfun')
        if 'maximize' in pos:
            args[pos['maximize']] = isym('maximize')
        if 'scl' in pos:
            if d['scl']:
                args[pos['scl']] = q = ext(st, e, 'scl')
                for j, s in enumerate(d['scl']):
                    v = fsym('scl%d' % j)
                    if s == 'good' and alg == 'bobyqa':
                        A.set_fr(st, v, FR(0.5, False, 1.0, False, False))      # the bounds stay apart
                    else:
                        A.set_fr(st, v, GOOD if s == 'good' else TWO if s == 'two' else ONLY[s])
                    put(e, st, q, 8 * j, v)
            else:
                args[pos['scl']] = NULL
        if 'xl' in pos and d['n'] not in ('ok', 'small'):
            for j in range(d['n']):
                k = 2.0 if d['scl'] else 1.0
                near = d['close'] == j
                for nm, lo, hi in (('xl', -10.0, -1.0), ('xu', 1.0, 10.0), ('x', -20.0, 20.0)):
                    if near:
                        lo, hi = {'xl': (-1.0, -0.5), 'xu': (-0.25, 0.9375), 'x': (lo, hi)}[nm]
                    v = fsym('%s%d' % (nm, j))
                    A.set_fr(st, v, FR(lo * k, False, hi * k, False, False))
                    put(e, st, reg[nm], 8 * j, v)
        calls, stores, accepted = [], [], []

        def objective(eng, s, a, ins):
            if a[0] is not args[pos['objfun']]:
                raise Broken('call of an unknown function at %s' % ins.loc())
            calls.append((s, a, ins))
            return []
        e.models['*'] = objective
        early = alg != 'bobyqa'

        def store(eng, s, p, v, size, ins):
            if p.k != 'ptr':
                return
            if p.a[0] is reg['x'].a[0]:
                stores.append((s.gh.get(TAG), ins))
                s.gh[TAG] = I(1)
            elif early and p.a[0] is reg['work'].a[0]:
                accepted.append(ins)
                return 'stop'
        e.on_store.append(store)
        rets = e.run(fn, args, st)
        c.done(e)
        what = '%s with %s' % (fname, d['label'])
        key = '%s:%s' % (fname, d['label'])
        want = d['want']
        if want:
            for s, v in rets:
                c.ob('rejected', v is I(E[want]), key, '%s returns %s instead of %s' % (what, show(v), want))
                c.ob('unchanged', s.gh.get(TAG) is None, key, '%s: the variables are modified' % what)
            c.ob('rejected', bool(rets), key, '%s never returns' % what)
            c.ob('no evaluation', not calls and not accepted, key, '%s: the computation starts' % what,
                 (calls[0][2].loc() if calls else accepted[0].loc()) if calls or accepted else '')
        else:
            for s, v in rets:
                c.ob('accepted', False, key, '%s: returns %s before any evaluation' % (what, show(v)))
            c.ob('accepted', bool(calls or accepted), key, '%s: the computation never starts' % what)
        for s, a, ins in calls:
            want_a = [args[pos['n']]] + ([args[pos['m']]] if alg == 'cobyla' else [])
            ok = a[1:1 + len(want_a)] == want_a and a[-1] is args[pos['data']]
            c.ob('arguments', ok, fname, '%s calls the objective function with other arguments' % fname, ins.loc())


TAG = mk('gh', 'x written')


def creation(c, P, fname, pos):
    """the reverse communication version checks its arguments when the context is created"""
    fn = c.func(P, fname)
    alg = fname.split('_')[0]
    for d in arg_cells(alg, False):
        e = c.engine(P)
        e.mutable_globals_initial = True
        e.malloc_fails = False
        st = State()
        args = [None] * len(fn.params)
        scalars(alg, pos, d, args, st)
        allocs = []
        e.on_alloc.append(lambda eng, s, r, size, ins: allocs.append(ins))
        e.unroll = None
        rets = e.run(fn, args, st)
        c.done(e)
        what = '%s with %s' % (fname, d['label'])
        key = '%s:%s' % (fname, d['label'])
        c.ob('creation', bool(rets), key, '%s never returns' % what)
        for s, v in rets:
            if d['want']:
                c.ob('creation', v is NULL and not allocs, key, '%s returns a context' % what)
                en = e.read(s, mk('ptr', mk('reg', 'errno', 0, 'errno'), ZERO), 'i', 4)
                c.ob('creation', en is I(22), key, '%s: errno is %s' % (what, show(en)))
            else:
                c.ob('creation', v.k == 'ptr', key, '%s returns %s' % (what, show(v)))


def delegation(c, P, alg):
    """the simple driver minimises without scaling"""
    fn = c.func(P, alg)
    pos, full = WRAPPERS[alg], ARGS[DIRECT[alg]]
    e = c.engine(P)
    e.mutable_globals_initial = True
    st = State()
    args = []
    for i, p in enumerate(fn.params):
        ty = A.tyclass(p[0])
        args.append(ext(st, e, 'arg%d' % i) if ty == 'p' else fsym('x%d' % i) if ty == 'f' else isym('k%d' % i))
    got = []
    ret = isym('status')

    def optimize(eng, s, a, ins):
        got.append((a, ins))
        return [(s, ret)]
    e.models[DIRECT[alg]] = optimize
    e.models['*'] = lambda eng, s, a, ins: []
    want = [None] * len(full)
    for k, i in full.items():
        want[i] = args[pos[k]] if k in pos else ZERO if k == 'maximize' else NULL
    rets = e.run(fn, args, st) if not inlined(P, fn, DIRECT[alg]) else []
    c.done(e)
    for a, ins in got:
        for k, i in full.items():
            c.ob('simple driver', a[i] is want[i], '%s:%s' % (alg, k),
                 '%s does not give its %s to %s' % (alg, k if k in pos else 'default ' + k, DIRECT[alg]), ins.loc())
    for s, v in rets:
        c.ob('simple driver', v is ret, '%s:status' % alg, '%s does not return the status' % alg)


def inlined(P, fn, callee):
    """the driver does not call the general function (the cells of arguments still apply to it)"""
    return not any(i.op == 'call' and i.x[0] == ('g', callee) for b in fn.blocks.values() for i in b.ins)


TECH = 'data flow analysis of the intermediate representation'


@check('W02', TECH + ': counters as intervals relative to the number of evaluations and to the limit, every call site '
       'and return')
def w02(c):
    P = c.lib(build.POWELL, mode='inlined')
    parallel(c, [lambda k, a=a: budget_direct(k, P, a) for a in DIRECT] +
             [lambda k, a=a: budget_revcom(k, P, a) for a in REVCOM])
    c.require('budget', 4)
    c.require('count', 4)
    c.assume = ['no integer overflow', 'the context of a reverse communication run is only changed by its own functions',
                'a limit less than one counts as one (the first evaluation is always made)']


@check('W01', 'abstract interpretation of the argument checks, one cell per class of arguments')
def w01(c):
    P = c.lib(build.POWELL)
    jobs = []
    for alg in DIRECT:
        for fname, pos in ((DIRECT[alg], ARGS[DIRECT[alg]]), (alg, WRAPPERS[alg])):
            cells = [d for d in arg_cells(alg, True) if not d['scl'] or 'scl' in pos]
            for i in range(4):
                jobs.append(lambda k, a=(alg, fname, pos, cells[i::4]): validate(k, P, *a))
    for f, pos in CREATE.items():
        jobs.append(lambda k, f=f, pos=pos: creation(k, P, f, pos))
    jobs += [lambda k, a=a: delegation(k, P, a) for a in DIRECT]
    parallel(c, jobs)
    c.require('rejected', 150)
    c.require('accepted', 40)
    c.require('no evaluation', 100)
    c.require('unchanged', 100)
    c.require('creation', 20)
    c.assume = ['NaN is not among the values of RHOBEG and RHOEND']


# ------------------------------------------------------------------------------------------------ contexts (W07)
def errno(e, s):
    return e.read(s, mk('ptr', mk('reg', 'errno', 0, 'errno'), ZERO), 'i', 4)


def fresh_engine(c, P, fails=False):
    e = c.engine(P)
    e.mutable_globals_initial = True
    e.malloc_fails = fails
    e.unroll = 300
    return e


def make(c, P, alg, e, st):
    """contexts returned by *_create for valid arguments"""
    fn = c.func(P, alg + '_create')
    args = [None] * len(fn.params)
    d = [x for x in arg_cells(alg, False) if x['label'] == 'valid arguments'][0]
    d = dict(d, k='mid')
    scalars(alg, CREATE[fn.name], d, args, st)
    if alg == 'cobyla':
        args[1] = I(2)
    return e.run(fn, args, st)


def contexts(c, P, alg):
    E = P.enums
    U = alg.upper() + '_'
    IT, ADDR, BAD = I(E[U + 'ITERATE']), I(E[U + 'BAD_ADDRESS']), I(E[U + 'CORRUPTED'])
    EFAULT = I(14)
    f = {k: c.func(P, '%s_%s' % (alg, k)) for k in ('create', 'delete', 'restart', 'get_status', 'get_nevals', 'get_rho',
                                                   'iterate', 'reason')}
    if alg == 'cobyla':
        f['get_last_f'] = c.func(P, 'cobyla_get_last_f')
    # NULL
    for k, want in (('restart', ADDR), ('get_status', ADDR), ('get_nevals', I(-1)), ('get_rho', F(-1.0)),
                    ('get_last_f', F(-1.0)), ('iterate', ADDR), ('delete', None)):
        if k not in f:
            continue
        e = fresh_engine(c, P)
        st = State()
        bad = []
        e.on_deref.append(lambda eng, s, p, nn, ins, bad=bad: bad.append(ins.loc()) if nn is False else None)
        args = [NULL]
        if k == 'iterate':
            args += [fsym('f'), ext(st, e, 'x')] if alg == 'cobyla' else [fsym('f'), ext(st, e, 'x')]
            args += [ext(st, e, 'con')] if alg == 'cobyla' else []
            args = order(f[k], args)
        rets = e.run(f[k], args, st)
        c.done(e)
        nm = f[k].name
        c.ob('null', rets and not bad, nm, '%s(NULL) follows the address' % nm, bad[0] if bad else '')
        for s, v in rets:
            c.ob('null', want is None or v is want, nm, '%s(NULL) returns %s' % (nm, show(v) if v else v))
            if k not in ('delete', 'iterate'):
                c.ob('null', errno(e, s) is EFAULT, nm + ':errno', '%s(NULL) leaves errno to %s' % (nm, show(errno(e, s))))
    # no memory
    e = fresh_engine(c, P, True)
    rets = make(c, P, alg, e, State())
    c.done(e)
    c.ob('create', any(v is NULL for s, v in rets) and any(v.k == 'ptr' for s, v in rets), alg,
         '%s does not answer NULL when there is no memory' % f['create'].name)
    # life of a context
    e = fresh_engine(c, P)
    st = State()
    made = [(s, v) for s, v in make(c, P, alg, e, st) if v.k == 'ptr']
    c.ob('create', bool(made), alg, '%s never succeeds' % f['create'].name)
    for s, ctx in made:
        for label, prep in (('a new context', None), ('a restarted context', 'restart')):
            for used in ([False] if prep is None else [False, True]):
                s2 = s.copy()
                if used:
                    # whatever happened before
                    scramble(c, P, alg, e, s2, ctx)
                starts = [(s2, IT)]
                if prep:
                    starts = e.run(f['restart'], [ctx], s2)
                for s3, v in starts:
                    what = label + (' (used before)' if used else '')
                    c.ob('start', v is IT, alg + ':restart', '%s_restart returns %s' % (alg, show(v)))
                    for k, want in (('get_status', IT), ('get_nevals', ZERO)):
                        for s4, r in e.run(f[k], [ctx], s3.copy()):
                            c.ob('start', r is want, '%s:%s' % (alg, k), '%s of %s is %s' % (f[k].name, what, show(r)))
        freed = []
        e.on_free.append(lambda eng, s, p, ins: freed.append(p))
        for s2, r in e.run(f['delete'], [ctx], s.copy()):
            c.ob('delete', freed == [ctx], alg, '%s does not free the context (once)' % f['delete'].name)
        e.on_free.pop()
        # misuse
        for label, want in (('a NULL X', ADDR), ('a finished context', BAD)) + \
                ((('a NULL C', ADDR),) if alg == 'cobyla' else ()):
            s2 = s.copy()
            x, con = ext(s2, e, 'x'), ext(s2, e, 'con')
            args = [ctx, fsym('f'), NULL if label == 'a NULL X' else x] + \
                ([NULL if label == 'a NULL C' else con] if alg == 'cobyla' else [])
            args = order(f['iterate'], args)
            if label == 'a finished context':
                off = getter(c, P, alg + '_get_status')
                q = isym('status')
                A.assume_ic(s2, sub(q, IT), 5)
                put(e, s2, ctx, off, q, f['get_status'].mod.size(f['get_status'].rty))
            written = []
            e.on_store.append(lambda eng, st, p, v, size, ins: written.append((p, ins)) if p.k == 'ptr' and
                              p.a[0] in (ctx.a[0], x.a[0], con.a[0]) else None)
            rets = e.run(f['iterate'], args, s2)
            e.on_store.pop()
            c.ob('misuse', bool(rets), alg, '%s_iterate with %s never returns' % (alg, label))
            for s3, r in rets:
                c.ob('misuse', r is want, '%s:%s' % (alg, label), '%s_iterate with %s returns %s' % (alg, label, show(r)))
                for s4, r2 in e.run(f['get_status'], [ctx], s3.copy()):
                    c.ob('misuse', r2 is want, '%s:%s:kept' % (alg, label),
                         '%s_iterate with %s: the status kept in the context is %s' % (alg, label, show(r2)))
            so = getter(c, P, alg + '_get_status')
            no = getter(c, P, alg + '_get_nevals')
            for p, ins in written:
                c.ob('misuse', p.a[0] is ctx.a[0] and p.a[1] is I(so), '%s:%s:effects' % (alg, label),
                     '%s_iterate with %s has other effects' % (alg, label), ins.loc())
    c.done(e)
    # messages
    seen = {}
    for k, v in sorted(E.items()):
        if not k.startswith(U) or k == U + 'INITIAL_ITERATE':
            continue
        e = fresh_engine(c, P)
        for s, r in e.run(f['reason'], [I(v)], State()):
            t = e.cstring(r)
            c.ob('message', bool(t) and t not in seen, k, '%s(%s) is %r%s' % (
                f['reason'].name, k, t, ', as for ' + seen[t] if t in seen else ''))
            seen[t] = k
    e = fresh_engine(c, P)
    q = isym('status')
    st = State()
    A.assume_ic(st, sub(q, I(max(v for k, v in E.items() if k.startswith(U)))), 4)
    for s, r in e.run(f['reason'], [q], st):
        c.ob('message', bool(e.cstring(r)), alg + ':unknown', '%s of an unknown status' % f['reason'].name)
    c.done(e)


def order(fn, args):
    """arguments of *_iterate by kind (the first is the context)"""
    out, ptr, num = [], [a for a in args if a.k in ('ptr', 'nul')], [a for a in args if a.k not in ('ptr', 'nul')]
    for p in fn.params:
        out.append(ptr.pop(0) if A.tyclass(p[0]) == 'p' else num.pop(0))
    return out


def scramble(c, P, alg, e, s, ctx):
    for k in ('get_status', 'get_nevals'):
        f = c.func(P, '%s_%s' % (alg, k))
        put(e, s, ctx, getter(c, P, f.name), isym(k), f.mod.size(f.rty))


@check('W07', 'abstract interpretation of the life of a context, one cell per state and kind of misuse')
def w07(c):
    P = c.lib(build.POWELL)
    parallel(c, [lambda k, a=a: contexts(k, P, a) for a in REVCOM])
    c.require('null', 20)
    c.require('start', 8)
    c.require('misuse', 10)
    c.require('message', 20)


# ------------------------------------------------------------------------------------------------ kept variables (W06)
def loops(sh):
    """header -> blocks of its natural loop"""
    fn = sh.fn
    preds = defaultdict(list)
    for b in fn.blocks.values():
        for t in b.succ:
            preds[t].append(b.name)
    # dominators
    order = sorted(sh.rpo, key=sh.rpo.get)
    dom = {order[0]: {order[0]}}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            p = [dom[q] for q in preds[b] if q in dom]
            n = set.intersection(*p) | {b}
            if dom.get(b) != n:
                dom[b] = n
                ch = True
    out = defaultdict(set)
    for b in order:
        for t in fn.blocks[b].succ:
            if t in dom[b]:
                body, work = {t}, [b]
                while work:
                    q = work.pop()
                    if q not in body:
                        body.add(q)
                        work += [r for r in preds[q] if r in sh.rpo]
                out[t] |= body
    return out


def last_value(fn, sh, last, var, member, through, c):
    """is the argument F kept in the context at the returns which follow its use?"""
    def flow(b, st):
        sync, used = st
        for i in fn.blocks[b].ins:
            if i.op == 'store':
                v, m = var(i.ops[1]), member(i.ops[1])
                if any(v == p[0] for p in last):
                    sync = through(i.ops[0]) == ('member', m)
                elif any(m == p[1] for p in last):
                    t = through(i.ops[0])
                    sync = t is not None and t[0] == 'var' and (t[1], m) in last
            elif i.op == 'load' and any(var(i.ops[0]) == p[0] for p in last):
                # copied into the context only: no use
                w = [j for b2 in fn.blocks.values() for j in b2.ins + [b2.term] if ('l', i.res) in j.ops]
                if any(not (j.op == 'store' and member(j.ops[1]) is not None) for j in w):
                    used = True
        return sync, used
    seen = defaultdict(set)
    seen[fn.order[0]].add((False, False))
    todo = [fn.order[0]]
    while todo:
        b = todo.pop()
        for st in list(seen[b]):
            o = flow(b, st)
            for t in fn.blocks[b].succ:
                if o not in seen[t]:
                    seen[t].add(o)
                    todo.append(t)
    for b in fn.blocks.values():
        if b.term.op == 'ret':
            for st in seen[b.name]:
                sync, used = flow(b.name, st)
                if used:
                    yield b.name, sync


def kept(c, P, P1, alg):
    fn = c.func(P, alg + '_iterate')
    sh = Z.Shape(fn)
    it = P.enums[alg.upper() + '_ITERATE']
    c.functions.add(fn.name)
    local = {}
    for b in fn.blocks.values():
        for i in b.ins:
            if i.op == 'alloca' and i.x[0] in ('i', 'f', 'p'):
                local[i.res] = i
    # parameters live in local variables of their own
    home, once = {}, defaultdict(list)
    for b in fn.blocks.values():
        for i in b.ins:
            if i.op == 'store' and sh.pointer(i.ops[1])[0] in local:
                once[sh.pointer(i.ops[1])[0]].append(i.ops[0])
    params = {p[1] for p in fn.params}
    for v, ops in once.items():
        if len(ops) == 1 and ops[0][0] == 'l' and ops[0][1] in params:
            home[v] = ops[0][1]
    ctx = fn.params[0][1]

    def var(op):
        r = sh.pointer(op)
        return r[0] if r[0] in local and r[1] == 0 else None

    def member(op):
        """offset in the context of an address"""
        r, o = sh.pointer(op)
        d = sh.defs.get(r) if isinstance(r, str) else None
        if d is not None and d.op == 'load' and home.get(var(d.ops[0])) == ctx:
            return o
        return o if r == ctx else None

    def through(op):
        """what a copied value is: ('var', v), ('member', offset), ('const', k) or None"""
        if op[0] == 'k':
            return ('const', op[2])
        d = sh.defs.get(op[1]) if op[0] == 'l' else None
        if d is None or d.op != 'load':
            return None
        if var(d.ops[0]):
            return ('var', var(d.ops[0]))
        m = member(d.ops[0])
        return ('member', m) if m is not None else None

    # ---- (a) no variable is read before it is assigned (loops are executed at least once)
    lp = loops(sh)
    used = defaultdict(list)
    # switches: variables that only take constants, or what they were before, tell the paths apart
    switches = set()
    for v in local:
        t = [through(o) for o in once.get(v, [])]
        if t and all(x and x[0] in ('const', 'member') for x in t) and any(x[0] == 'const' for x in t):
            switches.add(v)

    def assign(b, k, s, rec=None):
        k, s = dict(k), set(s)
        for i in fn.blocks[b].ins:
            if i.op == 'load' and var(i.ops[0]) and rec is not None:
                v = var(i.ops[0])
                if not copied(i):
                    used[v].append(i)
                    if v not in s:
                        rec.setdefault(v, i)
            elif i.op == 'store' and var(i.ops[1]):
                v = var(i.ops[1])
                s.add(v)
                k.pop(v, None)
                t = through(i.ops[0])
                if v in switches and t[0] == 'const':
                    k[v] = t[1]
            elif i.op == 'call':
                # an address is given to a function that assigns
                for o in i.ops:
                    if o[0] == 'l' and var(o):
                        s.add(var(o))
                        k.pop(var(o), None)
        return k, s

    saves = defaultdict(list)
    for b in fn.blocks.values():
        for i in b.phis + b.ins + [b.term]:
            for o in (i.x.values() if i.op == 'phi' else i.ops):
                if o[0] == 'l':
                    saves[o[1]].append(i)

    def copied(i):
        """a value which is only saved"""
        return all(j.op == 'store' and member(j.ops[1]) is not None for j in saves[i.res])

    def feasible(b, k, t):
        """may the block be left for t?"""
        br = fn.blocks[b].term
        if br.op == 'br' and len(br.x) == 2 and br.x[0] != br.x[1]:
            d = sh.defs.get(br.ops[0][1]) if br.ops[0][0] == 'l' else None
            if d is not None and d.op == 'icmp' and d.x in ('eq', 'ne') and d.ops[1][0] == 'k':
                q = through(d.ops[0])
                if q and q[0] == 'var' and q[1] in k:
                    truth = (k[q[1]] == d.ops[1][2]) == (d.x == 'eq')
                    return t == br.x[0 if truth else 1]
        return True
    edge = defaultdict(dict)
    order = sorted(sh.rpo, key=sh.rpo.get)
    preds = defaultdict(list)
    for b in order:
        for t in fn.blocks[b].succ:
            if b not in preds[t]:
                preds[t].append(b)

    def entering(b, only=None):
        out = {}
        if b == order[0]:
            out[frozenset()] = frozenset()
        for p in preds[b]:
            if only is None or p in only:
                for k, s in edge[p, b].items():
                    out[k] = s if k not in out else out[k] & s
        return out
    ch = True
    while ch:
        ch = False
        for b in order:
            every = entering(b)
            c.steps += len(fn.blocks[b].ins) * len(every)
            for t in fn.blocks[b].succ:
                # a loop is left after one iteration at least
                src = entering(b, lp[b]) if b in lp and t not in lp[b] else every
                new = {}
                for k, s in src.items():
                    k2, s2 = assign(b, k, s)
                    if feasible(b, k2, t):
                        k2, s2 = frozenset(k2.items()), frozenset(s2)
                        new[k2] = s2 if k2 not in new else new[k2] & s2
                if new != edge[b, t]:
                    edge[b, t] = new
                    ch = True
    rec = {}
    for b in order:
        for k, s in entering(b).items():
            assign(b, k, s, rec)
    for v in sorted(used):
        if v in home:
            continue
        c.ob('assigned', v not in rec, '%s:%s' % (fn.name, v),
             '%s: the local variable %s can be used before it is given a value' % (fn.name, v[1:]),
             rec[v].loc() if v in rec else '')

    # ---- (b) what is restored has been saved
    pairs = set()
    cells = {}                                    # things that tell which status is returned
    for b in fn.blocks.values():
        for i in b.ins:
            if i.op == 'store' and var(i.ops[1]):
                t = through(i.ops[0])
                if t and t[0] == 'member':
                    pairs.add((var(i.ops[1]), t[1]))
    # only variables which are used for something else than being saved
    def useful(v):
        for b in fn.blocks.values():
            for i in b.ins:
                if i.op == 'load' and var(i.ops[0]) == v:
                    for b2 in fn.blocks.values():
                        for j in b2.ins + [b2.term]:
                            if ('l', i.res) in j.ops and not (j.op == 'store' and j.ops[0] == ('l', i.res) and
                                                              member(j.ops[1]) is not None):
                                return True
                    for b2 in fn.blocks.values():
                        if any(('l', i.res) in p.x.values() for p in b2.phis):
                            return True
        return False
    ret = set()
    work = []
    for b in fn.blocks.values():
        if b.term.op == 'ret':
            t = through(b.term.ops[0])
            if t:
                work.append(t)
    while work:
        t = work.pop()
        if t in ret or t[0] == 'const':
            continue
        ret.add(t)
        for b in fn.blocks.values():
            for i in b.ins:
                if i.op == 'store' and (t == ('var', var(i.ops[1])) or t == ('member', member(i.ops[1]))):
                    q = through(i.ops[0])
                    if q:
                        work.append(q)
    pairs = {p for p in pairs if ('var', p[0]) not in ret and useful(p[0])}

    def flow(b, st, out=None):
        """st: (constants of the status cells, pairs out of step)"""
        k, bad = dict(st[0]), set(st[1])
        for i in fn.blocks[b].ins:
            if i.op == 'store':
                v, m = var(i.ops[1]), member(i.ops[1])
                t = through(i.ops[0])
                if v:
                    for p in pairs:
                        if p[0] == v:
                            if t == ('member', p[1]):
                                bad.discard(p)
                            else:
                                bad.add(p)
                elif m is not None:
                    for p in pairs:
                        if p[1] == m:
                            if t == ('var', p[0]):
                                bad.discard(p)
                            else:
                                bad.add(p)
                for key in ((('var', v),) if v else (('member', m),) if m is not None else ()):
                    if key in ret:
                        k.pop(key, None)
                        if t and t[0] == 'const':
                            k[key] = t[1]
                        elif t in k:
                            k[key] = k[t]
            elif i.op == 'call':
                for o in i.ops:
                    v = var(o) if o[0] == 'l' else None
                    if v:
                        bad |= {p for p in pairs if p[0] == v}
        return frozenset(k.items()), frozenset(bad)
    seen = defaultdict(dict)
    first = fn.order[0]
    seen[first][frozenset()] = frozenset()
    todo = [first]
    while todo:
        b = todo.pop()
        for k, bad in list(seen[b].items()):
            k2, bad2 = flow(b, (k, bad))
            c.steps += len(fn.blocks[b].ins)
            for t in fn.blocks[b].succ:
                old = seen[t].get(k2)
                new = bad2 if old is None else old | bad2
                if new != old:
                    seen[t][k2] = new
                    todo.append(t)
    # the last function value
    last = set()
    if alg == 'cobyla':
        m = getter(c, P1, 'cobyla_get_last_f')
        last = {(v, m) for v, q in home.items() if fn.params[[p[1] for p in fn.params].index(q)][0][0] == 'f'}
        f0 = last_value(fn, sh, last, var, member, through, c)
        for b, ok in f0:
            c.ob('last value', ok, fn.name, '%s: the function value kept in the context is not the last one' % fn.name,
                 fn.blocks[b].term.loc())
    n = 0
    for b in fn.blocks.values():
        if b.term.op != 'ret':
            continue
        t = through(b.term.ops[0])
        for k, bad in seen[b.name].items():
            k2, bad2 = flow(b.name, (k, bad))
            r = dict(k2).get(t, t[1] if t and t[0] == 'const' else None)
            if r is not None and r != it:
                continue
            n += 1
            for p in sorted(pairs):
                c.ob('saved', p not in bad2, '%s:%s' % (fn.name, p[0]),
                     '%s: the value of %s may not be the one found again after the next evaluation' % (fn.name, p[0][1:]),
                     b.term.loc())
    if not n:
        raise Broken('%s never requests an evaluation' % fn.name)


@check('W06', TECH + ' before promotion: definite assignment, and agreement between local variables and members of the '
       'context at the returns')
def w06(c):
    P, P1 = c.lib(build.POWELL, mode='raw'), c.lib(build.POWELL)
    parallel(c, [lambda k, a=a: kept(k, P, P1, a) for a in REVCOM])
    c.require('assigned', 60)
    c.require('saved', 40)
    c.assume = ['loops are executed at least once (there is at least one variable)']


# ------------------------------------------------------------------------------------------------ user's terms (W04)
class Terms:
    """the objective function is called, and its values are used and returned, in the terms of the caller.
    A power set of path states over the inlined code, under assumptions about MAXIMIZE and SCL."""

    keepall = False             # remember the pointers picked on the path for ever

    def __init__(self, c, fn, maximize, scaled, enums):
        self.c, self.fn, self.maximize, self.scaled = c, fn, maximize, scaled
        self.sh = Z.Shape(fn)
        self.loops = loops(self.sh)
        self.order = sorted(self.sh.rpo, key=self.sh.rpo.get)
        self.preds = defaultdict(list)
        for b in self.order:
            for t in fn.blocks[b].succ:
                if b not in self.preds[t]:
                    self.preds[t].append(b)
        self.p = {k: pname(fn, k) for k in ARGS[fn.name]}
        self.pn = {v: k for k, v in self.p.items()}
        self.users = defaultdict(list)
        for b in fn.blocks.values():
            for i in b.phis + b.ins + [b.term]:
                for o in (i.x.values() if i.op == 'phi' else i.ops):
                    if o[0] == 'l':
                        self.users[o[1]].append(i)
        self.consts()
        self.tags()
        self._roots = {}
        self.status = set()
        work = [b.term.ops[0] for b in fn.blocks.values() if b.term.op == 'ret']
        while work:
            o = work.pop()
            if o[0] == 'l' and o[1] not in self.status:
                self.status.add(o[1])
                d = self.sh.defs.get(o[1])
                if d is not None and d.op == 'phi':
                    work += list(d.x.values())

    # ---- constants that follow from the assumptions
    def consts(self):
        BOT, TOP = 'bot', 'top'
        k = {}
        fn, sh = self.fn, self.sh
        reach = {(None, self.order[0])}

        def val(o):
            if o[0] == 'k':
                return ('k', o[2])
            if o[0] == 'null':
                return ('k', 'null')
            if o[0] == 'zero':
                return ('k', 0)
            if o[0] == 'l':
                if o[1] == self.p['maximize']:
                    return ('k', 0) if not self.maximize else TOP
                if o[1] == self.p['scl']:
                    return ('k', 'null') if not self.scaled else TOP
                return k.get(o[1], BOT if o[1] in sh.defs else TOP)
            return TOP

        def ev(i):
            if i.op == 'phi':
                r = BOT
                for p, o in i.x.items():
                    if (p, i.blk.name if hasattr(i.blk, 'name') else i.blk) in reach:
                        v = val(o)
                        r = v if r == BOT else r if v == BOT or v == r else TOP
                return r
            if i.op == 'icmp':
                x, y = i.ops
                for a, b in ((x, y), (y, x)):
                    if a == ('l', self.p['maximize']) and self.maximize and val(b) == ('k', 0) and i.x in ('eq', 'ne'):
                        return ('k', int(i.x == 'ne'))
                    if a == ('l', self.p['scl']) and self.scaled and val(b) == ('k', 'null') and i.x in ('eq', 'ne'):
                        return ('k', int(i.x == 'ne'))
                a, b = val(x), val(y)
                if BOT in (a, b):
                    return BOT
                if a != TOP and b != TOP:
                    if 'null' in (a[1], b[1]):
                        return ('k', int((a == b) == (i.x == 'eq')))
                    f = {'eq': a[1] == b[1], 'ne': a[1] != b[1], 'slt': a[1] < b[1], 'sgt': a[1] > b[1],
                         'sle': a[1] <= b[1], 'sge': a[1] >= b[1]}.get(i.x)
                    return ('k', int(f)) if f is not None else TOP
                return TOP
            if i.op == 'fcmp':
                a, b = val(i.ops[0]), val(i.ops[1])
                if BOT in (a, b):
                    return BOT
                if a != TOP and b != TOP:
                    f = {'eq': a[1] == b[1], 'ne': a[1] != b[1], 'lt': a[1] < b[1], 'gt': a[1] > b[1],
                         'le': a[1] <= b[1], 'ge': a[1] >= b[1]}.get(i.x[1:])
                    return ('k', int(f)) if f is not None else TOP
                return TOP
            if i.op == 'select':
                q = val(i.ops[0])
                if q == BOT:
                    return BOT
                if q != TOP:
                    return val(i.ops[1 if q[1] else 2])
                a, b = val(i.ops[1]), val(i.ops[2])
                return a if a == b else TOP
            if i.op in ('zext', 'sext', 'trunc', 'freeze', 'fpext', 'fptrunc'):
                v = val(i.ops[0])
                return ('k', -v[1]) if i.op == 'sext' and i.x == ('i', 1) and v not in (BOT, TOP) else v
            if i.op == 'fneg':
                v = val(i.ops[0])
                return ('k', -v[1]) if v not in (BOT, TOP) else v
            if i.op == 'sitofp':
                v = val(i.ops[0])
                return ('k', float(v[1])) if v not in (BOT, TOP) else v
            if i.op == 'xor':
                a, b = val(i.ops[0]), val(i.ops[1])
                if BOT in (a, b):
                    return BOT
                return ('k', int(bool(a[1]) != bool(b[1]))) if i.ty == ('i', 1) and TOP not in (a, b) else TOP
            return TOP
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if not any(t == b for _, t in reach):
                    continue
                blk = fn.blocks[b]
                for i in blk.phis + blk.ins:
                    if i.res:
                        v = ev(i)
                        if v != k.get(i.res, BOT):
                            k[i.res] = v
                            ch = True
                t = blk.term
                out = blk.succ
                if t.op == 'br' and len(t.x) == 2:
                    q = val(t.ops[0])
                    out = [] if q == BOT else t.x if q == TOP else [t.x[0 if q[1] else 1]]
                elif t.op == 'switch':
                    q = val(t.ops[0])
                    if q == BOT:
                        out = []
                    elif q != TOP:
                        out = [x for v, x in t.x[1] if v == q[1]][:1] or [t.x[0]]
                for x in out:
                    if (b, x) not in reach:
                        reach.add((b, x))
                        ch = True
        self.k = {r: v[1] for r, v in k.items() if v not in (BOT, TOP)}
        self.reach = reach
        self.alive = {t for _, t in reach}

    def const(self, o):
        if o[0] == 'k':
            return o[2]
        if o[0] == 'null':
            return 'null'
        return self.k.get(o[1]) if o[0] == 'l' else None

    # ---- sign of what comes from the objective function
    def flip(self, i):
        """(operand, sign) when the instruction is +-operand"""
        if i.op == 'fneg':
            return i.ops[0], -1
        if i.op in ('freeze', 'fpext', 'fptrunc', 'bitcast'):
            return i.ops[0], 1
        if i.op == 'fmul':
            for a, b in ((0, 1), (1, 0)):
                if self.const(i.ops[a]) in (1, -1):
                    return i.ops[b], int(self.const(i.ops[a]))
        if i.op == 'fdiv' and self.const(i.ops[1]) in (1, -1):
            return i.ops[0], int(self.const(i.ops[1]))
        if i.op == 'fsub' and self.const(i.ops[0]) == 0:
            return i.ops[1], -1
        return None

    def tags(self):
        tag = defaultdict(set)
        live = [i for b in self.order if b in self.alive for i in self.fn.blocks[b].phis + self.fn.blocks[b].ins if i.res]
        ch = True
        while ch:
            ch = False
            for i in live:
                new = set()
                if evaluation(self.sh, i):
                    new = {1}
                elif i.op == 'phi':
                    for p, o in i.x.items():
                        if (p, i.blk if isinstance(i.blk, str) else i.blk.name) in self.reach and o[0] == 'l':
                            new |= tag[o[1]]
                elif i.op == 'select':
                    q = self.const(i.ops[0])
                    for o in ([i.ops[1], i.ops[2]] if q is None else [i.ops[1 if q else 2]]):
                        if o[0] == 'l':
                            new |= tag[o[1]]
                else:
                    f = self.flip(i)
                    if f and f[0][0] == 'l':
                        new = {f[1] * t for t in tag[f[0][1]]}
                if new - tag[i.res]:
                    tag[i.res] |= new
                    ch = True
        self.tag = tag

    def uses(self):
        """every use of a value of the objective function"""
        model = {-1 if self.maximize else 1}
        out = set()
        for b in self.order:
            if b not in self.alive:
                continue
            for i in self.fn.blocks[b].ins:
                if i.op in ('phi', 'select') or self.flip(i) is not None:
                    continue
                for n, o in enumerate(i.ops):
                    t = self.tag.get(o[1]) if o[0] == 'l' else None
                    if not t:
                        continue
                    if i.op == 'call':
                        yield i, 'printed', t == {1}
                    elif i.op == 'store' and i in self.final:
                        continue
                    else:
                        yield i, 'used', t == model
        return out

    def sign(self, o, cell, depth=0, seen=()):
        """signs of the function value returned: values found in memory are those of the model"""
        model = -1 if self.maximize else 1
        if depth > 60:
            return {0}
        if o[0] != 'l':
            return {0}
        d = self.sh.defs.get(o[1])
        if d is None:
            return {0}
        if o[1] in seen:
            return set()
        seen = seen + (o[1],)
        if evaluation(self.sh, d):
            return {1}
        if d.op == 'phi':
            r = set()
            for p, v in d.x.items():
                if (p, d.blk if isinstance(d.blk, str) else d.blk.name) in self.reach:
                    if v[0] == 'k' or v[0] == 'undef':
                        continue
                    r |= self.sign(v, cell, depth + 1, seen)
            return r
        if d.op == 'select':
            q = self.const(d.ops[0])
            r = set()
            for v in (d.ops[1:] if q is None else [d.ops[1 if q else 2]]):
                r |= self.sign(v, cell, depth + 1, seen)
            return r
        f = self.flip(d)
        if f:
            return {f[1] * s for s in self.sign(f[0], cell, depth + 1, seen)}
        if d.op == 'load':
            if o[1] in cell:
                return cell[o[1]]
            return {model}
        return {0}

    # ---- pointers
    def roots(self, o):
        if o[0] == 'null':
            return frozenset(['null'])
        if o[0] != 'l':
            return frozenset(['?'])
        r = self._roots.get(o[1])
        if r is not None:
            return r
        out, seen, work = set(), {o[1]}, [o]
        while work:
            o2 = work.pop()
            if o2[0] != 'l':
                out.add('null' if o2[0] == 'null' else '?')
                continue
            d = self.sh.defs.get(o2[1])
            if d is None:
                p = self.pn.get(o2[1], '?')
                out.add('null' if p == 'scl' and not self.scaled else p)
                continue
            if d.op in ('getelementptr', 'bitcast', 'freeze'):
                nxt = [d.ops[0]]
            elif d.op == 'phi':
                nxt = list(d.x.values())
            elif d.op == 'select':
                nxt = d.ops[1:]
            else:
                out.add('?')
                continue
            for v in nxt:
                if v[0] != 'l' or v[1] not in seen:
                    if v[0] == 'l':
                        seen.add(v[1])
                    work.append(v)
        self._roots[o[1]] = frozenset(out)
        return self._roots[o[1]]

    def degrees(self, o, depth=0, seen=()):
        """powers of X and of SCL in a value"""
        if o[0] != 'l' or depth > 14 or o[1] in seen:
            return {(0, 0)}
        d = self.sh.defs.get(o[1])
        if d is None:
            return {(0, 0)}
        seen = seen + (o[1],)
        sub_ = lambda v: self.degrees(v, depth + 1, seen)
        if d.op == 'load':
            r = self.roots(d.ops[0]) - {'null'}
            return {(1, 0)} if r == {'x'} else {(0, 1)} if r == {'scl'} else {(0, 0)}
        if d.op == 'phi':
            return set().union(*[sub_(v) for v in d.x.values()])
        if d.op == 'select':
            return sub_(d.ops[1]) | sub_(d.ops[2])
        if d.op in ('freeze', 'fpext', 'fptrunc'):
            return sub_(d.ops[0])
        if d.op in ('fmul', 'fdiv'):
            s = 1 if d.op == 'fmul' else -1
            return {(a[0] + s * b[0], a[1] + s * b[1]) for a in sub_(d.ops[0]) for b in sub_(d.ops[1])}
        if d.op == 'call' and d.x[0][0] == 'g':
            return set().union({(0, 0)}, *[sub_(v) for v in d.ops])
        return {(0, 0)}

    # ---- path states
    # (x, buffer, evaluated, cell, success, picks)
    def run(self, success):
        fn, sh = self.fn, self.sh
        events = {}
        for b in fn.blocks.values():
            for i in b.ins:
                if i.op != 'store':
                    continue
                r = self.roots(i.ops[1]) - {'null'}
                g = self.degrees(i.ops[0]) if i.ty[0] == 'f' else {(0, 0)}
                if r == {'x'}:
                    events[i] = 'divide' if (1, -1) in g else 'multiply' if (1, 1) in g else 'set'
                elif any(q[1] == 1 for q in g):
                    events[i] = 'fill'
        self.events = events
        self.watched = {p.res for b in fn.blocks.values() for p in b.phis if p.ty[0] == 'p' and
                        len({self.roots(v) for v in p.x.values()}) > 1}
        evloops = {h for h, body in self.loops.items()
                   if any(i in events and events[i] != 'set' for q in body for i in fn.blocks[q].ins)
                   and not any(evaluation(sh, i) for q in body for i in fn.blocks[q].ins)}
        edge = defaultdict(set)
        first = self.order[0]
        start = (('raw', None), 'none', False, None, None, frozenset())
        self.final = set()
        out_ret = []
        sites = []

        def entering(b, only=None):
            r = set()
            if b == first:
                r.add(start)
            for p in self.preds[b]:
                if only is None or p in only:
                    r |= edge[p, b]
            return r
        work = set(self.order[:1])
        while work:
            b = min(work, key=sh.rpo.get)
            work.discard(b)
            states = entering(b)
            for t in fn.blocks[b].succ:
                if (b, t) not in self.reach:
                    continue
                src = entering(b, self.loops[b]) if b in evloops and t not in self.loops[b] else states
                new = set()
                for s in src:
                    o = self.block(b, s)
                    if o is not None:
                        o = self.leave(b, o, t, success)
                        if o is not None:
                            new.add(o)
                self.c.steps += len(fn.blocks[b].ins)
                if len(new) > 600:
                    raise AnalysisLimit('too many path states in %s' % fn.name)
                if new - edge[b, t]:
                    edge[b, t] |= new
                    work.add(t)
        for b in self.order:
            for s in entering(b):
                o = self.block(b, s, sites)
                if o is not None and fn.blocks[b].term.op == 'ret':
                    out_ret.append((fn.blocks[b].term, o))
        return sites, out_ret

    def pick(self, o, picks):
        """roots of a pointer on this path, and the address it is made from"""
        seen = 0
        while o[0] == 'l' and seen < 50:
            seen += 1
            if o[1] in picks:
                return picks[o[1]]
            d = self.sh.defs.get(o[1])
            if d is not None and d.op == 'phi' and len(d.x) == 2:
                # a pointer that walks through an array
                walk = [v for v in d.x.values() if v[0] == 'l' and (e := self.sh.defs.get(v[1])) is not None and
                        e.op == 'getelementptr' and e.ops[0] == ('l', d.res)]
                if len(walk) == 1:
                    o = next(v for v in d.x.values() if v != walk[0])
                    continue
            if d is None or not (d.op in ('bitcast', 'freeze') or d.op == 'getelementptr' and
                                 all(self.const(k) == 0 for k in d.ops[1:])):
                break
            o = d.ops[0]
        return self.roots(o), o[1] if o[0] == 'l' else None

    def target(self, o, picks):
        """the array a store is made to"""
        d = self.sh.defs.get(o[1]) if o[0] == 'l' else None
        if d is not None and d.op == 'getelementptr':
            return self.pick(d.ops[0], picks)[1]
        return self.pick(o, picks)[1]

    def block(self, b, s, sites=None):
        x, buf, done, cell, succ, picks = s
        pk = dict(picks)
        loads = {}
        for i in self.fn.blocks[b].ins:
            if i.op == 'store':
                e = self.events.get(i)
                if e == 'divide':
                    if x[0] == 'raw' and x[1] != i.loc():
                        x = ('scaled', i.loc()) if x[1] is None else ('mixed', i.loc())
                    elif x != ('scaled', i.loc()):
                        x = ('mixed', i.loc())
                    buf = 'stale'
                elif e == 'multiply':
                    x = ('raw', i.loc()) if x[0] == 'scaled' or x == ('raw', i.loc()) else ('mixed', i.loc())
                    buf = 'stale'
                elif e == 'set':
                    if x[0] == 'raw' and x[1] is not None:
                        x = ('mixed', i.loc())
                    buf = 'stale'
                elif e == 'fill':
                    buf = ('fresh', self.target(i.ops[1], pk))
                r = self.roots(i.ops[1]) - {'null'}
                if 'work' in r and i.ty[0] == 'f':
                    base, off = self.sh.pointer(i.ops[1])
                    if (base, off) == (self.p['work'], 0) or off == 0 and self.pn.get(base) == 'work':
                        cell = ('v', i.ops[0], tuple(sorted(loads.items())))
                        self.lastcell = i
                        if sites is not None:
                            self.final.add(i)
                    elif off is None or not isinstance(base, str) or base != self.p['work']:
                        cell = None
            elif i.op == 'load' and i.ty[0] == 'f':
                base, off = self.sh.pointer(i.ops[0])
                if (base, off) == (self.p['work'], 0) and cell is not None:
                    loads[i.res] = tuple(sorted(self.cellsign(cell)))
            elif i.op == 'call' and evaluation(self.sh, i):
                if sites is not None:
                    sites.append((i, x, buf, self.pick(self.xarg(i), pk)))
                done = True
        return x, buf, done, cell, succ, frozenset(pk.items())

    def cellsign(self, cell):
        return self.sign(cell[1], {k: set(v) for k, v in cell[2]})

    def xarg(self, i):
        for o, a in zip(i.ops, i.x[1] if len(i.x) > 1 else i.ops):
            if self.roots(o) & {'x'} or self.roots(o) & {'work'} and o[0] == 'l':
                return o
        return ('l', '?')

    def leave(self, b, s, t, success):
        x, buf, done, cell, succ, picks = s
        term = self.fn.blocks[b].term
        pk = dict(picks)
        if term.op == 'br' and len(term.x) == 2 and term.x[0] != term.x[1] and term.ops[0][0] == 'l':
            d = self.sh.defs.get(term.ops[0][1])
            truth = t == term.x[0]
            if d is not None and d.op == 'icmp' and d.x in ('eq', 'ne'):
                u, v = d.ops
                if v[0] == 'null' or u[0] == 'null':
                    r = self.pick(u if v[0] == 'null' else v, pk)[0]
                    if r == {'null'} and truth != (d.x == 'eq'):
                        return None
                    if 'null' not in r and truth == (d.x == 'eq'):
                        return None
                if u[0] == 'l' and u[1] in self.status and self.const(v) == success:
                    succ = truth == (d.x == 'eq')
        new = {}
        for p in self.fn.blocks[t].phis:
            if p.res in self.watched:
                new[p.res] = self.pick(p.x[b], pk)
        live = self.fn.blocks[t].live
        pk.update(new)
        need = {k: v for k, v in pk.items() if k in live or k in new or self.keepall}
        # a status that is given a constant
        for p in self.fn.blocks[t].phis:
            if p.res in self.status and self.const(p.x[b]) is not None:
                succ = self.const(p.x[b]) == success
        return x, buf, done, cell, succ, frozenset(need.items())


def coverage(w, i):
    """elements set by a store in a loop that counts up by one: (first index, multiple of N, constant) of the index range;
    None when the loop has another form"""
    sh = w.sh
    d = sh.defs.get(i.ops[1][1]) if i.ops[1][0] == 'l' else None
    if d is None or d.op != 'getelementptr' or len(d.ops) != 2:
        return None

    def lin(o, depth=0):
        """(value, constant): o = value + constant, value None for a plain number"""
        if o[0] == 'k':
            return (None, o[2])
        e = sh.defs.get(o[1]) if o[0] == 'l' else None
        if e is not None and depth < 6:
            if e.op in ('sext', 'zext', 'trunc', 'freeze'):
                return lin(e.ops[0], depth + 1)
            if e.op in ('add', 'sub') and e.ops[1][0] == 'k':
                v, k = lin(e.ops[0], depth + 1)
                return (v, k + e.ops[1][2] * (1 if e.op == 'add' else -1))
        return (o[1] if o[0] == 'l' else '?', 0)
    iv, k = lin(d.ops[1])
    p = sh.defs.get(iv) if iv else None
    if p is None or p.op != 'phi' or len(p.x) != 2:
        return None
    h = p.blk if isinstance(p.blk, str) else p.blk.name
    if h not in w.loops:
        return None
    init = [v for b, v in p.x.items() if b not in w.loops[h]]
    step = [lin(v) for b, v in p.x.items() if b in w.loops[h]]
    t = w.fn.blocks[h].term
    c = sh.defs.get(t.ops[0][1]) if t.op == 'br' and len(t.x) == 2 and t.ops[0][0] == 'l' else None
    if len(init) != 1 or init[0][0] != 'k' or step != [(p.res, 1)] or c is None or c.op != 'icmp' or \
            c.x not in ('slt', 'sle', 'ne') or t.x[0] not in w.loops[h]:
        return None
    a, b = lin(c.ops[0]), lin(c.ops[1])
    if a != (p.res, 0) or b[0] != w.p['n']:
        return None
    # offsets of the array from the start of X
    base, off = sh.pointer(d.ops[0])
    first = init[0][2] + k
    if base == w.p['x']:
        if off is None or off % 8:
            return None
        first += off // 8
    last = b[1] + (1 if c.x == 'sle' else 0) + first - init[0][2]
    return first, last


def index(w, o):
    """(variable, constant, known start) of the element of an array"""
    sh = w.sh
    d = sh.defs.get(o[1]) if o[0] == 'l' else None
    if d is None or d.op != 'getelementptr' or len(d.ops) != 2:
        return None
    k = 0
    v = d.ops[1]
    while v[0] == 'l':
        e = sh.defs.get(v[1])
        if e is not None and e.op in ('sext', 'zext', 'freeze'):
            v = e.ops[0]
        elif e is not None and e.op in ('add', 'sub') and e.ops[1][0] == 'k':
            k += e.ops[1][2] * (1 if e.op == 'add' else -1)
            v = e.ops[0]
        else:
            break
    base, off = sh.pointer(d.ops[0])
    if base in w.pn and off is not None:
        k += off // 8
    return (v, k)


def same_elements(w, i):
    """do the loads of X and SCL in a stored value have the index of the store?"""
    me = index(w, i.ops[1])
    todo, seen = [i.ops[0]], set()
    while todo:
        o = todo.pop()
        if o[0] != 'l' or o[1] in seen or len(seen) > 60:
            continue
        seen.add(o[1])
        d = w.sh.defs.get(o[1])
        if d is None:
            continue
        if d.op == 'load':
            if w.roots(d.ops[0]) - {'null'} in ({'x'}, {'scl'}):
                q = index(w, d.ops[0])
                if me and q and q[0] == me[0] and q[1] != me[1]:
                    return False
        elif d.op in ('fmul', 'fdiv', 'select'):
            todo += list(d.ops)
        elif d.op == 'phi':
            todo += list(d.x.values())
    return True


def user_terms(c, P, alg, maximize, scaled):
    fn = c.func(P, DIRECT[alg])
    c.functions.add(fn.name)
    w = Terms(c, fn, maximize, scaled, P.enums)
    sites, rets = w.run(P.enums[alg.upper() + '_SUCCESS'])
    how = '%s, %s' % ('maximizing' if maximize else 'minimizing', 'with SCL' if scaled else 'without SCL')
    model = {-1 if maximize else 1}
    for i, what, ok in w.uses():
        c.callsites.add(i.loc())
        c.ob('sign ' + what, ok, '%s:%s' % (fn.name, how.split(',')[0]),
             '%s (%s): a value of the objective function is %s with the wrong sign' % (fn.name, how, what), i.loc())
    if scaled:
        for i, e in w.events.items():
            if e != 'set':
                c.ob('same element', same_elements(w, i), '%s:%s' % (fn.name, e),
                     '%s: a variable is scaled by the factor of another one' % fn.name, i.loc())
            q = coverage(w, i) if e != 'set' else None
            if q:
                c.ob('every variable', q == (0, 0), '%s:%s' % (fn.name, e),
                     '%s: not every variable is scaled (from %d to N%+d)' % (fn.name, q[0], q[1] - 1), i.loc())
    for i, x, buf, (r, base) in sites:
        c.callsites.add(i.loc())
        if x[0] == 'scaled':
            ok = buf == ('fresh', base)
        else:
            # BOBYQA has another array for the variables
            ok = x == ('raw', None) and (r - {'null'} == {'x'} or alg == 'bobyqa' and r - {'null'} == {'work'})
        at = w.sh.pointer(('l', base)) if base else (None, None)
        if at[0] == w.p['x'] and at[1]:
            ok = False
        c.ob('point', ok, '%s:%s' % (fn.name, how), '%s (%s): the objective function may not be called with the variables of '
             'the caller (%s, %s, %s)' % (fn.name, how, x[0], buf, '/'.join(sorted(r))), i.loc())
    for t, (x, buf, done, cell, succ, picks) in rets:
        if not done:
            continue
        c.ob('final variables', x[0] == 'raw', '%s:%s' % (fn.name, how),
             '%s (%s): returns with variables which are not in the units of the caller' % (fn.name, how), t.loc())
        if cell is None:
            c.ob('final value', alg == 'bobyqa' and succ is False, '%s:%s' % (fn.name, how),
                 '%s (%s): returns without the function value in WORK[0]' % (fn.name, how), t.loc())
        elif not (alg == 'bobyqa' and succ is False):
            c.ob('final value', w.cellsign(cell) == {1}, '%s:%s' % (fn.name, how),
                 '%s (%s): the function value in WORK[0] has the wrong sign' % (fn.name, how), t.loc())
    if not sites or not any(r[1][2] for r in rets):
        raise Broken('%s never calls the objective function' % fn.name)


@check('W04', TECH + ' (static functions inlined): signs of the function values and units of the variables on every path, '
       'under each assumption about MAXIMIZE and SCL')
def w04(c):
    P = c.lib(build.POWELL, mode='inlined')
    parallel(c, [lambda k, a=(a, m, s): user_terms(k, P, *a) for a in DIRECT for m in (False, True)
                 for s in (False, True)])
    c.require('sign used', 12)
    c.require('point', 12)
    c.require('final variables', 12)
    c.require('final value', 12)
