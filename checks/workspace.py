"""W05: the arrays in which Powell's solvers divide their workspace are long enough, disjoint and inside of it."""
from .core import *
from engine import absint as A

# lengths of the arrays, as documented by the solvers
N2 = lambda d: d['n'] * (d['n'] + 1) // 2                                        # noqa: E731
NEWUOA = {
    'xbase': lambda d: d['n'], 'xopt': lambda d: d['n'], 'xnew': lambda d: d['n'], 'xpt': lambda d: d['n'] * d['npt'],
    'fval': lambda d: d['npt'], 'gq': lambda d: d['n'], 'hq': N2, 'pq': lambda d: d['npt'],
    'bmat': lambda d: (d['npt'] + d['n']) * d['n'], 'zmat': lambda d: d['npt'] * (d['npt'] - d['n'] - 1),
    'd': lambda d: d['n'], 'vlag': lambda d: d['npt'] + d['n'], 'w': lambda d: 11 * (d['npt'] + d['n'])}
BOBYQA = {k: NEWUOA[k] for k in ('xbase', 'xpt', 'fval', 'xopt', 'hq', 'pq', 'bmat', 'zmat', 'xnew', 'd', 'vlag')}
BOBYQA.update(gopt=NEWUOA['d'], sl=NEWUOA['d'], su=NEWUOA['d'], xalt=NEWUOA['d'],
              w=lambda d: 3 * (d['npt'] + d['n']))
COBYLA = {
    'con': lambda d: d['m'] + 2, 'sim': lambda d: d['n'] * (d['n'] + 1), 'simi': lambda d: d['n']**2,
    'datmat': lambda d: (d['m'] + 2) * (d['n'] + 1), 'a': lambda d: (d['m'] + 1) * d['n'], 'vsig': lambda d: d['n'],
    'veta': lambda d: d['n'], 'sigbar': lambda d: d['n'], 'dx': lambda d: d['n'],
    'w': lambda d: d['n']**2 + 3 * d['n'] + 2 * d['m'] + 2}
IACT = {'iact': lambda d: d['m'] + 1}
# lengths of the workspaces, as documented for the users
TOTAL = {
    'newuoa': lambda d, s: (d['npt'] + 13) * (d['npt'] + d['n']) + 3 * d['n'] * (d['n'] + 3) // 2 + s * d['n'],
    'bobyqa': lambda d, s: (d['npt'] + 5) * (d['npt'] + d['n']) + 3 * d['n'] * (d['n'] + 5) // 2 + s * 3 * d['n'],
    'cobyla': lambda d, s: d['n'] * (3 * d['n'] + 2 * d['m'] + 11) + 4 * d['m'] + 6}


class Done(Exception):
    pass


def number(t, env):
    """value of an integer term for given sizes (None when it depends on something else)"""
    if t.k == 'P':
        r = t.a[0]
        for mono, c in t.a[1]:
            for x in mono:
                v = number(x, env) if not (isinstance(x, T) and x in env) else env[x]
                if v is None:
                    return None
                c = c * v
            r += c
        return r
    if t in env:
        return env[t]
    if t.k == 'iop':
        a = [number(x, env) if isinstance(x, T) else x for x in t.a[1:]]
        if None in a:
            return None
        op = t.a[0]
        if op in ('sdiv', 'udiv'):
            return a[0] // a[1] if a[1] > 0 and a[0] >= 0 else None
        if op in ('srem', 'urem'):
            return a[0] % a[1] if a[1] > 0 and a[0] >= 0 else None
        if op == 'min':
            return min(a)
        if op == 'max':
            return max(a)
        if op in ('sext', 'zext', 'trunc'):
            return a[0]
        if op == 'and':
            return a[0] & a[1]
        if op == 'shl':
            return a[0] << a[1]
        if op in ('ashr', 'lshr'):
            return a[0] >> a[1]
    return None


def sizes(alg, thorough):
    top = 9 if thorough else 6
    if alg == 'cobyla':
        return [{'n': n, 'm': m} for n in range(1, top) for m in range(0, top)]
    return [{'n': n, 'npt': p} for n in range(2, top) for p in range(n + 2, (n + 1) * (n + 2) // 2 + 1)]


def layout(c, alg, where, parts, total, syms, base, elsize=8):
    """parts: {name: (term of its offset in bytes, length)}; total(d): length in bytes from offset `base`(d)"""
    bad = {}
    for d in sizes(alg, c.thorough):
        env = {}
        for k, s in syms.items():
            for mono, _ in s.a[1]:
                env[mono[0]] = d[k]
        at = {}
        for k, (off, length) in parts.items():
            o = number(off, env)
            if o is None:
                raise AnalysisLimit('%s: offset of %s is %s' % (where, k, show(off)))
            at[k] = (o, o + elsize * length(d))
        end = total(d)
        for k, (a, b) in at.items():
            if a < base(d) or b > end:
                bad.setdefault(k, '%s: array %s takes bytes %d to %d of a workspace from %d to %d when %s'
                               % (where, k, a, b, base(d), end, d))
            if a % elsize:
                bad.setdefault(k, '%s: array %s is misaligned when %s' % (where, k, d))
            for l, (e, f) in at.items():
                if k < l and max(a, e) < min(b, f):
                    bad.setdefault(k, '%s: arrays %s and %s overlap by %d bytes when %s'
                                   % (where, k, l, min(b, f) - max(a, e), d))
    for k in parts:
        c.ob('partition', k not in bad, '%s:%s' % (where, k), bad.get(k, ''))


def dims(e, st, alg):
    n, o = isym('n'), isym('m' if alg == 'cobyla' else 'npt')
    A.assume_ic(st, sub(n, I(1 if alg == 'cobyla' else 2)), 6)
    if alg == 'cobyla':
        A.assume_ic(st, o, 6)
        return {'n': n, 'm': o}
    A.assume_ic(st, sub(o, add(n, I(2))), 6)
    return {'n': n, 'npt': o}


def created(c, alg, tables):
    """contexts of the reverse communication versions"""
    P = c.lib([alg])
    name = alg + '_create'
    e = c.engine(P)
    e.malloc_fails = False
    st = State()
    s = dims(e, st, alg)
    rb, re = fsym('rhobeg'), fsym('rhoend')
    for x in (rb, re):
        A.set_fr(st, x, A.FR(1e-300, False, 1e300, False, False))
    fn = c.func(P, name)
    args = {'n': s['n'], 'npt': s.get('npt'), 'm': s.get('m')}
    a = [args['n'], args['npt'] if alg == 'newuoa' else args['m'], rb, re, ZERO, I(100)]
    got = 0
    for s2, v in e.run(fn, a, st):
        if v.k != 'ptr' or v is NULL:
            continue
        got += 1
        size = e.rsize.get(v.a[0])
        if size is None:
            raise Broken('%s: unknown allocation' % name)
        parts = {}
        for table in tables:
            for k, length in table.items():
                try:
                    off = P.offset(alg + '_context_', k)
                except KeyError:
                    continue
                if off is None:
                    continue
                p = get(e, s2, v, off, 'p')
                if p.k != 'ptr' or p.a[0] is not v.a[0]:
                    c.ob('partition', False, '%s:%s' % (name, k), '%s: array %s is not in the block of the context (%s)'
                         % (name, k, show(p)))
                    continue
                parts[k] = (p.a[1], length)
        head = max(m[0] + m[1] for m in P.members(alg + '_context_').values())
        layout(c, alg, name, parts, lambda d: number(size, env_of(s, d)), s, lambda d: head)
    c.done(e)
    if not got:
        raise Broken('%s: no context' % name)


def env_of(syms, d):
    return {mono[0]: d[k] for k, s in syms.items() for mono, _ in s.a[1]}


def direct(c, alg, table):
    """the direct versions: the local variables which designate the arrays, just before the first evaluation"""
    P = c.lib([alg], mode='raw')
    name = alg + '_optimize'
    fn = c.func(P, name)
    for scaled in (0, 1):
        e = c.engine(P)
        st = State()
        s = dims(e, st, alg)
        work = ext(st, e, 'work')
        x = ext(st, e, 'x')
        scl = ext(st, e, 'scl') if scaled else NULL
        rb, re = fsym('rhobeg'), fsym('rhoend')
        for y in (rb, re):
            A.set_fr(st, y, A.FR(1e-300, False, 1e300, False, False))
        found = {}

        def store(eng, st, p, v, size, ins):
            if p.k == 'ptr' and p.a[0].k == 'reg' and p.a[0].a[2] == 'stack' and v.k == 'ptr' and v.a[0] is work.a[0]:
                k = p.a[0].a[0].split('.%')[-1]
                if k in table or k in ('xtmp', 'tmpx', 'tmpxl', 'tmpxu') and p.a[0].a[0].startswith(name):
                    found.setdefault(k, v.a[1])
                    if all(k in found for k in table):
                        raise Done
            return None

        def pointer(eng, st, a, ins):
            raise Done

        def worker(eng, st, a, ins):
            for (ty, nm), v in zip(inner.params, a):
                k = nm[1:]
                if k in table and v.k == 'ptr' and v.a[0] is work.a[0]:
                    found[k] = v.a[1]
            raise Done
        e.on_store.append(store)
        e.models['*'] = pointer
        inner = P.func('bobyqb', P.module('bobyqa')) if alg == 'bobyqa' else None
        if inner is not None:
            e.models['bobyqb'] = worker
        f = mk('ptr', mk('reg', 'objfun', 0, 'ext'), ZERO)
        data = ext(st, e, 'data')
        if alg == 'newuoa':
            a = [s['n'], s['npt'], I(0), f, data, x, scl, rb, re, ZERO, I(100), work]
        elif alg == 'bobyqa':
            a = [s['n'], s['npt'], I(0), f, data, x, ext(st, e, 'xl'), ext(st, e, 'xu'), scl, rb, re, ZERO, I(100), work]
        else:
            a = [s['n'], s['m'], I(0), f, data, x, scl, rb, re, ZERO, I(100), work, ext(st, e, 'iact')]
        try:
            e.run(fn, a, st)
        except Done:
            pass
        c.done(e)
        parts = {k: (o, table[k] if k in table else (lambda d: d['n'])) for k, o in found.items()}
        c.ob('found', True, name)
        layout(c, alg, '%s (%s)' % (name, 'with SCL' if scaled else 'without SCL'), parts,
               lambda d: 8 * TOTAL[alg](d, scaled), s, lambda d: 0)


@check('W05', 'abstract interpretation of the partition of the workspaces (offsets as polynomials of the dimensions), compared '
       'with the documented lengths of the arrays')
def w05(c):
    created(c, 'newuoa', [NEWUOA])
    created(c, 'cobyla', [COBYLA, IACT])
    direct(c, 'newuoa', NEWUOA)
    direct(c, 'bobyqa', BOBYQA)
    direct(c, 'cobyla', COBYLA)
    c.require('partition', 15)
