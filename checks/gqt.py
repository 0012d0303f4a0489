"""Q02: the step of More and Sorensen (opk_dgqt, opk_sgqt) and the smallest singular value (opk_destsv, opk_sestsv)."""
import random
import struct
import sys
from decimal import Decimal, getcontext
from .core import *
from .dense import Mem
from .lcg import num, Undef, PREC

TIE = Decimal(10) ** -35
POINTS = 6
WIDTHS = (1e-7, 1e-9, 1e-12)    # of the boxes
STEPS = 200000                  # of a scene before a smaller box is tried


NOTED = None        # comparisons made by the algorithm: line, outcome and closeness


def cmp(a, b):
    d = a - b
    if NOTED is not None:
        q = abs(d) / (abs(a) + abs(b)) if a or b else 0
        NOTED.add((sys._getframe(1).f_lineno, (d > 0) - (d < 0), 0 if not q else 1 if q < .03 else 2 if q < .12 else
                   3 if q < .3 else 4 if q < .7 else 5))
    if abs(d) <= TIE * (abs(a) + abs(b)):
        return 0
    return 1 if d > 0 else -1


def sign(x, y):
    return x if (cmp(x, 0) < 0) == (cmp(y, 0) < 0) else -x


def norm(v):
    return sum((x * x for x in v), Decimal(0)).sqrt()


def mx(a, b):
    return b if cmp(b, a) > 0 else a


def estsv(R, n, small):
    """the estimate of More and Sorensen: (svmin, z)"""
    z = [Decimal(0)] * n
    e = abs(R[0][0])
    if e == 0:
        z[0] = Decimal(1)
        return Decimal(0), z
    for i in range(n):
        r = R[i][i]
        e = sign(e, -z[i])
        if cmp(abs(e - z[i]), abs(r)) > 0:
            t = small if cmp(abs(r / (e - z[i])), small) > 0 else abs(r / (e - z[i]))
            z = [t * x for x in z]
            e *= t
        w, wm = (Decimal(1),) * 2 if r == 0 else ((e - z[i]) / r, -(e + z[i]) / r)
        s, sm = abs(e - z[i]), abs(e + z[i])
        for j in range(i + 1, n):
            sm += abs(z[j] + wm * R[i][j])
            s += abs(z[j] + w * R[i][j])
        if cmp(s, sm) < 0:
            w = wm
        for j in range(i + 1, n):
            z[j] += w * R[i][j]
        z[i] = w
    yn = norm(z)
    for j in range(n - 1, -1, -1):
        r = R[j][j]
        if cmp(abs(z[j]), abs(r)) > 0:
            t = small if cmp(abs(r / z[j]), small) > 0 else abs(r / z[j])
            z = [t * x for x in z]
            yn *= t
        z[j] = Decimal(1) if r == 0 else z[j] / r
        for i in range(j):
            z[i] -= z[j] * R[i][j]
    zn = 1 / norm(z)
    return yn * zn, [x * zn for x in z]


def lower(R, b, n):
    """R'.y = b"""
    y = []
    for i in range(n):
        y.append((b[i] - sum(R[k][i] * y[k] for k in range(i))) / R[i][i])
    return y


def upper(R, b, n):
    x = [Decimal(0)] * n
    for i in range(n - 1, -1, -1):
        x[i] = (b[i] - sum(R[i][k] * x[k] for k in range(i + 1, n))) / R[i][i]
    return x


def gqt(A_, b, n, delta, rtol, atol, itmax, par, small, svsmall):
    """the algorithm of More and Sorensen: (info, iter, par, x, f)"""
    Z, half = Decimal(0), Decimal('.5')
    S = [[A_[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    parf = xn = rxn = rzn = alpha = Z
    x, z = [Z] * n, [Z] * n
    reduced = False
    row = [sum(abs(v) for v in S[j]) for j in range(n)]
    an = max(row)
    g = [row[j] - abs(S[j][j]) for j in range(n)]
    pars, parl, paru = -an, -an, -an
    for j in range(n):
        pars = mx(pars, -S[j][j])
        parl = mx(parl, S[j][j] + g[j])
        paru = mx(paru, g[j] - S[j][j])
    bd = norm(b) / delta
    parl = mx(mx(bd - parl, pars), Z)
    paru = mx(bd + paru, Z)
    par = mx(par, parl)
    if cmp(par, paru) > 0:
        par = paru
    paru = mx(paru, (1 + rtol) * parl)
    info = it = 0
    while True:
        if cmp(par, pars) <= 0 and cmp(paru, 0) > 0:
            par = ((parl / paru).sqrt() if cmp((parl / paru).sqrt(), small) > 0 else small) * paru
        M = [[S[i][j] + (par if i == j else 0) for j in range(n)] for i in range(n)]
        R = [[Z] * n for _ in range(n)]
        bad = None
        for j in range(n):
            for i in range(j):
                R[i][j] = (M[i][j] - sum(R[k][i] * R[k][j] for k in range(i))) / R[i][i]
            d = M[j][j] - sum(R[k][j] ** 2 for k in range(j))
            if cmp(M[j][j], sum(R[k][j] ** 2 for k in range(j))) <= 0:
                bad, R[j][j] = j, d
                break
            R[j][j] = d.sqrt()
        if bad is None:
            parf = par
            w = lower(R, b, n)
            rxn = norm(w)
            x = [-v for v in upper(R, w, n)]
            xn = norm(x)
            if cmp(abs(xn - delta), rtol * delta) <= 0 or par == 0 and cmp(xn, (1 + rtol) * delta) <= 0:
                info = 1
            rzn, z = estsv(R, n, svsmall)
            if cmp(pars, par - rzn * rzn) < 0:
                pars = par - rzn * rzn
            reduced = False
            if cmp(xn, delta) < 0:
                prod = sum(p * q for p, q in zip(x, z)) / delta
                t = (delta - xn) * (delta + xn) / delta
                alpha = sign(t / (abs(prod) + (prod * prod + t / delta).sqrt()), prod)
                rzn *= abs(alpha)
                t1 = (rzn / delta) ** 2
                reduced = cmp(t1 + par * (xn / delta) ** 2, par) <= 0
                t2 = par + (rxn / delta) ** 2
                if cmp(half * t1, rtol * (1 - half * rtol) * t2) <= 0:
                    info = 1
                elif info == 0 and cmp(half * t2, atol / delta / delta) <= 0:
                    info = 2
                elif cmp(xn, 0) == 0:
                    info = 1
            if cmp(xn, 0) == 0:
                parc = -par
            else:
                parc = (xn - delta) / delta / norm(lower(R, [v / xn for v in x], n)) ** 2
            if cmp(xn, delta) > 0:
                if cmp(parl, par) < 0:
                    parl = par
            if cmp(xn, delta) < 0 and cmp(par, paru) < 0:
                paru = par
        else:
            d = R[bad][bad]
            w = upper(R, [R[k][bad] for k in range(bad)], bad) + [Decimal(-1)]
            parc = -d / norm(w) ** 2
            pars = mx(pars, par + parc if cmp(parc, 0) > 0 else par)
            paru = mx(paru, (1 + rtol) * pars)
        if cmp(parl, pars) < 0:
            parl = pars
        it += 1
        if info == 0:
            if cmp(paru, 0) == 0:
                info = 2
            elif cmp(paru, (1 + half * rtol) * pars) <= 0:
                info = 3
            elif it >= itmax:
                info = 4
        if info:
            par = parf
            if reduced:
                f = -half * (rxn * rxn + par * delta * delta - rzn * rzn)
                x = [p + alpha * q for p, q in zip(x, z)]
            else:
                f = -half * (rxn * rxn + par * xn * xn)
            return info, it, par, x, f
        par = mx(par + parc, parl)


def followed(st, env):
    """is the path the one of this point?"""
    inf = float('inf')
    for t, r in st.fr.items():
        if not isinstance(t, T) or r.lo is None or t.k not in ('fo', 'at', 'ld') or t.k == 'at' and t not in env:
            continue
        try:
            v = num(t, env)
        except Undef:
            return False
        if r.lo != -inf:
            k = cmp(v, Decimal(r.lo))
            if k < 0 or r.lo_o and k == 0:
                return False
        if r.hi != inf:
            k = cmp(v, Decimal(r.hi))
            if k > 0 or r.hi_o and k == 0:
                return False
    for f, k in st.ff.items():
        try:
            a, b = num(f[0], env), num(f[1], env)
        except Undef:
            return False
        d = cmp(a, b)
        if not k & (A.LT if d < 0 else A.GT if d else A.EQ):
            return False
    return True


def nrm2(m):
    def model(eng, st, a, ins):
        n, p, inc = a[:3]
        if not isconst(n) or not isconst(inc) or ival(inc) < 1:
            raise Broken('%s: norm of a vector of unknown size' % ins.loc())
        s = None
        for i in range(max(ival(n), 0)):
            x = m.load_el(eng, st, p, i * ival(inc), ins)
            q = mk('fo', 'fmul', x, x)
            s = q if s is None else mk('fo', 'fadd', s, q)
        if s is None:
            return [(st, F(0.))]
        r = mk('fo', 'sqrt', s)
        return [(st, r)]
    return model


class Ranges:
    """intervals of terms of any depth: those of the boxes, kept, and what the path says of the term; equality of terms"""

    def __init__(self, st, pts):
        self.st, self.memo, self.pts = st, {}, pts
        self.plain, self.mask = A.frange, A.fmask

    def __enter__(self):
        A.frange, A.fmask = self, self.identity
        return self

    def __exit__(self, *x):
        A.frange, A.fmask = self.plain, self.mask

    def identity(self, st, x, y, depth=1):
        """values which are identical (random interpretation) are equal"""
        m = self.mask(st, x, y, depth)
        if m & A.EQ and m & (A.LT | A.GT) and x.k in ('fo', 'at', 'fc') and y.k in ('fo', 'at', 'fc'):
            try:
                if all(cmp(num(x, p), num(y, p)) == 0 for p in self.pts):
                    m &= ~(A.LT | A.GT)
            except Undef:
                pass
        return m

    def box(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.st.fr.get(t, A.FULL)
            if t.k == 'fo':
                q = A.fo_range(self.st, t, 1)
                if q is not A.FULL:
                    r = r.meet(q)
            self.memo[t] = r
        return r

    def __call__(self, st, t, depth=6):
        if t.k == 'fc':
            return self.plain(st, t)
        r = self.box(t)
        q = st.fr.get(t) if st is not self.st else None
        return r if q is None else r.meet(q)


class Step(Mem):
    def __init__(self, c, P, single, name):
        Mem.__init__(self, c, P, single, name)
        self.rng = {}
        self.e.split_bool = True
        self.e.max_steps = STEPS
        self.e.models['opk_%snrm2' % 'ds'[single]] = nrm2(self)

    def load_el(self, eng, st, p, i, ins):
        q = mk('ptr', p.a[0], add(p.a[1], I(self.esz * i)))
        self.cell(q, self.esz, ins, 'reads')
        return self.value(st, p, i)

    def num(self, name, v, width):
        """a value of a box around v, or the constant"""
        if v == 0:
            return F(0.)
        t = fsym(name)
        lo, hi = sorted((v * (1 - width), v * (1 + width)))
        A.set_fr(self.st, t, A.FR(lo, False, hi, False, False))
        self.rng[t] = (lo, hi)
        return t

    def fill(self, p, i, v):
        put(self.e, self.st, p, self.esz * i, v, self.esz)

    def point(self, rnd):
        env = {}
        for t, (lo, hi) in self.rng.items():
            env[t] = Decimal(lo) + (Decimal(hi) - Decimal(lo)) * rnd.randint(1, 10 ** 9 - 1) / 10 ** 9
        return env


def f32(x):
    return Decimal(struct.unpack('f', struct.pack('f', x))[0])


def same(a, b, scale, eps=Decimal(10) ** -25):
    return abs(a - b) <= eps * (abs(a) + abs(b) + scale)


def gqt_scene(c, P, single, tag, n, pad, M, b, par, delta, rtol, atol, itmax, nulls, width):
    getcontext().prec = PREC
    name = 'opk_%sgqt' % 'ds'[single]
    K = Step(c, P, single, name)
    e, st, lda = K.e, K.st, n + pad
    full = [i + j * lda for j in range(n) for i in range(n)]
    a = K.new('a', lda * n, full, full)
    At = {}
    for j in range(n):
        for i in range(j + 1):
            At[i, j] = K.num('A%d%d' % (i, j), M[i][j], width)
            K.fill(a, i + j * lda, At[i, j])
    bp = K.new('b', n, range(n), ())
    bt = [K.num('B%d' % i, b[i], width) for i in range(n)]
    for i in range(n):
        K.fill(bp, i, bt[i])
    w = {k: K.new(k, n, range(n), range(n)) for k in ('x', 'z', 'wa1', 'wa2')}
    dl, rt, at = K.num('delta', delta, width), K.num('rtol', rtol, width), K.num('atol', atol, width)
    pp = fp = ip = NULL
    pt = F(0.)
    if 'p' not in nulls:
        pp = K.new('par', 1, (0,), (0,))
        pt = K.num('par0', par, width)
        K.fill(pp, 0, pt)
    if 'f' not in nulls:
        fp = K.new('f', 1, (), (0,))
    if 'i' not in nulls:
        ip = ext(st, e, '&iter', I(8))
    what = '%s (%s)' % (name, tag)
    with Ranges(K.st.copy(), [K.point(random.Random(k)) for k in (1, 2)]):
        rets = K.run([I(n), a, I(lda), bp, dl, rt, at, I(itmax), pp, fp, w['x'], ip, w['z'], w['wa1'], w['wa2']])
    for why, ins in K.bad:
        c.ob('access', False, name, '%s %s' % (what, why), ins)
    c.ob('access', not K.bad, name, '')
    rnd = random.Random(tag)
    pts = []
    small = f32(.001) if single else Decimal(.001)
    svsmall = f32(.01) if single else Decimal(.01)
    for _ in range(POINTS):
        env = K.point(rnd)
        v = lambda t: num(t, env)
        ref = gqt([[v(At[min(i, j), max(i, j)]) for j in range(n)] for i in range(n)], [v(t) for t in bt], n, v(dl),
                  v(rt), v(at), itmax, v(pt), small, svsmall)
        pts.append((env, ref))
    done = set()
    for s, rv in rets:
        for q, (env, (info, it, par_, x, f)) in enumerate(pts):
            env = dict(env)
            if not followed(s, env):
                continue
            done.add(q)
            ok = isconst(rv) and ival(rv) == info
            c.ob('status', ok, name, '%s: returns %s instead of %d' % (what, ival(rv) if isconst(rv) else 'an unknown value',
                                                                         info))
            if ip is not NULL:
                k = e.read(s, ip, 'i', 8)
                c.ob('iterations', isconst(k) and ival(k) == it, name, '%s: number of iterations stored: %s instead of %d'
                     % (what, ival(k) if isconst(k) else '?', it))
            try:
                got = [num(K.value(s, w['x'], i), env) for i in range(n)]
            except Undef:
                got = [None] * n
            sc = norm(x)
            bad = [i for i in range(n) if got[i] is None or not same(got[i], x[i], sc)]
            c.ob('solution', not bad, '%s:x' % name, '%s: element %d of the solution' % (what, bad[0] + 1 if bad else 0))
            for nm, p, want in (('multiplier', pp, par_), ('value', fp, f)):
                if p is NULL:
                    continue
                try:
                    g = num(K.value(s, p, 0), env)
                except Undef:
                    g = None
                c.ob(nm, g is not None and same(g, want, sc), '%s:%s' % (name, nm), '%s: the %s stored is wrong' % (what, nm))
            bad = []
            for j in range(n):
                for i in range(n):
                    try:
                        if not same(num(K.value(s, a, i + j * lda), env), num(At[min(i, j), max(i, j)], env), 0):
                            bad.append((i, j))
                    except Undef:
                        bad.append((i, j))
            c.ob('restored', not bad, '%s:a' % name, '%s: element %s of the matrix on exit' % (what, bad[:1]))
            # what the documentation says of the solution
            if info in (1, 2) and not bad:
                d, r = num(dl, env), num(rt, env)
                nx = norm(x)
                c.ob('bound', nx <= (1 + r) * d * (1 + TIE), name, '%s: norm of the solution' % what)
    return len(done)


def estsv_scene(c, P, single, tag, n, pad, R, width):
    getcontext().prec = PREC
    name = 'opk_%sestsv' % 'ds'[single]
    K = Step(c, P, single, name)
    ldr = n + pad
    r = K.new('r', ldr * n, [i + j * ldr for j in range(n) for i in range(j + 1)], ())
    Rt = {}
    for j in range(n):
        for i in range(j + 1):
            Rt[i, j] = K.num('R%d%d' % (i, j), R[i][j], width)
            K.fill(r, i + j * ldr, Rt[i, j])
    zp = K.new('z', n, range(n), range(n))
    what = '%s (%s)' % (name, tag)
    with Ranges(K.st.copy(), [K.point(random.Random(k)) for k in (1, 2)]):
        rets = K.run([I(n), r, I(ldr), zp])
    for why, ins in K.bad:
        c.ob('access', False, name, '%s %s' % (what, why), ins)
    c.ob('access', not K.bad, name, '')
    rnd = random.Random(tag)
    svsmall = f32(.01) if single else Decimal(.01)
    eps = Decimal(10) ** -25
    if any(R[i][i] == 0 for i in range(n)):
        eps = Decimal(10) ** (-6 if single else -13)    # products of constants are rounded
    done = set()
    pts = [K.point(rnd) for _ in range(POINTS)]
    for s, rv in rets:
        for q, env in enumerate(pts):
            env = dict(env)
            if not followed(s, env):
                continue
            done.add(q)
            M = [[num(Rt[i, j], env) if j >= i else Decimal(0) for j in range(n)] for i in range(n)]
            sv, z = estsv(M, n, svsmall)
            try:
                got = [num(K.value(s, zp, i), env) for i in range(n)]
                g = num(rv, env)
            except Undef:
                c.ob('singular', False, name, '%s: undefined result' % what)
                continue
            bad = [i for i in range(n) if not same(got[i], z[i], Decimal(1), eps)]
            c.ob('singular', not bad, '%s:z' % name, '%s: element %d of the vector' % (what, bad[0] + 1 if bad else 0))
            c.ob('singular', same(g, sv, Decimal(0), eps), '%s:svmin' % name, '%s: the estimate returned' % what)
            rz = norm([sum(M[i][j] * z[j] for j in range(i, n)) for i in range(n)])
            assert same(rz, sv, norm(M[0])) and same(norm(z), Decimal(1), Decimal(0))
    return len(done)


KINDS = ('definite', 'indefinite', 'negative', 'diagonal', 'weak', 'null', 'edge')


def candidate(rnd, n, kind):
    U = lambda lo=.25, hi=4.: rnd.choice((-1, 1)) * lo * (hi / lo) ** rnd.random()
    M = [[0.] * n for _ in range(n)]
    for j in range(n):
        for i in range(j):
            M[i][j] = M[j][i] = 0. if kind in ('diagonal', 'null') or rnd.random() < .15 else U()
    for j in range(n):
        s = sum(abs(M[i][j]) for i in range(n) if i != j)
        M[j][j] = {'definite': s + abs(U(.5)), 'negative': -s - abs(U(.5)), 'null': 0., 'indefinite': U(1.),
                   'diagonal': U(1.), 'weak': s * rnd.uniform(.6, 1.1) + .05, 'edge': s + U(1e-8, 1e-3)}[kind]
    b = [U() for _ in range(n)]
    z = rnd.random()
    if z < .08:
        b = [0.] * n
    elif z < .25:
        b[rnd.randrange(n)] = 0.
    elif z < .45:
        q = 10 ** rnd.uniform(-9, -1)
        b = [v * q for v in b]
    delta = abs(U(.02, 20.))
    if rnd.random() < .3:
        delta *= 1e-3 if rnd.random() < .3 else max(map(abs, b)) or 1.
    rtol = rnd.choice((1e-1, 1e-2, .3, 1e-6, .5))
    atol = rnd.choice((1e-12, 1e-2, 10., 1e-5)) if rnd.random() < .5 else delta * delta * abs(U(.05, 5.))
    par = rnd.choice((0., 0., .5, 3., 1e-3, 50.)) if rnd.random() < .6 else abs(U(.1, 10.))
    return (M, b, par, delta, rtol, atol, rnd.choice((1, 2, 3, 5)))


def noted(f):
    """the comparisons which the algorithm makes at a point"""
    global NOTED
    NOTED = set()
    try:
        f()
        return NOTED
    except (ArithmeticError, ValueError):
        return set()
    finally:
        NOTED = None


def scenes(c):
    """of random boxes, those where the algorithm compares values in a new way, or closer values"""
    out, seen = [], set()
    getcontext().prec = 20
    D = Decimal
    for n in (1, 2) + ((3, 4) if c.thorough else (3,)):
        for kind in KINDS:
            rnd = random.Random('%d %s' % (n, kind))
            for k in range(c.thorough and 1500 or 250):
                M, b, par, delta, rtol, atol, itmax = q = candidate(rnd, n, kind)
                nulls = rnd.choice(('', '', '', 'p', 'f', 'i', 'pfi'))
                new = noted(lambda: gqt([[D(v) for v in r] for r in M], [D(v) for v in b], n, D(delta), D(rtol), D(atol),
                                        itmax, D(0 if 'p' in nulls else par), D(.001), D(.01)))
                new = {(n, kind) + x for x in new}
                if new - seen or k < 2:
                    seen |= new
                    out.append((n, kind, k, M, b, par, delta, rtol, atol, itmax, nulls))
    getcontext().prec = PREC
    return out


def triangles(c):
    out, seen = [], set()
    getcontext().prec = 20
    rnd = random.Random(11)
    for n in (1, 2, 3) + ((4, 5) if c.thorough else ()):
        for k in range(c.thorough and 1500 or 400):
            lo = rnd.choice((-3, -1, 0))
            R = [[rnd.choice((-1, 1)) * 10 ** rnd.uniform(lo, 1) if rnd.random() > .07 and j >= i else 0. for j in range(n)]
                 for i in range(n)]
            new = noted(lambda: estsv([[Decimal(v) for v in r] for r in R], n, Decimal(.01)))
            new = {(n,) + x for x in new}
            if new - seen:
                seen |= new
                out.append((n, k, R))
    getcontext().prec = PREC
    return out


@check('Q02', 'abstract interpretation of the trust region step and of the estimate of the smallest singular value for given '
              'dimensions and boxes of values; results of each path compared with those of the published algorithm by random '
              'interpretation (identity testing)')
def q02(c):
    P = c.lib(mode='raw')
    jobs = []
    rnd = random.Random(7)
    for q, (n, kind, k, M, b, par, delta, rtol, atol, itmax, nulls) in enumerate(scenes(c)):
        for s in ((False, True) if c.thorough else (bool(q % 2),)):
            jobs.append((gqt_scene, P, s, 'N=%d, %s matrix %d, at most %d iteration(s)' % (n, kind, k + 1, itmax), n,
                         rnd.randrange(2), M, b, par, delta, rtol, atol, itmax, nulls))
    for n, k, R in triangles(c):
        for s in (False, True):
            jobs.append((estsv_scene, P, s, 'N=%d, matrix %d' % (n, k + 1), n, rnd.randrange(2), R))
    step = 8

    def work(c, q):
        for f, *a in q:
            r = -1
            for width in WIDTHS:
                try:
                    r = f(c, *a, width)
                    break
                except AnalysisLimit:
                    pass
            c.ob('followed' if r > 0 else 'skipped', True, 'opk_%s%s' % ('ds'[a[1]], f.__name__[:-6]), '')
    parallel(c, [lambda c, q=jobs[i::step]: work(c, q) for i in range(step)])
    c.require('status', 100)
    c.require('singular', 50)
    c.require('followed', len(jobs) // 2)
