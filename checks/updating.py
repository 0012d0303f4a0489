"""W08: the matrices of NEWUOA and BOBYQA which define the Lagrange functions are updated by Powell's formula."""
import itertools
import random
from decimal import Decimal, getcontext
from .core import *
from .dense import Mem
from .lcg import num, near, Undef, PREC

TRIES = 60


class Update(Mem):
    def __init__(self, c, P, mod, n, npt, knew, idz, zeros, bsign):
        Mem.__init__(self, c, P, False, 'update')
        self.mod = mod
        self.nv, self.npt, self.knew, self.idz = n, npt, knew, idz
        nd, nz = npt + n, npt - n - 1
        al = range(nd * n)
        self.z = self.new('zmat', npt * nz, range(npt * nz), range(npt * nz))
        self.b = self.new('bmat', nd * n, al, al)
        self.v = self.new('vlag', nd, range(nd), range(nd))
        self.w = self.new('w', nd, range(nd), range(nd))
        self.rng = {}
        st, e = self.st, self.e
        # values in small intervals, hence of known order and sign
        rnd = random.Random(hash((n, npt, knew)) & 0xffff)
        self.Z = {}
        order = list(range(npt * nz))
        rnd.shuffle(order)
        for j in range(nz):
            for i in range(npt):
                k = i + j * npt
                if i == knew - 1 and j in zeros:
                    t = F(0.)
                else:
                    t = fsym('z%d_%d' % (i, j))
                    lo = 1 + order[k] / 16.0
                    if i == knew - 1 and knew % 2 == 0 and j == max(set(range(nz)) - zeros):
                        lo /= 2.**40        # a small element still matters
                    self.interval(t, lo, lo * 1.02, (i * 5 + j * 3) % 4 in (1, 2))
                self.Z[i, j] = t
                put(e, st, self.z, 8 * k, t)
        self.B = {}
        for j in range(n):
            for i in range(nd):
                t = fsym('b%d_%d' % ((i, j) if i < npt else (npt + max(i - npt, j), min(i - npt, j))))
                self.interval(t, .5, 2.)
                self.B[i, j] = t
                put(e, st, self.b, 8 * (i + j * nd), t)
        self.V = []
        for i in range(nd):
            t = fsym('v%d' % i)
            self.interval(t, .5, 3.)
            self.V.append(t)
            put(e, st, self.v, 8 * i, t)
        self.beta = fsym('beta')
        self.interval(self.beta, *{1: (.125, 4.), -1: (.01, .02, True), 9: (40., 90.), -9: (40., 90., True)}[bsign])
        self.denom = fsym('denom')
        A.set_fr(st, self.denom, A.FR(1e-3, False, 1e6, False, False))

    def interval(self, t, lo, hi, neg=False):
        if neg:
            lo, hi = -hi, -lo
        A.set_fr(self.st, t, A.FR(lo, False, hi, False, False))
        self.rng[t] = (lo, hi)

    def point(self, rnd):
        return {t: Decimal(lo) + (Decimal(hi) - Decimal(lo)) * rnd.randint(1, 10 ** 9 - 1) / 10 ** 9
                for t, (lo, hi) in self.rng.items()}

    def formula(self, env):
        """(Omega, B) after the update, and the denominator"""
        n, npt, t = self.nv, self.npt, self.knew - 1
        nd, nz = npt + n, npt - n - 1
        Z = {k: num(x, env) for k, x in self.Z.items()}
        B = {k: num(x, env) for k, x in self.B.items()}
        O = {(i, k): sum((-1 if j + 1 < self.idz else 1) * Z[i, j] * Z[k, j] for j in range(nz))
             for i in range(npt) for k in range(npt)}
        v = [num(x, env) for x in self.V]
        tau, beta = v[t], env[self.beta]
        u = [-x for x in v]
        u[t] += 1
        h = [O[i, t] for i in range(npt)] + [B[t, j] for j in range(n)]
        den = O[t, t] * beta + tau * tau
        if den == 0:
            raise Undef

        def new(old, i, k):
            return old + (O[t, t] * u[i] * u[k] - beta * h[i] * h[k] + tau * (h[i] * u[k] + u[i] * h[k])) / den
        return ({(i, k): new(O[i, k], i, k) for i in range(npt) for k in range(npt)},
                {(i, j): new(B[i, j], i, npt + j) for i in range(nd) for j in range(n)}, den)


def holds(st, env):
    for t, r in st.fr.items():
        if not isinstance(t, T) or r.lo is None or t.k not in ('fo', 'at', 'ld') or t.k == 'at' and t not in env:
            continue
        try:
            v = num(t, env)
        except Undef:
            return False
        if r.lo != float('-inf') and (v < Decimal(r.lo) or r.lo_o and v == Decimal(r.lo)):
            return False
        if r.hi != float('inf') and (v > Decimal(r.hi) or r.hi_o and v == Decimal(r.hi)):
            return False
    for f, k in st.ff.items():
        try:
            a, b = num(f[0], env), num(f[1], env)
        except Undef:
            return False
        if not k & (A.LT if a < b else A.GT if a > b else A.EQ):
            return False
    return True


def one(c, mod, n, npt, knew, idz, zeros, bsign):
    getcontext().prec = PREC
    P = c.lib([mod], mode='raw')
    K = Update(c, P, mod, n, npt, knew, idz, zeros, bsign)
    name = '%s:update' % mod
    st = K.st
    I_ = I
    args = [I_(n), I_(npt), K.b, K.z]
    if mod == 'newuoa':
        ip = ext(st, K.e, '&idz', I(8))
        K.e.write(st, ip, I(idz), 8)
        args += [ip, I_(npt + n), K.v, K.beta, I_(knew), K.w]
    else:
        args += [I_(npt + n), K.v, K.beta, K.denom, I_(knew), K.w]
    f = P.func('update', P.module(mod))
    if f is None:
        raise Broken('update not found in ' + mod)
    for i, (ty, nm) in enumerate(f.params):
        if i < len(args) and ty in ('i64', 'i32') and args[i].k == 'ptr':
            raise Broken('unexpected arguments of update in ' + mod)
    try:
        rets = K.e.run(f, args, st)
    except AnalysisLimit:
        if not K.bad:
            raise
        rets = []
    c.done(K.e)
    for why, ins in K.bad:
        c.ob('access', False, name, '%s %s with N=%d, NPT=%d, KNEW=%d' % (name, why, n, npt, knew), ins)
    c.ob('access', not K.bad, name, '')
    nd, nz = npt + n, npt - n - 1
    what = '%s: N=%d NPT=%d KNEW=%d IDZ=%d, zeros %s' % (name, n, npt, knew, idz, sorted(zeros))
    done = 0
    for s, rv in rets:
        j2 = idz
        if mod == 'newuoa':
            x = K.e.read(s, ip, 'i', 8)
            if not isconst(x):
                c.ob('idz', False, name, '%s: unknown IDZ' % what)
                continue
            j2 = ival(x)
        rnd = random.Random(12345)
        got = 0
        for _ in range(TRIES):
            env = K.point(rnd)
            try:
                O, B, den = K.formula(env)
            except Undef:
                continue
            if mod == 'bobyqa' or idz == 1:
                if den <= 0:
                    continue        # only with rounding errors
            if mod == 'bobyqa':
                env[K.denom] = den
            if not holds(s, env):
                continue
            got += 1
            try:
                z = {(i, j): num(K.value(s, K.z, i + j * npt), env) for i in range(npt) for j in range(nz)}
                b = {(i, j): num(K.value(s, K.b, i + j * nd), env) for i in range(nd) for j in range(n)}
            except Undef:
                c.ob('inverse', False, name, '%s: undefined elements' % what)
                break
            bad = [k for k in B if not near(b[k], B[k])]
            c.ob('inverse', not bad, '%s:bmat' % name, '%s: element %s of BMAT is not given by the updating formula'
                 % (what, bad and tuple(x + 1 for x in bad[0])))
            sg = [-1 if j + 1 < j2 else 1 for j in range(nz)]
            bad = [(i, k) for i, k in O if not near(sum(sg[j] * z[i, j] * z[k, j] for j in range(nz)), O[i, k])]
            c.ob('inverse', not bad, '%s:zmat' % name, '%s: element %s of the matrix factored by ZMAT is not given by the '
                 'updating formula' % (what, bad and tuple(x + 1 for x in bad[0])))
            if got >= 2:
                break
        done += got > 0
    c.ob('paths', done > 0, name, '%s: no path is followed' % what)


@check('W08', 'abstract interpretation of the updating procedures for given dimensions; results of each path compared with the '
              'formula by random interpretation (identity testing)')
def w08(c):
    jobs = []
    dims = [(2, 4), (2, 5), (2, 6)] + ([(3, 5), (3, 7), (3, 8)] if c.thorough else [])
    for n, npt in dims:
        nz = npt - n - 1
        for knew in range(1, npt + 1):
            for zeros in ([frozenset(z) for r in range(nz) for z in itertools.combinations(range(nz), r)]):
                jobs.append(('bobyqa', n, npt, knew, 1, zeros, 1))
                jobs.append(('bobyqa', n, npt, knew, 1, zeros, -1))
                for idz in range(1, nz + 1):
                    if not (set(range(0, max(idz - 1, 0))) - zeros) and idz > 1 or \
                            not (set(range(idz - 1, nz)) - zeros):
                        continue        # the row must have an element of each sign
                    for bs in ((1, -1, 9, -9) if idz > 1 else (1, -1)):
                        jobs.append(('newuoa', n, npt, knew, idz, zeros, bs))
    step = 8
    parallel(c, [lambda c, q=jobs[i::step]: [one(c, *a) for a in q] for i in range(step)])
    c.require('inverse', 100)
