"""K01, K02: the dense linear algebra kernels check their arguments and compute what they document."""
from itertools import product
from engine import absint as A
from engine.absint import State
from engine.terms import *
from .core import *
from . import realform as R
from .realform import rnf, _add, _mul, freeze

MOD = 'linalg'
NUM = A.NUM


def simp(p):
    """X * 1/X = 1 and sqrt(X)**2 = X"""
    while True:
        for m, k in p.items():
            new = None
            for i, a in enumerate(m):
                if isinstance(a, tuple) and a[0] == 'inv' and len(a[1]) == 1 and len(a[1][0][0]) == 1 and \
                        a[1][0][0][0] in m:
                    r = list(m)
                    r.remove(a)
                    r.remove(a[1][0][0][0])
                    new = {tuple(r): k}
                    break
                if isinstance(a, tuple) and a[0] == 'sqrt' and a in m[i + 1:] and len(a) == 2:
                    r = list(m)
                    r.remove(a)
                    r.remove(a)
                    new = _mul({tuple(r): k}, dict(a[1]))
                    break
            if new is not None:
                q = dict(p)
                del q[m]
                p = _add(q, new)
                break
        else:
            return p


class Mem:
    """the arrays of a call: what may be read, what may be written"""
    mod = MOD

    def __init__(self, c, P, single, name):
        self.c, self.P, self.name = c, P, name
        self.e = c.engine(P)
        self.e.malloc_fails = False
        self.e.merge = None
        self.e.unroll = 400
        self.st = State()
        self.esz = 4 if single else 8
        self.arr = {}
        self.bad = []
        self.n = 0
        self.e.on_store.append(self.store)
        self.e.on_load.append(self.load)

    def new(self, name, size, use, out):
        """use: elements which may be read; out: elements which may be written"""
        p = ext(self.st, self.e, name, I(max(size, 0) * self.esz))
        self.arr[p.a[0]] = (name, size, set(use), set(out))
        for i in range(size):
            v = fsym('%s[%d]' % (name, i))
            A.set_fr(self.st, v, NUM)
            put(self.e, self.st, p, self.esz * i, v, self.esz)
        return p

    def vec(self, name, n, inc, out=False):
        k = abs(inc)
        size = n * k if n > 0 else 0
        idx = [(i * k if inc > 0 else (n - 1 - i) * k) for i in range(max(n, 0))]
        return self.new(name, size, range(size), idx if out else ()), idx

    def mat(self, name, rows, cols, ld, part='all', out=False, diag=True):
        use = [i + j * ld for j in range(cols) for i in range(rows)
               if part == 'all' or (part == 'upper' and i < j) or (part == 'lower' and i > j) or (diag and i == j)]
        return self.new(name, ld * cols, use, use if out else ())

    def cell(self, p, size, ins, what):
        if p.k != 'ptr' or p.a[0] not in self.arr:
            return None
        name, n, use, out = self.arr[p.a[0]]
        self.n += 1
        off = p.a[1]
        if off.a[1] or isinstance(size, T) and (size.k != 'P' or size.a[1]):
            raise Broken('%s: %s %s at an unknown place' % (ins.loc(), what, name))
        sz = size.a[0] if isinstance(size, T) else size
        o = off.a[0]
        if sz <= 0:
            return None
        if o % self.esz or sz % self.esz:
            self.bad.append(('%s %s[%s/%d]' % (what, name, o, self.esz), ins))
            return None
        for i in range(o // self.esz, (o + sz) // self.esz):
            if not 0 <= i < n:
                self.bad.append(('%s %s[%d] out of its %d elements' % (what, name, i, n), ins))
            elif what == 'writes' and i not in out:
                self.bad.append(('writes %s[%d], which is not part of the result' % (name, i), ins))
            elif what == 'reads' and i not in use:
                self.bad.append(('reads %s[%d], which must not be referenced' % (name, i), ins))

    def store(self, eng, st, p, v, size, ins):
        self.cell(p, size, ins, 'writes')

    def load(self, eng, st, p, ty, size, v, ins):
        self.cell(p, size, ins, 'reads')

    def run(self, args):
        f = self.c.func(self.P, self.name, self.mod)
        try:
            r = self.e.run(f, args, self.st)
        except (A.AnalysisLimit, Broken):
            if not self.bad:
                raise
            r = []
        self.c.done(self.e)
        return r

    def value(self, st, p, i):
        return get(self.e, st, p, self.esz * i, 'f', self.esz)

    def same(self, st, p, i):
        """is the element unchanged?"""
        return self.value(st, p, i) is fsym('%s[%d]' % (self.arr[p.a[0]][0], i))


def facts(st):
    """what a path knows of the values"""
    def leaf(t):
        if t.k in ('at', 'fo') and (t.k == 'fo' or t.a[1] == 'f'):
            r = A.frange(st, t)
            if r.lo is not None and r.lo == r.hi and not r.nan:
                return F(r.lo)
            if t.k == 'fo' and t.a[0] == 'fabs':
                s = A.frange(st, t.a[1])
                if not s.nan and s.lo is not None and s.lo >= 0:
                    return rnf(t.a[1], leaf)
                if not s.nan and s.hi is not None and s.hi <= 0:
                    return R._scale(rnf(t.a[1], leaf), -1)
        return None
    return leaf


def el(a, i):
    return fsym('%s[%d]' % (a, i))


class Look:
    """values of the reference on a path"""

    def __init__(self, st):
        self.st = st
        self.leaf = facts(st)

    def __call__(self, t):
        return simp(rnf(t, self.leaf))

    def const(self, t):
        r = A.frange(self.st, t)
        return r.lo if r.lo is not None and r.lo == r.hi and not r.nan else None


def lin(*terms):
    p = {}
    for x in terms:
        p = _add(p, x)
    return p


def report(c, m, tag, rets):
    for msg, ins in m.bad:
        c.bad('access', '%s:%s' % (m.name, msg.split('[')[0]), '%s: %s %s' % (tag, m.name, msg), ins.loc())
    c.obs += m.n
    c.rules['access'] = c.rules.get('access', 0) + m.n
    c.ob('returns', bool(rets) or bool(m.bad), m.name, '%s never returns' % tag)


# --------------------------------------------------------------------------------------------------- level 1
def level1(c, P, single, name, n, ix, iy):
    pre = 'opk_s' if single else 'opk_d'
    fn = ('opk_is' if single else 'opk_id') + 'amax' if name == 'iamax' else pre + name
    m = Mem(c, P, single, fn)
    tag = '%s(n=%d,incx=%d%s)' % (fn, n, ix, ',incy=%d' % iy if iy is not None else '')
    out = {'swap': 'xy', 'scal': 'x', 'copy': 'y', 'axpy': 'y', 'zero': 'x'}.get(name, '')
    x, X = m.vec('x', n, ix or 1, 'x' in out and ix)
    y, Y = m.vec('y', n, iy, 'y' in out) if iy is not None else (None, [])
    a = fsym('alpha')
    A.set_fr(m.st, a, NUM)
    args = [I(n)]
    if name in ('axpy', 'scal'):
        args.append(a)
    args += [x, I(ix)]
    if iy is not None:
        args += [y, I(iy)]
    rets = m.run(args)
    report(c, m, tag, rets)
    only = ix >= 1 or name not in ('amax', 'asum', 'sum', 'nrm2', 'scal', 'zero', 'iamax')
    N = n if only else 0
    for st, v in rets:
        L = Look(st)
        xs = [el('x', i) for i in X][:max(N, 0)]
        want = {}
        for i in range(max(N, 0)):
            ex = L(el('x', X[i]))
            ey = L(el('y', Y[i])) if Y else None
            if name == 'swap':
                want[(x, X[i])], want[(y, Y[i])] = ey, ex
            elif name == 'copy':
                want[(y, Y[i])] = ex
            elif name == 'scal':
                want[(x, X[i])] = _mul(L(a), ex)
            elif name == 'axpy':
                want[(y, Y[i])] = _add(_mul(L(a), ex), ey)
            elif name == 'zero':
                want[(x, X[i])] = {}
        settle(c, m, st, L, want, fn, tag)
        if name in ('dot', 'sum', 'asum'):
            w = {}
            for i in range(max(N, 0)):
                e = el('x', X[i])
                w = _add(w, _mul(L(e), L(el('y', Y[i]))) if name == 'dot' else L(e) if name == 'sum' else
                         L(mk('fo', 'fabs', e)))
            c.ob('value', L(v) == w, fn, '%s returns %s' % (tag, show(v)), '')
        elif name in ('amax', 'nrm2') and not xs:
            c.ob('value', L(v) == {}, fn, '%s returns %s instead of 0' % (tag, show(v)))
        elif name == 'iamax' and not xs:
            c.ob('value', v is ZERO, fn, '%s returns %s instead of 0' % (tag, show(v)))
        elif name == 'nrm2':
            g = L(v)
            w = {}
            for e in xs:
                w = _add(w, _mul(L(e), L(e)))
            if g == {}:
                c.ob('value', null(st, xs), fn, '%s may return 0 for a vector which is not zero' % tag)
            else:
                c.ob('value', simp(_mul(g, g)) == w, fn, '%s returns %s' % (tag, show(v)))
        elif name == 'amax':
            ab = [mk('fo', 'fabs', e) for e in xs]
            D = dominance(st, xs, [v])
            ok = all(D(v, w) for w in ab) and (any(D(w, v) for w in ab))
            c.ob('value', ok, fn, '%s returns %s, which may differ from the largest absolute value' % (tag, show(v)))
        elif name == 'iamax':
            if v.k != 'P' or v.a[1] or not 1 <= v.a[0] <= n:
                c.ob('value', False, fn, '%s returns %s' % (tag, show(v)))
                continue
            k = v.a[0] - 1
            ab = [mk('fo', 'fabs', e) for e in xs]
            D = dominance(st, xs, [])
            bad = [i for i in range(n) if i != k and not D(ab[k], ab[i], i < k)]
            c.ob('value', not bad, fn, '%s returns %d whereas element %d may be %s' %
                 (tag, k + 1, bad[0] + 1 if bad else 0, 'the first of the largest'))


def null(st, xs):
    D = dominance(st, xs, [])
    z = F(0.0)
    return all(D(z, e) and D(e, z) for e in xs)


def dominance(st, xs, more):
    """u >= v (or u > v) from the facts of the path: closure over the elements, their opposites and absolute values"""
    z = F(0.0)
    more = [z if w.k == 'fc' and fval(w) == 0 else w for w in more]
    nodes = [z] + list(more)
    for e in xs:
        nodes += [e, mk('fo', 'fneg', e), mk('fo', 'fabs', e)]
    extra = [t for f in list(st.ff) + list(st.fr) for t in ([f] if isinstance(f, T) else f if isinstance(f, tuple) else [])
             if isinstance(t, T) and t.k in ('at', 'fo')]
    for t in extra:
        if t not in nodes:
            nodes.append(t)
    neg = {}
    for i, u in enumerate(nodes):
        for j, w in enumerate(nodes):
            if w.k == 'fo' and w.a[0] == 'fneg' and w.a[1] is u:
                neg[i], neg[j] = j, i
    neg[0] = 0
    n = len(nodes)
    G = [[0] * n for _ in range(n)]           # 0 unknown, 1 >=, 2 >
    for i in range(n):
        for j in range(n):
            if i == j:
                G[i][j] = 1
                continue
            k = A.fmask(st, nodes[i], nodes[j])
            if not k & (A.LT | A.UN):
                G[i][j] = 1 if k & A.EQ else 2
    for i, w in enumerate(nodes):
        if w.k == 'fo' and w.a[0] == 'fabs':
            for j, u in enumerate(nodes):
                if u is w.a[1]:
                    G[i][j] = max(G[i][j], 1)
                    if j in neg:
                        G[i][neg[j]] = max(G[i][neg[j]], 1)
            G[i][0] = max(G[i][0], 1)
    ch = True
    while ch:
        ch = False
        for k in range(n):
            for i in range(n):
                if not G[i][k]:
                    continue
                for j in range(n):
                    if G[k][j]:
                        s = max(G[i][k], G[k][j])
                        if s > G[i][j]:
                            G[i][j] = s
                            ch = True
        for i in neg:
            for j in neg:
                if G[i][j] > G[neg[j]][neg[i]]:
                    G[neg[j]][neg[i]] = G[i][j]
                    ch = True
        for i, w in enumerate(nodes):
            if w.k == 'fo' and w.a[0] == 'fabs' and w.a[1] in nodes:
                j = nodes.index(w.a[1])
                if j in neg:
                    for q in range(n):
                        s = min(G[q][j], G[q][neg[j]])
                        if s > G[q][i]:
                            G[q][i] = s
                            ch = True
    idx = {t: i for i, t in enumerate(nodes)}

    def D(u, v, strict=False):
        u, v = (z if w.k == 'fc' and fval(w) == 0 else w for w in (u, v))
        return G[idx[u]][idx[v]] >= (2 if strict else 1)
    return D


def settle(c, m, st, L, want, fn, tag, outs=None):
    """every element of every array has the value it must have at the return"""
    for r, (name, size, use, out) in m.arr.items():
        p = mk('ptr', r, ZERO)
        for i in range(size):
            w = next((w for (q, j), w in want.items() if q.a[0] is r and j == i), None)
            if w is None:
                c.ob('kept', m.same(st, p, i), '%s:%s' % (fn, name), '%s changes %s[%d]' % (tag, name, i))
            else:
                v = m.value(st, p, i)
                c.ob('value', vclass(v) and L(v) == simp(w), '%s:%s' % (fn, name),
                     '%s leaves %s[%d] = %s' % (tag, name, i, show(v)))


def vclass(v):
    return isinstance(v, T) and v.k in ('fc', 'fo', 'at', 'ld')


# --------------------------------------------------------------------------------------------------- levels 2, 3
def trs(P, which):
    return I(P.enums['OPK_BLAS_' + which])


def scal2(m):
    al, be = fsym('alpha'), fsym('beta')
    A.set_fr(m.st, al, NUM)
    A.set_fr(m.st, be, NUM)
    return al, be


def gemv(c, P, single, tr, mm, nn, ld, ix, iy):
    fn = 'opk_%sgemv' % 'ds'[single]
    m = Mem(c, P, single, fn)
    tag = '%s(%s,m=%d,n=%d,lda=%d,incx=%d,incy=%d)' % (fn, tr, mm, nn, ld, ix, iy)
    al, be = scal2(m)
    lx, ly = (nn, mm) if tr == 'NO_TRANS' else (mm, nn)
    a = m.mat('a', mm, nn, ld)
    x, X = m.vec('x', lx, ix)
    y, Y = m.vec('y', ly, iy, True)
    rets = m.run([trs(P, tr), I(mm), I(nn), al, a, I(ld), x, I(ix), be, y, I(iy)])
    report(c, m, tag, rets)
    for st, v in rets:
        c.ob('code', v is ZERO, fn, '%s returns %s for valid arguments' % (tag, show(v)))
        L = Look(st)
        want = {}
        if mm and nn:
            for i in range(ly):
                s = {}
                for j in range(lx):
                    r, k = (i, j) if tr == 'NO_TRANS' else (j, i)
                    s = _add(s, _mul(L(el('a', r + k * ld)), L(el('x', X[j]))))
                want[(y, Y[i])] = lin(_mul(L(al), s), _mul(L(be), L(el('y', Y[i]))))
        settle(c, m, st, L, want, fn, tag)


def tri(P, up, i, j, dg, ld, L):
    """element (i,j) of a triangular matrix"""
    if i == j:
        return {(): 1} if dg == 'UNIT' else L(el('a', i + j * ld))
    if (up == 'UPPER') != (i < j):
        return {}
    return L(el('a', i + j * ld))


def trmv(c, P, single, up, tr, dg, n, ld, ix):
    fn = 'opk_%strmv' % 'ds'[single]
    m = Mem(c, P, single, fn)
    tag = '%s(%s,%s,%s,n=%d,lda=%d,incx=%d)' % (fn, up, tr, dg, n, ld, ix)
    a = m.mat('a', n, n, ld, up.lower(), diag=dg != 'UNIT')
    x, X = m.vec('x', n, ix, True)
    rets = m.run([trs(P, up), trs(P, tr), trs(P, dg), I(n), a, I(ld), x, I(ix)])
    report(c, m, tag, rets)
    for st, v in rets:
        c.ob('code', v is ZERO, fn, '%s returns %s for valid arguments' % (tag, show(v)))
        L = Look(st)
        want = {}
        for i in range(n):
            s = {}
            for j in range(n):
                r, k = (i, j) if tr == 'NO_TRANS' else (j, i)
                s = _add(s, _mul(tri(P, up, r, k, dg, ld, L), L(el('x', X[j]))))
            want[(x, X[i])] = s
        settle(c, m, st, L, want, fn, tag)


class Outs(Look):
    """values in which the results already known are atoms of their own"""

    def __init__(self, st, outs):
        super().__init__(st)
        self.outs = outs
        self.skip = None
        base = self.leaf

        def leaf(t):
            if t is self.skip:
                return None
            r = base(t)
            if r is None and t in outs:
                return R.atom(('out', outs[t]))
            return r
        self.leaf = leaf

    def of(self, t):
        """the value of a result, from the other ones"""
        self.skip = t if t.k == 'fo' else None
        r = simp(rnf(t, self.leaf))
        self.skip = None
        return r

    def name(self, t):
        r = self.leaf(t)
        return simp(r if isinstance(r, dict) else rnf(t, self.leaf))


def trsv(c, P, single, up, tr, dg, n, ld, ix):
    fn = 'opk_%strsv' % 'ds'[single]
    m = Mem(c, P, single, fn)
    tag = '%s(%s,%s,%s,n=%d,lda=%d,incx=%d)' % (fn, up, tr, dg, n, ld, ix)
    a = m.mat('a', n, n, ld, up.lower(), diag=dg != 'UNIT')
    x, X = m.vec('x', n, ix, True)
    rets = m.run([trs(P, up), trs(P, tr), trs(P, dg), I(n), a, I(ld), x, I(ix)])
    report(c, m, tag, rets)
    for st, v in rets:
        c.ob('code', v is ZERO, fn, '%s returns %s for valid arguments' % (tag, show(v)))
        xs = [m.value(st, x, k) for k in X]
        L = Outs(st, {t: i for i, t in enumerate(xs) if vclass(t) and t.k == 'fo'})
        for i in range(n):
            num = L(el('x', X[i]))
            for j in range(n):
                if j != i:
                    r, k = (i, j) if tr == 'NO_TRANS' else (j, i)
                    num = _add(num, _mul(tri(P, up, r, k, dg, ld, L), L.name(xs[j])), -1)
            num = simp(num)
            if not vclass(xs[i]):
                ok = False
            else:
                got = L.of(xs[i])
                d = {(): 1} if dg == 'UNIT' else L(el('a', i + i * ld))
                zero = L.name(xs[i]) == {}
                ok = simp(_mul(got, d)) == num or (zero and got == num) or \
                    got == simp(_mul(num, inverse(d)))
            c.ob('value', ok, fn, '%s leaves x[%d] = %s' % (tag, i, show(xs[i])))
        for i in range(ld * n):
            c.ob('kept', m.same(st, a, i), fn + ':a', '%s changes a[%d]' % (tag, i))
        for i in set(range(n * abs(ix))) - set(X):
            c.ob('kept', m.same(st, x, i), fn + ':x', '%s changes x[%d]' % (tag, i))


def inverse(d):
    """1/d for a single atom or a constant"""
    if len(d) != 1:
        return {}
    (mm, k), = d.items()
    if not mm:
        return {(): 1 / k}
    return {(('inv', freeze({mm: 1})),): 1 / k}


def mentions(t, name, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return False
    seen.add(t)
    if t.k == 'at' and t.a[0].startswith(name + '['):
        return True
    return t.k == 'fo' and any(mentions(x, name, seen) for x in t.a[1:])


def gemm(c, P, single, ta, tb, mm, nn, kk, pad):
    fn = 'opk_%sgemm' % 'ds'[single]
    m = Mem(c, P, single, fn)
    ra, ca = (mm, kk) if ta == 'NO_TRANS' else (kk, mm)
    rb, cb = (kk, nn) if tb == 'NO_TRANS' else (nn, kk)
    la, lb, lc = max(1, ra) + pad, max(1, rb) + 2 * pad, max(1, mm) + pad
    tag = '%s(%s,%s,m=%d,n=%d,k=%d,lda=%d,ldb=%d,ldc=%d)' % (fn, ta, tb, mm, nn, kk, la, lb, lc)
    al, be = scal2(m)
    a, b = m.mat('a', ra, ca, la), m.mat('b', rb, cb, lb)
    C = m.mat('c', mm, nn, lc, out=True)
    rets = m.run([trs(P, ta), trs(P, tb), I(mm), I(nn), I(kk), al, a, I(la), b, I(lb), be, C, I(lc)])
    report(c, m, tag, rets)
    for st, v in rets:
        c.ob('code', v is ZERO, fn, '%s returns %s for valid arguments' % (tag, show(v)))
        L = Look(st)
        want = {}
        for i in range(mm):
            for j in range(nn):
                s = {}
                for l in range(kk):
                    x = el('a', i + l * la if ta == 'NO_TRANS' else l + i * la)
                    y = el('b', l + j * lb if tb == 'NO_TRANS' else j + l * lb)
                    s = _add(s, _mul(L(x), L(y)))
                want[(C, i + j * lc)] = lin(_mul(L(al), s), _mul(L(be), L(el('c', i + j * lc))))
        settle(c, m, st, L, want, fn, tag)
        if L.const(be) == 0:
            for (q, i) in want:
                t = m.value(st, C, i)
                c.ob('unset', not mentions(t, 'c'), fn, '%s uses c[%d] whereas beta is zero (%s)' % (tag, i, show(t)))


def syrk(c, P, single, up, tr, n, k, pad):
    fn = 'opk_%ssyrk' % 'ds'[single]
    m = Mem(c, P, single, fn)
    ra, ca = (n, k) if tr == 'NO_TRANS' else (k, n)
    la, lc = max(1, ra) + pad, max(1, n) + 2 * pad
    tag = '%s(%s,%s,n=%d,k=%d,lda=%d,ldc=%d)' % (fn, up, tr, n, k, la, lc)
    al, be = scal2(m)
    a = m.mat('a', ra, ca, la)
    C = m.mat('c', n, n, lc, up.lower(), True)
    rets = m.run([trs(P, up), trs(P, tr), I(n), I(k), al, a, I(la), be, C, I(lc)])
    report(c, m, tag, rets)
    for st, v in rets:
        c.ob('code', v is ZERO, fn, '%s returns %s for valid arguments' % (tag, show(v)))
        L = Look(st)
        want = {}
        for i in range(n):
            for j in range(n):
                if not (i <= j if up == 'UPPER' else i >= j):
                    continue
                s = {}
                for l in range(k):
                    x, y = (i + l * la, j + l * la) if tr == 'NO_TRANS' else (l + i * la, l + j * la)
                    s = _add(s, _mul(L(el('a', x)), L(el('a', y))))
                want[(C, i + j * lc)] = lin(_mul(L(al), s), _mul(L(be), L(el('c', i + j * lc))))
        settle(c, m, st, L, want, fn, tag)


def potf2(c, P, single, up, n, ld):
    fn = 'opk_%spotf2' % 'ds'[single]
    m = Mem(c, P, single, fn)
    tag = '%s(%s,n=%d,lda=%d)' % (fn, up, n, ld)
    a = m.mat('a', n, n, ld, up.lower(), True)
    rets = m.run([trs(P, up), I(n), a, I(ld)])
    report(c, m, tag, rets)
    good = 0
    for st, v in rets:
        if v.k != 'P' or v.a[1] or not 0 <= v.a[0] <= n:
            c.ob('code', False, fn, '%s returns %s' % (tag, show(v)))
            continue
        info = v.a[0]
        last = n if info == 0 else info - 1           # columns known to be done
        good += info == 0

        def at(i, j):                                 # factor, i <= j (rows of U, columns of L)
            return i + j * ld if up == 'UPPER' else j + i * ld
        outs, val = {}, {}
        for i in range(last):
            for j in range(i, n):
                t = val[i, j] = m.value(st, a, at(i, j))
                if vclass(t) and t.k == 'fo':
                    outs[t] = (i, j)
        L = Outs(st, outs)

        def rest(i, j):
            s = L(el('a', at(i, j)))
            for k in range(i):
                s = _add(s, _mul(L.name(val[k, i]), L.name(val[k, j])), -1)
            return simp(s)
        for i in range(last):
            d = val[i, i]
            ok = vclass(d) and d.k == 'fo' and d.a[0] == 'sqrt' and L(d.a[1]) == rest(i, i)
            c.ob('value', ok, fn, '%s leaves %s on the diagonal (%d)' % (tag, show(d), i))
            if not ok:
                break
            r = A.frange(st, d.a[1])
            c.ob('definite', r.lo is not None and r.lo >= 0 and (r.lo > 0 or r.lo_o), fn,
                 '%s takes the square root of %s which may be negative or divides by zero' % (tag, show(d.a[1])))
            for j in range(i + 1, n):
                num = rest(i, j)
                t = val[i, j]
                iv = next((L.const(q) for q in st.fr if isinstance(q, T) and q.k == 'fo' and q.a[0] == 'fdiv' and
                           q.a[1] is F(1.0) and q.a[2] is d and L.const(q) is not None), None)
                got = L.of(t) if vclass(t) else None
                ok = got is not None and (got == simp(_mul(num, inverse(L.name(d)))) or
                                          iv is not None and got == (R._scale(num, iv) if iv else {}))
                c.ob('value', ok, fn, '%s leaves %s as element (%d,%d)' % (tag, show(t), i, j))
        if info:
            w = rest(last, last)
            ok = any(vclass(t) and r.hi is not None and r.hi <= 0 and not r.nan and L.of(t) == w
                     for t, r in st.fr.items() if isinstance(t, T))
            c.ob('definite', ok, fn, '%s returns %d whereas the minor of this order may be positive' % (tag, info))
    c.ob('definite', good > 0, fn, '%s never succeeds' % tag)


# --------------------------------------------------------------------------------------------------- jobs
def split(c, jobs):
    """jobs in slices, so that the workers get similar loads"""
    k = 48
    sl = [jobs[i::k] for i in range(k)]
    parallel(c, [(lambda c, s=s: [f(c, *a) for f, *a in s]) for s in sl if s])


@check('K02', 'abstract interpretation of the kernels for given dimensions and increments and any contents (real '
       'arithmetic; identities of polynomials of the elements); no solver')
def k02(c):
    P = c.lib()
    jobs = []
    N = (0, 1, 2, 3, 4) + ((5,) if c.thorough else ())
    T2 = ('NO_TRANS', 'TRANS', 'CONJ_TRANS')
    for s in (False, True):
        incs = (1, 2, 3, -1, -2)
        for nm in ('swap', 'copy', 'axpy', 'dot'):
            for n in (-1, 0, 1, 2, 3):
                for ix, iy in product(incs, incs):
                    jobs.append((level1, P, s, nm, n, ix, iy))
            for n in (4, 5, 6, 7, 8, 9, 11, 12, 16, 17):
                jobs.append((level1, P, s, nm, n, 1, 1))
                if n < 6:
                    for ix, iy in ((1, 2), (2, 1), (2, 2), (-1, 1), (-1, -1)):
                        jobs.append((level1, P, s, nm, n, ix, iy))
        for nm in ('asum', 'sum', 'scal', 'zero'):
            for n in (-1, 0, 1, 2, 3, 4, 5):
                for ix in (1, 2, 3, 0, -1):
                    jobs.append((level1, P, s, nm, n, ix, None))
            if nm != 'asum':
                for n in (6, 7, 8, 9, 11, 12, 16, 17):
                    jobs.append((level1, P, s, nm, n, 1, None))
        for nm in ('amax', 'nrm2', 'iamax'):
            for n in (-1, 0, 1, 2, 3) + ((4,) if c.thorough else ()):
                for ix in (1, 2, 3, 0, -1):
                    jobs.append((level1, P, s, nm, n, ix, None))
        for tr in T2:
            for mm, nn in product(N, N):
                for ld, ix, iy in ((0, 1, 1), (1, 2, 1), (0, 1, 2), (1, -1, 2), (0, 2, -1), (2, 1, -2), (1, -2, -2)):
                    jobs.append((gemv, P, s, tr, mm, nn, max(1, mm) + ld, ix, iy))
        for up, tr, dg, n in product(('UPPER', 'LOWER'), T2, ('UNIT', 'NON_UNIT'), N):
            for ld, ix in ((0, 1), (1, 2), (1, -1), (0, -2)):
                jobs.append((trmv, P, s, up, tr, dg, n, max(1, n) + ld, ix))
                jobs.append((trsv, P, s, up, tr, dg, n, max(1, n) + ld, ix))
        for ta, tb in product(T2, T2):
            for mm, nn, kk in list(product((0, 1, 2), repeat=3)) + (
                    [d for d in product((0, 1, 2, 3), repeat=3) if 3 in d] if c.thorough else
                    [(3, 2, 1), (2, 1, 3), (1, 3, 2), (3, 1, 2), (1, 3, 1), (1, 1, 3)]):
                for pad in (0, 1):
                    jobs.append((gemm, P, s, ta, tb, mm, nn, kk, pad))
        for up, tr in product(('UPPER', 'LOWER'), T2):
            for n, k in product((0, 1, 2, 3), (0, 1, 2) + ((3,) if c.thorough else ())):
                for pad in (0, 1):
                    jobs.append((syrk, P, s, up, tr, n, k, pad))
        for up in ('UPPER', 'LOWER'):
            for n in (0, 1, 2, 3) + ((4,) if c.thorough else ()):
                for pad in (0, 1):
                    jobs.append((potf2, P, s, up, n, max(1, n) + pad))
    jobs.sort(key=lambda j: str(j[2:]))
    split(c, jobs)
    c.require('value', 5000)
    c.require('access', 5000)
    c.assume.append('real arithmetic; the elements are not NaN')


# --------------------------------------------------------------------------------------------------- arguments (K01)
# name: arguments; E:x an enumerated one, D:x a dimension, L:x:rows a leading dimension, P an array, S a scalar,
# X an increment
FORM = {
    'gemv': ['E:TRANS', 'D:m', 'D:n', 'S', 'P', 'L:m', 'P', 'X', 'S', 'P', 'X'],
    'trmv': ['E:UPLO', 'E:TRANS', 'E:DIAG', 'D:n', 'P', 'L:n', 'P', 'X'],
    'trsv': ['E:UPLO', 'E:TRANS', 'E:DIAG', 'D:n', 'P', 'L:n', 'P', 'X'],
    'gemm': ['E:TRANS', 'E:TRANS', 'D:m', 'D:n', 'D:k', 'S', 'P', 'L:m/k', 'P', 'L:k/n', 'S', 'P', 'L:m'],
    'syrk': ['E:UPLO', 'E:TRANS', 'D:n', 'D:k', 'S', 'P', 'L:n/k', 'S', 'P', 'L:n'],
    'potf2': ['E:UPLO', 'D:n', 'P', 'L:n'],
}
GOOD = {'TRANS': ['NO_TRANS', 'TRANS', 'CONJ_TRANS'], 'UPLO': ['UPPER', 'LOWER'], 'DIAG': ['UNIT', 'NON_UNIT']}


def refusals(c, P, single, name):
    """every combination of valid and invalid arguments with at least one invalid"""
    fn = 'opk_%s%s' % ('ds'[single], name)
    form = FORM[name]
    alts = []
    for f in form:
        k = f.split(':')
        if k[0] == 'E':
            alts.append(GOOD[k[1]] + ['?'])
        elif k[0] == 'D':
            alts.append(['-', '0', '+'])
        elif k[0] == 'L':
            alts.append(['<1', '<rows', 'ok'])
        elif k[0] == 'X':
            alts.append(['0', '!0'])
        else:
            alts.append([''])
    func = c.func(P, fn, MOD)
    for cell in product(*alts):
        wrong = [i + 1 for i, v in enumerate(cell) if v in ('?', '-', '<1', '<rows') or form[i] == 'X' and v == '0']
        if not wrong:
            continue
        e = c.engine(P)
        e.malloc_fails = False
        st = State()
        touched = []
        args, dim = [], {}
        ok = True
        regs = set()
        tr = []
        for i, (f, v) in enumerate(zip(form, cell)):
            k = f.split(':')
            s = isym('arg%d' % (i + 1))
            if k[0] == 'E':
                if v == '?':
                    for g in GOOD[k[1]]:
                        ok &= A.assume_ic(st, sub(s, trs(P, g)), 5)
                    args.append(s)
                else:
                    args.append(trs(P, v))
                if k[1] == 'TRANS':
                    tr.append(v)
            elif k[0] == 'D':
                ok &= A.assume_ic(st, s, {'-': 1, '0': 2, '+': 4}[v])
                args.append(ZERO if v == '0' else s)
                dim[k[1]] = args[-1]
            elif k[0] == 'L':
                r = k[1].split('/')
                which = len([q for q in form[:i] if q[:2] == 'L:'])
                t = tr[which] if which < len(tr) and name == 'gemm' else tr[0] if tr else 'NO_TRANS'
                rows = dim[r[0] if len(r) == 1 or t == 'NO_TRANS' else r[1]]
                if v == '<1':
                    ok &= A.assume_ic(st, s, 3)
                else:
                    ok &= A.assume_ic(st, s, 4)
                    ok &= A.assume_ic(st, sub(s, rows), 1 if v == '<rows' else 6)
                args.append(s)
            elif k[0] == 'X':
                ok &= A.assume_ic(st, s, 2 if v == '0' else 5)
                args.append(ZERO if v == '0' else s)
            elif k[0] == 'S':
                args.append(fsym('arg%d' % (i + 1)))
            else:
                args.append(ext(st, e, 'arg%d' % (i + 1)))
                regs.add(args[-1].a[0])
        if not ok:
            continue

        def hook(eng, st, p, *a):
            if p.k == 'ptr' and p.a[0] in regs:
                touched.append((show(p), a[-1].loc()))
        e.on_store.append(hook)
        e.on_load.append(hook)
        e.on_loop.append(lambda *a: touched.append(('loop', '')))
        tag = '%s(%s)' % (fn, ','.join('%d:%s' % (i + 1, v) for i, v in enumerate(cell) if v))
        try:
            rets = e.run(func, args, st)
        except A.AnalysisLimit:
            if not touched:
                raise
            rets = []
        c.done(e)
        for what, where in touched[:1]:
            c.ob('untouched', False, fn, '%s works on its arrays in spite of its bad arguments %s' % (tag, wrong), where)
        c.ob('refused', bool(rets) or bool(touched), fn, '%s does not return' % tag)
        for s, v in rets:
            k = ival(v) if isconst(v) else None
            if name == 'potf2' and k is not None:
                k = -k
            c.ob('refused', k in wrong, '%s:%s' % (fn, min(wrong)), '%s returns %s whereas the invalid arguments are %s' %
                 (tag, show(v), wrong))


@check('K01', 'abstract interpretation of the argument checks for every combination of kinds of arguments (dimensions and '
       'increments of any value); no solver')
def k01(c):
    P = c.lib()
    parallel(c, [(lambda c, s=s, n=n: refusals(c, P, s, n)) for n in ('gemm', 'gemv', 'trmv', 'trsv', 'syrk', 'potf2')
                 for s in (False, True)])
    c.require('refused', 500)
