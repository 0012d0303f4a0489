"""Identity test of symbolic reals and vectors.

Expressions found by the abstract interpretation are compared as functions over the reals: each is evaluated at one point
of the prime field of order 2^61-1 (Schwartz-Zippel), atoms (and uninterpreted functions of already evaluated
arguments) being given pseudo-random values.  Two expressions that are the same rational function always agree; two
different ones agree with probability about degree/2^61.  sqrt and fabs use the canonical root (the quadratic residue),
so that sqrt(a)^2 = a, |ab| = |a||b| and |-a| = |a|.  Vectors are evaluated component by component, 0/1 masks as such."""
import hashlib
from fractions import Fraction
from .core import *

M = (1 << 61) - 1
N = 7


_str = {}


def code(x):
    if isinstance(x, int):
        return x
    if isinstance(x, tuple):
        return hash(tuple(code(y) for y in x))
    if isinstance(x, T):
        return x.n
    v = _str.get(x)
    if v is None:
        v = _str[x] = int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=7).digest(), 'big')
    return v


def mix(x):
    x = (x * 0x9E3779B97F4A7C15 + 0xD1B54A32D192ED03) & 0xFFFFFFFFFFFFFFFF
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
    return x ^ (x >> 31)


def h(*key):
    return mix(mix(code(key)) + 1) % M


def hvec(*key):
    x = code(key)
    return [mix(mix(x + i * 0x632BE59BD9B4E019) + 1) % M for i in range(N)]


def inv(x):
    return pow(x, M - 2, M)


def isqr(x):
    return x == 0 or pow(x, (M - 1) // 2, M) == 1


class Undef(Exception):
    pass


grads = []
gradients = {}


class Pit:
    """alias: values identified on a path (an expression known to equal another one)"""

    def __init__(self):
        self.memo = {}
        self.vmemo = {}
        self.alias = {}
        self.squares = {}          # canonical root -> its square
        self.projected = set()
        self.grads = grads

    # ------------------------------------------------------------------ field
    def canon(self, v):
        return self.alias.get(v, v)

    def root(self, v):
        v = self.canon(v % M)
        if isqr(v):
            r = pow(v, (M + 1) // 4, M)
            if not isqr(r):
                r = M - r
            return self.canon(r)
        r = pow(M - v, (M + 1) // 4, M)
        if not isqr(r):
            r = M - r
        self.squares[r] = v
        return self.canon(r)

    def abs(self, v):
        v = v % M
        return v if isqr(v) else M - v

    def mul(self, a, b):
        a, b = a % M, b % M
        if a in self.squares:
            if a == b:
                return self.squares[a]
            if a == M - b:
                return (M - self.squares[a]) % M
        return self.canon(a * b % M)

    def div(self, a, b):
        if b % M == 0:
            return h('div', a, b)
        return self.canon(a * inv(b) % M)

    def const(self, x):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            return h('const', repr(x))
        f = Fraction(x)
        return f.numerator % M * inv(f.denominator % M) % M

    # ------------------------------------------------------------------ scalars
    def ev(self, t):
        v = self.memo.get(t)
        if v is None:
            v = self.memo[t] = self.canon(self.ev1(t) % M)
        return v

    def ev1(self, t):
        k = t.k
        if k == 'fc':
            return self.const(fval(t))
        if k == 'P':
            r = t.a[0] % M
            for mono, c in t.a[1]:
                p = c % M
                for x in mono:
                    p = p * self.ev(x) % M
                r += p
            return r
        if k == 'at':
            n = t.a[0]
            if isinstance(n, T) and n.k == 'vx':
                return self.scalar(n)
            return h('at', n if not isinstance(n, T) else n.n, t.a[1])
        if k == 'fo':
            op = t.a[0]
            a = [self.ev(x) for x in t.a[1:]]
            if op == 'fadd':
                return a[0] + a[1]
            if op == 'fsub':
                return a[0] - a[1]
            if op == 'fmul':
                return self.mul(a[0], a[1])
            if op == 'fdiv':
                return self.div(a[0], a[1])
            if op == 'fneg':
                return -a[0]
            if op in ('fpext', 'fptrunc'):
                return a[0]
            if op == 'sitofp':
                return a[0]
            if op == 'sqrt':
                return self.root(a[0])
            if op == 'fabs':
                return self.abs(a[0])
            if op in ('fma', 'fmuladd'):
                return self.mul(a[0], a[1]) + a[2]
            return h(op, *a)
        if k == 'iop':
            return h('iop', *[self.ev(x) if isinstance(x, T) else x for x in t.a])
        return h(k, t.n)

    def scalar(self, n):
        op = n.a[0]
        v = [self.vec(x) for x in n.a[1:]]
        if op == 'dot':
            return sum(a * b for a, b in zip(*v))
        if op == 'dot3':
            return sum(a * b * c for a, b, c in zip(*v))
        if op == 'nrm':
            return self.root(sum(a * a for a in v[0]))
        return h(op, *v)

    # ------------------------------------------------------------------ vectors
    def vec(self, t):
        v = self.vmemo.get(t)
        if v is None:
            v = self.vmemo[t] = tuple(x % M for x in self.vec1(t))
        return v

    def vec1(self, t):
        if t is A.INIT or t.k != 'vx':
            return hvec('und', t.n)
        op = t.a[0]
        if op == 'atom':
            n = t.a[1]
            if not (isinstance(n, str) and n.startswith('g')):
                return hvec('atom', n)
            # gradients: the squared norms of all of them and of their differences are quadratic residues
            if n in gradients:
                return gradients[n]
            k = 0
            while True:
                r = hvec('atom', n, k)
                if isqr(sum(x * x for x in r) % M) and \
                        all(isqr(sum((x - y) ** 2 for x, y in zip(r, o)) % M) for o in self.grads):
                    self.grads.append(r)
                    gradients[n] = r
                    return r
                k += 1
        if op == 'const':
            return [self.ev(t.a[1])] * N
        if op == 'lin':
            r = [0] * N
            for i in range(1, len(t.a), 2):
                c = self.ev(t.a[i])
                if c:
                    r = [x + c * y for x, y in zip(r, self.vec(t.a[i + 1]))]
            return r
        if op == 'prod':
            return [x * y for x, y in zip(self.vec(t.a[1]), self.vec(t.a[2]))]
        if op == 'proj':
            return self.proj(self.vec(t.a[1]), t.a[2])
        if op == 'pdir':
            return self.pdir(self.vec(t.a[1]), self.vec(t.a[2]), t.a[3], t.a[4])
        if op == 'free':
            return self.free(self.vec(t.a[1]), self.vec(t.a[2]), t.a[3], t.a[4])
        raise Broken('vector expression ' + op)

    def proj(self, v, box):
        v = tuple(x % M for x in v)
        if v in self.projected:
            return v
        r = tuple(hvec('proj', v, box.n))
        self.projected.add(r)
        return r

    def pdir(self, x, d, box, orient):
        return hvec('pdir', x, d, box.n, orient)

    def free(self, x, d, box, orient):
        k = 0
        while True:
            r = [y & 1 for y in hvec('free', x, d, box.n, orient, k)]
            if 2 <= sum(r) <= N - 2:
                return r
            k += 1

    def dot(self, a, b):
        return self.canon(sum(x * y for x, y in zip(a, b)) % M)

    def lin(self, *cv):
        r = [0] * N
        for i in range(0, len(cv), 2):
            r = [x + cv[i] * y for x, y in zip(r, cv[i + 1])]
        return tuple(x % M for x in r)


class Facts:
    """what the comparisons made on a path imply about the order of evaluated expressions (no NaN)"""

    def __init__(self, st, pit):
        self.pit = pit
        self.bad = False
        eqs = []
        for (a, b), m in st.ff.items():
            if m & ~A.UN == A.EQ:
                eqs.append((a, b))
        for t, r in st.fr.items():
            if r.lo is not None and r.lo == r.hi and t.k != 'fc':
                eqs.append((t, F(r.lo)))
        # identities first, so that they are taken into account by all evaluations
        for a, b in eqs:
            if a.k == 'fc':
                a, b = b, a
            us, v = [pit.ev(a)], pit.ev(b)
            while v == 0 and a.k == 'fo' and a.a[0] in ('fdiv', 'fneg'):
                a = a.a[1]
                us.append(pit.ev(a))
                if a.k == 'fc':
                    self.bad = True        # underflow
            for u in us:
                if u != v:
                    pit.alias[u] = v
                    if v == 0:
                        pit.alias[(M - u) % M] = 0
            pit.memo.clear()
            pit.vmemo.clear()
        self.lt = {}       # u -> {v: strict}
        self.vals = set()
        for (a, b), m in st.ff.items():
            self.add(pit.ev(a), pit.ev(b), m & ~A.UN)
        for t, r in st.fr.items():
            if r.lo is None:
                continue
            u = pit.ev(t)
            m = (A.LT if r.lo < 0 else 0) | (A.GT if r.hi > 0 else 0) | \
                (A.EQ if r.lo < 0 < r.hi or (r.lo == 0 and not r.lo_o) or (r.hi == 0 and not r.hi_o) else 0)
            if m and m != 7:
                self.add(u, 0, m)
                if t.k == 'fo' and t.a[0] == 'fdiv' and t.a[1].k == 'fc' and fval(t.a[1]) > 0 and not (m & A.EQ and m != 7):
                    self.add(pit.ev(t.a[2]), 0, m)

    def add(self, u, v, m):
        if m == 7:
            return
        if m == 0:
            self.bad = True
            return
        if m == A.EQ:
            if u != v:
                self.edge(u, v, False)
                self.edge(v, u, False)
            return
        if m == (A.LT | A.GT):
            return
        if m & A.GT:
            u, v = v, u
        strict = not (m & A.EQ)
        self.edge(u, v, strict)
        d = (v - u) % M
        self.edge(0, d, strict)
        self.edge((M - d) % M, 0, strict)

    def edge(self, u, v, strict):
        e = self.lt.setdefault(u, {})
        e[v] = e.get(v, False) or strict

    def leq(self, u, v):
        """0: nothing known, 1: u <= v, 2: u < v"""
        best = {u: 1}
        work = [u]
        while work:
            x = work.pop()
            for y, s in self.lt.get(x, {}).items():
                n = 2 if s or best[x] == 2 else 1
                if best.get(y, 0) < n:
                    best[y] = n
                    work.append(y)
        return best.get(v, 0)

    def mask(self, u, v=0):
        """possible relations of u and v"""
        u, v = u % M, v % M
        if u == v:
            return A.EQ
        m = 7
        for a, b, f in ((u, v, A.GT), (0, (v - u) % M, A.GT), (v, u, A.LT), (0, (u - v) % M, A.LT)):
            k = self.leq(a, b)
            if k:
                m &= ~f
            if k == 2:
                m &= ~A.EQ
        return m

    def consistent(self):
        if self.bad:
            return False
        for u in list(self.lt):
            if self.leq(u, u) == 2:
                return False
        return True
