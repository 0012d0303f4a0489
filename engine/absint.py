"""Abstract interpreter over LLVM IR.

Trace-partitioned abstract interpretation: a state maps SSA names and memory cells to hash-consed symbolic values and
carries facts (integer bounds of polynomials, possible orderings of float pairs, float ranges, nullness).  Callees are
inlined.  Loops are solved by a fixpoint over the weak topological order of the flow graph; at loop heads states are
joined by anti-unification (equal pairs of values keep being equal, affine progress becomes a shared iteration
variable) and facts are kept only when both sides imply them.  Nothing is executed and no solver is used.
"""
import math
from . import ir
from .terms import *

INF = math.inf


class AnalysisLimit(Exception):
    pass


class Infeasible(Exception):
    pass


INIT = mk('init')
UNDEFD = mk('und', 'v')
ZERD = mk('zer')

_ctr = [0]


def fresh(name, ty):
    _ctr[0] += 1
    a = mk('at', '%s.%d' % (name, _ctr[0]), ty)
    return wrap(a, ty)


def wrap(a, ty):
    """an atom-like term as a value of class ty"""
    if ty == 'i':
        return as_poly(a)
    if ty == 'p':
        return mk('ptr', a, ZERO)
    return a


def tyclass(ty):
    k = ty[0]
    if k == 'i':
        return 'b' if ty[1] == 1 else 'i'
    if k == 'f':
        return 'f'
    if k == 'p':
        return 'p'
    return 'x'


class FR:
    """range of a float: numeric part [lo,hi] (None when there is none), strictness flags, and whether NaN is possible"""
    __slots__ = ('lo', 'lo_o', 'hi', 'hi_o', 'nan')

    def __init__(self, lo, lo_o, hi, hi_o, nan):
        self.lo, self.lo_o, self.hi, self.hi_o, self.nan = lo, lo_o, hi, hi_o, nan

    def empty_num(self):
        return self.lo is None

    def key(self):
        return (self.lo, self.lo_o, self.hi, self.hi_o, self.nan)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        if self.lo is None:
            return 'NaN' if self.nan else 'empty'
        return '%s%s,%s%s%s' % ('(' if self.lo_o else '[', self.lo, self.hi, ')' if self.hi_o else ']',
                                '|NaN' if self.nan else '')

    def meet(self, o):
        if self.lo is None or o.lo is None:
            return FR(None, False, None, False, self.nan and o.nan)
        if self.lo > o.lo or (self.lo == o.lo and self.lo_o):
            lo, loo = self.lo, self.lo_o
        else:
            lo, loo = o.lo, o.lo_o
        if self.hi < o.hi or (self.hi == o.hi and self.hi_o):
            hi, hio = self.hi, self.hi_o
        else:
            hi, hio = o.hi, o.hi_o
        if lo > hi or (lo == hi and (loo or hio)):
            return FR(None, False, None, False, self.nan and o.nan)
        return FR(lo, loo, hi, hio, self.nan and o.nan)

    def join(self, o):
        nan = self.nan or o.nan
        if self.lo is None:
            return FR(o.lo, o.lo_o, o.hi, o.hi_o, nan)
        if o.lo is None:
            return FR(self.lo, self.lo_o, self.hi, self.hi_o, nan)
        if self.lo < o.lo or (self.lo == o.lo and not self.lo_o):
            lo, loo = self.lo, self.lo_o
        else:
            lo, loo = o.lo, o.lo_o
        if self.hi > o.hi or (self.hi == o.hi and not self.hi_o):
            hi, hio = self.hi, self.hi_o
        else:
            hi, hio = o.hi, o.hi_o
        return FR(lo, loo, hi, hio, nan)

    def leq(self, o):
        if self.nan and not o.nan:
            return False
        if self.lo is None:
            return True
        if o.lo is None:
            return False
        if self.lo < o.lo or (self.lo == o.lo and o.lo_o and not self.lo_o):
            return False
        if self.hi > o.hi or (self.hi == o.hi and o.hi_o and not self.hi_o):
            return False
        return True


FULL = FR(-INF, False, INF, False, True)
NUM = FR(-INF, False, INF, False, False)


class State:
    __slots__ = ('frames', 'mem', 'iv', 'ff', 'fr', 'bf', 'nn', 'gh', 'tr')

    def __init__(self):
        self.frames = [{}]
        self.mem = {}
        self.iv = {}
        self.ff = {}
        self.fr = {}
        self.bf = {}
        self.nn = {}
        self.gh = {}
        self.tr = None

    def copy(self):
        s = State.__new__(State)
        s.frames = self.frames[:-1] + [dict(self.frames[-1])] if self.frames else []
        s.mem = dict(self.mem)
        s.iv = dict(self.iv)
        s.ff = dict(self.ff)
        s.fr = dict(self.fr)
        s.bf = dict(self.bf)
        s.nn = dict(self.nn)
        s.gh = dict(self.gh)
        s.tr = self.tr
        return s

    def trace(self, limit=40):
        out = []
        t = self.tr
        while t is not None and len(out) < limit:
            x = t[1]
            out.append(x if isinstance(x, str) else '%s: %s' % (x[0].loc(), show(x[1], 4)))
            t = t[0]
        out.reverse()
        return out


# ---------------------------------------------------------------------------------------------- integer facts
def pnorm(p):
    """p = f*q + c with q canonical (no constant, first coefficient positive, content 1); returns (q, f, c)"""
    monos = p.a[1]
    g = 0
    for _, c in monos:
        g = math.gcd(g, c)
    if monos[0][1] < 0:
        g = -g
    if g == 1:
        q = p if p.a[0] == 0 else mk('P', 0, monos)
    else:
        q = mk('P', 0, tuple((m, c // g) for m, c in monos))
    return q, g, p.a[0]


def atom_bounds(x):
    if x.k == 'iop':
        if x.a[0] == 'b2i':
            return (0, 1)
        if x.a[0] == 'trunc8u':
            return (0, 255)
        if x.a[0] == 'usz':
            return (0, INF)
    if x.k == 'at' and x.a[1] == 'n':       # natural-number atom
        return (0, INF)
    return (-INF, INF)


def imul(a, b):
    def m(x, y):
        if x == 0 or y == 0:
            return 0
        return x * y
    v = [m(a[0], b[0]), m(a[0], b[1]), m(a[1], b[0]), m(a[1], b[1])]
    return (min(v), max(v))


_nest = [0]


def mono_bounds(st, m):
    # operands of integer operations are bounded with the other facts, but not forever
    _nest[0] += 1
    try:
        return _mono_bounds(st, m, 1 if _nest[0] < 4 else 0)
    finally:
        _nest[0] -= 1


def _mono_bounds(st, m, inner):
    r = None
    for x in m:
        p = mk('P', 0, (((x,), 1),))
        lo, hi = atom_bounds(x)
        f = st.iv.get(p)
        if f:
            lo, hi = max(lo, f[0]), min(hi, f[1])
        if x.k == 'iop' and x.a[0] in ('sdiv', 'udiv') and isconst(x.a[2]) and ival(x.a[2]) > 0:
            l2, h2 = ibounds(st, x.a[1], inner)
            d = ival(x.a[2])
            if l2 != -INF:
                lo = max(lo, int(l2 // d) if l2 >= 0 else -int((-l2) // d))
            if h2 != INF:
                hi = min(hi, int(h2 // d) if h2 >= 0 else -int((-h2) // d))
        elif x.k == 'iop' and x.a[0] in ('srem', 'urem') and isconst(x.a[2]) and ival(x.a[2]) > 0:
            l2, h2 = ibounds(st, x.a[1], inner)
            d = ival(x.a[2])
            if l2 >= 0:
                lo = max(lo, 0)
            else:
                lo = max(lo, 1 - d)
            hi = min(hi, d - 1)
        elif x.k == 'iop' and x.a[0] == 'min':
            b1, b2 = ibounds(st, x.a[1], inner), ibounds(st, x.a[2], inner)
            lo, hi = max(lo, min(b1[0], b2[0])), min(hi, b1[1], b2[1])
        elif x.k == 'iop' and x.a[0] == 'max':
            b1, b2 = ibounds(st, x.a[1], inner), ibounds(st, x.a[2], inner)
            lo, hi = max(lo, b1[0], b2[0]), min(hi, max(b1[1], b2[1]))
        r = (lo, hi) if r is None else imul(r, (lo, hi))
    if len(m) == 2 and m[0] is m[1]:
        r = (max(r[0], 0), r[1])
    if len(m) > 1:
        f = st.iv.get(mk('P', 0, ((m, 1),)))
        if f:
            r = (max(r[0], f[0]), min(r[1], f[1]))
    return r


def ibounds(st, p, depth=2):
    if not p.a[1]:
        return (p.a[0], p.a[0])
    lo = hi = p.a[0]
    for m, c in p.a[1]:
        b = mono_bounds(st, m)
        if c > 0:
            lo += c * b[0] if b[0] != -INF else -INF
            hi += c * b[1] if b[1] != INF else INF
        else:
            lo += c * b[1] if b[1] != INF else -INF
            hi += c * b[0] if b[0] != -INF else INF
    if len(p.a[1]) == 1 and len(p.a[1][0][0]) == 1 and depth < 2:
        return (lo, hi)
    q, f, c = pnorm(p)
    fact = st.iv.get(q)
    if fact:
        l2, h2 = fact[0] * f, fact[1] * f
        if f < 0:
            l2, h2 = h2, l2
        lo, hi = max(lo, l2 + c), min(hi, h2 + c)
    if depth > 0 and (lo == -INF or hi == INF or lo != hi):
        pm = dict(p.a[1])
        for q, fact in st.iv.items():
            if len(q.a[1]) < 2 or (fact[0] == -INF and fact[1] == INF):
                continue
            for m, cq in q.a[1]:
                cp = pm.get(m)
                if cp is None or cp % cq:
                    continue
                k = cp // cq
                r = add(p, scale(q, -k))
                rl, rh = ibounds(st, r, depth - 1)
                a, b = fact[0] * k, fact[1] * k
                if k < 0:
                    a, b = b, a
                lo, hi = max(lo, rl + a), min(hi, rh + b)
                if lo == hi:
                    return (lo, hi)
    return (lo, hi)


def imask(st, p):
    """possible signs of p"""
    if not p.a[1]:
        c = p.a[0]
        return 1 if c < 0 else 2 if c == 0 else 4
    lo, hi = ibounds(st, p)
    m = 0
    if lo < 0:
        m |= 1
    if hi > 0:
        m |= 4
    if lo <= 0 <= hi:
        m |= 2
        q, f, c = pnorm(p)
        if c % f:
            m &= 5
        else:
            fact = st.iv.get(q)
            if fact and (-c // f) in fact[2]:
                m &= 5
    return m


def assume_ic(st, p, mask):
    """narrow the facts with sign(p) in mask; False when infeasible"""
    m = imask(st, p) & mask
    if m == 0:
        return False
    if not p.a[1]:
        return True
    q, f, c = pnorm(p)
    lo, hi, ex = st.iv.get(q, (-INF, INF, frozenset()))
    # f*q + c (<0, ==0, >0)
    nl, nh = -INF, INF
    if m == 2:
        if c % f:
            return False
        nl = nh = -c // f
    elif m in (1, 3):       # f*q <= -c-1 or -c
        b = -c - (1 if m == 1 else 0)
        if f > 0:
            nh = b // f
        else:
            nl = -(b // -f)     # f<0: q >= b/f = ceil
            nl = -((b) // (-f))
    elif m in (4, 6):       # f*q >= -c+1 or -c
        b = -c + (1 if m == 4 else 0)
        if f > 0:
            nl = -((-b) // f)
        else:
            nh = (-b) // (-f)
    elif m == 5:
        if c % f == 0:
            ex = ex | {-c // f}
    lo, hi = max(lo, nl), min(hi, nh)
    while lo in ex:
        lo += 1
    while hi in ex:
        hi -= 1
    if lo > hi:
        return False
    ex = frozenset(e for e in ex if lo < e < hi)
    st.iv[q] = (lo, hi, ex)
    return True


# ---------------------------------------------------------------------------------------------- float facts
def frange(st, t, depth=6):
    k = t.k
    if k == 'fc':
        v = fval(t)
        if v != v:
            return FR(None, False, None, False, True)
        return FR(v, False, v, False, False)
    base = st.fr.get(t, FULL)
    if k == 'fo' and depth > 0:
        r = fo_range(st, t, depth - 1)
        if r is not FULL:
            base = base.meet(r)
    return base


def fo_range(st, t, depth):
    op = t.a[0]
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        a = frange(st, t.a[1], depth)
        b = frange(st, t.a[2], depth)
        return farith(op, a, b, t.a[1] is t.a[2])
    if op == 'fneg':
        a = frange(st, t.a[1], depth)
        if a.lo is None:
            return a
        return FR(-a.hi, a.hi_o, -a.lo, a.lo_o, a.nan)
    if op == 'fabs':
        a = frange(st, t.a[1], depth)
        if a.lo is None:
            return a
        if a.lo >= 0:
            return a
        if a.hi <= 0:
            return FR(-a.hi, a.hi_o, -a.lo, a.lo_o, a.nan)
        if -a.lo > a.hi or (-a.lo == a.hi and not a.lo_o):
            return FR(0.0, False, -a.lo, a.lo_o, a.nan)
        return FR(0.0, False, a.hi, a.hi_o, a.nan)
    if op == 'sqrt':
        a = frange(st, t.a[1], depth)
        if a.lo is None:
            return a
        nan = a.nan or a.lo < 0
        if a.hi < 0:
            return FR(None, False, None, False, True)
        return FR(math.sqrt(max(a.lo, 0.0)), a.lo == 0 and a.lo_o, math.sqrt(a.hi) if a.hi != INF else INF, False, nan)
    if op in ('fpext', 'fptrunc'):
        a = frange(st, t.a[1], depth)
        if op == 'fpext':
            return a
        if a.lo is None:
            return a
        return FR(rnd(a.lo, 32), False, rnd(a.hi, 32), False, a.nan)
    if op == 'sitofp':
        lo, hi = ibounds(st, t.a[1], 1)
        return FR(float(lo), False, float(hi), False, False)
    if op == 'pow':
        a = frange(st, t.a[1], depth)
        b = frange(st, t.a[2], depth)
        if a.lo is not None and a.lo >= 0 and not a.nan:
            return FR(0.0, False, INF, False, b.nan)
        return FULL
    if op == 'exp':
        return FR(0.0, False, INF, False, frange(st, t.a[1], depth).nan)
    return FULL


def farith(op, a, b, same):
    nan = a.nan or b.nan
    if a.lo is None or b.lo is None:
        return FR(None, False, None, False, True)
    if op == 'fsub':
        b = FR(-b.hi, b.hi_o, -b.lo, b.lo_o, b.nan)
        op = 'fadd'
        if same:
            # x - x
            if (a.lo > -INF or a.lo_o) and (a.hi < INF or a.hi_o):
                return FR(0.0, False, 0.0, False, nan)
            return FR(0.0, False, 0.0, False, True)
    if op == 'fadd':
        if (a.hi == INF and not a.hi_o and b.lo == -INF and not b.lo_o) or \
                (a.lo == -INF and not a.lo_o and b.hi == INF and not b.hi_o):
            nan = True
        lo = -INF if -INF in (a.lo, b.lo) else a.lo + b.lo
        hi = INF if INF in (a.hi, b.hi) else a.hi + b.hi
        loo = lo == 0 and ((a.lo == 0 and a.lo_o and b.lo >= 0) or (b.lo == 0 and b.lo_o and a.lo >= 0))
        hio = hi == 0 and ((a.hi == 0 and a.hi_o and b.hi <= 0) or (b.hi == 0 and b.hi_o and a.hi <= 0))
        return FR(lo, loo, hi, hio, nan)
    if op == 'fmul':
        def has0(r):
            return (r.lo < 0 < r.hi) or (r.lo == 0 and not r.lo_o) or (r.hi == 0 and not r.hi_o)

        def hasinf(r):
            return (r.lo == -INF and not r.lo_o) or (r.hi == INF and not r.hi_o)
        if same:
            m = max(abs(a.lo), abs(a.hi))
            l = 0.0 if a.lo <= 0 <= a.hi else min(abs(a.lo), abs(a.hi))
            try:
                h = m * m
            except OverflowError:
                h = INF
            return FR(l * l, False, h, False, nan)
        if (has0(a) and hasinf(b)) or (has0(b) and hasinf(a)):
            nan = True

        def mm(x, y):
            if x == 0 or y == 0:
                return 0.0
            return x * y
        v = [mm(a.lo, b.lo), mm(a.lo, b.hi), mm(a.hi, b.lo), mm(a.hi, b.hi)]
        return FR(min(v), False, max(v), False, nan)
    if op == 'fdiv':
        hasinf = lambda r: (r.lo == -INF and not r.lo_o) or (r.hi == INF and not r.hi_o)
        if hasinf(a) and hasinf(b):
            nan = True
        if b.lo < 0 < b.hi or b.lo == 0 and not b.lo_o or b.hi == 0 and not b.hi_o or (b.lo <= 0 <= b.hi):
            has0 = (b.lo < 0 < b.hi) or (b.lo == 0 and not b.lo_o) or (b.hi == 0 and not b.hi_o)
            a0 = (a.lo < 0 < a.hi) or (a.lo == 0 and not a.lo_o) or (a.hi == 0 and not a.hi_o)
            if has0 and a0:
                nan = True
            if b.lo == 0 and b.lo_o and a.lo >= 0:
                return FR(a.lo / b.hi if b.hi < INF and a.lo < INF else 0.0, False, INF, False, nan)
            if b.lo == 0 and b.lo_o and a.hi <= 0:
                return FR(-INF, False, a.hi / b.hi if b.hi < INF and a.hi > -INF else 0.0, False, nan)
            return FR(-INF, False, INF, False, nan)

        def dd(x, y):
            if abs(x) == INF and abs(y) == INF:
                return None
            if abs(y) == INF:
                return 0.0
            return x / y
        v = [x for x in (dd(a.lo, b.lo), dd(a.lo, b.hi), dd(a.hi, b.lo), dd(a.hi, b.hi)) if x is not None]
        if any(abs(x) == INF for x in (a.lo, a.hi, b.lo, b.hi)):
            v.append(0.0)
            if INF in (a.hi, -a.lo):
                v += [INF if (b.lo > 0) == (a.hi == INF) else -INF]
                if a.lo == -INF and a.hi == INF:
                    v += [INF, -INF]
        return FR(min(v), False, max(v), False, nan)
    return FULL


def rmask(a, b):
    """possible orderings of two values with ranges a and b"""
    m = 0
    if a.nan or b.nan:
        m |= UN
    if a.lo is None or b.lo is None:
        return m
    if a.lo < b.hi:
        m |= LT
    if a.hi > b.lo:
        m |= GT
    lo, loo = (a.lo, a.lo_o) if (a.lo > b.lo or (a.lo == b.lo and a.lo_o)) else (b.lo, b.lo_o)
    hi, hio = (a.hi, a.hi_o) if (a.hi < b.hi or (a.hi == b.hi and a.hi_o)) else (b.hi, b.hi_o)
    if lo < hi or (lo == hi and not loo and not hio):
        m |= EQ
    # singletons
    if a.lo == a.hi and b.lo == b.hi and a.lo == b.lo:
        m &= EQ | UN
    return m


def ffget(st, x, y):
    if x.n <= y.n:
        return st.ff.get((x, y), ALL)
    return rev(st.ff.get((y, x), ALL))


def compose(m1, m2):
    """possible relation of x and z when x m1 y and y m2 z (y not NaN in the useful cases)"""
    if (m1 & UN) or (m2 & UN):
        return ALL
    out = 0
    for a in (LT, EQ, GT):
        if m1 & a:
            for b in (LT, EQ, GT):
                if m2 & b:
                    if a == EQ:
                        out |= b
                    elif b == EQ or a == b:
                        out |= a
                    else:
                        out |= LT | EQ | GT
    return out


def fmask(st, x, y, depth=1):
    if x is y:
        r = frange(st, x)
        return (EQ if r.lo is not None else 0) | (UN if r.nan else 0)
    m = rmask(frange(st, x), frange(st, y))
    if x.k == 'fc' and y.k == 'fc':
        return m
    if x.k == 'fo' and y.k == 'fo' and x.a[0] == 'fpext' and y.a[0] == 'fpext':
        m &= fmask(st, x.a[1], y.a[1], depth)
    # fabs(t) against t
    if x.k == 'fo' and x.a[0] == 'fabs' and x.a[1] is y:
        m &= GT | EQ | UN
    if y.k == 'fo' and y.a[0] == 'fabs' and y.a[1] is x:
        m &= LT | EQ | UN
    m &= ffget(st, x, y)
    if depth > 0 and m & (m - 1) and st.ff:
        for (a, b), mm in st.ff.items():
            if a is x:
                m &= compose(mm, fmask(st, b, y, depth - 1)) if b is not y else ALL
            elif b is x:
                m &= compose(rev(mm), fmask(st, a, y, depth - 1)) if a is not y else ALL
            elif a is y and b is not x:
                m &= compose(fmask(st, x, b, depth - 1), rev(mm))
            elif b is y and a is not x:
                m &= compose(fmask(st, x, a, depth - 1), mm)
            if not (m & (m - 1)):
                break
    return m


def set_fr(st, t, r):
    """narrow the range of t with r; False when infeasible"""
    if t.k == 'fc':
        return not (frange(st, t).meet(r).lo is None and not (frange(st, t).nan and r.nan))
    old = frange(st, t)
    new = old.meet(r)
    if new.lo is None and not new.nan:
        return False
    if new == old:
        return True
    st.fr[t] = new
    if t.k == 'fo':
        op = t.a[0]
        if op == 'fabs':
            if new.lo is None:
                return set_fr(st, t.a[1], FR(None, False, None, False, True))
            return set_fr(st, t.a[1], FR(-new.hi, new.hi_o, new.hi, new.hi_o, new.nan))
        if op == 'fneg':
            if new.lo is None:
                return set_fr(st, t.a[1], new)
            return set_fr(st, t.a[1], FR(-new.hi, new.hi_o, -new.lo, new.lo_o, new.nan))
        if op == 'fpext':
            return set_fr(st, t.a[1], new)
        if op == 'fsub' and t.a[1] is t.a[2] and not new.nan:
            # x - x is a number only for finite x
            return set_fr(st, t.a[1], FR(-INF, True, INF, True, False))
        if not new.nan and op in ('fadd', 'fsub', 'fmul', 'fdiv', 'sqrt'):
            for x in t.a[1:]:
                if isinstance(x, T) and not set_fr(st, x, NUM):
                    return False
    return True


def assume_fcm(st, x, y, mask):
    m = fmask(st, x, y) & mask
    if m == 0:
        return False
    if x is y:
        if not (m & UN):
            return set_fr(st, x, NUM)
        if m == UN:
            return set_fr(st, x, FR(None, False, None, False, True))
        return True
    if x.n <= y.n:
        st.ff[(x, y)] = m
    else:
        st.ff[(y, x)] = rev(m)
    rx, ry = frange(st, x), frange(st, y)
    for a, b, ra, rb, mm in ((x, y, rx, ry, m), (y, x, ry, rx, rev(m))):
        nan = True if (mm & UN) else False
        if mm == UN:
            if not rb.nan:
                if not set_fr(st, a, FR(None, False, None, False, True)):
                    return False
            continue
        lo, loo, hi, hio = -INF, False, INF, False
        if not (mm & UN) and rb.lo is not None:
            if not (mm & LT):       # a >= b or a > b
                lo, loo = rb.lo, rb.lo_o or not (mm & EQ)
            if not (mm & GT):
                hi, hio = rb.hi, rb.hi_o or not (mm & EQ)
        elif (mm & UN) and not rb.nan and rb.lo is not None:
            # numeric part of a is constrained, NaN stays possible
            if not (mm & LT):
                lo, loo = rb.lo, rb.lo_o or not (mm & EQ)
            if not (mm & GT):
                hi, hio = rb.hi, rb.hi_o or not (mm & EQ)
        if lo > hi:
            return False
        if not set_fr(st, a, FR(lo, loo, hi, hio, nan)):
            return False
    if x.k == 'fo' and y.k == 'fo' and x.a[0] == 'fpext' and y.a[0] == 'fpext':
        return assume_fcm(st, x.a[1], y.a[1], m)
    return True


# ---------------------------------------------------------------------------------------------- booleans
def nonnull(st, p):
    """True / False / None for a pointer value"""
    if p.k == 'nul':
        return False
    if p.k == 'fn':
        return True
    if p.k == 'ptr':
        r = p.a[0]
        if r.k == 'reg':
            return True
        return st.nn.get(r)
    return None


def beval(st, b):
    """True / False / None"""
    k = b.k
    if k == 'B':
        return bool(b.a[0])
    if k == 'ic':
        m = imask(st, b.a[0])
        if not (m & b.a[1]):
            return False
        if not (m & ~b.a[1] & 7):
            return True
        return None
    if k == 'fcm':
        m = fmask(st, b.a[0], b.a[1])
        if not (m & b.a[2]):
            return False
        if not (m & ~b.a[2] & 15):
            return True
        return None
    if k == 'not':
        r = beval(st, b.a[0])
        return None if r is None else not r
    if k == 'and':
        x, y = beval(st, b.a[0]), beval(st, b.a[1])
        if x is False or y is False:
            return False
        if x and y:
            return True
        return None
    if k == 'or':
        x, y = beval(st, b.a[0]), beval(st, b.a[1])
        if x or y:
            return True
        if x is False and y is False:
            return False
        return None
    if k == 'pe':
        p, q = b.a
        if q.k == 'nul':
            nn = nonnull(st, p)
            return None if nn is None else not nn
    return st.bf.get(b)


def assume(st, b, truth):
    """list of states (st is narrowed in place when it is in the list)"""
    k = b.k
    if k == 'B':
        return [st] if bool(b.a[0]) == truth else []
    if k == 'ic':
        return [st] if assume_ic(st, b.a[0], b.a[1] if truth else 7 ^ b.a[1]) else []
    if k == 'fcm':
        return [st] if assume_fcm(st, b.a[0], b.a[1], b.a[2] if truth else 15 ^ b.a[2]) else []
    if k == 'not':
        return assume(st, b.a[0], not truth)
    if (k == 'and' and truth) or (k == 'or' and not truth):
        out = []
        for s in assume(st, b.a[0], truth):
            out += assume(s, b.a[1], truth)
        return out
    if k in ('and', 'or'):
        s2 = st.copy()
        out = assume(st, b.a[0], truth)
        for s in assume(s2, b.a[0], not truth):
            out += assume(s, b.a[1], truth)
        return out
    if k == 'pe':
        p, q = b.a
        if q.k == 'nul' and p.k == 'ptr':
            nn = nonnull(st, p)
            if nn is not None:
                return [st] if (not nn) == truth else []
            st.nn[p.a[0]] = not truth
            return [st]
    v = st.bf.get(b)
    if v is not None:
        return [st] if v == truth else []
    st.bf[b] = truth
    return [st]


def ptr_eq(p, q):
    if p is q:
        return TRUE
    if p.k == 'nul':
        p, q = q, p
    if q.k == 'nul':
        if p.k == 'fn' or (p.k == 'ptr' and p.a[0].k == 'reg'):
            return FALSE
        return mk('pe', p, q)
    if p.k == 'fn' and q.k == 'fn':
        return FALSE
    if p.k == 'ptr' and q.k == 'ptr':
        if p.a[0] is q.a[0]:
            return IC(sub(p.a[1], q.a[1]), 2)
        if p.a[0].k == 'reg' and q.a[0].k == 'reg':
            return FALSE
    if p.n > q.n:
        p, q = q, p
    return mk('pe', p, q)


FPRED = {'oeq': EQ, 'ogt': GT, 'oge': GT | EQ, 'olt': LT, 'ole': LT | EQ, 'one': LT | GT, 'ord': 7, 'uno': 8,
         'ueq': EQ | 8, 'ugt': GT | 8, 'uge': GT | EQ | 8, 'ult': LT | 8, 'ule': LT | EQ | 8, 'une': LT | GT | 8,
         'true': 15, 'false': 0}
IPRED = {'eq': 2, 'ne': 5, 'slt': 1, 'sle': 3, 'sgt': 4, 'sge': 6}
UPRED = {'ult': 1, 'ule': 3, 'ugt': 4, 'uge': 6}


# ---------------------------------------------------------------------------------------------- flow graph order
def wto(fn):
    """weak topological order (Bourdoncle): list of names or ('loop', head, [elements])"""
    if fn.wto is not None:
        return fn.wto
    import sys
    sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))
    dfn = {b: 0 for b in fn.order}
    num = [0]
    stack = []

    def component(v):
        part = []
        for s in fn.blocks[v].succ:
            if dfn[s] == 0:
                visit(s, part)
        part.reverse()
        return ('loop', v, part)

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = dfn[v]
        loop = False
        for s in fn.blocks[v].succ:
            m = visit(s, part) if dfn[s] == 0 else dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.append(component(v))
            else:
                part.append(v)
        return head
    out = []
    visit(fn.order[0], out)
    out.reverse()

    fn.wto = out

    def mark(lst):
        for e in lst:
            if isinstance(e, tuple):
                fn.blocks[e[1]].ishead = True
                mark(e[2])
    mark(out)
    return out


def liveness(fn):
    if fn.blocks[fn.order[0]].live is not None:
        return
    use, de, phiuse = {}, {}, {}
    for b in fn.blocks.values():
        u, d = set(), set()
        for p in b.phis:
            d.add(p.res)
        for ins in b.ins + [b.term]:
            for o in ins.ops:
                if o[0] == 'l' and o[1] not in d:
                    u.add(o[1])
            if ins.op == 'call' and ins.x[0][0] == 'l' and ins.x[0][1] not in d:
                u.add(ins.x[0][1])
            if ins.res:
                d.add(ins.res)
        use[b.name], de[b.name] = u, d
        pu = {}
        for p in b.phis:
            for pred, v in p.x.items():
                if v[0] == 'l':
                    pu.setdefault(pred, set()).add(v[1])
        phiuse[b.name] = pu
    live = {b: set(use[b]) for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for name in reversed(fn.order):
            b = fn.blocks[name]
            out = set()
            for s in b.succ:
                out |= live[s] - {p.res for p in fn.blocks[s].phis}
                out |= phiuse[s].get(name, set())
            new = use[name] | (out - de[name])
            if new != live[name]:
                live[name] = new
                ch = True
    for b in fn.blocks.values():
        b.live = frozenset(live[b.name] | {p.res for p in b.phis})


# ---------------------------------------------------------------------------------------------- program
class Program:
    def __init__(self, modules):
        self.modules = modules
        self.ext = {}
        self.struct = {}
        for m in modules:
            for f in m.functions.values():
                if not f.internal:
                    self.ext[f.name] = f
        self.enums = {}
        for m in modules:
            self.enums.update(m.enumerators())

    def func(self, name, mod=None):
        if mod is not None and name in mod.functions:
            return mod.functions[name]
        return self.ext.get(name)

    def module(self, suffix):
        for m in self.modules:
            if m.name == suffix:
                return m
        raise KeyError(suffix)

    def offset(self, struct, member):
        for m in self.modules:
            mem = m.struct_members(struct)
            if mem and member in mem:
                return mem[member][0]
        raise KeyError('%s.%s' % (struct, member))

    def members(self, struct):
        for m in self.modules:
            mem = m.struct_members(struct)
            if mem:
                return mem
        raise KeyError(struct)


NULLBASE = mk('at', 'nullbase', 'p')            # what a NULL pointer with an offset designates

PURE_MATH = {'sqrt': 'sqrt', 'sqrtf': 'sqrt', 'fabs': 'fabs', 'fabsf': 'fabs', 'pow': 'pow', 'powf': 'pow',
             'exp': 'exp', 'log': 'log', 'cos': 'cos', 'sin': 'sin', 'floor': 'floor', 'ceil': 'ceil',
             'llvm.fabs.f64': 'fabs', 'llvm.fabs.f32': 'fabs', 'llvm.sqrt.f64': 'sqrt', 'fmod': 'fmod',
             'hypot': 'hypot', 'llvm.pow.f64': 'pow', 'log10': 'log10', 'llvm.floor.f64': 'floor',
             'llvm.ceil.f64': 'ceil', 'llvm.exp.f64': 'exp', 'llvm.log.f64': 'log', 'atan2': 'atan2', 'tan': 'tan',
             'atan': 'atan', 'acos': 'acos', 'asin': 'asin', 'cbrt': 'cbrt'}


class Engine:
    def __init__(self, prog):
        self.prog = prog
        self.models = {}
        self.rsize = {}
        self.globcells = {}
        self.unknown = set()
        self.depth = 0
        self.maxdepth = 24
        self.cap = 400
        self.on_load = []
        self.on_store = []
        self.on_call = []
        self.on_branch = []
        self.on_deref = []
        self.on_loop = []
        self.on_head = []          # rewriting of the states that reach a loop head
        self.on_alloc = []
        self.on_free = []
        self.key = lambda st, blk: ()
        self.widen_after = 3
        self.max_iter = 40
        self.steps = 0
        self.max_steps = 20000000
        self.fnseen = set()
        self.callsites = set()
        self.callstack = []
        self.mutable_globals_initial = False
        self.merge = 'eqval'
        self.unroll = None
        self.peel = 0              # loops which end within that many iterations are followed one by one
        self.split_bool = False
        self.opaque_calls = set()
        self.log = []              # events; only those of the stable pass of a loop survive
        self.malloc_fails = True
        self.unknown_model = None

    # ------------------------------------------------------------------ values
    def const(self, mod, op, ty):
        k = op[0]
        if k == 'k':
            t = op[1]
            if t[0] == 'i':
                return B(op[2]) if t[1] == 1 else I(op[2])
            return F(rnd(op[2], t[1]))
        if k == 'null':
            return NULL
        if k == 'g':
            return self.gaddr(mod, op[1])
        if k == 'undef':
            return mk('und', tyclass(op[1]))
        if k == 'zero':
            return self.zero(mod, op[1])
        if k == 'cegep':
            base = self.const(mod, op[2][0][1], ('p',))
            idx = [self.const(mod, v, t) for t, v in op[2][1:]]
            return self.gep(mod, base, op[1], idx)
        if k == 'meta':
            return mk('und', 'm')
        if k == 'cecast':
            return fresh('cecast', 'i')
        raise AnalysisLimit('constant %r' % (op,))

    def zero(self, mod, ty):
        ty = mod.resolve(ty)
        c = tyclass(ty)
        if c == 'i':
            return ZERO
        if c == 'b':
            return FALSE
        if c == 'f':
            return F(0.0)
        if c == 'p':
            return NULL
        return mk('und', 'x')

    def gaddr(self, mod, name):
        f = self.prog.func(name, mod)
        if f is not None:
            return mk('fn', f)
        g = mod.globals.get(name)
        if g is None:
            if name in mod.declared:
                return mk('fn', _ext(name))
            raise AnalysisLimit('global ' + name)
        home = mod.name if g.internal else ''
        if not g.internal and g.init is None:
            for m in self.prog.modules:
                if name in m.globals and m.globals[name].init is not None:
                    g = m.globals[name]
                    mod = m
                    break
        r = mk('reg', name, home, 'glob')
        if r not in self.globcells and g.init is not None:
            cells = {}
            self.globcells[r] = (cells, g.const)
            self.flatten(mod, g.ty, g.init, 0, cells)
            self.rsize[r] = I(mod.size(g.ty))
        return mk('ptr', r, ZERO)

    def flatten(self, mod, ty, init, off, cells):
        ty = mod.resolve(ty)
        if init[0] == 'zero' or init[0] == 'undef':
            if ty[0] == 'a':
                es = mod.size(ty[2])
                for i in range(min(ty[1], 4096)):
                    self.flatten(mod, ty[2], ('zero', ty[2]), off + i * es, cells)
            elif ty[0] == 's':
                for e, o in zip(ty[1], mod.layout(ty)[2]):
                    self.flatten(mod, e, ('zero', e), off + o, cells)
            else:
                cells[off] = (self.zero(mod, ty), mod.size(ty))
            return
        if init[0] == 'str':
            for i, ch in enumerate(init[2]):
                cells[off + i] = (I(ch if ch < 128 else ch - 256), 1)
            return
        if init[0] == 'agg':
            if ty[0] == 'a':
                es = mod.size(ty[2])
                for i, (t, v) in enumerate(init[2]):
                    self.flatten(mod, t, v, off + i * es, cells)
            else:
                for (t, v), o in zip(init[2], mod.layout(ty)[2]):
                    self.flatten(mod, t, v, off + o, cells)
            return
        cells[off] = (self.const(mod, init, ty), mod.size(ty))

    def cstring(self, p):
        """bytes of the constant string a pointer designates, or None"""
        if p.k != 'ptr' or not isconst(p.a[1]):
            return None
        gc = self.globcells.get(p.a[0])
        if not gc or not gc[1]:
            return None
        out = bytearray()
        o = ival(p.a[1])
        while True:
            c = gc[0].get(o)
            if c is None or c[1] != 1:
                return None
            v = ival(c[0])
            if v == 0:
                return bytes(out)
            out.append(v & 255)
            o += 1

    def val(self, st, op, mod, ty=None):
        if op[0] == 'l':
            try:
                return st.frames[-1][op[1]]
            except KeyError:
                return mk('und', tyclass(ty) if ty else 'x')
        return self.const(mod, op, ty)

    def gep(self, mod, base, bt, idx):
        off = ZERO
        ty = bt
        first = True
        for ix in idx:
            if first:
                off = add(off, mul(self.toint(ix), I(mod.size(ty))))
                first = False
                continue
            ty = mod.resolve(ty)
            if ty[0] == 's':
                n = ival(ix)
                off = add(off, I(mod.layout(ty)[2][n]))
                ty = ty[1][n]
            elif ty[0] == 'a':
                ty = ty[2]
                off = add(off, mul(self.toint(ix), I(mod.size(ty))))
            else:
                raise AnalysisLimit('gep into %r' % (ty,))
        if base.k == 'nul':
            if off is ZERO:
                return base
            return mk('ptr', NULLBASE, off)
        if base.k != 'ptr':
            if base.k == 'und':
                return fresh('undefptr', 'p')
            return mk('ptr', mk('at', 'badbase%d' % base.n, 'p'), off)
        return mk('ptr', base.a[0], add(base.a[1], off))

    def toint(self, v):
        if v.k == 'P':
            return v
        if v.k == 'und':
            return fresh('undef', 'i')
        if v.k in ('ic', 'fcm', 'pe', 'not', 'and', 'or', 'B'):
            return self.b2i(v)
        return as_poly(v)

    def b2i(self, b):
        if b.k == 'B':
            return I(b.a[0])
        return as_poly(mk('iop', 'b2i', b))

    def tobool(self, v):
        if v.k in ('ic', 'fcm', 'pe', 'not', 'and', 'or', 'B'):
            return v
        if v.k == 'P':
            return IC(v, 5)
        return mk('pe', v, NULL) if v.k == 'ptr' else v

    # ------------------------------------------------------------------ memory
    def region(self, st, r):
        g = st.mem.get(r)
        if g is not None:
            return g
        gc = self.globcells.get(r)
        if gc is not None and (gc[1] or self.mutable_globals_initial):
            return (dict((I(o), c) for o, c in gc[0].items()), UNDEFD, 0)
        return ({}, INIT, 0)

    def alloc(self, st, name, serial, kind, default, size=None):
        r = mk('reg', name, serial, kind)
        st.mem[r] = ({}, default, 0)
        if size is not None:
            self.rsize[r] = size
        return r

    def defval(self, r, default, off, ty, size):
        if default is ZERD:
            c = ty
            return ZERO if c == 'i' else F(0.0) if c == 'f' else NULL if c == 'p' else FALSE if c == 'b' else I(0)
        if default is UNDEFD:
            return mk('und', ty)
        if default.k == 'als':
            return wrap(mk('ld', default.a[0], default.a[1], add(off, default.a[2]), ty, size), ty)
        return wrap(mk('ld', r, default, off, ty, size), ty)

    def read(self, st, p, ty, size):
        """value of class ty read at pointer p"""
        r, off = p.a
        g = st.mem.get(r)
        if g is None:
            gc = self.globcells.get(r)
            if gc is None or not (gc[1] or self.mutable_globals_initial):
                return self.defval(r, INIT, off, ty, size)
            if isconst(off):
                c = gc[0].get(ival(off))
                if c is not None and c[1] == size:
                    return self.conv(c[0], ty)
            return wrap(mk('ld', r, INIT, off, ty, size), ty)
        cells, default, nsym = g
        c = cells.get(off)
        if c is not None:
            if c[1] == size and vclass(c[0]) == ty:
                return c[0]
            if c[0].k == 'und':
                return mk('und', ty)
            if c[1] >= size and c[0] is ZERO:
                return self.defval(r, ZERD, off, ty, size)
            if c[1] == size:
                return self.conv(c[0], ty)
            return wrap(mk('ld', r, fresh('mix', 'v'), off, ty, size), ty)
        if cells and self.overlap(st, cells, nsym, off, size):
            return wrap(mk('ld', r, fresh('mix', 'v'), off, ty, size), ty)
        return self.defval(r, default, off, ty, size)

    def conv(self, v, ty):
        vc = vclass(v)
        if vc == ty or vc == 'x':
            return v
        if v.k == 'und':
            return mk('und', ty)
        if ty == 'i' and vc == 'b':
            return self.b2i(v)
        if ty == 'b' and vc == 'i':
            return self.tobool(v)
        if ty == 'i':
            return iop('bits', v)
        if ty == 'f':
            return mk('fo', 'bits', v)
        if ty == 'p':
            if v is ZERO:
                return NULL
            return mk('ptr', mk('iop', 'i2p', v), ZERO)
        return fresh('conv', ty)

    def overlap(self, st, cells, nsym, off, size):
        """keys of cells that may overlap [off, off+size)"""
        out = []
        if isconst(off):
            o = ival(off)
            for k in range(max(o - 15, 0) if o >= 0 else o - 15, o + size):
                c = cells.get(I(k))
                if c is not None and k + c[1] > o:
                    out.append(I(k))
            if nsym:
                for k, c in cells.items():
                    if not isconst(k) and self.mayalias(st, k, c[1], off, size):
                        out.append(k)
            return out
        for k, c in cells.items():
            if self.mayalias(st, k, c[1], off, size):
                out.append(k)
        return out

    def mayalias(self, st, k, ks, off, size):
        d = sub(k, off)
        if isconst(d):
            v = ival(d)
            return not (v >= size or v + ks <= 0)
        lo, hi = ibounds(st, d)
        return not (lo >= size or hi + ks <= 0)

    def write(self, st, p, v, size):
        r, off = p.a
        cells, default, nsym = self.region(st, r)
        cells = dict(cells)
        old = cells.get(off)
        if old is None or old[1] != size or nsym or not isconst(off):
            for k in self.overlap(st, cells, nsym, off, size):
                if k is not off:
                    c = cells.pop(k)
                    if not isconst(k):
                        nsym -= 1
                    if isconst(k) and isconst(off):
                        # partially overwritten constant cell: unknown remainder
                        if ival(k) < ival(off) or ival(k) + c[1] > ival(off) + size:
                            cells[k] = (fresh('mix', 'x'), c[1])
                    else:
                        cells[k] = (fresh('mix', vclass(c[0])), c[1]) if isconst(k) else c
                        if not isconst(k):
                            del cells[k]
                            default = fresh('ver', 'v')
                    if old is not None and k is off:
                        old = None
            old = cells.get(off)
        if old is None and not isconst(off):
            nsym += 1
        cells[off] = (v, size)
        st.mem[r] = (cells, default, nsym)

    def havoc(self, st, r):
        st.mem[r] = ({}, fresh('ver', 'v'), 0)

    def fill(self, st, p, size, default):
        """memset-like: [p, p+size) gets content default"""
        r, off = p.a
        whole = self.rsize.get(r)
        cells, d0, nsym = self.region(st, r)
        if off is ZERO and whole is not None and imask(st, sub(whole, size)) == 2:
            st.mem[r] = ({}, default, 0)
            return
        if not cells and d0 is default:
            return
        if isconst(off) and isconst(size):
            o, n = ival(off), ival(size)
            cells = {k: c for k, c in cells.items() if isconst(k) and not (o <= ival(k) < o + n)}
            if default is ZERD and n <= 1024:
                step = 8
                i = o
                while i < o + n:
                    s = min(step, o + n - i)
                    cells[I(i)] = (ZERO, s)
                    i += s
                st.mem[r] = (cells, d0, 0)
                return
        self.havoc(st, r)

    # ------------------------------------------------------------------ running
    def run(self, fn, args, st):
        """all (state, return value) of a call, callee inlined"""
        if self.depth > self.maxdepth:
            raise AnalysisLimit('call depth at ' + fn.name)
        if sum(1 for f, _ in self.callstack if f is fn) >= 5:
            raise AnalysisLimit('recursion through ' + fn.name)
        liveness(fn)
        order = wto(fn)
        self.fnseen.add(fn)
        self.depth += 1
        self.callstack.append((fn, None))
        env = {}
        for (ty, nm), v in zip(fn.params, args):
            env[nm] = v
        st.frames = st.frames + [env]
        pend = {fn.order[0]: [st]}
        rets = []
        try:
            self.run_list(fn, order, pend, rets)
        finally:
            self.callstack.pop()
            self.depth -= 1
        out = []
        for s, v in rets:
            s.frames = s.frames[:-1]
            out.append((s, v))
        if len(out) > 1 and self.merge:
            out = self.merge_rets(fn, out)
        return out

    def merge_rets(self, fn, out):
        groups = {}
        for s, v in out:
            groups.setdefault((v, self.key(s, None)), []).append(s)
        res = []
        for (v, _), lst in groups.items():
            for s in self.compact(lst, None):
                res.append((s, v))
        return res

    def run_list(self, fn, order, pend, rets):
        for e in order:
            if isinstance(e, tuple):
                self.run_loop(fn, e, pend, rets)
            else:
                lst = pend.pop(e, None)
                if not lst:
                    continue
                if len(lst) > 1:
                    lst = self.compact(lst, fn.blocks[e])
                for st in lst:
                    self.block(fn, fn.blocks[e], st, pend, rets)

    def prune(self, st, blk):
        live = blk.live
        env = st.frames[-1]
        if len(env) > len(live):
            st.frames = st.frames[:-1] + [{k: v for k, v in env.items() if k in live}]

    def gc(self, st):
        """drop lazily created regions that no value can designate any more"""
        lazy = [r for r in st.mem if r.k != 'reg' or r.a[2] == 'stack']
        if not lazy:
            return
        seen = set()
        work = []

        def touch(t):
            if isinstance(t, T):
                if t in seen:
                    return
                seen.add(t)
                work.append(t)
        for f in st.frames:
            for v in f.values():
                touch(v)
        for k, v in st.gh.items():
            touch(v)
            if isinstance(k, tuple):
                for x in k:
                    touch(x)
            elif isinstance(k, T):
                touch(k)
        for r in st.mem:
            if (r.k == 'reg' and r.a[2] != 'stack') or r.k == 'at':
                touch(r)
        done = set()
        while True:
            while work:
                t = work.pop()
                for x in t.a:
                    if isinstance(x, T):
                        touch(x)
                    elif t.k == 'P' and isinstance(x, tuple):
                        for m in x:
                            for y in m[0]:
                                touch(y)
                g = st.mem.get(t)
                if g is not None and t not in done:
                    done.add(t)
                    for c in g[0].values():
                        touch(c[0])
            again = False
            for r in lazy:
                if r in done:
                    continue
                if r.k == 'ld' and r.a[0] in seen and all(a in seen for a in atoms(r.a[2])):
                    g = st.mem.get(r.a[0])
                    if (g is None and r.a[1] is INIT) or (g is not None and g[1] is r.a[1] and r.a[2] not in g[0]):
                        touch(r)
                        again = True
                        continue
                if r in seen:
                    done.add(r)
            if not again and not work:
                break
        for r in lazy:
            if r not in done:
                del st.mem[r]

    def compact(self, lst, blk):
        """merge the states of one program point that hold identical values (facts are united)"""
        if blk is not None:
            for st in lst:
                self.prune(st, blk)
        if not self.merge:
            return lst
        out = []
        seen = {}
        for st in lst:
            sig = (self.key(st, blk), frozenset(st.frames[-1].items()), frozenset(st.gh.items()),
                   frozenset((r, g[1], frozenset(g[0].items())) for r, g in st.mem.items()))
            o = seen.get(sig)
            if o is not None and len(o.frames) == len(st.frames):
                merge_facts(o, st)
            else:
                seen[sig] = st
                out.append(st)
        if len(out) > self.cap:
            groups = {}
            for st in out:
                groups.setdefault(self.key(st, blk), []).append(st)
            out = []
            for k, g in groups.items():
                if len(g) > max(8, self.cap // 8):
                    j = g[0]
                    for s in g[1:]:
                        j, _ = join(self, j, s, False, 0)
                    out.append(j)
                else:
                    out += g
            if len(out) > 4 * self.cap:
                raise AnalysisLimit('too many disjuncts in %s' % (blk.term.fn.name if blk else '?'))
        return out

    def loop_names(self, e, acc):
        acc.add(e[1])
        for x in e[2]:
            if isinstance(x, tuple):
                self.loop_names(x, acc)
            else:
                acc.add(x)
        return acc

    def run_loop(self, fn, e, pend, rets):
        head, body = e[1], e[2]
        names = self.loop_names(e, set())
        entry = pend.pop(head, [])
        others = {b: pend.pop(b) for b in list(pend) if b in names}
        if not entry and not others:
            return
        hb = fn.blocks[head]
        if self.unroll:
            self.run_unrolled(fn, e, hb, entry, others, pend, rets)
            return
        if self.peel and self.run_short(fn, e, hb, entry, others, pend, rets):
            return
        groups = {}        # key -> [state, bindable set, count]
        entry0 = [st.copy() for st in entry] if self.on_loop else None
        for st in entry:
            self.prune(st, hb)
            self.gc(st)
            for cb in self.on_head:
                cb(self, st, hb)
            self.absorb(groups, st, hb)
        it = 0
        mark = len(self.log)
        while True:
            it += 1
            del self.log[mark:]
            if it > self.max_iter:
                raise AnalysisLimit('no fixpoint at %s in %s' % (hb.term.loc(), fn.name))
            inner = {b: [s.copy() for s in l] for b, l in others.items()}
            ret2 = []
            heads = [(k, g[0]) for k, g in groups.items()]
            for k, h in heads:
                self.block(fn, hb, h.copy(), inner, ret2)
            self.run_list(fn, body, inner, ret2)
            back = inner.pop(head, [])
            changed = False
            subst = []
            for st in back:
                self.prune(st, hb)
                self.gc(st)
                for cb in self.on_head:
                    cb(self, st, hb)
                r = self.absorb(groups, st, hb)
                if r is True:
                    changed = True
                else:
                    subst.append((st, r))
            if not changed:
                break
        for cb in self.on_loop:
            cb(self, fn, hb, {k: (g[0], g[1]) for k, g in groups.items()}, subst, mark, entry0)
        rets.extend(ret2)
        for b, l in inner.items():
            pend.setdefault(b, []).extend(l)

    def run_short(self, fn, e, hb, entry, others, pend, rets):
        """follow a loop iteration by iteration if it ends soon"""
        mark = len(self.log)
        copy = lambda d: {b: [s.copy() for s in l] for b, l in d.items()}
        out, rets2 = {}, []
        work, inner = [s.copy() for s in entry], copy(others)
        for it in range(self.peel + 1):
            for st in work:
                self.prune(st, hb)
                self.block(fn, hb, st, inner, rets2)
            self.run_list(fn, e[2], inner, rets2)
            work = inner.pop(e[1], [])
            for b, l in inner.items():
                out.setdefault(b, []).extend(l)
            if not work:
                rets.extend(rets2)
                for b, l in out.items():
                    pend.setdefault(b, []).extend(l)
                return True
            if out or len(work) > 16:
                break              # the number of iterations depends on the data
            inner = {}
        del self.log[mark:]
        return False

    def run_unrolled(self, fn, e, hb, entry, others, pend, rets):
        """a loop followed iteration by iteration (no abstraction); refused beyond self.unroll iterations"""
        work = entry
        for it in range(self.unroll):
            inner = others
            others = {}
            for st in work:
                self.prune(st, hb)
                self.block(fn, hb, st, inner, rets)
            self.run_list(fn, e[2], inner, rets)
            work = inner.pop(e[1], [])
            for b, l in inner.items():
                pend.setdefault(b, []).extend(l)
            if not work:
                return
        raise AnalysisLimit('more than %d iterations at %s in %s' % (self.unroll, hb.term.loc(), fn.name))

    def absorb(self, groups, st, hb):
        """True when the head state of st's partition had to grow, else the substitution that shows inclusion"""
        k = (self.key(st, hb), ptrsig(st))
        g = groups.get(k)
        if g is None:
            groups[k] = [st.copy(), set(), 0]
            return True
        if g[1]:
            # regions reached only through a loop-varying designator are summarised (their changes are forgotten)
            for r in [r for r in st.mem if r.k != 'reg' and atoms(r) & g[1]]:
                del st.mem[r]
        s = subsumes(self, g[0], st, g[1])
        if s is not None:
            return s
        g[2] += 1
        j, new = join(self, g[0], st, True, g[2], g[1])
        g[0] = j
        g[1] = {a for a in (g[1] | new)}
        return True

    # ------------------------------------------------------------------ one block
    def block(self, fn, blk, st, pend, rets):
        states = [st]
        for ins in blk.ins:
            nxt = None
            for i, s in enumerate(states):
                self.steps += 1
                r = self.instr(fn, ins, s)
                if r is None:
                    if nxt is not None:
                        nxt.append(s)
                else:
                    if nxt is None:
                        nxt = states[:i]
                    nxt.extend(r)
            if nxt is not None:
                states = nxt
                if not states:
                    return
                if len(states) > 12 and ins.op == 'call':
                    states = self.compact(states, None)
        if self.steps > self.max_steps:
            raise AnalysisLimit('step budget')
        t = blk.term
        mod = fn.mod
        for s in states:
            if t.op == 'ret':
                v = self.val(s, t.ops[0], mod, t.ty) if t.ops else None
                for r in [r for r in s.mem if r.k == 'reg' and r.a[2] == 'stack' and r.a[1][1] == self.depth
                          and r.a[1][0] == fn.name]:
                    del s.mem[r]
                rets.append((s, v))
            elif t.op == 'br':
                if not t.ops:
                    self.edge(fn, blk, t.x[0], s, pend)
                else:
                    c = self.tobool(self.val(s, t.ops[0], mod, ('i', 1)))
                    self.fork(fn, blk, t, s, [(c, t.x[0]), (NOT(c), t.x[1])], pend)
            elif t.op == 'switch':
                v = self.toint(self.val(s, t.ops[0], mod, t.ty))
                alts = []
                rest = TRUE
                for k, tgt in t.x[1]:
                    c = IC(sub(v, I(k)), 2)
                    alts.append((c, tgt))
                    rest = AND(rest, NOT(c))
                alts.append((rest, t.x[0]))
                self.fork(fn, blk, t, s, alts, pend)
            # unreachable: drop

    def fork(self, fn, blk, t, s, alts, pend):
        alts = [(c, tgt) for c, tgt in alts if c is not FALSE]
        if len(alts) == 1 and alts[0][0] is TRUE:
            self.edge(fn, blk, alts[0][1], s, pend)
            return
        live = []
        for c, tgt in alts:
            v = beval(s, c)
            if v is False:
                continue
            live.append((c, tgt))
            if v is True:
                live = [(c, tgt)]
                break
        for cb in self.on_branch:
            cb(self, s, t, alts)
        n = len(live)
        for i, (c, tgt) in enumerate(live):
            s2 = s if i == n - 1 else s.copy()
            for s3 in assume(s2, c, True):
                if n > 1:
                    s3.tr = (s3.tr, (t, c))
                self.edge(fn, blk, tgt, s3, pend)

    def edge(self, fn, blk, tgt, st, pend):
        tb = fn.blocks[tgt]
        if tb.phis:
            vals = [(p.res, self.val(st, p.x[blk.name], fn.mod, p.ty)) for p in tb.phis]
            env = dict(st.frames[-1])
            env.update(vals)
            st.frames = st.frames[:-1] + [env]
        pend.setdefault(tgt, []).append(st)

    # ------------------------------------------------------------------ one instruction
    def instr(self, fn, ins, st):
        op = ins.op
        mod = fn.mod
        env = st.frames[-1]
        if op == 'load':
            p = self.val(st, ins.ops[0], mod, ('p',))
            ty = tyclass(ins.ty)
            size = mod.size(ins.ty)
            if not self.deref(st, p, ins):
                return []
            v = self.read(st, p, ty, size) if p.k == 'ptr' else fresh('bad', ty)
            for cb in self.on_load:
                r = cb(self, st, p, ty, size, v, ins)
                if r is not None:
                    v = r
            env[ins.res] = v
            return None
        if op == 'store':
            v = self.val(st, ins.ops[0], mod, ins.ty)
            p = self.val(st, ins.ops[1], mod, ('p',))
            size = mod.size(ins.ty)
            if not self.deref(st, p, ins):
                return []
            for cb in self.on_store:
                if cb(self, st, p, v, size, ins) == 'stop':
                    return []
            if p.k == 'ptr':
                self.write(st, p, v, size)
            return None
        if op == 'getelementptr':
            base = self.val(st, ins.ops[0], mod, ('p',))
            bt, tys = ins.x
            env[ins.res] = self.gep(mod, base, bt, [self.val(st, o, mod, t) for o, t in zip(ins.ops[1:], tys[1:])])
            return None
        if op == 'icmp':
            env[ins.res] = self.icmp(st, ins.x, self.val(st, ins.ops[0], mod, ins.ty),
                                     self.val(st, ins.ops[1], mod, ins.ty))
            return None
        if op == 'fcmp':
            x, y = self.val(st, ins.ops[0], mod, ins.ty), self.val(st, ins.ops[1], mod, ins.ty)
            env[ins.res] = FCM(self.tofl(x), self.tofl(y), FPRED[ins.x])
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = self.val(st, ins.ops[0], mod, ins.ty), self.val(st, ins.ops[1], mod, ins.ty)
            env[ins.res] = self.fop(op, self.tofl(x), self.tofl(y), ins.ty[1])
            return None
        if op == 'fneg':
            x = self.tofl(self.val(st, ins.ops[0], mod, ins.ty))
            env[ins.res] = F(-fval(x)) if x.k == 'fc' else x.a[1] if (x.k == 'fo' and x.a[0] == 'fneg') \
                else mk('fo', 'fneg', x)
            return None
        if op in ir.BIN:
            x, y = self.val(st, ins.ops[0], mod, ins.ty), self.val(st, ins.ops[1], mod, ins.ty)
            env[ins.res] = self.ibin(st, op, x, y, ins.ty)
            return None
        if op in ir.CAST:
            x = self.val(st, ins.ops[0], mod, ins.x)
            if self.split_bool and op in ('zext', 'sext') and ins.x == ('i', 1):
                b = self.tobool(x)
                v = beval(st, b)
                one = I(1 if op == 'zext' else -1)
                if v is not None:
                    env[ins.res] = one if v else ZERO
                    return None
                out = []
                for s, truth in ((st.copy(), True), (st, False)):
                    for s3 in assume(s, b, truth):
                        s3.frames[-1][ins.res] = one if truth else ZERO
                        out.append(s3)
                return out
            env[ins.res] = self.cast(st, op, x, ins.x, ins.ty)
            return None
        if op == 'select':
            c = self.tobool(self.val(st, ins.ops[0], mod, ('i', 1)))
            x, y = self.val(st, ins.ops[1], mod, ins.ty), self.val(st, ins.ops[2], mod, ins.ty)
            if x is y:
                env[ins.res] = x
                return None
            v = beval(st, c)
            if v is not None:
                env[ins.res] = x if v else y
                return None
            if tyclass(ins.ty) == 'i' and isconst(x) and isconst(y) and not self.split_bool:
                # affine in the condition: keeps one state
                env[ins.res] = add(y, mul(self.b2i(c), sub(x, y)))
                return None
            s2 = st.copy()
            out = []
            for s, truth, w in ((st, True, x), (s2, False, y)):
                for s3 in assume(s, c, truth):
                    s3.frames[-1][ins.res] = w
                    out.append(s3)
            return out
        if op == 'call':
            return self.call(fn, ins, st)
        if op == 'alloca':
            nm = '%s.%s' % (fn.name, ins.res)
            r = mk('reg', nm, (fn.name, self.depth), 'stack')
            st.mem[r] = ({}, UNDEFD, 0)
            sz = I(mod.size(ins.x))
            if ins.ops:
                sz = mul(sz, self.toint(self.val(st, ins.ops[0], mod, ('i', 64))))
            self.rsize[r] = sz
            env[ins.res] = mk('ptr', r, ZERO)
            return None
        if op == 'extractvalue':
            v = self.val(st, ins.ops[0], mod, ins.ty)
            env[ins.res] = v.a[ins.x[0]] if v.k == 'agg' else fresh('ev', 'x')
            return None
        if op == 'insertvalue':
            env[ins.res] = fresh('iv', 'x')
            return None
        raise AnalysisLimit('instruction ' + op)

    def tofl(self, v):
        if v.k == 'und':
            return fresh('undef', 'f')
        return v

    def deref(self, st, p, ins):
        nn = nonnull(st, p) if p.k in ('ptr', 'nul', 'fn') else None
        if p.k == 'ptr' and p.a[0] is NULLBASE:
            nn = False
        if self.on_deref:
            ok = True
            for cb in self.on_deref:
                if cb(self, st, p, nn, ins) is False:
                    ok = False
            if not ok:
                return False
        if nn is False:
            return False
        if nn is None and p.k == 'ptr':
            st.nn[p.a[0]] = True
        return True

    def fop(self, op, x, y, bits):
        if x.k == 'fc' and y.k == 'fc':
            a, b = fval(x), fval(y)
            try:
                if op == 'fadd':
                    return F(rnd(a + b, bits))
                if op == 'fsub':
                    return F(rnd(a - b, bits))
                if op == 'fmul':
                    return F(rnd(a * b, bits))
                if op == 'fdiv' and b != 0:
                    return F(rnd(a / b, bits))
            except OverflowError:
                pass
        if op in ('fadd', 'fmul') and x.n > y.n:
            x, y = y, x         # commutative, exactly
        if op == 'fmul':
            if x.k == 'fc' and fval(x) == 1.0:
                return y
            if y.k == 'fc' and fval(y) == 1.0:
                return x
        if op == 'fdiv' and y.k == 'fc' and fval(y) == 1.0:
            return x
        if op == 'fsub' and y.k == 'fc' and fval(y) == 0.0 and math.copysign(1, fval(y)) > 0:
            return x
        return mk('fo', op, x, y) if bits == 64 else mk('fo', op, x, y, 's')

    def ibin(self, st, op, x, y, ty):
        if ty[1] == 1:
            x, y = self.tobool(x), self.tobool(y)
            if op == 'and':
                return AND(x, y)
            if op == 'or':
                return OR(x, y)
            if op == 'xor':
                if y is TRUE:
                    return NOT(x)
                if x is TRUE:
                    return NOT(y)
                return mk('not', mk('pe', x, y)) if x is not y else FALSE
        x, y = self.toint(x), self.toint(y)
        if op == 'add':
            return add(x, y)
        if op == 'sub':
            return sub(x, y)
        if op == 'mul':
            return mul(x, y)
        if op == 'shl' and isconst(y):
            return scale(x, 1 << ival(y))
        if isconst(x) and isconst(y):
            a, b = ival(x), ival(y)
            bits = ty[1]
            ua, ub = a % (1 << bits), b % (1 << bits)
            if op == 'sdiv' and b:
                q = abs(a) // abs(b)
                return I(q if (a < 0) == (b < 0) else -q)
            if op == 'srem' and b:
                r = abs(a) % abs(b)
                return I(r if a >= 0 else -r)
            if op == 'udiv' and b:
                return I(_sgn(ua // ub, bits))
            if op == 'urem' and b:
                return I(_sgn(ua % ub, bits))
            if op == 'and':
                return I(_sgn(ua & ub, bits))
            if op == 'or':
                return I(_sgn(ua | ub, bits))
            if op == 'xor':
                return I(_sgn(ua ^ ub, bits))
            if op == 'lshr':
                return I(_sgn(ua >> ub, bits))
            if op == 'ashr':
                return I(a >> ub)
        if op in ('sdiv', 'udiv') and isconst(y) and ival(y) > 0:
            d = ival(y)
            if d == 1:
                return x
            if x.a[0] % d == 0 and all(c % d == 0 for _, c in x.a[1]):
                if op == 'sdiv' or ibounds(st, x)[0] >= 0:
                    return mk('P', x.a[0] // d, tuple((m, c // d) for m, c in x.a[1]))
        if op in ('srem', 'urem') and isconst(y) and ival(y) > 0 and not isconst(x) and \
                all(c % ival(y) == 0 for _, c in x.a[1]) and ibounds(st, x)[0] >= 0:
            return I(x.a[0] % ival(y))
        if op == 'and' and isconst(y) and ival(y) == 1 and single(x) is not None and single(x).k == 'iop' and \
                single(x).a[0] == 'b2i':
            return x
        if op in ('and', 'or', 'xor') and x.n > y.n:
            x, y = y, x
        if op in ('and', 'or') and x is y:
            return x
        if op == 'and' and (x is ZERO or y is ZERO):
            return ZERO
        if op == 'or' and (x is ZERO or y is ZERO):
            return y if x is ZERO else x
        r = iop(op, x, y, I(ty[1])) if op in ('lshr', 'udiv', 'urem') else iop(op, x, y)
        if op in ('srem', 'urem') and not isconst(y) and ibounds(st, x)[0] >= 0 and ibounds(st, y)[0] > 0:
            for p, m in ((r, 6), (sub(y, r), 4), (sub(x, r), 6)):
                assume_ic(st, p, m)
        return r

    def cast(self, st, op, x, fty, tty):
        if x.k == 'und':
            return mk('und', tyclass(tty))
        if op == 'freeze':
            return x
        if op == 'sext':
            if fty[1] == 1:
                return neg(self.b2i(self.tobool(x)))
            return x
        if op == 'zext':
            if fty[1] == 1:
                return self.b2i(self.tobool(x))
            x = self.toint(x)
            if isconst(x):
                return I(ival(x) % (1 << fty[1]))
            if ibounds(st, x)[0] >= 0:
                return x
            return iop('zext', x, I(fty[1]))
        if op == 'trunc':
            if tty[1] == 1:
                x = self.toint(x)
                s = single(x)
                if s is not None and s.k == 'iop' and s.a[0] == 'b2i':
                    return s.a[1]
                if isconst(x):
                    return B(ival(x) & 1)
                return IC(iop('and', x, ONE), 5)
            x = self.toint(x)
            if isconst(x):
                return I(_sgn(ival(x) % (1 << tty[1]), tty[1]))
            lo, hi = ibounds(st, x)
            b = 1 << (tty[1] - 1)
            if -b <= lo and hi < b:
                return x
            if tty[1] >= 32:
                return x            # assumption: no narrowing overflow of 32-bit quantities
            return iop('trunc', x, I(tty[1]))
        if op in ('sitofp', 'uitofp'):
            x = self.toint(x)
            if isconst(x):
                return F(rnd(float(ival(x)), tty[1]))
            return mk('fo', 'sitofp', x)
        if op in ('fptosi', 'fptoui'):
            if x.k == 'fc' and abs(fval(x)) < 1e18:
                return I(int(fval(x)))
            if x.k == 'fo' and x.a[0] == 'sitofp':
                return x.a[1]
            return iop('fptosi', x)
        if op == 'fpext':
            return x if x.k == 'fc' else mk('fo', 'fpext', x)
        if op == 'fptrunc':
            if x.k == 'fc':
                return F(rnd(fval(x), 32))
            if x.k == 'fo' and x.a[0] == 'fpext':
                return x.a[1]
            return mk('fo', 'fptrunc', x)
        if op == 'ptrtoint':
            if x.k == 'nul':
                return ZERO
            if x.k == 'ptr':
                return add(iop('p2i', mk('ptr', x.a[0], ZERO)), x.a[1])
            return iop('p2i', x)
        if op == 'inttoptr':
            x = self.toint(x)
            if x is ZERO:
                return NULL
            for m, c in x.a[1]:
                if c == 1 and len(m) == 1 and m[0].k == 'iop' and m[0].a[0] == 'p2i' and m[0].a[1].k == 'ptr':
                    rest = add(x, as_poly(m[0]), -1)
                    return mk('ptr', m[0].a[1].a[0], rest)
            return mk('ptr', mk('iop', 'i2p', x), ZERO)
        if op == 'bitcast':
            return self.conv(x, tyclass(tty))
        raise AnalysisLimit('cast ' + op)

    def icmp(self, st, pred, x, y):
        xk, yk = x.k, y.k
        if xk in ('ptr', 'nul', 'fn') or yk in ('ptr', 'nul', 'fn'):
            if pred == 'eq':
                return ptr_eq(x, y)
            if pred == 'ne':
                return NOT(ptr_eq(x, y))
            if xk == 'ptr' and yk == 'ptr' and x.a[0] is y.a[0]:
                return IC(sub(x.a[1], y.a[1]), UPRED.get(pred) or IPRED[pred])
            return mk('not', mk('pe', mk('iop', 'p' + pred, x, y), NULL))
        if xk in ('ic', 'fcm', 'pe', 'not', 'and', 'or', 'B') or yk in ('ic', 'fcm', 'pe', 'not', 'and', 'or', 'B'):
            bx, by = self.tobool(x), self.tobool(y)
            if by.k == 'B' and pred in ('eq', 'ne'):
                return bx if (by is TRUE) == (pred == 'eq') else NOT(bx)
            x, y = self.b2i(bx), self.b2i(by)
        x, y = self.toint(x), self.toint(y)
        if pred in IPRED:
            return IC(sub(x, y), IPRED[pred])
        # unsigned
        if isconst(x) and isconst(y):
            a, b = ival(x) % (1 << 64), ival(y) % (1 << 64)
            return IC(I(-1 if a < b else 0 if a == b else 1), UPRED[pred])
        lx, ly = ibounds(st, x)[0], ibounds(st, y)[0]
        if lx >= 0 and ly >= 0:
            return IC(sub(x, y), UPRED[pred])
        if isconst(y) and ival(y) == 0 and pred in ('ugt', 'ule'):
            return IC(x, 5 if pred == 'ugt' else 2)
        if lx >= 0 and isconst(y) and ival(y) < 0:
            return B(pred in ('ult', 'ule'))
        if isconst(y) and ival(y) >= 0:
            # x <u c  <=>  0 <= x < c when seen as signed
            inside = AND(IC(x, 6), IC(sub(x, y), UPRED['ult'] if pred in ('ult', 'uge') else UPRED['ule']))
            return inside if pred in ('ult', 'ule') else NOT(inside)
        if ly >= 0:
            inside = AND(IC(x, 6), IC(sub(x, y), UPRED['ult'] if pred in ('ult', 'uge') else UPRED['ule']))
            return inside if pred in ('ult', 'ule') else NOT(inside)
        if lx >= 0 and ly < 0:
            inside = AND(IC(y, 6), IC(sub(y, x), UPRED['ult'] if pred in ('ugt', 'ule') else UPRED['ule']))
            return inside if pred in ('ugt', 'uge') else NOT(inside)
        return mk('not', mk('pe', mk('iop', 'u' + pred, x, y), NULL))

    # ------------------------------------------------------------------ calls
    def call(self, fn, ins, st):
        callee, tys = ins.x
        mod = fn.mod
        if callee[0] == 'asm':
            raise AnalysisLimit('inline assembly')
        args = [self.val(st, o, mod, t) if o[0] != 'meta' else mk('und', 'm') for o, t in zip(ins.ops, tys)]
        if callee[0] == 'g':
            f = self.prog.func(callee[1], mod)
            name = callee[1]
        else:
            cv = self.val(st, callee, mod, ('p',))
            if cv.k == 'fn':
                f = cv.a[0]
                name = f.name
                if isinstance(f, _Ext):
                    f = None
            else:
                f = None
                name = '*'
                args = [cv] + args
        self.callsites.add(ins)
        for cb in self.on_call:
            cb(self, st, name, args, ins)
        res = None
        m = self.models.get(name)
        if m is not None:
            res = m(self, st, args, ins)
        if res is None:
            if f is not None and name not in self.opaque_calls:
                self.callstack[-1] = (fn, ins)
                frames = st.frames
                res = self.run(f, args, st)
            else:
                res = self.external(st, name, args, ins)
        out = []
        for s, v in res:
            if ins.res is not None:
                if v is None:
                    v = fresh('ret_' + name, tyclass(ins.ty))
                env = dict(s.frames[-1])
                env[ins.res] = v
                s.frames = s.frames[:-1] + [env]
            out.append(s)
        return out

    def external(self, st, name, args, ins):
        ty = tyclass(ins.ty)
        if name in ('fmax', 'fmin', 'llvm.maxnum.f64', 'llvm.minnum.f64'):
            x, y = [self.tofl(a) for a in args]
            out = []
            for m, v in ((GT | EQ if 'max' in name else LT | EQ, x),
                         (LT if 'max' in name else GT, y)):
                out += [(s, v) for s in assume(st.copy(), FCM(x, y, m), True)]
            for s in assume(st.copy(), FCM(x, y, UN), True):
                for c, v in ((FCM(x, x, UN), y), (NOT(FCM(x, x, UN)), x)):
                    out += [(s2, v) for s2 in assume(s.copy(), c, True)]
            return out
        if name in PURE_MATH:
            a = [self.tofl(x) for x in args]
            o = PURE_MATH[name]
            if all(x.k == 'fc' for x in a):
                try:
                    if o == 'sqrt' and fval(a[0]) >= 0:
                        return [(st, F(math.sqrt(fval(a[0]))))]
                    if o == 'fabs':
                        return [(st, F(abs(fval(a[0]))))]
                except (ValueError, OverflowError):
                    pass
            if o == 'fabs' and a[0].k == 'fo' and a[0].a[0] == 'fneg':
                a = [a[0].a[1]]
            if o == 'fabs' and a[0].k == 'fo' and a[0].a[0] == 'fabs':
                return [(st, a[0])]
            return [(st, mk('fo', o, *a))]
        if name.startswith('llvm.is.fpclass'):
            return [(st, self.fpclass(st, args[0], ival(args[1])))]
        if name in ('malloc', 'calloc'):
            size = self.toint(args[0]) if name == 'malloc' else mul(self.toint(args[0]), self.toint(args[1]))
            return self.m_malloc(st, size, name == 'calloc', ins)
        if name == 'realloc':
            r1 = self.m_malloc(st, self.toint(args[1]), False, ins)
            for s, v in r1:
                if v is not NULL and args[0].k == 'ptr':
                    self.m_free(s, args[0], ins)
            return r1
        if name == 'free':
            self.m_free(st, args[0], ins)
            return [(st, None)]
        if name.startswith('llvm.memset') or name == 'memset':
            if not self.deref(st, args[0], ins):
                if isconst(self.toint(args[2])) and ival(self.toint(args[2])) == 0:
                    return [(st, args[0])]
                return []
            if args[0].k == 'ptr':
                b = self.toint(args[1])
                for cb in self.on_store:
                    cb(self, st, args[0], None, self.toint(args[2]), ins)
                if b is ZERO:
                    self.fill(st, args[0], self.toint(args[2]), ZERD)
                else:
                    self.havoc(st, args[0].a[0])
            return [(st, args[0])]
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove') or name.startswith('llvm.memmove'):
            if not self.deref(st, args[0], ins) or not self.deref(st, args[1], ins):
                return []
            for cb in self.on_load:
                cb(self, st, args[1], 'x', self.toint(args[2]), None, ins)
            for cb in self.on_store:
                cb(self, st, args[0], None, self.toint(args[2]), ins)
            self.m_copy(st, args[0], args[1], self.toint(args[2]))
            return [(st, args[0])]
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name in ('llvm.assume',):
            return [(st, None)]
        if name == 'llvm.expect.i64':
            return [(st, args[0])]
        if name == '__errno_location':
            return [(st, mk('ptr', mk('reg', 'errno', 0, 'errno'), ZERO))]
        if name in ('strlen',):
            cs = self.cstring(args[0])
            if cs is not None:
                return [(st, I(len(cs)))]
            return [(st, wrap(mk('iop', 'usz', args[0], fresh('sl', 'v')), 'i'))]
        if name in ('abort', 'exit', '__assert_fail', 'longjmp', '_exit'):
            return []
        if name in ('printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'fflush', 'vfprintf', 'perror',
                    'fwrite'):
            return [(st, fresh(name, 'i'))]
        if name in ('strcmp', 'strncmp', 'strcasecmp', 'memcmp'):
            a, b = self.cstring(args[0]), self.cstring(args[1])
            if a is not None and b is not None and name == 'strcmp':
                return [(st, I((a > b) - (a < b)))]
            return [(st, fresh(name, 'i'))]
        if name in ('sprintf', 'snprintf', 'strcpy', 'strcat', 'strncpy', 'vsnprintf'):
            if args[0].k == 'ptr':
                if not self.deref(st, args[0], ins):
                    return []
                self.havoc(st, args[0].a[0])
            return [(st, fresh(name, 'i') if 'printf' in name else args[0])]
        if name == 'abs':
            return [(st, iop('abs', self.toint(args[0])))]
        if self.unknown_model is not None:
            r = self.unknown_model(self, st, name, args, ins)
            if r is not None:
                return r
        self.unknown.add(name)
        for a in args:
            if a.k == 'ptr':
                gc = self.globcells.get(a.a[0])
                if gc is None or not gc[1]:
                    self.havoc(st, a.a[0])
        return [(st, fresh('ret_' + name, ty) if ty != 'x' else None)]

    def fpclass(self, st, x, cls):
        x = self.tofl(x)
        if cls == 3:
            return FCM(x, x, UN)
        if cls == 0x204:
            return OR(FCM(x, F(INF), EQ), FCM(x, F(-INF), EQ))
        if cls == 0x1f8:       # finite
            return AND(FCM(x, F(INF), LT), FCM(x, F(-INF), GT))
        if cls == 0x207:
            return OR(FCM(x, x, UN), OR(FCM(x, F(INF), EQ), FCM(x, F(-INF), EQ)))
        return mk('not', mk('pe', mk('iop', 'fpclass', x, I(cls)), NULL))

    def m_malloc(self, st, size, zero, ins):
        serial = self.serial(st, ins)
        out = []
        if self.malloc_fails:
            s2 = st.copy()
            s2.tr = (s2.tr, '%s allocation fails' % ins.loc())
            out.append((s2, NULL))
        r = self.alloc(st, 'heap@%s' % ins.loc().split('/')[-1], serial, 'heap', ZERD if zero else UNDEFD, size)
        for cb in self.on_alloc:
            cb(self, st, r, size, ins)
        out.append((st, mk('ptr', r, ZERO)))
        return out

    def serial(self, st, ins):
        # unique among the live regions of the state
        n = 0
        nm = 'heap@%s' % ins.loc().split('/')[-1]
        stack = tuple(i.idx for _, i in self.callstack if i is not None)
        while mk('reg', nm, (stack, n), 'heap') in st.mem or ('freed', mk('reg', nm, (stack, n), 'heap')) in st.gh:
            n += 1
        return (stack, n)

    def m_free(self, st, p, ins):
        for cb in self.on_free:
            cb(self, st, p, ins)
        if p.k == 'ptr' and p.a[0].k == 'reg' and p.a[0].a[2] == 'heap':
            st.mem.pop(p.a[0], None)
            st.gh[('freed', p.a[0])] = TRUE

    def m_copy(self, st, d, s, n):
        if d.k != 'ptr' or s.k != 'ptr':
            if d.k == 'ptr':
                self.havoc(st, d.a[0])
            return
        sc, sd, ns = self.region(st, s.a[0])
        if isconst(n) and isconst(d.a[1]) and isconst(s.a[1]) and not ns:
            N, do, so = ival(n), ival(d.a[1]), ival(s.a[1])
            dc, dd, nd = self.region(st, d.a[0])
            whole = self.rsize.get(d.a[0])
            new = {k: c for k, c in dc.items() if isconst(k) and not (do <= ival(k) < do + N)}
            for k, c in sc.items():
                if so <= ival(k) and ival(k) + c[1] <= so + N:
                    new[I(ival(k) - so + do)] = c
            if do == 0 and (whole is None or whole is n):
                if sd.k in ('zer', 'und'):
                    df = sd
                elif sd.k == 'als':
                    df = mk('als', sd.a[0], sd.a[1], add(sd.a[2], I(so)))
                else:
                    df = mk('als', s.a[0], sd, I(so))
                st.mem[d.a[0]] = (new, df, 0)
                return
            if N <= 4096:
                # part of a region: what is not known of the source is forgotten
                moved = sorted((ival(k), c) for k, c in sc.items() if so <= ival(k) and ival(k) + c[1] <= so + N)
                at = so
                for k, c in moved + [(so + N, None)]:
                    while at < k:
                        n1 = min(8 - at % 8, k - at)
                        self.write(st, mk('ptr', d.a[0], I(at - so + do)),
                                   ZERO if sd is ZERD else fresh('mix', 'x'), n1)
                        at += n1
                    if c is not None:
                        self.write(st, mk('ptr', d.a[0], I(k - so + do)), c[0], c[1])
                        at = max(at, k + c[1])
                return
        self.havoc(st, d.a[0])


def ptrsig(st):
    """what the live pointers of the current frame designate, coarsely: states that differ here are kept apart"""
    out = []
    for k, v in st.frames[-1].items():
        c = v.k
        if c == 'ptr':
            r = v.a[0]
            out.append((k, r if (r.k == 'reg' and r.a[2] != 'heap') else 'H' if r.k == 'reg' else 'L'))
        elif c == 'nul':
            out.append((k, 'N'))
        elif c == 'fn':
            out.append((k, v))
    return frozenset(out)


class _Ext:
    def __init__(self, name):
        self.name = name


_exts = {}


def _ext(name):
    if name not in _exts:
        _exts[name] = _Ext(name)
    return _exts[name]


def _sgn(v, bits):
    v %= 1 << bits
    return v - (1 << bits) if v >> (bits - 1) else v


def vclass(v):
    k = v.k
    if k == 'P':
        return 'i'
    if k in ('fc', 'fo'):
        return 'f'
    if k in ('ptr', 'nul', 'fn'):
        return 'p'
    if k in ('B', 'ic', 'fcm', 'pe', 'not', 'and', 'or'):
        return 'b'
    if k == 'at':
        return v.a[1]
    if k == 'ld':
        return v.a[3]
    if k == 'und':
        return v.a[0]
    return 'x'


# ---------------------------------------------------------------------------------------------- merging facts
def merge_facts(o, s):
    """weaken o so that it covers s; the values of both are identical"""
    if o is s:
        return
    niv = {}
    for q, f in o.iv.items():
        g = s.iv.get(q)
        if g is f or g == f:
            niv[q] = f
            continue
        if g is None:
            b = ibounds(s, q, 1)
            g = (b[0], b[1], frozenset())
        lo, hi = min(f[0], g[0]), max(f[1], g[1])
        ex = frozenset(e for e in f[2] | g[2] if (e in f[2] or not f[0] <= e <= f[1]) and
                       (e in g[2] or not g[0] <= e <= g[1]))
        if lo != -INF or hi != INF or ex:
            niv[q] = (lo, hi, ex)
    for q, g in s.iv.items():
        if q not in o.iv:
            f = ibounds(o, q, 1)
            lo, hi = min(f[0], g[0]), max(f[1], g[1])
            if lo != -INF or hi != INF:
                niv[q] = (lo, hi, frozenset())
    nfr = {}
    for t, r in o.fr.items():
        if s.fr.get(t) is r:
            nfr[t] = r
            continue
        j = r.join(frange(s, t))
        if j != FULL:
            nfr[t] = j
    for t, r in s.fr.items():
        if t not in o.fr:
            j = r.join(frange(o, t))
            if j != FULL:
                nfr[t] = j
    nff = {}
    for (a, b), m in o.ff.items():
        if m == 7 and not frange(s, a).nan and not frange(s, b).nan and not frange(o, a).nan and \
                not frange(o, b).nan:
            continue
        m0 = s.ff.get((a, b))
        if m0 is None:
            m |= fmask(s, a, b)
        elif m0 & ~m:
            m |= fmask(s, a, b) if m0 & (m0 - 1) else m0
        if m != ALL:
            nff[(a, b)] = m
    for (a, b), m in s.ff.items():
        if (a, b) not in o.ff:
            m |= fmask(o, a, b)
            if m != ALL:
                nff[(a, b)] = m
    o.iv, o.fr, o.ff = niv, nfr, nff
    o.bf = {b: v for b, v in o.bf.items() if s.bf.get(b) == v}
    o.nn = {b: v for b, v in o.nn.items() if s.nn.get(b) == v}


# ---------------------------------------------------------------------------------------------- join
THRESH = [-1, 0, 1, 2]


class Joiner:
    def __init__(self, eng, H, S, loop, count, bound):
        self.eng, self.H, self.S, self.loop, self.count = eng, H, S, loop, count
        self.memo = {}
        self.kappa = None
        self.new = {}       # new atom -> (h, s)
        self.affine = loop and count <= 3
        self.bound = bound or set()

    def atom(self, ty, h, s):
        a = mk('at', 'φ%d' % self.next(), ty)
        self.new[a] = (h, s)
        return wrap(a, ty)

    def next(self):
        _ctr[0] += 1
        return _ctr[0]

    def pair(self, h, s):
        if h is s:
            return h
        r = self.memo.get((h, s))
        if r is not None:
            return r
        r = self._pair(h, s)
        self.memo[(h, s)] = r
        return r

    def _pair(self, h, s):
        ch, cs = vclass(h), vclass(s)
        if h.k == 'und' or s.k == 'und':
            return self.atom(cs if h.k == 'und' else ch, h, s)
        if ch == 'i' and cs == 'i':
            d = sub(s, h)
            if self.affine and isconst(d):
                if self.kappa is None:
                    k = mk('at', 'κ%d' % self.next(), 'n')
                    self.new[k] = (ZERO, ONE)
                    self.kappa = as_poly(k)
                return add(h, scale(self.kappa, ival(d)))
            if isconst(h) or isconst(s):
                return self.atom('i', h, s)
            return self.atom('i', h, s)
        if h.k == 'ptr' and s.k == 'ptr':
            if h.a[0] is s.a[0]:
                return mk('ptr', h.a[0], self.pair(h.a[1], s.a[1]))
            r = self.generic(h.a[0], s.a[0])
            if r is not None:
                return mk('ptr', r, self.pair(h.a[1], s.a[1]))
            return self.atom('p', h, s)
        r = self.generic(h, s)
        if r is not None:
            return r
        if ch != cs:
            ty = ch if ch != 'x' else cs
            if 'x' in (ch, cs):
                ty = 'x'
            return self.atom(ty, h, s)
        return self.atom(ch, h, s)

    def generic(self, h, s):
        if h.k != s.k or h.k not in ('ld', 'fo', 'ic', 'fcm', 'not', 'and', 'or', 'pe') or len(h.a) != len(s.a):
            return None
        if h.k == 'fo' and h.a[0] != s.a[0]:
            return None
        args = []
        for x, y in zip(h.a, s.a):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y and h.k == 'ld' and x.k == 'reg':
                    return None
                if x is not y and h.k == 'ld' and (x.k == 'init' or y.k == 'init') and x.k != y.k:
                    z = self.atom('v', x, y)
                else:
                    z = self.pair(x, y)
                args.append(z)
            elif x == y:
                args.append(x)
            else:
                return None
        return mk(h.k, *args)


def substm(t, m, memo):
    """t with the atoms of m replaced"""
    if not (atoms(t) & m.keys()):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    k = t.k
    if k == 'at':
        r = m[t]
        if r.k == 'P':
            r2 = single(r)
            # atoms inside polys are handled by the poly case
        memo[t] = r
        return r
    if k == 'P':
        r = I(t.a[0])
        for mono, c in t.a[1]:
            v = I(c)
            for x in mono:
                if atoms(x) & m.keys():
                    y = substm(x, m, memo)
                    y = y if y.k == 'P' else as_poly(y)
                else:
                    y = as_poly(x)
                v = mul(v, y)
            r = add(r, v)
    elif k == 'ptr':
        reg = t.a[0]
        off = substm(t.a[1], m, memo)
        if atoms(reg) & m.keys():
            reg2 = substm(reg, m, memo)
            if reg2.k == 'ptr':
                r = mk('ptr', reg2.a[0], add(reg2.a[1], off))
            elif reg2.k in ('nul', 'fn'):
                r = reg2
            else:
                r = mk('ptr', reg2, off)
        else:
            r = mk('ptr', reg, off)
    elif k == 'ic':
        r = IC(substm(t.a[0], m, memo), t.a[1])
    elif k == 'fcm':
        r = FCM(substm(t.a[0], m, memo), substm(t.a[1], m, memo), t.a[2])
    elif k == 'not':
        r = NOT(substm(t.a[0], m, memo))
    elif k == 'and':
        r = AND(substm(t.a[0], m, memo), substm(t.a[1], m, memo))
    elif k == 'or':
        r = OR(substm(t.a[0], m, memo), substm(t.a[1], m, memo))
    elif k == 'pe':
        r = ptr_eq(substm(t.a[0], m, memo), substm(t.a[1], m, memo))
    elif k == 'ld':
        reg = substm(t.a[0], m, memo)
        if reg.k == 'ptr':
            off0 = reg.a[1]
            reg = reg.a[0]
        else:
            off0 = ZERO
        r = mk('ld', reg, substm(t.a[1], m, memo), add(substm(t.a[2], m, memo), off0), t.a[3], t.a[4])
    else:
        r = mk(k, *[substm(x, m, memo) if isinstance(x, T) else x for x in t.a])
    memo[t] = r
    return r


def locs_pair(eng, H, S, f):
    """apply f(loc, h, s) to all locations of both states; returns frames, mem, gh of the results"""
    frames = []
    for eh, es in zip(H.frames, S.frames):
        if eh is es:
            # identical dict object: still rigid
            frames.append(dict(eh))
            continue
        d = {}
        for k, h in eh.items():
            s = es.get(k)
            if s is not None:
                d[k] = f(h, s)
        frames.append(d)
    return frames


def join(eng, H, S, loop, count, bound=None):
    J = Joiner(eng, H, S, loop, count, bound)
    R = State()
    R.tr = H.tr
    R.frames = []
    for eh, es in zip(H.frames, S.frames):
        d = {}
        for k, h in eh.items():
            s = es.get(k)
            if s is not None:
                d[k] = J.pair(h, s)
        R.frames.append(d)
    for k in set(H.gh) | set(S.gh):
        h, s = H.gh.get(k), S.gh.get(k)
        if h is None or s is None:
            if isinstance(k, tuple) and k[0] == 'freed':
                R.gh[k] = TRUE
            continue
        R.gh[k] = h if h is s else (J.pair(h, s) if isinstance(h, T) and isinstance(s, T) else
                                    eng_ghost_join(k, h, s))
    for r in set(H.mem) | set(S.mem):
        if (r not in H.mem or r not in S.mem) and r.k == 'reg' and r.a[2] in ('heap', 'stack'):
            continue
        ch, dh, nh = eng.region(H, r)
        cs, ds, ns = eng.region(S, r)
        if ch is cs and dh is ds:
            R.mem[r] = (ch, dh, nh)
            continue
        cells = {}
        sym = False
        nsym = 0
        bump = dh is not ds
        for k in list(ch) + [k for k in cs if k not in ch]:
            a, b = ch.get(k), cs.get(k)
            if a is not None and b is not None:
                if a[1] == b[1]:
                    if a[0] is b[0]:
                        cells[k] = a
                    else:
                        cells[k] = (J.pair(a[0], b[0]), a[1])
                    if not isconst(k):
                        nsym += 1
                    continue
                bump = True
                continue
            if not isconst(k):
                bump = True
                continue
            c = a or b
            ty = vclass(c[0])
            if ty == 'x':
                bump = True
                continue
            p = mk('ptr', r, k)
            va = a[0] if a else eng.read(H, p, ty, c[1])
            vb = b[0] if b else eng.read(S, p, ty, c[1])
            cells[k] = (J.pair(va, vb), c[1])
        d = dh
        if bump:
            if dh is ds:
                d = fresh('ver', 'v')
                J.new[d] = (dh, ds)
            else:
                d = J.memo.get((dh, ds, 'ver'))
                if d is None:
                    d = mk('at', 'ver%d' % J.next(), 'v')
                    J.memo[(dh, ds, 'ver')] = d
                    J.new[d] = (dh, ds)
        R.mem[r] = (cells, d, nsym)
    join_facts(eng, J, H, S, R, count)
    return R, set(J.new)


def eng_ghost_join(k, h, s):
    if isinstance(h, frozenset) and isinstance(s, frozenset):
        return h | s
    raise AnalysisLimit('ghost %r differs at a join: %r %r' % (k, h, s))


def direct(st, p):
    """bounds of p that are stored as such (no deduction)"""
    if not p.a[1]:
        return (p.a[0], p.a[0])
    q, f, c = pnorm(p)
    g = st.iv.get(q)
    if g is None:
        return (-INF, INF)
    lo, hi = g[0] * f, g[1] * f
    if f < 0:
        lo, hi = hi, lo
    return (lo + c, hi + c)


def widen_iv(lo, hi, hb, count, eng, dr=None):
    """hull (lo,hi) against the head's own bounds hb"""
    if dr is not None and count > eng.widen_after + 2:
        # late: only bounds that were stored explicitly survive (no seesaw between deduced and stored bounds)
        if dr[0] == -INF:
            lo = -INF
        if dr[1] == INF:
            hi = INF
    if count > eng.widen_after:
        if lo < hb[0]:
            c = [t for t in THRESH if t <= lo]
            lo = c[-1] if c and count < eng.widen_after + 4 else -INF
        if hi > hb[1]:
            c = [t for t in THRESH if t >= hi]
            hi = c[0] if c and count < eng.widen_after + 4 else INF
    return lo, hi


def live_atoms(R):
    acc = set()
    for f in R.frames:
        for v in f.values():
            acc |= atoms(v)
    for v in R.gh.values():
        if isinstance(v, T):
            acc |= atoms(v)
    for r, g in R.mem.items():
        acc |= atoms(r)
        acc |= atoms(g[1])
        for k, c in g[0].items():
            acc |= atoms(c[0])
            acc |= atoms(k)
    return acc


def join_facts(eng, J, H, S, R, count):
    new = J.new
    alive = live_atoms(R)
    # facts about variables of the previous round are used for queries but not kept
    _join_facts(eng, J, H, S, R, count, frozenset(J.bound - alive))


def _join_facts(eng, J, H, S, R, count, dead):
    new = J.new
    # rigid facts
    for q, f in H.iv.items():
        if dead and atoms(q) & dead:
            continue
        g = S.iv.get(q)
        if g is f:
            R.iv[q] = f
            continue
        if g is None:
            b = ibounds(S, q, 1)
            g = (b[0], b[1], frozenset())
        lo, hi = min(f[0], g[0]), max(f[1], g[1])
        lo, hi = widen_iv(lo, hi, f, count, eng) if J.loop else (lo, hi)
        ex = frozenset(e for e in f[2] | g[2] if (e in f[2] or not f[0] <= e <= f[1]) and
                       (e in g[2] or not g[0] <= e <= g[1]))
        if lo != -INF or hi != INF or ex:
            R.iv[q] = (lo, hi, ex)
    for q, g in S.iv.items():
        if q not in H.iv and not J.loop:
            f = ibounds(H, q, 1)
            lo, hi = min(f[0], g[0]), max(f[1], g[1])
            if lo != -INF or hi != INF:
                R.iv[q] = (lo, hi, frozenset())
    ints = [(a, hs) for a, hs in new.items() if a.a[1] in ('i', 'n') and hs[0].k == 'P' and hs[1].k == 'P']
    mh = {a: hs[0] for a, hs in new.items()}
    ms = {a: hs[1] for a, hs in new.items()}
    for a, (h, s) in ints:
        bh, bs = ibounds(H, h), ibounds(S, s)
        lo, hi = min(bh[0], bs[0]), max(bh[1], bs[1])
        if a.a[1] == 'n':
            lo, hi = 0, INF
        elif J.loop:
            lo, hi = widen_iv(lo, hi, bh, count, eng, direct(H, h))
        if lo != -INF or hi != INF:
            R.iv[as_poly(a)] = (lo, hi, frozenset())
    # relational candidates
    if ints:
        others = set()
        for st in (H, S):
            for q in st.iv:
                if len(q.a[1]) <= 3:
                    for m, _ in q.a[1]:
                        if len(m) == 1:
                            others.add(m[0])
        for a, _ in ints:
            others.discard(a)
        # keep only atoms that can matter: those sharing a fact with h or s atoms, or occurring in them
        for a, (h, s) in ints:
            pa = as_poly(a)
            rel = set()
            for p, st in ((h, H), (s, S)):
                at = set(m[0] for m, _ in p.a[1] if len(m) == 1)
                rel |= at
                for q in st.iv:
                    ms_ = [m[0] for m, _ in q.a[1] if len(m) == 1]
                    if any(x in at for x in ms_):
                        rel |= set(ms_)
            if isconst(h) or isconst(s):
                rel |= {x for x in others if x.k in ('ld', 'at')} if len(others) < 24 else set()
            cand = [as_poly(x) for x in rel if x is not a and x not in new and not (atoms(x) & dead)]
            cand += [as_poly(b) for b, _ in ints if b.n > a.n]
            for t in cand:
                th = substm(t, mh, {})
                ts = substm(t, ms, {})
                for sg in (-1, 1):
                    ph, ps = add(h, th, sg), add(s, ts, sg)
                    bh, bs = ibounds(H, ph), ibounds(S, ps)
                    lo, hi = min(bh[0], bs[0]), max(bh[1], bs[1])
                    if J.loop:
                        lo, hi = widen_iv(lo, hi, bh, count, eng, direct(H, ph))
                    if lo == -INF and hi == INF:
                        continue
                    p = add(pa, t, sg)
                    if not p.a[1]:
                        continue
                    # do not store what intervals already give
                    il, ih = ibounds(R, p, 1)
                    if lo <= il and hi >= ih:
                        continue
                    q, f, c = pnorm(p)
                    lo2, hi2 = (lo - c) / f if False else lo, hi
                    a1, b1 = lo - c, hi - c
                    if f < 0:
                        a1, b1 = -b1, -a1
                    ff = abs(f)
                    if ff != 1:
                        a1 = -((-a1) // ff) if a1 != -INF else a1
                        b1 = b1 // ff if b1 != INF else b1
                    o = R.iv.get(q)
                    if o:
                        a1, b1 = max(a1, o[0]), min(b1, o[1])
                    R.iv[q] = (a1, b1, frozenset())
    # float facts
    hj, sj = {}, {}
    for (h, s), j in list(J.memo.items()) if False else []:
        pass
    for key, j in J.memo.items():
        if len(key) != 2:
            continue
        h, s = key
        if vclass(j) == 'f':
            hj.setdefault(h, []).append((j, s))
            sj.setdefault(s, []).append((j, h))

    def hc(t):
        r = list(hj.get(t, ()))
        if not (atoms(t) & new.keys()) and not (atoms(t) & dead):
            r.append((t, t))
        return r

    def sc(t):
        r = list(sj.get(t, ()))
        if not (atoms(t) & dead):
            r.append((t, t))
        return r
    for (a, b), m in H.ff.items():
        for ja, sa in hc(a):
            for jb, sb in hc(b):
                if ja is jb:
                    continue
                mm = m | fmask(S, sa, sb)
                if mm != ALL:
                    if ja.n <= jb.n:
                        R.ff[(ja, jb)] = mm
                    else:
                        R.ff[(jb, ja)] = rev(mm)
    if count > eng.widen_after + 3:
        # rigid terms only: what H deduces is made explicit
        for k, m in S.ff.items():
            if k not in R.ff and k not in H.ff and not (dead and (atoms(k[0]) | atoms(k[1])) & dead):
                mm = m | fmask(H, *k)
                if mm != ALL and mm != 7:
                    R.ff[k] = mm
    else:
        for (a, b), m in S.ff.items():
            for ja, ha in sc(a):
                for jb, hb in sc(b):
                    if ja is jb:
                        continue
                    k = (ja, jb) if ja.n <= jb.n else (jb, ja)
                    if k in R.ff:
                        continue
                    mm = m | fmask(H, ha, hb)
                    if mm != ALL:
                        R.ff[k] = mm if ja.n <= jb.n else rev(mm)
        # orderings that hold on each side through ranges or constants only
        fl = [(j, h, s) for (h, s), j in ((k, v) for k, v in J.memo.items() if len(k) == 2) if vclass(j) == 'f'
              and j.k == 'at']
        if len(fl) <= 12:
            for i, (j1, h1, s1) in enumerate(fl):
                for j2, h2, s2 in fl[i + 1:]:
                    k = (j1, j2) if j1.n <= j2.n else (j2, j1)
                    if k in R.ff or j1 is j2:
                        continue
                    mm = fmask(H, h1, h2) | fmask(S, s1, s2)
                    if mm != ALL:
                        R.ff[k] = mm if j1.n <= j2.n else rev(mm)
    for t, r in H.fr.items():
        if dead and atoms(t) & dead:
            continue
        j = r.join(frange(S, t))
        if J.loop and count > eng.widen_after and j != r:
            j = widen_fr(j, r)
        if j != FULL:
            R.fr[t] = j
    for t, r in S.fr.items():
        if t not in R.fr and t not in H.fr:
            j = r.join(frange(H, t))
            if j != FULL and not J.loop:
                R.fr[t] = j
    for key, j in J.memo.items():
        if len(key) != 2 or vclass(j) != 'f' or j.k != 'at':
            continue
        h, s = key
        r0 = frange(H, h)
        r = r0.join(frange(S, s))
        if J.loop and count > eng.widen_after and r != r0:
            r = widen_fr(r, r0)
        if r != FULL:
            R.fr[j] = r
    for k in [k for k, m in R.ff.items() if m == 7 and not frange(R, k[0]).nan and not frange(R, k[1]).nan]:
        del R.ff[k]
    for b, v in H.bf.items():
        if S.bf.get(b) == v and not (atoms(b) & dead):
            R.bf[b] = v
    for t, v in H.nn.items():
        if S.nn.get(t) == v and not (atoms(t) & dead):
            R.nn[t] = v
    for key, j in J.memo.items():
        if len(key) == 2 and j.k == 'ptr' and j.a[0].k != 'reg':
            h, s = key
            if h.k in ('ptr', 'nul', 'fn') and s.k in ('ptr', 'nul', 'fn'):
                a, b = nonnull(H, h), nonnull(S, s)
                if a is not None and a == b:
                    R.nn[j.a[0]] = a


def widen_fr(j, old):
    lo, loo, hi, hio = j.lo, j.lo_o, j.hi, j.hi_o
    if lo is None or old.lo is None:
        return j
    if lo < old.lo or (lo == old.lo and loo != old.lo_o):
        lo, loo = (0.0, False) if lo >= 0 else (-INF, False)
    if hi > old.hi or (hi == old.hi and hio != old.hi_o):
        hi, hio = INF, False
    return FR(lo, loo, hi, hio, j.nan)


# ---------------------------------------------------------------------------------------------- inclusion
DEBUG = [False]


def no(l):
    if DEBUG[0]:
        import sys
        print('  not included: line', sys._getframe(1).f_lineno,
              {k: v for k, v in l.items() if k in ('h', 's', 'k', 'r', 'q', 'p', 'f', 'lo', 'hi', 'b', 'v', 't', 'x',
                                                   'y', 'm', 'a', 'c')})
    return None


def subsumes(eng, H, S, bindable):
    """substitution of the bindable atoms of H under which H covers S, or None"""
    if len(H.frames) != len(S.frames):
        return no(locals())
    sig = {}
    defer = []

    def match(h, s):
        ah = atoms(h) & bindable
        if not ah:
            return h is s
        if h.k == 'at':
            b = sig.get(h)
            if b is not None:
                return b is s
            if h.a[1] in ('i', 'n', 'b', 'f', 'p', 'v') and h.a[1] != 'v':
                c = vclass(s)
                w = 'i' if h.a[1] == 'n' else h.a[1]
                if c != w:
                    return False
            sig[h] = s
            return True
        if h.k == 'P':
            if s.k != 'P':
                return False
            unb = [x for x in ah if x not in sig]
            if not unb:
                return substm(h, sig, {}) is s
            x = single(h)
            if x is not None and x.k == 'at':
                sig[x] = s
                return True
            if x is not None and x.k != 'at':
                y = single(s)
                return y is not None and match(x, y)
            defer.append((h, s))
            return True
        if h.k == 'ptr':
            if s.k == 'ptr':
                if h.a[0].k == 'at' and h.a[0] in bindable:
                    b = sig.get(h.a[0])
                    if b is not None:
                        if h.a[1] is ZERO:
                            return b is s
                        return substm(h, sig, {}) is s
                    if h.a[1] is ZERO:
                        sig[h.a[0]] = s
                        return True
                    return False
                return match(h.a[0], s.a[0]) and match(h.a[1], s.a[1])
            if s.k in ('nul', 'fn') and h.a[0].k == 'at' and h.a[0] in bindable and h.a[1] is ZERO:
                b = sig.get(h.a[0])
                if b is not None:
                    return b is s
                sig[h.a[0]] = s
                return True
            return False
        if h.k == 'ld':
            if s.k == 'ld' and s.a[3] == h.a[3] and match(h.a[0], s.a[0]) and match(h.a[2], s.a[2]):
                if match(h.a[1], s.a[1]):
                    return True
            return False
        if h.k != s.k or len(h.a) != len(s.a):
            return False
        for x, y in zip(h.a, s.a):
            if isinstance(x, T):
                if not isinstance(y, T) or not match(x, y):
                    return False
            elif x != y:
                return False
        return True

    for r, (ch, dh, nh) in H.mem.items():
        if r not in S.mem and r.k == 'reg' and r.a[2] in ('heap', 'stack'):
            return no(locals())
        cs, ds, ns = eng.region(S, r)
        if dh is not ds or dh in bindable:
            if dh.k == 'at' and dh in bindable:
                b = sig.get(dh)
                tok = ds if not (ns or any(k not in ch for k in cs)) else mk('at', 'cont%d_%d' % (r.n, id(S)), 'v')
                if b is not None and b is not tok:
                    return no(locals())
                sig[dh] = tok
            else:
                return no(locals())
    for r in S.mem:
        if r not in H.mem:
            if r.k == 'reg' and r.a[2] in ('heap', 'stack'):
                continue
            cs, ds, ns = S.mem[r]
            ch, dh, nh = eng.region(H, r)
            if ds is not dh:
                return no(locals())
            for k, c in cs.items():
                if k not in ch or ch[k][0] is not c[0]:
                    p = mk('ptr', r, k)
                    if eng.read(H, p, vclass(c[0]), c[1]) is not c[0]:
                        return no(locals())
    for eh, es in zip(H.frames, S.frames):
        for k, h in eh.items():
            s = es.get(k)
            if s is None:
                return no(locals())
            if not match(h, s):
                return no(locals())
    for k, h in H.gh.items():
        s = S.gh.get(k)
        if s is None:
            if isinstance(k, tuple) and k[0] == 'freed':
                continue
            return no(locals())
        if isinstance(h, T) and isinstance(s, T):
            if not match(h, s):
                return no(locals())
        elif h != s:
            return no(locals())
    for k in S.gh:
        if k not in H.gh:
            return no(locals())
    for r, (ch, dh, nh) in H.mem.items():
        cs, ds, ns = eng.region(S, r)
        if ch is cs:
            if any(atoms(c[0]) & bindable for c in ch.values()):
                for k, c in ch.items():
                    if not match(c[0], c[0]):
                        return no(locals())
            continue
        for k, c in ch.items():
            d = cs.get(k)
            if d is None:
                if not isconst(k):
                    return no(locals())
                ty = vclass(c[0])
                v = eng.read(S, mk('ptr', r, k), ty, c[1])
            else:
                v = d[0]
                if d[1] != c[1]:
                    return no(locals())
            if not match(c[0], v):
                return no(locals())
        if not (dh.k == 'at' and dh in bindable):
            for k, c in cs.items():
                if k not in ch:
                    p = mk('ptr', r, k)
                    ty = vclass(c[0])
                    if not isconst(k) or ty == 'x':
                        return no(locals())
                    if not match(eng.read(H, p, ty, c[1]), c[0]):
                        return no(locals())
    # deferred linear equations
    progress = True
    while defer and progress:
        progress = False
        rest = []
        for h, s in defer:
            unb = [x for x in atoms(h) & bindable if x not in sig]
            if not unb:
                if substm(h, sig, {}) is not s:
                    return no(locals())
                progress = True
                continue
            if len(unb) == 1:
                x = unb[0]
                c = dict(h.a[1]).get((x,))
                inv = sum(1 for m, _ in h.a[1] if any(x in atoms(y) for y in m))
                if c is not None and inv == 1:
                    restp = add(h, scale(as_poly(x), c), -1)
                    restp = substm(restp, sig, {})
                    d = sub(s, restp)
                    if d.a[0] % c or any(k % c for _, k in d.a[1]):
                        return no(locals())
                    sig[x] = mk('P', d.a[0] // c, tuple((m, k // c) for m, k in d.a[1]))
                    progress = True
                    continue
            rest.append((h, s))
        defer = rest
    if defer:
        return no(locals())
    for a, v in sig.items():
        if a.a[1] == 'n' and ibounds(S, v)[0] < 0:
            return no(locals())
    memo = {}
    for q, f in H.iv.items():
        p = substm(q, sig, memo)
        g = S.iv.get(p)
        if g is not None and g[0] >= f[0] and g[1] <= f[1] and not (f[2] - g[2]):
            continue
        lo, hi = ibounds(S, p)
        if lo < f[0] or hi > f[1]:
            return no(locals())
        for e in f[2]:
            if imask(S, add(p, I(-e))) & 2:
                return no(locals())
    for (a, b), m in H.ff.items():
        x, y = substm(a, sig, memo), substm(b, sig, memo)
        if fmask(S, x, y) & ~m:
            return no(locals())
    for t, r in H.fr.items():
        if not frange(S, substm(t, sig, memo)).leq(r):
            return no(locals())
    for b, v in H.bf.items():
        x = substm(b, sig, memo)
        if beval(S, x) is not v:
            return no(locals())
    for t, v in H.nn.items():
        x = substm(t, sig, memo)
        if x.k in ('nul', 'fn', 'ptr'):
            if nonnull(S, x) is not v:
                return no(locals())
        elif x.k == 'reg':
            if v is not True:
                return no(locals())
        elif S.nn.get(x) is not v:
            return no(locals())
    return sig
