"""Hash-consed symbolic values of the abstract interpreter.

kinds
  P   integer polynomial          a = (const, ((monomial, coef), ...))   monomial = tuple of atoms
  at  opaque atom                 a = (name, type)                       type in 'i','f','p','b','v'
  ld  content of a region cell    a = (region, version, offset, type, size)
  iop uninterpreted integer op    a = (op, args...)
  fc  float constant              a = (bits,)
  fo  float operation             a = (op, args...)
  B   boolean constant            a = (0|1,)
  ic  sign test of a polynomial   a = (poly, mask)    mask over {1:<0, 2:==0, 4:>0}
  fcm float comparison            a = (x, y, mask)    mask over {1:<, 2:==, 4:>, 8:unordered}
  pe  pointer equality            a = (p, q)
  not, and, or                    boolean connectives
  ptr pointer                     a = (region, offset poly)
  nul null pointer
  fn  function address            a = (function,)
  reg region identity             a = (name, serial, kind)
  und undefined value             a = (type,)
  agg aggregate                   a = tuple of values
"""
import math
import struct

_tab = {}
_n = [0]


class T:
    __slots__ = ('k', 'a', 'n', '_at')

    def __repr__(self):
        return show(self)


def mk(k, *a):
    key = (k,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _n[0] += 1
        t.n = _n[0]
        t._at = None
        _tab[key] = t
    return t


def atoms(t):
    """frozenset of the atoms ('at') occurring in t"""
    r = t._at
    if r is not None:
        return r
    if t.k == 'at':
        r = frozenset((t,))
    elif t.k == 'P':
        s = set()
        for mono, _ in t.a[1]:
            for x in mono:
                s |= atoms(x)
        r = frozenset(s)
    else:
        s = set()
        for x in t.a:
            if isinstance(x, T):
                s |= atoms(x)
        r = frozenset(s)
    t._at = r
    return r


TRUE = mk('B', 1)
FALSE = mk('B', 0)
NULL = mk('nul')


def B(x):
    return TRUE if x else FALSE


def P(const, monos):
    return mk('P', const, monos)


_ic = {}


def I(c):
    t = _ic.get(c)
    if t is None:
        t = mk('P', c, ())
        _ic[c] = t
    return t


ZERO = I(0)
ONE = I(1)


def isconst(t):
    return t.k == 'P' and not t.a[1]


def ival(t):
    return t.a[0]


def as_poly(t):
    """an integer-valued atom-like term as a polynomial"""
    if t.k == 'P':
        return t
    return mk('P', 0, (((t,), 1),))


def _norm(const, d):
    return mk('P', const, tuple(sorted(((m, c) for m, c in d.items() if c != 0),
                                       key=lambda mc: tuple(x.n for x in mc[0]))))


def add(x, y, s=1):
    if not y.a[1]:
        if y.a[0] == 0:
            return x
        return mk('P', x.a[0] + s * y.a[0], x.a[1])
    d = dict(x.a[1])
    for m, c in y.a[1]:
        d[m] = d.get(m, 0) + s * c
    return _norm(x.a[0] + s * y.a[0], d)


def sub(x, y):
    if x is y:
        return ZERO
    return add(x, y, -1)


def scale(x, c):
    if c == 1:
        return x
    if c == 0:
        return ZERO
    return mk('P', x.a[0] * c, tuple((m, k * c) for m, k in x.a[1]))


def neg(x):
    return scale(x, -1)


def mul(x, y):
    if not x.a[1]:
        return scale(y, x.a[0])
    if not y.a[1]:
        return scale(x, y.a[0])
    d = {}
    cst = x.a[0] * y.a[0]
    for m, c in x.a[1]:
        if y.a[0]:
            d[m] = d.get(m, 0) + c * y.a[0]
        for m2, c2 in y.a[1]:
            mm = tuple(sorted(m + m2, key=lambda t: t.n))
            d[mm] = d.get(mm, 0) + c * c2
    if x.a[0]:
        for m2, c2 in y.a[1]:
            d[m2] = d.get(m2, 0) + c2 * x.a[0]
    return _norm(cst, d)


def single(p):
    """the atom x when p is exactly 1*x+0, else None"""
    if p.a[0] == 0 and len(p.a[1]) == 1:
        m, c = p.a[1][0]
        if c == 1 and len(m) == 1:
            return m[0]
    return None


def iop(op, *args):
    return as_poly(mk('iop', op, *args))


# ------------------------------------------------------------------ floats
_fcc = {}


def F(v):
    b = struct.pack('>d', v)
    t = _fcc.get(b)
    if t is None:
        t = mk('fc', b)
        _fcc[b] = t
    return t


def fval(t):
    return struct.unpack('>d', t.a[0])[0]


def isfc(t):
    return t.k == 'fc'


LT, EQ, GT, UN = 1, 2, 4, 8
ALL = 15


def fcmp_const(x, y):
    if x != x or y != y:
        return UN
    return LT if x < y else EQ if x == y else GT


def rev(m):
    return (m & 10) | ((m & 1) << 2) | ((m & 4) >> 2)


def rnd(v, bits):
    if bits == 32:
        try:
            return struct.unpack('>f', struct.pack('>f', v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
    return v


# ------------------------------------------------------------------ booleans
def NOT(b):
    k = b.k
    if k == 'B':
        return B(1 - b.a[0])
    if k == 'ic':
        return mk('ic', b.a[0], 7 ^ b.a[1])
    if k == 'fcm':
        return mk('fcm', b.a[0], b.a[1], 15 ^ b.a[2])
    if k == 'not':
        return b.a[0]
    if k == 'and':
        return OR(NOT(b.a[0]), NOT(b.a[1]))
    if k == 'or':
        return AND(NOT(b.a[0]), NOT(b.a[1]))
    return mk('not', b)


def AND(x, y):
    if x is FALSE or y is FALSE:
        return FALSE
    if x is TRUE:
        return y
    if y is TRUE or x is y:
        return x
    return mk('and', x, y)


def OR(x, y):
    if x is TRUE or y is TRUE:
        return TRUE
    if x is FALSE:
        return y
    if y is FALSE or x is y:
        return x
    return mk('or', x, y)


def IC(d, mask):
    """sign(d) in mask"""
    if mask == 0:
        return FALSE
    if mask == 7:
        return TRUE
    if not d.a[1]:
        c = d.a[0]
        return B(mask & (1 if c < 0 else 2 if c == 0 else 4))
    if len(d.a[1]) == 1:
        (m, c) = d.a[1][0]
        if len(m) == 1 and m[0].k == 'iop' and m[0].a[0] == 'b2i':
            b = m[0].a[1]
            r0 = IC(I(d.a[0]), mask) is TRUE
            r1 = IC(I(d.a[0] + c), mask) is TRUE
            if r0 == r1:
                return B(r0)
            return b if r1 else NOT(b)
        # a*x + c with c multiple of a is kept; otherwise fine too
    # canonical sign: first coefficient positive
    if d.a[1][0][1] < 0:
        d = neg(d)
        mask = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2)
    return mk('ic', d, mask)


def FCM(x, y, mask):
    if mask == 0:
        return FALSE
    if mask == 15:
        return TRUE
    if x.k == 'fc' and y.k == 'fc':
        return B(mask & fcmp_const(fval(x), fval(y)))
    if x.n > y.n:
        x, y = y, x
        mask = rev(mask)
    return mk('fcm', x, y, mask)


def ptr(region, off=None):
    return mk('ptr', region, off if off is not None else ZERO)


# ------------------------------------------------------------------ printing
def show(t, depth=6):
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return '…'
    k = t.k
    s = lambda x: show(x, depth - 1)
    if k == 'P':
        parts = []
        for m, c in t.a[1]:
            ms = '*'.join(s(x) for x in m)
            parts.append(('%s' if c == 1 else '-%s' if c == -1 else str(c) + '*%s') % ms)
        if t.a[0] or not parts:
            parts.append(str(t.a[0]))
        return '+'.join(parts).replace('+-', '-')
    if k == 'at':
        return str(t.a[0])
    if k == 'ld':
        return '%s[%s]%s' % (s(t.a[0]), s(t.a[2]), '' if t.a[1].k == 'init' else '@' + s(t.a[1]))
    if k in ('iop', 'fo'):
        return '%s(%s)' % (t.a[0], ','.join(s(x) for x in t.a[1:]))
    if k == 'fc':
        return repr(fval(t))
    if k == 'B':
        return 'true' if t.a[0] else 'false'
    if k == 'ic':
        return '(%s %s 0)' % (s(t.a[0]), {1: '<', 2: '==', 4: '>', 3: '<=', 6: '>=', 5: '!='}[t.a[1]])
    if k == 'fcm':
        m = t.a[2]
        return '(%s %s %s)' % (s(t.a[0]), ''.join(c for b, c in ((1, '<'), (2, '='), (4, '>'), (8, '?')) if m & b),
                               s(t.a[1]))
    if k == 'ptr':
        return '&%s%s' % (s(t.a[0]), '' if t.a[1] is ZERO else '+' + s(t.a[1]))
    if k == 'nul':
        return 'NULL'
    if k == 'fn':
        return '@' + t.a[0].name
    if k == 'reg':
        return '%s#%s' % (t.a[0], t.a[1])
    if k in ('pe', 'not', 'and', 'or'):
        return '%s(%s)' % (k, ','.join(s(x) for x in t.a))
    if k == 'und':
        return 'undef'
    return '%s%r' % (k, t.a)
