"""Real-arithmetic normal form of float terms: a polynomial with rational coefficients over opaque atoms.

Two terms with the same form denote the same real number when rounding is ignored; rounding conversions between float
and double are transparent, quotients, square roots and absolute values are canonicalised up to sign.
"""
from fractions import Fraction
import math
from engine.terms import *

_memo = {}


def okey(x):
    if isinstance(x, T):
        return (1, x.n)
    if isinstance(x, tuple):
        return (2, tuple(okey(y) for y in x))
    if isinstance(x, str):
        return (3, x)
    return (4, x)


def _add(p, q, s=1):
    d = dict(p)
    for m, c in q.items():
        c = d.get(m, 0) + s * c
        if c == 0:
            d.pop(m, None)
        else:
            d[m] = c
    return d


def _mul(p, q):
    d = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2, key=okey))
            c = d.get(m, 0) + c1 * c2
            if c == 0:
                d.pop(m, None)
            else:
                d[m] = c
    return d


def _scale(p, c):
    return {m: k * c for m, k in p.items()}


def freeze(p):
    return tuple(sorted(p.items(), key=okey))


def _canon(p):
    """(factor, canonical poly) with p = factor * canonical, first coefficient 1"""
    if not p:
        return Fraction(1), p
    k = freeze(p)[0][1]
    return k, {m: c / k for m, c in p.items()}


def rnf(t, leaf=None):
    """normal form (dict monomial -> Fraction); leaf(t) may return a term or a form to substitute"""
    if leaf is None:
        r = _memo.get(t)
        if r is None:
            r = _memo[t] = _rnf(t, None)
        return r
    return _rnf(t, leaf)


def atom(x):
    return {(x,): Fraction(1)}


def _rnf(t, leaf):
    if leaf is not None:
        r = leaf(t)
        if r is not None:
            return r if isinstance(r, dict) else rnf(r)
    k = t.k
    if k == 'fc':
        v = fval(t)
        if v != v or math.isinf(v):
            return atom(('c', repr(v)))
        return {(): Fraction(v)} if v != 0 else {}
    if k == 'fo':
        op = t.a[0]
        if op in ('fpext', 'fptrunc'):
            return rnf(t.a[1], leaf)
        if op == 'fadd':
            return _add(rnf(t.a[1], leaf), rnf(t.a[2], leaf))
        if op == 'fsub':
            return _add(rnf(t.a[1], leaf), rnf(t.a[2], leaf), -1)
        if op == 'fneg':
            return _scale(rnf(t.a[1], leaf), -1)
        if op == 'fmul':
            return _mul(rnf(t.a[1], leaf), rnf(t.a[2], leaf))
        if op == 'fdiv':
            a, b = rnf(t.a[1], leaf), rnf(t.a[2], leaf)
            if len(b) == 1 and () in b:
                return _scale(a, 1 / b[()])
            kb, cb = _canon(b)
            inv = atom(('inv', freeze(cb)))
            return _scale(_mul(a, inv), 1 / kb) if kb else atom(('div', t.n))
        if op == 'fabs':
            a = rnf(t.a[1], leaf)
            ka, ca = _canon(a)
            if list(a) == [()] or not a:
                return _scale({(): Fraction(1)}, abs(a.get((), 0))) if a else {}
            return _scale(atom(('abs', freeze(ca))), abs(ka))
        if op == 'sitofp':
            p = t.a[1]
            if p.k == 'P':
                d = {}
                for m, c in p.a[1]:
                    d[tuple(sorted((('i', x) for x in m), key=okey))] = Fraction(c)
                if p.a[0]:
                    d[()] = Fraction(p.a[0])
                return d
            return atom(('i', p))
        return atom((op,) + tuple(freeze(rnf(x, leaf)) if vcl(x) else x for x in t.a[1:]))
    return atom(t)


def vcl(x):
    return isinstance(x, T) and (x.k in ('fc', 'fo') or (x.k == 'at' and x.a[1] == 'f') or
                                 (x.k == 'ld' and x.a[3] == 'f'))


def same(a, b, leaf=None):
    return rnf(a, leaf) == rnf(b, leaf)
