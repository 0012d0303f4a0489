"""F01-F03: minimization of univariate functions.

The function is uninterpreted: its value at x is the term F(x).  A reference run of the documented algorithm (bracketing
by golden section extrapolation, then golden section reduction) is carried along the abstract states: every evaluation
must be the one the reference asks for, given the comparisons made so far.  At the heads of loops (and between the calls
of the reverse communication interface) the positions of the reference triple are renamed to canonical symbols, so that
the analysis reaches a fixpoint which covers any number of iterations."""
import itertools
from .core import *
from .options import R

from .pit import Pit, Facts, M, h

FIN = R(-1e300, False, 1e300, False)

ALPHA = 0.381966011250105151795413165634362
GAMMA = 1.61803398874989484820458683436564
PINF = F(float('inf'))
U_, V_, W_, X_ = [mk('at', 'pos.' + n, 'f') for n in 'uvwx']
POSN = (U_, V_, W_, X_)
OLD = tuple(mk('at', 'old.%d' % i, 'f') for i in range(16))       # forgotten positions
A_, B_ = mk('at', 'a', 'f'), mk('at', 'b', 'f')


class Pit1(Pit):
    """absolute values are unknown functions up to the sign"""

    def abs(self, v):
        return h('abs', min(v % M, (M - v) % M))


def fv(x):
    return mk('fo', 'F', x)


def lin(t):
    """linear form over atoms (dict, constant under None); None when it is not linear"""
    k = t.k
    if k == 'fc':
        return {None: fval(t)}
    if k == 'fo':
        op = t.a[0]
        if op in ('fadd', 'fsub'):
            x, y = lin(t.a[1]), lin(t.a[2])
            if x is None or y is None:
                return None
            r = dict(x)
            for a, c in y.items():
                r[a] = r.get(a, 0.) + (c if op == 'fadd' else -c)
            return r
        if op == 'fneg':
            x = lin(t.a[1])
            return None if x is None else {a: -c for a, c in x.items()}
        if op in ('fmul', 'fdiv'):
            x, y = lin(t.a[1]), lin(t.a[2])
            if x is None or y is None:
                return None
            if op == 'fmul' and set(x) <= {None}:
                x, y = y, x
            if set(y) <= {None}:
                c = y.get(None, 0.)
                if op == 'fdiv':
                    if c == 0:
                        return None
                    c = 1 / c
                return {a: v * c for a, v in x.items()}
            return None
        if op in ('fma', 'fmuladd'):
            return lin(mk('fo', 'fadd', mk('fo', 'fmul', t.a[1], t.a[2]), t.a[3]))
        return None
    if k == 'at':
        return {t: 1.}
    return None


def same(x, *terms):
    """is x the real combination sum of c*t?"""
    r = lin(x)
    if r is None:
        return False
    r = dict(r)
    for c, t in terms:
        y = lin(t)
        if y is None:
            return False
        for a, v in y.items():
            r[a] = r.get(a, 0.) - c * v
    return all(abs(v) <= 1e-13 for v in r.values())


# reference states: ('I', fa or None, fb or None)                     end points
#                   ('P', u, fu, v, fv, w, fw)                        not known to be a bracket
#                   ('B', u, fu, v, fv, w, fw)                        bracket
#                   ('X', u, fu, v, fv, w, fw, x, fx)                 bracket and a new point
def ref(*a):
    return mk('ref', *a)


NOPE = mk('none')


class Golden:
    def __init__(self, c, tag, flags):
        self.c, self.tag = c, tag
        self.boa, self.bob = bool(flags & 1), bool(flags & 2)
        self.cases = {}
        self.protect = set()       # memory that keeps the initial interval

    def ob(self, rule, ok, msg, where=''):
        return self.c.ob(rule, ok, self.tag.split(' ')[0], '%s: %s' % (self.tag, msg), where)

    def begin(self, st):
        st.gh['refs'] = mk('refs', ref('I', PINF if self.boa else NOPE, PINF if self.bob else NOPE))
        st.gh['n'] = ZERO
        for t in (A_, B_):
            A.set_fr(st, t, FIN)

    def sure(self, st, x, y, mask):
        """x and y known to be in one of the relations of the mask (the function is never NaN)"""
        return not (self.fm(st, x, y) & ~mask)

    def fm(self, st, x, y):
        return A.fmask(st, x, y, 2) & ~A.UN

    def current(self, st):
        """reference states once the comparisons are known: ('P'|'B', u, fu, v, fv, w, fw) and the end points"""
        out = []
        for r in st.gh['refs'].a:
            k = r.a[0]
            if k == 'I':
                if r.a[1] is not NOPE and r.a[2] is not NOPE:
                    fa, fb = r.a[1:]
                    if self.sure(st, fa, fb, A.GT | A.EQ):
                        out.append(('E', A_, fa, B_, fb))
                    if self.sure(st, fa, fb, A.LT | A.EQ):
                        out.append(('E', B_, fb, A_, fa))
                else:
                    out.append(('I',) + r.a[1:])
            elif k == 'X':
                u, fu, v, f0, w, fw, x, fx = r.a[1:]
                if self.sure(st, fx, f0, A.GT | A.EQ):
                    out.append(('B', x, fx, v, f0, u, fu))
                if self.sure(st, fx, f0, A.LT | A.EQ):
                    out.append(('B', v, f0, x, fx, w, fw))
            elif k == 'P':
                if self.sure(st, r.a[4], r.a[6], A.LT | A.EQ):
                    out.append(('B',) + r.a[1:])
                if self.sure(st, r.a[4], r.a[6], A.GT | A.EQ):
                    out.append(('P',) + r.a[1:])
            else:
                out.append(('B',) + r.a[1:])
        return out

    def evaluated(self, st, x):
        """a value is asked for at x; False when the reference does not allow it"""
        new = []
        fx = fv(x)
        A.set_fr(st, fx, A.NUM)
        A.set_fr(st, x, FIN)
        for r in self.current(st):
            if r[0] == 'I':
                if r[1] is NOPE and same(x, (1, A_)):
                    new.append(ref('I', fx, r[2]))
                if r[2] is NOPE and same(x, (1, B_)):
                    new.append(ref('I', r[1], fx))
            elif r[0] == 'E':
                u, fu, w, fw = r[1:]
                if same(x, (ALPHA, w), (1 - ALPHA, u)):
                    new.append(ref('P', u, fu, x, fx, w, fw))
            elif r[0] == 'P':
                u, fu, v, f0, w, fw = r[1:]
                if same(x, (GAMMA + 1, w), (-GAMMA, v)):
                    new.append(ref('P', v, f0, w, fw, x, fx))
            else:
                u, fu, v, f0, w, fw = r[1:]
                if same(x, (ALPHA, w), (1 - ALPHA, v)):
                    new.append(ref('X', u, fu, v, f0, w, fw, x, fx))
        st.gh['n'] = add(st.gh['n'], ONE)
        if not new:
            return False
        st.gh['refs'] = mk('refs', *new)
        return True

    def unfinished(self, st, x, prec):
        """an evaluation at x may be needed for what is known about the precision"""
        br = [r for r in self.current(st) if r[0] == 'B']
        br = [r for r in br if same(x, (ALPHA, r[5]), (1 - ALPHA, r[3]))] or br
        return not br or any(self.converged(st, r, prec) is False for r in br)

    def converged(self, st, r, prec):
        """True, False or None (not decided)"""
        pit = Pit1()
        u, v, w = r[1], r[3], r[5]
        f = Facts(st, pit)
        fo = lambda *a: pit.ev(mk('fo', *a))
        d = fo('fabs', mk('fo', 'fsub', w, v))
        mods = [fo('fabs', t) for t in (u, v, w)]
        for i, m in enumerate(mods):
            if all(j == i or not (f.mask(mods[j], m) & A.GT) for j in range(3)):
                rel = f.mask(d, pit.mul(pit.ev(prec), m))
                self.which = i
                if not rel & A.GT:
                    return True
                if rel == A.GT:
                    return False
        return None

    def values(self, st):
        out = []
        for r in st.gh['refs'].a:
            out += [t for t in r.a[1:] if isinstance(t, T) and t.k == 'fo' and t not in out]
        return out

    def largest(self, st, prec):
        """what is known about the convergence: which position is the largest and the result of the test"""
        out = []
        for r in st.gh['refs'].a:
            if r.a[0] == 'B':
                self.which = None
                out.append((self.converged(st, r.a, prec), self.which))
        return tuple(out)

    def flagged(self, st, blk):
        """integer variables of a loop which have constant values (status or flag); up to some number of cases"""
        if blk is None:
            return None
        v = tuple(x if isinstance(x, T) and x.k == 'P' and isconst(x) and x is not st.gh['n'] else None
                  for x in [st.frames[-1].get(p.res) for p in blk.phis])
        cases = self.cases.setdefault(blk, set())
        if v not in cases and len(cases) >= 24:
            return None
        cases.add(v)
        return v

    def order(self, st):
        return tuple(A.fmask(st, x, y, 2) for x, y in itertools.combinations(self.values(st), 2))

    # ------------------------------------------------------------------ canonical names
    def rename(self, st):
        refs = st.gh['refs'].a
        if refs[0].a[0] == 'I':
            return
        # comparisons which are not made yet stay so
        fresh = [r.a[-1] for r in refs if r.a[0] in 'PX']
        if fresh and not any(t in pair for pair in st.ff for t in fresh):
            tri = [r.a for r in refs]
        else:
            tri = [r for r in self.current(st) if r[0] in 'BP'] or [r.a for r in refs]
        if len(tri) > 1:
            # values which are equal: what is forgotten tells the choice
            vals = set()
            for f in st.frames:
                vals |= {v for v in f.values() if isinstance(v, T)}
            for g in st.mem.values():
                vals |= {c[0] for c in g[0].values() if isinstance(c[0], T)}
            tri = [r for r in tri if all(x.k == 'fc' or x in vals for x in r[1:7])] or tri
        r = tri[0]
        m = {}
        names = [(r[1], U_), (r[3], V_), (r[5], W_)]
        if r[0] == 'X':
            names.append((r[7], X_))
        for t, n in names:
            m.setdefault(t, n)
        # when values are equal, the other choice is kept too
        for q in tri[1:]:
            for t in q[1:7:2]:
                if t not in m and X_ not in m.values():
                    m[t] = X_
        for i, n in enumerate(POSN + (A_, B_) + OLD[:10]):
            if n not in m:
                m[n] = OLD[i]
        memo = {}

        def sub_(t):
            q = m.get(t)
            if q is not None:
                return q
            q = memo.get(t)
            if q is not None:
                return q
            k = t.k
            if k in ('at', 'reg', 'P', 'ptr', 'fc', 'nul', 'fn') or not t.a:
                q = t
            elif k == 'fcm':
                q = FCM(sub_(t.a[0]), sub_(t.a[1]), t.a[2])
            elif k == 'not':
                q = NOT(sub_(t.a[0]))
            elif k == 'and':
                q = AND(sub_(t.a[0]), sub_(t.a[1]))
            elif k == 'or':
                q = OR(sub_(t.a[0]), sub_(t.a[1]))
            else:
                q = mk(k, *[sub_(x) if isinstance(x, T) else x for x in t.a])
            memo[t] = q
            return q
        junk = set(OLD)
        keep = lambda t: not (atoms(t) & junk)
        st.gh['refs'] = mk('refs', *[sub_(ref(*q)) for q in tri])
        st.frames = [{k: sub_(v) if isinstance(v, T) else v for k, v in f.items()} for f in st.frames]
        for reg, g in list(st.mem.items()):
            cells = {k: (sub_(c[0]),) + tuple(c[1:]) if isinstance(c[0], T) and (reg, k) not in self.protect else c
                     for k, c in g[0].items()}
            st.mem[reg] = (cells,) + tuple(g[1:])
        ff, st.ff = st.ff, {}
        fr, st.fr = st.fr, {}
        for t, q in fr.items():
            t2 = sub_(t)
            if keep(t2):
                st.fr[t2] = q
        for (x, y), q in ff.items():
            x, y = sub_(x), sub_(y)
            if x is not y and keep(x) and keep(y):
                if x.n > y.n:
                    x, y, q = y, x, A.rev(q)
                st.ff[(x, y)] = st.ff.get((x, y), A.ALL) & q
        for q in POSN:
            A.set_fr(st, q, FIN)
        # transitive order of the values
        fs = self.values(st)
        for x, y in itertools.combinations(fs, 2):
            q = A.fmask(st, x, y, 3)
            if q != A.ALL and x is not y:
                A.assume_fcm(st, x, y, q)


def outcome(g, st, status, out, nev, prec, maxeval):
    """the result of a complete minimization"""
    refs = g.current(st)
    nonneg = A.ibounds(st, maxeval)[0] >= 0
    over = nonneg and A.ibounds(st, sub(st.gh['n'], maxeval))[0] >= 0
    s = ival(status) if isconst(status) else None
    if not g.ob('status', s in (0, 1, 2), 'returns %s' % show(status)):
        return
    if s == 2:
        ok = False
        for r in refs:
            if r[0] == 'P':
                got = sorted((out[i].n, out[i + 3].n) for i in range(3))
                ok = ok or got == sorted((r[i].n, r[i + 1].n) for i in (1, 3, 5))
        g.ob('status', any(r[0] == 'P' for r in refs), 'returns 2 although the minimum is bracketed')
        g.ob('result', ok, 'the three last positions and their values are not reported when there is no bracket')
        g.ob('budget', over, 'gives up before the number of evaluations is reached')
    else:
        br = [r for r in refs if r[0] == 'B']
        g.ob('status', bool(br), 'returns %d although the minimum is not bracketed' % s)
        ok = conv = False
        for r in br:
            if out[0] is r[3] and out[3] is r[4] and {(out[1], out[4]), (out[2], out[5])} == {(r[1], r[2]), (r[5], r[6])}:
                ok = True
                conv = g.converged(st, r, prec)
        g.ob('result', ok, 'reports xmin=%s, xlo=%s, xhi=%s with values %s, %s, %s: not the final bracket and its values'
             % tuple(show(x) for x in out[:6]))
        if ok:
            g.ob('result', not A.fmask(st, out[1], out[2]) & A.GT, 'xlo may be larger than xhi')
            g.ob('precision', conv is (s == 0), 'returns %d but |w - v| <= prec*max(|u|,|v|,|w|) is %s' % (s, conv))
        if s == 1:
            g.ob('budget', over, 'gives up before the number of evaluations is reached')
    g.ob('budget', nev is st.gh['n'] or (nev.k == 'fo' and nev.a[0] == 'sitofp' and nev.a[1] is st.gh['n']) or
         (nev.k == 'fc' and isconst(st.gh['n']) and fval(nev) == ival(st.gh['n'])),
         'reports %s evaluations instead of %s' % (show(nev), show(st.gh['n'])))


def direct_cell(c, P, fname, flags, limited, negprec):
    tag = '%s flags=%d%s%s' % (fname, flags, ' limited' if limited else '', ' default precision' if negprec else '')
    e = c.engine(P)
    e.mutable_globals_initial = True
    st = State()
    g = Golden(c, tag, flags)
    g.begin(st)
    A.assume_fcm(st, A_, B_, A.LT | A.GT)
    cb = ext(st, e, 'function')
    data = ext(st, e, 'data')
    out = ext(st, e, 'out', I(56))
    maxeval = isym('maxeval')
    A.assume_ic(st, maxeval, 6 if limited else 1)
    prec = fsym('prec')
    A.set_fr(st, prec, R(-1e300, False, 0, True) if negprec else R(0, False, 1e300, False))
    want = F(2.0 ** -26) if negprec else prec
    late = set()

    def call(eng, st, a, ins):
        ctxt = fname.endswith('with_context')
        if a[0] is not cb or (ctxt and (len(a) != 3 or a[1] is not data)) or (not ctxt and len(a) != 2):
            g.ob('evaluation', False, 'the function is not called as documented', ins.loc())
            return []
        x = a[-1]
        refs = g.current(st)
        if not all(r[0] in 'IE' for r in refs):
            A_ok = A.ibounds(st, maxeval)[1] < 0 or A.ibounds(st, sub(st.gh['n'], maxeval))[1] < 0
            g.ob('budget', A_ok, 'the function is evaluated beyond the limit', ins.loc())
        g.ob('precision', g.unfinished(st, x, want), 'an evaluation is done without having found that the precision is '
             'not reached', ins.loc())
        if not g.ob('evaluation', g.evaluated(st, x), 'the function is evaluated at %s, not where the golden section '
                    'method tells from the values known so far' % show(x), ins.loc()):
            return []
        return [(st, fv(x))]
    e.models['*'] = call
    e.merge = None
    e.on_head.append(lambda eng, st, hb: g.rename(st))
    e.key = lambda st, blk: (st.gh.get('refs'), g.order(st), g.flagged(st, blk), g.largest(st, want))
    e.peel = 4
    args = [cb, A_, B_, I(flags), maxeval, prec, out] + ([data] if fname.endswith('with_context') else [])
    rets = e.run(c.func(P, fname), args, st)
    g.ob('status', bool(rets), 'never returns')
    for st, v in rets:
        o = [get(e, st, out, 8 * i, 'f') for i in range(7)]
        outcome(g, st, v, o[:6], o[6], want, maxeval)
    c.done(e)


def direct(c, rules):
    P = c.lib()
    todo = []
    for fname in ('opk_fmin', 'opk_fmin_with_context'):
        for flags in range(8):
            for limited in (False, True):
                for neg in (False, True):
                    if neg and flags > 3:
                        continue
                    todo.append(lambda c, a=(P, fname, flags, limited, neg): direct_cell(Keep(c, rules), *a))
    parallel(c, todo)


class Keep:
    def __init__(self, c, rules):
        self.c, self.rules = c, rules

    def ob(self, rule, ok, key, msg='', where=''):
        if rule in self.rules:
            self.c.ob(rule, ok, key, msg, where)
        return ok

    def __getattr__(self, n):
        return getattr(self.c, n)


TECH = ('abstract interpretation with an uninterpreted objective function; each evaluation and result compared with the '
        'documented recursion carried along as ghost state, fixpoint over canonical names of the bracket')


@check('F01', TECH)
def f01(c):
    direct(c, {'evaluation', 'result'})
    c.require('evaluation', 100)
    c.require('result', 50)


@check('F02', TECH)
def f02(c):
    direct(c, {'budget', 'precision', 'status'})
    c.require('budget', 100)
    c.require('precision', 60)
    # degenerate interval
    P = c.lib()
    for fname in ('opk_fmin', 'opk_fmin_with_context'):
        e = c.engine(P)
        e.mutable_globals_initial = True
        st = State()
        out = ext(st, e, 'out', I(56))
        e.models['*'] = lambda eng, st, a, ins: c.bad('status', fname, 'the function is evaluated for an empty interval',
                                                      ins.loc()) or []
        n0 = []
        A.set_fr(st, A_, FIN)
        e.on_store.append(lambda eng, st, p, v, size, ins: n0.append(1) if p.k == 'ptr' and p.a[0] is out.a[0] else None)
        rets = e.run(c.func(P, fname), [ext(st, e, 'function'), A_, A_, isym('flags'), isym('maxeval'), fsym('prec'), out] +
                     ([ext(st, e, 'data')] if fname.endswith('with_context') else []), st)
        c.ob('status', bool(rets) and not n0 and all(v is I(-1) for _, v in rets), fname,
             '%s with an empty interval does not just return -1' % fname)
        c.done(e)


# ------------------------------------------------------------------------------------------------ reverse communication
class Reverse:
    def __init__(self, c, P, flags):
        self.c, self.P, self.flags = c, P, flags
        self.g = Golden(c, 'opk_fmin_next flags=%d' % flags, flags)
        self.e = e = c.engine(P)
        e.mutable_globals_initial = True
        e.malloc_fails = False
        e.merge = None
        e.unroll = 4
        self.E = {n: P.enums['OPK_FMIN_' + n] for n in ('ERROR', 'START', 'FX', 'CONVERGENCE')}
        self.OK, self.INVALID = I(P.enums['OPK_SUCCESS']), I(P.enums['OPK_INVALID_ARGUMENT'])
        self.n = 0
        self.xp = None

    def call(self, st, fname, *args):
        return self.e.run(self.c.func(self.P, fname), list(args), st.copy())

    def task(self, v):
        return ival(v) if isconst(v) else None

    def status(self, st):
        r = self.call(st, 'opk_fmin_get_status', self.ctx)
        return self.task(r[0][1]) if len(r) == 1 else None

    def next(self, st, x, f):
        """opk_fmin_next with *x = x (None: left as it is)"""
        st = st.copy()
        if x is not None:
            put(self.e, st, self.xp, 0, x)
        return self.call(st, 'opk_fmin_next', self.ctx, self.xp, f)

    def refused(self, st, what, x, f):
        g, E = self.g, self.E
        rets = self.next(st, x, f)
        g.ob('protocol', bool(rets), '%s: never returns' % what)
        for s, v in rets:
            g.ob('protocol', self.task(v) == E['ERROR'] and self.status(s) == E['ERROR'], '%s is not an error' % what)

    def getters(self, st, allowed, what):
        g = self.g
        outs = [ext(st, self.e, 'o%d' % i) for i in range(10)]
        a = self.call(st, 'opk_fmin_get_initial', self.ctx, *outs[:3])
        b = self.call(st, 'opk_fmin_get_final', self.ctx, *outs[3:])
        g.ob('protocol', bool(a) and bool(b) and
             all(v is (self.OK if allowed else self.INVALID) for _, v in a + ([] if allowed else b)),
             'the initial interval and the result are %s %s' % ('not available' if allowed else 'given', what))
        for s, v in a:
            if v is self.OK:
                fl = get(self.e, s, outs[2], 0, 'i', 4)
                g.ob('protocol', get(self.e, s, outs[0], 0, 'f') is A_ and get(self.e, s, outs[1], 0, 'f') is B_ and
                     fl is I(self.flags), 'the initial interval given back is not that of the start')
            else:
                g.ob('protocol', not any(p.a[0] in s.mem and s.mem[p.a[0]][0] for p in outs[:3]),
                     'an output is set without an initial interval')
        for s, v in b:
            if v is not self.OK:
                g.ob('protocol', not any(p.a[0] in s.mem and s.mem[p.a[0]][0] for p in outs[3:]),
                     'an output is set without any result')

    def final(self, st):
        e, g = self.e, self.g
        outs = [ext(st, e, 'o%d' % i) for i in range(7)]
        for s, v in self.call(st, 'opk_fmin_get_final', self.ctx, *outs):
            g.ob('result', v is self.OK, 'the result is not available after convergence')
            o = [get(e, s, p, 0, 'f') for p in outs[:6]]
            nev = get(e, s, outs[6], 0, 'i')
            g.ob('budget', nev is s.gh['n'], 'reports %s evaluations instead of %s' % (show(nev), show(s.gh['n'])))
            ok = False
            for r in g.current(s):
                ok = ok or r[0] == 'B' and o[0] is r[3] and o[3] is r[4] and \
                    {(o[1], o[4]), (o[2], o[5])} == {(r[1], r[2]), (r[5], r[6])}
            g.ob('result', ok, 'reports xmin=%s, xlo=%s, xhi=%s with values %s, %s, %s: not the final bracket and its '
                 'values' % tuple(show(x) for x in o))
            g.ob('result', not A.fmask(s, o[1], o[2]) & A.GT, 'xlo may be larger than xhi')
        # every output is optional
        for k in range(7):
            args = [NULL if i == k else p for i, p in enumerate(outs)]
            bad = []
            hook = lambda eng, s, p, nn, ins: bad.append(ins.loc()) if nn is False else None
            e.on_deref.append(hook)
            r = self.call(st, 'opk_fmin_get_final', self.ctx, *args)
            e.on_deref.remove(hook)
            g.ob('result', not bad and bool(r) and all(v is self.OK for _, v in r), 'an output which is not wanted is needed')

    def explore(self):
        c, e, g, E = self.c, self.e, self.g, self.E
        st = State()
        g.begin(st)
        A.assume_fcm(st, A_, B_, A.LT | A.GT)
        prec = fsym('prec')
        A.set_fr(st, prec, R(0, False, 1e300, False))
        rets = self.call(st, 'opk_fmin_new', ZERO)
        if not g.ob('protocol', len(rets) == 1 and rets[0][1].k == 'ptr', 'no context is created'):
            return
        st, self.ctx = rets[0]
        self.xp = ext(st, e, 'x')
        self.refused(st, 'iterating before any start', fsym('anything'), fsym('f'))
        self.getters(st, False, 'before any start')
        for s, v in self.call(st, 'opk_fmin_set_precision', self.ctx, prec):
            g.ob('protocol', v is self.OK, 'the precision is not accepted')
            st = s
        for s, v in self.call(st, 'opk_fmin_start', self.ctx, A_, A_, I(self.flags)):
            g.ob('protocol', v is self.INVALID and s.mem == st.mem, 'an empty interval is accepted or changes something')
        rets = self.call(st, 'opk_fmin_start', self.ctx, A_, B_, I(self.flags))
        if not g.ob('protocol', len(rets) == 1 and rets[0][1] is self.OK, 'the start fails'):
            return
        st = rets[0][0]
        g.ob('protocol', self.status(st) == E['START'], 'the status after the start')
        self.getters(st, True, 'after a start')
        reg = self.ctx.a[0]
        g.protect = {(reg, k) for k, cell in st.mem[reg][0].items() if cell[0] in (A_, B_)}
        work, seen = [(st, 'START')], set()
        count = 0
        while work:
            st, kind = work.pop()
            count += 1
            if count > 400:
                raise Broken('the reverse communication does not reach a fixpoint')
            if kind == 'START':
                rets = self.next(st, fsym('anything'), fsym('f'))
            elif kind == 'FX':
                x = get(e, st, self.xp, 0, 'f')
                rets = self.next(st, None, fv(x))
            else:
                s = st.copy()
                p2 = fsym('prec2')
                A.set_fr(s, p2, R(0, False, 1e300, False))
                rets = []
                for s2, v in self.call(s, 'opk_fmin_set_precision', self.ctx, p2):
                    s2.gh['prec'] = p2
                    rets += self.next(s2, None, fsym('f'))
                    rets += self.next(s2, None, fv(get(e, s2, self.xp, 0, 'f')))
            g.ob('protocol', bool(rets), 'never returns')
            for s, v in rets:
                t = self.task(v)
                want = s.gh.get('prec', prec)
                g.ob('protocol', self.status(s) == t, 'the recorded status is not the returned one')
                refs = g.current(s)
                if t == E['FX']:
                    x = get(e, s, self.xp, 0, 'f')
                    g.ob('precision', g.unfinished(s, x, want), 'a value is asked for without having found that the '
                         'precision is not reached')
                    if not g.ob('evaluation', g.evaluated(s, x), 'a value is asked for at %s, not where the golden '
                                'section method tells from the values known so far' % show(x)):
                        continue
                    kind2 = 'FX'
                elif t == E['CONVERGENCE']:
                    ok = any(r[0] == 'B' and g.converged(s, r, want) is True for r in refs)
                    g.ob('precision', ok, 'convergence is announced although the precision may not be reached')
                    nf = len(c.fail)
                    self.final(s)
                    kind2 = 'CONVERGENCE'
                    if not ok or len(c.fail) > nf:
                        continue
                else:
                    g.ob('protocol', False, 'returns %s in the middle of a search' % show(v))
                    continue
                k = self.canonical(s, kind2, want, prec)
                if k in seen:
                    continue
                seen.add(k)
                # misuse at this point
                x = get(e, s, self.xp, 0, 'f')
                y = fsym('other')
                A.assume_fcm(s, A_, B_, A.LT | A.GT)
                for q in (A_, B_):
                    A.set_fr(s, q, FIN)
                s3 = s.copy()
                A.assume_fcm(s3, y, x, A.LT | A.GT)
                self.refused(s3, 'changing the position', y, fsym('f'))
                for s4, v4 in self.next(s3, y, fsym('f')):
                    self.refused(s4, 'iterating after an error', None, fsym('f'))
                    for s5, v5 in self.call(s4, 'opk_fmin_start', self.ctx, A_, B_, I(self.flags)):
                        g.ob('protocol', v5 is self.OK and self.status(s5) == E['START'], 'no start after an error')
                for s4, v4 in self.call(s, 'opk_fmin_start', self.ctx, A_, B_, I(self.flags)):
                    g.ob('protocol', v4 is self.OK and self.status(s4) == E['START'], 'no start in the middle of a search')
                for s4, v4 in self.call(s, 'opk_fmin_next', self.ctx, NULL, fsym('f')):
                    g.ob('protocol', self.task(v4) == E['ERROR'] and self.status(s4) == E['ERROR'],
                         'a missing position is not an error')
                work.append((s, kind2))
        for s, v in self.call(st, 'opk_fmin_next', NULL, self.xp, fsym('f')):
            g.ob('protocol', self.task(v) == E['ERROR'], 'a missing context is not an error')
        g.ob('protocol', any(k[0] == 'CONVERGENCE' for k in seen), 'convergence is never announced')
        c.done(e)

    def canonical(self, st, kind, want, prec):
        """canonical names in the state and its identity"""
        g = self.g
        reg = self.ctx.a[0]
        n = st.gh['n']
        g.rename(st)
        cells, N_ = dict(st.mem[reg][0]), isym('nev')
        for k, cell in cells.items():
            t = cell[0]
            if isinstance(t, T) and t.k == 'P' and 8 in cell[1:] and \
                    (t is (sub(n, ONE) if kind == 'FX' else n) if isconst(n) else not isconst(t) and isconst(sub(n, t))):
                cells[k] = (sub(N_, sub(n, t)),) + tuple(cell[1:])
            elif t is want:
                cells[k] = (prec,) + tuple(cell[1:])
        st.mem[reg] = (cells,) + tuple(st.mem[reg][1:])
        st.gh['n'] = N_
        A.assume_ic(st, sub(N_, ONE), 6)
        st.gh.pop('prec', None)
        st.ff = {k: m for k, m in st.ff.items() if not any(fsym(s) in atoms(t) for t in k for s in ('prec', 'prec2', 'other',
                                                                                               'anything', 'f'))}
        st.fr = {t: r for t, r in st.fr.items() if t is prec or not (atoms(t) & {fsym('prec'), fsym('prec2')})}
        A.set_fr(st, prec, R(0, False, 1e300, False))
        for q in POSN + (A_, B_):
            A.set_fr(st, q, FIN)
        st.bf = {}
        order = g.order(st)
        return (kind, st.gh['refs'], order, tuple(sorted((str(k), c[0].n) for k, c in cells.items()
                                                         if isinstance(c[0], T))),
                get(self.e, st, self.xp, 0, 'f'))


@check('F03', TECH)
def f03(c):
    P = c.lib()
    parallel(c, [lambda c, k=k: Reverse(c, P, k).explore() for k in range(8)])
    c.require('evaluation', 40)
    c.require('precision', 40)
    c.require('result', 100)
    c.require('protocol', 300)
