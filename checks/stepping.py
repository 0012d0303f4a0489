"""L04: between two values of the function, each line search proceeds by its published rule."""
import itertools
from .core import *
from .realform import rnf, _add, _mul, _scale, freeze
from .options import NONNEG, POS, RANGE, R
from .linesearch import implied, resolve, fo

BIG = R(-1e300, False, 1e300, False)
OPS = {'<': A.LT, '<=': A.LT | A.EQ, '>': A.GT, '>=': A.GT | A.EQ, '==': A.EQ}


def lin(*terms):
    r = {}
    for t in terms:
        r = _add(r, t)
    return r


def form(x):
    if isinstance(x, dict):
        return x
    if isinstance(x, (int, float)):
        return rnf(F(float(x)))
    return rnf(x)


def minus(a, b):
    return _add(form(a), form(b), -1)


def times(a, b):
    return _mul(form(a), form(b))


def plus(a, b):
    return _add(form(a), form(b))


def fabs(a):
    from .realform import _canon, atom
    a = form(a)
    if not a:
        return a
    if list(a) == [()]:
        return {(): abs(a[()])}
    k, p = _canon(a)
    return _scale(atom(('abs', freeze(p))), abs(k))


def over(a, b):
    from .realform import _canon, atom
    a, b = form(a), form(b)
    if len(b) == 1 and () in b:
        return _scale(a, 1 / b[()])
    k, p = _canon(b)
    return _scale(_mul(a, atom(('inv', freeze(p)))), 1 / k)


L_, E_, G_ = A.LT, A.EQ, A.GT
PRODUCT = [(L_, L_, G_), (L_, G_, L_), (G_, L_, L_), (G_, G_, G_)] + [(E_, x, E_) for x in (L_, E_, G_)] + \
    [(x, E_, E_) for x in (L_, G_)]
SUM = [(L_, L_, L_), (G_, G_, G_), (L_, G_, L_ | E_ | G_), (G_, L_, L_ | E_ | G_)] + [(E_, x, x) for x in (L_, E_, G_)] + \
    [(x, E_, x) for x in (L_, G_)]


def union(it):
    r = 0
    for x in it:
        r |= x
    return r


def mask(r):
    s = 0
    if r.lo is None:
        return A.ALL & ~A.UN
    if r.lo < 0:
        s |= A.LT
    if r.hi > 0:
        s |= A.GT
    if r.lo <= 0 <= r.hi and not (r.lo == 0 and r.lo_o or r.hi == 0 and r.hi_o):
        s |= A.EQ
    return s


def quotients(st, d):
    """sign of a form through the comparisons known of quotients"""
    m = A.ALL & ~A.UN
    fd = freeze(d)
    for (x, y), known in st.ff.items():
        e = _add(rnf(x), rnf(y), -1)
        inv = {a for mono in e for a in mono if isinstance(a, tuple) and a[0] == 'inv'}
        if len(inv) != 1:
            continue
        a, = inv
        den = dict(a[1])
        s = sign(st, den) if den != d else A.ALL
        if s not in (A.LT, A.GT):
            continue
        n = {}
        for mono, k in e.items():
            if a in mono:
                i = mono.index(a)
                n = _add(n, {mono[:i] + mono[i + 1:]: k})
            else:
                n = _add(n, _mul({mono: k}, den))
        fe = freeze(n)
        if len(fe) != len(fd):
            continue
        k = fe[0][1] / fd[0][1]
        if tuple((u, v / k) for u, v in fe) == fd:
            m &= known if (k > 0) == (s == A.GT) else A.rev(known)
    return m


def sign(st, d):
    """mask of the signs which a real form may have on the path"""
    if not d:
        return A.EQ
    if list(d) == [()]:
        return A.GT if d[()] > 0 else A.LT
    d = resolve(st, d)
    m = implied(st, d) & ~A.UN
    m &= quotients(st, d)
    fd = freeze(d)
    for t in list(st.fr) + [x for f in st.ff for x in f]:
        if t.k not in ('fo', 'at', 'ld'):
            continue
        e = rnf(t)
        if len(e) != len(d) or not e:
            continue
        fe = freeze(e)
        k = fe[0][1] / fd[0][1]
        if tuple((a, b / k) for a, b in fe) != fd:
            continue
        r = A.frange(st, t)
        if r.lo is None:
            continue
        s = 0
        s = mask(r)
        m &= s if k > 0 else A.rev(s)
    # signs of the terms of the form
    s = A.EQ
    for mono, k in d.items():
        b = A.GT if k > 0 else A.LT
        for x in mono:
            v = mask(A.frange(st, x)) if isinstance(x, T) else A.GT | A.EQ if x[0] == 'abs' else A.ALL & ~A.UN
            b = union(r for u, q, r in PRODUCT if b & u and v & q)
        s = union(r for u, q, r in SUM if s & u and b & q)
    return m & s


class Never(Exception):
    pass


class Ghost:
    """one run of the published rule; conditions the path does not decide are decided both ways"""

    def __init__(self, st, choices):
        self.st, self.choices, self.i = st, choices, 0
        self.alts, self.known = [], {}

    def cond(self, a, op, b, soft=False):
        d = minus(a, b)
        m = sign(self.st, d)
        if d and list(d) != [()]:
            fd = freeze(d)
            k = fd[0][1]
            key = tuple((x, y / k) for x, y in fd)
            m &= self.known.get(key, A.ALL) if k > 0 else A.rev(self.known.get(key, A.ALL))
        if soft and m & ~A.EQ:
            m &= ~A.EQ
        t = OPS[op]
        if not m:
            raise Never
        if not m & ~t:
            return True
        if not m & t:
            return False
        if self.i < len(self.choices):
            r = self.choices[self.i]
        else:
            self.alts.append(self.choices[:self.i] + [False])
            self.choices = self.choices[:self.i] + [True]
            r = True
        self.i += 1
        m &= t if r else ~t
        self.known[key] = m if k > 0 else A.rev(m)
        return r

    def min(self, a, b):
        return a if self.cond(a, '<=', b, True) else b

    def max(self, a, b):
        return a if self.cond(a, '>=', b, True) else b


def equal(st, a, b):
    d = minus(a, b)
    return not d or sign(st, d) == A.EQ


def outcomes(st, rule):
    todo, res = [[]], []
    while todo:
        g = Ghost(st, todo.pop())
        try:
            res.append(rule(g))
        except Never:       # only with undefined values or rounding errors
            pass
        todo += g.alts
        if len(res) > 400:
            raise AnalysisLimit('too many undecided conditions')
    return res


class Search:
    def __init__(self, c, method, params, **cell):
        self.c, self.method, self.cell = c, method, cell
        P = self.P = c.lib()
        e = self.e = c.engine(P)
        e.malloc_fails = False
        e.mutable_globals_initial = True
        e.merge = None
        self.T = {k: P.enums['OPK_LNSRCH_' + k] for k in ('ERROR', 'SEARCH', 'CONVERGENCE', 'WARNING')}
        self.S = P.enums
        st = State()
        self.p = {}
        args = []
        if method == 'nonmonotone':
            args.append(I(3))
        for n, r in params:
            self.p[n] = fsym(n)
            A.set_fr(st, self.p[n], r)
            args.append(self.p[n])
        if method == 'nonmonotone':
            A.assume_fcm(st, self.p['sigma1'], self.p['sigma2'], A.LT)
        if method == 'backtrack' and 'half' in cell:
            A.assume_fcm(st, self.p['amin'], F(.5), A.LT if not cell['half'] else A.GT | A.EQ)
        rets = [(s, v) for s, v in e.run(c.func(P, 'opk_lnsrch_new_' + method), args, st) if v.k == 'ptr']
        if len(rets) != 1:
            raise Broken('line search %s could not be created' % method)
        self.st, self.ls = rets[0]
        self.struct = method + '_lnsrch'
        V = self.V = {}
        for n in ('f', 'g', 'f0', 'g0', 'stp', 'stpmin', 'stpmax'):
            V[n] = fsym(n)
            A.set_fr(self.st, V[n], BIG)
        A.set_fr(self.st, V['g0'], R(-1e300, False, 0., True))
        A.set_fr(self.st, V['stpmin'], R(0., False, 1e300, False))
        for a, b in (('stpmin', 'stp'), ('stp', 'stpmax'), ('stpmin', 'stpmax')):
            A.assume_fcm(self.st, V[a], V[b], A.LT | A.EQ)
        e.models['opk_cstep'] = self.cstep
        self.st.gh['cstep'] = None

    def get(self, st, n, cls='f'):
        off = self.P.offset('opk_lnsrch_', n) if n in self.P.members('opk_lnsrch_') else \
            self.P.offset(self.owner(), n)
        return get(self.e, st, self.ls, off, cls) if cls == 'f' else self.e.read(
            st, mk('ptr', self.ls.a[0], add(self.ls.a[1], I(off))), 'i', 4)

    def put(self, n, v):
        off = self.P.offset('opk_lnsrch_', n) if n in self.P.members('opk_lnsrch_') else \
            self.P.offset(self.owner(), n)
        self.e.write(self.st, mk('ptr', self.ls.a[0], add(self.ls.a[1], I(off))), v, 8 if v.k in ('at', 'fo', 'fc') else 4)

    def owner(self):
        return self.struct

    def cstep(self, eng, st, a, ins):
        args = [eng.read(st, p, 'f', 8) for p in a[:7]] + [a[7], a[8], eng.read(st, a[9], 'i', 4), a[10], a[11]]
        self.c.ob('once', st.gh.get('cstep') is None, self.method, 'the safeguarded step is computed twice', ins)
        out = []
        for b in (None, 0, 1):
            s2 = st.copy()
            s2.gh['cstep'] = (tuple(args), b)
            if b is None:
                out.append((s2, I(self.S['OPK_STEP_OUTSIDE_BRACKET'])))
                continue
            for n, p in zip(('stx', 'fx', 'gx', 'sty', 'fy', 'gy', 'stp'), a[:7]):
                v = fsym(n + "'")
                A.set_fr(s2, v, BIG)
                eng.write(s2, p, v, 8)
            eng.write(s2, a[9], I(b), 4)
            out.append((s2, I(self.S['OPK_SUCCESS'])))
        return out

    def start(self):
        """a new search"""
        V = self.V
        return [(s, v) for s, v in self.e.run(self.c.func(self.P, 'opk_lnsrch_start'),
                                              [self.ls] + [V[n] for n in ('f0', 'g0', 'stp', 'stpmin', 'stpmax')], self.st)]

    def iterate(self):
        V = self.V
        x = ext(self.st, self.e, '&stp')
        self.e.write(self.st, x, V['stp'], 8)
        r = self.e.run(self.c.func(self.P, 'opk_lnsrch_iterate'), [self.ls, x, V['f'], V['g']], self.st)
        return [(s, v, self.e.read(s, x, 'f', 8)) for s, v in r]

    def resume(self):
        """an object in the course of a search"""
        V = self.V
        (s, v), = [x for x in self.start() if x[1] is I(self.T['SEARCH'])]
        self.st = s

    def run(self, rule, fields):
        """one iteration compared with the rule: rule(ghost, cstep outcome) -> (task, set of statuses, step, fields)"""
        n = 0
        for s, v, x in self.iterate():
            n += 1
            st_ = self.e.read(s, mk('ptr', self.ls.a[0], add(self.ls.a[1], I(self.P.offset('opk_lnsrch_', 'status')))),
                              'i', 4)
            call = s.gh.get('cstep')
            ok, why, rn = True, '', 'task'
            results = outcomes(s, lambda g: rule(g, call))
            if not results:
                continue
            for task, status, step, want in results:
                if v is not I(self.T[task]):
                    ok, why, rn = False, 'answers task %s (status %s) where the rule gives %s %s' % (show(v), show(st_), task, want.get('why', status)), 'task'
                elif status and st_ not in [I(self.S[k]) for k in status]:
                    ok, why, rn = False, 'status %s where the rule gives %s' % (show(st_), ' or '.join(status)), 'task'
                elif step is not None and not equal(s, x, step):
                    ok, why, rn = False, 'next step is %s' % show(x), 'step'
                elif task == 'SEARCH':
                    for k, w in want.items():
                        h = self.get(s, k, 'i' if isinstance(w, T) else 'f')
                        if (h is not w) if isinstance(w, T) else not equal(s, h, w):
                            ok, why, rn = False, '%s becomes %s' % (k, show(h)), 'state'
                            break
                if not ok:
                    break
            self.c.ob(rn, ok, self.method, '%s %s: %s' % (self.method, self.cell or '', why))
            for o in {'task', 'step', 'state'} - {rn}:
                self.c.ob(o, True, self.method)
        self.c.done(self.e)
        self.c.ob('returns', n > 0, self.method, 'no path returns')


def finish(g, V, step, fields, soft=True):
    """the step is kept within the bounds of the search"""
    first = g.cond(V['stp'], '<=', V['stpmin'])
    last = not first and g.cond(V['stp'], '>=', V['stpmax'])
    if g.cond(step, '<=', V['stpmin']):
        return ('WARNING', ['OPK_STEP_EQ_STPMIN'], form(V['stpmin']), {}) if first else \
            ('SEARCH', (), form(V['stpmin']), fields)
    if g.cond(step, '>=', V['stpmax']):
        return ('WARNING', ['OPK_STEP_EQ_STPMAX'], form(V['stpmax']), {}) if last else \
            ('SEARCH', (), form(V['stpmax']), fields)
    return 'SEARCH', (), form(step), fields


def backtrack(c, half):
    S = Search(c, 'backtrack', (('ftol', R(0., True, .5, False)), ('amin', RANGE[NONNEG[1:3]])), half=half)
    S.resume()
    V, p = S.V, S.p

    def rule(g, call):
        if g.cond(V['f'], '<=', plus(V['f0'], times(p['ftol'], times(V['stp'], V['g0'])))):
            return 'CONVERGENCE', (), None, {}
        if g.cond(V['stp'], '<=', V['stpmin']):
            return 'WARNING', ['OPK_STEP_EQ_STPMIN'], form(V['stpmin']), {}
        if half:
            x = times(V['stp'], .5)
        else:
            q = _scale(times(V['stp'], V['g0']), -1)
            r = times(plus(minus(V['f'], V['f0']), q), 2)
            if g.cond(r, '<=', 0, True):
                x = times(V['stp'], .5)
            elif g.cond(q, '<=', times(p['amin'], r), True):
                x = times(V['stp'], p['amin'])
            else:
                x = times(V['stp'], over(q, r))
        x = form(V['stpmin']) if g.cond(x, '<', V['stpmin'], True) else x
        return finish(g, V, x, {})
    S.run(rule, ())


def nonmonotone(c):
    S = Search(c, 'nonmonotone', (('ftol', RANGE[POS]), ('sigma1', RANGE[NONNEG[1:3]]), ('sigma2', RANGE[NONNEG[1:3]])))
    S.resume()
    V, p = S.V, S.p
    fm = fsym('fmax')
    A.set_fr(S.st, fm, BIG)
    S.put('fmax', fm)

    def rule(g, call):
        if g.cond(V['f'], '<=', plus(fm, times(p['ftol'], times(V['stp'], V['g0'])))):
            return 'CONVERGENCE', (), None, {}
        if g.cond(V['stp'], '<=', V['stpmin']):
            return 'WARNING', ['OPK_STEP_EQ_STPMIN'], form(V['stpmin']), {}
        q = _scale(times(V['g0'], times(V['stp'], V['stp'])), -1)
        r = times(minus(minus(V['f'], V['f0']), times(V['stp'], V['g0'])), 2)
        if g.cond(r, '>', 0, True) and g.cond(times(p['sigma1'], r), '<=', q, True) and \
                g.cond(q, '<=', times(times(p['sigma2'], V['stp']), r), True):
            x = over(q, r)
        else:
            x = times(plus(V['stp'], V['stpmin']), .5)
        x = g.max(x, V['stpmin'])
        if g.cond(x, '<=', 0):
            return 'WARNING', ['OPK_STEP_EQ_STPMIN'], None, {}
        return finish(g, V, x, {})
    S.run(rule, ())


def csrch(c, brackt, stage):
    S = Search(c, 'csrch', (('ftol', RANGE[NONNEG]), ('gtol', RANGE[NONNEG]), ('xtol', RANGE[NONNEG])), bracketed=brackt,
               stage=stage)
    S.resume()
    V, p = S.V, S.p
    L = ('stx', 'fx', 'gx', 'sty', 'fy', 'gy', 'stmin', 'stmax', 'width', 'width1')
    for n in L:
        V[n] = fsym(n)
        A.set_fr(S.st, V[n], BIG)
        S.put(n, V[n])
    S.put('brackt', I(brackt))
    S.put('stage', I(stage))
    N = {n: fsym(n + "'") for n in ('stx', 'fx', 'gx', 'sty', 'fy', 'gy', 'stp')}
    gt = times(p['ftol'], V['g0'])

    def rule(g, call):
        ft = plus(V['f0'], times(V['stp'], gt))
        low = g.cond(V['f'], '<=', ft)
        if low and g.cond(fabs(V['g']), '<=', _scale(times(p['gtol'], V['g0']), -1)):
            return 'CONVERGENCE', (), None, {}
        w = []
        if g.cond(V['stp'], '==', V['stpmin']) and (not low or g.cond(V['g'], '>=', gt)):
            w.append('OPK_STEP_EQ_STPMIN')
        elif g.cond(V['stp'], '==', V['stpmax']) and low and g.cond(V['g'], '<=', gt):
            w.append('OPK_STEP_EQ_STPMAX')
        elif brackt and g.cond(minus(V['stmax'], V['stmin']), '<=', times(p['xtol'], V['stmax'])):
            w.append('OPK_XTOL_TEST_SATISFIED')
        elif brackt and (g.cond(V['stp'], '<=', V['stmin']) or g.cond(V['stp'], '>=', V['stmax'])):
            w.append('OPK_ROUNDING_ERRORS_PREVENT_PROGRESS')
        if w:
            return 'WARNING', w, None, {}
        first = stage == 1 and not (low and g.cond(V['g'], '>=', 0))
        modified = first and not low and g.cond(V['f'], '<=', V['fx'])
        fields = {'stage': I(1 if first else 2)}
        if call is None:
            return 'ERROR', ['OPK_SUCCESS'], None, {'why': 'a safeguarded step'}
        args, b = call
        # arguments of the safeguarded step
        want = dict(zip(L, (V[n] for n in L)))
        if modified:
            sub_ = {'fx': ('stx', gt), 'fy': ('sty', gt)}
            for n, (s, h) in sub_.items():
                want[n] = minus(V[n], times(V[s], gt))
            want['gx'], want['gy'] = minus(V['gx'], gt), minus(V['gy'], gt)
            fg = minus(V['f'], times(V['stp'], gt)), minus(V['g'], gt)
        else:
            fg = form(V['f']), form(V['g'])
        exp = [want[n] for n in ('stx', 'fx', 'gx', 'sty', 'fy', 'gy')] + [V['stp'], fg[0], fg[1], None, V['stmin'], V['stmax']]
        for i, (h, x) in enumerate(zip(args, exp)):
            if x is None:
                good = h is I(brackt)
            elif i in (3, 4, 5) and not brackt or i in (10, 11) and brackt and False:
                continue
            else:
                good = rnf(h) == form(x)
            if not good:
                return 'ERROR', ['OPK_SUCCESS'], None, {'why': 'other arguments of the safeguarded step'}
        if b is None:
            return 'ERROR', ['OPK_STEP_OUTSIDE_BRACKET'], None, {}
        back = gt if modified else {}
        new = {n: form(N[n]) for n in N}
        for n, s in (('fx', 'stx'), ('fy', 'sty')):
            new[n] = plus(new[n], times(N[s], back))
        for n in ('gx', 'gy'):
            new[n] = plus(new[n], back)
        step = new['stp']
        keep = ('stx', 'fx', 'gx') + (('sty', 'fy', 'gy') if b else ())
        fields.update({n: new[n] for n in keep})
        fields['brackt'] = I(b)
        fields['width'], fields['width1'] = form(V['width']), form(V['width1'])
        if b:
            width = fabs(minus(new['sty'], new['stx']))
            if g.cond(width, '>=', times(.66, V['width1']), True):
                step = times(.5, plus(new['sty'], new['stx']))
            fields['width1'], fields['width'] = form(V['width']), width
            fields['stmin'], fields['stmax'] = g.min(new['stx'], new['sty']), g.max(new['stx'], new['sty'])
        else:
            d = minus(step, new['stx'])
            fields['stmin'], fields['stmax'] = plus(step, times(1.1, d)), plus(step, times(4, d))
        step = g.max(step, V['stpmin'])
        step = g.min(step, V['stpmax'])
        if b and (g.cond(step, '<=', fields['stmin']) or g.cond(step, '>=', fields['stmax']) or
                  g.cond(minus(fields['stmax'], fields['stmin']), '<=', times(p['xtol'], fields['stmax']))):
            step = new['stx']
        return finish(g, V, step, fields)
    S.run(rule, ())


def started(c):
    """state in which a search starts"""
    S = Search(c, 'csrch', (('ftol', RANGE[NONNEG]), ('gtol', RANGE[NONNEG]), ('xtol', RANGE[NONNEG])))
    for n in ('stx', 'fx', 'gx', 'stmin', 'stmax', 'width', 'width1'):
        S.put(n, fsym('old_' + n))
    S.put('brackt', isym('old_brackt'))
    S.put('stage', isym('old_stage'))
    V = S.V
    w = minus(V['stpmax'], V['stpmin'])
    want = {'stx': {}, 'fx': form(V['f0']), 'gx': form(V['g0']), 'stmin': form(V['stpmin']), 'stmax': form(V['stpmax']),
            'width': w, 'width1': times(2, w)}
    n = 0
    for s, v in S.start():
        if v is not I(S.T['SEARCH']):
            continue
        n += 1
        for k, x in want.items():
            h = S.get(s, k)
            c.ob('start', rnf(h) == x, 'csrch:' + k, 'csrch: a new search starts with %s = %s' % (k, show(h)))
        for k, x in (('brackt', I(0)), ('stage', I(1))):
            h = S.get(s, k, 'i')
            c.ob('start', h is x, 'csrch:' + k, 'csrch: a new search starts with %s = %s' % (k, show(h)))
    c.done(S.e)
    c.ob('returns', n > 0, 'csrch', 'no search starts')


@check('L04', 'abstract interpretation of one iteration of each line search from any state; outcome of every path compared, '
              'as real forms, with the published rule')
def l04(c):
    jobs = [lambda c, h=h: backtrack(c, h) for h in (0, 1)] + [nonmonotone, started]
    jobs += [lambda c, a=a: csrch(c, *a) for a in itertools.product((0, 1), (1, 2))]
    parallel(c, jobs)
    c.require('task', 40)
    c.require('step', 40)
    c.require('start', 8)
