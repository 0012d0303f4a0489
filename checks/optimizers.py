"""T01-T07: the limited memory variable metric and the non-linear conjugate gradient optimizers.

The public interface is followed symbolically along histories of calls: create, start, then iterate as told.  The variables
and the gradients the caller provides are free vectors, the function values free reals; the operations on vectors, convex
sets and line searches are replaced by their contracts (decided by O03-O08, O07 and L01-L03), every outcome they may
have being followed.  What an optimizer returns or hands to the line search is compared, as a function of these free
quantities (pit.py), with the published algorithm replayed on the same history, whatever internal variables are used.
Histories are enumerated up to a number of iterations that wraps the memory around; those that agree on which
correction pairs are usable, on what the line search said and on how the last direction was chosen are represented by
one of them."""
import itertools
from .core import *
from .options import offs, RANGE, FIN, NONNEG, POS, R
from .pit import Pit, Facts, M, N

FINITE = R(-1e300, False, 1e300, False)
ZEROV = (0,) * N


def vx(*a):
    return mk('vx', *a)


def atomv(name):
    return vx('atom', name)


def vdata(st, p):
    return st.gh.get(('vec', p.a[0]), A.INIT)


class NullArg(Exception):
    pass


class Sim:
    """models of the vector operations, of a convex set and of a line search"""

    def __init__(self, c, P):
        self.c, self.P = c, P
        self.En = P.enums
        self.e = e = c.engine(P)
        e.mutable_globals_initial = True
        e.merge = None
        e.malloc_fails = False
        e.unroll = 64
        self.use_deriv = 1
        self.nfail = True
        e.on_deref.append(self.deref)
        for n in dir(self):
            if n.startswith('m_'):
                e.models['opk_' + n[2:]] = self.guarded(n[2:], getattr(self, n))
        self.count = 0
        self.pit = Pit()

    def deref(self, eng, st, p, nn, ins):
        if nn is False:
            fn = eng.callstack[-1][0].name if eng.callstack else '?'
            self.c.bad('crash', '%s/NULL' % fn, '%s follows a NULL address' % fn, ins.loc())

    def guarded(self, name, model):
        def f(eng, st, a, ins):
            try:
                return model(eng, st, a, ins)
            except NullArg as x:
                self.c.bad('crash', '%s/%s' % (self.where, name), 'opk_%s is called with the argument %s'
                           % (name, x), ins.loc())
                return []
        return f

    # vectors
    def newvec(self, st, name, content=None):
        p = ext(st, self.e, name)
        put(self.e, st, p, offs(self.P, 'opk_vector', 'owner'), self.space)
        st.gh[('vec', p.a[0])] = content if content is not None else A.INIT
        return p

    def m_vcreate(self, eng, st, a, ins):
        n = 'v%d' % st.gh.get('nvec', ZERO).a[0]
        st.gh['nvec'] = add(st.gh.get('nvec', ZERO), ONE)
        return [(st, self.newvec(st, n))]

    def setv(self, st, p, v):
        if p.k != 'ptr' or ('vec', p.a[0]) not in st.gh:
            raise NullArg(show(p))
        st.gh[('vec', p.a[0])] = v

    def getv(self, st, p):
        if p.k != 'ptr' or ('vec', p.a[0]) not in st.gh:
            raise NullArg(show(p))
        return vdata(st, p)

    def real(self, st, n, nonneg=False):
        t = mk('at', n, 'f')
        A.set_fr(st, t, R(0., False, 1e300, False) if nonneg else FINITE)
        return t

    def m_vzero(self, eng, st, a, ins):
        self.setv(st, a[0], vx('const', F(0.)))
        return [(st, None)]

    def m_vfill(self, eng, st, a, ins):
        self.setv(st, a[0], vx('const', a[1]))
        return [(st, None)]

    def m_vcopy(self, eng, st, a, ins):
        self.setv(st, a[0], self.getv(st, a[1]))
        return [(st, None)]

    def m_vswap(self, eng, st, a, ins):
        x, y = self.getv(st, a[0]), self.getv(st, a[1])
        self.setv(st, a[0], y)
        self.setv(st, a[1], x)
        return [(st, None)]

    def m_vscale(self, eng, st, a, ins):
        self.setv(st, a[0], vx('lin', a[1], self.getv(st, a[2])))
        return [(st, None)]

    def m_vproduct(self, eng, st, a, ins):
        self.setv(st, a[0], vx('prod', self.getv(st, a[1]), self.getv(st, a[2])))
        return [(st, None)]

    def m_vaxpby(self, eng, st, a, ins):
        self.setv(st, a[0], vx('lin', a[1], self.getv(st, a[2]), a[3], self.getv(st, a[4])))
        return [(st, None)]

    def m_vaxpbypcz(self, eng, st, a, ins):
        self.setv(st, a[0], vx('lin', a[1], self.getv(st, a[2]), a[3], self.getv(st, a[4]), a[5], self.getv(st, a[6])))
        return [(st, None)]

    def m_vdot(self, eng, st, a, ins):
        x, y = self.getv(st, a[0]), self.getv(st, a[1])
        return [(st, self.real(st, vx('dot', x, y), x is y))]

    def m_vdot3(self, eng, st, a, ins):
        w, x, y = (self.getv(st, q) for q in a)
        return [(st, self.real(st, vx('dot3', w, x, y), (x is y and w.k == 'vx' and w.a[0] == 'free')))]

    def m_vnorm2(self, eng, st, a, ins):
        return [(st, self.real(st, vx('nrm', self.getv(st, a[0])), True))]

    # convex set
    def outcomes(self, st, what):
        """success, or (once per path) a failure"""
        out = [(st, I(self.En['OPK_SUCCESS']))]
        if self.nfail:
            s2 = st.copy()
            s2.gh['failed'] = mk('str', what)
            out.append((s2, I(self.En['OPK_NOT_IMPLEMENTED'])))
        return out

    def box(self, a):
        if a.k != 'ptr' or a is not self.boxp:
            raise NullArg(show(a))
        return a.a[0]

    def m_project_variables(self, eng, st, a, ins):
        b = self.box(a[2])
        out = self.outcomes(st, 'projection')
        s = out[0][0]
        self.setv(s, a[0], vx('proj', self.getv(s, a[1]), b))
        return out

    def m_project_direction(self, eng, st, a, ins):
        b = self.box(a[2])
        out = self.outcomes(st, 'direction')
        s = out[0][0]
        self.setv(s, a[0], vx('pdir', self.getv(s, a[1]), self.getv(s, a[3]), b, a[4]))
        return out

    def m_get_free_variables(self, eng, st, a, ins):
        b = self.box(a[2])
        out = self.outcomes(st, 'free variables')
        s = out[0][0]
        self.setv(s, a[0], vx('free', self.getv(s, a[1]), self.getv(s, a[3]), b, a[4]))
        return out

    def m_get_step_limits(self, eng, st, a, ins):
        b = self.box(a[4])
        out = self.outcomes(st, 'step limits')
        s = out[0][0]
        x, d = self.getv(s, a[3]), self.getv(s, a[5])
        for i, n in enumerate(('smin1', 'smin2', 'smax')):
            if a[i] is not NULL:
                eng.write(s, a[i], F(A.INF) if self.wide else
                          self.real(s, vx('steplim', x, d, atomv((n, show(a[6])))), True), 8)
        return out

    # line search
    def m_lnsrch_use_deriv(self, eng, st, a, ins):
        return [(st, I(self.use_deriv))]

    def m_lnsrch_start(self, eng, st, a, ins):
        st.gh['ls'] = mk('call', 'start', *a[1:6])
        st.gh['lscalls'] = add(st.gh.get('lscalls', ZERO), ONE)
        s2 = st.copy()
        s3 = st.copy()
        return [self.lsout(st, 'SEARCH', 'OPK_SUCCESS'), self.lsout(s2, 'ERROR', 'OPK_NOT_A_DESCENT')]

    def lsout(self, st, task, status):
        st.gh['lst'] = I(self.En['OPK_LNSRCH_' + task])
        st.gh['lss'] = I(self.En[status])
        return st, st.gh['lst']

    def m_lnsrch_iterate(self, eng, st, a, ins):
        stp = eng.read(st, a[1], 'f', 8)
        st.gh['ls'] = mk('call', 'iterate', stp, a[2], a[3])
        st.gh['lscalls'] = add(st.gh.get('lscalls', ZERO), ONE)
        out = []
        for task, status in self.lsmenu:
            s = st.copy()
            if task == 'SEARCH':
                t = mk('at', 'stp%d' % self.tick(s), 'f')
                A.set_fr(s, t, R(0., True, 1e300, False))
                eng.write(s, a[1], t, 8)
                s.gh['newstp'] = t
            out.append(self.lsout(s, task, status))
        return out

    def tick(self, st):
        n = st.gh.get('tick', ZERO)
        st.gh['tick'] = add(n, ONE)
        return ival(n)

    def m_lnsrch_get_status(self, eng, st, a, ins):
        return [(st, st.gh['lss'])]

    def m_lnsrch_get_task(self, eng, st, a, ins):
        return [(st, st.gh['lst'])]

    def m_lnsrch_get_step(self, eng, st, a, ins):
        raise AnalysisLimit('step of the line search')

    def lstask(self, *tasks):
        return lambda eng, st, a, ins: [(st, I(int(any(st.gh['lst'] is I(self.En['OPK_LNSRCH_' + t]) for t in tasks))))]

    lsmenu = (('SEARCH', 'OPK_SUCCESS'), ('CONVERGENCE', 'OPK_SUCCESS'),
              ('WARNING', 'OPK_ROUNDING_ERRORS_PREVENT_PROGRESS'), ('WARNING', 'OPK_STEP_EQ_STPMAX'),
              ('ERROR', 'OPK_STEP_CHANGED'))


class Hist:
    """what happened so far, with the values the published algorithm would have"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def copy(self):
        h = Hist(**self.__dict__)
        h.pairs = list(self.pairs)
        h.log = list(self.log)
        return h


class Opt(Sim):
    """one optimizer with symbolic options; kind is 'vmlmb' or 'nlcg'"""
    kind = None

    def __init__(self, c, P, size=5, tag='', **cell):
        super().__init__(c, P)
        self.cell = cell
        self.tag = tag
        self.nfail = bool(cell.get('fails'))
        self.wide = cell.get('mem', 1) > 1       # no limit on the steps
        e, En = self.e, self.En
        for n, t in (('has_errors', ('ERROR',)), ('has_warnings', ('WARNING',)), ('converged', ('CONVERGENCE',)),
                     ('finished', ('CONVERGENCE', 'WARNING', 'ERROR'))):
            e.models['opk_lnsrch_' + n] = self.lstask(*t)
        self.st = st = State()
        self.space = ext(st, e, 'space')
        put(e, st, self.space, offs(P, 'opk_vspace', 'size'), I(size))
        self.ls = ext(st, e, 'lnsrch')
        self.boxp = NULL
        if cell.get('bounded'):
            self.boxp = ext(st, e, 'box')
            put(e, st, self.boxp, offs(P, 'opk_convexset', 'space'), self.space)
        self.opts = ext(st, e, 'opts')
        self.o = {}
        for f in ('delta', 'epsilon', 'grtol', 'gatol', 'stpmin', 'stpmax'):
            self.o[f] = t = F(0.) if (f == 'epsilon' and not cell.get('epsilon')) else mk('at', 'opt.' + f, 'f')
            if t.k == 'at':
                A.set_fr(st, t, R(0., f in ('delta', 'epsilon'), 1. if f == 'epsilon' else 1e300, f == 'epsilon'))
            put(e, st, self.opts, offs(P, self.struct, f), t)
        A.assume_fcm(st, self.o['stpmin'], self.o['stpmax'], A.LT)
        self.setup(st)
        self.x = self.newvec(st, 'x', atomv('x0'))
        self.g = self.newvec(st, 'g', atomv('g0'))
        self.lnsrch_given = self.ls

    def fn(self, name):
        return self.c.func(self.P, name % self.kind if '%' in name else name)

    def calls(self, st, name, *a):
        return self.e.run(self.fn(name), list(a), st)

    def get(self, st, name, *a):
        """value of a getter"""
        r = self.calls(st.copy(), name, self.obj, *a)
        if len(r) != 1:
            raise AnalysisLimit('%s forks' % name)
        return r[0][1]

    def put_int(self, st, f, v, size=4):
        put(self.e, st, self.opts, offs(self.P, self.struct, f), I(v), size)

    # ------------------------------------------------------------------ obligations
    def ob(self, rule, ok, what, h):
        where = self.where
        self.c.ob(rule, ok, where, '%s [%s; history: %s]' % (what, self.tag, ' '.join(h.log) if h else '-'))
        return ok

    def val(self, t):
        return self.pp.ev(t)

    def vec(self, st, p):
        return self.pp.vec(vdata(st, p))

    def facts(self, st):
        """facts of a path, None when it is infeasible"""
        eq = any(m & ~A.UN == A.EQ for m in st.ff.values()) or \
            any(r.lo is not None and r.lo == r.hi and t.k != 'fc' for t, r in st.fr.items())
        if eq and self.wide:
            return None            # coincidences are explored with a single memorized pair
        self.pp = Pit() if eq else self.pit
        f = Facts(st, self.pp)
        return f if f.consistent() else None

    # ------------------------------------------------------------------ histories
    def create(self):
        self.where = 'opk_new_%s_optimizer' % self.kind
        out = self.calls(self.st, self.where, *self.newargs())
        out = [(s, v) for s, v in out if v is not NULL]
        if not out:
            self.c.bad('crash', self.where, '%s refuses valid options [%s]' % (self.where, self.tag))
            raise Broken('%s: no object' % self.where)
        if len(out) != 1:
            raise Broken('%s: %d outcomes' % (self.where, len(out)))
        st, self.obj = out[0]
        self.e.split_bool = True
        h = Hist(log=[], pairs=[], evals=0, iters=0, restarts=0, phase='new', searches=0, started=0)
        self.ob('protocol', self.get(st, 'opk_get_%s_task') is I(self.En['OPK_TASK_ERROR']) and
                self.get(st, 'opk_get_%s_status') is I(self.En['OPK_NOT_STARTED']),
                'a new optimizer is not in the not-started error state', h)
        x0 = vdata(st, self.x)
        self.where = 'opk_iterate_' + self.kind
        for s, v in self.calls(st.copy(), self.where, self.obj, self.x, fsym('f'), self.g):
            self.ob('protocol', v is I(self.En['OPK_TASK_ERROR']) and vdata(s, self.x) is x0 and 'ls' not in s.gh,
                    'iterating an optimizer which is not started returns %s' % show(v), h)
        return st, h

    def start(self, st, h):
        """[(state, hist)] after a start; x is arbitrary"""
        self.where = 'opk_start_' + self.kind
        n = h.started
        st.gh.pop('failed', None)
        st.gh.pop('ls', None)
        self.setv(st, self.x, atomv('x%d.' % n))
        res = []
        for s, v in self.calls(st, self.where, self.obj, self.x):
            h2 = Hist(log=h.log + ['start'], pairs=[], evals=0, iters=0, restarts=0, phase='fg', searches=h.searches,
                      started=n + 1, kind=None, valid=(), mode='', x0=None, g0=None)
            f = self.facts(s)
            if f is None:
                continue
            bad = s.gh.get('failed')
            if bad is not None:
                self.ob('errors', v is I(self.En['OPK_TASK_ERROR']) and
                        self.get(s, 'opk_get_%s_status') is I(self.En['OPK_NOT_IMPLEMENTED']) and
                        self.get(s, 'opk_get_%s_task') is v,
                        'a failure of the %s at start is not reported (task %s)' % (bad.a[0], show(v)), h2)
                continue
            x = self.pp.vec(atomv('x%d.' % n))
            if self.boxp is not NULL:
                x = self.pp.proj(x, self.boxp.a[0])
                self.ob('feasible', self.vec(s, self.x) == x, 'the initial variables are not projected', h2)
            else:
                self.ob('trial', self.vec(s, self.x) == x, 'the initial variables are modified', h2)
            self.ob('protocol', v is I(self.En['OPK_TASK_COMPUTE_FG']), 'start returns task %s' % show(v), h2)
            self.counters(s, h2, v)
            res.append((s, h2))
        return res

    def counters(self, st, h, task):
        want = dict(evaluations=h.evals, iterations=h.iters, restarts=h.restarts)
        for n, w in want.items():
            v = self.get(st, 'opk_get_%%s_%s' % n)
            self.ob('counters', v is I(w), '%s is %s instead of %d' % (n, show(v), w), h)
        self.ob('protocol', self.get(st, 'opk_get_%s_task') is task, 'the recorded task is not the returned one', h)
        s = self.get(st, 'opk_get_%s_status')
        err = task is I(self.En['OPK_TASK_ERROR'])
        self.ob('protocol', (s is not I(self.En['OPK_SUCCESS'])) == err, 'status %s with task %s' % (show(s), show(task)), h)

    def step(self, st, h):
        """one call to iterate; [(key, state, hist)]"""
        self.where = 'opk_iterate_' + self.kind
        En = self.En
        st.gh.pop('failed', None)
        st.gh.pop('ls', None)
        st.gh['lscalls'] = ZERO
        h = h.copy()
        if h.phase == 'fg':
            h.evals += 1
            h.f = mk('at', 'f%d.%d' % (h.started, h.evals), 'f')
            A.set_fr(st, h.f, FINITE if self.cell.get('anyf') else R(1e-300, False, 1e300, False))
            self.setv(st, self.g, atomv('g%d.%d' % (h.started, h.evals)))
            self.lsmenu = Sim.lsmenu if h.searches < 1 else Sim.lsmenu[1:]
        xc, gc = vdata(st, self.x), vdata(st, self.g)
        out = []
        for s, v in self.calls(st, self.where, self.obj, self.x, h.f, self.g):
            f = self.facts(s)
            if f is None:
                continue
            h2 = h.copy()
            self.ob('trial', vdata(s, self.g) is gc, 'the gradient is modified', h2)
            r = (self.after_fg if h.phase == 'fg' else self.after_new)(s, h2, v, f, xc)
            if r is not None:
                out.append((r, s, h2))
        return out

    def failed(self, s, h, v, status, what):
        self.ob('errors', v is I(self.En['OPK_TASK_ERROR']) and self.get(s, 'opk_get_%s_status') is I(status) and
                self.get(s, 'opk_get_%s_task') is v,
                '%s: task %s, status %s instead of an error with status %d'
                % (what, show(v), show(self.get(s, 'opk_get_%s_status')), status), h)
        # the error remains
        if v is I(self.En['OPK_TASK_ERROR']):
            xc = vdata(s, self.x)
            s2 = s.copy()
            s2.gh.pop('ls', None)
            for s3, v3 in self.calls(s2, 'opk_iterate_%s', self.obj, self.x, h.f, self.g):
                self.ob('errors', v3 is v and vdata(s3, self.x) is xc and 'ls' not in s3.gh,
                        'iterating after an error returns %s' % show(v3), h)

    def after_fg(self, s, h, v, f, xc):
        En = self.En
        ls = s.gh.get('ls')
        bad = s.gh.get('failed')
        if h.evals == 1:
            self.ob('linesearch', ls is None, 'the line search is used at the first evaluation', h)
            outcome = 'CONVERGENCE'
        else:
            if not self.ob('linesearch', ls is not None and ls.a[0] == 'iterate' and s.gh['lscalls'] is ONE,
                           'the line search is not iterated once after an evaluation', h):
                return None
            stp, fx, dg = ls.a[1:]
            self.ob('linesearch', self.val(stp) == h.stp, 'the line search is not given the current step', h)
            self.ob('linesearch', fx is h.f, 'the line search is not given the function value', h)
            if self.use_deriv:
                g = self.vec(s, self.g)
                pp = self.pp
                if self.boxp is not NULL:
                    x = pp.vec(xc)
                    w = pp.div((pp.dot(x, g) - pp.dot(h.x0, g)) % M, h.stp)
                else:
                    w = -pp.dot(h.d, g) % M
                self.ob('linesearch', self.val(dg) == w,
                        'the line search is not given the directional derivative', h)
                h.dtg = w
            t = s.gh['lst']
            outcome = next(n for n in ('SEARCH', 'CONVERGENCE', 'WARNING', 'ERROR') if En['OPK_LNSRCH_' + n] == ival(t))
            if outcome == 'SEARCH':
                h.log.append('search')
                h.searches += 1
                if bad is not None:
                    self.failed(s, h, v, En['OPK_NOT_IMPLEMENTED'], 'the %s fails' % bad.a[0])
                    return None
                h.stp = self.val(s.gh['newstp'])
                self.ob('protocol', v is I(En['OPK_TASK_COMPUTE_FG']), 'task %s while searching' % show(v), h)
                self.trial(s, h)
                self.counters(s, h, v)
                return ('search', h.valid, h.mode, len(h.pairs), h.started)
            if outcome == 'ERROR' or (outcome == 'WARNING' and
                                      s.gh['lss'] is not I(En['OPK_ROUNDING_ERRORS_PREVENT_PROGRESS'])):
                h.log.append(outcome.lower())
                self.failed(s, h, v, ival(s.gh['lss']), 'the line search terminates with %s' % outcome.lower())
                return None
            h.iters += 1
        h.log.append('accept')
        self.ob('trial', vdata(s, self.x) is xc, 'the accepted variables are modified', h)
        if bad is not None:
            self.failed(s, h, v, En['OPK_NOT_IMPLEMENTED'], 'the %s fail' % bad.a[0])
            return None
        # stopping criterion
        g = self.vec(s, self.g)
        pp = self.pp
        if self.boxp is not NULL:
            h.w = tuple(pp.free(pp.vec(xc), g, self.boxp.a[0], I(En['OPK_ASCENT'])))
            h.pg = tuple(a * b for a, b in zip(h.w, g))
        else:
            h.w, h.pg = None, g
        h.gnorm = pp.root(pp.dot(h.pg, h.pg))
        if h.evals == 1:
            h.ginit = h.gnorm
        gn = self.val(self.get(s, 'opk_get_%s_gnorm'))
        self.ob('stop', gn == h.gnorm, 'the norm of the %sgradient is wrong'
                % ('projected ' if self.boxp is not NULL else ''), h)
        bounds = [0, self.val(self.o['gatol']), pp.mul(self.val(self.o['grtol']), h.ginit)]
        if v is I(En['OPK_TASK_FINAL_X']):
            ok = any(not (f.mask(h.gnorm, b) & A.GT) for b in bounds)
            self.ob('stop', ok, 'convergence is reported although the gradient norm is larger than gatol and '
                    'grtol times its initial value', h)
        elif v is I(En['OPK_TASK_NEW_X']):
            ok = all(not (f.mask(h.gnorm, b) & ~A.GT) for b in bounds)
            self.ob('stop', ok, 'convergence is not reported although the gradient norm is small enough', h)
        else:
            self.ob('protocol', False, 'task %s after an accepted step' % show(v), h)
            return None
        self.counters(s, h, v)
        h.phase = 'new'
        h.x = pp.vec(xc)
        h.gv = g
        self.pairs_ok(s, h)
        if v is I(En['OPK_TASK_FINAL_X']):
            h.log.append('final')
        return ('final' if v is I(En['OPK_TASK_FINAL_X']) and self.cell.get('final') else 'new', h.valid, h.mode,
                len(h.pairs), h.started, h.searches)

    def trial(self, s, h):
        """the variables to be evaluated next"""
        pp = self.pp
        x = pp.lin(1, h.x0, -h.stp % M, h.d)
        got = self.vec(s, self.x)
        if self.boxp is not NULL:
            x = pp.proj(x, self.boxp.a[0])
            self.ob('feasible', got in pp.projected, 'the variables to evaluate are not projected on the feasible set', h)
        self.ob('trial', got == x, 'the trial point is not x0 - stp*d', h)

    def direction(self, s, h, cands):
        """which of the candidates {mode: d} leads to the trial point?"""
        pp = self.pp
        got = self.vec(s, self.x)
        for mode, d in cands.items():
            x = pp.lin(1, h.x, -h.stp % M, d)
            if self.boxp is not NULL:
                x = pp.proj(x, self.boxp.a[0])
            if got == x:
                return mode
        return None

    def first_step(self, s, h, f, dtg):
        """length of the first step along the steepest descent: set of admissible values"""
        pp = self.pp
        fv = self.val(h.f)
        if fv:
            return {pp.abs(pp.div(2 * fv % M, dtg))}
        x = h.x
        xn = pp.dot(x, x) if self.boxp is NULL or h.w is None else sum(a * b * b for a, b in zip(h.w, x)) % M
        if self.boxp is not NULL and self.kind == 'vmlmb':
            pass
        delta = self.val(self.o['delta'])
        r = pp.root(xn)
        m = f.mask(r, 0)
        out = set()
        if m & A.GT:
            out.add(pp.div(pp.mul(delta, r), h.gnorm))
        if not (m & A.GT):
            out = {pp.div(delta, h.gnorm)}
        return out

    def pairs_ok(self, s, h):
        pass

    def explore(self, depth, cap=40, restart_at=None):
        st, h = self.create()
        states = self.start(st, h)
        self.ob('returns', bool(states), 'start never succeeds', h)
        for k in range(depth):
            seen = {}
            for s, hh in states:
                for key, s2, h2 in self.step(s.copy(), hh):
                    if key not in seen:
                        seen[key] = (s2, h2)
            states = [seen[x] for x in sorted(seen, key=lambda t: repr(t))][:cap]
            if restart_at == k:
                for s, hh in list(states)[-2:]:
                    states += self.start(s.copy(), hh)
            if not states:
                break
        self.c.done(self.e)


# ------------------------------------------------------------------------------------------------ VMLMB
class VMLMB(Opt):
    kind = 'vmlmb'
    struct = 'opk_vmlmb_options'

    def setup(self, st):
        cell = self.cell
        put(self.e, st, self.opts, offs(self.P, self.struct, 'mem'), I(cell['mem']))
        self.put_int(st, 'blmvm', int(cell['method'] == 'BLMVM'))
        self.put_int(st, 'save_memory', int(cell['save']))
        self.m = min(cell['mem'], cell.get('size', 5))
        put(self.e, st, self.space, offs(self.P, 'opk_vspace', 'size'), I(cell.get('size', 5)))

    def newargs(self):
        return [self.opts, self.space, self.ls, self.boxp]

    def qn(self, h, w, valid):
        """two-loop recursion with the usable pairs; None when there are none"""
        pp = self.pp
        masked = self.cell['method'] == 'VMLMB'
        dot = (lambda a, b: sum(x * y * z for x, y, z in zip(w, a, b)) % M) if masked else pp.dot
        use = [p for p, ok in zip(h.pairs, valid) if ok]
        if not use:
            return None
        q = h.gv
        al = []
        for S, Y in reversed(use):
            a = pp.div(dot(q, S), pp.canon(dot(S, Y)))
            al.append(a)
            q = pp.lin(1, q, -a % M, Y)
        S, Y = use[-1]
        gamma = pp.canon(pp.div(pp.canon(dot(S, Y)), dot(Y, Y)))
        q = pp.lin(gamma, q)
        for (S, Y), a in zip(use, reversed(al)):
            b = pp.div(dot(q, Y), pp.canon(dot(S, Y)))
            q = pp.lin(1, q, (a - b) % M, S)
        if masked:
            q = tuple(x * y % M for x, y in zip(w, q))
        return q

    def after_new(self, s, h, v, f, xc):
        En, pp, c = self.En, self.pp, self.cell
        bad = s.gh.get('failed')
        ls = s.gh.get('ls')
        masked = c['method'] == 'VMLMB'
        gq = h.pg if c['method'] == 'BLMVM' else h.gv
        pairs = list(h.pairs)
        if h.iters >= 1:
            pairs.append((pp.lin(1, h.x, M - 1, h.x0), pp.lin(1, gq, M - 1, h.g0)))
            pairs = pairs[-self.m:]
        h.pairs = pairs
        # usable pairs
        masks = []
        for S, Y in pairs:
            sty = sum(x * y * (z if masked else 1) for x, y, z in zip(S, Y, h.w or S)) % M
            masks.append(f.mask(pp.canon(sty), 0))
        sure = [not (m & ~A.GT) for m in masks]
        maybe = [bool(m & A.GT) for m in masks]
        h.valid = tuple(sure)
        for (S, Y), ok in zip(pairs, sure):
            if ok and sum(y * y * (z if masked else 1) for y, z in zip(Y, h.w or Y)) % M in pp.alias:
                return None            # <s,y> > 0 and y = 0
        box = self.boxp.a[0] if self.boxp is not NULL else None
        up = I(En['OPK_ASCENT'])
        d = self.qn(h, h.w, sure)
        if d is not None and box is not None:
            d = tuple(pp.pdir(h.x, d, box, up))
        sd = h.pg if (masked or c['method'] == 'BLMVM') else h.gv
        if bad is not None:
            h.log.append('fail')
            self.failed(s, h, v, En['OPK_NOT_IMPLEMENTED'], 'the %s fails' % bad.a[0])
            return None
        if ls is None:
            # step blocked by the bounds
            h.log.append('blocked')
            st_ = self.get(s, 'opk_get_%s_status')
            if not self.ob('linesearch', box is not None and v is I(En['OPK_TASK_ERROR']) and
                           st_ is I(En['OPK_WOULD_BLOCK']),
                           'no line search is started (task %s, status %s)' % (show(v), show(st_)), h):
                return None
            dd = [x for x in (d, sd) if x is not None]
            ok = any(not (f.mask(self.limit(h, x, 'smax'), 0) & A.GT) for x in dd)
            self.ob('linesearch', ok, 'the step is said to be blocked although it is not', h)
            self.failed(s, h, v, En['OPK_WOULD_BLOCK'], 'the step is blocked')
            return None
        f0, dtg, stp, lo, hi = ls.a[1:]
        self.ob('linesearch', ls.a[0] == 'start' and s.gh['lscalls'] is ONE, 'the line search is not started once', h)
        self.ob('linesearch', f0 is h.f, 'the line search is not given the function value', h)
        slope, stpv = self.val(dtg), self.val(stp)
        h.stp = stpv
        h.x0, h.g0 = h.x, gq
        dsl = None if d is None else -pp.dot(d, h.gv) % M
        ssl = -pp.dot(h.pg, h.pg) % M
        if s.gh['lst'] is not I(En['OPK_LNSRCH_SEARCH']):
            self.failed(s, h, v, ival(s.gh['lss']), 'the line search cannot start')
            return None
        cands = {}
        if d is not None:
            cands['qn'] = d
        cands['sd'] = sd
        mode = self.direction(s, h, cands)
        h.log.append('%s%s' % (mode, ''.join('+' if x else '-' for x in sure)))
        if mode is None:
            self.ob('direction', False, 'the search direction is neither the limited memory BFGS direction with the '
                    'last %d usable pairs nor the %sgradient' % (self.m, 'projected ' if box else ''), h)
            return None
        if mode == 'qn':
            self.ob('direction', sure == maybe, 'a pair is used or skipped without checking its curvature', h)
            self.ob('linesearch', slope == dsl, 'the slope given to the line search is not <-d,g>', h)
            self.ob('direction', not (f.mask(dsl, 0) & ~A.LT), 'the BFGS direction is used although it may not be a '
                    'descent direction', h)
            if c.get('epsilon'):
                thr = pp.mul(pp.mul(self.val(self.o['epsilon']), pp.root(pp.dot(d, d))), h.gnorm)
                self.ob('direction', not (f.mask(-dsl % M, thr) & A.LT), 'the BFGS direction is used although it is '
                        'not a sufficient descent direction', h)
            h.d = d
            steps = {1}
        else:
            self.ob('linesearch', slope == ssl, 'the slope given to the line search is not -|g|^2', h)
            reasons = [not any(maybe)]
            if d is not None:
                reasons.append(not (f.mask(dsl, 0) & A.LT))
                if c.get('epsilon'):
                    thr = pp.mul(pp.mul(self.val(self.o['epsilon']), pp.root(pp.dot(d, d))), h.gnorm)
                    reasons.append(not (f.mask(-dsl % M, thr) & ~A.LT))
            self.ob('direction', any(reasons), 'the BFGS direction is discarded although it is a sufficient descent '
                    'direction', h)
            if h.pairs:
                h.restarts += 1
                h.pairs = []
                h.valid = ()
            h.d = sd
            steps = self.first_step(s, h, f, ssl)
        # length of the first step and its bounds
        ok = False
        for s0 in steps:
            lov = pp.mul(s0, self.val(self.o['stpmin']))
            hiv = pp.mul(s0, self.val(self.o['stpmax']))
            st_ok = [s0]
            hi_ok = [hiv]
            if box is not None and not self.wide:
                b = self.limit(h, h.d, 'smax')
                st_ok = self.least(f, s0, b)
                hi_ok = self.least(f, hiv, b)
            if stpv in st_ok and self.val(lo) == lov and self.val(hi) in hi_ok:
                ok = True
        self.ob('linesearch', ok, 'the first step or the step bounds given to the line search are wrong', h)
        self.ob('protocol', v is I(En['OPK_TASK_COMPUTE_FG']), 'task %s after starting a line search' % show(v), h)
        self.trial(s, h)
        self.counters(s, h, v)
        sg = self.val(self.get(s, 'opk_get_%s_step'))
        self.ob('counters', sg == stpv, 'the step returned is not the current one', h)
        self.pairs_ok(s, h)
        h.phase = 'fg'
        h.mode = mode
        return (mode, h.valid, len(h.pairs), h.started, h.searches)

    def limit(self, h, d, which):
        """upper limit of the step along d from the current point"""
        x = tuple(h.x)
        return self.pp.canon(self.pp_h('steplim', x, tuple(d), self.pp.vec(atomv((which, show(I(self.En['OPK_ASCENT'])))))))

    def pp_h(self, *k):
        from .pit import h as hh
        return hh(*k)

    def least(self, f, a, b):
        m = f.mask(a, b)
        out = []
        if not (m & A.GT):
            out.append(a)
        if not (m & A.LT):
            out.append(b)
        return out

    def pairs_ok(self, s, h):
        mp = self.get(s, 'opk_get_vmlmb_mp')
        n = len(h.pairs)
        if not self.ob('pairs', isconst(mp) and max(0, min(n, self.m - int(bool(self.cell['save'])))) <= ival(mp) <= n,
                       'the number of memorized pairs is %s, %d were formed' % (show(mp), n), h):
            return
        for j in range(1, ival(mp) + 1):
            for nm, k in (('s', 0), ('y', 1)):
                p = self.get(s, 'opk_get_vmlmb_' + nm, I(j))
                self.ob('pairs', p.k == 'ptr' and self.vec(s, p) == h.pairs[-j][k],
                        'the memorized %s of index %d is not the difference of the last %s' %
                        (nm, j, ('variables', 'gradients')[k]), h)
        p = self.get(s, 'opk_get_vmlmb_s', I(ival(mp) + 1))
        self.ob('pairs', p is NULL, 'a pair beyond the memorized ones is returned', h)


def vmlmb_cells(thorough):
    out = []
    for method in ('LBFGS', 'VMLMB', 'BLMVM'):
        for save in (1, 0):
            for mem in ((1, 2, 3, 4) if thorough else (1, 2, 3)):
                out.append(dict(method=method, save=save, mem=mem, bounded=method != 'LBFGS'))
            out.append(dict(method=method, save=save, mem=1, bounded=method != 'LBFGS', epsilon=True))
        out.append(dict(method=method, save=1, mem=3, size=2, bounded=method != 'LBFGS'))
        out.append(dict(method=method, save=1, mem=1, bounded=method != 'LBFGS', anyf=True, final=True))
        out.append(dict(method=method, save=0, mem=1, bounded=method != 'LBFGS', noderiv=True))
        if method != 'LBFGS':
            out.append(dict(method=method, save=1, mem=1, bounded=True, fails=True))
    return out


def run_vmlmb(c, rules, cell, P):
    c2 = Filter(c, rules)
    V = VMLMB(c2, P, tag=' '.join('%s=%s' % kv for kv in cell.items()), **cell)
    V.use_deriv = 0 if cell.get('noderiv') else 1
    iters = min(cell['mem'], cell.get('size', 5)) + 3 + (2 if c.thorough else 0)
    V.explore(2 * iters + 3, cap=60 if c.thorough else 24, restart_at=2 * iters - 2)


# ------------------------------------------------------------------------------------------------ NLCG
RULES = ('FLETCHER_REEVES', 'HESTENES_STIEFEL', 'POLAK_RIBIERE_POLYAK', 'FLETCHER', 'LIU_STOREY', 'DAI_YUAN',
         'PERRY_SHANNO', 'HAGER_ZHANG')
# values of the public macros OPK_NLCG_*
RULEVAL = {n: i + 1 for i, n in enumerate(RULES)}
POWELL, SHANNO_PHUA = 1 << 8, 1 << 9


class NLCG(Opt):
    kind = 'nlcg'
    struct = 'opk_nlcg_options'

    def setup(self, st):
        cell = self.cell
        self.fmin = mk('at', 'opt.fmin', 'f')
        A.set_fr(st, self.fmin, FINITE)
        put(self.e, st, self.opts, offs(self.P, self.struct, 'fmin'), self.fmin)
        self.put_int(st, 'fmin_given', int(bool(cell.get('fmin'))))
        self.put_int(st, 'flags', cell['flags'])
        fl = cell['flags'] or (RULEVAL['POLAK_RIBIERE_POLYAK'] | POWELL | SHANNO_PHUA)
        self.rule = RULES[(fl & 0xff) - 1]
        self.powell, self.phua = bool(fl & POWELL), bool(fl & SHANNO_PHUA)

    def newargs(self):
        return [self.opts, self.space, self.ls]

    def beta(self, h):
        """(coefficient, coefficients (c1, c2, c3) of g, d and y) of the rule; None when it is undefined"""
        pp = self.pp
        g, d = h.gv, h.d
        y = pp.lin(1, g, M - 1, h.g0)
        gg, gty, yty = pp.dot(g, g), pp.dot(g, y), pp.dot(y, y)
        dty = pp.canon(-pp.dot(d, y) % M)            # with the true direction -d
        dtg = pp.canon(-pp.dot(d, g) % M)
        g0g0 = pp.dot(h.g0, h.g0)
        r = self.rule
        if r == 'FLETCHER_REEVES':
            b = pp.div(gg, g0g0)
        elif r == 'POLAK_RIBIERE_POLYAK':
            b = pp.div(gty, g0g0)
        elif r == 'FLETCHER':
            b = pp.canon(-pp.div(gg, h.dtg0) % M)
        elif r == 'LIU_STOREY':
            b = pp.canon(-pp.div(gty, h.dtg0) % M)
        elif dty == 0 or (r == 'PERRY_SHANNO' and yty == 0):
            return None
        elif r == 'HESTENES_STIEFEL':
            b = pp.div(gty, dty)
        elif r == 'DAI_YUAN':
            b = pp.div(gg, dty)
        elif r == 'HAGER_ZHANG':
            b = pp.div(pp.canon((gty - 2 * pp.div(yty * dtg % M, dty)) % M), dty)
        else:
            c1 = pp.div(dty, yty)
            c2 = (pp.div(gty, yty) - 2 * pp.div(dtg, dty)) % M
            return pp.div(c2, c1), (c1, c2, -pp.div(dtg, yty) % M), y
        return b, (1, b, 0), y

    def after_new(self, s, h, v, f, xc):
        En, pp, c = self.En, self.pp, self.cell
        ls = s.gh.get('ls')
        if ls is None or ls.a[0] != 'start' or s.gh['lscalls'] is not ONE:
            self.ob('linesearch', False, 'the line search is not started once', h)
            return None
        f0, dtg, stp, lo, hi = ls.a[1:]
        self.ob('linesearch', f0 is h.f, 'the line search is not given the function value', h)
        slope, stpv = self.val(dtg), self.val(stp)
        old = h.stp if h.evals > 1 else None
        x1, g1 = h.x, h.gv
        sd = h.gv
        d = b = None
        reasons = [h.evals <= 1]
        if h.evals > 1:
            r = self.beta(h)
            if r is None:
                reasons.append(True)
            else:
                b, (c1, c2, c3), y = r
                simple = self.rule not in ('PERRY_SHANNO',)
                if simple and (b == 0 or (self.powell and self.rule not in ('FLETCHER_REEVES', 'FLETCHER') and
                                          not (f.mask(b, 0) & A.GT))):
                    reasons.append(True)
                else:
                    d = pp.lin(c1, h.gv, c2, h.d, c3, y)
        h.x0 = h.x
        h.stp = stpv
        if s.gh['lst'] is not I(En['OPK_LNSRCH_SEARCH']):
            self.failed(s, h, v, ival(s.gh['lss']), 'the line search cannot start')
            return None
        cands = {}
        if d is not None:
            cands['cg'] = d
        cands['sd'] = sd
        mode = self.direction(s, h, cands)
        h.log.append('%s' % mode)
        if mode is None:
            self.ob('direction', False, 'the search direction is neither that of the %s rule nor the gradient'
                    % self.rule, h)
            return None
        dsl = None if d is None else pp.canon(-pp.dot(d, h.gv) % M)
        thr = None
        if c.get('epsilon') and d is not None:
            thr = pp.mul(pp.mul(self.val(self.o['epsilon']), pp.root(pp.dot(d, d))), h.gnorm)
        if mode == 'cg':
            if self.powell and self.rule not in ('FLETCHER_REEVES', 'FLETCHER', 'PERRY_SHANNO'):
                self.ob('direction', not (f.mask(b, 0) & A.LT), 'a negative coefficient is used with Powell restarts', h)
            self.ob('linesearch', slope == dsl, 'the slope given to the line search is not <-d,g>', h)
            self.ob('direction', not (f.mask(dsl, 0) & ~A.LT), 'the conjugate direction is used although it may not be '
                    'a descent direction', h)
            if thr is not None:
                self.ob('direction', not (f.mask(-dsl % M, thr) & A.LT), 'the conjugate direction is used although it '
                        'is not a sufficient descent direction', h)
            steps = {pp.mul(old, pp.div(h.dtg0, dsl)) if self.phua else old}
            h.d = d
        else:
            ssl = -pp.dot(sd, sd) % M
            self.ob('linesearch', slope == ssl, 'the slope given to the line search is not -|g|^2', h)
            if d is not None:
                reasons.append(not (f.mask(dsl, 0) & A.LT))
                if thr is not None:
                    reasons.append(not (f.mask(-dsl % M, thr) & ~A.LT))
            self.ob('direction', any(reasons), 'the conjugate direction is discarded although it is a sufficient '
                    'descent direction', h)
            if h.evals > 1:
                h.restarts += 1
            h.d = sd
            steps = self.first_step(s, h, f, ssl)
            if c.get('fmin'):
                fm = self.val(self.fmin)
                m = f.mask(fm, self.val(h.f))
                s1 = {pp.div(2 * (fm - self.val(h.f)) % M, ssl)}
                steps = s1 if not (m & ~A.LT) else steps if not (m & A.LT) else steps & s1
            b = 0
        self.ob('direction', self.val(self.get(s, 'opk_get_nlcg_beta')) == b, 'the coefficient returned is not the one '
                'of the rule', h)
        lov, hiv = self.val(lo), self.val(hi)
        self.ob('linesearch', stpv in steps and any(
            lov == pp.mul(a, self.val(self.o['stpmin'])) and hiv == pp.mul(a, self.val(self.o['stpmax'])) for a in steps),
            'the first step or the step bounds given to the line search are wrong', h)
        h.g0 = h.gv
        h.dtg0 = slope
        self.ob('protocol', v is I(En['OPK_TASK_COMPUTE_FG']), 'task %s after starting a line search' % show(v), h)
        self.trial(s, h)
        self.counters(s, h, v)
        sg = self.val(self.get(s, 'opk_get_%s_step'))
        self.ob('counters', sg == stpv, 'the step returned is not the current one', h)
        h.phase = 'fg'
        h.mode = mode
        return (mode, h.started, h.searches)


def nlcg_cells(thorough):
    out = [dict(flags=0)]
    for r in RULES:
        for p in (0, POWELL):
            for q in (0, SHANNO_PHUA):
                out.append(dict(flags=RULEVAL[r] | p | q))
        out.append(dict(flags=RULEVAL[r] | POWELL | SHANNO_PHUA, epsilon=True))
    out.append(dict(flags=RULEVAL['HESTENES_STIEFEL'] | POWELL, fmin=True, anyf=True, final=True))
    out.append(dict(flags=RULEVAL['PERRY_SHANNO'], fmin=True, anyf=True))
    out.append(dict(flags=RULEVAL['FLETCHER'] | SHANNO_PHUA, anyf=True, final=True))
    return out


def run_nlcg(c, rules, cell, P):
    c2 = Filter(c, rules)
    V = NLCG(c2, P, tag='%s flags=%#x%s' % (RULES[(cell['flags'] & 0xff) - 1] if cell['flags'] else 'default',
                                            cell['flags'], ''.join(' ' + k for k in cell if k != 'flags')), **cell)
    V.explore(14 if c.thorough else 10, cap=40, restart_at=6)


class Filter:
    """a context that keeps the obligations of some rules"""

    def __init__(self, c, rules):
        self.c, self.rules = c, rules

    def ob(self, rule, ok, key, msg='', where=''):
        if rule in self.rules:
            self.c.ob(rule, ok, key, msg, where)
        return ok

    def __getattr__(self, n):
        return getattr(self.c, n)


def optim(c, rules, kinds=('vmlmb', 'nlcg')):
    P = c.lib()
    jobs = []
    if 'vmlmb' in kinds:
        jobs += [lambda c, x=x: run_vmlmb(c, rules, x, P) for x in vmlmb_cells(c.thorough)]
    if 'bounded' in kinds:
        jobs += [lambda c, x=x: run_vmlmb(c, rules, x, P) for x in vmlmb_cells(c.thorough) if x['bounded']]
    if 'nlcg' in kinds:
        jobs += [lambda c, x=x: run_nlcg(c, rules, x, P) for x in nlcg_cells(c.thorough)]
    parallel(c, jobs)


TECH = ('abstract interpretation of the optimizers driven by every history of their tasks; the values they store or '
        'pass on are compared with the published recursions by random interpretation (identity testing), no solver')


@check('T05', TECH)
def t05(c):
    optim(c, {'direction', 'pairs'}, ('vmlmb',))
    c.require('direction', 50)
    c.require('pairs', 50)


@check('T06', TECH)
def t06(c):
    optim(c, {'direction'}, ('nlcg',))
    c.require('direction', 200)


@check('T01', TECH)
def t01(c):
    optim(c, {'protocol', 'counters', 'errors', 'returns'})
    c.require('protocol', 100)
    c.require('counters', 100)


@check('T02', TECH)
def t02(c):
    optim(c, {'stop'})
    c.require('stop', 100)


@check('T04', TECH)
def t04(c):
    optim(c, {'feasible'}, ('bounded',))
    c.require('feasible', 100)


@check('T07', TECH)
def t07(c):
    optim(c, {'linesearch', 'trial'})
    c.require('linesearch', 100)
    c.require('trial', 50)
