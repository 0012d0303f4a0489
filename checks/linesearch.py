"""Line searches: protocol (L01), certification of convergence (L02), safeguarded step (L03)."""
import itertools
from .core import *
from .realform import rnf, _add, _mul, _scale, freeze
from .options import NONNEG, POS, RANGE, R, FIN

LE = A.LT | A.EQ


def strip(t):
    while t.k == 'fo' and t.a[0] in ('fpext', 'fptrunc'):
        t = t.a[1]
    return t


def resolve(st, d):
    """replace the magnitudes of values of known sign"""
    if not any(isinstance(x, tuple) and x[0] == 'abs' for mono in d for x in mono):
        return d
    r = {}
    for mono, k in d.items():
        p = {(): k}
        for x in mono:
            q = {(x,): 1}
            if isinstance(x, tuple) and x[0] == 'abs' and len(x[1]) == 1 and len(x[1][0][0]) == 1:
                t = x[1][0][0][0]
                f = A.frange(st, t) if isinstance(t, T) else None
                if f is not None and f.lo is not None and (f.lo >= 0 or f.hi <= 0):
                    q = {(t,): x[1][0][1] if f.lo >= 0 else -x[1][0][1]}
            p = _mul(p, q)
        r = _add(r, p)
    return r


def implied(st, d):
    """possible signs of the real form d according to the comparisons known in st (mask LT|EQ|GT|UN)"""
    m = A.ALL
    d = resolve(st, d)
    fd = freeze(d)
    if not fd:
        return A.EQ
    lead = fd[0][1]
    for (x, y), mm in st.ff.items():
        e = resolve(st, _add(rnf(x), rnf(y), -1))
        if len(e) != len(d):
            continue
        fe = freeze(e)
        k = fe[0][1] / lead
        if tuple((a, b / k) for a, b in fe) == fd:
            m &= mm if k > 0 else A.rev(mm)
    return m


def diff(a, b):
    return _add(a, b, -1)


METHODS = ('backtrack', 'nonmonotone', 'csrch', 'any')


class LS:
    def __init__(self, c, method, protocol=True, m=None):
        self.c, self.method, self.protocol = c, method, protocol
        self.P = P = c.lib(build.LIBOPK + ['client_lnsrch'])
        self.e = e = c.engine(P)
        e.malloc_fails = False
        e.mutable_globals_initial = True
        self.st = st = State()
        self.T = {k: P.enums['OPK_LNSRCH_' + k] for k in ('ERROR', 'SEARCH', 'CONVERGENCE', 'WARNING')}
        self.sym = {}
        e.models['v_more'] = lambda eng, st, a, ins: [(st, A.fresh('more', 'i'))]
        e.models['v_real'] = self.v_real
        e.models['v_started'] = self.v_started
        e.models['v_iterated'] = self.v_iterated
        self.starts = self.iters = 0
        self.log = []
        st.gh['method'] = A.INIT
        if method == 'any':
            ops = ext(st, e, 'ops')
            for m in ('start', 'iterate'):
                put(e, st, ops, P.offset('opk_lnsrch_operations_', m), mk('ptr', mk('reg', m, 0, 'ext'), ZERO))
            put(e, st, ops, P.offset('opk_lnsrch_operations_', 'finalize'), NULL)
            e.models['*'] = self.unknown
            rets = e.run(c.func(P, 'opk_allocate_line_search'), [ops, I(200)], st)
        else:
            args = []
            if method == 'nonmonotone':
                m = isym('m') if m is None else I(m)
                A.assume_ic(st, m, 4)
                args.append(m)
            for p, r in {'backtrack': (('ftol', R(0., True, .5, False)), ('amin', RANGE[NONNEG[1:3]])),
                         'nonmonotone': (('ftol', RANGE[POS]), ('sigma1', RANGE[NONNEG[1:3]]),
                                         ('sigma2', RANGE[NONNEG[1:3]])),
                         'csrch': (('ftol', RANGE[NONNEG]), ('gtol', RANGE[NONNEG]), ('xtol', RANGE[NONNEG]))}[method]:
                self.sym[p] = fsym(p)
                A.set_fr(st, self.sym[p], r)
                args.append(self.sym[p])
            if method == 'nonmonotone':
                A.assume_fcm(st, self.sym['sigma1'], self.sym['sigma2'], A.LT)
            rets = e.run(c.func(P, 'opk_lnsrch_new_' + method), args, st)
        rets = [(s, v) for s, v in rets if v.k == 'ptr']
        if len(rets) != 1:
            raise Broken('line search %s could not be created' % method)
        self.st, self.ls = rets[0]
        self.tcell = (self.ls.a[0], add(self.ls.a[1], I(P.offset('opk_lnsrch_', 'task'))))
        e.key = self.mkey
        if method == 'csrch' and not protocol:
            e.on_call.append(self.on_call)
            for x in ('stp', 'f', 'g'):
                self.st.gh[x] = A.INIT
        e.models['opk_cstep'] = self.cstep

    def mkey(self, st, blk):
        # disjuncts of the fixpoint: the pending task
        g = st.mem.get(self.tcell[0])
        cell = g and g[0].get(self.tcell[1])
        k = cell[0] if cell and isconst(cell[0]) else None
        if self.method != 'csrch' or self.protocol or 'f' not in st.gh or st.gh['f'] is A.INIT:
            return (k,)
        # while iterating: which of the two conditions of convergence is known to fail
        P, s = self.P, self.sym
        f0, g0 = (get(self.e, st, self.ls, P.offset('opk_lnsrch_', x), 'f') for x in ('finit', 'ginit'))
        dec, cur = self.conditions(st.gh['stp'], st.gh['f'], st.gh['g'], f0, g0)
        return (k, bool(implied(st, dec) & LE), bool(implied(st, cur) & LE))

    def conditions(self, stp, f, g, f0, g0):
        s = self.sym
        dec = rnf(mk('fo', 'fsub', mk('fo', 'fsub', f, f0), mk('fo', 'fmul', mk('fo', 'fmul', s['ftol'], stp), g0)))
        cur = None
        if 'gtol' in s:
            cur = diff(rnf(mk('fo', 'fabs', g)), rnf(mk('fo', 'fneg', mk('fo', 'fmul', s['gtol'], g0))))
        return dec, cur

    def on_call(self, eng, st, name, args, ins):
        if name == 'opk_lnsrch_iterate':
            st.gh['stp'] = eng.read(st, args[1], 'f', 8)
            st.gh['f'], st.gh['g'] = args[2], args[3]
        elif name == 'v_iterated':
            for x in ('stp', 'f', 'g'):
                st.gh[x] = A.INIT

    def cstep(self, eng, st, a, ins):
        # whatever the safeguarded step procedure does to its arguments (L03 is about it)
        bad = st.copy()
        for p in a[:7]:
            eng.write(st, p, self.v_real(eng, st, None, None)[0][1], 8)
        out = [(bad, I(self.P.enums['OPK_STEP_OUTSIDE_BRACKET']))]
        for b in (0, 1):
            s2 = st.copy()
            eng.write(s2, a[9], I(b), 4)
            out.append((s2, I(self.P.enums['OPK_SUCCESS'])))
        return out

    def v_real(self, eng, st, a, ins):
        t = A.fresh('real', 'f')
        A.set_fr(st, t, R(-A.INF, True, A.INF, True))
        return [(st, t)]

    def unknown(self, eng, st, a, ins):
        f, ls = a[0], a[1]
        name = f.a[0].a[0]
        P = self.P
        if f.a[0].k == 'ld' or name not in ('start', 'iterate'):
            raise Broken('unexpected indirect call in a line search')
        out = []
        for k, t in self.T.items():
            s = st.copy()
            stt = I(P.enums['OPK_SUCCESS']) if k in ('SEARCH', 'CONVERGENCE') else I(P.enums['OPK_UNDEFINED_VALUE'])
            put(eng, s, ls, P.offset('opk_lnsrch_', 'status'), stt, 4)
            put(eng, s, ls, P.offset('opk_lnsrch_', 'task'), I(t), 4)
            if name == 'iterate' and k == 'SEARCH':
                eng.write(s, a[2], self.v_real(eng, s, None, None)[0][1], 8)
            out.append((s, I(t)))
            s.gh['method'] = I(t)
        return out

    def v_started(self, eng, st, a, ins):
        ls, task, f0, g0, stp, smin, smax, task1, status, step = a
        P, T = self.P, self.T
        bad = []
        En = P.enums
        # what the arguments are on this path
        neg, rev, low, high, up = (A.fmask(st, x, y) for x, y in ((smin, F(0.)), (smin, smax), (stp, smin),
                                                                  (stp, smax), (g0, F(0.))))
        invalid = neg == A.LT or rev == A.GT or low == A.LT or high == A.GT or not (up & A.LT)
        valid = not (neg & A.LT) and not (rev & A.GT) and not (low & A.LT) and not (high & A.GT) and up == A.LT
        if not invalid and not valid:
            bad.append(('args', 'the arguments are not fully checked'))
        if task is not task1:
            bad.append(('task', 'the task returned is not the current task'))
        if valid:
            if self.method != 'any':
                if task is not I(T['SEARCH']) or status is not I(En['OPK_SUCCESS']):
                    bad.append(('valid', 'valid arguments yield task %s status %s' % (show(task), show(status))))
                if step is not stp:
                    bad.append(('step', 'the first step is %s' % show(step)))
        elif task is not I(T['ERROR']):
            bad.append(('invalid', 'invalid arguments yield task %s' % show(task)))
        else:
            codes = {En['OPK_STPMIN_LT_ZERO']: neg == A.LT, En['OPK_STPMIN_GT_STPMAX']: rev == A.GT,
                     En['OPK_STEP_LT_STPMIN']: low == A.LT, En['OPK_STEP_GT_STPMAX']: high == A.GT,
                     En['OPK_NOT_A_DESCENT']: not (up & A.LT)}
            if not (isconst(status) and codes.get(ival(status))):
                bad.append(('status', 'status %s for invalid arguments of another kind' % show(status)))
        if self.method == 'any' and isconst(task) and ival(task) == T['SEARCH'] and \
                status is not I(En['OPK_SUCCESS']):
            bad.append(('status', 'status %s' % show(status)))
        st.gh['method'] = A.INIT
        eng.log.append(('started', valid, bad, ins.loc()))
        return [(st, None)]

    def v_iterated(self, eng, st, a, ins):
        ls, before, stp0, arg, f, g, f0, g0, smin, smax, task, task1, status, stp1, step = a
        P, T, En = self.P, self.T, self.P.enums
        bad = []
        cert = []
        kind = None
        searching = A.imask(st, sub(before, I(T['SEARCH'])))
        if task is not task1:
            bad.append(('task', 'the task returned (%s) is not the current task (%s)' % (show(task), show(task1))))
        if not isconst(task) or ival(task) not in T.values():
            bad.append(('task', 'unknown task %s' % show(task)))
            ta = None
        else:
            ta = {v: k for k, v in T.items()}[ival(task)]
        ok = status is I(En['OPK_SUCCESS'])
        if ta and (ta in ('SEARCH', 'CONVERGENCE')) != ok:
            bad.append(('status', 'task %s with status %s' % (ta, show(status))))
        changed = A.fmask(st, arg, stp0)
        if not (searching & 2):
            kind = 'idle'
            if ta != 'ERROR' or status is not I(En['OPK_NOT_STARTED']):
                bad.append(('idle', 'iterating without a pending search gives task %s status %s' % (ta, show(status))))
        elif searching != 2:
            bad.append(('idle', 'the pending task is not checked'))
        elif not (changed & A.EQ):
            kind = 'changed'
            if ta != 'ERROR' or status is not I(En['OPK_STEP_CHANGED']):
                bad.append(('changed', 'a modified step gives task %s status %s' % (ta, show(status))))
        elif changed != A.EQ:
            bad.append(('changed', 'the step is not checked'))
        else:
            kind = 'search'
            lo, hi = A.fmask(st, stp1, smin), A.fmask(st, stp1, smax)
            if (lo & A.LT) or (hi & A.GT):
                # equality of the bound that was stored
                bad.append(('inside', 'the step %s is not kept within the bounds (task %s)' % (show(stp1), ta)))
            if ta == 'SEARCH':
                if step is not stp1 and A.fmask(st, step, stp1) & ~A.EQ:
                    bad.append(('step', 'the step to try is not the current step'))
            elif step is not F(-1.0):
                bad.append(('step', 'the current step is %s after the search has ended' % show(step)))
            if ta == 'CONVERGENCE':
                if stp1 is not arg and A.fmask(st, stp1, arg) != A.EQ:
                    bad.append(('keep', 'convergence changes the step'))
            if self.method == 'any':
                m = st.gh.get('method')
                if m is not A.INIT and ta is not None and m is not I(T[ta]):
                    # only a search that is stuck at a bound may be turned into a warning
                    stuck = m is I(T['SEARCH']) and ta == 'WARNING' and (
                        A.fmask(st, stp0, smin) & ~A.GT == A.fmask(st, stp0, smin) or
                        A.fmask(st, stp0, smax) & ~A.LT == A.fmask(st, stp0, smax))
                    if not stuck:
                        bad.append(('method', 'the outcome of the method (%s) becomes %s' % (show(m), ta)))
            else:
                # the step of the method is the pending step or the (equal) one passed by the caller
                best = None
                for stp in {stp0, arg}:
                    r = []
                    self.certify(st, r, ta, stp, f, g, f0, g0)
                    if best is None or len(r) < len(best):
                        best = r
                cert += best
        st.gh['method'] = A.INIT
        eng.log.append(('iterated', kind, ta, bad, cert, ins.loc()))
        return [(st, None)]

    def certify(self, st, cert, ta, stp, f, g, f0, g0):
        s = self.sym
        m = self.method
        # sufficient decrease: f - finit - ftol*stp*ginit <= 0
        dec, cur = self.conditions(stp, f, g, f0, g0)
        sd = [implied(st, dec)]
        if m == 'csrch':
            cur = [implied(st, cur)]
        elif m == 'nonmonotone':
            # the reference is the greatest of the last function values: any term ref with ref >= f0
            sd = []
            for (x, y), mm in st.ff.items():
                d = diff(rnf(x), rnf(y))
                for sg in (1, -1):
                    e = diff(_scale(d, sg), dec)      # f - ref' - ftol stp ginit - dec = f0 - ref'
                    e = diff(e, rnf(f0))
                    if len(e) == 1 and list(e.values())[0] == -1:
                        mono = next(iter(e))
                        if len(mono) == 1:
                            sd.append((mm if sg > 0 else A.rev(mm), mono[0]))
            sd = sd or [implied(st, dec)]
            cur = []
        else:
            cur = []
        if m == 'nonmonotone':
            sds = [x[0] if isinstance(x, tuple) else x for x in sd]
            if ta == 'CONVERGENCE':
                if not any(not (x & ~LE) for x in sds):
                    cert.append('convergence without sufficient decrease')
            elif all(x & LE for x in sds):
                cert.append('the search goes on (%s) although the function sufficiently decreased' % ta)
            return
        if ta == 'CONVERGENCE':
            if sd[0] & ~LE:
                cert.append('convergence without sufficient decrease')
            if cur and cur[0] & ~LE:
                cert.append('convergence without the curvature condition')
        else:
            if (sd[0] & LE) and not (cur and not (cur[0] & LE)):
                cert.append('the search does not stop (%s) although the conditions hold' % ta)

    def run(self):
        rets = self.e.run(self.c.func(self.P, 'lnsrch_client'), [self.ls], self.st)
        self.c.done(self.e)
        return rets


def flush(c, L, what):
    for ev in L.e.log:
        if ev[0] == 'started' and what == 'L01':
            c.ob('start', not ev[2], '%s:%s' % (L.method, ev[2][0][0] if ev[2] else ''),
                 'starting a %s line search: %s' % (L.method, '; '.join(x[1] for x in ev[2])))
        elif ev[0] == 'iterated':
            if what == 'L01':
                c.ob('iterate', not ev[3], '%s:%s' % (L.method, ev[3][0][0] if ev[3] else ''),
                     'iterating a %s line search: %s' % (L.method, '; '.join(x[1] for x in ev[3])))
                c.rules['iterate:%s:%s' % (ev[1], ev[2])] = c.rules.get('iterate:%s:%s' % (ev[1], ev[2]), 0) + 1
            elif ev[1] == 'search':
                c.ob('certificate', not ev[4], '%s:%s' % (L.method, ev[2]),
                     '%s line search: %s' % (L.method, '; '.join(ev[4])))
                c.rules['certificate:%s:%s' % (L.method, ev[2])] = 1


@check('L01', 'abstract interpretation of the most general client of the line search interface (any number of '
              'searches and iterations, any values), fixpoint over the history')
def l01(c):
    def job(m):
        def f(c):
            L = LS(c, m)
            rets = L.run()
            c.ob('returns', bool(rets), m, 'no history of the %s line search ends' % m)
            flush(c, L, 'L01')
            kinds = {(ev[1], ev[2]) for ev in L.e.log if ev[0] == 'iterated'}
            for k in (('search', 'SEARCH'), ('search', 'CONVERGENCE'), ('search', 'WARNING'), ('changed', 'ERROR'),
                      ('idle', 'ERROR')):
                c.ob('reachable', k in kinds, '%s:%s' % (m, k[1]), '%s line search: outcome %s (%s) is not possible' % (
                    m, k[1], k[0]))
        return f
    parallel(c, [job(m) for m in METHODS])
    c.require('start', 80)
    c.require('iterate', 150)
    c.assume.append('the values passed to the line search are finite; a trial step that overflows to NaN is not '
                    'considered')


# ------------------------------------------------------------------------------------------------ L02
@check('L02', 'abstract interpretation of the most general client of the line search interface; the comparisons known '
              'on each path are matched, as real polynomials, with the Wolfe conditions')
def l02(c):
    def job(m):
        def f(c):
            L = LS(c, m, protocol=False)
            L.run()
            flush(c, L, 'L02')
        return f
    parallel(c, [job('csrch'), job('backtrack'), window(1, 3), window(2, 4), window(3, 5), window(4, 5), job('nonmonotone')])
    c.require('certificate', 100)
    c.require('window', 20)


def window(m, k):
    """nonmonotone line search: the reference is the worst of the last m function values (k searches)"""
    def job(c):
        L = LS(c, 'nonmonotone', m=m)
        P, e, T = L.P, L.e, L.T
        # unroll the loops whose counters are known, keep all paths apart
        e.merge = None
        e.key = lambda st, blk: (tuple(sorted((n, ival(v)) for n, v in st.frames[-1].items() if isconst(v))),
                                 frozenset(st.frames[-1].items()), frozenset(st.ff.items()),
                                 frozenset(st.mem[L.ls.a[0]][0].items()) if L.ls.a[0] in st.mem else None)
        fs = []
        states = [L.st]
        for i in range(k):
            f0, g0, stp, lo, hi = (fsym('%s%d' % (x, i)) for x in ('f0_', 'g0_', 'stp_', 'lo_', 'hi_'))
            fs.append(f0)
            nxt = []
            for st in states:
                for x in (f0, g0, stp, lo, hi):
                    A.set_fr(st, x, RANGE[FIN])
                A.set_fr(st, lo, RANGE[POS])
                A.assume_fcm(st, lo, stp, A.LT)
                A.assume_fcm(st, stp, hi, A.LT)
                A.assume_fcm(st, g0, F(0.), A.LT)
                nxt += [s for s, v in e.run(c.func(P, 'opk_lnsrch_start'), [L.ls, f0, g0, stp, lo, hi], st)]
            states = nxt
            for st in [s.copy() for s in states]:
                r = eng_stack(e, st, stp)
                f, g = fsym('f'), fsym('g')
                A.set_fr(st, f, RANGE[FIN])
                recent = fs[-m:]
                for s, v in e.run(c.func(P, 'opk_lnsrch_iterate'), [L.ls, r, f, g], st):
                    ta = ival(v)
                    good = []
                    for ref in recent:
                        dec, _ = L.conditions(stp, f, g, ref, g0)
                        mk_ = implied(s, dec)
                        worst = all(not (A.fmask(s, ref, o, 3) & ~(A.GT | A.EQ)) for o in recent)
                        if worst:
                            good.append(mk_)
                    if ta == T['CONVERGENCE']:
                        ok = any(not (x & ~LE) for x in good)
                        msg = 'convergence is not judged against the worst of the last %d function values' % m
                    else:
                        ok = any(not (x & LE) for x in good)
                        msg = 'the search goes on although f is below the worst of the last %d values' % m
                    c.ob('window', ok, 'opk_lnsrch_new_nonmonotone', 'm=%d, search %d: %s (task %d) %s' % (m, i + 1, msg, ta, good))
        c.done(e)
    return job


def eng_stack(e, st, v):
    r = ext(st, e, 'step')
    e.write(st, r, v, 8)
    return r


# ------------------------------------------------------------------------------------------------ L03
@check('L03', 'abstract interpretation of the safeguarded step procedure: outcome of every path compared, as real '
              'forms, with the published rule')
def l03(c):
    P = c.lib()
    En = P.enums
    fn = c.func(P, 'opk_cstep')
    names = ('stx', 'fx', 'dx', 'sty', 'fy', 'dy', 'stp')
    BIG = R(-1e300, False, 1e300, False)
    def job(c, brackt, side, sdx, sdp, order):
        # side: stp - stx; sdx, sdp: signs of the slopes; order: fp with respect to fx
        e = c.engine(P)
        e.mutable_globals_initial = True
        e.merge = None
        st = State()
        V = {n: fsym(n) for n in names + ('fp', 'dp', 'lo', 'hi')}
        for v in V.values():
            A.set_fr(st, v, BIG)
        if not (A.assume_fcm(st, V['stp'], V['stx'], side) and A.assume_fcm(st, V['dx'], F(0.), sdx) and
                A.assume_fcm(st, V['dp'], F(0.), sdp) and A.assume_fcm(st, V['fp'], V['fx'], order)):
            return
        A.set_fr(st, fo('fsub', V['stp'], V['stx']), RANGE[POS] if side == A.GT else R(-A.INF, True, 0., True))
        ptr = {n: ext(st, e, '&' + n) for n in names}
        for n in names:
            e.write(st, ptr[n], V[n], 8)
        br = ext(st, e, '&brackt')
        e.write(st, br, I(brackt), 4)
        rets = e.run(fn, [ptr[n] for n in names] + [V['fp'], V['dp'], br, V['lo'], V['hi']], st)
        c.done(e)
        c.ob('returns', bool(rets), 'opk_cstep', 'no path returns')
        for s, rv in rets:
            out = {n: e.read(s, ptr[n], 'f', 8) for n in names}
            b1 = e.read(s, br, 'i', 4)
            step_outcome(c, s, En, V, out, brackt, b1, rv, (side, sdx, sdp, order))
    parallel(c, [lambda c, a=a: job(c, *a) for a in itertools.product(
        (0, 1), (A.LT, A.GT), (A.LT, A.EQ, A.GT), (A.LT, A.EQ, A.GT), (A.LT | A.EQ, A.GT))])
    c.require('reject', 6)
    c.require('interval', 40)
    c.require('step', 40)


def fo(op, *a):
    return mk('fo', op, *a)


def step_outcome(c, st, En, V, out, b0, b1, rv, side):
    stx, fx, dx, sty, fy, dy, stp, fp, dp, lo, hi = (V[n] for n in ('stx', 'fx', 'dx', 'sty', 'fy', 'dy', 'stp', 'fp',
                                                                  'dp', 'lo', 'hi'))
    key = 'opk_cstep'
    m = lambda a, b: A.fmask(st, a, b)
    same_ = all(out[n] is V[n] for n in out) and b1 is I(b0)
    side, sdx, sdp, order = side
    descent = sdx == (A.LT if side == A.GT else A.GT)
    slope = implied(st, rnf(fo('fmul', dx, fo('fsub', stp, stx))))
    if not isconst(rv):
        c.ob('reject', False, key, 'status %s' % show(rv))
        return
    code = ival(rv)
    if code != En['OPK_SUCCESS']:
        ok = same_
        why = 'the arguments are modified although status %d is returned' % code
        if code == En['OPK_STEP_OUTSIDE_BRACKET']:
            # stp is not strictly between the end points
            lt = [not (m(stp, x) & A.GT) for x in (stx, sty)]
            gt = [not (m(stp, x) & A.LT) for x in (stx, sty)]
            if not (b0 and (all(lt) or all(gt) or any(l and g for l, g in zip(lt, gt)))) and \
                    not (b0 and outside_known(st, stp, stx, sty)):
                ok, why = False, 'a step inside the bracket is refused'
        elif code == En['OPK_NOT_A_DESCENT']:
            if descent and slope & A.LT:
                ok, why = False, 'a descent step is refused'
        elif code == En['OPK_STPMIN_GT_STPMAX']:
            if m(lo, hi) != A.GT:
                ok, why = False, 'ordered step bounds are refused'
        else:
            ok, why = False, 'undocumented status %d' % code
        c.ob('reject', ok, '%s:%d' % (key, code), why)
        return
    # accepted: the preconditions hold
    pre = descent and not (m(lo, hi) & A.GT)
    if b0:
        pre = pre and ((m(stp, stx) == A.LT and m(stp, sty) == A.GT) or (m(stp, stx) == A.GT and m(stp, sty) == A.LT))
    c.ob('reject', pre, key + ':pre', 'the step is computed although its conditions are not satisfied')
    if not pre:
        return
    higher = order == A.GT
    opposite = sdp != A.EQ and sdp != sdx
    new = tuple(out[n] for n in ('stx', 'fx', 'dx')), tuple(out[n] for n in ('sty', 'fy', 'dy'))
    X, Y, Pn = (stx, fx, dx), (sty, fy, dy), (stp, fp, dp)
    if higher:
        want, case = (X, Pn), 1
    elif opposite:
        want, case = (Pn, X), 2
    else:
        want, case = (Pn, Y), 3
    c.ob('interval', new == want and b1 is I(1 if case < 3 else b0), '%s:case%d' % (key, case),
         'case %d: the interval becomes %s %s (bracketed: %s)' % (case, [show(x) for x in new[0]],
                                                                [show(x) for x in new[1]], show(b1)))
    # trial step
    if case == 3 and not A.fmask(st, fo('fabs', dp), fo('fabs', dx)) & A.LT:
        case = 4
    elif case == 3 and A.fmask(st, fo('fabs', dp), fo('fabs', dx)) & ~A.LT:
        c.ob('step', False, key + ':case3', 'the magnitudes of the derivatives are not compared')
        return
    ok, why = trial(st, V, out['stp'], case, b0, side)
    c.ob('step', ok, '%s:case%d' % (key, case), 'case %d%s: %s' % (case, ' bracketed' if b0 else '', why))


def outside_known(st, stp, a, b):
    m = lambda x, y: A.fmask(st, x, y)
    if not m(a, b) & ~A.LT:
        return not (m(stp, a) & A.GT) or not (m(stp, b) & A.LT)
    if not m(a, b) & A.LT:
        return not (m(stp, b) & A.GT) or not (m(stp, a) & A.LT)
    return False


def cubic(a, b, fa, fb, da, db, s, back, degenerate=False):
    """minimizer of the cubic interpolating the values and slopes at a and b, as a step from a towards b; back: the
    sign of gamma is reversed"""
    theta = fo('fadd', fo('fadd', fo('fdiv', fo('fmul', F(3.), fo('fsub', fa, fb)), fo('fsub', b, a)), da), db)
    s = fo('fabs', {'theta': theta, 'da': da, 'db': db}[s])
    t = fo('fdiv', theta, s)
    rad = fo('fsub', fo('fmul', t, t), fo('fmul', fo('fdiv', da, s), fo('fdiv', db, s)))
    gamma = fo('fmul', s, fo('sqrt', rad))
    if degenerate:
        gamma = F(0.0)
    if back:
        gamma = fo('fneg', gamma)
    p = fo('fadd', fo('fsub', gamma, da), theta)
    q = fo('fadd', fo('fadd', fo('fsub', gamma, da), gamma), db)
    return fo('fadd', a, fo('fmul', fo('fdiv', p, q), fo('fsub', b, a))), fo('fdiv', p, q), rad, gamma


def trial(st, V, new, case, b0, side):
    stx, fx, dx, sty, fy, dy, stp, fp, dp, lo, hi = (V[n] for n in ('stx', 'fx', 'dx', 'sty', 'fy', 'dy', 'stp', 'fp',
                                                                  'dp', 'lo', 'hi'))
    got = rnf(strip(new))
    right = side == A.GT                    # stp > stx
    is_ = lambda t: rnf(t) == got

    def closer(a, b, ref):
        """known order of |a - ref| and |b - ref|"""
        x = rnf(fo('fabs', fo('fsub', a, ref)))
        y = rnf(fo('fabs', fo('fsub', b, ref)))
        return implied(st, _add(x, y, -1)) if x != y else A.EQ
    if case == 1:
        for s in ('theta', 'da', 'db'):
            sc = cubic(stx, stp, fx, fp, dx, dp, s, not right)[0]
            sq = fo('fadd', stx, fo('fmul', fo('fdiv', fo('fdiv', dx, fo('fadd', fo('fdiv', fo('fsub', fx, fp),
                    fo('fsub', stp, stx)), dx)), F(2.)), fo('fsub', stp, stx)))
            if is_(sc) and not closer(sc, sq, stx) & (A.GT | A.EQ):
                return True, ''
            if is_(fo('fadd', sc, fo('fdiv', fo('fsub', sq, sc), F(2.)))) and not closer(sc, sq, stx) & A.LT:
                return True, ''
        return False, 'the trial step %s is neither the cubic step (when closer) nor the mean of the cubic and ' \
            'quadratic steps' % show(new, 4)
    sec = fo('fadd', stp, fo('fmul', fo('fdiv', dp, fo('fsub', dp, dx)), fo('fsub', stx, stp)))
    if case == 2:
        for s in ('theta', 'da', 'db'):
            sc = cubic(stp, stx, fp, fx, dp, dx, s, right)[0]
            # theta of the reversed interval is the same up to sign conventions of the published formula
            for sc in (sc, cubic2(stx, stp, fx, fp, dx, dp, s, right)[0]):
                if is_(sc) and not closer(sc, sec, stp) & (A.LT | A.EQ):
                    return True, ''
                if is_(sec) and not closer(sc, sec, stp) & A.GT:
                    return True, ''
        return False, 'the trial step %s is neither the cubic nor the secant step, whichever is farther' % show(new, 4)
    if case == 3:
        opts = []
        for s in ('theta', 'da', 'db'):
            for deg in (False, True):
                sc, r, rad, gamma = cubic2(stx, stp, fx, fp, dx, dp, s, right, deg)
                rm = implied(st, rnf(rad))
                if deg and rm & A.GT or not deg and rm != A.GT:
                    continue
                beyond = implied(st, rnf(r))
                if not deg and beyond == A.LT and implied(st, rnf(gamma)) == A.EQ:
                    opts.append(hi if right else lo)
                elif not deg and beyond == A.LT:
                    opts.append(sc)
                elif deg or not (beyond & A.LT):
                    opts.append(hi if right else lo)
                else:
                    opts.append(hi if right else lo)
        for sc in opts:
            cl = closer(sc, sec, stp)
            cand = []
            if b0:
                if not cl & (A.GT | A.EQ):
                    cand.append(sc)
                if not cl & A.LT:
                    cand.append(sec)
                cap = fo('fadd', stp, fo('fmul', F(0.66), fo('fsub', sty, stp)))
                for t in cand:
                    rel = implied(st, diff(rnf(t), rnf(cap)))
                    over = A.GT if right else A.LT
                    if is_(t) and not rel & over or is_(cap) and not rel & ~over:
                        return True, ''
            else:
                if not cl & (A.LT | A.EQ):
                    cand.append(sc)
                if not cl & A.GT:
                    cand.append(sec)
                for t in cand:
                    if is_(t) and not implied(st, diff(rnf(t), rnf(hi))) & A.GT and \
                            not implied(st, diff(rnf(t), rnf(lo))) & A.LT:
                        return True, ''
                    if t in (lo, hi) and is_(t):
                        return True, ''
                    if is_(hi) and implied(st, diff(rnf(t), rnf(hi))) == A.GT:
                        return True, ''
                    if is_(lo) and implied(st, diff(rnf(t), rnf(lo))) == A.LT:
                        return True, ''
        return False, 'the trial step %s is not the safeguarded cubic or secant step' % show(new, 4)
    if not b0:
        ok = is_(hi if right else lo)
        return ok, 'the trial step %s is not the step bound in the direction of search' % show(new, 4)
    fwd = A.fmask(st, stp, sty)
    for s in ('theta', 'da', 'db'):
        sc = cubic4(V, s, fwd == A.GT)
        if is_(sc):
            return True, ''
    return False, 'the trial step %s is not the cubic step' % show(new, 4)


def cubic2(stx, stp, fx, fp, dx, dp, s, right, degenerate=False):
    theta = fo('fadd', fo('fadd', fo('fdiv', fo('fmul', F(3.), fo('fsub', fx, fp)), fo('fsub', stp, stx)), dx), dp)
    s = fo('fabs', {'theta': theta, 'da': dx, 'db': dp}[s])
    t = fo('fdiv', theta, s)
    rad = fo('fsub', fo('fmul', t, t), fo('fmul', fo('fdiv', dx, s), fo('fdiv', dp, s)))
    gamma = F(0.0) if degenerate else fo('fmul', s, fo('sqrt', rad))
    if right:
        gamma = fo('fneg', gamma)
    p = fo('fadd', fo('fsub', gamma, dp), theta)
    q = fo('fadd', fo('fadd', fo('fsub', gamma, dp), gamma), dx)
    return fo('fadd', stp, fo('fmul', fo('fdiv', p, q), fo('fsub', stx, stp))), fo('fdiv', p, q), rad, gamma


def cubic4(V, s, back):
    sty, fy, dy, stp, fp, dp = (V[n] for n in ('sty', 'fy', 'dy', 'stp', 'fp', 'dp'))
    theta = fo('fadd', fo('fadd', fo('fdiv', fo('fmul', F(3.), fo('fsub', fp, fy)), fo('fsub', sty, stp)), dy), dp)
    s = fo('fabs', {'theta': theta, 'da': dy, 'db': dp}[s])
    t = fo('fdiv', theta, s)
    gamma = fo('fmul', s, fo('sqrt', fo('fsub', fo('fmul', t, t), fo('fmul', fo('fdiv', dy, s), fo('fdiv', dp, s)))))
    if back:
        gamma = fo('fneg', gamma)
    p = fo('fadd', fo('fsub', gamma, dp), theta)
    q = fo('fadd', fo('fadd', fo('fsub', gamma, dp), gamma), dy)
    return fo('fadd', stp, fo('fmul', fo('fdiv', p, q), fo('fsub', sty, stp)))
