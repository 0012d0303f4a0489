"""Q01: one call of the linear conjugate gradient routines, in any stage, performs the documented step."""
from decimal import Decimal, getcontext
import random
from engine import absint as A
from engine.terms import *
from .core import *
from .realform import rnf, _add, _mul
from .dense import Mem, Look, el, simp, vclass, inverse, report, null

MOD = 'lcg'
PREC = 60
EPS = Decimal(10) ** -25


class Undef(Exception):
    pass


def num(t, env):
    """the value of a term at a point (real arithmetic)"""
    k = t.k
    if k == 'fc':
        v = fval(t)
        if v != v or v in (float('inf'), float('-inf')):
            raise Undef
        return Decimal(v)
    if k == 'at':
        if t not in env:
            raise Undef
        return env[t]
    if k == 'P':
        if t.a[1]:
            raise Undef
        return Decimal(t.a[0])
    if k != 'fo':
        raise Undef
    if t in env:
        return env[t]
    op = t.a[0]
    v = [num(x, env) for x in t.a[1:] if isinstance(x, T)]
    if op in ('fpext', 'fptrunc', 'sitofp'):
        r = v[0]
    elif op == 'fneg':
        r = -v[0]
    elif op == 'fabs':
        r = abs(v[0])
    elif op == 'sqrt':
        if v[0] < 0:
            raise Undef
        r = v[0].sqrt()
    elif op == 'fadd':
        r = v[0] + v[1]
    elif op == 'fsub':
        r = v[0] - v[1]
    elif op == 'fmul':
        r = v[0] * v[1]
    elif op == 'fdiv':
        if v[1] == 0:
            raise Undef
        r = v[0] / v[1]
    elif op == 'hypot':
        r = (v[0] * v[0] + v[1] * v[1]).sqrt()
    elif op == 'pow' and v[1] == int(v[1]) and abs(v[1]) < 9 and (v[0] or v[1] >= 0):
        r = v[0] ** int(v[1])
    elif op == 'pow' and v[1] == Decimal('.5') and v[0] >= 0:
        r = v[0].sqrt()
    else:
        raise Undef
    env[t] = r
    return r


def near(a, b):
    return abs(a - b) <= EPS * (1 + abs(a) + abs(b))


def below(st, t):
    """sign known of a value of the path: '<', '<=', '=', '>=', '>', '' """
    r = A.frange(st, t)
    if r.lo is None:
        return ''
    if r.lo == r.hi == 0:
        return '='
    if r.hi < 0 or r.hi == 0 and r.hi_o:
        return '<'
    if r.lo > 0 or r.lo == 0 and r.lo_o:
        return '>'
    if r.hi == 0:
        return '<='
    if r.lo == 0:
        return '>='
    return ''


def rel_(st, a, b):
    return A.fmask(st, a, b) & ~A.UN


def sign_of(st, L, form):
    """what the path knows of the sign of a form, through any term which has it (or its opposite)"""
    s = []
    opp = {m: -k for m, k in form.items()}
    for t in list(st.fr) + [q for f in st.ff if isinstance(f, tuple) for q in f if isinstance(q, T)]:
        if not vclass(t):
            continue
        b = below(st, t)
        if not b:
            continue
        f = simp(rnf(t))
        if f == form:
            s.append(b)
        elif f == opp:
            s.append({'<': '>', '<=': '>=', '=': '=', '>=': '<=', '>': '<'}[b])
    for b in ('=', '<', '>', '<=', '>='):
        if b in s:
            return b
    return ''


class Call:
    def __init__(self, c, P, single, name, n, zmode, state, delta=None):
        self.c = c
        self.fn = 'opk_%s%s' % ('ds'[single], name)
        self.name, self.n = name, n
        m = self.m = Mem(c, P, single, self.fn)
        m.mod = MOD
        m.e.split_bool = True
        S = P.enums
        self.S = {k[7:]: v for k, v in S.items() if k.startswith('OPK_CG_')}
        if not {'START', 'RESTART', 'NEWX', 'AP', 'FINISH'} <= set(self.S):
            raise Broken('the stages of the conjugate gradients are not found')
        self.zmode = zmode
        al = range(n)
        self.nrho = 5 if name == 'trcg' else 4
        self.p = m.new('p', n, al, al)
        self.q = m.new('q', n, al, ())
        self.r = m.new('r', n, al, al)
        self.x = m.new('x', n, al, al)
        self.z = m.new('z', n, al, ()) if zmode == 'own' else self.q if zmode == 'q' else NULL
        self.rho = m.new('rho', self.nrho, range(self.nrho), range(self.nrho))
        self.sp = ext(m.st, m.e, 'state', I(4))
        if state == '?':
            s = isym('state')
            for v in self.S.values():
                A.assume_ic(m.st, sub(s, I(v)), 5)
        else:
            s = I(self.S[state])
        self.s0 = s
        put(m.e, m.st, self.sp, 0, s, 4)
        self.delta = fsym('delta')
        A.set_fr(m.st, self.delta, A.NUM)
        if delta == 'bad':
            A.assume_fcm(m.st, self.delta, F(0.0), A.LT | A.EQ)
        elif name == 'trcg':
            A.assume_fcm(m.st, self.delta, F(0.0), A.GT)
        args = [I(n), self.p, self.q, self.r, self.x]
        if name != 'lcg':
            args.append(self.z)
        if name == 'trcg':
            args.append(self.delta)
        args += [self.rho, self.sp]
        self.tag = '%s(n=%d,z=%s,state=%s)' % (self.fn, n, zmode, state)
        self.rets = m.run(args)
        report(c, m, self.tag, self.rets)

    def state(self, st):
        v = get(self.m.e, st, self.sp, 0, 'i', 4)
        for k, w in self.S.items():
            if isconst(v) and ival(v) == w:
                return k
        return show(v)

    def vals(self, st, p, k=None):
        return [self.m.value(st, p, i) for i in range(self.n if k is None else k)]

    def kept(self, st, names, rho=()):
        """arrays and members of rho which must be as they were"""
        for nm in names:
            p = getattr(self, nm)
            bad = [i for i in range(self.n) if not self.m.same(st, p, i)]
            self.c.ob('kept', not bad, '%s:%s' % (self.fn, nm), '%s changes %s' % (self.tag, nm))
        for k in rho:
            self.c.ob('kept', self.m.same(st, self.rho, k), '%s:rho%d' % (self.fn, k), '%s changes rho[%d]' % (self.tag, k))

    def eq(self, st, L, v, form, what):
        ok = vclass(v) and L(v) == simp(form)
        self.c.ob('step', ok, '%s:%s' % (self.fn, what.split('[')[0]), '%s leaves %s = %s' % (self.tag, what, show(v)))
        return ok

    def stage(self, st, want):
        s = self.state(st)
        want = want if isinstance(want, tuple) else (want,)
        self.c.ob('stage', s in want, self.fn, '%s ends in stage %s instead of %s' % (self.tag, s, '/'.join(want)))
        return s in want

    def form(self, L, a, b):
        s = {}
        for i in range(self.n):
            s = _add(s, _mul(L(el(a, i)), L(el(b, i))))
        return simp(s)

    # ------------------------------------------------------------------------------------------------ points
    def points(self, st, k=6, xnull=False):
        """points at which the facts of the path on single values hold, |x| = rho[4] < delta"""
        rnd = random.Random(20261119)
        out = []
        for _ in range(k):
            env = {}
            for nm in 'pqrxz':
                for i in range(self.n):
                    env[el(nm, i)] = Decimal(rnd.randint(-10 ** 9, 10 ** 9)) / 10 ** 8
            for i in range(self.nrho):
                env[el('rho', i)] = Decimal(rnd.randint(1, 10 ** 9)) / 10 ** 8
            for t in list(env):
                r = A.frange(st, t)
                if r.lo is not None and r.lo == r.hi:
                    env[t] = Decimal(r.lo)
            if xnull:
                for i in range(self.n):
                    env[el('x', i)] = Decimal(0)
            xx = sum(env[el('x', i)] ** 2 for i in range(self.n)).sqrt()
            if self.nrho == 5:
                env[el('rho', 4)] = xx
            env[self.delta] = xx + Decimal(rnd.randint(1, 10 ** 9)) / 10 ** 8
            out.append(env)
        return out

    def holds(self, st, env, without=None):
        """do all the facts of the path hold at the point?"""
        for t, r in st.fr.items():
            if not isinstance(t, T) or r.lo is None or without is not None and occurs(t, without):
                continue
            try:
                v = num(t, env)
            except Undef:
                return False
            if r.lo != float('-inf') and (v < Decimal(r.lo) or r.lo_o and v == Decimal(r.lo)):
                return False
            if r.hi != float('inf') and (v > Decimal(r.hi) or r.hi_o and v == Decimal(r.hi)):
                return False
        for f, k in st.ff.items():
            if without is not None and (occurs(f[0], without) or occurs(f[1], without)):
                continue
            try:
                a, b = num(f[0], env), num(f[1], env)
            except Undef:
                return False
            if not k & (A.LT if a < b else A.GT if a > b else A.EQ):
                return False
        return True


def occurs(t, x, seen=None):
    seen = set() if seen is None else seen
    if t is x:
        return True
    if not isinstance(t, T) or t in seen or t.k != 'fo':
        return False
    seen.add(t)
    return any(occurs(y, x, seen) for y in t.a[1:])


def norm2(env, vs):
    return sum(num(v, env) ** 2 for v in vs)


def one_call(c, P, single, name, n, zmode, state, delta=None):
    K = Call(c, P, single, name, n, zmode, state, delta)
    m, tr = K.m, name == 'trcg'
    allrho = range(K.nrho)
    vec = ['p', 'q', 'r', 'x'] + (['z'] if zmode == 'own' else [])
    zn = {'none': 'r', 'own': 'z', 'q': 'q'}[zmode]
    done = {'FINISH', 'NON_CONVEX'} | ({'TRUNCATED'} if tr else set())
    R = lambda k: el('rho', k)
    for st, _ in K.rets:
        L = Look(st)
        if delta == 'bad' or state in ('?', 'ERROR') or state == 'TRUNCATED' and not tr:
            K.stage(st, 'ERROR')
            K.kept(st, vec, allrho)
        elif state in done:
            K.stage(st, state)
            K.kept(st, vec, allrho)
        elif state == 'START':
            K.stage(st, 'NEWX')
            K.kept(st, [v for v in vec if v not in 'px'])
            for i in range(n):
                K.eq(st, L, m.value(st, K.x, i), {}, 'x[%d]' % i)
            for k in allrho:
                K.eq(st, L, m.value(st, K.rho, k), {}, 'rho[%d]' % k)
        elif state == 'RESTART':
            for k in range(4):
                K.eq(st, L, m.value(st, K.rho, k), {}, 'rho[%d]' % k)
            K.kept(st, [v for v in vec if v not in 'px'])
            if tr:
                restart(c, K, st, L)
            else:
                K.stage(st, 'AP')
                K.kept(st, 'x')
            if K.state(st) == 'AP':
                for i in range(n):
                    K.eq(st, L, m.value(st, K.p, i), L(el('x', i)), 'p[%d]' % i)
        elif state == 'NEWX' and zmode != 'none':
            K.stage(st, 'PRECOND')
            K.kept(st, vec, allrho)
        elif state in ('NEWX', 'PRECOND'):
            K.kept(st, [v for v in vec if v != 'p'], [k for k in allrho if k not in (1, 3)])
            v = m.value(st, K.rho, 1)
            raw = {}
            for i in range(n):
                raw = _add(raw, _mul(rnf(el('r', i)), rnf(el(zn, i))))
            if not (vclass(v) and simp(rnf(v)) == simp(raw)):
                K.eq(st, L, v, K.form(L, 'r', zn), 'rho[1]')
            sg = sign_of(st, L, simp(raw))
            if not K.stage(st, {'<': 'NON_CONVEX', '=': 'FINISH', '>': 'AP'}.get(sg, 'a stage which follows from the sign '
                                                                                'of rho[1]')):
                continue
            if sg != '>':
                K.kept(st, 'p', [3])
                continue
            s0 = below(st, R(0))
            ok = s0 in ('>', '<', '<=', '=')
            c.ob('step', ok, K.fn + ':beta', '%s: the former direction is used or not whatever rho[0]' % K.tag)
            beta = _mul(K.form(L, 'r', zn), inverse(L(R(0)))) if s0 == '>' else {}
            K.eq(st, L, m.value(st, K.rho, 3), beta, 'rho[3]')
            for i in range(n):
                K.eq(st, L, m.value(st, K.p, i), _add(L(el(zn, i)), _mul(beta, L(el('p', i)))), 'p[%d]' % i)
        elif state == 'AP':
            K.kept(st, [v for v in vec if v in 'pqz'], [1])
            if below(st, R(1)) == '>':
                advance(c, K, st, L)
            else:
                c.ob('step', below(st, R(1)) in ('<', '<=', '='), K.fn + ':ap', '%s does not tell an iteration from a start'
                     % K.tag)
                K.stage(st, 'NEWX')
                K.kept(st, 'x', [0])
                for k in (2, 3):
                    v = m.value(st, K.rho, k)
                    c.ob('step', m.same(st, K.rho, k) or L(v) == {}, '%s:rho' % K.fn, '%s leaves rho[%d] = %s' %
                         (K.tag, k, show(v)))
                if tr:
                    K.kept(st, '', [4])
                for i in range(n):
                    K.eq(st, L, m.value(st, K.r, i), _add(L(el('r', i)), L(el('q', i)), -1), 'r[%d]' % i)
        else:
            raise Broken('stage ' + state)


def restart(c, K, st, L):
    """trust region: the given variables are brought back to the boundary when they are out of it"""
    m, n = K.m, K.n
    s = K.state(st)
    if not K.stage(st, ('AP', 'TRUNCATED')):
        return
    xs = K.vals(st, K.x)
    r4 = m.value(st, K.rho, 4)
    old = [el('x', i) for i in range(n)]
    nul = null(st, old)
    pts = []
    for env in K.points(st, 300, xnull=nul):
        if s == 'TRUNCATED':
            env[K.delta] = norm2(env, old).sqrt() * Decimal(len(pts) + 3) / 10
        if K.holds(st, dict(env)):
            pts.append(env)
    if s == 'TRUNCATED' and not pts:
        # when its norm is already delta
        pts = [e for e in K.points(st, 300) if K.holds(st, dict(e), K.delta)]
        for env in pts[:1]:
            eq = any(rel_(st, a, b) == A.EQ for f in st.ff for a, b in ((f[0], f[1]), (f[1], f[0]))
                     if b is K.delta and eqnum(a, env, norm2(env, old).sqrt()))
            c.ob('radius', not eq or all(m.same(st, K.x, i) for i in range(n)), K.fn,
                 '%s changes variables which are at distance delta' % K.tag)
        return
    for env in pts[:4]:
        xn = norm2(env, old).sqrt()
        d = env[K.delta]
        try:
            new = norm2(env, xs).sqrt()
            v = num(r4, env)
        except Undef:
            c.ob('radius', False, K.fn, '%s: no value for %s' % (K.tag, show(r4)))
            return
        same = all(m.same(st, K.x, i) for i in range(n))
        if s == 'AP':
            c.ob('radius', same and near(v, xn), K.fn, '%s goes on with |x| = %s' % (K.tag, show(r4)))
            rel = [rel_(st, a, b) for f in [list(f) for f in st.ff] for a, b in ((f[0], f[1]), (f[1], f[0]))
                   if a is not b and b is K.delta and eqnum(a, env, xn)]
            rel += [rel_(st, r4, K.delta)]
            c.ob('radius', A.LT in rel, K.fn, '%s goes on with |x| which may not be less than delta' % K.tag)
        else:
            # on the boundary: as it was when its norm was already delta
            c.ob('radius', r4 is K.delta or rel_(st, r4, K.delta) == A.EQ, K.fn, '%s leaves rho[4] = %s' %
                 (K.tag, show(r4)))
            rel = 0
            for f in st.ff:
                for a, b in ((f[0], f[1]), (f[1], f[0])):
                    if b is K.delta and eqnum(a, env, xn):
                        rel = rel_(st, a, b)
            c.ob('radius', rel in (A.EQ, A.GT), K.fn, '%s truncates the given variables when |x| may be less than delta'
                 % K.tag)
            if rel == A.EQ and same:
                continue
            c.ob('radius', near(new, d) and all(near(num(v, env) * xn, num(o, env) * d) for v, o in zip(xs, old)), K.fn,
                 '%s: the truncated variables are not at distance delta in the same direction' % K.tag)


def eqnum(t, env, v):
    try:
        return near(num(t, env), v)
    except Undef:
        return False


def advance(c, K, st, L):
    """a step along the direction p after the computation of q = A.p"""
    m, n = K.m, K.n
    s = K.state(st)
    tr = K.name == 'trcg'
    R = lambda k: el('rho', k)
    pq = {}
    for i in range(n):
        pq = _add(pq, _mul(rnf(el('p', i)), rnf(el('q', i))))
    spq = sign_of(st, L, simp(pq))
    alpha = m.value(st, K.rho, 2)
    xs, rs = K.vals(st, K.x), K.vals(st, K.r)
    if s == 'NON_CONVEX' and not tr:
        c.ob('step', spq in ('<', '<=', '='), K.fn + ':convex', "%s: NON_CONVEX whereas p'.A.p may be positive" % K.tag)
        K.kept(st, 'xr', range(K.nrho))
        return
    pts = K.points(st)
    if s == 'ERROR' and tr or s == 'FINISH':
        # never for consistent arguments, in exact arithmetic
        K.kept(st, 'xr', [0, 3] + ([4] if tr else []))
        for env in pts:
            env[R(4)] = env.get(R(4), Decimal(0))
            if not tr:
                env[R(1)] = abs(env[R(1)])
            c.ob('step', not K.holds(st, env), K.fn + ':stop', '%s stops in stage %s in an ordinary case' % (K.tag, s))
        return
    if not K.stage(st, ('NEWX', 'TRUNCATED') if tr else 'NEWX'):
        return
    full = False
    if spq == '>':
        # the optimal step, with dot(p,q) in any order
        full = True
        for env in pts:
            d = sum(env[el('p', i)] * env[el('q', i)] for i in range(n))
            if d == 0 or not eqnum(alpha, env, env[R(1)] / d):
                full = False
    fixed = L.const(alpha) if vclass(alpha) else None
    if fixed is not None and fixed > 0:
        # the special case of this length of the step
        pts = [length(K, env, Decimal(fixed), full) for env in pts]
    if s == 'NEWX' or not tr:
        c.ob('step', full, K.fn + ':alpha', "%s: a step %s whereas the optimal one is rho[1]/p'.q (p'.q > 0)" %
             (K.tag, show(alpha)))
        if not full:
            return
    K.eq(st, L, m.value(st, K.rho, 0), L(R(1)), 'rho[0]')
    K.kept(st, '', [3])
    ok = True
    va = below(st, alpha)
    for env in pts:
        try:
            a = num(alpha, env)
            e = [near(num(v, env), env[el('x', i)] + a * env[el('p', i)]) for i, v in enumerate(xs)] + \
                [near(num(v, env), env[el('r', i)] - a * env[el('q', i)]) for i, v in enumerate(rs)]
        except Undef:
            ok = False
            break
        ok &= all(e)
    if va in ('<', '<=', '=') and not full:
        # a truncated step is positive whatever the values: such a path does not exist
        for env in pts:
            c.ob('step', not eqpos(alpha, env) or True, K.fn)
        return
    c.ob('step', ok, K.fn + ':x', '%s: x and r do not change by rho[2]*p and -rho[2]*q' % K.tag)
    if not tr or not ok:
        return
    r4 = m.value(st, K.rho, 4)
    if full:
        good = all(eqnum(r4, env, norm2(env, xs).sqrt()) for env in pts)
        rel = rel_(st, r4, K.delta)
        if r4 is K.delta:
            good = rel = None
            for f in st.ff:
                for a, b in ((f[0], f[1]), (f[1], f[0])):
                    if b is K.delta and all(eqnum(a, env, norm2(env, xs).sqrt()) for env in pts):
                        good, rel = True, rel_(st, a, b)
        c.ob('radius', good, K.fn, '%s leaves rho[4] = %s which is not |x|' % (K.tag, show(r4)))
        c.ob('radius', rel == (A.LT if s == 'NEWX' else A.EQ), K.fn, '%s ends in stage %s whereas |x| may not be %s delta' %
             (K.tag, s, 'less than' if s == 'NEWX' else 'equal to'))
        return
    # truncated: on the boundary, forwards, because the step would leave the region or p'.q <= 0
    c.ob('radius', r4 is K.delta or rel_(st, r4, K.delta) == A.EQ, K.fn, '%s leaves rho[4] = %s' % (K.tag, show(r4)))
    for env in pts:
        try:
            c.ob('radius', near(norm2(env, xs), env[K.delta] ** 2) and num(alpha, env) > 0, K.fn,
                 '%s: the truncated step %s does not lead to the boundary, forwards' % (K.tag, show(alpha)))
        except Undef:
            c.ob('radius', False, K.fn, '%s: the truncated step %s has no value' % (K.tag, show(alpha)))
    why = spq in ('<', '<=', '=')
    for f in st.ff:
        for a, b in ((f[0], f[1]), (f[1], f[0])):
            if b is K.delta and rel_(st, a, b) == A.GT:
                why = why or all(fullnorm(a, env, K, n) for env in pts)
    c.ob('step', why, K.fn + ':truncated', '%s truncates a step which may stay in the region' % K.tag)


def length(K, env, a, full):
    n = K.n
    env = {t: v for t, v in env.items() if t.k == 'at'}
    X, Q, Pp = ([el(v, i) for i in range(n)] for v in 'xqp')
    if sum(env[x] * env[p] for x, p in zip(X, Pp)) < 0:
        for p in Pp:
            env[p] = -env[p]
    d = sum(env[q] * env[p] for q, p in zip(Q, Pp))
    new = sum((env[x] + a * env[p]) ** 2 for x, p in zip(X, Pp)).sqrt()
    if full:
        if d < 0:
            for q in Q:
                env[q] = -env[q]
            d = -d
        env[el('rho', 1)] = a * d
        env[K.delta] = new + 1
    else:
        env[K.delta] = new
    return env


def eqpos(t, env):
    try:
        return num(t, env) > 0
    except Undef:
        return False


def fullnorm(t, env, K, n):
    d = sum(env[el('p', i)] * env[el('q', i)] for i in range(n))
    if d == 0:
        return False
    a = env[el('rho', 1)] / d
    return eqnum(t, env, sum((env[el('x', i)] + a * env[el('p', i)]) ** 2 for i in range(n)).sqrt())


@check('Q01', 'abstract interpretation of one call in each stage for any contents (real arithmetic; identities of rational '
       'functions, random interpretation where square roots occur); no solver')
def q01(c):
    getcontext().prec = PREC
    P = c.lib()
    jobs = []
    for s in (False, True):
        for name in ('plcg', 'lcg', 'trcg'):
            for n in (1, 2, 3) if not c.thorough else (1, 2, 3, 4, 5):
                if name == 'trcg' and n > 3:
                    continue
                for z in ('none', 'own', 'q') if name == 'plcg' else ('none',) if name == 'lcg' else ('none', 'own'):
                    for state in ('START', 'RESTART', 'NEWX', 'PRECOND', 'AP', 'FINISH', 'NON_CONVEX', 'TRUNCATED', 'ERROR',
                                  '?'):
                        if state == 'PRECOND' and z == 'none':
                            continue
                        jobs.append((one_call, P, s, name, n, z, state))
                        if name == 'trcg' and state != 'ERROR':
                            jobs.append((one_call, P, s, name, n, z, state, 'bad'))
    from .dense import split
    split(c, jobs)
    c.require('step', 200)
    c.require('radius', 20)
    c.assume.append('real arithmetic; no NaN')
