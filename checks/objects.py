"""O07: box sets; O02: null arguments; O01: reference counts."""
import itertools
import math
from .core import *
from .vectors import Scene

HUGE = 3.4028234e38
INF = float('inf')


def evalt(t, env):
    """value of a real term for given values of its atoms (KeyError when it has others)"""
    v = env.get(t)
    if v is not None:
        return v
    k = t.k
    if k == 'fc':
        return fval(t)
    if k == 'P':
        if t.a[1]:
            raise KeyError(t)
        return float(t.a[0])
    if k == 'fo':
        op = t.a[0]
        a = [evalt(x, env) for x in t.a[1:] if isinstance(x, T)]
        if op == 'fptrunc':
            return a[0] + env.get('trunc', 0)      # single precision: identity on the samples
        if op in ('fpext', 'sitofp'):
            return a[0]
        if op == 'fadd':
            return a[0] + a[1]
        if op == 'fsub':
            return a[0] - a[1]
        if op == 'fmul':
            return a[0] * a[1]
        if op == 'fdiv':
            if a[1] == 0:
                return float('nan') if a[0] == 0 or a[0] != a[0] else math.copysign(INF, a[0]) * math.copysign(1, a[1])
            return a[0] / a[1]
        if op == 'fneg':
            return -a[0]
        if op == 'fabs':
            return abs(a[0])
        if op == 'sqrt':
            return math.sqrt(a[0]) if a[0] >= 0 else float('nan')
        if op in ('fmax', 'max', 'maxnum'):
            return max(a)
        if op in ('fmin', 'min', 'minnum'):
            return min(a)
    raise KeyError(t)


def satisfied(st, env, hard=()):
    """do the values satisfy every fact of the path that involves only them?"""
    for (a, b), m in st.ff.items():
        try:
            x, y = evalt(a, env), evalt(b, env)
        except KeyError:
            continue
        r = A.LT if x < y else A.GT if x > y else A.EQ if x == y else A.UN
        if not r & m:
            return False
    for t, r in st.fr.items():
        if t.k == 'fc' or r.lo is None:
            continue
        try:
            x = evalt(t, env)
        except KeyError:
            continue
        if x != x:
            if not r.nan:
                return False
        elif x < r.lo or x > r.hi or (x == r.lo and r.lo_o) or (x == r.hi and r.hi_o):
            return False
    return True


BOUNDS = ('NONE', 'SCALAR_FLOAT', 'SCALAR_DOUBLE', 'STATIC_FLOAT', 'STATIC_DOUBLE', 'VOLATILE_FLOAT', 'VOLATILE_DOUBLE',
          'VECTOR')


class Box(Scene):
    """a box set of a built-in space, made by opk_new_boxset"""

    def __init__(self, c, P, mod, lower, upper, alias=None):
        super().__init__(c, P, mod)
        self.e.malloc_fails = False
        self.e.split_bool, self.e.merge = True, None
        self.cellname = '%s, lower %s, upper %s' % (mod, lower, upper)
        self.lo = self.hi = None
        self.copies = []
        e = self.e
        e.models['opk_vcreate'] = self.m_vcreate
        e.models['opk_vimport'] = self.m_vimport
        self.imports = {}
        self.vec('x')
        args = []
        self.want = {}
        for which, ty in (('lo', lower), ('hi', upper)):
            if ty == 'NONE':
                args += [ZERO, NULL]
                continue
            if ty == 'VECTOR':
                v = self.vec(which)
                self.ar.add(self.st, which, self.data[which])
                self.want[which] = ('vec', self.data[which].a[0])
            else:
                v = ext(self.st, e, which + '.value')
                flt = ty.endswith('FLOAT')
                if ty.startswith('SCALAR'):
                    t = mk('at', which, 'f')
                    put(e, self.st, v, 0, t, 4 if flt else 8)
                    self.want[which] = ('sca', t)
                else:
                    self.want[which] = ('copy', v, P.enums['OPK_FLOAT' if flt else 'OPK_DOUBLE'])
            args += [I(P.enums['OPK_BOUND_' + ty]), v]
        out = [(s, v) for s, v in self.run('opk_new_boxset', [self.S] + args) if v is not NULL]
        c.ob('bounds', len(out) == 1, 'opk_new_boxset', 'a box set with valid bounds is not created [%s]' % self.cellname)
        if len(out) != 1:
            raise Skip()
        self.st, self.box = out[0]
        for which, w in self.want.items():
            if w[0] == 'copy':
                m = [d for d, a in self.imports.items() if a[0] is w[1] and a[1] is I(w[2]) and a[2] is self.n]
                ok = len(m) == 1
                c.ob('bounds', ok, 'opk_new_boxset:%s' % (lower if which == 'lo' else upper),
                     'the bounds given as an array are not imported [%s]' % self.cellname)
                if not ok:
                    raise Skip()
                self.want[which] = ('vec', m[0])

    def m_vcreate(self, eng, st, a, ins):
        n = 'copy%d' % len(self.copies)
        v = ext(st, eng, n)
        d = ext(st, eng, n + '.data')
        put(eng, st, v, self.P.offset('opk_vector_', 'owner'), a[0])
        put(eng, st, v, self.P.offset('simple_vector', 'data'), d)
        put(eng, st, v, self.P.offset('opk_object_', 'references'), I(1))
        self.copies.append((v, d))
        self.ar.add(st, n, d)
        return [(st, v)]

    def m_vimport(self, eng, st, a, ins):
        for v, d in self.copies:
            if a[0] is v:
                self.imports[d.a[0]] = (a[1], eng.toint(a[2]), eng.toint(a[3]))
        return [(st, I(self.P.enums['OPK_SUCCESS']))]

    def bound(self, which, e):
        w = self.want.get(which)
        if w is None:
            return None
        if w[0] == 'sca':
            return w[1]
        return self.ar.el(w[1], e)


class Skip(Exception):
    pass


X = (0., 1., 2., 3., 4.)
DIRS = (-2., -1., 0., 1., 2.)


def points(s, e, x, d=None, feasible=False):
    """samples of every order type of one element"""
    lo, hi = s.bound('lo', e), s.bound('hi', e)
    for xv in X:
        for lv in (X if lo is not None else (None,)):
            for hv in (X if hi is not None else (None,)):
                if lv is not None and hv is not None and lv > hv:
                    continue
                if feasible and (lv is not None and lv > xv or hv is not None and hv < xv):
                    continue
                for dv in (DIRS if d is not None else (None,)):
                    env = {x: xv, 'trunc': 0.25 if s.mod == 'dblvector' else 0}
                    if lo is not None:
                        env[lo] = lv
                    if hi is not None:
                        env[hi] = hv
                    if d is not None:
                        env[d] = dv
                    yield env, xv, lv, hv, dv


def box_element(c, P, mod, lower, upper, op, orient, alias):
    """projection of the variables / of a direction, free variables: the value set for an element"""
    try:
        s = Box(c, P, mod, lower, upper)
    except Skip:
        return
    st, e, ar = s.st, s.e, s.ar
    s.e.log = []
    xd = s.data['x']
    names = {'x': xd}
    s.st = st
    d = None
    if op != 'opk_project_variables':
        s.vec('d')
        d = s.data['d']
        names['d'] = d
    s.vec('dst')
    dst, src = s.vecs['dst'], s.data['dst']
    if alias:
        dst, src = s.vecs[alias], s.data[alias]
    else:
        names['dst'] = src
    for n, p in names.items():
        ar.add(st, n, p, writable=p is src)
    tag = '%s%s [%s%s]' % (op, '' if orient is None else ' orient %s' % orient, s.cellname,
                           ', in place' if alias else '')
    key = '%s:%s' % (mod, op)

    def want(xv, lv, hv, dv):
        if op == 'opk_project_variables':
            r = xv
            if lv is not None:
                r = max(r, lv)
            if hv is not None:
                r = min(r, hv)
            return (r,)
        up = dv * orient > 0
        dn = dv * orient < 0
        blocked = (dn and lv is not None and xv <= lv) or (up and hv is not None and xv >= hv)
        if op == 'opk_project_direction':
            return (0.,) if blocked else (dv,)
        return (0., 1.) if dv == 0 else ((0.,) if blocked else (1.,))

    def expect(eng, st, name, el, v, ins):
        x = ar.el(xd.a[0], el)
        dd = ar.el(d.a[0], el) if d is not None else None
        n = 0
        for env, xv, lv, hv, dv in points(s, el, x, dd, feasible=op != 'opk_project_variables'):
            if not satisfied(st, env):
                continue
            n += 1
            try:
                got = evalt(v, env)
            except KeyError:
                return 'stores %s' % show(v)
            if got not in want(xv, lv, hv, dv):
                return 'x=%s%s%s%s gives %s instead of %s' % (
                    xv, '' if lv is None else ' lower=%s' % lv, '' if hv is None else ' upper=%s' % hv,
                    '' if dv is None else ' d=%s' % dv, got, want(xv, lv, hv, dv)[0])
        return None
    ar.expect = expect
    args = [dst, s.vecs['x'], s.box]
    if d is not None:
        args += [s.vecs['d'], I(orient)]
    rets = s.run(op, args)
    c.ob('returns', bool(rets), key, '%s: no path returns' % tag)
    for ev in s.e.log:
        if ev[0] == 'bad':
            c.ob('access', False, key, '%s: %s' % (tag, ev[2]), ev[3])
        elif ev[0] == 'elem':
            c.ob('element', ev[2], key, '%s: %s' % (tag, ev[3]), ev[4])
    for st, rv in rets:
        c.ob('status', rv is I(P.enums['OPK_SUCCESS']), key, '%s: returns status %s' % (tag, show(rv)))
        full = ar.complete(st, src.a[0])
        if not full and alias and st.gh[('u', src.a[0])] is ZERO and st.gh[('v', src.a[0])] is s.n and \
                lower == upper == 'NONE' and op != 'opk_get_free_variables':
            full = True
        c.ob('complete', full, key, '%s: not every element is set' % tag)


def limits(s, els, orient):
    """expected step limits for the given elements [(x, lo, hi, d)] -> (smin1, smin2, smax)"""
    steps = []
    mx = 0.
    for xv, lv, hv, dv in els:
        if lv is None and hv is None:
            mx = INF
            continue
        p = dv * orient
        b = hv if p > 0 else lv if p < 0 else None
        if p == 0:
            continue
        if b is None:
            mx = INF
            continue
        steps.append((b - xv) / p)
    s1 = min(steps + [INF])
    s2 = min([x for x in steps if x > 0] + [INF])
    return s1, s2, max(steps + [mx])


def huge(x):
    return INF if x >= HUGE else x


def box_steps(c, P, mod, lower, upper, orient):
    try:
        s = Box(c, P, mod, lower, upper)
    except Skip:
        return
    st, e, ar = s.st, s.e, s.ar
    s.e.log = []
    s.vec('d')
    for n in ('x', 'd'):
        ar.add(st, n, s.data[n])
    xr, dr = s.data['x'].a[0], s.data['d'].a[0]
    op = 'opk_get_step_limits'
    tag = '%s orient %s [%s]' % (op, orient, s.cellname)
    key = '%s:%s' % (mod, op)
    free = lower == upper == 'NONE'
    inv = []           # (atom, kind 0..2, ru, rv)
    KINDS = ((0., 1., 2., INF), (1., 2., INF), (0., 1., 2., INF))

    def counts(st):
        ru, rv = st.gh[('ru', dr)], st.gh[('rv', dr)]
        return ru, rv

    def holds(st, v, kind):
        """v is the limit over the elements visited in st"""
        ru, rv = counts(st)
        for base in [None] + [i for i in inv if i[1] == kind]:
            bu, bv = (ZERO, s.n) if base is None else base[2:4]
            du, dv = sub(ru, bu), sub(bv, rv)
            if not isconst(du) or not isconst(dv):
                continue
            a, b = ival(du), ival(dv)
            if a < 0 or b < 0 or a + b > 1:
                continue
            els = [add(bu, I(i)) for i in range(a)] + [sub(bv, I(1 + i)) for i in range(b)]
            pts = [None]
            if els:
                pts = points(s, els[0], ar.el(xr, els[0]), ar.el(dr, els[0]), feasible=True)
            ok = n = 0
            for pt in pts:
                env0, el = ({}, []) if pt is None else (pt[0], [pt[1:]])
                for bvv in (KINDS[kind] if base is not None else (None,)):
                    env = dict(env0)
                    if base is not None:
                        env[base[0]] = bvv
                    w = limits(s, el, orient)[kind] if el else (INF, INF, INF if free else 0.)[kind]
                    if base is not None:
                        w = max(w, bvv) if kind == 2 else min(w, bvv)
                    if not satisfied(st, env):
                        continue
                    try:
                        got = evalt(v, env)
                    except KeyError:
                        return False
                    n += 1
                    if huge(got) != w:
                        return False
            return True
        return False

    def on_loop(eng, fn, hb, groups, subst, mark, entry):
        for k, (h, bind) in groups.items():
            for nm, v in list(h.frames[-1].items()):
                if not (isinstance(v, T) and v.k == 'at' and v.a[1] == 'f' and v in bind):
                    continue
                for kind in range(3):
                    cand = (v, kind) + counts(h)
                    ok = all(holds(x, x.frames[-1].get(nm) or F(float('nan')), kind) for x in entry)
                    if not ok:
                        continue
                    inv.append(cand)
                    if not all(holds(x, x.frames[-1].get(nm) or F(float('nan')), kind) for x, sg in subst):
                        inv.pop()
    e.on_loop.append(on_loop)
    outs = [ext(st, e, 'smin1'), ext(st, e, 'smin2'), ext(st, e, 'smax')]
    rets = s.run(op, outs + [s.vecs['x'], s.box, s.vecs['d'], I(orient)])
    c.ob('returns', bool(rets), key, '%s: no path returns' % tag)
    for ev in s.e.log:
        if ev[0] == 'bad':
            c.ob('access', False, key, '%s: %s' % (tag, ev[2]), ev[3])
    for st, rv in rets:
        c.ob('status', rv is I(P.enums['OPK_SUCCESS']), key, '%s: returns status %s' % (tag, show(rv)))
        if not free:
            c.ob('complete', ar.readall(st, dr), key, '%s: not every element is visited once' % tag)
        for kind, name in enumerate(('smin1', 'smin2', 'smax')):
            v = get(e, st, outs[kind], 0, 'f')
            if free:
                ok = v.k == 'fc' and huge(fval(v)) == INF
            else:
                ok = holds(st, v, kind)
            c.ob('limits', ok, '%s:%s' % (key, name), '%s: %s = %s is not the documented limit over all elements'
                 % (tag, name, show(v)))
    # absent outputs
    if lower == 'SCALAR_DOUBLE' and upper == 'VECTOR':
        for k in range(3):
            s2 = Box(c, P, mod, lower, upper)
            s2.vec('d')
            outs = [ext(s2.st, s2.e, n) for n in ('smin1', 'smin2', 'smax')]
            outs[k] = NULL
            s2.ar.bad = lambda *a: None
            rets = s2.run(op, outs + [s2.vecs['x'], s2.box, s2.vecs['d'], I(orient)])
            ok = rets and all(rv is I(P.enums['OPK_SUCCESS']) for _, rv in rets)
            c.ob('status', bool(ok), key, '%s fails when an output is not wanted' % tag)


@check('O07', 'abstract interpretation of the box-set operations for every kind of bounds; stored elements and '
              'loop-carried limits decided over all order types of (x, lower, upper, d)')
def o07(c):
    P = c.lib()
    jobs = []
    for mod in ('dblvector', 'fltvector'):
        for lo, hi in itertools.product(BOUNDS, BOUNDS):
            some = c.thorough or (lo in ('NONE', 'SCALAR_DOUBLE', 'VECTOR') and hi in ('NONE', 'SCALAR_DOUBLE', 'VECTOR'))
            if some or 'NONE' in (lo, hi):
                for al in (None, 'x'):
                    jobs.append(lambda c, a=(P, mod, lo, hi, 'opk_project_variables', None, al): box_element(c, *a))
            if some:
                for orient in (1, -1):
                    for op in ('opk_project_direction', 'opk_get_free_variables'):
                        for al in (None, 'd'):
                            jobs.append(lambda c, a=(P, mod, lo, hi, op, orient, al): box_element(c, *a))
                    jobs.append(lambda c, a=(P, mod, lo, hi, orient): box_steps(c, *a))
    parallel(c, jobs)
    c.require('element', 200)
    c.require('limits', 100)
    c.require('complete', 200)


# ------------------------------------------------------------------------------------------------ O01
VECOPS = ('opk_vdot', 'opk_vdot3', 'opk_vnorm1', 'opk_vnorm2', 'opk_vnorminf', 'opk_vcopy', 'opk_vaxpby', 'opk_vaxpbypcz',
          'opk_vscale', 'opk_vproduct', 'opk_vzero', 'opk_vfill', 'opk_vswap', 'opk_vimport', 'opk_vexport')


class Life:
    """histories of object creations, holds and drops; every heap block and callback is tracked"""

    def __init__(self, c, P, tag):
        self.c, self.P, self.tag = c, P, tag
        self.e = e = c.engine(P)
        e.mutable_globals_initial = True
        e.unroll = 12
        e.merge = None
        for n in VECOPS:
            e.models[n] = self.m_vec
        def limits(eng, st, a, ins):
            for p in a[:3]:
                if p.k == 'ptr':
                    eng.write(st, p, A.fresh('limit', 'f'), 8)
            return [(st, I(P.enums['OPK_SUCCESS']))]
        e.models['opk_get_step_limits'] = limits
        for n in ('opk_project_variables', 'opk_project_direction', 'opk_get_free_variables'):
            e.models[n] = lambda eng, st, a, ins: [(st, I(P.enums['OPK_SUCCESS']))]
        e.models['*'] = self.m_ptr
        e.on_alloc.append(self.alloc)
        e.on_free.append(self.free)
        e.on_deref.append(self.deref)
        self.roff = P.offset('opk_object_', 'references')
        self.paths = [(State(), {}, {})]      # state, objects by name, references owned by the script
        self.refs = P.offset('opk_object_', 'references')

    def m_vec(self, eng, st, a, ins):
        return [(st, A.fresh('v', 'f') if ins.ty == ('f', 64) or A.tyclass(ins.ty) == 'f' else None)]

    def m_ptr(self, eng, st, a, ins):
        f = a[0]
        nm = f.a[0].a[0] if f.k == 'ptr' and f.a[0].k == 'reg' else None
        if nm is None or not str(nm).startswith('cb'):
            self.flag(st, 'calls an unknown function pointer %s' % show(f), ins)
            return [(st, A.fresh('r', A.tyclass(ins.ty)))]
        k = ('cb', nm, a[1].a[0].a[0] if len(a) > 1 and a[1].k == 'ptr' and a[1].a[0].k == 'reg' else
             show(a[1]) if len(a) > 1 else '')
        st.gh[k] = add(st.gh.get(k, ZERO), ONE)
        return [(st, None)]

    def flag(self, st, msg, ins):
        st.gh.setdefault('flag', mk('msg', msg, ins.loc()))

    def alloc(self, eng, st, r, size, ins):
        st.gh[('live', r)] = mk('msg', ins.loc(), self.now)

    def free(self, eng, st, p, ins):
        if p is NULL:
            return
        if p.k != 'ptr' or ('live', p.a[0]) not in st.gh or p.a[1] is not ZERO:
            self.flag(st, '%s is freed' % ('a block already freed' if p.k == 'ptr' and ('freed', p.a[0]) in st.gh
                                           else 'something else than a live block'), ins)
            return
        del st.gh[('live', p.a[0])]

    def deref(self, eng, st, p, nn, ins):
        if nn is False:
            self.flag(st, 'a NULL pointer is followed', ins)
        elif p.k == 'ptr' and ('freed', p.a[0]) in st.gh:
            self.flag(st, 'a released block is used', ins)

    # ------------------------------------------------------------------ script
    def ob(self, rule, ok, msg):
        self.c.ob(rule, ok, self.tag.split(' ')[0], '%s: %s' % (self.tag, msg))

    def run(self, fname, args, st):
        self.now = fname
        out = []
        for s, v in self.e.run(self.c.func(self.P, fname), args, st):
            if 'flag' in s.gh:
                m = s.gh['flag']
                self.ob('memory', False, 'in %s %s [at %s]%s' % (fname, m.a[0], m.a[1], self.trace(s)))
                continue
            out.append((s, v))
        return out

    def trace(self, s):
        t, out = s.tr, []
        while t:
            if isinstance(t, tuple) and len(t) == 2:
                if isinstance(t[1], str) and 'fails' in t[1]:
                    out.append(t[1])
                t = t[0]
            else:
                break
        return ' after: ' + ', '.join(out) if out else ''

    def arg(self, env, a):
        return env[a] if isinstance(a, str) else a

    def new(self, name, fname, *args):
        """create an object; the paths on which it fails are finished"""
        nxt = []
        for st, env, own in self.paths:
            for s, v in self.run(fname, [self.arg(env, a) for a in args], st.copy()):
                if v is NULL:
                    self.finish(s, env, own, '%s fails%s' % (fname, self.trace(s)))
                elif v is None or v.k != 'ptr':
                    self.ob('memory', False, '%s returns %s' % (fname, show(v)))
                else:
                    e2, o2 = dict(env), dict(own)
                    e2[name] = v
                    o2[name] = 1
                    nxt.append((s, e2, o2))
        self.ob('created', bool(nxt), '%s never succeeds' % fname)
        self.paths = nxt

    def call(self, fname, *args, want=None, may_fail=False):
        nxt = []
        for st, env, own in self.paths:
            for s, v in self.run(fname, [self.arg(env, a) for a in args], st.copy()):
                if want is not None:
                    self.ob('value', v is self.arg(env, want), '%s returns %s' % (fname, show(v)))
                nxt.append((s, dict(env), dict(own)))
        self.paths = nxt

    def hold(self, name):
        self.call('opk_hold_object', name, want=name)
        for st, env, own in self.paths:
            own[name] += 1

    def drop(self, name, fn='opk_drop_object'):
        self.call(fn, name)
        for st, env, own in self.paths:
            own[name] -= 1

    def alive(self, *names):
        for st, env, own in self.paths:
            for n in names:
                self.ob('lifetime', ('live', env[n].a[0]) in st.gh, 'the %s is destroyed while it is still referenced' % n)

    def gone(self, *names):
        for st, env, own in self.paths:
            for n in names:
                self.ob('lifetime', ('live', env[n].a[0]) not in st.gh,
                        'the %s is not destroyed when its last reference is dropped' % n)

    def refcount(self, name, n):
        for st, env, own in self.paths:
            for s, v in self.run('opk_get_object_references', [env[name]], st.copy()):
                self.ob('count', v is I(n), '%s references to the %s instead of %d' % (show(v), name, n))

    def called(self, cb, data, n):
        for st, env, own in self.paths:
            if data is None:
                got = ZERO
                for k, v in st.gh.items():
                    if isinstance(k, tuple) and k[:2] == ('cb', cb):
                        got = add(got, v)
            else:
                got = st.gh.get(('cb', cb, data), ZERO)
            self.ob('release', got is I(n), 'the release function of the data is called %s times instead of %d'
                    % (show(got), n))

    def finish(self, st, env, own, why):
        """drop what the script still owns and look for what is left"""
        states = [st]
        for n, k in own.items():
            for _ in range(k):
                states = [s for s0 in states for s, v in self.run('opk_drop_object', [env[n]], s0)]
        for s in states:
            left = ['%s (allocated by %s at %s)' % (k[1].a[0], s.gh[k].a[1], s.gh[k].a[0]) for k in s.gh
                    if isinstance(k, tuple) and k[0] == 'live']
            self.ob('leak', not left, 'when %s, never released: %s' % (why, ', '.join(left)))

    def end(self):
        for st, env, own in self.paths:
            self.finish(st, env, own, 'everything is dropped')
        self.c.done(self.e)

    def sub(self, name, size=None):
        """an external object in every path"""
        for st, env, own in self.paths:
            env[name] = ext(st, self.e, name, size)


def options_vmlmb(L, blmvm=0, save=0, mem=2):
    from .options import offs
    P = L.P
    for st, env, own in L.paths:
        p = env['opts'] = ext(st, L.e, 'opts')
        o = lambda f: offs(P, 'opk_vmlmb_options', f)
        for f, v in dict(delta=1e-3, epsilon=0., grtol=1e-4, gatol=0., stpmin=1e-20, stpmax=1e20).items():
            put(L.e, st, p, o(f), F(v))
        put(L.e, st, p, o('mem'), I(mem))
        put(L.e, st, p, o('blmvm'), I(blmvm), 4)
        put(L.e, st, p, o('save_memory'), I(save), 4)


def space(L, mod, n=3, name='space'):
    L.new(name, 'opk_new_simple_%s_vector_space' % mod, I(n))


def life_scripts(c, P):
    """[(tag, function)]"""
    out = []

    def script(tag):
        def deco(f):
            def run(c):
                L = Life(c, P, tag)
                f(L)
                L.end()
            out.append(run)
            return f
        return deco
    for mod in ('float', 'double'):
        @script('space %s' % mod)
        def _(L, mod=mod):
            space(L, mod)
            L.refcount('space', 1)
            L.hold('space')
            L.refcount('space', 2)
            L.drop('space')
            L.alive('space')
            L.refcount('space', 1)
            L.drop('space')
            L.gone('space')

        @script('vector %s' % mod)
        def _(L, mod=mod):
            space(L, mod)
            L.new('vector', 'opk_vcreate', 'space')
            L.refcount('space', 2)
            L.refcount('vector', 1)
            L.drop('space')
            L.alive('space', 'vector')
            L.new('second', 'opk_vcreate', 'space')
            L.hold('vector')
            L.drop('vector')
            L.alive('space', 'vector')
            L.drop('vector')
            L.gone('vector')
            L.alive('space')
            L.drop('second')
            L.gone('second', 'space')
        for cb in (False, True):
            @script('wrapped %s%s' % (mod, ' with release function' if cb else ''))
            def _(L, mod=mod, cb=cb):
                space(L, mod)
                for n in ('array', 'cbA', 'data'):
                    L.sub(n)
                L.new('vector', 'opk_wrap_simple_%s_vector' % mod, 'space', 'array', 'cbA' if cb else NULL, 'data')
                L.drop('space')
                L.alive('space', 'vector')
                L.hold('vector')
                L.drop('vector')
                L.called('cbA', 'data', 0)
                L.drop('vector')
                L.called('cbA', 'data', int(cb))
                L.gone('vector', 'space')
        for f0, f1, same in itertools.product(('cbA', None), ('cbA', 'cbB', None), (True, False)):
            @script('rewrap %s from %s to %s with %s data' % (mod, f0, f1, 'the same' if same else 'other'))
            def _(L, mod=mod, f0=f0, f1=f1, same=same):
                space(L, mod)
                for n in ('array', 'array2', 'cbA', 'cbB', 'data', 'data2'):
                    L.sub(n)
                d1 = 'data' if same else 'data2'
                L.new('vector', 'opk_wrap_simple_%s_vector' % mod, 'space', 'array', f0 or NULL, 'data')
                L.call('opk_rewrap_simple_%s_vector' % mod, 'vector', 'array2', f1 or NULL, d1,
                       want=I(L.P.enums['OPK_SUCCESS']))
                rel = f0 is not None and (f0 != f1 or not same)
                if f0:
                    L.called(f0, 'data', int(rel))
                L.call('opk_get_simple_%s_vector_data' % mod, 'vector', want='array2')
                L.call('opk_get_simple_%s_vector_client_data' % mod, 'vector', want=d1)
                L.call('opk_get_simple_%s_vector_free_client_data' % mod, 'vector', want=f1 or NULL)
                L.drop('space')
                L.drop('vector')
                L.gone('vector', 'space')
                if f1:
                    L.called(f1, d1, 1 + int(rel and f1 == f0 and d1 == 'data'))
        for kinds in itertools.product(('NONE', 'SCALAR_DOUBLE', 'VOLATILE_FLOAT', 'VECTOR'), repeat=2):
            @script('boxset %s lower %s upper %s' % ((mod,) + kinds))
            def _(L, mod=mod, kinds=kinds):
                space(L, mod)
                args = []
                for nm, k in zip(('lower', 'upper'), kinds):
                    if k == 'VECTOR':
                        L.new(nm, 'opk_vcreate', 'space')
                        args += [I(L.P.enums['OPK_BOUND_' + k]), nm]
                    elif k == 'NONE':
                        args += [ZERO, NULL]
                    else:
                        L.sub(nm)
                        args += [I(L.P.enums['OPK_BOUND_' + k]), nm]
                L.new('box', 'opk_new_boxset', 'space', *args)
                L.drop('space')
                vs = [n for n, k in zip(('lower', 'upper'), kinds) if k == 'VECTOR']
                for n in vs:
                    L.drop(n)
                L.alive('space', 'box', *vs)
                L.drop('box')
                L.gone('box', 'space', *vs)

        @script('boxset %s with a bound of another space' % mod)
        def _(L, mod=mod):
            space(L, mod)
            space(L, mod, name='other')
            L.new('lower', 'opk_vcreate', 'space')
            L.new('upper', 'opk_vcreate', 'other')
            V = I(L.P.enums['OPK_BOUND_VECTOR'])
            L.call('opk_new_boxset', 'space', V, 'lower', V, 'upper', want=NULL)
    for fn, args in (('csrch', [F(1e-3), F(.9), F(.1)]), ('backtrack', [F(1e-3), F(.1)]),
                     ('nonmonotone', [I(4), F(1e-3), F(.1), F(.9)])):
        @script('linesearch %s' % fn)
        def _(L, fn=fn, args=args):
            L.new('linesearch', 'opk_lnsrch_new_' + fn, *args)
            L.hold('linesearch')
            L.drop('linesearch')
            L.alive('linesearch')
            L.drop('linesearch')
            L.gone('linesearch')

    def table(L, struct, **fns):
        """a table of operations; the ones which are not given are NULL"""
        L.sub('table')
        for n in set(fns.values()):
            if n:
                L.sub(n)
        for st, env, own in L.paths:
            for f in L.P.members(struct):
                v = fns.get(f)
                put(L.e, st, env['table'], L.P.offset(struct, f), env[v] if v else NULL)

    for fin in (None, 'cbF'):
        with_fin = ' with a finalizer' if fin else ''

        @script('operator%s' % with_fin)
        def _(L, fin=fin):
            space(L, 'double')
            space(L, 'float', name='other')
            table(L, 'opk_operator_operations_', finalize=fin)
            L.new('operator', 'opk_allocate_operator', 'table', 'space', 'other', ZERO)
            L.drop('space')
            L.drop('other')
            L.alive('operator', 'space', 'other')
            L.hold('operator')
            L.drop('operator')
            L.called('cbF', None, 0)
            L.alive('operator', 'space', 'other')
            L.drop('operator')
            L.called('cbF', None, int(bool(fin)))
            L.gone('operator', 'space', 'other')

        @script('operator of one space%s' % with_fin)
        def _(L, fin=fin):
            space(L, 'double')
            table(L, 'opk_operator_operations_', finalize=fin)
            L.new('operator', 'opk_allocate_operator', 'table', 'space', 'space', I(200))
            L.refcount('space', 3)
            L.drop('space')
            L.alive('operator', 'space')
            L.drop('operator')
            L.gone('operator', 'space')

        @script('convexset%s' % with_fin)
        def _(L, fin=fin):
            space(L, 'double')
            if fin:
                L.sub(fin)
            L.new('set', 'opk_allocate_convexset', 'space', fin or NULL, NULL, NULL, NULL, NULL, ZERO)
            L.drop('space')
            L.alive('set', 'space')
            L.hold('set')
            L.drop('set')
            L.called('cbF', None, 0)
            L.drop('set')
            L.called('cbF', None, int(bool(fin)))
            L.gone('set', 'space')

        @script('linesearch of the user%s' % with_fin)
        def _(L, fin=fin):
            table(L, 'opk_lnsrch_operations_', finalize=fin, start='cbS', iterate='cbI')
            L.new('linesearch', 'opk_allocate_line_search', 'table', ZERO)
            L.hold('linesearch')
            L.drop('linesearch')
            L.called('cbF', None, 0)
            L.drop('linesearch')
            L.called('cbF', None, int(bool(fin)))
            L.gone('linesearch')

        @script('space of the user%s' % with_fin)
        def _(L, fin=fin):
            table(L, 'opk_vspace_operations_', finalize_space=fin, finalize_vector='cbV')
            L.new('space', 'opk_allocate_vector_space', 'table', I(5), ZERO)
            L.new('vector', 'opk_allocate_vector', 'space', ZERO)
            L.new('second', 'opk_allocate_vector', 'space', I(100))
            L.drop('space')
            L.drop('second')
            L.called('cbV', None, 1)
            L.called('cbF', None, 0)
            L.alive('vector', 'space')
            L.drop('vector')
            L.called('cbV', None, 2)
            L.called('cbF', None, int(bool(fin)))
            L.gone('vector', 'second', 'space')

    def use(L, kind):
        """a few steps, the work vectors allocated on the way included"""
        L.call('opk_start_' + kind, 'optimizer', 'x')
        for k in range(3):
            L.call('opk_iterate_' + kind, 'optimizer', 'x', fsym('f'), 'g')
            # one path of each kind is enough
            seen = {}
            for st, env, own in L.paths:
                key = (tuple(sorted(str(k[1].a[0]) for k in st.gh if isinstance(k, tuple) and k[0] == 'live')),
                       show(L.run('opk_get_%s_task' % kind, [env['optimizer']], st.copy())[0][1]))
                seen.setdefault(key, (st, env, own))
            L.paths = list(seen.values())[:6]
    for flags in (0, 1, 2):
        for ls in (False, True):
            @script('nlcg flags %d%s' % (flags, ' with a line search' if ls else ''))
            def _(L, flags=flags, ls=ls):
                from .options import offs
                space(L, 'double')
                if ls:
                    L.new('linesearch', 'opk_lnsrch_new_csrch', F(1e-3), F(.9), F(.1))
                for st, env, own in L.paths:
                    p = env['opts'] = ext(st, L.e, 'opts')
                    o = lambda f: offs(L.P, 'opk_nlcg_options', f)
                    for f, v in dict(delta=1e-3, epsilon=0., grtol=1e-4, gatol=0., stpmin=1e-20, stpmax=1e20,
                                     fmin=0.).items():
                        put(L.e, st, p, o(f), F(v))
                    put(L.e, st, p, o('flags'), I(flags), 4)
                    put(L.e, st, p, o('fmin_given'), ZERO, 4)
                L.new('optimizer', 'opk_new_nlcg_optimizer', 'opts', 'space', 'linesearch' if ls else NULL)
                L.e.malloc_fails = False
                L.new('x', 'opk_vcreate', 'space')
                L.new('g', 'opk_vcreate', 'space')
                L.drop('space')
                if ls:
                    L.drop('linesearch')
                    L.alive('linesearch')
                L.alive('space', 'optimizer')
                use(L, 'nlcg')
                L.drop('optimizer')
                L.gone('optimizer', *(['linesearch'] if ls else []))
                L.drop('x')
                L.drop('g')
                L.gone('space')
    for blmvm, box, save, ls in itertools.product((0, 1), (False, True), (0, 1), (False, True)):
        if blmvm and not box:
            continue

        @script('vmlmb %s%s%s' % ('blmvm' if blmvm else 'bounded' if box else 'lbfgs', ' saving memory' if save else '',
                                  ' with a line search' if ls else ''))
        def _(L, blmvm=blmvm, box=box, save=save, ls=ls):
            space(L, 'double')
            held = ['space']
            if ls:
                L.new('linesearch', 'opk_lnsrch_new_backtrack', F(1e-3), F(.1))
                held.append('linesearch')
            if box:
                L.sub('lower')
                L.new('box', 'opk_new_boxset', 'space', I(L.P.enums['OPK_BOUND_SCALAR_DOUBLE']), 'lower', ZERO, NULL)
                held.append('box')
            options_vmlmb(L, blmvm, save)
            L.new('optimizer', 'opk_new_vmlmb_optimizer', 'opts', 'space', 'linesearch' if ls else NULL,
                  'box' if box else NULL)
            for n in held:
                L.drop(n)
            L.alive('optimizer', *held)
            L.e.malloc_fails = False
            L.new('x', 'opk_vcreate', 'space')
            L.new('g', 'opk_vcreate', 'space')
            use(L, 'vmlmb')
            L.drop('optimizer')
            L.gone('optimizer', *[n for n in held if n != 'space'])
            L.drop('x')
            L.drop('g')
            L.gone('space')
    for mod in ('FLOAT', 'DOUBLE'):
        for alg, lo, hi in [('NLCG', 'NONE', 'NONE'), ('VMLMB', 'NONE', 'NONE')] + \
                [('VMLMB',) + k for k in itertools.product(('NONE', 'SCALAR_DOUBLE', 'STATIC_FLOAT', 'STATIC_DOUBLE',
                                                            'VOLATILE_DOUBLE'), repeat=2) if k != ('NONE', 'NONE')]:
            for ls in (False, True):
                if ls and lo != hi:
                    continue

                @script('driver %s %s lower %s upper %s%s' % (alg, mod, lo, hi, ' with a line search' if ls else ''))
                def _(L, alg=alg, mod=mod, lo=lo, hi=hi, ls=ls):
                    E = L.P.enums
                    if ls:
                        L.new('linesearch', 'opk_lnsrch_new_csrch', F(1e-3), F(.9), F(.1))
                    args = []
                    for nm, k in (('lower', lo), ('upper', hi)):
                        if k == 'NONE':
                            args += [ZERO, NULL]
                        else:
                            L.sub(nm)
                            args += [I(E['OPK_BOUND_' + k]), nm]
                    opts = NULL
                    if alg == 'VMLMB':
                        options_vmlmb(L, mem=1)
                        opts = 'opts'
                    L.new('optimizer', 'opk_new_optimizer', I(E['OPK_ALGORITHM_' + alg]), opts, I(E['OPK_' + mod]), I(3),
                          *(args + ['linesearch' if ls else NULL]))
                    if ls:
                        L.drop('linesearch')
                        L.alive('linesearch')
                    L.drop('optimizer', 'opk_destroy_optimizer')
                    L.gone('optimizer', *(['linesearch'] if ls else []))
    return out


@check('O01', 'abstract interpretation of object histories (create, hold, drop in every order, every allocation failing '
              'once) with a typestate per heap block')
def o01(c):
    P = c.lib()
    parallel(c, life_scripts(c, P))
    c.require('leak', 300)
    c.require('lifetime', 300)
    c.require('release', 20)
    c.require('count', 8)
