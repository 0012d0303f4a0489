"""Vector algebra: dispatch guards (O03, O04, O08), bounds (O05), element semantics (O06)."""
import itertools
from .core import *
from .arrays import Arrays
from .realform import rnf, same, atom, _add, _scale, _mul
from fractions import Fraction

OTHER = 15 & ~2


def strip(t):
    while t.k == 'fo' and t.a[0] in ('fpext', 'fptrunc'):
        t = t.a[1]
    return t


# ------------------------------------------------------------------------------------------------ scenes
class Scene:
    """a vector space with its vectors, either abstract (unknown operations) or one of the built-in ones"""

    def __init__(self, c, P, mod=None):
        self.c, self.P, self.mod = c, P, mod
        self.e = c.engine(P)
        self.e.mutable_globals_initial = True
        self.st = State()
        self.off = {m: P.offset('opk_vspace_operations_', m) for m in P.members('opk_vspace_operations_')}
        self.byoff = {o: m for m, o in self.off.items()}
        self.n = isym('n')
        A.assume_ic(self.st, self.n, 4)
        self.spaces = {}
        self.S = self.space('S')
        self.vecs = {}
        self.data = {}
        e = self.e
        e.models['opk_error'] = self.m_error
        if mod is None:
            e.models['*'] = self.m_op
            e.on_store.append(self.m_store)
            self.st.gh['ev'] = A.INIT
        else:
            self.esz = 4 if mod == 'fltvector' else 8
            self.ar = Arrays(e, self.n, self.esz)

    def m_error(self, eng, st, args, ins):
        if self.mod is None:
            st.gh['ev'] = mk('ev', st.gh['ev'], 'opk_error')
        else:
            eng.log.append(('error', ins.loc()))
        return [(st, None)]

    def space(self, name):
        P = self.P
        if self.mod is None:
            s = ext(self.st, self.e, name)
            ops = ext(self.st, self.e, name + '.ops')
            n = isym('n' if name == 'S' else 'n_' + name)
        else:
            s = ext(self.st, self.e, name)
            m = P.module(self.mod)
            ops = self.optable(m)
            n = self.n
        put(self.e, self.st, s, P.offset('opk_vspace_', 'ops'), ops)
        put(self.e, self.st, s, P.offset('opk_vspace_', 'size'), n)
        A.assume_ic(self.st, n, 4)
        self.spaces[name] = s
        return s

    def optable(self, m):
        """the table of operations the constructor of the module installs"""
        k = ('optable', m.name)
        t = _tables.get(k)
        if t is None:
            kind = 'float' if m.name == 'fltvector' else 'double'
            fn = self.c.func(self.P, 'opk_new_simple_%s_vector_space' % kind)
            e = Engine(self.P)
            e.malloc_fails = False
            seen = set()
            st = State()
            n = isym('n')
            A.assume_ic(st, n, 4)
            for s, v in e.run(fn, [n], st):
                if v is not None and v.k == 'ptr':
                    seen.add(get(e, s, v, self.P.offset('opk_vspace_', 'ops'), 'p'))
            if len(seen) != 1 or next(iter(seen)).k != 'ptr':
                raise Broken('the operations of the %s space were not identified' % kind)
            t = _tables[k] = next(iter(seen))
            name = t.a[0].a[0]
        self.e.gaddr(m, t.a[0].a[0])
        return t

    def vec(self, name, space=None, data=None):
        v = ext(self.st, self.e, name)
        put(self.e, self.st, v, self.P.offset('opk_vector_', 'owner'), space or self.S)
        if self.mod is not None:
            if data is None:
                data = ext(self.st, self.e, name + '.data')
            put(self.e, self.st, v, self.P.offset('simple_vector', 'data'), data)
            self.data[name] = data
        self.vecs[name] = v
        return v

    # -- abstract space: each operation updates ghost contents
    def content(self, st, p):
        return st.gh.get(('c', p.a[0])) or as_poly(mk('at', 'content_' + p.a[0].a[0], 'i'))

    def coef(self, t):
        if t.k == 'fc':
            v = fval(t)
            if v == int(v):
                return I(int(v))
        return as_poly(mk('iop', 'coef', t))

    def m_store(self, eng, st, p, v, size, ins):
        if p.k != 'ptr' or p.a[0].k != 'reg' or p.a[0].a[2] in ('ext', 'glob'):
            st.gh['ev'] = mk('ev', st.gh['ev'], 'store', p, v if v is not None else A.INIT)

    def m_op(self, eng, st, args, ins):
        f = args[0]
        args = args[1:]
        name = None
        if f.k == 'ptr' and f.a[0].k == 'ld':
            r, _, off = f.a[0].a[:3]
            if r.a[0] == 'S.ops' and isconst(off):
                name = self.byoff.get(ival(off))
            elif r.k == 'reg':
                name = '%s+%s' % (r.a[0], show(off))
        if name is None:
            name = 'unknown:' + show(f)
        st.gh['ev'] = mk('ev', st.gh['ev'], name, *args)
        ret = None
        C = lambda p: self.content(st, p)
        try:
            if name == 'fill':
                st.gh[('c', args[1].a[0])] = mul(self.coef(args[2]), as_poly(mk('at', 'ONE', 'i')))
            elif name == 'copy':
                st.gh[('c', args[1].a[0])] = C(args[2])
            elif name == 'swap':
                x, y = C(args[1]), C(args[2])
                st.gh[('c', args[1].a[0])], st.gh[('c', args[2].a[0])] = y, x
            elif name == 'scale':
                st.gh[('c', args[1].a[0])] = mul(self.coef(args[2]), C(args[3]))
            elif name == 'product':
                a, b = sorted((C(args[2]), C(args[3])), key=lambda t: t.n)
                st.gh[('c', args[1].a[0])] = iop('prod', a, b)
            elif name == 'axpby':
                st.gh[('c', args[1].a[0])] = add(mul(self.coef(args[2]), C(args[3])),
                                                 mul(self.coef(args[4]), C(args[5])))
            elif name == 'axpbypcz':
                st.gh[('c', args[1].a[0])] = add(add(mul(self.coef(args[2]), C(args[3])),
                                                     mul(self.coef(args[4]), C(args[5]))),
                                                 mul(self.coef(args[6]), C(args[7])))
            elif name in ('dot', 'dot3'):
                ret = mk('fo', name, *sorted((C(a) for a in args[1:]), key=lambda t: t.n))
            elif name in ('norm1', 'norm2', 'norminf'):
                ret = mk('fo', name, C(args[1]))
            elif name == 'peek':
                ret = mk('fo', 'peek', C(args[1]), args[2])
            elif name in ('import', 'export', 'poke', 'finalize_vector', 'finalize_space'):
                pass
            elif name == 'create':
                ret = mk('ptr', mk('at', 'created', 'p'), ZERO)
            else:
                ret = A.fresh('ret_' + name, A.tyclass(ins.ty))
        except (AttributeError, IndexError):
            st.gh['ev'] = mk('ev', st.gh['ev'], 'badcall:' + name)
        return [(st, ret)]

    def run(self, fname, args):
        r = self.e.run(self.c.func(self.P, fname), args, self.st)
        self.c.done(self.e)
        return r


_tables = {}


def events(st):
    out = []
    t = st.gh['ev']
    while t is not A.INIT:
        out.append(t.a[1:])
        t = t.a[0]
    out.reverse()
    return out


# ------------------------------------------------------------------------------------------------ coefficient cells
def coef_cells(names):
    vals = [('0', F(0.0)), ('1', F(1.0)), ('-1', F(-1.0)), ('*', None)]
    for combo in itertools.product(vals, repeat=len(names)):
        yield {n: (lab, v) for n, (lab, v) in zip(names, combo)}


def coef_value(st, name, v):
    if v is not None:
        return v
    t = fsym(name)
    for k in (0.0, 1.0, -1.0):
        A.assume_fcm(st, t, F(k), OTHER & ~8 if k == 0.0 else OTHER)
    return t


# (function, coefficients+vectors in argument order, expected linear combination)
LINEAR = {
    'opk_vzero': (['dst'], []),
    'opk_vfill': (['dst', '$alpha'], [('alpha', 'ONE')]),
    'opk_vcopy': (['dst', 'x'], [(None, 'x')]),
    'opk_vscale': (['dst', '$alpha', 'x'], [('alpha', 'x')]),
    'opk_vaxpby': (['dst', '$alpha', 'x', '$beta', 'y'], [('alpha', 'x'), ('beta', 'y')]),
    'opk_vaxpbypcz': (['dst', '$alpha', 'x', '$beta', 'y', '$gamma', 'z'],
                      [('alpha', 'x'), ('beta', 'y'), ('gamma', 'z')]),
}
REDUCE = {'opk_vdot': (['x', 'y'], 'dot'), 'opk_vdot3': (['w', 'x', 'y'], 'dot3'), 'opk_vnorm1': (['x'], 'norm1'),
          'opk_vnorm2': (['x'], 'norm2'), 'opk_vnorminf': (['x'], 'norminf')}


def partitions(names):
    """set partitions as maps name -> representative (first name of its block)"""
    if not names:
        yield {}
        return
    first, rest = names[0], names[1:]

    def rec(i, m):
        if i == len(names):
            yield dict(m)
            return
        n = names[i]
        for rep in sorted(set(m.values()), key=names.index):
            m[n] = rep
            yield from rec(i + 1, m)
        m[n] = n
        yield from rec(i + 1, m)
        del m[n]
    yield from rec(0, {})


def all_functions():
    for f, (args, terms) in LINEAR.items():
        yield f, args
    yield 'opk_vswap', ['x', 'y']
    yield 'opk_vproduct', ['dst', 'x', 'y']
    for f, (args, _) in REDUCE.items():
        yield f, args


# ------------------------------------------------------------------------------------------------ O08
@check('O08', 'abstract interpretation of the dispatch layer over an unknown vector space, contents as linear '
              'polynomials, exhaustive coefficient and aliasing cells')
def o08(c):
    P = c.lib()
    for fname, argl in all_functions():
        vn = [a for a in argl if a[0] != '$']
        cn = [a[1:] for a in argl if a[0] == '$']
        for part in partitions(vn):
            for cell in coef_cells(cn):
                s = Scene(c, P)
                for n in vn:
                    if part[n] == n:
                        s.vec(n)
                V = {n: s.vecs[part[n]] for n in vn}
                cv = {n: coef_value(s.st, n, v) for n, (lab, v) in cell.items()}
                args = [cv[a[1:]] if a[0] == '$' else V[a] for a in argl]
                base = {n: s.content(s.st, V[n]) for n in vn}
                tag = '%s(%s%s)' % (fname, ','.join('%s=%s' % (n, l[0]) for n, l in cell.items()),
                                    ''.join(',%s==%s' % (n, part[n]) for n in vn if part[n] != n))
                rets = s.run(fname, args)
                c.ob('returns', len(rets) > 0, tag, 'no path of %s returns' % tag)
                for st, rv in rets:
                    ev = events(st)
                    final = {n: s.content(st, V[n]) for n in vn}
                    exp = dict(base)
                    if fname in LINEAR:
                        p = ZERO
                        for k, v in LINEAR[fname][1]:
                            p = add(p, mul(s.coef(cv[k]) if k else ONE,
                                           as_poly(mk('at', 'ONE', 'i')) if v == 'ONE' else base[v]))
                        for n in vn:
                            if part[n] == part['dst']:
                                exp[n] = p
                    elif fname == 'opk_vswap':
                        exp = {'x': base['y'], 'y': base['x']}
                    elif fname == 'opk_vproduct':
                        a, b = sorted((base['x'], base['y']), key=lambda t: t.n)
                        for n in vn:
                            if part[n] == part['dst']:
                                exp[n] = iop('prod', a, b)
                    for n in vn:
                        c.ob('content', final[n] is exp[n], '%s:%s' % (fname, n),
                             '%s leaves %s = %s, expected %s; calls %s' % (tag, n, show(final[n]), show(exp[n]),
                                                                          evs(ev)))
                    if fname in REDUCE:
                        argn, op = REDUCE[fname]
                        want = mk('fo', op, *(sorted((base[n] for n in argn), key=lambda t: t.n)
                                              if op.startswith('dot') else [base[argn[0]]]))
                        c.ob('value', rv is want, fname, '%s returns %s, expected %s' % (tag, rv, show(want)))
                    contract(c, s, fname, tag, ev)
    # index- and type-checked element access
    c.require('content', 500)
    c.require('contract', 300)


def evs(ev):
    return ' '.join('%s(%s)' % (e[0], ','.join(show(x, 3) for x in e[1:])) for e in ev) or 'none'


def contract(c, s, fname, tag, ev):
    """what the table of operations is promised by its callers"""
    Z = lambda t: t.k == 'fc' and fval(t) == 0
    for e in ev:
        n, a = e[0], e[1:]
        bad = None
        if n in ('store', 'opk_error') or n.startswith(('unknown', 'badcall', 'S.ops')):
            bad = 'unexpected effect'
        else:
            if a[0] is not s.S:
                bad = 'called with another space'
            if n in ('copy', 'swap') and a[1] is a[2]:
                bad = 'destination and source are the same vector'
            if n == 'scale' and a[2].k == 'fc' and fval(a[2]) in (0.0, 1.0):
                bad = 'scale factor is %g' % fval(a[2])
            if n == 'axpby' and (Z(a[2]) or Z(a[4])):
                bad = 'a coefficient is zero'
            if n == 'axpbypcz' and (Z(a[2]) or Z(a[4]) or Z(a[6])):
                bad = 'a coefficient is zero'
        c.ob('contract', bad is None, '%s:%s' % (fname, n), '%s calls %s: %s' % (tag, evs([e]), bad))


# ------------------------------------------------------------------------------------------------ O03
VOIDGUARD = dict(all_functions())
STATUSGUARD = {
    # function: (vector arguments with the space they must belong to, other arguments)
    'opk_project_variables': ['dst', 'x', '#set'],
    'opk_project_direction': ['dst', 'x', '#set', 'd', '%orient'],
    'opk_get_free_variables': ['dst', 'x', '#set', 'd', '%orient'],
    'opk_get_step_limits': ['&smin1', '&smin2', '&smax', 'x', '#set', 'd', '%orient'],
    'opk_apply_direct': ['^op', 'dst:out', 'x:in'],
    'opk_apply_adjoint': ['^op', 'dst:in', 'x:out'],
    'opk_apply_inverse': ['^op', 'dst:in', 'x:out'],
}
SLOT = {'opk_project_variables': 'projvar', 'opk_project_direction': 'projdir',
        'opk_get_free_variables': 'freevar', 'opk_get_step_limits': 'steplim',
        'opk_apply_direct': 'apply_direct', 'opk_apply_adjoint': 'apply_adjoint',
        'opk_apply_inverse': 'apply_inverse'}


def status_call(c, P, fname, wrong=(), null=(), missing=False):
    """run a status-returning guard function; wrong: vectors of a foreign space, null: NULL arguments"""
    s = Scene(c, P)
    T2 = s.space('T')          # a foreign space (same size, same kind)
    S_in, S_out = s.S, s.space('Sout')
    e, st = s.e, s.st
    args = []
    for a in STATUSGUARD[fname]:
        nm = a.lstrip('#^&%').split(':')[0]
        if nm in null:
            args.append(NULL)
            continue
        if a[0] == '#':
            p = ext(st, e, 'set')
            put(e, st, p, P.offset('opk_convexset_', 'space'), s.S)
            o = P.offset('opk_convexset_', SLOT[fname])
            put(e, st, p, o, NULL if missing else mk('ptr', mk('at', 'METHOD', 'p'), ZERO))
            args.append(p)
        elif a[0] == '^':
            p = ext(st, e, 'op')
            ops = ext(st, e, 'op.ops')
            put(e, st, p, P.offset('opk_operator_', 'ops'), ops)
            put(e, st, p, P.offset('opk_operator_', 'inpspace'), S_in)
            put(e, st, p, P.offset('opk_operator_', 'outspace'), S_out)
            o = P.offset('opk_operator_operations_', SLOT[fname])
            put(e, st, ops, o, NULL if missing else mk('ptr', mk('at', 'METHOD', 'p'), ZERO))
            args.append(p)
        elif a[0] == '&':
            args.append(ext(st, e, nm))
        elif a[0] == '%':
            args.append(isym(nm))
        else:
            w = a.split(':')[1] if ':' in a else 'in'
            sp = T2 if nm in wrong else S_in if w == 'in' else S_out
            args.append(s.vec(nm, sp))
    st.nn[mk('at', 'METHOD', 'p')] = True
    nulls = []
    e.on_deref.append(lambda eng, st, p, nn, ins: nulls.append(ins.loc()) if nn is False or (
        p.k == 'ptr' and p.a[0].k == 'at' and p.a[0].a[0] == 'nullbase') else None)

    def unknown(eng, st, a, ins):
        st.gh['ev'] = mk('ev', st.gh['ev'], 'method' if a[0].k == 'ptr' and a[0].a[0] is mk('at', 'METHOD', 'p')
                         else 'call:' + show(a[0]), *a[1:])
        return [(st, isym('methodstatus'))]
    e.models['*'] = unknown
    return s, args, s.run(fname, args), nulls


@check('O03', 'abstract interpretation of every entry point that combines vectors, one cell per non-empty set of '
              'foreign operands: no operation or method is called, nothing is stored, the documented error results')
def o03(c):
    P = c.lib()
    for fname, argl in VOIDGUARD.items():
        vn = [a for a in argl if a[0] != '$']
        if len(vn) < 2:
            continue
        for k in range(1, len(vn) + 1):
            for wrong in itertools.combinations(vn, k):
                for pattern in (['T'] if k == 1 else ['T', 'TU']):
                    if pattern == 'T' and len(wrong) == len(vn):
                        continue        # all in one (other) space: a legitimate call
                    for cell in coef_cells([a[1:] for a in argl if a[0] == '$']):
                        s = Scene(c, P)
                        spc = [s.space(x) for x in pattern]
                        for n in vn:
                            s.vec(n, spc[wrong.index(n) % len(spc)] if n in wrong else None)
                        cv = {n: coef_value(s.st, n, v) for n, (lab, v) in cell.items()}
                        args = [cv[a[1:]] if a[0] == '$' else s.vecs[a] for a in argl]
                        tag = '%s with %s in a foreign space' % (fname, '+'.join(wrong))
                        rets = s.run(fname, args)
                        if not rets:
                            c.ob('guard', False, fname, '%s: no path returns' % tag)
                        for st, rv in rets:
                            ev = events(st)
                            c.ob('guard', [x[0] for x in ev] == ['opk_error'], fname,
                                 '%s: expected exactly one error report, found: %s' % (tag, evs(ev)))
                            if fname in REDUCE:
                                c.ob('guard-value', rv is F(0.0), fname, '%s returns %s' % (tag, rv))
    bad = P.enums['OPK_BAD_SPACE']
    for fname, argl in STATUSGUARD.items():
        vn = [a.split(':')[0] for a in argl if a[0] not in '#^&%']
        for k in range(1, len(vn) + 1):
            for wrong in itertools.combinations(vn, k):
                for missing in (False, True):
                    s, args, rets, nulls = status_call(c, P, fname, wrong=wrong, missing=missing)
                    tag = '%s with %s in a foreign space' % (fname, '+'.join(wrong))
                    c.ob('guard', bool(rets), fname, '%s: no path returns' % tag)
                    for st, rv in rets:
                        ev = events(st)
                        c.ob('guard', not ev and rv is I(bad), fname,
                             '%s: status %s, effects: %s' % (tag, rv, evs(ev)))
        # and with all operands in place the method is reached, exactly once, with the arguments given
        s, args, rets, nulls = status_call(c, P, fname)
        c.ob('dispatch', bool(rets), fname, '%s: no path returns' % fname)
        for st, rv in rets:
            ev = events(st)
            c.ob('dispatch', len(ev) == 1 and ev[0][0] == 'method' and rv is isym('methodstatus') and
                 list(ev[0][1:]) == args, fname,
                 '%s with valid operands: status %s, calls %s' % (fname, rv, evs(ev)))
    # bound vectors of a box must belong to the space of the box
    boxset_space(c, P)
    c.require('guard', 200)
    c.require('dispatch', 7)


def boxset_space(c, P):
    V = P.enums['OPK_BOUND_VECTOR']
    N = P.enums['OPK_BOUND_NONE']
    for side in ('lower', 'upper'):
        for foreign in (False, True):
            s = Scene(c, P)
            T2 = s.space('T')
            b = s.vec('b', T2 if foreign else None)
            args = [s.S] + ([I(V), b, I(N), NULL] if side == 'lower' else [I(N), NULL, I(V), b])
            rets = s.run('opk_new_boxset', args)
            c.ob('guard', bool(rets), 'opk_new_boxset', 'no path returns')
            okret = False
            for st, rv in rets:
                if rv.k != 'nul':
                    okret = True
                c.ob('guard', not (foreign and rv.k != 'nul'), 'opk_new_boxset',
                     'a box is built from a %s bound vector of a foreign space' % side)
            c.ob('guard', foreign or okret, 'opk_new_boxset', 'no box is ever built from a %s bound vector' % side)


# ------------------------------------------------------------------------------------------------ O04
@check('O04', 'abstract interpretation of the entry points that call an optional method, with the method absent and '
              'present: the absent method is never called and the documented status results')
def o04(c):
    P = c.lib()
    NI = P.enums['OPK_NOT_IMPLEMENTED']
    for fname, argl in STATUSGUARD.items():
        s, args, rets, nulls = status_call(c, P, fname, missing=True)
        c.ob('missing', bool(rets), fname, 'no path returns')
        for st, rv in rets:
            ev = events(st)
            c.ob('missing', not ev and rv is I(NI), fname,
                 '%s without the method: status %s, effects %s' % (fname, rv, evs(ev)))
        s, args, rets, nulls = status_call(c, P, fname)
        for st, rv in rets:
            c.ob('present', [x[0] for x in events(st)] == ['method'] and rv is isym('methodstatus'), fname,
                 '%s with the method: status %s, effects %s' % (fname, rv, evs(events(st))))
    for fname in ('opk_vimport', 'opk_vexport'):
        op = fname[5:]
        for missing in (True, False):
            s = Scene(c, P)
            v = s.vec('v')
            arr = ext(s.st, s.e, 'array')
            opsp = get(s.e, s.st, s.S, P.offset('opk_vspace_', 'ops'), 'p')
            put(s.e, s.st, opsp, s.off[op], NULL if missing else
                mk('ptr', mk('ld', opsp.a[0], A.INIT, I(s.off[op]), 'p', 8), ZERO))
            if not missing:
                s.st.nn[mk('ld', opsp.a[0], A.INIT, I(s.off[op]), 'p', 8)] = True
            for ty in ('OPK_FLOAT', 'OPK_DOUBLE'):
                s2 = s.st.copy()
                args = [v, arr, I(P.enums[ty]), s.n] if op == 'import' else [arr, I(P.enums[ty]), s.n, v]
                rets = s.e.run(c.func(P, fname), args, s2)
                c.done(s.e)
                c.ob('missing', bool(rets), fname, 'no path returns')
                for st, rv in rets:
                    ev = [x[0] for x in events(st)]
                    if missing:
                        c.ob('missing', not ev and rv is I(NI), fname,
                             '%s without the method: status %s, effects %s' % (fname, rv, evs(events(st))))
                    else:
                        want = (s.S, v, arr, I(P.enums[ty])) if op == 'import' else (s.S, arr, I(P.enums[ty]), v)
                        c.ob('present', ev == [op] and tuple(events(st)[0][1:]) == want and rv is ZERO, fname,
                             '%s with the method: status %s, effects %s' % (fname, rv, evs(events(st))))
    # the predicates tell whether the method is there
    for fname, slot in (('opk_can_project_variables', 'projvar'), ('opk_can_project_directions', 'projdir'),
                        ('opk_can_get_free_variables', 'freevar'), ('opk_can_get_step_limits', 'steplim')):
        for what in ('NULL', 'absent', 'present'):
            s = Scene(c, P)
            p = ext(s.st, s.e, 'set')
            for m in ('projvar', 'projdir', 'freevar', 'steplim'):
                val = (m == slot) == (what == 'present')
                put(s.e, s.st, p, P.offset('opk_convexset_', m),
                    mk('fn', P.func('opk_vzero')) if val else NULL)
            rets = s.run(fname, [NULL if what == 'NULL' else p])
            c.ob('predicate', bool(rets), fname, 'no path returns')
            for st, rv in rets:
                if what == 'present':
                    ok = rv.k == 'P' and isconst(rv) and ival(rv) != 0
                else:
                    ok = rv is ZERO
                c.ob('predicate', ok, fname, '%s on a %s method returns %s' % (fname, what, rv))
    # a box offers exactly the methods its vector space implements
    for present in itertools.product((False, True), repeat=4):
        s = Scene(c, P)
        opsp = get(s.e, s.st, s.S, P.offset('opk_vspace_', 'ops'), 'p')
        names = ['boxprojvar', 'boxprojdir', 'boxfreevar', 'boxsteplim']
        for m, pr in zip(names, present):
            t = mk('ld', opsp.a[0], A.INIT, I(s.off[m]), 'p', 8)
            put(s.e, s.st, opsp, s.off[m], mk('ptr', t, ZERO) if pr else NULL)
            if pr:
                s.st.nn[t] = True
        N = P.enums['OPK_BOUND_NONE']
        for st, rv in s.run('opk_new_boxset', [s.S, I(N), NULL, I(N), NULL]):
            if rv.k == 'nul':
                continue
            for m, slot, pr in zip(names, ('projvar', 'projdir', 'freevar', 'steplim'), present):
                f = get(s.e, st, rv, P.offset('opk_convexset_', slot), 'p')
                c.ob('box-methods', (f.k == 'fn') if pr else (f.k == 'nul'), slot,
                     'opk_new_boxset installs %s for %s when the space %s it' % (
                         show(f), slot, 'implements' if pr else 'lacks'))
    c.require('missing', 9)
    c.require('present', 9)
    c.require('predicate', 12)
    c.require('box-methods', 64)


# ------------------------------------------------------------------------------------------------ O06
def flush(c, s, rule, tag, fname):
    """turn the surviving log of a run into obligations"""
    for ev in s.e.log:
        if ev[0] == 'bad':
            c.ob('access', False, '%s:%s:%s' % (s.mod, fname, ev[1]), '%s: %s' % (tag, ev[2]), ev[3])
        elif ev[0] == 'elem':
            c.ob(rule, ev[2], '%s:%s:%s' % (s.mod, fname, ev[1]), '%s: %s' % (tag, ev[3]), ev[4])
        elif ev[0] == 'error':
            c.ob('access', False, '%s:%s:error' % (s.mod, fname), '%s: reports an error' % tag, ev[1])
    s.e.log = []


def factleaf(st):
    def leaf(t):
        if t.k == 'at' and t.a[1] == 'f':
            r = A.frange(st, t)
            if r.lo == r.hi and not r.nan:
                return F(r.lo)
        return None
    return leaf


def linear_cell(c, P, mod, fname, part, cell, dataalias=False):
    argl, terms = LINEAR[fname] if fname in LINEAR else (dict(all_functions())[fname], None)
    vn = [a for a in argl if a[0] != '$']
    s = Scene(c, P, mod)
    for n in vn:
        if part[n] == n:
            s.vec(n)
        elif dataalias:
            s.vec(n, data=s.data[part[n]])
    V = {n: s.vecs[n if dataalias else part[n]] for n in vn}
    D = {n: s.data[part[n]] for n in vn}
    wr = {'opk_vswap': ['x', 'y']}.get(fname, ['dst'] if 'dst' in vn else [])
    for n in vn:
        if part[n] == n:
            s.ar.add(s.st, n, D[n], writable=any(part[w] == n for w in wr))
    cv = {n: coef_value(s.st, n, v) for n, (lab, v) in cell.items()}
    args = [cv[a[1:]] if a[0] == '$' else V[a] for a in argl]
    tag = '%s[%s](%s%s)' % (fname, mod, ','.join('%s=%s' % (n, l[0]) for n, l in cell.items()),
                            ''.join(',%s%s%s' % (n, '~' if dataalias else '==', part[n]) for n in vn
                                    if part[n] != n))
    ar = s.ar

    def expected(name, e):
        if fname == 'opk_vswap':
            other = {'x': 'y', 'y': 'x'}
            return rnf(ar.el(D[other[name]].a[0], e))
        if fname == 'opk_vproduct':
            return _mul(rnf(ar.el(D['x'].a[0], e)), rnf(ar.el(D['y'].a[0], e)))
        p = {}
        for k, v in terms:
            x = {(): Fraction(1)} if v == 'ONE' else rnf(ar.el(D[v].a[0], e))
            p = _add(p, _mul(rnf(cv[k]), x) if k else x)
        return p

    def expect(eng, st, name, e, v, ins):
        if v.k not in ('fc', 'fo', 'ld', 'at'):
            return 'stores %s in %s' % (show(v), name)
        leaf = factleaf(st)
        got, want = rnf(v, leaf), expected(name, e)
        if got == want:
            return None
        return '%s[i] = %s is not the documented value' % (name, show(v))
    ar.expect = expect
    rets = s.run(fname, args)
    flush(c, s, 'element', tag, fname)
    c.ob('returns', bool(rets), '%s:%s' % (mod, fname), '%s: no path returns' % tag)
    noop = (fname in ('opk_vswap',) and part['x'] == part['y'])
    for st, rv in rets:
        for w in wr:
            r = D[w].a[0]
            full = ar.complete(st, r)
            untouched = st.gh[('u', r)] is ZERO and st.gh[('v', r)] is s.n
            ident = False
            if untouched and not full:
                e = isym('anyelem')
                ident = expected(part[w], e) == rnf(ar.el(r, e))
            c.ob('complete', full or ident, '%s:%s:%s' % (mod, fname, w),
                 '%s: not every element of %s is set' % (tag, w))
    return s


def reduce_cell(c, P, mod, fname, part):
    argn, op = REDUCE[fname]
    s = Scene(c, P, mod)
    for n in argn:
        if part[n] == n:
            s.vec(n)
    V = {n: s.vecs[part[n]] for n in argn}
    D = {n: s.data[part[n]] for n in argn}
    ar = s.ar
    for n in argn:
        if part[n] == n:
            ar.add(s.st, n, D[n])
    tag = '%s[%s](%s)' % (fname, mod, ','.join('%s==%s' % (n, part[n]) for n in argn if part[n] != n))
    lead = D[argn[0]].a[0]

    def contrib(e):
        el = [rnf(ar.el(D[n].a[0], e)) for n in argn]
        if op in ('dot', 'dot3'):
            p = el[0]
            for q in el[1:]:
                p = _mul(p, q)
            return p
        if op == 'norm2':
            return _mul(el[0], el[0])
        return rnf(mk('fo', 'fabs', ar.el(lead, e)))

    inv = []                     # (value term, ru, rv): the reduction over [0,ru) and [rv,n) equals the value

    def counts(st):
        ru, rv = st.gh[('ru', lead)], st.gh[('rv', lead)]
        for n in argn[1:]:
            r = D[n].a[0]
            if st.gh[('ru', r)] is not ru or st.gh[('rv', r)] is not rv:
                return None
        return ru, rv

    def holds(st, v):
        """v is the reduction over the elements visited in st"""
        cr = counts(st)
        if cr is None:
            return False
        ru, rv = cr
        for base, bu, bv in [(F(0.0), ZERO, s.n)] + inv:
            du, dv = sub(ru, bu), sub(bv, rv)
            if not isconst(du) or not isconst(dv):
                continue
            a, b = ival(du), ival(dv)
            if a < 0 or b < 0 or a + b > 8:
                continue
            els = [add(bu, I(i)) for i in range(a)] + [sub(bv, I(1 + i)) for i in range(b)]
            if op != 'norminf':
                p = rnf(base)
                for e in els:
                    p = _add(p, contrib(e))
                if rnf(v) == p:
                    return True
            else:
                cand = [strip(base)] + [mk('fo', 'fabs', ar.el(lead, e)) for e in els]
                v2 = strip(v)
                if any(v2 is x for x in cand) or any(rnf(v2) == rnf(x) for x in cand):
                    ok = True
                    for x in cand:
                        if rnf(x) == rnf(v2):
                            continue
                        m = fm(st, v2, x)
                        if m & LT and not (x is F(0.0) and nonneg(v2)):
                            ok = False
                    if ok:
                        return True
                if v2.k == 'fo' and v2.a[0] in ('fmax', 'max') and set(map(strip, v2.a[1:])) == set(cand):
                    return True
        return False

    def fm(st, a, b):
        m = A.fmask(st, a, b)
        return m

    def nonneg(t):
        return t.k == 'fo' and t.a[0] in ('fabs', 'sqrt')

    def on_loop(eng, fn, hb, groups, subst, mark, entry):
        for k, (h, bind) in groups.items():
            cr = counts(h)
            if cr is None:
                continue
            for nm, v in list(h.frames[-1].items()):
                if v.k == 'at' and v.a[1] == 'f' and v in bind:
                    ok = True
                    for st in entry:
                        e0 = st.frames[-1].get(nm)
                        if e0 is None or not holds(st, e0):
                            ok = False
                    inv.append((v, cr[0], cr[1]))
                    for st, sg in subst:
                        if not holds(st, st.frames[-1].get(nm)):
                            ok = False
                    if not ok:
                        inv.pop()
    s.e.on_loop.append(on_loop)
    rets = s.run(fname, [V[n] for n in argn])
    flush(c, s, 'element', tag, fname)
    c.ob('returns', bool(rets), '%s:%s' % (mod, fname), '%s: no path returns' % tag)
    for st, rv in rets:
        v = strip(rv)
        if op == 'norm2':
            v = v.a[1] if v.k == 'fo' and v.a[0] == 'sqrt' else F(float('nan'))
        for n in argn:
            c.ob('complete', ar.readall(st, D[n].a[0]), '%s:%s:%s' % (mod, fname, n),
                 '%s: not every element of %s is visited exactly once' % (tag, n))
        c.ob('reduction', holds(st, strip(v)) or holds(st, v), '%s:%s' % (mod, fname),
             '%s: the result %s is not the documented reduction of all elements' % (tag, show(rv)))


@check('O06', 'abstract interpretation of the vector operations down to the element loops of the built-in spaces: '
              'array-summary domain (visited ranges, initial contents) and real-polynomial normal forms')
def o06(c):
    P = c.lib()
    jobs = []
    for mod in ('dblvector', 'fltvector'):
        jobs.append(lambda c, mod=mod: transfers(c, P, mod))
        for fname, argl in all_functions():
            if fname in REDUCE:
                for part in partitions(argl):
                    jobs.append(lambda c, a=(P, mod, fname, part): reduce_cell(c, *a))
                continue
            vn = [a for a in argl if a[0] != '$']
            for part in partitions(vn):
                for cell in coef_cells([a[1:] for a in argl if a[0] == '$']):
                    jobs.append(lambda c, a=(P, mod, fname, part, cell): linear_cell(c, *a))
                    if any(part[n] != n for n in vn) and (len(vn) < 3 or c.thorough):
                        jobs.append(lambda c, a=(P, mod, fname, part, cell): linear_cell(c, *a, dataalias=True))
    parallel(c, jobs)
    c.require('element', 600)
    c.require('complete', 600)
    c.require('reduction', 20)
    c.assume.append('rounding is ignored: stored values are compared as real polynomials')


def transfers(c, P, mod):
    """import / export / peek / poke"""
    for fname in ('opk_vimport', 'opk_vexport'):
        for ty, esz in (('OPK_FLOAT', 4), ('OPK_DOUBLE', 8)):
            s = Scene(c, P, mod)
            v = s.vec('v')
            arr = ext(s.st, s.e, 'array')
            imp = fname == 'opk_vimport'
            s.ar.add(s.st, 'v', s.data['v'], writable=imp)
            s.ar.add(s.st, 'array', arr, writable=not imp, esz=esz)
            dst, src = (s.data['v'], arr) if imp else (arr, s.data['v'])
            s.ar.expect = lambda eng, st, name, e, val, ins: None if rnf(val) == rnf(s.ar.el(src.a[0], e)) else \
                '%s[i] = %s instead of the source element' % (name, show(val))
            tag = '%s[%s,%s]' % (fname, mod, ty)
            args = [v, arr, I(P.enums[ty]), s.n] if imp else [arr, I(P.enums[ty]), s.n, v]
            rets = s.run(fname, args)
            flush(c, s, 'element', tag, fname)
            c.ob('returns', bool(rets), '%s:%s' % (mod, fname), 'no path returns')
            for st, rv in rets:
                c.ob('complete', s.ar.complete(st, dst.a[0]) and rv is ZERO, '%s:%s' % (mod, fname),
                     '%s: not every element is transferred (status %s)' % (tag, rv))
    for fname in ('opk_vpeek', 'opk_vpoke'):
        s = Scene(c, P, mod)
        v = s.vec('v')
        k = isym('k')
        A.assume_ic(s.st, k, 6)
        A.assume_ic(s.st, sub(s.n, k), 4)
        data = s.data['v'].a[0]
        seen = []
        s.e.on_store.append(lambda eng, st, p, val, size, ins: seen.append((p, val, size, ins))
                            if p.k == 'ptr' and p.a[0].k == 'reg' and p.a[0].a[2] == 'ext' else None)
        out = ext(s.st, s.e, 'out')
        val = fsym('value')
        s.ar.on_elem = None
        rets = s.run(fname, [v, k, out if fname == 'opk_vpeek' else val])
        where = mk('ptr', data, scale(k, s.esz))
        c.ob('returns', bool(rets), '%s:%s' % (mod, fname), 'no path returns')
        el = mk('ld', data, A.INIT, scale(k, s.esz), 'f', s.esz)
        for st, rv in rets:
            if fname == 'opk_vpeek':
                got = get(s.e, st, out, 0, 'f')
                ok = rv is ZERO and strip(got) is el and all(p is out for p, _, _, _ in seen)
            else:
                ok = rv is ZERO and len(seen) == 1 and seen[0][0] is where and strip(seen[0][1]) is val and \
                    seen[0][2] == s.esz
            c.ob('element', ok, '%s:%s' % (mod, fname), '%s[%s] does not access exactly the element asked for' % (
                fname, mod))


# ------------------------------------------------------------------------------------------------ O05
@check('O05', 'abstract interpretation with integer bounds: index and size arguments partitioned into valid and '
              'invalid cells, every element access proved inside the array')
def o05(c):
    P = c.lib()
    OOB, INV, ILL = P.enums['OPK_OUT_OF_BOUNDS_INDEX'], P.enums['OPK_INVALID_ARGUMENT'], P.enums['OPK_ILLEGAL_ADDRESS']

    def quiet(s, rets, tag, fname, code):
        c.ob('reject', bool(rets), fname, '%s: no path returns' % tag)
        for st, rv in rets:
            ev = events(st)
            c.ob('reject', not ev and rv is I(code), fname, '%s: status %s, effects %s' % (tag, rv, evs(ev)))
    for fname in ('opk_vpeek', 'opk_vpoke'):
        for cell in ('k<0', 'k==n', 'k>n', 'valid'):
            s = Scene(c, P)
            v = s.vec('v')
            k = isym('k')
            if cell == 'k<0':
                A.assume_ic(s.st, k, 1)
            elif cell == 'valid':
                A.assume_ic(s.st, k, 6)
                A.assume_ic(s.st, sub(s.n, k), 4)
            elif cell == 'k==n':
                k = s.n
            else:
                A.assume_ic(s.st, sub(k, s.n), 4)
            out = ext(s.st, s.e, 'out')
            val = fsym('value')
            rets = s.run(fname, [v, k, out if fname == 'opk_vpeek' else val])
            if cell != 'valid':
                quiet(s, [(st, rv) for st, rv in rets], '%s with %s' % (fname, cell), fname, OOB)
                for st, rv in rets:
                    if fname == 'opk_vpeek':
                        c.ob('reject', out.a[0] not in st.mem or not st.mem[out.a[0]][0], fname, 'output written')
            else:
                c.ob('accept', bool(rets), fname, 'no path returns')
                for st, rv in rets:
                    ev = [x for x in events(st) if not (x[0] == 'store' and x[1] is out)]
                    op = fname[5:]
                    want = (s.S, v, k) if op == 'peek' else (s.S, v, k, val)
                    c.ob('accept', rv is ZERO and len(ev) == 1 and ev[0][0] == op and tuple(ev[0][1:]) == want,
                         fname, '%s with a valid index: status %s, calls %s' % (fname, rv, evs(ev)))
                    if op == 'peek':
                        got = get(s.e, st, out, 0, 'f')
                        c.ob('accept', got is mk('fo', 'peek', s.content(st, v), k), fname,
                             'the value delivered is %s' % show(got))
    for fname in ('opk_vimport', 'opk_vexport'):
        for cell in ('n<size', 'n>size', 'n<=0', 'type'):
            s = Scene(c, P)
            v = s.vec('v')
            m = isym('m')
            ty = I(P.enums['OPK_FLOAT'])
            if cell == 'n<size':
                A.assume_ic(s.st, sub(s.n, m), 4)
            elif cell == 'n>size':
                A.assume_ic(s.st, sub(m, s.n), 4)
            elif cell == 'n<=0':
                A.assume_ic(s.st, m, 3)
            else:
                m = s.n
                ty = isym('type')
                for x in ('OPK_FLOAT', 'OPK_DOUBLE'):
                    A.assume_ic(s.st, sub(ty, I(P.enums[x])), 5)
            arr = ext(s.st, s.e, 'array')
            rets = s.run(fname, [v, arr, ty, m] if fname == 'opk_vimport' else [arr, ty, m, v])
            quiet(s, rets, '%s with %s' % (fname, cell), fname, INV)
    for mod in ('dblvector', 'fltvector'):
        bounds_all(c, P, mod)
    # printing stops at the size of the vector and at the requested maximum
    for cell in ('nmax<=0', 'nmax<n', 'nmax>=n'):
        s = Scene(c, P)
        v = s.vec('v')
        m = isym('nmax')
        if cell == 'nmax<=0':
            A.assume_ic(s.st, m, 3)
            lim = s.n
        elif cell == 'nmax<n':
            A.assume_ic(s.st, m, 4)
            A.assume_ic(s.st, sub(s.n, m), 4)
            lim = m
        else:
            A.assume_ic(s.st, m, 4)
            A.assume_ic(s.st, sub(m, s.n), 6)
            lim = s.n
        e = s.e
        e.on_store.remove(s.m_store)
        e.models['*'] = None
        s.st.gh['k'] = ZERO

        def peekop(eng, st, a, ins):
            idx = eng.toint(a[3]) if len(a) > 3 else ZERO
            ok = A.ibounds(st, idx)[0] >= 0 and A.ibounds(st, sub(idx, lim))[1] < 0 and \
                A.imask(st, sub(idx, st.gh['k'])) == 2
            eng.log.append(('elem', 'peek', ok, 'prints element %s: not the next one below %s' % (
                show(idx), show(lim)), ins.loc()))
            st.gh['k'] = add(idx, ONE)
            return [(st, A.fresh('elem', 'f'))]
        e.models['*'] = peekop
        s.mod = 'any'
        rets = s.run('opk_vprint', [ext(s.st, e, 'file'), NULL, v, m])
        flush(c, s, 'print', 'opk_vprint with ' + cell, 'opk_vprint')
        c.ob('print', bool(rets), 'opk_vprint', 'no path returns')
        for st, rv in rets:
            c.ob('print', A.ibounds(st, sub(st.gh['k'], lim))[0] >= 0, 'opk_vprint',
                 'opk_vprint with %s prints %s elements, not %s' % (cell, show(st.gh['k']), show(lim)))
    c.require('reject', 20)
    c.require('inside', 60)
    c.require('print', 6)


def bounds_all(c, P, mod):
    """every element access of every operation of the built-in spaces is inside its array"""
    for fname, argl in all_functions():
        vn = [a for a in argl if a[0] != '$']
        s = Scene(c, P, mod)
        for n in vn:
            s.vec(n)
            s.ar.add(s.st, n, s.data[n], writable=True)
        args = [fsym(a[1:]) if a[0] == '$' else s.vecs[a] for a in argl]
        rets = s.run(fname, args)
        inside(c, s, mod, fname, rets)
    for fname in ('opk_vimport', 'opk_vexport'):
        for ty, esz in (('OPK_FLOAT', 4), ('OPK_DOUBLE', 8)):
            s = Scene(c, P, mod)
            v = s.vec('v')
            arr = ext(s.st, s.e, 'array')
            s.ar.add(s.st, 'v', s.data['v'], writable=True)
            s.ar.add(s.st, 'array', arr, writable=True, esz=esz)
            args = [v, arr, I(P.enums[ty]), s.n] if fname == 'opk_vimport' else [arr, I(P.enums[ty]), s.n, v]
            inside(c, s, mod, fname, s.run(fname, args))


def inside(c, s, mod, fname, rets):
    n = s.ar.loads + s.ar.stores
    bad = [ev for ev in s.e.log if ev[0] == 'bad' and ev[1].startswith(('oob', 'bulk', 'align'))]
    c.ob('inside', n > 0 and bool(rets), '%s:%s' % (mod, fname), 'no element access found')
    for ev in bad:
        c.ob('inside', False, '%s:%s:%s' % (mod, fname, ev[1]), '%s[%s]: %s' % (fname, mod, ev[2]), ev[3])
    c.obs += n
    c.rules['inside'] = c.rules.get('inside', 0) + n
