"""O02: a NULL argument is answered, not followed."""
from .core import *

# function, argument which is NULL, accepted results, does it leave the memory of the caller alone
VOID = None


def table(P):
    E = P.enums
    ILL = [I(E['OPK_ILLEGAL_ADDRESS'])]
    M1, Z, ONE_, NUL = [F(-1.0)], [ZERO], [ONE], [NULL]
    t = []

    def add_(names, args, want, pure=True):
        for n in names.split():
            for a in args:
                t.append((n, a, want, pure))
    add_('opk_hold_object', [0], NUL)
    add_('opk_drop_object opk_destroy_optimizer', [0], VOID)
    add_('opk_get_object_references', [0], Z)
    for k in ('float', 'double'):
        add_('opk_wrap_simple_%s_vector' % k, [1], NUL)
        add_('opk_get_simple_%s_vector_data opk_get_simple_%s_vector_client_data '
             'opk_get_simple_%s_vector_free_client_data' % (k, k, k), [0], NUL)
        add_('opk_rewrap_simple_%s_vector' % k, [0], ILL)
        add_('opk_rewrap_simple_%s_vector' % k, [1], 'failure')
    add_('opk_vprint', [2, (0, 2), (1, 2), (0, 1, 2)], VOID)
    add_('opk_vpeek', [0, 2], ILL)
    add_('opk_vpoke', [0], ILL)
    add_('opk_vimport', [0, 1], ILL)
    add_('opk_vexport', [0, 3], ILL)
    add_('opk_apply_direct opk_apply_adjoint opk_apply_inverse', [0, 1, 2], ILL)
    add_('opk_project_variables', [0, 1, 2], ILL)
    add_('opk_project_direction opk_get_free_variables', [0, 1, 2, 3], ILL)
    add_('opk_get_step_limits', [3, 4, 5], ILL)
    add_('opk_can_project_variables opk_can_project_directions opk_can_get_free_variables opk_can_get_step_limits', [0], Z)
    add_('opk_new_boxset', [0], NUL)
    LE = [I(E['OPK_LNSRCH_ERROR'])]
    add_('opk_lnsrch_start', [0], LE)
    add_('opk_lnsrch_iterate', [0, 1], LE, False)
    add_('opk_lnsrch_get_task', [0], LE)
    add_('opk_lnsrch_get_status', [0], ILL)
    add_('opk_lnsrch_get_step', [0], M1)
    add_('opk_lnsrch_has_errors opk_lnsrch_finished', [0], ONE_)
    add_('opk_lnsrch_has_warnings opk_lnsrch_converged', [0], Z)
    for m in ('nlcg', 'vmlmb'):
        add_('opk_get_%s_default_options' % m, [0], VOID)
        add_('opk_check_%s_options' % m, [0], ILL)
        add_('opk_new_%s_optimizer' % m, [1], NUL)
        add_('opk_get_%s_step opk_get_%s_gnorm' % (m, m), [0], M1)
    add_('opk_get_nlcg_description', [2], Z, False)
    add_('opk_get_vmlmb_mp', [0], Z)
    add_('opk_get_vmlmb_s opk_get_vmlmb_y', [0], NUL)
    TE = [I(E['OPK_TASK_ERROR'])]
    add_('opk_start opk_iterate opk_get_task', [0], TE)
    add_('opk_get_status', [0], ILL)
    add_('opk_get_evaluations opk_get_iterations opk_get_restarts', [0], Z)
    add_('opk_get_step', [0], M1)
    add_('opk_get_gnorm', [0], [F(0.0)])
    add_('opk_get_name opk_get_description', [2], [ONE], False)
    FE = [I(E['OPK_FMIN_ERROR'])]
    add_('opk_fmin_destroy', [0], VOID)
    add_('opk_fmin_set_precision opk_fmin_start opk_fmin_get_initial opk_fmin_get_final', [0], ILL)
    add_('opk_fmin_get_flags', [0], Z)
    add_('opk_fmin_get_status', [0], FE)
    add_('opk_fmin_next', [0, 1], FE, False)
    add_('opk_copy_string', [0, 2], 'length', False)
    return t


def stream(bad, k):
    """output functions follow their stream"""
    def f(eng, st, a, ins):
        if a[k] is NULL:
            bad.append(ins.loc())
            return []
        return [(st, A.fresh('n', 'i'))]
    return f


def one(c, P, name, null, want, pure):
    fn = c.func(P, name)
    e = c.engine(P)
    e.mutable_globals_initial = True
    e.malloc_fails = False
    mine = {}
    bad, stores, unknown = [], [], []
    st = State()
    args = []
    null = null if isinstance(null, tuple) else (null,)
    for i, p in enumerate(fn.params):
        ty = A.tyclass(p[0] if isinstance(p, tuple) and not isinstance(p[0], str) else p[1])
        if i in null:
            args.append(NULL)
        elif ty == 'p':
            q = ext(st, e, 'arg%d' % i)
            mine[q.a[0]] = i
            args.append(q)
        else:
            args.append(fsym('x%d' % i) if ty == 'f' else isym('k%d' % i))
    e.models['*'] = lambda eng, s, a, ins: unknown.append(ins.loc()) or [(s, A.fresh('cb', A.tyclass(ins.ty)))]
    e.on_deref.append(lambda eng, s, p, nn, ins: bad.append(ins.loc()) if nn is False else None)
    e.on_store.append(lambda eng, s, p, v, size, ins: stores.append(ins.loc()) if p.k == 'ptr' and p.a[0] in mine else None)
    for f, k in (('fprintf', 0), ('fputs', 1), ('fputc', 1), ('fwrite', 3), ('vfprintf', 0)):
        e.models[f] = stream(bad, k)
    rets = e.run(fn, args, st)
    c.done(e)
    what = '%s with a NULL argument %s' % (name, ' and '.join(str(k + 1) for k in null))
    c.ob('followed', not bad, name, '%s follows it [at %s]' % (what, bad[:1]), bad[0] if bad else '')
    c.ob('answer', bool(rets), name, '%s never returns' % what)
    for s, v in rets:
        if want is VOID:
            ok = True
        elif want == 'failure':
            ok = v is not ZERO and isconst(v)
        elif want == 'length':
            ok = v is not None and (null == (0,) or v is ONE)
        else:
            ok = v in want
        c.ob('answer', ok, name, '%s returns %s' % (what, show(v) if v is not None else v))
    if pure:
        c.ob('side effect', not stores and not unknown, name, '%s has other effects [at %s]' % (what, (stores + unknown)[:1]))


@check('O02', 'abstract interpretation of the public functions with NULL in each of the addresses they check, other '
              'arguments unconstrained')
def o02(c):
    P = c.lib()
    t = table(P)
    parallel(c, [lambda c, part=t[i::8]: [one(c, P, *x) for x in part] for i in range(8)])
    c.require('followed', 90)
    c.require('answer', 100)
    c.require('side effect', 80)
