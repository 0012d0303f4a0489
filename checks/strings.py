"""E01: status texts, error codes and constants; S01: text outputs never overflow."""
from .core import *
from .effects import header_param

REASONS = {   # one word (or a choice of words) the text must contain
    'OPK_SUCCESS': 'success', 'OPK_INVALID_ARGUMENT': 'argument', 'OPK_INSUFFICIENT_MEMORY': 'memory',
    'OPK_ILLEGAL_ADDRESS': 'address', 'OPK_NOT_IMPLEMENTED': 'implemented', 'OPK_CORRUPTED_WORKSPACE': 'workspace',
    'OPK_BAD_SPACE': 'space', 'OPK_OUT_OF_BOUNDS_INDEX': 'index', 'OPK_NOT_STARTED': 'not started',
    'OPK_NOT_A_DESCENT': 'descent', 'OPK_STEP_CHANGED': 'changed', 'OPK_STEP_OUTSIDE_BRACKET': 'bracket',
    'OPK_STPMIN_GT_STPMAX': 'bound', 'OPK_STPMIN_LT_ZERO': 'less than zero|negative', 'OPK_STEP_LT_STPMIN': 'lower',
    'OPK_STEP_GT_STPMAX': 'upper', 'OPK_FTOL_TEST_SATISFIED': 'function', 'OPK_GTOL_TEST_SATISFIED': 'gradient',
    'OPK_XTOL_TEST_SATISFIED': 'variable', 'OPK_STEP_EQ_STPMAX': 'upper', 'OPK_STEP_EQ_STPMIN': 'lower',
    'OPK_ROUNDING_ERRORS_PREVENT_PROGRESS': 'rounding', 'OPK_NOT_POSITIVE_DEFINITE': 'positive definite',
    'OPK_BAD_PRECONDITIONER': 'precondition', 'OPK_INFEASIBLE_BOUNDS': 'infeasible', 'OPK_WOULD_BLOCK': 'block',
    'OPK_UNDEFINED_VALUE': 'undefined', 'OPK_TOO_MANY_EVALUATIONS': 'evaluation',
    'OPK_TOO_MANY_ITERATIONS': 'iteration'}
POWELL_REASONS = {
    'cobyla': {'ITERATE': 'compute|evaluate', 'SUCCESS': 'success|converge', 'BAD_NVARS': 'variable',
               'BAD_NCONS': 'constraint', 'BAD_RHO_RANGE': 'radius', 'BAD_SCALING': 'scal', 'ROUNDING_ERRORS': 'rounding',
               'TOO_MANY_EVALUATIONS': 'evaluation', 'BAD_ADDRESS': 'address', 'CORRUPTED': 'corrupted'},
    'bobyqa': {'SUCCESS': 'success|converge', 'BAD_NVARS': 'variable', 'BAD_NPT': 'npt', 'BAD_RHO_RANGE': 'radius',
               'BAD_SCALING': 'scal', 'TOO_CLOSE': 'bounds', 'ROUNDING_ERRORS': 'cancellation|rounding',
               'TOO_MANY_EVALUATIONS': 'evaluation', 'STEP_FAILED': 'step'},
    'newuoa': {'ITERATE': 'compute|evaluate', 'SUCCESS': 'success|converge', 'BAD_NVARS': 'variable', 'BAD_NPT': 'npt',
               'BAD_RHO_RANGE': 'radius', 'BAD_SCALING': 'scal', 'ROUNDING_ERRORS': 'cancellation|rounding',
               'TOO_MANY_EVALUATIONS': 'evaluation', 'STEP_FAILED': 'step', 'BAD_ADDRESS': 'address',
               'CORRUPTED': 'corrupted'}}
ERRNO = {12: 'OPK_INSUFFICIENT_MEMORY', 14: 'OPK_ILLEGAL_ADDRESS', 22: 'OPK_INVALID_ARGUMENT'}
# names that opk_get_integer_constant documents through the public header: every public integer constant of these kinds
KINDS = ('OPK_TASK_', 'OPK_LNSRCH_', 'OPK_NLCG_', 'OPK_BOUND_', 'OPK_SCALING_', 'OPK_ALGORITHM_', 'OPK_FMIN_')
NAMES = ['OPK_TRUE', 'OPK_FALSE', 'OPK_FLOAT', 'OPK_DOUBLE', 'OPK_TASK_ERROR', 'OPK_TASK_START', 'OPK_TASK_COMPUTE_FG',
         'OPK_TASK_NEW_X', 'OPK_TASK_FINAL_X', 'OPK_TASK_WARNING', 'OPK_LNSRCH_ERROR', 'OPK_LNSRCH_SEARCH',
         'OPK_LNSRCH_CONVERGENCE', 'OPK_LNSRCH_WARNING', 'OPK_BOUND_NONE', 'OPK_BOUND_SCALAR_FLOAT',
         'OPK_BOUND_SCALAR_DOUBLE', 'OPK_BOUND_STATIC_FLOAT', 'OPK_BOUND_STATIC_DOUBLE', 'OPK_BOUND_VOLATILE_FLOAT',
         'OPK_BOUND_VOLATILE_DOUBLE', 'OPK_BOUND_VECTOR', 'OPK_ASCENT', 'OPK_DESCENT', 'OPK_SCALING_NONE',
         'OPK_SCALING_OREN_SPEDICATO', 'OPK_SCALING_BARZILAI_BORWEIN', 'OPK_LBFGS', 'OPK_VMLMB', 'OPK_BLMVM',
         'OPK_ALGORITHM_NLCG', 'OPK_ALGORITHM_VMLMB', 'OPK_FMIN_ERROR', 'OPK_FMIN_START', 'OPK_FMIN_FX',
         'OPK_FMIN_NEWX', 'OPK_FMIN_CONVERGENCE']
# documented values (optimpack.h) that a macro hides from the debug information
MACROS = {'OPK_NLCG_FLETCHER_REEVES': 1, 'OPK_NLCG_HESTENES_STIEFEL': 2, 'OPK_NLCG_POLAK_RIBIERE_POLYAK': 3,
          'OPK_NLCG_FLETCHER': 4, 'OPK_NLCG_LIU_STOREY': 5, 'OPK_NLCG_DAI_YUAN': 6, 'OPK_NLCG_PERRY_SHANNO': 7,
          'OPK_NLCG_HAGER_ZHANG': 8, 'OPK_NLCG_POWELL': 1 << 8, 'OPK_NLCG_SHANNO_PHUA': 1 << 9,
          'OPK_FMIN_BOUNDED_BY_A': 1, 'OPK_FMIN_BOUNDED_BY_B': 2, 'OPK_FMIN_SMOOTH': 4}


def text(e, v):
    s = e.cstring(v) if v.k == 'ptr' else None
    return None if s is None else s.decode('utf-8', 'replace')


@check('E01', 'abstract interpretation of the status, error-code and constant tables: one cell per code or name and one '
              'for all others')
def e01(c):
    P = c.lib()
    E = P.enums

    def call1(prog, fn, arg, mod=None):
        e = c.engine(prog)
        e.mutable_globals_initial = True
        st = State()
        if isinstance(arg, int):
            a = I(arg)
        else:
            a = isym('code')
            for k in arg:
                A.assume_ic(st, sub(a, I(k)), 5)
        rets = e.run(c.func(prog, fn, mod), [a], st)
        c.done(e)
        return e, rets

    for prog, fn, table, pre in [(P, 'opk_get_reason', REASONS, '')] + \
            [(c.lib([k]), k + '_reason', t, k.upper() + '_') for k, t in POWELL_REASONS.items()]:
        Ek = prog.enums
        texts = {}
        for name, words in table.items():
            if pre + name not in Ek:
                raise Broken('status %s not found' % (pre + name))
            e, rets = call1(prog, fn, Ek[pre + name])
            c.ob('reason', bool(rets), fn, 'no path returns')
            for s, v in rets:
                t = text(e, v)
                c.ob('reason', bool(t) and any(w in t.lower() for w in words.split('|')), '%s:%s' % (fn, name),
                     '%s(%s) is %r, which does not tell the status' % (fn, pre + name, t))
                c.ob('distinct', t is None or t not in texts or texts[t] == name, '%s:%s' % (fn, name),
                     '%s gives the same text for %s and %s' % (fn, pre + name, texts.get(t)))
                texts.setdefault(t, name)
        # every status of the enumeration is in the table of the check
        if not pre:
            mx = Ek.get('OPK_MAX_STATUS')
            c.ob('complete', mx is None or mx == max(Ek[n] for n in table) + 1, 'status',
                 'the enumeration of statuses has %s entries, %d are known' % (mx, len(table)))
        e, rets = call1(prog, fn, sorted(Ek[pre + n] for n in table))
        c.ob('reason', bool(rets), fn, 'no path returns')
        for s, v in rets:
            t = text(e, v)
            c.ob('unknown', t is not None and t not in texts and (pre or t == ''), fn + ':unknown',
                 '%s of an unknown status is %r' % (fn, t))
    for code in list(ERRNO) + [tuple(ERRNO)]:
        e, rets = call1(P, 'opk_guess_status', code)
        want = E[ERRNO[code]] if isinstance(code, int) else -1
        c.ob('errno', bool(rets), 'opk_guess_status', 'no path returns')
        for s, v in rets:
            c.ob('errno', v is I(want), 'opk_guess_status:%s' % (code if isinstance(code, int) else 'other'),
                 'opk_guess_status(%s) is %s instead of %d' % (code, show(v), want))
    # constants by name
    vals = {n: E.get(n, MACROS.get(n)) for n in list(NAMES) + list(REASONS) + list(MACROS)}
    for n, v in vals.items():
        if v is None:
            raise Broken('constant %s not found' % n)

    def lookup(name, ptr=True):
        e = c.engine(P)
        e.mutable_globals_initial = True
        st = State()
        out = ext(st, e, 'out') if ptr else NULL
        if name is None:
            p = NULL
        else:
            p = ext(st, e, 'name')
            data = name.encode() + b'\0' if name != '?' else None
            if data:
                for i, ch in enumerate(data):
                    put(e, st, p, i, I(ch), 1)
            else:
                put(e, st, p, 0, I(ord('?')), 1)

            def strcmp(eng, st, a, ins):
                other = eng.cstring(a[1] if a[0] is p else a[0])
                if other is None or p not in a[:2]:
                    return None
                if name == '?':
                    return [(st, ONE)]
                x, y = name.encode(), other
                if a[0] is not p:
                    x, y = y, x
                return [(st, I((x > y) - (x < y)))]
            e.models['strcmp'] = strcmp
        rets = e.run(c.func(P, 'opk_get_integer_constant'), [p, out], st)
        c.done(e)
        return [(r, get(e, s, out, 0, 'i') if ptr else None) for s, r in rets], e

    for n, v in vals.items():
        rets, e = lookup(n)
        c.ob('constant', bool(rets), n, 'no path returns')
        for r, x in rets:
            c.ob('constant', r is I(E['OPK_SUCCESS']) and x is I(v), n,
                 'opk_get_integer_constant("%s") stores %s and returns %s; the constant is %d' % (n, show(x), show(r), v))
    for n in ('?', '', None, 'OPK_SUCCESS '):
        rets, e = lookup(n)
        c.ob('constant', bool(rets), str(n), 'no path returns')
        for r, x in rets:
            c.ob('constant', r is I(E['OPK_INVALID_ARGUMENT']) and x.k == 'P' and not isconst(x), 'unknown:%s' % n,
                 'opk_get_integer_constant(%r) stores %s and returns %s' % (n, show(x), show(r)))
    rets, e = lookup('OPK_BAD_SPACE', False)
    for r, x in rets:
        c.ob('constant', r is I(E['OPK_SUCCESS']), 'NULL', 'opk_get_integer_constant(name, NULL) returns ' + show(r))
    c.require('reason', 60)
    c.require('constant', 70)


class Texts:
    """lengths and contents of the strings built in local buffers"""

    def __init__(self, c, e):
        self.c, self.e = c, e
        self.copies = []
        for f in ('strcpy', 'strcat', 'sprintf', 'snprintf', 'opk_copy_string', 'strlen'):
            e.models[f] = getattr(self, f)

    def content(self, st, p):
        s = self.e.cstring(p) if p.k == 'ptr' else None
        if s is not None:
            return s.decode('utf-8', 'replace')
        if p.k != 'ptr' or p.a[1] is not ZERO:
            return None
        t = st.gh.get(('text', p.a[0]))
        if t is None:
            b = self.e.read(st, p, 'i', 1)
            return '' if b is ZERO else None
        return t.a[0]

    def put(self, st, p, s, ins, who):
        size = self.e.rsize.get(p.a[0]) if p.k == 'ptr' else None
        ok = s is not None and size is not None and isconst(size) and p.a[1] is ZERO and \
            len(s.encode('utf-8')) + 1 <= ival(size)
        self.c.ob('buffers', ok, '%s:%s' % (ins.fn.name, ins.fn.name),
                  '%s writes %s into a buffer of %s bytes' % (who, 'an unknown text' if s is None else
                                                             '%d bytes' % (len(s.encode('utf-8')) + 1),
                                                             size and show(size)), ins.loc())
        if p.k == 'ptr' and s is not None:
            st.gh[('text', p.a[0])] = mk('str', s)

    def strcpy(self, e, st, a, ins):
        self.put(st, a[0], self.content(st, a[1]), ins, 'strcpy')
        return [(st, a[0])]

    def strcat(self, e, st, a, ins):
        x, y = self.content(st, a[0]), self.content(st, a[1])
        self.put(st, a[0], None if x is None or y is None else x + y, ins, 'strcat')
        return [(st, a[0])]

    def fmt(self, st, f, args):
        """longest text of a format"""
        s = self.content(st, f)
        if s is None:
            return None
        out, k, i = '', 0, 0
        while i < len(s):
            if s[i] != '%':
                out += s[i]
                i += 1
                continue
            j = i + 1
            while j < len(s) and s[j] in 'lhzjt':
                j += 1
            ch = s[j] if j < len(s) else '?'
            i = j + 1
            if ch == '%':
                out += '%'
                continue
            if k >= len(args):
                return None
            if ch in 'diu':
                out += '9' * 20
            elif ch == 's':
                t = self.content(st, args[k])
                if t is None:
                    return None
                out += t
            else:
                return None
            k += 1
        return out

    def sprintf(self, e, st, a, ins):
        self.put(st, a[0], self.fmt(st, a[1], a[2:]), ins, 'sprintf')
        return [(st, A.fresh('n', 'i'))]

    def snprintf(self, e, st, a, ins):
        s = self.fmt(st, a[2], a[3:])
        if self.isout(a[0]):
            self.copies.append((a[0], a[1], s, ins))
        else:
            n = a[1]
            if isconst(n) and s is not None:
                s = s[:max(0, ival(n) - 1)]
            self.put(st, a[0], s, ins, 'snprintf')
        return [(st, I(len(s)) if s is not None and '9' * 20 not in s else A.fresh('n', 'i'))]

    def isout(self, p):
        return p is NULL or (p.k == 'ptr' and p.a[0].a[0] == 'buf')

    def strlen(self, e, st, a, ins):
        s = self.content(st, a[0])
        return [(st, I(len(s.encode('utf-8'))))] if s is not None else None

    def opk_copy_string(self, e, st, a, ins):
        s = self.content(st, a[2])
        if not self.isout(a[0]):
            self.put(st, a[0], s, ins, 'opk_copy_string')
            return [(st, A.fresh('n', 'i'))]
        self.copies.append((a[0], a[1], s, ins))
        return [(st, mk('P', 0, (((mk('at', 'needed', 'i'),), 1),)))]


def copy_string(c):
    P = c.lib()
    f = c.func(P, 'opk_copy_string')
    # cells of (length of the source, size of the destination)
    cells = [(l, s) for l in ('NULL', '0', '>0') for s in ('0', '1', '<=L', '>L')]
    for lc, sc in cells:
        if lc != '>0' and sc == '<=L':
            continue
        for dst in (False, True):
            e = c.engine(P)
            st = State()
            L, size = isym('L'), isym('size')
            A.assume_ic(st, size, 6)
            if lc in ('NULL', '0'):
                A.assume_ic(st, L, 2)
            else:
                A.assume_ic(st, L, 4)
            src = NULL if lc == 'NULL' else ext(st, e, 'src', add(L, ONE))
            if lc == '0':
                put(e, st, src, 0, ZERO, 1)
            elif lc == '>0':
                b = isym('first')
                A.assume_ic(st, b, 5)
                put(e, st, src, 0, b, 1)
            ok = True
            if sc == '0':
                ok = A.assume_ic(st, size, 2)
            elif sc == '1':
                ok = A.assume_ic(st, sub(size, ONE), 2)
            elif sc == '<=L':
                ok = A.assume_ic(st, sub(size, L), 3) and A.assume_ic(st, sub(size, ONE), 4)
            else:
                ok = A.assume_ic(st, sub(size, L), 4) and A.assume_ic(st, sub(size, ONE), 4)
            if ok is False:
                continue
            d = ext(st, e, 'dst', size) if dst else NULL
            e.models['strlen'] = lambda eng, s, a, ins: [(s, L)] if a[0] is src and src is not NULL else None

            def onstore(eng, s, p, v, n, ins):
                if p.k == 'ptr' and dst and p.a[0] is d.a[0]:
                    ln = n if isinstance(n, T) else I(n)
                    frm = None
                    if v is None and ins.op == 'call':
                        frm = eng.val(s, ins.ops[1], ins.fn.mod, ('p',))
                    eng.log.append(('w', p.a[1], ln, v, frm, ins))
                    c.ob('copy', A.ibounds(s, p.a[1])[0] >= 0 and A.ibounds(s, sub(add(p.a[1], ln), size))[1] <= 0,
                         'bounds', 'opk_copy_string writes outside the destination (length %s, size %s)' % (lc, sc),
                         ins.loc())

            def onload(eng, s, p, ty, n, v, ins):
                if p.k == 'ptr' and src is not NULL and p.a[0] is src.a[0]:
                    ln = n if isinstance(n, T) else I(n)
                    c.ob('copy', A.ibounds(s, p.a[1])[0] >= 0 and A.ibounds(s, sub(add(p.a[1], ln), add(L, ONE)))[1] <= 0,
                         'source', 'opk_copy_string reads past the end of the source', ins.loc())
            e.on_store.append(onstore)
            e.on_load.append(onload)
            rets = e.run(f, [d, size, src], st)
            c.done(e)
            c.ob('copy', bool(rets), 'returns', 'opk_copy_string does not return (%s, %s)' % (lc, sc))
            for s, v in rets:
                c.ob('copy', A.imask(s, sub(v, add(L, ONE))) == 2, 'result',
                     'opk_copy_string returns %s for a source of length %s' % (show(v), 'L' if lc == '>0' else 0))
                if not dst:
                    continue
                # what was written, in order: whole prefix of the source then the final null
                last = sub(size, ONE) if sc in ('1', '<=L') else L      # index of the final null
                if sc == '1' and lc != '>0':
                    last = ZERO
                w = [x for x in e.log if x[0] == 'w']
                if sc == '0':
                    c.ob('copy', not w, 'empty', 'opk_copy_string writes to a buffer of size 0')
                    continue
                if any(not A.isconst(x[2]) and x[4] is None for x in w) or len(rets) > 1:
                    c.notes.append('opk_copy_string: contents not compared in cell %s/%s' % (lc, sc))
                    continue
                up = ZERO
                null = False
                for _, off, ln, val, frm, ins in w:
                    eq = lambda a, b: A.imask(s, sub(a, b)) == 2
                    if frm is not None:
                        c.ob('copy', frm.k == 'ptr' and src is not NULL and frm.a[0] is src.a[0] and
                             eq(frm.a[1], off), 'contents', 'opk_copy_string copies from the wrong place', ins.loc())
                        if eq(off, up):
                            up = add(off, ln)
                        null = eq(add(off, ln), add(L, ONE)) or null and not (
                            A.ibounds(s, sub(off, last))[1] <= 0 <= A.ibounds(s, sub(add(off, ln), last))[1] - 1)
                    elif val is ZERO and eq(off, last):
                        null = True
                        if eq(off, up):
                            up = add(off, ln)
                    else:
                        c.bad('copy', 'contents', 'opk_copy_string stores %s at %s' % (show(val), show(off)), ins.loc())
                c.ob('copy', null, 'terminator', 'opk_copy_string does not terminate the copy (%s, %s)' % (lc, sc))
                c.ob('copy', A.imask(s, sub(up, add(last, ONE))) == 2, 'contents',
                     'opk_copy_string writes %s bytes instead of %s (%s, %s)' % (show(up), show(add(last, ONE)), lc, sc))


@check('S01', 'abstract interpretation of the text outputs: copy with symbolic source length and destination size; '
              'lengths and contents of the strings built in local buffers for every method and option')
def s01(c):
    copy_string(c)
    P = c.lib()
    seen = {}

    def describe(fn, struct, setup, label, named=True, args=None):
        for dst in (True, False):
            e = c.engine(P)
            e.mutable_globals_initial = True
            tx = Texts(c, e)
            st = State()
            size = isym('size')
            A.assume_ic(st, size, 4 if dst else 2)
            buf = ext(st, e, 'buf', size) if dst else NULL
            opt = ext(st, e, 'opt') if struct else NULL
            if struct:
                setup(e, st, opt)

            def onstore(eng, s, p, v, n, ins):
                if p.k == 'ptr' and dst and p.a[0] is buf.a[0]:
                    ln = n if isinstance(n, T) else I(n)
                    c.ob('outputs', A.ibounds(s, p.a[1])[0] >= 0 and A.ibounds(s, sub(add(p.a[1], ln), size))[1] <= 0,
                         fn, '%s writes outside the buffer of the caller' % fn, ins.loc())
            e.on_store.append(onstore)
            rets = e.run(c.func(P, fn), [buf, size, opt], st)
            c.done(e)
            c.ob('outputs', bool(rets), fn, '%s does not return' % fn)
            good = [x for x in tx.copies if x[0] is buf and A.imask(st, sub(x[1], size)) == 2]
            for s, v in rets:
                c.ob('outputs', len(good) == len(tx.copies) >= 1 and all(x[2] is not None for x in good), fn,
                     '%s (%s) does not write a known text within the %s bytes of the buffer'
                     % (fn, label, 'available' if dst else 'zero'))
                want = {show(mk('P', 0, (((mk('at', 'needed', 'i'),), 1),)))} | {
                    show(I(len(x[2].encode('utf-8')) + 1)) for x in good if x[2]}
                c.ob('outputs', show(v) in want, fn + ':size', '%s (%s) does not return the number of bytes needed'
                     % (fn, label))
            if dst and good and named:
                t = good[0][2]
                c.ob('distinct', t not in seen.get(fn, {}) or seen[fn][t] == label, '%s' % fn,
                     '%s gives the same text for %s and %s' % (fn, seen.get(fn, {}).get(t), label))
                seen.setdefault(fn, {})[t] = label

    o = P.offset('opk_nlcg_', 'flags')
    for low in range(1, 9):
        for high in (0, 0x100, 0x200, 0x300):
            describe('opk_get_nlcg_description', 1, lambda e, st, p: put(e, st, p, o, I(low | high), 4),
                     'flags %#x' % (low | high))
    describe('opk_get_nlcg_name', 1, lambda e, st, p: None, 'any')
    om, on = P.offset('opk_vmlmb_', 'method'), P.offset('opk_vmlmb_', 'm')
    for name in ('OPK_LBFGS', 'OPK_VMLMB', 'OPK_BLMVM'):
        def setup(e, st, p):
            put(e, st, p, om, I(P.enums[name]), 4)
            m = isym('m')
            A.assume_ic(st, m, 4)
            put(e, st, p, on, m)
        describe('opk_get_vmlmb_description', 1, setup, name, named=False)
        e = c.engine(P)
        st = State()
        p = ext(st, e, 'opt')
        setup(e, st, p)
        for s, v in e.run(c.func(P, 'opk_get_vmlmb_method_name'), [p], st):
            t = text(e, v)
            c.ob('distinct', bool(t) and t not in seen.setdefault('method', {}), 'opk_get_vmlmb_method_name:' + name,
                 'the name of method %s is %r' % (name, t))
            seen['method'][t] = name
    for fn in ('opk_get_name', 'opk_get_description'):
        describe(fn, None, None, 'NULL')
    c.require('outputs', 100)
    c.require('buffers', 30)
    c.require('copy', 30)
