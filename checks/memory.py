"""M01: every access to a block that the library allocates, to its globals and to its local arrays is within bounds."""
from .core import *
from .core import Ctx, REG
from engine import absint as A
from engine.absint import ibounds, imask

# the analyses which follow the library along its histories; what is looked for here is where it reads and writes
SCENES = {'O01': 'life of the objects', 'T05': 'VMLMB', 'T06': 'NLCG', 'T03': 'driver', 'L01': 'line searches',
          'F03': 'univariate minimization', 'W07': 'contexts of the Powell solvers', 'S01': 'texts',
          'V01': 'creations'}


class Guard(Ctx):
    """a context which only looks at the accesses made by the analyses of another check"""
    scene = ''

    def ob(self, rule, ok, key, msg='', where=''):
        return ok

    def bad(self, rule, key, msg, where=''):
        pass

    def require(self, rule, least):
        pass

    def engine(self, prog):
        e = Ctx.engine(self, prog)
        e.on_load.append(lambda eng, st, p, ty, size, v, ins: self.access(eng, st, p, size, ins, 'reads'))
        e.on_store.append(lambda eng, st, p, v, size, ins: self.access(eng, st, p, size, ins, 'writes'))
        e.on_branch.append(self.branch)
        e.on_deref.append(self.deref)
        self.seen = set()
        return e

    def report(self, ok, rule, key, msg, ins):
        self.obs += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if not ok:
            Ctx.bad(self, rule, key, '%s: %s' % (self.scene, msg), ins.loc())

    def branch(self, eng, st, ins, alts):
        ok = not any(undefined(c) for c, _ in alts)
        if (ins, ok) not in self.seen:
            self.seen.add((ins, ok))
            fn = eng.callstack[-1][0].name if eng.callstack else '?'
            self.report(ok, 'defined', fn, '%s takes a decision on an undefined value' % fn, ins)

    def deref(self, eng, st, p, nn, ins):
        ok = not undefined(p)
        if (ins, ok, 'd') not in self.seen:
            self.seen.add((ins, ok, 'd'))
            fn = eng.callstack[-1][0].name if eng.callstack else '?'
            self.report(ok, 'defined', fn, '%s follows an undefined address' % fn, ins)
        if nn is False:
            fn = eng.callstack[-1][0].name if eng.callstack else '?'
            self.report(False, 'access', '%s@NULL' % fn, '%s follows a NULL address' % fn, ins)

    def access(self, eng, st, p, size, ins, what):
        if p.k != 'ptr' or p.a[0].k != 'reg':
            return None
        n = eng.rsize.get(p.a[0])
        if n is None:
            return None
        if isinstance(n, int):
            n = I(n)
        size = I(size) if isinstance(size, int) else size
        off = p.a[1]
        lo = imask(st, off)
        hi = imask(st, sub(sub(n, off), size))
        a = ibounds(st, off)
        key = (ins, lo, hi, a)
        if key in self.seen:
            return None
        self.seen.add(key)
        # outside for sure, or for one end of the range of values that the offset is known to have
        ok = not (lo == 1 or hi == 1 or isconst(n) and (lo & 1 and -2**31 < a[0] or hi & 1 and a[1] < 2**31))
        fn = eng.callstack[-1][0].name if eng.callstack else '?'
        self.report(ok, 'access', '%s@%s' % (fn, p.a[0].a[0] if p.a[0].a[2] != 'heap' else 'heap'),
                    '%s %s %s bytes at offset %s of %s of %s bytes' % (fn, what, show(size), show(off), p.a[0].a[0],
                                                                     show(n)), ins)
        return None


UNDEFINED = {}


def undefined(t):
    """does the value depend on one which was never set"""
    r = UNDEFINED.get(t)
    if r is None:
        r = t.k == 'und' or t.k == 'at' and isinstance(t.a[0], str) and t.a[0].startswith('undef')
        if not r:
            stack = list(t.a)
            while stack and not r:
                x = stack.pop()
                if isinstance(x, T):
                    r = x.k != 'reg' and undefined(x)
                elif isinstance(x, tuple):
                    stack += list(x)
        UNDEFINED[t] = r
    return r


@check('M01', 'abstract interpretation of the histories of objects, optimizers, line searches, minimizers and contexts: '
       'offset and size of every access to a block, a global or a local array')
def m01(c):
    err = None
    for s in SCENES:
        g = Guard(c.id, c.tier)
        g.scene = SCENES[s]
        try:
            REG[s][0](g)
        except Broken as x:                    # what was seen before still counts
            err = err or x
        c.obs += g.obs
        c.functions |= g.functions
        c.callsites |= g.callsites
        c.steps += g.steps
        for k, v in g.rules.items():
            c.rules[s] = c.rules.get(s, 0) + v
        for k, v in g.fail.items():
            c.fail.setdefault(k, v)
        if err is None:
            c.require(s, 5)
    if err is not None:
        raise err
