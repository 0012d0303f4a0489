"""Accesses to arrays in nests of counted loops: the elements accessed as polynomials of the sizes and of the numbers of
the iterations of the enclosing loops, whose ranges are known from the conditions of the loops.  Everything that is not of
this form is an opaque atom (never the ground of an alarm)."""
from collections import defaultdict
from fractions import Fraction
from itertools import product
from . import zones as Z

ONE = {(): Fraction(1)}


def const(k):
    return {(): Fraction(k)} if k else {}


def atom(a):
    return {(a,): Fraction(1)}


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        w = r.get(k, 0) + s * v
        if w:
            r[k] = w
        else:
            r.pop(k, None)
    return r


def mul(a, b):
    r = {}
    for k, v in a.items():
        for l, w in b.items():
            m = tuple(sorted(k + l))
            x = r.get(m, 0) + v * w
            if x:
                r[m] = x
            else:
                r.pop(m, None)
    return r


def scale(a, k):
    return {m: v * k for m, v in a.items()} if k else {}


def subst(p, a, q):
    """p with atom a replaced by q"""
    r = {}
    pw = {0: ONE}
    for m, v in p.items():
        n = m.count(a)
        if n not in pw:
            for i in range(1, n + 1):
                if i not in pw:
                    pw[i] = mul(pw[i - 1], q)
        rest = tuple(x for x in m if x != a)
        r = add(r, mul({rest: v}, pw[n]))
    return r


def atoms(p):
    return {a for m in p for a in m}


def degree(p, a):
    return max([m.count(a) for m in p] or [0])


def coeff(p, a, n):
    """coefficient of a**n"""
    return {tuple(x for x in m if x != a): v for m, v in p.items() if m.count(a) == n}


def key(p):
    return tuple(sorted((m, v) for m, v in p.items()))


def show(p):
    if not p:
        return '0'
    out = []
    for m, v in sorted(p.items(), key=lambda x: (-len(x[0]), x[0])):
        s = '*'.join(a.strip('%') for a in m)
        if v != 1 or not m:
            s = ('%s*%s' % (v, s)) if m else str(v)
        out.append(s)
    return ' + '.join(out)


def integral(p, d):
    """is p divisible by d whatever the (integer) values of the atoms?"""
    den = 1
    for v in p.values():
        den = den * v.denominator
    if den != 1 or len(atoms(p)) > 5:
        return False
    al = sorted(atoms(p))
    for vals in product(range(d), repeat=len(al)):
        env = dict(zip(al, vals))
        s = 0
        for m, v in p.items():
            x = int(v)
            for a in m:
                x *= env[a]
            s += x
        if s % d:
            return False
    return True


class Nest:
    def __init__(self, fn, loops):
        self.fn = fn
        self.sh = Z.Shape(fn)
        self.loops = loops(self.sh)
        self.order = sorted(self.sh.rpo, key=self.sh.rpo.get)
        self.preds = defaultdict(list)
        for b in self.order:
            for t in fn.blocks[b].succ:
                if b not in self.preds[t]:
                    self.preds[t].append(b)
        self.dominators()
        self.where = {}
        for b in fn.blocks.values():
            for i in b.phis + b.ins:
                if i.res:
                    self.where[i.res] = b.name
        self._p, self._trip, self._ctr = {}, {}, {}
        self.busy = set()
        self.stored = set()             # members of structures that the function changes
        for b in fn.blocks.values():
            for i in b.ins:
                if i.op == 'store':
                    self.stored.add(self.sh.pointer(i.ops[1]))

    def dominators(self):
        dom = {self.order[0]: {self.order[0]}}
        ch = True
        while ch:
            ch = False
            for b in self.order[1:]:
                p = [dom[q] for q in self.preds[b] if q in dom]
                n = set.intersection(*p) | {b}
                if dom.get(b) != n:
                    dom[b] = n
                    ch = True
        self.dom = dom

    def inside(self, b, h):
        return b in self.loops[h]

    # ---------------------------------------------------------------- values
    def poly(self, o, at):
        """the value of an integer, used in block AT"""
        if o[0] == 'k':
            return const(o[2])
        if o[0] == 'zero':
            return {}
        if o[0] != 'l':
            return atom(str(o[:2]))
        d = self.sh.defs.get(o[1])
        if d is None:
            return atom(o[1])
        w = self.where[o[1]]
        out = frozenset(h for h, body in self.loops.items() if w in body and at not in body)
        k = (o[1], out)
        if k in self._p:
            return self._p[k]
        if k in self.busy or len(self.busy) > 150:
            return atom(o[1])
        self.busy.add(k)
        r = self._poly(d, w, at, out)
        self.busy.discard(k)
        if not self.busy:
            self._p[k] = r
        return r

    def _poly(self, d, w, at, out):
        me = atom(d.res)
        if d.op == 'phi':
            if w in self.loops:
                c = self.counter(d)
                if c is not None:
                    init, step = c
                    if w in out:
                        if len(out) > 1 and any(h != w for h in out):
                            return me
                        t = self.trip(w)
                        return me if t is None else self.advance(init, step, w, t)
                    return self.advance(init, step, w, atom('t:' + w))
                return me
            if out:
                return me
            v = [self.poly(x, b) for b, x in d.x.items()]
            return v[0] if all(x == v[0] for x in v[1:]) else me
        if out:
            return me
        s = lambda n: self.poly(d.ops[n], w)
        if d.op in ('sext', 'zext', 'trunc', 'freeze'):
            if d.op == 'zext' and d.x == ('i', 1):
                return me
            return s(0)
        if d.op == 'add':
            return add(s(0), s(1))
        if d.op == 'sub':
            return add(s(0), s(1), -1)
        if d.op == 'mul':
            return mul(s(0), s(1))
        if d.op == 'shl' and d.ops[1][0] == 'k':
            return scale(s(0), 1 << d.ops[1][2])
        if d.op == 'sdiv' and d.ops[1][0] == 'k' and d.ops[1][2] > 0:
            p = s(0)
            if integral(p, d.ops[1][2]):
                return scale(p, Fraction(1, d.ops[1][2]))
            return atom('(%s)/%d' % (show(p), d.ops[1][2]))
        if d.op in ('srem', 'and') and d.ops[1][0] == 'k':
            m = d.ops[1][2] + (1 if d.op == 'and' else 0)
            return atom('(%s)%%%d' % (show(s(0)), m))
        if d.op == 'select':
            a, b = s(1), s(2)
            return a if a == b else me
        if d.op == 'load':
            p = self.sh.pointer(d.ops[0])
            if p[1] is not None and p[0] in self.sh.params and p not in self.stored and \
                    not any(q[0] == p[0] and q[1] is None for q in self.stored):
                return atom('m:%s+%d' % p)
        return me

    @staticmethod
    def advance(init, step, h, t):
        """init plus t steps, where the step may depend linearly on the number of the iteration"""
        a = 't:' + h
        n = degree(step, a)
        if n == 0:
            return add(init, mul(step, t))
        c0, c1 = coeff(step, a, 0), coeff(step, a, 1)
        return add(add(init, mul(c0, t)), scale(mul(c1, mul(t, add(t, const(-1)))), Fraction(1, 2)))

    def counter(self, d):
        """(initial value, step) of an integer variable of a loop"""
        if d.res in self._ctr:
            return self._ctr[d.res]
        h = self.where[d.res]
        body = self.loops[h]
        init = [(b, v) for b, v in d.x.items() if b not in body]
        back = [(b, v) for b, v in d.x.items() if b in body]
        r = None
        k = (d.res, frozenset())
        first = k not in self.busy
        if init and len({self.keyed(v) for _, v in init}) == 1 and back:
            self.busy.add(k)
            i = self.poly(init[0][1], init[0][0])
            st = [add(self.poly(v, b), atom(d.res), -1) for b, v in back]
            if first:
                self.busy.discard(k)
            if all(s == st[0] for s in st) and d.res not in atoms(st[0]) and degree(st[0], 't:' + h) <= 1 and \
                    all(a[:2] == 't:' and a[2:] == h or self.invariant(a, h) for a in atoms(st[0])):
                r = (i, st[0])
        if first and len(self.busy) <= 1:
            self._ctr[d.res] = r
        return r

    @staticmethod
    def keyed(v):
        return str(v)

    def invariant(self, a, h):
        if a[:2] == 't:':
            return h in self.loops[a[2:]] and a[2:] != h       # an outer loop
        w = self.where.get(a)
        return w is None or w not in self.loops[h]

    def test(self, h):
        """(counter, step, bound, predicate) of the condition for one more iteration"""
        t = self.fn.blocks[h].term
        if t.op != 'br' or len(t.x) != 2 or t.ops[0][0] != 'l':
            return None
        c = self.sh.defs.get(t.ops[0][1])
        if c is None or c.op != 'icmp' or c.ty[0] != 'i':
            return None
        body = self.loops[h]
        if (t.x[0] in body) == (t.x[1] in body):
            return None
        pred = c.x
        if t.x[1] in body:
            pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}.get(pred)
        a, b = self.poly(c.ops[0], h), self.poly(c.ops[1], h)
        d = add(a, b, -1)
        n = 't:' + h
        if degree(d, n) != 1:
            return None
        st = coeff(d, n, 1)
        if set(st) != {()}:
            return None
        return coeff(d, n, 0), st[()], pred

    def trip(self, h):
        """the number of iterations (when it is not negative)"""
        if h in self._trip:
            return self._trip[h]
        q = self.test(h)
        r = None
        if q is not None:
            c, s, pred = q              # goes on while  c + s*t  pred  0
            if s == 1 and pred in ('slt', 'ne'):
                r = scale(c, -1)
            elif s == 1 and pred == 'sle':
                r = add(scale(c, -1), ONE)
            elif s == -1 and pred in ('sgt', 'ne'):
                r = c
            elif s == -1 and pred == 'sge':
                r = add(c, ONE)
            elif s > 1 and pred == 'slt':
                # from N modulo s to N by s
                n = scale(c, -1)
                m = [a for a in atoms(n) if a.endswith('%%%d' % s)]
                if len(m) == 1:
                    r = atom('[%s]/%d' % (show(n), s))
                    self.multiple = getattr(self, 'multiple', {})
                    self.multiple['t:' + h] = (n, s)
        if not self.busy:
            self._trip[h] = r
        return r

    # ---------------------------------------------------------------- conditions
    def facts(self, b):
        """polynomials known to be >= 0 in block b"""
        out = []
        for d in self.dom[b]:
            t = self.fn.blocks[d].term
            if d == b or t.op != 'br' or len(t.x) != 2 or t.x[0] == t.x[1] or t.ops[0][0] != 'l':
                continue
            for n in (0, 1):
                s = t.x[n]
                if s in self.dom[b] and len(self.preds[s]) == 1:
                    c = self.sh.defs.get(t.ops[0][1])
                    if c is None or c.op != 'icmp' or c.ty[0] != 'i':
                        continue
                    # the values must still be those of the test: same iteration of every loop
                    if any(d in body and b not in body for body in self.loops.values()):
                        continue
                    pred = c.x
                    if n == 1:
                        pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}.get(pred)
                    e = add(self.poly(c.ops[0], d), self.poly(c.ops[1], d), -1)
                    if pred == 'slt':
                        out.append(add(scale(e, -1), const(-1)))
                    elif pred == 'sle':
                        out.append(scale(e, -1))
                    elif pred == 'sgt':
                        out.append(add(e, const(-1)))
                    elif pred == 'sge':
                        out.append(e)
                    elif pred == 'eq':
                        out += [e, scale(e, -1)]
        return out

    def ranges(self, b):
        """iteration counters alive in block b, innermost first: [(atom, lower bounds, upper bounds)]"""
        hs = [h for h, body in self.loops.items() if b in body]
        hs.sort(key=lambda h: len(self.loops[h]))
        facts = self.facts(b)
        out = []
        for n, h in enumerate(hs):
            a = 't:' + h
            lo, hi = [{}], []
            t = self.trip(h)
            if t is not None and b != h and (not hasattr(self, 'multiple') or a not in self.multiple):
                hi.append(add(t, const(-1)))
            outer = {'t:' + g for g in hs[n + 1:]}
            for f in facts:
                if degree(f, a) == 1:
                    c = coeff(f, a, 1)
                    if set(c) == {()} and abs(c[()]) == 1:
                        r = coeff(f, a, 0)
                        if all(x[:2] != 't:' or x in outer for x in atoms(r)):
                            if c[()] > 0:
                                lo.append(scale(r, -1))
                            else:
                                hi.append(r)
            out.append((a, lo, hi))
        return out

    # ---------------------------------------------------------------- accesses
    def address(self, o, at, depth=0):
        """(root, first element addressed as a polynomial)"""
        if o[0] != 'l' or depth > 60:
            return str(o[:2]), {}
        d = self.sh.defs.get(o[1])
        if d is None:
            return o[1], {}
        w = self.where[o[1]]
        if d.op == 'getelementptr':
            r, p = self.address(d.ops[0], w, depth + 1)
            q = self.poly(d.ops[-1], at if False else w)
            if len(d.ops) == 2:
                return r, add(p, q)
            c = self.sh.pointer(o)
            return 'm:%s+%s' % c, {}
        if d.op in ('bitcast', 'freeze'):
            return self.address(d.ops[0], w, depth + 1)
        if d.op == 'load':
            c = self.sh.pointer(d.ops[0])
            return ('m:%s+%s' % c if c[1] is not None else o[1]), {}
        if d.op == 'phi' and w in self.loops:
            body = self.loops[w]
            init = [(b, v) for b, v in d.x.items() if b not in body]
            back = [(b, v) for b, v in d.x.items() if b in body]
            if len(init) == 1 and len(back) == 1 and at in body and back[0][1][0] == 'l':
                e = self.sh.defs.get(back[0][1][1])
                if e is not None and e.op == 'getelementptr' and e.ops[0] == ('l', d.res) and len(e.ops) == 2 and \
                        e.ops[1][0] == 'k':
                    r, p = self.address(init[0][1], init[0][0], depth + 1)
                    return r, add(p, scale(atom('t:' + w), e.ops[1][2]))
            return o[1], {}
        if d.op in ('phi', 'select'):
            v = [self.address(x, b, depth + 1) for b, x in d.x.items()] if d.op == 'phi' else \
                [self.address(x, w, depth + 1) for x in d.ops[1:]]
            if all(x == v[0] for x in v[1:]):
                return v[0]
        return o[1], {}

    def accesses(self, kinds='f'):
        """(instruction, block, address operand, is it a store?)"""
        for b in self.order:
            for i in self.fn.blocks[b].ins:
                if i.op == 'load' and i.ty[0] in kinds:
                    yield i, b, i.ops[0], False
                elif i.op == 'store' and i.ty[0] in kinds:
                    yield i, b, i.ops[1], True


class Order:
    """comparison of polynomials of the sizes; given: atom -> polynomial with non-negative atoms (its least values)"""

    def __init__(self, given):
        self.given = given

    def shift(self, p):
        for a, q in self.given:
            p = subst(p, a, q)
        return p

    def plain(self, p):
        """p >= 0 for all sizes"""
        p = self.shift(p)
        return all(v >= 0 for v in p.values()) and all(a[-1:] == "'" for a in atoms(p))

    def decided(self, p):
        return all(a[-1:] == "'" for a in atoms(self.shift(p)))

    def nonneg(self, p, rng, depth=0):
        """p >= 0 for all the iterations"""
        for n, (a, lo, hi) in enumerate(rng):
            g = degree(p, a)
            if g == 0:
                continue
            rest = rng[n + 1:]
            if g == 1:
                c = coeff(p, a, 1)
                if self.nonneg(c, rest, depth + 1):
                    return any(self.nonneg(subst(p, a, l), rest, depth + 1) for l in lo)
                if self.nonneg(scale(c, -1), rest, depth + 1):
                    return any(self.nonneg(subst(p, a, h), rest, depth + 1) for h in hi)
                return False
            if g == 2:
                c2 = coeff(p, a, 2)
                if self.nonneg(scale(c2, -1), rest, depth + 1):
                    # concave: smallest at the ends
                    return any(self.nonneg(subst(p, a, l), rest, depth + 1) for l in lo) and \
                        any(self.nonneg(subst(p, a, h), rest, depth + 1) for h in hi)
                if self.nonneg(c2, rest, depth + 1):
                    # convex: growing from the lower end when the derivative is not negative there
                    c1 = coeff(p, a, 1)
                    for l in lo:
                        if self.nonneg(add(c1, scale(mul(c2, l), 2)), rest, depth + 1) and \
                                self.nonneg(subst(p, a, l), rest, depth + 1):
                            return True
                    for h in hi:
                        if self.nonneg(scale(add(c1, scale(mul(c2, h), 2)), -1), rest, depth + 1) and \
                                self.nonneg(subst(p, a, h), rest, depth + 1):
                            return True
                return False
            return False
        return self.plain(p)

    def extreme(self, p, rng, largest):
        """candidates for the largest (smallest) value as a polynomial of the sizes"""
        for n, (a, lo, hi) in enumerate(rng):
            g = degree(p, a)
            if g == 0:
                continue
            rest = rng[n + 1:]
            c = coeff(p, a, 1)
            if g == 2:
                c2 = coeff(p, a, 2)
                if not self.nonneg(c2, rest):
                    return []
                # convex with a derivative >= 0 from 0
                if not self.nonneg(add(c, c2), rest):
                    return []
                up = True
            elif g == 1:
                if self.nonneg(c, rest):
                    up = True
                elif self.nonneg(scale(c, -1), rest):
                    up = False
                else:
                    return []
            else:
                return []
            out = []
            for e in (hi if up == largest else lo):
                out += self.extreme(subst(p, a, e), rest, largest)
            return out
        return [p]
