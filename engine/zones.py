"""Forward data flow over one function (static helpers inlined): counters.

An event counter E (calls of a function pointer so far), a limit M (a value that is at least 1) and every integer of
the function as intervals relative to 0, E, M and M-E.  States are partitioned by the exact distance of the relevant
counters to E, by pending conditions and by the status value, and joined otherwise (with widening).
"""
from collections import defaultdict
from .absint import liveness

INF = float('inf')
TOP = (-INF, INF)
BASES = ('0', 'E', 'M', 'R')           # R = M - E
ANY = (TOP, TOP, TOP, TOP)


def hull(a, b):
    return (a[0] if a[0] <= b[0] else b[0], a[1] if a[1] >= b[1] else b[1])


def meet(a, b):
    return (a[0] if a[0] >= b[0] else b[0], a[1] if a[1] <= b[1] else b[1])


def plus(a, b):
    return (a[0] + b[0], a[1] + b[1])


STEPS = (2, 1, 0, -1, -2)


def widen(x, h):
    """from x to the larger h, by large steps"""
    lo, hi = h
    if lo < x[0]:
        lo = next((k for k in STEPS if k <= lo), -INF)
    if hi > x[1]:
        hi = next((k for k in reversed(STEPS) if k >= hi), INF)
    return (lo, hi)


def neg(a):
    return (-a[1], -a[0])


class Infeasible(Exception):
    pass


class Shape:
    """what is common to the analyses of a function: definitions, pointers, order of the blocks"""

    def __init__(self, fn):
        self.fn = fn
        self.defs = {}
        for b in fn.blocks.values():
            for i in b.phis + b.ins:
                if i.res:
                    self.defs[i.res] = i
        liveness(fn)
        self.params = {p[1]: n for n, p in enumerate(fn.params)}
        self._ptr = {}
        seen, out = set(), []
        stack = [(fn.order[0], iter(fn.blocks[fn.order[0]].succ))]
        seen.add(fn.order[0])
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(fn.blocks[s].succ)))
                    break
            else:
                out.append(n)
                stack.pop()
        self.rpo = {b: i for i, b in enumerate(reversed(out))}

    def pointer(self, op):
        """(root, constant byte offset or None) of an address"""
        if op[0] == 'cegep':
            return self._gep(op[2][0][1], op[1], [v for _, v in op[2][1:]])
        if op[0] != 'l':
            return (op[:2] if op[0] == 'g' else ('?',), 0)
        r = self._ptr.get(op[1])
        if r is None:
            d = self.defs.get(op[1])
            if d is not None and d.op == 'getelementptr':
                r = self._gep(d.ops[0], d.x[0], d.ops[1:])
            elif d is not None and d.op in ('bitcast', 'freeze'):
                r = self.pointer(d.ops[0])
            else:
                r = (op[1], 0)
            self._ptr[op[1]] = r
        return r

    def _gep(self, base, bt, idx):
        root, off = self.pointer(base)
        if off is None or any(i[0] != 'k' for i in idx):
            return (root, None)
        m = self.fn.mod
        off += idx[0][2] * m.size(bt)
        ty = m.resolve(bt)
        for i in idx[1:]:
            if ty[0] == 's':
                off += m.layout(ty)[2][i[2]]
                ty = m.resolve(ty[1][i[2]])
            else:
                off += i[2] * m.size(ty[2])
                ty = m.resolve(ty[2])
        return (root, off)


def scalar(v):
    return v[0] == 'k' and v[1][0] == 'i'


class ZState:
    __slots__ = ('b', 'v', 'c', 'bo')

    def __init__(self):
        self.b = {'E': (0, 0), 'M': (1, INF), 'R': (1, INF)}
        self.v = {}                 # integer -> (relative to 0, E, M, R)
        self.c = {}                 # memory cell -> same
        self.bo = {}                # boolean -> True/False/('icmp', instruction)

    def copy(self):
        s = ZState()
        s.b = dict(self.b)
        s.v = dict(self.v)
        s.c = dict(self.c)
        s.bo = dict(self.bo)
        return s

    def eq(self, o):
        return self.b == o.b and self.v == o.v and self.c == o.c and self.bo == o.bo

    def close(self):
        b = self.b
        e, m, r = b['E'], b['M'], b['R']
        for _ in range(2):
            r = meet(r, plus(m, neg(e)))
            e = meet(e, plus(m, neg(r)))
            m = meet(m, plus(r, e))
        for x in (e, m, r):
            if x[0] > x[1]:
                raise Infeasible()
        b['E'], b['M'], b['R'] = e, m, r

    def norm(self, q):
        """tighten the description of a value with the bounds of the bases"""
        z, e, m, r = q
        b = self.b
        for _ in range(2):
            z = meet(z, plus(e, b['E']))
            z = meet(z, plus(m, b['M']))
            z = meet(z, plus(r, b['R']))
            e = meet(e, plus(z, neg(b['E'])))
            m = meet(m, plus(z, neg(b['M'])))
            r = meet(r, plus(z, neg(b['R'])))
            e = meet(e, plus(m, b['R']))            # v-E = v-M + R
            m = meet(m, plus(e, neg(b['R'])))
        for x in (z, e, m, r):
            if x[0] > x[1]:
                raise Infeasible()
        return (z, e, m, r)

    def const(self, k):
        return self.norm(((k, k), TOP, TOP, TOP))

    def learn(self, q):
        """bounds of the bases from a value"""
        z, e, m, r = q
        b = self.b
        b['E'] = meet(b['E'], plus(z, neg(e)))
        b['M'] = meet(b['M'], plus(z, neg(m)))
        b['R'] = meet(b['R'], plus(z, neg(r)))
        b['R'] = meet(b['R'], plus(e, neg(m)))      # M-E = (v-E) - (v-M)
        self.close()


class Counters:
    """config: limit: test(shape, operand) -> is it the limit; event: test(shape, call); entry: list of ZState;
    watch: cells whose value matters; nonnull: parameters assumed not NULL"""

    def __init__(self, fn, limit, event, entry, watch=(), nonnull=(), status=(), given=None, shape=None):
        self.fn = fn
        self.sh = shape or Shape(fn)
        self.limit, self.event = limit, event
        self.watch, self.nonnull = set(watch), set(nonnull)
        self.status = set(status)
        self.given = given or {}
        self.returns = []
        self.calls = []             # (instruction, R bounds, state)
        self.steps = 0
        self.slice()
        self.solve(entry)

    # -------------------------------------------------------------- relevant values
    def aslim(self, op, depth=0):
        """the limit, or the largest (smallest) of the limit and something"""
        if self.islim(op):
            return True
        d = self.sh.defs.get(op[1]) if op[0] == 'l' else None
        if d is None or depth > 4:
            return False
        if d.op == 'phi':
            return any(self.aslim(v, depth + 1) for v in d.x.values())
        if d.op == 'select':
            return any(self.aslim(v, depth + 1) for v in d.ops[1:])
        if d.op in ('sext', 'zext', 'trunc', 'freeze', 'add', 'sub'):
            return any(self.aslim(v, depth + 1) for v in d.ops)
        return False

    def islim(self, op):
        """a value that is the limit, possibly converted"""
        while op[0] == 'l':
            if self.limit(self.sh, op):
                return True
            d = self.sh.defs.get(op[1])
            if d is None or d.op not in ('sext', 'zext', 'trunc', 'freeze'):
                return False
            op = d.ops[0]
        return False

    def slice(self):
        sh = self.sh
        rel, cells = set(), set(self.watch)
        work = []

        def addv(op):
            if op[0] == 'l' and op[1] not in rel and not self.islim(op):
                rel.add(op[1])
                work.append(op[1])
        stores = defaultdict(list)
        for b in self.fn.blocks.values():
            for i in b.ins:
                if i.op == 'icmp':
                    for x, y in ((0, 1), (1, 0)):
                        if self.aslim(i.ops[x]):
                            addv(i.ops[y])
                elif i.op in ('add', 'sub') and any(self.islim(o) for o in i.ops):
                    for o in i.ops:
                        addv(o)
                elif i.op == 'store' and i.ty[0] == 'i':
                    stores[sh.pointer(i.ops[1])].append(i.ops[0])
        for c in list(cells):
            for v in stores[c]:
                addv(v)
        while work:
            r = work.pop()
            d = sh.defs.get(r)
            if d is None:
                continue
            if d.op == 'phi':
                for v in d.x.values():
                    addv(v)
            elif d.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'freeze', 'select'):
                for v in d.ops[1 if d.op == 'select' else 0:]:
                    addv(v)
            elif d.op == 'load':
                p = sh.pointer(d.ops[0])
                if p[1] is not None and p not in cells:
                    cells.add(p)
                    for v in stores[p]:
                        addv(v)
        # the status: constants only
        st, work = set(), []
        for b in self.fn.blocks.values():
            if b.term.op == 'ret' and b.term.ops and b.term.ops[0][0] == 'l':
                work.append(b.term.ops[0][1])
        for p in self.status:
            work += [v[1] for v in stores[p] if v[0] == 'l']
        while work:
            r = work.pop()
            d = sh.defs.get(r)
            if r in st or d is None:
                continue
            st.add(r)
            if d.op == 'phi':
                work += [v[1] for v in d.x.values() if v[0] == 'l']
            elif d.op == 'select':
                work += [v[1] for v in d.ops[1:] if v[0] == 'l']
            elif d.op == 'load':
                p = sh.pointer(d.ops[0])
                if p[1] is not None and p not in self.status:
                    self.status.add(p)
                    work += [v[1] for v in stores[p] if v[0] == 'l']
        self.rel, self.cells, self.ret = rel, cells, st
        self.track = {i.res for b in self.fn.blocks.values() for i in b.phis + b.ins if i.res}

    def key(self, s, blk):
        def single(q, z=True):
            e = q[1]
            if e[0] == e[1] and abs(e[0]) <= 1:
                return ('E', e[0])
            if z and q[0][0] == q[0][1] and abs(q[0][0]) <= 1:
                return ('0', q[0][0])
            return None
        live = blk.live
        k = [(v, single(s.v[v])) for v in self.rel if v in live and v in s.v]
        k += [(c, single(s.c[c])) for c in self.cells if c in s.c]
        k += [(v, s.v[v][0]) for v in self.ret if v in live and v in s.v and s.v[v][0][0] == s.v[v][0][1]]
        k += [(c, s.c[c][0]) for c in self.status if c in s.c]
        k += [(v, x if not isinstance(x, tuple) else x[1].res) for v, x in s.bo.items() if v in live]
        e = s.b['E']
        k.append(('E', e[0] == e[1] == 0))
        return frozenset(k)

    # -------------------------------------------------------------- fixpoint
    def solve(self, entry):
        import heapq
        rpo = self.sh.rpo
        self.inn = defaultdict(dict)
        self.count = defaultdict(int)
        heap, inq = [], set()

        def push(b):
            if b not in inq:
                inq.add(b)
                heapq.heappush(heap, (rpo[b], b))
        b0 = self.fn.order[0]
        for s in entry:
            self.absorb(b0, s)
        push(b0)
        dirty = {}
        self.done = defaultdict(dict)
        while heap:
            _, b = heapq.heappop(heap)
            inq.discard(b)
            for k, s in list(self.inn[b].items()):
                o = self.done[b].get(k)
                if o is s:
                    continue
                self.done[b][k] = s
                for t, r in self.block(b, s, False):
                    if self.absorb(t, r):
                        push(t)
            self.steps += len(self.fn.blocks[b].ins)
            if self.steps > 3000000:
                raise KeyError('counter analysis of %s does not end' % self.fn.name)
        # observations on the stable states
        for b in self.inn:
            for s in self.inn[b].values():
                list(self.block(b, s, True))

    def absorb(self, b, s):
        blk = self.fn.blocks[b]
        live = blk.live
        s.v = {k: q for k, q in s.v.items() if k in live and q != ANY}
        s.bo = {k: q for k, q in s.bo.items() if k in live}
        k = self.key(s, blk)
        old = self.inn[b].get(k)
        if old is None:
            if len(self.inn[b]) > 400:
                raise KeyError('too many partitions at %s of %s' % (b, self.fn.name))
            self.inn[b][k] = s
            return True
        n = ZState()
        self.count[b, k] += 1
        wide = self.count[b, k] > 4

        def j(x, y):
            h = hull(x, y)
            return widen(x, h) if wide else h
        n.b = {z: j(old.b[z], s.b[z]) for z in old.b}
        n.b['E'] = meet(n.b['E'], (0, INF))
        n.b['M'] = meet(n.b['M'], (1, INF))
        n.v = {v: tuple(j(x, y) for x, y in zip(q, s.v[v])) for v, q in old.v.items() if v in s.v}
        n.c = {v: tuple(j(x, y) for x, y in zip(q, s.c[v])) for v, q in old.c.items() if v in s.c}
        n.bo = {v: x for v, x in old.bo.items() if s.bo.get(v) == x}
        if n.eq(old):
            return False
        self.inn[b][k] = n
        return True

    # -------------------------------------------------------------- transfer
    def get(self, s, op):
        if op[0] == 'k' and op[1][0] == 'i':
            return s.const(op[2])
        if op[0] in ('zero',):
            return s.const(0)
        if op[0] == 'l':
            if self.limit(self.sh, op):
                return s.norm((TOP, TOP, (-INF, 0), TOP))
            q = s.v.get(op[1])
            if q is None:
                q = self.given.get(op[1])
                q = (q, TOP, TOP, TOP) if q else ANY
            return s.norm(q)
        return ANY

    def block(self, name, s0, final):
        blk = self.fn.blocks[name]
        s = s0.copy()
        try:
            for i in blk.ins:
                self.ins(s, i, final)
        except Infeasible:
            return
        t = blk.term
        if t.op == 'ret':
            if final:
                self.returns.append((t, s, self.get(s, t.ops[0])[0] if t.ops else None))
            return
        if t.op == 'br':
            if len(t.x) == 1 or t.x[0] == t.x[1]:
                yield from self.edge(s, name, t.x[0])
                return
            for truth, tgt in ((True, t.x[0]), (False, t.x[1])):
                r = s.copy()
                try:
                    self.assume(r, t.ops[0], truth)
                except Infeasible:
                    continue
                yield from self.edge(r, name, tgt)
            return
        if t.op == 'switch':
            q = self.get(s, t.ops[0])
            for k, tgt in t.x[1]:
                if q[0][0] <= k <= q[0][1]:
                    r = s.copy()
                    if t.ops[0][0] == 'l':
                        try:
                            n = r.norm((meet(q[0], (k, k)),) + q[1:])
                            r.v[t.ops[0][1]] = n
                            r.learn(n)
                        except Infeasible:
                            continue
                    yield from self.edge(r, name, tgt)
            yield from self.edge(s.copy(), name, t.x[0])

    def edge(self, s, frm, to):
        blk = self.fn.blocks[to]
        new, nb = {}, {}
        try:
            for p in blk.phis:
                v = p.x[frm]
                if p.ty == ('i', 1):
                    x = self.bval(s, v)
                    if x is not None:
                        nb[p.res] = x
                elif p.ty[0] == 'i' and p.res in self.track:
                    new[p.res] = self.get(s, v)
        except Infeasible:
            return
        for p in blk.phis:
            s.v.pop(p.res, None)
            s.bo.pop(p.res, None)
        self.forget(s, {p.res for p in blk.phis})
        s.v.update(new)
        s.bo.update(nb)
        yield to, s

    @staticmethod
    def forget(s, names):
        """pending conditions on values that are defined anew"""
        for k, x in list(s.bo.items()):
            if isinstance(x, tuple) and any(o[0] == 'l' and o[1] in names for o in x[1].ops):
                del s.bo[k]

    def bval(self, s, op):
        if op[0] == 'k':
            return bool(op[2])
        if op[0] == 'l':
            x = s.bo.get(op[1])
            if x is not None:
                return x
            d = self.sh.defs.get(op[1])
            if d is not None and d.op == 'icmp':
                return ('icmp', d)
        return None

    def assume(self, s, op, truth):
        x = self.bval(s, op)
        if isinstance(x, bool):
            if x != truth:
                raise Infeasible()
            return
        if x is not None:
            self.cmp(s, x[1], truth)
            return
        if op[0] != 'l':
            return
        d = self.sh.defs.get(op[1])
        if d is None:
            return
        if d.op == 'xor' and d.ops[1][0] == 'k' and d.ops[1][2] in (1, -1):
            self.assume(s, d.ops[0], not truth)
        elif d.op == 'and' and truth or d.op == 'or' and not truth:
            self.assume(s, d.ops[0], truth)
            self.assume(s, d.ops[1], truth)
        elif d.op == 'select':
            # a && b is select(a,b,false), a || b is select(a,true,b)
            if truth and d.ops[2][0] == 'k' and not d.ops[2][2]:
                self.assume(s, d.ops[0], True)
                self.assume(s, d.ops[1], True)
            elif not truth and d.ops[1][0] == 'k' and d.ops[1][2]:
                self.assume(s, d.ops[0], False)
                self.assume(s, d.ops[2], False)

    def cmp(self, s, i, truth):
        x, y = i.ops
        if i.ty[0] == 'p' or x[0] in ('null', 'g') or y[0] in ('null', 'g'):
            for a, b in ((x, y), (y, x)):
                if b[0] == 'null' and a[0] == 'l' and self.sh.pointer(a)[0] in self.nonnull:
                    if (i.x == 'eq') == truth:
                        raise Infeasible()
            return
        # (zext of a boolean) compared with zero
        if y[0] == 'k' and y[2] == 0 and x[0] == 'l' and i.x in ('eq', 'ne'):
            d = self.sh.defs.get(x[1])
            while d is not None and d.op in ('zext', 'sext') and d.x != ('i', 1) and d.ops[0][0] == 'l':
                d = self.sh.defs.get(d.ops[0][1])
            if d is not None and d.op in ('zext', 'sext') and d.x == ('i', 1):
                self.assume(s, d.ops[0], truth == (i.x == 'ne'))
                return
        pred = i.x
        if not truth:
            pred = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge',
                    'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pred]
        if pred[0] == 'u' and pred != 'une':
            return
        if pred in ('sgt', 'sge'):
            x, y, pred = y, x, {'sgt': 'slt', 'sge': 'sle'}[pred]
        q, r = self.get(s, x), self.get(s, y)
        lim_x, lim_y = self.islim(x), self.islim(y)
        if pred == 'ne':
            d = self.dist(q, r)
            if d == (0, 0):
                raise Infeasible()
            # x != c at an end of the range
            for a, b, qa, qb in ((x, y, q, r), (y, x, r, q)):
                if qb[0][0] == qb[0][1] and a[0] == 'l' and not self.limit(self.sh, a):
                    k = qb[0][0]
                    z = qa[0]
                    if z[0] == k:
                        z = (k + 1, z[1])
                    if z[1] == k:
                        z = (z[0], k - 1)
                    if z[0] > z[1]:
                        raise Infeasible()
                    if z != qa[0]:
                        self.put(s, a, (z,) + qa[1:])
            # exact distances: a counter that differs from another one
            d2 = None
            if d[0] == 0 or d[1] == 0:
                lo, hi = (1, INF) if d[0] == 0 else (-INF, -1)
                self.between(s, x, y, q, r, lo, hi)
            return
        lo, hi = {'eq': (0, 0), 'slt': (-INF, -1), 'sle': (-INF, 0)}[pred]
        self.between(s, x, y, q, r, lo, hi)

    def dist(self, q, r):
        """interval of q - r"""
        d = TOP
        for a, b in zip(q, r):
            d = meet(d, plus(a, neg(b)))
        return d

    def between(self, s, x, y, q, r, lo, hi):
        """x - y in [lo, hi]"""
        d = meet(self.dist(q, r), (lo, hi))
        if d[0] > d[1]:
            raise Infeasible()
        nq = tuple(meet(a, plus(b, d)) for a, b in zip(q, r))
        nr = tuple(meet(b, plus(a, neg(d))) for a, b in zip(q, r))
        # X + (x-X) - Y - (y-Y) in d   =>  X - Y in d - (x-X) + (y-Y)
        rel = {}
        for n, a in enumerate(nq):
            for m, b in enumerate(nr):
                if n != m:
                    rel[BASES[n], BASES[m]] = plus(plus(d, neg(a)), b)
        for k in (('E', '0'), ('M', '0'), ('R', '0')):
            for iv in (rel[k], neg(rel[k[1], k[0]])):
                s.b[k[0]] = meet(s.b[k[0]], iv)
        for iv in (rel['M', 'E'], neg(rel['E', 'M'])):
            s.b['R'] = meet(s.b['R'], iv)
        for iv in (rel['M', 'R'], neg(rel['R', 'M'])):
            s.b['E'] = meet(s.b['E'], iv)
        s.close()
        self.put(s, x, nq)
        self.put(s, y, nr)

    def put(self, s, op, q):
        q = s.norm(q)
        s.learn(q)
        if op[0] == 'l' and op[1] in self.track and not self.limit(self.sh, op):
            s.v[op[1]] = q
            d = self.sh.defs.get(op[1])
            if d is not None and d.op in ('sext', 'zext', 'trunc', 'freeze') and d.ops[0][0] == 'l':
                self.put(s, d.ops[0], q)

    def ins(self, s, i, final):
        op = i.op
        if op == 'call':
            if self.event(self.sh, i):
                if final:
                    self.calls.append((i, s.b['R'], s.copy()))
                one = (1, 1)
                s.b['E'] = plus(s.b['E'], one)
                s.b['R'] = plus(s.b['R'], (-1, -1))
                for d in (s.v, s.c):
                    for k, q in d.items():
                        d[k] = (q[0], plus(q[1], (-1, -1)), q[2], plus(q[3], one))
            if i.res:
                s.v.pop(i.res, None)
            return
        if op == 'store':
            if i.ty[0] != 'i':
                return
            p = self.sh.pointer(i.ops[1])
            if p[1] is None:
                for k in [k for k in s.c if k[0] == p[0]]:
                    del s.c[k]
            else:
                for k in [k for k in s.c if k[0] == p[0] and k != p and abs(k[1] - p[1]) < 8]:
                    del s.c[k]
                if p in self.cells or p in self.status:
                    s.c[p] = self.get(s, i.ops[0])
                else:
                    s.c.pop(p, None)
            return
        if i.res is None:
            return
        if s.bo:
            self.forget(s, (i.res,))
        if op == 'icmp':
            s.bo.pop(i.res, None)
            if not any(o[0] == 'l' and o[1] in self.track for o in i.ops):
                return
            q, r = self.get(s, i.ops[0]), self.get(s, i.ops[1])
            d = self.dist(q, r)
            t = None
            if i.ty[0] == 'i':
                t = {'eq': True if d == (0, 0) else False if d[0] > 0 or d[1] < 0 else None,
                     'ne': False if d == (0, 0) else True if d[0] > 0 or d[1] < 0 else None,
                     'slt': True if d[1] < 0 else False if d[0] >= 0 else None,
                     'sle': True if d[1] <= 0 else False if d[0] > 0 else None,
                     'sgt': True if d[0] > 0 else False if d[1] <= 0 else None,
                     'sge': True if d[0] >= 0 else False if d[1] < 0 else None}.get(i.x)
            if t is not None:
                s.bo[i.res] = t
            return
        if i.ty[0] != 'i' or i.ty == ('i', 1) or i.res not in self.track:
            return
        q = ANY
        if op == 'add' or op == 'sub':
            a, b = self.get(s, i.ops[0]), self.get(s, i.ops[1])
            if op == 'add':
                z = plus(a[0], b[0])
                q = (z,) + tuple(meet(plus(x, b[0]), plus(y, a[0])) for x, y in zip(a[1:], b[1:]))
            else:
                q = (plus(a[0], neg(b[0])),) + tuple(plus(x, neg(b[0])) for x in a[1:])
                q = (meet(q[0], self.dist(a, b)),) + q[1:]
                # limit - counter
                if self.islim(i.ops[0]) and b[1] != TOP:
                    q = q[:3] + (meet(q[3], (-INF, -b[1][0])),)
            q = s.norm(q)
        elif op in ('sext', 'zext', 'trunc', 'freeze'):
            if op == 'zext' and i.x == ('i', 1):
                q = s.norm(((0, 1), TOP, TOP, TOP))
            else:
                q = self.get(s, i.ops[0])
        elif op == 'load':
            p = self.sh.pointer(i.ops[0])
            if p[1] is not None:
                q = s.c.get(p, ANY)
        elif op == 'select':
            a, b = self.get(s, i.ops[1]), self.get(s, i.ops[2])
            q = tuple(hull(x, y) for x, y in zip(a, b))
        elif op == 'mul' and i.ops[1][0] == 'k' and i.ops[1][2] == -1:
            q = (neg(self.get(s, i.ops[0])[0]), TOP, TOP, TOP)
        if q == ANY:
            s.v.pop(i.res, None)
        else:
            s.v[i.res] = q
