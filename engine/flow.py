"""Cheap whole-program data flow over the IR: interprocedural conditional interval propagation, pointer flow of globals."""
from collections import defaultdict

INF = float('inf')
TOP = (-INF, INF)
PURE = {'sqrt', 'sqrtf', 'fabs', 'fabsf', 'pow', 'powf', 'exp', 'log', 'cos', 'sin', 'tan', 'floor', 'ceil', 'fmin',
        'fmax', 'hypot', 'atan2', 'atan', 'acos', 'asin', 'cbrt', 'log10', 'fmod', 'nan', 'nextafter', 'ldexp'}


def hull(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return (min(a[0], b[0]), max(a[1], b[1]))


class Intervals:
    """integers of the program as intervals, blocks reachable under them.  `entry`: {function: {argument index: interval}}
    (missing arguments: anything).  Fields of structures are summarised over the whole program."""

    def __init__(self, prog, entry):
        self.prog = prog
        self.val = {}              # (fn, res) -> interval
        self.args = {}             # fn -> [interval]
        self.ret = {}
        self.fields = {}           # (struct, offset) -> interval of everything stored
        self.field_readers = defaultdict(set)
        self.reach = set()         # (fn, block name)
        self.edges = set()
        self.callers = defaultdict(set)
        self.work = []
        self.count = defaultdict(int)
        self.gepof = {}
        for m in prog.modules:
            for f in m.functions.values():
                for b in f.blocks.values():
                    for i in b.ins:
                        if i.op == 'getelementptr':
                            self.gepof[f, i.res] = i
        self.inq = set()
        for f, kw in entry.items():
            self.enter(f, [kw.get(i, TOP) for i in range(len(f.params))])
        while self.work:
            f = self.work.pop()
            self.inq.discard(f)
            self.fn(f)

    def push(self, f):
        if f not in self.inq:
            self.inq.add(f)
            self.work.append(f)

    def enter(self, f, args):
        old = self.args.get(f)
        new = args if old is None else [hull(a, b) for a, b in zip(old, args)]
        if old is None or new != old:
            self.count[f] += 1
            if self.count[f] > 6 and old is not None:
                new = [(o[0] if n[0] == o[0] else -INF, o[1] if n[1] == o[1] else INF) for o, n in zip(old, new)]
            self.args[f] = new
            self.push(f)

    def field(self, f, op):
        """(structure, offset) of an address, or None"""
        if op[0] == 'l':
            g = self.gepof.get((f, op[1]))
            if g is None:
                return None
            bt, tys = g.x
            idx = g.ops[1:]
            base = g.ops[0]
        elif op[0] == 'cegep':
            bt, idx = op[1], [v for _, v in op[2][1:]]
            base = op[2][0][1]
        else:
            return None
        if bt[0] != 'n' or len(idx) < 2 or any(i[0] != 'k' for i in idx[1:]):
            if bt == ('i', 8) and len(idx) == 1 and idx[0][0] == 'k':
                return None
            return None
        off = 0
        ty = f.mod.resolve(bt)
        for i in idx[1:]:
            if ty[0] == 's':
                off += f.mod.layout(ty)[2][i[2]]
                ty = f.mod.resolve(ty[1][i[2]])
            elif ty[0] == 'a':
                off += i[2] * f.mod.size(ty[2])
                ty = f.mod.resolve(ty[2])
        return (bt[1], off)

    def get(self, f, op, ty=None):
        k = op[0]
        if k == 'k' and op[1][0] == 'i':
            return (op[2], op[2])
        if k == 'l':
            ps = getattr(f, '_pidx', None)
            if ps is None:
                ps = f._pidx = {p[1] if isinstance(p, tuple) else p: n for n, p in enumerate(f.params)}
            if op[1] in ps:
                return self.args[f][ps[op[1]]]
            return self.val.get((f, op[1]))
        if k == 'null' or k == 'zero':
            return (0, 0)
        return TOP

    def set(self, f, res, v, dirty):
        if res is None or v is None:
            return
        old = self.val.get((f, res))
        new = hull(old, v)
        if new != old:
            n = self.count[f, res] = self.count[f, res] + 1
            if n > 4 and old is not None:
                new = (old[0] if new[0] == old[0] else (0 if new[0] >= 0 else -INF),
                       old[1] if new[1] == old[1] else (0 if new[1] <= 0 else INF))
            self.val[f, res] = new
            dirty[0] = True

    def fn(self, f):
        if not f.order:
            return
        entry = f.order[0]
        self.reach.add((f, entry))
        dirty = [True]
        while dirty[0]:
            dirty[0] = False
            for bn in f.order:
                if (f, bn) in self.reach:
                    self.blk(f, f.blocks[bn], dirty)

    def goto(self, f, b, t, dirty):
        if (f, b, t) not in self.edges:
            self.edges.add((f, b, t))
            dirty[0] = True
        if (f, t) not in self.reach:
            self.reach.add((f, t))
            dirty[0] = True

    def blk(self, f, b, dirty):
        for p in b.phis:
            v = None
            for pred, op in p.x.items():
                if (f, pred, b.name) in self.edges:
                    v = hull(v, self.get(f, op))
            self.set(f, p.res, v, dirty)
        for i in b.ins:
            self.ins(f, i, dirty)
        t = b.term
        if t.op == 'br':
            if not t.ops:
                self.goto(f, b.name, t.x[0], dirty)
            else:
                c = self.get(f, t.ops[0])
                if c is None:
                    return
                if c[1] != 0:
                    self.goto(f, b.name, t.x[0], dirty)
                if c[0] <= 0 <= c[1]:
                    self.goto(f, b.name, t.x[1], dirty)
        elif t.op == 'switch':
            c = self.get(f, t.ops[0])
            if c is None:
                return
            d, cases = t.x
            for k, tgt in cases:
                if c[0] <= k <= c[1]:
                    self.goto(f, b.name, tgt, dirty)
            if not (c[0] == c[1] and any(k == c[0] for k, _ in cases)):
                self.goto(f, b.name, d, dirty)
        elif t.op == 'ret' and t.ops:
            v = self.get(f, t.ops[0])
            new = hull(self.ret.get(f), v)
            if new != self.ret.get(f):
                n = self.count['ret', f] = self.count['ret', f] + 1
                self.ret[f] = TOP if n > 6 else new
                for g in self.callers[f]:
                    self.push(g)

    def ins(self, f, i, dirty):
        op = i.op
        if op in ('store',):
            fd = self.field(f, i.ops[1])
            if fd:
                v = self.get(f, i.ops[0]) if i.ty[0] == 'i' else TOP
                if v is None:
                    return
                new = hull(self.fields.get(fd), v)
                if new != self.fields.get(fd):
                    n = self.count[fd] = self.count[fd] + 1
                    if n > 4 and fd in self.fields:
                        o = self.fields[fd]
                        new = (o[0] if new[0] == o[0] else (0 if new[0] >= 0 else -INF),
                               o[1] if new[1] == o[1] else INF)
                    self.fields[fd] = new
                    for g in self.field_readers[fd]:
                        self.push(g)
            return
        if op == 'call':
            return self.call(f, i, dirty)
        if i.res is None:
            return
        if op == 'load':
            fd = self.field(f, i.ops[0])
            if fd and i.ty[0] == 'i':
                self.field_readers[fd].add(f)
                self.set(f, i.res, hull(self.fields.get(fd), (0, 0)), dirty)     # zeroed memory
            else:
                self.set(f, i.res, TOP, dirty)
            return
        a = [self.get(f, o) for o in i.ops]
        if op in ('add', 'sub', 'mul', 'icmp', 'select', 'trunc', 'zext', 'sext', 'xor', 'and', 'or', 'freeze') and \
                any(x is None for x in a):
            return
        v = TOP
        if op == 'add':
            v = (a[0][0] + a[1][0], a[0][1] + a[1][1])
        elif op == 'sub':
            v = (a[0][0] - a[1][1], a[0][1] - a[1][0])
        elif op == 'mul' and all(abs(x) < INF for y in a for x in y):
            c = [x * y for x in a[0] for y in a[1]]
            v = (min(c), max(c))
        elif op in ('zext', 'sext', 'freeze', 'trunc'):
            v = a[0]
            if op == 'zext' and v[0] < 0:
                v = (0, 1) if i.x == ('i', 1) else (0, INF)
            if op == 'trunc' and i.ty == ('i', 1) and not (v[0] == v[1] and v[0] in (0, 1)):
                v = (0, 1)
        elif op == 'select':
            c = a[0]
            v = hull(a[1] if c[1] else None, a[2] if c[0] <= 0 else None)
        elif op in ('xor', 'and', 'or') and i.ty == ('i', 1):
            if a[0][0] == a[0][1] and a[1][0] == a[1][1]:
                x, y = a[0][0], a[1][0]
                r = {'xor': x ^ y, 'and': x & y, 'or': x | y}[op]
                v = (r, r)
            elif op == 'and' and ((0, 0) in a):
                v = (0, 0)
            elif op == 'or' and ((1, 1) in a):
                v = (1, 1)
            else:
                v = (0, 1)
        elif op == 'and' and a[0][0] == a[0][1] and a[1][0] == a[1][1]:
            v = (a[0][0] & a[1][0],) * 2
        elif op == 'icmp':
            v = self.icmp(i.x, i.ty, a[0], a[1])
        elif op == 'fcmp':
            v = (0, 1)
        self.set(f, i.res, v, dirty)

    @staticmethod
    def icmp(pred, ty, x, y):
        if ty[0] == 'p':
            return (0, 1)
        if pred[0] == 'u' and (x[0] < 0 or y[0] < 0):
            return (0, 1)
        p = pred[-2:] if pred[0] in 'us' else pred
        if p == 'eq' or p == 'ne':
            if x[1] < y[0] or y[1] < x[0]:
                r = 0
            elif x[0] == x[1] == y[0] == y[1]:
                r = 1
            else:
                return (0, 1)
            return (r, r) if p == 'eq' else (1 - r, 1 - r)
        if p in ('gt', 'ge'):
            x, y = y, x
            p = {'gt': 'lt', 'ge': 'le'}[p]
        if p == 'lt':
            return (1, 1) if x[1] < y[0] else (0, 0) if x[0] >= y[1] else (0, 1)
        return (1, 1) if x[1] <= y[0] else (0, 0) if x[0] > y[1] else (0, 1)

    def call(self, f, i, dirty):
        callee = i.x[0]
        g = self.prog.func(callee[1], f.mod) if callee[0] == 'g' else None
        if g is None:
            for o in i.ops:               # a callback given away may be called with anything
                if o[0] == 'g':
                    h = self.prog.func(o[1], f.mod)
                    if h is not None:
                        self.enter(h, [TOP] * len(h.params))
            self.set(f, i.res, TOP, dirty)
            return
        self.callers[g].add(f)
        a = []
        for o, t in zip(i.ops, i.x[1]):
            v = self.get(f, o)
            if v is None:
                return
            a.append(v if t[0] == 'i' else TOP)
        self.enter(g, (a + [TOP] * len(g.params))[:len(g.params)])
        self.set(f, i.res, self.ret.get(g), dirty)

    def reachable_calls(self, names):
        for m in self.prog.modules:
            for f in m.functions.values():
                for b in f.blocks.values():
                    if (f, b.name) in self.reach:
                        for i in b.ins:
                            if i.op == 'call' and i.x[0][0] == 'g' and i.x[0][1] in names:
                                yield f, i


# ------------------------------------------------------------------------------------------ flow of addresses
def mentions(op, name):
    if op[0] == 'g':
        return op[1] == name
    if op[0] == 'cegep':
        return any(mentions(v, name) for _, v in op[2])
    if op[0] == 'cecast':
        return mentions(op[2], name)
    if op[0] == 'agg':
        return any(mentions(v, name) for _, v in op[2])
    return False


WRITES = {'memcpy': (0,), 'memmove': (0,), 'memset': (0,), 'strcpy': (0,), 'strcat': (0,), 'strncpy': (0,),
          'sprintf': (0,), 'snprintf': (0,), 'fgets': (0,), 'strncat': (0,), 'qsort': (0,), 'modf': (1,), 'frexp': (1,)}
READS = {'strlen', 'strcmp', 'strncmp', 'printf', 'fprintf', 'puts', 'fputs', 'strchr', 'strrchr', 'strstr', 'memcmp',
         'atoi', 'atof', 'strcasecmp', 'strtol', 'strtod', 'free', 'fwrite', 'putc', 'fputc'}


class Flow:
    """where the address of a global goes: events (kind, function, instruction)"""

    def __init__(self, prog, mod, g):
        self.prog = prog
        self.events = []
        self.loads = []
        self.seen = set()
        self.work = []
        self.callers = defaultdict(list)
        for m in prog.modules:
            for f in m.functions.values():
                for b in f.blocks.values():
                    for i in b.ins:
                        if i.op == 'call' and i.x[0][0] == 'g':
                            h = prog.func(i.x[0][1], m)
                            if h:
                                self.callers[h].append((f, i))
        for m in prog.modules:
            if g.internal and m is not mod:
                continue
            for h in m.globals.values():
                if h is not g and h.init is not None and mentions(h.init, g.name):
                    self.events.append(('initialiser', None, h))
            for f in m.functions.values():
                self.scan(f, lambda o: mentions(o, g.name))
        while self.work:
            f, res = self.work.pop()
            self.scan(f, lambda o: o[0] == 'l' and o[1] == res)

    def add(self, f, res):
        if (f, res) not in self.seen:
            self.seen.add((f, res))
            self.work.append((f, res))

    def scan(self, f, is_):
        for b in f.blocks.values():
            for i in list(b.phis) + b.ins + [b.term]:
                ops = list(i.x.values()) if i.op == 'phi' else i.ops
                hit = [n for n, o in enumerate(ops) if is_(o)]
                if not hit:
                    continue
                if i.op == 'store':
                    if 1 in hit:
                        self.events.append(('store', f, i))
                    if 0 in hit:
                        self.events.append(('escape', f, i))
                elif i.op == 'load':
                    self.loads.append((f, i))
                elif i.op in ('getelementptr', 'phi', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
                    self.add(f, i.res)
                elif i.op == 'select':
                    if hit != [0]:
                        self.add(f, i.res)
                elif i.op == 'ret':
                    for g, c in self.callers[f]:
                        if c.res:
                            self.add(g, c.res)
                    if not f.internal:
                        self.events.append(('escape', f, i))
                elif i.op == 'call':
                    cal = i.x[0]
                    h = self.prog.func(cal[1], f.mod) if cal[0] == 'g' else None
                    for n in hit:
                        if h is not None and n < len(h.params):
                            p = h.params[n]
                            self.add(h, p[1] if isinstance(p, tuple) else p)
                        elif cal[0] == 'g' and (cal[1] in WRITES or cal[1].startswith(('llvm.mem',))):
                            w = WRITES.get(cal[1], (0,))
                            if n in w:
                                self.events.append(('store', f, i))
                        elif cal[0] == 'g' and (cal[1] in READS or cal[1].startswith('llvm.')):
                            pass
                        else:
                            self.events.append(('escape', f, i))
