"""W03: BOBYQA only evaluates within the bounds."""
from collections import defaultdict
from .core import *
from .powell import Terms, ARGS, DIRECT, evaluation, pname                  # noqa: F401
from engine import absint as A                                              # noqa: F401

NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}


def add(a, b, s=1):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
        if not r[k]:
            del r[k]
    return r


class Bounds(Terms):
    """which arrays have all their elements in the bounds, as a set of path states"""
    keepall = True

    def __init__(self, *a):
        super().__init__(*a)
        self._lin, self._eff = {}, {}
        self.cand = {}
        for h, body in self.loops.items():
            if any(g != h and g in body for g in self.loops):
                continue
            if any(evaluation(self.sh, i) for q in body for i in self.fn.blocks[q].ins):
                continue
            if any(i.op == 'store' and i.ty[0] == 'f' for q in body for i in self.fn.blocks[q].ins):
                self.cand[h] = body
        self.inloop = {q: h for h, body in self.cand.items() for q in body}
        self.watched = {p.res for b in self.fn.blocks.values() for p in b.phis if p.ty[0] == 'p' and
                        len({self.roots(v) for v in p.x.values()}) > 1}

    # ---- linear forms of integers and addresses; 't' is the number of the iteration of loop h
    def counter(self, d, h):
        """(initial value, step) of a variable of loop h"""
        if d is None or d.op != 'phi' or (d.blk if isinstance(d.blk, str) else d.blk.name) != h:
            return None
        init = [v for b, v in d.x.items() if b not in self.loops[h]]
        step = [v for b, v in d.x.items() if b in self.loops[h]]
        if len(init) != 1 or len(step) != 1 or step[0][0] != 'l':
            return None
        e = self.sh.defs.get(step[0][1])
        k = None
        if e is not None and e.op in ('add', 'sub') and e.ops[0] == ('l', d.res) and e.ops[1][0] == 'k':
            k = e.ops[1][2] * (1 if e.op == 'add' else -1)
        elif e is not None and e.op == 'getelementptr' and e.ops[0] == ('l', d.res) and len(e.ops) == 2 and \
                e.ops[1][0] == 'k':
            k = e.ops[1][2]
        return None if k is None else (init[0], k)

    def lin(self, o, h, depth=0):
        if o[0] == 'k':
            return {1: o[2]} if o[2] else {}
        if o[0] != 'l':
            return {o: 1}
        d = self.sh.defs.get(o[1])
        if d is None or depth > 30:
            return {o[1]: 1}
        if d.op in ('sext', 'zext', 'trunc', 'freeze'):
            return self.lin(d.ops[0], h, depth + 1)
        if d.op in ('add', 'sub'):
            return add(self.lin(d.ops[0], h, depth + 1), self.lin(d.ops[1], h, depth + 1), 1 if d.op == 'add' else -1)
        if d.op in ('mul', 'shl', 'sdiv'):
            a, b = self.lin(d.ops[0], h, depth + 1), self.lin(d.ops[1], h, depth + 1)
            for p, q in ((a, b), (b, a)):
                if set(q) <= {1} and (d.op == 'mul' or d.op == 'shl' and q is b):
                    k = q.get(1, 0) if d.op == 'mul' else 1 << q.get(1, 0)
                    return {x: v * k for x, v in p.items() if v * k}
            ka, kb = tuple(sorted(a.items(), key=str)), tuple(sorted(b.items(), key=str))
            if d.op == 'mul' and str(kb) < str(ka):
                ka, kb = kb, ka
            return {(d.op, ka, kb): 1}
        if h is not None:
            c = self.counter(d, h)
            if c:
                return add(self.lin(c[0], h, depth + 1), {'t': c[1]})
        return {o[1]: 1}

    def addr(self, o, h, pk, depth=0):
        """(root, elements from its start)"""
        if o[0] != 'l' or depth > 30:
            return o, {}
        if o[1] in pk:
            r, base = pk[o[1]]
            if base is None:
                return ('l', '?'), {}
            if base != o[1]:
                return self.addr(('l', base), h, pk, depth + 1)
        d = self.sh.defs.get(o[1])
        if d is None:
            return o, {}
        if d.op == 'getelementptr' and len(d.ops) == 2:
            b, n = self.addr(d.ops[0], h, pk, depth + 1)
            return b, add(n, self.lin(d.ops[1], h))
        if d.op in ('bitcast', 'freeze'):
            return self.addr(d.ops[0], h, pk, depth + 1)
        if h is not None:
            c = self.counter(d, h)
            if c:
                b, n = self.addr(c[0], h, pk, depth + 1)
                return b, add(n, {'t': c[1]})
        if d.op == 'phi':
            v = {x for b, x in d.x.items() if (b, d.blk if isinstance(d.blk, str) else d.blk.name) in self.reach}
            if len(v) == 1:
                return self.addr(v.pop(), h, pk, depth + 1)
        return o, {}

    # ---- what an iteration of a loop leaves in an array
    def effect(self, h, picks):
        live = {k: v for k, v in picks}
        key = h, picks
        if key not in self._eff:
            self._eff[key] = self._effect(h, live)
        return self._eff[key]

    def _effect(self, h, pk):
        """{array (root, elements from its start): in bounds?}, with the array '?' for what is not understood"""
        body = self.cand[h]
        fn = self.fn
        stored, elems = {}, set()
        for q in body:
            for i in fn.blocks[q].ins:
                if i.op == 'store' and i.ty[0] == 'f':
                    stored.setdefault(self.key(self.addr(i.ops[1], h, pk)), i)
                elif i.op == 'load' and i.ty[0] == 'f':
                    r, e = self.addr(i.ops[0], h, pk)
                    if r in (('l', self.p['xl']), ('l', self.p['xu'])):
                        elems.add(self.key((r, e))[1])
        exits = {q for q in body for t in fn.blocks[q].succ if t not in body}
        # an array and the element of the bounds which goes with the stored one
        good = {}
        for k in stored:
            es = [k[1]] if k[0] == ('l', self.p['x']) else \
                [e for e in elems if dict(e).get('t') == dict(k[1]).get('t')]
            for e in es:
                good[k, e] = len(exits) == 1
        paths = [0]

        def walk(q, prev, phis, facts, mem):
            if paths[0] > 200:
                return
            phis = dict(phis)
            if prev is not None:
                phis.update({p.res: self.see(p.x[prev], phis) for p in fn.blocks[q].phis})
            mem = dict(mem)
            for i in fn.blocks[q].ins:
                if i.op == 'store' and i.ty[0] == 'f':
                    mem[self.key(self.addr(i.ops[1], h, pk))] = self.see(i.ops[0], phis)
                elif i.op == 'load' and i.ty[0] == 'f':
                    a = self.key(self.addr(i.ops[0], h, pk))
                    phis[i.res] = mem.get(a, ('at', a))
                elif i.op == 'call' and i.res and i.x[0][0] == 'g' and len(i.ops) == 2 and \
                        i.x[0][1].split('.')[-1 if i.x[0][1][:5] != 'llvm.' else 1] in ('fmin', 'fmax', 'minnum', 'maxnum'):
                    facts = facts + self.extreme(i, phis)
            t = fn.blocks[q].term
            for n in dict.fromkeys(fn.blocks[q].succ):
                if (q, n) not in self.reach:
                    continue
                more = facts
                if t.op == 'br' and len(t.x) == 2 and t.x[0] != t.x[1]:
                    more = facts + self.fact(t.ops[0], n == t.x[0], phis)
                if n in body and n != h:
                    walk(n, q, phis, more, mem)
                    continue
                if n not in body and not mem and q == h:
                    continue                       # the end of the loop
                paths[0] += 1
                for k, e in good:
                    if good[k, e] and not self.inside(mem.get(k, ('at', k)), e, more, phis, 0):
                        good[k, e] = False
        walk(h, None, {}, (), {})
        if paths[0] > 200:
            good = {k: False for k in good}
        out = {}
        for k in stored:
            root, n = k
            out[root, None] = False
        for (k, e), ok in good.items():
            root, n = k
            n, e = dict(n), dict(e)
            if n.get('t') not in (1, -1):
                continue
            if n['t'] == 1:
                r = self.extent(h)
                if r is not None and r != {self.p['n']: 1} or add(e, {'t': -1}):
                    ok = False
            if ok:
                out[self.key((root, add(n, e, -1)))] = True
        return out

    @staticmethod
    def key(a):
        return a[0], tuple(sorted(a[1].items(), key=str))

    def extent(self, h):
        """the number of iterations, when it is easy to tell"""
        t = self.fn.blocks[h].term
        c = self.sh.defs.get(t.ops[0][1]) if t.op == 'br' and len(t.x) == 2 and t.ops[0][0] == 'l' else None
        if c is None or c.op != 'icmp' or c.x not in ('slt', 'sle', 'ne') or t.x[0] not in self.loops[h]:
            return None
        a, b = self.lin(c.ops[0], h), self.lin(c.ops[1], h)
        if a.get('t') != 1 or 't' in b:
            return None
        a = dict(a)
        a.pop('t')
        return add(add(b, a, -1), {1: 1} if c.x == 'sle' else {})

    def see(self, o, phis):
        return phis.get(o[1], o) if o[0] == 'l' else o

    def extreme(self, i, phis):
        a, b, r = self.see(i.ops[0], phis), self.see(i.ops[1], phis), ('l', i.res)
        if 'min' in i.x[0][1]:
            return ((r, a), (r, b), ('min', r, a, b))
        return ((a, r), (b, r), ('max', r, a, b))

    def fact(self, o, truth, phis):
        """pairs (a, b): a <= b"""
        d = self.sh.defs.get(o[1]) if o[0] == 'l' else None
        if d is None:
            return ()
        if d.op == 'fcmp':
            p = d.x[1:]
            if p not in NEG:
                return ()
            if not truth:
                p = NEG[p]
            a, b = self.see(d.ops[0], phis), self.see(d.ops[1], phis)
            return {'lt': ((a, b),), 'le': ((a, b),), 'gt': ((b, a),), 'ge': ((b, a),), 'eq': ((a, b), (b, a)),
                    'ne': ()}[p]
        if d.op == 'xor':
            return self.fact(d.ops[0], not truth, phis)
        if d.op == 'and' and truth or d.op == 'or' and not truth:
            return self.fact(d.ops[0], truth, phis) + self.fact(d.ops[1], truth, phis)
        return ()

    def inside(self, v, k, facts, phis, depth):
        """is v between the elements k of the bounds?"""
        if v[0] == 'l' and depth < 8:
            d = self.sh.defs.get(v[1])
            if d is not None and d.op == 'select':
                return all(self.inside(self.see(d.ops[n], phis), k, facts + self.fact(d.ops[0], n == 1, phis), phis,
                                       depth + 1) for n in (1, 2))
            if d is not None and d.op in ('freeze', 'fpext', 'fptrunc'):
                return self.inside(self.see(d.ops[0], phis), k, facts, phis, depth + 1)
        lo, up = [('at', (('l', self.p[b]), k)) for b in ('xl', 'xu')]
        return self.le(lo, v, facts + ((lo, up),)) and self.le(v, up, facts + ((lo, up),))

    @staticmethod
    def le(a, b, facts):
        pairs = [f for f in facts if len(f) == 2]
        seen, work = {a}, [a]
        while work:
            x = work.pop()
            for p, q in pairs:
                if p == x and q not in seen:
                    seen.add(q)
                    work.append(q)
            # a <= both  =>  a <= the smallest of the two
            for f in facts:
                if len(f) == 4 and f[0] == 'min' and f[1] not in seen and f[2] in seen and f[3] in seen:
                    seen.add(f[1])
                    work.append(f[1])
        if b in seen:
            return True
        # the largest of two values that are <= b
        for f in facts:
            if len(f) == 4 and f[0] == 'max' and f[1] == a:
                rest = tuple(g for g in facts if g is not f)
                return Bounds.le(f[2], b, rest) and Bounds.le(f[3], b, rest)
        return False

    # ---- path states: (arrays in the bounds, evaluated, picks)
    def run(self):
        fn, sh = self.fn, self.sh
        edge = defaultdict(set)
        first = self.order[0]

        def entering(b):
            r = {(frozenset(), False, frozenset())} if b == first else set()
            for p in self.preds[b]:
                r |= edge[p, b]
            return r
        work = {first}
        while work:
            b = min(work, key=sh.rpo.get)
            work.discard(b)
            states = entering(b)
            for t in fn.blocks[b].succ:
                if (b, t) not in self.reach:
                    continue
                new = set()
                for s in states:
                    o = self.leave(b, self.block(b, s), t)
                    if o is not None:
                        new.add(o)
                self.c.steps += len(fn.blocks[b].ins)
                if len(new) > 2000:
                    raise AnalysisLimit('too many path states in %s' % fn.name)
                if new - edge[b, t]:
                    edge[b, t] |= new
                    work.add(t)
        sites, rets = [], []
        for b in self.order:
            for s in entering(b):
                o = self.block(b, s, sites)
                if fn.blocks[b].term.op == 'ret':
                    rets.append((fn.blocks[b].term, o))
        return sites, rets

    def block(self, b, s, sites=None):
        good, done, picks = s
        for i in self.fn.blocks[b].ins:
            if i.op == 'store' and i.ty[0] == 'f' and b not in self.inloop:
                r, _ = self.addr(i.ops[1], None, dict(picks))
                good = frozenset(g for g in good if g[0] != r and ('l', '?') not in (g[0], r))
            elif i.op == 'call' and evaluation(self.sh, i):
                if sites is not None:
                    a = self.key(self.addr(self.xarg(i), None, dict(picks)))
                    sites.append((i, a in good))
                done = True
        return good, done, picks

    def leave(self, b, s, t):
        good, done, picks = s
        r = super().leave(b, (None, None, None, None, None, picks), t, None)
        if r is None:
            return None
        h = self.inloop.get(b)
        if h is not None and t not in self.cand[h]:
            for (root, n), ok in self.effect(h, self.relevant(h, picks)).items():
                if not ok or n is None:
                    good = frozenset(g for g in good if g[0] != root)
            for (root, n), ok in self.effect(h, self.relevant(h, picks)).items():
                if ok and n is not None:
                    good |= {(root, n)}
        return good, done, r[5]

    def relevant(self, h, picks):
        return picks


def within(c, P, scaled):
    fn = c.func(P, 'bobyqa_optimize')
    c.functions.add(fn.name)
    w = Bounds(c, fn, False, scaled, P.enums)
    sites, rets = w.run()
    how = 'with SCL' if scaled else 'without SCL'
    for i, ok in sites:
        c.callsites.add(i.loc())
        c.ob('evaluation', ok, '%s:%s' % (fn.name, how), '%s (%s): the objective function may be called with variables out of '
             'the bounds' % (fn.name, how), i.loc())
    n = 0
    for t, (good, done, picks) in rets:
        if done:
            n += 1
            c.ob('result', (('l', w.p['x']), ()) in good, '%s:%s' % (fn.name, how),
                 '%s (%s): the variables may be left out of the bounds' % (fn.name, how), t.loc())
    if not sites or not n:
        raise Broken('%s never calls the objective function' % fn.name)


@check('W03', 'data flow analysis of the intermediate representation (static functions inlined): order relations between '
       'the values stored and the bounds on every path of the loops, arrays in the bounds at every evaluation')
def w03(c):
    P = c.lib(['bobyqa'], mode='inlined')
    parallel(c, [lambda k, s=s: within(k, P, s) for s in (False, True)])
    c.require('evaluation', 4)
    c.require('result', 2)
