"""Array summaries: which prefix/suffix of a tracked array has been written or read, and what is stored.

A tracked array A of n elements carries two ghost counters u, v: elements [0,u) and [v,n) have been written, [u,v) still
hold their initial content.  A store is accepted when it extends one of the two ranges by the element next to it, so
every loop form that visits each element once (forward, backward, by index or by pointer, unrolled) is covered and a
skipped, repeated or out-of-range element is not.
"""
from engine import absint as A
from engine.absint import ibounds, imask
from engine.terms import *


class Arrays:
    def __init__(self, eng, n, esz):
        self.eng = eng
        self.n = n
        self.esz = esz
        self.arr = {}              # region -> name
        self.initial = {}          # region -> name of the content it had
        self.expect = None         # f(eng, st, name, e, value, ins) -> None or message
        self.bad = lambda key, msg, ins: eng.log.append(('bad', key, msg, ins.loc()))
        self.writable = set()
        self.stores = 0
        self.loads = 0
        eng.on_store.append(self.store)
        eng.on_load.append(self.load)

    def add(self, st, name, p, writable=False, esz=None, n=None):
        r = p.a[0]
        self.arr[r] = (name, esz or self.esz, n if n is not None else self.n)
        if writable:
            self.writable.add(r)
            st.gh[('u', r)] = ZERO
            st.gh[('v', r)] = self.n
        st.gh[('ru', r)] = ZERO
        st.gh[('rv', r)] = n if n is not None else self.n

    def elem(self, off, esz):
        """element index of a byte offset, None when not aligned"""
        if off.a[0] % esz or any(c % esz for _, c in off.a[1]):
            return None
        return mk('P', off.a[0] // esz, tuple((m, c // esz) for m, c in off.a[1]))

    def inside(self, st, e, n):
        return ibounds(st, e)[0] >= 0 and ibounds(st, sub(e, n))[1] < 0

    def advance(self, st, r, ku, kv, e):
        """extend the visited ranges with element e; False when e is neither next nor already visited"""
        u, v = st.gh[(ku, r)], st.gh[(kv, r)]
        if imask(st, sub(e, u)) == 2:
            st.gh[(ku, r)] = add(e, ONE)
            return 'new'
        if imask(st, sub(e, sub(v, ONE))) == 2:
            st.gh[(kv, r)] = e
            return 'new'
        if imask(st, sub(e, u)) == 1 or not imask(st, sub(e, v)) & 1:
            return 'old'
        return None

    def store(self, eng, st, p, v, size, ins):
        if p.k != 'ptr' or p.a[0] not in self.arr:
            return
        r = p.a[0]
        name, esz, n = self.arr[r]
        self.stores += 1
        if r not in self.writable:
            self.bad('write-' + name, 'stores to the read-only array %s' % name, ins)
            return
        if isinstance(size, T):                     # memset, memcpy
            off = self.elem(p.a[1], esz)
            cnt = self.elem(size, esz)
            if off is None or cnt is None or imask(st, off) != 2 or imask(st, sub(cnt, n)) != 2:
                self.bad('bulk-' + name, 'bulk store to %s does not cover exactly its %s elements' % (name, show(n)),
                         ins)
                return
            callee = ins.x[0][1]
            args = [eng.val(st, o, self.curmod(eng), t) if o[0] != 'meta' else None
                    for o, t in zip(ins.ops, ins.x[1])]
            e = mk('P', 0, (((mk('at', 'anyelem', 'i'),), 1),))
            if 'memset' in callee:
                if eng.toint(args[1]) is not ZERO:
                    self.bad('bulk-' + name, 'memset of %s with a non-zero byte' % name, ins)
                    return
                val = F(0.0)
            else:
                s = args[1]
                if s.k != 'ptr' or s.a[0] not in self.arr or s.a[1] is not ZERO or self.arr[s.a[0]][1] != esz:
                    self.bad('bulk-' + name, 'memcpy to %s from something else than an array start' % name, ins)
                    return
                val = self.el(s.a[0], e)
                if ('u', s.a[0]) in st.gh and s.a[0] is not r and st.gh[('u', s.a[0])] is not ZERO:
                    self.bad('bulk-' + name, 'memcpy to %s from modified %s' % (name, self.arr[s.a[0]][0]), ins)
            st.gh[('u', r)] = n
            self.check(eng, st, name, e, val, ins)
            return
        e = self.elem(p.a[1], esz)
        if e is None or size != esz:
            self.bad('align-' + name, 'store to %s at offset %s with size %s' % (name, show(p.a[1]), size), ins)
            return
        if not self.inside(st, e, n):
            self.bad('oob-' + name, 'store to %s[%s] not provably within 0 <= index < %s' % (name, show(e), show(n)),
                     ins)
        how = self.advance(st, r, 'u', 'v', e)
        if how is None:
            self.bad('order-' + name, 'store to %s[%s] leaves unvisited elements behind' % (name, show(e)), ins)
        self.check(eng, st, name, e, v, ins)

    def curmod(self, eng):
        return eng.callstack[-1][0].mod

    def el(self, r, e):
        """initial content of element e of array r"""
        ty = 'f'
        return mk('ld', r, A.INIT, scale(e, self.arr[r][1]), ty, self.arr[r][1])

    def check(self, eng, st, name, e, v, ins):
        if self.expect is not None:
            m = self.expect(eng, st, name, e, v, ins)
            eng.log.append(('elem', name, m is None, m, ins.loc()))

    def load(self, eng, st, p, ty, size, v, ins):
        if p.k != 'ptr' or p.a[0] not in self.arr:
            return None
        r = p.a[0]
        name, esz, n = self.arr[r]
        self.loads += 1
        if isinstance(size, T):
            return None
        e = self.elem(p.a[1], esz)
        if e is None or size != esz:
            self.bad('align-' + name, 'load from %s at offset %s with size %s' % (name, show(p.a[1]), size), ins)
            return None
        if not self.inside(st, e, n):
            self.bad('oob-' + name, 'load of %s[%s] not provably within 0 <= index < %s' % (name, show(e), show(n)),
                     ins)
        if self.advance(st, r, 'ru', 'rv', e) is None:
            st.gh[('ru', r)] = ZERO
        if ('u', r) not in st.gh:
            val = self.el(r, e)
        else:
            u, w = st.gh[('u', r)], st.gh[('v', r)]
            if imask(st, sub(e, u)) & 1 == 0 and imask(st, sub(e, w)) == 1:
                val = self.el(r, e)
            elif v is not None and not (v.k == 'ld' and v.a[0] is r):
                return None                # the value just stored
            else:
                val = A.fresh('modified_' + name, 'f')
        if self.on_elem is not None:
            self.on_elem(eng, st, name, e, val)
        return val

    on_elem = None

    def complete(self, st, r):
        """every element of r has been written in state st"""
        return ibounds(st, sub(st.gh[('v', r)], st.gh[('u', r)]))[1] <= 0

    def readall(self, st, r):
        return ibounds(st, sub(st.gh[('rv', r)], st.gh[('ru', r)]))[1] <= 0
