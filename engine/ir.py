"""Parser for textual LLVM IR (LLVM 18, opaque pointers), as far as C code compiled by clang -O0 needs it.

The result is a Module with struct layouts, globals (with their initialisers flattened into cells), functions
(blocks of instructions with resolved operands and source lines) and the debug-info records that name struct
members, enumerators and source files.
"""
import re
import struct as _struct


class IRError(Exception):
    pass


# ------------------------------------------------------------------ types
# int: ('i', bits)   float: ('f', bits)   ptr: ('p',)   array: ('a', n, elem)
# struct: ('s', (elems...), packed)   named struct: ('n', name)   void: ('v',)  function/label/metadata: ('m',)

TOK = re.compile(r'''
    \s*(?:
      (?P<str>c?"(?:[^"\\]|\\.)*")
    | (?P<id>[%@!](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)|[%@!](?=\{))
    | (?P<num>-?[0-9]+(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?(?![a-zA-Z0-9])|0x[KMLHR]?[0-9A-Fa-f]+)
    | (?P<word>[a-zA-Z_$][-a-zA-Z0-9_.$]*)
    | (?P<attr>\#[0-9]+)
    | (?P<ell>\.\.\.)
    | (?P<p>[][(){}<>,=*:|])
    )''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            if s[pos:].lstrip().startswith(';'):
                break
            raise IRError('cannot tokenize: %r' % s[pos:pos + 60])
        out.append(m.group(m.lastgroup))
        pos = m.end()
    return out


PARAM_ATTRS = {
    'noundef', 'signext', 'zeroext', 'inreg', 'byval', 'sret', 'noalias', 'nocapture', 'nonnull', 'readonly',
    'writeonly', 'readnone', 'returned', 'immarg', 'nofree', 'dereferenceable', 'dereferenceable_or_null', 'align',
    'allocptr', 'allocsize', 'swiftself', 'nest', 'writable', 'dead_on_unwind',
}
LINK = {
    'private', 'internal', 'external', 'weak', 'linkonce', 'common', 'appending', 'extern_weak', 'linkonce_odr',
    'weak_odr', 'available_externally', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
    'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized', 'fastcc', 'ccc', 'coldcc',
    'noundef', 'zeroext', 'signext', 'noalias', 'nonnull',
}
FLAGS = {'nuw', 'nsw', 'exact', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'inbounds',
         'disjoint', 'nneg', 'volatile', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'samesign'}


class Parser:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %r got %r in %r' % (x, self.peek(), ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t == 'ptr':
            ty = ('p',)
        elif t == 'void':
            ty = ('v',)
        elif t == 'double':
            ty = ('f', 64)
        elif t == 'float':
            ty = ('f', 32)
        elif t in ('label', 'metadata', 'token', 'opaque'):
            ty = ('m',)
        elif t in ('x86_fp80', 'fp128', 'half', 'bfloat'):
            ty = ('f', 128)
        elif t[0] == 'i' and t[1:].isdigit():
            ty = ('i', int(t[1:]))
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            ty = ('a', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                el = self._elems('}')
                self.expect('>')
                ty = ('s', tuple(el), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                ty = ('a', n, e)
        elif t == '{':
            el = self._elems('}')
            ty = ('s', tuple(el), False)
        elif t[0] == '%':
            ty = ('n', t)
        else:
            raise IRError('type? %r in %r' % (t, ' '.join(self.t)))
        # function type suffix
        if self.peek() == '(' and self._looks_fn_type():
            self.next()
            depth = 1
            while depth:
                x = self.next()
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
            ty = ('fn', ty)
        return ty

    def _looks_fn_type(self):
        # used only in calls: "call i32 (ptr, ...) @printf(...)"
        j = self.i + 1
        depth = 1
        while depth and j < len(self.t):
            if self.t[j] == '(':
                depth += 1
            elif self.t[j] == ')':
                depth -= 1
            j += 1
        return j < len(self.t) and self.t[j][0] in '%@'

    def _elems(self, close):
        el = []
        if self.accept(close):
            return el
        while True:
            el.append(self.type())
            if self.accept(','):
                continue
            self.expect(close)
            return el

    def skip_attrs(self):
        while True:
            p = self.peek()
            if p in PARAM_ATTRS:
                self.next()
                if self.peek() == '(':
                    depth = 0
                    while True:
                        x = self.next()
                        if x == '(':
                            depth += 1
                        elif x == ')':
                            depth -= 1
                            if depth == 0:
                                break
                elif p == 'align':
                    self.next()
            elif p is not None and p.startswith('#'):
                self.next()
            else:
                return

    # operand: ('l',name) ('k',ty,value) ('g',name) ('ce',...) ('meta',)
    def value(self, ty):
        t = self.next()
        if t[0] == '%':
            return ('l', t)
        if t[0] == '@':
            return ('g', t[1:].strip('"'))
        if t[0] == '!':
            return ('meta', t)
        if t == 'true':
            return ('k', ty, 1)
        if t == 'false':
            return ('k', ty, 0)
        if t in ('null',):
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef', ty)
        if t == 'zeroinitializer':
            return ('zero', ty)
        if t[0] == 'c' and len(t) > 1 and t[1] == '"':
            return ('str', ty, unescape(t[2:-1]))
        if t == '[' or t == '{' or (t == '<' and self.peek() != '{'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            el = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    el.append((et, self.value(et)))
                    if self.accept(','):
                        continue
                    self.expect(close)
                    break
            return ('agg', ty, el)
        if t == '<' and self.peek() == '{':
            self.next()
            el = []
            while True:
                et = self.type()
                el.append((et, self.value(et)))
                if self.accept(','):
                    continue
                self.expect('}')
                self.expect('>')
                break
            return ('agg', ty, el)
        if t == 'getelementptr':
            while self.peek() in FLAGS:
                self.next()
            self.expect('(')
            bt = self.type()
            ops = []
            while self.accept(','):
                while self.peek() in FLAGS:
                    self.next()
                ot = self.type()
                ops.append((ot, self.value(ot)))
            self.expect(')')
            return ('cegep', bt, ops)
        if t in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext', 'sub', 'add'):
            while self.peek() in FLAGS:
                self.next()
            self.expect('(')
            st = self.type()
            v = self.value(st)
            if self.accept('to'):
                self.type()
                self.expect(')')
                return v if t == 'bitcast' else ('cecast', t, v)
            depth = 1
            while depth:
                x = self.next()
                depth += (x == '(') - (x == ')')
            return ('undef', ty)
        if ty[0] == 'f':
            return ('k', ty, parse_float(t))
        if ty[0] == 'i':
            return ('k', ty, int(t, 0))
        if ty[0] == 'm':
            return ('meta', t)
        raise IRError('value? %r of %r in %r' % (t, ty, ' '.join(self.t)))


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


def parse_float(t):
    if t.startswith('0x'):
        h = t[2:]
        if h[0] in 'KMLHR':
            return float('nan')
        return _struct.unpack('>d', int(h, 16).to_bytes(8, 'big'))[0]
    return float(t)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'blk', 'fn', 'idx')

    def __init__(self, op, res, ty, ops, x, dbg):
        self.op, self.res, self.ty, self.ops, self.x, self.dbg = op, res, ty, ops, x, dbg

    def __repr__(self):
        return '<%s %s %s>' % (self.op, self.res, self.loc())

    def loc(self):
        f, l = self.fn.mod.loc(self.dbg, self.fn)
        return '%s:%s' % (f, l)

    def line(self):
        return self.fn.mod.loc(self.dbg, self.fn)[1]


class Block:
    __slots__ = ('name', 'phis', 'ins', 'term', 'succ', 'preds', 'idx', 'live', 'ishead')


class Function:
    def __init__(self, mod, name, rty, params, internal, dbg):
        self.mod, self.name, self.rty, self.params, self.internal, self.dbg = mod, name, rty, params, internal, dbg
        self.blocks = {}
        self.order = []
        self.varargs = False
        self.wto = None

    def __repr__(self):
        return self.name


class Global:
    def __init__(self, name, const, ty, init, internal):
        self.name, self.const, self.ty, self.init, self.internal = name, const, ty, init, internal


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.functions = {}
        self.declared = {}
        self.md = {}
        self._lay = {}

    # -------------------------------------------------- layout
    def size(self, ty):
        return self.layout(ty)[0]

    def layout(self, ty):
        r = self._lay.get(ty)
        if r is not None:
            return r
        k = ty[0]
        if k == 'i':
            b = ty[1]
            s = 1 if b <= 8 else 2 if b <= 16 else 4 if b <= 32 else 8
            r = (s, s, None)
        elif k == 'f':
            s = {32: 4, 64: 8}.get(ty[1], 16)
            r = (s, s, None)
        elif k == 'p':
            r = (8, 8, None)
        elif k == 'a':
            es, ea, _ = self.layout(ty[2])
            r = (es * ty[1], ea, None)
        elif k == 'n':
            t = self.types.get(ty[1])
            if t is None:
                raise IRError('opaque type ' + ty[1])
            r = self.layout(t)
        elif k == 's':
            off = 0
            al = 1
            offs = []
            for e in ty[1]:
                es, ea, _ = self.layout(e)
                if ty[2]:
                    ea = 1
                off = (off + ea - 1) // ea * ea
                offs.append(off)
                off += es
                al = max(al, ea)
            off = (off + al - 1) // al * al
            r = (off, al, offs)
        else:
            raise IRError('size of %r' % (ty,))
        self._lay[ty] = r
        return r

    def resolve(self, ty):
        while ty[0] == 'n':
            ty = self.types[ty[1]]
        return ty

    # -------------------------------------------------- debug info
    def mdget(self, ref):
        return self.md.get(ref)

    def loc(self, dbg, fn=None):
        d = self.md.get(dbg)
        if not d:
            return (fn.srcfile() if fn is not None else '?', 0)
        m = re.search(r'line: (\d+)', d)
        line = int(m.group(1)) if m else 0
        return (self._file_of(d) or '?', line)

    def _file_of(self, d):
        seen = 0
        while d and seen < 40:
            seen += 1
            m = re.search(r'\bfile: (![0-9]+)', d)
            if m:
                f = self.md.get(m.group(1), '')
                mm = re.search(r'filename: "([^"]*)"', f)
                if mm:
                    return mm.group(1)
            m = re.search(r'\bscope: (![0-9]+)', d)
            d = self.md.get(m.group(1)) if m else None
        return None

    def struct_members(self, name):
        """members of a struct by tag or typedef name: {member: (offset_bytes, size_bytes)}"""
        cache = self.__dict__.setdefault('_members', {})
        if name in cache:
            return cache[name]
        res = None
        for ref, d in self.md.items():
            if 'DICompositeType' in d and ('name: "%s"' % name) in d and 'elements:' in d and \
                    'DW_TAG_structure_type' in d:
                res = self._members_of(d)
                break
        if res is None:
            for ref, d in self.md.items():
                if 'DIDerivedType' in d and 'DW_TAG_typedef' in d and ('name: "%s"' % name) in d:
                    b = re.search(r'baseType: (![0-9]+)', d)
                    seen = 0
                    while b and seen < 10:
                        seen += 1
                        dd = self.md.get(b.group(1), '')
                        if 'DICompositeType' in dd:
                            if 'elements:' in dd:
                                res = self._members_of(dd)
                            break
                        b = re.search(r'baseType: (![0-9]+)', dd)
                    if res is not None:
                        break
        cache[name] = res
        return res

    def _members_of(self, d):
        out = {}
        m = re.search(r'elements: (![0-9]+)', d)
        lst = self.md.get(m.group(1), '')
        for r in re.findall(r'![0-9]+', lst):
            e = self.md.get(r, '')
            nm = re.search(r'name: "([^"]*)"', e)
            sz = re.search(r'\bsize: (\d+)', e)
            of = re.search(r'\boffset: (\d+)', e)
            if nm:
                out[nm.group(1)] = (int(of.group(1)) // 8 if of else 0, int(sz.group(1)) // 8 if sz else 0)
        return out

    def enumerators(self):
        out = {}
        for d in self.md.values():
            if d.startswith('!DIEnumerator'):
                nm = re.search(r'name: "([^"]*)"', d)
                v = re.search(r'value: (-?\d+)', d)
                out[nm.group(1)] = int(v.group(1))
        return out


def _fn_srcfile(self):
    d = self.mod.md.get(self.dbg, '') if self.dbg else ''
    return self.mod._file_of(d) or '?'


Function.srcfile = _fn_srcfile


def _fn_line(self):
    d = self.mod.md.get(self.dbg, '') if self.dbg else ''
    m = re.search(r'line: (\d+)', d)
    return int(m.group(1)) if m else 0


Function.line = _fn_line

_DBG = re.compile(r',? !dbg (![0-9]+)')
_META_SUFFIX = re.compile(r', ![a-zA-Z.]+ ![0-9]+')


def parse_module(path, name):
    m = Module(name)
    with open(path) as f:
        lines = f.read().split('\n')
    i = 0
    n = len(lines)
    fnbodies = []
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            if rest.strip() != 'opaque':
                m.types[nm] = Parser(tokenize(rest), m).type()
        elif ln.startswith('@'):
            _global(m, ln)
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            fnbodies.append((ln, i + 1, j))
            i = j
        elif ln.startswith('declare'):
            mm = re.search(r'@("?)([-a-zA-Z$._0-9]+)\1\(', ln)
            m.declared[mm.group(2)] = ln
        elif ln.startswith('!'):
            mm = re.match(r'(![0-9]+) = (?:distinct )?(.*)', ln)
            if mm:
                m.md[mm.group(1)] = mm.group(2)
        i += 1
    for hdr, a, b in fnbodies:
        _function(m, hdr, lines, a, b)
    return m


def _global(m, ln):
    dm = _DBG.search(ln)
    if dm:
        ln = _DBG.sub('', ln)
    toks = tokenize(ln)
    p = Parser(toks, m)
    name = p.next()[1:].strip('"')
    p.expect('=')
    internal = False
    ext = False
    while p.peek() not in ('global', 'constant', 'alias'):
        x = p.next()
        if x in ('private', 'internal'):
            internal = True
        if x in ('external', 'extern_weak'):
            ext = True
    kind = p.next()
    ty = p.type()
    init = None
    if not ext:
        init = p.value(ty)
    m.globals[name] = Global(name, kind == 'constant', ty, init, internal)


def _function(m, hdr, lines, a, b):
    dm = re.search(r'!dbg (![0-9]+)', hdr)
    dbg = dm.group(1) if dm else None
    h = re.sub(r'!dbg ![0-9]+', '', hdr)
    mm = re.search(r'@("?)([-a-zA-Z$._0-9]+)\1\(', h)
    name = mm.group(2)
    internal = ' internal ' in h[:mm.start()] or ' private ' in h[:mm.start()]
    p = Parser(tokenize(h[6:mm.start()]), m)
    while p.peek() in LINK:
        p.next()
    p.skip_attrs()
    rty = p.type()
    # params
    p = Parser(tokenize(h[mm.end() - 1:]), m)
    p.expect('(')
    params = []
    va = False
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                va = True
            else:
                ty = p.type()
                p.skip_attrs()
                nm = p.next() if p.peek()[0] == '%' else '%%%d' % len(params)
                params.append((ty, nm))
            if p.accept(','):
                continue
            p.expect(')')
            break
    fn = Function(m, name, rty, params, internal, dbg)
    fn.varargs = va
    cur = None
    i = a
    count = 0
    while i < b:
        ln = lines[i]
        i += 1
        if not ln:
            continue
        if ln[0] != ' ':
            mm = re.match(r'("?)([-a-zA-Z$._0-9]+)\1:', ln)
            if mm:
                cur = _newblk(fn, '%' + mm.group(2))
                continue
        if cur is None:
            # unnamed entry block: numbered after the parameters
            num = sum(1 for _, nm in params if re.match(r'%\d+$', nm))
            cur = _newblk(fn, '%%%d' % num)
        s = ln.strip()
        if s.startswith(';'):
            continue
        if '@llvm.dbg.' in s:
            continue
        if s.startswith('switch'):
            while ']' not in s:
                s += ' ' + lines[i].strip()
                i += 1
        ins = _instr(m, s)
        if ins is None:
            continue
        ins.fn = fn
        ins.blk = cur
        ins.idx = count
        count += 1
        if ins.op == 'phi':
            cur.phis.append(ins)
        elif ins.op in ('br', 'ret', 'switch', 'unreachable'):
            cur.term = ins
        else:
            cur.ins.append(ins)
    for blk in fn.blocks.values():
        t = blk.term
        if t.op == 'br':
            blk.succ = list(t.x)
        elif t.op == 'switch':
            blk.succ = [t.x[0]] + [tg for _, tg in t.x[1]]
        else:
            blk.succ = []
        for s in blk.succ:
            fn.blocks[s].preds.append(blk.name)
    m.functions[name] = fn


def _newblk(fn, name):
    bl = Block()
    bl.name = name
    bl.phis = []
    bl.ins = []
    bl.term = None
    bl.preds = []
    bl.idx = len(fn.order)
    bl.live = None
    bl.ishead = False
    fn.blocks[name] = bl
    fn.order.append(name)
    return bl


BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd',
       'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'freeze'}


def _instr(m, s):
    dbg = None
    mm = _DBG.search(s)
    if mm:
        dbg = mm.group(1)
        s = _DBG.sub('', s)
    s = _META_SUFFIX.sub('', s)
    toks = tokenize(s)
    p = Parser(toks, m)
    res = None
    if toks[0][0] == '%' and toks[1] == '=':
        res = p.next()
        p.next()
    op = p.next()
    while op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        x = p.value(ty)
        p.expect(',')
        y = p.value(ty)
        return Instr(op, res, ty, [x, y], None, dbg)
    if op in CAST:
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        x = p.value(ty)
        if op == 'freeze':
            return Instr(op, res, ty, [x], ty, dbg)
        p.expect('to')
        t2 = p.type()
        return Instr(op, res, t2, [x], ty, dbg)
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        return Instr(op, res, ty, [p.value(ty)], None, dbg)
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        x = p.value(ty)
        p.expect(',')
        y = p.value(ty)
        return Instr(op, res, ty, [x, y], pred, dbg)
    if op == 'alloca':
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                ct = p.type()
                cnt = p.value(ct)
        return Instr(op, res, ('p',), [cnt] if cnt else [], ty, dbg)
    if op == 'load':
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        p.type()
        return Instr(op, res, ty, [p.value(('p',))], None, dbg)
    if op == 'store':
        p.accept('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.type()
        a = p.value(('p',))
        return Instr(op, None, ty, [v, a], None, dbg)
    if op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        bt = p.type()
        ops = []
        tys = []
        while p.accept(','):
            t = p.type()
            tys.append(t)
            ops.append(p.value(t))
        return Instr(op, res, ('p',), ops, (bt, tys), dbg)
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b.replace('"', '')))
            if not p.accept(','):
                break
        return Instr(op, res, ty, [], dict((b, v) for v, b in inc), dbg)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        t0 = p.type()
        c = p.value(t0)
        p.expect(',')
        t1 = p.type()
        x = p.value(t1)
        p.expect(',')
        t2 = p.type()
        y = p.value(t2)
        return Instr(op, res, t1, [c, x, y], None, dbg)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr(op, None, None, [], [p.next().replace('"', '')], dbg)
        p.type()
        c = p.value(('i', 1))
        p.expect(',')
        p.next()
        a = p.next().replace('"', '')
        p.expect(',')
        p.next()
        b = p.next().replace('"', '')
        return Instr(op, None, None, [c], [a, b], dbg)
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.next()
        d = p.next().replace('"', '')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            t = p.type()
            k = p.value(t)
            p.expect(',')
            p.next()
            cases.append((k[2], p.next().replace('"', '')))
        return Instr(op, None, ty, [v], (d, cases), dbg)
    if op == 'ret':
        ty = p.type()
        if ty == ('v',):
            return Instr(op, None, ty, [], None, dbg)
        return Instr(op, None, ty, [p.value(ty)], None, dbg)
    if op == 'unreachable':
        return Instr(op, None, None, [], None, dbg)
    if op == 'call':
        while p.peek() in FLAGS or p.peek() in LINK:
            p.next()
        p.skip_attrs()
        rty = p.type()
        if rty[0] == 'fn':
            rty = rty[1]
        if p.peek() == 'asm':
            return Instr('call', res, rty, [], (('asm',), []), dbg)
        callee = p.value(('p',))
        p.expect('(')
        args = []
        tys = []
        if not p.accept(')'):
            while True:
                t = p.type()
                p.skip_attrs()
                if t == ('m',):
                    # metadata operand, skip to , or )
                    depth = 0
                    while not (depth == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        depth += (x == '(') - (x == ')')
                    args.append(('meta',))
                else:
                    args.append(p.value(t))
                tys.append(t)
                if p.accept(','):
                    continue
                p.expect(')')
                break
        return Instr('call', res, rty, args, (callee, tys), dbg)
    if op in ('extractvalue', 'insertvalue'):
        ty = p.type()
        v = p.value(ty)
        ops = [v]
        if op == 'insertvalue':
            p.expect(',')
            t2 = p.type()
            ops.append(p.value(t2))
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr(op, res, ty, ops, idx, dbg)
    if op == 'va_arg':
        v = p.value(p.type())
        p.expect(',')
        return Instr(op, res, p.type(), [v], None, dbg)
    raise IRError('instruction? ' + s)
