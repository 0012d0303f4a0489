"""R01: no hidden state; R03: no output, no termination of the calling program."""
import re
from .core import *
from engine.flow import Intervals, Flow, PURE

# C library calls whose result depends on, or which change, hidden state of the process
STATEFUL = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'lrand48', 'setlocale', 'gmtime',
            'localtime', 'ctime', 'asctime', 'strerror', 'getenv', 'setenv', 'putenv', 'signal', 'sigaction', 'alarm',
            'tmpnam', 'atexit', 'time', 'clock', 'gettimeofday', 'clock_gettime', 'signgam', 'lgamma', 'ecvt', 'fcvt',
            'fesetround', 'feenableexcept', 'chdir', 'umask', 'system', 'popen', 'fork', 'setjmp', '_setjmp',
            'longjmp', 'raise', 'kill', 'getpid', 'fopen', 'freopen', 'open', 'getchar', 'scanf', 'fgetc', 'fscanf'}
OUTPUT = {'printf', 'fprintf', 'vprintf', 'vfprintf', 'puts', 'fputs', 'putchar', 'putc', 'fputc', 'fwrite', 'perror',
          'write', 'dprintf', 'syslog', 'putw', '_IO_putc', '__printf_chk', '__fprintf_chk'}
END = {'abort', 'exit', '_exit', '_Exit', 'quick_exit', '__assert_fail', '__assert_perror_fail', 'raise', 'kill',
       'longjmp', 'err', 'errx', 'error', 'llvm.trap', 'llvm.debugtrap'}


def instrs(prog):
    for m in prog.modules:
        for f in m.functions.values():
            for b in f.blocks.values():
                for i in b.ins:
                    yield m, f, b, i


def sources(c):
    return c.lib(build.LIBOPK + build.POWELL)


def cmps_of(f, res):
    """instructions using a local value"""
    for b in f.blocks.values():
        for i in list(b.phis) + b.ins + [b.term]:
            ops = list(i.x.values()) if i.op == 'phi' else i.ops
            if any(o[0] == 'l' and o[1] == res for o in ops):
                yield b, i


def constant_value(prog, f, op, g, seen=()):
    """is the operand a pure function of constants (and of the global itself)?"""
    if op[0] in ('k', 'null'):
        return True
    if op[0] == 'l':
        for b in f.blocks.values():
            for i in list(b.phis) + b.ins:
                if i.res == op[1]:
                    if i in seen:
                        return True
                    s = tuple(seen) + (i,)
                    if i.op == 'load':
                        a = i.ops[0]
                        gg = f.mod.globals.get(a[1]) if a[0] == 'g' else None
                        return gg is not None and gg.const
                    if i.op == 'call':
                        return i.x[0][0] == 'g' and (i.x[0][1] in PURE or i.x[0][1].startswith('llvm.')) and \
                            all(constant_value(prog, f, o, g, s) for o in i.ops)
                    if i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'add', 'sub', 'mul', 'fpext', 'fptrunc', 'sext',
                                'zext', 'sitofp'):
                        return all(constant_value(prog, f, o, g, s) for o in i.ops)
                    return False
    return False


def lazy_constant(prog, g, flow):
    """a global only ever set to one computed constant, and never used before it is set"""
    stores = [(f, i) for k, f, i in flow.events if k == 'store']
    if any(k != 'store' for k, _, _ in flow.events) or not stores:
        return False
    vals = set()
    for f, i in stores:
        if i.op != 'store' or i.ops[1] != ('g', g.name) or not constant_value(prog, f, i.ops[0], g):
            return False
        vals.add((f, i.ops[0]))
    for f in {f for f, _ in flow.loads}:
        guards, guse = {}, set()
        loads = {i.res: i for h, i in flow.loads if h is f}
        for r, l in loads.items():
            us = list(cmps_of(f, r))
            if us and all(u.op in ('fcmp', 'icmp') and any(o[0] == 'k' for o in u.ops) for _, u in us):
                brs = [(b, w) for _, u in us for b, w in cmps_of(f, u.res)]
                if all(w.op == 'br' for _, w in brs):
                    guse.add(r)
                    for b, w in brs:
                        guards[b.name] = w
        # a branch of a guard that leads to the store computes the constant, the other knows it is there
        init_edges = set()
        setter = {b.name for b in f.blocks.values() for i in b.ins if any(i is s for _, s in stores)}
        for bn, w in guards.items():
            into = [t for t in w.x if t in setter]
            if len(into) == 1:
                init_edges |= {(bn, t) for t in w.x if t not in setter}
                for i in f.blocks[into[0]].ins:
                    if i.op in ('store', 'call') and not any(i is s for _, s in stores) and not (
                            i.op == 'call' and i.x[0][0] == 'g' and (i.x[0][1] in PURE or
                                                                     i.x[0][1].startswith('llvm.'))):
                        return False
            else:
                return False
        inn = {bn: True for bn in f.order}
        inn[f.order[0]] = False
        ch = True

        def flowb(bn, report=False):
            v = inn[bn]
            b = f.blocks[bn]
            for i in b.ins:
                if i.op == 'load' and i.res in loads and i.res not in guse and not v and report:
                    return None
                if any(i is s for _, s in stores):
                    v = True
            return v
        while ch:
            ch = False
            for bn in f.order:
                o = flowb(bn)
                for t in f.blocks[bn].succ if isinstance(f.blocks[bn].succ, (list, tuple)) else []:
                    x = o or (bn, t) in init_edges
                    if inn[t] and not x:
                        inn[t] = False
                        ch = True
        if any(flowb(bn, True) is None for bn in f.order):
            return False
    return True


@check('R01', 'whole-program flow of the addresses of all globals over the IR: no store, no escape to a writer; lazily '
              'computed constants proved unobservable; blacklist of stateful library calls')
def r01(c):
    P = sources(c)
    seen = {}
    written_types = {}
    for m, f, b, i in instrs(P):
        c.functions.add(f.name)
        if i.op == 'call' and i.x[0][0] == 'g' and P.func(i.x[0][1], m) is None:
            c.callsites.add(i.loc())
            c.ob('stateful', i.x[0][1] not in STATEFUL, '%s:%s' % (f.name, i.x[0][1]),
                 '%s uses the hidden state of %s' % (f.name, i.x[0][1]), i.loc())
        a = i.ops[1] if i.op == 'store' else None
        if a is not None and a[0] == 'l':
            for j in b.ins:
                if j.res == a[1] and j.op == 'getelementptr' and j.x[0][0] == 'n':
                    written_types.setdefault(j.x[0][1], []).append((f, i))
    setter = c.func(P, 'opk_set_error_handler', 'utils')
    caller = c.func(P, 'opk_error', 'utils')
    nerr = 0
    for m in P.modules:
        for g in m.globals.values():
            if g.const or g.init is None:
                continue
            if (m.name, g.name) in seen:
                continue
            seen[m.name, g.name] = 1
            fl = Flow(P, m, g)
            what = '%s of %s.c' % (g.name, m.name)
            # the error handler: called by opk_error
            called = any(i.op == 'call' and i.x[0][0] == 'l' and any(h is caller and l.res == i.x[0][1] for h, l in
                                                                      fl.loads)
                         for b in caller.blocks.values() for i in b.ins)
            if called:
                nerr += 1
            lazy = None
            for k, f, i in fl.events:
                if k == 'store':
                    if called and f is setter:
                        c.ob('globals', True, '')
                        continue
                    if lazy is None:
                        lazy = lazy_constant(P, g, fl)
                    c.ob('globals', lazy, '%s:%s' % (g.name, f.name),
                         '%s modifies the global variable %s' % (f.name, what), i.loc())
                else:
                    # a table whose address is given away: nobody may write a member of its type
                    t = g.ty
                    w = written_types.get(t[1], []) if t[0] == 'n' else None
                    loc = i.loc() if k == 'escape' else ''
                    c.ob('globals', w is not None and not w, '%s:escape' % g.name,
                         'the address of the modifiable global variable %s escapes%s' % (
                             what, (' and %s writes such objects' % w[0][0].name) if w else ''), loc)
            if not fl.events:
                c.ob('globals', True, '')
    c.ob('handler', nerr == 1, 'error_handler', '%d global variables are called as error handler' % nerr)
    c.require('globals', 8)
    c.require('stateful', 100)
    c.notes.append('%d modifiable globals of libopk and of the Powell solvers' % len(seen))


def header_param(header, fn, word):
    """position of a parameter in the declaration of a public function"""
    src = open(os.path.join(build.REPO, 'src', header)).read()
    src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
    m = re.search(r'\b%s\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)\s*;' % fn, src)
    if not m:
        return None
    d, args, cur = 0, [], ''
    for ch in m.group(1):
        d += (ch == '(') - (ch == ')')
        if ch == ',' and d == 0:
            args.append(cur)
            cur = ''
        else:
            cur += ch
    args.append(cur)
    for n, a in enumerate(args):
        if re.search(r'\b%s\b' % word, a):
            return n
    return None


def closure(P, roots, stop=()):
    """functions reachable by direct calls and by taking addresses"""
    out, todo = set(), list(roots)
    while todo:
        f = todo.pop()
        if f in out or f in stop:
            continue
        out.add(f)
        for b in f.blocks.values():
            for i in list(b.phis) + b.ins + [b.term]:
                ops = list(i.x.values()) if i.op == 'phi' else list(i.ops)
                if i.op == 'call':
                    ops = ops + [i.x[0]]
                for o in ops:
                    if o[0] == 'g':
                        h = P.func(o[1], f.mod)
                        if h is not None:
                            todo.append(h)
    return out


@check('R03', 'call graph over the IR: output and termination only in the default error handler and opk_vprint; in the '
              'Powell solvers, interprocedural conditional interval propagation with a zero verbosity shows that no '
              'output call is reachable')
def r03(c):
    P = c.lib()
    # the default error handler: the function initially held by the variable that opk_error calls
    caller = c.func(P, 'opk_error', 'utils')
    default = []
    for g in caller.mod.globals.values():
        if g.init is not None and g.init[0] == 'g':
            h = P.func(g.init[1], caller.mod)
            if h is not None:
                default.append(h)
    if not default:
        raise Broken('no default error handler')
    vprint = c.func(P, 'opk_vprint', 'algebra')
    # what the rest of the library can reach without opk_vprint (it calls the handler only through the variable)
    everything = [f for m in P.modules for f in m.functions.values()]
    roots = [f for f in everything if not f.internal and f is not vprint]
    tables = [P.func(o, m) for m in P.modules for g in m.globals.values() if g.init is not None and
              g.name not in [x.name for x in caller.mod.globals.values()] for o in init_functions(g.init)]
    rest = closure(P, roots + [t for t in tables if t is not None], stop=set(default) | {vprint})
    # opk_set_error_handler mentions the default handler only to install it
    n = 0
    for m, f, b, i in instrs(P):
        c.functions.add(f.name)
        if i.op == 'call' and i.x[0][0] == 'g' and P.func(i.x[0][1], m) is None:
            c.callsites.add(i.loc())
            nm = i.x[0][1]
            if nm in OUTPUT or nm in END:
                n += 1
            c.ob('silent', not (nm in OUTPUT and f in rest), '%s:%s' % (f.name, nm),
                 '%s produces output (%s)' % (f.name, nm), i.loc())
            c.ob('survives', not (nm in END and f in rest) and not (nm in END and f is vprint), '%s:%s' % (f.name, nm),
                 '%s terminates the program (%s)' % (f.name, nm), i.loc())
    if n < 3:
        raise Broken('only %d output or termination calls found' % n)
    for f in default:
        # nobody but the variable reaches the default handler directly
        for m, h, b, i in instrs(P):
            c.ob('handler', not (i.op == 'call' and i.x[0] == ('g', f.name) and P.func(i.x[0][1], m) is f),
                 '%s:%s' % (h.name, f.name), '%s calls the default error handler instead of the installed one' % h.name,
                 i.loc())
    for mod, hdr in (('cobyla', 'cobyla.h'), ('bobyqa', 'bobyqa.h'), ('newuoa', 'newuoa.h')):
        Q = c.lib([mod])
        entry = {}
        nip = 0
        for f in Q.module(mod).functions.values():
            if f.internal or f.name.endswith('_') or 'test' in f.name or f.name == 'main':
                continue
            k = header_param(hdr, f.name, 'iprint')
            entry[f] = {k: (0, 0)} if k is not None else {}
            nip += k is not None
        if nip < 1:
            raise Broken('no verbosity parameter in ' + hdr)
        iv = Intervals(Q, entry)
        total = sum(1 for m, f, b, i in instrs(Q) if i.op == 'call' and i.x[0][0] == 'g' and i.x[0][1] in OUTPUT)
        if total < 3:
            raise Broken('no output call in %s.c' % mod)
        c.ob('powell', True, '')
        bad = {i.loc(): (f, i) for f, i in iv.reachable_calls(OUTPUT)}
        for m, f, b, i in instrs(Q):
            c.functions.add(f.name)
            if i.op == 'call' and i.x[0][0] == 'g' and (i.x[0][1] in OUTPUT):
                c.ob('powell', i.loc() not in bad, '%s:%s' % (f.name, i.x[0][1]),
                     '%s may produce output although the verbosity is zero' % f.name, i.loc())
        for f, i in iv.reachable_calls(END):
            c.bad('survives', '%s:%s' % (f.name, i.x[0][1]), '%s terminates the program (%s)' % (f.name, i.x[0][1]),
                  i.loc())
        c.notes.append('%s: %d blocks reachable with zero verbosity' % (mod, len(iv.reach)))
    c.require('powell', 10)


def init_functions(init):
    if init[0] == 'g':
        return [init[1]]
    if init[0] == 'agg':
        return [x for _, v in init[2] for x in init_functions(v)]
    return []
