"""Shared machinery of the checks: registry, obligations, evidence, known findings."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from engine import build                                     # noqa: E402
from engine import absint as A                               # noqa: E402
from engine.absint import Engine, State, AnalysisLimit       # noqa: E402
from engine.terms import *                                   # noqa: E402,F401,F403

REG = {}
MODULES = ['algebra', 'vectors', 'options', 'linesearch', 'optimizers', 'objects', 'strings', 'fmins', 'powell', 'bounds',
           'dense', 'effects', 'lcg', 'gqt', 'yorick', 'driver', 'nulls', 'memory', 'workspace', 'stepping', 'updating']


class Broken(Exception):
    """the analysis itself is broken: a vanished anchor, zero instances, a failed self-test"""


def check(id, technique, level='other'):
    def deco(f):
        REG[id] = (f, technique, level)
        return f
    return deco


_progs = {}


def program(names, extra=(), mode='ssa'):
    k = (tuple(names), tuple(extra), mode)
    if k not in _progs:
        _progs[k] = build.load(list(names), extra, mode)
    return _progs[k]


class Ctx:
    def __init__(self, id, tier):
        self.id = id
        self.tier = tier
        self.obs = 0                # obligations
        self.fail = {}              # key -> message
        self.rules = {}             # rule -> number of instances
        self.functions = set()
        self.callsites = set()
        self.steps = 0
        self.notes = []
        self.assume = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def lib(self, names=None, extra=(), mode='ssa'):
        return program(names or build.LIBOPK, extra, mode)

    def engine(self, prog):
        e = Engine(prog)
        e.ctx = self
        return e

    def done(self, eng):
        """account for an analysis"""
        self.functions |= {f.name for f in eng.fnseen}
        self.callsites |= {i.loc() for i in eng.callsites}
        self.steps += eng.steps

    def ob(self, rule, ok, key, msg='', where=''):
        """one obligation; key identifies a violation independently of line numbers"""
        self.obs += 1
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if not ok:
            self.bad(rule, key, msg, where)
        return ok

    def bad(self, rule, key, msg, where=''):
        k = '%s/%s' % (rule, key)
        if k not in self.fail:
            self.fail[k] = '%s%s' % (msg, (' [at %s]' % where) if where else '')

    def require(self, rule, least):
        n = self.rules.get(rule, 0)
        if n < least:
            raise Broken('rule %s matched %d instances, at least %d were confirmed by hand' % (rule, n, least))

    def func(self, prog, name, mod=None):
        f = prog.func(name, prog.module(mod) if mod else None)
        if f is None:
            raise Broken('function %s not found in the sources' % name)
        return f


def parallel(c, jobs, workers=8):
    """run the jobs (functions of a context) in forked workers and merge what they found"""
    import multiprocessing as mp
    import pickle
    jobs = list(jobs)
    slots = [[] for _ in range(min(workers, max(1, len(jobs))))]
    for i, j in enumerate(jobs):
        slots[i % len(slots)].append(j)
    pipes = []
    sys.stdout.flush()
    for sl in slots:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                sub_c = type(c)(c.id, c.tier)
                sub_c.scene = getattr(c, 'scene', None)
                err = None
                try:
                    for j in sl:
                        j(sub_c)
                except BaseException as e:                      # reported by the parent
                    err = '%s: %s' % (type(e).__name__, e)
                    if os.environ.get('VERIF_DEBUG'):
                        traceback.print_exc()
                with os.fdopen(w, 'wb') as fo:
                    pickle.dump((sub_c.obs, sub_c.fail, sub_c.rules, sub_c.functions, sub_c.callsites, sub_c.steps,
                                 sub_c.notes, sub_c.assume, err), fo)
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    errs = []
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as fi:
            data = fi.read()
        os.waitpid(pid, 0)
        if not data:
            errs.append('a worker died')
            continue
        obs, fail, rules, fns, cs, steps, notes, assume, err = pickle.loads(data)
        c.obs += obs
        for k, v in fail.items():
            c.fail.setdefault(k, v)
        for k, v in rules.items():
            c.rules[k] = c.rules.get(k, 0) + v
        c.functions |= fns
        c.callsites |= cs
        c.steps += steps
        c.notes += [x for x in notes if x not in c.notes]
        c.assume += [x for x in assume if x not in c.assume]
        if err:
            errs.append(err)
    if errs:
        raise Broken('; '.join(errs))


def known():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(x.split('=', 1) for x in l[8:].split(None, 2)[:2])
                out[(d['property'], d['key'])] = l[8:].split(None, 2)[2]
    return out


def load_checks():
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'checks', m + '.py')):
            __import__('checks.' + m)


def run(id, tier):
    load_checks()
    f, technique, level = REG[id]
    c = Ctx(id, tier)
    t0 = time.time()
    try:
        f(c)
        err = None
    except (AnalysisLimit, Broken, build.BuildError, KeyError, RecursionError) as e:
        err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    if err is None and c.obs == 0:
        err = 'no obligation was generated'
    kn = known()
    viol, kf = [], []
    for k, m in sorted(c.fail.items()):
        (kf if (id, k) in kn else viol).append((k, m))
    ev = {
        'property': id, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
        'coverage': {
            'explanation': 'static analysis (%s): %d obligations over %d rules; %d functions analysed, %d call sites '
                           'resolved, %d abstract instruction steps'
                           % (technique, c.obs, len(c.rules), len(c.functions), len(c.callsites), c.steps),
            'obligations': c.obs, 'discharged': c.obs - len(c.fail),
            'rules': c.rules, 'functions': sorted(c.functions), 'callsites': len(c.callsites),
            'notes': c.notes,
        },
        'wall_s': round(time.time() - t0, 3),
        'assumptions': c.assume,
        'violations': len(viol),
    }
    ev['coverage']['found'] = [{'key': k, 'what': m} for k, m in viol]
    ev['coverage']['known_findings'] = [{'key': k, 'what': m} for k, m in kf]
    if level == 'proof':
        ev['coverage']['checker_cmd'] = 'python3 /verif/check %s %s' % (id, tier)
        ev['coverage']['trusted_base'] = ['clang 18 front end', '/verif/engine']
    if err:
        ev['coverage']['error'] = err
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', id + '.json')
    with open(path, 'w') as fo:
        json.dump(ev, fo, indent=1)
    for k, m in kf:
        print('KNOWN-FINDING: property=%s %s %s' % (id, k, m))
    for k, m in viol:
        print('  violated: %s: %s' % (k, m))
    if viol:
        rp = os.path.join(HERE, 'evidence', id + '.violation.txt')
        with open(rp, 'w') as fo:
            fo.write('\n'.join('%s: %s' % v for v in viol) + '\n')
        print('VIOLATION property=%s replay=%s' % (id, rp))
        return 1
    if err:
        print('ANALYSIS-BROKEN property=%s %s' % (id, err))
        return 2
    print('ok property=%s %d obligations, %d functions, %.1f s' % (id, c.obs, len(c.functions), time.time() - t0))
    return 0


# ------------------------------------------------------------------------------------------------ small helpers
def ext(st, eng, name, size=None):
    """an external object of its own (non-NULL, aliasing nothing else), content unknown"""
    r = eng.alloc(st, name, 0, 'ext', A.INIT, size)
    return mk('ptr', r, ZERO)


def put(eng, st, p, off, v, size=8):
    eng.write(st, mk('ptr', p.a[0], add(p.a[1], I(off))), v, size)


def get(eng, st, p, off, ty, size=8):
    return eng.read(st, mk('ptr', p.a[0], add(p.a[1], I(off))), ty, size)


def fsym(name):
    return mk('at', name, 'f')


def isym(name):
    return as_poly(mk('at', name, 'i'))
