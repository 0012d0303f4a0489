"""Front end: compile /repo's current sources to LLVM IR (nothing is executed) and parse them."""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from . import ir
from .absint import Program

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang'
OPT = '/usr/lib/llvm-18/bin/opt'
CLIENTS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'clients')
LIBOPK = ['algebra', 'utils', 'lcg', 'gqtpar', 'lnsrch', 'linalg', 'nlcg', 'fmin', 'vmlmb', 'fltvector', 'dblvector',
          'driver']
POWELL = ['cobyla', 'bobyqa', 'newuoa']
YORICK = ['opky', 'ycobyla', 'ynewuoa']


class BuildError(Exception):
    pass


def _one(args):
    name, out, extra, mode = args
    sub = 'yorick' if name in YORICK else 'src'
    src = os.path.join(REPO, sub, name + '.c')
    if name.startswith('client_'):
        # a most general client of the interface, analysed together with the sources (never run)
        src = os.path.join(CLIENTS, name[7:] + '.c')
    inc = ['-I' + os.path.join(REPO, 'src'), '-I' + os.path.join(REPO, sub)]
    if sub == 'yorick':
        inc.append('-I/usr/share/yorick/include')
    ll0 = os.path.join(out, name + '.0.ll')
    ll = os.path.join(out, name + '.ll')
    cmd = [CLANG, '-std=gnu11', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-ffp-contract=off',
           '-fno-discard-value-names', '-w', '-S', '-emit-llvm'] + extra + inc + [src, '-o', ll0]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.join(REPO, sub))
    if p.returncode:
        raise BuildError('clang failed on %s:\n%s' % (src, p.stdout.decode()[:2000]))
    if mode == 'raw':
        return ll0
    passes = 'function(sroa)'
    if mode == 'inlined':
        # static helpers become part of their callers (nothing else changes)
        with open(ll0) as fi:
            t = fi.read()
        t = t.replace('noinline ', '')
        t = re.sub(r'^(define internal .*\)) (#\d+)', r'\1 alwaysinline \2', t, flags=re.M)
        with open(ll0, 'w') as fo:
            fo.write(t)
        passes = 'function(sroa),always-inline,function(sroa),globaldce'
    p = subprocess.run([OPT, '-S', '-passes=' + passes, ll0, '-o', ll], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('opt failed on %s:\n%s' % (src, p.stdout.decode()[:2000]))
    return ll


def load(names, extra=(), mode='ssa'):
    """mode: 'ssa', 'inlined' (static functions inlined) or 'raw' (local variables in memory)"""
    out = tempfile.mkdtemp(prefix='opkir.')
    try:
        with ThreadPoolExecutor(8) as ex:
            lls = list(ex.map(_one, [(n, out, list(extra), mode) for n in names]))
        mods = [ir.parse_module(ll, n) for n, ll in zip(names, lls)]
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return Program(mods)
