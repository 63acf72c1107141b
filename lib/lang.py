"""Language-level oracle: a generated program is compiled by g++ with UBSan (no optimisation) against the
reference run-time library; what it prints and returns is what every cmmc execution must reproduce."""
import os
import re
import threading
import vlib
from vlib import run, VERIF, InfraError
import sysygen
import exprgen
import idiomgen
import recgen
import matgen

_lock = threading.Lock()
_lib = {}


def sylib_obj():
    with _lock:
        if 'o' not in _lib:
            _lib['o'] = vlib.tool('sylib_host.o', [os.path.join(VERIF, 'rt', 'sylib_host.c')], ['-O1', '-c'], cxx='gcc')
        return _lib['o']


class Prog:
    __slots__ = ('name', 'text', 'inp', 'feats', 'rc', 'out', 'why')

    def __init__(self, name, text, inp, feats=None):
        self.name, self.text, self.inp, self.feats = name, text, inp, feats or {}
        self.rc = self.out = self.why = None


def norm(b):
    """Floats are compared up to the sign of zero (SysY gives no guarantee for it)."""
    return re.sub(rb'-0x0p\+0(?![0-9])', b'0x0p+0', b)


def oracle(p, work):
    """Fill p.rc/p.out; returns False if the program has no defined meaning (the generator is wrong)."""
    b = os.path.join(work, p.name + '.ref')
    with open(b + '.sy', 'w') as f:
        f.write(p.text)
    r = run(['g++', '-w', '-Wno-narrowing', '-O0', '-ffp-contract=off', '-fsanitize=undefined', '-fno-sanitize-recover=all', '-x', 'c++', '-include',
             os.path.join(VERIF, 'rt', 'sylib_host.h'), b + '.sy', '-x', 'none', sylib_obj(), '-o', b + '.exe'], timeout=120)
    if r.rc != 0:
        p.why = 'reference compiler: ' + r.err.decode(errors='replace')[:400]
        os.unlink(b + '.sy')
        return False
    r = run([b + '.exe'], p.inp, timeout=60)
    os.unlink(b + '.exe')
    os.unlink(b + '.sy')
    if r.to or r.rc < 0 or r.err:
        p.why = 'reference run: rc=%s %s' % (r.rc, r.err.decode(errors='replace')[:300])
        return False
    p.rc, p.out = r.rc, r.out
    return True


def sim(cm, p, level, work, extra=(), timeout=100, tag='', text=None, suffix='.sy'):
    """Execute with cmmc's interpreter at an optimisation level. Returns (status, output bytes, stderr)."""
    b = os.path.join(work, '%s.%s%s' % (p.name, tag, level))
    src, inp, out = b + suffix, b + '.in', b + '.out'
    with open(src, 'w') as f:
        f.write(p.text if text is None else text)
    with open(inp, 'w') as f:
        f.write(p.inp)
    r = run([cm, '-t', 'sim', '-O', str(level), '-H', *extra, '-e', inp, '-o', out, src], timeout=timeout)
    o = b''
    if os.path.exists(out):
        with open(out, 'rb') as f:
            o = f.read()
    for q in (src, inp, out):
        if os.path.exists(q):
            os.unlink(q)
    return ('TO' if r.to else r.rc), o, r.err


def describe(p, st, out, err):
    if st == 'TO':
        return 'no result within the time limit'
    if st != p.rc:
        return 'exit status %s, expected %s; %s' % (st, p.rc, err.decode(errors='replace')[-300:])
    a, b = norm(out), norm(p.out)
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return 'output differs at byte %d: got ...%r, expected ...%r' % (n, a[max(0, n - 30):n + 30], b[max(0, n - 30):n + 30])


def same(p, st, out):
    return st == p.rc and norm(out) == norm(p.out)


def replay_files(p, got=b'', extra=None):
    d = {'prog.sy': p.text, 'prog.in': p.inp, 'expected.out': (p.out or b'') + b'\n[exit %d]\n' % (p.rc if p.rc is not None else -1), 'got.out': got}
    d.update(extra or {})
    return d


_Z = re.compile(r'/( *\(*-?)(3|6|641|6700417|715827883|1431655766)\b')


def no_shiftless_div(text):
    """Replace the divisors whose quotient the RISC-V back end leaves zero-extended (a known finding, pinned by the
    repository's own reference assembly): 3 -> 5, 6 -> 10, the others + 2."""
    return _Z.sub(lambda m: '/' + m.group(1) + {'3': '5', '6': '10'}.get(m.group(2), str(int(m.group(2)) + 2)), text)


def make(kind, seed, arch=None, **kw):
    """kind: 'rnd' random program, 'rndx' the same with extended operators, 'pee'/'peex' peephole table, 'idi' loop idioms"""
    if kind in ('rnd', 'rndx'):
        t, i, f = sysygen.generate(seed, ext=kind == 'rndx', **kw)
    elif kind in ('pee', 'peex'):
        t, i = exprgen.generate(seed, ext=kind == 'peex', **kw)
        f = {}
    elif kind == 'rec':
        t, i = recgen.generate(seed)
        f = {}
    elif kind == 'mat':
        t, i = matgen.generate(seed)
        f = {}
    else:
        t, i = idiomgen.generate(seed, ext=kind == 'idix', **kw)
        f = {}
    if arch == 'riscv':
        t = no_shiftless_div(t)
    return Prog('%s%d' % (kind, seed), t, i, f)
