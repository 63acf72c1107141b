"""Compile with cmmc for a target, assemble, link against the stub library and run under our emulator."""
import json
import os
import re
import subprocess
import threading
import vlib
import lang
from vlib import run, VERIF, InfraError
import sys
sys.path.insert(0, os.path.join(VERIF, 'emu'))
import stubs

EMU = os.path.join(VERIF, 'emu')
_lock = threading.Lock()
_memo = {}
BASES = {'riscv': '0x2a00010000', 'arm': '0x10010000', 'mips': '0x10010000'}
AS = {'riscv': ['riscv64-linux-gnu-as', '-march=rv64g_zba_zbb'], 'arm': ['arm-linux-gnueabihf-as'],
      'mips': ['llvm-mc-18', '-triple=mipsel-linux-gnu', '-mcpu=mips32r2', '-filetype=obj']}
LD = {'riscv': ['riscv64-linux-gnu-ld', '--no-relax'], 'arm': ['arm-linux-gnueabihf-ld'], 'mips': ['ld.lld-18', '-m', 'elf32ltsmip']}


def emulator(arch):
    with _lock:
        if arch not in _memo:
            src = {'riscv': 'rv64.cpp', 'arm': 'a32.cpp', 'mips': 'mips32.cpp'}[arch]
            _memo[arch] = vlib.tool('emu_' + arch, [os.path.join(EMU, src)], ['-O2', '-w'], deps=[os.path.join(EMU, 'host.hpp')])
        return _memo[arch]


def stub_obj(arch):
    with _lock:
        k = arch + 's'
        if k not in _memo:
            d = os.path.join(vlib.CACHE, 'tools')
            os.makedirs(d, exist_ok=True)
            b = os.path.join(d, 'stubs-%s-%d' % (arch, os.getpid()))
            with open(b + '.s', 'w') as f:
                f.write(stubs.stubs(arch))
            r = run(AS[arch] + ['-o', b + '.o', b + '.s'])
            if r.rc != 0:
                raise InfraError('cannot assemble the stubs for %s: %s' % (arch, r.err.decode()))
            _memo[k] = b + '.o'
        return _memo[k]


# texts of the compiler's own refusals that are recorded as known limits (known_findings.txt)
REFUSED = {'riscv': (b'legalizeAddrBaseOffsetPostRA',), 'arm': (), 'mips': ()}


class Native:
    """Outcome of one compiled execution. kind: ok / compile / assemble / link / violation / limit"""
    __slots__ = ('kind', 'st', 'out', 'err', 'stats', 'asm')

    def __init__(self):
        self.kind, self.st, self.out, self.err, self.stats, self.asm = 'ok', None, b'', b'', {}, b''


def native(cm, p, arch, level, work, extra=(), timeout=100, tag='', limit=1500000000, text=None, suffix='.sy', rt=None, keep=False, asm_fix=True):
    n = Native()
    b = os.path.join(work, '%s.%s.%s%s' % (p.name, arch, tag, level))
    src, asm, obj, elf, inp, out, stat = (b + x for x in (suffix, '.s', '.o', '.elf', '.in', '.out', '.st'))
    try:
        with open(src, 'w') as f:
            f.write(p.text if text is None else text)
        with open(inp, 'w') as f:
            f.write(p.inp)
        more = list(extra)
        if arch == 'arm':
            more.append('--with-runtime=false')
        r = run([cm, '-t', arch, '-O', str(level), '-H', *more, '-o', asm, src], timeout=timeout)
        if r.to or r.rc != 0:
            n.kind, n.st, n.err = 'compile', 'TO' if r.to else r.rc, r.err
            return n
        with open(asm, 'rb') as f:
            n.asm = f.read()
        t = n.asm
        if arch == 'riscv':
            # keep 32-bit encodings: the emulator has no compressed instructions
            t = b'\n'.join(x for x in t.split(b'\n') if b'.attribute arch' not in x)
        elif arch == 'mips':
            t = b'.set noreorder\n' + t
            if asm_fix:
                # recorded finding mips_jumptable: the annotation of an indirect jump is written with '@', which no assembler takes
                t = re.sub(rb'(?m)^(\tjr \$\w+) @ (__cmmc_jumptable\d+)$', rb'\1 # \2', t)
        with open(asm, 'wb') as f:
            f.write(t)
        r = run(AS[arch] + ['-o', obj, asm], timeout=60)
        if r.rc != 0:
            n.kind, n.st, n.err = 'assemble', r.rc, r.err
            return n
        objs = [obj, stub_obj(arch)] + ([rt] if rt else [])
        r = run(LD[arch] + ['--image-base=' + BASES[arch] if arch == 'mips' else '-Ttext-segment=' + BASES[arch], '-e', '__start' if arch == 'mips' else '_start', '-o', elf] + objs, timeout=60)
        if r.rc != 0:
            n.kind, n.st, n.err = 'link', r.rc, r.err
            return n
        _execute(n, arch, p, elf, inp, out, stat, limit, timeout, ())
        if n.stats.get('known_idiom') and not (n.kind == 'ok' and lang.same(p, n.st, n.out)):
            # only the recorded idiom may explain it: nothing else may differ once its branches go the right way
            m = Native()
            m.asm = n.asm
            _execute(m, arch, p, elf, inp, out, stat, limit, timeout, ('ideal',))
            if m.kind == 'ok' and lang.same(p, m.st, m.out):
                m.kind = 'known'
                m.err = describe(p, n).encode()
            return m
        return n
    finally:
        if not keep:
            for q in (src, asm, obj, elf, inp, out, stat):
                if os.path.exists(q):
                    os.unlink(q)


def _execute(n, arch, p, elf, inp, out, stat, limit, timeout, mode):
    for q in (out, stat):
        if os.path.exists(q):
            os.unlink(q)
    r = run([emulator(arch), elf, inp, out, stat, str(limit), *mode], timeout=timeout)
    n.err = r.err
    if os.path.exists(out):
        with open(out, 'rb') as f:
            n.out = f.read()
    try:
        with open(stat) as f:
            n.stats = json.load(f)
    except (OSError, ValueError):
        pass
    if r.to or r.rc == 71:
        n.kind, n.st = 'limit', 'TO'
    elif r.rc == 70:
        n.kind, n.st = 'violation', 'V'
    elif r.rc != 0:
        raise InfraError('emulator %s: rc=%s %s' % (arch, r.rc, r.err.decode(errors='replace')[-500:]))
    else:
        n.st = n.stats.get('rc')


def explained(cm, p, arch, level, work):
    """Is a failure on MIPS explained by the recorded inversion of unordered float comparisons (known/mips_fcmp)?
    Only programs whose final IR contains such a comparison qualify."""
    if arch != 'mips':
        return False
    b = os.path.join(work, '%s.ir.%s' % (p.name, level))
    try:
        with open(b + '.sy', 'w') as f:
            f.write(p.text)
        r = run([cm, '-t', arch, '-i', '-O', str(level), '-H', '-o', b, b + '.sy'], timeout=100)
        with open(b, 'rb') as f:
            t = f.read()
        return r.rc == 0 and any((' fcmp %s ' % x).encode() in t for x in ('ult', 'ule', 'ugt', 'uge'))
    except OSError:
        return False
    finally:
        for q in (b, b + '.sy'):
            if os.path.exists(q):
                os.unlink(q)


def describe(p, n):
    e = n.err.decode(errors='replace')[-400:].strip()
    if n.kind == 'compile':
        return 'the compiler %s; %s' % ('does not come to an end' if n.st == 'TO' else 'fails with status %s' % n.st, e)
    if n.kind in ('assemble', 'link'):
        return 'the emitted text does not %s: %s' % (n.kind, e)
    if n.kind == 'violation':
        return e
    return lang.describe(p, n.st, n.out, n.err)


def coverage_check(c, cm, arch, plan, levels, rt=None):
    """The body of the three code generation checks."""
    import langcheck
    ops = set()

    def after(p, lv, r):
        for line in r.stats.get('asm', b'').split(b'\n'):
            w = line.split(None, 1)
            if w and not w[0].startswith((b'.', b'#', b'@')) and not w[0].endswith(b':'):
                ops.add(w[0])
        for k, v in r.stats.items():
            if isinstance(v, int) and k != 'rc':
                c.count('emulated_' + k, v)
    emulator(arch)
    stub_obj(arch)
    langcheck.check(c, plan, levels, langcheck.native_runner(cm, c.work, arch, rt), arch=arch, after=after,
                    replay='cmmc -t %s -O %%s -H -o prog.s prog.sy  # assemble, link with emu/stubs.py, run on the emulator\n' % arch)
    c.cov['distinct_machine_instructions_emitted'] = len(ops)
    c.cov['machine_instructions'] = b' '.join(sorted(ops)).decode()
    native_known(c, cm, arch, rt)


def native_known(c, cm, arch, rt=None):
    """Recorded findings of a back end: known/<case>.sy with the program, its input and the levels."""
    import langcheck
    run1 = langcheck.native_runner(cm, c.work, arch, rt)
    for case, what in vlib.known(c.pid):
        b = os.path.join(VERIF, 'known', case)
        pr = lang.Prog('known_' + case, open(b + '.sy').read(), open(b + '.in').read())
        if not lang.oracle(pr, c.work):
            c.infra.append('known case %s has no reference: %s' % (case, pr.why))
            continue
        for lv in '0123':
            r = run1(pr, lv)
            if case == 'mips_jumptable':
                n = native(cm, pr, arch, lv, c.work, asm_fix=False)
                r = langcheck.Out('bad' if n.kind == 'assemble' else r.kind, n.st, n.out, n.err, r.what)
            if r.kind in ('bad', 'refused', 'known'):
                c.finding('%s (%s.sy -O%s: %s)' % (what, case, lv, (r.what or r.err.decode(errors='replace') or 'wrong output')[-160:].replace('\n', ' ')))
                break
