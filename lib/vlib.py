"""Shared machinery of the checks: builds of /repo, a case runner, evidence, known findings."""
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '_cache'))
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))
QUICK = TIER == 'quick'
sys.path.insert(0, os.path.join(VERIF, 'gen'))

os.environ['LC_ALL'] = 'C.UTF-8'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True


class InfraError(Exception):
    """The check itself could not give an answer."""


# ---------------------------------------------------------------- processes
class Res:
    __slots__ = ('rc', 'out', 'err', 'to', 'wall')

    def __init__(self, rc, out, err, to, wall):
        self.rc, self.out, self.err, self.to, self.wall = rc, out, err, to, wall


def _limits(mem, core=0):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def run(cmd, inp=b'', timeout=60, cwd=None, env=None, mem=None):
    """Run one process (own session, killed as a group on a time-out)."""
    t = time.time()
    if isinstance(inp, str):
        inp = inp.encode()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         preexec_fn=_limits(mem) if mem else None, start_new_session=not mem)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return Res(p.returncode, o, e, False, time.time() - t)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return Res(None, o, e, True, time.time() - t)


# ---------------------------------------------------------------- builds
def _sources():
    for base in ('cmmc', 'CMakeLists.txt'):
        p = os.path.join(REPO, base)
        if os.path.isfile(p):
            yield p
        for d, ds, fs in os.walk(p):
            ds.sort()
            for f in sorted(fs):
                yield os.path.join(d, f)


def source_hash(extra=''):
    h = hashlib.sha256(extra.encode())
    for p in _sources():
        h.update(os.path.relpath(p, REPO).encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


COMMON = '-g0 -w -Wno-error -DNDEBUG -ffp-contract=on -march=x86-64'
FLAVORS = {
    # name: (compiler, flags, cmake options, link flags, use a precompiled header)
    'plain': ('g++', '-O1 ' + COMMON, [], '', True),
    'hooks': ('g++', '-O1 -DCMMC_VERIF_HOOKS ' + COMMON, [], '', True),
    'asan': ('clang++', '-O1 -g1 -w -Wno-error -DNDEBUG -DCMMC_VERIF_HOOKS -fno-omit-frame-pointer -fsanitize=address,undefined '
             '-fno-sanitize=vptr,function -fno-sanitize-recover=all -ffp-contract=on -march=x86-64 -I' + REPO + '/cmmc/Support/mimalloc/include',
             ['-DCMMC_DETERMINISTIC=OFF'], '-fsanitize=address,undefined -fno-sanitize=vptr,function', True),
}


def build(flavor='plain', target='cmmc'):
    """Build /repo's current tree; returns the build directory."""
    cxx, flags, opts, link, pch = FLAVORS[flavor]
    key = source_hash(json.dumps(FLAVORS[flavor]))
    d = os.path.join(CACHE, 'build', flavor)
    os.makedirs(os.path.dirname(d), exist_ok=True)
    with open(d + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = d + '.' + target + '.stamp'
        if os.path.exists(stamp) and open(stamp).read() == key and os.path.isdir(d):
            return d
        for s in glob.glob(d + '.*.stamp'):
            os.unlink(s)
        t = time.time()
        for use_pch in ([True, False] if pch else [False]):
            shutil.rmtree(d, ignore_errors=True)
            rule = '%s <DEFINES> <INCLUDES> <FLAGS> -std=c++17 %s -o <OBJECT> -c <SOURCE>' % (cxx, flags)
            cc = cxx.replace('clang++', 'clang').replace('g++', 'gcc')
            rulec = cc + ' <DEFINES> <INCLUDES> -O2 -DNDEBUG -o <OBJECT> -c <SOURCE>'
            cmd = ['cmake', '-S', REPO, '-B', d, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release', '-DCMMC_LLVM_SUPPORT=OFF',
                   '-DCMAKE_C_COMPILER=/usr/bin/' + cc, '-DCMAKE_CXX_COMPILER=/usr/bin/' + cxx,
                   '-DPython3_EXECUTABLE=/usr/bin/python3', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
                   '-DCMAKE_CXX_COMPILE_OBJECT=' + rule, '-DCMAKE_C_COMPILE_OBJECT=' + rulec,
                   '-DCMAKE_EXE_LINKER_FLAGS=' + link] + opts
            if use_pch:
                cmd.append('-DCMAKE_PROJECT_INCLUDE=' + os.path.join(VERIF, 'tools', 'pch.cmake'))
            r = run(cmd, timeout=120)
            if r.rc != 0:
                err = r.err
                continue
            r = run(['ninja', '-C', d, target], timeout=700)
            if r.rc == 0:
                with open(stamp, 'w') as f:
                    f.write(key)
                print('built %s in %.0f s' % (flavor, time.time() - t), flush=True)
                return d
            err = r.out[-3000:] + r.err[-1000:]
        raise InfraError('cannot build /repo (%s): %s' % (flavor, err.decode(errors='replace')))


def cmmc(flavor='plain'):
    return os.path.join(build(flavor), 'bin', 'cmmc')


def tool(name, sources, flags=(), cxx='g++', deps=()):
    """Compile one of our own tools (emulators, monitors, harnesses)."""
    h = hashlib.sha256(repr((cxx, flags)).encode())
    for s in list(sources) + list(deps):
        with open(s, 'rb') as f:
            h.update(f.read())
    d = os.path.join(CACHE, 'tools')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, name + '-' + h.hexdigest()[:16])
    with open(os.path.join(d, name + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            r = run([cxx] + list(flags) + ['-o', out + '.tmp'] + [s for s in sources], timeout=300)
            if r.rc != 0:
                raise InfraError('cannot build %s: %s' % (name, r.err.decode(errors='replace')[-2000:]))
            os.rename(out + '.tmp', out)
    return out


# ---------------------------------------------------------------- a check
class Check:
    def __init__(self, pid, rule):
        self.pid, self.rule = pid, rule
        self.t0 = time.time()
        self.cov = {}
        self.evals = 0
        self.nontrivial = 0
        self.samples = []
        self.violations = []
        self.findings = []
        self.infra = []
        self.lock = threading.Lock()
        self.work = os.path.join(CACHE, 'work', pid)
        self.replays = os.path.join(CACHE, 'replay', pid)
        shutil.rmtree(self.work, ignore_errors=True)
        shutil.rmtree(self.replays, ignore_errors=True)
        os.makedirs(self.work)
        # a check that gets stuck has no answer; never run into the limit of the caller silently
        self.deadline = self.t0 + float(os.environ.get('VERIF_DEADLINE', '780' if QUICK else '6000'))

    def count(self, key, n=1):
        with self.lock:
            self.cov[key] = self.cov.get(key, 0) + n

    def maxi(self, key, n):
        with self.lock:
            self.cov[key] = max(self.cov.get(key, 0), n)

    def case(self, n=1, nontrivial=True):
        with self.lock:
            self.evals += n
            if nontrivial:
                self.nontrivial += n

    def sample(self, s, limit=6):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def late(self):
        return time.time() > self.deadline

    def map(self, fn, items, jobs=None):
        """Run fn over items with a thread pool; an exception in a case is an infrastructure problem."""
        def g(x):
            if self.late():
                self.count('skipped_past_deadline')
                return None
            if len(self.violations) >= 5:
                return None
            try:
                return fn(x)
            except InfraError as e:
                with self.lock:
                    self.infra.append('%r: %s' % (x, str(e)[:500]))
            return None
        with ThreadPoolExecutor(jobs or JOBS) as ex:
            return list(ex.map(g, items))

    def violation(self, name, what, files):
        """files: {name: content}; written to a replay directory."""
        d = os.path.join(self.replays, re.sub(r'[^A-Za-z0-9_.-]', '_', str(name)))
        os.makedirs(d, exist_ok=True)
        for k, v in files.items():
            with open(os.path.join(d, k), 'wb') as f:
                f.write(v if isinstance(v, bytes) else str(v).encode())
        with open(os.path.join(d, 'WHAT.txt'), 'w') as f:
            f.write(what + '\n')
        with self.lock:
            self.violations.append((d, what))
            print('VIOLATION property=%s replay=%s' % (self.pid, d), flush=True)
            print('  ' + what[:1500].replace('\n', '\n  '), flush=True)

    def finding(self, what):
        with self.lock:
            self.findings.append(what)
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what), flush=True)

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'evaluations': self.evals, 'distinct_nontrivial': self.nontrivial, 'rule': self.rule,
               'samples': self.samples or ['(none)']}
        cov.update({k: v for k, v in sorted(self.cov.items())})
        if self.findings:
            cov['known_findings_reproduced'] = self.findings
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': 'exploration', 'coverage': cov,
              'violations': len(self.violations), 'infrastructure_problems': self.infra[:10],
              'wall_s': round(time.time() - self.t0, 2)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        print('%s: %d evaluations, %d non-trivial, %d violations, %d known findings, %.0f s' % (
            self.pid, self.evals, self.nontrivial, len(self.violations), len(self.findings), time.time() - self.t0))
        if self.violations:
            return 1
        if self.infra:
            print('NO ANSWER: ' + '; '.join(self.infra[:5]))
            return 2
        if self.evals == 0:
            print('NO ANSWER: nothing was evaluated')
            return 2
        return 0


def main(pid, rule, fn):
    c = Check(pid, rule)
    try:
        fn(c)
    except InfraError as e:
        c.infra.append(str(e)[:3000])
    rc = c.finish()
    sys.stdout.flush()
    os._exit(rc)


# ---------------------------------------------------------------- known findings
def known(pid):
    """entries 'KNOWN-FINDING: property=<id> case=<file> <what>' of known_findings.txt"""
    res = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) case=(\S+) (.*)$', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res
