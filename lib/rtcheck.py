"""Builds of the run-time library (cmmc/Runtime/cmmc_sysy_rt.cpp) for the host, under sanitizers, with a monitor."""
import hashlib
import os
import re
import vlib
from vlib import run, VERIF, REPO, CACHE, InfraError

WRAP = '-Wl,--wrap=clone,--wrap=waitpid,--wrap=syscall,--wrap=sched_setaffinity'


def build(harness, san, wrap):
    src = os.path.join(REPO, 'cmmc', 'Runtime', 'cmmc_sysy_rt.cpp')
    har = os.path.join(VERIF, 'harness', harness + '.cpp')
    d = os.path.join(CACHE, 'rt')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256()
    for p in (src, har):
        h.update(open(p, 'rb').read())
    out = os.path.join(d, '%s-%s-%s' % (harness, san.split(',')[0], h.hexdigest()[:12]))
    flags = ['-std=c++17', '-O1', '-g', '-w', '-fsanitize=' + san, '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
    for s, o in ((src, out + '.rt.o'), (har, out + '.h.o')):
        # the library may include other files of its directory
        r = run(['clang++', *flags, '-I', REPO, '-c', s, '-o', o], timeout=200)
        if r.rc != 0:
            raise InfraError('cannot build %s: %s' % (s, r.err.decode(errors='replace')[-1500:]))
    r = run(['clang++', '-fsanitize=' + san, out + '.rt.o', out + '.h.o', *([WRAP] if wrap else []), '-o', out, '-lpthread'], timeout=200)
    if r.rc != 0:
        raise InfraError('cannot link the monitor: ' + r.err.decode(errors='replace')[-1500:])
    return out


def execute(c, exe, name, seed, budget):
    env = dict(os.environ, TSAN_OPTIONS='halt_on_error=1 exitcode=66', ASAN_OPTIONS='detect_leaks=0:exitcode=67', UBSAN_OPTIONS='print_stacktrace=1')
    r = run([exe, str(seed), str(budget)], timeout=budget + 120, env=env)
    out = r.out.decode(errors='replace')
    err = r.err.decode(errors='replace')
    m = re.search(r'^BAD (.*)$', out, re.M)
    what = None
    if m:
        what = m.group(1)
    elif 'unexpected memory mapping' in err or 'personality' in err:
        raise InfraError('the sanitizer cannot start here: ' + err[:300])
    elif 'Sanitizer' in err or 'runtime error' in err:
        what = (re.search(r'(WARNING: ThreadSanitizer: [^\n]*|runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*)', err) or [err[:300]])[0]
        st = re.findall(r'^ +#\d+ .*cmmc_sysy_rt.*$', err, re.M)
        what += ''.join('\n' + s.strip() for s in st[:4])
    elif r.to:
        what = 'the monitored run does not come to an end'
    elif r.rc != 0 or not out.rstrip().endswith('OK'):
        what = 'the monitored run ends with status %s: %s' % (r.rc, (out + err)[-300:])
    if what:
        c.violation('%s-%d' % (name, seed), '%s (seed %d): %s' % (name, seed, what),
                    {'stdout.txt': out, 'stderr.txt': err, 'REPLAY.sh': '%s %d %s\n' % (exe, seed, budget)})
        return {}
    toks = out.split()
    res = {}
    for k, v in zip(toks[0::2], toks[1::2]):
        if v.isdigit():
            res[k] = int(v)
    return res
