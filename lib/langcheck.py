"""Shared body of the language-level checks P01 (no optimisation) and P02 (O1..O3)."""
import os
import vlib
import lang
from vlib import QUICK, SEED


def workload(plan):
    """plan: [(kind, count)] -> list of (kind, seed); the seeds depend on VERIF_SEED only."""
    res = []
    for kind, n in plan:
        base = {'rnd': 10000000, 'rndx': 20000000, 'pee': 30000000, 'peex': 40000000, 'idi': 50000000, 'idix': 60000000, 'rec': 70000000, 'mat': 80000000}[kind]
        res += [(kind, base + (SEED - 1) * 100000 + i) for i in range(n)]
    # mix the kinds so that a time limit does not starve one of them
    res.sort(key=lambda x: (x[1] % 100000) / dict(plan)[x[0]])
    return res


def known_cases(c, cm, levels, extra=()):
    """Reproduce each recorded finding; a listed case that no longer fails is simply not reported."""
    for case, what in vlib.known(c.pid):
        p = os.path.join(vlib.VERIF, 'known', case)
        pr = lang.Prog('known_' + os.path.basename(case).split('.')[0], open(p + '.sy').read(), open(p + '.in').read())
        if not lang.oracle(pr, c.work):
            c.infra.append('known case %s has no reference: %s' % (case, pr.why))
            continue
        for lv in levels:
            st, o, e = lang.sim(cm, pr, lv, c.work, extra=extra, timeout=20)
            if not lang.same(pr, st, o):
                c.finding('%s (%s.sy -O%s: %s)' % (what, case, lv, lang.describe(pr, st, o, e)[:160].replace('\n', ' ')))
                break


class Out:
    """Outcome of one execution: kind ok / slow (the compiler needs too long) / refused (a documented limit) / bad"""
    __slots__ = ('kind', 'st', 'out', 'err', 'what', 'stats')

    def __init__(self, kind, st=None, out=b'', err=b'', what='', stats=None):
        self.kind, self.st, self.out, self.err, self.what, self.stats = kind, st, out, err, what, stats or {}


def sim_runner(cm, work):
    """Compile and interpret. A run without a result in time is tried again with the compiler alone, to tell a slow
    compilation from an execution that does not come to an end."""
    def go(p, lv):
        st, o, e = lang.sim(cm, p, lv, work, timeout=60)
        if st == 'TO':
            b = os.path.join(work, '%s.c%s' % (p.name, lv))
            with open(b + '.sy', 'w') as f:
                f.write(p.text)
            r = vlib.run([cm, '-t', 'sim', '-O', str(lv), '-H', '-i', '-o', '/dev/null', b + '.sy'], timeout=150)
            os.unlink(b + '.sy')
            if r.to:
                return Out('slow', 'TO', b'', b'', 'the compiler needs more than 150 s')
            st, o, e = lang.sim(cm, p, lv, work, timeout=240)
        if lang.same(p, st, o):
            return Out('ok', st, o, e)
        return Out('bad', st, o, e, lang.describe(p, st, o, e))
    return go


def native_runner(cm, work, arch, rt=None):
    import codegen

    def go(p, lv):
        n = codegen.native(cm, p, arch, lv, work, timeout=90, rt=rt)
        if n.kind == 'compile' and n.st == 'TO':
            n = codegen.native(cm, p, arch, lv, work, timeout=240, rt=rt)
            if n.kind == 'compile' and n.st == 'TO':
                return Out('slow', 'TO', b'', b'', 'the compiler needs more than 240 s')
        if n.kind == 'compile' and any(x in n.err for x in codegen.REFUSED.get(arch, ())):
            return Out('refused', n.st, b'', n.err, stats={'asm': n.asm})
        st = dict(n.stats, asm=n.asm)
        if n.kind == 'known':
            return Out('known', n.st, n.out, n.err, stats=st)
        if n.kind == 'ok' and lang.same(p, n.st, n.out):
            return Out('ok', n.st, n.out, n.err, stats=st)
        if codegen.explained(cm, p, arch, lv, work):
            return Out('known', n.st, n.out, n.err, stats=st)
        return Out('bad', n.st, n.out, n.err, codegen.describe(p, n), st)
    return go


def check(c, plan, levels, runner, arch=None, replay='', after=None, slow_limit=3):
    """levels: a string of levels, or a function (kind, index) -> string. runner(prog, level) -> Out"""
    slow = []

    def one(item):
        kind, seed = item
        p = lang.make(kind, seed, arch)
        if not lang.oracle(p, c.work):
            c.count('generated_programs_without_meaning_skipped')
            if c.cov['generated_programs_without_meaning_skipped'] > 20:
                raise vlib.InfraError('generated program %s has no meaning: %s' % (p.name, p.why))
            return
        c.count('programs_' + kind)
        c.count('oracle_output_bytes', len(p.out))
        lines = set(p.out.split())
        c.count('distinct_output_tokens', len(lines))
        if len(c.samples) < 3:
            c.sample({'program': p.name, 'lines': p.text.count('\n'), 'output_bytes': len(p.out), 'exit': p.rc,
                      'first_output': p.out[:120].decode(errors='replace')})
        for lv in (levels(kind, seed % 100000) if callable(levels) else levels):
            r = runner(p, lv)
            c.count('executions_O%s' % lv)
            if r.kind == 'slow':
                c.count('compilations_given_up_as_too_slow')
                slow.append(('%s.O%s' % (p.name, lv), r.what, lang.replay_files(p)))
                continue
            if r.kind == 'refused':
                c.count('programs_refused_by_a_documented_limit')
                continue
            c.case(1, len(p.out) > 40)
            if r.kind == 'known':
                c.count('executions_explained_by_a_recorded_finding')
            elif r.kind != 'ok':
                c.violation('%s.O%s' % (p.name, lv), '%s at -O%s: %s' % (p.name, lv, r.what),
                            lang.replay_files(p, r.out, {'stderr.txt': r.err, 'asm.s': r.stats.get('asm', b''),
                                                         'REPLAY.sh': replay % lv if replay else ''}))
                break
            if after:
                after(p, lv, r)
    c.map(one, workload(plan))
    if len(slow) > slow_limit:
        for n, w, f in slow[:3]:
            c.violation(n, '%s, and so do %d of %d programs' % (w, len(slow), sum(n for _, n in plan)), f)
