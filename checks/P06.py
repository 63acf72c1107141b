import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, rtcheck

RULE = 'one evaluation = one call of cmmcParallelFor observed by the monitor (chunks partition the range, effects visible and complete on return); ' \
       'non-trivial = the call was split into two or more chunks'


def go(c):
    exes = {s: rtcheck.build('rt_par', s, True) for s in ('thread', 'address,undefined')}
    n = 6 if vlib.QUICK else 40
    budget = 30 if vlib.QUICK else 120

    def one(i):
        san = 'thread' if i % 3 else 'address,undefined'
        r = rtcheck.execute(c, exes[san], 'parallel-for under ' + san, vlib.SEED * 1000 + i, budget)
        if not r:
            return
        c.case(r['loops'], False)
        with c.lock:
            c.nontrivial += sum(v for k, v in r.items() if k.startswith('chunks') and int(k[6:]) > 1)
        for k, v in r.items():
            c.count(k if k != 'layouts' else 'distinct_chunk_layouts_per_run_summed', v)
        c.sample({'sanitizer': san, **r})
        if r['waits'] == 0 or r['wakes'] == 0 or r.get('chunks4', 0) == 0:
            raise vlib.InfraError('the workers were not exercised: %r' % r)
    c.map(one, range(n), jobs=3)


vlib.main('P06', RULE, go)
