import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, rtcheck

RULE = 'one evaluation = one lookup in the memoisation table (or one helper call) checked against the function it remembers; ' \
       'non-trivial = the lookup found a value'


def go(c):
    exe = rtcheck.build('rt_memo', 'address,undefined', False)

    def one(i):
        r = rtcheck.execute(c, exe, 'memoisation table', vlib.SEED * 1000 + i, 12 if vlib.QUICK else 200)
        if not r:
            return
        c.case(r['lookups'] + r['sums'], False)
        with c.lock:
            c.nontrivial += r['hits'] + r['rehits']
        for k, v in r.items():
            c.count(k, v)
        c.sample(r)
        if r['hits'] == 0 or r['rehits'] == 0:
            raise vlib.InfraError('no value was ever found: %r' % r)
    c.map(one, range(8), jobs=4)


vlib.main('P07', RULE, go)
