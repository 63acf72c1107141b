import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, lang, langcheck

RULE = 'one evaluation = one generated program executed by the real compiler at -O0 and compared with the g++/UBSan oracle; ' \
       'non-trivial = it prints more than 40 bytes'


def go(c):
    cm = vlib.cmmc()
    plan = [('rnd', 260), ('rndx', 200), ('pee', 80), ('peex', 80), ('idi', 140), ('idix', 100), ('rec', 80), ('mat', 60)]
    if not vlib.QUICK:
        plan = [(k, n * 15) for k, n in plan]
    langcheck.check(c, plan, '0', langcheck.sim_runner(cm, c.work),
                    replay='cmmc -t sim -O %s -H -e prog.in -o got.out prog.sy; diff got.out expected.out\n')
    langcheck.known_cases(c, cm, '0')


vlib.main('P01', RULE, go)
