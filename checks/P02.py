import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, lang, langcheck

RULE = 'one evaluation = one generated program compiled at one of -O1..-O3, executed, and compared with the g++/UBSan oracle; ' \
       'non-trivial = it prints more than 40 bytes'


def levels(kind, i):
    # the expression tables are large: the expensive level runs on every third of them
    if kind.startswith('pee') and vlib.QUICK:
        return '3' if i % 3 == 0 else '2' if i % 3 == 1 else '12'
    return '123' if i % 3 == 0 or not vlib.QUICK else '3'


def go(c):
    cm = vlib.cmmc()
    plan = [('rnd', 110), ('rndx', 70), ('pee', 40), ('peex', 40), ('idi', 110), ('idix', 60), ('rec', 50), ('mat', 70)]
    if not vlib.QUICK:
        plan = [(k, n * 20) for k, n in plan]
    langcheck.check(c, plan, levels, langcheck.sim_runner(cm, c.work),
                    replay='cmmc -t sim -O %s -H -e prog.in -o got.out prog.sy; diff got.out expected.out\n')
    langcheck.known_cases(c, cm, '123')


vlib.main('P02', RULE, go)
