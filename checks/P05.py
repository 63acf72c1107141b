import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, lang, langcheck, codegen

RULE = 'one evaluation = one generated program compiled for MIPS at one of -O0..-O3, assembled, linked and executed on the ' \
       'monitoring emulator, and compared with the g++/UBSan oracle; non-trivial = it prints more than 40 bytes'


def levels(kind, i):
    if vlib.QUICK:
        return ('02' if i % 2 else '13') if not kind.startswith('pee') else '0213'[i % 4]
    return '0123'


def go(c):
    cm = vlib.cmmc()
    plan = [('rnd', 90), ('rndx', 50), ('pee', 40), ('peex', 30), ('idi', 80), ('idix', 40), ('rec', 50), ('mat', 36)]
    if not vlib.QUICK:
        plan = [(k, n * 15) for k, n in plan]
    codegen.coverage_check(c, cm, 'mips', plan, levels)


vlib.main('P05', RULE, go)
