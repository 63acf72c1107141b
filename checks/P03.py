import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, lang, langcheck, codegen

RULE = 'one evaluation = one generated program compiled for RISC-V at one of -O0..-O3, assembled, linked and executed on the ' \
       'monitoring emulator, and compared with the g++/UBSan oracle; non-trivial = it prints more than 40 bytes'


def levels(kind, i):
    if vlib.QUICK:
        return ('02' if i % 2 else '13') if not kind.startswith('pee') else '0213'[i % 4]
    return '0123'


def go(c):
    cm = vlib.cmmc()
    plan = [('rnd', 120), ('rndx', 60), ('pee', 40), ('peex', 30), ('idi', 90), ('idix', 40), ('rec', 60), ('mat', 36)]
    if not vlib.QUICK:
        plan = [(k, n * 15) for k, n in plan]
    codegen.coverage_check(c, cm, 'riscv', plan, levels)


vlib.main('P03', RULE, go)
