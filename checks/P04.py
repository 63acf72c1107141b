import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib, lang, langcheck, codegen

RULE = 'one evaluation = one generated program compiled for ARM at one of -O0..-O3, assembled, linked with the run-time library compiled from ' \
       '/repo and executed on the monitoring emulator, and compared with the g++/UBSan oracle; non-trivial = it prints more than 40 bytes'


def levels(kind, i):
    if vlib.QUICK:
        return ('02' if i % 2 else '13') if not kind.startswith('pee') else '0213'[i % 4]
    return '0123'


def runtime(c):
    o = os.path.join(c.work, 'rtarm.o')
    r = vlib.run(['arm-linux-gnueabihf-g++-12', '-O1', '-DNDEBUG', '-march=armv7ve', '-marm', '-mfpu=vfpv4', '-mfloat-abi=hard', '-ffp-contract=off',
                  '-fno-stack-protector', '-w', '-fno-exceptions', '-fno-pic', '-c', '-o', o, os.path.join(vlib.REPO, 'cmmc/Runtime/cmmc_sysy_rt.cpp')], timeout=120)
    if r.rc != 0:
        raise vlib.InfraError('cannot compile the run-time library: ' + r.err.decode(errors='replace')[-800:])
    return o


def go(c):
    cm = vlib.cmmc()
    plan = [('rnd', 100), ('rndx', 50), ('pee', 40), ('peex', 30), ('idi', 80), ('idix', 40), ('rec', 50), ('mat', 36)]
    if not vlib.QUICK:
        plan = [(k, n * 15) for k, n in plan]
    codegen.coverage_check(c, cm, 'arm', plan, levels, rt=runtime(c))


vlib.main('P04', RULE, go)
