#!/usr/bin/env python3
"""The single source of properties.jsonl and MANIFEST.json (run after editing; both files are committed)."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, state, observe, hook, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                  observe=observe, hook=hook, technique=technique, note=note, na=na))


prop('P01', 'Unoptimised programs mean what the SysY language says',
     'For every valid SysY program (including the extended C-style operators) and every input, executing the unoptimised compilation '
     'prints the same bytes and returns the same exit status as the language semantics prescribes: evaluation order, short-circuiting, '
     'conversions, constant expressions, initialisers, arrays, scoping, recursion and the run-time library. '
     'Floating-point results are compared bit for bit up to the sign of a zero.',
     ['programs', 'inputs'], 'all well-defined SysY programs and all inputs to them',
     'The tests run a fixed set of contest programs with one input each; operator and conversion combinations, extreme constants, '
     'nested initialisers and argument shapes are sampled by a few of them only.',
     ['cmmc/Frontend/ParserSysY.yy', 'cmmc/Frontend/ScannerSysY.ll', 'cmmc/Frontend/EmitIR.cpp', 'cmmc/ExecutionEngine/Interpreter.cpp',
      'cmmc/IR/ConstantValue.cpp'],
     [('AST to IR lowering', 'cmmc/Frontend/EmitIR.cpp'), ('interpreter', 'cmmc/ExecutionEngine/Interpreter.cpp')],
     'program text, standard input, printed bytes, exit status', 'the driver: cmmc -t sim -O0 -e input -o output', None,
     'runtime monitoring: differential oracle (g++ with UBSan) over executions of generated programs',
     'Random typed programs with interval-tracked values (no undefined behaviour), dense operator tables over edge values and loop/memory idioms; '
     'each execution is compared byte for byte with an independently compiled one.')
prop('P02', 'Optimisation levels 1 to 3 never change what a program does',
     'For every valid program whose executions are well defined and every input, compiling at optimisation level 1, 2 or 3 yields the same '
     'printed bytes and exit status as the language semantics, and compilation and execution always come to an end. '
     'Floating-point results are compared bit for bit up to the sign of a zero.',
     ['programs', 'inputs', 'configurations'], 'all well-defined programs, all inputs, levels 1..3',
     'About a hundred passes run to a fixed point on each other\'s output; the tests fix the text of one small program per pass and run the contest '
     'programs with one input, so interactions, extreme values, zero-trip and rotated loops are not reached.',
     ['cmmc/Transforms/TransformPass.cpp', 'cmmc/Transforms/Combine/ArithmeticReduce.cpp', 'cmmc/Transforms/Loop/DynamicLoopUnroll.cpp',
      'cmmc/Transforms/Loop/LoopUnroll.cpp', 'cmmc/Transforms/Merge/GVN.cpp', 'cmmc/Transforms/Combine/LoadReduce.cpp', 'cmmc/Transforms/DCE/StoreEliminate.cpp',
      'cmmc/Transforms/IPO/Inlining.cpp', 'cmmc/Analysis/AliasAnalysis.cpp', 'cmmc/Analysis/IntegerRangeAnalysis.cpp', 'cmmc/Analysis/SCEVAnalysis.cpp'],
     [('pass manager and pass lists', 'cmmc/Transforms/TransformPass.cpp'), ('passes', 'cmmc/Transforms'), ('analyses', 'cmmc/Analysis')],
     'the IR of the module, memory and output of its execution', 'the driver: cmmc -t sim -O1..3 -e input -o output', None,
     'runtime monitoring: differential oracle (g++ with UBSan) over executions at each optimisation level',
     'The same workloads as P01, each executed at three optimisation levels; the oracle never sees the compiler under test.')


prop('P03', 'RISC-V code does what the program means and keeps the calling rules',
     'For every valid SysY program outside the documented limits, every input and every optimisation level, the emitted RISC-V assembly '
     'assembles and links with the run-time library, and running it prints the bytes and returns the exit status the language semantics prescribes. '
     'While it runs, every access stays inside the program\'s own data or the live part of its stack, calls return with stack pointer and '
     'callee-saved registers unchanged, and execution comes to an end. Floating-point results are compared bit for bit up to the sign of a zero.',
     ['programs', 'inputs', 'configurations'], 'all well-defined programs, all inputs, levels 0..3 of the RISC-V target',
     'The tests compare the assembly text of small programs with a recorded text; none of it is executed, so selection, allocation, scheduling, '
     'peephole and frame layout are never checked against a meaning.',
     ['cmmc/Target/RISCV/RISCVISelInfo.cpp', 'cmmc/Target/RISCV/RISCVTarget.cpp', 'cmmc/Target/RISCV/RISCVInstInfo.cpp', 'cmmc/CodeGen/Lowering.cpp', 'cmmc/CodeGen/StackAllocation.cpp',
      'cmmc/CodeGen/GraphColoringRegisterAllocator.cpp', 'cmmc/CodeGen/Peephole.cpp', 'cmmc/CodeGen/Scheduler.cpp', 'cmmc/CodeGen/RegisterCoalescing.cpp'],
     [('instruction selection', 'cmmc/Target/RISCV/RISCVISelInfo.cpp'), ('register allocation, scheduling, peepholes', 'cmmc/CodeGen')],
     'machine state, memory and output of the execution', 'the driver: cmmc -t riscv -O0..3 -o output.s', None,
     'runtime monitoring: emulated execution with memory, stack and call monitors, differential oracle (g++ with UBSan)',
     'Every generated program is executed on an emulator that traps accesses outside data or live stack and checks each call/return pair.')

prop('P04', 'ARM code does what the program means and keeps the calling rules',
     'For every valid SysY program, every input and every optimisation level, the emitted ARM assembly '
     'assembles and links with the run-time library, and running it prints the bytes and returns the exit status the language semantics prescribes. '
     'While it runs, every access stays inside the program\'s own data or the live part of its stack, calls return with stack pointer and '
     'callee-saved registers unchanged, and execution comes to an end. Floating-point results are compared bit for bit up to the sign of a zero.',
     ['programs', 'inputs', 'configurations'], 'all well-defined programs, all inputs, levels 0..3 of the ARM target',
     'The tests compare the assembly text of small programs with a recorded text; none of it is executed, so selection, conditional execution, literal pools, '
     'allocation, scheduling and frame layout are never checked against a meaning.',
     ['cmmc/Target/ARM/ARMISelInfo.cpp', 'cmmc/Target/ARM/ARMTarget.cpp', 'cmmc/Target/ARM/ARMInstInfo.cpp', 'cmmc/CodeGen/Lowering.cpp', 'cmmc/CodeGen/StackAllocation.cpp',
      'cmmc/CodeGen/GraphColoringRegisterAllocator.cpp', 'cmmc/CodeGen/Peephole.cpp', 'cmmc/Runtime/cmmc_sysy_rt.cpp'],
     [('instruction selection', 'cmmc/Target/ARM/ARMISelInfo.cpp'), ('register allocation, scheduling, peepholes', 'cmmc/CodeGen')],
     'machine state, memory and output of the execution', 'the driver: cmmc -t arm -O0..3 -o output.s', None,
     'runtime monitoring: emulated execution with memory, stack and call monitors, differential oracle (g++ with UBSan)',
     'Every generated program is executed on an emulator that traps accesses outside data or live stack and checks each call/return pair; the run-time library is compiled from the tree.')
prop('P05', 'MIPS code does what the program means and keeps the calling rules',
     'For every valid SysY program, every input and every optimisation level, the emitted MIPS assembly '
     'assembles and links, and running it (branch delay slots included) prints the bytes and returns the exit status the language semantics prescribes. '
     'While it runs, every access stays inside the program\'s own data or the live part of its stack, calls return with stack pointer and '
     'callee-saved registers unchanged, and execution comes to an end. Floating-point results are compared bit for bit up to the sign of a zero.',
     ['programs', 'inputs', 'configurations'], 'all well-defined programs, all inputs, levels 0..3 of the MIPS target',
     'The tests compare the assembly text of small programs with a recorded text; the SysY programs are never executed as MIPS code.',
     ['cmmc/Target/MIPS/MIPSISelInfo.cpp', 'cmmc/Target/MIPS/MIPSTarget.cpp', 'cmmc/Target/MIPS/MIPSInstInfo.cpp', 'cmmc/CodeGen/Lowering.cpp', 'cmmc/CodeGen/StackAllocation.cpp',
      'cmmc/CodeGen/GraphColoringRegisterAllocator.cpp', 'cmmc/CodeGen/Peephole.cpp'],
     [('instruction selection', 'cmmc/Target/MIPS/MIPSISelInfo.cpp'), ('register allocation, scheduling, peepholes', 'cmmc/CodeGen')],
     'machine state, memory and output of the execution', 'the driver: cmmc -t mips -O0..3 -o output.s', None,
     'runtime monitoring: emulated execution with memory, stack and call monitors, differential oracle (g++ with UBSan)',
     'Every generated program is executed on an emulator that traps accesses outside data or live stack, undefined delay-slot uses and broken call/return pairs; executions explained by the two recorded findings are counted apart.')

prop('P06', 'Parallel-for runs every iteration once, completely, on disjoint chunks',
     'For every range [beg, end) of int, every body and every sequence of calls, cmmcParallelFor hands the body sub-ranges that are disjoint, inside [beg, end) '
     'and together cover it exactly; it returns only when all of them have finished, with their writes visible to the caller and the caller\'s earlier writes visible to them; '
     'it never touches memory after the workers are stopped, has no data race and no deadlock, and the workers end at exit.',
     ['schedules', 'inputs', 'histories'], 'all ranges, bodies, call sequences and thread schedules',
     'No test runs the run-time library at all; the handshake of the workers depends on the schedule.',
     ['cmmc/Runtime/cmmc_sysy_rt.cpp'],
     [('worker handshake, chunking', 'cmmc/Runtime/cmmc_sysy_rt.cpp')],
     'worker slots: task, range, start and done marks', 'cmmcParallelFor(beg, end, func), cmmcInitRuntime, cmmcUninitRuntime', None,
     'runtime monitoring: ThreadSanitizer and ASan/UBSan runs of the real library with an exactly-once chunk monitor and injected delays',
     'The library is compiled from the tree, its clone/futex calls are wrapped to inject delays and worker threads are made visible to the sanitizer; '
     'a monitor records each chunk and checks partition, completion and visibility per call.')
prop('P07', 'The run-time helpers and the memoisation table return the right answer',
     'For every history of calls, cmmcCacheLookup returns, for a key pair, the entry that was filled for exactly that pair or one marked empty; an entry handed out keeps '
     'its place until the function that asked for it has filled it; distinct tables do not mix; and the reduction, memory and arithmetic helpers the generated code calls '
     'equal their definition for every input, touching nothing outside their operands.',
     ['inputs', 'histories'], 'all call histories and all operands',
     'No test runs the run-time library; collisions and evictions depend on the keys of a whole history.',
     ['cmmc/Runtime/cmmc_sysy_rt.cpp'],
     [('memoisation table', 'cmmc/Runtime/cmmc_sysy_rt.cpp'), ('reduction helpers', 'cmmc/Runtime/cmmc_sysy_rt.cpp')],
     'table entries and operands', 'cmmcCacheLookup and the helper functions', None,
     'runtime monitoring: sanitizer runs of the real library against an online model of the table and definitional oracles for the helpers',
     'Histories with colliding, extreme and re-entrant keys are replayed against a model that knows which entries were filled for which keys; helper results are compared with a direct computation.')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'state': [{'name': p['state'], 'meaning': 'what the property constrains', 'where': p['files'][0]}],
                            'observe_at': [p['observe']], 'hook_needed': p['hook'] or None}}) + '\n')
            assert len(p['title']) <= 80, p['title']
            assert os.path.exists('/repo'), 0
            for q in p['files']:
                assert os.path.exists('/repo/' + q), q
    m = {'version': 1, 'setup_cmd': 'true',
         'hooks': {'guard': 'CMMC_VERIF_HOOKS', 'enable': 'the checks build /repo with -DCMMC_VERIF_HOOKS (lib/vlib.py, flavor "hooks")',
                   'source_commits': HOOKS},
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 checks/%s.py' % p['id'], 'thorough_cmd': 'python3 checks/%s.py' % p['id'],
                     'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']} for p in P if p['technique']],
         'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']]}
    if not HOOKS:
        del m['hooks']
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


HOOKS = ["4f2c14097291b3db22faa15e9479651e69d77084"]
if __name__ == '__main__':
    main()
