#!/usr/bin/env python3
"""Start-up code and the run-time library stubs (one host-call instruction each) for the three emulated targets."""
FUNCS = [('getint', 1), ('getch', 2), ('getfloat', 3), ('getarray', 4), ('getfarray', 5), ('putint', 6), ('putch', 7), ('putfloat', 8),
         ('putarray', 9), ('putfarray', 10), ('_sysy_starttime', 11), ('_sysy_stoptime', 12), ('memset', 13), ('memcpy', 14), ('read', 1), ('write', 18),
         ('syscall', 17), ('mmap', 17), ('clone', 17), ('waitpid', 17), ('clock_gettime', 17), ('sched_setaffinity', 17), ('munmap', 17), ('gettimeofday', 17),
         ('__clock_gettime64', 17), ('mmap64', 17), ('__aeabi_ldivmod', 20), ('__aeabi_uldivmod', 21), ('cmmcAddRec3SRem', 22)]


def stubs(arch):
    o = []
    if arch == 'riscv':
        o += ['.text', '.globl _start', '_start:', ' call main', ' .word (15 << 20) | 0x0b', ' .word 0']
        for n, i in FUNCS:
            o += ['.weak %s' % n, '%s:' % n, ' .word (%d << 20) | 0x0b' % i, ' ret']
    elif arch == 'arm':
        o += ['.arch armv7ve', '.arm', '.text', '.globl _start', '_start:', ' bl main', ' svc #15', ' .word 0xe7f000f0']
        for n, i in FUNCS:
            o += ['.weak %s' % n, '.type %s, %%function' % n, '%s:' % n, ' svc #%d' % i, ' bx lr']
    else:
        o += ['.set noreorder', '.text', '.globl __start', '__start:', ' jal main', ' nop', ' syscall 15', ' nop']
        for n, i in FUNCS:
            o += ['.weak %s' % n, '%s:' % n, ' syscall %d' % i, ' jr $ra', ' nop']
    return '\n'.join(o) + '\n'


if __name__ == '__main__':
    import sys
    print(stubs(sys.argv[1]))
