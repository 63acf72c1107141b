"""Recursive programs: doubly recursive pure functions (memoised by the back ends), tail recursion, mutual recursion,
recursion with many arguments and through arrays. All values stay inside int; no undefined behaviour."""
import random


def generate(seed, ext=False):
    r = random.Random(seed * 7919 + 17)
    out, main, n = [], [], 0
    inp = []

    def read(lo, hi):
        inp.append(str(r.randint(lo, hi)))
        return 'getint()'

    def offs():
        return r.choice([0, 1, -1, 2, -2, 3, 5, -7, 108, 113, -108, 1021, -1021, 216, 1019, 2042, r.randint(-3000, 3000)])
    v = 0
    for _ in range(r.randint(2, 4)):
        k = r.choice(['two', 'two', 'two', 'two', 'one', 'flt', 'tail', 'mutual', 'args', 'arr', 'tree', 'three', 'guard', 'guard', 'guard', 'chain'])
        f = 'f%d' % n
        n += 1
        p = r.choice([7, 97, 1009, 4096, 10007, 65536])
        a, b = r.randint(1, 40), r.randint(-40, 40)
        if k == 'two':
            o = [offs() for _ in range(r.choice([2, 2, 2, 3]))]
            d = [r.randint(1, 2) for _ in o]
            terms = ' + '.join('f%d(n - %d, m + %d) * %d' % (n - 1, d[i], o[i], r.choice([1, 1, a, b])) if r.random() < .8 else
                               'f%d(n - %d, m - %d)' % (n - 1, d[i], o[i]) for i in range(len(o)))
            base = r.choice(['m %% %d' % r.choice([13, 100, 1000]), 'm / 7 % 500', '(m > 0) * 9 - m % 11'])
            out.append('int %s(int n, int m) {\n  if (n <= 0) return %s;\n  return (%s + n) %% %d;\n}' % (f, base, terms, p))
            dep = 9 if len(o) == 2 else 6
            lo = r.choice([0, 0, -50, 1])
            v += 1
            main.append('int n%d = %s; int m%d = %s;' % (v, read(dep - 3, dep), v, read(-2000, 2000)))
            i = 'i%d' % v
            st = r.choice([1, 3, 7, 108, -108, 1021, 36])
            main.append('int %s = %d; int s%d = 0; while (%s < %d) { int t = %s(n%d - (%s - %d) %% 4, m%d + %s * %d); s%d = (s%d * 31 + t) %% 1000003; if (t < 0) s%d = s%d + 1; %s = %s + 1; }' % (
                i, lo, v, i, lo + 24, f, v, i, lo, v, i, st, v, v, v, v, i, i))
            main.append('putint(s%d); putch(10);' % v)
            main.append('%s = 0; while (%s < %d) { putint(%s(%s %% %d, m%d + (%d - %s) * %d)); putch(32); %s = %s + 1; } putch(10);' % (i, i, 10, f, i, dep, v, dep, i, o[0], i, i))
        elif k == 'one':
            out.append('int %s(int n) {\n  if (n < 2) return n * %d;\n  return (%s(n - 1) * %d + %s(n - 2) * %d + n) %% %d;\n}' % (f, a, f, r.randint(1, 9), f, b, p))
            v += 1
            main.append('int i%d = %d; while (i%d < %d) { putint(%s(i%d)); putch(44); i%d = i%d + 1; } putch(10);' % (v, r.randint(-3, 2), v, r.randint(10, 16), f, v, v, v))
        elif k == 'flt':
            out.append('float %s(int n, float x) {\n  if (n <= 0) return x;\n  return (%s(n - 1, x * 0.5) + %s(n - 1, x + %d.25)) / 2;\n}' % (f, f, f, r.randint(-9, 9)))
            v += 1
            main.append('int i%d = 0; float q%d = getfloat(); while (i%d < 8) { putfloat(%s(i%d %% 7, q%d)); putch(32); q%d = q%d - i%d; i%d = i%d + 1; } putch(10);' % (v, v, v, f, v, v, v, v, v, v, v))
            inp.append(float(r.randint(-64, 64) / 4).hex())
        elif k == 'tail':
            out.append('int %s(int n, int acc, int k) {\n  if (n == 0) return acc;\n  if (n %% %d == %d) return %s(n - 1, (acc + k) %% %d, acc);\n  return %s(n - 1, (acc * %d + n) %% %d, k);\n}' % (
                f, r.randint(2, 5), r.randint(0, 1), f, p, f, a, p))
            main.append('putint(%s(%s, %s, %s)); putch(10);' % (f, read(0, 400), read(-50, 50), read(-50, 50)))
        elif k == 'mutual':
            g = 'f%d' % n
            n += 1
            # SysY has no forward declarations: the pair is one function with a selector
            out.append('int %s(int w, int n, int m) {\n  if (n <= 0) return m %% %d;\n  if (w == 0) return %s(1, n - 1, m * 2 %% 10007) + %d;\n  return %s(w - 1, n - 2, m - n) - %s(0, n - 3, m + 1) %% 9;\n}' % (
                f, r.randint(2, 99), f, r.randint(-9, 9), f, f))
            main.append('putint(%s(%d, %s, %s)); putch(10);' % (f, r.randint(0, 1), read(0, 22), read(-9, 9)))
        elif k == 'args':
            m = r.randint(9, 14)
            fl = [r.random() < .4 for _ in range(m)]
            ps = ', '.join('%s a%d' % ('float' if x else 'int', i) for i, x in enumerate(fl))
            ints = [i for i, x in enumerate(fl) if not x] or None
            if not ints or fl[0]:
                fl[0] = False
                ps = ', '.join('%s a%d' % ('float' if x else 'int', i) for i, x in enumerate(fl))
                ints = [i for i, x in enumerate(fl) if not x]
            perm = list(range(1, m))
            # rotate the arguments of each kind among themselves
            nxt = {}
            for grp in ([i for i in range(1, m) if fl[i]], [i for i in range(1, m) if not fl[i]]):
                for j, i in enumerate(grp):
                    nxt[i] = 'a%d' % grp[(j + 1) % len(grp)]
            call = '%s(a0 - 1, %s)' % (f, ', '.join(nxt[i] for i in range(1, m)))
            ret = ' + '.join('a%d * %d' % (i, r.randint(1, 30)) for i in ints[1:] or [0])
            fr = [i for i in range(m) if fl[i]]
            pf = ' '.join('putfloat(a%d); putch(32);' % i for i in fr[:4])
            out.append('int %s(%s) {\n  if (a0 <= 0) { %s return %s; }\n  return %s + a%d;\n}' % (f, ps, pf, ret, call, r.choice(ints)))
            args = ['%d' % r.randint(0, 6)] + [('%d.5' % r.randint(-40, 40)) if fl[i] else read(-1000, 1000) for i in range(1, m)]
            # evaluation order of arguments is left to right in the interpreter, unspecified in C: read first
            pre = ''
            for i, x in enumerate(args):
                if x == 'getint()':
                    v += 1
                    pre += 'int w%d = getint(); ' % v
                    args[i] = 'w%d' % v
            main.append(pre + 'putint(%s(%s)); putch(10);' % (f, ', '.join(args)))
        elif k == 'arr':
            sz = r.randint(5, 30)
            out.append('void %s(int a[], int l, int h) {\n  if (l >= h) return;\n  int p = a[(l + h) / 2], i = l, j = h;\n  while (i <= j) {\n    while (a[i] < p) i = i + 1;\n    while (a[j] > p) j = j - 1;\n    if (i <= j) { int t = a[i]; a[i] = a[j]; a[j] = t; i = i + 1; j = j - 1; }\n  }\n  %s(a, l, j);\n  %s(a, i, h);\n}' % (f, f, f))
            v += 1
            main.append('int b%d[%d]; int i%d = 0; while (i%d < %d) { b%d[i%d] = (i%d * %d + %s) %% 997; i%d = i%d + 1; } %s(b%d, 0, %d); putarray(%d, b%d);' % (
                v, sz, v, v, sz, v, v, v, r.randint(3, 997), r.randint(0, 500), v, v, f, v, sz - 1, sz, v))
        elif k == 'guard':
            # a counting argument that only ever starts from constants: every comparison inside is a range question
            up = r.random() < .5
            sg = 1 if up else -1
            st = r.randint(1, 3)
            starts = sorted(r.sample(range(-12, 30), r.randint(1, 4)))
            lim = (max(starts) + r.randint(2, 14)) if up else (min(starts) - r.randint(2, 14))
            body = []
            for _ in range(r.randint(2, 5)):
                q = r.randint(min(starts + [lim]) - 1, max(starts + [lim]) + 1)
                c = r.choice(['n %s %d', 'n %s %d', 'n * 2 %s %d', 'n - 3 %s %d', '-n %s %d']) % (r.choice(['<', '>', '<=', '>=', '==', '!=']), q)
                body.append(r.choice(['if (@) { putint(n); putch(32); }', 'if (@) x = x + G$[(n + 64) % 16];', 'if (@) x = x / 2; else G$[(n + 64) % 16] = x;',
                                      'x = x + (@) * 3;', 'while (@) { x = x + 5; if (x > 40) return x; }']).replace('@', c).replace('$', f))
            e = r.choice(['n / 4', 'n % 8', 'n / 2 * 2', '(n + 100) % 16', 'n % 3', 'x % 50'])
            deep = r.random() < .4 and abs(lim - starts[0]) / st < 25
            out.append('int G%s[16] = {3, 1, 4, 1, 5, 9, 2, 6};\nint %s(int n, int x) {\n  if (n %s %d) return x;\n  %s\n  x = x %% 1000 + %s;\n  return %s(n %s %d, x + 1)%s;\n}' % (
                f, f, '>=' if up else '<=', lim, '\n  '.join(body), e, f, '+' if up else '-', st, ' %% 10007 + %s(n %s %d, x - 1) %% 7' % (f, '+' if up else '-', st + 5) if deep else r.choice(['', ' * 2 % 10007', ' - n'])))
            for s0 in r.sample(starts, len(starts)):
                main.append('putint(%s(%d, %s)); putch(10);' % (f, s0, read(-30, 30)))
        elif k == 'chain':
            # innermost function needs many registers, the middle ones few: values of the callers must survive
            m = r.randint(4, 14)
            g, h = 'f%d' % n, 'f%d' % (n + 1)
            n += 2
            fl = r.random() < .3
            t = 'float' if fl else 'int'
            conv = '' if fl else ' % 1000'
            xs = '\n  '.join('%s x%d = A%s[(n + %d) %% 32] * m;' % (t, i, f, i) for i in range(m))
            out.append('%s A%s[32];\n%s %s(int n, %s m) {\n  if (n <= 0) return m;\n  %s\n  A%s[n %% 32] = (x%d - x%d)%s;\n  return %s(n - 1, (x0 + x%d)%s)%s + (%s)%s;\n}' % (
                t, f, t, f, t, xs, f, r.randrange(m), r.randrange(m), ' / 16' if fl else ' % 50', f, m - 1, ' / 32' if fl else ' % 30', conv, ' - '.join('x%d * %d' % (i, i + 2) for i in range(m)), conv))
            out.append('%s %s(int n, %s m) {\n  if (n <= 0) return %s(n + 3, 2);\n  %s r = %s(n %% 4, m);\n  return r + %s(n - 1, m)%s;\n}' % (t, g, t, f, t, f, g, ' / 2' if fl else ' % 77'))
            k2 = r.randint(2, 8)
            out.append('%s %s(int n, int k) {\n  if (n <= 0) return k;\n  %s\n  %s r = %s(2, n %% 5);\n  return (%s(n - 1, k)%s + %s + r)%s;\n}' % (
                t, h, '\n  '.join('%s y%d = A%s[(n + k + %d) %% 32];' % (t, i, f, i * 3) for i in range(k2)), t, g, h, conv, ' + '.join('y%d * %d' % (i, i + 3) for i in range(k2)), ' / 4' if fl else ' % 10007'))
            v += 1
            main.append('int i%d = 0; while (i%d < 32) { A%s[i%d] = i%d * i%d %% 13; i%d = i%d + 1; }' % (v, v, f, v, v, v, v, v))
            for _ in range(2):
                main.append('%s(%s(%s, %d)); putch(10);' % ('putfloat' if fl else 'putint', h, read(0, 6), r.randint(0, 9)))
        elif k == 'tree':
            out.append('int %s(int n, int x) {\n  if (n == 0) { return x; }\n  int y = %s(n - 1, x * 2 %% %d);\n  int z = %s(n - 1, (x + y) %% %d);\n  if (y > z) return y - z;\n  return z + y %% 3;\n}' % (f, f, p + 1, f, p + 2))
            main.append('putint(%s(%s, %s)); putch(10);' % (f, read(0, 9), read(-200, 200)))
        else:
            out.append('int %s(int n, int m, int k) {\n  if (n <= 0) return k;\n  if (m <= 0) return %s(n - 1, 3, k + 1);\n  return %s(n - 1, m - 1, %s(n - 2, m, k) %% %d);\n}' % (f, f, f, f, p))
            main.append('putint(%s(%s, %s, %s)); putch(10);' % (f, read(0, 9), read(0, 5), read(-9, 9)))
    # argument evaluation order: hoist every getint() that is a call argument
    fixed = []
    for s in main:
        pre = ''
        if s.startswith('put'):
            while 'getint()' in s:
                v += 1
                pre += 'int w%d = getint(); ' % v
                s = s.replace('getint()', 'w%d' % v, 1)
        fixed.append('  ' + pre + s)
    return '\n'.join(out) + '\nint main() {\n' + '\n'.join(fixed) + '\n  return %d;\n}\n' % r.randint(0, 255), ' '.join(inp) + '\n'
