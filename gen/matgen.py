"""Array programs: nests of loops over global and local arrays of one to three dimensions, in every order of the indices,
with constant and shifted accesses, rows passed to functions, tables that are filled once, sparse initialisers.
All values stay inside int; no undefined behaviour."""
import random


class M:
    def __init__(self, seed, ext):
        self.r = random.Random('m%d' % seed)
        self.ext = ext
        self.n = 0
        self.arrs = []        # (name, dims, type, writable)
        self.out = []
        self.inp = []

    def id(self, p):
        self.n += 1
        return p + str(self.n)

    def arr(self, where):
        r = self.r
        k = r.choice([1, 1, 2, 2, 2, 2, 3])
        if k == 2 and r.random() < .7:
            d = [r.choice([4, 5, 8, 8, 10, 12, 12, 16])] * 2
        else:
            d = [r.choice([2, 3, 4, 5, 7, 8, 10, 16] if k > 1 else [5, 8, 12, 16, 24, 40]) for _ in range(k)]
            if k == 3:
                d = [min(x, 8) for x in d]
        ty = 'float' if r.random() < .15 else 'int'
        name = self.id('a')
        w = True
        init = ''
        if r.random() < .25:
            total = 1
            for x in d:
                total *= x
            m = r.choice([total, min(total, r.randint(1, 9)), 0])
            f = r.choice([lambda i: i * i % 97, lambda i: r.randint(-99, 99), lambda i: 7 * i + 3, lambda i: 1 << (i % 12), lambda i: 0, lambda i: r.choice([0, 0, 0, r.randint(1, 9)])])
            init = ' = {%s}' % ', '.join(str(f(i)) for i in range(min(m, 200)))
            if r.random() < .4 and m:
                w = False
        elif where == 'local':
            init = ' = {}'
        # a constant array may not be passed on as a pointer, and is never written
        self.arrs.append((name, d, ty, w, where))
        return '%s%s %s%s%s;' % ('const ' if not w and r.random() < .5 and where != 'local' else '', ty, name, ''.join('[%d]' % x for x in d), init)

    def idx(self, n, vs):
        """an index expression below n from the loop variables vs: [(name, bound)] (0 <= name < bound)"""
        r = self.r
        c = [v for v, b in vs if b <= n]
        k = r.random()
        if c and k < .72:
            return r.choice(c)
        sh = [(v, b) for v, b in vs if b < n]
        if sh and k < .84:
            v, b = r.choice(sh)
            return '%s + %d' % (v, r.randint(1, n - b))
        if c and k < .90:
            return '%d - %s' % (n - 1, r.choice(c))
        if vs and k < .95:
            return '%s %% %d' % (r.choice(vs)[0], n)
        if vs and k < .96:
            v, b = r.choice(vs)
            if (b - 1) // 2 < n:
                return v + ' / 2'
        return str(r.choice([0, 0, 0, 1, n - 1, r.randrange(n)]))

    def elem(self, vs, write=False, ty=None):
        c = [a for a in self.vis if (a[3] or not write) and (ty is None or a[2] == ty)]
        if not c:
            return None
        a = self.r.choice(c)
        if vs and self.r.random() < .5:
            b = [x for x in c if len(x[1]) == min(len(vs), 3)]
            if b:
                a = self.r.choice(b)
        ix = [self.idx(x, vs) for x in a[1]]
        cand = [v for v, b in vs]
        if len(a[1]) >= 2 and self.r.random() < .6 and len(cand) >= len(a[1]):
            p = self.r.sample(vs, len(a[1]))
            if all(b <= n for (v, b), n in zip(p, a[1])):
                ix = [v for v, b in p]
        return a[0] + ''.join('[%s]' % i for i in ix)

    def expr(self, vs, ty, depth=2):
        r = self.r
        k = r.random()
        if depth == 0 or k < .3:
            e = self.elem(vs, ty=ty) if r.random() < .65 else None
            if e:
                return e
            if vs and ty == 'int' and r.random() < .7:
                return r.choice(vs)[0]
            return str(r.randint(0, 9)) if ty == 'int' else '%d.%d' % (r.randint(0, 9), r.choice([0, 5, 25]))
        op = r.choice(['+', '+', '-', '*', '+'])
        if op == '*':
            return '%s * %s' % (self.expr(vs, ty, 0), self.expr(vs, ty, 0) if ty == 'int' else '0.5')
        return '(%s %s %s)' % (self.expr(vs, ty, depth - 1), op, self.expr(vs, ty, depth - 1))

    def assign(self, vs, o, ind):
        r = self.r
        e = self.elem(vs, True)
        if e is None:
            return
        ty = next(a[2] for a in self.vis if a[0] == e.split('[')[0])
        k = r.random()
        if ty == 'float':
            o.append(ind + '%s = %s;' % (e, r.choice(['%s * 0.5 + %s' % (e, vs[-1][0] if vs else '1'), '%s' % (vs[0][0] if vs else '2'), '%s * 0.25 - 1' % (self.elem(vs, ty='float') or '1.5')])))
        elif k < .15:
            o.append(ind + '%s = %s;' % (e, r.choice(['0', '0', '1', '-1', str(r.randint(-99, 99)), vs[-1][0] if vs else '3'])))
        elif k < .3:
            o.append(ind + '%s = (%s + %s) %% %d;' % (e, e, self.expr(vs, 'int', 1), r.choice([1009, 1000, 64, 7])))
        elif k < .4 and vs:
            v = vs[-1][0]
            o.append(ind + 'if (%s %s %s) %s = (%s) %% 1009;' % (r.choice([v, self.expr(vs, 'int', 0)]), r.choice(['<', '>', '==', '!=', '<=']), self.expr(vs, 'int', 0), e, self.expr(vs, 'int', 1)))
        elif k < .5:
            f = self.elem(vs, True, 'int')
            o.append(ind + '{ int t = %s; %s = %s; %s = t; }' % (e, e, f, f))
        elif k < .6:
            o.append(ind + 's = (s + %s) %% 100003;' % self.expr(vs, 'int', 2))
        elif k < .65:
            o.append(ind + 's = %s;' % self.expr(vs, 'int', 0))
        else:
            o.append(ind + '%s = (%s) %% %d;' % (e, self.expr(vs, 'int', 2), r.choice([1009, 1000, 64, 4096])))

    def nest(self, o, ind, depth, vs):
        r = self.r
        v = self.id('i')
        b = r.choice([x for a in self.vis for x in a[1]] or [8])
        if b > 24 and depth > 1:
            b = r.choice([8, 16, 24])
        k = r.random()
        lim = str(b)
        if k < .3 and b in self.bounds:
            lim = r.choice(self.bounds[b])
        elif k < .4:
            b = lim = max(1, b - r.randint(1, 2))
        start = 0 if r.random() < .85 else 1
        down = r.random() < .08
        if down:
            o.append(ind + 'int %s = %s - 1;' % (v, lim))
            o.append(ind + 'while (%s >= 0) {' % v)
        else:
            o.append(ind + 'int %s = %d;' % (v, start))
            o.append(ind + 'while (%s < %s) {' % (v, lim))
        vs2 = vs + [(v, b)]
        if depth > 1:
            pre = r.random()
            if pre < .2:
                self.assign(vs2, o, ind + '  ')
            if pre > .85:
                o.append(ind + '  s = 0;')
            self.nest(o, ind + '  ', depth - 1, vs2)
            if r.random() < .2:
                self.assign(vs2, o, ind + '  ')
        else:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                self.assign(vs2, o, ind + '  ')
            if r.random() < .05:
                o.append(ind + '  if (s == %d) break;' % r.randint(0, 99))
        o.append(ind + '  %s = %s %s 1;' % (v, v, '-' if down else '+'))
        o.append(ind + '}')

    def special(self, o, ind):
        """whole patterns: matrix product, transposition, prefix sums, wave front, histogram, clearing"""
        r = self.r
        sq = [a for a in self.vis if len(a[1]) == 2 and a[1][0] == a[1][1] and a[2] == 'int']
        if not sq:
            return False
        n = r.choice(sq)[1][0]
        sq = [a for a in sq if a[1][0] == n]
        w = [a for a in sq if a[3]]
        if not w:
            return False
        A, B, C = r.choice(w)[0], r.choice(sq)[0], r.choice(sq)[0]
        i, j, k = self.id('i'), self.id('j'), self.id('k')
        lim = r.choice(self.bounds.get(n, []) + [str(n)])
        w3 = [i, j, k]
        r.shuffle(w3)
        kind = r.randrange(5)
        if kind == 0:
            body = r.choice(['{A}[{i}][{j}] = ({A}[{i}][{j}] + {B}[{i}][{k}] * {C}[{k}][{j}]) % 1009;', 'if ({B}[{i}][{k}] != 0) {A}[{i}][{j}] = ({A}[{i}][{j}] + {B}[{i}][{k}] * {C}[{k}][{j}] % 100) % 1009;',
                             '{A}[{j}][{i}] = ({B}[{k}][{i}] + {C}[{j}][{k}]) % 500;'])
            t = 'int {0} = 0; while ({0} < L) { int {1} = 0; while ({1} < L) { int {2} = 0; while ({2} < L) { BODY {2} = {2} + 1; } {1} = {1} + 1; } {0} = {0} + 1; }'
            t = t.replace('{0}', w3[0]).replace('{1}', w3[1]).replace('{2}', w3[2]).replace('BODY', body)
        elif kind == 1:
            t = 'int {i} = 0; while ({i} < L) { int {j} = 0; while ({j} < %s) { %s {j} = {j} + 1; } {i} = {i} + 1; }' % (r.choice(['L', '{i}', '{i} + 1']), r.choice([
                '{A}[{j}][{i}] = {B}[{i}][{j}];', 'int t = {A}[{i}][{j}]; {A}[{i}][{j}] = {A}[{j}][{i}]; {A}[{j}][{i}] = t;', '{A}[{i}][{j}] = {A}[{j}][{i}] - {B}[{j}][{j}] % 9; if ({A}[{i}][{j}] < -1000) {A}[{i}][{j}] = 0;']))
        elif kind == 2:
            t = 'int {i} = 1; while ({i} < L) { int {j} = 1; while ({j} < L) { {A}[{i}][{j}] = (%s) %% 1009; {j} = {j} + 1; } {i} = {i} + 1; }' % r.choice([
                '{A}[{i} - 1][{j}] + {A}[{i}][{j} - 1]', '{A}[{i} - 1][{j} - 1] + {B}[{i}][{j}]', '{A}[{i}][{j} - 1] + {B}[{j}][{i}]', '{B}[{i} - 1][{j} - 1] * 2 - {B}[{j} - 1][{i}]', '{A}[{j}][{i} - 1] + 1'])
        elif kind == 3:
            t = 'int {i} = 0; while ({i} < L) { int {j} = L - 1; while ({j} >= 0) { {A}[%s] = %s; {j} = {j} - 1; } {i} = {i} + 1; }' % (r.choice(['{i}][{j}', '{j}][{i}']), r.choice(['0', '{i}', '{B}[{j}][{i}]', '-1', '{i} * 7 + {j}']))
        else:
            t = 'int {j} = 0; while ({j} < L) { s = 0; int {i} = 0; while ({i} < L) { s = (s * 3 + %s) %% 10007; {i} = {i} + 1; } {A}[%s] = s; {j} = {j} + 1; }' % (r.choice(['{B}[{i}][{j}]', '{B}[{j}][{i}]', '{B}[{i}][{j}] - {C}[0][{i}]']), r.choice(['{j}][0', '0][{j}', '{j}][{j}']))
        for x, y in (('{A}', A), ('{B}', B), ('{C}', C), ('{i}', i), ('{j}', j), ('{k}', k), ('L', lim)):
            t = t.replace(x, y)
        o.append(ind + t)
        return True

    def modsum(self, o, ind):
        """sums modulo a number, which the compiler knows closed forms for"""
        r = self.r
        t, i = self.id('t'), self.id('i')
        m = r.choice(['7', '1009', '100003', '-1009', '%s + 7' % i, '(%s %% 3 - 1) * 20 + 7' % i, '65535'])
        if self.inmain and r.random() < .4:
            m = self.id('m')
            o.append(ind + 'int %s = getint();' % m)
            self.inp.append(r.choice([7, -7, 1009, 100003, -1000003, 1, -1, 1000000007]))
        c = r.choice(['1', '3', '4950', '-3', '1000003', i, i, '%s * 2' % i, '%s %% 9' % i, '%s + 1' % i, 's % 100 + 1', 's', self.elem([], ty='int') or '2'])
        lim = r.choice([str(r.choice([5, 37, 1000]))] + [b for x in self.bounds.values() for b in x] * 2)
        o.append(ind + 'int %s = %s; int %s = %s;' % (t, r.choice(['0', '0', '0', '5']), i, r.choice(['0', '0', '0', '2'])))
        o.append(ind + 'while (%s < %s) { %s = (%s + %s) %% (%s); %s%s = %s + 1; }' % (i, lim, t, t, c, m, 's = (s + %s) %% 1009; ' % t if r.random() < .15 else '', i, i))
        o.append(ind + 's = (s + %s) %% 100003;' % t)

    def body(self, o, ind, n):
        r = self.r
        for _ in range(n):
            k = r.random()
            if r.random() < .08 and ind == '  ':
                self.modsum(o, ind)
                continue
            if k < .25 and self.special(o, ind):
                continue
            if k < .8:
                self.nest(o, ind, r.choice([1, 2, 2, 2, 3]), [])
            elif k < .9:
                for _ in range(r.randint(1, 4)):
                    self.assign([], o, ind)
            elif self.funcs:
                f, p = r.choice(self.funcs)
                args = []
                for q in p:
                    if q is None:
                        args.append(str(r.randint(0, 7)))
                        continue
                    c = [(a, d) for a in self.vis if a[3] and a[2] == 'int' and a[4] != 'const' for d in range(len(a[1])) if a[1][d:] [1:] == q[1:] and a[1][d] >= q[0]]
                    if not c:
                        break
                    a, d = r.choice(c)
                    args.append(a[0] + ''.join('[%d]' % r.choice([0, r.randrange(x)]) for x in a[1][:d]))
                if len(args) == len(p):
                    o.append(ind + 's = (s + %s(%s)) %% 100003;' % (f, ', '.join(args)))
            else:
                o.append(ind + 'putint(s); putch(10);')

    def program(self):
        r = self.r
        self.funcs = []
        self.bounds = {}
        for _ in range(r.randint(1, 4)):
            self.out.append(self.arr('global'))
        glob = list(self.arrs)
        nb = []
        for n in sorted({x for a in glob for x in a[1]}):
            if r.random() < .5:
                g = self.id('n')
                self.out.append('int %s;' % g)
                self.bounds[n] = [g]
                nb.append((g, n))
        for _ in range(r.randint(0, 3)):
            f = self.id('f')
            p = []
            self.vis = list(glob)
            ps = []
            for _ in range(r.choice([0, 0, 1, 2])):
                if r.random() < .3:
                    p.append(None)
                    ps.append('int ' + self.id('x'))
                else:
                    d = [r.choice([4, 5, 8])] + ([r.choice([4, 5, 8, 16])] if r.random() < .4 else [])
                    q = self.id('p')
                    p.append(d)
                    ps.append('int %s[]%s' % (q, ''.join('[%d]' % x for x in d[1:])))
                    # a pointer may alias a global array: fine, the meaning is the same
                    self.vis.append((q, d, 'int', True, 'param'))
            o = ['int %s(%s) {' % (f, ', '.join(ps)), '  int s = 0;']
            fs, self.funcs = self.funcs, []
            self.inmain = False
            self.body(o, '  ', r.randint(1, 3))
            self.funcs = fs
            o += ['  return s;', '}']
            self.out += o
            self.funcs.append((f, p))
        o = ['int main() {', '  int s = 0;']
        for g, n in nb:
            o.append('  %s = getint();' % g)
            self.inp.append(r.choice([n, n, n, n, max(1, n - 1), max(1, n // 2), 1, 0]))
        self.vis = list(glob)
        self.inmain = True
        for _ in range(r.choice([0, 0, 1, 2])):
            o.append('  ' + self.arr('local'))
            self.vis.append(self.arrs[-1])
        if r.random() < .5:
            # fill with input first, so that nothing is a constant
            for a in self.vis:
                if a[3] and a[2] == 'int' and len(a[1]) == 1 and r.random() < .6 and a[4] == 'global':
                    o.append('  getarray(%s);' % a[0])
                    self.inp += [a[1][0]] + [r.randint(-99, 99) for _ in range(a[1][0])]
        if r.random() < .15:
            v = self.id('r')
            o.append('  int %s = 0; while (%s < 3) {' % (v, v))
            self.body(o, '    ', r.randint(1, 3))
            o.append('  %s = %s + 1; }' % (v, v))
        self.body(o, '  ', r.randint(2, 6))
        o.append('  putint(s); putch(10);')
        for a in self.vis:
            k = r.random()
            if a[2] == 'float':
                o.append('  putfloat(%s%s); putch(10);' % (a[0], ''.join('[%d]' % r.randrange(x) for x in a[1])))
            elif k < .12:
                continue
            elif k < .3:
                for _ in range(3):
                    o.append('  putint(%s%s); putch(32);' % (a[0], ''.join('[%d]' % r.choice([0, r.randrange(x)]) for x in a[1])))
            else:
                vs = [self.id('d') for _ in a[1]]
                perm = list(range(len(vs)))
                if r.random() < .3:
                    r.shuffle(perm)
                t = 'putint(%s%s); putch(32);' % (a[0], ''.join('[%s]' % v for v in vs))
                if r.random() < .5:
                    t = 's = (s * 31 + %s%s) %% 1000003;' % (a[0], ''.join('[%s]' % v for v in vs))
                for z in perm:
                    t = 'int %s = 0; while (%s < %d) { %s %s = %s + 1; }' % (vs[z], vs[z], a[1][z], t, vs[z], vs[z])
                o.append('  ' + t + ' putint(s); putch(10);')
        o += ['  return 0;', '}']
        self.out += o
        return '\n'.join(self.out) + '\n', ' '.join(map(str, self.inp)) + '\n'


def generate(seed, ext=False):
    return M(seed, ext).program()
