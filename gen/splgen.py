"""Random SPL programs. The text is also valid C++ (given read() and write()), which is what the oracle compiles.
dialect 'tac': the strict language of the TAC target (int only, no globals, no extensions);
'strict': globals too; 'ext': the documented extensions as well."""
import random


class G:
    def __init__(self, seed, dialect):
        self.r = random.Random(seed * 104729 + 31)
        self.d = dialect
        self.ext = dialect == 'ext'
        self.out = []
        self.inp = []
        self.n = 0
        self.structs = {}     # name -> [(field, kind, extra)]
        self.funcs = []       # (name, params, pure)
        self.globals = []
        self.fuel = 0

    def id(self, p):
        self.n += 1
        return p + str(self.n)

    # ---- lvalues of type int: list of (text, writable)
    def leaves(self, name, ty, idx):
        r = self.r
        if ty == 'int':
            return name
        if ty[0] == 'arr':
            return self.leaves('%s[%s]' % (name, idx(ty[2])), ty[1], idx)
        f, t = r.choice(self.structs[ty[1]])
        return self.leaves(name + '.' + f, t, idx)

    def index(self, env):
        def f(n):
            r = self.r
            k = r.random()
            cands = [v for v, (ty, hi, w) in env.items() if hi is not None and hi <= n]
            if cands and k < .6:
                return r.choice(cands)
            cands = [v for v, (ty, hi, w) in env.items() if hi is not None]
            if cands and k < .8:
                v = r.choice(cands)
                return '%s %% %d' % (v, n) if self.ext else '%s - %s / %d * %d' % (v, v, n, n)
            return str(r.randrange(n))
        return f

    def lval(self, env, write):
        c = [v for v, (ty, hi, w) in env.items() if (w or not write)]
        if write:
            c = [v for v in c if env[v][1] is None]
        if not c:
            return None
        v = self.r.choice(c)
        return self.leaves(v, env[v][0], self.index(env))

    def const(self):
        r = self.r
        k = r.random()
        if k < .6:
            return str(r.randint(0, 12))
        if k < .9:
            return str(r.randint(0, 999))
        return '0x%x' % r.randint(0, 999)

    def expr(self, env, depth, mul=True):
        """|value| <= 1000 ** 2 * small for mul, terms small otherwise"""
        r = self.r
        k = r.random()
        if depth <= 0 or k < .2:
            return self.lval(env, False) if r.random() < .75 else self.const()
        if k < .4:
            return '(%s %s %s)' % (self.expr(env, depth - 1, mul), r.choice('+-'), self.expr(env, depth - 1, mul))
        if k < .5 and mul:
            a, b = self.expr(env, 0), self.expr(env, 0)
            return '%s * %s' % (a, b) if r.random() < .5 else '(%s * (%s %s %s))' % (a, b, r.choice('+-'), self.const())
        if k < .58:
            return '(%s / %s)' % (self.expr(env, depth - 1, mul), r.choice(['2', '3', '4', '5', '7', '8', '10', '16', '100', '(-1)', '(-2)', '(-7)', '1', '64']))
        if k < .64:
            e = self.expr(env, 0)
            return '(%s / (%s * %s + 1))' % (self.expr(env, depth - 1, mul), e, e)
        if k < .70:
            return '-%s' % self.expr(env, 0) if r.random() < .6 else '(-(%s))' % self.expr(env, depth - 1, mul)
        if k < .80 and self.pure():
            return self.call(r.choice(self.pure()), env)
        if self.ext:
            if k < .84:
                return '(%s %% %s)' % (self.expr(env, depth - 1, mul), r.choice(['2', '3', '7', '8', '10', '64', '(-5)', '1000']))
            if k < .88:
                return '(%s %s %s)' % (self.expr(env, depth - 1, mul), r.choice('&|^'), self.expr(env, depth - 1, mul))
            if k < .90:
                return '(~%s)' % self.expr(env, 0)
            if k < .94:
                return '(%s ? %s : %s)' % (self.cond(env, 1), self.expr(env, depth - 1, mul), self.expr(env, depth - 1, mul))
        return '(%s %s %s)' % (self.expr(env, depth - 1, mul), r.choice('+-'), self.expr(env, 0))

    def pure(self):
        return [f for f in self.funcs if f[2]] if self.callable else []

    def call(self, f, env):
        a = []
        for ty in f[1]:
            if ty == 'int':
                a.append(self.expr(env, 1, False) if f[0][0] != 'z' else self.r.choice(['0', '1', '2', '3', '4', '5']))
            else:
                c = [v for v, (t, hi, w) in env.items() if t == ty]
                a.append(self.r.choice(c) if c else None)
        if None in a:
            return self.const()
        return '%s(%s)' % (f[0], ', '.join(a))

    def cond(self, env, depth):
        r = self.r
        k = r.random()
        if depth > 0 and k < .3:
            return '(%s %s %s)' % (self.cond(env, depth - 1), r.choice(['&&', '||']), self.cond(env, depth - 1))
        if depth > 0 and k < .4:
            return '!(%s)' % self.cond(env, depth - 1)
        if k < .5:
            return self.expr(env, 1, False) if r.random() < .7 else '!' + self.lval(env, False)
        b = self.expr(env, 1, False) if r.random() < .6 else r.choice(['0', '1', '(-1)', '500', '2147483647', '(-2147483647)'])
        return '%s %s %s' % (self.expr(env, 1, False), r.choice(['<', '<=', '>', '>=', '==', '!=']), b)

    def norm(self, dst, e, env, o, ind):
        m = self.r.choice([10, 100, 997, 512, 1000])
        if self.ext:
            o.append(ind + '%s = (%s) %% %d;' % (dst, e, m))
            return
        o.append(ind + 'tmp = %s;' % e)
        o.append(ind + '%s = tmp - tmp / %d * %d;' % (dst, m, m))

    def stmts(self, env, depth, n, o, ind, loop=False):
        r = self.r
        for _ in range(n):
            k = r.random()
            self.fuel -= 1
            if self.fuel < 0:
                return
            d = self.lval(env, True)
            if k < .35 or d is None:
                if d:
                    self.norm(d, self.expr(env, 3), env, o, ind)
            elif k < .42:
                o.append(ind + 'write(%s);' % self.expr(env, 2))
            elif k < .46:
                self.inp.append(r.randint(-900, 900))
                o.append(ind + ('%s = read();' % d if not self.ext or r.random() < .5 else '%s += read() %% 3; %s %%= 1;' % (d, d) if False else '%s = read();' % d))
                self.reads += 1
            elif k < .60 and depth > 0:
                o.append(ind + 'if(%s)%s' % (self.cond(env, 2), ' {' if r.random() < .9 else ''))
                if o[-1].endswith('{'):
                    self.block(env, depth - 1, r.randint(1, 3), o, ind + '    ', loop)
                    o.append(ind + '}')
                else:
                    o.append(ind + '    %s = %s;' % (d, r.randint(0, 99)))
                if r.random() < .5:
                    o.append(ind + 'else {')
                    self.block(env, depth - 1, r.randint(1, 3), o, ind + '    ', loop)
                    o.append(ind + '}')
            elif k < .74 and depth > 0:
                self.loop(env, depth, o, ind)
            elif k < .82 and self.callable and self.funcs:
                f = r.choice(self.funcs)
                self.norm(d, self.call(f, env), env, o, ind)
            elif k < .86 and self.callable and self.funcs:
                o.append(ind + '%s;' % self.call(r.choice(self.funcs), env) if True else '')
                if '(' not in o[-1]:
                    o.pop()
            elif k < .90:
                ss = [v for v, (ty, hi, w) in env.items() if ty != 'int' and ty[0] == 'st']
                p = [(a, b) for a in ss for b in ss if a != b and env[a][0] == env[b][0] and env[a][2]]
                if p:
                    o.append(ind + '%s = %s;' % r.choice(p))
            elif k < .93 and loop and self.ext:
                o.append(ind + 'if(%s) %s;' % (self.cond(env, 1), r.choice(['break', 'continue']) if loop == 2 else 'break'))
            elif k < .97 and self.ext:
                o.append(ind + r.choice(['%s += %s;', '%s -= %s;']) % (d, self.const() if r.random() < .5 else r.choice(['1', '2', '3'])))
                self.norm(d, d, env, o, ind)
            else:
                o.append(ind + '{')
                self.block(env, depth - 1, 2, o, ind + '    ', loop)
                o.append(ind + '}')

    def loop(self, env, depth, o, ind):
        r = self.r
        i = self.id('i')
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 11]) if depth > 1 else r.choice([1, 2, 3, 5, 8])
        e2 = dict(env)
        e2[i] = ('int', max(n, 1), False)
        body = []
        form = r.random()
        if self.ext and form < .4:
            self.stmts(e2, depth - 1, r.randint(1, 3), body, ind + '        ', 2)
            o += [ind + '{', ind + '    int %s = 0;' % i, ind + '    for(%s = 0; %s < %d; %s) {' % (i, i, n, r.choice(['%s++', '++%s', '%s += 1', '%s = %s + 1']).replace('%s', i))] + body + [ind + '    }', ind + '}']
        elif self.ext and form < .5:
            self.stmts(e2, depth - 1, r.randint(1, 3), body, ind + '        ', 1)
            o += [ind + '{', ind + '    int %s = 0;' % i, ind + '    do {'] + body + [ind + '        %s = %s + 1;' % (i, i), ind + '    } while(%s < %d);' % (i, max(n, 1)), ind + '}']
        elif form < .8:
            self.stmts(e2, depth - 1, r.randint(1, 3), body, ind + '        ', 1)
            c = r.choice(['%s < %d' % (i, n), '%s != %d' % (i, n), '%d > %s' % (n, i), '%s < %d && %s' % (i, n, self.cond(env, 1))])
            o += [ind + '{', ind + '    int %s = 0;' % i, ind + '    while(%s) {' % c] + body + [ind + '        %s = %s + 1;' % (i, i), ind + '    }', ind + '}']
        else:
            self.stmts(e2, depth - 1, r.randint(1, 3), body, ind + '        ', 0)
            n = max(n, 1)
            o += [ind + '{', ind + '    int %s = %d;' % (i, n - 1), ind + '    while(%s >= 0) {' % i] + body + [ind + '        %s = %s - 1;' % (i, i), ind + '    }', ind + '}']

    def block(self, env, depth, n, o, ind, loop):
        """declarations first (SPL), then statements"""
        e2 = dict(env)
        if self.r.random() < .4:
            for _ in range(self.r.randint(1, 2)):
                v = self.id('v')
                if self.r.random() < .15:
                    v = self.r.choice([x for x in env if env[x][0] == 'int' and env[x][1] is None and x != 'tmp' and not x.startswith('p')] or [v])
                    o.append(ind + 'int %s = %s;' % (v, self.const()))
                else:
                    o.append(ind + 'int %s = %s;' % (v, self.expr(e2, 1, False)))
                e2[v] = ('int', None, True)
        self.stmts(e2, max(depth, 0), n, o, ind, loop)

    def rtype(self, depth=0):
        r = self.r
        k = r.random()
        if k < .3 and self.structs:
            return ('st', r.choice(list(self.structs)))
        if k < .75:
            b = 'int'
            if depth == 0 and self.structs and r.random() < .3:
                b = ('st', r.choice(list(self.structs)))
            ty = ('arr', b, r.choice([2, 3, 4, 5, 7]))
            if r.random() < .3:
                ty = ('arr', ty, r.choice([2, 3]))
            return ty
        return 'int'

    def decl(self, name, ty):
        dims = ''
        while ty != 'int' and ty[0] == 'arr':
            dims += '[%d]' % ty[2]
            ty = ty[1]
        return '%s %s%s' % ('int' if ty == 'int' else 'struct ' + ty[1], name, dims)

    def fill(self, name, ty, o, ind):
        if ty == 'int':
            o.append(ind + '%s = %s;' % (name, self.const()))
        elif ty[0] == 'arr':
            for i in range(ty[2]):
                self.fill('%s[%d]' % (name, i), ty[1], o, ind)
        else:
            for f, t in self.structs[ty[1]]:
                self.fill(name + '.' + f, t, o, ind)

    def func(self, name, params, pure, main=False):
        r = self.r
        self.fuel = r.randint(6, 22) if not main else r.randint(14, 40)
        env = dict(self.globals) if not pure else {}
        ps = []
        for ty in params:
            p = self.id('p')
            ps.append(self.decl(p, ty))
            # a parameter that is an aggregate is only read by pure functions; structures are never written
            env[p] = (ty, None, ty == 'int' or (ty[0] == 'arr' and not pure))
        o = ['int %s(%s) {' % (name, ', '.join(ps))]
        body, dec, ini = [], [], []
        if not self.ext:
            dec.append('    int tmp = 0;')
        for _ in range(r.randint(1, 4)):
            v = self.id('v')
            dec.append('    int %s = %s;' % (v, self.const()))
            env[v] = ('int', None, True)
        rec = not main and name[0] == 'z'
        if not pure or r.random() < .4:
            for _ in range(r.randint(0, 2) if not main else r.randint(1, 4)):
                ty = self.rtype()
                v = self.id('a')
                dec.append('    %s%s;' % (self.decl(v, ty), ''))
                env[v] = (ty, None, True)
                self.fill(v, ty, ini, '    ')
        self.callable = True
        if rec:
            q = ps[0].split()[-1]
            env[q] = ('int', None, False)
            ini.insert(0, '    if(%s <= 0) return %s;' % (q, self.const()))
        if pure:
            saved, self.noio = self.reads, True
            self.pstmts(env, body, rec and name, ps)
        else:
            self.stmts(env, 3, r.randint(3, 7) if not main else r.randint(6, 12), body, '    ')
        o += dec + ini + body
        if main:
            for v, (ty, hi, w) in env.items():
                if hi is None:
                    self.dump(v, ty, o)
            o.append('    return 0;')
        else:
            t = self.expr(env, 2)
            if self.ext:
                o.append('    return (%s) %% 991;' % t)
            else:
                o += ['    tmp = %s;' % t, '    return tmp - tmp / 991 * 991;']
        o.append('}')
        self.out += o
        self.callable = False

    def dump(self, v, ty, o):
        if ty == 'int':
            o.append('    write(%s);' % v)
        elif ty[0] == 'arr':
            for i in range(ty[2]):
                self.dump('%s[%d]' % (v, i), ty[1], o)
        else:
            for f, t in self.structs[ty[1]]:
                self.dump(v + '.' + f, t, o)

    def pstmts(self, env, o, rec, ps):
        r = self.r
        for _ in range(r.randint(1, 4)):
            d = self.lval(env, True)
            if d is None:
                return
            if rec and r.random() < .5:
                a = ['%s - %d' % (ps[0].split()[-1], r.randint(1, 2))] + [self.expr(env, 1, False) for _ in ps[1:]]
                self.norm(d, '%s(%s) %s %s' % (rec, ', '.join(a), r.choice('+-*'), self.expr(env, 0)), env, o, '    ')
            elif r.random() < .3:
                o.append('    if(%s) {' % self.cond(env, 1))
                self.norm(d, self.expr(env, 2), env, o, '        ')
                o.append('    }')
            else:
                self.norm(d, self.expr(env, 2), env, o, '    ')

    def program(self):
        r = self.r
        self.callable = False
        self.reads = 0
        for _ in range(r.randint(0, 3)):
            s = self.id('S')
            fs = []
            for _ in range(r.randint(1, 4)):
                fs.append((self.id('f'), self.rtype(1) if r.random() < .4 else 'int'))
            self.out.append('struct %s {' % s)
            self.out += ['    %s;' % self.decl(f, t) for f, t in fs]
            self.out.append('};')
            self.structs[s] = fs
        if self.d != 'tac':
            for _ in range(r.randint(0, 3)):
                g, ty = self.id('g'), self.rtype()
                self.out.append(self.decl(g, ty) + ';')
                self.globals.append((g, (ty, None, True)))
        for _ in range(r.randint(1, 5)):
            pure = r.random() < .55
            rec = pure and r.random() < .4
            name = self.id('z' if rec else 'fn')
            params = ['int'] * r.randint(1, 3) if rec else [self.rtype() if r.random() < .45 else 'int' for _ in range(r.randint(0, 5))]
            self.func(name, params, pure)
            self.funcs.append((name, params, pure))
        self.func('main', [], False, True)
        # every read is inside a loop or function possibly: provide plenty
        self.inp = [r.randint(-900, 900) for _ in range(4000)]
        return '\n'.join(self.out) + '\n', '\n'.join(map(str, self.inp)) + '\n'


def generate(seed, dialect='strict'):
    return G(seed, dialect).program()
