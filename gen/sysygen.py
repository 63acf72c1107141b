#!/usr/bin/env python3
"""Random generator of well-defined SysY programs.

Every integer variable carries an invariant range and every expression is built with interval
arithmetic, so no signed overflow, no zero divisor, no out-of-range shift and no out-of-bounds
index can occur in the generated program: each of its executions has exactly one meaning.  The
program text is also valid C++ (with sylib prototypes), so a host compiler serves as an oracle.
Floating point values are kept to small multiples of 1/8 so that every operation is exact and
neither fused operations nor reassociation of the same computation can change the result.
"""
import random

IMIN, IMAX = -2**31, 2**31 - 1
FULL = (IMIN, IMAX)


class E:
    __slots__ = ('t', 'p', 'lo', 'hi', 'const')

    def __init__(self, t, p, lo, hi, const=False):
        self.t, self.p, self.lo, self.hi, self.const = t, p, lo, hi, const


def lit(v):
    if v == IMIN:
        return E('(-2147483647 - 1)', 13, v, v, True)
    if v < 0:
        return E('-%d' % -v, 12, v, v, True)
    return E('%d' % v, 13, v, v, True)


class Var:
    __slots__ = ('name', 'ty', 'lo', 'hi', 'dims', 'ro', 'glob', 'param', 'val')

    def __init__(self, name, ty, lo, hi, dims=(), ro=False, glob=False, param=False, val=None):
        self.name, self.ty, self.lo, self.hi, self.dims = name, ty, lo, hi, tuple(dims)
        self.ro, self.glob, self.param, self.val = ro, glob, param, val


class Func:
    def __init__(self, name, ret, params, pure, cost, rlo=0, rhi=0):
        self.name, self.ret, self.params, self.pure, self.cost = name, ret, params, pure, cost
        self.rlo, self.rhi = rlo, rhi


class Gen:
    def __init__(self, rng, *, floats=True, ext=False, size=1.0, budget=60000, reads=True, arrays=True, maxdim=3,
                 manyargs=True, recursion=True, idioms=True, bigframe=False, bitops=True):
        self.r = rng
        self.floats, self.ext, self.size, self.budget = floats, ext, size, budget
        self.reads = reads
        self.arrays = arrays
        self.maxdim = maxdim
        self.manyargs, self.recursion, self.idioms, self.bigframe = manyargs, recursion, idioms, bigframe
        self.bitops = bitops
        self.n = 0
        self.globals = []
        self.funcs = []
        self.out = []
        self.inputs = []
        self.feat = set()
        self.scopes = []
        self.ind = 0
        self.cost = 0
        self.mult = 1
        self.infn = None
        self.loopvars = set()
        self.in_loop = 0
        self.pure_ctx = False

    # ---- helpers
    def nm(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def w(self, s):
        self.out.append('  ' * self.ind + s)

    def f(self, name):
        self.feat.add(name)

    def par(self, e, p):
        if e.p < p or self.r.random() < 0.08:
            return '(' + e.t + ')'
        return e.t

    def vis(self):
        seen = set()
        res = []
        for s in reversed(self.scopes):
            for v in reversed(s):
                if v.name not in seen:
                    seen.add(v.name)
                    res.append(v)
        for v in self.globals:
            if v.name not in seen:
                seen.add(v.name)
                res.append(v)
        return res

    def ints(self, pred=lambda v: True):
        return [v for v in self.vis() if v.ty == 'int' and not v.dims and pred(v)]

    def arrs(self, ty='int', pred=lambda v: True):
        return [v for v in self.vis() if v.ty == ty and v.dims and pred(v)]

    # ---- constants
    def const(self):
        r = self.r
        k = r.random()
        if k < 0.45:
            v = r.randint(0, 10)
        elif k < 0.6:
            v = r.randint(-16, 300)
        elif k < 0.75:
            v = (1 << r.randint(0, 30)) + r.randint(-1, 1)
        elif k < 0.85:
            v = r.choice([127, 128, 255, 256, 2047, 2048, 2049, 4095, 4096, -2048, -2049, 65535, 65536, 32767, 32768, 1000,
                          10000, 998244353, 1000000007])
        elif k < 0.93:
            v = r.choice([IMIN, IMAX, IMIN + 1, IMAX - 1, -1, 0, 1])
        else:
            v = r.randint(IMIN, IMAX)
        return lit(v)

    def nzconst(self):
        while True:
            c = self.const()
            if c.lo not in (0, -1):
                return c

    # ---- int expressions
    def gi(self, d=3, leaf_only=False):
        r = self.r
        if d <= 0 or r.random() < 0.15:
            return self.leaf()
        k = r.random()
        if k < 0.30:
            return self.addsub(d)
        if k < 0.42:
            return self.mul(d)
        if k < 0.52:
            return self.divrem(d)
        if k < 0.62:
            return self.cmp(d)
        if k < 0.68:
            return self.logic(d)
        if k < 0.74:
            return self.unary(d)
        if k < 0.80 and self.ext and self.bitops:
            return self.bit(d)
        if k < 0.85:
            c = self.call(d)
            if c:
                return c
        if k < 0.88 and self.ext:
            a, b, c = self.gi(d - 2), self.gi(d - 1), self.gi(d - 1)
            self.f('ternary')
            return E('(%s ? %s : %s)' % (self.par(a, 2), b.t, c.t), 13, min(b.lo, c.lo), max(b.hi, c.hi))
        if k < 0.92 and self.floats:
            x = self.gf(min(d - 1, 2))
            if x and x.hi < 2**30 and x.lo > -2**30 and self.ext:
                self.f('f2i')
                return E('(int)' + ('(%s)' % x.t), 12, int(min(x.lo, 0)) - 1, int(max(x.hi, 0)) + 1)
        return self.leaf()

    def leaf(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            return self.const()
        if k < 0.8:
            vs = self.ints()
            if vs:
                v = r.choice(vs[:8]) if r.random() < 0.6 else r.choice(vs)
                return E(v.name, 13, v.lo, v.hi)
        if self.arrays:
            a = self.elem('int', 1)
            if a:
                return a
        return self.const()

    def idx(self, n, d=1):
        """an index expression in [0, n)"""
        r = self.r
        c = [v for v in self.ints() if v.lo >= 0 and v.hi < n]
        if c and r.random() < 0.7:
            v = r.choice(c[:4])
            rng = E(v.name, 13, v.lo, v.hi)
            if r.random() < 0.3:
                if v.hi + 1 < n and r.random() < 0.5:
                    k = r.randint(1, n - 1 - v.hi)
                    return '%s + %d' % (v.name, k)
                if v.lo > 0:
                    return '%s - %d' % (v.name, r.randint(1, v.lo))
                return '%d - %s' % (n - 1, v.name)
            return v.name
        if r.random() < 0.4:
            return str(r.randrange(n))
        e = self.gi(d)
        if e.lo >= 0 and e.hi < n:
            return e.t
        if self.ext and n & (n - 1) == 0 and r.random() < 0.5:
            return '%s & %d' % (self.par(e, 6), n - 1)
        if e.lo >= 0:
            return '%s %% %d' % (self.par(e, 11), n)
        return '(%s + %d) %% %d' % (self.srem(e, n), n, n)

    def elem(self, ty, d=1, wr=False):
        vs = self.arrs(ty, lambda v: not (wr and v.ro))
        if not vs:
            return None
        v = self.r.choice(vs[:5]) if self.r.random() < 0.7 else self.r.choice(vs)
        if wr and self.pure_ctx and (v.glob or v.param):
            return None
        t = v.name + ''.join('[%s]' % self.idx(n, d) for n in v.dims)
        return E(t, 13, v.lo, v.hi)

    def srem(self, e, k):
        """text of e % k.  cmmc merges '(a % k + b) % k' into '(a + b) % k' even if the signs of the sums differ (known
        finding, encoded in tests/Regression/Transform/moduloopt.sy): never take the remainder of a sum of unknown sign."""
        if e.lo >= 0 or e.hi <= 0 or e.const:
            return '%s %% %d' % (self.par(e, 11), k)
        return '%s / %d %% %d' % (self.par(e, 11), self.r.choice([2, 2, 3, 5]), k)

    def small(self, e, m):
        """make |e| <= m"""
        if -m <= e.lo and e.hi <= m:
            return e
        r = self.r
        if r.random() < 0.7 or m < 3:
            k = r.choice([m, m + 1, max(1, m - r.randint(0, max(0, m // 2)))]) if m > 1 else 2
            if k < 2:
                k = 2
            b = min(k - 1, m)
            if k - 1 > m:
                k = m + 1
            lo = 0 if e.lo >= 0 else -(k - 1)
            hi = 0 if e.hi <= 0 else k - 1
            return E(self.srem(e, k), 11, lo, hi)
        mx = max(abs(e.lo), abs(e.hi))
        q = mx // m + 1
        if q > IMAX:
            k = m + 1
            return E(self.srem(e, k), 11, -m, m)
        return E('%s / %d' % (self.par(e, 11), q), 11, -m, m)

    def addsub(self, d):
        a, b = self.gi(d - 1), self.gi(d - 1)
        op = self.r.choice('++-')
        for _ in range(2):
            if op == '+':
                lo, hi = a.lo + b.lo, a.hi + b.hi
            else:
                lo, hi = a.lo - b.hi, a.hi - b.lo
            if lo >= IMIN and hi <= IMAX:
                break
            m = self.r.choice([1000, 100000, 2**30 - 1])
            a, b = self.small(a, m), self.small(b, m)
        return E('%s %s %s' % (self.par(a, 10), op, self.par(b, 11)), 10, lo, hi)

    def mul(self, d):
        a, b = self.gi(d - 1), self.gi(d - 1)
        if self.r.random() < 0.4:
            b = self.const()
        ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        if min(ps) < IMIN or max(ps) > IMAX:
            mb = max(abs(b.lo), abs(b.hi), 1)
            if b.const and mb < 2**24:
                a = self.small(a, max(1, (2**31 - 1) // mb))
            else:
                a, b = self.small(a, self.r.choice([100, 46340, 30000])), self.small(b, self.r.choice([10, 1000, 46340]))
            ps = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        if self.r.random() < 0.5 and a.p >= 11:
            a, b = b, a
        return E('%s * %s' % (self.par(a, 11), self.par(b, 12)), 11, min(ps), max(ps))

    def divrem(self, d):
        a = self.gi(d - 1)
        r = self.r
        if r.random() < 0.7:
            b = self.nzconst()
        else:
            vs = self.ints(lambda v: v.lo > 0 or v.hi < -1)
            if vs:
                v = r.choice(vs)
                b = E(v.name, 13, v.lo, v.hi)
            else:
                e = self.small(self.gi(d - 1), 50)
                b = E('%s + %d' % (self.par(e, 10), 60), 10, 10, 110)
        if r.random() < 0.5:
            m = max(abs(a.lo), abs(a.hi))
            dmin = min(abs(b.lo), abs(b.hi))
            q = m // max(1, dmin)
            lo, hi = -q, q
            if a.lo >= 0 and b.lo > 0:
                lo, hi = a.lo // b.hi, a.hi // b.lo
            return E('%s / %s' % (self.par(a, 11), self.par(b, 12)), 11, lo, hi)
        m = max(abs(b.lo), abs(b.hi)) - 1
        lo = 0 if a.lo >= 0 else max(a.lo, -m)
        hi = 0 if a.hi <= 0 else min(a.hi, m)
        if b.const and not (a.lo >= 0 or a.hi <= 0 or a.const):
            return E('%s / %d %% %s' % (self.par(a, 11), r.randint(2, 4), self.par(b, 12)), 11, lo, hi)
        return E('%s %% %s' % (self.par(a, 11), self.par(b, 12)), 11, lo, hi)

    def cmp(self, d):
        r = self.r
        op = r.choice(['<', '<=', '>', '>=', '==', '!='])
        p = 7 if op in ('==', '!=') else 8
        if self.floats and r.random() < 0.15:
            a, b = self.gf(d - 1), self.gf(d - 1)
            if a and b:
                return E('%s %s %s' % (self.par(a, p + 1), op, self.par(b, p + 1)), p, 0, 1)
        a, b = self.gi(d - 1), self.gi(d - 1)
        return E('%s %s %s' % (self.par(a, p + 1), op, self.par(b, p + 1)), p, 0, 1)

    def logic(self, d):
        op, p = self.r.choice([('&&', 3), ('||', 2)])
        a, b = self.cond(d - 1), self.cond(d - 1)
        return E('%s %s %s' % (self.par(a, p), op, self.par(b, p + 1)), p, 0, 1)

    def cond(self, d=2):
        k = self.r.random()
        if k < 0.7:
            return self.cmp(d)
        if k < 0.85 and d > 0:
            return self.logic(d)
        return self.gi(d)

    def unary(self, d):
        a = self.gi(d - 1)
        op = self.r.choice(['-', '+', '!'] + (['~'] if self.ext and self.bitops else []))
        if op == '-':
            if a.lo == IMIN:
                a = self.small(a, 10**9)
            t = self.par(a, 13)
            if t[0] == '-':
                t = '(' + t + ')'
            return E('-' + t, 12, -a.hi, -a.lo)
        t = self.par(a, 13)
        if op == '+':
            return E('+' + (t if t[0] not in '+-' else '(' + t + ')'), 12, a.lo, a.hi)
        if op == '!':
            return E('!' + t, 12, 0, 1)
        return E('~' + t, 12, -a.hi - 1, -a.lo - 1)

    def bit(self, d):
        r = self.r
        k = r.choice(['&', '|', '^', '<<', '>>'])
        self.f('bit' + k)
        a = self.gi(d - 1)
        if k == '<<':
            s = r.randint(0, 20)
            a = self.small(a, max(1, (IMAX >> s)))
            if a.lo < 0:
                a = E('%s & %d' % (self.par(a, 6), IMAX >> s), 6, 0, IMAX >> s)
            return E('%s << %d' % (self.par(a, 9), s), 9, a.lo << s, a.hi << s)
        if k == '>>':
            s = r.randint(0, 31)
            return E('%s >> %d' % (self.par(a, 9), s), 9, a.lo >> s, a.hi >> s)
        b = self.gi(d - 1) if r.random() < 0.5 else self.const()
        p = {'&': 6, '|': 4, '^': 5}[k]
        lo, hi = IMIN, IMAX
        if a.lo >= 0 and b.lo >= 0:
            lo = 0
            hi = min(a.hi, b.hi) if k == '&' else (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
        elif k == '&' and (a.lo >= 0 or b.lo >= 0):
            lo = 0
            hi = a.hi if a.lo >= 0 else b.hi
        return E('%s %s %s' % (self.par(a, p), k, self.par(b, p + 1)), p, lo, hi)

    def fit(self, e, lo, hi):
        """coerce e's value into [lo, hi]"""
        if lo <= e.lo and e.hi <= hi:
            return e
        if lo <= 0 <= hi and hi >= 1 and -lo == hi:
            return self.small(e, hi)
        if lo < 0 < hi:
            m = min(-lo, hi)
            if m >= 1:
                return self.small(e, m)
        n = hi - lo + 1
        if n == 1:
            return lit(lo)
        if e.lo >= 0:
            b = E('%s %% %d' % (self.par(e, 11), n), 11, 0, n - 1)
        elif e.const and not self.scopes:
            # static initialisers: fold here, cmmc only evaluates simple operators there
            return lit(lo + e.lo % n)
        else:
            if n > 2**30:
                n = 2**30
            if self.ext and n & (n - 1) == 0:
                b = E('(%s & %d)' % (self.par(e, 6), n - 1), 13, 0, n - 1)
            else:
                b = E('(%s + %d) %% %d' % (self.srem(e, n), n, n), 11, 0, n - 1)
        if lo:
            return E('%s + %d' % (self.par(b, 10), lo) if lo > 0 else '%s - %d' % (self.par(b, 10), -lo), 10, lo, hi)
        return b

    # ---- calls
    def args(self, fn, d):
        a = []
        for p in fn.params:
            if p.dims:
                c = [v for v in self.arrs(p.ty, lambda v: len(v.dims) >= len(p.dims)
                                          and v.dims[len(v.dims) - len(p.dims) + 1:] == p.dims[1:]
                                          and v.dims[len(v.dims) - len(p.dims)] >= p.dims[0]
                                          and not v.ro and v.lo >= p.lo and v.hi <= p.hi
                                          and (p.ro or (v.lo <= p.lo and v.hi >= p.hi)))]
                if not c:
                    return None
                v = self.r.choice(c)
                if any(v.name == x or x.startswith(v.name + '[') for x in a) and self.r.random() < 0.7:
                    v = self.r.choice(c)
                a.append(v.name + ''.join('[%s]' % self.idx(n, 0) for n in v.dims[:len(v.dims) - len(p.dims)]))
            elif p.ty == 'int':
                a.append(self.fit(self.gi(d), p.lo, p.hi).t)
            else:
                x = self.gf(d, p.lo, p.hi)
                a.append(x.t)
        return a

    def call(self, d, pure=True):
        c = [f for f in self.funcs if f.ret == 'int' and (f.pure or not pure) and self.cost + f.cost * self.mult < self.budget]
        if not c:
            return None
        f = self.r.choice(c)
        a = self.args(f, min(d - 1, 2))
        if a is None:
            return None
        self.cost += f.cost * self.mult
        self.f('call')
        return E('%s(%s)' % (f.name, ', '.join(a)), 13, f.rlo, f.rhi)

    # ---- float expressions: values are multiples of 2^-6 bounded so that all operations are exact
    FB = 256.0

    def fl(self, v):
        r = self.r
        k = r.random()
        s = repr(float(v))
        if 'e' in s:
            s = '%f' % v
        if k < 0.3 and v == int(v) and v >= 0:
            s = '%d.' % int(v)
        elif k < 0.4 and 0 < v < 1:
            s = s[1:]
        elif k < 0.5 and v == int(v) and v >= 0:
            s = '%de0' % int(v)
        elif k < 0.6 and v > 0:
            s = float(v).hex()
        return s

    def fleaf(self):
        r = self.r
        vs = [v for v in self.vis() if v.ty == 'float' and not v.dims]
        if vs and r.random() < 0.6:
            v = r.choice(vs)
            return E(v.name, 13, v.lo, v.hi)
        if r.random() < 0.3 and self.arrays:
            a = self.elem('float', 1)
            if a:
                return a
        if r.random() < 0.25:
            c = self.ints(lambda v: v.lo >= -256 and v.hi <= 256)
            if c and self.ext:
                v = r.choice(c)
                return E('(float)' + v.name, 12, v.lo, v.hi)
        v = r.randint(0, 64 * 8) / 8.0 if r.random() < 0.6 else float(r.randint(0, 100))
        return E(self.fl(v), 13, v, v, True)

    def gf(self, d=2, lo=None, hi=None):
        """float expression with grid 1/8 and |v| <= 256 (value range tracked)"""
        if not self.floats:
            return None
        e = self._gf(d)
        if lo is not None and not (lo <= e.lo and e.hi <= hi):
            cs = [v for v in self.vis() if v.ty == 'float' and not v.dims and lo <= v.lo and v.hi <= hi]
            if cs:
                v = self.r.choice(cs)
                return E(v.name, 13, v.lo, v.hi)
            a, b = max(lo, 0), min(hi, 60)
            v = a + self.r.randint(0, int((b - a) * 8)) / 8.0
            return E(self.fl(v), 13, v, v, True)
        return e

    def _gf(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.25:
            return self.fleaf()
        k = r.random()
        if k < 0.6:
            a, b = self._gf(d - 1), self._gf(d - 1)
            op = r.choice('+-')
            lo, hi = (a.lo + b.lo, a.hi + b.hi) if op == '+' else (a.lo - b.hi, a.hi - b.lo)
            if lo >= -4096 and hi <= 4096:
                self.f('fadd')
                return E('%s %s %s' % (self.par(a, 10), op, self.par(b, 11)), 10, lo, hi)
            return a
        if k < 0.75:
            a = self._gf(d - 1)
            c = r.choice([2, 3, 4, 5, 7, -2])
            ps = [a.lo * c, a.hi * c]
            if max(map(abs, ps)) <= 4096:
                self.f('fmul')
                t = self.fl(float(c)) if c > 0 else '-%d.0' % -c
                if c < 0:
                    return E('%s * (%s)' % (self.par(a, 11), t), 11, min(ps), max(ps))
                return E('%s * %s' % (self.par(a, 11), t), 11, min(ps), max(ps))
            return a
        if k < 0.85:
            a = self._gf(d - 1)
            t = self.par(a, 13)
            if t[0] == '-':
                t = '(' + t + ')'
            self.f('fneg')
            return E('-' + t, 12, -a.hi, -a.lo)
        c = [f for f in self.funcs if f.ret == 'float' and f.pure and self.cost + f.cost * self.mult < self.budget]
        if c:
            f = r.choice(c)
            a = self.args(f, 1)
            if a is not None:
                self.cost += f.cost * self.mult
                self.f('fcall')
                return E('%s(%s)' % (f.name, ', '.join(a)), 13, f.rlo, f.rhi)
        return self.fleaf()

    # ---- statements
    def block(self, n, d):
        self.scopes.append([])
        self.ind += 1
        for _ in range(n):
            if self.cost > self.budget:
                break
            self.stmt(d)
        self.ind -= 1
        self.scopes.pop()

    def rrange(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return (-1000, 1000)
        if k < 0.5:
            return (0, r.choice([1, 7, 15, 31, 100, 255]))
        if k < 0.6:
            return (1, r.choice([2, 9, 16, 64]))
        if k < 0.75:
            return (-100000, 100000)
        if k < 0.85:
            return (-2**30, 2**30)
        return FULL

    def declint(self, force=None):
        r = self.r
        lo, hi = force or self.rrange()
        name = self.nm('v')
        e = self.fit(self.gi(2), lo, hi)
        # shadowing: sometimes reuse a visible global's / outer local's name
        if r.random() < 0.08 and not force:
            c = [v for v in self.vis() if v not in self.scopes[-1] and v.name not in self.loopvars and not v.dims]
            if c:
                v = r.choice(c)
                # the initializer must not mention the shadowed name
                import re
                if not re.search(r'\b%s\b' % v.name, e.t) and not any(x.name == v.name for x in self.scopes[-1]) \
                        and not (len(self.scopes) <= 2 and any(x.name == v.name for x in self.scopes[0])):
                    name = v.name
                    self.f('shadow')
        if r.random() < 0.15:
            self.w('int %s;' % name)
            self.w('%s = %s;' % (name, e.t))
        else:
            self.w('int %s = %s;' % (name, e.t))
        v = Var(name, 'int', lo, hi)
        self.scopes[-1].append(v)
        self.cost += self.mult
        return v

    def declfloat(self):
        name = self.nm('f')
        e = self.gf(2, -256, 256)
        self.w('float %s = %s;' % (name, e.t))
        self.scopes[-1].append(Var(name, 'float', -256, 256))

    def init_list(self, dims, vf, full=False, static=False):
        """brace initialiser text for dims"""
        r = self.r
        if not dims:
            return vf()
        n = dims[0]
        if len(dims) == 1:
            k = n if full else r.choice([0, n, r.randint(0, n)])
            return '{' + ', '.join(vf() for _ in range(k)) + '}'
        if not full and r.random() < 0.15:
            tot = 1
            for x in dims:
                tot *= x
            k = r.randint(0, tot)
            self.f('flatinit')
            return '{' + ', '.join(vf() for _ in range(k)) + '}'
        k = n if full else r.randint(0, n)
        # cmmc rejects statically initialised arrays whose empty rows are followed by non-empty ones
        rows = []
        for _ in range(k):
            t = self.init_list(dims[1:], vf, full, static)
            if static and set(t) <= set('{}, '):
                break
            rows.append(t)
        return '{' + ', '.join(rows) + '}'

    def decllocalarr(self):
        r = self.r
        nd = r.choice([1, 1, 1, 2, 2, 3][:3 + self.maxdim])
        dims = [r.choice([2, 3, 4, 5, 8, 10, 16]) for _ in range(nd)]
        if nd == 1 and self.bigframe and r.random() < 0.4:
            dims = [r.choice([300, 520, 1030, 2100])]
        ty = 'float' if self.floats and r.random() < 0.2 else 'int'
        name = self.nm('a')
        tot = 1
        for x in dims:
            tot *= x
        if self.cost + tot * self.mult > self.budget:
            return
        if ty == 'int':
            lo, hi = self.rrange()
            if lo > 0:
                lo = 0
            vf = lambda: self.fit(self.gi(1) if r.random() < 0.3 else self.const(), lo, hi).t
        else:
            lo, hi = -256, 256
            vf = lambda: self.gf(1, -256, 256).t
        if tot > 64:
            self.w('%s %s%s = {%s};' % (ty, name, ''.join('[%d]' % x for x in dims), vf() if nd == 1 else ''))
        else:
            self.w('%s %s%s = %s;' % (ty, name, ''.join('[%d]' % x for x in dims), self.init_list(dims, vf)))
        self.f('localarr')
        self.cost += tot * self.mult // 4
        self.scopes[-1].append(Var(name, ty, lo, hi, dims))

    def lval(self):
        r = self.r
        if self.arrays and r.random() < 0.4:
            e = self.elem('int', 1, wr=True)
            if e:
                return e
        vs = self.ints(lambda v: not v.ro and v.name not in self.loopvars and not (self.pure_ctx and v.glob))
        if not vs:
            return None
        v = r.choice(vs[:6]) if r.random() < 0.7 else r.choice(vs)
        return E(v.name, 13, v.lo, v.hi)

    def assign(self):
        r = self.r
        if self.floats and r.random() < 0.2:
            vs = [v for v in self.vis() if v.ty == 'float' and not v.dims and not v.ro and not (self.pure_ctx and v.glob)]
            if r.random() < 0.3:
                e = self.elem('float', 1, wr=True)
                if e:
                    self.w('%s = %s;' % (e.t, self.gf(2, -256, 256).t))
                    return
            if vs:
                v = r.choice(vs)
                self.w('%s = %s;' % (v.name, self.gf(3, v.lo, v.hi).t))
            return
        v = self.lval()
        if not v:
            return self.declint()
        self.cost += self.mult
        if self.ext and r.random() < 0.25:
            self.f('compound')
            k = r.choice(['%=', '/=', '&=', '>>=', '^=', '|=', '-=', '+=', '*='])
            if v.lo <= 0 and v.hi > 0:
                if k == '%=':
                    self.w('%s /= 2; %s %%= %s;' % (v.t, v.t, lit(r.randint(1, 1000)).t))
                    return
                if k == '/=':
                    self.w('%s /= %s;' % (v.t, lit(r.randint(1, 1000)).t))
                    return
                if k == '>>=':
                    self.w('%s >>= %s;' % (v.t, lit(r.randint(0, 20)).t))
                    return
                if k == '&=' and v.lo <= 0:
                    self.w('%s &= %s;' % (v.t, lit(min(v.hi, (1 << r.randint(0, 30)) - 1)).t))
                    return
                if (v.lo, v.hi) == FULL and k in ('^=', '|='):
                    self.w('%s %s %s;' % (v.t, k, self.gi(2).t))
                    return
        if r.random() < 0.3 and v.hi - v.lo > 10:
            # accumulate: v = (v op e) wrapped
            e = self.gi(2)
            op = r.choice('+-*')
            if op == '*':
                a, b = self.small(E(v.t, 13, v.lo, v.hi), 30000), self.small(e, 30000)
                s = E('%s * %s' % (self.par(a, 11), self.par(b, 12)), 11, -900000000, 900000000)
            else:
                a, b = self.small(E(v.t, 13, v.lo, v.hi), 2**30 - 1), self.small(e, 2**30 - 1)
                s = E('%s %s %s' % (self.par(a, 10), op, self.par(b, 11)), 10, -2**31 + 2, 2**31 - 2)
            self.w('%s = %s;' % (v.t, self.fit(s, v.lo, v.hi).t))
            return
        e = self.fit(self.gi(3), v.lo, v.hi)
        if self.ext and r.random() < 0.05:
            self.f('chainassign')
        self.w('%s = %s;' % (v.t, e.t))

    def trip(self):
        r = self.r
        left = max(1, (self.budget - self.cost) // max(1, self.mult * 6))
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 31, 33, 50, 64, 100])
        return min(n, left, 100)

    def stmt(self, d):
        r = self.r
        k = r.random()
        self.cost += self.mult
        if k < 0.28:
            self.assign()
        elif k < 0.38:
            if len(self.scopes[-1]) < 12:
                if self.floats and r.random() < 0.2:
                    self.declfloat()
                else:
                    self.declint()
            else:
                self.assign()
        elif k < 0.43:
            if self.arrays and len(self.scopes) < 5:
                self.decllocalarr()
            else:
                self.assign()
        elif k < 0.56 and d > 0:
            self.ifs(d)
        elif k < 0.66 and d > 0:
            self.loop(d)
        elif k < 0.74 and d > 0 and self.idioms:
            self.idiom(d)
        elif k < 0.80:
            self.callstmt()
        elif k < 0.90 and not self.pure_ctx:
            self.output()
        elif k < 0.92 and self.in_loop:
            self.w('if (%s) %s;' % (self.cond(2).t, self.brk()))
        elif k < 0.935 and self.infn is not None:
            self.w('if (%s) return%s;' % (self.cond(2).t, self.retexp()))
        elif k < 0.96 and d > 0:
            self.w('{')
            self.block(r.randint(1, 3), d - 1)
            self.w('}')
        elif k < 0.975 and self.ext and d > 0:
            self.switch(d)
        else:
            self.assign()

    def brk(self):
        self.f('break')
        return 'break'

    def retexp(self):
        f = self.infn
        if f[0] == 'void':
            return ''
        if f[0] == 'int':
            return ' ' + self.fit(self.gi(2), f[1], f[2]).t
        return ' ' + self.gf(2, f[1], f[2]).t

    def switch(self, d):
        """cmmc's switch: every case is self-contained when it ends in break"""
        self.f('switchlike')
        e = self.fit(self.gi(2), 0, 7)
        n = self.r.randint(2, 5)
        t = self.lval()
        if not t:
            return
        x = self.nm('v')
        self.w('int %s = %s;' % (x, e.t))
        self.scopes[-1].append(Var(x, 'int', 0, 7, ro=True))
        vals = self.r.sample(range(8), n)
        for i, v in enumerate(vals):
            self.w('%sif (%s == %d) %s = %s;' % ('else ' if i else '', x, v, t.t, self.fit(self.gi(2), t.lo, t.hi).t))
        self.w('else %s = %s;' % (t.t, self.fit(self.gi(2), t.lo, t.hi).t))

    def ifs(self, d):
        r = self.r
        c = self.cond(3)
        self.w('if (%s) {' % c.t)
        self.block(r.randint(1, 3), d - 1)
        if r.random() < 0.5:
            if r.random() < 0.4:
                self.w('} else if (%s) {' % self.cond(2).t)
                self.block(r.randint(1, 2), d - 1)
            self.w('} else {')
            self.block(r.randint(1, 2), d - 1)
        self.w('}')

    def loop(self, d):
        r = self.r
        n = self.trip()
        kind = r.choice(['up', 'up', 'up', 'down', 'step', 'ne', 'expr', 'for', 'dow'] if self.ext else
                        ['up', 'up', 'up', 'down', 'step', 'ne', 'expr'])
        i = self.nm('i')
        self.loopvars.add(i)
        om = self.mult
        oloop = self.in_loop
        self.mult *= max(n, 1)
        self.scopes.append([])
        step = 1
        if kind in ('up', 'expr', 'for', 'dow'):
            s0 = r.choice([0, 0, 0, 1, 2])
            if kind == 'dow' and n == 0:
                n = 1
            end = s0 + n
            v = Var(i, 'int', 0, end, ro=True)
            v.lo = s0
            body = Var(i, 'int', s0, max(s0, end - 1), ro=True)
            init, cond, inc = s0, r.choice(['%s < %d' % (i, end), '%s <= %d' % (i, end - 1), '%d > %s' % (end, i)]), '%s = %s + 1' % (i, i)
            if kind == 'expr' and n > 0:
                c = self.ints(lambda v: v.lo >= 0 and v.hi <= 100 and v.name not in self.loopvars)
                if c:
                    u = r.choice(c)
                    if u.hi * om * 6 + self.cost < self.budget:
                        self.mult = om * max(1, u.hi)
                        cond = '%s < %s' % (i, u.name)
                        # bound must be loop invariant for a precise range; copy it
                        b = self.nm('n')
                        self.w('int %s = %s;' % (b, u.name))
                        self.scopes[-2].append(Var(b, 'int', u.lo, u.hi, ro=True))
                        cond = '%s < %s' % (i, b)
                        init = 0
                        body = Var(i, 'int', 0, max(0, u.hi - 1), ro=True)
                        v = Var(i, 'int', 0, u.hi, ro=True)
        elif kind == 'down':
            init, cond, inc = n, r.choice(['%s > 0' % i, '%s >= 1' % i, '%s' % i]), '%s = %s - 1' % (i, i)
            body = Var(i, 'int', min(1, n), max(n, 1), ro=True)
            v = Var(i, 'int', 0, n, ro=True)
        elif kind == 'step':
            step = r.choice([2, 3, 4, 7])
            end = n * step - r.randint(0, step - 1) if n else 0
            init, cond, inc = 0, '%s < %d' % (i, end), '%s = %s + %d' % (i, i, step)
            body = Var(i, 'int', 0, max(0, end - 1), ro=True)
            v = Var(i, 'int', 0, end + step, ro=True)
        else:
            init, cond, inc = 0, '%s != %d' % (i, n), '%s = %s + 1' % (i, i)
            body = Var(i, 'int', 0, max(0, n - 1), ro=True)
            v = Var(i, 'int', 0, n, ro=True)
        self.f('loop_' + kind)
        self.scopes.pop()
        if kind == 'for':
            self.w('for (int %s = %d; %s; %s) {' % (i, init, cond, r.choice(['%s++' % i, '++%s' % i, '%s += 1' % i])))
        else:
            self.w('int %s = %d;' % (i, init))
            self.w('while (%s) {' % cond if kind != 'dow' else 'do {')
        self.scopes.append([body])
        self.in_loop = 1
        self.block(r.randint(1, 4), d - 1)
        self.ind += 1
        if kind != 'for':
            if r.random() < 0.15:
                self.w('if (%s) { %s; continue; }' % (self.cond(2).t, inc) if kind != 'dow' else '%s;' % self.putdummy())
                self.f('continue')
                self.block(1, 0)
            self.w('%s;' % inc)
        self.ind -= 1
        self.scopes.pop()
        self.w('}' if kind != 'dow' else '} while (%s);' % cond)
        self.in_loop = oloop
        self.mult = om
        if kind != 'for':
            self.scopes[-1].append(v)

    def putdummy(self):
        return ''

    def callstmt(self):
        r = self.r
        c = [f for f in self.funcs if self.cost + f.cost * self.mult < self.budget and (f.pure or not self.pure_ctx)]
        if not c:
            return self.assign()
        f = r.choice(c)
        a = self.args(f, 2)
        if a is None:
            return self.assign()
        self.cost += f.cost * self.mult
        t = '%s(%s)' % (f.name, ', '.join(a))
        self.f('call')
        if f.ret == 'int' and r.random() < 0.85:
            vs = self.ints(lambda v: not v.ro and v.name not in self.loopvars and not (self.pure_ctx and v.glob)
                           and v.lo <= f.rlo and v.hi >= f.rhi)
            if vs:
                self.w('%s = %s;' % (r.choice(vs).name, t))
            else:
                v = self.nm('v')
                self.w('int %s = %s;' % (v, t))
                self.scopes[-1].append(Var(v, 'int', f.rlo, f.rhi))
            return
        if f.ret == 'float' and r.random() < 0.85:
            v = self.nm('f')
            self.w('float %s = %s;' % (v, t))
            self.scopes[-1].append(Var(v, 'float', f.rlo, f.rhi))
            return
        self.w(t + ';')

    def output(self):
        r = self.r
        k = r.random()
        if self.mult > 200:
            return self.assign()
        if k < 0.6:
            self.w('putint(%s);' % self.gi(3).t)
            self.w('putch(%d);' % r.choice([10, 32, 44]))
        elif k < 0.7:
            self.w('putch(%s);' % self.fit(self.gi(1), 32, 126).t)
        elif k < 0.8 and self.floats:
            e = self.gf(2)
            self.w('putfloat(%s);' % e.t)
            self.w('putch(10);')
            self.f('putfloat')
        elif k < 0.9:
            c = self.arrs('int', lambda v: not v.ro)
            if c:
                v = r.choice(c)
                n = v.dims[-1]
                self.w('putarray(%d, %s);' % (r.randint(0, n), v.name + ''.join('[%s]' % self.idx(m, 0) for m in v.dims[:-1])))
                self.f('putarray')
        else:
            self.w('putint(%s);' % self.cond(2).t)

    # ---- idioms aimed at specific loop / memory / call optimisations
    def idiom(self, d):
        r = self.r
        if self.cost + 400 * self.mult > self.budget or not self.arrays:
            return self.assign()
        c = ['sum', 'fill', 'copy', 'stencil', 'max', 'count', 'prefix', 'nest', 'poly', 'modacc', 'search', 'hist', 'swap',
             'bits', 'gcd', 'lut', 'unswitch', 'affine', 'early']
        if self.maxdim >= 2:
            c += ['matmul', 'transpose', 'row']
        k = r.choice(c)
        getattr(self, 'id_' + k)()
        self.f('idiom_' + k)

    def pick1(self, wr=False, minn=2):
        c = self.arrs('int', lambda v: len(v.dims) == 1 and v.dims[0] >= minn and not (wr and v.ro)
                      and not (wr and self.pure_ctx and (v.glob or v.param)))
        return self.r.choice(c) if c else None

    def tmp(self, lo, hi, init=0):
        x = self.nm('t')
        self.w('int %s = %d;' % (x, init))
        self.scopes[-1].append(Var(x, 'int', lo, hi))
        return x

    def ivar(self, init=0):
        i = self.nm('i')
        self.loopvars.add(i)
        self.w('int %s = %s;' % (i, init))
        return i

    def id_sum(self):
        v = self.pick1()
        if not v:
            return self.assign()
        n = v.dims[0]
        i = self.ivar()
        s = self.tmp(-2**30, 2**30)
        m = max(abs(v.lo), abs(v.hi))
        self.w('while (%s < %d) {' % (i, n))
        if m * n <= 2**30:
            self.w('  %s = %s + %s[%s];' % (s, s, v.name, i))
        else:
            self.w('  %s = (%s + %s[%s] %% 1000) / 2 %% 1000000;' % (s, s, v.name, i))
        self.w('  %s = %s + 1;' % (i, i))
        self.w('}')
        self.cost += n * self.mult

    def id_fill(self):
        v = self.pick1(wr=True)
        if not v:
            return self.assign()
        n = v.dims[0]
        i = self.ivar()
        val = self.r.choice([lambda: self.fit(self.gi(1), v.lo, v.hi).t,
                             lambda: self.fit(E('%s * %d + %d' % (i, self.r.randint(1, 9), self.r.randint(0, 99)), 10, 0, 100000), v.lo, v.hi).t,
                             lambda: '0' if v.lo <= 0 else str(v.lo)])()
        st = self.r.choice([1, 1, 1, 2, 3])
        self.w('while (%s < %d) { %s[%s] = %s; %s = %s + %d; }' % (i, n, v.name, i, val, i, i, st))
        self.cost += n * self.mult

    def id_copy(self):
        a, b = self.pick1(wr=True), self.pick1()
        if not a or not b:
            return self.assign()
        n = min(a.dims[0], b.dims[0])
        i = self.ivar()
        off = self.r.choice([0, 0, 0, 1])
        src = E('%s[%s]' % (b.name, i if not off else '%s + 1' % i), 13, b.lo, b.hi)
        self.w('while (%s < %d) { %s[%s] = %s; %s = %s + 1; }' % (i, n - off, a.name, i, self.fit(src, a.lo, a.hi).t, i, i))
        self.cost += n * self.mult

    def id_stencil(self):
        a = self.pick1(wr=True, minn=4)
        if not a:
            return self.assign()
        n = a.dims[0]
        i = self.ivar(1)
        x = lambda o: '%s[%s%s]' % (a.name, i, o)
        e = E('%s / 4 + %s / 2 - %s / 4' % (x(' - 1'), x(''), x(' + 1')), 10, -2**31 + 1, 2**31 - 1)
        self.w('while (%s < %d) { %s = %s; %s = %s + 1; }' % (i, n - 1, x(''), self.fit(e, a.lo, a.hi).t, i, i))
        self.cost += n * 3 * self.mult

    def id_max(self):
        a = self.pick1()
        if not a:
            return self.assign()
        i = self.ivar()
        m = self.tmp(min(a.lo, 0), max(a.hi, 0))
        op = self.r.choice(['<', '>'])
        self.w('while (%s < %d) { if (%s[%s] %s %s) %s = %s[%s]; %s = %s + 1; }' % (i, a.dims[0], a.name, i, op, m, m, a.name, i, i, i))
        self.cost += a.dims[0] * self.mult

    def id_count(self):
        a = self.pick1()
        if not a:
            return self.assign()
        i = self.ivar()
        m = self.tmp(0, 100000)
        c = self.fit(self.gi(1), a.lo, a.hi)
        self.w('while (%s < %d) { %s = %s + (%s[%s] %s %s); %s = %s + 1; }' % (i, a.dims[0], m, m, a.name, i, self.r.choice(['<', '==', '!=', '>=']), self.par(c, 9), i, i))
        self.cost += a.dims[0] * self.mult

    def id_prefix(self):
        a = self.pick1(wr=True)
        if not a:
            return self.assign()
        i = self.ivar(1)
        e = E('%s[%s - 1] / 2 + %s[%s] / 2' % (a.name, i, a.name, i), 10, -2**31 + 2, 2**31 - 2)
        self.w('while (%s < %d) { %s[%s] = %s; %s = %s + 1; }' % (i, a.dims[0], a.name, i, self.fit(e, a.lo, a.hi).t, i, i))
        self.cost += a.dims[0] * self.mult

    def id_nest(self):
        r = self.r
        i, s = self.ivar(), self.tmp(-2**30, 2**30)
        n, m = r.randint(1, 12), r.randint(1, 12)
        j = self.nm('i')
        body = r.choice(['%s * %d + %s' % (i, m, j), '%s * %s' % (i, j), '(%s + %s) %% 3' % (i, j), '%s - %s' % (i, j),
                         '%s / %d + %s %% %d' % (i, r.randint(1, 9), j, r.randint(2, 9))])
        self.w('while (%s < %d) {' % (i, n))
        self.w('  int %s = %s;' % (j, r.choice(['0', i])))
        self.w('  while (%s < %d) { %s = %s + %s; %s = %s + 1; }' % (j, m, s, s, body, j, j))
        self.w('  %s = %s + 1;' % (i, i))
        self.w('}')
        self.cost += n * m * self.mult

    def id_poly(self):
        r = self.r
        i, s = self.ivar(), self.tmp(0, 1000000006)
        n = r.randint(1, 40)
        mod = r.choice([7, 97, 998, 10007, 32768, 65536])
        k = r.randint(2, 30000)
        self.w('while (%s < %d) { %s = (%s * %d + %s) %% %d; %s = %s + 1; }' % (i, n, s, s, k, i, mod, i, i))
        self.cost += n * self.mult

    def id_modacc(self):
        r = self.r
        i, s = self.ivar(), self.tmp(0, 1000000006)
        e = self.gi(1)
        v = self.nm('v')
        self.w('int %s = %s;' % (v, self.fit(e, 0, 100000).t))
        self.scopes[-1].append(Var(v, 'int', 0, 100000))
        n = r.choice([1, 5, 33, 100, 257])
        mod = r.choice([3, 10, 1000, 998244353, 1000000007])
        self.w('while (%s < %d) { %s = (%s + %s) %% %d; %s = %s + 1; }' % (i, n, s, s, v, mod, i, i))
        self.cost += n * self.mult

    def id_search(self):
        a = self.pick1()
        if not a:
            return self.assign()
        i = self.ivar()
        n = a.dims[0]
        c = self.fit(self.gi(1), a.lo, a.hi)
        self.w('while (%s < %d && %s[%s] != %s) %s = %s + 1;' % (i, n, a.name, i, self.par(c, 8), i, i))
        self.scopes[-1].append(Var(i, 'int', 0, n, ro=True))
        self.cost += n * self.mult

    def id_hist(self):
        a, b = self.pick1(), self.pick1(wr=True)
        if not a or not b:
            return self.assign()
        i = self.ivar()
        k = b.dims[0]
        x = '(%s[%s] / 2 %% %d + %d) %% %d' % (a.name, i, k, k, k)
        e = E('%s[%s] %% 100 + 1' % (b.name, x), 10, -100, 100)
        self.w('while (%s < %d) { %s[%s] = %s; %s = %s + 1; }' % (i, a.dims[0], b.name, x, self.fit(e, b.lo, b.hi).t, i, i))
        self.cost += a.dims[0] * 6 * self.mult

    def id_swap(self):
        a = self.pick1(wr=True)
        if not a:
            return self.assign()
        n = a.dims[0]
        i = self.ivar()
        j = self.nm('i')
        t = self.nm('t')
        self.w('while (%s < %d) {' % (i, n))
        self.w('  int %s = %s + 1;' % (j, i))
        self.w('  while (%s < %d) {' % (j, n))
        self.w('    if (%s[%s] > %s[%s]) { int %s = %s[%s]; %s[%s] = %s[%s]; %s[%s] = %s; }' % (a.name, i, a.name, j, t, a.name, i, a.name, i, a.name, j, a.name, j, t))
        self.w('    %s = %s + 1;' % (j, j))
        self.w('  }')
        self.w('  %s = %s + 1;' % (i, i))
        self.w('}')
        self.cost += n * n * 4 * self.mult

    def id_bits(self):
        x = self.nm('v')
        e = self.fit(self.gi(2), 0, IMAX)
        self.w('int %s = %s;' % (x, e.t))
        c = self.tmp(0, 64)
        self.w('while (%s > 0) { if (%s %% 2 == 1) %s = %s + 1; %s = %s / 2; }' % (x, x, c, c, x, x))
        self.scopes[-1].append(Var(x, 'int', 0, 0))
        self.cost += 100 * self.mult

    def id_gcd(self):
        x, y, t = self.nm('v'), self.nm('v'), self.nm('t')
        self.w('int %s = %s;' % (x, self.fit(self.gi(2), 0, 100000).t))
        self.w('int %s = %s;' % (y, self.fit(self.gi(2), 0, 100000).t))
        self.w('while (%s != 0) { int %s = %s %% %s; %s = %s; %s = %s; }' % (y, t, x, y, x, y, y, t))
        self.scopes[-1].append(Var(x, 'int', 0, 100000))
        self.cost += 40 * self.mult

    def id_lut(self):
        i, s = self.ivar(), self.tmp(-2**30, 2**30)
        a = self.nm('a')
        n = self.r.choice([4, 8, 16])
        base = self.r.randint(-20, 20)
        k = self.r.randint(-5, 5)
        vals = [base + k * j if self.r.random() < 0.95 else self.r.randint(0, 9) for j in range(n)]
        self.w('%sint %s[%d] = {%s};' % (self.r.choice(['', 'const ']), a, n, ', '.join(map(str, vals))))
        self.w('while (%s < %d) { %s = %s + %s[%s]; %s = %s + 1; }' % (i, n, s, s, a, i, i, i))
        self.cost += n * self.mult

    def id_unswitch(self):
        v = self.pick1(wr=True)
        if not v:
            return self.assign()
        n = v.dims[0]
        i = self.ivar()
        c = self.nm('v')
        self.w('int %s = %s;' % (c, self.cond(2).t))
        self.scopes[-1].append(Var(c, 'int', IMIN, IMAX))
        e1 = self.fit(self.gi(1), v.lo, v.hi).t
        e2 = self.fit(E('%s[%s] / 2' % (v.name, i), 11, v.lo, v.hi), v.lo, v.hi).t
        self.w('while (%s < %d) { if (%s) %s[%s] = %s; else %s[%s] = %s; %s = %s + 1; }' % (i, n, c, v.name, i, e1, v.name, i, e2, i, i))
        self.cost += n * self.mult

    def id_affine(self):
        """strided accesses with several induction variables"""
        v = self.pick1(minn=6)
        if not v:
            return self.assign()
        n = v.dims[0]
        i = self.ivar()
        j = self.nm('i')
        s = self.tmp(-2**30, 2**30)
        st = self.r.randint(1, 3)
        self.w('int %s = %d;' % (j, n - 1))
        self.w('while (%s < %d) {' % (i, n))
        self.w('  %s = (%s + %s[%s] %% 100 * (%s[%s] %% 10)) / 2 %% 100000;' % (s, s, v.name, i, v.name, j))
        self.w('  %s = %s + %d; %s = %s - %d;' % (i, i, st, j, j, st))
        self.w('  if (%s < 0) break;' % j)
        self.w('}')
        self.cost += n * 4 * self.mult

    def id_early(self):
        i, s = self.ivar(), self.tmp(-2**30, 2**30)
        n = self.r.randint(1, 60)
        c1 = self.r.randint(2, 9)
        self.w('while (1) {')
        self.w('  if (%s >= %d) break;' % (i, n))
        self.w('  %s = %s + 1;' % (i, i))
        self.w('  if (%s %% %d == 0) continue;' % (i, c1))
        self.w('  %s = %s + %s;' % (s, s, self.r.choice([i, '1', '%s * 2' % i])))
        self.w('  if (%s > %d) break;' % (s, self.r.randint(0, 2000)))
        self.w('}')
        self.cost += n * 3 * self.mult

    def pick2(self, wr=False):
        c = self.arrs('int', lambda v: len(v.dims) == 2 and not (wr and v.ro) and not (wr and self.pure_ctx and (v.glob or v.param)))
        return self.r.choice(c) if c else None

    def id_matmul(self):
        a, b, c = self.pick2(), self.pick2(), self.pick2(wr=True)
        if not a or not b or not c:
            return self.assign()
        n, m, k = min(a.dims[0], c.dims[0]), min(b.dims[1], c.dims[1]), min(a.dims[1], b.dims[0])
        if self.cost + n * m * k * 6 * self.mult > self.budget:
            return self.assign()
        i, j, l = self.ivar(), self.nm('i'), self.nm('i')
        s = self.nm('t')
        self.w('while (%s < %d) {' % (i, n))
        self.w('  int %s = 0;' % j)
        self.w('  while (%s < %d) {' % (j, m))
        self.w('    int %s = 0; int %s = 0;' % (l, s))
        self.w('    while (%s < %d) { %s = %s + %s[%s][%s] %% 100 * (%s[%s][%s] %% 100); %s = %s + 1; }' % (l, k, s, s, a.name, i, l, b.name, l, j, l, l))
        self.w('    %s[%s][%s] = %s;' % (c.name, i, j, self.fit(E(s, 13, -k * 10000, k * 10000), c.lo, c.hi).t))
        self.w('    %s = %s + 1;' % (j, j))
        self.w('  }')
        self.w('  %s = %s + 1;' % (i, i))
        self.w('}')
        self.cost += n * m * k * 6 * self.mult

    def id_transpose(self):
        a = self.pick2(wr=True)
        if not a:
            return self.assign()
        n = min(a.dims)
        i, j, t = self.ivar(), self.nm('i'), self.nm('t')
        self.w('while (%s < %d) {' % (i, n))
        self.w('  int %s = 0;' % j)
        self.w('  while (%s < %s) { int %s = %s[%s][%s]; %s[%s][%s] = %s[%s][%s]; %s[%s][%s] = %s; %s = %s + 1; }' % (
            j, i, t, a.name, i, j, a.name, i, j, a.name, j, i, a.name, j, i, t, j, j))
        self.w('  %s = %s + 1;' % (i, i))
        self.w('}')
        self.cost += n * n * 4 * self.mult

    def id_row(self):
        a = self.pick2(wr=True)
        if not a:
            return self.assign()
        i, j = self.ivar(), self.nm('i')
        e = self.fit(E('%s * %d + %s * %d' % (i, self.r.randint(1, 30), j, self.r.randint(1, 30)), 10, 0, 1000), a.lo, a.hi)
        order = self.r.random() < 0.5
        n, m = a.dims
        # either row-major or column-major traversal (loop interchange)
        ref = '%s[%s][%s]' % ((a.name, i, j) if order else (a.name, j, i))
        n1, n2 = (n, m) if order else (m, n)
        self.w('while (%s < %d) {' % (i, n1))
        self.w('  int %s = 0;' % j)
        self.w('  while (%s < %d) { %s = %s; %s = %s + 1; }' % (j, n2, ref, e.t, j, j))
        self.w('  %s = %s + 1;' % (i, i))
        self.w('}')
        self.cost += n * m * 3 * self.mult

    # ---- declarations
    def gglobals(self):
        r = self.r
        for _ in range(r.randint(1, 4)):
            name = self.nm('c')
            c = self.const()
            if c.lo > 0 and c.lo < 20:
                pass
            self.w('const int %s = %s;' % (name, c.t))
            self.globals.append(Var(name, 'int', c.lo, c.hi, ro=True, glob=True))
        for _ in range(r.randint(1, 5)):
            name = self.nm('g')
            lo, hi = self.rrange()
            if r.random() < 0.4 and lo <= 0:
                self.w('int %s;' % name)
            else:
                self.w('int %s = %s;' % (name, self.fit(self.const(), lo, hi).t))
            self.globals.append(Var(name, 'int', lo, hi, glob=True))
        if self.floats:
            for _ in range(r.randint(0, 2)):
                name = self.nm('h')
                self.w('%s %s = %s;' % (r.choice(['float', 'const float']), name, self.fl(r.randint(0, 400) / 8.0)))
                self.globals.append(Var(name, 'float', -256, 256, glob=True, ro=self.out[-1].lstrip().startswith('const')))
        if self.arrays:
            for _ in range(r.randint(1, 4)):
                nd = r.choice([1, 1, 1, 2, 2, 3][:3 + self.maxdim])
                dims = [r.choice([2, 3, 4, 5, 7, 8, 10, 16, 20]) for _ in range(nd)]
                if nd == 1 and r.random() < 0.3:
                    dims = [r.choice([33, 64, 100, 128, 1000])]
                ty = 'float' if self.floats and r.random() < 0.2 else 'int'
                name = self.nm('A')
                ro = r.random() < 0.15
                if ty == 'int':
                    lo, hi = self.rrange()
                    lo = min(lo, 0)
                    vf = lambda: self.fit(self.const(), lo, hi).t
                else:
                    lo, hi = -256, 256
                    vf = lambda: self.fl(r.randint(0, 400) / 8.0)
                tot = 1
                for x in dims:
                    tot *= x
                d = ''.join('[%d]' % x for x in dims)
                if r.random() < 0.35 and not ro:
                    self.w('%s %s%s;' % (ty, name, d))
                else:
                    self.w('%s%s %s%s = %s;' % ('const ' if ro else '', ty, name, d,
                                                self.init_list(dims, vf, static=True) if tot <= 100 else '{%s}' % ', '.join(vf() for _ in range(3)) if nd == 1 else '{}'))
                self.globals.append(Var(name, ty, lo, hi, dims, ro=ro, glob=True))

    def gfunc(self):
        r = self.r
        kind = r.choices(['pure', 'rec', 'arr', 'void', 'float', 'many', 'tail', 'memo'],
                         [4, 2 if self.recursion else 0, 3 if self.arrays else 0, 2, 1 if self.floats else 0,
                          1 if self.manyargs else 0, 1 if self.recursion else 0, 1 if self.recursion else 0])[0]
        self.f('fn_' + kind)
        name = self.nm('fn')
        if kind in ('rec', 'memo'):
            return self.grec(name, kind)
        if kind == 'tail':
            return self.gtail(name)
        params = []
        np_ = r.randint(0, 4) if kind != 'many' else r.randint(6, 14)
        for _ in range(np_):
            if self.floats and r.random() < (0.15 if kind not in ('float', 'many') else 0.4):
                params.append(Var(self.nm('p'), 'float', -256, 256))
            else:
                lo, hi = self.rrange()
                params.append(Var(self.nm('p'), 'int', lo, hi))
        if kind == 'arr' or (kind == 'many' and self.arrays and r.random() < 0.5):
            for _ in range(r.randint(1, 2)):
                nd = r.choice([1, 1, 2]) if self.maxdim >= 2 else 1
                # use the shape of an existing global so that it is callable
                g = [v for v in self.globals if v.dims and len(v.dims) >= nd and not v.ro]
                if not g:
                    continue
                v = r.choice(g)
                dims = v.dims[len(v.dims) - nd:]
                params.insert(r.randint(0, len(params)), Var(self.nm('q'), v.ty, v.lo, v.hi, dims, ro=v.ro, param=True))
        pure = kind in ('pure', 'float')
        ret = {'pure': 'int', 'arr': r.choice(['int', 'void']), 'void': 'void', 'float': 'float', 'many': 'int'}[kind]
        rlo, rhi = ((-256, 256) if ret == 'float' else self.rrange())
        ptxt = []
        for p in params:
            if p.dims:
                ptxt.append('%s%s %s[]%s' % ('const ' if p.ro else '', p.ty, p.name, ''.join('[%d]' % x for x in p.dims[1:])))
            else:
                ptxt.append('%s %s' % (p.ty, p.name))
        self.w('%s %s(%s) {' % (ret, name, ', '.join(ptxt)))
        save = self.cost, self.mult, self.budget
        self.cost, self.mult = 0, 1
        self.budget = min(self.budget, 3000)
        self.scopes = [list(params)]
        self.infn = (ret, rlo, rhi)
        self.pure_ctx = pure
        self.block(max(1, int(r.randint(1, 6) * self.size)), 2)
        self.scopes.append([])
        self.ind += 1
        if ret != 'void':
            self.w('return%s;' % self.retexp())
        self.ind -= 1
        self.w('}')
        self.scopes = []
        self.infn = None
        self.pure_ctx = False
        c = self.cost + 5
        self.cost, self.mult, self.budget = save
        # output-producing functions are fine, but bounded
        fn = Func(name, ret, params, pure, c, rlo, rhi)
        self.funcs.append(fn)

    def grec(self, name, kind):
        r = self.r
        two = r.random() < 0.6
        n = r.randint(3, 9) if two else r.randint(3, 30)
        K = r.choice([7, 100, 1009, 32768, 1000003])
        p1, p2 = self.nm('p'), self.nm('p')
        twoargs = r.random() < 0.6
        neg = kind == 'memo'
        params = [Var(p1, 'int', -3 if neg else 0, n)]
        if twoargs:
            params.append(Var(p2, 'int', -50, 50))
        self.w('int %s(%s) {' % (name, ', '.join('int ' + p.name for p in params)))
        self.ind += 1
        base = r.choice([1, 2])
        self.w('if (%s <= %d) return %s;' % (p1, base, r.choice(['1', p2 + ' % 5' if twoargs else '0', p1])))
        a2 = lambda: (', ' + r.choice([p2, '(%s + 1) / 2' % p2, '-%s' % p2])) if twoargs else ''
        c1 = '%s(%s - 1%s)' % (name, p1, a2())
        if two:
            c2 = '%s(%s - 2%s)' % (name, p1, a2())
            self.w('return (%s %s %s) / 2 %% %d;' % (c1, r.choice('+-'), c2, K))
        else:
            self.w('return (%s %s %s) / 2 %% %d;' % (c1, r.choice(['+', '-']), r.choice([p1, '3'] + ([p2] if twoargs else [])), K))
        self.ind -= 1
        self.w('}')
        cost = 3 * (2 ** n if two else n) + 5
        if two:
            cost = int(3 * 1.62 ** n) + 5
        m = max(K, 60)
        self.funcs.append(Func(name, 'int', params, True, cost, -m, m))

    def gtail(self, name):
        r = self.r
        p1, p2 = self.nm('p'), self.nm('p')
        n = r.randint(2, 50)
        K = r.choice([17, 1000, 65536])
        self.w('int %s(int %s, int %s) {' % (name, p1, p2))
        self.w('  if (%s == 0) return %s;' % (p1, p2))
        if r.random() < 0.4:
            self.w('  if (%s %% %d == 0) return %s(%s - 1, %s);' % (p1, r.randint(2, 5), name, p1, p2))
        self.w('  return %s(%s - 1, (%s * %d + %s) / 2 %% %d);' % (name, p1, p2, r.randint(2, 30), p1, K))
        self.w('}')
        self.funcs.append(Func(name, 'int', [Var(p1, 'int', 0, n), Var(p2, 'int', -1000, 1000)], True, n * 4, -max(K, 1000), max(K, 1000)))

    def program(self):
        r = self.r
        self.gglobals()
        for _ in range(max(0, int(r.randint(0, 5) * self.size))):
            self.gfunc()
        self.w('int main() {')
        self.scopes = [[]]
        self.infn = None
        self.ind = 1
        if self.reads:
            for _ in range(r.randint(0, 5)):
                lo, hi = self.rrange()
                v = self.nm('x')
                val = r.choice([lo, hi, r.randint(lo, hi), r.randint(max(lo, -20), min(hi, 20)) if max(lo, -20) <= min(hi, 20) else lo])
                self.w('int %s = getint();' % v)
                self.inputs.append(str(val))
                self.scopes[0].append(Var(v, 'int', lo, hi))
                self.f('getint')
            if r.random() < 0.3 and self.arrays:
                g = [v for v in self.globals if v.ty == 'int' and len(v.dims) == 1 and not v.ro and v.dims[0] <= 100]
                if g:
                    v = r.choice(g)
                    n = r.randint(0, v.dims[0])
                    x = self.nm('x')
                    self.w('int %s = getarray(%s);' % (x, v.name))
                    self.inputs.append('%d ' % n + ' '.join(str(r.randint(v.lo, v.hi)) for _ in range(n)))
                    self.scopes[0].append(Var(x, 'int', 0, v.dims[0]))
                    self.f('getarray')
        self.ind = 0
        self.block_into(max(2, int(r.randint(4, 14) * self.size)), 3)
        self.ind = 1
        # final checksum over everything global
        for v in self.globals:
            if v.dims and not v.ro:
                tot = v.dims[0] if len(v.dims) == 1 else 0
                if v.ty == 'int':
                    if len(v.dims) == 1:
                        self.w('putarray(%d, %s);' % (min(v.dims[0], 20), v.name))
                    else:
                        self.w('putarray(%d, %s%s);' % (v.dims[-1], v.name, ''.join('[%d]' % r.randrange(x) for x in v.dims[:-1])))
                else:
                    self.w('putfloat(%s%s); putch(10);' % (v.name, ''.join('[%d]' % r.randrange(x) for x in v.dims)))
            elif not v.dims and not v.ro:
                self.w('putint(%s); putch(10);' % v.name if v.ty == 'int' else 'putfloat(%s); putch(10);' % v.name)
        self.w('return %s;' % self.fit(self.gi(2), 0, 255).t)
        self.ind = 0
        self.w('}')
        return '\n'.join(self.out) + '\n'

    def block_into(self, n, d):
        self.ind += 1
        for _ in range(n):
            if self.cost > self.budget:
                break
            self.stmt(d)
        self.ind -= 1


def generate(seed, **kw):
    rng = random.Random(seed)
    g = Gen(rng, **kw)
    t = g.program()
    return t, '\n'.join(g.inputs) + '\n', g.feat


if __name__ == '__main__':
    import sys
    t, i, f = generate(int(sys.argv[1]), ext=len(sys.argv) > 2)
    print(t)
    print('/*', i, sorted(f), '*/')
