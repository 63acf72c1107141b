#!/usr/bin/env python3
"""Dense peephole workloads: many small functions built from algebraic templates (the shapes the
optimiser and the instruction selectors match) plus random expressions, each evaluated over a table
of edge values that is read at run time.  Every result is printed.  No execution overflows."""
import random
import sysygen
from sysygen import Gen, Var, E, IMIN, IMAX, FULL

EDGE = [0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 8, 10, -10, 15, 16, 17, 31, 32, 33, 63, 64, 100, -100, 127, 128, -128, -129, 255, 256,
        1000, -1000, 1023, 1024, 2047, 2048, -2048, -2049, 4095, 4096, 32767, 32768, -32768, 65535, 65536, 99999, 1 << 20,
        (1 << 24) + 1, (1 << 30) - 1, 1 << 30, -(1 << 30), IMAX, IMAX - 1, IMIN, IMIN + 1]
KONST = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 21, 24, 25, 31, 32, 33, 60, 63, 64, 65, 100, 127, 128, 255, 256,
         257, 641, 1000, 1001, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 4097]
BIGK = KONST + [10000, 32767, 32768, 46341, 65535, 65536, 65537, 100000, 1000000, 16777216, 998244353, 1000000007, 1 << 30,
                (1 << 30) + 1, (1 << 30) - 1, 2147483646, 2147483647]

# {x},{y},{z} variables; {k},{l},{m} positive constants; {s},{t} shift amounts; {K},{L} big positive constants
# {c},{d},{e} comparison operators; leading flags: E = needs the extended operators
ANY = ['{x} / {K}', '{x} % {K}', '{x} / -{K2}', '{x} % -{K}', '{x} / {k} / {l}', '{x} / {k} * {k}', '{x} - {x} / {k} * {k}',
       '{x} % {k} == 0', '{x} % {k} == {m}', '{x} % 2 == 1', '{x} % 2 == -1', '{x} % 2 != 0', '{x} / {k} == {m}', '{x} / {k} {c} {m}', '{x} % {k} % {l}',
       '{x} / {k} % {l}', '{x} % {k} / {l}', '{x} % {k} * {l}', '({x} % {k} + {k}) % {k}',
       '{x} {c} {y} && {x} {d} {z}', '{x} {c} {y} || {x} {d} {z}', '{x} {c} {k} && {x} {d} {l}', '{x} {c} {k} || {x} {d} {l}',
       '{x} {c} -{k} && {x} {d} {K}', '{x} {c} {y} && {y} {d} {x}', '{x} {c} {y} && {z} {d} {y}', '!({x} {c} {y})',
       '({x} {c} {y}) == 0', '({x} {c} {y}) != 0', '({x} {c} {y}) == ({y} {d} {x})', '({x} {c} {y}) != ({x} {d} {z})',
       '({x} {c} {y}) + ({x} {d} {z})', '({x} {c} {k}) * {l}', '({x} {c} {y}) * ({z} {d} {k})', '({x} {c} {y}) {d} ({y} {e} {z})',
       '!{x} + !{y}', '!(!{x})', '!{x} == {y}', '{x} {c} 0', '0 {c} {x}', '{x} {c} {K}', '{x} {c} -{K}', '{K} {c} {x}',
       '{x} {c} 2147483647', '{x} {c} -2147483647 - 1', '{x} {c} {x}', '{x} == {k} || {x} == {l} || {x} == {m}',
       '{x} != {k} && {x} != {l}', '({x} / {k}) - ({x} / {l})', '{x} / 2 + {y} / 2', '{x} / 2 - {y} / 2', '{x} / 2 {c} {y} / 2',
       '{x} % {k} + {y} % {k}', '{x} % {k} * ({y} % {l})', '{x} % {k} {c} {y} % {l}', '{x} % {k} - {x} % {l}', '{x} / {k} + {x} % {k}',
       '({x} {c} {k}) / {l}', '({x} {c} {y}) - ({x} {d} {y})', '-({x} {c} {y})', '-({x} % {k})', '-({x} / 2)', '-({x} / {k} % {l}) {c} {m}', '{x} / {K} {c} {y} / {L}',
       '({x} % {k}) / -{l}', '{x} / {k} - {x} / {k}', '{x} / {k} % 4096 * {l} / {k2}']
ANYX = ['{x} & {K}', '{x} | {K}', '{x} ^ {K}', '~{x}', '{x} >> {s}', '{x} >> {s} >> {t}', '({x} & {k}) | ({x} & {l})', '({x} & {k}) & {l}', '({x} | {k}) | {l}',
        '({x} ^ {k}) ^ {l}', '({x} | {k}) & {l}', '({x} ^ {y}) ^ {x}', '~(~{x} | {y})', '~{x} & ~{y}', '{x} & ~{x}', '{x} | ~{x}', '({x} & {y}) | ({x} & {z})', '({x} & {y}) ^ ({x} & {z})',
        '({x} | {y}) & ({x} | {z})', '({x} & {k}) == 0', '({x} & {k}) == {k}', '({x} & {k}) {c} {l}', '({x} & 255) << {s}', '({x} & 65535) >> {s}', '(({x} >> {s}) & 1) == 1', '({x} >> {s}) & {k}',
        '({x} & {y}) + ({x} & ~{y})', '{x} ^ -1', '({x} ^ -1) {c} {k}', '({x} & 1023) * {l}', '({x} & 15) - {y} % {k}', '({x} >> 31) & {y}', '({x} >> 31) ^ {x}', '({x} & {y}) {c} ({x} | {y})',
        '({x} & 1) ? {y} : {z}', '{x} {c} {y} ? {x} : {y}', '{x} {c} {k} ? {l} : {m}', '{x} {c} {y} ? {z} : {x}', '{x} {c} 0 ? {y} % {k} : {z} % {l}', '{x} {c} {y} ? {k} : 0', '{x} {c} {y} ? 1 : 0', '{x} {c} {k} ? {y} : {y} / 2', '({x} & 255) / {k}', '({x} & 65535) % {k}', '({x} & {K}) / {k}', '({x} >> {s}) / {k}']
SM = ['{x} * {k} + {x} * {l}', '{x} * {k} - {x}', '{x} * {k} - {x} * {l}', '({x} + {k}) * {l}', '({x} - {k}) * {l} + {m}', '({x} + {k}) - ({x} + {l})', '({x} - {y}) + {y}', '{x} + {y} - {x}', '{x} - ({x} - {y})', '-({x} - {y})',
      '-{x} * {k}', '{x} * -{k}', '{x} * {k} / {k}', '({x} * {k} + {l}) / {m}', '{x} * {k} % {l}', '({x} + {y}) * ({x} - {y})', '{x} * {x} - {y} * {y}', '{x} + {k} {c} {l}', '{x} - {k} {c} {l}', '{k} - {x} {c} {l}', '{x} * {k} {c} {l}',
      '{x} * {k} {c} {y} * {k}', '{x} * -{k} {c} {y} * -{k}', '{x} - {y} {c} 0', '{x} + {k} {c} {y} + {k}', '{x} + {k} {c} {y} + {l}', '-{x} {c} {k}', '-{x} {c} -{y}', '-{x} {c} {y}', '{x} / 2 * 2', '{k} - ({l} - {x})', '{k} - {x} - {l}', '({x} * 4) / 2', '({x} * 6) % 3',
      '({x} * {k}) / {l}', '({x} + {k}) / {l}', '({x} + {k}) % {l}', '({x} - {y}) / {k}', '({x} - {y}) % {k} % {l}', '{x} + {x}', '{x} + {x} + {x}', '{x} * 2 + {y} * 2', '{x} * {k} + {y} * {k}', '{x} * 8 + {y}', '{x} * 4 - {y}', '{y} - {x} * 4', '{x} * {y} + {z}', '{z} - {x} * {y}', '{x} * {y} * 2',
      '({x} + {y} + {k}) - {y}', '{x} + -{y}', '{x} - -{y}', '-(-{x})', '-{x} - {y}', '-{x} + {y}', '-{x} / {k}', '-{x} % {k}', '{x} / -{k}', '{x} * 0 + {y}', '0 - {x}', '{x} * 1 / 1', '({x} {c} {y}) * {x}', '({x} {c} {y}) * {x} + ({x} {d} {y}) * {y}', '{x} + ({x} {c} {y})', '{x} - ({y} {c} {k})', '{x} * ({y} {c} 0)',
      '({x} * {k} - {k}) / {k}', '({x} * {k} + {y} * {k}) % {k}', '({x} + {k}) * ({x} - {k})', '{x} * {x} + 2 * {x} * {y} + {y} * {y}', '{x} * {k} * {l2}', '{x} * {k} - {y} * {l}', '({x} - {k}) * ({x} - {k})', '{x} * {x} % {k}', '({x} * {k} {c} {l}) + {y}', '!({x} - {y})', '!({x} + {k})', '({x} - {y} {c} {z})']
SMX = ['{x} * {k} >> {s}', '({x} & 4095) << {t4}', '(({x} & 4095) << {t4}) >> {t4}', '(({x} & 4095) << {t4}) / {k}', '({x} + {y}) >> 1', '({x} + {y}) & {k}', '({x} & ~{k}) + ({x} & {k})', '({x} & {k}) - ({y} & {k})', '({x} * {k}) & {l}', '({x} - {y}) >> 31', '{x} - ({x} & {k})', '({x} ^ {y}) + 2 * ({x} & {y})', '({x} | {y}) + ({x} & {y})', '({x} | {y}) - ({x} & {y})', '~{x} + 1', '-~{x}', '~-{x}', '{x} {c} {y} ? {x} + {k} : {x} - {k}', '{x} {c} {y} ? {x} - {y} : {y} - {x}', '{x} {c} 0 ? -{x} : {x}', '({x} {c} {y} ? {k} : {l}) * {z}', '({x} & 63) * {k} + ({y} & 63)', '({x} + {k}) ^ {y}', '({x} ^ {k}) - {y}', '{x} {c} {k} ? {x} * {l} : {y} * {l}']
BODY = ['int r = {x}; if ({y} {c} r) r = {y}; return r;', 'int r = {x}; if (r < 0) r = 0; if (r > {k}) r = {k}; return r;', 'if ({x} {c} {y}) return {x}; return {y};', 'if ({x} {c} {k}) return {l}; if ({x} {d} {m}) return {l}; return 0;',
        'int r = 0; if ({x} {c} {k}) r = r + 1; if ({x} {d} {l}) r = r + 2; if ({y} {e} {x}) r = r + 4; return r;', 'if ({x} > {k}) {{ if ({x} < {K}) return {x} % {l}; return {x} / {l}; }} return -1;', 'if ({x} >= 0 && {x} < {k}) return {x} * {l} % {m}; return {x} / {k};', 'if ({x} > 0) return {x} / {k} + {x} % {l}; if ({x} < 0) return {x} / {l}; return {m};',
        'int r = {x} / 2; int i = 0; while (i < {q}) {{ if (r {c} {k}) r = r / 2; else r = r / 3 + {l}; i = i + 1; }} return r;', 'int r = {x} % {k}; if (r < 0) r = r + {k}; return r * {l} / {m};', 'int i = 0; int r = 0; while (i < {q}) {{ r = r + ({x} {c} i * {k}); i = i + 1; }} return r;', 'int r = 0; int i = 0; while (i < {q}) {{ i = i + 1; if (i % {k} == 0) continue; if (i {c} {x}) break; r = r + i; }} return r;',
        'if ({x} == {k}) return {l}; if ({x} == {l}) return {k}; if ({x} == {m}) return {l}; return {x} / 2;', 'if ({x} <= {k} || {y} > {l}) {{ if ({x} > {k}) return 1; return 2; }} return 3;', 'int u = {x} / {k}; int v = {x} % {k}; return u / 2 + v;', 'if (!({x} {c} {y})) {{ if ({y} {d} {z}) return {k}; }} else if ({z} {e} {x}) return {l}; return {m};', 'int r = {x} % {k}; if (r {c} {l} && r {d} -{m}) return r; return {y} % {m};']
FL = ['{x} + {y}', '{x} - {y}', '{x} * 2', '{x} * 0.5', '-{x}', '-{x} + {y}', '-(-{x})', '{x} * {y}', '({x} {c} {y})', '!({x} {c} {y})', '({x} {c} 0)', '({x} {c} {g})', '{x} + {g}', '{g} - {x}', '{x} - {x}', '{x} / 2', '{x} / 4', '{x} / 0.25', '{x} / 1', '{x} * 1', '{x} * -1', '{x} + 0', '({x} {c} {y}) + ({y} {d} {x})', '({x} {c} {y} && {y} {d} {g})', '({x} {c} {y} || {x} {d} {g})', '{x} * {g} + {y}', '{y} - {x} * {g}', '{x} * {g} - {y}', '-({x} * {g})', '-({x} * {g}) - {y}', '({x} + {y}) * {g}', '({x} - {y}) - {x}', '({x} {c} {y}) * {x}', '{x} + ({x} {c} {y})']
CMP = ['<', '<=', '>', '>=', '==', '!=']


class XGen:
    def __init__(self, rng, ext, floats=True):
        self.r, self.ext, self.floats = rng, ext, floats
        self.out = []

    def fill(self, t, vs, ks):
        r = self.r
        m = {}
        for i, k in enumerate('xyz'):
            m[k] = vs[i] if i < len(vs) and r.random() < 0.93 else r.choice(vs)
        for k in ('k', 'l', 'm', 'k2', 'l2'):
            m[k] = r.choice(ks)
        if m['k2'] < 2:
            m['k2'] = 3
        m['K'], m['L'] = r.choice(BIGK), r.choice(BIGK)
        m['K2'] = r.choice(BIGK[1:])
        m['s'], m['t'], m['t4'], m['q'] = r.randint(0, 31), r.randint(0, 31), r.randint(0, 18), r.choice([1, 2, 3, 7, 20])
        for k in 'cde':
            m[k] = r.choice(CMP)
        m['g'] = '%g' % (r.choice([0.5, 1.5, 2, 3, 0.125, 8, 10.25, 100]))
        return t.format(**m)

    def program(self, nf, npoints):
        r = self.r
        calls = []
        anyt = [min(max(r.choice(EDGE) + r.choice([0, 0, 0, r.randint(-2, 2)]), IMIN), IMAX) if r.random() < 0.8 else r.randint(IMIN, IMAX)
                for _ in range(npoints)]
        anyt2 = [r.choice(anyt) if r.random() < 0.25 else r.choice(EDGE) for _ in range(npoints)]
        anyt3 = [r.choice(EDGE) for _ in range(npoints)]
        small = [r.choice([e for e in EDGE if abs(e) <= 4096]) if r.random() < .7 else r.randint(-4000, 4000) for _ in range(npoints)]
        small2 = [r.choice(small) if r.random() < 0.3 else r.randint(-4096, 4096) for _ in range(npoints)]
        small3 = [r.randint(-50, 50) for _ in range(npoints)]
        nonneg = [abs(x) for x in small]
        cl = lambda v: [min(max(x, IMIN + 1), IMAX - 1) for x in v]
        tabs = {'C0': cl(anyt), 'C1': cl(anyt2), 'C2': cl(anyt3), 'T0': anyt, 'T1': anyt2, 'T2': anyt3, 'S0': small, 'S1': small2, 'S2': small3, 'N0': nonneg}
        for t in tabs:
            self.out.append('int %s[%d];' % (t, npoints))
        self.out.append('float F0[%d]; float F1[%d];' % (npoints, npoints))
        ftab = [[r.choice([0, 1, -1, 0.5, 2, -2.5, 8, 100.25, -64, 1000, -0.125]) if r.random() < .7 else r.randint(-800, 800) / 8
                 for _ in range(npoints)] for _ in range(2)]
        for i in range(nf):
            n = 'f%d' % i
            k = r.random()
            ps = ['a', 'b', 'c'][:r.choice([1, 2, 2, 3, 3])]
            ty = 'int'
            if k < 0.40:
                pool = ANY + (ANYX if self.ext else [])
                t = r.choice(pool)
                # known finding: x < n && x <= i is rewritten with i + 1, which overflows for i == INT_MAX
                tn = ['C0', 'C1', 'C2'] if '{d}' in t else ['T0', 'T1', 'T2']
                t = self.fill(t, ps, KONST)
                body = 'return %s;' % t
            elif k < 0.75:
                pool = SM + (SMX if self.ext else [])
                # |x| <= 4096, constants small enough for the products
                t = self.fill(r.choice(pool), ps, [q for q in KONST if q <= 257])
                tn = ['S0', 'S1', 'S2']
                r.shuffle(tn)
                if r.random() < .15:
                    tn[0] = 'N0'
                body = 'return %s;' % t
                if r.random() < .2:
                    body = 'if (%s < %d) return %d; %s' % (r.choice(ps), r.choice([0, 1, -100, 10]), r.randint(-5, 5), body)
                elif r.random() < .1:
                    body = 'if (%s > %d) return %d; %s' % (r.choice(ps), r.choice([0, 1, 100, 10]), r.randint(-5, 5), body)
            elif k < 0.85:
                t = self.fill(r.choice(BODY), ps, KONST)
                tn = ['C0', 'C1', 'C2']
                body = t
            elif k < 0.93 or not self.floats:
                g = Gen(r, ext=self.ext, floats=False, arrays=False)
                kind = r.random()
                lo, hi = (IMIN, IMAX) if kind < .4 else (-4096, 4096)
                tn = ['C0', 'C1', 'C2'] if kind < .4 else ['S0', 'S1', 'S2']
                g.scopes = [[Var(p, 'int', lo, hi) for p in ps]]
                body = 'return %s;' % g.gi(r.randint(2, 5)).t
            else:
                ps = ps[:2]
                ty = 'float'
                t = self.fill(r.choice(FL), ps, KONST)
                tn = ['F0', 'F1', 'F0']
                body = 'return %s;' % t
            pt = 'float' if ty == 'float' else 'int'
            self.out.append('%s %s(%s) { %s }' % (ty, n, ', '.join('%s %s' % (pt, p) for p in ps), body))
            calls.append((n, ty, tn[:len(ps)]))
        self.out.append('int main() {')
        for t in tabs:
            self.out.append('  getarray(%s);' % t)
        self.out.append('  getfarray(F0); getfarray(F1);')
        self.out.append('  int i = 0;')
        # several calling styles: direct loops, a shared loop, straight-line calls
        style = r.choice(['each', 'each', 'joint'])
        idx = [('i' if q == 0 else '(i * %d + %d) %% %d' % (r.choice([1, 3, 5, 7]), r.randrange(npoints), npoints)) for q in range(3)]

        def call(n, tn):
            return '%s(%s)' % (n, ', '.join('%s[%s]' % (t, idx[q]) for q, t in enumerate(tn)))
        if style == 'joint':
            self.out.append('  while (i < %d) {' % npoints)
            for n, ty, tn in calls:
                self.out.append('    put%s(%s); putch(10);' % (ty, call(n, tn)))
            self.out.append('    i = i + 1;\n  }')
        else:
            for n, ty, tn in calls:
                self.out.append('  i = 0;\n  while (i < %d) { put%s(%s); putch(32); i = i + 1; }\n  putch(10);' % (npoints, ty, call(n, tn)))
        self.out.append('  return 0;\n}')
        inp = ''
        for t, v in tabs.items():
            inp += '%d %s\n' % (len(v), ' '.join(map(str, v)))
        for v in ftab:
            inp += '%d %s\n' % (len(v), ' '.join(float(x).hex() for x in v))
        return '\n'.join(self.out) + '\n', inp


def generate(seed, ext=False, floats=True, nf=24, npoints=24):
    r = random.Random('x%d' % seed)
    return XGen(r, ext, floats).program(nf, npoints)


if __name__ == '__main__':
    import sys
    t, i = generate(int(sys.argv[1]), ext=len(sys.argv) > 2)
    print(t)
    print('/*', i, '*/')
