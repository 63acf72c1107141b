#!/usr/bin/env python3
"""Loop, memory and call idioms: parametrised kernels of the shapes the loop, memory and inter-procedural
passes look for, with random bounds (including 0 trips, 1 trip and bounds at the ends of int), strides,
rotated and do-while forms, and intermediate uses.  Written in a small macro notation:
  «a|b|c»  one alternative        $name  a random constant (see CONST)      @  the kernel's unique suffix
Tables (read at run time): A, B in [-1000,1000], P in [0,1000], Q a permutation of 0..63, F, H floats;
n0..n5 run-time scalars: n0 = 0, n1 = 1, n2 in 2..9, n3 in 10..60, n4 = 64, m1 = -1, imax, imin."""
import random
import re

CONST = {
    'k': [1, 2, 3, 4, 5, 7, 8, 10, 16, 31, 100, 255, 1000],
    'sk': [1, 2, 3, 4, 5, 8],
    'p': [2, 3, 4, 5, 7, 8, 10, 16, 17, 32, 60, 64, 100, 128, 255, 256, 1000, 1009, 4096, 32749],
    'q': [3, 7, 10, 16, 64, 100, 1009, 32749, 65536, 998244353, 1000000007],
    'st': [1, 1, 1, 2, 3, 4, 5, 7],
    'c': [0, 1, 2, 3, 5, 8, 13, 20],
    't': [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 50, 64],
    'sh': [1, 2, 3, 7, 8],
    's': [-1000, -100, -5, -1, 0, 1, 5, 100, 1000],
    'f': [0.5, 0.25, 1.5, 2, 3, 0.125, 4],
}
N = '«n0|n1|n2|n3|n3|n4|n2|n3»'     # a run-time trip count in 0..64
V = '«A|B|P»'

# each entry: (declarations, statements in main); every statement list prints something
K = []


def k(decl, main, ext=False):
    K.append((decl, main, ext))


# --- sums, reductions, modulo chains
k('int f@(int n) { int i = «0|$c»; int s = $s; while (i «<|<=|!=» n) { if (i > 70) break; s = s + i«| * $sk|* i % $p|/ $sk»; i = i + 1; } return s; }',
  'putint(f@($N)); putch(32); putint(f@(n0)); putch(32); putint(f@(m1)); putch(32); putint(f@(1));')
k('int f@(int n) { int i = 0; int s = $c; while (i < n) { s = (s * 3 «+|-» $V[i]«| * $sk|| + i|| - B[i]») % $p; «|if (s == $c) putint(i);|E@ = E@ + s % 3;» i = i + 1; } return s; }',
  'putint(f@($N)); putch(32); putint(f@($N)); putint(E@);')
k('int f@(int n) { int i = n; int s = 0; while (i > 0) { i = i - 1; s = (s + P[i]) % $p; } return s; }', 'putint(f@($N)); putch(32); putint(f@($N));')
k('int f@(int n) { int i = 0; int s = «0|1|$c»; while (1) { s = (s * $sk + $c) % $q; i = i + 1; if (i >= n) break; } return s; }',
  'putint(f@($N)); putch(32); putint(f@(m1)); putch(32); putint(f@(imin));')
k('int f@(int n) { int i = 0; int s = $c; while (1) { s = s + $k; i = i + $st; if (i >= n) break; } return s; }',
  'putint(f@($N)); putch(32); putint(f@(m1)); putch(32); putint(f@(imin)); putint(f@(n0));')
k('int f@(int n) { int i = $c; int s = 0; while (1) { s = (s + i) % $p; «putint(s);|||if (s == 1) C[3] = i;» i = i + 1; if (i > n) break; } return s * 100 + i; }',
  'putint(f@($N)); putch(32); putint(f@(m1)); putch(32); putint(f@($c)); putint(C[3]);')
k('int f@(int n, int m) { int i = 0; int s = 0; while (i < n) { int j = 0; while (j < m) { s = (s + i * j + $c) % $q; j = j + 1; } i = i + 1; } return s; }',
  'putint(f@($N, $N)); putch(32); putint(f@($N, n0)); putint(f@(n2, n3));')
k('int f@(int n) { int i = 0; int s = 0; int last = -1; while (i < n) { last = i * $sk + $c; s = s + last; if (s > 100000) s = s % 1000; i = i + $st; } return s + last; }',
  'putint(f@($N)); putch(32); putint(f@(n0));')
k('int f@(int n) { int i = 0; int mx = «-100000|-1000|A[0]|0»; int mn = $s; while (i < n) { if (A[i] «>|>=» mx) mx = A[i]; if (B[i] «<|<=» mn) «mn = B[i]|mn = B[i]; else mn = mn - 1»; i = i + 1; } return mx + mn; }',
  'putint(f@($N)); putch(32); putint(f@(n3));')
k('int f@(int n) { int i = 0; int c = 0; while (i < n) { c = c + ($V[i] «>|<|==|!=» «0|$k|B[i]»); i = i + 1; } return c; }', 'putint(f@($N)); putch(32); putint(f@(n4));')
k('int f@(int n) { int x = n; int r = 0; while (x > 0) { r = r + x % $p2; x = x / $p2; } return r; }', 'putint(f@(imax)); putch(32); putint(f@(n3)); putint(f@(A[5] + 1001)); putint(f@(n0));')
k('int f@(int a, int b) { int i = 0; int r = 0; while (i < 31) { if (a % 2 «==|!=» b % 2) r = r * 2; else r = r * 2 + 1; if (r > 100000) r = r % 1000; a = a / 2; b = b / 2; i = i + 1; } return r; }',
  'putint(f@(A[3], B[4])); putch(32); putint(f@(imax, n3)); putint(f@(imin, m1));')
k('int f@(int base, int e) { int r = 1; int b = base % $p; while (e > 0) { if (e % 2 == 1) r = r * b % $p; b = b * b % $p; e = e / 2; } return r; }', 'putint(f@(n2, imax)); putch(32); putint(f@(P[3], n3)); putint(f@(n3, n0));')
k('int f@(int a, int b) { if (b == 0) return a; return f@(b, a % b); }', 'putint(f@(P[1] + 1, P[2])); putch(32); putint(f@(imax, n3)); putint(f@(n0, n0)); putint(f@(n4 * 360, P[7] * 12));')
k('int f@(int x, int y) { int r = 0; if (y == 0) return 0; r = f@(x, y / 2) * 2 % $p; if (y % 2 == 1) return (r + x % $p) % $p; return r; }', 'putint(f@(n3, imax)); putch(32); putint(f@(P[0], n4)); putint(f@(1, 0));')
# --- conditionals depending on the induction variable, unswitching, peeling
k('int f@(int n, int k) { int i = 0; int s = 0; while (i < n) { if (k «>|<|==» $c) s = s + A[i]; else «s = s - B[i]|C[i] = s|s = s + 1»; i = i + 1; } return s; }', 'putint(f@($N, 0)); putint(f@($N, n3)); putch(32); putint(f@(n3, n2)); putarray(20, C);')
k('int f@(int n) { int i = 0; int s = 0; while (i < n) { if (i «==|<|>=» $t) s = s + 10 * A[i]; «else|» s = s + B[i]; i = i + 1; } return s; }', 'putint(f@($N)); putch(32); putint(f@(n4));')
k('int f@(int n, int m) { int i = 0; int s = 0; while (i < n) { if (i < m) { s = s + i; } else { s = s * 2 % $p; if (s == $c) break; } i = i + $st; } return s * 64 + i; }', 'putint(f@($N, $N)); putch(32); putint(f@(n4, m1)); putint(f@(n3, imax));')
k('int f@(int n, int x) { int i = 0; while (i < n) { if ($V[i] == x) return i; i = i + 1; } return -1; }', 'putint(f@(n4, A[n3])); putint(f@(n4, 5000)); putch(32); putint(f@($N, B[2])); putint(f@(n0, A[0]));')
k('int f@(int n) { int i = 0; int s = 0; while (i < n) { i = i + 1; if (i % $sk2 == «0|1») continue; if (i % $sk2 > 1) { s = s + i; continue; } s = s + A[i % 64]; if (s > $k * 20) break; } return s; }', 'putint(f@($N)); putch(32); putint(f@(n4));')
k('int f@(int n, int m) { int i = 0; int s = 0; while (i < n && s < m) { s = s + P[i]; if (P[i] > 900 || i > 60) s = s + 1; i = i + 1; } return s * 100 % 10007 + i; }', 'putint(f@($N, imax)); putint(f@(n4, 3000)); putch(32); putint(f@(n3, n0));')
# --- bounds at the ends of int
k('int f@(int a, int b) { int c = 0; while (a < b) { a = a + 1; c = c + 1; } return c; }', 'putint(f@(imax - $c, imax)); putint(f@(imin, imin + $t)); putch(32); putint(f@(imax, imin)); putint(f@(n2, n3)); putint(f@(imax, imax));')
k('int f@(int a, int b) { int c = 0; while (a > b) { a = a - 1; c = c * 3 % 1009 + 1; } return c; }', 'putint(f@(imin + $c, imin)); putint(f@(imax, imax - $t)); putch(32); putint(f@(imin, imax)); putint(f@(n3, n2));')
k('int f@(int a, int b) { int s = 0; while (a != b) { s = (s + a % 10) % $p; a = a + «1|-1»; if (a > b + 100 || a < b - 100) return -1; } return s; }', 'putint(f@(n2, n3)); putint(f@(n3, n2)); putch(32); putint(f@(n1, n1)); putint(f@($c, n2));')
# --- memory: copies, fills, stencils, aliasing
k('void f@(int d[], int s[], int n, int o) { int i = 0; while (i < n) { d[i + o] = s[i]«| + 1| * 2 % 1000»; i = i + 1; } }', 'f@(C, A, $N - 4 * (n4 / 64), «0|1|2|4»); putarray(64, C); f@(C, C, n3, «1|2|3|0»); putarray(64, C);')
k('void f@(int d[], int v, int n) { int i = «0|1»; while (i < n) { d[i] = «0|v|-1|i»; i = i + «1|1|2|3»; } }', 'f@(C, $c, $N); putarray(64, C); f@(C, n3, n4); f@(C, n0, n2); putarray(64, C);')
k('int f@(int d[], int n) { int i = 1; while (i < n) { d[i] = (d[i - 1]«| + d[i]| * 2 - d[i]») % 10007; «|d[0] = i;|d[n - i] = d[i];|if (i == $t) d[i] = 0;» i = i + 1; } return d[n - 1 + (n == 0)]; }', 'putint(f@(C, $N)); putint(f@(C, n4)); putarray(64, C);')
k('int f@(int a[], int b[], int n) { int i = 0; int s = 0; while (i < n) { a[i] = i; b[i] = b[i] + 1; s = s + a[i]; i = i + 1; } return s; }', 'putint(f@(C, D, $N)); putint(f@(C, C, n3)); putarray(64, C); putarray(64, D);')
k('int g@; int f@(int p[]) { g@ = $c; p[0] = p[0] + 1; g@ = g@ + p[0] % 7; return g@ + p[0]; }', 'putint(f@(C)); putint(f@(D)); putint(g@); putint(f@(C)); putarray(3, C);')
k('int f@(int n) { int t[«8|16|33|64»]; int i = 0; while (i < 8) { t[i] = i * i; i = i + 1; } i = 0; int s = 0; while (i < n) { t[i % 8] = t[(i + $c) % 8] + 1; s = s + t[i % 8]; i = i + 1; } return s; }', 'putint(f@($N)); putch(32); putint(f@(n3));')
k('int f@() { int t[4] = {«1, 2|0|$c, $c, $c», $k}; int u[2][3] = {{1}, {$c, $c}}; t[n2 % 4] = $k; u[n1][n2 % 3] = t[n3 % 4]; return t[0] + t[1] * 3 + t[2] * 5 + t[3] * 7 + u[0][0] + u[0][1] * 11 + u[1][0] * 13 + u[1][1] * 17 + u[1][2]; }', 'putint(f@());')
k('int M@[8][8]; int R@[8][8]; void f@(int n) { int i = 0; while (i < n) { int j = 0; while (j < n) { int l = 0; «R@[i][j] = 0;|»  while (l < n) { R@[i][j] = (R@[i][j] + M@[i][l] * M@[l][j]) % 10007; l = l + 1; } j = j + 1; } i = i + 1; } }',
  'i = 0; while (i < 64) { M@[i / 8][i % 8] = P[i]; i = i + 1; } f@(«8|n2 % 9|n1|n0»); f@(4 + n2 % 4); i = 0; while (i < 8) { putarray(8, R@[i]); i = i + 1; }')
k('int M@[8][8]; int f@(int n, int m) { int i = 0; int s = 0; while (i < n) { int j = 0; while (j < m) { M@[«j][i|i][j|(i + j) % 8][j|i][7 - j»] = M@[«i][j|j][i|i][0|7 - i][j»] + i «+|-» j * $sk; s = s + M@[j][i]; j = j + 1; } i = i + 1; } return s % 100003; }', 'putint(f@(n2 % 9, 8)); putint(f@(8, 8)); putint(f@(n0, 8)); putint(f@(8, n1)); i = 0; while (i < 8) { putarray(8, M@[i]); i = i + 1; }')
k('int T@[3][4][5]; int f@(int a, int b) { int i = 0; int s = 0; while (i < 60) { T@[i / 20][i / 5 % 4][i % 5] = i * a + b; i = i + 1; } i = 0; while (i < 5) { s = s + T@[«2|a % 3|i % 3»][«3|b % 4|i % 4»][i]; i = i + 1; } return s; }', 'putint(f@(n2, n3)); putint(f@(P[1] % 10, P[2])); putint(T@[n1][2][n0]);')
k('int f@(int n) { int i = 0; int c = 0; while (i < 64) { D[i] = 0; i = i + 1; } i = 0; while (i < n) { D[P[i] % 64] = D[P[i] % 64] + 1; i = i + 1; } i = 0; while (i < 64) { if (D[i] «>|==» «0|1|2») c = c + 1; i = i + 1; } return c; }', 'putint(f@($N)); putarray(64, D);')
k('int f@(int n) { int i = 0; while (i < n - 1) { int j = 0; while (j < n - 1 - i) { if (C[j] > C[j + 1]) { int t = C[j]; C[j] = C[j + 1]; C[j + 1] = t; } j = j + 1; } i = i + 1; } return C[0]; }', 'i = 0; while (i < 64) { C[i] = «A|B|P|Q»[i]; i = i + 1; } putint(f@($N)); putarray(64, C);')
k('int f@(int l, int h) { if (l >= h) return 0; int i = l; int j = h; int p = C[(l + h) / 2]; int c = 0; while (i <= j) { while (C[i] < p) i = i + 1; while (C[j] > p) j = j - 1; if (i <= j) { int t = C[i]; C[i] = C[j]; C[j] = t; i = i + 1; j = j - 1; c = c + 1; } } return c + f@(l, j) + f@(i, h); }', 'i = 0; while (i < 64) { C[i] = «A|B|P|Q»[i]; i = i + 1; } putint(f@(0, «63|n3|n2|n0»)); putarray(64, C);')
k('int f@(int x) { int l = 0; int h = 63; while (l < h) { int m = (l + h) / 2; if (m * $sk «<|<=» x) l = m + 1; else h = m; } return l; }', 'putint(f@(n3)); putint(f@(imax)); putint(f@(imin)); putint(f@(n0)); putint(f@(P[9]));')
k('int f@(int s) { int v[64]; int i = 0; while (i < 64) { v[i] = 0; i = i + 1; } int c = 0; int x = s; while (v[x] == 0) { v[x] = 1; x = Q[x]; c = c + 1; } return c; }', 'putint(f@(n0)); putint(f@(n3)); putint(f@(63));')
# --- recursion, memoisation, tail calls, interprocedural
k('int f@(int n) { if (n < 2) return n; return (f@(n - 1) + f@(n - 2)) % «1009|1000000007»; }', 'putint(f@(n2)); putint(f@(17)); putint(f@(n0)); putint(f@(12 + n2));')
k('int f@(int a, int b) { if (a <= 0 || b <= 0) return 1; return (f@(a - 1, b) + f@(a, b - 1)«| * 2» + $c) % 10007; }', 'putint(f@(n2 % 7, 6)); putint(f@(7, 5)); putint(f@(n0, n3)); putint(f@(3, n2 % 5 + 1));')
k('int f@(int a, int b) { if (a <= 0) return b; if (a % 2 == 0) return f@(a / 2, b + $c); return f@(a - 1, b * 2 % $p); }', 'putint(f@(n3, 1)); putint(f@(imax, n2)); putint(f@(m1, 7));')
k('int f@(int n, int acc) { if (n == 0) return acc; return f@(n - 1, (acc «+|-» n * $sk) % 10007); }', 'putint(f@(n3, 0)); putint(f@(n0, n3)); putint(f@(900, 1));')
k('int f@(int n) { if (n == 0) return «0|1|$c»; return n «+|*|-» f@(n - 1)«| % 1009 % 50| % 40»; }', 'putint(f@(n2)); putint(f@(n0)); putint(f@(6));')
k('int h@(int n, int x) { if (n <= 0) return x; if (n % 3 == 0) return h@(n - 1, x + 1); if (n % 3 == 1) return h@(n - 2, x * 3 % 1009); return h@(n / 2, h@(n / 4, x)); }', 'putint(h@(n3, 1)); putint(h@(200, n2)); putint(h@(n0, 5));')
k('int g@; void f@(int n) { if (n <= 0) return; g@ = g@ * 3 % 1009 + n; f@(n - 1); g@ = g@ + «1|n»; }', 'f@(n3); putint(g@); f@(n2); putint(g@);')
k('int u@(int a, int b, int c, int d) { return a * «1|2|0» + b; } int f@(int a, int b) { return u@(a, b, $c, a) + u@(b, a, $c, b); }', 'putint(f@(n2, n3)); putint(f@(A[1], B[1]));')
k('int u@(int x) { «putint(x);|g@x = x;|» return x % $p «==|<|>» $c; } int f@(int a, int b) { int r = 0; if (u@(a) && u@(b)) r = 1; if (u@(a) || u@(b)) r = r + 2; if (!u@(a) || u@(b) && u@(a + 1)) r = r + 4; return r; }', 'putint(f@(n2, n3)); putint(f@($c, n1)); putint(f@(A[2], B[3])); putint(g@x);')
k('int w@(int a, int b, int c, int d, int e, int g, int h, int i, int j, int l) { if (a > 100) return w@(b, c, d, e, g, h, i, j, l, a % 100); return a - b * 2 + c * 3 - d * 4 + e * 5 - g * 6 + h * 7 - i * 8 + j * 9 - l * 10; }', 'putint(w@(A[0], A[1], A[2], A[3], A[4], A[5], A[6], A[7], A[8], A[9])); putint(w@(n0, n1, n2, n3, n4, 1, 2, 3, 4, 5));')
k('float w@(int a, float x, int b, float y, float z, int c, int d, float u, int e, int g, float v, int h, float o, float p, float q, float r) { return x * a + y * b - z * c + u * d - v * e + o * g - p * h + q - r; }', 'putfloat(w@(1, F[0], 2, F[1], F[2], 3, n2, F[3], 4, 5, F[4], 6, H[0], H[1], H[2], H[3]));')
k('float f@(int n) { float s = 0«|.5|»; int i = 0; while (i < n) { s = s «+|-» F[i % 16]; «|if (s > 100) s = s - 100;|» i = i + 1; } return s; }', 'putfloat(f@($N)); putch(32); putfloat(f@(n4)); putfloat(f@(n0));')
k('float f@(float x, int n) { float r = x; int i = 0; while (i < n) { if (r > «1|4.5» ) r = r / 2; else r = r + $f; i = i + 1; } return r; }', 'putfloat(f@(F[1], $N)); putfloat(f@(H[2], n4));')
k('int f@(float x, float y) { int r = 0; if (x < y) r = r + 1; if (x <= y) r = r + 2; if (x == y) r = r + 4; if (x != y) r = r + 8; if (x > 0 && y > x) r = r + 16; if (!(x >= y)) r = r + 32; if (x) r = r + 64; return r; }', 'putint(f@(F[0], F[1])); putint(f@(F[2], F[2])); putint(f@(n0, F[3])); putint(f@(H[1], n2));')
k('int f@(float x) { int a = x; int b = x * 2; float c = a; if (c == x) return a + b; return a * 100 + b; }', 'putint(f@(F[3])); putint(f@(n3)); putint(f@(H[1] + 0.5)); putint(f@(-3.75));')
k('float f@(float a[], int n) { int i = 0; while (i < n) { a[i] = a[i] * $f + «i|1|F[i]»; i = i + 1; } return a[«0|n / 2|n - (n > 0)»]; }', 'i = 0; while (i < 16) { U[i] = F[i]; i = i + 1; } putfloat(f@(U, n2)); putfloat(f@(U, 16)); putfloat(f@(U, n0)); putfarray(16, U);')
# --- switch-like chains, state machines, globals, early exits
k('int f@(int x) { if (x == $c) return 3; else if (x == 1) return 5; else if (x == 2) return $k; else if (x == 4) return 9; else if (x == 7) return -1; else if (x == 11) return 0; return x % 5; }', 'i = -2; while (i < 22) { putint(f@(i)); putch(32); i = i + 1; } putint(f@(imin)); putint(f@(imax));')
k('int f@(int x) { int r = 0; if (x == 0) r = 10; if (x == 1) r = 20; if (x == 2) r = 30; if (x == 3) r = «40|41»; if (x == 4) r = 50; return r; }', 'i = -1; while (i < 7) { putint(f@(i)); putch(32); i = i + 1; } putint(f@(imax)); putint(f@(imin));')
k('const int L@[«8|7|16»] = {«0, 1, 2, 3, 4, 5, 6|1, 2, 4, 8, 16, 32, 64|7, 7, 7, 7, 7, 7, 7|0, 3, 6, 9, 12, 15, 18|1, 0, 1, 0, 1, 0, 1|5, 2, 9, 1, 7, 3, 8|0, 1, 4, 9, 16, 25, 36»}; int f@(int x) { return L@[x % 7]«| + L@[(x + 1) % 7]| * x % 1009»; }', 'i = 0; while (i < 30) { putint(f@(i)); putch(32); i = i + 1; }')
k('int f@(int n) { int s = 0; int i = 0; int c = 0; while (i < n) { if (s == 0) { if (P[i] % 3 == 0) s = 1; } else if (s == 1) { if (P[i] % 2 == 0) s = 2; else s = 0; c = c + 1; } else { s = P[i] % 3; c = c + 10; } i = i + 1; } return c * 3 + s; }', 'putint(f@($N)); putint(f@(n4));')
k('int g@ = $c; int z@(int x) { if (x > g@) { g@ = x; return 1; } return 0; } int f@(int n) { int i = 0; int c = 0; while (i < n) { c = c + z@($V[i]); i = i + 1; } return c; }', 'putint(f@($N)); putint(g@); putint(f@(n4)); putint(g@);')
k('int c@; int nx@() { c@ = (c@ * 1103 + 12345) % 32749; return c@; } int f@(int n) { int i = 0; int s = 0; while (i < n) { s = (s + nx@() % 10 * nx@()) % 10007; i = i + 1; } return s; }', 'putint(f@($N)); putint(c@); putint(f@(n3)); putint(c@);')
k('int f@(int a, int b, int c) { int r = $c; if (a > b) { if (b > c) r = 1; else if (a > c) r = 2; else r = 3; } else { if (a > c) r = 4; else if (b > c) r = 5; } if (r % 2 == 0 && a != c) return r * 10 + (a < c); return r; }', 'i = 0; while (i < 20) { putint(f@(A[i], A[i + 1], B[i])); putch(32); i = i + 1; } putint(f@(n1, n1, n1)); putint(f@(imin, imax, n0));')
k('int f@(int n) { int a = 1; int b = «0|1»; int i = 0; while (i < n) { int t = (a «* 2 - b|* 3 + b|+ b * $sk») % $q3; a = b; b = t; i = i + 1; } return a * 3 + b; }', 'putint(f@($N)); putint(f@(n4)); putint(f@(n0));')
k('int f@(int n, int m) { int i = 0; int a = 0; int b = m; int c = 0; while (i < n) { a = a + $sk; b = b - 1; c = c + (a > b) + a * $sk; if (c > 100000) c = 0; i = i + 1; } return a + b * 1000 + c; }', 'putint(f@($N, n3)); putint(f@(n4, n0)); putint(f@(n0, n2));')
k('int f@(int n) { int i = 0; int s = 0; while (i < n) { int j = i«| * 2| + 1|/ 2»; while (j < n«|| - 1») { s = s + «1|j|P[j]»; if (s > 1000000) s = s % 1000; j = j + $st; } i = i + $st; } return s; }', 'putint(f@($N)); putint(f@(n4)); putint(f@(n2));')
k('int f@(int n) { int i = 0; int s = 0; while (i * i «<|<=» n) { int j = i; while (j <= n && j < 64) { s = s + P[j]; j = j + i + 1; } i = i + 1; } return s; }', 'putint(f@($N)); putint(f@(n4)); putint(f@(1000));')
k('int sv@[200]; int f@(int n) { int i = 2; int c = 0; while (i < n) { sv@[i] = 1; i = i + 1; } i = 2; while (i < n) { if (sv@[i]) { c = c + 1; int j = i + i; while (j < n) { sv@[j] = 0; j = j + i; } } i = i + 1; } return c; }', 'putint(f@(n3 * 3)); putint(f@(200)); putint(f@(n2));')
k('int dp@[70]; int f@(int n, int w) { int i = 0; while (i <= w) { dp@[i] = 0; i = i + 1; } i = 0; while (i < n) { int c = P[i] % 13 + 1; int j = w; while (j >= c) { int t = dp@[j - c] + P[i] % 29; if (t > dp@[j]) dp@[j] = t; j = j - 1; } i = i + 1; } return dp@[w]; }', 'putint(f@($N, 64)); putint(f@(n4, n3)); putint(f@(n3, n0));')
k('int f@(int n) { int i = 0; while (i < n) { C[i] = A[i] + B[i]; D[i] = A[i] «-|*» B[i]; i = i + 1; } i = 0; int s = 0; while (i < n) { s = s + C[i] - D[i] % 100; i = i + 1; } return s; }', 'putint(f@($N)); putint(f@(n4)); putarray(64, D);')
k('int f@(int i, int j) { int x = C[i]; C[j] = x + 1; int y = C[i]; C[i] = y * 2 % 1000; C[j] = C[j] + C[i]; return x + y + C[j]; }', 'putint(f@(n2, n2)); putint(f@(n2, n3)); putint(f@(n3, n2)); putint(f@(n0, n0)); putarray(64, C);')
k('int f@(int x) { return «x / 2 / 3 * 6 - x|(x % 10 + 10) % 10|x / 7 % 5 - x % 35 / 7|(x + 1) / 2 - x / 2|x % 8 * 2 % 4»; }', 'i = -20; while (i < 20) { putint(f@(i)); putch(32); i = i + 1; }')
k('int f@(int x, int n) { int i = 0; int r = x & 65535; while (i < n) { r = r «<< 1 & 65535 ^ i|>> 1 ^ (r & 1) * 46080|^ r >> 3 & 255|& 65535 ¦ i|+ (i & 3) & 65535|>> 1 ¦ (r & 1) << 15|>> $sh & 255 ¦ r << 2 & 65280|& ~(1 << (i & 15))|¦ 1 << (i & 15)»; i = i + 1; } return r; }', 'putint(f@(P[0], $N)); putint(f@(n3, n4)); putint(f@(P[5], n0));', True)
k('int f@(int n) { int s = 0; for (int i = «0|$c»; i «<|<=|!=» n; i++) { if (i > 70) break; s «+=|-=» $V[i & 63]; «|if (s > 1000) continue;|if (s & 64) break;» s += i > $t ? 1 : 2; } return s; }', 'putint(f@($N)); putint(f@(n4)); putint(f@(n0));', True)
k('int f@(int n) { int s = 0; int i; for (i = n; i «>|>=» 0; i «--|-= 2|-= $st») { s «^=|+=|¦=» P[i & 63]; «|if (s > 1000) { s &= 511; continue; }|if (s & 64) break;» s ^= i > $t ? 1 : 2; } return s * 100 + i; }', 'putint(f@($N)); putint(f@(n4)); putint(f@(n0)); putint(f@(m1));', True)
k('int f@(int n) { int s = 0; int i = 0; do { s += A[i & 63]; i «++|+= 2|+= $st»; } while (i < n); return s * 2 + i; }', 'putint(f@($N)); putint(f@(m1)); putint(f@(imin));', True)
k('int f@(int x) { int c = 0; do { c += x & 1; x >>= 1; if (c > 40) break; } while (x != 0 && x != -1); return c; }', 'putint(f@(n3)); putint(f@(imax)); putint(f@(n0)); putint(f@(m1)); putint(f@(imin)); putint(f@(A[7]));', True)
k('int f@(int x) { int i = 0; int r = 0; while (i < «8|31|16») { r = (r << 1 & 1073741823) ¦ (x >> i & 1); i += 1; } return r; }', 'putint(f@(n3)); putint(f@(imax)); putint(f@(n0)); putint(f@(m1)); putint(f@(imin)); putint(f@(A[7]));', True)
k('int f@(int a, int b) { while (b) { int c = (a & b & 536870911) << 1; a ^= b; b = c; } return a; }', 'putint(f@(n3, n2)); putint(f@(P[4], P[5])); putint(f@(n0, n0)); putint(f@(n4, n4));', True)
k('int f@(int n) { int i = 0, j = n, c = 0; while (i < j) { c += A[i & 63] > B[j & 63] ? i++ : j--; if (c > 1000) c -= 1000; } return c * 64 + i; }', 'putint(f@($N)); putint(f@(n4)); putint(f@(n0));', True)
k('int f@(int a, int b) { int t = a > b ? a - b : b - a; int m = a < b ? a : b; int c = (a & b) == 0 ? $c : $k; return t * 3 + m + (c | (a == b ? 1 : 0)); }', 'i = 0; while (i < 20) { putint(f@(A[i], B[i])); putch(32); i = i + 1; }', True)


def expand(t, r, uid):
    t = t.replace('$N', N).replace('$V', V)
    while True:
        m = re.search(r'«([^«»]*)»', t)
        if not m:
            break
        t = t[:m.start()] + r.choice(m.group(1).split('|')) + t[m.end():] if '||' not in m.group(1) or True else t
    t = t.replace('$p2', '10' if r.random() < .5 else str(r.choice([2, 3, 7, 16]))).replace('$sk2', str(r.choice([2, 3, 4, 5]))).replace('$q3', str(r.choice([1009, 10007, 1000000])))

    def c(m):
        return '%g' % r.choice(CONST[m.group(1)])
    t = re.sub(r'\$(sk|st|sh|k|p|q|c|t|s|f)\b', lambda m: str(r.choice(CONST[m.group(1)])), t)
    t = t.replace('¦', '|')
    return t.replace('imin@', '(-2147483647 - 1)').replace('@', uid)


def generate(seed, ext=False, nk=4):
    r = random.Random('i%d' % seed)
    out = ['int A[66]; int B[66]; int P[66]; int Q[66]; int C[66]; int D[66]; float F[66]; float H[66]; float U[66];',
           'int n0; int n1; int n2; int n3; int n4; int m1; int imax; int imin;']
    main = []
    pool = [x for x in K if ext or not x[2]]
    if ext and r.random() < .5:
        pool = pool + [x for x in K if x[2]] * 6
    for i in range(nk):
        d, m, x = r.choice(pool)
        uid = '_%d' % i
        st = r.getstate()
        both = expand(d + '\x01' + m, r, uid)
        d, m = both.split('\x01')
        if 'E' + uid in d + m:
            d = 'int E%s;\n' % uid + d
        if 'g%sx' % uid in d or 'g%sx' % uid in m:
            d = 'int g%sx;\n' % uid + d
        out.append(d)
        main.append('  ' + m.replace('; put', ';\n  put') + ' putch(10);')
    decl = 'int main() {\n  getarray(A); getarray(B); getarray(P); getarray(Q); getfarray(F); getfarray(H);\n'
    decl += '  n0 = getint(); n1 = getint(); n2 = getint(); n3 = getint(); n4 = getint(); m1 = getint(); imax = getint(); imin = getint();\n  int i = 0;\n'
    text = '\n'.join(out) + '\n' + decl + '\n'.join(main) + '\n  return 0;\n}\n'
    A = [r.choice([0, 1, -1, 2, 1000, -1000]) if r.random() < .2 else r.randint(-1000, 1000) for _ in range(66)]
    B = [r.choice(A) if r.random() < .2 else r.randint(-1000, 1000) for _ in range(66)]
    P = [r.choice([0, 1, 1000]) if r.random() < .1 else r.randint(0, 1000) for _ in range(66)]
    Q = list(range(64))
    r.shuffle(Q)
    fl = [[r.randint(-80, 80) / 8 if r.random() < .9 else 0.0 for _ in range(66)] for _ in range(2)]
    inp = ''
    for v in (A, B, P, Q):
        inp += '%d %s\n' % (len(v), ' '.join(map(str, v)))
    for v in fl:
        inp += '%d %s\n' % (len(v), ' '.join(float(x).hex() for x in v))
    inp += ' '.join(map(str, [0, 1, r.randint(2, 9), r.randint(10, 60), 64, -1, 2**31 - 1, -2**31])) + '\n'
    return text, inp


if __name__ == '__main__':
    import sys
    t, i = generate(int(sys.argv[1]), ext=len(sys.argv) > 2)
    print(t)
