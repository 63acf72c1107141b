// RV64GC-less (rv64g + Zba + Zbb) user-level emulator with ABI monitors.
#include <cstdarg>
#include "host.hpp"

static u64 X[32], F[32], pc;
static u64 spNow() { return X[2]; }
static const char *curInfo() { static std::string s; s = where(pc); return s.c_str(); }
static const int savedX[] = {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 3, 4};
static const char *nmX[] = {"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "gp", "tp"};
static const int savedF[] = {8, 9, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27};
static const char *nmF[] = {"fs0", "fs1", "fs2", "fs3", "fs4", "fs5", "fs6", "fs7", "fs8", "fs9", "fs10", "fs11"};
static void archSaved(u64 *o, const char **nm, int *n) {
    int k = 0;
    for (int i = 0; i < 14; i++) { o[k] = X[savedX[i]]; nm[k++] = nmX[i]; }
    for (int i = 0; i < 12; i++) { o[k] = (u32)F[savedF[i]]; nm[k++] = nmF[i]; }
    *n = k;
}
static void hostcall(unsigned id) {
    HostArgs h{X[10], X[11], X[12], fl((u32)F[10])};
    if (X[2] & 7) violation("stack pointer not aligned at a library call");
    // the ABI passes i32 sign-extended
    switch (id) {
    case H_putint: case H_putch: case H_putarray: case H_putfarray:
        if ((i64)X[10] != (i64)(i32)X[10]) violation(fmt("int argument 0x%llx of a library call is not sign-extended", (unsigned long long)X[10]));
    }
    HostRet r = host(id, h);
    static const int cs[] = {5, 6, 7, 28, 29, 30, 31, 10, 11, 12, 13, 14, 15, 16, 17};
    for (int i : cs) X[i] = junk();
    for (int i = 0; i < 32; i++) { bool s = false; for (int k : savedF) s |= k == i; if (!s) F[i] = 0xffffffff00000000ull | (u32)junk(); }
    poisonBelow(X[2]);
    if (r.kind == 1) X[10] = r.v;
    if (r.kind == 2) F[10] = 0xffffffff00000000ull | bits(r.f);
}
static inline i64 sx32(u64 v) { return (i64)(i32)v; }
static inline float fs(int r) { return (F[r] >> 32) == 0xffffffffull ? fl((u32)F[r]) : NAN; }
static inline void wf(int r, float v) { u32 b = bits(v); if (v != v) b = 0x7fc00000; F[r] = 0xffffffff00000000ull | b; }
static i64 cvtw(float v) { if (v != v) return INT32_MAX; if (v >= 2147483648.f) return INT32_MAX; if (v < -2147483648.f) return INT32_MIN; return (i32)v; }

int main(int argc, char **argv) {
    setup(argc, argv, 0x2a00000000ull, true);
    for (int i = 1; i < 32; i++) X[i] = junk();
    for (int i = 0; i < 32; i++) F[i] = 0xffffffff00000000ull | (u32)junk();
    pc = entry; X[2] = stackHi - 64;
    for (;;) {
        if (++nInst > maxInst) { fprintf(stderr, "EMU: instruction limit\n"); finish(XLIMIT, "limit", -1); }
        if (pc - BASE >= WINDOW || !(pageFlag[(pc - BASE) >> 12] & 4) || (pc & 3)) violation(fmt("jump to non-code address 0x%llx", (unsigned long long)pc));
        u32 w; memcpy(&w, mem + (pc - BASE), 4);
        unsigned op = w & 127, rd = w >> 7 & 31, f3 = w >> 12 & 7, r1 = w >> 15 & 31, r2 = w >> 20 & 31, f7 = w >> 25;
        i64 immI = (i32)w >> 20, immS = ((i32)w >> 25 << 5) | (int)rd;
        u64 a = X[r1], b = X[r2], np = pc + 4, v = 0;
        switch (op) {
        case 0x37: v = (i64)(i32)(w & 0xfffff000); goto wr;
        case 0x17: v = pc + (i64)(i32)(w & 0xfffff000); goto wr;
        case 0x6f: {
            i64 im = (i32)(((u32)((i32)w >> 31) << 20) | (w & 0xff000) | (w >> 20 & 1) << 11 | (w >> 21 & 0x3ff) << 1);
            v = np; np = pc + im;
            if (rd == 1) { onCall(v); X[1] = v; } else if (rd) X[rd] = v;
            pc = np; continue;
        }
        case 0x67: {
            u64 t = (a + immI) & ~1ull;
            if (rd == 0 && r1 == 1 && immI == 0) { onReturn(t); pc = t; continue; }
            if (rd == 1) onCall(np);
            if (rd) X[rd] = np;
            pc = t; continue;
        }
        case 0x63: {
            i64 im = (i32)(((u32)((i32)w >> 31) << 12) | (w >> 7 & 1) << 11 | (w >> 25 & 63) << 5 | (w >> 8 & 15) << 1);
            bool t;
            switch (f3) { case 0: t = a == b; break; case 1: t = a != b; break; case 4: t = (i64)a < (i64)b; break; case 5: t = (i64)a >= (i64)b; break;
                          case 6: t = a < b; break; case 7: t = a >= b; break; default: unimpl("branch"); }
            pc = t ? pc + im : np; continue;
        }
        case 0x03: {
            u64 ad = a + immI;
            switch (f3) { case 0: v = (i64)ld<i8>(ad); break; case 1: v = (i64)ld<i16>(ad); break; case 2: v = (i64)ld<i32>(ad); break; case 3: v = ld<u64>(ad); break;
                          case 4: v = ld<u8>(ad); break; case 5: v = ld<u16>(ad); break; case 6: v = ld<u32>(ad); break; default: unimpl("load"); }
            goto wr;
        }
        case 0x23: {
            u64 ad = a + immS;
            switch (f3) { case 0: st<u8>(ad, b); break; case 1: st<u16>(ad, b); break; case 2: st<u32>(ad, b); break; case 3: st<u64>(ad, b); break; default: unimpl("store"); }
            break;
        }
        case 0x07: { u64 ad = a + immI; if (f3 == 2) F[rd] = 0xffffffff00000000ull | ld<u32>(ad); else if (f3 == 3) F[rd] = ld<u64>(ad); else unimpl("fload"); break; }
        case 0x27: { u64 ad = a + immS; if (f3 == 2) st<u32>(ad, (u32)F[r2]); else if (f3 == 3) st<u64>(ad, F[r2]); else unimpl("fstore"); break; }
        case 0x0f: break;
        case 0x13: {
            unsigned sh = w >> 20 & 63, top = w >> 26;
            switch (f3) {
            case 0: v = a + immI; break;
            case 2: v = (i64)a < immI; break;
            case 3: v = a < (u64)immI; break;
            case 4: v = a ^ immI; break;
            case 6: v = a | immI; break;
            case 7: v = a & immI; break;
            case 1:
                if (top == 0) v = a << sh;
                else if (f7 == 0x30 || (f7 == 0x31 && false)) {
                    switch (r2) { case 0: v = a ? __builtin_clzll(a) : 64; break; case 1: v = a ? __builtin_ctzll(a) : 64; break; case 2: v = __builtin_popcountll(a); break;
                                  case 4: v = (i64)(i8)a; break; case 5: v = (i64)(i16)a; break; default: unimpl("zbb unary"); }
                } else unimpl("shift left imm");
                break;
            case 5:
                if (top == 0) v = a >> sh; else if (top == 16) v = (i64)a >> sh;
                else if (top == 24) v = sh ? a >> sh | a << (64 - sh) : a;
                else if (w >> 20 == 0x6b8) v = __builtin_bswap64(a);
                else if (w >> 20 == 0x287) { for (int i = 0; i < 8; i++) if (a >> 8 * i & 255) v |= 255ull << 8 * i; }
                else unimpl("shift right imm");
                break;
            }
            goto wr;
        }
        case 0x1b: {
            unsigned sh = r2;
            switch (f3) {
            case 0: v = sx32(a + immI); break;
            case 1:
                if (f7 == 0) v = sx32((u32)a << sh);
                else if (w >> 26 == 2) v = (u64)(u32)a << (w >> 20 & 63);
                else if (f7 == 0x30) { u32 q = a; switch (r2) { case 0: v = q ? __builtin_clz(q) : 32; break; case 1: v = q ? __builtin_ctz(q) : 32; break; case 2: v = __builtin_popcount(q); break; default: unimpl("zbb w"); } }
                else unimpl("slliw");
                break;
            case 5:
                if (f7 == 0) v = sx32((u32)a >> sh); else if (f7 == 0x20) v = (i64)((i32)a >> sh);
                else if (f7 == 0x30) { u32 q = a; v = sx32(sh ? q >> sh | q << (32 - sh) : q); } else unimpl("srliw");
                break;
            default: unimpl("op-imm-32");
            }
            goto wr;
        }
        case 0x33:
            switch (f7 << 4 | f3) {
            case 0x000: v = a + b; break; case 0x200: v = a - b; break; case 0x001: v = a << (b & 63); break; case 0x002: v = (i64)a < (i64)b; break;
            case 0x003: v = a < b; break; case 0x004: v = a ^ b; break; case 0x005: v = a >> (b & 63); break; case 0x205: v = (i64)a >> (b & 63); break;
            case 0x006: v = a | b; break; case 0x007: v = a & b; break;
            case 0x010: v = a * b; break;
            case 0x011: v = (u64)((__int128)(i64)a * (i64)b >> 64); break;
            case 0x012: v = (u64)((__int128)(i64)a * (unsigned __int128)b >> 64); break;
            case 0x013: v = (u64)((unsigned __int128)a * b >> 64); break;
            case 0x014: v = b == 0 ? ~0ull : ((i64)a == INT64_MIN && (i64)b == -1) ? a : (u64)((i64)a / (i64)b); break;
            case 0x015: v = b == 0 ? ~0ull : a / b; break;
            case 0x016: v = b == 0 ? a : ((i64)a == INT64_MIN && (i64)b == -1) ? 0 : (u64)((i64)a % (i64)b); break;
            case 0x017: v = b == 0 ? a : a % b; break;
            case 0x102: v = b + (a << 1); break; case 0x104: v = b + (a << 2); break; case 0x106: v = b + (a << 3); break;
            case 0x207: v = a & ~b; break; case 0x206: v = a | ~b; break; case 0x204: v = ~(a ^ b); break;
            case 0x054: v = (i64)a < (i64)b ? a : b; break; case 0x055: v = a < b ? a : b; break;
            case 0x056: v = (i64)a > (i64)b ? a : b; break; case 0x057: v = a > b ? a : b; break;
            case 0x301: { unsigned s = b & 63; v = s ? a << s | a >> (64 - s) : a; break; }
            case 0x305: { unsigned s = b & 63; v = s ? a >> s | a << (64 - s) : a; break; }
            default: unimpl(fmt("op 0x%x", w));
            }
            goto wr;
        case 0x3b:
            switch (f7 << 4 | f3) {
            case 0x000: v = sx32(a + b); break; case 0x200: v = sx32(a - b); break; case 0x001: v = sx32((u32)a << (b & 31)); break;
            case 0x005: v = sx32((u32)a >> (b & 31)); break; case 0x205: v = (i64)((i32)a >> (b & 31)); break;
            case 0x010: v = sx32((u32)a * (u32)b); break;
            case 0x014: { i32 x = a, y = b; v = (i64)(y == 0 ? -1 : (x == INT32_MIN && y == -1) ? x : x / y); break; }
            case 0x015: { u32 x = a, y = b; v = sx32(y == 0 ? ~0u : x / y); break; }
            case 0x016: { i32 x = a, y = b; v = (i64)(y == 0 ? x : (x == INT32_MIN && y == -1) ? 0 : x % y); break; }
            case 0x017: { u32 x = a, y = b; v = sx32(y == 0 ? x : x % y); break; }
            case 0x040: v = b + (u64)(u32)a; break;
            case 0x102: v = b + ((u64)(u32)a << 1); break; case 0x104: v = b + ((u64)(u32)a << 2); break; case 0x106: v = b + ((u64)(u32)a << 3); break;
            case 0x044: v = (u16)a; if (r2) unimpl("packw"); break;
            case 0x301: { unsigned s = b & 31; u32 q = a; v = sx32(s ? q << s | q >> (32 - s) : q); break; }
            case 0x305: { unsigned s = b & 31; u32 q = a; v = sx32(s ? q >> s | q << (32 - s) : q); break; }
            default: unimpl(fmt("op32 0x%x", w));
            }
            goto wr;
        case 0x2f: {
            unsigned f5 = w >> 27; u64 old;
            if (f3 == 2) old = (i64)ld<i32>(a); else if (f3 == 3) old = ld<u64>(a); else unimpl("amo width");
            u64 nv;
            switch (f5) { case 0: nv = old + b; break; case 1: nv = b; break; case 2: nv = old; break; case 3: nv = b; old = 0; break; case 4: nv = old ^ b; break;
                          case 8: nv = old | b; break; case 12: nv = old & b; break; default: unimpl("amo"); }
            if (f5 != 2) { if (f3 == 2) st<u32>(a, nv); else st<u64>(a, nv); }
            v = old; goto wr;
        }
        case 0x53: {
            unsigned fm = f7 & 3;
            if (fm != 0) unimpl("double arithmetic");
            float x = fs(r1), y = fs(r2);
            switch (f7 >> 2) {
            case 0: wf(rd, x + y); break; case 1: wf(rd, x - y); break; case 2: wf(rd, x * y); break; case 3: wf(rd, x / y); break;
            case 0x0b: wf(rd, sqrtf(x)); break;
            case 4: { u32 p = bits(x), q = bits(y); u32 s = f3 == 0 ? q : f3 == 1 ? ~q : p ^ q; F[rd] = 0xffffffff00000000ull | (p & 0x7fffffff) | (s & 0x80000000); break; }
            case 5: if (f3 == 0) wf(rd, x != x ? y : y != y ? x : x < y || (x == y && std::signbit(x)) ? x : y); else wf(rd, x != x ? y : y != y ? x : x > y || (x == y && !std::signbit(x)) ? x : y); break;
            case 0x14: v = f3 == 2 ? x == y : f3 == 1 ? x < y : x <= y; goto wr;
            case 0x18: {
                if (f3 != 1) { // dynamic or nearest rounding
                    double z = nearbyint((double)x);
                    if (r2 == 0) v = x != x ? INT32_MAX : z >= 2147483648. ? INT32_MAX : z < -2147483648. ? (u64)(i64)INT32_MIN : (u64)(i64)z; else unimpl("fcvt");
                } else if (r2 == 0) v = cvtw(x); else if (r2 == 2) v = (x != x || x >= 9.2233720368547758e18f) ? INT64_MAX : x < -9.2233720368547758e18f ? INT64_MIN : (i64)x;
                else if (r2 == 1) v = sx32((x != x || x >= 4294967296.f) ? ~0u : x <= -1.f ? 0u : (u32)x); else unimpl("fcvt.lu.s");
                goto wr;
            }
            case 0x1a: if (r2 == 0) wf(rd, (float)(i32)a); else if (r2 == 1) wf(rd, (float)(u32)a); else if (r2 == 2) wf(rd, (float)(i64)a); else wf(rd, (float)a); break;
            case 0x1c: if (f3 == 0) { v = sx32((u32)F[r1]); goto wr; }
                       { u32 p = bits(x); int e = p >> 23 & 255; u32 m = p & 0x7fffff; bool s = p >> 31;
                         int c = e == 255 ? (m ? (m >> 22 ? 9 : 8) : s ? 0 : 7) : e == 0 ? (m ? (s ? 2 : 5) : s ? 3 : 4) : s ? 1 : 6; v = 1u << c; goto wr; }
            case 0x1e: F[rd] = 0xffffffff00000000ull | (u32)a; break;
            default: unimpl(fmt("fp 0x%x", w));
            }
            break;
        }
        case 0x43: wf(rd, fmaf(fs(r1), fs(r2), fs(w >> 27))); break;
        case 0x47: wf(rd, fmaf(fs(r1), fs(r2), -fs(w >> 27))); break;
        case 0x4b: wf(rd, fmaf(-fs(r1), fs(r2), fs(w >> 27))); break;
        case 0x4f: wf(rd, fmaf(-fs(r1), fs(r2), -fs(w >> 27))); break;
        case 0x0b: hostcall(w >> 20); break;
        case 0x73: violation("ecall/ebreak/csr instruction executed");
        default: if (w == 0 || (w & 0xffff) == 0) violation("illegal instruction executed"); unimpl(fmt("opcode 0x%x", w));
        }
        pc = np; continue;
    wr:
        if (rd) X[rd] = v;
        pc = np;
    }
}
