// ARMv7-A (A32, VFPv4 single precision) user-level emulator with ABI monitors.
#include <cstdarg>
#include "host.hpp"

static u32 R[16]; static u32 S[32];   // R[15] is the address of the current instruction
static bool N, Z, C, V, fN, fZ, fC, fV;
static u64 spNow() { return R[13]; }
static const char *curInfo() { static std::string s; s = where(R[15]); return s.c_str(); }
static void archSaved(u64 *o, const char **nm, int *n) {
    static const char *a[] = {"r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11"};
    static const char *b[] = {"s16", "s17", "s18", "s19", "s20", "s21", "s22", "s23", "s24", "s25", "s26", "s27", "s28", "s29", "s30", "s31"};
    int k = 0;
    for (int i = 0; i < 8; i++) { o[k] = R[4 + i]; nm[k++] = a[i]; }
    for (int i = 0; i < 16; i++) { o[k] = S[16 + i]; nm[k++] = b[i]; }
    *n = k;
}
static void hostcall(unsigned id) {
    if (R[13] & 7) violation("stack pointer not 8-byte aligned at a library call");
    if (id == 20 || id == 21) {   // 64-bit division helpers of the ABI
        u64 a = R[0] | (u64)R[1] << 32, b = R[2] | (u64)R[3] << 32, q, r;
        if (b == 0) violation("64-bit division by zero");
        if (id == 20) { q = (u64)((i64)a / (i64)b); r = (u64)((i64)a % (i64)b); } else { q = a / b; r = a % b; }
        R[0] = (u32)q; R[1] = q >> 32; R[2] = (u32)r; R[3] = r >> 32; R[12] = (u32)junk(); return;
    }
    HostArgs h{R[0], R[1], R[2], fl(S[0])};
    if (id == H_exit) h.a0 = (u32)R[0];
    HostRet r = host(id, h);
    for (int i : {0, 1, 2, 3, 12}) R[i] = (u32)junk();
    for (int i = 0; i < 16; i++) S[i] = (u32)junk();
    u64 j = junk(); N = j >> 8 & 1; Z = j >> 9 & 1; C = j >> 10 & 1; V = j >> 11 & 1; fN = j >> 12 & 1; fZ = j >> 13 & 1; fC = j >> 14 & 1; fV = j >> 15 & 1;
    poisonBelow(R[13]);
    if (r.kind == 1) R[0] = (u32)r.v;
    if (r.kind == 2) S[0] = bits(r.f);
}
static bool cond(unsigned c) {
    bool r;
    switch (c >> 1) {
    case 0: r = Z; break; case 1: r = C; break; case 2: r = N; break; case 3: r = V; break;
    case 4: r = C && !Z; break; case 5: r = N == V; break; case 6: r = N == V && !Z; break; default: return true;
    }
    return (c & 1) ? !r : r;
}
static inline u32 rd_(int r) { return r == 15 ? R[15] + 8 : R[r]; }
static u32 shifter(u32 v, int type, unsigned n, bool imm, bool &co) {   // n already decoded for immediates
    co = C;
    if (imm) {
        if (type == 0) { if (n == 0) return v; co = v >> (32 - n) & 1; return v << n; }
        if (type == 3 && n == 0) { co = v & 1; return (u32)C << 31 | v >> 1; }
        if (n == 0) n = 32;
    } else if (n == 0) return v;
    switch (type) {
    case 0: if (n > 32) { co = 0; return 0; } co = n == 32 ? v & 1 : v >> (32 - n) & 1; return n == 32 ? 0 : v << n;
    case 1: if (n > 32) { co = 0; return 0; } co = n == 32 ? v >> 31 : v >> (n - 1) & 1; return n == 32 ? 0 : v >> n;
    case 2: if (n >= 32) { co = v >> 31; return (i32)v >> 31; } co = (i32)v >> (n - 1) & 1; return (i32)v >> n;
    default: n &= 31; if (n == 0) { co = v >> 31; return v; } co = v >> (n - 1) & 1; return v >> n | v << (32 - n);
    }
}
static u32 addc(u32 a, u32 b, bool ci, bool &co, bool &vo) {
    u64 u = (u64)a + b + ci; u32 r = (u32)u; co = u >> 32; vo = (~(a ^ b) & (a ^ r)) >> 31; return r;
}
static inline float F(int r) { return fl(S[r]); }
static inline void W(int r, float v) { S[r] = v != v ? 0x7fc00000u : bits(v); }
static u64 ge;

// flags have no defined value after a call or at the entry of a function
static bool ideal;
static void junkFlags() { u64 j = junk(); N = j >> 8 & 1; Z = j >> 9 & 1; C = j >> 10 & 1; V = j >> 11 & 1; fN = j >> 12 & 1; fZ = j >> 13 & 1; fC = j >> 14 & 1; fV = j >> 15 & 1; }
int main(int argc, char **argv) {
    ideal = argc > 6 && !strcmp(argv[6], "ideal");
    setup(argc, argv, 0x10000000ull, false);
    for (int i = 0; i < 15; i++) R[i] = (u32)junk();
    for (int i = 0; i < 32; i++) S[i] = (u32)junk();
    R[15] = (u32)entry; R[13] = (u32)(stackHi - 64);
    for (;;) {
        if (++nInst > maxInst) { fprintf(stderr, "EMU: instruction limit\n"); finish(XLIMIT, "limit", -1); }
        u32 pc = R[15];
        if (pc - BASE >= WINDOW || !(pageFlag[(pc - BASE) >> 12] & 4) || (pc & 3)) violation(fmt("jump to non-code address 0x%x", pc));
        u32 w; memcpy(&w, mem + (pc - BASE), 4);
        u32 np = pc + 4;
        unsigned cc = w >> 28;
        int rn = w >> 16 & 15, rd = w >> 12 & 15, rs = w >> 8 & 15, rm = w & 15;
#define PUT(r, v) do { u32 v_ = (v); if ((r) == 15) unimpl(fmt("write to pc by 0x%x", w)); R[r] = v_; } while (0)
        if (w == 0xdeff) violation("trap instruction executed");
        if (cc == 15) {
            if ((w & 0xfd70f000) == 0xf550f000 || (w & 0xff000000) == 0xf5000000 || (w & 0xfff00000) == 0xf5700000) { R[15] = np; continue; }  // pld, barriers
            unimpl(fmt("unconditional 0x%x", w));
        }
        if (!cond(cc)) { R[15] = np; continue; }
        switch (w >> 25 & 7) {
        case 0: case 1: {
            bool immf = w >> 25 & 1;
            unsigned opc = w >> 21 & 15; bool s = w >> 20 & 1;
            if (!immf && (w & 0x90) == 0x90) {
                if ((w >> 4 & 15) == 9) {
                    if (w >> 24 & 1) {
                        unsigned o = w >> 20 & 15;   // exclusives, byte swap
                        u32 a = rd_(rn);
                        if (o == 9) { PUT(rd, ld<u32>(a)); } else if (o == 8) { st<u32>(a, rd_(rm)); PUT(rd, 0); }
                        else if (o == 13) { PUT(rd, ld<u8>(a)); } else if (o == 12) { st<u8>(a, rd_(rm)); PUT(rd, 0); }
                        else unimpl(fmt("sync 0x%x", w));
                        break;
                    }
                    u32 a = rd_(rm), b = rd_(rs); u64 r; int hi = rn, lo = rd;
                    switch (w >> 21 & 7) {
                    case 0: case 1: { u32 v = a * b + ((w >> 21 & 1) ? rd_(rd) : 0); PUT(rn, v); if (s) { N = v >> 31; Z = !v; } break; }
                    case 3: PUT(rn, rd_(rd) - a * b); break;
                    case 2: r = (u64)a * b + R[hi] + R[lo]; PUT(hi, r >> 32); PUT(lo, (u32)r); break;
                    case 4: case 5: r = (u64)a * b; if (w >> 21 & 1) r += (u64)R[hi] << 32 | R[lo]; PUT(hi, r >> 32); PUT(lo, (u32)r); if (s) { N = r >> 63; Z = !r; } break;
                    default: r = (u64)((i64)(i32)a * (i32)b); if (w >> 21 & 1) r += (u64)R[hi] << 32 | R[lo]; PUT(hi, r >> 32); PUT(lo, (u32)r); if (s) { N = r >> 63; Z = !r; } break;
                    }
                    break;
                }
                // halfword / signed / dual transfers
                bool p = w >> 24 & 1, u = w >> 23 & 1, im = w >> 22 & 1, wb = w >> 21 & 1, l = w >> 20 & 1;
                u32 off = im ? (rs << 4 | rm) : rd_(rm), b = rd_(rn), a2 = u ? b + off : b - off, ad = p ? a2 : b;
                unsigned k = w >> 5 & 3;
                if ((wb || !p) && rn == 13 && a2 < b) R[13] = a2;
                u32 v;
                if (l) { v = k == 1 ? ld<u16>(ad) : k == 2 ? (u32)(i32)(i8)ld<u8>(ad) : (u32)(i32)(i16)ld<u16>(ad); }
                else if (k == 1) { st<u16>(ad, rd_(rd)); v = 0; }
                else if (k == 2) { v = ld<u32>(ad); PUT(rd + 1, ld<u32>(ad + 4)); l = true; }
                else { st<u32>(ad, R[rd]); st<u32>(ad + 4, R[rd + 1]); v = 0; }
                if (wb || !p) R[rn] = a2;
                if (l) PUT(rd, v);
                break;
            }
            if ((opc & 12) == 8 && !s) {
                if (immf) {
                    if (opc == 8) { PUT(rd, rn << 12 | (w & 0xfff)); break; }
                    if (opc == 10) { PUT(rd, (R[rd] & 0xffff) | (u32)(rn << 12 | (w & 0xfff)) << 16); break; }
                    if (opc == 9) break;   // nop, hints
                    unimpl(fmt("misc imm 0x%x", w));
                }
                if (w & 0x80) {  // signed halfword multiplies
                    i32 x = (w & 0x20) ? (i32)rd_(rm) >> 16 : (i16)rd_(rm), y = (w & 0x40) ? (i32)rd_(rs) >> 16 : (i16)rd_(rs);
                    if (opc == 8) PUT(rn, x * y + rd_(rd)); else if (opc == 11) PUT(rn, x * y); else unimpl(fmt("halfword multiply 0x%x", w));
                    break;
                }
                switch (w >> 4 & 7) {
                case 1: if (opc == 11) { u32 v = rd_(rm); PUT(rd, v ? __builtin_clz(v) : 32); break; }
                        if (opc == 9) { u32 t = rd_(rm); if (t & 3) violation(fmt("jump to 0x%x (not an A32 address)", t)); if (rm == 14) { onReturn(t); junkFlags(); } R[15] = t; continue; }
                        unimpl(fmt("misc 0x%x", w)); break;
                case 3: { u32 t = rd_(rm); onCall(np); junkFlags(); R[14] = np; R[15] = t; continue; }
                default: unimpl(fmt("misc 0x%x", w));
                }
                break;
            }
            bool co; u32 b;
            if (immf) { unsigned ro = rs * 2; u32 v = w & 255; b = ro ? v >> ro | v << (32 - ro) : v; co = ro ? b >> 31 : C; }
            else if (w & 0x10) b = shifter(rd_(rm), w >> 5 & 3, R[rs] & 255, false, co);
            else b = shifter(rd_(rm), w >> 5 & 3, w >> 7 & 31, true, co);
            u32 a = rd_(rn), r; bool vo = V, c2 = co;
            switch (opc) {
            case 0: case 8: r = a & b; break; case 1: case 9: r = a ^ b; break;
            case 2: case 10: r = addc(a, ~b, 1, c2, vo); break;
            case 3: r = addc(b, ~a, 1, c2, vo); break;
            case 4: case 11: r = addc(a, b, 0, c2, vo); break;
            case 5: r = addc(a, b, C, c2, vo); break;
            case 6: r = addc(a, ~b, C, c2, vo); break;
            case 7: r = addc(b, ~a, C, c2, vo); break;
            case 12: r = a | b; break; case 13: r = b; break; case 14: r = a & ~b; break; default: r = ~b; break;
            }
            if ((opc & 12) != 8) {
                if (rd == 15) {
                    if (opc == 13 && !immf && rm == 14) { onReturn(r); junkFlags(); R[15] = r; continue; }
                    if (s) unimpl("S on pc");
                    R[15] = r; continue;     // computed jump
                }
                R[rd] = r;
            }
            // 'movs' of a copied register leaves V stale where the code then tests LE or GT (known/arm_movs)
            if (s && opc == 13 && !immf && !(w & 0xff0) && vo) { nKnown++; if (ideal) vo = false; }
            if (s) { N = r >> 31; Z = !r; C = c2; V = vo; }
            break;
        }
        case 2: case 3: {
            if ((w >> 25 & 7) == 3 && (w & 0x10)) {
                unsigned o = w >> 20 & 31, o2 = w >> 5 & 7;
                if (o == 0x11 && o2 == 0) { i32 x = R[rm], y = R[rs]; PUT(rn, y == 0 ? 0 : (x == INT32_MIN && y == -1) ? (u32)x : (u32)(x / y)); break; }
                if (o == 0x13 && o2 == 0) { u32 x = R[rm], y = R[rs]; PUT(rn, y == 0 ? 0 : x / y); break; }
                if (o == 0x15) {
                    u64 p = (u64)((i64)(i32)R[rm] * (i32)R[rs]), acc = rd == 15 ? 0 : (u64)R[rd] << 32;
                    if ((o2 & 6) == 0) p = acc + p; else if ((o2 & 6) == 6) p = acc - p; else unimpl(fmt("smm 0x%x", w));
                    if (o2 & 1) p += 0x80000000u;
                    PUT(rn, p >> 32); break;
                }
                if (o == 0x10) {
                    u32 m = R[rs]; if (o2 & 1) m = m >> 16 | m << 16;
                    i32 p1 = (i32)(i16)R[rm] * (i16)m, p2 = ((i32)R[rm] >> 16) * ((i32)m >> 16);
                    if ((o2 & 6) == 0) PUT(rn, (u32)p1 + (u32)p2 + (rd == 15 ? 0 : R[rd])); else PUT(rn, (u32)p1 - (u32)p2 + (rd == 15 ? 0 : R[rd]));
                    break;
                }
                if (o == 8 && o2 == 5) { u32 m = 0; for (int i = 0; i < 4; i++) if (ge >> i & 1) m |= 255u << 8 * i; PUT(rd, (R[rn] & m) | (R[rm] & ~m)); break; }
                if ((o & 0x1a) == 0x0a && !(o2 & 1)) {  // ssat/usat
                    bool us = o & 4; unsigned n = w >> 16 & 31; i32 v = (w & 0x40) ? (i32)R[rm] >> ((w >> 7 & 31) ? (w >> 7 & 31) : 31) : (i32)(R[rm] << (w >> 7 & 31));
                    i64 lo = us ? 0 : -(1ll << n), hi = us ? (1ll << n) - 1 : (1ll << n) - 1;
                    PUT(rd, (u32)(v < lo ? lo : v > hi ? hi : v)); break;
                }
                if (o == 8 && !(o2 & 1)) {  // pkh
                    bool co; u32 v = shifter(R[rm], (w & 0x40) ? 2 : 0, w >> 7 & 31, true, co);
                    PUT(rd, (w & 0x40) ? (v & 0xffff) | (R[rn] & 0xffff0000) : (R[rn] & 0xffff) | (v & 0xffff0000)); break;
                }
                if (o2 == 3 && (o == 10 || o == 11 || o == 14 || o == 15)) {
                    unsigned ro = (w >> 10 & 3) * 8; u32 v = R[rm]; if (ro) v = v >> ro | v << (32 - ro);
                    v = o == 10 ? (u32)(i32)(i8)v : o == 11 ? (u32)(i32)(i16)v : o == 14 ? (u8)v : (u16)v;
                    PUT(rd, v + (rn == 15 ? 0 : R[rn])); break;
                }
                if (o == 11 && o2 == 1) { PUT(rd, __builtin_bswap32(R[rm])); break; }
                if (o == 15 && o2 == 1) { u32 v = R[rm], r = 0; for (int i = 0; i < 32; i++) r |= (v >> i & 1) << (31 - i); PUT(rd, r); break; }
                if ((o & 0x1e) == 0x1a && (o2 & 3) == 2) { unsigned l = w >> 7 & 31, wd = (w >> 16 & 31) + 1; i32 v = (i32)(R[rm] << (32 - l - wd)) >> (32 - wd); PUT(rd, v); break; }
                if ((o & 0x1e) == 0x1e && (o2 & 3) == 2) { unsigned l = w >> 7 & 31, wd = (w >> 16 & 31) + 1; u32 v = (R[rm] << (32 - l - wd)) >> (32 - wd); PUT(rd, v); break; }
                if ((o & 0x1e) == 0x1c && (o2 & 3) == 0) { unsigned l = w >> 7 & 31, m = w >> 16 & 31; u32 mask = (m - l == 31 ? ~0u : ((1u << (m - l + 1)) - 1)) << l; PUT(rd, (R[rd] & ~mask) | ((rm == 15 ? 0 : R[rm] << l) & mask)); break; }
                if (o == 0x1f && o2 == 7) violation("undefined instruction executed");
                unimpl(fmt("media 0x%x", w));
            }
            bool p = w >> 24 & 1, u = w >> 23 & 1, byte = w >> 22 & 1, wb = w >> 21 & 1, l = w >> 20 & 1, co;
            u32 off = (w >> 25 & 1) ? shifter(rd_(rm), w >> 5 & 3, w >> 7 & 31, true, co) : w & 0xfff;
            u32 b = rd_(rn), a2 = u ? b + off : b - off, ad = p ? a2 : b;
            if ((wb || !p) && rn == 13 && a2 < b) R[13] = a2;
            if (l) {
                u32 v = byte ? ld<u8>(ad) : ld<u32>(ad);
                if (wb || !p) R[rn] = a2;
                if (rd == 15) { if (rn == 13) { onReturn(v); junkFlags(); } if (v & 3) violation(fmt("jump to 0x%x", v)); R[15] = v; continue; }
                R[rd] = v;
            } else {
                u32 v = rd_(rd);
                if (byte) st<u8>(ad, v); else st<u32>(ad, v);
                if (wb || !p) R[rn] = a2;
            }
            break;
        }
        case 4: {
            bool p = w >> 24 & 1, u = w >> 23 & 1, wb = w >> 21 & 1, l = w >> 20 & 1;
            u32 n = __builtin_popcount(w & 0xffff), b = R[rn];
            if (n == 0) violation("block transfer of no register");
            u32 a = u ? b + (p ? 4 : 0) : b - 4 * n + (p ? 0 : 4), fin = u ? b + 4 * n : b - 4 * n;
            if (wb && rn == 13 && fin < b) R[13] = fin;
            u32 tgt = 0;
            for (int i = 0; i < 16; i++) if (w >> i & 1) {
                if (l) { u32 v = ld<u32>(a); if (i == 15) tgt = v; else R[i] = v; }
                else st<u32>(a, i == 13 ? b : rd_(i));
                a += 4;
            }
            if (wb && !(l && (w >> rn & 1))) R[rn] = fin;
            if (l && (w & 0x8000)) { if (rn == 13) { onReturn(tgt); junkFlags(); } if (tgt & 3) violation(fmt("return to 0x%x", tgt)); R[15] = tgt; continue; }
            break;
        }
        case 5: {
            u32 t = pc + 8 + ((i32)(w << 8) >> 6);
            if (w >> 24 & 1) { onCall(np); junkFlags(); R[14] = np; }
            R[15] = t; continue;
        }
        case 6: {
            if ((w & 0x0fe00fd0) == 0x0c400a10) {   // two core registers <-> two singles
                int sm = rm << 1 | (w >> 5 & 1);
                if (w >> 20 & 1) { R[rd] = S[sm]; R[rn] = S[sm + 1]; } else { S[sm] = R[rd]; S[sm + 1] = R[rn]; }
                break;
            }
            if ((w & 0x0fe00fd0) == 0x0c400b10) {
                int dm = rm | (w >> 5 & 1) << 4; if (dm > 15) unimpl("d16+");
                if (w >> 20 & 1) { R[rd] = S[2 * dm]; R[rn] = S[2 * dm + 1]; } else { S[2 * dm] = R[rd]; S[2 * dm + 1] = R[rn]; }
                break;
            }
            if ((w >> 9 & 7) != 5) unimpl(fmt("coprocessor transfer 0x%x", w));
            bool dbl = w >> 8 & 1, p = w >> 24 & 1, u = w >> 23 & 1, wb = w >> 21 & 1, l = w >> 20 & 1;
            int fd = dbl ? 2 * (rd | (w >> 22 & 1) << 4) : (rd << 1 | (w >> 22 & 1));
            u32 b = rd_(rn), n = w & 255;
            if (p && !wb) {
                if (rn == 15) b &= ~3u;
                u32 a = u ? b + 4 * n : b - 4 * n;
                for (int i = 0; i < (dbl ? 2 : 1); i++) { if (fd + i > 31) unimpl("d16+"); if (l) S[fd + i] = ld<u32>(a + 4 * i); else st<u32>(a + 4 * i, S[fd + i]); }
                break;
            }
            if (n == 0 || fd + (int)n > 32) violation(fmt("bad VFP block transfer 0x%x", w));
            u32 a = u ? b : b - 4 * n, fin = u ? b + 4 * n : b - 4 * n;
            if (wb && rn == 13 && fin < b) R[13] = fin;
            for (unsigned i = 0; i < n; i++) { if (l) S[fd + i] = ld<u32>(a + 4 * i); else st<u32>(a + 4 * i, S[fd + i]); }
            if (wb) R[rn] = fin;
            break;
        }
        case 7: {
            if (w >> 24 & 1) { hostcall(w & 0xffffff); break; }
            if ((w >> 8 & 15) != 10) unimpl(fmt("coprocessor operation 0x%x", w));
            if (w & 0x10) {
                unsigned o = w >> 21 & 7; int sn = rn << 1 | (w >> 7 & 1);
                if (o == 0) { if (w >> 20 & 1) PUT(rd, S[sn]); else S[sn] = rd_(rd); }
                else if (o == 7 && (w >> 20 & 1)) { if (rd == 15) { N = fN; Z = fZ; C = fC; V = fV; } else R[rd] = fN << 31 | fZ << 30 | fC << 29 | fV << 28; }
                else if (o == 7) {}
                else unimpl(fmt("vmov 0x%x", w));
                break;
            }
            int fd = rd << 1 | (w >> 22 & 1), fn = rn << 1 | (w >> 7 & 1), fm = rm << 1 | (w >> 5 & 1);
            bool o6 = w >> 6 & 1; unsigned o = (w >> 21 & 4) | (w >> 20 & 3);
            float x = F(fn), y = F(fm), d = F(fd), m;
            switch (o) {
            case 0: m = x * y; W(fd, o6 ? d + -m : d + m); break;
            case 1: m = x * y; W(fd, o6 ? -d + -m : -d + m); break;
            case 2: m = x * y; W(fd, o6 ? -m : m); break;
            case 3: W(fd, o6 ? x - y : x + y); break;
            case 4: if (o6) unimpl("vdiv"); W(fd, x / y); break;
            case 5: W(fd, o6 ? fmaf(-x, y, -d) : fmaf(x, y, -d)); break;
            case 6: W(fd, o6 ? fmaf(-x, y, d) : fmaf(x, y, d)); break;
            default: {
                unsigned q = w >> 16 & 15; bool b7 = w >> 7 & 1;
                if (!o6) { u32 im = (w >> 12 & 0xf0) | rm; S[fd] = (im >> 7) << 31 | ((im >> 6 & 1) ? 0x3e000000u : 0x40000000u) | (im & 0x3f) << 19; break; }
                switch (q) {
                case 0: S[fd] = b7 ? S[fm] & 0x7fffffff : S[fm]; break;
                case 1: if (b7) W(fd, sqrtf(y)); else S[fd] = S[fm] ^ 0x80000000u; break;
                case 4: case 5: { float z = q == 5 ? 0.f : y; if (d != d || z != z) { fN = 0; fZ = 0; fC = 1; fV = 1; } else { fN = d < z; fZ = d == z; fC = d >= z; fV = 0; } break; }
                case 8: W(fd, b7 ? (float)(i32)S[fm] : (float)S[fm]); break;
                case 12: { if (!b7) unimpl("vcvtr"); S[fd] = y != y || y <= -1.f ? 0 : y >= 4294967296.f ? ~0u : (u32)(i64)y; break; }
                case 13: { if (!b7) unimpl("vcvtr"); S[fd] = y != y ? 0 : y >= 2147483648.f ? INT32_MAX : y < -2147483648.f ? (u32)INT32_MIN : (u32)(i32)y; break; }
                default: unimpl(fmt("vfp 0x%x", w));
                }
            }
            }
            break;
        }
        }
        R[15] = np;
    }
}
