// MIPS32r2 (little endian, o32, single precision) user-level emulator with ABI monitors and real branch delay slots.
#include <cstdarg>
#include "host.hpp"

static u32 R[32], F_[32], HI, LO; static bool fcc[8];
static u32 PC;
// A signed branch on the wrapped difference of its operands (known/mips_cmpbranch): the true difference is kept beside
// the register, every branch that it would send the other way is counted, and in the ideal mode it is sent that way, so
// that the rest of the program is still observed.
static i64 wide[32]; static bool isWide[32]; static bool ideal;
static void noteWide(int r, i64 v) { if (r && v != (i32)v) { wide[r] = v; isWide[r] = true; } }
static i64 signOf(int r) {
    if (!isWide[r]) return (i32)R[r];
    nKnown++;
    return ideal ? wide[r] : (i32)R[r];
}
static u64 spNow() { return R[29]; }
static const char *curInfo() { static std::string s; s = where(PC); return s.c_str(); }
static void archSaved(u64 *o, const char **nm, int *n) {
    static const char *a[] = {"$s0", "$s1", "$s2", "$s3", "$s4", "$s5", "$s6", "$s7", "$gp", "$fp"};
    static const int ai[] = {16, 17, 18, 19, 20, 21, 22, 23, 28, 30};
    static const char *b[] = {"$f20", "$f22", "$f24", "$f26", "$f28", "$f30"};
    int k = 0;
    for (int i = 0; i < 10; i++) { o[k] = R[ai[i]]; nm[k++] = a[i]; }
    for (int i = 0; i < 6; i++) { o[k] = F_[20 + 2 * i]; nm[k++] = b[i]; }
    *n = k;
}
static inline float F(int r) { return fl(F_[r]); }
static inline void W(int r, float v) { F_[r] = v != v ? 0x7fc00000u : bits(v); }

// what a callee may destroy: everything that is not callee-saved, and the 16 bytes its caller owes it
static void clobber() {
    for (int i : {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25}) R[i] = (u32)junk();
    for (int i = 0; i < 20; i++) F_[i] = (u32)junk();
    HI = (u32)junk(); LO = (u32)junk(); fcc[0] = junk() >> 9 & 1;
    poisonBelow(R[29]);
}
static void hostcall(unsigned id) {
    if (R[29] & 7) violation("stack pointer not 8-byte aligned at a library call");
    HostArgs h{R[4], R[5], R[6], fl(F_[12])};
    if (id == H_exit) h.a0 = R[2];
    HostRet r;
    if (id == 22) {   // cmmcAddRec3SRem of the run-time library (there is no MIPS C++ compiler here)
        i64 n = (i32)R[4], m = (i32)R[5];
        if (m == 0) violation("modulo by zero");
        r.kind = 1; r.v = (u64)(n * (n - 1) / 2 % m); nHost++;
    } else r = host(id, h);
    clobber();
    if (r.kind == 1) R[2] = (u32)r.v;
    if (r.kind == 2) F_[0] = bits(r.f);
    // the 16 bytes its caller owes it
    for (u64 a = R[29]; a + 4 <= R[29] + 16 && a + 4 <= stackHi; a += 4) { u32 v = (u32)junk(); memcpy(mem + (a - BASE), &v, 4); }
}
// the system calls of the SPIM simulator, used by the SPL run-time library; only $v0 changes
static void spim() {
    switch (R[2]) {
    case 1: outf("%d", (i32)R[4]); nHost++; break;
    case 4: { for (u64 a = R[4];; a++) { char c = *(u8 *)ptr(a, 1, false); if (!c) break; outf("%c", c); } break; }
    case 5: R[2] = (u32)hGetint(); nHost++; break;
    case 10: finish(XOK, "exit", 0); break;
    case 11: outf("%c", (int)(u8)R[4]); break;
    case 17: finish(XOK, "exit", (int)R[4]); break;
    default: unimpl(fmt("SPIM system call %u", R[2]));
    }
}

int main(int argc, char **argv) {
    setup(argc, argv, 0x10000000ull, false);
    ideal = argc > 6 && !strcmp(argv[6], "ideal");
    for (int i = 1; i < 32; i++) R[i] = (u32)junk();
    for (int i = 0; i < 32; i++) F_[i] = (u32)junk();
    HI = (u32)junk(); LO = (u32)junk();
    PC = (u32)entry; R[29] = (u32)(stackHi - 64);
    u32 next = PC + 4;
    bool slot = false;                    // the current instruction is in a delay slot
    u32 retTo = 0; bool retPending = false, callPending = false;
    for (;;) {
        if (++nInst > maxInst) { fprintf(stderr, "EMU: instruction limit\n"); finish(XLIMIT, "limit", -1); }
        u32 pc = PC;
        if (pc - BASE >= WINDOW || !(pageFlag[(pc - BASE) >> 12] & 4) || (pc & 3)) violation(fmt("jump to non-code address 0x%x", pc));
        u32 w; memcpy(&w, mem + (pc - BASE), 4);
        u32 nn = next + 4;
        bool br = false;                  // this instruction is a branch: the next one is its delay slot
        int rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sa = w >> 6 & 31;
        i32 imm = (i16)w; u32 uimm = w & 0xffff;
        u32 a = R[rs], b = R[rt];
#define PUT(r, v) do { u32 v_ = (v); if (r) R[r] = v_; isWide[r] = false; } while (0)
#define BR(c) do { br = true; if (c) nn = pc + 4 + ((u32)imm << 2); } while (0)
        bool call = false, ret = false; u32 target = 0;
        switch (w >> 26) {
        case 0:
            switch (w & 63) {
            case 0: PUT(rd, b << sa); break;
            case 2: PUT(rd, rs & 1 ? (sa ? b >> sa | b << (32 - sa) : b) : b >> sa); break;
            case 3: PUT(rd, (u32)((i32)b >> sa)); break;
            case 4: PUT(rd, b << (a & 31)); break;
            case 6: PUT(rd, b >> (a & 31)); break;
            case 7: PUT(rd, (u32)((i32)b >> (a & 31))); break;
            case 1: { bool c = fcc[rt >> 2]; if (c == (bool)(rt & 1)) PUT(rd, a); break; }
            case 10: if (b == 0) PUT(rd, a); break;
            case 11: if (b != 0) PUT(rd, a); break;
            case 8: br = true; nn = a; if (rs == 31) { ret = true; target = a; } break;
            case 9: br = true; nn = a; PUT(rd, pc + 8); call = true; break;
            case 12: { unsigned id = w >> 6 & 0xfffff; if (slot) violation("system call in a delay slot"); if (id) hostcall(id); else spim(); break; }
            case 13: violation("trap instruction executed"); break;
            case 15: break;
            case 16: PUT(rd, HI); break;
            case 18: PUT(rd, LO); break;
            case 17: HI = a; break;
            case 19: LO = a; break;
            case 24: { i64 p = (i64)(i32)a * (i32)b; HI = (u64)p >> 32; LO = (u32)p; break; }
            case 25: { u64 p = (u64)a * b; HI = p >> 32; LO = (u32)p; break; }
            case 26: if (b == 0) { HI = (u32)junk(); LO = (u32)junk(); } else if (a == 0x80000000u && b == ~0u) { LO = a; HI = 0; } else { LO = (u32)((i32)a / (i32)b); HI = (u32)((i32)a % (i32)b); } break;
            case 27: if (b == 0) { HI = (u32)junk(); LO = (u32)junk(); } else { LO = a / b; HI = a % b; } break;
            case 32: { i32 r; if (__builtin_add_overflow((i32)a, (i32)b, &r)) violation("integer overflow trap"); PUT(rd, (u32)r); break; }
            case 33: PUT(rd, a + b); noteWide(rd, (i64)(i32)a + (b == 0x80000000u ? 1ll << 31 : (i64)(i32)b)); break;  // li -INT_MIN; addu
            case 34: { i32 r; if (__builtin_sub_overflow((i32)a, (i32)b, &r)) violation("integer overflow trap"); PUT(rd, (u32)r); break; }
            case 35: PUT(rd, a - b); noteWide(rd, (i64)(i32)a - (i32)b); break;
            case 36: PUT(rd, a & b); break;
            case 37: PUT(rd, a | b); break;
            case 38: PUT(rd, a ^ b); break;
            case 39: PUT(rd, ~(a | b)); break;
            case 42: PUT(rd, (i32)a < (i32)b); break;
            case 43: PUT(rd, a < b); break;
            case 52: if (a == b) violation("trap instruction executed"); break;
            default: unimpl(fmt("special 0x%x", w));
            }
            break;
        case 1:
            switch (rt) {
            case 0: BR(signOf(rs) < 0); break;
            case 1: BR(signOf(rs) >= 0); break;
            case 17: BR((i32)a >= 0); PUT(31, pc + 8); if (rs == 0) call = true; else unimpl("bgezal"); break;
            default: unimpl(fmt("regimm 0x%x", w));
            }
            break;
        case 2: br = true; nn = ((pc + 4) & 0xf0000000u) | (w & 0x3ffffff) << 2; break;
        case 3: br = true; nn = ((pc + 4) & 0xf0000000u) | (w & 0x3ffffff) << 2; PUT(31, pc + 8); call = true; break;
        case 4: BR(a == b); break;
        case 5: BR(a != b); break;
        case 6: BR(signOf(rs) <= 0); break;
        case 7: BR(signOf(rs) > 0); break;
        case 8: { i32 r; if (__builtin_add_overflow((i32)a, imm, &r)) violation("integer overflow trap"); PUT(rt, (u32)r); break; }
        case 9: PUT(rt, a + (u32)imm); noteWide(rt, (i64)(i32)a + imm); break;
        case 10: PUT(rt, (i32)a < imm); break;
        case 11: PUT(rt, a < (u32)imm); break;
        case 12: PUT(rt, a & uimm); break;
        case 13: PUT(rt, a | uimm); break;
        case 14: PUT(rt, a ^ uimm); break;
        case 15: PUT(rt, uimm << 16); break;
        case 17: {
            int fs = rd, ft = rt, fd = sa;
            switch (rs) {
            case 0: PUT(rt, F_[fs]); break;
            case 4: F_[fs] = b; break;
            case 8: { if (rt & 2) unimpl("branch likely"); BR(fcc[rt >> 2] == (bool)(rt & 1)); break; }
            case 16: {
                unsigned fn = w & 63;     // o32 nooddspreg: singles live in the even registers
                if ((fs | (fn >= 17 && fn <= 19 ? 0 : ft) | (fn >= 48 ? 0 : fd)) & 1) violation("odd floating-point register used");
                float x = F(fs), y = F(ft);
                switch (w & 63) {
                case 0: W(fd, x + y); break;
                case 1: W(fd, x - y); break;
                case 2: W(fd, x * y); break;
                case 3: W(fd, x / y); break;
                case 4: W(fd, sqrtf(x)); break;
                case 5: F_[fd] = F_[fs] & 0x7fffffffu; break;
                case 6: F_[fd] = F_[fs]; break;
                case 7: F_[fd] = F_[fs] ^ 0x80000000u; break;
                case 13: case 36: {
                    float v = (w & 63) == 13 ? truncf(x) : nearbyintf(x);
                    F_[fd] = (v >= -2147483648.f && v < 2147483648.f) ? (u32)(i32)v : 0x7fffffffu; break;
                }
                case 17: { bool c = fcc[ft >> 2]; if (c == (bool)(ft & 1)) F_[fd] = F_[fs]; break; }
                case 18: if (b == 0) F_[fd] = F_[fs]; break;
                case 19: if (b != 0) F_[fd] = F_[fs]; break;
                default:
                    if ((w & 0x30) == 0x30) {
                        unsigned k = w & 15; bool un = x != x || y != y, r = false;
                        if (k & 1) r |= un;
                        if (k & 2) r |= !un && x == y;
                        if (k & 4) r |= !un && x < y;
                        fcc[w >> 8 & 7] = r;
                    } else unimpl(fmt("float 0x%x", w));
                }
                break;
            }
            case 20: if ((w & 63) == 32) { W(fd, (float)(i32)F_[fs]); break; } unimpl(fmt("cop1 w 0x%x", w)); break;
            default: unimpl(fmt("cop1 0x%x", w));
            }
            break;
        }
        case 28:
            switch (w & 63) {
            case 0: { i64 p = (i64)((u64)HI << 32 | LO) + (i64)(i32)a * (i32)b; HI = (u64)p >> 32; LO = (u32)p; break; }
            case 2: { PUT(rd, a * b); HI = (u32)junk(); LO = (u32)junk(); break; }
            case 4: { i64 p = (i64)((u64)HI << 32 | LO) - (i64)(i32)a * (i32)b; HI = (u64)p >> 32; LO = (u32)p; break; }
            case 32: PUT(rd, a ? __builtin_clz(a) : 32); break;
            default: unimpl(fmt("special2 0x%x", w));
            }
            break;
        case 31:
            switch (w & 63) {
            case 0: PUT(rt, a >> sa & (rd == 31 ? ~0u : (1u << (rd + 1)) - 1)); break;
            case 4: { u32 m = (rd - sa == 31 ? ~0u : (1u << (rd - sa + 1)) - 1) << sa; PUT(rt, (b & ~m) | (a << sa & m)); break; }
            case 32: if (sa == 16) PUT(rd, (u32)(i32)(i8)b); else if (sa == 24) PUT(rd, (u32)(i32)(i16)b); else unimpl(fmt("bshfl 0x%x", w)); break;
            default: unimpl(fmt("special3 0x%x", w));
            }
            break;
        case 32: PUT(rt, (u32)(i32)(i8)ld<u8>(a + (u32)imm)); break;
        case 33: PUT(rt, (u32)(i32)(i16)ld<u16>(a + (u32)imm)); break;
        case 35: PUT(rt, ld<u32>(a + (u32)imm)); break;
        case 36: PUT(rt, ld<u8>(a + (u32)imm)); break;
        case 37: PUT(rt, ld<u16>(a + (u32)imm)); break;
        case 40: st<u8>(a + (u32)imm, (u8)b); break;
        case 41: st<u16>(a + (u32)imm, (u16)b); break;
        case 43: st<u32>(a + (u32)imm, b); break;
        case 49: if (rt & 1) violation("odd floating-point register used"); F_[rt] = ld<u32>(a + (u32)imm); break;
        case 57: if (rt & 1) violation("odd floating-point register used"); st<u32>(a + (u32)imm, F_[rt]); break;
        default: unimpl(fmt("0x%x", w));
        }
        if (br && slot) violation("branch in a delay slot");
        slot = br;
        // calls and returns take effect when their delay slot is done
        u32 cur = pc; PC = next;
        if (callPending) { callPending = false; onCall(retTo); }
        if (retPending) { retPending = false; onReturn(retTo); }
        if (call) { callPending = true; retTo = cur + 8; }
        if (ret) { retPending = true; retTo = target; }
        next = nn;
    }
}
