// Shared part of the instruction-set emulators: memory, ELF loading, the SysY run-time library as host calls,
// the shadow call stack and violation reports.  One process runs one program.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;

// exit statuses of the emulator itself
enum { XOK = 0, XVIOL = 70, XLIMIT = 71, XUNIMPL = 72, XUSAGE = 73 };

static const char *outPath, *statPath;
static std::string outBuf;
static const char *curInfo();            // supplied by the architecture: where we are
static u64 nKnown, nInst, nCalls, nHost, nFrames, maxDepth, nLoad, nStore;
static u64 stackLow = ~0ull;

static void finish(int status, const char *what, int rc);

[[noreturn]] static void violation(const std::string &s) {
    fprintf(stderr, "EMU-VIOLATION: %s [%s]\n", s.c_str(), curInfo());
    finish(XVIOL, "violation", -1);
    abort();
}
[[noreturn]] static void unimpl(const std::string &s) {
    fprintf(stderr, "EMU-UNIMPLEMENTED: %s [%s]\n", s.c_str(), curInfo());
    finish(XUNIMPL, "unimplemented", -1);
    abort();
}
static std::string fmt(const char *f, ...) {
    char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

// ---------------------------------------------------------------- memory: one window of 512 MB
static u64 BASE;                        // guest address of the window
static const u64 WINDOW = 512ull << 20, STACK = 96ull << 20;
static u8 *mem;
struct Region { u64 lo, hi; bool w, x; };
static std::vector<Region> regions;     // loaded segments
static u64 spNow();                     // supplied by the architecture
static u64 stackLo, stackHi;            // the guest stack
static u64 heapLo, heapHi;              // for the guest's mmap
static u8 *pageFlag;                    // per 4K page: 1 readable, 2 writable, 4 executable (4K granular), 8 mixed

static u64 imgHi;                       // end of the last segment (exact)

static void *ptr(u64 a, unsigned n, bool write) {
    u64 o = a - BASE;
    if (o >= WINDOW || o + n > WINDOW) violation(fmt("%s of %u bytes at wild address 0x%llx", write ? "store" : "load", n, (unsigned long long)a));
    if (a >= stackLo && a < stackHi) {
        if (a < spNow()) violation(fmt("%s of %u bytes at 0x%llx below the stack pointer 0x%llx", write ? "store" : "load", n, (unsigned long long)a, (unsigned long long)spNow()));
        return mem + o;
    }
    u8 f = pageFlag[o >> 12];
    if (write ? !(f & 2) : !(f & 1)) violation(fmt("%s of %u bytes at 0x%llx: %s", write ? "store" : "load", n, (unsigned long long)a, f & 1 ? "memory is read-only" : "unmapped"));
    if (a + n > imgHi && a < imgHi + 4096 && !(a >= heapLo && a < heapHi)) violation(fmt("access of %u bytes at 0x%llx behind the last object", n, (unsigned long long)a));
    return mem + o;
}
// strict alignment: every target's compiler output must use natural alignment for scalars
template <class T> static inline T ld(u64 a) {
    nLoad++;
    if (a & (sizeof(T) - 1)) violation(fmt("misaligned load of %zu bytes at 0x%llx", sizeof(T), (unsigned long long)a));
    T v; memcpy(&v, ptr(a, sizeof(T), false), sizeof(T)); return v;
}
template <class T> static inline void st(u64 a, T v) {
    nStore++;
    if (a & (sizeof(T) - 1)) violation(fmt("misaligned store of %zu bytes at 0x%llx", sizeof(T), (unsigned long long)a));
    memcpy(ptr(a, sizeof(T), true), &v, sizeof(T));
}

// ---------------------------------------------------------------- pseudo-random garbage for poisoning
static u64 rs = 0x9E3779B97F4A7C15ull;
static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
// values a wrong assumption would notice: odd, large, different every time
static u64 junk() { u64 r = rnd(); return r | 0x8000000180000001ull; }

static void poisonBelow(u64 sp, u64 n = 768) {
    u64 lo = sp - n < stackLo ? stackLo : sp - n;
    for (u64 a = lo; a + 8 <= sp; a += 8) { u64 v = junk(); memcpy(mem + (a - BASE), &v, 8); }
}

// ---------------------------------------------------------------- ELF
struct Sym { u64 addr; std::string name; };
static std::vector<Sym> syms;
static u64 entry, initLo, initHi;

template <class Ehdr, class Phdr, class Shdr, class Syme> static void loadElf(const std::vector<u8> &f) {
    auto *eh = (const Ehdr *)f.data();
    entry = eh->e_entry;
    auto *ph = (const Phdr *)(f.data() + eh->e_phoff);
    for (int i = 0; i < eh->e_phnum; i++) {
        if (ph[i].p_type != PT_LOAD || ph[i].p_memsz == 0) continue;
        u64 a = ph[i].p_vaddr;
        if (a - BASE >= WINDOW || a - BASE + ph[i].p_memsz > WINDOW - STACK - (64ull << 20)) { fprintf(stderr, "segment outside the window\n"); exit(XUSAGE); }
        memcpy(mem + (a - BASE), f.data() + ph[i].p_offset, ph[i].p_filesz);
        u8 fl = 1 | (ph[i].p_flags & PF_W ? 2 : 0) | (ph[i].p_flags & PF_X ? 4 : 0);
        for (u64 p = (a - BASE) >> 12; p <= (a - BASE + ph[i].p_memsz - 1) >> 12; p++) pageFlag[p] |= fl;
        regions.push_back({a, a + ph[i].p_memsz, (ph[i].p_flags & PF_W) != 0, (ph[i].p_flags & PF_X) != 0});
        if (a + ph[i].p_memsz > imgHi) imgHi = a + ph[i].p_memsz;
    }
    auto *sh = (const Shdr *)(f.data() + eh->e_shoff);
    for (int i = 0; i < eh->e_shnum; i++)
        if (sh[i].sh_type == SHT_SYMTAB) {
            auto *s = (const Syme *)(f.data() + sh[i].sh_offset);
            const char *str = (const char *)f.data() + sh[sh[i].sh_link].sh_offset;
            for (u64 k = 0; k < sh[i].sh_size / sizeof(Syme); k++) syms.push_back({(u64)s[k].st_value, str + s[k].st_name});
        }
}
static std::string where(u64 pc) {
    const Sym *b = nullptr;
    for (auto &s : syms) if (!s.name.empty() && s.name[0] != '$' && s.addr <= pc && (!b || s.addr >= b->addr)) b = &s;
    return b && pc - b->addr < (1 << 20) ? fmt("pc 0x%llx = %s+0x%llx", (unsigned long long)pc, b->name.c_str(), (unsigned long long)(pc - b->addr)) : fmt("pc 0x%llx", (unsigned long long)pc);
}

// ---------------------------------------------------------------- shadow call stack
static const int NSAVED = 40;
struct Frame { u64 ret, sp; u64 saved[NSAVED]; };
static std::vector<Frame> frames;
static void archSaved(u64 *out, const char **names, int *n);   // current values of the callee-saved registers
static const char *savedNames[NSAVED]; static int nSaved;

static void onCall(u64 ret) {
    Frame f; f.ret = ret; f.sp = spNow();
    archSaved(f.saved, savedNames, &nSaved);
    frames.push_back(f);
    nCalls++; if (frames.size() > maxDepth) maxDepth = frames.size();
    if (f.sp < stackLow) stackLow = f.sp;
}
static void onReturn(u64 target) {
    if (frames.empty()) violation("return without a call");
    Frame &f = frames.back();
    if (f.ret != target) violation(fmt("return to 0x%llx, but the call expects to continue at 0x%llx", (unsigned long long)target, (unsigned long long)f.ret));
    if (f.sp != spNow()) violation(fmt("stack pointer not restored: 0x%llx at the call, 0x%llx at the return", (unsigned long long)f.sp, (unsigned long long)spNow()));
    u64 now[NSAVED]; const char *nm[NSAVED]; int n;
    archSaved(now, nm, &n);
    for (int i = 0; i < n; i++)
        if (now[i] != f.saved[i]) violation(fmt("callee-saved register %s changed: 0x%llx at the call, 0x%llx at the return", nm[i], (unsigned long long)f.saved[i], (unsigned long long)now[i]));
    frames.pop_back(); nFrames++;
}

// ---------------------------------------------------------------- the run-time library
static FILE *inF;
static void outf(const char *f, ...) { char b[256]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); outBuf.append(b, n);
    if (outBuf.size() > (64u << 20)) { fprintf(stderr, "EMU: output limit\n"); finish(XLIMIT, "limit", -1); } }
static i32 hGetint() { i32 v; if (fscanf(inF, "%d", &v) != 1) v = 0; return v; }
static i32 hGetch() { int c = fgetc(inF); return c; }
static float hGetfloat() { float v; if (fscanf(inF, "%a", &v) != 1) v = 0; return v; }
static u32 bits(float f) { u32 u; memcpy(&u, &f, 4); return u; }
static float fl(u32 u) { float f; memcpy(&f, &u, 4); return f; }

enum Host { H_getint = 1, H_getch, H_getfloat, H_getarray, H_getfarray, H_putint, H_putch, H_putfloat, H_putarray, H_putfarray, H_start, H_stop, H_memset, H_memcpy,
            H_exit, H_mmap, H_nosys };

struct HostArgs { u64 a0, a1, a2; float f0; };
struct HostRet { u64 v = 0; float f = 0; int kind = 0; };      // 0 none, 1 int, 2 float
static HostRet host(unsigned id, const HostArgs &h) {
    HostRet r; nHost++;
    if (h.a1 == ~0ull) {}
    switch (id) {
    case H_getint: r.kind = 1; r.v = (u64)(i64)hGetint(); break;
    case H_getch: r.kind = 1; r.v = (u64)(i64)hGetch(); break;
    case H_getfloat: r.kind = 2; r.f = hGetfloat(); break;
    case H_getarray: { i32 n = hGetint(); for (i32 i = 0; i < n; i++) st<u32>(h.a0 + 4 * (u64)i, (u32)hGetint()); r.kind = 1; r.v = (u64)(i64)n; break; }
    case H_getfarray: { i32 n = hGetint(); for (i32 i = 0; i < n; i++) st<u32>(h.a0 + 4 * (u64)i, bits(hGetfloat())); r.kind = 1; r.v = (u64)(i64)n; break; }
    case H_putint: outf("%d", (i32)h.a0); break;
    case H_putch: outf("%c", (int)(u8)h.a0); break;
    case H_putfloat: outf("%a", (double)h.f0); break;
    case H_putarray: outf("%d:", (i32)h.a0); for (i32 i = 0; i < (i32)h.a0; i++) outf(" %d", (i32)ld<u32>(h.a1 + 4 * (u64)i)); outf("\n"); break;
    case H_putfarray: outf("%d:", (i32)h.a0); for (i32 i = 0; i < (i32)h.a0; i++) outf(" %a", (double)fl(ld<u32>(h.a1 + 4 * (u64)i))); outf("\n"); break;
    case H_start: case H_stop: break;
    case H_memset: for (u64 i = 0; i < h.a2; i++) *(u8 *)ptr(h.a0 + i, 1, true) = (u8)h.a1; r.kind = 1; r.v = h.a0; break;
    case H_memcpy: for (u64 i = 0; i < h.a2; i++) *(u8 *)ptr(h.a0 + i, 1, true) = *(u8 *)ptr(h.a1 + i, 1, false); r.kind = 1; r.v = h.a0; break;
    case H_exit: finish(XOK, "exit", (int)h.a0); break;
    default: unimpl(fmt("host call %u", id));
    }
    return r;
}

static void finish(int status, const char *what, int rc) {
    if (outPath) { FILE *f = fopen(outPath, "wb"); if (f) { fwrite(outBuf.data(), 1, outBuf.size(), f); fclose(f); } }
    if (statPath) {
        FILE *f = fopen(statPath, "w");
        if (f) {
            fprintf(f, "{\"end\":\"%s\",\"rc\":%d,\"instructions\":%llu,\"calls\":%llu,\"returns_checked\":%llu,\"host_calls\":%llu,\"max_depth\":%llu,\"loads\":%llu,\"stores\":%llu,\"stack_bytes\":%llu,\"known_idiom\":%llu}\n",
                    what, rc & 255, (unsigned long long)nInst, (unsigned long long)nCalls, (unsigned long long)nFrames, (unsigned long long)nHost, (unsigned long long)maxDepth,
                    (unsigned long long)nLoad, (unsigned long long)nStore, (unsigned long long)(stackLow == ~0ull ? 0 : stackHi - stackLow), (unsigned long long)nKnown);
            fclose(f);
        }
    }
    _exit(status == XOK ? (rc & 255) == 0 ? 0 : 0 : status);
}

static u64 maxInst = 2000000000ull;
static void setup(int argc, char **argv, u64 base, bool is64) {
    // emu ELF INPUT OUTPUT STATS [max instructions]
    if (argc < 5) { fprintf(stderr, "usage: emu ELF INPUT OUTPUT STATS [limit]\n"); exit(XUSAGE); }
    outPath = argv[3]; statPath = argv[4];
    if (argc > 5) maxInst = strtoull(argv[5], 0, 0);
    inF = fopen(argv[2], "r");
    FILE *e = fopen(argv[1], "rb");
    if (!inF || !e) { fprintf(stderr, "cannot open input\n"); exit(XUSAGE); }
    std::vector<u8> f; u8 b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, e)) > 0) f.insert(f.end(), b, b + n);
    fclose(e);
    BASE = base;
    mem = (u8 *)mmap(0, WINDOW, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pageFlag = (u8 *)calloc(WINDOW >> 12, 1);
    if (is64) loadElf<Elf64_Ehdr, Elf64_Phdr, Elf64_Shdr, Elf64_Sym>(f); else loadElf<Elf32_Ehdr, Elf32_Phdr, Elf32_Shdr, Elf32_Sym>(f);
    stackHi = BASE + WINDOW - 65536; stackLo = stackHi - STACK;
    for (u64 p = (stackLo - BASE) >> 12; p < (stackHi - BASE) >> 12; p++) pageFlag[p] = 3;
    poisonBelow(stackHi, 1 << 18);
}
