// Monitor of the memoisation table and of the arithmetic helpers of the run-time library.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <set>
#include <cstdarg>
#include <unistd.h>
#include <vector>

struct Entry { uint64_t key; int val; int hasVal; };
extern "C" Entry* cmmcCacheLookup(Entry* table, int key1, int key2);
extern "C" int32_t cmmcAddRec3SRem(int32_t x, int32_t rem);
static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
static uint64_t S;
static uint64_t rnd() { return S = mix(S); }
static uint64_t below(uint64_t n) { return rnd() % n; }
[[noreturn]] static void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    char buf[512];
    vsnprintf(buf, sizeof buf, fmt, ap);
    printf("BAD %s\n", buf);
    fflush(stdout);
    _exit(3);
}
constexpr int Size = 1021;  // entries of a table, as the compiler allocates it
struct Guarded {
    Entry* t;
    explicit Guarded() : t(static_cast<Entry*>(calloc(Size, sizeof(Entry)))) {}  // exact size: the sanitizer guards both ends
    ~Guarded() { free(t); }
};
static uint64_t nLookup, nHit, nNested, nScratch;
static int maxDepth;
static int value(int tag, int a, int b) {
    const auto h = (int)mix(((uint64_t)(uint32_t)a << 32 | (uint32_t)b) * 31 + (uint64_t)tag);
    return (h & 7) == 0 ? 0 : h;  // results equal to zero are results, too
}
struct Pool { std::vector<std::pair<int, int>> keys; };
static Pool makePool() {
    Pool p;
    const int kind = (int)below(9);
    const int n = (int)(2 + below(kind == 0 ? 4 : 3000));
    const int a0 = (int)rnd();
    const uint64_t base = rnd();
    for(int i = 0; i < n; ++i) {
        int a, b;
        switch(kind) {
            case 0: a = (int)below(3) - 1; b = (int)below(3) - 1; break;
            case 1: a = (int)below(60); b = (int)below(60); break;
            case 2: a = a0; b = i - n / 2; break;
            case 3: a = i - n / 2; b = a0; break;
            case 4: { uint64_t k = base + (uint64_t)Size * below(4000); a = (int)(k >> 32); b = (int)(uint32_t)k; break; }  // equal slots
            case 5: { uint64_t k = base + (uint64_t)Size * 1019 * below(4000); a = (int)(k >> 32); b = (int)(uint32_t)k; break; }  // equal probe sequences
            case 6: {  // keys that differ in one or two bits
                uint64_t k = (uint64_t)(uint32_t)(a0 % 5) << 32 | (uint32_t)(base >> 40 & 1 ? base & 15 : base);
                const auto f = below(3);
                if(f > 0) k ^= 1ull << below(64);
                if(f > 1) k ^= 1ull << (below(3) ? below(64) : below(2) * 31 + below(3));
                a = (int)(k >> 32); b = (int)(uint32_t)k; break;
            }
            case 7: {  // opposite signs, swapped arguments
                a = (int)below(40) - 20; b = (int)below(40) - 20;
                if(below(3) == 0) a = below(2) ? INT32_MAX - (int)below(3) : INT32_MIN + (int)below(3);
                if(below(3) == 0) b = below(2) ? INT32_MAX - (int)below(3) : INT32_MIN + (int)below(3);
                break;
            }
            default: a = (int)rnd(); b = (int)rnd(); break;
        }
        p.keys.emplace_back(a, b);
    }
    return p;
}
// what the compiler generates around a memoised function
static int call(Entry* t, int tag, Pool& p, int a, int b, int depth, int& budget) {
    Entry* e = cmmcCacheLookup(t, a, b);
    ++nLookup;
    if(depth > maxDepth) maxDepth = depth;
    if(e->hasVal) {
        ++nHit;
        const int got = e->val, want = value(tag, a, b);
        if(got != want) fail("f(%d,%d) is remembered as %d, it is %d (depth %d)", a, b, got, want, depth);
        return got;
    }
    if(e < t || e >= t + Size) ++nScratch;
    while(budget > 0 && depth < 400 && below(3)) {
        --budget;
        ++nNested;
        auto [x, y] = p.keys[below(p.keys.size())];
        if(below(4) == 0 && depth < 50) { x = a; y = b; }  // the same key again while the call is in progress
        const int r = call(t, tag, p, x, y, depth + 1, budget);
        if(r != value(tag, x, y)) fail("wrong nested value");
    }
    const int v = value(tag, a, b);
    e->val = v;
    e->hasVal = 1;
    return v;
}
int main(int argc, char** argv) {
    S = mix(strtoull(argv[1], nullptr, 10));
    const double budgetSec = atof(argv[2]);
    timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] { clock_gettime(CLOCK_MONOTONIC, &t); return (double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec); };
    uint64_t pools = 0, sums = 0, rehit = 0;
    do {
        ++pools;
        Guarded t1, t2;
        auto p = makePool();
        for(int i = 0; i < 3000; ++i) {
            int budget = (int)below(i % 50 == 0 ? 1500 : 6);
            auto [a, b] = p.keys[below(p.keys.size())];
            const int tag = (int)below(2);  // two functions, two tables
            call(tag ? t1.t : t2.t, tag, p, a, b, 0, budget);
            // a value just stored by a completed outermost call is found again
            Entry* e = cmmcCacheLookup(tag ? t1.t : t2.t, a, b);
            if(e->hasVal) {
                ++rehit;
                if(e->val != value(tag, a, b)) fail("f(%d,%d) is remembered as %d", a, b, e->val);
            } else {
                e->val = value(tag, a, b);
                e->hasVal = 1;
            }
        }
        // sum of 0..x-1 modulo rem, for loops that run (x >= 0)
        for(int i = 0; i < 400; ++i) {
            int32_t x = below(3) ? (int32_t)below(5000) : (int32_t)(rnd() & 0x7fffffff);
            if(below(30) == 0) x = INT32_MAX - (int32_t)below(3);
            int32_t rem = below(3) ? (int32_t)(1 + below(100000)) : (int32_t)rnd();
            if(rem == 0) rem = 1;
            if(rem == -1 || rem == INT32_MIN) rem = 998244353;
            const __int128 n = x;
            const auto want = (int32_t)(n * (n - 1) / 2 % rem);
            const auto got = cmmcAddRec3SRem(x, rem);
            if(got != want) fail("the sum of 0..%d modulo %d is %d, not %d", x - 1, rem, want, got);
            if(x < 5000) {
                int32_t acc = 0;
                for(int32_t k = 0; k < x; ++k) acc = (int32_t)(((int64_t)acc + k) % rem);
                if(got != acc) fail("the sum of 0..%d modulo %d is %d, not %d", x - 1, rem, acc, got);
            }
            ++sums;
        }
    } while(elapsed() < budgetSec);
    printf("lookups %lu hits %lu nested %lu uncached %lu pools %lu rehits %lu max_depth %d sums %lu\nOK\n", (unsigned long)nLookup, (unsigned long)nHit, (unsigned long)nNested,
           (unsigned long)nScratch, (unsigned long)pools, (unsigned long)rehit, maxDepth, (unsigned long)sums);
}
