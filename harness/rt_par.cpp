// Monitor of the parallel-for of the run-time library (cmmc/Runtime/cmmc_sysy_rt.cpp, compiled separately and
// linked with --wrap=clone,waitpid,syscall,sched_setaffinity). Workers become pthreads, so that the race detector
// sees them; system calls of the library get delays, early returns and spurious wake-ups injected.
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <linux/futex.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <string>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

using Body = void (*)(int32_t, int32_t);
extern "C" void cmmcParallelFor(int32_t beg, int32_t end, Body func);
extern "C" long __real_syscall(long n, ...);
extern "C" void cmmcReduceAddI32(std::atomic_int32_t& x, int32_t val);
extern "C" void cmmcReduceAddF32(std::atomic<float>& x, float val);

static uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Rng {
    uint64_t s;
    uint64_t next() { return s = mix(s); }
    uint64_t below(uint64_t n) { return next() % n; }
};
static std::atomic<uint64_t> noise{1};
static std::atomic<int> faults{0};
static thread_local Rng tl{0};
static Rng& local() {
    if(!tl.s) tl.s = mix(noise.fetch_add(1, std::memory_order_relaxed) * 77 + 5);
    return tl;
}
static void pauseRandomly(int level) {
    auto r = local().below(16);
    if(level == 0) return;
    if(r < 5) return;
    if(r < 10) { sched_yield(); return; }
    if(r < 15) { for(volatile int i = 0, n = (int)local().below(2000); i < n; i = i + 1) {} return; }
    if(level > 1) usleep((useconds_t)local().below(80));
}

// ---- stand-ins for the system calls of the library
struct Start { int (*fn)(void*); void* arg; };
static std::vector<pthread_t> threads;
static std::atomic<uint64_t> nWait{0}, nWake{0}, nSpurious{0}, nClone{0};
static void* tramp(void* p) {
    auto* s = static_cast<Start*>(p);
    auto fn = s->fn; auto arg = s->arg;
    delete s;
    fn(arg);
    return nullptr;
}
extern "C" int __wrap_clone(int (*fn)(void*), void*, int, void* arg, ...) {
    pthread_t t;
    ++nClone;
    if(pthread_create(&t, nullptr, tramp, new Start{ fn, arg })) return -1;
    static std::vector<pthread_t>* keep = new std::vector<pthread_t>;
    keep->push_back(t);
    return 100000 + (int)keep->size();
}
extern "C" pid_t __wrap_waitpid(pid_t, int*, int) { errno = ECHILD; return -1; }
extern "C" int __wrap_sched_setaffinity(pid_t, size_t, const cpu_set_t*) { return 0; }
extern "C" long __wrap_syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for(auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    const int level = faults.load(std::memory_order_relaxed);
    if(n == SYS_futex && level) {
        const int op = (int)a[1] & FUTEX_CMD_MASK;
        pauseRandomly(level);
        if(op == FUTEX_WAIT) {
            nWait.fetch_add(1, std::memory_order_relaxed);
            if(local().below(6) == 0) {  // interrupted by a signal, or woken spuriously
                nSpurious.fetch_add(1, std::memory_order_relaxed);
                if(local().below(2)) { errno = EINTR; return -1; }
                return 0;
            }
        } else if(op == FUTEX_WAKE)
            nWake.fetch_add(1, std::memory_order_relaxed);
    }
    long r = __real_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if(n == SYS_futex) pauseRandomly(level);
    return r;
}

// ---- the monitor
[[noreturn]] static void fail(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    char buf[512];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    printf("BAD %s\n", buf);
    fflush(stdout);
    _exit(3);
}
constexpr int N = 1 << 16;
static int32_t cells[N];        // plain: the race detector sees every access
static int32_t input[N];        // written by the caller before a loop, read by its body
static int32_t base;            // index of cells[0]
static std::atomic<int> active{0};
static std::atomic<uint32_t> epoch{0};
static uint32_t expected;       // epoch of the loop in progress
struct Chunk { int64_t b, e; int who; };
static std::mutex mu;
static std::vector<Chunk> chunks;
static std::atomic<int> bodyPause{0};
static std::atomic_int32_t sumI{0};
static std::atomic<float> sumF{0};
static bool intervalOnly, reduce;

static void enter(int who, int32_t b, int32_t e) {
    active.fetch_add(1, std::memory_order_relaxed);
    if(epoch.load(std::memory_order_relaxed) != expected) fail("a body runs outside its loop: [%d,%d)", b, e);
    pauseRandomly(bodyPause.load(std::memory_order_relaxed));
    {
        std::lock_guard<std::mutex> l(mu);
        chunks.push_back({ b, e, who });
    }
}
static void work(int who, int32_t b, int32_t e) {
    if(!intervalOnly)
        for(int32_t i = b; i < e; ++i) {
            const int64_t k = (int64_t)i - base;
            if(k < 0 || k >= N) fail("index %d is outside the loop", i);
            cells[k] += input[k] * 2 + who + 1;
        }
    if(reduce) {
        cmmcReduceAddI32(sumI, e - b);
        cmmcReduceAddF32(sumF, (float)(e - b));
    }
    active.fetch_sub(1, std::memory_order_relaxed);
}
template <int K> static void body(int32_t b, int32_t e) {
    enter(K, b, e);
    work(K, b, e);
}
// many distinct bodies: more than the run-time keeps statistics for
template <int... Ks> static std::vector<Body> makeBodies(std::integer_sequence<int, Ks...>) { return { body<Ks>... }; }
static std::vector<Body> bodies = makeBodies(std::make_integer_sequence<int, 24>{});

static std::map<int, uint64_t> byChunks;
static uint64_t loops, iterations, shapes;
static std::set<std::string> layouts;
static std::atomic<uint64_t> beat{0};

static void loop(int32_t b, int32_t e, int k, bool interval) {
    const int64_t n = e > b ? (int64_t)e - b : 0;
    intervalOnly = interval;
    base = b;
    if(!interval)
        for(int64_t i = 0; i < n; ++i) { input[i] = (int32_t)(i * 7 + loops % 1000); cells[i] = -5; }
    chunks.clear();
    sumI = 0;
    sumF = 0;
    expected = epoch.fetch_add(1, std::memory_order_relaxed) + 1;
    cmmcParallelFor(b, e, bodies[(size_t)k]);
    if(active.load(std::memory_order_relaxed) != 0) fail("cmmcParallelFor(%d,%d) returned while a body was running", b, e);
    epoch.fetch_add(1, std::memory_order_relaxed);
    // exactly once: the chunks partition [b,e)
    std::vector<Chunk> c;
    {
        // no lock: the return of the loop must order the bodies before this read
        c = chunks;
    }
    std::sort(c.begin(), c.end(), [](const Chunk& x, const Chunk& y) { return x.b < y.b; });
    int64_t at = b;
    for(auto& x : c) {
        if(x.who != k) fail("the body of another loop was run: %d for %d", x.who, k);
        if(x.b >= x.e) fail("empty or reversed chunk [%ld,%ld) of [%d,%d)", (long)x.b, (long)x.e, b, e);
        if(x.b != at) fail("%s at %ld: chunk [%ld,%ld) of [%d,%d)", x.b < at ? "iterations run twice" : "iterations lost", (long)at, (long)x.b, (long)x.e, b, e);
        at = x.e;
    }
    if(n == 0 ? !c.empty() : at != e) fail("the loop [%d,%d) ran up to %ld in %zu chunks", b, e, (long)at, c.size());
    if(!interval)
        for(int64_t i = 0; i < n; ++i)
            if(cells[i] != -5 + input[i] * 2 + k + 1) fail("effect of iteration %ld of [%d,%d) is wrong after the loop", (long)(b + i), b, e);
    if(reduce && !interval) {
        if(sumI != n) fail("integer reduction %d, expected %ld", sumI.load(), (long)n);
        if(sumF != (float)n) fail("float reduction %f, expected %ld", sumF.load(), (long)n);
    }
    ++byChunks[(int)c.size()];
    std::string s;
    for(auto& x : c) s += std::to_string((x.e - x.b)) + ",";
    if(layouts.size() < 100000) layouts.insert(s);
    ++loops;
    iterations += (uint64_t)n;
    beat.fetch_add(1, std::memory_order_relaxed);
}

static void* watchdog(void*) {
    uint64_t last = 0;
    int idle = 0;
    while(true) {
        sleep(1);
        auto b = beat.load(std::memory_order_relaxed);
        if(b == last) { if(++idle > 25) { printf("BAD a parallel loop does not come to an end (%lu loops done)\n", (unsigned long)b); fflush(stdout); _exit(3); } }
        else idle = 0;
        last = b;
    }
}

int main(int argc, char** argv) {
    const uint64_t seed = strtoull(argv[1], nullptr, 10);
    const double budget = atof(argv[2]);
    noise = mix(seed);
    pthread_t w;
    pthread_create(&w, nullptr, watchdog, nullptr);
    Rng r{ mix(seed * 3 + 1) };
    timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] { clock_gettime(CLOCK_MONOTONIC, &t); return (double)(t.tv_sec - t0.tv_sec) + 1e-9 * (double)(t.tv_nsec - t0.tv_nsec); };
    const int32_t lo = INT32_MIN, hi = INT32_MAX;
    uint64_t round = 0;
    do {
        ++round;
        faults = (int)r.below(3);
        bodyPause = (int)r.below(3);
        reduce = r.below(3) == 0;
        // 1. all small sizes at some offset, including empty and reversed ranges
        const int32_t off = (int32_t)r.next();
        for(int i = 0; i < 24; ++i) {
            const int32_t n = (int32_t)r.below(90);
            const int32_t b = off > hi - 200 ? off - 200 : off < lo + 200 ? off + 200 : off;
            loop(b, r.below(12) == 0 ? b - (int32_t)r.below(40) : b + n, (int)r.below(24), false);
        }
        // 2. medium sizes, close to multiples of the number of threads and of the chunk alignment
        for(int i = 0; i < 6; ++i) {
            const int32_t n = (int32_t)(16 * r.below(250) + r.below(20));
            loop((int32_t)r.below(100000) - 50000, 0, (int)r.below(24), true);
            const int32_t b = (int32_t)r.below(2000000) - 1000000;
            loop(b, b + n, (int)r.below(24), false);
        }
        if(r.below(8) == 0) loop(-7, -7 + (int32_t)r.below(N - 1), (int)r.below(24), false);
        // 3. the ends of the integers: only the chunks are looked at
        for(int i = 0; i < 6; ++i) {
            int32_t b, e;
            switch(r.below(6)) {
                case 0: e = hi - (int32_t)r.below(20); b = e - (int32_t)r.below(100); break;
                case 1: b = lo + (int32_t)r.below(20); e = b + (int32_t)r.below(100); break;
                case 2: b = lo + (int32_t)r.below(20); e = hi - (int32_t)r.below(20); break;
                case 3: b = -(int32_t)r.below(1u << 30); e = hi - (int32_t)r.below(20); break;
                case 4: b = lo + (int32_t)r.below(20); e = (int32_t)r.below(1u << 30); break;
                default: b = (int32_t)r.next(); e = (int32_t)r.next(); break;
            }
            loop(b, e, (int)r.below(24), true);
        }
        // 4. one loop often enough to go through sampling, the choice of a number of threads, and afterwards
        if(round % 4 == 1) {
            const int32_t n = (int32_t)(16 + r.below(64)), b = (int32_t)r.below(1000);
            const int k = (int)r.below(24);
            const int times = (int)(150 + r.below(120));
            for(int i = 0; i < times; ++i) {
                loop(b, b + n, k, i % 3 == 0);
                if(r.below(20) == 0) loop(b, b + n + (int32_t)r.below(3), (int)r.below(24), true);
            }
            ++shapes;
        }
    } while(elapsed() < budget);
    printf("loops %lu iterations %lu rounds %lu sampled_shapes %lu layouts %zu waits %lu wakes %lu spurious %lu workers %lu", (unsigned long)loops,
           (unsigned long)iterations, (unsigned long)round, (unsigned long)shapes, layouts.size(), (unsigned long)nWait.load(), (unsigned long)nWake.load(),
           (unsigned long)nSpurious.load(), (unsigned long)nClone.load());
    for(auto& [c, n] : byChunks) printf(" chunks%d %lu", c, (unsigned long)n);
    printf("\nOK\n");
    fflush(stdout);
    _exit(0);
}
