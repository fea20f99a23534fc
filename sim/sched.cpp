// Scheduler: every simulated thread is a real thread that is parked unless it is the one chosen to run.
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <exception>
#include <execinfo.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

#include "rt.h"

extern "C" char __etext;
extern "C" void hsim_text_begin();
extern "C" void hsim_text_end();

namespace rt {

uint64_t Rng::geometric(double mean)
{
    if (mean <= 1)
        return 1;
    double u = unit();
    if (u < 1e-12)
        u = 1e-12;
    double g = -std::log(u) * mean;
    if (g > 1e15)
        g = 1e15;
    return 1 + (uint64_t)g;
}
uint64_t Rng::logu(double lo, double hi)
{
    double l = std::log(lo < 1 ? 1 : lo), h = std::log(hi);
    return (uint64_t)std::exp(l + unit() * (h - l));
}

void (*on_fatal)(const char*, const std::string&) = nullptr;
int no_preempt = 0;

namespace {
enum State
{
    RUNNABLE,
    BLOCKED,
    SLEEPING, // timed, possibly also blocked on an object
    QUIET, // waits until nothing else can run
    DONE
};
struct Thread
{
    int id = 0;
    State st = DONE;
    const void* obj = nullptr;
    uint64_t until = 0;
    bool timed_out = false;
    bool is_cond = false;
    bool woken = false;
    std::atomic<int> go { 0 };
    uint64_t lsteps = 0;
    const char* name = "";
    void* (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* ret = nullptr;
    pthread_t real {};
    uintptr_t stack_lo = 0, stack_hi = 0;
    int prio = 0;
    size_t dev_pos = 0;
    bool joined = false;
};
constexpr int MAXT = 200;
Thread th[MAXT];
int nth = 0;
int cur = -1;
bool on = false;
SchedConfig cfg;
Rng rng(1), frng(1);
Stats st_;
uint64_t now_ = 0;
int64_t clock_shift = 0;
uint64_t sync_left, shared_left, mem_left;
uint64_t hash_ = 1469598103934665603ull;
std::vector<Deviation> rec;
std::vector<Deviation> ex[MAXT];
uint64_t next_timer = ~0ull;
uint64_t pct_points[16];
int pct_low = 0;

inline void hash_u(uint64_t v)
{
    hash_ = (hash_ ^ v) * 1099511628211ull;
    hash_ ^= hash_ >> 29;
}

// errno belongs to the program: a wait that was not needed must not leave EAGAIN behind
void futex_wait(std::atomic<int>* a)
{
    const int e = errno;
    while (a->load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int*)a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    a->store(0, std::memory_order_relaxed);
    errno = e;
}
void futex_wake(std::atomic<int>* a)
{
    const int e = errno;
    a->store(1, std::memory_order_release);
    syscall(SYS_futex, (int*)a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
    errno = e;
}

uint64_t draw_gap(double mean) { return mean <= 0 ? ~0ull : rng.geometric(mean); }

void update_timer()
{
    next_timer = ~0ull;
    for (int i = 0; i < nth; ++i)
        if (th[i].st == SLEEPING && th[i].until < next_timer)
            next_timer = th[i].until;
}
void fire_timers()
{
    if (now_ < next_timer)
        return;
    for (int i = 0; i < nth; ++i)
        if (th[i].st == SLEEPING && th[i].until <= now_)
        {
            th[i].st = RUNNABLE;
            th[i].timed_out = true;
            th[i].obj = nullptr;
        }
    update_timer();
}

void switch_to(int n)
{
    int me = cur;
    if (n == me)
        return;
    ++st_.switches;
    hash_u((uint64_t)n * 0x10001 + st_.steps);
    cur = n;
    futex_wake(&th[n].go);
    futex_wait(&th[me].go);
}

// candidates for running (may include the current thread)
int candidates(int* out)
{
    int n = 0;
    for (int i = 0; i < nth; ++i)
        if (th[i].st == RUNNABLE)
            out[n++] = i;
    return n;
}

int pick_default(const int* c, int n)
{
    if (th[cur].st == RUNNABLE)
        return cur;
    // round robin after the current thread
    for (int i = 0; i < n; ++i)
        if (c[i] > cur)
            return c[i];
    return c[0];
}

int pick(bool forced)
{
    int c[MAXT];
    int n = candidates(c);
    if (n == 0)
        return -1;
    int def = pick_default(c, n);
    int choice = def;
    Thread& t = th[cur];
    switch (cfg.policy)
    {
        case 9: {
            auto& v = ex[cur];
            while (t.dev_pos < v.size() && v[t.dev_pos].at < t.lsteps)
                ++t.dev_pos;
            if (t.dev_pos < v.size() && v[t.dev_pos].at == t.lsteps)
            {
                int to = v[t.dev_pos].to;
                ++t.dev_pos;
                if (to >= 0 && to < nth && th[to].st == RUNNABLE)
                    choice = to;
            }
            break;
        }
        case 0:
            if (forced)
                choice = c[rng.below(n)];
            break;
        case 1:
            choice = c[rng.below(n)];
            break;
        case 2: {
            int best = c[0];
            for (int i = 1; i < n; ++i)
                if (th[c[i]].prio > th[best].prio)
                    best = c[i];
            choice = best;
            break;
        }
        case 3: {
            int d[MAXT], m = 0;
            for (int i = 0; i < n; ++i)
                if (c[i] != cfg.victim)
                    d[m++] = c[i];
            if (m == 0 || rng.chance(0.01))
                choice = c[rng.below(n)];
            else
                choice = d[rng.below(m)];
            break;
        }
    }
    if (choice != def)
        rec.push_back({ cur, t.lsteps, choice });
    return choice;
}

void step()
{
    ++st_.steps;
    ++now_;
    ++th[cur].lsteps;
    if (st_.steps > cfg.max_steps)
        fatal("step-limit", describe_threads());
    if (cfg.policy == 2)
    {
        for (int i = 0; i < cfg.pct_depth; ++i)
            if (pct_points[i] == st_.steps)
                th[cur].prio = --pct_low;
    }
    if (now_ >= next_timer)
        fire_timers();
}

void preempt()
{
    int n = pick(false);
    if (n >= 0 && n != cur)
    {
        ++st_.preemptions;
        switch_to(n);
    }
}

// the current thread cannot continue: run someone else, advance time if needed
void block_current()
{
    int saved_np = no_preempt;
    no_preempt = 0;
    struct Restore
    {
        int v;
        ~Restore() { no_preempt = v; }
    } restore { saved_np };
    step();
    for (;;)
    {
        int n = pick(true);
        if (n >= 0)
        {
            switch_to(n);
            return;
        }
        if (next_timer != ~0ull)
        {
            if (next_timer > now_)
            {
                ++st_.time_jumps;
                now_ = next_timer;
            }
            fire_timers();
            continue;
        }
        // nothing can run: wake a thread that waits for that (those that wait for nothing else first)
        int q = -1;
        for (int i = nth - 1; i >= 0; --i)
            if (th[i].st == QUIET && (q < 0 || th[q].obj || !th[i].obj))
                q = i;
        if (q >= 0)
        {
            th[q].st = RUNNABLE;
            th[q].timed_out = true;
            th[q].obj = nullptr;
        }
        int c[MAXT];
        if (candidates(c) == 0)
            fatal("deadlock", describe_threads());
    }
}

void maybe_spurious()
{
    if (cfg.spurious <= 0)
        return;
    for (int i = 0; i < nth; ++i)
        if (i != cur && th[i].is_cond && (th[i].st == BLOCKED || th[i].st == SLEEPING) && frng.chance(cfg.spurious))
        {
            th[i].st = RUNNABLE;
            th[i].obj = nullptr;
            th[i].woken = true;
            ++st_.spurious_wakeups;
            hash_u(0x5555 + i);
        }
}

void* trampoline(void* p)
{
    Thread* t = (Thread*)p;
    // alternate signal stack so that a stack overflow is reported
    stack_t ss {};
    ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    futex_wait(&t->go);
    t->ret = t->fn(t->arg);
    t->st = DONE;
    hash_u(0xD07E0000 + t->id);
    for (int i = 0; i < nth; ++i)
        if (th[i].obj == t && th[i].st != DONE && th[i].st != RUNNABLE)
        {
            th[i].st = RUNNABLE;
            th[i].obj = nullptr;
        }
    block_current(); // never returns: nobody switches to a finished thread
    for (;;)
        pause();
}

constexpr uintptr_t STACKS = 0x300000000000ull;

int create(void* (*fn)(void*), void* arg, const char* name)
{
    if (nth >= MAXT)
        fatal("too-many-threads", "");
    int id = nth++;
    Thread& t = th[id];
    t.id = id;
    t.fn = fn;
    t.arg = arg;
    t.name = name;
    t.st = RUNNABLE;
    t.go.store(0);
    t.prio = cfg.policy == 2 ? (int)rng.below(1000000) : 0;
    static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) =
        (decltype(real_create))dlsym(RTLD_NEXT, "pthread_create");
    pthread_attr_t at;
    pthread_attr_init(&at);
    constexpr size_t SZ = 16u << 20;
    // at a fixed address: objects on the stack of one thread are shared with others
    void* stk = mmap((void*)(STACKS + (uintptr_t)id * (64u << 20)), SZ, PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK | MAP_FIXED_NOREPLACE, -1, 0);
    if (stk == MAP_FAILED)
        fatal("no-stack", "");
    mprotect(stk, 4096, PROT_NONE);
    pthread_attr_setstack(&at, (char*)stk + 4096, SZ - 4096);
    t.stack_lo = (uintptr_t)stk;
    t.stack_hi = (uintptr_t)stk + SZ;
    int rc = real_create(&t.real, &at, trampoline, &t);
    pthread_attr_destroy(&at);
    if (rc != 0)
        fatal("pthread-create-failed", std::to_string(rc));
    ++st_.threads;
    return id;
}
} // namespace

bool active() { return on; }
int self() { return on ? cur : -1; }
uint64_t steps() { return st_.steps; }
uint64_t now_us() { return now_; }
void shift_clock(int64_t us) { clock_shift += us; }
const Stats& stats() { return st_; }
const std::vector<Deviation>& recorded() { return rec; }
uint64_t trace_hash() { return hash_; }
void hash_in(const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i)
        hash_ = (hash_ ^ c[i]) * 1099511628211ull;
}

void begin(const SchedConfig& c)
{
    cfg = c;
    rng = Rng(c.seed * 2 + 1);
    frng = Rng(c.seed * 2 + 77);
    for (auto& d : c.explicit_devs)
        if (d.tid >= 0 && d.tid < MAXT)
            ex[d.tid].push_back(d);
    sync_left = draw_gap(cfg.sync_mean);
    shared_left = draw_gap(cfg.shared_mean);
    mem_left = draw_gap(cfg.mem_mean);
    if (cfg.pct_depth > 16)
        cfg.pct_depth = 16;
    for (int i = 0; i < cfg.pct_depth; ++i)
        pct_points[i] = 1 + rng.below(cfg.pct_span);
    nth = 1;
    cur = 0;
    th[0].id = 0;
    th[0].st = RUNNABLE;
    th[0].name = "main";
    th[0].prio = cfg.policy == 2 ? (int)rng.below(1000000) : 0;
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    th[0].stack_hi = sp + (1 << 20);
    th[0].stack_lo = sp - (8 << 20);
    on = true;
}

void point(Point p)
{
    if (!on || no_preempt)
        return;
    step();
    if (cfg.policy == 9)
    {
        Thread& t = th[cur];
        auto& v = ex[cur];
        while (t.dev_pos < v.size() && v[t.dev_pos].at < t.lsteps)
            ++t.dev_pos;
        if (p == Point::sync)
            maybe_spurious();
        if (t.dev_pos < v.size() && v[t.dev_pos].at == t.lsteps)
            preempt();
        return;
    }
    switch (p)
    {
        case Point::sync:
            ++st_.sync_points;
            maybe_spurious();
            if (cfg.policy == 2)
                preempt();
            else if (--sync_left == 0)
            {
                sync_left = draw_gap(cfg.sync_mean);
                preempt();
            }
            break;
        case Point::shared:
            ++st_.shared_points;
            if (cfg.policy == 2)
                preempt();
            else if (--shared_left == 0)
            {
                shared_left = draw_gap(cfg.shared_mean);
                preempt();
            }
            break;
        case Point::mem:
            ++st_.mem_points;
            if (--mem_left == 0)
            {
                mem_left = draw_gap(cfg.mem_mean);
                preempt();
            }
            break;
    }
}

void sleep_us(uint64_t us)
{
    Thread& t = th[cur];
    t.st = SLEEPING;
    t.obj = nullptr;
    t.until = now_ + (us ? us : 1);
    update_timer();
    block_current();
}

static void block_inner(const void* obj, uint64_t until, bool cond)
{
    Thread& t = th[cur];
    t.obj = obj;
    t.is_cond = cond;
    t.timed_out = false;
    t.woken = false;
    if (until != ~0ull)
    {
        t.st = SLEEPING;
        t.until = until;
        update_timer();
    }
    else
        t.st = BLOCKED;
    block_current();
    t.is_cond = false;
    t.obj = nullptr;
}
void block_on(const void* obj) { block_inner(obj, ~0ull, false); }
void wake(const void* obj)
{
    for (int i = 0; i < nth; ++i)
        if (th[i].obj == obj && (th[i].st == BLOCKED || th[i].st == SLEEPING || th[i].st == QUIET))
        {
            th[i].st = RUNNABLE;
            th[i].obj = nullptr;
            th[i].woken = true;
        }
    update_timer();
}
bool wait_quiet(const void* obj)
{
    th[cur].st = QUIET;
    th[cur].obj = obj;
    th[cur].timed_out = false;
    block_current();
    return !th[cur].timed_out;
}
namespace {
void* run_fn(void* p)
{
    auto* f = (std::function<void()>*)p;
    (*f)();
    delete f;
    return nullptr;
}
} // namespace
int spawn(std::function<void()> f, const char* name) { return create(run_fn, new std::function<void()>(std::move(f)), name); }
bool thread_done(int tid) { return th[tid].st == DONE; }
int live_threads()
{
    int n = 0;
    for (int i = 0; i < nth; ++i)
        if (i != cur && th[i].st != DONE)
            ++n;
    return n;
}
void set_name(const char* n) { th[cur].name = n; }

std::string describe_threads()
{
    std::string s;
    for (int i = 0; i < nth; ++i)
    {
        static const char* names[] = { "runnable", "blocked", "sleeping", "quiet", "done" };
        if (th[i].st == DONE)
            continue;
        s += "T" + std::to_string(i) + "(" + th[i].name + ")=" + names[th[i].st] + (i == cur ? "*" : "") + " ";
    }
    return s;
}

std::string backtrace_text(int skip)
{
    void* a[24];
    int n = backtrace(a, 24);
    std::string s;
    char b[32];
    for (int i = skip; i < n; ++i)
    {
        if ((uintptr_t)a[i] >= 0x10000000)
            continue; // shared libraries are loaded at varying addresses
        snprintf(b, sizeof b, "%p ", a[i]);
        s += b;
    }
    return s;
}

void fatal(const char* kind, const std::string& detail)
{
    static bool in_fatal = false;
    bool was_on = on;
    on = false;
    if (!in_fatal && on_fatal && was_on)
    {
        in_fatal = true;
        on_fatal(kind, detail);
    }
    fprintf(stderr, "FATAL %s %s\n%s\n", kind, detail.c_str(), backtrace_text(1).c_str());
    _exit(98);
}

namespace {
void crash_handler(int sig, siginfo_t* si, void*)
{
    char b[64];
    snprintf(b, sizeof b, "signal %d", sig);
    (void)si;
    std::string s = b;
    s += " in thread " + std::string(cur >= 0 ? th[cur].name : "?") + " at " + backtrace_text(2);
    fatal("crash", s);
}
int cpu_limit = 20;
void cpu_handler(int)
{
    fatal("hang", "no end after " + std::to_string(cpu_limit) + " s of processor time, in thread " + std::string(cur >= 0 ? th[cur].name : "?"));
}
void term_handler()
{
    std::string what = "std::terminate";
    if (auto e = std::current_exception())
    {
        try
        {
            std::rethrow_exception(e);
        }
        catch (const std::exception& x)
        {
            what += std::string(": ") + x.what();
        }
        catch (...)
        {
            what += ": unknown exception";
        }
    }
    fatal("crash", what + " in thread " + std::string(cur >= 0 ? th[cur].name : "?") + " at " + backtrace_text(2));
}
} // namespace

void install_crash_handlers(int cpu_seconds)
{
    void* warm[2];
    backtrace(warm, 2);
    stack_t ss {};
    ss.ss_sp = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = 65536;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_sigaction = crash_handler;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT })
        sigaction(s, &sa, nullptr);
    // a loop without any scheduling point (processor time, so that a loaded machine makes no difference)
    struct sigaction sc {};
    sc.sa_handler = cpu_handler;
    sc.sa_flags = SA_ONSTACK;
    sigaction(SIGXCPU, &sc, nullptr);
    cpu_limit = cpu_seconds;
    rlimit rl { (rlim_t)cpu_seconds, (rlim_t)cpu_seconds * 3 };
    setrlimit(RLIMIT_CPU, &rl);
    std::set_terminate(term_handler);
}

// ---- access hooks used by the instrumentation -------------------------------------------------------------------
namespace {
struct Gran
{
    uint32_t tag;
    uint8_t first;
    uint8_t shared;
};
constexpr size_t GN = 1 << 18;
Gran gran[GN];
} // namespace

void access(const void* p, bool atomic)
{
    if (!on || no_preempt)
        return;
    uintptr_t a = (uintptr_t)p;
    Thread& t = th[cur];
    if (a >= t.stack_lo && a < t.stack_hi)
        return;
    if (is_freed(p))
        fatal("use-after-free", std::string("in thread ") + t.name + " at " + backtrace_text(2));
    if (a >= 0x400000000000ull)
    {
        // inside shared libraries, whose addresses vary
        point(atomic ? Point::shared : Point::mem);
        return;
    }
    uint64_t g = a >> 3;
    Gran& e = gran[(g ^ (g >> 18)) & (GN - 1)];
    if (e.tag != (uint32_t)g)
    {
        e.tag = (uint32_t)g;
        e.first = (uint8_t)cur;
        e.shared = 0;
    }
    else if (e.first != (uint8_t)cur)
        e.shared = 1;
    point(e.shared || atomic ? Point::shared : Point::mem);
}

} // namespace rt

// ---- pthread interposition --------------------------------------------------------------------------------------
using namespace rt;

namespace {
bool quiet_caller(void* ra)
{
    // locks taken inside the ANTLR runtime and libstdc++ are simulated, but are not preemption points
    return !((uintptr_t)ra >= (uintptr_t)&hsim_text_begin && (uintptr_t)ra < (uintptr_t)&hsim_text_end);
}
struct SMutex
{
    int owner1; // owner + 1
    unsigned count;
    int pad[2];
    int kind; // glibc: __kind
};
static_assert(sizeof(SMutex) <= sizeof(pthread_mutex_t));
int m_lock(pthread_mutex_t* m, bool quiet)
{
    auto* s = (SMutex*)m;
    if (!on)
        return 0;
    if (rt::is_freed(m))
        fatal("use-after-free", "mutex lock in thread " + std::string(th[cur].name) + " at " + backtrace_text(2));
    if (!quiet)
        point(Point::sync);
    if (s->owner1 == cur + 1 && (s->kind & 3) == PTHREAD_MUTEX_RECURSIVE)
    {
        ++s->count;
        return 0;
    }
    while (s->owner1 != 0)
    {
        ++st_.lock_contention;
        block_inner(m, ~0ull, false);
        if (rt::is_freed(m))
            fatal("use-after-free", "mutex freed while waiting for it");
    }
    s->owner1 = cur + 1;
    s->count = 1;
    return 0;
}
int m_unlock(pthread_mutex_t* m, bool quiet)
{
    auto* s = (SMutex*)m;
    if (!on)
        return 0;
    if (rt::is_freed(m))
        fatal("use-after-free", "mutex unlock in thread " + std::string(th[cur].name) + " at " + backtrace_text(2));
    if (s->owner1 != cur + 1)
        fatal("bad-unlock", "mutex not held by the unlocking thread " + std::string(th[cur].name) + " at " + backtrace_text(2));
    if (--s->count == 0)
    {
        s->owner1 = 0;
        wake(m);
        if (!quiet)
            point(Point::sync);
    }
    return 0;
}
int c_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t until)
{
    if (!on)
        return 0;
    point(Point::sync);
    ++st_.cond_waits;
    auto* s = (SMutex*)m;
    unsigned cnt = s->count;
    if (s->owner1 != cur + 1)
        fatal("bad-unlock", "condition wait without holding the mutex");
    s->owner1 = 0;
    s->count = 0;
    wake(m);
    block_inner(c, until, true);
    bool to = th[cur].timed_out && !th[cur].woken;
    if (rt::is_freed(m) || rt::is_freed(c))
        fatal("use-after-free", "condition variable freed while waiting for it");
    while (s->owner1 != 0)
        block_inner(m, ~0ull, false);
    s->owner1 = cur + 1;
    s->count = cnt;
    return to ? ETIMEDOUT : 0;
}
uint64_t abs_to_sim(const timespec* ts, clockid_t clk);
} // namespace

namespace {
constexpr int64_t EPOCH_US = 1640995200ll * 1000000; // 2022-01-01
int64_t wall_us() { return EPOCH_US + (int64_t)now_ + clock_shift; }
uint64_t abs_to_sim(const timespec* ts, clockid_t clk)
{
    int64_t us = (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
    int64_t base = clk == CLOCK_REALTIME ? wall_us() : (int64_t)now_;
    int64_t d = us - base;
    return now_ + (d > 0 ? (uint64_t)d : 1);
}
} // namespace

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    if (a)
    {
        int k = 0;
        pthread_mutexattr_gettype(a, &k);
        ((SMutex*)m)->kind = k;
    }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { return m_lock(m, quiet_caller(__builtin_return_address(0))); }
int pthread_mutex_unlock(pthread_mutex_t* m) { return m_unlock(m, quiet_caller(__builtin_return_address(0))); }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    auto* s = (SMutex*)m;
    if (!on)
        return 0;
    point(Point::sync);
    if (s->owner1 == cur + 1 && (s->kind & 3) == PTHREAD_MUTEX_RECURSIVE)
    {
        ++s->count;
        return 0;
    }
    if (s->owner1)
        return EBUSY;
    s->owner1 = cur + 1;
    s->count = 1;
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
    auto* s = (SMutex*)m;
    if (!on)
        return 0;
    point(Point::sync);
    uint64_t until = abs_to_sim(ts, CLOCK_REALTIME);
    while (s->owner1)
    {
        if (now_ >= until)
            return ETIMEDOUT;
        block_inner(m, until, false);
    }
    s->owner1 = cur + 1;
    s->count = 1;
    return 0;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    auto* s = (SMutex*)m;
    if (!on)
        return 0;
    point(Point::sync);
    uint64_t until = abs_to_sim(ts, c);
    while (s->owner1)
    {
        if (now_ >= until)
            return ETIMEDOUT;
        block_inner(m, until, false);
    }
    s->owner1 = cur + 1;
    s->count = 1;
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
{
    memset(c, 0, sizeof *c);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (on)
        for (int i = 0; i < nth; ++i)
            if (th[i].obj == c && th[i].st != DONE)
                fatal("bad-destroy", "condition variable destroyed while a thread waits for it");
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return c_wait(c, m, ~0ull); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    return c_wait(c, m, abs_to_sim(ts, CLOCK_REALTIME));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    return c_wait(c, m, abs_to_sim(ts, k));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!on)
        return 0;
    if (rt::is_freed(c))
        fatal("use-after-free", "condition notify in thread " + std::string(th[cur].name) + " at " + backtrace_text(2));
    point(Point::sync);
    if (rt::is_freed(c))
        fatal("use-after-free", "condition notify in thread " + std::string(th[cur].name) + " at " + backtrace_text(2));
    int w[MAXT], n = 0;
    for (int i = 0; i < nth; ++i)
        if (th[i].obj == c && (th[i].st == BLOCKED || th[i].st == SLEEPING))
            w[n++] = i;
    if (n)
    {
        Thread& t = th[w[n > 1 ? frng.below(n) : 0]];
        t.st = RUNNABLE;
        t.obj = nullptr;
        t.woken = true;
        update_timer();
    }
    point(Point::sync);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!on)
        return 0;
    if (rt::is_freed(c))
        fatal("use-after-free", "condition notify in thread " + std::string(th[cur].name) + " at " + backtrace_text(2));
    point(Point::sync);
    wake(c);
    point(Point::sync);
    return 0;
}
int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*fn)(void*), void* arg)
{
    if (!on)
    {
        static int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) =
            (decltype(real))dlsym(RTLD_NEXT, "pthread_create");
        return real(out, a, fn, arg);
    }
    point(Point::sync);
    int id = create(fn, arg, "worker");
    *out = (pthread_t)(uintptr_t)&th[id];
    point(Point::sync);
    return 0;
}
int pthread_join(pthread_t p, void** ret)
{
    Thread* t = (Thread*)(uintptr_t)p;
    if (t < th || t >= th + MAXT)
        return ESRCH;
    point(Point::sync);
    if (t->joined)
        fatal("bad-join", "thread joined twice");
    while (t->st != DONE)
        block_inner(t, ~0ull, false);
    t->joined = true;
    if (ret)
        *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }

// rwlock: __readers in the first word, writer + 1 in the second
int pthread_rwlock_rdlock(pthread_rwlock_t* l)
{
    if (!on)
        return 0;
    int* w = (int*)l;
    if (!quiet_caller(__builtin_return_address(0)))
        point(Point::sync);
    while (w[1])
        block_inner(l, ~0ull, false);
    ++w[0];
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l)
{
    if (!on)
        return 0;
    int* w = (int*)l;
    if (!quiet_caller(__builtin_return_address(0)))
        point(Point::sync);
    while (w[0] || w[1])
        block_inner(l, ~0ull, false);
    w[1] = cur + 1;
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* l)
{
    if (!on)
        return 0;
    int* w = (int*)l;
    if (w[1])
        w[1] = 0;
    else if (w[0])
        --w[0];
    else
        fatal("bad-unlock", "rwlock not held");
    wake(l);
    if (!quiet_caller(__builtin_return_address(0)))
        point(Point::sync);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
{
    int* w = (int*)l;
    if (on && w[1])
        return EBUSY;
    if (on)
        ++w[0];
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
{
    int* w = (int*)l;
    if (on && (w[1] || w[0]))
        return EBUSY;
    if (on)
        w[1] = cur + 1;
    return 0;
}
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*)
{
    memset(l, 0, sizeof *l);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) { return 0; }

int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    volatile int* s = (volatile int*)o;
    for (;;)
    {
        if (*s == 2)
            return 0;
        if (*s == 0)
            break;
        if (!on)
            abort();
        block_inner((const void*)o, ~0ull, false);
    }
    *s = 1;
    try
    {
        fn();
    }
    catch (...)
    {
        *s = 0;
        if (on)
            wake(o);
        throw;
    }
    *s = 2;
    if (on)
        wake(o);
    return 0;
}

int __cxa_guard_acquire(long long int* g)
{
    uint8_t* b = (uint8_t*)g;
    for (;;)
    {
        if (b[0])
            return 0;
        if (!b[1])
        {
            b[1] = 1;
            return 1;
        }
        if (!on)
            abort();
        block_inner(g, ~0ull, false);
    }
}
void __cxa_guard_release(long long int* g)
{
    uint8_t* b = (uint8_t*)g;
    b[1] = 0;
    b[0] = 1;
    if (on)
        wake(g);
}
void __cxa_guard_abort(long long int* g)
{
    uint8_t* b = (uint8_t*)g;
    b[1] = 0;
    if (on)
        wake(g);
}

int nanosleep(const timespec* ts, timespec*)
{
    if (on)
        rt::sleep_us((uint64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000);
    return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec*)
{
    if (!on)
        return 0;
    uint64_t until = flags ? abs_to_sim(ts, c) : now_ + (uint64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
    rt::sleep_us(until > now_ ? until - now_ : 1);
    return 0;
}
int usleep(useconds_t u)
{
    if (on)
        rt::sleep_us(u);
    return 0;
}
int sched_yield()
{
    if (on)
    {
        // a yielding loop must not spin for ever: let time pass
        rt::sleep_us(1);
    }
    return 0;
}
int clock_gettime(clockid_t c, timespec* ts)
{
    int64_t us = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wall_us() : (int64_t)now_;
    ts->tv_sec = us / 1000000;
    ts->tv_nsec = (us % 1000000) * 1000;
    return 0;
}
time_t time(time_t* t)
{
    time_t r = (time_t)(wall_us() / 1000000);
    if (t)
        *t = r;
    return r;
}
int gettimeofday(timeval* tv, void*)
{
    int64_t us = wall_us();
    tv->tv_sec = us / 1000000;
    tv->tv_usec = us % 1000000;
    return 0;
}
}
