// Deterministic simulation runtime: owns thread scheduling, time, memory addresses, files and the stdio pipes.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace rt {

// ---- random numbers -------------------------------------------------------------------------------------------
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1)
        : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull)
    {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((uint64_t)(hi - lo + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    uint64_t geometric(double mean); // >= 1
    uint64_t logu(double lo, double hi); // log-uniform integer
};

// ---- scheduling policy of one run -------------------------------------------------------------------------------
struct Deviation
{
    int tid;
    uint64_t at; // the thread's own step count
    int to;
};
struct SchedConfig
{
    uint64_t seed = 1;
    int policy = 0; // 0 run to block, 1 random preemption, 2 PCT, 3 starve one thread, 9 explicit
    double sync_mean = 0; // mean number of sync points between preemptions, 0 = never
    double shared_mean = 0;
    double mem_mean = 0;
    int pct_depth = 0;
    uint64_t pct_span = 100000;
    int victim = -1;
    double spurious = 0; // probability of a spurious wake-up of a condition wait at a sync decision
    uint64_t max_steps = 200000000;
    std::vector<Deviation> explicit_devs;
};

enum class Point
{
    sync,
    shared,
    mem
};

struct Stats
{
    uint64_t steps = 0, switches = 0, preemptions = 0, sync_points = 0, shared_points = 0, mem_points = 0;
    uint64_t spurious_wakeups = 0, threads = 0, cond_waits = 0, lock_contention = 0;
    uint64_t time_jumps = 0;
};

void begin(const SchedConfig& cfg); // the calling thread becomes simulated thread 0
bool active();
int self();
uint64_t steps();
uint64_t now_us();
void shift_clock(int64_t us); // clock jump fault (wall clock only)
const Stats& stats();
const std::vector<Deviation>& recorded();
uint64_t trace_hash();
void hash_in(const void* p, size_t n);

void point(Point p); // scheduling point
void sleep_us(uint64_t us);
void block_on(const void* obj); // until wake(obj)
void wake(const void* obj);
bool wait_quiet(const void* obj = nullptr); // until wake(obj) (true) or until nothing else can run (false)
int spawn(std::function<void()> f, const char* name);
bool thread_done(int tid);
int live_threads(); // number of simulated threads not finished, not counting the caller
void set_name(const char* n);
std::string describe_threads();

// While one of these exists the running thread is executing simulator code and cannot be preempted.
extern int no_preempt;
struct Harness
{
    Harness() { ++no_preempt; }
    ~Harness() { --no_preempt; }
};

// ---- failure reporting ------------------------------------------------------------------------------------------
// Called for crashes, deadlocks, invalid memory accesses ...; never returns.
[[noreturn]] void fatal(const char* kind, const std::string& detail);
extern void (*on_fatal)(const char* kind, const std::string& detail);
void install_crash_handlers(int cpu_seconds);
std::string backtrace_text(int skip);

// ---- memory -----------------------------------------------------------------------------------------------------
void select_arena(int n); // 0: simulation, 1: driver
bool is_freed(const void* p);
size_t arena_bytes();

// ---- virtual files ----------------------------------------------------------------------------------------------
struct FsFault
{
    std::string op; // open | read | short | tear | list | stat | readdir | write
    std::string path; // substring, empty = any
    uint64_t from = 0; // index of the first matching call that fails
    uint64_t count = 1; // how many matching calls fail (0 = none)
    uint64_t at = 0; // tear: offset from which on the file cannot be read
    int err = 5;
    uint64_t seen = 0;
    uint64_t fired = 0;
    bool enabled = true;
};
namespace fs {
void clear();
const std::map<std::string, std::string>& all();
void put(const std::string& path, const std::string& content);
bool remove(const std::string& path);
void mkdir(const std::string& path);
bool exists(const std::string& path);
std::string get(const std::string& path);
std::vector<FsFault>& faults();
uint64_t calls(const std::string& op);
uint64_t reads_of(const std::string& path);
void virtual_on(bool on);
} // namespace fs

// ---- stdio pipes ------------------------------------------------------------------------------------------------
namespace pipe_in { // bytes from the client to the server
void reset();
void push(const std::string& bytes);
void close(); // end of file
size_t pending();
size_t consumed();
} // namespace pipe_in
namespace pipe_out {
void reset(std::function<void(const char*, size_t)> sink);
void break_pipe(); // writes fail from now on
void stall(bool on); // writers block while stalled
bool stalled();
extern size_t max_chunk; // 0 = unlimited
extern size_t max_in_chunk;
extern size_t buffer; // bytes the output holds back until a flush
size_t failed_writes();
} // namespace pipe_out
void install_stdio();
} // namespace rt
