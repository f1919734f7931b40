// Deterministic simulator core: choices, memory arena, coroutines, scheduling,
// fault injection, violation reporting.  One process, one OS thread: nothing
// in here draws on a clock, an address or a thread schedule.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <deque>
#include <array>
#include <map>
#include <memory>
#include <csetjmp>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;

// ---------------------------------------------------------------- choices
// The only source of variation of a run.  In generating mode the values come
// from a PRNG seeded by (VERIF_SEED, property, run index) and are recorded; in
// replay mode they come from a file; 0 is always the simplest alternative.
struct Choices {
    bool replay = false;
    std::vector<u32> in; size_t pos = 0;
    std::vector<u32> rec;
    u64 s = 0, idx = 0;
    static u64 mix(u64& x) { u64 z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u32 pick(u32 n) {
        if (n <= 1) return 0;
        u32 v;
        if (replay) { v = pos < in.size() ? in[pos] % n : 0; ++pos; }
        else v = (u32)(((mix(s) >> 32) * (u64)n) >> 32);
        rec.push_back(v);
        return v;
    }
    bool chance(u32 percent) { return pick(100) >= 100 - (percent > 100 ? 100 : percent); }
    bool permille(u32 p) { return pick(1000) >= 1000 - p; }
    u32 range(u32 lo, u32 hi) { return lo + pick(hi - lo + 1); }
    // index drawn with the given weights; index 0 is the simplest
    u32 weighted(std::initializer_list<u32> w) { u32 t = 0; for (u32 x : w) t += x; u32 v = pick(t), i = 0; for (u32 x : w) { if (v < x) return i; v -= x; ++i; } return 0; }
    // true in every period-th run when generating (a recorded choice like any other), so that costly
    // kinds of run are part of every batch; odd periods spread them over the workers
    bool rare(u64 period, u64 at) { u32 v = replay ? (pos < in.size() ? in[pos] & 1 : 0) : idx % period == at % period; if (replay) ++pos; rec.push_back(v); return v; }
    // a size whose magnitude is uniform in [lo, hi], often at or next to a power of two
    u32 logsize(u32 lo, u32 hi);
    u32 u32val(); // small, extreme or arbitrary 32-bit value
};

// ------------------------------------------------------------------ state
struct Region { uintptr_t lo, hi; bool w; };
struct Scope {
    static const int MAX = 24;
    Region r[MAX]; int n = 0;
    const char* name = "?"; u64 steps = 0, budget = 4000000; Scope* prev = nullptr; uintptr_t top = 0, low = 0; // stack at entry, deepest library frame
    Scope& ro(const void* p, size_t len) { return add(p, len, false); }
    Scope& rw(const void* p, size_t len) { return add(p, len, true); }
    Scope& lim(u64 b) { budget = b; return *this; }
    Scope& add(const void* p, size_t len, bool w);
};

struct Task;
struct Lock { Task* owner = nullptr; };

enum TState { T_READY, T_BLOCKED, T_STALLED, T_DONE, T_DEAD };

struct Image;
struct Task {
    int id = 0; int prio = 0;
    std::string name;
    std::function<void()> body;
    TState st = T_READY;
    Lock* want = nullptr;
    u64 wake = 0;
    Scope* scope = nullptr;       // innermost library call in progress
    bool irq_locked = false;      // no preemption / crash inside (models a critical section)
    bool killable = true, doomed = false;
    std::vector<Lock*> held;
    std::vector<void*> ctx;       // callback context stack (sorts)
    void* user = nullptr;
    void* sp = nullptr;           // coroutine
    int stack = -1;
    u32 calls = 0;
    Image* img = nullptr;         // library variables of the machine this task runs on (default: one shared machine)
};

enum YieldWhy { Y_OPEND, Y_PREEMPT, Y_BLOCK, Y_DONE };

struct Policy {
    u32 mode = 0;      // 0 none 1 sparse 2 mid 3 tight
    bool nest = false; // preemptions behave as interrupts (last in, first out)
    bool stall = false;
    u32 kill_pm = 0;   // per-mille chance that a preemption point kills the task
    u32 max_preempt = 300;
    u32 switch_pct = 50; // chance to switch at an operation boundary
};

struct Violation { bool set = false; std::string cls, msg; };

struct Sim {
    Choices ch;
    Policy pol;
    std::vector<std::unique_ptr<Task>> tasks;
    std::vector<Task*> nest;
    Task* cur = nullptr;
    int64_t countdown = 0;
    u32 preempts = 0;
    u64 steps = 0, switches = 0, ticks = 0;
    bool tracing = false, mute = false; std::string trace;
    u64 digest = 0, inter = 0;    // event digest, interleaving digest
    u32 faults = 0, ops = 0;      // faults fired / library operations completed in this run
    Violation viol;
    std::function<void(Task*)> on_kill;   // workload reaction to a killed task
    std::function<void()> isr_hook;       // workload-specific injection at a preemption point
    u32 dirt = 0; u64 dirt_s = 0;
    bool crowd = false, reuse = false; std::map<u32, std::pair<u8*, size_t>> reused; // same addresses for short-lived buffers
    std::array<std::vector<u8>, 6> fills; u32 nfill = 0; // contents drawn last
    bool sched_on = false;
    u64 min_budget = 0;           // steps every call of the run may take at least
    int heap = 0; std::vector<Region> heaps;      // allocations by library code: 0 all fail, 1 all succeed, 2 drawn
    std::function<void(Scope&, size_t)> on_call;  // a library call ends; stack it used
    bool no_static_writes = false; // the workload forbids calls to write to the library's own variables
    sigjmp_buf jb;
};
extern Sim S;
extern const char* PROP;

// ---------------------------------------------------------------- helpers
inline void dig(u64 v) { S.digest = (S.digest ^ v) * 0x100000001B3ull; S.digest ^= S.digest >> 29; }
void dig_bytes(const void* p, size_t n);
#define LOG(...) do { if (S.tracing && !S.mute) trace_line(__VA_ARGS__); } while (0)
void trace_line(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void cpu_limit(int seconds);
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(c, cls, ...) do { if (!(c)) fail(cls, __VA_ARGS__); } while (0)
std::string hex(const void* p, size_t n);
std::string quote(const void* p, size_t n);

// named counters (fault kinds, probes); index resolved once per call site
int stat_id(const char* name);
void stat_add(int id, u64 n = 1);
#define STAT(name) do { static int id_ = stat_id(name); stat_add(id_); } while (0)
#define FAULT(name) do { static int id_ = stat_id("fault." name); stat_add(id_); ++S.faults; } while (0)
#define PROBE(name) do { static int id_ = stat_id("probe." name); stat_add(id_); } while (0)

// --------------------------------------------------------------- memory
// Everything the library is given lives in the arena, surrounded by red zones,
// and filled with run-determined dirt.
u8* alloc(size_t n, u32 align = 1);
void scribble(void* p, size_t n);                 // overwrite with dirt (crash leaves garbage)
void fill_bytes(void* p, size_t n);               // drawn content, sometimes a variation of earlier content
void almost(void* out, size_t room, const void* want, size_t n); // at times, output room that already holds the right answer or nearly so
void vary(u8* b, size_t n);                       // a small change that may keep length, sum, parity or most bytes
bool in_arena(const void* p);
bool readable_private(const void* p, size_t n);   // own stack or program image
template <class T> T* make() { return (T*)alloc(sizeof(T), alignof(T)); }
template <class T> T* make_n(size_t n) { return (T*)alloc(sizeof(T) * n, alignof(T)); }
u8* dup_bytes(const void* p, size_t n);
char* dup_str(const std::string& s);
// Short-lived buffers.  In some runs a task keeps using the same addresses for
// them, as a node with fixed receive and work buffers does, so that the same
// pointer meets other content; in the others every buffer is a new one.
u8* tmp(size_t n, u32 slot, u32 align = 1);
u8* tmp_bytes(const void* p, size_t n, u32 slot);
inline char* tmp_str(const std::string& s, u32 slot) { return (char*)tmp_bytes(s.c_str(), s.size() + 1, slot); }

// ---------------------------------------------------------------- calls
struct CallGuard {
    Scope& s; explicit CallGuard(Scope& sc); ~CallGuard();
};
template <class F> auto lib_call(Scope& sc, F f) -> decltype(f()) {
    CallGuard g(sc);
    return f();
}
#define CALL(scope_expr, nm, expr) ([&]() { Scope sc_; sc_ scope_expr; sc_.name = nm; return lib_call(sc_, [&]() { return expr; }); }())

// ---------------------------------------------------------------- tasks
Task* spawn(const std::string& name, std::function<void()> body);
void run_tasks();              // until every task is done, dead or permanently blocked
void solo(const char* name, std::function<void()> body, Image* img = nullptr); // run one body alone, without preemption
u32 aged(u64 at, u64 every = 50021); // nonzero in rare runs: how many calls the library has already served before the run proper
void age(u32 n, std::function<void(u32)> call, bool abandon = false, Image* img = nullptr); // make those calls, with work buffers at fixed addresses
void op_end();                 // operation boundary: another task may go next
void lock(Lock& l); void unlock(Lock& l);
void draw_policy(u32 kill_pm = 0, bool allow_nest = true);
u32 crowd(u32 usual, u64 at); // before draw_policy
void preempt_point();          // explicit preemption point (callbacks)

// library statics of both builds: every run starts from the boot image
void image_reset();
struct Image { std::vector<u8> b; };
void image_save(Image& im); void image_load(const Image& im);
void image_boot(Image& im);

// workloads
struct Workload { const char* id; void (*run)(); u32 quick_runs; const char* rule; void (*prepare)() = nullptr; };
extern std::vector<Workload> WL;
void register_workloads();
void self_test_models();
