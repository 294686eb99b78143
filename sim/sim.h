// Deterministic simulator core: seams (storage, allocator, process exit, clock,
// randomness, thread scheduling), plans, fault injection, accounting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <csetjmp>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;

struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 a, i64 b) { return a + (i64) below((u64) (b - a + 1)); }
    bool chance(int pct) { return (int) below(100) < pct; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};
u64 mix(u64 a, u64 b);
u64 hash_str(const std::string &s);

struct Item { std::string k; std::vector<i64> a; };
struct Plan {
    std::string prop; u64 seed = 0; std::vector<Item> items;
    std::string text() const;
    static bool parse(const std::string &text, Plan &p);
    void add(const std::string &k, std::vector<i64> a = {}) { items.push_back({k, a}); }
    i64 cfg(const std::string &k, i64 dflt) const;             // last item of that kind, first arg
    const Item *find(const std::string &k) const;
    std::vector<const Item *> all(const std::string &k) const;
};
inline i64 arg(const Item &it, size_t i, i64 d = 0) { return i < it.a.size() ? it.a[i] : d; }
inline i64 clampi(i64 v, i64 lo, i64 hi) { return v < lo ? lo : v > hi ? hi : v; }
inline i64 argc_(const Item &it, size_t i, i64 lo, i64 hi) { return clampi(arg(it, i, lo), lo, hi); }

// ---- accounting -----------------------------------------------------------
void count(const char *name, u64 n = 1);           // fault kinds fired, probes reached
void trace(u64 v);                                  // event hash of this run
void trace_s(const std::string &s);
void note(const std::string &s);                    // human readable event (only kept in replay mode)
extern bool g_verbose;

struct Violation { std::string cls; std::string msg; };
struct Violated { };                                // thrown by fail()
[[noreturn]] void fail(const std::string &cls, const std::string &msg);
void check(bool ok, const char *cls, const std::string &msg);
void sim_time(double seconds);                      // simulated clock advance (statistics)
void nontrivial();                                  // this run exercised what the property is about

// ---- harness guard: code inside runs with all seams off -------------------
struct Harness { int saved; Harness(); ~Harness(); };

// ---- running code under test ------------------------------------------------
enum Outcome { RET, THREW_BADALLOC, THREW_OTHER, EXITED, CRASHED };
struct Result { Outcome o; int exit_code; std::string what; };
// runs f with all seams on in the calling thread
Result in_code(const std::function<void()> &f);

// ---- storage ----------------------------------------------------------------
struct StreamFault {                 // faults on one opened stream (n-th open of a path)
    int open_errno = 0;              // open fails with this errno
    i64 eio_at = -1;                 // read/write touching this byte offset fails with EIO
    int eio_sticky = 1;
    i64 full_at = -1;                // writes beyond this offset: ENOSPC
    i64 crash_at = -1;               // process is killed when this byte would be stored
    int close_errno = 0;             // close reports this error
    i64 close_drop = 0;              // and this many trailing bytes are lost
    i64 chunk = 0;                   // max bytes moved per system call (0: unlimited)
    u64 chunk_seed = 0;              // != 0: random chunk sizes in 1..chunk
    i64 bufsize = -1;                // stdio buffer size knob (-1: default)
};
struct Disk {
    std::map<std::string, std::string> files;
    std::map<std::string, std::vector<StreamFault>> faults;  // consumed one per open of the path
    std::set<std::string> opened_w;
    u64 opens = 0;
    void reset();
    void put(const std::string &p, const std::string &d) { files[p] = d; }
    void fault(const std::string &p, const StreamFault &f) { faults[p].push_back(f); }
};
Disk &disk();
int open_handles();                  // streams open right now
void drop_handles();                 // process death: forget them
struct CrashPoint {};

struct Range { const char *b, *e; int id; };
Range global_range();
// ---- allocator ----------------------------------------------------------------
struct AllocCtl {
    i64 fail_at = -1;                // index (1-based) of the in-code allocation that fails
    bool fail_sticky = false;        // all from there on
    int fill = 0xA5;                 // content of fresh memory
    i64 counted = 0;                 // in-code allocations since reset
    i64 failed = 0;
    u64 limit_one = 256ull << 20;
    i64 limit_hits = 0;
};
AllocCtl &alloc();
i64 live_blocks();                   // tracked blocks still allocated
std::string live_report();
void forget_blocks();                // process death: they are gone
std::vector<struct Range> live_ranges();
bool is_live(const void *p);         // p is the start of a live tracked block
size_t live_size(const void *p);
std::vector<std::string> take_mem_errors();   // mismatched frees, double closes, use after close ...
void mem_error(const std::string &s);

// ---- clock and randomness -------------------------------------------------------
struct Clock {
    double now = 1700000000.0;
    std::function<void()> on_read;   // advances/jumps time at each reading
};
Clock &clk();
void seed_rand(u64 s);

// ---- capture of the console -------------------------------------------------------
std::string &con_out(); std::string &con_err();

// ---- scheduling of caller threads -------------------------------------------------
struct Preempt { int thread; u64 at; int to; };
// Runs the bodies as simulated caller threads: one runs at a time; a switch happens
// when the running one reaches a preemption point (its own event counter) or ends.
void run_threads(const std::vector<std::function<void()>> &bodies, const std::vector<Preempt> &pre, int first);
extern std::function<void()> g_on_switch;           // harness callback at every preemption point
u64 my_events();                                     // events of the calling simulated thread
void reset_events();
u64 total_events();
extern u64 g_step_budget;
int switches();                                      // preemptions taken in the last run_threads

// watched memory: stores by code under test into these ranges trigger g_on_guard_store
extern std::vector<Range> g_guard;
extern bool g_guard_hit;
extern std::function<void(int)> g_on_guard_event;
// profile: collect positions (thread event counts) of accesses to given or global memory
extern bool g_profile;
struct Access { u64 at; u64 key; bool store; };
extern std::vector<Access> *g_prof_out;
extern std::vector<Range> g_prof_ranges;

// ---- properties -----------------------------------------------------------------
struct Prop {
    std::string id;
    std::function<void(Rng &, Plan &, int tier)> gen;
    std::function<void(const Plan &)> exec;          // fail() on violation
    int quick_runs, thorough_runs;
    std::vector<Plan> (*directed)(int tier);          // optional fixed scenarios, run first
    std::string rule;
    std::string real, stubs;
    bool isolate = false;                            // every run in a process of its own
};
void register_prop(const Prop &p);
const Prop *find_prop(const std::string &id);
struct Reg { Reg(const Prop &p) { register_prop(p); } };

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
}
