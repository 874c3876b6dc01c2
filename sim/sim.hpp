// Deterministic simulator for pystd: public interface used by the scenarios.
//
// One run = one process = one seed.  Everything the code under test can observe that is not a
// function of its arguments (who runs next, where memory is placed, what a system call answers,
// what another process does to the disk) is decided here through choose().
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <string>

namespace sim {

// ---- choices -------------------------------------------------------------------------------
// Four independent streams, so that removing a fault while shrinking does not change the workload.
enum Stream { WORK = 0, SCHED = 1, FAULT = 2, HEAP = 3, NSTREAM = 4 };
uint32_t choose(Stream s, uint32_t n); // [0,n); 0 is by convention the simplest answer
inline uint32_t pick(uint32_t n) { return choose(WORK, n); }
inline int64_t pickr(int64_t lo, int64_t hi) { return lo + (int64_t)choose(WORK, (uint32_t)(hi - lo + 1)); }
inline bool chance(Stream s, uint32_t num, uint32_t den) { return choose(s, den) + num >= den && num; }
inline bool coin() { return choose(WORK, 2) == 1; }
inline bool flip(uint32_t num, uint32_t den) { return chance(WORK, num, den); }

// ---- logging, verdicts, reach --------------------------------------------------------------
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_ok(); // end the run here, everything observed so far was right
void probe(const char *name);
void fault_fired(const char *kind);
void nontrivial();      // the scenario reached what it is about (counted in the evidence)
void state(uint64_t h); // abstract state reached (for the distinct-state measure)

#define SIM_CHECK(cond, cls, ...)                                                                  \
    do {                                                                                           \
        if(!(cond)) ::sim::fail(cls, __VA_ARGS__);                                                 \
    } while(0)

// ---- scopes --------------------------------------------------------------------------------
// Code under test runs inside a Sut scope: its allocations come from the simulated heap, its
// memory accesses are checked and are scheduling points.  Model code runs in Host scope.
bool in_sut();
bool set_sut(bool v); // returns previous
struct Sut {
    bool prev;
    Sut() : prev(set_sut(true)) {}
    ~Sut() { set_sut(prev); }
};
struct Host {
    bool prev;
    Host() : prev(set_sut(false)) {}
    ~Host() { set_sut(prev); }
};
template<typename F> decltype(auto) sut(F &&f) {
    Sut s;
    return f();
}
template<typename F> decltype(auto) host(F &&f) {
    Host s;
    return f();
}

// ---- faults --------------------------------------------------------------------------------
struct Faults {
    // Allocation: after oom_after successful allocations the next oom_count fail.
    int64_t oom_after = -1;
    int64_t oom_count = 0;
    // pthread
    bool th_create = false, th_attr = false, mx_init = false, mx_lock = false, mx_trylock = false,
         mx_unlock = false;
    uint32_t th_den = 6; // one in th_den calls fails
};
Faults &faults();
// An operation is one API call: faults that fired since op_begin() may excuse its failure.
void op_begin();
uint32_t op_faults();          // faults fired since op_begin() (this thread's op)
uint32_t op_faults(const char *kind);
uint32_t run_faults();
// The process may end itself (abort) during the current operation without that being a violation.
// The callback is run when it does (e.g. to check durable state), in Host scope.
void on_abort(void (*cb)(void *), void *ctx);
// The process may end by exit(): the callback judges the exit status, the run ends there.
void on_exit_status(void (*cb)(void *, int), void *ctx);
extern void (*exit_cb)(void *, int);
extern void *exit_ctx;
extern bool strict_abort; // ending the process is never an acceptable answer, not even to a fault
extern const char *allow_abort_class; // when set (reason), any abort ends the run cleanly

// ---- heap ----------------------------------------------------------------------------------
void *heap_alloc(size_t n, size_t align = 16);
void heap_free(void *p);
bool heap_owns(const void *p);
size_t live_blocks();
size_t live_bytes();
uint64_t alloc_count();     // SUT allocations so far
void check_no_leaks(const char *what);
bool addressable(const void *p, size_t n); // whether the range is valid memory right now
struct HeapMode {
    uint32_t place = 0;   // placement seed
    uint32_t fill = 0xAA; // dirty fill for fresh memory
    bool reuse = false;   // freed memory is reused at once instead of quarantined
};
HeapMode &heap_mode();
void randomize_heap(); // draw a heap mode from the HEAP stream

// construct an object in the simulated heap
template<typename T, typename... A> T *make(A &&...a) {
    void *p;
    {
        auto &f = faults();
        auto save = f.oom_after;
        f.oom_after = -1;
        p = heap_alloc(sizeof(T), alignof(T));
        f.oom_after = save;
    }
    try {
        Sut s;
        return new(p) T((A &&)a...);
    } catch(...) {
        heap_free(p);
        throw;
    }
}
template<typename T> void destroy(T *p) {
    if(!p) return;
    {
        Sut s;
        p->~T();
    }
    heap_free((void *)p);
}

// ---- scheduler -----------------------------------------------------------------------------
struct Sched {
    uint32_t mean_gap = 0;   // mean distance (in memory accesses) between preemptions; 0 = never
    uint32_t sync_den = 2;   // 1/sync_den of sync points switch; 0 = never
    uint32_t shared_den = 0; // 1/shared_den of accesses to recently shared data switch; 0 = never
    uint32_t stall_den = 0;  // 1/stall_den of the preempted threads get no processor for a while; 0 = none
    uint32_t slow_start = 0; // 1/slow_start of new threads do not begin at once; 0 = none
    uint32_t stall_bits = 11; // for how long: up to 2^stall_bits memory accesses
    uint64_t step_cap = 3000000;
};
Sched &sched();
// Long histories need more room before they count as stuck.
inline void allow_steps(uint64_t n) {
    if(sched().step_cap < n) sched().step_cap = n;
}
void randomize_sched();
int self();
int threads_alive();       // SUT-created threads not finished
uint64_t now();            // event sequence number / logical time
uint64_t steps();
void advance(uint64_t ns); // simulated time
void yield_point();        // explicit scheduling point (Host code that waits for something)
void block_until(bool (*pred)(void *), void *ctx, const char *what);
void quiesce();            // run the other threads until all have finished
struct ThreadStats {
    int created, joined, detached, finished, live_attr, create_failed;
    int unreleased; // neither joined nor detached
    int running;
};
ThreadStats thread_stats();
// mutexes
int mutex_owner(const void *native); // -1 free, -2 unknown
int mutexes_held();                  // number of mutexes currently locked in the whole process
int mutexes_held_by_self();

// ---- scenarios -----------------------------------------------------------------------------
struct Scenario {
    const char *name;
    void (*run)();
    int weight;
    Scenario *next;
    Scenario(const char *n, void (*r)(), int w);
};
#define SIM_SCENARIO(fn, weight)                                                                   \
    static void fn();                                                                              \
    static ::sim::Scenario scn_##fn(#fn, fn, weight);                                              \
    static void fn()

// ---- simulated disk ------------------------------------------------------------------------
namespace fs {
enum Kind { NONE, REG, DIR_, FIFO, LINK };
void add_dir(const std::string &path);
void add_file(const std::string &path, const std::string &content);
void add_fifo(const std::string &path, const std::string &content);
void add_link(const std::string &path, const std::string &target);
void remove(const std::string &path);
bool rename(const std::string &from, const std::string &to);
void resize(const std::string &path, size_t n, char fill);
Kind kind(const std::string &path, bool follow = true);
bool get(const std::string &path, std::string &out);
std::string dump();          // the whole tree, for comparing states
struct Handles {
    int streams = 0, descriptors = 0, dirs = 0, maps = 0;
};
Handles handles();
std::string open_handles();  // what the code under test still holds: "" = nothing
uint64_t syscalls();
// Called before every system call of the code under test, in Host scope: another process may act here.
void on_syscall(void (*cb)(void *ctx, const char *op, const char *path), void *ctx);
// Called when the simulated machine stops at a system call; the run ends afterwards.
void on_crash(void (*cb)(void *), void *ctx);
struct Cfg {
    bool open_err = false;   // fopen/open: ENOENT EACCES EMFILE ENFILE ENOMEM EINTR
    bool read_err = false;   // read: EIO, possibly after delivering a prefix
    bool short_read = false; // read returns fewer bytes than asked (legal, not an error)
    bool seek_err = false;   // seek fails
    bool stat_err = false;   // stat fails: EACCES EIO
    bool map_err = false;    // mmap: ENOMEM ENODEV EACCES
    bool rename_err = false; // rename: EXDEV EACCES ENOSPC EIO EBUSY
    bool opendir_err = false;
    bool readdir_err = false; // readdir stops early with EIO
    bool no_dtype = false;    // the file system does not fill d_type
    bool mounts = false;      // some directories are file systems of their own: numbers of files repeat
    bool close_err = false;
    bool flip = false; // a bit of the data flips on its way from the platter
    bool crash = false;
    uint32_t den = 8;
    int32_t fail_at = -1; // fail exactly the n-th eligible call (in addition)
};
Cfg &cfg();
struct FileStats {
    uint64_t opens, closes, reads, short_reads, bytes, maps, unmaps, dirs;
};
FileStats &stats();
} // namespace fs

// What the code under test wrote to its standard output (only collected when switched on).
extern bool capture_output;
std::string &program_output();
std::string &error_output();

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string show(const void *data, size_t n); // printable form of bytes
} // namespace sim
