// Scheduler: real threads, one runs at a time, the simulator decides which.  pthread calls of the
// code under test land here; a happens-before race detector runs along.
#include <semaphore.h>
#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstring>
#include <ctime>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace sim {
void record_switch(int from, int to, uint64_t where);
void record_threads(int n);
void install_altstack();
void shadow_push(uintptr_t pc);
void shadow_pop();
void note_pc(uintptr_t pc);

struct VC {
    uint16_t c[MAXT];
};
enum St { RUN, BLOCKED, DONE };
struct Th {
    int id;
    St st;
    int futex;
    const char *why;
    bool (*pred)(void *);
    void *pctx;
    void *(*fn)(void *);
    void *arg;
    void *ret;
    bool detached, joined, is_main;
    uint64_t asleep; // gets no processor before this step unless nothing else can run
    pthread_t real;
    VC vc;
    VC final_vc;
};
static Th th[MAXT];
static int nth = 0;
static int cur = 0;
static int nstacks = 0;
static uint64_t g_steps = 0, g_time = 0;
static int64_t budget = 0;
static bool detect = false; // more than one thread has existed
static Sched g_sched;
static ThreadStats tstats;
static pthread_key_t exit_key;

Sched &sched() { return g_sched; }
uint64_t now() { return g_time + g_steps; }
uint64_t steps() { return g_steps; }
void advance(uint64_t ns) { g_time += ns; }
int self() { return tl_tid; }

static void fwait(int *f) {
    while(__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void fpost(int *f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void new_budget() {
    if(g_sched.mean_gap == 0) {
        budget = INT64_MAX;
        return;
    }
    uint32_t v = choose(SCHED, 64);
    if(v == 0)
        budget = 100000;
    else
        budget = 1 + (int64_t)v * g_sched.mean_gap / 32;
}
static bool runnable(Th &t) {
    if(t.st == RUN) return true;
    if(t.st == BLOCKED && t.pred(t.pctx)) return true;
    return false;
}
static void switch_to(int t, uint64_t where) {
    int me = cur;
    if(t == me) return;
    record_switch(me, t, where);
    hash_event(0xabcd0000ull + t * 512 + me + (g_steps << 20));
    cur = t;
    fpost(&th[t].futex);
}
static int candidates(int *out, int except, bool must = true) {
    // in round-robin order after the current thread, so that the default choice is fair
    int n = 0, asleep = 0;
    for(int k = 1; k <= nth; ++k) {
        int i = (cur + k) % nth;
        if(i == except || th[i].st == DONE || !runnable(th[i])) continue;
        if(th[i].asleep > g_steps)
            ++asleep;
        else
            out[n++] = i;
    }
    if(n == 0 && asleep && must)
        for(int k = 1; k <= nth; ++k) {
            int i = (cur + k) % nth;
            if(i != except && th[i].st != DONE && runnable(th[i])) out[n++] = i;
        }
    return n;
}
static void stall(Th &t) {
    // short ones are the most frequent
    uint64_t len = 1 + choose(SCHED, 1u << (4 + choose(SCHED, g_sched.stall_bits - 3)));
    t.asleep = g_steps + len;
    record_fault("thread:stalled");
}
static void handoff(int t, uint64_t where) {
    int me = cur;
    if(t == me) return;
    switch_to(t, where);
    fwait(&th[me].futex);
    th[me].st = RUN;
}
static void preempt(uint64_t where) {
    int c[MAXT];
    bool prev = set_sut(false);
    int n = candidates(c, cur, false);
    if(n > 0) {
        int k = choose(SCHED, n);
        if(g_sched.stall_den && chance(SCHED, 1, g_sched.stall_den)) stall(th[cur]);
        handoff(c[k], where);
    }
    new_budget();
    set_sut(prev);
}
static void dump_blocked(std::string &s) {
    for(int i = 0; i < nth; ++i)
        if(th[i].st == BLOCKED) s += fmt("%st%d waits for %s", s.empty() ? "" : ", ", i, th[i].why);
}
void block_until(bool (*pred)(void *), void *ctx, const char *what) {
    bool prev = set_sut(false);
    Th &t = th[cur];
    int spins = 0;
    while(!pred(ctx)) {
        t.st = BLOCKED;
        t.why = what;
        t.pred = pred;
        t.pctx = ctx;
        int c[MAXT];
        int n = candidates(c, t.id);
        if(n == 0) {
            std::string s;
            dump_blocked(s);
            fail("deadlock", "no thread can run: %s", s.c_str());
        }
        handoff(c[choose(SCHED, n)], (uint64_t)what);
        if(++spins > 100000) fail("no-progress", "t%d was woken 100000 times for %s", t.id, what);
    }
    t.st = RUN;
    set_sut(prev);
}
void yield_point() {
    if(nth < 2) return;
    bool prev = set_sut(false);
    int c[MAXT];
    int n = candidates(c, cur);
    if(n) {
        handoff(c[choose(SCHED, n)], 1);
    }
    set_sut(prev);
}
void sched_sync_point(const char *what, uintptr_t pc) {
    if(!g_active) return;
    ++g_steps;
    g_time += 50;
    if(nth < 2 || g_sched.sync_den == 0) return;
    if(chance(SCHED, 1, g_sched.sync_den)) preempt(pc);
    (void)what;
}
int threads_alive() {
    int n = 0;
    for(int i = 1; i < nth; ++i)
        n += th[i].st != DONE;
    return n;
}
void quiesce() {
    struct P {
        static bool p(void *) { return threads_alive() == 0; }
    };
    block_until(P::p, nullptr, "the other threads to finish");
    // the harness itself looks at what they left behind
    for(int i = 0; i < nth; ++i)
        if(th[i].st == DONE)
            for(int k = 0; k < nth; ++k)
                th[tl_tid].vc.c[k] = std::max(th[tl_tid].vc.c[k], th[i].final_vc.c[k]);
}
ThreadStats thread_stats() {
    tstats.unreleased = tstats.running = 0;
    for(int i = 1; i < nth; ++i) {
        tstats.unreleased += !th[i].joined && !th[i].detached;
        tstats.running += th[i].st != DONE;
    }
    return tstats;
}

void randomize_sched() {
    switch(choose(SCHED, 6)) {
    case 0: // rare switches at synchronisation only
        g_sched.mean_gap = 0;
        g_sched.sync_den = 4;
        g_sched.shared_den = 0;
        break;
    case 1:
        g_sched.mean_gap = 0;
        g_sched.sync_den = 2;
        g_sched.shared_den = 0;
        break;
    case 2:
        g_sched.mean_gap = 8;
        g_sched.sync_den = 2;
        g_sched.shared_den = 0;
        break;
    case 3:
        g_sched.mean_gap = 60;
        g_sched.sync_den = 3;
        g_sched.shared_den = 0;
        break;
    case 4:
        g_sched.mean_gap = 500;
        g_sched.sync_den = 4;
        g_sched.shared_den = 8;
        break;
    case 5:
        g_sched.mean_gap = 0;
        g_sched.sync_den = 4;
        g_sched.shared_den = 3;
        break;
    }
    g_sched.stall_bits = 11;
    g_sched.stall_den = 0;
    g_sched.slow_start = 0;
    if(choose(SCHED, 4) == 0) {
        g_sched.stall_den = 1 + choose(SCHED, 12);
        g_sched.slow_start = choose(SCHED, 3);
    }
    new_budget();
}

// ---- happens-before ------------------------------------------------------------------------
// Readers share a few places: with more threads than places an earlier reader may be forgotten (which can hide a
// race, never invent one).
constexpr int READERS = 10;
struct Cell {
    uint16_t wtid; // tid+1, 0 = never written
    uint16_t wclk;
    uint16_t last; // tid+1 of the last accessor
    uint8_t wmask;
    uint8_t pad;
    uint16_t rtid[READERS];
    uint16_t rclk[READERS];
    uint8_t rmask[READERS];
};
static_assert(sizeof(Cell) <= 64);
static Cell *cell_for(uintptr_t a) {
    if(a - HEAP_BASE < HEAP_SIZE / 2) return (Cell *)(CELL_BASE) + ((a - HEAP_BASE) >> 3);
    if(a >= (uintptr_t)__data_start && a < (uintptr_t)_end)
        return (Cell *)(DCELL_BASE) + ((a - ((uintptr_t)__data_start & ~7ull)) >> 3);
    return nullptr;
}
static bool hb(int u, uint16_t clk) { return th[tl_tid].vc.c[u] >= clk; }
static void race(uintptr_t a, const char *mine, int other, const char *theirs) {
    bool heap = a - HEAP_BASE < HEAP_SIZE;
    fail("data-race", "%s by t%d and %s by t%d of the same %s memory are not ordered", mine, tl_tid, theirs, other,
         heap ? "heap" : "global");
}
static void race_check(uintptr_t a, size_t n, bool write, bool atomic) {
    if(!detect) return;
    uintptr_t end = a + n;
    int me = tl_tid;
    while(a < end) {
        uintptr_t g = a & ~7ull;
        uintptr_t stop = std::min(end, g + 8);
        uint8_t mask = 0;
        for(uintptr_t x = a; x < stop; ++x)
            mask |= 1 << (x - g);
        Cell *c = cell_for(g);
        a = stop;
        if(!c) continue;
        c->last = me + 1;
        if(atomic) continue; // atomics only synchronise, they do not race in this detector
        if(c->wtid && c->wtid != me + 1 && (c->wmask & mask) && !hb(c->wtid - 1, c->wclk))
            race(g, write ? "a write" : "a read", c->wtid - 1, "a write");
        if(write) {
            for(int k = 0; k < READERS && k < nth; ++k)
                if(c->rclk[k] && c->rtid[k] != me && (c->rmask[k] & mask) && !hb(c->rtid[k], c->rclk[k])) race(g, "a write", c->rtid[k], "a read");
            if(c->wtid == me + 1 && c->wclk == th[me].vc.c[me])
                c->wmask |= mask;
            else {
                c->wtid = me + 1;
                c->wclk = th[me].vc.c[me];
                c->wmask = mask;
            }
        } else {
            int k = me % READERS;
            if(c->rtid[k] == me && c->rclk[k] == th[me].vc.c[me])
                c->rmask[k] |= mask;
            else {
                c->rtid[k] = me;
                c->rclk[k] = th[me].vc.c[me];
                c->rmask[k] = mask;
            }
        }
    }
}
void race_forget(uintptr_t a, size_t n) {
    if(!detect) return;
    for(uintptr_t x = a & ~7ull; x < a + n; x += 8)
        if(Cell *c = cell_for(x)) memset(c, 0, sizeof *c);
}
static std::unordered_map<uintptr_t, VC> *objs;
void acquire_obj(uintptr_t o) {
    Host h;
    auto it = objs->find(o);
    if(it == objs->end()) return;
    VC &v = th[tl_tid].vc;
    for(int i = 0; i < nth; ++i)
        v.c[i] = std::max(v.c[i], it->second.c[i]);
}
void release_obj(uintptr_t o) {
    Host h;
    VC &v = th[tl_tid].vc;
    VC &d = (*objs)[o];
    for(int i = 0; i < nth; ++i)
        d.c[i] = std::max(d.c[i], v.c[i]);
    if(v.c[tl_tid] < 65000) ++v.c[tl_tid];
}

void access(uintptr_t a, size_t n, bool write, bool atomic, uintptr_t pc) {
    if(!tl_sut || !g_active) return;
    if(++g_steps > g_sched.step_cap)
        fail("no-progress", "still running after %llu memory accesses", (unsigned long long)g_sched.step_cap);
    note_pc(pc);
    if(a - STACK_BASE < STACK_SIZE * MAXSTACK) return;
    bool heap = a - HEAP_BASE < HEAP_SIZE;
    if(nth > 1) {
        if(--budget <= 0) {
            preempt(pc);
        } else if(g_sched.shared_den && (heap || (a >= (uintptr_t)__data_start && a < (uintptr_t)_end))) {
            Cell *c = cell_for(a & ~7ull);
            if(c && c->last && c->last != tl_tid + 1 && chance(SCHED, 1, g_sched.shared_den)) preempt(pc);
        }
    }
    if(heap) check_range((void *)a, n, write, pc);
    if(nth > 1) race_check(a, n, write, atomic);
}

// ---- mutexes -------------------------------------------------------------------------------
struct Mx {
    int owner = -1;
    int count = 0;
    int type = PTHREAD_MUTEX_NORMAL;
    bool destroyed = false;
    bool doomed = false; // destruction was tried while it was locked
    int waiters = 0;
};
static std::unordered_map<uintptr_t, Mx> *mxs;
static Mx &mx(const void *m) {
    Host h;
    return (*mxs)[(uintptr_t)m];
}
// A mutex about to be used.  Destruction leaves -1 as its kind; anything else there afterwards is a new mutex with a static
// initialiser at the same place.
static Mx &mx_used(const void *m) {
    Mx &x = mx(m);
    int kind = ((const pthread_mutex_t *)m)->__data.__kind;
    if((x.destroyed || x.doomed) && kind != -1) {
        x = Mx{};
        x.type = kind & 3;
    }
    return x;
}
void mutex_forget(uintptr_t lo, uintptr_t hi) {
    if(!mxs || mxs->empty()) return;
    Host h;
    for(auto it = mxs->begin(); it != mxs->end();) {
        if(it->first >= lo && it->first < hi)
            it = mxs->erase(it);
        else
            ++it;
    }
}
int mutex_owner(const void *m) {
    Host h;
    auto it = mxs->find((uintptr_t)m);
    return it == mxs->end() ? -1 : it->second.owner;
}
int mutexes_held() {
    int n = 0;
    for(auto &[k, v] : *mxs)
        n += v.owner >= 0;
    return n;
}
static thread_local int tl_inside = 0; // locks of other kinds that this thread holds
int mutexes_held_by_self() {
    int n = tl_inside;
    for(auto &[k, v] : *mxs)
        n += v.owner == tl_tid;
    return n;
}
static bool mx_free(void *p) { return ((Mx *)p)->owner < 0; }

static void thread_done(void *) {
    // Runs as a thread-specific destructor, after every thread_local destructor.
    tl_sut = false;
    Th &t = th[tl_tid];
    for(auto &[k, v] : *mxs)
        if(v.owner == t.id) probe("thread-ended-holding-mutex");
    t.final_vc = t.vc;
    t.st = DONE;
    ++tstats.finished;
    log("thread t%d ends", t.id);
    int c[MAXT];
    int n = candidates(c, t.id);
    if(n == 0) {
        std::string s;
        dump_blocked(s);
        fail("deadlock", "no thread can run after t%d ended: %s", t.id, s.c_str());
    }
    int k = choose(SCHED, n);
    record_switch(t.id, c[k], 2);
    cur = c[k];
    fpost(&th[c[k]].futex);
}
static void *trampoline(void *p) {
    Th *t = (Th *)p;
    tl_tid = t->id;
    install_altstack();
    fwait(&t->futex);
    t->st = RUN;
    pthread_setspecific(exit_key, t);
    if(t->is_main) {
        ((void (*)())t->arg)();
        quiesce();
        finish_ok();
    }
    log("thread t%d starts", t->id);
    new_budget();
    tl_sut = true;
    t->ret = t->fn(t->arg);
    tl_sut = false;
    return t->ret;
}
static int spawn(Th *t, pthread_t *out) {
    pthread_attr_t a;
    pthread_attr_init(&a);
    if(nstacks >= MAXSTACK) fail("harness", "out of stacks");
    pthread_attr_setstack(&a, (void *)(STACK_BASE + STACK_SIZE * nstacks++), STACK_SIZE);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    int rc = pthread_create(out, &a, trampoline, t);
    pthread_attr_destroy(&a);
    t->real = *out;
    return rc;
}

void threads_init() {
    objs = new std::unordered_map<uintptr_t, VC>;
    mxs = new std::unordered_map<uintptr_t, Mx>;
    mxs->reserve(64);
    pthread_key_create(&exit_key, thread_done);
}
void run_on_threads(void (*fn)()) {
    Th &t = th[0];
    t.id = 0;
    t.st = RUN;
    t.is_main = true;
    t.arg = (void *)fn;
    t.vc.c[0] = 1;
    nth = 1;
    cur = 0;
    budget = INT64_MAX;
    g_active = true;
    pthread_t p;
    t.futex = 1;
    if(spawn(&t, &p) != 0) _exit(3);
    for(;;)
        pause();
}
static Th *find(pthread_t p) {
    for(int i = 0; i < nth; ++i)
        if(th[i].real == p) return &th[i];
    return nullptr;
}
static bool th_done(void *p) { return ((Th *)p)->st == DONE; }
} // namespace sim

using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
int sim_pthread_attr_init(pthread_attr_t *a) {
    if(fault_roll(faults().th_attr, faults().th_den, "pthread_attr_init:ENOMEM")) return ENOMEM;
    ++tstats.live_attr;
    return pthread_attr_init(a);
}
int sim_pthread_attr_destroy(pthread_attr_t *a) {
    --tstats.live_attr;
    if(tstats.live_attr < 0) fail("attr-over-release", "a thread attribute object was destroyed that was never initialised");
    return pthread_attr_destroy(a);
}
int sim_pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if(!g_active) return pthread_create(out, attr, fn, arg);
    sched_sync_point("create", PC);
    if(fault_roll(faults().th_create, faults().th_den, "pthread_create:EAGAIN")) {
        ++tstats.create_failed;
        return EAGAIN;
    }
    Host h;
    if(nth >= MAXT) fail("harness", "too many threads");
    Th &t = th[nth];
    t.id = nth;
    t.st = RUN;
    t.fn = fn;
    t.arg = arg;
    int ds = PTHREAD_CREATE_JOINABLE;
    if(attr) pthread_attr_getdetachstate(attr, &ds);
    t.detached = ds == PTHREAD_CREATE_DETACHED;
    if(!detect) detect = true;
    t.vc = th[tl_tid].vc;
    t.vc.c[t.id] = 1;
    if(th[tl_tid].vc.c[tl_tid] < 65000) ++th[tl_tid].vc.c[tl_tid];
    t.asleep = 0;
    if(g_sched.slow_start && chance(SCHED, 1, g_sched.slow_start)) stall(t);
    if(nth == 1) new_budget();
    pthread_t real;
    if(spawn(&t, &real) != 0) fail("harness", "cannot create a real thread");
    *out = real;
    ++nth;
    record_threads(nth);
    ++tstats.created;
    tstats.detached += t.detached;
    log("thread t%d created by t%d", t.id, tl_tid);
    set_sut(h.prev);
    sched_sync_point("created", PC);
    set_sut(false);
    return 0;
}
static int do_join(pthread_t p, void **ret, uintptr_t pc, bool block) {
    sched_sync_point("join", pc);
    Host h;
    Th *t = find(p);
    if(!t) fail("thread-bad-handle", "join on a handle that is no thread");
    if(t->joined) fail("thread-double-release", "t%d is joined a second time", t->id);
    if(t->detached) fail("thread-double-release", "t%d is joined although it was detached", t->id);
    if(t->id == tl_tid) return EDEADLK;
    if(!block && t->st != DONE) return EBUSY;
    log("join of t%d (%s)", t->id, t->st == DONE ? "finished" : "still running");
    probe(t->st == DONE ? "join-finished-thread" : "join-running-thread");
    block_until(th_done, t, "a thread to finish");
    t->joined = true;
    ++tstats.joined;
    for(int i = 0; i < nth; ++i)
        th[tl_tid].vc.c[i] = std::max(th[tl_tid].vc.c[i], t->final_vc.c[i]);
    if(ret) *ret = t->ret;
    return 0;
}
int sim_pthread_join(pthread_t p, void **ret) { return do_join(p, ret, PC, true); }
int sim_pthread_tryjoin_np(pthread_t p, void **ret) { return do_join(p, ret, PC, false); }
int sim_pthread_timedjoin_np(pthread_t p, void **ret, const timespec *) {
    // Simulated time may pass at will: a bounded wait can always run out.
    int rc = do_join(p, ret, PC, false);
    return rc == EBUSY ? (chance(SCHED, 1, 2) ? ETIMEDOUT : do_join(p, ret, PC, true)) : rc;
}
int sim_pthread_detach(pthread_t p) {
    sched_sync_point("detach", PC);
    Host h;
    Th *t = find(p);
    if(!t) fail("thread-bad-handle", "detach of a handle that is no thread");
    if(t->joined || t->detached) fail("thread-double-release", "t%d is detached although it was already %s", t->id, t->joined ? "joined" : "detached");
    t->detached = true;
    ++tstats.detached;
    log("detach of t%d", t->id);
    return 0;
}
void sim_pthread_exit(void *r) {
    th[tl_tid].ret = r;
    tl_sut = false;
    pthread_exit(r);
}
int sim_sched_yield() {
    sched_sync_point("yield", PC);
    if(g_active && nth > 1) preempt(PC);
    return 0;
}
int sim_nanosleep(const timespec *t, timespec *) {
    if(t) advance((uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec);
    return sim_sched_yield();
}
int sim_usleep(unsigned u) {
    advance((uint64_t)u * 1000);
    return sim_sched_yield();
}
unsigned sim_sleep(unsigned s) {
    advance((uint64_t)s * 1000000000ull);
    sim_sched_yield();
    return 0;
}
int sim_clock_gettime(clockid_t, timespec *t) {
    uint64_t n = now();
    t->tv_sec = 1700000000 + n / 1000000000ull;
    t->tv_nsec = n % 1000000000ull;
    return 0;
}
time_t sim_time(time_t *t) {
    time_t r = 1700000000 + now() / 1000000000ull;
    if(t) *t = r;
    return r;
}

int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    check_range(m, sizeof *m, true, PC);
    if(fault_roll(faults().mx_init, faults().th_den, "pthread_mutex_init:ENOMEM")) return ENOMEM;
    Mx &x = mx(m);
    if(x.owner >= 0 && !x.doomed) fail("mutex-misuse", "a locked mutex is initialised again");
    x = Mx{};
    if(a) {
        int t = 0;
        pthread_mutexattr_gettype(a, &t);
        x.type = t;
    }
    return pthread_mutex_init(m, a);
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
    check_range(m, sizeof *m, true, PC);
    Mx &x = mx_used(m);
    if(x.owner >= 0) {
        probe("mutex-destroyed-while-locked");
        x.doomed = true;
        m->__data.__kind = -1;
        return EBUSY;
    }
    x.destroyed = true;
    return pthread_mutex_destroy(m);
}
static int mlock(pthread_mutex_t *m, bool block, uintptr_t pc) {
    check_range(m, sizeof *m, false, pc);
    sched_sync_point(block ? "lock" : "trylock", pc);
    if(block) {
        if(faults().mx_lock && tl_sut && chance(FAULT, 1, faults().th_den)) {
            static const int e[] = {EAGAIN, EINVAL, EDEADLK, EOWNERDEAD, ENOTRECOVERABLE};
            static const char *n[] = {"pthread_mutex_lock:EAGAIN", "pthread_mutex_lock:EINVAL",
                                      "pthread_mutex_lock:EDEADLK"};
            int k = choose(FAULT, 3);
            fault_fired(n[k]);
            return e[k];
        }
    } else if(faults().mx_trylock && tl_sut && chance(FAULT, 1, faults().th_den)) {
        static const int e[] = {EAGAIN, EINVAL};
        static const char *n[] = {"pthread_mutex_trylock:EAGAIN", "pthread_mutex_trylock:EINVAL"};
        int k = choose(FAULT, 2);
        fault_fired(n[k]);
        return e[k];
    }
    Mx *x;
    {
        Host h;
        x = &mx_used(m);
        if(x->destroyed) fail("mutex-misuse", "a destroyed mutex is locked");
        if(x->owner == tl_tid) {
            if(x->type == PTHREAD_MUTEX_RECURSIVE) {
                ++x->count;
                return 0;
            }
            if(!block) return EBUSY;
            if(x->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        }
        if(x->owner >= 0) {
            if(!block) {
                probe("trylock-contended");
                return EBUSY;
            }
            probe("lock-contended");
            // nodes of an unordered_map keep their address
            ++x->waiters;
            block_until(mx_free, x, "a mutex");
            --x->waiters;
        }
        x->owner = tl_tid;
        x->count = 1;
        log("t%d %s", tl_tid, block ? "locks" : "try-locks");
    }
    acquire_obj((uintptr_t)m);
    sched_sync_point("locked", pc);
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) { return mlock(m, true, PC); }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { return mlock(m, false, PC); }
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *) {
    int rc = mlock(m, false, PC);
    if(rc != EBUSY) return rc;
    return chance(SCHED, 1, 2) ? ETIMEDOUT : mlock(m, true, PC);
}
int sim_pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const timespec *t) {
    return sim_pthread_mutex_timedlock(m, t);
}
int sim_pthread_mutex_unlock(pthread_mutex_t *m) {
    check_range(m, sizeof *m, false, PC);
    sched_sync_point("unlock", PC);
    if(fault_roll(faults().mx_unlock, faults().th_den, "pthread_mutex_unlock:EPERM")) return EPERM;
    {
        Host h;
        Mx &x = mx_used(m);
        if(x.destroyed) fail("mutex-misuse", "a destroyed mutex is unlocked");
        if(x.owner != tl_tid) {
            if(x.type == PTHREAD_MUTEX_NORMAL)
                fail("unlock-not-held", "t%d unlocks a mutex that is %s", tl_tid,
                     x.owner < 0 ? "not locked" : "held by another thread");
            return EPERM;
        }
        if(--x.count > 0) return 0;
    }
    release_obj((uintptr_t)m);
    {
        Host h;
        Mx &x = mx(m);
        x.owner = -1;
        log("t%d unlocks", tl_tid);
    }
    sched_sync_point("unlocked", PC);
    return 0;
}
int sim_pthread_once(pthread_once_t *o, void (*fn)()) {
    // 0 = not run, 1 = running, 2 = done
    struct P {
        static bool p(void *x) { return *(volatile int *)x != 1; }
    };
    sched_sync_point("once", PC);
    volatile int *s = (volatile int *)o;
    while(*s != 2) {
        if(*s == 0) {
            *s = 1;
            fn();
            release_obj((uintptr_t)o);
            *s = 2;
        } else
            block_until(P::p, (void *)s, "a once-initialisation");
    }
    acquire_obj((uintptr_t)o);
    return 0;
}
// condition variables: spurious wake-ups included
static std::unordered_map<uintptr_t, int> *conds;
int sim_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int sim_pthread_cond_destroy(pthread_cond_t *) { return 0; }
struct CondWait {
    uintptr_t c;
    bool woken;
};
static std::vector<CondWait *> *cwaiters;
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    CondWait w{(uintptr_t)c, false};
    {
        Host h;
        if(!cwaiters) cwaiters = new std::vector<CondWait *>;
        cwaiters->push_back(&w);
    }
    sim_pthread_mutex_unlock(m);
    struct P {
        static bool p(void *x) { return ((CondWait *)x)->woken; }
    };
    block_until(P::p, &w, "a condition");
    {
        Host h;
        std::erase(*cwaiters, &w);
    }
    return sim_pthread_mutex_lock(m);
}
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *) {
    if(chance(SCHED, 1, 2)) {
        sim_pthread_mutex_unlock(m);
        sim_pthread_mutex_lock(m);
        return ETIMEDOUT;
    }
    return sim_pthread_cond_wait(c, m);
}
static int cwake(pthread_cond_t *c, bool all) {
    sched_sync_point("cond", PC);
    Host h;
    if(cwaiters)
        for(auto *w : *cwaiters)
            if(w->c == (uintptr_t)c && !w->woken) {
                w->woken = true;
                if(!all) break;
            }
    return 0;
}
int sim_pthread_cond_signal(pthread_cond_t *c) { return cwake(c, false); }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { return cwake(c, true); }

// Other ways of waiting; what they know is kept in the object itself: [0] writers (or holders, or the count), [1] readers.
static bool no_writer(void *p) { return ((volatile int *)p)[0] == 0; }
static bool nobody_in(void *p) { return ((volatile int *)p)[0] == 0 && ((volatile int *)p)[1] == 0; }
static bool any_left(void *p) { return ((volatile int *)p)[0] > 0; }
static int enter(void *o, bool (*ready)(void *), bool block, int slot, int by, const char *what, uintptr_t pc) {
    check_range(o, sizeof(int), false, pc);
    sched_sync_point(what, pc);
    if(!ready(o)) {
        if(!block) return EBUSY;
        block_until(ready, o, what);
    }
    ((volatile int *)o)[slot] += by;
    ++tl_inside;
    acquire_obj((uintptr_t)o);
    sched_sync_point("locked", pc);
    return 0;
}
static int leave(void *o, int slot, int by, const char *what, uintptr_t pc) {
    check_range(o, sizeof(int), false, pc);
    sched_sync_point(what, pc);
    release_obj((uintptr_t)o);
    ((volatile int *)o)[slot] += by;
    --tl_inside;
    sched_sync_point("unlocked", pc);
    return 0;
}
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) {
    check_range(l, sizeof *l, true, PC);
    memset(l, 0, sizeof *l);
    return 0;
}
int sim_pthread_rwlock_destroy(pthread_rwlock_t *l) {
    check_range(l, sizeof *l, true, PC);
    return nobody_in(l) ? 0 : EBUSY;
}
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { return enter(l, no_writer, true, 1, 1, "a reader's lock", PC); }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return enter(l, no_writer, false, 1, 1, "a reader's lock", PC); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { return enter(l, nobody_in, true, 0, 1, "a writer's lock", PC); }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return enter(l, nobody_in, false, 0, 1, "a writer's lock", PC); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) {
    bool writer = ((volatile int *)l)[0] != 0;
    return leave(l, writer ? 0 : 1, -1, "a reader's or writer's lock", PC);
}
int sim_pthread_spin_init(pthread_spinlock_t *l, int) {
    check_range((void *)l, sizeof *l, true, PC);
    *l = 0;
    return 0;
}
int sim_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { return enter((void *)l, no_writer, true, 0, 1, "a spin lock", PC); }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { return enter((void *)l, no_writer, false, 0, 1, "a spin lock", PC); }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { return leave((void *)l, 0, -1, "a spin lock", PC); }
int sim_sem_init(sem_t *s, int, unsigned v) {
    check_range(s, sizeof *s, true, PC);
    memset(s, 0, sizeof *s);
    *(volatile int *)s = (int)v;
    return 0;
}
int sim_sem_destroy(sem_t *) { return 0; }
int sim_sem_wait(sem_t *s) { return enter(s, any_left, true, 0, -1, "a semaphore", PC); }
int sim_sem_trywait(sem_t *s) {
    if(!enter(s, any_left, false, 0, -1, "a semaphore", PC)) return 0;
    errno = EAGAIN;
    return -1;
}
int sim_sem_post(sem_t *s) { return leave(s, 0, 1, "a semaphore", PC); }

// ---- function-local statics ----
int sim_cxa_guard_acquire(uint64_t *g) {
    auto b = (volatile unsigned char *)g;
    if(!g_active) {
        if(b[0]) return 0;
        b[1] = 1;
        return 1;
    }
    struct P {
        static bool p(void *x) { return ((volatile unsigned char *)x)[1] == 0; }
    };
    sched_sync_point("static", PC);
    if(b[1]) block_until(P::p, (void *)b, "a static initialisation");
    acquire_obj((uintptr_t)g);
    if(b[0]) return 0;
    b[1] = 1;
    ++tl_static;
    return 1;
}
void sim_cxa_guard_release(uint64_t *g) {
    auto b = (volatile unsigned char *)g;
    if(g_active) release_obj((uintptr_t)g);
    if(g_active && tl_static > 0) --tl_static;
    b[0] = 1;
    b[1] = 0;
    sched_sync_point("static", PC);
}
void sim_cxa_guard_abort(uint64_t *g) {
    if(tl_static > 0) --tl_static;
    ((volatile unsigned char *)g)[1] = 0;
    sched_sync_point("static", PC);
}
void sim_abort() {
    note_pc(PC);
    if(!g_active) _exit(3);
    sut_abort("abort");
}
void sim_exit(int c) {
    if(!g_active) _exit(3);
    if(exit_cb) {
        Host h;
        log("the process exits with status %d", c);
        exit_cb(exit_ctx, c);
        finish_ok();
    }
    sut_abort("exit");
}
void sim_assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    (void)f;
    (void)fn;
    note_pc(PC);
    char b[200];
    snprintf(b, sizeof b, "assert(%s) line %u", e, l);
    sut_abort(b);
}

// ---- instrumentation entry points ----------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void *) {
    if(tl_sut) shadow_push(PC);
}
void __tsan_func_exit() {
    if(tl_sut) shadow_pop();
}
#define RW(sz)                                                                                     \
    void __tsan_read##sz(void *p) { access((uintptr_t)p, sz, false, false, PC); }                  \
    void __tsan_write##sz(void *p) { access((uintptr_t)p, sz, true, false, PC); }                  \
    void __tsan_unaligned_read##sz(void *p) { access((uintptr_t)p, sz, false, false, PC); }        \
    void __tsan_unaligned_write##sz(void *p) { access((uintptr_t)p, sz, true, false, PC); }        \
    void __tsan_volatile_read##sz(void *p) { access((uintptr_t)p, sz, false, false, PC); }         \
    void __tsan_volatile_write##sz(void *p) { access((uintptr_t)p, sz, true, false, PC); }         \
    void __tsan_read_write##sz(void *p) { access((uintptr_t)p, sz, true, false, PC); }             \
    void __tsan_unaligned_read_write##sz(void *p) { access((uintptr_t)p, sz, true, false, PC); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void *p, size_t n) { access((uintptr_t)p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { access((uintptr_t)p, n, true, false, PC); }
void __tsan_vptr_update(void **p, void *) { access((uintptr_t)p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { access((uintptr_t)p, 8, false, false, PC); }
static void overlap(void *d, const void *s, size_t n, uintptr_t pc) {
    if(tl_sut && n && d != s) {
        auto a = (uintptr_t)d, b = (uintptr_t)s;
        if((a < b ? b - a : a - b) < n) {
            note_pc(pc);
            fail("memcpy-overlap", "memcpy of %zu bytes with source and destination overlapping", n);
        }
    }
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if(tl_sut && n) {
        overlap(d, s, n, PC);
        access((uintptr_t)s, n, false, false, PC);
        access((uintptr_t)d, n, true, false, PC);
    }
    return memmove(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    if(tl_sut && n) {
        access((uintptr_t)s, n, false, false, PC);
        access((uintptr_t)d, n, true, false, PC);
    }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    if(tl_sut && n) access((uintptr_t)d, n, true, false, PC);
    return memset(d, c, n);
}

static void at_pre(void *p, size_t n, bool w, uintptr_t pc) {
    if(!tl_sut) return;
    sched_sync_point("atomic", pc);
    access((uintptr_t)p, n, w, true, pc);
}
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
#define POST(p, mo)                                                                                \
    if(tl_sut) {                                                                                   \
        if(acq(mo)) acquire_obj((uintptr_t)p);                                                     \
        if(rel(mo)) release_obj((uintptr_t)p);                                                     \
    }
#define AT(bits, T)                                                                                \
    T __tsan_atomic##bits##_load(const volatile T *p, int mo) {                                    \
        at_pre((void *)p, sizeof(T), false, PC);                                                   \
        T v = *p;                                                                                  \
        POST(p, mo == 5 ? 2 : mo) return v;                                                        \
    }                                                                                              \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) {                                 \
        at_pre((void *)p, sizeof(T), true, PC);                                                    \
        POST(p, mo == 5 ? 3 : mo) *p = v;                                                          \
    }                                                                                              \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) {                                 \
        at_pre((void *)p, sizeof(T), true, PC);                                                    \
        T o = *p;                                                                                  \
        *p = v;                                                                                    \
        POST(p, mo) return o;                                                                      \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) {                                \
        at_pre((void *)p, sizeof(T), true, PC);                                                    \
        T o = *p;                                                                                  \
        *p = o + v;                                                                                \
        POST(p, mo) return o;                                                                      \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) {                                \
        at_pre((void *)p, sizeof(T), true, PC);                                                    \
        T o = *p;                                                                                  \
        *p = o - v;                                                                                \
        POST(p, mo) return o;                                                                      \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) {                                \
        at_pre((void *)p, sizeof(T), true, PC);                                                    \
        T o = *p;                                                                                  \
        *p = o & v;                                                                                \
        POST(p, mo) return o;                                                                      \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) {                                 \
        at_pre((void *)p, sizeof(T), true, PC);                                                    \
        T o = *p;                                                                                  \
        *p = o | v;                                                                                \
        POST(p, mo) return o;                                                                      \
    }                                                                                              \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) {                                \
        at_pre((void *)p, sizeof(T), true, PC);                                                    \
        T o = *p;                                                                                  \
        *p = o ^ v;                                                                                \
        POST(p, mo) return o;                                                                      \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int fmo) { \
        at_pre((void *)p, sizeof(T), true, PC);                                                    \
        if(*p == *e) {                                                                             \
            *p = v;                                                                                \
            POST(p, mo) return 1;                                                                  \
        }                                                                                          \
        *e = *p;                                                                                   \
        POST(p, fmo == 5 ? 2 : fmo) return 0;                                                      \
    }                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int fmo) {   \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);                    \
    }                                                                                              \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int fmo) {       \
        __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);                          \
        return e;                                                                                  \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sched_sync_point("fence", PC); }
void __tsan_atomic_signal_fence(int) {}
}
