// Simulator core: choices, runs in forked children, verdicts, shrinking, replay.
#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
#include <vector>

namespace sim {

static constexpr uint32_t CHCAP = 1u << 16;
static constexpr size_t TRCAP = 1u << 20;
static constexpr int NCOUNTER = 256;
static constexpr int NSTATES = 512;

struct Counter {
    char name[48];
    uint32_t n;
};
struct Shared {
    int status; // 0 running, 1 ok, 2 violation
    int in_host;
    char cls[80];
    char msg[2000];
    uint64_t pcs[24];
    int npcs;
    uint64_t hash, inter, steps, simtime, switches;
    int nthreads;
    int nontrivial;
    uint32_t nch[NSTREAM];
    uint32_t ch[NSTREAM][CHCAP];
    Counter probes[NCOUNTER];
    Counter faults[NCOUNTER];
    uint64_t states[NSTATES];
    int nstates;
    size_t tr;
    char trace[TRCAP];
};
static Shared *sh;
bool g_active = false;
thread_local bool tl_sut = false;
thread_local int tl_tid = 0;
thread_local int tl_static = 0;
static bool verbose = false;
static Scenario *scenarios = nullptr;
Scenario::Scenario(const char *n, void (*r)(), int w) : name(n), run(r), weight(w), next(scenarios) {
    scenarios = this;
}

// ---- choices -------------------------------------------------------------------------------
struct Rng {
    uint64_t s;
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};
static Rng rng[NSTREAM];
static bool replaying = false;
static const uint32_t *rep[NSTREAM];
static uint32_t nrep[NSTREAM];

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t h = a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2));
    h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9ull;
    h = (h ^ (h >> 27)) * 0x94d049bb133111ebull;
    return h ^ (h >> 31);
}
void hash_event(uint64_t v) { sh->hash = mix(sh->hash, v); }

uint32_t choose(Stream s, uint32_t n) {
    if(n == 0) n = 1;
    uint32_t v;
    uint32_t i = sh->nch[s];
    if(replaying) {
        v = i < nrep[s] ? rep[s][i] % n : 0;
    } else {
        v = i < CHCAP ? (uint32_t)(rng[s].next() % n) : 0;
    }
    if(i < CHCAP) sh->ch[s][i] = v;
    sh->nch[s] = i + 1 > CHCAP ? CHCAP : i + 1;
    hash_event(((uint64_t)s << 56) ^ ((uint64_t)n << 32) ^ v);
    return v;
}

// ---- logging -------------------------------------------------------------------------------
std::string fmt(const char *f, ...) {
    Host h;
    va_list ap, ap2;
    va_start(ap, f);
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap);
    va_end(ap);
    std::string r(n, 0);
    vsnprintf(r.data(), n + 1, f, ap2);
    va_end(ap2);
    return r;
}
std::string show(const void *data, size_t n) {
    Host h;
    std::string r = "\"";
    auto p = (const unsigned char *)data;
    for(size_t i = 0; i < n && i < 120; ++i) {
        if(p[i] == '"' || p[i] == '\\') {
            r += '\\';
            r += (char)p[i];
        } else if(p[i] >= 32 && p[i] < 127) {
            r += (char)p[i];
        } else {
            char b[8];
            snprintf(b, 8, "\\x%02x", p[i]);
            r += b;
        }
    }
    r += n > 120 ? "\"..." : "\"";
    return r;
}
void log(const char *f, ...) {
    Host h;
    char buf[700];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if(n >= (int)sizeof buf) n = sizeof buf - 1;
    uint64_t x = 1469598103934665603ull;
    for(int i = 0; i < n; ++i)
        x = (x ^ (unsigned char)buf[i]) * 1099511628211ull;
    hash_event(x);
    if(verbose && sh->tr + n + 40 < TRCAP) {
        sh->tr += snprintf(sh->trace + sh->tr, 40, "%8llu t%d  ", (unsigned long long)steps(), tl_tid);
        memcpy(sh->trace + sh->tr, buf, n);
        sh->tr += n;
        sh->trace[sh->tr++] = '\n';
    }
}

static void trace_only(const char *f, const char *a) {
    if(verbose && sh->tr + 200 < TRCAP) {
        sh->tr += snprintf(sh->trace + sh->tr, 40, "%8llu t%d  ", (unsigned long long)steps(), tl_tid);
        sh->tr += snprintf(sh->trace + sh->tr, 150, f, a);
        sh->trace[sh->tr++] = '\n';
    }
}

static void bump(Counter *c, const char *name) {
    for(int i = 0; i < NCOUNTER; ++i) {
        if(c[i].name[0] == 0) {
            strncpy(c[i].name, name, sizeof(c[i].name) - 1);
            c[i].n = 1;
            return;
        }
        if(strncmp(c[i].name, name, sizeof(c[i].name) - 1) == 0) {
            ++c[i].n;
            return;
        }
    }
}
void probe(const char *name) {
    bump(sh->probes, name);
    trace_only("(reached: %s)", name);
}
void state(uint64_t h) {
    if(sh->nstates < NSTATES) sh->states[sh->nstates++] = h;
}
static thread_local uint32_t tl_opf = 0;
static thread_local char tl_kinds[64][32];
static uint32_t g_runf = 0;
// What is not this property's concern: classes that say something else is broken, and violations without the
// kind of fault that the property is about.
static const char *ignore_classes = nullptr, *need_fault = nullptr;
static bool need_fault_seen = false;
static bool concerns(const char *cls) {
    if(need_fault && !need_fault_seen && strcmp(cls, "harness") != 0) return false;
    size_t k = strlen(cls);
    for(const char *q = ignore_classes; q && *q;) {
        size_t n = strcspn(q, ",");
        if(n == k && memcmp(q, cls, k) == 0) return false;
        q += n + (q[n] == ',');
    }
    return true;
}
void fault_fired(const char *kind) {
    bump(sh->faults, kind);
    if(need_fault && strncmp(kind, need_fault, strlen(need_fault)) == 0) need_fault_seen = true;
    if(tl_opf < 64) {
        strncpy(tl_kinds[tl_opf], kind, 31);
    }
    ++tl_opf;
    ++g_runf;
    log("! fault injected: %s", kind);
}
// Something that happens to the program without any call of it failing.
void record_fault(const char *kind) {
    bump(sh->faults, kind);
    ++g_runf;
}
void op_begin() { tl_opf = 0; }
uint32_t op_faults() { return tl_opf; }
uint32_t op_faults(const char *kind) {
    uint32_t n = 0;
    for(uint32_t i = 0; i < tl_opf && i < 64; ++i)
        n += strncmp(tl_kinds[i], kind, strlen(kind)) == 0;
    return n;
}
uint32_t run_faults() { return g_runf; }
Faults &faults() {
    static Faults f;
    return f;
}
bool fault_roll(bool enabled, uint32_t den, const char *kind) {
    if(!enabled || !tl_sut) return false;
    if(!chance(FAULT, 1, den)) return false;
    fault_fired(kind);
    return true;
}
bool in_sut() { return tl_sut; }
bool set_sut(bool v) {
    bool p = tl_sut;
    tl_sut = v;
    return p;
}

// ---- verdicts ------------------------------------------------------------------------------
static void capture_stack();
[[noreturn]] static void leave(int status) {
    sh->steps = steps();
    sh->simtime = now();
    sh->status = status;
    _exit(0);
}
void finish_ok() {
    g_active = false;
    tl_sut = false;
    leave(1);
}
void fail(const char *cls, const char *f, ...) {
    sh->in_host = !tl_sut;
    g_active = false;
    tl_sut = false;
    if(!concerns(cls)) {
        probe("run ended early by something another property decides");
        leave(1);
    }
    capture_stack();
    snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    va_list ap;
    va_start(ap, f);
    vsnprintf(sh->msg, sizeof sh->msg, f, ap);
    va_end(ap);
    if(verbose && sh->tr + 2200 < TRCAP)
        sh->tr += snprintf(sh->trace + sh->tr, 2200, "%8llu t%d  VIOLATION %s: %s\n",
                           (unsigned long long)steps(), tl_tid, sh->cls, sh->msg);
    leave(2);
}
const char *allow_abort_class = nullptr;
bool strict_abort = false;
void (*exit_cb)(void *, int) = nullptr;
void *exit_ctx = nullptr;
void on_exit_status(void (*cb)(void *, int), void *ctx) {
    exit_cb = cb;
    exit_ctx = ctx;
}
static void (*abort_cb)(void *) = nullptr;
static void *abort_ctx;
void on_abort(void (*cb)(void *), void *ctx) {
    abort_cb = cb;
    abort_ctx = ctx;
}
void sut_abort(const char *why) {
    log("process ended itself: %s", why);
    if(strict_abort) fail("process-ended", "the process ended itself (%s); this operation must report failure instead", why);
    if(tl_opf || allow_abort_class) {
        // Fail-stop as a reaction to an injected fault (or to something the scenario declared).
        probe("fail-stop");
        tl_sut = false;
        if(abort_cb) abort_cb(abort_ctx);
        finish_ok();
    }
    fail("unexpected-abort", "the process ended itself (%s) although no fault was injected into the operation", why);
}

struct ShadowStack {
    uintptr_t pc[256];
    int n = 0;
};
static thread_local ShadowStack *tl_stack = nullptr;
void shadow_push(uintptr_t pc) {
    auto *s = tl_stack;
    if(!s) {
        s = tl_stack = (ShadowStack *)mmap(nullptr, sizeof(ShadowStack), PROT_READ | PROT_WRITE,
                                           MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    if(s->n < 256) s->pc[s->n] = pc;
    ++s->n;
    if(s->n > 20000) fail("runaway-recursion", "call depth above 20000");
}
void shadow_pop() {
    if(tl_stack && tl_stack->n > 0) --tl_stack->n;
}
static uintptr_t last_pc = 0;
void note_pc(uintptr_t pc) { last_pc = pc; }
static void capture_stack() {
    int k = 0;
    if(last_pc) sh->pcs[k++] = last_pc;
    if(tl_stack) {
        for(int i = std::min(tl_stack->n, 256) - 1; i >= 0 && k < 24; --i)
            sh->pcs[k++] = tl_stack->pc[i];
    }
    sh->npcs = k;
}
void record_switch(int from, int to, uint64_t where) {
    ++sh->switches;
    sh->inter = mix(sh->inter, ((uint64_t)from << 9 | (uint64_t)to) ^ (where << 18));
}
void record_threads(int n) { sh->nthreads = n; }
void nontrivial() { sh->nontrivial = 1; }

static void on_signal(int s, siginfo_t *si, void *) {
    const char *n = s == SIGSEGV ? "SIGSEGV"
                    : s == SIGBUS ? "SIGBUS"
                    : s == SIGFPE ? "SIGFPE"
                    : s == SIGILL ? "SIGILL"
                    : s == SIGABRT ? "SIGABRT"
                                   : "SIGPROF";
    char cls[64];
    if(s == SIGPROF) {
        fail("no-progress", "no end in sight after 20 s of processor time in one run");
    }
    snprintf(cls, sizeof cls, "crash-%s", n);
    uintptr_t a = (uintptr_t)si->si_addr;
    fail(cls, "%s at address %s", n,
         a < 4096 ? "near null"
         : (a - HEAP_BASE < HEAP_SIZE) ? "in heap"
                                       : "wild");
}

void install_altstack() {
    size_t sz = 64 << 10;
    stack_t ss{};
    ss.ss_sp = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_size = sz;
    sigaltstack(&ss, nullptr);
}

static void child_main(Scenario *sc) {
    for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) {
        struct sigaction sa{};
        sa.sa_sigaction = on_signal;
        sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        sigaction(s, &sa, nullptr);
    }
    itimerval tv{};
    tv.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &tv, nullptr);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rlimit as{4ull << 30, 4ull << 30};
    setrlimit(RLIMIT_DATA, &as);
    std::set_terminate([] {
        const char *w = "uncaught exception";
        sut_abort(w);
    });
    heap_init();
    fs_init();
    threads_init();
    run_on_threads(sc->run);
}

struct Params {
    uint64_t seed = 0; // already mixed
    Scenario *sc = nullptr;
    bool replay = false;
    std::vector<uint32_t> ch[NSTREAM];
    bool verbose = false;
};

static double wall() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void exec_run(const Params &p) {
    sh->status = 0;
    sh->in_host = 0;
    sh->cls[0] = sh->msg[0] = 0;
    sh->hash = 1;
    sh->inter = 0;
    sh->steps = sh->simtime = sh->switches = 0;
    sh->nthreads = 1;
    sh->nontrivial = 0;
    sh->npcs = 0;
    memset(sh->nch, 0, sizeof sh->nch);
    memset(sh->probes, 0, sizeof sh->probes);
    memset(sh->faults, 0, sizeof sh->faults);
    sh->nstates = 0;
    sh->tr = 0;
    fflush(stdout);
    pid_t c = fork();
    if(c < 0) {
        perror("fork");
        exit(3);
    }
    if(c == 0) {
        verbose = p.verbose;
        replaying = p.replay;
        for(int i = 0; i < NSTREAM; ++i) {
            rng[i].s = mix(p.seed, 0x1000 + i);
            rep[i] = p.ch[i].data();
            nrep[i] = p.ch[i].size();
        }
        child_main(p.sc);
        _exit(0);
    }
    int st = 0;
    while(waitpid(c, &st, 0) < 0 && errno == EINTR) {
    }
    if(sh->status == 0) {
        sh->status = 2;
        snprintf(sh->cls, sizeof sh->cls, "crash-unreported");
        snprintf(sh->msg, sizeof sh->msg, "child ended with wait status %d before the run was over", st);
    }
}

static std::vector<Scenario *> all_scn() {
    std::vector<Scenario *> v;
    for(auto *s = scenarios; s; s = s->next)
        v.push_back(s);
    std::sort(v.begin(), v.end(), [](auto *a, auto *b) { return strcmp(a->name, b->name) < 0; });
    return v;
}

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for(unsigned char c : s) {
        if(c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if(c < 32 || c > 126) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r + "\"";
}

struct Known {
    std::string cls, needle;
    long hits = 0;
};
static std::vector<Known> kn;
static Known *known_match() {
    for(auto &k : kn)
        if(k.cls == sh->cls && strstr(sh->msg, k.needle.c_str())) return &k;
    return nullptr;
}

// ---- shrinking -----------------------------------------------------------------------------
static size_t weight(const Params &p) {
    size_t n = 0;
    for(auto &c : p.ch) {
        n += c.size() * 4;
        for(auto v : c)
            n += v != 0;
    }
    return n;
}
static Params captured(const Params &p) {
    Params q = p;
    q.replay = true;
    for(int i = 0; i < NSTREAM; ++i) {
        q.ch[i].assign(sh->ch[i], sh->ch[i] + sh->nch[i]);
        while(!q.ch[i].empty() && q.ch[i].back() == 0)
            q.ch[i].pop_back();
    }
    return q;
}
static Params shrink(Params best, const std::string &cls, double budget, int maxruns, int &used) {
    double end = wall() + budget;
    used = 0;
    auto attempt = [&](Params q) {
        if(wall() > end || used >= maxruns) return false;
        ++used;
        exec_run(q);
        if(sh->status == 2 && cls == sh->cls && !known_match()) {
            Params c = captured(q);
            if(weight(c) <= weight(best)) {
                bool smaller = weight(c) < weight(best);
                if(smaller || c.ch[0] < best.ch[0]) {
                    best = c;
                    return true;
                }
                // same weight: accept lower sums
                uint64_t a = 0, b = 0;
                for(int i = 0; i < NSTREAM; ++i) {
                    for(auto v : c.ch[i]) a += v;
                    for(auto v : best.ch[i]) b += v;
                }
                if(a < b) {
                    best = c;
                    return true;
                }
            }
        }
        return false;
    };
    bool progress = true;
    while(progress && wall() < end && used < maxruns) {
        progress = false;
        // whole streams
        for(int s : {FAULT, SCHED, HEAP}) {
            if(best.ch[s].empty()) continue;
            Params q = best;
            q.ch[s].clear();
            progress |= attempt(q);
        }
        // truncate
        for(int s = 0; s < NSTREAM; ++s) {
            for(size_t keep = best.ch[s].size() / 2, step = keep; step > 0; step /= 2) {
                Params q = best;
                if(keep >= q.ch[s].size()) break;
                q.ch[s].resize(keep);
                if(attempt(q)) {
                    progress = true;
                    keep = best.ch[s].size() / 2;
                } else
                    keep += step / 2;
            }
        }
        for(size_t len : {32, 16, 8, 4, 2, 1}) {
            for(int s = 0; s < NSTREAM; ++s) {
                size_t i = 0;
                while(i + len <= best.ch[s].size()) {
                    Params q = best;
                    q.ch[s].erase(q.ch[s].begin() + i, q.ch[s].begin() + i + len);
                    if(attempt(q)) {
                        progress = true;
                        continue;
                    }
                    bool nz = false;
                    q = best;
                    for(size_t k = i; k < i + len; ++k) {
                        nz |= q.ch[s][k] != 0;
                        q.ch[s][k] = 0;
                    }
                    if(nz && attempt(q)) {
                        progress = true;
                    }
                    i += len;
                    if(wall() > end || used >= maxruns) return best;
                }
            }
        }
        for(int s = 0; s < NSTREAM; ++s) {
            for(size_t i = 0; i < best.ch[s].size(); ++i) {
                for(int k = 0; k < 2; ++k) {
                    if(i >= best.ch[s].size() || best.ch[s][i] == 0) break;
                    Params q = best;
                    q.ch[s][i] = k == 0 ? q.ch[s][i] / 2 : q.ch[s][i] - 1;
                    progress |= attempt(q);
                }
                if(wall() > end || used >= maxruns) return best;
            }
        }
    }
    return best;
}

static void write_replay(const std::string &path, const Params &p, const char *prop, uint64_t seed,
                         long run, int shrunk) {
    FILE *f = fopen(path.c_str(), "w");
    if(!f) {
        perror(path.c_str());
        exit(3);
    }
    fprintf(f, "pystd-sim-replay 1\nproperty %s\nscenario %s\nseed %llu\nrun %ld\nclass %s\nhash %016llx\nshrink-runs %d\n",
            prop, p.sc->name, (unsigned long long)seed, run, sh->cls, (unsigned long long)sh->hash, shrunk);
    static const char *names[] = {"work", "sched", "fault", "heap"};
    for(int s = 0; s < NSTREAM; ++s) {
        fprintf(f, "%s %zu", names[s], p.ch[s].size());
        for(auto v : p.ch[s])
            fprintf(f, " %u", v);
        fprintf(f, "\n");
    }
    fprintf(f, "pcs");
    for(int i = 0; i < sh->npcs; ++i)
        fprintf(f, " 0x%llx", (unsigned long long)sh->pcs[i]);
    fprintf(f, "\nmessage %s\n", sh->msg);
    fprintf(f, "---- trace of the minimised run ----\n%.*s", (int)sh->tr, sh->trace);
    fclose(f);
}

static int do_replay(const char *path) {
    FILE *f = fopen(path, "r");
    if(!f) {
        perror(path);
        return 3;
    }
    std::string text;
    char buf[65536];
    size_t n;
    while((n = fread(buf, 1, sizeof buf, f)) > 0)
        text.append(buf, n);
    fclose(f);
    Params p;
    p.replay = true;
    p.verbose = true;
    std::string cls, prop;
    unsigned long long hash = 0;
    static const char *names[] = {"work", "sched", "fault", "heap"};
    size_t pos = 0;
    while(pos < text.size()) {
        size_t e = text.find('\n', pos);
        if(e == std::string::npos) e = text.size();
        std::string line = text.substr(pos, e - pos);
        pos = e + 1;
        if(line.rfind("----", 0) == 0) break;
        size_t sp = line.find(' ');
        std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
        if(k == "scenario") {
            for(auto *s : all_scn())
                if(v == s->name) p.sc = s;
        } else if(k == "class")
            cls = v;
        else if(k == "property")
            prop = v;
        else if(k == "hash")
            hash = strtoull(v.c_str(), nullptr, 16);
        for(int s = 0; s < NSTREAM; ++s)
            if(k == names[s]) {
                char *q = (char *)v.c_str();
                size_t cnt = strtoull(q, &q, 10);
                for(size_t i = 0; i < cnt; ++i)
                    p.ch[s].push_back(strtoul(q, &q, 10));
            }
    }
    if(!p.sc) {
        fprintf(stderr, "unknown scenario\n");
        return 3;
    }
    exec_run(p);
    fwrite(sh->trace, 1, sh->tr, stdout);
    bool same = sh->status == 2 && cls == sh->cls && sh->hash == hash;
    printf("REPLAY property=%s scenario=%s status=%s class=%s hash=%016llx expected=%s/%016llx %s\n", prop.c_str(),
           p.sc->name, sh->status == 2 ? "violation" : "ok", sh->cls, (unsigned long long)sh->hash, cls.c_str(), hash,
           same ? "REPRODUCED" : "DIFFERENT");
    return same ? 1 : sh->status == 2 ? 4 : 0;
}


static int sim_main(int argc, char **argv) {
    const char *prop = "?", *out = nullptr, *rdir = ".", *known = nullptr, *only = nullptr;
    uint64_t seed = 1;
    long from = 0, count = 100, stride = 1;
    double maxs = 1e9, shrink_s = 20;
    bool show_hash = false, vb = false;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
        if(a == "--replay") return do_replay(nx());
        if(a == "--prop") prop = nx();
        else if(a == "--out") out = nx();
        else if(a == "--replay-dir") rdir = nx();
        else if(a == "--known") known = nx();
        else if(a == "--seed") seed = strtoull(nx(), nullptr, 10);
        else if(a == "--from") from = atol(nx());
        else if(a == "--count") count = atol(nx());
        else if(a == "--stride") stride = atol(nx());
        else if(a == "--max-seconds") maxs = atof(nx());
        else if(a == "--shrink-seconds") shrink_s = atof(nx());
        else if(a == "--only") only = nx();
        else if(a == "--ignore") ignore_classes = nx();
        else if(a == "--need-fault") need_fault = nx();
        else if(a == "--hashes") show_hash = true;
        else if(a == "--verbose") vb = true;
        else if(a == "--list") {
            for(auto *s : all_scn())
                printf("%s %d\n", s->name, s->weight);
            return 0;
        } else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 3;
        }
    }
    if(known) {
        if(FILE *f = fopen(known, "r")) {
            char line[2000];
            while(fgets(line, sizeof line, f)) {
                // finding: property=<id> class=<class> match=<text> # what
                char id[40], c[90], m[600];
                if(sscanf(line, "finding: property=%39s class=%89s match=\"%599[^\"]\"", id, c, m) == 3 &&
                   strcmp(id, prop) == 0)
                    kn.push_back({c, m, 0});
            }
            fclose(f);
        }
    }
    std::vector<Scenario *> wheel;
    for(auto *s : all_scn()) {
        if(only) { // comma-separated parts of names
            bool hit = false;
            for(const char *q = only; *q && !hit;) {
                size_t n = strcspn(q, ",");
                hit = n && memmem(s->name, strlen(s->name), q, n);
                q += n + (q[n] == ',');
            }
            if(!hit) continue;
        }
        for(int k = 0; k < s->weight; ++k)
            wheel.push_back(s);
    }
    if(wheel.empty()) {
        fprintf(stderr, "no scenarios\n");
        return 3;
    }
    uint64_t pseed = seed;
    for(const char *q = prop; *q; ++q)
        pseed = mix(pseed, *q);
    std::map<std::string, uint64_t> probes, flts, scn;
    std::set<uint64_t> inter, states, hashes;
    uint64_t steps_t = 0, simt = 0, switches = 0, combined = 0, fault_runs = 0, mt_runs = 0;
    long done = 0;
    double t0 = wall();
    std::string viol = "[]";
    int nviol = 0;
    std::string viols;
    long next_from = -1;
    for(long i = from; i < count; i += stride) {
        if(wall() - t0 > maxs) {
            next_from = i;
            break;
        }
        Params p;
        p.seed = mix(pseed, i);
        p.sc = wheel[(i + mix(99, i / wheel.size())) % wheel.size()]; // turned, so that no worker always gets the same
        p.verbose = vb;
        exec_run(p);
        ++done;
        ++scn[p.sc->name];
        steps_t += sh->steps;
        simt += sh->simtime;
        switches += sh->switches;
        combined += mix(sh->hash, i);
        if(sh->nthreads > 1) {
            ++mt_runs;
            inter.insert(sh->inter);
        }
        if(sh->faults[0].name[0]) ++fault_runs;
        if(sh->nontrivial || sh->faults[0].name[0] || sh->switches >= 2) hashes.insert(sh->hash);
        for(auto &c : sh->probes)
            if(c.name[0]) probes[c.name] += c.n;
            else break;
        for(auto &c : sh->faults)
            if(c.name[0]) flts[c.name] += c.n;
            else break;
        for(int k = 0; k < sh->nstates; ++k)
            states.insert(sh->states[k]);
        if(show_hash) printf("%ld %s %016llx %s\n", i, p.sc->name, (unsigned long long)sh->hash, sh->cls);
        if(vb) {
            fwrite(sh->trace, 1, sh->tr, stdout);
            printf("run %ld %s status %d steps %llu\n", i, p.sc->name, sh->status, (unsigned long long)sh->steps);
        }
        if(sh->status == 2) {
            if(auto *k = known_match()) {
                ++k->hits;
                continue;
            }
            std::string cls = sh->cls;
            uint64_t h1 = sh->hash;
            std::string orig_msg = sh->msg;
            // the same seed again must be the same execution
            exec_run(p);
            bool same = sh->status == 2 && cls == sh->cls && sh->hash == h1;
            Params c = captured(p);
            int used = 0;
            Params small = shrink(c, cls, shrink_s, 3000, used);
            small.verbose = true;
            exec_run(small);
            std::string path = std::string(rdir) + "/" + prop + "-s" + std::to_string(seed) + "-r" + std::to_string(i) + ".replay";
            bool ok2 = sh->status == 2 && cls == sh->cls;
            write_replay(path, small, prop, seed, i, used);
            if(nviol) viols += ",";
            viols += "{\"run\":" + std::to_string(i) + ",\"scenario\":" + jstr(p.sc->name) + ",\"class\":" + jstr(cls) +
                     ",\"message\":" + jstr(sh->msg) + ",\"original_message\":" + jstr(orig_msg) +
                     ",\"replay\":" + jstr(path) + ",\"same_seed_same_hash\":" + (same ? "true" : "false") +
                     ",\"shrunk_ok\":" + (ok2 ? "true" : "false") + ",\"pcs\":[";
            for(int k = 0; k < sh->npcs; ++k)
                viols += (k ? "," : "") + std::to_string(sh->pcs[k]);
            viols += "]}";
            ++nviol;
            break; // first violation of this worker is enough
        }
    }
    double el = wall() - t0;
    FILE *f = out ? fopen(out, "w") : stdout;
    if(!f) {
        perror(out);
        return 3;
    }
    fprintf(f, "{\"runs\":%ld,\"wall_s\":%.3f,\"steps\":%llu,\"simtime\":%llu,\"switches\":%llu,\"combined\":\"%016llx\",",
            done, el, (unsigned long long)steps_t, (unsigned long long)simt, (unsigned long long)switches,
            (unsigned long long)combined);
    fprintf(f, "\"fault_runs\":%llu,\"multi_thread_runs\":%llu,\"next_from\":%ld,", (unsigned long long)fault_runs,
            (unsigned long long)mt_runs, next_from);
    auto dump = [&](const char *n, std::map<std::string, uint64_t> &m) {
        fprintf(f, "\"%s\":{", n);
        bool first = true;
        for(auto &[k, v] : m) {
            fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v);
            first = false;
        }
        fprintf(f, "},");
    };
    dump("probes", probes);
    dump("faults", flts);
    dump("scenarios", scn);
    fprintf(f, "\"known\":[");
    for(size_t k = 0; k < kn.size(); ++k)
        fprintf(f, "%s%ld", k ? "," : "", kn[k].hits);
    fprintf(f, "],\"violations\":[%s]}\n", viols.c_str());
    if(out) {
        fclose(f);
        auto dumpset = [&](const char *ext, std::set<uint64_t> &s) {
            std::string pth = std::string(out) + ext;
            if(FILE *g = fopen(pth.c_str(), "w")) {
                for(auto v : s)
                    fwrite(&v, 8, 1, g);
                fclose(g);
            }
        };
        dumpset(".inter", inter);
        dumpset(".states", states);
        dumpset(".runs", hashes);
    }
    return nviol ? 1 : 0;
}
} // namespace sim

int main(int argc, char **argv) {
    using namespace sim;
    auto fix = [](uintptr_t a, size_t n) {
        void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(p != (void *)a) {
            fprintf(stderr, "cannot map simulator arena at %p\n", (void *)a);
            exit(3);
        }
    };
    fix(HEAP_BASE, HEAP_SIZE);
    fix(STACK_BASE, STACK_SIZE * MAXSTACK);
    fix(SHADOW_BASE, HEAP_SIZE / 8);
    fix(CELL_BASE, HEAP_SIZE * 4);
    fix(DCELL_BASE, 1ull << 30);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return sim_main(argc, argv);
}
