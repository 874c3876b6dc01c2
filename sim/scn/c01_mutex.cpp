// C01: mutual exclusion, linearizable lock/try_lock/unlock, visibility, progress.
#include "ns.hpp"

namespace {
struct Shared {
    P::Mutex m[3];
    // Plain data guarded by m[i]; the race detector and the oracle both watch it.
    uint64_t a[3];
    uint64_t b[3];
    uint64_t buf[3][4];
};
struct Model {
    int nm, nt, nops;
    int owner[3];
    uint64_t expect[3];
    int use; // mix
    bool kill; // throw out of guarded sections
    Shared *sh;
};
static Model *M;
struct Work {
    int id;
};

void critical(Model &m, int i, int id, const char *how) {
    host([&] {
        SIM_CHECK(m.owner[i] < 0, "mutual-exclusion", "t%d entered a section held by t%d (%s)", id, m.owner[i], how);
        m.owner[i] = id;
    });
    // Non atomic read-modify-write of shared plain memory.
    auto &s = *m.sh;
    uint64_t x = s.a[i];
    uint64_t y = s.b[i];
    host([&] {
        SIM_CHECK(x == m.expect[i] && y == x * 3, "lost-update", "mutex %d: t%d sees %llu/%llu, %llu updates were made under the lock", i, id,
                  (unsigned long long)x, (unsigned long long)y, (unsigned long long)m.expect[i]);
    });
    s.a[i] = x + 1;
    for(auto &e : s.buf[i])
        e += x + 1;
    s.b[i] = (x + 1) * 3;
    host([&] {
        SIM_CHECK(m.owner[i] == id, "mutual-exclusion", "the section of t%d was taken over by t%d", id, m.owner[i]);
        m.owner[i] = -1;
        ++m.expect[i];
    });
}

struct Boom {};

void *body(void *ctx) {
    auto &w = *(Work *)ctx;
    auto &m = *M;
    int id = w.id;
    int n = host([&] { return 1 + (int)pick(m.nops); });
    for(int k = 0; k < n; ++k) {
        int i, how;
        host([&] {
            i = pick(m.nm);
            how = pick(m.use);
            op_begin();
            log("t%d op %d on mutex %d", id, how, i);
        });
        P::Mutex &mx = m.sh->m[i];
        switch(how) {
        case 0: {
            P::LockGuard<P::Mutex> g(mx);
            critical(m, i, id, "guard");
            break;
        }
        case 1:
            mx.lock();
            critical(m, i, id, "lock");
            mx.unlock();
            break;
        case 2: {
            uint64_t before = host([&] { return now(); });
            (void)before;
            bool got = mx.try_lock();
            if(got) {
                critical(m, i, id, "try_lock");
                mx.unlock();
                host([&] { probe("try_lock succeeded"); });
            } else
                host([&] { probe("try_lock refused"); });
            break;
        }
        case 3: // leave the guarded section by an exception
            try {
                P::LockGuard<P::Mutex> g(mx);
                critical(m, i, id, "guard+throw");
                throw Boom();
            } catch(Boom &) {
            }
            host([&] { probe("left guard by exception"); });
            break;
        case 4: { // nested, in a global order
            if(i + 1 >= m.nm) break;
            P::LockGuard<P::Mutex> g(mx);
            P::LockGuard<P::Mutex> h2(m.sh->m[i + 1]);
            critical(m, i, id, "nested outer");
            critical(m, i + 1, id, "nested inner");
            break;
        }
        case 5: { // spin on try_lock: must get in once the holder leaves
            int spins = 0;
            while(!mx.try_lock()) {
                host([&] {
                    yield_point();
                    SIM_CHECK(++spins < 20000, "no-progress", "20000 try_lock calls in a row failed");
                });
            }
            critical(m, i, id, "spin");
            mx.unlock();
            break;
        }
        case 6: { // early return through a guard
            auto f = [&]() -> int {
                P::LockGuard<P::Mutex> g(mx);
                critical(m, i, id, "early return");
                if(m.expect[i] & 1) return 1;
                return 2;
            };
            f();
            break;
        }
        }
        host([&] {
            int held = mutexes_held_by_self();
            SIM_CHECK(held == 0, "lock-not-released", "t%d still holds %d mutex(es) after leaving its section (op %d)", id, held, how);
            state(m.expect[0] * 64 + m.expect[1] * 8 + m.expect[2]);
        });
    }
    return ctx;
}

// A quiescent mutex: try_lock must succeed, a second one must refuse, from any thread.
struct Other {
    P::Mutex *m;
    bool got;
};
void *other_try(void *ctx) {
    auto *o = (Other *)ctx;
    bool got = o->m->try_lock();
    if(got) o->m->unlock();
    host([&] { o->got = got; });
    return nullptr;
}
} // namespace

static void exclusion(bool crowd) {
    randomize_heap();
    randomize_sched();
    Model m{};
    M = &m;
    m.nt = 2 + pick(4);
    m.nm = 1 + pick(3);
    m.nops = 2 + pick(7);
    int used = 0; // how often the mutexes were used before
    if(crowd) {
        allow_steps(100000000);
        if(pick(4))
            m.nt = flip(1, 8) ? 200 + pick(70) : 2 + pick(70), m.nops = 1 + pick(3);
        if(flip(1, 3)) used = flip(1, 10) ? 65500 + pick(80) : 200 + pick(120);
        if(m.nt > 64) probe("more than 64 threads");
        if(m.nt > 255) probe("more than 255 threads");
    }
    m.use = 1 + pick(7);
    for(auto &o : m.owner)
        o = -1;
    m.sh = make<Shared>();
    for(int i = 0; i < 3; ++i) {
        m.sh->a[i] = m.sh->b[i] = 0;
        for(auto &x : m.sh->buf[i])
            x = 0;
    }
    log("%d threads, %d mutexes", m.nt, m.nm);
    sut([&] {
        for(int k = 0; k < used; ++k) {
            P::Mutex &mx = m.sh->m[k % m.nm];
            if(k % 3 || !mx.try_lock()) mx.lock();
            mx.unlock();
        }
    });
    std::vector<Work> w(m.nt);
    std::vector<P::Thread *> t;
    for(int i = 0; i < m.nt; ++i) {
        w[i].id = i + 1;
        t.push_back(make<P::Thread>(body, (void *)&w[i]));
    }
    // the main thread takes part too
    Work mw{0};
    if(coin()) sut([&] { body(&mw); });
    for(auto *x : t) {
        if(coin()) sut([&] { x->join(); });
        destroy(x);
    }
    for(int i = 0; i < m.nm; ++i) {
        uint64_t a = m.sh->a[i];
        SIM_CHECK(a == m.expect[i], "lost-update", "mutex %d: %llu updates survive of %llu", i, (unsigned long long)a,
                  (unsigned long long)m.expect[i]);
        uint64_t sum = a * (a + 1) / 2;
        for(auto x : m.sh->buf[i])
            SIM_CHECK(x == sum, "lost-update", "mutex %d: buffer differs", i);
        // the mutex is free and usable once everybody is done
        SIM_CHECK(sut([&] { return m.sh->m[i].try_lock(); }), "no-progress", "try_lock of an idle mutex refused");
        SIM_CHECK(!sut([&] { return m.sh->m[i].try_lock(); }), "mutual-exclusion", "try_lock of a held mutex succeeded");
        sut([&] { m.sh->m[i].unlock(); });
    }
    destroy(m.sh);
    check_no_leaks("the run");
}
SIM_SCENARIO(mutex_exclusion, 8) { exclusion(false); }
SIM_SCENARIO(mutex_crowd, 1) { exclusion(true); }

// History of lock/try_lock/unlock checked against the sequential specification of a lock:
// between a successful acquisition and its release nobody else acquires, and a try_lock fails only
// if somebody held the lock at some instant of the call.
namespace {
struct Ev {
    int tid, kind; // 1 acquired, 0 released, 2 refused
    uint64_t inv, res;
};
std::vector<Ev> *H;
P::Mutex *LM;
int LN;
void *lin_body(void *ctx) {
    int id = (int)(intptr_t)ctx;
    for(int k = 0; k < LN; ++k) {
        int how = host([&] { return (int)pick(3); });
        uint64_t inv = host([&] { return steps(); });
        bool got = true;
        if(how == 0)
            LM->lock();
        else
            got = LM->try_lock();
        host([&] { H->push_back({id, got ? 1 : 2, inv, steps()}); });
        if(got) {
            if(how == 2) host([&] { yield_point(); });
            inv = host([&] { return steps(); });
            LM->unlock();
            host([&] { H->push_back({id, 0, inv, steps()}); });
        }
    }
    return nullptr;
}
} // namespace
SIM_SCENARIO(mutex_history, 4) {
    randomize_heap();
    randomize_sched();
    std::vector<Ev> hist;
    H = &hist;
    LM = make<P::Mutex>();
    LN = 1 + pick(5);
    int nt = 2 + pick(3);
    std::vector<P::Thread *> t;
    for(int i = 0; i < nt; ++i)
        t.push_back(make<P::Thread>(lin_body, (void *)(intptr_t)(i + 1)));
    for(auto *x : t)
        destroy(x);
    // Pair up acquisitions and releases per thread: the lock is surely held on [acq.res, rel.inv],
    // possibly held on [acq.inv, rel.res].
    struct Iv {
        int tid;
        uint64_t s0, s1, p0, p1;
    };
    std::vector<Iv> iv;
    std::map<int, Ev> open;
    for(auto &e : hist) {
        if(e.kind == 1) open[e.tid] = e;
        if(e.kind == 0) {
            auto a = open[e.tid];
            iv.push_back({e.tid, a.res, e.inv, a.inv, e.res});
        }
    }
    for(auto &a : iv)
        for(auto &b : iv)
            SIM_CHECK(&a == &b || a.tid == b.tid || a.s1 <= b.s0 || b.s1 <= a.s0, "not-linearizable",
                      "t%d and t%d held the lock at the same time", a.tid, b.tid);
    for(auto &e : hist)
        if(e.kind == 2) {
            bool excuse = false;
            for(auto &a : iv)
                excuse |= a.tid != e.tid && a.p0 <= e.res && e.inv <= a.p1;
            SIM_CHECK(excuse, "not-linearizable", "try_lock of t%d refused although nobody could hold the lock during the call", e.tid);
        }
    probe("history checked");
    destroy(LM);
}

// Message passing through a mutex: everything written before unlock is seen after the next lock.
namespace {
struct Box {
    P::Mutex m;
    bool full = false;
    P::CString *text = nullptr;
    uint64_t seq = 0;
};
struct Pc {
    Box *b;
    int n;
    std::vector<std::string> *got;
    std::vector<std::string> *put;
};
void *producer(void *c) {
    auto &p = *(Pc *)c;
    for(int i = 0; i < p.n;) {
        bool done = false;
        {
            P::LockGuard<P::Mutex> g(p.b->m);
            if(!p.b->full) {
                std::string s = host([&] { return fmt("message %d %llu", i, (unsigned long long)pick(1000)); });
                p.b->text = host([&] { return make<P::CString>(s.c_str()); });
                p.b->seq = i;
                p.b->full = true;
                host([&] { p.put->push_back(s); });
                done = true;
            }
        }
        if(done)
            ++i;
        else
            host([&] { yield_point(); });
    }
    return nullptr;
}
void *consumer(void *c) {
    auto &p = *(Pc *)c;
    for(int i = 0, spins = 0; i < p.n;) {
        bool done = false;
        {
            P::LockGuard<P::Mutex> g(p.b->m);
            if(p.b->full) {
                size_t n = p.b->text->size();
                const char *s = p.b->text->c_str();
                host([&] { p.got->push_back(std::string(s, n)); });
                host([&] { destroy(p.b->text); });
                p.b->text = nullptr;
                p.b->full = false;
                done = true;
            }
        }
        if(done)
            ++i;
        else
            host([&] {
                yield_point();
                SIM_CHECK(++spins < 100000, "no-progress", "the consumer never sees the message");
            });
    }
    return nullptr;
}
} // namespace
SIM_SCENARIO(mutex_handover, 3) {
    randomize_heap();
    randomize_sched();
    if(sched().sync_den == 0) sched().sync_den = 2;
    std::vector<std::string> got, put;
    Box *b = make<Box>();
    Pc pc{b, 1 + (int)pick(6), &got, &put};
    auto *t1 = make<P::Thread>(producer, (void *)&pc);
    auto *t2 = make<P::Thread>(consumer, (void *)&pc);
    destroy(t1);
    destroy(t2);
    SIM_CHECK(got == put, "lost-update", "messages handed over under the mutex arrive changed");
    destroy(b);
    check_no_leaks("the run");
}
SIM_SCENARIO(mutex_idle, 1) {
    randomize_heap();
    randomize_sched();
    auto *m = make<P::Mutex>();
    int n = 1 + pick(4);
    bool held = false;
    for(int i = 0; i < n; ++i) {
        if(held) {
            if(coin()) {
                sut([&] { m->unlock(); });
                held = false;
            } else
                SIM_CHECK(!sut([&] { return m->try_lock(); }), "mutual-exclusion", "try_lock of a held mutex succeeded");
        } else {
            if(coin())
                sut([&] { m->lock(); });
            else
                SIM_CHECK(sut([&] { return m->try_lock(); }), "no-progress", "try_lock of an idle mutex refused");
            held = true;
        }
        // somebody else has the same view
        for(int k = 0; k < 2; ++k) {
            Other o{m, false};
            auto *t = make<P::Thread>(other_try, (void *)&o);
            sut([&] { t->join(); });
            destroy(t);
            SIM_CHECK(o.got == !held, held ? "mutual-exclusion" : "no-progress", "try_lock of a %s mutex from another thread (attempt %d) gave %d",
                      held ? "held" : "free", k, o.got);
        }
    }
    if(held) sut([&] { m->unlock(); });
    destroy(m);
}

// The last user of an object guarded by a mutex inside it destroys the object, mutex and all, as soon as it has
// left the guarded section: nobody else may still touch the mutex then, in particular not a thread whose unlock
// has let the last user in.
namespace {
struct Counted {
    P::Mutex m;
    uint64_t refs = 0;
    uint64_t payload = 0;
};
struct User {
    Counted *c;
    int how, extra;
};
int counted_destroyed;
void *counted_user(void *ctx) {
    auto *u = (User *)ctx;
    Counted *c = u->c;
    for(int k = 0; k <= u->extra; ++k) {
        bool last = false;
        if(u->how == 0) {
            c->m.lock();
        } else {
            int spins = 0;
            while(!c->m.try_lock())
                host([&] {
                    yield_point();
                    SIM_CHECK(++spins < 20000, "no-progress", "20000 try_lock calls in a row failed");
                });
        }
        ++c->payload;
        if(k == u->extra) last = --c->refs == 0;
        c->m.unlock();
        if(last) {
            host([&] { ++counted_destroyed; });
            host([&] { destroy(c); });
        }
    }
    return nullptr;
}
} // namespace
SIM_SCENARIO(mutex_last_user, 3) {
    randomize_heap();
    randomize_sched();
    counted_destroyed = 0;
    int nt = 2 + pick(3);
    auto *c = make<Counted>();
    c->refs = nt;
    std::vector<User> us(nt);
    std::vector<P::Thread *> t;
    for(int i = 0; i < nt; ++i) {
        us[i] = User{c, (int)pick(2), (int)pick(3)};
        t.push_back(make<P::Thread>(counted_user, (void *)&us[i]));
    }
    for(auto *x : t)
        destroy(x);
    SIM_CHECK(counted_destroyed == 1, "lost-update", "%d threads found themselves the last user of the object", counted_destroyed);
    probe("last user destroyed the mutex");
    check_no_leaks("the run");
}
