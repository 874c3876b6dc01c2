// C02: failing lock operations are reported truthfully; guards acquire once and release once.
#include "ns.hpp"

namespace {
struct Sh {
    P::Mutex m[2];
    uint64_t v[2];
};
struct Ctx {
    Sh *sh;
    int nm, nops, mix, id;
};
int owner[2];
uint64_t expect[2];
struct Boom {
    int k;
};

void enter(int i, int id) {
    host([&] {
        SIM_CHECK(mutexes_held_by_self() >= 1, "false-success", "t%d was told it holds mutex %d but the lock was never taken", id, i);
        SIM_CHECK(owner[i] < 0, "mutual-exclusion", "t%d is in although t%d holds mutex %d", id, owner[i], i);
        owner[i] = id;
    });
}
void work(Sh *sh, int i, int id) {
    uint64_t x = sh->v[i];
    sh->v[i] = x + 1;
    host([&] {
        SIM_CHECK(x == expect[i], "lost-update", "t%d sees %llu of %llu updates", id, (unsigned long long)x, (unsigned long long)expect[i]);
        ++expect[i];
    });
}
void leave_(int i, int id) {
    host([&] {
        SIM_CHECK(owner[i] == id, "mutual-exclusion", "mutex %d of t%d was taken over by t%d", i, id, owner[i]);
        owner[i] = -1;
    });
}
// unlock may be refused; then the mutex is still ours and we try again
void unlock_all_the_way(P::Mutex &m, int i, int id) {
    for(int k = 0;; ++k) {
        int before = host([&] {
            op_begin();
            return mutexes_held_by_self();
        });
        bool threw = false;
        if(k == 0) leave_(i, id); // from here on another thread may get in
        try {
            m.unlock();
        } catch(P::PyException &) {
            threw = true;
        }
        host([&] {
            int after = mutexes_held_by_self();
            if(threw) {
                SIM_CHECK(op_faults(), "false-failure", "unlock of a held mutex threw although nothing failed");
                SIM_CHECK(after == before, "state-changed", "unlock threw but released the mutex");
                probe("unlock refused and reported");
            } else {
                SIM_CHECK(after == before - 1, "false-success", "unlock of mutex %d returned normally but the mutex is still locked", i);
                SIM_CHECK(!op_faults(), "false-success", "unlock returned normally although the system refused it");
            }
        });
        if(!threw) break;
        if(k > 200) host([&] { fail("no-progress", "unlock refused 200 times"); });
    }
}

void *body(void *c) {
    auto &x = *(Ctx *)c;
    int n = host([&] { return 1 + (int)pick(x.nops); });
    for(int k = 0; k < n; ++k) {
        int i = 0, how = 0;
        host([&] {
            i = pick(x.nm);
            how = pick(x.mix);
            op_begin();
            log("t%d op %d mutex %d", x.id, how, i);
        });
        auto &m = x.sh->m[i];
        switch(how) {
        case 0: { // lock
            bool threw = false;
            try {
                m.lock();
            } catch(P::PyException &) {
                threw = true;
            }
            if(threw) {
                host([&] {
                    SIM_CHECK(op_faults(), "false-failure", "lock threw although nothing failed");
                    SIM_CHECK(mutexes_held_by_self() == 0, "state-changed", "lock threw but the mutex is locked");
                    probe("lock refused and reported");
                });
                break;
            }
            host([&] { SIM_CHECK(!op_faults(), "false-success", "lock returned normally although the system refused it"); });
            enter(i, x.id);
            work(x.sh, i, x.id);
            unlock_all_the_way(m, i, x.id);
            break;
        }
        case 1: { // try_lock
            bool threw = false, got = false;
            try {
                got = m.try_lock();
            } catch(P::PyException &) {
                threw = true;
            }
            if(threw || !got) {
                host([&] {
                    SIM_CHECK(mutexes_held_by_self() == 0, "state-changed", "try_lock %s but the mutex is locked", threw ? "threw" : "was refused");
                    if(threw) SIM_CHECK(op_faults(), "false-failure", "try_lock threw although nothing failed");
                    if(op_faults()) probe("try_lock failure reported");
                });
                break;
            }
            host([&] { SIM_CHECK(!op_faults(), "false-success", "try_lock said yes although the system refused it"); });
            enter(i, x.id);
            work(x.sh, i, x.id);
            unlock_all_the_way(m, i, x.id);
            break;
        }
        case 2:   // guard, normal exit
        case 3:   // guard, exception out of the section
        case 4:   // guard, early return
        case 5: { // guard, break out of a loop
            bool in = false, refused = false, boom = false;
            auto saved = host([&] {
                // a refused unlock inside a destructor can only end the process: rare
                bool s = faults().mx_unlock;
                if(pick(40)) faults().mx_unlock = false;
                return s;
            });
            auto f = [&]() -> int {
                for(int r = 0; r < 2; ++r) {
                    P::LockGuard<P::Mutex> g(m);
                    in = true;
                    enter(i, x.id);
                    work(x.sh, i, x.id);
                    leave_(i, x.id);
                    if(how == 3) throw Boom{r};
                    if(how == 4) return r;
                    if(how == 5) break;
                }
                return 7;
            };
            try {
                f();
            } catch(Boom &) {
                boom = true;
            } catch(P::PyException &) {
                refused = true;
            }
            host([&] {
                faults().mx_unlock = saved;
                int held = mutexes_held_by_self();
                SIM_CHECK(held == 0, "lock-not-released", "t%d left the guarded scope (way %d) and still holds the mutex", x.id, how);
                if(refused) {
                    SIM_CHECK(op_faults(), "false-failure", "a guard threw although nothing failed");
                    probe("guard not acquired");
                } else {
                    SIM_CHECK(in, "false-success", "guarded section skipped");
                    SIM_CHECK(boom == (how == 3), "wrong-exception", "exception lost or made up");
                    SIM_CHECK(!op_faults("pthread_mutex_lock"), "false-success", "the guard went on although the system refused the lock");
                    if(boom) probe("guard left by exception");
                }
            });
            break;
        }
        }
    }
    return nullptr;
}
} // namespace

SIM_SCENARIO(lock_faults, 8) {
    randomize_heap();
    randomize_sched();
    auto *sh = make<Sh>();
    sh->v[0] = sh->v[1] = 0;
    owner[0] = owner[1] = -1;
    expect[0] = expect[1] = 0;
    int nt = 1 + pick(4);
    std::vector<Ctx> c(nt + 1);
    int nm = 1 + pick(2), nops = 1 + pick(8), mix = 1 + pick(6);
    for(int i = 0; i <= nt; ++i)
        c[i] = {sh, nm, nops, mix, i};
    auto &f = faults();
    f.th_den = 2 + pick(10);
    f.mx_lock = flip(2, 3);
    f.mx_trylock = flip(2, 3);
    f.mx_unlock = flip(1, 2);
    std::vector<P::Thread *> t;
    for(int i = 1; i <= nt; ++i)
        t.push_back(make<P::Thread>(body, (void *)&c[i]));
    if(coin()) sut([&] { body(&c[0]); });
    for(auto *x : t)
        destroy(x);
    f = Faults{};
    for(int i = 0; i < 2; ++i) {
        SIM_CHECK(sh->v[i] == expect[i], "lost-update", "mutex %d: %llu of %llu updates", i, (unsigned long long)sh->v[i], (unsigned long long)expect[i]);
        // once the faults stop, everything works again
        op_begin();
        sut([&] { sh->m[i].lock(); });
        SIM_CHECK(mutexes_held_by_self() == 1, "false-success", "lock after the faults");
        SIM_CHECK(!sut([&] { return sh->m[i].try_lock(); }), "mutual-exclusion", "try_lock of a held mutex");
        sut([&] { sh->m[i].unlock(); });
        SIM_CHECK(mutexes_held_by_self() == 0, "lock-not-released", "unlock after the faults");
    }
    destroy(sh);
    check_no_leaks("the run");
}

// Mutex creation itself may be refused: what is handed out must still be a working mutex.
SIM_SCENARIO(mutex_init_fault, 1) {
    randomize_heap();
    faults().mx_init = true;
    faults().th_den = 1 + pick(2);
    P::Mutex *m = nullptr;
    op_begin();
    try {
        m = make<P::Mutex>();
    } catch(P::PyException &) {
        SIM_CHECK(op_faults(), "false-failure", "creating a mutex threw");
    }
    faults().mx_init = false;
    if(m) {
        sut([&] { m->lock(); });
        SIM_CHECK(mutexes_held_by_self() == 1, "false-success", "lock of a mutex whose creation was refused does nothing");
        SIM_CHECK(!sut([&] { return m->try_lock(); }), "mutual-exclusion", "try_lock of a held mutex");
        sut([&] { m->unlock(); });
        SIM_CHECK(mutexes_held_by_self() == 0, "lock-not-released", "unlock");
        destroy(m);
        nontrivial();
    }
}

// The guard works with anything that locks and unlocks; count exactly.
namespace {
struct Fussy {
    int locked = 0, unlocked = 0, refused = 0, depth = 0, max_depth = 0;
    bool refuse = false;
    P::Mutex *inner = nullptr;
    void lock() {
        if(host([&] { return refuse; })) {
            host([&] {
                ++refused;
                fault_fired("lock refused (user-defined lockable)");
            });
            throw Boom{9};
        }
        if(inner) inner->lock();
        host([&] {
            ++locked;
            ++depth;
            max_depth = std::max(depth, max_depth);
        });
    }
    void unlock() {
        host([&] {
            SIM_CHECK(depth > 0, "released-not-acquired", "a guard released a lock it never acquired");
            ++unlocked;
            --depth;
        });
        if(inner) inner->unlock();
    }
};
struct FCtx {
    Fussy *l;
    int n, id;
};
int wanted, got_in;
void nest(Fussy &l, int depth, int how) {
    P::LockGuard<Fussy> g(l);
    host([&] {
        ++got_in;
        SIM_CHECK(l.depth >= 1, "false-success", "inside the guard but not locked");
    });
    if(depth > 0) nest(l, depth - 1, how);
    if(how == 1 && depth == 0) throw Boom{1};
    if(how == 2) return;
}
void *fbody(void *c) {
    auto &x = *(FCtx *)c;
    for(int k = 0; k < x.n; ++k) {
        int how = 0, depth = 0;
        bool refuse = false;
        host([&] {
            how = pick(3);
            depth = x.l->inner ? 0 : pick(4);
            if(!x.l->inner) refuse = x.l->refuse = chance(FAULT, 1, 4);
            op_begin();
        });
        int in0 = host([&] { return got_in; });
        bool boom = false;
        int k9 = 0;
        try {
            nest(*x.l, depth, how);
        } catch(Boom &b) {
            boom = true;
            k9 = b.k;
        }
        host([&] {
            if(!x.l->inner) {
                SIM_CHECK(x.l->depth == 0, "lock-not-released", "%d acquisitions not given back", x.l->depth);
                SIM_CHECK(boom == (refuse || how == 1), "wrong-exception", "exception lost or made up");
                if(boom) SIM_CHECK(k9 == (refuse ? 9 : 1), "wrong-exception", "wrong exception");
                SIM_CHECK(got_in - in0 == (refuse ? 0 : depth + 1), "false-success", "section entered without the lock");
            }
        });
    }
    return nullptr;
}
} // namespace
SIM_SCENARIO(guard_user_lock, 3) {
    randomize_heap();
    randomize_sched();
    Fussy l;
    got_in = 0;
    bool mt = coin();
    int nt = mt ? 2 + pick(3) : 0;
    if(mt) l.inner = make<P::Mutex>();
    std::vector<FCtx> c(nt + 1);
    std::vector<P::Thread *> t;
    for(int i = 0; i <= nt; ++i)
        c[i] = {&l, 1 + (int)pick(6), i};
    for(int i = 1; i <= nt; ++i)
        t.push_back(make<P::Thread>(fbody, (void *)&c[i]));
    sut([&] { fbody(&c[0]); });
    for(auto *x : t)
        destroy(x);
    SIM_CHECK(l.depth == 0 && l.locked == l.unlocked, "lock-not-released", "%d acquisitions, %d releases", l.locked, l.unlocked);
    if(mt) SIM_CHECK(l.max_depth == 1, "mutual-exclusion", "%d guards were inside at once", l.max_depth);
    SIM_CHECK(mutexes_held() == 0, "lock-not-released", "a mutex is still locked at the end");
    if(l.inner) destroy(l.inner);
    nontrivial();
}
