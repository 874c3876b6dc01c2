// C04: threads working on their own objects never interfere.
#include "jobs.hpp"

// Both epochs of the library are linked into the simulator: work of the released epoch, for use next to the current one.
#if EPOCH == 2025
extern "C" int c04_count_2025() { return jobs::count; }
extern "C" const char *c04_name_2025(int k) { return jobs::all[k].name; }
extern "C" void c04_run_2025(int k, uint64_t seed, std::string *dir, std::string *text, bool *threw) {
    jobs::Rec rec;
    host([&] { rec.dir = *dir; });
    jobs::Rng r(seed);
    try {
        jobs::all[k].run(r, rec);
    } catch(...) {
        *threw = true;
    }
    host([&] {
        *text = rec.s;
        rec = {};
    });
}
#else
extern "C" __attribute__((weak)) int c04_count_2025();
extern "C" __attribute__((weak)) const char *c04_name_2025(int k);
extern "C" __attribute__((weak)) void c04_run_2025(int k, uint64_t seed, std::string *dir, std::string *text, bool *threw);
#endif

namespace {
struct Task {
    const jobs::Job *j;
    int released = -1; // work of the released epoch
    const char *name = "";
    uint64_t seed;
    jobs::Rec rec;
    bool threw = false;
};
struct Line {
    std::vector<Task> tasks;
};
void run_line(Line &l) {
    size_t n = host([&] { return l.tasks.size(); });
    for(size_t i = 0; i < n; ++i) {
        Task &t = host([&]() -> Task & { return l.tasks[i]; });
        if(t.released >= 0) {
            c04_run_2025(t.released, t.seed, &t.rec.dir, &t.rec.s, &t.threw);
            continue;
        }
        jobs::Rng r(t.seed);
        try {
            t.j->run(r, t.rec);
        } catch(...) {
            host([&] { t.threw = true; });
        }
    }
}
void *body(void *p) {
    run_line(*(Line *)p);
    return nullptr;
}
void own(bool mixed) {
    randomize_heap();
    randomize_sched();
    allow_steps(40000000);
    int nt = 2 + pick(4);
    bool crowd = flip(1, 60);
    if(crowd) {
        nt = 6 + pick(40);
        allow_steps(400000000);
        probe("a crowd of threads");
    }
    bool same = flip(1, 2); // all threads use the same facility
    int kind = pick(jobs::count);
    std::vector<Line> par(nt), alone;
    for(int t = 0; t < nt; ++t) {
        std::string dir = fmt("/t%d", t);
        int n = crowd ? 1 : 1 + pick(2);
        for(int k = 0; k < n; ++k) {
            Task x;
            x.j = &jobs::all[same ? kind : (int)pick(jobs::count)];
            if(mixed && coin()) {
                probe("released epoch at work");
                x.released = same && kind < c04_count_2025() ? kind : (int)pick(c04_count_2025());
                x.name = c04_name_2025(x.released);
            } else
                x.name = x.j->name;
            x.seed = pick(1 << 20);
            x.rec.dir = dir;
            log("t%d: %s%s %llu", t, x.name, x.released >= 0 ? " (2025)" : "", (unsigned long long)x.seed);
            par[t].tasks.push_back(x);
        }
        jobs::make_dir(dir, par[t].tasks[0].seed);
    }
    alone = par;
    bool before = coin();
    auto run_alone = [&] {
        for(auto &l : alone)
            sut([&] { run_line(l); });
    };
    if(before) run_alone();
    bool main_too = coin();
    std::vector<P::Thread *> th;
    for(int t = main_too; t < nt; ++t)
        th.push_back(make<P::Thread>(body, (void *)&par[t]));
    if(main_too) sut([&] { run_line(par[0]); });
    for(auto *x : th) {
        sut([&] { x->join(); });
        destroy(x);
    }
    if(!before) run_alone();
    for(int t = 0; t < nt; ++t)
        for(size_t k = 0; k < par[t].tasks.size(); ++k) {
            auto &p = par[t].tasks[k], &a = alone[t].tasks[k];
            SIM_CHECK(!a.threw, "unexpected-exception", "job %s fails when run alone", a.name);
            SIM_CHECK(!p.threw, "interference", "job %s fails next to other threads, not alone", a.name);
            if(p.rec.s != a.rec.s) {
                size_t d = diff_at(p.rec.s, a.rec.s);
                size_t b = d > 40 ? d - 40 : 0;
                fail("interference", "job %s gives \"%s\" next to other threads, alone \"%s\"", a.name, p.rec.s.substr(b, 120).c_str(), a.rec.s.substr(b, 120).c_str());
            }
        }
    check_no_leaks("the jobs");
    std::string h = fs::open_handles();
    SIM_CHECK(h.empty(), "handle-leak", "these are still open: %s", h.c_str());
}
} // namespace

SIM_SCENARIO(own_objects, 10) { own(false); }
#if EPOCH == 2026
SIM_SCENARIO(own_objects_mixed, 6) { own(c04_count_2025 != nullptr); }
#endif
