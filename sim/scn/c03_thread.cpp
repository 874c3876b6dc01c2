// C03: thread objects - exactly one execution, exactly one release, visibility, creation failure.
#include "ns.hpp"

namespace {
struct Payload { // lives in the simulated heap: unordered accesses are reported as races
    uint64_t in[4];
    uint64_t out[4];
    P::CString *text;
};
struct Job {
    int id = 0;
    Payload *p = nullptr;
    P::Thread *t = nullptr;
    int runs = 0, ends = 0;
    int creator = -1, runner = -1;
    bool gate = false;     // the thread waits until open
    bool open = false;
    bool released = false; // joined or detached
    bool detached = false, joined = false;
    bool spawns = false;
    bool self_destruct = false;
    int childs = 0;
    uint64_t salt = 0;
};
std::vector<Job *> jobs;
int budget_threads;

void *body(void *c);

Job *start(int who) {
    Job *j = nullptr;
    host([&] {
        j = new Job;
        j->id = (int)jobs.size();
        jobs.push_back(j);
        j->creator = self();
        j->gate = pick(3) == 0;
        j->spawns = pick(5) == 0;
        j->salt = pick(100000);
        j->p = make<Payload>();
    });
    for(int i = 0; i < 4; ++i)
        j->p->in[i] = j->salt * 7 + i;
    std::string s;
    host([&] { s = fmt("text for job %d (%llu)", j->id, (unsigned long long)j->salt); });
    j->p->text = host([&] { return make<P::CString>(s.c_str()); });
    host([&] {
        op_begin();
        log("t%d starts job %d", who, j->id);
    });
    ThreadStats before = host([&] { return thread_stats(); });
    size_t live0 = host([&] { return live_blocks(); });
    bool alone = host([&] { return threads_alive() == 0; });
    bool threw = false;
    try {
        j->t = host([&] { return make<P::Thread>(body, (void *)j); });
    } catch(P::PyException &e) {
        threw = true;
    }
    host([&] {
        ThreadStats after = thread_stats();
        if(threw) {
            SIM_CHECK(op_faults(), "false-failure", "thread creation threw although nothing failed");
            SIM_CHECK(j->runs == 0, "ran-after-failure", "creation was reported as failed but the function runs");
            if(alone) SIM_CHECK(after.live_attr == before.live_attr, "left-behind", "creation failed and left a thread attribute object behind");
            if(alone) SIM_CHECK(live_blocks() == live0, "left-behind", "creation failed and left memory behind");
            j->released = true;
            probe("creation failure reported");
        } else {
            SIM_CHECK(!op_faults(), "false-success", "thread creation failed but the creator was not told");
        }
    });
    return j;
}

void open_gate(Job *j) {
    host([&] { j->open = true; });
}

void check_finished(Job *j, const char *how) {
    // The joiner sees everything the thread did.
    host([&] {
        SIM_CHECK(j->runs == 1, "not-once", "job %d ran %d times (%s)", j->id, j->runs, how);
        SIM_CHECK(j->ends == 1, "did-not-wait", "%s returned although job %d is still running", how, j->id);
    });
    for(int i = 0; i < 4; ++i) {
        uint64_t v = j->p->out[i];
        host([&] { SIM_CHECK(v == j->salt * 11 + i, "not-visible", "result %d of job %d is not visible after %s", i, j->id, how); });
    }
}

void finish(Job *j, int how) {
    if(!j->t) return;
    switch(how) {
    case 0: // plain destruction waits
        open_gate(j);
        host([&] { destroy(j->t); });
        check_finished(j, "destruction");
        host([&] { probe("destroyed while joinable"); });
        break;
    case 1: // join, then destroy
        open_gate(j);
        j->t->join();
        check_finished(j, "join");
        host([&] { destroy(j->t); });
        break;
    case 2: // detach, then destroy: neither waits, the gate is still shut
        host([&] { j->detached = true; });
        j->t->detach();
        host([&] {
            if(j->ends == 0) probe("detached while running");
            destroy(j->t);
        });
        open_gate(j);
        break;
    case 3: // detach, keep the object for a while
        host([&] { j->detached = true; });
        j->t->detach();
        host([&] { yield_point(); });
        open_gate(j);
        host([&] { yield_point(); });
        host([&] { destroy(j->t); });
        break;
    case 4: // join, do other things, destroy later
        open_gate(j);
        j->t->join();
        check_finished(j, "join");
        host([&] { yield_point(); });
        host([&] { destroy(j->t); });
        break;
    }
    host([&] {
        j->released = true;
        j->t = nullptr;
    });
}

bool gate_open(void *p) { return ((Job *)p)->open; }

void *body(void *c) {
    auto *j = (Job *)c;
    host([&] {
        bool known = false;
        for(auto *x : jobs)
            known |= x == j;
        SIM_CHECK(known, "wrong-context", "the function got a context nobody gave it");
        ++j->runs;
        j->runner = self();
        SIM_CHECK(j->runs == 1, "not-once", "job %d is started again", j->id);
        SIM_CHECK(j->runner != j->creator, "same-thread", "job %d runs on the thread that created it", j->id);
    });
    uint64_t salt = host([&] { return j->salt; });
    for(int i = 0; i < 4; ++i) {
        uint64_t v = j->p->in[i];
        host([&] { SIM_CHECK(v == salt * 7 + i, "not-visible", "job %d does not see what its creator wrote", j->id); });
    }
    std::string s;
    host([&] { s = fmt("text for job %d (%llu)", j->id, (unsigned long long)salt); });
    bool same = *j->p->text == s.c_str();
    host([&] { SIM_CHECK(same, "not-visible", "job %d does not see the text its creator wrote", j->id); });
    if(host([&] { return j->spawns && budget_threads > 0; })) {
        host([&] { --budget_threads; });
        Job *k = start(j->id + 100);
        finish(k, host([&] { return (int)pick(5); }));
    }
    host([&] {
        if(j->gate) block_until(gate_open, j, "the gate to open");
    });
    for(int i = 0; i < 4; ++i)
        j->p->out[i] = salt * 11 + i;
    host([&] { ++j->ends; });
    return c;
}
} // namespace

SIM_SCENARIO(thread_life, 10) {
    randomize_heap();
    randomize_sched();
    jobs.clear();
    auto &f = faults();
    f.th_create = flip(1, 3);
    f.th_attr = flip(1, 3);
    f.th_den = 2 + pick(6);
    int n = 1 + pick(5);
    budget_threads = 8 - n;
    std::vector<Job *> mine;
    for(int i = 0; i < n; ++i) {
        Job *j = sut([&] { return start(0); });
        mine.push_back(j);
        if(pick(3) == 0) {
            int k = pick(mine.size());
            if(mine[k]->t) {
                int how = pick(5);
                sut([&] { finish(mine[k], how); });
            }
        }
        // a little work in between
        int y = pick(3);
        for(int k = 0; k < y; ++k)
            yield_point();
    }
    while(!mine.empty()) {
        int k = pick(mine.size());
        Job *j = mine[k];
        mine.erase(mine.begin() + k);
        int how = pick(5);
        if(j->t) sut([&] { finish(j, how); });
    }
    quiesce();
    auto st = thread_stats();
    int live = 0, failed = 0;
    for(auto *j : jobs) {
        bool started = j->runs > 0;
        live += started;
        failed += !started;
        if(started) SIM_CHECK(j->runs == 1 && j->ends == 1, "not-once", "job %d ran %d times", j->id, j->runs);
    }
    SIM_CHECK(st.created == live, "not-once", "%d threads were started for %d executions", st.created, live);
    SIM_CHECK(st.unreleased == 0, "never-released", "%d started thread(s) neither joined nor detached", st.unreleased);
    SIM_CHECK(st.live_attr == 0, "left-behind", "%d thread attribute object(s) never released", st.live_attr);
    for(auto *j : jobs) {
        if(j->p->text) destroy(j->p->text);
        destroy(j->p);
    }
    check_no_leaks("the run");
    state(st.created * 64 + st.detached * 8 + st.joined);
}

// Creation failing at every stage, many times in a row, then working again.
SIM_SCENARIO(thread_create_failure, 2) {
    randomize_heap();
    randomize_sched();
    jobs.clear();
    budget_threads = 0;
    auto &f = faults();
    int n = 1 + pick(12);
    f.th_create = coin();
    f.th_attr = !f.th_create || coin();
    f.th_den = 1 + pick(2);
    std::vector<Job *> mine;
    for(int i = 0; i < n; ++i) {
        if(mine.size() >= 4) break;
        Job *j = sut([&] { return start(0); });
        if(j->t) mine.push_back(j);
    }
    f = Faults{};
    Job *j = sut([&] { return start(0); });
    SIM_CHECK(j->t, "false-failure", "thread creation fails after the faults stopped");
    mine.push_back(j);
    for(auto *x : mine)
        sut([&] { finish(x, host([&] { return (int)pick(5); })); });
    quiesce();
    auto st = thread_stats();
    SIM_CHECK(st.created == (int)mine.size(), "not-once", "%d threads for %zu jobs", st.created, mine.size());
    SIM_CHECK(st.unreleased == 0, "never-released", "%d started thread(s) neither joined nor detached", st.unreleased);
    SIM_CHECK(st.live_attr == 0, "left-behind", "%d thread attribute object(s) never released", st.live_attr);
    for(auto *x : jobs) {
        if(x->p->text) destroy(x->p->text);
        destroy(x->p);
    }
    check_no_leaks("the run");
}

// Very many threads, at the same time or one after another.
SIM_SCENARIO(thread_crowd, 1) {
    randomize_heap();
    randomize_sched();
    allow_steps(100000000);
    if(flip(1, 3)) { // nobody begins before the others are there
        sched().slow_start = 1;
        sched().stall_bits = 17;
    }
    jobs.clear();
    budget_threads = 0;
    int n = 8 + pick(flip(1, 4) ? 266 : 60);
    int keep = pick(3) == 0 ? 1 + pick(6) : n; // how many at the same time
    auto &f = faults();
    f.th_create = flip(1, 4);
    f.th_den = 4 + pick(60);
    std::vector<Job *> mine;
    int hows = pick(3); // all the same way, or mixed
    int way = pick(5);
    auto how = [&] { return hows ? way : (int)pick(5); };
    for(int i = 0; i < n; ++i) {
        Job *j = sut([&] { return start(0); });
        if(j->t) mine.push_back(j);
        while((int)mine.size() >= keep) {
            int k = pick(mine.size());
            Job *x = mine[k];
            mine.erase(mine.begin() + k);
            int h = how();
            sut([&] { finish(x, h); });
        }
    }
    if(mine.size() > 64) probe("more than 64 threads at a time");
    if(n > 256) probe("more than 256 threads");
    while(!mine.empty()) {
        int k = pick(mine.size());
        Job *x = mine[k];
        mine.erase(mine.begin() + k);
        int h = how();
        sut([&] { finish(x, h); });
    }
    quiesce();
    auto st = thread_stats();
    int live = 0;
    for(auto *x : jobs) {
        live += x->runs > 0;
        if(x->runs) SIM_CHECK(x->runs == 1 && x->ends == 1, "not-once", "job %d ran %d times", x->id, x->runs);
        if(x->p->text) destroy(x->p->text);
        destroy(x->p);
    }
    SIM_CHECK(st.created == live, "not-once", "%d threads were started for %d executions", st.created, live);
    SIM_CHECK(st.unreleased == 0, "never-released", "%d started thread(s) neither joined nor detached", st.unreleased);
    SIM_CHECK(st.live_attr == 0, "left-behind", "%d thread attribute object(s) never released", st.live_attr);
    check_no_leaks("the run");
}

// Fork-join: results of many threads are all there after the objects went out of scope.
namespace {
struct Slot {
    uint64_t n, sum;
};
void *adder(void *c) {
    auto *s = (Slot *)c;
    uint64_t t = 0;
    for(uint64_t i = 1; i <= s->n; ++i)
        t += i;
    s->sum = t;
    return nullptr;
}
} // namespace
SIM_SCENARIO(thread_fork_join, 3) {
    randomize_heap();
    randomize_sched();
    int n = 1 + pick(8);
    struct A {
        Slot s[8];
    };
    A *a = make<A>();
    for(int i = 0; i < n; ++i)
        a->s[i].n = pick(30);
    bool boom = flip(1, 4);
    try {
        Sut s;
        for(int i = 0; i < n; ++i)
            a->s[i].sum = 12345;
        {
            P::unique_ptr<P::Thread> t[8];
            for(int i = 0; i < n; ++i)
                t[i] = P::unique_ptr<P::Thread>(new P::Thread(adder, &a->s[i]));
            if(boom) throw 1; // unwinding destroys the threads' owners
        }
    } catch(int) {
        probe("joined by unwinding");
    }
    for(int i = 0; i < n; ++i) {
        uint64_t v = sut([&] { return a->s[i].sum; });
        uint64_t k = a->s[i].n;
        SIM_CHECK(v == k * (k + 1) / 2, "not-visible", "result of thread %d", i);
    }
    SIM_CHECK(threads_alive() == 0, "did-not-wait", "%d threads outlive their objects", threads_alive());
    auto st = thread_stats();
    SIM_CHECK(st.unreleased == 0 && st.live_attr == 0, "never-released", "%d threads, %d attribute objects not released", st.unreleased, st.live_attr);
    destroy(a);
    check_no_leaks("the run");
}
