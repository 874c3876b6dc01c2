// A01: running out of memory never yields a wrong result, touches invalid memory or leaks.
#include "jobs.hpp"

namespace {
enum Outcome { DONE, THREW, DECLINED };
Outcome run_job(const jobs::Job &j, uint64_t seed, std::string &out) {
    jobs::Rec o;
    o.dir = "/j";
    fs::remove("/j");
    jobs::make_dir("/j", seed);
    jobs::Rng r(seed);
    Outcome res = DONE;
    {
        Sut s;
        try {
            j.run(r, o);
        } catch(const jobs::Refused &) {
            res = DECLINED;
        } catch(...) {
            res = THREW;
        }
    }
    out = o.s;
    return res;
}
void clean(const char *what) {
    check_no_leaks(what);
    std::string h = fs::open_handles();
    SIM_CHECK(h.empty(), "handle-leak", "after %s these are still open: %s", what, h.c_str());
}
} // namespace

SIM_SCENARIO(oom_jobs, 30) {
    randomize_heap();
    allow_steps(20000000);
    const jobs::Job &j = jobs::all[pick(jobs::count)];
    uint64_t seed = pick(1 << 20);
    std::string want, got;
    uint64_t a0 = alloc_count();
    Outcome r = run_job(j, seed, want);
    SIM_CHECK(r == DONE, "unexpected-exception", "job %s (%llu) fails although nothing was made to fail", j.name, (unsigned long long)seed);
    uint64_t n = alloc_count() - a0;
    log("job %s seed %llu: %llu allocations: %s", j.name, (unsigned long long)seed, (unsigned long long)n, want.substr(0, 300).c_str());
    clean("the undisturbed job");
    if(!n) return;
    int tries = 1 + pick(3);
    for(int k = 0; k < tries; ++k) {
        op_begin();
        uint32_t at = choose(FAULT, n);
        faults().oom_after = at;
        static const int counts[] = {1, 1, 2, 1000000};
        faults().oom_count = counts[choose(FAULT, 4)];
        log("allocation %u (and %d more) will fail", at, (int)faults().oom_count - 1);
        r = run_job(j, seed, got);
        faults().oom_after = -1;
        faults().oom_count = 0;
        log("outcome: %s", r == DONE ? "done" : r == THREW ? "exception" : "declined");
        probe(r == DONE ? "finished in spite of the failure" : r == THREW ? "ended in an exception" : "reported the failure");
        if(r != DONE)
            SIM_CHECK(op_faults(), "unexpected-exception", "job %s fails although nothing failed", j.name);
        if(r == DONE && got != want) {
            size_t d = diff_at(got, want);
            size_t b = d > 40 ? d - 40 : 0;
            fail("wrong-result", "job %s gives \"%s\" after allocation %u failed, must give \"%s\"", j.name, got.substr(b, 120).c_str(), at, want.substr(b, 120).c_str());
        }
        // what was delivered before the end must be right as well
        if(r != DONE && want.compare(0, got.size(), got) != 0) {
            size_t d = diff_at(got, want);
            size_t b = d > 40 ? d - 40 : 0;
            fail("wrong-result", "before it failed job %s gave \"%s\", must give \"%s\"", j.name, got.substr(b, 120).c_str(), want.substr(b, 120).c_str());
        }
        clean("the failed job");
    }
    op_begin();
    r = run_job(j, seed, got);
    SIM_CHECK(r == DONE && got == want, "wrong-result", "job %s no longer gives the same result after an earlier failure", j.name);
    clean("the repeated job");
    nontrivial();
}
