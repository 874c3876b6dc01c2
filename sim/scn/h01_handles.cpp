// H01: every system handle is released exactly once, on every path.
#include "jobs.hpp"

namespace {
struct FileSlot {
    P::File *f = nullptr;
};
struct MapSlot {
    P::MMapping *m = nullptr;
    bool full = false;
};
struct GlobSlot {
    P::GlobResult *g = nullptr;
    bool live = false; // may hold directories
};
struct World {
    FileSlot f[3];
    MapSlot m[3];
    GlobSlot g[3];
    uint32_t den = 0;
    void check(const char *what) {
        auto h = fs::handles();
        int nf = 0, nm = 0, ng = 0;
        for(auto &x : f)
            nf += x.f != nullptr;
        for(auto &x : m)
            nm += x.m && x.full;
        for(auto &x : g)
            ng += x.g && x.live;
        SIM_CHECK(h.streams == nf && h.descriptors == 0, "handle-leak", "%s: %d File objects exist, open in the process:%s", what, nf, fs::open_handles().c_str());
        SIM_CHECK(h.maps == nm, "mapping-leak", "%s: %d mapping objects hold something, %d mappings exist", what, nm, h.maps);
        SIM_CHECK(ng || !h.dirs, "handle-leak", "%s: no glob is under way, but these directories are open:%s", what, fs::open_handles().c_str());
        auto t = thread_stats();
        SIM_CHECK(t.live_attr == 0, "handle-leak", "%s: %d thread attribute objects are still there", what, t.live_attr);
        state(nf * 10000 + nm * 1000 + h.dirs * 10 + ng);
    }
    std::string any_path() {
        switch(pick(10)) {
        case 0: return "/j/none.txt";
        case 1: return "/j/sub";
        case 2: return "/j/pipe";
        case 3: return "/j/bad.txt";
        case 4: return "/j/empty";
        case 5: return "/j/link.txt";
        default: return fmt("/j/f%d.txt", (int)pick(4));
        }
    }
    const char *pattern() {
        static const char *const pat[] = {"*.txt", "**/*.txt", "*/*", "**/d*", "nothing*", "sub/*", "sub/**/*", "**/**", "a**b", "**"};
        return pat[pick(10)];
    }
    void faults_on() {
        op_begin();
        auto &c = fs::cfg();
        c = {};
        if(!den) return;
        c.open_err = c.read_err = c.seek_err = c.stat_err = c.map_err = c.rename_err = c.opendir_err = c.readdir_err = true;
        c.short_read = true;
        c.no_dtype = coin();
        c.den = den;
    }
    void faults_off() {
        fs::cfg() = {};
        fs::cfg().no_dtype = false;
    }
    void load() {
        std::string p = any_path();
        bool text = coin();
        log("load %s of %s", text ? "text" : "bytes", p.c_str());
        faults_on();
        Sut s;
        try {
            P::Path x(p.c_str());
            if(text)
                x.load_text();
            else
                x.load_bytes();
        } catch(...) {
        }
    }
    void file() {
        auto &x = f[pick(3)];
        if(!x.f) {
            std::string p = any_path();
            if(fs::kind(p) != fs::REG) return; // opening it would end the process
            log("open %s", p.c_str());
            faults_on();
            fs::cfg().open_err = flip(1, 4);
            try {
                x.f = make<P::File>(p.c_str(), coin() ? "r" : "rb");
            } catch(...) {
                x.f = nullptr;
            }
            return;
        }
        switch(pick(5)) {
        case 0:
        case 1:
            log("close a file");
            destroy(x.f);
            x.f = nullptr;
            break;
        case 2: {
            log("read a line");
            faults_on();
            Sut s;
            try {
                auto l = x.f->readline_bytes();
            } catch(...) {
                host([] { probe("reading a line failed"); });
            }
            break;
        }
        default: {
            int stop = pick(4);
            bool boom = coin();
            log("loop over lines, leave after %d by %s", stop, boom ? "exception" : "break");
            faults_on();
            Sut s;
            try {
                int n = 0;
                for(auto &&l : *x.f) {
                    (void)l;
                    if(n++ == stop) {
                        if(boom) throw 1;
                        break;
                    }
                }
            } catch(int) {
                host([] { probe("loop left by an exception"); });
            } catch(...) {
            }
        }
        }
    }
    void mapping() {
        auto &x = m[pick(3)], &y = m[pick(3)];
        switch(pick(5)) {
        case 0:
        case 1: {
            std::string p = any_path();
            bool over = coin() && x.m;
            log("map %s%s", p.c_str(), over ? " over another" : "");
            if(!over && x.m) {
                destroy(x.m);
                x = MapSlot{};
            }
            faults_on();
            bool got = false;
            P::MMapping *n = nullptr;
            {
                Sut s;
                auto o = P::mmap_file(p.c_str());
                if(o) {
                    got = true;
                    if(over)
                        *x.m = P::move(*o);
                    else
                        n = host([&] { return make<P::MMapping>(P::move(*o)); });
                }
            }
            if(got) {
                if(!over) x.m = n;
                x.full = true;
            }
            break;
        }
        case 2:
            if(!x.m) break;
            log("unmap");
            destroy(x.m);
            x = MapSlot{};
            break;
        case 3:
            if(!x.m || !y.m) break;
            log("move assign mapping%s", &x == &y ? " to itself" : "");
            sut([&] { *x.m = P::move(*y.m); });
            if(&x != &y) {
                x.full = y.full;
                y.full = false;
            }
            break;
        default:
            if(x.m || !y.m) break;
            log("move construct mapping");
            x.m = make<P::MMapping>(P::move(*y.m));
            x.full = y.full;
            y.full = false;
        }
    }
    void glob() {
        auto &x = g[pick(3)], &y = g[pick(3)];
        switch(pick(7)) {
        case 0:
        case 1: {
            const char *pat = pattern();
            bool over = coin() && x.g;
            const char *root = pick(4) ? "/j" : pick(2) ? "/j/sub" : "/j/none";
            log("glob %s in %s%s", pat, root, over ? " over another" : "");
            if(!over && x.g) {
                destroy(x.g);
                x = GlobSlot{};
            }
            faults_on();
            bool done = false;
            P::GlobResult *n = nullptr;
            {
                Sut s;
                try {
                    P::Path p(root);
                    auto r = p.glob(pat);
                    if(over)
                        *x.g = P::move(r);
                    else
                        n = host([&] { return make<P::GlobResult>(P::move(r)); });
                    done = true;
                } catch(...) {
                    host([] { probe("pattern refused"); });
                }
            }
            if(done) {
                if(!over) x.g = n;
                x.live = true;
            }
            break;
        }
        case 2:
        case 3: {
            if(!x.g) break;
            int n = 1 + pick(6);
            log("take %d matches", n);
            faults_on();
            Sut s;
            while(n-- > 0) {
                auto o = x.g->next();
                if(!o) {
                    x.live = false;
                    host([] { probe("a glob went to its end"); });
                    break;
                }
            }
            break;
        }
        case 4:
            if(!x.g) break;
            log("give up a glob");
            if(x.live) probe("glob given up half-way");
            destroy(x.g);
            x = GlobSlot{};
            break;
        case 5:
            if(!x.g || !y.g || &x == &y) break;
            log("move assign glob");
            if(x.live) probe("a glob under way is overwritten");
            sut([&] { *x.g = P::move(*y.g); });
            x.live = y.live;
            y.live = false;
            break;
        default:
            if(x.g || !y.g) break;
            log("move construct glob");
            x.g = make<P::GlobResult>(P::move(*y.g));
            x.live = y.live;
            y.live = false;
        }
    }
    static void *thread_main(void *) { return nullptr; }
    int started = 0;
    void thread() {
        if(started == 6) return; // as many as the simulator has room for
        ++started;
        log("start a thread");
        faults_on();
        auto &t = faults();
        if(den) {
            t.th_create = coin();
            t.th_attr = !t.th_create || coin();
            t.th_den = 2;
        }
        bool detach = coin(), join = coin();
        {
            Sut s;
            try {
                P::Thread th(thread_main, nullptr);
                if(detach)
                    th.detach();
                else if(join)
                    th.join();
            } catch(...) {
                host([] { probe("a thread could not be started"); });
            }
        }
        t.th_create = t.th_attr = false;
        quiesce();
    }
    void query() {
        std::string p = any_path(), q = any_path();
        log("ask about and rename %s", p.c_str());
        faults_on();
        Sut s;
        P::Path x(p.c_str());
        x.exists();
        x.is_dir();
        x.is_file();
        x.rename_to(P::Path("/j/elsewhere"));
        P::Path("/j/elsewhere").rename_to(x);
    }
    void setup() {
        randomize_heap();
        jobs::make_dir("/j", pick(1 << 20));
        fs::add_file("/j/bad.txt", "ab\xff\xfe\n");
        fs::add_file("/j/empty", "");
        fs::add_fifo("/j/pipe", "x");
        fs::add_link("/j/link.txt", "f0.txt");
        fs::add_dir("/j/sub/d1");
        fs::add_dir("/j/sub/d1/d2");
        fs::add_file("/j/sub/d1/d2/deep.txt", "1");
        fs::add_dir("/j/d3");
        fs::add_file("/j/d3/x.txt", "1");
    }
    void run(uint32_t d) {
        setup();
        den = d;
        int n = 3 + pick(40);
        for(int k = 0; k < n; ++k) {
            switch(pick(9)) {
            case 0: load(); break;
            case 1:
            case 2: file(); break;
            case 3:
            case 4: mapping(); break;
            case 5:
            case 6: glob(); break;
            case 7: thread(); break;
            default: query();
            }
            faults_off();
            if(flip(1, 12)) {
                // another process
                static const char *const v[] = {"/j/sub/d1/d2", "/j/d3", "/j/f1.txt", "/j/sub"};
                fs::remove(v[pick(4)]);
                log("another process removes something");
            }
            check("after an operation");
        }
        op_begin();
        for(auto &x : f)
            destroy(x.f), x.f = nullptr;
        for(auto &x : m)
            destroy(x.m), x = MapSlot{};
        for(auto &x : g)
            destroy(x.g), x = GlobSlot{};
        check("at the end");
        SIM_CHECK(fs::open_handles().empty(), "handle-leak", "at the end these are open:%s", fs::open_handles().c_str());
        check_no_leaks("the objects that owned handles");
        nontrivial();
    }
};
struct Line {
    const jobs::Job *j[4];
    uint64_t seed[4];
    int n;
    std::string dir;
};
void *line(void *p) {
    auto &l = *(Line *)p;
    for(int i = 0; i < l.n; ++i) {
        jobs::Rec rec;
        host([&] {
            op_begin();
            rec.dir = l.dir;
        });
        jobs::Rng r(l.seed[i]);
        try {
            l.j[i]->run(r, rec);
        } catch(...) {
        }
    }
    return nullptr;
}
const jobs::Job &named(const char *n) {
    for(auto &j : jobs::all)
        if(!strcmp(j.name, n)) return j;
    fail("harness", "no job %s", n);
}
} // namespace

SIM_SCENARIO(handles_calm, 4) { World().run(0); }
SIM_SCENARIO(handles_faults, 8) { World().run(3 + pick(20)); }
// Several threads use files of their own while system calls fail.
SIM_SCENARIO(handles_threads, 3) {
    randomize_heap();
    randomize_sched();
    allow_steps(40000000);
    int nt = 2 + pick(3);
    std::vector<Line> ls(nt);
    static const char *const kinds[] = {"files", "glob", "files", "paths"};
    for(int t = 0; t < nt; ++t) {
        auto &l = ls[t];
        l.dir = fmt("/t%d", t);
        l.n = 1 + pick(4);
        for(int i = 0; i < l.n; ++i) {
            l.j[i] = &named(kinds[pick(4)]);
            l.seed[i] = pick(1 << 20);
            log("t%d: %s %llu", t, l.j[i]->name, (unsigned long long)l.seed[i]);
        }
        jobs::make_dir(l.dir, l.seed[0]);
    }
    auto &c = fs::cfg();
    if(pick(3)) {
        c.read_err = c.seek_err = c.stat_err = c.map_err = c.rename_err = c.opendir_err = c.readdir_err = c.short_read = true;
        c.den = 4 + pick(20);
    }
    std::vector<P::Thread *> th;
    for(auto &l : ls)
        th.push_back(make<P::Thread>(line, (void *)&l));
    for(auto *x : th) {
        sut([&] { x->join(); });
        destroy(x);
    }
    SIM_CHECK(fs::open_handles().empty(), "handle-leak", "the threads left open:%s", fs::open_handles().c_str());
    SIM_CHECK(thread_stats().live_attr == 0, "handle-leak", "%d thread attribute objects left", thread_stats().live_attr);
    check_no_leaks("the threads");
    nontrivial();
}
// The k-th allocation fails while handles are held.
SIM_SCENARIO(handles_memory, 3) {
    World w;
    w.setup();
    int n = 1 + pick(6);
    for(int k = 0; k < n; ++k) {
        auto &f = faults();
        f.oom_after = choose(FAULT, 3) ? choose(FAULT, 8) : choose(FAULT, 60);
        f.oom_count = choose(FAULT, 3) ? 1 : 1000000;
        op_begin();
        int what = pick(3);
        std::string p = w.any_path();
        const char *pat = w.pattern();
        int stop = pick(6);
        log("%s %s with failing memory", what == 0 ? "load" : what == 1 ? "read lines of" : "glob", what == 2 ? pat : p.c_str());
        if(what == 1 && fs::kind(p) != fs::REG) continue;
        {
            Sut s;
            try {
                if(what == 0) {
                    P::Path x(p.c_str());
                    x.load_text();
                } else if(what == 1) {
                    P::File x(p.c_str(), "r");
                    for(auto &&l : x) {
                        (void)l;
                        if(stop-- == 0) break;
                    }
                } else {
                    P::Path x("/j");
                    auto g = x.glob(pat);
                    while(stop-- > 0) {
                        auto e = g.next();
                        if(!e) break;
                    }
                }
            } catch(...) {
                host([] { probe("ended in an exception"); });
            }
        }
        f.oom_after = -1;
        f.oom_count = 0;
        w.check("after an operation that ran out of memory");
        check_no_leaks("an operation that ran out of memory");
    }
    nontrivial();
}
