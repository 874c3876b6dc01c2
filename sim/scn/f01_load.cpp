// F01: loading a file yields its exact content or nothing.
#include "gen.hpp"

namespace {
struct World {
    std::string path = "/w/data";
    std::string file = "/w/data"; // what it resolves to
    bool regular = true;
    std::vector<std::string> history; // every content the file had since the operation began
    int actor = 0;                    // 0 none, 1 appends, 2 truncates, 3 replaces or removes
    uint32_t den = 4;
    int acted = 0;
};
World *W;
void act(void *, const char *op, const char *) {
    auto &w = *W;
    (void)op;
    // The other process comes to an end some time: a reader that goes on until it meets the end is as good as any.
    if(!w.actor || w.history.size() > 60 || !chance(SCHED, 1, w.den)) return;
    std::string c;
    if(!fs::get(w.file, c)) return;
    if(w.actor == 1) {
        size_t add = 1 + choose(SCHED, 3) * choose(SCHED, 3000);
        fs::resize(w.file, c.size() + add, (char)('A' + choose(SCHED, 26)));
        log("another process appends %zu bytes", add);
    } else if(w.actor == 3) {
        if(choose(SCHED, 5) == 4) {
            fs::remove(w.file);
            log("another process removes the file");
            ++w.acted;
            return;
        }
        uint32_t k = choose(SCHED, 4);
        std::string other(k == 0 ? 0 : k == 1 ? c.size() + choose(SCHED, 3) : choose(SCHED, 10000), 'A' + choose(SCHED, 26));
        if(!other.empty() && choose(SCHED, 4) == 0) other.back() = '\xFF';
        fs::remove("/w/next");
        fs::add_file("/w/next", other);
        fs::rename("/w/next", w.file);
        log("another process puts a file of %zu bytes in its place", other.size());
    } else {
        if(c.empty()) return;
        size_t keep = choose(SCHED, 3) == 0 ? 0 : choose(SCHED, (uint32_t)c.size());
        fs::resize(w.file, keep, 0);
        log("another process truncates to %zu bytes", keep);
    }
    ++w.acted;
    fs::get(w.file, c);
    w.history.push_back(c);
    probe("file changed by another process during the operation");
}
void describe(const std::string &got, const World &w, const char *op) {
    for(auto &h : w.history)
        if(h == got) return;
    auto &h = w.history.back();
    fail("wrong-content", "%s returned %zu bytes, the file had %zu; first difference at %zu: got %s, file %s", op, got.size(), h.size(), diff_at(got, h),
         show(got.data() + diff_at(got, h), std::min<size_t>(16, got.size() - diff_at(got, h))).c_str(),
         show(h.data() + diff_at(got, h), std::min<size_t>(16, h.size() - diff_at(got, h))).c_str());
}
void one_load(World &w, bool text) {
    std::string c;
    bool exists = fs::get(w.file, c) && w.regular;
    w.history = {c};
    op_begin();
    auto &p = w.path;
    log("load %s of %s (%zu bytes)", text ? "text" : "bytes", p.c_str(), c.size());
    bool got = false;
    std::string out;
    const char *opn = text ? "load_text" : "load_bytes";
    {
        Sut s;
        P::Path path(p.c_str());
        try {
            if(text) {
                auto r = path.load_text();
                if(r) host([&] {
                    got = true;
                    out = std::string(r->c_str(), r->size_bytes());
                });
            } else {
                auto r = path.load_bytes();
                if(r) host([&] {
                    got = true;
                    out = str(*r);
                });
            }
        } catch(...) {
            host([&] { fail("exception", "%s threw instead of answering", opn); });
        }
    }
    bool excused = op_faults() > op_faults("read:short") || w.acted;
    if(got) {
        SIM_CHECK(exists, "content-from-nowhere", "%s of something that has no loadable content returned %zu bytes", opn, out.size());
        describe(out, w, opn);
        if(text) SIM_CHECK(ref_text(out), "invalid-text", "load_text returned bytes that are not valid UTF-8: %s", show(out.data(), out.size()).c_str());
        probe(op_faults() ? "loaded despite a fault" : "loaded");
        if(op_faults("read:short")) probe("loaded over short reads");
    } else {
        bool want = exists && (!text || ref_text(c));
        SIM_CHECK(!want || excused, "content-refused", "%s returned nothing although %zu bytes can be read: %s", opn, c.size(), show(c.data(), std::min<size_t>(c.size(), 60)).c_str());
        probe(!exists ? "nothing: not loadable" : excused ? "nothing: after a fault or change" : "nothing: not text");
    }
    nontrivial();
}
void setup(World &w) {
    randomize_heap();
    W = &w;
    strict_abort = true;
    fs::on_syscall(act, nullptr);
    fs::add_file("/w/data", gen_content());
}
void faults_on() {
    auto &c = fs::cfg();
    c.den = 2 + pick(12);
    c.open_err = flip(1, 4);
    c.read_err = flip(1, 2);
    c.short_read = flip(1, 2);
    c.seek_err = flip(1, 3);
    c.close_err = flip(1, 6);
    c.stat_err = flip(1, 4);
}
} // namespace

// A healthy disk: everything loadable is loaded exactly, and nothing else is.
SIM_SCENARIO(load_plain, 4) {
    World w;
    setup(w);
    int n = 1 + pick(4);
    for(int i = 0; i < n; ++i) {
        w.regular = true;
        w.path = w.file = "/w/data";
        fs::add_file("/w/data", gen_content());
        switch(pick(10)) {
        default: break;
        case 4:
            fs::add_link("/w/link", "data");
            w.path = "/w/link";
            break;
        case 5:
            w.path = w.file = "/w/missing";
            w.regular = false;
            break;
        case 6:
            fs::add_dir("/w/dir");
            w.path = w.file = "/w/dir";
            w.regular = false;
            break;
        case 7:
            fs::add_fifo("/w/pipe", gen_content());
            w.path = w.file = "/w/pipe";
            w.regular = false;
            break;
        case 8:
            fs::add_link("/w/dangling", "nowhere");
            w.path = w.file = "/w/dangling";
            w.regular = false;
            break;
        case 9:
            w.path = w.file = "/w/data/below";
            w.regular = false;
            break;
        }
        fs::cfg().short_read = coin();
        one_load(w, coin());
    }
}
// Files of many megabytes, the last byte as right as the first.
SIM_SCENARIO(load_huge, 1) {
    if(!flip(1, 120)) return;
    World w;
    setup(w);
    allow_steps(20000000000ull);
    size_t k = (1u << (18 + pick(6))) - 5000 + pick(10000);
    std::string unit = gen_utf8(40), c;
    unit += std::string(1 + pick(3), '\n') + "\xE2\x82\xAC";
    bool text = ref_text(unit);
    c.reserve(k + unit.size());
    while(c.size() < k)
        c += unit;
    if(flip(1, 3)) corrupt(c);
    if(coin()) c.back() = '.';
    fs::add_file("/w/data", c);
    if(flip(1, 3)) {
        faults_on();
        fs::cfg().den = 2 + pick(600);
    } else
        fs::cfg().short_read = flip(1, 4);
    one_load(w, text && coin());
    probe("a file of megabytes");
}
// Failing system calls: nothing or everything.
SIM_SCENARIO(load_faults, 6) {
    World w;
    setup(w);
    faults_on();
    int n = 1 + pick(4);
    for(int i = 0; i < n; ++i)
        one_load(w, coin());
    fs::cfg() = fs::Cfg{};
    one_load(w, coin()); // the disk is healthy again: the load succeeds
}
// Another process appends to the file, truncates it or puts another in its place meanwhile.
SIM_SCENARIO(load_concurrent, 6) {
    World w;
    setup(w);
    if(coin()) fs::add_file("/w/data", gen_bytes(gen_size()));
    w.actor = 1 + pick(3);
    w.den = 1 + pick(5);
    if(flip(1, 3)) faults_on();
    int n = 1 + pick(3);
    for(int i = 0; i < n; ++i) {
        if(w.actor == 3) {
            fs::remove(w.file);
            fs::add_file(w.file, gen_content());
        }
        one_load(w, coin());
    }
    w.actor = 0;
    fs::cfg() = fs::Cfg{};
    w.acted = 0;
    fs::remove("/w/next");
    one_load(w, coin());
}
// Bits flip on the way from the platter: text is valid or refused, never repaired.
SIM_SCENARIO(load_corrupted, 3) {
    World w;
    setup(w);
    std::string c;
    do
        c = gen_utf8(40);
    while(!ref_text(c));
    fs::add_file("/w/data", c);
    fs::cfg().flip = true;
    fs::cfg().den = 1 + pick(3);
    fs::cfg().short_read = coin();
    op_begin();
    std::string out;
    bool got = false;
    {
        Sut s;
        P::Path path("/w/data");
        auto r = path.load_text();
        if(r) host([&] {
            got = true;
            out = std::string(r->c_str(), r->size_bytes());
        });
    }
    if(got) {
        SIM_CHECK(ref_text(out), "invalid-text", "load_text returned bytes that are not valid UTF-8: %s", show(out.data(), out.size()).c_str());
        SIM_CHECK(out.size() == c.size(), "wrong-content", "load_text returned %zu bytes of %zu", out.size(), c.size());
        uint32_t bits = 0;
        for(size_t i = 0; i < c.size(); ++i)
            bits += __builtin_popcount((unsigned char)(c[i] ^ out[i]));
        SIM_CHECK(bits <= op_faults("read:bit-flip"), "wrong-content", "%u bits differ, %u were flipped", bits, op_faults("read:bit-flip"));
        probe("corruption passes as text");
    } else {
        SIM_CHECK(op_faults("read:bit-flip"), "content-refused", "valid text refused");
        probe("corruption detected");
    }
    // the same bytes at rest
    fs::cfg() = fs::Cfg{};
    int k = 1 + pick(3);
    for(int i = 0; i < k; ++i)
        corrupt(c);
    fs::add_file("/w/data", c);
    one_load(w, true);
    one_load(w, false);
}
