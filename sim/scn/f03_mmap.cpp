// F03: a mapping shows exactly the file and is released exactly once.
#include "gen.hpp"

namespace {
#if EPOCH == 2025
auto bytes_of(P::MMapping &m) { return m.view(); }
size_t count_of(const P::BytesView &v) { return v.size(); }
#else
auto bytes_of(P::MMapping &m) { return m.span(); }
template<typename V> size_t count_of(const V &v) { return v.size_bytes(); }
#endif
struct Slot {
    P::MMapping *m = nullptr;
    bool mapped = false;
    std::string want;
};
std::vector<Slot> slots;
struct Target {
    std::string path;
    bool loadable;
    std::string content;
};

Target gen_target() {
    Target t{"/w/f", true, ""};
    switch(pick(12)) {
    default:
        t.content = gen_bytes(gen_size());
        fs::add_file("/w/f", t.content);
        t.loadable = !t.content.empty();
        break;
    case 6:
        fs::add_file("/w/f", "");
        t.loadable = false;
        break;
    case 7:
        fs::add_dir("/w/d");
        t.path = "/w/d";
        t.loadable = false;
        break;
    case 8:
        fs::add_fifo("/w/p", "abc");
        t.path = "/w/p";
        t.loadable = false;
        break;
    case 9:
        t.path = "/w/none";
        t.loadable = false;
        break;
    case 10: {
        if(flip(1, 200)) { // beyond 1 MiB
            size_t k = (1u << (20 + pick(5))) - 5000 + pick(10000);
            t.content.resize(k);
            uint32_t r = 1 + pick(1u << 20);
            for(size_t i = 0; i < k; ++i)
                t.content[i] = (char)((r = r * 1664525u + 1013904223u) >> 24);
            fs::add_file("/w/f", t.content);
            probe("a file beyond 1 MiB");
            break;
        }
        size_t k = 4096 * (flip(1, 30) ? 1 + pick(40) : 1 + pick(3)) - 1 + pick(3);
        t.content = gen_bytes(k);
        fs::add_file("/w/f", t.content);
        break;
    }
    case 11:
        t.content = gen_bytes(1 + pick(300));
        fs::add_file("/w/real", t.content);
        fs::add_link("/w/l", "real");
        t.path = "/w/l";
        break;
    }
    return t;
}
void check_one(Slot &s, size_t i) {
    std::string got;
    size_t n = 0;
    {
        Sut u;
        auto sp = bytes_of(*s.m);
        n = count_of(sp);
        const char *d = sp.data();
        if(s.mapped) {
            host([&] { SIM_CHECK(n == s.want.size(), "wrong-length", "mapping %zu has %zu bytes, the file had %zu", i, n, s.want.size()); });
            // read through the mapping as the user does: unmapped memory is noticed
            std::string tmp;
            for(size_t k = 0; k < n; k += 1 + n / 64) {
                char c = d[k];
                host([&] { SIM_CHECK(c == s.want[k], "wrong-content", "byte %zu of mapping %zu is %02x, the file has %02x", k, i, (unsigned char)c, (unsigned char)s.want[k]); });
            }
            char last = d[n - 1];
            host([&] {
                SIM_CHECK(last == s.want.back(), "wrong-content", "last byte of mapping %zu", i);
                SIM_CHECK(memcmp(d, s.want.data(), n) == 0, "wrong-content", "mapping %zu differs from the file", i);
            });
        }
    }
    if(!s.mapped) SIM_CHECK(n == 0, "wrong-length", "an empty mapping object claims %zu bytes", n);
}
void check_all() {
    size_t live = 0, bytes = 0;
    for(size_t i = 0; i < slots.size(); ++i) {
        if(!slots[i].m) continue;
        check_one(slots[i], i);
        if(slots[i].mapped) {
            ++live;
            bytes += slots[i].want.size();
        }
    }
    auto &st = fs::stats();
    SIM_CHECK(st.maps - st.unmaps == live, "mapping-leak", "%zu live mapping objects, %llu mappings exist in the process", live, (unsigned long long)(st.maps - st.unmaps));
    std::string h = fs::open_handles();
    SIM_CHECK(h.find("stream") == h.npos && h.find("descriptor") == h.npos, "handle-leak", "still open:%s", h.c_str());
    state(live * 1000003 + bytes);
}
P::MMapping *map_one(const Target &t, bool via_assign, Slot *into) {
    op_begin();
    log("map %s (%zu bytes)", t.path.c_str(), t.content.size());
    P::MMapping *res = nullptr;
    bool has = false;
    {
        Sut s;
        auto o = P::mmap_file(t.path.c_str());
        has = (bool)o;
        if(has) {
            if(via_assign)
                *into->m = P::move(*o);
            else
                res = host([&] { return make<P::MMapping>(P::move(*o)); });
        }
    }
    if(has) {
        SIM_CHECK(t.loadable, "content-from-nowhere", "%s was mapped although there is nothing to map", t.path.c_str());
        probe(op_faults() ? "mapped despite a fault" : "mapped");
        if(via_assign) {
            into->mapped = true;
            into->want = t.content;
            probe("mapped over an existing mapping object");
        }
    } else {
        SIM_CHECK(!t.loadable || op_faults(), "content-refused", "%s (%zu bytes) was not mapped although nothing failed", t.path.c_str(), t.content.size());
        probe(op_faults() ? "refused after a fault" : "refused: not mappable");
    }
    nontrivial();
    return res;
}
} // namespace

SIM_SCENARIO(mapping_life, 8) {
    randomize_heap();
    slots.assign(4, Slot{});
    strict_abort = true;
    auto &c = fs::cfg();
    c.den = 2 + pick(10);
    c.open_err = flip(1, 4);
    c.seek_err = flip(1, 4);
    c.stat_err = flip(1, 4);
    c.map_err = flip(1, 3);
    c.close_err = flip(1, 6);
    int n = 2 + pick(14);
    for(int i = 0; i < n; ++i) {
        size_t k = pick(slots.size()), j = pick(slots.size());
        auto &a = slots[k];
        auto &b = slots[j];
        switch(pick(7)) {
        case 0:
        case 1: { // map into a fresh object
            auto t = gen_target();
            if(a.m) {
                map_one(t, true, &a);
            } else {
                a.m = map_one(t, false, nullptr);
                a.mapped = a.m != nullptr;
                a.want = t.content;
            }
            break;
        }
        case 2: // move construct
            if(a.m || !b.m) break;
            log("move construct %zu from %zu", k, j);
            a.m = make<P::MMapping>(P::move(*b.m));
            a.mapped = b.mapped;
            a.want = b.want;
            b.mapped = false;
            break;
        case 3: // move assign, also to itself
            if(!a.m || !b.m) break;
            log("move assign %zu from %zu", k, j);
            sut([&] { *a.m = P::move(*b.m); });
            if(k != j) {
                a.mapped = b.mapped;
                a.want = b.want;
                b.mapped = false;
            }
            probe(k == j ? "self move" : "move assigned");
            break;
        case 4: // destroy
            if(!a.m) break;
            log("destroy %zu", k);
            destroy(a.m);
            a = Slot{};
            break;
        case 5: // an empty one
            if(a.m) break;
            a.m = make<P::MMapping>();
            a.mapped = false;
            break;
        case 6: { // result thrown away, or kept as an optional and moved around
            auto t = gen_target();
            op_begin();
            Sut s;
            auto o = P::mmap_file(t.path.c_str());
            bool has = (bool)o;
            if(has) {
                P::Optional<P::MMapping> o2(P::move(o));
                auto sp = bytes_of(*o2);
                size_t n = count_of(sp);
                host([&] { SIM_CHECK(n == t.content.size(), "wrong-length", "mapping through an optional has %zu bytes of %zu", n, t.content.size()); });
            } else
                host([&] { SIM_CHECK(!t.loadable || op_faults(), "content-refused", "%s was not mapped although nothing failed", t.path.c_str()); });
            break;
        }
        }
        check_all();
    }
    for(auto &s : slots)
        if(s.m) {
            destroy(s.m);
            s = Slot{};
        }
    check_all();
    SIM_CHECK(fs::open_handles().empty(), "handle-leak", "left at the end:%s", fs::open_handles().c_str());
    check_no_leaks("the run");
}

// One system call after the other fails; afterwards the disk is healthy and mapping works.
SIM_SCENARIO(mapping_each_failure, 3) {
    randomize_heap();
    slots.assign(1, Slot{});
    strict_abort = true;
    Target t{"/w/f", true, gen_bytes(1 + pick(9000))};
    fs::add_file(t.path, t.content);
    auto &c = fs::cfg();
    c.open_err = c.seek_err = c.stat_err = c.map_err = c.close_err = true;
    c.fail_at = pick(8);
    slots[0].m = map_one(t, false, nullptr);
    slots[0].mapped = slots[0].m != nullptr;
    slots[0].want = t.content;
    check_all();
    c = fs::Cfg{};
    if(slots[0].m) {
        destroy(slots[0].m);
        slots[0] = Slot{};
    }
    slots[0].m = map_one(t, false, nullptr);
    SIM_CHECK(slots[0].m, "content-refused", "mapping fails after the faults stopped");
    slots[0].mapped = true;
    slots[0].want = t.content;
    check_all();
    destroy(slots[0].m);
    slots[0] = Slot{};
    check_all();
}

// Another process replaces or removes the file meanwhile: the mapping is one whole version of it, and stays that.
namespace {
struct Other {
    bool live = false;
    uint32_t den = 2;
    std::vector<std::string> versions;
    bool absent = false;
    int acts = 0;
};
Other *O;
void replace_it(void *, const char *, const char *) {
    auto &o = *O;
    if(!o.live || !chance(SCHED, 1, o.den)) return;
    ++o.acts;
    if(choose(SCHED, 6) == 5) {
        fs::remove("/w/f");
        log("another process removes the file");
        o.absent = true;
        return;
    }
    uint32_t k = choose(SCHED, 6);
    size_t n = k == 0 ? 0 : k == 1 ? 1 + choose(SCHED, 20) : k < 4 ? 4096 * (1 + choose(SCHED, 3)) - 1 + choose(SCHED, 3) : choose(SCHED, 20000);
    std::string c(n, 'A' + o.versions.size() % 26);
    if(n) c.back() = 'z';
    fs::remove("/w/next");
    fs::add_file("/w/next", c);
    fs::rename("/w/next", "/w/f");
    log("another process puts a file of %zu bytes in its place", n);
    o.versions.push_back(c);
}
} // namespace
SIM_SCENARIO(mapping_replaced, 3) {
    randomize_heap();
    strict_abort = true;
    Other o;
    O = &o;
    fs::add_dir("/w");
    fs::on_syscall(replace_it, nullptr);
    o.den = 1 + pick(6);
    if(flip(1, 4)) {
        auto &c = fs::cfg();
        c.den = 4 + pick(10);
        c.open_err = coin();
        c.map_err = coin();
        c.close_err = coin();
    }
    for(int n = 1 + pick(4); n > 0; --n) {
        std::string first = gen_bytes(flip(1, 8) ? 0 : 1 + gen_size());
        fs::remove("/w/f");
        fs::add_file("/w/f", first);
        o.versions.assign(1, first);
        o.absent = false;
        op_begin();
        P::MMapping *m = nullptr;
        o.live = true;
        {
            Sut s;
            auto r = P::mmap_file("/w/f");
            if(r) m = host([&] { return make<P::MMapping>(P::move(*r)); });
        }
        o.live = false;
        bool empty = false;
        for(auto &v : o.versions) empty |= v.empty();
        if(!m) {
            SIM_CHECK(empty || o.absent || op_faults(), "content-refused", "the file was not mapped although it was there, not empty and nothing failed");
        } else {
            for(int round = 0; round < 2; ++round) {
                std::string got = sut([&] {
                    auto sp = bytes_of(*m);
                    size_t n = count_of(sp);
                    const char *d = sp.data();
                    return host([&] { return std::string(d, n); });
                });
                bool known = false;
                for(auto &v : o.versions) known |= v == got;
                SIM_CHECK(known && !got.empty(), "wrong-content", "the mapping shows %zu bytes, which are not the file as it was at any time of the call", got.size());
                if(round) break;
                // Whatever happens to the name now.
                if(coin())
                    fs::remove("/w/f");
                else {
                    fs::add_file("/w/next", "other");
                    fs::rename("/w/next", "/w/f");
                    o.versions.assign(1, got);
                }
            }
            probe(o.acts ? "mapped a file that is being replaced" : "mapped");
            destroy(m);
        }
        nontrivial();
        SIM_CHECK(fs::open_handles().empty(), "handle-leak", "left after mapping:%s", fs::open_handles().c_str());
        state(o.acts * 31 + (m != nullptr));
    }
    check_no_leaks("the run");
}
