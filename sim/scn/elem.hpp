// An element type that accounts for its own lifetime and owns a block of simulated memory.
#pragma once
#include "gen.hpp"
#include <unordered_map>
#include <unordered_set>

namespace el {
struct Refused {};
inline std::unordered_set<const void *> &live() {
    static auto *s = new std::unordered_set<const void *>;
    return *s;
}
inline int64_t copy_budget = -1; // this many more copies succeed, then one is refused
inline int hash_mod = 0;         // != 0: hashes collide
inline bool swap_ok = true;
inline size_t count() { return live().size(); }
// Elements in here exist but do not belong to the operation: it must not even look at them.
struct Fence {
    const char *lo = nullptr, *hi = nullptr;
    bool has(const void *p) const { return (const char *)p >= lo && (const char *)p < hi; }
};
inline Fence fence[2];
inline void outside(const void *p, const char *how) {
    if(fence[0].has(p) || fence[1].has(p)) fail("outside-range", "an element outside the given range is %s", how);
}
inline void born(const void *p, const char *how) {
    host([&] {
        outside(p, how);
        if(!addressable(p, sizeof(void *))) fail("element-outside-memory", "an element is %s in memory that is not its owner's", how);
        if(!live().insert(p).second) fail("element-overwritten", "an element is %s where another one still lives", how);
    });
}
inline void dead(const void *p) {
    host([&] {
        outside(p, "destroyed");
        if(!live().erase(p)) fail("element-destroyed-twice", "an element is destroyed that does not exist (any more)");
    });
}
inline void used(const void *p, const char *how) {
    host([&] {
        outside(p, how);
        if(!live().count(p)) fail("element-not-alive", "an element is %s that does not exist (any more)", how);
    });
}
inline void maybe_refuse() {
    bool r = host([&] {
        if(copy_budget < 0) return false;
        if(copy_budget-- > 0) return false;
        fault_fired("copy:refused");
        return true;
    });
    if(r) throw Refused();
}
struct Elem {
    int *p;
    Elem() noexcept : p(nullptr) { born(this, "created"); }
    explicit Elem(int v) : p(new int(v)) { born(this, "created"); }
    Elem(const Elem &o) : p(nullptr) {
        used(&o, "copied from");
        maybe_refuse();
        if(o.p) p = new int(*o.p);
        born(this, "copied");
    }
    Elem(Elem &&o) noexcept : p(nullptr) {
        used(&o, "moved from");
        p = o.p;
        o.p = nullptr;
        born(this, "moved");
    }
    Elem &operator=(const Elem &o) {
        used(&o, "copied from");
        used(this, "assigned to");
        if(this == &o) return *this;
        maybe_refuse();
        int *n = o.p ? new int(*o.p) : nullptr;
        delete p;
        p = n;
        return *this;
    }
    Elem &operator=(Elem &&o) noexcept {
        used(&o, "moved from");
        used(this, "assigned to");
        if(this == &o) return *this;
        delete p;
        p = o.p;
        o.p = nullptr;
        return *this;
    }
    ~Elem() {
        dead(this);
        delete p;
    }
    // -1: nothing in it (default or moved from)
    int val() const {
        used(this, "read");
        return p ? *p : -1;
    }
    bool operator==(const Elem &o) const { return val() == o.val(); }
    bool operator!=(const Elem &o) const { return val() != o.val(); }
    bool operator<(const Elem &o) const { return val() < o.val(); }
    bool operator>(const Elem &o) const { return val() > o.val(); }
    int operator<=>(const Elem &o) const {
        int a = val(), b = o.val();
        return a < b ? -1 : a > b ? 1 : 0;
    }
    template<typename H> void feed_hash(H &h) const noexcept {
        int v = val();
        if(hash_mod) v %= hash_mod;
        h.feed_bytes((const char *)&v, hash_mod == 1 ? 0 : 4);
    }
};
// Checks the number of elements in existence.
inline void expect(size_t n, const char *what) {
    if(count() != n) fail(count() > n ? "elements-leaked" : "elements-lost", "%s: %zu elements exist, there should be %zu", what, count(), n);
}
} // namespace el
using el::Elem;
#if EPOCH == 2025
namespace pystd2025 {
template<typename Hasher> struct HashFeeder<Hasher, el::Elem> {
    void operator()(Hasher &h, const el::Elem &e) noexcept { e.feed_hash(h); }
};
} // namespace pystd2025
#endif

// Runs one operation that may fail only if a fault was injected into it.  Returns whether it completed.
template<typename F> bool attempt(const char *what, F &&f) {
    bool threw = false;
    {
        Sut s;
        try {
            f();
        } catch(...) {
            threw = true;
        }
    }
    if(threw) {
        SIM_CHECK(op_faults(), "unexpected-exception", "%s threw although nothing failed", what);
        probe("an operation was refused after a fault");
    }
    return !threw;
}
// Runs one operation that must be refused.
template<typename F> void refused(const char *what, F &&f) {
    bool threw = false;
    {
        Sut s;
        try {
            f();
        } catch(...) {
            threw = true;
        }
    }
    SIM_CHECK(threw, "not-refused", "%s was accepted", what);
    probe("refused as it must be");
}
// Draws allocation and copy failures for the next operation.
inline void arm_faults(uint32_t den) {
    op_begin();
    auto &f = faults();
    f.oom_after = -1;
    f.oom_count = 0;
    el::copy_budget = -1;
    if(!den) return;
    if(chance(FAULT, 1, den)) {
        f.oom_after = choose(FAULT, 4) == 0 ? choose(FAULT, 20) : choose(FAULT, 4);
        f.oom_count = choose(FAULT, 3) == 0 ? 1000000 : 1;
    }
    if(chance(FAULT, 1, den)) el::copy_budget = choose(FAULT, 4) == 0 ? choose(FAULT, 30) : choose(FAULT, 4);
}
inline void disarm() {
    faults().oom_after = -1;
    faults().oom_count = 0;
    el::copy_budget = -1;
}
