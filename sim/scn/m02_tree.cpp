// M02: an ordered map or set answers like a sorted dictionary after any history.
#include "elem.hpp"
#if EPOCH == 2026
#include <pystd2026_btree.hpp>
#endif

namespace {
template<typename K> struct Key;
template<> struct Key<Elem> {
    static Elem make(int i) { return Elem(i); }
    static int id(const Elem &e) { return e.val(); }
    static constexpr int elems = 1;
};
template<> struct Key<int64_t> {
    static int64_t make(int i) { return ((int64_t)i << 33) - (1ll << 40); }
    static int id(const int64_t &e) { return (int)((e + (1ll << 40)) >> 33); }
    static constexpr int elems = 0;
};
template<> struct Key<P::U8String> {
    static P::U8String make(int i) {
        char b[32];
        snprintf(b, sizeof b, "k\xC3\xA4y%06d", i);
        return P::U8String(b);
    }
    static int id(const P::U8String &e) { return atoi(e.c_str() + 4); }
    static constexpr int elems = 0;
};

// One interface over the three front ends.
template<typename K, size_t N> struct TreeF {
    typedef P::BTree<K, N> T;
    static constexpr const char *name = "tree";
    static constexpr int elems = Key<K>::elems;
    static void insert(T &t, int k, int, bool mv) {
        if(mv)
            t.insert(Key<K>::make(k));
        else {
            K key = Key<K>::make(k);
            t.insert(key);
        }
    }
    static void remove(T &t, int k) {
        K key = Key<K>::make(k);
        t.remove(key);
    }
    static int lookup(T &t, int k) {
        const T &c = t;
        K key = Key<K>::make(k);
        const K *p = c.lookup(key);
        bool has = c.contains(key);
        if(has != (p != nullptr)) host([&] { fail("wrong-answer", "contains(%d) is %d, lookup found %s", k, has, p ? "it" : "nothing"); });
        if(!p) return -2;
        int got = Key<K>::id(*p);
        if(got != k) host([&] { fail("wrong-value", "looking up %d finds %d", k, got); });
        return 0;
    }
    static long size(T &t) { return t.is_empty() == (t.size() == 0) ? (long)t.size() : -1; }
    static int value(int) { return 0; }
    // removes / inserts using a reference to the tree's own element
    static bool own(T &t, int k, bool rem) {
        K key = Key<K>::make(k);
        const K *p = t.lookup(key);
        if(rem)
            t.remove(*p);
        else
            t.insert(*p);
        return true;
    }
#if EPOCH == 2026
    static bool iterate(T &t, std::vector<int> &out, int stop) {
        int n = 0;
        for(auto &v : t) {
            int id = Key<K>::id(v);
            host([&] { out.push_back(id); });
            if(++n == stop) break;
        }
        return true;
    }
#else
    static bool iterate(T &, std::vector<int> &, int) { return false; }
#endif
    static bool reserve(T &t, size_t n) {
        t.reserve(n);
        return true;
    }
};
template<typename K, size_t N> struct SetF {
    typedef P::BTreeSet<K, N> T;
    static constexpr const char *name = "set";
    static constexpr int elems = Key<K>::elems;
    static void insert(T &t, int k, int, bool) {
        K key = Key<K>::make(k);
        t.insert(key);
    }
    static void remove(T &t, int k) {
        K key = Key<K>::make(k);
        t.remove(key);
    }
    static int lookup(T &t, int k) {
        K key = Key<K>::make(k);
        return t.contains(key) ? 0 : -2;
    }
    static long size(T &t) { return t.is_empty() == (t.size() == 0) ? (long)t.size() : -1; }
    static int value(int) { return 0; }
    static bool own(T &, int, bool) { return false; }
    static bool iterate(T &, std::vector<int> &, int) { return false; }
    static bool reserve(T &, size_t) { return false; }
};
template<typename K, size_t N> struct MapF {
    typedef P::BTreeMap<K, Elem, N> T;
    static constexpr const char *name = "map";
    static constexpr int elems = Key<K>::elems + 1;
    static void insert(T &t, int k, int v, bool) {
        K key = Key<K>::make(k);
        t.insert(key, Elem(v));
    }
    static void remove(T &t, int k) {
        K key = Key<K>::make(k);
        t.remove(key);
    }
    static int lookup(T &t, int k) {
        K key = Key<K>::make(k);
        Elem *p = t.lookup(key);
        return p ? p->val() : -2;
    }
    static long size(T &) { return -2; }
    static int value(int v) { return v; }
    static bool own(T &, int, bool) { return false; }
    static bool iterate(T &, std::vector<int> &, int) { return false; }
    static bool reserve(T &, size_t) { return false; }
};

template<typename F> struct World {
    typedef typename F::T T;
    struct Slot {
        T *t = nullptr;
        std::map<int, int> ref;
    };
    std::vector<Slot> slots;
    int nkeys = 20, next = 1000;
    std::string name(size_t i) { return fmt("%s %zu", F::name, i); }
    void count(const char *what) {
        size_t n = 0;
        for(auto &s : slots)
            n += s.ref.size() * F::elems;
        el::expect(n, what);
    }
    void verify(size_t i, const char *what, bool all) {
        auto &s = slots[i];
        if(!s.t) return;
        long sz = sut([&] { return F::size(*s.t); });
        SIM_CHECK(sz == -2 || sz == (long)s.ref.size(), "wrong-size", "%s: %s has size %ld, the dictionary %zu", what, name(i).c_str(), sz, s.ref.size());
        std::vector<int> got;
        bool can = sut([&] { return F::iterate(*s.t, got, -1); });
        if(can) {
            for(size_t q = 1; q < got.size(); ++q)
                SIM_CHECK(got[q - 1] < got[q], "out-of-order", "%s: iterating %s delivers %d after %d", what, name(i).c_str(), got[q], got[q - 1]);
            auto it = s.ref.begin();
            for(size_t q = 0; q < got.size(); ++q, ++it) {
                SIM_CHECK(it != s.ref.end() && it->first >= got[q], "key-invented", "%s: iterating %s delivers %d, which is not there", what, name(i).c_str(), got[q]);
                SIM_CHECK(it->first == got[q], "key-lost", "%s: iterating %s does not deliver %d", what, name(i).c_str(), it->first);
            }
            SIM_CHECK(it == s.ref.end(), "key-lost", "%s: iterating %s does not deliver %d", what, name(i).c_str(), it->first);
        }
        if(all)
            for(int k = -1; k <= nkeys; ++k)
                ask(i, k);
    }
    void ask(size_t i, int k) {
        auto &s = slots[i];
        int got = sut([&] { return F::lookup(*s.t, k); });
        auto it = s.ref.find(k);
        int want = it == s.ref.end() ? -2 : it->second;
        SIM_CHECK(got == want, got == -2 ? "key-lost" : want == -2 ? "key-invented" : "wrong-value", "looking up %d in %s gives %d, the dictionary says %d", k, name(i).c_str(), got, want);
    }
    // after a refused operation on one key it has its old or its new value
    void settle(size_t i, int k, int newv) {
        auto &s = slots[i];
        disarm();
        op_begin();
        int got = sut([&] { return F::lookup(*s.t, k); });
        int old = s.ref.count(k) ? s.ref[k] : -2;
        SIM_CHECK(got == old || got == newv, "half-done", "after a refused operation key %d of %s has %d, neither old (%d) nor new (%d)", k, name(i).c_str(), got, old, newv);
        if(got == -2)
            s.ref.erase(k);
        else
            s.ref[k] = got;
    }
    void put(size_t i, int k, int v, bool mv) {
        auto &s = slots[i];
        if(attempt("insert", [&] { F::insert(*s.t, k, v, mv); }))
            s.ref[k] = F::value(v);
        else
            settle(i, k, F::value(v));
    }
    void drop(size_t i, int k) {
        auto &s = slots[i];
        if(attempt("remove", [&] { F::remove(*s.t, k); }))
            s.ref.erase(k);
        else
            settle(i, k, -2);
    }
    void step(uint32_t fault_den) {
        size_t i = pick(slots.size()), j = pick(slots.size());
        auto &s = slots[i];
        auto &o = slots[j];
        if(!s.t) {
            s.t = make<T>();
            log("new %s", name(i).c_str());
        }
        int k = pick(nkeys), v = next++;
        const char *what = "";
        bool all = false;
        arm_faults(fault_den);
        switch(pick(20)) {
        case 0:
        case 1:
        case 2:
        case 3:
            what = "insert";
            log("insert %d=%d into %s", k, v, name(i).c_str());
            put(i, k, v, coin());
            break;
        case 4:
        case 5:
        case 6:
        case 7:
            what = "remove";
            log("remove %d from %s", k, name(i).c_str());
            drop(i, k);
            break;
        case 8:
        case 9:
        case 10: {
            // a run of keys, ascending, descending or mixed
            what = "fill";
            int n = 1 + pick(nkeys), from = pick(nkeys), how = pick(3);
            log("fill %s with %d keys from %d, %s", name(i).c_str(), n, from, how == 0 ? "ascending" : how == 1 ? "descending" : "mixed");
            for(int q = 0; q < n; ++q) {
                int kk = how == 0 ? (from + q) % nkeys : how == 1 ? (from + nkeys - q % nkeys) % nkeys : pick(nkeys);
                arm_faults(fault_den ? fault_den * 8 : 0);
                put(i, kk, next++, coin());
            }
            all = true;
            break;
        }
        case 11:
        case 12:
        case 13: {
            what = "drain";
            int n = 1 + pick(nkeys), from = pick(nkeys), how = pick(4);
            log("drain %s of %d keys from %d, %s", name(i).c_str(), n, from, how == 0 ? "ascending" : how == 1 ? "descending" : how == 2 ? "mixed" : "from both ends");
            for(int q = 0; q < n; ++q) {
                int kk = how == 0 ? (from + q) % nkeys : how == 1 ? (from + nkeys - q % nkeys) % nkeys : pick(nkeys);
                if(how == 3 && !s.ref.empty()) kk = q & 1 ? s.ref.begin()->first : s.ref.rbegin()->first;
                arm_faults(fault_den ? fault_den * 8 : 0);
                drop(i, kk);
            }
            all = true;
            break;
        }
        case 14: {
            what = "operation with an element of the tree itself";
            if(s.ref.empty()) break;
            auto it = s.ref.begin();
            std::advance(it, pick(s.ref.size()));
            int kk = it->first;
            bool rem = coin(), did = false;
            log("%s the element %d of %s itself", rem ? "remove" : "insert", kk, name(i).c_str());
            if(attempt(what, [&] { did = F::own(*s.t, kk, rem); })) {
                if(did && rem) s.ref.erase(kk);
                if(did) probe("element of the tree itself as argument");
            } else
                settle(i, kk, rem ? -2 : 0);
            break;
        }
        case 15:
            what = "move construct";
            if(i == j || o.t) break;
            log("move construct %s from %s", name(j).c_str(), name(i).c_str());
            disarm();
            o.t = make<T>(P::move(*s.t));
            o.ref = s.ref;
            s.ref.clear();
            probe("moved");
            all = true;
            break;
        case 16:
            what = "move assign";
            if(!o.t) break;
            log("move assign %s from %s", name(j).c_str(), name(i).c_str());
            sut([&] { *o.t = P::move(*s.t); });
            if(i != j) {
                o.ref = s.ref;
                s.ref.clear();
            }
            probe(i == j ? "moved to itself" : "moved");
            all = true;
            break;
        case 17:
            what = "destroy";
            if(!flip(1, 4)) break;
            log("destroy %s", name(i).c_str());
            destroy(s.t);
            s = Slot{};
            break;
        case 18: {
            what = "reserve";
            int n = pick(200);
            log("reserve %d in %s", n, name(i).c_str());
            attempt(what, [&] { F::reserve(*s.t, n); });
            break;
        }
        default:
            what = "ask";
            disarm();
            op_begin();
            if(flip(1, 3)) {
                std::vector<int> got;
                int stop = 1 + pick(nkeys);
                sut([&] { F::iterate(*s.t, got, stop); });
            }
            ask(i, (int)pick(nkeys + 2) - 1);
        }
        disarm();
        op_begin();
        count(what);
        for(size_t q = 0; q < slots.size(); ++q)
            verify(q, what, all && (q == i || q == j));
        uint64_t h = 0;
        for(auto &sl : slots)
            h = h * 1000003 + sl.ref.size() * 7 + (sl.ref.empty() ? 0 : sl.ref.begin()->first);
        state(h);
    }
    void run(uint32_t fault_den, int max_keys = 250) {
        randomize_heap();
        static const int sizes[] = {8, 20, 50, 120, 250};
        nkeys = std::min(sizes[pick(5)], max_keys);
        slots.resize(1 + pick(2));
        int ops = 1 + pick(nkeys > 100 ? 14 : 40);
        size_t most = 0;
        for(int n = 0; n < ops; ++n) {
            step(fault_den);
            for(auto &s : slots)
                most = std::max(most, s.ref.size());
        }
        if(most > 3) nontrivial();
        disarm();
        op_begin();
        for(size_t q = 0; q < slots.size(); ++q) {
            verify(q, "at the end", true);
            destroy(slots[q].t);
            slots[q].ref.clear();
        }
        count("after everything was destroyed");
        check_no_leaks("after everything was destroyed");
    }
};
template<template<typename, size_t> class F, typename K> void sized(uint32_t den) {
    allow_steps(40000000); // a tree is walked and asked for every key after every step
    if constexpr(std::is_same<K, P::U8String>::value) {
        if(coin())
            World<F<K, 3>>().run(den, 50);
        else
            World<F<K, 5>>().run(den, 50);
        return;
    } else
    switch(pick(4)) {
    case 0: World<F<K, 3>>().run(den); break;
    case 1: World<F<K, 5>>().run(den); break;
    case 2: World<F<K, 7>>().run(den); break;
    case 3: World<F<K, 15>>().run(den); break;
    }
}
// Thousands of keys, deep trees: filled and drained in long strokes, looked at in between.
template<template<typename, size_t> class F, size_t N> void big_tree() {
    typedef F<int64_t, N> Ops;
    typedef typename Ops::T T;
    randomize_heap();
    allow_steps(4000000000ull);
    struct Slot {
        T *t;
        std::map<int, int> ref;
    } s[2];
    for(auto &x : s)
        x.t = make<T>();
    int universe = flip(1, 100) ? 70000 + (int)pick(20000) : 300 << pick(5);
    if(universe > 65536) probe("more than 65536 keys");
    uint32_t x = pick(1u << 30) | 1;
    auto next = [&] { return (int)((x = x * 1664525u + 1013904223u) >> 8); };
    int v = 1, strokes = 2 + pick(universe > 20000 ? 3 : 9);
    int churn = flip(1, 25) ? (int)pick(strokes) : -1;
    for(int q = 0; q < strokes; ++q) {
        int i = pick(2);
        Slot &t = s[i];
        if(q == churn) { // a long life at a small size: more changes than 16 bits count
            int few = 1 + (int)pick(40), n = 65536 + (int)pick(3000);
            log("%d changes of %d keys in tree %d", n, few, i);
            probe("more than 65536 changes");
            for(int k = 0; k < n; ++k) {
                int kk = next() % few;
                if(t.ref.count(kk)) {
                    sut([&] { Ops::remove(*t.t, kk); });
                    t.ref.erase(kk);
                } else {
                    int val = v++;
                    sut([&] { Ops::insert(*t.t, kk, val, k & 1); });
                    t.ref[kk] = Ops::value(val);
                }
            }
        }
        int what = pick(9), how = pick(4), from = pick(universe);
        int n = q == 0 ? universe - (int)pick(universe / 8) : 1 + (int)pick(universe);
        log("stroke %d: %s tree %d (%zu keys) by %d keys from %d, order %d", q, what < 4 ? "fill" : what < 7 ? "drain" : "move", i, t.ref.size(), n, from, how);
        if(what < 7) {
            for(int k = 0; k < n; ++k) {
                int kk = how == 0 ? (from + k) % universe : how == 1 ? (from + universe - k % universe) % universe : next() % universe;
                if(what < 4) {
                    int val = v++;
                    sut([&] { Ops::insert(*t.t, kk, val, k & 1); });
                    t.ref[kk] = Ops::value(val);
                } else {
                    if(how == 3 && !t.ref.empty()) kk = k & 1 ? t.ref.begin()->first : t.ref.rbegin()->first;
                    sut([&] { Ops::remove(*t.t, kk); });
                    t.ref.erase(kk);
                }
            }
        } else if(what == 7) {
            T *n = make<T>(P::move(*t.t));
            destroy(t.t);
            t.t = n;
        } else {
            sut([&] { *s[!i].t = P::move(*t.t); });
            s[!i].ref = t.ref;
            t.ref.clear();
        }
        for(auto &y : s) {
            long sz = sut([&] { return Ops::size(*y.t); });
            SIM_CHECK(sz == -2 || sz == (long)y.ref.size(), "wrong-size", "a %s has size %ld, the dictionary %zu", Ops::name, sz, y.ref.size());
            std::vector<int> got;
            if(sut([&] { return Ops::iterate(*y.t, got, -1); })) {
                SIM_CHECK(got.size() == y.ref.size(), got.size() < y.ref.size() ? "key-lost" : "key-invented", "iterating a %s delivers %zu keys, the dictionary has %zu", Ops::name, got.size(), y.ref.size());
                size_t k = 0;
                for(auto &r : y.ref) {
                    SIM_CHECK(got[k] == r.first, k && got[k] <= got[k - 1] ? "out-of-order" : "wrong-value", "iterating a %s delivers %d at %zu, should be %d", Ops::name, got[k], k, r.first);
                    ++k;
                }
            }
            for(int k = 0; k < (universe > 20000 ? universe : 1000); ++k) {
                int kk = universe > 20000 ? k : next() % universe;
                int a = sut([&] { return Ops::lookup(*y.t, kk); });
                auto it = y.ref.find(kk);
                int want = it == y.ref.end() ? -2 : it->second;
                SIM_CHECK(a == want, a == -2 ? "key-lost" : want == -2 ? "key-invented" : "wrong-value", "looking up %d in a %s of %zu gives %d, the dictionary says %d", kk, Ops::name, y.ref.size(), a, want);
            }
        }
    }
    for(auto &y : s)
        destroy(y.t);
    el::expect(0, "after everything was destroyed");
    check_no_leaks("after everything was destroyed");
    nontrivial();
}
} // namespace

SIM_SCENARIO(m02_big, 1) {
    if(flip(3, 4)) return; // long
    switch(pick(5)) {
    case 0: big_tree<TreeF, 3>(); break;
    case 1: big_tree<TreeF, 7>(); break;
    case 2: big_tree<SetF, 5>(); break;
    case 3: big_tree<MapF, 5>(); break;
    default: big_tree<TreeF, 31>();
    }
}
SIM_SCENARIO(m02_tree_elem, 3) { sized<TreeF, Elem>(0); }
SIM_SCENARIO(m02_tree_int, 2) { sized<TreeF, int64_t>(0); }
SIM_SCENARIO(m02_tree_text, 1) { sized<TreeF, P::U8String>(0); }
SIM_SCENARIO(m02_set_elem, 1) { sized<SetF, Elem>(0); }
SIM_SCENARIO(m02_set_text, 1) { sized<SetF, P::U8String>(0); }
SIM_SCENARIO(m02_map_elem, 2) { sized<MapF, Elem>(0); }
SIM_SCENARIO(m02_map_int, 1) { sized<MapF, int64_t>(0); }
SIM_SCENARIO(m02_map_text, 1) { sized<MapF, P::U8String>(0); }
SIM_SCENARIO(m02_tree_elem_faults, 2) { sized<TreeF, Elem>(6); }
SIM_SCENARIO(m02_set_elem_faults, 1) { sized<SetF, Elem>(6); }
SIM_SCENARIO(m02_map_elem_faults, 1) { sized<MapF, Elem>(6); }
