// M01: a hash map or set answers like a dictionary after any history, wherever it lives.
#include "elem.hpp"
#if EPOCH == 2026
#include <pystd2026_hashtable.hpp>
#endif

namespace {
template<typename K> struct Key;
template<> struct Key<Elem> {
    static Elem make(int i) { return Elem(i); }
    static int id(const Elem &e) { return e.val(); }
};
template<> struct Key<int64_t> {
    static int64_t make(int i) { return ((int64_t)i << 33) | i; }
    static int id(const int64_t &e) { return (int)(e & 0x7fffffff); }
};
#if EPOCH == 2026
template<> struct Key<P::CString> {
    static P::CString make(int i) {
        char b[32];
        snprintf(b, sizeof b, "key%d", i);
        return P::CString(b);
    }
    static int id(const P::CString &e) { return atoi(e.c_str() + 3); }
};
#endif
template<> struct Key<P::U8String> {
    static P::U8String make(int i) {
        char b[32];
        snprintf(b, sizeof b, "\xC3\xA4key%d", i);
        return P::U8String(b);
    }
    static int id(const P::U8String &e) { return atoi(e.c_str() + 5); }
};

template<typename K> struct MapWorld {
    typedef P::HashMap<K, Elem> M;
    struct Slot {
        M *m = nullptr;
        std::map<int, int> ref;
    };
    std::vector<Slot> slots;
    int nkeys = 8, next = 1000;
    bool elem_keys = sizeof(K) == sizeof(Elem) && std::is_same<K, Elem>::value;
    std::string name(size_t i) { return fmt("map %zu", i); }

    void count(const char *what) {
        size_t n = 0;
        for(auto &s : slots)
            n += s.ref.size() * (elem_keys ? 2 : 1);
        el::expect(n, what);
    }
    void verify(size_t i, const char *what) {
        auto &s = slots[i];
        if(!s.m) return;
        SIM_CHECK(s.m->size() == s.ref.size() && s.m->is_empty() == s.ref.empty(), "wrong-size", "%s: %s has size %zu, the dictionary %zu", what, name(i).c_str(), s.m->size(), s.ref.size());
        std::map<int, int> seen;
        bool twice = false;
        {
            Sut u;
            for(auto kv : *s.m) {
                int k = Key<K>::id(*kv.key), v = kv.value->val();
                host([&] { twice |= !seen.emplace(k, v).second; });
            }
        }
        SIM_CHECK(!twice, "key-twice", "%s: iterating %s delivers a key twice", what, name(i).c_str());
        if(seen != s.ref) {
            for(auto &[k, v] : s.ref)
                if(!seen.count(k)) fail("key-lost", "%s: iterating %s does not deliver key %d", what, name(i).c_str(), k);
                else if(seen[k] != v) fail("wrong-value", "%s: %s has %d for key %d, the dictionary %d", what, name(i).c_str(), seen[k], k, v);
            for(auto &[k, v] : seen)
                if(!s.ref.count(k)) fail("key-invented", "%s: iterating %s delivers key %d, which is not there", what, name(i).c_str(), k);
        }
    }
    void ask(size_t i, int k) {
        auto &s = slots[i];
        int got = -2;
        bool c;
        {
            Sut u;
            K key = Key<K>::make(k);
            c = s.m->contains(key);
            Elem *v = s.m->lookup(key);
            if(v) got = v->val();
        }
        auto it = s.ref.find(k);
        int want = it == s.ref.end() ? -2 : it->second;
        SIM_CHECK(got == want, got == -2 ? "key-lost" : want == -2 ? "key-invented" : "wrong-value", "looking up %d in %s gives %d, the dictionary says %d", k, name(i).c_str(), got, want);
        SIM_CHECK(c == (want != -2), "wrong-answer", "contains(%d) of %s is %d", k, name(i).c_str(), c);
        {
            Sut u;
            bool threw = false;
            K key = Key<K>::make(k);
            try {
                got = s.m->at(key).val();
            } catch(...) {
                threw = true;
            }
            host([&] {
                SIM_CHECK(threw == (want == -2), "wrong-answer", "at(%d) of %s %s", k, name(i).c_str(), threw ? "threw" : "answered");
                SIM_CHECK(threw || got == want, "wrong-value", "at(%d) of %s gives %d, the dictionary says %d", k, name(i).c_str(), got, want);
            });
        }
    }
    // After a refused operation on one key: that key has its old or its new value.
    void settle(size_t i, int k, int newv) {
        auto &s = slots[i];
        int got = -2;
        {
            Sut u;
            disarm();
            K key = Key<K>::make(k);
            Elem *v = s.m->lookup(key);
            if(v) got = v->val();
        }
        int old = s.ref.count(k) ? s.ref[k] : -2;
        SIM_CHECK(got == old || got == newv, "half-done", "after a refused operation key %d of %s has %d, neither old (%d) nor new (%d)", k, name(i).c_str(), got, old, newv);
        if(got != -2) s.ref[k] = got;
    }
    void step(uint32_t fault_den) {
        size_t i = pick(slots.size()), j = pick(slots.size());
        auto &s = slots[i];
        auto &o = slots[j];
        if(!s.m) {
            s.m = make<M>();
            log("new %s", name(i).c_str());
        }
        int k = pick(nkeys), v = next++;
        uint32_t op = pick(24);
        const char *what = "";
        arm_faults(fault_den);
        switch(op) {
        case 0:
        case 1:
        case 2:
        case 3:
        case 4: {
            what = "insert";
            log("insert %d=%d into %s", k, v, name(i).c_str());
            int back = -2;
            if(attempt(what, [&] {
                   K key = Key<K>::make(k);
                   back = s.m->insert(key, Elem(v)).val();
               })) {
                s.ref[k] = v;
                SIM_CHECK(back == v, "wrong-value", "insert returned a reference to %d instead of %d", back, v);
            } else
                settle(i, k, v);
            break;
        }
        case 5:
        case 6:
        case 7:
        case 8: {
            what = "remove";
            log("remove %d from %s", k, name(i).c_str());
            if(attempt(what, [&] {
                   K key = Key<K>::make(k);
                   s.m->remove(key);
               }))
                s.ref.erase(k);
            else
                settle(i, k, -2);
            break;
        }
        case 9: {
            what = "operator[]";
            log("[%d] of %s", k, name(i).c_str());
            int got = -3;
            bool had = s.ref.count(k);
            bool assign = coin();
            if(attempt(what, [&] {
                   K key = Key<K>::make(k);
                   Elem &r = (*s.m)[key];
                   got = r.val();
                   if(assign) r = Elem(v);
               })) {
                SIM_CHECK(got == (had ? s.ref[k] : -1), "wrong-value", "[%d] of %s gives %d", k, name(i).c_str(), got);
                s.ref[k] = assign ? v : had ? s.ref[k] : -1;
            } else {
                settle(i, k, -1);
                if(!had && s.m->size() > s.ref.size()) s.ref[k] = -1;
            }
            break;
        }
        case 10: {
            // the key given is the one stored in the table
            if(s.ref.empty()) break;
            what = "operation with a key of the table itself";
            int at = pick(s.ref.size());
            bool rem = coin();
            log("%s with key number %d of %s itself", rem ? "remove" : "insert", at, name(i).c_str());
            int id = -1;
            bool ok = attempt(what, [&] {
                int n = 0;
                for(auto kv : *s.m)
                    if(n++ == at) {
                        id = Key<K>::id(*kv.key);
                        if(rem)
                            s.m->remove(*kv.key);
                        else
                            s.m->insert(*kv.key, Elem(v));
                        break;
                    }
            });
            if(!ok) {
                settle(i, id, rem ? -2 : v);
                break;
            }
            if(rem)
                s.ref.erase(id);
            else
                s.ref[id] = v;
            probe("key of the table itself");
            break;
        }
        case 11: {
            if(s.ref.empty()) break;
            what = "insert a value of the table itself";
            auto it = s.ref.begin();
            std::advance(it, pick(s.ref.size()));
            log("insert the value of %d for %d into %s", it->first, k, name(i).c_str());
            int src = it->second;
            if(attempt(what, [&] {
                   K key = Key<K>::make(k), key2 = Key<K>::make(it->first);
                   s.m->insert(key, *s.m->lookup(key2));
               }))
                s.ref[k] = src;
            else
                settle(i, k, src);
            break;
        }
        case 22: {
            // a value of the table used as a key
            if constexpr(std::is_same<K, Elem>::value) {
                if(s.ref.empty()) break;
                what = "insert with a value of the table as the key";
                auto it = s.ref.begin();
                std::advance(it, pick(s.ref.size()));
                if(it->second < 0) break;
                int src = it->second, at = it->first;
                log("insert %d=%d into %s, the key being the value stored for %d", src, v, name(i).c_str(), at);
                if(attempt(what, [&] { s.m->insert(*s.m->lookup(Elem(at)), Elem(v)); }))
                    s.ref[src] = v;
                else
                    settle(i, src, v);
                probe("value of the table used as key");
            }
            break;
        }
        case 12:
            what = "clear";
            if(!flip(1, 3)) break;
            log("clear %s", name(i).c_str());
            sut([&] { s.m->clear(); });
            s.ref.clear();
            break;
        case 13:
            what = "move construct";
            if(i == j || o.m) break;
            log("move construct %s from %s", name(j).c_str(), name(i).c_str());
            disarm();
            o.m = make<M>(P::move(*s.m));
            o.ref = s.ref;
            s.ref.clear();
            probe("moved");
            break;
        case 14:
            what = "move assign";
            if(!o.m) break;
            log("move assign %s from %s", name(j).c_str(), name(i).c_str());
            sut([&] { *o.m = P::move(*s.m); });
            if(i != j) {
                o.ref = s.ref;
                s.ref.clear();
            }
            probe(i == j ? "moved to itself" : "moved");
            break;
        case 15:
            what = "destroy";
            if(!flip(1, 4)) break;
            log("destroy %s", name(i).c_str());
            destroy(s.m);
            s = Slot{};
            break;
        case 16:
        case 17: {
            // many keys come and go, the table keeps its size
            what = "churn";
            int n = 4 + pick(40);
            log("churn %d keys through %s", n, name(i).c_str());
            disarm();
            op_begin();
            attempt(what, [&] {
                for(int q = 0; q < n; ++q) {
                    K key = Key<K>::make(100000 + next + q);
                    s.m->insert(key, Elem(1));
                    s.m->remove(key);
                }
            });
            next += n;
            probe("keys churned through the table");
            break;
        }
        case 18: {
            what = "fill";
            int n = 4 + pick(30);
            log("fill %s with %d keys", name(i).c_str(), n);
            for(int q = 0; q < n; ++q) {
                int kk = pick(nkeys * 2), vv = next++;
                arm_faults(fault_den ? fault_den * 8 : 0);
                if(attempt(what, [&] {
                       K key = Key<K>::make(kk);
                       s.m->insert(key, Elem(vv));
                   }))
                    s.ref[kk] = vv;
                else
                    settle(i, kk, vv);
            }
            break;
        }
        default:
            what = "ask";
            disarm();
            op_begin();
            ask(i, pick(2) ? k : (int)pick(nkeys * 2));
        }
        disarm();
        op_begin();
        count(what);
        if(s.m) verify(i, what);
        if(o.m && i != j) verify(j, what);
    }
    void run(uint32_t fault_den) {
        slots.assign(2, Slot{});
        nkeys = 2 + pick(40);
        static const int mods[] = {0, 0, 0, 1, 2, 3, 16};
        el::hash_mod = mods[pick(7)];
        if(el::hash_mod && elem_keys) probe("colliding hashes");
        int n = 2 + pick(60);
        for(int q = 0; q < n; ++q)
            step(fault_den);
        op_begin();
        for(size_t i = 0; i < slots.size(); ++i)
            if(slots[i].m) {
                verify(i, "at the end");
                for(int k = 0; k < nkeys * 2; ++k)
                    if(k < 8 || flip(1, 4)) ask(i, k);
                state(slots[i].ref.size() * 977 + nkeys);
                destroy(slots[i].m);
                slots[i] = Slot{};
            }
        count("at the end");
        check_no_leaks("the maps");
        nontrivial();
    }
};
template<typename K> struct SetWorld {
    typedef P::HashSet<K> S;
    struct Slot {
        S *s;
        std::set<int> ref;
    } w[2];
    void look(const char *what) {
        if(std::is_same<K, Elem>::value) el::expect(w[0].ref.size() + w[1].ref.size(), "sets");
        for(auto &x : w) {
            size_t n;
            bool e;
            {
                Sut u;
                n = x.s->size(), e = x.s->is_empty();
            }
            SIM_CHECK(n == x.ref.size() && e == x.ref.empty(), "wrong-size", "%s: the set has size %zu and is%s empty, the size should be %zu", what, n, e ? "" : " not", x.ref.size());
            std::set<int> seen;
            bool twice = false;
            {
                Sut u;
                for(auto &e : *x.s) {
                    int v = Key<K>::id(e);
                    host([&] { twice |= !seen.insert(v).second; });
                }
            }
            SIM_CHECK(!twice && seen == x.ref, "wrong-iteration", "%s: iterating the set delivers %zu elements, should be %zu%s", what, seen.size(), x.ref.size(), twice ? ", some twice" : "");
        }
    }
    void run(uint32_t fault_den) {
        el::hash_mod = pick(3) ? 0 : 1 + pick(5);
        for(auto &x : w)
            x.s = make<S>();
        int nkeys = 2 + pick(50);
        int n = 2 + pick(80);
        if(flip(1, 100)) { // a set that grows
            allow_steps(1000000000ull);
            el::hash_mod = 0;
            int big = std::is_same<K, int64_t>::value && flip(1, 30) ? 65536 + pick(3000) : 200 + pick(3000);
            nkeys = big;
            sut([&] {
                for(int k = 0; k < big; ++k) {
                    K key = Key<K>::make(k);
                    bool fresh = w[0].s->insert(key).second;
                    if(!fresh) host([&] { fail("wrong-answer", "inserting %d reports present", k); });
                }
            });
            for(int k = 0; k < big; ++k)
                w[0].ref.insert(k);
            look("filling");
            sut([&] {
                for(int k = 0; k < big; k += 1 + k % 7) {
                    K key = Key<K>::make(k);
                    w[0].s->remove(key);
                    host([&] { w[0].ref.erase(k); });
                }
            });
            n = 1 + pick(8);
            probe(big > 65535 ? "more than 65536 keys in a set" : "hundreds of keys in a set");
        }
        for(int q = 0; q < n; ++q) {
            int i = pick(2), k = pick(nkeys);
            S *s = w[i].s;
            auto &ref = w[i].ref;
            const char *what = "";
            arm_faults(fault_den);
            auto contains = [&] {
                disarm();
                return sut([&] {
                    K key = Key<K>::make(k);
                    return s->contains(key);
                });
            };
            auto settle = [&](bool may_go, bool may_come) {
                bool c = contains(), had = ref.count(k);
                SIM_CHECK(c == had || (had ? may_go : may_come), "half-done", "a refused operation on %d %s it", k, had ? "lost" : "invented");
                if(c)
                    ref.insert(k);
                else
                    ref.erase(k);
            };
            switch(pick(11)) {
            case 0:
            case 1:
            case 2:
            case 3: {
                what = "insert";
                bool fresh = false, had = ref.count(k);
                log("insert %d into set %d", k, i);
                if(attempt(what, [&] {
                       K key = Key<K>::make(k);
                       fresh = s->insert(key).second;
                   })) {
                    SIM_CHECK(fresh == !had, "wrong-answer", "inserting %d reports %s", k, fresh ? "new" : "present");
                    ref.insert(k);
                } else
                    settle(false, true);
                break;
            }
            case 4:
            case 5:
                what = "remove";
                log("remove %d from set %d", k, i);
                if(attempt(what, [&] {
                       K key = Key<K>::make(k);
                       s->remove(key);
                   }))
                    ref.erase(k);
                else
                    settle(true, false);
                break;
            case 6: {
                // an element of the set itself as the argument
                if(ref.empty()) break;
                bool rem = coin(), fresh = false;
                what = rem ? "remove an element given by itself" : "insert an element given by itself";
                int nth = pick(std::min<size_t>(ref.size(), 60)), id = -1;
                log("%s, set %d", what, i);
                bool ok = attempt(what, [&] {
                    int c = 0;
                    for(auto &e : *s)
                        if(c++ == nth) {
                            int v = Key<K>::id(e);
                            host([&] { id = v; });
                            if(rem)
                                s->remove(e);
                            else
                                fresh = s->insert(e).second;
                            break;
                        }
                });
                if(id < 0) break;
                k = id;
                if(!ok)
                    settle(rem, false);
                else if(rem)
                    ref.erase(id);
                else
                    SIM_CHECK(!fresh, "wrong-answer", "inserting %d again reports new", id);
                break;
            }
            case 7:
                if(!flip(1, 6)) break;
                what = "clear";
                log("clear set %d", i);
                sut([&] { s->clear(); });
                ref.clear();
                break;
            case 8: {
                disarm();
                what = "move construct";
                log("set %d moves into a new object", i);
                S *t = make<S>(P::move(*s));
                if(coin()) { // what is left is an empty set
                    size_t left = sut([&] { return s->size(); });
                    SIM_CHECK(left == 0, "moved-from", "after the move the source has %zu elements", left);
                }
                destroy(s);
                w[i].s = t;
                break;
            }
            case 9:
                disarm();
                if(!flip(1, 3)) break;
                what = "move assign";
                log("set %d is moved to the other", i);
                sut([&] { *w[!i].s = P::move(*s); });
                w[!i].ref = ref;
                ref.clear();
                break;
            default: {
                what = "contains";
                bool c = contains();
                SIM_CHECK(c == (bool)ref.count(k), "wrong-answer", "contains(%d) is %d", k, c);
            }
            }
            disarm();
            op_begin();
            look(what);
        }
        for(auto &x : w)
            destroy(x.s);
        if(std::is_same<K, Elem>::value) el::expect(0, "at the end");
        check_no_leaks("the sets");
        nontrivial();
    }
};
// Thousands of keys: only what grows with the table is looked at.
template<typename K> void big_history() {
    typedef P::HashMap<K, int64_t> M;
    el::hash_mod = 0;
    struct Slot {
        M *m;
        std::map<int, int64_t> ref;
    } s[2];
    for(auto &x : s)
        x.m = make<M>();
    uint32_t x = pick(1u << 30) | 1;
    auto next = [&] { return (int)((x = x * 1664525u + 1013904223u) >> 8); };
    allow_steps(4000000000ull);
    int universe = flip(1, 4) ? 4096 << pick(3) : 64 << pick(6); // up to 16384 keys
    int64_t v = 1;
    int steps = 2 + pick(8);
    bool most = std::is_same<K, int64_t>::value && flip(1, 60);
    if(most) {
        universe = 75000; // more than 16 bits can number
        steps = 2 + pick(3);
        probe("more than 65536 keys");
    }
    int churn = std::is_same<K, int64_t>::value && flip(1, 25) ? (int)pick(steps) : -1;
    for(int q = 0; q < steps; ++q) {
        int i = pick(2);
        Slot &t = s[i];
        const char *what = "fill";
        if(q == churn) { // a long life at a small size: more changes than 16 bits count
            int few = 1 + (int)pick(40), n = 65536 + (int)pick(3000);
            bool moving = coin(); // ever new keys, so that removed places pile up everywhere
            log("%d changes of %d keys in map %d", n, few, i);
            probe("more than 65536 changes");
            for(int k = 0; k < n; ++k) {
                int key = moving ? k / 2 % 30000 + universe : next() % few;
                bool had = t.ref.count(key);
                int64_t val = v++;
                sut([&] {
                    K kk = Key<K>::make(key);
                    if(had)
                        t.m->remove(kk);
                    else
                        t.m->insert(kk, val);
                });
                if(had)
                    t.ref.erase(key);
                else
                    t.ref[key] = val;
            }
        }
        switch(pick(8)) {
        case 0:
        case 1:
        case 2: {
            int n = pick(universe) + 1;
            if(most && q == 0) n = universe;
            for(int k = 0; k < n; ++k) {
                int key = most && q == 0 ? k : next() % universe;
                int64_t val = v++;
                sut([&] {
                    K kk = Key<K>::make(key);
                    t.m->insert(kk, val);
                });
                t.ref[key] = val;
            }
            break;
        }
        case 3:
        case 4: {
            what = "drain";
            int n = pick(universe) + 1;
            for(int k = 0; k < n; ++k) {
                int key = next() % universe;
                sut([&] {
                    K kk = Key<K>::make(key);
                    t.m->remove(kk);
                });
                t.ref.erase(key);
            }
            break;
        }
        case 5:
            what = "move construct";
            {
                M *n = make<M>(P::move(*t.m));
                destroy(t.m);
                t.m = n;
            }
            break;
        case 6:
            what = "move assign";
            sut([&] { *s[!i].m = P::move(*t.m); });
            s[!i].ref = t.ref;
            t.ref.clear();
            break;
        default:
            if(flip(1, 3)) {
                what = "clear";
                sut([&] { t.m->clear(); });
                t.ref.clear();
            }
        }
        log("%s map %d: %zu of %d keys", what, i, t.ref.size(), universe);
        if(t.ref.size() > 4000) probe("thousands of keys");
        for(auto &y : s) {
            SIM_CHECK(y.m->size() == y.ref.size(), "wrong-size", "%s: a map has size %zu, the dictionary %zu", what, y.m->size(), y.ref.size());
            for(int k = 0; k < 200; ++k) {
                int key = next() % universe;
                int64_t got = sut([&] {
                    K kk = Key<K>::make(key);
                    auto *p = y.m->lookup(kk);
                    return p ? *p : -2;
                });
                auto it = y.ref.find(key);
                int64_t want = it == y.ref.end() ? -2 : it->second;
                SIM_CHECK(got == want, got == -2 ? "key-lost" : want == -2 ? "key-invented" : "wrong-value", "%s: looking up %d gives %lld, the dictionary of %zu says %lld", what, key, (long long)got, y.ref.size(), (long long)want);
            }
            std::map<int, int64_t> seen;
            bool twice = false;
            {
                Sut u;
                for(auto kv : *y.m) {
                    int k = Key<K>::id(*kv.key);
                    int64_t val = *kv.value;
                    host([&] { twice |= !seen.emplace(k, val).second; });
                }
            }
            SIM_CHECK(!twice, "key-twice", "%s: iterating a map of %zu delivers a key twice", what, y.ref.size());
            SIM_CHECK(seen == y.ref, seen.size() < y.ref.size() ? "key-lost" : seen.size() > y.ref.size() ? "key-invented" : "wrong-value", "%s: iterating a map delivers %zu keys, the dictionary has %zu", what, seen.size(), y.ref.size());
        }
    }
    for(auto &y : s)
        destroy(y.m);
    check_no_leaks("the maps");
    nontrivial();
}
} // namespace

SIM_SCENARIO(map_big, 1) {
    randomize_heap();
    if(pick(4))
        big_history<int64_t>();
    else
        big_history<P::U8String>();
}
SIM_SCENARIO(map_elem, 6) {
    randomize_heap();
    MapWorld<Elem>().run(0);
}
SIM_SCENARIO(map_int, 3) {
    randomize_heap();
    MapWorld<int64_t>().run(0);
}
#if EPOCH == 2026
SIM_SCENARIO(map_cstring, 2) {
    randomize_heap();
    MapWorld<P::CString>().run(0);
}
#endif
SIM_SCENARIO(map_u8string, 2) {
    randomize_heap();
    MapWorld<P::U8String>().run(0);
}
SIM_SCENARIO(map_elem_faults, 4) {
    randomize_heap();
    MapWorld<Elem>().run(3 + pick(20));
}
SIM_SCENARIO(set_elem, 3) {
    randomize_heap();
    SetWorld<Elem>().run(0);
}
SIM_SCENARIO(set_int, 1) {
    randomize_heap();
    SetWorld<int64_t>().run(0);
}
SIM_SCENARIO(set_u8string, 1) {
    randomize_heap();
    SetWorld<P::U8String>().run(0);
}
SIM_SCENARIO(set_elem_faults, 2) {
    randomize_heap();
    SetWorld<Elem>().run(3 + pick(20));
}
