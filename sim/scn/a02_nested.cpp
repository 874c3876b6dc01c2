// A02: containers of containers, and elements wandering between holders: none is lost, doubled or destroyed twice.
#include "elem.hpp"
#if EPOCH == 2026
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_variant.hpp>
#endif

namespace {
typedef std::vector<int> Leaf; // what an inner object holds, in order
int next_v = 1;

// ---- inner objects -------------------------------------------------------------------------
struct VecI {
    typedef P::Vector<Elem> T;
    static constexpr bool copies = true;
    static const char *name() { return "vector"; }
    static Leaf gen() {
        Leaf l;
        for(int n = pick(6); n > 0; --n)
            l.push_back(next_v++);
        return l;
    }
    static T build(const Leaf &l) {
        T t;
        for(auto v : l)
            t.emplace_back(v);
        return t;
    }
    static void read(const T &t, Leaf &out) {
        for(size_t i = 0; i < t.size(); ++i) {
            int v = t[i].val();
            host([&] { out.push_back(v); });
        }
    }
    static void mutate(T &t, Leaf &l, int v) {
        switch(host([] { return pick(4); })) {
        case 0:
            t.pop_back();
            if(!l.empty()) host([&] { l.pop_back(); });
            break;
        case 1:
            if(l.empty()) break;
            t.push_back(t[0]);
            host([&] { l.push_back(l[0]); });
            break;
        default: t.emplace_back(v); host([&] { l.push_back(v); });
        }
    }
};
struct OptI {
    typedef P::Optional<Elem> T;
    static constexpr bool copies = true;
    static const char *name() { return "optional"; }
    static Leaf gen() { return coin() ? Leaf{next_v++} : Leaf{}; }
    static T build(const Leaf &l) {
        T t;
        if(!l.empty()) t = Elem(l[0]);
        return t;
    }
    static void read(const T &t, Leaf &out) {
        if(!t) return;
        int v = t->val();
        host([&] { out.push_back(v); });
    }
    static void mutate(T &t, Leaf &l, int v) {
        if(host([] { return coin(); })) {
            t = Elem(v);
            host([&] { l = {v}; });
        } else {
            t.reset();
            host([&] { l.clear(); });
        }
    }
};
struct PtrI {
    typedef P::unique_ptr<Elem> T;
    static constexpr bool copies = false;
    static const char *name() { return "owning pointer"; }
    static Leaf gen() { return pick(4) ? Leaf{next_v++} : Leaf{}; }
    static T build(const Leaf &l) { return l.empty() ? T() : T(new Elem(l[0])); }
    static void read(const T &t, Leaf &out) {
        if(!t.get()) return;
        int v = t.get()->val();
        host([&] { out.push_back(v); });
    }
    static void mutate(T &t, Leaf &l, int v) {
        if(host([] { return coin(); })) {
            t.reset(new Elem(v));
            host([&] { l = {v}; });
        } else {
            t = T();
            host([&] { l.clear(); });
        }
    }
};
struct VarI {
    typedef P::Vector<Elem> V;
    typedef P::Variant<int64_t, Elem, V> T;
    static constexpr bool copies = true;
    static const char *name() { return "variant"; }
    static Leaf gen() {
        Leaf l;
        int n = pick(4);
        if(n == 3) n = 2 + pick(4);
        while(n-- > 0)
            l.push_back(next_v++);
        return l;
    }
    static T build(const Leaf &l) {
        if(l.empty()) return T((int64_t)7);
        if(l.size() == 1) return T(Elem(l[0]));
        return T(VecI::build(l));
    }
    static void read(const T &t, Leaf &out) {
        if(auto *e = t.template get_if<Elem>()) {
            int v = e->val();
            host([&] { out.push_back(v); });
        } else if(auto *x = t.template get_if<V>())
            VecI::read(*x, out);
        else if(t.template get<int64_t>() != 7)
            host([&] { out.push_back(-50); });
    }
    static void mutate(T &t, Leaf &l, int v) {
        switch(host([] { return pick(3); })) {
        case 0:
            t.insert(Elem(v));
            host([&] { l = {v}; });
            break;
        case 1:
            t.insert((int64_t)7);
            host([&] { l.clear(); });
            break;
        default:
            if(auto *x = t.template get_if<V>())
                VecI::mutate(*x, l, v);
            else {
                t = T(Elem(v));
                host([&] { l = {v}; });
            }
        }
    }
};
struct ExpI {
    typedef P::Vector<Elem> V;
    typedef P::Expected<V, Elem> T;
    static constexpr bool copies = false;
    static const char *name() { return "expected"; }
    // one element: an error
    static Leaf gen() { return VarI::gen(); }
    static T build(const Leaf &l) {
        if(l.size() == 1) return T(Elem(l[0]));
        return T(VecI::build(l));
    }
    static void read(const T &ct, Leaf &out) {
        T &t = const_cast<T &>(ct); // has no const access to its content
        if(t.has_error()) {
            int v = t.error().val();
            host([&] { out.push_back(v); });
        } else if(t.has_value())
            VecI::read(t.value(), out);
    }
    static void mutate(T &t, Leaf &l, int v) {
        t = T(Elem(v));
        host([&] { l = {v}; });
    }
};

template<typename I> struct Common {
    typedef typename I::T T;
    static std::string show(const Leaf &l) {
        std::string s = "[";
        for(auto v : l)
            s += sim::fmt("%s%d", s.size() > 1 ? " " : "", v);
        return s + "]";
    }
    static void compare(const T &t, const Leaf &want, const char *what) {
        Leaf got;
        sut([&] { I::read(t, got); });
        SIM_CHECK(got == want, "wrong-content", "%s: an inner %s holds %s, should hold %s", what, I::name(), show(got).c_str(), show(want).c_str());
    }
};

// ---- sequences of inner objects --------------------------------------------------------------
template<typename I> struct VecO {
    typedef typename I::T T;
    typedef P::Vector<T> C;
    static constexpr size_t cap = 1000000;
    static constexpr bool seq = true;
    static void push(C &c, T &&t) { c.push_back(P::move(t)); }
    static void push(C &c, const T &t)
        requires(I::copies)
    {
        c.push_back(t);
    }
    static void pop(C &c) { c.pop_back(); }
    static void special(C &c, std::vector<Leaf> &ref) {
        if(ref.empty()) return;
        switch(pick(3)) {
        case 0: {
            log("take the last one out");
            Leaf got;
            sut([&] {
                auto o = c.pop_back();
                if(o) I::read(*o, got);
            });
            SIM_CHECK(got == ref.back(), "wrong-content", "pop_back delivers the wrong one");
            ref.pop_back();
            break;
        }
        case 1:
            log("clear");
            sut([&] { c.clear(); });
            ref.clear();
            break;
        default:
            if constexpr(I::copies) {
                log("copy the whole and look at the copy");
                size_t n = el::count();
                C *k = make<C>(*(const C *)&c);
                SIM_CHECK(k->size() == ref.size(), "wrong-size", "a copy has %zu entries, should have %zu", k->size(), ref.size());
                for(size_t i = 0; i < ref.size(); ++i)
                    Common<I>::compare((*k)[i], ref[i], "copy");
                destroy(k);
                el::expect(n, "after the copy was destroyed");
            }
        }
    }
};
template<typename I> struct FixO {
    typedef typename I::T T;
    typedef P::FixedVector<T, 5> C;
    static constexpr size_t cap = 5;
    static constexpr bool seq = true;
    static void push(C &c, T &&t) { c.push_back(P::move(t)); }
    static void push(C &c, const T &t)
        requires(I::copies)
    {
        c.push_back(t);
    }
    static void pop(C &c) { c.pop_back(); }
    static void special(C &c, std::vector<Leaf> &ref) {
        switch(pick(3)) {
        case 0:
            if(ref.empty()) return;
            log("pop_front");
            sut([&] { c.pop_front(); });
            ref.erase(ref.begin());
            break;
        case 1: {
            if(ref.empty()) return;
            size_t i = pick(ref.size());
            log("delete_at %zu", i);
            sut([&] { c.delete_at(i); });
            ref.erase(ref.begin() + i);
            break;
        }
        default: {
            if(ref.size() >= cap) return;
            size_t i = pick(ref.size() + 1);
            Leaf l = I::gen();
            log("insert %s at %zu", Common<I>::show(l).c_str(), i);
            sut([&] { c.insert(i, I::build(l)); });
            ref.insert(ref.begin() + i, l);
        }
        }
    }
};
template<typename O, typename I> struct SeqWorld {
    typedef typename I::T T;
    typedef typename O::C C;
    struct Slot {
        C *c = nullptr;
        std::vector<Leaf> ref;
    };
    Slot s[2];
    void check(const char *what) {
        size_t n = 0;
        for(auto &x : s) {
            size_t sz = sut([&] { return x.c->size(); });
            SIM_CHECK(sz == x.ref.size(), "wrong-size", "%s: %zu entries, should be %zu", what, sz, x.ref.size());
            for(size_t i = 0; i < sz; ++i) {
                const T &t = sut([&]() -> const T & { return (*x.c)[i]; });
                Common<I>::compare(t, x.ref[i], what);
                n += x.ref[i].size();
            }
        }
        el::expect(n, what);
    }
    void run() {
        for(auto &x : s)
            x.c = make<C>();
        int n = 3 + pick(40);
        for(int q = 0; q < n; ++q) {
            int a = pick(2);
            auto &x = s[a];
            const char *what = "";
            bool full = x.ref.size() >= O::cap;
            switch(pick(10)) {
            case 0:
            case 1: {
                what = "add";
                Leaf l = I::gen();
                log("add %s to %d", Common<I>::show(l).c_str(), a);
                if(full) {
                    refused(what, [&] { O::push(*x.c, I::build(l)); });
                    break;
                }
                sut([&] { O::push(*x.c, I::build(l)); });
                x.ref.push_back(l);
                break;
            }
            case 2:
                if constexpr(I::copies) {
                    what = "add a copy";
                    if(full) break;
                    Leaf l = I::gen();
                    log("add a copy of %s to %d", Common<I>::show(l).c_str(), a);
                    sut([&] {
                        T t = I::build(l);
                        O::push(*x.c, (const T &)t);
                    });
                    x.ref.push_back(l);
                }
                break;
            case 3:
                if constexpr(I::copies) {
                    what = "add an own entry";
                    if(full || x.ref.empty()) break;
                    size_t i = pick(x.ref.size());
                    log("add entry %zu of %d again", i, a);
                    sut([&] { O::push(*x.c, (const T &)(*x.c)[i]); });
                    Leaf l = x.ref[i];
                    x.ref.push_back(l);
                }
                break;
            case 4:
                what = "remove the last";
                if(x.ref.empty()) break;
                log("remove the last of %d", a);
                sut([&] { O::pop(*x.c); });
                x.ref.pop_back();
                break;
            case 5: {
                what = "change an entry";
                if(x.ref.empty()) break;
                size_t i = pick(x.ref.size());
                int v = next_v++;
                log("change entry %zu of %d (%d)", i, a, v);
                sut([&] { I::mutate((*x.c)[i], x.ref[i], v); });
                break;
            }
            case 6: {
                what = "move the whole";
                log("move %d to the other", a);
                if(coin())
                    sut([&] { *s[!a].c = P::move(*x.c); });
                else {
                    destroy(s[!a].c);
                    s[!a].c = make<C>(P::move(*x.c));
                }
                s[!a].ref = x.ref;
                x.ref.clear();
                break;
            }
            case 7:
                what = "move to itself";
                log("move %d to itself", a);
                sut([&] { *x.c = P::move(*x.c); });
                break;
            case 8: {
                what = "swap two entries";
                if(x.ref.size() < 2) break;
                size_t i = pick(x.ref.size()), j = pick(x.ref.size());
                log("exchange entries %zu and %zu of %d", i, j, a);
                sut([&] {
                    T t(P::move((*x.c)[i]));
                    (*x.c)[i] = P::move((*x.c)[j]);
                    (*x.c)[j] = P::move(t);
                });
                std::swap(x.ref[i], x.ref[j]);
                break;
            }
            default:
                what = "special";
                O::special(*x.c, x.ref);
            }
            check(what);
        }
        for(auto &x : s)
            destroy(x.c);
        el::expect(0, "at the end");
        check_no_leaks("the containers");
        nontrivial();
    }
};

// ---- maps to inner objects -------------------------------------------------------------------
template<typename I> struct HashO {
    typedef P::HashMap<int64_t, typename I::T> C;
    static constexpr bool hash = true;
};
template<typename I, size_t N> struct TreeO {
    typedef P::BTreeMap<int64_t, typename I::T, N> C;
    static constexpr bool hash = false;
};
template<typename O, typename I> struct MapWorld {
    typedef typename I::T T;
    typedef typename O::C C;
    struct Slot {
        C *c = nullptr;
        std::map<int64_t, Leaf> ref;
    };
    Slot s[2];
    void check(const char *what, bool all) {
        size_t n = 0;
        for(auto &x : s) {
            for(auto &kv : x.ref)
                n += kv.second.size();
            if constexpr(O::hash) {
                size_t sz = sut([&] { return x.c->size(); });
                SIM_CHECK(sz == x.ref.size(), "wrong-size", "%s: %zu entries, should be %zu", what, sz, x.ref.size());
            }
            if(!all) continue;
            for(auto &kv : x.ref) {
                T *t = sut([&]() -> T * { return x.c->lookup(kv.first); });
                SIM_CHECK(t, "entry-lost", "%s: key %lld is gone", what, (long long)kv.first);
                Common<I>::compare(*t, kv.second, what);
            }
        }
        el::expect(n, what);
    }
    void run() {
        for(auto &x : s)
            x.c = make<C>();
        int keys = 3 + pick(40);
        int n = 3 + pick(50);
        for(int q = 0; q < n; ++q) {
            int a = pick(2);
            auto &x = s[a];
            const char *what = "";
            int64_t k = pick(keys);
            switch(pick(10)) {
            case 0:
            case 1:
            case 2: {
                what = "insert";
                Leaf l = I::gen();
                log("insert %lld -> %s into %d", (long long)k, Common<I>::show(l).c_str(), a);
                sut([&] { x.c->insert(k, I::build(l)); });
                x.ref[k] = l;
                break;
            }
            case 3:
                what = "insert a run";
                for(int m = pick(12); m > 0; --m) {
                    k = pick(keys);
                    Leaf l = I::gen();
                    log("insert %lld -> %s into %d", (long long)k, Common<I>::show(l).c_str(), a);
                    sut([&] { x.c->insert(k, I::build(l)); });
                    x.ref[k] = l;
                }
                break;
            case 4:
                if constexpr(I::copies) {
                    what = "insert an own value";
                    if(x.ref.empty()) break;
                    auto it = x.ref.begin();
                    std::advance(it, pick(x.ref.size()));
                    int64_t from = it->first;
                    log("insert %lld -> the value of %lld into %d", (long long)k, (long long)from, a);
                    sut([&] { x.c->insert(k, *(const T *)x.c->lookup(from)); });
                    Leaf l = it->second;
                    x.ref[k] = l;
                }
                break;
            case 5:
            case 6: {
                what = "remove";
                if(!x.ref.empty() && pick(3)) {
                    auto it = x.ref.begin();
                    std::advance(it, pick(x.ref.size()));
                    k = it->first;
                }
                log("remove %lld from %d", (long long)k, a);
                sut([&] { x.c->remove(k); });
                x.ref.erase(k);
                break;
            }
            case 7: {
                what = "change a value";
                auto it = x.ref.find(k);
                if(it == x.ref.end()) break;
                int v = next_v++;
                log("change the value of %lld in %d (%d)", (long long)k, a, v);
                sut([&] { I::mutate(*x.c->lookup(k), it->second, v); });
                break;
            }
            case 8: {
                what = "move the whole";
                log("move %d to the other", a);
                if(coin())
                    sut([&] { *s[!a].c = P::move(*x.c); });
                else {
                    destroy(s[!a].c);
                    s[!a].c = make<C>(P::move(*x.c));
                }
                s[!a].ref = x.ref;
                x.ref.clear();
                // the object moved from is used again
                break;
            }
            default:
                if constexpr(O::hash) {
                    if(coin()) {
                        what = "index";
                        log("[%lld] of %d", (long long)k, a);
                        Leaf got;
                        sut([&] { I::read((*x.c)[k], got); });
                        Leaf empty;
                        bool had = x.ref.count(k);
                        Leaf want = had ? x.ref[k] : empty;
                        if constexpr(!std::is_same_v<I, VarI>)
                            SIM_CHECK(got == want, "wrong-content", "operator[] gives %s, should give %s", Common<I>::show(got).c_str(), Common<I>::show(want).c_str());
                        if(!had) {
                            // a default variant holds its first alternative
                            x.ref[k] = empty;
                            if constexpr(std::is_same_v<I, VarI>) sut([&] { x.c->lookup(k)->insert((int64_t)7); });
                        }
                    } else {
                        what = "clear";
                        if(!flip(1, 3)) break;
                        log("clear %d", a);
                        sut([&] { x.c->clear(); });
                        x.ref.clear();
                    }
                }
            }
            check(what, pick(4) == 0);
        }
        check("at the end", true);
        for(auto &x : s)
            destroy(x.c);
        el::expect(0, "at the end");
        check_no_leaks("the maps");
        nontrivial();
    }
};
// ---- elements wandering between holders of all kinds -------------------------------------------
struct Wander {
    typedef P::Variant<int64_t, Elem, P::Vector<Elem>> Var;
    typedef P::Expected<Elem, P::CString> Exp;
    P::Vector<Elem> *vec = make<P::Vector<Elem>>();
    P::FixedVector<Elem, 4> *fix = make<P::FixedVector<Elem, 4>>();
    P::Optional<Elem> *opt = make<P::Optional<Elem>>();
    P::HashMap<int64_t, Elem> *map = make<P::HashMap<int64_t, Elem>>();
    P::BTree<Elem, 3> *tree = make<P::BTree<Elem, 3>>();
    Var *var = make<Var>((int64_t)0);
    P::unique_ptr<Elem> *ptr = make<P::unique_ptr<Elem>>();
    P::Stack<Elem> *stack = make<P::Stack<Elem>>();
    std::vector<int> rvec, rfix, rstack;
    std::set<int> rtree;
    std::map<int64_t, int> rmap;
    int ropt = 0, rvar = 0, rptr = 0; // 0: empty
    // Takes an element out of one of the holders; the value, or 0.
    int take(Elem &out) {
        switch(pick(8)) {
        case 0: {
            if(rvec.empty()) return 0;
            int v = rvec.back();
            log("take %d from the vector", v);
            sut([&] {
                auto o = vec->pop_back();
                out = P::move(*o);
            });
            rvec.pop_back();
            return v;
        }
        case 1: {
            if(rfix.empty()) return 0;
            size_t i = pick(rfix.size());
            int v = rfix[i];
            log("take %d from place %zu of the fixed vector", v, i);
            sut([&] {
                out = P::move((*fix)[i]);
                fix->delete_at(i);
            });
            rfix.erase(rfix.begin() + i);
            return v;
        }
        case 2: {
            if(!ropt) return 0;
            int v = ropt;
            log("take %d from the optional", v);
            sut([&] {
                out = P::move(**opt);
                opt->reset();
            });
            ropt = 0;
            return v;
        }
        case 3: {
            if(rmap.empty()) return 0;
            auto it = rmap.begin();
            std::advance(it, pick(rmap.size()));
            int v = it->second;
            log("take %d at key %lld from the map", v, (long long)it->first);
            sut([&] {
                out = P::move(map->at(it->first));
                map->remove(it->first);
            });
            rmap.erase(it);
            return v;
        }
        case 4: {
            if(rtree.empty()) return 0;
            auto it = rtree.begin();
            std::advance(it, pick(rtree.size()));
            int v = *it;
            log("take %d from the tree", v);
            sut([&] {
                Elem key(v);
                out = *tree->lookup(key);
                tree->remove(key);
            });
            rtree.erase(it);
            return v;
        }
        case 5: {
            if(!rvar) return 0;
            int v = rvar;
            log("take %d from the variant", v);
            sut([&] {
                out = P::move(var->get<Elem>());
                *var = Var((int64_t)0);
            });
            rvar = 0;
            return v;
        }
        case 6: {
            if(!rptr) return 0;
            int v = rptr;
            log("take %d from the pointer", v);
            sut([&] {
                P::unique_ptr<Elem> p(P::move(*ptr));
                out = P::move(*p);
            });
            rptr = 0;
            return v;
        }
        default: {
            if(rstack.empty()) return 0;
            int v = rstack.back();
            log("take %d from the stack", v);
            sut([&] {
                out = P::move(stack->top());
                stack->pop();
            });
            rstack.pop_back();
            return v;
        }
        }
    }
    bool give(Elem &e, int v) {
        switch(pick(8)) {
        case 0:
            log("give %d to the vector", v);
            sut([&] { vec->push_back(P::move(e)); });
            rvec.push_back(v);
            return true;
        case 1: {
            if(rfix.size() >= 4) return false;
            size_t i = pick(rfix.size() + 1);
            log("give %d to place %zu of the fixed vector", v, i);
            sut([&] { fix->insert(i, P::move(e)); });
            rfix.insert(rfix.begin() + i, v);
            return true;
        }
        case 2:
            if(ropt) return false;
            log("give %d to the optional", v);
            sut([&] { *opt = P::move(e); });
            ropt = v;
            return true;
        case 3: {
            int64_t k = pick(20);
            if(rmap.count(k)) return false;
            log("give %d to key %lld of the map", v, (long long)k);
            sut([&] { map->insert(k, P::move(e)); });
            rmap[k] = v;
            return true;
        }
        case 4:
            log("give %d to the tree", v);
            sut([&] { tree->insert(P::move(e)); });
            rtree.insert(v);
            return true;
        case 5:
            if(rvar) return false;
            log("give %d to the variant", v);
            sut([&] { var->insert(P::move(e)); });
            rvar = v;
            return true;
        case 6:
            if(rptr) return false;
            log("give %d to the pointer", v);
            sut([&] { ptr->reset(new Elem(P::move(e))); });
            rptr = v;
            return true;
        default:
            log("give %d to the stack", v);
            sut([&] { stack->push(e); });
            rstack.push_back(v);
            return true;
        }
    }
    void census(const char *what, size_t extra) {
        std::multiset<int> got, want(rvec.begin(), rvec.end());
        want.insert(rfix.begin(), rfix.end());
        want.insert(rstack.begin(), rstack.end());
        want.insert(rtree.begin(), rtree.end());
        for(auto &kv : rmap)
            want.insert(kv.second);
        for(int v : {ropt, rvar, rptr})
            if(v) want.insert(v);
        auto put = [&](const Elem &e) {
            int v = e.val();
            host([&] { got.insert(v); });
        };
        sut([&] {
            for(size_t i = 0; i < vec->size(); ++i)
                put((*vec)[i]);
            for(auto &e : *fix)
                put(e);
            for(auto kv : *map)
                put(*kv.value);
            if(*opt) put(**opt);
            if(var->contains<Elem>()) put(var->get<Elem>());
            if(ptr->get()) put(**ptr);
#if EPOCH == 2026
            for(auto it = tree->begin(); it != tree->end(); ++it)
                put(*it);
#else
            for(int v : rtree) {
                Elem key(v);
                auto *e = tree->lookup(key);
                if(e) put(*e);
            }
#endif
        });
        // the stack only shows its top
        for(size_t i = 0; i + 1 < rstack.size(); ++i)
            got.insert(rstack[i]);
        sut([&] {
            if(stack->size()) put(stack->top());
        });
        std::string a, b;
        for(auto v : got)
            a += sim::fmt(" %d", v);
        for(auto v : want)
            b += sim::fmt(" %d", v);
        SIM_CHECK(got == want, "elements-changed", "%s: the holders contain%s, should contain%s", what, a.c_str(), b.c_str());
        el::expect(want.size() + extra, what);
    }
    void run() {
        int n = 5 + pick(60);
        for(int q = 0; q < n; ++q) {
            Elem *hand = make<Elem>();
            int v = pick(3) ? take(*hand) : 0;
            if(!v) {
                v = next_v++;
                sut([&] { *hand = Elem(v); });
                log("new %d", v);
            }
            int in_hand = sut([&] { return hand->val(); });
            SIM_CHECK(in_hand == v, "wrong-content", "the element taken is %d, should be %d", in_hand, v);
            while(!give(*hand, v)) {}
            destroy(hand);
            census("after a move", 0);
        }
        destroy(stack);
        destroy(ptr);
        destroy(var);
        destroy(tree);
        destroy(map);
        destroy(opt);
        destroy(fix);
        destroy(vec);
        el::expect(0, "at the end");
        check_no_leaks("the holders");
        nontrivial();
    }
};
template<typename I> void seqs() {
    randomize_heap();
    next_v = 1;
    if(coin())
        SeqWorld<VecO<I>, I>().run();
    else
        SeqWorld<FixO<I>, I>().run();
}
template<typename I> void maps() {
    randomize_heap();
    next_v = 1;
    // tree nodes are copied when they are split
    if constexpr(I::copies) {
        switch(pick(3)) {
        case 0: MapWorld<TreeO<I, 3>, I>().run(); return;
        case 1: MapWorld<TreeO<I, 7>, I>().run(); return;
        }
    }
    MapWorld<HashO<I>, I>().run();
}
} // namespace

SIM_SCENARIO(nested_seq_vector, 3) { seqs<VecI>(); }
SIM_SCENARIO(nested_seq_optional, 2) { seqs<OptI>(); }
SIM_SCENARIO(nested_seq_pointer, 2) { seqs<PtrI>(); }
SIM_SCENARIO(nested_seq_variant, 3) { seqs<VarI>(); }
SIM_SCENARIO(nested_seq_expected, 2) { seqs<ExpI>(); }
SIM_SCENARIO(nested_map_vector, 3) { maps<VecI>(); }
SIM_SCENARIO(nested_map_optional, 2) { maps<OptI>(); }
SIM_SCENARIO(nested_map_pointer, 2) { maps<PtrI>(); }
SIM_SCENARIO(nested_map_variant, 2) { maps<VarI>(); }
SIM_SCENARIO(wandering, 6) {
    randomize_heap();
    next_v = 1;
    Wander().run();
}
