// M03: vectors, fixed vectors and stacks are exact sequences, whatever the history.
#include "elem.hpp"

namespace {
// An element with a strict alignment.
struct alignas(64) Wide {
    Elem e;
    uint64_t self;
    Wide() noexcept : e(), self(0) { check(); }
    explicit Wide(int v) : e(v), self(v) { check(); }
    Wide(const Wide &o) : e(o.e), self(o.self) { check(); }
    Wide(Wide &&o) noexcept : e((Elem &&)o.e), self(o.self) { check(); }
    Wide &operator=(const Wide &o) {
        e = o.e;
        self = o.self;
        return *this;
    }
    Wide &operator=(Wide &&o) noexcept {
        e = (Elem &&)o.e;
        self = o.self;
        return *this;
    }
    bool operator==(const Wide &o) const { return e == o.e; }
    bool operator!=(const Wide &o) const { return e != o.e; }
    void check() const {
        if((uintptr_t)this % 64) host([&] { fail("element-misaligned", "an element that must be aligned to 64 bytes is created at %p", (void *)this); });
    }
};
template<typename T> struct Tr {
    static constexpr bool elem = true;
    static T make(int v) { return T(v); }
    static int val(const T &e) { return e.val(); }
    static int moved(int) { return -1; }
    static int deflt() { return -1; }
};
template<> struct Tr<Wide> {
    static constexpr bool elem = true;
    static Wide make(int v) { return Wide(v); }
    static int val(const Wide &e) { return e.e.val(); }
    static int moved(int) { return -1; }
    static int deflt() { return -1; }
};
template<> struct Tr<int64_t> {
    static constexpr bool elem = false;
    static int64_t make(int v) { return v; }
    static int val(const int64_t &e) { return (int)e; }
    static int moved(int v) { return v; }
    static int deflt() { return 0; }
};
template<> struct Tr<unsigned char> {
    static constexpr bool elem = false;
    static unsigned char make(int v) { return (unsigned char)v; }
    static int val(const unsigned char &e) { return e; }
    static int moved(int v) { return v; }
    static int deflt() { return 0; }
};
typedef std::vector<int> Ref;
std::string show_ref(const Ref &r) {
    std::string s;
    for(size_t i = 0; i < r.size() && i < 20; ++i)
        s += fmt("%s%d", i ? " " : "", r[i]);
    return s + (r.size() > 20 ? " ..." : "");
}
// Looks at a sequence through every accessor.
template<typename T, typename V> Ref read(V &v) {
    Ref r;
    size_t n = sut([&] { return v.size(); });
    for(size_t i = 0; i < n; ++i)
        r.push_back(sut([&] { return Tr<T>::val(v[i]); }));
    return r;
}
template<typename T, typename V> void look_around(V &, const Ref &, const char *, const char *);
template<typename T, typename V> void compare(V &v, const Ref &ref, const char *what, const char *name) {
    Ref got;
    size_t n;
    bool empty;
    {
        Sut u;
        n = v.size();
        empty = v.is_empty();
        for(T *p = v.begin(); p != v.end(); ++p) {
            int x = Tr<T>::val(*p);
            host([&] {
                got.push_back(x);
                if(got.size() > ref.size() + 100) fail("wrong-sequence", "%s: iterating %s does not end", what, name);
            });
        }
    }
    SIM_CHECK(n == ref.size() && empty == ref.empty(), "wrong-size", "%s: %s has size %zu, should be %zu", what, name, n, ref.size());
    if(got != ref) {
        size_t d = 0;
        while(d < got.size() && d < ref.size() && got[d] == ref[d])
            ++d;
        fail("wrong-sequence", "%s: %s holds [%s], should hold [%s] (first difference at %zu)", what, name, show_ref(got).c_str(), show_ref(ref).c_str(), d);
    }
    look_around<T>(v, ref, what, name);
    if(!ref.empty()) {
        size_t i = pick(ref.size());
        int a, f, b, c;
        {
            Sut u;
            a = Tr<T>::val(v[i]);
            f = Tr<T>::val(v.front());
            b = Tr<T>::val(v.back());
            c = Tr<T>::val(v.data()[i]);
        }
        SIM_CHECK(a == ref[i] && c == ref[i] && f == ref[0] && b == ref.back(), "wrong-sequence", "%s: %s[%zu] is %d, front %d, back %d; should be %d, %d, %d", what, name, i, a, f, b, ref[i], ref[0], ref.back());
    }
}
// The same sequence seen through constant references and spans.
template<typename T, typename V> void look_around(V &v, const Ref &ref, const char *what, const char *name) {
    if(ref.empty() || !flip(1, 3)) return;
    const V &cv = v;
    size_t i = pick(ref.size()), cut = pick(ref.size() + 1);
    int c = ref[i], at = c, un = c, f = ref[0], b = ref.back(), sp = c, csp = c, sub = c;
    ptrdiff_t len = ref.size();
    size_t n = len, sn = ref.size() - cut;
    bool same = true;
    {
        Sut u;
        c = Tr<T>::val(cv[i]);
        f = Tr<T>::val(cv.front());
        b = Tr<T>::val(cv.back());
        if constexpr(requires { cv.at(i); }) at = Tr<T>::val(cv.at(i));
        if constexpr(requires { v.at(i); }) same &= &v.at(i) == &cv[i];
        if constexpr(requires { cv.unsafe_at(i); }) un = Tr<T>::val(cv.unsafe_at(i));
        if constexpr(requires { v.unsafe_at(i); }) same &= &v.unsafe_at(i) == &cv[i];
        if constexpr(requires { cv.cbegin(); }) len = cv.cend() - cv.cbegin();
        same &= len == v.end() - v.begin() && v.begin() == v.data() && &v[i] == v.data() + i && &v.front() == v.data() && &v.back() == v.end() - 1;
        if constexpr(requires { cv.span(); }) {
            auto s1 = v.span();
            const auto s2 = cv.span();
            sp = Tr<T>::val(s1[i]);
            csp = Tr<T>::val(s2[i]);
            same &= s1.size() == s2.size() && s1.begin() == v.data() && s2.begin() == s2.cbegin() && s1.end() == v.end() && s2.cend() == v.end() && &s2.at(i) == &cv[i] && !s1.is_empty() && s1.data() == v.data() && s1.size_bytes() == s1.size() * sizeof(T);
            n = s1.size();
            auto s3 = s1.subspan(cut);
            sn = s3.size();
            if(i >= cut) sub = Tr<T>::val(s3[i - cut]);
        }
    }
    SIM_CHECK(c == ref[i] && at == c && un == c && f == ref[0] && b == ref.back() && (size_t)len == ref.size() && same, "wrong-sequence", "%s: %s[%zu] seen as constant is %d, at() %d, unsafe_at() %d, front %d, back %d, length %td; should be %d, %d, %d%s", what, name, i, c, at, un, f, b, len, ref[i], ref[0], ref.back(), same ? "" : "; references to one element differ");
    SIM_CHECK(n == ref.size() && sn == ref.size() - cut && sp == ref[i] && csp == ref[i] && sub == ref[i], "wrong-sequence", "%s: the spans of %s show %zu and from %zu on %zu elements, at %zu %d, %d, %d instead of %d", what, name, n, cut, sn, i, sp, csp, sub, ref[i]);
    if constexpr(requires { cv.span(); }) {
        int sink = 0;
        size_t k = ref.size() + (coin() ? 0 : pick(3));
        refused("an index outside a span", [&] { auto s1 = v.span(); sink += Tr<T>::val(s1[k]); });
        refused("an index outside a span", [&] { const auto s1 = cv.span(); sink += Tr<T>::val(s1[k]); });
    }
}
template<typename T> struct VecWorld {
    typedef P::Vector<T> V;
    struct Slot {
        V *v = nullptr;
        Ref ref;
    };
    std::vector<Slot> slots;
    int next = 1;
    int fresh() { return sizeof(T) == 1 ? next++ % 250 + 1 : next++; }
    std::string name(size_t i) { return fmt("vector %zu", i); }
    void verify(size_t i, const char *what) {
        auto &s = slots[i];
        if(!s.v) return;
        compare<T>(*s.v, s.ref, what, name(i).c_str());
        if(s.v->capacity() < s.ref.size()) fail("wrong-size", "%s: %s has capacity %zu but size %zu", what, name(i).c_str(), s.v->capacity(), s.ref.size());
        state(s.ref.size() * 131 + s.v->capacity());
    }
    void all(const char *what) {
        size_t n = 0;
        for(auto &s : slots)
            if(s.v) n += s.ref.size();
        if(Tr<T>::elem) el::expect(n, what);
        for(size_t i = 0; i < slots.size(); ++i)
            verify(i, what);
    }
    // After a refused operation the sequence is the old one or, where allowed, a prefix of the new one.
    void settle(size_t i, const Ref &full, const char *what) {
        auto &s = slots[i];
        disarm();
        Ref got = read<T>(*s.v);
        if(got == s.ref) return;
        SIM_CHECK(got == full, "half-done", "after the refused %s %s holds [%s], neither the old [%s] nor the new [%s]", what, name(i).c_str(), show_ref(got).c_str(), show_ref(s.ref).c_str(), show_ref(full).c_str());
        s.ref = got;
    }
    void step(uint32_t fault_den) {
        size_t i = pick(slots.size()), j = pick(slots.size());
        auto &s = slots[i];
        auto &o = slots[j];
        if(!s.v) {
            s.v = make<V>();
            log("new %s", name(i).c_str());
        }
        int v = fresh();
        const char *what = "";
        Ref want = s.ref;
        arm_faults(fault_den);
        switch(pick(26)) {
        case 0:
        case 1:
            what = "append a copy";
            log("push_back(const %d) to %s", v, name(i).c_str());
            want.push_back(v);
            if(attempt(what, [&] {
                   T x = Tr<T>::make(v);
                   s.v->push_back(x);
               }))
                s.ref = want;
            else
                settle(i, want, what);
            break;
        case 2:
        case 3:
            what = "append";
            log("push_back(%d) to %s", v, name(i).c_str());
            want.push_back(v);
            if(attempt(what, [&] { s.v->push_back(Tr<T>::make(v)); }))
                s.ref = want;
            else
                settle(i, want, what);
            break;
        case 4:
        case 5: {
            if(s.ref.empty()) break;
            size_t k = pick(s.ref.size());
            what = "append a copy of its own element";
            log("push_back(own element %zu) to %s (size %zu, capacity %zu)", k, name(i).c_str(), s.ref.size(), s.v->capacity());
            want.push_back(s.ref[k]);
            if(attempt(what, [&] { s.v->push_back((*s.v)[k]); }))
                s.ref = want;
            else
                settle(i, want, what);
            probe("own element appended");
            break;
        }
        case 6: {
            if(s.ref.empty()) break;
            size_t k = pick(s.ref.size());
            what = "append its own element, moved";
            log("push_back(move(own element %zu)) to %s", k, name(i).c_str());
            want.push_back(s.ref[k]);
            want[k] = Tr<T>::moved(want[k]);
            if(attempt(what, [&] { s.v->push_back(P::move((*s.v)[k])); }))
                s.ref = want;
            else
                settle(i, want, what);
            break;
        }
        case 7:
            what = "emplace";
            log("emplace_back(%d) to %s", v, name(i).c_str());
            want.push_back(v);
            if(attempt(what, [&] { s.v->emplace_back(v); }))
                s.ref = want;
            else
                settle(i, want, what);
            break;
        case 8: {
            if(s.ref.empty()) break;
            size_t k = pick(s.ref.size());
            what = "emplace a copy of its own element";
            log("emplace_back(own element %zu) to %s", k, name(i).c_str());
            want.push_back(s.ref[k]);
            if(attempt(what, [&] { s.v->emplace_back((*s.v)[k]); }))
                s.ref = want;
            else
                settle(i, want, what);
            probe("own element emplaced");
            break;
        }
        case 9:
        case 10: {
            // a range of the other vector, or of an array
            what = "append a range";
            if(o.v && i != j) {
                size_t a = pick(o.ref.size() + 1), n = pick(o.ref.size() - a + 1);
                log("append %zu..%zu of %s to %s", a, a + n, name(j).c_str(), name(i).c_str());
                want.insert(want.end(), o.ref.begin() + a, o.ref.begin() + a + n);
                if(attempt(what, [&] { s.v->append(o.v->begin() + a, o.v->begin() + a + n); }))
                    s.ref = want;
                else
                    settle_prefix(i, want, what);
            }
            break;
        }
        case 11: {
            what = "assign a range";
            if(o.v && i != j) {
                size_t a = pick(o.ref.size() + 1), n = pick(o.ref.size() - a + 1);
                log("assign %zu..%zu of %s to %s", a, a + n, name(j).c_str(), name(i).c_str());
                Ref w(o.ref.begin() + a, o.ref.begin() + a + n);
                if(attempt(what, [&] { s.v->assign(o.v->begin() + a, o.v->begin() + a + n); }))
                    s.ref = w;
                else
                    settle_prefix(i, w, what);
            }
            break;
        }
        case 12: {
            // its own range: refused without change, or done right
            if(s.ref.empty()) break;
            what = "append or assign its own range";
            size_t a = pick(s.ref.size()), n = pick(s.ref.size() - a + 1);
            bool as = coin();
            log("%s own %zu..%zu to %s", as ? "assign" : "append", a, a + n, name(i).c_str());
            Ref part(s.ref.begin() + a, s.ref.begin() + a + n);
            if(as)
                want = part;
            else
                want.insert(want.end(), part.begin(), part.end());
            disarm();
            bool threw = false;
            {
                Sut u;
                try {
                    if(as)
                        s.v->assign(s.v->begin() + a, s.v->begin() + a + n);
                    else
                        s.v->append(s.v->begin() + a, s.v->begin() + a + n);
                } catch(...) {
                    threw = true;
                }
            }
            if(threw)
                probe("own range refused");
            else
                s.ref = want;
            break;
        }
        case 13: {
            what = "remove the last";
            log("pop_back of %s", name(i).c_str());
            int got = -2;
            disarm();
            {
                Sut u;
                auto r = s.v->pop_back();
                if(r) got = Tr<T>::val(*r);
            }
            int w = s.ref.empty() ? -2 : s.ref.back();
            SIM_CHECK(got == w, "wrong-value", "pop_back of %s gives %d, should give %d", name(i).c_str(), got, w);
            if(!s.ref.empty()) s.ref.pop_back();
            break;
        }
        case 14:
            if(!flip(1, 3)) break;
            what = "clear";
            log("clear %s", name(i).c_str());
            sut([&] { s.v->clear(); });
            s.ref.clear();
            break;
        case 15: {
            what = "reserve";
            if(flip(1, 6)) {
                // more than can exist: refused, nothing changes
                disarm();
                size_t huge = pick(2) ? (size_t)-1 / sizeof(T) + 1 + pick(40) : (size_t)-1 - pick(20) * 7;
                if(sizeof(T) == 1) huge = (size_t)-1 - 100 - pick(20);
                log("reserve %zu in %s", huge, name(i).c_str());
                refused("reserving more than can exist", [&] { s.v->reserve(huge); });
                probe("absurd reservation refused");
                break;
            }
            size_t n = pick(3) ? pick(60) : pick(400);
            log("reserve %zu in %s", n, name(i).c_str());
            if(attempt(what, [&] { s.v->reserve(n); })) SIM_CHECK(s.v->capacity() >= n, "wrong-size", "after reserve(%zu) the capacity is %zu", n, s.v->capacity());
            break;
        }
        case 16: {
            what = "copy construct";
            if(o.v || i == j) break;
            log("copy construct %s from %s", name(j).c_str(), name(i).c_str());
            const V &src = *s.v;
            try {
                o.v = make<V>(src);
                o.ref = s.ref;
            } catch(...) {
                SIM_CHECK(op_faults(), "unexpected-exception", "copying threw");
            }
            break;
        }
        case 17: {
            what = "range construct";
            if(o.v || i == j) break;
            size_t a = pick(s.ref.size() + 1), n = pick(s.ref.size() - a + 1);
            log("construct %s from %zu..%zu of %s", name(j).c_str(), a, a + n, name(i).c_str());
            try {
                o.v = make<V>(s.v->begin() + a, s.v->begin() + a + n);
                o.ref.assign(s.ref.begin() + a, s.ref.begin() + a + n);
            } catch(...) {
                SIM_CHECK(op_faults(), "unexpected-exception", "copying threw");
            }
            break;
        }
        case 18:
            what = "move construct";
            if(o.v || i == j) break;
            log("move construct %s from %s", name(j).c_str(), name(i).c_str());
            disarm();
            o.v = make<V>(P::move(*s.v));
            o.ref = s.ref;
            s.ref.clear();
            break;
        case 19:
            what = "move assign";
            if(!o.v) break;
            log("move assign %s from %s", name(j).c_str(), name(i).c_str());
            sut([&] { *o.v = P::move(*s.v); });
            if(i != j) {
                o.ref = s.ref;
                s.ref.clear();
            }
            break;
        case 20:
            what = "destroy";
            if(!flip(1, 3)) break;
            log("destroy %s", name(i).c_str());
            destroy(s.v);
            s = Slot{};
            break;
        case 21: {
            what = "bad index";
            disarm();
            size_t k = s.ref.size() + (pick(3) ? pick(4) : (size_t)-1 - s.ref.size() - pick(3));
            log("index %zu of %s", k, name(i).c_str());
            int sink = 0;
            refused(what, [&] { sink += Tr<T>::val((*s.v)[k]); });
            refused(what, [&] { sink += Tr<T>::val(s.v->at(k)); });
            const V &cv = *s.v;
            refused(what, [&] { sink += Tr<T>::val(cv[k]); });
            if(s.ref.empty()) {
                refused("front of nothing", [&] { sink += Tr<T>::val(s.v->front()); });
                refused("back of nothing", [&] { sink += Tr<T>::val(s.v->back()); });
                refused("front of nothing", [&] { sink += Tr<T>::val(cv.front()); });
                refused("back of nothing", [&] { sink += Tr<T>::val(cv.back()); });
            }
            break;
        }
        case 22: {
            what = "compare";
            disarm();
            if(!o.v) break;
            bool eq, ne;
            {
                Sut u;
                eq = *s.v == *o.v;
                ne = *s.v != *o.v;
            }
            SIM_CHECK(eq == (s.ref == o.ref) && ne == !eq, "wrong-answer", "comparing %s and %s gives %d", name(i).c_str(), name(j).c_str(), eq);
            break;
        }
        case 23: {
#if EPOCH == 2026
            what = "append defaults";
            size_t n = pick(30);
            log("append %zu defaults to %s", n, name(i).c_str());
            want.insert(want.end(), n, Tr<T>::deflt());
            if(attempt(what, [&] { s.v->append_with_default(n); }))
                s.ref = want;
            else
                settle(i, want, what);
            {
                disarm();
                const V &cv = *s.v;
                size_t a, b;
                int x = -2;
                {
                    Sut u;
                    a = s.v->span().size();
                    b = cv.span().size();
                    if(a) x = Tr<T>::val(cv.span()[a - 1]);
                }
                SIM_CHECK(a == s.ref.size() && b == a && (a == 0 || x == s.ref.back()), "wrong-sequence", "the span of %s has size %zu, %zu, last %d", name(i).c_str(), a, b, x);
            }
#endif
            break;
        }
        default: {
            what = "replace";
            if(s.ref.empty()) break;
            size_t k = pick(s.ref.size());
            log("[%zu] = %d in %s", k, v, name(i).c_str());
            if(attempt(what, [&] { (*s.v)[k] = Tr<T>::make(v); })) s.ref[k] = v;
        }
        }
        disarm();
        op_begin();
        all(what);
    }
    void settle_prefix(size_t i, const Ref &full, const char *what) {
        // appending a range may stop after a prefix; what is there must be right
        auto &s = slots[i];
        disarm();
        Ref got = read<T>(*s.v);
        bool pre = got.size() <= full.size() && std::equal(got.begin(), got.end(), full.begin());
        SIM_CHECK(pre || got == s.ref, "half-done", "after the refused %s %s holds [%s], the goal was [%s]", what, name(i).c_str(), show_ref(got).c_str(), show_ref(full).c_str());
        s.ref = got;
    }
    void run(uint32_t fault_den) {
        slots.assign(2 + pick(2), Slot{});
        int n = 3 + pick(60);
        if(!Tr<T>::elem && flip(1, 150)) { // more elements than 16 bits count
            n = 1 + pick(12);
            allow_steps(4000000000ull);
            int big = 65520 + pick(40);
            auto &s = slots[0];
            s.v = make<V>();
            log("%s begins with %d elements", name(0).c_str(), big);
            for(int q = 0; q < big; ++q)
                s.ref.push_back(fresh());
            sut([&] {
                for(int q = 0; q < big; ++q)
                    s.v->push_back(Tr<T>::make(s.ref[q]));
            });
            verify(0, "filling");
            probe("more elements than 16 bits count");
        }
        if(flip(1, 40)) { // more than the first blocks of memory hold
            n = 1 + pick(20);
            allow_steps(1000000000ull);
            int big = 1 + pick(1500);
            auto &s = slots[1];
            s.v = make<V>();
            log("%s begins with %d elements", name(1).c_str(), big);
            for(int q = 0; q < big; ++q)
                s.ref.push_back(fresh());
            sut([&] {
                for(int q = 0; q < big; ++q)
                    s.v->push_back(Tr<T>::make(s.ref[q]));
            });
            verify(1, "filling");
        }
        for(int q = 0; q < n; ++q)
            step(fault_den);
        op_begin();
        for(auto &s : slots) {
            destroy(s.v);
            s = Slot{};
        }
        if(Tr<T>::elem) el::expect(0, "at the end");
        check_no_leaks("the vectors");
        nontrivial();
    }
};
template<typename T, size_t N> struct FixWorld {
    typedef P::FixedVector<T, N> V;
    struct Slot {
        V *v = nullptr;
        Ref ref;
    };
    std::vector<Slot> slots;
    int next = 1;
    int fresh() { return sizeof(T) == 1 ? next++ % 250 + 1 : next++; }
    std::string name(size_t i) { return fmt("fixed vector %zu", i); }
    void all(const char *what) {
        size_t n = 0;
        for(auto &s : slots)
            if(s.v) n += s.ref.size();
        if(Tr<T>::elem) el::expect(n, what);
        for(size_t i = 0; i < slots.size(); ++i)
            if(slots[i].v) {
                compare<T>(*slots[i].v, slots[i].ref, what, name(i).c_str());
                bool full = sut([&] { return slots[i].v->is_full(); });
                SIM_CHECK(full == (slots[i].ref.size() == N), "wrong-size", "%s: is_full is %d at size %zu of %zu", what, full, slots[i].ref.size(), N);
            }
    }
    // Appends if there is room, otherwise it must be refused without change.
    template<typename F> void add(size_t i, int v, const char *what, F &&f) {
        auto &s = slots[i];
        if(s.ref.size() >= N) {
            disarm();
            refused(what, f);
            probe("full");
        } else if(attempt(what, f))
            s.ref.push_back(v);
    }
    void step(uint32_t fault_den) {
        size_t i = pick(slots.size()), j = pick(slots.size());
        auto &s = slots[i];
        auto &o = slots[j];
        if(!s.v) {
            s.v = make<V>();
            log("new %s", name(i).c_str());
        }
        int v = fresh();
        const char *what = "";
        arm_faults(fault_den);
        switch(pick(20)) {
        case 0:
        case 1:
            log("push_back(const %d) to %s", v, name(i).c_str());
            add(i, v, what = "append a copy", [&] {
                T x = Tr<T>::make(v);
                s.v->push_back(x);
            });
            break;
        case 2:
        case 3: log("push_back(%d) to %s", v, name(i).c_str()); add(i, v, what = "append", [&] { s.v->push_back(Tr<T>::make(v)); }); break;
        case 4: {
            log("try_push_back(%d) to %s", v, name(i).c_str());
            what = "try to append";
            bool done = false, cp = coin(), intact = true;
            if(!attempt(what, [&] {
                   T x = Tr<T>::make(v);
                   done = cp ? s.v->try_push_back((const T &)x) : s.v->try_push_back(P::move(x));
                   if(!done) intact = Tr<T>::val(x) == v;
               }))
                break;
            SIM_CHECK(done == (s.ref.size() < N), "wrong-answer", "try_push_back at size %zu of %zu says %d", s.ref.size(), N, done);
            SIM_CHECK(intact, "refused-but-changed", "a refused try_push_back took the element");
            if(done) s.ref.push_back(v);
            break;
        }
        case 5: {
            if(s.ref.empty()) break;
            size_t k = pick(s.ref.size());
            log("push_back(own %zu) to %s", k, name(i).c_str());
            add(i, s.ref[k], what = "append its own element", [&] { s.v->push_back((*s.v)[k]); });
            break;
        }
        case 6:
        case 7: {
            size_t k = pick(s.ref.size() + 2);
            log("insert %d at %zu of %s", v, k, name(i).c_str());
            what = "insert";
            auto f = [&] { s.v->insert(k, Tr<T>::make(v)); };
            if(s.ref.size() >= N || k > s.ref.size()) {
                disarm();
                refused(what, f);
            } else if(attempt(what, f))
                s.ref.insert(s.ref.begin() + k, v);
            break;
        }
        case 8:
        case 9: {
            size_t k = pick(s.ref.size() + 1);
            log("delete_at %zu of %s", k, name(i).c_str());
            what = "delete";
            disarm();
            auto f = [&] { s.v->delete_at(k); };
            if(k >= s.ref.size())
                refused(what, f);
            else if(attempt(what, f))
                s.ref.erase(s.ref.begin() + k);
            break;
        }
        case 10:
            what = "remove the last";
            log("pop_back of %s", name(i).c_str());
            sut([&] { s.v->pop_back(); });
            if(!s.ref.empty()) s.ref.pop_back();
            break;
        case 11:
            what = "remove the first";
            log("pop_front of %s", name(i).c_str());
            sut([&] { s.v->pop_front(); });
            if(!s.ref.empty()) s.ref.erase(s.ref.begin());
            break;
        case 12:
        case 13: {
            if(!o.v) break;
            what = "move append";
            disarm();
            log("move_append %s to %s", name(j).c_str(), name(i).c_str());
            auto f = [&] { s.v->move_append(*o.v); };
            if(i == j || s.ref.size() + o.ref.size() > N) {
                refused(what, f);
                break;
            }
            attempt(what, f);
            s.ref.insert(s.ref.end(), o.ref.begin(), o.ref.end());
            // what is left behind is empty or holds elements without content
            if(sut([&] { return o.v->size(); }) == 0)
                o.ref.clear();
            else
                for(auto &x : o.ref)
                    x = Tr<T>::moved(x);
            break;
        }
        case 14:
            what = "move construct";
            if(o.v || i == j) break;
            disarm();
            log("move construct %s from %s", name(j).c_str(), name(i).c_str());
            o.v = make<V>(P::move(*s.v));
            o.ref = s.ref;
            s.ref.clear();
            break;
        case 15:
            what = "move assign";
            if(!o.v) break;
            log("move assign %s from %s", name(j).c_str(), name(i).c_str());
            sut([&] { *o.v = P::move(*s.v); });
            if(i != j) {
                o.ref = s.ref;
                s.ref.clear();
            }
            break;
        case 16: {
            what = "bad index";
            disarm();
            size_t k = s.ref.size() + pick(N + 2);
            log("index %zu of %s", k, name(i).c_str());
            int sink = 0;
            const V &cv = *s.v;
            refused(what, [&] { sink += Tr<T>::val((*s.v)[k]); });
            refused(what, [&] { sink += Tr<T>::val(cv[k]); });
            if(s.ref.empty()) {
                refused("front of nothing", [&] { sink += Tr<T>::val(s.v->front()); });
                refused("back of nothing", [&] { sink += Tr<T>::val(cv.back()); });
            }
            break;
        }
        case 17: {
#if EPOCH == 2026
            what = "try to emplace";
            log("try_emplace_back(%d) to %s", v, name(i).c_str());
            bool done = false;
            if(!attempt(what, [&] { done = s.v->try_emplace_back(v); })) break;
            SIM_CHECK(done == (s.ref.size() < N), "wrong-answer", "try_emplace_back at size %zu of %zu says %d", s.ref.size(), N, done);
            if(done) s.ref.push_back(v);
            add(i, v, "emplace", [&] { s.v->emplace_back(v); });
#endif
            break;
        }
        default:
            what = "destroy";
            if(!flip(1, 3)) break;
            log("destroy %s", name(i).c_str());
            destroy(s.v);
            s = Slot{};
        }
        disarm();
        op_begin();
        all(what);
    }
    void run(uint32_t fault_den) {
        slots.assign(2, Slot{});
        int n = 3 + pick(50);
        if(N > 100) { // nearly full, around the numbers a counter of 8 or 16 bits ends at
            allow_steps(4000000000ull);
            size_t at[] = {N, N - 1, N / 2, 256, 255, 254, 65536, 65535};
            size_t big = at[pick(8)];
            if(big > N) big = N - pick(4);
            auto &s = slots[0];
            s.v = make<V>();
            log("%s begins with %zu elements", name(0).c_str(), big);
            for(size_t q = 0; q < big; ++q)
                s.ref.push_back(fresh());
            sut([&] {
                for(size_t q = 0; q < big; ++q)
                    s.v->push_back(Tr<T>::make(s.ref[q]));
            });
            all("filling");
            if(big > 255) probe("more elements than 8 bits count");
            if(big > 65535) probe("more elements than 16 bits count");
            if(N > 10000) n = 1 + pick(10);
            if(flip(1, 12)) { // the last place changes many times
                int turns = 65536 + pick(1000);
                bool pop = big == N || coin();
                if(pop && big == 0) turns = 0;
                int last = 0;
                for(int q = 0; q < turns; ++q) {
                    last = (int)(q & 0x3f);
                    sut([&] {
                        if(pop) s.v->pop_back();
                        s.v->push_back(Tr<T>::make(last));
                        if(!pop) s.v->pop_back();
                    });
                }
                if(pop && turns) s.ref.back() = last;
                all("many changes of the last place");
            }
        }
        for(int q = 0; q < n; ++q)
            step(fault_den);
        op_begin();
        for(auto &s : slots)
            destroy(s.v);
        if(Tr<T>::elem) el::expect(0, "at the end");
        check_no_leaks("the fixed vectors");
        nontrivial();
    }
};
void stack_history(uint32_t fault_den) {
    typedef P::Stack<Elem> S;
    S *st[2] = {make<S>(), make<S>()};
    Ref ref[2];
    int n = 3 + pick(60), next = 1;
    if(flip(1, 60)) { // high, and up and down many times
        allow_steps(1000000000ull);
        int high = flip(1, 30) ? 65536 + pick(300) : 100 + pick(900), turns = flip(1, 10) ? 66000 : pick(300);
        log("stack 0 is %d high, the top changes %d times", high, turns);
        sut([&] {
            for(int k = 0; k < high; ++k)
                st[0]->push(Elem(k));
            for(int k = 0; k < turns; ++k) {
                st[0]->pop();
                st[0]->push(Elem(k));
            }
        });
        for(int k = 0; k < high; ++k)
            ref[0].push_back(k);
        if(turns) ref[0].back() = turns - 1;
        probe(high > 65535 ? "a stack higher than 16 bits count" : "a high stack");
        op_begin();
    }
    for(int q = 0; q < n; ++q) {
        int i = pick(2), v = next++;
        arm_faults(fault_den);
        switch(pick(9)) {
        case 0:
        case 1:
        case 2:
            log("push %d on stack %d", v, i);
            if(attempt("push", [&] {
                   Elem e(v);
                   st[i]->push(e);
               }))
                ref[i].push_back(v);
            break;
        case 3:
            if(ref[i].empty()) break;
            log("push the top of stack %d again", i);
            if(attempt("push", [&] { st[i]->push(st[i]->top()); })) ref[i].push_back(ref[i].back());
            break;
        case 4:
        case 5:
            log("pop stack %d", i);
            disarm();
            if(attempt("pop", [&] { st[i]->pop(); }) && !ref[i].empty()) ref[i].pop_back();
            break;
        case 6:
            if(!flip(1, 4)) break;
            sut([&] { st[i]->clear(); });
            ref[i].clear();
            break;
        case 7: {
            disarm();
            if(!flip(1, 3)) break;
            log("move stack %d to the other", i);
            if(coin()) {
                sut([&] { *st[!i] = P::move(*st[i]); });
            } else {
                destroy(st[!i]);
                st[!i] = make<S>(P::move(*st[i]));
            }
            ref[!i] = ref[i];
            ref[i].clear();
            break;
        }
        default: break;
        }
        disarm();
        op_begin();
        el::expect(ref[0].size() + ref[1].size(), "stacks");
        for(int k = 0; k < 2; ++k) {
            SIM_CHECK(st[k]->size() == ref[k].size() && st[k]->is_empty() == ref[k].empty(), "wrong-size", "stack %d has size %zu, should be %zu", k, st[k]->size(), ref[k].size());
            if(ref[k].empty())
                refused("top of an empty stack", [&] { st[k]->top(); });
            else {
                int t = sut([&] { return st[k]->top().val(); });
                SIM_CHECK(t == ref[k].back(), "wrong-value", "the top of stack %d is %d, should be %d", k, t, ref[k].back());
            }
        }
    }
    for(int k = 0; k < 2; ++k) {
        while(!ref[k].empty()) {
            int t = sut([&] {
                int x = st[k]->top().val();
                st[k]->pop();
                return x;
            });
            SIM_CHECK(t == ref[k].back(), "wrong-value", "popping stack %d gives %d, should be %d", k, t, ref[k].back());
            ref[k].pop_back();
        }
        destroy(st[k]);
    }
    el::expect(0, "at the end");
    check_no_leaks("the stacks");
    nontrivial();
}
template<typename T> void fixed(uint32_t den) {
    switch(pick(4)) {
    case 0: FixWorld<T, 1>().run(den); break;
    case 1: FixWorld<T, 3>().run(den); break;
    case 2: FixWorld<T, 4>().run(den); break;
    default: FixWorld<T, 9>().run(den);
    }
}
} // namespace

SIM_SCENARIO(vector_elem, 6) {
    randomize_heap();
    VecWorld<Elem>().run(0);
}
SIM_SCENARIO(vector_wide, 2) {
    randomize_heap();
    VecWorld<Wide>().run(0);
}
SIM_SCENARIO(vector_int, 2) {
    randomize_heap();
    VecWorld<int64_t>().run(0);
}
SIM_SCENARIO(vector_char, 2) {
    randomize_heap();
    VecWorld<unsigned char>().run(0);
}
SIM_SCENARIO(vector_elem_faults, 4) {
    randomize_heap();
    VecWorld<Elem>().run(3 + pick(20));
}
SIM_SCENARIO(fixed_elem, 5) {
    randomize_heap();
    fixed<Elem>(0);
}
SIM_SCENARIO(fixed_wide, 1) {
    randomize_heap();
    FixWorld<Wide, 5>().run(0);
}
SIM_SCENARIO(fixed_big, 1) {
    randomize_heap();
    switch(pick(24)) {
    case 0: FixWorld<int64_t, 65540>().run(0); break;
    case 1: FixWorld<unsigned char, 70001>().run(0); break;
    case 2:
    case 3:
    case 4:
    case 5: FixWorld<Elem, 300>().run(0); break;
    case 6:
    case 7: FixWorld<unsigned char, 255>().run(0); break;
    case 8:
    case 9: FixWorld<Wide, 256>().run(0); break;
    default: FixWorld<int64_t, 257>().run(0);
    }
}
SIM_SCENARIO(fixed_elem_faults, 2) {
    randomize_heap();
    fixed<Elem>(3 + pick(20));
}
SIM_SCENARIO(stack_elem, 2) {
    randomize_heap();
    stack_history(0);
}
SIM_SCENARIO(stack_elem_faults, 1) {
    randomize_heap();
    stack_history(3 + pick(20));
}
