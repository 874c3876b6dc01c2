// A02: whatever the alignment of an element type, its owner puts it where the type may live.
#include "elem.hpp"
#if EPOCH == 2026
#include <pystd2026_btree.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_variant.hpp>
#endif

namespace {
// An element with an alignment of its own, otherwise an element like any other.
template<size_t A> struct alignas(A) Al {
    Elem e;
    char tail; // makes the size differ from what is stored
    Al() noexcept { look(); }
    explicit Al(int v) : e(v) { look(); }
    Al(const Al &o) : e((o.look(), o.e)) { look(); }
    Al(Al &&o) noexcept : e((o.look(), (Elem &&)o.e)) { look(); }
    Al &operator=(const Al &o) {
        look(), o.look();
        e = o.e;
        return *this;
    }
    Al &operator=(Al &&o) noexcept {
        look(), o.look();
        e = (Elem &&)o.e;
        return *this;
    }
    ~Al() { look(); }
    void look() const {
        volatile uintptr_t a = (uintptr_t)this; // the compiler believes it knows
        if(a % A) host([&] { fail("element-misaligned", "an element that needs an alignment of %zu is at %p", A, (const void *)this); });
    }
    int val() const {
        look();
        return e.val();
    }
    bool operator==(const Al &o) const { return val() == o.val(); }
    bool operator<(const Al &o) const { return val() < o.val(); }
    int operator<=>(const Al &o) const { return e <=> o.e; }
    template<typename H> void feed_hash(H &h) const noexcept { e.feed_hash(h); }
};
} // namespace
#if EPOCH == 2025
namespace pystd2025 {
template<typename Hasher, size_t A> struct HashFeeder<Hasher, Al<A>> {
    void operator()(Hasher &h, const Al<A> &e) noexcept { e.feed_hash(h); }
};
} // namespace pystd2025
#endif
namespace {
typedef std::vector<int> Ref;
Ref gen(size_t max) {
    Ref r;
    int v = 0;
    for(int n = pick((uint32_t)max + 1); n > 0; --n)
        r.push_back(v += 1 + pick(4));
    for(size_t i = r.size(); i > 1; --i)
        std::swap(r[i - 1], r[pick((uint32_t)i)]);
    return r;
}
void same(const Ref &got, const Ref &want, const char *what) {
    SIM_CHECK(got == want, "wrong-content", "%s of aligned elements delivers %zu elements, should be %zu, or others", what, got.size(), want.size());
}
template<typename V> void seq(const V &v, const Ref &want, const char *what) {
    Ref got;
    {
        Sut u;
        for(size_t i = 0; i < v.size(); ++i) {
            int x = v[i].val();
            host([&] { got.push_back(x); });
        }
    }
    same(got, want, what);
}
template<typename T> void vectors() {
    typedef P::Vector<T> V;
    Ref r = gen(40);
    V *v = make<V>();
    {
        Sut u;
        for(int x : r)
            coin() ? v->push_back(T(x)) : (void)v->emplace_back(x);
    }
    seq(*v, r, "a vector");
    V *c = make<V>(*v);
    seq(*c, r, "a copied vector");
    if(coin()) sut([&] { c->reserve(100); });
    V *m = make<V>(P::move(*v));
    seq(*m, r, "a moved vector");
    {
        Sut u;
#if EPOCH == 2026
        if(coin())
            P::mergesort(m->begin(), m->end());
        else
#endif
            P::insertion_sort(m->begin(), m->end());
    }
    std::sort(r.begin(), r.end());
    seq(*m, r, "a sorted vector");
    destroy(m), destroy(c), destroy(v);
}
template<typename T> void fixed() {
    typedef P::FixedVector<T, 7> V;
    Ref r = gen(7);
    V *v = make<V>();
    {
        Sut u;
        for(int x : r)
            v->push_back(T(x));
    }
    seq(*v, r, "a fixed vector");
    V *m = make<V>(P::move(*v));
    seq(*m, r, "a moved fixed vector");
    destroy(m), destroy(v);
}
template<typename T> void maps() {
    typedef P::HashMap<T, T> M;
    typedef P::HashSet<T> S;
    Ref r = gen(flip(1, 4) ? 200 : 30);
    M *m = make<M>();
    S *s = make<S>();
    {
        Sut u;
        for(int x : r) {
            m->insert(T(x), T(x + 1));
            s->insert(T(x));
        }
    }
    for(size_t i = 0; i < r.size() / 3; ++i) {
        int gone = r.back();
        r.pop_back();
        Sut u;
        m->remove(T(gone));
        s->remove(T(gone));
    }
    M *n = make<M>(P::move(*m));
    std::set<int> keys, in;
    {
        Sut u;
        for(auto kv : *n) {
            int k = kv.key->val(), v = kv.value->val();
            host([&] {
                SIM_CHECK(v == k + 1, "wrong-content", "the value of %d is %d", k, v);
                keys.insert(k);
            });
        }
        for(auto &k : *s) {
            int v = k.val();
            host([&] { in.insert(v); });
        }
        for(int x : r) {
            auto *v = n->lookup(T(x));
            int is = v ? v->val() : -2;
            host([&] { SIM_CHECK(is == x + 1, "wrong-content", "looking up %d gives %d", x, is); });
        }
    }
    std::set<int> want(r.begin(), r.end());
    SIM_CHECK(keys == want && in == want, "wrong-content", "a hash table of aligned elements holds %zu and %zu keys, should be %zu", keys.size(), in.size(), want.size());
    destroy(n), destroy(m), destroy(s);
}
#if EPOCH == 2026
template<typename T> void trees() {
    typedef P::BTreeMap<T, T, 5> M;
    typedef P::BTree<T, 5> S;
    Ref r = gen(flip(1, 4) ? 200 : 30);
    M *m = make<M>();
    S *s = make<S>();
    {
        Sut u;
        for(int x : r) {
            m->insert(T(x), T(x + 1));
            s->insert(T(x));
        }
    }
    for(size_t i = 0; i < r.size() / 3; ++i) {
        int gone = r.back();
        r.pop_back();
        Sut u;
        m->remove(T(gone));
        s->remove(T(gone));
    }
    {
        Sut u;
        for(int x : r) {
            auto *v = m->lookup(T(x));
            auto *w = s->lookup(T(x));
            int a = v ? v->val() : -2, b = w ? w->val() : -2;
            host([&] { SIM_CHECK(a == x + 1 && b == x, "wrong-content", "looking up %d gives %d and %d", x, a, b); });
        }
    }
    destroy(m), destroy(s);
}
#endif
template<typename T> void holders() {
    int v = 1 + pick(1000);
    typedef P::Optional<T> O;
    typedef P::Expected<T, P::PyException *> X;
    typedef P::Expected<char, T> Y;
    typedef P::Variant<char, T, Elem> Va;
    struct Place { // at any place the holder's type allows
        char c[8];
        O o;
        char d;
        Va va;
        char f;
        Y y;
        char g;
    };
    auto *p = make<Place>();
    {
        Sut u;
        p->o = T(v);
        O o2(p->o), o3(P::move(p->o));
        int a = o2->val(), b = o3->val();
        p->va = Va(T(v));
        Va w(P::move(p->va));
        int c = w.template get_if<T>() ? w.template get_if<T>()->val() : -2;
        X x(T{v});
        X x2(P::move(x));
        int d = x2.has_value() ? x2.value().val() : -2;
        p->y = Y(T{v});
        Y y2(P::move(p->y));
        p->y = P::move(y2);
        int g = p->y.has_error() ? p->y.error().val() : -2;
        auto up = P::unique_ptr<T>(new T(v));
        int e = up->val();
        P::unique_arr<T> ua(1 + v % 5);
        int f = ua[0].val();
        host([&] { SIM_CHECK(a == v && b == v && c == v && d == v && g == v && e == v && f == -1, "wrong-content", "holders of %d give %d %d %d %d %d %d", v, a, b, c, d, e, f); });
    }
    destroy(p);
}
template<typename T> void one() {
    switch(pick(5)) {
    case 0: vectors<T>(); break;
    case 1: fixed<T>(); break;
    case 2: maps<T>(); break;
    case 3:
#if EPOCH == 2026
        trees<T>();
        break;
#endif
    default: holders<T>();
    }
}
} // namespace

SIM_SCENARIO(aligned_owners, 2) {
    randomize_heap();
    el::hash_mod = pick(3) ? 0 : 1 + pick(5);
    for(int n = 1 + pick(4); n > 0; --n) {
        switch(pick(5)) {
        case 0: one<Al<16>>(); break;
        case 1: one<Al<32>>(); break;
        case 2: one<Al<64>>(); break;
        case 3: one<Al<256>>(); break;
        default: one<Al<8>>();
        }
        el::expect(0, "after everything was destroyed");
    }
    check_no_leaks("the owners");
    nontrivial();
}
