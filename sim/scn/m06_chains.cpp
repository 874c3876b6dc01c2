// M06: holders whose content owns the thing they are given next (lists, trees), and variants with every number of alternatives.
#include "elem.hpp"
#if EPOCH == 2026
#include <pystd2026_variant.hpp>
#endif

namespace {
template<typename A> A &&mv(A &a) { return static_cast<A &&>(a); }

// A node owns the rest of the chain through a holder of the given kind.
template<typename K> struct Cell;
template<typename K> Cell<K> *copy_cell(const Cell<K> *c);
template<typename K> void drop_cell(Cell<K> *c);
template<typename K> struct Node {
    Elem e;
    Cell<K> *rest = nullptr;
    Node() noexcept {}
    Node(const Node &o) : e(o.e), rest(copy_cell<K>(o.rest)) {}
    Node(Node &&o) noexcept : e(mv(o.e)), rest(o.rest) { o.rest = nullptr; }
    Node &operator=(const Node &o) {
        Node t(o);
        return *this = mv(t);
    }
    Node &operator=(Node &&o) noexcept {
        if(this == &o) return *this;
        Node t(mv(o));
        e = mv(t.e);
        auto *r = rest;
        rest = t.rest;
        t.rest = r;
        return *this;
    }
    ~Node() { drop_cell<K>(rest); }
    bool operator==(const Node &o) const { return e == o.e; }
};
struct Tag { // the other thing an expected or variant can hold
    Elem e;
    Tag() noexcept {}
    Tag(const Tag &) = default;
    Tag(Tag &&o) noexcept : e(mv(o.e)) {}
    Tag &operator=(const Tag &) = default;
    Tag &operator=(Tag &&o) noexcept {
        e = mv(o.e);
        return *this;
    }
    bool operator==(const Tag &o) const { return e == o.e; }
};
struct OptKind {
    typedef P::Optional<Node<OptKind>> H;
    static constexpr const char *name = "optional";
    static constexpr bool copies = true;
    static Node<OptKind> *get(H &h) { return h ? &h.value() : nullptr; }
    static void set(H &h, Node<OptKind> &&n) { h = mv(n); }
    static void none(H &h) { h.reset(); }
    static constexpr bool tagged = false;
    static void tag(H &, int) {}
    static int tag_of(H &) { return -2; }
};
struct ExpKind {
    typedef P::Expected<Node<ExpKind>, Tag> H;
    static constexpr const char *name = "expected";
    static constexpr bool copies = false;
    static Node<ExpKind> *get(H &h) { return h ? &h.value() : nullptr; }
    static void set(H &h, Node<ExpKind> &&n) {
        H t(mv(n));
        h = mv(t);
    }
    static void none(H &h) {
        H t;
        h = mv(t);
    }
    static constexpr bool tagged = true;
    static void tag(H &h, int v) {
        Tag g;
        g.e = Elem(v);
        H t(mv(g));
        h = mv(t);
    }
    static int tag_of(H &h) { return h.has_error() ? h.error().e.val() : -2; }
};
struct VarKind {
    typedef P::Variant<int64_t, Node<VarKind>, Tag> H;
    static constexpr const char *name = "variant";
    static constexpr bool copies = true;
    static Node<VarKind> *get(H &h) { return h.template get_if<Node<VarKind>>(); }
    static void set(H &h, Node<VarKind> &&n) { h.insert(mv(n)); }
    static void none(H &h) { h.insert((int64_t)0); }
    static constexpr bool tagged = true;
    static void tag(H &h, int v) {
        Tag g;
        g.e = Elem(v);
        h.insert(mv(g));
    }
    static int tag_of(H &h) {
        auto *t = h.template get_if<Tag>();
        return t ? t->e.val() : -2;
    }
};
struct VecKind {
    typedef P::Vector<Node<VecKind>> H;
    static constexpr const char *name = "vector";
    static constexpr bool copies = false;
    static Node<VecKind> *get(H &h) { return h.is_empty() ? nullptr : &h.back(); }
    static void set(H &h, Node<VecKind> &&n) {
        h.clear();
        h.push_back(mv(n));
    }
    static void none(H &h) { h.clear(); }
    static constexpr bool tagged = false;
    static void tag(H &, int) {}
    static int tag_of(H &) { return -2; }
};
struct PtrKind { // the holder is the owning pointer, the node lives behind it
    typedef P::unique_ptr<Node<PtrKind>> H;
    static constexpr const char *name = "owning pointer";
    static constexpr bool copies = false;
    static Node<PtrKind> *get(H &h) { return h.get(); }
    static void set(H &h, Node<PtrKind> &&n) { h = H(new Node<PtrKind>(mv(n))); }
    static void none(H &h) { h.reset(nullptr); }
    static constexpr bool tagged = false;
    static void tag(H &, int) {}
    static int tag_of(H &) { return -2; }
};
struct ArrKind {
    typedef P::unique_arr<Node<ArrKind>> H;
    static constexpr const char *name = "owning array";
    static constexpr bool copies = false;
    static Node<ArrKind> *get(H &h) { return h.get() ? &h[0] : nullptr; }
    static void set(H &h, Node<ArrKind> &&n) {
        H t(1);
        t[0] = mv(n);
        h = mv(t);
    }
    static void none(H &h) { h = H(); }
    static constexpr bool tagged = false;
    static void tag(H &, int) {}
    static int tag_of(H &) { return -2; }
};
template<typename K> struct Cell {
    typename K::H h;
};
template<typename K> Cell<K> *copy_cell(const Cell<K> *c) {
    if constexpr(K::copies) return c ? new Cell<K>{typename K::H((const typename K::H &)c->h)} : nullptr;
    return nullptr;
}
template<typename K> void drop_cell(Cell<K> *c) { delete c; }

template<typename K> struct Chains {
    typedef typename K::H H;
    typedef Node<K> N;
    struct Ref {
        std::vector<int> v;
        int tag = -2; // what stands at the end of the chain
    };
    H *h[2];
    Ref ref[2];
    int next_v = 1;
    H *at(H *x, size_t k) {
        while(k--)
            x = &K::get(*x)->rest->h;
        return x;
    }
    void check(const char *what) {
        size_t n = 0;
        for(int i = 0; i < 2; ++i) {
            std::vector<int> got;
            int tag;
            {
                Sut u;
                H *x = h[i];
                while(N *m = K::get(*x)) {
                    int v = m->e.val();
                    bool more = m->rest != nullptr;
                    host([&] { got.push_back(v); });
                    if(!more || got.size() > 200) break;
                    x = &m->rest->h;
                }
                tag = K::tag_of(*x);
            }
            SIM_CHECK(got == ref[i].v, "wrong-value", "after %s chain %d of %ss has %zu elements (%d first), should have %zu (%d first)", what, i, K::name, got.size(), got.empty() ? -9 : got[0], ref[i].v.size(),
                      ref[i].v.empty() ? -9 : ref[i].v[0]);
            SIM_CHECK(tag == ref[i].tag, "wrong-state", "after %s chain %d of %ss ends in %d, should end in %d", what, i, K::name, tag, ref[i].tag);
            n += got.size() + (tag != -2);
        }
        el::expect(n, what);
    }
    void push(int i, int v) {
        sut([&] {
            auto *c = new Cell<K>;
            c->h = mv(*h[i]);
            N n;
            n.e = Elem(v);
            n.rest = c;
            K::set(*h[i], mv(n));
        });
        ref[i].v.insert(ref[i].v.begin(), v);
    }
    void run() {
        for(int i = 0; i < 2; ++i)
            h[i] = sut([] { return new H; });
        int n = 3 + pick(40);
        for(int q = 0; q < n; ++q) {
            int i = pick(2);
            size_t len = ref[i].v.size();
            const char *what = "nothing";
            switch(pick(10)) {
            case 0:
            case 1:
            case 2: {
                what = "putting one in front";
                int k = 1 + pick(4);
                while(k--)
                    push(i, next_v++);
                break;
            }
            case 3:
            case 4:
                what = "moving the rest into the front";
                if(!len) break;
                sut([&] { *h[i] = mv(K::get(*h[i])->rest->h); });
                ref[i].v.erase(ref[i].v.begin());
                probe("a holder was given what its content owned");
                break;
            case 5: {
                what = "moving what is further behind";
                if(len < 2) break;
                size_t a = pick(len), b = a + 1 + pick(len - a);
                sut([&] {
                    H *x = at(h[i], a), *y = at(h[i], b);
                    *x = mv(*y);
                });
                ref[i].v.erase(ref[i].v.begin() + a, ref[i].v.begin() + b);
                break;
            }
            case 6:
                what = "copying the rest into the front";
                if constexpr(K::copies) {
                    if(!len) break;
                    size_t b = 1 + pick(len);
                    sut([&] {
                        const H &y = *at(h[i], b);
                        *h[i] = y;
                    });
                    ref[i].v.erase(ref[i].v.begin(), ref[i].v.begin() + b);
                    probe("a holder was given a copy of what its content owned");
                }
                break;
            case 7: {
                what = "moving a tail to the other chain";
                size_t b = pick(len + 1);
                if(K::tagged && ref[!i].tag != -2 && ref[i].tag == -2) break;
                sut([&] {
                    H *y = at(h[i], b);
                    *h[!i] = mv(*y);
                    K::none(*y);
                });
                ref[!i].v.assign(ref[i].v.begin() + b, ref[i].v.end());
                ref[i].v.resize(b);
                ref[!i].tag = ref[i].tag;
                ref[i].tag = -2;
                break;
            }
            case 8:
                what = "cutting";
                {
                    size_t b = pick(len + 1);
                    sut([&] { K::none(*at(h[i], b)); });
                    ref[i].v.resize(b);
                    ref[i].tag = -2;
                }
                break;
            default:
                what = "ending in the other kind";
                if constexpr(K::tagged) {
                    size_t b = pick(len + 1);
                    int v = next_v++;
                    sut([&] { K::tag(*at(h[i], b), v); });
                    ref[i].v.resize(b);
                    ref[i].tag = v;
                }
            }
            log("chain %d of %ss: %s, %zu elements", i, K::name, what, ref[i].v.size());
            check(what);
        }
        for(int i = 0; i < 2; ++i)
            sut([&] { delete h[i]; });
        el::expect(0, "at the end");
        check_no_leaks("the chains");
        nontrivial();
    }
};

// Every alternative of variants with 1 to 30 of them.
template<int I> struct Alt {
    Elem e;
    Alt() noexcept {}
    explicit Alt(int v) : e(v) {}
    Alt(const Alt &) = default;
    Alt(Alt &&o) noexcept : e(mv(o.e)) {}
    Alt &operator=(const Alt &) = default;
    Alt &operator=(Alt &&o) noexcept {
        e = mv(o.e);
        return *this;
    }
    bool operator==(const Alt &o) const { return e == o.e; }
};
template<typename V, int... I> struct WideOps {
    typedef V Var;
    static constexpr int n = sizeof...(I);
    static void insert(V &v, int k, int x) { ((k == I ? v.insert(Alt<I>(x)) : void()), ...); }
    static V *fresh(int k, int x) {
        V *r = nullptr;
        ((k == I ? (void)(r = new V(Alt<I>(x))) : void()), ...);
        return r;
    }
    // value of alternative k, -2 if it is another one
    static int get_if(V &v, int k) {
        int r = -2;
        ((k == I ? (void)(r = v.template get_if<Alt<I>>() ? v.template get_if<Alt<I>>()->e.val() : -2) : void()), ...);
        return r;
    }
    static int get(V &v, int k) {
        int r = -3;
        ((k == I ? (void)(r = v.template get<Alt<I>>().e.val()) : void()), ...);
        return r;
    }
    static int cget(const V &v, int k) {
        int r = -3;
        ((k == I ? (void)(r = v.template get_if<Alt<I>>() ? v.template get<Alt<I>>().e.val() : -2) : void()), ...);
        return r;
    }
};
template<typename O> void wide() {
    typedef typename O::Var V;
    struct Slot {
        V *v = nullptr;
        int alt = 0, val = -1;
    } s[2];
    int next_v = 1;
    for(auto &x : s) {
        x.v = sut([] { return new V; });
        x.alt = 0;
    }
    int n = 2 + pick(30);
    for(int q = 0; q < n; ++q) {
        int i = pick(2), k = pick(O::n), v = next_v++;
        auto &x = s[i];
        auto &y = s[!i];
        const char *what;
        switch(pick(7)) {
        case 0:
        case 1:
            what = "insert";
            sut([&] { O::insert(*x.v, k, v); });
            x.alt = k;
            x.val = v;
            break;
        case 2:
            what = "construct from a value";
            sut([&] { delete x.v; });
            x.v = sut([&] { return O::fresh(k, v); });
            x.alt = k;
            x.val = v;
            break;
        case 3:
            what = "copy construct";
            sut([&] { delete x.v; });
            x.v = sut([&] { return new V((const V &)*y.v); });
            x.alt = y.alt;
            x.val = y.val;
            break;
        case 4:
            what = "move construct";
            sut([&] { delete x.v; });
            x.v = sut([&] { return new V(mv(*y.v)); });
            x.alt = y.alt;
            x.val = y.val;
            y.val = -1;
            break;
        case 5:
            what = "copy assign";
            sut([&] { *x.v = (const V &)*y.v; });
            x.alt = y.alt;
            x.val = y.val;
            break;
        default:
            what = "move assign";
            sut([&] { *x.v = mv(*y.v); });
            x.alt = y.alt;
            x.val = y.val;
            y.val = -1;
        }
        log("variant of %d: %s %d (%d)", O::n, what, k, v);
        for(auto &z : s) {
            int other = pick(O::n);
            int idx = sut([&] { return (int)z.v->index(); });
            SIM_CHECK(idx == z.alt, "wrong-state", "%s: a variant of %d alternatives holds alternative %d, should hold %d", what, O::n, idx, z.alt);
            int a = sut([&] { return O::get_if(*z.v, z.alt); }), b = sut([&] { return O::get(*z.v, z.alt); }), c = sut([&] { return O::cget(*z.v, z.alt); });
            SIM_CHECK(a == z.val && b == z.val && c == z.val, "wrong-value", "%s: alternative %d of %d is %d (%d %d), should be %d", what, z.alt, O::n, a, b, c, z.val);
            if(other != z.alt) {
                int w = sut([&] { return O::get_if(*z.v, other); });
                SIM_CHECK(w == -2, "wrong-state", "%s: alternative %d of %d is there, only %d should be", what, other, O::n, z.alt);
            }
        }
        el::expect(2, what);
    }
    for(auto &x : s)
        sut([&] { delete x.v; });
    el::expect(0, "at the end");
    check_no_leaks("the variants");
    nontrivial();
}
template<int N, int... I> struct MakeWide : MakeWide<N - 1, N - 1, I...> {};
template<int... I> struct MakeWide<0, I...> {
    typedef WideOps<P::Variant<Alt<I>...>, I...> Ops;
};
} // namespace

SIM_SCENARIO(chains_owned, 3) {
    randomize_heap();
    switch(pick(6)) {
    case 0: Chains<OptKind>().run(); break;
    case 1: Chains<ExpKind>().run(); break;
    case 2: Chains<VarKind>().run(); break;
    case 3: Chains<VecKind>().run(); break;
    case 4: Chains<PtrKind>().run(); break;
    default: Chains<ArrKind>().run();
    }
}
SIM_SCENARIO(variant_wide, 2) {
    randomize_heap();
    switch(pick(6)) {
    case 0: wide<MakeWide<1>::Ops>(); break;
    case 1: wide<MakeWide<2>::Ops>(); break;
    case 2: wide<MakeWide<7>::Ops>(); break;
    case 3: wide<MakeWide<13>::Ops>(); break;
    case 4: wide<MakeWide<22>::Ops>(); break;
    default: wide<MakeWide<30>::Ops>();
    }
}
