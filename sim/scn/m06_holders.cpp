// M06: optional, expected, variant and owning pointers hold what was last put in.
#include "elem.hpp"
#if EPOCH == 2026
#include <pystd2026_variant.hpp>
#endif

namespace {
// A second tracked type, so that alternatives can be confused.
struct Other {
    Elem e;
    int64_t pad[3] = {7, 7, 7};
    Other() noexcept {}
    explicit Other(int v) : e(v) {}
    Other(const Other &) = default;
    Other(Other &&o) noexcept : e((Elem &&)o.e) {}
    Other &operator=(const Other &) = default;
    Other &operator=(Other &&o) noexcept {
        e = (Elem &&)o.e;
        return *this;
    }
    int val() const { return e.val(); }
    bool operator==(const Other &o) const { return e == o.e; }
};
struct Err {
    Elem e;
    Err() noexcept {}
    explicit Err(int v) : e(v) {}
    Err(const Err &) = default;
    Err(Err &&o) noexcept : e((Elem &&)o.e) {}
    Err &operator=(const Err &) = default;
    Err &operator=(Err &&o) noexcept {
        e = (Elem &&)o.e;
        return *this;
    }
    int val() const { return e.val(); }
};
int next_v = 1;
// ---- optional ------------------------------------------------------------------------------
constexpr int NONE = -100;
struct OptWorld {
    typedef P::Optional<Elem> O;
    struct Slot {
        O *o = nullptr;
        int ref = NONE; // NONE, -1 (holds an element without content) or the value
    };
    Slot s[3];
    void check(const char *what) {
        size_t n = 0;
        for(auto &x : s) {
            if(!x.o) continue;
            n += x.ref != NONE;
            bool has = sut([&] { return (bool)*x.o; });
            SIM_CHECK(has == (x.ref != NONE), "wrong-state", "%s: the optional says it is %s, should be %s", what, has ? "filled" : "empty", has ? "empty" : "filled");
            if(!has) {
                const O &c = *x.o;
                if(pick(8) == 0) {
                    refused("the value of an empty optional", [&] { x.o->value(); });
                    refused("the value of an empty optional", [&] { c.value(); });
                    refused("the value of an empty optional", [&] { **x.o; });
                    refused("the value of an empty optional", [&] { *c; });
                    refused("the value of an empty optional", [&] { (*x.o)->val(); });
                    refused("the value of an empty optional", [&] { c->val(); });
                }
                continue;
            }
            int a, b, c, d;
            {
                Sut u;
                const O &k = *x.o;
                a = x.o->value().val();
                b = (**x.o).val();
                c = (*x.o)->val();
                d = k.value().val() == k->val() && (*k).val() == a ? a : -77;
            }
            SIM_CHECK(a == x.ref && b == x.ref && c == x.ref && d == x.ref, "wrong-value", "%s: the optional holds %d (%d %d %d), should hold %d", what, a, b, c, d, x.ref);
        }
        el::expect(n, what);
    }
    void run(uint32_t den) {
        int n = 3 + pick(40);
        for(int q = 0; q < n; ++q) {
            int i = pick(3), j = pick(3), v = next_v++;
            auto &x = s[i];
            auto &y = s[j];
            const char *what = "";
            arm_faults(den);
            int old = x.ref;
            auto created = [&](auto &&f, int val) {
                if(x.o) {
                    disarm();
                    destroy(x.o);
                    x = Slot{};
                    op_begin();
                }
                try {
                    x.o = f();
                    x.ref = val;
                } catch(...) {
                    SIM_CHECK(op_faults(), "unexpected-exception", "constructing an optional threw");
                }
            };
            switch(pick(14)) {
            case 0: created([&] { return make<O>(); }, NONE), what = "create empty"; break;
            case 1:
                what = "create from a value";
                created(
                    [&] {
                        Sut u;
                        Elem e(v);
                        return coin() ? make<O>((const Elem &)e) : make<O>(P::move(e));
                    },
                    v);
                break;
            case 2:
                what = "copy construct";
                if(!y.o || i == j) break;
                created(
                    [&] {
                        const O &c = *y.o;
                        return make<O>(c);
                    },
                    y.ref);
                break;
            case 3: {
                what = "move construct";
                if(!y.o || i == j) break;
                disarm();
                created([&] { return make<O>(P::move(*y.o)); }, y.ref);
                y.ref = NONE; // the value went over
                break;
            }
            case 4:
                what = "assign a value";
                if(!x.o) break;
                if(attempt(what, [&] {
                       Elem e(v);
                       *x.o = P::move(e);
                   }))
                    x.ref = v;
                break;
            case 5:
                what = "assign a copy";
                if(!x.o) break;
                if(attempt(what, [&] {
                       const Elem e(v);
                       *x.o = e;
                       host([&] { SIM_CHECK(sut([&] { return e.val(); }) == v, "source-changed", "assigning a copy emptied the source"); });
                   }))
                    x.ref = v;
                break;
            case 6:
            case 7: {
                what = "copy assign";
                if(!x.o || !y.o) break;
                if(attempt(what, [&] {
                       const O &c = *y.o;
                       *x.o = c;
                   }))
                    x.ref = y.ref;
                if(i == j) probe("assigned to itself");
                break;
            }
            case 8:
            case 9:
                what = "move assign";
                if(!x.o || !y.o) break;
                disarm();
                sut([&] { *x.o = P::move(*y.o); });
                if(i != j) {
                    x.ref = y.ref;
                    y.ref = NONE; // the value went over
                } else
                    probe("assigned to itself");
                break;
            case 10:
                what = "assign its own value";
                if(!x.o || x.ref == NONE) break;
                if(attempt(what, [&] {
                       if(coin())
                           *x.o = x.o->value();
                       else {
                           const Elem &c = x.o->value();
                           *x.o = c;
                       }
                   }))
                    x.ref = old;
                probe("assigned its own value");
                break;
            case 11:
                what = "reset";
                if(!x.o) break;
                sut([&] { x.o->reset(); });
                x.ref = NONE;
                break;
            case 12:
                what = "change the value";
                if(!x.o || x.ref == NONE) break;
                if(attempt(what, [&] { x.o->value() = Elem(v); })) x.ref = v;
                break;
            default:
                what = "destroy";
                destroy(x.o);
                x = Slot{};
            }
            log("optional %d: %s (%d)", i, what, v);
            disarm();
            op_begin();
            check(what);
        }
        for(auto &x : s)
            destroy(x.o);
        el::expect(0, "at the end");
        check_no_leaks("the optionals");
        nontrivial();
    }
};
#if EPOCH == 2025
#define DEREF(o) (o).value()
#else
#define DEREF(o) (*(o))
#endif
void opt_pointer() {
    typedef P::Optional<Elem *> O;
    Elem *e[3];
    {
        Sut u;
        for(int i = 0; i < 3; ++i)
            e[i] = new Elem(i);
    }
    O *o[2] = {make<O>(), make<O>()};
    int ref[2] = {-1, -1};
    int n = 2 + pick(30);
    for(int q = 0; q < n; ++q) {
        int i = pick(2), k = pick(3);
        switch(pick(6)) {
        case 0:
            sut([&] { *o[i] = O(e[k]); });
            ref[i] = k;
            break;
        case 1:
            sut([&] { o[i]->reset(); });
            ref[i] = -1;
            break;
        case 2:
            sut([&] {
                const O &c = *o[!i];
                *o[i] = c;
            });
            ref[i] = ref[!i];
            break;
        case 3: {
            destroy(o[i]);
            const O &c = *o[!i];
            o[i] = make<O>(c);
            ref[i] = ref[!i];
            break;
        }
        case 4: {
            destroy(o[i]);
            o[i] = make<O>(e[k]);
            ref[i] = k;
            break;
        }
        default:
            sut([&] { *o[i] = P::move(*o[!i]); });
            ref[i] = ref[!i];
            if(!sut([&] { return (bool)*o[!i]; })) ref[!i] = -1;
        }
        for(int k = 0; k < 2; ++k) {
            bool has = sut([&] { return (bool)*o[k]; });
            SIM_CHECK(has == (ref[k] >= 0), "wrong-state", "the optional pointer says %d", has);
            if(has) {
                int a = sut([&] { return DEREF(*o[k]).val(); }), b = sut([&] { return (*o[k])->val(); });
                SIM_CHECK(a == ref[k] && b == a, "wrong-value", "the optional pointer leads to %d, should lead to %d", a, ref[k]);
            } else
                refused("dereferencing an empty optional", [&] { DEREF(*o[k]); });
        }
    }
    el::expect(3, "pointers own nothing");
    for(int i = 0; i < 2; ++i)
        destroy(o[i]);
    {
        Sut u;
        for(int i = 0; i < 3; ++i)
            delete e[i];
    }
    check_no_leaks("the pointers");
    nontrivial();
}
// ---- optionals of plain values: nothing but the optional itself says whether there is a value ----
struct Wide {
    uint64_t a, b, c;
};
inline bool same(const Wide &x, const Wide &y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
inline bool same(const P::CString &x, const P::CString &y) { return x == y; }
template<typename T> bool same(const T &x, const T &y) { return x == y; }
inline void gen_plain(int &v) { v = (int)pick(5) - 2; }
inline void gen_plain(bool &v) { v = coin(); }
inline void gen_plain(uint8_t &v) { v = (uint8_t)(pick(3) * 127); }
inline void gen_plain(Wide &v) { v = {pick(4), pick(2) ? ~0ull : 0ull, pick(9)}; }
inline void gen_plain(P::CString &v) {
    sut([&] {
        static const char *const t[] = {"", "a", "a text that is longer than any short string could be"};
        v = P::CString(t[host([&] { return pick(3); })]);
    });
}
template<typename T> void opt_plain() {
    typedef P::Optional<T> O;
    struct Slot {
        O *o;
        bool has;
        T *v;
    } s[3];
    for(auto &x : s)
        x = {make<O>(), false, make<T>()};
    int n = 2 + pick(40);
    for(int q = 0; q < n; ++q) {
        auto &x = s[pick(3)];
        auto &y = s[pick(3)];
        const char *what = "";
        int op = pick(10);
        switch(op) {
        case 0:
        case 1:
        case 2: {
            gen_plain(*x.v);
            x.has = true;
            sut([&] {
                const T c(*x.v);
                if(op == 0)
                    *x.o = c;
                else if(op == 1) {
                    T tmp(c);
                    *x.o = P::move(tmp);
                } else
                    *x.o = O(c);
            });
            what = "assign a value";
            break;
        }
        case 3:
        case 4:
            what = "copy assign";
            sut([&] {
                const O &c = *y.o;
                *x.o = c;
                T t(*y.v);
                *x.v = P::move(t);
            });
            x.has = y.has;
            break;
        case 5:
        case 6: {
            what = "move assign";
            sut([&] {
                *x.o = P::move(*y.o);
                T t(*y.v);
                *x.v = P::move(t);
            });
            bool had = y.has;
            if(&x != &y) y.has = false;
            x.has = had;
            break;
        }
        case 7:
            what = "move construct";
            sut([&] {
                O o(P::move(*y.o));
                bool has = o;
                host([&] { SIM_CHECK(has == y.has, "wrong-state", "move construct: the new optional says it is %s", has ? "filled" : "empty"); });
                if(has && !same(o.value(), *y.v)) host([&] { fail("wrong-value", "move construct: the new optional holds another value"); });
            });
            y.has = false;
            break;
        case 8:
            what = "copy construct";
            sut([&] {
                const O &c = *y.o;
                O o(c);
                bool has = o;
                host([&] { SIM_CHECK(has == y.has, "wrong-state", "copy construct: the new optional says it is %s", has ? "filled" : "empty"); });
                if(has && !same(o.value(), *y.v)) host([&] { fail("wrong-value", "copy construct: the new optional holds another value"); });
            });
            break;
        default:
            what = "reset";
            sut([&] { x.o->reset(); });
            x.has = false;
        }
        for(auto &z : s) {
            bool has = sut([&] { return (bool)*z.o; });
            SIM_CHECK(has == z.has, "wrong-state", "%s: the optional says it is %s, should be %s", what, has ? "filled" : "empty", has ? "empty" : "filled");
            if(has) {
                bool ok = sut([&] {
                    const O &c = *z.o;
                    return same(z.o->value(), *z.v) && same(c.value(), *z.v) && same(*c.operator->(), *z.v);
                });
                SIM_CHECK(ok, "wrong-value", "%s: the optional holds another value", what);
            } else if(pick(4) == 0)
                refused("the value of an empty optional", [&] { z.o->value(); });
        }
    }
    for(auto &x : s) {
        destroy(x.o);
        destroy(x.v);
    }
    check_no_leaks("the optionals");
    nontrivial();
}
// ---- expected ------------------------------------------------------------------------------
struct ExpWorld {
    typedef P::Expected<Elem, Err> X;
    struct Slot {
        X *x = nullptr;
        int st = 0; // 0 nothing 1 value 2 error
        int ref = 0;
    };
    Slot s[3];
    void check(const char *what) {
        size_t n = 0;
        for(auto &x : s) {
            if(!x.x) continue;
            n += x.st != 0;
            bool hv, he, b;
            {
                Sut u;
                hv = x.x->has_value();
                he = x.x->has_error();
                b = (bool)*x.x;
            }
            SIM_CHECK(hv == (x.st == 1) && he == (x.st == 2) && b == hv, "wrong-state", "%s: has_value %d has_error %d bool %d, it should hold %s", what, hv, he, b, x.st == 1 ? "a value" : x.st == 2 ? "an error" : "nothing");
            if(hv) {
                strict_abort = true;
                int v = sut([&] { return x.x->value().val(); });
                strict_abort = false;
                SIM_CHECK(v == x.ref, "wrong-value", "%s: the value is %d, should be %d", what, v, x.ref);
            } else if(he) {
                strict_abort = true;
                int v = sut([&] { return x.x->error().val(); });
                strict_abort = false;
                SIM_CHECK(v == x.ref, "wrong-value", "%s: the error is %d, should be %d", what, v, x.ref);
            }
        }
        el::expect(n, what);
    }
    // after being moved from: nothing, or the same alternative without content
    void moved(Slot &y) {
        bool hv, he;
        {
            Sut u;
            hv = y.x->has_value();
            he = y.x->has_error();
        }
        if(!hv && !he)
            y.st = 0;
        else {
            SIM_CHECK(y.st == (hv ? 1 : 2), "wrong-state", "an expected that was moved from changed from %s to %s", y.st == 1 ? "value" : "error", hv ? "value" : "error");
            y.ref = -1;
        }
    }
    void run(uint32_t den) {
        int n = 3 + pick(40);
        for(int q = 0; q < n; ++q) {
            int i = pick(3), j = pick(3), v = next_v++;
            auto &x = s[i];
            auto &y = s[j];
            const char *what = "";
            arm_faults(den);
            auto created = [&](auto &&f, int st, int val) {
                if(x.x) {
                    auto save = faults();
                    disarm();
                    destroy(x.x);
                    x = Slot{};
                    faults() = save;
                }
                try {
                    x.x = f();
                    x.st = st;
                    x.ref = val;
                } catch(...) {
                    SIM_CHECK(op_faults(), "unexpected-exception", "constructing an expected threw");
                }
            };
            switch(pick(10)) {
            case 0:
                what = "create empty";
                created([&] { return make<X>(); }, 0, 0);
                break;
            case 1:
                what = "create from a value";
                created(
                    [&] {
                        Sut u;
                        Elem e(v);
                        return coin() ? make<X>((const Elem &)e) : make<X>(P::move(e));
                    },
                    1, v);
                break;
            case 2:
                what = "create from an error";
                created(
                    [&] {
                        Sut u;
                        Err e(v);
                        switch(pick(3)) {
                        case 0: return make<X>((const Err &)e);
                        case 1: return make<X>(P::move(e));
                        default: return make<X>(P::Unexpected<Err>(P::move(e)));
                        }
                    },
                    2, v);
                break;
            case 3:
            case 4:
                what = "move construct";
                if(!y.x || i == j) break;
                disarm();
                strict_abort = true;
                created([&] { return make<X>(P::move(*y.x)); }, y.st, y.ref);
                strict_abort = false;
                moved(y);
                if(y.st == 0 || x.st == 0) probe("moved from an expected that holds nothing");
                break;
            case 5:
            case 6:
            case 7:
                what = "move assign";
                if(!x.x || !y.x) break;
                disarm();
                strict_abort = true;
                sut([&] { *x.x = P::move(*y.x); });
                strict_abort = false;
                if(i != j) {
                    x.st = y.st;
                    x.ref = y.ref;
                    moved(y);
                } else
                    probe("assigned to itself");
                break;
            case 8: {
                what = "change the content";
                if(!x.x || !x.st) break;
                disarm();
                strict_abort = true;
                sut([&] {
                    if(x.st == 1)
                        x.x->value() = Elem(v);
                    else
                        x.x->error() = Err(v);
                });
                strict_abort = false;
                x.ref = v;
                break;
            }
            default:
                what = "destroy";
                destroy(x.x);
                x = Slot{};
            }
            log("expected %d: %s (%d)", i, what, v);
            disarm();
            op_begin();
            check(what);
        }
        // asking for what is not there ends the process; it must not answer
        if(flip(1, 3)) {
            for(auto &x : s)
                if(x.x && flip(1, 2)) {
                    bool ask_value = x.st == 2 || (x.st == 0 && coin());
                    log("ask for the %s that is not there", ask_value ? "value" : "error");
                    allow_abort_class = "asked for what is not there";
                    bool threw = false;
                    {
                        Sut u;
                        try {
                            if(ask_value)
                                x.x->value();
                            else
                                x.x->error();
                        } catch(...) {
                            threw = true;
                        }
                    }
                    SIM_CHECK(threw, "not-refused", "asked for the %s of an expected that does not hold one, it answered", ask_value ? "value" : "error");
                }
            allow_abort_class = nullptr;
        }
        for(auto &x : s)
            destroy(x.x);
        el::expect(0, "at the end");
        check_no_leaks("the expecteds");
        nontrivial();
    }
};
// ---- variant -------------------------------------------------------------------------------
struct VarWorld {
    typedef P::Variant<Elem, int64_t, Other, P::U8String> V;
    struct Slot {
        V *v = nullptr;
        int alt = 0;
        int ref = -1;
    };
    Slot s[3];
    static P::U8String text(int v) {
        char b[64];
        snprintf(b, sizeof b, "text %d \xE2\x82\xAC with some length", v);
        return P::U8String(b);
    }
    int read(V &v, int alt) {
        Sut u;
        switch(alt) {
        case 0: return v.get<Elem>().val();
        case 1: return (int)v.get<int64_t>();
        case 2: return v.get<Other>().val();
        default: return v.get<P::U8String>().size_bytes() ? atoi(v.get<P::U8String>().c_str() + 5) : -1;
        }
    }
    void check(const char *what) {
        size_t n = 0;
        for(auto &x : s) {
            if(!x.v) continue;
            n += x.alt == 0 || x.alt == 2;
            int idx = sut([&] { return (int)x.v->index(); });
            bool c[4], g[4];
            {
                Sut u;
                const V &k = *x.v;
                c[0] = k.contains<Elem>(), c[1] = k.contains<int64_t>(), c[2] = k.contains<Other>(), c[3] = k.contains<P::U8String>();
                g[0] = k.get_if<Elem>(), g[1] = x.v->get_if<int64_t>(), g[2] = k.get_if<Other>(), g[3] = x.v->get_if<P::U8String>();
            }
            SIM_CHECK(idx == x.alt, "wrong-state", "%s: the variant says it holds alternative %d, should be %d", what, idx, x.alt);
            for(int a = 0; a < 4; ++a)
                SIM_CHECK(c[a] == (a == x.alt) && g[a] == c[a], "wrong-state", "%s: contains/get_if for alternative %d answer %d/%d, it holds %d", what, a, c[a], g[a], x.alt);
            int v = read(*x.v, x.alt);
            SIM_CHECK(v == x.ref, "wrong-value", "%s: alternative %d holds %d, should hold %d", what, x.alt, v, x.ref);
            if(pick(6) == 0) {
                int w = (x.alt + 1 + pick(3)) % 4;
                refused("the wrong alternative", [&] { this->read(*x.v, w); });
            }
        }
        el::expect(n, what);
    }
    static int moved_val(int alt, int v) { return alt == 1 ? v : -1; }
    void run(uint32_t den) {
        int n = 3 + pick(40);
        for(int q = 0; q < n; ++q) {
            int i = pick(3), j = pick(3), v = next_v++, alt = pick(4);
            auto &x = s[i];
            auto &y = s[j];
            const char *what = "";
            arm_faults(den);
            auto created = [&](auto &&f, int al, int val) {
                if(x.v) {
                    auto save = faults();
                    disarm();
                    destroy(x.v);
                    x = Slot{};
                    faults() = save;
                }
                try {
                    x.v = f();
                    x.alt = al;
                    x.ref = val;
                } catch(...) {
                    SIM_CHECK(op_faults(), "unexpected-exception", "constructing a variant threw");
                }
            };
            switch(pick(11)) {
            case 0:
                what = "create";
                created([&] { return make<V>(); }, 0, -1);
                break;
            case 1:
            case 2:
                what = "create from a value";
                created(
                    [&] {
                        Sut u;
                        bool mv = coin();
                        switch(alt) {
                        case 0: {
                            Elem e(v);
                            return mv ? make<V>(P::move(e)) : coin() ? make<V>((const Elem &)e) : make<V>(e);
                        }
                        case 1: {
                            int64_t e = v;
                            return mv ? make<V>(P::move(e)) : make<V>((const int64_t &)e);
                        }
                        case 2: {
                            Other e(v);
                            return mv ? make<V>(P::move(e)) : make<V>((const Other &)e);
                        }
                        default: {
                            P::U8String e = text(v);
                            return mv ? make<V>(P::move(e)) : make<V>((const P::U8String &)e);
                        }
                        }
                    },
                    alt, v);
                break;
            case 3:
                what = "copy construct";
                if(!y.v || i == j) break;
                created(
                    [&] {
                        const V &c = *y.v;
                        return make<V>(c);
                    },
                    y.alt, y.ref);
                break;
            case 4:
                what = "move construct";
                if(!y.v || i == j) break;
                disarm();
                created([&] { return make<V>(P::move(*y.v)); }, y.alt, y.ref);
                y.ref = moved_val(y.alt, y.ref);
                break;
            case 5:
            case 6:
                what = "copy assign";
                if(!x.v || !y.v) break;
                if(attempt(what, [&] {
                       const V &c = *y.v;
                       *x.v = c;
                   })) {
                    x.alt = y.alt;
                    x.ref = y.ref;
                }
                break;
            case 7:
                what = "move assign";
                if(!x.v || !y.v) break;
                disarm();
                sut([&] { *x.v = P::move(*y.v); });
                if(i != j) {
                    x.alt = y.alt;
                    x.ref = y.ref;
                    y.ref = moved_val(y.alt, y.ref);
                } else
                    probe("assigned to itself");
                break;
            case 8:
            case 9:
                what = "insert";
                if(!x.v) break;
                if(attempt(what, [&] {
                       switch(alt) {
                       case 0: x.v->insert(Elem(v)); break;
                       case 1: x.v->insert((int64_t)v); break;
                       case 2: x.v->insert(Other(v)); break;
                       default: x.v->insert(text(v)); break;
                       }
                   })) {
                    x.alt = alt;
                    x.ref = v;
                }
                break;
            default:
                what = "insert its own value";
                if(!x.v || x.alt != 0) break;
                if(attempt(what, [&] { x.v->insert<Elem>(x.v->get<Elem>()); })) probe("own value inserted");
            }
            log("variant %d: %s (%d, alternative %d)", i, what, v, alt);
            disarm();
            op_begin();
            check(what);
        }
        for(auto &x : s)
            destroy(x.v);
        el::expect(0, "at the end");
        check_no_leaks("the variants");
        nontrivial();
    }
};
// ---- owning pointers -----------------------------------------------------------------------
std::set<Elem *> owned;
std::function<bool(Elem *)> still_shown; // is it the one that the pointer leads to?
struct Tracker {
    static void del(Elem *e) {
        bool shown = host([&] { return still_shown && still_shown(e); });
        host([&] {
            SIM_CHECK(!shown, "leads-to-deleted", "the pointer still leads to the object that it deletes to hold another one");
            SIM_CHECK(e, "deleted-null", "the deleter was called for nothing");
            SIM_CHECK(owned.erase(e), "deleted-twice", "the deleter was called for an object that is not owned (any more)");
        });
        delete e;
    }
};
void unique(uint32_t) {
    typedef P::unique_ptr<Elem, Tracker> U;
    U *u[3] = {};
    Elem *ref[3] = {};
    int val[3] = {};
    std::vector<Elem *> loose;
    auto fresh = [&](int v) {
        Sut s;
        auto *e = new Elem(v);
        host([&] { owned.insert(e); });
        return e;
    };
    int n = 3 + pick(40);
    for(int q = 0; q < n; ++q) {
        int i = pick(3), j = pick(3), v = next_v++;
        int op = pick(9);
        log("unique_ptr %d op %d (%d)", i, op, j);
        if(!u[i]) {
            if(op & 1) {
                ref[i] = fresh(v);
                val[i] = v;
                u[i] = make<U>(ref[i]);
            } else {
                ref[i] = nullptr;
                u[i] = make<U>();
            }
        }
        switch(op) {
        case 0:
        case 1: {
            Elem *e = flip(1, 4) ? nullptr : fresh(v);
            still_shown = [p = u[i]](Elem *o) { return p->get() == o; };
            sut([&] { u[i]->reset(e); });
            still_shown = nullptr;
            ref[i] = e;
            val[i] = v;
            break;
        }
        case 2: {
            Elem *e = sut([&] { return u[i]->release(); });
            SIM_CHECK(e == ref[i], "wrong-value", "release gives something else than what is owned");
            if(e) loose.push_back(e);
            ref[i] = nullptr;
            break;
        }
        case 3:
        case 4:
            if(!u[j]) break;
            still_shown = [p = u[i]](Elem *o) { return p->get() == o; };
            sut([&] { *u[i] = P::move(*u[j]); });
            still_shown = nullptr;
            if(i != j) {
                ref[i] = ref[j];
                val[i] = val[j];
                ref[j] = nullptr;
            } else
                probe("assigned to itself");
            break;
        case 5:
            if(!u[j] || i == j) break;
            destroy(u[i]);
            u[i] = make<U>(P::move(*u[j]));
            ref[i] = ref[j];
            val[i] = val[j];
            ref[j] = nullptr;
            break;
        case 6:
            destroy(u[i]);
            u[i] = nullptr;
            ref[i] = nullptr;
            break;
        default:
            if(!loose.empty() && !ref[i]) {
                ref[i] = loose.back();
                loose.pop_back();
                val[i] = sut([&] { return ref[i]->val(); });
                sut([&] { u[i]->reset(ref[i]); });
            }
        }
        size_t live = loose.size();
        for(int k = 0; k < 3; ++k) {
            if(!u[k]) continue;
            live += ref[k] != nullptr;
            Elem *g = sut([&] { return u[k]->get(); });
            bool b = sut([&] { return (bool)*u[k]; });
            SIM_CHECK(g == ref[k] && b == (g != nullptr), "wrong-value", "a unique_ptr holds something else than what was put in");
            if(g) {
                int a = sut([&] { return (**u[k]).val(); }), c = sut([&] { return (*u[k])->val(); });
                SIM_CHECK(a == val[k] && c == a, "wrong-value", "a unique_ptr leads to %d, should lead to %d", a, val[k]);
            }
        }
        el::expect(live, "owning pointers");
        SIM_CHECK(owned.size() == live, "deleted-twice", "%zu objects are owned, should be %zu", owned.size(), live);
    }
    for(int k = 0; k < 3; ++k)
        destroy(u[k]);
    for(auto *e : loose)
        sut([&] { Tracker::del(e); });
    el::expect(0, "at the end");
    check_no_leaks("the pointers");
    nontrivial();
}
void unique_array(uint32_t den) {
    typedef P::unique_arr<Elem> U;
    U *u[2] = {make<U>(), make<U>()};
    size_t size[2] = {0, 0};
    std::vector<int> ref[2];
    int n = 2 + pick(30);
    for(int q = 0; q < n; ++q) {
        int i = pick(2);
        arm_faults(den);
        switch(pick(6)) {
        case 0:
        case 1: {
            size_t k = pick(3) ? pick(12) : 0;
            log("array %d: new with %zu", i, k);
            if(attempt("create an array", [&] { *u[i] = U(k); })) {
                size[i] = k;
                ref[i].assign(k, -1);
            }
            break;
        }
        case 2:
            disarm();
            log("array %d: move assign from the other", i);
            sut([&] { *u[i] = P::move(*u[!i]); });
            size[i] = size[!i];
            ref[i] = ref[!i];
            size[!i] = 0;
            ref[!i].clear();
            break;
        case 3:
            disarm();
            log("array %d: move construct from the other", i);
            destroy(u[i]);
            u[i] = make<U>(P::move(*u[!i]));
            size[i] = size[!i];
            ref[i] = ref[!i];
            size[!i] = 0;
            ref[!i].clear();
            break;
        default:
            if(!size[i]) break;
            size_t k = pick(size[i]);
            int v = next_v++;
            if(attempt("set an element", [&] { (*u[i])[k] = Elem(v); })) ref[i][k] = v;
        }
        disarm();
        op_begin();
        el::expect(size[0] + size[1], "arrays");
        for(int k = 0; k < 2; ++k) {
            SIM_CHECK(u[k]->size() == size[k] && u[k]->size_bytes() == size[k] * sizeof(Elem), "wrong-size", "the array has size %zu, should be %zu", u[k]->size(), size[k]);
            for(size_t e = 0; e < size[k]; ++e) {
                int v = sut([&] { return (*u[k])[e].val(); });
                SIM_CHECK(v == ref[k][e], "wrong-value", "array element %zu is %d, should be %d", e, v, ref[k][e]);
            }
            if(pick(6) == 0) {
                size_t bad = size[k] + pick(3);
                const U &c = *u[k];
                refused("a bad index", [&] { (*u[k])[bad]; });
                refused("a bad index", [&] { c[bad]; });
            }
        }
    }
    for(int k = 0; k < 2; ++k)
        destroy(u[k]);
    el::expect(0, "at the end");
    check_no_leaks("the arrays");
    nontrivial();
}
} // namespace

SIM_SCENARIO(optional_elem, 4) {
    randomize_heap();
    OptWorld().run(0);
}
SIM_SCENARIO(optional_elem_faults, 2) {
    randomize_heap();
    OptWorld().run(3 + pick(20));
}
SIM_SCENARIO(optional_pointer, 1) { opt_pointer(); }
SIM_SCENARIO(optional_plain, 2) {
    randomize_heap();
    switch(pick(5)) {
    case 0: opt_plain<int>(); break;
    case 1: opt_plain<bool>(); break;
    case 2: opt_plain<uint8_t>(); break;
    case 3: opt_plain<Wide>(); break;
    default: opt_plain<P::CString>();
    }
}
SIM_SCENARIO(expected_elem, 4) {
    randomize_heap();
    ExpWorld().run(0);
}
SIM_SCENARIO(expected_elem_faults, 1) {
    randomize_heap();
    ExpWorld().run(3 + pick(20));
}
SIM_SCENARIO(variant_elem, 4) {
    randomize_heap();
    VarWorld().run(0);
}
SIM_SCENARIO(variant_elem_faults, 2) {
    randomize_heap();
    VarWorld().run(3 + pick(20));
}
SIM_SCENARIO(unique_ptr_elem, 3) {
    randomize_heap();
    unique(0);
}
SIM_SCENARIO(unique_arr_elem, 2) {
    randomize_heap();
    unique_array(0);
}
SIM_SCENARIO(unique_arr_elem_faults, 1) {
    randomize_heap();
    unique_array(3 + pick(20));
}
