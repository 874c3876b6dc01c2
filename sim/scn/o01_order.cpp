// O01: comparing, ordering and hashing depend on what objects hold and on nothing else: not on how they came to hold
// it, what they held before, where they lie, or what lies around them.
#include "elem.hpp"
#include <map>
#include <vector>
#include <string.h>
#include <math.h>

namespace {
typedef std::string S;
int sgn(int v) { return v < 0 ? -1 : v > 0; }
int ref_cmp(const S &a, const S &b) {
    int r = memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
    return r ? sgn(r) : a.size() < b.size() ? -1 : a.size() > b.size();
}
const char *const letters[] = {"a", "b", "A", "0", "1", "9", " ", ".", "z", "\x7f", "\xC3\xA4", "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\x01"};
S gen_text(int most) {
    S s;
    int kind = pick(4);
    for(int n = pick(most + 1); n > 0; --n)
        s += kind == 0 ? letters[pick(2)] : kind == 1 ? letters[3 + pick(3)] : letters[pick(14)];
    return s;
}
// a neighbour of a text: what comparisons get wrong
S near(const S &b) {
    std::vector<S> cp; // its characters
    for(size_t i = 0; i < b.size();) {
        size_t n = 1;
        while(i + n < b.size() && ((unsigned char)b[i + n] & 0xC0) == 0x80)
            ++n;
        cp.push_back(b.substr(i, n));
        i += n;
    }
    size_t at = cp.empty() ? 0 : flip(1, 3) ? cp.size() - 1 : pick(cp.size());
    switch(pick(8)) {
    case 0:
    case 1: return b;
    case 2: return b + gen_text(3);
    case 3: cp.resize(at); break;
    case 4:
        if(!cp.empty()) cp[at] = letters[pick(14)];
        break;
    case 5: cp.insert(cp.begin() + at, "0"); break;
    case 6:
        if(!cp.empty()) cp.erase(cp.begin() + at);
        break;
    case 7: return gen_text(6) + b;
    }
    S s;
    for(auto &c : cp)
        s += c;
    return s;
}
// Memory that holds the text amid something else (or ends exactly with it).
struct Room {
    char *p, *at;
    Room(const S &s, bool z) {
        S pre = flip(1, 2) ? S() : gen_text(4), post = z ? S(1, 0) + gen_text(3) : flip(1, 2) ? S() : gen_text(4);
        S all = pre + s + post;
        p = (char *)heap_alloc(all.size() ? all.size() : 1, 1);
        memcpy(p, all.data(), all.size());
        at = p + pre.size();
    }
    int users = 1;
    Room(const Room &) = delete;
    ~Room() { heap_free(p); }
};
typedef P::Bytes By;
typedef P::CString Cs;
typedef P::U8String Us;
typedef P::CStringView Cv;
typedef P::U8StringView Uv;
typedef P::FixedCString<80> Fs;
typedef P::Vector<P::CString> Vc;
enum Kind { BYTES, CSTR, U8, CVIEW, FIXED, VEC,
#if EPOCH == 2026
            UVIEW, ZVIEW,
#endif
            KINDS };
const char *const kind_name[] = {"byte buffer", "string", "Unicode string", "view", "fixed string", "vector of strings", "Unicode view", "terminated view"};
struct Thing {
    Kind k = KINDS;
    S ref;
    void *p = nullptr;
    Room *room = nullptr;
    size_t off = 0; // where in the room it begins
};
std::map<S, size_t> hashes; // what each content hashed to in this run
template<typename F> void with(Thing &x, F &&f) {
    switch(x.k) {
    case BYTES: f(*(By *)x.p); break;
    case CSTR: f(*(Cs *)x.p); break;
    case U8: f(*(Us *)x.p); break;
    case CVIEW: f(*(Cv *)x.p); break;
    case FIXED: f(*(Fs *)x.p); break;
    case VEC: f(*(Vc *)x.p); break;
#if EPOCH == 2026
    case UVIEW: f(*(Uv *)x.p); break;
    case ZVIEW: f(*(P::ZStringView *)x.p); break;
#endif
    default: break;
    }
}
void drop(Thing &x) {
    with(x, [](auto &o) { destroy(&o); });
    if(x.room && --x.room->users == 0) delete x.room;
    x = Thing();
}
std::vector<S> pieces(const S &s) { // of a vector of strings
    std::vector<S> v;
    S c;
    for(char ch : s + "|")
        if(ch == '|') {
            v.push_back(c);
            c.clear();
        } else
            c += ch;
    if(s.empty()) v.clear();
    return v;
}
// One way or another an object comes to hold a text.  Throws when memory runs out.
By *make_bytes(const S &t) {
    Room r(t, false);
    const char *a = r.at, *z = r.at + t.size();
    switch(pick(8)) {
    case 0: return make<By>(a, t.size());
    case 1: return make<By>(a, z);
    case 2: { // bit by bit
        By *b = make<By>();
        sut([&] { for(const char *p = a; p < z; ++p) b->append(*p); });
        return b;
    }
    case 3: { // it held more
        By *b = make<By>(a, t.size());
        int n = 1 + pick(40);
        sut([&] {
            for(int i = 0; i < n; ++i)
                b->append('x');
            b->pop_back(n);
        });
        return b;
    }
    case 4: { // it held something else
        S o = gen_text(30);
        Room r2(o, false);
        By *b = make<By>((const char *)r2.at, o.size());
        sut([&] { b->assign(a, t.size()); });
        return b;
    }
    case 5: { // a copy that was moved
        By *b = make<By>(a, t.size());
        By *c = make<By>(*b);
        destroy(b);
        By *d = make<By>(P::move(*c));
        destroy(c);
        return d;
    }
    case 6: { // cut to size
        S more = t + gen_text(10) + "y";
        Room r2(more, false);
        By *b = make<By>((const char *)r2.at, more.size());
        sut([&] { b->resize_to(t.size()); });
        return b;
    }
    default: { // room to spare
        By *b = make<By>(10, 'r');
        sut([&] {
            b->reserve(500);
            b->clear();
            b->append(a, z);
        });
        return b;
    }
    }
}
Cs *make_cs(const S &t) {
    Room r(t, false);
    const char *a = r.at;
    switch(pick(9)) {
    case 0: return make<Cs>(a, t.size());
    case 1: return sut([&] { return make<Cs>(P::CStringView(a, t.size())); });
    case 2: {
        Cs *c = make<Cs>();
        sut([&] { for(size_t i = 0; i < t.size(); ++i) c->append(a[i]); });
        return c;
    }
    case 3: {
        Cs *c = make<Cs>(a, t.size());
        int n = 1 + pick(40);
        sut([&] {
            for(int i = 0; i < n; ++i)
                *c += 'x';
            for(int i = 0; i < n; ++i)
                c->pop_back();
        });
        return c;
    }
    case 4: {
        S o = gen_text(30);
        Room r2(o, true), r3(t, true);
        Cs *c = make<Cs>((const char *)r2.at);
        sut([&] { *c = (const char *)r3.at; });
        return c;
    }
    case 5: {
        Cs *b = make<Cs>(a, t.size());
        Cs *c = make<Cs>();
        sut([&] {
            *c = *b;
            *b = P::move(*c);
        });
        bool first = coin();
        if(first) { // what was moved from is used again
            sut([&] { c->append(a, t.size()); });
            destroy(b);
            return c;
        }
        destroy(c);
        return b;
    }
    case 6: {
        S pre = gen_text(6), post = gen_text(6), all = pre + t + post;
        Room r2(all, false);
        Cs *b = make<Cs>((const char *)r2.at, all.size());
        Cs *c = sut([&] { return make<Cs>(b->substr(pre.size(), t.size())); });
        destroy(b);
        return c;
    }
    case 7: {
        Cs *c = make<Cs>("something there");
        sut([&] {
            c->clear();
            c->append(a, t.size());
        });
        return c;
    }
    default: {
        S more = t + "zz";
        Room r2(more, false);
        Cs *c = make<Cs>((const char *)r2.at, more.size());
        sut([&] { c->resize(t.size()); });
        return c;
    }
    }
}
void build(Thing &x, const S &t) {
    x.ref = t;
    Room *room = nullptr;
    void *p = nullptr;
    switch(x.k) {
    case BYTES: p = make_bytes(t); break;
    case CSTR: p = make_cs(t); break;
    case U8: {
        Room r(t, false);
        switch(pick(5)) {
        case 0: p = make<Us>((const char *)r.at, t.size()); break;
        case 1: p = sut([&] { return make<Us>(P::Bytes((const char *)r.at, t.size())); }); break;
        case 2: {
            Us *u = make<Us>();
            Us *v = make<Us>((const char *)r.at, t.size());
            sut([&] { *u += *v; });
            destroy(v);
            p = u;
            break;
        }
        case 3: {
            Us *u = make<Us>("abc");
            Us *v = make<Us>((const char *)r.at, t.size());
            sut([&] { *u = *v; });
            destroy(v);
            p = u;
            break;
        }
        default: {
            Us *v = make<Us>((const char *)r.at, t.size());
            Us *u = make<Us>("x");
            sut([&] { *u = P::move(*v); });
            destroy(v);
            p = u;
        }
        }
        break;
    }
    case CVIEW:
        if(t.empty() && coin())
            p = make<Cv>();
        else {
            room = new Room(t, false);
            p = coin() ? make<Cv>((const char *)room->at, t.size()) : make<Cv>((const char *)room->at, (const char *)room->at + t.size());
        }
        break;
    case FIXED: {
        Room r(t, true);
        Fs *f = make<Fs>(flip(1, 2) ? "what was here before, and much longer than most" : "");
        if(coin()) {
            sut([&] { *f = P::CStringView((const char *)r.at, t.size()); });
            p = f;
        } else {
            Fs *g = make<Fs>((const char *)r.at, (uint32_t)t.size());
            if(coin())
                sut([&] { *f = *g; });
            else
                sut([&] { *f = P::move(*g); });
            destroy(g);
            p = f;
        }
        break;
    }
    case VEC: {
        Vc *v = make<Vc>();
        int more = pick(3) ? 0 : 1 + pick(20);
        auto ps = pieces(t);
        sut([&] {
            for(auto &s : ps)
                v->push_back(P::CString(s.data(), s.size()));
            for(int i = 0; i < more; ++i)
                v->push_back(P::CString("y"));
            for(int i = 0; i < more; ++i)
                v->pop_back();
        });
        p = v;
        if(coin()) {
            p = make<Vc>(*v);
            destroy(v);
        }
        break;
    }
#if EPOCH == 2026
    case UVIEW:
        if(t.empty() && coin())
            p = make<Uv>();
        else {
            room = new Room(t, false);
            p = make<Uv>((const char *)room->at, t.size());
        }
        break;
    case ZVIEW:
        room = new Room(t, true);
        p = coin() ? make<P::ZStringView>((const char *)room->at) : make<P::ZStringView>((const char *)room->at, t.size());
        break;
#endif
    default: break;
    }
    x.p = p;
    x.room = room;
}
S shown(const S &s) { return show(s.data(), s.size()); }
[[noreturn]] void wrong(const char *op, const Thing &x, const Thing &y, int got) {
    fail("wrong-comparison", "%s \"%s\" %s %s \"%s\" is %d", kind_name[x.k], shown(x.ref).c_str(), op, kind_name[y.k], shown(y.ref).c_str(), got);
}
template<typename A, typename B> void equality(const Thing &x, const Thing &y, A &a, B &b) {
    bool want = x.ref == y.ref;
    bool e = sut([&] { return a == b; });
    if(e != want) wrong("==", x, y, e);
    e = sut([&] { return a != b; });
    if(e == want) wrong("!=", x, y, e);
}
template<typename A> void order(const Thing &x, const Thing &y, A &a, A &b) {
    int want = ref_cmp(x.ref, y.ref);
    bool l = sut([&] { return a < b; });
    if(l != (want < 0)) wrong("<", x, y, l);
    if constexpr(requires { a <=> b; }) {
        int c = sut([&] { return a <=> b; });
        if(sgn(c) != want) wrong("<=>", x, y, c);
        bool g = sut([&] { return a > b; }), le = sut([&] { return a <= b; }), ge = sut([&] { return a >= b; });
        if(g != (want > 0)) wrong(">", x, y, g);
        if(le != (want <= 0)) wrong("<=", x, y, le);
        if(ge != (want >= 0)) wrong(">=", x, y, ge);
    }
}
template<typename A> void against_text(const Thing &x, const Thing &y, A &a) { // with plain text
    if(y.ref.find('\0') != S::npos || x.ref.find('\0') != S::npos) return;
    Room z(y.ref, true);
    bool e = sut([&] { return a == (const char *)z.at; });
    if(e != (x.ref == y.ref)) wrong("== text", x, y, e);
}
void compare(Thing &x, Thing &y) {
    if(x.k == BYTES && y.k == BYTES) {
        equality(x, y, *(const By *)x.p, *(const By *)y.p);
        order(x, y, *(const By *)x.p, *(const By *)y.p);
    } else if(x.k == CSTR && y.k == CSTR) {
        equality(x, y, *(const Cs *)x.p, *(const Cs *)y.p);
        order(x, y, *(const Cs *)x.p, *(const Cs *)y.p);
    } else if(x.k == U8 && y.k == U8) {
        equality(x, y, *(const Us *)x.p, *(const Us *)y.p);
        order(x, y, *(const Us *)x.p, *(const Us *)y.p);
    } else if(x.k == CVIEW && y.k == CVIEW) {
        equality(x, y, *(const Cv *)x.p, *(const Cv *)y.p);
        order(x, y, *(const Cv *)x.p, *(const Cv *)y.p);
    } else if(x.k == VEC && y.k == VEC) {
        equality(x, y, *(const Vc *)x.p, *(const Vc *)y.p);
    } else if(x.k == CSTR && y.k == CVIEW) {
        equality(x, y, *(const Cs *)x.p, *(const Cv *)y.p);
    } else if(x.k == FIXED && y.k == CVIEW) {
        equality(x, y, *(Fs *)x.p, *(const Cv *)y.p);
    }
#if EPOCH == 2026
    else if(x.k == UVIEW && y.k == UVIEW) {
        equality(x, y, *(const Uv *)x.p, *(const Uv *)y.p);
    } else if(x.k == ZVIEW && y.k == ZVIEW) {
        equality(x, y, *(const P::ZStringView *)x.p, *(const P::ZStringView *)y.p);
    }
#endif
    switch(x.k) {
    case CSTR: against_text(x, y, *(const Cs *)x.p); break;
    case U8: against_text(x, y, *(const Us *)x.p); break;
    case CVIEW: against_text(x, y, *(const Cv *)x.p); break;
    case FIXED: against_text(x, y, *(Fs *)x.p); break;
#if EPOCH == 2026
    case UVIEW: against_text(x, y, *(const Uv *)x.p); break;
    case ZVIEW: against_text(x, y, *(const P::ZStringView *)x.p); break;
#endif
    default: break;
    }
}
void hash(Thing &x) {
    S key = x.ref;
    switch(x.k) {
    case BYTES: key = "B" + key; break;
    case CSTR:
    case U8: key = "S" + key; break;
    case CVIEW: key = (EPOCH == 2026 ? "S" : "V") + key; break;
#if EPOCH == 2026
    case UVIEW:
    case ZVIEW: key = "S" + key; break;
#endif
    default: return;
    }
    size_t h = 0;
    with(x, [&](auto &o) {
        if constexpr(requires(P::SimpleHash &s) { o.feed_hash(s); }) h = sut([&] {
            P::Hasher<> hs;
            o.feed_hash(hs);
            return hs.get_hash_value();
        });
    });
    if(x.k == CVIEW && EPOCH == 2025) return;
    auto [it, fresh] = hashes.emplace(key, h);
    SIM_CHECK(it->second == h, "wrong-hash", "%s \"%s\" hashes to %zx, something equal to it hashed to %zx", kind_name[x.k], shown(x.ref).c_str(), h, it->second);
    if(!fresh) probe("hash of something equal");
}
#if EPOCH == 2026
// The order of numbers in text.
struct Token {
    int cls; // 0 end, 1 number, 2 letter
    S v;
};
std::vector<Token> tokens(const S &s) {
    std::vector<Token> r;
    for(size_t i = 0; i < s.size();) {
        if(s[i] >= '0' && s[i] <= '9') {
            size_t b = i;
            while(i < s.size() && s[i] >= '0' && s[i] <= '9')
                ++i;
            while(b < i && s[b] == '0')
                ++b;
            r.push_back({1, s.substr(b, i - b)});
        } else
            r.push_back({2, S(1, s[i++])});
    }
    r.push_back({0, ""});
    return r;
}
bool ascii(const S &s) {
    for(char c : s)
        if((unsigned char)c >= 0x80) return false;
    return true;
}
int ref_natural(const S &a, const S &b) {
    auto x = tokens(a), y = tokens(b);
    for(size_t i = 0;; ++i) {
        if(x[i].cls != y[i].cls) return x[i].cls < y[i].cls ? -1 : 1;
        if(x[i].cls == 0) return 0;
        if(x[i].v.size() != y[i].v.size()) return x[i].v.size() < y[i].v.size() ? -1 : 1;
        if(int c = ref_cmp(x[i].v, y[i].v)) return c;
    }
}
#endif
// A view of part (or all) of the memory another one views.
bool part_of(Thing &x, Thing &y) {
    if(!y.room || flip(1, 2)) return false;
    auto border = [&](size_t at) {
        while(at < y.ref.size() && ((unsigned char)y.ref[at] & 0xC0) == 0x80)
            ++at;
        return at;
    };
    size_t b = flip(1, 2) ? 0 : border(pick(y.ref.size() + 1)), e = flip(1, 3) ? y.ref.size() : border(b + pick(y.ref.size() - b + 1));
    x.k = y.k;
#if EPOCH == 2026
    if(y.k == ZVIEW)
        e = y.ref.size();
    else if(coin())
        x.k = y.k == CVIEW ? UVIEW : CVIEW;
#endif
    x.ref = y.ref.substr(b, e - b);
    x.off = y.off + b;
    char *a = y.room->at + x.off;
    size_t n = x.ref.size();
    x.room = y.room;
    ++y.room->users;
    if(x.k == CVIEW) x.p = y.k == CVIEW && b < y.ref.size() && coin() ? sut([&] { return make<Cv>(((Cv *)y.p)->substr(b, n)); }) : make<Cv>((const char *)a, n);
#if EPOCH == 2026
    if(x.k == UVIEW) x.p = make<Uv>((const char *)a, n);
    if(x.k == ZVIEW) x.p = make<P::ZStringView>((const char *)a, n);
#endif
    probe("views of the same memory");
    return true;
}
void texts(uint32_t den) {
    randomize_heap();
    hashes.clear();
    Thing t[6];
    S base = gen_text(flip(1, 8) ? 60 : 12);
    int steps = 4 + pick(24);
    bool lengthy = flip(1, 40);
    if(lengthy) { // longer than a byte, now and then two bytes, can count
        bool huge = flip(1, 40);
        if(huge) {
            allow_steps(400000000);
            steps = 3 + pick(4);
            probe("texts of more than 65535 bytes");
        }
        size_t n = (huge ? 65536 : coin() ? 256 : 128) - 8 + pick(14);
        base = S(n, "a0 z"[pick(4)]) + base;
    }
    bool same = lengthy ? flip(3, 4) : coin();
    Kind one = (Kind)pick(KINDS);
    for(int q = 0; q < steps; ++q) {
        int i = pick(6);
        auto &x = t[i];
        if(x.p) drop(x);
        if(part_of(x, t[pick(6)])) goto built;
        x.k = same ? one : (Kind)pick(KINDS);
        if(x.k == CVIEW && same && coin()) x.k = coin() ? CSTR : FIXED;
        {
        S want = near(base);
        if(lengthy && flip(1, 3)) { // far shorter than the others, and the same as far as it goes
            size_t n = pick(20);
            while(n < want.size() && ((unsigned char)want[n] & 0xC0) == 0x80)
                ++n;
            want.resize(std::min(n, want.size()));
        }
        if(x.k == VEC)
            for(int n = pick(3); n > 0; --n)
                want += "|" + near(base);
        if(x.k == BYTES && flip(1, 4)) want.insert(pick(want.size() + 1), 1, "\0\xff\x80"[pick(3)]);
        if(x.k == FIXED && want.size() > 80) want = "";
        arm_faults(den);
        bool threw = false;
        try {
            build(x, want);
        } catch(...) {
            threw = true;
        }
        disarm();
        if(threw) {
            SIM_CHECK(op_faults(), "unexpected-exception", "building %s \"%s\" threw", kind_name[x.k], shown(want).c_str());
            finish_ok(); // (what was left behind is decided elsewhere)
        }
        }
    built:
        log("%d is %s \"%s\"", i, kind_name[x.k], shown(x.ref).c_str());
        hash(x);
        for(auto &y : t) {
            if(!y.p) continue;
            compare(x, y);
            if(&y != &x) compare(y, x);
            if(y.k == x.k && y.ref == x.ref && &y != &x) probe("equal objects with different histories");
        }
        hash(t[pick(6)]);
#if EPOCH == 2026
        // views in their natural order
        std::vector<Thing *> v;
        for(auto &y : t)
            if(y.p && y.k == CVIEW) v.push_back(&y);
        auto nat = [&](Thing *a, Thing *b) { return sgn(sut([&] { return ((const Cv *)a->p)->natural_order(*(const Cv *)b->p); })); };
        for(auto *a : v)
            for(auto *b : v) {
                int r = nat(a, b);
                if(r != -nat(b, a)) wrong("natural order (which is not the reverse of the other way round)", *a, *b, r);
                if(ascii(a->ref) && ascii(b->ref) && r != ref_natural(a->ref, b->ref)) wrong("natural order", *a, *b, r);
                for(auto *c : v)
                    if(r <= 0 && nat(b, c) <= 0) {
                        int ac = nat(a, c);
                        if(ac > 0 || (ac == 0 && (r < 0 || nat(b, c) < 0))) wrong("natural order (not transitive)", *a, *c, ac);
                    }
            }
        if(v.size() > 2) probe("natural order of three");
#endif
    }
    nontrivial();
    for(auto &x : t)
        if(x.p) drop(x);
    check_no_leaks("comparing");
}
} // namespace

SIM_SCENARIO(order_texts, 6) { texts(0); }
SIM_SCENARIO(order_faults, 2) { texts(6); }
#if EPOCH == 2026
namespace {
template<typename F, typename U> void floats() {
    static const double at[] = {0.0, -0.0, 1.0, -1.0, 1.5, 1e30, -1e30, 1e-40, -1e-40, 3.0};
    int n = 2 + pick(8);
    F *v = (F *)heap_alloc(n * sizeof(F), alignof(F));
    for(int i = 0; i < n; ++i) {
        F x = (F)at[pick(10)];
        switch(pick(5)) {
        case 0: x = INFINITY; break;
        case 1: x = -INFINITY; break;
        case 2: { // some NaN or other
            U bits;
            x = NAN;
            memcpy(&bits, &x, sizeof(x));
            bits |= pick(1000);
            if(coin()) bits |= (U)1 << (sizeof(U) * 8 - 1);
            memcpy(&x, &bits, sizeof(x));
            break;
        }
        case 3:
            for(int k = pick(3); k > 0; --k)
                x = nextafter(x, coin() ? (F)1e30 : (F)-1e30);
            break;
        }
        memcpy((char *)v + i * sizeof(F), &x, sizeof(F));
    }
    auto rank = [](F a, F b) { // numbers in their order, then NaN
        if(isnan(a) || isnan(b)) return (isnan(a) ? 1 : 0) - (isnan(b) ? 1 : 0);
        return a < b ? -1 : a > b;
    };
    for(int i = 0; i < n; ++i)
        for(int k = 0; k < n; ++k) {
            P::FloatTotalOrderComparator<F> cmp;
            int c = sut([&] { return P::total_order_compare(v[i], v[k]); }), d = sut([&] { return cmp.compare(v[i], v[k]); });
            bool e = sut([&] { return P::total_order_equal(v[i], v[k]); }), f = sut([&] { return cmp.equal(v[i], v[k]); });
            int want = rank(v[i], v[k]);
            SIM_CHECK(sgn(c) == want && sgn(d) == want && e == (want == 0) && f == e, "wrong-comparison", "%g and %g compare as %d (equal: %d), should be %d", (double)v[i], (double)v[k], c, e, want);
        }
    heap_free(v);
}
template<typename T> void integers() {
    T *v = (T *)heap_alloc(6 * sizeof(T), alignof(T));
    std::map<T, size_t> seen;
    P::DefaultComparator<T> cmp;
    for(int i = 0; i < 6; ++i) {
        uint64_t x = (uint64_t)pick(3) << (8 * pick(8));
        v[i] = (T)(coin() ? x : coin() ? ~x : x + pick(3));
        size_t h = sut([&] {
            P::Hasher<> hs;
            hs.feed_hash(v[i]);
            return hs.get_hash_value();
        });
        auto [it, fresh] = seen.emplace(v[i], h);
        SIM_CHECK(it->second == h, "wrong-hash", "equal numbers hash differently");
        for(int k = 0; k < i; ++k) {
            int c = sut([&] { return cmp.compare(v[i], v[k]); });
            bool e = sut([&] { return cmp.equal(v[i], v[k]); });
            int want = v[i] < v[k] ? -1 : v[i] > v[k];
            SIM_CHECK(sgn(c) == want && e == (want == 0), "wrong-comparison", "two numbers compare as %d (equal: %d), should be %d", c, e, want);
        }
    }
    heap_free(v);
}
// Elements whose equality is not that of their bytes.
struct Padded {
    char a;
    int32_t b;
    bool operator==(const Padded &o) const { return a == o.a && b == o.b; }
    bool operator!=(const Padded &o) const { return !(*this == o); }
};
struct Caseless {
    char c;
    bool operator==(const Caseless &o) const { return (c | 32) == (o.c | 32); }
    bool operator!=(const Caseless &o) const { return !(*this == o); }
};
void put_in(Padded *p, uint32_t k) {
    memset((void *)p, pick(256), sizeof(*p));
    p->a = 'a' + k % 2;
    p->b = k / 2;
}
void put_in(Caseless *p, uint32_t k) { p->c = "aAbB"[k % 4]; }
void put_in(double *p, uint32_t k) {
    static const double at[] = {0.0, -0.0, 1.0, -1.0};
    *p = at[k % 4];
}
void put_in(float *p, uint32_t k) {
    static const float at[] = {0.0f, -0.0f, 1.5f, -1.0f};
    *p = at[k % 4];
}
void put_in(uint8_t *p, uint32_t k) { *p = k; }
void put_in(int64_t *p, uint32_t k) { *p = (int64_t)k - 1; }
template<typename T> void vectors_of() {
    typedef P::Vector<T> V;
    V *v[4];
    std::vector<T> ref[4];
    int n = pick(6);
    for(int i = 0; i < 4; ++i) {
        v[i] = make<V>();
        // what lies in the vector's memory before and behind its elements
        for(int k = pick(20); k > 0; --k) {
            T t;
            put_in(&t, pick(4));
            sut([&] { v[i]->push_back(t); });
        }
        if(coin())
            sut([&] { v[i]->clear(); });
        else
            while(!sut([&] { return v[i]->is_empty(); }))
                sut([&] { v[i]->pop_back(); });
        int len = flip(1, 5) ? pick(6) : n;
        for(int k = 0; k < len; ++k) {
            T *t = (T *)heap_alloc(sizeof(T), alignof(T));
            put_in(t, i && (int)ref[0].size() > k && flip(4, 5) ? 0 : pick(4));
            if(i && (int)ref[0].size() > k && flip(4, 5)) // equal to the element of the first, perhaps in another way
                for(int q = 0; q < 20 && !(*t == ref[0][k]); ++q) put_in(t, pick(4));
            ref[i].push_back(*t);
            sut([&] { v[i]->push_back(*t); });
            heap_free(t);
        }
    }
    for(int i = 0; i < 4; ++i)
        for(int k = 0; k < 4; ++k) {
            bool want = ref[i] == ref[k];
            bool e = sut([&] { return *v[i] == *v[k]; }), u = sut([&] { return *v[i] != *v[k]; });
            SIM_CHECK(e == want && u != want, "wrong-equality", "two vectors of %zu and %zu elements are %s equal, but == says %d and != says %d", ref[i].size(), ref[k].size(), want ? "" : "not", e, u);
            if(want && i != k && !ref[i].empty()) probe("equal vectors");
        }
    for(int i = 0; i < 4; ++i)
        destroy(v[i]);
}
} // namespace
SIM_SCENARIO(order_vectors, 1) {
    randomize_heap();
    switch(pick(6)) {
    case 0: vectors_of<Padded>(); break;
    case 1: vectors_of<double>(); break;
    case 2: vectors_of<float>(); break;
    case 3: vectors_of<uint8_t>(); break;
    case 4: vectors_of<int64_t>(); break;
    default: vectors_of<Caseless>(); break;
    }
    check_no_leaks("the vectors");
    nontrivial();
}
SIM_SCENARIO(order_numbers, 1) {
    randomize_heap();
    floats<float, uint32_t>();
    floats<double, uint64_t>();
    integers<uint16_t>();
    integers<int32_t>();
    integers<uint32_t>();
    integers<int64_t>();
    integers<uint64_t>();
    nontrivial();
}
#endif
