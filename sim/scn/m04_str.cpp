// M04: strings and byte buffers hold exactly their history and stay well-formed.
#include "elem.hpp"
#include "case_table.hpp"
#include <stdarg.h>

namespace {
typedef std::string S;
S gen_len_text(bool nul) {
    static const int at[] = {16, 32, 64, 128, 256, 512, 1024};
    size_t n;
    switch(pick(6)) {
    case 0: n = 0; break;
    case 1:
    case 2: n = 1 + pick(6); break;
    case 3: n = pick(40); break;
    default: n = at[pick(flip(1, 4) ? 7 : 5)] - 3 + pick(6); break;
    }
    if(flip(1, 1500)) { // beyond what 16 bits count
        n = 65530 + pick(12);
        allow_steps(4000000000ull);
        probe("text of more than 65535 bytes");
    }
    S s(n, 0);
    uint64_t x = pick(1u << 30) * 2654435761ull + 1;
    int kind = pick(4);
    for(auto &c : s) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        unsigned v = x >> 56;
        c = kind == 0 ? (char)v : kind == 1 ? (char)("ab "[v % 3]) : kind == 2 ? (v < 80 ? " \t\n\r"[v % 4] : (char)('a' + v % 6)) : (char)(v < 20 ? 0x80 + v : '0' + v % 40);
        if((!c || c == '\v' || c == '\f') && !nul) c = 'z'; // whether these are white space is left open
    }
    return s;
}
// Text in memory of exactly its size: looking one byte past it is an error.
struct Block {
    char *p;
    size_t n;
    explicit Block(const S &s) : n(s.size()) {
        auto &f = faults();
        auto save = f.oom_after;
        f.oom_after = -1;
        p = (char *)heap_alloc(n ? n : 1, 1);
        f.oom_after = save;
        memcpy(p, s.data(), n);
    }
    Block(const Block &) = delete;
    ~Block() { heap_free(p); }
};
struct ZBlock : Block {
    explicit ZBlock(const S &s) : Block(s + '\0') { --n; }
};
S show(const S &s) { return sim::show(s.data(), s.size() < 60 ? s.size() : 60) + (s.size() < 60 ? "" : fmt("... (%zu)", s.size())); }
void differ(const char *what, const char *name, const S &got, const S &want) {
    if(got != want) fail("wrong-content", "%s: %s holds \"%s\", should hold \"%s\" (sizes %zu, %zu; first difference at %zu)", what, name, show(got).c_str(), show(want).c_str(), got.size(), want.size(), diff_at(got, want));
}
int sgn(int v) { return v < 0 ? -1 : v > 0; }
int ref_cmp(const S &a, const S &b) {
    int r = memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
    return r ? sgn(r) : a.size() < b.size() ? -1 : a.size() > b.size();
}
bool ref_ws(unsigned char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
// the class of text that says the same about white space whatever the exact set is
bool plain_ws(const S &s) {
    for(char c : s)
        if(c == '\v' || c == '\f') return false;
    return true;
}
std::vector<S> ref_split(const S &s, bool (*sep)(unsigned char, unsigned char), unsigned char by) {
    std::vector<S> r;
    S cur;
    for(char c : s) {
        if(sep(c, by)) {
            if(!cur.empty()) r.push_back(cur);
            cur.clear();
        } else
            cur += c;
    }
    if(!cur.empty()) r.push_back(cur);
    return r;
}
bool sep_ws(unsigned char c, unsigned char) { return ref_ws(c); }
bool sep_c(unsigned char c, unsigned char by) { return c == by; }
// ---- byte buffers --------------------------------------------------------------------------
struct BytesWorld {
    typedef P::Bytes B;
    struct Slot {
        B *b = nullptr;
        S ref;
    };
    Slot s[3];
    void check(const char *what) {
        for(int i = 0; i < 3; ++i) {
            auto &x = s[i];
            if(!x.b) continue;
            size_t n, cap;
            bool e;
            const char *d, *bg, *en;
            {
                Sut u;
                n = x.b->size(), cap = x.b->capacity(), e = x.b->is_empty(), d = x.b->data();
                bg = x.b->begin(), en = x.b->end();
            }
            SIM_CHECK(n == x.ref.size() && e == x.ref.empty(), "wrong-size", "%s: buffer %d has size %zu, should be %zu", what, i, n, x.ref.size());
            SIM_CHECK(cap >= n && bg == d && en == d + n, "wrong-size", "%s: buffer %d reports an impossible capacity or range", what, i);
            if(n) {
                SIM_CHECK(addressable(d, n), "dangling-storage", "%s: the contents of buffer %d are not valid memory", what, i);
                differ(what, fmt("buffer %d", i).c_str(), S(d, n), x.ref);
            }
        }
    }
    // after a refused operation: the old contents or the complete new ones
    void settle(Slot &x, const S &want, const char *what) {
        S got = S(sut([&] { return x.b->data(); }), sut([&] { return x.b->size(); }));
        if(got == x.ref || got == want)
            x.ref = got;
        else
            differ(what, "a buffer after a failed operation", got, x.ref);
    }
    void run(uint32_t den) {
        int n = 4 + pick(50);
        for(int q = 0; q < n; ++q) {
            int i = pick(3), j = pick(3);
            auto &x = s[i];
            auto &y = s[j];
            const char *what = "";
            arm_faults(den);
            if(!x.b) {
                S t = gen_len_text(true);
                Block k(t);
                log("buffer %d from %zu bytes", i, t.size());
                what = "construct";
                try {
                    switch(pick(7)) {
                    case 0: x.b = make<B>(), x.ref = ""; break;
                    case 1: x.b = make<B>((size_t)pick(300)), x.ref = ""; break;
                    case 2: x.b = make<B>((const char *)k.p, k.n), x.ref = t; break;
                    case 3: x.b = make<B>((const char *)k.p, (const char *)k.p + k.n), x.ref = t; break;
                    case 4: {
                        size_t c = pick(200);
                        x.b = make<B>(c, 'q'), x.ref = S(c, 'q');
                        break;
                    }
                    case 5:
                        if(!y.b) break;
                        x.b = make<B>((const B &)*y.b), x.ref = y.ref;
                        break;
                    case 6:
                        if(!y.b) break;
                        x.b = make<B>(P::move(*y.b)), x.ref = y.ref;
                        y.ref = "";
                        probe("moved-from buffer");
                        break;
                    }
                } catch(...) {
                    SIM_CHECK(op_faults(), "unexpected-exception", "constructing a byte buffer threw");
                }
                disarm();
                check(what);
                continue;
            }
            S want = x.ref;
            size_t z = x.ref.size();
            auto done = [&](bool ok) {
                if(ok)
                    x.ref = want;
                else
                    settle(x, want, what);
            };
            switch(pick(24)) {
            case 0: {
                char c = pick(256);
                what = "append a byte";
                log("append byte to %d", i);
                want += c;
                done(attempt(what, [&] { flip(1, 2) ? x.b->append(c) : x.b->push_back(c); }));
                break;
            }
            case 1: {
                S t = gen_len_text(true);
                Block k(t);
                what = "append a range";
                log("append %zu bytes to %d", k.n, i);
                want += t;
                done(attempt(what, [&] { x.b->append(k.p, k.p + k.n); }));
                break;
            }
            case 2: {
                size_t a = pick(z + 1), c = pick(z - a + 1);
                what = "append its own range";
                log("append own %zu..%zu to %d", a, a + c, i);
                want += x.ref.substr(a, c);
                done(attempt(what, [&] { x.b->append(x.b->begin() + a, x.b->begin() + a + c); }));
                if(c) probe("own range appended");
                break;
            }
            case 3:
                if(!y.b) break;
                what = "+=";
                log("buffer %d += %d", i, j);
                want += y.ref;
                done(attempt(what, [&] { *x.b += *y.b; }));
                break;
            case 4: {
                S t = gen_len_text(true);
                Block k(t);
                size_t at = pick(z + 1);
                what = "insert";
                log("insert %zu bytes at %zu of %d", k.n, at, i);
                want.insert(at, t);
                if(at == z) {
                    // at the very end it may be refused
                    disarm();
                    bool threw = false;
                    {
                        Sut u;
                        try {
                            x.b->insert(at, k.p, k.n);
                        } catch(...) {
                            threw = true;
                        }
                    }
                    if(!threw) x.ref = want;
                    break;
                }
                done(attempt(what, [&] { x.b->insert(at, k.p, k.n); }));
                break;
            }
            case 5: {
                if(!z) break;
                size_t a = pick(z), c = pick(z - a + 1), at = pick(z);
                what = "insert its own range";
                log("insert own %zu..%zu at %zu of %d", a, a + c, at, i);
                want.insert(at, x.ref.substr(a, c));
                done(attempt(what, [&] { x.b->insert(at, x.b->data() + a, c); }));
                if(c) probe("own range inserted");
                break;
            }
            case 6: {
                disarm();
                char c = 'x';
                size_t at = z + 1 + pick(5);
                refused("inserting past the end", [&] { x.b->insert(at, &c, 1); });
                break;
            }
            case 7: {
                size_t c = pick(3) ? pick(6) : pick(z + 4);
                what = "remove from the back";
                log("pop_back(%zu) of %d", c, i);
                want.resize(c >= z ? 0 : z - c);
                done(attempt(what, [&] { c == 1 ? x.b->pop_back() : x.b->pop_back(c); }));
                break;
            }
            case 8: {
                size_t c = pick(3) ? pick(6) : pick(z + 4);
                what = "remove from the front";
                log("pop_front(%zu) of %d", c, i);
                want.erase(0, c >= z ? z : c);
                done(attempt(what, [&] { c == 1 ? x.b->pop_front() : x.b->pop_front(c); }));
                break;
            }
            case 9: {
                size_t c = pick(300);
                bool ext = coin();
                what = "extend";
                log("%s %d by %zu", ext ? "extend" : "shrink", i, c);
                if(!ext) {
                    sut([&] { x.b->shrink(c); });
                    x.ref.resize(c >= z ? 0 : z - c);
                    break;
                }
                sut([&] { x.b->extend(c); });
                size_t now = sut([&] { return x.b->size(); });
                SIM_CHECK(now == z + c, "wrong-size", "extend by %zu from %zu gives size %zu", c, z, now);
                sut([&] { memset(x.b->data() + z, 'e', c); });
                x.ref.append(c, 'e');
                break;
            }
            case 10: {
                size_t c = pick(3) ? pick(2 * z + 3) : pick(400);
                what = "resize";
                log("resize %d to %zu", i, c);
                sut([&] { coin() ? x.b->resize_to(c) : x.b->resize(c); });
                size_t now = sut([&] { return x.b->size(); });
                SIM_CHECK(now == c, "wrong-size", "resize to %zu gives size %zu", c, now);
                if(c > z) sut([&] { memset(x.b->data() + z, 'r', c - z); });
                x.ref.resize(c, 'r');
                break;
            }
            case 11: {
                S t = gen_len_text(true);
                Block k(t);
                what = "assign";
                log("assign %zu bytes to %d", k.n, i);
                want = t;
                done(attempt(what, [&] { x.b->assign(k.p, k.n); }));
                break;
            }
            case 12: {
                size_t a = pick(z + 1), c = pick(z - a + 1);
                if(a == z) break;
                what = "assign its own range";
                log("assign own %zu..%zu to %d", a, a + c, i);
                want = x.ref.substr(a, c);
                done(attempt(what, [&] { x.b->assign(x.b->data() + a, c); }));
                probe("own range assigned");
                break;
            }
            case 13: {
                size_t a = pick(z + 1), c = pick(z - a + 1);
                what = "remove a range";
                log("remove %zu..%zu of %d", a, a + c, i);
                want.erase(a, c);
                done(attempt(what, [&] { x.b->remove(a, a + c); }));
                break;
            }
            case 14: {
                disarm();
                size_t a = pick(z + 1);
                refused("removing past the end", [&] { x.b->remove(a, z + 1 + pick(3)); });
                if(a) refused("removing a reversed range", [&] { x.b->remove(a, pick(a)); });
                break;
            }
            case 15:
                if(!y.b) break;
                what = "copy assign";
                log("buffer %d = copy of %d", i, j);
                want = y.ref;
                done(attempt(what, [&] { *x.b = (const B &)*y.b; }));
                break;
            case 16:
                if(!y.b) break;
                what = "move assign";
                log("buffer %d = move of %d", i, j);
                sut([&] { *x.b = P::move(*y.b); });
                if(i != j) {
                    x.ref = y.ref;
                    y.ref = "";
                    probe("moved-from buffer");
                } else
                    probe("self move");
                break;
            case 17: {
                if(!y.b) break;
                what = "compare";
                bool eq, lt;
                int sp = 0;
                {
                    Sut u;
                    const B &a = *x.b, &b = *y.b;
                    eq = a == b;
                    lt = a < b;
#if EPOCH == 2026
                    sp = a <=> b;
#endif
                }
                int r = ref_cmp(x.ref, y.ref);
                SIM_CHECK(eq == (r == 0), "wrong-comparison", "\"%s\" == \"%s\" is %d", show(x.ref).c_str(), show(y.ref).c_str(), eq);
#if EPOCH == 2026
                SIM_CHECK(sgn(sp) == r, "wrong-comparison", "\"%s\" <=> \"%s\" is %d", show(x.ref).c_str(), show(y.ref).c_str(), sp);
#endif
                SIM_CHECK(lt == (r < 0), "wrong-comparison", "\"%s\" < \"%s\" is %d", show(x.ref).c_str(), show(y.ref).c_str(), lt);
                break;
            }
            case 18:
                disarm();
                if(z) {
                    char f, b, c;
                    size_t k = pick(z);
                    {
                        Sut u;
                        f = x.b->front(), b = x.b->back(), c = (*x.b)[k];
                    }
                    SIM_CHECK(f == x.ref[0] && b == x.ref[z - 1] && c == x.ref[k], "wrong-content", "front, back and [%zu] of buffer %d are %02x %02x %02x, should be %02x %02x %02x", k, i, f & 255, b & 255, c & 255, x.ref[0] & 255, x.ref[z - 1] & 255,
                              x.ref[k] & 255);
                } else {
                    refused("the front of an empty buffer", [&] { x.b->front(); });
                    refused("the back of an empty buffer", [&] { x.b->back(); });
                }
                refused("a bad index", [&] { (*x.b)[z + pick(3)]; });
                break;
            case 19:
                if(!flip(1, 3)) break;
                what = "clear";
                log("clear %d", i);
                sut([&] { x.b->clear(); });
                x.ref = "";
                break;
            case 20: {
                size_t c = pick(600);
                what = "reserve";
                log("reserve %zu in %d", c, i);
                if(attempt(what, [&] { x.b->reserve(c); })) {
                    size_t cap = sut([&] { return x.b->capacity(); });
                    SIM_CHECK(cap >= c, "wrong-size", "after reserve(%zu) the capacity is %zu", c, cap);
                }
                break;
            }
            case 21: {
                // what the buffer says about pointers
                bool a = z ? sut([&] { return x.b->is_ptr_within(x.b->data() + pick(z)); }) : true;
                char out = 0;
                bool b = sut([&] { return x.b->is_ptr_within(&out); });
                SIM_CHECK(a && !b, "wrong-answer", "a pointer %s the buffer is said to be %s", a ? "outside" : "into", a ? "inside" : "outside");
#if EPOCH == 2026
                auto sp = sut([&] { return ((const B &)*x.b).span(); });
                SIM_CHECK(sp.size() == z && (!z || sp.begin() == x.b->data()), "wrong-size", "the span of buffer %d is wrong", i);
#else
                auto sp = sut([&] { return x.b->view(); });
                SIM_CHECK(sp.size() == z && (!z || sp.begin() == x.b->data()), "wrong-size", "the view of buffer %d is wrong", i);
#endif
                break;
            }
            case 22:
            case 23:
                what = "destroy";
                log("destroy %d", i);
                destroy(x.b);
                x = Slot{};
                break;
            }
            disarm();
            check(what);
            state((uint64_t)s[0].ref.size() << 40 ^ s[1].ref.size() << 20 ^ s[2].ref.size());
        }
        for(auto &x : s)
            destroy(x.b), x.b = nullptr;
        check_no_leaks("the buffers");
        nontrivial();
    }
};
// ---- views ---------------------------------------------------------------------------------
S str(P::CStringView v) { return v.size() ? S(v.data(), v.size()) : S(); }
struct Natural {
    // a token: number (without leading zeros) or character
    static int cmp(const S &a, const S &b) {
        size_t i = 0, j = 0;
        while(true) {
            if(i == a.size() || j == b.size()) return i == a.size() ? (j == b.size() ? 0 : -1) : 1;
            bool da = isdigit((unsigned char)a[i]), db = isdigit((unsigned char)b[j]);
            if(da && db) {
                S x, y;
                while(i < a.size() && isdigit((unsigned char)a[i]))
                    x += a[i++];
                while(j < b.size() && isdigit((unsigned char)b[j]))
                    y += b[j++];
                x.erase(0, std::min(x.find_first_not_of('0'), x.size()));
                y.erase(0, std::min(y.find_first_not_of('0'), y.size()));
                if(x.size() != y.size()) return x.size() < y.size() ? -1 : 1;
                if(x != y) return x < y ? -1 : 1;
            } else if(da || db)
                return da ? -1 : 1;
            else {
                if(a[i] != b[j]) return a[i] < b[j] ? -1 : 1;
                ++i, ++j;
            }
        }
    }
};
struct Pieces {
    std::vector<S> got;
    size_t stop = (size_t)-1;
};
bool collect(const P::CStringView &v, void *ctx) {
    return host([&] {
        auto *p = (Pieces *)ctx;
        p->got.push_back(str(v));
        if(p->got.size() > 200000) fail("endless-split", "splitting does not end");
        return p->got.size() < p->stop;
    });
}
void check_pieces(const char *what, const S &text, const Pieces &p, std::vector<S> want) {
    if(want.size() > p.stop) want.resize(p.stop);
    if(p.got != want) {
        S a, b;
        for(auto &x : p.got)
            a += "[" + show(x) + "]";
        for(auto &x : want)
            b += "[" + show(x) + "]";
        fail("wrong-pieces", "%s of \"%s\" gives %s, should give %s", what, show(text).c_str(), a.c_str(), b.c_str());
    }
}
// Every question a view answers, about text that nothing follows.
void views(int rounds) {
    typedef P::CStringView V;
    for(int q = 0; q < rounds; ++q) {
        S t = gen_len_text(false), o;
        switch(pick(5)) {
        case 0: o = gen_len_text(false); break;
        case 1: o = t.substr(0, pick(t.size() + 1)); break;
        case 2: o = t.empty() ? t : t.substr(pick(t.size())); break;
        case 3:
            o = t;
            if(!o.empty()) o[pick(o.size())] ^= 1 << pick(3);
            if(o.find('\0') != o.npos) o = t;
            break;
        case 4: {
            size_t a = pick(t.size() + 1);
            o = t.substr(a, pick(t.size() - a + 1));
            break;
        }
        }
        Block tb(t), ob(o);
        ZBlock oz(o);
        ZBlock tz(t);
        int how = pick(6);
        if(how == 4 && !t.empty() && (t.find('\0') != t.npos)) how = 0;
        P::CString *owner = how == 4 ? make<P::CString>((const char *)tz.p) : nullptr;
        struct Own {
            P::CString *c;
            ~Own() { destroy(c); }
        } own{owner};
        V v = sut([&] {
            switch(how) {
            case 0: return V((const char *)tb.p, tb.n);
            case 1: return V((const char *)tb.p, (const char *)tb.p + tb.n);
            case 2: return t.find('\0') == t.npos ? V((const char *)tz.p, (size_t)-1) : V((const char *)tb.p, tb.n);
            case 3: return t.find('\0') == t.npos ? V((const char *)tz.p) : V((const char *)tb.p, tb.n);
            case 4: return V(*owner);
            default: {
                V other((const char *)tb.p, tb.n), copy;
                copy = other;
                return copy;
            }
            }
        });
        if(flip(1, 16)) {
            V none = sut([&] { return coin() ? V((const char *)nullptr, (size_t)-1) : V(); });
            SIM_CHECK(none.is_empty() && none.size() == 0, "wrong-size", "a view of nothing has %zu bytes", none.size());
            if(t.size()) {
                const char *a = tb.p + 1 + pick(t.size()), *b = tb.p;
                refused("a view of a reversed range", [&] { V x(a, b); });
                refused("a buffer from a reversed range", [&] { P::Bytes x(a, b); });
            }
        }
        V w = sut([&] { return V((const char *)ob.p, ob.n); });
        log("views \"%s\" and \"%s\"", show(t).c_str(), show(o).c_str());
        size_t n = t.size();
        SIM_CHECK(v.size() == n && v.is_empty() == t.empty(), "wrong-size", "a view of %zu bytes has size %zu", n, v.size());
        struct {
            bool eqz, eqv, sw, swz, lt;
            size_t f, fc;
            char c;
        } g;
        char needle = t.empty() || flip(1, 4) ? 'Q' : t[pick(n)];
        {
            Sut u;
            g.eqz = v == (const char *)oz.p;
            g.eqv = v == w;
            g.sw = v.starts_with(w);
            g.swz = v.starts_with((const char *)oz.p);
            g.lt = v < w;
            g.f = v.find(w);
            g.fc = v.find(needle);
        }
        bool st = t.compare(0, o.size(), o) == 0;
        auto bad = [&](const char *question, long got, long want) {
            fail("wrong-answer", "%s of \"%s\" and \"%s\" (or %02x) is %ld, should be %ld", question, show(t).c_str(), show(o).c_str(), needle & 255, got, want);
        };
        if(g.eqz != (t == o)) bad("== with text", g.eqz, t == o);
        if(g.eqv != (t == o)) bad("== with a view", g.eqv, t == o);
        if(g.sw != st) bad("starts_with a view", g.sw, st);
        if(g.swz != st) bad("starts_with text", g.swz, st);
        if(g.f != t.find(o)) bad("find", (long)g.f, (long)t.find(o));
        if(g.fc != t.find(needle)) bad("find a character", (long)g.fc, (long)t.find(needle));
        if(g.lt != (ref_cmp(t, o) < 0)) bad("<", g.lt, ref_cmp(t, o) < 0);
        // slices
        {
            size_t pos = pick(n + 1), cnt = pick(4) == 0 ? (size_t)-1 - pick(4) : pick(n + 3);
            bool threw = false;
            V r;
            {
                Sut u;
                try {
                    r = v.substr(pos, cnt);
                } catch(...) {
                    threw = true;
                }
            }
            S want = t.substr(pos, cnt);
            if(threw)
                SIM_CHECK(EPOCH == 2025 && pos == n, "refused-wrongly", "the slice %zu+%zu of %zu bytes was refused", pos, cnt, n);
            else
                differ("slice", "the slice", str(r), want);
            refused("a slice that begins past the end", [&] { v.substr(n + 1 + pick(3), cnt); });
        }
        if(n) {
            size_t k = pick(n);
            char a, b, c, f;
            {
                Sut u;
                a = v[k], b = v.at(k), f = v.front();
                c = *(v.begin() + k);
            }
            SIM_CHECK(a == t[k] && b == t[k] && c == t[k] && f == t[0], "wrong-content", "[%zu] of the view is wrong", k);
        } else {
            bool right = false;
            {
                Sut u;
                try {
                    v.front();
                } catch(const P::PyException &) {
                    right = true;
                } catch(...) {
                }
            }
            SIM_CHECK(right, "not-refused", "the first character of nothing was not refused with the library's exception");
        }
        refused("a bad index", [&] { v[n + pick(3)]; });
        // overlap: clearly overlapping or clearly apart
        {
            bool a, b, c = true;
            {
                Sut u;
                a = v.overlaps(w);
                V x = v;
                b = n ? v.overlaps(x) : true;
                if(n > 2) {
                    V l((const char *)tb.p, n / 2), r((const char *)tb.p + n / 2 + 1, n - n / 2 - 1), m((const char *)tb.p + n / 2 - 1, 2);
                    c = !l.overlaps(r) && !r.overlaps(l) && l.overlaps(m) && m.overlaps(l);
                }
            }
            if(n && o.size()) SIM_CHECK(!a && b && c, "wrong-answer", "overlap of views: apart %d, same %d, parts %d", a, b, c);
        }
        if(flip(1, 3)) {
            P::CString *up, *lo;
            {
                Sut u;
                up = new P::CString(v.upper());
                lo = new P::CString(v.lower());
            }
            S wu = t, wl = t;
            for(auto &c : wu)
                if(c >= 'a' && c <= 'z') c -= 32;
            for(auto &c : wl)
                if(c >= 'A' && c <= 'Z') c += 32;
            differ("upper", "the result", S(up->c_str(), up->size()), wu);
            differ("lower", "the result", S(lo->c_str(), lo->size()), wl);
            sut([&] { delete up; delete lo; });
        }
#if EPOCH == 2026
        {
            Pieces p;
            if(flip(1, 3)) p.stop = 1 + pick(3);
            sut([&] { v.split(collect, &p); });
            check_pieces("white space splitting", t, p, ref_split(t, sep_ws, 0));
        }
        {
            // digits and letters
            auto g2 = [&] {
                S r;
                int k = pick(7);
                for(int x = 0; x < k; ++x)
                    r += pick(3) ? S(1, "ab01290"[pick(7)]) : pick(3) ? fmt("%d", (int)pick(300)) : S(18 + pick(4), "09"[pick(2)]) + fmt("%d", (int)pick(10));
                if(flip(1, 5)) r += " +-"[pick(3)];
                return r;
            };
            S a = g2(), b = flip(1, 3) ? a + g2() : g2(), c = g2();
            Block ab(a), bb(b), cb(c);
            int x, y, z, ac, bc;
            {
                Sut u;
                V va((const char *)ab.p, ab.n), vb((const char *)bb.p, bb.n), vc((const char *)cb.p, cb.n);
                x = va.natural_order(vb);
                y = vb.natural_order(va);
                z = va.natural_order(va);
                ac = va.natural_order(vc);
                bc = vb.natural_order(vc);
            }
            log("natural order of \"%s\", \"%s\", \"%s\"", a.c_str(), b.c_str(), c.c_str());
            SIM_CHECK(sgn(x) == Natural::cmp(a, b) && sgn(y) == -sgn(x) && z == 0, "wrong-comparison", "natural order of \"%s\" and \"%s\" is %d (reversed %d, with itself %d), should be %d", a.c_str(), b.c_str(), x, y, z, Natural::cmp(a, b));
            if(x <= 0 && bc <= 0) SIM_CHECK(ac <= 0, "wrong-comparison", "natural order is not transitive");
        }
        {
            P::ZStringView z1 = sut([&] { return coin() ? P::ZStringView((const char *)oz.p) : P::ZStringView((const char *)oz.p, oz.n); });
            SIM_CHECK(z1.size() == o.size() && z1.c_str() == oz.p, "wrong-size", "a terminated view of %zu characters has size %zu", o.size(), z1.size());
            size_t at = pick(o.size() + 1);
            P::ZStringView z2 = sut([&] { return z1.subview(at); });
            differ("right half", "the view", S(z2.c_str(), z2.size()), o.substr(at));
            bool e = sut([&] { return z2 == (const char *)(oz.p + at) && z2 == z2; });
            SIM_CHECK(e, "wrong-answer", "a terminated view does not equal its own text");
            refused("a right half from past the end", [&] { z1.subview(o.size() + 1 + pick(3)); });
        }
#else
        {
            P::BytesView bv = sut([&] { return P::BytesView(tb.p, tb.n); });
            size_t pos = pick(n + 1), cnt = pick(n - pos + 1);
            auto r = sut([&] { return bv.subview(pos, cnt); });
            auto r2 = sut([&] { return bv.subview(pos); });
            differ("subview", "the view", S(r.data(), r.size()), t.substr(pos, cnt));
            differ("subview", "the view", S(r2.data(), r2.size()), t.substr(pos));
            refused("a subview past the end", [&] { bv.subview(pos, n - pos + 1 + pick(3)); });
            refused("a subview past the end", [&] { bv.subview(n + 1 + pick(3)); });
            refused("a subview past the end", [&] { bv.subview(1 + pick(5), (size_t)-2 - pick(3)); });
            refused("a bad index", [&] { bv[n + pick(3)]; });
        }
#endif
        {
            // spans
            P::Span<char> sp = sut([&] { return P::Span<char>(tb.p, tb.n); });
            size_t pos = pick(n + 1), cnt = pick(n - pos + 1);
            bool threw = false;
            P::Span<char> r;
            {
                Sut u;
                try {
                    r = cnt == n - pos && coin() ? sp.subspan(pos) : sp.subspan(pos, cnt);
                } catch(...) {
                    threw = true;
                }
            }
            if(threw)
                SIM_CHECK(EPOCH == 2025 && pos == n, "refused-wrongly", "the subspan %zu+%zu of %zu was refused", pos, cnt, n);
            else
                SIM_CHECK(r.size() == cnt && (cnt == 0 || r.begin() == tb.p + pos), "wrong-size", "the subspan %zu+%zu of %zu has size %zu", pos, cnt, n, r.size());
            refused("a subspan past the end", [&] { sp.subspan(pos, n - pos + 1 + pick(3)); });
            refused("a subspan past the end", [&] { sp.subspan(1 + pick(3), (size_t)-2 - pick(2)); });
            refused("a bad index", [&] { sp[n + pick(3)]; });
        }
        nontrivial();
    }
}
// ---- C strings -----------------------------------------------------------------------------
struct CWorld {
    typedef P::CString C;
    struct Slot {
        C *c = nullptr;
        S ref;
    };
    Slot s[3];
    void look(const C *c, const S &ref, const char *what, const char *name) {
        size_t n;
        const char *d;
        bool e;
        P::CStringView v;
        char last;
        {
            Sut u;
            n = c->size();
            d = c->c_str();
            e = c->is_empty();
            v = c->view();
            last = (*c)[n];
        }
        SIM_CHECK(n == ref.size() && e == ref.empty() && sut([&] { return c->length(); }) == n, "wrong-size", "%s: %s has size %zu, should be %zu", what, name, n, ref.size());
        SIM_CHECK(addressable(d, n + 1), "dangling-storage", "%s: the contents of %s with its terminator are not valid memory", what, name);
        SIM_CHECK(d[n] == 0 && last == 0, "not-terminated", "%s: %s is not terminated after its %zu characters", what, name, n);
        differ(what, name, S(d, n), ref);
        differ(what, name, str(v), ref);
        SIM_CHECK(sut([&] { return c->data(); }) == d, "wrong-content", "%s: data() and c_str() disagree", what);
#if EPOCH == 2026
        auto z = sut([&] { return c->zview(); });
        SIM_CHECK(z.size() == n && S(z.c_str()) == ref, "wrong-size", "%s: the terminated view of %s has size %zu, should be %zu", what, name, z.size(), n);
#endif
    }
    void check(const char *what) {
        for(int i = 0; i < 3; ++i)
            if(s[i].c) look(s[i].c, s[i].ref, what, fmt("string %d", i).c_str());
    }
    void settle(Slot &x, const S &want, const char *what) {
        S got = S(sut([&] { return x.c->c_str(); }), sut([&] { return x.c->size(); }));
        if(got == x.ref || got == want)
            x.ref = got;
        else
            differ(what, "a string after a failed operation", got, x.ref);
    }
    void run(uint32_t den) {
        int n = 4 + pick(50);
        for(int q = 0; q < n; ++q) {
            int i = pick(3), j = pick(3);
            auto &x = s[i];
            auto &y = s[j];
            const char *what = "";
            S t = gen_len_text(false);
            Block k(t);
            ZBlock kz(t);
            arm_faults(den);
            if(!x.c) {
                what = "construct";
                log("string %d from %zu characters", i, t.size());
                try {
                    switch(pick(8)) {
                    case 0: x.c = make<C>(), x.ref = ""; break;
                    case 1: x.c = make<C>((const char *)kz.p), x.ref = t; break;
                    case 2: x.c = make<C>((const char *)k.p, k.n), x.ref = t; break;
                    case 3: {
                        P::CStringView v((const char *)k.p, k.n);
                        x.c = make<C>(v), x.ref = t;
                        break;
                    }
                    case 4: {
                        auto *b = make<P::Bytes>((const char *)k.p, k.n);
                        if(op_faults()) {
                            disarm();
                            destroy(b);
                            break;
                        }
                        x.c = make<C>(P::move(*b)), x.ref = t;
                        disarm();
                        destroy(b);
                        break;
                    }
                    case 5:
                        if(!y.c) break;
                        x.c = make<C>((const C &)*y.c), x.ref = y.ref;
                        break;
                    case 6:
                        if(!y.c) break;
                        x.c = make<C>(P::move(*y.c)), x.ref = y.ref, y.ref = "";
                        probe("moved-from string");
                        break;
                    case 7: {
                        // embedded zero bytes are refused
                        disarm();
                        S bad = t;
                        bad.insert(pick(t.size() + 1), 1, '\0');
                        Block bb(bad);
                        refused("a C string with a zero byte inside", [&] { C c((const char *)bb.p, bb.n); });
                        refused("a C string with a zero byte inside", [&] { C c(P::Bytes((const char *)bb.p, bb.n)); });
                        break;
                    }
                    }
                } catch(...) {
                    SIM_CHECK(op_faults(), "unexpected-exception", "constructing a C string threw");
                }
                disarm();
                check(what);
                continue;
            }
            S want = x.ref;
            size_t z = x.ref.size();
            auto done = [&](bool ok) {
                if(ok)
                    x.ref = want;
                else
                    settle(x, want, what);
            };
            switch(pick(30)) {
            case 0: {
                char c = 1 + pick(255);
                if(c == '\v' || c == '\f') c = 'v';
                what = "append a character";
                log("append %02x to %d", c & 255, i);
                want += c;
                int how = pick(3);
                done(attempt(what, [&] { how == 0 ? x.c->append(c) : how == 1 ? x.c->push_back(c) : (void)(*x.c += c); }));
                break;
            }
            case 1: {
                disarm();
                int how = pick(3);
                refused("appending a zero byte", [&] { how == 0 ? x.c->append('\0') : how == 1 ? x.c->push_back('\0') : (void)(*x.c += '\0'); });
                break;
            }
            case 2: {
                what = "append text";
                log("append %zu to %d", t.size(), i);
                want += t;
                int how = pick(5);
                done(attempt(what, [&] {
                    switch(how) {
                    case 0: x.c->append((const char *)kz.p); break;
                    case 1: x.c->append((const char *)k.p, k.n); break;
                    case 2: x.c->append((const char *)k.p, (const char *)k.p + k.n); break;
                    case 3: *x.c += (const char *)kz.p; break;
                    case 4: *x.c += P::CString((const char *)k.p, k.n); break;
                    }
                }));
                break;
            }
            case 3: {
                disarm();
                S bad = t;
                bad.insert(pick(t.size() + 1), 1, '\0');
                Block bb(bad);
                log("append text with a zero byte to %d", i);
                refused("appending text with a zero byte", [&] { x.c->append((const char *)bb.p, bb.n); });
                break;
            }
            case 4:
            case 5: {
                // its own contents
                size_t a = pick(z + 1), c = pick(z - a + 1);
                int how = pick(3);
                what = "append its own contents";
                log("append own %zu..%zu to %d (%d)", a, a + c, i, how);
                want += how == 0 ? x.ref.substr(a) : x.ref.substr(a, c);
                done(attempt(what, [&] {
                    switch(how) {
                    case 0: coin() ? (void)(*x.c += x.c->c_str() + a) : x.c->append(x.c->c_str() + a); break;
                    case 1: x.c->append(x.c->c_str() + a, c); break;
                    case 2: x.c->append(x.c->c_str() + a, x.c->c_str() + a + c); break;
                    }
                }));
                probe("own text appended");
                break;
            }
            case 6:
            case 7:
                if(!y.c) break;
                what = "+=";
                log("string %d += %d", i, j);
                want += y.ref;
                done(attempt(what, [&] { *x.c += *y.c; }));
                if(i == j) probe("string appended to itself");
                break;
            case 8:
            case 9: {
                size_t at = pick(z + 1);
                what = "insert";
                log("insert %zu at %zu of %d", t.size(), at, i);
                want.insert(at, t);
                done(attempt(what, [&] { x.c->insert(at, P::CStringView((const char *)k.p, k.n)); }));
                break;
            }
            case 10: {
                size_t a = pick(z + 1), c = pick(z - a + 1), at = pick(z + 1);
                what = "insert its own contents";
                log("insert own %zu..%zu at %zu of %d", a, a + c, at, i);
                want.insert(at, x.ref.substr(a, c));
                done(attempt(what, [&] { x.c->insert(at, P::CStringView(x.c->c_str() + a, c)); }));
                probe("own text inserted");
                break;
            }
            case 11: {
                disarm();
                size_t at = z + 1 + pick(4);
                log("insert at %zu of %d", at, i);
                refused("inserting past the end", [&] { x.c->insert(at, P::CStringView("ab", 2)); });
                break;
            }
            case 12: {
                size_t a = pick(z + 1), c = pick(z - a + 1);
                what = "remove a range";
                log("remove %zu..%zu of %d", a, a + c, i);
                want.erase(a, c);
                done(attempt(what, [&] { x.c->remove(a, a + c); }));
                break;
            }
            case 13: {
                disarm();
                size_t a = pick(z + 1);
                log("remove %zu.. past the end of %d", a, i);
                refused("removing past the end", [&] { x.c->remove(a, z + 1 + pick(3)); });
                if(a) refused("removing a reversed range", [&] { x.c->remove(a, pick(a)); });
                break;
            }
            case 14: {
                if(!plain_ws(x.ref)) break;
                what = "strip";
                log("strip %d", i);
                while(!want.empty() && ref_ws(want.back()))
                    want.pop_back();
                while(!want.empty() && ref_ws(want[0]))
                    want.erase(0, 1);
                if(want.size() != z) probe("white space stripped");
                done(attempt(what, [&] { x.c->strip(); }));
                break;
            }
            case 15: {
                size_t a = pick(z + 1), c = pick(3) == 0 ? (size_t)-1 : pick(z + 3);
                what = "substring";
                C *r = nullptr;
                log("substring %zu+%zd of %d", a, (ssize_t)c, i);
                bool over = c != (size_t)-1 && c > z - a;
                if(over) disarm();
                bool threw = false;
                {
                    Sut u;
                    try {
                        r = new C(x.c->substr(a, c));
                    } catch(...) {
                        threw = true;
                    }
                }
                if(threw)
                    SIM_CHECK(over || op_faults() || a == z, "refused-wrongly", "the substring %zu+%zu of %zu characters was refused", a, c, z);
                else
                    look(r, x.ref.substr(a, c), what, "the substring");
                sut([&] { delete r; });
                disarm();
                refused("a substring from past the end", [&] { x.c->substr(z + 1 + pick(3), c); });
                break;
            }
            case 16:
                what = "clear";
                if(!flip(1, 2)) break;
                log("clear %d", i);
                sut([&] { x.c->clear(); });
                x.ref = "";
                probe("cleared");
                break;
            case 17:
                what = "pop_back";
                log("pop_back of %d", i);
                if(z) want.pop_back();
                sut([&] { x.c->pop_back(); });
                x.ref = want;
                break;
            case 18: {
                size_t c = pick(2) ? pick(z + 1) : pick(300);
                what = "resize";
                log("resize %d to %zu", i, c);
                sut([&] {
                    x.c->resize(c);
                    if(c > z && x.c->size() == c) memset(x.c->mutable_data() + z, 'r', c - z);
                });
                x.ref.resize(c, 'r');
                break;
            }
            case 19:
                what = "reserve";
                sut([&] { x.c->reserve(pick(500)); });
                break;
            case 20:
                if(!y.c) break;
                what = "copy assign";
                log("string %d = copy of %d", i, j);
                want = y.ref;
                done(attempt(what, [&] { *x.c = (const C &)*y.c; }));
                break;
            case 21:
                if(!y.c) break;
                what = "move assign";
                log("string %d = move of %d", i, j);
                sut([&] { *x.c = P::move(*y.c); });
                if(i != j) {
                    x.ref = y.ref;
                    y.ref = "";
                    probe("moved-from string");
                }
                break;
            case 22: {
                what = "assign text";
                bool own = coin();
                size_t a = pick(z + 1);
                log("string %d = %s", i, own ? "part of itself" : "text");
                want = own ? x.ref.substr(a) : t;
                done(attempt(what, [&] { *x.c = own ? x.c->c_str() + a : (const char *)kz.p; }));
                break;
            }
            case 23: {
                if(!y.c) break;
                what = "compare";
                bool eq, lt, ez, ev, fz;
                size_t h1, h2;
                {
                    Sut u;
                    const C &a = *x.c, &b = *y.c;
                    eq = a == b;
                    lt = a < b;
                    ez = a == b.c_str();
                    ev = a == b.view();
                    fz = a == (const char *)kz.p;
                    P::SimpleHash ha, hb;
                    a.feed_hash(ha), b.feed_hash(hb);
                    h1 = ha.get_hash_value(), h2 = hb.get_hash_value();
                }
                int r = ref_cmp(x.ref, y.ref);
                SIM_CHECK(eq == (r == 0) && ez == eq && ev == eq && fz == (x.ref == t), "wrong-comparison", "\"%s\" == \"%s\" is %d (text %d, view %d)", show(x.ref).c_str(), show(y.ref).c_str(), eq, ez, ev);
                SIM_CHECK(!eq || h1 == h2, "wrong-hash", "equal strings \"%s\" have different hashes", show(x.ref).c_str());
                SIM_CHECK(lt == (r < 0), "wrong-comparison", "\"%s\" < \"%s\" is %d", show(x.ref).c_str(), show(y.ref).c_str(), lt);
#if EPOCH == 2026
                int sp = sut([&] { return *x.c <=> *y.c; });
                SIM_CHECK(sgn(sp) == r, "wrong-comparison", "\"%s\" <=> \"%s\" is %d", show(x.ref).c_str(), show(y.ref).c_str(), sp);
#endif
                break;
            }
            case 24: {
                disarm();
                if(z) {
                    size_t e = pick(z);
                    char f, b, c;
                    size_t rf, rq, fs;
                    S sub = x.ref.substr(e, pick(4));
                    Block sb(sub);
                    {
                        Sut u;
                        f = x.c->front(), b = x.c->back(), c = (*x.c)[e];
                        rf = x.c->rfind(x.ref[e]);
                        rq = x.c->rfind('Q');
                        fs = x.c->find(P::CStringView((const char *)sb.p, sb.n));
                    }
                    SIM_CHECK(f == x.ref[0] && b == x.ref[z - 1] && c == x.ref[e], "wrong-content", "front, back or [%zu] of string %d is wrong", e, i);
                    SIM_CHECK(rf == x.ref.rfind(x.ref[e]) && rq == x.ref.rfind('Q') && fs == x.ref.find(sub), "wrong-answer", "finding in \"%s\": last %02x at %zd, \"%s\" at %zd", show(x.ref).c_str(), x.ref[e] & 255, (ssize_t)rf, show(sub).c_str(), (ssize_t)fs);
                } else {
                    refused("the last character of nothing", [&] { x.c->back(); });
                    size_t rf = sut([&] { return x.c->rfind('a'); });
                    SIM_CHECK(rf == (size_t)-1, "wrong-answer", "a character was found in an empty string");
                }
                refused("a bad index", [&] { (*x.c)[z + 1 + pick(300)]; });
                break;
            }
            case 25: {
                what = "split";
                Pieces p;
                if(flip(1, 3)) p.stop = 1 + pick(3);
                log("split %d", i);
                disarm();
                if(coin()) {
                    sut([&] { x.c->split(collect, &p); });
                    check_pieces("white space splitting", x.ref, p, ref_split(x.ref, sep_ws, 0));
                } else {
                    char by = z && pick(4) ? x.ref[pick(z)] : 'a';
                    sut([&] { x.c->split_by(by, collect, &p); });
                    check_pieces("splitting", x.ref, p, ref_split(x.ref, sep_c, by));
                }
                probe("split");
                break;
            }
            case 26: {
                what = "split into strings";
                log("split %d into strings", i);
                char by = z && pick(4) ? x.ref[pick(z)] : 'a';
                bool ws = coin();
                P::Vector<C> *r = nullptr;
                if(!attempt(what, [&] { r = new P::Vector<C>(ws ? x.c->template split<C>() : x.c->template split_by<C>(by)); })) break;
                disarm();
                Pieces p;
                for(size_t e = 0; e < r->size(); ++e)
                    p.got.push_back(S((*r)[e].c_str(), (*r)[e].size()));
                check_pieces("splitting", x.ref, p, ref_split(x.ref, ws ? sep_ws : sep_c, by));
                sut([&] { delete r; });
                break;
            }
            case 27: {
                what = "case";
                log("case of %d", i);
                bool up = coin();
                C *r = nullptr;
                if(!attempt(what, [&] { r = new C(up ? x.c->upper() : x.c->lower()); })) break;
                disarm();
                S w = x.ref;
                for(auto &c : w)
                    if(up && c >= 'a' && c <= 'z')
                        c -= 32;
                    else if(!up && c >= 'A' && c <= 'Z')
                        c += 32;
                look(r, w, what, "the result");
                sut([&] { delete r; });
                break;
            }
            case 28: {
                what = "format";
                log("format %zu", t.size());
                C *r = nullptr;
                int num = (int)pick(100000) - 50000;
                S text = t;
                if(flip(1, 3)) text += S(900 + pick(2000), 'f');
                ZBlock tz(text);
                if(!attempt(what, [&] { r = new C(P::cformat("<%s|%d>", (const char *)tz.p, num)); })) break;
                disarm();
                look(r, "<" + text + fmt("|%d>", num), what, "the result");
                if(text.size() > 1020) probe("more than a kilobyte formatted");
                sut([&] {
                    P::format_append(*x.c, "%s%c", (const char *)tz.p, 'k');
                    delete r;
                });
                x.ref += text + 'k';
                break;
            }
            case 29:
                what = "destroy";
                log("destroy %d", i);
                destroy(x.c);
                x = Slot{};
                break;
            }
            disarm();
            check(what);
            state((uint64_t)s[0].ref.size() << 40 ^ s[1].ref.size() << 20 ^ s[2].ref.size());
        }
        for(auto &x : s)
            destroy(x.c), x.c = nullptr;
        check_no_leaks("the strings");
        nontrivial();
    }
};
// ---- fixed size strings --------------------------------------------------------------------
template<size_t N> struct FixedWorld {
    typedef P::FixedCString<N> F;
    typedef P::FixedCString<N + 20> G;
    F *f[2];
    S ref[2];
    void check(const char *what) {
        for(int i = 0; i < 2; ++i) {
            size_t n;
            const char *d;
            bool e;
            P::CStringView v;
            {
                Sut u;
                n = f[i]->size(), d = f[i]->c_str(), e = f[i]->is_empty(), v = f[i]->view();
            }
            SIM_CHECK(n == ref[i].size() && e == ref[i].empty() && v.size() == n, "wrong-size", "%s: fixed string %d has size %zu, should be %zu", what, i, n, ref[i].size());
            SIM_CHECK(d[n] == 0, "not-terminated", "%s: fixed string %d is not terminated after its %zu characters", what, i, n);
            differ(what, "a fixed string", S(d, n), ref[i]);
        }
    }
    void run() {
        f[0] = make<F>(), f[1] = make<F>();
        int rounds = 5 + pick(30);
        for(int q = 0; q < rounds; ++q) {
            int i = pick(2), j = 1 - i;
            S t;
            int len = N > 100 && coin() ? N - 6 + pick(10) : pick(N + 4);
            if(len > 1000)
                for(uint32_t x = 0, y = pick(1u << 30); x < (uint32_t)len; ++x)
                    t += (char)('a' + ((y = y * 1103515245 + 12345) >> 16) % 26);
            else
                for(int x = 0; x < len; ++x)
                    t += (char)('a' + pick(26));
            Block k(t);
            ZBlock kz(t);
            const char *what = "";
            bool fits = t.size() <= N;
            auto put = [&](auto &&op) {
                if(fits) {
                    sut(op);
                    ref[i] = t;
                } else {
                    refused("text longer than a fixed string", op);
                    probe("too long for a fixed string");
                }
            };
            log("fixed %d: %zu characters", i, t.size());
            op_begin();
            switch(pick(12)) {
            case 0: what = "assign a view", put([&] { *f[i] = P::CStringView((const char *)k.p, k.n); }); break;
            case 1:
                what = "construct with a length";
                put([&] { *f[i] = F((const char *)k.p, (uint32_t)k.n); });
                break;
            case 2:
                what = "construct from text";
                put([&] { *f[i] = F((const char *)kz.p); });
                break;
            case 3:
                what = "assign from another size";
                put([&] {
                    G g((const char *)kz.p);
                    *f[i] = g;
                });
                break;
            case 4: what = "copy assign", sut([&] { *f[i] = (const F &)*f[j]; }), ref[i] = ref[j]; break;
            case 5: what = "move assign", sut([&] { *f[i] = P::move(*f[j]); }), ref[i] = ref[j], ref[j] = ""; break;
            case 6: what = "self assign", sut([&] { *f[i] = (const F &)*f[i]; *f[i] = P::move(*f[i]); }); break;
            case 7: {
                what = "assign part of itself";
                size_t a = pick(ref[i].size() + 1), c = pick(ref[i].size() - a + 1);
                bool threw = false;
                {
                    Sut u;
                    try {
                        *f[i] = P::CStringView(f[i]->c_str() + a, c);
                    } catch(...) {
                        threw = true;
                    }
                }
                if(!threw) ref[i] = ref[i].substr(a, c);
                break;
            }
            case 8:
                what = "pop_back";
                sut([&] { f[i]->pop_back(); });
                if(!ref[i].empty()) ref[i].pop_back();
                break;
            case 9: {
                what = "compare";
                bool a, b, c;
                {
                    Sut u;
                    a = *f[i] == (const char *)kz.p;
                    b = *f[i] == P::CStringView((const char *)k.p, k.n);
                    c = *f[i] == f[i]->c_str() && *f[i] == f[i]->view();
                }
                SIM_CHECK(a == (ref[i] == t) && b == a && c, "wrong-comparison", "a fixed string with \"%s\" compares %d %d with \"%s\", %d with itself", ref[i].c_str(), a, b, t.c_str(), c);
                break;
            }
            case 10: {
                what = "index";
                size_t z = ref[i].size();
                const F &c = *f[i];
                if(z) {
                    size_t e = pick(z);
                    char a = sut([&] { return (*f[i])[e]; }), b = sut([&] { return c[e]; });
                    SIM_CHECK(a == ref[i][e] && b == a, "wrong-content", "[%zu] of a fixed string is wrong", e);
                    sut([&] { (*f[i])[e] = 'W'; });
                    ref[i][e] = 'W';
                }
                refused("a bad index", [&] { (*f[i])[z + 1 + pick(20)]; });
                refused("a bad index", [&] { c[z + 1 + pick(20)]; });
                break;
            }
            case 11: {
                what = "copy and move construct";
                disarm();
                F *a = make<F>((const F &)*f[i]);
                differ(what, "the copy", S(a->c_str(), a->size()), ref[i]);
                F *b = make<F>(P::move(*a));
                differ(what, "the moved copy", S(b->c_str(), b->size()), ref[i]);
                differ(what, "the moved-from copy", S(a->c_str(), a->size()), "");
                destroy(a), destroy(b);
                break;
            }
            }
            check(what);
        }
        destroy(f[0]), destroy(f[1]);
        nontrivial();
    }
};
// ---- Unicode strings -----------------------------------------------------------------------
#if EPOCH == 2025
typedef P::ValidatedU8Iterator UIt;
inline UIt vb(const P::U8StringView &v) { return v.start; }
inline UIt ve(const P::U8StringView &v) { return v.end; }
#else
typedef P::ValidU8Iterator UIt;
inline UIt vb(const P::U8StringView &v) { return v.begin(); }
inline UIt ve(const P::U8StringView &v) { return v.end(); }
#endif
std::vector<uint32_t> ref_cps(const S &s) {
    std::vector<uint32_t> r;
    for(size_t i = 0; i < s.size();) {
        unsigned c = (unsigned char)s[i];
        int k = c < 0x80 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3;
        uint32_t v = k == 0 ? c : c & (0x3F >> k);
        for(int x = 1; x <= k; ++x)
            v = v << 6 | ((unsigned char)s[i + x] & 63);
        r.push_back(v);
        i += k + 1;
    }
    return r;
}
// byte offsets at which a character begins, with the end
std::vector<size_t> bounds(const S &s) {
    std::vector<size_t> r;
    for(size_t i = 0; i <= s.size(); ++i)
        if(i == s.size() || ((unsigned char)s[i] & 0xC0) != 0x80) r.push_back(i);
    return r;
}
S ref_case(const S &s, bool up) {
    static std::map<uint32_t, const CaseRow *> maps[2];
    if(maps[0].empty()) {
        for(auto &r : ref_lower)
            maps[0][r.cp] = &r;
        for(auto &r : ref_upper)
            maps[1][r.cp] = &r;
    }
    S o;
    for(uint32_t c : ref_cps(s)) {
        if(c < 0x80) {
            o += up && c >= 'a' && c <= 'z' ? (char)(c - 32) : !up && c >= 'A' && c <= 'Z' ? (char)(c + 32) : (char)c;
            continue;
        }
        auto it = maps[up].find(c);
        if(it == maps[up].end()) {
            put_cp(o, c);
            continue;
        }
        for(uint32_t x : it->second->to)
            if(x) put_cp(o, x);
    }
    return o;
}
uint32_t gen_cased() {
    constexpr size_t nu = sizeof ref_upper / sizeof *ref_upper, nl = sizeof ref_lower / sizeof *ref_lower;
    switch(pick(3)) {
    case 0: return ref_upper[pick(nu)].cp;
    case 1: return ref_lower[pick(nl)].cp;
    default: return gen_cp();
    }
}
S gen_u8() {
    S s;
    int n = pick(3) == 0 ? pick(60) : pick(9);
    bool cased = flip(1, 3);
    if(flip(1, 1500)) { // beyond what 16 bits count
        S unit;
        for(int i = 0; i < 40; ++i) {
            uint32_t c = cased ? gen_cased() : gen_cp();
            put_cp(unit, c ? c : 'x');
        }
        size_t want = 65530 + pick(12);
        while(s.size() + unit.size() <= want)
            s += unit;
        s.append(want - s.size(), 'y');
        allow_steps(4000000000ull);
        probe("text of more than 65535 bytes");
        return s;
    }
    for(int i = 0; i < n; ++i) {
        uint32_t c = cased ? gen_cased() : gen_cp();
        put_cp(s, c ? c : 'x');
    }
    return s;
}
bool split_comma(uint32_t c) { return c == ',' || c == 0x20AC; }
struct UPieces {
    std::vector<S> got;
    size_t stop = (size_t)-1;
};
S str(const P::U8StringView &v) {
    auto r = sut([&] { return v.raw_view(); });
    return str(r);
}
bool collect_u8(const P::U8StringView &v, void *ctx) {
    return host([&] {
        auto *p = (UPieces *)ctx;
        p->got.push_back(str(v));
        if(p->got.size() > 200000) fail("endless-split", "splitting does not end");
        return p->got.size() < p->stop;
    });
}
struct UWorld {
    typedef P::U8String U;
    struct Slot {
        U *u = nullptr;
        S ref;
    };
    Slot s[3];
    void look(const U *x, const S &ref, const char *what, const char *name) {
        size_t n;
        const char *d;
        bool e;
        {
            Sut u;
            n = x->size_bytes(), d = x->c_str(), e = x->is_empty();
        }
        SIM_CHECK(n == ref.size() && e == ref.empty(), "wrong-size", "%s: %s has size %zu, should be %zu", what, name, n, ref.size());
        SIM_CHECK(addressable(d, n + 1), "dangling-storage", "%s: the contents of %s are not valid memory", what, name);
        SIM_CHECK(d[n] == 0, "not-terminated", "%s: %s is not terminated after its %zu bytes", what, name, n);
        SIM_CHECK(ref_valid_utf8(S(d, n)), "not-unicode", "%s: %s is not valid UTF-8: \"%s\"", what, name, show(S(d, n)).c_str());
        differ(what, name, S(d, n), ref);
    }
    void check(const char *what) {
        for(int i = 0; i < 3; ++i)
            if(s[i].u) look(s[i].u, s[i].ref, what, fmt("text %d", i).c_str());
    }
    void settle(Slot &x, const S &want, const char *what) {
        S got = S(sut([&] { return x.u->c_str(); }), sut([&] { return x.u->size_bytes(); }));
        if(got == x.ref || got == want)
            x.ref = got;
        else
            differ(what, "a text after a failed operation", got, x.ref);
    }
    UIt at(const U *u, size_t chars) {
        Sut g;
        UIt it = u->cbegin();
        for(size_t k = 0; k < chars; ++k)
            ++it;
        return it;
    }
    P::U8StringView range(const U *u, size_t a, size_t b) {
        UIt x = at(u, a), y = at(u, b);
        Sut g;
        return P::U8StringView{x, y};
    }
    void walk(const Slot &x) {
        auto cps = ref_cps(x.ref);
        std::vector<uint32_t> fwd, bwd, rev;
        int style = pick(3);
        {
            Sut u;
            for(auto it = x.u->cbegin(); it != x.u->cend();) {
                uint32_t c;
                if(style == 0) {
                    c = *it;
                    ++it;
                } else if(style == 1) {
                    auto old = it++;
                    c = *old;
                } else {
                    *it;
                    c = *it;
                    it++;
                }
                host([&] {
                    fwd.push_back(c);
                    if(fwd.size() > cps.size() + 10) fail("wrong-characters", "iterating a text does not end");
                });
            }
            auto it = x.u->cend();
            while(it != x.u->cbegin()) {
                --it;
                uint32_t c = *it;
                host([&] {
                    bwd.insert(bwd.begin(), c);
                    if(bwd.size() > cps.size() + 10) fail("wrong-characters", "iterating a text backwards does not end");
                });
            }
            for(auto r = x.u->crbegin(); r != x.u->crend();) {
                uint32_t c;
                if(style == 1) {
                    auto old = r++;
                    c = *old;
                } else {
                    c = *r;
                    ++r;
                }
                host([&] {
                    rev.insert(rev.begin(), c);
                    if(rev.size() > cps.size() + 10) fail("wrong-characters", "iterating a text in reverse does not end");
                });
            }
        }
        SIM_CHECK(fwd == cps && bwd == cps && rev == cps, "wrong-characters", "the characters of \"%s\" are not seen right (forward %s, back %s, reverse %s)", show(x.ref).c_str(), fwd == cps ? "right" : "wrong", bwd == cps ? "right" : "wrong",
                  rev == cps ? "right" : "wrong");
    }
    void run(uint32_t den) {
        int n = 4 + pick(45);
        for(int q = 0; q < n; ++q) {
            int i = pick(3), j = pick(3);
            auto &x = s[i];
            auto &y = s[j];
            const char *what = "";
            S t = gen_u8();
            S bad = t;
            corrupt(bad);
            Block k(t);
            ZBlock kz(t);
            arm_faults(den);
            if(!x.u) {
                what = "construct";
                log("text %d from \"%s\"", i, show(t).c_str());
                try {
                    switch(pick(8)) {
                    case 0: x.u = make<U>(), x.ref = ""; break;
                    case 1: x.u = make<U>((const char *)kz.p), x.ref = t; break;
                    case 2: x.u = make<U>((const char *)k.p, k.n), x.ref = t; break;
                    case 3: {
                        disarm();
                        auto *b = make<P::Bytes>((const char *)k.p, k.n);
                        op_begin();
                        x.u = make<U>(P::move(*b)), x.ref = t;
                        destroy(b);
                        break;
                    }
                    case 4:
                        if(!y.u) break;
                        x.u = make<U>((const U &)*y.u), x.ref = y.ref;
                        break;
                    case 5:
                        if(!y.u) break;
                        x.u = make<U>(P::move(*y.u)), x.ref = y.ref, y.ref = "";
                        probe("moved-from text");
                        break;
                    case 6: {
                        if(!y.u) break;
                        auto b = bounds(y.ref);
                        size_t a = pick(b.size()), e = a + pick(b.size() - a);
                        auto v = range(y.u, a, e);
                        S w = y.ref.substr(b[a], b[e] - b[a]);
                        if(EPOCH == 2025 && w.empty()) break; // empty views are refused there
                        x.u = make<U>(v), x.ref = w;
                        break;
                    }
                    case 7: {
                        disarm();
                        if(bad.find('\0') != bad.npos) break;
                        Block bb(bad);
                        ZBlock bz(bad);
                        if(ref_valid_utf8(bad)) break;
                        refused("invalid UTF-8", [&] { U u((const char *)bb.p, bb.n); });
                        refused("invalid UTF-8", [&] { U u((const char *)bz.p); });
                        refused("invalid UTF-8", [&] { U u(P::Bytes((const char *)bb.p, bb.n)); });
#if EPOCH == 2026
                        refused("invalid UTF-8", [&] { P::U8StringView v((const char *)bb.p, bb.n); });
#endif
                        break;
                    }
                    }
                } catch(...) {
                    SIM_CHECK(op_faults(), "unexpected-exception", "constructing a text threw");
                }
                disarm();
                check(what);
                continue;
            }
            S want = x.ref;
            size_t z = x.ref.size();
            auto bd = bounds(x.ref);
            auto done = [&](bool ok) {
                if(ok)
                    x.ref = want;
                else
                    settle(x, want, what);
            };
            switch(pick(24)) {
            case 0:
            case 1: {
                uint32_t c = gen_cased();
                if(!c) c = 'x';
                what = "append a character";
                log("append U+%04X to %d", c, i);
                put_cp(want, c);
                done(attempt(what, [&] { x.u->append_codepoint(c); }));
                break;
            }
            case 2: {
                disarm();
                static const uint32_t no[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x7FFFFFFF, 0xFFFFFFFF, 0xD9AB};
                uint32_t c = no[pick(8)];
                log("append U+%04X to %d", c, i);
                refused("a code point that is not a character", [&] { x.u->append_codepoint(c); });
                break;
            }
            case 3:
            case 4:
                if(!y.u) break;
                what = "+=";
                log("text %d += %d", i, j);
                want += y.ref;
                done(attempt(what, [&] { *x.u += *y.u; }));
                break;
            case 5:
            case 6: {
                // a view of another text, or of itself
                if(!y.u) break;
                auto by = bounds(y.ref);
                size_t a = pick(by.size()), e = a + pick(by.size() - a), p = pick(bd.size());
                what = "insert";
                log("insert characters %zu..%zu of %d at %zu of %d", a, e, j, p, i);
                want.insert(bd[p], y.ref.substr(by[a], by[e] - by[a]));
                auto v = range(y.u, a, e);
                auto pos = at(x.u, p);
                done(attempt(what, [&] { x.u->insert(pos, v); }));
                if(i == j) probe("own text inserted");
                break;
            }
            case 7: {
                size_t a = pick(bd.size()), e = a + pick(bd.size() - a);
                what = "remove";
                log("remove characters %zu..%zu of %d", a, e, i);
                want.erase(bd[a], bd[e] - bd[a]);
                auto v = range(x.u, a, e);
                done(attempt(what, [&] { x.u->remove(v); }));
                break;
            }
            case 8: {
                if(!y.u || i == j || y.ref.empty()) break;
                disarm();
                auto by = bounds(y.ref);
                auto v = range(y.u, pick(by.size() - 1), by.size() - 1);
                log("remove a view of %d from %d", j, i);
#if EPOCH == 2026
                if(by.size() > 1) {
                    auto a = sut([&] { return y.u->cbegin(); });
                    auto b = sut([&] { return y.u->cend(); });
                    refused("a view of a reversed range", [&] { P::U8StringView x(b, a); });
                }
#endif
                refused("removing what is not part of the text", [&] { x.u->remove(v); });
                break;
            }
            case 9: {
                what = "pop";
                bool front = coin();
                log("pop_%s of %d", front ? "front" : "back", i);
                if(z) front ? want.erase(0, bd[1]) : want.erase(bd[bd.size() - 2]);
                sut([&] { front ? x.u->pop_front() : x.u->pop_back(); });
                x.ref = want;
                break;
            }
            case 10: {
                what = "substring";
                size_t a = flip(1, 4) ? pick(z + 1) : bd[pick(bd.size())], c = flip(1, 4) ? pick(z + 4) : bd[pick(bd.size())];
                if(flip(1, 8)) c = (size_t)-1;
                S w = x.ref.substr(a, c);
                bool fine = ref_valid_utf8(w), over = c != (size_t)-1 && c > z - a;
                log("substring %zu+%zd of %d", a, (ssize_t)c, i);
                if(!fine || over) disarm();
                U *r = nullptr;
                bool threw = false;
                {
                    Sut u;
                    try {
                        r = new U(x.u->substr(a, c));
                    } catch(...) {
                        threw = true;
                    }
                }
                disarm();
                if(threw)
                    SIM_CHECK(!fine || over || op_faults() || a == z, "refused-wrongly", "the substring %zu+%zu of \"%s\" was refused", a, c, show(x.ref).c_str());
                else {
                    SIM_CHECK(fine, "not-refused", "the substring %zu+%zu of \"%s\" splits a character", a, c, show(x.ref).c_str());
                    look(r, w, what, "the substring");
                }
                sut([&] { delete r; });
                refused("a substring from past the end", [&] { x.u->substr(z + 1 + pick(3), 1 + pick(3)); });
                break;
            }
            case 11:
            case 12: walk(x), what = "walk"; break;
            case 13:
            case 14: {
                bool up = coin();
                what = "case";
                log("%s of %d", up ? "upper" : "lower", i);
                U *r = nullptr;
                if(!attempt(what, [&] { r = new U(up ? x.u->upper() : x.u->lower()); })) break;
                disarm();
                look(r, ref_case(x.ref, up), up ? "upper" : "lower", "the result");
                sut([&] { delete r; });
                break;
            }
            case 15: {
                what = "split";
                UPieces p;
                if(flip(1, 3)) p.stop = 1 + pick(3);
                log("split %d", i);
                disarm();
                std::vector<S> w;
                S cur;
                for(uint32_t c : ref_cps(x.ref)) {
                    if(split_comma(c)) {
                        if(!cur.empty()) w.push_back(cur);
                        cur.clear();
                    } else
                        put_cp(cur, c);
                }
                if(!cur.empty()) w.push_back(cur);
                if(w.size() > p.stop) w.resize(p.stop);
                sut([&] { x.u->split(collect_u8, split_comma, &p); });
                SIM_CHECK(p.got == w, "wrong-pieces", "splitting \"%s\" gives %zu pieces, should give %zu, or they differ", show(x.ref).c_str(), p.got.size(), w.size());
                break;
            }
            case 16: {
                if(!plain_ws(x.ref)) break;
                what = "split into texts";
                log("split %d into texts", i);
                auto w = ref_split(x.ref, sep_ws, 0);
                P::Vector<U> *r = nullptr;
                if(!attempt(what, [&] { r = new P::Vector<U>(x.u->template split_ascii<U>()); })) break;
                disarm();
                std::vector<S> got;
                for(size_t e = 0; e < r->size(); ++e)
                    got.push_back(S((*r)[e].c_str(), (*r)[e].size_bytes()));
                SIM_CHECK(got == w, "wrong-pieces", "splitting \"%s\" gives %zu pieces, should give %zu, or they differ", show(x.ref).c_str(), got.size(), w.size());
                // and joined again
                U *sep = make<U>(", ");
                U *jn = nullptr;
                {
                    Sut u;
                    jn = new U(sep->join(*r));
                }
                S wj;
                for(size_t e = 0; e < w.size(); ++e)
                    wj += (e ? ", " : "") + w[e];
                look(jn, wj, "join", "the result");
                sut([&] { delete jn; });
                destroy(sep);
                sut([&] { delete r; });
#if EPOCH == 2026
                std::vector<S> lazy;
                {
                    Sut u;
                    auto v = x.u->view();
                    auto cl = v.split_ascii();
                    while(true) {
                        auto o = cl.next();
                        if(!o) break;
                        host([&] {
                            lazy.push_back(str(*o));
                            if(lazy.size() > w.size() + 10) fail("endless-split", "lazy splitting does not end");
                        });
                    }
                }
                SIM_CHECK(lazy == w, "wrong-pieces", "lazily splitting \"%s\" gives %zu pieces, should give %zu, or they differ", show(x.ref).c_str(), lazy.size(), w.size());
#endif
                probe("split");
                break;
            }
            case 17:
                if(!y.u) break;
                what = "copy assign";
                log("text %d = copy of %d", i, j);
                want = y.ref;
                done(attempt(what, [&] { *x.u = (const U &)*y.u; }));
                break;
            case 18:
                if(!y.u) break;
                what = "move assign";
                log("text %d = move of %d", i, j);
                sut([&] { *x.u = P::move(*y.u); });
                if(i != j) {
                    x.ref = y.ref;
                    y.ref = "";
                    probe("moved-from text");
                }
                break;
#if EPOCH == 2026
            case 19: {
                if(!y.u) break;
                auto by = bounds(y.ref);
                size_t a = pick(by.size()), e = a + pick(by.size() - a);
                what = "assign a view";
                log("text %d = characters %zu..%zu of %d", i, a, e, j);
                want = y.ref.substr(by[a], by[e] - by[a]);
                auto v = range(y.u, a, e);
                done(attempt(what, [&] { *x.u = v; }));
                break;
            }
#endif
            case 20: {
                if(!y.u) break;
                what = "compare";
                bool eq, lt, ez, vz, vy = true;
                size_t h1, h2;
                {
                    Sut u;
                    const U &a = *x.u, &b = *y.u;
                    eq = a == b;
                    lt = a < b;
                    ez = a == b.c_str();
                    vz = a.view() == b.c_str();
#if EPOCH == 2026
                    vy = (a.view() == b.view()) == eq;
#endif
                    P::SimpleHash ha, hb;
                    a.feed_hash(ha), b.feed_hash(hb);
                    h1 = ha.get_hash_value(), h2 = hb.get_hash_value();
                }
                bool we = x.ref == y.ref;
                SIM_CHECK(eq == we && ez == we && vz == we && vy, "wrong-comparison", "\"%s\" == \"%s\" is %d (text %d, view %d)", show(x.ref).c_str(), show(y.ref).c_str(), eq, ez, vz);
                SIM_CHECK(!eq || h1 == h2, "wrong-hash", "equal texts have different hashes");
                SIM_CHECK(lt == (ref_cmp(x.ref, y.ref) < 0), "wrong-comparison", "\"%s\" < \"%s\" is %d", show(x.ref).c_str(), show(y.ref).c_str(), lt);
                break;
            }
            case 21: {
                if(!y.u || y.ref.empty()) break;
                auto by = bounds(y.ref);
                size_t a = pick(by.size() - 1), e = a + 1 + pick(by.size() - 1 - a);
                auto v = range(y.u, a, e);
                bool c = sut([&] { return x.u->contains(v); }), o = sut([&] { return x.u->overlaps(v); });
                SIM_CHECK(c == (i == j) && o == (i == j), "wrong-answer", "a view of %s text is said to be%s part of it and%s to overlap it", i == j ? "the same" : "another", c ? "" : " no", o ? "" : " not");
                break;
            }
            case 22: {
                auto v = sut([&] { return x.u->view(); });
                differ("view", "the view", str(v), x.ref);
                size_t vn = sut([&] { return v.size_bytes(); });
                SIM_CHECK(vn == z, "wrong-size", "the view of %zu bytes has size %zu", z, vn);
                break;
            }
            case 23:
                what = "destroy";
                log("destroy %d", i);
                destroy(x.u);
                x = Slot{};
                break;
            }
            disarm();
            check(what);
            state((uint64_t)s[0].ref.size() << 40 ^ s[1].ref.size() << 20 ^ s[2].ref.size());
        }
        for(auto &x : s)
            destroy(x.u), x.u = nullptr;
        check_no_leaks("the texts");
        nontrivial();
    }
};
} // namespace

SIM_SCENARIO(bytes_history, 4) {
    randomize_heap();
    BytesWorld().run(0);
}
SIM_SCENARIO(bytes_history_faults, 1) {
    randomize_heap();
    BytesWorld().run(3 + pick(20));
}
SIM_SCENARIO(cstring_history, 5) {
    randomize_heap();
    CWorld().run(0);
}
SIM_SCENARIO(cstring_history_faults, 1) {
    randomize_heap();
    CWorld().run(3 + pick(20));
}
SIM_SCENARIO(string_views, 3) {
    randomize_heap();
    views(1 + pick(6));
}
SIM_SCENARIO(fixed_string, 2) {
    randomize_heap();
    switch(pick(30)) {
    default: FixedWorld<11>().run(); break;
    case 0:
    case 1: FixedWorld<255>().run(); break;
    case 2:
    case 3: FixedWorld<256>().run(); break;
    case 4:
    case 5: FixedWorld<300>().run(); break;
    case 6:
        allow_steps(4000000000ull);
        probe("fixed strings of more than 65535 bytes");
        FixedWorld<65536>().run();
    }
}
SIM_SCENARIO(unicode_history, 6) {
    randomize_heap();
    UWorld().run(0);
}
SIM_SCENARIO(unicode_history_faults, 1) {
    randomize_heap();
    UWorld().run(3 + pick(20));
}
