// P01: paths keep their components through any history.
#include "elem.hpp"

namespace {
typedef std::string S;
S gen_part() {
    static const char *const common[] = {"a", "b", "dir", "file.txt", "archive.tar.gz", "noext", "with space", "x.y.z", "v1.2", "d.d", "...x", "\xC3\xA4.t\xC3\xB6", "a.", "a..b", "-"};
    switch(pick(8)) {
    case 0: return S(1 + pick(4), 'a' + pick(3));
    case 1: return fmt("n%u.e%u", pick(5), pick(5));
    case 2: return S(10 + pick(12), 'p') + (coin() ? ".ext" : ""); // around the growth of small buffers
    case 3: return S(pick(flip(1, 8) ? 600 : 40), 'l') + "." + S(pick(30), 'e');
    case 4: return flip(1, 4) ? (coin() ? "." : "..") : fmt(".h%u", pick(9));
    default: return common[pick(15)];
    }
}
S gen_path() {
    S s;
    int n = pick(5);
    if(flip(1, 250)) n = coin() ? 240 + pick(40) : 60 + pick(10); // many components
    if(n > 40) {
        probe("dozens of components");
        allow_steps(400000000);
    }
    if(flip(1, 600)) { // longer than 16 bits count
        s = S(coin() ? 65536 - 8 + pick(10) : 65536 + pick(9000), 'L') + (coin() ? "." : "/");
        probe("a path longer than 16 bits count");
        allow_steps(400000000);
    }
    if(s.empty() && flip(1, 4)) s += S(1 + (flip(1, 5) ? pick(3) : 0), '/');
    for(int i = 0; i < n; ++i) {
        s += gen_part();
        if(i + 1 < n || flip(1, 4)) s += S(1 + (flip(1, 6) ? pick(3) : 0), '/');
    }
    return s;
}
S norm(S s) { // a path does not end in a slash, only the root does
    while(s.size() > 1 && s.back() == '/')
        s.pop_back();
    return s;
}
S ref_name(const S &s) {
    size_t k = s.rfind('/');
    return k == s.npos ? s : s.substr(k + 1);
}
// Whether a leading dot begins an extension is left open.
bool open_name(const S &n) { return !n.empty() && n.find_first_not_of('.') == n.npos ? true : n.size() && n[0] == '.' && n.rfind('.') == 0; }
S ref_ext(const S &s) {
    S n = ref_name(s);
    size_t k = n.rfind('.');
    return k == n.npos ? "" : n.substr(k);
}
S ref_join(const S &a, const S &b) {
    if(a.empty() || (!b.empty() && b[0] == '/')) return b;
    return norm(a + (a.back() == '/' ? "" : "/") + b);
}
std::vector<S> ref_parts(const S &s) {
    std::vector<S> v;
    S cur;
    for(char c : s + "/")
        if(c == '/') {
            if(!cur.empty()) v.push_back(cur);
            cur.clear();
        } else
            cur += c;
    return v;
}
S shown(const S &s) { return sim::show(s.data(), std::min<size_t>(s.size(), 80)); }
struct PathWorld {
    typedef P::Path T;
    struct Slot {
        T *p = nullptr;
        S ref;
    } s[3];
    static S text(const T &p) {
        const char *c;
        size_t n;
        bool e;
        {
            Sut u;
            c = p.c_str(), n = p.size(), e = p.is_empty();
        }
        SIM_CHECK(c && addressable(c, n + 1), "dangling-storage", "the text of a path is not valid memory");
        SIM_CHECK(strlen(c) == n && e == (n == 0), "wrong-size", "a path of %zu characters says it has %zu and is%s empty", strlen(c), n, e ? "" : " not");
        return S(c, n);
    }
    void expect(const T &p, const S &want, const char *what) {
        S got = text(p);
        SIM_CHECK(got == want, "wrong-content", "%s: the path is \"%s\", should be \"%s\"", what, shown(got).c_str(), shown(want).c_str());
    }
    void check(const char *what) {
        for(auto &x : s)
            if(x.p) expect(*x.p, x.ref, what);
    }
    void settle(Slot &x, const S &want, const char *what) {
        disarm();
        S got = text(*x.p);
        SIM_CHECK(got == x.ref || got == want, "half-done", "%s failed and left \"%s\", neither the old \"%s\" nor the new \"%s\"", what, shown(got).c_str(), shown(x.ref).c_str(), shown(want).c_str());
        x.ref = got;
    }
    void run(uint32_t den) {
        randomize_heap();
        int n = 3 + pick(40);
        for(int q = 0; q < n; ++q) {
            auto &x = s[pick(3)];
            auto &y = s[pick(3)];
            const char *what = "";
            arm_faults(den);
            if(!x.p) {
                S t = gen_path();
                what = "construct";
                log("path from \"%s\"", shown(t).c_str());
                try {
                    switch(pick(5)) {
                    case 0:
                        x.p = make<T>();
                        x.ref = "";
                        break;
                    case 1:
                        if(!y.p) break;
                        x.p = make<T>((const T &)*y.p);
                        x.ref = y.ref;
                        break;
                    case 2:
                        if(!y.p) break;
                        x.p = make<T>(P::move(*y.p));
                        x.ref = y.ref;
                        y.ref = "";
                        break;
                    case 3: {
                        Sut u;
                        P::CString c(t.c_str());
                        T *p = make<T>(P::move(c));
                        x.p = p;
                        host([&] { x.ref = norm(t); });
                        break;
                    }
                    default:
                        x.p = make<T>(t.c_str());
                        x.ref = norm(t);
                    }
                } catch(...) {
                    SIM_CHECK(op_faults(), "unexpected-exception", "constructing a path threw");
                    x.p = nullptr;
                }
                disarm();
                check(what);
                continue;
            }
            switch(pick(15)) {
            case 0:
            case 1:
            case 2: {
                what = "join";
                S t = gen_path();
                int how = y.p ? pick(4) : 1 + pick(2);
                if(how == 0 || how == 3) t = y.ref;
                S want = ref_join(x.ref, norm(t));
                log("\"%s\" / \"%s\"", shown(x.ref).c_str(), shown(t).c_str());
                bool put = coin();
                attempt(what, [&] {
                    T r = how == 1 ? *x.p / t.c_str() : how == 2 ? *x.p / P::CString(t.c_str()) : *x.p / *y.p;
                    host([&] { expect(r, want, what); });
                    if(put) {
                        *x.p = P::move(r);
                        host([&] { x.ref = want; });
                    }
                });
                probe("joined");
                break;
            }
            case 3:
            case 4: {
                what = "extension";
                S want = ref_ext(x.ref);
                log("extension of \"%s\"", shown(x.ref).c_str());
                S got;
                if(attempt(what, [&] {
                       P::CString e = x.p->extension();
                       host([&] { got = S(e.c_str(), e.size()); });
                   }))
                    SIM_CHECK(got == want || (open_name(ref_name(x.ref)) && got.empty()), "wrong-part", "the extension of \"%s\" is given as \"%s\"", shown(x.ref).c_str(), shown(got).c_str());
                if(want.empty() && x.ref.find('.') != S::npos) probe("a dot, but not in the last part");
                break;
            }
            case 5:
            case 6: {
                what = "filename";
                S want = ref_name(x.ref);
                log("filename of \"%s\"", shown(x.ref).c_str());
                bool put = flip(1, 4);
                attempt(what, [&] {
                    T f = x.p->filename();
                    host([&] { expect(f, want, what); });
                    if(put) {
                        *x.p = P::move(f);
                        host([&] { x.ref = want; });
                    }
                });
                break;
            }
            case 7:
            case 8: {
                what = "split";
                auto want = ref_parts(x.ref);
                log("split \"%s\"", shown(x.ref).c_str());
                std::vector<S> got;
                if(attempt(what, [&] {
                       auto v = x.p->split();
                       for(auto &e : v)
                           host([&] { got.push_back(S(e.c_str(), e.size())); });
                   }))
                    SIM_CHECK(got == want, "wrong-part", "\"%s\" is split into %zu parts, has %zu", shown(x.ref).c_str(), got.size(), want.size());
                // putting the parts together again gives the same place
                if(got == want && !want.empty() && x.ref.find("//") == S::npos) {
                    disarm();
                    S back;
                    sut([&] {
                        const bool abs = x.ref[0] == '/';
                        T p(abs ? "/" : "");
                        for(auto &g : want)
                            p = p / g.c_str();
                        host([&] { back = text(p); });
                    });
                    SIM_CHECK(back == x.ref, "wrong-content", "the parts of \"%s\" joined again are \"%s\"", shown(x.ref).c_str(), shown(back).c_str());
                    probe("split and joined again");
                }
                break;
            }
            case 9:
            case 10:
            case 11: {
                what = "replace the extension";
                if(open_name(ref_name(x.ref))) break;
                S e = pick(4) ? "." + S(pick(6), 'x') : gen_part();
                if(e.find('/') != S::npos) break;
                S stem = x.ref.substr(0, x.ref.size() - ref_ext(x.ref).size());
                int how = pick(4);
                if(how == 3) { // a part of the path itself
                    size_t a = pick(x.ref.size() + 1), l = pick(x.ref.size() - a + 1);
                    e = x.ref.substr(a, l);
                    if(e.find('/') != S::npos) break;
                    log("replace the extension of \"%s\" by its own %zu..%zu", shown(x.ref).c_str(), a, a + l);
                    S want = stem + e;
                    if(attempt(what, [&] { x.p->replace_extension(P::CStringView(x.p->c_str() + a, l)); }))
                        x.ref = want;
                    else
                        settle(x, want, what);
                    probe("a part of the path as its new extension");
                    break;
                }
                log("replace the extension of \"%s\" by \"%s\"", shown(x.ref).c_str(), shown(e).c_str());
                S want = stem + e;
                if(attempt(what, [&] {
                       if(how)
                           x.p->replace_extension(e.c_str());
                       else
                           x.p->replace_extension(P::CStringView(e.data(), e.size()));
                   }))
                    x.ref = want;
                else
                    settle(x, want, what);
                break;
            }
            case 12: {
                what = "assign";
                if(!y.p) break;
                bool mv = coin();
                log("%s assign", mv ? "move" : "copy");
                S want = y.ref;
                if(attempt(what, [&] {
                       if(mv)
                           *x.p = P::move(*y.p);
                       else
                           *x.p = (const T &)*y.p;
                   })) {
                    if(mv && &x != &y) y.ref = "";
                    x.ref = want;
                } else
                    settle(x, want, what);
                break;
            }
            case 13: {
                bool a = sut([&] { return x.p->is_abs(); });
                SIM_CHECK(a == (!x.ref.empty() && x.ref[0] == '/'), "wrong-answer", "\"%s\" is said to be %s", shown(x.ref).c_str(), a ? "absolute" : "relative");
                break;
            }
            default:
                what = "destroy";
                if(!flip(1, 2)) break;
                destroy(x.p);
                x = Slot{};
            }
            disarm();
            check(what);
            state(std::hash<S>()(s[0].ref) ^ std::hash<S>()(s[1].ref) * 3 ^ std::hash<S>()(s[2].ref) * 7);
        }
        for(auto &x : s)
            destroy(x.p), x.p = nullptr;
        check_no_leaks("the paths");
        nontrivial();
    }
};
} // namespace

SIM_SCENARIO(path_history, 4) { PathWorld().run(0); }
SIM_SCENARIO(path_history_faults, 2) { PathWorld().run(3 + pick(20)); }
