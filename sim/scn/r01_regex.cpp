// R01: a match reports what the pattern says, whatever else is alive and whatever fails.
#include "elem.hpp"
#include "gen.hpp"
#if EPOCH == 2026
#include <pystd2026_regex.hpp>
#endif

namespace {
typedef std::string S;
typedef std::u32string U;
S to8(const U &u) {
    S s;
    for(char32_t c : u)
        put_cp(s, c);
    return s;
}
S shown(const S &s) { return sim::show(s.data(), std::min<size_t>(s.size(), 80)); }
// ---- patterns: a tree, its text, and a matcher that tries alternatives in the order Perl does
struct Node {
    enum K { LIT, ANY, SET, SEQ, ALT, GROUP, REP, BOL, EOL, BACK } k = LIT;
    char32_t c = 0;
    U set; // pairs lo,hi
    bool neg = false, lazy = false, capture = false, named = false;
    int lo = 0, hi = 0, idx = 0; // hi < 0: no limit
    std::vector<Node> sub;
    bool nullable() const {
        switch(k) {
        case SEQ:
            for(auto &n : sub)
                if(!n.nullable()) return false;
            return true;
        case ALT:
            for(auto &n : sub)
                if(n.nullable()) return true;
            return false;
        case GROUP: return sub[0].nullable();
        case REP: return lo == 0 || sub[0].nullable();
        case BOL:
        case EOL:
        case BACK: return true;
        default: return false;
        }
    }
};
const char32_t alphabet[] = {'a', 'b', 'c', '1', ' ', 0xE4, 0x20AC, 0x1F600, '.', '\n'};
void put_lit(S &s, char32_t c) {
    if(c < 0x80 && strchr(".^$*+?()[]{}|\\-", (int)c)) s += '\\';
    put_cp(s, c);
}
void text(const Node &n, S &s) {
    switch(n.k) {
    case Node::LIT: put_lit(s, n.c); break;
    case Node::ANY: s += '.'; break;
    case Node::BOL: s += '^'; break;
    case Node::EOL: s += '$'; break;
    case Node::BACK: s += fmt("\\g{%d}", n.idx); break;
    case Node::SET:
        s += n.neg ? "[^" : "[";
        for(size_t i = 0; i < n.set.size(); i += 2) {
            put_lit(s, n.set[i]);
            if(n.set[i] != n.set[i + 1]) {
                s += '-';
                put_lit(s, n.set[i + 1]);
            }
        }
        s += ']';
        break;
    case Node::SEQ:
        for(auto &x : n.sub)
            text(x, s);
        break;
    case Node::ALT:
        for(size_t i = 0; i < n.sub.size(); ++i) {
            if(i) s += '|';
            text(n.sub[i], s);
        }
        break;
    case Node::GROUP:
        s += n.capture ? (n.named ? fmt("(?<g%d>", n.idx) : S("(")) : S("(?:");
        text(n.sub[0], s);
        s += ')';
        break;
    case Node::REP:
        text(n.sub[0], s);
        if(n.lo == 0 && n.hi == 1)
            s += '?';
        else if(n.lo == 0 && n.hi < 0)
            s += '*';
        else if(n.lo == 1 && n.hi < 0)
            s += '+';
        else if(n.hi < 0)
            s += fmt("{%d,}", n.lo);
        else if(n.hi == n.lo)
            s += fmt("{%d}", n.lo);
        else
            s += fmt("{%d,%d}", n.lo, n.hi);
        if(n.lazy) s += '?';
    }
}
struct Gen {
    int groups = 0;
    std::vector<int> closed; // groups that are complete before this point
    Node atom(int depth) {
        Node n;
        switch(pick(depth > 0 ? 9 : 5)) {
        case 0: n.k = Node::ANY; break;
        case 1:
            n.k = Node::SET;
            n.neg = flip(1, 4);
            for(int i = 1 + pick(2); i > 0; --i) {
                char32_t a = alphabet[pick(9)], b = a;
                if(a >= 'a' && a <= 'c') b = a + pick('d' - a);
                n.set += a;
                n.set += b;
            }
            break;
        case 5:
        case 6:
        case 7:
        case 8: {
            n.k = Node::GROUP;
            n.capture = flip(3, 4);
            n.named = flip(1, 6);
            if(n.capture) n.idx = ++groups;
            n.sub.push_back(alt(depth - 1));
            if(n.capture) closed.push_back(n.idx);
            break;
        }
        default: n.c = alphabet[pick(coin() ? 3 : 10)];
        }
        return n;
    }
    Node seq(int depth) {
        Node s;
        s.k = Node::SEQ;
        for(int i = 1 + pick(4); i > 0; --i) {
            if(flip(1, 14)) {
                Node n;
                n.k = coin() ? Node::BOL : Node::EOL;
                s.sub.push_back(n);
                continue;
            }
            if(!closed.empty() && flip(1, 12)) {
                Node n;
                n.k = Node::BACK;
                n.idx = closed[pick(closed.size())];
                s.sub.push_back(n);
                continue;
            }
            Node a = atom(depth);
            if(flip(2, 5) && !a.nullable()) {
                Node r;
                r.k = Node::REP;
                static const int q[][2] = {{0, 1}, {0, -1}, {1, -1}, {2, 2}, {1, 3}, {0, 2}, {2, -1}};
                int k = pick(7);
                r.lo = q[k][0];
                r.hi = q[k][1];
                r.lazy = flip(1, 4);
                r.sub.push_back(a);
                s.sub.push_back(r);
            } else
                s.sub.push_back(a);
        }
        return s;
    }
    Node alt(int depth) {
        if(flip(2, 3)) return seq(depth);
        Node n;
        n.k = Node::ALT;
        for(int i = 2 + pick(2); i > 0; --i)
            n.sub.push_back(seq(depth));
        return n;
    }
};
// Very many groups.
inline Node gen_wide(Gen &g) {
    Node s;
    s.k = Node::SEQ;
    bool easy = coin(); // matches everywhere
    for(int i = 8 + pick(flip(1, 3) ? 600 : 60); i > 0; --i) {
        Node n;
        n.k = Node::GROUP;
        n.capture = flip(7, 8);
        n.named = flip(1, 10);
        if(n.capture) n.idx = ++g.groups;
        n.sub.push_back(g.atom(0));
        if(n.capture) g.closed.push_back(n.idx);
        if(easy || flip(3, 4)) {
            Node r;
            r.k = Node::REP;
            r.lo = 0;
            r.hi = 1;
            r.lazy = flip(1, 6);
            r.sub.push_back(n);
            n = r;
        }
        s.sub.push_back(n);
        if(!easy && flip(1, 20)) {
            Node b;
            b.k = Node::BACK;
            b.idx = g.closed.empty() ? 0 : g.closed[pick(g.closed.size())];
            if(b.idx) s.sub.push_back(b);
        }
    }
    if(g.groups > 64) probe("more than 64 groups");
    if(g.groups > 255) probe("more than 255 groups");
    return s;
}
struct Matcher {
    const U &t;
    std::vector<std::pair<int, int>> cap;
    const char *base = nullptr; // where the stack was when the search began
    long steps = 0, limit = 20000 + 12 * (long)t.size();
    typedef std::function<bool(size_t)> K;
    bool over() {
        char here;
        if(base - &here > 3000000) steps = limit; // too deep to say
        return ++steps > limit;
    }
    bool seq(const Node &n, size_t i, size_t p, const K &k) {
        if(i == n.sub.size()) return k(p);
        return run(n.sub[i], p, [&, i](size_t q) { return seq(n, i + 1, q, k); });
    }
    bool rep(const Node &n, int done, size_t p, const K &k) {
        if(over()) return false;
        if(done < n.lo) return run(n.sub[0], p, [&, done](size_t q) { return rep(n, done + 1, q, k); });
        bool more = n.hi < 0 || done < n.hi;
        auto again = [&] { return more && run(n.sub[0], p, [&, done](size_t q) { return rep(n, done + 1, q, k); }); };
        return n.lazy ? k(p) || again() : again() || k(p);
    }
    bool run(const Node &n, size_t p, const K &k) {
        if(over()) return false;
        switch(n.k) {
        case Node::LIT: return p < t.size() && t[p] == n.c && k(p + 1);
        case Node::ANY: return p < t.size() && t[p] != '\n' && k(p + 1);
        case Node::SET: {
            if(p >= t.size()) return false;
            bool in = false;
            for(size_t i = 0; i < n.set.size(); i += 2)
                in |= t[p] >= n.set[i] && t[p] <= n.set[i + 1];
            return in != n.neg && k(p + 1);
        }
        case Node::BOL: return p == 0 && k(p);
        case Node::EOL: return (p == t.size() || (p + 1 == t.size() && t[p] == '\n')) && k(p);
        case Node::BACK: {
            auto c = cap[n.idx];
            if(c.first < 0) return false;
            size_t len = c.second - c.first;
            return p + len <= t.size() && t.compare(p, len, t, c.first, len) == 0 && k(p + len);
        }
        case Node::SEQ: return seq(n, 0, p, k);
        case Node::ALT:
            for(auto &x : n.sub)
                if(run(x, p, k)) return true;
            return false;
        case Node::GROUP:
            if(!n.capture) return run(n.sub[0], p, k);
            return run(n.sub[0], p, [&](size_t q) {
                auto old = cap[n.idx];
                cap[n.idx] = {(int)p, (int)q};
                if(k(q)) return true;
                cap[n.idx] = old;
                return false;
            });
        case Node::REP: return rep(n, 0, p, k);
        }
        return false;
    }
};
struct Found {
    bool unknown = false, hit = false;
    std::vector<std::pair<long, long>> g; // byte offsets, -1: did not take part
};
Found ref_search(const Node &n, int groups, const U &t) {
    Found f;
    std::vector<long> at(t.size() + 1, 0);
    for(size_t i = 0; i < t.size(); ++i)
        at[i + 1] = at[i] + (t[i] < 0x80 ? 1 : t[i] < 0x800 ? 2 : t[i] < 0x10000 ? 3 : 4);
    char here;
    Matcher m{t, {}, &here};
    for(size_t p = 0; p <= t.size(); ++p) {
        m.cap.assign(groups + 1, {-1, -1});
        size_t end = 0;
        if(m.run(n, p, [&](size_t q) {
               end = q;
               return true;
           })) {
            m.cap[0] = {(int)p, (int)end};
            f.hit = true;
            for(auto &c : m.cap)
                f.g.push_back(c.first < 0 ? std::make_pair(-1L, -1L) : std::make_pair(at[c.first], at[c.second]));
            break;
        }
        if(m.steps > m.limit) break;
    }
    f.unknown = m.steps > m.limit;
    return f;
}
struct World {
    struct Re {
        P::U8Regex *re = nullptr;
        Node n;
        int groups = 0;
        S src;
    } re[3];
    struct Subj {
        P::U8String *s = nullptr;
        U u;
        S text;
    } su[3];
    struct Ma {
        P::U8Match *m = nullptr;
        Subj *s;
        Found f;
        int groups;
        S src;
    } ma[4];
    const char *put(const S &s) {
        faults().oom_after = -1;
        char *p = (char *)heap_alloc(s.size() + 1, 1);
        memcpy(p, s.c_str(), s.size() + 1);
        return p;
    }
    void check(Ma &x, uint32_t den) {
        if(!x.m) return;
        size_t n = sut([&] { return x.m->num_groups(); });
        SIM_CHECK(n == (size_t)x.groups, "wrong-groups", "pattern \"%s\" has %d groups, the match says %zu", shown(x.src).c_str(), x.groups, n);
        const char *base = sut([&] { return x.s->s->c_str(); });
        for(size_t g = 0; g <= n; ++g) {
            auto e = x.f.g[g];
            S want = e.first < 0 ? "" : x.s->text.substr(e.first, e.second - e.first);
            const char *p = nullptr;
            size_t len = 0;
            {
                Sut u;
                P::U8StringView v = ((const P::U8Match *)x.m)->group(g);
                p = v.raw_view().data();
                len = v.size_bytes();
            }
            SIM_CHECK(len == 0 || addressable(p, len), "dangling-storage", "group %zu is not valid memory", g);
            S got(p, len);
            SIM_CHECK(got == want, "wrong-group", "\"%s\" in \"%s\": group %zu is \"%s\", should be \"%s\"", shown(x.src).c_str(), shown(x.s->text).c_str(), g, shown(got).c_str(), shown(want).c_str());
            if(e.first >= 0) SIM_CHECK(p - base == e.first, "wrong-place", "\"%s\" in \"%s\": group %zu lies at %ld, should be at %ld", shown(x.src).c_str(), shown(x.s->text).c_str(), g, (long)(p - base), e.first);
            arm_faults(den);
            P::U8String *sub = nullptr;
            try {
                sub = make<P::U8String>(sut([&] { return x.m->get_submatch(g); }));
            } catch(...) {
                SIM_CHECK(op_faults(), "unexpected-exception", "asking for group %zu of %zu threw", g, n);
            }
            disarm();
            if(!sub) continue;
            size_t sl;
            const char *sp;
            {
                Sut u;
                sp = sub->c_str();
                sl = sub->size_bytes();
            }
            S sg(sp, sl);
            SIM_CHECK(sg == want, "wrong-group", "\"%s\" in \"%s\": submatch %zu is \"%s\", should be \"%s\"", shown(x.src).c_str(), shown(x.s->text).c_str(), g, shown(sg).c_str(), shown(want).c_str());
            destroy(sub);
        }
        size_t bad[] = {n + 1, n + 2 + pick(5), (size_t)-1, (size_t)1 << 31};
        size_t b = bad[pick(4)];
        bool t1 = false, t2 = false;
        {
            Sut u;
            try {
                ((const P::U8Match *)x.m)->group(b);
            } catch(P::PyException &) {
                t1 = true;
            }
            try {
                x.m->get_submatch(b);
            } catch(P::PyException &) {
                t2 = true;
            }
        }
        SIM_CHECK(t1 && t2, "not-refused", "group %zu of a match with %zu groups was not refused", b, n);
    }
    void compile(Re &x, uint32_t den) {
        if(x.re) {
            log("pattern \"%s\" is destroyed", shown(x.src).c_str());
            destroy(x.re);
            x.re = nullptr;
            return;
        }
        static const char *const bad[] = {"[", "(", "a)", "*a", "a{3,2}", "\\", "(?<n", "(?<n>a)(?<n>b)", "[b-a]", "(?P<1a>x)", "\\g{7}", "a**b(", "(?z)", "[[:nosuch:]]"};
        bool is_bad = flip(1, 8);
        Gen g;
        if(is_bad)
            x.src = bad[pick(14)];
        else {
            x.n = flip(1, 20) ? gen_wide(g) : g.alt(2);
            x.src.clear();
            text(x.n, x.src);
            x.groups = g.groups;
        }
        const char *p = put(x.src);
        bool threw = false;
        P::U8String *pat = make<P::U8String>(p);
        log("pattern \"%s\"", shown(x.src).c_str());
        arm_faults(den);
        try {
            x.re = make<P::U8Regex>((const P::U8String &)*pat);
        } catch(P::PyException &) {
            threw = true;
        }
        disarm();
        destroy(pat); // a compiled pattern needs its text no longer
        heap_free((void *)p);
        if(is_bad) {
            SIM_CHECK(threw, "not-refused", "the malformed pattern \"%s\" was accepted", x.src.c_str());
            probe("malformed pattern refused");
        } else
            SIM_CHECK(!threw || op_faults(), "refused", "the pattern \"%s\" was refused", shown(x.src).c_str());
        if(threw) x.re = nullptr;
    }
    void subject(Subj &x) {
        for(auto &m : ma)
            if(m.m && m.s == &x) return;
        if(x.s) destroy(x.s);
        x.u.clear();
        int n = flip(1, 10) ? 60 + pick(200) : pick(24);
        if(flip(1, 250)) { // what matches lies far into the text
            allow_steps(100000000);
            int k = flip(1, 2) ? 65536 - 20 + pick(40) : 4000 + pick(5000);
            for(int i = 0; i < k; ++i)
                x.u += i % 50 == 49 ? '\n' : 'y';
            probe("long text");
        }
        for(int i = 0; i < n; ++i)
            x.u += alphabet[pick(coin() ? 3 : 10)];
        x.text = to8(x.u);
        const char *p = put(x.text);
        x.s = make<P::U8String>(p);
        heap_free((void *)p);
        log("subject \"%s\"", shown(x.text).c_str());
    }
    void search(Ma &x, uint32_t den) {
        if(x.m) {
            log("a match is destroyed");
            destroy(x.m);
            x.m = nullptr;
            return;
        }
        auto &r = re[pick(3)];
        auto &s = su[pick(3)];
        if(!r.re || !s.s) return;
        Found f = ref_search(r.n, r.groups, s.u);
        if(f.unknown) return;
        bool threw = false;
        arm_faults(den);
        try {
            x.m = make<P::U8Match>(sut([&] { return P::regex_search(*r.re, *s.s); }));
        } catch(P::PyException &) {
            threw = true;
        }
        disarm();
        log("search \"%s\" in \"%s\": %s", shown(r.src).c_str(), shown(s.text).c_str(), threw ? "no" : "yes");
        if(threw) {
            x.m = nullptr;
            SIM_CHECK(!f.hit || op_faults(), "not-found", "\"%s\" is not found in \"%s\" although it is there at byte %ld", shown(r.src).c_str(), shown(s.text).c_str(), f.g[0].first);
            probe(op_faults() ? "search failed after a fault" : "no match");
            return;
        }
        SIM_CHECK(f.hit, "found-nowhere", "\"%s\" is said to be in \"%s\"", shown(r.src).c_str(), shown(s.text).c_str());
        x.s = &s;
        x.f = f;
        x.groups = r.groups;
        x.src = r.src;
        for(auto &g : f.g)
            if(g.first < 0) probe("group that took no part");
        probe("match");
        if(x.groups > 255) probe("match with more than 255 groups");
        check(x, den);
    }
    void run(uint32_t den) {
        randomize_heap();
        for(auto &s : su)
            subject(s);
        compile(re[0], 0);
        int n = 4 + pick(24);
        for(int i = 0; i < n; ++i) {
            switch(pick(10)) {
            case 0:
            case 1: compile(re[pick(3)], den); break;
            case 2: subject(su[pick(3)]); break;
            case 3: {
                auto &a = ma[pick(4)];
                auto &b = ma[pick(4)];
                if(!a.m || b.m) break;
                log("a match is moved");
                b.m = make<P::U8Match>(P::move(*a.m));
                b.s = a.s, b.f = a.f, b.groups = a.groups, b.src = a.src;
                destroy(a.m);
                a.m = nullptr;
                break;
            }
            case 4:
                for(auto &x : ma)
                    check(x, den);
                break;
            default: search(ma[pick(4)], den);
            }
        }
        for(auto &x : ma)
            check(x, 0);
        bool order = coin();
        if(order)
            for(auto &x : re)
                destroy(x.re);
        for(auto &x : ma)
            destroy(x.m);
        if(!order)
            for(auto &x : re)
                destroy(x.re);
        for(auto &x : su)
            destroy(x.s);
        nontrivial();
        check_no_leaks("matching");
    }
};
} // namespace

SIM_SCENARIO(searches, 5) {
    World w;
    w.run(0);
}
SIM_SCENARIO(searches_faults, 2) {
    World w;
    w.run(2 + choose(FAULT, 8));
}
