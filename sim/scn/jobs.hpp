// A catalogue of self-contained pieces of work over the library.  A job is a function of its seed: whatever it
// delivers must be the same alone, next to other threads, and after something else has failed.
#pragma once
#include "gen.hpp"
#include <pystd_config.hpp>
#if EPOCH == 2026
#include <pystd2026_argparse.hpp>
#include <pystd2026_btree.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_hashtable.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_regex.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
#include <pystd2026_variant.hpp>
#endif

// the two epochs are linked into one program: everything here is private to its epoch
namespace {
namespace jobs {
// What an operation that reports failure by its result says when something was made to fail.
struct Refused {};
struct Rng {
    uint64_t x;
    explicit Rng(uint64_t s) : x(s * 0x9e3779b97f4a7c15ull + 0x1234567) {}
    uint32_t operator()(uint32_t n) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        return (uint32_t)((x >> 20) % n);
    }
};
// The transcript of a job, kept outside the simulated memory.
struct Rec {
    std::string s;
    std::string dir; // where the job's files are
    Rec() = default;
    void num(const char *k, long long v) {
        host([&] { s += fmt("%s=%lld ", k, v); });
    }
    // reads the text the way a user does before noting it down
    void text(const char *k, const char *p, size_t n) {
        unsigned sum = 0;
        for(size_t i = 0; i < n; ++i)
            sum = sum * 31 + (unsigned char)p[i];
        host([&] {
            s += k;
            s += '=';
            if(n <= 60)
                s.append(p, n);
            else {
                s.append(p, 40);
                s += fmt("...%zu:%08x", n, sum);
            }
            s += ' ';
        });
    }
    void mark(const char *k) {
        host([&] {
            s += k;
            s += ' ';
        });
    }
    // an operation reported that it could not do it
    void no(const char *k) {
        bool f = host([&] { return op_faults() > 0; });
        if(f) throw Refused();
        mark(k);
    }
};
inline void put(Rec &o, const char *k, const P::CString &c) { o.text(k, c.c_str(), c.size()); }
inline void put(Rec &o, const char *k, const P::U8String &c) { o.text(k, c.c_str(), c.size_bytes()); }
inline void put(Rec &o, const char *k, const P::Bytes &c) { o.text(k, c.data(), c.size()); }
inline void put(Rec &o, const char *k, const P::CStringView &c) { o.text(k, c.data(), c.size()); }
inline void put(Rec &o, const char *k, const P::U8StringView &c) { put(o, k, c.raw_view()); }
inline void put(Rec &o, const char *k, const P::Path &c) { o.text(k, c.c_str(), c.size()); }

// Raw material (a plain buffer on the job's stack).
struct Text {
    char p[256];
    size_t n = 0;
    void cp(uint32_t c) {
        if(c < 0x80)
            p[n++] = (char)c;
        else if(c < 0x800) {
            p[n++] = (char)(0xC0 | c >> 6);
            p[n++] = (char)(0x80 | (c & 63));
        } else {
            p[n++] = (char)(0xE0 | c >> 12);
            p[n++] = (char)(0x80 | (c >> 6 & 63));
            p[n++] = (char)(0x80 | (c & 63));
        }
        p[n] = 0;
    }
};
inline Text ascii(Rng &r, int maxn) {
    Text t;
    t.p[0] = 0;
    int n = r(maxn + 1);
    for(int i = 0; i < n; ++i)
        t.cp("abcdeABCxyz019 ,.-_ \t"[r(21)]);
    return t;
}
inline Text word(Rng &r, int maxn = 8) {
    Text t;
    t.p[0] = 0;
    int n = 1 + r(maxn);
    for(int i = 0; i < n; ++i)
        t.cp('a' + r(26));
    return t;
}
inline Text utf8(Rng &r, int maxn) {
    Text t;
    t.p[0] = 0;
    int n = r(maxn + 1);
    static const uint32_t some[] = {0xDF, 0xE4, 0xC4, 0x149, 0x1F0, 0x390, 0xFB03, 0x130, 0x1E9E, 0x20AC, 0x3A9, 0x3C2, 0x416, 0x436, 0x1C4, 0x2160};
    for(int i = 0; i < n; ++i)
        t.cp(r(3) ? some[r(16)] : (uint32_t)("abZ 1"[r(5)]));
    return t;
}

inline void j_bytes(Rng &r, Rec &o) {
    P::Bytes b;
    for(int k = 4 + r(20); k > 0; --k) {
        Text t = ascii(r, 30);
        switch(r(7)) {
        case 0: b.append(t.p, t.p + t.n); break;
        case 1: b.push_back('q'); break;
        case 2: b += P::Bytes(t.p, t.n); break;
        case 3:
            if(b.size() > 3) b.pop_front(2);
            break;
        case 4: {
            P::Bytes c(b);
            b = P::move(c);
            break;
        }
        case 5: b.assign(t.p, t.n); break;
        case 6:
            if(b.size() > 2) b.insert(r(b.size()), t.p, t.n);
            break;
        }
    }
    put(o, "bytes", b);
    P::Bytes c(b);
    o.num("same", c == b);
}
inline void j_cstring(Rng &r, Rec &o) {
    P::CString s;
    for(int k = 3 + r(12); k > 0; --k) {
        Text t = ascii(r, 40);
        switch(r(6)) {
        case 0: s += t.p; break;
        case 1: s += P::CString(t.p); break;
        case 2: s.push_back('z'); break;
        case 3:
            if(s.size()) s.insert(r(s.size()), P::CStringView(t.p));
            break;
        case 4: s = s.substr(s.size() / 3); break;
        case 5: s.strip(); break;
        }
    }
    put(o, "s", s);
    put(o, "up", s.upper());
    put(o, "low", s.lower());
    auto parts = s.split();
    o.num("n", parts.size());
    for(auto &p : parts)
        put(o, "p", p);
    auto by = s.split_by('a');
    for(auto &p : by)
        put(o, "b", p);
    o.num("find", s.find(P::CStringView("a")));
    o.num("rfind", s.rfind('a'));
}
inline void j_unicode(Rng &r, Rec &o) {
    Text t = utf8(r, 40);
    P::U8String s(t.p, t.n);
    put(o, "up", s.upper());
    put(o, "low", s.lower());
    uint64_t h = 0;
    for(auto it = s.cbegin(); it != s.cend(); ++it)
        h = h * 31 + *it;
    o.num("cps", (long long)h);
    h = 0;
    for(auto it = s.crbegin(); it != s.crend(); ++it)
        h = h * 31 + *it;
    o.num("rev", (long long)h);
    for(int k = 0; k < 6; ++k) {
        auto c = P::uppercase_unicode(0x80 + r(0x2000));
        o.num("uc", c.codepoints[0]);
        o.num("uc1", c.codepoints[1]);
        auto d = P::lowercase_unicode(0x80 + r(0x2000));
        o.num("lc", d.codepoints[0]);
    }
    P::U8String u;
    for(int k = 0; k < 5; ++k) {
        Text w = utf8(r, 6);
        u += P::U8String(w.p, w.n);
        u.append_codepoint(0x20AC + r(50));
        u.pop_front();
    }
    put(o, "u", u);
    auto parts = s.split_ascii();
    for(auto &p : parts)
        put(o, "p", p);
    P::U8String glue("\xE2\x82\xAC");
    put(o, "j", glue.join(parts));
    o.num("has", s.contains(u.view()));
}
inline void j_format(Rng &r, Rec &o) {
    Text t = ascii(r, 40), w = word(r);
    int v = (int)r(1000000) - 500000;
    put(o, "f", P::cformat("%s|%d|%s|%08x|%5.2f", t.p, v, w.p, (unsigned)v, v / 7.0));
    P::CString acc("start:");
    for(int k = 0; k < 4; ++k)
        P::format_append(acc, "%d-%s,", k, w.p);
    put(o, "acc", acc);
    P::Bytes b;
    P::format_append(b, "%s%c", t.p, 'k');
    put(o, "b", b);
    if(r(4) == 0) {
        char big[1500];
        memset(big, 'x', sizeof big);
        big[900 + r(599)] = 0;
        big[1499] = 0;
        put(o, "big", P::cformat("<%s>", big));
    }
}
template<typename V> void put_numbers(Rec &o, const char *k, const V &v) {
    uint64_t h = 0;
    for(auto &e : v)
        h = h * 1099511628211ull + (uint64_t)e;
    o.num(k, (long long)h);
    if(!v.is_empty()) {
        o.num("first", v.front());
        o.num("last", v.back());
    }
}
inline void j_vector(Rng &r, Rec &o) {
    P::Vector<P::CString> v;
    P::Vector<int64_t> n;
    for(int k = 3 + r(30); k > 0; --k) {
        Text t = word(r, 20);
        switch(r(6)) {
        case 0:
        case 1: v.push_back(P::CString(t.p)); break;
        case 2: v.emplace_back(t.p); break;
        case 3:
            if(!v.is_empty()) v.push_back(v[r(v.size())]);
            break;
        case 4:
            if(v.size() > 2) v.pop_back();
            break;
        case 5:
            if(v.size() < 100) v.reserve(v.size() * 2);
            break;
        }
        n.push_back(r(1000));
    }
    for(auto &s : v)
        put(o, "v", s);
    put_numbers(o, "n", n);
    P::Vector<P::CString> c(v);
    P::Vector<P::CString> m(P::move(v));
    o.num("c", c.size() == m.size() && (c.is_empty() || c.front() == m.front()));
    P::FixedVector<P::CString, 8> f;
    for(int k = 0; k < 8; ++k)
        f.push_back(P::CString(word(r).p));
    put(o, "f", f[r(8)]);
    bool refused = false;
    try {
        f.push_back(P::CString("too much"));
    } catch(...) {
        refused = true;
    }
    o.num("refused", refused);
    P::Stack<P::CString> st;
    for(int k = 0; k < 5; ++k)
        st.push(P::CString(word(r).p));
    st.pop();
    put(o, "top", st.top());
}
inline void j_hash(Rng &r, Rec &o) {
    P::HashMap<P::U8String, int64_t> m;
    P::HashSet<P::U8String> s;
    int keys = 4 + r(30);
    for(int k = 5 + r(60); k > 0; --k) {
        char b[24];
        snprintf(b, sizeof b, "key%u", r(keys));
        P::U8String key(b);
        switch(r(5)) {
        case 0:
        case 1: m.insert(key, r(100000)); break;
        case 2: m.remove(key); break;
        case 3: {
            auto *p = m.lookup(key);
            o.num("l", p ? *p : -1);
            break;
        }
        case 4: {
            auto in = s.insert(P::U8String(b));
            o.num("new", in.second);
            break;
        }
        }
    }
    o.num("size", m.size());
    o.num("sset", s.size());
    uint64_t sum = 0, n = 0;
    for(const auto &kv : m) {
        sum += (uint64_t)*kv.value * 31 + kv.key->size_bytes();
        ++n;
    }
    o.num("sum", (long long)sum);
    o.num("n", (long long)n);
    P::SimpleHash h;
    Text t = ascii(r, 60);
    h.feed_bytes(t.p, t.n);
    o.num("hash", (long long)h.get_hash_value());
}
inline void j_tree(Rng &r, Rec &o) {
    P::BTreeMap<int64_t, P::CString, 5> m;
    P::BTreeSet<P::U8String, 3> s;
    P::BTree<int64_t, 7> t;
    int keys = 4 + r(40);
    for(int k = 5 + r(50); k > 0; --k) {
        int64_t key = r(keys);
        char b[24];
        snprintf(b, sizeof b, "k%03d", (int)key);
        switch(r(6)) {
        case 0: m.insert(key, P::CString(b)); break;
        case 1: s.insert(P::U8String(b)); break;
        case 2: t.insert(key); break;
        case 3: m.remove(key); break;
        case 4: t.remove(key); break;
        case 5: s.remove(P::U8String(b)); break;
        }
    }
    for(int k = 0; k < keys; ++k) {
        char b[24];
        snprintf(b, sizeof b, "k%03d", k);
        auto *p = m.lookup(k);
        if(p) put(o, "m", *p);
        o.num("s", s.contains(P::U8String(b)));
        o.num("t", t.contains(k));
    }
#if EPOCH == 2026
    for(auto &v : t)
        o.num("i", v);
#endif
    o.num("n", t.size() + s.size());
}
inline void j_sort(Rng &r, Rec &o) {
    P::Vector<int64_t> v;
    P::Vector<P::CString> w;
    for(int k = r(70); k > 0; --k)
        v.push_back((int64_t)r(60) - 30);
    for(int k = r(25); k > 0; --k)
        w.push_back(P::CString(word(r, 5).p));
#if EPOCH == 2026
    switch(r(8)) {
    case 0:
        P::introsort(v.begin(), v.end());
        P::introsort(w.begin(), w.end());
        break;
    case 1:
        P::mergesort(v.begin(), v.end());
        P::mergesort(w.begin(), w.end());
        break;
    case 2:
        P::heapsort(v.begin(), v.end());
        P::heapsort(w.begin(), w.end());
        break;
    case 3:
        P::shell_sort(v.begin(), v.end());
        P::insertion_sort(w.begin(), w.end());
        break;
    case 4: P::insertion_sort(v.begin(), v.end()); break;
    case 5: {
        P::Vector<uint32_t> u;
        for(auto e : v)
            u.push_back((uint32_t)(e + 1000));
        P::radix_sort(u.begin(), u.end());
        put_numbers(o, "u", u);
        P::Vector<uint8_t> q;
        for(auto e : v)
            q.push_back((uint8_t)e);
        P::bucketsort(q.begin(), q.end());
        put_numbers(o, "q", q);
        break;
    }
    case 6: {
        P::indirect_sort(w.begin(), w.end());
        P::indirect_stable_sort(v.begin(), v.end());
        break;
    }
    case 7: {
        if(v.size() > 3) {
            size_t k = r(v.size());
            P::nth_element(v.begin(), v.end(), k);
            o.num("nth", v[k]);
            P::partial_sort(v.begin(), v.end(), k);
            for(size_t i = 0; i < k; ++i)
                o.num("p", v[i]);
            auto it = P::stable_partition(v.begin(), v.end(), [](const int64_t &x) { return x % 3 == 0; });
            o.num("part", it - v.begin());
            P::rotate(v.begin(), v.begin() + k, v.end());
            P::mergesort(v.begin(), v.end());
        }
        break;
    }
    }
#else
    P::insertion_sort(v.begin(), v.end());
    P::insertion_sort(w.begin(), w.end());
#endif
    put_numbers(o, "v", v);
    for(auto &s : w)
        put(o, "w", s);
    if(!v.is_empty()) o.num("lb", P::lower_bound(v.begin(), v.end(), (int64_t)3) - v.begin());
    auto p = P::partition(v.begin(), v.end(), [](const int64_t &x) { return x > 0; });
    o.num("pos", p - v.begin());
}
inline void j_regex(Rng &r, Rec &o) {
    static const char *const pat[] = {"(b).*?(a)", "([a-z]+) ([0-9]+)", "(x)|(a)(b)?", "a*", "^(\\w+)", "[", "(?<n>\xC3\xA4+)", "z{3}"};
    try {
        P::U8String p(pat[r(8)]);
        P::U8Regex re(p);
        for(int k = 0; k < 3; ++k) {
            Text t = r(2) ? ascii(r, 40) : utf8(r, 30);
            P::U8String s(t.p, t.n);
            try {
                P::U8Match m = P::regex_search(re, s);
                o.num("groups", m.num_groups());
                for(size_t g = 0; g <= m.num_groups(); ++g) {
                    put(o, "g", m.group(g));
                    put(o, "sub", m.get_submatch(g));
                }
                try {
                    m.group(m.num_groups() + 1);
                    o.mark("beyond");
                } catch(const P::PyException &e) {
                    o.no("none");
                }
            } catch(const P::PyException &e) {
                o.no("nomatch");
            }
        }
    } catch(const P::PyException &e) {
        o.no("badpattern");
    }
}
inline void j_paths(Rng &r, Rec &o) {
    Text a = word(r), b = word(r), c = word(r, 3);
    P::Path p(a.p);
    P::Path q = p / P::Path(b.p) / c.p;
    put(o, "q", q);
    P::Path d = q / P::CString("file.tar.gz");
    put(o, "ext", d.extension());
    put(o, "name", d.filename());
    for(auto &s : d.split())
        put(o, "part", s);
    d.replace_extension(".bak");
    put(o, "rep", d);
    o.num("abs", d.is_abs());
    o.num("abs2", P::Path("/x/y").is_abs());
}
inline void j_files(Rng &r, Rec &o) {
    P::Path dir(o.dir.c_str());
    char fn[32];
    snprintf(fn, sizeof fn, "f%u.txt", r(4));
    P::Path p = dir / fn;
    bool is = p.is_file();
    o.num("is", is);
    int how = r(4);
    if(how == 2 && !is) how = 0; // a File that can not be opened ends the process
    switch(how) {
    case 0: {
        auto b = p.load_bytes();
        if(b)
            put(o, "b", *b);
        else
            o.no("nobytes");
        break;
    }
    case 1: {
        auto b = p.load_text();
        if(b)
            put(o, "t", *b);
        else
            o.no("notext");
        break;
    }
    case 2: {
        P::File f(p.c_str(), "r");
        for(auto &&line : f)
            put(o, "l", line);
        break;
    }
    case 3: {
        auto m = P::mmap_file(p.c_str());
        if(m) {
#if EPOCH == 2026
            auto s = m->span();
#else
            auto s = m->view();
#endif
            o.text("m", s.data(), s.size());
        } else
            o.no("nomap");
        break;
    }
    }
    P::Path t = dir / "renamed";
    bool moved = p.rename_to(t);
    if(moved) {
        o.num("there", t.exists());
        moved = t.rename_to(p);
        o.num("back", moved);
    } else
        o.no("notmoved");
}
inline void j_glob(Rng &r, Rec &o) {
    P::Path dir(o.dir.c_str());
    static const char *const pat[] = {"*.txt", "f?.txt", "**/*.txt", "sub/*", "*"};
    P::Vector<P::CString> found;
    auto g = dir.glob(pat[r(5)]);
    while(true) {
        auto e = g.next();
        if(!e) break;
        found.push_back(P::CString(e->c_str()));
    }
    P::insertion_sort(found.begin(), found.end());
    for(auto &s : found)
        put(o, "g", s);
}
inline void j_holders(Rng &r, Rec &o) {
    P::Optional<P::CString> op, oq(P::CString(word(r, 30).p));
    op = oq;
    op = P::Optional<P::CString>(P::CString(word(r, 30).p));
    P::Optional<P::CString> om(P::move(oq));
    put(o, "op", *op);
    put(o, "om", *om);
    typedef P::Variant<int64_t, P::CString, P::U8String> V;
    V v(P::CString(word(r, 30).p)), w((int64_t)r(1000));
    if(r(2)) w = v;
    if(r(2)) v = V(P::U8String(word(r, 30).p));
    V x(P::move(w));
    for(V *q : {&v, &x}) {
        if(auto *c = q->template get_if<P::CString>()) put(o, "c", *c);
        if(auto *c = q->template get_if<P::U8String>()) put(o, "u", *c);
        if(auto *c = q->template get_if<int64_t>()) o.num("i", *c);
    }
    typedef P::Expected<P::CString, int> X;
    X e = r(2) ? X(P::CString(word(r, 30).p)) : X(P::Unexpected<int>(7));
    if(e.has_value())
        put(o, "e", e.value());
    else
        o.num("e", e.error());
    P::unique_ptr<P::CString> u(new P::CString(word(r, 30).p));
    P::unique_ptr<P::CString> u2(P::move(u));
    put(o, "uptr", *u2);
    o.num("null", (bool)u);
    P::unique_arr<int32_t> arr(8);
    for(int i = 0; i < 8; ++i)
        arr[i] = i;
    o.num("arr", arr[7] + arr.size());
}
inline void j_ranges(Rng &r, Rec &o) {
    int64_t sum = 0;
    for(auto &i : P::Loopsume(P::Range(r(10), 10 + r(20), 1 + r(3))))
        sum = sum * 3 + i;
    o.num("r", sum);
    P::Vector<int64_t> v;
    for(int k = 0; k < 6; ++k)
        v.push_back(r(100));
    sum = 0;
    for(auto e : P::EnumerateView(v))
        sum += (int64_t)e.i * e.value;
    o.num("e", sum);
#if EPOCH == 2026
    Text t = ascii(r, 60);
    P::U8StringView all(t.p, t.n);
    for(const auto &w : P::Loopsume(all.split_ascii()))
        put(o, "w", w);
#endif
    o.num("c", P::clamp((int64_t)r(100), 20, 60));
    P::FixedCString<20> f("fixed"), g;
    g = P::CStringView(word(r, 12).p);
    f = g;
    put(o, "f", f.view());
}
#if EPOCH == 2026
inline void j_args(Rng &r, Rec &o) {
    P::ArgParse ap(P::U8String("does things"));
    auto add = [&](const char *name, const char *lo, char so, P::ArgumentType t, P::ArgumentAction a) {
        P::Argument x;
        x.name = P::CString(name);
        x.long_arg = P::CString(lo);
        x.short_arg = so;
        x.type = t;
        x.aaction = a;
        ap.add_argument(P::move(x));
    };
    add("out", "--out", 'o', P::ArgumentType::String, P::ArgumentAction::Store);
    add("num", "--num", 'n', P::ArgumentType::Integer, P::ArgumentAction::Store);
    add("verbose", "--verbose", 'v', P::ArgumentType::Boolean, P::ArgumentAction::StoreTrue);
    add("inc", "--inc", 'I', P::ArgumentType::StringArray, P::ArgumentAction::AppendArray);
    ap.permit_posargs();
    Text w = word(r), w2 = word(r);
    char num[16];
    snprintf(num, sizeof num, "%d", (int)r(5000));
    const char *argv[16];
    int argc = 0;
    argv[argc++] = "prog";
    if(r(2)) argv[argc++] = "--out", argv[argc++] = w.p;
    if(r(2)) argv[argc++] = "-n", argv[argc++] = num;
    if(r(2)) argv[argc++] = "--verbose";
    if(r(2)) argv[argc++] = "--inc=some/where", argv[argc++] = "-Ielse";
    if(r(2)) argv[argc++] = w2.p;
    if(r(2)) argv[argc++] = "--", argv[argc++] = "-rest";
    auto res = ap.parse_args(argc, argv);
    for(const char *n : {"out", "num", "verbose", "inc"}) {
        auto *v = res->value_of(P::CStringView(n));
        if(!v) {
            o.mark("unset");
            continue;
        }
        if(auto *c = v->get_if<P::CString>()) put(o, n, *c);
        if(auto *c = v->get_if<int64_t>()) o.num(n, *c);
        if(auto *c = v->get_if<bool>()) o.num(n, *c);
        if(auto *c = v->get_if<P::Vector<P::CString>>())
            for(auto &s : *c)
                put(o, n, s);
    }
}
#endif
inline void j_mutex(Rng &r, Rec &o) {
    P::Mutex m;
    int64_t v = 0;
    for(int k = 0; k < 3; ++k) {
        P::LockGuard<P::Mutex> g(m);
        v = v * 7 + r(10);
    }
    bool got = m.try_lock();
    if(got) m.unlock();
    o.num("try", got);
    o.num("v", v);
}
struct Job {
    const char *name;
    void (*run)(Rng &, Rec &);
};
inline const Job all[] = {
    {"bytes", j_bytes},   {"cstring", j_cstring}, {"unicode", j_unicode}, {"format", j_format},   {"vector", j_vector}, {"hash", j_hash},
    {"tree", j_tree},     {"sort", j_sort},       {"regex", j_regex},     {"paths", j_paths},     {"files", j_files},   {"glob", j_glob},
    {"holders", j_holders}, {"ranges", j_ranges},   {"mutex", j_mutex},
#if EPOCH == 2026
    {"args", j_args},
#endif
};
inline constexpr int count = sizeof all / sizeof all[0];

// The files a job works on.
inline void make_dir(const std::string &dir, uint64_t seed) {
    Rng r(seed ^ 0x5555);
    fs::add_dir(dir);
    for(int i = 0; i < 4; ++i) {
        std::string c;
        for(int k = r(6); k > 0; --k) {
            Text t = r(4) ? ascii(r, 40) : utf8(r, 30);
            c.append(t.p, t.n);
            c += '\n';
        }
        if(r(8) == 0) c.append(3000 + r(3000), 'x');
        if(r(8) == 0) c += "\xff\xfe";
        if(i != 3 || r(2)) fs::add_file(dir + fmt("/f%d.txt", i), c);
    }
    fs::add_dir(dir + "/sub");
    fs::add_file(dir + "/sub/deep.txt", "deep");
    fs::add_file(dir + "/sub/other.c", "c");
}
} // namespace jobs
} // namespace
