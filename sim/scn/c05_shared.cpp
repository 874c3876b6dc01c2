// C05: reading a shared object from many threads needs no lock.
#include "jobs.hpp"

namespace {
using jobs::Rec;
using jobs::Rng;
using jobs::put;

// One kind of shared object: how it is built, how it is read.
struct Shared {
    virtual ~Shared() = default;
    virtual void read(Rng &r, Rec &o) const = 0;
};
struct ShCString : Shared {
    P::CString s, t;
    explicit ShCString(Rng &r) : s(jobs::ascii(r, 60).p), t(jobs::ascii(r, 60).p) {}
    void read(Rng &r, Rec &o) const override {
        switch(r(12)) {
        case 0: put(o, "s", s); break;
        case 1: o.num("find", s.find(P::CStringView("a"))); break;
        case 2: o.num("rfind", s.rfind('b')); break;
        case 3: put(o, "sub", s.substr(s.size() / 3)); break;
        case 4: put(o, "up", s.upper()); break;
        case 5: put(o, "low", s.lower()); break;
        case 6: {
            auto v = s.split();
            for(auto &x : v)
                put(o, "p", x);
            break;
        }
        case 7: o.num("eq", s == t); break;
        case 8: o.num("lt", s < t); break;
        case 9: {
            P::CString c(s);
            c += "more";
            put(o, "copy", c);
            break;
        }
        case 10: {
            auto v = s.view();
            o.num("front", v.is_empty() ? -1 : v.front());
            o.num("sw", v.starts_with("a"));
            break;
        }
        case 11: {
            auto v = s.split_by(' ');
            o.num("n", v.size());
            break;
        }
        }
    }
};
struct ShU8 : Shared {
    P::U8String s, t;
    explicit ShU8(Rng &r) : s(jobs::utf8(r, 50).p), t(jobs::utf8(r, 50).p) {}
    void read(Rng &r, Rec &o) const override {
        switch(r(9)) {
        case 0: put(o, "s", s); break;
        case 1: put(o, "up", s.upper()); break;
        case 2: put(o, "low", s.lower()); break;
        case 3: {
            uint64_t h = 0;
            for(auto it = s.cbegin(); it != s.cend(); ++it)
                h = h * 31 + *it;
            o.num("cps", (long long)h);
            break;
        }
        case 4: {
            uint64_t h = 0;
            for(auto it = s.crbegin(); it != s.crend(); ++it)
                h = h * 31 + *it;
            o.num("rev", (long long)h);
            break;
        }
        case 5: o.num("has", s.contains(s.view())); break;
        case 6: {
            auto v = s.split_ascii();
            for(auto &x : v)
                put(o, "p", x);
            P::U8String glue(",");
            put(o, "j", glue.join(v));
            break;
        }
        case 7: o.num("eq", s == t); break;
        case 8: {
            P::U8String c(s);
            c += t;
            put(o, "copy", c);
            break;
        }
        }
    }
};
struct ShBytes : Shared {
    P::Bytes b;
    explicit ShBytes(Rng &r) {
        jobs::Text t = jobs::ascii(r, 60);
        b.append(t.p, t.p + t.n);
        b.append('x');
    }
    void read(Rng &r, Rec &o) const override {
        switch(r(6)) {
        case 0: put(o, "b", b); break;
        case 1: o.num("i", b[r(b.size())]); break;
        case 2: o.num("fb", b.front() * 256 + b.back()); break;
        case 3: {
            P::Bytes c(b);
            o.num("eq", c == b);
            break;
        }
        case 4: o.num("lt", b < b); break;
        case 5: {
            unsigned h = 0;
            for(auto c : b)
                h = h * 31 + (unsigned char)c;
            o.num("it", h);
            break;
        }
        }
    }
};
struct ShVector : Shared {
    P::Vector<P::CString> v;
    P::FixedVector<int64_t, 16> f;
    explicit ShVector(Rng &r) {
        for(int k = 1 + r(20); k > 0; --k)
            v.push_back(P::CString(jobs::word(r).p));
        for(int k = 1 + r(15); k > 0; --k)
            f.push_back(r(100));
    }
    void read(Rng &r, Rec &o) const override {
        switch(r(6)) {
        case 0:
            for(auto &x : v)
                put(o, "v", x);
            break;
        case 1: put(o, "at", v[r(v.size())]); break;
        case 2: put(o, "fb", v.front()), put(o, "back", v.back()); break;
        case 3: {
            P::Vector<P::CString> c(v);
            c.push_back(P::CString("own"));
            o.num("n", c.size());
            break;
        }
        case 4: o.num("f", f[r(f.size())]); break;
        case 5: {
            bool refused = false;
            try {
                v[v.size()];
            } catch(...) {
                refused = true;
            }
            o.num("refused", refused);
            break;
        }
        }
    }
};
struct ShHash : Shared {
    P::HashMap<P::U8String, int64_t> m;
    P::HashSet<P::U8String> s;
    int keys;
    explicit ShHash(Rng &r) : keys(5 + r(30)) {
        for(int k = 0; k < keys; ++k) {
            char b[20];
            snprintf(b, sizeof b, "key%u", r(keys));
            if(r(2)) m.insert(P::U8String(b), k);
            if(r(2)) s.insert(P::U8String(b));
            if(r(8) == 0) m.remove(P::U8String(b));
        }
    }
    void read(Rng &r, Rec &o) const override {
        char b[20];
        snprintf(b, sizeof b, "key%u", r(keys));
        switch(r(6)) {
        case 0: {
            auto *p = m.lookup(P::U8String(b));
            o.num("l", p ? *p : -1);
            break;
        }
        case 1: o.num("c", m.contains(P::U8String(b))); break;
        case 2: o.num("s", s.contains(P::U8String(b))); break;
        case 3: {
            int64_t sum = 0;
            for(const auto &kv : m)
                sum += *kv.value * 31 + (int64_t)kv.key->size_bytes();
            o.num("it", sum);
            break;
        }
        case 4: {
            int64_t sum = 0;
            for(const auto &k : s)
                sum += k.size_bytes() * 7 + k.c_str()[3];
            o.num("sit", sum);
            break;
        }
        case 5: o.num("n", m.size() * 1000 + s.size() + m.is_empty()); break;
        }
    }
};
struct ShTree : Shared {
    P::BTree<P::U8String, 3> t;
    P::BTreeSet<int64_t, 5> s;
    int keys;
    explicit ShTree(Rng &r) : keys(5 + r(30)) {
        for(int k = 0; k < keys; ++k) {
            char b[20];
            int key = r(keys);
            snprintf(b, sizeof b, "key%02d", key);
            if(r(2)) t.insert(P::U8String(b));
            if(r(2)) s.insert(key);
            if(r(8) == 0) t.remove(P::U8String(b));
        }
    }
    void read(Rng &r, Rec &o) const override {
        char b[20];
        int key = r(keys);
        snprintf(b, sizeof b, "key%02d", key);
        switch(r(4)) {
        case 0: {
            auto *p = t.lookup(P::U8String(b));
            if(p)
                put(o, "l", *p);
            else
                o.mark("none");
            break;
        }
        case 1: o.num("c", t.contains(P::U8String(b))); break;
        case 2: o.num("s", s.contains(key)); break;
        case 3: o.num("n", t.size() * 1000 + s.size() + s.is_empty()); break;
        }
    }
};
struct ShPath : Shared {
    P::Path p, d;
    explicit ShPath(Rng &r) : p((P::Path("/shared") / "f1.txt").c_str()), d("/shared") { r(2); }
    void read(Rng &r, Rec &o) const override {
        switch(r(8)) {
        case 0: put(o, "p", p); break;
        case 1: put(o, "ext", p.extension()); break;
        case 2: put(o, "name", p.filename()); break;
        case 3: {
            auto v = p.split();
            for(auto &x : v)
                put(o, "part", x);
            break;
        }
        case 4: o.num("is", p.is_file() + 2 * p.is_dir() + 4 * p.exists() + 8 * d.is_dir()); break;
        case 5: put(o, "join", d / p); break;
        case 6: o.num("abs", p.is_abs()); break;
        case 7: {
            P::Path c(p);
            auto b = c.load_bytes();
            if(b) put(o, "b", *b);
            break;
        }
        }
    }
};
struct ShRegex : Shared {
    P::U8Regex re;
    P::U8String text;
    static const char *pattern(Rng &r) {
        static const char *const pat[] = {"(b).*?(a)", "([a-z]+) ([0-9]+)", "(x)|(a)(b)?", "a*", "^(\\w+)"};
        return pat[r(5)];
    }
    explicit ShRegex(Rng &r) : re(P::U8String(pattern(r))), text(jobs::ascii(r, 50).p) {}
    void read(Rng &r, Rec &o) const override {
        P::U8String own(jobs::ascii(r, 30).p);
        const P::U8String &s = r(2) ? text : own;
        try {
            auto m = P::regex_search(re, s);
            for(size_t g = 0; g <= m.num_groups(); ++g)
                put(o, "g", m.group(g));
        } catch(const P::PyException &) {
            o.mark("none");
        }
    }
};
struct ShHolders : Shared {
    P::Optional<P::CString> a, b;
    P::Variant<int64_t, P::CString> v;
    P::FixedCString<16> f;
    explicit ShHolders(Rng &r) : a(P::CString(jobs::word(r).p)), v(P::CString(jobs::word(r).p)), f("fixed") {
        if(r(2)) v = P::Variant<int64_t, P::CString>((int64_t)r(50));
    }
    void read(Rng &r, Rec &o) const override {
        switch(r(4)) {
        case 0: put(o, "a", *a); break;
        case 1: o.num("b", (bool)b + 2 * (bool)a); break;
        case 2:
            if(auto *p = v.template get_if<P::CString>())
                put(o, "v", *p);
            else
                o.num("v", *v.template get_if<int64_t>());
            break;
        case 3: put(o, "f", f.view()); break;
        }
    }
};
#if EPOCH == 2026
struct ShView : Shared {
    P::CString s;
    P::U8StringView u;
    P::ZStringView z;
    explicit ShView(Rng &r) : s(jobs::ascii(r, 50).p), u(s.c_str(), s.size()), z(s.zview()) {}
    void read(Rng &r, Rec &o) const override {
        switch(r(6)) {
        case 0: put(o, "u", u); break;
        case 1: put(o, "up", u.upper()); break;
        case 2: {
            uint64_t h = 0;
            for(auto it = u.begin(); it != u.end(); ++it)
                h = h * 31 + *it;
            o.num("cps", (long long)h);
            break;
        }
        case 3: o.num("z", z.size() + (z == "a b")); break;
        case 4: put(o, "sub", z.subview(z.size() / 2).view()); break;
        case 5: {
            P::U8StringView c(u);
            for(const auto &w : P::Loopsume(c.split_ascii()))
                put(o, "w", w);
            break;
        }
        }
    }
};
#endif
template<typename T> Shared *build(Rng &r) { return new T(r); }
struct KindOf {
    const char *name;
    Shared *(*make)(Rng &);
};
const KindOf kinds[] = {{"C string", build<ShCString>}, {"Unicode string", build<ShU8>}, {"byte buffer", build<ShBytes>}, {"vector", build<ShVector>},
                        {"hash map and set", build<ShHash>}, {"ordered set", build<ShTree>}, {"path", build<ShPath>}, {"regular expression", build<ShRegex>},
                        {"holders", build<ShHolders>},
#if EPOCH == 2026
                        {"views", build<ShView>},
#endif
};
const int nkinds = sizeof kinds / sizeof kinds[0];

struct Reader {
    std::vector<Shared *> *obj;
    uint64_t seed;
    int rounds;
    bool threw = false;
    Rec rec;
};
void read_all(Reader &rd) {
    jobs::Rng r(rd.seed);
    size_t n = host([&] { return rd.obj->size(); });
    try {
        for(int k = 0; k < rd.rounds; ++k) {
            const Shared *o = host([&] { return (*rd.obj)[r(n)]; });
            o->read(r, rd.rec);
        }
    } catch(...) {
        host([&] { rd.threw = true; });
    }
}
void *body(void *p) {
    read_all(*(Reader *)p);
    return nullptr;
}
} // namespace

SIM_SCENARIO(shared_readers, 10) {
    randomize_heap();
    randomize_sched();
    allow_steps(40000000);
    jobs::make_dir("/shared", 7);
    std::vector<Shared *> objs;
    int n = 1 + pick(2);
    for(int k = 0; k < n; ++k) {
        const auto &kd = kinds[pick(nkinds)];
        uint64_t seed = pick(1 << 20);
        log("shared: %s %llu", kd.name, (unsigned long long)seed);
        Sut s;
        jobs::Rng r(seed);
        Shared *sh = kd.make(r);
        host([&] { objs.push_back(sh); });
    }
    int nt = 2 + pick(4);
    if(flip(1, 60)) {
        nt = 6 + pick(flip(1, 6) ? 260 : 40);
        allow_steps(400000000);
        probe("a crowd of readers");
    }
    std::vector<Reader> par(nt), alone;
    bool same = coin(); // all threads ask the same questions
    uint64_t base = pick(1 << 20);
    for(int t = 0; t < nt; ++t) {
        par[t].obj = &objs;
        par[t].seed = same ? base : base + t;
        par[t].rounds = 2 + pick(8);
    }
    alone = par;
    auto single = [&] {
        for(auto &r : alone)
            sut([&] { read_all(r); });
    };
    bool before = flip(1, 3);
    if(before) single();
    bool main_too = coin();
    std::vector<P::Thread *> th;
    for(int t = main_too; t < nt; ++t)
        th.push_back(make<P::Thread>(body, (void *)&par[t]));
    if(main_too) sut([&] { read_all(par[0]); });
    for(auto *x : th) {
        sut([&] { x->join(); });
        destroy(x);
    }
    if(!before) single();
    for(int t = 0; t < nt; ++t) {
        SIM_CHECK(!alone[t].threw, "unexpected-exception", "reading fails for a single reader");
        SIM_CHECK(!par[t].threw, "interference", "reading fails next to other readers, not for a single reader");
        auto &p = par[t].rec.s, &a = alone[t].rec.s;
        if(p != a) {
            size_t d = diff_at(p, a);
            size_t b = d > 40 ? d - 40 : 0;
            fail("interference", "one of several readers gets \"%s\", a single one \"%s\"", p.substr(b, 120).c_str(), a.substr(b, 120).c_str());
        }
    }
    for(auto *o : objs) {
        Sut s;
        delete o;
    }
    check_no_leaks("the readers");
}
