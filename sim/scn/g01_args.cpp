// G01: a command line sets exactly what it says, or is rejected.
#include "elem.hpp"
#if EPOCH == 2026
#include <errno.h>
#include <pystd2026_argparse.hpp>

namespace {
typedef std::string S;
S shown(const S &s) { return sim::show(s.data(), std::min<size_t>(s.size(), 60)); }
enum Type { TEXT, ARRAY, FLAG, NUMBER };
enum Action { STORE, SET, CLEAR, APPEND };
struct Val {
    Type t = TEXT;
    bool b = false;
    int64_t i = 0;
    S s;
    std::vector<S> v;
    bool operator==(const Val &o) const { return t == o.t && b == o.b && i == o.i && s == o.s && v == o.v; }
    S show() const {
        if(t == FLAG) return b ? "true" : "false";
        if(t == NUMBER) return fmt("%lld", (long long)i);
        if(t == TEXT) return "\"" + shown(s) + "\"";
        S r = "[";
        for(auto &x : v)
            r += "\"" + shown(x) + "\" ";
        return r + "]";
    }
};
struct Decl {
    S name, lo, help;
    char so = 0;
    Type t = TEXT;
    Action a = STORE;
    bool has_def = false, has_min = false, has_max = false;
    Val def;
    int64_t min = 0, max = 0;
    bool takes_value() const { return a == STORE || a == APPEND; }
};
typedef std::map<S, Val> Values;
enum Kind { ACCEPTED, REJECTED, HELP };
struct Outcome {
    Kind k = ACCEPTED;
    Values v;
    S why;
};
S gen_value() {
    static const char *const c[] = {"value", "a", "--out", "-v", "--", "a=b", "=", "x y", "\xC3\xA4\xE2\x82\xAC", "--help", "-h", "0", "%s%n", "-"};
    switch(pick(6)) {
    case 0: return S(pick(flip(1, 6) ? 5000 : 24), 'a' + pick(26));
    case 1: return "";
    case 2: return fmt("w%u", pick(1000));
    default: return c[pick(14)];
    }
}
S gen_number(const Decl &d) {
    switch(pick(9)) {
    case 0: {
        static const char *const bad[] = {"", "x", "12x", "1.5", "0x10", "--5", "-", "1 2", "12,", "five", "3-", "99999999999x"};
        return bad[pick(12)];
    }
    case 1: {
        static const char *const edge[] = {"9223372036854775807", "-9223372036854775808", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "-0", "007", "4294967296", "2147483648", "-2147483649"};
        return edge[pick(10)];
    }
    case 2:
        if(d.has_min) return fmt("%lld", (long long)d.min + pick(3) - 1);
        return "1";
    case 3:
        if(d.has_max) return fmt("%lld", (long long)d.max + pick(3) - 1);
        return "-1";
    default: return fmt("%d", (int)pick(2000) - 1000);
    }
}
// A number is an optional sign and decimal digits that fit 64 bits.
bool number(const S &s, int64_t &out) {
    size_t i = 0;
    bool neg = s.size() && s[0] == '-';
    if(neg) ++i;
    if(i == s.size()) return false;
    __int128 x = 0;
    for(; i < s.size(); ++i) {
        if(s[i] < '0' || s[i] > '9') return false;
        x = x * 10 + (s[i] - '0');
        if(x > (__int128)INT64_MAX + 1) return false;
    }
    if(neg) x = -x;
    if(x > INT64_MAX) return false;
    out = (int64_t)x;
    return true;
}
Outcome ref_parse(const std::vector<Decl> &ds, bool posargs, const std::vector<S> &words) {
    Outcome o;
    auto reject = [&](const char *why) {
        o.k = REJECTED;
        o.why = why;
        return o;
    };
    for(auto &d : ds)
        if(d.has_def) o.v[d.name] = d.def;
    for(size_t i = 0; i < words.size(); ++i) {
        const S &w = words[i];
        if(w.empty()) return reject("an empty word");
        if(w == "--help" || w == "-h") {
            o.k = HELP;
            return o;
        }
        if(w == "--") break;
        if(w[0] != '-') {
            if(!posargs) return reject("a positional word");
            continue;
        }
        bool lng = w.compare(0, 2, "--") == 0;
        const Decl *d = nullptr;
        S value;
        bool attached = false;
        if(lng) {
            size_t eq = w.find('=');
            S key = w.substr(0, eq);
            for(auto &x : ds)
                if(x.lo == key) d = &x;
            if(eq != S::npos) {
                attached = true;
                value = w.substr(eq + 1);
            }
        } else {
            for(auto &x : ds)
                if(x.so && x.so == w[1]) d = &x;
            if(w.size() > 2) {
                attached = true;
                value = w.substr(2);
            }
        }
        if(!d) return reject("an unknown option");
        if(!d->takes_value()) {
            if(attached) return reject("a value for a flag");
            auto &v = o.v[d->name];
            v.t = FLAG;
            v.b = d->a == SET;
            continue;
        }
        if(!attached) {
            if(i + 1 >= words.size()) return reject("a missing value");
            value = words[++i];
        }
        auto &v = o.v[d->name];
        v.t = d->t;
        if(d->t == TEXT)
            v.s = value;
        else if(d->t == NUMBER) {
            if(!number(value, v.i)) return reject("not a number");
            if(d->has_min && v.i < d->min) return reject("a number below the minimum");
            if(d->has_max && v.i > d->max) return reject("a number above the maximum");
        } else {
            if(d->a == STORE) v.v.clear();
            v.v.push_back(value);
        }
    }
    return o;
}
struct Args {
    P::ArgParse *ap = nullptr;
    std::vector<Decl> ds;
    std::vector<S> refused_names;
    bool posargs = false;
    bool many = false; // options, words on the command line
    S description;
    struct Res {
        P::Optional<P::ParseOutput> *out;
        Values v;
    };
    std::vector<Res> results;
    Outcome want;
    S prog;
    // ---- text in memory that ends where the text ends
    std::vector<char *> blocks;
    const char *put(const S &s) {
        faults().oom_after = -1;
        char *p = (char *)heap_alloc(s.size() + 1, 1);
        memcpy(p, s.c_str(), s.size() + 1);
        blocks.push_back(p);
        return p;
    }
    void drop() {
        for(auto p : blocks) {
            memset(p, 'Z', strlen(p));
            heap_free(p);
        }
        blocks.clear();
    }
    P::ArgumentValue value(const Val &v) { // in Sut scope
        switch(v.t) {
        case FLAG: return P::ArgumentValue(v.b);
        case NUMBER: return P::ArgumentValue(v.i);
        case TEXT: return P::ArgumentValue(P::CString(v.s.c_str()));
        default: {
            P::Vector<P::CString> a;
            for(auto &x : v.v)
                a.push_back(P::CString(x.c_str()));
            return P::ArgumentValue(P::move(a));
        }
        }
    }
    Decl gen_decl() {
        Decl d;
        unsigned k = pick(many ? 3000 : 30);
        static const char *const names[] = {"out", "o", "output", "out-dir", "verbose", "v", "num", "number", "I", "level", "x", "help-text", "a", "n"};
        const char *nm = names[pick(14)];
        d.name = many || flip(1, 4) ? fmt("opt%u", k) : S(nm);
        if(flip(1, 8)) // names that differ in one place only
            d.name = "a-" + S(flip(1, 6) ? 250 + pick(20) : pick(70), 'n') + "name"[pick(4)] + S(pick(3) * pick(25), 'm');
        if(flip(5, 6)) d.lo = "--" + (flip(1, 5) ? fmt("long%u", k) : flip(1, 6) ? S(names[pick(14)]) : d.name);
        if(d.lo.empty() || (many ? flip(1, 40) : coin())) d.so = many ? '0' + pick('z' - '0' + 1) : "ovnIlxabcdVO"[pick(12)];
        static const Type ts[] = {TEXT, NUMBER, FLAG, ARRAY};
        d.t = ts[pick(4)];
        d.a = d.t == FLAG ? (coin() ? SET : CLEAR) : d.t == ARRAY && flip(2, 3) ? APPEND : STORE;
        if(coin()) d.help = flip(1, 4) ? "100% of %s" : fmt("help for %u", k);
        if(d.t == NUMBER) {
            if(flip(1, 2)) {
                d.has_min = true;
                d.min = flip(1, 6) ? (coin() ? INT64_MIN : (int64_t)INT32_MIN - 5) : (int)pick(200) - 100;
            }
            if(flip(1, 2)) {
                d.has_max = true;
                d.max = flip(1, 6) ? INT64_MAX : (d.has_min ? d.min + pick(50) : (int)pick(200) - 100);
            }
        }
        if(flip(1, 2)) {
            d.has_def = true;
            d.def.t = d.t;
            d.def.b = d.a == CLEAR ? flip(3, 4) : flip(1, 4);
            if(d.t == FLAG) {
            } else
                d.def.b = false;
            if(d.t == NUMBER) d.def.i = (int)pick(200) - 100;
            if(d.t == TEXT) d.def.s = gen_value();
            if(d.t == ARRAY)
                for(int n = pick(4); n > 0; --n)
                    d.def.v.push_back(gen_value());
        }
        return d;
    }
    void declare(uint32_t den) {
        Decl d = gen_decl();
        bool dup = false;
        for(auto &x : ds)
            dup |= x.name == d.name || (!d.lo.empty() && x.lo == d.lo) || (d.so && x.so == d.so);
        log("declare %s (%s, -%c) type %d action %d%s%s", d.name.c_str(), d.lo.c_str(), d.so ? d.so : ' ', d.t, d.a, d.has_def ? " default " : "", d.has_def ? d.def.show().c_str() : "");
        const char *nm = put(d.name), *lo = put(d.lo), *help = put(d.help);
        bool threw = false;
        arm_faults(den);
        try {
            Sut u;
            P::Argument a;
            a.name = P::CString(nm);
            if(*lo) a.long_arg = P::CString(lo);
            a.short_arg = d.so;
            a.help = P::U8String(help);
            static const P::ArgumentType ts[] = {P::ArgumentType::String, P::ArgumentType::StringArray, P::ArgumentType::Boolean, P::ArgumentType::Integer};
            static const P::ArgumentAction as[] = {P::ArgumentAction::Store, P::ArgumentAction::StoreTrue, P::ArgumentAction::StoreFalse, P::ArgumentAction::AppendArray};
            a.type = ts[d.t];
            a.aaction = as[d.a];
            if(d.has_def) a.default_value = value(d.def);
            if(d.has_min) a.minval = d.min;
            if(d.has_max) a.maxval = d.max;
            ap->add_argument(P::move(a));
        } catch(P::PyException &) {
            threw = true;
        } catch(...) {
            SIM_CHECK(op_faults(), "unexpected-exception", "declaring an option threw something that is no PyException");
            threw = true;
        }
        disarm();
        drop();
        if(dup)
            SIM_CHECK(threw, "not-refused", "a second option with the same name, long or short form was accepted");
        else
            SIM_CHECK(!threw || op_faults(), "refused", "an option that collides with no other was refused");
        if(threw)
            probe(dup ? "colliding declaration refused" : "declaration failed");
        else
            ds.push_back(d);
    }
    void check_results() {
        std::set<S> names;
        for(auto &d : ds)
            names.insert(d.name);
        names.insert("never declared");
        names.insert("");
        for(auto &r : results)
            for(auto &n : names) {
                const char *q = put(n);
                bool have = false;
                Val got;
                {
                    Sut u;
                    P::ParseOutput &po = **r.out;
                    auto *m = po.value_of(P::CStringView(q));
                    auto *c = ((const P::ParseOutput &)po).value_of(P::CStringView(q));
                    Host h;
                    SIM_CHECK(m == c, "wrong-value", "asking a parse result for a value twice gives different objects");
                    have = m != nullptr;
                    if(m) {
                        Sut v;
                        if(auto *b = m->get_if<bool>()) {
                            got.t = FLAG;
                            got.b = *b;
                        } else if(auto *i = m->get_if<int64_t>()) {
                            got.t = NUMBER;
                            got.i = *i;
                        } else if(auto *s = m->get_if<P::CString>()) {
                            got.t = TEXT;
                            size_t n = s->size();
                            const char *p = s->c_str();
                            Host h2;
                            got.s.assign(p, n);
                        } else {
                            got.t = ARRAY;
                            auto &a = m->get<P::Vector<P::CString>>();
                            for(size_t k = 0; k < a.size(); ++k) {
                                size_t n = a[k].size();
                                const char *p = a[k].c_str();
                                Host h2;
                                got.v.push_back(S(p, n));
                            }
                        }
                    }
                }
                drop();
                auto it = r.v.find(n);
                bool should = it != r.v.end();
                SIM_CHECK(have == should, "wrong-value", "option \"%s\": %s", shown(n).c_str(), should ? "was set but has no value" : "has a value although it was neither given nor has a default");
                if(should) SIM_CHECK(got == it->second, "wrong-value", "option \"%s\" is %s, should be %s", shown(n).c_str(), got.show().c_str(), it->second.show().c_str());
            }
    }
    std::vector<S> gen_line() {
        std::vector<S> w;
        int n = pick(many ? 500 : 8);
        bool wild = flip(1, 3);
        for(int i = 0; i < n; ++i) {
            if(!ds.empty() && flip(4, 5)) {
                auto &d = ds[pick(ds.size())];
                S val = d.t == NUMBER ? (wild || flip(1, 12) ? gen_number(d) : fmt("%lld", d.has_min ? (long long)d.min : d.has_max ? (long long)d.max : (long long)pick(100))) : gen_value();
                bool lng = d.so ? !d.lo.empty() && coin() : true;
                S key = lng ? d.lo : S("-") + d.so;
                if(!d.takes_value()) {
                    if(wild && flip(1, 8)) key += lng ? "=" + val : fmt("q%u", pick(9)); // what follows a flag is no value
                    w.push_back(key);
                    continue;
                }
                if(coin() && (lng || (val.size() && val[0] != '=')))
                    w.push_back(lng ? key + "=" + val : key + val);
                else {
                    w.push_back(key);
                    if(!(wild && flip(1, 8))) w.push_back(val);
                }
            } else
                switch(pick(wild ? 9 : 3)) {
                case 0:
                case 1: w.push_back(posargs || wild ? fmt("pos%u", pick(100)) : "--"); break;
                case 2:
                    if(flip(1, 3)) w.push_back("--");
                    break;
                case 3: w.push_back(""); break;
                case 4: w.push_back(coin() ? "--help" : "-h"); break;
                case 5: w.push_back("--nosuch"); break;
                case 6: w.push_back("--nosuch=x"); break;
                case 7: w.push_back(fmt("-%c", "zZ?9"[pick(4)])); break;
                default: w.push_back("--=x");
                }
        }
        return w;
    }
    static void exited(void *c, int code) {
        auto &a = *(Args *)c;
        a.disarm_io();
        if(op_faults() && code != 0) {
            probe("stopped visibly after a fault");
            return;
        }
        if(a.want.k == HELP) {
            SIM_CHECK(code == 0, "wrong-exit", "asked for help the program exits with status %d", code);
            a.check_help(program_output());
            probe("help printed");
            return;
        }
        SIM_CHECK(a.want.k == REJECTED, "refused", "a correct command line ends the program with status %d: %s", code, shown(error_output() + program_output()).c_str());
        SIM_CHECK(code != 0, "wrong-exit", "a command line with %s ends the program with status 0", a.want.why.c_str());
        SIM_CHECK(!(error_output() + program_output()).empty(), "silent", "a command line with %s ends the program without a word", a.want.why.c_str());
        probe("rejected command line");
        a.check_results(); // what was parsed before is still there
    }
    void disarm_io() {
        disarm();
        capture_output = false;
    }
    void check_help(const S &out) {
        size_t at = 0;
        auto next = [&](const S &what, const char *of) {
            size_t k = out.find(what, at);
            SIM_CHECK(k != S::npos, "help-incomplete", "%s \"%s\" is missing in the help text (or out of order): %s", of, shown(what).c_str(), sim::show(out.data(), std::min<size_t>(out.size(), 400)).c_str());
            at = k + what.size();
        };
        next(prog, "the program's name");
        next(description, "the description");
        for(auto &d : ds) {
            if(!d.lo.empty()) next(d.lo, "the long form");
            if(d.so) next(S("-") + d.so, "the short form");
            next(d.help, "the help for an option");
            if(d.has_def) {
                if(d.t == FLAG) next(d.def.b ? "true" : "false", "a default");
                if(d.t == NUMBER) next(fmt("%lld", (long long)d.def.i), "a default");
                if(d.t == TEXT) next(d.def.s, "a default");
                for(auto &x : d.def.v)
                    next(x, "a default");
            }
        }
    }
    void parse(uint32_t den) {
        auto words = gen_line();
        want = ref_parse(ds, posargs, words);
        S line;
        for(auto &w : words)
            line += " '" + shown(w) + "'";
        log("parse%s -> %s", line.c_str(), want.k == ACCEPTED ? "accepted" : want.k == HELP ? "help" : want.why.c_str());
        static const char *const progs[] = {"prog", "/usr/bin/tool", "./a b", "%s%d"};
        prog = progs[pick(4)];
        faults().oom_after = -1;
        int argc = 1 + (int)words.size();
        const char **argv = (const char **)heap_alloc((argc + 1) * sizeof(char *));
        argv[0] = put(prog);
        for(int i = 1; i < argc; ++i)
            argv[i] = put(words[i - 1]);
        argv[argc] = nullptr;
        auto *res = (P::Optional<P::ParseOutput> *)nullptr;
        bool threw = false;
        static const int errs[] = {0, ERANGE, ENOENT, EINTR};
        int e0 = errs[choose(FAULT, 4)]; // an error left over from something else
        capture_output = true;
        program_output().clear();
        error_output().clear();
        on_exit_status(exited, this);
        arm_faults(den);
        try {
            errno = e0;
            res = make<P::Optional<P::ParseOutput>>(sut([&] { return ap->parse_args(argc, argv); }));
        } catch(P::PyException &) {
            threw = true;
        } catch(...) {
            SIM_CHECK(op_faults(), "unexpected-exception", "parsing threw something that is no PyException");
            threw = true;
        }
        disarm_io();
        on_exit_status(nullptr, nullptr);
        drop();
        heap_free(argv);
        if(threw) {
            SIM_CHECK(want.k == REJECTED || op_faults(), "refused", "a correct command line was refused by an exception");
            probe(op_faults() ? "failed after a fault" : "rejected command line");
            check_results();
            return;
        }
        SIM_CHECK(want.k != HELP, "no-help", "the program went on although help was asked for");
        SIM_CHECK(want.k == ACCEPTED, "not-refused", "a command line with %s was accepted", want.why.c_str());
        bool has = sut([&] { return (bool)*res; });
        SIM_CHECK(has, "refused", "a correct command line gives no result");
        results.push_back({res, want.v});
        probe("accepted command line");
        check_results();
    }
    void run(uint32_t den) {
        randomize_heap();
        description = flip(1, 5) ? "" : "does %d things";
        {
            const char *d = put(description);
            Sut u;
            P::ArgParse *p = make<P::ArgParse>(P::U8String(d));
            ap = p;
        }
        drop();
        int n = 2 + pick(14);
        if(many) {
            allow_steps(4000000000ull);
            for(int i = 20 + pick(300); i > 0; --i)
                declare(0);
            if(ds.size() > 64) probe("more than 64 options");
        }
        for(int i = 0; i < n; ++i) {
            switch(pick(8)) {
            case 0:
                if(!posargs) {
                    posargs = true;
                    sut([&] { ap->permit_posargs(); });
                    log("positional words are permitted");
                }
                break;
            case 1:
                if(results.size() > 1) {
                    size_t a = pick(results.size()), b = pick(results.size());
                    if(a == b) break;
                    log("result %zu is moved onto %zu", a, b);
                    sut([&] { **results[b].out = P::move(**results[a].out); });
                    results[b].v = results[a].v;
                    destroy(results[a].out);
                    results.erase(results.begin() + a);
                    check_results();
                }
                break;
            case 2:
                if(!results.empty()) {
                    // a value taken or changed by the user belongs to that result alone
                    auto &r = results[pick(results.size())];
                    for(auto &kv : r.v)
                        if(kv.second.t == ARRAY) {
                            const char *q = put(kv.first);
                            sut([&] { (*r.out)->value_of(P::CStringView(q))->get<P::Vector<P::CString>>().emplace_back("added"); });
                            drop();
                            kv.second.v.push_back("added");
                            log("the user adds to %s", kv.first.c_str());
                            break;
                        }
                    check_results();
                }
                break;
            case 3:
            case 4:
            case 5: declare(den); break;
            default: parse(den);
            }
        }
        destroy(ap);
        check_results();
        for(auto &r : results)
            destroy(r.out);
        nontrivial();
        check_no_leaks("parsing arguments");
    }
};
} // namespace

SIM_SCENARIO(command_lines, 5) {
    Args a;
    a.run(0);
}
SIM_SCENARIO(command_lines_many, 1) {
    Args a;
    a.many = flip(1, 6);
    a.run(0);
}
SIM_SCENARIO(command_lines_faults, 2) {
    Args a;
    a.run(2 + choose(FAULT, 10));
}
#endif
