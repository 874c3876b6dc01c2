// F05: a glob yields exactly the matching paths, whatever the directory does meanwhile.
#include "gen.hpp"

namespace {
typedef std::vector<std::string> Segs;
struct Entry {
    char kind; // '/' directory, '=' file, '-' link, '|' pipe
};
typedef std::map<std::string, char> Tree; // path -> kind
Tree snapshot() {
    Tree t;
    std::string d = fs::dump();
    size_t b = 0;
    while(b < d.size()) {
        size_t e = d.find('\n', b);
        std::string l = d.substr(b, e - b);
        size_t k = l.find_first_of("=|");
        size_t a = l.find("->");
        if(k == l.npos || (a != l.npos && a < k)) k = a;
        if(k == l.npos) k = l.size() - 1;
        t[l.substr(0, k)] = l[k];
        b = e + 1;
    }
    return t;
}
// Reference: which names does one pattern segment match?
bool seg_match(const std::string &n, const std::string &p) {
    if(!n.empty() && n[0] == '.' && (p.empty() || p[0] != '.')) return false;
    std::vector<std::vector<int>> memo(n.size() + 1, std::vector<int>(p.size() + 1, -1));
    std::function<bool(size_t, size_t)> m = [&](size_t i, size_t j) -> bool {
        int &r = memo[i][j];
        if(r >= 0) return r;
        if(j == p.size())
            r = i == n.size();
        else if(p[j] == '*')
            r = m(i, j + 1) || (i < n.size() && m(i + 1, j));
        else
            r = i < n.size() && (p[j] == '?' || p[j] == n[i]) && m(i + 1, j + 1);
        return r;
    };
    return m(0, 0);
}
Segs split(const std::string &s) {
    Segs v;
    std::string c;
    for(char ch : s + "/")
        if(ch == '/') {
            if(!c.empty()) v.push_back(c);
            c.clear();
        } else
            c.push_back(ch);
    return v;
}
// Does the relative path, given by its segments, match?  How the directories look is checked elsewhere.
bool path_match(const Segs &n, size_t i, const Segs &p, size_t j) {
    if(j == p.size()) return i == n.size();
    if(p[j] == "**") {
        size_t left = p.size() - j - 1; // as many names are left for what follows, if there is no further **
        bool more = false;
        for(size_t q = j + 1; q < p.size(); ++q)
            more |= p[q] == "**";
        for(size_t k = i;; ++k) {
            if((more || n.size() == k + left) && path_match(n, k, p, j + 1)) return true;
            if(k >= n.size() || n[k][0] == '.') return false;
        }
    }
    if(p[j] == "*") // (frequent in long patterns)
        return i < n.size() && n[i][0] != '.' && path_match(n, i + 1, p, j + 1);
    return i < n.size() && seg_match(n[i], p[j]) && path_match(n, i + 1, p, j + 1);
}
std::string parent(const std::string &p) { return p.substr(0, p.rfind('/')); }
bool under(const std::string &p, const std::string &dir) { return p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'; }

const char *words[] = {"a", "b", "ab", "aab", "abb", "ba", "aba", "abab", "x.txt", "y.txt", "a.txt", ".h", ".ab", "..a", "...", "*", "a?b", "\xC3\xA4", "a b", "[a]", "aa"};
std::string gen_entry_name() {
    uint32_t k = pick(26);
    if(k < 21) return words[k];
    std::string s;
    if(k == 25) {
        size_t n = 200 + pick(56);
        while(s.size() < n)
            s.push_back('a' + pick(2));
        return s;
    }
    for(int n = 1 + pick(6); n > 0; --n)
        s.push_back("ab.c"[pick(4)]);
    if(s == "." || s == "..") s = "ab";
    return s;
}
void gen_tree(const std::string &dir, int depth, int &budget) {
    int n = pick(depth == 0 ? 7 : 5);
    for(int i = 0; i < n && budget > 0; ++i, --budget) {
        std::string p = dir + "/" + gen_entry_name();
        if(fs::kind(p, false) != fs::NONE) continue;
        switch(pick(8)) {
        default: fs::add_file(p, "x"); break;
        case 3:
        case 4:
        case 5:
        case 6:
            if(depth < 4) {
                fs::add_dir(p);
                gen_tree(p, depth + 1, budget);
            }
            break;
        case 7:
            if(coin())
                fs::add_fifo(p, "");
            else if(coin())
                fs::add_link(p, "nowhere"); // leads to nothing, but is a name in the directory
            else { // leads to a directory, but is not one
                std::vector<std::string> dirs{".", "..", "/w", dir.empty() ? "/" : dir};
                for(auto &[k, v] : snapshot())
                    if(v == '/' && !k.empty()) dirs.push_back(k);
                fs::add_link(p, dirs[pick(dirs.size())]);
                probe("links to directories");
            }
            break;
        }
    }
}
std::string gen_segment() {
    switch(pick(10)) {
    case 0: return "*";
    case 1: return "?";
    case 2: return "*.txt";
    case 3: return "a*";
    case 4: return "*b";
    case 5: return ".*";
    case 6: return gen_entry_name();
    case 7: {
        std::string s = gen_entry_name();
        size_t at = pick(s.size());
        s[at] = '?';
        return s;
    }
    case 8: {
        std::string s = gen_entry_name();
        size_t at = pick(s.size());
        size_t len = pick(s.size() - at + 1);
        return s.substr(0, at) + "*" + s.substr(at + len);
    }
    }
    std::string s;
    for(int n = 1 + pick(5); n > 0; --n) {
        char c = "ab*?."[pick(5)];
        if(c == '*' && !s.empty() && s.back() == '*') c = '?';
        s.push_back(c);
    }
    return s;
}
std::string gen_pattern() {
    int n = 1 + pick(4);
    int star = flip(1, 2) ? (int)pick(n) : -1;
    std::string p;
    for(int i = 0; i < n; ++i) {
        std::string s = i == star && i + 1 < n ? "**" : gen_segment();
        if(s.find("**") != s.npos && s != "**") s = "*";
        if(s == "**" && (i != star || i + 1 == n)) s = "*";
        p += (i ? (flip(1, 12) ? "//" : "/") : "") + s;
    }
    return p;
}
struct World {
    std::string root;   // as given
    std::string at;     // absolute
    bool live = false;  // in a glob
    bool mutate = false;
    uint32_t den = 4;
    Tree first;
    std::map<std::string, char> ever;   // every path that existed since the walk began
    std::set<std::string> unstable;     // paths that did not exist, unchanged, throughout
    std::set<std::string> dirty;        // directories whose listing changed or failed
    uint32_t faults = 0;
    std::string last;
    int acts = 0;
};
World *W;
void note_faults() {
    auto &w = *W;
    uint32_t f = op_faults() - op_faults("readdir:DT_UNKNOWN");
    if(f != w.faults) w.dirty.insert(w.last);
    w.faults = f;
}
std::string absolute(const char *p) {
    std::string s = p ? p : "";
    if(s.empty() || s[0] != '/') {
        if(s == ".") s = "";
        s = fmt("%s", "/w") + (s.empty() ? "" : "/" + s);
    }
    while(s.size() > 1 && s.back() == '/')
        s.pop_back();
    return s == "/" ? "" : s;
}
void mutate() {
    auto &w = *W;
    Tree t = snapshot();
    std::vector<std::string> in;
    for(auto &[k, v] : t)
        if(under(k, w.at)) in.push_back(k);
    auto drop = [&](const std::string &p) {
        w.unstable.insert(p);
        for(auto &[k, v] : t)
            if(under(k, p)) w.unstable.insert(k);
        w.dirty.insert(parent(p));
    };
    switch(choose(SCHED, 4)) {
    case 0:
        if(!in.empty()) {
            auto p = in[choose(SCHED, in.size())];
            log("another process removes %s", p.c_str());
            drop(p);
            fs::remove(p);
        }
        break;
    case 1:
    case 2: {
        std::vector<std::string> dirs{w.at};
        for(auto &p : in)
            if(t[p] == '/') dirs.push_back(p);
        auto d = dirs[choose(SCHED, dirs.size())];
        auto p = d + "/" + words[choose(SCHED, 21)];
        if(t.count(p)) break;
        w.dirty.insert(d);
        w.unstable.insert(p);
        log("another process creates %s", p.c_str());
        if(choose(SCHED, 2))
            fs::add_dir(p);
        else
            fs::add_file(p, "n");
        break;
    }
    case 3:
        if(in.size() > 1) {
            auto a = in[choose(SCHED, in.size())], b = in[choose(SCHED, in.size())];
            if(t[b] == '/') b += fmt("/%s", words[choose(SCHED, 21)]);
            if(t.count(b) && t[b] == '/') break;
            Tree before = t;
            // (A link that is put where the walk has just seen a directory may be entered.)
            bool links = t[a] == '-';
            for(auto &[k, v] : t)
                links |= v == '-' && under(k, a);
            if(links) break;
            if(fs::rename(a, b)) {
                log("another process renames %s to %s", a.c_str(), b.c_str());
                drop(a);
                w.dirty.insert(parent(b));
                t = snapshot();
                for(auto &[k, v] : t)
                    if(!before.count(k) || before[k] != v || k == b || under(k, b)) w.unstable.insert(k);
            }
        }
        break;
    }
    ++w.acts;
    probe("another process changed the tree during a walk");
    for(auto &[k, v] : snapshot()) w.ever.emplace(k, v);
}
void on_sys(void *, const char *op, const char *path) {
    auto &w = *W;
    if(!w.live) return;
    note_faults();
    w.last = absolute(path);
    if(!strcmp(op, "lstat") || !strcmp(op, "stat") || !strcmp(op, "fstatat")) w.last = parent(w.last); // its classification failed
    if(w.mutate && chance(SCHED, 1, w.den)) mutate();
}
bool clean_above(const World &w, const std::string &p) {
    for(std::string d = parent(p);; d = parent(d)) {
        if(w.dirty.count(d) || w.unstable.count(d)) return false;
        if(d == w.at || d.empty()) return true;
    }
}
void check_walk(World &w, const std::string &pattern, const std::vector<std::string> &got, bool complete) {
    auto parts = split(pattern);
    std::map<std::string, int> seen;
    for(auto &g : got) {
        std::string a = absolute(g.c_str());
        std::string pre = w.root.empty() ? "" : w.root == "/" ? "/" : w.root + "/";
        SIM_CHECK(g.compare(0, pre.size(), pre) == 0, "wrong-path", "glob of %s in \"%s\" yielded %s, which is not a path from that root", pattern.c_str(), w.root.c_str(), g.c_str());
        SIM_CHECK(w.ever.count(a), "no-such-path", "glob of %s in \"%s\" yielded %s, which never existed", pattern.c_str(), w.root.c_str(), g.c_str());
        auto rel = split(g.substr(pre.size()));
        SIM_CHECK(path_match(rel, 0, parts, 0), "does-not-match", "glob of %s in \"%s\" yielded %s", pattern.c_str(), w.root.c_str(), g.c_str());
        ++seen[a];
        SIM_CHECK(seen[a] == 1 || w.unstable.count(a) || !clean_above(w, a), "yielded-twice", "glob of %s in \"%s\" yielded %s twice", pattern.c_str(), w.root.c_str(), g.c_str());
    }
    if(!complete) return;
    for(auto &[k, v] : w.first) {
        if(!under(k, w.at)) continue;
        auto rel = split(k.substr(w.at.size()));
        if(!path_match(rel, 0, parts, 0)) continue;
        if(w.unstable.count(k) || !clean_above(w, k)) continue;
        SIM_CHECK(seen.count(k), "missed", "glob of %s in \"%s\" did not yield %s", pattern.c_str(), w.root.c_str(), k.c_str());
        probe("yielded below an unchanged directory");
    }
}
void begin(World &w) {
    op_begin();
    w.first = snapshot();
    w.ever.clear();
    for(auto &[k, v] : w.first) w.ever.emplace(k, v);
    w.unstable.clear();
    w.dirty.clear();
    w.faults = 0;
    w.acts = 0;
    w.last = w.at;
    w.live = true;
}
void one_glob(World &w, bool may_abandon, std::string given = "") {
    std::string pat = given.size() ? given : gen_pattern();
    uint32_t how = pick(4);
    int stop = may_abandon && flip(1, 3) ? (int)pick(4) : 1 << 20;
    log("glob %s in \"%s\"", show(pat.data(), pat.size()).c_str(), w.root.c_str());
    std::vector<std::string> got;
    bool complete = true;
    begin(w);
    {
        Sut s;
        P::Path root(w.root.c_str());
        auto keep = [&](P::Path &p) {
            host([&] {
                got.push_back(p.c_str());
                log("  yields %s", p.c_str());
            });
        };
        auto again = [&] { return host([&] {
            if((int)got.size() < stop) return true;
            complete = false;
            return false;
        }); };
        if(how == 0) {
            for(auto &p : P::Loopsume(root.glob(pat.c_str()))) {
                keep(p);
                if(!again()) break;
            }
        } else if(how == 3) { // loops that are left and gone on with
            auto r = root.glob(pat.c_str());
            bool more = again();
            while(more) {
                int leave = host([&] { return 1 + (int)pick(4); });
                more = false;
                for(auto &p : P::LoopView(r)) {
                    keep(p);
                    if(!again()) break;
                    if(--leave == 0) {
                        more = true;
                        host([&] { probe("a loop over a glob left and gone on with"); });
                        break;
                    }
                }
            }
        } else if(how == 1) {
            auto r = root.glob(pat.c_str());
            while(again()) {
                auto o = r.next();
                if(!o) break;
                keep(*o);
            }
            if(complete) {
                auto o = r.next(); // asking again at the end
                if(o) host([&] { fail("yielded-after-end", "the glob went on after its end with %s", (*o).c_str()); });
            }
        } else {
            auto r = root.glob(pat.c_str());
            P::GlobResult moved(P::move(r));
            if(again()) {
                auto o = moved.next();
                if(o) {
                    keep(*o);
                    P::GlobResult *n = host([&] { return make<P::GlobResult>(P::move(moved)); });
                    while(again()) {
                        auto o2 = n->next();
                        if(!o2) break;
                        keep(*o2);
                    }
                    host([&] { destroy(n); });
                }
            }
        }
    }
    note_faults();
    w.live = false;
    check_walk(w, pat, got, complete);
    if(!complete) probe("given up half-way");
    SIM_CHECK(fs::open_handles().empty(), "handle-leak", "left after the glob:%s", fs::open_handles().c_str());
    if(!got.empty()) probe(w.acts ? "matches in a changing tree" : op_faults() ? "matches despite faults" : "matches");
    nontrivial();
    state(std::hash<std::string>()(pat) * 31 + got.size());
}
void setup(World &w) {
    W = &w;
    randomize_heap();
    strict_abort = true;
    fs::add_dir("/w");
    switch(pick(5)) {
    default:
        w.root = w.at = "/w";
        break;
    case 4:
        w.root = "/";
        w.at = "";
        break;
    case 1:
        w.root = "";
        w.at = "/w"; // the working directory
        break;
    case 2:
        w.root = "sub";
        w.at = "/w/sub";
        fs::add_dir(w.at);
        break;
    case 3:
        w.root = w.at = "/w/sub/.deep";
        fs::add_dir(w.at);
        break;
    }
    int budget = 6 + pick(24);
    fs::cfg().mounts = flip(1, 5);
    gen_tree(w.at, 0, budget);
    if(coin()) gen_tree(w.at, 0, budget);
    fs::on_syscall(on_sys, nullptr);
}
} // namespace

SIM_SCENARIO(glob_still, 12) {
    World w;
    setup(w);
    fs::cfg().no_dtype = flip(1, 4);
    int n = 1 + pick(5);
    for(int i = 0; i < n; ++i)
        one_glob(w, true);
    check_no_leaks("the globs");
}
// Many directories, many entries, deep nesting: nothing is left out for being one too many.
SIM_SCENARIO(glob_many, 1) {
    World w;
    W = &w;
    randomize_heap();
    strict_abort = true;
    fs::add_dir("/w");
    w.root = coin() ? "/w" : "";
    w.at = "/w";
    allow_steps(4000000000ull);
    int total = 0, depth = 0;
    switch(pick(4)) {
    case 0: { // wide
        int n = 1 + pick(flip(1, 4) ? 1200 : 150);
        for(int i = 0; i < n; ++i) {
            std::string d = fmt("/w/d%d", i);
            fs::add_dir(d);
            if(pick(4)) fs::add_dir(d + "/sub"), fs::add_file(d + "/sub/a.txt", "x"), ++total;
            if(pick(4)) fs::add_file(d + "/b.txt", "x"), ++total;
        }
        break;
    }
    case 1: { // many entries in one place
        int n = 1 + pick(flip(1, 4) ? 5000 : 700);
        for(int i = 0; i < n; ++i)
            fs::add_file(fmt("/w/%c%d.txt", "ab."[pick(3)], i), "x"), ++total;
        fs::add_dir("/w/d");
        fs::add_file("/w/d/a.txt", "x");
        break;
    }
    case 2: { // deep
        std::string at = "/w";
        bool long_names = flip(1, 4);
        for(int n = 1 + pick(flip(1, 8) ? 400 : 90); n > 0; --n) {
            at += flip(1, 3) ? "/ab" : "/a";
            if(long_names) at += std::string(pick(240), 'b');
            if(at.size() > 3800) break;
            fs::add_dir(at);
            ++depth;
            if(coin()) fs::add_file(at + "/b.txt", "x"), ++total;
        }
        break;
    }
    default: { // a full tree
        std::vector<std::string> now{"/w"};
        int width = 2 + pick(6);
        for(int n = 0; n < 400 && !now.empty(); ++n) {
            std::string at = now[pick(now.size())];
            for(int i = pick(width); i >= 0; --i) {
                std::string d = fmt("%s/%c%d", at.c_str(), "ab"[pick(2)], n);
                if(d.size() > 200 || fs::kind(d, false) != fs::NONE) continue;
                fs::add_dir(d);
                now.push_back(d);
                if(coin()) fs::add_file(d + "/a.txt", "x"), ++total;
            }
        }
    }
    }
    fs::on_syscall(on_sys, nullptr);
    fs::cfg().no_dtype = flip(1, 6);
    for(int i = 1 + pick(3); i > 0; --i) {
        static const char *const pats[] = {"**/*.txt", "*/**/a.txt", "**/*", "*/*", "*/*.txt", "*.txt", "*", "**/sub/*", "**/a*/b*", "a/**/*.txt", "a/a/*/**/b*"};
        if(flip(2, 3))
            one_glob(w, false, pats[pick(11)]);
        else { // a pattern of many segments
            std::string p;
            bool plain = coin();
            int n = 1 + pick(flip(1, 2) ? 6 : flip(1, 5) ? 380 : 80), star = flip(1, 3) ? (int)pick(n) : -1;
            if(depth > 80 && coin()) { // about as deep as the tree
                n = depth - pick(6);
                plain = true;
            }
            for(int k = 0; k < n; ++k) {
                static const char *const seg[] = {"*", "a*", "?*", "*b*", "a"};
                p += k == star ? "**" : seg[plain || flip(2, 3) ? 0 : pick(5)];
                p += "/";
            }
            if(n > 255) probe("a pattern of more than 255 segments");
            one_glob(w, false, p + (coin() ? "*" : "*.txt"));
        }
    }
    if(total > 255) probe("more than 255 files");
    check_no_leaks("the globs");
}
SIM_SCENARIO(glob_faults, 8) {
    World w;
    setup(w);
    auto &c = fs::cfg();
    c.den = 3 + pick(20);
    c.opendir_err = flip(2, 3);
    c.readdir_err = flip(1, 2);
    c.stat_err = flip(1, 4);
    c.no_dtype = flip(1, 4);
    int n = 1 + pick(5);
    for(int i = 0; i < n; ++i)
        one_glob(w, true);
    check_no_leaks("the globs");
}
SIM_SCENARIO(glob_changing, 12) {
    World w;
    setup(w);
    w.mutate = true;
    w.den = 2 + pick(12);
    auto &c = fs::cfg();
    if(flip(1, 3)) {
        c.den = 4 + pick(20);
        c.opendir_err = coin();
        c.readdir_err = coin();
    }
    c.no_dtype = flip(1, 6);
    int n = 1 + pick(4);
    for(int i = 0; i < n; ++i)
        one_glob(w, true);
    check_no_leaks("the globs");
}
// Patterns that are refused are refused cleanly.
SIM_SCENARIO(glob_refused, 2) {
    World w;
    setup(w);
    static const char *bad[] = {"**/a/**/b", "a**", "**b/x", "a/**b", "*/**/**/*", "x/y**z/q", "", "/"};
    const char *p = bad[pick(8)];
    bool threw = false;
    {
        Sut s;
        P::Path root(w.root.c_str());
        try {
            auto r = root.glob(p);
            auto o = r.next();
        } catch(...) {
            threw = true;
        }
    }
    SIM_CHECK(threw, "accepted", "the pattern %s was accepted", p);
    SIM_CHECK(fs::open_handles().empty(), "handle-leak", "left after a refused pattern:%s", fs::open_handles().c_str());
    probe("refused");
    nontrivial();
}
