// F04: renaming is all-or-nothing and reported truthfully; path predicates agree with the disk.
#include "gen.hpp"

namespace {
// The whole tree as path -> description, taken from the simulated disk.
typedef std::map<std::string, std::string> Tree;
Tree snapshot() {
    Tree t;
    std::string d = fs::dump();
    size_t b = 0;
    while(b < d.size()) {
        size_t e = d.find('\n', b);
        std::string l = d.substr(b, e - b);
        size_t k = l.find_first_of("=|");
        size_t a = l.find("->");
        if(k == l.npos || (a != l.npos && a < k)) k = a;
        if(k == l.npos) k = l.size() - 1; // directory
        t[l.substr(0, k)] = l.substr(k);
        b = e + 1;
    }
    return t;
}
bool under(const std::string &p, const std::string &dir) { return p == dir || (p.size() > dir.size() && p.compare(0, dir.size(), dir) == 0 && p[dir.size()] == '/'); }
std::string parent(const std::string &p) { return p.substr(0, p.rfind('/')); }
bool is(const Tree &t, const std::string &p, char k) {
    auto it = t.find(p);
    return it != t.end() && it->second[0] == k;
}
bool has(const Tree &t, const std::string &p) { return t.count(p) != 0; }
std::string follow(const Tree &t, std::string p) {
    for(int i = 0; i < 4; ++i) {
        auto it = t.find(p);
        if(it == t.end() || it->second[0] != '-') return p;
        p = parent(p) + "/" + it->second.substr(2);
    }
    return "(loop)";
}
// What rename(2) promises, on the abstract tree.  Empty result: refused.
bool renamed(const Tree &t, const std::string &from, const std::string &to, Tree &out) {
    out = t;
    if(!has(t, from) || !is(t, parent(to), '/')) return false;
    if(from == to) return true;
    bool sd = is(t, from, '/');
    if(has(t, to)) {
        bool td = is(t, to, '/');
        if(td != sd) return false;
        if(td)
            for(auto &[k, v] : t)
                if(k != to && under(k, to)) return false;
    }
    if(sd && under(to, from)) return false;
    for(auto it = out.begin(); it != out.end();)
        it = under(it->first, from) || under(it->first, to) ? out.erase(it) : std::next(it);
    for(auto &[k, v] : t)
        if(under(k, from)) out[to + k.substr(from.size())] = v;
    return true;
}
// What another process does, at one system call of the operation.
struct Act {
    int kind = 0; // 0 nothing, 1 write a file, 2 remove, 3 make a directory, 4 rename over
    std::string path, other, content;
    uint32_t at = 0;
    bool done = false;
};
bool acted(const Tree &t, const Act &a, Tree &out) {
    out = t;
    switch(a.kind) {
    case 1:
        if(!is(t, parent(a.path), '/')) return false;
        if(has(t, a.path) && !is(t, a.path, '=')) return false;
        out[a.path] = "=" + a.content;
        return true;
    case 2:
        if(!has(t, a.path)) return false;
        for(auto it = out.begin(); it != out.end();)
            it = under(it->first, a.path) ? out.erase(it) : std::next(it);
        return true;
    case 3:
        if(!is(t, parent(a.path), '/')) return false;
        if(has(t, a.path)) return false;
        out[a.path] = "/";
        return true;
    case 4:
        return renamed(t, a.path, a.other, out);
    }
    return false;
}
struct World {
    Tree s0;
    Act act;
    std::string from, to;
    std::set<Tree> legal; // states the disk may be in while the operation is in progress
    uint32_t calls = 0;
    bool in_op = false;
};
World *W;
void do_act(World &w) {
    Tree now = snapshot(), next;
    w.act.done = true;
    auto &a = w.act;
    if(!acted(now, a, next)) return;
    if(a.kind == 1) {
        fs::remove(a.path);
        fs::add_file(a.path, a.content);
    } else if(a.kind == 2)
        fs::remove(a.path);
    else if(a.kind == 3)
        fs::add_dir(a.path);
    else
        fs::rename(a.path, a.other);
    log("another process: %s %s %s", a.kind == 1 ? "writes" : a.kind == 2 ? "removes" : a.kind == 3 ? "makes directory" : "renames", a.path.c_str(), a.other.c_str());
    probe("another process acted during the operation");
    if(snapshot() != next) fail("harness", "model and disk disagree about the other process");
}
std::string diff(const Tree &a, const Tree &b) {
    std::string s;
    for(auto &[k, v] : a)
        if(!b.count(k)) s += " -" + k;
        else if(b.at(k) != v) s += " ~" + k;
    for(auto &[k, v] : b)
        if(!a.count(k)) s += " +" + k;
    return s;
}
void check_legal(const char *when) {
    auto t = snapshot();
    if(!W->legal.count(t))
        fail("partial-rename", "%s the disk is neither as before nor as after renaming %s to %s; against before:%s", when, W->from.c_str(), W->to.c_str(), diff(W->s0, t).c_str());
}
void on_sys(void *, const char *, const char *) {
    auto &w = *W;
    if(!w.in_op) return;
    check_legal("in the middle");
    if(w.act.kind && !w.act.done && w.calls >= w.act.at) do_act(w);
    ++w.calls;
}
void crashed(void *) {
    probe("machine stopped during a rename");
    check_legal("after a crash");
    nontrivial();
}
struct Name {
    std::string used, canon;
};
Name gen_name(bool alias) {
    auto now = snapshot();
    bool may_link = alias;
    alias = alias && is(now, "/w/d", '/') && has(now, "/w/ld") && now["/w/ld"] == "->d";
    static const char *n[] = {"/w/a", "/w/b", "/w/d/c", "/w/new", "/w/d", "/w/e", "/w/full", "/w/la", "/w/ld", "/w/dang", "/w/p", "/w/none/x", "/w/full/x", "/w/e/n", "/w/d/c", "/w/a"};
    Name r;
    r.canon = n[pick(16)];
    r.used = r.canon;
    if(r.canon.compare(0, 5, "/w/d/") == 0 && alias && coin()) r.used = "/w/ld" + r.canon.substr(4);
    std::string up = parent(r.canon);
    if(is(now, up, '-')) { // a link took the directory's place
        if(!may_link)
            r.used = r.canon = "/w/a";
        else
            r.canon = follow(now, up) + r.canon.substr(up.size());
    }
    if(flip(1, 6)) r.used += "/";
    return r;
}
std::string text() {
    std::string s;
    for(int i = pick(3) == 0 ? 0 : pick(20); i > 0; --i)
        s.push_back('a' + pick(26));
    return s;
}
void populate() {
    fs::add_dir("/w");
    fs::add_file("/w/a", text());
    fs::add_file("/w/b", text());
    fs::add_dir("/w/d");
    fs::add_file("/w/d/c", text());
    fs::add_dir("/w/e");
    fs::add_dir("/w/full");
    fs::add_file("/w/full/x", text());
    fs::add_file("/w/full/y", text());
    fs::add_link("/w/la", "a");
    fs::add_link("/w/ld", "d");
    fs::add_link("/w/dang", "gone");
    fs::add_fifo("/w/p", "z");
    for(int i = pick(4); i > 0; --i) {
        static const char *n[] = {"/w/a", "/w/b", "/w/d/c", "/w/la", "/w/dang"};
        fs::remove(n[pick(5)]);
    }
}
void one_rename(World &w, bool want_actor) {
    Name f = gen_name(!want_actor);
    Name t = gen_name(!want_actor);
    w.from = f.canon;
    w.to = t.canon;
    w.act = Act{};
    w.calls = 0;
    if(want_actor) {
        w.act.kind = 1 + choose(SCHED, 4);
        w.act.at = choose(SCHED, 3);
        static const char *n[] = {"/w/a", "/w/b", "/w/new", "/w/dang", "/w/la", "/w/e"};
        w.act.path = choose(SCHED, 3) == 0 ? n[choose(SCHED, 6)] : choose(SCHED, 2) ? w.to : w.from;
        w.act.other = choose(SCHED, 2) ? w.to : n[choose(SCHED, 6)];
        w.act.content = "other" + fmt("%u", choose(SCHED, 10));
        if(parent(w.act.path) == "/w/none") w.act.kind = 0;
        // (the model does not follow links that the other process puts in a directory's place)
        if(w.act.kind == 4 && (parent(w.from) == w.act.other || parent(w.to) == w.act.other)) w.act.kind = 0;
    }
    w.s0 = snapshot();
    // every way the two may be ordered
    Tree a, b, c, d;
    bool okA = w.act.kind && acted(w.s0, w.act, a);
    bool okR = renamed(w.s0, w.from, w.to, b);
    bool okAR = okA && renamed(a, w.from, w.to, c);
    bool okRA = okR && w.act.kind && acted(b, w.act, d);
    w.legal = {w.s0};
    if(okA) w.legal.insert(a);
    if(okR) w.legal.insert(b);
    if(okAR) w.legal.insert(c);
    if(okRA) w.legal.insert(d);
    bool tdir = is(w.s0, follow(w.s0, w.to), '/');
    bool tdir_act = okA && is(a, follow(a, w.to), '/');
    op_begin();
    log("rename %s to %s", f.used.c_str(), t.used.c_str());
    bool rc;
    {
        Sut s;
        P::Path pf(f.used.c_str()), pt(t.used.c_str());
        w.in_op = true;
        rc = pf.rename_to(pt);
        w.in_op = false;
    }
    Tree now = snapshot();
    bool excuse = op_faults();
    if(!w.act.done) okA = okAR = okRA = tdir_act = false; // the other process never got its turn
    std::set<Tree> succ, failset;
    if(okAR) succ.insert(c);
    if(okR && !okA) succ.insert(b);
    if(okR) succ.insert(okRA ? d : b);
    failset.insert(okA ? a : w.s0);
    if(rc) {
        SIM_CHECK(succ.count(now), "false-success", "renaming %s to %s reported success; against before:%s", w.from.c_str(), w.to.c_str(), diff(w.s0, now).c_str());
        SIM_CHECK(!(tdir && (!okA || tdir_act)) || excuse, "renamed-onto-directory", "%s was renamed onto the directory %s", w.from.c_str(), w.to.c_str());
        probe(okA ? "renamed while another process acts" : "renamed");
    } else {
        SIM_CHECK(failset.count(now), "changed-although-failed", "renaming %s to %s reported failure; against before:%s", w.from.c_str(), w.to.c_str(), diff(w.s0, now).c_str());
        bool must = okR && !tdir && (!okA || (okAR && !tdir_act));
        SIM_CHECK(!must || excuse, "refused", "renaming %s to %s failed although nothing stands in the way", w.from.c_str(), w.to.c_str());
        probe(excuse ? "refused after a fault" : "refused");
    }
    nontrivial();
    state(std::hash<std::string>()(fs::dump()));
}
void one_question(World &w) {
    Name n = gen_name(true);
    if(flip(1, 20)) {
        n.used = coin() ? "/" : "//";
        n.canon = "";
    }
    int q = pick(3);
    w.s0 = snapshot();
    w.legal = {w.s0};
    op_begin();
    bool r;
    static const char *qn[] = {"exists", "is_file", "is_dir"};
    log("%s %s", qn[q], n.used.c_str());
    {
        Sut s;
        P::Path p(n.used.c_str());
        r = q == 0 ? p.exists() : q == 1 ? p.is_file() : p.is_dir();
    }
    std::string c = follow(w.s0, n.canon);
    bool t = q == 0 ? has(w.s0, c) : q == 1 ? is(w.s0, c, '=') : is(w.s0, c, '/');
    SIM_CHECK(!r || t, "false-claim", "%s(%s) says yes, the disk says no", qn[q], n.used.c_str());
    SIM_CHECK(r || !t || op_faults(), "false-denial", "%s(%s) says no, the disk says yes", qn[q], n.used.c_str());
    SIM_CHECK(snapshot() == w.s0, "question-changes-disk", "%s(%s) changed the disk:%s", qn[q], n.used.c_str(), diff(w.s0, snapshot()).c_str());
    probe(qn[q]);
    nontrivial();
}
} // namespace

SIM_SCENARIO(rename_histories, 8) {
    World w;
    W = &w;
    randomize_heap();
    populate();
    strict_abort = true;
    fs::on_syscall(on_sys, nullptr);
    auto &c = fs::cfg();
    c.den = 2 + pick(10);
    bool faulty = coin();
    c.rename_err = faulty && coin();
    c.stat_err = faulty && flip(1, 4);
    c.open_err = c.read_err = c.short_read = faulty;
    bool actor = coin();
    int n = 1 + pick(10);
    for(int i = 0; i < n; ++i)
        if(flip(1, 4))
            one_question(w);
        else
            one_rename(w, actor && coin());
    SIM_CHECK(fs::open_handles().empty(), "handle-leak", "left at the end:%s", fs::open_handles().c_str());
    check_no_leaks("the renames");
}
SIM_SCENARIO(rename_crash, 4) {
    World w;
    W = &w;
    randomize_heap();
    populate();
    strict_abort = true;
    fs::on_syscall(on_sys, nullptr);
    fs::on_crash(crashed, nullptr);
    auto &c = fs::cfg();
    c.crash = true;
    c.den = 2 + pick(8);
    c.rename_err = flip(1, 3);
    int n = 1 + pick(8);
    for(int i = 0; i < n; ++i)
        one_rename(w, flip(1, 3));
}
