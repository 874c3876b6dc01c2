// F02: line by line reading delivers every byte once, in order; errors are never the end.
#include "gen.hpp"

namespace {
std::string content;
// Another process that appends to the file, or puts another one in its place (which does not change the open one).
struct Other {
    int kind = 0;
    uint32_t den = 4;
    bool live = false, replaced = false;
    int acts = 0;
    std::vector<std::string> versions;
} other;
void act(void *, const char *op, const char *) {
    auto &o = other;
    if(!o.kind || !o.live || o.acts > 5 || !strcmp(op, "open") || !chance(SCHED, 1, o.den)) return;
    ++o.acts;
    if(o.kind == 2 || o.replaced) {
        fs::remove("/w/next");
        fs::add_file("/w/next", std::string(choose(SCHED, 5000), 'R'));
        if(choose(SCHED, 4))
            fs::rename("/w/next", "/w/lines");
        else
            fs::remove("/w/lines");
        log("another process replaces or removes the file");
        o.replaced = true;
        return;
    }
    size_t n = 1 + choose(SCHED, 3) * choose(SCHED, 2000);
    o.versions.push_back(o.versions.back() + std::string(n, '\n'));
    auto &v = o.versions.back();
    if(choose(SCHED, 2)) std::fill(v.end() - n, v.end(), 'G');
    log("another process appends %zu bytes", n);
    fs::resize("/w/lines", v.size(), v.back());
}
struct Ctx {
    std::vector<std::string> lines;
    bool error_seen = false;
    bool in_read = false;
};
std::vector<std::string> ref_lines(const std::string &c) {
    std::vector<std::string> v;
    size_t i = 0;
    while(i < c.size()) {
        size_t e = c.find('\n', i);
        e = e == c.npos ? c.size() : e + 1;
        v.push_back(c.substr(i, e - i));
        i = e;
    }
    return v;
}
std::string gen_lines() {
    std::string c;
    int n = pick(12);
    for(int i = 0; i < n; ++i) {
        switch(pick(6)) {
        case 0: break; // empty line
        case 1: c += std::string(158 + pick(5), 'L'); break; // around the initial line buffer
        case 2: c += gen_bytes(pick(40)); break;
        case 3: c += std::string(flip(1, 200) ? 65530 + pick(12) : pick(3000), 'x'); break;
        case 4: c += fmt("line %d", i); break;
        case 5: c += gen_utf8(20); break;
        }
        c += '\n';
    }
    if(coin() && !c.empty()) c.pop_back();
    if(flip(1, 4)) c += gen_bytes(pick(60));
    if(flip(1, 10)) { // end of content exactly at a stdio buffer boundary
        size_t want = 4096u << pick(3);
        while(c.size() < want)
            c += "filler line\n";
        c.resize(want);
    }
    return c;
}
Ctx *C;
void ended(void *) {
    // fail-stop on an I/O error: what was handed out before must be a correct prefix of lines
    auto want = ref_lines(content);
    auto &c = *C;
    SIM_CHECK(op_faults() > op_faults("read:short"), "process-ended", "the process ended although no read failed");
    SIM_CHECK(c.lines.size() <= want.size(), "wrong-lines", "%zu lines handed out of %zu", c.lines.size(), want.size());
    for(size_t i = 0; i < c.lines.size(); ++i)
        SIM_CHECK(c.lines[i] == want[i], "wrong-lines", "line %zu is %s, not %s", i, show(c.lines[i].data(), c.lines[i].size()).c_str(), show(want[i].data(), want[i].size()).c_str());
    probe("stopped visibly at a read error");
}
void compare(const Ctx &c, bool loop) {
    if(other.acts) { // the lines are those of the file as it was at its end
        std::string all;
        for(auto &l : c.lines)
            all += l;
        for(auto &v : other.versions)
            if(v == all) content = v;
        probe("lines of a file that another process changes");
    }
    auto want = ref_lines(content);
    for(size_t i = 0; i < c.lines.size() && i < want.size(); ++i)
        SIM_CHECK(c.lines[i] == want[i], "wrong-lines", "line %zu of %zu is %s, the file has %s", i, want.size(),
                  show(c.lines[i].data(), std::min<size_t>(c.lines[i].size(), 70)).c_str(), show(want[i].data(), std::min<size_t>(want[i].size(), 70)).c_str());
    auto n = c.lines.size();
    if(!loop && n == want.size() + 1 && c.lines.back().empty()) --n; // asking past the end gives nothing
    SIM_CHECK(n == want.size(), "wrong-lines", "%zu %s handed out, the file has %zu (content ends %s)", c.lines.size(), loop ? "elements" : "lines", want.size(),
              show(content.data() + content.size() - std::min<size_t>(content.size(), 20), std::min<size_t>(content.size(), 20)).c_str());
    std::string all;
    for(auto &l : c.lines)
        all += l;
    SIM_CHECK(all == content, "wrong-lines", "lines concatenated differ from the file");
    probe(loop ? "read by loop" : "read by calls");
}
void read_all(bool loop, int stop_after) {
    Ctx c;
    C = &c;
    op_begin();
    log("read lines of %zu bytes, %s", content.size(), loop ? "loop" : "calls");
    on_abort(ended, nullptr);
    bool threw = false;
    bool complete = false;
    bool calls = false;
    other.versions.assign(1, content);
    other.replaced = false;
    other.acts = 0;
    other.live = true;
    try {
        Sut s;
        P::File f("/w/lines", host([&] { return coin(); }) ? "rb" : "r");
        for(bool again = true; again;) {
            again = false;
            if(loop) {
                for(const auto &line : f) {
                    host([&] { c.lines.push_back(str(line)); });
                    if((int)c.lines.size() == stop_after) break;
                }
            } else {
                while(!f.eof()) {
                    auto line = f.readline_bytes();
                    host([&] { c.lines.push_back(str(line)); });
                    if((int)c.lines.size() == stop_after) break;
                }
            }
            if(stop_after > 0 && (int)c.lines.size() == stop_after) again = host([&] {
                if(!coin()) return false;
                // go on where the loop was left, in one way or the other
                calls |= !loop;
                loop = coin();
                stop_after = coin() ? -1 : stop_after + 1 + (int)pick(3);
                probe("went on after leaving a loop");
                return true;
            });
        }
        complete = stop_after < 0 || (int)c.lines.size() < stop_after;
    } catch(P::PyException &) {
        threw = true;
    }
    other.live = false;
    if(threw) {
        SIM_CHECK(op_faults() > op_faults("read:short"), "exception", "reading lines threw although nothing failed");
        ended(nullptr);
        return;
    }
    if(complete) compare(c, loop && !calls);
    else if(other.acts) {
        std::string all;
        for(auto &l : c.lines)
            all += l;
        SIM_CHECK(other.versions.back().compare(0, all.size(), all) == 0, "wrong-lines", "the lines read before stopping are not the beginning of the file");
    }
    else {
        auto want = ref_lines(content);
        for(size_t i = 0; i < c.lines.size() && i < want.size(); ++i)
            SIM_CHECK(c.lines[i] == want[i], "wrong-lines", "line %zu is %s", i, show(c.lines[i].data(), c.lines[i].size()).c_str());
        probe("stopped early");
    }
    nontrivial();
}
} // namespace

SIM_SCENARIO(lines_plain, 4) {
    randomize_heap();
    int n = 1 + pick(3);
    fs::cfg().short_read = coin();
    fs::cfg().den = 1 + pick(6);
    for(int i = 0; i < n; ++i) {
        content = gen_lines();
        fs::add_file("/w/lines", content);
        read_all(coin(), flip(1, 5) ? 1 + pick(4) : -1);
    }
}
SIM_SCENARIO(lines_faults, 5) {
    randomize_heap();
    content = gen_lines();
    fs::add_file("/w/lines", content);
    fs::cfg().short_read = flip(2, 3);
    fs::cfg().read_err = true;
    fs::cfg().den = 1 + pick(8);
    read_all(coin(), flip(1, 6) ? 1 + pick(4) : -1);
    if(op_faults()) probe("whole file read although a read failed");
}
// Another process appends to the file or replaces it while it is read.
SIM_SCENARIO(lines_concurrent, 3) {
    randomize_heap();
    fs::on_syscall(act, nullptr);
    other.kind = 1 + pick(2);
    other.den = 1 + pick(4);
    fs::cfg().short_read = coin();
    fs::cfg().den = 1 + pick(6);
    for(int i = 1 + pick(2); i > 0; --i) {
        content = gen_lines();
        fs::remove("/w/lines");
        fs::add_file("/w/lines", content);
        read_all(coin(), flip(1, 5) ? 1 + pick(4) : -1);
    }
}
// Opening fails: visible, never an empty file.
SIM_SCENARIO(lines_open, 1) {
    randomize_heap();
    content = gen_lines();
    fs::add_file("/w/lines", content);
    fs::cfg().open_err = true;
    fs::cfg().den = 1 + pick(2);
    read_all(coin(), -1);
}
