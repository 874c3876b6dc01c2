// W01: the shipped word counter and word sorter are exact or fail visibly.
#include "gen.hpp"

extern "C" int wordcount_main(int argc, char **argv);
extern "C" int wordsort_main(int argc, char **argv);

namespace {
bool space(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
std::vector<std::string> words_of(const std::string &s) {
    std::vector<std::string> v;
    size_t i = 0;
    while(i < s.size()) {
        if(space(s[i])) {
            ++i;
            continue;
        }
        size_t b = i;
        while(i < s.size() && !space(s[i]))
            ++i;
        v.push_back(s.substr(b, i - b));
    }
    return v;
}
std::string gen_word() {
    static const char *const common[] = {"the", "a", "of", "and", "to", "b", "aa", "ab", "The", "word", "\xC3\xA4iti", "z", "zz", "zzz"};
    switch(pick(6)) {
    case 0:
    case 1: return common[pick(14)];
    case 2: return fmt("w%u", pick(40));
    case 3: {
        std::string s;
        int n = 1 + pick(4);
        for(int i = 0; i < n; ++i)
            s += (char)('a' + pick(3));
        return s;
    }
    case 4: {
        std::string s;
        do {
            s.clear();
            for(char c : gen_utf8(8))
                if(!space(c) && c != '\v' && c != '\f') s += c;
        } while(s.empty() && pick(4));
        return s.empty() ? "x" : s;
    }
    default: return std::string(1 + pick(pick(20) ? 40 : 3000), 'a' + pick(26));
    }
}
std::string gen_text(bool count) {
    std::string s;
    int n;
    switch(pick(5)) {
    case 0: n = pick(4); break;
    case 1: n = pick(300); break;
    case 2: n = pick(60); break;
    default: n = pick(20);
    }
    auto gap = [&] {
        static const char ws[] = {' ', '\n', '\t', '\r'};
        int k = flip(1, 4) ? 1 + pick(5) : 1;
        for(int i = 0; i < k; ++i)
            s += ws[flip(1, 3) ? pick(4) : 0];
    };
    if(flip(1, 4)) gap();
    for(int i = 0; i < n; ++i) {
        s += gen_word();
        if(i + 1 < n || coin()) gap();
    }
    if(flip(1, 250)) { // counts beyond 16 bits
        std::string w = pick(2) ? "m" : gen_word();
        n = (count ? 65530 : 16380) + pick(12); // (sorting that many words would take the simulator half a minute)
        for(int i = 0; i < n; ++i)
            s += (i + 1) % 64 ? w.substr(0, 3) + " " : w.substr(0, 3) + "\n";
        probe("a word more often than 16 bits count");
        allow_steps(4000000000ull);
    } else if(flip(1, 60)) { // a large vocabulary
        n = 1000 + pick(6000);
        uint32_t seed = pick(1u << 20);
        for(int i = 0; i < n; ++i) {
            seed = seed * 1664525u + 1013904223u;
            s += fmt("v%u ", (seed >> 10) % 9000);
        }
        probe("thousands of different words");
        allow_steps(4000000000ull);
    } else if(flip(1, 2000)) { // more different words than 16 bits count
        n = (count ? 65536 : 16384) - 20 + pick(200);
        uint32_t step = 2 * pick(1u << 20) + 1;
        for(int i = 0; i < n; ++i)
            s += fmt("%x\n", (uint32_t)(i * step) & 0xfffff);
        probe("more different words than 16 bits count");
        allow_steps(4000000000ull);
    } else if(flip(1, 400)) { // very long words, some differing only at their end
        n = 1 + pick(4);
        size_t len = coin() ? 65536 - 3 + pick(6) : 20000 + pick(120000);
        for(int i = 0; i < n; ++i)
            s += std::string(len + pick(3), 'k') + (coin() ? "a " : "b\n");
        probe("a word longer than 16 bits count");
        allow_steps(4000000000ull);
    }
    if(flip(1, 8) && !s.empty()) { // the last word ends exactly with a page of the mapping
        size_t want = (s.size() + 4095) / 4096 * 4096;
        while(s.size() < want)
            s += (want - s.size()) % 7 == 1 ? ' ' : 'p';
        if(coin()) s.back() = 'q';
    }
    return s;
}
std::vector<std::string> lines_of(const std::string &o) {
    std::vector<std::string> v;
    size_t i = 0;
    while(i < o.size()) {
        size_t e = o.find('\n', i);
        SIM_CHECK(e != o.npos, "wrong-output", "the output ends within a line");
        v.push_back(o.substr(i, e - i));
        i = e + 1;
    }
    return v;
}
std::string brief(const std::string &s) { return show(s.data(), std::min<size_t>(s.size(), 60)); }
void check_counts(const std::string &text, const std::string &out) {
    std::map<std::string, size_t> want;
    for(auto &w : words_of(text))
        ++want[w];
    size_t last = SIZE_MAX, last_len = 0;
    for(auto &l : lines_of(out)) {
        size_t sp = l.find(' ');
        SIM_CHECK(sp != l.npos && sp > 0, "wrong-output", "a line of the output is %s", brief(l).c_str());
        size_t n = strtoull(l.c_str(), nullptr, 10);
        std::string w = l.substr(sp + 1);
        auto it = want.find(w);
        SIM_CHECK(it != want.end(), "wrong-word", "the word %s is not in the file, or is printed twice", brief(w).c_str());
        SIM_CHECK(it->second == n, "wrong-count", "the word %s is counted %zu times, is there %zu times", brief(w).c_str(), n, it->second);
        SIM_CHECK(n < last || (n == last && w.size() <= last_len), "wrong-order", "%zu %s comes after a line that ranks below", n, brief(w).c_str());
        last = n;
        last_len = w.size();
        want.erase(it);
    }
    SIM_CHECK(want.empty(), "word-lost", "%zu words are missing from the output, like %s", want.size(), brief(want.begin()->first).c_str());
}
void check_sorted(const std::string &text, const std::string &out) {
    auto want = words_of(text);
    std::sort(want.begin(), want.end());
    auto got = lines_of(out);
    for(size_t i = 0; i < got.size() && i < want.size(); ++i)
        SIM_CHECK(got[i] == want[i], "wrong-order", "line %zu is %s, should be %s", i, brief(got[i]).c_str(), brief(want[i]).c_str());
    SIM_CHECK(got.size() == want.size(), "word-lost", "%zu lines for %zu words", got.size(), want.size());
}
struct World {
    std::string path = "/w/in";
    std::string text;     // what is there to be read
    std::string other;    // what another process puts there instead
    bool replaced = false;
    bool readable = true; // there is a file at all
    int replace_at = -1, seen = 0;
};
World *W;
// Content the program has to deal with: the counter wants UTF-8, the sorter anything without zero bytes.
bool good(const std::string &s, bool count) { return count ? ref_valid_utf8(s) : s.find('\0') == s.npos; }
bool right(const std::string &text, const std::string &out, bool count) {
    if(count)
        check_counts(text, out);
    else
        check_sorted(text, out);
    return true;
}
void actor(void *, const char *, const char *) {
    if(W->seen++ != W->replace_at) return;
    // the usual way of replacing a file: a new one is put in its place
    fs::add_file("/w/new", W->other);
    fs::rename("/w/new", W->path);
    W->replaced = true;
    log("another process replaces the file");
    probe("file replaced while the program runs");
}
void ended(void *) {
    probe("stopped visibly");
}
void run_program(bool count, World &w) {
    W = &w;
    int code = -1;
    bool threw = false;
    capture_output = true;
    program_output().clear();
    char a0[] = "prog";
    char a1[] = "/w/in";
    char *argv[] = {a0, a1, nullptr};
    op_begin();
    on_abort(ended, nullptr);
    // for content that is not text the program may also stop in the middle
    allow_abort_class = good(w.text, count) && (w.replace_at < 0 || good(w.other, count)) ? nullptr : "the file is not text";
    {
        Sut s;
        try {
            code = count ? wordcount_main(2, argv) : wordsort_main(2, argv);
        } catch(...) {
            threw = true; // the process would end here
        }
    }
    std::string out = program_output();
    log("%s: exit status %d%s, %zu bytes of output: %s", count ? "wordcount" : "wordsort", code, threw ? " (exception)" : "", out.size(), brief(out).c_str());
    std::string h = fs::open_handles();
    SIM_CHECK(h.empty(), "handle-leak", "still open: %s", h.c_str());
    bool ok = w.readable && !w.text.empty() && good(w.text, count);
    bool may_fail = op_faults() || (w.replaced && !(good(w.other, count) && !w.other.empty()));
    if(threw || code != 0) {
        SIM_CHECK(!ok || may_fail, "refused", "the program failed although nothing went wrong");
        SIM_CHECK(!threw || op_faults(), "uncaught-exception", "the program ends with an uncaught exception");
        probe(op_faults() ? "failed visibly after a fault" : "refused its input");
        return;
    }
    SIM_CHECK(w.readable, "output-from-nowhere", "the program succeeds without a file to read");
    // A success must be exact for the content of one moment.
    if(w.replaced) {
        // decide by what the output says which of the two was read
        bool new_one = false;
        auto fits = [&](const std::string &t) {
            auto l = lines_of(out);
            std::multiset<std::string> a, b;
            if(count) {
                std::map<std::string, size_t> c;
                for(auto &x : words_of(t))
                    ++c[x];
                for(auto &kv : c)
                    a.insert(fmt("%zu ", kv.second) + kv.first);
            } else
                for(auto &x : words_of(t))
                    a.insert(x);
            b.insert(l.begin(), l.end());
            return a == b;
        };
        new_one = fits(w.other);
        right(new_one ? w.other : w.text, out, count);
    } else {
        SIM_CHECK(good(w.text, count), "result-for-bad-input", "the program prints a result for content that is not text: %s", brief(w.text).c_str());
        right(w.text, out, count);
    }
    probe(op_faults() ? "exact in spite of a fault" : "exact");
}
void prepare(World &w, bool count) {
    randomize_heap();
    fs::add_dir("/w");
    switch(pick(10)) {
    case 0:
        w.text = gen_content();
        for(auto &c : w.text)
            if(c == '\v' || c == '\f') c = ' '; // left open whether they separate words
        break;
    case 1:
        w.text = gen_text(count);
        corrupt(w.text);
        for(auto &c : w.text)
            if(c == '\v' || c == '\f') c = ' ';
        break;
    default: w.text = gen_text(count);
    }
    w.other = gen_text(count);
    switch(pick(14)) {
    case 0: w.readable = false; break;
    case 1:
        fs::add_dir(w.path);
        w.readable = false;
        break;
    case 2:
        fs::add_file("/w/real", w.text);
        fs::add_link(w.path, "real");
        break;
    default: fs::add_file(w.path, w.text);
    }
    log("file: %zu bytes: %s", w.text.size(), brief(w.text).c_str());
}
void scenario(bool count, bool io, bool mem, bool replace) {
    World w;
    prepare(w, count);
    int n = 1 + pick(2);
    for(int k = 0; k < n; ++k) {
        auto &c = fs::cfg();
        c = {};
        faults().oom_after = -1;
        faults().oom_count = 0;
        op_begin();
        if(io && k == 0) {
            c.open_err = coin();
            c.read_err = coin();
            c.short_read = coin();
            c.seek_err = coin();
            c.stat_err = coin();
            c.map_err = coin();
            c.close_err = flip(1, 4);
            c.den = 2 + choose(FAULT, 8);
        }
        if(mem && k == 0) {
            faults().oom_after = choose(FAULT, 3) ? choose(FAULT, 12) : choose(FAULT, 300);
            static const int counts[] = {1, 1, 2, 1000000};
            faults().oom_count = counts[choose(FAULT, 4)];
        }
        w.replaced = false;
        if(replace && k == 0 && fs::kind(w.path, false) == fs::REG) {
            w.seen = 0;
            w.replace_at = choose(SCHED, 8);
            fs::on_syscall(actor, nullptr);
        }
        run_program(count, w);
        fs::on_syscall(nullptr, nullptr);
        if(w.replaced) w.text = w.other;
    }
    faults().oom_after = -1;
    faults().oom_count = 0;
    check_no_leaks("the program");
    nontrivial();
}
} // namespace

SIM_SCENARIO(count_words, 4) { scenario(true, false, false, false); }
SIM_SCENARIO(count_words_io, 3) { scenario(true, true, false, false); }
SIM_SCENARIO(count_words_memory, 2) { scenario(true, false, true, false); }
SIM_SCENARIO(count_words_replaced, 2) { scenario(true, coin(), false, true); }
SIM_SCENARIO(sort_words, 4) { scenario(false, false, false, false); }
SIM_SCENARIO(sort_words_io, 3) { scenario(false, true, false, false); }
SIM_SCENARIO(sort_words_memory, 2) { scenario(false, false, true, false); }
SIM_SCENARIO(sort_words_replaced, 2) { scenario(false, coin(), false, true); }
