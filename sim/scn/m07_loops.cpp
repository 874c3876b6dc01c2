// M07: looping over a source or a container delivers every element once, wherever a loop is left.
#include "elem.hpp"

namespace {
struct Left {}; // thrown by the body of a loop
// A source of elements with a state of its own; asking it may fail, which changes nothing.
struct Source {
    int at, end;
    uint32_t den;
    Elem tag;
    Source() noexcept : at{0}, end{0}, den{0} {}
    Source(int at_, int end_, uint32_t den_) : at{at_}, end{end_}, den{den_}, tag(7) {}
    Source(Source &&o) noexcept : at{o.at}, end{o.end}, den{o.den}, tag((Elem &&)o.tag) { o.end = o.at; }
    Source &operator=(Source &&o) noexcept {
        at = o.at;
        end = o.end;
        den = o.den;
        tag = (Elem &&)o.tag;
        return *this;
    }
    Source(const Source &) = delete;
    P::Optional<Elem> next() {
        bool no = host([&] {
            if(!den || !chance(FAULT, 1, den)) return false;
            fault_fired("source:refused");
            return true;
        });
        if(no) throw el::Refused();
        int t = tag.val();
        if(t != 7) host([&] { fail("source-lost", "the source is asked after it was moved away"); });
        if(at >= end) return {};
        return P::Optional<Elem>(Elem(at++));
    }
};
int64_t value_of(const Elem &e) { return e.val(); }
int64_t value_of(int64_t v) { return v; }
struct Want { // what is still to come
    int64_t at, end, step;
    bool over() const { return at >= end; }
    void take(int64_t got, const char *how) {
        if(over()) fail("element-invented", "%s delivers %lld, although all elements have been delivered", how, (long long)got);
        if(got != at) fail("wrong-element", "%s delivers %lld, it should be %lld", how, (long long)got, (long long)at);
        at += step;
    }
    void none(const char *how) {
        if(!over()) fail("element-lost", "%s ends although %lld is still to come", how, (long long)at);
    }
};
// Loops over what is left of the source; depth: loops within loops.
template<typename S> void loop(S &src, Want &w, int depth) {
    int stop = host([&] { return flip(1, 3) ? 1000000 : 1 + (int)pick(5); }), how = host([&] { return pick(3); });
    int inner = host([&] { return depth < 3 && flip(1, 3) ? 1 + (int)pick(3) : 0; });
    int n = 0;
    bool whole = true;
    for(auto &v : P::LoopView(src)) {
        int64_t got = value_of(v);
        host([&] { w.take(got, "a loop"); });
        if(++n == inner) loop(src, w, depth + 1);
        if(value_of(v) != got) host([&] { fail("wrong-element", "an element changed during the body of the loop"); });
        if(n == stop) {
            whole = false;
            if(how == 0) throw Left();
            break;
        }
    }
    host([&] {
        if(whole) w.none("a loop");
        probe(whole ? "a loop to the end" : "a loop that was left");
    });
}
template<typename S> void consume(S &&src, Want w, uint32_t stop) {
    uint32_t n = 0;
    bool whole = true;
    for(auto &v : P::Loopsume((S &&)src)) {
        int64_t got = value_of(v);
        host([&] { w.take(got, "a consuming loop"); });
        if(++n == stop) {
            whole = false;
            break;
        }
    }
    host([&] {
        if(whole) w.none("a consuming loop");
        probe("a consuming loop");
    });
}
template<typename S> void ask(S &src, Want &w) {
    for(int k = host([&] { return 1 + pick(4); }); k > 0; --k) {
        auto o = src.next();
        bool has = (bool)o;
        int64_t got = has ? value_of(*o) : 0;
        host([&] {
            if(has)
                w.take(got, "next()");
            else
                w.none("next()");
        });
    }
}
template<typename S> void history(S *src, Want w) {
    for(int n = 1 + pick(6); n > 0; --n) {
        op_begin();
        int op = pick(4);
        log("operation %d, %lld up to %lld to come", op, (long long)w.at, (long long)w.end);
        try {
            Sut s;
            if(op == 0)
                ask(*src, w);
            else
                loop(*src, w, 0);
        } catch(Left &) {
            probe("a loop left by an exception");
        } catch(el::Refused &) {
            probe("a source that could not answer");
        }
        el::expect(__is_same(S, Source) ? 1 : 0, "between loops");
        state((uint64_t)w.at * 31 + op);
    }
    op_begin();
    uint32_t stop = pick(5);
    S *moved = make<S>(P::move(*src));
    destroy(src);
    try {
        Sut s;
        consume(P::move(*moved), w, stop);
    } catch(el::Refused &) {
    }
    destroy(moved);
    el::expect(0, "after the loops");
    check_no_leaks("the loops");
    nontrivial();
}
template<typename V> void enumerate(V &v, std::vector<int> &ref, bool change) {
    for(int round = 1 + pick(2); round > 0; --round) {
        Sut s;
        size_t n = 0;
        size_t stop = host([&] { return flip(1, 3) ? pick(6) : 1000000; });
        P::EnumerateView<V> view(v);
        for(auto &&e : view) {
            size_t i = e.i;
            int x = e.value.val();
            host([&] {
                if(i != n) fail("wrong-number", "the element at %zu is numbered %zu", n, i);
                if(n >= ref.size()) fail("element-invented", "more elements are enumerated than there are");
                if(x != ref[n]) fail("wrong-element", "the element at %zu is %d, should be %d", n, x, ref[n]);
            });
            if constexpr(!std::is_const_v<V>) {
                if(change) {
                    e.value = Elem(x + 100);
                    host([&] { ref[n] += 100; });
                }
            }
            if(++n == stop) break;
        }
        host([&] {
            if(n != stop && n != ref.size()) fail("element-lost", "%zu elements are enumerated, there are %zu", n, ref.size());
            probe("enumerated");
        });
        if(host([&] { return coin(); })) { // an enumeration within an enumeration
            n = 0;
            for(auto &&e : P::EnumerateView<V>(v)) {
                size_t k = 0;
                for(auto &&f : P::EnumerateView<V>(v)) {
                    size_t fi = f.i;
                    int fx = f.value.val();
                    host([&] { if(fi != k || k >= ref.size() || fx != ref[k]) fail("wrong-number", "an inner enumeration is wrong at %zu", k); });
                    ++k;
                }
                size_t i = e.i;
                host([&] { if(i != n || k != ref.size()) fail("wrong-number", "enumerations within each other are wrong at %zu", n); });
                ++n;
            }
        }
    }
}
} // namespace
SIM_SCENARIO(loops_source, 4) {
    randomize_heap();
    int n = pick(12);
    auto *s = make<Source>(0, n, flip(1, 2) ? 2 + pick(8) : 0);
    history(s, Want{0, n, 1});
}
SIM_SCENARIO(loops_range, 3) {
    randomize_heap();
    int64_t start = (int64_t)pick(40) - 20, len = (int64_t)pick(30) - 4, step = 1;
    switch(pick(4)) {
    case 0: start = 0; break;
    case 1: step = 1 + pick(7); break;
    case 2: // far from zero
        start = ((int64_t)pick(1u << 30) << (pick(33))) * (coin() ? 1 : -1);
        step = 1 + ((int64_t)pick(1000) << pick(30));
        len = step * pick(20) + pick(3);
        break;
    }
    P::Range *r;
    if(start == 0 && step == 1)
        r = make<P::Range>(start + len);
    else if(step == 1 && coin())
        r = make<P::Range>(start, start + len);
    else
        r = make<P::Range>(start, start + len, step);
    log("range from %lld to %lld by %lld", (long long)start, (long long)(start + len), (long long)step);
    history(r, Want{start, start + len, step});
}
// A copied range goes on by itself.
SIM_SCENARIO(loops_two_ranges, 1) {
    randomize_heap();
    int64_t n = pick(15);
    auto *a = make<P::Range>(n);
    auto *b = make<P::Range>();
    Want wa{0, n, 1}, wb{0, 0, 1};
    for(int k = 2 + pick(8); k > 0; --k) {
        int op = pick(4);
        log("operation %d", op);
        try {
            Sut s;
            if(op == 0) {
                *b = *a;
                host([&] { wb = wa; });
            } else if(op == 1) {
                loop(*b, wb, 1);
            } else if(op == 2)
                loop(*a, wa, 1);
            else
                ask(*a, wa);
        } catch(Left &) {
        }
    }
    destroy(a);
    destroy(b);
    check_no_leaks("the ranges");
    nontrivial();
}
SIM_SCENARIO(loops_enumerate, 2) {
    randomize_heap();
    std::vector<int> ref;
    bool change = coin();
    auto *v = make<P::Vector<Elem>>();
    auto *f = make<P::FixedVector<Elem, 40>>();
    for(int n = flip(1, 6) ? 0 : pick(40); n > 0; --n) {
        int x = pick(1000);
        ref.push_back(x);
        sut([&] {
            v->push_back(Elem(x));
            f->push_back(Elem(x));
        });
    }
    auto other = ref;
    switch(pick(3)) {
    case 0: enumerate(*v, ref, change); break;
    case 1: enumerate(*f, other, change); break;
    case 2: enumerate((const P::Vector<Elem> &)*v, ref, false); break;
    }
    el::expect(2 * ref.size(), "the enumerated vectors");
    destroy(v);
    destroy(f);
    el::expect(0, "at the end");
    check_no_leaks("the enumeration");
    nontrivial();
}
// More elements than a byte, or two, can count.
SIM_SCENARIO(loops_long, 1) {
    randomize_heap();
    bool huge = flip(1, 40);
    if(huge) {
        allow_steps(400000000);
        probe("more than 65535 elements");
    }
    size_t n = (huge ? 65536 : 256) - 4 + pick(10);
    auto *v = make<P::Vector<int>>();
    sut([&] {
        for(size_t i = 0; i < n; ++i)
            v->push_back((int)(i * 7));
    });
    size_t i = 0, bad = (size_t)-1;
    {
        Sut s;
        for(auto &&e : P::EnumerateView<P::Vector<int>>(*v)) {
            if((e.i != i || &e.value != v->begin() + i) && bad == (size_t)-1) bad = i;
            ++i;
        }
    }
    SIM_CHECK(i == n, "element-lost", "%zu elements are enumerated, there are %zu", i, n);
    SIM_CHECK(bad == (size_t)-1, "wrong-number", "the element at %zu is enumerated wrongly", bad);
    destroy(v);
    int64_t start = (int64_t)pick(1000) - 500, at = start, wrong = INT64_MAX;
    int64_t step = coin() ? 1 : 1 + pick(100000);
    auto *r = make<P::Range>(start, start + (int64_t)n * step, step);
    size_t left = 1 + pick((uint32_t)n);
    for(int part = 0; part < 2; ++part) {
        size_t k = 0;
        Sut s;
        for(auto &x : P::LoopView(*r)) {
            if(x != at && wrong == INT64_MAX) wrong = at;
            at += step;
            if(++k == left && part == 0) break;
        }
    }
    SIM_CHECK(wrong == INT64_MAX, "wrong-element", "a long range goes wrong at %lld", (long long)wrong);
    SIM_CHECK(at == start + (int64_t)n * step, "element-lost", "a long range ends at %lld", (long long)at);
    destroy(r);
    auto *src = make<Source>(0, (int)n, 0);
    Want w{0, (int64_t)n, 1};
    try {
        Sut s;
        loop(*src, w, 3);
        consume(P::move(*src), w, 0);
    } catch(Left &) {
    }
    destroy(src);
    el::expect(0, "after the loops");
    check_no_leaks("the loops");
    nontrivial();
}
