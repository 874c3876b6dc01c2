// M05: sorting, selection and partitioning are right wherever the data lies.
#include "elem.hpp"
#include <math.h>
#include <limits>
#if EPOCH == 2026
#include <pystd2026_partial_sort.hpp>
#include <pystd2026_heapsort.hpp>
#include <pystd2026_indirect_sort.hpp>
#include <pystd2026_introsort.hpp>
#include <pystd2026_mergesort.hpp>
#include <pystd2026_nth_element.hpp>
#include <pystd2026_bucketsort.hpp>
#include <pystd2026_radixsort.hpp>
#include <pystd2026_rotate.hpp>
#include <pystd2026_shellsort.hpp>
#include <pystd2026_stablepartition.hpp>
#endif

namespace {
// An element is a key and its place in the original sequence.
struct Item {
    int key, seq;
};
const int SEQ = 8192;
template<typename T> struct Kind;
template<> struct Kind<Elem> {
    static Elem make(Item i) { return Elem(i.key * SEQ + i.seq); }
    static Item read(const Elem &e) {
        int v = e.val();
        return v < 0 ? Item{-1, -1} : Item{v / SEQ, v % SEQ};
    }
    static constexpr bool has_seq = true;
    static constexpr int max_key = 200000;
};
template<> struct Kind<uint8_t> {
    static uint8_t make(Item i) { return (uint8_t)i.key; }
    static Item read(uint8_t v) { return {v, 0}; }
    static constexpr bool has_seq = false;
    static constexpr int max_key = 255;
};
template<> struct Kind<uint16_t> {
    static uint16_t make(Item i) { return (uint16_t)i.key; }
    static Item read(uint16_t v) { return {v, 0}; }
    static constexpr bool has_seq = false;
    static constexpr int max_key = 65535;
};
inline int u32_shift = 0, u64_shift = 0;
template<> struct Kind<uint32_t> {
    static uint32_t make(Item i) { return (uint32_t)i.key << u32_shift; }
    static Item read(uint32_t v) { return {(int)(v >> u32_shift), 0}; }
    static constexpr bool has_seq = false;
    static constexpr int max_key = 65535;
};
template<> struct Kind<uint64_t> {
    static uint64_t make(Item i) { return (uint64_t)i.key << u64_shift; }
    static Item read(uint64_t v) { return {(int)(v >> u64_shift), 0}; }
    static constexpr bool has_seq = false;
    static constexpr int max_key = 65535;
};
template<> struct Kind<int32_t> {
    static int32_t make(Item i) { return i.key >= 32768 ? INT32_MAX - (65535 - i.key) : i.key - 16384 - (i.key < 8 ? INT32_MAX - 16383 : 0); }
    static Item read(int32_t v) { return {v >= INT32_MAX - 32767 ? 65535 - (INT32_MAX - v) : v < -20000 ? (int)((int64_t)v + 16384 + (INT32_MAX - 16383)) : v + 16384, 0}; }
    static constexpr bool has_seq = false;
    static constexpr int max_key = 65535;
};
template<> struct Kind<int64_t> {
    static int64_t make(Item i) { return ((int64_t)i.key - 32768) << 32; }
    static Item read(int64_t v) { return {(int)((v >> 32) + 32768), 0}; }
    static constexpr bool has_seq = false;
    static constexpr int max_key = 65535;
};
// floats: the library's total order has all NaN last, equal to each other, and the zeroes equal
const double fl[] = {-NAN, -INFINITY, -3.5e30, -1, -1e-30, -0.0, 0.0, 1e-30, 1, 3.5e30, INFINITY, NAN};
template<> struct Kind<float> {
    static float make(Item i) { return (float)fl[i.key]; }
    static Item read(float v) {
        for(int k = 0; k < 12; ++k) {
            float w = (float)fl[k];
            if(!memcmp(&v, &w, 4)) return {k, 0};
        }
        return {-1, 0};
    }
    static constexpr bool has_seq = false;
    static constexpr int max_key = 11;
};
template<> struct Kind<double> {
    static double make(Item i) { return fl[i.key]; }
    static Item read(double v) {
        for(int k = 0; k < 12; ++k)
            if(!memcmp(&v, &fl[k], 8)) return {k, 0};
        return {-1, 0};
    }
    static constexpr bool has_seq = false;
    static constexpr int max_key = 11;
};

// Equality of this type is coarser than the order it is sorted by.
struct Loose {
    uint32_t v = 0;
    bool operator==(const Loose &o) const { return v / 4 == o.v / 4; }
};
template<> struct Kind<Loose> {
    static Loose make(Item i) { return Loose{(uint32_t)i.key}; }
    static Item read(const Loose &v) { return {(int)v.v, 0}; }
    static constexpr bool has_seq = false;
    static constexpr int max_key = 4000;
};
struct LooseUp {
    int compare(const Loose &a, const Loose &b) const { return a.v < b.v ? -1 : a.v > b.v; }
    bool equal(const Loose &a, const Loose &b) const { return a.v == b.v; }
};

// An array in simulated memory with elements before and after the range that is handed out.
template<typename T> struct Arr {
    T *mem = nullptr;
    size_t pre = 0, n = 0, post = 0;
    std::vector<Item> ref; // whole memory
    void build(const std::vector<Item> &keys, size_t before, size_t after) {
        pre = before;
        n = keys.size();
        post = after;
        ref.clear();
        for(size_t i = 0; i < pre; ++i)
            ref.push_back({(int)pick(Kind<T>::max_key + 1), 8000 + (int)i});
        ref.insert(ref.end(), keys.begin(), keys.end());
        for(size_t i = 0; i < post; ++i)
            ref.push_back({(int)pick(Kind<T>::max_key + 1), 8100 + (int)i});
        mem = (T *)heap_alloc(std::max<size_t>(1, ref.size() * sizeof(T)), alignof(T));
        for(size_t i = 0; i < ref.size(); ++i)
            sut([&] { new(mem + i) T(Kind<T>::make(ref[i])); });
        el::fence[0] = el::Fence{(char *)mem, (char *)(mem + pre)};
        el::fence[1] = el::Fence{(char *)(mem + pre + n), (char *)(mem + pre + n + post)};
    }
    T *b() { return mem + pre; }
    T *e() { return mem + pre + n; }
    std::vector<Item> now() {
        el::fence[0] = el::fence[1] = el::Fence{};
        std::vector<Item> r;
        for(size_t i = 0; i < ref.size(); ++i) {
            Item it = sut([&] { return Kind<T>::read(mem[i]); });
            r.push_back(it);
        }
        return r;
    }
    void drop() {
        el::fence[0] = el::fence[1] = el::Fence{};
        for(size_t i = 0; i < ref.size(); ++i)
            sut([&] { mem[i].~T(); });
        heap_free(mem);
        mem = nullptr;
    }
};

std::vector<Item> gen_keys(size_t n, int max_key) {
    std::vector<Item> r(n);
    int how = pick(11);
    uint64_t x = pick(1u << 30) * 2654435761ull + 1;
    auto rnd = [&](int m) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        return (int)((x >> 33) % (uint64_t)m);
    };
    int distinct = how == 1 ? 1 : how == 2 ? 2 : how == 3 ? 2 + (int)pick(6) : max_key + 1;
    if(distinct > max_key + 1) distinct = max_key + 1;
    int base = distinct < max_key ? (int)pick(max_key + 1 - distinct + 1) : 0;
    for(size_t i = 0; i < n; ++i) {
        int k;
        switch(how) {
        case 4: k = (int)i % (max_key + 1); break;
        case 5: k = (int)(n - i) % (max_key + 1); break;
        case 6: k = (int)(i < n / 2 ? i : n - i) % (max_key + 1); break; // organ pipe
        case 7: k = (int)(i % 16) % (max_key + 1); break;               // sawtooth
        case 8: k = (int)i % (max_key + 1); break;                       // sorted but for a few
        case 9: k = std::max(0, (int)(n - i) / 4) % (max_key + 1); break; // descending with ties
        case 10: k = rnd(8) ? max_key - rnd(2) : rnd(max_key + 1); break;  // mostly at the top
        default: k = std::min(base + rnd(distinct), max_key);
        }
        r[i].key = k;
    }
    if(how == 8)
        for(int q = 0; q < 3 && n; ++q)
            r[pick(n)].key = rnd(max_key + 1);
    for(size_t i = 0; i < n; ++i)
        r[i].seq = (int)i;
    return r;
}
size_t gen_n() {
    switch(pick(8)) {
    case 0: return pick(6);
    case 1:
    case 2:
    case 3: return pick(40);
    case 4: {
        static const int at[] = {16, 17, 32, 33, 64, 65, 100, 132, 301, 701};
        return at[pick(10)] - 2 + pick(5);
    }
    case 5:
    case 6: return pick(300);
    default: return pick(1200);
    }
}

struct ByKey {
    int compare(const Elem &a, const Elem &b) const {
        int x = Kind<Elem>::read(a).key, y = Kind<Elem>::read(b).key;
        return x < y ? -1 : x > y ? 1 : 0;
    }
    bool equal(const Elem &a, const Elem &b) const { return compare(a, b) == 0; }
};
struct ByKeyDown {
    // answers of any size
    int compare(const Elem &a, const Elem &b) const { return 3 * (Kind<Elem>::read(b).key - Kind<Elem>::read(a).key); }
    bool equal(const Elem &a, const Elem &b) const { return compare(a, b) == 0; }
};
template<typename T> struct Down {
    int compare(const T &a, const T &b) const { return a > b ? -1 : a < b ? 1 : 0; }
    bool equal(const T &a, const T &b) const { return a == b; }
};
// What the checks use to order items.
typedef int (*Ord)(const Item &, const Item &);
int up(const Item &a, const Item &b) { return a.key < b.key ? -1 : a.key > b.key; }
int down(const Item &a, const Item &b) { return up(b, a); }
int fl_rank(int k) { return k == 0 ? 11 : k == 5 ? 6 : k; }
int fl_up(const Item &a, const Item &b) { return fl_rank(a.key) < fl_rank(b.key) ? -1 : fl_rank(a.key) > fl_rank(b.key); }
int up_seq(const Item &a, const Item &b) { return a.key != b.key ? up(a, b) : a.seq < b.seq ? -1 : a.seq > b.seq; }

bool same_items(std::vector<Item> a, std::vector<Item> b) {
    auto lt = [](const Item &x, const Item &y) { return x.key != y.key ? x.key < y.key : x.seq < y.seq; };
    std::sort(a.begin(), a.end(), lt);
    std::sort(b.begin(), b.end(), lt);
    for(size_t i = 0; i < a.size(); ++i)
        if(a[i].key != b[i].key || a[i].seq != b[i].seq) return false;
    return a.size() == b.size();
}
std::string show_items(const std::vector<Item> &v, size_t from, size_t to) {
    std::string s;
    for(size_t i = from; i < to && i < v.size() && i < from + 24; ++i)
        s += fmt(i == from ? "%d" : " %d", v[i].key);
    return s;
}

template<typename T> struct Job {
    Arr<T> a;
    std::vector<Item> in; // the range, as it was
    const char *what = "";
    bool done = false;
    std::vector<Item> out() {
        auto all = a.now();
        for(size_t i = 0; i < all.size(); ++i)
            if(i < a.pre || i >= a.pre + a.n)
                SIM_CHECK(all[i].key == a.ref[i].key && (!Kind<T>::has_seq || all[i].seq == a.ref[i].seq), "outside-range", "%s changed an element outside the range it was given", what);
        std::vector<Item> r(all.begin() + a.pre, all.begin() + a.pre + a.n);
        auto want = in;
        if(!Kind<T>::has_seq)
            for(auto &i : want)
                i.seq = 0;
        if(!same_items(r, want))
            fail("elements-changed", "%s of %zu elements: the range does not hold the elements it was given: %s ... out of %s ...", what, r.size(), show_items(r, 0, r.size()).c_str(), show_items(in, 0, in.size()).c_str());
        return r;
    }
    void sorted(Ord o, bool stable, size_t from = 0, size_t to = (size_t)-1) {
        auto r = out();
        to = std::min(to, r.size());
        for(size_t i = from + 1; i < to; ++i) {
            int c = o(r[i - 1], r[i]);
            SIM_CHECK(c <= 0, "not-sorted", "%s of %zu elements: element %zu has key %d, the next one %d", what, r.size(), i - 1, r[i - 1].key, r[i].key);
            if(stable && Kind<T>::has_seq)
                SIM_CHECK(c < 0 || r[i - 1].seq < r[i].seq, "not-stable", "%s of %zu elements: equal elements %d and %d changed places", what, r.size(), r[i - 1].seq, r[i].seq);
        }
    }
    template<typename F> bool go(const char *w, F &&f) {
        what = w;
        log("%s of %zu elements (%zu before, %zu after): %s%s", w, a.n, a.pre, a.post, show_items(in, 0, in.size()).c_str(), in.size() > 24 ? " ..." : "");
        done = attempt(w, f);
        disarm();
        op_begin();
        return done;
    }
    void make(size_t n) {
        in = gen_keys(n, Kind<T>::max_key);
        size_t before = flip(1, 2) ? 0 : 1 + pick(4), after = flip(1, 2) ? 0 : 1 + pick(4);
        a.build(in, before, after);
    }
    void end() {
        if(a.mem) a.drop();
    }
};

// position of the split and everything on its proper side
void check_split(const std::vector<Item> &r, size_t split, int limit, const char *what) {
    SIM_CHECK(split <= r.size(), "wrong-answer", "%s answers a position outside the range", what);
    for(size_t i = 0; i < r.size(); ++i)
        SIM_CHECK((r[i].key < limit) == (i < split), "wrong-side", "%s of %zu elements answers %zu, but element %zu with key %d is on the wrong side of %d", what, r.size(), split, i, r[i].key, limit);
}
void check_nth(const std::vector<Item> &r, std::vector<Item> in, size_t nth, size_t pos, Ord o, const char *what) {
    SIM_CHECK(pos == nth, "wrong-answer", "%s of %zu elements answers position %zu when asked for %zu", what, r.size(), pos, nth);
    std::sort(in.begin(), in.end(), [&](const Item &x, const Item &y) { return o(x, y) < 0; });
    SIM_CHECK(o(r[nth], in[nth]) == 0, "wrong-selection", "%s of %zu elements: element %zu has key %d, the right one has %d", what, r.size(), nth, r[nth].key, in[nth].key);
    for(size_t i = 0; i < r.size(); ++i) {
        int c = o(r[i], r[nth]);
        SIM_CHECK(i < nth ? c <= 0 : c >= 0, "wrong-side", "%s of %zu elements: element %zu with key %d is on the wrong side of element %zu with key %d", what, r.size(), i, r[i].key, nth, r[nth].key);
    }
}

#if EPOCH == 2026
// the call without a comparator only compiles where there is a default one
#define IFD(a, b)                                                                                  \
    if constexpr(D) {                                                                              \
        if(plain)                                                                                  \
            a;                                                                                     \
        else                                                                                       \
            b;                                                                                     \
    } else                                                                                         \
        b
template<bool D, typename T, typename C> void any_sort(Job<T> &j, const C &cmp, Ord o) {
    T *b = j.a.b(), *e = j.a.e();
    P::Span<T> span(b, j.a.n);
    bool plain = D && coin();
    switch(pick(6)) {
    case 0: {
        bool sp = plain && coin();
        if(j.go("insertion sort", [&] { IFD((sp ? P::insertion_sort(span) : P::insertion_sort(b, e)), (P::insertion_sort(b, e, cmp))); })) j.sorted(o, true);
        break;
    }
    case 1: {
        bool sp = coin();
        if(j.go("merge sort", [&] {
               IFD((sp ? P::mergesort(span) : P::mergesort(b, e)), (sp ? P::mergesort(span, cmp) : P::mergesort(b, e, cmp)));
           }))
            j.sorted(o, true);
        break;
    }
    case 2: {
        bool sp = plain && coin();
        if(j.go("heap sort", [&] { IFD((sp ? P::heapsort(span) : P::heapsort(b, e)), (P::heapsort(b, e, cmp))); })) j.sorted(o, false);
        break;
    }
    case 3:
    case 4: {
        bool sp = plain && coin();
        if(j.go("introsort", [&] { IFD((sp ? P::introsort(span) : P::introsort(b, e)), (P::introsort(b, e, cmp))); })) j.sorted(o, false);
        break;
    }
    case 5:
        if(j.go("shell sort", [&] { IFD((P::shell_sort(b, e)), (P::shell_sort(b, e, cmp))); })) j.sorted(o, false);
        break;
    }
}
template<bool D, typename T, typename C> void any_select(Job<T> &j, const C &cmp, Ord o) {
    T *b = j.a.b(), *e = j.a.e();
    P::Span<T> span(b, j.a.n);
    bool plain = D && coin();
    if(flip(1, 12)) {
        size_t bad = j.a.n + pick(3);
        int which = pick(3);
        log("selection of element %zu of %zu", bad, j.a.n);
        refused("selecting an element that does not exist", [&] {
            which == 0 ? (void)P::nth_element(b, e, bad, cmp) : which == 1 ? (void)P::nth_element_heap(b, e, bad, cmp) : (void)P::partial_sort(b, e, bad, cmp);
        });
        j.what = "refused selection";
        j.out();
        return;
    }
    if(!j.a.n) return;
    size_t nth = pick(j.a.n), pos = 0;
    switch(pick(3)) {
    case 0: {
        bool sp = coin();
        if(j.go("selection", [&] {
               IFD((pos = sp ? P::nth_element(span, nth) : P::nth_element(b, e, nth) - b), (pos = sp ? P::nth_element(span, nth, cmp) : P::nth_element(b, e, nth, cmp) - b));
           }))
            check_nth(j.out(), j.in, nth, pos, o, j.what);
        break;
    }
    case 1:
        if(j.go("heap selection", [&] { pos = P::nth_element_heap(b, e, nth, cmp) - b; })) check_nth(j.out(), j.in, nth, pos, o, j.what);
        break;
    case 2:
        if(j.go("partial sort", [&] { IFD((pos = P::partial_sort(b, e, nth) - b), (pos = P::partial_sort(b, e, nth, cmp) - b)); })) {
            check_nth(j.out(), j.in, nth, pos, o, j.what);
            j.sorted(o, false, 0, nth);
        }
        break;
    }
}
template<typename T> void any_split(Job<T> &j) {
    T *b = j.a.b(), *e = j.a.e();
    int limit = j.a.n && flip(3, 4) ? j.in[pick(j.a.n)].key + (int)pick(2) : (int)pick(Kind<T>::max_key + 2);
    auto pred = [limit](const T &v) { return Kind<T>::read(v).key < limit; };
    size_t pos = 0;
    bool sp = coin();
    P::Span<T> span(b, j.a.n);
    switch(pick(6)) {
    case 0:
    case 1:
        if(j.go("partition", [&] { pos = sp ? P::partition(span, pred) : P::partition(b, e, pred) - b; })) check_split(j.out(), pos, limit, j.what);
        break;
    case 2:
        if(j.a.n > 300) break; // quadratic
        if(j.go("stable partition", [&] { pos = sp ? P::stable_partition(span, pred) : P::stable_partition(b, e, pred) - b; })) {
            auto r = j.out();
            check_split(r, pos, limit, j.what);
            if(Kind<T>::has_seq)
                for(size_t i = 1; i < r.size(); ++i)
                    SIM_CHECK(i == pos || r[i - 1].seq < r[i].seq, "not-stable", "%s of %zu elements changed the order of elements %d and %d", j.what, r.size(), r[i - 1].seq, r[i].seq);
        }
        break;
    case 3:
    case 4: {
        size_t mid = pick(j.a.n + 1);
        int how = pick(4);
        if(how == 3 && j.a.n) mid = 1;
        if(how < 2) how = 2;
        if(flip(1, 4)) how = (int)pick(2);
        if(j.a.n < 2 && how < 2) how = 2;
        if(how == 0) mid = j.a.n - 1;
        if(how == 1) mid = 1;
        if(j.go(how == 0 ? "rotation of the last to the front" : how == 1 ? "rotation of the first to the back" : "rotation", [&] {
               if(how == 0)
                   P::rotate_last_to_front(b, e);
               else if(how == 1)
                   P::rotate_first_to_back(b, e);
               else
                   pos = (sp ? P::rotate(span, mid) : P::rotate(b, b + mid, e)) - b;
           })) {
            auto r = j.out();
            if(how >= 2) SIM_CHECK(pos == j.a.n - mid, "wrong-answer", "%s of %zu elements by %zu answers position %zu", j.what, j.a.n, mid, pos);
            for(size_t i = 0; i < r.size(); ++i) {
                auto &w = j.in[(i + mid) % r.size()];
                SIM_CHECK(r[i].key == w.key && (!Kind<T>::has_seq || r[i].seq == w.seq), "wrong-rotation", "%s of %zu elements by %zu: element %zu is wrong", j.what, r.size(), mid, i);
            }
        }
        break;
    }
    case 5: {
        if(!j.a.n) break;
        // merging two sorted halves into a third place
        size_t mid = pick(j.a.n + 1);
        int want_first = -1, want_not = -1;
        for(size_t i = 0; i < j.in.size(); ++i) {
            if(want_first < 0 && j.in[i].key < limit) want_first = (int)i;
            if(want_not < 0 && !(j.in[i].key < limit)) want_not = (int)i;
        }
        size_t a1 = 0, a2 = 0, mn = 0, mx = 0;
        (void)mid;
        if(j.go("finding", [&] {
               a1 = P::find_if(b, e, pred) - b;
               a2 = P::find_if_not(b, e, pred) - b;
               if constexpr(Kind<T>::has_seq) {
                   mn = P::min_element(b, e, ByKey{}) - b;
                   mx = P::max_element(b, e, ByKey{}) - b;
               }
           })) {
            auto r = j.out();
            SIM_CHECK(a1 == (want_first < 0 ? r.size() : (size_t)want_first), "wrong-answer", "find_if finds %zu", a1);
            SIM_CHECK(a2 == (want_not < 0 ? r.size() : (size_t)want_not), "wrong-answer", "find_if_not finds %zu", a2);
            if constexpr(Kind<T>::has_seq)
                for(size_t i = 0; i < r.size(); ++i) {
                    SIM_CHECK(r[mn].key < r[i].key || (r[mn].key == r[i].key && mn <= i), "wrong-answer", "min_element answers %zu (key %d), element %zu has key %d", mn, r[mn].key, i, r[i].key);
                    SIM_CHECK(r[mx].key > r[i].key || (r[mx].key == r[i].key && mx <= i), "wrong-answer", "max_element answers %zu (key %d), element %zu has key %d", mx, r[mx].key, i, r[i].key);
                }
        }
        break;
    }
    }
}
#endif

template<typename T, typename C> void searching(Job<T> &j, const C &cmp, Ord o, bool nans = true) {
    // a sorted range
    std::sort(j.in.begin(), j.in.end(), [&](const Item &x, const Item &y) { return o(x, y) < 0; });
    j.a.drop();
    auto in = j.in;
    j.a.build(in, j.a.pre, j.a.post);
    T *b = j.a.b(), *e = j.a.e();
    Item q{(int)pick(Kind<T>::max_key + 1), 0};
    if(j.a.n && flip(3, 4)) q = in[pick(j.a.n)];
    if(!nans && (q.key == 0 || q.key == 11)) q.key = 6;
    if(Kind<T>::has_seq) q.seq = flip(1, 2) ? q.seq : 0;
    size_t pos = 0, want = 0;
    while(want < in.size() && o(in[want], q) < 0)
        ++want;
    bool is_sorted = true, plain = coin();
    if(!j.go("binary search", [&] {
           T v = Kind<T>::make(q);
#if EPOCH == 2026
           if constexpr(!std::is_floating_point<T>::value) {
               if(plain && (o == up_seq || (o == up && !Kind<T>::has_seq)))
                   pos = P::lower_bound(b, e, v) - b;
               else
                   pos = P::lower_bound(b, e, v, cmp) - b;
           } else
               pos = P::lower_bound(b, e, v, cmp) - b;
           is_sorted = P::is_sorted(b, e, cmp);
#else
           if(plain)
               pos = P::lower_bound(b, e, v) - b;
           else
               pos = P::lower_bound(b, e, v, [&](const T &x, const T &y) { return cmp.compare(x, y) < 0; }) - b;
#endif
       }))
        return;
    SIM_CHECK(pos == want, "wrong-answer", "searching key %d in %zu sorted elements answers %zu instead of %zu", q.key, in.size(), pos, want);
    SIM_CHECK(is_sorted, "wrong-answer", "is_sorted says no about a sorted range of %zu elements", in.size());
    j.out();
}

template<typename T> void finish(Job<T> &j) {
    if(j.a.n > 16) nontrivial();
    if(!j.done && j.a.mem) {
        // a refused operation may have left the elements in any order, but must not have lost one
        if(*j.what) j.out();
    }
    state(j.a.n * 131 + (uint64_t)(uintptr_t)j.what % 1009);
    j.end();
    disarm();
    op_begin();
    el::expect(0, "after everything was destroyed");
}

void elem_run(uint32_t den) {
    randomize_heap();
    allow_steps(60000000);
    int rounds = 1 + pick(4);
    for(int r = 0; r < rounds; ++r) {
        Job<Elem> j;
        disarm();
        j.make(gen_n());
        arm_faults(den);
        int how = pick(3);
#if EPOCH == 2026
        int op = pick(8);
        if(op < 4) {
            if(how == 0)
                any_sort<true>(j, P::DefaultComparator<Elem>{}, up_seq);
            else if(how == 1)
                any_sort<false>(j, ByKey{}, up);
            else
                any_sort<false>(j, ByKeyDown{}, down);
        } else if(op < 6) {
            if(how == 0)
                any_select<true>(j, P::DefaultComparator<Elem>{}, up_seq);
            else if(how == 1)
                any_select<false>(j, ByKey{}, up);
            else
                any_select<false>(j, ByKeyDown{}, down);
        } else if(op < 7)
            any_split(j);
        else {
            if(how == 0)
                searching(j, P::DefaultComparator<Elem>{}, up_seq);
            else if(how == 1)
                searching(j, ByKey{}, up);
            else
                searching(j, ByKeyDown{}, down);
        }
#else
        Elem *b = j.a.b(), *e = j.a.e();
        P::Span<Elem> span(b, j.a.n);
        bool sp = coin();
        switch(how) {
        case 0:
            if(j.a.n > 300) break;
            if(j.go("insertion sort", [&] { sp ? P::insertion_sort(span) : P::insertion_sort(b, e); })) j.sorted(up_seq, false);
            break;
        case 1: {
            int limit = j.a.n && flip(3, 4) ? j.in[pick(j.a.n)].key + (int)pick(2) : (int)pick(1000);
            size_t pos = 0, mn = 0;
            if(j.go("partition", [&] {
                   if(j.a.n) mn = P::min_element(b, e) - b;
                   host([&] { SIM_CHECK(mn <= j.a.n, "wrong-answer", "min_element outside the range"); });
                   for(size_t i = 0; i < j.a.n; ++i) {
                       bool smaller = b[i] < b[mn];
                       host([&] { SIM_CHECK(!smaller, "wrong-answer", "min_element did not find the minimum"); });
                   }
                   pos = P::partition(b, e, [limit](const Elem &v) { return Kind<Elem>::read(v).key < limit; }) - b;
               }))
                check_split(j.out(), pos, limit, j.what);
            break;
        }
        case 2: {
            struct Cmp {
                int compare(const Elem &a, const Elem &b) const { return a < b ? -1 : b < a ? 1 : 0; }
            };
            searching(j, Cmp{}, up_seq);
            break;
        }
        }
#endif
        finish(j);
    }
    check_no_leaks("after everything was destroyed");
}
#if EPOCH == 2026
template<typename T> void number_run(uint32_t den) {
    Job<T> j;
    disarm();
    j.make(gen_n());
    arm_faults(den);
    int op = pick(8);
    constexpr bool is_float = std::is_floating_point<T>::value;
    if constexpr(std::is_same<T, Loose>::value) {
        if(op < 5)
            any_sort<false>(j, LooseUp{}, up);
        else if(op < 6)
            any_split(j);
        else
            any_select<false>(j, LooseUp{}, up);
    } else if constexpr(!is_float) {
        if(op < 2) {
            if(coin())
                any_sort<true>(j, P::DefaultComparator<T>{}, up);
            else
                any_sort<false>(j, Down<T>{}, down);
        } else if(op < 4) {
            if(coin())
                any_select<true>(j, P::DefaultComparator<T>{}, up);
            else
                any_select<false>(j, Down<T>{}, down);
        } else if(op < 5)
            any_split(j);
        else if(op < 6)
            searching(j, P::DefaultComparator<T>{}, up);
        else if constexpr(std::is_unsigned<T>::value) {
            T *b = j.a.b(), *e = j.a.e();
            P::Span<T> span(b, j.a.n);
            int how = pick(3);
            if(j.go(how == 0 ? "bucket sort" : "radix sort", [&] {
                   if(how == 0)
                       P::bucketsort(b, e);
                   else if(how == 1)
                       P::radix_sort(b, e);
                   else
                       P::radix_sort(span);
               }))
                j.sorted(up, false);
        }
    } else {
        P::FloatTotalOrderComparator<T> tot;
        if(op < 3)
            any_sort<false>(j, tot, fl_up);
        else if(op < 5)
            any_select<false>(j, tot, fl_up);
        else if(op < 6)
            searching(j, tot, fl_up);
        else {
            // without NaN
            for(auto &i : j.in)
                if(i.key == 0 || i.key == 11) i.key = 6;
            j.a.drop();
            auto in = j.in;
            j.a.build(in, 0, 0);
            P::FloatIgnoreNanComparator<T> nan;
            if(op == 6)
                any_sort<false>(j, nan, fl_up);
            else
                searching(j, nan, fl_up, false);
        }
    }
    finish(j);
}
void numbers(uint32_t den) {
    randomize_heap();
    allow_steps(60000000);
    int rounds = 1 + pick(5);
    for(int r = 0; r < rounds; ++r) {
        u32_shift = pick(2) * 16;
        u64_shift = (int)pick(4) * 16;
        switch(pick(9)) {
        case 8: number_run<Loose>(den); break;
        case 0: number_run<uint8_t>(den); break;
        case 1: number_run<uint16_t>(den); break;
        case 2: number_run<uint32_t>(den); break;
        case 3: number_run<uint64_t>(den); break;
        case 4: number_run<int32_t>(den); break;
        case 5: number_run<int64_t>(den); break;
        case 6: number_run<float>(den); break;
        case 7: number_run<double>(den); break;
        }
    }
    check_no_leaks("after everything was destroyed");
}

// A comparator that answers so that the sorting algorithm has the hardest possible time (McIlroy 1999).
struct Adversary {
    std::vector<int> *val;
    int *solid, *candidate;
    int gas;
    int compare(const uint32_t &a, const uint32_t &b) const {
        uint32_t x = a, y = b;
        return host([&] {
            auto &v = *val;
            SIM_CHECK(x < v.size() && y < v.size(), "elements-changed", "the comparator was given something that is no element");
            if(v[x] == gas && v[y] == gas) {
                if((int)x == *candidate)
                    v[x] = (*solid)++;
                else
                    v[y] = (*solid)++;
            }
            if(v[x] == gas)
                *candidate = (int)x;
            else if(v[y] == gas)
                *candidate = (int)y;
            return v[x] < v[y] ? -1 : v[x] > v[y] ? 1 : 0;
        });
    }
    bool equal(const uint32_t &a, const uint32_t &b) const { return a == b; }
};
void adversary() {
    randomize_heap();
    allow_steps(60000000);
    size_t n = 20 + pick(600);
    std::vector<int> val(n, 1000000);
    int solid = 0, candidate = 0;
    Adversary adv{&val, &solid, &candidate, 1000000};
    Arr<uint32_t> a;
    a.n = n;
    a.mem = (uint32_t *)heap_alloc(n * 4, 4);
    for(size_t i = 0; i < n; ++i)
        sut([&] { a.mem[i] = (uint32_t)i; });
    const char *what = "";
    int alg = pick(5);
    size_t nth = pick(n), pos = nth;
    log("adversary against algorithm %d, %zu elements", alg, n);
    disarm();
    op_begin();
    attempt("sorting", [&] {
        switch(alg) {
        case 0: what = "introsort"; P::introsort(a.mem, a.mem + n, adv); break;
        case 1: what = "heap sort"; P::heapsort(a.mem, a.mem + n, adv); break;
        case 2: what = "merge sort"; P::mergesort(a.mem, a.mem + n, adv); break;
        case 3: what = "shell sort"; P::shell_sort(a.mem, a.mem + n, adv); break;
        case 4: what = "selection"; pos = P::nth_element(a.mem, a.mem + n, nth, adv) - a.mem; break;
        }
    });
    nontrivial();
    std::vector<uint32_t> r(n);
    for(size_t i = 0; i < n; ++i)
        r[i] = sut([&] { return a.mem[i]; });
    std::vector<bool> seen(n);
    for(auto x : r) {
        SIM_CHECK(x < n && !seen[x], "elements-changed", "%s lost or duplicated an element", what);
        seen[x] = true;
    }
    if(alg < 4) {
        for(size_t i = 1; i < n; ++i)
            SIM_CHECK(val[r[i - 1]] <= val[r[i]], "not-sorted", "%s of %zu elements is out of order at %zu", what, n, i);
    } else {
        SIM_CHECK(pos == nth, "wrong-answer", "selection answers %zu when asked for %zu", pos, nth);
        for(size_t i = 0; i < n; ++i)
            SIM_CHECK(i < nth ? val[r[i]] <= val[r[nth]] : val[r[i]] >= val[r[nth]], "wrong-side", "selection of element %zu of %zu: element %zu is on the wrong side", nth, n, i);
    }
    heap_free(a.mem);
    check_no_leaks("after everything was destroyed");
}
// Sorting through indices, and merging.
void indirect(uint32_t den) {
    randomize_heap();
    allow_steps(60000000);
    Job<Elem> j;
    disarm();
    j.make(gen_n());
    int how = pick(4);
    auto in = j.in;
    std::vector<size_t> idx;
    arm_faults(den);
    if(how == 3) {
        // two sorted runs into a third place
        size_t mid = pick(in.size() + 1);
        auto lt = [](const Item &x, const Item &y) { return x.key < y.key; };
        std::stable_sort(in.begin(), in.begin() + mid, lt);
        std::stable_sort(in.begin() + mid, in.end(), lt);
        for(size_t i = 0; i < in.size(); ++i)
            in[i].seq = (int)i;
        size_t pre = j.a.pre, post = j.a.post;
        disarm();
        j.a.drop();
        j.in = in;
        j.a.build(in, pre, post);
        size_t n = in.size();
        Elem *out = (Elem *)heap_alloc(std::max<size_t>(1, n * sizeof(Elem)));
        for(size_t i = 0; i < n; ++i)
            sut([&] { new(out + i) Elem(); });
        Elem *b = j.a.b();
        j.go("merging", [&] { P::merge_pass(b, b + mid, b + mid, j.a.e(), out, ByKey{}); });
        std::vector<Item> r;
        for(size_t i = 0; i < n; ++i)
            r.push_back(sut([&] { return Kind<Elem>::read(out[i]); }));
        SIM_CHECK(same_items(r, in), "elements-changed", "merging %zu and %zu elements lost or changed some", mid, n - mid);
        for(size_t i = 1; i < n; ++i)
            SIM_CHECK(r[i - 1].key < r[i].key || (r[i - 1].key == r[i].key && r[i - 1].seq < r[i].seq), "not-sorted", "merging %zu and %zu elements puts %d (%d) before %d (%d)", mid, n - mid, r[i - 1].key, r[i - 1].seq, r[i].key, r[i].seq);
        for(size_t i = 0; i < n; ++i)
            sut([&] { out[i].~Elem(); });
        heap_free(out);
        j.done = true;
        finish(j);
        check_no_leaks("after everything was destroyed");
        return;
    }
    bool stable = how != 0, plain = how == 2;
    if(j.go(stable ? "stable indirect sort" : "indirect sort", [&] {
           Elem *b = j.a.b(), *e = j.a.e();
           auto v = stable ? (plain ? P::indirect_stable_sort(b, e) : P::indirect_stable_sort(b, e, ByKey{})) : P::indirect_sort(b, e, ByKey{});
           for(size_t i : v)
               host([&] { idx.push_back(i); });
       })) {
        auto r = j.out();
        for(size_t i = 0; i < r.size(); ++i)
            SIM_CHECK(r[i].seq == in[i].seq, "elements-changed", "%s moved the elements", j.what);
        SIM_CHECK(idx.size() == r.size(), "wrong-answer", "%s of %zu elements yields %zu indexes", j.what, r.size(), idx.size());
        std::vector<bool> seen(r.size());
        for(auto i : idx) {
            SIM_CHECK(i < r.size() && !seen[i], "wrong-answer", "%s yields index %zu twice or outside the range", j.what, i);
            seen[i] = true;
        }
        for(size_t i = 1; i < idx.size(); ++i) {
            Item &x = in[idx[i - 1]], &y = in[idx[i]];
            SIM_CHECK(x.key <= y.key, "not-sorted", "%s of %zu elements is out of order at %zu", j.what, r.size(), i);
            SIM_CHECK(!stable || x.key < y.key || x.seq < y.seq, "not-stable", "%s of %zu elements swaps equal ones at %zu", j.what, r.size(), i);
        }
    }
    finish(j);
    check_no_leaks("after everything was destroyed");
}
#endif
} // namespace

#if EPOCH == 2026
// Long ranges: whatever the algorithms keep per element must not run out.
void large() {
    randomize_heap();
    allow_steps(60000000);
    int alg = pick(12), shape = pick(9);
    size_t n = coin() ? 30000 + pick(60000) : 1500 + pick(1000u << pick(5));
    if(alg >= 8) n = 1500 + pick(12000);
    uint32_t *a = (uint32_t *)heap_alloc(n * 4, 4);
    std::vector<uint32_t> ref(n);
    for(size_t i = 0; i < n; ++i)
        ref[i] = shape == 0 ? (uint32_t)i : shape == 1 ? (uint32_t)(n - i) : shape == 2 ? 7 : shape == 3 ? (uint32_t)(i * 2654435761u) : (uint32_t)(i * 2654435761u) >> (shape == 4 ? 24 : shape == 5 ? 31 : 20);
    if(shape >= 6) {
        // a few that are quite different from all others, or a piece out of place
        for(size_t k = 1 + pick(4); k > 0; --k)
            ref[pick(n)] = pick(2) ? 1u << pick(32) : ~0u - pick(1000);
        if(shape == 7) std::sort(ref.begin(), ref.end());
        if(shape == 8) std::sort(ref.begin(), ref.begin() + n / 2), std::sort(ref.begin() + n / 2, ref.end());
        if(shape == 7) std::swap(ref[pick(n)], ref[pick(n)]);
    }
    memcpy(a, ref.data(), n * 4);
    log("algorithm %d on %zu elements of shape %d", alg, n, shape);
    size_t mid = coin() ? 1 : n - 1, nth = pick(n);
    op_begin();
    bool sort = alg < 5 || alg == 8;
    std::vector<size_t> order;
    attempt("sorting", [&] {
        switch(alg) {
        case 0: P::introsort(a, a + n); break;
        case 1: P::mergesort(a, a + n); break;
        case 2: P::radix_sort(a, a + n); break;
        case 3: P::bucketsort(a, a + n); break;
        case 4: P::heapsort(a, a + n); break;
        case 5:
        case 6: P::rotate(a, a + mid, a + n); break;
        case 7: P::nth_element(a, a + n, nth, P::DefaultComparator<uint32_t>{}); break;
        case 8: P::shell_sort(a, a + n); break;
        case 9: P::partial_sort(a, a + n, nth); break;
        case 10: nth = P::stable_partition(a, a + n, [](uint32_t x) { return x & 1; }) - a; break;
        default: {
            auto v = P::indirect_stable_sort(a, a + n);
            size_t c = v.size();
            auto *d = v.data();
            host([&] { order.assign(d, d + c); });
        }
        }
    });
    nontrivial();
    if(sort) {
        std::sort(ref.begin(), ref.end());
        SIM_CHECK(!memcmp(a, ref.data(), n * 4), "not-sorted", "%zu elements are not sorted", n);
    } else if(alg == 9) {
        std::vector<uint32_t> got(a, a + n), all = ref;
        std::sort(all.begin(), all.end());
        SIM_CHECK(std::equal(a, a + nth + 1, all.begin()), "not-sorted", "the first %zu of %zu elements are not the smallest in order", nth + 1, n);
        std::sort(got.begin(), got.end());
        SIM_CHECK(got == all, "not-sorted", "partial sorting loses elements");
    } else if(alg == 10) {
        auto at = std::stable_partition(ref.begin(), ref.end(), [](uint32_t x) { return x & 1; }) - ref.begin();
        SIM_CHECK((size_t)at == nth && !memcmp(a, ref.data(), n * 4), "wrong-side", "partitioning %zu elements", n);
    } else if(alg == 11) {
        SIM_CHECK(!memcmp(a, ref.data(), n * 4), "not-sorted", "sorting indexes changed the elements");
        std::vector<size_t> o(n);
        for(size_t i = 0; i < n; ++i)
            o[i] = i;
        std::stable_sort(o.begin(), o.end(), [&](size_t x, size_t y) { return ref[x] < ref[y]; });
        SIM_CHECK(order == o, "not-stable", "the indexes of %zu elements are not in stable order", n);
    } else if(alg == 7) {
        std::nth_element(ref.begin(), ref.begin() + nth, ref.end());
        SIM_CHECK(a[nth] == ref[nth], "wrong-selection", "selecting element %zu of %zu", nth, n);
    } else {
        std::rotate(ref.begin(), ref.begin() + mid, ref.end());
        SIM_CHECK(!memcmp(a, ref.data(), n * 4), "wrong-rotation", "rotating %zu elements by %zu", n, mid);
    }
    heap_free(a);
    check_no_leaks("after everything was destroyed");
}
SIM_SCENARIO(m05_large, 1) {
    if(pick(16) == 0)
        large();
    else
        adversary();
}
#endif
SIM_SCENARIO(m05_elem, 4) { elem_run(0); }
SIM_SCENARIO(m05_elem_faults, 1) { elem_run(3); }
#if EPOCH == 2026
SIM_SCENARIO(m05_numbers, 4) { numbers(0); }
SIM_SCENARIO(m05_numbers_faults, 1) { numbers(3); }
SIM_SCENARIO(m05_adversary, 1) { adversary(); }
SIM_SCENARIO(m05_indirect, 2) { indirect(0); }
SIM_SCENARIO(m05_indirect_faults, 1) { indirect(3); }
#endif
