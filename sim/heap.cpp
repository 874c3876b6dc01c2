// Simulated heap: seeded placement, dirty fill, byte-exact validity, injected exhaustion.
#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <new>
#include <string.h>
#include <unordered_map>
#include <vector>

namespace sim {
void note_pc(uintptr_t pc);
struct Block {
    uintptr_t a;
    size_t n;
    bool live;
    bool internal; // made by the harness, not by the code under test
    size_t align;
    bool kept; // belongs to a static object, which lives as long as the process
};
static std::vector<Block> *blocks;
static std::unordered_map<uintptr_t, size_t> *by_addr; // address -> index of the latest block there
static std::unordered_map<size_t, std::vector<uintptr_t>> *freelist;
static uintptr_t top = HEAP_BASE;
static HeapMode mode;
static uint64_t nalloc = 0, nlive = 0, blive = 0;
static uint64_t prng = 0;

HeapMode &heap_mode() { return mode; }
void heap_init() {
    blocks = new std::vector<Block>;
    blocks->reserve(4096);
    by_addr = new std::unordered_map<uintptr_t, size_t>;
    by_addr->reserve(4096);
    freelist = new std::unordered_map<size_t, std::vector<uintptr_t>>;
    memset((void *)SHADOW_BASE, 0xff, 4096); // the rest is filled as the heap grows
    top = HEAP_BASE + 64;
}
static uintptr_t shadowed = HEAP_BASE + 4096 * 8;
static void need_shadow(uintptr_t to) {
    if(to > shadowed) {
        uintptr_t n = std::min<uintptr_t>(HEAP_BASE + HEAP_SIZE, ((to + (1 << 16)) | 0xffff) + 1);
        memset((void *)(SHADOW_BASE + (shadowed - HEAP_BASE) / 8), 0xff, (n - shadowed) / 8);
        shadowed = n;
    }
}
void randomize_heap() {
    mode.place = choose(HEAP, 65536);
    static const uint32_t fills[] = {0xAA, 0x00, 0xFF, 0x01, 0x7F, 0x100};
    mode.fill = fills[choose(HEAP, 6)];
    mode.reuse = choose(HEAP, 3) == 2;
    prng = mode.place * 0x9e3779b97f4a7c15ull + 1;
    // the salt of some containers is the address they live at: move the whole heap as well
    if(top == HEAP_BASE + 64) top += (mode.place % 4096) * 16;
    need_shadow(top + 4096);
}
static uint64_t rnd() {
    prng ^= prng << 13;
    prng ^= prng >> 7;
    prng ^= prng << 17;
    return prng;
}
static void set_shadow(uintptr_t a, size_t n, bool ok) {
    auto s = (unsigned char *)(SHADOW_BASE + (a - HEAP_BASE) / 8);
    if(ok) {
        memset(s, 0, n / 8);
        if(n % 8) s[n / 8] = n % 8;
    } else {
        memset(s, 0xfd, (n + 7) / 8);
    }
}
bool heap_owns(const void *p) { return (uintptr_t)p - HEAP_BASE < HEAP_SIZE; }
size_t live_blocks() { return nlive; }
size_t live_bytes() { return blive; }
uint64_t alloc_count() { return nalloc; }

static void *get(size_t n, size_t align, bool internal) {
    Host h;
    if(align < 16) align = 16;
    if(n > HEAP_LARGEST) return nullptr; // what a real machine would answer to an absurd request
    size_t rounded = (std::max<size_t>(n, 1) + 15) & ~15ull;
    uintptr_t a = 0;
    if(mode.reuse && !internal) {
        auto &fl = (*freelist)[rounded];
        for(size_t i = fl.size(); i-- > 0;)
            if(fl[i] % align == 0) {
                a = fl[i];
                fl.erase(fl.begin() + i);
                probe("address-reused");
                break;
            }
    }
    if(!a) {
        size_t gap = 16;
        if(mode.place) gap += (rnd() & 7) * 16;
        a = (top + gap + align - 1) & ~(align - 1);
        if(a + rounded + 4096 > HEAP_BASE + HEAP_SIZE) {
            // Everything has been used once: what was freed longest ago comes next.
            a = 0;
            std::vector<size_t> sizes;
            for(auto &[sz, l] : *freelist)
                if(sz >= rounded && !l.empty()) sizes.push_back(sz);
            std::sort(sizes.begin(), sizes.end());
            for(size_t sz : sizes) {
                auto &fl = (*freelist)[sz];
                for(size_t i = 0; i < fl.size() && !a; ++i)
                    if(fl[i] % align == 0) {
                        a = fl[i];
                        fl.erase(fl.begin() + i);
                    }
                if(a) break;
            }
            if(!a) return nullptr;
        } else {
            top = a + rounded;
            need_shadow(top + 4096);
        }
    }
    set_shadow(a, n, true);
    race_forget(a, rounded);
    if(mode.fill < 0x100)
        memset((void *)a, mode.fill, n);
    else
        for(size_t i = 0; i < n; ++i)
            ((char *)a)[i] = (char)rnd();
    (*by_addr)[a] = blocks->size();
    const bool kept = !internal && tl_static > 0;
    blocks->push_back({a, n, true, internal, align, kept});
    if(!internal && !kept) {
        ++nlive;
        blive += n;
    }
    return (void *)a;
}
static bool oom() {
    if(!tl_sut) return false;
    auto &f = faults();
    if(f.oom_after < 0) return false;
    if(f.oom_after > 0) {
        --f.oom_after;
        return false;
    }
    if(f.oom_count > 0) {
        --f.oom_count;
        fault_fired("alloc:ENOMEM");
        if(f.oom_count == 0) f.oom_after = -1;
        return true;
    }
    f.oom_after = -1;
    return false;
}
void *heap_alloc(size_t n, size_t align) { return get(n, align, true); }
static void *sut_alloc(size_t n, size_t align) {
    ++nalloc;
    if(n == 0) probe("zero-size-allocation");
    if(oom()) return nullptr;
    void *p = get(n, align, false);
    if(!p) fault_fired("alloc:too-big");
    return p;
}
static Block *block_at(void *p) {
    auto it = by_addr->find((uintptr_t)p);
    return it == by_addr->end() ? nullptr : &(*blocks)[it->second];
}
static std::string where(uintptr_t a) {
    const Block *best = nullptr;
    for(auto &b : *blocks)
        if(b.a <= a && (!best || b.a >= best->a)) best = &b;
    if(!best) return "before every block";
    size_t off = a - best->a;
    if(off < best->n) return fmt("at offset %zu of a %s block of %zu bytes", off, best->live ? "live" : "freed", best->n);
    return fmt("%zu bytes past the end of a %s block of %zu bytes", off - best->n, best->live ? "live" : "freed", best->n);
}
bool addressable(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if(n == 0 || a - HEAP_BASE >= HEAP_SIZE) return true;
    if(a + n > shadowed) return false;
    for(uintptr_t g = a & ~7ull; g < a + n; g += 8) {
        unsigned char s = *(unsigned char *)(SHADOW_BASE + (g - HEAP_BASE) / 8);
        if(s == 0) continue;
        if(s >= 0x80) return false;
        if(std::min(a + n, g + 8) - g > s) return false;
    }
    return true;
}
void check_range(const void *p, size_t n, bool write, uintptr_t pc) {
    if(!tl_sut || !n) return;
    uintptr_t a = (uintptr_t)p;
    if(a - HEAP_BASE >= HEAP_SIZE) return;
    // fast path: one granule, fully valid
    if(addressable(p, n)) return;
    note_pc(pc);
    uintptr_t bad = a;
    while(bad < a + n && addressable((void *)bad, 1))
        ++bad;
    tl_sut = false;
    std::string w = where(bad);
    bool uaf = w.find("freed") != std::string::npos;
    tl_sut = true;
    fail(uaf ? "use-after-free" : "heap-out-of-bounds", "%s of %zu byte%s %s", write ? "write" : "read", n,
         n == 1 ? "" : "s", w.c_str());
}
static void release(void *p, bool internal) {
    if(!p) return;
    Host h;
    Block *b = block_at(p);
    if(!b) {
        std::string w = where((uintptr_t)p);
        fail("invalid-free", "free of a pointer that no allocation returned (%s)", w.c_str());
    }
    if(!b->live) fail("double-free", "a block of %zu bytes is freed twice", b->n);
    if(b->internal != internal) fail("invalid-free", "free of an object that lives in somebody else's block");
    b->live = false;
    size_t rounded = (std::max<size_t>(b->n, 1) + 15) & ~15ull;
    set_shadow(b->a, rounded, false);
    memset(p, 0xDD, b->n);
    mutex_forget(b->a, b->a + b->n);
    if(!internal) {
        if(!b->kept) {
            --nlive;
            blive -= b->n;
        }
        (*freelist)[rounded].push_back(b->a); // (without mode.reuse: for when everything has been used once)
    }
}
void heap_free(void *p) { release(p, true); }
void check_no_leaks(const char *what) {
    if(nlive == 0) return;
    std::string s;
    int k = 0;
    for(auto &b : *blocks)
        if(b.live && !b.internal && !b.kept && k++ < 4) s += fmt(" [%zu bytes %s]", b.n, show((void *)b.a, std::min<size_t>(b.n, 24)).c_str());
    fail("leak", "%llu block(s) are still allocated after %s:%s", (unsigned long long)nlive, what, s.c_str());
}
void *host_malloc(size_t n) { return malloc(n); }
void host_free(void *p) { free(p); }
} // namespace sim

using namespace sim;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void *sim_malloc(size_t n) {
    if(!tl_sut) return malloc(n);
    sched_sync_point("malloc", PC);
    void *p = sut_alloc(n, 16);
    if(!p) errno = ENOMEM;
    return p;
}
void sim_free(void *p) {
    if(!heap_owns(p)) {
        free(p);
        return;
    }
    note_pc(PC);
    // freeing is a write to the whole block as far as ordering is concerned
    if(tl_sut)
        if(Block *b = block_at(p); b && b->live && b->n) access((uintptr_t)p, b->n, true, false, PC);
    release(p, false);
}
void *sim_calloc(size_t a, size_t b) {
    if(!tl_sut) return calloc(a, b);
    if(b && a > SIZE_MAX / b) {
        errno = ENOMEM;
        return nullptr;
    }
    void *p = sim_malloc(a * b);
    if(p) memset(p, 0, a * b);
    return p;
}
void *sim_realloc(void *p, size_t n) {
    if(!p) return sim_malloc(n);
    if(!heap_owns(p)) return realloc(p, n);
    Block *b = block_at(p);
    if(!b || !b->live) fail("invalid-free", "realloc of a pointer that is not allocated");
    bool prev = set_sut(true);
    void *q = sut_alloc(n, 16);
    set_sut(prev);
    if(!q) {
        errno = ENOMEM;
        return nullptr;
    }
    b = block_at(p);
    memcpy(q, p, std::min(n, b->n));
    release(p, false);
    return q;
}
void *sim_reallocarray(void *p, size_t a, size_t b) {
    if(b && a > SIZE_MAX / b) {
        errno = ENOMEM;
        return nullptr;
    }
    return sim_realloc(p, a * b);
}
void *sim_aligned_alloc(size_t al, size_t n) {
    if(!tl_sut) return aligned_alloc(al, n);
    sched_sync_point("malloc", PC);
    void *p = sut_alloc(n, al);
    if(!p) errno = ENOMEM;
    return p;
}
int sim_posix_memalign(void **out, size_t al, size_t n) {
    void *p = sim_aligned_alloc(al, n);
    if(!p) return ENOMEM;
    *out = p;
    return 0;
}
size_t sim_malloc_usable_size(void *p) {
    Block *b = block_at(p);
    return b ? b->n : 0;
}
char *sim_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = (char *)sim_malloc(n);
    if(p) memcpy(p, s, n);
    return p;
}
char *sim_strndup(const char *s, size_t k) {
    size_t n = strnlen(s, k);
    char *p = (char *)sim_malloc(n + 1);
    if(p) {
        memcpy(p, s, n);
        p[n] = 0;
    }
    return p;
}

// ---- string functions: the ranges they read and write are checked --------------------------
// Reading stops at the terminator, so the terminator must lie in valid memory.
static size_t zlen(const char *s, size_t max, uintptr_t pc) {
    if(!tl_sut || !heap_owns(s)) return strnlen(s, max);
    size_t i = 0;
    while(i < max) {
        if(!addressable(s + i, 1)) {
            access((uintptr_t)s, i + 1, false, false, pc);
            break;
        }
        if(s[i] == 0) break;
        ++i;
    }
    return i;
}
static void zread(const char *s, size_t max, uintptr_t pc) {
    if(!tl_sut) return;
    size_t n = zlen(s, max, pc);
    access((uintptr_t)s, n < max ? n + 1 : n, false, false, pc);
}
static void rd(const void *p, size_t n, uintptr_t pc) {
    if(tl_sut && n) access((uintptr_t)p, n, false, false, pc);
}
static void wr(const void *p, size_t n, uintptr_t pc) {
    if(tl_sut && n) access((uintptr_t)p, n, true, false, pc);
}
size_t sim_strlen(const char *s) {
    zread(s, SIZE_MAX, PC);
    return strlen(s);
}
size_t sim_strnlen(const char *s, size_t n) {
    zread(s, n, PC);
    return strnlen(s, n);
}
int sim_strcmp(const char *a, const char *b) {
    if(tl_sut) {
        size_t i = 0;
        while(addressable(a + i, 1) && addressable(b + i, 1) && a[i] == b[i] && a[i])
            ++i;
        rd(a, i + 1, PC);
        rd(b, i + 1, PC);
    }
    int r = strcmp(a, b);
    return r < 0 ? -1 : r > 0 ? 1 : 0;
}
int sim_strncmp(const char *a, const char *b, size_t n) {
    if(tl_sut) {
        size_t i = 0;
        while(i < n && addressable(a + i, 1) && addressable(b + i, 1) && a[i] == b[i] && a[i])
            ++i;
        if(i < n) ++i;
        rd(a, i, PC);
        rd(b, i, PC);
    }
    int r = strncmp(a, b, n);
    return r < 0 ? -1 : r > 0 ? 1 : 0;
}
int sim_memcmp(const void *a, const void *b, size_t n) {
    rd(a, n, PC);
    rd(b, n, PC);
    int r = memcmp(a, b, n);
    return r < 0 ? -1 : r > 0 ? 1 : 0;
}
int sim_bcmp(const void *a, const void *b, size_t n) {
    rd(a, n, PC);
    rd(b, n, PC);
    return memcmp(a, b, n) != 0;
}
const void *sim_memchr(const void *a, int c, size_t n) {
    const void *r = memchr(a, c, n);
    rd(a, r ? (size_t)((const char *)r - (const char *)a) + 1 : n, PC);
    return r;
}
const char *sim_strchr(const char *s, int c) {
    zread(s, SIZE_MAX, PC);
    return strchr(s, c);
}
const char *sim_strrchr(const char *s, int c) {
    zread(s, SIZE_MAX, PC);
    return strrchr(s, c);
}
const char *sim_strstr(const char *a, const char *b) {
    zread(a, SIZE_MAX, PC);
    zread(b, SIZE_MAX, PC);
    return strstr(a, b);
}
void *sim_memmem(const void *a, size_t n, const void *b, size_t m) {
    rd(a, n, PC);
    rd(b, m, PC);
    return memmem(a, n, b, m);
}
char *sim_strcpy(char *d, const char *s) {
    zread(s, SIZE_MAX, PC);
    wr(d, strlen(s) + 1, PC);
    return strcpy(d, s);
}
char *sim_strncpy(char *d, const char *s, size_t n) {
    zread(s, n, PC);
    wr(d, n, PC);
    return strncpy(d, s, n);
}
char *sim_strcat(char *d, const char *s) {
    zread(s, SIZE_MAX, PC);
    zread(d, SIZE_MAX, PC);
    wr(d + strlen(d), strlen(s) + 1, PC);
    return strcat(d, s);
}
const void *sim_memrchr(const void *a, int c, size_t n) {
    rd(a, n, PC);
    return memrchr(a, c, n);
}
size_t sim_strspn(const char *a, const char *b) {
    zread(a, SIZE_MAX, PC);
    zread(b, SIZE_MAX, PC);
    return strspn(a, b);
}
size_t sim_strcspn(const char *a, const char *b) {
    zread(a, SIZE_MAX, PC);
    zread(b, SIZE_MAX, PC);
    return strcspn(a, b);
}
const char *sim_strpbrk(const char *a, const char *b) {
    zread(a, SIZE_MAX, PC);
    zread(b, SIZE_MAX, PC);
    return strpbrk(a, b);
}
int sim_strcasecmp(const char *a, const char *b) {
    zread(a, SIZE_MAX, PC);
    zread(b, SIZE_MAX, PC);
    return strcasecmp(a, b);
}
int sim_strncasecmp(const char *a, const char *b, size_t n) {
    zread(a, n, PC);
    zread(b, n, PC);
    return strncasecmp(a, b, n);
}
char *sim_strncat(char *d, const char *s, size_t n) {
    zread(s, n, PC);
    zread(d, SIZE_MAX, PC);
    wr(d + strlen(d), strnlen(s, n) + 1, PC);
    return strncat(d, s, n);
}
char *sim_stpcpy(char *d, const char *s) {
    zread(s, SIZE_MAX, PC);
    wr(d, strlen(s) + 1, PC);
    return stpcpy(d, s);
}
// strtok remembers where it was, for all threads: what it remembers is a variable of the code under test
static char *strtok_place;
static char *tok(char *s, const char *sep, char **at) {
    if(!s) s = *at;
    if(!s) return nullptr;
    s += strspn(s, sep);
    if(!*s) {
        *at = s;
        return nullptr;
    }
    char *e = s + strcspn(s, sep);
    if(*e) {
        wr(e, 1, (uintptr_t)__builtin_return_address(0));
        *e++ = 0;
    }
    *at = e;
    return s;
}
char *sim_strtok_r(char *s, const char *sep, char **at) {
    zread(sep, SIZE_MAX, PC);
    wr(at, sizeof *at, PC);
    if(s) zread(s, SIZE_MAX, PC);
    return tok(s, sep, at);
}
char *sim_strtok(char *s, const char *sep) {
    zread(sep, SIZE_MAX, PC);
    wr(&strtok_place, sizeof strtok_place, PC);
    if(s) zread(s, SIZE_MAX, PC);
    return tok(s, sep, &strtok_place);
}
// Texts in a place shared by all threads.
static char shared_text[256];
static const char *in_shared(const char *t, uintptr_t pc) {
    wr(shared_text, sizeof shared_text, pc);
    snprintf(shared_text, sizeof shared_text, "%s", t);
    return shared_text;
}
const char *sim_strerror(int e) {
    if(e >= 0 && e < 134) return strerror(e); // the texts of known errors are constants
    Host h;
    std::string t = "Unknown error " + std::to_string(e);
    tl_sut = h.prev;
    return in_shared(t.c_str(), PC);
}
static struct tm shared_tm;
struct tm *sim_localtime(const time_t *t) {
    rd(t, sizeof *t, PC);
    wr(&shared_tm, sizeof shared_tm, PC);
    return gmtime_r(t, &shared_tm);
}
struct tm *sim_localtime_r(const time_t *t, struct tm *to) {
    rd(t, sizeof *t, PC);
    wr(to, sizeof *to, PC);
    return gmtime_r(t, to);
}
struct tm *sim_gmtime(const time_t *) __attribute__((alias("sim_localtime")));
struct tm *sim_gmtime_r(const time_t *, struct tm *) __attribute__((alias("sim_localtime_r")));
char *sim_strtok_r2(char *, const char *, char **) __attribute__((alias("sim_strtok_r")));
void *sim_memcpy(void *d, const void *s, size_t n) {
    rd(s, n, PC);
    wr(d, n, PC);
    return memmove(d, s, n);
}
void *sim_memmove(void *d, const void *s, size_t n) {
    rd(s, n, PC);
    wr(d, n, PC);
    return memmove(d, s, n);
}
void *sim_memset(void *d, int c, size_t n) {
    wr(d, n, PC);
    return memset(d, c, n);
}
int sim_vsnprintf(char *d, size_t n, const char *f, va_list ap) {
    // the formatted text is written by real libc; the target must be valid
    va_list c;
    va_copy(c, ap);
    int k = vsnprintf(nullptr, 0, f, c);
    va_end(c);
    if(n && k >= 0) wr(d, std::min<size_t>(n, (size_t)k + 1), PC);
    Host h;
    return vsnprintf(d, n, f, ap);
}
int sim_snprintf(char *d, size_t n, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int k = sim_vsnprintf(d, n, f, ap);
    va_end(ap);
    return k;
}
// The arguments of a formatted print that point to text must be readable as such.
static void check_print(const char *f, va_list ap0) {
    va_list ap;
    va_copy(ap, ap0);
    while(*f) {
        if(*f++ != '%') continue;
        if(*f == '%') {
            ++f;
            continue;
        }
        long prec = -1;
        while(*f && strchr("-+ #0'123456789", *f))
            ++f;
        if(*f == '*') {
            va_arg(ap, int);
            ++f;
        }
        if(*f == '.') {
            ++f;
            if(*f == '*') {
                prec = va_arg(ap, int);
                ++f;
            } else {
                prec = 0;
                while(*f >= '0' && *f <= '9')
                    prec = prec * 10 + (*f++ - '0');
            }
        }
        int lng = 0;
        while(*f && strchr("hlLzjtq", *f)) {
            lng += *f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q';
            ++f;
        }
        switch(*f ? *f++ : 0) {
        case 's': {
            const char *s = va_arg(ap, const char *);
            if(s) zread(s, prec < 0 ? SIZE_MAX : (size_t)prec, PC);
            break;
        }
        case 'p': va_arg(ap, void *); break;
        case 'e':
        case 'f':
        case 'g':
        case 'a':
        case 'E':
        case 'F':
        case 'G': va_arg(ap, double); break;
        case 0: break;
        default:
            if(lng)
                va_arg(ap, long);
            else
                va_arg(ap, int);
        }
    }
    va_end(ap);
}
} // extern "C"
namespace sim {
bool capture_output = false;
std::string &program_output() {
    static auto *s = new std::string;
    return *s;
}
std::string &error_output() {
    static auto *s = new std::string;
    return *s;
}
} // namespace sim
extern "C" {
void sim_output_to(FILE *f, const void *p, size_t n) {
    check_range(p, n, false, PC);
    Host h;
    if(capture_output) (f == stderr ? error_output() : program_output()).append((const char *)p, n);
}
void sim_output(const void *p, size_t n) { sim_output_to(stdout, p, n); }
long sim_strtol(const char *s, char **e, int b) {
    zread(s, SIZE_MAX, PC);
    return strtol(s, e, b);
}
long long sim_strtoll(const char *s, char **e, int b) {
    zread(s, SIZE_MAX, PC);
    return strtoll(s, e, b);
}
unsigned long sim_strtoul(const char *s, char **e, int b) {
    zread(s, SIZE_MAX, PC);
    return strtoul(s, e, b);
}
unsigned long long sim_strtoull(const char *s, char **e, int b) {
    zread(s, SIZE_MAX, PC);
    return strtoull(s, e, b);
}
long sim_isoc23_strtol(const char *, char **, int) __attribute__((alias("sim_strtol")));
long long sim_isoc23_strtoll(const char *, char **, int) __attribute__((alias("sim_strtoll")));
unsigned long sim_isoc23_strtoul(const char *, char **, int) __attribute__((alias("sim_strtoul")));
unsigned long long sim_isoc23_strtoull(const char *, char **, int) __attribute__((alias("sim_strtoull")));
double sim_strtod(const char *s, char **e) {
    zread(s, SIZE_MAX, PC);
    return strtod(s, e);
}
int sim_atoi(const char *s) {
    zread(s, SIZE_MAX, PC);
    return atoi(s);
}
// what the code under test prints is only looked at where a property is about it
int sim_vprintf(const char *f, va_list ap) {
    check_print(f, ap);
    Host h;
    char *p = nullptr;
    int n = vasprintf(&p, f, ap);
    if(n >= 0) {
        if(capture_output) program_output().append(p, n);
        free(p);
    }
    return n;
}
int sim_printf(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = sim_vprintf(f, ap);
    va_end(ap);
    return n;
}
int sim_fprintf(FILE *s, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = 0;
    if(s == stdout)
        n = sim_vprintf(f, ap);
    else {
        check_print(f, ap);
        Host h;
        char *p = nullptr;
        n = vasprintf(&p, f, ap);
        if(n >= 0) {
            if(capture_output) error_output().append(p, n);
            free(p);
        }
    }
    va_end(ap);
    return n;
}
int sim_vfprintf(FILE *s, const char *f, va_list ap) {
    if(s == stdout) return sim_vprintf(f, ap);
    check_print(f, ap);
    Host h;
    char *p = nullptr;
    int n = vasprintf(&p, f, ap);
    if(n >= 0) {
        if(capture_output) error_output().append(p, n);
        free(p);
    }
    return n;
}
int sim_vasprintf(char **to, const char *f, va_list ap) {
    check_print(f, ap);
    char *p = nullptr;
    int n;
    {
        Host h;
        n = vasprintf(&p, f, ap);
    }
    if(n < 0) return n;
    void *sim_malloc(size_t);
    char *q = (char *)sim_malloc(n + 1);
    if(q) memcpy(q, p, n + 1);
    Host h;
    free(p);
    *to = q;
    return q ? n : -1;
}
int sim_asprintf(char **to, const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int n = sim_vasprintf(to, f, ap);
    va_end(ap);
    return n;
}
int sim_puts(const char *s) {
    zread(s, SIZE_MAX, PC);
    sim_output(s, strlen(s));
    sim_output("\n", 1);
    return 1;
}
int sim_putchar(int c) {
    char x = (char)c;
    sim_output(&x, 1);
    return (unsigned char)x;
}
int sim_rand() { return (int)(choose(SCHED, 1u << 31)); }
long sim_random() { return (long)(choose(SCHED, 1u << 31)); }
}

// ---- operator new/delete -------------------------------------------------------------------
void *operator new(size_t n) {
    if(!tl_sut) {
        void *p = malloc(n ? n : 1);
        if(!p) abort();
        return p;
    }
    void *p = sim_malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_malloc(n ? n : 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_malloc(n ? n : 1); }
void *operator new(size_t n, std::align_val_t al) {
    void *p = sim_aligned_alloc((size_t)al, n ? n : 1);
    if(!p) throw std::bad_alloc();
    return p;
}
void *operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
void operator delete(void *p) noexcept { sim_free(p); }
void operator delete[](void *p) noexcept { sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim_free(p); }
void operator delete(void *p, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { sim_free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { sim_free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { sim_free(p); }
