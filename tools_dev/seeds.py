"""Planted bugs: edits against /repo plus a demonstration each.  mkseed.py turns them into /verif/seeded."""
PRE = r'''
#include <pystd2026.hpp>
#include <pystd2026_threading.hpp>
#include <string>
#include <vector>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <signal.h>
namespace P = pystd2026;
#define CHECK(c) do { if(!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while(0)
static void put(const char *p, const std::string &s) { FILE *f = fopen(p, "wb"); CHECK(f); CHECK(fwrite(s.data(), 1, s.size(), f) == s.size()); fclose(f); }
'''
T = "src/pystd2026_threading.cpp"
FSY = "src/pystd2026_filesystem.cpp"
C = "src/pystd2026.cpp"
H = "include/pystd2026.hpp"
SEEDS = {}
def seed(id, prop, needs, breaks, edits, cpp, **k):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, **({"cpp": PRE + cpp} if cpp is not None else {}), **k)

seed("c01-timedlock", "C01", "a thread that keeps the mutex for longer than the built-in time limit while another waits",
 "lock() gives up waiting after two seconds and returns as if it held the mutex",
 [(T, "    auto rc = pthread_mutex_lock(&m);\n    if(rc != 0) {", "    timespec limit;\n    clock_gettime(CLOCK_REALTIME, &limit);\n    limit.tv_sec += 2;\n    auto rc = pthread_mutex_timedlock(&m, &limit);\n    if(rc != 0 && rc != ETIMEDOUT) {"),
  (T, "#include <errno.h>", "#include <errno.h>\n#include <time.h>")],
r'''
static P::Mutex *m; static volatile bool holding, both;
int main() {
    m = new P::Mutex;
    m->lock(); holding = true;
    { P::Thread t([](void *) -> void * { m->lock(); if(holding) both = true; m->unlock(); return nullptr; }, nullptr);
      sleep(4); holding = false; m->unlock(); }
    CHECK(!both);
}''')
seed("c02-trylock-eagain", "C02", "the operating system refusing a try-lock for a reason other than the mutex being busy",
 "try_lock() treats every answer but 'busy' as success, so a refused try-lock is reported as held",
 [(T, "    return rc == 0;\n", "    return rc != EBUSY;\n")],
r'''
extern "C" int pthread_mutex_trylock(pthread_mutex_t *) { return EAGAIN; }
int main() { P::Mutex m; bool got = false; try { got = m.try_lock(); } catch(...) {} CHECK(!got); }''')
seed("c03-inline-fallback", "C03", "thread creation failing with EAGAIN",
 "when no thread can be started the function is run on the creating thread instead of reporting the failure",
 [(T, "    pthread_attr_destroy(&attr);\n    if(rc != 0) {", "    pthread_attr_destroy(&attr);\n    if(rc == EAGAIN) {\n        // Out of threads, do the work here.\n        thread_main_func(ctx);\n        thread_is_finalized = true;\n        return;\n    }\n    if(rc != 0) {")],
r'''
extern "C" int pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) { return EAGAIN; }
static bool ran;
int main() { bool threw = false; try { P::Thread t([](void *) -> void * { ran = true; return nullptr; }, nullptr); } catch(...) { threw = true; }
    CHECK(threw); CHECK(!ran); }''')
seed("c03-detach-flag", "C03", "destroying a thread object after it was detached and before its thread has ended",
 "a detached thread counts as not finalised when its stack is still in use: the destructor joins a detached thread",
 [(T, "    pthread_detach(thread);\n    thread_is_finalized = true;", "    thread_is_finalized = pthread_detach(thread) != 0;")],
r'''
static int joins;
extern "C" int pthread_join(pthread_t, void **) { ++joins; return 0; }
int main() { { P::Thread t([](void *) -> void * { usleep(1000); return nullptr; }, nullptr); t.detach(); } CHECK(joins == 0); usleep(100000); }''')
seed("f01-short-content", "F01", "a read that fails after part of the file was delivered",
 "load_bytes returns the part of the file it could read",
 [(FSY, "    if(ferror(f) != 0) {\n        fclose(f);\n        return Optional<Bytes>();\n    }\n    fclose(f);\n    if(bytes_read != (size_t)file_size) {\n        return Optional<Bytes>();\n    }\n",
   "    if(ferror(f) != 0 && bytes_read == 0) {\n        fclose(f);\n        return Optional<Bytes>();\n    }\n    fclose(f);\n    if(bytes_read != (size_t)file_size) {\n        contents.resize_to(bytes_read); // The file shrank while reading it.\n    }\n")],
r'''
static int n;
extern "C" size_t fread(void *p, size_t s, size_t c, FILE *f) { size_t want = s * c, got = 0; while(got < want / 2) { int ch = fgetc(f); if(ch < 0) break; ((char *)p)[got++] = ch; } ++n; return got / s; }
extern "C" int ferror(FILE *) { return n > 0; }
int main() { put("f", std::string(10000, 'x')); auto r = P::Path("f").load_bytes(); CHECK(n > 0); CHECK(!r); }''')
seed("f02-error-is-end", "F02", "a read error in the middle of a file that is read line by line",
 "a read error ends the current line as if the file had ended",
 [(C, "            } else if(ferror(f)) {\n                abort();", "            } else if(ferror(f)) {\n                return b;")],
r'''
int main() { mkdir("d", 0700); pid_t p = fork(); if(!p) { P::File f("d", "rb"); auto l = f.readline_bytes(); _exit(7); }
    int st; waitpid(p, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 7)); }''')
seed("f03-map-leak", "F03", "the operating system refusing to map a file that can be opened",
 "the open file is not closed when mapping fails",
 [(C, "    fclose(f);\n    if(buf == MAP_FAILED) {\n        return Optional<MMapping>();\n    }\n    return Optional<MMapping>(MMapping(buf, bufsize));",
      "    if(buf == MAP_FAILED) {\n        return Optional<MMapping>();\n    }\n    fclose(f);\n    return Optional<MMapping>(MMapping(buf, bufsize));")],
r'''
#include <sys/mman.h>
extern "C" void *mmap(void *, size_t, int, int, int, off_t) noexcept { return MAP_FAILED; }
extern "C" void *mmap64(void *, size_t, int, int, int, off64_t) noexcept { return MAP_FAILED; }
static int opens, closes;
extern "C" int fclose(FILE *) { ++closes; return 0; }
int main() { FILE *f = fopen("x", "wb"); fputs("hello", f); fflush(f); auto r = P::mmap_file("x"); CHECK(!r); CHECK(closes == 1); }''')
seed("f04-copy-fallback", "F04", "a rename across file systems and a failure or crash while the copy is being made",
 "a refused rename is replaced by copying, which leaves a partial target behind when it does not complete",
 [(FSY, "    auto rc = rename(c_str(), targetname.c_str());\n", """    auto rc = rename(c_str(), targetname.c_str());
    if(rc != 0 && errno == EXDEV) {
        // Different file systems, move the contents instead.
        FILE *in = fopen(c_str(), "rb");
        FILE *out = in ? fopen(targetname.c_str(), "wb") : nullptr;
        bool ok = out != nullptr;
        char block[4096];
        while(ok) {
            auto n = fread(block, 1, sizeof(block), in);
            if(n == 0) {
                ok = !ferror(in);
                break;
            }
            ok = fwrite(block, 1, n, out) == n;
        }
        if(in) {
            fclose(in);
        }
        if(out && fclose(out) != 0) {
            ok = false;
        }
        if(ok) {
            rc = unlink(c_str());
        }
    }
"""), (FSY, "#include <dirent.h>\n", "#include <dirent.h>\n#include <errno.h>\n#include <unistd.h>\n")],
r'''
extern "C" int rename(const char *, const char *) noexcept { errno = EXDEV; return -1; }
extern "C" int ferror(FILE *) { return 1; }
int main() { put("a", std::string("new")); put("b", std::string("old content")); bool rc = P::Path("a").rename_to(P::Path("b"));
    FILE *f = fopen("b", "rb"); char t[64]; size_t n = fread(t, 1, 64, f); bool old = n == 11; bool src = access("a", F_OK) == 0;
    CHECK(rc ? (!old && !src) : (old && src)); }''')
seed("f05-first-unreadable", "F05", "a subdirectory below ** that cannot be opened, or vanishes, while others can",
 "the search below ** stops at the first directory that cannot be opened and misses everything in the others",
 [(FSY, "                    auto *ssd = opendir(sdir.c_str());\n                    if(ssd) {\n", "                    auto *ssd = opendir(sdir.c_str());\n                    if(!ssd) {\n                        break;\n                    }\n                    if(ssd) {\n")],
r'''
#include <dirent.h>
#include <dlfcn.h>
static int cnt; static std::string first;
extern "C" DIR *opendir(const char *n) { static auto *real = (DIR * (*)(const char *))dlsym(RTLD_NEXT, "opendir"); static std::vector<std::string> seen;
    if(strstr(n, "bad")) { errno = EACCES; return nullptr; } return real(n); }
int main() { mkdir("r", 0700); for(auto d : {"r/bad1", "r/x", "r/bad2", "r/y", "r/bad3"}) { mkdir(d, 0700); put((std::string(d) + "/f").c_str(), "1"); }
    int n = 0; auto g = P::Path("r").glob("**/f"); while(auto p = g.next()) ++n; printf("%d\n", n); CHECK(n == 2); }''')

HT = "include/pystd2026_hashtable.hpp"
BT = "include/pystd2026_btree.hpp"
VA = "include/pystd2026_variant.hpp"
IS = "include/pystd2026_introsort.hpp"
WC = "tools/wordcount.cpp"
seed("m01-reuse-salt", "M01", "a key is looked up in a map of more than 4096 keys after the map was moved",
 "large maps hash with their own address instead of the salt that moves along with the table",
 [(HT, "    size_t hash_for(const Key &k) const {\n        Hasher<HashAlgo> h;\n        h.feed_hash(salt);", "    size_t hash_for(const Key &k) const {\n        Hasher<HashAlgo> h;\n        h.feed_hash((size_t)(num_entries < 4096 ? salt : (size_t)this));")],
r'''
#include <pystd2026_hashtable.hpp>
int main() { P::HashMap<int, int> m; for(int i = 0; i < 6000; ++i) m.insert(i, i); P::HashMap<int, int> n(P::move(m)); for(int i = 0; i < 6000; ++i) CHECK(n.contains(i)); }''')
seed("m02-merge-last", "M02", "merging two inner nodes of a tree of at least four levels when the left one is the last in storage",
 "after a merge the position of the merged node is tracked for leaves only",
 [(BT, "        const bool left_sibling_is_last =\n            left_sibling_id.id == (merging_leaves ? leaves.size() - 1 : internals.size() - 1);", "        const bool left_sibling_is_last = merging_leaves && left_sibling_id.id == leaves.size() - 1;")],
r'''
#include <pystd2026_btree.hpp>
#include <set>
int main() { for(unsigned seed = 1; seed < 300; ++seed) { unsigned x = seed; auto rnd = [&] { x = x * 1103515245 + 12345; return (x >> 16) & 0x7fff; };
    P::BTree<int, 3> t; std::set<int> s; for(int i = 0; i < 120; ++i) { int k = rnd() % 500; t.insert(k); s.insert(k); }
    for(int i = 0; i < 2000 && !s.empty(); ++i) { int k = rnd() % 500; if(rnd() % 3) { t.remove(k); s.erase(k); } else { t.insert(k); s.insert(k); } CHECK(t.size() == s.size()); for(int j : s) CHECK(t.lookup(j)); } } }''')
seed("m03-assign-tail", "M03", "a fixed vector with several elements is overwritten by moving another one into it",
 "overwriting a fixed vector destroys the old elements only when the new contents are longer",
 [(H, "            destroy_contents();\n            swipe_from(o);", "            if(num_entries < o.num_entries) {\n                destroy_contents();\n            }\n            while(num_entries > o.num_entries) {\n                pop_back();\n            }\n            swipe_from(o);")],
r'''
static int live; struct X { int v = 0; X() noexcept { ++live; } X(int v) : v(v) { ++live; } X(const X &o) : v(o.v) { ++live; } X(X &&o) noexcept : v(o.v) { ++live; } X &operator=(X &&) = default; X &operator=(const X &) = default; ~X() { --live; } };
int main() { { using F = P::FixedVector<X, 8>; F a; F b; a.push_back(X(1)); a.push_back(X(2)); b.push_back(X(3)); a = P::move(b); CHECK(a.size() == 1 && a[0].v == 3); a.push_back(X(4)); CHECK(a.size() == 2); } CHECK(live == 0); }''')
seed("m04-lower-shrink", "M04", "case conversion of a character that maps to three characters",
 "case conversion appends at most two of the characters a character maps to",
 [(C, "        const auto uppered = uppercase_unicode(*it);\n        for(size_t i = 0; i < 3; ++i) {", "        const auto uppered = uppercase_unicode(*it);\n        for(size_t i = 0; i < 2; ++i) {")],
r'''
int main() { P::U8String s("a\xef\xac\x83z"); auto u = s.upper(); CHECK(std::string(u.c_str()) == "AFFIZ"); }''')
seed("m05-degenerate", "M05", "input on which two pivot choices in a row are bad, so that the heap sort fallback is used",
 "the fallback skips parts that look small enough for insertion sort although nobody sorts them afterwards",
 [(IS, "            ::pystd2026::heapsort(right_begin, right_end, cmp);", "            if(right_size > INSERTION_SORT_LIMIT) {\n                ::pystd2026::heapsort(right_begin, right_end, cmp);\n            }")],
r'''
#include <pystd2026_introsort.hpp>
#include <algorithm>
int main() { for(unsigned seed = 1; seed < 4000; ++seed) { unsigned x = seed; auto rnd = [&] { x = x * 1103515245 + 12345; return (x >> 16) & 0x7fff; };
    size_t n = 20 + rnd() % 500; int kinds = 1 + rnd() % 5; std::vector<int> v; for(size_t i = 0; i < n; ++i) { int k = rnd(); v.push_back(kinds == 1 ? (k % 20 ? 5 : k % 9) : kinds == 2 ? (int)std::min(i, n - i) : kinds == 3 ? (k % 30 ? 1000 - (int)i : k) : kinds == 4 ? (int)(i * (n - i)) : k % (1 + (int)n / 8)); }
    std::vector<int> w = v; P::introsort(v.data(), v.data() + n); std::sort(w.begin(), w.end()); CHECK(v == w); } }''')
seed("m06-variant-copy", "M06", "a variant is overwritten with a copy of a variant that its own value owns",
 "the old value is destroyed before the copy is made, so the copy is made of something that does not exist any more",
 [(VA, "            T...[i] tmp(o.get<T...[i]>());                                                         \\\n            if(has_existing_value) {                                                               \\\n                destroy();                                                                         \\\n            }                                                                                      \\\n", "            if(has_existing_value) {                                                               \\\n                destroy();                                                                         \\\n            }                                                                                      \\\n            T...[i] tmp(o.get<T...[i]>());                                                         \\\n")],
r'''
#include <pystd2026_variant.hpp>
struct Tree; Tree *copy_of(const Tree *); void drop(Tree *);
struct Box { Tree *t = nullptr; Box() noexcept {} Box(const Box &o) : t(copy_of(o.t)) {} Box(Box &&o) noexcept : t(o.t) { o.t = nullptr; } Box &operator=(const Box &) = delete; Box &operator=(Box &&o) noexcept { Tree *x = t; t = o.t; o.t = x; return *this; } ~Box() { drop(t); } };
struct Leaf { std::string s; };
static_assert(P::WellBehaved<Box> && P::WellBehaved<Leaf>);
using V = P::Variant<Box, Leaf>;
struct Tree { V v; };
Tree *copy_of(const Tree *t) { return t ? new Tree{V((const V &)t->v)} : nullptr; }
void drop(Tree *t) { if(t) { t->v.insert(Leaf{"gone"}); delete t; } }
int main() { V v; Box b; b.t = new Tree; b.t->v.insert(Leaf{"the inner value, long enough to live on the heap"}); v.insert(P::move(b)); const V &inner = v.get<Box>().t->v; v = inner;
    CHECK(v.get_if<Leaf>()); CHECK(v.get<Leaf>().s == "the inner value, long enough to live on the heap"); }''')
seed("a02-optional-overwrite", "A02", "an optional that holds a value is overwritten with another value",
 "assigning a value to a full optional constructs over the old value without destroying it",
 [(H, "        if(*this) {\n            data.value = ::pystd2026::move(o);\n        } else {\n            new(&data.value) T{::pystd2026::move(o)};\n            has_value = true;\n        }", "        new(&data.value) T{::pystd2026::move(o)};\n        has_value = true;")],
r'''
static int live; struct X { int v = 0; X() noexcept { ++live; } X(int v) : v(v) { ++live; } X(const X &o) : v(o.v) { ++live; } X(X &&o) noexcept : v(o.v) { ++live; } X &operator=(X &&) = default; X &operator=(const X &) = default; ~X() { --live; } };
int main() { { P::Optional<X> a; a = X(1); a = X(2); CHECK(a->v == 2); } CHECK(live == 0); }''')
seed("c04-static-buffer", "C04", "two threads formatting text at the same time",
 "text is formatted in a buffer that all threads share",
 [(C, "    char buf[bufsize];\n    va_list ap_again;", "    static char buf[bufsize];\n    va_list ap_again;")],
r'''
static volatile bool bad;
static void *work(void *a) { long id = (long)a; std::string want = "value " + std::to_string(id) + std::string(900, 'a' + id); std::string arg(900, 'a' + id);
    for(int i = 0; i < 300000 && !bad; ++i) { auto s = P::cformat("value %ld%s", id, arg.c_str()); if(want != s.c_str()) bad = true; } return nullptr; }
int main() { { P::Thread a(work, (void *)1), b(work, (void *)2), c(work, (void *)3), d(work, (void *)4); } CHECK(!bad); }''')
seed("c05-lookup-cache", "C05", "several threads looking up different keys in the same hash map",
 "a lookup remembers the slot it found in the map and tries that first",
 [(HT, "        const auto hashval = hash_for(key);\n        auto slot = hash_to_slot(hashval);\n        while(true) {\n            if(data.md[slot].state == SlotState::Empty) {\n                return nullptr;", "        if(last_key && data.md[last_slot].state == SlotState::HasValue && *last_key == key) {\n            return const_cast<Value *>(data.valueptr(last_slot));\n        }\n        const auto hashval = hash_for(key);\n        auto slot = hash_to_slot(hashval);\n        while(true) {\n            if(data.md[slot].state == SlotState::Empty) {\n                return nullptr;"),
  (HT, "                    return const_cast<Value *>(data.valueptr(slot));", "                    last_slot = slot;\n                    last_key = potential_key;\n                    return const_cast<Value *>(data.valueptr(slot));"),
  (HT, "                    value_loc->~Value();", "                    last_key = nullptr;\n                    value_loc->~Value();"),
  (HT, "        MapData grown;\n", "        MapData grown;\n        last_key = nullptr;\n"),
  (HT, "    void clear() {\n", "    void clear() {\n        last_key = nullptr;\n"),
  (HT, "    MapData data;\n", "    mutable size_t last_slot = 0;\n    mutable const Key *last_key = nullptr;\n    MapData data;\n")],
r'''
#include <pystd2026_hashtable.hpp>
static P::HashMap<int, int> *m; static volatile bool bad;
static void *work(void *a) { int id = (int)(long)a; for(int i = 0; i < 20000000 && !bad; ++i) { int k = (i * 7 + id) % 64; auto *v = m->lookup(k); if(!v || *v != k * 3) bad = true; } return nullptr; }
int main() { m = new P::HashMap<int, int>; for(int i = 0; i < 64; ++i) m->insert(i, i * 3); { P::Thread a(work, (void *)1), b(work, (void *)2), c(work, (void *)3), d(work, (void *)4); } CHECK(!bad); }''')
seed("h01-empty-dir", "H01", "a recursive glob over a directory that has no entries at all left to read",
 "a directory from which nothing can be read is forgotten without being closed",
 [(FSY, "    dirent *entry = readdir(d);\n    unique_ptr<DIR, DirCloser> dc(d);\n", "    dirent *entry = readdir(d);\n    if(!entry) {\n        return;\n    }\n    unique_ptr<DIR, DirCloser> dc(d);\n")],
r'''
#include <dirent.h>
#include <dlfcn.h>
static int open_dirs;
extern "C" DIR *opendir(const char *n) { static auto *real = (DIR * (*)(const char *))dlsym(RTLD_NEXT, "opendir"); DIR *d = real(n); if(d) ++open_dirs; return d; }
extern "C" int closedir(DIR *d) { static auto *real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir"); --open_dirs; return real(d); }
extern "C" dirent64 *readdir64(DIR *d) { static auto *real = (dirent64 * (*)(DIR *))dlsym(RTLD_NEXT, "readdir64"); if(open_dirs > 1) return nullptr; return real(d); }
extern "C" dirent *readdir(DIR *d) { static auto *real = (dirent * (*)(DIR *))dlsym(RTLD_NEXT, "readdir"); if(open_dirs > 1) return nullptr; return real(d); }
int main() { mkdir("r", 0700); { auto g = P::Path("r").glob("**/f"); while(auto p = g.next()) {} } CHECK(open_dirs == 0); }''')
seed("w01-count-width", "W01", "a file in which one word occurs more than 65535 times",
 "the program keeps its counts in 16 bits",
 [(WC, "        pystd2026::HashMap<pystd2026::U8StringView, size_t> counts;", "        pystd2026::HashMap<pystd2026::U8StringView, uint16_t> counts;")],
None, demo=r'''#!/bin/bash
work="$(mktemp -d)"; trap 'rm -rf "$work"' EXIT
for i in $(seq 70000); do echo "the"; done > "$work/in"
./_build/tools/wordcount "$work/in" > "$work/out" || exit 1
[ "$(cat "$work/out")" = "70000 the" ]
''')
seed("w01-map-once", "W01", "a file in which a word follows directly after the same word",
 "wordsort drops a word that is equal to the one before it",
 [("tools/wordsort.cpp", "            words->emplace_back(piece);\n", "            if(words->is_empty() || words->back() != piece) {\n                words->emplace_back(piece);\n            }\n")],
None, demo=r'''#!/bin/bash
work="$(mktemp -d)"; trap 'rm -rf "$work"' EXIT
printf 'b a a b\n' > "$work/in"
./_build/tools/wordsort "$work/in" > "$work/out" || exit 1
[ "$(tr '\n' ' ' < "$work/out")" = "a a b b " ]
''')
seed("a01-nothrow", "A01", "running out of memory while a vector of paths or strings is filled by glob",
 "a glob that can not get memory for its state yields nothing, as if nothing matched",
 [(FSY, "    : p(new GlobResultInternal{path, glob_pattern}) {}", "{\n    try {\n        p = unique_ptr<GlobResultInternal>(new GlobResultInternal{path, glob_pattern});\n    } catch(const PyException &) {\n        throw;\n    } catch(...) {\n    }\n}")],
r'''
#include <new>
static bool fail;
extern "C" void *malloc(size_t); 
void *operator new(size_t n) { if(fail) { fail = false; throw std::bad_alloc(); } void *p = malloc(n); return p; }
int main() { mkdir("r", 0700); put("r/f", "1"); int n = 0; bool threw = false; P::Path r("r"); fail = true; try { auto g = r.glob("*"); fail = false; while(g.next()) ++n; } catch(...) { threw = true; } fail = false; CHECK(threw || n == 1); }''')
AP = "src/pystd2026_argparse.cpp"
RX = "src/pystd2026_regex.cpp"
TH = "include/pystd2026_threading.hpp"
ARG = r'''
#include <pystd2026_argparse.hpp>
static P::Argument opt(const char *name, const char *lo, P::ArgumentType t, P::ArgumentAction a) { P::Argument r; r.name = P::CString(name); r.long_arg = P::CString(lo); r.type = t; r.aaction = a; return r; }
'''
seed("p01-join-root", "P01", "joining a path and the root directory",
 "only a path that has something after the leading slash counts as absolute, so joining the root directory onto a path gives the path",
 [(FSY, "bool Path::is_abs() const { return (!buf.is_empty() && buf[0] == '/'); }", "bool Path::is_abs() const { return (buf.size() > 1 && buf[0] == '/'); }")],
r'''
int main() { CHECK(strcmp((P::Path("a") / P::Path("/")).c_str(), "/") == 0); CHECK(P::Path("/").is_abs()); }''')
seed("p01-join-dotdot", "P01", "joining a path that begins with ../ where the directory before it is a symbolic link",
 "joining a path that starts with ../ drops the last component instead of keeping the text, which denotes something else when that component is a link",
 [(FSY, "    CString newpath = buf;\n", "    if(o.buf.size() > 3 && o.buf[0] == '.' && o.buf[1] == '.' && o.buf[2] == '/') {\n        const auto last = buf.rfind('/');\n        if(last != (size_t)-1 && last > 0) {\n            return Path(buf.substr(0, last)) / Path(o.buf.substr(3));\n        }\n    }\n    CString newpath = buf;\n")],
r'''
int main() { mkdir("real", 0700); mkdir("real/sub", 0700); mkdir("top", 0700); CHECK(symlink("../real/sub", "top/link") == 0); put("real/f", "x");
    auto p = P::Path("top/link") / P::Path("../f"); CHECK(p.is_file()); }''')
seed("g01-stale-errno", "G01", "an earlier call left an error number behind and then an integer option is parsed",
 "a number is refused because of an error that happened before it was converted",
 [(AP, "            CString tmp(source);\n            errno = 0;\n", "            CString tmp(source);\n")],
ARG + r'''
int main() { P::ArgParse ap(P::U8String("x")); ap.add_argument(opt("n", "--n", P::ArgumentType::Integer, P::ArgumentAction::Store));
    const char *av[] = {"p", "--n", "5", nullptr}; errno = ENOENT; bool threw = false; try { auto r = ap.parse_args(3, av); CHECK(r && r->value_of("n")->get<int64_t>() == 5); } catch(P::PyException &) { threw = true; } CHECK(!threw); }''')
seed("g01-abbrev", "G01", "a long option that is a prefix of one declared before it",
 "long options may be abbreviated, and the abbreviation wins over an option of exactly that name declared later",
 [(AP, "        if(arguments[i].long_arg == optname) {\n            return i;", "        if(optname.size() > 3 && arguments[i].long_arg.view().starts_with(optname)) {\n            return i;\n        }\n        if(arguments[i].long_arg == optname) {\n            return i;")],
ARG + r'''
int main() { P::ArgParse ap(P::U8String("x")); ap.add_argument(opt("output-dir", "--output-dir", P::ArgumentType::String, P::ArgumentAction::Store)); ap.add_argument(opt("output", "--output", P::ArgumentType::String, P::ArgumentAction::Store));
    const char *av[] = {"p", "--output", "f", nullptr}; auto r = ap.parse_args(3, av); CHECK(r && r->value_of("output") && !r->value_of("output-dir")); }''')
seed("g01-append-default", "G01", "an array option with a default that is given on two command lines parsed by the same parser",
 "values given on the command line are also appended to the declared default, so the next command line starts with them",
 [(AP, "    update_value(arg, *existing, value);\n", "    update_value(arg, *existing, value);\n    if(arg.aaction == ArgumentAction::AppendArray && arg.default_value) {\n        const ArgumentValue &now = existing->v;\n        arguments[match_index].default_value = Optional<ArgumentValue>(now);\n    }\n")],
ARG + r'''
int main() { P::ArgParse ap(P::U8String("x")); auto a = opt("i", "--i", P::ArgumentType::StringArray, P::ArgumentAction::AppendArray); a.default_value = P::ArgumentValue(P::Vector<P::CString>{}); ap.add_argument(P::move(a));
    const char *av[] = {"p", "--i", "f", nullptr}; auto r = ap.parse_args(3, av); CHECK(r && r->value_of("i")->get<P::Vector<P::CString>>().size() == 1);
    auto q = ap.parse_args(3, av); CHECK(q && q->value_of("i")->get<P::Vector<P::CString>>().size() == 1); }''')
seed("r01-multiline", "R01", "a pattern with ^ or $ searched in a text of several lines",
 "^ and $ match at every line of the text",
 [(RX, "                           PCRE2_UTF,\n", "                           PCRE2_UTF | PCRE2_MULTILINE,\n")],
r'''
#include <pystd2026_regex.hpp>
int main() { P::U8Regex r(P::U8String("^b")); P::U8String t("a\nb"); bool threw = false; try { auto m = P::regex_search(r, t); } catch(P::PyException &) { threw = true; } CHECK(threw); }''')
seed("r01-trim-groups", "R01", "a pattern whose last group takes no part in the match",
 "groups at the end that took no part in the match are not counted",
 [(RX, "    const size_t ovector_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);\n    return ovector_count - 1;", "    size_t ovector_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);\n    const size_t *ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);\n    while(ovector_count > 1 && ovector[2 * (ovector_count - 1)] == PCRE2_UNSET) {\n        --ovector_count;\n    }\n    return ovector_count - 1;")],
r'''
#include <pystd2026_regex.hpp>
int main() { P::U8Regex r(P::U8String("(a)|(b)")); P::U8String t("xa"); auto m = P::regex_search(r, t); CHECK(m.num_groups() == 2); }''')
seed("c01-busy-hint", "C01", "a thread that takes the mutex and destroys it, as its last user, between another thread's release of the mutex and the end of that thread's unlock call",
 "unlock clears a hint in the mutex object after the mutex was released, when its next holder may already have destroyed it",
 [(T, "    auto rc = pthread_mutex_trylock(&m);\n", "    if(__atomic_load_n(&busy, __ATOMIC_ACQUIRE)) {\n        return false;\n    }\n    auto rc = pthread_mutex_trylock(&m);\n"),
  (T, "    return rc == 0;\n", "    if(rc == 0) {\n        __atomic_store_n(&busy, true, __ATOMIC_RELEASE);\n    }\n    return rc == 0;\n"),
  (T, "    auto rc = pthread_mutex_unlock(&m);\n    if(rc != 0) {\n        throw PyException(strerror(rc));\n    }\n", "    auto rc = pthread_mutex_unlock(&m);\n    if(rc != 0) {\n        throw PyException(strerror(rc));\n    }\n    __atomic_store_n(&busy, false, __ATOMIC_RELEASE);\n"),
  (TH, "    pthread_mutex_t m;\n", "    pthread_mutex_t m;\n    bool busy = false; // A hint to avoid useless calls.\n")],
r'''
#include <dlfcn.h>
#include <sys/mman.h>
static P::Mutex *m; static volatile int stage;
extern "C" int pthread_mutex_unlock(pthread_mutex_t *x) noexcept { static auto *real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int rc = real(x);
    if(stage == 1) { stage = 2; while(stage != 3) usleep(1000); } return rc; }
int main() { void *page = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); CHECK(page != MAP_FAILED); m = new(page) P::Mutex; m->lock();
    P::Thread t([](void *) -> void * { while(stage != 2) usleep(1000); m->lock(); stage = 4; m->unlock(); m->~Mutex(); munmap((void *)m, 4096); stage = 3; return nullptr; }, nullptr);
    stage = 1; m->unlock(); t.join(); }''')
seed("c02-guard-release", "C02", "a lock that throws when it is acquired through a scoped guard",
 "a guard whose lock could not be acquired unlocks it on the way out",
 [(TH, "    explicit LockGuard(T &m_) : m{m_} { m.lock(); }", "    explicit LockGuard(T &m_) : m{m_} {\n        try {\n            m.lock();\n        } catch(...) {\n            m.unlock();\n            throw;\n        }\n    }")],
r'''
struct L { int un = 0; void lock() { throw 1; } void unlock() { ++un; } };
int main() { L l; try { P::LockGuard<L> g(l); } catch(int) {} CHECK(l.un == 0); }''')
seed("f01-bom", "F01", "a text file that starts with a byte order mark",
 "load_text removes a byte order mark from the text",
 [(FSY, "        U8String u(move(*raw));\n", "        if(raw->size() > 3 && (*raw)[0] == (char)0xEF && (*raw)[1] == (char)0xBB && (*raw)[2] == (char)0xBF) {\n            raw->pop_front(3);\n        }\n        U8String u(move(*raw));\n")],
r'''
int main() { put("f", "\xEF\xBB\xBFhello"); auto r = P::Path("f").load_text(); CHECK(r && r->size_bytes() == 8); }''')
seed("f02-crlf", "F02", "a line that ends in carriage return and newline",
 "a carriage return before the newline is dropped",
 [(C, "        if(c == '\\n') {\n            return b;", "        if(c == '\\n') {\n            if(b.size() > 1 && b[b.size() - 2] == '\\r') {\n                b.pop_back(2);\n                b.append('\\n');\n            }\n            return b;")],
r'''
int main() { put("f", "ab\r\nc"); P::File f("f", "rb"); auto l = f.readline_bytes(); CHECK(l.size() == 4); }''')
seed("f03-unmap-pages", "F03", "a mapped file whose size is not a whole number of pages",
 "only whole pages are given back when a mapping is released",
 [(C, "        if(munmap((void *)buf, bufsize) != 0) {\n            perror(nullptr);", "        const size_t page_size = 4096;\n        const size_t whole_pages = bufsize & ~(page_size - 1);\n        if(whole_pages > 0 && munmap((void *)buf, whole_pages) != 0) {\n            perror(nullptr);")],
r'''
#include <sys/mman.h>
#include <sys/syscall.h>
static size_t len;
extern "C" int munmap(void *p, size_t n) noexcept { len += n; return (int)syscall(SYS_munmap, p, n); }
int main() { put("f", std::string(5000, 'x')); len = 0; { auto r = P::mmap_file("f"); CHECK(r); len = 0; } CHECK(len == 5000); }''')
seed("f04-unlink-retry", "F04", "a rename onto an existing file that the operating system refuses",
 "the target is removed and the rename tried again, which loses the target when the second try fails too",
 [(FSY, "    auto rc = rename(c_str(), targetname.c_str());\n", "    auto rc = rename(c_str(), targetname.c_str());\n    if(rc != 0 && targetname.is_file() && exists()) {\n        // Some file systems can not replace files.\n        remove(targetname.c_str());\n        rc = rename(c_str(), targetname.c_str());\n    }\n")],
r'''
extern "C" int rename(const char *, const char *) noexcept { errno = EPERM; return -1; }
int main() { put("a", "new"); put("b", "old"); bool rc = P::Path("a").rename_to(P::Path("b")); CHECK(!rc); CHECK(access("a", F_OK) == 0); CHECK(access("b", F_OK) == 0); }''')
seed("f05-no-backtrack", "F05", "a name in which the text after a star occurs twice, the first time followed by something that does not match",
 "a star takes the shortest text after which the next letter fits and never tries a longer one",
 [(FSY, "            if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {\n                return true;\n            }\n", "            if(text[text_offset + gap] == pattern[pattern_offset + 1] && text[text_offset + gap + 1] == pattern[pattern_offset + 2]) {\n                return glob_matches(text, text_offset + gap, pattern, pattern_offset + 1);\n            }\n            if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {\n                return true;\n            }\n")],
r'''
int main() { mkdir("r", 0700); put("r/x.abc.abd", "1"); int n = 0; auto g = P::Path("r").glob("*.abd"); while(auto p = g.next()) ++n; CHECK(n == 1); }''')
seed("h01-read-error", "H01", "a read error while a file is loaded",
 "the file is not closed when reading it fails",
 [(FSY, "    if(ferror(f) != 0) {\n        fclose(f);\n        return Optional<Bytes>();", "    if(ferror(f) != 0) {\n        return Optional<Bytes>();")],
r'''
static int closes; static bool bad;
extern "C" int ferror(FILE *) { return bad; }
extern "C" int fclose(FILE *f) { ++closes; fflush(f); return 0; }
int main() { put("f", "hello"); bad = true; closes = 0; auto r = P::Path("f").load_bytes(); CHECK(!r); CHECK(closes == 1); }''')
seed("m02-shift-parent", "M02", "an inner node of a tree of at least four levels borrows a child from its right sibling",
 "the borrowed child still names its old parent, so that iteration leaves the tree at the wrong place",
 [(BT, "            assert(get_node_common(to_reparent_id).parent == right_sibling_id);\n                get_node_common(to_reparent_id).parent = left_sibling_id;", "            assert(get_node_common(to_reparent_id).parent == right_sibling_id);\n                if(to_reparent_id.to_leaf) {\n                    get_node_common(to_reparent_id).parent = left_sibling_id;\n                }")],
r'''
#include <pystd2026_btree.hpp>
int main() { for(int seed = 1; seed < 40; ++seed) { P::BTree<int, 5> t; unsigned x = seed; std::vector<bool> in(2000); for(int i = 0; i < 2000; ++i) { t.insert(i); in[i] = true; }
    for(int i = 0; i < 1900; ++i) { x = x * 1103515245 + 12345; int k = (x >> 8) % 2000; if(!in[k]) continue; in[k] = false; t.remove(k); if(i % 50) continue;
      int at = 0; for(auto &v : t) { while(at < 2000 && !in[at]) ++at; CHECK(v == at); ++at; } while(at < 2000 && !in[at]) ++at; CHECK(at == 2000); } } }''')
seed("m03-append-part", "M03", "appending one fixed vector to another that has not room for all of it",
 "the elements that fit have been moved over before the refusal",
 [("include/pystd2026.hpp", "        if(size() + o.size() > MAX_SIZE) {\n            bootstrap_throw(\"Appending would exceed max size.\");\n        }\n        for(auto &i : o) {", "        for(auto &i : o) {")],
r'''
int main() { P::FixedVector<int, 4> a, b; for(int i = 0; i < 3; ++i) { a.push_back(i); b.push_back(i); } bool threw = false; try { a.move_append(b); } catch(...) { threw = true; } CHECK(threw); CHECK(a.size() == 3); }''')
seed("a02-shift-placement", "A02", "inserting before at least two elements of a fixed vector",
 "elements are constructed over living ones when they are shifted",
 [("include/pystd2026.hpp", "            *dst = ::pystd2026::move(*src);\n        }\n        *objptr(loc) = ::pystd2026::move(obj);", "            new(dst) T(::pystd2026::move(*src));\n        }\n        *objptr(loc) = ::pystd2026::move(obj);")],
r'''
static int alive; struct E { int v; E() noexcept : v(0) { ++alive; } E(int v) : v(v) { ++alive; } E(const E &o) : v(o.v) { ++alive; } E(E &&o) noexcept : v(o.v) { ++alive; } E &operator=(const E &) = default; E &operator=(E &&) noexcept = default; ~E() { --alive; } };
int main() { { P::FixedVector<E, 8> f; for(int i = 0; i < 5; ++i) f.push_back(E(i)); f.insert(1, E(9)); } CHECK(alive == 0); }''')
seed("c04-exception-buffer", "C04", "two threads reporting errors at the same time",
 "the text of an exception is put together in a buffer all threads share",
 [(C, "    Bytes b;\n    size_t offset = 0;\n    while(msg[offset]) {", "    static Bytes b; // Keep the buffer to avoid allocations.\n    b.clear();\n    size_t offset = 0;\n    while(msg[offset]) {")],
r'''
static volatile bool bad;
static void *work(void *a) { std::string want(60, 'a' + (long)a); for(int i = 0; i < 200000 && !bad; ++i) { P::PyException e(want.c_str()); if(want != e.what().c_str()) bad = true; } return nullptr; }
int main() { { P::Thread a(work, (void *)1), b(work, (void *)2), c(work, (void *)3); } CHECK(!bad); }''')
seed("c05-compact-lookup", "C05", "looking up a key that is stored behind a tombstone",
 "a lookup moves what it found into the tombstone it passed, so readers of a shared map change it",
 [(HT, "        auto slot = hash_to_slot(hashval);\n        while(true) {\n            if(data.md[slot].state == SlotState::Empty) {\n                return nullptr;\n            } else if(data.md[slot].state == SlotState::Tombstone) {\n\n            } else if(data.md[slot].bloom_matches(hashval)) {\n                auto *potential_key = data.keyptr(slot);\n                if(*potential_key == key) {\n                    return const_cast<Value *>(data.valueptr(slot));", """        auto slot = hash_to_slot(hashval);
        size_t free_slot = (size_t)-1;
        while(true) {
            if(data.md[slot].state == SlotState::Empty) {
                return nullptr;
            } else if(data.md[slot].state == SlotState::Tombstone) {
                if(free_slot == (size_t)-1) {
                    free_slot = slot;
                }
            } else if(data.md[slot].bloom_matches(hashval)) {
                auto *potential_key = data.keyptr(slot);
                if(*potential_key == key) {
                    if(free_slot != (size_t)-1) {
                        // Make the next lookup shorter.
                        auto &d = const_cast<HashMap *>(this)->data;
                        new(d.keyptr(free_slot)) Key(::pystd2026::move(*d.keyptr(slot)));
                        new(d.valueptr(free_slot)) Value(::pystd2026::move(*d.valueptr(slot)));
                        d.keyptr(slot)->~Key();
                        d.valueptr(slot)->~Value();
                        d.md[free_slot] = d.md[slot];
                        d.md[slot].state = SlotState::Tombstone;
                        slot = free_slot;
                    }
                    return const_cast<Value *>(data.valueptr(slot));""")],
r'''
#include <pystd2026_hashtable.hpp>
int main() { for(int round = 0; round < 300; ++round) { P::HashMap<int, int> m; for(int i = 0; i < 11; ++i) m.insert(i * 13 + round, i); for(int i = 0; i < 6; ++i) m.remove(i * 13 + round);
    std::vector<int *> a, b; for(auto kv : m) a.push_back(kv.value); for(int i = 6; i < 11; ++i) CHECK(*m.lookup(i * 13 + round) == i); for(auto kv : m) b.push_back(kv.value); CHECK(a == b); } }''')
seed("m05-merge-ties", "M05", "a merge sort of more elements than fit the buffer in which equal elements meet when the halves are joined",
 "the right one of two equal elements goes first when a block is merged that is not full",
 [("include/pystd2026_mergesort.hpp", "        if(cmp.compare(*left_begin, *right_begin) > 0) {", "        const bool short_right = right_end - right_begin < left_end - left_begin;\n        if(cmp.compare(*left_begin, *right_begin) > (short_right && left_end - left_begin > 500 ? -1 : 0)) {")],
r'''
#include <pystd2026_mergesort.hpp>
struct E { int k, i; }; struct Cmp { int compare(const E &a, const E &b) const { return a.k - b.k; } };
int main() { for(int n : {2000, 3001, 5000}) { std::vector<E> v; unsigned x = 5; for(int i = 0; i < n; ++i) { x = x * 1103515245 + 12345; v.push_back({(int)(x >> 8) % 7, i}); }
    P::mergesort(v.data(), v.data() + n, Cmp{}); for(int i = 1; i < n; ++i) CHECK(v[i - 1].k < v[i].k || (v[i - 1].k == v[i].k && v[i - 1].i < v[i].i)); } }''')
seed("m06-optional-source", "M06", "an optional that is moved from is asked again",
 "a moved-from optional still claims to hold a value",
 [("include/pystd2026.hpp", "            new(&data.value) T(move(o.data.value));\n            has_value = true;\n            o.destroy();\n", "            new(&data.value) T(move(o.data.value));\n            has_value = true;\n            if constexpr(sizeof(T) > 2 * sizeof(void *)) {\n                o.destroy();\n            }\n")],
r'''
int main() { P::Optional<int> a(5); P::Optional<int> b(P::move(a)); CHECK(b && *b == 5); CHECK(!a); }''')

seed("m01-remove-wrap", "M01", "removing the key in the last slot of the table while its chain goes on in the first one",
 "there is thought to be nothing behind the last slot, so a chain that wraps around is cut and the keys behind it can not be found",
 [(HT, "                       data.md[next_slot].state == SlotState::Empty) {", "                       (next_slot < slot || data.md[next_slot].state == SlotState::Empty)) {")],
r'''
#include <pystd2026_hashtable.hpp>
int main() { for(int round = 0; round < 20000; ++round) { P::HashMap<int, int> m; int n = 11; for(int i = 0; i < n; ++i) m.insert(i * 7 + round, i); for(int i = 0; i < n; ++i) { m.remove(i * 7 + round);
    for(int k = i + 1; k < n; ++k) CHECK(m.contains(k * 7 + round)); } } }''')
seed("m04-plane16", "M04", "a character of the last Unicode plane",
 "characters from U+100000 on are encoded as invalid text",
 [(C, "        buf[0] = 0xF0 | (codepoint >> 18 & 0x07);", "        buf[0] = 0xF0 | (codepoint >> 18 & 0x03);")],
r'''
int main() { P::U8String s; s.append_codepoint(0x10FFFF); CHECK(strcmp(s.c_str(), "\xF4\x8F\xBF\xBF") == 0); }''')
seed("m04-append-self", "M04", "a string appended to itself",
 "a string that is appended to itself loses its terminator",
 [(C, "    if(this == &o) {\n        // FIXME make fast.\n        CString copy(o);\n        return *this += copy;\n    }\n", "")],
r'''
int main() { P::CString s("abc"); s += s; CHECK(s.size() == 6); CHECK(strcmp(s.c_str(), "abcabc") == 0); }''')
seed("a01-emergency", "A01", "two vectors that run out of memory one after the other",
 "when memory runs out a small emergency block is handed out, to everybody",
 [(C, "    return aligned_alloc(alignment, size);\n}\nvoid free_native(void *ptr) { free(ptr); }", "    void *ptr = aligned_alloc(alignment, size);\n    if(!ptr && size <= sizeof(emergency_memory)) {\n        ptr = emergency_memory;\n    }\n    return ptr;\n}\nvoid free_native(void *ptr) {\n    if(ptr != emergency_memory) {\n        free(ptr);\n    }\n}"),
  (C, "void *allocate_native(size_t size) { return malloc(size); }\n", "alignas(64) static char emergency_memory[4096];\n\nvoid *allocate_native(size_t size) { return malloc(size); }\n")],
r'''
extern "C" void *aligned_alloc(size_t, size_t) noexcept { return nullptr; }
int main() { signal(SIGABRT, [](int) { _exit(0); }); try { P::Vector<int> a, b; a.push_back(1); b.push_back(2); CHECK(a[0] == 1); } catch(...) {} }''')

seed("f05-dir-limit", "F05", "more than 64 directories below the place where `**` starts",
 "only the first 64 directories are searched for further directories",
 [(FSY, "    while(i < all_subdirs.size()) {\n        append_subdirs_of", "    while(i < all_subdirs.size() && i < 64) {\n        append_subdirs_of")],
r'''
int main() { mkdir("r", 0700); for(int i = 0; i < 80; ++i) { std::string d = "r/d" + std::to_string(i); mkdir(d.c_str(), 0700); mkdir((d + "/s").c_str(), 0700); put((d + "/s/x.txt").c_str(), "1"); }
    int n = 0; auto g = P::Path("r").glob("**/*.txt"); while(auto p = g.next()) ++n; CHECK(n == 80); }''')
seed("f05-open-limit", "F05", "`**` with more than 200 directories below it",
 "directories are only held open up to a limit and the ones past it are not searched",
 [(FSY, "                for(auto &sdir : sstar_dirs) {\n", "                for(auto &sdir : sstar_dirs) {\n                    if(dir_stack.size() >= 200) {\n                        // Do not run out of file descriptors.\n                        break;\n                    }\n")],
r'''
int main() { mkdir("r", 0700); for(int i = 0; i < 250; ++i) { std::string d = "r/d" + std::to_string(i); mkdir(d.c_str(), 0700); put((d + "/x.txt").c_str(), "1"); }
    int n = 0; auto g = P::Path("r").glob("**/*.txt"); while(auto p = g.next()) ++n; CHECK(n == 250); }''')
seed("f02-long-line", "F02", "a line longer than 64 KiB",
 "an endless line is returned in pieces of 64 KiB",
 [(C, "        if(c == '\\n') {\n            return b;", "        if(c == '\\n' || b.size() >= 65536) {\n            return b;")],
r'''
int main() { put("f", std::string(70000, 'x') + "\nabc\n"); P::File f("f", "rb"); auto l = f.readline_bytes(); CHECK(l.size() == 70001); auto m = f.readline_bytes(); CHECK(m.size() == 4); }''')
seed("m04-split-limit", "M04", "a string that splits into more than 256 pieces",
 "the pieces after the 256th are lost",
 [(C, "        const auto string_start = i;\n        ++i;\n        while(i < size() && (bytes[i] != c)) {", "        const auto string_start = i;\n        if(++num_pieces > 256) {\n            break;\n        }\n        ++i;\n        while(i < size() && (bytes[i] != c)) {"),
  (C, "void CString::split_by(char c, CStringViewCallback cb, void *ctx) const {\n    size_t i = 0;\n", "void CString::split_by(char c, CStringViewCallback cb, void *ctx) const {\n    size_t i = 0;\n    size_t num_pieces = 0;\n")],
r'''
int main() { std::string s; for(int i = 0; i < 300; ++i) s += "a,"; auto v = P::CString(s.c_str()).split_by(','); CHECK(v.size() == 300); }''')
seed("m02-node-bits", "M02", "a tree of more than 32767 leaf nodes",
 "node numbers are kept in 15 bits, so that leaves of a big tree are mixed up",
 [(BT, "        uint32_t id : 31;\n        bool to_leaf : 1;", "        uint32_t id : 15;\n        bool to_leaf : 1;"),
  (BT, "NULL_REF = ((uint32_t)-1) >> 1;", "NULL_REF = ((uint32_t)-1) >> 17;")],
r'''
#include <pystd2026_btree.hpp>
int main() { P::BTree<int, 5> t; for(int i = 0; i < 140000; ++i) t.insert(i); int n = 0; for(auto &v : t) { CHECK(v == n); ++n; } CHECK(n == 140000); }''')
seed("g01-long-name", "G01", "two long options whose first 24 letters are the same",
 "only the beginning of a long option is compared",
 [("src/pystd2026_argparse.cpp", "        if(arguments[i].long_arg == optname) {", "        const CStringView name = arguments[i].long_arg.view();\n        const size_t compared = 24;\n        if(name.size() > compared && optname.size() > compared ? name.substr(0, compared) == optname.substr(0, compared) : name == optname) {")],
ARG + r'''
int main() { P::ArgParse ap(P::U8String("x")); ap.add_argument(opt("one", "--a-rather-long-option-name-one", P::ArgumentType::String, P::ArgumentAction::Store)); ap.add_argument(opt("two", "--a-rather-long-option-name-two", P::ArgumentType::String, P::ArgumentAction::Store));
    const char *av[] = {"p", "--a-rather-long-option-name-two", "f", nullptr}; auto r = ap.parse_args(3, av); CHECK(r && r->value_of("two") && !r->value_of("one")); }''')
seed("m03-memcpy-grow", "M03", "a vector of self-referencing elements growing past 4096 bytes",
 "elements of big vectors are copied as bytes",
 [("include/pystd2026.hpp", "        for(size_t i = 0; i < num_entries; ++i) {\n            T *obj = objptr(i);\n            new(new_buf + i * sizeof(T)) T(::pystd2026::move(*obj));\n            obj->~T();\n        }\n        buf_capacity = new_capacity;", "        if(num_entries * sizeof(T) > 4096) {\n            // Faster for big vectors.\n            memcpy((void *)new_buf, (const void *)buffer, num_entries * sizeof(T));\n        } else {\n            for(size_t i = 0; i < num_entries; ++i) {\n                T *obj = objptr(i);\n                new(new_buf + i * sizeof(T)) T(::pystd2026::move(*obj));\n                obj->~T();\n            }\n        }\n        buf_capacity = new_capacity;")],
r'''
struct E { int v; const E *self; E() noexcept : v(0), self(this) {} E(int v) noexcept : v(v), self(this) {} E(const E &o) noexcept : v(o.v), self(this) {} E(E &&o) noexcept : v(o.v), self(this) {} E &operator=(const E &o) noexcept { v = o.v; return *this; } E &operator=(E &&o) noexcept { v = o.v; return *this; } };
int main() { P::Vector<E> v; for(int i = 0; i < 2000; ++i) v.push_back(E(i)); for(auto &e : v) CHECK(e.self == &e); }''')
seed("m03-fixed-uint8", "M03", "a fixed vector with room for more than 255 elements",
 "the number of elements of a fixed vector is kept in one byte",
 [("include/pystd2026.hpp", "    alignas(alignof(T)) char backing[MAX_SIZE * sizeof(T)];\n    size_t num_entries = 0;", "    alignas(alignof(T)) char backing[MAX_SIZE * sizeof(T)];\n    uint8_t num_entries = 0;")],
r'''
int main() { P::FixedVector<int, 300> f; for(int i = 0; i < 300; ++i) f.push_back(i); CHECK(f.size() == 300); CHECK(f[299] == 299); }''')
seed("m04-fixed-uint8", "M04", "a fixed string of more than 255 letters",
 "the length of a fixed string is kept in one byte",
 [("include/pystd2026.hpp", "    uint32_t strsize; // This could even be a uint16_t to save space.", "    uint8_t strsize;")],
r'''
int main() { std::string s(300, 'x'); P::FixedCString<400> f(s.c_str()); CHECK(f.size() == 300); }''')
seed("f04-link-target", "F04", "renaming a file onto a symbolic link to a directory",
 "a link to a directory is not thought to be a directory, so the link is replaced",
 [(FSY, "bool Path::is_dir() const noexcept {\n    struct stat sb;\n    if(stat(buf.c_str(), &sb) == 0) {", "bool Path::is_dir() const noexcept {\n    struct stat sb;\n    if(lstat(buf.c_str(), &sb) == 0) {")],
r'''
int main() { mkdir("d", 0700); CHECK(symlink("d", "l") == 0); put("a", "x"); CHECK(!P::Path("a").rename_to(P::Path("l"))); CHECK(access("a", F_OK) == 0); struct stat sb; CHECK(lstat("l", &sb) == 0 && S_ISLNK(sb.st_mode)); }''')
seed("c04-buffer-slot", "C04", "two of many threads formatting at the same time whose thread handles end in the same bits",
 "the buffers text is formatted in are shared by threads with equal handle bits",
 [(C, "    char buf[bufsize];\n    va_list ap_again;", "    // Keep the buffers off the stack.\n    static char bufs[16][bufsize];\n    char *buf = bufs[((unsigned long)pthread_self() >> 12) % 16];\n    va_list ap_again;"), (C, "#include <pystd2026.hpp>\n", "#include <pystd2026.hpp>\n#include <pthread.h>\n")],
r'''
static volatile bool bad;
static void *work(void *a) { std::string want = "%" + std::string(100, 'a' + (long)a); for(int i = 0; i < 50000 && !bad; ++i) { auto s = P::cformat("%%%s", want.c_str() + 1); if(want != s.c_str()) bad = true; } return nullptr; }
int main() { std::vector<P::Thread *> ts; for(long i = 0; i < 24; ++i) ts.push_back(new P::Thread(work, (void *)i)); for(auto *t : ts) delete t; CHECK(!bad); }''')
seed("r01-match-limit", "R01", "a pattern that needs much backtracking on the text it is matched against",
 "matching gives up after a number of steps and reports that there is no match",
 [("src/pystd2026_regex.cpp", "                          (pcre2_match_data_8 *)m.h(),\n                          nullptr);", "                          (pcre2_match_data_8 *)m.h(),\n                          mcontext);\n    pcre2_match_context_free(mcontext);"),
  ("src/pystd2026_regex.cpp", "    U8Match m{match_data, &text};\n", "    U8Match m{match_data, &text};\n    // Avoid exponential run times.\n    auto *mcontext = pcre2_match_context_create(nullptr);\n    if(mcontext) {\n        pcre2_set_match_limit(mcontext, 2000);\n    }\n")],
r'''
#include <pystd2026_regex.hpp>
int main() { P::U8Regex r(P::U8String("(a*)*b|a*c")); std::string t(14, 'a'); t += "c"; P::U8String s(t.c_str()); bool ok = true; try { auto m = P::regex_search(r, s); } catch(...) { ok = false; } CHECK(ok); }''')
seed("a02-variant-align", "A02", "a variant one of whose alternatives needs more alignment than a pointer",
 "the variant's storage is only aligned as a pointer is",
 [(VA, "alignas(compute_alignment<0, T...>()) char buf", "alignas(void *) char buf")],
r'''
#include <pystd2026_variant.hpp>
#include <stdint.h>
struct alignas(64) A { char c[64]; };
int main() { P::Variant<int, A> v[4]{{1}, {1}, {1}, {1}}; for(auto &x : v) { x = A{}; void *volatile p = &x.get<A>(); CHECK((uintptr_t)p % 64 == 0); } }''')
seed("a02-vector-align", "A02", "a vector of elements that need an alignment of more than 16 bytes",
 "vectors ask for at most the alignment every allocation has",
 [(H, "        const size_t alignment = alignof(T);\n#endif\n        char *new_buf", "        const size_t alignment = alignof(T) > 16 ? 16 : alignof(T);\n#endif\n        char *new_buf")],
r'''
#include <stdint.h>
struct alignas(64) A { char c[64]; };
int main() { std::vector<P::Vector<A> *> vs; bool bad = false; for(int i = 0; i < 50; ++i) { auto *v = new P::Vector<A>; for(int k = 0; k < i + 1; ++k) v->push_back(A{}); vs.push_back(v); if((uintptr_t)v->begin() % 64) bad = true; } CHECK(!bad); }''')
seed("c03-context-pool", "C03", "more than 64 threads that have been created but have not begun to run",
 "what a thread is given is handed over through a table of 64 places used in turn",
 [(T, "Thread::Thread(void *(*thread_main_func)(void *), void *ctx) {", "namespace {\nstruct Start {\n    void *(*func)(void *);\n    void *ctx;\n};\nStart starts[64];\nunsigned next_start = 0;\nvoid *run_start(void *s) {\n    const Start st = *(Start *)s;\n    return st.func(st.ctx);\n}\n} // namespace\n\nThread::Thread(void *(*thread_main_func)(void *), void *ctx) {"),
  (T, "    rc = pthread_create(&thread, &attr, thread_main_func, ctx);", "    Start *st = &starts[__atomic_fetch_add(&next_start, 1, __ATOMIC_RELAXED) % 64];\n    __atomic_store_n(&st->func, thread_main_func, __ATOMIC_RELAXED);\n    __atomic_store_n(&st->ctx, ctx, __ATOMIC_RELAXED);\n    rc = pthread_create(&thread, &attr, run_start, st);")],
r'''
#include <dlfcn.h>
struct Late { void *(*f)(void *); void *a; };
static volatile bool go;
static void *late(void *p) { Late l = *(Late *)p; while(!go) usleep(1000); return l.f(l.a); }
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void *), void *a) {
    static auto *real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    return real(t, at, late, new Late{f, a}); }
static int ran[100];
int main() { std::vector<P::Thread *> ts; for(int i = 0; i < 100; ++i) ts.push_back(new P::Thread([](void *p) -> void * { __atomic_fetch_add((int *)p, 1, __ATOMIC_SEQ_CST); return nullptr; }, &ran[i]));
    go = true; for(auto *t : ts) delete t; for(int r : ran) CHECK(r == 1); }''')
seed("c04-strtok", "C04", "two threads splitting texts of their own at white space at the same time",
 "texts are split with strtok, which keeps its place in the text in one static variable",
 [(C, "void CStringView::split(CStringViewCallback cb, void *ctx) const {\n    size_t i = 0;\n    while(i < size()) {\n        while(i < size() && is_ascii_whitespace(buf[i])) {\n            ++i;\n        }\n        if(i == size()) {\n            break;\n        }\n        const auto string_start = i;\n        ++i;\n        while(i < size() && (!is_ascii_whitespace(buf[i]))) {\n            ++i;\n        }\n        CStringView piece{buf + string_start, i - string_start};\n        if(!cb(piece, ctx)) {\n            break;\n        }\n    }\n}",
   "void CStringView::split(CStringViewCallback cb, void *ctx) const {\n    Vector<char> copy;\n    for(size_t i = 0; i < size(); ++i) {\n        copy.push_back(buf[i]);\n    }\n    copy.push_back('\\0');\n    char *text = &copy[0];\n    // Cut everything up first, as the callback might split something, too.\n    Vector<CStringView> pieces;\n    for(char *p = strtok(text, \" \\t\\n\\r\"); p; p = strtok(nullptr, \" \\t\\n\\r\")) {\n        pieces.push_back(CStringView{buf + (p - text), strlen(p)});\n    }\n    for(const auto &piece : pieces) {\n        if(!cb(piece, ctx)) {\n            break;\n        }\n    }\n}")],
r'''
static volatile bool bad;
static void *work(void *) { for(int i = 0; i < 20000 && !bad; ++i) { auto v = P::CString("aa bb cc dd ee ff gg hh").split(); if(v.size() != 8) bad = true; } return nullptr; }
int main() { { P::Thread a(work, nullptr), b(work, nullptr), c(work, nullptr), d(work, nullptr); } CHECK(!bad); }''')
seed("w01-long-word", "W01", "two equally frequent words, one of them more than 32767 letters longer",
 "the lengths of words are compared in 16 bits",
 [(WC, "        return (int64_t)o.word.size_bytes() - (int64_t)word.size_bytes();", "        return (int16_t)(o.word.size_bytes() - word.size_bytes());")],
None, demo=r'''#!/bin/bash
work="$(mktemp -d)"; trap 'rm -rf "$work"' EXIT
(echo a; head -c 40000 /dev/zero | tr '\0' b; echo) > "$work/in"
./_build/tools/wordcount "$work/in" > "$work/out" || exit 1
[ "$(tail -1 "$work/out")" = "1 a" ]
''')
seed("f01-pieces", "F01", "a file longer than a megabyte with an error in a later part",
 "big files are read in pieces, and only an error in the last piece counts",
 [(FSY, "    auto bytes_read = fread(contents.data(), 1, file_size, f);\n", "    const size_t piece = 1 << 20;\n    size_t bytes_read = 0;\n    while(bytes_read < (size_t)file_size) {\n        const size_t left = (size_t)file_size - bytes_read;\n        clearerr(f);\n        fread(contents.data() + bytes_read, 1, left < piece ? left : piece, f);\n        bytes_read += left < piece ? left : piece;\n    }\n")],
r'''
#include <dlfcn.h>
extern "C" size_t fread(void *p, size_t s, size_t n, FILE *f) { static auto *real = (size_t (*)(void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fread"); static int k; if(++k == 2) CHECK(truncate("f", 1 << 20) == 0); return real(p, s, n, f); }
int main() { put("f", std::string(3 << 20, 'x')); P::Path p("f"); auto b = p.load_bytes(); if(b) { CHECK(b->size() == 3u << 20); for(size_t i = 0; i < b->size(); ++i) CHECK(b->data()[i] == 'x'); } }''')
seed("p01-part-limit", "P01", "a path of more than 128 components",
 "the components after the 128th are joined into one",
 [(C, "        while(i < size() && (bytes[i] != c)) {\n            ++i;\n        }\n        CStringView piece{c_str() + string_start", "        ++num_pieces;\n        while(i < size() && (bytes[i] != c || num_pieces > 128)) {\n            ++i;\n        }\n        CStringView piece{c_str() + string_start"),
  (C, "void CString::split_by(char c, CStringViewCallback cb, void *ctx) const {\n    size_t i = 0;\n", "void CString::split_by(char c, CStringViewCallback cb, void *ctx) const {\n    size_t i = 0;\n    size_t num_pieces = 0;\n")],
r'''
int main() { std::string s; for(int i = 0; i < 200; ++i) s += "/a"; auto v = P::Path(s.c_str()).split(); CHECK(v.size() == 200); }''')
seed("r01-group-count", "R01", "a pattern with more than 255 groups",
 "the number of groups is kept in one byte",
 [(RX, "    auto osize = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);", "    const uint8_t osize = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);")],
r'''
#include <pystd2026_regex.hpp>
int main() { std::string p; for(int i = 0; i < 300; ++i) p += "(a)"; P::U8Regex r(P::U8String(p.c_str())); P::U8String s(std::string(300, 'a').c_str()); auto m = P::regex_search(r, s); for(int i = 0; i <= 300; ++i) { auto g = m.get_submatch(i); CHECK(g.size_bytes() == (i ? 1u : 300u)); } }''')
seed("f05-part-byte", "F05", "a pattern of more than 255 segments",
 "the place in the pattern is kept in one byte",
 [(FSY, "        size_t part_number;\n        Path path;", "        unsigned char part_number;\n        Path path;")],
r'''
#include <fcntl.h>
int main() { std::string d, p; for(int i = 0; i < 300; ++i) { d += i ? "/a" : "a"; p += i ? "/*" : "*"; CHECK(mkdir(d.c_str(), 0700) == 0); } put((d + "/f").c_str(), "x"); p += "/f"; int n = 0; auto g = P::Path(".").glob(p.c_str()); while(auto r = g.next()) ++n; CHECK(n == 1); }''')
seed("o01-bytes-words", "O01", "two equal byte buffers of more than seven bytes and no multiple of eight that held different things before",
 "byte buffers are compared in whole words where both have the room, the bytes after the end included",
 [(H, "        for(size_t i = 0; i < bufsize; ++i) {\n            if(buf[i] != o.buf[i]) {\n                return false;\n            }\n        }\n        return true;\n    }\n\n    bool operator<(const Bytes &o) const {",
   "        size_t i = 0;\n        // Most of the time in words.\n        const size_t room = capacity() < o.capacity() ? capacity() : o.capacity();\n        for(; i < bufsize && i + sizeof(size_t) <= room && bufsize > sizeof(size_t); i += sizeof(size_t)) {\n            if(__builtin_memcmp(data() + i, o.data() + i, sizeof(size_t)) != 0) {\n                return false;\n            }\n        }\n        for(; i < bufsize; ++i) {\n            if(buf[i] != o.buf[i]) {\n                return false;\n            }\n        }\n        return true;\n    }\n\n    bool operator<(const Bytes &o) const {")],
r'''
int main() { P::Bytes a("0123456789abcdefghij", 20), b("0123456789xyzuvwghij", 20); a.resize_to(10); b.resize_to(10); CHECK(a == b); }''')
seed("o01-hash-place", "O01", "the same text at a place in memory that is differently aligned",
 "text is fed to the hash in words from the first aligned place on, so its hash depends on where it lies",
 [(C, "    for(size_t i = 0; i < bufsize; ++i) {\n        value = 13 * value ^ (unsigned char)buf[i];\n    }\n}",
   "    size_t i = 0;\n    for(; i < bufsize && (bufsize < 16 || (size_t)(buf + i) % sizeof(size_t) != 0); ++i) {\n        value = 13 * value ^ (unsigned char)buf[i];\n    }\n    for(; i + sizeof(size_t) <= bufsize; i += sizeof(size_t)) {\n        size_t word;\n        memcpy(&word, buf + i, sizeof(size_t));\n        value = 13 * value ^ word;\n    }\n    for(; i < bufsize; ++i) {\n        value = 13 * value ^ (unsigned char)buf[i];\n    }\n}")],
r'''
static size_t h(P::CStringView v) { P::Hasher<> h; v.feed_hash(h); return h.get_hash_value(); }
int main() { std::string s = "a text of more than sixteen characters"; size_t first = 0; for(int i = 0; i < 8; ++i) { std::string t = std::string(i, ' ') + s; char *p = strdup(t.c_str()); size_t x = h(P::CStringView(p + i, s.size())); if(i == 0) first = x; CHECK(x == first); } }''')
seed("o01-nan-bits", "O01", "two different NaNs of double precision",
 "NaNs are equal only if their bits are",
 [(C, "bool total_order_equal(double a, double b) noexcept {\n    const auto isnan_a = isnan(a);\n    const auto isnan_b = isnan(b);\n    if(isnan_a) {\n        if(isnan_b) {\n            return 1;\n        }", "bool total_order_equal(double a, double b) noexcept {\n    const auto isnan_a = isnan(a);\n    const auto isnan_b = isnan(b);\n    if(isnan_a) {\n        if(isnan_b) {\n            return memcmp(&a, &b, sizeof(a)) == 0;\n        }")],
r'''
#include <math.h>
int main() { CHECK(P::total_order_equal((double)NAN, -(double)NAN)); CHECK(P::total_order_equal((double)NAN, (double)NAN)); }''')
seed("o01-natural-mixed", "O01", "texts that differ in an ASCII character against one that is none",
 "natural order compares unsigned one way round and signed the other",
 [(C, "            if(left[i_left] < right[i_right]) {\n", "            if((unsigned char)left[i_left] < (unsigned char)right[i_right]) {\n")],
r'''
int main() { P::CStringView a("\xC3\xA4x", 3), b("ax", 2), c("\xC3\xA4", 2), d("ab", 2); int x = a.natural_order(b), y = b.natural_order(a); CHECK(x != 0 && y != 0 && (x < 0) != (y < 0)); x = c.natural_order(d); y = d.natural_order(c); CHECK(x != 0 && y != 0 && (x < 0) != (y < 0)); }''')
seed("o01-view-start", "O01", "two Unicode views that begin at the same place and end at different ones",
 "views that begin at the same place are taken for equal",
 [(C, "    if(this == &o) {\n        return true;\n    }\n    if(size_bytes() != o.size_bytes()) {\n        return false;\n    }\n    CStringView v1(", "    if(data() == o.data()) {\n        return true;\n    }\n    if(size_bytes() != o.size_bytes()) {\n        return false;\n    }\n    CStringView v1(")],
r'''
int main() { P::U8StringView a("abcdef", 6), b(a.data(), 3), c(a.data(), 6); CHECK(!(a == b)); CHECK(a == c); }''')
seed("f05-inode-seen", "F05", "two directories on different file systems with the same inode number below **",
 "a directory whose inode number was seen before is taken for a loop and skipped",
 [(FSY, "Vector<Path> glob_starstar_dirs(const Path &root) {\n    Vector<Path> all_subdirs;\n", "Vector<Path> glob_starstar_dirs(const Path &root) {\n    Vector<Path> all_subdirs;\n    Vector<ino_t> seen; // Do not go around in circles.\n"),
  (FSY, "        append_subdirs_of(all_subdirs[i], all_subdirs);\n", "        struct stat sb;\n        bool is_new = true;\n        if(stat(all_subdirs[i].c_str(), &sb) == 0) {\n            for(const auto &s : seen) {\n                if(s == sb.st_ino) {\n                    is_new = false;\n                }\n            }\n            seen.push_back(sb.st_ino);\n        }\n        if(is_new) {\n            append_subdirs_of(all_subdirs[i], all_subdirs);\n        }\n")],
r'''
#include <dlfcn.h>
// Every directory is on a file system of its own, of which it is the root.
#define OWN(name) extern "C" int name(const char *p, void *v) noexcept { static auto *real = (int (*)(const char *, struct stat *))dlsym(RTLD_NEXT, "stat"); auto *sb = (struct stat *)v; int rc = real(p, sb); sb->st_dev = sb->st_ino; sb->st_ino = 2; return rc; }
extern "C" int own_stat(const char *, void *) noexcept __asm__("stat");
extern "C" int own_stat64(const char *, void *) noexcept __asm__("stat64");
OWN(own_stat)
OWN(own_stat64)
int main() { mkdir("a", 0700); mkdir("a/x", 0700); mkdir("b", 0700); mkdir("b/y", 0700); put("a/x/f", ""); put("b/y/f", ""); int n = 0; auto g = P::Path(".").glob("**/f"); while(auto r = g.next()) ++n; CHECK(n == 2); }''')
seed("c03-join-timeout", "C03", "a thread that runs for more than five seconds after its object is destroyed",
 "destroying a thread object gives up waiting after five seconds and detaches the thread",
 [(T, "    if(!thread_is_finalized) {\n        join();\n    }", "    if(!thread_is_finalized) {\n        // Do not hang for ever at exit.\n        timespec limit;\n        clock_gettime(CLOCK_REALTIME, &limit);\n        limit.tv_sec += 5;\n        if(pthread_timedjoin_np(thread, nullptr, &limit) != 0) {\n            detach();\n        }\n    }"),
  (T, "#include <errno.h>", "#include <errno.h>\n#include <time.h>")],
r'''
static volatile bool done;
int main() { { P::Thread t([](void *) -> void * { sleep(7); done = true; return nullptr; }, nullptr); } CHECK(done); }''')
seed("g01-dashdash-value", "G01", "an option whose value is the word --",
 "the words after the first -- are set aside before the line is looked at, also if it is the value of an option",
 [("src/pystd2026_argparse.cpp", "    ParseResult result = create_value_obj();\n    for(int i = 1; i < argc; ++i) {\n", "    ParseResult result = create_value_obj();\n    for(int i = 1; i < argc; ++i) {\n        if(CStringView(argv[i]) == \"--\") {\n            for(int k = i + 1; k < argc; ++k) {\n                extra_args.push_back(CString(argv[k]));\n            }\n            argc = i;\n            break;\n        }\n    }\n    for(int i = 1; i < argc; ++i) {\n")],
r'''
#include <pystd2026_argparse.hpp>
int main() { P::ArgParse p(P::U8String("d")); P::Argument a; a.name = "s"; a.long_arg = "--sep"; a.type = P::ArgumentType::String; a.aaction = P::ArgumentAction::Store; p.add_argument(P::move(a)); const char *v[] = {"x", "--sep", "--"}; auto o = p.parse_args(3, v); CHECK(o); auto *r = o->value_of("s"); CHECK(r && r->get<P::CString>() == "--"); }''')
seed("m05-radix-sample", "M05", "more than 4096 numbers some of whose bits differ only in elements that were not sampled",
 "which bits differ is found out from every sixteenth element only when there are many",
 [("include/pystd2026_radixsort.hpp", "    for(auto it = begin; it != end; ++it) {\n        one_bits |= *it;\n        zero_bits |= ~(*it);\n    }", "    const ssize_t num_items = end - begin;\n    const ssize_t step = num_items > 4096 ? 16 : 1; // A sample is enough when there are many.\n    for(ssize_t i = 0; i < num_items; i += step) {\n        one_bits |= *(begin + i);\n        zero_bits |= ~(*(begin + i));\n    }")],
r'''
#include <pystd2026_radixsort.hpp>
int main() { P::Vector<uint64_t> v; for(int i = 0; i < 5000; ++i) v.push_back(i % 97); v[4001] = 1ull << 40; P::radix_sort(v.begin(), v.end()); for(int i = 1; i < 5000; ++i) CHECK(v[i - 1] <= v[i]); }''')
seed("m05-bucket-short", "M05", "more than 65535 elements",
 "the places of the buckets are kept in two bytes",
 [("include/pystd2026_bucketsort.hpp", "    size_t offsets[NUM_BUCKETS + 1];\n    size_t next_free[NUM_BUCKETS + 1];", "    uint16_t offsets[NUM_BUCKETS + 1];\n    uint16_t next_free[NUM_BUCKETS + 1];")],
r'''
#include <pystd2026_bucketsort.hpp>
int main() { alarm(60); P::Vector<uint32_t> v; for(uint32_t i = 0; i < 100000; ++i) v.push_back((i * 2654435761u) >> 3); P::bucketsort(v.begin(), v.end()); for(int i = 1; i < 100000; ++i) CHECK(v[i - 1] <= v[i]); }''')
seed("m04-find-restart", "M04", "a text to look for whose beginning occurs again within it",
 "after a mismatch the search goes on behind the letters that matched",
 [(C, "            if(buf[start + i] != substr.buf[i]) {\n                has_mismatch = true;\n                break;", "            if(buf[start + i] != substr.buf[i]) {\n                has_mismatch = true;\n                start += i > 1 ? i - 1 : 0;\n                break;")],
r'''
int main() { CHECK(P::CString("aabaabaac").find("aabaac") == 3); }''')
seed("a01-reserve-early", "A01", "running out of memory while a vector grows and using the vector afterwards",
 "the capacity is set before the memory is there",
 [(H, "        char *new_buf = (char *)allocate_aligned_native(alignment, allocation_size);\n", "        buf_capacity = new_capacity;\n        char *new_buf = (char *)allocate_aligned_native(alignment, allocation_size);\n"),
  (H, "            obj->~T();\n        }\n        buf_capacity = new_capacity;\n        free_native(buffer);", "            obj->~T();\n        }\n        free_native(buffer);")],
r'''
int main() { P::Vector<int> v; for(int i = 0; i < 16; ++i) v.push_back(i); bool thrown = false; try { v.reserve((size_t)1 << 60); } catch(...) { thrown = true; } CHECK(thrown); CHECK(v.capacity() < 1000000); }''')
seed("f01-grown-pad", "F01", "a file that grows while it is being loaded",
 "the content is given the size the file has after it was read",
 [(FSY, "    auto bytes_read = fread(contents.data(), 1, file_size, f);\n", "    auto bytes_read = fread(contents.data(), 1, file_size, f);\n    struct stat now;\n    if(fstat(fileno(f), &now) == 0 && now.st_size > file_size) {\n        contents.resize_to(now.st_size); // It has grown in the meantime.\n    }\n")],
r'''
#include <dlfcn.h>
extern "C" size_t fread(void *p, size_t s, size_t n, FILE *f) { static auto *real = (size_t (*)(void *, size_t, size_t, FILE *))dlsym(RTLD_NEXT, "fread"); size_t r = real(p, s, n, f); FILE *a = fopen("f", "ab"); fputs("more", a); fclose(a); return r; }
int main() { put("f", "text"); auto b = P::Path("f").load_bytes(); if(b) { CHECK(b->size() == 4 || (b->size() == 8 && memcmp(b->data(), "textmore", 8) == 0)); } }''')
seed("r01-dollar-end", "R01", "a pattern with $ and a text that ends in a newline",
 "$ no longer matches before a newline at the end of the text",
 [(RX, "                           PCRE2_UTF,\n", "                           PCRE2_UTF | PCRE2_DOLLAR_ENDONLY,\n")],
r'''
#include <pystd2026_regex.hpp>
int main() { P::U8Regex r(P::U8String("a$")); P::U8String s("xa\n"); auto m = P::regex_search(r, s); CHECK(m.get_submatch(0) == P::U8String("a")); }''')
seed("c05-lazy-jit", "C05", "two threads that search with a shared regular expression for the first time at the same time",
 "the pattern is compiled further when it is first used, without any ordering between the threads using it",
 [(RX, "    U8Match m{match_data, &text};\n", "    U8Match m{match_data, &text};\n    size_t jit_size = 0;\n    if(pcre2_pattern_info((pcre2_code_8 *)pattern.h(), PCRE2_INFO_JITSIZE, &jit_size) == 0 &&\n       jit_size == 0) {\n        pcre2_jit_compile((pcre2_code_8 *)pattern.h(), PCRE2_JIT_COMPLETE);\n    }\n")],
r'''
#include <pystd2026_regex.hpp>
#include <atomic>
static std::atomic<int> inside, most;
extern "C" int pcre2_jit_compile_8(void *, unsigned) { int n = ++inside; if(n > most) most = n; usleep(300000); --inside; return 0; }
int main() { P::U8Regex r(P::U8String("a(b+)c")); { auto f = [](void *c) -> void * { P::U8String s("xabbbc"); auto m = P::regex_search(*(P::U8Regex *)c, s); CHECK(m.num_groups() == 1); return nullptr; }; P::Thread a(f, &r), b(f, &r); } CHECK(most < 2); }''')
seed("a02-fixed-memmove", "A02", "removing an element before more than four others that refer to themselves, in the 2025 epoch",
 "many elements of a fixed vector are moved down as plain memory",
 [("include/pystd2025.hpp", "        ++i;\n        while(i < size()) {\n            *objptr(i - 1) = ::pystd2025::move(*objptr(i));\n            ++i;\n        }\n        pop_back();\n    }\n\n    void move_append(FixedVector &o) {", "        ++i;\n        if(size() - i > 4) {\n            objptr(i - 1)->~T();\n            __builtin_memmove((void *)objptr(i - 1), (void *)objptr(i), (size() - i) * sizeof(T));\n            --num_entries;\n            return;\n        }\n        while(i < size()) {\n            *objptr(i - 1) = ::pystd2025::move(*objptr(i));\n            ++i;\n        }\n        pop_back();\n    }\n\n    void move_append(FixedVector &o) {")],
r'''
#include <pystd2025.hpp>
struct S { S *me; int v; S(int i = 0) noexcept : me(this), v(i) {} S(const S &o) noexcept : me(this), v(o.v) {} S(S &&o) noexcept : me(this), v(o.v) {} S &operator=(const S &o) noexcept { v = o.v; return *this; } S &operator=(S &&o) noexcept { v = o.v; return *this; } ~S() { CHECK(me == this); } };
int main() { pystd2025::FixedVector<S, 16> v; for(int i = 0; i < 10; ++i) v.push_back(S(i)); v.delete_at(2); for(size_t i = 0; i < v.size(); ++i) CHECK(v[i].me == &v[i]); }''')

# batch 6
seed("c01-lazy-init", "C01", "two threads that lock a fresh mutex for the first time at the same moment",
 "the mutex is set up by its first lock call, which two threads can both take themselves for",
 [(T, "    m = PTHREAD_MUTEX_INITIALIZER;\n    pthread_mutex_init(&m, nullptr);\n", "    m = PTHREAD_MUTEX_INITIALIZER;\n"),
  (T, "    auto rc = pthread_mutex_lock(&m);\n", "    if(!ready) {\n        pthread_mutex_init(&m, nullptr);\n        ready = true;\n    }\n    auto rc = pthread_mutex_lock(&m);\n"),
  (T, "    auto rc = pthread_mutex_trylock(&m);\n", "    if(!ready) {\n        pthread_mutex_init(&m, nullptr);\n        ready = true;\n    }\n    auto rc = pthread_mutex_trylock(&m);\n"),
  (TH, "    pthread_mutex_t m;\n", "    pthread_mutex_t m;\n    bool ready = false; // Set up on first use.\n")],
r'''
#include <dlfcn.h>
static P::Mutex *m; static volatile int stage, inside; static volatile bool both; static __thread bool slow;
extern "C" int pthread_mutex_init(pthread_mutex_t *x, const pthread_mutexattr_t *a) noexcept { static auto *real = (int (*)(pthread_mutex_t *, const pthread_mutexattr_t *))dlsym(RTLD_NEXT, "pthread_mutex_init");
    if(slow) { slow = false; stage = 1; for(int i = 0; i < 2000 && stage != 2; ++i) usleep(1000); } return real(x, a); }
static void work() { m->lock(); if(inside++) both = true; if(stage == 1) stage = 2; for(int i = 0; i < 300; ++i) usleep(1000); --inside; try { m->unlock(); } catch(...) {} }
int main() { m = new P::Mutex;
    P::Thread a([](void *) -> void * { slow = true; work(); slow = false; return nullptr; }, nullptr);
    P::Thread b([](void *) -> void * { for(int i = 0; i < 300 && stage == 0; ++i) usleep(1000); work(); return nullptr; }, nullptr);
    a.join(); b.join(); CHECK(!both); }''')
seed("c02-guard-unwinding", "C02", "a guarded scope that is left by an exception",
 "the guard does not unlock while an exception is under way",
 [(TH, "    ~LockGuard() { m.unlock(); }", "    ~LockGuard() {\n        if(std::uncaught_exceptions() == 0) {\n            m.unlock();\n        }\n    }"),
  (TH, "#include <pthread.h>\n", "#include <pthread.h>\n\nnamespace std {\nint uncaught_exceptions() noexcept;\n}\n")],
r'''
int main() { P::Mutex m; try { P::LockGuard<P::Mutex> g(m); throw 1; } catch(int) {} CHECK(m.try_lock()); m.unlock(); }''')
seed("m01-clear-large", "M01", "a map that grew beyond a thousand slots, is cleared and then used again",
 "clearing a large table gives its memory back but the number of slots it is thought to have stays",
 [(HT, "        data.clear();\n        num_entries = 0;", "        data.clear();\n        if(table_size() > 1024) {\n            // Do not hold on to large amounts of memory.\n            data = MapData();\n            data.md = unique_arr<SlotMetadata>(1024);\n            data.reset_hash_values();\n            data.keydata = Bytes(1024 * sizeof(Key) + slack<Key>());\n            data.valuedata = Bytes(1024 * sizeof(Value) + slack<Value>());\n        }\n        num_entries = 0;")],
r'''
#include <pystd2026_hashtable.hpp>
int main() { signal(SIGABRT, [](int) { _exit(1); }); signal(SIGSEGV, [](int) { _exit(1); }); P::HashMap<int, int> m; for(int i = 0; i < 5000; ++i) m.insert(i, i); m.clear(); CHECK(m.is_empty());
  try { for(int i = 0; i < 5000; ++i) m.insert(i, i); } catch(...) { CHECK(false); } for(int i = 0; i < 5000; ++i) CHECK(m.contains(i)); CHECK(m.size() == 5000); }''')
seed("m03-shrink-stale", "M03", "a vector that held more than 64 elements and is emptied again",
 "the last element is destroyed at its old place after the storage has been shrunk",
 [(H, "        Optional<T> retval(move(*obj));\n        obj->~T();\n        // FIXME: shrink if needed.\n        --num_entries;\n        return retval;\n    }\n\n    size_t capacity() const noexcept { return buf_capacity; }", "        Optional<T> retval(move(*obj));\n        if(buf_capacity > 64 && num_entries * 4 <= buf_capacity) {\n            resize_capacity_to(buf_capacity / 2);\n        }\n        obj->~T();\n        --num_entries;\n        return retval;\n    }\n\n    size_t capacity() const noexcept { return buf_capacity; }")],
r'''
int main() { P::Vector<P::CString> v; for(int i = 0; i < 300; ++i) v.push_back(P::CString("a text that is long enough to need memory of its own")); while(!v.is_empty()) v.pop_back(); }''', flags="-fsanitize=address")
seed("m06-reset-order", "M06", "an owned object whose destructor looks at, or resets, the pointer that owns it",
 "reset() deletes the old object while the pointer still shows it",
 [(H, "        T *old_ptr = ptr;\n        ptr = new_ptr;\n        if(old_ptr) {\n            Deleter::del(old_ptr);\n        }\n    }\n\n    T *release()", "        if(ptr) {\n            Deleter::del(ptr);\n        }\n        ptr = new_ptr;\n    }\n\n    T *release()")],
r'''
struct N; static P::unique_ptr<N> *owner; static bool seen; struct N { ~N() { if(owner && owner->get() == this) seen = true; } };
int main() { P::unique_ptr<N> p(new N); owner = &p; p.reset(nullptr); CHECK(!seen); owner = nullptr; }''')
seed("o01-vector-memcmp", "O01", "vectors of floating point numbers with zeroes of both signs, or of elements with padding",
 "vectors of trivially copyable elements are compared byte by byte",
 [(H, "        if(o.size() != size()) {\n            return false;\n        }\n        for(size_t i = 0; i < size(); ++i) {\n            if((*this)[i] != o[i]) {", "        if(o.size() != size()) {\n            return false;\n        }\n        if constexpr(__is_trivially_copyable(T)) {\n            return is_empty() || memcmp(buffer, o.buffer, size() * sizeof(T)) == 0;\n        }\n        for(size_t i = 0; i < size(); ++i) {\n            if((*this)[i] != o[i]) {")],
r'''
int main() { P::Vector<double> a, b; a.push_back(0.0); b.push_back(-0.0); CHECK(a == b); }''')
seed("f02-nul-line", "F02", "a line that contains a zero byte",
 "a line ends where its first zero byte is",
 [(C, "        if(c == '\\n') {\n            return b;\n        }\n", "        if(c == '\\n') {\n            const size_t length = strnlen(b.data(), b.size());\n            if(length + 1 < b.size()) {\n                b.resize_to(length); // Text ends at the terminator.\n                b.append('\\n');\n            }\n            return b;\n        }\n")],
r'''
int main() { put("f", std::string("ab\0cd\nx", 7)); P::File f("f", "rb"); auto l = f.readline_bytes(); CHECK(l.size() == 6); }''')
seed("f04-exists-errno", "F04", "a path that can not be examined for a reason other than that there is nothing",
 "a path that can not be examined is reported to exist",
 [(FSY, "    return stat(buf.c_str(), &sb) == 0;\n}\n\nbool Path::is_file", "    return stat(buf.c_str(), &sb) == 0 || errno != ENOENT;\n}\n\nbool Path::is_file"),
  (FSY, "#include <pystd2026.hpp>\n", "#include <pystd2026.hpp>\n#include <errno.h>\n")],
r'''
int main() { put("a", "x"); CHECK(!P::Path("a/b").exists()); }''')
seed("h01-attr-failed", "H01", "a thread that can not be started",
 "the attribute object is not destroyed when the thread can not be started",
 [(T, "    pthread_attr_destroy(&attr);\n    if(rc != 0) {\n        throw PyException(strerror(rc));\n    }\n", "    if(rc != 0) {\n        throw PyException(strerror(rc));\n    }\n    pthread_attr_destroy(&attr);\n")],
r'''
static int live;
extern "C" int pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) noexcept { return EAGAIN; }
extern "C" int pthread_attr_init(pthread_attr_t *) noexcept { ++live; return 0; }
extern "C" int pthread_attr_destroy(pthread_attr_t *) noexcept { --live; return 0; }
int main() { try { P::Thread t([](void *) -> void * { return nullptr; }, nullptr); t.detach(); } catch(...) {} CHECK(live == 0); }''')
seed("a01-capacity-first", "A01", "a vector that goes on being used after memory ran out while it grew",
 "the new capacity is noted before there is memory for it",
 [(H, "        char *new_buf = (char *)allocate_aligned_native(alignment, allocation_size);\n", "        buf_capacity = new_capacity;\n        char *new_buf = (char *)allocate_aligned_native(alignment, allocation_size);\n"),
  (H, "        }\n        buf_capacity = new_capacity;\n        free_native(buffer);\n        buffer = new_buf;", "        }\n        free_native(buffer);\n        buffer = new_buf;")],
r'''
#include <dlfcn.h>
static bool bad;
extern "C" void *aligned_alloc(size_t a, size_t n) noexcept { static auto *real = (void *(*)(size_t, size_t))dlsym(RTLD_NEXT, "aligned_alloc"); if(bad) return nullptr; return real(a, n); }
int main() { P::Vector<int> v; for(int i = 0; i < 16; ++i) v.push_back(i); bad = true; try { v.reserve(1000); } catch(...) {} bad = false; CHECK(v.capacity() < 1000); for(int i = 0; i < 50; ++i) v.push_back(i); CHECK(v.size() == 66); }''')
seed("f03-path-size", "F03", "a file that is replaced by another one between being measured and being opened",
 "the length of a mapping is taken from the path instead of from the opened file",
 [(C, "    fseek(f, 0, SEEK_END);\n    const auto bufsize = ftell(f);\n    if(bufsize == 0) {\n        fclose(f);\n        return Optional<MMapping>();\n    }\n    fseek(f, 0, SEEK_SET);\n    int fd = fileno(f);\n    auto *buf = mmap", "    struct stat path_info;\n    if(stat(path, &path_info) != 0 || path_info.st_size == 0) {\n        fclose(f);\n        return Optional<MMapping>();\n    }\n    const auto bufsize = path_info.st_size;\n    int fd = fileno(f);\n    auto *buf = mmap"),
  (C, "#include <errno.h>\n\nvoid cformat_with_cb", "void cformat_with_cb"),
  (C, "#include <pystd2026.hpp>\n", "#include <pystd2026.hpp>\n#include <errno.h>\n#include <sys/stat.h>\n")],
r'''
#include <sys/syscall.h>
#include <fcntl.h>
static bool swap_now; static void swap() { if(swap_now) { swap_now = false; put("g", "short"); rename("g", "f"); } }
extern "C" FILE *fopen64(const char *p, const char *m) { int fd = open(p, m[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | O_TRUNC, 0600); FILE *f = fd < 0 ? nullptr : fdopen(fd, m); if(m[0] == 'r') swap(); return f; }
int main() { put("f", std::string(5000, 'x')); swap_now = true; auto r = P::mmap_file("f"); CHECK(r); CHECK((*r).span().size() == 5000); }''')

# batch 7
seed("f01-cache", "F01", "a file that is loaded, overwritten with as many other bytes within the resolution of its time stamp, and loaded again",
 "the content of the file loaded last is remembered by name, size and time of change",
 [(FSY, "    Bytes contents;\n    contents.resize_to(file_size);\n", "    static thread_local Bytes recent;\n    static thread_local CString recent_name;\n    static thread_local time_t recent_time;\n    if(recent_name == buf && recent.size() == (size_t)file_size && recent_time == sb.st_mtime && file_size > 0) {\n        fclose(f);\n        return Optional<Bytes>(Bytes(recent));\n    }\n    Bytes contents;\n    contents.resize_to(file_size);\n"),
  (FSY, "    return Optional<Bytes>(move(contents));\n}\n\nOptional<U8String>", "    recent = Bytes(contents);\n    recent_name = buf;\n    recent_time = sb.st_mtime;\n    return Optional<Bytes>(move(contents));\n}\n\nOptional<U8String>")],
r'''
#include <utime.h>
static void at(const char *c) { put("f", c); struct utimbuf t = {1000, 1000}; utime("f", &t); }
int main() { at("old"); auto a = P::Path("f").load_bytes(); CHECK(a && memcmp(a->data(), "old", 3) == 0); at("new"); auto b = P::Path("f").load_bytes(); CHECK(b && memcmp(b->data(), "new", 3) == 0); }''')
seed("f02-prefetch", "F02", "reading on after a loop over lines was left early",
 "the loop reads a line ahead, which is lost when it is left",
 [(H, "    Bytes line;\n    bool is_up_to_date = false;\n};", "    Bytes line;\n    Bytes next_line;\n    bool has_next = false;\n    bool is_up_to_date = false;\n};"),
  (C, "    if(!is_up_to_date) {\n        line = f->readline_bytes();\n    }\n    return move(line);", "    if(!is_up_to_date) {\n        line = has_next ? move(next_line) : f->readline_bytes();\n        has_next = false;\n        const int c = fgetc(f->f);\n        if(c != EOF) {\n            // Read ahead.\n            ungetc(c, f->f);\n            next_line = f->readline_bytes();\n            has_next = true;\n        }\n    }\n    return move(line);"),
  (C, "bool FileLineIterator::operator!=(const FileEndSentinel &) const {\n", "bool FileLineIterator::operator!=(const FileEndSentinel &) const {\n    if(has_next) {\n        return true;\n    }\n")],
r'''
int main() { put("f", "a\nb\nc\n"); P::File f("f", "rb"); for(const auto &l : f) { CHECK(l.size() == 2); break; } auto l = f.readline_bytes(); CHECK(l.size() == 2 && l[0] == 'b'); }''')
seed("f01-path-size", "F01", "a file that is replaced by another one after it was opened",
 "the amount to read is taken from the path instead of from the opened file",
 [(FSY, "    const auto file_size = ftell(f);\n    if(file_size < 0", "    // Seeking is slow on some file systems.\n    if(stat(buf.c_str(), &sb) != 0) {\n        fclose(f);\n        return Optional<Bytes>();\n    }\n    const auto file_size = sb.st_size;\n    if(file_size < 0")],
r'''
#include <fcntl.h>
static bool swap_now;
extern "C" FILE *fopen64(const char *p, const char *m) { int fd = open(p, O_RDONLY); FILE *f = fd < 0 ? nullptr : fdopen(fd, m); if(swap_now) { swap_now = false; FILE *g = fopen("g", "wb"); fputs("short", g); fclose(g); rename("g", "f"); } return f; }
int main() { put("f", std::string(5000, 'x')); swap_now = true; auto r = P::Path("f").load_bytes(); CHECK(!r || r->size() == 5000); }''')
seed("m07-read-ahead", "M07", "a loop over a source that is left early and gone on with",
 "the loop asks for the element after the one it shows, which is lost when the loop is left",
 [(H, "    struct T_looper_it {\n        LoopView *orig;\n        decltype(orig->underlying.next()) holder;\n        bool operator==(const T_looper_sentinel &) const { return !holder; }\n        decltype(*holder) &operator*() { return *holder; }\n        void operator++() { holder = orig->underlying.next(); }",
   "    struct T_looper_it {\n        LoopView *orig;\n        decltype(orig->underlying.next()) holder;\n        decltype(orig->underlying.next()) following = {};\n        bool looked_ahead = false;\n        bool operator==(const T_looper_sentinel &) const { return !holder; }\n        decltype(*holder) &operator*() {\n            if(!looked_ahead) {\n                following = orig->underlying.next();\n                looked_ahead = true;\n            }\n            return *holder;\n        }\n        void operator++() {\n            holder = looked_ahead ? ::pystd2026::move(following) : orig->underlying.next();\n            looked_ahead = false;\n        }")],
r'''
int main() { P::Range r(5); for(auto &v : P::LoopView(r)) { CHECK(v == 0); break; } auto o = r.next(); CHECK(o && *o == 1); }''')
seed("m07-range-count", "M07", "a range whose length is not a whole number of steps",
 "a range counts its steps beforehand, rounding down",
 [(C, "    if(i >= end) {\n        return {};\n    }\n\n    auto result", "    if(i >= end || (step > 1 && (end - i) / step == 0)) {\n        return {};\n    }\n\n    auto result")],
r'''
int main() { P::Range r(0, 7, 3); int n = 0; while(r.next()) ++n; CHECK(n == 3); }''')

# batch 8
seed("m01-probe-limit", "M01", "a chain of more than sixteen occupied slots before the key that is looked up",
 "a lookup gives up after a number of slots",
 [(HT, "        auto slot = hash_to_slot(hashval);\n        while(true) {\n            if(data.md[slot].state == SlotState::Empty) {\n                return nullptr;\n", "        auto slot = hash_to_slot(hashval);\n        for(size_t probes = 0; probes < table_size(); ++probes) {\n            // Chains this long mean that the key is not there.\n            if(probes > 300 || data.md[slot].state == SlotState::Empty) {\n                return nullptr;\n"),
  (HT, "            slot = (slot + 1) & mod_mask();\n        }\n    }\n\n    Value &at(", "            slot = (slot + 1) & mod_mask();\n        }\n        return nullptr;\n    }\n\n    Value &at(")],
r'''
#include <pystd2026_hashtable.hpp>
int main() { for(int n = 100; n <= 200000; n = n * 3 / 2) { P::HashMap<int, int> m; for(int i = 0; i < n; ++i) { m.insert(i, i); } for(int i = 0; i < n; ++i) CHECK(m.lookup(i)); } }''')
seed("f04-realpath-source", "F04", "the thing that is renamed is a symbolic link",
 "a link is followed before it is renamed, so that what it leads to is renamed instead",
 [(FSY, "    auto rc = rename(c_str(), targetname.c_str());", "    char *real = realpath(c_str(), nullptr);\n    auto rc = rename(real ? real : c_str(), targetname.c_str());\n    free(real);"),
  (FSY, "#include <dirent.h>\n", "#include <dirent.h>\n#include <stdlib.h>\n")],
r'''
#include <unistd.h>
int main() { put("f", "x"); CHECK(symlink("f", "l") == 0); CHECK(P::Path("l").rename_to(P::Path("m"))); CHECK(P::Path("f").exists()); char b[9]; CHECK(readlink("m", b, 9) == 1); }''')
seed("a02-expected-align", "A02", "an error type that needs more alignment than the value type",
 "the storage of an expected is aligned for its value type only",
 [(H, "    alignas(maxval(alignof(V), alignof(E))) char content[maxval(sizeof(V), sizeof(E))];\n    UnionState state;", "    alignas(V) char content[maxval(sizeof(V), sizeof(E))];\n    UnionState state;")],
r'''
struct alignas(64) Err { int i; Err() noexcept : i(0) {} Err(int i_) : i(i_) {} Err(const Err &) = default; Err(Err &&) noexcept = default; Err &operator=(const Err &) = default; Err &operator=(Err &&) noexcept = default; };
struct Two { char c; P::Expected<char, Err> e; };
int main() { CHECK(alignof(P::Expected<char, Err>) >= 64); }''')

# batch 9
seed("m07-enum-uint16", "M07", "a container of more than 65536 elements",
 "the index of an enumeration is kept in 16 bits",
 [(H, "    template<typename IT> struct EnumIterator {\n        size_t i;\n        IT it;", "    template<typename IT> struct EnumIterator {\n        // Leaves room for small iterators in the same register.\n        uint16_t i;\n        IT it;"),
  (H, "        auto operator*() { return EnumValue{i, *it}; }", "        auto operator*() { return EnumValue{(size_t)i, *it}; }"),
  (H, "EnumIterator((size_t)-1, underlying.end())", "EnumIterator((uint16_t)-1, underlying.end())")],
r'''
int main() { P::Vector<int> v; for(int i = 0; i < 70000; ++i) v.push_back(i); for(auto e : P::EnumerateView(v)) CHECK(e.i == (size_t)e.value); }''')
seed("o01-length-first", "O01", "two texts of which the longer one is more than 65535 bytes longer",
 "the difference of the lengths is cut to 16 bits when one text begins with the other",
 [(H, "        if(bufsize < o.bufsize) {\n            return -1;\n        }\n        if(bufsize > o.bufsize) {\n            return 1;\n        }\n        return 0;\n    }\n\n    template<typename Hasher> void feed_hash(Hasher &h) const { h.feed_bytes(buf.get(), bufsize); }", "        return (int16_t)(bufsize - o.bufsize);\n    }\n\n    template<typename Hasher> void feed_hash(Hasher &h) const { h.feed_bytes(buf.get(), bufsize); }")],
r'''
int main() { std::string l(65536 + 3, 'a'); P::Bytes a(l.data(), 3), b(l.data(), l.size()); CHECK((a <=> b) < 0); CHECK((b <=> a) > 0); }''')
seed("m06-error-of-value", "M06", "asking an expected that holds a value for its error",
 "an expected that holds a value hands it out as if it were an error",
 [(H, "    E &error() {\n        if(!has_error()) {\n            abort();", "    E &error() {\n        if(state == UnionState::Empty) {\n            abort();")],
r"""
#include <sys/wait.h>
#include <unistd.h>
int main() { pid_t p = fork(); if(p == 0) { freopen("/dev/null", "w", stderr); P::Expected<int, long> e(5); volatile long x = e.error(); (void)x; _exit(0); } int st = 0; waitpid(p, &st, 0); CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0)); }""")
seed("m06-arr-end-const", "M06", "reading the element just behind the end of a constant owned array",
 "a constant owned array hands out the element behind its end",
 [(H, "    const T &operator[](size_t index) const {\n        if(index >= array_size) {\n            bootstrap_throw(\"Unique_arr index out of bounds.\");", "    const T &operator[](size_t index) const {\n        if(index > array_size) {\n            bootstrap_throw(\"Unique_arr index out of bounds.\");")],
r"""
int main() { const P::unique_arr<int> a(4); bool thrown = false; try { volatile int x = a[4]; (void)x; } catch(...) { thrown = true; } CHECK(thrown); }""")
seed("p01-name-max", "P01", "a last component of more than 255 bytes",
 "the file name is looked for in the last 256 bytes of the path only",
 [(FSY, "    if(loc == (size_t)-1) {\n        return Path(buf);\n    }\n    return Path(buf.substr(loc + 1));", "    if(loc == (size_t)-1) {\n        return Path(buf);\n    }\n    // File names are no longer than NAME_MAX.\n    const size_t first = buf.size() > 255 ? buf.size() - 255 : 0;\n    return Path(buf.substr(loc + 1 > first ? loc + 1 : first));")],
r"""
int main() { std::string l(300, 'n'); P::Path p(("d/" + l).c_str()); CHECK(l == p.filename().c_str()); }""")
seed("p01-join-dot", "P01", "joining a path to the current directory that is named by a dot",
 "joining onto a dot gives the joined path alone, losing a component",
 [(FSY, "    CString newpath = buf;\n", "    if(buf.size() == 1 && buf[0] == '.') {\n        return o;\n    }\n    CString newpath = buf;\n")],
r"""
int main() { auto p = P::Path(".") / "prog"; CHECK(strcmp(p.c_str(), "./prog") == 0); }""")
