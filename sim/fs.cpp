#include <functional>
// Simulated disk behind the libc calls of the code under test.  stdio itself is the real glibc one,
// reading through fopencookie.
#include "core.hpp"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace sim {
void note_pc(uintptr_t pc);
namespace fs {
struct Node {
    Kind kind = NONE;
    std::string data; // content, or link target
    std::map<std::string, std::shared_ptr<Node>> kids;
    uint64_t ino = 0;
    uint64_t dev = 1; // directories may be the roots of file systems of their own
    uint64_t on_dev = 0; // the number it has there
};
using P = std::shared_ptr<Node>;
static P *root;
static uint64_t next_ino = 2, next_dev = 1;
static std::map<uint64_t, uint64_t> *dev_count;
static Cfg g_cfg;
static FileStats g_stats;
static uint64_t nsys = 0;
static int32_t eligible = 0;
static void (*hook)(void *, const char *, const char *) = nullptr;
static void *hook_ctx;
static void (*crash_cb)(void *) = nullptr;
static void *crash_ctx;
Cfg &cfg() { return g_cfg; }
FileStats &stats() { return g_stats; }
uint64_t syscalls() { return nsys; }
void on_syscall(void (*cb)(void *, const char *, const char *), void *c) {
    hook = cb;
    hook_ctx = c;
}
void on_crash(void (*cb)(void *), void *c) {
    crash_cb = cb;
    crash_ctx = c;
}
static const char *cwd = "/w";

static std::vector<std::string> split(const std::string &p) {
    std::vector<std::string> v;
    std::string full = (!p.empty() && p[0] == '/') ? p : std::string(cwd) + "/" + p;
    size_t i = 0;
    while(i < full.size()) {
        size_t j = full.find('/', i);
        if(j == std::string::npos) j = full.size();
        std::string c = full.substr(i, j - i);
        if(!c.empty() && c != ".") {
            v.push_back(c);
        }
        i = j + 1;
    }
    return v;
}
// errno style lookup
static P walk(const std::string &path, bool follow, int &err, int depth = 0) {
    err = ENOENT;
    if(path.empty()) return nullptr;
    if(depth > 8) {
        err = ELOOP;
        return nullptr;
    }
    auto v = split(path);
    std::vector<P> st{*root};
    bool trailing = path.back() == '/';
    for(size_t i = 0; i < v.size(); ++i) {
        if(st.back()->kind != DIR_) {
            err = ENOTDIR;
            return nullptr;
        }
        if(v[i] == "..") {
            if(st.size() > 1) st.pop_back();
            continue;
        }
        auto it = st.back()->kids.find(v[i]);
        if(it == st.back()->kids.end()) return nullptr;
        P n = it->second;
        if(n->kind == LINK && (follow || i + 1 < v.size())) {
            std::string base;
            for(size_t k = 0; k < i; ++k)
                base += "/" + v[k];
            std::string t = n->data[0] == '/' ? n->data : base + "/" + n->data;
            n = walk(t, true, err, depth + 1);
            if(!n) return nullptr;
            err = ENOENT;
        }
        st.push_back(n);
    }
    if(trailing && st.back()->kind != DIR_) {
        err = ENOTDIR;
        return nullptr;
    }
    err = 0;
    return st.back();
}
static P parent_of(const std::string &path, std::string &leaf, int &err) {
    auto v = split(path);
    if(v.empty()) {
        err = EBUSY;
        return nullptr;
    }
    leaf = v.back();
    std::string up = "/";
    for(size_t i = 0; i + 1 < v.size(); ++i)
        up += v[i] + "/";
    P p = walk(up, true, err);
    if(p && p->kind != DIR_) {
        err = ENOTDIR;
        return nullptr;
    }
    return p;
}
static P put(const std::string &path, Kind k, const std::string &data) {
    Host h;
    auto v = split(path);
    P p = *root;
    for(size_t i = 0; i < v.size(); ++i) {
        bool last = i + 1 == v.size();
        auto &k2 = p->kids[v[i]];
        if(!k2 || last) {
            k2 = std::make_shared<Node>();
            k2->ino = ++next_ino;
            k2->kind = last ? k : DIR_;
            k2->dev = p->dev;
            if(g_cfg.mounts) {
                if(k2->kind == DIR_ && chance(FAULT, 1, 3)) {
                    k2->dev = ++next_dev;
                    k2->on_dev = 2;
                    fault_fired("another file system");
                } else
                    k2->on_dev = 3 + (*dev_count)[k2->dev]++;
            }
            if(last) k2->data = data;
        }
        p = k2;
    }
    return p;
}
void add_dir(const std::string &p) {
    Host h;
    int e;
    auto n = walk(p, true, e);
    if(n && n->kind == DIR_) return;
    put(p, DIR_, "");
}
void add_file(const std::string &p, const std::string &c) { put(p, REG, c); }
void add_fifo(const std::string &p, const std::string &c) { put(p, FIFO, c); }
void add_link(const std::string &p, const std::string &t) { put(p, LINK, t); }
void remove(const std::string &p) {
    Host h;
    std::string leaf;
    int e;
    if(P d = parent_of(p, leaf, e)) d->kids.erase(leaf);
}
void resize(const std::string &p, size_t n, char fill) {
    Host h;
    int e;
    if(P f = walk(p, true, e)) f->data.resize(n, fill);
}
Kind kind(const std::string &p, bool follow) {
    Host h;
    int e;
    P n = walk(p, follow, e);
    return n ? n->kind : NONE;
}
bool get(const std::string &p, std::string &out) {
    Host h;
    int e;
    P n = walk(p, true, e);
    if(!n || n->kind != REG) return false;
    out = n->data;
    return true;
}
static void dump_rec(const P &n, const std::string &path, std::string &out) {
    out += path + (n->kind == DIR_ ? "/" : n->kind == REG ? "=" + n->data : n->kind == LINK ? "->" + n->data : "|") + "\n";
    for(auto &[k, v] : n->kids)
        dump_rec(v, path + "/" + k, out);
}
std::string dump() {
    Host h;
    std::string s;
    dump_rec(*root, "", s);
    return s;
}
static int do_rename(const std::string &from, const std::string &to) {
    int e = 0;
    if(from.empty() || to.empty()) return ENOENT;
    P src = walk(from, false, e);
    if(!src) return e;
    std::string lf, lt;
    P pf = parent_of(from, lf, e);
    P pt = parent_of(to, lt, e);
    if(!pf || !pt) return e ? e : ENOENT;
    auto it = pt->kids.find(lt);
    if(it != pt->kids.end()) {
        P t = it->second;
        if(t == src) return 0;
        if(t->kind == DIR_ && src->kind != DIR_) return EISDIR;
        if(t->kind != DIR_ && src->kind == DIR_) return ENOTDIR;
        if(t->kind == DIR_ && !t->kids.empty()) return ENOTEMPTY;
    } else if(!to.empty() && to.back() == '/' && src->kind != DIR_)
        return ENOTDIR;
    if(src->kind == DIR_) {
        std::function<bool(const P &)> below = [&](const P &n) {
            if(n == pt) return true;
            for(auto &[k, c] : n->kids)
                if(below(c)) return true;
            return false;
        };
        if(below(src)) return EINVAL;
    }
    pf->kids.erase(lf);
    pt->kids[lt] = src;
    return 0;
}
bool rename(const std::string &a, const std::string &b) {
    Host h;
    return do_rename(a, b) == 0;
}

// ---- handles -------------------------------------------------------------------------------
struct Open {
    P node;
    std::string path;
    int64_t pos = 0;
    bool rd = true, wr = false, app = false;
    FILE *file = nullptr;
    int fd = -1;
};
static std::map<int, Open *> *fds;
static std::unordered_map<FILE *, Open *> *files;
struct Map {
    uintptr_t a;
    size_t len;
    size_t blk;
};
static std::vector<Map> *maps;
struct SimDir {
    uint32_t magic;
    std::string *path;
    P *node;
    std::vector<std::string> *names;
    size_t pos;
    int fd;    // the descriptor it goes by, if anybody asked
    Open *own; // the descriptor it was made from
    dirent ent;
};
static std::set<SimDir *> *dirs;

Handles handles() {
    Host h;
    Handles r;
    for(auto &[k, v] : *fds)
        ++(v->file ? r.streams : r.descriptors);
    r.dirs = dirs->size();
    r.maps = maps->size();
    return r;
}
std::string open_handles() {
    Host h;
    std::string s;
    for(auto &[k, v] : *fds)
        s += fmt(" %s %s", v->file ? "stream" : "descriptor", v->path.c_str());
    for(auto *d : *dirs)
        s += " directory stream " + *d->path;
    for(auto &m : *maps)
        s += fmt(" mapping of %zu bytes", m.len);
    return s;
}
static void init() {
    root = new P(std::make_shared<Node>());
    (*root)->kind = DIR_;
    (*root)->ino = 1;
    fds = new std::map<int, Open *>;
    files = new std::unordered_map<FILE *, Open *>;
    maps = new std::vector<Map>;
    dirs = new std::set<SimDir *>;
    dev_count = new std::map<uint64_t, uint64_t>;
    add_dir("/w");
}
static void sys(const char *op, const char *path) {
    // Host scope already entered by the caller
    ++nsys;
    advance(1000 + (nsys * 7919) % 5000);
    log("sys %s %s", op, path ? path : "");
    if(g_cfg.crash && chance(FAULT, 1, g_cfg.den * 2)) {
        fault_fired("machine-stop");
        if(crash_cb) crash_cb(crash_ctx);
        finish_ok();
    }
    if(hook) hook(hook_ctx, op, path ? path : "");
}
static bool froll(bool on, const char *kind) {
    if(!on) return false;
    bool hit = false;
    if(g_cfg.fail_at >= 0) {
        hit = eligible++ == g_cfg.fail_at;
    } else
        hit = chance(FAULT, 1, g_cfg.den);
    if(hit) fault_fired(kind);
    return hit;
}
struct Err {
    int e;
    const char *n;
};
template<size_t N> static int eroll(bool on, const Err (&es)[N]) {
    if(!on) return 0;
    bool hit;
    if(g_cfg.fail_at >= 0)
        hit = eligible++ == g_cfg.fail_at;
    else
        hit = chance(FAULT, 1, g_cfg.den);
    if(!hit) return 0;
    auto &e = es[choose(FAULT, N)];
    fault_fired(e.n);
    return e.e;
}
static int new_fd() {
    int n = 3;
    while(fds->count(n))
        ++n;
    return n;
}
static Open *do_open(const char *path, int flags, int &err) {
    static const Err es[] = {{EACCES, "open:EACCES"}, {EMFILE, "open:EMFILE"}, {EIO, "open:EIO"}, {EINTR, "open:EINTR"}, {ENOMEM, "open:ENOMEM"}};
    if((err = eroll(g_cfg.open_err, es))) return nullptr;
    P n = walk(path, true, err);
    int acc = flags & O_ACCMODE;
    if(!n) {
        if(err != ENOENT || !(flags & O_CREAT)) return nullptr;
        std::string leaf;
        P d = parent_of(path, leaf, err);
        if(!d) return nullptr;
        n = std::make_shared<Node>();
        n->kind = REG;
        n->ino = ++next_ino;
        d->kids[leaf] = n;
    } else if((flags & O_CREAT) && (flags & O_EXCL)) {
        err = EEXIST;
        return nullptr;
    }
    if(n->kind == DIR_ && acc != O_RDONLY) {
        err = EISDIR;
        return nullptr;
    }
    if((flags & O_DIRECTORY) && n->kind != DIR_) {
        err = ENOTDIR;
        return nullptr;
    }
    if((flags & O_TRUNC) && acc != O_RDONLY && n->kind == REG) n->data.clear();
    auto *o = new Open;
    o->node = n;
    o->path = path;
    o->rd = acc != O_WRONLY;
    o->wr = acc != O_RDONLY;
    o->app = flags & O_APPEND;
    o->fd = new_fd();
    (*fds)[o->fd] = o;
    ++g_stats.opens;
    err = 0;
    return o;
}
static ssize_t do_read(Open *o, char *buf, size_t n, int64_t *pos, int &err) {
    err = 0;
    sys("read", o->path.c_str());
    ++g_stats.reads;
    if(!o->rd) {
        err = EBADF;
        return -1;
    }
    if(o->node->kind == DIR_) {
        err = EISDIR;
        return -1;
    }
    static const Err es[] = {{EIO, "read:EIO"}, {EINTR, "read:EINTR"}, {ENOMEM, "read:ENOMEM"}};
    if((err = eroll(g_cfg.read_err, es))) return -1;
    auto &d = o->node->data;
    size_t avail = (size_t)*pos < d.size() ? d.size() - (size_t)*pos : 0;
    size_t k = std::min(n, avail);
    if(k > 1 && froll(g_cfg.short_read, "read:short")) {
        k = 1 + choose(FAULT, (uint32_t)std::min<size_t>(k - 1, 1u << 20));
        ++g_stats.short_reads;
    }
    memcpy(buf, d.data() + *pos, k);
    if(k && froll(g_cfg.flip, "read:bit-flip")) {
        size_t at = choose(FAULT, (uint32_t)k);
        buf[at] ^= (char)(1u << choose(FAULT, 8));
    }
    *pos += k;
    g_stats.bytes += k;
    return k;
}
static int do_seek(Open *o, int64_t *off, int wh) {
    sys("seek", o->path.c_str());
    static const Err es[] = {{EIO, "seek:EIO"}, {EINVAL, "seek:EINVAL"}};
    if(int e = eroll(g_cfg.seek_err, es)) return e;
    if(o->node->kind == FIFO) return ESPIPE;
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (int64_t)o->node->data.size();
    if(o->node->kind == DIR_ && wh == SEEK_END) {
        static const int64_t ends[] = {0, 4096, INT64_MAX};
        base = ends[choose(FAULT, 3)];
        if(base) fault_fired("seek:directory-size");
    }
    if(base + *off < 0) return EINVAL;
    o->pos = base + *off;
    *off = o->pos;
    return 0;
}
static void do_close(Open *o) {
    fds->erase(o->fd);
    if(o->file) files->erase(o->file);
    ++g_stats.closes;
    delete o;
}
static ssize_t ck_read(void *c, char *buf, size_t n) {
    Host h;
    int e;
    auto *o = (Open *)c;
    ssize_t r = do_read(o, buf, n, &o->pos, e);
    if(r < 0) errno = e;
    return r;
}
static ssize_t ck_write(void *c, const char *buf, size_t n) {
    Host h;
    auto *o = (Open *)c;
    sys("write", o->path.c_str());
    if(!o->wr) {
        errno = EBADF;
        return 0;
    }
    auto &d = o->node->data;
    if(o->app) o->pos = d.size();
    if(d.size() < o->pos + n) d.resize(o->pos + n);
    memcpy(d.data() + o->pos, buf, n);
    o->pos += n;
    return n;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    Host h;
    int64_t o = *off;
    int e = do_seek((Open *)c, &o, wh);
    if(e) {
        errno = e;
        return -1;
    }
    *off = o;
    return 0;
}
static int ck_close(void *c) {
    Host h;
    auto *o = (Open *)c;
    sys("close", o->path.c_str());
    do_close(o);
    if(froll(g_cfg.close_err, "close:EIO")) {
        errno = EIO;
        return -1;
    }
    return 0;
}
static int mode_flags(const char *m) {
    bool plus = strchr(m, '+');
    switch(m[0]) {
    case 'r': return plus ? O_RDWR : O_RDONLY;
    case 'w': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    case 'a': return (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    }
    return -1;
}
static FILE *stream(Open *o, const char *mode) {
    cookie_io_functions_t f{ck_read, ck_write, ck_seek, ck_close};
    o->file = fopencookie(o, mode, f);
    (*files)[o->file] = o;
    return o->file;
}
static void fill_stat(const P &n, struct stat *sb) {
    memset(sb, 0, sizeof *sb);
    static const mode_t m[] = {0, S_IFREG | 0644, S_IFDIR | 0755, S_IFIFO | 0644, S_IFLNK | 0777};
    sb->st_mode = m[n->kind];
    sb->st_ino = n->on_dev ? n->on_dev : n->ino;
    sb->st_dev = n->dev;
    sb->st_nlink = 1;
    sb->st_size = n->kind == REG || n->kind == LINK ? (off_t)n->data.size() : n->kind == DIR_ ? 4096 : 0;
    sb->st_blksize = 4096;
    sb->st_blocks = (sb->st_size + 511) / 512;
}
static int do_stat(const char *path, struct stat *sb, bool follow) {
    check_range(path, 1, false, 0);
    Host h;
    sys(follow ? "stat" : "lstat", path);
    static const Err es[] = {{EACCES, "stat:EACCES"}, {EIO, "stat:EIO"}};
    if(int e = eroll(g_cfg.stat_err, es)) {
        errno = e;
        return -1;
    }
    int e;
    P n = walk(path, follow, e);
    if(!n) {
        errno = e;
        return -1;
    }
    fill_stat(n, sb);
    return 0;
}
static SimDir *dir_open(P n, const char *path) {
    auto *d = (SimDir *)heap_alloc(sizeof(SimDir));
    d->magic = 0xd1d1d1d1;
    d->path = new std::string(path);
    d->node = new P(n);
    d->names = new std::vector<std::string>{".", ".."};
    for(auto &[k, v] : n->kids)
        d->names->push_back(k);
    // directory order is whatever the file system likes
    for(size_t i = d->names->size(); i > 1; --i)
        std::swap((*d->names)[i - 1], (*d->names)[i - 1 - choose(SCHED, (uint32_t)i)]);
    d->pos = 0;
    d->fd = -1;
    d->own = nullptr;
    dirs->insert(d);
    ++g_stats.dirs;
    return d;
}
static SimDir *valid_dir(void *p, const char *what) {
    auto *d = (SimDir *)p;
    if(!dirs->count(d)) fail("bad-directory-stream", "%s on a directory stream that is not open", what);
    return d;
}
static Open *fd_of(int fd, const char *what) {
    auto it = fds->find(fd);
    if(it == fds->end()) {
        log("%s on descriptor %d that is not open", what, fd);
        return nullptr;
    }
    return it->second;
}
} // namespace fs
void fs_init() { fs::init(); }
} // namespace sim

using namespace sim;
using namespace sim::fs;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
FILE *sim_fopen(const char *path, const char *mode) {
    if(!tl_sut) return fopen(path, mode);
    sched_sync_point("fopen", PC);
    Host h;
    sys("open", path);
    int fl = mode_flags(mode);
    if(fl < 0) {
        errno = EINVAL;
        return nullptr;
    }
    int e;
    Open *o = do_open(path, fl, e);
    if(!o) {
        errno = e;
        return nullptr;
    }
    return stream(o, mode);
}
FILE *sim_fdopen(int fd, const char *mode) {
    Host h;
    auto *o = fd_of(fd, "fdopen");
    if(!o) {
        errno = EBADF;
        return nullptr;
    }
    return stream(o, mode);
}
int sim_fclose(FILE *f) {
    if(!f) {
        note_pc(PC);
        fail("crash-null-stream", "fclose of a null stream");
    }
    Host h;
    if(!files->count(f)) {
        if(!h.prev) return fclose(f);
        fail("double-close", "fclose of a stream that is not open");
    }
    return fclose(f);
}
static void fchk(FILE *f, const char *what, uintptr_t pc) {
    if(!tl_sut) return;
    note_pc(pc);
    if(!f) fail("crash-null-stream", "%s on a null stream", what);
    if(!files->count(f)) fail("use-after-close", "%s on a stream that is not open", what);
}
size_t sim_fread(void *p, size_t s, size_t n, FILE *f) {
    fchk(f, "fread", PC);
    if(tl_sut && s * n && heap_owns(p)) check_range(p, s * n, true, PC);
    return fread(p, s, n, f);
}
char *sim_fgets(char *p, int n, FILE *f) {
    fchk(f, "fgets", PC);
    if(tl_sut && n > 0 && heap_owns(p)) check_range(p, n, true, PC);
    return fgets(p, n, f);
}
int sim_fgetc(FILE *f) {
    fchk(f, "fgetc", PC);
    return fgetc(f);
}
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim_ungetc(int c, FILE *f) { return ungetc(c, f); }
ssize_t sim_getdelim(char **lp, size_t *np, int delim, FILE *f) {
    fchk(f, "getdelim", PC);
    char *l = nullptr;
    size_t n = 0;
    ssize_t r;
    {
        Host h;
        tl_sut = h.prev; // faults inside still count for this operation
        r = getdelim(&l, &n, delim, f);
    }
    if(r >= 0) {
        void *sim_realloc(void *, size_t);
        if(!*lp || *np < (size_t)r + 1) {
            char *q = (char *)sim_realloc(*lp, r + 1);
            if(!q) {
                free(l);
                errno = ENOMEM;
                return -1;
            }
            *lp = q;
            *np = r + 1;
        }
        memcpy(*lp, l, r + 1);
    }
    free(l);
    return r;
}
ssize_t sim_getline(char **lp, size_t *np, FILE *f) { return sim_getdelim(lp, np, '\n', f); }
int sim_fseek(FILE *f, long o, int w) {
    fchk(f, "fseek", PC);
    return fseek(f, o, w);
}
int sim_fseeko(FILE *f, off_t o, int w) { return sim_fseek(f, o, w); }
long sim_ftell(FILE *f) {
    fchk(f, "ftell", PC);
    return ftell(f);
}
off_t sim_ftello(FILE *f) { return sim_ftell(f); }
void sim_rewind(FILE *f) {
    fchk(f, "rewind", PC);
    rewind(f);
}
int sim_feof(FILE *f) {
    fchk(f, "feof", PC);
    return feof(f);
}
int sim_ferror(FILE *f) {
    fchk(f, "ferror", PC);
    return ferror(f);
}
void sim_clearerr(FILE *f) {
    fchk(f, "clearerr", PC);
    clearerr(f);
}
void sim_output_to(FILE *f, const void *p, size_t n);
int sim_putchar(int c);
int sim_fflush(FILE *f) { return f && files->count(f) ? fflush(f) : 0; }
size_t sim_fwrite(const void *p, size_t s, size_t n, FILE *f) {
    if(!files->count(f)) {
        if(f == stdout || f == stderr) sim_output_to(f, p, s * n);
        return n;
    }
    check_range(p, s * n, false, PC);
    return fwrite(p, s, n, f);
}
int sim_fputs(const char *p, FILE *f) {
    if(f == stdout || f == stderr) sim_output_to(f, p, strlen(p));
    return files->count(f) ? fputs(p, f) : 0;
}
int sim_fputc(int c, FILE *f) {
    if(f == stdout || f == stderr) {
        char x = (char)c;
        sim_output_to(f, &x, 1);
    }
    return files->count(f) ? fputc(c, f) : c;
}
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_fileno(FILE *f) {
    auto it = files->find(f);
    if(it == files->end()) return fileno(f);
    return it->second->fd;
}
int sim_setvbuf(FILE *f, char *b, int m, size_t n) {
    fchk(f, "setvbuf", PC);
    return setvbuf(f, b, m, n);
}
int sim_open(const char *path, int flags, ...) {
    sched_sync_point("open", PC);
    Host h;
    sys("open", path);
    int e;
    Open *o = do_open(path, flags, e);
    if(!o) {
        errno = e;
        return -1;
    }
    return o->fd;
}
int sim_close(int fd) {
    Host h;
    auto *o = fd_of(fd, "close");
    if(!o) fail("double-close", "close of descriptor %d that is not open", fd);
    sys("close", o->path.c_str());
    do_close(o);
    if(froll(g_cfg.close_err, "close:EIO")) {
        errno = EIO;
        return -1;
    }
    return 0;
}
ssize_t sim_read(int fd, void *p, size_t n) {
    if(n && heap_owns(p)) check_range(p, n, true, PC);
    Host h;
    auto *o = fd_of(fd, "read");
    int e = EBADF;
    ssize_t r = o ? do_read(o, (char *)p, n, &o->pos, e) : -1;
    if(r < 0) errno = e;
    return r;
}
ssize_t sim_pread(int fd, void *p, size_t n, off_t off) {
    if(n && heap_owns(p)) check_range(p, n, true, PC);
    Host h;
    auto *o = fd_of(fd, "pread");
    int e = EBADF;
    int64_t pos = off;
    ssize_t r = o ? do_read(o, (char *)p, n, &pos, e) : -1;
    if(r < 0) errno = e;
    return r;
}
off_t sim_lseek(int fd, off_t off, int wh) {
    Host h;
    auto *o = fd_of(fd, "lseek");
    int64_t p = off;
    int e = o ? do_seek(o, &p, wh) : EBADF;
    if(e) {
        errno = e;
        return -1;
    }
    return p;
}
int sim_stat(const char *p, struct stat *sb) { return do_stat(p, sb, true); }
int sim_lstat(const char *p, struct stat *sb) { return do_stat(p, sb, false); }
int sim_fstat(int fd, struct stat *sb) {
    Host h;
    auto *o = fd_of(fd, "fstat");
    if(!o) {
        errno = EBADF;
        return -1;
    }
    sys("fstat", o->path.c_str());
    static const Err es[] = {{EIO, "fstat:EIO"}};
    if(int e = eroll(g_cfg.stat_err, es)) {
        errno = e;
        return -1;
    }
    fill_stat(o->node, sb);
    return 0;
}
int sim_access(const char *p, int) {
    struct stat sb;
    return do_stat(p, &sb, true);
}
static std::string below(int at, const char *p);
int sim_fstatat(int at, const char *p, struct stat *sb, int fl) {
    Host h;
    std::string n = below(at, p);
    tl_sut = h.prev;
    return do_stat(n.c_str(), sb, !(fl & AT_SYMLINK_NOFOLLOW));
}
void *sim_mmap(void *, size_t len, int prot, int flags, int fd, off_t off) {
    Host h;
    if(flags & MAP_ANONYMOUS) return heap_alloc((len + 4095) & ~4095ull, 4096);
    auto *o = fd_of(fd, "mmap");
    sys("mmap", o ? o->path.c_str() : "?");
    int e = 0;
    static const Err es[] = {{ENOMEM, "mmap:ENOMEM"}, {ENODEV, "mmap:ENODEV"}, {EAGAIN, "mmap:EAGAIN"}};
    if(!o) e = EBADF;
    else if(len == 0) e = EINVAL;
    else if(o->node->kind != REG) e = ENODEV;
    else if(len > (1ull << 40)) e = ENOMEM;
    else e = eroll(g_cfg.map_err, es);
    if(e) {
        errno = e;
        return MAP_FAILED;
    }
    (void)prot;
    size_t sz = o->node->data.size();
    size_t start = std::min<size_t>(off, sz);
    size_t pages = (std::min(len, sz - start) + 4095) & ~4095ull;
    if(pages == 0) pages = 0;
    void *p = heap_alloc(pages ? pages : 1, 4096);
    if(!p) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    memset(p, 0, pages);
    memcpy(p, o->node->data.data() + start, std::min(pages, sz - start));
    maps->push_back({(uintptr_t)p, len, pages});
    ++g_stats.maps;
    return p;
}
int sim_munmap(void *p, size_t len) {
    Host h;
    note_pc(PC);
    sys("munmap", nullptr);
    for(size_t i = 0; i < maps->size(); ++i)
        if((*maps)[i].a == (uintptr_t)p) {
            auto r = [](size_t x) { return (x + 4095) & ~4095ull; };
            if(r((*maps)[i].len) != r(len))
                fail("unmap-wrong-length", "a mapping of %zu bytes is unmapped with length %zu", (*maps)[i].len, len);
            maps->erase(maps->begin() + i);
            heap_free(p);
            ++g_stats.unmaps;
            return 0;
        }
    fail("double-unmap", "munmap of an address where nothing is mapped");
}
int sim_rename(const char *a, const char *b) {
    sched_sync_point("rename", PC);
    Host h;
    sys("rename", a);
    static const Err es[] = {{EXDEV, "rename:EXDEV"}, {EACCES, "rename:EACCES"}, {ENOSPC, "rename:ENOSPC"}, {EIO, "rename:EIO"}, {EBUSY, "rename:EBUSY"}};
    int e = eroll(g_cfg.rename_err, es);
    if(!e) e = do_rename(a, b);
    if(e) {
        errno = e;
        return -1;
    }
    return 0;
}
int sim_unlink(const char *p) {
    Host h;
    sys("unlink", p);
    int e;
    P n = walk(p, false, e);
    if(!n || n->kind == DIR_) {
        errno = n ? EISDIR : e;
        return -1;
    }
    fs::remove(p);
    return 0;
}
int sim_rmdir(const char *p) {
    Host h;
    sys("rmdir", p);
    int e;
    P n = walk(p, false, e);
    if(!n || n->kind != DIR_ || !n->kids.empty()) {
        errno = !n ? e : n->kind != DIR_ ? ENOTDIR : ENOTEMPTY;
        return -1;
    }
    fs::remove(p);
    return 0;
}
int sim_remove(const char *p) {
    bool dir;
    {
        Host h;
        dir = kind(p, false) == DIR_;
    }
    return dir ? sim_rmdir(p) : sim_unlink(p);
}
int sim_truncate(const char *p, off_t len) {
    Host h;
    sys("truncate", p);
    int e;
    P n = walk(p, true, e);
    if(!n || n->kind != REG) {
        errno = n ? EINVAL : e;
        return -1;
    }
    n->data.resize(len);
    return 0;
}
int sim_link(const char *a, const char *b) {
    Host h;
    sys("link", a);
    int e;
    P n = walk(a, false, e);
    std::string leaf;
    P d = n ? parent_of(b, leaf, e) : nullptr;
    if(d && d->kids.count(leaf)) e = EEXIST;
    if(!d || d->kids.count(leaf)) {
        errno = e;
        return -1;
    }
    d->kids[leaf] = n;
    return 0;
}
int sim_mkdir(const char *p, mode_t) {
    Host h;
    sys("mkdir", p);
    if(kind(p) != NONE) {
        errno = EEXIST;
        return -1;
    }
    add_dir(p);
    return 0;
}
void *sim_opendir(const char *path) {
    sched_sync_point("opendir", PC);
    if(heap_owns(path)) check_range(path, 1, false, PC);
    Host h;
    sys("opendir", path);
    static const Err es[] = {{EACCES, "opendir:EACCES"}, {EMFILE, "opendir:EMFILE"}, {EIO, "opendir:EIO"}};
    int e = eroll(g_cfg.opendir_err, es);
    P n;
    if(!e) n = walk(path, true, e);
    if(n && n->kind != DIR_) {
        e = ENOTDIR;
        n = nullptr;
    }
    if(!n) {
        errno = e;
        return nullptr;
    }
    return dir_open(n, path);
}
dirent *sim_readdir(void *p) {
    sched_sync_point("readdir", PC);
    Host h;
    note_pc(PC);
    SimDir *d = valid_dir(p, "readdir");
    sys("readdir", d->path->c_str());
    if(froll(g_cfg.readdir_err, "readdir:EIO")) {
        d->pos = d->names->size();
        errno = EIO;
        return nullptr;
    }
    while(d->pos < d->names->size()) {
        std::string n = (*d->names)[d->pos++];
        Kind k = DIR_;
        uint64_t ino = 1;
        if(n != "." && n != "..") {
            auto it = (*d->node)->kids.find(n);
            if(it == (*d->node)->kids.end()) continue; // deleted meanwhile
            k = it->second->kind;
            ino = it->second->on_dev > 2 ? it->second->on_dev : it->second->ino;
        }
        memset(&d->ent, 0xCC, sizeof d->ent);
        d->ent.d_ino = ino;
        d->ent.d_off = d->pos;
        d->ent.d_reclen = sizeof(dirent);
        static const unsigned char t[] = {DT_UNKNOWN, DT_REG, DT_DIR, DT_FIFO, DT_LNK};
        d->ent.d_type = t[k];
        if(g_cfg.no_dtype && chance(FAULT, 1, 2)) {
            d->ent.d_type = DT_UNKNOWN;
            fault_fired("readdir:DT_UNKNOWN");
        }
        strncpy(d->ent.d_name, n.c_str(), sizeof d->ent.d_name - 1);
        d->ent.d_name[n.size()] = 0;
        return &d->ent;
    }
    return nullptr;
}
int sim_closedir(void *p) {
    Host h;
    note_pc(PC);
    SimDir *d = valid_dir(p, "closedir");
    sys("closedir", d->path->c_str());
    dirs->erase(d);
    if(d->own) do_close(d->own);
    delete d->path;
    delete d->node;
    delete d->names;
    d->magic = 0;
    heap_free(d);
    return 0;
}
void sim_rewinddir(void *p) { valid_dir(p, "rewinddir")->pos = 0; }
// Calls the library does not make today, but may make one day.
ssize_t sim_write(int fd, const void *p, size_t n) {
    if(fd == 1 || fd == 2) {
        sim_output_to(fd == 1 ? stdout : stderr, p, n);
        return n;
    }
    if(n && heap_owns(p)) check_range(p, n, false, PC);
    Host h;
    auto *o = fd_of(fd, "write");
    if(!o) {
        errno = EBADF;
        return -1;
    }
    ssize_t r = ck_write(o, (const char *)p, n);
    return r ? r : n ? -1 : 0;
}
int sim_ftruncate(int fd, off_t n) {
    Host h;
    auto *o = fd_of(fd, "ftruncate");
    if(!o || !o->wr) {
        errno = EBADF;
        return -1;
    }
    sys("ftruncate", o->path.c_str());
    o->node->data.resize(n);
    return 0;
}
int sim_fsync(int fd) {
    Host h;
    auto *o = fd_of(fd, "fsync");
    if(!o) {
        errno = EBADF;
        return -1;
    }
    sys("fsync", o->path.c_str());
    return 0;
}
int sim_fdatasync(int) __attribute__((alias("sim_fsync")));
// the path a name below a directory descriptor stands for
static std::string below(int at, const char *p) {
    if(at == AT_FDCWD || *p == '/') return p;
    for(auto *d : *dirs)
        if(d->fd == at) return *d->path + "/" + p;
    Host h;
    auto *o = fd_of(at, "a call with a directory");
    return o ? o->path + "/" + p : "/no/such/descriptor";
}
int sim_openat(int at, const char *path, int flags, ...) {
    Host h;
    std::string p = below(at, path);
    tl_sut = h.prev;
    return sim_open(p.c_str(), flags);
}
int sim_renameat(int a, const char *from, int b, const char *to) {
    Host h;
    std::string f = below(a, from), t = below(b, to);
    tl_sut = h.prev;
    return sim_rename(f.c_str(), t.c_str());
}
int sim_renameat2(int a, const char *from, int b, const char *to, unsigned flags) {
    if(flags) {
        errno = EINVAL; // as on file systems that know no flags
        return -1;
    }
    return sim_renameat(a, from, b, to);
}
int sim_unlinkat(int a, const char *p, int fl) {
    Host h;
    return fl & AT_REMOVEDIR ? sim_rmdir(below(a, p).c_str()) : sim_unlink(below(a, p).c_str());
}
int sim_linkat(int a, const char *f, int b, const char *t, int) {
    Host h;
    return sim_link(below(a, f).c_str(), below(b, t).c_str());
}
int sim_faccessat(int a, const char *p, int, int) {
    struct stat sb;
    Host h;
    std::string n = below(a, p);
    tl_sut = h.prev;
    return do_stat(n.c_str(), &sb, true);
}
ssize_t sim_readlink(const char *p, char *b, size_t n) {
    Host h;
    sys("readlink", p);
    int e = 0;
    P l = walk(p, false, e);
    if(!l || l->kind != LINK) {
        errno = l ? EINVAL : e;
        return -1;
    }
    n = std::min(n, l->data.size());
    memcpy(b, l->data.data(), n);
    return n;
}
// Where a path leads to without links, empty if it leads nowhere.
static std::string real_place(const std::string &path, int &e, int depth = 0) {
    if(depth > 8) {
        e = ELOOP;
        return "";
    }
    if(!walk(path, true, e)) return "";
    std::string at;
    for(auto &c : split(path)) {
        if(c == "..") {
            at = at.substr(0, at.empty() ? 0 : at.rfind('/'));
            continue;
        }
        P n = walk(at + "/" + c, false, e);
        if(n && n->kind == LINK) {
            at = real_place(n->data[0] == '/' ? n->data : at + "/" + n->data, e, depth + 1);
            if(at.empty()) return "";
            if(at == "/") at = "";
        } else
            at += "/" + c;
    }
    return at.empty() ? "/" : at;
}
char *sim_realpath(const char *p, char *out) {
    void *sim_malloc(size_t);
    std::string *r;
    {
        Host h;
        sys("realpath", p);
        int e = 0;
        r = new std::string(real_place(p, e));
        if(r->empty()) errno = e;
    }
    if(!r->empty() && !out && !(out = (char *)sim_malloc(4096))) errno = ENOMEM;
    char *got = r->empty() ? nullptr : out;
    Host h;
    if(got) strcpy(got, r->c_str());
    delete r;
    return got;
}
int sim_symlink(const char *to, const char *p) {
    Host h;
    sys("symlink", p);
    if(kind(p, false) != NONE) {
        errno = EEXIST;
        return -1;
    }
    add_link(p, to);
    return 0;
}
void *sim_fdopendir(int fd) {
    Host h;
    auto *o = fd_of(fd, "fdopendir");
    if(!o || o->node->kind != DIR_) {
        errno = o ? ENOTDIR : EBADF;
        return nullptr;
    }
    auto *d = dir_open(o->node, o->path.c_str());
    d->fd = fd;
    d->own = o;
    return d;
}
int sim_dirfd(void *p) {
    static int next = 900000;
    Host h;
    auto *d = valid_dir(p, "dirfd");
    if(d->fd < 0) d->fd = next++;
    return d->fd;
}
int sim_fcntl(int fd, int cmd, ...) {
    Host h;
    Open *o = fd_of(fd, "fcntl");
    if(!o) {
        errno = EBADF;
        return -1;
    }
    if(cmd == F_GETFL) return o->wr ? o->rd ? O_RDWR : O_WRONLY : O_RDONLY;
    if(cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) {
        errno = EINVAL;
        return -1;
    }
    return 0;
}
int sim_scandir(const char *path, dirent ***out, int (*want)(const dirent *), int (*order)(const dirent **, const dirent **)) {
    void *sim_malloc(size_t);
    void *sim_realloc(void *, size_t);
    void sim_free(void *);
    void *d = sim_opendir(path);
    if(!d) return -1;
    dirent **v = nullptr;
    int n = 0, e = 0;
    errno = 0;
    while(dirent *x = sim_readdir(d)) {
        if(want && !want(x)) continue;
        auto **w = (dirent **)sim_realloc(v, (n + 1) * sizeof(dirent *));
        if(w) v = w;
        if(!w || !(v[n] = (dirent *)sim_malloc(sizeof(dirent)))) {
            errno = ENOMEM;
            break;
        }
        memcpy(v[n++], x, sizeof(dirent));
        errno = 0;
    }
    e = errno;
    sim_closedir(d);
    if(e) {
        while(n) sim_free(v[--n]);
        sim_free(v);
        errno = e;
        return -1;
    }
    for(int i = 1; order && i < n; ++i)
        for(int j = i; j > 0 && order((const dirent **)v + j - 1, (const dirent **)v + j) > 0; --j) std::swap(v[j - 1], v[j]);
    if(!v) v = (dirent **)sim_malloc(1);
    *out = v;
    return n;
}
void sim_perror(const char *) {}
char *sim_getcwd(char *b, size_t n) {
    strncpy(b, fs::cwd, n);
    return b;
}
}
