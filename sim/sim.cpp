#include "sim.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <iostream>
#include <new>
#include <pthread.h>
#include <sstream>
#include <semaphore.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <typeinfo>
#include <unistd.h>
#include "shared.h"

extern "C" {
FILE *__real_fopen(const char *, const char *);
int __real_fclose(FILE *);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void __real_exit(int) __attribute__((noreturn));
void __real_abort() __attribute__((noreturn));
int __real_open(const char *, int, ...); int __real_close(int);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
ssize_t __real_writev(int, const struct iovec *, int);
off_t __real_lseek(int, off_t, int);
int __real_fileno(FILE *);
int __real_remove(const char *); int __real_rename(const char *, const char *); int __real_unlink(const char *);
int __real_fsync(int); int __real_fstat(int, struct stat *); int __real_stat(const char *, struct stat *); int __real_access(const char *, int);
time_t __real_time(time_t *); int __real_gettimeofday(struct timeval *, void *); int __real_clock_gettime(clockid_t, struct timespec *);
int __real_rand(); void __real_srand(unsigned);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real___cxa_guard_acquire(u_int64_t *); void __real___cxa_guard_release(u_int64_t *); void __real___cxa_guard_abort(u_int64_t *);
void *__real___cxa_allocate_exception(size_t); void __real___cxa_free_exception(void *);
}

namespace sim {

u64 mix(u64 a, u64 b) { u64 z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
u64 hash_str(const std::string &s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
std::string fmt(const char *f, ...) { char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

// ---------------------------------------------------------------- plan
std::string Plan::text() const {
    std::ostringstream o; o << "property " << prop << "\nseed " << seed << "\n";
    for (auto &i : items) { o << "item " << i.k; for (auto v : i.a) o << " " << v; o << "\n"; }
    o << "end\n"; return o.str();
}
bool Plan::parse(const std::string &t, Plan &p) {
    std::istringstream in(t); std::string line; bool ended = false;
    while (std::getline(in, line)) {
        std::istringstream l(line); std::string w; if (!(l >> w)) continue;
        if (w[0] == '#') continue;
        if (w == "property") l >> p.prop; else if (w == "seed") l >> p.seed;
        else if (w == "item") { Item it; l >> it.k; i64 v; while (l >> v) it.a.push_back(v); p.items.push_back(it); }
        else if (w == "end") ended = true;
    }
    return ended;
}
i64 Plan::cfg(const std::string &k, i64 d) const { i64 r = d; for (auto &i : items) if (i.k == k && !i.a.empty()) r = i.a[0]; return r; }
const Item *Plan::find(const std::string &k) const { for (auto &i : items) if (i.k == k) return &i; return nullptr; }
std::vector<const Item *> Plan::all(const std::string &k) const { std::vector<const Item *> r; for (auto &i : items) if (i.k == k) r.push_back(&i); return r; }

// ---------------------------------------------------------------- accounting
bool g_verbose = false;
static thread_local int t_incode = 0;
Harness::Harness() : saved(t_incode) { t_incode = 0; }
Harness::~Harness() { t_incode = saved; }
static std::map<std::string, u64> g_counters;
void count(const char *name, u64 n) { Harness h; g_counters[name] += n; }
std::map<std::string, u64> &counters() { return g_counters; }
void trace(u64 v) { RunState *r = run_state(); r->hash = mix(r->hash, v); r->ntrace++; }
void trace_s(const std::string &s) { trace(hash_str(s)); }
void note(const std::string &s) { trace_s(s); if (g_verbose) { Harness h; fprintf(stderr, "  [%llu] %s\n", (unsigned long long) total_events(), s.c_str()); } }
static Violation g_violation;
Violation &violation() { return g_violation; }
void fail(const std::string &cls, const std::string &msg) { g_violation.cls = cls; g_violation.msg = msg; throw Violated(); }
void check(bool ok, const char *cls, const std::string &msg) { if (!ok) fail(cls, msg); }
void sim_time(double s) { run_state()->simtime += s; }
void nontrivial() { run_state()->nontrivial = 1; }

// ---------------------------------------------------------------- allocator
static AllocCtl g_alloc; AllocCtl &alloc() { return g_alloc; }
enum Kind : unsigned char { K_MALLOC = 1, K_NEW, K_NEWA };
static const char *kname[] = {"?", "malloc", "new", "new[]"};
struct Blk { void *p; size_t n; Kind k; u32 seq; };
static Blk *g_tab = nullptr; static size_t g_cap = 0, g_used = 0, g_livecnt = 0; static u64 g_livebytes = 0;
static void *const TOMB = (void *) 1;
static size_t hp(void *p) { return (size_t) mix((u64) p, 7); }
static void tab_put(void *p, size_t n, Kind k);
static void tab_grow() {
    Blk *o = g_tab; size_t oc = g_cap; g_cap = g_cap ? g_cap * 2 : 1024;
    g_tab = (Blk *) __real_calloc(g_cap, sizeof(Blk)); g_used = 0; g_livecnt = 0;
    for (size_t i = 0; i < oc; i++) if (o[i].p && o[i].p != TOMB) { size_t h = hp(o[i].p) & (g_cap - 1); while (g_tab[h].p) h = (h + 1) & (g_cap - 1); g_tab[h] = o[i]; g_used++; g_livecnt++; }
    if (o) __real_free(o);
}
static u32 g_seq = 0;
static void tab_put(void *p, size_t n, Kind k) {
    if ((g_used + 1) * 2 > g_cap) tab_grow();
    size_t h = hp(p) & (g_cap - 1);
    while (g_tab[h].p && g_tab[h].p != TOMB) h = (h + 1) & (g_cap - 1);
    if (!g_tab[h].p) g_used++;
    g_tab[h] = Blk{p, n, k, ++g_seq}; g_livecnt++; g_livebytes += n;
}
static Blk *tab_get(void *p) {
    if (!g_cap) return nullptr;
    size_t h = hp(p) & (g_cap - 1);
    while (g_tab[h].p) { if (g_tab[h].p == p) return &g_tab[h]; h = (h + 1) & (g_cap - 1); }
    return nullptr;
}
static void tab_del(Blk *b) { g_livebytes -= b->n; b->p = TOMB; g_livecnt--; }
i64 live_blocks() { return (i64) g_livecnt; }
bool is_live(const void *p) { return tab_get((void *) p) != nullptr; }
size_t live_size(const void *p) { Blk *b = tab_get((void *) p); return b ? b->n : 0; }
std::string live_report() {
    std::ostringstream o; std::vector<Blk> v; for (size_t i = 0; i < g_cap; i++) if (g_tab[i].p && g_tab[i].p != TOMB) v.push_back(g_tab[i]);
    for (size_t i = 0; i < v.size() && i < 8; i++) o << v[i].n << " bytes by " << kname[v[i].k] << "; ";
    o << v.size() << " block(s)"; return o.str();
}
std::vector<Range> live_ranges() { std::vector<Range> v; for (size_t i = 0; i < g_cap; i++) if (g_tab[i].p && g_tab[i].p != TOMB) v.push_back(Range{(const char *) g_tab[i].p, (const char *) g_tab[i].p + g_tab[i].n, (int) g_tab[i].seq}); return v; }
extern "C" char __data_start[], _end[];
Range global_range() { return Range{__data_start, _end, 0}; }
void forget_blocks() { for (size_t i = 0; i < g_cap; i++) g_tab[i].p = nullptr; g_used = g_livecnt = 0; g_livebytes = 0; }
static std::vector<std::string> g_memerr;
void mem_error(const std::string &s) { Harness h; g_memerr.push_back(s); }
std::vector<std::string> take_mem_errors() { std::vector<std::string> r; r.swap(g_memerr); return r; }

static void *code_alloc(size_t n, Kind k, bool zero) {
    int s = t_incode; t_incode = 0;
    void *p = nullptr; bool bad = false;
    g_alloc.counted++;
    if (g_alloc.fail_at >= 0 && (g_alloc.counted == g_alloc.fail_at || (g_alloc.fail_sticky && g_alloc.counted > g_alloc.fail_at))) { bad = true; g_alloc.failed++; count("fault.alloc_fail"); note(fmt("allocation #%lld of %zu bytes fails", (long long) g_alloc.counted, n)); }
    else if (n > g_alloc.limit_one || g_livebytes + n > 4 * g_alloc.limit_one) { bad = true; g_alloc.limit_hits++; count("fault.alloc_limit"); }
    if (!bad) {
        p = __real_malloc(n ? n : 1);
        if (p) { memset(p, zero ? 0 : g_alloc.fill, n ? n : 1); tab_put(p, n, k); }
    }
    if (!p) errno = ENOMEM;
    t_incode = s;
    return p;
}
static void code_free(void *p, Kind k) {
    if (!p) return;
    Blk *b = tab_get(p);
    if (!b) { __real_free(p); return; }
    if (b->k != k) { int s = t_incode; t_incode = 0; mem_error(fmt("block of %zu bytes allocated by %s released by %s", b->n, kname[b->k], k == K_MALLOC ? "free" : k == K_NEW ? "delete" : "delete[]")); t_incode = s; }
    tab_del(b); __real_free(p);
}

// ---------------------------------------------------------------- console
static std::string g_out, g_err;
std::string &con_out() { return g_out; } std::string &con_err() { return g_err; }
struct CapBuf : std::streambuf {
    std::string *d; explicit CapBuf(std::string *x) : d(x) {}
    int overflow(int c) override { if (c != EOF) { Harness h; if (d->size() < 200000) d->push_back((char) c); } return c; }
    std::streamsize xsputn(const char *s, std::streamsize n) override { Harness h; if (d->size() < 200000) d->append(s, n); return n; }
};
void init_console() {
    // warm up the locale caches of the streams so that they do not look like leaks
    std::ostringstream o; o << 1 << 1u << 1l << 1ul << 1.5f << 2.5 << (void *) &o << true << 'c' << std::endl;
    static CapBuf bo(&g_out), be(&g_err);
    std::cout.rdbuf(&bo); std::cerr.rdbuf(&be); std::clog.rdbuf(&be);
    std::cout << 1 << 1u << 1l << 1ul << 1.5f << 2.5 << (void *) &o << true << 'c' << std::endl;
    std::cerr << 1 << 1u << 1l << 1ul << 1.5f << 2.5 << (void *) &o << true << 'c' << std::endl;
    g_out.clear(); g_err.clear();
}

// ---------------------------------------------------------------- storage
static Disk g_disk; Disk &disk() { return g_disk; }
struct Stream {
    std::string path; bool r, w, app; i64 pos = 0; StreamFault f; Rng rng; std::string buf; FILE *fp = nullptr; bool err = false; bool eio_used = false; bool is_fd = false; int fdno = -1; i64 high = 0;
};
static std::map<FILE *, Stream *> g_open; static std::map<int, Stream *> g_fd; static std::set<FILE *> g_closed; static int g_nextfd = 100000;
static std::vector<FILE *> g_zombies;
void Disk::reset() { files.clear(); faults.clear(); opens = 0; opened_w.clear(); }
int open_handles() { int n = (int) g_open.size(); for (auto &x : g_fd) if (x.second->is_fd) n++; return n; }
static jmp_buf *cur_jmp();
[[noreturn]] static void leave(int code);
static const int CODE_KILLED = 0x10001, CODE_ABORT = 0x10002;

static i64 max_chunk(Stream *s, i64 n) {
    if (s->f.chunk > 0) { i64 c = s->f.chunk; if (s->f.chunk_seed) c = 1 + (i64) s->rng.below(c); if (c < n) { n = c; count("fault.short_io"); } }
    return n;
}
static ssize_t sim_read(Stream *s, char *buf, size_t n) {
    if (!s->r) { errno = EBADF; return -1; }
    auto it = g_disk.files.find(s->path); if (it == g_disk.files.end()) { errno = EIO; return -1; }
    i64 size = (i64) it->second.size(); i64 m = std::max<i64>(0, std::min<i64>((i64) n, size - s->pos));
    m = max_chunk(s, m);
    if (s->f.eio_at >= 0 && (s->f.eio_sticky || !s->eio_used) && s->pos + m > s->f.eio_at) {
        if (s->pos >= s->f.eio_at) { s->eio_used = true; count("fault.read_eio"); note("read error at byte " + std::to_string(s->pos) + " of " + s->path); errno = EIO; return -1; }
        m = s->f.eio_at - s->pos;
    }
    if (s->f.eio_at >= 0 && (s->f.eio_sticky || !s->eio_used) && m == 0 && s->pos >= s->f.eio_at) { s->eio_used = true; count("fault.read_eio"); errno = EIO; return -1; }
    memcpy(buf, it->second.data() + s->pos, m); s->pos += m;
    trace(mix(0x5ead, (u64) m)); return m;
}
static ssize_t sim_write1(Stream *s, const char *buf, size_t n) {
    if (!s->w) { errno = EBADF; return -1; }
    std::string &d = g_disk.files[s->path];
    if (s->app) s->pos = (i64) d.size();
    i64 m = max_chunk(s, (i64) n);
    if (s->f.full_at >= 0 && s->pos + m > s->f.full_at) { m = s->f.full_at - s->pos; if (m <= 0) { count("fault.disk_full"); note("disk full at byte " + std::to_string(s->pos) + " of " + s->path); errno = ENOSPC; return -1; } }
    if (s->f.eio_at >= 0 && (s->f.eio_sticky || !s->eio_used) && s->pos + m > s->f.eio_at) { m = s->f.eio_at - s->pos; if (m <= 0) { s->eio_used = true; count("fault.write_eio"); note("write error at byte " + std::to_string(s->pos) + " of " + s->path); errno = EIO; return -1; } }
    bool crash = false;
    if (s->f.crash_at >= 0 && s->pos + m > s->f.crash_at) { m = std::max<i64>(0, s->f.crash_at - s->pos); crash = true; }
    if ((i64) d.size() < s->pos + m) d.resize(s->pos + m);
    memcpy(&d[s->pos], buf, m); s->pos += m;
    trace(mix(0x3717e, (u64) m));
    if (crash) { count("fault.crash"); note("process killed after byte " + std::to_string(s->pos) + " of " + s->path); leave(CODE_KILLED); }
    return m;
}
static ssize_t ck_read(void *c, char *b, size_t n) { Harness h; return sim_read((Stream *) c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    Harness h; Stream *s = (Stream *) c; size_t done = 0;
    while (done < n) { ssize_t k = sim_write1(s, b + done, n - done); if (k <= 0) { s->err = true; break; } done += k; }
    return (ssize_t) done;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    Stream *s = (Stream *) c; i64 size = (i64) g_disk.files[s->path].size(); i64 p = wh == SEEK_SET ? *off : wh == SEEK_CUR ? s->pos + *off : size + *off;
    if (p < 0) { errno = EINVAL; return -1; }
    s->pos = p; *off = p; return 0;
}
static int ck_close(void *c) {
    Harness h; Stream *s = (Stream *) c;
    if (s->f.crash_at == -2) { count("fault.crash"); leave(CODE_KILLED); }
    if (s->f.close_errno) {
        if (s->w && s->f.close_drop > 0) { auto &d = g_disk.files[s->path]; i64 k = std::min<i64>(s->f.close_drop, (i64) d.size()); d.resize(d.size() - k); }
        count(s->w ? "fault.close_error" : "fault.close_error_read"); errno = s->f.close_errno; return -1;
    }
    return 0;
}
static Stream *make_stream(const char *path, bool r, bool w, bool trunc, bool creat, bool app, bool excl) {
    g_disk.opens++;
    StreamFault f; auto fi = g_disk.faults.find(path);
    if (fi != g_disk.faults.end() && !fi->second.empty()) { f = fi->second.front(); fi->second.erase(fi->second.begin()); }
    if (f.open_errno) { count("fault.open_fail"); note(std::string("open fails: ") + path); errno = f.open_errno; return nullptr; }
    bool ex = g_disk.files.count(path) > 0;
    if (!ex && !creat) { errno = ENOENT; count("fault.open_missing"); return nullptr; }
    if (ex && excl) { errno = EEXIST; return nullptr; }
    if (w) g_disk.opened_w.insert(path);
    if (!ex || (trunc && w)) g_disk.files[path] = "";
    Stream *s = new Stream(); s->path = path; s->r = r; s->w = w; s->app = app; s->f = f; s->rng = Rng(f.chunk_seed);
    trace(mix(0x09e4, hash_str(path)));
    return s;
}
static FILE *sim_fopen(const char *path, const char *mode) {
    Harness h;
    bool plus = strchr(mode, '+') != nullptr, r = mode[0] == 'r' || plus, w = mode[0] != 'r' || plus;
    Stream *s = make_stream(path, r, w, mode[0] == 'w', mode[0] != 'r', mode[0] == 'a', strchr(mode, 'x') != nullptr);
    if (!s) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *fp = fopencookie(s, mode, io);
    if (!fp) { delete s; return nullptr; }
    s->fp = fp; s->fdno = g_nextfd++;
    if (s->f.bufsize >= 0) { s->buf.resize(std::max<i64>(1, s->f.bufsize)); setvbuf(fp, &s->buf[0], _IOFBF, s->buf.size()); }
    g_open[fp] = s; g_fd[s->fdno] = s; g_closed.erase(fp);
    return fp;
}
static int sim_fclose(FILE *fp) {
    Harness h;
    auto it = g_open.find(fp); if (it == g_open.end()) return -2;
    Stream *s = it->second;
    g_open.erase(it); g_fd.erase(s->fdno);
    int r = __real_fclose(fp);
    g_closed.insert(fp); trace(0xc105e); delete s; return r;
}
void drop_handles() {
    for (auto &x : g_open) { // the process is gone: nothing buffered reaches the disk any more
        Stream *s = x.second; s->f = StreamFault(); s->w = false; s->r = false; __real_fclose(x.first); delete s; }
    g_open.clear();
    for (auto &x : g_fd) if (x.second->is_fd) delete x.second;
    g_fd.clear(); g_closed.clear();
}
void clear_closed() { g_closed.clear(); }
bool file_ok(FILE *fp, const char *op) {
    if (!t_incode) return true;
    Harness h;
    if (!fp) { mem_error(fmt("%s on a null stream", op)); return false; }
    if (g_closed.count(fp) && !g_open.count(fp)) { mem_error(fmt("%s on a stream that was closed already", op)); return false; }
    return true;
}

// ---------------------------------------------------------------- clock, randomness
static Clock g_clk; Clock &clk() { return g_clk; }
static Rng g_rand(1); void seed_rand(u64 s) { g_rand = Rng(s); }

// ---------------------------------------------------------------- control transfer out of code under test
struct Frame { jmp_buf jb; Frame *prev; };
static thread_local Frame *t_frame = nullptr;
static thread_local int t_leave_code = 0;
extern "C" void __asan_handle_no_return();
static void leave(int code) { __asan_handle_no_return(); t_leave_code = code; if (!t_frame) _exit(99); longjmp(t_frame->jb, 1); }

Result in_code(const std::function<void()> &f) {
    Frame fr; fr.prev = t_frame; Result res{RET, 0, ""};
    int saved = t_incode;
    if (setjmp(fr.jb) == 0) {
        t_frame = &fr;
        try { t_incode = 1; f(); t_incode = saved; }
        catch (std::bad_alloc &) { t_incode = saved; res.o = THREW_BADALLOC; }
        catch (Violated &) { t_incode = saved; t_frame = fr.prev; throw; }
        catch (std::exception &e) { t_incode = saved; res.o = THREW_OTHER; res.what = e.what(); }
        catch (...) { t_incode = saved; res.o = THREW_OTHER; res.what = "unknown exception"; }
    } else {
        t_incode = saved; res.exit_code = t_leave_code;
        res.o = t_leave_code == CODE_KILLED ? CRASHED : EXITED;
    }
    t_frame = fr.prev;
    clear_closed();
    return res;
}

// ---------------------------------------------------------------- scheduler
std::function<void()> g_on_switch;
std::vector<Range> g_guard; bool g_guard_hit = false; std::function<void(int)> g_on_guard_event;
bool g_profile = false; std::vector<Access> *g_prof_out = nullptr; std::vector<Range> g_prof_ranges;
u64 g_step_budget = 400000000ull;
static u64 g_events_total = 0;
static thread_local u64 t_ev = 0, t_next = ~0ull;
static thread_local int t_tid = -1;
static int g_nopreempt = 0;
struct Thr { pthread_t th; sem_t sem; std::function<void()> body; bool done = false; std::vector<Preempt> pre; size_t ip = 0; u64 ev = 0; bool violated = false; std::string exc; };
static std::vector<Thr *> g_thr; static sem_t g_main_sem; static int g_switches = 0;
u64 my_events() { return t_ev; } void reset_events() { t_ev = 0; } u64 total_events() { return g_events_total; }
int switches() { return g_switches; }
static void next_stop() { Thr *t = g_thr[t_tid]; t_next = t->ip < t->pre.size() ? t->pre[t->ip].at : ~0ull; }
static int pick_other(int want, int self) {
    int n = (int) g_thr.size(); for (int i = 0; i < n; i++) { int c = ((want + i) % n + n) % n; if (c != self && !g_thr[c]->done) return c; }
    return -1;
}
static void pass_to(int to) {
    int self = t_tid; sem_post(&g_thr[to]->sem); if (self >= 0) while (sem_wait(&g_thr[self]->sem) != 0) {}
}
static void preempt_here() {
    Thr *t = g_thr[t_tid]; int to = t->pre[t->ip].to; 
    if (g_nopreempt > 0) { t->pre[t->ip].at = t_ev + 1; next_stop(); return; }
    t->ip++; while (t->ip < t->pre.size() && t->pre[t->ip].at <= t_ev) t->ip++;
    next_stop();
    int o = pick_other(to, t_tid);
    { Harness h; if (g_on_switch) g_on_switch(); }
    if (o < 0) return;
    g_switches++; trace(mix(0x5317c4, mix(t_tid, mix(o, t_ev))));
    { Harness h; count("sched.preemptions"); if (g_verbose) note(fmt("thread %d preempted at its event %llu, thread %d runs", t_tid, (unsigned long long) t_ev, o)); }
    Frame *sf = t_frame; pass_to(o); t_frame = sf;
}
// a simulated thread that cannot make progress (waits for a lock) lets others run
static bool yield_blocked() { if (t_tid < 0) return false; int o = pick_other(t_tid + 1, t_tid); if (o < 0) return false; g_switches++; pass_to(o); return true; }
static void *thr_main(void *p) {
    int id = (int) (intptr_t) p; Thr *t = g_thr[id]; t_tid = id; t_incode = 0; t_ev = 0;
    while (sem_wait(&t->sem) != 0) {}
    next_stop();
    try { t->body(); } catch (Violated &) { t->violated = true; } catch (std::exception &e) { t->exc = e.what(); }
    t->ev = t_ev; t->done = true;
    int o = pick_other(id + 1, id); t_tid = -1;
    if (o >= 0) sem_post(&g_thr[o]->sem); else sem_post(&g_main_sem);
    return nullptr;
}
void run_threads(const std::vector<std::function<void()>> &bodies, const std::vector<Preempt> &pre, int first) {
    if (bodies.empty()) return;
    g_switches = 0; sem_init(&g_main_sem, 0, 0); int n = (int) bodies.size();
    for (int i = 0; i < n; i++) { Thr *t = new Thr(); t->body = bodies[i]; sem_init(&t->sem, 0, 0); for (auto &p : pre) if (p.thread == i) t->pre.push_back(p);
        std::stable_sort(t->pre.begin(), t->pre.end(), [](const Preempt &a, const Preempt &b) { return a.at < b.at; }); g_thr.push_back(t); }
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
    for (int i = 0; i < n; i++) if (pthread_create(&g_thr[i]->th, &at, thr_main, (void *) (intptr_t) i)) { fprintf(stderr, "pthread_create failed\n"); _exit(98); }
    sem_post(&g_thr[((first % n) + n) % n]->sem);
    while (sem_wait(&g_main_sem) != 0) {}
    bool v = false; std::string exc;
    for (auto t : g_thr) { pthread_join(t->th, nullptr); v |= t->violated; if (!t->exc.empty()) exc = t->exc; trace(t->ev); sem_destroy(&t->sem); delete t; }
    g_thr.clear(); pthread_attr_destroy(&at); sem_destroy(&g_main_sem);
    if (v) throw Violated();
    if (!exc.empty()) fail("exception", "unexpected exception in a caller thread: " + exc);
}
extern char __data_start_probe;
static inline void guard_check(const char *p, bool store) {
    if (g_guard_hit) { g_guard_hit = false; Harness h; if (g_on_guard_event) g_on_guard_event(0); }
    if (store) for (auto &r : g_guard) if (p >= r.b && p < r.e) { g_guard_hit = true; break; }
}
void hang() { _exit(78); }
static inline void event(const char *p, bool store, bool mem) {
    if (!t_incode) return;
    t_ev++; run_state()->events++;
    if (++g_events_total > g_step_budget) hang();
    if (!g_guard.empty()) guard_check(mem ? p : nullptr, store && mem);
    if (g_profile && mem) { int s = t_incode; t_incode = 0; for (auto &r : g_prof_ranges) if (p >= r.b && p < r.e) { g_prof_out->push_back({t_ev, (u64) r.id << 40 | (u64) (p - r.b) >> 2, store}); break; } t_incode = s; }
    if (t_ev >= t_next && t_tid >= 0) preempt_here();
}
// block operations of the code under test (compiled to __asan_mem*): one event each, watched like stores
static inline bool overlap(const char *p, size_t n, const Range &r) { return p < r.e && p + n > r.b; }
static void event_block(const char *d, const char *s, size_t n) {
    if (!t_incode || !n) return;
    event(nullptr, false, false);
    if (!g_guard.empty()) for (auto &r : g_guard) if (overlap(d, n, r)) { g_guard_hit = true; break; }
    if (g_profile) { int sv = t_incode; t_incode = 0; for (auto &r : g_prof_ranges) { if (overlap(d, n, r)) g_prof_out->push_back({t_ev, (u64) r.id << 40 | (u64) (std::max(d, r.b) - r.b) >> 2, true}); if (s && overlap(s, n, r)) g_prof_out->push_back({t_ev, (u64) r.id << 40 | (u64) (std::max(s, r.b) - r.b) >> 2, false}); } t_incode = sv; }
}
void begin_run_counters() { g_events_total = 0; t_ev = 0; }
// scheduling point inside system calls
void sys_event() { event(nullptr, false, false); }

static std::map<std::string, Prop> &props() { static std::map<std::string, Prop> p; return p; }
void register_prop(const Prop &p) { props()[p.id] = p; }
const Prop *find_prop(const std::string &id) { auto i = props().find(id); return i == props().end() ? nullptr : &i->second; }
} // namespace sim

using namespace sim;

// ================================================================== seams
extern "C" {
void *__wrap_malloc(size_t n) { return t_incode ? code_alloc(n, K_MALLOC, false) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!t_incode) return __real_calloc(a, b); if (b && a > SIZE_MAX / b) { errno = ENOMEM; return nullptr; } return code_alloc(a * b, K_MALLOC, true); }
void __wrap_free(void *p) { if (!p) return; if (!t_incode && !tab_get(p)) { __real_free(p); return; } code_free(p, K_MALLOC); }
void *__wrap_realloc(void *p, size_t n) {
    Blk *b = p ? tab_get(p) : nullptr;
    if (!t_incode && !b) return __real_realloc(p, n);
    if (!p) return __wrap_malloc(n);
    void *q = code_alloc(n, K_MALLOC, false); if (!q) return nullptr;
    b = tab_get(p);
    memcpy(q, p, b ? std::min(b->n, n) : 0); code_free(p, K_MALLOC); return q;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *) __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *) __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int __wrap_posix_memalign(void **o, size_t, size_t n) { void *p = __wrap_malloc(n); if (!p) return ENOMEM; *o = p; return 0; }
void *__wrap_aligned_alloc(size_t, size_t n) { return __wrap_malloc(n); }

void *__wrap___cxa_allocate_exception(size_t n) { Harness h; return __real___cxa_allocate_exception(n); }
void __wrap___cxa_free_exception(void *p) { Harness h; __real___cxa_free_exception(p); }

void __wrap_exit(int c) { if (t_incode && t_frame) { int s = t_incode; t_incode = 0; note(fmt("exit(%d)", c)); t_incode = s; leave(c & 0xff); } __real_exit(c); }
void __wrap__exit(int c) { if (t_incode && t_frame) leave(c & 0xff); __real_exit(c); }
void __wrap_quick_exit(int c) { if (t_incode && t_frame) leave(c & 0xff); __real_exit(c); }
void __wrap_abort() { if (t_incode && t_frame) { leave(CODE_ABORT); } __real_abort(); }

FILE *__wrap_fopen(const char *p, const char *m) { if (!t_incode) return __real_fopen(p, m); sys_event(); return sim_fopen(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
int __wrap_fclose(FILE *f) {
    if (!t_incode) { if (g_open.count(f)) return sim_fclose(f); return __real_fclose(f); }
    sys_event();
    if (!file_ok(f, "fclose")) return EOF;
    int r = sim_fclose(f); if (r == -2) { mem_error("fclose on a stream that is not open"); return EOF; }
    return r;
}
int __wrap_fileno(FILE *f) { auto i = g_open.find(f); return i == g_open.end() ? __real_fileno(f) : i->second->fdno; }
#define SIMFD(fd) ((fd) >= 100000 && g_fd.count(fd))
int __wrap_open(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
    if (!t_incode) return __real_open(p, fl, mode);
    Harness h; int acc = fl & O_ACCMODE;
    Stream *s = make_stream(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_TRUNC, fl & O_CREAT, fl & O_APPEND, (fl & O_EXCL) && (fl & O_CREAT));
    if (!s) return -1; s->is_fd = true; s->fdno = g_nextfd++; g_fd[s->fdno] = s; return s->fdno;
}
int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return __wrap_open(p, fl, mode); }
int __wrap_close(int fd) {
    if (!SIMFD(fd)) { if (t_incode && fd >= 100000) { mem_error("close of a descriptor that is not open"); errno = EBADF; return -1; } return __real_close(fd); }
    Harness h; Stream *s = g_fd[fd]; g_fd.erase(fd); int r = ck_close(s); delete s; return r;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { if (!SIMFD(fd)) return __real_read(fd, b, n); Harness h; return sim_read(g_fd[fd], (char *) b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (!SIMFD(fd)) return __real_write(fd, b, n); Harness h; return sim_write1(g_fd[fd], (const char *) b, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {
    if (!SIMFD(fd)) return __real_writev(fd, v, c);
    Harness h; ssize_t t = 0; for (int i = 0; i < c; i++) { size_t d = 0; while (d < v[i].iov_len) { ssize_t k = sim_write1(g_fd[fd], (const char *) v[i].iov_base + d, v[i].iov_len - d); if (k <= 0) return t ? t : -1; d += k; t += k; } } return t;
}
off_t __wrap_lseek(int fd, off_t o, int w) { if (!SIMFD(fd)) return __real_lseek(fd, o, w); Harness h; off64_t x = o; return ck_seek(g_fd[fd], &x, w) ? -1 : x; }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
static void fill_stat(const std::string &p, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_size = (off_t) g_disk.files[p].size(); st->st_blksize = 4096; st->st_nlink = 1; }
int __wrap_fstat(int fd, struct stat *st) { if (!SIMFD(fd)) return __real_fstat(fd, st); Harness h; fill_stat(g_fd[fd]->path, st); return 0; }
int __wrap_fstat64(int fd, struct stat *st) { return __wrap_fstat(fd, st); }
int __wrap_stat(const char *p, struct stat *st) { if (!t_incode) return __real_stat(p, st); Harness h; if (!g_disk.files.count(p)) { errno = ENOENT; return -1; } fill_stat(p, st); return 0; }
int __wrap_stat64(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __wrap_access(const char *p, int m) { if (!t_incode) return __real_access(p, m); Harness h; if (g_disk.files.count(p)) return 0; errno = ENOENT; return -1; }
int __wrap_fsync(int fd) { if (!SIMFD(fd)) return __real_fsync(fd); return 0; }
int __wrap_fdatasync(int fd) { if (!SIMFD(fd)) return __real_fsync(fd); return 0; }
int __wrap_remove(const char *p) { if (!t_incode) return __real_remove(p); Harness h; if (!g_disk.files.erase(p)) { errno = ENOENT; return -1; } return 0; }
int __wrap_unlink(const char *p) { if (!t_incode) return __real_unlink(p); return __wrap_remove(p); }
int __wrap_rename(const char *a, const char *b) { if (!t_incode) return __real_rename(a, b); Harness h; auto i = g_disk.files.find(a); if (i == g_disk.files.end()) { errno = ENOENT; return -1; } std::string d = i->second; g_disk.files.erase(i); g_disk.files[b] = d; return 0; }

// stream operations: only check that the stream is open, then go to the real one
#define RET(type, name, proto, args, f, bad) type __real_##name proto; type __wrap_##name proto { if (t_incode) { sys_event(); if (!file_ok(f, #name)) return bad; } return __real_##name args; }
RET(size_t, fread, (void *p, size_t a, size_t b, FILE *f), (p, a, b, f), f, 0)
RET(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), (p, a, b, f), f, 0)
RET(int, fgetc, (FILE *f), (f), f, EOF)
RET(int, getc, (FILE *f), (f), f, EOF)
RET(int, _IO_getc, (FILE *f), (f), f, EOF)
RET(char *, fgets, (char *s, int n, FILE *f), (s, n, f), f, nullptr)
RET(ssize_t, getline, (char **s, size_t *n, FILE *f), (s, n, f), f, -1)
RET(int, fputc, (int c, FILE *f), (c, f), f, EOF)
RET(int, putc, (int c, FILE *f), (c, f), f, EOF)
RET(int, _IO_putc, (int c, FILE *f), (c, f), f, EOF)
RET(int, fputs, (const char *s, FILE *f), (s, f), f, EOF)
RET(int, feof, (FILE *f), (f), f, 1)
RET(int, ferror, (FILE *f), (f), f, 1)
RET(int, fseek, (FILE *f, long o, int w), (f, o, w), f, -1)
RET(int, fseeko, (FILE *f, off_t o, int w), (f, o, w), f, -1)
RET(long, ftell, (FILE *f), (f), f, -1)
RET(int, ungetc, (int c, FILE *f), (c, f), f, EOF)
void __real_rewind(FILE *); void __wrap_rewind(FILE *f) { if (t_incode && !file_ok(f, "rewind")) return; __real_rewind(f); }
void __real_clearerr(FILE *); void __wrap_clearerr(FILE *f) { if (t_incode && !file_ok(f, "clearerr")) return; __real_clearerr(f); }
int __real_fflush(FILE *); int __wrap_fflush(FILE *f) { if (t_incode && f && !file_ok(f, "fflush")) return EOF; if (t_incode && !f) return 0; return __real_fflush(f); }
int __wrap_vfscanf_(FILE *f, const char *fm, va_list ap) { if (t_incode) { sys_event(); if (!file_ok(f, "fscanf")) return EOF; } return vfscanf(f, fm, ap); }
int __wrap_fscanf(FILE *f, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = __wrap_vfscanf_(f, fm, ap); va_end(ap); return r; }
int __wrap___isoc99_fscanf(FILE *f, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = __wrap_vfscanf_(f, fm, ap); va_end(ap); return r; }
int __wrap___isoc23_fscanf(FILE *f, const char *fm, ...) { va_list ap; va_start(ap, fm); int r = __wrap_vfscanf_(f, fm, ap); va_end(ap); return r; }
int __wrap_fprintf(FILE *f, const char *fm, ...) {
    if (t_incode) { sys_event(); if (f == stderr || f == stdout) return 1; if (!file_ok(f, "fprintf")) return -1; }
    va_list ap; va_start(ap, fm); int r = vfprintf(f, fm, ap); va_end(ap); return r; }
int __wrap_printf(const char *fm, ...) { if (t_incode) { Harness h; char b[4096]; va_list ap; va_start(ap, fm); int r = vsnprintf(b, sizeof b, fm, ap); va_end(ap); g_out += b; return r; } va_list ap; va_start(ap, fm); int r = vprintf(fm, ap); va_end(ap); return r; }
int __real_puts(const char *); int __wrap_puts(const char *s) { if (t_incode) { Harness h; g_out += s; g_out += "\n"; return 1; } return __real_puts(s); }
int __real_putchar(int); int __wrap_putchar(int c) { if (t_incode) { Harness h; g_out.push_back((char) c); return c; } return __real_putchar(c); }

time_t __wrap_time(time_t *t) { if (!t_incode) return __real_time(t); Harness h; if (g_clk.on_read) g_clk.on_read(); time_t v = (time_t) g_clk.now; if (t) *t = v; count("clock.reads"); return v; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { if (!t_incode) return __real_gettimeofday(tv, z); Harness h; if (g_clk.on_read) g_clk.on_read(); tv->tv_sec = (time_t) g_clk.now; tv->tv_usec = (long) ((g_clk.now - (double) (time_t) g_clk.now) * 1e6); count("clock.reads"); return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) { if (!t_incode) return __real_clock_gettime(c, ts); Harness h; if (g_clk.on_read) g_clk.on_read(); ts->tv_sec = (time_t) g_clk.now; ts->tv_nsec = (long) ((g_clk.now - (double) (time_t) g_clk.now) * 1e9); count("clock.reads"); return 0; }
clock_t __real_clock(); clock_t __wrap_clock() { if (!t_incode) return __real_clock(); Harness h; if (g_clk.on_read) g_clk.on_read(); return (clock_t) ((g_clk.now - 1700000000.0) * 1000); }
int __wrap_rand() { if (!t_incode) return __real_rand(); return (int) (g_rand.next() >> 33); }
void __wrap_srand(unsigned s) { if (!t_incode) { __real_srand(s); return; } g_rand = Rng(0x1234567ull + s); }
long __real_random(); long __wrap_random() { if (!t_incode) return __real_random(); return (long) (g_rand.next() >> 33); }
void __real_srandom(unsigned); void __wrap_srandom(unsigned s) { if (!t_incode) { __real_srandom(s); return; } g_rand = Rng(0x1234567ull + s); }

// locks of the code under test are decided by the simulator's scheduler
static std::map<void *, int> g_locks;
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!t_incode || t_tid < 0) return __real_pthread_mutex_lock(m);
    sys_event(); Harness h;
    while (__real_pthread_mutex_trylock(m) != 0) if (!yield_blocked()) hang();
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); if (t_incode && t_tid >= 0) sys_event(); return r; }
static std::map<void *, int> g_guards;
int __wrap___cxa_guard_acquire(u_int64_t *g) {
    if (!t_incode || t_tid < 0) return __real___cxa_guard_acquire(g);
    { Harness h; while (g_guards.count(g) && g_guards[g] != t_tid) if (!yield_blocked()) hang(); }
    int r = __real___cxa_guard_acquire(g); if (r) { Harness h; g_guards[g] = t_tid; } return r;
}
void __wrap___cxa_guard_release(u_int64_t *g) { { Harness h; g_guards.erase(g); } __real___cxa_guard_release(g); }
void __wrap___cxa_guard_abort(u_int64_t *g) { { Harness h; g_guards.erase(g); } __real___cxa_guard_abort(g); }

void *__real___asan_memcpy(void *, const void *, size_t); void *__real___asan_memmove(void *, const void *, size_t); void *__real___asan_memset(void *, int, size_t);
void *__wrap___asan_memcpy(void *d, const void *s, size_t n) { void *r = __real___asan_memcpy(d, s, n); event_block((char *) d, (const char *) s, n); return r; }
void *__wrap___asan_memmove(void *d, const void *s, size_t n) { void *r = __real___asan_memmove(d, s, n); event_block((char *) d, (const char *) s, n); return r; }
void *__wrap___asan_memset(void *d, int c, size_t n) { void *r = __real___asan_memset(d, c, n); event_block((char *) d, nullptr, n); return r; }
// compiler-inserted scheduling points in code under test
void __sanitizer_cov_load1(uint8_t *p) { event((char *) p, false, true); }
void __sanitizer_cov_load2(uint16_t *p) { event((char *) p, false, true); }
void __sanitizer_cov_load4(uint32_t *p) { event((char *) p, false, true); }
void __sanitizer_cov_load8(uint64_t *p) { event((char *) p, false, true); }
void __sanitizer_cov_load16(__uint128_t *p) { event((char *) p, false, true); }
void __sanitizer_cov_store1(uint8_t *p) { event((char *) p, true, true); }
void __sanitizer_cov_store2(uint16_t *p) { event((char *) p, true, true); }
void __sanitizer_cov_store4(uint32_t *p) { event((char *) p, true, true); }
void __sanitizer_cov_store8(uint64_t *p) { event((char *) p, true, true); }
void __sanitizer_cov_store16(__uint128_t *p) { event((char *) p, true, true); }
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { event(nullptr, false, false); if (g && *g) { edge_hit(*g); } }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { static uint32_t n = 0; if (a == b || *a) return; for (uint32_t *x = a; x < b; x++) *x = ++n; edge_total(n); }

const char *__asan_default_options() { return "detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:handle_sigfpe=1:alloc_dealloc_mismatch=0:print_legend=0:quarantine_size_mb=16:max_allocation_size_mb=2048:symbolize=1:color=never"; }
}

extern "C" void __asan_handle_no_return();
void *operator new(size_t n) { if (!t_incode) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } void *p = code_alloc(n, K_NEW, false); if (!p) __asan_handle_no_return(); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { if (!t_incode) { void *p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } void *p = code_alloc(n, K_NEWA, false); if (!p) __asan_handle_no_return(); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (!t_incode) return __real_malloc(n ? n : 1); return code_alloc(n, K_NEW, false); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if (!t_incode) return __real_malloc(n ? n : 1); return code_alloc(n, K_NEWA, false); }
static inline void op_del(void *p, Kind k) { if (!p) return; if (!t_incode && !tab_get(p)) { __real_free(p); return; } code_free(p, k); }
void operator delete(void *p) noexcept { op_del(p, K_NEW); }
void operator delete[](void *p) noexcept { op_del(p, K_NEWA); }
void operator delete(void *p, size_t) noexcept { op_del(p, K_NEW); }
void operator delete[](void *p, size_t) noexcept { op_del(p, K_NEWA); }
