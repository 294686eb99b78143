// Runner: seeded batches over worker processes, determinism self-check, violation
// gating (fresh-process replay), minimisation, replay files, evidence numbers.
#include "shared.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

namespace sim {
static RunState *g_rs; RunState *run_state() { return g_rs; }
static uint8_t *g_edges; static uint32_t *g_nedges; static const uint32_t MAXE = 1 << 16;
void edge_hit(uint32_t g) { if (g_edges && g < MAXE) g_edges[g] = 1; }
static uint32_t g_edge_total_early = 0;
void edge_total(uint32_t n) { g_edge_total_early = n; }
}
using namespace sim;

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void *shm(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }

struct Rec { u64 hash; u64 events; int nontrivial; int done; };
struct Slot { RunState rs; volatile i64 cur; volatile int state; char cls[128]; char msg[1024]; int ncnt; char cnt[8192]; };   // state: 0 running 1 ok 2 violated
static volatile int *g_stop;

struct Out { bool violated; Violation v; };
namespace sim { void reset_run(u64 seed); int oracle(); }
void sim::reset_run(u64 seed) {
    disk().reset(); drop_handles(); forget_blocks(); take_mem_errors(); alloc() = AllocCtl(); clk() = Clock(); seed_rand(seed);
    con_out().clear(); con_err().clear(); g_guard.clear(); g_guard_hit = false; g_on_guard_event = nullptr; g_on_switch = nullptr; g_profile = false; g_prof_ranges.clear();
    memset(run_state(), 0, sizeof(RunState)); begin_run_counters();
}
static Out run_plan(const Plan &p) {
    const Prop *pr = find_prop(p.prop); Out o{false, {}};
    // items "then <seed>" separate runs that follow one another in the same process (used when the
    // code under test carries state from one run into the next)
    std::vector<Plan> parts(1); parts[0].prop = p.prop; parts[0].seed = p.seed;
    for (auto &it : p.items) if (it.k == "then") { Plan q; q.prop = p.prop; q.seed = (u64) arg(it, 0); parts.push_back(q); } else parts.back().items.push_back(it);
    u64 h = 0;
    for (size_t k = 0; k < parts.size() && !o.violated; k++) {
        reset_run(parts[k].seed); if (k) trace(h);
        try { pr->exec(parts[k]); } catch (Violated &) { o.violated = true; o.v = violation(); }
        trace(total_events());
        drop_handles(); forget_blocks(); h = run_state()->hash;
    }
    return o;
}
static Plan make_plan(const Prop &pr, u64 base, i64 idx, int tier) {
    if (pr.directed) { static std::map<int, std::vector<Plan>> cache; if (!cache.count(tier)) cache[tier] = pr.directed(tier); auto &d = cache[tier]; if (idx < (i64) d.size()) return d[idx]; }
    Plan p; p.prop = pr.id; p.seed = mix(mix(base, hash_str(pr.id)), (u64) idx) >> 1; Rng r(p.seed); pr.gen(r, p, tier); return p;
}
static std::string read_file(const std::string &p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }

// runs a plan in a forked child; returns class ("" = no violation), hash
struct ChildRes { std::string cls, msg; u64 hash, events; };
static std::string g_tmp = ".";
static ChildRes run_child(const Plan &p, Slot *s, bool verbose = false) {
    memset((void *) s, 0, sizeof *s);
    std::string errf = g_tmp + fmt("/child.%d.err", (int) getpid());
    fflush(nullptr);
    pid_t c = fork();
    if (c == 0) {
        g_rs = &s->rs; g_verbose = verbose;
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (!verbose) { dup2(fd, 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
        alarm(120);
        Out o = run_plan(p);
        if (o.violated) { snprintf(s->cls, sizeof s->cls, "%s", o.v.cls.c_str()); snprintf(s->msg, sizeof s->msg, "%s", o.v.msg.c_str()); s->state = 2; }
        else s->state = 1;
        _exit(0);
    }
    int st; waitpid(c, &st, 0);
    ChildRes r; r.hash = s->rs.hash; r.events = s->rs.events;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->state == 1) { }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->state == 2) { r.cls = s->cls; r.msg = s->msg; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) { r.cls = "no-progress"; r.msg = "the operation did not end within the step budget"; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { r.cls = "wall-timeout"; r.msg = "run exceeded its wall-clock limit"; }
    else {
        std::string e = read_file(errf); size_t q = e.find("AddressSanitizer: "); r.cls = "crash"; r.msg = fmt("abnormal end, status %d", st);
        if (q != std::string::npos) { std::string t = e.substr(q + 18, 200); t = t.substr(0, t.find('\n')); t = t.substr(0, t.find(" (tid=")); size_t sp = t.find_first_of(" :"); r.cls = "asan-" + t.substr(0, sp); 
            size_t ad = t.find(" on "); r.msg = t.substr(0, ad == std::string::npos ? t.size() : ad); size_t rw = e.find("\nREAD of size"); size_t ww = e.find("\nWRITE of size"); if (rw != std::string::npos) r.msg += " READ"; else if (ww != std::string::npos) r.msg += " WRITE"; }
        r.hash = 0;
    }
    unlink(errf.c_str());
    return r;
}

static Plan minimise(const Plan &p0, const std::string &cls, Slot *s, int max_tries, double max_sec, int &tries) {
    Plan best = p0; double t0 = wall(); tries = 0;
    auto ok = [&](const Plan &c) { if (tries >= max_tries || wall() - t0 > max_sec) return false; tries++; return run_child(c, s).cls == cls; };
    auto over = [&] { return tries >= max_tries || wall() - t0 > max_sec; };
    if (best.find("then")) {   // runs chained in one process: drop whole runs first
        std::vector<std::vector<Item>> seg(1); for (auto &it : best.items) { if (it.k == "then") seg.push_back({}); seg.back().push_back(it); }
        auto join = [&](const std::vector<std::vector<Item>> &v) { Plan c = best; c.items.clear(); for (auto &x : v) c.items.insert(c.items.end(), x.begin(), x.end()); return c; };
        for (size_t n = std::max<size_t>(1, seg.size() / 2); n >= 1 && !over(); n /= 2) {
            for (size_t i = 0; i + n <= seg.size() && !over();) { auto v = seg; v.erase(v.begin() + (long) i, v.begin() + (long) (i + n)); Plan c = join(v); if (!v.empty() && ok(c)) seg = v; else i += n; }
            if (n == 1) break;
        }
        best = join(seg); if (best.items.size() > 400) max_sec = std::min(max_sec, wall() - t0 + 20);
    }
    bool changed = true;
    while (changed && tries < max_tries && wall() - t0 < max_sec) {
        changed = false;
        for (size_t n = std::max<size_t>(1, best.items.size() / 2); n >= 1; n /= 2) {
            for (size_t i = 0; i + n <= best.items.size() && !over();) {
                Plan c = best; c.items.erase(c.items.begin() + i, c.items.begin() + i + n);
                if (ok(c)) { best = c; changed = true; } else i += n;
            }
            if (n == 1) break;
        }
        for (size_t i = 0; i < best.items.size() && !over(); i++) for (size_t j = 0; j < best.items[i].a.size(); j++) {
            i64 v = best.items[i].a[j];
            std::vector<i64> cand; if (v != 0) { cand.push_back(0); if (v != 1) cand.push_back(1); if (v > 3 || v < -3) cand.push_back(v / 2); if (v > 1) cand.push_back(v - 1); }
            for (i64 x : cand) { Plan c = best; c.items[i].a[j] = x; if (ok(c)) { best = c; changed = true; break; } }
        }
    }
    return best;
}

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o; }

int main(int argc, char **argv) {
    std::map<std::string, std::string> opt; for (int i = 1; i + 1 < argc; i += 2) opt[argv[i]] = argv[i + 1];
    auto get = [&](const char *k, const std::string &d) { return opt.count(k) ? opt[k] : d; };
    g_rs = (RunState *) shm(sizeof(RunState)); g_edges = (uint8_t *) shm(MAXE);
    init_console();
    g_tmp = get("--tmp", "/tmp");
    Slot *s0 = (Slot *) shm(sizeof(Slot));
    if (opt.count("--oracle")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); return oracle(); }
    if (opt.count("--replay")) {
        Plan p; std::string t = read_file(opt["--replay"]); if (!Plan::parse(t, p) || !find_prop(p.prop)) { fprintf(stderr, "bad replay file\n"); return 2; }
        bool vb = get("--verbose", "0") == "1";
        ChildRes r = run_child(p, s0, vb);
        printf("RESULT class=%s hash=%016llx events=%llu msg=%s\n", r.cls.empty() ? "none" : r.cls.c_str(), (unsigned long long) r.hash, (unsigned long long) r.events, r.msg.c_str());
        return r.cls.empty() ? 0 : 1;
    }
    const Prop *pr = find_prop(get("--prop", "")); if (!pr) { fprintf(stderr, "unknown property\n"); return 2; }
    int tier = get("--tier", "quick") == "thorough"; u64 seed = strtoull(get("--seed", "1").c_str(), nullptr, 10);
    i64 N = opt.count("--runs") ? atoll(opt["--runs"].c_str()) : (tier ? pr->thorough_runs : pr->quick_runs);
    int W = atoi(get("--workers", "8").c_str()); double maxsec = atof(get("--max-sec", "120").c_str());
    std::string replay_dir = get("--replay-dir", "."), outf = get("--out", "");
    std::set<std::string> known; { std::ifstream f(get("--known", "/dev/null")); std::string l; while (std::getline(f, l)) known.insert(l); }
    if (opt.count("--show")) { Plan p = make_plan(*pr, seed, atoll(opt["--show"].c_str()), tier); printf("%s", p.text().c_str()); return 0; }

    Rec *rec = (Rec *) shm(sizeof(Rec) * (N + 1)); Slot *slots = (Slot *) shm(sizeof(Slot) * (W + 1)); g_stop = (volatile int *) shm(4096);
    double t0 = wall();
    auto spawn = [&](int w, i64 from, std::function<i64(i64)> next, i64 limit) -> pid_t {
        fflush(nullptr);
        pid_t c = fork();
        if (c == 0) {
            Slot *s = &slots[w]; memset((void *) s, 0, sizeof *s); g_rs = &s->rs;
            std::string errf = g_tmp + fmt("/w%d.err", w); int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(fd, 2); int n = open("/dev/null", O_WRONLY); dup2(n, 1);
            double simt = 0;
            for (i64 i = from; i < limit && i >= 0; i = next(i)) {
                if (*g_stop || wall() - t0 > maxsec) break;
                s->cur = i; Plan p = make_plan(*pr, seed, i, tier); alarm(120);
                if (pr->isolate) {
                    s->state = 0; s->ncnt = 0; pid_t k = fork();
                    if (k == 0) {
                        counters().clear(); alarm(120); Out o = run_plan(p); std::string t; for (auto &x : counters()) t += x.first + " " + std::to_string(x.second) + "\n";
                        if (t.size() < sizeof s->cnt) { memcpy(s->cnt, t.data(), t.size()); s->ncnt = (int) t.size(); }
                        if (o.violated) { snprintf(s->cls, sizeof s->cls, "%s", o.v.cls.c_str()); snprintf(s->msg, sizeof s->msg, "%s", o.v.msg.c_str()); s->state = 2; }
                        _exit(0);
                    }
                    int st; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 99);
                    std::istringstream is(std::string(s->cnt, s->ncnt)); std::string ck; u64 cv; while (is >> ck >> cv) counters()[ck] += cv;
                    simt += s->rs.simtime; if (s->state == 2) { *g_stop = 1; break; }
                    if (rec[i].done && rec[i].hash != s->rs.hash) { s->state = 3; break; }
                    rec[i].hash = s->rs.hash; rec[i].events = s->rs.events; rec[i].nontrivial = s->rs.nontrivial; rec[i].done = 1; continue;
                }
                Out o = run_plan(p); simt += s->rs.simtime;
                if (o.violated) { snprintf(s->cls, sizeof s->cls, "%s", o.v.cls.c_str()); snprintf(s->msg, sizeof s->msg, "%s", o.v.msg.c_str()); s->state = 2; *g_stop = 1; break; }
                if (rec[i].done && rec[i].hash != s->rs.hash) { s->state = 3; break; }
                rec[i].hash = s->rs.hash; rec[i].events = s->rs.events; rec[i].nontrivial = s->rs.nontrivial; rec[i].done = 1;
            }
            std::ofstream f(g_tmp + fmt("/w%d.cnt", w)); for (auto &x : counters()) f << x.first << " " << x.second << "\n"; f << "simtime_ms " << (u64) (simt * 1000) << "\n"; f.close();
            if (s->state == 0) s->state = 1;
            _exit(0);
        }
        return c;
    };
    std::map<std::string, u64> cnt;
    auto collect = [&](int w) { std::ifstream f(g_tmp + fmt("/w%d.cnt", w)); std::string k; u64 v; while (f >> k >> v) cnt[k] += v; unlink((g_tmp + fmt("/w%d.cnt", w)).c_str()); unlink((g_tmp + fmt("/w%d.err", w)).c_str()); };
    std::vector<pid_t> pids; for (int w = 0; w < W; w++) pids.push_back(spawn(w, w, [W](i64 i) { return i + W; }, N));
    std::vector<i64> bad; std::string errtail;
    for (int left = W; left > 0; left--) {
        int st; pid_t c = wait(&st); int w = (int) (std::find(pids.begin(), pids.end(), c) - pids.begin());
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { bad.push_back((i64) slots[w].cur); *g_stop = 1; std::string e = read_file(g_tmp + fmt("/w%d.err", w)); if (errtail.empty()) errtail = fmt("worker status %d\n", st) + e.substr(0, 3000); }
        else if (slots[w].state == 2) bad.push_back((i64) slots[w].cur);
    }
    for (int w = 0; w < W; w++) collect(w);
    double t1 = wall();
    i64 done = 0; std::set<u64> hs, hn; u64 ev = 0; for (i64 i = 0; i < N; i++) if (rec[i].done) { done++; hs.insert(rec[i].hash); if (rec[i].nontrivial) hn.insert(rec[i].hash); ev += rec[i].events; }
    std::string viol_path, vcls, vmsg; std::vector<std::string> known_hits; int det = 0, tries = 0, hist_dep = 0;
    auto handle_plan = [&](const Plan &p, i64 idx) -> int {
        ChildRes a = run_child(p, s0), b = run_child(p, s0);
        if (a.cls.empty() || a.cls != b.cls || a.hash != b.hash) { fprintf(stderr, "run %lld did not reproduce: '%s' %llx vs '%s' %llx\n", (long long) idx, a.cls.c_str(), (unsigned long long) a.hash, b.cls.c_str(), (unsigned long long) b.hash); return a.cls.empty() && b.cls.empty() ? 3 : 2; }
        if (a.cls == "wall-timeout") { fprintf(stderr, "run %lld exceeded its wall-clock limit\n", (long long) idx); return 2; }
        Plan m = minimise(p, a.cls, s0, tier ? 3000 : 1200, p.find("then") ? 150 : 60, tries);
        ChildRes c = run_child(m, s0); if (c.cls != a.cls) { m = p; c = a; }
        vcls = c.cls; vmsg = c.msg;
        viol_path = replay_dir + "/" + pr->id + fmt("-%016llx.plan", (unsigned long long) hash_str(m.text()));
        std::ofstream f(viol_path); f << m.text() << "# violation class " << vcls << "\n# " << vmsg << "\n# found at seed " << seed << " run " << idx << ", " << p.items.size() << " items minimised to " << m.items.size() << " in " << tries << " tries\n# replay: simrun --replay <this file> --verbose 1\n"; f.close();
        // fresh process replay, twice
        std::string l[2];
        for (int k = 0; k < 2; k++) { char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n] = 0; FILE *q = popen(fmt("'%s' --replay '%s' --tmp '%s'", self, viol_path.c_str(), g_tmp.c_str()).c_str(), "r"); char buf[4096]; while (fgets(buf, sizeof buf, q)) l[k] += buf; pclose(q); }
        if (l[0] != l[1] || l[0].find("class=" + vcls + " ") == std::string::npos) { fprintf(stderr, "fresh-process replay differs:\n%s%s", l[0].c_str(), l[1].c_str()); return 2; }
        return 1;
    };
    auto handle = [&](i64 idx) -> int { return handle_plan(make_plan(*pr, seed, idx, tier), idx); };
    int rc = 0;
    if (!bad.empty()) {
        std::sort(bad.begin(), bad.end());
        for (i64 b : bad) { rc = handle(b); if (rc != 3) break; }
        if (rc == 3) {
            // a worker failed at a run that is clean on its own: the code carries state from one run into
            // the next. Take more and more of the runs before it in the same worker into one plan; if that
            // fails, look for a run that damages the process by running the predecessors one by one
            double t2 = wall();
            for (size_t bi = 0; bi < bad.size() && rc == 3; bi++) for (i64 len = 1; rc == 3 && wall() - t2 < 100; len *= 4) {
                i64 b = bad[bi], from = std::max<i64>(b % W, b - len * W); Plan c = make_plan(*pr, seed, from, tier); if (from == b) break;
                for (i64 i = from + W; i <= b; i += W) { Plan q = make_plan(*pr, seed, i, tier); c.add("then", {(i64) q.seed}); c.items.insert(c.items.end(), q.items.begin(), q.items.end()); }
                ChildRes r = run_child(c, s0); if (!r.cls.empty() && r.cls != "wall-timeout") { rc = handle_plan(c, b); break; }
                if (from == b % W) break;
            }
            for (i64 i = bad[0] - W; i >= 0 && rc == 3 && wall() - t2 < 120; i -= W) { ChildRes r = run_child(make_plan(*pr, seed, i, tier), s0); if (!r.cls.empty()) rc = handle(i); }
            if (rc == 3) { fprintf(stderr, "no isolated run reproduces the failure\n%s\n", errtail.c_str()); rc = 2; }
        }
    }
    else {
        // determinism self-check: a sample again, in other processes and order
        i64 want = std::min<i64>(done, tier ? 2000 : 200); i64 stride = std::max<i64>(1, N / std::max<i64>(1, want));
        *g_stop = 0; maxsec += 60; std::vector<pid_t> q; int W2 = 3;
        for (int w = 0; w < W2; w++) { i64 last = ((N - 1) / stride); i64 st = last - w; q.push_back(spawn(w, st >= 0 ? st * stride : -1, [stride, W2](i64 i) { return i - stride * W2; }, N)); }
        for (int left = W2; left > 0; left--) { int st; pid_t c = wait(&st); int w = (int) (std::find(q.begin(), q.end(), c) - q.begin()); 
            if (WIFEXITED(st) && !WEXITSTATUS(st) && slots[w].state == 3) {   // another hash after other runs in the same process: repeats exactly in a process of its own?
                Plan p = make_plan(*pr, seed, slots[w].cur, tier); ChildRes a = run_child(p, s0), b = run_child(p, s0); if (a.hash == b.hash && a.hash && a.cls.empty() && b.cls.empty()) { hist_dep++; continue; } }
            if (!WIFEXITED(st) || WEXITSTATUS(st) || slots[w].state != 1) { fprintf(stderr, "determinism self-check failed at run %lld (state %d)\n", (long long) slots[w].cur, slots[w].state); rc = 2; } }
        std::map<std::string, u64> keep = cnt; for (int w = 0; w < W2; w++) collect(w); cnt = keep; det = (int) std::min<i64>(want, done);
    }
    u64 edges = 0; for (uint32_t i = 0; i < MAXE; i++) edges += g_edges[i];
    if (!outf.empty()) {
        std::ofstream f(outf); f << "{\n\"evaluations\": " << done << ",\n\"distinct_nontrivial\": " << hn.size() << ",\n\"distinct_executions\": " << hs.size() << ",\n\"rule\": \"" << jesc(pr->rule) << "\",\n\"wall_s\": " << (t1 - t0) << ",\n\"events\": " << ev << ",\n\"code_edges_reached\": " << edges << ",\n\"code_edges_total\": " << g_edge_total_early << ",\n\"determinism_rechecked_runs\": " << det << ",\n\"runs_depending_on_earlier_runs\": " << hist_dep << ",\n";
        f << "\"simulated_seconds\": " << cnt["simtime_ms"] / 1000.0 << ",\n"; cnt.erase("simtime_ms");
        f << "\"counters\": {"; bool first = true; for (auto &x : cnt) { f << (first ? "" : ", ") << "\"" << jesc(x.first) << "\": " << x.second; first = false; } f << "},\n";
        f << "\"real_components\": \"" << jesc(pr->real) << "\", \"stubbed_components\": \"" << jesc(pr->stubs) << "\",\n";
        f << "\"violation\": " << (rc == 1 ? "\"" + jesc(viol_path) + "\"" : "null") << ", \"violation_class\": \"" << jesc(vcls) << "\", \"violation_msg\": \"" << jesc(vmsg) << "\",\n\"samples\": [";
        int k = 0; for (i64 i = 0; i < N && k < 3; i += std::max<i64>(1, N / 3)) { f << (k ? ", " : "") << "\"" << jesc(make_plan(*pr, seed, i, tier).text().substr(0, 1500)) << "\""; k++; }
        f << "]\n}\n";
    }
    if (rc == 1) printf("FOUND %s class=%s msg=%s\n", viol_path.c_str(), vcls.c_str(), vmsg.c_str());
    return rc;
}
