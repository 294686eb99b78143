// C12 (concurrent inferences), C13 (history independence), C14 (frame)
#include "ops.h"
#include <algorithm>
using namespace sim;
static const char *REAL = "pico-cnn/tensor.cpp, all of pico-cnn/layers, C++ runtime, libm", *STUB = "thread scheduling (one caller runs at a time, switches at instrumented memory accesses, branches and allocations), heap accounting around the real heap, process exit, console";

// ------------------------------------------------------------------ C12
struct Call { int thread, layer; u64 input; bool own; };
struct Sess {               // one copy of all shared and private objects
    const std::vector<LSpec> &sp; const std::vector<Call> &calls; std::vector<TensorSet> wt; std::vector<LObj> obj; std::vector<TensorSet> in; std::vector<Tensor *> out; std::vector<char> made; std::vector<std::vector<uint32_t>> res; std::vector<std::string> end;
    Sess(const std::vector<LSpec> &s, const std::vector<Call> &c) : sp(s), calls(c), wt(s.size()), obj(s.size()), in(c.size()), made(s.size(), 0), res(c.size()), end(c.size()) {
        Result q = in_code([&] {
            for (size_t i = 0; i < sp.size(); i++) { for (auto &x : sp[i].wt) { Tensor *t = make_tensor(x); Harness h; wt[i].t.push_back(t); } LArrays a; { Harness h; wt[i].set(lweights(sp[i], 1)); larrays(sp[i], a); } lmake(sp[i], a, wt[i].data(), obj[i]); made[i] = 1; }
        });
        check(q.o == RET, "c12-died", "creating the layers: " + describe(q));
        Harness h;
        for (size_t k = 0; k < calls.size(); k++) { const LSpec &s = sp[calls[k].layer]; Result e = in_code([&] { for (auto &x : s.in) { Tensor *t = make_tensor(x); Harness h; in[k].t.push_back(t); } Tensor *o = make_tensor(s.out); Harness h; out.push_back(o); }); check(e.o == RET, "c12-died", "creating tensors: " + describe(e)); in[k].set(linputs(s, calls[k].input)); set_bits(out[k], lvalues(s.out, mix(calls[k].input, 5), 0)); }
    }
    ~Sess() { for (size_t i = 0; i < obj.size(); i++) if (made[i]) obj[i].destroy(); for (auto o : out) delete o; }
    void body(int t) {
        for (size_t k = 0; k < calls.size(); k++) if (calls[k].thread == t) {
            const LSpec &s = sp[calls[k].layer]; LObj mine; LArrays a; bool own = calls[k].own; larrays(s, a);
            Result q = in_code([&] { if (own) lmake(s, a, wt[calls[k].layer].data(), mine); (own ? mine : obj[calls[k].layer]).run(in[k].data(), out[k]); if (own) mine.destroy(); });
            end[k] = describe(q); if (q.o != RET) end[k] = "!" + end[k]; res[k] = bits(out[k]);
        }
    }
};
static void exec_c12(const Plan &p) {
    std::vector<LSpec> sp; for (auto *it : p.all("layer")) if (sp.size() < 5) sp.push_back(lspec(*it, 0)); if (sp.empty()) return;
    int T = 0; std::vector<Call> calls; for (auto *it : p.all("call")) if (calls.size() < 12) { Call c{(int) argc_(*it, 0, 0, 3), (int) argc_(*it, 1, 0, (i64) sp.size() - 1), (u64) arg(*it, 2), (arg(*it, 3) & 1) != 0}; T = std::max(T, c.thread + 1); calls.push_back(c); } if (calls.empty()) return;
    alloc().fill = (int) clampi(p.cfg("fill", 165), 0, 255);
    // every caller alone
    std::vector<std::vector<uint32_t>> solo(calls.size()); std::vector<u64> ev(T, 0);
    { Sess w(sp, calls); for (int t = 0; t < T; t++) { run_threads({[&, t] { w.body(t); ev[t] = my_events(); }}, {}, 0); }
      for (size_t k = 0; k < calls.size(); k++) { const LSpec &s = sp[calls[k].layer]; check(w.end[k][0] != '!', "c12-died", s.text() + ": " + w.end[k]); solo[k] = w.res[k]; std::vector<double> want, tol; lref(s, linputs(s, calls[k].input), lweights(s, 1), lvalues(s.out, mix(calls[k].input, 5), 0), want, tol); std::string d = lcompare(s, solo[k], want, tol); check(d.empty(), "c12-definition", s.text() + " alone: " + d); } }
    // where the callers touch memory that at least one of them writes and another one uses
    std::vector<std::vector<u64>> conf(T); bool directed = false; for (auto *it : p.all("pre")) if (arg(*it, 1)) directed = true;
    if (directed && T > 1) {
        Sess w(sp, calls); std::vector<Range> priv; for (auto &s : w.in) for (auto t : s.t) priv.push_back({(const char *) t->data_, (const char *) t->data_ + t->size_bytes(), 0}); for (auto t : w.out) priv.push_back({(const char *) t->data_, (const char *) t->data_ + t->size_bytes(), 0});
        g_prof_ranges.clear(); g_prof_ranges.push_back(global_range()); for (auto &r : live_ranges()) { bool pr = false; for (auto &x : priv) if (r.b == x.b) pr = true; if (!pr) g_prof_ranges.push_back(r); }
        std::vector<std::vector<Access>> acc(T); std::map<u64, std::pair<int, int>> use;    // key -> (threads that use it, threads that write it) as bit sets
        for (int t = 0; t < T; t++) { g_prof_out = &acc[t]; g_profile = true; run_threads({[&, t] { w.body(t); }}, {}, 0); g_profile = false; for (auto &a : acc[t]) { use[a.key].first |= 1 << t; if (a.store) use[a.key].second |= 1 << t; } }
        g_prof_ranges.clear(); g_prof_out = nullptr;
        for (int t = 0; t < T; t++) for (auto &a : acc[t]) { auto &u = use[a.key]; if (u.second && (u.first & (u.first - 1))) { conf[t].push_back(a.at); } }
        for (auto &c : conf) { std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end()); if (!c.empty()) count("probe.shared_writes_seen"); }
    }
    std::vector<Preempt> pre; for (auto *it : p.all("pre")) { if (pre.size() >= 40) break; int t = (int) argc_(*it, 0, 0, T - 1); u64 at; if (arg(*it, 1) && !conf[t].empty()) { at = conf[t][(u64) arg(*it, 2) % conf[t].size()] + (u64) clampi(arg(*it, 3), 0, 3); count("sched.directed"); } else at = 1 + (u64) arg(*it, 2) % (ev[t] + 1); pre.push_back({t, at, (int) argc_(*it, 4, 0, T - 1)}); }
    Sess w(sp, calls); std::vector<std::function<void()>> bodies; for (int t = 0; t < T; t++) bodies.push_back([&, t] { w.body(t); });
    run_threads(bodies, pre, (int) p.cfg("first", 0)); if (switches() > 0) nontrivial();
    sim_time(0);
    for (size_t k = 0; k < calls.size(); k++) {
        const LSpec &s = sp[calls[k].layer]; check(w.end[k][0] != '!', "c12-died", s.text() + " among other callers: " + w.end[k]);
        if (w.res[k] != solo[k]) { size_t i = 0; while (i < solo[k].size() && solo[k][i] == w.res[k][i]) i++; fail("c12-isolated", s.text() + fmt(" by caller %d: element %zu is %.9g among other callers, %.9g alone", calls[k].thread, i, (double) f_of(w.res[k][i]), (double) f_of(solo[k][i]))); }
    }
}
static void gen_c12(Rng &r, Plan &p, int tier) {
    int L = 1 + (int) r.below(3), T = 2 + (int) r.below(r.chance(70) ? 1 : 3); int op = r.chance(40) ? (int) r.below(L_N) : -1;
    for (int i = 0; i < L; i++) { std::vector<i64> a; gen_lspec(r, a, 3 + (int) r.below(tier ? 10 : 6), op); p.add("layer", a); }
    bool same = r.chance(50); for (int t = 0; t < T; t++) { int n = 1 + (int) r.below(2); for (int k = 0; k < n; k++) p.add("call", {t, same ? 0 : (i64) r.below(L), (i64) r.below(1000), r.chance(30)}); }
    int np = 1 + (int) r.below(r.chance(60) ? 3 : 12); for (int i = 0; i < np; i++) p.add("pre", {(i64) r.below(T), r.chance(60), (i64) r.below(1 << 20), (i64) r.below(3), (i64) r.below(T)});
    p.add("first", {(i64) r.below(T)}); if (r.chance(30)) p.add("fill", {r.chance(50) ? 0 : 255});
}
static Reg r12(Prop{"C12", gen_c12, exec_c12, 40000, 1500000, nullptr, "a run counts as non-trivial if at least one caller was preempted inside an inference while another caller ran", REAL, STUB, true});

// ------------------------------------------------------------------ C13
static void exec_c13(const Plan &p) {
    std::vector<LSpec> sp; std::vector<Item> src; for (auto *it : p.all("layer")) if (sp.size() < 5) { sp.push_back(lspec(*it, 0)); src.push_back(*it); } if (sp.empty()) return; size_t L = sp.size();
    // the same layer object with an input of another size: everything given to its constructor stays the same
    auto resized = [&](size_t i, i64 rs) -> LSpec {
        const LSpec &s = sp[i]; if (rs <= 0) return s; Item it = src[i]; it.a.resize((size_t) LARGS, 0); it.a[2] = s.c; it.a[3] = s.h; it.a[4] = s.w; static const i64 dl[] = {0, 1, -1, 2, -2, 3, 7}; for (int k = 0; k < 3; k++, rs /= 7) it.a[2 + (size_t) k] += dl[rs % 7];
        LSpec t = lspec(it, 0); bool same = t.nd == s.nd && t.kh == s.kh && t.kw == s.kw && t.sh == s.sh && t.sw == s.sw && !memcmp(t.p, s.p, sizeof t.p) && t.groups == s.groups && t.haspad == s.haspad && t.bias == s.bias && t.incl == s.incl && t.n == s.n && t.fa == s.fa && t.fb == s.fb && t.wt == s.wt && t.in.size() == s.in.size() && (s.op != L_CONV || t.oc == s.oc);
        if (!same) return s; if (t.in != s.in) count("probe.same_layer_other_size"); return t;
    };
    std::vector<TensorSet> wt(L); std::vector<LObj> obj(L); std::vector<char> made(L, 0); std::vector<u64> ws(L, 1); bool wild = p.cfg("wild", 0); std::map<Shape, std::vector<Tensor *>> pool; int step = 0, runs = 0;
    std::map<std::vector<u64>, std::vector<uint32_t>> memo;
    struct Fin { std::vector<LObj> &o; std::vector<char> &m; std::map<Shape, std::vector<Tensor *>> &pool; ~Fin() { for (size_t i = 0; i < o.size(); i++) if (m[i]) o[i].destroy(); for (auto &x : pool) for (auto t : x.second) delete t; } } fin{obj, made, pool};
    auto create = [&](size_t i) { Result q = in_code([&] { LArrays a; { Harness h; larrays(sp[i], a); } lmake(sp[i], a, wt[i].data(), obj[i]); made[i] = 1; }); check(q.o == RET, "c13-died", sp[i].text() + " creation: " + describe(q)); };
    auto tensor = [&](const Shape &s, size_t k) { auto &v = pool[s]; while (v.size() <= k) { Result q = in_code([&] { Tensor *t = make_tensor(s); Harness h; v.push_back(t); }); check(q.o == RET, "c13-died", "creating a tensor: " + describe(q)); } return v[k]; };
    for (size_t i = 0; i < L; i++) { Result q = in_code([&] { for (auto &x : sp[i].wt) { Tensor *t = make_tensor(x); Harness h; wt[i].t.push_back(t); } }); check(q.o == RET, "c13-died", "creating weights: " + describe(q)); wt[i].set(lweights(sp[i], 1)); create(i); }
    for (auto *it : p.all("step")) {
        if (++step > 30) break; int kind = (int) argc_(*it, 0, 0, 5); size_t i = (size_t) argc_(*it, 1, 0, (i64) L - 1); i64 rs = argc_(*it, 5, 0, 342); const LSpec s = resized(i, rs); u64 seed = (u64) arg(*it, 2); i64 x = arg(*it, 3);
        alloc().fill = (int) clampi(arg(*it, 4), 0, 255);
        if (kind == 2) { ws[i] = 1 + seed % 5; wt[i].set(lweights(s, ws[i])); note(fmt("step %d: new weights for layer %zu", step, i)); continue; }
        if (kind == 4) { if (made[i]) { made[i] = 0; Result q = in_code([&] { obj[i].destroy(); }); check(q.o == RET, "c13-died", "destroying a layer: " + describe(q)); } create(i); note(fmt("step %d: layer %zu recreated", step, i)); continue; }
        std::vector<Tensor *> in; std::map<Shape, size_t> usedn; for (auto &q : s.in) in.push_back(tensor(q, usedn[q]++)); Tensor *out = tensor(s.out, usedn[s.out]);
        Vals iv = linputs(s, seed, wild); for (size_t k = 0; k < iv.size(); k++) set_bits(in[k], iv[k]);
        std::vector<uint32_t> before = bits(out);
        if (s.inplace) before = lvalues(s.out, seed ^ 99, 0);
        else switch (x % 5) { case 0: break; case 1: before.assign(before.size(), 0x7fc0dead); break; case 2: before.assign(before.size(), b_of(1e30f)); break; case 3: before.assign(before.size(), b_of(-7.5f)); break; default: before = lvalues(s.out, seed + 3, 1); }
        set_bits(out, before);
        i64 k = kind == 3 ? 1 + x % 6 : -1; alloc().counted = 0; alloc().fail_at = k; alloc().fail_sticky = kind == 3 && (x & 8);
        Result q = in_code([&] { obj[i].run(in.data(), out); }); alloc().fail_at = -1; alloc().fail_sticky = false;
        note(fmt("step %d: %s input %llu: %s", step, s.text().c_str(), (unsigned long long) seed, describe(q).c_str()));
        if (kind == 3 && q.o == THREW_BADALLOC) { count("probe.aborted_inference"); nontrivial(); continue; }
        check(q.o == RET, "c13-died", s.text() + ": " + describe(q)); if (runs++) nontrivial();
        Vals wv = lweights(s, ws[i]); std::vector<double> want, tol; lref(s, iv, wv, before, want, tol); std::vector<uint32_t> got = bits(out); std::string d = wild ? "" : lcompare(s, got, want, tol);
        check(d.empty(), "c13-result", fmt("step %d, %s after %d inferences: ", step, s.text().c_str(), runs - 1) + d);
        std::vector<u64> key = {i, seed, ws[i], (u64) rs}; auto m = memo.find(key); if (m == memo.end()) memo[key] = got; else check(m->second == got, "c13-not-repeatable", fmt("step %d, %s: the same inference gave other bits before", step, s.text().c_str()));
    }
}
static void gen_c13(Rng &r, Plan &p, int tier) {
    int L = 1 + (int) r.below(4); int op = r.chance(35) ? (int) r.below(L_N) : -1; std::vector<i64> base; if (r.chance(30)) gen_lspec(r, base, 6, op);
    for (int i = 0; i < L; i++) { std::vector<i64> a; if (!base.empty()) { a = base; size_t k = r.below(a.size()); if (k != 0) a[k] = 1 + (i64) r.below(4); } else gen_lspec(r, a, 3 + (int) r.below(tier ? 9 : 6), op); p.add("layer", a); }
    int n = 2 + (int) r.below(9); static const int fills[] = {0, 0xA5, 0xFF, 0x7F, 0x41};
    for (int i = 0; i < n; i++) { int k = (int) r.below(100); p.add("step", {k < 60 ? 0 : k < 72 ? 3 : k < 84 ? 2 : k < 92 ? 4 : 0, (i64) r.below(L), (i64) r.below(r.chance(50) ? 3 : 1000), (i64) r.below(64), fills[r.below(5)], r.chance(65) ? 0 : r.chance(50) ? (i64) r.below(343) : 49 * (i64) r.below(7)}); }
    p.add("step", {0, (i64) r.below(L), (i64) r.below(3), (i64) r.below(64), 0xA5}); if (r.chance(15)) p.add("wild", {1});
}
static Reg r13(Prop{"C13", gen_c13, exec_c13, 50000, 2000000, nullptr, "a run counts as non-trivial if an inference followed an earlier completed or aborted one in the same process", REAL, STUB, true});

// ------------------------------------------------------------------ C14
static void exec_c14(const Plan &p) {
    std::vector<LSpec> sp; for (auto *it : p.all("layer")) if (sp.size() < 4) sp.push_back(lspec(*it, 0)); if (sp.empty()) return; size_t L = sp.size();
    std::vector<TensorSet> wt(L), in(L); std::vector<Tensor *> out(L, nullptr); std::vector<LObj> obj(L); std::vector<char> made(L, 0); std::vector<std::set<int>> owned(L); std::vector<LArrays *> arr(L, nullptr);
    struct Fin { std::vector<LObj> &o; std::vector<char> &m; std::vector<Tensor *> &out; std::vector<LArrays *> &a; ~Fin() { g_guard.clear(); g_on_guard_event = nullptr; for (size_t i = 0; i < o.size(); i++) if (m[i]) o[i].destroy(); for (auto t : out) delete t; for (auto x : a) free(x); } } fin{obj, made, out, arr};
    alloc().fill = (int) clampi(p.cfg("fill", 165), 0, 255);
    for (size_t i = 0; i < L; i++) {
        const LSpec &s = sp[i]; arr[i] = (LArrays *) malloc(sizeof(LArrays)); larrays(s, *arr[i]); LArrays copy = *arr[i];
        Result q = in_code([&] { for (auto &x : s.wt) { Tensor *t = make_tensor(x); Harness h; wt[i].t.push_back(t); } for (auto &x : s.in) { Tensor *t = make_tensor(x); Harness h; in[i].t.push_back(t); } out[i] = make_tensor(s.out); }); check(q.o == RET, "c14-died", "creating tensors: " + describe(q));
        wt[i].set(lweights(s, 1)); in[i].set(linputs(s, 1)); std::set<int> b4; for (auto &r : live_ranges()) b4.insert(r.id);
        q = in_code([&] { lmake(s, *arr[i], wt[i].data(), obj[i]); made[i] = 1; }); check(q.o == RET, "c14-died", s.text() + " creation: " + describe(q));
        for (auto &r : live_ranges()) if (!b4.count(r.id)) owned[i].insert(r.id);
        check(memcmp(&copy, arr[i], sizeof copy) == 0, "c14-frame", s.text() + ": creating the layer changed the caller's parameter arrays"); for (size_t k = 0; k < s.wt.size(); k++) check(bits(wt[i].t[k]) == lweights(s, 1)[k], "c14-frame", s.text() + ": creating the layer changed the weights");
        if (p.cfg("arrays", 0) == 1) { memset(arr[i], 0xEE, sizeof(LArrays)); } if (p.cfg("arrays", 0) == 2) { memset(arr[i], 0x00, sizeof(LArrays)); free(arr[i]); arr[i] = nullptr; }
    }
    int step = 0;
    for (auto *it : p.all("step")) {
        if (++step > 8) break; size_t i = (size_t) argc_(*it, 0, 0, (i64) L - 1); const LSpec &s = sp[i]; u64 seed = (u64) arg(*it, 1); bool wild = arg(*it, 3); Vals iv = linputs(s, seed, wild); in[i].set(iv); std::vector<uint32_t> before = lvalues(s.out, seed ^ 99, 0); set_bits(out[i], before);
        struct Prot { Range r; std::string was; bool heap; }; std::vector<Prot> prot; const char *od = (const char *) out[i]->data_; std::vector<Tensor *> ptrs = in[i].t;
        for (auto &r : live_ranges()) if (r.b != od && !owned[i].count(r.id)) prot.push_back({r, std::string(r.b, r.e - r.b), true});
        for (size_t k = 0; k < L; k++) if (arr[k]) prot.push_back({{(const char *) arr[k], (const char *) arr[k] + sizeof(LArrays), 0}, std::string((const char *) arr[k], sizeof(LArrays)), false});
        prot.push_back({{(const char *) ptrs.data(), (const char *) (ptrs.data() + ptrs.size()), 0}, std::string((const char *) ptrs.data(), ptrs.size() * sizeof(Tensor *)), false});
        auto what = [&](const Prot &x) { for (size_t k = 0; k < L; k++) { for (auto t : in[k].t) if (x.r.b == (const char *) t->data_) return k == i ? std::string("its input") : "the input of another layer"; for (auto t : wt[k].t) if (x.r.b == (const char *) t->data_) return k == i ? std::string("its weights") : "the weights of another layer"; if (x.r.b == (const char *) out[k]->data_) return std::string("another tensor"); if ((const char *) obj[k].obj == x.r.b || owned[k].count(x.r.id)) return std::string("another layer"); if ((const char *) arr[k] == x.r.b) return std::string("the caller's parameter array"); } return std::string("an object that is not its output"); };
        auto compare = [&](const char *when) { for (auto &x : prot) { if (x.heap && !is_live(x.r.b)) fail("c14-released", s.text() + " released " + what(x)); if (memcmp(x.r.b, x.was.data(), x.was.size())) fail("c14-frame", s.text() + " changed " + what(x) + " " + when); } };
        g_guard.clear(); for (auto &x : prot) g_guard.push_back(x.r); int hits = 0; g_on_guard_event = [&](int) { hits++; compare("while it runs"); };
        std::vector<Preempt> pre; u64 evs = (u64) arg(*it, 2); for (int k = 0; k < 4; k++) if (evs) pre.push_back({0, 1 + mix(evs, (u64) k) % (1 + evs), 0}); g_on_switch = [&] { count("probe.observed_moments"); compare("while it runs"); };
        std::string end; bool ok = false; run_threads({[&] { Result q = in_code([&] { obj[i].run(ptrs.data(), out[i]); }); end = describe(q); ok = q.o == RET; }}, pre, 0);
        g_guard.clear(); g_on_guard_event = nullptr; g_on_switch = nullptr; check(ok, "c14-died", s.text() + ": " + end); nontrivial(); count("probe.protected_blocks", prot.size()); if (hits) count("probe.stores_to_protected_memory", hits);
        compare("afterwards"); if (wild) { count("probe.special_values"); continue; } std::vector<double> want, tol; lref(s, iv, lweights(s, 1), before, want, tol); std::string d = lcompare(s, bits(out[i]), want, tol); check(d.empty(), p.cfg("arrays", 0) ? "c14-arrays" : "c14-result", s.text() + (p.cfg("arrays", 0) ? " after the caller changed or released its parameter arrays: " : ": ") + d); note(s.text());
    }
}
static void gen_c14(Rng &r, Plan &p, int tier) {
    int L = 1 + (int) r.below(3); int op = r.chance(35) ? (int) r.below(L_N) : -1; for (int i = 0; i < L; i++) { std::vector<i64> a; gen_lspec(r, a, 3 + (int) r.below(tier ? 10 : 7), op); p.add("layer", a); }
    p.add("arrays", {(i64) r.below(3)}); int n = 1 + (int) r.below(3); for (int i = 0; i < n; i++) p.add("step", {(i64) r.below(L), (i64) r.below(1000), r.chance(60) ? 50 + (i64) r.below(4000) : 0, (i64) r.chance(30)}); if (r.chance(30)) p.add("fill", {r.chance(50) ? 0 : 255});
}
static Reg r14(Prop{"C14", gen_c14, exec_c14, 400000, 12000000, nullptr, "every run executes inferences while all memory other than the output is watched; store callbacks and seeded observation points compare it", REAL, STUB});
