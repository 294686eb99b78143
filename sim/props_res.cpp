// C10 (everything acquired is released exactly once), C11 (running out of memory is contained)
#include "ops.h"
#include <algorithm>
#include <cerrno>
using namespace sim;

static void bounded(size_t bytes) { g_step_budget = total_events() + 40000000 + 4000 * (u64) bytes; alloc().limit_one = 5u << 20; }
static void unbounded() { g_step_budget = 400000000; alloc().limit_one = 256u << 20; }

// ------------------------------------------------------------------ C10
// step: kind seed flags | load fault (7) | close errno, dropped bytes, full_at+1;   smut: step kind a b c  = corruption of that step's file
static void exec_c10(const Plan &p) {
    int idx = 0, n_steps = 0; std::vector<std::shared_ptr<void>> hold;
    for (size_t i = 0; i < p.items.size(); i++) {
        const Item &it = p.items[i]; if (it.k != "step") continue; int me = idx++; if (++n_steps > 12) break;
        int kind = (int) argc_(it, 0, 0, IO_NKINDS - 1); IoCase c = make_io_case(kind, (u64) arg(it, 1)); i64 flags = arg(it, 2);
        if (c.hold) hold.push_back(c.hold);
        LoadFault lf = load_fault(it, 3); bool changed = false; std::string bytes = c.bytes;
        if (!c.writer) { Plan q; for (auto *m : p.all("smut")) if (arg(*m, 0) == me) q.add("mut", std::vector<i64>(m->a.begin() + 1, m->a.end())); if (!q.items.empty()) bytes = mutate_bytes(bytes, q, {}, {}, changed); install(lf, c.path, bytes); }
        else {
            disk().files.erase(c.path); disk().faults.erase(c.path); if (flags & 1) disk().put(c.path, std::string(500, 'x'));
            StreamFault s; s.open_errno = (int) lf.open_errno; s.eio_at = lf.eio; s.eio_sticky = (int) lf.sticky; s.chunk = std::max<i64>(0, lf.chunk); s.chunk_seed = (u64) lf.cseed; s.bufsize = lf.bufsize > 1 ? std::min<i64>(lf.bufsize, 1 << 20) : lf.bufsize == 1 ? 1 : -1; s.full_at = arg(it, 12) - 1; s.close_errno = (int) clampi(arg(it, 10), 0, 120); s.close_drop = clampi(arg(it, 11), 0, 1000); disk().fault(c.path, s);
        }
        bool faulty = changed || hard(lf, c.bytes.size()) || (c.writer && (arg(it, 10) || arg(it, 12))); if (faulty) nontrivial();
        c.reset(); take_mem_errors(); i64 before = live_blocks(); bounded(bytes.size());
        Result q = in_code(c.call); unbounded();
        note(fmt("step %d: %s: %s%s", me, io_name[kind], describe(q).c_str(), q.o == RET ? (c.succeeded() ? ", success" : ", error") : ""));
        auto me_ = take_mem_errors(); if (!me_.empty()) fail("c10-misuse", fmt("%s: %s", io_name[kind], me_[0].c_str()));
        if (q.o == EXITED || q.o == CRASHED) { if (q.exit_code == 0x10002) fail("c10-abort", fmt("%s aborts the process", io_name[kind])); count("probe.process_ended"); drop_handles(); forget_blocks(); continue; }
        check(q.o == RET || q.o == THREW_BADALLOC, "c10-exception", fmt("%s ends with %s", io_name[kind], describe(q).c_str()));
        check(open_handles() == 0, "c10-handle-leak", fmt("%s leaves %d file(s) open after reporting %s", io_name[kind], open_handles(), q.o == RET && c.succeeded() ? "success" : "failure"));
        if (q.o == RET && c.succeeded()) {
            count("probe.success"); i64 mid = live_blocks(); c.release(); auto m2 = take_mem_errors();
            if (!m2.empty()) fail("c10-misuse", fmt("releasing the result of %s: %s", io_name[kind], m2[0].c_str()));
            check(live_blocks() == before, "c10-leak", fmt("%s succeeded, %lld block(s) remain after its results were released (%lld during): %s", io_name[kind], (long long) (live_blocks() - before), (long long) (mid - before), live_report().c_str()));
        } else { count("probe.failure"); check(live_blocks() == before, "c10-leak", fmt("%s failed and leaves %lld block(s) behind: %s", io_name[kind], (long long) (live_blocks() - before), live_report().c_str())); }
        c.reset();
    }
}
static void gen_c10(Rng &r, Plan &p, int) {
    int n = 1 + (int) r.below(6), calm = (int) r.below(60); int only = r.chance(30) ? (int) r.below(IO_NKINDS) : -1;
    for (int i = 0; i < n; i++) {
        int kind = only >= 0 ? only : (int) r.below(IO_NKINDS); i64 seed = (i64) r.below(1 << 20); std::vector<i64> a = {kind, seed, (i64) r.below(2)};
        i64 size = 60; { IoCase c = make_io_case(kind, (u64) seed); size = c.writer ? 20 + 6 * 30 : (i64) c.bytes.size(); }
        if (r.chance(calm)) a.insert(a.end(), 7, 0); else gen_load_fault(r, a, size);
        if (kind == IO_WFLOAT || kind == IO_WPGM) { if (r.chance(calm)) a.insert(a.end(), {0, 0, 0}); else { static const int ce[] = {0, 0, EIO, ENOSPC}; a.push_back(ce[r.below(4)]); a.push_back(r.chance(50) ? (i64) r.below(50) : 0); a.push_back(r.chance(50) ? 1 + (i64) r.below(120) : 0); } }
        else { a.insert(a.end(), {0, 0, 0}); if (r.chance(40)) { Plan q; gen_mut(r, q, size, kind == IO_WEIGHTS, false); for (auto &m : q.items) { std::vector<i64> b = {i}; b.insert(b.end(), m.a.begin(), m.a.end()); p.add("smut", b); } } }
        p.add("step", a);
    }
}
static Reg r10(Prop{"C10", gen_c10, exec_c10, 500000, 15000000, nullptr, "a run counts as non-trivial if at least one of its loads or saves met a damaged file or a storage fault", IO_REAL, IO_STUB});

// ------------------------------------------------------------------ C11
// io: kind seed;  layer: spec args;  fail: first last sticky  (allocation indices tried)
static void exec_c11_io(const Plan &p, const Item &it) {
    int kind = (int) argc_(it, 0, 0, IO_NKINDS - 1); IoCase c = make_io_case(kind, (u64) arg(it, 1)); i64 lo = 1, hi = 60; bool sticky = false; if (auto *f = p.find("fail")) { lo = clampi(arg(*f, 0), 1, 100000); hi = clampi(arg(*f, 1), 1, 100000); sticky = arg(*f, 2) & 1; }
    auto put = [&] { if (!c.writer) { disk().put(c.path, c.bytes); disk().faults.erase(c.path); } };
    put(); c.reset(); alloc() = AllocCtl(); alloc().fill = (int) clampi(p.cfg("fill", 165), 0, 255); Result q = in_code(c.call); i64 n = alloc().counted;
    check(q.o == RET && c.succeeded(), "c11-clean", fmt("%s of an undisturbed file: %s", io_name[kind], describe(q).c_str())); { std::string w = c.verify(); check(w.empty(), "c11-clean", w); } c.release(); c.reset(); take_mem_errors();
    i64 base = live_blocks(); note(fmt("%s makes %lld allocations", io_name[kind], (long long) n));
    for (i64 k = lo; k <= std::min(hi, n); k++) {
        put(); c.reset(); i64 failed0 = alloc().failed; alloc().counted = 0; alloc().fail_at = k; alloc().fail_sticky = sticky; Result f = in_code(c.call); alloc().fail_at = -1; alloc().fail_sticky = false;
        if (alloc().failed > failed0) nontrivial(); note(fmt("allocation %lld fails: %s%s", (long long) k, describe(f).c_str(), f.o == RET ? (c.succeeded() ? " success" : " error") : ""));
        check(f.o == RET || f.o == THREW_BADALLOC, "c11-outcome", fmt("%s, allocation %lld of %lld fails%s: %s", io_name[kind], (long long) k, (long long) n, sticky ? " and all later ones" : "", describe(f).c_str()));
        if (f.o == RET && c.succeeded()) { std::string w = c.verify(); check(w.empty(), "c11-made-up", fmt("%s, allocation %lld of %lld fails, reports success: %s", io_name[kind], (long long) k, (long long) n, w.c_str())); c.release(); }
        auto me = take_mem_errors(); if (!me.empty()) fail("c11-misuse", fmt("%s, allocation %lld of %lld fails: %s", io_name[kind], (long long) k, (long long) n, me[0].c_str()));
        check(open_handles() == 0, "c11-handle-leak", fmt("%s, allocation %lld of %lld fails: %d file(s) left open", io_name[kind], (long long) k, (long long) n, open_handles()));
        check(live_blocks() == base, "c11-leak", fmt("%s, allocation %lld of %lld fails: %lld block(s) left: %s", io_name[kind], (long long) k, (long long) n, (long long) (live_blocks() - base), live_report().c_str()));
        put(); c.reset(); Result g = in_code(c.call); check(g.o == RET && c.succeeded(), "c11-retry", fmt("%s repeated with memory available: %s", io_name[kind], describe(g).c_str())); std::string w = c.verify(); check(w.empty(), "c11-retry", fmt("%s repeated with memory available: %s", io_name[kind], w.c_str())); c.release(); c.reset();
        check(live_blocks() == base, "c11-leak", fmt("%s repeated: %lld block(s) left", io_name[kind], (long long) (live_blocks() - base)));
    }
}
struct World {            // everything one inference needs, made in code under test
    std::vector<Tensor *> in, wt; Tensor *out = nullptr; LObj l; bool made = false;
    ~World() { clear(); }
    void clear() { if (made) { l.destroy(); made = false; } for (auto t : in) delete t; for (auto t : wt) delete t; delete out; in.clear(); wt.clear(); out = nullptr; }
};
static void build_world(const LSpec &s, World &w) {
    for (auto &x : s.in) { Tensor *t = make_tensor(x); Harness h; w.in.push_back(t); }
    for (auto &x : s.wt) { Tensor *t = make_tensor(x); Harness h; w.wt.push_back(t); }
    w.out = make_tensor(s.out);
    LArrays a; { Harness h; larrays(s, a); }
    lmake(s, a, w.wt.data(), w.l); w.made = true;
}
static void exec_c11_layer(const Plan &p, const Item &it) {
    LSpec s = lspec(it, 0); i64 lo = 1, hi = 60; bool sticky = false; if (auto *f = p.find("fail")) { lo = clampi(arg(*f, 0), 1, 100000); hi = clampi(arg(*f, 1), 1, 100000); sticky = arg(*f, 2) & 1; }
    Vals in = linputs(s, (u64) p.cfg("input", 1)), wt = lweights(s, 1); std::vector<uint32_t> before = lvalues(s.out, 99, 0); std::vector<double> want, tol; lref(s, in, wt, before, want, tol);
    auto fill = [&](World &w) { for (size_t i = 0; i < in.size(); i++) set_bits(w.in[i], in[i]); for (size_t i = 0; i < wt.size(); i++) set_bits(w.wt[i], wt[i]); set_bits(w.out, before); };
    auto frame = [&](World &w) { for (size_t i = 0; i < in.size(); i++) if (bits(w.in[i]) != in[i]) return fmt("input %zu changed", i); for (size_t i = 0; i < wt.size(); i++) if (bits(w.wt[i]) != wt[i]) return fmt("weights %zu changed", i); return std::string(); };
    alloc() = AllocCtl(); alloc().fill = (int) clampi(p.cfg("fill", 165), 0, 255); std::string name = s.text(); note(name);
    i64 n_make = 0, n_run = 0, base = 0;
    for (int warm = 0; warm < 2; warm++) {        // the first pass lets one-time initialisations happen
        base = live_blocks(); World w; alloc().counted = 0; Result q = in_code([&] { build_world(s, w); }); n_make = alloc().counted; check(q.o == RET, "c11-clean", name + ": creation: " + describe(q));
        fill(w); alloc().counted = 0; q = in_code([&] { w.l.run(w.in.data(), w.out); }); n_run = alloc().counted; check(q.o == RET, "c11-clean", name + ": inference: " + describe(q)); std::string d = lcompare(s, bits(w.out), want, tol); check(d.empty(), "c11-clean", name + ": " + d);
        w.clear(); if (warm) check(live_blocks() == base, "c11-leak", name + fmt(": %lld block(s) left after everything was released: ", (long long) (live_blocks() - base)) + live_report());
    }
    take_mem_errors(); base = live_blocks();
    for (i64 k = lo; k <= std::min(hi, n_make); k++) {
        World w; i64 f0 = alloc().failed; alloc().counted = 0; alloc().fail_at = k; alloc().fail_sticky = sticky; Result q = in_code([&] { build_world(s, w); }); alloc().fail_at = -1; alloc().fail_sticky = false; if (alloc().failed > f0) nontrivial();
        check(q.o == THREW_BADALLOC || q.o == RET, "c11-outcome", name + fmt(": creation, allocation %lld of %lld fails: ", (long long) k, (long long) n_make) + describe(q));
        if (q.o == RET) { fill(w); Result g = in_code([&] { w.l.run(w.in.data(), w.out); }); check(g.o == RET, "c11-outcome", name + ": inference after a creation that met a failing allocation: " + describe(g)); std::string d = lcompare(s, bits(w.out), want, tol); check(d.empty(), "c11-made-up", name + ": created although an allocation failed, but " + d); }
        w.clear(); auto me = take_mem_errors(); if (!me.empty()) fail("c11-misuse", name + fmt(": creation, allocation %lld of %lld fails: ", (long long) k, (long long) n_make) + me[0]);
        check(live_blocks() == base, "c11-leak", name + fmt(": creation, allocation %lld of %lld fails: %lld block(s) left: ", (long long) k, (long long) n_make, (long long) (live_blocks() - base)) + live_report());
    }
    World w, by; Result q = in_code([&] { build_world(s, w); build_world(s, by); }); check(q.o == RET, "c11-clean", "creation: " + describe(q)); fill(w); fill(by); i64 b2 = live_blocks();
    for (i64 k = lo; k <= std::min(hi, n_run); k++) {
        set_bits(w.out, before); i64 f0 = alloc().failed; alloc().counted = 0; alloc().fail_at = k; alloc().fail_sticky = sticky; q = in_code([&] { w.l.run(w.in.data(), w.out); }); alloc().fail_at = -1; alloc().fail_sticky = false; if (alloc().failed > f0) { nontrivial(); count("probe.inference_ran_out_of_memory"); }
        std::string at = name + fmt(": inference, allocation %lld of %lld fails", (long long) k, (long long) n_run); note(at + ": " + describe(q));
        check(q.o == THREW_BADALLOC || q.o == RET, "c11-outcome", at + ": " + describe(q));
        if (q.o == RET) { std::string d = lcompare(s, bits(w.out), want, tol); check(d.empty(), "c11-made-up", at + ", ends normally: " + d); }
        auto me = take_mem_errors(); if (!me.empty()) fail("c11-misuse", at + ": " + me[0]);
        check(live_blocks() == b2, "c11-leak", at + fmt(": %lld block(s) left: ", (long long) (live_blocks() - b2)) + live_report());
        std::string d = frame(w); check(d.empty(), "c11-frame", at + ": " + d); d = frame(by); check(d.empty() && bits(by.out) == before, "c11-frame", at + ": another object changed");
        set_bits(w.out, before); q = in_code([&] { w.l.run(w.in.data(), w.out); }); check(q.o == RET, "c11-retry", at + ", repeated: " + describe(q)); d = lcompare(s, bits(w.out), want, tol); check(d.empty(), "c11-retry", at + ", repeated: " + d);
    }
    w.clear(); by.clear(); auto me = take_mem_errors(); if (!me.empty()) fail("c11-misuse", name + ": release: " + me[0]); check(live_blocks() == base, "c11-leak", name + ": blocks left after everything was released: " + live_report());
}
static void exec_c11(const Plan &p) { int n = 0; for (auto &it : p.items) { if (it.k == "io" && ++n < 8) exec_c11_io(p, it); if (it.k == "layer" && ++n < 8) exec_c11_layer(p, it); } }
static void gen_c11(Rng &r, Plan &p, int) {
    if (r.chance(35)) { int kind = (int) r.below(IO_NKINDS); p.add("io", {kind, (i64) r.below(1 << 20)}); } else { std::vector<i64> a; gen_lspec(r, a, 7); p.add("layer", a); }
    p.add("fail", {1, 200, (i64) r.below(2)}); if (r.chance(50)) p.add("fill", {r.chance(50) ? 0 : 255}); p.add("input", {(i64) r.below(1000)});
}
static Reg r11(Prop{"C11", gen_c11, exec_c11, 500000, 15000000, nullptr, "a run fails every allocation of one operation in turn; it counts as non-trivial if at least one allocation failed", "pico-cnn/tensor.cpp, layers, io, libjpeg, C++ runtime", "heap accounting around the real heap, file storage below stdio, process exit, console"});
