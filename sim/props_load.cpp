// C01, C02, C03: binary weights and reference data under storage faults and corruption
#include "iocase.h"
#include "pico-cnn/io/read_binary_weights.h"
#include "pico-cnn/io/read_binary_reference_data.h"
#include <algorithm>
#include <cerrno>
using namespace sim;
static const char *REAL = IO_REAL, *STUB = IO_STUB;

static std::string mk_name(i64 len, i64 seed) { len = clampi(len, 0, 5000); std::string s; Rng r((u64) seed + 77); for (i64 i = 0; i < len; i++) s.push_back((char) ("abcdefghijklmnopqrstuvwxyzABC_0123456789/:.-"[r.below(44)])); return s; }
// item layer: type d0 d1 d2 d3 bias shared_k shared_b name_len
static WFile plan_weights(const Plan &p) {
    WFile f; f.name = mk_name(p.cfg("model_name", 5), 1); int i = 0;
    for (auto *it : p.all("layer")) {
        WLayer l = w_layer((int) argc_(*it, 0, 0, W_NTYPES - 1), (uint32_t) argc_(*it, 1, 1, 70000), (uint32_t) argc_(*it, 2, 1, 70000), (uint32_t) argc_(*it, 3, 1, 300), (uint32_t) argc_(*it, 4, 1, 300), arg(*it, 5) != 0);
        for (int k = 3; k >= 0 && (u64) l.d[0] * l.d[1] * l.d[2] * l.d[3] > 400000; k--) l.d[k] = std::min<uint32_t>(l.d[k], k > 1 ? 4 : 40);
        l.shared_k = arg(*it, 6) != 0; l.shared_b = arg(*it, 7) != 0; l.name = mk_name(arg(*it, 8, 4), ++i); f.layers.push_back(l);
        if (f.layers.size() > 400) break;
    }
    Rng r((u64) p.cfg("values", 1)); w_fill(f, r, (int) p.cfg("special", 0)); return f;
}
static i64 gen_weights(Rng &r, Plan &p) {
    p.add("values", {(i64) r.below(100000)}); p.add("special", {(i64) r.below(2)});
    static const i64 lens[] = {0, 1, 5, 20, 63, 90, 98, 99, 100, 101, 102, 120, 127, 128, 199, 255, 256, 257, 300, 1000};
    p.add("model_name", {r.chance(60) ? (i64) r.below(30) : lens[r.below(20)]});
    int n = r.chance(8) ? 0 : 1 + (int) r.below(r.chance(10) ? 25 : 7); i64 size = 20;
    for (int i = 0; i < n; i++) {
        i64 t = (i64) r.below(W_NTYPES), a = 1 + (i64) r.below(6), b = 1 + (i64) r.below(6), c = 1 + (i64) r.below(5), d = 1 + (i64) r.below(7);
        if (r.chance(6)) { a = 1 + (i64) r.below(300); if (t == W_CONV || t == W_CONV1D) { b = 1 + (i64) r.below(4); } }
        i64 nl = r.chance(75) ? (i64) r.below(30) : lens[r.below(20)];
        p.add("layer", {t, a, b, c, d, r.chance(65), i && r.chance(12), i && r.chance(10), nl});
        size += nl + 30 + 4 * a * b * (t == W_CONV ? c * d : t == W_CONV1D ? d : 1);
    }
    return size;
}

static void exec_c01(const Plan &p) {
    WFile f = plan_weights(p); WModel m = w_model(f); std::string bytes = w_encode(f);
    std::vector<std::vector<uint32_t>> ek, eb; std::string why; if (!w_decode(bytes, m, ek, eb, why)) fail("harness", "oracle refuses its own file: " + why);
    WNet net(m); int attempt = 0;
    for (auto *it : p.all("load")) {
        if (++attempt > 12) break;
        LoadFault lf = load_fault(*it, 0); bool can_fail = hard(lf, bytes.size());
        net.poison(0x7fc00000u + (uint32_t) attempt);
        install(lf, "w.bin", bytes); i64 ret = -99;
        Result r = in_code([&] { ret = read_binary_weights("w.bin", &net.kp, &net.bp); });
        note(fmt("load %d: %s, result %lld", attempt, describe(r).c_str(), (long long) ret));
        if (!can_fail) { check(r.o == RET, "c01-undisturbed-load-died", fmt("loading a complete file %s", describe(r).c_str())); check(ret == 0, "c01-undisturbed-load-refused", fmt("loading a complete file (attempt %d, no fault) reports error %lld", attempt, (long long) ret)); }
        else { nontrivial(); check(r.o == RET || reported(r, ret), "c01-faulty-load-died", fmt("the loader %s", describe(r).c_str())); }
        if (r.o == RET && ret == 0) {
            for (size_t i = 0; i < ek.size(); i++) check(bits(net.k[i]) == ek[i], "c01-wrong-values", fmt("load reported success but kernel tensor %zu does not hold the stored values%s", i, can_fail ? " (storage fault was injected)" : ""));
            for (size_t i = 0; i < eb.size(); i++) check(bits(net.b[i]) == eb[i], "c01-wrong-values", fmt("load reported success but bias tensor %zu does not hold the stored values%s", i, can_fail ? " (storage fault was injected)" : ""));
            count("probe.load_ok");
        } else count("probe.load_refused");
        drop_handles(); sim_time(0.01);
    }
}
static Reg rc01(Prop{"C01", [](Rng &r, Plan &p, int) { i64 sz = gen_weights(r, p); p.add("vary", {(i64) r.below(3)}); int n = 1 + (int) r.below(4); for (int i = 0; i < n; i++) { std::vector<i64> a; if (r.chance(15)) a.assign(7, 0); else gen_load_fault(r, a, sz); p.add("load", a); } p.add("load", {0, 0, 0, 0, 0, 0, 0}); },
    [](const Plan &p) { varied(p, exec_c01, [](Plan &s, i64 k) { // another network: without the first layer, or with the first one last
        std::vector<Item> ls, rest; for (auto &it : s.items) (it.k == "layer" ? ls : rest).push_back(it); if (ls.size() > 1) { Item f = ls[0]; ls.erase(ls.begin()); if (k & 1) ls.push_back(f); if (arg(ls[0], 6) || arg(ls[0], 7)) { ls[0].a[6] = 0; ls[0].a[7] = 0; } } s.items = rest; for (auto &l : ls) s.items.push_back(l); }); }, 40000, 1500000, [](int tier) {
        std::vector<Plan> v;  // every truncation point and every read-error point of a fixed file with all layer types
        for (int mode = 0; mode < 2; mode++) for (i64 o = 0; o < (tier ? 620 : 620); o += 1) { Plan p; p.prop = "C01"; p.add("values", {3}); for (i64 t = 0; t < W_NTYPES; t++) p.add("layer", {t, 2, 3, 1, 3, 1, 0, 0, 5}); p.add("layer", {0, 2, 3, 1, 3, 1, 1, 1, 5}); p.add("layer", {2, 2, 3, 1, 3, 1, 1, 1, 5}); p.add("load", {0, mode ? 0 : 1 + o, mode ? 1 + o : 0, 1, 0, 0, 0}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        // large parameters and many layers, undisturbed, cut off and failing deep inside
        static const i64 big[][5] = {{W_GEMM, 400, 400, 1, 1}, {W_GEMM, 3, 70000, 1, 1}, {W_GEMM, 70000, 2, 1, 1}, {W_MATMUL, 257, 256, 1, 1}, {W_MATMUL, 2, 66000, 1, 1}, {W_CONV, 70, 40, 5, 5}, {W_CONV, 2, 3, 255, 257}, {W_CONV, 300, 1, 11, 11}, {W_CONV, 1, 300, 3, 3}, {W_CONV1D, 300, 5, 1, 255}, {W_CONV1D, 1, 1, 1, 300}, {W_BN, 70000, 1, 1, 1}, {W_BN, 300, 1, 1, 1}, {W_ADD, 66000, 1, 1, 1}, {W_ADD, 256, 1, 1, 1}};
        for (auto &b : big) for (i64 k = 0; k < 9; k++) { Plan p; p.prop = "C01"; p.add("values", {k}); p.add("layer", {b[0], b[1], b[2], b[3], b[4], 1, 0, 0, 5}); p.add("layer", {W_GEMM, 2, 3, 1, 1, 1, 0, 0, 5}); i64 sz = 4 * b[1] * (b[0] == W_BN ? 4 : b[2] * b[3] * b[4]); static const i64 at[] = {0, 4096, 65536, 262144}; if (k) { i64 o = k < 4 ? std::min(sz, at[k]) : k < 7 ? sz * (k - 3) / 4 : sz + (k - 7) * 40; p.add("load", {0, k & 1 ? 1 + o : 0, k & 1 ? 0 : 1 + o, 1, k == 4 ? 1000 : 0, 0, 0}); } p.add("load", {0, 0, 0, 0, k == 2 ? 7 : k == 3 ? 4096 : 0, 0, 0}); v.push_back(p); }
        for (i64 n : {70, 255, 256, 257, 300, 400}) for (i64 k = 0; k < 2; k++) { Plan p; p.prop = "C01"; p.add("values", {n}); Rng r((u64) (n + k)); for (i64 i = 0; i < n; i++) p.add("layer", {k ? (i64) r.below(W_NTYPES) : (i64) W_GEMM, 1 + (i64) r.below(3), 1 + (i64) r.below(3), 1, 1, r.chance(60), i && r.chance(5), i && r.chance(5), (i64) r.below(20)}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        return v; },
    "seeded histories of 1-5 loads of a generated weights file (all layer types, sharing, names of 0..1000 bytes) with truncation, read errors, missing file and re-chunked reads, each ending with an undisturbed load; plus every truncation and read-error offset of one file with all layer types; layers of up to 280000 values and files of up to 400 layers. Non-trivial: a hard fault was injected", REAL, STUB});

static Shape plan_shape(const Plan &p, bool input) {
    const Item *it = p.find("shape"); Shape s; if (!it) return {1, 3};
    int nd = input ? (int) argc_(*it, 0, 2, 4) : 2;
    uint32_t c = (uint32_t) argc_(*it, 1, 1, 70000), h = (uint32_t) argc_(*it, 2, 1, 70000), w = (uint32_t) argc_(*it, 3, 1, 70000); if ((u64) c * h * w > 400000) { c = std::min(c, 40u); h = std::min(h, 40u); w = std::min(w, 40u); }
    if (nd == 4) s = {1, c, h, w}; else if (nd == 3) s = {1, c, w}; else s = {(uint32_t) (input ? std::min(h, 20u) : 1), w};
    return s;
}
static i64 gen_shape(Rng &r, Plan &p) { i64 nd = 2 + (i64) r.below(3); i64 c = 1 + (i64) r.below(5), h = nd == 2 ? (r.chance(80) ? 1 : 1 + (i64) r.below(4)) : 1 + (i64) r.below(6), w = 1 + (i64) r.below(nd == 2 ? 60 : 8); if (r.chance(5)) w = 1 + (i64) r.below(300); p.add("shape", {nd, c, h, w}); return 24 + 4 * w * (nd == 2 ? h : c * (nd == 4 ? h : 1)); }
static void exec_c02(const Plan &p) {
    bool in = p.cfg("input", 1) != 0; Shape s = plan_shape(p, in); Rng r((u64) p.cfg("values", 1)); std::vector<uint32_t> v(elems(s)); for (auto &x : v) x = rnd_float_bits(r, (int) p.cfg("special", 0));
    std::string bytes = in ? fci_encode(s, v) : fco_encode((uint32_t) v.size(), v);
    std::unique_ptr<Tensor> t(make_tensor(s)); Tensor *tp = t.get(); int attempt = 0;
    for (auto *it : p.all("load")) {
        if (++attempt > 12) break;
        LoadFault lf = load_fault(*it, 0); bool can_fail = hard(lf, bytes.size());
        set_bits(tp, std::vector<uint32_t>(v.size(), 0x7fc00000u + (uint32_t) attempt)); install(lf, "r.data", bytes); i64 ret = -99;
        Result q = in_code([&] { ret = in ? read_binary_reference_input_data("r.data", &tp) : read_binary_reference_output_data("r.data", &tp); });
        note(fmt("load %d: %s, result %lld", attempt, describe(q).c_str(), (long long) ret));
        check(tp == t.get(), "c02-tensor-replaced", "the tensor pointer was changed");
        if (!can_fail) { check(q.o == RET, "c02-undisturbed-load-died", "loading a complete file " + describe(q)); check(ret == 0, "c02-undisturbed-load-refused", fmt("loading a complete file of the right shape reports error %lld", (long long) ret)); }
        else { nontrivial(); check(q.o == RET || reported(q, ret), "c02-faulty-load-died", "the loader " + describe(q)); }
        if (q.o == RET && ret == 0) { check(bits(tp) == v, "c02-wrong-values", fmt("load reported success but the tensor does not hold the stored values%s", can_fail ? " (storage fault was injected)" : "")); count("probe.load_ok"); } else count("probe.load_refused");
        drop_handles(); sim_time(0.01);
    }
}
static Reg rc02(Prop{"C02", [](Rng &r, Plan &p, int) { p.add("input", {(i64) r.below(3) > 0}); p.add("values", {(i64) r.below(100000)}); p.add("special", {(i64) r.below(2)}); p.add("vary", {(i64) r.below(3)}); i64 sz = gen_shape(r, p); int n = 1 + (int) r.below(4); for (int i = 0; i < n; i++) { std::vector<i64> a; if (r.chance(15)) a.assign(7, 0); else gen_load_fault(r, a, sz); p.add("load", a); } p.add("load", {0, 0, 0, 0, 0, 0, 0}); },
    [](const Plan &p) { varied(p, exec_c02, [](Plan &s, i64 k) { if (k % 3 == 2) bump(s, "input", 1, 1, 2); for (auto &it : s.items) if (it.k == "shape" && it.a.size() > 3) { it.a[1 + (size_t) (k % 3)] += 1; if (k & 2) std::swap(it.a[2], it.a[3]); } }); }, 60000, 2000000, [](int) { std::vector<Plan> v; for (i64 in = 0; in < 2; in++) for (i64 nd = 2; nd <= 4; nd++) for (int mode = 0; mode < 2; mode++) for (i64 o = 0; o < 130; o++) { Plan p; p.prop = "C02"; p.add("input", {in}); p.add("shape", {nd, 2, nd == 2 ? 1 : 2, 5}); p.add("load", {0, mode ? 0 : 1 + o, mode ? 1 + o : 0, 1, 0, 0, 0}); p.add("load", {0, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
        static const i64 big[][4] = {{4, 3, 224, 224}, {4, 300, 30, 30}, {4, 70000, 1, 2}, {4, 1, 70000, 1}, {4, 1, 1, 70000}, {4, 2, 256, 257}, {3, 3, 1, 70000}, {3, 70000, 1, 3}, {3, 256, 1, 300}, {2, 1, 1, 70000}, {2, 1, 1, 256}, {2, 1, 1, 1000}, {2, 1, 20, 5000}};
        for (i64 in = 0; in < 2; in++) for (auto &b : big) if (in || b[0] == 2) for (i64 k = 0; k < 9; k++) { Plan p; p.prop = "C02"; p.add("input", {in}); p.add("shape", {b[0], b[1], b[2], b[3]}); i64 sz = 4 * b[1] * b[2] * b[3]; static const i64 at[] = {0, 4096, 65536, 262144}; if (k) { i64 o = k < 4 ? std::min(sz, at[k]) : k < 7 ? sz * (k - 3) / 4 : sz + (k - 7) * 20; p.add("load", {0, k & 1 ? 1 + o : 0, k & 1 ? 0 : 1 + o, 1, 0, 0, 0}); } p.add("load", {0, 0, 0, 0, k == 2 ? 7 : k == 3 ? 4096 : 0, 0, 0}); v.push_back(p); }
        return v; },
    "seeded histories of loads of a generated reference input (2-D, 3-D, 4-D) or output file with truncation, read errors, missing file and re-chunked reads, ending with an undisturbed load; plus every truncation and read-error offset of one file per kind and rank. Non-trivial: a hard fault was injected", REAL, STUB});

// ---- C03 -----------------------------------------------------------------------
static void exec_c03(const Plan &p) {
    i64 what = p.cfg("what", 0); LoadFault lf = {0, -1, -1, 0, p.cfg("chunk", 0), 3, -1}; bool changed = false; i64 ret = -99;
    if (what == 0) {
        WFile f = plan_weights(p); WModel m = w_model(f);
        // stale file: the network has the planned shapes, the file was written for others
        WFile g = f; for (auto *it : p.all("stale")) if (!g.layers.empty()) { WLayer &l = g.layers[(size_t) arg(*it, 0) % g.layers.size()]; l.d[(size_t) arg(*it, 1) & 3] = (uint32_t) argc_(*it, 2, 1, 300); if (arg(*it, 3) == 1) l.bias = !l.bias; if (arg(*it, 3) >= 2) { size_t k = (size_t) arg(*it, 0) % g.layers.size(); WLayer c = g.layers[k]; if (arg(*it, 3) == 2) g.layers.erase(g.layers.begin() + (long) k); else g.layers.insert(g.layers.begin() + (long) k, c); } count("fault.stale_shape"); }
        if (p.find("stale")) { Rng r((u64) p.cfg("values", 1) + 5); w_fill(g, r, 0); nontrivial(); }
        std::vector<size_t> ints, bounds; std::string bytes = mutate_bytes(w_encode(g, &ints, &bounds), p, ints, bounds, changed);
        if (changed) nontrivial();
        std::vector<std::vector<uint32_t>> ek, eb; std::string why; bool acc = w_decode(bytes, m, ek, eb, why);
        WNet net(m); net.poison(0x7fc0beef); install(lf, "w.bin", bytes);
        g_step_budget = total_events() + 4000000 + 400 * bytes.size();
        Result r = in_code([&] { ret = read_binary_weights("w.bin", &net.kp, &net.bp); });
        g_step_budget = 400000000;
        note(fmt("load: %s, result %lld; oracle %s", describe(r).c_str(), (long long) ret, acc ? "accepts" : why.c_str()));
        check(r.o == RET || r.o == THREW_BADALLOC || reported(r, ret), "c03-died", "loading a damaged weights file " + describe(r));
        for (size_t i = 0; i < m.kernels.size(); i++) check(net.kp[i] == net.k[i], "c03-pointer-array", "an entry of the kernel array was changed");
        for (size_t i = 0; i < m.biases.size(); i++) check(net.bp[i] == net.b[i], "c03-pointer-array", "an entry of the bias array was changed");
        if (r.o == RET && ret == 0) {
            count("probe.damaged_accepted"); check(acc, "c03-accepted", "a weights file that must be refused was accepted: " + why);
            for (size_t i = 0; i < ek.size(); i++) check(bits(net.k[i]) == (ek[i].empty() ? std::vector<uint32_t>(net.k[i]->num_elements(), 0x7fc0beef) : ek[i]), "c03-wrong-values", fmt("accepted, but kernel %zu does not hold the stored values", i));
            for (size_t i = 0; i < eb.size(); i++) check(bits(net.b[i]) == (eb[i].empty() ? std::vector<uint32_t>(net.b[i]->num_elements(), 0x7fc0beef) : eb[i]), "c03-wrong-values", fmt("accepted, but bias %zu does not hold the stored values", i));
        } else count("probe.damaged_refused");
    } else {
        bool in = what == 1; Shape s = plan_shape(p, in), fs = s; for (auto *it : p.all("stale")) { size_t k = (size_t) arg(*it, 0) % fs.size(); fs[k] = (uint32_t) argc_(*it, 2, 1, 400); if (!in) fs[0] = 1; count("fault.stale_shape"); nontrivial(); }
        Rng r((u64) p.cfg("values", 1)); std::vector<uint32_t> v(elems(fs)); for (auto &x : v) x = rnd_float_bits(r, (int) p.cfg("special", 0));
        std::string bytes = in ? fci_encode(fs, v) : fco_encode((uint32_t) v.size(), v); std::vector<size_t> ints = in ? std::vector<size_t>{4, 8, 12, 16} : std::vector<size_t>{4, 8}, bounds;
        if (arg(p.find("swapkind") ? *p.find("swapkind") : Item(), 0)) { bytes[2] = in ? 'O' : 'I'; changed = true; count("fault.wrong_kind"); }
        bool ch2; bytes = mutate_bytes(bytes, p, ints, bounds, ch2); if (changed || ch2) nontrivial();
        std::vector<uint32_t> e; std::string why; bool acc = ref_decode(bytes, in, s, e, why);
        std::unique_ptr<Tensor> t(make_tensor(s)); Tensor *tp = t.get(); set_bits(tp, std::vector<uint32_t>(elems(s), 0x7fc0beef)); install(lf, "r.data", bytes);
        g_step_budget = total_events() + 4000000 + 400 * bytes.size();
        Result q = in_code([&] { ret = in ? read_binary_reference_input_data("r.data", &tp) : read_binary_reference_output_data("r.data", &tp); });
        g_step_budget = 400000000;
        note(fmt("load: %s, result %lld; oracle %s", describe(q).c_str(), (long long) ret, acc ? "accepts" : why.c_str()));
        check(q.o == RET || q.o == THREW_BADALLOC || reported(q, ret), "c03-died", "loading a damaged reference file " + describe(q));
        if (q.o == RET && ret == 0) { count("probe.damaged_accepted"); check(acc, "c03-accepted", "a reference file that must be refused was accepted: " + why); check(bits(tp) == e, "c03-wrong-values", "accepted, but the tensor does not hold the stored values"); } else count("probe.damaged_refused");
    }
    sim_time(0.01);
}
static Reg rc03(Prop{"C03", [](Rng &r, Plan &p, int) {
        i64 what = r.chance(60) ? 0 : 1 + (i64) r.below(2); p.add("what", {what}); if (r.chance(20)) p.add("chunk", {1 + (i64) r.below(9)}); i64 sz;
        if (what == 0) sz = gen_weights(r, p); else { p.add("values", {(i64) r.below(100000)}); p.add("special", {(i64) r.below(2)}); sz = gen_shape(r, p); if (r.chance(5)) p.add("swapkind", {1}); }
        if (r.chance(30)) { int n = 1 + (int) r.below(2); for (int i = 0; i < n; i++) p.add("stale", {(i64) r.below(7), (i64) r.below(4), 1 + (i64) r.below(r.chance(20) ? 200 : 9), r.chance(50) ? 0 : (i64) r.below(4)}); }
        gen_mut(r, p, sz, what == 0, p.find("stale") != nullptr); },
    exec_c03, 120000, 4000000, nullptr, "seeded corruptions (bit flips, overwritten/zeroed/garbled/duplicated/missing/swapped blocks, layer blocks duplicated or dropped, every number field overwritten with boundary values, cut-offs) and stale shapes of generated weights and reference files; accepted loads are compared with an independent parser. Non-trivial: the bytes or shapes differ from a matching file", REAL, STUB});
