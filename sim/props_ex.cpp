// C28: the evaluation programs of examples/ as simulated processes over a simulated disk.
// Left out because known_findings.txt lists them: paths of 1024 and more characters, fewer than 1000 pictures or labels, labels above 9, JPEG
// pictures of other sizes than 224x224; the path buffers of the MNIST programs (4 bytes short) are not monitored (build.sh) and path lengths are
// chosen so that those bytes lie in the alignment of the buffer.
#include "iocase.h"
#include "ex/network.h"
#include <algorithm>
#include <cerrno>
#include <iostream>
#include <sstream>
using namespace sim;
int ex_lenet(int, char **) __attribute__((weak)); int ex_mnist_mlp(int, char **) __attribute__((weak)); int ex_mnist_simple_perceptron(int, char **) __attribute__((weak)); int ex_alexnet(int, char **) __attribute__((weak)); int ex_vgg(int, char **) __attribute__((weak));
static const char *prog_name[] = {"lenet", "mnist_mlp", "mnist_simple_perceptron", "alexnet", "vgg"};

// ---- the network as the program sees it
static struct ExWorld {
    WModel model; std::vector<std::vector<uint32_t>> ek, eb; u64 seed; size_t outs;
    std::vector<std::vector<float>> want;              // inputs the program has to present, in this order
    double tol; size_t calls = 0, made = 0; std::string wrong;
    std::vector<float> out(size_t call) const {        // distinct values in a seeded order
        std::vector<float> v(outs); for (size_t i = 0; i < outs; i++) v[i] = (float) ((i64) i * 3 - (i64) (mix(seed, 99) % (3 * outs)));
        Rng r(mix(seed, call)); for (size_t i = outs - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]); return v;
    }
} *g_w;
Network::Network() { Harness h; g_w->made++; WNet *n = new WNet(g_w->model); n->poison(0x7fc0beef); sim = n; kernels = n->kp; biases = n->bp; }
Network::~Network() { Harness h; delete (WNet *) sim; }
void Network::run(Tensor *in, Tensor *out) {
    Harness h; WNet *n = (WNet *) sim; ExWorld &w = *g_w; size_t c = w.calls++;
    auto bad = [&](const std::string &s) { if (w.wrong.empty()) w.wrong = fmt("inference %zu: ", c + 1) + s; };
    for (size_t i = 0; i < n->k.size(); i++) if (bits(n->k[i]) != w.ek[i]) bad("the parameters are not those of the weights file");
    for (size_t i = 0; i < n->b.size(); i++) if (bits(n->b[i]) != w.eb[i]) bad("the parameters are not those of the weights file");
    auto x = bits(in); if (c >= w.want.size()) bad("more inferences than inputs"); else if (x.size() != w.want[c].size()) bad(fmt("input of %zu values", x.size()));
    else for (size_t i = 0; i < x.size(); i++) if (!close_to(f_of(x[i]), w.want[c][i], w.tol)) { bad(fmt("input value %zu is %g, the picture gives %g", i, (double) f_of(x[i]), (double) w.want[c][i])); break; }
    auto o = w.out(c); if (out->num_elements() != o.size()) { bad("output tensor of another size"); return; }
    std::vector<uint32_t> ob; for (float f : o) ob.push_back(b_of(f)); set_bits(out, ob);
}

static LoadFault fault_of(const Plan &p, const char *k) { const Item *it = p.find(k); return it ? load_fault(*it, 0) : LoadFault{0, -1, -1, 0, 0, 0, -1}; }
static std::string path_of(const Plan &p, const char *base, const char *k) { std::string s = base; for (i64 n = clampi(p.cfg(k, 0), 0, 1023) - (p.cfg(k, 0) % 16 == 9); (i64) s.size() < n;) s += (s.size() % 9 == 5 ? '/' : 'q'); return s; }
static void exec_c28(const Plan &p) {
    int prog = (int) clampi(p.cfg("prog", 0), 0, 4); bool mn = prog < 3; ExWorld w; g_w = &w; w.seed = (u64) p.cfg("values", 1); w.outs = mn ? 10 : 1000; Rng r(w.seed);
    WFile f; f.name = "model"; f.layers.push_back(w_layer(W_GEMM, 3, 4, 1, 1, true)); f.layers.back().name = "fc"; for (i64 k = clampi(p.cfg("layers", 0), 0, 12); k > 0; k--) { WLayer l = w_layer((int) r.below(W_NTYPES), 1 + (uint32_t) r.below(6), 1 + (uint32_t) r.below(6), 1 + (uint32_t) r.below(5), 1 + (uint32_t) r.below(7), r.chance(65)); l.shared_k = r.chance(10); l.shared_b = r.chance(10); l.name = "layer" + std::to_string(k); f.layers.push_back(l); }
    w_fill(f, r, 0); w.model = w_model(f); std::string wb = w_encode(f), why; if (!w_decode(wb, w.model, w.ek, w.eb, why)) fail("harness", why);
    bool hf = false, ok = true; std::string expect; std::vector<std::string> labels; std::vector<uint8_t> lab; size_t N = 0; std::vector<std::pair<std::string, std::string>> put;
    std::string wp = path_of(p, "w", "wpath"), dp = path_of(p, "d", "dpath"), mp = "means", lp = path_of(p, "l", "dpath"), jp = path_of(p, "j", "wpath");
    auto file = [&](const char *k, const std::string &path, const std::string &b) { LoadFault lf = fault_of(p, k); bool x = hard(lf, b.size()); hf = hf || x; install(lf, path, b); if (x) count("fault.on_one_of_several_files"); };
    if (p.cfg("stale", 0)) { WFile g = f; g.layers[0].d[(size_t) p.cfg("stale", 0) % 2] += 1; w_fill(g, r, 0); wb = w_encode(g); ok = false; count("fault.stale_weights"); }
    file("fw", wp, wb);
    if (mn) {
        size_t n = (size_t) clampi(p.cfg("n", 1000), 1000, 1300), nl = (size_t) clampi((i64) n + p.cfg("more", 0), 0, 1400); std::vector<uint8_t> px; std::string ib = mnist_images((uint32_t) n, 28, 28, r, px, (int) p.cfg("pattern", 0)), lb; lb = mnist_labels((uint32_t) nl, r, lab);
        for (size_t i = 0; i < nl; i++) { lab[i] %= 10; lb[8 + i] = (char) lab[i]; }
        for (auto *it : p.all("label")) if (nl) { size_t k = (size_t) arg(*it, 0) % nl; lab[k] = (uint8_t) argc_(*it, 1, 0, 9); lb[8 + k] = (char) lab[k]; count("fault.label_changed"); }
        N = std::min<size_t>(n, 1000); ok = ok && N > 0 && std::min<size_t>(nl, 1000) == N; for (size_t i = 0; ok && i < N; i++) ok = lab[i] < 10;
        w.tol = 1; for (size_t i = 0; i < N; i++) { std::vector<float> v(784); for (size_t k = 0; k < 784; k++) v[k] = px[i * 784 + k] / 255.0f; w.want.push_back(v); }
        file("fi", dp + "/t10k-images.idx3-ubyte", ib); file("fl", dp + "/t10k-labels.idx1-ubyte", lb);
    } else {
        w.tol = 255; N = 1; i64 h = 224, wd = 224; float m[3]; std::string mb = "FD\n"; for (auto &x : m) { x = (float) (r.unit() * 200 - 40); mb += fmt("%a\n", (double) x); }
        if (p.cfg("fewmeans", 0)) { mb.resize(mb.rfind('\n', mb.size() - 2) + 1); ok = false; count("fault.missing_value"); }
        i64 nl = clampi(1000 + p.cfg("more", 0), 0, 1400); std::string lb; for (i64 i = 0; i < nl; i++) { std::string s; for (i64 k = (i64) r.below(p.cfg("len", 12)); k >= 0; k--) s.push_back((char) (33 + r.below(94))); labels.push_back(s); lb += s + "\n"; }
        std::string jb = jpeg_encode((uint32_t) h, (uint32_t) wd, p.cfg("gray", 0) != 0, (int) clampi(p.cfg("quality", 90), 1, 100), p.cfg("progressive", 0) != 0, 0, r, (int) clampi(p.cfg("space", 0), 0, 6)); Jpeg e = jpeg_decode(jb); if (e.comps != 1 && e.comps != 3) { ok = false; e.comps = 1; count("fault.no_rgb_picture"); } else if (e.status || e.w != (uint32_t) wd || e.h != (uint32_t) h) fail("harness", "the reference decoder refuses its own picture");
        ok = ok && h == 224 && wd == 224 && nl >= 1000;
        std::vector<float> v(3 * 224 * 224); if (h == 224 && wd == 224) for (size_t c = 0; c < 3; c++) for (size_t i = 0; i < 224 * 224; i++) v[c * 224 * 224 + i] = (float) e.px[i * e.comps + (e.comps == 1 ? 0 : 2 - c)] - m[c]; w.want.push_back(v);
        file("fm", mp, mb); file("fl", lp, lb); file("fj", jp, jb);
    }
    if (hf || !ok) nontrivial();
    std::vector<std::string> args{prog_name[prog], wp}; if (mn) args.push_back(dp); else { args.push_back(mp); args.push_back(lp); args.push_back(jp); }
    i64 drop = clampi(p.cfg("drop", 0), 0, (i64) args.size() - 1); if (drop) { args.resize(args.size() - (size_t) drop); ok = false; nontrivial(); count("fault.missing_argument"); }
    std::vector<char *> av; for (auto &s : args) av.push_back(&s[0]); av.push_back(nullptr);
    static int (*const fn[])(int, char **) = {ex_lenet, ex_mnist_mlp, ex_mnist_simple_perceptron, ex_alexnet, ex_vgg}; check(fn[prog] != nullptr, "c28-build", std::string("examples/") + prog_name[prog] + ".cpp does not compile");
    { std::ios plain(nullptr); std::cout.copyfmt(plain); std::cerr.copyfmt(plain); std::cout.clear(); }   // a new process has a new console
    int ret = -99; con_out().clear(); con_err().clear(); g_step_budget = total_events() + 400000000; alloc().limit_one = 64u << 20;
    Result q = in_code([&] { ret = fn[prog]((int) args.size(), av.data()); });
    g_step_budget = 400000000; int status = q.o == EXITED ? q.exit_code : q.o == RET ? ret & 0xff : 256; note(fmt("%s: %s, status %d, %zu inferences of %zu", prog_name[prog], describe(q).c_str(), status, w.calls, N)); std::string out = con_out(); drop_handles(); forget_blocks(); sim_time(1); g_w = nullptr;
    std::string nm = prog_name[prog];
    check(q.o == RET || q.o == EXITED || ((hf || !ok) && q.o == THREW_BADALLOC), "c28-died", nm + " " + describe(q)); for (auto &m : take_mem_errors()) check(false, "c28-file-misuse", m);
    if (status != 0) { count("probe.refused"); check(hf || !ok, "c28-refused", nm + fmt(" ends with status %d although every file is complete", status)); return; }
    count("probe.evaluated");
    check(ok, "c28-accepted", nm + " reports success although its input cannot be evaluated"); check(w.wrong.empty(), "c28-input", nm + ", " + w.wrong); check(w.calls == N, "c28-count", nm + fmt(" ran %zu inferences for %zu inputs", w.calls, N));
    if (mn) {
        size_t hit = 0; std::vector<std::vector<size_t>> cm(10, std::vector<size_t>(10)); for (size_t i = 0; i < N; i++) { auto o = w.out(i); size_t b = (size_t) (std::max_element(o.begin(), o.end()) - o.begin()); hit += b == lab[i]; cm[b][lab[i]]++; }
        size_t at = out.find("Error rate: "); check(at != std::string::npos, "c28-report", nm + " prints no error rate"); double rate = -1; unsigned a = 0, b = 0; sscanf(out.c_str() + at, "Error rate: %lf (%u/%u)", &rate, &a, &b); double tr = 1.0 - (double) hit / (double) N, digit = 0.5; while (tr && digit > tr) digit /= 10;
        check(a == hit && b == N, "c28-report", nm + fmt(" reports %u of %u pictures correct, it is %zu of %zu", a, b, hit, N)); check(std::fabs(rate - tr) <= digit * 1.01 + 1e-6, "c28-report", nm + fmt(" reports an error rate of %g for %zu correct of %zu", rate, hit, N));
        at = out.find("\n*\t0"); check(at != std::string::npos, "c28-report", nm + " prints no confusion matrix"); std::istringstream is(out.substr(out.find('\n', at + 1) + 1)); for (size_t y = 0; y < 10; y++) { size_t row = 99, v = 0; is >> row; check(row == y, "c28-report", nm + ": row missing in the confusion matrix"); for (size_t x = 0; x < 10; x++) { is >> v; check(v == cm[y][x], "c28-report", nm + fmt(": confusion matrix row %zu column %zu is %zu, counted %zu", y, x, v, cm[y][x])); } }
    } else {
        auto o = w.out(0); std::vector<size_t> ix(1000); for (size_t i = 0; i < 1000; i++) ix[i] = i; std::sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return o[a] > o[b]; });
        for (size_t i = 0; i < 10; i++) { std::string l = fmt("%zu:\t%g\t", i + 1, (double) o[ix[i]]) + labels[ix[i]] + "\n"; check(out.find(l) != std::string::npos, "c28-report", nm + " does not list as rank " + l); }
    }
}
static void gen_c28(Rng &r, Plan &p, int) {
    i64 prog = (i64) r.below(5); p.add("prog", {prog}); p.add("values", {(i64) r.below(100000)}); p.add("layers", {(i64) r.below(6)}); i64 isz = 150000;
    if (prog < 3) { static const i64 ns[] = {1000, 1000, 1001, 1200}; i64 n = ns[r.below(4)]; p.add("n", {n}); if (r.chance(25)) p.add("more", {(i64) r.below(9) - 4}); p.add("pattern", {(i64) r.below(5)}); if (r.chance(15)) p.add("label", {(i64) r.below(1200), (i64) r.below(10)}); isz = 16 + n * 784; }
    else { if (r.chance(20)) p.add("more", {(i64) r.below(9) - 4}); p.add("gray", {r.chance(20)}); p.add("progressive", {r.chance(20)}); if (r.chance(20)) p.add("space", {1 + (i64) r.below(6)}); p.add("quality", {20 + (i64) r.below(80)}); if (r.chance(4)) p.add("fewmeans", {1}); p.add("len", {1 + (i64) r.below(r.chance(90) ? 40 : 400)}); isz = 30000; }
    if (r.chance(6)) p.add("stale", {1 + (i64) r.below(2)}); if (r.chance(6)) p.add("drop", {1 + (i64) r.below(4)});
    if (r.chance(12)) { static const i64 l[] = {20, 100, 255, 1000, 1002, 1022, 1023}; p.add(r.chance(50) ? "wpath" : "dpath", {l[r.below(7)]}); }
    static const char *mf[] = {"fw", "fi", "fl", "fm", "fj"}; i64 size[] = {120 + (i64) r.below(1500), isz, prog < 3 ? 30 : 12000, 30, isz};
    if (r.chance(45)) for (int k = 1 + (int) r.below(2); k > 0; k--) { int x = prog < 3 ? (int) r.below(3) : (i64) r.below(4) == 0 ? 0 : 2 + (int) r.below(3); std::vector<i64> a; gen_load_fault(r, a, size[x]); p.add(mf[x], a); }
}
static Reg rc28(Prop{"C28", gen_c28, exec_c28, 4000, 150000, [](int) { std::vector<Plan> v;
        for (i64 g = 0; g < 5; g++) { const std::vector<i64> ns = g < 3 ? std::vector<i64>{1000, 1001, 1200} : std::vector<i64>{0}; for (i64 n : ns) { Plan p; p.prop = "C28"; p.add("prog", {g}); p.add("n", {n}); v.push_back(p); }
            for (i64 d = 1; d < 5; d++) { Plan p; p.prop = "C28"; p.add("prog", {g}); p.add("drop", {d}); v.push_back(p); } for (const char *k : {"fw", "fi", "fl", "fm", "fj"}) for (i64 e : {(i64) ENOENT, (i64) EACCES, (i64) EMFILE}) { Plan p; p.prop = "C28"; p.add("prog", {g}); p.add(k, {e, 0, 0, 0, 0, 0, 0}); v.push_back(p); }
            for (i64 l : {20, 100, 255, 1022, 1023}) for (const char *k : {"wpath", "dpath"}) { Plan p; p.prop = "C28"; p.add("prog", {g}); p.add(k, {l}); v.push_back(p); }
        }
        return v; },
    "seeded data sets (1000..1300 pictures, more or fewer labels), pictures of several color spaces, tables, weights of another network, paths up to 1023 characters and missing arguments for all five programs, with missing files, truncation, read errors and re-chunked reads on every file; the network is answered by the simulation, which checks every input it is given. Non-trivial: a hard fault, or files that cannot be evaluated", "examples/*.cpp, pico-cnn/tensor.cpp, pico-cnn/io readers and writers, C stdio buffering, C++ runtime, libjpeg", "generated network (stand-in that checks its inputs and returns seeded outputs), file storage below stdio (simulated disk), heap accounting around the real heap, process exit, console", true});
