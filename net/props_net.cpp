// C16, C18, C19, C20, C23: generated networks and generated programs
#include "netapi.h"
#include "iocase.h"
#include "pico-cnn/io/read_binary_weights.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <fstream>
#include <sstream>
#include <cstdio>
using namespace sim;
static const char *REAL = "onnx_import (run on stand-ins for the onnx and jinja2 packages), the generated code, pico-cnn/layers, pico-cnn/tensor.cpp, pico-cnn/io/read_binary_weights.cpp, read_binary_reference_data.cpp, C++ runtime";
static const char *STUB = "onnx and jinja2 packages, storage, clock, random generator, thread scheduling, heap accounting around the real heap, process exit, console";

namespace sim {
std::function<void(void *, Tensor **, Tensor **, Tensor *, Tensor *, bool)> g_on_infer;
NetApi &net_api(int i) { static std::map<int, NetApi> *m = new std::map<int, NetApi>; return (*m)[i]; }
void on_infer(void *n, Tensor **k, Tensor **b, Tensor *i, Tensor *o, bool after) { Harness h; if (g_on_infer) g_on_infer(n, k, b, i, o, after); }
}

// ------------------------------------------------------------------ definitions
enum { CONV, MAXP, AVGP, GMAX, GAVG, BN, RELU, CLIP, LRN, SOFTMAX, GEMM, MATMUL, MUL, ADD, CONCAT, PAD, TRANSPOSE, COPY, SUB, UNARY };
struct Tens { Shape s; bool c; std::vector<float> v; };
struct Node { int op; std::vector<int> in; int out; std::vector<int> I; std::vector<double> F; };
struct Def { bool ok = false; int idx; int in, out; std::vector<Tens> t; std::vector<Node> n; std::string weights; std::vector<std::pair<std::string, std::string>> refs; u64 cost; const Shape &ishape() const { return t[in].s; } const Shape &oshape() const { return t[out].s; } };
static std::vector<Def> &defs() {
    static std::vector<Def> *d = nullptr; if (d) return *d; d = new std::vector<Def>;
    std::ifstream f(getenv("NETSPEC") ? getenv("NETSPEC") : "spec.bin"); std::stringstream ss; ss << f.rdbuf(); std::string b = ss.str(); size_t p = 0;
    auto i4 = [&] { int v = 0; if (p + 4 <= b.size()) memcpy(&v, &b[p], 4); p += 4; return v; }; auto str = [&](size_t n) { std::string s = b.substr(p, n); p += n; return s; };
    int n = i4();
    for (int k = 0; k < n; k++) {
        Def x; x.ok = i4(); x.idx = k; if (!x.ok) { d->push_back(x); continue; }
        int sl = i4(), wl = i4(); size_t e = p + sl; (void) e; x.in = i4(); x.out = i4(); int nt = i4();
        for (int j = 0; j < nt; j++) { Tens t; int nd = i4(); for (int q = 0; q < nd; q++) t.s.push_back((uint32_t) i4()); t.c = i4(); if (t.c) { t.v.resize(elems(t.s)); memcpy(t.v.data(), &b[p], 4 * t.v.size()); p += 4 * t.v.size(); } x.t.push_back(t); }
        int nn = i4(); for (int j = 0; j < nn; j++) { Node q; q.op = i4(); int ni = i4(); while (ni--) q.in.push_back(i4()); q.out = i4(); ni = i4(); while (ni--) q.I.push_back(i4()); ni = i4(); while (ni--) { double v; memcpy(&v, &b[p], 8); p += 8; q.F.push_back(v); } x.n.push_back(q); }
        if (p != e) { fprintf(stderr, "bad spec\n"); exit(2); }
        x.weights = str(wl); int nr = i4(); while (nr--) { int a = i4(); std::string s = str(a); a = i4(); x.refs.push_back({s, str(a)}); }
        x.cost = 0; for (auto &q : x.n) x.cost += elems(x.t[q.out].s) * (q.op == CONV ? (u64) elems(x.t[q.in[1]].s) / x.t[q.in[1]].s[0] : q.op == GEMM || q.op == MATMUL ? elems(x.t[q.in[0]].s) : 4);
        d->push_back(x);
    }
    return *d;
}
struct VE { std::vector<double> v, e; };
static const double U = 6e-8;
// evaluates the model in double precision together with a bound on the rounding error of any float evaluation
static VE eval(const Def &d, const std::vector<uint32_t> &input) {
    std::vector<VE> t(d.t.size()); for (size_t i = 0; i < d.t.size(); i++) if (d.t[i].c) { for (float f : d.t[i].v) t[i].v.push_back(f); t[i].e.assign(t[i].v.size(), 0); }
    for (auto b : input) t[d.in].v.push_back(f_of(b)); t[d.in].e.assign(input.size(), 0);
    for (auto &n : d.n) {
        Shape xs = d.t[n.in[0]].s, os = d.t[n.out].s; VE o; size_t N = elems(os); o.v.assign(N, 0); o.e.assign(N, 0);
        // several pictures: one after the other
        bool per = n.op == CONV || n.op == MAXP || n.op == AVGP || n.op == GMAX || n.op == GAVG || n.op == LRN; size_t batch = per ? xs[0] : 1;
        for (size_t bi_ = 0; bi_ < batch; bi_++) { VE part; if (batch > 1) { size_t m = t[n.in[0]].v.size() / batch; part.v.assign(t[n.in[0]].v.begin() + bi_ * m, t[n.in[0]].v.begin() + (bi_ + 1) * m); part.e.assign(t[n.in[0]].e.begin() + bi_ * m, t[n.in[0]].e.begin() + (bi_ + 1) * m); }
        const VE &x = batch > 1 ? part : t[n.in[0]]; size_t first = bi_ * (N / batch); xs = d.t[n.in[0]].s;
        if (xs.size() == 3) xs.insert(xs.begin() + 2, 1); Shape o4 = os; if (o4.size() == 3) o4.insert(o4.begin() + 2, 1);
        auto put = [&](size_t i, double v, double e) { o.v[first + i] = v; o.e[first + i] = e + U * fabs(v); };
        switch (n.op) {
        case CONV: case MAXP: case AVGP: {
            const int *I = n.I.data(); int kh = I[0], kw = I[1], sh = I[2], sw = I[3], pt = I[4], pl = I[5], last = I[8]; int dh = n.I.size() > 9 ? I[9] : 1, dw = n.I.size() > 10 ? I[10] : 1, H = (int) xs[2], W = (int) xs[3], OC = (int) o4[1], OH = (int) o4[2], OW = (int) o4[3], C = (int) xs[1];
            const VE *w = n.op == CONV ? &t[n.in[1]] : nullptr, *b = n.op == CONV && n.in.size() > 2 ? &t[n.in[2]] : nullptr; int cg = w ? C / last : 1;
            for (int oc = 0; oc < OC; oc++) for (int y = 0; y < OH; y++) for (int q = 0; q < OW; q++) {
                double s = 0, a = 0, e = 0, mx = -INFINITY, me = 0; int cnt = 0;
                for (int c = 0; c < cg; c++) { int ic = w ? (oc / (OC / last)) * cg + c : oc;
                    for (int i = 0; i < kh; i++) for (int j = 0; j < kw; j++) { int yy = y * sh + i * dh - pt, xx = q * sw + j * dw - pl; if (yy < 0 || xx < 0 || yy >= H || xx >= W) continue; size_t k = ((size_t) ic * H + yy) * W + xx; cnt++;
                        if (w) { double g = w->v[(((size_t) oc * cg + c) * kh + i) * kw + j]; s += g * x.v[k]; a += fabs(g * x.v[k]); e += fabs(g) * x.e[k]; } else { s += x.v[k]; a += fabs(x.v[k]); e += x.e[k]; mx = std::max(mx, x.v[k]); me = std::max(me, x.e[k]); } } }
                size_t z = ((size_t) oc * OH + y) * OW + q; int terms = cg * kh * kw + 4;
                if (n.op == CONV) { double bb = b ? b->v[oc] : 0; put(z, s + bb, e + U * terms * (a + fabs(bb))); }
                else if (n.op == MAXP) put(z, mx, me);
                else { double div = last ? (double) kh * kw : cnt; put(z, s / div, (e + U * terms * a) / div); }
            }
            break; }
        case GMAX: case GAVG: { size_t P = (size_t) xs[2] * xs[3]; for (size_t c = 0; c < xs[1]; c++) { double s = 0, a = 0, e = 0, mx = -INFINITY, me = 0; for (size_t k = c * P; k < (c + 1) * P; k++) { s += x.v[k]; a += fabs(x.v[k]); e += x.e[k]; mx = std::max(mx, x.v[k]); me = std::max(me, x.e[k]); } if (n.op == GMAX) put(c, mx, me); else put(c, s / P, (e + U * (P + 4) * a) / P); } break; }
        case BN: { size_t P = (size_t) n.I[0], G = (size_t) n.I[1]; const VE &g = t[n.in[1]], &b = t[n.in[2]], &m = t[n.in[3]], &v = t[n.in[4]]; for (size_t i = 0; i < N; i++) { size_t c = i / P % G; double k = g.v[c] / sqrt(v.v[c] + n.F[0]); double r = k * (x.v[i] - m.v[c]); put(i, r + b.v[c], fabs(k) * x.e[i] + 12 * U * (fabs(k) * (fabs(x.v[i]) + fabs(m.v[c])) + fabs(b.v[c]))); } break; }
        case RELU: for (size_t i = 0; i < N; i++) put(i, std::max(0.0, x.v[i]), x.e[i]); break;
        case CLIP: for (size_t i = 0; i < N; i++) put(i, std::min((double) (float) n.F[1], std::max((double) (float) n.F[0], x.v[i])), x.e[i]); break;
        case LRN: { int C = (int) xs[1], sz = n.I[0]; size_t P = (size_t) xs[2] * xs[3]; double al = n.F[0], be = n.F[1], bi = n.F[2];
            for (int c = 0; c < C; c++) for (size_t k = 0; k < P; k++) { double s = 0, se = 0; for (int j = std::max(0, c - (sz - 1) / 2); j <= std::min(C - 1, c + sz / 2); j++) { double q = x.v[j * P + k]; s += q * q; se += 2 * fabs(q) * x.e[j * P + k]; } double D = bi + al / sz * s, y = x.v[c * P + k] / pow(D, be); double De = al / sz * se + U * (sz + 8) * D; put(c * P + k, y, x.e[c * P + k] / pow(D, be) + fabs(y) * (be * De / D + U * (8 + fabs(be * log(D))))); } break; }
        case SOFTMAX: { size_t R = n.I.empty() ? 1 : (size_t) n.I[0], L = N / R; for (size_t q = 0; q < R; q++) { size_t z = q * L; double m = -INFINITY, me = 0, sum = 0; for (size_t i = z; i < z + L; i++) { m = std::max(m, x.v[i]); me = std::max(me, x.e[i]); } std::vector<double> ex(L); for (size_t i = 0; i < L; i++) { ex[i] = exp(x.v[z + i] - m); sum += ex[i]; }
            for (size_t i = z; i < z + L; i++) { double r = ex[i - z] / sum; put(i, r, r * (2 * (me + x.e[i]) + U * ((double) L + 16 + 2 * fabs(x.v[i] - m) + fabs(m))) + 1e-37); } } break; }
        case GEMM: case MATMUL: { const VE &w = t[n.in[1]]; const Shape &ws = d.t[n.in[1]].s; size_t K = n.op == GEMM ? ws[1] : ws[0], O = n.op == GEMM ? ws[0] : ws[1], M = N / O; for (size_t i = 0; i < M; i++) for (size_t j = 0; j < O; j++) { double s = 0, a = 0, e = 0; for (size_t k = 0; k < K; k++) { double g = n.op == GEMM ? w.v[j * K + k] : w.v[k * O + j], ge = n.op == GEMM ? w.e[j * K + k] : w.e[k * O + j], y = x.v[i * K + k]; s += g * y; a += fabs(g * y); e += (fabs(g) + ge) * x.e[i * K + k] + ge * fabs(y); }
            double b = 0, be = 0, al = 1; if (n.op == GEMM) { al = n.F[0]; if (n.in.size() > 2) { const VE &bb = t[n.in[2]]; size_t q = bb.v.size() == 1 ? 0 : bb.v.size() == N ? i * O + j : j; b = n.F[1] * bb.v[q]; be = fabs(n.F[1]) * bb.e[q]; } } put(i * O + j, al * s + b, fabs(al) * e + be + U * (K + 4) * (fabs(al) * a + fabs(b))); } break; }
        case MUL: case ADD: case SUB: { const VE &y = t[n.in[1]]; Shape s0 = d.t[n.in[0]].s, s1 = d.t[n.in[1]].s; auto at = [&](size_t i, const Shape &s) { if (elems(s) == N) return i; size_t k = 0, mul = 1; for (size_t q = 0; q < os.size(); q++) { size_t c = i % os[os.size() - 1 - q]; i /= os[os.size() - 1 - q]; if (q < s.size()) { size_t dm = s[s.size() - 1 - q]; if (dm > 1) k += c * mul; mul *= dm; } } return k; };
            for (size_t i = 0; i < N; i++) { size_t p = at(i, s0), q = at(i, s1); double g = x.v[p], h = y.v[q]; if (n.op == MUL) put(i, g * h, fabs(g) * y.e[q] + fabs(h) * x.e[p] + y.e[q] * x.e[p]); else put(i, n.op == ADD ? g + h : g - h, x.e[p] + y.e[q] + U * (fabs(g) + fabs(h))); } break; }
        case CONCAT: { size_t ax = n.I.empty() ? 1 : (size_t) n.I[0], outer = 1, tot = N; for (size_t i = 0; i < ax; i++) outer *= os[i]; tot /= outer; for (size_t r = 0, q = 0; r < outer; r++) for (int k : n.in) { size_t m = t[k].v.size() / outer; for (size_t i = 0; i < m; i++) put(q++, t[k].v[r * m + i], t[k].e[r * m + i]); } (void) tot; break; }
        case PAD: { Shape is = d.t[n.in[0]].s; size_t nd = is.size(); int mode = n.I.size() > 2 * nd ? n.I[2 * nd] : 0; for (size_t i = 0; i < N; i++) { size_t r = i, k = 0, mul = 1; bool inb = true; for (size_t a = nd; a-- > 0;) { long c = (long) (r % os[a]) - n.I[a], m = (long) is[a]; r /= os[a]; if (mode == 1) c = std::min(m - 1, std::max(0L, c)); if (mode == 2) { if (c < 0) c = -c; if (c >= m) c = 2 * (m - 1) - c; } if (c < 0 || c >= m) inb = false; k += mul * (size_t) std::max(0L, c); mul *= is[a]; } if (inb) put(i, x.v[k], x.e[k]); else put(i, (double) (float) n.F[0], 0); } break; }
        case TRANSPOSE: { Shape is = d.t[n.in[0]].s; size_t nd = is.size(); std::vector<size_t> st(nd, 1); for (size_t a = nd - 1; a-- > 0;) st[a] = st[a + 1] * is[a + 1]; for (size_t i = 0; i < N; i++) { size_t r = i, k = 0; for (size_t a = nd; a-- > 0;) { k += st[n.I[a]] * (r % os[a]); r /= os[a]; } put(i, x.v[k], x.e[k]); } break; }
        case UNARY: for (size_t i = 0; i < N; i++) { double y = x.v[i], r, sl = 1; switch (n.I[0]) { case 0: r = 1 / (1 + exp(-y)); break; case 1: r = tanh(y); break; case 2: r = y < 0 ? n.F[0] * y : y; sl = std::max(1.0, fabs(n.F[0])); break; case 3: r = -y; break; case 4: r = fabs(y); break; case 5: r = y < 0 ? n.F[0] * (exp(y) - 1) : y; sl = std::max(1.0, fabs(n.F[0])); break; case 6: r = floor(y); sl = x.e[i] > 0 ? 1 / x.e[i] : 1; break; default: r = exp(y); sl = r * 1.1 + 1; } put(i, r, sl * x.e[i] + 8 * U * (fabs(r) + fabs(y))); } break;
        default: for (size_t i = 0; i < N; i++) { o.v[i] = x.v[i]; o.e[i] = x.e[i]; }
        } }
        t[n.out] = o;
    }
    return t[d.out];
}
static std::vector<uint32_t> net_input(const Def &d, u64 seed) {
    Rng r(seed * 7919 + 13); size_t N = elems(d.ishape()); std::vector<uint32_t> v(N); int k = (int) (seed % 7);
    for (size_t i = 0; i < N; i++) { double x = k == 0 ? r.unit() : k == 1 ? r.unit() * 2 - 1 : k == 2 ? r.unit() * 20 - 10 : k == 3 ? (r.chance(80) ? 0 : r.unit() * 4 - 2) : k == 4 ? -r.unit() * 3 : k == 5 ? (r.chance(10) ? r.unit() * 200 - 100 : r.unit() * .01) : r.unit() * 2 - 1; v[i] = b_of((float) x); }
    return v;
}
// "" = equal within the bound
static std::string differs(const std::vector<uint32_t> &got, const VE &w) {
    if (got.size() != w.v.size()) return fmt("%zu output elements, the model has %zu", got.size(), w.v.size());
    for (size_t i = 0; i < got.size(); i++) { double g = f_of(got[i]), tol = 4 * w.e[i] + 1e-30; if (!(fabs(g - w.v[i]) <= tol)) return fmt("element %zu of %zu is %.9g, the model defines %.9g (+-%.2g)", i, got.size(), g, w.v[i], tol); }
    return "";
}
static std::string op_names(const Def &d) { static const char *nm[] = {"Conv", "MaxPool", "AveragePool", "GlobalMaxPool", "GlobalAveragePool", "BatchNormalization", "Relu", "Clip", "LRN", "Softmax", "Gemm", "MatMul", "Mul", "Add", "Concat", "Pad", "Transpose", "Copy", "Sub", "Unary"}; std::string s; for (auto &n : d.n) s += (s.empty() ? "" : ",") + std::string(nm[n.op]); return s.size() > 160 ? s.substr(0, 160) + "..." : s; }
// positions in a batch; an absent network stands for the next one that is there
static const Def &net_at(u64 i) { auto &D = defs(); if (D.empty()) fail("harness", "no networks"); for (size_t k = 0; k < D.size(); k++) { const Def &d = D[(i + k) % D.size()]; if (d.ok) { if (g_verbose) dprintf(1, "NET %d\n", d.idx); return d; } } fail("harness", "no networks"); }
static const Def &net_of(const Item &it, size_t i) { return net_at((u64) clampi(arg(it, i), 0, 1 << 20)); }
static int pick_net(Rng &r) { auto &D = defs(); for (int i = 0; i < 3; i++) { const Def &d = net_at(r.below(D.size())); if (d.cost <= 200000 || i == 2) return d.idx; } return 0; }
static std::vector<const Def *> present() { std::vector<const Def *> v; for (auto &d : defs()) if (d.ok) v.push_back(&d); return v; }

struct Inst { const Def *d = nullptr; void *p = nullptr; bool loaded = false; };
static Result ncreate(Inst &x, const Def &d) { x.d = &d; x.loaded = false; return in_code([&] { x.p = net_api(d.idx).create(); }); }
static Result ndestroy(Inst &x) { void *p = x.p; x.p = nullptr; x.loaded = false; return in_code([&] { net_api(x.d->idx).destroy(p); }); }
static Result nload(Inst &x, const char *path, i64 &ret) { ret = -99; return in_code([&] { ret = net_api(x.d->idx).load(x.p, path); }); }
static Result nrun(Inst &x, const std::vector<uint32_t> &in, std::vector<uint32_t> &out, bool count_tensors = false) {
    Tensor *i, *o; { Harness h; i = make_tensor(x.d->ishape()); o = make_tensor(x.d->oshape()); set_bits(i, in); set_bits(o, std::vector<uint32_t>(elems(x.d->oshape()), 0x7fc0dead)); }
    Result q = in_code([&] { net_api(x.d->idx).run(x.p, i, o); }); Harness h; out = bits(o); bool same = bits(i) == in; delete i; delete o; if (q.o == RET && !same) { q.o = THREW_OTHER; q.what = "changed its input"; } return q;
}
// expected bits of (net, input) from an undisturbed instance, checked against the definition
static std::vector<uint32_t> solo(const Def &d, u64 seed, const char *cls) {
    Inst x; disk().put("solo.bin", d.weights); disk().faults.erase("solo.bin"); Result q = ncreate(x, d); check(q.o == RET, "c16-died", "creating the network (" + op_names(d) + "): " + describe(q)); i64 ret; q = nload(x, "solo.bin", ret);
    check(q.o == RET, "c16-died", "loading the generated weights file (" + op_names(d) + "): " + describe(q)); check(ret == 0, "c16-load", "the generated weights file is refused by the loader (" + op_names(d) + ")");
    std::vector<uint32_t> in = net_input(d, seed), out; q = nrun(x, in, out); check(q.o == RET, "c16-died", "running the network (" + op_names(d) + "): " + describe(q)); std::string w = differs(out, eval(d, in)); check(w.empty(), cls, op_names(d) + ": " + w);
    q = ndestroy(x); check(q.o == RET, "c16-died", "destroying the network (" + op_names(d) + "): " + describe(q)); return out;
}

// ------------------------------------------------------------------ C16
// act: thread slot kind net seed | load fault (7)         kind 0 create 1 load 2 run 3 destroy 4 load with fault
static void exec_c16(const Plan &p) {
    std::vector<const Item *> acts; int T = 0; for (auto *it : p.all("act")) if (acts.size() < 40) { acts.push_back(it); T = std::max(T, (int) argc_(*it, 0, 0, 3) + 1); } if (acts.empty()) return;
    alloc().fill = (int) clampi(p.cfg("fill", 165), 0, 255);
    std::map<std::pair<int, u64>, std::vector<uint32_t>> want;
    for (auto *it : acts) if (argc_(*it, 2, 0, 4) == 2) { const Def &d = net_of(*it, 3); u64 s = (u64) arg(*it, 4); if (!want.count({d.idx, s})) want[{d.idx, s}] = solo(d, s, "c16-output"); }
    for (auto *it : p.all("ref")) { const Def &d = net_of(*it, 0); if (d.refs.empty()) continue; auto &rf = d.refs[(size_t) arg(*it, 1) % d.refs.size()]; std::vector<uint32_t> in, ref; std::string why; if (!ref_decode(rf.first, true, d.ishape(), in, why) || !ref_decode(rf.second, false, d.oshape(), ref, why)) fail("harness", "shipped reference data: " + why);
        Inst x; i64 ret; disk().put("ref.bin", d.weights); std::vector<uint32_t> out; Result q = ncreate(x, d); if (q.o == RET) q = nload(x, "ref.bin", ret); check(q.o == RET && ret == 0, "c16-load", "shipped model: " + describe(q)); q = nrun(x, in, out); check(q.o == RET, "c16-died", describe(q)); ndestroy(x);
        for (size_t i = 0; i < out.size(); i++) { double g = f_of(out[i]), r = f_of(ref[i]); if (!(fabs(g - r) <= 1e-3)) fail("c16-reference", fmt("shipped model with shipped reference data: element %zu is %.7g, reference %.7g", i, g, r)); } nontrivial(); count("probe.reference_data"); }
    // files
    for (size_t k = 0; k < acts.size(); k++) { int kind = (int) argc_(*acts[k], 2, 0, 4); const Def &d = net_of(*acts[k], 3); std::string path = fmt("w%zu", k); if (kind == 4) { LoadFault lf = load_fault(*acts[k], 5); install(lf, path, d.weights); } else disk().put(path, d.weights); }
    struct Obs { std::string died; std::vector<uint32_t> out; bool ran = false; i64 ret = 0; }; std::vector<Obs> obs(acts.size() + 16);
    auto body = [&](int t) {
        Inst slot[3];
        auto bad = [&](size_t k, const char *what, const Result &q) { obs[k].died = what + std::string(": ") + describe(q); };
        for (size_t k = 0; k < acts.size(); k++) {
            const Item &it = *acts[k]; if ((int) argc_(it, 0, 0, 3) != t) continue; Inst &x = slot[argc_(it, 1, 0, 2)]; int kind = (int) argc_(it, 2, 0, 4); const Def &d = net_of(it, 3); i64 ret; std::string path = fmt("w%zu", k), ok = fmt("w%zu.ok", k); Result q;
            if (x.p && (kind == 0 || kind == 3 || x.d != &d)) { q = ndestroy(x); if (q.o != RET) return bad(k, "destroying a network", q); }
            if (kind == 3) continue;
            if (!x.p) { q = ncreate(x, d); if (q.o != RET) return bad(k, "creating a network", q); }
            if (kind == 1 || kind == 4) { q = nload(x, path.c_str(), ret); if (q.o != RET && !(kind == 4 && (q.o == THREW_BADALLOC))) return bad(k, "loading", q); x.loaded = q.o == RET && ret == 0; obs[k].ret = ret; if (kind == 4 && !x.loaded) { Harness h; count("probe.failed_load"); } if (kind == 1 && !x.loaded) { obs[k].died = "an undisturbed load reports an error"; return; } }
            if (kind == 2) { if (!x.loaded) { q = nload(x, path.c_str(), ret); if (q.o != RET || ret) { obs[k].died = "an undisturbed load fails: " + describe(q); return; } x.loaded = true; } std::vector<uint32_t> in = net_input(d, (u64) arg(it, 4)); q = nrun(x, in, obs[k].out); if (q.o != RET) return bad(k, "running", q); obs[k].ran = true; }
        }
        for (auto &x : slot) if (x.p) { Result q = ndestroy(x); if (q.o != RET) obs[acts.size()].died = "destroying a network: " + describe(q); }
    };
    std::vector<u64> ev(T, 0); std::vector<std::vector<u64>> conf(T); bool directed = false, any = false; for (auto *it : p.all("pre")) { any = true; if (arg(*it, 1)) directed = true; }
    if (T > 1 && any) {       // lengths, and accesses to global memory that one of the callers writes
        std::vector<std::vector<Access>> acc(T); std::map<u64, std::pair<int, int>> use; g_prof_ranges.clear(); g_prof_ranges.push_back(global_range());
        for (int t = 0; t < T; t++) { g_prof_out = &acc[t]; g_profile = directed; run_threads({[&, t] { body(t); ev[t] = my_events(); }}, {}, 0); g_profile = false; for (auto &a : acc[t]) { use[a.key].first |= 1 << t; if (a.store) use[a.key].second |= 1 << t; } }
        g_prof_ranges.clear(); g_prof_out = nullptr;
        for (int t = 0; t < T; t++) { for (auto &a : acc[t]) { auto &u = use[a.key]; if (u.second && (u.first & (u.first - 1))) conf[t].push_back(a.at); } std::sort(conf[t].begin(), conf[t].end()); conf[t].erase(std::unique(conf[t].begin(), conf[t].end()), conf[t].end()); if (!conf[t].empty()) count("probe.shared_writes_seen"); }
        // the streams' faults were consumed
        disk().faults.clear(); for (size_t k = 0; k < acts.size(); k++) if (argc_(*acts[k], 2, 0, 4) == 4) { LoadFault lf = load_fault(*acts[k], 5); install(lf, fmt("w%zu", k), net_of(*acts[k], 3).weights); }
        for (auto &o : obs) o = Obs();
    }
    std::vector<Preempt> pre; for (auto *it : p.all("pre")) { if (pre.size() >= 30) break; int t = (int) argc_(*it, 0, 0, T - 1); u64 at; if (arg(*it, 1) && !conf[t].empty()) { at = conf[t][(u64) arg(*it, 2) % conf[t].size()] + (u64) clampi(arg(*it, 3), 0, 3); count("sched.directed"); } else at = 1 + mix((u64) arg(*it, 2), 7) % (ev[t] + 1); pre.push_back({t, at, (int) argc_(*it, 4, 0, T - 1)}); }
    std::vector<std::function<void()>> bodies; for (int t = 0; t < T; t++) bodies.push_back([&, t] { body(t); });
    run_threads(bodies, pre, (int) p.cfg("first", 0)); nontrivial(); if (switches() > 0) count("probe.interleaved_runs"); sim_time(0.01);
    for (size_t k = 0; k < obs.size(); k++) if (!obs[k].died.empty()) fail("c16-died", (k < acts.size() ? op_names(net_of(*acts[k], 3)) + fmt(", action %zu: ", k) : std::string()) + obs[k].died);
    for (size_t k = 0; k < acts.size(); k++) if (obs[k].ran) {
        const Def &d = net_of(*acts[k], 3); auto &w = want[{d.idx, (u64) arg(*acts[k], 4)}]; note(fmt("action %zu: network %d (%s), input %lld", k, d.idx, op_names(d).c_str(), (long long) arg(*acts[k], 4)));
        if (obs[k].out != w) { size_t i = 0; while (i < w.size() && obs[k].out[i] == w[i]) i++; fail("c16-instance", op_names(d) + fmt(", action %zu: element %zu is %.9g, an undisturbed instance gives %.9g", k, i, (double) f_of(obs[k].out[i]), (double) f_of(w[i]))); }
    }
}
static void gen_c16(Rng &r, Plan &p, int) {
    int T = r.chance(55) ? 1 : 2 + (int) r.below(r.chance(80) ? 1 : 2); std::vector<i64> nets; int nn = 1 + (int) r.below(2); for (int i = 0; i < nn; i++) nets.push_back(pick_net(r)); i64 base = (i64) r.below(1 << 20);
    for (int t = 0; t < T; t++) { int n = 1 + (int) r.below(T > 1 ? 4 : 7); for (int k = 0; k < n; k++) { int z = (int) r.below(100); i64 kind = z < 58 ? 2 : z < 68 ? 4 : z < 76 ? 1 : z < 88 ? 3 : 0, net = nets[r.below(nets.size())]; std::vector<i64> a = {t, (i64) r.below(r.chance(60) ? 1 : 3), kind, net, base + (i64) r.below(4)}; if (kind == 4) gen_load_fault(r, a, (i64) defs()[net].weights.size()); p.add("act", a); } p.add("act", {t, (i64) r.below(2), 2, nets[r.below(nets.size())], base + (i64) r.below(4)}); }
    if (T > 1) { int np = 1 + (int) r.below(r.chance(60) ? 3 : 12); for (int i = 0; i < np; i++) p.add("pre", {(i64) r.below(T), r.chance(50), (i64) r.below(1 << 20), (i64) r.below(3), (i64) r.below(T)}); p.add("first", {(i64) r.below(T)}); }
    if (r.chance(40)) { static const int f[] = {0, 255, 127, 64}; p.add("fill", {f[r.below(4)]}); }
}
static std::vector<Plan> dir_c16(int) {
    std::vector<Plan> v;
    for (auto *d : present()) { size_t k = d->idx; Plan p; p.prop = "C16"; p.seed = 5 + k; for (size_t j = 0; j < d->refs.size(); j++) p.add("ref", {(i64) k, (i64) j}); for (int s = 0; s < (d->cost > 200000 ? 2 : 7); s++) p.add("act", {0, 0, 2, (i64) k, s}); p.add("act", {0, 0, 3, (i64) k, 0}); p.add("act", {0, 0, 2, (i64) k, 1}); v.push_back(p); }
    return v;
}
static Reg r16(Prop{"C16", gen_c16, exec_c16, 40000, 400000, dir_c16, "runs are seeded histories (create, load, failing load, inference, destroy, recreate) of instances of up to two generated networks by up to three caller threads with seeded preemptions; every output is compared with an evaluation of the ONNX model in double precision and bit for bit with an undisturbed instance. Directed part: every model on its own, shipped models with shipped reference data. Every run is non-trivial: it executes imported code", REAL, STUB});

// ------------------------------------------------------------------ C20
// step: kind slot net seed | fault (7)     0 create 1 load 2 run 3 destroy 4 faulty load 5 load another network's file 6 load damaged file 7 load, allocation fails 8 run, allocation fails 9 load if needed, run
static void exec_c20(const Plan &p) {
    struct S { Inst x; std::set<int> own; }; std::vector<S> slot(4); std::map<std::pair<int, u64>, std::vector<uint32_t>> want; std::set<int> warm; int step = 0; bool multi = false;
    alloc().fill = (int) clampi(p.cfg("fill", 165), 0, 255); std::map<int, int> uses;
    for (auto *it : p.all("step")) { const Def &d = net_of(*it, 2); if (warm.insert(d.idx).second) solo(d, 0, "c20-output"); if (argc_(*it, 0, 0, 9) == 2 || argc_(*it, 0, 0, 9) == 9) { u64 s = (u64) arg(*it, 3); if (!want.count({d.idx, s})) want[{d.idx, s}] = solo(d, s, "c20-output"); } if (warm.size() > 4) break; }
    take_mem_errors(); std::set<int> base; for (auto &r : live_ranges()) base.insert(r.id);
    auto ids = [&] { std::set<int> s; for (auto &r : live_ranges()) if (!base.count(r.id)) s.insert(r.id); return s; };
    auto misuse = [&](const std::string &at) { auto m = take_mem_errors(); if (!m.empty()) fail("c20-misuse", at + ": " + m[0]); };
    std::vector<std::set<int> > dummy; std::set<int> known;
    // blocks that exist now belong to: the slot whose step created them
    auto settle = [&](size_t s, const std::string &at) { std::set<int> now = ids(); for (size_t k = 0; k < slot.size(); k++) if (k != s) for (int b : slot[k].own) if (!now.count(b)) fail("c20-other-instance", at + ": released memory of another instance"); std::set<int> all; for (auto &q : slot) all.insert(q.own.begin(), q.own.end()); for (int b : now) if (!all.count(b)) slot[s].own.insert(b); for (auto i = slot[s].own.begin(); i != slot[s].own.end();) if (!now.count(*i)) i = slot[s].own.erase(i); else ++i; };
    auto destroy = [&](size_t s, const std::string &at) {
        std::string nm = op_names(*slot[s].x.d); Result q = ndestroy(slot[s].x); check(q.o == RET, "c20-died", at + ": destroying " + nm + ": " + describe(q)); misuse(at + ": destroying " + nm); settle(s, at + ": destroying " + nm);
        if (!slot[s].own.empty()) fail("c20-leak", at + fmt(": destroying %s leaves %zu block(s) that the instance acquired: ", nm.c_str(), slot[s].own.size()) + live_report()); count("probe.destroyed");
    };
    for (auto *it : p.all("step")) {
        if (++step > 30) break; int kind = (int) argc_(*it, 0, 0, 9); size_t s = (size_t) argc_(*it, 1, 0, 3); const Def &d = net_of(*it, 2); if (!warm.count(d.idx)) continue; Inst &x = slot[s].x; u64 seed = (u64) arg(*it, 3); std::string at = fmt("step %d", step); i64 ret; Result q;
        note(fmt("step %d: kind %d slot %zu network %d (%s)", step, kind, s, d.idx, op_names(d).c_str()));
        if (x.p && (kind == 0 || kind == 3 || x.d != &d)) destroy(s, at);
        if (kind == 3) continue;
        if (!x.p) { q = ncreate(x, d); check(q.o == RET, "c20-died", at + ": creating: " + describe(q)); misuse(at + ": creating"); settle(s, at + ": creating"); if (++uses[d.idx] > 1) multi = true; }
        bool then_run = kind == 9; if (then_run) kind = x.loaded ? 2 : 1;
        if (kind == 1 || kind == 4 || kind == 5 || kind == 6 || kind == 7) {
            std::string path = fmt("w%d", step), bytes = d.weights; LoadFault lf = {0, -1, -1, 0, 0, 0, -1}; if (kind == 4) lf = load_fault(*it, 4); bool changed = false;
            if (kind == 5) { bytes = net_at(seed).weights; changed = bytes != d.weights; count("fault.other_networks_file"); }
            if (kind == 6) { Plan m; Rng r(seed); gen_mut(r, m, (i64) bytes.size(), true, false); bytes = mutate_bytes(bytes, m, {}, {}, changed); }
            install(lf, path, bytes); if (kind == 7) { alloc().counted = 0; alloc().fail_at = 1 + (i64) (seed % 12); alloc().fail_sticky = seed & 1; } alloc().limit_one = 16u << 20;
            q = nload(x, path.c_str(), ret); bool fired = alloc().failed > 0; alloc().fail_at = -1; alloc().fail_sticky = false; alloc().failed = 0; alloc().limit_one = 256u << 20; drop_handles();
            bool clean = kind == 1 || (kind == 4 && !hard(lf, bytes.size())) || ((kind == 5 || kind == 6) && !changed) || (kind == 7 && !fired);
            check(q.o == RET || (!clean && (q.o == THREW_BADALLOC || reported(q, ret))), "c20-died", at + ": loading: " + describe(q)); misuse(at + ": loading"); settle(s, at + ": loading");
            bool ok = q.o == RET && ret == 0; if (clean) check(ok, "c20-load", at + ": an undisturbed load reports an error"); else count(ok ? "probe.faulty_load_ok" : "probe.failed_load"); x.loaded = ok && (clean || kind == 4 || kind == 7); if (!ok) nontrivial();
        }
        if (then_run) kind = 2;
        if (kind == 2 || kind == 8) {
            if (kind == 8) { alloc().counted = 0; alloc().fail_at = 1 + (i64) (seed % 4); alloc().failed = 0; }
            std::vector<uint32_t> out; q = nrun(x, net_input(d, seed), out); bool fired = alloc().failed > 0; alloc().fail_at = -1; alloc().failed = 0;
            check(q.o == RET || (fired && q.o == THREW_BADALLOC), "c20-died", at + ": running " + op_names(d) + ": " + describe(q)); misuse(at + ": running"); settle(s, at + ": running"); if (q.o != RET) { count("probe.aborted_inference"); nontrivial(); }
            if (kind == 2 && x.loaded && want.count({d.idx, seed})) { auto &w = want[{d.idx, seed}]; count("probe.outputs_compared"); if (out != w) { size_t i = 0; while (i < w.size() && out[i] == w[i]) i++; fail("c20-affected", at + ", " + op_names(d) + fmt(": element %zu is %.9g, an undisturbed instance gives %.9g", i, (double) f_of(out[i]), (double) f_of(w[i]))); } }
        }
    }
    for (size_t s = 0; s < slot.size(); s++) if (slot[s].x.p) destroy((s + (size_t) p.cfg("order", 0)) % 4 == s ? s : s, "at the end");
    std::set<int> left = ids(); if (!left.empty()) fail("c20-leak", fmt("%zu block(s) remain after all instances were destroyed: ", left.size()) + live_report());
    if (multi) nontrivial();
}
static void gen_c20(Rng &r, Plan &p, int) {
    std::vector<i64> nets; int nn = 1 + (int) r.below(3); for (int i = 0; i < nn; i++) nets.push_back(pick_net(r)); int n = 3 + (int) r.below(14); i64 base = (i64) r.below(1 << 16);
    for (int i = 0; i < n; i++) { int z = (int) r.below(100); i64 kind = z < 18 ? 0 : z < 32 ? 1 : z < 52 ? 2 : z < 67 ? 3 : z < 77 ? 4 : z < 82 ? 5 : z < 88 ? 6 : z < 94 ? 7 : 8; i64 net = nets[r.below(nets.size())]; if (kind == 2 && r.chance(75)) kind = 9; std::vector<i64> a = {kind, (i64) r.below(r.chance(50) ? 2 : 4), net, kind == 2 || kind == 9 ? base + (i64) r.below(2) : (i64) r.below(10000)}; if (kind == 4) gen_load_fault(r, a, (i64) defs()[net].weights.size()); p.add("step", a); }
    if (r.chance(50)) { static const int f[] = {0, 255, 127, 64}; p.add("fill", {f[r.below(4)]}); }
}
static std::vector<Plan> dir_c20(int) {
    std::vector<Plan> v;
    for (auto *d : present()) { size_t k = d->idx; Plan p; p.prop = "C20"; p.seed = 9 + k; i64 n = (i64) k; for (auto &a : std::vector<std::vector<i64>>{{0, 0, n, 0}, {3, 0, n, 0}, {0, 0, n, 0}, {4, 0, n, 0, 2, 0, 0, 0, 0, 0, 0}, {3, 0, n, 0}, {0, 1, n, 0}, {1, 1, n, 0}, {0, 0, n, 0}, {1, 0, n, 0}, {2, 0, n, 1}, {3, 1, n, 0}, {2, 0, n, 1}, {0, 1, n, 0}, {4, 0, n, 0, 0, 30, 0, 0, 0, 0, 0}, {1, 0, n, 0}, {2, 0, n, 1}, {2, 1, n, 0}}) p.add("step", a); v.push_back(p); }
    return v;
}
static Reg r20(Prop{"C20", gen_c20, exec_c20, 60000, 600000, dir_c20, "seeded histories of create, load, faulty load (storage fault, foreign or damaged file, failed allocation), inference, aborted inference and destroy over four slots and up to three generated networks. Non-trivial: a load failed, an inference was aborted, or a network was instantiated more than once", REAL, STUB});

// ------------------------------------------------------------------ the programs
static WModel model_of(const Def &d) {
    static std::map<int, WModel> *memo = new std::map<int, WModel>; if (memo->count(d.idx)) return (*memo)[d.idx];
    Inst x; Result q = ncreate(x, d); check(q.o == RET, "c16-died", "creating the network: " + describe(q)); WModel m;
    auto rd = [&](Tensor **t, std::vector<Shape> &o) { size_t n = is_live(t) ? live_size(t) / sizeof(Tensor *) : 0; for (size_t i = 0; i < n; i++) if (t[i] && is_live(t[i])) { Shape s; Tensor *y = t[i]; uint32_t nd = y->num_dimensions(); if (nd == 4) s = {y->num_batches(), y->num_channels(), y->height(), y->width()}; else if (nd == 3) s = {y->num_batches(), y->num_channels(), y->width()}; else if (nd == 2) s = {y->height(), y->width()}; else s = {y->num_elements()}; o.push_back(s); } };
    { Harness h; rd(net_api(d.idx).kernels(x.p), m.kernels); rd(net_api(d.idx).biases(x.p), m.biases); } ndestroy(x);
    std::vector<std::vector<uint32_t>> k, b; std::string why; if (!w_decode(d.weights, m, k, b, why)) fail("c16-load", "the generated weights file does not fit the generated network (" + op_names(d) + "): " + why);
    return (*memo)[d.idx] = m;
}
struct FileState { std::string bytes; bool intact, refuse; };       // bytes: what the medium holds (before read faults)
// item fields: stale net+1 (other network's file), fault 7; mutations from the plan's "<mk>" items
static FileState prepare(const Plan &p, const char *k, const char *mk, const std::string &path, const std::string &own, const std::string &other) {
    FileState f; const Item *it = p.find(k); f.bytes = own; bool stale = it && arg(*it, 0); if (stale) { f.bytes = other; count("fault.other_networks_file"); }
    Plan q; for (auto *m : p.all(mk)) q.add("mut", m->a); bool changed = false; if (!q.items.empty()) f.bytes = mutate_bytes(f.bytes, q, {}, {}, changed);
    LoadFault lf = it ? load_fault(*it, 1) : LoadFault{0, -1, -1, 0, 0, 0, -1}; bool h = hard(lf, f.bytes.size()); install(lf, path, f.bytes);
    f.intact = f.bytes == own && !h; f.refuse = lf.open_errno != 0 || false; if (lf.trunc >= 0 && lf.trunc < (i64) f.bytes.size()) f.bytes.resize((size_t) lf.trunc); return f;
}
static void gen_file(Rng &r, Plan &p, const char *k, const char *mk, i64 size, bool weights) {
    int z = (int) r.below(100); std::vector<i64> a = {0};
    if (z < 40) { gen_load_fault(r, a, size); p.add(k, a); } else if (z < 75) { Plan q; gen_mut(r, q, size, weights, false); for (auto &m : q.items) p.add(mk, m.a); } else if (z < 90) { a[0] = 1; a.insert(a.end(), 7, 0); p.add(k, a); } else { gen_load_fault(r, a, size); p.add(k, a); Plan q; gen_mut(r, q, size, weights, false); for (auto &m : q.items) p.add(mk, m.a); }
}
struct Argv { std::vector<std::string> s; std::vector<char *> p; void done() { for (auto &x : s) p.push_back(&x[0]); p.push_back(nullptr); } };
static int status_of(const Result &q, i64 ret) { return q.o == RET ? (int) (ret & 255) : q.o == EXITED ? (q.exit_code & 255) : -1; }
static std::string weights_complete(const WModel &m, const std::string &bytes, Tensor **k, Tensor **b) {
    std::vector<std::vector<uint32_t>> ek, eb; std::string why; if (!w_decode(bytes, m, ek, eb, why)) return "the weights file must be refused: " + why;
    for (size_t i = 0; i < ek.size(); i++) if (!ek[i].empty() && bits(k[i]) != ek[i]) return fmt("kernel %zu does not hold the stored values", i);
    for (size_t i = 0; i < eb.size(); i++) if (!eb[i].empty() && bits(b[i]) != eb[i]) return fmt("bias %zu does not hold the stored values", i);
    return "";
}
static std::string esc_(const char *s) { return std::string("'") + s + "'"; }

// ------------------------------------------------------------------ C18
static const char *bad_runs[] = {"abc", "", "3x", "-1", "-7", "x3", "99999999999999999999999", "-99999999999999999999", "--2", "five"};
static const char *bad_once[] = {"abc", "", "1x", "yes", "x"};
static void exec_c18(const Plan &p) {
    const Def &d = net_of(Item{"", {p.cfg("net", 0)}}, 0); NetApi &a = net_api(d.idx); if (!a.dummy) fail("harness", "no program"); WModel m = model_of(d);
    alloc().fill = (int) clampi(p.cfg("fill", 165), 0, 255); i64 runs = clampi(p.cfg("runs", 2), 0, 60), once = clampi(p.cfg("once", 0), 0, 3); i64 bad = clampi(p.cfg("badargs", 0), 0, 40);
    const Def &o = net_at((u64) clampi(p.cfg("other", 0), 0, 1 << 20)); FileState w = prepare(p, "wfault", "wmut", "weights.bin", d.weights, o.weights);
    static const char *onces[] = {"0", "1", "2", "-1"}; Argv v; v.s = {"./dummy_input", "weights.bin", std::to_string(runs), onces[once]}; bool wrong = false;
    if (bad == 1) { v.s.pop_back(); wrong = true; } else if (bad == 2) { v.s.resize(2); wrong = true; } else if (bad == 3) { v.s.resize(1); wrong = true; } else if (bad == 4) { v.s.push_back("7"); wrong = true; } else if (bad >= 10 && bad < 20) { v.s[2] = bad_runs[bad - 10]; wrong = true; } else if (bad >= 20 && bad < 25) { v.s[3] = bad_once[bad - 20]; wrong = true; }
    v.done(); if (wrong) count("fault.wrong_arguments");
    i64 mode = clampi(p.cfg("clock", 0), 0, 5); Rng cr((u64) p.cfg("clockseed", 1)); clk().now = 1.7e9 + (double) (p.cfg("clockseed", 1) % 1000); double t0 = clk().now; double dur = mode == 0 ? 0 : (double) clampi(p.cfg("dur_ms", 10), 0, 5000) / 1000; double elapsed = 0;
    clk().on_read = [&] { if (mode == 1) clk().now += 0.0005; if (mode == 2 && cr.chance(40)) { clk().now -= 1 + (double) cr.below(5); count("fault.clock_jump_back"); } if (mode == 3) { clk().now = t0 + (double) cr.below(4) - 2; count("fault.clock_jump"); } if (mode == 4 && cr.chance(20)) { clk().now += 3600.0 * (double) cr.below(1000); count("fault.clock_jump"); } if (mode == 5) clk().now = t0; };
    std::vector<std::vector<uint32_t>> ins; std::string bad_w; int started = 0;
    g_on_infer = [&](void *, Tensor **k, Tensor **b, Tensor *in, Tensor *out, bool after) { if (after) { clk().now += dur; elapsed += dur; return; } started++; std::vector<uint32_t> x = bits(in); if (x.size() != elems(d.ishape()) && bad_w.empty()) bad_w = "input of another size"; ins.push_back(x); if (started == 1 && bad_w.empty()) bad_w = weights_complete(m, w.bytes, k, b); };
    i64 ret = -99; Result q = in_code([&] { ret = a.dummy((int) v.s.size(), v.p.data()); }); g_on_infer = nullptr; clk().on_read = nullptr; sim_time(elapsed + 0.001);
    int st = status_of(q, ret); std::string cmd; for (auto &x : v.s) cmd += " " + esc_(x.c_str()); note(cmd + fmt(": %s, status %d, %d inferences", describe(q).c_str(), st, started));
    check(q.o == RET || (q.o == EXITED && q.exit_code != 0x10002), "c18-died", cmd + ": the program " + describe(q));
    if (wrong) { nontrivial(); check(started == 0, "c18-args", cmd + fmt(": wrong arguments, but %d inferences run", started)); check(st != 0, "c18-args", cmd + ": wrong arguments, but exit status 0"); return; }
    std::string why; std::vector<std::vector<uint32_t>> ek, eb; bool refuse = w.refuse || !w_decode(w.bytes, m, ek, eb, why);
    if (!w.intact) nontrivial();
    if (refuse) { check(started == 0, "c18-weights", cmd + fmt(": the weights cannot be loaded (%s), but %d inferences run", why.c_str(), started)); check(st != 0, "c18-weights", cmd + ": the weights cannot be loaded (" + why + "), but exit status 0"); count("probe.refused_weights"); return; }
    if (!w.intact && st != 0) { check(started == 0, "c18-weights", cmd + fmt(": status %d after %d inferences", st, started)); count("probe.refused_weights"); return; }
    check(st == 0, "c18-status", cmd + fmt(": complete weights and correct arguments, but exit status %d", st)); check(bad_w.empty(), "c18-weights", cmd + ": inference although " + bad_w);
    check(started == runs, "c18-runs", cmd + fmt(": %lld runs requested, %d done", (long long) runs, started)); if (runs > 1) nontrivial();
    size_t N = elems(d.ishape()); count("probe.inferences", (u64) started);
    for (size_t k = 0; k < ins.size(); k++) for (size_t i = 0; i < N; i++) { float f = f_of(ins[k][i]); if (!(f >= 0.0f && f <= 1.0f)) fail("c18-range", cmd + fmt(": input element %zu of run %zu is %.9g", i, k, (double) f)); }
    if (N < 2) return;
    for (size_t k = 1; k < ins.size(); k++) {
        if (once) { if (ins[k] != ins[0]) fail("c18-once", cmd + fmt(": generate-once is set, but run %zu uses another input than run 0", k)); continue; }
        for (size_t j = 0; j < k; j++) { size_t same = 0; for (size_t i = 0; i < N; i++) same += ins[k][i] == ins[j][i]; if (same == N) fail("c18-repeated", cmd + fmt(": run %zu uses the input of run %zu again", k, j)); if (same > 1 + N / 8) fail("c18-not-new", cmd + fmt(": %zu of %zu input elements of run %zu are those of run %zu", same, N, k, j)); }
    }
    if (!ins.empty() && N >= 8) { std::set<uint32_t> s(ins[0].begin(), ins[0].end()); if (s.size() < N - N / 4) fail("c18-not-random", cmd + fmt(": only %zu different values among %zu input elements", s.size(), N)); }
}
static void gen_c18(Rng &r, Plan &p, int) {
    p.add("net", {pick_net(r)}); p.add("runs", {r.chance(10) ? (i64) r.below(2) : 2 + (i64) r.below(r.chance(70) ? 6 : 40)}); p.add("once", {r.chance(70) ? 0 : (i64) r.below(4)}); p.add("clock", {(i64) r.below(6)}); p.add("clockseed", {(i64) r.below(100000)}); static const i64 du[] = {0, 1, 10, 200, 499, 999, 1000, 1001, 3000}; p.add("dur_ms", {du[r.below(9)]});
    if (r.chance(12)) p.add("badargs", {r.chance(30) ? 1 + (i64) r.below(4) : r.chance(70) ? 10 + (i64) r.below(10) : 20 + (i64) r.below(5)});
    if (r.chance(35)) { i64 n = p.cfg("net", 0); p.add("other", {(i64) r.below(defs().size())}); gen_file(r, p, "wfault", "wmut", (i64) defs()[n].weights.size(), true); }
    if (r.chance(60)) { static const int f[] = {0, 255, 127, 64}; p.add("fill", {f[r.below(4)]}); }
}
static std::vector<Plan> dir_c18(int) {
    std::vector<Plan> v; for (auto *d : present()) for (i64 once = 0; once < 2; once++) for (i64 c = 0; c < 6; c++) { Plan p; p.prop = "C18"; size_t k = d->idx; p.seed = k * 64 + (u64) once * 8 + (u64) c; p.add("net", {(i64) k}); p.add("runs", {3 + c}); p.add("once", {once}); p.add("clock", {c}); p.add("dur_ms", {c == 1 ? 300 : 1000 * c}); v.push_back(p); }
    for (i64 b : {1, 2, 3, 4, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24}) { Plan p; p.prop = "C18"; p.add("net", {0}); p.add("badargs", {b}); v.push_back(p); }
    for (i64 c = 0; c < (i64) std::min<size_t>(net_at(0).weights.size(), 600); c++) { Plan p; p.prop = "C18"; p.add("net", {0}); p.add("wfault", {0, 0, 1 + c, 0, 0, 0, 0, 0}); v.push_back(p); }
    return v;
}
static Reg r18(Prop{"C18", gen_c18, exec_c18, 30000, 800000, dir_c18, "runs of the generated random-input program under a simulated clock (frozen, creeping, jumping back, jumping anywhere, inferences of seeded duration), seeded run counts, both modes, wrong arguments, missing / cut / unreadable / damaged / foreign weights files and poisoned fresh memory. Non-trivial: more than one inference, or wrong arguments, or a weights file that is not intact", REAL, STUB, true});

// ------------------------------------------------------------------ C19
static void exec_c19(const Plan &p) {
    const Def &d = net_of(Item{"", {p.cfg("net", 0)}}, 0); NetApi &a = net_api(d.idx); if (!a.reference) fail("harness", "no program"); WModel m = model_of(d); const Def &o = net_at((u64) clampi(p.cfg("other", 0), 0, 1 << 20));
    u64 seed = (u64) p.cfg("input", 0); std::vector<uint32_t> in = net_input(d, seed), out = solo(d, seed, "c16-output"), ref = out; alloc().fill = (int) clampi(p.cfg("fill", 165), 0, 255);
    for (auto *it : p.all("delta")) { size_t i = (size_t) clampi(arg(*it, 0), 0, 1 << 24) % ref.size(); int k = (int) argc_(*it, 1, 0, 9); double x = (double) clampi(arg(*it, 2), 0, 1000000) / 1e6, v = f_of(ref[i]);
        uint32_t b; switch (k) { case 0: b = b_of((float) (v + 0.0009 * x)); break; case 1: b = b_of((float) (v - 0.0009 * x)); break; case 2: b = b_of((float) (v + 0.0011 + x * x * 3)); break; case 3: b = b_of((float) (v - 0.0011 - x * x * 3)); break; case 4: b = 0x7fc00000; break; case 5: b = b_of(INFINITY); break; case 6: b = b_of(-INFINITY); break; case 7: b = b_of((float) (-v)); break; case 8: b = b_of((float) (v * (1 + x))); break; default: b = b_of((float) (v + (x < .5 ? 1e30 : -1e30))); } ref[i] = b; count("fault.deviating_element"); }
    std::string fi = fci_encode(d.ishape(), in), fo = fco_encode((uint32_t) ref.size(), ref); std::vector<uint32_t> oin = net_input(o, seed); 
    FileState w = prepare(p, "wfault", "wmut", "weights.bin", d.weights, o.weights), I = prepare(p, "ifault", "imut", "in.data", fi, p.cfg("swap", 0) ? fo : fci_encode(o.ishape(), oin)), O = prepare(p, "ofault", "omut", "out.data", fo, p.cfg("swap", 0) ? fi : fco_encode((uint32_t) elems(o.oshape()), std::vector<uint32_t>(elems(o.oshape()), b_of(0.25f))));
    i64 bad = clampi(p.cfg("badargs", 0), 0, 10); Argv v; v.s = {"./reference_input", "weights.bin", "in.data", "out.data"}; if (bad == 1) v.s.pop_back(); else if (bad == 2) v.s.resize(2); else if (bad == 3) v.s.resize(1); else if (bad == 4) v.s.push_back("x"); else if (bad == 5) { v.s[1] = std::string(1500, 'd') + "/w"; } else if (bad == 6) v.s[2] = std::string(1500, 'd') + "/w"; else if (bad == 7) v.s[3] = std::string(1500, 'd') + "/w"; else if (bad == 8) std::swap(v.s[2], v.s[3]); else bad = 0; v.done();
    std::string bad_w; int runs = 0; std::vector<uint32_t> got_in, got_out;
    g_on_infer = [&](void *, Tensor **k, Tensor **b, Tensor *i, Tensor *q, bool after) { if (!after) { runs++; got_in = bits(i); bad_w = weights_complete(m, w.bytes, k, b); } else got_out = bits(q); };
    con_out().clear(); con_err().clear(); i64 ret = -99; Result q = in_code([&] { ret = a.reference((int) v.s.size(), v.p.data()); }); g_on_infer = nullptr; sim_time(0.01);
    int st = status_of(q, ret); std::string text = con_out() + "\n" + con_err(); bool no = text.find("not almost equal") != std::string::npos, yes = text.find("is almost equal") != std::string::npos || text.find("are almost equal") != std::string::npos;
    note(fmt("reference program: %s, status %d, announces %s", describe(q).c_str(), st, yes ? (no ? "both" : "a match") : no ? "a mismatch" : "nothing"));
    check(q.o == RET || (q.o == EXITED && q.exit_code != 0x10002) || (q.o == THREW_BADALLOC), "c19-died", "the program " + describe(q));
    check(!(yes && no), "c19-both", "the program announces both");
    std::string why; std::vector<std::vector<uint32_t>> ek, eb; std::vector<uint32_t> din, dout; bool any = !w.intact || !I.intact || !O.intact || bad; if (any) nontrivial();
    bool refuse = w.refuse || I.refuse || O.refuse; if (refuse) why = "unreadable file"; std::string y;
    if (!w_decode(w.bytes, m, ek, eb, y)) { refuse = true; why = "weights: " + y; } if (!ref_decode(I.bytes, true, d.ishape(), din, y)) { refuse = true; why = "input: " + y; } if (!ref_decode(O.bytes, false, d.oshape(), dout, y)) { refuse = true; why = "output: " + y; } if (bad) { refuse = true; why = "wrong arguments"; }
    if (refuse) { check(!yes, "c19-false-match", "the program announces a match although it cannot have loaded everything (" + why + ")"); check(!no, "c19-announced", "the program announces a mismatch although it cannot have loaded everything (" + why + ")"); check(st != 0, "c19-status", "exit status 0 although a file cannot be loaded (" + why + ")"); count("probe.refused"); return; }
    if (any && st != 0) { check(!yes && !no, "c19-announced", "the program announces a result and reports an error"); count("probe.refused"); return; }
    check(yes || no, "c19-silent", "all files are complete, but the program announces nothing"); check(runs == 1 || (runs > 0), "c19-no-inference", "a result is announced without an inference"); check(bad_w.empty(), "c19-weights", "a result is announced although " + bad_w); check(got_in == din, "c19-input", "the network did not run on the stored input");
    double worst = 0; size_t wi = 0; bool nan = false, fuzzy = false; for (size_t i = 0; i < dout.size(); i++) { double df = fabs((double) f_of(got_out[i]) - (double) f_of(dout[i])); if (!(df == df)) { nan = true; wi = i; } else { if (df > worst) { worst = df; if (!nan) wi = i; } if (fabs(df - 0.001) < 2e-5 + 1e-6 * fabs((double) f_of(dout[i]))) fuzzy = true; } }
    bool match = !nan && worst <= 0.001; if (!match) nontrivial(); if (fuzzy && !nan && worst < 0.0011) return;
    if (yes) check(match, "c19-false-match", nan ? fmt("a match is announced although element %zu is not comparable (%g and %g)", wi, f_of(got_out[wi]), f_of(dout[wi])) : fmt("a match is announced although element %zu of %zu deviates by %.6g", wi, dout.size(), worst));
    else check(!match, "c19-missed-match", fmt("a mismatch is announced although no element deviates by more than %.6g", worst));
    count(yes ? "probe.match" : "probe.mismatch");
}
static void gen_c19(Rng &r, Plan &p, int) {
    i64 n = pick_net(r); p.add("net", {n}); p.add("input", {(i64) r.below(1 << 16)}); const Def &d = defs()[n];
    int nd = r.chance(30) ? 0 : 1 + (int) r.below(r.chance(70) ? 1 : 4); i64 N = (i64) elems(d.oshape()); for (int i = 0; i < nd; i++) p.add("delta", {r.chance(25) ? 0 : r.chance(33) ? N - 1 : (i64) r.below(N), (i64) r.below(10), r.chance(15) ? 1000000 : (i64) r.below(1000000)});
    if (r.chance(55)) { p.add("other", {(i64) r.below(defs().size())}); int k = 1 + (int) r.below(r.chance(80) ? 1 : 3); for (int i = 0; i < k; i++) switch (r.below(3)) { case 0: gen_file(r, p, "wfault", "wmut", (i64) d.weights.size(), true); break; case 1: gen_file(r, p, "ifault", "imut", 20 + 4 * (i64) elems(d.ishape()), false); break; default: gen_file(r, p, "ofault", "omut", 16 + 4 * N, false); } if (r.chance(15)) p.add("swap", {1}); }
    if (r.chance(5)) p.add("badargs", {1 + (i64) r.below(8)}); if (r.chance(50)) { static const int f[] = {0, 255, 127, 64}; p.add("fill", {f[r.below(4)]}); }
}
static std::vector<Plan> dir_c19(int) {
    std::vector<Plan> v;
    for (auto *d : present()) { size_t k = d->idx; if (d->cost > 200000) continue; { Plan p; p.prop = "C19"; p.add("net", {(i64) k}); v.push_back(p); } size_t N = elems(d->oshape()); for (size_t i = 0; i < std::min<size_t>(N, 40); i++) for (i64 t : {2, 3, 4}) { Plan p; p.prop = "C19"; p.add("net", {(i64) k}); p.add("input", {(i64) i % 4}); p.add("delta", {(i64) i, t, 10000}); v.push_back(p); } }
    for (i64 b = 1; b <= 8; b++) { Plan p; p.prop = "C19"; p.add("net", {0}); p.add("badargs", {b}); v.push_back(p); }
    const Def &z0 = net_at(0); for (const char *f : {"wfault", "ifault", "ofault"}) { size_t sz = f[0] == 'w' ? z0.weights.size() : f[0] == 'i' ? 24 + 4 * elems(z0.ishape()) : 16 + 4 * elems(z0.oshape()); for (i64 c = 0; c < (i64) std::min<size_t>(sz, 400); c++) { Plan p; p.prop = "C19"; p.add("net", {0}); p.add(f, {0, 0, 1 + c, 0, 0, 0, 0, 0}); v.push_back(p); Plan q; q.prop = "C19"; q.add("net", {0}); q.add(f, {0, 0, 0, 1 + c, 1, 0, 0, 0}); v.push_back(q); } Plan z; z.prop = "C19"; z.add("net", {0}); z.add(f, {0, 2, 0, 0, 0, 0, 0, 0}); v.push_back(z); }
    return v;
}
static Reg r19(Prop{"C19", gen_c19, exec_c19, 30000, 800000, dir_c19, "runs of the generated reference program with reference outputs that deviate at seeded elements by seeded amounts (within and beyond the tolerance, NaN, infinities) and with missing, cut, unreadable, damaged or foreign weights, input and output files. Non-trivial: an element deviates by more than the tolerance, or a file is not intact, or the arguments are wrong", REAL, STUB, true});

// ------------------------------------------------------------------ C23: models the importer may refuse; what it accepts computes the model
// act: net seed | load fault (7)
static void exec_c23(const Plan &p) {
    alloc().fill = (int) clampi(p.cfg("fill", 165), 0, 255); int k = 0; std::map<int, Inst> inst; nontrivial();
    for (auto *it : p.all("act")) {
        if (++k > 12) break; const Def &d = net_of(*it, 0); Inst &x = inst[d.idx]; i64 ret; Result q; std::string path = fmt("w%d", k), nm = op_names(d);
        if (!x.p) { q = ncreate(x, d); check(q.o == RET, "c23-died", nm + ", creating the network: " + describe(q)); }
        if (it->a.size() > 2) { LoadFault lf = load_fault(*it, 2); install(lf, path, d.weights); q = nload(x, path.c_str(), ret); check(q.o == RET || q.o == THREW_BADALLOC, "c23-died", nm + ", loading: " + describe(q)); x.loaded = q.o == RET && ret == 0; drop_handles(); }
        if (!x.loaded) { disk().put(path + "u", d.weights); q = nload(x, (path + "u").c_str(), ret); check(q.o == RET, "c23-died", nm + ", loading: " + describe(q)); if (ret) { count("probe.weights_refused"); note("weights refused"); continue; } x.loaded = true; }
        std::vector<uint32_t> in = net_input(d, (u64) arg(*it, 1)), out; q = nrun(x, in, out); if (q.o == EXITED && q.exit_code) { count("probe.refused_at_run_time"); note(nm + ": refused at run time"); inst.erase(d.idx); forget_blocks(); continue; } check(q.o == RET, "c23-died", nm + ", running: " + describe(q)); count("probe.ran"); note(fmt("act %d: %s", k, nm.c_str()));
        std::string w = differs(out, eval(d, in)); check(w.empty(), "c23-output", "accepted, but computes something else: " + nm + ": " + w);
    }
    for (auto &x : inst) if (x.second.p) { Result q = ndestroy(x.second); check(q.o == RET, "c23-died", op_names(*x.second.d) + ", destroying the network: " + describe(q)); }
}
static void gen_c23(Rng &r, Plan &p, int) {
    i64 nets[2] = {pick_net(r), pick_net(r)}; for (int n = 1 + (int) r.below(4); n > 0; n--) { std::vector<i64> a = {nets[r.below(2)], (i64) r.below(1 << 20)}; if (r.chance(30)) gen_load_fault(r, a, (i64) defs()[nets[0]].weights.size()); p.add("act", a); }
    if (r.chance(40)) { static const int f[] = {0, 255, 127, 64}; p.add("fill", {f[r.below(4)]}); }
}
static std::vector<Plan> dir_c23(int) { std::vector<Plan> v; for (auto *d : present()) { Plan p; p.prop = "C23"; for (i64 s = 0; s < 7; s++) p.add("act", {d->idx, s}); v.push_back(p); } return v; }
static Reg r23(Prop{"C23", gen_c23, exec_c23, 15000, 150000, dir_c23, "models with attributes, shapes and operators the importer may not know, imported between two imports of an ordinary model of the same name; a refused import ends with an error and leaves the generated code byte for byte, an accepted one is run by simulated callers (failing and repeated loads) and compared with a double-precision evaluation of the ONNX model. Every run executes code of an accepted model", REAL, STUB});
