#include "ops.h"
#include "pico-cnn/layers/convolution.h"
#include "pico-cnn/layers/fully_connected.h"
#include "pico-cnn/layers/batch_normalization.h"
#include "pico-cnn/layers/pooling/max_pooling.h"
#include "pico-cnn/layers/pooling/average_pooling.h"
#include "pico-cnn/layers/pooling/global_max_pooling.h"
#include "pico-cnn/layers/pooling/global_average_pooling.h"
#include "pico-cnn/layers/activation_functions/activation_function.h"
#include "pico-cnn/layers/activation_functions/relu.h"
#include "pico-cnn/layers/activation_functions/clip.h"
#include "pico-cnn/layers/activation_functions/lrn.h"
#include "pico-cnn/layers/activation_functions/sigmoid.h"
#include "pico-cnn/layers/activation_functions/softmax.h"
#include "pico-cnn/layers/activation_functions/tan_h.h"
#include <algorithm>
namespace sim {
const char *lop_name[] = {"convolution", "fully connected", "matrix multiplication", "max pooling", "average pooling", "global max pooling", "global average pooling", "batch normalization", "LRN", "ReLU", "leaky ReLU", "parameterized ReLU", "clip", "sigmoid", "tanh", "softmax", "identity activation", "concatenation", "addition", "channel addition", "scaling", "padding into a tensor", "padding to a new tensor", "copy"};

static uint32_t U(i64 v, i64 lo, i64 hi) { return (uint32_t) clampi(v, lo, hi); }
LSpec lspec(const Item &it, size_t f) {
    LSpec s; auto A = [&](int i) { return arg(it, f + i, 0); };
    s.op = (int) clampi(A(0), 0, L_N - 1); s.nd = (int) clampi(A(1), 1, 4);
    s.c = U(A(2), 1, 70); s.h = U(A(3), 1, 70); s.w = U(A(4), 1, 300); s.kh = U(A(5), 1, 11); s.kw = U(A(6), 1, 11); s.sh = U(A(7), 1, 5); s.sw = U(A(8), 1, 5);
    for (int i = 0; i < 4; i++) s.p[i] = U(A(9 + i), 0, 6);
    s.groups = U(A(13), 1, 70); s.oc = U(A(14), 1, 70); i64 fl = A(15); s.bias = fl & 1; s.haspad = fl & 2; s.incl = fl & 4; s.kind = (int) clampi(A(16), 0, 7); s.wseed = (u64) A(17); i64 x = clampi(A(18), 0, 1000); s.n = 1 + (int) (x % 9);
    s.fa = 0; s.fb = 0; s.inplace = false;
    uint32_t B = 1;       // the operations that accept several batches get up to three
    switch (s.op) { case L_MAXPOOL: case L_AVGPOOL: case L_GMAX: case L_GAVG: case L_LRN: case L_RELU: case L_LEAKY: case L_CLIP: case L_SIGMOID: case L_TANH: case L_IDENT: case L_ADD: case L_MUL: case L_PAD: case L_EXPAND: case L_COPY: if (s.nd >= 3 || s.op == L_LRN) B = x % 17 == 5 ? 2 : x % 17 == 11 ? 3 : 1; break; default: break; }
    s.b = 1;
    auto zero_pad = [&] { for (auto &q : s.p) q = 0; s.haspad = false; };
    auto shape = [&](uint32_t c, uint32_t h, uint32_t w) -> Shape { if (s.nd >= 3) s.b = B; return s.nd == 4 ? Shape{B, c, h, w} : s.nd == 3 ? Shape{B, c, w} : s.nd == 2 ? Shape{h, w} : Shape{w}; };
    if (s.op == L_CONV || s.op == L_MAXPOOL || s.op == L_AVGPOOL) {
        if (s.nd < 3) s.nd = 3 + (s.nd & 1);
        if (s.op == L_CONV) { s.kh |= 1; s.kw |= 1; s.c = s.groups * ((s.c + s.groups - 1) / s.groups); s.oc = s.groups * ((s.oc + s.groups - 1) / s.groups); if (s.c > 70) s.c = s.groups; if (s.oc > 70) s.oc = s.groups; }
        else s.oc = s.c;
        if (s.nd == 3) { s.h = 1; s.kh = s.kw; s.sh = s.sw; s.p[2] = s.p[3] = 0; }        // 1-D: padding is [begin, end]
        if (!s.haspad) zero_pad();
        if (s.op != L_CONV) { if (s.nd == 4) { s.p[0] %= s.kh; s.p[2] %= s.kh; s.p[1] %= s.kw; s.p[3] %= s.kw; } else { s.p[0] %= s.kw; s.p[1] %= s.kw; } }
        uint32_t pl = s.nd == 4 ? s.p[1] : s.p[0], pr = s.nd == 4 ? s.p[3] : s.p[1];
        if (s.nd == 4 && s.h + s.p[0] + s.p[2] < s.kh) s.h = s.kh; if (s.w + pl + pr < s.kw) s.w = s.kw;
        uint32_t oh = s.nd == 4 ? (s.h + s.p[0] + s.p[2] - s.kh) / s.sh + 1 : 1, ow = (s.w + pl + pr - s.kw) / s.sw + 1;
        s.in = {shape(s.c, s.h, s.w)}; s.out = shape(s.oc, oh, ow);
        if (s.op == L_CONV) { s.wt.push_back(s.nd == 4 ? Shape{s.oc, s.c / s.groups, s.kh, s.kw} : Shape{s.oc, s.c / s.groups, s.kw}); if (s.bias) s.wt.push_back({s.oc}); }
        return s;
    }
    switch (s.op) {
    case L_FC: { uint32_t X = s.c * s.w; s.nd = 2; s.in = {{1, X}}; s.out = {1, s.oc}; s.wt = {{s.oc, X}}; if (s.bias) s.wt.push_back(x & 1 ? Shape{s.oc} : Shape{1, s.oc}); break; }
    case L_MATMUL: { uint32_t X = s.c * s.w; s.nd = 2; s.in = {{1, X}}; s.out = {1, s.oc}; s.wt = {{X, s.oc}}; break; }
    case L_GMAX: case L_GAVG: if (s.nd < 3) s.nd = 3; s.in = {shape(s.c, s.h, s.w)}; s.out = shape(s.c, 1, 1); break;
    case L_BN: if (s.nd < 3) s.nd = 3; s.in = {shape(s.c, s.h, s.w)}; s.out = s.in[0]; s.wt = {{s.c}, {s.c}, {s.c}, {s.c}}; s.fa = x % 3 == 0 ? 1e-5f : x % 3 == 1 ? 1e-3f : 0.1f; break;
    case L_LRN: s.nd = 4; s.in = {shape(s.c, s.h, s.w)}; s.out = s.in[0]; s.fa = x % 3 == 0 ? 1e-4f : x % 3 == 1 ? 0.5f : 2.0f; s.fb = x % 2 ? 0.75f : 0.5f; break;
    case L_PRELU: s.in = {shape(s.c, s.h, s.w)}; s.out = s.in[0]; s.wt = {s.in[0]}; break;
    case L_CLIP: s.fa = x % 4 == 0 ? 0 : x % 4 == 1 ? -1 : x % 4 == 2 ? -0.25f : 1; s.fb = x % 4 == 0 ? 6 : x % 4 == 1 ? 1 : x % 4 == 2 ? 0.25f : 2; s.in = {shape(s.c, s.h, s.w)}; s.out = s.in[0]; break;
    case L_LEAKY: s.fa = x % 3 == 0 ? 0.01f : x % 3 == 1 ? 0.3f : 2.0f; s.in = {shape(s.c, s.h, s.w)}; s.out = s.in[0]; break;
    case L_CONCAT: {
        if (s.nd < 2) s.nd = 2; if (s.nd == 2) s.h = 1; int k = 1 + (int) (x % 4); uint32_t tot = 0;
        for (int i = 0; i < k; i++) { uint32_t q = 1 + (uint32_t) (mix(s.wseed, (u64) i) % s.c); tot += s.nd == 2 ? q * s.w : q; s.in.push_back(s.nd == 2 ? Shape{1, q * s.w} : shape(q, s.h, s.w)); }
        s.out = s.nd == 2 ? Shape{1, tot} : shape(tot, s.h, s.w); s.n = k; break; }
    case L_ADD: s.in = {shape(s.c, s.h, s.w)}; s.out = s.in[0]; s.inplace = true; break;
    case L_ADDCH: if (s.nd < 3) s.nd = 3; s.in = {shape(s.c, s.h, s.w)}; s.out = s.in[0]; s.inplace = true; s.n = (int) (x % s.c); break;
    case L_MUL: s.fa = x % 3 == 0 ? 0.5f : x % 3 == 1 ? -3.25f : 1e3f; s.in = {shape(s.c, s.h, s.w)}; s.out = s.in[0]; break;
    case L_PAD: case L_EXPAND: {
        if (s.nd < 2) s.nd = 2; s.fa = x % 4 == 0 ? 0 : x % 4 == 1 ? 1 : x % 4 == 2 ? -2.5f : 0; s.in = {shape(s.c, s.h, s.w)}; s.haspad = true;
        s.out = s.nd == 3 ? Shape{B, s.c, s.w + s.p[0] + s.p[1]} : shape(s.c, s.h + s.p[0] + s.p[2], s.w + s.p[1] + s.p[3]); break; }
    default: s.in = {shape(s.c, s.h, s.w)}; s.out = s.in[0];
    }
    return s;
}
std::string LSpec::text() const {
    std::string o = lop_name[op]; auto sh = [&](const Shape &x) { std::string t = "("; for (size_t i = 0; i < x.size(); i++) t += (i ? "," : "") + std::to_string(x[i]); return t + ")"; };
    for (auto &i : in) o += " " + sh(i); o += "->" + sh(out);
    if (op == L_CONV || op == L_MAXPOOL || op == L_AVGPOOL) o += fmt(" kernel %ux%u stride %u,%u", kh, kw, this->sh, sw);
    if (haspad) o += fmt(" padding %u,%u,%u,%u", p[0], p[1], p[2], p[3]); if (op == L_CONV) o += fmt(" groups %u%s", groups, bias ? " bias" : ""); if (op == L_AVGPOOL) o += incl ? " including padding" : " excluding padding";
    if (op == L_LRN) o += fmt(" size %d", n); return o;
}
void gen_lspec(Rng &r, std::vector<i64> &a, int m, int op) {
    if (op < 0) { static const int wtd[] = {L_CONV, L_CONV, L_CONV, L_CONV, L_MAXPOOL, L_MAXPOOL, L_AVGPOOL, L_AVGPOOL, L_AVGPOOL}; op = r.chance(35) ? wtd[r.below(9)] : (int) r.below(L_N); }
    int nd = r.chance(60) ? 4 : r.chance(60) ? 3 : r.chance(70) ? 2 : 1; auto dim = [&](int hi) { return r.chance(25) ? 1 : 1 + (i64) r.below(hi); };
    a.insert(a.end(), {op, nd, dim(std::max(2, m / 2)), dim(m), dim(m)});
    i64 kh = 1 + (i64) r.below(r.chance(80) ? 4 : 6), kw = r.chance(50) ? kh : 1 + (i64) r.below(5); i64 sh = r.chance(50) ? 1 : 1 + (i64) r.below(3), sw = r.chance(60) ? sh : 1 + (i64) r.below(4);
    a.insert(a.end(), {kh, kw, sh, sw}); bool sym = r.chance(40); i64 p0 = (i64) r.below(4); for (int i = 0; i < 4; i++) a.push_back(sym ? p0 : (i64) r.below(4));
    size_t at = a.size() - 13; i64 g = r.chance(60) ? 1 : 1 + (i64) r.below(4), oc = r.chance(30) ? g : dim(std::max(2, m / 2)); if (r.chance(15)) { a[at + 2] = g; }
    if (op == L_CONV && r.chance(40)) { a[at + 2] = g * (1 + (i64) r.below(4)); oc = g * (1 + (i64) r.below(4)); }      // every size of group
    if (op == L_CONV && r.chance(5)) { g = 1 + (i64) r.below(35); a[at + 2] = g * (1 + (i64) r.below(2)); oc = g * (1 + (i64) r.below(2)); }      // many groups
    if (r.chance(5)) { static const i64 ks[] = {5, 6, 7, 7, 8, 9, 10, 11, 11}; a[at + 5] = ks[r.below(9)]; a[at + 6] = r.chance(60) ? a[at + 5] : 1 + (i64) r.below(11); a[at + 3] = 1 + (i64) r.below(16); a[at + 4] = 1 + (i64) r.below(24); a[at + 7] = 1 + (i64) r.below(5); a[at + 8] = 1 + (i64) r.below(5); if (r.chance(50)) for (int i = 0; i < 4; i++) a[at + 9 + i] = (i64) r.below(7); }      // large kernels
    if (r.chance(4)) switch (r.below(4)) { case 0: a[at + 2] = 1 + (i64) r.below(70); break; case 1: a[at + 3] = 1 + (i64) r.below(70); break; case 2: a[at + 4] = 1 + (i64) r.below(300); break; default: oc = 1 + (i64) r.below(70); }
    a.insert(a.end(), {g, oc, (i64) r.below(8), (i64) r.below(8), (i64) r.below(1 << 20), (i64) r.below(1000)});
}
int lkind(const LSpec &s) {
    int k = s.kind;
    if (k == 7) switch (s.op) {     // infinities, where the result is defined; any bits, where values are only moved
    case L_CONCAT: case L_COPY: case L_PAD: case L_EXPAND: case L_IDENT: return 7;
    case L_MAXPOOL: case L_GMAX: case L_RELU: case L_LEAKY: case L_CLIP: case L_SIGMOID: case L_TANH: return 8;
    default: k = 1;
    }
    switch (s.op) {
    case L_MAXPOOL: case L_GMAX: case L_RELU: case L_CLIP: case L_CONCAT: case L_COPY: case L_PAD: case L_EXPAND: case L_IDENT: return k;
    case L_SOFTMAX: case L_SIGMOID: case L_TANH: return k == 5 ? 0 : k;
    default: return k == 5 ? 4 : k;
    }
}
std::vector<uint32_t> lvalues(const Shape &sh, u64 seed, int kind) {
    Rng r(seed); std::vector<uint32_t> v(elems(sh));
    if (kind == 7) {        // anything a float can hold
        static const uint32_t special[] = {0x7f800000, 0xff800000, 0x7fc00000, 0xffc12345, 0x7f7fffff, 0xff7fffff, 0x00000001, 0x80000000, 0x7149f2ca, 0xf149f2ca};
        for (auto &b : v) b = r.chance(30) ? special[r.below(10)] : r.chance(40) ? (uint32_t) r.next() : b_of((float) (r.unit() * 4 - 2));
        return v;
    }
    if (kind == 8) { static const uint32_t special[] = {0x7f800000, 0xff800000, 0xff800000, 0x7f7fffff, 0xff7fffff, 0x00000001, 0x80000000, 0}; bool all = r.chance(10); for (auto &b : v) b = all ? 0xff800000u : r.chance(50) ? special[r.below(8)] : b_of((float) (r.unit() * 40 - 20)); return v; }
    for (auto &b : v) { double u = r.unit(), x = 0; switch (kind) { case 0: x = u * 2 - 1; break; case 1: x = u * 20 - 10; break; case 2: x = (double) r.range(-4, 4); break; case 3: x = -1 - 4 * u; break; case 4: x = (u * 2 - 1) * 1e5; break; case 5: x = -std::pow(10.0, 5 + 30 * u); break; default: x = r.chance(40) ? 0.0 : r.chance(30) ? 1e-39 * u : r.chance(50) ? -0.0 : u; } b = b_of((float) x); }
    return v;
}
Vals lweights(const LSpec &s, u64 seed) {
    Vals v; for (size_t i = 0; i < s.wt.size(); i++) { auto x = lvalues(s.wt[i], mix(mix(s.wseed, seed), 77 + i), s.op == L_BN && i == 3 ? 6 : 0); if (s.op == L_BN && i == 3) for (auto &b : x) b = b_of(0.05f + 3 * std::fabs(f_of(b))); v.push_back(x); }
    return v;
}
Vals linputs(const LSpec &s, u64 seed, bool wild) { Vals v; for (size_t i = 0; i < s.in.size(); i++) v.push_back(lvalues(s.in[i], mix(seed, 1000 + i), wild ? 7 : lkind(s))); return v; }

void lref(const LSpec &s, const Vals &in, const Vals &wt, const std::vector<uint32_t> &before, std::vector<double> &out, std::vector<double> &tol) {
    size_t N = elems(s.out); out.assign(N, 0); tol.assign(N, 0);
    if (s.b > 1) {
        LSpec t = s; t.b = 1; for (auto &q : t.in) q[0] = 1; t.out[0] = 1; size_t n = N / s.b;
        for (uint32_t k = 0; k < s.b; k++) {
            Vals bi; for (auto &v : in) bi.emplace_back(v.begin() + (long) (v.size() / s.b * k), v.begin() + (long) (v.size() / s.b * (k + 1)));
            std::vector<uint32_t> bb; if (before.size() == N) bb.assign(before.begin() + (long) (n * k), before.begin() + (long) (n * (k + 1)));
            std::vector<double> o, l; lref(t, bi, wt, bb, o, l); std::copy(o.begin(), o.end(), out.begin() + (long) (n * k)); std::copy(l.begin(), l.end(), tol.begin() + (long) (n * k));
        }
        return;
    }
    auto X = [&](size_t i) { return (double) f_of(in[0][i]); }; auto W = [&](int k, size_t i) { return (double) f_of(wt[k][i]); };
    auto put = [&](size_t i, double v, double scale, double terms) { out[i] = v; tol[i] = 2e-7 * (terms + 8) * (scale + std::fabs(v)) + 1e-30; };
    i64 C = s.c, H = s.nd == 4 ? s.h : 1, Wd = s.w, pt = s.nd == 4 ? s.p[0] : 0, pl = s.nd == 4 ? s.p[1] : s.p[0], pb = s.nd == 4 ? s.p[2] : 0, pr = s.nd == 4 ? s.p[3] : s.p[1];
    i64 kh = s.nd == 4 ? s.kh : 1, kw = s.kw, sh = s.nd == 4 ? s.sh : 1, sw = s.sw; (void) pb; (void) pr;
    i64 OH = s.nd == 4 ? s.out[2] : 1, OW = s.out.back();
    switch (s.op) {
    case L_CONV: { i64 cg = C / s.groups, og = s.oc / s.groups;
        for (i64 o = 0; o < s.oc; o++) for (i64 y = 0; y < OH; y++) for (i64 x = 0; x < OW; x++) {
            double a = s.bias ? W(1, o) : 0, sc = std::fabs(a); i64 g = o / og;
            for (i64 k = 0; k < cg; k++) for (i64 i = 0; i < kh; i++) for (i64 j = 0; j < kw; j++) { i64 yy = y * sh + i - pt, xx = x * sw + j - pl; if (yy < 0 || yy >= H || xx < 0 || xx >= Wd) continue; double t = X(((g * cg + k) * H + yy) * Wd + xx) * W(0, ((o * cg + k) * kh + i) * kw + j); a += t; sc += std::fabs(t); }
            put((o * OH + y) * OW + x, a, sc, (double) (cg * kh * kw)); } break; }
    case L_MAXPOOL: case L_AVGPOOL:
        for (i64 c = 0; c < C; c++) for (i64 y = 0; y < OH; y++) for (i64 x = 0; x < OW; x++) {
            double a = 0, sc = 0, m = -INFINITY; i64 cnt = 0;
            for (i64 i = 0; i < kh; i++) for (i64 j = 0; j < kw; j++) { i64 yy = y * sh + i - pt, xx = x * sw + j - pl; if (yy < 0 || yy >= H || xx < 0 || xx >= Wd) continue; double t = X((c * H + yy) * Wd + xx); a += t; sc += std::fabs(t); m = std::max(m, t); cnt++; }
            size_t q = (c * OH + y) * OW + x; if (s.op == L_MAXPOOL) { out[q] = m; tol[q] = 0; } else { double d = s.incl ? (double) (kh * kw) : (double) cnt; put(q, a / d, sc / d, (double) (kh * kw)); } }
        break;
    case L_FC: { i64 K = s.in[0][1]; for (i64 o = 0; o < s.oc; o++) { double a = s.bias ? W(1, o) : 0, sc = std::fabs(a); for (i64 i = 0; i < K; i++) { double t = X(i) * W(0, o * K + i); a += t; sc += std::fabs(t); } put(o, a, sc, (double) K); } break; }
    case L_MATMUL: { i64 K = s.in[0][1]; for (i64 o = 0; o < s.oc; o++) { double a = 0, sc = 0; for (i64 i = 0; i < K; i++) { double t = X(i) * W(0, i * s.oc + o); a += t; sc += std::fabs(t); } put(o, a, sc, (double) K); } break; }
    case L_GMAX: for (i64 c = 0; c < C; c++) { double m = -INFINITY; for (i64 i = 0; i < H * Wd; i++) m = std::max(m, X(c * H * Wd + i)); out[c] = m; tol[c] = 0; } break;
    case L_GAVG: for (i64 c = 0; c < C; c++) { double a = 0, sc = 0; for (i64 i = 0; i < H * Wd; i++) { a += X(c * H * Wd + i); sc += std::fabs(X(c * H * Wd + i)); } put(c, a / (H * Wd), sc / (H * Wd), (double) (H * Wd)); } break;
    case L_BN: for (i64 c = 0; c < C; c++) for (i64 i = 0; i < H * Wd; i++) { size_t q = c * H * Wd + i; double sd = std::sqrt(W(3, c) + (double) s.fa); put(q, W(0, c) * (X(q) - W(2, c)) / sd + W(1, c), std::fabs(W(0, c)) * (std::fabs(X(q)) + std::fabs(W(2, c))) / sd + std::fabs(W(1, c)), 8); } break;
    case L_LRN: { i64 lo = s.n / 2, hi = s.n / 2; for (i64 c = 0; c < C; c++) for (i64 i = 0; i < H * Wd; i++) { double q = 0; for (i64 k = std::max<i64>(0, c - lo); k <= std::min(C - 1, c + hi); k++) { double t = X(k * H * Wd + i); q += t * t; } double v = X(c * H * Wd + i) / std::pow(1 + (double) s.fa / s.n * q, (double) s.fb); put(c * H * Wd + i, v, std::fabs(v), 40); } break; }
    case L_RELU: for (size_t i = 0; i < N; i++) { out[i] = X(i) < 0 ? 0 : X(i); } break;
    case L_LEAKY: for (size_t i = 0; i < N; i++) put(i, X(i) < 0 ? X(i) * s.fa : X(i), 0, 0); break;
    case L_PRELU: for (size_t i = 0; i < N; i++) put(i, X(i) < 0 ? X(i) * W(0, i) : X(i), 0, 0); break;
    case L_CLIP: for (size_t i = 0; i < N; i++) out[i] = std::min(std::max(X(i), (double) s.fa), (double) s.fb); break;
    case L_SIGMOID: for (size_t i = 0; i < N; i++) { out[i] = 1 / (1 + std::exp(-X(i))); tol[i] = 2e-6; } break;
    case L_TANH: for (size_t i = 0; i < N; i++) { out[i] = std::tanh(X(i)); tol[i] = 2e-6; } break;
    case L_SOFTMAX: { double m = -1e300, d = 0; for (size_t i = 0; i < N; i++) m = std::max(m, X(i)); for (size_t i = 0; i < N; i++) d += std::exp(X(i) - m); for (size_t i = 0; i < N; i++) { out[i] = std::exp(X(i) - m) / d; tol[i] = 2e-6; } break; }
    case L_CONCAT: { size_t q = 0; for (auto &t : in) for (auto b : t) out[q++] = (double) f_of(b); break; }
    case L_ADD: for (size_t i = 0; i < N; i++) put(i, X(i) + (double) f_of(before[i]), std::fabs(X(i)) + std::fabs(f_of(before[i])), 0); break;
    case L_ADDCH: for (size_t i = 0; i < N; i++) { double b = f_of(before[i]); out[i] = b; if ((i64) (i / (H * Wd)) == s.n) put(i, X(i) + b, std::fabs(X(i)) + std::fabs(b), 0); } break;
    case L_MUL: for (size_t i = 0; i < N; i++) put(i, X(i) * s.fa, 0, 0); break;
    case L_PAD: case L_EXPAND: {
        i64 HH = s.nd == 3 ? 1 : s.h, ph = s.nd == 3 ? 0 : s.p[0], pw = s.nd == 3 ? s.p[0] : s.p[1], CC = s.nd == 2 ? 1 : C, oh = s.nd == 3 ? 1 : s.out[s.nd - 2];
        for (i64 c = 0; c < CC; c++) for (i64 y = 0; y < oh; y++) for (i64 x = 0; x < OW; x++) { i64 yy = y - ph, xx = x - pw; out[(c * oh + y) * OW + x] = yy < 0 || yy >= HH || xx < 0 || xx >= Wd ? (double) s.fa : X((c * HH + yy) * Wd + xx); } break; }
    default: for (size_t i = 0; i < N; i++) out[i] = X(i);
    }
}
std::string lcompare(const LSpec &s, const std::vector<uint32_t> &got, const std::vector<double> &want, const std::vector<double> &tol) {
    if (got.size() != want.size()) return "wrong number of elements";
    for (size_t i = 0; i < got.size(); i++) { double g = f_of(got[i]); if (!(g == want[i] || g == (double) (float) want[i] || (std::isnan(g) && std::isnan(want[i])) || std::fabs(g - want[i]) <= tol[i] + 4e-38)) return fmt("element %zu of %zu is %.9g, defined as %.9g", i, got.size(), g, want[i]); }
    return "";
}
void larrays(const LSpec &s, LArrays &a) {
    if (s.nd == 4 || s.nd <= 2) { a.k[0] = s.kh; a.k[1] = s.kw; a.s[0] = s.sh; a.s[1] = s.sw; memcpy(a.p, s.p, sizeof a.p); }
    else { a.k[0] = s.kw; a.k[1] = 1; a.s[0] = s.sw; a.s[1] = 1; memcpy(a.p, s.p, sizeof a.p); a.p[2] = a.p[3] = 0; }
}
template<class T> static void bind(LObj &o, T *l) { o.obj = l; o.run = [l](Tensor **in, Tensor *out) { l->run(in[0], out); }; o.destroy = [l] { delete l; }; }
void lmake(const LSpec &s, LArrays &a, Tensor **wt, LObj &o) {
    using namespace pico_cnn; using namespace pico_cnn::naive;
    switch (s.op) {
    case L_CONV: { auto *l = new Convolution("layer with a long name: conv", 0, op_type::Conv, wt[0], s.bias ? wt[1] : nullptr, s.haspad ? a.p : nullptr, a.s, s.groups); Harness h; bind(o, l); break; }
    case L_FC: { auto *l = new FullyConnected("layer with a long name: fc", 0, op_type::Gemm, wt[0], s.bias ? wt[1] : nullptr); Harness h; bind(o, l); break; }
    case L_MATMUL: { auto *l = new MatMul("layer with a long name: mm", 0, op_type::MatMul, wt[0]); Harness h; bind(o, l); break; }
    case L_MAXPOOL: { auto *l = new MaxPooling("layer with a long name: maxpool", 0, op_type::MaxPool, a.k, a.s, s.haspad ? a.p : nullptr); Harness h; bind(o, l); break; }
    case L_AVGPOOL: { auto *l = new AveragePooling("layer with a long name: avgpool", 0, op_type::AveragePool, a.k, a.s, s.haspad ? a.p : nullptr, s.incl); Harness h; bind(o, l); break; }
    case L_GMAX: { auto *l = new GlobalMaxPooling("layer with a long name: gmax", 0, op_type::GlobalMaxPool); Harness h; bind(o, l); break; }
    case L_GAVG: { auto *l = new GlobalAveragePooling("layer with a long name: gavg", 0, op_type::GlobalAveragePool); Harness h; bind(o, l); break; }
    case L_BN: { auto *l = new BatchNormalization("layer with a long name: bn", 0, op_type::BatchNormalization, wt[0], wt[1], wt[2], wt[3], s.fa); Harness h; bind(o, l); break; }
    case L_LRN: { auto *l = new LRN("layer with a long name: lrn", 0, op_type::LRN, s.fa, s.fb, (uint16_t) s.n); Harness h; bind(o, l); break; }
    case L_RELU: { auto *l = new ReLU("layer with a long name: relu", 0, op_type::ReLU); Harness h; bind(o, l); break; }
    case L_LEAKY: { auto *l = new LeakyReLU("layer with a long name: leaky", 0, op_type::LeakyReLU, s.fa); Harness h; bind(o, l); break; }
    case L_PRELU: { auto *l = new ParameterizedReLU("layer with a long name: prelu", 0, op_type::ParamReLU, wt[0]); Harness h; bind(o, l); break; }
    case L_CLIP: { auto *l = new Clip("layer with a long name: clip", 0, op_type::Clip, s.fa, s.fb); Harness h; bind(o, l); break; }
    case L_SIGMOID: { auto *l = new Sigmoid("layer with a long name: sigmoid", 0, op_type::Sigmoid); Harness h; bind(o, l); break; }
    case L_TANH: { auto *l = new TanH("layer with a long name: tanh", 0, op_type::TanH); Harness h; bind(o, l); break; }
    case L_SOFTMAX: { auto *l = new Softmax("layer with a long name: softmax", 0, op_type::Softmax); Harness h; bind(o, l); break; }
    case L_IDENT: { auto *l = new ActivationFunction("layer with a long name: identity", 0, op_type::Unknown); Harness h; bind(o, l); break; }
    case L_CONCAT: { Harness h; int n = s.n; o.run = [n](Tensor **in, Tensor *out) { out->concatenate_from((uint32_t) n, in, 1); }; break; }
    case L_ADD: { Harness h; o.run = [](Tensor **in, Tensor *out) { out->add_tensor(in[0]); }; break; }
    case L_ADDCH: { Harness h; uint32_t c = (uint32_t) s.n; o.run = [c](Tensor **in, Tensor *out) { out->add_channel(in[0], 0, c); }; break; }
    case L_MUL: { Harness h; float f = s.fa; o.run = [f](Tensor **in, Tensor *out) { in[0]->mul_with_factor(out, f); }; break; }
    case L_PAD: { Harness h; LArrays c = a; float f = s.fa; auto pa = std::make_shared<LArrays>(c); o.run = [pa, f](Tensor **in, Tensor *out) { in[0]->copy_with_padding_into(out, pa->p, f); }; break; }
    case L_EXPAND: { Harness h; auto pa = std::make_shared<LArrays>(a); float f = s.fa; o.run = [pa, f](Tensor **in, Tensor *out) { Tensor *t = in[0]->expand_with_padding(pa->p, f); bool ok; { Harness h; ok = t->num_elements() == out->num_elements(); if (ok) memcpy(out->data_, t->data_, out->size_bytes()); } delete t; check(ok, "c-shape", "padding to a new tensor gives the wrong number of elements"); }; break; }
    default: { Harness h; o.run = [](Tensor **in, Tensor *out) { in[0]->copy_data_into(out); }; }
    }
}
}
