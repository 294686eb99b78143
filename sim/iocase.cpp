#include "iocase.h"
#include "pico-cnn/io/read_binary_weights.h"
#include "pico-cnn/io/read_binary_reference_data.h"
#include "pico-cnn/io/read_mnist.h"
#include "pico-cnn/io/read_pgm.h"
#include "pico-cnn/io/read_jpeg.h"
#include "pico-cnn/io/read_means.h"
#include "pico-cnn/io/read_imagenet_labels.h"
#include "pico-cnn/io/read_imagenet_validation_labels.h"
#include "pico-cnn/io/write_float.h"
#include "pico-cnn/io/write_pgm.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <jerror.h>

namespace sim {

Tensor *make_tensor(const Shape &s) {
    switch (s.size()) {
        case 1: return new Tensor(s[0]);
        case 2: return new Tensor(s[0], s[1]);
        case 3: return new Tensor(s[0], s[1], s[2]);
        default: return new Tensor(s[0], s[1], s[2], s[3]);
    }
}
std::vector<uint32_t> bits(const Tensor *t) { std::vector<uint32_t> v(t->num_elements()); for (size_t i = 0; i < v.size(); i++) v[i] = b_of(t->access_blob(i)); return v; }
void set_bits(Tensor *t, const std::vector<uint32_t> &v) { for (size_t i = 0; i < v.size() && i < t->num_elements(); i++) { float f = f_of(v[i]); memcpy(&t->access_blob(i), &f, 4); } }
uint32_t rnd_float_bits(Rng &r, int kind) {
    if (kind && r.chance(20)) { static const uint32_t sp[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00001u, 1u, 0x007fffffu, 0x7f7fffffu, 0x0a646e65u /* "end\n" */, 0x0a0a0a0au, 0x000000ffu}; return sp[r.below(11)]; }
    if (kind && r.chance(20)) return (uint32_t) r.next();
    return b_of((float) (r.unit() * 4 - 2));
}
std::string describe(const Result &r) {
    switch (r.o) { case RET: return "returned"; case THREW_BADALLOC: return "threw bad_alloc"; case THREW_OTHER: return "threw " + r.what; case EXITED: return r.exit_code == 0x10002 ? "aborted" : fmt("exited with status %d", r.exit_code); default: return "was killed"; }
}

// ---------------------------------------------------------------- weights
static const char *wtypes[] = {"Conv", "Conv", "Gemm", "MatMul", "BatchNormalization", "Add", "Transpose"};
WLayer w_layer(int type, uint32_t a, uint32_t b, uint32_t c, uint32_t d, bool bias) { WLayer l; l.type = type; l.d[0] = a; l.d[1] = b; l.d[2] = c; l.d[3] = d; l.bias = bias; l.shared_k = l.shared_b = false; return l; }
static void bias_sizes(const WLayer &l, std::vector<uint32_t> &n) {
    if (l.type == W_BN) { n.assign(4, l.d[0]); return; }
    if (l.type == W_ADD) { n.assign(1, l.d[0]); return; }
    if (!l.bias) return;
    n.push_back(l.type == W_CONV || l.type == W_CONV1D ? l.d[0] : l.type == W_MATMUL ? l.d[1] : l.d[0]);
}
static bool kern_shape(const WLayer &l, Shape &s) {
    if (l.type == W_CONV) s = {l.d[0], l.d[1], l.d[2], l.d[3]};
    else if (l.type == W_CONV1D) s = {l.d[0], l.d[1], l.d[3]};
    else if (l.type == W_GEMM || l.type == W_MATMUL || l.type == W_TRANSPOSE) s = {l.d[0], l.d[1]};
    else return false;
    return true;
}
void w_fill(WFile &f, Rng &r, int kind) {
    for (auto &l : f.layers) {
        l.kern.clear(); l.bia.clear(); Shape s;
        if (kern_shape(l, s)) { std::vector<uint32_t> v(elems(s)); for (auto &x : v) x = rnd_float_bits(r, kind); l.kern.push_back(v); }
        std::vector<uint32_t> n; bias_sizes(l, n);
        for (auto c : n) { std::vector<uint32_t> v(c); for (auto &x : v) x = rnd_float_bits(r, kind); l.bia.push_back(v); }
    }
}
WModel w_model(const WFile &f) {
    WModel m;
    for (auto &l : f.layers) {
        Shape s; if (kern_shape(l, s) && !l.shared_k) m.kernels.push_back(s);
        std::vector<uint32_t> n; bias_sizes(l, n); if (!l.shared_b) for (auto c : n) m.biases.push_back({c});
    }
    return m;
}
static void put32(std::string &o, uint32_t v) { o.append((const char *) &v, 4); }
std::string w_encode(const WFile &f, std::vector<size_t> *ints, std::vector<size_t> *bounds) {
    std::string o = "FD\n"; o += f.name + "\n";
    auto pi = [&](uint32_t v) { if (ints) ints->push_back(o.size()); put32(o, v); };
    pi((uint32_t) f.layers.size());
    for (auto &l : f.layers) {
        if (bounds) bounds->push_back(o.size());
        o += l.name + "\n"; o += std::string(wtypes[l.type]) + "\n";
        Shape s;
        if (kern_shape(l, s)) {
            bool conv = l.type == W_CONV || l.type == W_CONV1D;
            if (l.shared_k) for (int i = 0; i < (conv ? 4 : 3); i++) pi(0);
            else if (l.type == W_CONV) for (int i = 0; i < 4; i++) pi(l.d[i]);
            else if (l.type == W_CONV1D) { pi(l.d[0]); pi(l.d[1]); pi(1); pi(l.d[3]); }
            else { pi(1); pi(l.d[0]); pi(l.d[1]); }
            if (!l.shared_k) for (auto v : l.kern[0]) put32(o, v);
            if (l.bia.empty()) pi(0);
        }
        for (auto &b : l.bia) { if (l.shared_b) { pi(0); continue; } pi((uint32_t) b.size()); for (auto v : b) put32(o, v); }
    }
    if (bounds) bounds->push_back(o.size());
    return o + "end\n";
}
struct Cur { const std::string &d; size_t p = 0; bool line(std::string &s) { size_t q = d.find('\n', p); if (q == std::string::npos) return false; s = d.substr(p, q - p); p = q + 1; return true; } bool u32_(uint32_t &v) { if (d.size() - p < 4) return false; memcpy(&v, d.data() + p, 4); p += 4; return true; } bool words(u64 n, std::vector<uint32_t> &v) { if ((u64) (d.size() - p) / 4 < n) return false; v.resize(n); if (n) memcpy(v.data(), d.data() + p, n * 4); p += n * 4; return true; } };
bool w_decode(const std::string &d, const WModel &m, std::vector<std::vector<uint32_t>> &kern, std::vector<std::vector<uint32_t>> &bias, std::string &why) {
    kern.assign(m.kernels.size(), {}); bias.assign(m.biases.size(), {});
    Cur c{d}; size_t ki = 0, bi = 0; uint32_t n;
    if (d.compare(0, 3, "FD\n")) { why = "wrong magic"; return false; }
    c.p = 3; std::string s;
    if (!c.line(s)) { why = "no model name"; return false; }
    if (!c.u32_(n)) { why = "no layer count"; return false; }
    auto one_bias = [&]() {
        uint32_t k; if (!c.u32_(k)) { why = "cut off before a count"; return false; }
        if (!k) return true;
        if (bi >= m.biases.size()) { why = "more bias tensors than the network has"; return false; }
        if (k != elems(m.biases[bi])) { why = fmt("count %u for a tensor of %llu elements", k, (unsigned long long) elems(m.biases[bi])); return false; }
        if (!c.words(k, bias[bi])) { why = "cut off inside bias values"; return false; }
        bi++; return true;
    };
    for (uint32_t l = 0; l < n; l++) {
        std::string type; if (!c.line(s) || !c.line(type)) { why = "cut off in layer header"; return false; }
        // the stored text is a C string for the loader
        type = type.c_str();
        if (type == "Conv") {
            uint32_t q[4]; for (int i = 0; i < 4; i++) if (!c.u32_(q[i])) { why = "cut off in dimensions"; return false; }
            if (q[0] && q[1] && q[2] && q[3]) {
                if (ki >= m.kernels.size()) { why = "more kernels than the network has"; return false; }
                const Shape &t = m.kernels[ki]; bool ok = t.size() == 4 ? (q[0] == t[0] && q[1] == t[1] && q[2] == t[2] && q[3] == t[3]) : t.size() == 3 ? (q[0] == t[0] && q[1] == t[1] && q[2] == 1 && q[3] == t[2]) : false;
                if (!ok) { why = fmt("kernel dimensions %u %u %u %u do not match the tensor", q[0], q[1], q[2], q[3]); return false; }
                if (!c.words(elems(t), kern[ki])) { why = "cut off inside kernel values"; return false; }
                ki++;
            }
            if (!one_bias()) return false;
        } else if (type == "BatchNormalization") { for (int i = 0; i < 4; i++) if (!one_bias()) return false; }
        else if (type == "Add") { if (!one_bias()) return false; }
        else if (type == "Gemm" || type == "MatMul" || type == "Transpose") {
            uint32_t q[3]; for (int i = 0; i < 3; i++) if (!c.u32_(q[i])) { why = "cut off in dimensions"; return false; }
            if (q[0] && q[1] && q[2]) {
                if (q[0] != 1) { why = "number of kernels is not 1"; return false; }
                if (ki >= m.kernels.size()) { why = "more kernels than the network has"; return false; }
                const Shape &t = m.kernels[ki]; if (t.size() != 2 || q[1] != t[0] || q[2] != t[1]) { why = fmt("kernel dimensions %u %u do not match the tensor", q[1], q[2]); return false; }
                if (!c.words(elems(t), kern[ki])) { why = "cut off inside kernel values"; return false; }
                ki++;
            }
            if (!one_bias()) return false;
        } else { why = "unknown layer type"; return false; }
    }
    if (ki < m.kernels.size() || bi < m.biases.size()) { why = "fewer parameters than the network has"; return false; }
    if (d.compare(c.p, 4, "end\n")) { why = "wrong end marker"; return false; }
    return true;
}
WNet::WNet(const WModel &m) {
    for (auto &s : m.kernels) k.push_back(make_tensor(s));
    for (auto &s : m.biases) b.push_back(make_tensor(s));
    kp = new Tensor *[k.size() + 1](); bp = new Tensor *[b.size() + 1]();
    for (size_t i = 0; i < k.size(); i++) kp[i] = k[i];
    for (size_t i = 0; i < b.size(); i++) bp[i] = b[i];
}
WNet::~WNet() { for (auto t : k) delete t; for (auto t : b) delete t; delete[] kp; delete[] bp; }
void WNet::poison(uint32_t v) { for (auto *l : {&k, &b}) for (auto t : *l) set_bits(t, std::vector<uint32_t>(t->num_elements(), v)); }

// ---------------------------------------------------------------- reference data
static void ref_dims(const Shape &s, uint32_t &c, uint32_t &h, uint32_t &w) { if (s.size() == 4) { c = s[1]; h = s[2]; w = s[3]; } else if (s.size() == 3) { c = s[1]; h = 1; w = s[2]; } else { c = 1; h = s[0]; w = s[1]; } }
std::string fci_encode(const Shape &s, const std::vector<uint32_t> &v) { uint32_t c, h, w; ref_dims(s, c, h, w); std::string o = "FCI\n"; put32(o, 1); put32(o, c); put32(o, h); put32(o, w); for (auto x : v) put32(o, x); return o + "end\n"; }
std::string fco_encode(uint32_t n, const std::vector<uint32_t> &v) { std::string o = "FCO\n"; put32(o, 1); put32(o, n); for (auto x : v) put32(o, x); return o + "end\n"; }
bool ref_decode(const std::string &d, bool input, const Shape &s, std::vector<uint32_t> &v, std::string &why) {
    if (d.compare(0, 4, input ? "FCI\n" : "FCO\n")) { why = "wrong magic"; return false; }
    Cur c{d}; c.p = 4; uint32_t q[4], ch, h, w; int n = input ? 4 : 2;
    for (int i = 0; i < n; i++) if (!c.u32_(q[i])) { why = "cut off in header"; return false; }
    ref_dims(s, ch, h, w);
    if (q[0] != 1) { why = "batch is not 1"; return false; }
    if (input ? (q[1] != ch || q[2] != h || q[3] != w) : (q[1] != elems(s))) { why = "stored dimensions do not match the tensor"; return false; }
    if (!c.words(elems(s), v)) { why = "cut off in values"; return false; }
    if (d.compare(c.p, 4, "end\n")) { why = "wrong end marker"; return false; }
    return true;
}

// ---------------------------------------------------------------- pictures
static void put32be(std::string &o, uint32_t v) { for (int i = 3; i >= 0; i--) o.push_back((char) (v >> (8 * i))); }
std::vector<uint8_t> rnd_pixels(Rng &r, size_t n, int pattern) {
    std::vector<uint8_t> p(n); static const uint8_t ws[] = {10, 32, 13, 9, 11, 12, 0, 255, '#', '0', '9'};
    for (size_t i = 0; i < n; i++) p[i] = pattern == 1 ? ws[r.below(11)] : pattern == 2 ? ws[r.below(6)] : pattern == 3 ? 255 : pattern == 4 ? 0 : (uint8_t) r.next();
    return p;
}
std::string mnist_images(uint32_t n, uint32_t h, uint32_t w, Rng &r, std::vector<uint8_t> &px, int pattern) { px = rnd_pixels(r, (size_t) n * h * w, pattern); std::string o; put32be(o, 2051); put32be(o, n); put32be(o, h); put32be(o, w); o.append((const char *) px.data(), px.size()); return o; }
std::string mnist_labels(uint32_t n, Rng &r, std::vector<uint8_t> &px) { px = rnd_pixels(r, n, r.chance(30) ? 1 : 0); std::string o; put32be(o, 2049); put32be(o, n); o.append((const char *) px.data(), px.size()); return o; }
std::string pgm_encode(uint32_t h, uint32_t w, const std::string &comment, const std::vector<uint8_t> &px) { std::string o = "P5\n#" + comment + "\n" + fmt("%u %u\n255\n", w, h); o.append((const char *) px.data(), px.size()); return o; }
bool pgm_parse(const std::string &d, Pgm &p, std::string &why) {
    if (d.compare(0, 3, "P5\n")) { why = "wrong magic"; return false; }
    size_t q = d.find('\n', 3); if (q == std::string::npos) { why = "no comment line"; return false; }
    q++; auto ws = [](char c) { return c == ' ' || (c >= 9 && c <= 13); };
    u64 *out[3] = {&p.w, &p.h, &p.maxv};
    for (int k = 0; k < 3; k++) {
        while (q < d.size() && ws(d[q])) q++;
        if (q < d.size() && d[q] == '+') q++;
        size_t s = q; u64 v = 0; while (q < d.size() && d[q] >= '0' && d[q] <= '9') { v = std::min<u64>(v * 10 + (u64) (d[q] - '0'), 1ull << 40); q++; }
        if (s == q) { why = "no number in header"; return false; }
        if (q >= d.size() || !ws(d[q])) { if (!(k == 2 && q >= d.size() && p.w * p.h == 0)) { why = "number not followed by white space"; return false; } }
        *out[k] = v; if (k < 2 && v > 65535) { why = "dimension too large"; return false; }
    }
    if (p.maxv < 1 || p.maxv > 255) { why = "bad maximum gray value"; return false; }
    q++;
    if (q > d.size()) q = d.size();
    if (d.size() - q < p.w * p.h) { why = "too few pixels"; return false; }
    p.px.assign(d.begin() + q, d.begin() + q + p.w * p.h); return true;
}
bool close_to(float got, double want, double scale) { return std::fabs((double) got - want) <= 4e-6 * (scale + std::fabs(want)) + 1e-30; }

struct JErr { jpeg_error_mgr m; jmp_buf jb; int warns_hard, warns_soft; };
static void j_exit(j_common_ptr c) { longjmp(((JErr *) c->err)->jb, 1); }
static void j_emit(j_common_ptr c, int lvl) { if (lvl >= 0) return; JErr *e = (JErr *) c->err; int code = e->m.msg_code; if (code == JWRN_EXTRANEOUS_DATA || code == JWRN_ADOBE_XFORM || code == JWRN_BOGUS_PROGRESSION || code == JWRN_JFIF_MAJOR || code == JWRN_TOO_MUCH_DATA) e->warns_soft++; else e->warns_hard++; }
static void j_out(j_common_ptr) {}
std::string jpeg_encode(uint32_t h, uint32_t w, bool gray, int quality, bool progressive, int restart, Rng &r, int space) {   // space: 0 default, 1 RGB, 2 no chroma subsampling, 3 chroma in half the rows, 4 CMYK, 5 YCCK, 6 two components
    jpeg_compress_struct c; JErr e; c.err = jpeg_std_error(&e.m); jpeg_create_compress(&c);
    unsigned char *mem = nullptr; unsigned long sz = 0; jpeg_mem_dest(&c, &mem, &sz);
    c.image_width = w; c.image_height = h; c.input_components = gray && space < 4 ? 1 : space == 6 ? 2 : space >= 4 ? 4 : 3; c.in_color_space = gray && space < 4 ? JCS_GRAYSCALE : space == 6 ? JCS_UNKNOWN : space >= 4 ? JCS_CMYK : JCS_RGB;
    jpeg_set_defaults(&c); if (space == 4) jpeg_set_colorspace(&c, JCS_CMYK); if (space == 5) jpeg_set_colorspace(&c, JCS_YCCK); if (space == 1 && !gray) jpeg_set_colorspace(&c, JCS_RGB); if (space == 2 || space == 3) { c.comp_info[0].h_samp_factor = 1; c.comp_info[0].v_samp_factor = space - 1; }
    jpeg_set_quality(&c, quality, TRUE); if (progressive) jpeg_simple_progression(&c); c.restart_interval = (unsigned) restart;
    jpeg_start_compress(&c, TRUE);
    std::vector<uint8_t> row(w * (size_t) c.input_components); int smooth = (int) r.below(3); u64 base = r.next();
    while (c.next_scanline < h) { for (size_t i = 0; i < row.size(); i++) row[i] = smooth == 0 ? (uint8_t) r.next() : (uint8_t) ((i * (1 + base % 5) + c.next_scanline * (1 + (base >> 8) % 7) + (i % 3) * (base >> 16)) & 255); JSAMPROW p = row.data(); jpeg_write_scanlines(&c, &p, 1); }
    jpeg_finish_compress(&c); std::string o((char *) mem, sz); jpeg_destroy_compress(&c); free(mem); return o;
}
Jpeg jpeg_decode(const std::string &d) {
    Jpeg j; if (d.empty()) { j.status = 1; return j; }
    jpeg_decompress_struct c; JErr e; e.warns_hard = e.warns_soft = 0; c.err = jpeg_std_error(&e.m); e.m.error_exit = j_exit; e.m.emit_message = j_emit; e.m.output_message = j_out;
    std::vector<uint8_t> *px = new std::vector<uint8_t>(); 
    if (setjmp(e.jb)) { jpeg_destroy_decompress(&c); delete px; j.status = 1; return j; }
    jpeg_create_decompress(&c); jpeg_mem_src(&c, (const unsigned char *) d.data(), d.size());
    jpeg_read_header(&c, TRUE); 
    if ((u64) c.image_width * c.image_height > 40000000) { jpeg_destroy_decompress(&c); delete px; j.status = 2; return j; }
    jpeg_start_decompress(&c); j.w = c.output_width; j.h = c.output_height; j.comps = (uint32_t) c.output_components;
    px->resize((size_t) j.w * j.h * j.comps);
    while (c.output_scanline < c.output_height) { JSAMPROW p = px->data() + (size_t) c.output_scanline * j.w * j.comps; jpeg_read_scanlines(&c, &p, 1); }
    jpeg_finish_decompress(&c); jpeg_destroy_decompress(&c);
    j.px.swap(*px); delete px;
    if (e.warns_hard) j.status = 1; else if (e.warns_soft || (j.comps != 1 && j.comps != 3)) j.status = 2;
    return j;
}

// ---------------------------------------------------------------- faults
LoadFault load_fault(const Item &it, size_t k) { LoadFault f; f.open_errno = arg(it, k); f.trunc = arg(it, k + 1, 0) - 1; f.eio = arg(it, k + 2, 0) - 1; f.sticky = arg(it, k + 3); f.chunk = arg(it, k + 4); f.cseed = arg(it, k + 5); f.bufsize = arg(it, k + 6, 0) - 1; return f; }
// all fields are 0 when the fault is absent, so that minimisation towards 0 removes faults
void gen_load_fault(Rng &r, std::vector<i64> &a, i64 size) {
    i64 oe = 0, tr = 0, eio = 0, st = 0, ch = 0, cs = 0, bs = 0;
    auto off = [&]() -> i64 { u64 k = r.below(10); if (k < 2) return (i64) r.below(40); if (k < 4) return std::max<i64>(0, size - 1 - (i64) r.below(12)); return (i64) r.below((u64) size + 1); };
    int k = (int) r.below(100);
    if (k < 7) { static const int es[] = {ENOENT, EACCES, EMFILE, ENFILE, EIO}; oe = es[r.below(5)]; }
    else if (k < 40) tr = 1 + off();
    else if (k < 62) { eio = 1 + off(); st = (i64) r.below(3) > 0; }
    if (r.chance(50)) { static const i64 c[] = {1, 2, 3, 5, 7, 16, 61, 512, 1000}; ch = c[r.below(9)]; if (r.chance(50)) cs = 1 + (i64) r.below(1000); }
    if (r.chance(30)) { static const i64 b[] = {1, 2, 7, 16, 100, 512, 4096, 65536}; bs = 1 + b[r.below(8)]; }
    for (i64 v : {oe, tr, eio, st, ch, cs, bs}) a.push_back(v);
}
bool hard(const LoadFault &f, size_t size) { return f.open_errno || (f.trunc >= 0 && f.trunc < (i64) size) || (f.eio >= 0 && f.eio <= (i64) size); }
void install(const LoadFault &f, const std::string &path, const std::string &bytes) {
    std::string d = bytes; if (f.trunc >= 0 && f.trunc < (i64) d.size()) { d.resize((size_t) f.trunc); count("fault.truncated_file"); }
    disk().put(path, d); disk().faults.erase(path);
    StreamFault s; if (f.open_errno == ENOENT) { disk().files.erase(path); count("fault.missing_file"); } else s.open_errno = (int) f.open_errno;
    s.eio_at = f.eio; s.eio_sticky = (int) f.sticky; s.chunk = std::max<i64>(0, f.chunk); s.chunk_seed = (u64) f.cseed; s.bufsize = f.bufsize > 1 ? std::min<i64>(f.bufsize, 1 << 20) : f.bufsize == 1 ? 1 : -1;
    disk().fault(path, s);
    if (g_verbose) note(fmt("file of %zu bytes (%zu stored): open errno %lld, cut at %lld, read error at %lld%s, pieces of %lld, stdio buffer %lld", bytes.size(), d.size(), (long long) f.open_errno, (long long) f.trunc, (long long) f.eio, f.eio >= 0 ? (f.sticky ? " (lasting)" : " (once)") : "", (long long) f.chunk, (long long) f.bufsize));
}

bool reported(const Result &r, i64 ret) { return (r.o == RET && ret != 0) || (r.o == EXITED && r.exit_code != 0 && r.exit_code != 0x10002); }
// ---------------------------------------------------------------- corruption of stored bytes
std::string mutate_bytes(std::string d, const Plan &p, const std::vector<size_t> &ints, const std::vector<size_t> &bounds, bool &changed) {
    std::string o = d;
    for (auto *it : p.all("mut")) {
        i64 k = arg(*it, 0), a = arg(*it, 1), b = arg(*it, 2), c = arg(*it, 3); if (d.empty()) break; i64 n = (i64) d.size();
        auto off = [&](i64 x) { return (size_t) (((x % n) + n) % n); };
        switch (k) {
            case 0: d[off(a)] ^= (char) (1 << (b & 7)); count("fault.bit_flip"); break;
            case 1: d[off(a)] = (char) b; count("fault.byte_overwritten"); break;
            case 2: { size_t s = off(a), l = std::min<size_t>(clampi(b, 1, 4096), d.size() - s); for (size_t i = 0; i < l; i++) d[s + i] = 0; count("fault.block_zeroed"); break; }
            case 3: { size_t s = off(a), l = std::min<size_t>(clampi(b, 1, 4096), d.size() - s); d.insert(s, d.substr(s, l)); count("fault.block_duplicated"); break; }
            case 4: { size_t s = off(a), l = std::min<size_t>(clampi(b, 1, 4096), d.size() - s); d.erase(s, l); count("fault.block_missing"); break; }
            case 5: { size_t s = off(a), t = off(b), l = (size_t) clampi(c, 1, 512); l = std::min(l, std::min(d.size() - s, d.size() - t)); for (size_t i = 0; i < l; i++) std::swap(d[s + i], d[t + i]); count("fault.blocks_swapped"); break; }
            case 6: if (!ints.empty()) { size_t s = ints[(size_t) a % ints.size()]; if (s + 4 <= d.size()) { uint32_t v = (uint32_t) b; if (c == 1) { uint32_t w; memcpy(&w, &d[s], 4); v = w + (uint32_t) b; } memcpy(&d[s], &v, 4); count("fault.number_overwritten"); } } break;
            case 7: if (bounds.size() >= 2) { size_t i = (size_t) a % (bounds.size() - 1); size_t s = bounds[i], e = bounds[i + 1]; if (e <= d.size()) { if (b & 1) d.erase(s, e - s); else d.insert(e, d.substr(s, e - s)); int32_t w; if (c & 1 && ints.size()) { memcpy(&w, &d[ints[0]], 4); w += (b & 1) ? -1 : 1; memcpy(&d[ints[0]], &w, 4); } count("fault.layer_block_moved"); } } break;
            case 8: d.resize(off(a)); count("fault.truncated_file"); break;
            case 9: { Rng r((u64) b); size_t s = off(a); i64 l = clampi(c, 1, 512); for (i64 i = 0; i < l; i++) if (s + (size_t) i < d.size()) d[s + (size_t) i] = (char) r.next(); count("fault.block_garbled"); break; }
        }
    }
    changed = d != o; return d;
}
void gen_mut(Rng &r, Plan &p, i64 size, bool weights, bool maybe_none) {
    int n = (int) r.below(4); if (!maybe_none) n = std::max(1, n);
    for (int i = 0; i < n; i++) {
        i64 k = (i64) r.below(10); if (!weights && k == 7) k = 6;
        i64 o = r.chance(30) ? (i64) r.below(60) : (i64) r.below((u64) size + 1);
        static const i64 sp[] = {0, 1, 2, 3, 5, 7, 16, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x40000000, 0x40000001, 0x20000000, 0xfffffffell, 1000000};
        switch (k) { case 0: p.add("mut", {0, o, (i64) r.below(8)}); break; case 1: p.add("mut", {1, o, (i64) r.below(256)}); break; case 2: case 3: case 4: p.add("mut", {k, o, 1 + (i64) r.below(r.chance(50) ? 8 : 200)}); break; case 5: p.add("mut", {5, o, (i64) r.below((u64) size + 1), 1 + (i64) r.below(64)}); break;
            case 6: p.add("mut", {6, (i64) r.below(40), sp[r.below(19)], (i64) (r.below(4) == 0)}); break; case 7: p.add("mut", {7, (i64) r.below(8), (i64) r.below(2), (i64) r.below(4) > 0}); break; case 8: p.add("mut", {8, o}); break; default: p.add("mut", {9, o, (i64) r.below(100000), 1 + (i64) r.below(64)}); }
    }
}
// ---------------------------------------------------------------- uniform cases
const char *io_name[] = {"read_binary_weights", "read_binary_reference_input_data", "read_binary_reference_output_data", "read_mnist_images", "read_mnist_labels", "read_pgm", "read_jpeg", "read_means", "read_imagenet_labels", "read_imagenet_validation_labels", "write_float", "write_pgm"};
static WFile rnd_weights(Rng &r) {
    WFile f; f.name = std::string(r.below(30), 'm'); int n = 1 + (int) r.below(5);
    for (int i = 0; i < n; i++) { WLayer l = w_layer((int) r.below(W_NTYPES), 1 + r.below(4), 1 + r.below(4), 1 + r.below(3), 1 + r.below(5), r.chance(60)); l.name = fmt("layer_%d", i); if (i && r.chance(10)) l.shared_k = true; if (i && r.chance(10)) l.shared_b = true; f.layers.push_back(l); }
    w_fill(f, r, 1); return f;
}
template<class T> struct Out { T p = nullptr; i64 ret = -99; uint16_t h = 7777, w = 7777; };
IoCase make_io_case(int kind, u64 seed) {
    Rng r(mix(seed, (u64) kind)); IoCase c; c.kind = kind; c.release = [] {}; std::string path = c.path;
    switch (kind) {
    case IO_WEIGHTS: {
        auto f = std::make_shared<WFile>(rnd_weights(r)); auto m = std::make_shared<WModel>(w_model(*f)); auto net = std::make_shared<WNet>(*m); auto ret = std::make_shared<i64>(-99);
        c.bytes = w_encode(*f); c.hold = net;
        c.call = [=] { *ret = read_binary_weights(path.c_str(), &net->kp, &net->bp); };
        c.succeeded = [=] { return *ret == 0; }; c.reset = [=] { *ret = -99; net->poison(0x7fc0dead); };
        std::string bytes = c.bytes;
        c.verify = [=]() -> std::string { std::vector<std::vector<uint32_t>> k, b; std::string why; if (!w_decode(bytes, *m, k, b, why)) return "oracle: " + why; for (size_t i = 0; i < k.size(); i++) if (bits(net->k[i]) != k[i]) return fmt("kernel %zu differs from the file", i); for (size_t i = 0; i < b.size(); i++) if (bits(net->b[i]) != b[i]) return fmt("bias %zu differs from the file", i); return ""; };
        break; }
    case IO_REFIN: case IO_REFOUT: {
        Shape s; bool in = kind == IO_REFIN; int nd = in ? 2 + (int) r.below(3) : 2;
        if (nd == 4) s = {1, (uint32_t) (1 + r.below(4)), (uint32_t) (1 + r.below(5)), (uint32_t) (1 + r.below(6))}; else if (nd == 3) s = {1, (uint32_t) (1 + r.below(4)), (uint32_t) (1 + r.below(9))}; else s = {1, (uint32_t) (1 + r.below(30))};
        std::vector<uint32_t> v(elems(s)); for (auto &x : v) x = rnd_float_bits(r, 1);
        c.bytes = in ? fci_encode(s, v) : fco_encode((uint32_t) v.size(), v);
        std::shared_ptr<Tensor *> t(new Tensor *(make_tensor(s)), [](Tensor **p) { delete *p; delete p; }); auto ret = std::make_shared<i64>(-99); c.hold = t;
        c.call = [=] { *ret = in ? read_binary_reference_input_data(path.c_str(), t.get()) : read_binary_reference_output_data(path.c_str(), t.get()); };
        c.succeeded = [=] { return *ret == 0; }; c.reset = [=] { *ret = -99; set_bits(*t, std::vector<uint32_t>(v.size(), 0x7fc0dead)); };
        c.verify = [=]() -> std::string { return bits(*t) == v ? "" : "tensor differs from the file"; };
        break; }
    case IO_MNIST_IMG: {
        uint32_t n = 1 + r.below(6), h = 1 + r.below(7), w = 1 + r.below(7), req = 1 + r.below(8), pad = r.below(3); auto px = std::make_shared<std::vector<uint8_t>>();
        c.bytes = mnist_images(n, h, w, r, *px, 0); auto o = std::make_shared<Out<fp_t **>>(); uint32_t got = std::min(n, req);
        c.call = [=] { o->ret = (i64) read_mnist_images(path.c_str(), &o->p, req, (uint8_t) pad, 0.0f, 1.0f); };
        c.succeeded = [=] { return o->ret > 0; }; c.reset = [=] { *o = Out<fp_t **>(); };
        c.release = [=] { for (i64 i = 0; i < o->ret; i++) free(o->p[i]); free(o->p); };
        c.verify = [=]() -> std::string { if (o->ret != got) return fmt("%lld images, expected %u", (long long) o->ret, got); for (uint32_t i = 0; i < got; i++) for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) if (!close_to(o->p[i][(y + pad) * (w + 2 * pad) + x + pad], (*px)[(i * h + y) * w + x] / 255.0, 1)) return "pixel differs"; return ""; };
        break; }
    case IO_MNIST_LAB: {
        uint32_t n = 1 + r.below(12), req = 1 + r.below(14); auto px = std::make_shared<std::vector<uint8_t>>(); c.bytes = mnist_labels(n, r, *px); auto o = std::make_shared<Out<uint8_t *>>(); uint32_t got = std::min(n, req);
        c.call = [=] { o->ret = (i64) read_mnist_labels(path.c_str(), &o->p, req); };
        c.succeeded = [=] { return o->ret > 0; }; c.reset = [=] { *o = Out<uint8_t *>(); }; c.release = [=] { free(o->p); };
        c.verify = [=]() -> std::string { if (o->ret != got) return "wrong count"; for (uint32_t i = 0; i < got; i++) if (o->p[i] != (*px)[i]) return "label differs"; return ""; };
        break; }
    case IO_PGM: {
        uint32_t h = 1 + r.below(9), w = 1 + r.below(9), pad = r.below(3); auto px = std::make_shared<std::vector<uint8_t>>(rnd_pixels(r, h * w, (int) r.below(3))); c.bytes = pgm_encode(h, w, " made up", *px); auto o = std::make_shared<Out<fp_t *>>();
        c.call = [=] { o->ret = read_pgm(&o->p, path.c_str(), (uint8_t) pad, 0.0f, 1.0f, &o->h, &o->w); };
        c.succeeded = [=] { return o->ret == 0; }; c.reset = [=] { *o = Out<fp_t *>(); }; c.release = [=] { free(o->p); };
        c.verify = [=]() -> std::string { if (o->h != h || o->w != w) return "dimensions differ"; for (uint32_t y = 0; y < h; y++) for (uint32_t x = 0; x < w; x++) if (!close_to(o->p[(y + pad) * (w + 2 * pad) + x + pad], (*px)[y * w + x] / 255.0, 1)) return "pixel differs"; return ""; };
        break; }
    case IO_JPEG: {
        uint32_t h = 1 + r.below(20), w = 1 + r.below(20); c.bytes = jpeg_encode(h, w, r.chance(30), 20 + (int) r.below(80), r.chance(30), 0, r); auto j = std::make_shared<Jpeg>(jpeg_decode(c.bytes)); auto o = std::make_shared<Out<fp_t **>>();
        c.call = [=] { o->ret = read_jpeg(&o->p, path.c_str(), 0.0f, 255.0f, &o->h, &o->w); };
        c.succeeded = [=] { return o->ret == 0; }; c.reset = [=] { *o = Out<fp_t **>(); }; c.release = [=] { for (int i = 0; i < 3; i++) free(o->p[i]); free(o->p); };
        c.verify = [=]() -> std::string { if (o->h != h || o->w != w) return "dimensions differ"; for (uint32_t i = 0; i < h * w; i++) for (int k = 0; k < 3; k++) if (!close_to(o->p[2 - k][i], j->comps == 1 ? j->px[i] : j->px[i * 3 + k], 255)) return "pixel differs"; return ""; };
        break; }
    case IO_MEANS: {
        auto v = std::make_shared<std::vector<float>>(); c.bytes = "FD\n"; for (int i = 0; i < 3; i++) { v->push_back((float) (r.unit() * 255)); c.bytes += fmt("%a\n", (double) (*v)[i]); } auto m = std::make_shared<std::vector<fp_t>>(3); auto ret = std::make_shared<i64>(-99);
        c.call = [=] { *ret = read_means(path.c_str(), m->data()); };
        c.succeeded = [=] { return *ret == 0; }; c.reset = [=] { *ret = -99; m->assign(3, -1e9f); };
        c.verify = [=]() -> std::string { for (int i = 0; i < 3; i++) if ((*m)[i] != (*v)[i]) return "mean differs"; return ""; };
        break; }
    case IO_LABELS: {
        uint32_t n = 1 + r.below(8), req = 1 + r.below(10); auto v = std::make_shared<std::vector<std::string>>(); for (uint32_t i = 0; i < n; i++) { v->push_back(std::string(1 + r.below(20), (char) ('a' + r.below(26)))); c.bytes += v->back() + "\n"; } auto o = std::make_shared<Out<char **>>(); uint32_t got = std::min(n, req);
        c.call = [=] { o->ret = read_imagenet_labels(path.c_str(), &o->p, req); };
        c.succeeded = [=] { return o->ret > 0; }; c.reset = [=] { *o = Out<char **>(); }; c.release = [=] { for (i64 i = 0; i < o->ret; i++) free(o->p[i]); free(o->p); };
        c.verify = [=]() -> std::string { if (o->ret != got) return fmt("%lld labels, expected %u", (long long) o->ret, got); for (uint32_t i = 0; i < got; i++) if ((*v)[i] != o->p[i]) return "label differs"; return ""; };
        break; }
    case IO_VALLABELS: {
        uint32_t n = 1 + r.below(8), req = 1 + r.below(10); bool zeros = r.chance(25); auto v = std::make_shared<std::vector<uint32_t>>(); for (uint32_t i = 0; i < n; i++) { v->push_back((uint32_t) r.below(1000)); c.bytes += fmt(zeros ? "ILSVRC2012_val_%08u.JPEG %03u\n" : "ILSVRC2012_val_%08u.JPEG %u\n", i + 1, v->back()); } auto o = std::make_shared<Out<uint32_t *>>(); uint32_t got = std::min(n, req);
        c.call = [=] { o->ret = read_imagenet_validation_labels(path.c_str(), &o->p, req); };
        c.succeeded = [=] { return o->ret > 0; }; c.reset = [=] { *o = Out<uint32_t *>(); }; c.release = [=] { free(o->p); };
        c.verify = [=]() -> std::string { if (o->ret != got) return fmt("%lld labels, expected %u", (long long) o->ret, got); for (uint32_t i = 0; i < got; i++) if ((*v)[i] != o->p[i + 1]) return "label differs"; return ""; };
        break; }
    default: {
        uint32_t h = 1 + r.below(8), w = 1 + r.below(8); auto img = std::make_shared<std::vector<float>>(h * w); for (auto &x : *img) x = (float) (r.unit() * 8 - 4); c.writer = true; auto ret = std::make_shared<i64>(-99); bool wf = kind == IO_WFLOAT;
        c.call = [=] { *ret = wf ? write_float(img->data(), (uint16_t) h, (uint16_t) w, path.c_str()) : write_pgm(img->data(), (uint16_t) h, (uint16_t) w, path.c_str()); };
        c.succeeded = [=] { return *ret == 0; }; c.reset = [=] { *ret = -99; };
        c.verify = [=]() -> std::string { const std::string &d = disk().files[path]; if (wf) { const char *p = d.c_str(); if (d.compare(0, 3, "FF\n")) return "magic"; p += 3; char *e; if (strtoul(p, &e, 10) != h) return "height"; p = e; if (strtoul(p, &e, 10) != w) return "width"; p = e; for (auto x : *img) { if (b_of(strtof(p, &e)) != b_of(x) || e == p) return "value"; p = e; } return ""; } Pgm g; std::string why; if (!pgm_parse(d, g, why)) return why; return g.w == w && g.h == h ? "" : "dimensions"; };
        break; }
    }
    return c;
}
}
