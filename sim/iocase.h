// I/O operations of the library as uniform cases: how a valid file looks (encoders
// written from the format documentation, independent of the code), how the call is
// made, what its result means, and what the caller has to release afterwards.
#pragma once
#include "sim.h"
#include "pico-cnn/parameters.h"
#include "pico-cnn/tensor.h"
#include <cmath>
#include <cstdlib>

typedef pico_cnn::naive::Tensor Tensor;

namespace sim {
typedef std::vector<uint32_t> Shape;
inline u64 elems(const Shape &s) { u64 n = 1; for (auto d : s) n *= d; return n; }
Tensor *make_tensor(const Shape &s);
std::vector<uint32_t> bits(const Tensor *t);                       // raw contents
void set_bits(Tensor *t, const std::vector<uint32_t> &v);
uint32_t rnd_float_bits(Rng &r, int kind);                          // 0 plain, 1 special values too
inline float f_of(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
inline uint32_t b_of(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }

// ---- weights files ----------------------------------------------------------
enum WType { W_CONV, W_CONV1D, W_GEMM, W_MATMUL, W_BN, W_ADD, W_TRANSPOSE, W_NTYPES };
struct WLayer { int type; uint32_t d[4]; bool bias; bool shared_k, shared_b; std::string name; std::vector<std::vector<uint32_t>> kern, bia; };
struct WFile { std::string name; std::vector<WLayer> layers; };
struct WModel {                        // the network side: destination tensors
    std::vector<Shape> kernels, biases;
};
void w_fill(WFile &f, Rng &r, int kind);                           // random values for all layers
WModel w_model(const WFile &f);                                    // destination tensors such a file needs
std::string w_encode(const WFile &f, std::vector<size_t> *int_fields = nullptr, std::vector<size_t> *bounds = nullptr);
// lenient decoding of arbitrary bytes into destination tensors; false = a loader must refuse.
// on success kern/bias hold the expected contents of the tensors written (empty = not written)
bool w_decode(const std::string &d, const WModel &m, std::vector<std::vector<uint32_t>> &kern, std::vector<std::vector<uint32_t>> &bias, std::string &why);
WLayer w_layer(int type, uint32_t a, uint32_t b, uint32_t c, uint32_t d, bool bias);

struct WNet {                          // tensors handed to the loader
    std::vector<Tensor *> k, b; Tensor **kp = nullptr, **bp = nullptr;
    explicit WNet(const WModel &m); ~WNet();
    void poison(uint32_t v);
};

// ---- reference data -----------------------------------------------------------
std::string fci_encode(const Shape &s, const std::vector<uint32_t> &v);   // s = tensor shape (2-D, 3-D, 4-D)
std::string fco_encode(uint32_t n, const std::vector<uint32_t> &v);
bool ref_decode(const std::string &d, bool input, const Shape &s, std::vector<uint32_t> &v, std::string &why);

// ---- pictures and tables -----------------------------------------------------
std::string mnist_images(uint32_t n, uint32_t h, uint32_t w, Rng &r, std::vector<uint8_t> &px, int pattern);
std::string mnist_labels(uint32_t n, Rng &r, std::vector<uint8_t> &px);
std::string pgm_encode(uint32_t h, uint32_t w, const std::string &comment, const std::vector<uint8_t> &px);
struct Pgm { u64 w = 0, h = 0, maxv = 0; std::vector<uint8_t> px; };
bool pgm_parse(const std::string &d, Pgm &p, std::string &why);      // lenient
std::string jpeg_encode(uint32_t h, uint32_t w, bool gray, int quality, bool progressive, int restart, Rng &r, int space = 0);
struct Jpeg { int status = 0; /*0 ok, 1 must refuse, 2 either*/ uint32_t w = 0, h = 0, comps = 0; std::vector<uint8_t> px; };
Jpeg jpeg_decode(const std::string &d);
std::vector<uint8_t> rnd_pixels(Rng &r, size_t n, int pattern);
bool close_to(float got, double want, double scale);

// ---- storage faults as plan items ----------------------------------------------
// item <k> ... fields: missing/open errno, truncation, eio offset, eio sticky, chunk, chunk seed, buffer size
struct LoadFault { i64 open_errno, trunc, eio, sticky, chunk, cseed, bufsize; };
LoadFault load_fault(const Item &it, size_t from);
void gen_load_fault(Rng &r, std::vector<i64> &a, i64 size_hint);
bool hard(const LoadFault &f, size_t size);                          // can it legitimately make the load fail
void install(const LoadFault &f, const std::string &path, const std::string &bytes);

bool reported(const Result &r, i64 ret);                              // error result or fail-stop with nonzero status
// ---- corruption of stored bytes (plan items "mut") --------------------------------
std::string mutate_bytes(std::string d, const Plan &p, const std::vector<size_t> &ints, const std::vector<size_t> &bounds, bool &changed);
void gen_mut(Rng &r, Plan &p, i64 size, bool weights, bool maybe_none);
#define IO_REAL "pico-cnn/tensor.cpp, pico-cnn/io readers and writers, C stdio buffering, C++ runtime, libjpeg"
#define IO_STUB "file storage below stdio (simulated disk), heap accounting around the real heap, process exit, console"

// ---- uniform cases (C10, C11) -----------------------------------------------------
enum IoKind { IO_WEIGHTS, IO_REFIN, IO_REFOUT, IO_MNIST_IMG, IO_MNIST_LAB, IO_PGM, IO_JPEG, IO_MEANS, IO_LABELS, IO_VALLABELS, IO_WFLOAT, IO_WPGM, IO_NKINDS };
extern const char *io_name[];
struct IoCase {
    int kind; std::string path = "file"; std::string bytes; bool writer = false;
    std::function<void()> call;                 // runs inside in_code
    std::function<bool()> succeeded;
    std::function<void()> release;              // caller's duty after success
    std::function<std::string()> verify;        // "" if the result is the right one (fault-free)
    std::function<void()> reset;                // before a (re)try
    std::shared_ptr<void> hold;
};
IoCase make_io_case(int kind, u64 seed);
std::string describe(const Result &r);

// One process reading several different files, one after the other, from the same path: plan item "vary"
// (0: every load reads the same bytes; 1: other contents; 2: other contents, dimensions and parameters).
// Each "load" is run as a plan of its own in the same simulated process.
template <class F, class G> void varied(const Plan &p, F run, G change) {
    i64 m = clampi(p.cfg("vary", 0), 0, 2); auto loads = p.all("load"); if (!m || loads.size() < 2) { run(p); return; }
    for (size_t k = 0; k < loads.size() && k < 8; k++) {
        Plan s; s.prop = p.prop; s.seed = p.seed; for (auto &it : p.items) if (it.k != "load" && it.k != "vary") s.items.push_back(it);
        s.items.push_back(*loads[k]);
        if (k) { s.add("values", {p.cfg("values", 1) + (i64) k * 7919}); if (m == 2) change(s, (i64) k); count("probe.other_file_same_path"); }
        run(s);
    }
}
inline void bump(Plan &s, const char *k, i64 dflt, i64 by, i64 mod = 0) { i64 v = s.cfg(k, dflt) + by; s.add(k, {mod ? v % mod : v}); }
}
