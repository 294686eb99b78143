// Verdicts of the real readers on files of the Python simulator: requests on stdin, answers on stdout.
// 'W' ref cand: 0 refused, 1 accepted with the values of ref, 2 accepted with other values, 3 the reader died, 4 ref itself is not a weights file
// 'I'/'O' shape cand: 0 refused, 1 accepted + values, 3 the reader died
#include "iocase.h"
#include "shared.h"
#include "pico-cnn/io/read_binary_weights.h"
#include "pico-cnn/io/read_binary_reference_data.h"
#include <unistd.h>
using namespace sim;
namespace sim { void reset_run(u64 seed); int oracle(); }

static bool shapes(const std::string &d, WModel &m) {
    size_t p = 3; auto line = [&](std::string &s) { size_t q = d.find('\n', p); if (q == std::string::npos) return false; s = d.substr(p, q - p); p = q + 1; return true; };
    auto u4 = [&](uint32_t &v) { if (p + 4 > d.size()) return false; memcpy(&v, &d[p], 4); p += 4; return true; };
    std::string s; uint32_t n; if (d.compare(0, 3, "FD\n") || !line(s) || !u4(n) || n > 100000) return false;
    for (uint32_t l = 0; l < n; l++) {
        std::string t; if (!line(s) || !line(t)) return false; int dims = t == "Conv" ? 4 : t == "Gemm" || t == "MatMul" || t == "Transpose" ? 3 : 0, vecs = t == "BatchNormalization" ? 4 : 1; uint32_t q[4] = {1, 1, 1, 1};
        for (int i = 0; i < dims; i++) if (!u4(q[i])) return false;
        if (dims && q[0] && q[1] && q[2] && q[3]) { m.kernels.push_back(dims == 4 ? Shape{q[0], q[1], q[2], q[3]} : Shape{q[1], q[2]}); p += 4 * (size_t) q[0] * q[1] * q[2] * q[3]; }
        for (int i = 0; i < vecs; i++) { uint32_t v; if (!u4(v)) return false; if (v) { m.biases.push_back({v}); p += 4 * (size_t) v; } if (p > d.size()) return false; }
    }
    return d.substr(p) == "end\n";
}
int sim::oracle() {
    auto rd = [](void *b, size_t n) { char *c = (char *) b; while (n) { ssize_t k = ::read(0, c, n); if (k <= 0) _exit(0); c += k; n -= (size_t) k; } };
    auto wr = [](const void *b, size_t n) { const char *c = (const char *) b; while (n) { ssize_t k = ::write(1, c, n); if (k <= 0) _exit(0); c += k; n -= (size_t) k; } };
    auto str = [&] { uint32_t n; rd(&n, 4); std::string s(n, 0); if (n) rd(&s[0], n); return s; };
    auto ans = [&](uint32_t v, const std::vector<uint32_t> &d = {}) { uint32_t n = (uint32_t) d.size(); wr(&v, 4); wr(&n, 4); wr(d.data(), 4 * n); };
    for (;;) {
        char k; rd(&k, 1); reset_run(1);
        std::string a = str(), b = str(); disk().put("f", b); i64 ret = -99;
        if (k == 'W') {
            WModel m; std::vector<std::vector<uint32_t>> ek, eb; std::string why; if (!shapes(a, m) || !w_decode(a, m, ek, eb, why)) { ans(4); continue; }
            WNet net(m); net.poison(0x7fc0beef); Result r = in_code([&] { ret = read_binary_weights("f", &net.kp, &net.bp); });
            if (r.o != RET) { ans(reported(r, ret) || r.o == THREW_BADALLOC ? 0 : 3); continue; }
            bool same = true; for (size_t i = 0; i < ek.size(); i++) same = same && bits(net.k[i]) == ek[i]; for (size_t i = 0; i < eb.size(); i++) same = same && bits(net.b[i]) == eb[i];
            ans(ret ? 0 : same ? 1 : 2);
        } else {
            Shape s(a.size() / 4); memcpy(s.data(), a.data(), a.size()); std::unique_ptr<Tensor> t(make_tensor(s)); Tensor *tp = t.get(); set_bits(tp, std::vector<uint32_t>(elems(s), 0x7fc0beef));
            Result r = in_code([&] { ret = k == 'I' ? read_binary_reference_input_data("f", &tp) : read_binary_reference_output_data("f", &tp); });
            if (r.o != RET) { ans(reported(r, ret) || r.o == THREW_BADALLOC ? 0 : 3); continue; }
            ans(ret ? 0 : 1, ret ? std::vector<uint32_t>() : bits(tp));
        }
        drop_handles();
    }
}
