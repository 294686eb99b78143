// What the build of a generated network exports to the harness.
#pragma once
#include "sim.h"
#include "pico-cnn/tensor.h"
typedef pico_cnn::naive::Tensor Tensor;

namespace sim {
struct NetApi {
    void *(*create)() = nullptr; void (*destroy)(void *) = nullptr; int (*load)(void *, const char *) = nullptr; void (*run)(void *, Tensor *, Tensor *) = nullptr;
    Tensor **(*kernels)(void *) = nullptr; Tensor **(*biases)(void *) = nullptr;
    int (*dummy)(int, char **) = nullptr; int (*reference)(int, char **) = nullptr;
};
NetApi &net_api(int i);
// called around every inference of a generated program
extern std::function<void(void *net, Tensor **kernels, Tensor **biases, Tensor *in, Tensor *out, bool after)> g_on_infer;
void on_infer(void *net, Tensor **kernels, Tensor **biases, Tensor *in, Tensor *out, bool after);
}
