// Stand-in for the generated network the example programs are compiled with (C28): the
// parameter arrays are filled by the real loader, run() is answered by the simulation.
#pragma once
#include "pico-cnn/tensor.h"
class Network {
public:
    Network(); ~Network();
    void run(pico_cnn::naive::Tensor *input, pico_cnn::naive::Tensor *output);
    pico_cnn::naive::Tensor **kernels, **biases;
    void *sim;
};
