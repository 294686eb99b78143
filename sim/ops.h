// The operations of the library as uniform cases: a spec with clamped parameters, the objects
// under test, and an independent definition of the result in double precision.
#pragma once
#include "iocase.h"

namespace sim {
enum LOp { L_CONV, L_FC, L_MATMUL, L_MAXPOOL, L_AVGPOOL, L_GMAX, L_GAVG, L_BN, L_LRN, L_RELU, L_LEAKY, L_PRELU, L_CLIP, L_SIGMOID, L_TANH, L_SOFTMAX, L_IDENT,
           L_CONCAT, L_ADD, L_ADDCH, L_MUL, L_PAD, L_EXPAND, L_COPY, L_N };
extern const char *lop_name[];
struct LSpec {
    int op, nd; uint32_t b, c, h, w, kh, kw, sh, sw, p[4], groups, oc; bool haspad, bias, incl; int kind, n; float fa, fb; u64 wseed;
    std::vector<Shape> in;                          // input tensors
    Shape out;
    std::vector<Shape> wt;                          // weight tensors
    bool inplace;                                   // the output is also an operand (add)
    std::string text() const;
};
// plan arguments: op nd c h w kh kw sh sw p0 p1 p2 p3 groups oc flags kind wseed x   (every value is clamped)
const int LARGS = 19;
LSpec lspec(const Item &it, size_t from);
void gen_lspec(Rng &r, std::vector<i64> &a, int maxdim, int op = -1);
std::vector<uint32_t> lvalues(const Shape &s, u64 seed, int kind);   // float bits
int lkind(const LSpec &s);                                            // value kind admissible for the operation
typedef std::vector<std::vector<uint32_t>> Vals;
Vals lweights(const LSpec &s, u64 seed);
Vals linputs(const LSpec &s, u64 seed, bool wild = false);
// expected result; tol: admissible deviation per element. before = contents of the output (in-place operations)
void lref(const LSpec &s, const Vals &in, const Vals &wt, const std::vector<uint32_t> &before, std::vector<double> &out, std::vector<double> &tol);
std::string lcompare(const LSpec &s, const std::vector<uint32_t> &got, const std::vector<double> &want, const std::vector<double> &tol);   // "" = equal

struct LObj {                                       // a layer object (or plain tensor operation) under test
    void *obj = nullptr;
    std::function<void(Tensor **in, Tensor *out)> run;
    std::function<void()> destroy = [] {};
};
struct LArrays { uint32_t k[2], s[2], p[4]; };      // parameter arrays owned by the caller
void larrays(const LSpec &s, LArrays &a);
// constructs the object (call inside in_code)
void lmake(const LSpec &s, LArrays &a, Tensor **wt, LObj &o);
// L_EXPAND returns a new tensor: run copies it into out and deletes it

// tensors made by the harness through the code under test
struct TensorSet { std::vector<Tensor *> t; ~TensorSet() { for (auto x : t) delete x; } void make(const std::vector<Shape> &s) { for (auto &x : s) t.push_back(make_tensor(x)); } Tensor **data() { return t.data(); } void set(const Vals &v) { for (size_t i = 0; i < t.size(); i++) set_bits(t[i], v[i]); } };
}
