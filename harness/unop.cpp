#include "math.hpp"
#include "../src/array.cpp"
#include "../src/nodes/mathematical.cpp"
using namespace dwave::optimization;
#ifndef GUARD
#define GUARD
#endif
#define DYN OPERAND(a, 0, ({-1})) GUARD
#define FIX ssize_t n = vf_i64("n"); vf_assume(n >= 0); OPERAND(a, 0, ({n})) GUARD
extern "C" {
static ssize_t out[8];
void h_init() { State state(2); DYN UnaryOpNode<OP> node(&a); node.topological_index_ = 1; vf_pre("pre"); node.initialize_state(state); NODEAFTER(1) vf_point("end"); }
void h_prop() { State state(2); DYN UnaryOpNode<OP> node(&a); NODESTATE(node, 1) vf_pre("pre"); node.propagate(state); vf_point("end"); }
void h_observe() { State state(2); DYN UnaryOpNode<OP> node(&a); NODESTATE(node, 1) vf_pre("pre");
    out[0] = node.ndim(); out[1] = node.shape()[0]; out[2] = node.size(); out[3] = node.contiguous(); auto d = node.diff(state); auto s = node.shape(state);
    out[4] = d.size(); out[5] = s[0]; out[6] = node.size(state); out[7] = node.size_diff(state); vf_label(out, "out");
    vf_assert(node.buff(state) == nd->buffer.data(), "buff() is the results"); vf_point("end"); }
void h_bounds() { BARE(a, ({3})) GUARD double x = vf_f64("x"); UnaryOpNode<OP> node(&a); vf_pre("pre"); double lo = node.min(), hi = node.max(), r = OP()(x); BOUNDS vf_point("end"); }
void h_reject() { BARE(a, ({3})) vf_pre("pre"); UnaryOpNode<OP> node(&a); vf_point("end"); }
void h_commit() { State state(2); BARE(a, ({-1})) GUARD UnaryOpNode<OP> node(&a); NODESTATE(node, 1) vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_revert() { State state(2); BARE(a, ({-1})) GUARD UnaryOpNode<OP> node(&a); NODESTATE(node, 1) vf_pre("pre"); node.revert(state); vf_point("end"); }
}
