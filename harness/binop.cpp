#include "math.hpp"
#include "../src/array.cpp"
#include "../src/nodes/mathematical.cpp"
using namespace dwave::optimization;
#ifndef GUARD
#define GUARD
#endif
#define LEFT OPERAND(a, 0, {std::span<const ssize_t>{}}) OPERAND(b, 1, ({-1})) GUARD
#define RIGHT OPERAND(a, 0, ({-1})) OPERAND(b, 1, {std::span<const ssize_t>{}}) GUARD
#define SAME ssize_t n = vf_i64("n"); vf_assume(n >= 0); OPERAND(a, 0, ({n})) OPERAND(b, 1, ({n})) GUARD
#define INIT(NAME, OPERANDS) void h_init_##NAME() { State state(3); OPERANDS BinaryOpNode<OP> node(&a, &b); node.topological_index_ = 2; \
    vf_pre("pre"); node.initialize_state(state); NODEAFTER(2) vf_point("end"); }
#define PROP(NAME, OPERANDS) void h_prop_##NAME() { State state(3); OPERANDS BinaryOpNode<OP> node(&a, &b); NODESTATE(node, 2) \
    vf_pre("pre"); node.propagate(state); vf_point("end"); }
extern "C" {
INIT(same, SAME) PROP(same, SAME) INIT(left, LEFT) PROP(left, LEFT) INIT(right, RIGHT) PROP(right, RIGHT)
// shapes accepted and rejected, dynamic sizes, what the node reports
static ssize_t out[8];
#define REPORT out[0] = node.ndim(); out[1] = node.ndim() > 0 ? node.shape()[0] : 0; out[2] = node.size(); out[3] = node.contiguous(); vf_label(out, "out");
void h_shape_same() { ssize_t n = vf_i64("n"), m = vf_i64("m"); vf_assume(n >= 0 && m >= 0); BARE(a, ({n})) BARE(b, ({m})) GUARD
    vf_pre("pre"); BinaryOpNode<OP> node(&a, &b); REPORT vf_point("end"); }
void h_shape_dynamic() { ssize_t m = vf_i64("m"); vf_assume(m >= 0); BARE(a, ({-1})) BARE(b, ({m})) GUARD
    vf_pre("pre"); BinaryOpNode<OP> node(&a, &b); REPORT vf_point("end"); }
void h_shape_both() { BARE(a, ({-1})) BARE(b, ({-1})) GUARD
    vf_pre("pre"); BinaryOpNode<OP> node(&a, &b); REPORT vf_point("end"); }
void h_observe_left() { State state(3); LEFT BinaryOpNode<OP> node(&a, &b); NODESTATE(node, 2) vf_pre("pre");
    REPORT auto d = node.diff(state); auto s = node.shape(state); out[4] = d.size(); out[5] = s[0]; out[6] = node.size(state); out[7] = node.size_diff(state);
    vf_assert(node.buff(state) == nd->buffer.data(), "buff() is the results"); vf_point("end"); }
void h_observe_right() { State state(3); RIGHT BinaryOpNode<OP> node(&a, &b); NODESTATE(node, 2) vf_pre("pre");
    REPORT auto d = node.diff(state); auto s = node.shape(state); out[4] = d.size(); out[5] = s[0]; out[6] = node.size(state); out[7] = node.size_diff(state);
    vf_assert(node.buff(state) == nd->buffer.data(), "buff() is the results"); vf_point("end"); }
void h_bounds() { BARE(a, ({3})) BARE(b, ({3})) GUARD BinaryOpNode<OP> node(&a, &b); double x = vf_f64("x"), y = vf_f64("y"); vf_pre("pre");
    double lo = node.min(), hi = node.max(), r = OP()(x, y); BOUNDS vf_point("end"); }
void h_commit() { State state(3); BARE(a, {std::span<const ssize_t>{}}) BARE(b, ({-1})) GUARD BinaryOpNode<OP> node(&a, &b); NODESTATE(node, 2) vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_revert() { State state(3); BARE(a, {std::span<const ssize_t>{}}) BARE(b, ({-1})) GUARD BinaryOpNode<OP> node(&a, &b); NODESTATE(node, 2) vf_pre("pre"); node.revert(state); vf_point("end"); }
}
