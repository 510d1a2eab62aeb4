#include "math.hpp"
#include "../src/array.cpp"
#include "../src/nodes/flow.cpp"
using namespace dwave::optimization;
#define ONE OPERAND(c, 0, {std::span<const ssize_t>{}}) OPERAND(x, 1, ({-1})) OPERAND(y, 2, ({-1}))
#define SAME ssize_t n = vf_i64("n"); vf_assume(n >= 0 && n != 1); OPERAND(c, 0, ({n})) OPERAND(x, 1, ({n})) OPERAND(y, 2, ({n}))
#define WSTATE node.topological_index_ = 3; auto* nd = new WhereNodeData{std::vector<double>()}; state[3].reset(nd); \
    vf_vec_d(&nd->buffer, "buffer"); vf_vec_u(&nd->updates, "updates"); nd->previous_size_ = vf_i64("previous_size"); vf_label(&nd->previous_size_, "previous_size");
#define WAFTER auto* nd = static_cast<WhereNodeData*>(state[3].get()); \
    vf_label(&nd->buffer, "buffer"); vf_label(&nd->updates, "updates"); vf_label(&nd->previous_size_, "previous_size");
extern "C" {
static ssize_t out[8];
void h_init_one() { State state(4); ONE WhereNode node(&c, &x, &y); node.topological_index_ = 3; vf_pre("pre"); node.initialize_state(state); WAFTER vf_point("end"); }
void h_init_same() { State state(4); SAME WhereNode node(&c, &x, &y); node.topological_index_ = 3; vf_pre("pre"); node.initialize_state(state); WAFTER vf_point("end"); }
void h_prop_one() { State state(4); ONE WhereNode node(&c, &x, &y); WSTATE vf_pre("pre"); node.propagate(state); vf_point("end"); }
void h_prop_same() { State state(4); SAME WhereNode node(&c, &x, &y); WSTATE vf_pre("pre"); node.propagate(state); vf_point("end"); }
void h_observe() { State state(4); ONE WhereNode node(&c, &x, &y); WSTATE vf_pre("pre");
    out[0] = node.ndim(); out[1] = node.shape()[0]; out[2] = node.size(); out[3] = node.contiguous(); auto d = node.diff(state); auto s = node.shape(state);
    out[4] = d.size(); out[5] = s[0]; out[6] = node.size(state); out[7] = node.size_diff(state); vf_label(out, "out");
    vf_assert(node.buff(state) == nd->buffer.data(), "buff() is the results"); vf_point("end"); }
void h_shape() { ssize_t k = vf_i64("k"), l = vf_i64("l"), m = vf_i64("m"); vf_assume(k >= -1 && l >= -1 && m >= -1); BARE(c, ({k})) BARE(x, ({l})) BARE(y, ({m})) vf_pre("pre");
    WhereNode node(&c, &x, &y); out[0] = node.ndim(); out[1] = node.shape()[0]; out[2] = node.size(); vf_label(out, "out"); vf_point("end"); }
void h_bounds() { BARE(c, ({3})) BARE(a, ({3})) BARE(b, ({3})) double z = vf_f64("c"), x = vf_f64("x"), y = vf_f64("y"); WhereNode node(&c, &a, &b); vf_pre("pre");
    double lo = node.min(), hi = node.max(), r = z ? x : y; BOUNDS vf_point("end"); }
void h_commit() { State state(4); BARE(c, {std::span<const ssize_t>{}}) BARE(x, ({-1})) BARE(y, ({-1})) WhereNode node(&c, &x, &y); WSTATE vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_revert() { State state(4); BARE(c, {std::span<const ssize_t>{}}) BARE(x, ({-1})) BARE(y, ({-1})) WhereNode node(&c, &x, &y); WSTATE vf_pre("pre"); node.revert(state); vf_point("end"); }
}
