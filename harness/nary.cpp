#include "math.hpp"
#include "../src/utils.cpp"
#include "../src/array.cpp"
#include "../src/nodes/mathematical.cpp"
using namespace dwave::optimization;
#if NUM == 1
#define OPERANDS OPERAND(a, 0, ({n}))
#define BARES BARE(a, ({3})) double x[] = {vf_f64("x0")};
#define ADD
#elif NUM == 2
#define OPERANDS OPERAND(a, 0, ({n})) OPERAND(b, 1, ({n}))
#define BARES BARE(a, ({3})) BARE(b, ({3})) double x[] = {vf_f64("x0"), vf_f64("x1")};
#define ADD node.add_node(&b);
#else
#define OPERANDS OPERAND(a, 0, ({n})) OPERAND(b, 1, ({n})) OPERAND(c, 2, ({n}))
#define BARES BARE(a, ({3})) BARE(b, ({3})) BARE(c, ({3})) double x[] = {vf_f64("x0"), vf_f64("x1"), vf_f64("x2")};
#define ADD node.add_node(&b); node.add_node(&c);
#endif
#define NODE ssize_t n = vf_i64("n"); vf_assume(n >= 0); OPERANDS NaryOpNode<OP> node(&a); ADD
// what the iterators kept for later point to does not matter: they are set again before they are used
#define STATE node.topological_index_ = NUM; auto* nd = new NaryOpNodeData{std::vector<double>(), std::vector<Array::const_iterator>()}; state[NUM].reset(nd); \
    vf_vec_d(&nd->buffer, "buffer"); vf_vec_u(&nd->updates, "updates"); nd->previous_size_ = vf_i64("previous_size"); vf_label(&nd->previous_size_, "previous_size");
#define AFTER auto* nd = static_cast<NaryOpNodeData*>(state[NUM].get()); \
    vf_label(&nd->buffer, "buffer"); vf_label(&nd->updates, "updates"); vf_label(&nd->previous_size_, "previous_size");
extern "C" {
static ssize_t out[8];
void h_init() { State state(NUM + 1); NODE node.topological_index_ = NUM; vf_pre("pre"); node.initialize_state(state); AFTER vf_point("end"); }
void h_prop() { State state(NUM + 1); NODE STATE vf_pre("pre"); node.propagate(state); vf_point("end"); }
void h_commit() { State state(NUM + 1); NODE STATE vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_revert() { State state(NUM + 1); NODE STATE vf_pre("pre"); node.revert(state); vf_point("end"); }
void h_observe() { State state(NUM + 1); NODE STATE vf_pre("pre"); auto d = node.diff(state); out[0] = node.ndim(); out[1] = node.shape()[0]; out[2] = node.size(); out[3] = node.contiguous();
    out[4] = d.size(); out[5] = node.shape(state)[0]; out[6] = node.size(state); out[7] = node.size_diff(state); vf_label(out, "out");
    vf_assert(node.buff(state) == nd->buffer.data(), "buff() is the results"); vf_assert(d.data() == nd->updates.data(), "diff() is the recorded changes"); vf_point("end"); }
void h_bounds() { BARES NaryOpNode<OP> node(&a); ADD double r = x[0]; OP op; for (int i = 1; i < NUM; ++i) r = op(x[i], r); vf_pre("pre"); double lo = node.min(), hi = node.max(); BOUNDS vf_point("end"); }
// which operands are accepted
void h_shape() { ssize_t n = vf_i64("n"), m = vf_i64("m"); vf_assume(n >= -1 && m >= -1); BARE(a, ({n})) BARE(b, ({m})) vf_pre("pre"); NaryOpNode<OP> node(&a); node.add_node(&b);
    out[0] = node.ndim(); out[1] = node.shape()[0]; out[2] = node.size(); out[3] = node.operands().size(); vf_label(out, "out"); vf_point("end"); }
}
