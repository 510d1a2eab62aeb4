#include "math.hpp"
#include "../src/utils.cpp"
#include "../src/array.cpp"
#include "../src/nodes/mathematical.cpp"
using namespace dwave::optimization;
namespace {
using And = ExtraData<std::logical_and<double>>; using Or = ExtraData<std::logical_or<double>>; using Mul = ExtraData<std::multiplies<double>>;
template <class T> void mark(T&) {}
template <class T> void any(T&) {}
void mark(And& e) { vf_label(&e.num_zero, "count"); vf_label(&e.old_num_zero, "old_count"); }
void any(And& e) { e.num_zero = vf_i64("count0"); e.old_num_zero = vf_i64("old_count0"); }
void mark(Or& e) { vf_label(&e.num_nonzero, "count"); vf_label(&e.old_num_nonzero, "old_count"); }
void any(Or& e) { e.num_nonzero = vf_i64("count0"); e.old_num_nonzero = vf_i64("old_count0"); }
void mark(Mul& e) { vf_label(&e.num_zero, "count"); vf_label(&e.old_num_zero, "old_count"); vf_label(&e.nonzero, "rest"); vf_label(&e.old_nonzero, "old_rest"); }
void any(Mul& e) { e.num_zero = vf_i64("count0"); e.old_num_zero = vf_i64("old_count0"); e.nonzero = vf_f64("rest0"); e.old_nonzero = vf_f64("old_rest0"); }
using D = ReduceNodeData<OP>;
}
#if NOINIT
#define NODE ssize_t n = vf_i64("n"); vf_assume(n >= 1); OPERAND(a, 0, ({n})) ReduceNode<OP> node(&a);
#else
#define NODE OPERAND(a, 0, ({-1})) double init = vf_f64("init"); ReduceNode<OP> node(&a, init);
#endif
#define LABELS vf_label(&nd->values, "values"); vf_label(&nd->values.old, "old"); vf_label(&nd->values.value, "value"); mark(nd->extra);
#define STATE node.topological_index_ = 1; auto* nd = new D(0 EXTRA); state[1].reset(nd); nd->values.old = vf_f64("old0"); nd->values.value = vf_f64("value0"); any(nd->extra); LABELS
extern "C" {
static ssize_t out[8];
void h_init() { State state(2); NODE node.topological_index_ = 1; vf_pre("pre"); node.initialize_state(state); auto* nd = static_cast<D*>(state[1].get()); LABELS vf_point("end"); }
void h_prop() { State state(2); NODE STATE vf_pre("pre"); node.propagate(state); vf_point("end"); }
void h_commit() { State state(2); NODE STATE vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_revert() { State state(2); NODE STATE vf_pre("pre"); node.revert(state); vf_point("end"); }
void h_observe() { State state(2); NODE STATE vf_pre("pre"); auto d = node.diff(state); out[0] = node.ndim(); out[1] = node.size(); out[2] = d.size(); out[3] = node.size(state); out[4] = node.shape(state).size();
    out[5] = node.size_diff(state); vf_label(out, "out");
    vf_assert(node.buff(state) == &nd->values.value, "buff() is the result"); vf_assert(d.size() == 0 || d.data() == &nd->values, "diff() is the change of the result"); vf_point("end"); }
void h_bounds() { ssize_t n = vf_i64("n"); vf_assume(n >= NOINIT); BARE(a, ({n}))
#if NOINIT
    ReduceNode<OP> node(&a);
#else
    double init = vf_f64("init"); ReduceNode<OP> node(&a, init);
#endif
    double r = vf_f64("r"); vf_pre("pre"); double lo = node.min(), hi = node.max(); BOUNDS vf_point("end"); }
}
