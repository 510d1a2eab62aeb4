#include "vf.hpp"
#include "../src/nodes/collections.cpp"
using namespace dwave::optimization;
// a state of any contents
#define FILL(d) \
    vf_vec_d(&d.elements, "elements"); vf_vec_u(&d.previous, "previous"); vf_vec_u(&d.all_updates, "all"); \
    d.size = vf_i64("size"); vf_label(&d.size, "size"); d.previous_size = vf_i64("previous_size"); vf_label(&d.previous_size, "previous_size");
#define SETUP CollectionStateData d{std::vector<double>()}; FILL(d)
#define LIMITS ssize_t n = vf_i64("n"), mn = vf_i64("min"), mx = vf_i64("max"); vf_assume(0 <= mn && mn <= mx && mx <= n && n < (1l << 31));
#define NODE(T) LIMITS T node(n, mn, mx); node.topological_index_ = 0; State state(1);
#define STATE auto* dp = new CollectionStateData{std::vector<double>()}; state[0].reset(dp); CollectionStateData& d = *dp; FILL(d)
static long rng_storage[64];
#define RNG RngAdaptor& rng = *reinterpret_cast<RngAdaptor*>(rng_storage);
extern "C" {
void h_exchange() { SETUP ssize_t i = vf_i64("i"), j = vf_i64("j"); vf_pre("pre"); d.exchange(i, j); vf_point("end"); }
void h_rotate() { SETUP ssize_t i = vf_i64("i"), j = vf_i64("j"); vf_pre("pre"); d.rotate(i, j); vf_point("end"); }
void h_grow() { SETUP vf_pre("pre"); d.grow(); vf_point("end"); }
void h_shrink() { SETUP vf_pre("pre"); d.shrink(); vf_point("end"); }
void h_commit() { SETUP vf_pre("pre"); d.commit(); vf_point("end"); }
void h_revert() { SETUP vf_pre("pre"); d.revert(); vf_point("end"); }
#define NEW(d) vf_label(&d.elements, "elements"); vf_label(&d.previous, "previous"); vf_label(&d.all_updates, "all"); vf_label(&d.size, "size"); vf_label(&d.previous_size, "previous_size");
void h_new() { ssize_t n = vf_i64("n"), k = vf_i64("k"); vf_pre("pre"); CollectionStateData d(n, k); NEW(d) vf_point("end"); }
void h_new_from() { std::vector<double> v; vf_vec_d(&v, "v"); ssize_t k = vf_i64("k"); vf_pre("pre"); CollectionStateData d(std::move(v), k); NEW(d) vf_point("end"); }
void h_list_init() { NODE(ListNode) vf_pre("pre"); node.initialize_state(state); auto& d = *static_cast<CollectionStateData*>(state[0].get()); NEW(d) vf_point("end"); }
void h_set_init() { NODE(SetNode) vf_pre("pre"); node.initialize_state(state); auto& d = *static_cast<CollectionStateData*>(state[0].get()); NEW(d) vf_point("end"); }
void h_contents() { NODE(ListNode) std::vector<double> v; vf_vec_d(&v, "v"); vf_pre("pre"); node.CollectionNode::initialize_state(state, v); auto& d = *static_cast<CollectionStateData*>(state[0].get()); NEW(d) vf_point("end"); }
void h_list_move() { NODE(ListNode) STATE RNG vf_pre("pre"); node.default_move(state, rng); vf_point("end"); }
void h_set_move() { NODE(SetNode) STATE RNG vf_pre("pre"); node.default_move(state, rng); vf_point("end"); }
void h_node_exchange() { NODE(ListNode) STATE ssize_t i = vf_i64("i"), j = vf_i64("j"); vf_pre("pre"); node.exchange(state, i, j); vf_point("end"); }
void h_node_rotate() { NODE(ListNode) STATE ssize_t i = vf_i64("i"), j = vf_i64("j"); vf_pre("pre"); node.rotate(state, i, j); vf_point("end"); }
void h_node_grow() { NODE(SetNode) STATE vf_pre("pre"); node.grow(state); vf_point("end"); }
void h_node_shrink() { NODE(SetNode) STATE vf_pre("pre"); node.shrink(state); vf_point("end"); }
void h_node_commit() { NODE(SetNode) STATE vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_node_revert() { NODE(SetNode) STATE vf_pre("pre"); node.revert(state); vf_point("end"); }
static ssize_t out[8];
void h_observe() { NODE(SetNode) STATE vf_pre("pre");
    auto diff = node.diff(state); auto shape = node.shape(state);
    out[0] = node.size(state); out[1] = node.size_diff(state); out[2] = diff.size(); out[3] = shape.size(); out[4] = shape[0]; out[5] = node.size(); out[6] = node.dynamic();
    vf_assert(node.buff(state) == d.elements.data(), "buff() is the elements");
    vf_assert(diff.data() == d.previous.data(), "diff() is the recorded changes");
    double lo = node.min(), hi = node.max(); vf_label(&lo, "lo"); vf_label(&hi, "hi"); vf_assert(node.integral(), "integral");
    vf_label(out, "out"); vf_point("end"); }
void h_limits() { ssize_t n = vf_i64("n"), mn = vf_i64("min"), mx = vf_i64("max"); vf_pre("pre"); SetNode node(n, mn, mx); vf_point("end"); }
}
