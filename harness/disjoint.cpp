#include "vf.hpp"
#include "../src/nodes/collections.cpp"
using namespace dwave::optimization;
static long rng_storage[64];
#define RNG RngAdaptor& rng = *reinterpret_cast<RngAdaptor*>(rng_storage);
alignas(16) static char raw[sizeof(DisjointListStateData) + sizeof(DisjointBitSetsNodeData)];
// the state of disjoint lists: any number of lists, of which the ones used are spelled out
#define LISTS(k) ssize_t n = vf_i64("n"); vf_assume(n >= 0); DisjointListsNode node(n, k); node.topological_index_ = 0; State state(1); \
    auto& d = *reinterpret_cast<DisjointListStateData*>(raw); state[0].reset(&d); d.primary_set_size = node.primary_set_size_; \
    vf_vec_i(&d.list_sizes, "list_sizes"); vf_vec_i(&d.previous_list_sizes, "committed"); vf_label(&d.list_sizes, "list_sizes"); vf_label(&d.previous_list_sizes, "committed");
#define LIST(i, l, u) { vf_vec_d(vf_focus(&d.lists, sizeof(d.lists[0]), i, #l "_at"), #l); vf_vec_u(vf_focus(&d.all_list_updates, sizeof(d.all_list_updates[0]), i, #u "_at"), #u); }
#define ANY ssize_t lists = vf_i64("lists"); vf_assume(lists >= 1); LISTS(lists)
static ssize_t out[8];
// what the node's data look like at one list afterwards
#define AFTER(l, a, u) auto& e = *static_cast<DisjointListStateData*>(state[0].get()); std::vector<double> x(e.lists[l]); std::vector<Update> y(e.all_list_updates[l]); \
    vf_label(&x, #a); vf_label(&y, #u); vf_label(&e.previous_list_sizes, "committed"); out[0] = e.lists.size(); out[1] = e.all_list_updates.size(); out[2] = e.previous_list_sizes.size(); out[3] = e.list_sizes.size(); vf_label(out, "out");
extern "C" {
void h_new() { ssize_t n = vf_i64("n"), lists = vf_i64("lists"), l = vf_i64("l"); vf_assume(0 <= n && 0 <= l && l < lists); DisjointListsNode node(n, lists); node.topological_index_ = 0; State state(1);
    vf_pre("pre"); node.initialize_state(state); AFTER(l, a, ua) vf_point("end"); }
void h_limits() { ssize_t n = vf_i64("n"), lists = vf_i64("lists"); vf_pre("pre"); DisjointListsNode node(n, lists); vf_point("end"); }
void h_b_limits() { ssize_t n = vf_i64("n"), lists = vf_i64("lists"); vf_pre("pre"); DisjointBitSetsNode node(n, lists); vf_point("end"); }
void h_rotate() { ANY ssize_t l = vf_i64("l"), i = vf_i64("i"), j = vf_i64("j"); LIST(l, a, ua) vf_pre("pre"); node.rotate_in_list(state, l, i, j); vf_point("end"); }
void h_swap() { ANY ssize_t l = vf_i64("l"), i = vf_i64("i"), j = vf_i64("j"); LIST(l, a, ua) vf_pre("pre"); node.swap_in_list(state, l, i, j); vf_point("end"); }
void h_set() { ANY ssize_t l = vf_i64("l"); LIST(l, a, ua) std::vector<double> w; vf_vec_d(&w, "w"); vf_pre("pre"); node.set_state(state, l, w); vf_point("end"); }
void h_pop() { ANY ssize_t l = vf_i64("l"), m = vf_i64("m"), i = vf_i64("i"), j = vf_i64("j"); LIST(l, a, ua) LIST(m, b, ub) vf_pre("pre"); node.pop_to_list(state, l, i, m, j); vf_point("end"); }
void h_commit() { ANY ssize_t l = vf_i64("l"); LIST(l, a, ua) vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_revert() { ANY ssize_t l = vf_i64("l"); LIST(l, a, ua) vf_pre("pre"); node.revert(state); vf_point("end"); }
void h_observe() { ANY ssize_t l = vf_i64("l"); LIST(l, a, ua)
    DisjointListNode list(&node); const_cast<ssize_t&>(list.list_index_) = l; vf_pre("pre");
    auto diff = list.diff(state); auto shape = list.shape(state);
    out[0] = list.size(state); out[1] = list.size_diff(state); out[2] = diff.size(); out[3] = shape.size(); out[4] = shape[0]; out[5] = node.get_disjoint_list_size(state, l);
    vf_assert(list.buff(state) == d.lists[l].data(), "buff() is the list");
    vf_assert(diff.data() == d.all_list_updates[l].data(), "diff() is the recorded changes of the list");
    double lo = list.min(), hi = list.max(); vf_label(&lo, "lo"); vf_label(&hi, "hi"); vf_assert(list.integral(), "integral");
    vf_label(out, "out"); vf_point("end"); }
// bit sets: data is one block, set by set
#define BITS ssize_t n = vf_i64("n"), sets = vf_i64("sets"); vf_assume(sets >= 1 && n >= 0); DisjointBitSetsNode node(n, sets); node.topological_index_ = 0; State state(1); \
    auto& d = *reinterpret_cast<DisjointBitSetsNodeData*>(raw); state[0].reset(&d); d.primary_set_size = n; d.num_disjoint_sets = sets; vf_vec_d(&d.data, "bits");
#define DIFF(i, u) vf_vec_u(vf_focus(&d.diffs, sizeof(d.diffs[0]), i, #u "_at"), #u);
void h_b_swap() { BITS ssize_t l = vf_i64("l"), m = vf_i64("m"), x = vf_i64("x"); DIFF(l, ua) DIFF(m, ub) vf_pre("pre"); node.swap_between_sets(state, l, m, x); vf_point("end"); }
void h_b_swap_same() { BITS ssize_t l = vf_i64("l"), x = vf_i64("x"); DIFF(l, ua) vf_pre("pre"); node.swap_between_sets(state, l, l, x); vf_point("end"); }
void h_b_which() { BITS ssize_t x = vf_i64("x"); vf_pre("pre"); out[0] = node.get_containing_set_index(state, x); vf_label(out, "out"); vf_point("end"); }
void h_b_commit() { BITS ssize_t l = vf_i64("l"); DIFF(l, ua) vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_b_revert() { BITS ssize_t l = vf_i64("l"); DIFF(l, ua) vf_pre("pre"); node.revert(state); vf_point("end"); }
void h_b_new() { ssize_t n = vf_i64("n"), sets = vf_i64("sets"), l = vf_i64("l"); vf_assume(0 <= n && 0 <= l && l < sets); DisjointBitSetsNode node(n, sets); node.topological_index_ = 0; State state(1);
    vf_pre("pre"); node.initialize_state(state); auto& e = *static_cast<DisjointBitSetsNodeData*>(state[0].get()); std::vector<Update> y(e.diffs[l]); vf_label(&y, "ua"); vf_label(&e.data, "bits");
    out[0] = e.diffs.size(); out[1] = e.primary_set_size; out[2] = e.num_disjoint_sets; vf_label(out, "out"); vf_point("end"); }
void h_b_observe() { BITS ssize_t l = vf_i64("l"); DIFF(l, ua) DisjointBitSetNode set(&node); const_cast<ssize_t&>(set.set_index_) = l; vf_pre("pre");
    auto diff = set.diff(state); auto shape = set.shape(state);
    out[0] = set.size(state); out[1] = set.size_diff(state); out[2] = diff.size(); out[3] = shape.size(); out[4] = shape[0]; out[5] = set.size(); out[6] = set.buff(state) - d.data.data();
    vf_assert(diff.data() == d.diffs[l].data(), "diff() is the recorded changes of the set");
    double lo = set.min(), hi = set.max(); vf_label(&lo, "lo"); vf_label(&hi, "hi"); vf_assert(set.integral(), "integral");
    vf_label(out, "out"); vf_point("end"); }
}
