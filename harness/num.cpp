#include "vf.hpp"
#include "../src/nodes/numbers.cpp"
using namespace dwave::optimization;
#define INT(n) ssize_t n##_ = vf_i64(#n); vf_assume(-(1l << 31) <= n##_ && n##_ < (1l << 31)); int n = static_cast<int>(n##_);
#define BOUNDS INT(lo) INT(hi) ssize_t n = vf_i64("n"); vf_assume(0 <= n && n < (1l << 40));
// a node with any bounds
#define NODE BOUNDS vf_assume(-2000000000 <= lo && lo <= hi && hi <= 2000000000); IntegerNode node({n}, lo, hi); node.topological_index_ = 0; State state(1);
#define BNODE ssize_t n = vf_i64("n"); vf_assume(0 <= n && n < (1l << 40)); BinaryNode node({n}); node.topological_index_ = 0; State state(1);
#define NEW(d) vf_label(&d.buffer, "buffer"); vf_label(&d.updates, "updates"); vf_label(&d.previous_size_, "previous_size");
#define STATE auto* dp = new ArrayNodeStateData{std::vector<double>()}; state[0].reset(dp); ArrayNodeStateData& d = *dp; \
    vf_vec_d(&d.buffer, "buffer"); vf_vec_u(&d.updates, "updates"); d.previous_size_ = n; vf_label(&d.previous_size_, "previous_size");
#define GOT auto& d = *static_cast<ArrayNodeStateData*>(state[0].get()); NEW(d)
static long rng_storage[64];
#define RNG RngAdaptor& rng = *reinterpret_cast<RngAdaptor*>(rng_storage);
static ssize_t out[4];
#define OUT(x) out[0] = (x); vf_label(out, "out");
extern "C" {
void h_new() { bool hl = vf_bool("has_lo"), hh = vf_bool("has_hi"); BOUNDS std::optional<int> l, h; if (hl) l = lo; if (hh) h = hi; vf_pre("pre"); IntegerNode node({n}, l, h);
    double a = node.lower_bound(), b = node.upper_bound(), a2 = node.min(), b2 = node.max(); vf_label(&a, "a"); vf_label(&b, "b"); vf_assert(a == a2 && b == b2, "min() and max() are the bounds"); vf_assert(node.integral(), "integral"); vf_assert(node.size() == n, "size"); vf_point("end"); }
void h_new_binary() { ssize_t n = vf_i64("n"); vf_assume(0 <= n && n < (1l << 40)); vf_pre("pre"); BinaryNode node({n}); vf_assert(node.min() == 0 && node.max() == 1 && node.integral() && node.size() == n, "binary bounds"); vf_point("end"); }
void h_valid() { NODE double x = vf_f64("x"); vf_pre("pre"); OUT(node.is_valid(x)) vf_point("end"); }
void h_default() { NODE vf_pre("pre"); double x = node.default_value(); vf_label(&x, "x"); vf_point("end"); }
void h_generate() { NODE RNG vf_pre("pre"); double x = node.generate_value(rng); vf_label(&x, "x"); vf_point("end"); }
void h_init() { NODE vf_pre("pre"); node.initialize_state(state); GOT vf_point("end"); }
void h_init_rng() { NODE RNG vf_pre("pre"); node.initialize_state(state, rng); GOT vf_point("end"); }
void h_contents() { NODE std::vector<double> v; vf_vec_d(&v, "v"); vf_pre("pre"); std::vector<double> w(v); node.initialize_state(state, std::move(w)); GOT vf_point("end"); }
void h_set() { NODE STATE ssize_t i = vf_i64("i"); INT(x) vf_pre("pre"); OUT(node.set_value(state, i, x)) vf_point("end"); }
void h_exchange() { NODE STATE ssize_t i = vf_i64("i"), j = vf_i64("j"); vf_pre("pre"); OUT(node.exchange(state, i, j)) vf_point("end"); }
void h_get() { NODE STATE ssize_t i = vf_i64("i"); vf_pre("pre"); double x = node.get_value(state, i); vf_label(&x, "x"); vf_point("end"); }
void h_move() { NODE STATE RNG vf_pre("pre"); node.default_move(state, rng); vf_point("end"); }
void h_commit() { NODE STATE vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_revert() { NODE STATE vf_pre("pre"); node.revert(state); vf_point("end"); }
void h_observe() { NODE STATE vf_pre("pre"); auto diff = node.diff(state); out[1] = diff.size(); out[2] = node.size(state); vf_assert(node.buff(state) == d.buffer.data(), "buff() is the values"); vf_assert(diff.data() == d.updates.data(), "diff() is the recorded changes"); OUT(node.shape(state)[0]) vf_point("end"); }
void h_flip() { BNODE STATE ssize_t i = vf_i64("i"); vf_pre("pre"); node.flip(state, i); vf_point("end"); }
void h_bset() { BNODE STATE ssize_t i = vf_i64("i"); vf_pre("pre"); OUT(node.set(state, i)) vf_point("end"); }
void h_bunset() { BNODE STATE ssize_t i = vf_i64("i"); vf_pre("pre"); OUT(node.unset(state, i)) vf_point("end"); }
void h_bmove() { BNODE STATE RNG vf_pre("pre"); node.default_move(state, rng); vf_point("end"); }
void h_binit() { BNODE vf_pre("pre"); node.initialize_state(state); GOT vf_point("end"); }
void h_linear() { ssize_t r = vf_i64("r"), c = vf_i64("c"); IntegerNode node({r, c}, 0, 1); ssize_t x = vf_i64("x"), y = vf_i64("y"); vf_pre("pre"); OUT(node.linear_index(x, y)) vf_point("end"); }
}
