#include "math.hpp"
#include "../src/utils.cpp"
#include "../src/array.cpp"
#include "../src/nodes/quadratic_model.cpp"
using namespace dwave::optimization;
alignas(16) static char raw[sizeof(QuadraticModel)];
static ssize_t out[8];
static double rs[8];
// a model of any number of variables with any coefficients; the rows of coefficients used are spelled out
#define QM ssize_t n = vf_i64("n"); vf_assume(n >= 0 && n < (1L << 31)); auto& q = *reinterpret_cast<QuadraticModel*>(raw); const_cast<ssize_t&>(q.num_variables_) = n; \
    vf_vec_d(&q.linear_biases_, "lin"); vf_vec_d(&q.square_biases_, "sq");
#define ROW(i, x) auto& x = *static_cast<QuadraticModel::neighborhood*>(vf_focus(&q.adj_, sizeof(q.adj_[0]), i, #x)); { ssize_t k = vf_i64(#x "_small0"); vf_assume(k >= 0 && k < (1L << 31)); x.num_smaller_neighbors = k; } vf_label(&x.num_smaller_neighbors, #x "_small"); \
    vf_vec_n(&x.neighbors, #x "_nb"); vf_vec_d(&x.biases, #x "_q");
#define VAR(u) ssize_t u = vf_i64(#u); vf_assume(0 <= u && u < n);
#define RESULTS vf_label(rs, "rs"); vf_label(out, "out"); vf_point("end");
extern "C" {
void h_new() { ssize_t n = vf_i64("n"); vf_assume(n < (1L << 31) && n >= -(1L << 31)); ssize_t u = vf_i64("u"); vf_assume(0 <= u && u < n || n <= 0); vf_pre("pre"); QuadraticModel q(n); vf_label(&q.linear_biases_, "lin"); vf_label(&q.square_biases_, "sq");
    out[0] = q.num_variables(); out[1] = q.adj_.size(); if (n > 0) { out[2] = q.adj_[u].neighbors.size(); out[3] = q.adj_[u].biases.size(); out[4] = q.adj_[u].num_smaller_neighbors; } RESULTS }
void h_linear() { QM VAR(u) double b = vf_f64("b"); bool set = vf_bool("set"); vf_pre("pre"); if (set) q.set_linear(u, b); else q.add_linear(u, b); rs[0] = q.get_linear(u); RESULTS }
void h_square() { QM VAR(u) double b = vf_f64("b"); bool set = vf_bool("set"); vf_pre("pre"); if (set) q.set_quadratic(u, u, b); else q.add_quadratic(u, u, b); rs[0] = q.get_quadratic(u, u); RESULTS }
void h_get() { QM VAR(u) VAR(w) vf_assume(u != w); ROW(u, a) vf_pre("pre"); rs[0] = q.get_quadratic(u, w); RESULTS }
void h_ref() { QM VAR(u) VAR(v) vf_assume(u != v); ROW(u, a) double b = vf_f64("b"); vf_pre("pre"); double& r = q.asymmetric_quadratic_ref(u, v); rs[0] = r; r = b; RESULTS }
void h_set() { QM VAR(u) VAR(v) vf_assume(u != v); ROW(u, a) ROW(v, b) double x = vf_f64("x"); bool set = vf_bool("set"); vf_pre("pre"); if (set) q.set_quadratic(u, v, x); else q.add_quadratic(u, v, x); RESULTS }
void h_effective() { QM VAR(u) ROW(u, a) std::vector<double> s; vf_vec_d(&s, "s"); vf_pre("pre"); rs[0] = q.get_effective_linear_bias(u, s); RESULTS }
void h_value() { QM VAR(u) ROW(u, a) std::vector<double> s; vf_vec_d(&s, "s"); vf_pre("pre"); rs[0] = q.compute_value(s); RESULTS }
void h_get_linear() { QM double* p = vf_arr_d("dest", n); vf_pre("pre"); q.get_linear(p); RESULTS }
void h_get_squares() { QM double* p = vf_arr_d("dest", n); vf_pre("pre"); q.get_squares(p); RESULTS }
void h_add_linears() { QM double* p = vf_arr_d("src", n); vf_pre("pre"); q.add_linear(p); RESULTS }
void h_add_squares() { QM double* p = vf_arr_d("src", n); vf_pre("pre"); q.add_squares(p); RESULTS }
// the node
alignas(16) static char raw_node[sizeof(QuadraticModelNode)];
#define NODE State state(2); ssize_t n = vf_i64("n"); vf_assume(n >= 0 && n < (1L << 31)); OPERAND(a, 0, ({n})) QuadraticModelNode node(&a, QuadraticModel(n)); auto& q = node.quadratic_model_; \
    vf_vec_d(&q.linear_biases_, "lin"); vf_vec_d(&q.square_biases_, "sq"); node.topological_index_ = 1;
#define MARKS(nd) vf_label(&nd->previous_state_, "prev"); vf_label(&nd->effective_changes_, "changes"); vf_label(&nd->value, "value"); vf_label(&nd->value_old, "value_old"); vf_label(reinterpret_cast<double*>(&nd->value) + 1, "comp"); vf_label(reinterpret_cast<double*>(&nd->value_old) + 1, "comp_old");
#define DATA auto* nd = new QuadraticModelNodeData(vf_f64("value0"), std::vector<double>(), 0); nd->value_old = vf_f64("old0"); state[1].reset(nd); vf_vec_d(&nd->previous_state_, "prev"); vf_vec_c(&nd->effective_changes_, "changes"); MARKS(nd)
void h_init() { NODE vf_pre("pre"); node.initialize_state(state); auto* nd = static_cast<QuadraticModelNodeData*>(state[1].get()); MARKS(nd) vf_point("end"); }
void h_prop() { NODE DATA vf_pre("pre"); node.propagate(state); vf_point("end"); }
void h_commit() { NODE DATA vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_revert() { NODE DATA vf_pre("pre"); node.revert(state); vf_point("end"); }
void h_observe() { NODE DATA vf_pre("pre"); auto d = node.diff(state); out[0] = node.ndim(); out[1] = node.size(); out[2] = d.size(); out[3] = node.size(state); out[4] = node.shape(state).size(); out[5] = node.size_diff(state);
    if (d.size()) { out[6] = d[0].index; rs[1] = d[0].old; rs[2] = d[0].value; } rs[0] = *node.buff(state); vf_assert(node.buff(state) == &nd->value.value(), "buff() is the value"); RESULTS }
void h_reject() { ssize_t n = vf_i64("n"), m = vf_i64("m"); vf_assume(n >= 0 && n < (1L << 31) && m >= 0 && m < (1L << 40)); BARE(a, ({m})) vf_pre("pre"); QuadraticModelNode node(&a, QuadraticModel(n)); out[0] = node.ndim(); out[1] = node.size(); RESULTS }
}
