// nodes/manipulation.cpp: reshaping, concatenation and the size of an array
#include "math.hpp"
#include "../src/utils.cpp"
#include "../src/array.cpp"
#include "../src/nodes/manipulation.cpp"
using namespace dwave::optimization;
namespace {
// an array that declares any range of sizes
struct Sized : Leaf {
    using Leaf::Leaf;
    ssize_t from = 0, to = 0;
    bool has_from = false, has_to = false;
    SizeInfo sizeinfo() const override {
        SizeInfo i(this);
        if (has_from) i.min = from;
        if (has_to) i.max = to;
        return i;
    }
};
}
#define NEWSTATE(x) auto* nd = x; nd->update.old = vf_f64("old0"); nd->update.value = vf_f64("value0");
#define LABELS vf_label(&nd->update.old, "old"); vf_label(&nd->update.value, "value");
#define SIZE OPERAND(a, 0, ({-1})) SizeNode node(&a); node.topological_index_ = 1;
#define SIZESTATE nd = new SizeNodeData(0); state[1].reset(nd); nd->update.old = vf_f64("old0"); nd->update.value = vf_f64("value0"); LABELS
#define PARENT1 OPERAND(a, 0, ({n}))
#define CATSTATE(i) NODESTATE(node, i)
extern "C" {
static ssize_t out[8];
// ---- SizeNode
void h_size_init() { State state(2); SIZE vf_pre("pre"); node.initialize_state(state); auto* nd = static_cast<SizeNodeData*>(state[1].get()); LABELS vf_point("end"); }
void h_size_prop() { State state(2); SIZE auto* SIZESTATE vf_pre("pre"); node.propagate(state); vf_point("end"); }
void h_size_commit() { State state(2); SIZE auto* SIZESTATE vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_size_revert() { State state(2); SIZE auto* SIZESTATE vf_pre("pre"); node.revert(state); vf_point("end"); }
void h_size_observe() { State state(2); SIZE auto* SIZESTATE vf_pre("pre"); auto d = node.diff(state); out[0] = node.ndim(); out[1] = node.size(); out[2] = d.size(); out[3] = node.size(state); out[4] = node.shape(state).size();
    out[5] = node.size_diff(state); out[6] = node.dynamic(); vf_label(out, "out");
    double x = *node.buff(state); vf_label(&x, "x"); vf_assert(d.size() == 0 || (d[0].index == 0 && d.data() == &nd->update), "diff() is the change of the size"); vf_point("end"); }
void h_size_bounds() { ssize_t n = vf_i64("n"); vf_assume(n >= -1); Sized a({n}); a.from = vf_i64("from"); a.to = vf_i64("to"); a.has_from = vf_bool("has_from"); a.has_to = vf_bool("has_to"); ssize_t s = vf_i64("s");
    vf_assume(s >= 0 && (n < 0 || s == n) && (n >= 0 || ((!a.has_from || a.from <= s) && (!a.has_to || s <= a.to))));
    SizeNode node(&a); double r = s; vf_pre("pre"); double lo = node.min(), hi = node.max(); BOUNDS vf_point("end"); }
// ---- ReshapeNode
#define RESHAPE(...) Leaf a __VA_ARGS__;
#define NEWSHAPE(...) ssize_t to[] = __VA_ARGS__; 
#define RDONE for (int i = 0; i < DIMS; ++i) vf_assert(node.shape()[i] == to[i], "the new shape"); out[0] = node.ndim(); out[1] = node.size(); out[2] = node.predecessors().size(); out[3] = a.successors().size(); out[4] = node.contiguous(); vf_label(out, "out"); \
    vf_assert(node.predecessors()[0] == &a && a.successors()[0].ptr == &node, "linked to the array");
#if DIMS == 0
#define TO ssize_t* to = nullptr;
#elif DIMS == 1
#define TO ssize_t to[] = {vf_i64("s0")}; vf_assume(to[0] >= -1);
#elif DIMS == 2
#define TO ssize_t to[] = {vf_i64("s0"), vf_i64("s1")}; vf_assume(to[0] >= -1 && to[1] >= -1);
#else
#define TO ssize_t to[] = {vf_i64("s0"), vf_i64("s1"), vf_i64("s2")}; vf_assume(to[0] >= -1 && to[1] >= -1 && to[2] >= -1);
#endif
#ifdef DIMS
void h_reshape_new() { ssize_t n = vf_i64("n"), m = vf_i64("m"); vf_assume(n >= -1 && m >= 0); Leaf a({n, m}); TO vf_pre("pre"); ReshapeNode node(&a, std::span<const ssize_t>(to, DIMS)); RDONE vf_point("end"); }
#endif
void h_reshape_state() { State state(2); ssize_t n = vf_i64("n"), m = vf_i64("m"); vf_assume(n >= 0 && m >= 0); OPERAND(a, 0, ({n, m})) ssize_t to[] = {m, n}; ReshapeNode node(&a, std::span<const ssize_t>(to, 2)); node.topological_index_ = 1; vf_pre("pre");
    node.initialize_state(state); vf_point("init"); node.propagate(state); auto d = node.diff(state); out[0] = d.size(); out[1] = node.size(state); out[2] = node.size_diff(state); out[3] = node.shape(state)[0]; out[4] = node.shape(state)[1]; vf_label(out, "out");
    vf_assert(node.buff(state) == a.d->buffer.data(), "the elements are those of the array, in order"); vf_assert(d.data() == a.d->updates.data(), "the changes are those of the array"); vf_point("mid"); 
    node.commit(state); vf_point("committed"); node.revert(state); vf_point("end"); }
// ---- ConcatenateNode, of arrays of one dimension
#if NUM == 2
#define PARTS ssize_t na = vf_i64("na"), nb = vf_i64("nb"); vf_assume(na >= 0 && nb >= 0); OPERAND(a, 0, ({na})) OPERAND(b, 1, ({nb})) ArrayNode* parts[] = {&a, &b};
#elif NUM == 3
#define PARTS ssize_t na = vf_i64("na"), nb = vf_i64("nb"), nc = vf_i64("nc"); vf_assume(na >= 0 && nb >= 0 && nc >= 0); OPERAND(a, 0, ({na})) OPERAND(b, 1, ({nb})) OPERAND(c, 2, ({nc})) ArrayNode* parts[] = {&a, &b, &c};
#else
#define PARTS ssize_t na = vf_i64("na"); vf_assume(na >= 0); OPERAND(a, 0, ({na})) ArrayNode* parts[] = {&a};
#endif
#ifdef NUM
#define CAT PARTS ConcatenateNode node(std::span<ArrayNode*>(parts, NUM), 0);
void h_cat_init() { State state(NUM + 1); CAT node.topological_index_ = NUM; vf_pre("pre"); node.initialize_state(state); NODEAFTER(NUM) vf_point("end"); }
void h_cat_prop() { State state(NUM + 1); CAT NODESTATE(node, NUM) vf_pre("pre"); node.propagate(state); vf_point("end"); }
void h_cat_commit() { State state(NUM + 1); CAT NODESTATE(node, NUM) vf_pre("pre"); node.commit(state); vf_point("end"); }
void h_cat_revert() { State state(NUM + 1); CAT NODESTATE(node, NUM) vf_pre("pre"); node.revert(state); vf_point("end"); }
void h_cat_observe() { State state(NUM + 1); CAT NODESTATE(node, NUM) vf_pre("pre"); auto d = node.diff(state); out[0] = node.ndim(); out[1] = node.shape()[0]; out[2] = node.size(); out[3] = node.contiguous();
    out[4] = d.size(); out[5] = node.shape(state)[0]; out[6] = node.size(state); out[7] = node.size_diff(state); vf_label(out, "out");
    vf_assert(node.buff(state) == nd->buffer.data(), "buff() is the elements"); vf_assert(d.data() == nd->updates.data(), "diff() is the recorded changes"); vf_point("end"); }
#endif
void h_cat_new() { ssize_t na = vf_i64("na"), ma = vf_i64("ma"), nb = vf_i64("nb"), mb = vf_i64("mb"), axis = vf_i64("axis"); vf_assume(na >= -1 && nb >= -1 && ma >= 0 && mb >= 0); Leaf a({na, ma}), b({nb, mb}); ArrayNode* parts[] = {&a, &b};
    vf_pre("pre"); ConcatenateNode node(std::span<ArrayNode*>(parts, 2), axis); out[0] = node.ndim(); out[1] = node.shape()[0]; out[2] = node.shape()[1]; out[3] = node.size(); out[4] = node.predecessors().size();
    out[5] = a.successors().size(); out[6] = b.successors().size(); vf_label(out, "out"); vf_point("end"); }
void h_cat_ndim() { ssize_t na = vf_i64("na"), nb = vf_i64("nb"), mb = vf_i64("mb"), axis = vf_i64("axis"); vf_assume(na >= 0 && nb >= 0 && mb >= 0); Leaf a({na}), b({nb, mb}); ArrayNode* parts[] = {&a, &b};
    vf_pre("pre"); ConcatenateNode node(std::span<ArrayNode*>(parts, 2), axis); vf_point("end"); }
}
