// Any number of nodes, of a class that keeps the Node and Array interfaces and notes what is called on it.
#include "vf.hpp"
#include "../src/utils.cpp"
#include "../src/array.cpp"
#include "../src/graph.cpp"
#include <functional>
using namespace dwave::optimization;
namespace {
enum { INIT, PROPAGATE, COMMIT, REVERT };
std::vector<const Node*>* who;   // the calls: on which node
std::vector<ssize_t>* what;      // and which function
void note(const Node* n, ssize_t f) { who->push_back(n); what->push_back(f); }
struct Probe : ArrayNode {
    double value = 0, lo = 0, hi = 0;
    ssize_t length = 1;
    bool whole = false;
    double const* buff(const State&) const override { return &value; }
    ssize_t ndim() const override { return 1; }
    std::span<const ssize_t> shape(const State&) const override { return std::span<const ssize_t>(&length, 1); }
    std::span<const ssize_t> shape() const override { return std::span<const ssize_t>(&length, 1); }
    std::span<const ssize_t> strides() const override { return std::span<const ssize_t>(&length, 1); }
    ssize_t size() const override { return length; }
    ssize_t size(const State&) const override { return length; }
    double min() const override { return lo; }
    double max() const override { return hi; }
    bool integral() const override { return whole; }
    bool contiguous() const override { return true; }
    std::span<const Update> diff(const State&) const override { return {}; }
    void initialize_state(State&) const override { note(this, INIT); }
    void propagate(State&) const override { note(this, PROPAGATE); }
    void update(State&, int index) const override { note(this, index); }
    void commit(State&) const override { note(this, COMMIT); }
    void revert(State&) const override { note(this, REVERT); }
};
}
#define AT(x) (reinterpret_cast<char*>(&(x)) - reinterpret_cast<char*>(&proto))
#define BASE(T) (reinterpret_cast<char*>(static_cast<T*>(&proto)) - reinterpret_cast<char*>(&proto))
#define HEAP Probe proto; ssize_t n = vf_i64("n"); vf_assume(n >= 0 && n < (1L << 31)); Probe* heap = static_cast<Probe*>(vf_heap(&proto, sizeof(Probe), n, "heap")); \
    vf_field(heap, AT(proto.value), 0, "value"); vf_field(heap, AT(proto.lo), 0, "lo"); vf_field(heap, AT(proto.hi), 0, "hi"); vf_field(heap, AT(proto.length), 8, "length"); vf_field(heap, AT(proto.whole), 1, "whole"); \
    vf_field(heap, AT(proto.topological_index_), 8, "ti"); \
    vf_rows(reinterpret_cast<char*>(heap) + AT(proto.successors_), heap, BASE(Node), "succ", sizeof(Node::SuccessorView)); vf_rows(reinterpret_cast<char*>(heap) + AT(proto.predecessors_), heap, BASE(Node), "pred", sizeof(Node*)); \
    std::vector<const Node*> w_; std::vector<ssize_t> f_; who = &w_; what = &f_; vf_refs(&w_, heap, BASE(Node), "who"); vf_vec_i(&f_, "what"); vf_assume(w_.size() == 0 && f_.size() == 0);
#define NODE(p, k) ssize_t k = vf_i64(#k); vf_assume(0 <= k && k < n); Probe* p = heap + k;
#define DATA NodeStateData pd; NodeStateData* data = static_cast<NodeStateData*>(vf_heap(&pd, sizeof(NodeStateData), vf_i64("d"), "data")); vf_field(data, reinterpret_cast<char*>(&pd.mark) - reinterpret_cast<char*>(&pd), 1, "mark"); \
    State state; vf_refs(&state, data, 0, "state");
#define GRAPH alignas(Graph) static char raw[sizeof(Graph)]; Graph& g = *new (raw) Graph(); vf_label(&g.objective_ptr_, "objective"); vf_refs(&g.constraints_, heap, BASE(ArrayNode), "constraints");
#define QUEUE(q) std::vector<const Node*> q; vf_refs(&q, heap, BASE(Node), #q);
static ssize_t out[8];
static double rs[8];
#define END vf_label(out, "out"); vf_label(rs, "rs"); vf_point("end");
extern "C" {
void h_energy() { HEAP GRAPH NODE(p, k) bool set = vf_bool("set"); State state; g.objective_ptr_ = set ? p : nullptr; vf_pre("pre"); rs[0] = g.energy(state); END }
void h_feasible() { HEAP GRAPH State state; vf_pre("pre"); out[0] = g.feasible(state); END }
void h_set_objective() { HEAP GRAPH NODE(p, k) NODE(o, j) bool set = vf_bool("set"), had = vf_bool("had"); g.objective_ptr_ = had ? o : nullptr; vf_pre("pre"); g.set_objective(set ? p : nullptr); out[0] = g.objective() == (set ? p : nullptr); END }
void h_add_constraint() { HEAP GRAPH NODE(p, k) vf_pre("pre"); g.add_constraint(p); out[0] = g.num_constraints(); END }
void h_propagate() { HEAP GRAPH QUEUE(queue) State state; vf_pre("pre"); g.propagate(state, std::span<const Node*>(queue)); END }
void h_commit() { HEAP GRAPH QUEUE(queue) State state; vf_pre("pre"); g.commit(state, std::span<const Node*>(queue)); END }
void h_revert() { HEAP GRAPH QUEUE(queue) State state; vf_pre("pre"); g.revert(state, std::span<const Node*>(queue)); END }
void h_update() { HEAP NODE(p, k) State state; vf_pre("pre"); p->Node::propagate(state); END }
void h_propose() { HEAP GRAPH QUEUE(queue) DATA static bool answer; static ssize_t asked; asked = 0; answer = vf_bool("accepted"); vf_pre("pre");
    g.propose(state, std::vector<const Node*>(queue), [](const Graph&, State&) { asked = asked * 2 + 1; out[1] = what->size(); return answer; }); out[0] = asked; END }
void h_initialize() { HEAP GRAPH DATA vf_nullable(data); vf_refs(&g.nodes_, heap, BASE(Node), "nodes"); g.topologically_sorted_ = true; vf_pre("pre"); static_cast<const Graph&>(g).initialize_state(state); END }
void h_empty_state() { HEAP GRAPH DATA vf_nullable(data); vf_refs(&g.nodes_, heap, BASE(Node), "nodes"); g.topologically_sorted_ = true; vf_pre("pre"); state = static_cast<const Graph&>(g).empty_state(); END }
void h_reset() { HEAP GRAPH vf_refs(&g.nodes_, heap, BASE(Node), "nodes"); vf_refs(&g.decisions_, heap, 0, "decisions"); g.topologically_sorted_ = vf_bool("sorted"); vf_pre("pre"); g.reset_topological_sort(); out[0] = g.topologically_sorted(); END }
void h_emplace() { HEAP GRAPH vf_refs(&g.nodes_, heap, BASE(Node), "nodes"); g.topologically_sorted_ = true; vf_pre("pre"); g.emplace_node<Probe>(); END }
void h_descendants() { HEAP DATA std::vector<const Node*> res;
    res = Graph::descendants(state, [&] { QUEUE(queue) vf_pre("pre"); return queue; }()); vf_label(&res, "res"); END }
void h_order() { HEAP NODE(p, k) NODE(q, j) const Node* a = p; const Node* b = q; vf_pre("pre"); out[0] = vf_callb("^dwave::optimization::Graph::descendants.*::._\\d+::operator\\(\\)", nullptr, a, b); END }
void h_visit() { HEAP NODE(p, k) Node* a = p; ssize_t c_ = vf_i64("count"); vf_assume(c_ >= -1 && c_ < n); int count = static_cast<int>(c_); vf_label(&count, "count"); vf_pre("pre"); vf_call("topological_sortEvENK3._0cl|topological_sort..::._0::operator", nullptr, a, &count, nullptr); out[0] = count; END }
void h_topological_order() { HEAP NODE(p, k) NODE(q, j) Node* a = p; Node* b = q; vf_pre("pre"); out[0] = vf_callb("topological_sort\\(.*_1::operator\\(\\)", nullptr, &a, &b); END }
void h_topological_sort() { HEAP GRAPH vf_refs(&g.nodes_, heap, BASE(Node), "nodes"); vf_refs(&g.decisions_, heap, 0, "decisions"); g.topologically_sorted_ = vf_bool("sorted"); vf_pre("pre"); g.topological_sort(); out[0] = g.topologically_sorted(); END }
}
