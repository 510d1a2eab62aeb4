// Native stand-in / counterexample search for the model graph: order, reachability and propagation (G01), objective and
// constraints (G02), removal of unused nodes (G03).
#include "common.hpp"
#include "dwave-optimization/array.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
#include "dwave-optimization/state.hpp"
using namespace dwave::optimization;

// ---- nodes that record what is done to them
static std::vector<std::pair<char, const Node*>> CALLS;
struct Rec : virtual Node {
    int id; std::vector<Node*> want;
    mutable std::vector<int> upd;
    Rec(int id, const std::vector<Rec*>& p) : id(id) { for (auto x : p) { add_predecessor(x); want.push_back(x); } }
    Rec(int id) : id(id) {}
    void initialize_state(State& s) const override {
        if (topological_index() < 0 || topological_index() >= (i64)s.size()) fail("initialised node ", id, " with index ", topological_index(), " in a state of ", s.size());
        if (s[topological_index()]) fail("initialised node ", id, " again");
        for (auto p : predecessors()) if (!s[p->topological_index()]) fail("initialised node ", id, " before a predecessor");
        CALLS.emplace_back('i', this);
        s[topological_index()] = std::make_unique<NodeStateData>();
    }
    void propagate(State& s) const override { CALLS.emplace_back('p', this); Node::propagate(s); }
    void commit(State& s) const override { CALLS.emplace_back('c', this); }
    void revert(State& s) const override { CALLS.emplace_back('r', this); }
    void update(State&, int i) const override { upd.push_back(i); }
};
struct RecDec : Rec, DecisionNode {
    RecDec(int id) : Rec(id) {}
    void initialize_state(State& s) const override { Rec::initialize_state(s); }
    void propagate(State& s) const override { Rec::propagate(s); }
    void commit(State& s) const override { Rec::commit(s); }
    void revert(State& s) const override { Rec::revert(s); }
    void default_move(State&, RngAdaptor&) const override {}
};

static void G01(Rng& r, i64) {
    Graph g; std::vector<Rec*> ns; std::vector<Rec*> decs; std::vector<std::vector<int>> preds;
    auto grow = [&](i64 k) {
        while (k-- > 0) {
            int id = ns.size();
            if (r.chance(1, 3)) { ns.push_back(g.emplace_node<RecDec>(id)); decs.push_back(ns.back()); preds.push_back({}); note(id, ": decision"); }
            else {
                std::vector<int> p; i64 c = ns.empty() ? 0 : r.in(0, 3); std::vector<Rec*> pp;
                while (c-- > 0) { int j = r.chance(1, 2) ? r.in(0, (i64)ns.size() - 1) : r.in(std::max<i64>(0, (i64)ns.size() - 3), (i64)ns.size() - 1); p.push_back(j); pp.push_back(ns[j]); }
                note(id, ": node on ", str(p)); ns.push_back(g.emplace_node<Rec>(id, pp)); preds.push_back(p);
            }
        }
    };
    auto sorted = [&] {
        if (!g.topologically_sorted()) fail("not sorted");
        std::vector<int> seen(ns.size(), 0);
        if (g.num_nodes() != (i64)ns.size() || g.num_decisions() != (i64)decs.size()) fail("number of nodes");
        for (auto n : ns) {
            i64 t = n->topological_index();
            if (t < 0 || t >= (i64)ns.size() || seen[t]++) fail("index ", t, " of node ", n->id);
            if (g.nodes()[t].get() != n) fail("node ", n->id, " is not at its index in the list of nodes");
            for (int p : preds[n->id]) if (ns[p]->topological_index() >= t) fail("node ", n->id, " comes before its predecessor ", p);
        }
        for (size_t k = 0; k < decs.size(); ++k) if (decs[k]->topological_index() != (i64)k || dynamic_cast<const Node*>(g.decisions()[k]) != decs[k]) fail("decision ", decs[k]->id, " has index ", decs[k]->topological_index());
    };
    grow(r.in(0, 12));
    for (i64 round = r.in(1, 3); round > 0; --round) {
        note("sort"); g.topological_sort(); sorted();
        std::vector<i64> before; for (auto n : ns) before.push_back(n->topological_index());
        g.topological_sort(); sorted();
        for (auto n : ns) if (n->topological_index() != before[n->id]) fail("sorting again changed the order");
        bool threw = false; try { g.emplace_node<Rec>(99); } catch (const std::logic_error&) { threw = true; }
        if (!threw || g.num_nodes() != (i64)ns.size()) fail("a node was added to a sorted graph");
        i64 N = ns.size();
        // edges
        std::vector<std::vector<std::pair<Node*, int>>> succ(N);
        for (i64 i = 0; i < N; ++i) { if (ns[i]->predecessors() != ns[i]->want) fail("predecessors of ", i); for (size_t k = 0; k < preds[i].size(); ++k) succ[preds[i][k]].emplace_back(ns[i], (int)k); }
        for (i64 i = 0; i < N; ++i) { std::vector<std::pair<Node*, int>> got; for (auto& v : ns[i]->successors()) got.emplace_back(v.ptr, v.index); auto w = succ[i]; std::sort(w.begin(), w.end()); std::sort(got.begin(), got.end()); if (got != w) fail("successors of ", i); }
        // states
        CALLS.clear(); State s = g.initialize_state();
        if ((i64)s.size() != N || (i64)CALLS.size() != N) fail("initialised ", CALLS.size(), " of ", N, " nodes");
        for (i64 i = 0; i < N; ++i) if (!s[i]) fail("no state for node ", i);
        auto reach = [&](std::vector<int> from, bool down) { std::vector<char> in(N, 0); while (from.size()) { int x = from.back(); from.pop_back(); if (in[x]++) { in[x] = 1; continue; } if (down) for (auto& e : succ[x]) from.push_back(dynamic_cast<Rec*>(e.first)->id); else for (int p : preds[x]) from.push_back(p); } return in; };
        if (N) {
            State t; int x = r.in(0, N - 1); CALLS.clear(); Graph::recursive_initialize(t, ns[x]); auto in = reach({x}, false);
            i64 c = 0; for (i64 i = 0; i < N; ++i) { c += in[i]; bool has = ns[i]->topological_index() < (i64)t.size() && t[ns[i]->topological_index()]; if (has != (bool)in[i]) fail("recursive_initialize of ", x, ": node ", i); }
            if ((i64)CALLS.size() != c) fail("recursive_initialize of ", x);
            t.resize(N); CALLS.clear(); g.initialize_state(t); if ((i64)CALLS.size() != N - c) fail("initialised some nodes twice, or not at all");
            int y = r.in(0, N - 1); if (r.chance(1, 3)) t.resize(r.in(0, N)); i64 tn = t.size(); Graph::recursive_reset(t, ns[y]); auto down = reach({y}, true);
            for (i64 i = 0; i < N; ++i) { i64 ti = ns[i]->topological_index(); if (ti >= tn || ns[y]->topological_index() >= tn) continue; if ((bool)t[ti] == (bool)down[i]) fail("recursive_reset of ", y, ": node ", i); }
        }
        // propagation
        for (i64 k = r.in(0, 3); k > 0 && decs.size(); --k) {
            std::vector<const Node*> src; std::vector<int> ids; for (auto d : decs) if (r.chance(1, 2)) { src.push_back(d); ids.push_back(d->id); }
            for (i64 i = (i64)src.size() - 1; i > 0; --i) { i64 j = r.in(0, i); std::swap(src[i], src[j]); }
            note("changed: ", str(ids));
            auto in = reach(ids, true);
            std::vector<const Node*> want; for (i64 t = 0; t < N; ++t) { auto n = dynamic_cast<Rec*>(g.nodes()[t].get()); if (in[n->id]) want.push_back(n); }
            auto got = Graph::descendants(s, src);
            if (got != want) { std::vector<int> q; for (auto n : got) q.push_back(dynamic_cast<const Rec*>(n)->id); fail("descendants ", str(q)); }
            for (i64 i = 0; i < N; ++i) if (s[i]->mark) fail("a mark is left");
            if (r.chance(1, 4)) continue;
            CALLS.clear(); for (auto n : ns) n->upd.clear();
            bool acc = r.chance(1, 2); int asked = 0; size_t at = 0;
            g.propose(s, src, [&](const Graph& gg, State& ss) { ++asked; at = CALLS.size(); if (&gg != &g || &ss != &s) fail("accept() got another graph or state"); return acc; });
            if (asked != 1 || at != want.size() || CALLS.size() != 2 * want.size()) fail("propose made ", CALLS.size(), " calls, ", at, " before accept");
            std::set<const Node*> fin;
            for (size_t i = 0; i < want.size(); ++i) { if (CALLS[i] != std::make_pair('p', want[i])) fail("propagation in another order"); if (CALLS[want.size() + i].first != (acc ? 'c' : 'r')) fail("committed or reverted?"); fin.insert(CALLS[want.size() + i].second); }
            if (fin != std::set<const Node*>(want.begin(), want.end())) fail("some nodes were not ", acc ? "committed" : "reverted");
            for (i64 i = 0; i < N; ++i) { std::vector<int> w; for (size_t k = 0; k < preds[i].size(); ++k) if (in[preds[i][k]]) w.push_back(k); auto u = ns[i]->upd; std::sort(u.begin(), u.end()); if (u != w) fail("node ", i, " was told of changes in ", str(u), " instead of ", str(w)); }
        }
        if (round > 1) { note("reset"); g.reset_topological_sort(); if (g.topologically_sorted()) fail("still sorted"); for (auto n : ns) { bool d = std::find(decs.begin(), decs.end(), n) != decs.end(); if (!d && n->topological_index() >= 0) fail("index kept after the reset"); } grow(r.in(0, 5)); }
    }
}

// ---- models of real nodes
struct Net {
    Rng& r; Graph g;
    std::vector<ArrayNode*> ns; std::vector<std::vector<int>> preds; std::vector<std::function<double(const std::vector<double>&)>> f;  // scalars only
    std::vector<char> dec, pin, big; std::vector<IntegerNode*> ints; std::vector<int> intid;
    std::vector<Node*> others;  // disjoint lists
    Net(Rng& r) : r(r) {}
    void push(ArrayNode* a, std::vector<int> p, std::function<double(const std::vector<double>&)> fn, bool d = false) { ns.push_back(a); preds.push_back(p); f.push_back(fn); dec.push_back(d); pin.push_back(d); big.push_back(a->size() != 1); }
    int scalar() { for (int t = 0; t < 20; ++t) { int i = r.in(0, (i64)ns.size() - 1); if (!big[i]) return i; } return 0; }
    void grow(i64 k) {
        while (k-- > 0) {
            i64 w = ns.empty() ? r.in(0, 1) : r.in(0, 11);
            if (ns.empty() || w == 0) { i64 lo = r.in(-3, 1), hi = lo + r.in(0, 4); if (r.chance(1, 2)) { lo = 0; hi = 1; } std::vector<ssize_t> sh; if (!ns.empty() && r.chance(1, 5)) sh = {r.in(0, 3)}; else if (r.chance(1, 4)) sh = {1};
                auto x = g.emplace_node<IntegerNode>(std::span<const ssize_t>(sh), (int)lo, (int)hi); ints.push_back(x); intid.push_back(ns.size()); note("n", ns.size(), " = integer ", str(sh), " in [", lo, ", ", hi, "]"); push(x, {}, nullptr, true); continue; }
            if (w == 1) { double c = r.in(-3, 3); if (r.chance(1, 2)) c = r.in(0, 1); note("n", ns.size(), " = ", c); push(g.emplace_node<ConstantNode>(c), {}, [c](auto&) { return c; }); continue; }
            if (w == 11 && r.chance(1, 3)) { auto d = g.emplace_node<DisjointListsNode>(3, 2); others.push_back(d); for (int q = 0; q < 2; ++q) { auto l = g.emplace_node<DisjointListNode>(d); note("n", ns.size(), " = disjoint list"); push(l, {}, nullptr); big.back() = 1; pin.back() = 1; } continue; }
            int a = scalar(), b = scalar();
            int any = r.in(0, (i64)ns.size() - 1);
            switch (w) {
                case 2: note("n", ns.size(), " = -n", a); push(g.emplace_node<NegativeNode>(ns[a]), {a}, [](auto& v) { return -v[0]; }); break;
                case 3: note("n", ns.size(), " = n", a, " + n", b); push(g.emplace_node<AddNode>(ns[a], ns[b]), {a, b}, [](auto& v) { return v[0] + v[1]; }); break;
                case 4: note("n", ns.size(), " = n", a, " * n", b); push(g.emplace_node<MultiplyNode>(ns[a], ns[b]), {a, b}, [](auto& v) { return v[0] * v[1]; }); break;
                case 5: case 6: note("n", ns.size(), " = n", a, " <= n", b); push(g.emplace_node<LessEqualNode>(ns[a], ns[b]), {a, b}, [](auto& v) { return v[0] <= v[1] ? 1. : 0.; }); break;
                case 7: note("n", ns.size(), " = n", a, " == n", b); push(g.emplace_node<EqualNode>(ns[a], ns[b]), {a, b}, [](auto& v) { return v[0] == v[1] ? 1. : 0.; }); break;
                case 8: note("n", ns.size(), " = n", a, " and n", b); push(g.emplace_node<AndNode>(ns[a], ns[b]), {a, b}, [](auto& v) { return v[0] && v[1] ? 1. : 0.; }); break;
                case 9: { if (ns[any]->ndim() > 1) break; note("n", ns.size(), " = sum(n", any, ")"); auto n = g.emplace_node<SumNode>(ns[any]); if (big[any]) { push(n, {any}, nullptr); big.back() = 1; } else push(n, {any}, [](auto& v) { return v[0]; }); break; }
                default: { double m = r.in(-1, 2); note("n", ns.size(), " = n", a, " >= ", m); auto c = g.emplace_node<ConstantNode>(m); push(c, {}, [m](auto&) { return m; }); int ci = ns.size() - 1; push(g.emplace_node<LessEqualNode>(c, ns[a]), {ci, a}, [](auto& v) { return v[0] <= v[1] ? 1. : 0.; }); }
            }
        }
    }
    State random_state() { State s = g.empty_state(); for (size_t k = 0; k < ints.size(); ++k) { std::vector<double> v(ints[k]->size()); for (auto& x : v) x = r.in((i64)ints[k]->lower_bound(), (i64)ints[k]->upper_bound()); note("n", intid[k], ": ", str(v)); ints[k]->initialize_state(s, std::move(v)); } g.initialize_state(s); return s; }
    double value(int i, const State& s) { if (dec[i] || !f[i]) return ns[i]->view(s).front(); std::vector<double> v; for (int p : preds[i]) v.push_back(value(p, s)); return f[i](v); }
};

static void G02(Rng& r, i64) {
    Net m(r); m.grow(r.in(1, 9)); Graph& g = m.g;
    ArrayNode* obj = nullptr; int oi = -1; std::vector<int> cs;
    if (g.objective()) fail("objective before one was set");
    for (i64 k = r.in(0, 6); k > 0; --k) {
        int i = r.in(0, (i64)m.ns.size() - 1);
        if (r.chance(1, 3)) {
            if (r.chance(1, 6)) { note("no objective"); g.set_objective(nullptr); obj = nullptr; oi = -1; continue; }
            note("objective n", i); bool ok = m.ns[i]->size() == 1, threw = false;
            try { g.set_objective(m.ns[i]); } catch (const std::invalid_argument&) { threw = true; }
            if (ok == threw) fail(ok ? "rejected" : "accepted"); if (ok) { obj = m.ns[i]; oi = i; }
        } else {
            note("constraint n", i); bool ok = m.ns[i]->size() == 1 && m.ns[i]->integral() && m.ns[i]->min() >= 0 && m.ns[i]->max() <= 1, threw = false;
            try { g.add_constraint(m.ns[i]); } catch (const std::invalid_argument&) { threw = true; }
            if (ok == threw) fail(ok ? "rejected" : "accepted"); if (ok) cs.push_back(i);
        }
        if (g.objective() != obj) fail("another objective");
        if (g.num_constraints() != (i64)cs.size()) fail("number of constraints"); for (size_t q = 0; q < cs.size(); ++q) if (g.constraints()[q] != m.ns[cs[q]]) fail("another constraint");
    }
    State s = m.random_state();
    auto check = [&](const State& s, const char* what) {
        double e = oi < 0 ? 0 : m.value(oi, s); bool f = true; for (int c : cs) if (!m.value(c, s)) f = false;
        if (!same(g.energy(s), e)) fail(what, ": energy ", g.energy(s), " instead of ", e);
        if (g.feasible(s) != f) fail(what, ": feasible ", g.feasible(s), " instead of ", f);
        return std::make_pair(e, f);
    };
    auto old = check(s, "initially");
    for (i64 k = r.in(0, 5); k > 0 && m.ints.size(); --k) {
        std::vector<const Node*> src;
        for (size_t q = 0; q < m.ints.size(); ++q) if (m.ints[q]->size() && r.chance(1, 2)) { int i = r.in(0, m.ints[q]->size() - 1), v = r.in((i64)m.ints[q]->lower_bound(), (i64)m.ints[q]->upper_bound()); note("n", m.intid[q], "[", i, "] = ", v); m.ints[q]->set_value(s, i, v); src.push_back(m.ints[q]); }
        bool acc = r.chance(1, 2); std::pair<double, bool> in{0, false};
        g.propose(s, src, [&](const Graph&, State& t) { in = check(t, "before the decision"); return acc; });
        note(acc ? "accepted" : "rejected");
        auto now = check(s, "after the decision");
        if (now != (acc ? in : old)) fail("the objective or feasibility is neither the old nor the new one");
        old = now;
    }
}

static void G03(Rng& r, i64) {
    Net m(r); m.grow(r.in(1, 12)); Graph& g = m.g; i64 N = m.ns.size();
    std::vector<char> keep(N, 0); std::vector<std::shared_ptr<bool>> lis(N); int oi = -1; std::vector<int> cs;
    for (i64 i = 0; i < N; ++i) if (m.pin[i]) keep[i] = 1;
    if (r.chance(2, 3)) { int i = r.in(0, N - 1); if (m.ns[i]->size() == 1) { g.set_objective(m.ns[i]); oi = i; keep[i] = 1; note("objective n", i); } }
    for (i64 k = r.in(0, 2); k > 0; --k) { int i = r.in(0, N - 1); if (m.ns[i]->size() == 1 && m.ns[i]->logical()) { g.add_constraint(m.ns[i]); cs.push_back(i); keep[i] = 1; note("constraint n", i); } }
    bool ign = r.chance(1, 2);
    for (i64 i = 0; i < N; ++i) if (r.chance(1, 6)) { lis[i] = m.ns[i]->expired_ptr(); if (!ign) keep[i] = 1; note("listener n", i); }
    for (bool ch = true; ch;) { ch = false; for (i64 i = 0; i < N; ++i) if (keep[i]) for (int p : m.preds[i]) if (!keep[p]) keep[p] = ch = true; }
    std::vector<Node*> id; for (auto a : m.ns) id.push_back(a);
    bool pre = r.chance(1, 2);
    std::vector<std::vector<double>> vals; std::vector<double> en; std::vector<bool> fe;
    auto eval = [&](bool fresh) {
        std::vector<double> e; std::vector<bool> f;
        for (int k = 0; k < 3; ++k) {
            if (fresh) { std::vector<double> flat; for (auto x : m.ints) for (i64 i = 0; i < x->size(); ++i) flat.push_back(r.in((i64)x->lower_bound(), (i64)x->upper_bound())); vals.push_back(flat); }
            State s = g.empty_state(); size_t at = 0;
            for (auto x : m.ints) { std::vector<double> v(vals[k].begin() + at, vals[k].begin() + at + x->size()); at += x->size(); x->initialize_state(s, std::move(v)); }
            g.initialize_state(s); e.push_back(g.energy(s)); f.push_back(g.feasible(s));
            for (i64 i = 0; i < N; ++i) if ((fresh || keep[i]) && !m.big[i]) if (!same(m.ns[i]->view(s).front(), m.value(i, s))) fail("value of n", i);
        }
        if (fresh) { en = e; fe = f; } else if (e != en || f != fe) fail("the objective or the feasibility changed");
    };
    if (pre) eval(true);
    i64 before = g.num_nodes();
    i64 gone = 0; for (i64 i = 0; i < N; ++i) gone += !keep[i];
    i64 hidden = before - N;  // the nodes of disjoint lists themselves
    if (hidden != (i64)m.others.size()) fail("unexpected number of nodes ", before);
    i64 got = g.remove_unused_nodes(ign);
    note("removed ", got);
    if (got != gone) fail("removed ", got, " nodes instead of ", gone);
    if (g.num_nodes() != before - gone) fail("now there are ", g.num_nodes(), " nodes");
    if (g.topologically_sorted()) fail("still sorted");
    std::set<Node*> now; for (auto& n : g.nodes()) now.insert(n.get());
    for (i64 i = 0; i < N; ++i) { if (now.count(id[i]) != (size_t)keep[i]) fail("n", i, keep[i] ? " was removed" : " was kept"); if (lis[i] && *lis[i] == (bool)keep[i]) fail("the listener of n", i, " sees ", *lis[i]); }
    for (auto o : m.others) if (!now.count(o)) fail("a decision was removed");
    for (i64 i = 0; i < N; ++i) if (keep[i]) {
        std::vector<Node*> p; for (int q : m.preds[i]) p.push_back(m.ns[q]);
        if (m.preds[i].size() && m.ns[i]->predecessors() != p) fail("predecessors of n", i);
        std::vector<std::pair<Node*, int>> w, h; for (auto& v : m.ns[i]->successors()) h.emplace_back(v.ptr, v.index);
        for (i64 j = 0; j < N; ++j) if (keep[j]) for (size_t k = 0; k < m.preds[j].size(); ++k) if (m.preds[j][k] == i) w.emplace_back(m.ns[j], (int)k);
        std::sort(w.begin(), w.end()); std::sort(h.begin(), h.end()); if (w != h) fail("successors of n", i);
    }
    if (oi >= 0 ? g.objective() != m.ns[oi] : g.objective() != nullptr) fail("the objective changed");
    if (g.num_constraints() != (i64)cs.size()) fail("the constraints changed");
    if (pre) eval(false);
    // the model stays usable
    if (r.chance(1, 2)) { g.reset_topological_sort(); auto x = g.emplace_node<IntegerNode>(); if (x->topological_index() != g.num_decisions() - 1) fail("index of a new decision"); }
    g.topological_sort(); for (auto& n : g.nodes()) for (auto p : n->predecessors()) if (p->topological_index() >= n->topological_index()) fail("order");
    if (g.remove_unused_nodes(true) < 0) fail("negative");
}

int main(int argc, char** argv) { return drive(argc, argv, {{"G01", G01}, {"G02", G02}, {"G03", G03}}); }
