// Random models over every node type: reference semantics, incremental versus from-scratch evaluation, recorded updates,
// revert and commit, value bounds and size information.  Used (a) to search a failing input when a contract fails and
// (b) as the bounded stand-in for functions that are not under contract.
#include "common.hpp"
#include "dwave-optimization/array.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
#include "dwave-optimization/nodes/testing.hpp"
#include "dwave-optimization/state.hpp"
using namespace dwave::optimization;

using Ref = std::function<NA(const std::vector<NA>&)>;
using Move = std::function<void(State&)>;

struct Entry {
    ArrayNode* a = nullptr;
    std::vector<int> preds;
    Ref ref;
    std::string desc, fam;
    bool approx = false;
    double mag = 0;   // bound on |value|
    int gran = 0;     // values are multiples of 2^-gran
    bool cst = false;
    bool btaint = false;  // derived from such an array
    bool sliced = false;  // a dynamic array derived from a slice of a dynamic array
};

struct Dec {
    const Node* n;
    std::string desc;
    std::function<void(State&)> init;                        // random initial state
    std::function<void(const State&, State&)> init_same;     // the same state, freshly initialised
    std::function<std::optional<std::pair<std::string, Move>>(const State&)> move;  // a random legal move
};

NA read(const Array* a, const State& s) {
    NA r;
    auto sh = a->shape(s);
    r.shape.assign(sh.begin(), sh.end());
    i64 n = a->size(s);
    for (auto d : r.shape) if (d < 0) fail("negative dimension in the current shape ", str(r.shape));
    if (n != r.size()) fail("size(state)=", n, " but the current shape is ", str(r.shape));
    if ((i64)a->strides().size() != r.ndim()) fail("strides have another number of dimensions");
    if (n == 0) return r;
    const double* p = a->buff(s);
    std::vector<i64> ix(r.shape.size(), 0);
    do {
        i64 off = 0;
        for (size_t d = 0; d < ix.size(); ++d) off += ix[d] * a->strides()[d];
        r.v.push_back(p[off / (i64)sizeof(double)]);
    } while (next_index(ix, r.shape));
    return r;
}

std::vector<i64> bshape(const std::vector<i64>& a, const std::vector<i64>& b) {
    std::vector<i64> r(std::max(a.size(), b.size()));
    for (size_t k = 0; k < r.size(); ++k) {
        i64 x = k < a.size() ? a[a.size() - 1 - k] : 1, y = k < b.size() ? b[b.size() - 1 - k] : 1;
        if (x != y && x != 1 && y != 1) throw std::logic_error("no broadcast");
        r[r.size() - 1 - k] = x == 1 ? y : x;
    }
    return r;
}
double at_b(const NA& a, const std::vector<i64>& ix) {
    auto st = a.strides();
    i64 off = 0;
    for (size_t k = 0; k < a.shape.size(); ++k) {
        size_t d = a.shape.size() - 1 - k;
        i64 i = ix[ix.size() - 1 - k];
        off += (a.shape[d] == 1 ? 0 : i) * st[d];
    }
    return a.v[off];
}
NA bin(const NA& a, const NA& b, std::function<double(double, double)> f) {
    NA r; r.shape = bshape(a.shape, b.shape);
    if (r.size() == 0) return r;
    std::vector<i64> ix(r.shape.size(), 0);
    do r.v.push_back(f(at_b(a, ix), at_b(b, ix))); while (next_index(ix, r.shape));
    return r;
}
// Python's slice.indices + range
std::vector<i64> pyslice(std::optional<i64> st, std::optional<i64> sp, std::optional<i64> step_, i64 n) {
    __int128 step = step_.value_or(1);
    __int128 lo = step < 0 ? -1 : 0, hi = step < 0 ? n - 1 : n;
    auto fix = [&](std::optional<i64> x, __int128 dflt) -> __int128 {
        if (!x) return dflt;
        __int128 v = *x;
        if (v < 0) { v += n; if (v < lo) v = lo; } else if (v > hi) v = hi;
        return v;
    };
    __int128 a = fix(st, step < 0 ? hi : lo), b = fix(sp, step < 0 ? lo : hi);
    std::vector<i64> r;
    for (; step < 0 ? a > b : a < b; a += step) r.push_back((i64)a);
    return r;
}

double pymod(double x, double y) {
    if (y == 0) return 0;
    double r = std::fmod(x, y);
    if (r != 0 && ((r < 0) != (y < 0))) r += y;
    return r;
}

struct Model {
    Rng& r;
    std::string prop;
    Graph g;
    std::vector<Entry> es;
    std::vector<Dec> decs;
    std::vector<std::unique_ptr<std::vector<double>>> keep;

    Model(Rng& r, std::string p) : r(r), prop(std::move(p)) {}

    int add(ArrayNode* a, std::vector<int> preds, Ref ref, std::string desc, std::string fam, double mag, int gran, bool approx = false) {
        Entry e; e.a = a; e.preds = std::move(preds); e.ref = std::move(ref); e.fam = std::move(fam);
        e.desc = cat("n", es.size(), " = ", desc, "  # shape ", str(a->shape()));
        e.mag = mag; e.gran = gran; e.approx = approx || std::log2(mag + 1) + gran > 48;
        for (int i : e.preds) if (es[i].sliced || es[i].btaint) e.btaint = true;
        if (a->size() < 0) for (int i : e.preds) if (es[i].sliced || (es[i].a->size() < 0 && dynamic_cast<BasicIndexingNode*>(a))) e.sliced = true;
        note(e.desc);
        es.push_back(std::move(e));
        return (int)es.size() - 1;
    }

    static std::string args(const std::vector<int>& p) { std::string s; for (int i : p) s += (s.empty() ? "n" : ", n") + std::to_string(i); return s; }

    std::vector<i64> shape_() {
        static const std::vector<std::vector<i64>> S = {{}, {}, {1}, {2}, {3}, {4}, {5}, {2, 2}, {2, 3}, {3, 2}, {1, 3}, {3, 1}, {1, 1}, {3, 3}, {2, 2, 2}, {2, 3, 2}, {3, 1, 2}, {2, 2, 3}};
        return r.pick(S);
    }
    static i64 prod(const std::vector<i64>& s) { i64 n = 1; for (auto d : s) n *= d; return n; }

    // ---- decisions ---------------------------------------------------------------------------------------------
    template <class T, class M>
    void add_dec(T* n, std::string d, std::function<void(State&)> init, std::function<void(const State&, State&)> same_, M mv) {
        decs.push_back(Dec{n, std::move(d), std::move(init), std::move(same_), mv});
    }
    static std::vector<double> vals(const Array* a, const State& s) { return std::vector<double>(a->buff(s), a->buff(s) + a->size(s)); }

    int numbers(bool binary, std::vector<i64> sh, i64 lo, i64 hi) {
        IntegerNode* n = binary ? (IntegerNode*)g.emplace_node<BinaryNode>(std::span<const ssize_t>(sh)) : g.emplace_node<IntegerNode>(std::span<const ssize_t>(sh), (int)lo, (int)hi);
        i64 N = prod(sh);
        int id = add(n, {}, nullptr, binary ? cat("Binary", str(sh)) : cat("Integer", str(sh), " in [", lo, ", ", hi, "]"), "dec", std::max(std::abs(lo), std::abs(hi)), 0);
        Rng* R = &r;
        auto init = [=](State& s) {
            std::vector<double> v(N);
            for (auto& x : v) x = R->in(lo, hi);
            note("  init n", id, " ", str(v));
            n->initialize_state(s, std::move(v));
        };
        auto same_ = [=](const State& f, State& t) { n->initialize_state(t, vals(n, f)); };
        auto mv = [=](const State&) -> std::optional<std::pair<std::string, Move>> {
            if (!N) return std::nullopt;
            i64 i = R->in(0, N - 1), j = R->in(0, N - 1), x = R->in(lo, hi);
            int k = R->in(0, binary ? 4 : 2);
            if (k == 0) return std::make_pair(cat("n", id, ".exchange(", i, ",", j, ")"), Move([=](State& s) { n->exchange(s, i, j); }));
            if (k <= 2) return std::make_pair(cat("n", id, ".set_value(", i, ",", x, ")"), Move([=](State& s) { n->set_value(s, i, x); }));
            auto b = static_cast<BinaryNode*>(n);
            if (k == 3) return std::make_pair(cat("n", id, ".flip(", i, ")"), Move([=](State& s) { b->flip(s, i); }));
            if (x) return std::make_pair(cat("n", id, ".set(", i, ")"), Move([=](State& s) { b->set(s, i); }));
            return std::make_pair(cat("n", id, ".unset(", i, ")"), Move([=](State& s) { b->unset(s, i); }));
        };
        add_dec(n, es[id].desc, init, same_, mv);
        return id;
    }

    int collection(bool list, i64 n_, i64 mn, i64 mx) {
        CollectionNode* n = list ? (CollectionNode*)g.emplace_node<ListNode>(n_, mn, mx) : (CollectionNode*)g.emplace_node<SetNode>(n_, mn, mx);
        int id = add(n, {}, nullptr, cat(list ? "List" : "Set", "(", n_, ", ", mn, ", ", mx, ")"), "dec", (double)std::max<i64>(n_ - 1, 0), 0);
        Rng* R = &r;
        auto init = [=](State& s) {
            i64 m = R->in(mn, mx);
            std::vector<double> v(n_);
            std::iota(v.begin(), v.end(), 0);
            for (i64 i = n_ - 1; i > 0; --i) std::swap(v[i], v[R->in(0, i)]);
            v.resize(m);
            note("  init n", id, " ", str(v));
            n->initialize_state(s, v);
        };
        auto same_ = [=](const State& f, State& t) { n->initialize_state(t, vals(n, f)); };
        auto mv = [=](const State& s) -> std::optional<std::pair<std::string, Move>> {
            i64 m = n->size(s);
            for (int tries = 0; tries < 6; ++tries) {
                int k = R->in(0, 4);
                if (k == 0 && m < mx && mn != mx) return std::make_pair(cat("n", id, ".grow()"), Move([=](State& s) { n->grow(s); }));
                if (k == 1 && m > mn && mn != mx) return std::make_pair(cat("n", id, ".shrink()"), Move([=](State& s) { n->shrink(s); }));
                if ((k == 2 || k == 4) && n_ > 1) {
                    i64 i = R->in(0, (k == 2 && m ? m : n_) - 1), j = R->in(0, (k == 2 && m ? m : n_) - 1);
                    return std::make_pair(cat("n", id, ".exchange(", i, ",", j, ")"), Move([=](State& s) { n->exchange(s, i, j); }));
                }
                if (k == 3 && m > 1) {
                    i64 i = R->in(0, m - 1), j = R->in(0, m - 1);
                    return std::make_pair(cat("n", id, ".rotate(", i, ",", j, ")"), Move([=](State& s) { n->rotate(s, i, j); }));
                }
            }
            return std::nullopt;
        };
        add_dec(n, es[id].desc, init, same_, mv);
        return id;
    }

    void disjoint_bitsets(i64 n_, i64 k_) {
        auto n = g.emplace_node<DisjointBitSetsNode>(n_, k_);
        note("DisjointBitSets(", n_, ", ", k_, ")");
        std::vector<ArrayNode*> outs;
        for (i64 k = 0; k < k_; ++k) {
            outs.push_back(g.emplace_node<DisjointBitSetNode>(n));
            add(outs.back(), {}, nullptr, cat("DisjointBitSet #", k), "dec", 1, 0);
        }
        Rng* R = &r;
        auto init = [=](State& s) {
            std::vector<std::vector<double>> c(k_, std::vector<double>(n_, 0));
            for (i64 i = 0; i < n_; ++i) c[R->in(0, k_ - 1)][i] = 1;
            for (auto& x : c) note("  init bitset ", str(x));
            n->initialize_state(s, c);
        };
        auto same_ = [=](const State& f, State& t) {
            std::vector<std::vector<double>> c;
            for (auto o : outs) c.push_back(vals(o, f));
            n->initialize_state(t, c);
        };
        auto mv = [=](const State&) -> std::optional<std::pair<std::string, Move>> {
            if (!n_) return std::nullopt;
            i64 a = R->in(0, k_ - 1), b = R->in(0, k_ - 1), e = R->in(0, n_ - 1);
            return std::make_pair(cat("swap_between_sets(", a, ",", b, ",", e, ")"), Move([=](State& s) { n->swap_between_sets(s, a, b, e); }));
        };
        add_dec(n, "DisjointBitSets", init, same_, mv);
    }

    void disjoint_lists(i64 n_, i64 k_) {
        auto n = g.emplace_node<DisjointListsNode>(n_, k_);
        note("DisjointLists(", n_, ", ", k_, ")");
        std::vector<ArrayNode*> outs;
        for (i64 k = 0; k < k_; ++k) {
            outs.push_back(g.emplace_node<DisjointListNode>(n));
            add(outs.back(), {}, nullptr, cat("DisjointList #", k), "dec", n_, 0);
        }
        Rng* R = &r;
        auto init = [=](State& s) {
            std::vector<std::vector<double>> c(k_);
            std::vector<double> v(n_);
            std::iota(v.begin(), v.end(), 0);
            for (i64 i = n_ - 1; i > 0; --i) std::swap(v[i], v[R->in(0, i)]);
            for (auto x : v) c[R->in(0, k_ - 1)].push_back(x);
            for (auto& x : c) note("  init list ", str(x));
            n->initialize_state(s, c);
        };
        auto same_ = [=](const State& f, State& t) {
            std::vector<std::vector<double>> c;
            for (auto o : outs) c.push_back(vals(o, f));
            n->initialize_state(t, c);
        };
        auto mv = [=](const State& s) -> std::optional<std::pair<std::string, Move>> {
            for (int tries = 0; tries < 6; ++tries) {
                i64 a = R->in(0, k_ - 1), b = R->in(0, k_ - 1);
                i64 na = outs[a]->size(s), nb = outs[b]->size(s);
                if (!na) continue;
                i64 i = R->in(0, na - 1), j = R->in(0, na - 1);
                switch (R->in(0, 3)) {
                    case 0: return std::make_pair(cat("swap_in_list(", a, ",", i, ",", j, ")"), Move([=](State& s) { n->swap_in_list(s, a, i, j); }));
                    case 1: return std::make_pair(cat("rotate_in_list(", a, ",", i, ",", j, ")"), Move([=](State& s) { n->rotate_in_list(s, a, i, j); }));
                    default: {
                        if (a == b) continue;
                        i64 t = R->in(0, nb);
                        return std::make_pair(cat("pop_to_list(", a, ",", i, ",", b, ",", t, ")"), Move([=](State& s) { n->pop_to_list(s, a, i, b, t); }));
                    }
                }
            }
            return std::nullopt;
        };
        add_dec(n, "DisjointLists", init, same_, mv);
    }

    int dynamic(i64 cols) {  // cols = 0: 1-d
        bool integral = r.chance(1, 2);
        i64 lo = r.in(-3, 1), hi = lo + r.in(0, 5);
        bool bounded = r.chance(3, 4);
        i64 row = cols ? cols : 1;
        std::optional<ssize_t> ms, xs;
        i64 mrows = 0, xrows = 5;
        if (r.chance(1, 2)) { mrows = r.in(0, 2); ms = mrows * row; }
        if (r.chance(1, 2)) { xrows = mrows + r.in(1, 4); xs = xrows * row; }
        std::optional<double> omin, omax;
        if (bounded) { omin = lo; omax = hi; }
        DynamicArrayTestingNode* n = cols ? g.emplace_node<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1, cols}, omin, omax, integral, ms, xs)
                                          : g.emplace_node<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1}, omin, omax, integral, ms, xs);
        int gran = integral ? 0 : 2;
        int id = add(n, {}, nullptr, cat("Dynamic(cols ", cols, ", values [", lo, ", ", hi, "] integral ", integral, " rows [", mrows, ", ", xrows, "])"), "dec", std::max(std::abs(lo), std::abs(hi)), gran);
        Rng* R = &r;
        auto val = [=]() { return integral ? (double)R->in(lo, hi) : R->in(lo * 4, hi * 4) / 4.0; };
        auto init = [=](State& s) {
            std::vector<double> v(R->in(mrows, xrows) * row);
            for (auto& x : v) x = val();
            note("  init n", id, " ", str(v));
            n->initialize_state(s, std::span<const double>(v));
        };
        auto same_ = [=](const State& f, State& t) { auto v = vals(n, f); n->initialize_state(t, std::span<const double>(v)); };
        auto mv = [=](const State& s) -> std::optional<std::pair<std::string, Move>> {
            i64 rows = n->size(s) / row;
            for (int tries = 0; tries < 6; ++tries) {
                int k = R->in(0, 2);
                if (k == 0 && rows < xrows) {
                    std::vector<double> v(row);
                    for (auto& x : v) x = val();
                    return std::make_pair(cat("n", id, ".grow(", str(v), ")"), Move([=](State& s) { n->grow(s, std::span<const double>(v)); }));
                }
                if (k == 1 && rows > mrows) return std::make_pair(cat("n", id, ".shrink()"), Move([=](State& s) { n->shrink(s); }));
                if (k == 2 && rows) {
                    i64 i = R->in(0, rows * row - 1); double x = val();
                    return std::make_pair(cat("n", id, ".set(", i, ",", x, ")"), Move([=](State& s) { n->set(s, i, x); }));
                }
            }
            return std::nullopt;
        };
        add_dec(n, es[id].desc, init, same_, mv);
        return id;
    }

    int constant(std::vector<i64> sh, bool integral, i64 lo, i64 hi) {
        auto v = std::make_unique<std::vector<double>>(prod(sh));
        for (auto& x : *v) x = integral ? (double)r.in(lo, hi) : r.in(lo * 4, hi * 4) / 4.0;
        auto n = g.emplace_node<ConstantNode>(v->data(), std::span<const ssize_t>(sh));
        int id = add(n, {}, nullptr, cat("Constant", str(sh), " ", str(*v)), "const", std::max(std::abs(lo), std::abs(hi)), integral ? 0 : 2);
        es[id].cst = true;
        NA na{sh, *v};
        es[id].ref = [na](const std::vector<NA>&) { return na; };
        keep.push_back(std::move(v));
        return id;
    }

    // a random leaf; want: -1 any, otherwise needs
    void leaf() {
        switch (r.in(0, 13)) {
            case 0: case 1: numbers(true, shape_(), 0, 1); break;
            case 2: case 3: case 4: { i64 lo = r.in(-4, 3); numbers(false, shape_(), lo, lo + r.in(0, 6)); break; }
            case 5: { i64 n = r.in(1, 5); collection(true, n, n, n); break; }
            case 6: case 7: { i64 n = r.in(1, 5); i64 a = r.in(0, n), b = r.in(a, n); collection(r.chance(1, 2), n, a, b); break; }
            case 8: disjoint_bitsets(r.in(1, 4), r.in(1, 3)); break;
            case 9: disjoint_lists(r.in(1, 5), r.in(1, 3)); break;
            case 10: case 11: dynamic(r.chance(1, 2) ? 0 : r.in(1, 3)); break;
            default: { i64 lo = r.in(-4, 2); constant(shape_(), r.chance(1, 2), lo, lo + r.in(0, 5)); }
        }
    }

    // pick an operand; exact only
    int operand(std::function<bool(const Entry&)> ok = nullptr) {
        std::vector<int> c;
        for (int i = 0; i < (int)es.size(); ++i)
            if (!es[i].approx && (!ok || ok(es[i]))) c.push_back(i);
        if (c.empty()) return -1;
        // prefer recent ones a little
        if (r.chance(1, 3)) return c.back();
        return r.pick(c);
    }
    ArrayNode* A(int i) { return es[i].a; }

    // ---- operations --------------------------------------------------------------------------------------------
    void op_unary() {
        int k = r.in(0, 5);
        int x = operand();
        double m = es[x].mag; int gr = es[x].gran;
        auto mk = [&](ArrayNode* n, const char* nm, double mag, int gran, std::function<double(double)> f, bool approx = false) {
            add(n, {x}, [f](const std::vector<NA>& p) { NA q = p[0]; for (auto& v : q.v) v = f(v); return q; }, cat(nm, "(n", x, ")"), "M01", mag, gran, approx);
        };
        switch (k) {
            case 0: mk(g.emplace_node<AbsoluteNode>(A(x)), "Absolute", m, gr, [](double v) { return std::fabs(v); }); break;
            case 1: mk(g.emplace_node<LogicalNode>(A(x)), "Logical", 1, 0, [](double v) { return v != 0 ? 1. : 0.; }); break;
            case 2: mk(g.emplace_node<NegativeNode>(A(x)), "Negative", m, gr, [](double v) { return -v; }); break;
            case 3: mk(g.emplace_node<NotNode>(A(x)), "Not", 1, 0, [](double v) { return v == 0 ? 1. : 0.; }); break;
            case 4: mk(g.emplace_node<SquareNode>(A(x)), "Square", m * m, 2 * gr, [](double v) { return v * v; }); break;
            case 5: mk(g.emplace_node<SquareRootNode>(A(x)), "SquareRoot", m, 30, [](double v) { return std::sqrt(v); }, true); break;
        }
    }
    int second(int x) {  // an operand that x can be combined with
        auto sx = A(x)->shape();
        std::vector<i64> s(sx.begin(), sx.end());
        i64 n = A(x)->size();
        bool scalar = r.chance(1, 2);
        if (r.chance(1, 2) || (n < 0 && !scalar)) {
            int y = operand([&](const Entry& e) {
                auto t = e.a->shape();
                if (scalar || n < 0) return e.a->size() == 1;
                return n == 1 || (t.size() == s.size() && std::equal(t.begin(), t.end(), s.begin()));
            });
            if (y >= 0) return y;
        }
        static const std::vector<std::vector<i64>> S1 = {{}, {}, {1}, {1, 1}};
        auto sh = (scalar || n < 0) ? r.pick(S1) : s;
        i64 lo = r.in(-3, 3);
        switch (r.in(0, 2)) {
            case 0: return constant(sh, r.chance(1, 2), lo, lo + r.in(0, 4));
            case 1: return numbers(true, sh, 0, 1);
            default: return numbers(false, sh, lo, lo + r.in(0, 4));
        }
    }
    void op_binary() {
        int x = operand(); int y = second(x);
        if (r.chance(1, 2)) std::swap(x, y);
        int k = r.in(0, 11);
        double mx = es[x].mag, my = es[y].mag; int gr = std::max(es[x].gran, es[y].gran);
        auto mk = [&](ArrayNode* n, const char* nm, double mag, int gran, std::function<double(double, double)> f, bool approx = false) {
            add(n, {x, y}, [f](const std::vector<NA>& p) { return bin(p[0], p[1], f); }, cat(nm, "(n", x, ", n", y, ")"), "M01", mag, gran, approx);
        };
        switch (k) {
            case 0: mk(g.emplace_node<AddNode>(A(x), A(y)), "Add", mx + my, gr, [](double a, double b) { return a + b; }); break;
            case 1: mk(g.emplace_node<AndNode>(A(x), A(y)), "And", 1, 0, [](double a, double b) { return a != 0 && b != 0 ? 1. : 0.; }); break;
            case 2: mk(g.emplace_node<DivideNode>(A(x), A(y)), "Divide", mx * 64, 30, [](double a, double b) { return a / b; }, true); break;
            case 3: mk(g.emplace_node<EqualNode>(A(x), A(y)), "Equal", 1, 0, [](double a, double b) { return a == b ? 1. : 0.; }); break;
            case 4: mk(g.emplace_node<LessEqualNode>(A(x), A(y)), "LessEqual", 1, 0, [](double a, double b) { return a <= b ? 1. : 0.; }); break;
            case 5: mk(g.emplace_node<MultiplyNode>(A(x), A(y)), "Multiply", mx * my, es[x].gran + es[y].gran, [](double a, double b) { return a * b; }); break;
            case 6: mk(g.emplace_node<MaximumNode>(A(x), A(y)), "Maximum", std::max(mx, my), gr, [](double a, double b) { return std::max(a, b); }); break;
            case 7: mk(g.emplace_node<MinimumNode>(A(x), A(y)), "Minimum", std::max(mx, my), gr, [](double a, double b) { return std::min(a, b); }); break;
            case 8: mk(g.emplace_node<ModulusNode>(A(x), A(y)), "Modulus", my, gr, pymod); break;
            case 9: mk(g.emplace_node<OrNode>(A(x), A(y)), "Or", 1, 0, [](double a, double b) { return a != 0 || b != 0 ? 1. : 0.; }); break;
            case 10: mk(g.emplace_node<SubtractNode>(A(x), A(y)), "Subtract", mx + my, gr, [](double a, double b) { return a - b; }); break;
            case 11: mk(g.emplace_node<XorNode>(A(x), A(y)), "Xor", 1, 0, [](double a, double b) { return (a != 0) != (b != 0) ? 1. : 0.; }); break;
        }
    }
    int same_shape(int x) {
        auto sx = A(x)->shape();
        std::vector<i64> s(sx.begin(), sx.end());
        if (r.chance(1, 2)) {
            int y = operand([&](const Entry& e) { auto t = e.a->shape(); return t.size() == s.size() && std::equal(t.begin(), t.end(), s.begin()); });
            if (y >= 0) return y;
        }
        if (A(x)->size() < 0) return s.size() == 1 ? dynamic(0) : s.size() == 2 ? dynamic(s[1]) : x;
        i64 lo = r.in(-3, 2);
        if (r.chance(1, 3)) return constant(s, r.chance(1, 2), lo, lo + r.in(0, 4));
        return numbers(false, s, lo, lo + r.in(0, 4));
    }
    void op_nary() {
        int x = operand([](const Entry& e) { return e.a->size() >= 0; });
        if (x < 0) return;
        std::vector<int> p{x};
        int m = r.in(1, 4);
        for (int i = 1; i < m; ++i) p.push_back(same_shape(x));
        double sum = 0, mul = 1, mx = 0; int gr = 0, gs = 0;
        for (int i : p) { sum += es[i].mag; mul *= std::max(es[i].mag, 1.0); mx = std::max(mx, es[i].mag); gr = std::max(gr, es[i].gran); gs += es[i].gran; }
        int k = r.in(0, 3);
        auto ref = [](std::function<double(double, double)> f) {
            return [f](const std::vector<NA>& p) { NA q = p[0]; for (size_t i = 1; i < p.size(); ++i) for (size_t j = 0; j < q.v.size(); ++j) q.v[j] = f(q.v[j], p[i].v[j]); return q; };
        };
        auto build = [&](auto* tag) -> ArrayNode* {
            using T = std::remove_pointer_t<decltype(tag)>;
            if (r.chance(1, 2)) {
                std::vector<ArrayNode*> v; for (int i : p) v.push_back(A(i));
                return g.emplace_node<T>(std::span<ArrayNode*>(v));
            }
            auto n = g.emplace_node<T>(A(p[0]));
            for (size_t i = 1; i < p.size(); ++i) n->add_node(A(p[i]));
            return n;
        };
        switch (k) {
            case 0: add(build((NaryAddNode*)0), p, ref([](double a, double b) { return a + b; }), cat("NaryAdd(", args(p), ")"), "M01", sum, gr); break;
            case 1: add(build((NaryMaximumNode*)0), p, ref([](double a, double b) { return std::max(a, b); }), cat("NaryMaximum(", args(p), ")"), "M01", mx, gr); break;
            case 2: add(build((NaryMinimumNode*)0), p, ref([](double a, double b) { return std::min(a, b); }), cat("NaryMinimum(", args(p), ")"), "M01", mx, gr); break;
            case 3: add(build((NaryMultiplyNode*)0), p, ref([](double a, double b) { return a * b; }), cat("NaryMultiply(", args(p), ")"), "M01", mul, gs, true); break;
        }
    }
    void op_where() {
        int x = operand(); int y = same_shape(x);
        int c;
        if (A(x)->size() < 0 || r.chance(1, 2)) {
            c = operand([&](const Entry& e) { return e.a->size() == 1 && e.a->ndim() <= A(x)->ndim(); });
            if (c < 0) c = numbers(true, {}, 0, 1);
        } else c = same_shape(x);
        add(g.emplace_node<WhereNode>(A(c), A(x), A(y)), {c, x, y}, [](const std::vector<NA>& p) {
            if (p[0].v.size() == 1) return p[0].v[0] ? p[1] : p[2];
            NA q = p[1]; for (size_t i = 0; i < q.v.size(); ++i) if (!p[0].v[i]) q.v[i] = p[2].v[i]; return q;
        }, cat("Where(n", c, ", n", x, ", n", y, ")"), "M01", std::max(es[x].mag, es[y].mag), std::max(es[x].gran, es[y].gran));
    }
    void op_reduce() {
        int x = operand(); int k = r.in(0, 5);
        bool wi = r.chance(1, 3);
        double iv = k == 3 || k == 4 ? (double)r.in(0, 1) : (double)r.in(-2, 3);
        double cap = A(x)->size() < 0 ? 8 * (A(x)->ndim() > 1 ? A(x)->shape()[1] : 1) : A(x)->size();
        double m = std::max(es[x].mag, 1.0);
        auto red = [&](double id, std::function<double(double, double)> f) {
            double st = wi ? iv : id; bool init = wi || !std::isnan(id);
            return [=](const std::vector<NA>& p) {
                NA q; double a = st; size_t i = 0;
                if (!init) { if (p[0].v.empty()) fail("no value for an empty array without identity"); a = p[0].v[0]; i = 1; }
                for (; i < p[0].v.size(); ++i) a = f(a, p[0].v[i]);
                q.v = {a}; return q;
            };
        };
        auto mk = [&](auto* tag, const char* nm, double mag, int gran, Ref f, bool approx = false) {
            using T = std::remove_pointer_t<decltype(tag)>;
            ArrayNode* n = wi ? g.emplace_node<T>(A(x), iv) : g.emplace_node<T>(A(x));
            add(n, {x}, f, wi ? cat(nm, "(n", x, ", init ", iv, ")") : cat(nm, "(n", x, ")"), "M02", mag, gran, approx);
        };
        double nan = std::nan("");
        switch (k) {
            case 0: mk((SumNode*)0, "Sum", m * cap + 3, es[x].gran, red(0, [](double a, double b) { return a + b; })); break;
            case 1: mk((MaxNode*)0, "Max", m + 3, es[x].gran, red(nan, [](double a, double b) { return std::max(a, b); })); break;
            case 2: mk((MinNode*)0, "Min", m + 3, es[x].gran, red(nan, [](double a, double b) { return std::min(a, b); })); break;
            case 3: mk((AllNode*)0, "All", 1, 0, red(1, [](double a, double b) { return a != 0 && b != 0 ? 1. : 0.; })); break;
            case 4: mk((AnyNode*)0, "Any", 1, 0, red(0, [](double a, double b) { return a != 0 || b != 0 ? 1. : 0.; })); break;
            case 5: if (es[x].mag > 16 || es[x].gran > 2 || cap > 12) return;
                    mk((ProdNode*)0, "Prod", std::pow(m, cap) * 3, (int)(es[x].gran * cap), red(1, [](double a, double b) { return a * b; }), true); break;
        }
    }
    void op_partial() {
        int x = operand([](const Entry& e) { return e.a->ndim() >= 1; });
        if (x < 0) return;
        i64 ax = r.in(0, A(x)->ndim() - 1);
        bool wi = r.chance(1, 3); double iv = wi ? r.in(-2, 3) : 0;
        double cap = A(x)->size() < 0 ? 40 : A(x)->size();
        ArrayNode* n = wi ? g.emplace_node<PartialSumNode>(A(x), (ssize_t)ax, iv) : g.emplace_node<PartialSumNode>(A(x), (ssize_t)ax);
        add(n, {x}, [ax, iv](const std::vector<NA>& p) {
            NA q; q.shape = p[0].shape; q.shape.erase(q.shape.begin() + ax);
            q.v.assign(q.size(), iv);
            if (p[0].v.empty()) return q;
            auto st = q.strides();
            std::vector<i64> ix(p[0].shape.size(), 0); size_t k = 0;
            do { i64 off = 0; for (size_t d = 0, e = 0; d < ix.size(); ++d) if ((i64)d != ax) off += ix[d] * st[e++]; q.v[off] += p[0].v[k++]; } while (next_index(ix, p[0].shape));
            return q;
        }, cat("PartialSum(n", x, ", axis ", ax, wi ? cat(", init ", iv) : "", ")"), "M02", es[x].mag * cap + 3, es[x].gran);
    }
    void op_reshape() {
        int x = operand([](const Entry& e) { return e.a->size() >= 1 && e.a->contiguous(); });
        if (x < 0) return;
        i64 n = A(x)->size();
        std::vector<i64> sh;
        i64 rest = n;
        int nd = r.in(0, 3);
        for (int i = 0; i < nd; ++i) { std::vector<i64> dv; for (i64 d = 1; d <= rest; ++d) if (rest % d == 0) dv.push_back(d); i64 d = i == nd - 1 ? rest : r.pick(dv); sh.push_back(d); rest /= d; }
        if (prod(sh) != n) sh = {n};
        std::vector<i64> sc = sh;
        add(g.emplace_node<ReshapeNode>(A(x), std::vector<ssize_t>(sh)), {x}, [sc](const std::vector<NA>& p) { NA q = p[0]; q.shape = sc; return q; }, cat("Reshape(n", x, ", ", str(sh), ")"), "M03", es[x].mag, es[x].gran);
    }
    void op_concat() {
        int x = operand([](const Entry& e) { return e.a->size() >= 1 && e.a->ndim() >= 1; });
        if (x < 0) return;
        i64 ax = r.in(0, A(x)->ndim() - 1);
        std::vector<int> p{x};
        int m = r.in(1, 3);
        for (int i = 1; i < m; ++i) {
            std::vector<i64> s(A(x)->shape().begin(), A(x)->shape().end());
            int y = -1;
            if (r.chance(1, 2)) y = operand([&](const Entry& e) {
                auto t = e.a->shape(); if (t.size() != s.size() || e.a->size() < 0) return false;
                for (size_t d = 0; d < s.size(); ++d) if ((i64)d != ax && t[d] != s[d]) return false;
                return true; });
            if (y < 0) { s[ax] = r.in(1, 3); i64 lo = r.in(-3, 2); y = r.chance(1, 3) ? constant(s, true, lo, lo + 3) : numbers(false, s, lo, lo + r.in(1, 4)); }
            p.push_back(y);
        }
        if (r.chance(1, 2)) std::reverse(p.begin(), p.end());
        std::vector<ArrayNode*> v; double mag = 0; int gr = 0;
        for (int i : p) { v.push_back(A(i)); mag = std::max(mag, es[i].mag); gr = std::max(gr, es[i].gran); }
        add(g.emplace_node<ConcatenateNode>(std::span<ArrayNode*>(v), (ssize_t)ax), p, [ax](const std::vector<NA>& p) {
            NA q; q.shape = p[0].shape; q.shape[ax] = 0;
            for (auto& a : p) q.shape[ax] += a.shape[ax];
            q.v.assign(q.size(), 0);
            auto st = q.strides(); i64 base = 0;
            for (auto& a : p) {
                if (!a.v.empty()) {
                    std::vector<i64> ix(a.shape.size(), 0); size_t k = 0;
                    do { i64 off = 0; for (size_t d = 0; d < ix.size(); ++d) off += (ix[d] + ((i64)d == ax ? base : 0)) * st[d]; q.v[off] = a.v[k++]; } while (next_index(ix, a.shape));
                }
                base += a.shape[ax];
            }
            return q;
        }, cat("Concatenate([", args(p), "], axis ", ax, ")"), "M03", mag, gr);
    }
    void op_size() {
        int x = operand();
        add(g.emplace_node<SizeNode>(A(x)), {x}, [](const std::vector<NA>& p) { NA q; q.v = {(double)p[0].v.size()}; return q; }, cat("Size(n", x, ")"), "M03", 1000, 0);
    }
    std::optional<i64> lim(i64 n) { if (r.chance(1, 3)) return std::nullopt; return r.in(-n - 1, n + 2); }
    void op_basic() {
        int x = operand([](const Entry& e) { return e.a->ndim() >= 1; });
        if (x < 0) return;
        struct Ix { bool isint; i64 i; std::optional<i64> a, b, c; };
        std::vector<Ix> ixs; std::vector<BasicIndexingNode::slice_or_int> real; std::string d;
        for (i64 k = 0; k < A(x)->ndim(); ++k) {
            i64 n = A(x)->shape()[k];
            i64 nn = n < 0 ? 4 : n;
            Ix ix{};
            if (n > 0 && r.chance(1, 3)) { ix.isint = true; ix.i = r.in(-n, n - 1); real.push_back((ssize_t)ix.i); d += cat(ix.i, ", "); }
            else {
                ix.isint = false;
                if (!r.chance(1, 3)) { ix.a = lim(nn); ix.b = lim(nn); if (r.chance(1, 2)) { static const std::vector<i64> st = {1, 2, 3, -1, -2, -3}; ix.c = r.pick(st); } }
                real.push_back(Slice(ix.a, ix.b, ix.c));
                auto o = [](std::optional<i64> v) { return v ? std::to_string(*v) : std::string(); };
                d += cat(o(ix.a), ":", o(ix.b), ix.c ? ":" + o(ix.c) : "", ", ");
            }
            ixs.push_back(ix);
        }
        if (A(x)->size() < 0)
            for (size_t k = 1; k < ixs.size(); ++k)
                if (!ixs[k].isint && pyslice(ixs[k].a, ixs[k].b, ixs[k].c, A(x)->shape()[k]).empty()) return;  // known finding M03-zero-length-axis
        add(g.emplace_node<BasicIndexingNode>(A(x), real), {x}, [ixs](const std::vector<NA>& p) {
            const NA& a = p[0]; auto st = a.strides();
            std::vector<std::vector<i64>> sel; NA q;
            for (size_t k = 0; k < ixs.size(); ++k) {
                if (ixs[k].isint) { i64 i = ixs[k].i; if (i < 0) i += a.shape[k]; sel.push_back({i}); }
                else { sel.push_back(pyslice(ixs[k].a, ixs[k].b, ixs[k].c, a.shape[k])); q.shape.push_back(sel.back().size()); }
            }
            std::vector<i64> full; for (auto& s : sel) full.push_back(s.size());
            if (prod(full) == 0) return q;
            std::vector<i64> ix(full.size(), 0);
            do { i64 off = 0; for (size_t d = 0; d < ix.size(); ++d) off += sel[d][ix[d]] * st[d]; q.v.push_back(a.v[off]); } while (next_index(ix, full));
            return q;
        }, cat("n", x, "[", d, "]"), "M03", es[x].mag, es[x].gran);
    }
    void op_advanced() {
        int x = operand([](const Entry& e) { return e.a->ndim() >= 1; });
        if (x < 0) return;
        i64 nd = A(x)->ndim();
        for (i64 k = 0; k < nd; ++k) if (A(x)->shape()[k] == 0) return;  // known finding M03-zero-length-axis
        std::vector<int> p{x}; std::vector<int> which(nd, -1); std::vector<AdvancedIndexingNode::array_or_slice> real; std::string d;
        std::vector<i64> ishape; bool have = false; int first = -1;
        static const std::vector<std::vector<i64>> S = {{}, {1}, {2}, {3}, {2, 2}};
        for (i64 k = 0; k < nd; ++k) {
            i64 n = A(x)->shape()[k];
            if (r.chance(1, 2) || (k == nd - 1 && !have)) {
                int y = -1; bool neg = r.chance(1, 3);
                i64 m = n < 0 ? 1 : n;
                if (n < 0 && es[x].sliced) return;  // known finding S04-slice
                if (!have && r.chance(1, 2))  // reuse or make a dynamic index array
                    y = r.chance(1, 2) ? operand([&](const Entry& e) { return e.a->integral() && e.a->min() >= -m && e.a->max() < m; }) : collection(true, m, 0, m);
                else if (have && first >= 0 && r.chance(1, 3)) y = operand([&](const Entry& e) { auto t = e.a->shape(); auto u = A(first)->shape(); return e.a->integral() && e.a->min() >= -m && e.a->max() < m && std::equal(t.begin(), t.end(), u.begin(), u.end()); });
                if (y < 0) {
                    if (have && A(first)->size() < 0) y = first;
                    else { if (!have) ishape = r.pick(S); y = r.chance(1, 4) ? constant(ishape, true, neg ? -m : 0, m - 1) : numbers(false, ishape, neg ? -m : 0, m - 1); }
                }
                if (!have) { have = true; first = y; ishape.assign(A(y)->shape().begin(), A(y)->shape().end()); }
                which[k] = (int)p.size(); p.push_back(y); real.push_back(A(y)); d += cat("n", y, ", ");
            } else { real.push_back(Slice()); d += ":, "; }
        }
        if (prod(ishape) == 0) return;  // known finding M03-zero-length-axis
        add(g.emplace_node<AdvancedIndexingNode>(A(x), real), p, [which](const std::vector<NA>& p) {
            const NA& a = p[0]; auto st = a.strides();
            std::vector<i64> is; i64 firsta = -1, lasta = -1, cnt = 0;
            for (size_t k = 0; k < which.size(); ++k) if (which[k] >= 0) { is = p[which[k]].shape; if (firsta < 0) firsta = k; lasta = k; ++cnt; }
            bool adj = lasta - firsta + 1 == cnt;
            NA q; i64 pos = 0;  // position of the index dimensions in the output
            if (adj) { for (i64 k = 0; k < firsta; ++k) q.shape.push_back(a.shape[k]); pos = firsta; }
            q.shape.insert(q.shape.end(), is.begin(), is.end());
            for (size_t k = adj ? firsta : 0; k < which.size(); ++k) if (which[k] < 0) q.shape.push_back(a.shape[k]);
            if (q.size() == 0) return q;
            std::vector<i64> ix(q.shape.size(), 0); NA dummy; dummy.shape = is; auto ist = dummy.strides();
            do {
                i64 flat = 0; for (size_t e = 0; e < is.size(); ++e) flat += ix[pos + e] * ist[e];
                i64 off = 0; size_t o = adj ? 0 : is.size();
                for (size_t k = 0; k < which.size(); ++k) {
                    if (adj && (i64)k == firsta) o = pos + is.size();
                    if (which[k] >= 0) { i64 i = (i64)p[which[k]].v[flat]; if (i < 0) i += a.shape[k]; if (i < 0 || i >= a.shape[k]) fail("index ", i, " out of range accepted"); off += i * st[k]; }
                    else off += ix[o++] * st[k];
                }
                q.v.push_back(a.v[off]);
            } while (next_index(ix, q.shape));
            return q;
        }, cat("n", x, "[", d, "] (array indices)"), "M03", es[x].mag, es[x].gran);
    }
    void op_permutation() {
        i64 n = r.in(1, 4); i64 nd = r.in(1, 3);
        std::vector<i64> sh(nd, n);
        int x = -1;
        // the permuted array is always a constant and the order a list
        if (r.chance(1, 2)) x = operand([&](const Entry& e) { auto t = e.a->shape(); return e.cst && (i64)t.size() == nd && std::equal(t.begin(), t.end(), sh.begin()); });
        if (x < 0) x = constant(sh, true, -4, 4);
        int o = collection(true, n, n, n);
        add(g.emplace_node<PermutationNode>(A(x), A(o)), {x, o}, [](const std::vector<NA>& p) {
            NA q = p[0]; auto st = q.strides(); std::vector<i64> ix(q.shape.size(), 0); size_t k = 0;
            do { i64 off = 0; for (size_t d = 0; d < ix.size(); ++d) off += (i64)p[1].v[ix[d]] * st[d]; q.v[k++] = p[0].v[off]; } while (next_index(ix, q.shape));
            return q;
        }, cat("Permutation(n", x, ", n", o, ")"), "M03", es[x].mag, es[x].gran);
    }
    void op_quadratic() {
        i64 n = r.in(1, 5);
        int x = -1;
        if (r.chance(1, 2)) x = operand([&](const Entry& e) { return e.a->ndim() == 1 && e.a->size() >= 1; });
        if (x < 0) x = r.chance(1, 2) ? numbers(true, {n}, 0, 1) : r.chance(1, 2) ? numbers(false, {n}, -3, 4) : collection(true, n, n, n);
        n = A(x)->size();
        QuadraticModel qm(n);
        std::vector<double> lin(n, 0); std::map<std::pair<int, int>, double> q;
        std::string d;
        int ops = r.in(0, 10);
        for (int k = 0; k < ops; ++k) {
            int u = r.in(0, n - 1), v = r.in(0, n - 1); double b = r.in(-8, 8) / 2.0;
            int w = r.in(0, 4);
            if (w == 0) { qm.set_linear(u, b); lin[u] = b; d += cat("set_linear(", u, ",", b, ") "); }
            else if (w == 1) { qm.add_linear(u, b); lin[u] += b; d += cat("add_linear(", u, ",", b, ") "); }
            else if (w == 2) { qm.set_quadratic(u, v, b); q[std::minmax(u, v)] = b; d += cat("set_quadratic(", u, ",", v, ",", b, ") "); }
            else { qm.add_quadratic(u, v, b); q[std::minmax(u, v)] += b; d += cat("add_quadratic(", u, ",", v, ",", b, ") "); }
        }
        add(g.emplace_node<QuadraticModelNode>(A(x), std::move(qm)), {x}, [lin, q](const std::vector<NA>& p) {
            double e = 0; for (size_t i = 0; i < lin.size(); ++i) e += lin[i] * p[0].v[i];
            for (auto& [uv, b] : q) e += b * p[0].v[uv.first] * p[0].v[uv.second];
            NA r; r.v = {e}; return r;
        }, cat("QuadraticModel(n", x, "; ", d, ")"), "M04", es[x].mag * es[x].mag * 4 * 20 + 100, 2 * es[x].gran + 1);
    }

    void op(int fam) {
        size_t before = es.size();
        try {
            switch (fam) {
                case 0: op_unary(); break;
                case 1: case 2: op_binary(); break;
                case 3: op_nary(); break;
                case 4: op_where(); break;
                case 5: case 6: op_reduce(); break;
                case 7: op_partial(); break;
                case 8: op_reshape(); break;
                case 9: op_concat(); break;
                case 10: op_size(); break;
                case 11: case 12: op_basic(); break;
                case 13: case 14: op_advanced(); break;
                case 15: op_permutation(); break;
                case 16: op_quadratic(); break;
            }
        } catch (const Failure&) { throw; }
        catch (const std::exception& e) { note("  (rejected: ", e.what(), ")"); }
        (void)before;
    }

    // ---- checks ------------------------------------------------------------------------------------------------
    std::vector<NA> snapshot(const State& s) { std::vector<NA> r; for (auto& e : es) r.push_back(read(e.a, s)); return r; }

    void check_ref(const std::vector<NA>& sn, const std::string& fam, const char* when) {
        for (size_t i = 0; i < es.size(); ++i) {
            auto& e = es[i];
            if (!e.ref || e.fam != fam) continue;
            std::vector<NA> p; for (int k : e.preds) p.push_back(sn[k]);
            NA want = e.ref(p);
            if (!equal(want, sn[i], e.approx)) fail(when, ": ", e.desc, "\n   has        ", sn[i].s(), "\n   should be  ", want.s());
        }
    }
    void check_fresh(State& s, const std::vector<NA>& sn) {
        State f = g.empty_state();
        for (auto& d : decs) d.init_same(s, f);
        g.initialize_state(f);
        auto fs = snapshot(f);
        for (size_t i = 0; i < es.size(); ++i)
            if (!equal(fs[i], sn[i], es[i].approx)) fail("after propagation ", es[i].desc, "\n   has                     ", sn[i].s(), "\n   evaluated from scratch  ", fs[i].s());
    }
    void check_diff(State& s, const std::vector<NA>& before, const std::vector<NA>& sn) {
        for (size_t i = 0; i < es.size(); ++i) {
            std::vector<double> v = before[i].v;
            std::string us;
            auto bad = [&](auto... m) { fail("recorded updates of ", es[i].desc, ": ", m..., "\n   before ", before[i].s(), "\n   now    ", sn[i].s(), "\n   updates ", us); };
            for (auto u : es[i].a->diff(s)) us += cat("(", u.index, ": ", u.old, " -> ", u.value, ") ");
            auto eq = [&](double a, double b) { return es[i].approx ? close(a, b, 1e-9) : a == b; };
            for (auto u : es[i].a->diff(s)) {
                if (u.placed() && u.removed()) bad("update from nothing to nothing");
                if (u.placed()) { if (u.index != (i64)v.size()) bad("placement not at the end"); v.push_back(u.value); }
                else if (u.removed()) { if (u.index != (i64)v.size() - 1) bad("removal not at the end"); if (!eq(v.back(), u.old)) bad("wrong old value in a removal"); v.pop_back(); }
                else { if (u.index < 0 || u.index >= (i64)v.size()) bad("index outside the array"); if (!eq(v[u.index], u.old)) bad("wrong old value"); v[u.index] = u.value; }
            }
            if (v.size() != sn[i].v.size()) bad("lead to a different size");
            for (size_t k = 0; k < v.size(); ++k) if (!(es[i].approx ? close(v[k], sn[i].v[k], 1e-9) : same(v[k], sn[i].v[k]))) bad("lead to different contents");
            if (es[i].a->size_diff(s) != (i64)sn[i].v.size() - (i64)before[i].v.size()) bad("reported size change ", es[i].a->size_diff(s));
        }
    }
    void check_bounds(const std::vector<NA>& sn) {
        for (size_t i = 0; i < es.size(); ++i) {
            auto a = es[i].a; double lo = a->min(), hi = a->max();
            double slack = es[i].approx ? 1e-9 : 0;
            bool over = false;  // ranges that overflow are not in the scope of the property
            for (int k : es[i].preds) if (!(es[k].a->min() > -1e100 && es[k].a->max() < 1e100)) over = true;
            if (over || es[i].btaint) continue;  // known finding S04-slice
            for (double x : sn[i].v) {
                if (!(x >= lo || (slack && x >= lo - slack * (1 + std::fabs(lo)))) || !(x <= hi || (slack && x <= hi + slack * (1 + std::fabs(hi))))) fail("value ", x, " of ", es[i].desc, " outside of its reported range [", lo, ", ", hi, "]");
                if (a->integral() && (es[i].approx ? !close(x, std::round(x), 1e-9) : x != std::round(x))) fail("value ", x, " of ", es[i].desc, " reported integral");
            }
            if (a->logical() && (!a->integral() || lo < 0 || hi > 1)) fail("logical() of ", es[i].desc);
        }
    }
    void check_sizes(State& s, const std::vector<NA>& sn) {
        for (size_t i = 0; i < es.size(); ++i) {
            auto a = es[i].a;
            auto st = a->shape();
            for (size_t d = 0; d < st.size(); ++d) if ((d || st[d] >= 0) && st[d] != sn[i].shape[d]) fail(es[i].desc, " has current shape ", str(sn[i].shape));
            if (a->size() >= 0 && a->size() != (i64)sn[i].v.size()) fail("fixed size ", a->size(), " of ", es[i].desc, " but ", sn[i].v.size(), " elements");
            i64 n = sn[i].v.size();
            if (es[i].sliced) continue;  // known finding S04-slice
            for (int depth = 0; depth <= 3; ++depth) {
                SizeInfo si = depth == 0 ? a->sizeinfo() : a->sizeinfo().substitute(depth);
                std::ostringstream o; o << si;
                if (si.min && n < *si.min) fail("size ", n, " of ", es[i].desc, " below its reported minimum ", *si.min, " (substitution depth ", depth, ")");
                if (si.max && n > *si.max) fail("size ", n, " of ", es[i].desc, " above its reported maximum ", *si.max, " (substitution depth ", depth, ")");
                if (si.array_ptr) {
                    i64 m = si.array_ptr->size(s);
                    i64 num = si.multiplier.numerator() * m + si.offset * si.multiplier.denominator();
                    i64 den = si.multiplier.denominator();
                    if (num >= 0 && num % den == 0 ? num / den != n : std::fabs((double)num / den - n) >= 1 && !(num < 0 && n == 0)) fail("size ", n, " of ", es[i].desc, " is not ", si.multiplier.numerator(), "/", den, " * ", m, " + ", si.offset, " (substitution depth ", depth, ")");
                } else if (si.offset != n) fail("size ", n, " of ", es[i].desc, " is not the reported ", si.offset);
                if (a->size() >= 0) break;
            }
        }
    }
    void same_all(const std::vector<NA>& x, const std::vector<NA>& y, const char* what, bool loose = true) {
        for (size_t i = 0; i < es.size(); ++i) if (!equal(x[i], y[i], loose && es[i].approx)) fail(what, " ", es[i].desc, "\n   has        ", x[i].s(), "\n   should be  ", y[i].s());
    }
    void clean(State& s, const char* what) {
        for (auto& e : es) {
            if (e.a->diff(s).size()) fail("after ", what, " ", e.desc, " still has recorded updates");
            if (e.a->size_diff(s)) fail("after ", what, " ", e.desc, " still reports a size change");
        }
    }

    void run(int steps) {
        g.topological_sort();
        State s = g.empty_state();
        for (auto& d : decs) d.init(s);
        State twin = g.empty_state();
        for (auto& d : decs) d.init_same(s, twin);
        g.initialize_state(s);
        bool R1 = prop == "R01", R2 = prop == "R02", R3 = prop == "R03", R4 = prop == "R04", B = prop == "B01", S = prop == "S04", M = prop[0] == 'M';
        if (R1) g.initialize_state(twin);
        auto committed = snapshot(s);
        if (M) check_ref(committed, prop, "initially");
        if (B) check_bounds(committed);
        if (S) check_sizes(s, committed);
        if (R3 || R2) clean(s, "initialisation");
        bool reverted = false;
        for (int step = 0; step < steps; ++step) {
            std::vector<Move> mv; std::vector<const Node*> src;
            int k = r.in(1, 5);
            for (int i = 0; i < k && decs.size(); ++i) {
                auto& d = r.pick(decs);
                auto m = d.move(s);
                if (!m) continue;
                note("  ", m->first);
                m->second(s); mv.push_back(m->second);
                if (std::find(src.begin(), src.end(), d.n) == src.end()) src.push_back(d.n);
            }
            auto ch = Graph::descendants(s, src);
            note("  propagate");
            g.propagate(s, std::span<const Node*>(ch));
            auto now = snapshot(s);
            if (M) check_ref(now, prop, "after propagation");
            if (R4) check_fresh(s, now);
            if (R3) check_diff(s, committed, now);
            if (B) check_bounds(now);
            if (S) check_sizes(s, now);
            bool rev = r.chance(1, 2);
            note(rev ? "  revert" : "  commit");
            if (rev) g.revert(s, std::span<const Node*>(ch)); else g.commit(s, std::span<const Node*>(ch));
            auto after = snapshot(s);
            if (rev) {
                if (R1) { same_all(after, committed, "after revert", false); clean(s, "revert"); reverted = true; }
                if (R2) same_all(after, committed, "after commit, change and revert", false);
            } else {
                if (R2) { same_all(after, now, "after commit", false); clean(s, "commit"); }
                if (R1) {
                    for (auto& m : mv) m(twin);
                    auto c2 = Graph::descendants(twin, src);
                    g.propagate(twin, std::span<const Node*>(c2)); g.commit(twin, std::span<const Node*>(c2));
                    if (reverted) same_all(after, snapshot(twin), "compared to the same history without the reverted changes,");
                }
            }
            committed = after;
        }
    }
};

static void go(Rng& r, const std::string& prop) {
    Model m(r, prop);
    int leaves = r.in(1, 3);
    for (int i = 0; i < leaves; ++i) m.leaf();
    int ops = r.in(1, 5);
    static const std::map<std::string, std::vector<int>> focus = {{"M01", {0, 1, 2, 3, 4}}, {"M02", {5, 6, 7}}, {"M03", {8, 9, 10, 11, 12, 13, 14, 15}}, {"M04", {16}}, {"S04", {11, 13, 10, 1, 0, 4}}};
    auto it = focus.find(prop);
    for (int i = 0; i < ops; ++i) {
        if (it != focus.end() && r.chance(2, 3)) m.op(r.pick(it->second));
        else m.op(r.in(0, 16));
    }
    m.run(r.in(2, 8));
}

int main(int argc, char** argv) {
    std::map<std::string, std::function<void(Rng&, i64)>> t;
    for (std::string p : {"R01", "R02", "R03", "R04", "M01", "M02", "M03", "M04", "B01", "S04"}) t[p] = [p](Rng& r, i64) { go(r, p); };
    return drive(argc, argv, t);
}
