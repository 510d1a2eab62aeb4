// Native stand-in / counterexample search for the decision variables: lists and sets (D01), disjoint sets and lists (D02),
// integers and binaries (D03).  Every state is compared with a plain model of the decision after every operation.
#include "common.hpp"
#include "dwave-optimization/array.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
#include "dwave-optimization/state.hpp"
using namespace dwave::optimization;

static std::vector<double> visible(const Array* a, const State& s) {
    i64 n = a->size(s);
    auto sh = a->shape(s);
    i64 m = 1; for (auto d : sh) m *= d;
    if (m != n) fail("size ", n, " but shape ", str(sh));
    const double* p = a->buff(s);
    return std::vector<double>(p, p + n);
}
// the recorded updates lead from the committed values to the current ones
static void check_diff(const Array* a, const State& s, const std::vector<double>& old, const std::vector<double>& now, const char* what) {
    auto v = old;
    for (const auto& u : a->diff(s)) {
        i64 i = u.index;
        if (u.placed()) { if (i != (i64)v.size()) fail(what, ": placed at ", i, " in an array of ", v.size()); v.push_back(u.value); }
        else if (u.removed()) { if (i != (i64)v.size() - 1 || v.back() != u.old) fail(what, ": removed ", u.old, " at ", i, " from ", str(v)); v.pop_back(); }
        else { if (i < 0 || i >= (i64)v.size() || v[i] != u.old) fail(what, ": changed ", i, " from ", u.old, " in ", str(v)); v[i] = u.value; }
    }
    if (v != now) fail(what, ": the recorded updates give ", str(v), " but the values are ", str(now));
    if (a->size_diff(s) != (i64)now.size() - (i64)old.size()) fail(what, ": size_diff ", a->size_diff(s));
}
static double junk(Rng& r, i64 n) {
    switch (r.in(0, 7)) {
        case 0: return -1; case 1: return (double)n; case 2: return 0.5; case 3: return std::nan(""); case 4: return -0.25;
        case 5: return std::numeric_limits<double>::infinity(); case 6: return n + 3; default: return r.in(-2, n + 1);
    }
}

static void D01(Rng& r, i64) {
    bool set = r.chance(1, 2);
    i64 n = r.in(0, 7), lo = n, hi = n;
    if (r.chance(2, 3)) { lo = r.in(-1, n + 1); hi = r.in(-1, n + 1); if (lo > hi && r.chance(5, 6)) std::swap(lo, hi); }
    note(set ? "set" : "list", " of range(", n, ") with size in [", lo, ", ", hi, "]");
    bool ok = lo >= 0 && hi >= 0 && lo <= hi && hi <= n;
    Graph g; CollectionNode* c = nullptr;
    try { if (set) c = g.emplace_node<SetNode>(n, lo, hi); else c = g.emplace_node<ListNode>(n, lo, hi); } catch (const std::invalid_argument&) { if (ok) fail("rejected"); if (g.num_nodes()) fail("kept"); return; }
    if (!ok) fail("accepted");
    if (c->size() != (lo == hi ? lo : -1)) fail("size() is ", c->size());
    if (c->min() > 0 || c->max() < n - 1 || !c->integral()) fail("range of values [", c->min(), ", ", c->max(), "]");
    State s = g.empty_state();
    std::vector<double> vis, hid;
    if (r.chance(1, 3)) {
        c->Node::initialize_state(s); s[0].reset();
        static_cast<const Node*>(c)->initialize_state(s);
        note("default state");
        vis = visible(c, s);
    } else {
        std::vector<double> all(n), v; for (i64 i = 0; i < n; ++i) all[i] = i;
        for (i64 i = n - 1; i > 0; --i) std::swap(all[i], all[r.in(0, i)]);
        i64 k = r.in(lo, hi); if (r.chance(1, 8)) k = r.in(0, n);
        v.assign(all.begin(), all.begin() + k);
        if (k && r.chance(1, 4)) v[r.in(0, k - 1)] = r.chance(1, 2) ? v[r.in(0, k - 1)] : junk(r, n);
        if (r.chance(1, 12)) v.push_back(junk(r, n));
        note("contents ", str(v));
        bool good = (i64)v.size() >= lo && (i64)v.size() <= hi; std::set<double> seen;
        for (auto x : v) { if (!(x >= 0 && x < n && x == std::floor(x)) || seen.count(x)) good = false; else seen.insert(x); }
        try { c->initialize_state(s, v); } catch (const std::invalid_argument&) { if (good) fail("valid contents rejected"); if (s[0]) fail("rejected, but kept"); return; }
        if (!good) fail("invalid contents accepted");
        vis = visible(c, s);
        if (vis != v) fail("the state is ", str(vis));
    }
    auto check = [&](const char* what) {
        std::set<double> d;
        auto now = visible(c, s);
        if ((i64)now.size() < lo || (i64)now.size() > hi) fail(what, ": size ", now.size());
        for (auto x : now) if (!(x >= 0 && x < n && x == std::floor(x)) || !d.insert(x).second) fail(what, ": state ", str(now));
        return now;
    };
    vis = check("initial state");
    auto committed = vis; auto old_hidden = hid;
    RngAdaptor rng{std::mt19937((unsigned)r.next())};
    for (i64 k = r.in(0, 12); k > 0; --k) {
        i64 sz = vis.size();
        switch (r.in(0, 7)) {
            case 0: case 1: if (n) {
                i64 i = r.in(0, n - 1), j = r.in(0, n - 1);
                if (lo == hi && lo < n) { if (!sz) break; i = r.in(0, sz - 1); }
                note("exchange ", i, " ", j); c->exchange(s, i, j); auto now = check("exchange");
                if ((i64)now.size() != sz) fail("exchange changed the size");
                auto want = vis;
                if (i < sz && j < sz) std::swap(want[i], want[j]);
                else if (i < sz || j < sz) { i64 p = std::min(i, j), q = p; want[q] = now[q]; if (std::find(vis.begin(), vis.end(), now[q]) != vis.end()) fail("exchange with a hidden element gives ", str(now)); }
                if (now != want) fail("exchange of ", str(vis), " gives ", str(now)); } break;
            case 2: case 3: if (sz) {
                i64 i = r.in(0, sz - 1), j = r.in(0, sz - 1);
                note("rotate ", i, " ", j); c->rotate(s, i, j); auto now = check("rotate");
                auto want = vis; double x = want[j]; want.erase(want.begin() + j); want.insert(want.begin() + i, x);
                if (now != want) fail("rotate of ", str(vis), " gives ", str(now)); } break;
            case 4: if (lo != hi && sz < hi) { note("grow"); c->grow(s); auto now = check("grow");
                if ((i64)now.size() != sz + 1 || !std::equal(vis.begin(), vis.end(), now.begin())) fail("grow of ", str(vis), " gives ", str(now)); } break;
            case 5: if (lo != hi && sz > lo) { note("shrink"); c->shrink(s); auto now = check("shrink");
                if ((i64)now.size() != sz - 1 || !std::equal(now.begin(), now.end(), vis.begin())) fail("shrink of ", str(vis), " gives ", str(now)); } break;
            case 6: note("default move"); c->default_move(s, rng); check("default move"); break;
            case 7: if (r.chance(1, 2)) { note("commit"); c->commit(s); if (visible(c, s) != vis) fail("commit changed the state"); committed = vis; }
                    else { note("revert"); c->revert(s); if (visible(c, s) != committed) fail("revert gives ", str(visible(c, s)), " instead of ", str(committed)); }
                    if (!c->diff(s).empty()) fail("updates left"); break;
        }
        vis = check("afterwards");
        check_diff(c, s, committed, vis, "afterwards");
    }
}

static void D02sets(Rng& r) {
    i64 n = r.in(-1, 6), m = r.in(0, 4);
    if (r.chance(5, 6)) { n = r.in(0, 6); m = r.in(1, 4); }
    note(m, " disjoint bit sets of range(", n, ")");
    bool ok = n >= 0 && m >= 1;
    Graph g; DisjointBitSetsNode* c = nullptr;
    try { c = g.emplace_node<DisjointBitSetsNode>(n, m); } catch (const std::invalid_argument&) { if (ok) fail("rejected"); return; }
    if (!ok) fail("accepted");
    std::vector<DisjointBitSetNode*> out;
    for (i64 k = 0; k < m; ++k) { out.push_back(g.emplace_node<DisjointBitSetNode>(c)); if (out.back()->set_index() != k) fail("index of output ", k); }
    try { g.emplace_node<DisjointBitSetNode>(c); fail("too many outputs"); } catch (const std::length_error&) {}
    State s = g.empty_state();
    std::vector<std::vector<double>> v(m, std::vector<double>(n, 0));
    if (r.chance(1, 4)) { note("default state"); c->initialize_state(s); }
    else {
        for (i64 i = 0; i < n; ++i) v[r.in(0, m - 1)][i] = 1;
        if (n && r.chance(1, 3)) { i64 i = r.in(0, n - 1), k = r.in(0, m - 1); v[k][i] = 1 - v[k][i]; if (r.chance(1, 2)) { i = r.in(0, n - 1); k = r.in(0, m - 1); v[k][i] = 1 - v[k][i]; } }
        if (n && r.chance(1, 10)) v[r.in(0, m - 1)][r.in(0, n - 1)] = junk(r, 2);
        if (r.chance(1, 12)) v.resize(r.in(0, m + 1));
        if (v.size() && r.chance(1, 12)) v[r.in(0, (i64)v.size() - 1)].resize(r.in(0, n + 1));
        for (auto& x : v) note("contents ", str(x));
        bool good = (i64)v.size() == m;
        for (auto& x : v) { if ((i64)x.size() != n) good = false; for (auto y : x) if (y != 0 && y != 1) good = false; }
        if (good) for (i64 i = 0; i < n; ++i) { int c = 0; for (auto& x : v) c += x[i]; if (c != 1) good = false; }
        try { c->initialize_state(s, v); } catch (const std::invalid_argument&) { if (good) fail("valid contents rejected"); if (s[0]) fail("rejected, but kept"); return; }
        if (!good) fail("invalid contents accepted");
    }
    g.initialize_state(s);
    auto cur = [&] { std::vector<std::vector<double>> w; for (auto o : out) w.push_back(visible(o, s)); return w; };
    if (s.size() && v != cur() && v != std::vector<std::vector<double>>(m, std::vector<double>(n, 0))) fail("another initial state");
    v = cur();
    auto check = [&](const char* what) {
        auto w = cur();
        for (auto& x : w) if ((i64)x.size() != n) fail(what, ": size");
        for (i64 i = 0; i < n; ++i) { i64 in = 0, where = -1; for (i64 k = 0; k < m; ++k) { if (w[k][i] != 0 && w[k][i] != 1) fail(what, ": value"); if (w[k][i]) { ++in; where = k; } }
            if (in != 1) fail(what, ": element ", i, " is in ", in, " sets");
            if (c->get_containing_set_index(s, i) != where) fail(what, ": containing set of ", i); }
        return w;
    };
    check("initial state");
    auto committed = v;
    RngAdaptor rng{std::mt19937((unsigned)r.next())};
    for (i64 q = r.in(0, 12); q > 0; --q) {
        switch (r.in(0, 3)) {
            case 0: case 1: if (n) { i64 a = r.in(0, m - 1), b = r.in(0, m - 1), i = r.in(0, n - 1); note("swap_between_sets ", a, " ", b, " element ", i);
                c->swap_between_sets(s, a, b, i); std::swap(v[a][i], v[b][i]); if (cur() != v) fail("swap_between_sets"); } break;
            case 2: note("default move"); c->default_move(s, rng); break;
            case 3: { bool com = r.chance(1, 2); note(com ? "commit" : "revert"); if (com) { c->commit(s); committed = v; } else c->revert(s);
                if (cur() != committed) fail("another state"); for (auto o : out) if (!o->diff(s).empty()) fail("updates left"); } break;
        }
        v = check("afterwards");
        for (i64 k = 0; k < m; ++k) check_diff(out[k], s, committed[k], v[k], "afterwards");
    }
}

static void D02lists(Rng& r) {
    i64 n = r.in(-1, 6), m = r.in(0, 4);
    if (r.chance(5, 6)) { n = r.in(0, 6); m = r.in(1, 4); }
    note(m, " disjoint lists of range(", n, ")");
    bool ok = n >= 0 && m >= 1;
    Graph g; DisjointListsNode* c = nullptr;
    try { c = g.emplace_node<DisjointListsNode>(n, m); } catch (const std::invalid_argument&) { if (ok) fail("rejected"); return; }
    if (!ok) fail("accepted");
    std::vector<DisjointListNode*> out;
    for (i64 k = 0; k < m; ++k) { out.push_back(g.emplace_node<DisjointListNode>(c)); if (out.back()->list_index() != k) fail("index of output ", k); }
    try { g.emplace_node<DisjointListNode>(c); fail("too many outputs"); } catch (const std::length_error&) {}
    State s = g.empty_state();
    std::vector<std::vector<double>> v(m);
    bool given = !r.chance(1, 4);
    if (!given) { note("default state"); c->initialize_state(s); }
    else {
        for (i64 i = 0; i < n; ++i) { auto& l = v[r.in(0, m - 1)]; l.insert(l.begin() + r.in(0, l.size()), i); }
        if (r.chance(1, 4)) { auto& l = v[r.in(0, m - 1)]; if (l.size()) { if (r.chance(1, 3)) l.pop_back(); else l[r.in(0, (i64)l.size() - 1)] = r.chance(1, 2) ? junk(r, n) : l[0]; } else l.push_back(junk(r, n)); }
        if (r.chance(1, 12)) v.resize(r.in(0, m + 1));
        for (auto& x : v) note("contents ", str(x));
        bool good = (i64)v.size() == m; std::set<double> seen; i64 cnt = 0;
        for (auto& x : v) for (auto y : x) { ++cnt; if (!(y >= 0 && y < n && y == std::floor(y))) good = false; else seen.insert(y); }
        if (cnt != n || (i64)seen.size() != n) good = false;
        try { c->initialize_state(s, v); } catch (const std::invalid_argument&) { if (good) fail("valid contents rejected"); if (s[0]) fail("rejected, but kept"); return; }
        if (!good) fail("invalid contents accepted");
    }
    g.initialize_state(s);
    auto cur = [&] { std::vector<std::vector<double>> w; for (auto o : out) w.push_back(visible(o, s)); return w; };
    if (given && v != cur()) fail("another initial state");
    v = cur();
    auto check = [&](const char* what) {
        auto w = cur(); std::set<double> seen;
        for (i64 k = 0; k < m; ++k) { if (c->get_disjoint_list_size(s, k) != (i64)w[k].size()) fail(what, ": size of list ", k);
            for (auto y : w[k]) if (!(y >= 0 && y < n && y == std::floor(y)) || !seen.insert(y).second) fail(what, ": element ", y, " in list ", k); }
        if ((i64)seen.size() != n) fail(what, ": an element is missing");
        return w;
    };
    check("initial state");
    auto committed = v;
    RngAdaptor rng{std::mt19937((unsigned)r.next())};
    for (i64 q = r.in(0, 12); q > 0; --q) {
        i64 a = r.in(0, m - 1), b = r.in(0, m - 1); i64 sa = v[a].size();
        switch (r.in(0, 5)) {
            case 0: if (sa) { i64 i = r.in(0, sa - 1), j = r.in(0, sa - 1); note("swap_in_list ", a, ": ", i, " ", j); c->swap_in_list(s, a, i, j); std::swap(v[a][i], v[a][j]); if (cur() != v) fail("swap_in_list"); } break;
            case 1: if (sa) { i64 i = r.in(0, sa - 1), j = r.in(0, sa - 1); note("rotate_in_list ", a, ": ", i, " ", j); c->rotate_in_list(s, a, i, j);
                double x = v[a][j]; v[a].erase(v[a].begin() + j); v[a].insert(v[a].begin() + i, x); if (cur() != v) fail("rotate_in_list"); } break;
            case 2: if (sa && a != b) { i64 i = r.in(0, sa - 1), j = r.in(0, v[b].size()); note("pop_to_list ", a, "[", i, "] -> ", b, "[", j, "]"); c->pop_to_list(s, a, i, b, j);
                double x = v[a][i]; v[a].erase(v[a].begin() + i); v[b].insert(v[b].begin() + j, x); if (cur() != v) fail("pop_to_list"); } break;
            case 3: note("default move"); c->default_move(s, rng); break;
            case 4: { // a new partition, list by list
                std::vector<std::vector<double>> w(m); for (i64 i = 0; i < n; ++i) { auto& l = w[r.in(0, m - 1)]; l.insert(l.begin() + r.in(0, l.size()), i); }
                for (i64 k = 0; k < m; ++k) { note("set_state ", k, " ", str(w[k])); c->set_state(s, k, std::span<const double>(w[k])); }
                v = w; if (cur() != v) fail("set_state"); } break;
            case 5: { bool com = r.chance(1, 2); note(com ? "commit" : "revert"); if (com) { c->commit(s); committed = v; } else c->revert(s);
                if (cur() != committed) fail("another state"); for (auto o : out) if (!o->diff(s).empty()) fail("updates left"); } break;
        }
        v = check("afterwards");
        for (i64 k = 0; k < m; ++k) check_diff(out[k], s, committed[k], v[k], "afterwards");
    }
}
static void D02(Rng& r, i64) { if (r.chance(1, 2)) D02sets(r); else D02lists(r); }

static void D03(Rng& r, i64) {
    bool bin = r.chance(1, 3);
    std::vector<ssize_t> shape(r.in(0, 2)); for (auto& d : shape) d = r.in(r.chance(1, 5) ? 0 : 1, 3);
    i64 n = 1; for (auto d : shape) n *= d;
    auto bnd = [&]() -> std::optional<int> { switch (r.in(0, 7)) { case 0: return std::nullopt; case 1: return 2000000000; case 2: return -2000000000; case 3: return (int)r.in(-2147483647, 2147483647); default: return (int)r.in(-6, 6); } };
    std::optional<int> lo, hi;
    if (bin) { lo = 0; hi = 1; } else { lo = bnd(); hi = bnd(); }
    i64 L = lo.value_or(0), H = hi.value_or(2000000000);
    note(bin ? "binary" : "integer", " ", str(shape), " in [", L, ", ", H, "]");
    bool ok = L <= H && L >= -2000000000 && H <= 2000000000;
    Graph g; IntegerNode* c = nullptr; BinaryNode* b = nullptr;
    try { if (bin) c = b = g.emplace_node<BinaryNode>(std::span<const ssize_t>(shape)); else c = g.emplace_node<IntegerNode>(std::span<const ssize_t>(shape), lo, hi); } catch (const std::invalid_argument&) { if (ok) fail("rejected"); return; }
    if (!ok) fail("accepted");
    if (c->lower_bound() != L || c->upper_bound() != H || c->min() > L || c->max() < H || !c->integral() || c->size() != n) fail("bounds");
    auto valid = [&](double x) { return x >= L && x <= H && x == std::floor(x); };
    State s = g.empty_state(); std::vector<double> v;
    RngAdaptor rng{std::mt19937((unsigned)r.next())};
    auto cur = [&] { auto w = visible(c, s); for (i64 i = 0; i < n; ++i) if (c->get_value(s, i) != w[i]) fail("get_value"); return w; };
    auto check = [&](const char* what) { auto w = cur(); for (auto x : w) if (!valid(x)) fail(what, ": ", x); return w; };
    auto some = [&] { i64 a = std::max<i64>(L, -10), z = std::min<i64>(H, 10); if (a > z || r.chance(1, 8)) return (double)(r.chance(1, 2) ? L : H); return (double)r.in(a, z); };
    switch (r.in(0, 2)) {
        case 0: note("default state"); c->initialize_state(s); break;
        case 1: note("random state"); c->initialize_state(s, rng); break;
        default: {
            v.resize(r.chance(1, 10) ? r.in(0, n + 1) : n); for (auto& x : v) x = some();
            if (v.size() && r.chance(1, 3)) { const double J[] = {L - 1.0, H + 1.0, L + 0.5, H - 0.5, std::nan(""), -INFINITY, INFINITY, (double)H, 1e300}; v[r.in(0, (i64)v.size() - 1)] = J[r.in(0, 8)]; }
            note("contents ", str(v));
            bool good = (i64)v.size() == n; for (auto x : v) if (!valid(x)) good = false;
            auto w = v;
            try { if (r.chance(1, 2)) c->initialize_state(s, std::move(w)); else c->initialize_state(s, std::span<const double>(v)); } catch (const std::invalid_argument&) { if (good) fail("valid contents rejected"); if (s[0]) fail("rejected, but kept"); return; }
            if (!good) fail("invalid contents accepted");
            if (cur() != v) fail("another state");
        }
    }
    v = check("initial state");
    auto committed = v;
    for (i64 q = r.in(0, 12); q > 0; --q) {
        i64 i = n ? r.in(0, n - 1) : 0, j = n ? r.in(0, n - 1) : 0;
        switch (r.in(0, 5)) {
            case 0: case 1: if (n) {
                if (bin && r.chance(2, 3)) { int k = r.in(0, 2); note(k == 0 ? "flip " : k == 1 ? "set " : "unset ", i); double x = k == 0 ? 1 - v[i] : k == 1 ? 1 : 0; bool ch = true; if (k == 0) b->flip(s, i); else ch = k == 1 ? b->set(s, i) : b->unset(s, i);
                    if (ch != (x != v[i]) && k) fail("reports ", ch); v[i] = x; if (cur() != v) fail("flip/set/unset"); break; }
                double x = some(); if (r.chance(1, 4)) x = r.chance(1, 2) ? L - 1.0 : H + 1.0; if (std::fabs(x) > 2147483647) break;
                note("set_value ", i, " ", x); bool ch = false;
                try { ch = c->set_value(s, i, (int)x); } catch (const std::invalid_argument&) { if (valid(x)) fail("rejected"); if (cur() != v) fail("rejected, but changed"); break; }
                if (!valid(x)) fail("accepted"); if (ch != (x != v[i])) fail("reports ", ch); v[i] = x; if (cur() != v) fail("set_value"); } break;
            case 2: if (n) { note("exchange ", i, " ", j); bool ch = c->exchange(s, i, j); if (ch != (v[i] != v[j])) fail("reports ", ch); std::swap(v[i], v[j]); if (cur() != v) fail("exchange"); } break;
            case 3: case 4: note("default move"); c->default_move(s, rng); break;
            case 5: { bool com = r.chance(1, 2); note(com ? "commit" : "revert"); if (com) { c->commit(s); committed = v; } else c->revert(s); if (cur() != committed) fail("another state"); if (!c->diff(s).empty()) fail("updates left"); } break;
        }
        v = check("afterwards");
        check_diff(c, s, committed, v, "afterwards");
    }
}

int main(int argc, char** argv) { return drive(argc, argv, {{"D01", D01}, {"D02", D02}, {"D03", D03}}); }
