// Native stand-in / counterexample search for the state-free parts: slices (S01), iterators (S02), shapes (S03),
// fractions and size formulas (S04), diff simplification (S05).
#include "common.hpp"
#include "dwave-optimization/array.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
#include "dwave-optimization/utils.hpp"
using namespace dwave::optimization;
using i128 = __int128;
static const i64 MAX = std::numeric_limits<i64>::max(), MIN = std::numeric_limits<i64>::min();

struct Probe : Array { using Array::is_contiguous; using Array::shape_to_size; using Array::shape_to_strides; };

static i64 interesting(Rng& r, i64 n) {
    switch (r.in(0, 5)) {
        case 0: return r.in(-3, 3);
        case 1: return n + r.in(-2, 2);
        case 2: return -n + r.in(-2, 2);
        case 3: return MAX - r.in(0, 3);
        case 4: return MIN + r.in(0, 3);
        default: return r.in(-2 * n - 3, 2 * n + 3);
    }
}

// PySlice_Unpack + PySlice_AdjustIndices in 128 bit arithmetic
struct PS { i128 start, stop, step, len; };
static PS pyfit(std::optional<i64> a, std::optional<i64> b, std::optional<i64> c, i64 n) {
    i128 step = c ? *c : 1, start, stop;
    if (a) { start = *a; if (start < 0) { start += n; if (start < 0) start = step < 0 ? -1 : 0; } else if (start >= n) start = step < 0 ? n - 1 : n; }
    else start = step < 0 ? n - 1 : 0;
    if (b) { stop = *b; if (stop < 0) { stop += n; if (stop < 0) stop = step < 0 ? -1 : 0; } else if (stop >= n) stop = step < 0 ? n - 1 : n; }
    else stop = step < 0 ? -1 : n;
    i128 len = 0;
    if (step < 0) { if (stop < start) len = (start - stop - 1) / (-step) + 1; }
    else if (start < stop) len = (stop - start - 1) / step + 1;
    return {start, stop, step, len};
}
static std::string o(std::optional<i64> v) { return v ? std::to_string(*v) : "None"; }

static void S01(Rng& r, i64) {
    i64 n = r.chance(1, 10) ? MAX - r.in(0, 5) : r.chance(1, 2) ? r.in(0, 6) : r.in(0, 1000000);
    std::optional<i64> a, b, c;
    if (!r.chance(1, 4)) a = interesting(r, n < 1000000 ? n : 100);
    if (!r.chance(1, 4)) b = interesting(r, n < 1000000 ? n : 100);
    if (!r.chance(1, 3)) { c = r.chance(1, 6) ? (r.chance(1, 2) ? MAX : MIN + 1) : r.in(-5, 5); }
    note("slice(", o(a), ", ", o(b), ", ", o(c), ") of a sequence of length ", n);
    if (c && *c == 0) {
        try { Slice s(a, b, c); } catch (const std::invalid_argument&) { return; }
        fail("a step of 0 was accepted");
    }
    Slice s(a, b, c);
    if (s.empty() != (s == Slice())) fail("empty()");
    PS p = pyfit(a, b, c, n);
    Slice f = s.fit(n);
    Slice g = s.fit_at(n);
    if (!(f == g)) fail("fit and fit_at differ");
    if (f.step != (i64)p.step) fail("step ", f.step);
    if ((i128)f.size() != p.len) fail("length ", f.size(), " instead of ", (long)p.len);
    if (f.start != (i64)p.start || f.stop != (i64)p.stop) fail("fitted to ", f.start, ":", f.stop, " instead of ", (long)p.start, ":", (long)p.stop);
    for (i64 k : {(i64)0, (i64)f.size() / 2, (i64)f.size() - 1}) {
        if (k < 0 || k >= (i64)f.size()) continue;
        i128 x = (i128)f.start + (i128)k * f.step;
        if (x < 0 || x >= n) fail("selects index ", (long)x);
    }
    // the length of the slice as it stands
    if (r.chance(1, 2)) {
        i64 x = interesting(r, 10), y = interesting(r, 10), st = r.chance(1, 2) ? r.in(1, 5) : -r.in(1, 5);
        Slice t(x, y, st);
        i128 want = 0;
        if (st < 0) { if (y < x) want = ((i128)x - y - 1) / (-(i128)st) + 1; } else if (x < y) want = ((i128)y - x - 1) / st + 1;
        if ((i128)t.size() != want) fail("size() of slice(", x, ", ", y, ", ", st, ") is ", t.size());
    }
    try { s.fit_at(-1 - r.in(0, 3)); } catch (const std::invalid_argument&) { return; }
    fail("negative length accepted");
}

static void S02(Rng& r, i64) {
    bool masked = r.chance(1, 4);
    i64 nd = masked ? 1 : r.in(1, 4);
    std::vector<i64> shape(nd), strides(nd);
    i64 total = 1;
    for (auto& s : shape) { s = r.in(1, 4); total *= s; }
    // positive strides with no two elements sharing memory (as produced by slicing a contiguous array)
    i64 st = 8;
    for (i64 d = nd - 1; d >= 0; --d) { st *= r.in(1, 3); strides[d] = st; st *= shape[d]; if (r.chance(1, 3)) st += 8 * r.in(0, 3) * 1; }
    i64 span = 1; for (i64 d = 0; d < nd; ++d) span += (strides[d] / 8) * shape[d];
    std::vector<double> mem(span + strides[0] / 8 + 4);
    for (size_t i = 0; i < mem.size(); ++i) mem[i] = (double)i;
    std::vector<double> mask(total + 1), fill{-7};
    for (auto& m : mask) m = r.in(0, 1);
    auto addr = [&](i64 k) {  // address (in items) of the k'th element in row-major order, also one past the end
        i64 inner = 1; for (i64 d = 1; d < nd; ++d) inner *= shape[d];
        i64 q = k / inner, rem = k % inner, off = q * strides[0] / 8;
        for (i64 d = nd - 1; d >= 1; --d) { off += rem % shape[d] * (strides[d] / 8); rem /= shape[d]; }
        return off;
    };
    using It = Array::const_iterator;
    auto make = [&]() { return masked ? It(mem.data(), mask.data(), fill.data()) : It(mem.data(), nd, shape.data(), strides.data()); };
    if (masked) { strides[0] = 8; }
    note(masked ? "masked" : "strided", " iterator, shape ", str(shape), " strides ", str(strides), masked ? " mask " + str(mask) : std::string());
    It a = make(); i64 p = 0;
    It b = make(); i64 q = 0;
    auto check = [&](const It& it, i64 pos) {
        if (it.get() - mem.data() != addr(pos)) fail("at step ", pos, " points to item ", it.get() - mem.data(), " instead of ", addr(pos));
        if (pos < total) {
            double want = masked && mask[pos] ? -7 : mem[addr(pos)];
            if (*it != want) fail("value at step ", pos, " is ", *it, " instead of ", want);
        }
    };
    check(a, 0);
    for (int k = 0; k < 12; ++k) {
        It& it = r.chance(1, 2) ? a : b; i64& pos = &it == &a ? p : q; const char* nm = &it == &a ? "a" : "b";
        switch (r.in(0, 8)) {
            case 0: if (pos < total) { note("++", nm); ++it; ++pos; } break;
            case 1: if (pos > 0) { note("--", nm); --it; --pos; } break;
            case 2: case 3: { i64 d = r.in(-pos, total - pos); note(nm, " += ", d); it += d; pos += d; break; }
            case 4: { i64 d = r.in(pos - total, pos); note(nm, " -= ", d); it -= d; pos -= d; break; }
            case 5: { if (pos < total) { note(nm, "++"); It old = it++; check(old, pos); ++pos; } break; }
            case 6: { i64 d = r.in(-pos, total - pos); note(nm, " + ", d); check(it + d, pos + d); check(d + it, pos + d); if (pos + d < total && it[d] != *(it + d)) fail("subscript ", d); break; }
            case 7: { note("copy"); It c = it; ++k; if (pos < total) { ++c; check(c, pos + 1); --c; } check(c, pos); c = it; check(c, pos); break; }
            case 8: { if (pos > 0) { note(nm, "--"); It old = it--; check(old, pos); --pos; } break; }
        }
        note("  a at ", p, ", b at ", q);
        check(a, p); check(b, q);
        if (a - b != p - q) fail("distance ", a - b, " instead of ", p - q);
        check(a, p); check(b, q);
        if ((a == b) != (p == q)) fail("==");
        if ((a != b) != (p != q)) fail("!=");
        if ((a < b) != (p < q) || (a > b) != (p > q) || (a <= b) != (p <= q) || (a >= b) != (p >= q)) fail("ordering");
        // the comparison must not have moved the iterators
        if (p < total) { It c = a; ++c; check(c, p + 1); }
        if (q > 0) { It c = b; --c; check(c, q - 1); }
    }
}

static void S03(Rng& r, i64) {
    i64 nd = r.in(0, 4);
    bool big = r.chance(1, 8);
    std::vector<i64> shape(nd);
    for (auto& s : shape) s = big ? r.in(1, 60000) : r.in(r.chance(1, 6) ? 0 : 1, 5);
    bool dyn = nd && r.chance(1, 5);
    std::vector<i64> sh = shape; if (dyn) sh[0] = -1;
    note("shape ", str(sh));
    i128 total = 1; for (auto s : shape) total *= s;
    if (total < (i128)1 << 62) {
        i64 got = Probe::shape_to_size(nd, sh.data());
        if (got != (dyn ? -1 : (i64)total)) fail("size ", got, " instead of ", dyn ? -1 : (i64)total);
    }
    auto st = Probe::shape_to_strides(nd, sh.data());
    if (!nd) { if (st) fail("strides of a scalar"); }
    i128 x = 8;
    bool zero = false; for (auto s : shape) zero = zero || s == 0;
    for (i64 d = nd - 1; d >= 0; --d) { if (x < ((i128)1 << 62) && st[d] != (i64)x) fail("stride ", st[d], " in axis ", d, " instead of ", (i64)x); x *= shape[d]; }
    if (!big && nd) {
        if (!Probe::is_contiguous(nd, sh.data(), st.get())) fail("its own strides are not contiguous");
        std::vector<i64> s2(st.get(), st.get() + nd);
        i64 d = r.in(0, nd - 1); s2[d] = s2[d] * r.in(1, 3) + 8 * r.in(0, 1);
        bool want = true;  // contiguous iff the k'th element is at k*8 for all k
        if (!zero && total > 0) {
            std::vector<i64> ix(nd, 0), full = shape; if (dyn) full[0] = 3;
            i64 k = 0; do { i64 off = 0; for (i64 e = 0; e < nd; ++e) off += ix[e] * s2[e]; if (off != k * 8) want = false; ++k; } while (next_index(ix, full));
        }
        bool got = Probe::is_contiguous(nd, sh.data(), s2.data());
        if (got != want && !zero) fail("strides ", str(s2), ": contiguous ", got);
        if (!zero) {
            std::span<const ssize_t> sp(st.get(), nd);
            i64 n = (i64)total;
            for (i64 k = 0; k < n; k += 1 + n / 16) {
                auto u = unravel_index(sp, k);
                std::vector<i64> want(nd); i64 rem = k;
                for (i64 e = nd - 1; e >= 1; --e) { want[e] = rem % shape[e]; rem /= shape[e]; } want[0] = rem;
                if (!std::equal(u.begin(), u.end(), want.begin(), want.end())) fail("unravel_index(", k, ") = ", str(u));
                if (ravel_multi_index(sp, u) != k) fail("ravel_multi_index(", str(u), ") = ", ravel_multi_index(sp, u));
            }
        }
    }
    // broadcasting
    i64 n2 = r.in(0, 4);
    std::vector<i64> t(n2);
    for (i64 k = 0; k < n2; ++k) { i64 m = nd - n2 + k; t[k] = m >= 0 && r.chance(2, 3) ? (r.chance(1, 3) ? 1 : sh[m]) : r.in(0, 3); }
    std::vector<i64> u = sh; for (auto& s : u) if (r.chance(1, 4)) s = 1;
    note("broadcast ", str(u), " with ", str(t));
    bool ok = true; std::vector<i64> want(std::max(u.size(), t.size()));
    for (size_t k = 0; k < want.size(); ++k) {
        i64 p = k < u.size() ? u[u.size() - 1 - k] : 1, q = k < t.size() ? t[t.size() - 1 - k] : 1;
        if (p != q && p != 1 && q != 1) ok = false;
        want[want.size() - 1 - k] = p == 1 ? q : p;
    }
    for (int swap = 0; swap < 2; ++swap) {
        std::vector<ssize_t> got; bool threw = false;
        try { got = swap ? broadcast_shape(std::span<const ssize_t>(t), std::span<const ssize_t>(u)) : broadcast_shape(std::span<const ssize_t>(u), std::span<const ssize_t>(t)); } catch (const std::invalid_argument&) { threw = true; }
        if (threw == ok) fail(ok ? "rejected" : "accepted");
        if (ok && !std::equal(got.begin(), got.end(), want.begin(), want.end())) fail("gives ", str(got), " instead of ", str(want));
    }
    // the same through nodes
    if (!big && !dyn) {
        IntegerNode a{std::span<const ssize_t>(shape)};
        if (a.ndim() != nd || a.size() != (i64)total) fail("a node has size ", a.size(), " and ", a.ndim(), " dimensions");
        if (a.len() != (i64)total * 8) fail("len()");
    }
}

static void S04(Rng& r, i64) {
    auto val = [&] { return r.chance(1, 4) ? r.in(-1000000, 1000000) : r.in(-20, 20); };
    i64 n = val(), d = val();
    note("fraction(", n, ", ", d, ")");
    if (d == 0) { try { fraction f(n, d); } catch (const std::invalid_argument&) { return; } fail("accepted"); }
    fraction f(n, d); i128 N = n, D = d;
    auto check = [&](const fraction& f, const char* what) {
        if (f.denominator() <= 0) fail(what, ": denominator ", f.denominator());
        if (std::gcd(f.numerator(), f.denominator()) != 1) fail(what, ": not in lowest terms ", f.numerator(), "/", f.denominator());
        if ((i128)f.numerator() * D != (i128)f.denominator() * N) fail(what, ": wrong value ", f.numerator(), "/", f.denominator());
        i128 t = N / D; fraction c = f;
        if ((i128)static_cast<ssize_t>(c) != t) fail(what, ": integer part ", static_cast<ssize_t>(c));
        if (static_cast<double>(c) != (double)f.numerator() / (double)f.denominator()) fail(what, ": as double ", static_cast<double>(c));
    };
    check(f, "construction");
    for (int k = 0; k < 3; ++k) {
        i64 x = r.in(-30, 30);
        switch (r.in(0, 3)) {
            case 0: note("*= ", x); f *= x; N *= x; check(f, "product"); break;
            case 1: note("/= ", x); if (!x) { try { f /= x; } catch (const std::invalid_argument&) { continue; } fail("division by 0 accepted"); } f /= x; D *= x; check(f, "quotient"); break;
            case 2: { i64 y = r.in(1, 9); note("*= ", x, "/", y); f *= fraction(x, y); N *= x; D *= y; check(f, "product of fractions"); break; }
            case 3: { note("* ", x); fraction g = f * x; N *= x; check(g, "product"); f = g; break; }
        }
        if ((f == 0) != (N == 0) || (f == (i64)3) != (N == 3 * D)) fail("comparison with an integer");
        i64 a = r.in(-3, 3), b = r.in(1, 3); if ((f == fraction(a, b)) != (N * b == a * D)) fail("comparison with ", a, "/", b);
    }
}

static void S05(Rng& r, i64) {
    // a history of updates of an array, as nodes record them
    std::vector<double> v(r.in(0, 5)); for (auto& x : v) x = r.in(0, 2);
    std::vector<double> before = v; std::vector<Update> d;
    int k = r.chance(1, 4) ? r.in(17, 90) : r.in(0, 12);  // long enough for a sort that is not stable to show
    for (int i = 0; i < k; ++i) {
        int w = r.in(0, 3);
        if (w == 0) { double x = r.in(0, 2); d.push_back(Update::placement(v.size(), x)); v.push_back(x); }
        else if (w == 1) { if (v.size()) { d.push_back(Update::removal(v.size() - 1, v.back())); v.pop_back(); } }
        else if (v.size()) { i64 j = r.in(0, v.size() - 1); double x = r.in(0, 2); d.emplace_back(j, v[j], x); v[j] = x; }
    }
    std::string us; for (auto& u : d) us += cat("(", u.index, ": ", u.old, " -> ", u.value, ") ");
    note("array ", str(before), " updates ", us);
    deduplicate_diff(d);
    us = ""; for (auto& u : d) us += cat("(", u.index, ": ", u.old, " -> ", u.value, ") ");
    note("simplified to ", us);
    std::vector<double> w = before; w.resize(std::max(before.size(), v.size()), NAN);
    for (size_t i = 0; i < d.size(); ++i) {
        auto& u = d[i];
        if (i && d[i - 1].index >= u.index) fail("indices are not strictly increasing");
        if (u.index < 0 || u.index >= (i64)w.size()) fail("update at ", u.index, " of an element that does not exist before or after");
        if (!same(w[u.index], u.old)) fail("old value at ", u.index, " is ", u.old);
        if (u.null()) fail("update from nothing to nothing");
        w[u.index] = u.value;
    }
    for (size_t i = 0; i < w.size(); ++i) if (!same(w[i], i < v.size() ? v[i] : NAN)) fail("element ", i, " becomes ", w[i], " instead of ", i < v.size() ? v[i] : NAN);
}

int main(int argc, char** argv) {
    return drive(argc, argv, {{"S01", S01}, {"S02", S02}, {"S03", S03}, {"S04", S04}, {"S05", S05}});
}
