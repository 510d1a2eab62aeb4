// Shared pieces of the native drivers: deterministic random numbers, a reference n-d array, failure reporting.
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <variant>
#include <vector>

using i64 = long;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    i64 in(i64 lo, i64 hi) { return lo + (i64)(next() % (uint64_t)(hi - lo + 1)); }
    bool chance(int num, int den) { return in(1, den) <= num; }
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[in(0, (i64)v.size() - 1)]; }
};

struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };

// what happened so far in the current case; written to the replay on failure, and to fd 3 / a file before dangerous calls
inline std::ostringstream LOG;

template <class... A>
std::string cat(const A&... a) { std::ostringstream o; o.precision(17); (o << ... << a); return o.str(); }

template <class... A>
void note(const A&... a) {
    static const bool loud = getenv("VFLOG") != nullptr;
    LOG.precision(17);
    (LOG << ... << a) << "\n";
    if (loud) { auto m = cat(a..., "\n"); ssize_t w = write(2, m.data(), m.size()); (void)w; }
}

template <class... A>
[[noreturn]] void fail(const A&... a) { throw Failure(cat(a...)); }

template <class R>
std::string str(const R& r) {
    std::ostringstream o; o.precision(17); o << "["; bool first = true;
    for (const auto& x : r) { if (!first) o << ", "; first = false; o << x; }
    o << "]"; return o.str();
}

inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b, double tol) { return same(a, b) || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }

struct NA {
    std::vector<i64> shape;
    std::vector<double> v;
    i64 size() const { i64 n = 1; for (auto s : shape) n *= s; return n; }
    i64 ndim() const { return (i64)shape.size(); }
    std::string s() const { return cat("shape ", str(shape), " values ", str(v)); }
    std::vector<i64> strides() const {
        std::vector<i64> st(shape.size(), 1);
        for (i64 i = (i64)shape.size() - 2; i >= 0; --i) st[i] = st[i + 1] * shape[i + 1];
        return st;
    }
};
inline bool equal(const NA& a, const NA& b, bool approx = false) {
    if (a.shape != b.shape || a.v.size() != b.v.size()) return false;
    for (size_t i = 0; i < a.v.size(); ++i)
        if (approx ? !close(a.v[i], b.v[i], 1e-7) : !same(a.v[i], b.v[i])) return false;
    return true;
}

// iterate all multi-indices of a shape
inline bool next_index(std::vector<i64>& ix, const std::vector<i64>& shape) {
    for (i64 d = (i64)shape.size() - 1; d >= 0; --d) {
        if (++ix[d] < shape[d]) return true;
        ix[d] = 0;
    }
    return false;
}

// Every driver: main(prop, seed, iterations, seconds[, only-case]).  Case i uses seed (seed, i) only, so that a failing
// case can be replayed alone.
inline int drive(int argc, char** argv, const std::map<std::string, std::function<void(Rng&, i64)>>& table) {
    if (argc < 5) { std::cerr << "usage: driver PROP SEED ITERS SECONDS [CASE]\n"; return 2; }
    std::string prop = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    i64 iters = atol(argv[3]);
    double secs = atof(argv[4]);
    i64 only = argc > 5 ? atol(argv[5]) : -1;
    auto it = table.find(prop);
    if (it == table.end()) { std::cerr << "unknown property\n"; return 2; }
    auto t0 = std::chrono::steady_clock::now();
    i64 done = 0;
    for (i64 i = only >= 0 ? only : 0; i < iters || only >= 0; ++i) {
        if (only < 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        LOG.str(""); LOG.clear();
        // progress marker: if the code under test crashes the last marker names the case
        char buf[64]; int n = snprintf(buf, sizeof buf, "%ld\n", i);
        if (lseek(9, 0, SEEK_SET) >= 0) { ssize_t w = write(9, buf, n); (void)w; }
        Rng r(seed * 1000003 + (uint64_t)i);
        try {
            it->second(r, i);
        } catch (const Failure& f) {
            std::cout << "FAIL case " << i << "\n" << LOG.str() << "=> " << f.what() << std::endl;
            return 1;
        } catch (const std::exception& e) {
            std::cout << "FAIL case " << i << "\n" << LOG.str() << "=> unexpected exception: " << e.what() << std::endl;
            return 1;
        }
        ++done;
        if (only >= 0) break;
    }
    std::cout << "OK " << done << " cases" << std::endl;
    return 0;
}
