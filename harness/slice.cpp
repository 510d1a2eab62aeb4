#include "vf.hpp"
#include "dwave-optimization/array.hpp"
using namespace dwave::optimization;
#define OPT(n) (vf_bool("has_" n) ? std::optional<ssize_t>(vf_i64(n)) : std::optional<ssize_t>())
#define PARTS std::optional<ssize_t> a = OPT("start"), b = OPT("stop"), c = OPT("step"); \
    ssize_t has[3] = {a.has_value(), b.has_value(), c.has_value()}, arg[3] = {a.value_or(0), b.value_or(0), c.value_or(1)}; \
    vf_label(has, "has"); vf_label(arg, "arg");
extern "C" {
void h_construct() { PARTS vf_pre("pre"); Slice s(a, b, c); vf_label(&s, "s"); vf_point("end"); }
void h_fit() { PARTS ssize_t n = vf_i64("n"); vf_pre("pre"); Slice s(a, b, c); Slice f = s.fit(n); ssize_t k = f.size(); vf_label(&f, "f"); vf_label(&k, "k"); vf_point("end"); }
void h_fit_at() { PARTS ssize_t n = vf_i64("n"); vf_pre("pre"); Slice s(a, b, c); Slice f = s.fit_at(n); vf_label(&f, "f"); vf_point("end"); }
void h_size() { Slice s; s.start = vf_i64("start"); s.stop = vf_i64("stop"); s.step = vf_i64("step"); vf_pre("pre"); std::size_t k = s.size(); vf_label(&k, "k"); vf_point("end"); }
void h_empty() { PARTS vf_pre("pre"); Slice s(a, b, c); ssize_t k = s.empty(); vf_label(&k, "k"); vf_point("end"); }
}
