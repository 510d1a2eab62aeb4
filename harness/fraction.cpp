#include "vf.hpp"
#include "dwave-optimization/array.hpp"
#include "../src/array.cpp"
using namespace dwave::optimization;
#define FR(f, n, d) fraction f; f.numerator_ = vf_i64(n); f.denominator_ = vf_i64(d);
#define END(f) vf_label(&f, "f"); vf_point("end");
struct Arr final : Array {     // an array of which only the size information matters
    SizeInfo info;
    const double* buff(const State&) const override { return nullptr; }
    std::span<const Update> diff(const State&) const override { return {}; }
    ssize_t ndim() const override { return 1; }
    bool contiguous() const override { return true; }
    std::span<const ssize_t> shape(const State&) const override { return {}; }
    std::span<const ssize_t> shape() const override { return {}; }
    std::span<const ssize_t> strides() const override { return {}; }
    ssize_t size() const override { return -1; }
    ssize_t size(const State&) const override { return 0; }
    SizeInfo sizeinfo() const override { return info; }
};
static void any(SizeInfo& s, const char* n, const char* d, const char* o, const char* hl, const char* l, const char* hh, const char* h) {
    s.multiplier.numerator_ = vf_i64(n); s.multiplier.denominator_ = vf_i64(d); s.offset = vf_i64(o);
    ssize_t vl = vf_i64(l), vh = vf_i64(h); bool bl = vf_bool(hl), bh = vf_bool(hh);
    if (bl) s.min = vl; else s.min = std::nullopt;
    if (bh) s.max = vh; else s.max = std::nullopt;
}
static ssize_t out[7];
static void report(const SizeInfo& r) {
    out[0] = r.multiplier.numerator_; out[1] = r.multiplier.denominator_; out[2] = r.offset;
    out[3] = r.min.has_value(); out[4] = r.min.value_or(0); out[5] = r.max.has_value(); out[6] = r.max.value_or(0);
    vf_label(out, "out");
}
extern "C" {
void h_ctor1() { ssize_t n = vf_i64("n"); vf_pre("pre"); fraction f(n); END(f) }
void h_ctor() { ssize_t n = vf_i64("n"), d = vf_i64("d"); vf_pre("pre"); fraction f(n, d); END(f) }
void h_muli() { FR(f, "n", "d") ssize_t k = vf_i64("k"); vf_pre("pre"); f *= k; END(f) }
void h_muli2() { FR(g, "n", "d") ssize_t k = vf_i64("k"); vf_pre("pre"); fraction f = g * k; END(f) }
void h_mulf() { FR(f, "n", "d") FR(g, "n2", "d2") vf_pre("pre"); f *= g; END(f) }
void h_divi() { FR(f, "n", "d") ssize_t k = vf_i64("k"); vf_pre("pre"); f /= k; END(f) }
void h_divi2() { FR(g, "n", "d") ssize_t k = vf_i64("k"); vf_pre("pre"); fraction f = g / k; END(f) }
void h_eq() { FR(f, "n", "d") FR(g, "n2", "d2") vf_pre("pre"); ssize_t r = f == g; vf_label(&r, "r"); vf_point("end"); }
void h_eqi() { FR(f, "n", "d") ssize_t k = vf_i64("k"); vf_pre("pre"); ssize_t r = f == k; vf_label(&r, "r"); vf_point("end"); }
void h_int() { FR(f, "n", "d") vf_pre("pre"); ssize_t r = static_cast<ssize_t>(f); vf_label(&r, "r"); vf_point("end"); }
// one substitution: the size in terms of A, and the size of A in terms of B
void h_substitute() {
    Arr A, B;
    SizeInfo s(&A);
    any(s, "n", "d", "o", "hmin", "min", "hmax", "max");
    A.info.array_ptr = vf_bool("rooted") ? static_cast<const Array*>(&A) : static_cast<const Array*>(&B);
    any(A.info, "n2", "d2", "o2", "hmin2", "min2", "hmax2", "max2");
    vf_pre("pre");
    SizeInfo r = s.substitute();
    report(r);
    ssize_t same = r.array_ptr == A.info.array_ptr || r.multiplier == 0, self = r.array_ptr == &A;
    vf_label(&same, "same"); vf_label(&self, "self");
    vf_point("end");
}
// a size that does not refer to an array, or no depth left: unchanged
void h_substitute_none() {
    Arr A;
    SizeInfo s;
    bool none = vf_bool("none");
    if (!none) s.array_ptr = &A;
    any(s, "n", "d", "o", "hmin", "min", "hmax", "max");
    A.info.array_ptr = &A;
    ssize_t depth = vf_i64("depth");
    vf_pre("pre");
    if (!none && depth > 0) return;
    SizeInfo r = s.substitute(depth);
    report(r);
    vf_assert(r.array_ptr == s.array_ptr, "the array referred to is kept");
    vf_point("end");
}
}
