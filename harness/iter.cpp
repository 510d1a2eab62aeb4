#include "vf.hpp"
#include "dwave-optimization/array.hpp"
using namespace dwave::optimization;
using It = Array::const_iterator;
// an iterator over a strided array of any dimension, at any location
#define ARRAY \
    ssize_t n = vf_i64("n"); ssize_t *shape = vf_arr_i("shape", n), *strides = vf_arr_i("strides", n); const double* data = vf_arr_d("data", vf_i64("size"));
#define AT(it, name) \
    ssize_t p_##it = vf_i64("at_" name); It it(data + p_##it, n, shape, strides); \
    delete[] it.shape_->loc.release(); it.shape_->loc.reset(vf_arr_i("loc_" name, n > 0 ? n - 1 : 0)); vf_label(it.shape_->loc.get(), "loc_" name);
#define POS(it, name) ssize_t e_##it = it.get() - data; vf_label(&e_##it, "end_" name); vf_label(it.shape_->loc.get(), "loc_" name);
#define DROP(it) it.shape_->loc.release();
extern "C" {
void h_inc() { ARRAY AT(a, "a") vf_pre("pre"); ++a; POS(a, "a") vf_point("end"); DROP(a) }
void h_dec() { ARRAY AT(a, "a") vf_pre("pre"); --a; POS(a, "a") vf_point("end"); DROP(a) }
void h_add() { ARRAY AT(a, "a") ssize_t k = vf_i64("k"); vf_pre("pre"); a += k; POS(a, "a") vf_point("end"); DROP(a) }
void h_new() { ARRAY vf_pre("pre"); It a(data, n, shape, strides); POS(a, "a") vf_point("end"); }
void h_copy() { ARRAY AT(a, "a") vf_pre("pre"); It b(a); POS(a, "a") POS(b, "b") vf_assert(a.shape_->loc.get() != b.shape_->loc.get() || n < 2, "the copy has a location of its own"); vf_point("end"); DROP(a) DROP(b) }
void h_dist() { ARRAY AT(a, "a") AT(b, "b") vf_pre("pre"); ssize_t r = a - b; vf_label(&r, "r"); POS(a, "a") POS(b, "b") vf_point("end"); DROP(a) DROP(b) }
void h_flat() {
    const double* data = vf_arr_d("data", vf_i64("size")); ssize_t i = vf_i64("i"), j = vf_i64("j"), k = vf_i64("k");
    It a(data + i), b(data + j); vf_pre("pre");
    ssize_t d = a - b; bool eq = a == b, ne = a != b, lt = a < b, le = a <= b, gt = a > b, ge = a >= b;
    vf_assert(d == i - j, "distance"); vf_assert(eq == (i == j), "=="); vf_assert(ne == (i != j), "!=");
    vf_assert(lt == (i < j), "<"); vf_assert(le == (i <= j), "<="); vf_assert(gt == (i > j), ">"); vf_assert(ge == (i >= j), ">=");
    It c = a; ++c; vf_assert(c.get() == data + i + 1, "++"); vf_assert(a.get() == data + i, "++ leaves other iterators alone");
    c = a; --c; vf_assert(c.get() == data + i - 1, "--");
    It o = c++; vf_assert(o.get() == data + i - 1 && c.get() == data + i, "postfix ++");
    o = c--; vf_assert(o.get() == data + i && c.get() == data + i - 1, "postfix --");
    c = a + k; vf_assert(c.get() == data + i + k, "+"); c = k + a; vf_assert(c.get() == data + i + k, "+ (left)");
    c = a - k; vf_assert(c.get() == data + i - k, "-"); c = a; c -= k; vf_assert(c.get() == data + i - k, "-=");
    vf_assert(a.get() == data + i && b.get() == data + j, "no operation changes the others");
    double x = *a; vf_assert(x == data[i] || x != x, "dereferences to the element"); vf_label(&x, "x");
    vf_point("end");
}
void h_mask() {
    ssize_t size = vf_i64("size"); const double *data = vf_arr_d("data", size), *mask = vf_arr_d("mask", size); double fill = vf_f64("fill");
    ssize_t i = vf_i64("i"), k = vf_i64("k");
    It a(data + i, mask + i, &fill), b(data, mask, &fill); vf_pre("pre");
    double x = *a; vf_label(&x, "x"); vf_assert(a - b == i, "distance");
    It c = a; ++c; vf_assert(c.get() == data + i + 1 && c.mask_->mask_ptr == mask + i + 1, "++ moves both");
    c = a; --c; vf_assert(c.get() == data + i - 1 && c.mask_->mask_ptr == mask + i - 1, "-- moves both");
    c = a; c += k; vf_assert(c.get() == data + i + k && c.mask_->mask_ptr == mask + i + k, "+= moves both");
    c = a - k; vf_assert(c.get() == data + i - k && c.mask_->mask_ptr == mask + i - k, "- moves both");
    vf_assert(a.get() == data + i && a.mask_->mask_ptr == mask + i, "copies are independent");
    vf_point("end");
}
void h_order() { ARRAY AT(a, "a") AT(b, "b") vf_pre("pre"); bool lt = a < b, le = a <= b, gt = a > b, ge = a >= b; ssize_t d = a - b; 
    vf_assert(lt == (d < 0), "<"); vf_assert(le == (d <= 0), "<="); vf_assert(gt == (d > 0), ">"); vf_assert(ge == (d >= 0), ">="); POS(a, "a") POS(b, "b") vf_point("end"); DROP(a) DROP(b) }
}
