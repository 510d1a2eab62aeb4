#include "vf.hpp"
#include "dwave-optimization/array.hpp"
#include "../src/array.cpp"
using namespace dwave::optimization;
extern "C" {
void h_size() { ssize_t n = vf_i64("n"); ssize_t* shape = vf_arr_i("shape", n); vf_pre("pre"); ssize_t r = Array::shape_to_size(n, shape); vf_label(&r, "r"); vf_point("end"); }
void h_strides() { ssize_t n = vf_i64("n"); ssize_t* shape = vf_arr_i("shape", n); vf_pre("pre"); auto r = Array::shape_to_strides(n, shape); if (r) vf_label(r.get(), "strides"); vf_point("end"); }
void h_contiguous() { ssize_t n = vf_i64("n"); ssize_t *shape = vf_arr_i("shape", n), *strides = vf_arr_i("strides", n); vf_pre("pre"); ssize_t r = Array::is_contiguous(n, shape, strides); vf_label(&r, "r"); vf_point("end"); }
void h_broadcast() { std::vector<ssize_t> a, b; vf_vec_i(&a, "lhs"); vf_vec_i(&b, "rhs"); vf_pre("pre"); std::vector<ssize_t> r = broadcast_shape(std::span<const ssize_t>(a), std::span<const ssize_t>(b)); vf_label(&r, "r"); vf_point("end"); }
void h_unravel() { ssize_t i = vf_i64("i"); std::vector<ssize_t> strides; vf_vec_i(&strides, "strides"); vf_pre("pre"); std::vector<ssize_t> r = unravel_index(strides, i); vf_label(&r, "r"); vf_point("end"); }
void h_ravel() { std::vector<ssize_t> strides, ind; vf_vec_i(&strides, "strides"); vf_vec_i(&ind, "ind"); vf_pre("pre"); ssize_t r = ravel_multi_index(std::span<const ssize_t>(strides), std::span<const ssize_t>(ind)); vf_label(&r, "r"); vf_point("end"); }
}
