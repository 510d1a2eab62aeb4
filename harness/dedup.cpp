#include "vf.hpp"
#include "../src/utils.cpp"
using namespace dwave::optimization;
extern "C" {
void h_dedup() { std::vector<Update> diff; vf_vec_u(&diff, "diff"); vf_pre("pre"); deduplicate_diff(diff); vf_point("end"); }
void h_integer() { double x = vf_f64("x"); vf_pre("pre"); ssize_t r = is_integer(x); vf_label(&r, "r"); vf_point("end"); }
}
