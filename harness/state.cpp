#include "vf.hpp"
#include "_state.hpp"
using namespace dwave::optimization;
#define SETUP \
    ArrayNodeStateData d{std::vector<double>()}; \
    vf_vec_d(&d.buffer, "buffer"); vf_vec_u(&d.updates, "updates"); \
    d.previous_size_ = vf_i64("previous_size"); vf_label(&d.previous_size_, "previous_size");
extern "C" {
void h_set() { SETUP ssize_t i = vf_i64("i"); double x = vf_f64("x"); vf_pre("pre"); bool r = d.set(i, x); vf_point("end"); }
void h_exchange() { SETUP ssize_t i = vf_i64("i"), j = vf_i64("j"); vf_pre("pre"); d.exchange(i, j); vf_point("end"); }
void h_emplace_back() { SETUP double x = vf_f64("x"); vf_pre("pre"); d.emplace_back(x); vf_point("end"); }
void h_pop_back() { SETUP vf_pre("pre"); d.pop_back(); vf_point("end"); }
void h_assign() { SETUP std::vector<double> vals; vf_vec_d(&vals, "values"); vf_pre("pre"); d.assign(vals); vf_point("end"); }
void h_update() { SETUP std::vector<Update> ups; vf_vec_u(&ups, "in"); vf_pre("pre"); d.update(ups); vf_point("end"); }
void h_revert() { SETUP vf_pre("pre"); d.revert(); vf_point("end"); }
void h_commit() { SETUP vf_pre("pre"); d.commit(); vf_point("end"); }
void h_size_diff() { SETUP vf_pre("pre"); ssize_t r = d.size_diff(); vf_label(&r, "r"); vf_point("end"); }
void h_diff() { SETUP vf_pre("pre"); auto sp = d.diff(); ssize_t n = sp.size(); vf_label(&n, "n"); vf_assert(n == 0 || sp.data() == d.updates.data(), "diff() exposes the recorded updates"); vf_point("end"); }
}
