// Intrinsics of the verifier: interpreted by /verif/engine, never linked.
#pragma once
#include <cstdint>
#include <sys/types.h>
#include <typeinfo>
#include <cassert>
extern "C" {
ssize_t vf_i64(const char*) noexcept;
double vf_f64(const char*) noexcept;
bool vf_bool(const char*) noexcept;
void vf_assume(bool) noexcept;
void vf_assert(bool, const char*) noexcept;
void vf_vec_d(void*, const char*) noexcept;   // make a std::vector<double> arbitrary
void vf_vec_u(void*, const char*) noexcept;   // make a std::vector<Update> arbitrary
void vf_vec_i(void*, const char*) noexcept;   // make a std::vector<ssize_t> arbitrary
void vf_vec_n(void*, const char*) noexcept;   // make a std::vector<int> arbitrary
void vf_vec_c(void*, const char*) noexcept;   // make a std::vector<std::pair<int, double>> arbitrary
void* vf_focus(void* vec, size_t size, ssize_t index, const char*) noexcept;   // the element of a vector at one index, as an object of its own
void* vf_heap(const void* prototype, size_t size, ssize_t n, const char*) noexcept;     // any number of objects of one class
void vf_field(void* heap, size_t offset, size_t bytes, const char*) noexcept;           // their members of that offset are arbitrary (0 bytes: double)
void vf_refs(void* vec, void* heap, size_t delta, const char*) noexcept;                // make a std::vector of pointers arbitrary: any objects of the heap (delta: of which base)
void vf_rows(void* member, void* heap, size_t delta, const char*, size_t stride) noexcept;   // a std::vector of pointers in every object of a heap
void vf_nullable(void* heap) noexcept;                                                    // pointers to its objects may be null
void vf_call(const char* function, ...);                                                  // calls the function of that (demangled) name
bool vf_callb(const char* function, ...);
void vf_reffield(void* member, void* heap, size_t delta, const char*) noexcept;         // a pointer in every object of a heap
double* vf_arr_d(const char*, ssize_t) noexcept;
ssize_t* vf_arr_i(const char*, ssize_t) noexcept;
void vf_label(const void*, const char*) noexcept;
void vf_pre(const char*) noexcept;
void vf_point(const char*) noexcept;
}
