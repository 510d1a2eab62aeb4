// An operand: any contiguous array that keeps the Array interface (its recorded updates describe what changed).
#pragma once
#include "vf.hpp"
#include "_state.hpp"
#include "dwave-optimization/graph.hpp"
namespace {
using namespace dwave::optimization;
struct Leaf : ArrayOutputMixin<ArrayNode> {
    template <class S> explicit Leaf(S shape) : ArrayOutputMixin(shape) {}
    Leaf(std::initializer_list<ssize_t> shape) : ArrayOutputMixin(shape) {}
    ArrayNodeStateData* d = nullptr;
    mutable ssize_t sh[4];
    double lo = 0, hi = 0;
    bool whole = false;
    double const* buff(const State&) const override { return d->buffer.data(); }
    std::span<const Update> diff(const State&) const override { return d->updates; }
    using ArrayOutputMixin::size;
    ssize_t size(const State&) const override { ssize_t s = ArrayOutputMixin::size(); return s >= 0 ? s : static_cast<ssize_t>(d->buffer.size()); }
    using ArrayOutputMixin::shape;
    std::span<const ssize_t> shape(const State&) const override {
        if (ArrayOutputMixin::size() >= 0) return ArrayOutputMixin::shape();
        sh[0] = d->buffer.size();
        return std::span<const ssize_t>(sh, 1);
    }
    ssize_t size_diff(const State&) const override { return d->size_diff(); }
    double min() const override { return lo; }
    double max() const override { return hi; }
    bool integral() const override { return whole; }
    void commit(State&) const override {}
    void revert(State&) const override {}
};
}
// an operand of one dimension: S is its size (-1: dynamic), its contents are any
#define OPERAND(x, i, ...) Leaf x __VA_ARGS__; x.topological_index_ = i; x.d = new ArrayNodeStateData{std::vector<double>()}; state[i].reset(x.d); \
    vf_vec_d(&x.d->buffer, #x); vf_vec_u(&x.d->updates, "u" #x); x.d->previous_size_ = vf_i64("p" #x); \
    x.lo = vf_f64(#x "lo"); x.hi = vf_f64(#x "hi"); x.whole = vf_bool(#x "int");
// an operand of which only the shape and the declared range matter
#define BARE(x, ...) Leaf x __VA_ARGS__; x.lo = vf_f64(#x "lo"); x.hi = vf_f64(#x "hi"); x.whole = vf_bool(#x "int");
#define NODESTATE(node, i) node.topological_index_ = i; auto* nd = new ArrayNodeStateData{std::vector<double>()}; state[i].reset(nd); \
    vf_vec_d(&nd->buffer, "buffer"); vf_vec_u(&nd->updates, "updates"); nd->previous_size_ = vf_i64("previous_size"); vf_label(&nd->previous_size_, "previous_size");
#define NODEAFTER(i) auto* nd = static_cast<ArrayNodeStateData*>(state[i].get()); \
    vf_label(&nd->buffer, "buffer"); vf_label(&nd->updates, "updates"); vf_label(&nd->previous_size_, "previous_size");

#define BOUNDS vf_label(&lo, "lo"); vf_label(&hi, "hi"); vf_label(&r, "r"); ssize_t whole = node.integral(); vf_label(&whole, "whole");
