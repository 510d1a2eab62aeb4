From 1cc42c4067d1010719da4f0e857b1b5ad309834b Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:29:26 +0000
Subject: [PATCH 01/24] fix: record the old value of the updated element in
 ConcatenateNode::propagate()

---
 dwave/optimization/src/nodes/manipulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index b6584dc..7c3413a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -160,7 +160,7 @@ void ConcatenateNode::propagate(State& state) const {
             auto update_it = view_it + diff.index;
             ssize_t buffer_index = &*update_it - ptr->buffer.data();
             assert(*update_it == diff.old);
-            ptr->updates.emplace_back(buffer_index, *view_it, diff.value);
+            ptr->updates.emplace_back(buffer_index, *update_it, diff.value);
             *update_it = diff.value;
         }
     }
-- 
2.43.0


From b69e2b0762d846b721d126463e2aa681bbed1549 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:29:26 +0000
Subject: [PATCH 02/24] fix: do not leave a dangling successor when
 ConcatenateNode rejects its inputs

---
 dwave/optimization/src/nodes/manipulation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 7c3413a..614863a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -40,12 +40,15 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
         array_starts_.emplace_back(prod + array_starts_[arr_i - 1]);
     }
 
+    // Check all of the inputs before we add ourselves as a successor to any of them
     for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
         if ((*it)->dynamic()) {
             throw std::invalid_argument(
                 "concatenate input arrays cannot be dynamic");
         }
+    }
 
+    for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
         this->add_predecessor((*it));
     }
 }
-- 
2.43.0


From fe2797fc21738dfd41f42421a8e016da549b8ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:29:26 +0000
Subject: [PATCH 03/24] fix: PermutationNode::propagate() for arrays that are
 not 2-dimensional

---
 dwave/optimization/src/nodes/indexing.cpp | 25 ++++++++++++-----------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 36f4615..8ae3399 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1716,30 +1716,31 @@ void PermutationNode::propagate(State& state) const {
         const double* start = array_ptr_->buff(state);
 
         ssize_t mul = std::pow(n, ndim - 1);
-        ssize_t step = 1;
 
         for (ssize_t dim = 0; dim < ndim; ++dim) {
             for (auto& [index, old, neo] : order_diff) {
                 ssize_t stride = strides[dim] / array_ptr_->itemsize();
 
-                for (ssize_t i = index * mul, end = i + step * n; i < end; i += step) {
-                    old_offsets.emplace_back(offsets[i]);
+                // visit every element whose index along axis dim is index
+                for (ssize_t base = index * mul; base < this->size(); base += mul * n) {
+                    for (ssize_t i = base, end = base + mul; i < end; ++i) {
+                        old_offsets.emplace_back(offsets[i]);
 
-                    offsets[i] += stride * (neo - old);
+                        offsets[i] += stride * (neo - old);
 
-                    // We do end up updating some of the indices more than once. We could
-                    // instead put placeholder values, then later do a deduplication step
-                    // and then value update. If we find that we're doing lots of redundant
-                    // work
-                    double old_value = values[i];
-                    values[i] = start[offsets[i]];
+                        // We do end up updating some of the indices more than once. We could
+                        // instead put placeholder values, then later do a deduplication step
+                        // and then value update. If we find that we're doing lots of redundant
+                        // work
+                        double old_value = values[i];
+                        values[i] = start[offsets[i]];
 
-                    updates.emplace_back(i, old_value, values[i]);
+                        updates.emplace_back(i, old_value, values[i]);
+                    }
                 }
             }
 
             mul /= n;
-            step *= n;
         }
     }
 
-- 
2.43.0


From 501f269ab69aaf102fdb0f1296c68be1c379f790 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:29:26 +0000
Subject: [PATCH 04/24] fix: BinaryOpNode with a dynamic operand whose current
 size is 1

---
 dwave/optimization/src/nodes/mathematical.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index de0a08d..214a459 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -81,7 +81,7 @@ void BinaryOpNode<BinaryOp>::initialize_state(State& state) const {
     auto func = op();
     std::vector<double> values;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // This is the easy case - all we need to do is iterate over both as flat arrays
         values.reserve(lhs_ptr->size(state));
 
@@ -267,7 +267,7 @@ void BinaryOpNode<BinaryOp>::propagate(State& state) const {
     auto& values = ptr->buffer;
     auto& changes = ptr->updates;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // The easy case, just go through both predecessors making updates.
         if (lhs_ptr->diff(state).size() && rhs_ptr->diff(state).size()) {
             // Both modified
@@ -366,12 +366,10 @@ template <class BinaryOp>
 std::span<const ssize_t> BinaryOpNode<BinaryOp>::shape(const State& state) const {
     if (!this->dynamic()) return this->shape();
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || operands_[1]->size(state) == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? operands_[1]->shape(state) : operands_[0]->shape(state);
+    return operands_[0]->dynamic() ? operands_[0]->shape(state) : operands_[1]->shape(state);
 }
 
 template <class BinaryOp>
-- 
2.43.0


From cd6cd5e0796f3628c74a80a72f3a96420545664d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:29:26 +0000
Subject: [PATCH 05/24] fix: reject binary operations that would add a leading
 dimension to a dynamic array

---
 dwave/optimization/src/nodes/mathematical.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 214a459..0c86fb8 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -40,6 +40,10 @@ BinaryOpNode<BinaryOp>::BinaryOpNode(ArrayNode* a_ptr, ArrayNode* b_ptr)
     } else if (!std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         throw std::invalid_argument("arrays must have the same shape or one must be a scalar");
     }
+    if (this->dynamic() && this->shape()[0] >= 0) {
+        // a dynamic array can only be dynamic along its 0th axis
+        throw std::invalid_argument("cannot add leading dimensions to a dynamic array");
+    }
 
     if constexpr (std::is_same<BinaryOp, std::divides<double>>::value) {
         bool strictly_negative = rhs_ptr->min() < 0 && rhs_ptr->max() < 0;
-- 
2.43.0


From 10e5478fddfcebf2d2009a1ac19b50e4346be0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:35:39 +0000
Subject: [PATCH 06/24] fix: SizeInfo::substitute() applied the offset and
 multiplier more than once

---
 dwave/optimization/src/array.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index d4fb85a..704d801 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -43,10 +43,15 @@ bool SizeInfo::operator==(const SizeInfo& other) const {
 }
 
 SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
-    if (max_depth <= 0) return *this;
+    // if we're not in terms of another array's size then there is nothing to substitute
+    if (max_depth <= 0 || !this->array_ptr) return *this;
 
     SizeInfo sizeinfo = this->array_ptr->sizeinfo();
 
+    // whether the array's size is only given in terms of itself, in which case there is
+    // nothing left to substitute afterwards
+    const bool root = sizeinfo.array_ptr == this->array_ptr;
+
     // Check if substitution will do nothing, and return if so
     constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
     if (this->array_ptr == sizeinfo.array_ptr && sizeinfo.multiplier == 1 && sizeinfo.offset == 0 &&
@@ -97,7 +102,7 @@ SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
 
     // in the future we can/should do an iterative rather than recurisive
     // version
-    if (max_depth > 1) return sizeinfo.substitute(max_depth - 1);
+    if (max_depth > 1 && !root) return sizeinfo.substitute(max_depth - 1);
     return sizeinfo;
 }
 
-- 
2.43.0


From 58b080216f9066d1d6455dcf80abcd6dd5c9fa45 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:35:39 +0000
Subject: [PATCH 07/24] fix: reject scalar advanced indices on a dynamic array
 sliced in the first dimension

---
 dwave/optimization/src/nodes/indexing.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 8ae3399..fef9dfe 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -331,11 +331,6 @@ struct AdvancedIndexingNode::IndexParser_ {
                     "there must be at least one array-type index to use AdvancedIndexingNode");
         }
 
-        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
-            throw std::invalid_argument(
-                    "Indexed Array cannot be dynamic with an empty slice in the first dimension");
-        }
-
         assert(first_array != nullptr);
 
         if (!bullet1mode && std::holds_alternative<ArrayNode*>(indices_[0])) {
@@ -350,6 +345,11 @@ struct AdvancedIndexingNode::IndexParser_ {
             bullet1mode = true;
         }
 
+        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
+            throw std::invalid_argument(
+                    "Indexed Array cannot be dynamic with an empty slice in the first dimension");
+        }
+
         if (indexing_arrays_ndim > 1) {
             throw std::invalid_argument(
                     "Advanced indexing currently only supports 0- and 1-dimensional indexing "
-- 
2.43.0


From facbae7b625300268ea208993419e568932433f3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:35:39 +0000
Subject: [PATCH 08/24] fix: AdvancedIndexingNode::sizeinfo() ignored the size
 of the subspace

---
 dwave/optimization/src/nodes/indexing.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index fef9dfe..5cd8fdb 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -644,9 +644,23 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
     if (!dynamic()) return SizeInfo(size());
     // when we get around to supporting broadcasting this will need to change
     assert(predecessors().size() >= 2);
-    assert(!dynamic_cast<ArrayNode*>(predecessors()[0])->dynamic() &&
-           "sizeinfo for dynamic base arrays not supported");
-    return SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+    assert(this->ndim() >= 1);
+
+    // The number of elements for each index along our (dynamic) first axis
+    const ssize_t num_per_row = strides()[0] / itemsize();
+
+    if (bullet1mode_) {
+        // The first axis comes from the (1d) indexing arrays
+        auto sizeinfo = SizeInfo(std::get<ArrayNode*>(indices_[first_array_index_]));
+        sizeinfo.multiplier *= num_per_row;
+        return sizeinfo;
+    }
+
+    // The first axis comes from the array being indexed
+    auto sizeinfo = SizeInfo(array_ptr_);
+    sizeinfo.multiplier *= num_per_row;
+    sizeinfo.multiplier /= array_item_strides()[0];
+    return sizeinfo;
 }
 
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
-- 
2.43.0


From 301661f6cc5bb1adf1883f61e33dc24cceac3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:35:39 +0000
Subject: [PATCH 09/24] fix: BasicIndexingNode on dynamic and on non-contiguous
 views

The start of a dynamic slice was scaled by the slice's own step, updates of
non-contiguous views were mapped to the wrong element (or dropped) when the
view has more than one dimension or does not start at the first element, and
views of multi-dimensional dynamic arrays used flat sizes for axis-0 slices.
---
 .../dwave-optimization/nodes/indexing.hpp     |  3 +
 dwave/optimization/src/nodes/indexing.cpp     | 81 ++++++++-----------
 2 files changed, 35 insertions(+), 49 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 79ef55d..5b94c39 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -232,6 +232,9 @@ class BasicIndexingNode : public ArrayNode {
     void update_dynamic_shape(State& state) const;
     ssize_t dynamic_start(ssize_t slice_start) const;
 
+    // Whether propagate() works by comparing the view to a full copy of its previous values
+    bool use_full_cache() const;
+
     // We could do dynamic_cast<Array*>(predecessors[0]), but since there's
     // only one we just go ahead and hold a direct pointer
     const Array* array_ptr_;
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 5cd8fdb..d961f66 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1199,7 +1199,7 @@ void BasicIndexingNode::initialize_state(State& state) const {
         auto node_data = data_ptr<BasicIndexingNodeData>(state);
         node_data->previous_size = size(state);
 
-        if (axis0_slice_.value().start < 0) {
+        if (use_full_cache()) {
             // Initialize the full output cache
             node_data->full_cache_.assign(begin(state), end(state));
         }
@@ -1207,7 +1207,16 @@ void BasicIndexingNode::initialize_state(State& state) const {
 }
 
 ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
-    return slice_start * strides_[0] / static_cast<ssize_t>(sizeof(double));
+    // the slice's start is in terms of the rows of the array we're viewing, so we
+    // don't want our own strides because those include the slice's step
+    return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
+}
+
+bool BasicIndexingNode::use_full_cache() const {
+    // The incremental approach only works for step-1 slices of 1d arrays with a
+    // non-negative start
+    return dynamic() &&
+           (!contiguous_ || array_ptr_->ndim() != 1 || axis0_slice_.value().start < 0);
 }
 
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
@@ -1231,15 +1240,11 @@ void BasicIndexingNode::propagate(State& state) const {
     auto& diff = node_data->diff;
     assert(diff.size() == 0 && "calling propagate on an node with pending updates");
 
-    if (contiguous_ && dynamic() && axis0_slice_.value().start < 0) {
-        assert(this->start_ == 0);
+    if (use_full_cache()) {
         // Do a full recompute of the output using the current data. This could be avoided
         // when the size of the parent array hasn't changed.
         auto& full_cache = node_data->full_cache_;
-        assert(full_cache.size() ==
-                       axis0_slice_.value()
-                               .fit(array_ptr_->size(state) - array_ptr_->size_diff(state))
-                               .size() &&
+        assert(static_cast<ssize_t>(full_cache.size()) == node_data->previous_size &&
                "cache is the wrong size");
 
         update_dynamic_shape(state);
@@ -1452,56 +1457,37 @@ void BasicIndexingNode::propagate(State& state) const {
             diff.emplace_back(index - start, old, value);
         }
 
-    } else if (!dynamic() || (axis0_slice_.value().start >= 0 && axis0_slice_.value().stop >= 0)) {
-        // Handle all other cases of static sized arrays (contiguous and non-contiguous), and the
-        // case of dynamic but with positive start and end
-        assert(!this->contiguous());
+    } else {
+        // Handle the non-contiguous views of static sized arrays
+        assert(!dynamic());
         assert(array_ptr_->contiguous() && "doesn't support non-contiguous arrays");
-
-        if (dynamic()) update_dynamic_shape(state);
-
-        const ssize_t start = this->start_;
-        // distance between pointers in the parent array. Relies on parent
-        // being contiguous
-        assert(array_ptr_->contiguous());
-        const ssize_t stop = &*this->end(state) - &*this->begin(state);
-
-        // A few sanity checks...
-        assert(start >= 0);
-        assert(stop >= start);
         assert(this->ndim() > 0);  // if we're not contiguous we cannot be a scalar
-        // some strided stop after the end to make the math work out.
-        assert(stop <= array_ptr_->size(state) + this->strides()[0] / this->itemsize());
 
-        for (auto [index, old, value] : array_ptr_->diff(state)) {
-            if (index < start) continue;  // before the range we care about
-            if (index >= stop) continue;  // after the range we care about
+        const auto shape = this->shape();
+        const auto strides = this->strides();
 
-            index -= start;
+        for (const auto& [array_index, old, value] : array_ptr_->diff(state)) {
+            // where we are relative to the start of the view in the (contiguous) parent array
+            ssize_t offset = array_index - this->start_;
+            if (offset < 0) continue;  // before the range we care about
 
+            // walk the view's axes, collecting the location along each of them
+            ssize_t index = 0;
             bool skip = false;
-            for (ssize_t stride : this->strides()) {
-                assert(stride % this->itemsize() == 0);
-                // again, we rely on the parent being contiguous!
-                assert(array_ptr_->contiguous());
-                const ssize_t div = stride / this->itemsize();
-
-                if (index % div) {
-                    // we are "between" steps
-                    skip = true;
-                    break;
-                }
+            for (ssize_t axis = 0, ndim = this->ndim(); axis < ndim && !skip; ++axis) {
+                const ssize_t div = strides[axis] / this->itemsize();
+                const ssize_t loc = offset / div;
 
-                index /= div;
+                skip = loc >= shape[axis];  // we're past the end of the axis
+                index = index * shape[axis] + loc;
+                offset -= loc * div;
             }
-            if (skip) continue;
+            if (skip || offset) continue;  // not within the view, or "between" steps
 
             assert(index >= 0 && index < this->size(state));
 
             diff.emplace_back(index, old, value);
         }
-    } else {
-        assert(false && "not yet implemented");
     }
 
     // Only signal successors if we actually have something to propagate
@@ -1515,10 +1501,7 @@ void BasicIndexingNode::revert(State& state) const {
         // todo this is only safe if revert() has been called on the predecessor array
         // first, which isn't safe to assume
         update_dynamic_shape(state);
-        if (axis0_slice_.value().start < 0) {
-            assert(contiguous_ && "not yet implemented");
-            node_data->full_cache_.resize(node_data->previous_size);
-        }
+        // the cache is only ever updated by commit(), so there is nothing to revert there
     }
 }
 
-- 
2.43.0


From c46e2c2ed89af599036f236d4a763659b640edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:36:36 +0000
Subject: [PATCH 10/24] fix: do not change the iterators when calculating the
 distance between them

---
 dwave/optimization/include/dwave-optimization/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 73d3462..a19ea7f 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -452,8 +452,8 @@ class Array {
             difference_type offset = 0;
             ssize_t incs_per_step = 1;  // for each step in the axis how many increment operations
             {
-                ssize_t* target_loc = a.shape_->loc.get();
-                ssize_t* source_loc = b.shape_->loc.get();
+                ssize_t* target_loc = target.shape_->loc.get();
+                ssize_t* source_loc = source.shape_->loc.get();
 
                 for (ssize_t axis = shapeinfo.ndim - 1; axis > 0; --axis) {
                     const ssize_t stride = shapeinfo.strides[axis] / itemsize;
-- 
2.43.0


From 72373994c74b7798dc0f9e0edbf22acc9675c43e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:36:36 +0000
Subject: [PATCH 11/24] fix: the range of SquareNode when its operand can be
 negative

---
 dwave/optimization/src/nodes/mathematical.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 0c86fb8..589f09a 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1799,8 +1799,9 @@ double UnaryOpNode<std::negate<double>>::max() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::max() const {
-    const double max = array_ptr_->max();
-    if (std::abs(max) >= std::sqrt(Array::max())) {
+    // the largest square comes from the value with the largest magnitude
+    const double max = std::max<double>(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (max >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
@@ -1848,8 +1849,11 @@ double UnaryOpNode<std::negate<double>>::min() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::min() const {
-    const double min = array_ptr_->min();
-    if (std::abs(min) >= std::sqrt(Array::max())) {
+    // if the range includes 0 then that's the smallest square
+    if (array_ptr_->min() <= 0 && array_ptr_->max() >= 0) return 0;
+    // otherwise it comes from the value with the smallest magnitude
+    const double min = std::min<double>(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (min >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
-- 
2.43.0


From 581dc4eb372456a837eb5770629cf2e5f7e035d5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 12/24] fix: AdvancedIndexingNode passed on made-up values for
 elements removed and placed again

---
 dwave/optimization/src/nodes/indexing.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index d961f66..12d7523 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -824,6 +824,9 @@ void AdvancedIndexingNode::propagate(State& state) const {
             // Skip any update larger than the current size as it should have been
             // handled by the removals above
             if (update.index >= parent_size) continue;
+            // Anything removed within the current size will be placed again by a later
+            // update, so our value doesn't change until then
+            if (update.removed()) continue;
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
@@ -835,8 +838,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
                     if (offset_idxs_updated.contains(idx)) continue;
                     const ssize_t item_stride = subspace_stride_ / itemsize();
                     const ssize_t new_index = idx * item_stride + mapped_index.second;
-                    assert(data[new_index] == update.old);
-                    diff.emplace_back(new_index, update.old, update.value);
+                    assert(data[new_index] == update.old || update.placed());
+                    diff.emplace_back(new_index, data[new_index], update.value);
                     data[new_index] = update.value;
                 }
             }
@@ -889,6 +892,9 @@ void AdvancedIndexingNode::propagate(State& state) const {
         for (const auto& update : array_ptr_->diff(state)) {
             // Skip any update larger than the unchanged size
             if (update.index >= unchanged_parent_size) continue;
+            // Anything removed within the unchanged size will be placed again by a later
+            // update, so our value doesn't change until then
+            if (update.removed()) continue;
 
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
@@ -900,9 +906,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
                     if (offset_idxs_updated.contains(idx)) continue;
                     ssize_t item_stride = subspace_stride_ / itemsize();
                     ssize_t new_index = idx * item_stride + mapped_index.second;
-                    assert(data[new_index] == update.old ||
-                           (std::isnan(data[new_index]) && update.placed()));
-                    diff.emplace_back(new_index, update.old_or(0), update.value_or(0));
+                    assert(data[new_index] == update.old || update.placed());
+                    diff.emplace_back(new_index, data[new_index], update.value);
                     data[new_index] = update.value;
                 }
             }
-- 
2.43.0


From 1380069c93fc2fa80d99f7d6801f4bb3aafeae48 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:41:22 +0000
Subject: [PATCH 13/24] fix: order of AdvancedIndexingNode's updates when a
 dynamic array changes size

The placements and removals were not in the order of the elements when there
is another sliced axis between the first axis and the indexed axes.
---
 .../dwave-optimization/nodes/indexing.hpp     |  2 +-
 dwave/optimization/src/nodes/indexing.cpp     | 43 +++++++++----------
 2 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 5b94c39..f367cc1 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -103,7 +103,7 @@ class AdvancedIndexingNode : public ArrayNode {
     void fill_subspace(State& state, ssize_t array_offset, std::vector<double>& data,
                        ssize_t index_in_arrays, std::vector<Update>& diff) const;
 
-    template <bool placement, bool removal>
+    template <bool fill_diff>
     void fill_axis0_subspace(State& state, ssize_t axis0_index, ssize_t array_item_offset,
                              std::vector<double>& data, ssize_t index_in_arrays,
                              std::vector<Update>& diff) const;
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 12d7523..6e71075 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -507,7 +507,7 @@ void AdvancedIndexingNode::fill_subspace(State& state, ssize_t array_item_offset
             index_in_arrays * subspace_stride_, starting_output_axis, &diff);
 }
 
-template <bool placement, bool removal>
+template <bool fill_diff>
 void AdvancedIndexingNode::fill_axis0_subspace(State& state, ssize_t axis0_index,
                                                ssize_t array_item_offset, std::vector<double>& data,
                                                ssize_t index_in_arrays,
@@ -515,9 +515,9 @@ void AdvancedIndexingNode::fill_axis0_subspace(State& state, ssize_t axis0_index
     assert(!bullet1mode_ && "fill_axis0_subspace should only be called with bullet 2 mode");
     ssize_t array_offset = axis0_index * array_ptr_->strides()[0] + array_item_offset * itemsize();
     size_t data_offset = axis0_index * strides()[0] + index_in_arrays * subspace_stride_;
-    fill_subspace_recurse<true, placement, removal>(array_ptr_->shape(state),
-                                                    array_ptr_->buff(state), array_offset, 1, data,
-                                                    data_offset, 1, &diff);
+    fill_subspace_recurse<fill_diff, false, false>(array_ptr_->shape(state),
+                                                   array_ptr_->buff(state), array_offset, 1, data,
+                                                   data_offset, 1, &diff);
 }
 
 template <bool fill_diff, bool placement, bool removal>
@@ -853,27 +853,24 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t new_axis0_size = new_parent_size / array_item_strides()[0];
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
-        if (new_axis0_size > old_axis0_size) {
+        // Note that our updates need to be in the order of our own elements, and that other
+        // axes may come before the one(s) due to the indexing arrays.
+        const ssize_t num_per_row = strides()[0] / itemsize();
+        for (ssize_t axis0_idx = old_axis0_size; axis0_idx < new_axis0_size; ++axis0_idx) {
             // Growing, so need placements
-            for (ssize_t axis0_idx = old_axis0_size; axis0_idx < new_axis0_size; ++axis0_idx) {
-                for (ssize_t offset_idx = 0; offset_idx < node_data->offsets_size(); ++offset_idx) {
-                    fill_axis0_subspace<true, false>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
-                }
+            data.resize((axis0_idx + 1) * num_per_row);
+            for (ssize_t offset_idx = 0; offset_idx < node_data->offsets_size(); ++offset_idx) {
+                fill_axis0_subspace<false>(state, axis0_idx, node_data->offsets()[offset_idx],
+                                           data, offset_idx, diff);
+            }
+            for (ssize_t i = axis0_idx * num_per_row; i < (axis0_idx + 1) * num_per_row; ++i) {
+                diff.emplace_back(Update::placement(i, data[i]));
             }
         }
-
-        if (new_axis0_size < old_axis0_size) {
+        while (static_cast<ssize_t>(data.size()) > new_axis0_size * num_per_row) {
             // Shrinking, so need removals
-            for (ssize_t axis0_idx = old_axis0_size - 1; axis0_idx >= new_axis0_size; --axis0_idx) {
-                for (ssize_t offset_idx = node_data->offsets_size() - 1; offset_idx >= 0;
-                     --offset_idx) {
-                    fill_axis0_subspace<false, true>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
-                }
-            }
+            diff.emplace_back(Update::removal(data.size() - 1, data.back()));
+            data.pop_back();
         }
 
         // Now handle the changes to offsets for axis0 indices that are have not just been placed
@@ -882,8 +879,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             for (ssize_t axis0_idx = 0; axis0_idx < unchanged_axis0_size; ++axis0_idx) {
                 assert(!offset_update.placed());
                 assert(!offset_update.removed());
-                fill_axis0_subspace<false, false>(state, axis0_idx, offset_update.value, data,
-                                                  offset_update.index, diff);
+                fill_axis0_subspace<true>(state, axis0_idx, offset_update.value, data,
+                                          offset_update.index, diff);
             }
             offset_idxs_updated.insert(offset_update.index);
         }
-- 
2.43.0


From ab7403199a5f4b579d26d1021149c6b34e45a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:42:46 +0000
Subject: [PATCH 14/24] fix: the range of a min/max reduction with an initial
 value over an array that might be empty

---
 dwave/optimization/src/nodes/mathematical.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 589f09a..2002502 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1299,6 +1299,13 @@ bool ReduceNode<BinaryOp>::integral() const {
     unreachable();
 }
 
+// Whether the given array might not have any elements, and therefore whether a reduction
+// over that array might just be its initial value
+bool maybe_empty(const Array* array_ptr) {
+    if (!array_ptr->dynamic()) return array_ptr->size() == 0;
+    return array_ptr->sizeinfo().substitute(100).min.value_or(0) <= 0;
+}
+
 template <class BinaryOp>
 double ReduceNode<BinaryOp>::max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
@@ -1314,7 +1321,10 @@ double ReduceNode<BinaryOp>::max() const {
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
-        if (init.has_value()) return std::min(init.value(), array_ptr_->max());
+        if (init.has_value()) {
+            if (maybe_empty(array_ptr_)) return init.value();
+            return std::min(init.value(), array_ptr_->max());
+        }
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, std::multiplies<double>>::value) {
@@ -1397,7 +1407,10 @@ double ReduceNode<BinaryOp>::min() const {
     // These can results in inf. If we fix that in initialization/propagation we
     // should also fix it here.
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value) {
-        if (init.has_value()) return std::max(init.value(), array_ptr_->min());
+        if (init.has_value()) {
+            if (maybe_empty(array_ptr_)) return init.value();
+            return std::max(init.value(), array_ptr_->min());
+        }
         return array_ptr_->min();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
-- 
2.43.0


From ca465763362374ae5a5da9b897ac23c3e3bcef82 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 15/24] fix: the size of arrays with 2^31 elements or more

---
 dwave/optimization/include/dwave-optimization/array.hpp | 3 ++-
 dwave/optimization/src/nodes/indexing.cpp               | 3 ++-
 dwave/optimization/src/nodes/manipulation.cpp           | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index a19ea7f..4136b9c 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -841,7 +841,8 @@ class Array {
     static ssize_t shape_to_size(const ssize_t ndim, const ssize_t* shape) noexcept {
         if (ndim <= 0) return 1;
         if (shape[0] < 0) return DYNAMIC_SIZE;
-        return std::reduce(shape, shape + ndim, 1, std::multiplies<ssize_t>());
+        return std::reduce(shape, shape + ndim, static_cast<ssize_t>(1),
+                           std::multiplies<ssize_t>());
     }
 
     // Determine the strides from the shape.
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 6e71075..c33e939 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1533,7 +1533,8 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
         // Here we may be strided, so we use the shape to figure it out.
         auto shape = this->shape();
         ssize_t num_per_row =
-                std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
+                std::reduce(shape.begin() + 1, shape.end(), static_cast<ssize_t>(1),
+                            std::multiplies<ssize_t>());
 
         sizeinfo.multiplier *= num_per_row;
 
diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 614863a..0c5701a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -36,7 +36,8 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
     array_starts_.emplace_back(0);
     for (ssize_t arr_i = 1, stop = array_ptrs.size(); arr_i < stop; ++arr_i) {
         auto subshape = array_ptrs_[arr_i - 1]->shape().last(this->ndim() - axis_);
-        ssize_t prod = std::accumulate(subshape.begin(), subshape.end(), 1, std::multiplies<ssize_t>());
+        ssize_t prod = std::accumulate(subshape.begin(), subshape.end(), static_cast<ssize_t>(1),
+                                       std::multiplies<ssize_t>());
         array_starts_.emplace_back(prod + array_starts_[arr_i - 1]);
     }
 
-- 
2.43.0


From ae40b3fc5bd66981ddecfd40ee169559be65e689 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 16/24] fix: out-of-bounds read in deduplicate_diff() when
 every element was added and removed

---
 dwave/optimization/src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/utils.cpp b/dwave/optimization/src/utils.cpp
index e2ff43d..ae44ea2 100644
--- a/dwave/optimization/src/utils.cpp
+++ b/dwave/optimization/src/utils.cpp
@@ -63,7 +63,7 @@ void deduplicate_diff(std::vector<Update>& diff) {
         }
 
         // In case the very last value is a place and removal, discard it
-        if (diff[new_index].null()) {
+        if (new_index >= 0 && diff[new_index].null()) {
             new_index--;
         }
     }
-- 
2.43.0


From 0b9792ac5087c1dc3c9c4deaf5844da03b60b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 17/24] fix: the default moves of decisions without elements

---
 dwave/optimization/src/nodes/collections.cpp | 6 ++++++
 dwave/optimization/src/nodes/numbers.cpp     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 6dc0ce3..dd66b1f 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -341,6 +341,8 @@ void DisjointBitSetsNode::revert(State& state) const {
 }
 
 void DisjointBitSetsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!primary_set_size_) return;  // there are no elements to move
+
     std::uniform_int_distribution<std::size_t> dist_sets(0, num_disjoint_sets_ - 1);
     std::uniform_int_distribution<std::size_t> dist_el(0, primary_set_size_ - 1);
 
@@ -665,6 +667,8 @@ void DisjointListsNode::pop_to_list(State& state, ssize_t from_list_index, ssize
 void DisjointListsNode::default_move(State& state, RngAdaptor& rng) const {
     auto data = data_ptr<DisjointListStateData>(state);
 
+    if (!primary_set_size_) return;  // there are no elements to move
+
     // choose a list to pop from (list_i) randomly weighted by how many items are in it,
     // and another list to pop to (list_j) uniformly randomly
     size_t list_i = 0;
@@ -746,6 +750,8 @@ ssize_t DisjointListNode::size_diff(const State& state) const {
 }
 
 void ListNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // there are no elements to exchange
+
     std::uniform_int_distribution<std::size_t> dist(0, this->size(state) - 1);
     // This might mean we're selecting the same variable twice.
     // But for large-ish lists that should be quite rare and anyway it's
diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 674dca8..1d9b00f 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -139,6 +139,8 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 }
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // there is nothing to set
+
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
@@ -168,6 +170,8 @@ bool BinaryNode::unset(State& state, ssize_t i) const {
 }
 
 void BinaryNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // there is nothing to flip
+
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     this->flip(state, index_dist(rng));
 }
-- 
2.43.0


From b0c4dd54087b87269cd8d785f967ba3ebd082d0a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 18/24] fix: the default move of integer decisions with a
 negative lower bound

---
 dwave/optimization/src/nodes/numbers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 1d9b00f..7e0211f 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -142,7 +142,7 @@ void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
     if (!this->size(state)) return;  // there is nothing to set
 
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
-    std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
+    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
 }
 
-- 
2.43.0


From 0754321a83b99d77d0e8e09d1e783f8444afab9d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 19/24] fix: reject disjoint bit-sets with an element in no set
 or in several

---
 dwave/optimization/src/nodes/collections.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index dd66b1f..f786994 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -244,7 +244,8 @@ struct DisjointBitSetsNodeData : NodeStateData {
         data.resize(primary_set_size * num_disjoint_sets, 0);
         diffs.resize(num_disjoint_sets);
 
-        ssize_t num_elements = 0;
+        // the number of sets that each element is in
+        std::vector<ssize_t> num_sets(primary_set_size, 0);
 
         for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {
             if (static_cast<ssize_t>(contents[set_index].size()) != primary_set_size) {
@@ -256,13 +257,15 @@ struct DisjointBitSetsNodeData : NodeStateData {
                     throw std::invalid_argument("provided set must be binary valued");
                 }
                 data[set_index * primary_set_size + el_index] = contents[set_index][el_index];
-                num_elements += static_cast<ssize_t>(contents[set_index][el_index]);
+                num_sets[el_index] += static_cast<ssize_t>(contents[set_index][el_index]);
             }
         }
 
-        if (num_elements != primary_set_size) {
-            throw std::invalid_argument(
-                    "disjoint set elements must be in exactly one bit-set once");
+        for (ssize_t el_index = 0; el_index < primary_set_size; ++el_index) {
+            if (num_sets[el_index] != 1) {
+                throw std::invalid_argument(
+                        "disjoint set elements must be in exactly one bit-set once");
+            }
         }
     }
 
-- 
2.43.0


From 49c7a9873ee40113ec5664af9b96cf645fd143ff Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 20/24] fix: reject permutation orders with values out of range

---
 dwave/optimization/src/nodes/indexing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index c33e939..8a06721 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1627,7 +1627,7 @@ PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)
     if (array_shape[0] != order_ptr_->size()) {
         throw std::invalid_argument("array shape and order size mismatch");
     }
-    if (order_ptr_->max() > array_ptr_->size()) {
+    if (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0]) {
         throw std::invalid_argument("order may have values out of range");
     }
 
-- 
2.43.0


From 3ea757d6c67341befcfaf9c74240b7ed270dd5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 21/24] fix: validate the axis of a partial reduction before
 using it

---
 dwave/optimization/src/nodes/mathematical.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 2002502..cd399aa 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -770,6 +770,9 @@ template class NaryOpNode<std::plus<double>>;
 std::vector<ssize_t> partial_reduce_shape(const std::span<const ssize_t> input_shape,
                                           const ssize_t axis) {
     std::vector<ssize_t> shape(input_shape.begin(), input_shape.end());
+    if (axis < 0 || axis >= static_cast<ssize_t>(shape.size())) {
+        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
+    }
     shape.erase(shape.begin() + axis);
     return shape;
 }
-- 
2.43.0


From 5acebbb099e2f76b1b837691fcd9b75f93c79b38 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:53:20 +0000
Subject: [PATCH 22/24] fix: the default state of lists that are shorter than
 their number of values

---
 dwave/optimization/src/nodes/collections.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index f786994..f55eaed 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -768,7 +768,8 @@ void ListNode::initialize_state(State& state) const {
     assert(static_cast<int>(state.size()) > index && "unexpected state length");
     assert(state[index] == nullptr && "already initialized state");
 
-    state[index] = std::make_unique<CollectionStateData>(max_size_);
+    // default to range(max_size_), with the rest of the values hidden
+    state[index] = std::make_unique<CollectionStateData>(max_value_, max_size_);
 }
 
 void SetNode::default_move(State& state, RngAdaptor& rng) const {
-- 
2.43.0


From ecc80f52956420a4102063cc12fde8e9b8865f01 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 16:54:11 +0000
Subject: [PATCH 23/24] fix: out-of-bounds element access for disjoint bit-sets
 of the empty set

---
 dwave/optimization/src/nodes/collections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index f55eaed..a829bfd 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -309,7 +309,7 @@ struct DisjointBitSetsNodeData : NodeStateData {
         }
     }
 
-    double const* get_data(ssize_t set_index) { return &data[set_index * primary_set_size]; }
+    double const* get_data(ssize_t set_index) { return data.data() + set_index * primary_set_size; }
 
     ssize_t primary_set_size;
     ssize_t num_disjoint_sets;
-- 
2.43.0


From 79a0c836b4af4f59f025146962102ac630f8dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 17:18:51 +0000
Subject: [PATCH 24/24] fix: signed overflow when calculating the length of
 extreme slices

---
 .../include/dwave-optimization/array.hpp      | 23 ++++++-------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 4136b9c..ddc448f 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -144,24 +144,15 @@ struct Slice {
     // Unlike most places in dwave-optimization we use unsigned integer here
     // because for unfitted slices these values can exceed the range of ssize_t
     constexpr std::size_t size() const noexcept {
+        // The differences (and -step) might exceed the range of ssize_t, so calculate everything
+        // with unsigned integers
+        const std::size_t ustart = static_cast<std::size_t>(start);
+        const std::size_t ustop = static_cast<std::size_t>(stop);
+        const std::size_t ustep = static_cast<std::size_t>(step);
         if (step < 0) {
-            if (stop < start) {
-                if (start > 0) {
-                    // we might exceed the range of ssize_t
-                    return (static_cast<std::size_t>(start) - stop - 1) / (-step) + 1;
-                }
-                // else both are negative so in range for just ssize_t
-                return (start - stop - 1) / (-step) + 1;
-            }
+            if (stop < start) return (ustart - ustop - 1) / (0 - ustep) + 1;
         } else {
-            if (start < stop) {
-                if (stop > 0) {
-                    // we might exceed the range of ssize_t
-                    return (static_cast<std::size_t>(stop) - start - 1) / step + 1;
-                }
-                // else both are negative so in range for just ssize_t
-                return (stop - start - 1) / step + 1;
-            }
+            if (start < stop) return (ustop - ustart - 1) / ustep + 1;
         }
         return 0;
     }
-- 
2.43.0

