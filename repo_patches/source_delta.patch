From 7bd10040775708506d543f74269bb3eac227338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:52 +0000
Subject: [PATCH 01/27] fix: small_vector::pop_back destroyed the element past
 the end

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 7e1408f..b993b91 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -767,7 +767,7 @@ namespace gapp
             return *last_++;
         }
 
-        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, last_--); }
+        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
         constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
-- 
2.43.0


From 6cfc4c80202657cea647f54d7e97c61e83659efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:58 +0000
Subject: [PATCH 02/27] fix: small_vector::insert of several elements overwrote
 the tail when it is longer than the inserted range

---
 src/utility/small_vector.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index b993b91..7649da9 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -804,8 +804,8 @@ namespace gapp
                 const difference_type offset = std::distance(cbegin(), pos);
                 const difference_type src_size = difference_type(count);
 
+                const auto insert_pos = first_ + offset;
                 const auto middle = first_ + std::max(ssize() - src_size, offset);
-                const auto moved_size = last_ - middle;
                 const auto old_last   = last_;
                 const auto new_last   = last_ + src_size;
                 const auto new_middle = middle + src_size;
@@ -814,7 +814,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, value);
+                if (src_size != 0) std::move_backward(insert_pos, middle, old_last);
+                detail::assign_range(insert_pos, std::min(insert_pos + src_size, old_last), value);
 
                 return first_ + offset;
             }
@@ -831,6 +832,7 @@ namespace gapp
             {
                 const difference_type offset = std::distance(cbegin(), pos);
 
+                const auto insert_pos = first_ + offset;
                 const auto middle = first_ + std::max(ssize() - src_size, offset);
                 const auto moved_size = last_ - middle;
                 const auto old_last   = last_;
@@ -841,7 +843,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, src_first);
+                if (src_size != 0) std::move_backward(insert_pos, middle, old_last);
+                detail::assign_range(insert_pos, std::min(insert_pos + src_size, old_last), src_first);
 
                 return first_ + offset;
             }
-- 
2.43.0


From a5def6922842b037f428ee4b9bce2c2727b50204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:02 +0000
Subject: [PATCH 03/27] fix: small_vector insert and resize read a dangling
 value when it is an element of the vector

---
 src/utility/small_vector.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 7649da9..6343e9d 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -770,7 +770,14 @@ namespace gapp
         constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
-        constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
+        constexpr void resize(size_type count, const T& value)
+        {
+            if (count <= capacity()) return resize_impl(count, value);
+
+            /* The value might be an element of this vector. */
+            detail::allocator_managed<T, A> new_elem(alloc_, value);
+            resize_impl(count, std::as_const(*new_elem));
+        }
 
         constexpr iterator insert(const_iterator pos, const T& value) { return emplace(pos, value); }
         constexpr iterator insert(const_iterator pos, T&& value) { return emplace(pos, std::move(value)); }
@@ -810,12 +817,15 @@ namespace gapp
                 const auto new_last   = last_ + src_size;
                 const auto new_middle = middle + src_size;
 
-                detail::construct_range(alloc_, last_, new_middle, value);
+                /* The value might be an element of this vector. */
+                detail::allocator_managed<T, A> new_elem(alloc_, value);
+
+                detail::construct_range(alloc_, last_, new_middle, std::as_const(*new_elem));
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
                 if (src_size != 0) std::move_backward(insert_pos, middle, old_last);
-                detail::assign_range(insert_pos, std::min(insert_pos + src_size, old_last), value);
+                detail::assign_range(insert_pos, std::min(insert_pos + src_size, old_last), *new_elem);
 
                 return first_ + offset;
             }
@@ -970,10 +980,10 @@ namespace gapp
 
             detail::alloc_result_t<A> alloc_result = detail::allocate<T>(alloc_, new_capacity);
             detail::scope_exit guard1{ [&] { detail::deallocate(alloc_, alloc_result.data, alloc_result.size); } };
-            detail::relocate_range_weak(alloc_, first_, first_ + offset, alloc_result.data);
-            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
             detail::construct_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size, value);
-            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
+            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
+            detail::relocate_range_weak(alloc_, first_, first_ + offset, alloc_result.data);
+            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
             detail::relocate_range_weak(alloc_, first_ + offset, last_, alloc_result.data + offset + src_size);
             { guard1.release(); guard2.release(); guard3.release(); }
             detail::destroy_range(alloc_, first_, last_);
-- 
2.43.0


From 97a8b0e11de27fa6df705971a4be970185a8ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:42 +0000
Subject: [PATCH 04/27] fix: dynamic_bitset::resize filled the wrong block when
 growing past a block boundary

---
 src/utility/dynamic_bitset.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index a00c74d..9425b2d 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -121,10 +121,11 @@ namespace gapp::detail
         {
             blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
 
-            if (new_size > size_)
+            if (new_size > size_ && partial_block_size())
             {
-                blocks_.back() &= partial_block_mask();
-                blocks_.back() |= ~partial_block_mask() & block_of<block_type>(value);
+                block_type& old_back = blocks_[full_block_count()];
+                old_back &= partial_block_mask();
+                old_back |= ~partial_block_mask() & block_of<block_type>(value);
             }
 
             size_ = new_size;
-- 
2.43.0


From 9f2e99b306653f5b981a773601d84cd08c9cec78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:42 +0000
Subject: [PATCH 05/27] fix: dynamic_bitset queries read the last block of an
 empty bitset

---
 src/utility/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index 9425b2d..d5285e5 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -246,7 +246,7 @@ namespace gapp::detail
 
         constexpr block_type partial_block() const noexcept
         {
-            return blocks_.back() & partial_block_mask();
+            return partial_block_size() ? blocks_.back() & partial_block_mask() : zeros<block_type>;
         }
     };
 
-- 
2.43.0


From 570b7eb482a4833310003f6f5faeb29e2e9e7e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:42 +0000
Subject: [PATCH 06/27] fix: circular_buffer::set_capacity released the wrong
 buffer when copying an element throws

---
 src/utility/circular_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index f257d26..fa7d5d8 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -278,7 +278,7 @@ namespace gapp::detail
             if (new_capacity == capacity()) return;
 
             pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
-            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, buffer_, new_capacity); } };
+            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, new_buffer, new_capacity); } };
             const size_type new_size = std::min<size_type>(new_capacity, size());
             std::uninitialized_copy_n(detail::make_move_iterator_if_noexcept(begin()), new_size, new_buffer);
             destroy();
-- 
2.43.0


From 00d27044dc16549af9b0d8536ad9221e42c9a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 07/27] fix: sampleUnique returned duplicate values for ranges
 of 65536 or more values

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index b5c90ec..1c1b335 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -467,7 +467,7 @@ namespace gapp::rng
         {
             const auto n = rng::randomInt(lbound, limit);
             *number = selected.contains(n) ? limit : n;
-            selected.insert(n);
+            selected.insert(*number);
         }
 
         return numbers;
-- 
2.43.0


From 1110d63d67121e8d67e7e5ee500fdb5fe5b9d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 08/27] fix: randomReal returned values above 1 for float and
 shifted by the full width for long double

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 1c1b335..292059e 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -339,7 +339,7 @@ namespace gapp::rng
     template<std::floating_point RealType>
     RealType randomReal()
     {
-        return (rng::prng() >> detail::exponent_bits<RealType>) * (std::numeric_limits<RealType>::epsilon() / 2.0);
+        return (rng::prng() >> (64 - std::numeric_limits<RealType>::digits)) * (std::numeric_limits<RealType>::epsilon() / RealType(2.0));
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From 8d310525eb0ee3a6b073132507fb8d706d31ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 09/27] fix: the difference of stable iterators was never
 negative

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index bdfd385..c8a2d6f 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -406,7 +406,7 @@ namespace gapp::detail
 
             GAPP_ASSERT(distance <= size_t(std::numeric_limits<difference_type>::max()), "Can't represent the result of the operation as difference_type.");
 
-            return difference_type(distance);
+            return lhs.idx_ >= rhs.idx_ ? difference_type(distance) : -difference_type(distance);
         }
 
     protected:
-- 
2.43.0


From e8889a824df5e55940a5d2d6b2c8705b5d3076da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 10/27] fix: events of probability 0 occurred when the random
 number drawn was exactly 0

---
 src/mutation/permutation.cpp | 8 ++++----
 src/utility/rng.hpp          | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 5b31047..0a36b9a 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -36,7 +36,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 2_sz);
 
@@ -49,7 +49,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 3) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 3_sz);
 
@@ -65,7 +65,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 2;
             const size_t max_len = std::max(size_t(range_max_ * chrom_len), min_len);
@@ -84,7 +84,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 1;
             const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 292059e..7c5cf2a 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -416,7 +416,7 @@ namespace gapp::rng
         GAPP_ASSERT(0.0 <= p && p <= 1.0);
 
         IntType res = 0;
-        while (n--) { res += (randomReal() <= p); }
+        while (n--) { res += (randomReal() < p); }
         return res;
     }
 
-- 
2.43.0


From 978034aa932169327ef772afec4a5d5e622823a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:54 +0000
Subject: [PATCH 11/27] fix: shift mutation violated the precondition of
 sampleUnique when the shifted range was the entire chromosome

---
 src/mutation/permutation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 0a36b9a..d97b0b8 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -87,7 +87,7 @@ namespace gapp::mutation::perm
         if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 1;
-            const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
+            const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1);
             const size_t range_len = rng::randomInt(min_len, max_len);
 
             const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-- 
2.43.0


From fc24c8096e2a8a2ac4e27e1bd85b6078e29dd3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:14 +0000
Subject: [PATCH 12/27] fix: uniform integer mutation never terminated for
 genes with equal bounds

---
 src/mutation/integer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mutation/integer.cpp b/src/mutation/integer.cpp
index c2d6791..41ad1a7 100644
--- a/src/mutation/integer.cpp
+++ b/src/mutation/integer.cpp
@@ -21,6 +21,9 @@ namespace gapp::mutation::integer
 
         for (const auto& idx : mutated_indices)
         {
+            /* There is no other allele for the gene if the bounds are equal. */
+            if (bounds[idx].lower() == bounds[idx].upper()) continue;
+
             GeneType old_gene = chromosome[idx];
             GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());
 
-- 
2.43.0


From 2ed3daeea075a09e07b813f390f7dfa536c25c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 13/27] fix: NSGA-II assigned the crowding distances of the old
 population to the new one

---
 src/algorithm/nsga2.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/nsga2.cpp b/src/algorithm/nsga2.cpp
index 0843784..4f71be7 100644
--- a/src/algorithm/nsga2.cpp
+++ b/src/algorithm/nsga2.cpp
@@ -100,14 +100,15 @@ namespace gapp::algorithm
         });
 
         pareto_fronts.resize(popsize);
-        dists_ = crowdingDistances(fmat, pareto_fronts.fronts());
-        dists_.resize(popsize);
+        const auto dists = crowdingDistances(fmat, pareto_fronts.fronts());
 
         small_vector<size_t> new_pop(popsize);
+        dists_.resize(popsize);
         for (size_t i = 0; i < popsize; i++)
         {
             new_pop[i] = pareto_fronts[i].idx;
             ranks_[i]  = pareto_fronts[i].rank;
+            dists_[i]  = dists[pareto_fronts[i].idx];
         }
 
         return new_pop;
-- 
2.43.0


From 09cc4084a24e2888ccf47b6d62e6171581c8ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 14/27] fix: NSGA-III selected arbitrary candidates for
 reference lines that already had a selected candidate

---
 src/algorithm/nsga3.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/nsga3.cpp b/src/algorithm/nsga3.cpp
index e40f721..fde82b3 100644
--- a/src/algorithm/nsga3.cpp
+++ b/src/algorithm/nsga3.cpp
@@ -374,12 +374,15 @@ namespace gapp::algorithm
             const size_t selected_ref_idx = *rng::randomElement(ref_indices.begin(), last_minimal_ref);
             pimpl_->incrementNicheCount(ref_indices, selected_ref_idx);
 
-            const size_t associated_sol_count = std::count_if(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+            /* The candidates at the start of the partial front were already selected. */
+            const std::span<FrontElement> remaining{ partial_front.begin() + i, partial_front.end() };
+
+            const size_t associated_sol_count = std::count_if(remaining.begin(), remaining.end(), [&](const FrontElement& sol)
             {
                 return pimpl_->refIndexOf(sol) == selected_ref_idx;
             });
 
-            FrontElement& closest = pimpl_->findClosestAssociated(partial_front, selected_ref_idx);
+            FrontElement& closest = pimpl_->findClosestAssociated(remaining, selected_ref_idx);
 
             /* Move the selected candidate to the front of the partial front so it can't be selected again. */
             std::swap(closest, partial_front[i]);
-- 
2.43.0


From d3e0f547c9b0e31a817f49ca42ed1955d1afbd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 15/27] fix: rank selection divided by zero for populations of
 size 1

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index a868b83..11f4cca 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -99,7 +99,7 @@ namespace gapp::selection
         std::vector<double> weights(fmat.size());
         for (size_t i = 0; i < indices.size(); i++)
         {
-            const double t = i / (weights.size() - 1.0);
+            const double t = i / std::max(weights.size() - 1.0, 1.0);
             weights[indices[i]] = std::lerp(min_weight_, max_weight_, t);
         }
 
-- 
2.43.0


From 9e85437bef5aab5f940852b8b28af767fb5c617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 16/27] fix: use the same tolerance in paretoCompareLess and
 paretoCompare

---
 src/utility/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math.hpp b/src/utility/math.hpp
index d4daad7..5fa30f0 100644
--- a/src/utility/math.hpp
+++ b/src/utility/math.hpp
@@ -216,7 +216,7 @@ namespace gapp::math
     template<std::floating_point T>
     bool floatIsLessAssumeNotGreater(T lhs, T rhs) noexcept
     {
-        const T scale = std::abs(rhs);
+        const T scale = std::max(std::abs(lhs), std::abs(rhs));
 
         if (scale == inf<T>) return lhs < rhs; // for infinities
 
-- 
2.43.0


From 1e4e3c80f223e0e6dbdd393b3e344464ea94d013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:50 +0000
Subject: [PATCH 17/27] fix: the scale parameter of sigma selection has no
 effect

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index 11f4cca..6283f21 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -117,7 +117,7 @@ namespace gapp::selection
         FitnessVector fvec = detail::toFitnessVector(fmat.begin(), fmat.end());
         const double fmean = math::mean(fvec);
         const double fdev = math::stdDev(fvec, fmean);
-        const double idiv = 1.0 / std::clamp(fdev, math::small<double>, math::large<double>);
+        const double idiv = 1.0 / std::clamp(scale_ * fdev, math::small<double>, math::large<double>);
 
         std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&](double f)
         {
-- 
2.43.0


From 8428713c8093116422f87f819a72369e83a719f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 18/27] fix: selection probabilities of tiny weights overflowed
 to inf and NaN

---
 src/algorithm/soga_selection.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index 6283f21..2a8d111 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -32,7 +32,10 @@ namespace gapp::selection
         const double idiv = std::isfinite(1.0 / wsum) ? (1.0 / wsum) : 1.0;
         const double corr = std::isfinite(1.0 / wsum) ? 0.0 : (1.0 / weights.size());
 
-        std::transform_inclusive_scan(weights.begin(), weights.end(), cdf.begin(), std::plus{}, detail::multiply_add(idiv / wmax, corr));
+        std::transform_inclusive_scan(weights.begin(), weights.end(), cdf.begin(), std::plus{}, [&](double weight)
+        {
+            return (weight / wmax) * idiv + corr; // idiv / wmax could overflow
+        });
 
         return cdf;
     }
-- 
2.43.0


From e41717983dfcef0b258ac60165e8f2cb6413bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 19/27] fix: count a generation before its metrics and
 callbacks

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 40d204f..81c862f 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -531,10 +531,10 @@ namespace gapp
         updatePopulation(std::move(children));
 
         if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
+        generation_cntr_++;
         metrics_.update(*this);
 
         if (on_generation_end_) on_generation_end_(*this);
-        generation_cntr_++;
     }
 
     template<typename T>
-- 
2.43.0


From 003ab56d2ae6dd720025f6448c6115e161eb376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 20/27] fix: don't use the fitness cache with dynamic fitness
 functions

---
 src/core/ga_base.impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 81c862f..c73b13f 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -463,10 +463,8 @@ namespace gapp
          * is no point doing it again. */
         if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;
         
-        if (cached_generations_)
+        if (cached_generations_ && !fitness_function_->is_dynamic())
         {
-            GAPP_ASSERT(!fitness_function_->is_dynamic());
-
             const FitnessVector* fitness = fitness_cache_.get(sol);
             if (fitness)
             {
-- 
2.43.0


From c0b204a97b5b557533e3cd1429e4341e8fbe478f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 21/27] fix: compare chromosomes exactly when reusing fitness
 values

---
 src/crossover/crossover_base.impl.hpp | 8 ++++----
 src/mutation/mutation_base.impl.hpp   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crossover/crossover_base.impl.hpp b/src/crossover/crossover_base.impl.hpp
index fe12236..19e295c 100644
--- a/src/crossover/crossover_base.impl.hpp
+++ b/src/crossover/crossover_base.impl.hpp
@@ -55,22 +55,22 @@ namespace gapp::crossover
         * evaluation for that child can be skipped (if the fitness function is the same) by assigning
         * it the same fitness as the parent.
         */
-        if (child1 == parent1)
+        if (child1.chromosome == parent1.chromosome)
         {
             child1.fitness = parent1.fitness;
             child1.is_evaluated = parent1.is_evaluated;
         }
-        else if (child1 == parent2)
+        else if (child1.chromosome == parent2.chromosome)
         {
             child1.fitness = parent2.fitness;
             child1.is_evaluated = parent2.is_evaluated;
         }
-        if (child2 == parent1)
+        if (child2.chromosome == parent1.chromosome)
         {
             child2.fitness = parent1.fitness;
             child2.is_evaluated = parent1.is_evaluated;
         }
-        else if (child2 == parent2)
+        else if (child2.chromosome == parent2.chromosome)
         {
             child2.fitness = parent2.fitness;
             child2.is_evaluated = parent2.is_evaluated;
diff --git a/src/mutation/mutation_base.impl.hpp b/src/mutation/mutation_base.impl.hpp
index 398e0f6..c82d343 100644
--- a/src/mutation/mutation_base.impl.hpp
+++ b/src/mutation/mutation_base.impl.hpp
@@ -29,7 +29,7 @@ namespace gapp::mutation
             thread_local Candidate<T> old_candidate; old_candidate = candidate;
 
             mutate(ga, candidate, candidate.chromosome);
-            candidate.is_evaluated = (candidate == old_candidate);
+            candidate.is_evaluated = (candidate.chromosome == old_candidate.chromosome);
         }
 
         GAPP_ASSERT(allow_variable_chrom_length() || candidate.chromosome.size() == ga.chrom_len(),
-- 
2.43.0


From 3fb7feacdb82f17fdf1f05ed92e2307f7b94c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:34 +0000
Subject: [PATCH 22/27] fix: only use cached fitness values for exactly equal
 chromosomes

---
 src/core/ga_base.decl.hpp |  8 +++++++-
 src/utility/cache.hpp     | 12 +++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/core/ga_base.decl.hpp b/src/core/ga_base.decl.hpp
index dc530d2..0f6563e 100644
--- a/src/core/ga_base.decl.hpp
+++ b/src/core/ga_base.decl.hpp
@@ -583,7 +583,13 @@ namespace gapp
         Population<T> population_;
         Candidates<T> solutions_;
 
-        detail::fifo_cache<Candidate<T>, FitnessVector> fitness_cache_;
+        /* The cached fitness values are only valid for exactly the same chromosome. */
+        struct SameChromosome
+        {
+            bool operator()(const Candidate<T>& lhs, const Candidate<T>& rhs) const noexcept { return lhs.chromosome == rhs.chromosome; }
+        };
+
+        detail::fifo_cache<Candidate<T>, FitnessVector, SameChromosome> fitness_cache_;
         size_t cached_generations_ = 0;
 
         std::unique_ptr<FitnessFunctionBase<T>> fitness_function_;
diff --git a/src/utility/cache.hpp b/src/utility/cache.hpp
index 272c7d4..8ccda95 100644
--- a/src/utility/cache.hpp
+++ b/src/utility/cache.hpp
@@ -7,6 +7,7 @@
 #include "concepts.hpp"
 #include "utility.hpp"
 #include <unordered_map>
+#include <functional>
 #include <type_traits>
 #include <memory>
 #include <utility>
@@ -14,7 +15,7 @@
 
 namespace gapp::detail
 {
-    template<typename Key, typename Value>
+    template<typename Key, typename Value, typename KeyEqual = std::equal_to<Key>>
     class fifo_cache
     {
     public:
@@ -184,9 +185,10 @@ namespace gapp::detail
         }
 
     private:
-        using Iter = typename std::unordered_map<Key, Value>::iterator;
+        using Map  = std::unordered_map<Key, Value, std::hash<Key>, KeyEqual>;
+        using Iter = typename Map::iterator;
 
-        std::unordered_map<Key, Value> cache_;
+        Map cache_;
         detail::circular_buffer<Iter> order_;
 
         constexpr size_type free_capacity() const noexcept
@@ -198,8 +200,8 @@ namespace gapp::detail
         }
     };
 
-    template<typename K, typename V>
-    constexpr void swap(fifo_cache<K, V>& lhs, fifo_cache<K, V>& rhs) noexcept
+    template<typename K, typename V, typename E>
+    constexpr void swap(fifo_cache<K, V, E>& lhs, fifo_cache<K, V, E>& rhs) noexcept
     {
         lhs.swap(rhs);
     }
-- 
2.43.0


From 398e89b113fddf17a672737c7ef9d37e0e23842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:01 +0000
Subject: [PATCH 23/27] fix: allow composite stop conditions of composite stop
 conditions

---
 src/stop_condition/composite.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 3be47c6..a71d60f 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -20,13 +20,13 @@ namespace gapp::stopping::dtl
             left_(std::move(left)), right_(std::move(right))
         {}
 
-    private:
         void initialize(const GaInfo& ga) override
         {
             left_.initialize(ga);
             right_.initialize(ga);
         }
 
+    private:
         bool stop_condition(const GaInfo& ga) override
         {
             // short-circuiting is fine here, since the GA will be stopped anyway if left_ returns true.
@@ -45,13 +45,13 @@ namespace gapp::stopping::dtl
             left_(std::move(left)), right_(std::move(right))
         {}
 
-    private:
         void initialize(const GaInfo& ga) override
         {
             left_.initialize(ga);
             right_.initialize(ga);
         }
 
+    private:
         bool stop_condition(const GaInfo& ga) override
         {
             // Both of the stop conditions should be evaluated, so avoid short circuits with logical ops
@@ -71,12 +71,12 @@ namespace gapp::stopping::dtl
             base_(std::move(base))
         {}
 
-    private:
         void initialize(const GaInfo& ga) override
         {
             base_.initialize(ga);
         }
 
+    private:
         bool stop_condition(const GaInfo& ga) override
         {
             return !std::invoke(base_, ga);
-- 
2.43.0


From b7ba5f934b69cebcdbf50d1802c8aacd5f45ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 24/27] fix: update the earlier hypervolumes of AutoHypervolume
 exactly

---
 src/metrics/distribution_metrics.cpp | 12 ++++--------
 src/metrics/distribution_metrics.hpp |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/metrics/distribution_metrics.cpp b/src/metrics/distribution_metrics.cpp
index 278aea6..a710f5c 100644
--- a/src/metrics/distribution_metrics.cpp
+++ b/src/metrics/distribution_metrics.cpp
@@ -51,8 +51,8 @@ namespace gapp::metrics
         data_.clear();
         data_.reserve(ga.max_gen());
 
-        ideal_points_.clear();
-        ideal_points_.reserve(ga.max_gen(), ga.num_objectives());
+        fitness_matrices_.clear();
+        fitness_matrices_.reserve(ga.max_gen());
 
         worst_point_ = FitnessVector(ga.num_objectives(), math::inf<double>);
     }
@@ -62,7 +62,6 @@ namespace gapp::metrics
         const auto& fitness_matrix = ga.fitness_matrix();
 
         FitnessVector worst_point = detail::minFitness(fitness_matrix.begin(), fitness_matrix.end());
-        FitnessVector ideal_point = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());
 
         FitnessVector prev_worst_point = worst_point_;
         detail::elementwise_min(worst_point_, worst_point, detail::inplace_t{});
@@ -71,15 +70,12 @@ namespace gapp::metrics
         {
             for (size_t i = 0; i < data_.size(); i++)
             {
-                const double old_vol = math::volumeBetween(ideal_points_[i], prev_worst_point);
-                const double new_vol = math::volumeBetween(ideal_points_[i], worst_point_);
-
-                data_[i] += (new_vol - old_vol);
+                data_[i] = detail::hypervolume(fitness_matrices_[i], worst_point_);
             }
         }
 
         data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));
-        ideal_points_.append_row(std::move(ideal_point));
+        fitness_matrices_.push_back(fitness_matrix);
     }
 
 } // namespace gapp::metrics
diff --git a/src/metrics/distribution_metrics.hpp b/src/metrics/distribution_metrics.hpp
index 935bbc0..3c50a21 100644
--- a/src/metrics/distribution_metrics.hpp
+++ b/src/metrics/distribution_metrics.hpp
@@ -79,7 +79,7 @@ namespace gapp::metrics
         void update(const GaInfo& ga) override;
 
         FitnessVector worst_point_;
-        FitnessMatrix ideal_points_;
+        std::vector<FitnessMatrix> fitness_matrices_;
     };
 
 } // namespace gapp::metrics
-- 
2.43.0


From b539e8ed266ba957cc0466b43fd1c0ca79d7a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 25/27] fix: no pointer past the end of the buffer in
 circular_buffer::pointer_to

---
 src/utility/circular_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index fa7d5d8..39e16da 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -353,7 +353,7 @@ namespace gapp::detail
         constexpr pointer pointer_to(size_type pos) const noexcept
         {
             const size_type idx = first_ + pos;
-            return idx >= capacity_ ? (buffer_ + idx - capacity_) : (buffer_ + idx);
+            return idx >= capacity_ ? (buffer_ + (idx - capacity_)) : (buffer_ + idx);
         }
 
         constexpr void destroy() noexcept
-- 
2.43.0


From 6c1275760998c6f8d8c9018c952aa9ccf8e070da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 26/27] fix: allocate before deallocating in
 circular_buffer::reset

---
 src/utility/circular_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index 39e16da..aa76a0a 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -299,8 +299,9 @@ namespace gapp::detail
         {
             clear();
             if (new_capacity == capacity_) return;
+            pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
             if (buffer_) detail::deallocate(alloc_, buffer_, capacity_);
-            buffer_ = detail::allocate<T>(alloc_, new_capacity).data;
+            buffer_ = new_buffer;
             capacity_ = new_capacity;
         }
 
-- 
2.43.0


From 9601420b83ddd809acf49b138f206348089af1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:41 +0000
Subject: [PATCH 27/27] fix: parallel loop waits for its tasks when the calling
 thread's part throws

---
 src/utility/thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 05b26dd..fc141e4 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -65,7 +65,8 @@ namespace gapp::detail
                 if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
             }
 
-            while (first != last) { std::invoke(unary_op, *first++); }
+            GAPP_TRY { while (first != last) { std::invoke(unary_op, *first++); } }
+            GAPP_CATCH (...) { thread_guard(); }
 
             if (auto* local_queue = local_worker_queue(); !local_queue)
             {
-- 
2.43.0

