From 1604c5ab3d8d054d984decdfb3f590513f5a323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 001/275] fix: one_of and one_of_equal over random access
 iterators counted only one half

---
 sprout/algorithm/one_of.hpp       | 10 +++++++---
 sprout/algorithm/one_of_equal.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/sprout/algorithm/one_of.hpp b/sprout/algorithm/one_of.hpp
index f524e7f..f237104 100644
--- a/sprout/algorithm/one_of.hpp
+++ b/sprout/algorithm/one_of.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, pred,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_impl_ra(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_impl_ra_1(
+						first, sprout::next(first, pivot), pred,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_impl_ra(
+							sprout::next(first, pivot), last, pred,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename Predicate>
diff --git a/sprout/algorithm/one_of_equal.hpp b/sprout/algorithm/one_of_equal.hpp
index 35e9e67..7e04e85 100644
--- a/sprout/algorithm/one_of_equal.hpp
+++ b/sprout/algorithm/one_of_equal.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, value,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_equal_impl_ra(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_equal_impl_ra_1(
+						first, sprout::next(first, pivot), value,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_equal_impl_ra(
+							sprout::next(first, pivot), last, value,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename T>
-- 
2.43.0


From f798dce3ba321175c861d31df5d14589e47529b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 002/275] fix: is_heap and is_heap_until rejected heaps with a
 child equivalent to its parent

---
 sprout/algorithm/is_heap_until.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/is_heap_until.hpp b/sprout/algorithm/is_heap_until.hpp
index cdaaf10..af9119f 100644
--- a/sprout/algorithm/is_heap_until.hpp
+++ b/sprout/algorithm/is_heap_until.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			)
 		{
 			return found != first ? found
-				: pivot == 0 ? (!comp(it[first], it[(first - 1) / 2]) ? first : last)
+				: pivot == 0 ? (comp(it[(first - 1) / 2], it[first]) ? first : last)
 				: sprout::detail::is_heap_until_impl(
 					it, comp, first + pivot, last,
 					((last - first) - pivot) / 2,
-- 
2.43.0


From cea19f7ab2f7bdbc7874991ce7c2a2d4fbc9d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:13 +0000
Subject: [PATCH 003/275] fix: search_n with count 0 returned last instead of
 first

---
 sprout/algorithm/search_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/search_n.hpp b/sprout/algorithm/search_n.hpp
index 0f931db..5edfe9a 100644
--- a/sprout/algorithm/search_n.hpp
+++ b/sprout/algorithm/search_n.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value, BinaryPredicate pred) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
+		return count == 0 ? first : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
 			: sprout::detail::search_n(first, last, count, value, pred, category());
 	}
 
@@ -137,7 +137,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find(first, last, value)
+		return count == 0 ? first : count == 1 ? sprout::find(first, last, value)
 			: sprout::detail::search_n(first, last, count, value, sprout::equal_to<>(), category());
 	}
 }	// namespace sprout
-- 
2.43.0


From 6f1f7b1bf035fc7c7945f79da9629e99d3fd1cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:59 +0000
Subject: [PATCH 004/275] fix: partial_sort_copy did not compile

---
 sprout/algorithm/cxx14/partial_sort_copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/partial_sort_copy.hpp b/sprout/algorithm/cxx14/partial_sort_copy.hpp
index c42416a..93b4a4e 100644
--- a/sprout/algorithm/cxx14/partial_sort_copy.hpp
+++ b/sprout/algorithm/cxx14/partial_sort_copy.hpp
@@ -18,7 +18,7 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename InputIterator, typename RandomAccessIterator, typename Compare>
+		template<typename Compare, typename InputIterator, typename RandomAccessIterator>
 		inline SPROUT_CXX14_CONSTEXPR RandomAccessIterator
 		partial_sort_copy(InputIterator first, InputIterator last, RandomAccessIterator result_first, RandomAccessIterator result_last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-- 
2.43.0


From fbce90cfc0e6e6a80186af71958ec82824311b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:59 +0000
Subject: [PATCH 005/275] fix: make_heap sifted each element up from the wrong
 position

---
 sprout/algorithm/cxx14/make_heap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/make_heap.hpp b/sprout/algorithm/cxx14/make_heap.hpp
index 497bdbd..a81325a 100644
--- a/sprout/algorithm/cxx14/make_heap.hpp
+++ b/sprout/algorithm/cxx14/make_heap.hpp
@@ -24,8 +24,8 @@ namespace sprout {
 			if (len > 1) {
 				last = first;
 				++last;
-				for (difference_type i = 1; i < len; ++i) {
-					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i);
+				for (difference_type i = 1; i < len;) {
+					sprout::detail::push_heap_back<Compare>(first, ++last, comp, ++i);
 				}
 			}
 		}
-- 
2.43.0


From 35d0325402fa7f658c779a814b94fc9287d7f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:59 +0000
Subject: [PATCH 006/275] fix: stable_partition misplaced elements when the
 right half began with true elements

---
 sprout/algorithm/cxx14/stable_partition.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/stable_partition.hpp b/sprout/algorithm/cxx14/stable_partition.hpp
index 624e75e..3e37e44 100644
--- a/sprout/algorithm/cxx14/stable_partition.hpp
+++ b/sprout/algorithm/cxx14/stable_partition.hpp
@@ -28,8 +28,9 @@ namespace sprout {
 			BidirectionalIterator left_split = sprout::detail::inplace_stable_partition(first, pred, len / 2);
 			Distance right_len = len - len / 2;
 			BidirectionalIterator right_split = sprout::find_if_not(middle, sprout::next(middle, right_len), pred);
+			right_len -= sprout::distance(middle, right_split);
 			if (right_len) {
-				right_split = sprout::detail::inplace_stable_partition(middle, pred, right_len);
+				right_split = sprout::detail::inplace_stable_partition(right_split, pred, right_len);
 			}
 			sprout::rotate(left_split, middle, right_split);
 			sprout::advance(left_split, sprout::distance(middle, right_split));
-- 
2.43.0


From d482a512bdcf380f0a6fac46e8aa6a9a9a3c4cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:59 +0000
Subject: [PATCH 007/275] fix: fit::partition and fit::stable_partition
 returned the wrong number of elements

---
 sprout/algorithm/fit/partition.hpp        | 2 +-
 sprout/algorithm/fit/stable_partition.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fit/partition.hpp b/sprout/algorithm/fit/partition.hpp
index 895b451..bbe9078 100644
--- a/sprout/algorithm/fit/partition.hpp
+++ b/sprout/algorithm/fit/partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/algorithm/fit/stable_partition.hpp b/sprout/algorithm/fit/stable_partition.hpp
index 728dca9..d4d1f20 100644
--- a/sprout/algorithm/fit/stable_partition.hpp
+++ b/sprout/algorithm/fit/stable_partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::stable_partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From bc997d41bb0f827b8b5b15323473c7cd3d753000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:59 +0000
Subject: [PATCH 008/275] fix: fixed::nth_element read past the container when
 nth is the end iterator

---
 sprout/algorithm/fixed/nth_element.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sprout/algorithm/fixed/nth_element.hpp b/sprout/algorithm/fixed/nth_element.hpp
index 71df726..055a038 100644
--- a/sprout/algorithm/fixed/nth_element.hpp
+++ b/sprout/algorithm/fixed/nth_element.hpp
@@ -43,11 +43,14 @@ namespace sprout {
 				typename sprout::container_traits<Container>::difference_type nth_size
 				)
 			{
-				return sprout::fixed::detail::nth_element_impl_1(
-					sprout::fixed::detail::make_partial_heap_impl(cont, comp, offset, size, nth_size + 1),
-					offset,
-					nth_size
-					);
+				return nth_size < size
+					? sprout::fixed::detail::nth_element_impl_1(
+						sprout::fixed::detail::make_partial_heap_impl(cont, comp, offset, size, nth_size + 1),
+						offset,
+						nth_size
+						)
+					: sprout::deep_copy(cont)
+					;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 7ff932bc2eb0648f12acf181d54f8c042e4ce071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:37 +0000
Subject: [PATCH 009/275] fix: stable_sort was ambiguous when sort.hpp is
 included as well

---
 sprout/algorithm/cxx14/stable_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/stable_sort.hpp b/sprout/algorithm/cxx14/stable_sort.hpp
index 293564a..3bdafa3 100644
--- a/sprout/algorithm/cxx14/stable_sort.hpp
+++ b/sprout/algorithm/cxx14/stable_sort.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR void
 		inplace_stable_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			if (last - first < 15) {
-				sprout::detail::insertion_sort(first, last, comp);
+				sprout::detail::insertion_sort<RandomAccessIterator, Compare>(first, last, comp);
 				return;
 			}
 			RandomAccessIterator middle = first + (last - first) / 2;
-- 
2.43.0


From d36ed3ea1ff22fd0318c9bcc2ace9b5498e62cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:29 +0000
Subject: [PATCH 010/275] fix: move_backward decremented first instead of last

---
 sprout/algorithm/cxx14/move_backward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/move_backward.hpp b/sprout/algorithm/cxx14/move_backward.hpp
index 608adc4..86788b7 100644
--- a/sprout/algorithm/cxx14/move_backward.hpp
+++ b/sprout/algorithm/cxx14/move_backward.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR BidirectionalIterator2
 	move_backward(BidirectionalIterator1 first, BidirectionalIterator1 last, BidirectionalIterator2 result) {
 		while (first != last) {
-			*--result = sprout::move(*--first);
+			*--result = sprout::move(*--last);
 		}
 		return result;
 	}
-- 
2.43.0


From 69a06584f7ac92ce56d2118c4847c5dc5945987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:47 +0000
Subject: [PATCH 011/275] fix: cxx14 copy_until and copy_while did not compile

---
 sprout/algorithm/cxx14/copy_until.hpp | 2 +-
 sprout/algorithm/cxx14/copy_while.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/copy_until.hpp b/sprout/algorithm/cxx14/copy_until.hpp
index ffe3dc7..2ec2ad0 100644
--- a/sprout/algorithm/cxx14/copy_until.hpp
+++ b/sprout/algorithm/cxx14/copy_until.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && !pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
diff --git a/sprout/algorithm/cxx14/copy_while.hpp b/sprout/algorithm/cxx14/copy_while.hpp
index ad59c77..05c13d8 100644
--- a/sprout/algorithm/cxx14/copy_while.hpp
+++ b/sprout/algorithm/cxx14/copy_while.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 60dbff6c8a7bf92eb1a3db2025cbc0985ad35d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:47 +0000
Subject: [PATCH 012/275] fix: for_each_n never stopped

---
 sprout/algorithm/cxx14/for_each_n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/for_each_n.hpp b/sprout/algorithm/cxx14/for_each_n.hpp
index 473f30a..88946af 100644
--- a/sprout/algorithm/cxx14/for_each_n.hpp
+++ b/sprout/algorithm/cxx14/for_each_n.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	template<typename InputIterator, typename Size, typename Function>
 	inline SPROUT_CXX14_CONSTEXPR InputIterator
 	for_each_n(InputIterator first, Size n, Function f) {
-		for (Size i = 0; i < n; ++first) {
+		for (Size i = 0; i < n; ++i, ++first) {
 			f(*first);
 		}
 		return first;
-- 
2.43.0


From c0dc0271819974a6aba9740688a1bcd6e7501421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:47 +0000
Subject: [PATCH 013/275] fix: remove and remove_if moved elements onto
 themselves

---
 sprout/algorithm/cxx14/remove.hpp    | 5 ++++-
 sprout/algorithm/cxx14/remove_if.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/remove.hpp b/sprout/algorithm/cxx14/remove.hpp
index ae6c03c..90cd7c3 100644
--- a/sprout/algorithm/cxx14/remove.hpp
+++ b/sprout/algorithm/cxx14/remove.hpp
@@ -21,7 +21,10 @@ namespace sprout {
 		ForwardIterator result = first;
 		for (; first != last; ++first) {
 			if (!(*first == value)) {
-				*result++ = sprout::move(*first);
+				if (result != first) {
+					*result = sprout::move(*first);
+				}
+				++result;
 			}
 		}
 		return result;
diff --git a/sprout/algorithm/cxx14/remove_if.hpp b/sprout/algorithm/cxx14/remove_if.hpp
index 477cd82..2cd6000 100644
--- a/sprout/algorithm/cxx14/remove_if.hpp
+++ b/sprout/algorithm/cxx14/remove_if.hpp
@@ -21,7 +21,10 @@ namespace sprout {
 		ForwardIterator result = first;
 		for (; first != last; ++first) {
 			if (!pred(*first)) {
-				*result++ = sprout::move(*first);
+				if (result != first) {
+					*result = sprout::move(*first);
+				}
+				++result;
 			}
 		}
 		return result;
-- 
2.43.0


From 1713eeafa0c09b0dadf91fc0975cb217b9161eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:58 +0000
Subject: [PATCH 014/275] fix: fixed::copy_backward read before the beginning
 of a partially filled string

---
 sprout/detail/container_complate_backward.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/detail/container_complate_backward.hpp b/sprout/detail/container_complate_backward.hpp
index c53c342..bde3e2b 100644
--- a/sprout/detail/container_complate_backward.hpp
+++ b/sprout/detail/container_complate_backward.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 			typename sprout::fixed::results::algorithm<Result>::type
 		>::type
 		container_complate_backward_2(Result const& result, Args const&... args) {
-			return sprout::detail::container_complate_backward_2(result, *sprout::prev(sprout::internal_end(result), sizeof...(Args) + 1), args...);
+			return sprout::detail::container_complate_backward_2(result, *sprout::next(sprout::internal_begin(result), sprout::container_traits<Result>::static_size - (sizeof...(Args) + 1)), args...);
 		}
 		template<typename Result, typename... Args>
 		inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -58,7 +58,7 @@ namespace sprout {
 			)
 		{
 			return remain != 0
-				? sprout::detail::container_complate_backward_1(result, remain - 1, args..., *sprout::prev(sprout::internal_end(result), remain))
+				? sprout::detail::container_complate_backward_1(result, remain - 1, args..., *sprout::next(sprout::internal_begin(result), sprout::container_traits<Result>::static_size - remain))
 				: sprout::detail::container_complate_backward_2(result, args...)
 				;
 		}
@@ -76,7 +76,7 @@ namespace sprout {
 			typename sprout::fixed::results::algorithm<Result>::type
 		>::type
 		container_complate_backward(Result const& result, Args const&... args) {
-			return sprout::detail::container_complate_backward_1(result, sprout::internal_end_offset_backward(result), args...);
+			return sprout::detail::container_complate_backward_1(result, sprout::container_traits<Result>::static_size - sprout::internal_end_offset(result), args...);
 		}
 	}	// namespace detail
 }	// namespace sprout
-- 
2.43.0


From 4c2f90adf1be56b7f917f9b1fafa120c126ed343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:58 +0000
Subject: [PATCH 015/275] fix: fixed::unique_copy wrote an element into an
 empty result

---
 sprout/algorithm/fixed/unique_copy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fixed/unique_copy.hpp b/sprout/algorithm/fixed/unique_copy.hpp
index 5fd51ac..6f5a3ea 100644
--- a/sprout/algorithm/fixed/unique_copy.hpp
+++ b/sprout/algorithm/fixed/unique_copy.hpp
@@ -66,7 +66,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -144,7 +144,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result, BinaryPredicate pred) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, pred, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
-- 
2.43.0


From fc2f2b4210d1360b21e26b569dfcf36b841f0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:58 +0000
Subject: [PATCH 016/275] fix: basic_string assign, append and copy rejected a
 position equal to size()

---
 sprout/string/string.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f9f42f2..44d4637 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -289,6 +289,12 @@ namespace sprout {
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR void
+		poscheck(size_type pos, size_type n) const {
+			if (pos > n) {
+				throw std::out_of_range("basic_string<>: index out of range");
+			}
+		}
+		SPROUT_CXX14_CONSTEXPR void
 		lengthcheck(size_type n) const {
 			if (n > max_size()) {
 				throw std::length_error("basic_string<>: length exceeded");
@@ -610,7 +616,7 @@ namespace sprout {
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(basic_string<T, N2> const& str, size_type pos, size_type n = npos) {
-			str.rangecheck(pos);
+			poscheck(pos, str.size());
 			size_type rlen = n != npos
 				? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
 				: str.size() - pos
@@ -657,7 +663,7 @@ namespace sprout {
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(basic_string<T, N2, Traits> const& str, size_type pos, size_type n = npos) {
-			str.rangecheck(pos);
+			poscheck(pos, str.size());
 			size_type rlen = n != npos
 				? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
 				: str.size() - pos
@@ -727,7 +733,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR size_type
 		copy(value_type* s, size_type n, size_type pos = 0) const {
-			rangecheck(pos);
+			poscheck(pos, size());
 			size_type llen = NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos);
 			traits_type::copy(s, begin() + pos, llen);
 			return llen;
@@ -950,7 +956,7 @@ namespace sprout {
 		template<typename StringIterator>
 		SPROUT_CXX14_CONSTEXPR size_type
 		copy(StringIterator s, size_type n, size_type pos = 0) const {
-			rangecheck(pos);
+			poscheck(pos, size());
 			size_type llen = NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos);
 			traits_type::copy(s, begin() + pos, llen);
 			return llen;
-- 
2.43.0


From 7afd655b209ad91361d37d5beb2cdb77ac8f71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:39 +0000
Subject: [PATCH 017/275] fix: recurrence with a result shorter than the
 initial values dropped the first ones

---
 sprout/algorithm/fixed/recurrence.hpp | 53 ++++++++++++++++-----------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/sprout/algorithm/fixed/recurrence.hpp b/sprout/algorithm/fixed/recurrence.hpp
index abf86e7..cc7eab3 100644
--- a/sprout/algorithm/fixed/recurrence.hpp
+++ b/sprout/algorithm/fixed/recurrence.hpp
@@ -13,6 +13,8 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/index_tuple/metafunction.hpp>
+#include <sprout/utility/pack.hpp>
 #include <sprout/iterator/operation.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
 #include <sprout/pit/pit.hpp>
@@ -45,43 +47,52 @@ namespace sprout {
 			call_gen(Generator const& gen, Head const&, Args const&... args) {
 				return call_gen<InitSize, Container>(gen, args...);
 			}
-			template<typename Container, typename Generator>
+			template<typename Container, typename... Inits, sprout::index_t... Indexes>
 			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Container>::type
-			recurrence_impl_drop(
-				Container const& cont, Generator const&,
-				typename sprout::container_traits<Container>::size_type
+			recurrence_impl_take_1(Container const& cont, sprout::index_tuple<Indexes...>, Inits const&... inits) {
+				return sprout::detail::container_complate(cont, sprout::pack_get<Indexes>(inits...)...);
+			}
+			template<std::size_t N, typename Container, typename... Inits>
+			inline SPROUT_CONSTEXPR typename std::enable_if<
+				N == 0,
+				typename sprout::fixed::results::algorithm<Container>::type
+			>::type
+			recurrence_impl_take(
+				Container const& cont,
+				typename sprout::container_traits<Container>::size_type,
+				Inits const&...
 				)
 			{
 				return sprout::detail::container_complate(cont);
 			}
-			template<typename Container, typename Generator, typename Head, typename... Inits>
+			template<std::size_t N, typename Container, typename... Inits>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-				(sprout::container_traits<Container>::static_size >= sizeof...(Inits) + 1),
+				N != 0 && (sprout::container_traits<Container>::static_size >= N),
 				typename sprout::fixed::results::algorithm<Container>::type
 			>::type
-			recurrence_impl_drop(
-				Container const& cont, Generator const& gen,
+			recurrence_impl_take(
+				Container const& cont,
 				typename sprout::container_traits<Container>::size_type size,
-				Head const& head, Inits const&... inits
+				Inits const&... inits
 				)
 			{
-				return size < sizeof...(Inits) + 1
-					? sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...)
-					: sprout::detail::container_complate(cont, head, inits...)
+				return size < N
+					? sprout::fixed::detail::recurrence_impl_take<N - 1>(cont, size, inits...)
+					: sprout::fixed::detail::recurrence_impl_take_1(cont, sprout::make_index_tuple<N>::make(), inits...)
 					;
 			}
-			template<typename Container, typename Generator, typename Head, typename... Inits>
+			template<std::size_t N, typename Container, typename... Inits>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-				(sprout::container_traits<Container>::static_size < sizeof...(Inits) + 1),
+				N != 0 && (sprout::container_traits<Container>::static_size < N),
 				typename sprout::fixed::results::algorithm<Container>::type
 			>::type
-			recurrence_impl_drop(
-				Container const& cont, Generator const& gen,
+			recurrence_impl_take(
+				Container const& cont,
 				typename sprout::container_traits<Container>::size_type size,
-				Head const&, Inits const&... inits
+				Inits const&... inits
 				)
 			{
-				return sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...);
+				return sprout::fixed::detail::recurrence_impl_take<N - 1>(cont, size, inits...);
 			}
 			template<std::size_t InitSize, typename Container, typename Generator, typename... Args>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -129,7 +140,7 @@ namespace sprout {
 			{
 				return sizeof...(Inits) < size
 					? sprout::fixed::detail::recurrence_impl_1<sizeof...(Inits)>(cont, gen, size, inits...)
-					: sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...)
+					: sprout::fixed::detail::recurrence_impl_take<sizeof...(Inits)>(cont, size, inits...)
 					;
 			}
 			template<typename Container, typename Generator, typename... Inits>
@@ -138,12 +149,12 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Container>::type
 			>::type
 			recurrence_impl(
-				Container const& cont, Generator const& gen,
+				Container const& cont, Generator const&,
 				typename sprout::container_traits<Container>::size_type size,
 				Inits const&... inits
 				)
 			{
-				return sprout::fixed::detail::recurrence_impl_drop(cont, gen, size, inits...);
+				return sprout::fixed::detail::recurrence_impl_take<sizeof...(Inits)>(cont, size, inits...);
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 139d8de97753a3ea93e1037717dc87dd9bfb71b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:30 +0000
Subject: [PATCH 018/275] fix: rand48 dropped the upper 16 bits of its state
 before shifting

---
 sprout/random/linear_congruential.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/linear_congruential.hpp b/sprout/random/linear_congruential.hpp
index cde06c9..85c8ce8 100644
--- a/sprout/random/linear_congruential.hpp
+++ b/sprout/random/linear_congruential.hpp
@@ -325,7 +325,7 @@ namespace sprout {
 			template<typename EngineResult>
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> generate(EngineResult const& rnd) const {
 				return sprout::random::random_result<rand48>(
-					static_cast<result_type>(sprout::random::result(rnd)) >> 17,
+					static_cast<result_type>(sprout::random::result(rnd) >> 17),
 					rand48(sprout::random::next(rnd), private_construct_t())
 					);
 			}
@@ -343,7 +343,7 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				return static_cast<result_type>(static_cast<result_type>(lcf_()) >> 17);
+				return static_cast<result_type>(lcf_() >> 17);
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> const operator()() const {
 				return generate(lcf_());
-- 
2.43.0


From deabf103b9f0180cdf38aff12be5ec21118513fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:30 +0000
Subject: [PATCH 019/275] fix: cxx14 random_swap could pick the past-the-end
 position

---
 sprout/algorithm/cxx14/random_swap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/random_swap.hpp b/sprout/algorithm/cxx14/random_swap.hpp
index 6f3ea74..9674d32 100644
--- a/sprout/algorithm/cxx14/random_swap.hpp
+++ b/sprout/algorithm/cxx14/random_swap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		typedef SPROUT_WORKAROUND_DETAIL_UNIFORM_INT_DISTRIBUTION<std::ptrdiff_t> distribution_type;
 		difference_type d = last - first;
 		if (d > 1) {
-			distribution_type dist(0, d);
+			distribution_type dist(0, d - 1);
 			difference_type i = dist(g);
 			difference_type j = dist(g);
 			if (i != j) {
-- 
2.43.0


From ad1ace04417bdab3aa5e5ba93196b2db50b25c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 020/275] fix: inner_product compiles for non-random-access and
 random-access iterators

---
 sprout/numeric/inner_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/inner_product.hpp b/sprout/numeric/inner_product.hpp
index c29b198..e8cbce7 100644
--- a/sprout/numeric/inner_product.hpp
+++ b/sprout/numeric/inner_product.hpp
@@ -29,7 +29,7 @@ namespace sprout {
 			typename std::iterator_traits<RandomAccessIterator1>::difference_type pivot, T init
 			)
 		{
-			return pivot == 0 ? binary_op(init, binary_op2(*first1, *first2))
+			return pivot == 0 ? binary_op1(init, binary_op2(*first1, *first2))
 				: sprout::detail::inner_product_ra(
 					sprout::next(first1, pivot), last1, sprout::next(first2, pivot), binary_op1, binary_op2,
 					(sprout::distance(first1, last1) - pivot) / 2,
@@ -109,7 +109,7 @@ namespace sprout {
 			)
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, T> type;
-			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2));
+			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2, 1));
 		}
 	}	// namespace detail
 
-- 
2.43.0


From b53cfdf47d3ced2f77607d99d277f0a571491859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 021/275] fix: fixed::adjacent_difference compiles for
 non-empty results

---
 sprout/numeric/fixed/adjacent_difference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index 1426e4f..c614581 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -70,7 +70,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size
 				)
@@ -144,7 +144,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result, BinaryOperation binary_op,
 				typename sprout::container_traits<Result>::size_type size
 				)
-- 
2.43.0


From 620a62094ef379eca433a9e875902f6b83931ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 022/275] fix: fixed::exclusive_scan<Result> compiles

---
 sprout/numeric/fixed/exclusive_scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index adb2cb4..eabf780 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -104,7 +104,7 @@ namespace sprout {
 		template<typename Result, typename InputIterator, typename T>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 		exclusive_scan(InputIterator first, InputIterator last, T init) {
-			return sprout::fixed::exclusive_scan<Result>(first, last, sprout::pit<Result>(), init);
+			return sprout::fixed::exclusive_scan(first, last, sprout::pit<Result>(), init);
 		}
 
 		namespace detail {
-- 
2.43.0


From 968389a9531a6e52deb891ddbcf32b11e9935593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 023/275] fix: fixed::transform_inclusive_scan with init
 compiles for results of size 0 and 1

---
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index 0d3ca49..e2ad76a 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -102,7 +102,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
@@ -114,7 +114,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_inclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
+				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T init,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-- 
2.43.0


From 746c7776e3d75c03c46e6b5c04d4bde8b2a4cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 024/275] fix: exclusive scans of an empty range produce
 nothing

---
 sprout/numeric/cxx14/exclusive_scan.hpp       |  6 ++---
 .../cxx14/transform_exclusive_scan.hpp        |  6 ++---
 sprout/numeric/fixed/exclusive_scan.hpp       | 24 +++++++++++--------
 .../fixed/transform_exclusive_scan.hpp        | 12 ++++++----
 4 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index 0856eb1..7a36e36 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = *first;
 		while (++first != last) {
 			sum = binary_op(sum, temp);
diff --git a/sprout/numeric/cxx14/transform_exclusive_scan.hpp b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
index 14d9c10..fc205a8 100644
--- a/sprout/numeric/cxx14/transform_exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	transform_exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op, UnaryOperation unary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = unary_op(*first);
 		while (++first != last) {
 			sum = binary_op(sum, temp);
diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index eabf780..ff4dfd0 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -71,11 +71,13 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -87,9 +89,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
@@ -159,11 +161,13 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -175,9 +179,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/transform_exclusive_scan.hpp b/sprout/numeric/fixed/transform_exclusive_scan.hpp
index dc009c2..45f32a0 100644
--- a/sprout/numeric/fixed/transform_exclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_exclusive_scan.hpp
@@ -71,11 +71,13 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation, UnaryOperation,
-				typename sprout::container_traits<Result>::size_type
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation, UnaryOperation,
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last && size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation, typename UnaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -87,9 +89,9 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, init, unary_op(*first))
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 5765fb4935911192946db982f34a854eab7c3c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 025/275] fix: scans with an initial value accumulate in its
 type

---
 sprout/numeric/cxx14/exclusive_scan.hpp           | 4 ++--
 sprout/numeric/cxx14/inclusive_scan.hpp           | 3 +--
 sprout/numeric/cxx14/transform_exclusive_scan.hpp | 5 ++---
 sprout/numeric/cxx14/transform_inclusive_scan.hpp | 3 +--
 4 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index 7a36e36..b4b1cba 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -27,7 +27,7 @@ namespace sprout {
 		if (first == last) {
 			return result;
 		}
-		value_type sum = sprout::move(init);
+		T sum = sprout::move(init);
 		*result = sum;
 		value_type temp = *first;
 		while (++first != last) {
@@ -45,7 +45,7 @@ namespace sprout {
 	exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init) {
 		return sprout::exclusive_scan(
 			first, last, result, init,
-			NS_SSCRISK_CEL_OR_SPROUT::plus<typename std::iterator_traits<InputIterator>::value_type>()
+			NS_SSCRISK_CEL_OR_SPROUT::plus<>()
 			);
 	}
 }	// namespace sprout
diff --git a/sprout/numeric/cxx14/inclusive_scan.hpp b/sprout/numeric/cxx14/inclusive_scan.hpp
index a7e0d48..82b414c 100644
--- a/sprout/numeric/cxx14/inclusive_scan.hpp
+++ b/sprout/numeric/cxx14/inclusive_scan.hpp
@@ -24,8 +24,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	inclusive_scan(InputIterator first, InputIterator last, OutputIterator result, BinaryOperation binary_op, T init) {
-		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
+		T sum = sprout::move(init);
 		*result = sum;
 		if (first == last) {
 			return ++result;
diff --git a/sprout/numeric/cxx14/transform_exclusive_scan.hpp b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
index fc205a8..7cd89b0 100644
--- a/sprout/numeric/cxx14/transform_exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
@@ -23,13 +23,12 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	transform_exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op, UnaryOperation unary_op) {
-		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
 		if (first == last) {
 			return result;
 		}
-		value_type sum = sprout::move(init);
+		T sum = sprout::move(init);
 		*result = sum;
-		value_type temp = unary_op(*first);
+		T temp = unary_op(*first);
 		while (++first != last) {
 			sum = binary_op(sum, temp);
 			*++result = sum;
diff --git a/sprout/numeric/cxx14/transform_inclusive_scan.hpp b/sprout/numeric/cxx14/transform_inclusive_scan.hpp
index b2cf1a2..a7bbdd7 100644
--- a/sprout/numeric/cxx14/transform_inclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_inclusive_scan.hpp
@@ -23,8 +23,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	transform_inclusive_scan(InputIterator first, InputIterator last, OutputIterator result, BinaryOperation binary_op, UnaryOperation unary_op, T init) {
-		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
+		T sum = sprout::move(init);
 		*result = sum;
 		if (first == last) {
 			return ++result;
-- 
2.43.0


From ff999d9e8c26732d79a2330f67fdb233a63230ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 026/275] fix: fixed scans leave an empty result window empty

---
 sprout/numeric/fixed/adjacent_difference.hpp      |  4 ++--
 sprout/numeric/fixed/inclusive_scan.hpp           |  9 ++++++---
 sprout/numeric/fixed/partial_sum.hpp              |  4 ++--
 sprout/numeric/fixed/transform_inclusive_scan.hpp | 11 +++++++----
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index c614581..ed6e31a 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -149,7 +149,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? adjacent_difference_impl_1(sprout::next(first), last, result, binary_op, size, *first, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/inclusive_scan.hpp b/sprout/numeric/fixed/inclusive_scan.hpp
index c68052e..4fc34e3 100644
--- a/sprout/numeric/fixed/inclusive_scan.hpp
+++ b/sprout/numeric/fixed/inclusive_scan.hpp
@@ -66,10 +66,12 @@ namespace sprout {
 			>::type
 			inclusive_scan_impl(
 				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, T init,
-				typename sprout::container_traits<Result>::size_type
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
+				return size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -81,7 +83,8 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return size == 0 ? sprout::detail::container_complate(result)
+					: first != last
 					? partial_sum_impl_1(first, last, result, binary_op, size, init)
 					: sprout::detail::container_complate(result, init)
 					;
diff --git a/sprout/numeric/fixed/partial_sum.hpp b/sprout/numeric/fixed/partial_sum.hpp
index d0144cc..6e56a46 100644
--- a/sprout/numeric/fixed/partial_sum.hpp
+++ b/sprout/numeric/fixed/partial_sum.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, size, *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -149,7 +149,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? partial_sum_impl_1(sprout::next(first), last, result, binary_op, size, *first)
 					: sprout::detail::container_complate(result)
 					;
diff --git a/sprout/numeric/fixed/transform_inclusive_scan.hpp b/sprout/numeric/fixed/transform_inclusive_scan.hpp
index e2ad76a..2dcd2ad 100644
--- a/sprout/numeric/fixed/transform_inclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_inclusive_scan.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return first != last && size != 0
 					? transform_inclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, unary_op(*first))
 					: sprout::detail::container_complate(result)
 					;
@@ -115,10 +115,12 @@ namespace sprout {
 			>::type
 			transform_inclusive_scan_impl(
 				InputIterator const&, InputIterator const&, Result const& result, BinaryOperation, UnaryOperation, T init,
-				typename sprout::container_traits<Result>::size_type
+				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return sprout::remake<Result>(result, sprout::size(result), init);
+				return size != 0 ? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename BinaryOperation, typename UnaryOperation, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -130,7 +132,8 @@ namespace sprout {
 				typename sprout::container_traits<Result>::size_type size
 				)
 			{
-				return first != last
+				return size == 0 ? sprout::detail::container_complate(result)
+					: first != last
 					? transform_inclusive_scan_impl_1(first, last, result, binary_op, unary_op, size, init)
 					: sprout::detail::container_complate(result, init)
 					;
-- 
2.43.0


From b3ebb326959e0d0a03baa9edc426455dbdbfffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:08 +0000
Subject: [PATCH 027/275] fix: fit::partial_sum with an operation compiles

---
 sprout/numeric/fit/partial_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/numeric/fit/partial_sum.hpp b/sprout/numeric/fit/partial_sum.hpp
index bebe6e0..46cd572 100644
--- a/sprout/numeric/fit/partial_sum.hpp
+++ b/sprout/numeric/fit/partial_sum.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partial_sum(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From e4bd099cf914019dd053d6f4b59e7fe33d11c427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:08 +0000
Subject: [PATCH 028/275] fix: exclusive scans may write over their source

---
 sprout/numeric/cxx14/exclusive_scan.hpp           | 4 ++--
 sprout/numeric/cxx14/transform_exclusive_scan.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index b4b1cba..c4cd264 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -28,12 +28,12 @@ namespace sprout {
 			return result;
 		}
 		T sum = sprout::move(init);
-		*result = sum;
 		value_type temp = *first;
+		*result = sum;
 		while (++first != last) {
 			sum = binary_op(sum, temp);
-			*++result = sum;
 			temp = *first;
+			*++result = sum;
 		}
 		return ++result;
 	}
diff --git a/sprout/numeric/cxx14/transform_exclusive_scan.hpp b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
index 7cd89b0..3284976 100644
--- a/sprout/numeric/cxx14/transform_exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
@@ -27,12 +27,12 @@ namespace sprout {
 			return result;
 		}
 		T sum = sprout::move(init);
-		*result = sum;
 		T temp = unary_op(*first);
+		*result = sum;
 		while (++first != last) {
 			sum = binary_op(sum, temp);
-			*++result = sum;
 			temp = unary_op(*first);
+			*++result = sum;
 		}
 		return ++result;
 	}
-- 
2.43.0


From 788283168ef529b6a53c3491f36afc59baf8911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:31 +0000
Subject: [PATCH 029/275] fix: fit::adjacent_difference with an operation
 compiles

---
 sprout/numeric/fit/adjacent_difference.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/numeric/fit/adjacent_difference.hpp b/sprout/numeric/fit/adjacent_difference.hpp
index 22c0cb3..ff52387 100644
--- a/sprout/numeric/fit/adjacent_difference.hpp
+++ b/sprout/numeric/fit/adjacent_difference.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::adjacent_difference(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From 489f512dc572cce007e12ee1f2459ad503ba55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 030/275] fix: dft_iterator and idft_iterator compile when
 moved or compared

---
 sprout/iterator/dft_iterator.hpp  | 17 ++++++++++-------
 sprout/iterator/idft_iterator.hpp | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/sprout/iterator/dft_iterator.hpp b/sprout/iterator/dft_iterator.hpp
index 7f2b5d4..e751079 100644
--- a/sprout/iterator/dft_iterator.hpp
+++ b/sprout/iterator/dft_iterator.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 			: first_(first), last_(last), index_(index)
 			, size_(sprout::distance(first, last))
 		{}
+		SPROUT_CONSTEXPR difference_type index() const {
+			return index_;
+		}
 		SPROUT_CONSTEXPR dft_iterator next() const {
-			return dft_iterator(first_, last_, index_, index_ + 1, size_);
+			return dft_iterator(first_, last_, index_ + 1, size_);
 		}
 		SPROUT_CONSTEXPR dft_iterator prev() const {
-			return dft_iterator(first_, last_, index_, index_ - 1, size_);
+			return dft_iterator(first_, last_, index_ - 1, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(dft_iterator& other)
 		SPROUT_NOEXCEPT_IF(
@@ -112,18 +115,18 @@ namespace sprout {
 			return result;
 		}
 		SPROUT_CONSTEXPR dft_iterator operator+(difference_type n) const {
-			return dft_iterator(first_, last_, index_, index_ + n, size_);
+			return dft_iterator(first_, last_, index_ + n, size_);
 		}
 		SPROUT_CONSTEXPR dft_iterator operator-(difference_type n) const {
-			return dft_iterator(first_, last_, index_, index_ - n, size_);
+			return dft_iterator(first_, last_, index_ - n, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR dft_iterator& operator+=(difference_type n) {
-			dft_iterator temp(first_, last_, index_, index_ + n, size_);
+			dft_iterator temp(first_, last_, index_ + n, size_);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR dft_iterator& operator-=(difference_type n) {
-			dft_iterator temp(first_, last_, index_, index_ - n, size_);
+			dft_iterator temp(first_, last_, index_ - n, size_);
 			temp.swap(*this);
 			return *this;
 		}
@@ -145,7 +148,7 @@ namespace sprout {
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::dft_iterator<Iterator> const& lhs, sprout::dft_iterator<Iterator> const& rhs) {
-		return lhs.index_ < rhs.index_;
+		return lhs.index() < rhs.index();
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
diff --git a/sprout/iterator/idft_iterator.hpp b/sprout/iterator/idft_iterator.hpp
index 4a865a1..3e91382 100644
--- a/sprout/iterator/idft_iterator.hpp
+++ b/sprout/iterator/idft_iterator.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 			: first_(first), last_(last), index_(index)
 			, size_(sprout::distance(first, last))
 		{}
+		SPROUT_CONSTEXPR difference_type index() const {
+			return index_;
+		}
 		SPROUT_CONSTEXPR idft_iterator next() const {
-			return idft_iterator(first_, last_, index_, index_ + 1, size_);
+			return idft_iterator(first_, last_, index_ + 1, size_);
 		}
 		SPROUT_CONSTEXPR idft_iterator prev() const {
-			return idft_iterator(first_, last_, index_, index_ - 1, size_);
+			return idft_iterator(first_, last_, index_ - 1, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(idft_iterator& other)
 		SPROUT_NOEXCEPT_IF(
@@ -112,18 +115,18 @@ namespace sprout {
 			return result;
 		}
 		SPROUT_CONSTEXPR idft_iterator operator+(difference_type n) const {
-			return idft_iterator(first_, last_, index_, index_ + n, size_);
+			return idft_iterator(first_, last_, index_ + n, size_);
 		}
 		SPROUT_CONSTEXPR idft_iterator operator-(difference_type n) const {
-			return idft_iterator(first_, last_, index_, index_ - n, size_);
+			return idft_iterator(first_, last_, index_ - n, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR idft_iterator& operator+=(difference_type n) {
-			idft_iterator temp(first_, last_, index_, index_ + n, size_);
+			idft_iterator temp(first_, last_, index_ + n, size_);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR idft_iterator& operator-=(difference_type n) {
-			idft_iterator temp(first_, last_, index_, index_ - n, size_);
+			idft_iterator temp(first_, last_, index_ - n, size_);
 			temp.swap(*this);
 			return *this;
 		}
@@ -145,7 +148,7 @@ namespace sprout {
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::idft_iterator<Iterator> const& lhs, sprout::idft_iterator<Iterator> const& rhs) {
-		return lhs.index_ < rhs.index_;
+		return lhs.index() < rhs.index();
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 9b486b570f906be9905bc1a57692ae45d73c605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 031/275] fix: fixed::dft and idft of forward iterators use the
 input length

---
 sprout/numeric/dft/fixed/dft.hpp  | 2 +-
 sprout/numeric/dft/fixed/idft.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/dft/fixed/dft.hpp b/sprout/numeric/dft/fixed/dft.hpp
index 6c539f9..9f13acc 100644
--- a/sprout/numeric/dft/fixed/dft.hpp
+++ b/sprout/numeric/dft/fixed/dft.hpp
@@ -89,7 +89,7 @@ namespace sprout {
 				return first != last && sizeof...(Args) < size
 					? sprout::fixed::detail::dft_impl(
 						sprout::next(first), last, result, size, first_, i + 1,
-						args..., sprout::detail::dft_element_impl(first_, last, i, size)
+						args..., sprout::detail::dft_element_impl(first_, last, i, sprout::distance(first_, last))
 						)
 					: sprout::detail::container_complate(result, args...)
 					;
diff --git a/sprout/numeric/dft/fixed/idft.hpp b/sprout/numeric/dft/fixed/idft.hpp
index 0a4615d..7fa011e 100644
--- a/sprout/numeric/dft/fixed/idft.hpp
+++ b/sprout/numeric/dft/fixed/idft.hpp
@@ -89,7 +89,7 @@ namespace sprout {
 				return first != last && sizeof...(Args) < size
 					? sprout::fixed::detail::idft_impl(
 						sprout::next(first), last, result, size, first_, i + 1,
-						args..., sprout::detail::idft_element_impl(first_, last, i, size)
+						args..., sprout::detail::idft_element_impl(first_, last, i, sprout::distance(first_, last))
 						)
 					: sprout::detail::container_complate(result, args...)
 					;
-- 
2.43.0


From 2769d733ab70439c0eb1717e9ae86225ac164700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:53 +0000
Subject: [PATCH 032/275] fix: fixed waves and spectra start at the front of a
 view

---
 sprout/numeric/dft/fixed/amplitude_spectrum.hpp | 2 +-
 sprout/numeric/dft/fixed/phase_spectrum.hpp     | 2 +-
 sprout/numeric/dft/fixed/sawtooth.hpp           | 2 +-
 sprout/numeric/dft/fixed/sinusoid.hpp           | 2 +-
 sprout/numeric/dft/fixed/square.hpp             | 2 +-
 sprout/numeric/dft/fixed/triangle.hpp           | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/numeric/dft/fixed/amplitude_spectrum.hpp b/sprout/numeric/dft/fixed/amplitude_spectrum.hpp
index 8c33319..09995d0 100644
--- a/sprout/numeric/dft/fixed/amplitude_spectrum.hpp
+++ b/sprout/numeric/dft/fixed/amplitude_spectrum.hpp
@@ -41,7 +41,7 @@ namespace sprout {
 				return sprout::remake<Result>(
 					result, size,
 					(Indexes >= offset && sprout::math::less(Indexes, offset + size) && sprout::math::less(Indexes, offset + input_size)
-						? sprout::amplitude_spectrum_value(first[Indexes])
+						? sprout::amplitude_spectrum_value(first[Indexes - offset])
 						: *sprout::next(sprout::internal_begin(result), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/phase_spectrum.hpp b/sprout/numeric/dft/fixed/phase_spectrum.hpp
index e508db4..3466d0e 100644
--- a/sprout/numeric/dft/fixed/phase_spectrum.hpp
+++ b/sprout/numeric/dft/fixed/phase_spectrum.hpp
@@ -41,7 +41,7 @@ namespace sprout {
 				return sprout::remake<Result>(
 					result, size,
 					(Indexes >= offset && sprout::math::less(Indexes, offset + size) && sprout::math::less(Indexes, offset + input_size)
-						? sprout::phase_spectrum_value(first[Indexes])
+						? sprout::phase_spectrum_value(first[Indexes - offset])
 						: *sprout::next(sprout::internal_begin(result), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/sawtooth.hpp b/sprout/numeric/dft/fixed/sawtooth.hpp
index 5f1e661..008a605 100644
--- a/sprout/numeric/dft/fixed/sawtooth.hpp
+++ b/sprout/numeric/dft/fixed/sawtooth.hpp
@@ -36,7 +36,7 @@ namespace sprout {
 				return sprout::remake<Container>(
 					cont, size,
 					(Indexes >= offset && Indexes < offset + size
-						? sprout::detail::sawtooth_value(frequency, amplitude, phase, Indexes)
+						? sprout::detail::sawtooth_value(frequency, amplitude, phase, Indexes - offset)
 						: *sprout::next(sprout::internal_begin(cont), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/sinusoid.hpp b/sprout/numeric/dft/fixed/sinusoid.hpp
index de03dab..649b566 100644
--- a/sprout/numeric/dft/fixed/sinusoid.hpp
+++ b/sprout/numeric/dft/fixed/sinusoid.hpp
@@ -36,7 +36,7 @@ namespace sprout {
 				return sprout::remake<Container>(
 					cont, size,
 					(Indexes >= offset && Indexes < offset + size
-						? sprout::detail::sinusoid_value(amplitude, phase, d, Indexes)
+						? sprout::detail::sinusoid_value(amplitude, phase, d, Indexes - offset)
 						: *sprout::next(sprout::internal_begin(cont), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/square.hpp b/sprout/numeric/dft/fixed/square.hpp
index 9edb632..8424f9c 100644
--- a/sprout/numeric/dft/fixed/square.hpp
+++ b/sprout/numeric/dft/fixed/square.hpp
@@ -37,7 +37,7 @@ namespace sprout {
 				return sprout::remake<Container>(
 					cont, size,
 					(Indexes >= offset && Indexes < offset + size
-						? sprout::detail::square_value(frequency, amplitude, phase, duty, Indexes)
+						? sprout::detail::square_value(frequency, amplitude, phase, duty, Indexes - offset)
 						: *sprout::next(sprout::internal_begin(cont), Indexes)
 						)...
 					);
diff --git a/sprout/numeric/dft/fixed/triangle.hpp b/sprout/numeric/dft/fixed/triangle.hpp
index 1502de7..cd3ac60 100644
--- a/sprout/numeric/dft/fixed/triangle.hpp
+++ b/sprout/numeric/dft/fixed/triangle.hpp
@@ -36,7 +36,7 @@ namespace sprout {
 				return sprout::remake<Container>(
 					cont, size,
 					(Indexes >= offset && Indexes < offset + size
-						? sprout::detail::triangle_value(frequency, amplitude, phase, Indexes)
+						? sprout::detail::triangle_value(frequency, amplitude, phase, Indexes - offset)
 						: *sprout::next(sprout::internal_begin(cont), Indexes)
 						)...
 					);
-- 
2.43.0


From 2d2d45f5f0a044eac7617685ce871caf0835103b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 033/275] fix: fixed::ifft, fit::fft and fit::ifft compile

---
 sprout/numeric/fft/fixed/fft.hpp  | 26 ++++++++++++++++++++++++++
 sprout/numeric/fft/fixed/ifft.hpp |  1 +
 2 files changed, 27 insertions(+)

diff --git a/sprout/numeric/fft/fixed/fft.hpp b/sprout/numeric/fft/fixed/fft.hpp
index 4cfbf80..7f5e6e0 100644
--- a/sprout/numeric/fft/fixed/fft.hpp
+++ b/sprout/numeric/fft/fixed/fft.hpp
@@ -8,11 +8,13 @@
 #ifndef SPROUT_NUMERIC_FFT_FIXED_FFT_HPP
 #define SPROUT_NUMERIC_FFT_FIXED_FFT_HPP
 
+#include <iterator>
 #include <sprout/config.hpp>
 #include <sprout/array.hpp>
 #include <sprout/index_tuple/make_index_tuple.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
 #include <sprout/complex.hpp>
+#include <sprout/iterator/operation.hpp>
 #include <sprout/math/less.hpp>
 #include <sprout/pit/pit.hpp>
 #include <sprout/numeric/fft/coefficients.hpp>
@@ -82,6 +84,23 @@ namespace sprout {
 			make_input(Container const& cont) {
 				return make_input_impl(cont, sprout::make_index_tuple<Size>());
 			}
+			template<typename value_type, typename ForwardIterator, typename Size, sprout::index_t... Indexes>
+			inline SPROUT_CONSTEXPR sprout::array<value_type, sizeof...(Indexes)>
+			make_input_impl(ForwardIterator const& first, Size size, sprout::index_tuple<Indexes...>) {
+				return sprout::array<value_type, sizeof...(Indexes)> { {
+					(sprout::math::less(Indexes, size)
+						? *sprout::next(first, Indexes)
+						: static_cast<value_type>(0)
+						)...
+					} };
+			}
+			template<std::size_t Size, typename ForwardIterator>
+			inline SPROUT_CONSTEXPR sprout::array<typename std::iterator_traits<ForwardIterator>::value_type, Size>
+			make_input(ForwardIterator const& first, ForwardIterator const& last) {
+				return make_input_impl<typename std::iterator_traits<ForwardIterator>::value_type>(
+					first, sprout::distance(first, last), sprout::make_index_tuple<Size>()
+					);
+			}
 			template<typename value_type, std::size_t Size, typename Result, sprout::index_t... Indexes>
 			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 			make_fft_result_impl(sprout::array<sprout::complex<value_type>, Size> const& cont, Result const& result, sprout::index_tuple<Indexes...>) {
@@ -110,6 +129,13 @@ namespace sprout {
 		fft(Container const& cont) {
 			return sprout::fixed::fft(cont, sprout::pit<Result>());
 		}
+		template<typename ForwardIterator, typename Result>
+		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+		fft(ForwardIterator first, ForwardIterator last, Result const& result) {
+			return sprout::fixed::detail::make_fft_result(
+				sprout::fixed::detail::fft(sprout::fixed::detail::make_input<sprout::container_traits<Result>::static_size>(first, last)), result
+			);
+		}
 	}	// namespace fixed
 
 	using sprout::fixed::fft;
diff --git a/sprout/numeric/fft/fixed/ifft.hpp b/sprout/numeric/fft/fixed/ifft.hpp
index e3f0872..8a273fe 100644
--- a/sprout/numeric/fft/fixed/ifft.hpp
+++ b/sprout/numeric/fft/fixed/ifft.hpp
@@ -14,6 +14,7 @@
 #include <sprout/complex.hpp>
 #include <sprout/pit/pit.hpp>
 #include <sprout/numeric/fft/coefficients.hpp>
+#include <sprout/numeric/fft/fixed/fft.hpp>
 
 
 namespace sprout {
-- 
2.43.0


From f1d46033234149260efed136ceb0d20a42635aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 034/275] fix: sprout::empty compiles for containers

---
 sprout/container/container_range_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/container/container_range_traits.hpp b/sprout/container/container_range_traits.hpp
index 0d3881a..5027219 100644
--- a/sprout/container/container_range_traits.hpp
+++ b/sprout/container/container_range_traits.hpp
@@ -142,7 +142,7 @@ namespace sprout {
 	template<typename Container>
 	struct container_range_empty_default {
 	public:
-		static SPROUT_CONSTEXPR typename sprout::container_traits<Container const>::size_type
+		static SPROUT_CONSTEXPR bool
 		range_empty(Container const& cont) {
 			using sprout_container_range_detail::range_empty;
 			using sprout_adl::range_empty;
@@ -291,6 +291,7 @@ namespace sprout {
 		: public sprout::container_range_begin_default<Container>
 		, public sprout::container_range_end_default<Container>
 		, public sprout::container_range_size_default<Container>
+		, public sprout::container_range_empty_default<Container>
 		, public sprout::container_range_front_default<Container>
 		, public sprout::container_range_back_default<Container>
 		, public sprout::container_range_subscript_at_default<Container>
-- 
2.43.0


From 1dd0e4e4337c71ae4f1a3498c91c8e05122df326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:18 +0000
Subject: [PATCH 035/275] fix: cxx14 square wave compiles and takes the duty

---
 sprout/numeric/dft/cxx14/square.hpp       | 5 +++--
 sprout/range/numeric/dft/cxx14/square.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sprout/numeric/dft/cxx14/square.hpp b/sprout/numeric/dft/cxx14/square.hpp
index dfa4257..ba469ce 100644
--- a/sprout/numeric/dft/cxx14/square.hpp
+++ b/sprout/numeric/dft/cxx14/square.hpp
@@ -23,13 +23,14 @@ namespace sprout {
 		ForwardIterator first, ForwardIterator last,
 		typename std::iterator_traits<ForwardIterator>::value_type const& frequency = 1,
 		typename std::iterator_traits<ForwardIterator>::value_type const& amplitude = 1,
-		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0
+		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0,
+		typename std::iterator_traits<ForwardIterator>::value_type const& duty = 0.5
 		)
 	{
 		typedef typename std::iterator_traits<ForwardIterator>::difference_type difference_type;
 		difference_type i = 0;
 		while (first != last) {
-			*first++ = sprout::detail::square_value(frequency, amplitude, phase, i);
+			*first++ = sprout::detail::square_value(frequency, amplitude, phase, duty, i);
 			++i;
 		}
 	}
diff --git a/sprout/range/numeric/dft/cxx14/square.hpp b/sprout/range/numeric/dft/cxx14/square.hpp
index a623dc9..95bc78b 100644
--- a/sprout/range/numeric/dft/cxx14/square.hpp
+++ b/sprout/range/numeric/dft/cxx14/square.hpp
@@ -25,12 +25,13 @@ namespace sprout {
 			ForwardRange&& rng,
 			typename sprout::container_traits<ForwardRange>::value_type const& frequency = 1,
 			typename sprout::container_traits<ForwardRange>::value_type const& amplitude = 1,
-			typename sprout::container_traits<ForwardRange>::value_type const& phase = 0
+			typename sprout::container_traits<ForwardRange>::value_type const& phase = 0,
+			typename sprout::container_traits<ForwardRange>::value_type const& duty = 0.5
 			)
 		{
 			sprout::square(
 				sprout::begin(SPROUT_FORWARD(ForwardRange, rng)), sprout::end(SPROUT_FORWARD(ForwardRange, rng)),
-				frequency, amplitude, phase
+				frequency, amplitude, phase, duty
 				);
 		}
 	}	// namespace range
-- 
2.43.0


From c74a8829031e65b38c4bc44ae880caccfcf55b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:06 +0000
Subject: [PATCH 036/275] fix: cxx14 triangle wave compiles

---
 sprout/numeric/dft/cxx14/triangle.hpp       | 5 ++---
 sprout/range/numeric/dft/cxx14/triangle.hpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/sprout/numeric/dft/cxx14/triangle.hpp b/sprout/numeric/dft/cxx14/triangle.hpp
index acc795c..b26e9aa 100644
--- a/sprout/numeric/dft/cxx14/triangle.hpp
+++ b/sprout/numeric/dft/cxx14/triangle.hpp
@@ -23,14 +23,13 @@ namespace sprout {
 		ForwardIterator first, ForwardIterator last,
 		typename std::iterator_traits<ForwardIterator>::value_type const& frequency = 1,
 		typename std::iterator_traits<ForwardIterator>::value_type const& amplitude = 1,
-		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0,
-		typename std::iterator_traits<ForwardIterator>::value_type const& duty = 0.5
+		typename std::iterator_traits<ForwardIterator>::value_type const& phase = 0
 		)
 	{
 		typedef typename std::iterator_traits<ForwardIterator>::difference_type difference_type;
 		difference_type i = 0;
 		while (first != last) {
-			*first++ = sprout::detail::triangle_value(frequency, amplitude, phase, duty, i);
+			*first++ = sprout::detail::triangle_value(frequency, amplitude, phase, i);
 			++i;
 		}
 	}
diff --git a/sprout/range/numeric/dft/cxx14/triangle.hpp b/sprout/range/numeric/dft/cxx14/triangle.hpp
index 11a675e..cc1a35b 100644
--- a/sprout/range/numeric/dft/cxx14/triangle.hpp
+++ b/sprout/range/numeric/dft/cxx14/triangle.hpp
@@ -25,13 +25,12 @@ namespace sprout {
 			ForwardRange&& rng,
 			typename sprout::container_traits<ForwardRange>::value_type const& frequency = 1,
 			typename sprout::container_traits<ForwardRange>::value_type const& amplitude = 1,
-			typename sprout::container_traits<ForwardRange>::value_type const& phase = 0,
-			typename sprout::container_traits<ForwardRange>::value_type const& duty = 0.5
+			typename sprout::container_traits<ForwardRange>::value_type const& phase = 0
 			)
 		{
 			sprout::triangle(
 				sprout::begin(SPROUT_FORWARD(ForwardRange, rng)), sprout::end(SPROUT_FORWARD(ForwardRange, rng)),
-				frequency, amplitude, phase, duty
+				frequency, amplitude, phase
 				);
 		}
 	}	// namespace range
-- 
2.43.0


From dd0167ea78f82fc79520a51ac556a0818c1a354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:06 +0000
Subject: [PATCH 037/275] fix: bit_reverse_in of zero bits is 0

---
 sprout/bit/bit_reverse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bit/bit_reverse.hpp b/sprout/bit/bit_reverse.hpp
index 3a46d39..3a20c80 100644
--- a/sprout/bit/bit_reverse.hpp
+++ b/sprout/bit/bit_reverse.hpp
@@ -79,7 +79,7 @@ namespace sprout {
 	bit_reverse_in(Integral x, int length) {
 		typedef typename std::make_unsigned<Integral>::type unsigned_type;
 		return SPROUT_ASSERT(length <= sizeof(Integral) * CHAR_BIT),
-			static_cast<Integral>(
+			length == 0 ? Integral(0) : static_cast<Integral>(
 				sprout::detail::bit_rev<sizeof(Integral)>().template operator()<unsigned_type>(x)
 					>> (sizeof(Integral) * CHAR_BIT - length)
 				)
-- 
2.43.0


From b0f502c1a7e8837c3a41b8e31662b0cae5281b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:06 +0000
Subject: [PATCH 038/275] fix: fixed::fft computes the forward transform

---
 sprout/numeric/fft/coefficients.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fft/coefficients.hpp b/sprout/numeric/fft/coefficients.hpp
index 7aaf90f..b4580ed 100644
--- a/sprout/numeric/fft/coefficients.hpp
+++ b/sprout/numeric/fft/coefficients.hpp
@@ -53,8 +53,8 @@ namespace sprout {
 			return make_fft_coefficients_impl(
 				make_fft_coefficients_loop<value_type, N - 1, Size>(inverse),
 				{ 
-					sprout::cos((inverse?-1:1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1))),
-					sprout::sin((inverse?-1:1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1)))
+					sprout::cos((inverse?1:-1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1))),
+					sprout::sin((inverse?1:-1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1)))
 				},
 				sprout::make_index_tuple<1 << (N - 1)>()
 				);
-- 
2.43.0


From ad8db6e0477a90f4cb39ce58e2690c3fac3d698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:57 +0000
Subject: [PATCH 039/275] fix: fix: index_iterator converts to the constant
 iterator of the same kind

---
 sprout/iterator/index_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/iterator/index_iterator.hpp b/sprout/iterator/index_iterator.hpp
index 33b4bca..3b84ed9 100644
--- a/sprout/iterator/index_iterator.hpp
+++ b/sprout/iterator/index_iterator.hpp
@@ -49,7 +49,7 @@ namespace sprout {
 			>::type
 		>
 		, public sprout::detail::iterator_to_pointer_base<
-			sprout::index_iterator<Container, ConvertibleToPointer>,
+			sprout::index_iterator<Container, ConvertibleToPointer, Subscript>,
 			typename std::conditional<
 				std::is_const<typename std::remove_reference<Container>::type>::value,
 				typename sprout::container_traits<typename std::remove_reference<Container>::type>::const_pointer,
@@ -109,8 +109,8 @@ namespace sprout {
 		SPROUT_CONSTEXPR index_iterator(typename holder_type::param_type p, difference_type index)
 			: holder_(p), index_(index)
 		{}
-		SPROUT_CONSTEXPR operator index_iterator<const_container_type>() const {
-			return index_iterator<const_container_type>(holder_.get(), index_);
+		SPROUT_CONSTEXPR operator index_iterator<const_container_type, ConvertibleToPointer, Subscript>() const {
+			return index_iterator<const_container_type, ConvertibleToPointer, Subscript>(holder_.get(), index_);
 		}
 		SPROUT_CONSTEXPR typename holder_type::mutable_or_const_reference base() const {
 			return holder_.get();
-- 
2.43.0


From 39080f9405c38d8c1fcbcd4174af2918063180e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:57 +0000
Subject: [PATCH 040/275] fix: fix: sprout::data(std::array) compiles

---
 sprout/container/std/array.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sprout/container/std/array.hpp b/sprout/container/std/array.hpp
index 2d7987b..54d54cb 100644
--- a/sprout/container/std/array.hpp
+++ b/sprout/container/std/array.hpp
@@ -59,9 +59,13 @@ namespace sprout {
 			return typename sprout::container_traits<std::array<T, N> const>::iterator(cont, cont.size());
 		}
 		// data access:
+		static SPROUT_CONSTEXPR typename sprout::container_traits<std::array<T, N> >::pointer
+		range_data(std::array<T, N>& cont) {
+			return sprout::addressof(sprout::front(cont));
+		}
 		static SPROUT_CONSTEXPR typename sprout::container_traits<std::array<T, N> const>::pointer
 		range_data(std::array<T, N> const& cont) {
-			return sprout::addressof(range_front(cont));
+			return sprout::addressof(sprout::front(cont));
 		}
 	};
 }	// namespace sprout
-- 
2.43.0


From 72b0cba204fd65e1c0db8b2839a1cf5f03cb2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:57 +0000
Subject: [PATCH 041/275] fix: fix: hash_value of pit and sized_pit compiles

---
 sprout/pit/hash.hpp       | 2 +-
 sprout/sized_pit/hash.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/pit/hash.hpp b/sprout/pit/hash.hpp
index 36714df..cf9969a 100644
--- a/sprout/pit/hash.hpp
+++ b/sprout/pit/hash.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR std::size_t
 	hash_value(sprout::pit<Container> const& v) {
-		return sprout::to_hash(v.elem);
+		return sprout::to_hash(v.front());
 	}
 }	// namespace sprout
 
diff --git a/sprout/sized_pit/hash.hpp b/sprout/sized_pit/hash.hpp
index a563467..5a090ef 100644
--- a/sprout/sized_pit/hash.hpp
+++ b/sprout/sized_pit/hash.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR std::size_t
 	hash_value(sprout::sized_pit<Container> const& v) {
-		return sprout::to_hash(v.elem);
+		return sprout::to_hash(v.front());
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 4863d4a6cc3b948990c5c755b10fc7f8be13dcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:41 +0000
Subject: [PATCH 042/275] fix: sub, csub and sub_copy of a whole container are
 not ambiguous

---
 sprout/sub_array/sub.hpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/sprout/sub_array/sub.hpp b/sprout/sub_array/sub.hpp
index a5783df..8097910 100644
--- a/sprout/sub_array/sub.hpp
+++ b/sprout/sub_array/sub.hpp
@@ -137,12 +137,6 @@ namespace sprout {
 		return sprout::sub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container&> >::type
-	sub(Container& arr) {
-		return sprout::sub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// csub
 	//
@@ -224,12 +218,6 @@ namespace sprout {
 		return sprout::csub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container const&> >::type
-	csub(Container const& arr) {
-		return sprout::csub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// sub_copy
 	//
@@ -310,12 +298,6 @@ namespace sprout {
 	{
 		return sprout::sub_window_copy(arr, to_first);
 	}
-
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container> >::type
-	sub_copy(Container const& arr) {
-		return sprout::sub_copy(arr, sprout::begin(arr), sprout::end(arr));
-	}
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_SUB_ARRAY_SUB_HPP
-- 
2.43.0


From 0c2dc3f94358b697cc895dd0d9ba0dc4fe6f063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:16 +0000
Subject: [PATCH 043/275] fix: push/pop members of a view over a reference
 compile

---
 sprout/sub_array/sub_array.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index 4fbf582..aebfc9f 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -470,30 +470,30 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type const& x) {
-			impl_.array_[impl_.to_last_] = x;
+			get_internal()[impl_.to_last_] = x;
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type&& x) {
-			impl_.array_[impl_.to_last_] = sprout::move(x);
+			get_internal()[impl_.to_last_] = sprout::move(x);
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_back() {
-			impl_.array_[impl_.to_last_ - 1] = value_type();
+			get_internal()[impl_.to_last_ - 1] = value_type();
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_back() {
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type const& x) {
-			impl_.array_[impl_.to_first_ - 1] = x;
+			get_internal()[impl_.to_first_ - 1] = x;
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type&& x) {
-			impl_.array_[impl_.to_first_ - 1] = sprout::move(x);
+			get_internal()[impl_.to_first_ - 1] = sprout::move(x);
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_front() {
-			impl_.array_[impl_.to_first_] = value_type();
+			get_internal()[impl_.to_first_] = value_type();
 			++impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_front() {
-- 
2.43.0


From 779c3473cee740aa9a2d270850649e09e965700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:16 +0000
Subject: [PATCH 044/275] fix: const window/offset of a view over a reference
 compile

---
 sprout/sub_array/sub_array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index aebfc9f..9a3a8d2 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -426,10 +426,10 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first = 0) const {
-			return sub_array(impl_.array_, to_first, size());
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, size());
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first, difference_type to_last) const {
-			return sub_array(impl_.array_, to_first, to_last);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, to_last);
 		}
 		SPROUT_CONSTEXPR sub_array cwindow(difference_type to_first = 0) const {
 			return window(to_first);
@@ -444,7 +444,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array offset(difference_type from_begin = 0, difference_type from_end = 0) const {
-			return sub_array(impl_.array_, impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
 		}
 		SPROUT_CONSTEXPR sub_array coffset(difference_type from_begin = 0, difference_type from_end = 0) const {
 			return offset(from_begin, from_end);
-- 
2.43.0


From ced23ca157afca847c6ce6ea2e8e5a1caf766a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:16 +0000
Subject: [PATCH 045/275] fix: sub_array::window(to_first) takes the size
 before moving the start

---
 sprout/sub_array/sub_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index 9a3a8d2..dd59f54 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -416,8 +416,8 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR sub_array& window(difference_type to_first = 0) {
-			impl_.to_first_ = to_first;
 			impl_.to_last_ = size();
+			impl_.to_first_ = to_first;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sub_array& window(difference_type to_first, difference_type to_last) {
-- 
2.43.0


From 6edb28ee73ddb34db292c0a05bb8605579f045c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:16 +0000
Subject: [PATCH 046/275] fix: views of different length are not equal

---
 sprout/sub_array/comparison.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/sub_array/comparison.hpp b/sprout/sub_array/comparison.hpp
index 3d59886..b7a7554 100644
--- a/sprout/sub_array/comparison.hpp
+++ b/sprout/sub_array/comparison.hpp
@@ -26,7 +26,9 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::sub_array<Container> const& lhs, sprout::sub_array<Container> const& rhs) {
-		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs));
+		return sprout::size(lhs) == sprout::size(rhs)
+			&& sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs))
+			;
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 30a4affec9528b0528ee64ff0c039f31ccb11bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:16 +0000
Subject: [PATCH 047/275] fix: sized_pit iterates, assigns and swaps its size

---
 sprout/sized_pit/sized_pit.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sprout/sized_pit/sized_pit.hpp b/sprout/sized_pit/sized_pit.hpp
index f9fd429..472b1b1 100644
--- a/sprout/sized_pit/sized_pit.hpp
+++ b/sprout/sized_pit/sized_pit.hpp
@@ -60,10 +60,12 @@ namespace sprout {
 		{}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(sized_pit const& rhs) {
 			elem = rhs.elem;
+			size_ = rhs.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(sized_pit&& rhs) {
 			elem = sprout::move(rhs.elem);
+			size_ = rhs.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR sized_pit& operator=(value_type const& rhs) {
@@ -78,13 +80,14 @@ namespace sprout {
 		SPROUT_NOEXCEPT_IF_EXPR(sprout::swap(elem, other.elem))
 		{
 			sprout::swap(elem, other.elem);
+			sprout::swap(size_, other.size_);
 		}
 		// iterators:
 		SPROUT_CXX14_CONSTEXPR iterator begin() {
-			return iterator(elem, enumerable_size);
+			return iterator(elem, size_);
 		}
 		SPROUT_CONSTEXPR const_iterator begin() const {
-			return const_iterator(elem, enumerable_size);
+			return const_iterator(elem, size_);
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
 			return iterator(elem, 0);
@@ -105,7 +108,7 @@ namespace sprout {
 			return const_reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_iterator cbegin() const SPROUT_NOEXCEPT {
-			return const_iterator(elem, enumerable_size);
+			return const_iterator(elem, size_);
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
 			return const_iterator(elem, 0);
-- 
2.43.0


From 27e59c247183d31f9adda8bc98acdf272b3d337f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:36 +0000
Subject: [PATCH 048/275] fix: sized_pit comparison is element-wise

---
 sprout/sized_pit/comparison.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/sized_pit/comparison.hpp b/sprout/sized_pit/comparison.hpp
index e2245cf..24408e8 100644
--- a/sprout/sized_pit/comparison.hpp
+++ b/sprout/sized_pit/comparison.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::sized_pit<Container> const& lhs, sprout::sized_pit<Container> const& rhs) {
-		return lhs.front() == rhs.front();
+		return lhs.size() == rhs.size() && (lhs.empty() || lhs.front() == rhs.front());
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
@@ -33,7 +33,9 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::sized_pit<Container> const& lhs, sprout::sized_pit<Container> const& rhs) {
-		return lhs.front() < rhs.front();
+		return lhs.empty() || rhs.empty() ? lhs.size() < rhs.size()
+			: lhs.front() < rhs.front() || (!(rhs.front() < lhs.front()) && lhs.size() < rhs.size())
+			;
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From c932e16d30f3d03de921c691e731453bed6aab52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:30 +0000
Subject: [PATCH 049/275] fix: hash of sized_pit follows its elements

---
 sprout/sized_pit/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/sized_pit/hash.hpp b/sprout/sized_pit/hash.hpp
index 5a090ef..a543c1b 100644
--- a/sprout/sized_pit/hash.hpp
+++ b/sprout/sized_pit/hash.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR std::size_t
 	hash_value(sprout::sized_pit<Container> const& v) {
-		return sprout::to_hash(v.front());
+		return sprout::hash_range(v);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 26e1ca6f5b427ee459205ee0b8bb89474a8c96bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:39 +0000
Subject: [PATCH 050/275] fix: the fit container operations compile

---
 sprout/operation/fit/append.hpp          | 6 ++++--
 sprout/operation/fit/append_back.hpp     | 6 ++++--
 sprout/operation/fit/append_front.hpp    | 6 ++++--
 sprout/operation/fit/erase.hpp           | 6 ++++--
 sprout/operation/fit/erase_n.hpp         | 6 ++++--
 sprout/operation/fit/insert.hpp          | 6 ++++--
 sprout/operation/fit/insert_n.hpp        | 6 ++++--
 sprout/operation/fit/pop_back.hpp        | 6 ++++--
 sprout/operation/fit/pop_back_n.hpp      | 6 ++++--
 sprout/operation/fit/pop_front.hpp       | 6 ++++--
 sprout/operation/fit/pop_front_n.hpp     | 6 ++++--
 sprout/operation/fit/push_back.hpp       | 6 ++++--
 sprout/operation/fit/push_back_n.hpp     | 6 ++++--
 sprout/operation/fit/push_front.hpp      | 6 ++++--
 sprout/operation/fit/push_front_n.hpp    | 6 ++++--
 sprout/operation/fit/realign.hpp         | 6 ++++--
 sprout/operation/fit/realign_to.hpp      | 6 ++++--
 sprout/operation/fit/resize.hpp          | 6 ++++--
 sprout/operation/fit/resize_backward.hpp | 6 ++++--
 sprout/operation/fit/set.hpp             | 6 ++++--
 20 files changed, 80 insertions(+), 40 deletions(-)

diff --git a/sprout/operation/fit/append.hpp b/sprout/operation/fit/append.hpp
index 7b72f91..3264fe9 100644
--- a/sprout/operation/fit/append.hpp
+++ b/sprout/operation/fit/append.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_HPP
 #define SPROUT_OPERATION_FIT_APPEND_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/append.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct append {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::append<Container, Input>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_back.hpp b/sprout/operation/fit/append_back.hpp
index f2495a1..868064d 100644
--- a/sprout/operation/fit/append_back.hpp
+++ b/sprout/operation/fit/append_back.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 #define SPROUT_OPERATION_FIT_APPEND_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/append_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -24,9 +26,9 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_back {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::append_back<Container, Input>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/append_front.hpp b/sprout/operation/fit/append_front.hpp
index a364222..4eaa397 100644
--- a/sprout/operation/fit/append_front.hpp
+++ b/sprout/operation/fit/append_front.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 #define SPROUT_OPERATION_FIT_APPEND_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/append_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -24,9 +26,9 @@ namespace sprout {
 			template<typename Container, typename Input>
 			struct append_front {
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::append_front<Container, Input>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase.hpp b/sprout/operation/fit/erase.hpp
index 7939b44..7e4f997 100644
--- a/sprout/operation/fit/erase.hpp
+++ b/sprout/operation/fit/erase.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_HPP
 #define SPROUT_OPERATION_FIT_ERASE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/erase.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct erase {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::erase<Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 2266afa..23aea72 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_ERASE_N_HPP
 #define SPROUT_OPERATION_FIT_ERASE_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/erase_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct erase_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::erase_n<N, Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert.hpp b/sprout/operation/fit/insert.hpp
index 7ec7c34..4831896 100644
--- a/sprout/operation/fit/insert.hpp
+++ b/sprout/operation/fit/insert.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_HPP
 #define SPROUT_OPERATION_FIT_INSERT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/insert.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct insert {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::insert<Container, T, Values...>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/insert_n.hpp b/sprout/operation/fit/insert_n.hpp
index 48ee75b..e4d9176 100644
--- a/sprout/operation/fit/insert_n.hpp
+++ b/sprout/operation/fit/insert_n.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_INSERT_N_HPP
 #define SPROUT_OPERATION_FIT_INSERT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/insert_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct insert_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::insert_n<N, Container, T, Values...>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back.hpp b/sprout/operation/fit/pop_back.hpp
index 2486e27..51a8e4d 100644
--- a/sprout/operation/fit/pop_back.hpp
+++ b/sprout/operation/fit/pop_back.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/pop_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct pop_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::pop_back<Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_back_n.hpp b/sprout/operation/fit/pop_back_n.hpp
index dd491dd..bb6ec9e 100644
--- a/sprout/operation/fit/pop_back_n.hpp
+++ b/sprout/operation/fit/pop_back_n.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_POP_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/pop_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct pop_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::pop_back_n<N, Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front.hpp b/sprout/operation/fit/pop_front.hpp
index b34f6d7..1fb24f5 100644
--- a/sprout/operation/fit/pop_front.hpp
+++ b/sprout/operation/fit/pop_front.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/pop_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct pop_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::pop_front<Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/pop_front_n.hpp b/sprout/operation/fit/pop_front_n.hpp
index a591b6c..7b9b64e 100644
--- a/sprout/operation/fit/pop_front_n.hpp
+++ b/sprout/operation/fit/pop_front_n.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_POP_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/pop_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct pop_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::pop_front_n<N, Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back.hpp b/sprout/operation/fit/push_back.hpp
index b056ec2..941f86e 100644
--- a/sprout/operation/fit/push_back.hpp
+++ b/sprout/operation/fit/push_back.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/push_back.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct push_back {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::push_back<Container, T, Values...>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_back_n.hpp b/sprout/operation/fit/push_back_n.hpp
index 3dd2372..aa99fdc 100644
--- a/sprout/operation/fit/push_back_n.hpp
+++ b/sprout/operation/fit/push_back_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_BACK_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/push_back_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct push_back_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::push_back_n<N, Container, T, Values...>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front.hpp b/sprout/operation/fit/push_front.hpp
index 589bfad..3f7dfbb 100644
--- a/sprout/operation/fit/push_front.hpp
+++ b/sprout/operation/fit/push_front.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/push_front.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct push_front {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::push_front<Container, T, Values...>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/push_front_n.hpp b/sprout/operation/fit/push_front_n.hpp
index 7493c31..b2e2d48 100644
--- a/sprout/operation/fit/push_front_n.hpp
+++ b/sprout/operation/fit/push_front_n.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 #define SPROUT_OPERATION_FIT_PUSH_FRONT_N_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/push_front_n.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct push_front_n {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::push_front_n<N, Container, T, Values...>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign.hpp b/sprout/operation/fit/realign.hpp
index 3e65ad5..1d6b625 100644
--- a/sprout/operation/fit/realign.hpp
+++ b/sprout/operation/fit/realign.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/realign.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct realign {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::realign<Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/realign_to.hpp b/sprout/operation/fit/realign_to.hpp
index 86e1557..53722e2 100644
--- a/sprout/operation/fit/realign_to.hpp
+++ b/sprout/operation/fit/realign_to.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 #define SPROUT_OPERATION_FIT_REALIGN_TO_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/realign_to.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -25,9 +27,9 @@ namespace sprout {
 			struct realign_to {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::realign_to<Result, Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize.hpp b/sprout/operation/fit/resize.hpp
index 69e70a1..c772c5f 100644
--- a/sprout/operation/fit/resize.hpp
+++ b/sprout/operation/fit/resize.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/resize.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct resize {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::resize<N, Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/resize_backward.hpp b/sprout/operation/fit/resize_backward.hpp
index 00bdc8c..8edd0a6 100644
--- a/sprout/operation/fit/resize_backward.hpp
+++ b/sprout/operation/fit/resize_backward.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 #define SPROUT_OPERATION_FIT_RESIZE_BACKWARD_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/resize_backward.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct resize_backward {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::resize_backward<N, Container>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
diff --git a/sprout/operation/fit/set.hpp b/sprout/operation/fit/set.hpp
index 1089748..1e04452 100644
--- a/sprout/operation/fit/set.hpp
+++ b/sprout/operation/fit/set.hpp
@@ -8,10 +8,12 @@
 #ifndef SPROUT_OPERATION_FIT_SET_HPP
 #define SPROUT_OPERATION_FIT_SET_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/set.hpp>
 #include <sprout/sub_array/sub_array.hpp>
 #include <sprout/sub_array/sub.hpp>
@@ -26,9 +28,9 @@ namespace sprout {
 			struct set {
 			public:
 				typedef sprout::sub_array<
-					typename sprout::container_traits<
+					typename std::decay<typename sprout::containers::internal<
 						typename sprout::fixed::results::set<Container, T>::type
-					>::internal_type
+					>::type>::type
 				> type;
 			};
 		}	// namespace results
-- 
2.43.0


From 60c6fa077276e55f943b24f77f5e39fe8fa4ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:39 +0000
Subject: [PATCH 051/275] fix: fit::erase_n shortens the view by N

---
 sprout/operation/fit/erase_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/operation/fit/erase_n.hpp b/sprout/operation/fit/erase_n.hpp
index 23aea72..cf8c81c 100644
--- a/sprout/operation/fit/erase_n.hpp
+++ b/sprout/operation/fit/erase_n.hpp
@@ -44,7 +44,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 		template<std::size_t N, typename Container>
@@ -53,7 +53,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::erase_n<N>(cont, pos)),
 				sprout::internal_begin_offset(cont),
-				sprout::internal_end_offset(cont) - 1
+				sprout::internal_end_offset(cont) - N
 				);
 		}
 	}	// namespace fit
-- 
2.43.0


From 278f542d4df9430e7b60d8362e2cb4fb54b051ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:39 +0000
Subject: [PATCH 052/275] fix: fit::realign_to a smaller container stays inside
 it

---
 sprout/operation/fit/realign_to.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/operation/fit/realign_to.hpp b/sprout/operation/fit/realign_to.hpp
index 53722e2..88c9221 100644
--- a/sprout/operation/fit/realign_to.hpp
+++ b/sprout/operation/fit/realign_to.hpp
@@ -11,7 +11,9 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/container/traits.hpp>
+#include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/algorithm/min.hpp>
 #include <sprout/container/internal.hpp>
 #include <sprout/operation/fixed/realign_to.hpp>
 #include <sprout/sub_array/sub_array.hpp>
@@ -43,7 +45,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::realign_to<Result>(cont, v)),
 				0,
-				sprout::size(cont)
+				sprout::min<std::ptrdiff_t>(sprout::size(cont), sprout::container_traits<Result>::static_size)
 				);
 		}
 		template<typename Result, typename Container>
@@ -52,7 +54,7 @@ namespace sprout {
 			return sprout::sub_copy(
 				sprout::get_internal(sprout::fixed::realign_to<Result>(cont)),
 				0,
-				sprout::size(cont)
+				sprout::min<std::ptrdiff_t>(sprout::size(cont), sprout::container_traits<Result>::static_size)
 				);
 		}
 	}	// namespace fit
-- 
2.43.0


From bf3e39b5614c4ad2a838e048830fb3e591cd75e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:39 +0000
Subject: [PATCH 053/275] fix: basic_string: string iterator overloads of
 find_last_of, find_first_not_of, find_last_not_of

---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 44d4637..d022487 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1022,7 +1022,7 @@ namespace sprout {
 			is_string_iterator<StringConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(StringConstIterator s, size_type pos = 0) const {
+		find_last_of(StringConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
@@ -1039,7 +1039,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(StringConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -1055,7 +1055,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(StringConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From fe5b47912b46e5491b087069694537270b25de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:39 +0000
Subject: [PATCH 054/275] fix: basic_string: non-const rbegin/rend

---
 sprout/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index d022487..0ba88f7 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -492,7 +492,7 @@ namespace sprout {
 #endif
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rbegin() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(end());
+			return reverse_iterator(end());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rbegin() const SPROUT_NOEXCEPT {
@@ -500,7 +500,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rend() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(begin());
+			return reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rend() const SPROUT_NOEXCEPT {
-- 
2.43.0


From ef3c4ab9d1471a9b0759613328f3313977e22249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:35 +0000
Subject: [PATCH 055/275] fix: basic_string: assign/append from input iterators
 stay within the capacity

---
 sprout/string/string.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 0ba88f7..cf61055 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -310,15 +310,11 @@ namespace sprout {
 		template<typename InputIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(InputIterator first, InputIterator last, std::input_iterator_tag*) {
-			iterator it = begin();
-			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
-					throw std::length_error("basic_string<>: length exceeded");
-				}
-				traits_type::assign(*it, *first);
+			basic_string str;
+			for (; first != last; ++first) {
+				str.push_back(*first);
 			}
-			put_terminator(sprout::distance(begin(), it));
-			return *this;
+			return assign(str);
 		}
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
@@ -334,15 +330,11 @@ namespace sprout {
 		template<typename InputIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(InputIterator first, InputIterator last, std::input_iterator_tag*) {
-			iterator it = end();
-			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
-					throw std::length_error("basic_string<>: length exceeded");
-				}
-				traits_type::assign(*it, *first);
+			basic_string str;
+			for (; first != last; ++first) {
+				str.push_back(*first);
 			}
-			put_terminator(size() + sprout::distance(end(), it));
-			return *this;
+			return append(str);
 		}
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
-- 
2.43.0


From d87b0f1beef990783f7e72a5aee42ee7be19d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:35 +0000
Subject: [PATCH 056/275] fix: basic_string: length checks of append do not
 overflow; assign(n, c) reports length_error

---
 sprout/string/string.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index cf61055..f67cb7d 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -301,6 +301,12 @@ namespace sprout {
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR void
+		addcheck(size_type n) const {
+			if (n > max_size() - size()) {
+				throw std::length_error("basic_string<>: length exceeded");
+			}
+		}
+		SPROUT_CXX14_CONSTEXPR void
 		put_terminator(size_type n) {
 			if (n < size()) {
 				traits_type::assign(begin() + n, size() - n, value_type());
@@ -339,7 +345,7 @@ namespace sprout {
 		template<typename ForwardIterator>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(ForwardIterator first, ForwardIterator last, std::forward_iterator_tag*) {
-			lengthcheck(size() + sprout::distance(first, last));
+			addcheck(sprout::distance(first, last));
 			iterator it = end();
 			for (; first != last; ++first, ++it) {
 				traits_type::assign(*it, *first);
@@ -617,7 +623,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(value_type const* s, size_type n) {
-			lengthcheck(size() + n);
+			addcheck(n);
 			traits_type::move(end(), s, n);
 			put_terminator(size() + n);
 			return *this;
@@ -628,7 +634,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		append(size_type n, value_type c) {
-			lengthcheck(size() + n);
+			addcheck(n);
 			traits_type::assign(end(), n, c);
 			put_terminator(size() + n);
 			return *this;
@@ -675,7 +681,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		assign(size_type n, value_type c) {
-			maxcheck(n);
+			lengthcheck(n);
 			traits_type::assign(begin(), n, c);
 			put_terminator(n);
 			return *this;
@@ -911,7 +917,7 @@ namespace sprout {
 			basic_string&
 		>::type
 		append(StringConstIterator s, size_type n) {
-			lengthcheck(size() + n);
+			addcheck(n);
 			traits_type::move(end(), s, n);
 			put_terminator(size() + n);
 			return *this;
@@ -1145,7 +1151,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		operator>>=(T const& rhs) {
-			lengthcheck(size() + 1);
+			addcheck(1);
 			traits_type::move(begin() + 1, begin(), size());
 			traits_type::assign(begin(), 1, rhs);
 			put_terminator(size() + 1);
@@ -1154,7 +1160,7 @@ namespace sprout {
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		operator>>=(value_type const* rhs) {
 			size_type rlen = traits_type::length(rhs);
-			lengthcheck(size() + rlen);
+			addcheck(rlen);
 			traits_type::move(begin() + rlen, begin(), size());
 			traits_type::move(begin(), rhs, rlen);
 			put_terminator(size() + rlen);
@@ -1163,7 +1169,7 @@ namespace sprout {
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		operator>>=(basic_string<T, N2, Traits> const& rhs) {
-			lengthcheck(size() + rhs.size());
+			addcheck(rhs.size());
 			traits_type::move(begin() + rhs.size(), begin(), size());
 			traits_type::move(begin(), rhs.begin(), rhs.size());
 			put_terminator(size() + rhs.size());
@@ -1171,7 +1177,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR basic_string&
 		operator>>=(std::initializer_list<value_type> rhs) {
-			lengthcheck(size() + rhs.size());
+			addcheck(rhs.size());
 			traits_type::move(begin() + rhs.size(), begin(), size());
 			traits_type::move(begin(), rhs.begin(), rhs.size());
 			put_terminator(size() + rhs.size());
-- 
2.43.0


From 3b252ac6092d90b801e588d2da2a99316f6e89dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:35 +0000
Subject: [PATCH 057/275] fix: basic_string: substr keeps embedded nulls,
 construction from a substring checks the position

---
 sprout/string/string.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f67cb7d..9b6cf6e 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -367,14 +367,16 @@ namespace sprout {
 		SPROUT_CONSTEXPR basic_string(basic_string const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, !(str.size() < pos) ? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+					: throw std::out_of_range("basic_string<>: index out of range")
 				)
 		{}
 		template<std::size_t N2, typename Enable = typename std::enable_if<(N2 < N)>::type>
 		SPROUT_CONSTEXPR basic_string(basic_string<T, N2, Traits> const& str, size_type pos, size_type n = npos)
 			: impl_(
 				sprout::make_index_tuple<N2>::make(),
-				str, pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+				str, pos, !(str.size() < pos) ? NS_SSCRISK_CEL_OR_SPROUT::min(n, str.size() - pos)
+					: throw std::out_of_range("basic_string<>: index out of range")
 				)
 		{}
 		template<std::size_t N2 SPROUT_ENABLE_IF_WITH_ARRAY_IN_TEMPLATE_PARAMS((N2 - 1 <= N))>
@@ -848,7 +850,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR basic_string
 		substr(size_type pos = 0, size_type n = npos) const {
-			return !(size() < pos) ? from_c_str(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
+			return !(size() < pos) ? basic_string(*this, pos, n)
 				: throw std::out_of_range("basic_string<>: index out of range")
 				;
 		}
-- 
2.43.0


From 173dc1f31372a2edcbb300717f38ed51a47a7d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:35 +0000
Subject: [PATCH 058/275] fix: char_traits: compare does not stop at null
 characters

---
 sprout/string/char_traits.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 96bff81..21bb77a 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -94,8 +94,8 @@ namespace sprout {
 #endif
 		static SPROUT_CONSTEXPR int compare(char_type const* s1, char_type const* s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				sprout::ptr_index(s1), sprout::ptr_index(s1, n), char_type(),
-				sprout::ptr_index(s2), sprout::ptr_index(s2, n), char_type(),
+				sprout::ptr_index(s1), sprout::ptr_index(s1, n),
+				sprout::ptr_index(s2), sprout::ptr_index(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
@@ -164,24 +164,24 @@ namespace sprout {
 		template<typename ForwardIterator>
 		static SPROUT_CONSTEXPR int compare(char_type const* s1, ForwardIterator s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				sprout::ptr_index(s1), sprout::ptr_index(s1, n), char_type(),
-				s2, sprout::next(s2, n), char_type(),
+				sprout::ptr_index(s1), sprout::ptr_index(s1, n),
+				s2, sprout::next(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
 		template<typename ForwardIterator>
 		static SPROUT_CONSTEXPR int compare(ForwardIterator s1, char_type const* s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				s1, sprout::next(s1, n), char_type(),
-				sprout::ptr_index(s2), sprout::ptr_index(s2, n), char_type(),
+				s1, sprout::next(s1, n),
+				sprout::ptr_index(s2), sprout::ptr_index(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
 		template<typename ForwardIterator1, typename ForwardIterator2>
 		static SPROUT_CONSTEXPR int compare(ForwardIterator1 s1, ForwardIterator2 s2, std::size_t n) {
 			return sprout::tristate_lexicographical_compare(
-				s1, sprout::next(s1, n), char_type(),
-				s2, sprout::next(s2, n), char_type(),
+				s1, sprout::next(s1, n),
+				s2, sprout::next(s2, n),
 				sprout::detail::char_traits_lt<char_traits>()
 				);
 		}
-- 
2.43.0


From 0d912801acaf8d1dfc72c10f5af76a7ef38c48ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:35 +0000
Subject: [PATCH 059/275] fix: char_traits: move handles a destination that
 precedes an overlapping source

---
 sprout/string/char_traits.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 21bb77a..0965e80 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -73,6 +73,16 @@ namespace sprout {
 				: found
 				;
 		}
+		template<typename Iterator1, typename Iterator2>
+		static SPROUT_CXX14_CONSTEXPR void move_impl(Iterator1 s1, Iterator2 s2, std::size_t n) {
+			for (std::size_t i = 1; i < n; ++i) {
+				if (&*sprout::next(s2, i) == &*s1) {
+					sprout::copy_backward(s2, sprout::next(s2, n), sprout::next(s1, n));
+					return;
+				}
+			}
+			sprout::copy(s2, sprout::next(s2, n), s1);
+		}
 	public:
 		static SPROUT_CXX14_CONSTEXPR void assign(char_type& c1, char_type const& c2) SPROUT_NOEXCEPT {
 			c1 = c2;
@@ -114,7 +124,7 @@ namespace sprout {
 				);
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* move(char_type* s1, char_type const* s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, sprout::next(s1, n));
+			move_impl(s1, s2, n);
 			return s1;
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* copy(char_type* s1, char_type const* s2, std::size_t n) {
@@ -200,7 +210,7 @@ namespace sprout {
 		}
 		template<typename BidirectionalIterator1, typename BidirectionalIterator2>
 		static SPROUT_CXX14_CONSTEXPR BidirectionalIterator1 move(BidirectionalIterator1 s1, BidirectionalIterator2 s2, std::size_t n) {
-			sprout::copy_backward(s2, sprout::next(s2, n), sprout::next(s1, n));
+			move_impl(s1, s2, n);
 			return s1;
 		}
 		template<typename OutputIterator, typename BidirectionalIterator>
-- 
2.43.0


From 557140a12b0a6d26e35554954d9576a7f488ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:44 +0000
Subject: [PATCH 060/275] fix: basic_string: stream output writes size()
 characters, input keeps what it read

---
 sprout/string/io.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sprout/string/io.hpp b/sprout/string/io.hpp
index aceddb9..08d29b3 100644
--- a/sprout/string/io.hpp
+++ b/sprout/string/io.hpp
@@ -10,6 +10,7 @@
 
 #include <istream>
 #include <ostream>
+#include <string>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/string/string.hpp>
@@ -30,9 +31,9 @@ namespace sprout {
 		typedef typename string_type::size_type size_type;
 		std::ios_base::iostate state = std::ios_base::goodbit;
 		bool changed = false;
-		size_type current = 0;
 		if (typename istream_type::sentry(lhs)) {
 			ctype_type const& ctype_fac = std::use_facet<ctype_type>(lhs.getloc());
+			rhs.clear();
 			try {
 				size_type remain = 0 < lhs.width() && static_cast<size_type>(lhs.width()) < rhs.max_size()
 					? static_cast<size_type>(lhs.width())
@@ -46,9 +47,8 @@ namespace sprout {
 					} else if (ctype_fac.is(ctype_type::space, traits_type::to_char_type(meta))) {
 						break;
 					} else {
-						rhs[current] = traits_type::to_char_type(meta);
+						rhs.push_back(traits_type::to_char_type(meta));
 						changed = true;
-						++current;
 					}
 			} catch (...) {
 				state |= std::ios_base::badbit;
@@ -59,13 +59,12 @@ namespace sprout {
 			state |= std::ios_base::failbit;
 		}
 		lhs.setstate(state);
-		rhs.resize(current);
 		return lhs;
 	}
 	template<typename T, std::size_t N, typename Traits, typename StreamTraits>
 	inline SPROUT_NON_CONSTEXPR std::basic_ostream<T, StreamTraits>&
 	operator<<(std::basic_ostream<T, StreamTraits>& lhs, sprout::basic_string<T, N, Traits> const& rhs) {
-		return lhs << rhs.c_str();
+		return lhs << std::basic_string<T, StreamTraits>(rhs.data(), rhs.size());
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 7d0a5226f85f7dd0f3a22867d08e8fd50a09790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:47 +0000
Subject: [PATCH 061/275] fix: string_view: iterator overloads of find_last_of,
 find_first_not_of, find_last_not_of

---
 sprout/utility/string_view/string_view.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 0618b92..672cd5b 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -505,7 +505,7 @@ namespace sprout {
 			is_string_view_iterator<ConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(ConstIterator s, size_type pos = 0) const {
+		find_last_of(ConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
@@ -522,7 +522,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(ConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -538,7 +538,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(ConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string_view>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename ConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From d0c3c0e60eb278a660cb52cf168ea32d5e8d3f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:06 +0000
Subject: [PATCH 062/275] fix: string_view: substr clamps the count to the view

---
 sprout/utility/string_view/string_view.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 672cd5b..41fde00 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -365,9 +365,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR basic_string_view
 		substr(size_type pos = 0, size_type n = npos) const {
-			return !(size() < pos) ? n == npos
-					? substr(pos, size() - pos)
-					: basic_string_view(c_str() + pos, n)
+			return !(size() < pos) ? basic_string_view(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
 				: throw std::out_of_range("basic_string_view<>: index out of range")
 				;
 		}
-- 
2.43.0


From faa18d4889abfc1d13f0bdfe88295069c9cf18cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:06 +0000
Subject: [PATCH 063/275] fix: string_view: to_string<N> reads only the viewed
 characters

---
 sprout/utility/string_view/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 41fde00..0b832c2 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -418,7 +418,7 @@ namespace sprout {
 		template<std::size_t N>
 		SPROUT_CONSTEXPR sprout::basic_string<T, N, Traits>
 		to_string() const {
-			return sprout::basic_string<T, N, Traits>(ptr_, size());
+			return sprout::basic_string<T, N, Traits>(begin(), end());
 		}
 		template<typename Allocator = std::allocator<T> >
 		SPROUT_NON_CONSTEXPR std::basic_string<T, Traits, Allocator>
-- 
2.43.0


From 67e582e3b5c778849c58516c2102f864e6849550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 064/275] fix: string_view: operator<< is a formatted output
 function

---
 sprout/utility/string_view/io.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sprout/utility/string_view/io.hpp b/sprout/utility/string_view/io.hpp
index 711f0c4..90b0cc4 100644
--- a/sprout/utility/string_view/io.hpp
+++ b/sprout/utility/string_view/io.hpp
@@ -8,11 +8,10 @@
 #ifndef SPROUT_UTILITY_STRING_IO_HPP
 #define SPROUT_UTILITY_STRING_IO_HPP
 
-#include <iterator>
 #include <istream>
 #include <ostream>
+#include <string>
 #include <sprout/config.hpp>
-#include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/utility/string_view/string_view.hpp>
 
 namespace sprout {
@@ -22,8 +21,7 @@ namespace sprout {
 	template<typename T, typename Traits, typename StreamTraits>
 	inline SPROUT_NON_CONSTEXPR std::basic_ostream<T, StreamTraits>&
 	operator<<(std::basic_ostream<T, StreamTraits>& lhs, sprout::basic_string_view<T, Traits> const& rhs) {
-		sprout::copy(rhs.begin(), rhs.end(), std::ostreambuf_iterator<T, StreamTraits>(lhs));
-		return lhs;
+		return lhs << std::basic_string<T, StreamTraits>(rhs.data(), rhs.size());
 	}
 }	// namespace sprout
 
-- 
2.43.0


From dab8ee6ebfc6c03464f10b2e9336173ef87ac156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:15 +0000
Subject: [PATCH 065/275] fix: string_view: copy accepts pos == size()

---
 sprout/utility/string_view/string_view.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 0b832c2..ef91c1c 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -358,7 +358,9 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR size_type
 		copy(value_type* s, size_type n, size_type pos = 0) const {
-			rangecheck(pos);
+			if (pos > size()) {
+				throw std::out_of_range("basic_string_view<>: index out of range");
+			}
 			size_type llen = NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos);
 			traits_type::copy(s, begin() + pos, llen);
 			return llen;
-- 
2.43.0


From 6e150dd6ad442fa957800d67ed5d72214e94f40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:12 +0000
Subject: [PATCH 066/275] fix: bitset: construction from a character pointer

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 1bab338..5a086c3 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -1146,7 +1146,7 @@ namespace sprout {
 		}
 		template<typename Char>
 		explicit SPROUT_NON_CONSTEXPR bitset(
-			Char const* str, typename std::basic_string<Char>::size_typeype n = std::basic_string<Char>::npos,
+			Char const* str, typename std::basic_string<Char>::size_type n = std::basic_string<Char>::npos,
 			Char zero = SPROUT_CHAR_LITERAL('0', Char), Char one = SPROUT_CHAR_LITERAL('1', Char)
 			)
 			: base_type()
-- 
2.43.0


From 8d030b4e0754457e7d0316d6a84407837885f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:12 +0000
Subject: [PATCH 067/275] fix: bitset: find_first and find_next

---
 sprout/bitset/bitset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 5a086c3..b1cf2c9 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 				return first == last ? not_found
 					: *first != static_cast<word_type>(0)
 						? i * (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) + sprout::ctz(*first)
-					: find_next_impl_2(not_found, first + 1, last)
+					: find_next_impl_2(not_found, first + 1, last, i + 1)
 					;
 			}
 			SPROUT_CONSTEXPR size_type
@@ -1389,11 +1389,11 @@ namespace sprout {
 
 		SPROUT_CONSTEXPR size_type
 		find_first() const SPROUT_NOEXCEPT {
-			return this->find_first(N);
+			return base_type::find_first(N);
 		}
 		SPROUT_CONSTEXPR size_type
 		find_next(size_type prev) const SPROUT_NOEXCEPT {
-			return this->find_next(prev, N);
+			return base_type::find_next(prev, N);
 		}
 
 	public:
-- 
2.43.0


From cc7a34bcabcc40cad4684e2ce1c217d93842c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:50 +0000
Subject: [PATCH 068/275] fix: bitset: no shift by the full word width when
 constructing from an integer

---
 sprout/bitset/bitset.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index b1cf2c9..29b834a 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -230,7 +230,13 @@ namespace sprout {
 			{}
 			base_bitset(base_bitset<N> const&) = default;
 			SPROUT_CONSTEXPR base_bitset(unsigned long long val) SPROUT_NOEXCEPT
-				: w_{word_type(val), word_type(val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value))}
+				: w_{
+					word_type(val),
+					word_type(sprout::detail::sizeof_<unsigned long long>::value > sprout::detail::sizeof_<unsigned long>::value
+						? val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) % (CHAR_BIT * sprout::detail::sizeof_<unsigned long long>::value)
+						: 0
+						)
+					}
 			{}
 			template<typename... Words>
 			SPROUT_CONSTEXPR base_bitset(sprout::detail::base_bitset_from_words_construct_tag, Words... words)
-- 
2.43.0


From 86f9d69c3e67d9acf550eb3ce6dbf803fc856ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:50 +0000
Subject: [PATCH 069/275] fix: bitset: set/reset/flip of a position in
 bitset<0>

---
 sprout/bitset/bitset.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 29b834a..a66a6fa 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -733,11 +733,9 @@ namespace sprout {
 				return *this;
 			}
 
-			SPROUT_CXX14_CONSTEXPR word_type
-			getword(size_type, bool c = false) SPROUT_NOEXCEPT {
-				return SPROUT_ASSERT_MSG(!c, "base_bitset::getword"),
-					0
-					;
+			SPROUT_NON_CONSTEXPR word_type&
+			getword(size_type) {
+				throw std::out_of_range("base_bitset::getword");
 			}
 			SPROUT_CONSTEXPR word_type
 			getword(size_type) const SPROUT_NOEXCEPT {
-- 
2.43.0


From 6e4ed78fb876e780c3803030631cafc9ec94fbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:50 +0000
Subject: [PATCH 070/275] fix: bitset: operator>> reports failure when no bit
 was read

---
 sprout/bitset/io.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sprout/bitset/io.hpp b/sprout/bitset/io.hpp
index 1b83d86..b0a859b 100644
--- a/sprout/bitset/io.hpp
+++ b/sprout/bitset/io.hpp
@@ -58,10 +58,9 @@ namespace sprout {
 			state |= ios_base::failbit;
 		} else {
 			rhs.copy_from_string(tmp, static_cast<std::size_t>(0), N, zero, one);
-			if (state) {
-				lhs.setstate(state);
-				return lhs;
-			}
+		}
+		if (state) {
+			lhs.setstate(state);
 		}
 		return lhs;
 	}
-- 
2.43.0


From 518924bc8923657613c66f4ff89da1e0d89fd87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 071/275] fix: reverse_iterator::swap calls itself instead of
 swapping the base iterators (+=, -= do not compile)

---
 sprout/iterator/reverse_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 2990599..0d6c427 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -109,10 +109,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(reverse_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
-- 
2.43.0


From eaa161398e4d95b62a9b664b6dc00d1e48b2d33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 072/275] fix: bind2nd cannot modify its argument, so
 valarray's computed assignments do not compile

---
 sprout/functional/bind2nd.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sprout/functional/bind2nd.hpp b/sprout/functional/bind2nd.hpp
index 20dd994..b3b563f 100644
--- a/sprout/functional/bind2nd.hpp
+++ b/sprout/functional/bind2nd.hpp
@@ -67,6 +67,11 @@ namespace sprout {
 			operator()(U const& x) const {
 				return op(x, value);
 			}
+			template<typename U>
+			SPROUT_CONSTEXPR decltype(std::declval<Fn const&>()(std::declval<U&>(), std::declval<value_type const&>()))
+			operator()(U& x) const {
+				return op(x, value);
+			}
 		};
 	}	// namespace detail
 	template<typename Fn, typename T = void>
-- 
2.43.0


From 98f40e8bccd471f523f8647d9d186801abc87b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 073/275] fix: valarray copy and move assignment name members
 the class does not have

---
 sprout/valarray/valarray.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 4fe2156..467d76d 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -227,14 +227,14 @@ namespace sprout {
 		// assignment:
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray const& rhs) {
-			impl_.array_ = rhs.array_;
-			impl_.size_ = rhs.size_;
+			impl_.array_ = rhs.impl_.array_;
+			impl_.size_ = rhs.impl_.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray&& rhs) SPROUT_NOEXCEPT {
-			impl_.array_ = sprout::move(rhs.array_);
-			impl_.size_ = sprout::move(rhs.size_);
+			impl_.array_ = sprout::move(rhs.impl_.array_);
+			impl_.size_ = sprout::move(rhs.impl_.size_);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
-- 
2.43.0


From 5b21dce7094882905810d3f95738ea5403ec03fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 074/275] fix: valarray::empty() is inverted

---
 sprout/valarray/valarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 467d76d..8a53531 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -526,7 +526,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR bool
 		empty() const SPROUT_NOEXCEPT {
-			return size() != 0;
+			return size() == 0;
 		}
 		// element access (array):
 		SPROUT_CXX14_CONSTEXPR reference
-- 
2.43.0


From 947f615f235e01b4b185ae42b166edaadd1dde1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 075/275] fix: valarray trigonometric functions: own include
 guard, well-formed atan2, const function objects

---
 sprout/valarray/trigonometric.hpp | 33 +++++++++++++++++--------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 2af3144..d174e84 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -5,13 +5,16 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_VALARRAY_BITWISE_HPP
-#define SPROUT_VALARRAY_BITWISE_HPP
+#ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
+#define SPROUT_VALARRAY_TRIGONOMETRIC_HPP
 
 #include <utility>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/valarray/valarray.hpp>
 #include <sprout/algorithm/fixed/transform.hpp>
+#include <sprout/functional/transparent.hpp>
+#include <sprout/functional/bind2nd.hpp>
+#include <sprout/functional/bind1st.hpp>
 #include <sprout/math/acos.hpp>
 #include <sprout/math/asin.hpp>
 #include <sprout/math/atan.hpp>
@@ -56,7 +59,7 @@ namespace sprout_math_detail {
 	call_atan2(T&& x, U&& y)
 	SPROUT_NOEXCEPT_IF_EXPR(atan2(std::declval<T>(), std::declval<U>()))
 	{
-		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, u));
+		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR decltype(cos(std::declval<T>()))
@@ -90,7 +93,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_acos(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acos(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_acos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_acos(SPROUT_FORWARD(T, x));
 			}
@@ -102,7 +105,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_asin(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asin(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_asin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_asin(SPROUT_FORWARD(T, x));
 			}
@@ -114,7 +117,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_atan(SPROUT_FORWARD(T, x));
 			}
@@ -126,7 +129,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -138,7 +141,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cos(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cos(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cos(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cos(SPROUT_FORWARD(T, x));
 			}
@@ -150,7 +153,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sin(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sin(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sin(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sin(SPROUT_FORWARD(T, x));
 			}
@@ -162,7 +165,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_tan(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tan(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_tan(std::declval<T>()))
 			{
 				return sprout_math_detail::call_tan(SPROUT_FORWARD(T, x));
 			}
@@ -199,17 +202,17 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::atan2_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::atan2_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
-	atan2(sprout::valarray<T, N> const& lhs, T const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f()()), y));
+	atan2(sprout::valarray<T, N> const& x, T const& y) {
+		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f(), y));
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(T const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f()()), x));
+		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f(), x));
 	}
 	//
 	// cos
@@ -237,4 +240,4 @@ namespace sprout {
 	}
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_VALARRAY_BITWISE_HPP
+#endif	// #ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
-- 
2.43.0


From 2cae206ef45f064b93268d2a2a1bf2c82721851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 076/275] fix: valarray hypot, pow, log_a read the second
 operand from end()

---
 sprout/valarray/power.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index 448af94..2886fd4 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -13,6 +13,9 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/valarray/valarray.hpp>
 #include <sprout/algorithm/fixed/transform.hpp>
+#include <sprout/functional/transparent.hpp>
+#include <sprout/functional/bind2nd.hpp>
+#include <sprout/functional/bind1st.hpp>
 #include <sprout/math/cbrt.hpp>
 #include <sprout/math/abs.hpp>
 #include <sprout/math/hypot.hpp>
@@ -84,7 +87,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_cbrt(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cbrt(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_cbrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_cbrt(SPROUT_FORWARD(T, x));
 			}
@@ -96,7 +99,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_abs(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_abs(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_abs(std::declval<T>()))
 			{
 				return sprout_math_detail::call_abs(SPROUT_FORWARD(T, x));
 			}
@@ -108,7 +111,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_hypot(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -120,7 +123,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_pow(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -132,7 +135,7 @@ namespace sprout {
 			template<typename T>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_sqrt(std::declval<T>()))
 			operator()(T&& x)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sqrt(std::declval<T>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_sqrt(std::declval<T>()))
 			{
 				return sprout_math_detail::call_sqrt(SPROUT_FORWARD(T, x));
 			}
@@ -144,7 +147,7 @@ namespace sprout {
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			operator()(T&& x, U&& y)
-			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
+			const SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_log_a(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 			}
@@ -173,7 +176,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	hypot(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::hypot_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::hypot_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -191,7 +194,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	pow(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::pow_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::pow_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -217,7 +220,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	log_a(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::log_a_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::log_a_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
-- 
2.43.0


From 12ee1a4d3e32ed4375937bf20fff348a8485e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 077/275] fix: assigning a valarray view to one of the same
 type rebinds it instead of assigning the elements

---
 sprout/valarray/gslice_array.hpp   | 5 +++++
 sprout/valarray/indirect_array.hpp | 5 +++++
 sprout/valarray/mask_array.hpp     | 5 +++++
 sprout/valarray/slice_array.hpp    | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/sprout/valarray/gslice_array.hpp b/sprout/valarray/gslice_array.hpp
index 990c90a..c122d93 100644
--- a/sprout/valarray/gslice_array.hpp
+++ b/sprout/valarray/gslice_array.hpp
@@ -115,6 +115,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR gslice_array(gslice_array const& other)
 			: arr_(other.arr_), start_(other.start_), size_(other.size_), stride_(other.stride_)
 		{}
+		SPROUT_CXX14_CONSTEXPR gslice_array const&
+		operator=(gslice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR gslice_array const&
 		operator=(gslice_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/indirect_array.hpp b/sprout/valarray/indirect_array.hpp
index d11ba2c..7263193 100644
--- a/sprout/valarray/indirect_array.hpp
+++ b/sprout/valarray/indirect_array.hpp
@@ -51,6 +51,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR indirect_array(indirect_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR indirect_array const&
+		operator=(indirect_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR indirect_array const&
 		operator=(indirect_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/mask_array.hpp b/sprout/valarray/mask_array.hpp
index ca1585c..d692135 100644
--- a/sprout/valarray/mask_array.hpp
+++ b/sprout/valarray/mask_array.hpp
@@ -59,6 +59,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR mask_array(mask_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR mask_array const&
+		operator=(mask_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR mask_array const&
 		operator=(mask_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index 062ff9c..a82bb60 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -74,6 +74,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR slice_array(slice_array const& other)
 			: arr_(other.arr_), slice_(other.slice_)
 		{}
+		SPROUT_CXX14_CONSTEXPR slice_array const&
+		operator=(slice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR slice_array const&
 		operator=(slice_array<T, N2> const& ar) const {
-- 
2.43.0


From 0fc01c0722eaf931f1e0fc67d52a7a73f8652bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:07 +0000
Subject: [PATCH 078/275] fix: valarray shift fills with value-initialised
 elements; shift/cshift accept any amount

---
 sprout/valarray/valarray.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 8a53531..59f76b4 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -421,15 +421,18 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR valarray
 		shift(int i) const {
-			return i > 0 ? sprout::fixed::copy(begin() + i, end(), *this)
-				: i < 0 ? sprout::fixed::copy_backward(begin(), end() + i, *this)
-				: *this
+			return i >= 0
+				? static_cast<std::size_t>(i) < size() ? sprout::fixed::copy(begin() + i, end(), valarray(size()))
+					: valarray(size())
+				: static_cast<std::size_t>(-(i + 1)) + 1 < size() ? sprout::fixed::copy_backward(begin(), end() + i, valarray(size()))
+				: valarray(size())
 				;
 		}
 		SPROUT_CONSTEXPR valarray
 		cshift(int i) const {
-			return i > 0 ? sprout::fixed::rotate(*this, begin() + i)
-				: i < 0 ? sprout::fixed::rotate(*this, end() + i)
+			return size() == 0 ? *this
+				: i > 0 ? sprout::fixed::rotate(*this, begin() + static_cast<std::size_t>(i) % size())
+				: i < 0 ? sprout::fixed::rotate(*this, begin() + (size() - 1 - static_cast<std::size_t>(-(i + 1)) % size()))
 				: *this
 				;
 		}
-- 
2.43.0


From 431457c72397c08554a9ae12a084fa2d16190750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 079/275] fix: slice_array::at() accepts positions past the
 slice

---
 sprout/valarray/slice_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index a82bb60..9b85a4f 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -214,7 +214,9 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR reference
 		at(size_type i) const {
-			return arr_->at(slice_.start() + slice_.stride() * i);
+			return i < size() ? arr_->at(slice_.start() + slice_.stride() * i)
+				: (throw std::out_of_range("slice_array<>: index out of range"), (*this)[i])
+				;
 		}
 		SPROUT_CONSTEXPR reference
 		front() const {
-- 
2.43.0


From 90a1fe3dc4ecc2ab0453b62a1cd59a701e54d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 080/275] fix: moving an optional of a reference does not
 compile

---
 sprout/optional/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index 73ec217..cca08fd 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -125,7 +125,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR optional(optional&& v)
 		SPROUT_NOEXCEPT_IF(std::is_nothrow_move_constructible<T>::value)
 			: init(v.init)
-			, val(v.is_initialized() ? holder_type(sprout::move(get(v))) : holder_type())
+			, val(v.is_initialized() ? holder_type(get(sprout::move(v))) : holder_type())
 		{}
 #endif
 		SPROUT_CONSTEXPR optional(T const& v)
@@ -170,7 +170,7 @@ namespace sprout {
 		template<typename U>
 		explicit SPROUT_CONSTEXPR optional(optional<U>&& v)
 			: init(v.is_initialized())
-			, val(v.is_initialized() ? holder_type(sprout::move(optional<U>::get(v))) : holder_type())
+			, val(v.is_initialized() ? holder_type(optional<U>::get(sprout::move(v))) : holder_type())
 		{}
 		// 20.6.4.3, assignment
 		SPROUT_CXX14_CONSTEXPR optional& operator=(sprout::nullopt_t v) SPROUT_NOEXCEPT {
-- 
2.43.0


From 3f546524051b741bf50cd30722a14ab737682c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 081/275] fix: reverse iteration over an engaged optional
 dereferences a null pointer

---
 sprout/optional/optional.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index cca08fd..adf8ecf 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -371,10 +371,14 @@ namespace sprout {
 				;
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
-			return iterator();
+			return is_initialized() ? iterator(val, 0)
+				: iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_iterator end() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator rbegin() SPROUT_NOEXCEPT {
 			return reverse_iterator(end());
@@ -394,7 +398,9 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return const_reverse_iterator(end());
-- 
2.43.0


From be7166ea2c7de4a8f3863352302b06bf16a0f841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 082/275] fix: get_pointer(optional) and get(optional*) are not
 null for a disengaged optional

---
 sprout/optional/optional.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index adf8ecf..c1bf543 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -79,13 +79,17 @@ namespace sprout {
 			return sprout::get(t.val);
 		}
 		static SPROUT_CONSTEXPR pointer_type get_pointer(optional& t) SPROUT_NOEXCEPT {
-			return sprout::get_pointer(t.val);
+			return t.is_initialized() ? sprout::get_pointer(t.val)
+				: 0
+				;
 		}
 		static SPROUT_CONSTEXPR pointer_type get_pointer(optional&& t) SPROUT_NOEXCEPT {
 			return get_pointer(t);
 		}
 		static SPROUT_CONSTEXPR pointer_const_type get_pointer(optional const& t) SPROUT_NOEXCEPT {
-			return sprout::get_pointer(t.val);
+			return t.is_initialized() ? sprout::get_pointer(t.val)
+				: 0
+				;
 		}
 		static SPROUT_CONSTEXPR reference_type get_value_or(optional& t, reference_type v) SPROUT_NOEXCEPT {
 			return t.is_initialized() ? sprout::get(t.val)
-- 
2.43.0


From 9e8bceeb160bff8f89080e8a1f4685e5fac9c414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:02 +0000
Subject: [PATCH 083/275] fix: reading an optional stores an unread (possibly
 uninitialised) value after a failed extraction

---
 sprout/optional/io.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/io.hpp b/sprout/optional/io.hpp
index a3f4bac..4c14196 100644
--- a/sprout/optional/io.hpp
+++ b/sprout/optional/io.hpp
@@ -25,8 +25,9 @@ namespace sprout {
 			int d = lhs.get();
 			if (d == ' ') {
 				T x;
-				lhs >> x;
-				rhs = x;
+				if (lhs >> x) {
+					rhs = x;
+				}
 			} else {
 				if (d == '-') {
 					d = lhs.get();
-- 
2.43.0


From 40ed0cccb673232ae804b0c8bd191f846a32225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:38 +0000
Subject: [PATCH 084/275] fix: SPROUT_ENABLE_ASSERT_HANDLER does not compile

---
 sprout/assert.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/assert.hpp b/sprout/assert.hpp
index c03f300..fb04eb4 100644
--- a/sprout/assert.hpp
+++ b/sprout/assert.hpp
@@ -14,6 +14,8 @@
 #	include <sprout/preprocessor/cat.hpp>
 #	include <sprout/preprocessor/variadic/size.hpp>
 #elif defined(SPROUT_ENABLE_ASSERT_HANDLER)
+#	include <cstdlib>
+#	include <iostream>
 #	include <sprout/config.hpp>
 #	include <sprout/preprocessor/config.hpp>
 #	include <sprout/preprocessor/cat.hpp>
@@ -84,7 +86,7 @@ namespace sprout {
 	//
 	inline SPROUT_NON_CONSTEXPR bool
 	assertion_failed_default(sprout::assertion_info_msg const& info) {
-		return (std::cerr << "***** Internal Program Error - assertion (" << info.expr() << ") failed: " << info.file() << "(" << info.line() << ")" << ": " << msg << std::endl),
+		return (std::cerr << "***** Internal Program Error - assertion (" << info.expr() << ") failed: " << info.file() << "(" << info.line() << ")" << ": " << info.msg() << std::endl),
 			std::abort(), false
 			;
 	}
@@ -217,7 +219,7 @@ namespace sprout {
 	}	// namespace detail
 }	// namespace sprout
 
-#	define SPROUT_ASSERT_1(expr) \
+#	define SPROUT_ASSERT_1(expr) ( \
 		(void)sprout::detail::assertion_check( \
 			(expr), SPROUT_ASSERTION_FAILED_FORMAT(expr, __FILE__, __LINE__), \
 			#expr, "(unknown)"/*SPROUT_CURRENT_FUNCTION*/, __FILE__, __LINE__ \
-- 
2.43.0


From 382dfee77f5179c8f138dc108a5d444fd354c62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 085/275] fix: copying a non-const variant selects the
 converting constructor and does not compile

---
 sprout/variant/variant.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/variant/variant.hpp b/sprout/variant/variant.hpp
index f8917a6..1c86521 100644
--- a/sprout/variant/variant.hpp
+++ b/sprout/variant/variant.hpp
@@ -231,7 +231,10 @@ namespace sprout {
 		{}
 		variant(variant const&) = default;
 		variant(variant&&) = default;
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CONSTEXPR variant(T&& operand)
 			: impl_type(
 				SPROUT_FORWARD(T, operand),
@@ -254,7 +257,10 @@ namespace sprout {
 			static_cast<impl_type&>(*this) = sprout::move(rhs);
 			return *this;
 		}
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CXX14_CONSTEXPR variant& operator=(T&& rhs) {
 			static_cast<impl_type&>(*this) = variant(SPROUT_FORWARD(T, rhs));
 			return *this;
-- 
2.43.0


From 4465762707906b57042990c79016a2d802c7dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 086/275] fix: get of an rvalue tuple with reference elements

---
 sprout/tuple/tuple/tuple_decl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/tuple/tuple/tuple_decl.hpp b/sprout/tuple/tuple/tuple_decl.hpp
index 4110cdf..b02c3b9 100644
--- a/sprout/tuple/tuple/tuple_decl.hpp
+++ b/sprout/tuple/tuple/tuple_decl.hpp
@@ -64,7 +64,7 @@ namespace sprout {
 				}
 				static SPROUT_CONSTEXPR value_type&&
 				get(element_holder&& t) {
-					return sprout::move(t.value_);
+					return static_cast<value_type&&>(t.value_);
 				}
 				static SPROUT_CONSTEXPR value_type const&
 				get(element_holder const& t) {
-- 
2.43.0


From ba04f81960cb2a193a95c142d8464e08318599b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 087/275] fix: tuple assignment moved out of objects referenced
 by the source

---
 sprout/tuple/tuple/tuple_decl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/tuple/tuple/tuple_decl.hpp b/sprout/tuple/tuple/tuple_decl.hpp
index b02c3b9..0901ae4 100644
--- a/sprout/tuple/tuple/tuple_decl.hpp
+++ b/sprout/tuple/tuple/tuple_decl.hpp
@@ -297,7 +297,7 @@ namespace sprout {
 			SPROUT_CXX14_CONSTEXPR void
 			assign_impl(Tuple&& t, sprout::index_tuple<Indexes...>) {
 				typedef typename std::decay<Tuple>::type type;
-				sprout::swallow({((base_type::template get<Indexes>(*this) = sprout::move(type::template get<Indexes>(SPROUT_FORWARD(Tuple, t)))), 0)...});
+				sprout::swallow({((base_type::template get<Indexes>(*this) = type::template get<Indexes>(SPROUT_FORWARD(Tuple, t))), 0)...});
 			}
 			template<sprout::index_t... Indexes>
 			SPROUT_CONSTEXPR std::tuple<Types...>
-- 
2.43.0


From 87fd714758e0249ebe0ae53113e867bdb34d3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 088/275] fix: tuple assignment from a pair rvalue of
 references moved out of the referenced objects

---
 sprout/tuple/tuple/tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/tuple/tuple/tuple.hpp b/sprout/tuple/tuple/tuple.hpp
index 675d673..44a33e6 100644
--- a/sprout/tuple/tuple/tuple.hpp
+++ b/sprout/tuple/tuple/tuple.hpp
@@ -83,8 +83,8 @@ namespace sprout {
 		>
 		inline SPROUT_CXX14_CONSTEXPR sprout::tuples::tuple<Types...>&
 		sprout::tuples::tuple<Types...>::operator=(sprout::pair<UType1, UType2>&& rhs) {
-			base_type::template get<0>(*this) = sprout::move(rhs.first);
-			base_type::template get<1>(*this) = sprout::move(rhs.second);
+			base_type::template get<0>(*this) = SPROUT_FORWARD(UType1, rhs.first);
+			base_type::template get<1>(*this) = SPROUT_FORWARD(UType2, rhs.second);
 			return *this;
 		}
 	}	// namespace tuples
-- 
2.43.0


From ef1d12ca5fd5ef6f166bda2e1e947e7a3de64bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:50 +0000
Subject: [PATCH 089/275] fix: pair assignment from a tuple assigned element 0
 to second

---
 sprout/utility/pair/pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/pair/pair.hpp b/sprout/utility/pair/pair.hpp
index a72ff99..28e79f9 100644
--- a/sprout/utility/pair/pair.hpp
+++ b/sprout/utility/pair/pair.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR sprout::pair<T1, T2>& sprout::pair<T1, T2>::operator=(sprout::tuples::tuple<U, V> const& rhs) {
 		first = sprout::tuples::get<0>(rhs);
-		second = sprout::tuples::get<0>(rhs);
+		second = sprout::tuples::get<1>(rhs);
 		return *this;
 	}
 	template<typename T1, typename T2>
-- 
2.43.0


From ff66d87377d30f271db345a2569b0d02cc359ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:51 +0000
Subject: [PATCH 090/275] fix: is_convert_constructible is a hard error for
 non-copyable types

---
 sprout/type_traits/is_convert_constructible.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/sprout/type_traits/is_convert_constructible.hpp b/sprout/type_traits/is_convert_constructible.hpp
index 220d90d..01c7b10 100644
--- a/sprout/type_traits/is_convert_constructible.hpp
+++ b/sprout/type_traits/is_convert_constructible.hpp
@@ -17,17 +17,9 @@ namespace sprout {
 	//
 	// is_convert_constructible
 	//
-	namespace detail {
-		template<typename T>
-		struct is_convert_constructible_test {
-		public:
-			static sprout::true_type test(T);
-			static sprout::false_type test(...);
-		};
-	}	// namespace detail
 	template<typename T, typename Arg>
 	struct is_convert_constructible
-		: public sprout::identity<decltype(sprout::detail::is_convert_constructible_test<T>::test(std::declval<Arg>()))>::type
+		: public sprout::bool_constant<std::is_convertible<Arg, T>::value>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
-- 
2.43.0


From a0f6f86c6a231f3ef0af3f5367dcab89442f64a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:51 +0000
Subject: [PATCH 091/275] fix: compressed_pair with an empty second type
 derives from the first type

---
 sprout/compressed_pair.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/compressed_pair.hpp b/sprout/compressed_pair.hpp
index 95e1afd..faf8bed 100644
--- a/sprout/compressed_pair.hpp
+++ b/sprout/compressed_pair.hpp
@@ -145,7 +145,7 @@ namespace sprout {
 		};
 		template<typename T1, typename T2>
 		class compressed_pair_impl<T1, T2, 2>
-			: protected std::remove_cv<T1>::type
+			: protected std::remove_cv<T2>::type
 		{
 		public:
 			typedef T1 first_type;
@@ -160,12 +160,12 @@ namespace sprout {
 			first_type first_;
 		public:
 			SPROUT_CONSTEXPR compressed_pair_impl()
-				: first_()
-				, second_type()
+				: second_type()
+				, first_()
 			{}
 			SPROUT_CONSTEXPR compressed_pair_impl(first_param_type x, second_param_type y)
-				: first_(x)
-				, second_type(y)
+				: second_type(y)
+				, first_(x)
 			{}
 			SPROUT_CONSTEXPR compressed_pair_impl(first_param_type x)
 				: first_(x)
-- 
2.43.0


From b7c199b685c0e5e8fb33d1c5faa8a70ae1d19c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:08 +0000
Subject: [PATCH 092/275] fix: include <type_traits> in
 is_convert_constructible

---
 sprout/type_traits/is_convert_constructible.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/is_convert_constructible.hpp b/sprout/type_traits/is_convert_constructible.hpp
index 01c7b10..f425a61 100644
--- a/sprout/type_traits/is_convert_constructible.hpp
+++ b/sprout/type_traits/is_convert_constructible.hpp
@@ -8,7 +8,7 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_CONVERT_CONSTRUCTIBLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_CONVERT_CONSTRUCTIBLE_HPP
 
-#include <utility>
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/identity.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
-- 
2.43.0


From 97d44bb235e927bfb035d5c4b2c389ad852762b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:59 +0000
Subject: [PATCH 093/275] fix: swap of step/move/next/valued/remake/indexed
 iterators

---
 sprout/iterator/indexed_iterator.hpp |  8 ++++----
 sprout/iterator/move_iterator.hpp    |  4 ++--
 sprout/iterator/next_iterator.hpp    |  8 ++++----
 sprout/iterator/remake_iterator.hpp  | 24 ++++++++++++------------
 sprout/iterator/step_iterator.hpp    | 22 +++++++++++-----------
 sprout/iterator/valued_iterator.hpp  |  8 ++++----
 6 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/sprout/iterator/indexed_iterator.hpp b/sprout/iterator/indexed_iterator.hpp
index ac56dd5..dd1f1dc 100644
--- a/sprout/iterator/indexed_iterator.hpp
+++ b/sprout/iterator/indexed_iterator.hpp
@@ -121,12 +121,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(indexed_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(idx, other.idx))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(idx, other.idx))
 			)
 		{
-			swap(current, other.current);
-			swap(idx, other.idx);
+			sprout::swap(current, other.current);
+			sprout::swap(idx, other.idx);
 		}
 	};
 
diff --git a/sprout/iterator/move_iterator.hpp b/sprout/iterator/move_iterator.hpp
index 826af24..9df2cc5 100644
--- a/sprout/iterator/move_iterator.hpp
+++ b/sprout/iterator/move_iterator.hpp
@@ -123,10 +123,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(move_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/next_iterator.hpp b/sprout/iterator/next_iterator.hpp
index 9addf3f..3ac7e83 100644
--- a/sprout/iterator/next_iterator.hpp
+++ b/sprout/iterator/next_iterator.hpp
@@ -90,12 +90,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(next_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(holder_, other.holder_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(holder_, other.holder_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(holder_, other.holder_);
-			swap(current, other.current);
+			sprout::swap(holder_, other.holder_);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index af576e1..3feeba2 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -202,20 +202,20 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(remake_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current2, other.current2))
-			&& SPROUT_NOEXCEPT_EXPR(swap(fst, other.fst))
-			&& SPROUT_NOEXCEPT_EXPR(swap(lst_, other.lst_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(begin_off, other.begin_off))
-			&& SPROUT_NOEXCEPT_EXPR(swap(end_off, other.end_off))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current2, other.current2))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(fst, other.fst))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(lst_, other.lst_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(begin_off, other.begin_off))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(end_off, other.end_off))
 			)
 		{
-			swap(current, other.current);
-			swap(current2, other.current2);
-			swap(fst, other.fst);
-			swap(lst_, other.lst_);
-			swap(begin_off, other.begin_off);
-			swap(end_off, other.end_off);
+			sprout::swap(current, other.current);
+			sprout::swap(current2, other.current2);
+			sprout::swap(fst, other.fst);
+			sprout::swap(lst_, other.lst_);
+			sprout::swap(begin_off, other.begin_off);
+			sprout::swap(end_off, other.end_off);
 		}
 	};
 
diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 8e8a39c..0813a21 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -155,19 +155,19 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(step_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(last, other.last))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(is_last, other.is_last))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
-			swap(current, other.current);
-			swap(last, other.last);
-			swap(wid, other.wid);
-			swap(back, other.back);
-			swap(is_last, other.is_last);
+			sprout::swap(current, other.current);
+			sprout::swap(last, other.last);
+			sprout::swap(wid, other.wid);
+			sprout::swap(back, other.back);
+			sprout::swap(is_last, other.is_last);
 		}
 	};
 
diff --git a/sprout/iterator/valued_iterator.hpp b/sprout/iterator/valued_iterator.hpp
index 92e6fc6..70e5cbc 100644
--- a/sprout/iterator/valued_iterator.hpp
+++ b/sprout/iterator/valued_iterator.hpp
@@ -129,12 +129,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(valued_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(holder, other.holder))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(holder, other.holder))
 			)
 		{
-			swap(current, other.current);
-			swap(holder, other.holder);
+			sprout::swap(current, other.current);
+			sprout::swap(holder, other.holder);
 		}
 	};
 
-- 
2.43.0


From 89e1b737a0820714972f6afcf8e80b19876271fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 094/275] fix: exempt_ptr::swap

---
 sprout/memory/exempt_ptr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/memory/exempt_ptr.hpp b/sprout/memory/exempt_ptr.hpp
index e06e918..98fc9e4 100644
--- a/sprout/memory/exempt_ptr.hpp
+++ b/sprout/memory/exempt_ptr.hpp
@@ -14,6 +14,7 @@
 #include <utility>
 #include <ostream>
 #include <sprout/config.hpp>
+#include <sprout/utility/swap.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/functional/hash.hpp>
 #include <sprout/functional/less.hpp>
@@ -120,7 +121,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void
 		swap(exempt_ptr& other) SPROUT_NOEXCEPT {
-			swap(p_, other.p_);
+			sprout::swap(p_, other.p_);
 		}
 		SPROUT_CXX14_CONSTEXPR exempt_ptr&
 		operator++() {
-- 
2.43.0


From 1ab7e79425df98cf04322402aca58124031e7c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 095/275] fix: insert_range_iterator arithmetic

---
 sprout/iterator/insert_range_iterator.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index 6ef839c..fb3b495 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -51,20 +51,20 @@ namespace sprout {
 			return n >= 0
 				? current1 > pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: current1 == pos1 ? current2 == last2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: n <= sprout::distance(current2, last2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
+						: n <= sprout::distance(current2, last2) ? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
 						: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
 					: n <= sprout::distance(current1, pos1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: n <= sprout::distance(current1, pos1) + sprout::distance(current2, last2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current1, pos1) - sprout::distance(current2, last2)), pos1, last2, first2, last2)
+						? insert_range_iterator(pos1, pos1, sprout::next(current2, n - sprout::distance(current1, pos1)), first2, last2)
+					: insert_range_iterator(sprout::next(current1, n - sprout::distance(current2, last2)), pos1, last2, first2, last2)
 				: current1 < pos1 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: current1 == pos1 ? current2 == first2 ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
-						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, last2, sprout::next(current2, n), first2, last2)
-						: insert_range_iterator(sprout::next(current1, n - sprout::distance(first2, current2)), pos1, first2, first2, last2)
+						: -n <= sprout::distance(first2, current2) ? insert_range_iterator(current1, pos1, sprout::next(current2, n), first2, last2)
+						: insert_range_iterator(sprout::next(current1, n + sprout::distance(first2, current2)), pos1, first2, first2, last2)
 					: -n <= sprout::distance(pos1, current1) ? insert_range_iterator(sprout::next(current1, n), pos1, current2, first2, last2)
 					: -n <= sprout::distance(pos1, current1) + sprout::distance(first2, current2)
-						? insert_range_iterator(pos1, pos1, last2, sprout::next(current2, n - sprout::distance(pos1, current1)), first2, last2)
-					: insert_range_iterator(sprout::next(current1, n - sprout::distance(pos1, current1) - sprout::distance(first2, current2)), pos1, first2, first2, last2)
+						? insert_range_iterator(pos1, pos1, sprout::next(current2, n + sprout::distance(pos1, current1)), first2, last2)
+					: insert_range_iterator(sprout::next(current1, n + sprout::distance(first2, current2)), pos1, first2, first2, last2)
 				;
 		}
 	public:
-- 
2.43.0


From 2f67be86cbc887480672bf3c018f2efc8b50c567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 096/275] fix: adjacent_filter/unique iterator dropped the only
 group

---
 sprout/iterator/adjacent_filter_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index 52ee63e..51f88d8 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -76,7 +76,7 @@ namespace sprout {
 		{}
 		adjacent_filter_iterator(adjacent_filter_iterator const&) = default;
 		SPROUT_CONSTEXPR adjacent_filter_iterator(Predicate pred, iterator_type it, iterator_type last = iterator_type())
-			: current(find_next(it, last, pred))
+			: current(it)
 			, last(last)
 			, pred(pred)
 		{}
-- 
2.43.0


From ead1512b1d237dcb3af871c05191386948163d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 097/275] fix: while_iterator::operator++ dereferenced the end

---
 sprout/iterator/while_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index 27f0530..c8834c1 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 		Predicate pred;
 	private:
 		SPROUT_CXX14_CONSTEXPR void satisfy_predicate() {
-			if (!pred(*current)) {
+			if (current != last && !pred(*current)) {
 				current = last;
 			}
 		}
-- 
2.43.0


From 2b27781a032d2160097424dccadc8cfd814e7247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 098/275] fix: fix: joint_iterator: the distance from a right
 position back to a left one is negative

---
 sprout/iterator/joint_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/joint_iterator.hpp b/sprout/iterator/joint_iterator.hpp
index 57702a1..1354301 100644
--- a/sprout/iterator/joint_iterator.hpp
+++ b/sprout/iterator/joint_iterator.hpp
@@ -271,7 +271,7 @@ namespace sprout {
 	{
 		return lhs.is_in_left() && rhs.is_in_left() ? lhs.base() - rhs.base()
 			: !lhs.is_in_left() && !rhs.is_in_left() ? lhs.base2() - rhs.base2()
-			: lhs.is_in_left() ? sprout::limited::plus(lhs.left_end() - lhs.base(), rhs.base2() - rhs.right_begin())
+			: lhs.is_in_left() ? sprout::limited::plus(lhs.base() - lhs.left_end(), rhs.right_begin() - rhs.base2())
 			: sprout::limited::plus(lhs.base2() - lhs.right_begin(), rhs.left_end() - rhs.base())
 			;
 	}
-- 
2.43.0


From ddea751487240d84a3252109b82de3cfeb6c6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 099/275] fix: fix: alternate_iterator: odd backward advance
 and left - right distance

---
 sprout/iterator/alternate_iterator.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index db9af14..2ec7d8a 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -47,7 +47,9 @@ namespace sprout {
 		bool in_left;
 	private:
 		SPROUT_CONSTEXPR alternate_iterator advance_impl_1(difference_type n) const {
-			return alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2));
+			return n < 0 && n % 2 ? alternate_iterator(sprout::next(current1, n / 2 - 1), sprout::next(current2, n / 2 - 1), false)
+				: alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2))
+				;
 		}
 		SPROUT_CONSTEXPR alternate_iterator advance_impl(difference_type n) const {
 			return advance_impl_1(n + (!is_in_left() ? 1 : 0));
@@ -250,7 +252,7 @@ namespace sprout {
 	{
 		return sprout::limited::plus(
 			sprout::limited::multiplies(lhs.base() - rhs.base(), 2),
-			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : 1) : (rhs.is_in_left() ? 1 : 0)
+			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : -1) : (rhs.is_in_left() ? 1 : 0)
 			);
 	}
 	template<typename LIterator, typename RIterator>
-- 
2.43.0


From 59f26407e976c75305cb28925d478729d00b7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 100/275] fix: fix: size_enum_iterator<It, true>: random access
 arithmetic counts the separators

---
 sprout/iterator/size_enum_iterator.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sprout/iterator/size_enum_iterator.hpp b/sprout/iterator/size_enum_iterator.hpp
index 5dd6d0f..f22a6c0 100644
--- a/sprout/iterator/size_enum_iterator.hpp
+++ b/sprout/iterator/size_enum_iterator.hpp
@@ -162,6 +162,12 @@ namespace sprout {
 		iterator_type current;
 		value_type sep_size;
 		bool is_sep;
+	private:
+		SPROUT_CONSTEXPR size_enum_iterator advance_impl(difference_type n) const {
+			return n < 0 && n % 2 ? size_enum_iterator(current + (n / 2 - 1), sep_size, true)
+				: size_enum_iterator(current + n / 2, sep_size, n % 2 != 0)
+				;
+		}
 	public:
 		SPROUT_CONSTEXPR size_enum_iterator()
 			: current(), sep_size(), is_sep()
@@ -238,23 +244,23 @@ namespace sprout {
 			return temp;
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator+(difference_type n) const {
-			return size_enum_iterator(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			return advance_impl(n + is_sep);
 		}
 		SPROUT_CONSTEXPR size_enum_iterator operator-(difference_type n) const {
-			return size_enum_iterator(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			return advance_impl(is_sep - n);
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator+=(difference_type n) {
-			size_enum_iterator temp(current + (n + is_sep) / 2, sep_size, (n + is_sep) % 2);
+			size_enum_iterator temp(*this + n);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR size_enum_iterator& operator-=(difference_type n) {
-			size_enum_iterator temp(current - (n - is_sep) / 2, sep_size, (n - is_sep) % 2);
+			size_enum_iterator temp(*this - n);
 			temp.swap(*this);
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return sprout::size(current[(n + is_sep) / 2]);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR size_enum_iterator next() const {
 			return is_sep
@@ -367,10 +373,10 @@ namespace sprout {
 		sprout::size_enum_iterator<Iterator2, true> const& rhs
 		)
 	{
-		return lhs.base() - rhs.base() + (
+		return (lhs.base() - rhs.base()) * 2 + (
 			lhs.is_separator()
-				? rhs.is_separator() ? 0 : -1
-				: rhs.is_separator() ? 1 : 0
+				? rhs.is_separator() ? 0 : 1
+				: rhs.is_separator() ? -1 : 0
 				)
 		;
 	}
-- 
2.43.0


From f8a6012acef130c37521090a87db0a421ffacf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 101/275] fix: fix: insert_range_iterator ordering

---
 sprout/iterator/insert_range_iterator.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sprout/iterator/insert_range_iterator.hpp b/sprout/iterator/insert_range_iterator.hpp
index fb3b495..f3574f2 100644
--- a/sprout/iterator/insert_range_iterator.hpp
+++ b/sprout/iterator/insert_range_iterator.hpp
@@ -222,10 +222,7 @@ namespace sprout {
 		sprout::insert_range_iterator<DstIterator2, SrcIterator2> const& rhs
 		)
 	{
-		return lhs.is_in_base() && rhs.is_in_base() ? lhs.base() < rhs.base()
-			: !lhs.is_in_base() && !rhs.is_in_base() ? lhs.base2() < rhs.base2()
-			: lhs.is_in_base()
-			;
+		return lhs.base() < rhs.base() || (lhs.base() == rhs.base() && lhs.base2() < rhs.base2());
 	}
 	template<
 		typename DstIterator1, typename SrcIterator1,
-- 
2.43.0


From 971add7a950f0e6ebd0484d370810471e2960573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 102/275] fix: fix: insert_iterator tracks the insertion
 position; const dereference of the insert iterators compiles

---
 sprout/iterator/back_insert_iterator.hpp  | 2 +-
 sprout/iterator/front_insert_iterator.hpp | 2 +-
 sprout/iterator/insert_iterator.hpp       | 8 +++++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/iterator/back_insert_iterator.hpp b/sprout/iterator/back_insert_iterator.hpp
index f42d9e1..90ec2d4 100644
--- a/sprout/iterator/back_insert_iterator.hpp
+++ b/sprout/iterator/back_insert_iterator.hpp
@@ -64,7 +64,7 @@ namespace sprout {
 			container->push_back(sprout::move(value));
 			return *this;
 		}
-		SPROUT_CONSTEXPR back_insert_iterator& operator*() const {
+		SPROUT_CONSTEXPR back_insert_iterator const& operator*() const {
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR back_insert_iterator& operator*() {
diff --git a/sprout/iterator/front_insert_iterator.hpp b/sprout/iterator/front_insert_iterator.hpp
index 041e5a5..df6b22f 100644
--- a/sprout/iterator/front_insert_iterator.hpp
+++ b/sprout/iterator/front_insert_iterator.hpp
@@ -64,7 +64,7 @@ namespace sprout {
 			container->push_front(sprout::move(value));
 			return *this;
 		}
-		SPROUT_CONSTEXPR front_insert_iterator& operator*() const {
+		SPROUT_CONSTEXPR front_insert_iterator const& operator*() const {
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR front_insert_iterator& operator*() {
diff --git a/sprout/iterator/insert_iterator.hpp b/sprout/iterator/insert_iterator.hpp
index e18c9ad..be58a45 100644
--- a/sprout/iterator/insert_iterator.hpp
+++ b/sprout/iterator/insert_iterator.hpp
@@ -64,14 +64,16 @@ namespace sprout {
 			return iter;
 		}
 		SPROUT_CXX14_CONSTEXPR insert_iterator& operator=(typename container_type::value_type const& value) {
-			container->insert(iter, value);
+			iter = container->insert(iter, value);
+			++iter;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR insert_iterator& operator=(typename container_type::value_type&& value) {
-			container->insert(iter, sprout::move(value));
+			iter = container->insert(iter, sprout::move(value));
+			++iter;
 			return *this;
 		}
-		SPROUT_CONSTEXPR insert_iterator& operator*() const {
+		SPROUT_CONSTEXPR insert_iterator const& operator*() const {
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR insert_iterator& operator*() {
-- 
2.43.0


From 31c0d28551f8202a8cd4e6136ceb13ca9c45ac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 103/275] fix: fix: make_clamp_iterator without a comparator is
 callable

---
 sprout/iterator/clamp_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 418d065..8612ee7 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -196,15 +196,15 @@ namespace sprout {
 	{
 		return sprout::clamp_iterator<Iterator, Compare>(it, low, up, comp);
 	}
-	template<typename Iterator, typename Compare>
-	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator, Compare>
+	template<typename Iterator>
+	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator>
 	make_clamp_iterator(
 		Iterator it,
 		typename std::iterator_traits<Iterator>::value_type const& low,
 		typename std::iterator_traits<Iterator>::value_type const& up
 		)
 	{
-		return sprout::clamp_iterator<Iterator, Compare>(it, low, up);
+		return sprout::clamp_iterator<Iterator>(it, low, up);
 	}
 
 	//
-- 
2.43.0


From f7f965dcd7432853f8c29317cca095ed327ca63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 104/275] fix: fix: step_iterator reaches its end, compares
 equal to it and steps back from it

---
 sprout/iterator/step_iterator.hpp | 53 ++++++++++++++-----------------
 sprout/range/adaptor/steps.hpp    |  6 ++--
 2 files changed, 26 insertions(+), 33 deletions(-)

diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 0813a21..3ce3f4d 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -15,7 +15,6 @@
 #include <sprout/iterator/distance.hpp>
 #include <sprout/iterator/detail/iterator_base.hpp>
 #include <sprout/utility/swap.hpp>
-#include HDR_ALGORITHM_MIN_MAX_SSCRISK_CEL_OR_SPROUT
 
 namespace sprout {
 	//
@@ -36,12 +35,17 @@ namespace sprout {
 		typedef typename base_type::reference reference;
 	private:
 		static SPROUT_CONSTEXPR iterator_type get_back(iterator_type it, difference_type wid, iterator_type last) {
-			return sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid);
+			return it == last ? last : sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid);
 		}
-		static SPROUT_CONSTEXPR difference_type next_distance(step_iterator const& it, difference_type n) {
-			return n >= 0 ? NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(it.current, it.back), n * it.wid)
-				: it.is_last ? 0
-				: NS_SSCRISK_CEL_OR_SPROUT::max(-sprout::distance(it.current, it.back), n * it.wid)
+		static SPROUT_CONSTEXPR bool next_is_last(step_iterator const& it, difference_type n) {
+			return n >= 0 ? n >= it.rest()
+				: it.is_last && it.back == it.last
+				;
+		}
+		static SPROUT_CONSTEXPR iterator_type next_current(step_iterator const& it, difference_type n) {
+			return next_is_last(it, n) ? it.back
+				: it.is_last ? sprout::next(it.back, (n + 1) * it.wid)
+				: sprout::next(it.current, n * it.wid)
 				;
 		}
 	protected:
@@ -53,8 +57,8 @@ namespace sprout {
 		bool is_last;
 	private:
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other, difference_type n)
-			: current(sprout::next(other.current, next_distance(other, n))), last(other.last), wid(other.wid)
-			, back(other.back), is_last(next_distance(other, n) == 0)
+			: current(next_current(other, n)), last(other.last), wid(other.wid)
+			, back(other.back), is_last(next_is_last(other, n))
 		{}
 	public:
 		SPROUT_CONSTEXPR step_iterator()
@@ -92,6 +96,9 @@ namespace sprout {
 		SPROUT_CONSTEXPR bool is_end() const {
 			return is_last;
 		}
+		SPROUT_CONSTEXPR difference_type rest() const {
+			return is_last ? 0 : (sprout::distance(current, last) - 1) / wid + 1;
+		}
 		SPROUT_CONSTEXPR reference operator*() const {
 			return *current;
 		}
@@ -99,33 +106,19 @@ namespace sprout {
 			return &*current;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator++() {
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
-			return *this;
+			return *this += 1;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator++(int) {
 			step_iterator result(*this);
-			if (current == back) {
-				is_last = true;
-			}
-			current += next_distance(*this, 1);
+			*this += 1;
 			return result;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator--() {
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
-			return *this;
+			return *this -= 1;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator--(int) {
 			step_iterator temp(*this);
-			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
+			*this -= 1;
 			return temp;
 		}
 		SPROUT_CONSTEXPR step_iterator operator+(difference_type n) const {
@@ -145,7 +138,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return *(current + n * wid);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR step_iterator next() const {
 			return step_iterator(*this, 1);
@@ -174,7 +167,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() == rhs.base() && lhs.is_end() == rhs.is_end();
+		return lhs.is_end() == rhs.is_end() && (lhs.is_end() || lhs.base() == rhs.base());
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -184,7 +177,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base() || (lhs.base() == rhs.base() && !lhs.is_end() && rhs.is_end());
+		return rhs.rest() < lhs.rest();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -204,7 +197,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR decltype(std::declval<Iterator1>() - std::declval<Iterator2>())
 	operator-(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return (lhs.base() - rhs.base()) / lhs.width() + (lhs.is_end() ? 1 : 0) - (rhs.is_end() ? 1 : 0);
+		return rhs.rest() - lhs.rest();
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR sprout::step_iterator<Iterator>
diff --git a/sprout/range/adaptor/steps.hpp b/sprout/range/adaptor/steps.hpp
index 9e4e90d..d2100c6 100644
--- a/sprout/range/adaptor/steps.hpp
+++ b/sprout/range/adaptor/steps.hpp
@@ -46,19 +46,19 @@ namespace sprout {
 			explicit SPROUT_CONSTEXPR steps_range(range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), 1, sprout::end(range)),
-					iterator(sprout::end(range), 1, sprout::end(range))
+					iterator(sprout::begin(range), 1, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::begin(range), width, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, difference_type init, range_type& range)
 				: base_type(
 					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 		};
-- 
2.43.0


From 4c625ba20af3391b9afefc32a09272acf8ddce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 105/275] fix: fix: limited::multiplies: no overflow in its own
 checks, saturate only out of range

---
 sprout/utility/limited.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/utility/limited.hpp b/sprout/utility/limited.hpp
index a33ad78..186be98 100644
--- a/sprout/utility/limited.hpp
+++ b/sprout/utility/limited.hpp
@@ -36,13 +36,13 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR typename sprout::arithmetic_promote<T, U>::type
 		multiplies(T const& lhs, U const& rhs) {
 			typedef typename sprout::arithmetic_promote<T, U>::type type;
-			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs + (sprout::numeric_limits<type>::max() % lhs ? 1 : 0) <= rhs
+			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs < rhs
 					? sprout::numeric_limits<type>::max()
-				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0) <= lhs
+				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / lhs > rhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / lhs + (sprout::numeric_limits<type>::min() % lhs ? 1 : 0) <= rhs
+				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / rhs > lhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs < 0 && -(sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0)) >= lhs
+				: lhs < 0 && rhs < 0 && sprout::numeric_limits<type>::max() / rhs > lhs
 					? sprout::numeric_limits<type>::max()
 				: lhs * rhs
 				;
-- 
2.43.0


From b029c9effca15493ab17a34e50943bd67a93017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 106/275] fix: fix: bytes_iterator: -- inside an element

---
 sprout/iterator/bytes_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/bytes_iterator.hpp b/sprout/iterator/bytes_iterator.hpp
index 65e73ee..6c3fd45 100644
--- a/sprout/iterator/bytes_iterator.hpp
+++ b/sprout/iterator/bytes_iterator.hpp
@@ -68,8 +68,8 @@ namespace sprout {
 			, i_(i % traits_type::size())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, prev_tag)
-			: it_((i + 1 - traits_type::size()) / traits_type::size() == 0 ? it : sprout::prev(it))
-			, i_(i % traits_type::size() + traits_type::size())
+			: it_(i >= 0 ? it : sprout::prev(it))
+			, i_(i >= 0 ? i : i + traits_type::size())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, ra_tag)
 			: it_(i >= 0
-- 
2.43.0


From 9663e87470fb7d1d2c055caaa154d55c7fcc5a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 107/275] fix: fix: reverse_iterator ordering follows the
 reversed order

---
 sprout/iterator/reverse_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 0d6c427..edfbbc5 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::reverse_iterator<Iterator1> const& lhs, sprout::reverse_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base();
+		return rhs.base() < lhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 9f714d5173b7737e23d64dce758c6ec74e01e956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 108/275] fix: fix: insert_iterator: it++ keeps the insertion
 position

---
 sprout/iterator/insert_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/insert_iterator.hpp b/sprout/iterator/insert_iterator.hpp
index be58a45..23c1f7d 100644
--- a/sprout/iterator/insert_iterator.hpp
+++ b/sprout/iterator/insert_iterator.hpp
@@ -82,7 +82,7 @@ namespace sprout {
 		SPROUT_CXX14_CONSTEXPR insert_iterator& operator++() {
 			return *this;
 		}
-		SPROUT_CXX14_CONSTEXPR insert_iterator operator++(int) {
+		SPROUT_CXX14_CONSTEXPR insert_iterator& operator++(int) {
 			return *this;
 		}
 
-- 
2.43.0


From 77c74df64ad73389431873084b13ab959bf65849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:22 +0000
Subject: [PATCH 109/275] fix: fix: bytes_iterator: backward advance to an
 element boundary

---
 sprout/iterator/bytes_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/bytes_iterator.hpp b/sprout/iterator/bytes_iterator.hpp
index 6c3fd45..d9fe929 100644
--- a/sprout/iterator/bytes_iterator.hpp
+++ b/sprout/iterator/bytes_iterator.hpp
@@ -78,7 +78,7 @@ namespace sprout {
 				)
 			, i_(i >= 0
 				? i % traits_type::size()
-				: i % traits_type::size() + traits_type::size()
+				: (i % traits_type::size() + traits_type::size()) % traits_type::size()
 				)
 		{}
 	public:
-- 
2.43.0


From d8a44d9d38707679936bf8e242179d5bf7661892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:17 +0000
Subject: [PATCH 110/275] fix: fix: bytes_iterator: signed arithmetic for
 backward advances

---
 sprout/iterator/bytes_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/bytes_iterator.hpp b/sprout/iterator/bytes_iterator.hpp
index d9fe929..b61b503 100644
--- a/sprout/iterator/bytes_iterator.hpp
+++ b/sprout/iterator/bytes_iterator.hpp
@@ -74,11 +74,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, ra_tag)
 			: it_(i >= 0
 				? sprout::next(it, i / traits_type::size())
-				: sprout::next(it, (i + 1 - traits_type::size()) / traits_type::size())
+				: sprout::next(it, (i + 1 - static_cast<difference_type>(traits_type::size())) / static_cast<difference_type>(traits_type::size()))
 				)
 			, i_(i >= 0
 				? i % traits_type::size()
-				: (i % traits_type::size() + traits_type::size()) % traits_type::size()
+				: (i % static_cast<difference_type>(traits_type::size()) + static_cast<difference_type>(traits_type::size())) % static_cast<difference_type>(traits_type::size())
 				)
 		{}
 	public:
-- 
2.43.0


From 60b7d718f61bef47a392de027f4ed1d1fd6dd918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:23 +0000
Subject: [PATCH 111/275] fix: fix: removed and removed_if adaptors compile

---
 sprout/range/adaptor/removed.hpp    | 4 ++--
 sprout/range/adaptor/removed_if.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/range/adaptor/removed.hpp b/sprout/range/adaptor/removed.hpp
index 32b8cbd..5e1d260 100644
--- a/sprout/range/adaptor/removed.hpp
+++ b/sprout/range/adaptor/removed.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_range(removed_range const&) = default;
 			SPROUT_CONSTEXPR removed_range(range_type& range, value_type const& value)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(value)),
-					iterator(sprout::end(range), typename iterator::predicate_type(value))
+					iterator(typename iterator::predicate_type(value), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(value), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
diff --git a/sprout/range/adaptor/removed_if.hpp b/sprout/range/adaptor/removed_if.hpp
index 3beeff5..4ff6b65 100644
--- a/sprout/range/adaptor/removed_if.hpp
+++ b/sprout/range/adaptor/removed_if.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_if_range(removed_if_range const&) = default;
 			SPROUT_CONSTEXPR removed_if_range(range_type& range, Predicate pred)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(pred)),
-					iterator(sprout::end(range), typename iterator::predicate_type(pred))
+					iterator(typename iterator::predicate_type(pred), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(pred), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From 9072737f003fd3e9347400d879b8c20078cb3a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:23 +0000
Subject: [PATCH 112/275] fix: fix: steps(width, init) compiles for ranges with
 an unsigned or different size type

---
 sprout/range/adaptor/steps.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/steps.hpp b/sprout/range/adaptor/steps.hpp
index d2100c6..9606d55 100644
--- a/sprout/range/adaptor/steps.hpp
+++ b/sprout/range/adaptor/steps.hpp
@@ -57,8 +57,8 @@ namespace sprout {
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, difference_type init, range_type& range)
 				: base_type(
-					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)),
-					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)) + sprout::size(range)
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)),
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 		};
-- 
2.43.0


From 2724f084a8f2073b57a8fcfa26af7c69855974b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:23 +0000
Subject: [PATCH 113/275] fix: fix: moved adaptor runs from begin to end

---
 sprout/range/adaptor/moved.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/moved.hpp b/sprout/range/adaptor/moved.hpp
index c1c8b47..0f00559 100644
--- a/sprout/range/adaptor/moved.hpp
+++ b/sprout/range/adaptor/moved.hpp
@@ -42,8 +42,8 @@ namespace sprout {
 			moved_range(moved_range const&) = default;
 			explicit SPROUT_CONSTEXPR moved_range(range_type& range)
 				: base_type(
-					iterator(sprout::end(range)),
-					iterator(sprout::begin(range))
+					iterator(sprout::begin(range)),
+					iterator(sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From d2c4dfc51105ac7e1ad06d5f2fb8a377cc026774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:23 +0000
Subject: [PATCH 114/275] fix: fix: adapted_offset does not repeat elements
 when the offsets cross

---
 sprout/range/adaptor/adapted_offset.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sprout/range/adaptor/adapted_offset.hpp b/sprout/range/adaptor/adapted_offset.hpp
index a49f5c0..9fe75fb 100644
--- a/sprout/range/adaptor/adapted_offset.hpp
+++ b/sprout/range/adaptor/adapted_offset.hpp
@@ -100,9 +100,19 @@ namespace sprout {
 				| sprout::adaptors::jointed(sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::taken_end(rhs.from_end()))
 			)
 		{
+			typedef typename sprout::container_traits<
+				typename std::remove_reference<typename sprout::lvalue_reference<Range>::type>::type
+			>::difference_type difference_type;
 			return sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::taken(rhs.from_begin())
 				| sprout::adaptors::jointed(sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::offset(rhs.from_begin(), rhs.from_end()) | rhs.adaptor())
-				| sprout::adaptors::jointed(sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::taken_end(rhs.from_end()))
+				| sprout::adaptors::jointed(
+					sprout::lvalue_forward<Range>(lhs) | sprout::adaptors::taken_end(
+						NS_SSCRISK_CEL_OR_SPROUT::max<difference_type>(
+							rhs.from_end(),
+							NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(rhs.from_begin() - sprout::size(sprout::lvalue_forward<Range>(lhs)), 0)
+							)
+						)
+					)
 				;
 		}
 		template<typename Range, typename Adaptor, typename Difference>
-- 
2.43.0


From d20d39b51262658d0e235ffaf74416705ce95822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:23 +0000
Subject: [PATCH 115/275] fix: fix: piped accepts three and more adaptors

---
 sprout/range/adaptor/piped.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sprout/range/adaptor/piped.hpp b/sprout/range/adaptor/piped.hpp
index d2f7cb4..071e367 100644
--- a/sprout/range/adaptor/piped.hpp
+++ b/sprout/range/adaptor/piped.hpp
@@ -20,6 +20,16 @@
 namespace sprout {
 	namespace adaptors {
 		namespace detail {
+			template<typename Range, typename... Adaptors>
+			struct applied_adaptors {
+			public:
+				typedef Range type;
+			};
+			template<typename Range, typename Adaptor, typename... Tail>
+			struct applied_adaptors<Range, Adaptor, Tail...>
+				: public sprout::adaptors::detail::applied_adaptors<decltype(std::declval<Range>() | std::declval<Adaptor const&>()), Tail...>
+			{};
+
 			template<typename Range>
 			inline SPROUT_CONSTEXPR auto
 			apply_adaptors_impl(Range&& range)
@@ -35,10 +45,8 @@ namespace sprout {
 				return SPROUT_FORWARD(Range, range) | adaptor;
 			}
 			template<typename Range, typename Adaptor, typename... Tail>
-			inline SPROUT_CONSTEXPR auto
-			apply_adaptors_impl(Range&& range, Adaptor const& adaptor, Tail const&... tail)
-			-> decltype(sprout::adaptors::detail::apply_adaptors_impl(SPROUT_FORWARD(Range, range) | adaptor, tail...))
-			{
+			inline SPROUT_CONSTEXPR typename sprout::adaptors::detail::applied_adaptors<Range, Adaptor, Tail...>::type
+			apply_adaptors_impl(Range&& range, Adaptor const& adaptor, Tail const&... tail) {
 				return sprout::adaptors::detail::apply_adaptors_impl(SPROUT_FORWARD(Range, range) | adaptor, tail...);
 			}
 		}	// namespace detail
-- 
2.43.0


From ccdf7192489e4a7b30398a03cb484b68b1a1b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 116/275] fix: fix: blanked and alternated compile for ranges
 with differing size types

---
 sprout/range/adaptor/alternated.hpp | 4 ++--
 sprout/range/adaptor/blanked.hpp    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/range/adaptor/alternated.hpp b/sprout/range/adaptor/alternated.hpp
index 4f6b877..a3a4f43 100644
--- a/sprout/range/adaptor/alternated.hpp
+++ b/sprout/range/adaptor/alternated.hpp
@@ -54,8 +54,8 @@ namespace sprout {
 				: base_type(
 					iterator(sprout::begin(range1), sprout::begin(range2)),
 					iterator(
-						sprout::next(sprout::begin(range1), NS_SSCRISK_CEL_OR_SPROUT::min(sprout::size(range1), sprout::size(range2))),
-						sprout::next(sprout::begin(range2), NS_SSCRISK_CEL_OR_SPROUT::min(sprout::size(range1), sprout::size(range2)))
+						sprout::next(sprout::begin(range1), NS_SSCRISK_CEL_OR_SPROUT::min<typename base_type::difference_type>(sprout::size(range1), sprout::size(range2))),
+						sprout::next(sprout::begin(range2), NS_SSCRISK_CEL_OR_SPROUT::min<typename base_type::difference_type>(sprout::size(range1), sprout::size(range2)))
 						)
 					)
 			{}
diff --git a/sprout/range/adaptor/blanked.hpp b/sprout/range/adaptor/blanked.hpp
index 1b4ea53..b1d5f88 100644
--- a/sprout/range/adaptor/blanked.hpp
+++ b/sprout/range/adaptor/blanked.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 				difference_type n
 				)
 				: base_type(
-					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value_type(), 0)
 					)
 			{}
@@ -70,7 +70,7 @@ namespace sprout {
 				value_type const& value
 				)
 				: base_type(
-					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value, 0)
 					)
 			{}
-- 
2.43.0


From b8efe474b8329e20fc512d941a8c32100986e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 117/275] fix: fix: counting adaptor: no overflow when the
 range spans more than the signed maximum

---
 sprout/range/adaptor/counting.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sprout/range/adaptor/counting.hpp b/sprout/range/adaptor/counting.hpp
index f32f680..b988e4e 100644
--- a/sprout/range/adaptor/counting.hpp
+++ b/sprout/range/adaptor/counting.hpp
@@ -10,6 +10,8 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/cstdint.hpp>
+#include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/counting_iterator.hpp>
@@ -39,6 +41,20 @@ namespace sprout {
 			typedef typename base_type::range_type range_type;
 			typedef typename base_type::iterator iterator;
 			typedef typename base_type::value_type value_type;
+			typedef typename base_type::difference_type difference_type;
+		private:
+			template<typename T, typename sprout::enabler_if<std::is_integral<T>::value>::type = sprout::enabler>
+			static SPROUT_CONSTEXPR bool
+			is_shorter(difference_type size, T const& first, T const& last) {
+				return first < last
+					&& static_cast<sprout::uintmax_t>(size) < static_cast<sprout::uintmax_t>(last) - static_cast<sprout::uintmax_t>(first)
+					;
+			}
+			template<typename T, typename sprout::enabler_if<!std::is_integral<T>::value>::type = sprout::enabler>
+			static SPROUT_CONSTEXPR bool
+			is_shorter(difference_type size, T const& first, T const& last) {
+				return size < last - first;
+			}
 		public:
 			SPROUT_CONSTEXPR counting_range() SPROUT_DEFAULTED_DEFAULT_CONSTRUCTOR_DECL
 			counting_range(counting_range const&) = default;
@@ -64,7 +80,7 @@ namespace sprout {
 				)
 				: base_type(
 					iterator(first),
-					sprout::size(range) < last - first ? sprout::next(iterator(first), sprout::size(range))
+					is_shorter(sprout::size(range), first, last) ? sprout::next(iterator(first), sprout::size(range))
 						: iterator(last)
 					)
 			{}
-- 
2.43.0


From 2ae0a69ae71a96e577307eff3be4add4a4578b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:35 +0000
Subject: [PATCH 118/275] fix: fix: counting_iterator difference is computed in
 the difference type

---
 sprout/iterator/counting_iterator.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/sprout/iterator/counting_iterator.hpp b/sprout/iterator/counting_iterator.hpp
index c42c93c..93069de 100644
--- a/sprout/iterator/counting_iterator.hpp
+++ b/sprout/iterator/counting_iterator.hpp
@@ -21,6 +21,25 @@
 #include <sprout/type_traits/enabler_if.hpp>
 
 namespace sprout {
+	namespace iterator_detail {
+		template<
+			typename Difference, typename T, typename U,
+			typename sprout::enabler_if<std::is_integral<T>::value && std::is_integral<U>::value>::type = sprout::enabler
+		>
+		inline SPROUT_CONSTEXPR Difference
+		counting_distance(T const& first, U const& last) {
+			return static_cast<Difference>(last) - static_cast<Difference>(first);
+		}
+		template<
+			typename Difference, typename T, typename U,
+			typename sprout::enabler_if<!(std::is_integral<T>::value && std::is_integral<U>::value)>::type = sprout::enabler
+		>
+		inline SPROUT_CONSTEXPR Difference
+		counting_distance(T const& first, U const& last) {
+			return static_cast<Difference>(last - first);
+		}
+	}	// namespace iterator_detail
+
 	//
 	// counting_iterator
 	//
@@ -160,7 +179,7 @@ namespace sprout {
 	template<typename Incrementable1, typename Incrementable2>
 	inline SPROUT_CONSTEXPR typename sprout::counting_iterator<Incrementable1>::difference_type
 	operator-(sprout::counting_iterator<Incrementable1> const& lhs, sprout::counting_iterator<Incrementable2> const& rhs) {
-		return static_cast<typename sprout::counting_iterator<Incrementable1>::difference_type>(*lhs - *rhs);
+		return sprout::iterator_detail::counting_distance<typename sprout::counting_iterator<Incrementable1>::difference_type>(*rhs, *lhs);
 	}
 	template<typename Incrementable>
 	inline SPROUT_CONSTEXPR sprout::counting_iterator<Incrementable>
-- 
2.43.0


From 8a167e0bcd4167a3d98de2a7218129cf0852ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:37 +0000
Subject: [PATCH 119/275] fix: fix: counting adaptor: use std::uintmax_t

---
 sprout/range/adaptor/counting.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/counting.hpp b/sprout/range/adaptor/counting.hpp
index b988e4e..6b5aa19 100644
--- a/sprout/range/adaptor/counting.hpp
+++ b/sprout/range/adaptor/counting.hpp
@@ -8,9 +8,9 @@
 #ifndef SPROUT_RANGE_ADAPTOR_COUNTING_HPP
 #define SPROUT_RANGE_ADAPTOR_COUNTING_HPP
 
+#include <cstdint>
 #include <type_traits>
 #include <sprout/config.hpp>
-#include <sprout/cstdint.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
@@ -47,7 +47,7 @@ namespace sprout {
 			static SPROUT_CONSTEXPR bool
 			is_shorter(difference_type size, T const& first, T const& last) {
 				return first < last
-					&& static_cast<sprout::uintmax_t>(size) < static_cast<sprout::uintmax_t>(last) - static_cast<sprout::uintmax_t>(first)
+					&& static_cast<std::uintmax_t>(size) < static_cast<std::uintmax_t>(last) - static_cast<std::uintmax_t>(first)
 					;
 			}
 			template<typename T, typename sprout::enabler_if<!std::is_integral<T>::value>::type = sprout::enabler>
-- 
2.43.0


From c02cfb5322bdfc21ecba90839b845151ae74261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:19 +0000
Subject: [PATCH 120/275] fix: clamp_iterator returns the clamped value by
 value

---
 sprout/iterator/clamp_iterator.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 8612ee7..1b7f0bf 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -24,10 +24,16 @@ namespace sprout {
 	//
 	template<typename Iterator, typename Compare = NS_SSCRISK_CEL_OR_SPROUT::less<typename std::iterator_traits<Iterator>::value_type> >
 	class clamp_iterator
-		: public sprout::detail::iterator_base<Iterator>::type
+		: public sprout::detail::iterator_base<
+			Iterator, sprout::use_default, sprout::use_default, sprout::use_default,
+			typename std::iterator_traits<Iterator>::value_type const*, typename std::iterator_traits<Iterator>::value_type
+		>::type
 	{
 	private:
-		typedef typename sprout::detail::iterator_base<Iterator>::type base_type;
+		typedef typename sprout::detail::iterator_base<
+			Iterator, sprout::use_default, sprout::use_default, sprout::use_default,
+			typename std::iterator_traits<Iterator>::value_type const*, typename std::iterator_traits<Iterator>::value_type
+		>::type base_type;
 	public:
 		typedef Iterator iterator_type;
 		typedef Compare compare_type;
-- 
2.43.0


From 633d111205e39128fc628c42860848304e3c2943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 121/275] fix: range::equal, is_permutation and mismatch
 respect the end of the second range

---
 sprout/range/algorithm/equal.hpp          | 4 ++--
 sprout/range/algorithm/is_permutation.hpp | 4 ++--
 sprout/range/algorithm/mismatch.hpp       | 4 +++-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/range/algorithm/equal.hpp b/sprout/range/algorithm/equal.hpp
index 9eafe2f..476ffe2 100644
--- a/sprout/range/algorithm/equal.hpp
+++ b/sprout/range/algorithm/equal.hpp
@@ -22,13 +22,13 @@ namespace sprout {
 		template<typename InputRange1, typename InputRange2>
 		inline SPROUT_CONSTEXPR bool
 		equal(InputRange1 const& range1, InputRange2 const& range2) {
-			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2));
+			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2));
 		}
 
 		template<typename InputRange1, typename InputRange2, typename BinaryPredicate>
 		inline SPROUT_CONSTEXPR bool
 		equal(InputRange1 const& range1, InputRange2 const& range2, BinaryPredicate pred) {
-			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), pred);
+			return sprout::equal(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2), pred);
 		}
 	}	// namespace range
 }	// namespace sprout
diff --git a/sprout/range/algorithm/is_permutation.hpp b/sprout/range/algorithm/is_permutation.hpp
index c0a7b78..714d494 100644
--- a/sprout/range/algorithm/is_permutation.hpp
+++ b/sprout/range/algorithm/is_permutation.hpp
@@ -22,13 +22,13 @@ namespace sprout {
 		template<typename ForwardRange1, typename ForwardRange2>
 		inline SPROUT_CONSTEXPR bool
 		is_permutation(ForwardRange1 const& range1, ForwardRange2 const& range2) {
-			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2));
+			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2));
 		}
 
 		template<typename ForwardRange1, typename ForwardRange2, typename BinaryPredicate>
 		inline SPROUT_CONSTEXPR bool
 		is_permutation(ForwardRange1 const& range1, ForwardRange2 const& range2, BinaryPredicate pred) {
-			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), pred);
+			return sprout::is_permutation(sprout::begin(range1), sprout::end(range1), sprout::begin(range2), sprout::end(range2), pred);
 		}
 	}	// namespace range
 }	// namespace sprout
diff --git a/sprout/range/algorithm/mismatch.hpp b/sprout/range/algorithm/mismatch.hpp
index 5f95b4e..69a217a 100644
--- a/sprout/range/algorithm/mismatch.hpp
+++ b/sprout/range/algorithm/mismatch.hpp
@@ -31,7 +31,8 @@ namespace sprout {
 			return sprout::mismatch(
 				sprout::begin(SPROUT_FORWARD(InputRange1, range1)),
 				sprout::end(SPROUT_FORWARD(InputRange1, range1)),
-				sprout::begin(SPROUT_FORWARD(InputRange2, range2))
+				sprout::begin(SPROUT_FORWARD(InputRange2, range2)),
+				sprout::end(SPROUT_FORWARD(InputRange2, range2))
 				);
 		}
 
@@ -45,6 +46,7 @@ namespace sprout {
 				sprout::begin(SPROUT_FORWARD(InputRange1, range1)),
 				sprout::end(SPROUT_FORWARD(InputRange1, range1)),
 				sprout::begin(SPROUT_FORWARD(InputRange2, range2)),
+				sprout::end(SPROUT_FORWARD(InputRange2, range2)),
 				pred
 				);
 		}
-- 
2.43.0


From 8fe4e2b8d2d7758a59b60249ca2735e13bfa1943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 122/275] fix: range::partition_copy, copy_while and copy_until
 match the iterator algorithms

---
 sprout/range/algorithm/cxx14/copy_until.hpp     |  4 +++-
 sprout/range/algorithm/cxx14/copy_while.hpp     |  4 +++-
 sprout/range/algorithm/cxx14/partition_copy.hpp | 13 ++++++++-----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/sprout/range/algorithm/cxx14/copy_until.hpp b/sprout/range/algorithm/cxx14/copy_until.hpp
index 605eeee..c745044 100644
--- a/sprout/range/algorithm/cxx14/copy_until.hpp
+++ b/sprout/range/algorithm/cxx14/copy_until.hpp
@@ -9,9 +9,11 @@
 #define SPROUT_RANGE_ALGORITHM_CXX14_COPY_UNTIL_HPP
 
 #include <sprout/config.hpp>
+#include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair/pair.hpp>
 #include <sprout/algorithm/cxx14/copy_until.hpp>
 
 namespace sprout {
@@ -23,7 +25,7 @@ namespace sprout {
 			typename InputRange, typename OutputIterator, typename Predicate,
 			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<typename sprout::container_traits<InputRange const>::iterator, OutputIterator>
 		copy_until(InputRange const& rng, OutputIterator result, Predicate pred) {
 			return sprout::copy_until(sprout::begin(rng), sprout::end(rng), result, pred);
 		}
diff --git a/sprout/range/algorithm/cxx14/copy_while.hpp b/sprout/range/algorithm/cxx14/copy_while.hpp
index f2f6954..18673b5 100644
--- a/sprout/range/algorithm/cxx14/copy_while.hpp
+++ b/sprout/range/algorithm/cxx14/copy_while.hpp
@@ -9,9 +9,11 @@
 #define SPROUT_RANGE_ALGORITHM_CXX14_COPY_WHILE_HPP
 
 #include <sprout/config.hpp>
+#include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair/pair.hpp>
 #include <sprout/algorithm/cxx14/copy_while.hpp>
 
 namespace sprout {
@@ -23,7 +25,7 @@ namespace sprout {
 			typename InputRange, typename OutputIterator, typename Predicate,
 			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<typename sprout::container_traits<InputRange const>::iterator, OutputIterator>
 		copy_while(InputRange const& rng, OutputIterator result, Predicate pred) {
 			return sprout::copy_while(sprout::begin(rng), sprout::end(rng), result, pred);
 		}
diff --git a/sprout/range/algorithm/cxx14/partition_copy.hpp b/sprout/range/algorithm/cxx14/partition_copy.hpp
index 716ac5f..03fc7cd 100644
--- a/sprout/range/algorithm/cxx14/partition_copy.hpp
+++ b/sprout/range/algorithm/cxx14/partition_copy.hpp
@@ -12,6 +12,7 @@
 #include <sprout/container/functions.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair/pair.hpp>
 #include <sprout/algorithm/cxx14/partition_copy.hpp>
 
 namespace sprout {
@@ -20,12 +21,14 @@ namespace sprout {
 		// partition_copy
 		//
 		template<
-			typename InputRange, typename OutputIterator, typename Predicate,
-			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
+			typename InputRange, typename OutputIterator1, typename OutputIterator2, typename Predicate,
+			typename sprout::enabler_if<
+				sprout::is_iterator_outputable<OutputIterator1>::value && sprout::is_iterator_outputable<OutputIterator2>::value
+			>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
-		partition_copy(InputRange const& rng, OutputIterator result, Predicate pred) {
-			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), result, pred);
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<OutputIterator1, OutputIterator2>
+		partition_copy(InputRange const& rng, OutputIterator1 out_true, OutputIterator2 out_false, Predicate pred) {
+			return sprout::partition_copy(sprout::begin(rng), sprout::end(rng), out_true, out_false, pred);
 		}
 	}	// namespace range
 }	// namespace sprout
-- 
2.43.0


From 5947cc69a091abe862e4d31cd80c68f110deb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 123/275] fix: range::fit set operations, merge and transform
 return the fit result type

---
 sprout/range/algorithm/fit/merge.hpp                    | 4 ++--
 sprout/range/algorithm/fit/set_difference.hpp           | 4 ++--
 sprout/range/algorithm/fit/set_intersection.hpp         | 4 ++--
 sprout/range/algorithm/fit/set_symmetric_difference.hpp | 4 ++--
 sprout/range/algorithm/fit/set_union.hpp                | 4 ++--
 sprout/range/algorithm/fit/transform.hpp                | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/range/algorithm/fit/merge.hpp b/sprout/range/algorithm/fit/merge.hpp
index 96d9e88..e3b7898 100644
--- a/sprout/range/algorithm/fit/merge.hpp
+++ b/sprout/range/algorithm/fit/merge.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// merge
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_difference.hpp b/sprout/range/algorithm/fit/set_difference.hpp
index a1e126e..0187c00 100644
--- a/sprout/range/algorithm/fit/set_difference.hpp
+++ b/sprout/range/algorithm/fit/set_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_intersection.hpp b/sprout/range/algorithm/fit/set_intersection.hpp
index 82f4766..dd1e5f3 100644
--- a/sprout/range/algorithm/fit/set_intersection.hpp
+++ b/sprout/range/algorithm/fit/set_intersection.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_intersection
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_symmetric_difference.hpp b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
index 18073af..ae47a90 100644
--- a/sprout/range/algorithm/fit/set_symmetric_difference.hpp
+++ b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_symmetric_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_union.hpp b/sprout/range/algorithm/fit/set_union.hpp
index 14b1576..f005698 100644
--- a/sprout/range/algorithm/fit/set_union.hpp
+++ b/sprout/range/algorithm/fit/set_union.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_union
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/transform.hpp b/sprout/range/algorithm/fit/transform.hpp
index 1cd1568..285dca8 100644
--- a/sprout/range/algorithm/fit/transform.hpp
+++ b/sprout/range/algorithm/fit/transform.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// transform
 			//
 			template<typename InputRange, typename Result, typename UnaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange const& rng, Result const& result, UnaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng), sprout::end(rng), result, op);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result, typename BinaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, BinaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), result, op);
 			}
-- 
2.43.0


From 7a06bef36c1df3959c768c65e9d016c63864ff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 124/275] fix: fixed::unique_copy accepts an empty result
 container

---
 sprout/algorithm/fixed/unique_copy.hpp | 34 ++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fixed/unique_copy.hpp b/sprout/algorithm/fixed/unique_copy.hpp
index 6f5a3ea..0eb8a2c 100644
--- a/sprout/algorithm/fixed/unique_copy.hpp
+++ b/sprout/algorithm/fixed/unique_copy.hpp
@@ -24,6 +24,21 @@
 namespace sprout {
 	namespace fixed {
 		namespace detail {
+			template<typename InputIterator, typename Result, typename Head, typename... Args>
+			inline SPROUT_CONSTEXPR typename std::enable_if<
+				(sprout::container_traits<Result>::static_size < sizeof...(Args) + 1),
+				typename sprout::fixed::results::algorithm<Result>::type
+			>::type
+			unique_copy_impl(
+				InputIterator const&, InputIterator const&,
+				Result const& result,
+				typename sprout::container_traits<Result>::size_type,
+				Head const&,
+				Args const&...
+				)
+			{
+				return sprout::detail::container_complate(result);
+			}
 			template<typename InputIterator, typename Result, typename Head, typename... Args>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
 				sprout::container_traits<Result>::static_size == sizeof...(Args) + 1,
@@ -41,7 +56,7 @@ namespace sprout {
 			}
 			template<typename InputIterator, typename Result, typename Head, typename... Args>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-				sprout::container_traits<Result>::static_size != sizeof...(Args) + 1,
+				(sprout::container_traits<Result>::static_size > sizeof...(Args) + 1),
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy_impl(
@@ -102,6 +117,21 @@ namespace sprout {
 		}
 
 		namespace detail {
+			template<typename InputIterator, typename Result, typename BinaryPredicate, typename Head, typename... Args>
+			inline SPROUT_CONSTEXPR typename std::enable_if<
+				(sprout::container_traits<Result>::static_size < sizeof...(Args) + 1),
+				typename sprout::fixed::results::algorithm<Result>::type
+			>::type
+			unique_copy_impl(
+				InputIterator const&, InputIterator const&,
+				Result const& result, BinaryPredicate,
+				typename sprout::container_traits<Result>::size_type,
+				Head const&,
+				Args const&...
+				)
+			{
+				return sprout::detail::container_complate(result);
+			}
 			template<typename InputIterator, typename Result, typename BinaryPredicate, typename Head, typename... Args>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
 				sprout::container_traits<Result>::static_size == sizeof...(Args) + 1,
@@ -119,7 +149,7 @@ namespace sprout {
 			}
 			template<typename InputIterator, typename Result, typename BinaryPredicate, typename Head, typename... Args>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-				sprout::container_traits<Result>::static_size != sizeof...(Args) + 1,
+				(sprout::container_traits<Result>::static_size > sizeof...(Args) + 1),
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy_impl(
-- 
2.43.0


From dab5902c6ab38cb24a1074e978e27aef7440719c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:49 +0000
Subject: [PATCH 125/275] fix: fixed to_lower_copy and to_upper_copy pass
 arguments in order

---
 sprout/algorithm/string/fixed/to_lower_copy.hpp | 2 +-
 sprout/algorithm/string/fixed/to_upper_copy.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/string/fixed/to_lower_copy.hpp b/sprout/algorithm/string/fixed/to_lower_copy.hpp
index 2802342..ce014b6 100644
--- a/sprout/algorithm/string/fixed/to_lower_copy.hpp
+++ b/sprout/algorithm/string/fixed/to_lower_copy.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 			template<typename InputIterator, typename Result>
 			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 			to_lower_copy(InputIterator first, InputIterator last, Result const& result) {
-				return sprout::fixed::transform(first, last, sprout::ctypes::to_lower<>(), result);
+				return sprout::fixed::transform(first, last, result, sprout::ctypes::to_lower<>());
 			}
 
 			template<typename Result, typename InputIterator>
diff --git a/sprout/algorithm/string/fixed/to_upper_copy.hpp b/sprout/algorithm/string/fixed/to_upper_copy.hpp
index 1cc1199..b2899ce 100644
--- a/sprout/algorithm/string/fixed/to_upper_copy.hpp
+++ b/sprout/algorithm/string/fixed/to_upper_copy.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 			template<typename InputIterator, typename Result>
 			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 			to_upper_copy(InputIterator first, InputIterator last, Result const& result) {
-				return sprout::fixed::transform(first, last, sprout::ctypes::to_upper<>(), result);
+				return sprout::fixed::transform(first, last, result, sprout::ctypes::to_upper<>());
 			}
 
 			template<typename Result, typename InputIterator>
-- 
2.43.0


From 4590ff0ff2f788a4e05480c6fa4b3ad8c8e9e24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 126/275] fix: fdim of two equal infinities is zero

---
 sprout/math/fdim.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/math/fdim.hpp b/sprout/math/fdim.hpp
index 29cb58a..25112da 100644
--- a/sprout/math/fdim.hpp
+++ b/sprout/math/fdim.hpp
@@ -45,6 +45,7 @@ namespace sprout {
 		fdim(FloatType x, FloatType y) {
 			return sprout::math::isnan(y) ? y
 				: sprout::math::isnan(x) ? x
+				: x == y ? FloatType(0)
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
-- 
2.43.0


From 18dd23eaabe4277fbe50638d233e76590643a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 127/275] fix: lgamma selects the right approximation interval
 and survives tiny negative arguments

---
 sprout/math/lgamma.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/lgamma.hpp b/sprout/math/lgamma.hpp
index fdaa6d1..6b9d2fb 100644
--- a/sprout/math/lgamma.hpp
+++ b/sprout/math/lgamma.hpp
@@ -44,7 +44,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			lgamma_impl_3(T x, T y) {
-				return x < 0 ? sprout::math::log(sprout::math::pi<T>() / sprout::math::fabs(x * sprout::math::sin(x * sprout::math::pi<T>()))) - y
+				return x < 0 ? sprout::math::log(sprout::math::pi<T>()) - sprout::math::log(sprout::math::fabs(x)) - sprout::math::log(sprout::math::fabs(sprout::math::sin(x * sprout::math::pi<T>()))) - y
 					: y
 					;
 			}
@@ -162,7 +162,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			lgamma_impl_2_b(T x, T t) {
-				return sprout::math::detail::lgamma_impl_2_b_1(x, t, sprout::math::itrunc(t) + 4);
+				return sprout::math::detail::lgamma_impl_2_b_1(x, t, sprout::math::itrunc(t + 4));
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-- 
2.43.0


From 2467d7b11ced92eca300f25812998cd22310e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 128/275] fix: lgamma reduces the reflection argument exactly

---
 sprout/math/lgamma.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/math/lgamma.hpp b/sprout/math/lgamma.hpp
index 6b9d2fb..782b452 100644
--- a/sprout/math/lgamma.hpp
+++ b/sprout/math/lgamma.hpp
@@ -20,6 +20,7 @@
 #include <sprout/math/sin.hpp>
 #include <sprout/math/fabs.hpp>
 #include <sprout/math/itrunc.hpp>
+#include <sprout/math/round.hpp>
 #include <sprout/math/is_integer.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
@@ -44,7 +45,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			lgamma_impl_3(T x, T y) {
-				return x < 0 ? sprout::math::log(sprout::math::pi<T>()) - sprout::math::log(sprout::math::fabs(x)) - sprout::math::log(sprout::math::fabs(sprout::math::sin(x * sprout::math::pi<T>()))) - y
+				return x < 0 ? sprout::math::log(sprout::math::pi<T>()) - sprout::math::log(sprout::math::fabs(x)) - sprout::math::log(sprout::math::fabs(sprout::math::sin((x - sprout::math::round(x)) * sprout::math::pi<T>()))) - y
 					: y
 					;
 			}
-- 
2.43.0


From a17c5b1fa4df4667a1b75679f4d3ce04f71c7ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 129/275] fix: exp: scale large arguments so the fallback
 series converges

---
 sprout/math/exp.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sprout/math/exp.hpp b/sprout/math/exp.hpp
index 1b27a77..a4cbb7c 100644
--- a/sprout/math/exp.hpp
+++ b/sprout/math/exp.hpp
@@ -48,8 +48,16 @@ namespace sprout {
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
+			exp_impl_square(T x) {
+				return x * x;
+			}
+			template<typename T>
+			inline SPROUT_CONSTEXPR T
 			exp_impl(T x) {
-				return !(x > -1) ? T(1) / (T(1) + sprout::math::detail::exp_impl_1(-x, 1, sprout::math::factorial_limit<T>() / 2 + 1))
+				return x >= sprout::numeric_limits<T>::max_exponent ? sprout::numeric_limits<T>::infinity()
+					: !(x > -sprout::numeric_limits<T>::max_exponent) ? T(0)
+					: !(x > -1) ? T(1) / sprout::math::detail::exp_impl(-x)
+					: x > 32 ? sprout::math::detail::exp_impl_square(sprout::math::detail::exp_impl(x / 2))
 					: T(1) + sprout::math::detail::exp_impl_1(x, 1, sprout::math::factorial_limit<T>() / 2 + 1)
 					;
 			}
-- 
2.43.0


From 03a61963737febf120874bad4031849c581ecb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 130/275] fix: tanh: saturate at +-1 for large arguments

---
 sprout/math/tanh.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sprout/math/tanh.hpp b/sprout/math/tanh.hpp
index a4f6121..8f88b78 100644
--- a/sprout/math/tanh.hpp
+++ b/sprout/math/tanh.hpp
@@ -48,7 +48,10 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			tanh_impl(T x) {
-				return sprout::math::detail::tanh_impl_1(sprout::math::exp(x));
+				return x > sprout::numeric_limits<T>::digits ? T(1)
+					: x < -sprout::numeric_limits<T>::digits ? T(-1)
+					: sprout::math::detail::tanh_impl_1(sprout::math::exp(x))
+					;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 571cf278368605e84964524447fe150646ef3e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 131/275] fix: asinh, acosh: no cancellation for negative and
 no overflow for large arguments

---
 sprout/math/acosh.hpp | 5 ++++-
 sprout/math/asinh.hpp | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sprout/math/acosh.hpp b/sprout/math/acosh.hpp
index f369f03..67c8259 100644
--- a/sprout/math/acosh.hpp
+++ b/sprout/math/acosh.hpp
@@ -14,6 +14,7 @@
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/constants.hpp>
 #include <sprout/math/log.hpp>
 #include <sprout/math/sqrt.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
@@ -39,7 +40,9 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			acosh_impl(T x) {
-				return sprout::math::log(x + sprout::math::sqrt(x * x - 1));
+				return x > 1 / sprout::numeric_limits<T>::epsilon() ? sprout::math::log(x) + sprout::math::ln_two<T>()
+					: sprout::math::log(x + sprout::math::sqrt(x * x - 1))
+					;
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/asinh.hpp b/sprout/math/asinh.hpp
index 1a5f4fb..eea2081 100644
--- a/sprout/math/asinh.hpp
+++ b/sprout/math/asinh.hpp
@@ -14,6 +14,7 @@
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
 #include <sprout/math/isnan.hpp>
+#include <sprout/math/constants.hpp>
 #include <sprout/math/log.hpp>
 #include <sprout/math/sqrt.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
@@ -39,7 +40,10 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			asinh_impl(T x) {
-				return sprout::math::log(x + sprout::math::sqrt(x * x + 1));
+				return x < 0 ? -sprout::math::detail::asinh_impl(-x)
+					: x > 1 / sprout::numeric_limits<T>::epsilon() ? sprout::math::log(x) + sprout::math::ln_two<T>()
+					: sprout::math::log(x + sprout::math::sqrt(x * x + 1))
+					;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From c92969d45eed9ccdaee22ed22186ba5433bb657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:30 +0000
Subject: [PATCH 132/275] fix: log: do not recurse forever on subnormal
 arguments

---
 sprout/math/log.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sprout/math/log.hpp b/sprout/math/log.hpp
index b4baf31..70b1621 100644
--- a/sprout/math/log.hpp
+++ b/sprout/math/log.hpp
@@ -59,7 +59,10 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			log_impl(T x) {
-				return x < 1 ? -sprout::math::detail::log_impl_1(T(1) / x)
+				return x < sprout::numeric_limits<T>::min()
+						? sprout::math::detail::log_impl(x / sprout::numeric_limits<T>::epsilon())
+							+ sprout::math::detail::log_impl(sprout::numeric_limits<T>::epsilon())
+					: x < 1 ? -sprout::math::detail::log_impl_1(T(1) / x)
 					: sprout::math::detail::log_impl_1(x)
 					;
 			}
-- 
2.43.0


From 066195561e73195d82bb89bbe52040e9676e91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:17 +0000
Subject: [PATCH 133/275] fix: exp: tighter argument bound for long double

---
 sprout/math/exp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/exp.hpp b/sprout/math/exp.hpp
index a4cbb7c..c2035ae 100644
--- a/sprout/math/exp.hpp
+++ b/sprout/math/exp.hpp
@@ -57,7 +57,7 @@ namespace sprout {
 				return x >= sprout::numeric_limits<T>::max_exponent ? sprout::numeric_limits<T>::infinity()
 					: !(x > -sprout::numeric_limits<T>::max_exponent) ? T(0)
 					: !(x > -1) ? T(1) / sprout::math::detail::exp_impl(-x)
-					: x > 32 ? sprout::math::detail::exp_impl_square(sprout::math::detail::exp_impl(x / 2))
+					: x > 16 ? sprout::math::detail::exp_impl_square(sprout::math::detail::exp_impl(x / 2))
 					: T(1) + sprout::math::detail::exp_impl_1(x, 1, sprout::math::factorial_limit<T>() / 2 + 1)
 					;
 			}
-- 
2.43.0


From d0edd351512459aa3be97c230b28a0eb63706757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:36 +0000
Subject: [PATCH 134/275] fix: tgamma: overflow to infinity for large arguments
 instead of rounding them to int

---
 sprout/math/tgamma.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/math/tgamma.hpp b/sprout/math/tgamma.hpp
index 7edf1ad..a44ca4a 100644
--- a/sprout/math/tgamma.hpp
+++ b/sprout/math/tgamma.hpp
@@ -113,7 +113,9 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			tgamma_impl(T x) {
-				return sprout::math::detail::tgamma_impl_1(
+				return x > static_cast<T>(sprout::math::factorial_limit<T>()) + 2 ? sprout::numeric_limits<T>::infinity()
+					: x < -static_cast<T>(sprout::math::factorial_limit<T>()) * 2 ? T(0)
+					: sprout::math::detail::tgamma_impl_1(
 					x,
 					sprout::clamp(
 						sprout::math::iround(x - T(2)),
-- 
2.43.0


From f8431ccd3849b1a17d81fa00e8a1af3f2d90ddf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:20 +0000
Subject: [PATCH 135/275] fix: floor, ceil, trunc, round: 2^64 does not fit
 uintmax_t

---
 sprout/math/ceil.hpp  | 2 +-
 sprout/math/floor.hpp | 2 +-
 sprout/math/round.hpp | 2 +-
 sprout/math/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index a72c3c2..6e9de19 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_ceil(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("ceil: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::ceil_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index b018752..b2f8def 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_floor(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("floor: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::floor_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/round.hpp b/sprout/math/round.hpp
index 1d2a361..ea8e9d7 100644
--- a/sprout/math/round.hpp
+++ b/sprout/math/round.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_round(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("round: large float rounding."), x)
 				: static_cast<FloatType>(sprout::math::detail::round_impl(static_cast<typename sprout::math::detail::float_compute<FloatType>::type>(x)))
 #endif
diff --git a/sprout/math/trunc.hpp b/sprout/math/trunc.hpp
index 80eaba3..291ef4c 100644
--- a/sprout/math/trunc.hpp
+++ b/sprout/math/trunc.hpp
@@ -51,7 +51,7 @@ namespace sprout {
 				: sprout::math::detail::builtin_trunc(x)
 #else
 				: x == 0 ? x
-				: sprout::numeric_limits<std::uintmax_t>::max() < x || sprout::numeric_limits<std::uintmax_t>::max() < -x
+				: sprout::numeric_limits<std::uintmax_t>::max() <= x || sprout::numeric_limits<std::uintmax_t>::max() <= -x
 					? SPROUT_MATH_THROW_LARGE_FLOAT_ROUNDING(std::runtime_error("trunc: large float rounding."), x)
 				: x < 0 ? -static_cast<FloatType>(static_cast<std::uintmax_t>(-x))
 				: static_cast<FloatType>(static_cast<std::uintmax_t>(x))
-- 
2.43.0


From f785d72726dfc1f92c6266b80de82a76aa7a8f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 136/275] fix: issubnormal: use the threshold of the argument
 type

---
 sprout/math/issubnormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/issubnormal.hpp b/sprout/math/issubnormal.hpp
index 5cf7230..2f60a1e 100644
--- a/sprout/math/issubnormal.hpp
+++ b/sprout/math/issubnormal.hpp
@@ -28,8 +28,8 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR bool
 			issubnormal_or_zero(FloatType x) {
 				return x > 0
-					? x < sprout::numeric_limits<double>::min()
-					: x > -sprout::numeric_limits<double>::min()
+					? x < sprout::numeric_limits<FloatType>::min()
+					: x > -sprout::numeric_limits<FloatType>::min()
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 41f87a02d11d9a6021edbf8a440989f31a5e4006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 137/275] fix: rem_quo: keep only the reported low bits of the
 quotient

---
 sprout/math/rem_quo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/rem_quo.hpp b/sprout/math/rem_quo.hpp
index 4b8126a..9e4ee1d 100644
--- a/sprout/math/rem_quo.hpp
+++ b/sprout/math/rem_quo.hpp
@@ -54,8 +54,8 @@ namespace sprout {
 			rem_quo_impl_5(T x, T y, int k, R iquo, T x1, T y1, T z, int iscy, int idiff, int i) {
 				return i != idiff
 					? z >= 0
-						? sprout::math::detail::rem_quo_impl_5(x, y, k, iquo + iquo + 2, z + z, y1, z + z - y1, iscy, idiff, i + 1)
-						: sprout::math::detail::rem_quo_impl_5(x, y, k, iquo + iquo, x1 + x1, y1, x1 + x1 - y1, iscy, idiff, i + 1)
+						? sprout::math::detail::rem_quo_impl_5(x, y, k, ((iquo + iquo) & 0x7) + 2, z + z, y1, z + z - y1, iscy, idiff, i + 1)
+						: sprout::math::detail::rem_quo_impl_5(x, y, k, (iquo + iquo) & 0x7, x1 + x1, y1, x1 + x1 - y1, iscy, idiff, i + 1)
 					: sprout::math::detail::rem_quo_impl_6(x, y, k, iquo, sprout::math::scalbn(x1, iscy))
 					;
 			}
-- 
2.43.0


From 106320e4b933c4f56201422116010714aba77347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:43 +0000
Subject: [PATCH 138/275] fix: lround, llround: compile for integer arguments
 and without builtins

---
 sprout/math/llround.hpp | 4 ++--
 sprout/math/lround.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/llround.hpp b/sprout/math/llround.hpp
index 660fc75..ea06c86 100644
--- a/sprout/math/llround.hpp
+++ b/sprout/math/llround.hpp
@@ -48,7 +48,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				: sprout::math::detail::builtin_llround(x)
 #else
-				: sprout::math::iround<long long>(x);
+				: sprout::math::iround<long long>(x)
 #endif
 				;
 		}
@@ -60,7 +60,7 @@ namespace sprout {
 		llround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_llround(x)
+				sprout::math::detail::builtin_llround(static_cast<double>(x))
 #else
 				sprout::math::iround<long long>(x)
 #endif
diff --git a/sprout/math/lround.hpp b/sprout/math/lround.hpp
index e2d42ca..7458ded 100644
--- a/sprout/math/lround.hpp
+++ b/sprout/math/lround.hpp
@@ -48,7 +48,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				: sprout::math::detail::builtin_lround(x)
 #else
-				: sprout::math::iround<long>(x);
+				: sprout::math::iround<long>(x)
 #endif
 				;
 		}
@@ -60,7 +60,7 @@ namespace sprout {
 		lround(IntType x) {
 			return
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
-				sprout::math::detail::builtin_lround(x)
+				sprout::math::detail::builtin_lround(static_cast<double>(x))
 #else
 				sprout::math::iround<long>(x)
 #endif
-- 
2.43.0


From 9ab41a32d2014edf46444b0ce421e0931d8344d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 139/275] fix: iround: honour the requested type for integer
 arguments

---
 sprout/math/iround.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/iround.hpp b/sprout/math/iround.hpp
index bc24f97..ce131f4 100644
--- a/sprout/math/iround.hpp
+++ b/sprout/math/iround.hpp
@@ -92,7 +92,7 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR To
 		iround(IntType x) {
-			return sprout::math::iround(static_cast<double>(x));
+			return sprout::math::iround<To>(static_cast<double>(x));
 		}
 	}	// namespace math
 
-- 
2.43.0


From dfee75782596ac8fed817dc7ad1199b0250b19c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 140/275] fix: floor, ceil: compare exactly

---
 sprout/math/ceil.hpp   | 2 +-
 sprout/math/floor.hpp  | 2 +-
 sprout/math/iceil.hpp  | 2 +-
 sprout/math/ifloor.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index 6e9de19..2c49738 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			ceil_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 + T(1)
 					;
 			}
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index b2f8def..520e90f 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			floor_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 - T(1)
 					;
 			}
diff --git a/sprout/math/iceil.hpp b/sprout/math/iceil.hpp
index 86def99..fefc48e 100644
--- a/sprout/math/iceil.hpp
+++ b/sprout/math/iceil.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			iceil_impl(FloatType x, To x0) {
-				return sprout::math::less_equal(x, x0) ? x0
+				return x <= x0 ? x0
 					: x0 + 1
 					;
 			}
diff --git a/sprout/math/ifloor.hpp b/sprout/math/ifloor.hpp
index a664fc8..570005f 100644
--- a/sprout/math/ifloor.hpp
+++ b/sprout/math/ifloor.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			ifloor_impl(FloatType x, To x0) {
-				return sprout::math::greater_equal(x, x0) ? x0
+				return x >= x0 ? x0
 					: x0 - 1
 					;
 			}
-- 
2.43.0


From d8a03c3e4e4a50d08cc60b954a53dea02e648168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 141/275] fix: math::equal_to: mixed signedness

---
 sprout/math/equal_to.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/equal_to.hpp b/sprout/math/equal_to.hpp
index e6d613f..c67620e 100644
--- a/sprout/math/equal_to.hpp
+++ b/sprout/math/equal_to.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			>
 			inline SPROUT_CONSTEXPR bool
 			equal_to(IntType1 x, IntType2 y) {
-				return x == y;
+				return (x < 0) == (y < 0) && x == y;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 2c21c1234007476e3e460530257680af556a7f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 142/275] fix: ldexp, scalbn, scalbln: exact for subnormals and
 large exponents without builtins

---
 sprout/math/detail/scale.hpp | 52 ++++++++++++++++++++++++++++++++++++
 sprout/math/ldexp.hpp        |  3 ++-
 sprout/math/scalbln.hpp      |  5 +++-
 sprout/math/scalbn.hpp       |  5 +++-
 4 files changed, 62 insertions(+), 3 deletions(-)
 create mode 100644 sprout/math/detail/scale.hpp

diff --git a/sprout/math/detail/scale.hpp b/sprout/math/detail/scale.hpp
new file mode 100644
index 0000000..e043aea
--- /dev/null
+++ b/sprout/math/detail/scale.hpp
@@ -0,0 +1,52 @@
+/*=============================================================================
+  Copyright (c) 2011-2019 Bolero MURAKAMI
+  https://github.com/bolero-MURAKAMI/Sprout
+
+  Distributed under the Boost Software License, Version 1.0. (See accompanying
+  file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
+=============================================================================*/
+#ifndef SPROUT_MATH_DETAIL_SCALE_HPP
+#define SPROUT_MATH_DETAIL_SCALE_HPP
+
+#include <sprout/config.hpp>
+#include <sprout/limits.hpp>
+#include <sprout/detail/pow.hpp>
+
+namespace sprout {
+	namespace math {
+		namespace detail {
+			//
+			// scale
+			//	x * 2^exp, rounded once
+			//
+			template<typename T>
+			inline SPROUT_CONSTEXPR T
+			scale_impl(T x, int exp) {
+				return exp >= sprout::numeric_limits<T>::max_exponent
+						? sprout::math::detail::scale_impl(
+							x * sprout::detail::pow_n(T(2), sprout::numeric_limits<T>::max_exponent - 1),
+							exp - (sprout::numeric_limits<T>::max_exponent - 1)
+							)
+					: exp < sprout::numeric_limits<T>::min_exponent - 1
+						? sprout::math::detail::scale_impl(
+							x * sprout::detail::pow_n(T(2), sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits),
+							exp - (sprout::numeric_limits<T>::min_exponent - 1 + sprout::numeric_limits<T>::digits)
+							)
+					: x * sprout::detail::pow_n(T(2), exp)
+					;
+			}
+			template<typename T, typename IntType>
+			inline SPROUT_CONSTEXPR T
+			scale(T x, IntType exp) {
+				return sprout::math::detail::scale_impl(
+					x,
+					exp > sprout::numeric_limits<T>::max_exponent * 4 ? sprout::numeric_limits<T>::max_exponent * 4
+						: exp < -(sprout::numeric_limits<T>::max_exponent * 4) ? -(sprout::numeric_limits<T>::max_exponent * 4)
+						: static_cast<int>(exp)
+					);
+			}
+		}	// namespace detail
+	}	// namespace math
+}	// namespace sprout
+
+#endif	// #ifndef SPROUT_MATH_DETAIL_SCALE_HPP
diff --git a/sprout/math/ldexp.hpp b/sprout/math/ldexp.hpp
index 44452b8..311a7b8 100644
--- a/sprout/math/ldexp.hpp
+++ b/sprout/math/ldexp.hpp
@@ -14,6 +14,7 @@
 #include <sprout/detail/pow.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
@@ -38,7 +39,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			ldexp_impl(T x, int exp) {
-				return x * sprout::detail::pow_n(T(2), exp);
+				return sprout::math::detail::scale(x, exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/scalbln.hpp b/sprout/math/scalbln.hpp
index 78faa8a..70e79f2 100644
--- a/sprout/math/scalbln.hpp
+++ b/sprout/math/scalbln.hpp
@@ -14,6 +14,7 @@
 #include <sprout/detail/pow.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
@@ -38,7 +39,9 @@ namespace sprout {
 			template<typename FloatType, typename T>
 			inline SPROUT_CONSTEXPR T
 			scalbln_impl(T x, long exp) {
-				return x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp);
+				return sprout::numeric_limits<FloatType>::radix == 2 ? sprout::math::detail::scale(x, exp)
+					: x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp)
+					;
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/scalbn.hpp b/sprout/math/scalbn.hpp
index 51b5e65..7031a6a 100644
--- a/sprout/math/scalbn.hpp
+++ b/sprout/math/scalbn.hpp
@@ -14,6 +14,7 @@
 #include <sprout/detail/pow.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/detail/float_compute.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
@@ -38,7 +39,9 @@ namespace sprout {
 			template<typename FloatType, typename T>
 			inline SPROUT_CONSTEXPR T
 			scalbn_impl(T x, int exp) {
-				return x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp);
+				return sprout::numeric_limits<FloatType>::radix == 2 ? sprout::math::detail::scale(x, exp)
+					: x * sprout::detail::pow_n(T(sprout::numeric_limits<FloatType>::radix), exp)
+					;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 33f737795818ebb782c344eaf9a5cd85476e5751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:30 +0000
Subject: [PATCH 143/275] fix: float_significand, float_sig_exp: subnormal and
 huge arguments

---
 sprout/math/float2_sig_exp.hpp     | 3 ++-
 sprout/math/float2_significand.hpp | 3 ++-
 sprout/math/float_sig_exp.hpp      | 4 +++-
 sprout/math/float_significand.hpp  | 2 ++
 4 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/math/float2_sig_exp.hpp b/sprout/math/float2_sig_exp.hpp
index ccb3e85..0280ff7 100644
--- a/sprout/math/float2_sig_exp.hpp
+++ b/sprout/math/float2_sig_exp.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
 #include <sprout/detail/pow.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/ilogb2.hpp>
@@ -25,7 +26,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float2_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(2), exp), exp);
+				return type(sprout::math::detail::scale(x, -exp), exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/float2_significand.hpp b/sprout/math/float2_significand.hpp
index c3098eb..084e798 100644
--- a/sprout/math/float2_significand.hpp
+++ b/sprout/math/float2_significand.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
 #include <sprout/detail/pow.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/float2_exponent.hpp>
@@ -32,7 +33,7 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
-				: x / sprout::detail::pow_n(FloatType(2), sprout::float2_exponent(x))
+				: sprout::math::detail::scale(x, -sprout::float2_exponent(x))
 				;
 		}
 		template<
diff --git a/sprout/math/float_sig_exp.hpp b/sprout/math/float_sig_exp.hpp
index 4f42b5a..de546aa 100644
--- a/sprout/math/float_sig_exp.hpp
+++ b/sprout/math/float_sig_exp.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
 #include <sprout/detail/pow.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/ilogb.hpp>
@@ -25,7 +26,8 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), exp), exp);
+				return type(sprout::numeric_limits<T>::radix == 2 ? sprout::math::detail::scale(x, -exp)
+					: x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), exp), exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/float_significand.hpp b/sprout/math/float_significand.hpp
index 0d7f7ff..b65cfec 100644
--- a/sprout/math/float_significand.hpp
+++ b/sprout/math/float_significand.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/limits.hpp>
 #include <sprout/detail/pow.hpp>
+#include <sprout/math/detail/scale.hpp>
 #include <sprout/math/detail/config.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/float_exponent.hpp>
@@ -32,6 +33,7 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
+				: sprout::numeric_limits<FloatType>::radix == 2 ? sprout::math::detail::scale(x, -sprout::float_exponent(x))
 				: x / sprout::detail::pow_n(FloatType(sprout::numeric_limits<FloatType>::radix), sprout::float_exponent(x))
 				;
 		}
-- 
2.43.0


From edbc3465bcd042e27dbd29b05251e511dec40029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 144/275] fix: logb: exact exponent search without builtins

---
 sprout/math/logb.hpp | 76 ++++++++++----------------------------------
 1 file changed, 16 insertions(+), 60 deletions(-)

diff --git a/sprout/math/logb.hpp b/sprout/math/logb.hpp
index 9459ea9..27b29dc 100644
--- a/sprout/math/logb.hpp
+++ b/sprout/math/logb.hpp
@@ -42,77 +42,33 @@ namespace sprout {
 
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_neg_lo(T x, T x0, T base, T exp) {
-				return base < 1 ? sprout::math::detail::logb_impl_3_neg_lo(
-						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
+			logb_impl_pos(T x, int n, T exp) {
+				return n == 0 ? exp
+					: x >= sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), n) ? sprout::math::detail::logb_impl_pos(
+						x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), n), n / 2, exp + n
 						)
-					: exp
+					: sprout::math::detail::logb_impl_pos(x, n / 2, exp)
 					;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_neg_hi(T x, T x0, T base, T exp) {
-				return !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_neg_hi(
-						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
+			logb_impl_neg(T x, int n, T exp) {
+				return n == 0 ? exp
+					: x * sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), n) < sprout::numeric_limits<T>::radix ? sprout::math::detail::logb_impl_neg(
+						x * sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), n), n / 2, exp - n
 						)
-					: exp
+					: sprout::math::detail::logb_impl_neg(x, n / 2, exp)
 					;
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
-			logb_impl_3_pos_lo(T x, T x0, T base, T exp) {
-				return base < 1 ? sprout::math::detail::logb_impl_3_pos_lo(
-						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-						)
-					: exp
-					;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_3_pos_hi(T x, T x0, T base, T exp) {
-				return !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_pos_hi(
-						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-						)
-					: exp
-					;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_3(T x, T x0, T base, T exp) {
-				return x < 1
-					? base < 1 ? sprout::math::detail::logb_impl_3_neg_lo(
-							x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-							)
-						: !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_neg_hi(
-								x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-								)
-						: exp
-					: base < 1 ? sprout::math::detail::logb_impl_3_pos_lo(
-							x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
-							)
-						: !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_pos_hi(
-								x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
-								)
-						: exp
-						;
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_2(T x, T x0, T exp) {
-				return sprout::math::detail::logb_impl_3(x, x0, x / x0, exp);
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
-			logb_impl_1(T x, T exp) {
-				return sprout::math::detail::logb_impl_2(
-					x, sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), sprout::math::itrunc<std::intmax_t>(exp)), exp
-					);
-			}
-			template<typename T>
-			inline SPROUT_CONSTEXPR T
 			logb_impl(T x) {
-				return x < 0 ? sprout::math::detail::logb_impl_1(-x, sprout::math::trunc(sprout::math::log_a(T(sprout::numeric_limits<T>::radix), -x)))
-					: sprout::math::detail::logb_impl_1(x, sprout::math::trunc(sprout::math::log_a(T(sprout::numeric_limits<T>::radix), x)))
+				return x < 0 ? sprout::math::detail::logb_impl(-x)
+					: !(x < 1) ? sprout::math::detail::logb_impl_pos(x, sprout::numeric_limits<T>::max_exponent / 2, T(0))
+					: x < sprout::numeric_limits<T>::min() ? sprout::math::detail::logb_impl_neg(
+						x / sprout::numeric_limits<T>::epsilon(), sprout::numeric_limits<T>::max_exponent / 2, T(1 - sprout::numeric_limits<T>::digits)
+						)
+					: sprout::math::detail::logb_impl_neg(x, sprout::numeric_limits<T>::max_exponent / 2, T(0))
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 6374385e485fb76998f647be8eabfcb2f3f014b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:14 +0000
Subject: [PATCH 145/275] fix: islessequal: include equality without builtins

---
 sprout/math/islessequal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/islessequal.hpp b/sprout/math/islessequal.hpp
index 0f9896a..8e0d6d9 100644
--- a/sprout/math/islessequal.hpp
+++ b/sprout/math/islessequal.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				sprout::math::detail::builtin_islessequal(x, y)
 #else
-				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x < y)
+				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x <= y)
 #endif
 				;
 		}
-- 
2.43.0


From 60a72a0c839037a2da6744968cb475ee8b4fd3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:16 +0000
Subject: [PATCH 146/275] fix: clrsb, cntl1 and cntt1 count the right bits for
 every integral type

---
 sprout/bit/clrsb.hpp | 4 +++-
 sprout/bit/cntl1.hpp | 4 ++--
 sprout/bit/cntt1.hpp | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sprout/bit/clrsb.hpp b/sprout/bit/clrsb.hpp
index 96f5bc4..becb26a 100644
--- a/sprout/bit/clrsb.hpp
+++ b/sprout/bit/clrsb.hpp
@@ -8,9 +8,11 @@
 #ifndef SPROUT_BIT_CLRSB_HPP
 #define SPROUT_BIT_CLRSB_HPP
 
+#include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/bit/clz.hpp>
+#include <sprout/bit/shar.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -31,7 +33,7 @@ namespace sprout {
 		template<typename Integral>
 		inline SPROUT_CONSTEXPR int
 		clrsb(Integral x) SPROUT_NOEXCEPT {
-			return sprout::clz(~x);
+			return sprout::clz(static_cast<Integral>(sprout::shar(x, sizeof(Integral) * CHAR_BIT - 1) ? ~x : x)) - 1;
 		}
 	}	// namespace detail
 	//
diff --git a/sprout/bit/cntl1.hpp b/sprout/bit/cntl1.hpp
index a54b84f..b1cd2f8 100644
--- a/sprout/bit/cntl1.hpp
+++ b/sprout/bit/cntl1.hpp
@@ -10,7 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
-#include <sprout/bit/clrsb.hpp>
+#include <sprout/bit/clz.hpp>
 
 namespace sprout {
 	//
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntl1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::clrsb(x);
+		return sprout::clz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/cntt1.hpp b/sprout/bit/cntt1.hpp
index 0a6b207..76d9500 100644
--- a/sprout/bit/cntt1.hpp
+++ b/sprout/bit/cntt1.hpp
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntt1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::ctz(~x);
+		return sprout::ctz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From eea76dd501bb6eff2f8b97238c77f21d843ef901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:16 +0000
Subject: [PATCH 147/275] fix: rotl/rotr do not shift by the full width or
 shift negative values

---
 sprout/bit/rotl.hpp | 5 ++++-
 sprout/bit/rotr.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/bit/rotl.hpp b/sprout/bit/rotl.hpp
index 3e39668..704e02f 100644
--- a/sprout/bit/rotl.hpp
+++ b/sprout/bit/rotl.hpp
@@ -11,6 +11,7 @@
 #include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shll.hpp>
 #include <sprout/bit/shlr.hpp>
 
 namespace sprout {
@@ -23,7 +24,9 @@ namespace sprout {
 		Integral
 	>::type
 	rotl(Integral x, int s) SPROUT_NOEXCEPT {
-		return (x << s) | sprout::shlr(x, sizeof(x) * CHAR_BIT - s);
+		return s == 0 ? x
+			: static_cast<Integral>(sprout::shll(x, s) | sprout::shlr(x, sizeof(x) * CHAR_BIT - s))
+			;
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rotr.hpp b/sprout/bit/rotr.hpp
index 3327e01..45d2676 100644
--- a/sprout/bit/rotr.hpp
+++ b/sprout/bit/rotr.hpp
@@ -11,6 +11,7 @@
 #include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shll.hpp>
 #include <sprout/bit/shlr.hpp>
 
 namespace sprout {
@@ -23,7 +24,9 @@ namespace sprout {
 		Integral
 	>::type
 	rotr(Integral x, int s) SPROUT_NOEXCEPT {
-		return sprout::shlr(x, s) | (x << (sizeof(x) * CHAR_BIT - s));
+		return s == 0 ? x
+			: static_cast<Integral>(sprout::shlr(x, s) | sprout::shll(x, sizeof(x) * CHAR_BIT - s))
+			;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 7244dc0337506b6b60876e4253ecc408ace054ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:16 +0000
Subject: [PATCH 148/275] fix: single-bit and bit-range operations are defined
 for every position

---
 sprout/bit/flipbit.hpp    | 3 ++-
 sprout/bit/flipbitsge.hpp | 3 ++-
 sprout/bit/flipbitsle.hpp | 3 ++-
 sprout/bit/rstbit.hpp     | 3 ++-
 sprout/bit/rstbitsge.hpp  | 3 ++-
 sprout/bit/rstbitsle.hpp  | 3 ++-
 sprout/bit/setbit.hpp     | 3 ++-
 sprout/bit/setbitsge.hpp  | 3 ++-
 sprout/bit/setbitsle.hpp  | 3 ++-
 sprout/bit/testbit.hpp    | 3 ++-
 10 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/sprout/bit/flipbit.hpp b/sprout/bit/flipbit.hpp
index ff68c80..6b1b5d9 100644
--- a/sprout/bit/flipbit.hpp
+++ b/sprout/bit/flipbit.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbit(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ (Integral(1) << b);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ static_cast<type>(type(1) << b));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/flipbitsge.hpp b/sprout/bit/flipbitsge.hpp
index 06effdb..6dd8213 100644
--- a/sprout/bit/flipbitsge.hpp
+++ b/sprout/bit/flipbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ~((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ ~static_cast<type>((type(1) << b) - 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/flipbitsle.hpp b/sprout/bit/flipbitsle.hpp
index 4590515..649a31f 100644
--- a/sprout/bit/flipbitsle.hpp
+++ b/sprout/bit/flipbitsle.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ((Integral(1) << (b + 1)) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ static_cast<type>((type(2) << b) - 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbit.hpp b/sprout/bit/rstbit.hpp
index 18ba605..ae395b3 100644
--- a/sprout/bit/rstbit.hpp
+++ b/sprout/bit/rstbit.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbit(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ~(Integral(1) << b);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & ~static_cast<type>(type(1) << b));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsge.hpp b/sprout/bit/rstbitsge.hpp
index 61b605a..8693137 100644
--- a/sprout/bit/rstbitsge.hpp
+++ b/sprout/bit/rstbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & static_cast<type>((type(1) << b) - 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsle.hpp b/sprout/bit/rstbitsle.hpp
index 8f5044f..60d1bbf 100644
--- a/sprout/bit/rstbitsle.hpp
+++ b/sprout/bit/rstbitsle.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ~((Integral(1) << (b + 1)) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & ~static_cast<type>((type(2) << b) - 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbit.hpp b/sprout/bit/setbit.hpp
index 38a913a..d9d872a 100644
--- a/sprout/bit/setbit.hpp
+++ b/sprout/bit/setbit.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbit(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | (Integral(1) << b);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | static_cast<type>(type(1) << b));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsge.hpp b/sprout/bit/setbitsge.hpp
index ea82f41..7890083 100644
--- a/sprout/bit/setbitsge.hpp
+++ b/sprout/bit/setbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ~((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | ~static_cast<type>((type(1) << b) - 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsle.hpp b/sprout/bit/setbitsle.hpp
index 604ad71..505577d 100644
--- a/sprout/bit/setbitsle.hpp
+++ b/sprout/bit/setbitsle.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ((Integral(1) << (b + 1)) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | static_cast<type>((type(2) << b) - 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/testbit.hpp b/sprout/bit/testbit.hpp
index 8d136df..2fe975b 100644
--- a/sprout/bit/testbit.hpp
+++ b/sprout/bit/testbit.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		bool
 	>::type
 	testbit(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & (Integral(1) << b);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return (static_cast<type>(x) & static_cast<type>(type(1) << b)) != 0;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From fc98c58208f97260d5235f7c2059e7b37cd6a539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:17 +0000
Subject: [PATCH 149/275] fix: rightmost-bit operations do not overflow for the
 extreme values of signed types

---
 sprout/bit/isols0b.hpp    | 3 ++-
 sprout/bit/isols1b.hpp    | 3 ++-
 sprout/bit/maskt0.hpp     | 3 ++-
 sprout/bit/maskt0ls1b.hpp | 3 ++-
 sprout/bit/maskt1.hpp     | 3 ++-
 sprout/bit/maskt1ls0b.hpp | 3 ++-
 sprout/bit/rstls1b.hpp    | 3 ++-
 sprout/bit/rstt1.hpp      | 3 ++-
 sprout/bit/setls0b.hpp    | 3 ++-
 sprout/bit/sett0.hpp      | 3 ++-
 10 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/sprout/bit/isols0b.hpp b/sprout/bit/isols0b.hpp
index c5dc1a2..0e3830a 100644
--- a/sprout/bit/isols0b.hpp
+++ b/sprout/bit/isols0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols0b(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(~static_cast<type>(x) & (static_cast<type>(x) + 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/isols1b.hpp b/sprout/bit/isols1b.hpp
index 22102e8..d14cb3b 100644
--- a/sprout/bit/isols1b.hpp
+++ b/sprout/bit/isols1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols1b(Integral x) SPROUT_NOEXCEPT {
-		return x & -x;
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & (0u - static_cast<type>(x)));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0.hpp b/sprout/bit/maskt0.hpp
index c8f7903..56c20f5 100644
--- a/sprout/bit/maskt0.hpp
+++ b/sprout/bit/maskt0.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(~static_cast<type>(x) & (static_cast<type>(x) - 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0ls1b.hpp b/sprout/bit/maskt0ls1b.hpp
index 26c8ef9..1bae835 100644
--- a/sprout/bit/maskt0ls1b.hpp
+++ b/sprout/bit/maskt0ls1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0ls1b(Integral x) SPROUT_NOEXCEPT {
-		return (x - 1) ^ x;
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>((static_cast<type>(x) - 1u) ^ static_cast<type>(x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1.hpp b/sprout/bit/maskt1.hpp
index 76190b3..bc3ead9 100644
--- a/sprout/bit/maskt1.hpp
+++ b/sprout/bit/maskt1.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1(Integral x) SPROUT_NOEXCEPT {
-		return ~(~x | (x + 1));
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(~(~static_cast<type>(x) | (static_cast<type>(x) + 1u)));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1ls0b.hpp b/sprout/bit/maskt1ls0b.hpp
index f218c31..5b9ecd8 100644
--- a/sprout/bit/maskt1ls0b.hpp
+++ b/sprout/bit/maskt1ls0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1ls0b(Integral x) SPROUT_NOEXCEPT {
-		return x ^ (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ (static_cast<type>(x) + 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstls1b.hpp b/sprout/bit/rstls1b.hpp
index d3ada72..47b9ad6 100644
--- a/sprout/bit/rstls1b.hpp
+++ b/sprout/bit/rstls1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstls1b(Integral x) SPROUT_NOEXCEPT {
-		return x & (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & (static_cast<type>(x) - 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstt1.hpp b/sprout/bit/rstt1.hpp
index 96253f6..6bf21e4 100644
--- a/sprout/bit/rstt1.hpp
+++ b/sprout/bit/rstt1.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstt1(Integral x) SPROUT_NOEXCEPT {
-		return x & (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & (static_cast<type>(x) + 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setls0b.hpp b/sprout/bit/setls0b.hpp
index 496971d..bfaf825 100644
--- a/sprout/bit/setls0b.hpp
+++ b/sprout/bit/setls0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setls0b(Integral x) SPROUT_NOEXCEPT {
-		return x | (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | (static_cast<type>(x) + 1u));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/sett0.hpp b/sprout/bit/sett0.hpp
index 6c5f801..f87df04 100644
--- a/sprout/bit/sett0.hpp
+++ b/sprout/bit/sett0.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	sett0(Integral x) SPROUT_NOEXCEPT {
-		return x | (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | (static_cast<type>(x) - 1u));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 689d5491e18be7c8cf6c54a56e4fdb8407110bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 150/275] fix: correct the 28th Bernoulli number

---
 sprout/math/bernoulli.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/math/bernoulli.hpp b/sprout/math/bernoulli.hpp
index fe908e5..48cd8e2 100644
--- a/sprout/math/bernoulli.hpp
+++ b/sprout/math/bernoulli.hpp
@@ -33,7 +33,7 @@ namespace sprout {
 				854513.F / 138, \
 				-236364091.F / 2730, \
 				8553103.F / 6, \
-				-236364091.F / 870, \
+				-23749461029.F / 870, \
 				8615841276005.F / 14322, \
 				-7709321041217.F / 510, \
 				2577687858367.F / 6, \
@@ -69,7 +69,7 @@ namespace sprout {
 				854513. / 138, \
 				-236364091. / 2730, \
 				8553103. / 6, \
-				-236364091. / 870, \
+				-23749461029. / 870, \
 				8615841276005. / 14322, \
 				-7709321041217. / 510, \
 				2577687858367. / 6, \
@@ -123,7 +123,7 @@ namespace sprout {
 				854513.L / 138, \
 				-236364091.L / 2730, \
 				8553103.L / 6, \
-				-236364091.L / 870, \
+				-23749461029.L / 870, \
 				8615841276005.L / 14322, \
 				-7709321041217.L / 510, \
 				2577687858367.L / 6, \
-- 
2.43.0


From af488f423da8e84351598bc5929e4ec903685bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 151/275] fix: gcd accepts the minimum of a signed type

---
 sprout/math/gcd.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/gcd.hpp b/sprout/math/gcd.hpp
index 203c286..4637615 100644
--- a/sprout/math/gcd.hpp
+++ b/sprout/math/gcd.hpp
@@ -196,9 +196,9 @@ namespace sprout {
 			struct gcd_optimal_evaluator<St> { \
 			public: \
 				SPROUT_CONSTEXPR St operator()(St a, St b) const { \
-					using sprout::abs; \
 					return static_cast<St>(sprout::math::detail::gcd_optimal_evaluator<Ut>().operator()( \
-						static_cast<Ut>(abs(a)), static_cast<Ut>(abs(b)) \
+						static_cast<Ut>(a < 0 ? static_cast<Ut>(0) - static_cast<Ut>(a) : static_cast<Ut>(a)), \
+						static_cast<Ut>(b < 0 ? static_cast<Ut>(0) - static_cast<Ut>(b) : static_cast<Ut>(b)) \
 						)); \
 				} \
 			}
-- 
2.43.0


From f9394d97ebe64870b1fa2114a4285be128fa8927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 152/275] fix: static_pow2 computes in its own type and
 static_pow2m1<T, 0> is 0

---
 sprout/integer/static_pow.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/integer/static_pow.hpp b/sprout/integer/static_pow.hpp
index 9cb3ed7..5bdfdce 100644
--- a/sprout/integer/static_pow.hpp
+++ b/sprout/integer/static_pow.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	template<typename T, T X>
 	struct static_pow2
-		: public sprout::integral_constant<T, (1 << X)>
+		: public sprout::integral_constant<T, (T(1) << X)>
 	{};
 
 	namespace detail {
@@ -25,7 +25,7 @@ namespace sprout {
 		struct static_pow2m1;
 		template<typename T, T X>
 		struct static_pow2m1<T, X, true>
-			: public sprout::integral_constant<T, 1>
+			: public sprout::integral_constant<T, 0>
 		{};
 		template<typename T, T X>
 		struct static_pow2m1<T, X, false>
-- 
2.43.0


From 09e9fa45a0e4a245b8b62ff45c76b877b27fc033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 153/275] fix: carry_to_exp2 does not negate the minimum

---
 sprout/integer/carry_to_exp2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/integer/carry_to_exp2.hpp b/sprout/integer/carry_to_exp2.hpp
index 7eceb15..04cd713 100644
--- a/sprout/integer/carry_to_exp2.hpp
+++ b/sprout/integer/carry_to_exp2.hpp
@@ -56,7 +56,8 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR IntType
 	carry_to_exp2(IntType x) {
 		return x == std::numeric_limits<IntType>::min() ? x
-			: x < IntType(0) ? -sprout::detail::carry_to_exp2_simpl(-x)
+			: x < IntType(0) ? x < -(std::numeric_limits<IntType>::max() / 2 + 1) ? std::numeric_limits<IntType>::min()
+				: -sprout::detail::carry_to_exp2_simpl(-x)
 			: sprout::detail::carry_to_exp2_simpl(x)
 			;
 	}
-- 
2.43.0


From 973fceb21f8837256e67d6cc06918859f408514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 154/275] fix: int_digit_at does not overflow at the top digit

---
 sprout/detail/math/int.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sprout/detail/math/int.hpp b/sprout/detail/math/int.hpp
index 6c1465f..0c56aea 100644
--- a/sprout/detail/math/int.hpp
+++ b/sprout/detail/math/int.hpp
@@ -84,8 +84,9 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		int_digit_at(IntType val, int digits) {
-			return val < 0 ? -((val / sprout::detail::int_pow<IntType, Base>(digits)) % Base)
-				: (val / sprout::detail::int_pow<IntType, Base>(digits)) % Base
+			return digits > 0 ? sprout::detail::int_digit_at<Base, IntType>(val / Base, digits - 1)
+				: val < 0 ? -(val % Base)
+				: val % Base
 				;
 		}
 		template<
@@ -94,7 +95,9 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		int_digit_at(IntType val, int digits) {
-			return (val / sprout::detail::int_pow<IntType, Base>(digits)) % Base;
+			return digits > 0 ? sprout::detail::int_digit_at<Base, IntType>(val / Base, digits - 1)
+				: val % Base
+				;
 		}
 	}	// namespace detail
 }	// namespace sprout
-- 
2.43.0


From edb1c6897f67d664fd185ce9b4b118eca4288c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 155/275] fix: complex cend() and scalar *=, /= with one of its
 own parts

---
 sprout/complex/complex.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/sprout/complex/complex.hpp b/sprout/complex/complex.hpp
index 01a9bc6..cf9ab0b 100644
--- a/sprout/complex/complex.hpp
+++ b/sprout/complex/complex.hpp
@@ -91,14 +91,10 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR complex& operator*=(T const& rhs) SPROUT_NOEXCEPT {
-			real() *= rhs;
-			imag() *= rhs;
-			return *this;
+			return *this = complex(real() * rhs, imag() * rhs);
 		}
 		SPROUT_CXX14_CONSTEXPR complex& operator/=(T const& rhs) SPROUT_NOEXCEPT {
-			real() /= rhs;
-			imag() /= rhs;
-			return *this;
+			return *this = complex(real() / rhs, imag() / rhs);
 		}
 		SPROUT_CXX14_CONSTEXPR complex& operator=(complex const& rhs) SPROUT_NOEXCEPT {
 			real() = rhs.real();
@@ -167,7 +163,7 @@ namespace sprout {
 			return elems_.cbegin();
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return elems_.cbegin();
+			return elems_.cend();
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return elems_.crbegin();
-- 
2.43.0


From d4f10a8abd45df6c995068ce2f5439b98a85d5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 156/275] fix: complex asinh does not cancel for negative real
 parts

---
 sprout/complex/asinh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sprout/complex/asinh.hpp b/sprout/complex/asinh.hpp
index 52ffefd..3fa725a 100644
--- a/sprout/complex/asinh.hpp
+++ b/sprout/complex/asinh.hpp
@@ -14,7 +14,9 @@
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/isinf.hpp>
 #include <sprout/math/copysign.hpp>
+#include <sprout/math/signbit.hpp>
 #include <sprout/complex/complex.hpp>
+#include <sprout/complex/arithmetic_operators.hpp>
 #include <sprout/complex/log.hpp>
 #include <sprout/complex/sqrt.hpp>
 
@@ -57,6 +59,7 @@ namespace sprout {
 				sprout::math::copysign(sprout::math::half_pi<T>(), x.imag())
 				)
 			: x.real() == 0 && x.imag() == 0 ? x
+			: sprout::math::signbit(x.real()) ? -sprout::asinh(-x)
 			: sprout::log(sprout::sqrt(type((x.real() - x.imag()) * (x.real() + x.imag()) + T(1), T(2) * x.real() * x.imag())) + x)
 			;
 	}
-- 
2.43.0


From 1337d8d29ba88ccf0a8a66ddc6991710f813733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 157/275] fix: complex tanh for large and infinite real parts

---
 sprout/complex/tanh.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sprout/complex/tanh.hpp b/sprout/complex/tanh.hpp
index 836fbba..7f6afea 100644
--- a/sprout/complex/tanh.hpp
+++ b/sprout/complex/tanh.hpp
@@ -12,6 +12,9 @@
 #include <sprout/limits.hpp>
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/isinf.hpp>
+#include <sprout/math/fabs.hpp>
+#include <sprout/math/exp.hpp>
+#include <sprout/math/cos.hpp>
 #include <sprout/math/sin.hpp>
 #include <sprout/math/copysign.hpp>
 #include <sprout/complex/complex.hpp>
@@ -44,14 +47,18 @@ namespace sprout {
 				: x.imag() == 0 ? x
 				: type(x.real(), x.real())
 			: sprout::math::isnan(x.imag())
-				? sprout::math::isinf(x.real()) ? type(T(1), T(0))
+				? sprout::math::isinf(x.real()) ? type(sprout::math::copysign(T(1), x.real()), T(0))
 				: type(x.imag(), x.imag())
 			: sprout::math::isinf(x.real())
-				? sprout::math::isinf(x.imag()) ? type(T(1), T(0))
-				: type(T(1), T(0) * sprout::math::sin(T(2) * x.imag()))
+				? sprout::math::isinf(x.imag()) ? type(sprout::math::copysign(T(1), x.real()), T(0))
+				: type(sprout::math::copysign(T(1), x.real()), T(0) * sprout::math::sin(T(2) * x.imag()))
 			: sprout::math::isinf(x.imag())
 				? type(-sprout::numeric_limits<T>::quiet_NaN(), -sprout::numeric_limits<T>::quiet_NaN())
 			: x.real() == 0 && x.imag() == 0 ? x
+			: sprout::math::fabs(x.real()) > sprout::numeric_limits<T>::digits ? type(
+				sprout::math::copysign(T(1), x.real()),
+				T(4) * sprout::math::sin(x.imag()) * sprout::math::cos(x.imag()) * sprout::math::exp(T(-2) * sprout::math::fabs(x.real()))
+				)
 			: sprout::sinh(x) / sprout::cosh(x)
 			;
 	}
-- 
2.43.0


From 94f1d3eb26b2993b1427670a182939dcaa82e799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 158/275] fix: complex sqrt(-inf) is +-i inf

---
 sprout/complex/sqrt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/complex/sqrt.hpp b/sprout/complex/sqrt.hpp
index 06b2e85..537713a 100644
--- a/sprout/complex/sqrt.hpp
+++ b/sprout/complex/sqrt.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 			: x.real() == sprout::numeric_limits<T>::infinity()
 				? type(sprout::numeric_limits<T>::infinity(), (x.imag() == 0 ? x.imag() : sprout::math::copysign(T(0), x.imag())))
 			: x.real() == -sprout::numeric_limits<T>::infinity()
-				? type(T(0), sprout::math::copysign(T(0), x.imag()))
+				? type(T(0), sprout::math::copysign(sprout::numeric_limits<T>::infinity(), x.imag()))
 			: x.real() == 0 && x.imag() == 0 ? type(T(0), x.imag())
 			: x.real() == 0 ? sprout::detail::sqrt_impl_1(x, sprout::math::sqrt(sprout::math::abs(x.imag()) / T(2)))
 			: sprout::detail::sqrt_impl_2(x, sprout::math::sqrt(T(2) * (sprout::abs(x) + sprout::math::abs(x.real()))))
-- 
2.43.0


From a3e2d0c7e1abba9714d92408bf8d112bfd83fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 159/275] fix: complex extraction does not store indeterminate
 values on failure

---
 sprout/complex/stream_operators.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sprout/complex/stream_operators.hpp b/sprout/complex/stream_operators.hpp
index fc34215..6000ad6 100644
--- a/sprout/complex/stream_operators.hpp
+++ b/sprout/complex/stream_operators.hpp
@@ -17,8 +17,8 @@ namespace sprout {
 	template<typename T, typename Char, typename Traits>
 	inline SPROUT_NON_CONSTEXPR std::basic_istream<Char, Traits>&
 	operator>>(std::basic_istream<Char, Traits>& lhs, sprout::complex<T>& rhs) {
-		T re, im;
-		Char ch;
+		T re = T(), im = T();
+		Char ch = Char();
 		lhs >> ch;
 		if (ch == '(') {
 			lhs >> re >> ch;
@@ -36,8 +36,9 @@ namespace sprout {
 			}
 		} else {
 			lhs.putback(ch);
-			lhs >> re;
-			rhs = re;
+			if (lhs >> re) {
+				rhs = re;
+			}
 		}
 		return lhs;
 	}
-- 
2.43.0


From ebc77b5527050893d597ba7a8826e65eea3e7eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 160/275] fix: rational < integer for negative fractions

---
 sprout/rational/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/rational/comparison.hpp b/sprout/rational/comparison.hpp
index 2518640..d406aa7 100644
--- a/sprout/rational/comparison.hpp
+++ b/sprout/rational/comparison.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 		{
 			return r < IntType(0) ? sprout::detail::rational_less_impl(
 					lhs, rhs,
-					r + lhs.denominator(), q - 1
+					q - 1, r + lhs.denominator()
 					)
 				: q < rhs
 				;
-- 
2.43.0


From e4bf34d92a32ba6746cf6c5233f34f2568b8b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:05 +0000
Subject: [PATCH 161/275] fix: rational assignment does not recurse and
 compound assignment tolerates its own operand

---
 sprout/rational/rational.hpp | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 8873073..65e3611 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -97,17 +97,15 @@ namespace sprout {
 		{}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator=(rational const& rhs) SPROUT_NOEXCEPT {
-			rational temp(rhs);
-			sprout::swap(temp, *this);
+			num_ = rhs.num_;
+			den_ = rhs.den_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator=(param_type n) SPROUT_NOEXCEPT {
 			return assign(n, 1);
 		}
 		SPROUT_CXX14_CONSTEXPR rational& assign(param_type n, param_type d) {
-			rational temp(n, d);
-			sprout::swap(temp, *this);
-			return *this;
+			return *this = rational(n, d);
 		}
 
 		SPROUT_CONSTEXPR IntType numerator() const SPROUT_NOEXCEPT {
@@ -118,21 +116,25 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator+=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType r_num = rhs.num_;
+			IntType r_den = rhs.den_;
+			IntType g = sprout::gcd(den_, r_den);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) + rhs.num_ * den_;
+			num_ = num_ * (r_den / g) + r_num * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= r_den / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator-=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType r_num = rhs.num_;
+			IntType r_den = rhs.den_;
+			IntType g = sprout::gcd(den_, r_den);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) - rhs.num_ * den_;
+			num_ = num_ * (r_den / g) - r_num * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= r_den / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator*=(rational const& rhs) {
@@ -149,10 +151,12 @@ namespace sprout {
 			if (num_ == IntType(0)) {
 				return *this;
 			}
-			IntType gcd1 = sprout::gcd(num_, rhs.num_);
-			IntType gcd2 = sprout::gcd(rhs.den_, den_);
-			num_ =(num_ / gcd1) * (rhs.den_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.num_ / gcd1);
+			IntType r_num = rhs.num_;
+			IntType r_den = rhs.den_;
+			IntType gcd1 = sprout::gcd(num_, r_num);
+			IntType gcd2 = sprout::gcd(r_den, den_);
+			num_ =(num_ / gcd1) * (r_den / gcd2);
+			den_ =(den_ / gcd2) * (r_num / gcd1);
 			if (den_ < IntType(0)) {
 				num_ = -num_;
 				den_ = -den_;
-- 
2.43.0


From 00db293859d9237022f603d5dec1f68edd79c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 162/275] fix: mutating md5::process_block does not advance a
 const iterator

---
 sprout/checksum/md5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/checksum/md5.hpp b/sprout/checksum/md5.hpp
index fe8e468..77caf49 100644
--- a/sprout/checksum/md5.hpp
+++ b/sprout/checksum/md5.hpp
@@ -362,7 +362,7 @@ namespace sprout {
 			block_.assign(0);
 		}
 		template<typename InputIterator>
-		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator const& first, InputIterator const& last) {
+		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator first, InputIterator last) {
 			for (; first != last; ++first) {
 				process_byte(*first);
 			}
-- 
2.43.0


From 71221d006e863c7ef1f06b293d175a789d3e1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:34 +0000
Subject: [PATCH 163/275] fix: endian traits work on types wider or narrower
 than int

---
 sprout/endian_traits.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/sprout/endian_traits.hpp b/sprout/endian_traits.hpp
index c18b994..d4c7745 100644
--- a/sprout/endian_traits.hpp
+++ b/sprout/endian_traits.hpp
@@ -9,6 +9,7 @@
 #define SPROUT_ENDIAN_TRAITS_HPP
 
 #include <climits>
+#include <cstdint>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
@@ -53,14 +54,17 @@ namespace sprout {
 			static SPROUT_CONSTEXPR unsigned char
 			get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * ((size() - 1) - i)))
+					static_cast<typename std::make_unsigned<type>::type>(t)
 						>> CHAR_BIT * ((size() - 1) - i)
+						& UCHAR_MAX
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * ((size() - 1) - i));
-				t |= (value << CHAR_BIT * ((size() - 1) - i));
+				t = static_cast<type>(
+					(static_cast<std::uintmax_t>(t) & ~(static_cast<std::uintmax_t>(UCHAR_MAX) << CHAR_BIT * ((size() - 1) - i)))
+						| static_cast<std::uintmax_t>(value) << CHAR_BIT * ((size() - 1) - i)
+					);
 			}
 		};
 
@@ -98,14 +102,17 @@ namespace sprout {
 			}
 			static SPROUT_CONSTEXPR unsigned char get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * i))
+					static_cast<typename std::make_unsigned<type>::type>(t)
 						>> CHAR_BIT * i
+						& UCHAR_MAX
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * i);
-				t |= (value << CHAR_BIT * i);
+				t = static_cast<type>(
+					(static_cast<std::uintmax_t>(t) & ~(static_cast<std::uintmax_t>(UCHAR_MAX) << CHAR_BIT * i))
+						| static_cast<std::uintmax_t>(value) << CHAR_BIT * i
+					);
 			}
 		};
 	}	// namespace detail
-- 
2.43.0


From 07334303adb10302e765be5c1cc16a0effafaa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:42 +0000
Subject: [PATCH 164/275] fix: linear-time sha1 message schedule

---
 sprout/checksum/sha1.hpp | 57 +++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/sprout/checksum/sha1.hpp b/sprout/checksum/sha1.hpp
index c6256a9..8f8f205 100644
--- a/sprout/checksum/sha1.hpp
+++ b/sprout/checksum/sha1.hpp
@@ -59,17 +59,26 @@ namespace sprout {
 			, bit_count_(bit_count)
 		{}
 		SPROUT_CONSTEXPR std::uint32_t calc_w(std::size_t i) const {
-			return i < 16
-				? (block_[i * 4] << 24)
-					| (block_[i * 4 + 1] << 16)
-					| (block_[i * 4 + 2] << 8)
-					| (block_[i * 4 + 3])
-				: sprout::rotl(
-					calc_w(i - 3) ^ calc_w(i - 8) ^ calc_w(i - 14) ^ calc_w(i - 16),
-					1
-					)
+			return (static_cast<std::uint32_t>(block_[i * 4]) << 24)
+				| (static_cast<std::uint32_t>(block_[i * 4 + 1]) << 16)
+				| (static_cast<std::uint32_t>(block_[i * 4 + 2]) << 8)
+				| static_cast<std::uint32_t>(block_[i * 4 + 3])
 				;
 		}
+		// the message schedule words i .. i+15
+		SPROUT_CONSTEXPR sprout::array<std::uint32_t, 16> init_w() const {
+			return sprout::array<std::uint32_t, 16>{{
+				calc_w(0), calc_w(1), calc_w(2), calc_w(3), calc_w(4), calc_w(5), calc_w(6), calc_w(7),
+				calc_w(8), calc_w(9), calc_w(10), calc_w(11), calc_w(12), calc_w(13), calc_w(14), calc_w(15)
+				}};
+		}
+		static SPROUT_CONSTEXPR sprout::array<std::uint32_t, 16> next_w(sprout::array<std::uint32_t, 16> const& w) {
+			return sprout::array<std::uint32_t, 16>{{
+				w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8],
+				w[9], w[10], w[11], w[12], w[13], w[14], w[15],
+				sprout::rotl(w[13] ^ w[8] ^ w[2] ^ w[0], 1)
+				}};
+		}
 #ifdef SPROUT_WORKAROUND_NOT_TERMINATE_RECURSIVE_CONSTEXPR_FUNCTION_TEMPLATE
 		template<int D = 16, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 		SPROUT_CONSTEXPR sha1 const process(
@@ -97,22 +106,23 @@ namespace sprout {
 		template<int D, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 		SPROUT_CONSTEXPR sha1 const process_block_2(
 			std::uint32_t a, std::uint32_t b, std::uint32_t c, std::uint32_t d, std::uint32_t e,
-			std::size_t i, std::uint32_t f, std::uint32_t k
+			std::size_t i, std::uint32_t f, std::uint32_t k, sprout::array<std::uint32_t, 16> const& w
 			) const
 		{
 			return process_block_1<D + 1>(
-				sprout::rotl(a, 5) + f + e + k + calc_w(i),
+				sprout::rotl(a, 5) + f + e + k + w[0],
 				a,
 				sprout::rotl(b, 30),
 				c,
 				d,
-				i + 1
+				i + 1,
+				next_w(w)
 				);
 		}
 		template<int D, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 		SPROUT_CONSTEXPR sha1 const process_block_2(
 			std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t,
-			std::size_t, std::uint32_t, std::uint32_t
+			std::size_t, std::uint32_t, std::uint32_t, sprout::array<std::uint32_t, 16> const&
 			) const
 		{
 			return sprout::throw_recursive_function_template_instantiation_exeeded();
@@ -120,7 +130,7 @@ namespace sprout {
 		template<int D, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 		SPROUT_CONSTEXPR sha1 const process_block_1(
 			std::uint32_t a, std::uint32_t b, std::uint32_t c, std::uint32_t d, std::uint32_t e,
-			std::size_t i = 0
+			std::size_t i, sprout::array<std::uint32_t, 16> const& w
 			) const
 		{
 			return i < 80
@@ -136,6 +146,8 @@ namespace sprout {
 						: i < 40 ? 0x6ED9EBA1
 						: i < 60 ? 0x8F1BBCDC
 						: 0xCA62C1D6
+						,
+					w
 					)
 				: sha1(
 					sprout::array<std::uint32_t, 5>{{h_[0] + a, h_[1] + b, h_[2] + c, h_[3] + d, h_[4] + e}},
@@ -148,14 +160,14 @@ namespace sprout {
 		template<int D, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 		SPROUT_CONSTEXPR sha1 const process_block_1(
 			std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t, std::uint32_t,
-			std::size_t
+			std::size_t, sprout::array<std::uint32_t, 16> const&
 			) const
 		{
 			return sprout::throw_recursive_function_template_instantiation_exeeded();
 		}
 		template<int D, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 		SPROUT_CONSTEXPR sha1 const process_block() const {
-			return process_block_1<D + 1>(h_[0], h_[1], h_[2], h_[3], h_[4]);
+			return process_block_1<D + 1>(h_[0], h_[1], h_[2], h_[3], h_[4], 0, init_w());
 		}
 		template<int D, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 		SPROUT_CONSTEXPR sha1 const process_block() const {
@@ -226,21 +238,22 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR sha1 const process_block_2(
 			std::uint32_t a, std::uint32_t b, std::uint32_t c, std::uint32_t d, std::uint32_t e,
-			std::size_t i, std::uint32_t f, std::uint32_t k
+			std::size_t i, std::uint32_t f, std::uint32_t k, sprout::array<std::uint32_t, 16> const& w
 			) const
 		{
 			return process_block_1(
-				sprout::rotl(a, 5) + f + e + k + calc_w(i),
+				sprout::rotl(a, 5) + f + e + k + w[0],
 				a,
 				sprout::rotl(b, 30),
 				c,
 				d,
-				i + 1
+				i + 1,
+				next_w(w)
 				);
 		}
 		SPROUT_CONSTEXPR sha1 const process_block_1(
 			std::uint32_t a, std::uint32_t b, std::uint32_t c, std::uint32_t d, std::uint32_t e,
-			std::size_t i = 0
+			std::size_t i, sprout::array<std::uint32_t, 16> const& w
 			) const
 		{
 			return i < 80
@@ -256,6 +269,8 @@ namespace sprout {
 						: i < 40 ? 0x6ED9EBA1
 						: i < 60 ? 0x8F1BBCDC
 						: 0xCA62C1D6
+						,
+					w
 					)
 				: sha1(
 					sprout::array<std::uint32_t, 5>{{h_[0] + a, h_[1] + b, h_[2] + c, h_[3] + d, h_[4] + e}},
@@ -269,7 +284,7 @@ namespace sprout {
 			return c_process_block();
 		}
 		SPROUT_CONSTEXPR sha1 const c_process_block() const {
-			return process_block_1(h_[0], h_[1], h_[2], h_[3], h_[4]);
+			return process_block_1(h_[0], h_[1], h_[2], h_[3], h_[4], 0, init_w());
 		}
 		template<typename InputIterator, typename... Args>
 		SPROUT_CONSTEXPR typename std::enable_if<sizeof...(Args) == 64, sha1 const>::type
-- 
2.43.0


From 6a960de555641c700dc039b93486c2ca0730b9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:14 +0000
Subject: [PATCH 165/275] fix: uuid stream extraction can be instantiated

---
 sprout/uuid/io.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index 4452e10..de17493 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -40,26 +40,27 @@ namespace sprout {
 					char const szdigits[] = "0123456789ABCDEF";
 					ctype.widen(szdigits, szdigits + 16, xdigits);
 				}
+				char_type const* const xdigits_begin = xdigits;
 				char_type const* const xdigits_end = xdigits + 16;
 				char_type c;
 				for (sprout::uuids::uuid::size_type i = 0, last = rhs.size(); i < last && lhs; ++i) {
 					lhs >> c;
 					c = ctype.toupper(c);
-					char_type const* f = sprout::find(xdigits, xdigits_end, c);
+					char_type const* f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
-					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					lhs >> c;
 					c = ctype.toupper(c);
-					f = sprout::find(xdigits, xdigits_end, c);
+					f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
 					byte <<= 4;
-					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					data[i] = byte;
 					if (lhs) {
 						if (i == 3 || i == 5 || i == 7 || i == 9) {
-- 
2.43.0


From e53f137bce3807c35354f64bca46e227d82c312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 166/275] fix: uuid tuple_get is found by ADL

---
 sprout/uuid/tuple.hpp | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/sprout/uuid/tuple.hpp b/sprout/uuid/tuple.hpp
index 7ba170d..1b84350 100644
--- a/sprout/uuid/tuple.hpp
+++ b/sprout/uuid/tuple.hpp
@@ -20,26 +20,28 @@
 #include <sprout/detail/nil_base.hpp>
 
 namespace sprout {
-	//
-	// tuple_get
-	//
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
-	tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
-	tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
-	tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
-		return sprout::move(sprout::tuples::get<I>(t));
-	}
+	namespace uuids {
+		//
+		// tuple_get
+		//
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
+		tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
+		tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
+		tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
+			return sprout::move(t[I]);
+		}
+	}	// namespace uuids
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From e73e32800af335a7c2bbaa4df68dfd4b4b792e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 167/275] fix: uuid string generator rejects trailing
 characters

---
 sprout/uuid/string_generator.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sprout/uuid/string_generator.hpp b/sprout/uuid/string_generator.hpp
index 92aae7e..438740b 100644
--- a/sprout/uuid/string_generator.hpp
+++ b/sprout/uuid/string_generator.hpp
@@ -133,9 +133,13 @@ namespace sprout {
 				result_type
 			>::type
 			generate_2(next_char<ForwardIterator> nc, Char open_brace, bool, Args... args) const {
-				return !open_brace || (open_brace && is_close_brace(nc.next().c, open_brace))
-					? result_type{{args...}}
-					: throw std::runtime_error("string_generator: invalid uuid string (brace not closed)")
+				return !open_brace
+					? nc.first == nc.last
+						? result_type{{args...}}
+						: throw std::runtime_error("string_generator: invalid uuid string (extra characters)")
+					: is_close_brace(nc.next().c, open_brace) && nc.next().first == nc.last
+						? result_type{{args...}}
+						: throw std::runtime_error("string_generator: invalid uuid string (brace not closed)")
 					;
 			}
 			template<typename ForwardIterator, typename Char, typename... Args>
-- 
2.43.0


From 6bc732ef26f4b1ff6e2dec91dbceb0caf56df2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 168/275] fix: uuid output ignores the stream's adjustment and
 showbase for its bytes

---
 sprout/uuid/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index de17493..364e00a 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -97,7 +97,7 @@ namespace sprout {
 						lhs << fill;
 					}
 				}
-				lhs << std::hex;
+				lhs << std::hex << std::right << std::noshowbase;
 				lhs.fill(lhs.widen('0'));
 				std::size_t i = 0;
 				for (sprout::uuids::uuid::const_iterator i_data = rhs.begin(), i_last = rhs.end(); i_data != i_last; ++i_data, ++i) {
-- 
2.43.0


From 48b5e8d22ef5d2d6d17d1e32c658ef4de8c06e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:54 +0000
Subject: [PATCH 169/275] fix: uuid hash_value is found by ADL

---
 sprout/uuid/hash.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sprout/uuid/hash.hpp b/sprout/uuid/hash.hpp
index 8b7e55d..ecb9a54 100644
--- a/sprout/uuid/hash.hpp
+++ b/sprout/uuid/hash.hpp
@@ -15,13 +15,15 @@
 #include <sprout/functional/hash.hpp>
 
 namespace sprout {
-	//
-	// hash_value
-	//
-	inline SPROUT_CONSTEXPR std::size_t
-	hash_value(sprout::uuids::uuid const& v) {
-		return sprout::hash_range(v);
-	}
+	namespace uuids {
+		//
+		// hash_value
+		//
+		inline SPROUT_CONSTEXPR std::size_t
+		hash_value(sprout::uuids::uuid const& v) {
+			return sprout::hash_range(v);
+		}
+	}	// namespace uuids
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From 87785f4419af58f1dec3236fe92a9b901b415b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:07 +0000
Subject: [PATCH 170/275] fix: C++11 const mersenne twister generates the
 published sequence

---
 sprout/random/mersenne_twister.hpp | 262 +++--------------------------
 1 file changed, 27 insertions(+), 235 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 91ad483..c82961e 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -16,6 +16,7 @@
 #include <sprout/cstdint.hpp>
 #include <sprout/random/random_result.hpp>
 #include <sprout/array/array.hpp>
+#include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/detail/integer/integer_mask.hpp>
 
 namespace sprout {
@@ -102,185 +103,31 @@ namespace sprout {
 			rewind_find(result_type const* last, std::size_t size, std::size_t i) const {
 				return rewind_find_1(last, size, (i + n - size + n - 1) % n);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish_1(sprout::array<result_type, n> const&, Args const&... args) const {
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish_1(sprout::array<result_type, n> const& data, Args const&... args) const {
-				return rewind_finish_1(data, args..., data[sizeof...(args)]);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_finish(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return &data[0] + i == last - z
-					? rewind_finish_1(data, data[i], args...)
-					: rewind_finish(data, last, z, i + 1, data[i], args...)
-					;
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_4(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_4(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, result_type y1, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return rewind_2(
-					data, last, z, y1, i, (y0 & upper_mask) | (y1 & lower_mask),
-					args...
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_3(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_3(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, result_type y1, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return rewind_4(
-					data, last, z, y0,
-					y1 & (static_cast<result_type>(1) << (w - 1))
-						? ((y1 ^ a) << 1) | 1
-						: y1 << 1
-						,
-					i,
-					args...
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_2(
-				sprout::array<result_type, n> const&, result_type const*, std::size_t, result_type, std::size_t,
-				Args const&... args
-				) const
-			{
-				return sprout::array<result_type, n>{{args...}};
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n,
-				sprout::array<result_type, n>
-			>::type
-			rewind_2(
-				sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0, std::size_t i,
-				Args const&... args
-				) const
-			{
-				return i < z
-					? rewind_3(data, last, z, y0, rewind_find(last, i, m - 1) ^ rewind_find(last, i, n - 1), i, args...)
-					: rewind_finish(data, last, z, 0, args...)
-					;
-			}
-			SPROUT_CONSTEXPR sprout::array<result_type, n>
-			rewind_1(sprout::array<result_type, n> const& data, result_type const* last, std::size_t z, result_type y0) const {
-				return rewind_2(
-					data,
-					last,
-					z,
-					y0 & (static_cast<result_type>(1) << (w - 1))
-						? ((y0 ^ a) << 1) | 1
-						: y0 << 1
-						,
-					0
-					);
-			}
-			SPROUT_CONSTEXPR sprout::array<result_type, n>
-			rewind(sprout::array<result_type, n> const& data, result_type const* last, std::size_t z) const {
-				return rewind_1(data, last, z, x_[m - 1] ^ x_[n - 1]);
-			}
+			// rhs is lhs's position plus offset: its window starts offset elements earlier
 			SPROUT_CONSTEXPR bool
-			equal_impl_2(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
-				return i < offset
-					? back[i + n - offset] != other.x_[i]
-						? false
-						: equal_impl_2(other, back, offset, i + 1)
-					: true
-					;
-			}
-			SPROUT_CONSTEXPR bool
-			equal_impl_1(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
-				return i + offset < n
-					? x_[i] != other.x_[i + offset]
-						? false
-						: equal_impl_1(other, back, offset, i + 1)
-					: equal_impl_2(other, rewind(back, &back[n - 1], offset), offset)
+			equal_impl_1(mersenne_twister_engine const& other, std::size_t offset, std::size_t first, std::size_t last) const {
+				return last - first == 0 ? true
+					: last - first == 1
+						? x_[first] == (first + offset < n ? other.x_[first + offset] : other.twist_at(first + offset - n))
+					: equal_impl_1(other, offset, first, first + (last - first) / 2)
+						&& equal_impl_1(other, offset, first + (last - first) / 2, last)
 					;
 			}
 			SPROUT_CONSTEXPR bool
 			equal_impl(mersenne_twister_engine const& other) const {
-				return equal_impl_1(other, sprout::array<result_type, n>(), other.i_ - i_);
+				return equal_impl_1(other, other.i_ - i_, 0, n);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_4(result_type z) const {
 				return z ^ (z >> l);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_3(result_type z) const {
-				return z ^ generate_impl_4((z << t) & c);
+				return generate_impl_4(z ^ ((z << t) & c));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_2(result_type z) const {
-				return z ^ generate_impl_3((z << s) & b);
+				return generate_impl_3(z ^ ((z << s) & b));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_1(result_type z) const {
-				return z ^ generate_impl_2((z >> u) & d);
+				return generate_impl_2(z ^ ((z >> u) & d));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl() const {
 				return generate_impl_1(x_[i_]);
@@ -295,82 +142,27 @@ namespace sprout {
 						)
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR mersenne_twister_engine twist_5(Args const&... args) const {
-				return mersenne_twister_engine(
-					sprout::array<result_type, n>{{
-						args..., x_[m - 1] ^ ((x_[n - 1] & upper_mask) | (x_[0] & lower_mask) >> 1) ^ ((x_[0] & 1) * a)
-						}},
-					0,
-					private_construct_t()
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t, Args const&... args) const {
-				return twist_5(args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t i, Args const&... args) const {
-				return twist_4(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t, Args const&... args) const {
-				return twist_4(n - 1 - unroll_extra2, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t i, Args const&... args) const {
-				return twist_3(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
+			static SPROUT_CONSTEXPR result_type twist_mix(result_type v, result_type x0, result_type x1) {
+				return v ^ (((x0 & upper_mask) | (x1 & lower_mask)) >> 1) ^ ((x1 & 1) * a);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t, Args const&... args) const {
-				return twist_3(n - m, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t i, Args const&... args) const {
-				return twist_2(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+			// the i'th element of the next window
+			SPROUT_CONSTEXPR result_type twist_at(std::size_t i) const {
+				return twist_mix(
+					i < n - m ? x_[i + m] : twist_at(i - (n - m)),
+					x_[i],
+					i + 1 < n ? x_[i + 1] : twist_at(0)
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t, Args const&... args) const {
-				return twist_2(n - m - unroll_extra1, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t i, Args const&... args) const {
-				return twist_1(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+			template<sprout::index_t... Indexes>
+			SPROUT_CONSTEXPR mersenne_twister_engine twist_1(sprout::index_tuple<Indexes...>) const {
+				return mersenne_twister_engine(
+					sprout::array<result_type, n>{{twist_at(Indexes)...}},
+					0,
+					private_construct_t()
 					);
 			}
 			SPROUT_CONSTEXPR mersenne_twister_engine twist() const {
-				return twist_1(0);
+				return twist_1(sprout::make_index_tuple<n>::make());
 			}
 			SPROUT_CXX14_CONSTEXPR void do_twist() {
 				UIntType const upper_mask = (~static_cast<UIntType>(0)) << r;
-- 
2.43.0


From 62cc47f312ea5d5696c34f1819508b9f2811b27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:55 +0000
Subject: [PATCH 171/275] fix: a random engine can be copied from a non-const
 lvalue

---
 sprout/random/type_traits.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/sprout/random/type_traits.hpp b/sprout/random/type_traits.hpp
index 5fe39c0..0c18ddd 100644
--- a/sprout/random/type_traits.hpp
+++ b/sprout/random/type_traits.hpp
@@ -9,16 +9,35 @@
 #define SPROUT_RANDOM_TYPE_TRAITS_HPP
 
 #include <type_traits>
+#include <utility>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/has_xxx.hpp>
 
 namespace sprout {
 	namespace random {
+		namespace detail {
+			SPROUT_HAS_XXX_TYPE_DEF_LAZY(result_type);
+
+			struct has_max_member_test {
+			public:
+				template<typename T, typename = decltype(std::declval<T const&>().max())>
+				static sprout::true_type test(int);
+				template<typename T>
+				static sprout::false_type test(...);
+			};
+		}	// namespace detail
 		//
 		// is_seed_seq
+		//	a random number engine (which has max()) is not a seed sequence, so that it can be copied from a non-const lvalue
 		//
-		SPROUT_HAS_XXX_TYPE_DEF(is_seed_seq, result_type);
+		template<typename T>
+		struct is_seed_seq
+			: public sprout::bool_constant<
+				sprout::random::detail::has_result_type<T>::value
+					&& !decltype(sprout::random::detail::has_max_member_test::test<T>(0))::value
+			>
+		{};
 
 		//
 		// is_real_std_random_parameter
-- 
2.43.0


From 3ae382a9b1c610b5c939309ed60255ffe8f5e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:56 +0000
Subject: [PATCH 172/275] fix: engines can be seeded from a const seed sequence
 or an iterator range

---
 sprout/random/detail/seed_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index 03c93e2..fc8138e 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 				>
 			{};
 
-			template<typename IntType, IntType m, int log, int k, typename Array>
+			template<typename IntType, IntType m, int k, typename Array>
 			inline SPROUT_CONSTEXPR IntType
 			seed_one_int_impl(Array const& arr, IntType s, int j) {
 				return j < k ? sprout::random::detail::seed_one_int_impl<IntType, m, k>(
@@ -80,7 +80,7 @@ namespace sprout {
 				return s;
 			}
 
-			template<typename IntType, IntType m, int log, int k, typename InputIterator>
+			template<typename IntType, IntType m, int k, typename InputIterator>
 			inline SPROUT_CONSTEXPR IntType
 			get_one_int_impl(InputIterator first, InputIterator last, IntType s, int j) {
 				return j < k
-- 
2.43.0


From 9192526e00027027773c9f38515dd036575ad024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 173/275] fix: engines with modulus 0 can be seeded from a seed
 sequence or range

---
 sprout/random/detail/seed_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index fc8138e..3b6ce2a 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -28,7 +28,7 @@ namespace sprout {
 				: public std::conditional<
 					m == 0,
 					sprout::integral_constant<int, sprout::numeric_limits<IntType>::digits>,
-					sprout::integral_constant<int, sprout::detail::static_log2<m>::value>
+					sprout::integral_constant<int, sprout::detail::static_log2<(m == 0 ? 1 : m)>::value>
 				>::type
 			{};
 			template<typename IntType, IntType m, int log>
-- 
2.43.0


From 84bb59252186ad4309c3feb1c24c592fb07fdc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:06 +0000
Subject: [PATCH 174/275] fix: linear congruential engines with modulus 0
 compile

---
 sprout/random/detail/const_mod.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sprout/random/detail/const_mod.hpp b/sprout/random/detail/const_mod.hpp
index 75e895d..9981594 100644
--- a/sprout/random/detail/const_mod.hpp
+++ b/sprout/random/detail/const_mod.hpp
@@ -26,9 +26,6 @@ namespace sprout {
 			private:
 				SPROUT_STATIC_CONSTEXPR IntType supress_warnings = m == 0;
 				SPROUT_STATIC_CONSTEXPR IntType modulus = m + supress_warnings;
-			private:
-				static_assert(supress_warnings == 0, "supress_warnings == 0");
-				static_assert(modulus == m, "modulus == m");
 			private:
 				static SPROUT_CONSTEXPR IntType pow_1(IntType a, std::uintmax_t exponent, IntType result = 1) {
 					return exponent != 0
-- 
2.43.0


From ce2d86b981d921baebaf27f10dcc7a934a74c240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:06 +0000
Subject: [PATCH 175/275] fix: mersenne twister writes its whole state to a
 stream

---
 sprout/random/mersenne_twister.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index c82961e..2fe78b5 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -314,10 +314,10 @@ namespace sprout {
 					data[i + n - rhs.i_] = rhs.x_[i];
 				}
 				if (rhs.i_ != n) {
-					data = rhs.rewind(data, &data[n - rhs.i_ - 1], n - rhs.i_);
+					rhs.do_rewind(&data[n - rhs.i_ - 1], n - rhs.i_);
 				}
 				lhs << data[0];
-				for (std::size_t i = 0; i < rhs.i_; ++i) {
+				for (std::size_t i = 1; i < n; ++i) {
 					lhs << ' ' << data[i];
 				}
 				return lhs;
-- 
2.43.0


From 014a74aeb3fce3ac0a65fcc38d6ad921a0196027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 176/275] fix: a mersenne twister state at the end of a stream
 can be restored

---
 sprout/random/mersenne_twister.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 2fe78b5..39806e9 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -298,7 +298,7 @@ namespace sprout {
 				)
 			{
 				for (std::size_t i = 0; i < state_size; ++i) {
-					lhs >> rhs.x_[i] >> std::ws;
+					lhs >> std::ws >> rhs.x_[i];
 				}
 				rhs.i_ = state_size;
 				return lhs;
-- 
2.43.0


From 3763f6b6f10b8493b4d3796a4dcc932fdf1ce7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 177/275] fix: const seed sequences give the same seed as
 non-const ones

---
 sprout/random/detail/seed_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index 3b6ce2a..acfba01 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 				typedef typename sprout::random::detail::seed_log<IntType, m>::type log_t;
 				typedef typename sprout::random::detail::seed_k<IntType, m, log_t::value>::type k_t;
 				return sprout::random::detail::seed_one_int_impl<IntType, m, k_t::value>(
-					seq.generate(sprout::pit<sprout::array<std::uint_least32_t, log_t::value / 32 + 4> >()),
+					seq.generate(sprout::pit<sprout::array<std::uint_least32_t, k_t::value + 3> >()),
 					0, 0
 					);
 			}
-- 
2.43.0


From 4c533f8fb2f2fb006f4b8b1319f57951b75ab6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 178/275] fix: linear_feedback_shift_engine seeds engines with
 w - k > 31

---
 sprout/random/linear_feedback_shift.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/linear_feedback_shift.hpp b/sprout/random/linear_feedback_shift.hpp
index 13320e5..ad0f170 100644
--- a/sprout/random/linear_feedback_shift.hpp
+++ b/sprout/random/linear_feedback_shift.hpp
@@ -52,7 +52,7 @@ namespace sprout {
 				return sprout::detail::low_bits_mask_t<w>::sig_bits;
 			}
 			static SPROUT_CONSTEXPR result_type init_seed_1(result_type x0) {
-				return x0 < (1 << (w - k)) ? x0 + (1 << (w - k)) : x0;
+				return x0 < (result_type(1) << (w - k)) ? x0 + (result_type(1) << (w - k)) : x0;
 			}
 			static SPROUT_CONSTEXPR result_type init_seed(result_type x0 = default_seed) {
 				return init_seed_1(x0 & wordmask());
-- 
2.43.0


From 223afd3f5a328a52aed90a8a734699883b7c8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:32 +0000
Subject: [PATCH 179/275] fix: xor_combine_engine reports bounds that contain
 its values

---
 sprout/random/xor_combine.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sprout/random/xor_combine.hpp b/sprout/random/xor_combine.hpp
index cf63339..83f72aa 100644
--- a/sprout/random/xor_combine.hpp
+++ b/sprout/random/xor_combine.hpp
@@ -11,6 +11,7 @@
 #include <istream>
 #include <ostream>
 #include <sprout/config.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/random/random_result.hpp>
 #include <sprout/random/type_traits.hpp>
 #include <sprout/random/results.hpp>
@@ -35,10 +36,17 @@ namespace sprout {
 			SPROUT_STATIC_CONSTEXPR int shift2 = s2;
 		public:
 			static SPROUT_CONSTEXPR result_type static_min() SPROUT_NOEXCEPT {
-				return NS_SSCRISK_CEL_OR_SPROUT::min(base1_type::static_min(), base2_type::static_min());
+				return 0;
 			}
 			static SPROUT_CONSTEXPR result_type static_max() SPROUT_NOEXCEPT {
-				return NS_SSCRISK_CEL_OR_SPROUT::max(base1_type::static_max(), base2_type::static_max());
+				return fill_bits(
+					(static_cast<result_type>(base1_type::static_max()) << s1) | (static_cast<result_type>(base2_type::static_max()) << s2),
+					(sprout::numeric_limits<result_type>::digits + 1) / 2
+					);
+			}
+		private:
+			static SPROUT_CONSTEXPR result_type fill_bits(result_type x, int n) SPROUT_NOEXCEPT {
+				return n <= 1 ? x | x >> 1 : fill_bits(x | x >> n, (n + 1) / 2);
 			}
 		private:
 			base1_type rng1_;
@@ -107,10 +115,10 @@ namespace sprout {
 				rng2_.seed(seed2);
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-				return NS_SSCRISK_CEL_OR_SPROUT::min(rng1_.min(), rng2_.min());
+				return static_min();
 			}
 			SPROUT_CONSTEXPR result_type max() const SPROUT_NOEXCEPT {
-				return NS_SSCRISK_CEL_OR_SPROUT::max(rng1_.max(), rng2_.max());
+				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
 				return (static_cast<result_type>(rng1_()) << s1) ^ (static_cast<result_type>(rng2_()) << s2);
-- 
2.43.0


From 3e96af1641c2093691502867bd8723ef10618b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 180/275] fix: linear_feedback_shift_engine stays within w bits

---
 sprout/random/linear_feedback_shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/linear_feedback_shift.hpp b/sprout/random/linear_feedback_shift.hpp
index ad0f170..8d75c3f 100644
--- a/sprout/random/linear_feedback_shift.hpp
+++ b/sprout/random/linear_feedback_shift.hpp
@@ -123,11 +123,11 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				 x_ = ((x_ & ((wordmask() << (w - k)) & wordmask())) << s) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s));
+				 x_ = (((x_ & ((wordmask() << (w - k)) & wordmask())) << s) & wordmask()) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s));
 				 return x_;
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<linear_feedback_shift_engine> const operator()() const {
-				return generate(((x_ & ((wordmask() << (w - k)) & wordmask())) << s) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s)));
+				return generate((((x_ & ((wordmask() << (w - k)) & wordmask())) << s) & wordmask()) ^ ((((x_ << q) ^ x_) & wordmask()) >> (k - s)));
 			}
 			friend SPROUT_CONSTEXPR bool operator==(linear_feedback_shift_engine const& lhs, linear_feedback_shift_engine const& rhs) SPROUT_NOEXCEPT {
 				return lhs.x_ == rhs.x_;
-- 
2.43.0


From c1e5b25ca4f267a6c55e1da36b1820c889736e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 181/275] fix: random::make_range of an engine alone can be
 called

---
 sprout/random/range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/range.hpp b/sprout/random/range.hpp
index ed96050..a30f980 100644
--- a/sprout/random/range.hpp
+++ b/sprout/random/range.hpp
@@ -42,9 +42,9 @@ namespace sprout {
 			Engine const& engine,
 			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type> >(
 				sprout::random::begin(engine, count),
 				sprout::random::end(engine)
 				);
-- 
2.43.0


From 4e4bdb4790322af4baf9763e382220d6bd1d514c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:40 +0000
Subject: [PATCH 182/275] fix: uniform_int_distribution draws once when the
 ranges are equal

---
 sprout/random/uniform_int_distribution.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 62e9608..dd0aa41 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -48,7 +48,6 @@ namespace sprout {
 				if (range == 0) {
 					return min_value;
 				} else if (brange == range) {
-					base_unsigned v = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin);
 					return sprout::random::detail::add<base_unsigned, result_type>()(
 						static_cast<base_unsigned>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
 						min_value
-- 
2.43.0


From a8929b7b1e884584765ac01abf06a202616b9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:08 +0000
Subject: [PATCH 183/275] fix: random::begin/end/make_range iterators can be
 incremented in place

---
 sprout/random/iterator.hpp | 24 ++++++++++++------------
 sprout/random/range.hpp    | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/random/iterator.hpp b/sprout/random/iterator.hpp
index 262927b..896c774 100644
--- a/sprout/random/iterator.hpp
+++ b/sprout/random/iterator.hpp
@@ -25,26 +25,26 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine))
+				? sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine), count)
+				: sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine))
 				;
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine(), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine())
+				? sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine(), count)
+				: sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine())
 				;
 		}
 
@@ -57,16 +57,16 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine, Distribution const& distribution)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>();
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(engine())>::type>();
 		}
 	}	// namespace random
 }	// namespace sprout
diff --git a/sprout/random/range.hpp b/sprout/random/range.hpp
index a30f980..03d914d 100644
--- a/sprout/random/range.hpp
+++ b/sprout/random/range.hpp
@@ -27,11 +27,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >(
 				sprout::random::begin(engine, distribution, count),
 				sprout::random::end(engine, distribution)
 				);
@@ -40,11 +40,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >(
 				sprout::random::begin(engine, count),
 				sprout::random::end(engine)
 				);
-- 
2.43.0


From 56d7fcac0fb39e2ead243182fefaa3c211ade08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:36 +0000
Subject: [PATCH 184/275] fix: the mutating binomial_distribution call compiles

---
 sprout/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index dbc8aa6..7d8ea2d 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -251,7 +251,7 @@ namespace sprout {
 						continue;
 					}
 					v = v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b);
-					RealType km = sprout::math::abs(k - m_);
+					RealType km = sprout::math::abs(static_cast<RealType>(k - m_));
 					if (km <= 15) {
 						RealType f = RealType(1);
 						if (m_ < k) {
-- 
2.43.0


From 16c3f61fbe956df3c3353dbb060307af64f9654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 185/275] fix: uniform_int_distribution accepts types narrower
 than int

---
 sprout/random/uniform_int_distribution.hpp | 66 +++++++++++++---------
 1 file changed, 38 insertions(+), 28 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index dd0aa41..e67c55f 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -187,7 +187,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1<D + 1>(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<int D, typename EngineResult, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -209,11 +209,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1<D + 1>(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
@@ -273,7 +275,8 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2<D + 1>(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4<D + 1>(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange,
+						static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -338,8 +341,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -399,11 +402,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -561,7 +566,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -574,11 +579,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -614,7 +621,8 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange,
+						static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -654,8 +662,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -696,11 +704,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<typename EngineResult, typename T, typename BaseResult>
-- 
2.43.0


From 11cf1eb2ee2756dd574ad50a95a30b5c7b168b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 186/275] fix: uniform_int_distribution adds its lower bound on
 every path

---
 sprout/random/uniform_int_distribution.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index e67c55f..dce298c 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 						while (mult <= limit) {
 							result += static_cast<range_type>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin) * mult);
 							if (mult * range_type(brange) == range - mult + 1) {
-								return result;
+								return sprout::random::detail::add<range_type, result_type>()(result, min_value);
 							}
 							mult *= range_type(brange) + range_type(1);
 						}
@@ -333,8 +333,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
@@ -654,8 +655,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
-- 
2.43.0


From 5a9ea14ad6538228bac35bf8fb7c8147304a53df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 187/275] fix: uniform_int_distribution keeps a lower bound
 wider than the engine type

---
 sprout/random/uniform_int_distribution.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index dce298c..87ccc94 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -48,8 +48,8 @@ namespace sprout {
 				if (range == 0) {
 					return min_value;
 				} else if (brange == range) {
-					return sprout::random::detail::add<base_unsigned, result_type>()(
-						static_cast<base_unsigned>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
+					return sprout::random::detail::add<range_type, result_type>()(
+						static_cast<range_type>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
 						min_value
 						);
 				} else if (brange < range) {
@@ -104,7 +104,7 @@ namespace sprout {
 					for (; ; ) {
 						base_unsigned result = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin) / bucket_size;
 						if (result <= static_cast<base_unsigned>(range)) {
-							return sprout::random::detail::add<base_unsigned, result_type>()(result, min_value);
+							return sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(result), min_value);
 						}
 					}
 				}
@@ -159,7 +159,7 @@ namespace sprout {
 				typedef T result_type;
 				return result <= static_cast<BaseUnsigned>(range)
 					? sprout::random::detail::generate_uniform_int_result<T, Engine>{
-						sprout::random::detail::add<BaseUnsigned, result_type>()(result, min_value),
+						sprout::random::detail::add<RangeType, result_type>()(static_cast<RangeType>(result), min_value),
 						eng
 						}
 					: sprout::random::detail::generate_uniform_int_true_3_1<D + 1>(
@@ -428,10 +428,10 @@ namespace sprout {
 				)
 			{
 				typedef T result_type;
-				typedef typename std::make_unsigned<BaseResult>::type base_unsigned;
+				typedef typename std::make_unsigned<T>::type range_type;
 				return sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-					sprout::random::detail::add<base_unsigned, result_type>()(
-						base_unsigned(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin)),
+					sprout::random::detail::add<range_type, result_type>()(
+						range_type(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin)),
 						min_value
 						),
 					sprout::random::next(rnd)
@@ -548,7 +548,7 @@ namespace sprout {
 				typedef T result_type;
 				return result <= static_cast<BaseUnsigned>(range)
 					? sprout::random::detail::generate_uniform_int_result<T, Engine>{
-						sprout::random::detail::add<BaseUnsigned, result_type>()(result, min_value),
+						sprout::random::detail::add<RangeType, result_type>()(static_cast<RangeType>(result), min_value),
 						eng
 						}
 					: sprout::random::detail::generate_uniform_int_true_3_1(
@@ -722,10 +722,10 @@ namespace sprout {
 				)
 			{
 				typedef T result_type;
-				typedef typename std::make_unsigned<BaseResult>::type base_unsigned;
+				typedef typename std::make_unsigned<T>::type range_type;
 				return sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-					sprout::random::detail::add<base_unsigned, result_type>()(
-						base_unsigned(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin)),
+					sprout::random::detail::add<range_type, result_type>()(
+						range_type(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin)),
 						min_value
 						),
 					sprout::random::next(rnd)
-- 
2.43.0


From 1ceee9ab947a36213e22b9c472f422b95a5b558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 188/275] fix: uniform_int_distribution works over floating
 point engines

---
 sprout/random/detail/uniform_int_float.hpp | 4 ++--
 sprout/random/uniform_int_distribution.hpp | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sprout/random/detail/uniform_int_float.hpp b/sprout/random/detail/uniform_int_float.hpp
index d9012f7..c239d49 100644
--- a/sprout/random/detail/uniform_int_float.hpp
+++ b/sprout/random/detail/uniform_int_float.hpp
@@ -57,7 +57,7 @@ namespace sprout {
 					return (
 						result_type(2) << (
 							NS_SSCRISK_CEL_OR_SPROUT::min(
-								sprout::numeric_limits<result_type>::digits,
+								static_cast<std::size_t>(sprout::numeric_limits<result_type>::digits),
 								sprout::random::detail::generator_bits<base_type>::value()
 								) - 1
 							)
@@ -71,7 +71,7 @@ namespace sprout {
 					return rng_;
 				}
 				SPROUT_CXX14_CONSTEXPR result_type operator()() {
-					return static_cast<result_type>(static_cast<base_result>(rng_()) * static_cast<base_result>(max()) + 1);
+					return static_cast<result_type>(static_cast<base_result>(rng_()) * (static_cast<base_result>(max()) + 1));
 				}
 				SPROUT_CONSTEXPR sprout::random::random_result<uniform_int_float> const operator()() const {
 					return generate(rng_());
diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 87ccc94..65be609 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -116,7 +116,9 @@ namespace sprout {
 				)
 			{
 				sprout::random::detail::uniform_int_float<Engine> wrapper(eng);
-				return sprout::random::detail::generate_uniform_int_cxx14(wrapper, min_value, max_value, std::true_type());
+				T const result = sprout::random::detail::generate_uniform_int_cxx14(wrapper, min_value, max_value, std::true_type());
+				eng = wrapper.base();
+				return result;
 			}
 			template<typename Engine, typename T>
 			inline SPROUT_CXX14_CONSTEXPR T
-- 
2.43.0


From f57ea797a021bf782594d21257948fed1a58ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 189/275] fix: generate_canonical of a const engine stays in
 [0, 1)

---
 sprout/random/generate_canonical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/generate_canonical.hpp b/sprout/random/generate_canonical.hpp
index 2b281b8..be73128 100644
--- a/sprout/random/generate_canonical.hpp
+++ b/sprout/random/generate_canonical.hpp
@@ -212,7 +212,7 @@ namespace sprout {
 			generate_canonical_check(sprout::pair<RealType, URNG> const& res) {
 				typedef sprout::pair<RealType, URNG> const pair_type;
 				return SPROUT_ASSERT(res.first >= 0), SPROUT_ASSERT(res.first <= 1),
-					res.first == 0 ? generate_canonical_check_1(
+					res.first == 1 ? generate_canonical_check_1(
 							pair_type(res.first - sprout::numeric_limits<RealType>::epsilon() / 2, res.second)
 							)
 						: res
-- 
2.43.0


From 22eaa6758ce94c6f3b1a9f4dec181bbf1548dd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 190/275] fix: geometric p() and poisson mean() return the real
 parameter

---
 sprout/random/geometric_distribution.hpp | 2 +-
 sprout/random/poisson_distribution.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/geometric_distribution.hpp b/sprout/random/geometric_distribution.hpp
index 2f0afad..18c2028 100644
--- a/sprout/random/geometric_distribution.hpp
+++ b/sprout/random/geometric_distribution.hpp
@@ -114,7 +114,7 @@ namespace sprout {
 				: p_(parm.p())
 				, log_1mp_(init_log_1mp(parm.p()))
 			{}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index aceeb0f..dc5e29e 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -344,7 +344,7 @@ namespace sprout {
 				, ptrd_(init_ptrd(parm.mean()))
 				, exp_mean_(init_exp_mean(parm.mean()))
 			{}
-			SPROUT_CONSTEXPR result_type mean() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType mean() const SPROUT_NOEXCEPT {
 				return mean_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-- 
2.43.0


From db15bd015ae179dd821c9528e5e69760d1cfd404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 191/275] fix: poisson_distribution rejects correctly for large
 means

---
 sprout/random/poisson_distribution.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index dc5e29e..9c2004e 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -217,7 +217,7 @@ namespace sprout {
 					RealType k = sprout::floor((2 * ptrd_.a / us + ptrd_.b) * u + mean_ + 0.445);
 					v = v * ptrd_.inv_alpha / (ptrd_.a / (us * us) + ptrd_.b);
 					if ((k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						)
 					{
 						return static_cast<IntType>(k);
@@ -236,7 +236,7 @@ namespace sprout {
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine, D + 1>(rnd())
 					;
@@ -261,7 +261,7 @@ namespace sprout {
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType, RealType u) const {
-				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const&, RealType, RealType) const {
@@ -291,7 +291,7 @@ namespace sprout {
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine>(rnd())
 					;
@@ -308,7 +308,7 @@ namespace sprout {
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType v, RealType u) const {
-				return generate_2<Engine>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_2(Random const& rnd, RealType v) const {
-- 
2.43.0


From f0b3ee5261643de078343d2210606d3468b49c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:21 +0000
Subject: [PATCH 192/275] fix: poisson_distribution terminates when the uniform
 is close to 1

---
 sprout/random/poisson_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index 9c2004e..6f7ae3a 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -173,7 +173,7 @@ namespace sprout {
 				RealType u = sprout::random::uniform_01<RealType>()(eng);
 				IntType x = 0;
 				RealType p = exp_mean_;
-				while (u > p) {
+				while (u > p && u - p != u) {
 					u -= p;
 					++x;
 					p = p * mean_ / x;
@@ -182,7 +182,7 @@ namespace sprout {
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> invert_2(Random const& rnd, RealType u, IntType x, RealType p) const {
-				return !(u > p) ? sprout::random::random_result<Engine, poisson_distribution>(x, sprout::random::next(rnd).engine(), *this)
+				return !(u > p && u - p != u) ? sprout::random::random_result<Engine, poisson_distribution>(x, sprout::random::next(rnd).engine(), *this)
 					: invert_2<Engine>(rnd, u - p, x + 1, p * mean_ / (x + 1))
 					;
 			}
-- 
2.43.0


From acb8d39da4a1b17be8baf5bfb77d6b438dc2e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:41 +0000
Subject: [PATCH 193/275] fix: binomial_distribution terminates when the
 uniform is close to 1

---
 sprout/random/binomial_distribution.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 7d8ea2d..4cd3a65 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -11,6 +11,7 @@
 #include <iosfwd>
 #include <istream>
 #include <sprout/config.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/array/array.hpp>
 #include <sprout/cstdlib/abs.hpp>
 #include <sprout/math/abs.hpp>
@@ -223,7 +224,11 @@ namespace sprout {
 				while (u > r) {
 					u = u - r;
 					++x;
-					r = ((a / x) - s) * r;
+					RealType r1 = ((a / x) - s) * r;
+					if (r1 < sprout::numeric_limits<RealType>::epsilon() && r1 < r) {
+						break;
+					}
+					r = r1;
 				}
 				return x;
 			}
@@ -298,9 +303,17 @@ namespace sprout {
 			}
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
+			invert_5(Engine const& eng, RealType u, RealType q, RealType s, RealType a, RealType r, RealType r1, IntType x) const {
+				return r1 < sprout::numeric_limits<RealType>::epsilon() && r1 < r
+					? sprout::random::random_result<Engine, binomial_distribution>(x, eng, *this)
+					: invert_4(eng, u, q, s, a, r1, x)
+					;
+			}
+			template<typename Engine>
+			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			invert_4(Engine const& eng, RealType u, RealType q, RealType s, RealType a, RealType r, IntType x = 0) const {
 				return u > r
-					? invert_4(eng, u - r, q, s, a, ((a / (x + 1)) - s) * r, x + 1)
+					? invert_5(eng, u - r, q, s, a, r, ((a / (x + 1)) - s) * r, x + 1)
 					: sprout::random::random_result<Engine, binomial_distribution>(x, eng, *this)
 					;
 			}
-- 
2.43.0


From 302230536f4700b8ec3df0c05e1e8cb4bd38732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:41 +0000
Subject: [PATCH 194/275] fix: binomial_distribution uses the Stirling
 correction table

---
 sprout/random/binomial_distribution.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 4cd3a65..bcba9dd 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -32,12 +32,16 @@ namespace sprout {
 		namespace detail {
 #		define SPROUT_BINOMIAL_TABLE_DEF \
 			{{ \
-				1, \
-				1, \
-				2, \
-				6, \
-				24, \
-				120 \
+				0.08106146679532726, \
+				0.04134069595540929, \
+				0.02767792568499834, \
+				0.02079067210376509, \
+				0.01664469118982119, \
+				0.01387612882307075, \
+				0.01189670994589177, \
+				0.01041126526197209, \
+				0.009255462182712733, \
+				0.008330563433362871 \
 			}}
 
 			template<typename RealType>
-- 
2.43.0


From 72f63535e7e66c95bca88d8b6236a16a4608aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:31 +0000
Subject: [PATCH 195/275] fix: binomial_distribution::p() returns the real
 parameter

---
 sprout/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index bcba9dd..9d5fc88 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -744,7 +744,7 @@ namespace sprout {
 			SPROUT_CONSTEXPR result_type t() const SPROUT_NOEXCEPT {
 				return t_;
 			}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-- 
2.43.0


From 001fab68ee3816878ebc54f137912c222f3115d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:45 +0000
Subject: [PATCH 196/275] fix: the const binomial_distribution call terminates
 below the mode

---
 sprout/random/binomial_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 9d5fc88..b23cf65 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -416,7 +416,7 @@ namespace sprout {
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2<D + 1>(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3<D + 1>(eng, v, k, f)
 					;
@@ -602,7 +602,7 @@ namespace sprout {
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3(eng, v, k, f)
 					;
-- 
2.43.0


From 6d890ed6d27bf6ad149654209a807ef4c9b27670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:45 +0000
Subject: [PATCH 197/275] fix: uniform_smallint computes the engine range in
 the engine type

---
 sprout/random/uniform_smallint.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/uniform_smallint.hpp b/sprout/random/uniform_smallint.hpp
index 30aca7e..d891736 100644
--- a/sprout/random/uniform_smallint.hpp
+++ b/sprout/random/uniform_smallint.hpp
@@ -102,11 +102,11 @@ namespace sprout {
 				typedef typename std::make_unsigned<base_result>::type base_unsigned;
 				typedef typename std::make_unsigned<result_type>::type range_type;
 				range_type range = sprout::random::detail::subtract<result_type>()(max_, min_);
-				base_unsigned base_range = sprout::random::detail::subtract<result_type>()(eng.max(), eng.min());
+				base_unsigned base_range = sprout::random::detail::subtract<base_result>()(eng.max(), eng.min());
 				base_unsigned val = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), eng.min());
 				return range >= base_range
 					? sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val), min_)
-					: sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val % (static_cast<base_result>(range) + 1)), min_)
+					: sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val % (static_cast<base_unsigned>(range) + 1)), min_)
 					;
 			}
 			template<typename Engine>
@@ -177,7 +177,7 @@ namespace sprout {
 					eng,
 					eng(),
 					range_type(sprout::random::detail::subtract<result_type>()(max_, min_)),
-					base_unsigned(sprout::random::detail::subtract<result_type>()(eng.max(), eng.min()))
+					base_unsigned(sprout::random::detail::subtract<base_result>()(eng.max(), eng.min()))
 					);
 			}
 			template<typename Engine, typename Random, typename RangeType>
-- 
2.43.0


From 3a5c4794c06ffa3542fb8b984e74a4a21325abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 198/275] fix: memmove and wmemmove write to the destination

---
 sprout/cstring/memmove.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index 30839a6..fe0df66 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/algorithm/cxx14/copy_backward.hpp>
 
 namespace sprout {
@@ -19,7 +20,13 @@ namespace sprout {
 		template<typename PtrIterator, typename ConstPtrIterator>
 		inline SPROUT_CXX14_CONSTEXPR PtrIterator
 		memmove(PtrIterator s1, ConstPtrIterator s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, s1);
+			for (ConstPtrIterator it = s2; it != s2 + n; ++it) {
+				if (it == s1) {
+					sprout::copy_backward(s2, s2 + n, s1 + n);
+					return s1;
+				}
+			}
+			sprout::copy(s2, s2 + n, s1);
 			return s1;
 		}
 	}	// namespace detail
-- 
2.43.0


From 9847c6818cb8cae454674760aba1b8b3643ca318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 199/275] fix: strcat and wcscat append at the terminator

---
 sprout/cstring/strcat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/cstring/strcat.hpp b/sprout/cstring/strcat.hpp
index 8fb224a..6145231 100644
--- a/sprout/cstring/strcat.hpp
+++ b/sprout/cstring/strcat.hpp
@@ -16,8 +16,9 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR OutputNullTerminatedIterator
 		strcat(OutputNullTerminatedIterator s1, NullTerminatedIterator s2) {
 			OutputNullTerminatedIterator result = s1;
-			while (*s1++)
-				;
+			while (*s1) {
+				++s1;
+			}
 			while ((*s1++ = *s2++))
 				;
 			return result;
-- 
2.43.0


From 84afca911825a97e615010b7de3446ec64e68b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:36 +0000
Subject: [PATCH 200/275] fix: strncat and wcsncat write one terminator

---
 sprout/cstring/strncat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/cstring/strncat.hpp b/sprout/cstring/strncat.hpp
index 8b8167c..4bdf336 100644
--- a/sprout/cstring/strncat.hpp
+++ b/sprout/cstring/strncat.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			while (n) {
 				--n;
 				if (!(*s1++ = *s2++)) {
-					break;
+					return result;
 				}
 			}
 			*s1 = value_type();
-- 
2.43.0


From cc4f683b0ccc21f6c34e631f45d55bb42483df1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:30 +0000
Subject: [PATCH 201/275] fix: strcmp, strcoll and strncmp compare characters
 as unsigned char

---
 sprout/cstring/strcmp.hpp  |  5 +++--
 sprout/cstring/strncmp.hpp |  7 +++++--
 sprout/detail/str.hpp      | 15 +++++++++++++++
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/sprout/cstring/strcmp.hpp b/sprout/cstring/strcmp.hpp
index 944c9d5..b1bc507 100644
--- a/sprout/cstring/strcmp.hpp
+++ b/sprout/cstring/strcmp.hpp
@@ -16,6 +16,7 @@
 #include <sprout/tuple/tuple/tuple.hpp>
 #include <sprout/tuple/tuple/get.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
+#include <sprout/detail/str.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -36,8 +37,8 @@ namespace sprout {
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, int> type;
 			return sprout::tuples::get<2>(current) || !*sprout::tuples::get<1>(current) || !*sprout::tuples::get<0>(current) ? current
-				: n == 1 ? (*sprout::tuples::get<0>(current)) < (*sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
-					: (*sprout::tuples::get<1>(current)) < (*sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
+				: n == 1 ? sprout::detail::str_less()(*sprout::tuples::get<0>(current), *sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
+					: sprout::detail::str_less()(*sprout::tuples::get<1>(current), *sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
 					: type(sprout::next(sprout::tuples::get<0>(current)), sprout::next(sprout::tuples::get<1>(current)), 0)
 				: sprout::detail::strcmp_impl_1(
 					sprout::detail::strcmp_impl_1(
diff --git a/sprout/cstring/strncmp.hpp b/sprout/cstring/strncmp.hpp
index eaa463f..152e0bd 100644
--- a/sprout/cstring/strncmp.hpp
+++ b/sprout/cstring/strncmp.hpp
@@ -14,6 +14,7 @@
 #include <sprout/iterator/ptr_index_iterator.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
 #include <sprout/algorithm/tristate_lexicographical_compare.hpp>
+#include <sprout/detail/str.hpp>
 
 namespace sprout {
 
@@ -26,7 +27,8 @@ namespace sprout {
 	strncmp(char const* s1, char const* s2, std::size_t n) {
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), '\0',
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0'
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0',
+			sprout::detail::str_less()
 			);
 	}
 
@@ -39,7 +41,8 @@ namespace sprout {
 		typedef typename std::decay<Elem>::type type;
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), type(),
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type()
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type(),
+			sprout::detail::str_less()
 			);
 	}
 }	// namespace sprout
diff --git a/sprout/detail/str.hpp b/sprout/detail/str.hpp
index 351477c..26023d8 100644
--- a/sprout/detail/str.hpp
+++ b/sprout/detail/str.hpp
@@ -12,6 +12,21 @@
 
 namespace sprout {
 	namespace detail {
+		//
+		// str_less
+		//	plain char is compared as unsigned char
+		//
+		struct str_less {
+		public:
+			template<typename T>
+			SPROUT_CONSTEXPR bool operator()(T const& x, T const& y) const {
+				return x < y;
+			}
+			SPROUT_CONSTEXPR bool operator()(char x, char y) const {
+				return static_cast<unsigned char>(x) < static_cast<unsigned char>(y);
+			}
+		};
+
 		template<typename InputIterator>
 		inline SPROUT_CONSTEXPR InputIterator
 		str_find_check(InputIterator const& found) {
-- 
2.43.0


From 208c5f35b07e54c448e00583d8ff9ce808770d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:30 +0000
Subject: [PATCH 202/275] fix: strstr of an empty needle returns the haystack

---
 sprout/cstring/strstr.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sprout/cstring/strstr.hpp b/sprout/cstring/strstr.hpp
index e860257..857dff4 100644
--- a/sprout/cstring/strstr.hpp
+++ b/sprout/cstring/strstr.hpp
@@ -135,15 +135,19 @@ namespace sprout {
 	//
 	inline SPROUT_CONSTEXPR char const*
 	strstr(char const* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 	inline SPROUT_CONSTEXPR char*
 	strstr(char* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 
 	template<typename Elem>
@@ -152,9 +156,11 @@ namespace sprout {
 		Elem*
 	>::type
 	strstr(Elem* s1, typename std::remove_const<Elem>::type const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 707a9e69d97ac424aeb68c734980d169cef906be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:50 +0000
Subject: [PATCH 203/275] fix: str_to_int and ascii_to_int do not clamp the
 most negative representable neighbour

---
 sprout/cstdlib/ascii_to_int.hpp | 2 +-
 sprout/cstdlib/str_to_int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/ascii_to_int.hpp b/sprout/cstdlib/ascii_to_int.hpp
index 276ff83..6b125d4 100644
--- a/sprout/cstdlib/ascii_to_int.hpp
+++ b/sprout/cstdlib/ascii_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 			SPROUT_STATIC_ASSERT(sprout::detail::is_char_type_of_consecutive_digits<value_type>::value);
 			return !sprout::ascii::isdigit(*str)
 				? negative ? -val : val
-				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type)) - (negative ? 1 : 0)) / 10
+				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type))) / 10
 				? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::ascii_to_int_impl<IntType>(
 					sprout::next(str),
diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index af50e37..859edf4 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
-				: val > (sprout::numeric_limits<IntType>::max() - x - (negative ? 1 : 0)) / base
+				: val > (sprout::numeric_limits<IntType>::max() - x) / base
 					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
-- 
2.43.0


From f47c5422342941ab31614c2fd70c1c75dfcdfc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:50 +0000
Subject: [PATCH 204/275] fix: str_to_int takes a 0x prefix in base 0 and 16
 only

---
 sprout/cstdlib/str_to_int.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 859edf4..306ca9d 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -47,8 +47,10 @@ namespace sprout {
 		str_to_int_impl(NullTerminatedIterator const& str, int base, bool negative) {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return *str == SPROUT_CHAR_LITERAL('0', char_type)
-				? *sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
-					|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+				? (base == 0 || base == 16)
+					&& (*sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
+						|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+						)
 					? sprout::detail::str_to_int_impl_1<IntType>(
 						sprout::next(str, 2),
 						base ? base : 16,
-- 
2.43.0


From 16e8236997509740db50e22491f975792de570c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:50 +0000
Subject: [PATCH 205/275] fix: str_to_int accepts a minus sign for unsigned
 types

---
 sprout/cstdlib/str_to_int.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 306ca9d..0518f72 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
 				: val > (sprout::numeric_limits<IntType>::max() - x) / base
-					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
+					? (negative && sprout::is_signed<IntType>::value ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
 					base,
@@ -83,6 +83,8 @@ namespace sprout {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return sprout::ascii::isspace(*str)
 					? sprout::detail::str_to_int<IntType>(sprout::next(str), base)
+				: *str == SPROUT_CHAR_LITERAL('-', char_type)
+					? sprout::detail::str_to_int_impl<IntType>(sprout::next(str), base, true)
 				: *str == SPROUT_CHAR_LITERAL('+', char_type)
 					? sprout::detail::str_to_int_impl<IntType>(sprout::next(str), base, false)
 				: sprout::detail::str_to_int_impl<IntType>(str, base, false)
-- 
2.43.0


From e658d1603d736ef7e5cc6b9db2e9be88d74d4ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:50 +0000
Subject: [PATCH 206/275] fix: str_to_int with an end pointer clamps to a type
 narrower than long

---
 sprout/cstdlib/str_to_int.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 0518f72..f8b113f 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -106,6 +106,14 @@ namespace sprout {
 				: sprout::detail::str_to_int_impl<IntType>(str, base, false)
 				;
 		}
+		template<typename IntType, typename T>
+		inline SPROUT_CONSTEXPR IntType
+		str_to_int_clamp(T val) {
+			return val < sprout::numeric_limits<IntType>::min() ? sprout::numeric_limits<IntType>::min()
+				: val > sprout::numeric_limits<IntType>::max() ? sprout::numeric_limits<IntType>::max()
+				: static_cast<IntType>(val)
+				;
+		}
 		template<typename IntType, typename NullTerminatedIterator, typename CharPtr>
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int(NullTerminatedIterator const& str, CharPtr* endptr, int base) {
@@ -116,7 +124,8 @@ namespace sprout {
 					: static_cast<IntType>(std::strtoul(&*str, endptr, base))
 #elif defined(__MINGW32__)
 				: sprout::is_signed<IntType>::value
-					? sizeof(IntType) <= sizeof(long) ? static_cast<IntType>(std::strtol(&*str, endptr, base))
+					? sizeof(IntType) < sizeof(long) ? sprout::detail::str_to_int_clamp<IntType>(std::strtol(&*str, endptr, base))
+						: sizeof(IntType) <= sizeof(long) ? static_cast<IntType>(std::strtol(&*str, endptr, base))
 						: sizeof(IntType) <= sizeof(long long) ? static_cast<IntType>(::strtoll(&*str, endptr, base))
 						: static_cast<IntType>(std::strtoimax(&*str, endptr, base))
 					: sizeof(IntType) <= sizeof(unsigned long) ? static_cast<IntType>(std::strtoul(&*str, endptr, base))
@@ -124,7 +133,8 @@ namespace sprout {
 						: static_cast<IntType>(std::strtoumax(&*str, endptr, base))
 #else
 				: sprout::is_signed<IntType>::value
-					? sizeof(IntType) <= sizeof(long) ? static_cast<IntType>(std::strtol(&*str, endptr, base))
+					? sizeof(IntType) < sizeof(long) ? sprout::detail::str_to_int_clamp<IntType>(std::strtol(&*str, endptr, base))
+						: sizeof(IntType) <= sizeof(long) ? static_cast<IntType>(std::strtol(&*str, endptr, base))
 						: sizeof(IntType) <= sizeof(long long) ? static_cast<IntType>(std::strtoll(&*str, endptr, base))
 						: static_cast<IntType>(std::strtoimax(&*str, endptr, base))
 					: sizeof(IntType) <= sizeof(unsigned long) ? static_cast<IntType>(std::strtoul(&*str, endptr, base))
-- 
2.43.0


From 003f8f00eb305ccad52dae3bc54192db8bd2dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:50 +0000
Subject: [PATCH 207/275] fix: str_to_float reads the exponent

---
 sprout/cstdlib/str_to_float.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index cf74032..3f2ab84 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -42,7 +42,7 @@ namespace sprout {
 					num_decimals,
 					exponent,
 					n >> 1,
-					p10 * p10
+					n >> 1 ? p10 * p10 : p10
 					)
 				: number
 				;
@@ -58,8 +58,10 @@ namespace sprout {
 			long exponent = 0
 			)
 		{
-			return exponent >= sprout::numeric_limits<FloatType>::min_exponent
-				&& exponent <= sprout::numeric_limits<FloatType>::max_exponent
+			return number == 0 ? number
+				: exponent < sprout::numeric_limits<FloatType>::min_exponent10 - static_cast<long>(num_digits) - sprout::numeric_limits<FloatType>::digits10
+					? number * 0
+				: exponent <= sprout::numeric_limits<FloatType>::max_exponent10
 				? sprout::detail::str_to_float_impl_scale<FloatType>(
 					str,
 					negative,
@@ -69,7 +71,8 @@ namespace sprout {
 					exponent,
 					exponent < 0 ? -exponent : exponent
 					)
-				: HUGE_VAL
+				: number < 0 ? -sprout::numeric_limits<FloatType>::infinity()
+				: sprout::numeric_limits<FloatType>::infinity()
 				;
 		}
 		template<typename FloatType, typename NullTerminatedIterator>
@@ -93,7 +96,7 @@ namespace sprout {
 					num_digits,
 					num_decimals,
 					exponent,
-					n * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type))
+					n < 100000 ? n * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type)) : n
 					)
 				: sprout::detail::str_to_float_impl_exponent_2<FloatType>(
 					str,
@@ -101,7 +104,7 @@ namespace sprout {
 					number,
 					num_digits,
 					num_decimals,
-					negative ? exponent + n : exponent - n
+					negative ? exponent - n : exponent + n
 					)
 				;
 		}
@@ -118,7 +121,16 @@ namespace sprout {
 		{
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return (*str == SPROUT_CHAR_LITERAL('e', char_type) || *str == SPROUT_CHAR_LITERAL('E', char_type))
-				? *sprout::next(str) == SPROUT_CHAR_LITERAL('-', char_type)
+				? sprout::ascii::isdigit(*sprout::next(str))
+					? sprout::detail::str_to_float_impl_exponent_1<FloatType>(
+						sprout::next(str),
+						false,
+						number,
+						num_digits,
+						num_decimals,
+						exponent
+						)
+				: *sprout::next(str) == SPROUT_CHAR_LITERAL('-', char_type)
 					? sprout::detail::str_to_float_impl_exponent_1<FloatType>(
 						sprout::next(str, 2),
 						true,
-- 
2.43.0


From d1223bc2a0d269f2b1351e948760266380ab14a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 208/275] fix: str_to_float stops at an exponent marker without
 digits

---
 sprout/cstdlib/str_to_float.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index 3f2ab84..4ea8245 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -139,7 +139,8 @@ namespace sprout {
 						num_decimals,
 						exponent
 						)
-					: sprout::detail::str_to_float_impl_exponent_1<FloatType>(
+				: *sprout::next(str) == SPROUT_CHAR_LITERAL('+', char_type)
+					? sprout::detail::str_to_float_impl_exponent_1<FloatType>(
 						sprout::next(str, 2),
 						false,
 						number,
@@ -155,6 +156,14 @@ namespace sprout {
 					num_decimals,
 					exponent
 					)
+				: sprout::detail::str_to_float_impl_exponent_2<FloatType>(
+					str,
+					negative,
+					number,
+					num_digits,
+					num_decimals,
+					exponent
+					)
 				;
 		}
 		template<typename FloatType, typename NullTerminatedIterator>
-- 
2.43.0


From dd2bfa50e0f661122feced3eaa0709a8a1d051ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:33 +0000
Subject: [PATCH 209/275] fix: string_view sto* functions with an index compile

---
 sprout/utility/string_view/string_to_float.hpp | 4 ++--
 sprout/utility/string_view/string_to_int.hpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/utility/string_view/string_to_float.hpp b/sprout/utility/string_view/string_to_float.hpp
index 00dd7c7..0cd037b 100644
--- a/sprout/utility/string_view/string_to_float.hpp
+++ b/sprout/utility/string_view/string_to_float.hpp
@@ -22,8 +22,8 @@ namespace sprout {
 		>
 		inline FloatType string_to_float_dynamic(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx) {
 			Elem* endptr = nullptr;
-			FloatType result = sprout::detail::str_to_float<FloatType>(str.c_str(), &endptr);
-			*idx = endptr - str.c_str();
+			FloatType result = sprout::detail::str_to_float<FloatType>(str.data(), &endptr);
+			*idx = endptr - str.data();
 			return result;
 		}
 	}
diff --git a/sprout/utility/string_view/string_to_int.hpp b/sprout/utility/string_view/string_to_int.hpp
index 947cc56..439071d 100644
--- a/sprout/utility/string_view/string_to_int.hpp
+++ b/sprout/utility/string_view/string_to_int.hpp
@@ -22,8 +22,8 @@ namespace sprout {
 		inline IntType
 		string_to_int_dynamic(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx, int base = 10) {
 			Elem* endptr = nullptr;
-			IntType result = sprout::detail::str_to_int<IntType>(str.c_str(), &endptr, base);
-			*idx = endptr - str.c_str();
+			IntType result = sprout::detail::str_to_int<IntType>(str.data(), &endptr, base);
+			*idx = endptr - str.data();
 			return result;
 		}
 	}
-- 
2.43.0


From c9ed5b92a2124f22febcf67acca5e136ebc86a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:16 +0000
Subject: [PATCH 210/275] fix: string_view sto* functions stop at the end of
 the view

---
 .../detail/terminated_iterator.hpp            | 54 +++++++++++++++++++
 .../utility/string_view/string_to_float.hpp   | 10 ++--
 sprout/utility/string_view/string_to_int.hpp  | 10 ++--
 3 files changed, 66 insertions(+), 8 deletions(-)
 create mode 100644 sprout/utility/string_view/detail/terminated_iterator.hpp

diff --git a/sprout/utility/string_view/detail/terminated_iterator.hpp b/sprout/utility/string_view/detail/terminated_iterator.hpp
new file mode 100644
index 0000000..557f646
--- /dev/null
+++ b/sprout/utility/string_view/detail/terminated_iterator.hpp
@@ -0,0 +1,54 @@
+/*=============================================================================
+  Copyright (c) 2011-2019 Bolero MURAKAMI
+  https://github.com/bolero-MURAKAMI/Sprout
+
+  Distributed under the Boost Software License, Version 1.0. (See accompanying
+  file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
+=============================================================================*/
+#ifndef SPROUT_UTILITY_STRING_VIEW_DETAIL_TERMINATED_ITERATOR_HPP
+#define SPROUT_UTILITY_STRING_VIEW_DETAIL_TERMINATED_ITERATOR_HPP
+
+#include <cstddef>
+#include <iterator>
+#include <sprout/config.hpp>
+
+namespace sprout {
+	namespace detail {
+		//
+		// terminated_iterator
+		//   iterates over [first, last) and yields a terminator at last
+		//
+		template<typename Elem>
+		class terminated_iterator {
+		public:
+			typedef std::random_access_iterator_tag iterator_category;
+			typedef Elem value_type;
+			typedef std::ptrdiff_t difference_type;
+			typedef Elem const* pointer;
+			typedef Elem reference;
+		private:
+			Elem const* current_;
+			Elem const* last_;
+		public:
+			SPROUT_CONSTEXPR terminated_iterator(Elem const* first, Elem const* last)
+				: current_(first), last_(last)
+			{}
+			SPROUT_CONSTEXPR Elem operator*() const {
+				return current_ == last_ ? Elem() : *current_;
+			}
+			SPROUT_CONSTEXPR terminated_iterator operator+(difference_type n) const {
+				return terminated_iterator(current_ + n, last_);
+			}
+			SPROUT_CXX14_CONSTEXPR terminated_iterator& operator++() {
+				++current_;
+				return *this;
+			}
+			SPROUT_CXX14_CONSTEXPR terminated_iterator& operator+=(difference_type n) {
+				current_ += n;
+				return *this;
+			}
+		};
+	}	// namespace detail
+}	// namespace sprout
+
+#endif	// #ifndef SPROUT_UTILITY_STRING_VIEW_DETAIL_TERMINATED_ITERATOR_HPP
diff --git a/sprout/utility/string_view/string_to_float.hpp b/sprout/utility/string_view/string_to_float.hpp
index 0cd037b..be2e33d 100644
--- a/sprout/utility/string_view/string_to_float.hpp
+++ b/sprout/utility/string_view/string_to_float.hpp
@@ -12,6 +12,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/utility/string_view/string_view.hpp>
+#include <sprout/utility/string_view/detail/terminated_iterator.hpp>
 #include <sprout/cstdlib/str_to_float.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
@@ -21,9 +22,10 @@ namespace sprout {
 			typename FloatType, typename Elem, typename Traits
 		>
 		inline FloatType string_to_float_dynamic(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx) {
+			std::basic_string<Elem> const s(str.data(), str.size());
 			Elem* endptr = nullptr;
-			FloatType result = sprout::detail::str_to_float<FloatType>(str.data(), &endptr);
-			*idx = endptr - str.data();
+			FloatType result = sprout::detail::str_to_float<FloatType>(s.c_str(), &endptr);
+			*idx = endptr - s.c_str();
 			return result;
 		}
 	}
@@ -37,7 +39,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR FloatType
 	string_to_float(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx) {
-		return !idx ? sprout::detail::str_to_float<FloatType>(str.begin())
+		return !idx ? sprout::detail::str_to_float<FloatType>(sprout::detail::terminated_iterator<Elem>(str.data(), str.data() + str.size()))
 			: sprout::detail::string_to_float_dynamic<FloatType>(str, idx)
 			;
 	}
@@ -47,7 +49,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR FloatType
 	string_to_float(sprout::basic_string_view<Elem, Traits> const& str) {
-		return sprout::detail::str_to_float<FloatType>(str.begin());
+		return sprout::detail::str_to_float<FloatType>(sprout::detail::terminated_iterator<Elem>(str.data(), str.data() + str.size()));
 	}
 
 	//
diff --git a/sprout/utility/string_view/string_to_int.hpp b/sprout/utility/string_view/string_to_int.hpp
index 439071d..779f440 100644
--- a/sprout/utility/string_view/string_to_int.hpp
+++ b/sprout/utility/string_view/string_to_int.hpp
@@ -13,6 +13,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/utility/string_view/string_view.hpp>
+#include <sprout/utility/string_view/detail/terminated_iterator.hpp>
 #include <sprout/cstdlib/str_to_int.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
 
@@ -21,9 +22,10 @@ namespace sprout {
 		template<typename IntType, typename Elem, typename Traits>
 		inline IntType
 		string_to_int_dynamic(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx, int base = 10) {
+			std::basic_string<Elem> const s(str.data(), str.size());
 			Elem* endptr = nullptr;
-			IntType result = sprout::detail::str_to_int<IntType>(str.data(), &endptr, base);
-			*idx = endptr - str.data();
+			IntType result = sprout::detail::str_to_int<IntType>(s.c_str(), &endptr, base);
+			*idx = endptr - s.c_str();
 			return result;
 		}
 	}
@@ -37,7 +39,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR IntType
 	string_to_int(sprout::basic_string_view<Elem, Traits> const& str, std::size_t* idx, int base = 10) {
-		return !idx ? sprout::detail::str_to_int<IntType>(str.begin(), base)
+		return !idx ? sprout::detail::str_to_int<IntType>(sprout::detail::terminated_iterator<Elem>(str.data(), str.data() + str.size()), base)
 			: sprout::detail::string_to_int_dynamic<IntType>(str, idx, base)
 			;
 	}
@@ -47,7 +49,7 @@ namespace sprout {
 	>
 	inline SPROUT_CONSTEXPR IntType
 	string_to_int(sprout::basic_string_view<Elem, Traits> const& str, int base = 10) {
-		return sprout::detail::str_to_int<IntType>(str.begin(), base);
+		return sprout::detail::str_to_int<IntType>(sprout::detail::terminated_iterator<Elem>(str.data(), str.data() + str.size()), base);
 	}
 
 	//
-- 
2.43.0


From e33e942643691455e2c209341a7e3551fc12ac7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 211/275] fix: str_to_float scales small numerals with many
 digits

---
 sprout/cstdlib/str_to_float.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index 4ea8245..0964058 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -59,8 +59,23 @@ namespace sprout {
 			)
 		{
 			return number == 0 ? number
-				: exponent < sprout::numeric_limits<FloatType>::min_exponent10 - static_cast<long>(num_digits) - sprout::numeric_limits<FloatType>::digits10
-					? number * 0
+				: exponent < sprout::numeric_limits<FloatType>::min_exponent10
+					? sprout::detail::str_to_float_impl_exponent_2<FloatType>(
+						str,
+						negative,
+						sprout::detail::str_to_float_impl_scale<FloatType>(
+							str,
+							negative,
+							number,
+							num_digits,
+							num_decimals,
+							sprout::numeric_limits<FloatType>::min_exponent10,
+							-sprout::numeric_limits<FloatType>::min_exponent10
+							),
+						num_digits,
+						num_decimals,
+						exponent - sprout::numeric_limits<FloatType>::min_exponent10
+						)
 				: exponent <= sprout::numeric_limits<FloatType>::max_exponent10
 				? sprout::detail::str_to_float_impl_scale<FloatType>(
 					str,
-- 
2.43.0


From d1ab6db38052f8fccec1e07a289306c490881d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 212/275] fix: int_to_string writes digits above nine as
 letters

---
 sprout/string/int_to_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index 2d465f8..a705d37 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -46,13 +46,13 @@ namespace sprout {
 			return val < 0 ? access_type::raw_construct(
 					static_cast<std::size_t>(digits + 1),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(digits),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
@@ -68,7 +68,7 @@ namespace sprout {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_integer_digits<IntType, Base>::value> access_type;
 			return access_type::raw_construct(
 				static_cast<std::size_t>(digits),
-				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 					: Elem()
 					)...
 				);
-- 
2.43.0


From c225157cfd9e89f595bb664f7018f26b698a6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 213/275] fix: float_to_string_exp computes the decimal
 exponent and its digits

---
 sprout/detail/math/float.hpp      | 25 ++++++++++++++--
 sprout/string/float_to_string.hpp | 47 ++++++++++++++++++++++---------
 2 files changed, 56 insertions(+), 16 deletions(-)

diff --git a/sprout/detail/math/float.hpp b/sprout/detail/math/float.hpp
index 897ccfa..8d6a9e4 100644
--- a/sprout/detail/math/float.hpp
+++ b/sprout/detail/math/float.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/math/abs.hpp>
 #include <sprout/math/floor.hpp>
 #include <sprout/math/round.hpp>
@@ -66,7 +67,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR int
 		float_exponent10_positive(FloatType val) {
 			typedef sprout::pair<int, FloatType> type;
-			return float_exponent10_positive_0(type(val, 0), 1).first;
+			return float_exponent10_positive_0(type(0, val), 1).first;
 		}
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR sprout::pair<int, FloatType>
@@ -100,7 +101,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR int
 		float_exponent10_negative(FloatType val) {
 			typedef sprout::pair<int, FloatType> type;
-			return float_exponent10_negative_0(type(val, 0), 1).first;
+			return -float_exponent10_negative_0(type(0, val), 1).first;
 		}
 		// !!! OLD:
 //		template<typename FloatType>
@@ -123,7 +124,8 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		float_exponent10(FloatType val) {
-			return val < 0
+			return val == 0 ? 0
+				: val < 0
 				? val > -1
 					? sprout::detail::float_exponent10_negative(-val)
 					: sprout::detail::float_exponent10_positive(-val)
@@ -133,6 +135,23 @@ namespace sprout {
 				;
 		}
 
+		//
+		// float_scale10
+		//   val / 10^exponent
+		//
+		template<typename FloatType>
+		inline SPROUT_CONSTEXPR FloatType
+		float_scale10(FloatType val, int exponent) {
+			return exponent < -sprout::numeric_limits<FloatType>::max_exponent10
+				? sprout::detail::float_scale10(
+					val * sprout::detail::float_pow10<FloatType>(sprout::numeric_limits<FloatType>::max_exponent10),
+					exponent + sprout::numeric_limits<FloatType>::max_exponent10
+					)
+				: exponent < 0 ? val * sprout::detail::float_pow10<FloatType>(-exponent)
+				: val / sprout::detail::float_pow10<FloatType>(exponent)
+				;
+		}
+
 		//
 		// float_digit_at
 		//
diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index 8427f12..8d36f46 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -20,6 +20,7 @@
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/signbit.hpp>
 #include <sprout/math/floor.hpp>
+#include <sprout/math/round.hpp>
 #include <sprout/tpp/algorithm/max_element.hpp>
 #include <sprout/detail/char_literal.hpp>
 #include <sprout/detail/char_conversion.hpp>
@@ -126,18 +127,21 @@ namespace sprout {
 	{};
 
 	namespace detail {
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp_1(FloatType val, bool negative, int exponent10);
 		template<typename Elem, typename FloatType, sprout::index_t... Indexes>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
-		float_to_string_exp(FloatType val, bool negative, int exponent10, int e10_digits, sprout::index_tuple<Indexes...>) {
+		float_to_string_exp(int val, bool negative, int exponent10, int e10_digits, sprout::index_tuple<Indexes...>) {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_float_exp_digits<FloatType>::value> access_type;
 			return negative
 				? access_type::raw_construct(
 					static_cast<std::size_t>(5 + sprout::detail::decimal_places_length + e10_digits),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 0))
+					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(val, static_cast<int>(sprout::detail::decimal_places_length)))
 						: Indexes == 1 ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < 2 + sprout::detail::decimal_places_length
-							? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 1 - Indexes))
+							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(val, static_cast<int>(1 + sprout::detail::decimal_places_length - Indexes)))
 						: Indexes == 2 + sprout::detail::decimal_places_length ? SPROUT_CHAR_LITERAL('e', Elem)
 						: Indexes == 3 + sprout::detail::decimal_places_length ? (exponent10 < 0 ? SPROUT_CHAR_LITERAL('-', Elem) : SPROUT_CHAR_LITERAL('+', Elem))
 						: Indexes < 4 + sprout::detail::decimal_places_length + e10_digits
@@ -147,10 +151,10 @@ namespace sprout {
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(4 + sprout::detail::decimal_places_length + e10_digits),
-					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 0))
+					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(val, static_cast<int>(sprout::detail::decimal_places_length)))
 						: Indexes == 1 ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < 2 + sprout::detail::decimal_places_length
-							? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 1 - Indexes))
+							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(val, static_cast<int>(1 + sprout::detail::decimal_places_length - Indexes)))
 						: Indexes == 2 + sprout::detail::decimal_places_length ? SPROUT_CHAR_LITERAL('e', Elem)
 						: Indexes == 3 + sprout::detail::decimal_places_length ? (exponent10 < 0 ? SPROUT_CHAR_LITERAL('-', Elem) : SPROUT_CHAR_LITERAL('+', Elem))
 						: Indexes < 4 + sprout::detail::decimal_places_length + e10_digits
@@ -160,6 +164,28 @@ namespace sprout {
 					)
 				;
 		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp_2(FloatType val, bool negative, int exponent10, int v) {
+			return v >= sprout::detail::int_pow<int>(sprout::detail::decimal_places_length + 1)
+				? sprout::detail::float_to_string_exp_1<Elem>(val, negative, exponent10 + 1)
+				: val != 0 && v < sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)
+				? sprout::detail::float_to_string_exp_1<Elem>(val, negative, exponent10 - 1)
+				: sprout::detail::float_to_string_exp<Elem, FloatType>(
+					v, negative, exponent10,
+					NS_SSCRISK_CEL_OR_SPROUT::max(sprout::detail::int_digits(exponent10), 2),
+					sprout::make_index_tuple<sprout::printed_float_exp_digits<FloatType>::value - 1>::make()
+					)
+				;
+		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp_1(FloatType val, bool negative, int exponent10) {
+			return sprout::detail::float_to_string_exp_2<Elem>(
+				val, negative, exponent10,
+				static_cast<int>(sprout::math::round(sprout::detail::float_scale10(val, exponent10) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)))
+				);
+		}
 	}	// namespace detail
 
 	//
@@ -178,15 +204,10 @@ namespace sprout {
 			: sprout::math::isnan(val) ? sprout::math::signbit(val)
 				? access_type::raw_construct(4, SPROUT_CHAR_LITERAL('-', Elem), SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 				: access_type::raw_construct(3, SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
-			: sprout::detail::float_to_string_exp<Elem>(
-				sprout::detail::float_round_at(
-					(val < 0 ? -val : val) / sprout::detail::float_pow10<FloatType>(sprout::detail::float_exponent10(val)),
-					sprout::detail::decimal_places_length
-					),
+			: sprout::detail::float_to_string_exp_1<Elem>(
+				val < 0 ? -val : val,
 				sprout::math::signbit(val),
-				sprout::detail::float_exponent10(val),
-				NS_SSCRISK_CEL_OR_SPROUT::max(sprout::detail::int_digits(sprout::detail::float_exponent10(val)), 2),
-				sprout::make_index_tuple<sprout::printed_float_exp_digits<FloatType>::value - 1>::make()
+				sprout::detail::float_exponent10(val)
 				)
 			;
 	}
-- 
2.43.0


From 64697bdd8cc99b2f16e7f2840aa1cb3292524c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 214/275] fix: float_to_string prints the digits of the rounded
 value

---
 sprout/string/float_to_string.hpp | 43 ++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index 8d36f46..7374cd4 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_STRING_FLOAT_TO_STRING_HPP
 #define SPROUT_STRING_FLOAT_TO_STRING_HPP
 
+#include <cstdint>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
@@ -40,20 +41,21 @@ namespace sprout {
 	struct printed_float_digits
 		: public sprout::integral_constant<
 			std::size_t,
-			sprout::numeric_limits<FloatType>::max_exponent10 + sprout::detail::decimal_places_length + 2
+			sprout::numeric_limits<FloatType>::max_exponent10 + sprout::detail::decimal_places_length + 3
 		>
 	{};
 
 	namespace detail {
 		template<typename Elem, typename FloatType, sprout::index_t... Indexes>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
-		float_to_string_impl(FloatType val, bool negative, int digits, int v, sprout::index_tuple<Indexes...>) {
+		float_to_string_impl(std::uintmax_t val, bool negative, int digits, int scale, int v, sprout::index_tuple<Indexes...>) {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_float_digits<FloatType>::value> access_type;
 			return negative
 				? access_type::raw_construct(
 					static_cast<std::size_t>(digits + 2 + sprout::detail::decimal_places_length),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, digits - 1 - Indexes))
+					(Indexes < digits - scale ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(val, digits - scale - 1 - Indexes))
+						: Indexes < digits ? SPROUT_CHAR_LITERAL('0', Elem)
 						: Indexes == digits ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < digits + 1 + sprout::detail::decimal_places_length
 							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, digits + sprout::detail::decimal_places_length - Indexes))
@@ -62,7 +64,8 @@ namespace sprout {
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(digits + 1 + sprout::detail::decimal_places_length),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, digits - 1 - Indexes))
+					(Indexes < digits - scale ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(val, digits - scale - 1 - Indexes))
+						: Indexes < digits ? SPROUT_CHAR_LITERAL('0', Elem)
 						: Indexes == digits ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < digits + 1 + sprout::detail::decimal_places_length
 							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(v, digits + sprout::detail::decimal_places_length - Indexes))
@@ -73,12 +76,33 @@ namespace sprout {
 		}
 		template<typename Elem, typename FloatType>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
-		float_to_string(FloatType val, bool negative, int digits) {
-			return sprout::detail::float_to_string_impl<Elem>(
-				val, negative, digits, static_cast<int>((val - sprout::math::floor(val)) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)),
+		float_to_string_2(std::uintmax_t val, bool negative, int scale, int v) {
+			return sprout::detail::float_to_string_impl<Elem, FloatType>(
+				val, negative, sprout::detail::int_digits(val) + scale, scale, v,
 				sprout::make_index_tuple<sprout::printed_float_digits<FloatType>::value - 1>::make()
 				);
 		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
+		float_to_string_1(FloatType val, bool negative, int v) {
+			return v == sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)
+					? sprout::detail::float_to_string_1<Elem>(val + 1, negative, 0)
+				: val < static_cast<FloatType>(10000000000000000000u)
+					? sprout::detail::float_to_string_2<Elem, FloatType>(static_cast<std::uintmax_t>(val), negative, 0, v)
+				: sprout::detail::float_to_string_2<Elem, FloatType>(
+					static_cast<std::uintmax_t>(sprout::detail::float_scale10(val, sprout::detail::float_exponent10(val) - 17)),
+					negative, sprout::detail::float_exponent10(val) - 17, v
+					)
+				;
+		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
+		float_to_string(FloatType val, bool negative) {
+			return sprout::detail::float_to_string_1<Elem>(
+				sprout::math::floor(val), negative,
+				static_cast<int>(sprout::math::round((val - sprout::math::floor(val)) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)))
+				);
+		}
 	}	// namespace detail
 
 	//
@@ -98,9 +122,8 @@ namespace sprout {
 				? access_type::raw_construct(4, SPROUT_CHAR_LITERAL('-', Elem), SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 				: access_type::raw_construct(3, SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 			: sprout::detail::float_to_string<Elem>(
-				sprout::detail::float_round_at(val < 0 ? -val : val, sprout::detail::decimal_places_length),
-				sprout::math::signbit(val),
-				sprout::detail::float_digits_checked(val)
+				val < 0 ? -val : val,
+				sprout::math::signbit(val)
 				)
 			;
 	}
-- 
2.43.0


From 649579160d251d8becf807cd747668acaa3c937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 215/275] fix: int_to_string holds the minimum in base 2 and 8

---
 sprout/string/int_to_string.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index a705d37..3be0243 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_STRING_INT_TO_STRING_HPP
 #define SPROUT_STRING_INT_TO_STRING_HPP
 
+#include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
@@ -23,6 +24,21 @@
 #include <sprout/detail/math/int.hpp>
 
 namespace sprout {
+	namespace detail {
+		//
+		// printed_magnitude_digits
+		//   the magnitude of the minimum is a power of two, which may need a digit more than the maximum
+		//
+		template<typename IntType, std::size_t Base>
+		struct printed_magnitude_digits
+			: public sprout::integral_constant<
+				std::size_t,
+				sprout::integer_digits<IntType, Base>::value
+					+ (sprout::is_signed<IntType>::value && (Base == 2 || (Base == 8 && (CHAR_BIT * sizeof(IntType) - 1) % 3 == 0)) ? 1 : 0)
+			>
+		{};
+	}	// namespace detail
+
 	//
 	// printed_integer_digits
 	//
@@ -30,7 +46,7 @@ namespace sprout {
 	struct printed_integer_digits
 		: public sprout::integral_constant<
 			std::size_t,
-			sprout::integer_digits<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
+			sprout::detail::printed_magnitude_digits<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
 		>
 	{};
 
@@ -87,7 +103,7 @@ namespace sprout {
 		return sprout::detail::int_to_string<Elem, Base>(
 			val,
 			sprout::detail::int_digits<Base>(val),
-			sprout::make_index_tuple<sprout::integer_digits<IntType, Base>::value>::make()
+			sprout::make_index_tuple<sprout::detail::printed_magnitude_digits<IntType, Base>::value>::make()
 			);
 	}
 
-- 
2.43.0


From 2950e2405f93bc056735e4b6432e615f527a98aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 216/275] fix: hton and ntoh of a single byte

---
 sprout/net/endian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/net/endian.hpp b/sprout/net/endian.hpp
index 3a69d11..68a764e 100644
--- a/sprout/net/endian.hpp
+++ b/sprout/net/endian.hpp
@@ -98,7 +98,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			reverse_impl(T val, std::uint_fast8_t n1, std::uint_fast8_t n2) {
-				return n1 > n2 ? val : sprout::net::detail::reverse_impl(sprout::net::detail::swap(val, n1, n2), n1 + 1, n2 - 1);
+				return n1 >= n2 ? val : sprout::net::detail::reverse_impl(sprout::net::detail::swap(val, n1, n2), n1 + 1, n2 - 1);
 			}
 
 			/*
-- 
2.43.0


From 300dc470061f496653df63668b095fca9bee6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 217/275] fix: isclassified tests the given mask only

---
 sprout/ctype/ascii.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/ctype/ascii.hpp b/sprout/ctype/ascii.hpp
index 0352dc1..32acd17 100644
--- a/sprout/ctype/ascii.hpp
+++ b/sprout/ctype/ascii.hpp
@@ -250,18 +250,18 @@ namespace sprout {
 		} \
 		inline SPROUT_CONSTEXPR bool \
 		SPROUT_PP_CAT(is, SPROUT_PP_CAT(PREFIX, classified))(sprout::ctypes::mask m, CHAR_TYPE c) { \
-			return (m | sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
-				|| (m | sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
-				|| (m | sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
-				|| (m | sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
-				|| (m | sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
-				|| (m | sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
-				|| (m | sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
-				|| (m | sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
-				|| (m | sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
-				|| (m | sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
-				|| (m | sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
-				|| (m | sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
+			return ((m & sprout::ctypes::alnum) == sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
+				|| ((m & sprout::ctypes::alpha) == sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
+				|| ((m & sprout::ctypes::blank) == sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
+				|| ((m & sprout::ctypes::cntrl) == sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
+				|| ((m & sprout::ctypes::digit) == sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
+				|| ((m & sprout::ctypes::graph) == sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
+				|| ((m & sprout::ctypes::lower) == sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
+				|| ((m & sprout::ctypes::print) == sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
+				|| ((m & sprout::ctypes::punct) == sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
+				|| ((m & sprout::ctypes::space) == sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
+				|| ((m & sprout::ctypes::upper) == sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
+				|| ((m & sprout::ctypes::xdigit) == sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
 				; \
 		}
 
-- 
2.43.0


From 07162746a476b57511d184461b4e0399114677e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:06 +0000
Subject: [PATCH 218/275] fix: brainfuck decrements on '-'

---
 sprout/brainfuck/brainfuck.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/brainfuck/brainfuck.hpp b/sprout/brainfuck/brainfuck.hpp
index 3d182b3..c7ccb81 100644
--- a/sprout/brainfuck/brainfuck.hpp
+++ b/sprout/brainfuck/brainfuck.hpp
@@ -98,7 +98,7 @@ namespace sprout {
 							sprout::next(first), last, output, in_first, in_last,
 							sprout::fixed::set(buffer, pos, value_type(buffer.at(pos) + 1)), out_buffer, pos, out_pos
 							)
-					: *first == SPROUT_CHAR_LITERAL('+', value_type)
+					: *first == SPROUT_CHAR_LITERAL('-', value_type)
 						? sprout::brainfuck::detail::exec_impl(
 							sprout::next(first), last, output, in_first, in_last,
 							sprout::fixed::set(buffer, pos, value_type(buffer.at(pos) - 1)), out_buffer, pos, out_pos
-- 
2.43.0


From d8165b07e861de3a3c548aa0c6ddb2cb87623dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:06 +0000
Subject: [PATCH 219/275] fix: ook translates each pair to its own command

---
 sprout/brainfuck/ook.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sprout/brainfuck/ook.hpp b/sprout/brainfuck/ook.hpp
index ab87f54..d7c0295 100644
--- a/sprout/brainfuck/ook.hpp
+++ b/sprout/brainfuck/ook.hpp
@@ -39,19 +39,19 @@ namespace sprout {
 						*sprout::weed::lim<sprout::container_traits<Result>::static_size>(
 							sprout::weed::replace('>')
 								["Ook." >> *sprout::weed::space_ >> "Ook?"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('<')
 								["Ook?" >> *sprout::weed::space_ >> "Ook."]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('+')
 								["Ook." >> *sprout::weed::space_ >> "Ook."]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('-')
 								["Ook!" >> *sprout::weed::space_ >> "Ook!"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('.')
 								["Ook!" >> *sprout::weed::space_ >> "Ook."]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace(',')
 								["Ook." >> *sprout::weed::space_ >> "Ook!"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace('[')
 								["Ook!" >> *sprout::weed::space_ >> "Ook?"]
-							| sprout::weed::replace('>')
+							| sprout::weed::replace(']')
 								["Ook?" >> *sprout::weed::space_ >> "Ook!"]
 							| sprout::weed::replace(' ')
 								[sprout::weed::char_]
-- 
2.43.0


From dc605c6112c82c3e909815e9d847b5102e94f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:50 +0000
Subject: [PATCH 220/275] fix: misa accepts the long vowel mark as '>'

---
 sprout/brainfuck/misa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/brainfuck/misa.hpp b/sprout/brainfuck/misa.hpp
index 8919c6f..93d54e1 100644
--- a/sprout/brainfuck/misa.hpp
+++ b/sprout/brainfuck/misa.hpp
@@ -38,7 +38,7 @@ namespace sprout {
 						first, last,
 						*sprout::weed::lim<sprout::container_traits<Result>::static_size>(
 							sprout::weed::replace('>')
-								[sprout::weed::lit('>') | "\x81\xA8"/*"��"*/ | "\x81\x60"/*"�`"*/ | "\x81\5B"/*"�["*/]
+								[sprout::weed::lit('>') | "\x81\xA8"/*"��"*/ | "\x81\x60"/*"�`"*/ | "\x81\x5B"/*"�["*/]
 							| sprout::weed::replace('<')
 								[sprout::weed::lit('<') | "\x81\xA9"/*"��"*/ | "\x81\x9A"/*"��"*/ | "\x81\x99"/*"��"*/]
 							| sprout::weed::replace('+')
-- 
2.43.0


From f2f23a408323dec7d85028a60c41a3f711c0c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 221/275] fix: weed hex, oct and bin accept numbers of at least
 one digit

---
 sprout/weed/parser/numeric/bin.hpp | 2 +-
 sprout/weed/parser/numeric/hex.hpp | 2 +-
 sprout/weed/parser/numeric/oct.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/weed/parser/numeric/bin.hpp b/sprout/weed/parser/numeric/bin.hpp
index 0167dee..f7c6d18 100644
--- a/sprout/weed/parser/numeric/bin.hpp
+++ b/sprout/weed/parser/numeric/bin.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// bin
 		//
-		SPROUT_STATIC_CONSTEXPR auto bin = sprout::weed::uint_p<std::uintmax_t, 2, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto bin = sprout::weed::uint_p<std::uintmax_t, 2, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// bin8
diff --git a/sprout/weed/parser/numeric/hex.hpp b/sprout/weed/parser/numeric/hex.hpp
index ca34529..e21888b 100644
--- a/sprout/weed/parser/numeric/hex.hpp
+++ b/sprout/weed/parser/numeric/hex.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// hex
 		//
-		SPROUT_STATIC_CONSTEXPR auto hex = sprout::weed::uint_p<std::uintmax_t, 16, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto hex = sprout::weed::uint_p<std::uintmax_t, 16, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// hex8
diff --git a/sprout/weed/parser/numeric/oct.hpp b/sprout/weed/parser/numeric/oct.hpp
index e9eb433..9db621b 100644
--- a/sprout/weed/parser/numeric/oct.hpp
+++ b/sprout/weed/parser/numeric/oct.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// oct
 		//
-		SPROUT_STATIC_CONSTEXPR auto oct = sprout::weed::uint_p<std::uintmax_t, 8, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto oct = sprout::weed::uint_p<std::uintmax_t, 8, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// oct8
-- 
2.43.0


From 50b3e0a932c27b5a18fb9247c67b3b14d705e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 222/275] fix: weed numbers count the digits read against the
 minimum

---
 sprout/weed/parser/numeric/int_p.hpp  | 6 +++---
 sprout/weed/parser/numeric/uint_p.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/weed/parser/numeric/int_p.hpp b/sprout/weed/parser/numeric/int_p.hpp
index 4280be0..a5d2af8 100644
--- a/sprout/weed/parser/numeric/int_p.hpp
+++ b/sprout/weed/parser/numeric/int_p.hpp
@@ -88,7 +88,7 @@ namespace sprout {
 							sprout::next(first),
 							static_cast<IntType>(t * Radix + sprout::tuples::get<0>(res))
 							)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -114,7 +114,7 @@ namespace sprout {
 						static_cast<IntType>(t * Radix + sprout::tuples::get<0>(res)),
 						n
 						)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -137,7 +137,7 @@ namespace sprout {
 						n + 1,
 						sprout::weed::detail::from_ndigit<Radix, IntType>(*first)
 						)
-					: N < MinDigits
+					: n < MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
diff --git a/sprout/weed/parser/numeric/uint_p.hpp b/sprout/weed/parser/numeric/uint_p.hpp
index 2ca693f..d96bd99 100644
--- a/sprout/weed/parser/numeric/uint_p.hpp
+++ b/sprout/weed/parser/numeric/uint_p.hpp
@@ -87,7 +87,7 @@ namespace sprout {
 							sprout::next(first),
 							static_cast<UIntType>(t * Radix + sprout::tuples::get<0>(res))
 							)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -113,7 +113,7 @@ namespace sprout {
 						static_cast<UIntType>(t * Radix + sprout::tuples::get<0>(res)),
 						n
 						)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -136,7 +136,7 @@ namespace sprout {
 						n + 1,
 						sprout::weed::detail::from_ndigit<Radix, UIntType>(*first)
 						)
-					: N < MinDigits
+					: n < MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
-- 
2.43.0


From 0d8e6722b456283603f246c46c30a90370253c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 223/275] fix: weed int parsers read the minimum

---
 sprout/weed/parser/numeric/int_p.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/weed/parser/numeric/int_p.hpp b/sprout/weed/parser/numeric/int_p.hpp
index a5d2af8..3bbd1c7 100644
--- a/sprout/weed/parser/numeric/int_p.hpp
+++ b/sprout/weed/parser/numeric/int_p.hpp
@@ -57,7 +57,7 @@ namespace sprout {
 			{
 				typedef typename result<Context, Iterator>::type result_type;
 				return res.success() && sign < 0
-					? result_type(true, res.current(), -res.attr())
+					? result_type(true, res.current(), static_cast<IntType>(0 - static_cast<std::uintmax_t>(res.attr())))
 					: res
 					;
 			}
-- 
2.43.0


From 6333ba50f3bfa879f8c45c905c6f43edfe197a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 224/275] fix: weed list leaves a separator that no element
 follows

---
 sprout/weed/context/parse_context/operator/modulus.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/weed/context/parse_context/operator/modulus.hpp b/sprout/weed/context/parse_context/operator/modulus.hpp
index 1f549e9..ec5e9e8 100644
--- a/sprout/weed/context/parse_context/operator/modulus.hpp
+++ b/sprout/weed/context/parse_context/operator/modulus.hpp
@@ -65,7 +65,7 @@ namespace sprout {
 					? call(
 						expr1,
 						expr2,
-						res.ctx(),
+						ctx,
 						limited_category,
 						sprout::weed::eval(expr1, res.ctx()),
 						attrs...
@@ -202,7 +202,7 @@ namespace sprout {
 				) const
 			{
 				return res.success()
-					? call_inf(expr1, expr2, res.ctx(), sprout::weed::eval(expr1, res.ctx()))
+					? call_inf(expr1, expr2, ctx, sprout::weed::eval(expr1, res.ctx()))
 					: result_type(true, ctx.begin(), attribute_type(), ctx)
 					;
 			}
-- 
2.43.0


From df6987c978653670fd77777d59e4e855d645b937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:07 +0000
Subject: [PATCH 225/275] fix: weed repeat stops after its last match

---
 sprout/weed/parser/directive/repeat.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/weed/parser/directive/repeat.hpp b/sprout/weed/parser/directive/repeat.hpp
index 745a78d..2d86eea 100644
--- a/sprout/weed/parser/directive/repeat.hpp
+++ b/sprout/weed/parser/directive/repeat.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 					) const
 				{
 					return res.success()
-						? call(p, p.count_ <= sizeof...(Attrs) ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), attrs..., res.attr())
+						? call(p, p.count_ <= sizeof...(Attrs) + 1 ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), attrs..., res.attr())
 						: p.count_ <= sizeof...(Attrs)
 							? result_type(true, first, sprout::weed::attr_cnv::times<limit::value, attr_type>(attrs...))
 							: result_type(false, first, attribute_type())
@@ -90,7 +90,7 @@ namespace sprout {
 					) const
 				{
 					return res.success()
-						? call_inf(p, p.count_ <= n ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), n + 1)
+						? call_inf(p, p.count_ <= n + 1 || p.count_ == std::size_t(-1) ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), n + 1)
 						: result_type(p.count_ <= n || p.count_ == std::size_t(-1), first, attribute_type())
 						;
 				}
@@ -107,7 +107,7 @@ namespace sprout {
 					return res.success()
 						? call_inf(
 							p,
-							p.count_ <= 0 ? res.current() : first,
+							p.count_ <= 1 || p.count_ == std::size_t(-1) ? res.current() : first,
 							sprout::weed::eval(p.expr_, res.ctx()),
 							1
 							)
@@ -127,7 +127,7 @@ namespace sprout {
 					return res.success()
 						? call(
 							p,
-							p.count_ <= 0 ? res.current() : first,
+							p.count_ <= 1 ? res.current() : first,
 							sprout::weed::eval(p.expr_, res.ctx()),
 							res.attr()
 							)
-- 
2.43.0


From 336fff0fcdc464d84ffd6a18df4981f2288c80ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:01 +0000
Subject: [PATCH 226/275] fix: weed is_parser is false for other types

---
 sprout/weed/traits/parser/is_parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/weed/traits/parser/is_parser.hpp b/sprout/weed/traits/parser/is_parser.hpp
index 6307298..37b6cfa 100644
--- a/sprout/weed/traits/parser/is_parser.hpp
+++ b/sprout/weed/traits/parser/is_parser.hpp
@@ -24,7 +24,9 @@ namespace sprout {
 			// is_parser
 			//
 			template<typename T, typename = void>
-			struct is_parser;
+			struct is_parser
+				: public sprout::false_type
+			{};
 			template<typename T>
 			struct is_parser<
 				T,
-- 
2.43.0


From 70c631c12a2b50d631c917370b0c4f4e3d0452a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:39 +0000
Subject: [PATCH 227/275] fix: weed string yields the text it matched

---
 sprout/weed/parser/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/weed/parser/string/string.hpp b/sprout/weed/parser/string/string.hpp
index 9771ef9..2732da4 100644
--- a/sprout/weed/parser/string/string.hpp
+++ b/sprout/weed/parser/string/string.hpp
@@ -132,7 +132,7 @@ namespace sprout {
 				typedef typename attribute<Context, Iterator>::type attribute_type;
 				return sprout::distance(first, last) >= sprout::size(t_)
 					&& sprout::equal(sprout::begin(t_), sprout::end(t_), first)
-					? result_type(true, sprout::next(first, sprout::size(t_)), attribute_type())
+					? result_type(true, sprout::next(first, sprout::size(t_)), t_)
 					: result_type(false, first, typename attribute<Context, Iterator>::type())
 					;
 			}
-- 
2.43.0


From 848599def7be1a6e71f1b71675f4d7640c2fe1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:29 +0000
Subject: [PATCH 228/275] fix: invoke dereferences the pointer for a pointer to
 member

---
 sprout/type_traits/detail/invoke.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/detail/invoke.hpp b/sprout/type_traits/detail/invoke.hpp
index 9f80fce..046a9bc 100644
--- a/sprout/type_traits/detail/invoke.hpp
+++ b/sprout/type_traits/detail/invoke.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		template<typename PMD, typename Pointer>
 		inline SPROUT_CONSTEXPR decltype((*std::declval<Pointer>()).*(std::declval<PMD>()))
 		invoke(PMD&& pmd, Pointer&& ptr) SPROUT_NOEXCEPT_IF_EXPR((*std::declval<Pointer>()).*(std::declval<PMD>())) {
-			return SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMD, pmd));
+			return (*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMD, pmd));
 		}
 
 		template<typename Base, typename T, typename Derived, typename... Args>
@@ -44,7 +44,7 @@ namespace sprout {
 		template<typename PMF, typename Pointer, typename... Args>
 		inline SPROUT_CONSTEXPR decltype(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...))
 		invoke(PMF&& pmf, Pointer&& ptr, Args&&... args) SPROUT_NOEXCEPT_IF_EXPR(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...)) {
-			return (SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
+			return ((*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
 		}
 
 		template<typename R, typename F, typename... Args>
-- 
2.43.0


From 8e1a430bf9d88423a892735af522370796cc7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 229/275] fix: const bind unwraps bound reference wrappers

---
 sprout/functional/bind/bind.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sprout/functional/bind/bind.hpp b/sprout/functional/bind/bind.hpp
index 9ac4c91..35b64cc 100644
--- a/sprout/functional/bind/bind.hpp
+++ b/sprout/functional/bind/bind.hpp
@@ -102,6 +102,30 @@ namespace sprout {
 				return const_cast<typename std::remove_volatile<typename std::remove_reference<CVRef>::type>::type&>(arg).get();
 			}
 		};
+		template<typename T>
+		class mu<sprout::reference_wrapper<T> const, false, false>
+			: public sprout::detail::mu<sprout::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<sprout::reference_wrapper<T> volatile, false, false>
+			: public sprout::detail::mu<sprout::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<sprout::reference_wrapper<T> const volatile, false, false>
+			: public sprout::detail::mu<sprout::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<std::reference_wrapper<T> const, false, false>
+			: public sprout::detail::mu<std::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<std::reference_wrapper<T> volatile, false, false>
+			: public sprout::detail::mu<std::reference_wrapper<T>, false, false>
+		{};
+		template<typename T>
+		class mu<std::reference_wrapper<T> const volatile, false, false>
+			: public sprout::detail::mu<std::reference_wrapper<T>, false, false>
+		{};
 		template<typename Arg>
 		class mu<Arg, true, false> {
 		private:
-- 
2.43.0


From 4de84ad5c8246acc48753d22ff61d8d0e40276a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 230/275] fix: is_const_unqualified, is_volatile_unqualified
 and is_cv_unqualified are true for unqualified types

---
 sprout/type_traits/is_const_unqualified.hpp    | 2 +-
 sprout/type_traits/is_volatile_unqualified.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_const_unqualified.hpp b/sprout/type_traits/is_const_unqualified.hpp
index 682728d..b457e4c 100644
--- a/sprout/type_traits/is_const_unqualified.hpp
+++ b/sprout/type_traits/is_const_unqualified.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	template<typename T>
 	struct is_const_unqualified
 		: public sprout::bool_constant<
-			std::is_const<T>::value
+			!std::is_const<T>::value
 		>
 	{};
 
diff --git a/sprout/type_traits/is_volatile_unqualified.hpp b/sprout/type_traits/is_volatile_unqualified.hpp
index 78623e7..f350b10 100644
--- a/sprout/type_traits/is_volatile_unqualified.hpp
+++ b/sprout/type_traits/is_volatile_unqualified.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	template<typename T>
 	struct is_volatile_unqualified
 		: public sprout::bool_constant<
-			std::is_volatile<T>::value
+			!std::is_volatile<T>::value
 		>
 	{};
 
-- 
2.43.0


From 0dc5a5efb9d87694de5881287ab5f9e6344cf3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:49 +0000
Subject: [PATCH 231/275] fix: is_swappable and is_nothrow_swappable are false
 for void

---
 sprout/type_traits/is_nothrow_swappable.hpp | 6 +++++-
 sprout/type_traits/is_swappable.hpp         | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_nothrow_swappable.hpp b/sprout/type_traits/is_nothrow_swappable.hpp
index d941cf5..639cfd6 100644
--- a/sprout/type_traits/is_nothrow_swappable.hpp
+++ b/sprout/type_traits/is_nothrow_swappable.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_NOTHROW_SWAPPABLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_NOTHROW_SWAPPABLE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/is_nothrow_swappable_with.hpp>
 
@@ -17,7 +18,10 @@ namespace sprout {
 	//
 	template<typename T>
 	struct is_nothrow_swappable
-		: public sprout::is_nothrow_swappable_with<T&, T&>
+		: public sprout::is_nothrow_swappable_with<
+			typename std::add_lvalue_reference<T>::type,
+			typename std::add_lvalue_reference<T>::type
+		>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
diff --git a/sprout/type_traits/is_swappable.hpp b/sprout/type_traits/is_swappable.hpp
index f3f1d93..55f2522 100644
--- a/sprout/type_traits/is_swappable.hpp
+++ b/sprout/type_traits/is_swappable.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_SWAPPABLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_SWAPPABLE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/is_swappable_with.hpp>
 
@@ -17,7 +18,10 @@ namespace sprout {
 	//
 	template<typename T>
 	struct is_swappable
-		: public sprout::is_swappable_with<T&, T&>
+		: public sprout::is_swappable_with<
+			typename std::add_lvalue_reference<T>::type,
+			typename std::add_lvalue_reference<T>::type
+		>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
-- 
2.43.0


From 5ff110f993c6ce1ce40a1137cb75c70ad772e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 232/275] fix: is_copy_assignable and is_move_assignable ask
 about assignment to an lvalue

---
 sprout/type_traits/is_copy_assignable.hpp           | 2 +-
 sprout/type_traits/is_move_assignable.hpp           | 2 +-
 sprout/type_traits/is_nothrow_copy_assignable.hpp   | 2 +-
 sprout/type_traits/is_nothrow_move_assignable.hpp   | 2 +-
 sprout/type_traits/is_trivially_copy_assignable.hpp | 2 +-
 sprout/type_traits/is_trivially_move_assignable.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/type_traits/is_copy_assignable.hpp b/sprout/type_traits/is_copy_assignable.hpp
index c876454..f9f3fc0 100644
--- a/sprout/type_traits/is_copy_assignable.hpp
+++ b/sprout/type_traits/is_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_copy_assignable_impl<T, false>
-			: public sprout::is_assignable<T, T const&>
+			: public sprout::is_assignable<T&, T const&>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_move_assignable.hpp b/sprout/type_traits/is_move_assignable.hpp
index 8d1321d..1f4c3b1 100644
--- a/sprout/type_traits/is_move_assignable.hpp
+++ b/sprout/type_traits/is_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_move_assignable_impl<T, false>
-			: public sprout::is_assignable<T, T&&>
+			: public sprout::is_assignable<T&, T&&>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_copy_assignable.hpp b/sprout/type_traits/is_nothrow_copy_assignable.hpp
index a40ab85..eca46a5 100644
--- a/sprout/type_traits/is_nothrow_copy_assignable.hpp
+++ b/sprout/type_traits/is_nothrow_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_copy_assignable_impl<T, false>
-			: public sprout::is_nothrow_assignable<T, T const&>
+			: public sprout::is_nothrow_assignable<T&, T const&>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_move_assignable.hpp b/sprout/type_traits/is_nothrow_move_assignable.hpp
index e189f6c..1ffe1f9 100644
--- a/sprout/type_traits/is_nothrow_move_assignable.hpp
+++ b/sprout/type_traits/is_nothrow_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_move_assignable_impl<T, false>
-			: public sprout::is_nothrow_assignable<T, T&&>
+			: public sprout::is_nothrow_assignable<T&, T&&>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_copy_assignable.hpp b/sprout/type_traits/is_trivially_copy_assignable.hpp
index 318767e..11a7c5b 100644
--- a/sprout/type_traits/is_trivially_copy_assignable.hpp
+++ b/sprout/type_traits/is_trivially_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_copy_assignable_impl<T, false>
-			: public sprout::is_trivially_assignable<T, T const&>
+			: public sprout::is_trivially_assignable<T&, T const&>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_move_assignable.hpp b/sprout/type_traits/is_trivially_move_assignable.hpp
index d3917e5..10547f1 100644
--- a/sprout/type_traits/is_trivially_move_assignable.hpp
+++ b/sprout/type_traits/is_trivially_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_move_assignable_impl<T, false>
-			: public sprout::is_trivially_assignable<T, T&&>
+			: public sprout::is_trivially_assignable<T&, T&&>
 		{};
 	}	// namespace detail
 	template<typename T>
-- 
2.43.0


From 9ac6c5788a954efa7df5e2abf91e58961b38bf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 233/275] fix: copy_const copies const

---
 sprout/type_traits/copy_const.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/copy_const.hpp b/sprout/type_traits/copy_const.hpp
index 2185ffc..cee1ef6 100644
--- a/sprout/type_traits/copy_const.hpp
+++ b/sprout/type_traits/copy_const.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		: public sprout::identity<T>
 	{};
 	template<typename T, typename U>
-	struct copy_const<T, U volatile>
+	struct copy_const<T, U const>
 		: public std::add_const<T>
 	{};
 
-- 
2.43.0


From e9716cecbb9133511a46f80d7eae4437b03c13d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 234/275] fix: arrays of non-aggregates are aggregates

---
 sprout/type_traits/is_aggregate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/is_aggregate.hpp b/sprout/type_traits/is_aggregate.hpp
index eb0e600..228101e 100644
--- a/sprout/type_traits/is_aggregate.hpp
+++ b/sprout/type_traits/is_aggregate.hpp
@@ -22,7 +22,7 @@ namespace sprout {
 	template<typename T>
 	struct is_aggregate
 		: public sprout::bool_constant<
-			__is_aggregate(typename sprout::remove_cv<typename sprout::remove_all_extents<T>::type>::type)
+			__is_aggregate(typename sprout::remove_cv<T>::type)
 		>
 	{};
 #else	// #if SPROUT_CLANG_HAS_FUTURE(is_aggregate) || SPROUT_GCC_OR_LATER(7, 0, 0)
-- 
2.43.0


From c68dd01430156fe4222b335c10c51f0eacbd38c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 235/275] fix: has_pre_increment, has_pre_decrement and
 has_post_decrement test their own operator

---
 sprout/type_traits/has_post_decrement.hpp | 2 +-
 sprout/type_traits/has_pre_decrement.hpp  | 2 +-
 sprout/type_traits/has_pre_increment.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/type_traits/has_post_decrement.hpp b/sprout/type_traits/has_post_decrement.hpp
index da03ed2..be412bc 100644
--- a/sprout/type_traits/has_post_decrement.hpp
+++ b/sprout/type_traits/has_post_decrement.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_post_decrement
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(post_decrement, --);
+	SPROUT_DETAIL_HAS_POST_UNARY_OP_DECL(post_decrement, --);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_pre_decrement.hpp b/sprout/type_traits/has_pre_decrement.hpp
index b73f177..cad12d5 100644
--- a/sprout/type_traits/has_pre_decrement.hpp
+++ b/sprout/type_traits/has_pre_decrement.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_pre_decrement
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_decrement, ++);
+	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_decrement, --);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_pre_increment.hpp b/sprout/type_traits/has_pre_increment.hpp
index bf9a0e1..a515cc6 100644
--- a/sprout/type_traits/has_pre_increment.hpp
+++ b/sprout/type_traits/has_pre_increment.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_pre_increment
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_increment, --);
+	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_increment, ++);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
-- 
2.43.0


From 513114a48d404f766b16ed8b79e494d4496adac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 236/275] fix: has_left_shift_assign and has_right_shift_assign
 test the compound assignment

---
 sprout/type_traits/has_left_shift_assign.hpp  | 8 ++++----
 sprout/type_traits/has_right_shift_assign.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sprout/type_traits/has_left_shift_assign.hpp b/sprout/type_traits/has_left_shift_assign.hpp
index 2bcdf95..8b1d4b6 100644
--- a/sprout/type_traits/has_left_shift_assign.hpp
+++ b/sprout/type_traits/has_left_shift_assign.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_LEFT_ASSIGN_HPP
-#define SPROUT_TYPE_TRAITS_HAS_SHIFT_LEFT_ASSIGN_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_LEFT_SHIFT_ASSIGN_HPP
+#define SPROUT_TYPE_TRAITS_HAS_LEFT_SHIFT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
@@ -18,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
 	struct has_left_shift_assign
-		: public sprout::has_shift_left<T, U, R>
+		: public sprout::has_shift_left_assign<T, U, R>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
@@ -27,4 +27,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_LEFT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_LEFT_SHIFT_ASSIGN_HPP
diff --git a/sprout/type_traits/has_right_shift_assign.hpp b/sprout/type_traits/has_right_shift_assign.hpp
index 911cd73..d8b1486 100644
--- a/sprout/type_traits/has_right_shift_assign.hpp
+++ b/sprout/type_traits/has_right_shift_assign.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
-#define SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
+#define SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
@@ -18,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
 	struct has_right_shift_assign
-		: public sprout::has_shift_right<T, U, R>
+		: public sprout::has_shift_right_assign<T, U, R>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
@@ -27,4 +27,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
-- 
2.43.0


From ffb7c00b61cd44552f4ec415dad8b25e55440979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 237/275] fix: has_comma has its own include guard and a
 well-formed test

---
 sprout/type_traits/has_comma.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sprout/type_traits/has_comma.hpp b/sprout/type_traits/has_comma.hpp
index 01a4ece..2650510 100644
--- a/sprout/type_traits/has_comma.hpp
+++ b/sprout/type_traits/has_comma.hpp
@@ -5,19 +5,22 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
-#define SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
+#define SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
 #include <sprout/type_traits/detail/has_binary_op.hpp>
-#include <sprout/preprocessor/comma.hpp>
+#include <sprout/preprocessor/empty.hpp>
+
+#define SPROUT_DETAIL_HAS_COMMA_EXPR(OP, LHS, RHS) \
+	LHS , RHS
 
 namespace sprout {
 	//
 	// has_comma
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(comma, SPROUT_PP_COMMA(), = T);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL_(comma, SPROUT_PP_EMPTY(), = T, SPROUT_DETAIL_HAS_COMMA_EXPR);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = T, typename R = sprout::dont_care>
@@ -25,4 +28,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
-- 
2.43.0


From 2cd353495a5bf8935e826fb2e4b4b1085c8ae92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:25 +0000
Subject: [PATCH 238/275] fix: has_bit_and_assign, has_bit_or_assign and
 has_bit_xor_assign test their own operator

---
 sprout/type_traits/has_bit_and_assign.hpp | 2 +-
 sprout/type_traits/has_bit_or_assign.hpp  | 2 +-
 sprout/type_traits/has_bit_xor_assign.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/type_traits/has_bit_and_assign.hpp b/sprout/type_traits/has_bit_and_assign.hpp
index d89f362..6a29731 100644
--- a/sprout/type_traits/has_bit_and_assign.hpp
+++ b/sprout/type_traits/has_bit_and_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_and_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_and_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_and_assign, &=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_bit_or_assign.hpp b/sprout/type_traits/has_bit_or_assign.hpp
index 1eb3d63..950e25a 100644
--- a/sprout/type_traits/has_bit_or_assign.hpp
+++ b/sprout/type_traits/has_bit_or_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_or_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_or_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_or_assign, |=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_bit_xor_assign.hpp b/sprout/type_traits/has_bit_xor_assign.hpp
index 1969a4c..a4228e7 100644
--- a/sprout/type_traits/has_bit_xor_assign.hpp
+++ b/sprout/type_traits/has_bit_xor_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_xor_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_xor_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_xor_assign, ^=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
-- 
2.43.0


From 0258e4b16c9cc073f36288b943f58aec3d6bb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:11 +0000
Subject: [PATCH 239/275] fix: type-level one_of is true for exactly one
 element

---
 sprout/tpp/algorithm/one_of.hpp       | 3 ++-
 sprout/type/algorithm/one_of.hpp      | 8 ++++++--
 sprout/type/algorithm/one_of_same.hpp | 8 ++++++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/sprout/tpp/algorithm/one_of.hpp b/sprout/tpp/algorithm/one_of.hpp
index dfd54e4..0bc7087 100644
--- a/sprout/tpp/algorithm/one_of.hpp
+++ b/sprout/tpp/algorithm/one_of.hpp
@@ -38,7 +38,8 @@ namespace sprout {
 				: public sprout::bool_constant<
 					sprout::tpp::detail::one_of_impl<Tup, First, (First + Last) / 2>::value
 						? sprout::tpp::detail::one_of_impl_1<Tup, (First + Last) / 2, Last>::value
-						: sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value
+						: sprout::tpp::detail::one_of_impl_1<Tup, First, (First + Last) / 2>::value
+							&& sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value
 				>
 			{};
 		}	// namespace detail
diff --git a/sprout/type/algorithm/one_of.hpp b/sprout/type/algorithm/one_of.hpp
index 6f1ba25..549ba19 100644
--- a/sprout/type/algorithm/one_of.hpp
+++ b/sprout/type/algorithm/one_of.hpp
@@ -77,7 +77,11 @@ namespace sprout {
 						Tuple, Predicate, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
-					: sprout::types::detail::one_of_impl<
+					: sprout::types::detail::one_of_impl_1<
+						Tuple, Predicate, First, First + Pivot,
+						Pivot / 2
+					>::value
+					&& sprout::types::detail::one_of_impl<
 						Tuple, Predicate, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
@@ -89,7 +93,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename Predicate>
 			struct one_of<Tuple, Predicate, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
diff --git a/sprout/type/algorithm/one_of_same.hpp b/sprout/type/algorithm/one_of_same.hpp
index de23826..9236146 100644
--- a/sprout/type/algorithm/one_of_same.hpp
+++ b/sprout/type/algorithm/one_of_same.hpp
@@ -76,7 +76,11 @@ namespace sprout {
 						Tuple, T, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
-					: sprout::types::detail::one_of_same_impl<
+					: sprout::types::detail::one_of_same_impl_1<
+						Tuple, T, First, First + Pivot,
+						Pivot / 2
+					>::value
+					&& sprout::types::detail::one_of_same_impl<
 						Tuple, T, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
@@ -88,7 +92,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename T>
 			struct one_of_same<Tuple, T, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
-- 
2.43.0


From b54d7224d82c2139680f29541b71963c131c63c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:17 +0000
Subject: [PATCH 240/275] fix: left_channel and right_channel can be applied to
 a range

---
 sprout/compost/formats/left_channel.hpp  | 2 +-
 sprout/compost/formats/right_channel.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/compost/formats/left_channel.hpp b/sprout/compost/formats/left_channel.hpp
index f028f7c..96d37ef 100644
--- a/sprout/compost/formats/left_channel.hpp
+++ b/sprout/compost/formats/left_channel.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 			//
 			// operator|
 			//
-			template<typename Range, typename T>
+			template<typename Range>
 			inline SPROUT_CONSTEXPR auto
 			operator|(Range&& lhs, left_channel_forwarder const&)
 			-> decltype(
diff --git a/sprout/compost/formats/right_channel.hpp b/sprout/compost/formats/right_channel.hpp
index 123b2ac..662936b 100644
--- a/sprout/compost/formats/right_channel.hpp
+++ b/sprout/compost/formats/right_channel.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 			//
 			// operator|
 			//
-			template<typename Range, typename T>
+			template<typename Range>
 			inline SPROUT_CONSTEXPR auto
 			operator|(Range&& lhs, right_channel_forwarder const&)
 			-> decltype(
-- 
2.43.0


From dcf89c44b696ba49991971158d6db7ec736f7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:49 +0000
Subject: [PATCH 241/275] fix: white_noise draws through the const distribution

---
 sprout/compost/waves/white_noise.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/compost/waves/white_noise.hpp b/sprout/compost/waves/white_noise.hpp
index d511587..b2526ce 100644
--- a/sprout/compost/waves/white_noise.hpp
+++ b/sprout/compost/waves/white_noise.hpp
@@ -59,7 +59,7 @@ namespace sprout {
 					value_type const& sigma = 1
 					)
 					: base_type(
-						iterator(distribution_type(0, sigma)(gen), sprout::size(range)),
+						iterator(static_cast<distribution_type const&>(distribution_type(0, sigma))(gen), sprout::size(range)),
 						iterator()
 						)
 				{}
@@ -98,7 +98,7 @@ namespace sprout {
 					value_type const& sigma = 1
 					)
 					: base_type(
-						iterator(distribution_type(0, sigma)(gen)),
+						iterator(static_cast<distribution_type const&>(distribution_type(0, sigma))(gen)),
 						iterator()
 						)
 				{}
-- 
2.43.0


From d0b4a70fb74b7dee3138e6a6e81fe9b0ab251b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:31 +0000
Subject: [PATCH 242/275] fix: sawtooth_wave_range accessors return by value

---
 sprout/range/adaptor/sawtooth_wave.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/range/adaptor/sawtooth_wave.hpp b/sprout/range/adaptor/sawtooth_wave.hpp
index a914311..e96a944 100644
--- a/sprout/range/adaptor/sawtooth_wave.hpp
+++ b/sprout/range/adaptor/sawtooth_wave.hpp
@@ -91,13 +91,13 @@ namespace sprout {
 					iterator(sprout::numeric_limits<difference_type>::max(), frequency, amplitude, phase)
 					)
 			{}
-			SPROUT_CONSTEXPR value_type const& frequency() const {
+			SPROUT_CONSTEXPR value_type frequency() const {
 				return base_type::begin().frequency();
 			}
-			SPROUT_CONSTEXPR value_type const& amplitude() const {
+			SPROUT_CONSTEXPR value_type amplitude() const {
 				return base_type::begin().amplitude();
 			}
-			SPROUT_CONSTEXPR value_type const& phase() const {
+			SPROUT_CONSTEXPR value_type phase() const {
 				return base_type::begin().phase();
 			}
 		};
-- 
2.43.0


From 846d94e238d885bbfcc5438d659d0105a281219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:31 +0000
Subject: [PATCH 243/275] fix: band-pass and band-elimination filters use the
 product of the edge frequencies

---
 sprout/compost/utility/iir_filter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/compost/utility/iir_filter.hpp b/sprout/compost/utility/iir_filter.hpp
index 0495358..a093f68 100644
--- a/sprout/compost/utility/iir_filter.hpp
+++ b/sprout/compost/utility/iir_filter.hpp
@@ -171,7 +171,7 @@ namespace sprout {
 				return sprout::compost::detail::iir_bpf_impl_1<Result>(
 					fc1, a, b,
 					sprout::math::two_pi<T>() * (fc2 - fc1),
-					sprout::math::four_pi<T>() * fc1 * fc2
+					sprout::math::two_pi<T>() * fc1 * (sprout::math::two_pi<T>() * fc2)
 					);
 			}
 		}	// namespace detail
@@ -227,7 +227,7 @@ namespace sprout {
 				return sprout::compost::detail::iir_bef_impl_1<Result>(
 					fc1, a, b,
 					sprout::math::two_pi<T>() * (fc2 - fc1),
-					sprout::math::four_pi<T>() * fc1 * fc2
+					sprout::math::two_pi<T>() * fc1 * (sprout::math::two_pi<T>() * fc2)
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From 19ebfea2ef871be00ffd752d4ee415bf11a52fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:31 +0000
Subject: [PATCH 244/275] fix: notch filter rejects its centre frequency

---
 sprout/compost/utility/iir_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/compost/utility/iir_filter.hpp b/sprout/compost/utility/iir_filter.hpp
index a093f68..6ee0bf8 100644
--- a/sprout/compost/utility/iir_filter.hpp
+++ b/sprout/compost/utility/iir_filter.hpp
@@ -316,7 +316,7 @@ namespace sprout {
 					sprout::remake<B>(
 						b, 3,
 						(x2 + 1) / y,
-						(2 * x2 + 2) / y,
+						(2 * x2 - 2) / y,
 						(x2 + 1) / y
 						)
 					);
-- 
2.43.0


From 33c2f05fe71dd14054c4ed9a38aae69b0a3550d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:31 +0000
Subject: [PATCH 245/275] fix: shelving filters subtract the damping term in
 b[2]

---
 sprout/compost/utility/iir_filter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/compost/utility/iir_filter.hpp b/sprout/compost/utility/iir_filter.hpp
index 6ee0bf8..9856af2 100644
--- a/sprout/compost/utility/iir_filter.hpp
+++ b/sprout/compost/utility/iir_filter.hpp
@@ -369,7 +369,7 @@ namespace sprout {
 						b, 3,
 						(1 + g_ * x / q + g * x2) / y,
 						(2 * g * x2 - 2) / y,
-						(1 + g_ * x / q + g * x2) / y
+						(1 - g_ * x / q + g * x2) / y
 						)
 					);
 			}
@@ -425,7 +425,7 @@ namespace sprout {
 						b, 3,
 						(g + g_ * x / q + x2) / y,
 						(2 * x2 - 2 * g) / y,
-						(g + g_ * x / q + x2) / y
+						(g - g_ * x / q + x2) / y
 						)
 					);
 			}
-- 
2.43.0


From c45189b00390a33859770fc3e1ec95d486d0e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:31 +0000
Subject: [PATCH 246/275] fix: peaking filter scales the damping term by the
 gain

---
 sprout/compost/utility/iir_filter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/compost/utility/iir_filter.hpp b/sprout/compost/utility/iir_filter.hpp
index 9856af2..99b71c0 100644
--- a/sprout/compost/utility/iir_filter.hpp
+++ b/sprout/compost/utility/iir_filter.hpp
@@ -479,9 +479,9 @@ namespace sprout {
 						),
 					sprout::remake<B>(
 						b, 3,
-						(1 + x / q + g + x2) / y,
+						(1 + x / q * g + x2) / y,
 						(2 * x2 - 2) / y,
-						(1 + x / q + g + x2) / y
+						(1 - x / q * g + x2) / y
 						)
 					);
 			}
-- 
2.43.0


From 799636f09ad1bb5159f40ccf628c9b9799ebf58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 247/275] fix: cross product computes its y component

---
 sprout/darkroom/coords/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/darkroom/coords/vector.hpp b/sprout/darkroom/coords/vector.hpp
index c774343..1b3101f 100644
--- a/sprout/darkroom/coords/vector.hpp
+++ b/sprout/darkroom/coords/vector.hpp
@@ -163,8 +163,8 @@ namespace sprout {
 					sprout::darkroom::coords::y(lhs) * sprout::darkroom::coords::z(rhs)
 						- sprout::darkroom::coords::z(lhs) * sprout::darkroom::coords::y(rhs)
 						,
-					sprout::darkroom::coords::y(lhs) * sprout::darkroom::coords::x(rhs)
-						- sprout::darkroom::coords::x(lhs) * sprout::darkroom::coords::y(rhs)
+					sprout::darkroom::coords::z(lhs) * sprout::darkroom::coords::x(rhs)
+						- sprout::darkroom::coords::x(lhs) * sprout::darkroom::coords::z(rhs)
 						,
 					sprout::darkroom::coords::x(lhs) * sprout::darkroom::coords::y(rhs)
 						- sprout::darkroom::coords::y(lhs) * sprout::darkroom::coords::x(rhs)
-- 
2.43.0


From 450f21f9292e414bdc9f94bcf1fee5e1ce7b55bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 248/275] fix: tiled texture picks the right texel at negative
 integral coordinates

---
 sprout/darkroom/materials/texture_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/darkroom/materials/texture_map.hpp b/sprout/darkroom/materials/texture_map.hpp
index 5b773f8..d735f94 100644
--- a/sprout/darkroom/materials/texture_map.hpp
+++ b/sprout/darkroom/materials/texture_map.hpp
@@ -77,11 +77,11 @@ namespace sprout {
 					return is_tile()
 						? texture_.get()(
 							x < 0
-								? texture_.get().width() - 1 - static_cast<std::size_t>(-x) % texture_.get().width()
+								? texture_.get().width() - 1 - static_cast<std::size_t>(-sprout::floor(x) - 1) % texture_.get().width()
 								: static_cast<std::size_t>(x) % texture_.get().width()
 								,
 							y < 0
-								? texture_.get().height() - 1 - static_cast<std::size_t>(-y) % texture_.get().height()
+								? texture_.get().height() - 1 - static_cast<std::size_t>(-sprout::floor(y) - 1) % texture_.get().height()
 								: static_cast<std::size_t>(y) % texture_.get().height()
 							)
 						: x < 0 || x >= texture_.get().width()
-- 
2.43.0


From aeaf019d3a9a91193ac7b26cfe41f683337c450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 249/275] fix: default argument of make_texture_map names an
 existing type

---
 sprout/darkroom/materials/texture_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/darkroom/materials/texture_map.hpp b/sprout/darkroom/materials/texture_map.hpp
index d735f94..92d32f6 100644
--- a/sprout/darkroom/materials/texture_map.hpp
+++ b/sprout/darkroom/materials/texture_map.hpp
@@ -162,7 +162,7 @@ namespace sprout {
 				Texture const& texture, Unit const& scale,
 				Unit const& offset_u = 0, Unit const& offset_v = 0,
 				typename sprout::darkroom::materials::texture_map<Texture, Unit>::result_type const& default_color
-					= typename sprout::darkroom::materials::texture_map<Texture, Unit>::result_typ(),
+					= typename sprout::darkroom::materials::texture_map<Texture, Unit>::result_type(),
 				sprout::darkroom::materials::interpolation_type::values interpolation_value
 					= sprout::darkroom::materials::interpolation_type::nearest_neighbor,
 				sprout::darkroom::materials::texture_map_placement::values placement_value
-- 
2.43.0


From d0be359c50fc2de5f0c8e2cf45133cb715d8508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:49 +0000
Subject: [PATCH 250/275] fix: make_plaid returns the element type of its scale

---
 sprout/darkroom/materials/plaid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/darkroom/materials/plaid.hpp b/sprout/darkroom/materials/plaid.hpp
index c31b96d..811f344 100644
--- a/sprout/darkroom/materials/plaid.hpp
+++ b/sprout/darkroom/materials/plaid.hpp
@@ -70,7 +70,7 @@ namespace sprout {
 				return sprout::darkroom::materials::plaid_element<Element>(elem1, elem2);
 			}
 			template<typename Element, typename Unit>
-			inline SPROUT_CONSTEXPR sprout::darkroom::materials::plaid_element<Element>
+			inline SPROUT_CONSTEXPR sprout::darkroom::materials::plaid_element<Element, Unit>
 			make_plaid(Element const& elem1, Element const& elem2, Unit const& scale) {
 				return sprout::darkroom::materials::plaid_element<Element, Unit>(elem1, elem2, scale);
 			}
-- 
2.43.0


From 9b51593f4aeb3b63e158f3cff048bbc6c9323e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:22 +0000
Subject: [PATCH 251/275] fix: plaid pattern is periodic at negative multiples
 of its scale

---
 sprout/darkroom/materials/plaid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/darkroom/materials/plaid.hpp b/sprout/darkroom/materials/plaid.hpp
index 811f344..bf5b45a 100644
--- a/sprout/darkroom/materials/plaid.hpp
+++ b/sprout/darkroom/materials/plaid.hpp
@@ -47,13 +47,13 @@ namespace sprout {
 				SPROUT_CONSTEXPR result_type
 				operator()(Unit const& u, Unit const& v) const {
 					return calculate_1(
-						(u < 0
+						(sprout::fmod(u, scale_) < 0
 							? scale_ + sprout::fmod(u, scale_)
 							: sprout::fmod(u, scale_)
 							)
 							- scale_ / 2
 							,
-						(v < 0
+						(sprout::fmod(v, scale_) < 0
 							? scale_ + sprout::fmod(v, scale_)
 							: sprout::fmod(v, scale_)
 							)
-- 
2.43.0


From 5305d42b59499c31a5061448fc615c0b1784b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:22 +0000
Subject: [PATCH 252/275] fix: set_union and set_symmetric_difference can be
 evaluated in constant expressions

---
 sprout/algorithm/cxx14/set_symmetric_difference.hpp | 4 ++--
 sprout/algorithm/cxx14/set_union.hpp                | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/algorithm/cxx14/set_symmetric_difference.hpp b/sprout/algorithm/cxx14/set_symmetric_difference.hpp
index 9ceaf07..f74921c 100644
--- a/sprout/algorithm/cxx14/set_symmetric_difference.hpp
+++ b/sprout/algorithm/cxx14/set_symmetric_difference.hpp
@@ -26,10 +26,10 @@ namespace sprout {
 	set_symmetric_difference(InputIterator1 first1, InputIterator1 last1, InputIterator2 first2, InputIterator2 last2, OutputIterator result, Compare comp) {
 		while (true) {
 			if (first1 == last1) {
-				return std::copy(first2, last2, result);
+				return sprout::copy(first2, last2, result);
 			}
 			if (first2 == last2) {
-				return std::copy(first1, last1, result);
+				return sprout::copy(first1, last1, result);
 			}
 			if (comp(*first1, *first2)) {
 				*result = *first1;
diff --git a/sprout/algorithm/cxx14/set_union.hpp b/sprout/algorithm/cxx14/set_union.hpp
index 10bf241..6bb59e1 100644
--- a/sprout/algorithm/cxx14/set_union.hpp
+++ b/sprout/algorithm/cxx14/set_union.hpp
@@ -26,10 +26,10 @@ namespace sprout {
 	set_union(InputIterator1 first1, InputIterator1 last1, InputIterator2 first2, InputIterator2 last2, OutputIterator result, Compare comp) {
 		while (true) {
 			if (first1 == last1) {
-				return std::copy(first2, last2, result);
+				return sprout::copy(first2, last2, result);
 			}
 			if (first2 == last2) {
-				return std::copy(first1, last1, result);
+				return sprout::copy(first1, last1, result);
 			}
 			if (comp(*first1, *first2)) {
 				*result = *first1;
-- 
2.43.0


From 5124146b4b658d677a3c7826a80837803c404151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:08 +0000
Subject: [PATCH 253/275] fix: stable_sort of an empty sub_array does not
 dereference its end

---
 sprout/algorithm/fixed/stable_sort.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sprout/algorithm/fixed/stable_sort.hpp b/sprout/algorithm/fixed/stable_sort.hpp
index 218f266..57ad944 100644
--- a/sprout/algorithm/fixed/stable_sort.hpp
+++ b/sprout/algorithm/fixed/stable_sort.hpp
@@ -179,15 +179,17 @@ namespace sprout {
 				typename sprout::container_traits<Container>::size_type size
 				)
 			{
-				return sprout::fixed::detail::stable_sort_impl_1(
-					cont, comp,
-					size,
-					sprout::next(sprout::begin(cont)),
-					sprout::end(cont),
-					*sprout::begin(cont),
-					1,
-					sprout::begin(cont)
-					);
+				return size == 0 ? sprout::deep_copy(cont)
+					: sprout::fixed::detail::stable_sort_impl_1(
+						cont, comp,
+						size,
+						sprout::next(sprout::begin(cont)),
+						sprout::end(cont),
+						*sprout::begin(cont),
+						1,
+						sprout::begin(cont)
+						)
+					;
 			}
 			template<typename Container, typename Compare>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 4a94d8153aa488ac74f62aac224c4be0f0ab542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:53 +0000
Subject: [PATCH 254/275] fix: give quaternion l1 its own include guard

---
 sprout/math/quaternion/l1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/math/quaternion/l1.hpp b/sprout/math/quaternion/l1.hpp
index 910b15d..81033a2 100644
--- a/sprout/math/quaternion/l1.hpp
+++ b/sprout/math/quaternion/l1.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_MATH_QUATERNION_SUP_HPP
-#define SPROUT_MATH_QUATERNION_SUP_HPP
+#ifndef SPROUT_MATH_QUATERNION_L1_HPP
+#define SPROUT_MATH_QUATERNION_L1_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/array/array.hpp>
@@ -35,4 +35,4 @@ namespace sprout {
 	using sprout::math::l1;
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_MATH_QUATERNION_SUP_HPP
+#endif	// #ifndef SPROUT_MATH_QUATERNION_L1_HPP
-- 
2.43.0


From e99a13037b7876fee1c48da8799a97fead20b028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:53 +0000
Subject: [PATCH 255/275] fix: quaternion of a floating type keeps its second
 component

---
 sprout/math/quaternion/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/quaternion/quaternion.hpp b/sprout/math/quaternion/quaternion.hpp
index e1988e5..9be6bba 100644
--- a/sprout/math/quaternion/quaternion.hpp
+++ b/sprout/math/quaternion/quaternion.hpp
@@ -370,7 +370,7 @@ namespace sprout {
 				type const& requested_c = static_cast<type>(0), \
 				type const& requested_d = static_cast<type>(0) \
 				) \
-				: elems_{{requested_a, requested_a, requested_c, requested_d}} \
+				: elems_{{requested_a, requested_b, requested_c, requested_d}} \
 			{} \
 			explicit SPROUT_CONSTEXPR quaternion( \
 				sprout::complex<type> const& z0, \
-- 
2.43.0


From 189cccb2beb6d33a36f83d0ec5d3a7bf576d0c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:53 +0000
Subject: [PATCH 256/275] fix: quaternion::cend is the end

---
 sprout/math/quaternion/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/quaternion/quaternion.hpp b/sprout/math/quaternion/quaternion.hpp
index 9be6bba..1da7e86 100644
--- a/sprout/math/quaternion/quaternion.hpp
+++ b/sprout/math/quaternion/quaternion.hpp
@@ -281,7 +281,7 @@ namespace sprout {
 				return elems_.cbegin();
 			}
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-				return elems_.cbegin();
+				return elems_.cend();
 			}
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 				return elems_.crbegin();
@@ -580,7 +580,7 @@ namespace sprout {
 				return elems_.cbegin(); \
 			} \
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT { \
-				return elems_.cbegin(); \
+				return elems_.cend(); \
 			} \
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT { \
 				return elems_.crbegin(); \
-- 
2.43.0


From 327b8cca0d575f750b3e07334bf956787d7c47fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:53 +0000
Subject: [PATCH 257/275] fix: subtracting a quaternion negates all of its
 components

---
 sprout/math/quaternion/arithmetic_operators.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 89c90ea..5d7b488 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -74,9 +74,9 @@ namespace sprout {
 		operator-(T const& lhs, sprout::math::quaternion<T> const& rhs) {
 			return sprout::math::quaternion<T>(
 				lhs - rhs.R_component_1(),
-				rhs.R_component_2(),
-				rhs.R_component_3(),
-				rhs.R_component_4()
+				-rhs.R_component_2(),
+				-rhs.R_component_3(),
+				-rhs.R_component_4()
 				);
 		}
 		template<typename T>
@@ -95,8 +95,8 @@ namespace sprout {
 			return sprout::math::quaternion<T>(
 				lhs.real() - rhs.R_component_1(),
 				lhs.imag() - rhs.R_component_2(),
-				rhs.R_component_3(),
-				rhs.R_component_4()
+				-rhs.R_component_3(),
+				-rhs.R_component_4()
 				);
 		}
 		template<typename T>
-- 
2.43.0


From 65c50207b1a5430dd44c210f1c6b1742e8538961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:53 +0000
Subject: [PATCH 258/275] fix: multiply quaternions by complex numbers

---
 .../math/quaternion/arithmetic_operators.hpp  | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 5d7b488..97da55a 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -153,21 +153,31 @@ namespace sprout {
 					-c * br + d * ar
 					);
 			}
+			template<typename T>
+			inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
+			mul_cq_impl(T const& a, T const& b, T const& c, T const& d, T const& al, T const& bl) {
+				return sprout::math::quaternion<T>(
+					+al * a - bl * b,
+					+al * b + bl * a,
+					+al * c - bl * d,
+					+al * d + bl * c
+					);
+			}
 		}	// namespace detail
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator*(sprout::complex<T> const& lhs, sprout::math::quaternion<T> const& rhs) {
-			return sprout::math::detail::mul_qc_impl(
-				lhs.R_component_1(), lhs.R_component_2(), lhs.R_component_3(), lhs.R_component_4(),
-				rhs.real(), rhs.imag()
+			return sprout::math::detail::mul_cq_impl(
+				rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4(),
+				lhs.real(), lhs.imag()
 				);
 		}
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator*(sprout::math::quaternion<T> const& lhs, sprout::complex<T> const& rhs) {
 			return sprout::math::detail::mul_qc_impl(
-				rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4(),
-				lhs.real(), lhs.imag()
+				lhs.R_component_1(), lhs.R_component_2(), lhs.R_component_3(), lhs.R_component_4(),
+				rhs.real(), rhs.imag()
 				);
 		}
 		namespace detail {
-- 
2.43.0


From 4611f68e5a4e7317e77332b5abeed5fedeab5418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:53 +0000
Subject: [PATCH 259/275] fix: dividing a real by a quaternion multiplies by
 its inverse

---
 .../math/quaternion/arithmetic_operators.hpp   | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 97da55a..52d32aa 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -205,16 +205,6 @@ namespace sprout {
 		//
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
-		operator/(T const& lhs, sprout::math::quaternion<T> const& rhs) {
-			return sprout::math::quaternion<T>(
-				lhs / rhs.R_component_1(),
-				lhs / rhs.R_component_2(),
-				lhs / rhs.R_component_3(),
-				lhs / rhs.R_component_4()
-				);
-		}
-		template<typename T>
-		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator/(sprout::math::quaternion<T> const& lhs, T const& rhs) {
 			return sprout::math::quaternion<T>(
 				lhs.R_component_1() / rhs,
@@ -269,6 +259,14 @@ namespace sprout {
 		}	// namespace detail
 		template<typename T>
 		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
+		operator/(T const& lhs, sprout::math::quaternion<T> const& rhs) {
+			return sprout::math::detail::div_qq_impl(
+				lhs, static_cast<T>(0), static_cast<T>(0), static_cast<T>(0),
+				sprout::array<T, 4>{{rhs.R_component_1(), rhs.R_component_2(), rhs.R_component_3(), rhs.R_component_4()}}
+				);
+		}
+		template<typename T>
+		inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 		operator/(sprout::complex<T> const& lhs, sprout::math::quaternion<T> const& rhs) {
 			return sprout::math::detail::div_qq_impl(
 				lhs.real(), lhs.imag(), static_cast<T>(0), static_cast<T>(0),
-- 
2.43.0


From 183adf7fe04ad40d3416b3fe3c581dbaa07ef9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:53 +0000
Subject: [PATCH 260/275] fix: make quaternion division compile

---
 sprout/math/quaternion/arithmetic_operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/quaternion/arithmetic_operators.hpp b/sprout/math/quaternion/arithmetic_operators.hpp
index 52d32aa..a27b8e8 100644
--- a/sprout/math/quaternion/arithmetic_operators.hpp
+++ b/sprout/math/quaternion/arithmetic_operators.hpp
@@ -224,7 +224,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR sprout::math::quaternion<T>
 			div_qq_impl_3(sprout::array<T, 4> const& tr, T const& mixam, sprout::array<T, 4> const& tt) {
-				return sprout::math::detail::div_qq_impl_3(
+				return sprout::math::detail::div_qq_impl_4(
 					sprout::math::detail::mul(tt, mixam / sprout::math::detail::sum(tr))
 					);
 			}
-- 
2.43.0


From 6cbd395f497e3fce7831df3a7399bb9715d7ba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:19 +0000
Subject: [PATCH 261/275] fix: absolute value of a quaternion

---
 sprout/math/quaternion/abs.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/math/quaternion/abs.hpp b/sprout/math/quaternion/abs.hpp
index 3888a9a..91b6cd1 100644
--- a/sprout/math/quaternion/abs.hpp
+++ b/sprout/math/quaternion/abs.hpp
@@ -31,15 +31,15 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR T
 			abs_q_impl_2(sprout::array<T, 4> const& temp, T const& maxim) {
 				return sprout::math::detail::abs_q_impl_3(
-					sprout::math::detail::mul(temp, maxim), maxim
+					sprout::math::detail::mul(temp, static_cast<T>(1) / maxim), maxim
 					);
 			}
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			abs_q_impl_1(sprout::array<T, 4> const& temp, T const& maxim) {
-				return maxim == static_cast<T>(0) ? sprout::math::quaternion<T>(maxim)
+				return maxim == static_cast<T>(0) ? maxim
 					: sprout::math::detail::abs_q_impl_2(
-						temp, static_cast<T>(1) / maxim
+						temp, maxim
 						)
 					;
 			}
-- 
2.43.0


From 8ff2d01c7b06a766e55f6391ce398d3267ad80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:45 +0000
Subject: [PATCH 262/275] fix: let sprout::tuples::get find tuple_get of a
 quaternion

---
 sprout/math/quaternion/tuple.hpp | 42 +++++++++++++++++---------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/sprout/math/quaternion/tuple.hpp b/sprout/math/quaternion/tuple.hpp
index f5cd0d6..8dd6a67 100644
--- a/sprout/math/quaternion/tuple.hpp
+++ b/sprout/math/quaternion/tuple.hpp
@@ -114,26 +114,28 @@ namespace std {
 }	// namespace std
 
 namespace sprout {
-	//
-	// tuple_get
-	//
-	template<std::size_t I, typename T>
-	inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&
-	tuple_get(sprout::math::quaternion<T>& t) SPROUT_NOEXCEPT {
-		static_assert(I < 4, "tuple_get: index out of range");
-		return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
-	}
-	template<std::size_t I, typename T>
-	inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type const&
-	tuple_get(sprout::math::quaternion<T> const& t) SPROUT_NOEXCEPT {
-		static_assert(I < 4, "tuple_get: index out of range");
-		return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
-	}
-	template<std::size_t I, typename T>
-	inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&&
-	tuple_get(sprout::math::quaternion<T>&& t) SPROUT_NOEXCEPT {
-		return sprout::move(sprout::tuples::get<I>(t));
-	}
+	namespace math {
+		//
+		// tuple_get
+		//
+		template<std::size_t I, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&
+		tuple_get(sprout::math::quaternion<T>& t) SPROUT_NOEXCEPT {
+			static_assert(I < 4, "tuple_get: index out of range");
+			return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
+		}
+		template<std::size_t I, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type const&
+		tuple_get(sprout::math::quaternion<T> const& t) SPROUT_NOEXCEPT {
+			static_assert(I < 4, "tuple_get: index out of range");
+			return sprout::tuples::detail::get_impl<I, sprout::math::quaternion<T> >()(t);
+		}
+		template<std::size_t I, typename T>
+		inline SPROUT_CONSTEXPR typename sprout::tuples::tuple_element<I, sprout::math::quaternion<T> >::type&&
+		tuple_get(sprout::math::quaternion<T>&& t) SPROUT_NOEXCEPT {
+			return sprout::move(sprout::tuples::get<I>(t));
+		}
+	}	// namespace math
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_MATH_QUATERNION_TUPLE_HPP
-- 
2.43.0


From 89e8c751b5f7c99a10d5a676b723299f71b71144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:45 +0000
Subject: [PATCH 263/275] fix: keep a real quaternion read at the end of the
 text

---
 sprout/math/quaternion/stream_operators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/quaternion/stream_operators.hpp b/sprout/math/quaternion/stream_operators.hpp
index 5f215c4..d66303f 100644
--- a/sprout/math/quaternion/stream_operators.hpp
+++ b/sprout/math/quaternion/stream_operators.hpp
@@ -186,7 +186,7 @@ namespace sprout {
 			} else {
 				lhs.putback(ch);
 				lhs >> a;
-				if (!lhs.good()) {
+				if (lhs.fail()) {
 					goto finish;
 				}
 				rhs = sprout::math::quaternion<T>(a);
-- 
2.43.0


From e1a766f6765caace30f4f73c35ded7e1e462f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:03 +0000
Subject: [PATCH 264/275] fix: sprout::empty(boost::array) says whether the
 array is empty

---
 sprout/container/boost/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/container/boost/array.hpp b/sprout/container/boost/array.hpp
index e3ee55c..d072e54 100644
--- a/sprout/container/boost/array.hpp
+++ b/sprout/container/boost/array.hpp
@@ -81,7 +81,7 @@ namespace sprout {
 		}
 		static SPROUT_CONSTEXPR typename sprout::container_traits<boost::array<T, N> const>::size_type
 		range_empty(boost::array<T, N> const& cont) {
-			return N != 0;
+			return N == 0;
 		}
 		// element access:
 		static SPROUT_CONSTEXPR typename sprout::container_traits<boost::array<T, N> >::reference
-- 
2.43.0


From 707b24197d70d6033ebe8d2e557e4636a58592ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:03 +0000
Subject: [PATCH 265/275] fix: sprout::back of a non-const container without
 back() gives its last element

---
 sprout/container/detail/range_back.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/container/detail/range_back.hpp b/sprout/container/detail/range_back.hpp
index d9a9462..62d6af1 100644
--- a/sprout/container/detail/range_back.hpp
+++ b/sprout/container/detail/range_back.hpp
@@ -91,7 +91,7 @@ namespace sprout {
 			typename sprout::container_traits<Container>::reference
 		>::type
 		range_back_impl(Container& cont) {
-			return *sprout::begin(cont);
+			return *sprout::next(sprout::begin(cont), sprout::size(cont) - 1);
 		}
 		template<typename Container>
 		inline SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From caac39c198c7b139dcdc70e947efc8b0ba6c684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:17 +0000
Subject: [PATCH 266/275] fix: forward_clist::empty says whether the list is
 empty

---
 sprout/forward_clist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 5a8347a..6f5c1f2 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -375,7 +375,7 @@ namespace sprout {
 		}
 		// capacity:
 		SPROUT_CONSTEXPR bool empty() const SPROUT_NOEXCEPT {
-			return !!fst.next;
+			return !fst.next;
 		}
 		SPROUT_CONSTEXPR size_type max_size() const SPROUT_NOEXCEPT {
 			return sprout::numeric_limits<size_type>::max();
-- 
2.43.0


From 464d734737281a9ced2c2e7a0524a8c9e6e01996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:17 +0000
Subject: [PATCH 267/275] fix: forward_clist::before_begin compiles on a const
 list and cbefore_begin is before the first item

---
 sprout/forward_clist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 6f5c1f2..40dcd36 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -350,7 +350,7 @@ namespace sprout {
 			return iterator(item_holder_type(fst));
 		}
 		SPROUT_CONSTEXPR const_iterator before_begin() const SPROUT_NOEXCEPT {
-			return const_iterator(item_holder_type(fst));
+			return const_iterator(item_holder_type(const_cast<item&>(fst)));
 		}
 		SPROUT_CXX14_CONSTEXPR iterator begin() SPROUT_NOEXCEPT {
 			return iterator(fst.next);
@@ -368,7 +368,7 @@ namespace sprout {
 			return const_iterator(fst.next);
 		}
 		SPROUT_CONSTEXPR const_iterator cbefore_begin() const SPROUT_NOEXCEPT{
-			return const_iterator(fst.next);
+			return before_begin();
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
 			return const_iterator();
-- 
2.43.0


From e07e484f0de3f222816f32809df7aceeeeae320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:17 +0000
Subject: [PATCH 268/275] fix: the range forms of forward_clist's constructor,
 push_front and insert_after compile

---
 sprout/forward_clist.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 40dcd36..9ab3f46 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -329,7 +329,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(fst.next);
 			for (; first != last; ++first) {
 				*p = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR forward_clist(forward_clist&& x)
@@ -399,7 +399,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(fst.next);
 			for (; first != last; ++first) {
 				*p = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 			*p = nxt;
 		}
@@ -422,7 +422,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(pos);
 			for (; first != last; ++first) {
 				(*p)->next = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 			(*p)->next = nxt;
 			return iterator(*p);
-- 
2.43.0


From e64e492053186234687c990af1acf20aca1f4ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:17 +0000
Subject: [PATCH 269/275] fix: forward_clist move construction takes the items
 over; move assignment and swap compile

---
 sprout/forward_clist.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 9ab3f46..6fe1aba 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -333,10 +333,13 @@ namespace sprout {
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR forward_clist(forward_clist&& x)
-			: fst(sprout::move(x.fst))
-		{}
+			: fst()
+		{
+			swap(x);
+		}
 		SPROUT_CXX14_CONSTEXPR forward_clist& operator=(forward_clist&& x) {
-			fst = sprout::move(x.fst);
+			forward_clist temp(sprout::move(x));
+			temp.swap(*this);
 			return *this;
 		}
 		template<typename InputIterator>
@@ -446,7 +449,7 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void swap(forward_clist& other) {
-			sprout::swap(fst, other.fst);
+			fst.swap(other.fst);
 		}
 		SPROUT_CXX14_CONSTEXPR void clear() SPROUT_NOEXCEPT {
 			fst.unlink_all();
-- 
2.43.0


From 5d87994cdb3ddd7869dd404cdccb69df545d7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:17 +0000
Subject: [PATCH 270/275] fix: assigning a value to a forward_clist item
 compiles

---
 sprout/forward_clist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 6fe1aba..b7194ec 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -278,12 +278,12 @@ namespace sprout {
 
 			SPROUT_CXX14_CONSTEXPR item& operator=(typename holder_type::argument_type p) {
 				item temp(p, next);
-				temp.swap(p);
+				temp.swap(*this);
 				return *this;
 			}
 			SPROUT_CXX14_CONSTEXPR item& operator=(typename holder_type::movable_argument_type p) {
 				item temp(sprout::move(p), next);
-				temp.swap(p);
+				temp.swap(*this);
 				return *this;
 			}
 
-- 
2.43.0


From c7eeffdfbc62fa0902bda4bc5279052b48b63669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:42 +0000
Subject: [PATCH 271/275] fix: a chained comparison with a comparator stops at
 the first comparison that fails

---
 sprout/utility/comparison.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/utility/comparison.hpp b/sprout/utility/comparison.hpp
index e0fbae4..8721331 100644
--- a/sprout/utility/comparison.hpp
+++ b/sprout/utility/comparison.hpp
@@ -229,7 +229,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::less_comparison<U, Compare>
 	operator<(sprout::less_comparison<T, Compare> const& lhs, U const& rhs) {
-		return lhs.comp()(lhs.get(), rhs) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && lhs.comp()(lhs.get(), rhs) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::less_comparison<U, Compare>()
 			;
 	}
@@ -260,7 +260,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::less_comparison<U, Compare>
 	operator<=(sprout::less_comparison<T, Compare> const& lhs, U const& rhs) {
-		return !lhs.comp()(rhs, lhs.get()) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && !lhs.comp()(rhs, lhs.get()) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::less_comparison<U, Compare>()
 			;
 	}
@@ -366,7 +366,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<U, Compare>
 	operator>(sprout::greater_comparison<T, Compare> const& lhs, U const& rhs) {
-		return lhs.comp()(rhs, lhs.get()) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && lhs.comp()(rhs, lhs.get()) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::greater_comparison<U, Compare>()
 			;
 	}
@@ -397,7 +397,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<U, Compare>
 	operator>=(sprout::greater_comparison<T, Compare> const& lhs, U const& rhs) {
-		return !lhs.comp()(lhs.get(), rhs) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && !lhs.comp()(lhs.get(), rhs) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::greater_comparison<U, Compare>()
 			;
 	}
@@ -492,7 +492,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::equal_comparison<U, Compare>
 	operator==(sprout::equal_comparison<T, Compare> const& lhs, U const& rhs) {
-		return !lhs.comp()(lhs.get(), rhs) && !lhs.comp()(rhs, lhs.get()) ? sprout::equal_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && !lhs.comp()(lhs.get(), rhs) && !lhs.comp()(rhs, lhs.get()) ? sprout::equal_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::equal_comparison<U, Compare>()
 			;
 	}
-- 
2.43.0


From 6150d3e62576b3ae44626d9cbc40812dfcdc702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:42 +0000
Subject: [PATCH 272/275] fix: sprout::comp->*cmp > a, >= a and == a compile

---
 sprout/utility/comparison.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/utility/comparison.hpp b/sprout/utility/comparison.hpp
index 8721331..2b672e4 100644
--- a/sprout/utility/comparison.hpp
+++ b/sprout/utility/comparison.hpp
@@ -329,7 +329,7 @@ namespace sprout {
 	template<typename T, typename Compare>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<T, Compare>
 	operator>(sprout::comparison_forwarder<Compare> const& lhs, T const& rhs) {
-		return sprout::greater_comparison<T>(rhs, lhs.comp());
+		return sprout::greater_comparison<T, Compare>(rhs, lhs.comp());
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<T>
@@ -339,7 +339,7 @@ namespace sprout {
 	template<typename T, typename Compare>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<T, Compare>
 	operator>=(sprout::comparison_forwarder<Compare> const& lhs, T const& rhs) {
-		return sprout::greater_comparison<T>(rhs, lhs.comp());
+		return sprout::greater_comparison<T, Compare>(rhs, lhs.comp());
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<T>
@@ -465,7 +465,7 @@ namespace sprout {
 	template<typename T, typename Compare>
 	inline SPROUT_CONSTEXPR sprout::equal_comparison<T, Compare>
 	operator==(sprout::comparison_forwarder<Compare> const& lhs, T const& rhs) {
-		return sprout::equal_comparison<T>(rhs, lhs.comp());
+		return sprout::equal_comparison<T, Compare>(rhs, lhs.comp());
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR sprout::equal_comparison<T>
-- 
2.43.0


From e835f1e1d6038608d96bac494b3b2a6e9b547f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:10 +0000
Subject: [PATCH 273/275] fix: to_time_t from date and time texts compiles

---
 sprout/ctime/to_time_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/ctime/to_time_t.hpp b/sprout/ctime/to_time_t.hpp
index 31309fd..0607164 100644
--- a/sprout/ctime/to_time_t.hpp
+++ b/sprout/ctime/to_time_t.hpp
@@ -47,7 +47,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR int
 		get_num(Elem c) {
 			return !sprout::isdigit(c) ? 0
-				: sprout::detail::char_to_int(c)
+				: sprout::detail::char_to_int<int>(c)
 				;
 		}
 		template<typename InputIterator>
-- 
2.43.0


From 2978f653689e27c2610176f11ea0e3b40379556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:08 +0000
Subject: [PATCH 274/275] fix: limited::plus and limited::multiplies of
 negative floating point numbers clamp at the lowest value

---
 sprout/utility/limited.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/utility/limited.hpp b/sprout/utility/limited.hpp
index 186be98..81dd5da 100644
--- a/sprout/utility/limited.hpp
+++ b/sprout/utility/limited.hpp
@@ -23,8 +23,8 @@ namespace sprout {
 			typedef typename sprout::arithmetic_promote<T, U>::type type;
 			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() - lhs < rhs
 					? sprout::numeric_limits<type>::max()
-				: lhs < 0 && rhs < 0 && sprout::numeric_limits<type>::min() - lhs > rhs
-					? sprout::numeric_limits<type>::min()
+				: lhs < 0 && rhs < 0 && sprout::numeric_limits<type>::lowest() - lhs > rhs
+					? sprout::numeric_limits<type>::lowest()
 				: lhs + rhs
 				;
 		}
@@ -38,10 +38,10 @@ namespace sprout {
 			typedef typename sprout::arithmetic_promote<T, U>::type type;
 			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs < rhs
 					? sprout::numeric_limits<type>::max()
-				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / lhs > rhs
-					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / rhs > lhs
-					? sprout::numeric_limits<type>::min()
+				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::lowest() / lhs > rhs
+					? sprout::numeric_limits<type>::lowest()
+				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::lowest() / rhs > lhs
+					? sprout::numeric_limits<type>::lowest()
 				: lhs < 0 && rhs < 0 && sprout::numeric_limits<type>::max() / rhs > lhs
 					? sprout::numeric_limits<type>::max()
 				: lhs * rhs
-- 
2.43.0


From 0ec442b9602248a9c12a5f8aa17b86709b733864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:49 +0000
Subject: [PATCH 275/275] fix: sprout::reinter_cast and
 reinterpret_pointer_cast of raw pointers compile

---
 sprout/utility/reinter_cast.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/reinter_cast.hpp b/sprout/utility/reinter_cast.hpp
index 70a076d..3481006 100644
--- a/sprout/utility/reinter_cast.hpp
+++ b/sprout/utility/reinter_cast.hpp
@@ -23,7 +23,7 @@ namespace sprout {
 					&& std::is_same<typename std::decay<From>::type, typename std::decay<To>::type>::value
 					&& std::is_convertible<From, To>::value
 					)
-					|| ((std::is_integral<To>::type || std::is_enum<To>::type || std::is_pointer<To>::type)
+					|| ((std::is_integral<To>::value || std::is_enum<To>::value || std::is_pointer<To>::value)
 						&& std::is_same<typename std::decay<From>::type, To>::value
 						)
 
-- 
2.43.0

