From 204ad1f7513112227d668ec16a2497e6248c2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 01/19] fix: vector::erase of an empty range must not self-move
 the following elements

---
 inc/ptl/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 022cba1..544a01c 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -340,6 +340,7 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
+			if(count == 0) return first; //nothing to erase - moving would self-assign all elements after first
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-- 
2.43.0


From a999311b4d629fe68ed9d3504197e5e79d2415fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 02/19] fix: vector assign/insert of huge counts wrapped around
 and wrote out of bounds

---
 inc/ptl/vector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 544a01c..c4cf949 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -188,7 +188,7 @@ namespace ptl {
 
 		template<typename Func>
 		void assign_impl(std::size_t required_size, Func func) {
-			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
+			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(data(), data() + size(), data() + size() + required_size);
 				std::destroy_n(data() + required_size, size());
@@ -204,11 +204,12 @@ namespace ptl {
 		template<typename Func>
 		auto insert_impl(contiguous_iterator<true> pos, std::size_t required_size, Func func) {
 			const auto offset{pos.ptr - data()};
-			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
+			if(required_size <= capacity() - size()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(const_cast<Type *>(pos.ptr), data() + size(), data() + size() + required_size);
 				storage.set_size(size() + required_size);
 			} else { //do single allocation
+				if(required_size > max_size() - size()) throw std::length_error{"ptl::vector - insertion attempting to exceed max_size"};
 				storage_t tmp{size() + std::max(size(), required_size)}; //TODO: evaluate performance of growth influenced by max(size, required_size)
 				func(tmp.data() + offset);
 				std::uninitialized_move_n(data(), offset, tmp.data());
-- 
2.43.0


From 96c307a67bd6cb0735700473035cab157a8c95a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 03/19] fix: vector::shrink_to_fit terminated the process when
 memory was exhausted

---
 inc/ptl/vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index c4cf949..fc4bcfc 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -320,10 +320,12 @@ namespace ptl {
 		void shrink_to_fit() noexcept {
 			if(size() * 2 >= capacity()) return; //TODO: better criteria for "excess memory usage"
 
-			storage_t tmp{size()};
-			std::uninitialized_move_n(data(), size(), tmp.data());
-			tmp.set_size(size());
-			storage = std::move(tmp);
+			try {
+				storage_t tmp{size()};
+				std::uninitialized_move_n(data(), size(), tmp.data());
+				tmp.set_size(size());
+				storage = std::move(tmp);
+			} catch(const std::bad_alloc &) {} //non-binding request: keep the current storage if no smaller one is available
 		}
 
 		void clear() noexcept {
-- 
2.43.0


From d822d6aa3400cce16613dd592a706dbc47d7dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 04/19] fix: vector::resize within capacity reallocated (and
 could fail or give up reserved capacity)

---
 inc/ptl/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index fc4bcfc..f98484b 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -224,7 +224,10 @@ namespace ptl {
 		void resize_impl(std::size_t new_size, Func func) {
 			if(new_size == size()) return;
 			if(new_size < size()) erase(begin() + new_size, end());
-			else {
+			else if(new_size <= capacity()) { //no need for allocation
+				func(data() + size(), new_size - size());
+				storage.set_size(new_size);
+			} else {
 				storage_t tmp{new_size};
 				func(tmp.data() + size(), new_size - size());
 				std::uninitialized_move_n(data(), size(), tmp.data());
-- 
2.43.0


From af9be733f7d4e4f80955a9d4cb8703336b3852b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 05/19] fix: string lost its terminator when a source iterator
 threw during an in-place modification

---
 inc/ptl/string.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 317ff17..53a3299 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -244,6 +244,16 @@ namespace ptl {
 			return tmp;
 		}
 
+		template<typename ForwardIterator>
+		void copy_behind_end(ForwardIterator first, ForwardIterator last) { //TODO: [C++??] precondition(size() + std::distance(first, last) <= capacity());
+			try {
+				std::copy(first, last, data() + size());
+			} catch(...) {
+				storage.set_size(size()); //restore the overwritten terminator
+				throw;
+			}
+		}
+
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
@@ -427,7 +437,7 @@ namespace ptl {
 		void append(ForwardIterator first, ForwardIterator last) {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
 				storage_t tmp{size() + distance};
@@ -446,7 +456,7 @@ namespace ptl {
 		template<typename ForwardIterator, std::enable_if_t<std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<ForwardIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
 		void assign(ForwardIterator first, ForwardIterator last) {
 			if(const auto distance{static_cast<std::size_t>(std::distance(first, last))}; distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(data(), data() + size(), data() + size() + distance);
 				storage.set_size(distance);
 			} else {
@@ -474,7 +484,7 @@ namespace ptl {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			const auto offset{pos.ptr - data()};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(const_cast<char *>(pos.ptr), data() + size(), data() + size() + distance);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
@@ -502,7 +512,7 @@ namespace ptl {
 		auto replace(const_iterator first, const_iterator last, ForwardIterator first2, ForwardIterator last2) -> string & { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto distance{static_cast<std::size_t>(std::distance(first2, last2))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first2, last2, data() + size());
+				copy_behind_end(first2, last2);
 				const auto offset_first{first.ptr - data()};
 				const auto offset_mid{size() - (last - first)};
 				storage.set_size(size() + distance);
-- 
2.43.0


From 94e208df816b617afe04aef78c852df81df63bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 06/19] fix: string sizes beyond max_size wrapped around
 instead of being reported

---
 inc/ptl/string.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 53a3299..5e55cf3 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -53,6 +53,7 @@ namespace ptl {
 			storage_t() noexcept { clear_to_sso(); }
 
 			storage_t(std::size_t required) {
+				if(required > max_size()) throw std::length_error{"ptl::string - allocation attempting to exceed max_size"};
 				if(required > sso_size) {
 					dealloc = +[](char * ptr) noexcept { delete[] ptr; }; 
 					heap.siz = 0;
@@ -257,6 +258,7 @@ namespace ptl {
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string - append attempting to exceed max_size"};
 			resize(old + additional_size);
 			fill(old);
 		}
@@ -271,6 +273,7 @@ namespace ptl {
 		auto insert_no_aliasing(contiguous_iterator<true> pos, std::size_t additional_size, Func fill) {
 			const auto old{size()};
 			const auto offset{pos.ptr - data()};
+			if(additional_size > max_size() - old) throw std::length_error{"ptl::string - insert attempting to exceed max_size"};
 			resize(old + additional_size);
 			std::copy_backward(data() + offset, data() + old, data() + size());
 			fill();
@@ -282,6 +285,7 @@ namespace ptl {
 			const auto offset{first.ptr - data()};
 			if(const auto count{static_cast<std::size_t>(last - first)}; count < required_size) { //not enough space in target location
 				const auto old{size()};
+				if(required_size - count > max_size() - old) throw std::length_error{"ptl::string - replace attempting to exceed max_size"};
 				resize(size() + (required_size - count));
 				std::copy_backward(data() + offset + count, data() + old, data() + size());
 				fill(offset);
-- 
2.43.0


From f41254d00e01a08f70942e98339301154f05ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 07/19] fix: string literals dropped everything after an
 embedded zero and terminated when memory was exhausted

---
 inc/ptl/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 5e55cf3..82634b2 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -634,7 +634,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t) noexcept -> string { return string{ptr}; }
+		auto operator""_s(const char * ptr, std::size_t len) -> string { return string{std::string_view{ptr, len}}; }
 	}
 }
 
-- 
2.43.0


From 46eb3f8a33d28e5af98965c8a4e4a9068dc22a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:15 +0000
Subject: [PATCH 08/19] fix: variant::emplace destroyed the held value before a
 construction that could throw or read it

---
 inc/ptl/variant.hpp | 19 ++-----------------
 1 file changed, 2 insertions(+), 17 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 4ca70a5..72f71ef 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -120,14 +120,6 @@ namespace ptl {
 			return visit<Move>(indices, type, storage, combined_visitor{std::forward<Visitors>(visitors)...});
 		}
 
-		template<std::size_t... Indices, typename Storage, typename... Args>
-		constexpr
-		void emplace(std::index_sequence<Indices...>, std::size_t type, Storage & storage, Args &&... args) {  //TODO: [C++??] precondition(union in storage is uninitialized);
-			using Dispatch = void(*)(Storage &, Args &&...);
-			constexpr Dispatch dispatch[]{+[](Storage & storage, Args &&... args) { storage.template set<Indices>(std::forward<Args>(args)...); }...};
-			dispatch[type](storage, std::forward<Args>(args)...);
-		}
-
 		template<bool Move, typename Storage, std::size_t... Indices>
 		constexpr
 		void assign(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, std::conditional_t<Move, Storage, const Storage> & rhs) noexcept(Move) { //TODO: [C++??] precondition(lhs is uninitialized);
@@ -251,15 +243,8 @@ namespace ptl {
 		auto emplace(Args &&... args) -> decltype(auto) { return emplace<typename decltype(internal_variant::determine_type<Index, Head, Tail...>())::type>(std::forward<Args>(args)...); }
 		template<typename T, typename... Args, typename = std::enable_if_t<can_store<T>>> //TODO: [C++20] replace with concepts/requires-clause
 		auto emplace(Args &&... args) -> T & {
-			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
-				internal_variant::destroy(indices_t{}, type, storage);
-				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
-				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
-				type = index;
-			} else {
-				variant tmp{std::in_place_type<T>, std::forward<Args>(args)...};
-				*this = std::move(tmp);
-			}
+			variant tmp{std::in_place_type<T>, std::forward<Args>(args)...}; //constructed first, as args may throw or refer to the current value
+			*this = std::move(tmp);
 			return get<T>();
 		}
 
-- 
2.43.0


From bc8194dc5d7b2993a1dd71dd9c8a6e181540a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:42 +0000
Subject: [PATCH 09/19] fix: bitset extraction reported failure when the data
 ended after some digits or could not be put back

---
 inc/ptl/bitset.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 62c9a0e..5ee44d3 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -340,18 +340,17 @@ namespace ptl {
 			if(const std::istream::sentry s{is}; s) {
 				auto extracted{false};
 				for(size_type i{0}; i < Size; ++i) {
-					if(const auto c{is.get()}; c == '0' || c == '1') {
-						if(!extracted) {
-							extracted = true;
-							self.reset();
-						}
-						self <<= 1;
-						if(c == '1') self.set(0);
-					} else {
-						is.unget();
+					const auto c{is.peek()}; //not every source supports putting back a character
+					if((c != '0' && c != '1') || !is.ignore()) {
 						if(!extracted) is.setstate(std::ios::failbit);
 						break;
 					}
+					if(!extracted) {
+						extracted = true;
+						self.reset();
+					}
+					self <<= 1;
+					if(c == '1') self.set(0);
 				}
 			}
 			return is;
-- 
2.43.0


From 7f4c32379f879ce28df9edf53f61fee5b07479dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 10/19] fix: function_ref with a reference result returned a
 dangling reference to a copy

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index bad1646..ef624c6 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -44,7 +44,7 @@ namespace ptl {
 
 		template<typename R, typename F, typename... Args, typename = std::enable_if_t<std::is_invocable_r_v<R, F, Args...>>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) { //TODO: [C++23] replace with std::invoke_r
+		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) -> R { //TODO: [C++23] replace with std::invoke_r
 			if constexpr(std::is_void_v<R>) std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 			else return std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 		}
-- 
2.43.0


From 24e0f68120a37ff427ae0e05aea785740c2516c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 11/19] fix: string_ref literals dropped everything after an
 embedded zero

---
 inc/ptl/string_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/string_ref.hpp b/inc/ptl/string_ref.hpp
index 1fad606..05ec6ca 100644
--- a/inc/ptl/string_ref.hpp
+++ b/inc/ptl/string_ref.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 	namespace literals {
 		inline
 		constexpr
-		auto operator""_sr(const char * ptr, std::size_t) noexcept -> string_ref { return ptr; }
+		auto operator""_sr(const char * ptr, std::size_t len) noexcept -> string_ref { return {ptr, len}; }
 	}
 }
 
-- 
2.43.0


From 247f069a149961878232ca84a55b1ff21ab28a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:00 +0000
Subject: [PATCH 12/19] fix: swapping references to the same position of
 different bitsets did nothing

---
 inc/ptl/bitset.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 5ee44d3..225a59b 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -107,7 +107,6 @@ namespace ptl {
 
 			constexpr
 			void swap(reference & other) noexcept {
-				if(index == other.index) return;
 				const auto lhs{static_cast<bool>(*this)};
 				const auto rhs{static_cast<bool>(other)};
 				if(lhs == rhs) return;
-- 
2.43.0


From 378896d90fa5f649856f9deb35e13ce6a9beb3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:15 +0000
Subject: [PATCH 13/19] fix: function_ref with a const signature called the
 non-const overload of its target

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index ef624c6..2bc6681 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -112,7 +112,7 @@ namespace ptl {
 
 		template<typename F, typename T = std::remove_reference_t<F>, typename = std::enable_if_t<!std::is_same_v<function_ref, internal_function_ref::remove_cvref_t<F>> && !std::is_member_pointer_v<T> && traits::template is_invocable_using<typename traits::template const_<T> &>>>//TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		function_ref(F && func) noexcept : storage{std::addressof(func)}, dispatch{traits::template functor<T>} {}
+		function_ref(F && func) noexcept : storage{static_cast<typename traits::template const_<T> *>(std::addressof(func))}, dispatch{traits::template functor<typename traits::template const_<T>>} {}
 
 		constexpr
 		function_ref(const function_ref &) noexcept =default;
-- 
2.43.0


From caee81b79239a554bdf6efc54a8bb0a6580043ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 14/19] fix: reading a bit through bitset::reference recursed
 forever

---
 inc/ptl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 225a59b..7a01097 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -95,7 +95,7 @@ namespace ptl {
 			}
 
 			constexpr
-			operator bool() const noexcept { return self[index]; }
+			operator bool() const noexcept { return static_cast<const bitset &>(self)[index]; }
 			constexpr
 			auto operator~() const noexcept -> bool { return !static_cast<bool>(*this); }
 
-- 
2.43.0


From d89b0a26f2d2d3efa490ce36a0bf89563086d973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:18 +0000
Subject: [PATCH 15/19] fix: bitset: shift by at least the size in constant
 time

The shift operators moved the bits by one position count times, so that
a large count (valid, the result is all zeros) never finished.
---
 inc/ptl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 7a01097..c3fb3ae 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -234,6 +234,7 @@ namespace ptl {
 		constexpr
 		auto operator<<=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				if(count >= Size) return reset(); //would otherwise take time proportional to count
 				for(size_type i{0}; i < count; ++i) {
 					for(size_type j{sizeof(values) - 1}; j > 0; --j) {
 						values[j] = static_cast<unsigned char>(values[j] << 1);
@@ -255,6 +256,7 @@ namespace ptl {
 		constexpr
 		auto operator>>=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				if(count >= Size) return reset(); //would otherwise take time proportional to count
 				for(size_type i{0}; i < count; ++i) {
 					values[0] = static_cast<unsigned char>(values[0] >> 1);
 					for(size_type j{1}; j < sizeof(values); ++j) {
-- 
2.43.0


From fb94760cda6e60bb4e016ac38c8bad5bddfea795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:54 +0000
Subject: [PATCH 16/19] fix: copying or moving a value could select a
 constructor taking std::initializer_list and wrap the value

---
 inc/ptl/optional.hpp | 30 +++++++++++++++++++-----------
 inc/ptl/tuple.hpp    | 10 +++++++++-
 inc/ptl/variant.hpp  | 10 +++++++++-
 inc/ptl/vector.hpp   |  9 ++++++++-
 4 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/inc/ptl/optional.hpp b/inc/ptl/optional.hpp
index c64c57a..6e3a12b 100644
--- a/inc/ptl/optional.hpp
+++ b/inc/ptl/optional.hpp
@@ -27,6 +27,14 @@ namespace ptl {
 			Type val;
 		};
 		unsigned char initialized{false};
+
+		template<typename... Args>
+		static
+		constexpr
+		auto make(Args &&... args) -> Type {
+			if constexpr((sizeof...(Args) == 1) && (std::is_same_v<Type, std::remove_cv_t<std::remove_reference_t<Args>>> && ...)) return Type(std::forward<Args>(args)...); //copy or move: braces could select a constructor taking std::initializer_list<Type>
+			else return Type{std::forward<Args>(args)...};
+		}
 	public:
 		constexpr
 		optional() noexcept {}
@@ -34,19 +42,19 @@ namespace ptl {
 		optional(std::nullopt_t) noexcept {}
 
 		constexpr
-		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{other.val}; } //TODO: [C++20] use std::construct_at
+		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(other.val); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{std::move(other.val)}; } //TODO: [C++20] use std::construct_at
+		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(std::move(other.val)); } //TODO: [C++20] use std::construct_at
 
 		constexpr
-		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type{value}; } //TODO: [C++20] use std::construct_at
+		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type(value); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type{std::move(value)}; } //TODO: [C++20] use std::construct_at
+		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type(std::move(value)); } //TODO: [C++20] use std::construct_at
 
 		template<typename... Args>
 		constexpr
 		explicit
-		optional(std::in_place_t, Args &&... args) : initialized{true} { new(std::addressof(val)) Type{std::forward<Args>(args)...}; } //TODO: [C++20] use std::construct_at
+		optional(std::in_place_t, Args &&... args) : initialized{true} { new(std::addressof(val)) Type(make(std::forward<Args>(args)...)); } //TODO: [C++20] use std::construct_at
 
 		constexpr
 		auto operator=(std::nullopt_t) noexcept -> optional & {
@@ -75,7 +83,7 @@ namespace ptl {
 		auto operator=(const Type & value) -> optional & {
 			if(initialized) **this = value;
 			else {
-				new(std::addressof(val)) Type{value}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(value); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -84,7 +92,7 @@ namespace ptl {
 		auto operator=(Type && value) noexcept -> optional & {
 			if(initialized) **this = std::move(value);
 			else {
-				new(std::addressof(val)) Type{std::move(value)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(value)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -157,9 +165,9 @@ namespace ptl {
 		template<typename... Args>
 		constexpr
 		auto emplace(Args &&... args) -> Type & {
-			if(initialized) val = Type{std::forward<Args>(args)...};
+			if(initialized) val = make(std::forward<Args>(args)...);
 			else {
-				new(std::addressof(val)) Type{std::forward<Args>(args)...}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(make(std::forward<Args>(args)...)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return **this;
@@ -170,12 +178,12 @@ namespace ptl {
 			if(this == &other) return; //TODO: [C++20] use [[unlikely]]
 			if(!*this && !other) return;
 			else if(*this && !other) {
-				new(std::addressof(other.val)) Type{std::move(val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(other.val)) Type(std::move(val)); //TODO: [C++20] use std::construct_at
 				other.initialized = true;
 				std::destroy_at(std::addressof(val));
 				initialized = false;
 			} else if(!*this && other) {
-				new(std::addressof(val)) Type{std::move(other.val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(other.val)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 				std::destroy_at(std::addressof(other.val));
 				other.initialized = false;
diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index a2e4081..6b627b8 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -43,8 +43,16 @@ namespace ptl {
 		#pragma pack(push, 1)
 		template<typename Head, typename... Tail>
 		struct storage_t<Head, Tail...> : storage_t<Tail...> {
+			template<typename Arg>
+			static
+			constexpr
+			auto make(Arg && arg) -> Head {
+				if constexpr(std::is_same_v<Head, std::remove_cv_t<std::remove_reference_t<Arg>>>) return Head(std::forward<Arg>(arg)); //copy or move: braces could select a constructor taking std::initializer_list<Head>
+				else return Head{std::forward<Arg>(arg)};
+			}
+
 			template<typename Arg, typename... Args>
-			storage_t(Arg && arg, Args &&... args) : storage_t<Tail...>{std::forward<Args>(args)...}, value{std::forward<Arg>(arg)} {}
+			storage_t(Arg && arg, Args &&... args) : storage_t<Tail...>{std::forward<Args>(args)...}, value(make(std::forward<Arg>(arg))) {}
 
 			template<std::size_t Index>
 			constexpr
diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 72f71ef..11082eb 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -41,11 +41,19 @@ namespace ptl {
 				else return std::addressof(val);
 			}
 
+			template<typename... Args>
+			static
+			constexpr
+			auto make(Args &&... args) -> Head {
+				if constexpr((sizeof...(Args) == 1) && (std::is_same_v<Head, std::remove_cv_t<std::remove_reference_t<Args>>> && ...)) return Head(std::forward<Args>(args)...); //copy or move: braces could select a constructor taking std::initializer_list<Head>
+				else return Head{std::forward<Args>(args)...};
+			}
+
 			template<std::size_t I, typename... Args>
 			constexpr
 			void set(Args &&... args) { //TODO: [C++??] precondition(val is uninitialized);
 				if constexpr(I != 0) next.template set<I - 1>(std::forward<Args>(args)...);
-				else new(std::addressof(val)) Head{std::forward<Args>(args)...}; //TODO: [C++20] use std::construct_at here
+				else new(std::addressof(val)) Head(make(std::forward<Args>(args)...)); //TODO: [C++20] use std::construct_at here
 			}
 
 			template<std::size_t I>
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index f98484b..a6a1dcc 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -220,6 +220,13 @@ namespace ptl {
 			return begin() + offset;
 		}
 
+		template<typename... Args>
+		static
+		auto make(Args &&... args) -> Type {
+			if constexpr((sizeof...(Args) == 1) && (std::is_same_v<Type, std::remove_cv_t<std::remove_reference_t<Args>>> && ...)) return Type(std::forward<Args>(args)...); //copy or move: braces could select a constructor taking std::initializer_list<Type>
+			else return Type{std::forward<Args>(args)...};
+		}
+
 		template<typename Func>
 		void resize_impl(std::size_t new_size, Func func) {
 			if(new_size == size()) return;
@@ -365,7 +372,7 @@ namespace ptl {
 		auto insert(const_iterator pos, Type && value) -> iterator { return emplace(pos, std::move(value)); }
 		auto insert(const_iterator pos, size_type count, const Type & value) -> iterator { return insert_impl(pos, count, [&](auto pos) { std::uninitialized_fill_n(pos, count, value); }); }
 		template<typename... Args>
-		auto emplace(const_iterator pos, Args &&... args) -> iterator { return insert_impl(pos, 1, [&](auto pos) { new(pos) Type{std::forward<Args>(args)...}; }); } //TODO: [C++20] use construct_at
+		auto emplace(const_iterator pos, Args &&... args) -> iterator { return insert_impl(pos, 1, [&](auto pos) { new(pos) Type(make(std::forward<Args>(args)...)); }); } //TODO: [C++20] use construct_at
 
 		auto begin() const noexcept -> const_iterator { return data(); }
 		auto begin()       noexcept ->       iterator { return data(); }
-- 
2.43.0


From a8dd25b0fc88ba8e752c6b7c0734302708d96d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:06 +0000
Subject: [PATCH 17/19] fix: vector placed elements with extended alignment at
 misaligned addresses

---
 inc/ptl/vector.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index a6a1dcc..16a49b7 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -5,7 +5,9 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
+#include <cstddef>
 #include <memory>
 #include <iterator>
 #include <algorithm>
@@ -44,9 +46,14 @@ namespace ptl {
 				if(capacity == 0) return;
 				if(capacity > max_size()) throw std::length_error{"ptl::vector - allocation attempting to exceed max_size"};
 				capacity = std::max(min_capacity, capacity);
-				dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
-				ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
-				if(!ptr) throw std::bad_alloc{};
+				if constexpr(alignof(Type) > alignof(std::max_align_t)) { //calloc only supports fundamental alignments
+					dealloc = +[](Type * ptr) noexcept { ::operator delete(ptr, std::align_val_t{alignof(Type)}); };
+					ptr = static_cast<Type *>(::operator new(capacity * sizeof(Type), std::align_val_t{alignof(Type)}));
+				} else {
+					dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
+					ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
+					if(!ptr) throw std::bad_alloc{};
+				}
 				cap = capacity;
 				siz = 0;
 			}
-- 
2.43.0


From d249e2afb2b228bbb8a567a18f7387cb1866c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:17 +0000
Subject: [PATCH 18/19] fix: a tuple of one element could not be copied from a
 variable (the constructor for values was chosen)

---
 inc/ptl/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index 6b627b8..7187790 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -94,7 +94,7 @@ namespace ptl {
 
 		internal_tuple::storage_t<Types...> storage;
 	public:
-		template<typename... Args, typename = std::enable_if_t<sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0) && !(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cv_t<std::remove_reference_t<Args>>, tuple> && ...))>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		tuple(Args &&... args) : storage{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From 4dd9f2b0ae6257ccf20665a328119f8d37d3ecdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:17 +0000
Subject: [PATCH 19/19] fix: an array could not be made from variables or
 copied from an expiring constant (the constructor for values tested the wrong
 conversion)

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index dc13c95..79cb602 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Type, Args> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args, Type> &&...) && !(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cv_t<std::remove_reference_t<Args>>, array> && ...))>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0

