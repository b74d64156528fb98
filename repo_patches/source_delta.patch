From b58d845504f1c31b4e39ae7fefaa5c6bed863beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 01/57] fix: thread_pool::for_each overflowed for ranges
 touching the limits of the value type, and did not compile for some 64-bit
 types

---
 include/muu/thread_pool.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 13c9788..3bc802b 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -845,7 +845,7 @@ namespace muu
 			static_assert(std::is_same_v<std::remove_reference_t<OriginalTask>, std::remove_reference_t<Task>>);
 			static_assert(Arity <= 2);
 
-			MUU_ASSERT(batch_start < batch_end);
+			MUU_ASSERT(batch_start != batch_end);
 			MUU_ASSERT(batch_index < workers());
 
 			const auto queue_index = shared_queue_index == no_available_queue //
@@ -855,7 +855,7 @@ namespace muu
 			enqueue(queue_index,
 					[=, batch = wrap_batched_task<OriginalTask>(static_cast<Task&&>(task))]() mutable noexcept
 					{
-						for (; batch_start < batch_end; batch_start++)
+						for (; batch_start != batch_end; batch_start++)
 						{
 							if constexpr (Arity == 2)
 								batch(static_cast<ValueType>(batch_start), batch_index);
@@ -919,24 +919,27 @@ namespace muu
 										std::conditional_t<is_signed<remove_enum<value_type>>, signed, unsigned>>;
 			using size_type	  = largest<make_unsigned<offset_type>, size_t>;
 
+			// values are handled as unsigned (i.e. modular) so that ranges touching the limits of T are OK
+			auto first = static_cast<size_type>(static_cast<offset_type>(start));
+			auto last  = static_cast<size_type>(static_cast<offset_type>(end));
+
 			// reverse the start and end if they're backwards (this is a parallel for; order should be irrelevant)
 			if (start > end)
 			{
-				T temp = end;
-				end	   = T{ static_cast<remove_enum<T>>(start) + remove_enum<T>{ 1 } };
-				start  = T{ static_cast<remove_enum<T>>(temp) + remove_enum<T>{ 1 } };
+				const auto temp = last;
+				last			= first + size_type{ 1 };
+				first			= temp + size_type{ 1 };
 			}
 
 			// determine batch count and distribute indices
-			const auto job_count =
-				static_cast<size_type>(static_cast<offset_type>(end) - static_cast<offset_type>(start));
+			const auto job_count = static_cast<size_type>(last - first);
 			MUU_ASSERT(job_count);
 			const auto worker_count		 = this->workers();
 			auto batch_generator		 = impl::batch_size_generator<size_type>{ job_count, worker_count };
-			offset_type next_batch_start = unwrap(start);
+			size_type next_batch_start	 = first;
 			size_type next_batch_size	 = batch_generator();
 			size_t batch_index			 = 0u;
-			auto batch_count			 = muu::min(job_count, worker_count);
+			auto batch_count			 = static_cast<size_t>(muu::min<size_type>(job_count, worker_count));
 
 			// try to get a shared queue for all the allocations
 			const auto shared_queue_index = ::muu_impl_thread_pool_lock_multiple(storage_, batch_count);
@@ -947,7 +950,7 @@ namespace muu
 			while (true)
 			{
 				const auto batch_start = next_batch_start;
-				next_batch_start	   = static_cast<offset_type>(batch_start + next_batch_size);
+				next_batch_start	   = static_cast<size_type>(batch_start + next_batch_size);
 				next_batch_size		   = batch_generator();
 
 				if (next_batch_size)
-- 
2.43.0


From e77e3aad85a111e88c6c3e72fe32a00f7d0617de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 02/57] fix: thread_pool move-assignment leaked the assigned-to
 pool (its workers kept running)

---
 include/muu/thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/muu/thread_pool.h b/include/muu/thread_pool.h
index 3bc802b..7c8218c 100644
--- a/include/muu/thread_pool.h
+++ b/include/muu/thread_pool.h
@@ -754,7 +754,8 @@ namespace muu
 		/// \brief	Move-assignment operator.
 		thread_pool& operator=(thread_pool&& rhs) noexcept
 		{
-			storage_ = std::exchange(rhs.storage_, nullptr);
+			if (auto old = std::exchange(storage_, std::exchange(rhs.storage_, nullptr)))
+				::muu_impl_thread_pool_destroy(old);
 			return *this;
 		}
 
-- 
2.43.0


From 6bbee1660525ab7489d58a984b2aa5474f421495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 03/57] fix: thread_pool::wait() could return before a finished
 task's captured state was destroyed

---
 src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 87f56fc..43684ae 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -365,8 +365,8 @@ namespace
 									 if (t)
 									 {
 										 (*t)(worker_index);
-										 monitor->decrement();
 										 t->~task();
+										 monitor->decrement();
 									 }
 								 }
 							 } };
-- 
2.43.0


From be1e978c48d9dd17b966e06120d76e42ac9fe8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:49 +0000
Subject: [PATCH 04/57] fix: blob::assign() and copy-assignment read freed
 memory when the source is (part of) the blob itself, and did not make the
 alignment match the source

---
 include/muu/blob.h | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/muu/blob.h b/include/muu/blob.h
index 0c0bc31..c7a8e54 100644
--- a/include/muu/blob.h
+++ b/include/muu/blob.h
@@ -106,28 +106,29 @@ namespace muu
 		{
 			new_align = actual_alignment(sz, new_align);
 
-			// check if this is effectively a resize with a copy or move
-			if (new_align <= alignment_)
+			// check if this is effectively just a copy
+			if (new_align == alignment_ && sz == size_)
 			{
-				new_align = alignment_;
-
-				resize(sz); // no-op if the same size as current
-				MUU_ASSERT(size_ == sz);
-
 				if (src && data_ && src != data_)
 					MUU_MEMCPY(data_, src, size_);
 
 				return *this;
 			}
 
-			// changing alignment; must deallocate and reallocate
+			// must reallocate; the source may be part of this blob so the old allocation needs to survive the copy
+			auto new_data = sz ? aligned_alloc(sz, new_align) : nullptr;
+			if (new_data)
+			{
+				if (src)
+					MUU_MEMCPY(new_data, src, sz);
+				else if (data_)
+					MUU_MEMCPY(new_data, data_, sz < size_ ? sz : size_);
+			}
 			if (data_)
 				aligned_free(data_);
 			alignment_ = new_align;
 			size_	   = sz;
-			data_	   = size_ ? aligned_alloc(size_, alignment_) : nullptr;
-			if (src && data_)
-				MUU_MEMCPY(data_, src, size_);
+			data_	   = new_data;
 			return *this;
 		}
 
-- 
2.43.0


From 0474415a1f3d39e7a0af45d5f7777e6504e8ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 05/57] fix: string_param: undefined behaviour when moving from
 or trimming an empty string_param, or when a converted string is empty

---
 src/string_param.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/string_param.cpp b/src/string_param.cpp
index d8948ac..26c247a 100644
--- a/src/string_param.cpp
+++ b/src/string_param.cpp
@@ -434,6 +434,14 @@ string_param& string_param::operator=(string_param&& rhs_) noexcept
 	if (&rhs_ == this)
 		return *this;
 
+	// moving from an empty string_param just leaves us empty
+	if (!rhs_.mode_)
+	{
+		if (mode_)
+			destroy(storage_, mode_);
+		return *this;
+	}
+
 	// if they're the same we can just move (don't need to destroy our value)
 	if (mode_ == rhs_.mode_)
 	{
@@ -451,7 +459,13 @@ string_param& string_param::operator=(string_param&& rhs_) noexcept
 		if (mode_)
 			destroy(storage_, mode_);
 
-		visit(rhs_.storage_, rhs_.mode_, [this](auto& rhs) noexcept { initialize(storage_, mode_, MUU_MOVE(rhs)); });
+		visit(rhs_.storage_,
+			  rhs_.mode_,
+			  [this](auto& rhs) noexcept
+			  {
+				  initialize(storage_, mode_, MUU_MOVE(rhs));
+				  call_destructor(rhs);
+			  });
 	}
 	rhs_.mode_ = {};
 	return *this;
@@ -510,7 +524,9 @@ namespace
 				  {
 					  auto new_str = transcode<Char>(str);
 					  call_destructor(str);
-					  out = *initialize(storage_, mode_, MUU_MOVE(new_str));
+					  mode_ = {};
+					  if (auto* stored = initialize(storage_, mode_, MUU_MOVE(new_str)))
+						  out = *stored;
 				  }
 			  });
 		return out;
@@ -654,6 +670,9 @@ void string_param::move_into_char8_string(void* str) noexcept
 
 string_param& string_param::trim() & noexcept
 {
+	if (!mode_)
+		return *this;
+
 	visit(storage_,
 		  mode_,
 		  [&](auto& str) noexcept
-- 
2.43.0


From 4bab142577cf5a84366ef1fa3439c636012de04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 06/57] fix: utf16_decoder never waited for the low surrogate
 of a surrogate pair

---
 include/muu/utf16_decoder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/utf16_decoder.h b/include/muu/utf16_decoder.h
index 2d79e02..b74b437 100644
--- a/include/muu/utf16_decoder.h
+++ b/include/muu/utf16_decoder.h
@@ -90,7 +90,7 @@ namespace muu
 				case unwrap(high_surrogate) | ds_initial: [[fallthrough]];
 				case unwrap(high_surrogate) | ds_has_codepoint:
 					codepoint = static_cast<uint_least32_t>(code_unit); // will get multiplexed in the next step
-					state	  = ds_has_codepoint;
+					state	  = ds_expecting_low_surrogate;
 					return;
 
 				case unwrap(low_surrogate) | ds_expecting_low_surrogate:
-- 
2.43.0


From 626dd7fa58d8e077a78757a635766c06ff2519a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 07/57] fix: UTF-16/UTF-32 text without zero bytes (or with as
 many in both halves) was decoded as the wrong endianness

---
 include/muu/utf_decode.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 3fab110..1600ec6 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -59,9 +59,9 @@ namespace muu::impl
 			high += static_cast<int>(byte_select<sizeof(T) - 1u>(*c) == uint8_t{});
 		}
 		if constexpr (build::is_big_endian)
-			return low > high;
+			return low >= high;
 		else
-			return high > low;
+			return high >= low;
 	}
 }
 /// \endcond
-- 
2.43.0


From 5615c96b994bc167dcedfa76da4a839af5469201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:20 +0000
Subject: [PATCH 08/57] fix: utf_decode dropped a truncated sequence at the end
 of the input, and let it garble the code points before it when decoding in
 reverse

---
 include/muu/utf_decode.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 1600ec6..43df2a9 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -180,8 +180,9 @@ namespace muu
 				while (cp_start-- > data_start && !stop)
 				{
 					cu_count++;
-					if (cu_count == max_cu_count || is_code_point_boundary(get(cp_start)))
+					if (cu_count == max_cu_count || cp_start == data_start || is_code_point_boundary(get(cp_start)))
 					{
+						decoder = {};
 						for (size_t i = cp_start, e = cp_start + cu_count; i < e; i++)
 						{
 							decoder(get(i));
@@ -191,9 +192,8 @@ namespace muu
 
 						if (decoder.has_value())
 							stop = stop_after_invoking(static_cast<Func&&>(func), decoder.value(), cp_start, cu_count);
-						else if (decoder.error())
+						else // invalid or truncated
 						{
-							decoder.clear_error();
 							for (size_t i = cp_start + cu_count; i-- > cp_start && !stop;)
 								stop =
 									stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(i)), i, 1);
@@ -214,9 +214,9 @@ namespace muu
 						cp_start = i + 1u;
 						cu_count = {};
 					}
-					else if (decoder.error())
+					else if (decoder.error() || i + 1u == e) // invalid or truncated
 					{
-						decoder.clear_error();
+						decoder = {};
 						for (size_t j = cp_start, je = cp_start + cu_count; j < je && !stop; j++)
 							stop = stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(j)), j, 1);
 						cp_start = i + 1u;
-- 
2.43.0


From 0a82e323c53b452c6a697181245a816aa3120177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:32 +0000
Subject: [PATCH 09/57] fix: transcoding to UTF-8/UTF-16 dropped NUL code
 points, and produced garbage for values beyond U+10FFFF in UTF-16

---
 include/muu/strings.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/muu/strings.h b/include/muu/strings.h
index c870eaa..f812f35 100644
--- a/include/muu/strings.h
+++ b/include/muu/strings.h
@@ -79,6 +79,7 @@ namespace muu
 		  private:
 			static_assert(sizeof(T) == 1);
 			T code_units[4] = {};
+			size_t length	= {};
 
 		  public:
 			MUU_NODISCARD_CTOR
@@ -87,17 +88,20 @@ namespace muu
 				if (cp <= 0x7Fu)
 				{
 					code_units[0] = static_cast<T>(cp);
+					length		  = 1u;
 				}
 				else if (cp <= 0x7FFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 6) | 0xC0u);
 					code_units[1] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 2u;
 				}
 				else if (cp <= 0xFFFFu)
 				{
 					code_units[0] = static_cast<T>((cp >> 12) | 0xE0u);
 					code_units[1] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 3u;
 				}
 				else if (cp <= 0x10FFFFu)
 				{
@@ -105,6 +109,7 @@ namespace muu
 					code_units[1] = static_cast<T>(((cp >> 12) & 0x3Fu) | 0x80u);
 					code_units[2] = static_cast<T>(((cp >> 6) & 0x3Fu) | 0x80u);
 					code_units[3] = static_cast<T>((cp & 0x3Fu) | 0x80u);
+					length		  = 4u;
 				}
 			}
 
@@ -116,8 +121,7 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[3] ? std::basic_string_view<T>{ code_units, 4_sz }
-									 : std::basic_string_view<T>{ code_units };
+				return std::basic_string_view<T>{ code_units, length };
 			}
 
 			MUU_PURE_INLINE_GETTER
@@ -133,6 +137,7 @@ namespace muu
 		  private:
 			static_assert(sizeof(T) == 2);
 			T code_units[2] = {};
+			size_t length	= {};
 
 		  public:
 			MUU_NODISCARD_CTOR
@@ -141,12 +146,14 @@ namespace muu
 				if (cp < 0x10000u)
 				{
 					code_units[0] = static_cast<T>(cp);
+					length		  = 1u;
 				}
-				else
+				else if (cp <= 0x10FFFFu)
 				{
 					cp -= 0x10000u;
 					code_units[0] = static_cast<T>(static_cast<uint16_t>(0xD800u | (cp >> 10)));	// high
 					code_units[1] = static_cast<T>(static_cast<uint16_t>(0xDC00u | (cp & 0x3FFu))); // low
+					length		  = 2u;
 				}
 			}
 
@@ -158,8 +165,7 @@ namespace muu
 			MUU_PURE_INLINE_GETTER
 			constexpr std::basic_string_view<T> view() const noexcept
 			{
-				return code_units[1] ? std::basic_string_view<T>{ code_units, 2_sz }
-									 : std::basic_string_view<T>{ code_units };
+				return std::basic_string_view<T>{ code_units, length };
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From 2d22f7bab96d5986adff2ca892fe42af4801b75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:01 +0000
Subject: [PATCH 10/57] fix: emplacement_array::begin()/end()/data() were
 undefined behaviour for an array with zero capacity (null returned as
 nonnull)

---
 include/muu/emplacement_array.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/muu/emplacement_array.h b/include/muu/emplacement_array.h
index 287ec81..4adcb5c 100644
--- a/include/muu/emplacement_array.h
+++ b/include/muu/emplacement_array.h
@@ -36,14 +36,12 @@ namespace muu
 		std::byte* storage_ = nullptr;
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		T* ptr(size_t index) noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<T*>(storage_ + index * sizeof(T)));
 		}
 
 		MUU_PURE_INLINE_GETTER
-		MUU_ATTR(returns_nonnull)
 		const T* ptr(size_t index) const noexcept
 		{
 			return MUU_LAUNDER(reinterpret_cast<const T*>(storage_ + index * sizeof(T)));
-- 
2.43.0


From 953c06d22024930e4db4c50f0b0165adb19d6cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:02 +0000
Subject: [PATCH 11/57] fix: is_whitespace(), is_hyphen() and is_uppercase()
 were undefined behaviour for thousands of code points (reached
 MUU_UNREACHABLE)

---
 include/muu/impl/unicode_char16_t.h | 6 +++---
 include/muu/impl/unicode_char32_t.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/muu/impl/unicode_char16_t.h b/include/muu/impl/unicode_char16_t.h
index 21c4fdb..6cf4f97 100644
--- a/include/muu/impl/unicode_char16_t.h
+++ b/include/muu/impl/unicode_char16_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= u'\u2010' && c <= u'\u2011';
 			case 0x3F: return c == u'\uFE63' || c == u'\uFF0D' || c == u'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -872,7 +872,7 @@ namespace muu
 					case 0x00: return c <= u'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= u'\u2145' && c <= u'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -967,7 +967,7 @@ namespace muu
 				return c == u'\u205F'
 					|| (c <= u'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
diff --git a/include/muu/impl/unicode_char32_t.h b/include/muu/impl/unicode_char32_t.h
index 5152c8f..5cf8ba8 100644
--- a/include/muu/impl/unicode_char32_t.h
+++ b/include/muu/impl/unicode_char32_t.h
@@ -143,7 +143,7 @@ namespace muu
 		{
 			case 0x07: return c >= U'\u2010' && c <= U'\u2011';
 			case 0x3F: return c == U'\uFE63' || c == U'\uFF0D' || c == U'\uFF65';
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
@@ -1007,7 +1007,7 @@ namespace muu
 					case 0x00: return c <= U'\u213F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2102ull)) & 0x3003CF540F89CE21ull;
 					case 0x01: return c >= U'\u2145' && c <= U'\u216F'
 						&& (1ull << (static_cast<uint_least64_t>(c) - 0x2145ull)) & 0x7FFF8000001ull;
-					default: MUU_UNREACHABLE;
+					default: return false;
 				}
 				
 				MUU_UNREACHABLE;
@@ -1102,7 +1102,7 @@ namespace muu
 				return c == U'\u205F'
 					|| (c <= U'\u202F' && (1ull << (static_cast<uint_least64_t>(c) - 0x2000ull)) & 0x8300000007FFull);
 			}
-			default: MUU_UNREACHABLE;
+			default: return false;
 		}
 		
 		MUU_UNREACHABLE;
-- 
2.43.0


From b05a4c81e1261a72b3f59ce55c04ff613f9cf532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 12/57] fix: utf_decode sign-extended the code units of invalid
 UTF-8 in char strings

---
 include/muu/utf_decode.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/muu/utf_decode.h b/include/muu/utf_decode.h
index 43df2a9..b36d201 100644
--- a/include/muu/utf_decode.h
+++ b/include/muu/utf_decode.h
@@ -171,6 +171,10 @@ namespace muu
 						!impl::utf_detect_platform_endian(str.data(), str.data() + min(str.length(), 16_sz));
 			}
 
+			// (the code units of invalid sequences are passed through as-is)
+			const auto undecoded = [&](size_t idx) noexcept -> char32_t
+			{ return static_cast<char32_t>(static_cast<unsigned_integer<sizeof(T) * CHAR_BIT>>(get(idx))); };
+
 			impl::utf_decoder<T> decoder;
 			if (reverse)
 			{
@@ -195,8 +199,7 @@ namespace muu
 						else // invalid or truncated
 						{
 							for (size_t i = cp_start + cu_count; i-- > cp_start && !stop;)
-								stop =
-									stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(i)), i, 1);
+								stop = stop_after_invoking(static_cast<Func&&>(func), undecoded(i), i, 1);
 						}
 						cu_count = {};
 					}
@@ -218,7 +221,7 @@ namespace muu
 					{
 						decoder = {};
 						for (size_t j = cp_start, je = cp_start + cu_count; j < je && !stop; j++)
-							stop = stop_after_invoking(static_cast<Func&&>(func), static_cast<char32_t>(get(j)), j, 1);
+							stop = stop_after_invoking(static_cast<Func&&>(func), undecoded(j), j, 1);
 						cp_start = i + 1u;
 						cu_count = {};
 					}
-- 
2.43.0


From a9be2355c7c35522c889e8b8609dc89794ebc111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:13 +0000
Subject: [PATCH 13/57] fix: fixed_string: an object compared unequal to
 itself, and C++20 ordering of same-length strings disagreed with compare()

---
 include/muu/fixed_string.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/muu/fixed_string.h b/include/muu/fixed_string.h
index 1761175..1693018 100644
--- a/include/muu/fixed_string.h
+++ b/include/muu/fixed_string.h
@@ -771,7 +771,7 @@ namespace muu
 				if constexpr (Length == Len)
 				{
 					if (&lhs == &rhs)
-						return true;
+						return 0;
 
 					return traits_type::compare(lhs._chars_, rhs.c_str(), Length);
 				}
@@ -845,7 +845,10 @@ namespace muu
 		}
 
 	#if MUU_HAS_THREE_WAY_COMPARISON
-		friend constexpr auto operator<=>(const fixed_string&, const fixed_string&) noexcept = default;
+		friend constexpr auto operator<=>(const fixed_string& lhs, const fixed_string& rhs) noexcept
+		{
+			return compare(lhs, rhs) <=> 0;
+		}
 	#endif
 
 		/// @}
-- 
2.43.0


From ed827d796e47bf1ba672807e3395d7ae0a1ed8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 14/57] fix: tagged_ptr: negative tags overwrote the pointer

---
 include/muu/tagged_ptr.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/muu/tagged_ptr.h b/include/muu/tagged_ptr.h
index 677bbb9..a707319 100644
--- a/include/muu/tagged_ptr.h
+++ b/include/muu/tagged_ptr.h
@@ -206,7 +206,9 @@ namespace muu::impl
 					}
 					else
 					{
-						return pack_ptr(ptr) | static_cast<uintptr_t>(tag);
+						// the mask matters for negative values (they are sign-extended by the cast)
+						return pack_ptr(ptr)
+							 | (static_cast<uintptr_t>(tag) & bit_fill_right<uintptr_t>(sizeof(Tag) * CHAR_BIT));
 					}
 				}
 				else // some pod type
@@ -259,7 +261,9 @@ namespace muu::impl
 			}
 			else
 			{
-				return (bits & ptr_mask) | static_cast<uintptr_t>(tag);
+				// the mask matters for negative values (they are sign-extended by the cast)
+				return (bits & ptr_mask)
+					 | (static_cast<uintptr_t>(tag) & bit_fill_right<uintptr_t>(sizeof(Tag) * CHAR_BIT));
 			}
 		}
 
-- 
2.43.0


From ef88d0a7a86d3387906e53ca07e3718e977b85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:35 +0000
Subject: [PATCH 15/57] fix: function_view: copying a non-const (or moving)
 function_view made a view of the view

---
 include/muu/function_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 319ecd6..7aee53f 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -222,7 +222,7 @@ namespace muu
 		/// \tparam	F	 	A function, lambda or other callable type with a signature compatible with #func_type.
 		///
 		/// \param 	func	The callable to view/invoke.
-		template <typename F>
+		MUU_CONSTRAINED_TEMPLATE((!std::is_same_v<remove_cvref<F>, function_view>), typename F)
 		MUU_NODISCARD_CTOR
 		/* implicit */ constexpr function_view(F&& func) noexcept //
 			: base{ static_cast<F&&>(func) }
-- 
2.43.0


From 7003765fd36590e35e994821451cad43a7b294f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:37 +0000
Subject: [PATCH 16/57] fix: accumulator: merging two accumulators lost
 samples, or did not compile for floating-point types

---
 include/muu/accumulator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/muu/accumulator.h b/include/muu/accumulator.h
index 6e2a807..080bfc2 100644
--- a/include/muu/accumulator.h
+++ b/include/muu/accumulator.h
@@ -154,7 +154,7 @@ namespace muu
 		{
 			if (!other.empty())
 			{
-				if (empty())
+				if (!empty())
 				{
 					impl_and_count.first().add(other.impl_and_count.first());
 					impl_and_count.second() += other.impl_and_count.second();
@@ -305,7 +305,9 @@ namespace muu
 				using muu::max;
 				min_ = min(other.min_, min_);
 				max_ = max(other.max_, max_);
-				kahan_add(other.sum);
+				const auto other_correction = other.correction_; // 'other' may be this
+				kahan_add(other.sum_);
+				correction_ += other_correction;
 			}
 
 			MUU_PURE_INLINE_GETTER
-- 
2.43.0


From ee64cf51731a0bb8f00a5af2321119201fe27d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:11 +0000
Subject: [PATCH 17/57] fix: integral_range: size, iterator distance and
 iterator offsets overflowed for 64-bit types; pointer iterators could not be
 subtracted

---
 include/muu/integral_range.h | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/include/muu/integral_range.h b/include/muu/integral_range.h
index 48755b7..c05cfa7 100644
--- a/include/muu/integral_range.h
+++ b/include/muu/integral_range.h
@@ -104,7 +104,7 @@ namespace muu
 				if constexpr (std::is_pointer_v<T>)
 					val_ = static_cast<value_type>(val_ + offset);
 				else
-					val_ = static_cast<value_type>(static_cast<difference_type>(val_) + offset);
+					val_ = static_cast<value_type>(static_cast<size_type>(val_) + static_cast<size_type>(offset));
 
 				return *this;
 			}
@@ -114,7 +114,7 @@ namespace muu
 				if constexpr (std::is_pointer_v<T>)
 					val_ = static_cast<value_type>(val_ - offset);
 				else
-					val_ = static_cast<value_type>(static_cast<difference_type>(val_) - offset);
+					val_ = static_cast<value_type>(static_cast<size_type>(val_) - static_cast<size_type>(offset));
 
 				return *this;
 			}
@@ -143,14 +143,11 @@ namespace muu
 			friend constexpr difference_type operator-(const integral_range_iterator& lhs,
 													   const integral_range_iterator& rhs) noexcept
 			{
-				if constexpr (muu::is_unsigned<T>)
-				{
-					if (rhs.val_ > lhs.val_)
-						return -static_cast<difference_type>(static_cast<size_type>(rhs.val_)
-															 - static_cast<size_type>(lhs.val_));
-				}
-
-				return static_cast<difference_type>(lhs.val_) - static_cast<difference_type>(rhs.val_);
+				if constexpr (std::is_pointer_v<T>)
+					return static_cast<difference_type>(lhs.val_ - rhs.val_);
+				else // via the unsigned size_type, so distances between far-apart values don't overflow
+					return static_cast<difference_type>(static_cast<size_type>(lhs.val_)
+														- static_cast<size_type>(rhs.val_));
 			}
 		};
 	}
@@ -226,14 +223,8 @@ namespace muu
 		{
 			if constexpr (std::is_pointer_v<value_type>)
 				return static_cast<size_type>(e - s);
-			else if constexpr (muu::is_signed<value_type>)
-			{
-				using difference_type = impl::integral_range_difference_type<T>;
-
-				return static_cast<size_type>(static_cast<difference_type>(e) - static_cast<difference_type>(s));
-			}
-			else
-				return static_cast<size_type>(e) - static_cast<size_type>(s);
+			else // also correct for signed types (and unlike a signed subtraction, does not overflow)
+				return static_cast<size_type>(static_cast<size_type>(e) - static_cast<size_type>(s));
 		}
 
 		/// \brief Returns the first value in the range (i.e. `s`).
-- 
2.43.0


From 32a6b1044eab8062a9900e4abaefb0265df0b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 18/57] fix: byte_select() shifted by the full width when the
 index equals the size of the integer

---
 include/muu/bit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bit.h b/include/muu/bit.h
index bfca4d7..3aa8464 100644
--- a/include/muu/bit.h
+++ b/include/muu/bit.h
@@ -154,7 +154,7 @@ namespace muu
 	{
 		static_assert(!is_cvref<T>);
 
-		if (index > sizeof(T))
+		if (index >= sizeof(T))
 			return uint8_t{};
 
 		if constexpr (std::is_enum_v<T>)
-- 
2.43.0


From 04c13dfb7981d5456204d14635571d6738eea270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:48 +0000
Subject: [PATCH 19/57] fix: apply_alignment<>() of an enum, bit_pack() of
 mixed enums and integers, and byte_reverse() of some integer types did not
 compile

---
 include/muu/apply_alignment.h | 2 +-
 include/muu/bit_pack.h        | 6 +++---
 include/muu/byte_reverse.h    | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/muu/apply_alignment.h b/include/muu/apply_alignment.h
index 648335f..a936337 100644
--- a/include/muu/apply_alignment.h
+++ b/include/muu/apply_alignment.h
@@ -30,7 +30,7 @@ namespace muu
 
 		if constexpr (std::is_enum_v<T>)
 		{
-			return static_cast<T>(apply_alignment(static_cast<std::underlying_type_t<T>>(val)));
+			return static_cast<T>(apply_alignment<Alignment>(static_cast<std::underlying_type_t<T>>(val)));
 		}
 		else
 		{
diff --git a/include/muu/bit_pack.h b/include/muu/bit_pack.h
index 8739e6e..6d7cb2e 100644
--- a/include/muu/bit_pack.h
+++ b/include/muu/bit_pack.h
@@ -53,9 +53,9 @@ namespace muu
 		if constexpr (any_enum<return_type, T, U, V...>)
 		{
 			return static_cast<return_type>(
-				bit_pack<remove_enum<return_type>>(static_cast<std::underlying_type_t<T>>(val1),
-												   static_cast<std::underlying_type_t<U>>(val2),
-												   static_cast<std::underlying_type_t<V>>(vals)...));
+				bit_pack<remove_enum<return_type>>(static_cast<remove_enum<T>>(val1),
+												   static_cast<remove_enum<U>>(val2),
+												   static_cast<remove_enum<V>>(vals)...));
 		}
 		else if constexpr (any_signed<return_type, T, U, V...>)
 		{
diff --git a/include/muu/byte_reverse.h b/include/muu/byte_reverse.h
index c4c916c..09ec12f 100644
--- a/include/muu/byte_reverse.h
+++ b/include/muu/byte_reverse.h
@@ -24,14 +24,14 @@ namespace muu::impl
 	{
 #if MUU_GCC || MUU_CLANG
 
-		if constexpr (std::is_same_v<T, uint16_t>)
+		if constexpr (sizeof(T) == sizeof(uint16_t))
 			return __builtin_bswap16(val);
-		else if constexpr (std::is_same_v<T, uint32_t>)
+		else if constexpr (sizeof(T) == sizeof(uint32_t))
 			return __builtin_bswap32(val);
-		else if constexpr (std::is_same_v<T, uint64_t>)
+		else if constexpr (sizeof(T) == sizeof(uint64_t))
 			return __builtin_bswap64(val);
 	#if MUU_HAS_INT128
-		else if constexpr (std::is_same_v<T, uint128_t>)
+		else if constexpr (sizeof(T) == sizeof(uint128_t))
 		{
 		#if MUU_HAS_BUILTIN(__builtin_bswap128)
 			return __builtin_bswap128(val);
-- 
2.43.0


From d103246bfe28c381b70ae909ea04b753b6d4d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:11 +0000
Subject: [PATCH 20/57] fix: function_view: under GCC's optimizer, state
 changed by the callable was lost because its address did not escape

---
 include/muu/function_view.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/muu/function_view.h b/include/muu/function_view.h
index 7aee53f..4da7633 100644
--- a/include/muu/function_view.h
+++ b/include/muu/function_view.h
@@ -43,7 +43,8 @@ namespace muu
 
 		struct function_view_payload
 		{
-			alignas(void*) unsigned char bytes[sizeof(void*)];
+			// a real pointer (rather than a byte array) so that the optimizer sees the target of the view escape
+			void* value;
 		};
 
 		template <typename Func, typename Return, typename... Args>
-- 
2.43.0


From ca10aacf17933693409f0154c32add86ea40d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 21/57] fix: thread_pool: the constructor hung when a worker
 thread could not be created

---
 src/thread_pool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 43684ae..3bbd980 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -475,6 +475,11 @@ namespace
 			size_t constructed_workers	 = {};
 			auto unwind_workers			 = scope_guard{ [&]() noexcept
 												{
+												   // the workers run until told to stop; joining them would never return
+												   for (size_t i = worker_count; i-- > 0_sz;)
+													   queue(i).terminate();
+												   for (size_t i = constructed_workers; i-- > 0_sz;)
+													   worker(i).terminate();
 												   for (size_t i = constructed_workers; i-- > 0_sz;)
 													   worker(i).~thread_pool_worker();
 											   } };
-- 
2.43.0


From c13ddff11e9fbfbf69d7a8cf637f8af02f308e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 22/57] fix: aligned_alloc: sizes close to the limit wrapped
 around and a tiny block was returned

---
 include/muu/aligned_alloc.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/aligned_alloc.h b/include/muu/aligned_alloc.h
index 83a0e65..0da6777 100644
--- a/include/muu/aligned_alloc.h
+++ b/include/muu/aligned_alloc.h
@@ -36,7 +36,9 @@ namespace muu
 		MUU_ASSUME(static_cast<size_t>(alignment));
 
 		alignment = alignment > impl::aligned_alloc_min_align ? alignment : impl::aligned_alloc_min_align;
-		size	  = (size + alignment - 1u) & ~(alignment - 1u);
+		if (size > static_cast<size_t>(-1) - (alignment - 1u)) // rounding up would overflow; no such block can exist
+			return nullptr;
+		size = (size + alignment - 1u) & ~(alignment - 1u);
 
 #if MUU_WINDOWS
 		return muu::assume_aligned<impl::aligned_alloc_min_align>(_aligned_malloc(size, alignment));
-- 
2.43.0


From ab24edc9bf0099df9ee333becc5c86d5ddc44e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:58 +0000
Subject: [PATCH 23/57] fix: vector and line_segment: direction() with an out
 parameter was declared pure, so the distance could be lost

---
 include/muu/line_segment.h | 6 ++++--
 include/muu/vector.h       | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index a45ca5f..ba0237a 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -207,7 +207,8 @@ namespace muu
 		  /// @{
 
 		/// \brief	Returns the direction of a line segment (from point 0 to point 1).
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		static constexpr vector_type MUU_VECTORCALL direction(MUU_VPARAM(line_segment) seg,
 															  scalar_type& length_out) noexcept
 		{
@@ -215,7 +216,8 @@ namespace muu
 		}
 
 		/// \brief	Returns the direction of the line segment (from point 0 to point 1).
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		constexpr vector_type direction(scalar_type& length_out) const noexcept
 		{
 			return direction(*this, length_out);
diff --git a/include/muu/vector.h b/include/muu/vector.h
index 3f7eb2f..c8024f5 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2208,7 +2208,7 @@ namespace muu
 		///
 		/// \availability	This function is only available when #dimensions == 2 or 3.
 		MUU_HIDDEN_CONSTRAINT(Dims == 2 || Dims == 3, size_t Dims = Dimensions)
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr delta_type MUU_VECTORCALL direction(MUU_VPARAM(vector) from,
 															 MUU_VPARAM(vector) to,
 															 delta_scalar_type& distance_out) noexcept
@@ -2257,7 +2257,8 @@ namespace muu
 		///
 		/// \availability	This function is only available when #dimensions == 2 or 3.
 		MUU_HIDDEN_CONSTRAINT(Dims == 2 || Dims == 3, size_t Dims = Dimensions)
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
+		MUU_ALWAYS_INLINE
 		constexpr delta_type MUU_VECTORCALL direction(MUU_VPARAM(vector) to,
 													  delta_scalar_type& distance_out) const noexcept
 		{
-- 
2.43.0


From f8751c0a6ff1bd9643a9f1a43d0892cec6342c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:58 +0000
Subject: [PATCH 24/57] fix: vector: normalized() was false for every integer
 vector

---
 include/muu/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/vector.h b/include/muu/vector.h
index c8024f5..cf80f2a 100644
--- a/include/muu/vector.h
+++ b/include/muu/vector.h
@@ -2151,7 +2151,7 @@ namespace muu
 				{
 					using sum_type = decltype(scalar_type{} + scalar_type{});
 					sum_type sum{};
-					for (size_t i = 0u; i < dimensions && sum > sum_type{ 1 }; i++)
+					for (size_t i = 0u; i < dimensions && sum <= sum_type{ 1 }; i++)
 					{
 						if constexpr (muu::is_signed<scalar_type>)
 							sum += muu::abs(v[i]);
-- 
2.43.0


From 572dc497e0f5c986e49bfcb50a6c6571b5c5eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:25 +0000
Subject: [PATCH 25/57] fix: half, float128_t: infinity, nan and the limits
 were zero where std::numeric_limits is not specialized

---
 include/muu/half.h                |  8 +++---
 include/muu/impl/core_constants.h | 42 +++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 2ef89c6..db5c643 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1464,7 +1464,7 @@ namespace std
 			using namespace muu::literals;
 			return half::from_bits(0x0400_u16); // 0.000061035 (ish)
 #else
-			return half{ (std::numeric_limits<MUU_HALF_IMPL_TYPE>::min)() };
+			return half{ 0.00006103515625f }; // 2^-14
 #endif
 		}
 
@@ -1487,7 +1487,7 @@ namespace std
 			using namespace muu::literals;
 			return half::from_bits(0b0'00101'0000000000_u16); // 0.00097656
 #else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::epsilon() };
+			return half{ 0.0009765625f }; // 2^-10
 #endif
 		}
 
@@ -1498,7 +1498,7 @@ namespace std
 			using namespace muu::literals;
 			return half::from_bits(0b0'00100'0000000000_u16); // epsilon / 2
 #else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::round_error() };
+			return half{ 0.00048828125f }; // epsilon / 2
 #endif
 		}
 
@@ -1527,7 +1527,7 @@ namespace std
 			using namespace muu::literals;
 			return half::from_bits(0x0001_u16); // 0.000000059605 (ish)
 #else
-			return half{ std::numeric_limits<MUU_HALF_IMPL_TYPE>::denorm_min() };
+			return half{ 0.000000059604644775390625f }; // 2^-24
 #endif
 		}
 	};
diff --git a/include/muu/impl/core_constants.h b/include/muu/impl/core_constants.h
index eacbc0b..565a87d 100644
--- a/include/muu/impl/core_constants.h
+++ b/include/muu/impl/core_constants.h
@@ -77,6 +77,16 @@ namespace muu
 		};
 #endif // MUU_HAS_INT128
 
+#if MUU_HAS_FLOAT16
+		// (std::numeric_limits is not necessarily specialized for _Float16)
+		template <>
+		struct integer_limits<_Float16>
+		{
+			static constexpr _Float16 highest = static_cast<_Float16>(65504.0f);
+			static constexpr _Float16 lowest  = static_cast<_Float16>(-65504.0f);
+		};
+#endif
+
 #if MUU_HAS_FLOAT128
 		template <>
 		struct integer_limits<float128_t>
@@ -168,6 +178,38 @@ namespace muu
 			/// @}
 		};
 
+		/// \cond
+
+#if MUU_HAS_FLOAT16
+		template <>
+		struct floating_point_special_constants<_Float16>
+		{
+			using float_limits = std::numeric_limits<float>;
+
+			static constexpr _Float16 nan				= static_cast<_Float16>(float_limits::quiet_NaN());
+			static constexpr _Float16 signaling_nan		= static_cast<_Float16>(float_limits::signaling_NaN());
+			static constexpr _Float16 infinity			= static_cast<_Float16>(float_limits::infinity());
+			static constexpr _Float16 negative_infinity = -infinity;
+			static constexpr _Float16 negative_zero		= -_Float16{};
+		};
+#endif
+
+#if MUU_HAS_FLOAT128
+		template <>
+		struct floating_point_special_constants<float128_t>
+		{
+			using double_limits = std::numeric_limits<double>;
+
+			static constexpr float128_t nan				  = static_cast<float128_t>(double_limits::quiet_NaN());
+			static constexpr float128_t signaling_nan	  = static_cast<float128_t>(double_limits::signaling_NaN());
+			static constexpr float128_t infinity		  = static_cast<float128_t>(double_limits::infinity());
+			static constexpr float128_t negative_infinity = -infinity;
+			static constexpr float128_t negative_zero	  = -float128_t{};
+		};
+#endif
+
+		/// \endcond
+
 		template <typename T>
 		struct floating_point_named_constants
 		{
-- 
2.43.0


From e1cf96e7a4aec3914977c1e333e66b80213cb8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 26/57] fix: matrix: the approx_equal() member was declared
 const, so changes to the matrix could be missed

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index c292ef0..6b4c1f6 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -2279,7 +2279,7 @@ namespace muu
 		MUU_CONSTRAINED_TEMPLATE((any_floating_point<Scalar, T> //
 								  && impl::pass_vector_by_value<matrix<T, Rows, Columns>>),
 								 typename T)
-		MUU_CONST_GETTER
+		MUU_PURE_GETTER
 		constexpr bool MUU_VECTORCALL approx_equal(
 			matrix<T, rows, columns> m,
 			epsilon_type<scalar_type, T> epsilon = default_epsilon<scalar_type, T>) const noexcept
-- 
2.43.0


From dcf09ac66ce65b756f86d5b7d7509e74cd08180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 27/57] fix: matrix: left-handed perspective projections
 reversed or overshot the depth range, and the screen size overload ignored
 its mode

---
 include/muu/matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index 6b4c1f6..0d7b496 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -942,11 +942,10 @@ namespace muu::impl
 
 			if constexpr (!!(Mode & math_apis::opengl))
 			{
-				const auto c = -(far_clip + near_clip) / (far_clip - near_clip);
-
 				if constexpr (!!(Mode & math_apis::left_handed))
 				{
-					const auto e = (T{ 2 } * far_clip * near_clip) / (far_clip - near_clip);
+					const auto c = (far_clip + near_clip) / (far_clip - near_clip);
+					const auto e = (T{ -2 } * far_clip * near_clip) / (far_clip - near_clip);
 
 					// clang-format off
 					return
@@ -960,6 +959,7 @@ namespace muu::impl
 				}
 				else // right-handed
 				{
+					const auto c = -(far_clip + near_clip) / (far_clip - near_clip);
 					const auto e = (T{ -2 } * far_clip * near_clip) / (far_clip - near_clip);
 
 					// clang-format off
@@ -975,10 +975,9 @@ namespace muu::impl
 			}
 			else // directx
 			{
-				const auto c = far_clip / (near_clip - far_clip);
-
 				if constexpr (!!(Mode & math_apis::left_handed))
 				{
+					const auto c = far_clip / (far_clip - near_clip);
 					const auto e = -near_clip * far_clip / (far_clip - near_clip);
 
 					// clang-format off
@@ -993,6 +992,7 @@ namespace muu::impl
 				}
 				else // right-handed
 				{
+					const auto c = far_clip / (near_clip - far_clip);
 					const auto e = near_clip * far_clip / (near_clip - far_clip);
 
 					// clang-format off
@@ -1015,7 +1015,7 @@ namespace muu::impl
 																			   T near_clip,
 																			   T far_clip) noexcept
 		{
-			return perspective_projection(vertical_fov, screen_size.x / screen_size.y, near_clip, far_clip);
+			return perspective_projection<Mode>(vertical_fov, screen_size.x / screen_size.y, near_clip, far_clip);
 		}
 	};
 
-- 
2.43.0


From 648d0242199835e2d7d21bfe6ef58327612db409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:11 +0000
Subject: [PATCH 28/57] fix: matrix: inverting a 1x1 matrix did not compile

---
 include/muu/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/matrix.h b/include/muu/matrix.h
index 0d7b496..eef8238 100644
--- a/include/muu/matrix.h
+++ b/include/muu/matrix.h
@@ -2781,7 +2781,7 @@ namespace muu
 
 				if constexpr (Columns == 1)
 				{
-					return inverse_type{ column_type{ scalar_type{ 1 } / m.m[0].x } };
+					return inverse_type{ scalar_type{ 1 } / m.m[0].x };
 				}
 				if constexpr (Columns == 2)
 				{
-- 
2.43.0


From 8c6cb7544abeb37a28341f6f1447ccca11cfe3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:54 +0000
Subject: [PATCH 29/57] fix: quaternion: from_rotation(from, to) ignored the
 length of its second vector

---
 include/muu/quaternion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/quaternion.h b/include/muu/quaternion.h
index f3ccdbe..535756d 100644
--- a/include/muu/quaternion.h
+++ b/include/muu/quaternion.h
@@ -813,7 +813,7 @@ namespace muu
 				MUU_FMA_BLOCK;
 
 				const auto k_cos_theta = vector_type::dot(from, to);
-				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(from));
+				const auto k = muu::sqrt(vector_type::length_squared(from) * vector_type::length_squared(to));
 
 				if (muu::approx_equal(k_cos_theta / k, scalar_type{ -1 }))
 				{
-- 
2.43.0


From 57c07ed2566fbd549c24e4d2cb79cf1816c0f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:56 +0000
Subject: [PATCH 30/57] fix: bounding_sphere: approx_zero did not compile

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 2eaea6b..140c997 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -333,7 +333,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL approx_zero(MUU_VPARAM(bounding_sphere) bs,
 														 scalar_type epsilon = default_epsilon<scalar_type>) noexcept
 		{
-			return vector_type::approx_zero(bs.center, epsilon) && vector_type::approx_zero(bs.radius, epsilon);
+			return vector_type::approx_zero(bs.center, epsilon) && muu::approx_zero(bs.radius, epsilon);
 		}
 
 		/// \brief	Returns true if all the scalar components in the bounding sphere are approximately equal to zero.
-- 
2.43.0


From 4974fa3509f8b3a66528f66cf9e0e7d0dd7d5eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:56 +0000
Subject: [PATCH 31/57] fix: bounding_sphere: intersects(triangle) did not
 compile for double

---
 include/muu/bounding_sphere.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 140c997..0295e19 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -545,15 +545,15 @@ namespace muu
 		/// \brief	Returns true if a bounding sphere intersects a triangle.
 		MUU_PURE_GETTER
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(bounding_sphere) bs,
-														MUU_VPARAM(vector_type) p0,
-														MUU_VPARAM(vector_type) p1,
-														MUU_VPARAM(vector_type) p2) noexcept
+														MUU_VPARAM(vector_type) tri0,
+														MUU_VPARAM(vector_type) tri1,
+														MUU_VPARAM(vector_type) tri2) noexcept
 		{
 			// https://realtimecollisiondetection.net/blog/?p=103
 
-			p0 -= bs.center;
-			p1 -= bs.center;
-			p2 -= bs.center;
+			const auto p0 = tri0 - bs.center;
+			const auto p1 = tri1 - bs.center;
+			const auto p2 = tri2 - bs.center;
 			const auto rr = bs.radius * bs.radius;
 			const auto V  = vector_type::cross(p1 - p0, p2 - p0);
 			const auto d  = vector_type::dot(p0, V);
-- 
2.43.0


From 01ad6073db5afae3db6fe783993b22894dda688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:57 +0000
Subject: [PATCH 32/57] fix: line_segment: midpoint did not compile for half

---
 include/muu/line_segment.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index ba0237a..13c6c1d 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -242,8 +242,8 @@ namespace muu
 		static constexpr vector_type MUU_VECTORCALL midpoint(MUU_VPARAM(line_segment) seg) noexcept
 		{
 			if constexpr (is_small_float)
-				return vector_type{ line_segment<promoted_scalar>::midpoint(promoted_vec{ seg.points[0] },
-																			promoted_vec{ seg.points[1] }) };
+				return vector_type{ line_segment<promoted_scalar>::midpoint(
+					line_segment<promoted_scalar>{ promoted_vec{ seg.points[0] }, promoted_vec{ seg.points[1] } }) };
 			else
 				return (seg.points[0] + seg.points[1]) / scalar_type{ 2 };
 		}
-- 
2.43.0


From 202cdd0a92f923c0cdd84948bf0ef8c62c20b70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:57 +0000
Subject: [PATCH 33/57] fix: triangle: the free degenerate() did not compile

---
 include/muu/triangle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/triangle.h b/include/muu/triangle.h
index acef499..3cc4975 100644
--- a/include/muu/triangle.h
+++ b/include/muu/triangle.h
@@ -975,7 +975,7 @@ namespace muu
 	MUU_PURE_INLINE_GETTER
 	constexpr bool degenerate(const triangle<S>& tri) noexcept
 	{
-		return triangle<S>::degenerate(tri);
+		return tri.degenerate();
 	}
 }
 
-- 
2.43.0


From 9ff1172168fcaa76484590325465608344d77a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:57 +0000
Subject: [PATCH 34/57] fix: ray: infinity_or_nan missed rays with one bad
 vector

---
 include/muu/ray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/ray.h b/include/muu/ray.h
index c685661..ff772d1 100644
--- a/include/muu/ray.h
+++ b/include/muu/ray.h
@@ -155,7 +155,7 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL infinity_or_nan(MUU_VPARAM(ray) r) noexcept
 		{
 			return vector_type::infinity_or_nan(r.origin) //
-				&& vector_type::infinity_or_nan(r.direction);
+				|| vector_type::infinity_or_nan(r.direction);
 		}
 
 		/// \brief	Returns true if any of the scalars in the ray are infinity or NaN.
-- 
2.43.0


From 130a48bf9d75d2b378661a742c51e31de19d459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:54 +0000
Subject: [PATCH 35/57] fix: bounding_sphere: the volume was divided by pi
 instead of multiplied

---
 include/muu/impl/geometry_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index ce14eae..e0fa45d 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -471,7 +471,7 @@ namespace muu::impl
 		MUU_PURE_GETTER
 		static constexpr scalar_type MUU_VECTORCALL volume(scalar_type radius) noexcept
 		{
-			return constants<scalar_type>::four_over_three_pi * radius * radius * radius;
+			return constants<scalar_type>::four_over_three * constants<scalar_type>::pi * radius * radius * radius;
 		}
 	};
 }
-- 
2.43.0


From 87c6a1ca86305ad6e6309ff26794b412b30dfe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:40 +0000
Subject: [PATCH 36/57] fix: plane: intersects(line_segment) was inverted

---
 include/muu/impl/geometry_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index e0fa45d..eded586 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -152,7 +152,7 @@ namespace muu::impl
 																	 vector_param start,
 																	 vector_param end) noexcept
 		{
-			return signed_distance(normal, d, start) * signed_distance(normal, d, end) >= scalar_type{};
+			return signed_distance(normal, d, start) * signed_distance(normal, d, end) <= scalar_type{};
 		}
 	};
 }
-- 
2.43.0


From 7a6070270d99c145921e1790861c5a7795d57381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:41 +0000
Subject: [PATCH 37/57] fix: bounding_sphere: intersecting spheres were tested
 with the sum of their squared radii

---
 include/muu/bounding_sphere.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 0295e19..79f0687 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -640,8 +640,8 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(bounding_sphere) bs1,
 														MUU_VPARAM(bounding_sphere) bs2) noexcept
 		{
-			return vector_type::distance_squared(bs1.center, bs2.center)
-				<= ((bs1.radius * bs1.radius) + (bs2.radius * bs2.radius));
+			const auto radii = bs1.radius + bs2.radius;
+			return vector_type::distance_squared(bs1.center, bs2.center) <= radii * radii;
 		}
 
 		/// \brief	Returns true if two bounding spheres intersect.
@@ -790,13 +790,15 @@ namespace muu
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(MUU_VPARAM(sphere_type) bs) const noexcept
 		{
-			return vector_type::distance_squared(center, bs.center) <= (radius_squared + bs.radius * bs.radius);
+			const auto radii = radius + bs.radius;
+			return vector_type::distance_squared(center, bs.center) <= radii * radii;
 		}
 
 		MUU_PURE_INLINE_GETTER
 		constexpr bool MUU_VECTORCALL operator()(const collision_tester& tester) const noexcept
 		{
-			return vector_type::distance_squared(center, tester.center) <= (radius_squared + tester.radius_squared);
+			const auto radii = radius + tester.radius;
+			return vector_type::distance_squared(center, tester.center) <= radii * radii;
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From f523f83c865203655bfa90cec17e1d64c96393db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:41 +0000
Subject: [PATCH 38/57] fix: bounding_sphere: contains(bounding_sphere)
 compared squared radii

---
 include/muu/bounding_sphere.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 79f0687..7da0879 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -618,14 +618,11 @@ namespace muu
 		static constexpr bool MUU_VECTORCALL contains(MUU_VPARAM(bounding_sphere) outer,
 													  MUU_VPARAM(bounding_sphere) inner) noexcept
 		{
-			const auto dist_squared		 = vector_type::distance_squared(outer.center, inner.center);
-			const auto outer_rad_squared = outer.radius * outer.radius;
-			const auto inner_rad_squared = inner.radius * inner.radius;
-
-			if (dist_squared > (outer_rad_squared + inner_rad_squared))
+			if (inner.radius > outer.radius)
 				return false;
 
-			return outer_rad_squared >= dist_squared + inner_rad_squared;
+			const auto slack = outer.radius - inner.radius;
+			return vector_type::distance_squared(outer.center, inner.center) <= slack * slack;
 		}
 
 		/// \brief	Returns true if the bounding sphere contains all the points of another bounding sphere.
-- 
2.43.0


From cde6a4adeda57c0743ae7d43376699e285c95389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:41 +0000
Subject: [PATCH 39/57] fix: bounding_sphere: closest_point forgot the sphere's
 center

---
 include/muu/bounding_sphere.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/bounding_sphere.h b/include/muu/bounding_sphere.h
index 7da0879..a4a8340 100644
--- a/include/muu/bounding_sphere.h
+++ b/include/muu/bounding_sphere.h
@@ -436,7 +436,7 @@ namespace muu
 			if (dist_squared <= base::radius * base::radius)
 				return point;
 
-			return vector_type::normalize_lensq(delta, dist_squared) * base::radius;
+			return base::center + vector_type::normalize_lensq(delta, dist_squared) * base::radius;
 		}
 
 				/// @}
-- 
2.43.0


From 7fece6a0ae21a25673be0a35ea8cedc7f6894c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:08 +0000
Subject: [PATCH 40/57] fix: ray: hits reported triangles behind the ray

---
 include/muu/impl/geometry_common.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index eded586..6cd063a 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1054,7 +1054,13 @@ namespace muu::impl
 			if (v < scalar_type{} || u + v > scalar_type{ 1 })
 				return {};
 
-			return vector_type::dot(v0v2, qvec) * invDet;
+			const auto dist = vector_type::dot(v0v2, qvec) * invDet;
+
+			// triangle is behind the ray
+			if (dist < scalar_type{})
+				return {};
+
+			return dist;
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From 271c57de3ed05bcfa8d5b4f0a0e7d211ea8d00f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:08 +0000
Subject: [PATCH 41/57] fix: ray: hits missed a sphere around its origin when
 pointing away from the center

---
 include/muu/impl/geometry_common.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 6cd063a..22917e8 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1074,14 +1074,14 @@ namespace muu::impl
 			const vector_type e = sphere_center - ray_origin;
 			const scalar_type a = vector_type::dot(e, ray_direction);
 
-			// ray points in the wrong direction
-			if (a < scalar_type{})
-				return {};
-
 			const scalar_type e2 = vector_type::length_squared(e);
 			const scalar_type r2 = sphere_radius * sphere_radius;
 			const scalar_type a2 = a * a;
 
+			// ray points in the wrong direction
+			if (a < scalar_type{} && e2 >= r2)
+				return {};
+
 			// no collision
 			if (r2 - e2 + a2 < default_epsilon<scalar_type>)
 				return {};
-- 
2.43.0


From 43944f3fb8fa5ee1bdb91f30a8d3186b144388a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:08 +0000
Subject: [PATCH 42/57] fix: triangle: contains accepted points past the end of
 an edge

---
 include/muu/impl/geometry_common.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 22917e8..d07e448 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -423,7 +423,9 @@ namespace muu::impl
 			const auto v = vector_type::cross(c, a);
 			const auto w = vector_type::cross(a, b);
 
-			return vector_type::dot(u, v) >= scalar_type{} && vector_type::dot(u, w) >= scalar_type{};
+			return vector_type::dot(u, v) >= scalar_type{} //
+				&& vector_type::dot(u, w) >= scalar_type{}
+				&& vector_type::dot(v, w) >= scalar_type{};
 		}
 
 		MUU_PURE_GETTER
-- 
2.43.0


From f124d48faecb65d691ae2110a9af25f9f4832c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:38 +0000
Subject: [PATCH 43/57] fix: line_segment: coplanar said no when a point of the
 second is on the first's line

---
 include/muu/line_segment.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/muu/line_segment.h b/include/muu/line_segment.h
index 13c6c1d..e56aadf 100644
--- a/include/muu/line_segment.h
+++ b/include/muu/line_segment.h
@@ -539,6 +539,9 @@ namespace muu
 													  MUU_VPARAM(line_segment) seg2,
 													  scalar_type epsilon = default_epsilon<scalar_type>) noexcept
 		{
+			if (colinear(seg1, seg2.points[0], epsilon))
+				return true;
+
 			const auto n = triangles::normal(seg1.points[0], seg1.points[1], seg2.points[0]);
 			return planes::contains_point(n, planes::d_term(seg1.points[0], n), seg2.points[1], epsilon);
 		}
-- 
2.43.0


From baef473f2e9a0802d77a99c44857f753c4033913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:06 +0000
Subject: [PATCH 44/57] fix: ray: hits returned NaN for a ray in the plane of a
 box's face

---
 include/muu/impl/geometry_common.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index d07e448..212ca04 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1107,14 +1107,23 @@ namespace muu::impl
 		{
 			MUU_FMA_BLOCK;
 
-			const auto t1	= (box_min.x - ray_origin.x) / ray_direction.x;
-			const auto t2	= (box_max.x - ray_origin.x) / ray_direction.x;
-			const auto t3	= (box_min.y - ray_origin.y) / ray_direction.y;
-			const auto t4	= (box_max.y - ray_origin.y) / ray_direction.y;
-			const auto t5	= (box_min.z - ray_origin.z) / ray_direction.z;
-			const auto t6	= (box_max.z - ray_origin.z) / ray_direction.z;
-			const auto tmin = muu::max(muu::min(t1, t2), muu::min(t3, t4), muu::min(t5, t6));
-			const auto tmax = muu::min(muu::max(t1, t2), muu::max(t3, t4), muu::max(t5, t6));
+			auto tmin = constants<scalar_type>::lowest;
+			auto tmax = constants<scalar_type>::highest;
+
+			const auto clip = [&](scalar_type origin, scalar_type direction, scalar_type lo, scalar_type hi) constexpr noexcept
+			{
+				// a ray parallel to a slab and touching it is not constrained by it (and would cause 0/0 below)
+				if (direction == scalar_type{} && (origin == lo || origin == hi))
+					return;
+
+				const auto t1 = (lo - origin) / direction;
+				const auto t2 = (hi - origin) / direction;
+				tmin		  = muu::max(tmin, muu::min(t1, t2));
+				tmax		  = muu::min(tmax, muu::max(t1, t2));
+			};
+			clip(ray_origin.x, ray_direction.x, box_min.x, box_max.x);
+			clip(ray_origin.y, ray_direction.y, box_min.y, box_max.y);
+			clip(ray_origin.z, ray_direction.z, box_min.z, box_max.z);
 
 			if (tmax < scalar_type{} || tmin > tmax)
 				return {};
-- 
2.43.0


From 6f8b5d15601afb166c5c17406975c6cae25e8172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:24 +0000
Subject: [PATCH 45/57] fix: triangle: intersects with a line segment output
 was marked pure

---
 include/muu/impl/tri_tri_intersection.h | 5 ++---
 include/muu/triangle.h                  | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/muu/impl/tri_tri_intersection.h b/include/muu/impl/tri_tri_intersection.h
index 6a30a49..ca2e01a 100644
--- a/include/muu/impl/tri_tri_intersection.h
+++ b/include/muu/impl/tri_tri_intersection.h
@@ -342,7 +342,6 @@ namespace muu::impl
 			isectpoint1 = VTX0 + diff;
 		}
 
-		MUU_PURE_GETTER
 		static constexpr bool compute_intervals_isectline(vector_param VERT0,
 														  vector_param VERT1,
 														  vector_param VERT2,
@@ -375,7 +374,7 @@ namespace muu::impl
 			return false;
 		}
 
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr bool intersects(vector_param V0,
 										 vector_param V1,
 										 vector_param V2,
@@ -589,7 +588,7 @@ namespace muu
 	}
 
 	template <typename Scalar>
-	MUU_PURE_GETTER
+	MUU_NODISCARD
 	constexpr bool MUU_VECTORCALL triangle<Scalar>::intersects(MUU_VPARAM(triangle) tri1,
 															   MUU_VPARAM(triangle) tri2,
 															   std::optional<line_segment<Scalar>>& seg) noexcept
diff --git a/include/muu/triangle.h b/include/muu/triangle.h
index 3cc4975..d849ec0 100644
--- a/include/muu/triangle.h
+++ b/include/muu/triangle.h
@@ -555,13 +555,13 @@ namespace muu
 		//--------------------------------
 
 		/// \brief	Returns true if two triangles intersect, plus the line segment of the intersection (if one exists).
-		MUU_PURE_GETTER
+		MUU_NODISCARD
 		static constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(triangle) tri1,
 														MUU_VPARAM(triangle) tri2,
 														std::optional<line_segment<scalar_type>>& seg) noexcept;
 
 		/// \brief	Returns true if a triangle intersects with another triangle, plus the line segment of the intersection (if one exists).
-		MUU_PURE_INLINE_GETTER
+		MUU_NODISCARD
 		constexpr bool MUU_VECTORCALL intersects(MUU_VPARAM(triangle) tri,
 												 std::optional<line_segment<scalar_type>>& seg) const noexcept
 		{
-- 
2.43.0


From 200dfa94c5815be28cd29c35dcf565d36254efb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:41 +0000
Subject: [PATCH 46/57] fix: oriented_bounding_box:
 intersects(oriented_bounding_box) ignored the edge-edge axes

---
 include/muu/oriented_bounding_box.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/muu/oriented_bounding_box.h b/include/muu/oriented_bounding_box.h
index 95b5764..814a01a 100644
--- a/include/muu/oriented_bounding_box.h
+++ b/include/muu/oriented_bounding_box.h
@@ -901,6 +901,28 @@ namespace muu
 						return false;
 				}
 			}
+
+			// boxes can also be separated by an axis perpendicular to an edge of each
+			for (size_t i = 0; i < 3; i++)
+			{
+				for (size_t j = 0; j < 3; j++)
+				{
+					const auto axis = vector_type::cross(bb1.axes.m[i], bb2.axes.m[j]);
+					if (vector_type::approx_zero(axis))
+						continue;
+
+					sat_tester tester1{ axis, corners1[0] };
+					for (size_t c = 1; c < 8; c++)
+						tester1.add(axis, corners1[c]);
+
+					sat_tester tester2{ axis, corners2[0] };
+					for (size_t c = 1; c < 8; c++)
+						tester2.add(axis, corners2[c]);
+
+					if (!tester1(tester2))
+						return false;
+				}
+			}
 			return true;
 		}
 
-- 
2.43.0


From fa5093781604bb0124592e0bcb3c23fc6905f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:41 +0000
Subject: [PATCH 47/57] fix: bounding_box: intersects(oriented_bounding_box)
 ignored the edge-edge axes

---
 .../bounding_box_x_oriented_bounding_box.h    | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/muu/impl/bounding_box_x_oriented_bounding_box.h b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
index 6a0f279..2f9c0e6 100644
--- a/include/muu/impl/bounding_box_x_oriented_bounding_box.h
+++ b/include/muu/impl/bounding_box_x_oriented_bounding_box.h
@@ -99,6 +99,31 @@ namespace muu
 				return false;
 		}
 
+		// test axes perpendicular to an edge of each
+		const vector_type aabb_axes[] = { vector_type{ scalar_type{ 1 }, scalar_type{}, scalar_type{} },
+										  vector_type{ scalar_type{}, scalar_type{ 1 }, scalar_type{} },
+										  vector_type{ scalar_type{}, scalar_type{}, scalar_type{ 1 } } };
+		for (const auto& aabb_axis : aabb_axes)
+		{
+			for (size_t i = 0; i < 3; i++)
+			{
+				const auto axis = vector_type::cross(aabb_axis, obb.axes.m[i]);
+				if (vector_type::approx_zero(axis))
+					continue;
+
+				sat_tester tester1{ axis, obb_corners[0] };
+				for (size_t c = 1; c < 8; c++)
+					tester1.add(axis, obb_corners[c]);
+
+				sat_tester tester2{ axis, aabb_corners[0] };
+				for (size_t c = 1; c < 8; c++)
+					tester2.add(axis, aabb_corners[c]);
+
+				if (!tester1(tester2))
+					return false;
+			}
+		}
+
 		return true;
 	}
 }
-- 
2.43.0


From a2b7ba887b191b00aa8380700247e60c01e8623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:34 +0000
Subject: [PATCH 48/57] fix: triangle: intersects with a line segment output
 read uninitialized intervals

---
 include/muu/impl/tri_tri_intersection.h | 33 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/muu/impl/tri_tri_intersection.h b/include/muu/impl/tri_tri_intersection.h
index ca2e01a..6e632aa 100644
--- a/include/muu/impl/tri_tri_intersection.h
+++ b/include/muu/impl/tri_tri_intersection.h
@@ -471,21 +471,24 @@ namespace muu::impl
 			scalar_type isect2[2];
 			vector_type isectpointB1;
 			vector_type isectpointB2;
-			compute_intervals_isectline(U0,
-										U1,
-										U2,
-										up0,
-										up1,
-										up2,
-										du0,
-										du1,
-										du2,
-										du0du1,
-										du0du2,
-										isect2[0],
-										isect2[1],
-										isectpointB1,
-										isectpointB2);
+			if (compute_intervals_isectline(U0,
+											U1,
+											U2,
+											up0,
+											up1,
+											up2,
+											du0,
+											du1,
+											du2,
+											du0du1,
+											du0du2,
+											isect2[0],
+											isect2[1],
+											isectpointB1,
+											isectpointB2))
+			{
+				return coplanar_tri_tri(N1, V0, V1, V2, U0, U1, U2);
+			}
 
 			unsigned smallest1{};
 			unsigned smallest2{};
-- 
2.43.0


From 770dd15e8778f75004528ddf761f918696af28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:34 +0000
Subject: [PATCH 49/57] fix: ray: hits returned NaN for a ray through a
 sphere's center

---
 include/muu/impl/geometry_common.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/muu/impl/geometry_common.h b/include/muu/impl/geometry_common.h
index 212ca04..6206879 100644
--- a/include/muu/impl/geometry_common.h
+++ b/include/muu/impl/geometry_common.h
@@ -1088,8 +1088,7 @@ namespace muu::impl
 			if (r2 - e2 + a2 < default_epsilon<scalar_type>)
 				return {};
 
-			const scalar_type b = muu::sqrt(e2 - a2);
-			const scalar_type f = muu::sqrt(r2 - (b * b));
+			const scalar_type f = muu::sqrt(r2 - e2 + a2);
 
 			// ray inside sphere
 			if (e2 < r2)
-- 
2.43.0


From 3d10546d90a0f2c4b4ad0445a1f679d19fa79081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:52 +0000
Subject: [PATCH 50/57] fix: half: atan2 swapped its arguments

---
 include/muu/half.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index db5c643..7121bb6 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1213,7 +1213,7 @@ namespace muu
 	MUU_CONST_INLINE_GETTER
 	constexpr half MUU_VECTORCALL atan2(half y, half x) noexcept
 	{
-		return half{ muu::atan2(static_cast<float>(x), static_cast<float>(y)) };
+		return half{ muu::atan2(static_cast<float>(y), static_cast<float>(x)) };
 	}
 
 	/// \brief	Returns a linear interpolation between two half-precision floats.
-- 
2.43.0


From ea1ed390beebe574d82023bec1d92b2e7738fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:52 +0000
Subject: [PATCH 51/57] fix: between: a negative lower bound was compared as a
 huge unsigned value

---
 include/muu/impl/core_utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/muu/impl/core_utils.h b/include/muu/impl/core_utils.h
index f8b72c1..e05cc9b 100644
--- a/include/muu/impl/core_utils.h
+++ b/include/muu/impl/core_utils.h
@@ -124,6 +124,11 @@ namespace muu
 				{
 					if (high < rhs{})
 						return false;
+					if constexpr (is_integral<rhs>)
+					{
+						if (low < rhs{})
+							return between(val, rhs{}, high);
+					}
 				}
 				if constexpr (!std::is_same_v<lhs, rhs>)
 				{
-- 
2.43.0


From 46b31291b17af4a9f283ae4180b2392b3e1af16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:15 +0000
Subject: [PATCH 52/57] fix: half: emulated conversion from float did not round
 and mangled large and small values

---
 include/muu/half.h | 62 ++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 7121bb6..2fb0144 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1260,49 +1260,41 @@ namespace muu::impl
 		const uint32_t bits32 = muu::bit_cast<uint32_t>(val);
 		const uint16_t s16	  = static_cast<uint16_t>((bits32 & 0x80000000u) >> 16);
 
-		// 0000 0000 0111 1111 1111 1111 1111 1111
-		const uint32_t frac32 = bits32 & 0x007FFFFFu;
+		const uint32_t abs32  = bits32 & 0x7FFFFFFFu;
 
-		// 0111 1111 1000 0000 0000 0000 0000 0000
-		const uint32_t exp32 = (bits32 & 0x7F800000u) >> 23;
+		// infinity and nan
+		if MUU_UNLIKELY(abs32 >= 0x7F800000u)
+		{
+			uint16_t frac16 = static_cast<uint16_t>((abs32 >> 13) & 0x03FFu);
+			if (abs32 > 0x7F800000u && frac16 == 0)
+				frac16 = 0x0200_u16; // must remain a nan
+			return static_cast<uint16_t>(s16 | 0x7C00_u16 | frac16);
+		}
 
-		// unbiased exp32
-		const int8_t exp32ub = static_cast<int8_t>(exp32) - f16_single_exp_bias;
+		// too large (65520 and above round to infinity)
+		if MUU_UNLIKELY(abs32 >= 0x477FF000u)
+			return static_cast<uint16_t>(s16 | 0x7C00_u16);
 
-		uint16_t exp16 = static_cast<uint16_t>(exp32ub + 15);
+		// too small (2^-25 and below round to zero)
+		if MUU_UNLIKELY(abs32 <= 0x33000000u)
+			return s16;
 
-		// clamp the exponent
-		if MUU_UNLIKELY(exp32 == 0xFF /*|| exp32ub > single_exp_bias*/)
+		uint32_t shift = 13u;
+		uint32_t frac  = abs32 - (static_cast<uint32_t>(f16_single_exp_bias - f16_half_exp_bias) << 23);
+		if MUU_UNLIKELY(abs32 < 0x38800000u) // subnormal (less than 2^-14)
 		{
-			// 0001 1111, use all five bits
-			exp16 = 0x1F_u16;
-		}
-		else if MUU_UNLIKELY(exp32 == 0 /*|| exp32ub < -(single_exp_bias - 1)*/)
-		{
-			exp16 = {};
+			shift = 126u - (abs32 >> 23);
+			frac  = (abs32 & 0x007FFFFFu) | 0x00800000u;
 		}
 
-		uint16_t frac16 = static_cast<uint16_t>(frac32 >> 13);
+		// round to nearest, ties to even (a carry out of the significand correctly increments the exponent)
+		const uint32_t rem	   = frac & ((1u << shift) - 1u);
+		const uint32_t halfway = 1u << (shift - 1u);
+		frac >>= shift;
+		if (rem > halfway || (rem == halfway && (frac & 1u)))
+			frac++;
 
-		// nan
-		if MUU_UNLIKELY(exp32 == 0xFF && frac32 != 0 && frac16 == 0)
-		{
-			// 0000 0010 0000 0000
-			frac16 = 0x0200_u16;
-		}
-		// denormal overflow
-		else if (exp32 == 0 || (exp16 == 0x1F && exp32 != 0xFF))
-		{
-			frac16 = {};
-		}
-		// denormal underflow
-		else if MUU_UNLIKELY(exp16 == 0 && exp32 != 0)
-		{
-			// 0000 0001 0000 0000
-			frac16 = 0x0100 | (frac16 >> 2);
-		}
-		exp16 = static_cast<uint16_t>(exp16 << 10);
-		return s16 | exp16 | frac16;
+		return static_cast<uint16_t>(s16 | frac);
 	}
 
 	MUU_CONST_GETTER
-- 
2.43.0


From d23ff5ad59c9fedce2992a6b925593a7a5421a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:15 +0000
Subject: [PATCH 53/57] fix: half: numeric_limits round_error was not half a
 unit in the last place

---
 include/muu/half.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/half.h b/include/muu/half.h
index 2fb0144..238c0a8 100644
--- a/include/muu/half.h
+++ b/include/muu/half.h
@@ -1488,9 +1488,9 @@ namespace std
 		{
 #if MUU_HALF_EMULATED
 			using namespace muu::literals;
-			return half::from_bits(0b0'00100'0000000000_u16); // epsilon / 2
+			return half::from_bits(0b0'01110'0000000000_u16); // 0.5 (in ULPs)
 #else
-			return half{ 0.00048828125f }; // epsilon / 2
+			return half{ 0.5f }; // 0.5 (in ULPs)
 #endif
 		}
 
-- 
2.43.0


From 93374587ed78759a4405e3b68be3a4fd89433ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:15 +0000
Subject: [PATCH 54/57] fix: floor and ceil of an infinite half were undefined

---
 include/muu/math.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/muu/math.h b/include/muu/math.h
index 9adc818..28b94bc 100644
--- a/include/muu/math.h
+++ b/include/muu/math.h
@@ -610,6 +610,8 @@ namespace muu
 
 			if (x == T{} || x != x) // accounts for -0.0 and NaN
 				return x;
+			if (x < constants<T>::lowest || x > constants<T>::highest) // infinities
+				return x;
 
 			return static_cast<T>(static_cast<intmax_t>(x) - static_cast<intmax_t>(x < static_cast<intmax_t>(x)));
 		}
@@ -744,6 +746,8 @@ namespace muu
 
 			if (x == T{} || x != x) // accounts for -0.0 and NaN
 				return x;
+			if (x < constants<T>::lowest || x > constants<T>::highest) // infinities
+				return x;
 
 			return static_cast<T>(static_cast<intmax_t>(x) + static_cast<intmax_t>(x > static_cast<intmax_t>(x)));
 		}
-- 
2.43.0


From 3c77b7a88ab987d5d0ea16cb2c25ae9286811a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:17 +0000
Subject: [PATCH 55/57] fix: constants: e and everything derived from it was
 wrong beyond 16 digits

---
 include/muu/impl/core_constants.h | 72 +++++++++++++++----------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/include/muu/impl/core_constants.h b/include/muu/impl/core_constants.h
index 565a87d..e65b15b 100644
--- a/include/muu/impl/core_constants.h
+++ b/include/muu/impl/core_constants.h
@@ -281,24 +281,24 @@ namespace muu
 			static constexpr T five_over_three_pi	  = T(0.530516476972984452563L); ///< `5 / (3 * pi)`
 			static constexpr T seven_over_three_pi	  = T(0.742723067762178233588L); ///< `7 / (3 * pi)`
 			static constexpr T eight_over_three_pi	  = T(0.848826363156775124101L); ///< `8 / (3 * pi)`
-			static constexpr T e					  = T(2.718281828459045534885L); ///< `e`
-			static constexpr T one_over_e			  = T(0.367879441171442281059L); ///< `1 / e`
-			static constexpr T sqrt_e				  = T(1.648721270700128237684L); ///< `sqrt(e)`
-			static constexpr T one_over_sqrt_e		  = T(0.606530659712633390187L); ///< `1 / sqrt(e)`
-			static constexpr T e_over_two			  = T(1.359140914229522767442L); ///< `e / 2`
-			static constexpr T e_over_three			  = T(0.906093942819681844962L); ///< `e / 3`
-			static constexpr T e_over_four			  = T(0.679570457114761383721L); ///< `e / 4`
-			static constexpr T e_over_five			  = T(0.543656365691809106977L); ///< `e / 5`
-			static constexpr T e_over_six			  = T(0.453046971409840922481L); ///< `e / 6`
-			static constexpr T e_over_seven			  = T(0.388325975494149362126L); ///< `e / 7`
-			static constexpr T e_over_eight			  = T(0.339785228557380691861L); ///< `e / 8`
-			static constexpr T two_over_e			  = T(0.735758882342884562119L); ///< `2 / e`
-			static constexpr T three_over_e			  = T(1.103638323514326843178L); ///< `3 / e`
-			static constexpr T four_over_e			  = T(1.471517764685769124237L); ///< `4 / e`
-			static constexpr T five_over_e			  = T(1.839397205857211405296L); ///< `5 / e`
-			static constexpr T six_over_e			  = T(2.207276647028653686356L); ///< `6 / e`
-			static constexpr T seven_over_e			  = T(2.575156088200095967415L); ///< `7 / e`
-			static constexpr T eight_over_e			  = T(2.943035529371538248474L); ///< `8 / e`
+			static constexpr T e					  = T(2.718281828459045235360L); ///< `e`
+			static constexpr T one_over_e			  = T(0.367879441171442321596L); ///< `1 / e`
+			static constexpr T sqrt_e				  = T(1.648721270700128146849L); ///< `sqrt(e)`
+			static constexpr T one_over_sqrt_e		  = T(0.606530659712633423604L); ///< `1 / sqrt(e)`
+			static constexpr T e_over_two			  = T(1.359140914229522617680L); ///< `e / 2`
+			static constexpr T e_over_three			  = T(0.906093942819681745120L); ///< `e / 3`
+			static constexpr T e_over_four			  = T(0.679570457114761308840L); ///< `e / 4`
+			static constexpr T e_over_five			  = T(0.543656365691809047072L); ///< `e / 5`
+			static constexpr T e_over_six			  = T(0.453046971409840872560L); ///< `e / 6`
+			static constexpr T e_over_seven			  = T(0.388325975494149319337L); ///< `e / 7`
+			static constexpr T e_over_eight			  = T(0.339785228557380654420L); ///< `e / 8`
+			static constexpr T two_over_e			  = T(0.735758882342884643191L); ///< `2 / e`
+			static constexpr T three_over_e			  = T(1.103638323514326964787L); ///< `3 / e`
+			static constexpr T four_over_e			  = T(1.471517764685769286382L); ///< `4 / e`
+			static constexpr T five_over_e			  = T(1.839397205857211607978L); ///< `5 / e`
+			static constexpr T six_over_e			  = T(2.207276647028653929573L); ///< `6 / e`
+			static constexpr T seven_over_e			  = T(2.575156088200096251169L); ///< `7 / e`
+			static constexpr T eight_over_e			  = T(2.943035529371538572764L); ///< `8 / e`
 			static constexpr T phi					  = T(1.618033988749894848205L); ///< `phi`
 			static constexpr T one_over_phi			  = T(0.618033988749894848205L); ///< `1 / phi`
 			static constexpr T sqrt_phi				  = T(1.272019649514068964252L); ///< `sqrt(phi)`
@@ -404,24 +404,24 @@ namespace muu
 			static constexpr float128_t five_over_three_pi	   = 0.530516476972984452562945877908381207q;
 			static constexpr float128_t seven_over_three_pi	   = 0.742723067762178233588124229071733689q;
 			static constexpr float128_t eight_over_three_pi	   = 0.848826363156775124100713404653409931q;
-			static constexpr float128_t e					   = 2.718281828459045534884808148490265012q;
-			static constexpr float128_t one_over_e			   = 0.367879441171442281059287928010393142q;
-			static constexpr float128_t sqrt_e				   = 1.648721270700128237684053351021451524q;
-			static constexpr float128_t one_over_sqrt_e		   = 0.606530659712633390187322401455485737q;
-			static constexpr float128_t e_over_two			   = 1.359140914229522767442404074245132506q;
-			static constexpr float128_t e_over_three		   = 0.906093942819681844961602716163421671q;
-			static constexpr float128_t e_over_four			   = 0.679570457114761383721202037122566253q;
-			static constexpr float128_t e_over_five			   = 0.543656365691809106976961629698053002q;
-			static constexpr float128_t e_over_six			   = 0.453046971409840922480801358081710835q;
-			static constexpr float128_t e_over_seven		   = 0.388325975494149362126401164070037859q;
-			static constexpr float128_t e_over_eight		   = 0.339785228557380691860601018561283126q;
-			static constexpr float128_t two_over_e			   = 0.735758882342884562118575856020786284q;
-			static constexpr float128_t three_over_e		   = 1.103638323514326843177863784031179427q;
-			static constexpr float128_t four_over_e			   = 1.471517764685769124237151712041572569q;
-			static constexpr float128_t five_over_e			   = 1.839397205857211405296439640051965711q;
-			static constexpr float128_t six_over_e			   = 2.207276647028653686355727568062358853q;
-			static constexpr float128_t seven_over_e		   = 2.575156088200095967415015496072751996q;
-			static constexpr float128_t eight_over_e		   = 2.943035529371538248474303424083145138q;
+			static constexpr float128_t e					   = 2.718281828459045235360287471352662498q;
+			static constexpr float128_t one_over_e			   = 0.367879441171442321595523770161460867q;
+			static constexpr float128_t sqrt_e				   = 1.648721270700128146848650787814163572q;
+			static constexpr float128_t one_over_sqrt_e		   = 0.606530659712633423603799534991180453q;
+			static constexpr float128_t e_over_two			   = 1.359140914229522617680143735676331249q;
+			static constexpr float128_t e_over_three		   = 0.906093942819681745120095823784220833q;
+			static constexpr float128_t e_over_four			   = 0.679570457114761308840071867838165624q;
+			static constexpr float128_t e_over_five			   = 0.543656365691809047072057494270532500q;
+			static constexpr float128_t e_over_six			   = 0.453046971409840872560047911892110416q;
+			static constexpr float128_t e_over_seven		   = 0.388325975494149319337183924478951785q;
+			static constexpr float128_t e_over_eight		   = 0.339785228557380654420035933919082812q;
+			static constexpr float128_t two_over_e			   = 0.735758882342884643191047540322921735q;
+			static constexpr float128_t three_over_e		   = 1.103638323514326964786571310484382602q;
+			static constexpr float128_t four_over_e			   = 1.471517764685769286382095080645843470q;
+			static constexpr float128_t five_over_e			   = 1.839397205857211607977618850807304337q;
+			static constexpr float128_t six_over_e			   = 2.207276647028653929573142620968765205q;
+			static constexpr float128_t seven_over_e		   = 2.575156088200096251168666391130226072q;
+			static constexpr float128_t eight_over_e		   = 2.943035529371538572764190161291686940q;
 			static constexpr float128_t phi					   = 1.618033988749894848204586834365638118q;
 			static constexpr float128_t one_over_phi		   = 0.618033988749894848204586834365638118q;
 			static constexpr float128_t sqrt_phi			   = 1.272019649514068964252422461737491492q;
-- 
2.43.0


From 0e6a736f02bdc86414c68e1f0e39ce22541c2f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:31 +0000
Subject: [PATCH 56/57] fix: static_array: empty() was inverted

---
 include/muu/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/muu/static_array.h b/include/muu/static_array.h
index 5ae482b..56b46e1 100644
--- a/include/muu/static_array.h
+++ b/include/muu/static_array.h
@@ -51,7 +51,7 @@ namespace muu
 		MUU_CONSTEVAL
 		bool empty() const noexcept
 		{
-			return sizeof...(Elements) > 0u;
+			return sizeof...(Elements) == 0u;
 		}
 
 		/// \brief	Returns the first element in the array.
-- 
2.43.0


From 0583986c15b2d5e3a209d3715c8ebbc949c898ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:31 +0000
Subject: [PATCH 57/57] fix: static_array: ordering comparisons did not compile
 and compared past the end

---
 include/muu/static_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/muu/static_array.h b/include/muu/static_array.h
index 56b46e1..0be3407 100644
--- a/include/muu/static_array.h
+++ b/include/muu/static_array.h
@@ -164,7 +164,7 @@ namespace muu
 		template <T... E>
 		static constexpr bool is_less = []() noexcept
 		{
-			if constexpr (is_equal<T, E...>)
+			if constexpr (is_equal<E...>)
 				return false;
 			else
 			{
@@ -173,7 +173,7 @@ namespace muu
 				auto* first1	 = values;
 				const auto last1 = first1 + sizeof...(Elements);
 				auto* first2	 = static_array<T, E...>::values;
-				const auto last2 = last1 + sizeof...(E);
+				const auto last2 = first2 + sizeof...(E);
 
 				for (; (first1 != last1) && (first2 != last2); ++first1, ++first2)
 				{
-- 
2.43.0

