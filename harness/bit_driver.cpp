// Driver of BitOps.tla. Every operation is performed at run time; for the inputs of a table also in constant expressions.
#include "muu/core.h"
#include "muu/apply_alignment.h"
#include "muu/bit.h"
#include "muu/bit_ceil.h"
#include "muu/bit_fill.h"
#include "muu/bit_floor.h"
#include "muu/bit_pack.h"
#include "muu/byte_reverse.h"
#include "muu/countl.h"
#include "muu/countr.h"
#include "muu/popcount.h"
#include "seq.h"
#include <array>
#include <utility>
using seq::op;
using seq::out;
enum class e8 : uint8_t {};
enum class e32 : uint32_t {};
enum class e64 : uint64_t {};
enum class ei32 : int32_t {};
enum class ei8 : int8_t {};
using u128 = unsigned __int128;
using i128 = __int128;
template <int>
struct ty_;
#define TY(n, ...)                                                                                                             \
	template <>                                                                                                                \
	struct ty_<n>                                                                                                              \
	{                                                                                                                          \
		using type = __VA_ARGS__;                                                                                              \
	}
TY(0, uint8_t); TY(1, uint16_t); TY(2, uint32_t); TY(3, unsigned long); TY(4, unsigned long long); TY(5, u128); TY(6, e8); TY(7, e32); TY(8, e64);
TY(9, char16_t); TY(10, char32_t); TY(11, int8_t); TY(12, int16_t); TY(13, int32_t); TY(14, int64_t); TY(15, i128); TY(16, ei32); TY(17, char); TY(18, ei8);
template <int N>
using ty = typename ty_<N>::type;

template <typename T>
static constexpr T make(const long* b, size_t n)
{
	u128 r = 0;
	for (size_t i = n; i-- > 0;)
		r = (r << 8) | (u128)(unsigned char)b[i];
	return static_cast<T>(r);
}
struct value // bytes of a result
{
	unsigned char b[64]{};
	size_t n = 0;
	template <typename T>
	constexpr void put(T v)
	{
		u128 x = (u128)v;
		for (size_t i = 0; i < sizeof(T); i++)
			b[n++] = (unsigned char)(x >> (8 * i));
	}
	constexpr void num(int v) { b[n++] = (unsigned char)v; }
	void to(out& w) const
	{
		for (size_t i = 0; i < n; i++)
			w.push_back(b[i]);
	}
};
template <typename T>
constexpr bool single(T v)
{
	int k = 0;
	for (size_t i = 0; i < 8 * sizeof(T); i++)
		k += (int)(((u128)v >> i) & 1);
	return k == 1;
}
template <typename T>
constexpr bool ceil_fits(T v)
{
	return !(((u128)v >> (8 * sizeof(T) - 1)) & 1) || single(v);
}
template <typename T, bool = std::is_enum_v<T>>
struct under
{
	using type = std::underlying_type_t<T>;
};
template <typename T>
struct under<T, false>
{
	using type = T;
};
template <typename T>
constexpr void f_count(value& w, T v)
{
	w.num(muu::countl_zero(v));
	w.num(muu::countl_one(v));
	w.num(muu::countr_zero(v));
	w.num(muu::countr_one(v));
	w.num(muu::popcount(v));
	w.num(muu::has_single_bit(v));
}
template <typename T>
constexpr void f_unary(value& w, T v, int which)
{
	switch (which)
	{
		case 0: f_count(w, v); break;
		case 1: w.put(muu::bit_width(v)); break;
		case 2: w.put(muu::bit_floor(v)); break;
		case 3: w.put(muu::bit_ceil(v)); break;
		case 4:
			if constexpr (sizeof(T) > 1)
				w.put(muu::byte_reverse(v));
			break;
	}
}
template <typename T>
constexpr void f_fill(value& w, size_t c)
{
	w.put(muu::bit_fill_right<T>(c));
	w.put(muu::bit_fill_left<T>(c));
}
template <typename T, size_t... I>
constexpr int sel_static(T v, size_t i, std::index_sequence<I...>)
{
	int r = 0;
	((I == i ? (void)(r = muu::byte_select<I>(v)) : (void)0), ...);
	return r;
}
template <typename T>
constexpr void f_sel(value& w, T v, size_t i)
{
	w.num(muu::byte_select(v, i));
	w.num(sel_static(v, i, std::make_index_sequence<sizeof(T)>{}));
}
template <size_t... I, typename T>
constexpr void swz1(value& w, T v)
{
	if constexpr (((I < sizeof(T)) && ...))
		w.put(muu::swizzle<I...>(v));
}
template <typename T>
constexpr void f_swz(value& w, T v, int p)
{
	switch (p)
	{
		case 0: swz1<0>(w, v); break;
		case 1: swz1<0, 0>(w, v); break;
		case 2: swz1<1, 0>(w, v); break;
		case 3: swz1<0, 1>(w, v); break;
		case 4: swz1<3, 2, 3>(w, v); break;
		case 5: swz1<3, 2, 1, 0>(w, v); break;
		case 6: swz1<0, 1, 2, 3>(w, v); break;
		case 7: swz1<2>(w, v); break;
		case 8: swz1<7, 0, 7>(w, v); break;
		case 9: swz1<0, 1, 2, 3, 4, 5, 6, 7>(w, v); break;
		case 10: swz1<6, 4, 2, 0, 1>(w, v); break;
		case 11: swz1<15>(w, v); break;
		case 12: swz1<15, 0, 15, 1, 8, 7, 2, 3, 12>(w, v); break;
		case 13: swz1<0, 2, 4, 6, 8, 10, 12, 14, 1, 3, 5, 7, 9, 11, 13, 15>(w, v); break;
		case 14: swz1<0, 0, 0>(w, v); break;
		case 15: swz1<0, 0, 0, 0, 0>(w, v); break;
	}
}
template <typename R, int... I, size_t... P>
constexpr void pack2(value& w, const long* b, std::index_sequence<P...>)
{
	constexpr size_t sizes[] = { sizeof(ty<I>)... };
	size_t at[sizeof...(I)]{};
	for (size_t i = 1; i < sizeof...(I); i++)
		at[i] = at[i - 1] + sizes[i - 1];
	w.put(muu::bit_pack<R>(make<ty<I>>(b + at[P], sizeof(ty<I>))...));
}
template <typename R, int... I>
constexpr void pack1(value& w, const long* b)
{
	pack2<R, I...>(w, b, std::make_index_sequence<sizeof...(I)>{});
}
constexpr int pack_bytes[] = { 2, 3, 3, 3, 8, 16, 2, 3, 8, 8, 16, 2, 8, 8, 15, 2, 4, 2, 8, 2, 9, 8, 2, 3 };
constexpr void f_pack(value& w, const long* b, int c)
{
	switch (c)
	{
		case 0: pack1<void, 0, 0>(w, b); break;
		case 1: pack1<void, 1, 0>(w, b); break;
		case 2: pack1<void, 0, 1>(w, b); break;
		case 3: pack1<void, 0, 0, 0>(w, b); break;
		case 4: pack1<void, 2, 2>(w, b); break;
		case 5: pack1<void, 3, 3>(w, b); break;
		case 6: pack1<void, 11, 11>(w, b); break;
		case 7: pack1<void, 12, 0>(w, b); break;
		case 8: pack1<void, 13, 13>(w, b); break;
		case 9: pack1<void, 2, 1, 0, 11>(w, b); break;
		case 10: pack1<void, 14, 14>(w, b); break;
		case 11: pack1<void, 6, 6>(w, b); break;
		case 12: pack1<void, 7, 16>(w, b); break;
		case 13: pack1<void, 0, 0, 0, 0, 0, 0, 0, 0>(w, b); break;
		case 14: pack1<void, 3, 2, 1, 0>(w, b); break;
		case 15: pack1<u128, 0, 0>(w, b); break;
		case 16: pack1<int64_t, 12, 12>(w, b); break;
		case 17: pack1<int16_t, 11, 0>(w, b); break;
		case 18: pack1<e64, 2, 2>(w, b); break;
		case 19: pack1<void, 6, 0>(w, b); break;
		case 20: pack1<i128, 13, 7, 0>(w, b); break;
		case 21: pack1<void, 1, 1, 1, 1>(w, b); break;
		case 22: pack1<int32_t, 18, 0>(w, b); break;
		case 23: pack1<void, 17, 17, 17>(w, b); break;
	}
}
template <size_t A, typename T>
constexpr void align1(value& w, T v)
{
	if constexpr (A < 8 * sizeof(T))
	{
		w.put(muu::apply_alignment(v, size_t{ 1 } << A));
		w.put(muu::apply_alignment<(size_t{ 1 } << A)>(v));
	}
}
template <typename T>
constexpr void f_align(value& w, T v, int a)
{
	switch (a)
	{
		case 0: align1<0>(w, v); break;
		case 1: align1<1>(w, v); break;
		case 3: align1<3>(w, v); break;
		case 4: align1<4>(w, v); break;
		case 6: align1<6>(w, v); break;
		case 7: align1<7>(w, v); break;
		case 12: align1<12>(w, v); break;
		case 31: align1<31>(w, v); break;
	}
}
// alignment of pointers, which are never dereferenced
static void ptr_align(value& w, uintptr_t v, int a)
{
	auto put = [&](const volatile void* p) { w.put(reinterpret_cast<uintptr_t>(p)); };
	put(muu::apply_alignment(reinterpret_cast<const char*>(v), size_t{ 1 } << a));
	switch (a)
	{
		case 0: put(muu::apply_alignment<1>(reinterpret_cast<char*>(v))); break;
		case 1: put(muu::apply_alignment<2>(reinterpret_cast<void*>(v))); break;
		case 3: put(muu::apply_alignment<8>(reinterpret_cast<const volatile int*>(v))); break;
		case 4: put(muu::apply_alignment<16>(reinterpret_cast<void*>(v))); break;
		case 6: put(muu::apply_alignment<64>(reinterpret_cast<const void*>(v))); break;
		case 7: put(muu::apply_alignment<128>(reinterpret_cast<char*>(v))); break;
		case 12: put(muu::apply_alignment<4096>(reinterpret_cast<double*>(v))); break;
		case 31: put(muu::apply_alignment<2147483648u>(reinterpret_cast<double*>(v))); break;
	}
}

// constant expressions: a table of inputs
constexpr size_t CT = 160;
constexpr uint64_t mix(uint64_t z)
{
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}
struct bytes
{
	long b[16]{};
};
constexpr bytes ct_input(size_t i)
{
	bytes r;
	if (i < 34) // low bits set, or one bit
		for (size_t k = 0; k < 16; k++)
			r.b[k] = (i & 1) ? (k * 2 < i ? 255 : 0) : (k * 2 == i ? 1 << (i % 8) : 0);
	else if (i < 66)
		for (size_t k = 0; k < 16; k++)
			r.b[k] = k >= (i - 34) / 2 ? 255 - (long)(i & 1) * 128 : (long)(i & 1) * 85;
	else
		for (size_t k = 0; k < 16; k++)
			r.b[k] = (long)(mix(i * 97 + k) & mix(i * 31 + k * 7 + (i % 3)) & 255) >> (i % 4 == 0 ? k / 2 : 0);
	return r;
}
template <int N, int Which>
constexpr auto ct_unary_table()
{
	std::array<value, CT> r{};
	for (size_t i = 0; i < CT; i++)
	{
		auto v = make<ty<N>>(ct_input(i).b, sizeof(ty<N>));
		if (Which != 3 || ceil_fits(v))
			f_unary(r[i], v, Which);
	}
	return r;
}
template <int N>
constexpr auto ct_fill_table()
{
	std::array<value, 133> r{};
	for (size_t i = 0; i < r.size(); i++)
		f_fill<ty<N>>(r[i], i);
	return r;
}
template <int N>
constexpr auto ct_sel_table()
{
	std::array<value, CT> r{};
	for (size_t i = 0; i < CT; i++)
		f_sel(r[i], make<ty<N>>(ct_input(i).b, sizeof(ty<N>)), i % (sizeof(ty<N>) + 3));
	return r;
}
template <int N>
constexpr auto ct_swz_table()
{
	std::array<value, CT> r{};
	for (size_t i = 0; i < CT; i++)
		f_swz(r[i], make<ty<N>>(ct_input(i).b, sizeof(ty<N>)), (int)(i % 16));
	return r;
}
constexpr auto ct_pack_table()
{
	std::array<value, CT> r{};
	for (size_t i = 0; i < CT; i++)
		f_pack(r[i], ct_input(i).b, (int)(i % 24));
	return r;
}
constexpr int ct_al[] = { 0, 1, 3, 4, 6, 7, 12, 31 };
template <int N>
constexpr auto ct_align_table()
{
	std::array<value, CT> r{};
	for (size_t i = 0; i < CT; i++)
		f_align(r[i], make<ty<N>>(ct_input(i).b, sizeof(ty<N>)), ct_al[i % 8]);
	return r;
}

template <int N>
static void run(const op& o, value& w, int part)
{
	using T	 = ty<N>;
	bool ct	 = o[0] != 0;
	auto idx = (size_t)0;
	if (ct) // which input of the table
		for (; idx < CT; idx++)
		{
			auto in	  = ct_input(idx);
			bool same = true;
			for (size_t k = 0; k < sizeof(T); k++)
				same = same && in.b[k] == o[3 + k];
			if (same && (o.name != "sel" || (long)(idx % (sizeof(T) + 3)) == o[2]) && (o.name != "swz" || (long)(idx % 16) == o[2])
				&& (o.name != "align" || ct_al[idx % 8] == o[2]))
				break;
		}
	if (idx >= CT && o.name != "fill")
		ct = false;
	const volatile long* q = o.a.data();
	long b[16]{};
	for (size_t k = 0; k < sizeof(T) && 3 + k < o.a.size(); k++)
		b[k] = q[3 + k];
	T v = make<T>(b, sizeof(T));
	if constexpr (N <= 10)
		if (part == 0)
		{
			if (o.name == "count")
			{
				static constexpr auto t = ct_unary_table<N, 0>();
				ct ? void(w = t[idx]) : f_unary(w, v, 0);
			}
			else if (o.name == "width")
			{
				static constexpr auto t = ct_unary_table<N, 1>();
				ct ? void(w = t[idx]) : f_unary(w, v, 1);
			}
			else if (o.name == "floor")
			{
				static constexpr auto t = ct_unary_table<N, 2>();
				ct ? void(w = t[idx]) : f_unary(w, v, 2);
			}
			else if (o.name == "ceil")
			{
				static constexpr auto t = ct_unary_table<N, 3>();
				ct ? void(w = t[idx]) : f_unary(w, v, 3);
			}
			else if (o.name == "rev")
			{
				static constexpr auto t = ct_unary_table<N, 4>();
				ct ? void(w = t[idx]) : f_unary(w, v, 4);
			}
			else if (o.name == "fill")
			{
				static constexpr auto t = ct_fill_table<N>();
				ct ? void(w = t[(size_t)o[2]]) : f_fill<T>(w, (size_t)o[2]);
			}
			else if (o.name == "align")
			{
				static constexpr auto t = ct_align_table<N>();
				if (ct)
					w = t[idx];
				else if (N == 3 && v != T{} && (b[0] + b[1]) % 2)
					ptr_align(w, (uintptr_t)v, (int)o[2]);
				else
					f_align(w, v, (int)o[2]);
			}
		}
	if (o.name == "sel")
	{
		static constexpr auto t = ct_sel_table<N>();
		ct ? void(w = t[idx]) : f_sel(w, v, (size_t)o[2]);
	}
	else if (o.name == "swz")
	{
		static constexpr auto t = ct_swz_table<N>();
		ct ? void(w = t[idx]) : f_swz(w, v, (int)o[2]);
	}
}
// every type is compiled in one of the parts
#ifndef PART
	#define PART -1
#endif
#define RUN_DECL(n) void run##n(const op& o, value& w);
#define RUN_DEF(n)                                                                                                             \
	void run##n(const op& o, value& w) { run<n>(o, w, 0); }
RUN_DECL(0) RUN_DECL(1) RUN_DECL(2) RUN_DECL(3) RUN_DECL(4) RUN_DECL(5) RUN_DECL(6) RUN_DECL(7) RUN_DECL(8) RUN_DECL(9) RUN_DECL(10)
RUN_DECL(11) RUN_DECL(12) RUN_DECL(13) RUN_DECL(14) RUN_DECL(15) RUN_DECL(16) RUN_DECL(17) RUN_DECL(18)
#if PART == -1 || PART == 0
RUN_DEF(0) RUN_DEF(1) RUN_DEF(2)
#endif
#if PART == -1 || PART == 1
RUN_DEF(3) RUN_DEF(4) RUN_DEF(11)
#endif
#if PART == -1 || PART == 2
RUN_DEF(5) RUN_DEF(12) RUN_DEF(13)
#endif
#if PART == -1 || PART == 3
RUN_DEF(6) RUN_DEF(7) RUN_DEF(14)
#endif
#if PART == -1 || PART == 4
RUN_DEF(8) RUN_DEF(9) RUN_DEF(15) RUN_DEF(18)
#endif
#if PART == -1 || PART == 5
RUN_DEF(10) RUN_DEF(16) RUN_DEF(17)
#endif
#if PART <= 0
void seq::reset() {}
void seq::apply(const op& o, out& w)
{
	static void (*const runs[])(const op&, value&) = { run0, run1, run2, run3, run4, run5, run6, run7, run8, run9, run10, run11, run12, run13, run14, run15, run16, run17, run18 };
	value r;
	if (o.name == "pack")
	{
		static constexpr auto t = ct_pack_table();
		size_t n				= (size_t)pack_bytes[o[1]];
		size_t i				= CT;
		long b[16]{};
		for (size_t k = 0; k < n; k++)
			b[k] = o[3 + k];
		if (o[0])
			for (i = 0; i < CT; i++)
			{
				auto in	  = ct_input(i);
				bool same = (long)(i % 24) == o[1];
				for (size_t k = 0; k < n; k++)
					same = same && in.b[k] == b[k];
				if (same)
					break;
			}
		i < CT ? void(r = t[i]) : f_pack(r, b, (int)o[1]);
	}
	else
		runs[o[1]](o, r);
	r.to(w);
}
static const size_t size_of[] = { 1, 2, 4, 8, 8, 16, 1, 4, 8, 2, 4, 1, 2, 4, 8, 16, 4, 1, 1 };
static const std::vector<std::vector<int>> patterns = { { 0 }, { 0, 0 }, { 1, 0 }, { 0, 1 }, { 3, 2, 3 }, { 3, 2, 1, 0 }, { 0, 1, 2, 3 }, { 2 }, { 7, 0, 7 },
	{ 0, 7 }, { 6 }, { 15 }, { 15 }, { 15 }, { 0 }, { 0 } }; // only the largest index matters here
std::vector<op> seq::random(rng& r)
{
	std::vector<op> ops;
	long n = 20;
	for (long i = 0; i < n; i++)
	{
		static const char* names[] = { "count", "width", "floor", "ceil", "rev", "fill", "sel", "swz", "pack", "align" };
		long which				   = r(10);
		op o(names[which], { r(3) == 0, 0, 0 });
		long t		= which < 6 || which == 9 ? r(11) : r(19);
		size_t size = size_of[t];
		size_t idx	= CT;
		std::vector<long> b;
		if (o.a[0])
		{
			idx		= (size_t)r(CT);
			auto in = ct_input(idx);
			b.assign(in.b, in.b + 16);
		}
		else
		{
			long style = r(4);
			for (int k = 0; k < 16; k++)
				b.push_back(style == 0 ? r(256) : style == 1 ? (r(2) ? 255 : 0) : style == 2 ? (r(4) ? 0 : r(256)) : (r(4) ? 255 : r(256)));
		}
		if (which == 8)
		{
			t	 = idx < CT ? (long)(idx % 24) : r(24);
			size = (size_t)pack_bytes[t];
		}
		o.a[1] = t;
		auto bit = [&](size_t k) { return (b[k / 8] >> (k % 8)) & 1; };
		if (which == 4 && size == 1)
			continue;
		if (which == 3)
		{
			int k = 0;
			for (size_t j = 0; j < 8 * size; j++)
				k += (int)bit(j);
			if (bit(8 * size - 1) && k != 1)
				continue;
		}
		if (which == 5)
		{
			o.a[2] = r((long)(8 * size + 5));
			ops.push_back(o);
			continue;
		}
		if (which == 6)
			o.a[2] = idx < CT ? (long)(idx % (size + 3)) : r(8) == 0 ? (long)(size + (size_t)r(70)) : r((long)size + 2);
		if (which == 7)
		{
			o.a[2] = idx < CT ? (long)(idx % 16) : r(16);
			bool ok = true;
			for (int p : patterns[(size_t)o.a[2]])
				ok = ok && (size_t)p < size;
			if (!ok)
				continue;
		}
		if (which == 9)
		{
			long a = idx < CT ? ct_al[idx % 8] : ct_al[r(8)];
			if ((size_t)a >= 8 * size)
				continue;
			bool low = false, full = true;
			for (size_t j = 0; j < 8 * size; j++)
				(long)j < a ? void(low = low || bit(j)) : void(full = full && bit(j));
			if (low && full)
				continue;
			o.a[2] = a;
		}
		o.a.insert(o.a.end(), b.begin(), b.begin() + (long)size);
		ops.push_back(o);
	}
	return ops;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
#endif
