// Driver of the Half component: muu::half, in one of its three builds (see half_emu_driver.cpp, half_soft_driver.cpp).
#include "muu/core.h"
#include "muu/half.h"
#include "seq.h"
#include <cstring>
#include <array>
#include <sstream>
using namespace muu;
using seq::op;
using seq::out;
using seq::rng;
#ifndef EMULATED
	#define EMULATED 0
#endif
using big = __float128;

static unsigned A, B;
void seq::reset() { A = B = 0; }

static constexpr long bits(half h)
{
	const unsigned u = bit_cast<uint16_t>(h);
	return (u & 0x7FFFu) > 0x7C00u ? 99999 : (long)u; // every NaN looks the same
}
template <typename T>
static void value(out& w, T x) // sign, magnitude m * 2^e with m odd; {2, 0, 0} is NaN, m = 1, e = 99 infinity
{
	big v = (big)x;
	if (v != v)
	{
		w.insert(w.end(), { 2, 0, 0 });
		return;
	}
	const bool neg = __builtin_signbit((long double)v);
	if (neg)
		v = -v;
	w.push_back(neg);
	if (v == 0)
		w.insert(w.end(), { 0, 0 });
	else if (v > big(1e30))
		w.insert(w.end(), { 1, 99 });
	else
	{
		long e = 0;
		while (v != (big)(long)v && e > -200)
		{
			v *= 2;
			e--;
		}
		long m = (long)v;
		while (m && m % 2 == 0)
		{
			m /= 2;
			e++;
		}
		w.push_back(m > 2000000000 ? -1 : m);
		w.push_back(e);
	}
}
template <typename L, typename R>
static constexpr long order(const L& l, const R& r)
{
	static_assert(std::is_same_v<decltype(l == r), bool> && std::is_same_v<decltype(l >= r), bool>);
	return (l == r) | (l != r) << 1 | (l < r) << 2 | (l <= r) << 3 | (l > r) << 4 | (l >= r) << 5;
}
template <typename T>
static void mixed(out& w, half a, half b) // b goes in as a T
{
	const T y = static_cast<T>(b), x = static_cast<T>(a);
	static_assert(std::is_same_v<decltype(a + y), T> && std::is_same_v<decltype(y / a), T> && std::is_same_v<decltype(a * y), T>
				  && std::is_same_v<decltype(y - a), T>);
	half c[8]{ half{ a + y }, half{ x + b }, half{ a - y }, half{ x - b }, half{ a * y }, half{ x * b }, half{ a / y }, half{ x / b } };
	for (half h : c)
		w.push_back(bits(h));
	half d[4]{ a, a, a, a };
	half* p[4]{ &(d[0] += y), &(d[1] -= y), &(d[2] *= y), &(d[3] /= y) };
	for (int i = 0; i < 4; i++)
		w.push_back(p[i] == d + i ? bits(d[i]) : -1);
	w.push_back(order(a, y));
	w.push_back(order(x, b));
}
template <typename T>
static void integer(out& w, half a, long n, bool isbool = false)
{
	(void)isbool;
	bool fits;
	if constexpr (sizeof(T) == 16)
		fits = n >= 0 || T(-1) < T{};
	else if constexpr (std::is_unsigned_v<T>)
		fits = n >= 0 && (sizeof(T) >= 8 || n <= (long)(T)-1);
	else
		fits = sizeof(T) >= 8 || (n >= (long)std::numeric_limits<T>::min() && n <= (long)std::numeric_limits<T>::max());
	w.push_back(fits);
	if (!fits)
	{
		w.insert(w.end(), 15, 0);
		return;
	}
	const T y = (T)n;
	static_assert(std::is_same_v<decltype(a + y), half> && std::is_same_v<decltype(y / a), half>);
	half c[8]{ a + y, y + a, a - y, y - a, a * y, y * a, a / y, y / a };
	for (half h : c)
		w.push_back(bits(h));
	half d[4]{ a, a, a, a };
	half* p[4]{ &(d[0] += y), &(d[1] -= y), &(d[2] *= y), &(d[3] /= y) };
	for (int i = 0; i < 4; i++)
		w.push_back(p[i] == d + i ? bits(d[i]) : -1);
	w.push_back(order(a, y));
	w.push_back(order(y, a));
	w.push_back(bits(half{ y }));
}
template <typename T>
static void finer(out& w, half a, T y) // y has more digits than a half
{
	half d[4]{ a, a, a, a };
	d[0] += y;
	d[1] -= y;
	d[2] *= y;
	half c[6]{ d[0], half{ y + a }, d[1], half{ y - a }, d[2], half{ y * a } };
	for (half h : c)
		w.push_back(bits(h));
	w.push_back(order(a, y));
	w.push_back(order(y, a));
}
template <typename T>
static bool trunc_as(half h, long want) // the conversion to T, where it is defined
{
	if constexpr (sizeof(T) >= 8)
	{
		if (want < 0 && !(T(-1) < T{}))
			return true;
	}
	else if (want < (long)std::numeric_limits<T>::min() || want > (long)std::numeric_limits<T>::max())
		return true;
	return static_cast<T>(h) == (T)want;
}
template <typename T>
static bool widens(half h)
{
	const big x = (big)static_cast<T>(h), y = (big)static_cast<float>(h);
	return (x == y && !__builtin_signbit((float)static_cast<T>(h)) == !__builtin_signbit(static_cast<float>(h))) || (x != x && y != y);
}

// during compilation
static constexpr uint16_t pats[]{ 0x0000, 0x8000, 0x3c00, 0xbc00, 0x4000, 0x3800, 0x3555, 0x3e00, 0x4200, 0x4900, 0x5640, 0x2e66, 0x0400,
								  0x0001, 0x0003, 0x03ff, 0x5bf8, 0x4c60, 0xc740, 0x3c01, 0x8001, 0xd7ff, 0x7bff, 0xfbff };
static constexpr size_t npats = std::size(pats);
struct folded
{
	long v[6];
};
static constexpr folded fold(half a, half b)
{
	const float x = static_cast<float>(a), y = static_cast<float>(b);
	const auto ok = [](float f) { return f < 65504.0f && f > -65504.0f; };
	folded f{ { -1, -1, -1, -1, -1, -1 } };
	if (ok(x + y))
		f.v[0] = bits(a + b);
	if (ok(x - y))
		f.v[1] = bits(a - b);
	if (ok(x * y))
		f.v[2] = bits(a * b);
	if (y != 0.0f && ok(x / y))
		f.v[3] = bits(a / b);
	f.v[4] = order(a, b);
	half c = a;
	c += half{ 0 };
	f.v[5] = bits(c);
	return f;
}
static constexpr auto folds = []()
{
	std::array<std::array<folded, npats>, npats> r{};
	for (size_t i = 0; i < npats; i++)
		for (size_t j = 0; j < npats; j++)
			r[i][j] = fold(half::from_bits(pats[i]), half::from_bits(pats[j]));
	return r;
}();
static constexpr auto singles = []()
{
	std::array<std::array<long, 8>, npats> r{};
	for (size_t i = 0; i < npats; i++)
	{
		const half h = half::from_bits(pats[i]);
		r[i] = { bits(-h), bits(+h), bits(muu::abs(h)), bits(muu::floor(h)), bits(muu::ceil(h)), muu::infinity_or_nan(h), static_cast<bool>(h), static_cast<int>(h) };
	}
	return r;
}();
struct dyadic
{
	bool s;
	long m;
	int e;
};
static constexpr dyadic froms[]{
	{ 0, 65519, 0 }, { 0, 65504, 0 }, { 0, 131039, -1 }, { 0, 65520, 0 }, { 1, 65520, 0 }, { 0, 1, 16 }, { 0, 1, 17 }, { 1, 3, 20 }, { 0, 1, 40 }, { 1, 1, 100 },
	{ 0, 1, -24 }, { 0, 1, -25 }, { 0, 3, -26 }, { 0, 1, -26 }, { 1, 3, -25 }, { 0, 5, -25 }, { 0, 1, -60 }, { 1, 1, -100 }, { 0, 2049, 0 }, { 0, 2051, 0 }, { 0, 2047, -25 },
	{ 0, 4095, -12 }, { 0, 4097, -12 }, { 0, 4099, -12 }, { 0, 16777215, -24 }, { 0, 16777215, -38 }, { 0, 8388607, -37 }, { 1, 1025, -34 }, { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, -14 }
};
template <typename T>
static constexpr T make(dyadic d)
{
	T v = (T)d.m;
	for (; d.e > 0; d.e--)
		v *= 2;
	for (; d.e < 0; d.e++)
		v /= 2;
	return d.s ? -v : v;
}
static constexpr auto fromf = []()
{
	std::array<std::array<long, 3>, std::size(froms)> r{};
	for (size_t i = 0; i < std::size(froms); i++)
		r[i] = { bits(half{ make<float>(froms[i]) }), bits(half{ make<double>(froms[i]) }), bits(half{ make<long double>(froms[i]) }) };
	return r;
}();

void seq::apply(const op& o, out& w)
{
	const half a = half::from_bits((uint16_t)A), b = half::from_bits((uint16_t)B);
	if (o.name == "set")
	{
		A = (unsigned)o[0];
		B = (unsigned)o[1];
	}
	else if (o.name == "row")
		for (long u = 64 * o[0]; u < 64 * o[0] + 64; u++)
		{
			const half h = half::from_bits((uint16_t)u);
			const float f = static_cast<float>(h);
			value(w, f);
			w.push_back(widens<double>(h) && widens<long double>(h) && widens<float128_t>(h));
			const long r = bits(half{ f });
			w.push_back(r == bits(half{ static_cast<double>(h) }) && r == bits(half{ static_cast<long double>(h) }) && r == bits(half{ static_cast<float128_t>(h) }) ? r
																																									 : -1);
			w.push_back(muu::infinity_or_nan(h));
			w.push_back(static_cast<bool>(h));
			w.push_back(bits(-h));
			w.push_back(bits(muu::abs(h)));
			w.push_back(bits(muu::floor(h)));
			w.push_back(bits(muu::ceil(h)));
			long n = 0;
			if ((u & 0x7C00) != 0x7C00)
			{
				n			  = static_cast<long>(h);
				const bool ok = trunc_as<char>(h, n) && trunc_as<signed char>(h, n) && trunc_as<unsigned char>(h, n) && trunc_as<short>(h, n)
							 && trunc_as<unsigned short>(h, n) && trunc_as<int>(h, n) && trunc_as<unsigned>(h, n) && trunc_as<unsigned long>(h, n)
							 && trunc_as<long long>(h, n) && trunc_as<unsigned long long>(h, n) && trunc_as<int128_t>(h, n) && trunc_as<uint128_t>(h, n);
				if (!ok)
					n = -777777;
			}
			w.push_back(n);
			w.push_back(bits(h)); // unchanged
		}
	else if (o.name == "arith")
	{
		w.insert(w.end(), { bits(a + b), bits(a + b), bits(a - b), bits(a - b), bits(a * b), bits(a * b), bits(a / b), bits(a / b) });
		half d[4]{ a, a, a, a };
		half* p[4]{ &(d[0] += b), &(d[1] -= b), &(d[2] *= b), &(d[3] /= b) };
		for (int i = 0; i < 4; i++)
			w.push_back(p[i] == d + i ? bits(d[i]) : -1);
		w.push_back(order(a, b));
		w.push_back(order(a, b));
		mixed<float>(w, a, b);
		mixed<double>(w, a, b);
		mixed<long double>(w, a, b);
		mixed<float128_t>(w, a, b);
#if EMULATED
		mixed<float>(w, a, b);
#else
		mixed<_Float16>(w, a, b);
#endif
		half self[4]{ a, a, a, a };
		self[0] += self[0];
		self[1] -= self[1];
		self[2] *= self[2];
		self[3] /= self[3];
		for (half h : self)
			w.push_back(bits(h));
	}
	else if (o.name == "exact") // results in the wider type
	{
		value(w, a + static_cast<float>(b));
		value(w, static_cast<double>(a) - b);
		value(w, a * static_cast<float>(b));
		value(w, static_cast<long double>(a) * b);
		value(w, a + static_cast<float128_t>(b));
	}
	else if (o.name == "int")
	{
		const long n = o[0];
		integer<char>(w, a, n);
		integer<signed char>(w, a, n);
		integer<unsigned char>(w, a, n);
		integer<short>(w, a, n);
		integer<unsigned short>(w, a, n);
		integer<int>(w, a, n);
		integer<unsigned>(w, a, n);
		integer<long>(w, a, n);
		integer<unsigned long>(w, a, n);
		integer<long long>(w, a, n);
		integer<unsigned long long>(w, a, n);
		integer<int128_t>(w, a, n);
		integer<uint128_t>(w, a, n);
	}
	else if (o.name == "from")
	{
		const dyadic d{ o[0] != 0, o[1], (int)o[2] };
		w = { bits(half{ make<float>(d) }), bits(half{ make<double>(d) }), bits(half{ make<long double>(d) }), bits(half{ make<float128_t>(d) }) };
	}
	else if (o.name == "fine") // beyond the precision of float
	{
		const dyadic d{ o[0] != 0, o[1], (int)o[2] };
		if (!EMULATED)
			w = { bits(half{ make<double>(d) }), bits(half{ make<long double>(d) }), bits(half{ make<float128_t>(d) }) };
	}
	else if (o.name == "nan") // of any payload, down to the bits a half has no room for
	{
		const unsigned f = 0x7F800000u | (unsigned)o[0] << 31 | (unsigned)o[1];
		const unsigned long long g = 0x7FF0000000000000ull | (unsigned long long)o[0] << 63 | (unsigned long long)o[1];
		float x;
		double y;
		std::memcpy(&x, &f, sizeof f);
		std::memcpy(&y, &g, sizeof g);
		for (half h : { half{ x }, half{ y } })
		{
			uint16_t u;
			std::memcpy(&u, &h, sizeof u);
			w.push_back((u & 0x7c00) == 0x7c00 && (u & 0x3ff) && muu::infinity_or_nan(h) && h != h);
		}
	}
	else if (o.name == "finer")
	{
		const dyadic d{ o[0] != 0, o[1], (int)o[2] };
		finer(w, a, make<float>(d));
		finer(w, a, make<double>(d));
		finer(w, a, make<long double>(d));
		finer(w, a, make<float128_t>(d));
	}
	else if (o.name == "un")
	{
		half h = a;
		w.push_back(bits(h++));
		w.push_back(bits(h));
		h = a;
		w.push_back(bits(h--));
		w.push_back(bits(h));
		h		= a;
		half* p = &++h;
		w.push_back(p == &h ? bits(h) : -1);
		h = a;
		p = &--h;
		w.push_back(p == &h ? bits(h) : -1);
		w.push_back(bits(+a));
		w.push_back(bits(muu::sqrt(a)));
		w.push_back(bits(half{ true }));
		w.push_back(bits(half{ false }));
		if ((A & 0x7C00) != 0x7C00)
		{
			std::ostringstream s;
			s << a << ' ' << static_cast<float>(a);
			std::istringstream t{ s.str() };
			half u = b;
			float v;
			t >> u >> v;
			w.push_back(bits(u));
			w.push_back(half{ v } == u);
			std::wostringstream s2;
			s2 << a;
			std::wistringstream t2{ s2.str() };
			u = b;
			t2 >> u;
			w.push_back(bits(u));
			std::istringstream t3{ "x" };
			u = b;
			w.push_back(static_cast<bool>(t3 >> u));
			w.push_back(bits(u)); // nothing was read
		}
	}
	else if (o.name == "ct")
	{
		const folded& f = folds[(size_t)o[0]][(size_t)o[1]];
		w.assign(f.v, f.v + 6);
		for (long v : singles[(size_t)o[0]])
			w.push_back(v);
	}
	else if (o.name == "ctf")
		w.assign(fromf[(size_t)o[0]].begin(), fromf[(size_t)o[0]].end());
	else if (o.name == "limits")
	{
		using L = std::numeric_limits<half>;
		w = { bits(L::min()), bits(L::lowest()), bits(L::max()), bits(L::epsilon()), bits(L::infinity()), bits(L::quiet_NaN()), bits(L::signaling_NaN()), bits(L::denorm_min()),
			  bits(L::round_error()), L::digits, L::digits10, L::max_digits10, L::radix, L::min_exponent, L::max_exponent, L::min_exponent10, L::max_exponent10, L::is_signed,
			  L::is_integer, L::has_infinity };
		w.push_back(bits(1.5_f16));
		w.push_back(bits(0.1_f16));
		w.push_back(bits(65504_f16));
		w.push_back(bits(3_f16));
	}
}
static long pattern(rng& r)
{
	static constexpr long special[]{ 0, 0x8000, 0x3c00, 0xbc00, 0x7c00, 0xfc00, 0x7e00, 0x7c01, 0x7bff, 0xfbff, 0x0001, 0x8001, 0x03ff, 0x0400, 0x0401, 0x3bff, 0x3c01, 0x4000, 0x6400, 0x6800, 0xe7ff };
	switch (r(4))
	{
		case 0: return r.pick(special);
		case 1: return (r(2) << 15) | (r.range(10, 20) << 10) | r(1024);
		case 2: return (r(2) << 15) | (r.range(0, 30) << 10) | (r(2) ? r(4) : 1023 - r(4));
		default: return r(65536);
	}
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> v;
	for (long n = 6; n--;)
	{
		long a = pattern(r), b = pattern(r);
		if (!r(4))
			b = a ^ (r(2) << 15);
		if (!r(4)) // nearby exponents
			b = (a & 0x7C00) + (r.range(-12, 12) << 10), b = (b & 0x7C00) | (r(2) << 15) | r(1024);
		v.push_back(op{ "set", { a, b } });
		v.push_back(op{ "arith" });
		v.push_back(op{ "exact" });
		v.push_back(op{ "un" });
		static constexpr long ints[]{ 0, 1, -1, 2, 3, -7, 10, 100, 127, 128, -128, 255, 256, 1000, 2047, -2047, 32767, 32768, -32768, 65535, 65536, 1L << 20, -(1L << 24), (1L << 31) - 1, -(1L << 30) };
		const long n1 = r(2) ? r.range(-2047, 2047) : r.pick(ints);
		v.push_back(op{ "int", { n1 } });
		switch (r(4))
		{
			case 0: v.push_back(op{ "from", { r(2), r(1 << 24), r.range(-48, 2) } }); break;
			case 1: v.push_back(op{ "from", { r(2), (r(1024) + 1024) * 4 + r(4), r.range(-38, 8) } }); break;
			case 2: v.push_back(op{ "from", { r(2), ((r(1024) + 1024) << 12) + (r(3) << 11) + r.range(-1, 1), r.range(-50, -3) } }); break;
			default: v.push_back(op{ "fine", { r(2), ((r(1024) + 1024) << 17) + (r(3) << 16) + r.range(-1, 1), r.range(-54, -10) } }); break;
		}
		{
			const long e = (a & 0x7C00) ? ((a & 0x7C00) >> 10) - 25 : -24;
			v.push_back(op{ "finer", { r(2), r(1 << 13), e + r.range(-8, 4) } });
		}
		v.push_back(op{ "ct", { r(npats), r(npats) } });
	}
	return v;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
