// Driver of Math.tla. Every function is called at run time, during compilation (tables) and with an integer argument.
#include "muu/core.h"
#include "muu/math.h"
#include "muu/half.h"
#include "seq.h"
#include <array>
#include <limits>
#include <memory>
#ifndef PART
	#define PART -1
#endif
using seq::op;
using seq::out;
using namespace muu;
struct base
{
	virtual void ask(const op&, long a, long b, long c, out& w) = 0;
};
template <typename T>
base* create();
// a table of f over lo..hi, computed during compilation
template <typename T, long Lo, long Hi, typename F>
constexpr auto table(F f)
{
	std::array<T, Hi - Lo + 1> t{};
	for (long i = Lo; i <= Hi; i++)
		t[(size_t)(i - Lo)] = f(i);
	return t;
}
enum class small : signed char
{
};
enum class wide : unsigned short
{
};
template <typename T>
struct machine : base
{
	using big = __float128;
	// half and float128_t do not mix with other types everywhere (ambiguous overloads, no common type)
	using M = std::conditional_t<std::is_same_v<T, float> || std::is_same_v<T, double> || std::is_same_v<T, long double>, T, double>;
	static constexpr T over(long a, long d) { return static_cast<T>(static_cast<T>(a) / static_cast<T>(d)); }
	static constexpr auto sins	 = table<T, -128, 128>([](long i) { return muu::sin(over(i, 16)); });
	static constexpr auto coss	 = table<T, -128, 128>([](long i) { return muu::cos(over(i, 16)); });
	static constexpr auto tans	 = table<T, -128, 128>([](long i) { return muu::tan(over(i, 16)); });
	static constexpr auto asins	 = table<T, -128, 128>([](long i) { return muu::asin(over(i, 128)); });
	static constexpr auto acoss	 = table<T, -128, 128>([](long i) { return muu::acos(over(i, 128)); });
	static constexpr auto atans	 = table<T, -128, 128>([](long i) { return muu::atan(over(i, 16)); });
	static constexpr auto sqrts	 = table<T, 0, 256>([](long i) { return muu::sqrt(over(i, 64)); });
	static constexpr auto roots	 = table<T, -60, 60>(
		[](long i)
		{
			if (std::is_same_v<T, half> && (i < -6 || i > 6))
				return T{};
			double x = 1;
			for (long k = 0; k < i || k < -i; k++)
				x = i < 0 ? x / 4 : x * 4;
			return muu::sqrt(static_cast<T>(x));
		});
	static constexpr auto floors = table<T, -256, 256>([](long i) { return muu::floor(over(i, 64)); });
	static constexpr auto ceils	 = table<T, -256, 256>([](long i) { return muu::ceil(over(i, 64)); });
	static constexpr auto abss	 = table<T, -256, 256>([](long i) { return muu::abs(over(i, 64)); });
	static constexpr auto norms	 = table<T, -128, 128>([](long i) { return muu::normalize_angle(over(i, 16)); });
	static constexpr auto norms2 = table<T, -128, 128>([](long i) { return muu::normalize_angle_signed(over(i, 16)); });
	static constexpr auto atan2s = table<T, 0, 17 * 17 - 1>(
		[](long i)
		{
			const long y = i / 17 - 8, x = i % 17 - 8;
			return y || x ? muu::atan2(over(y, 4), over(x, 4)) : T{};
		});
	static constexpr T turn(long i) { return static_cast<T>(static_cast<T>(i) * constants<T>::pi_over_four); }
	static constexpr auto sins2 = table<T, -16, 16>([](long i) { return muu::sin(turn(i)); });
	static constexpr auto coss2 = table<T, -16, 16>([](long i) { return muu::cos(turn(i)); });
	static constexpr auto tans2 = table<T, -16, 16>([](long i) { return i % 4 == 2 || i % 4 == -2 ? T{} : muu::tan(turn(i)); });
	static constexpr auto lerps = table<T, -16, 32>([](long i) { return muu::lerp(over(-5, 4), over(7, 2), over(i, 16)); });
	static long fix(big v, long scale)
	{
		if (v != v)
			return -777777;
		v *= scale;
		if (v > 900000 || v < -900000)
			return v > 0 ? 999999 : -999999;
		return (long)(v < 0 ? v - big(0.5) : v + big(0.5));
	}
	template <typename V>
	static long exact(V u, long scale) // 888888: no multiple
	{
		big v = (big)u * scale;
		if (!(v > -900000 && v < 900000))
			return 888888;
		return (big)(long)v == v ? (long)v : 888888;
	}
	// how far two results differ, in units of the type's precision
	static long apart(T x, T y)
	{
		const big p = (big)x, q = (big)y;
		big e = 1;
		for (int i = 1; i < constants<T>::significand_digits; i++)
			e /= 2;
		big d = p < q ? q - p : p - q;
		d /= e * (1 + p * p);
		return d >= 0 && d < 9999 ? (long)(d + big(0.999)) : 9999;
	}
	template <typename U>
	static void put(out& w, long scale, T rt, T ct, U in)
	{
		w.push_back(fix((big)rt, scale));
		w.push_back(fix((big)ct, scale));
		w.push_back(fix((big)in, scale));
		w.push_back(apart(rt, ct));
	}
	static void put2(out& w, long scale, T rt, T ct) { put(w, scale, rt, ct, rt); }
	template <typename V, typename U>
	static void pair(out& w, long a, long b, long c)
	{
		const auto fit = [](auto z, long v)
		{
			using Z = decltype(z);
			if constexpr (std::is_enum_v<Z>)
				return static_cast<Z>(std::is_unsigned_v<std::underlying_type_t<Z>> && v < 0 ? -v : v);
			else
				return static_cast<Z>(std::is_unsigned_v<Z> && v < 0 ? -v : v);
		};
		w.push_back(muu::between(fit(V{}, a), fit(U{}, b), fit(U{}, c)));
	}
	template <typename V>
	static void row(out& w, long a, long b, long c)
	{
		pair<V, signed char>(w, a, b, c);
		pair<V, unsigned char>(w, a, b, c);
		pair<V, short>(w, a, b, c);
		pair<V, int>(w, a, b, c);
		pair<V, unsigned>(w, a, b, c);
		pair<V, long>(w, a, b, c);
		pair<V, unsigned long>(w, a, b, c);
		pair<V, M>(w, a, b, c);
		pair<V, small>(w, a, b, c);
		pair<V, wide>(w, a, b, c);
	}
	template <typename U>
	static void share(out& w, long total, long n)
	{
		for (long i = 0; i < n; i++)
			w.push_back((long)muu::evenly_distribute((U)total, (U)n, (U)i));
	}
	static T special(long a)
	{
		switch (a)
		{
			case 0: return T{ 1 };
			case 1: return constants<T>::infinity;
			case 2: return constants<T>::negative_infinity;
			case 3: return constants<T>::nan;
			case 4: return -constants<T>::nan;
			case 5: return constants<T>::highest;
			case 6: return constants<T>::lowest;
			case 7: return constants<T>::negative_zero;
			case 8: return T{};
			default: return static_cast<T>(T{ 1 } / constants<T>::highest);
		}
	}
	template <long... I>
	static constexpr std::array<bool, sizeof...(I)> odd_table(std::integer_sequence<long, I...>)
	{
		return { muu::infinity_or_nan(I == 0 ? T{ 1 }
									  : I == 1 ? constants<T>::infinity
									  : I == 2 ? constants<T>::negative_infinity
									  : I == 3 ? constants<T>::nan
									  : I == 4 ? constants<T>::nan
									  : I == 5 ? constants<T>::highest
									  : I == 6 ? constants<T>::lowest
											   : T{})... };
	}
	void ask(const op& o, long a, long b, long c, out& w) override
	{
		const bool in128 = a >= -128 && a <= 128;
		const size_t i128 = (size_t)(a + 128);
		if (o.name == "trig")
		{
			const T x = over(a, 16);
			const int n = (int)(a / 16);
			const bool whole = a % 16 == 0;
			put(w, 16384, muu::sin(x), in128 ? sins[i128] : muu::sin(x), whole ? (big)muu::sin(n) : (big)muu::sin(x));
			put(w, 16384, muu::cos(x), in128 ? coss[i128] : muu::cos(x), whole ? (big)muu::cos(n) : (big)muu::cos(x));
			put(w, 16384, muu::tan(x), in128 ? tans[i128] : muu::tan(x), whole ? (big)muu::tan(n) : (big)muu::tan(x));
		}
		else if (o.name == "turn")
		{
			const T x = turn(b);
			const bool in = b >= -16 && b <= 16;
			const size_t i = (size_t)(b + 16);
			put2(w, 16384, muu::sin(x), in ? sins2[i] : muu::sin(x));
			put2(w, 16384, muu::cos(x), in ? coss2[i] : muu::cos(x));
			if (b % 4 != 2 && b % 4 != -2)
				put2(w, 16384, muu::tan(x), in ? tans2[i] : muu::tan(x));
		}
		else if (o.name == "arc")
		{
			if (!in128)
				return;
			const T x = over(a, 128);
			const bool whole = a % 128 == 0;
			put(w, 16384, muu::asin(x), asins[i128], whole ? (big)muu::asin((short)(a / 128)) : (big)muu::asin(x));
			put(w, 16384, muu::acos(x), acoss[i128], whole ? (big)muu::acos((short)(a / 128)) : (big)muu::acos(x));
		}
		else if (o.name == "atan")
		{
			const T x = over(a, 16);
			put(w, 16384, muu::atan(x), in128 ? atans[i128] : muu::atan(x), a % 16 == 0 ? (big)muu::atan(a / 16) : (big)muu::atan(x));
		}
		else if (o.name == "atan2")
		{
			const T y = over(a, 4), x = over(b, 4), r = muu::atan2(y, x);
			const bool known = (a || b) && a >= -8 && a <= 8 && b >= -8 && b <= 8;
			put(w, 16384, r, known ? atan2s[(size_t)((a + 8) * 17 + b + 8)] : r, (big)muu::atan2((int)a, (long)b));
			w.push_back(fix((big)muu::atan2(y, (float)b / 4), 16384));
			w.push_back(fix((big)muu::atan2((double)a / 4, x), 16384));
		}
		else if (o.name == "sqrt")
		{
			const T x = over(a, 64);
			put(w, 1024, muu::sqrt(x), a >= 0 && a <= 256 ? sqrts[(size_t)a] : muu::sqrt(x), (big)muu::sqrt((int)a) / 8);
			if (a >= 0)
				put(w, 1024, muu::sqrt(x), muu::consteval_sqrt(x), (big)muu::consteval_sqrt((unsigned)a) / 8);
		}
		else if (o.name == "root")
		{
			// sqrt(4^k) is 2^k
			long k = o[0];
			if constexpr (std::is_same_v<T, half>)
				k %= 7;
			big p = 1;
			for (long i = 0; i < (k < 0 ? -k : k); i++)
				p = k < 0 ? p / 2 : p * 2;
			const T x = static_cast<T>(static_cast<M>(p * p));
			w.push_back(fix((big)muu::sqrt(x) / p, 1024));
			w.push_back(fix((big)muu::consteval_sqrt(x) / p, 1024));
			w.push_back(fix((big)roots[(size_t)(k + 60)] / p, 1024));
		}
		else if (o.name == "round")
		{
			const T x = over(a, 64);
			const bool in = a >= -256 && a <= 256;
			const size_t i = (size_t)(a + 256);
			w.push_back(exact(muu::floor(x), 1));
			w.push_back(exact(in ? floors[i] : muu::floor(x), 1));
			w.push_back(exact(muu::ceil(x), 1));
			w.push_back(exact(in ? ceils[i] : muu::ceil(x), 1));
			w.push_back(exact(muu::abs(x), 64));
			w.push_back(exact(in ? abss[i] : muu::abs(x), 64));
			w.push_back(exact(muu::floor((int)a), 1));
			w.push_back(exact(muu::ceil((long)a), 1));
			w.push_back((long)muu::abs((int)a));
			w.push_back((long)muu::abs((long)a));
			w.push_back((long)muu::abs((long long)a));
			w.push_back((long)muu::abs((short)a));
			w.push_back((long)muu::abs((__int128)a));
			w.push_back((long)muu::abs((unsigned)(a < 0 ? -a : a)));
			w.push_back(a > -128 && a < 128 ? (long)muu::abs((signed char)a) : a < 0 ? -a : a); // -128 has no positive counterpart
		}
		else if (o.name == "lerp")
		{
			const T x = over(a, 16), y = over(b, 16), t = over(c, 16);
			const T r = muu::lerp(x, y, t);
			w.push_back(exact(r, 256));
			const bool wx = a % 16 == 0, wy = b % 16 == 0, wt = c % 16 == 0;
			w.push_back(exact(wx && wy ? (big)muu::lerp((int)(a / 16), (short)(b / 16), t) : (big)r, 256));
			w.push_back(exact(wt ? (big)muu::lerp(x, y, (int)(c / 16)) : (big)r, 256));
			w.push_back(exact(wx ? (big)muu::lerp((long)(a / 16), y, (float)c / 16) : (big)r, 256));
			w.push_back(exact(wx && wy && wt ? (big)muu::lerp(a / 16, b / 16, c / 16) : (big)r, 256));
			w.push_back(exact(muu::lerp((double)a / 16, y, (long double)c / 16), 256));
			w.push_back(c >= -16 && c <= 32 ? exact(lerps[(size_t)(c + 16)], 256) : 888888);
		}
		else if (o.name == "angle")
		{
			const T x = over(a, 16);
			const T y = turn(b);
			const T r1 = muu::normalize_angle(x), r2 = muu::normalize_angle_signed(x);
			put(w, 16384, r1, in128 ? norms[i128] : r1, a % 16 == 0 ? (big)muu::normalize_angle((int)(a / 16)) : (big)r1);
			put(w, 16384, r2, in128 ? norms2[i128] : r2, a % 16 == 0 ? (big)muu::normalize_angle_signed((long)(a / 16)) : (big)r2);
			put2(w, 16384, muu::normalize_angle(y), muu::normalize_angle(y));
			put2(w, 16384, muu::normalize_angle_signed(y), muu::normalize_angle_signed(y));
		}
		else if (o.name == "near")
		{
			const T x = over(a, 64), y = over(b, 64), e = over(c, 64);
			w.push_back(muu::approx_equal(x, y, e));
			w.push_back(muu::approx_equal(y, x, e));
			w.push_back(muu::approx_zero(x, e));
			w.push_back(muu::approx_equal(x, y));
			w.push_back(muu::approx_equal((float)a / 64, (M)y));
			w.push_back(muu::approx_equal((M)x, (long double)b / 64));
			w.push_back(muu::approx_equal(static_cast<M>(a), (int)b));
			w.push_back(muu::approx_equal((short)a, static_cast<M>(b)));
			w.push_back(muu::approx_equal((long)a, (int)b));
			w.push_back(muu::approx_equal(static_cast<wide>(a), static_cast<wide>(b)));
			w.push_back(muu::approx_equal(static_cast<wide>(a), (unsigned short)b));
			w.push_back(muu::approx_zero(x));
			w.push_back(muu::approx_zero((int)a));
			w.push_back(muu::approx_zero(static_cast<small>(a)));
		}
		else if (o.name == "num")
		{
			const int x = (int)a, y = (int)b, z = (int)c;
			w.push_back(muu::gcd(x, y));
			w.push_back((long)muu::gcd((long)x, y, (short)z));
			w.push_back(muu::gcd(x * 6, y * 6, z * 6, 15));
			w.push_back(muu::gcd(x * 6, y * 6, z * 6, 6, 21));
			w.push_back(muu::lcm(x, y));
			w.push_back((long)muu::lcm((long)x, (short)y, z));
			w.push_back(muu::lcm(x, y, z, 6));
			w.push_back(muu::lcm(x, y, z, 4, 10));
		}
		else if (o.name == "pick")
		{
			const int x = (int)a, y = (int)b, z = (int)c, u = 1, v = -2;
			w.push_back(muu::min(x, y));
			w.push_back(muu::max(x, y));
			w.push_back(muu::min(x, y, z));
			w.push_back(muu::max(x, y, z));
			w.push_back(muu::min(x, y, z, u));
			w.push_back(muu::max(x, y, z, v));
			w.push_back(muu::min(x, y, u, v, z));
			w.push_back(muu::max(x, y, u, v, z));
			w.push_back(muu::min(u, v, x, y, z, u));
			w.push_back(muu::max(u, v, x, y, z, u));
			const T X = over(a, 8), Y = over(b, 8), Z = over(c, 8);
			w.push_back(exact(muu::min(X, Y, Z), 8));
			w.push_back(exact(muu::max(X, Y, Z), 8));
			const int lo = y < z ? y : z, hi = y < z ? z : y;
			w.push_back(muu::clamp(x, lo, hi));
			w.push_back(exact(muu::clamp(X, over(lo, 8), over(hi, 8)), 8));
			// which of equal objects
			const std::pair<int, int> k[3]{ { 0, 0 }, { 0, 0 }, { 0, 0 } };
			w.push_back(&muu::min(k[0], k[1]) - k);
			w.push_back(&muu::max(k[0], k[1]) - k);
			w.push_back(&muu::clamp(k[0], k[1], k[2]) - k);
			const int r[5]{ x, y, z, x, y }; // references to the arguments themselves
			const int* p = &muu::min(r[0], r[1], r[2], r[3], r[4]);
			w.push_back(p >= r && p < r + 5);
			p = &muu::max(r[0], r[1], r[2], r[3], r[4]);
			w.push_back(p >= r && p < r + 5);
		}
		else if (o.name == "within")
		{
			row<signed char>(w, a, b, c);
			row<unsigned char>(w, a, b, c);
			row<short>(w, a, b, c);
			row<int>(w, a, b, c);
			row<unsigned>(w, a, b, c);
			row<long>(w, a, b, c);
			row<unsigned long>(w, a, b, c);
			row<M>(w, a, b, c);
			row<small>(w, a, b, c);
			row<wide>(w, a, b, c);
		}
		else if (o.name == "share")
		{
			const long total = a < 0 ? -a : a, n = 1 + (b < 0 ? -b : b) % 9;
			share<unsigned char>(w, total, n);
			share<unsigned short>(w, total, n);
			share<unsigned>(w, total, n);
			share<unsigned long>(w, total, n);
			share<unsigned __int128>(w, total, n);
		}
		else if (o.name == "odd")
		{
			const T x = special(o[0]), y = special(o[1]), z = special(o[2]);
			const T all[3]{ x, y, z };
			static constexpr auto known = odd_table(std::make_integer_sequence<long, 10>{});
			w.push_back(muu::infinity_or_nan(x));
			w.push_back(known[(size_t)o[0]]);
			w.push_back(muu::infinity_or_nan(x, y));
			w.push_back(muu::infinity_or_nan(x, y, z));
			w.push_back(muu::infinity_or_nan(x, 1.0f, 7, y));
			w.push_back(muu::infinity_or_nan(all));
			w.push_back(muu::infinity_or_nan((int)a));
		}
	}
};
#define KIND(T)                                                                                                                            \
	template <>                                                                                                                            \
	base* create<T>()                                                                                                                      \
	{                                                                                                                                      \
		static machine<T> m;                                                                                                               \
		return &m;                                                                                                                         \
	}
#if PART == -1 || PART == 0
KIND(float)
#endif
#if PART == -1 || PART == 1
KIND(double)
#endif
#if PART == -1 || PART == 2
KIND(long double)
#endif
#if PART == -1 || PART == 3
KIND(float128_t)
#endif
#if PART == -1 || PART == 4
KIND(half)
#endif

#if PART <= 0
template <>
base* create<double>();
template <>
base* create<long double>();
template <>
base* create<float128_t>();
template <>
base* create<half>();
static base* cur;
static long A, B, C;
void seq::reset()
{
	cur = create<float>();
	A = B = C = 0;
}
void seq::apply(const op& o, out& w)
{
	if (o.name == "kind")
		switch (o[0])
		{
			case 1: cur = create<float>(); break;
			case 2: cur = create<double>(); break;
			case 3: cur = create<long double>(); break;
			case 4: cur = create<float128_t>(); break;
			default: cur = create<half>();
		}
	else if (o.name == "set")
	{
		A = o[0];
		B = o[1];
		C = o[2];
	}
	else
		cur->ask(o, A, B, C, w);
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> v;
	v.push_back(op{ "kind", { r.range(1, 5) } });
	for (long n = 6; n--;)
	{
		static constexpr long spans[]{ 4, 16, 130, 260, 1600 };
		const long m = r.pick(spans);
		const auto set = [&](long x, long y, long z) { v.push_back(op{ "set", { x, y, z } }); };
		switch (r(7))
		{
			case 0:
				set(r.range(-m, m), r.range(-40, 40), 0);
				v.push_back(op{ "trig" });
				v.push_back(op{ "atan" });
				v.push_back(op{ "angle" });
				v.push_back(op{ "turn" });
				break;
			case 1:
				set(r.range(-128, 128), 0, 0);
				v.push_back(op{ "arc" });
				v.push_back(op{ "trig" });
				break;
			case 2:
				set(r.range(-10, 10), r.range(-10, 10), 0);
				v.push_back(op{ "atan2" });
				break;
			case 3:
				set(r.range(-m, m), 0, 0);
				v.push_back(op{ "round" });
				set(r.range(r(4) ? 0 : -3, m), 0, 0);
				v.push_back(op{ "sqrt" });
				v.push_back(op{ "root", { r.range(-60, 60) } });
				break;
			case 4:
				set(r.range(-64, 64) * (r(2) ? 16 : 1), r.range(-64, 64) * (r(2) ? 16 : 1), r(2) ? r.range(-16, 32) : 16 * r.range(-1, 3));
				v.push_back(op{ "lerp" });
				break;
			case 5:
				set(r.range(-6, 6), r.range(-6, 6), r(3) ? r.range(0, 6) : 0);
				v.push_back(op{ "near" });
				break;
			default:
			{
				const int w = r(2) ? 30 : 1;
				set(r.range(-w, w), r.range(-w, w), r.range(-w, w));
			}
				v.push_back(op{ "num" });
				v.push_back(op{ "pick" });
				v.push_back(op{ "within" });
				v.push_back(op{ "share" });
				v.push_back(op{ "odd", { r(10), r(10), r(10) } });
		}
	}
	return v;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
#endif
