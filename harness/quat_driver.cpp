// muu::quaternion, muu::axis_angle, muu::euler_angles.
#include "muu/core.h"
#include "muu/half.h"
#include "muu/vector.h"
#include "muu/matrix.h"
#include "muu/axis_angle.h"
#include "muu/euler_angles.h"
#include "muu/quaternion.h"
#include "seq.h"
#include <array>
#include <cmath>
#include <memory>
using namespace muu;
using seq::op;
using seq::out;
using seq::rng;

#ifndef PART
	#define PART -1
#endif
struct base
{
	virtual ~base() = default;
	virtual void apply(const op&, out&) = 0;
};
template <typename T>
base* create();

// something that is laid out like a quaternion, an axis_angle or a set of euler_angles
template <typename T, size_t N>
struct alike
{
	T v[N];
};
namespace muu
{
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 4>, quaternion<T>> = true;
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 4>, axis_angle<T>> = true;
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 3>, euler_angles<T>> = true;
}

static constexpr long odd = 99999999;
static inline long scaled(double v, double by)
{
	v *= by;
	return v == v && v > -2e9 && v < 2e9 ? std::lround(v) : odd;
}
template <typename T>
static double real(T v)
{
	if constexpr (std::is_same_v<T, half>)
		return (double)static_cast<float>(v);
	else
		return (double)v;
}
template <typename T>
static long whole(T v)
{
	const double d = real(v);
	return d == std::floor(d) && std::abs(d) < 2e9 ? (long)d : odd;
}
static constexpr double pi = 3.14159265358979323846;

static_assert(std::is_same_v<decltype(quaternion{ 1.0f, 2.0f, 3.0f, 4.0f }), quaternion<float>>);
static_assert(std::is_same_v<decltype(quaternion{ 1.0f, 2.0, 3.0f, 4.0f }), quaternion<double>>);
static_assert(std::is_same_v<decltype(quaternion{ 1.0, vector<double, 3>{} }), quaternion<double>>);
static_assert(std::is_same_v<decltype(quaternion{ axis_angle<float>{} }), quaternion<float>>);
static_assert(std::is_same_v<decltype(quaternion{ euler_angles<double>{} }), quaternion<double>>);
static_assert(std::tuple_size_v<quaternion<float>> == 2);
static_assert(std::is_same_v<std::tuple_element_t<0, quaternion<float>>, float>);
static_assert(std::is_same_v<std::tuple_element_t<1, quaternion<float>>, vector<float, 3>>);

template <typename T>
struct tester final : base
{
	using Q = quaternion<T>;
	using V = vector<T, 3>;
	using A = axis_angle<T>;
	using E = euler_angles<T>;
	using other = std::conditional_t<std::is_same_v<T, double>, float, double>;
	static_assert(sizeof(Q) == 4 * sizeof(T) && sizeof(A) == 4 * sizeof(T) && sizeof(E) == 3 * sizeof(T));
	struct guarded
	{
		T before[4]{};
		Q v{ T{}, T{}, T{}, T{} };
		T after[4]{};
	};
	guarded g[3]; // 1, 2
	unsigned turn = 0;
	tester() { g[1].v.s = static_cast<T>(1.0f); }

	static constexpr T val(long x) { return static_cast<T>((float)x); }
	static T num(double x)
	{
		if constexpr (std::is_same_v<T, half>)
			return static_cast<half>((float)x);
		else
			return static_cast<T>(x);
	}
	static void push(out& w, T x) { w.push_back(whole(x)); }
	static void push(out& w, const V& v)
	{
		push(w, v.x);
		push(w, v.y);
		push(w, v.z);
	}
	static void push(out& w, const Q& q)
	{
		push(w, q.s);
		push(w, q.v);
	}
	static void push(out& w, const E& e)
	{
		push(w, e.yaw);
		push(w, e.pitch);
		push(w, e.roll);
	}
	static void scale(out& w, const V& v, double by)
	{
		w.push_back(scaled(real(v.x), by));
		w.push_back(scaled(real(v.y), by));
		w.push_back(scaled(real(v.z), by));
	}
	static void scale(out& w, const Q& q, double by)
	{
		w.push_back(scaled(real(q.s), by));
		scale(w, q.v, by);
	}
	void dump(out& w)
	{
		for (int i = 1; i <= 2; i++)
		{
			const Q& q = g[i].v;
			switch (turn++ % 5)
			{
				case 0: push(w, q); break;
				case 1:
					push(w, q.template get<0>());
					push(w, q.template get<1>());
					break;
				case 2:
				{
					auto& [s, v] = q;
					push(w, s);
					push(w, v);
					break;
				}
				case 3:
				{
					T raw[4];
					memcpy(raw, &q, sizeof raw);
					for (auto& x : raw)
						push(w, x);
					break;
				}
				default:
				{
					const T* p = q.data();
					asm volatile("" : "+r"(p) : : "memory");
					for (int j = 0; j < 4; j++)
						push(w, p[j]);
				}
			}
			for (auto& x : g[i].before)
				if (whole(x) != 0)
					w.back() = odd;
			for (auto& x : g[i].after)
				if (whole(x) != 0)
					w.back() = odd;
		}
	}
	static V vec(const op& o, size_t from = 0) { return V{ val(o[from]), val(o[from + 1]), val(o[from + 2]) }; }
	static std::array<double, 4> parts(const Q& q) { return { real(q.s), real(q.v.x), real(q.v.y), real(q.v.z) }; }
	static bool none(const Q& q) { return whole(q.s) == 0 && whole(q.v.x) == 0 && whole(q.v.y) == 0 && whole(q.v.z) == 0; }
	static Q unit(const Q& q)
	{
		auto p		   = parts(q);
		const double n = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2] + p[3] * p[3]);
		return Q{ num(p[0] / n), num(p[1] / n), num(p[2] / n), num(p[3] / n) };
	}
	static V unit(const V& v)
	{
		const double x = real(v.x), y = real(v.y), z = real(v.z), n = std::sqrt(x * x + y * y + z * z);
		return V{ num(x / n), num(y / n), num(z / n) };
	}
	// the matrix of the rotation, with other numbers where there is no rotation
	template <size_t R, size_t C>
	static matrix<T, R, C> rotation(const Q& q)
	{
		auto h		   = parts(q);
		const double s = h[0], x = h[1], y = h[2], z = h[3], n = s * s + x * x + y * y + z * z;
		const double m[3][3]{ { s * s + x * x - y * y - z * z, 2 * (x * y - s * z), 2 * (x * z + s * y) },
							  { 2 * (x * y + s * z), s * s - x * x + y * y - z * z, 2 * (y * z - s * x) },
							  { 2 * (x * z - s * y), 2 * (y * z + s * x), s * s - x * x - y * y + z * z } };
		matrix<T, R, C> r{ val(7) };
		for (size_t i = 0; i < 3; i++)
			for (size_t j = 0; j < 3; j++)
				r(i, j) = num(m[i][j] / n);
		return r;
	}
	template <typename M>
	static Q from(const M& m, long how)
	{
		return how ? Q{ m } : Q::from_rotation(m);
	}
	template <typename M>
	static void matrix_of(out& w, const Q& q, bool direct)
	{
		const M m = direct ? M::from_quaternion(q) : M::from_axis_angle(q.to_axis_angle());
		for (size_t i = 0; i < 3; i++)
			for (size_t j = 0; j < 3; j++)
				w.push_back(scaled(real(m(i, j)), 4096));
	}
	Q make(long how, const op& o, size_t from)
	{
		const T s = val(o[from]), x = val(o[from + 1]), y = val(o[from + 2]), z = val(o[from + 3]);
		switch (how)
		{
			case 1: return Q{ s, V{ x, y, z } };
			case 2: return Q{ quaternion<other>{ static_cast<other>((float)o[from]), static_cast<other>((float)o[from + 1]), static_cast<other>((float)o[from + 2]), static_cast<other>((float)o[from + 3]) } };
			case 3: return Q{ alike<T, 4>{ { s, x, y, z } } };
			case 4:
			{
				Q q;
				q.s = s;
				q.v = V{ x, y, z };
				return q;
			}
			case 5:
			{
				Q q;
				q.template get<0>() = s;
				q.template get<1>() = V{ x, y, z };
				return q;
			}
			default: return Q{ s, x, y, z };
		}
	}

	void apply(const op& o, out& w) override
	{
		Q& a			= g[1].v;
		Q& b			= g[2].v;
		const Q& ca		= a;
		const bool odd1 = turn & 1;
		if (o.name == "set")
			g[o[0]].v = make(o[1], o, 2);
		else if (o.name == "put")
		{
			Q& q	  = g[o[0]].v;
			const T x = val(o[3]);
			const long i = o[2];
			switch (o[1])
			{
				case 0: (i == 0 ? q.s : i == 1 ? q.v.x : i == 2 ? q.v.y : q.v.z) = x; break;
				case 1: (i == 0 ? q.template get<0>() : q.template get<1>()[(size_t)(i - 1)]) = x; break;
				default:
				{
					T* p = q.data();
					asm volatile("" : "+r"(p) : : "memory");
					p[i] = x;
					asm volatile("" : : : "memory");
				}
			}
		}
		else if (o.name == "copy")
			g[o[0]].v = g[o[1]].v;
		else if (o.name == "mul")
		{
			Q x = a, y = b;
			o[0] == 1 ? x *= y : o[0] == 2 ? x *= x : x = a * y;
			push(w, x);
		}
		else if (o.name == "conj")
			push(w, odd1 ? Q::conjugate(a) : ca.conjugate());
		else if (o.name == "dot")
			push(w, odd1 ? Q::dot(a, b) : turn % 4 ? ca.dot(b) : muu::dot(a, b));
		else if (o.name == "cmp")
		{
			const quaternion<other> c{ b };
			w.push_back(a == b);
			w.push_back(a != b);
			w.push_back(odd1 ? a == c : !(a != c));
			w.push_back(odd1 ? Q::approx_equal(a, b) : turn % 4 ? ca.approx_equal(b) : muu::approx_equal(a, b));
			w.push_back(odd1 ? Q::approx_equal(a, c) : turn % 4 ? ca.approx_equal(c) : muu::approx_equal(a, c));
			w.push_back(odd1 ? Q::zero(a) : ca.zero());
			w.push_back(odd1 ? Q::approx_zero(a) : turn % 4 ? ca.approx_zero() : muu::approx_zero(a));
			w.push_back(odd1 ? Q::normalized(a) : turn % 4 ? ca.normalized() : muu::normalized(a));
			w.push_back(odd1 ? Q::infinity_or_nan(a) : turn % 4 ? ca.infinity_or_nan() : muu::infinity_or_nan(a));
			// the answers follow a change
			Q x				  = b;
			const bool before = x.approx_equal(b) && x == b;
			x.v.z			  = x.v.z + val(1);
			w.push_back(before);
			w.push_back(x.approx_equal(b) || x == b);
		}
		else if (o.name == "odd")
		{
			Q x		 = a;
			T bad	 = o[1] == 0 ? constants<T>::infinity : o[1] == 1 ? -constants<T>::infinity : constants<T>::nan;
			if (o[1] == 2)
				bad = num(std::nan(""));
			(o[0] == 0 ? x.s : x.v[(size_t)(o[0] - 1)]) = bad;
			const Q& cx									= x;
			w.push_back(odd1 ? Q::infinity_or_nan(x) : turn % 4 ? cx.infinity_or_nan() : muu::infinity_or_nan(x));
			w.push_back(x == a || a == x);
			w.push_back(x != a);
			w.push_back(cx.zero() || cx.approx_zero());
			w.push_back(cx.normalized());
		}
		else if (o.name == "const")
		{
			push(w, Q::constants::zero);
			push(w, constants<Q>::identity);
			if constexpr (std::is_same_v<T, half>)
			{
				const Q x{ val(1), val(2), val(3), val(4) }, y{ val(5), val(6), val(7), val(8) };
				push(w, x * y);
				push(w, Q::conjugate(x));
				push(w, x * V{ val(1), val(-1), val(2) });
			}
			else
			{
				constexpr Q x{ val(1), val(2), val(3), val(4) }, y{ val(5), val(6), val(7), val(8) };
				constexpr Q z = x * y, c = Q::conjugate(x);
				constexpr V r = x * V{ val(1), val(-1), val(2) };
				push(w, z);
				push(w, c);
				push(w, r);
			}
		}
		else if (o.name == "rot")
		{
			push(w, a * vec(o));
			push(w, vec(o) * a);
		}
		else if (o.name == "norm")
		{
			if (!none(a))
			{
				Q x = a;
				x.normalize();
				const Q y = odd1 ? x : turn % 4 ? Q::normalize(a) : muu::normalize(a);
				scale(w, y, 1024);
				w.push_back(odd1 ? Q::normalized(y) : y.normalized());
			}
		}
		else if (o.name == "urot")
		{
			if (!none(a))
				scale(w, odd1 ? unit(a) * vec(o) : vec(o) * unit(a), 4096);
		}
		else if (o.name == "uu")
		{
			if (!none(a) && !none(b))
				scale(w, odd1 ? (unit(a) * unit(b)) * vec(o) : unit(a) * (unit(b) * vec(o)), 4096);
		}
		else if (o.name == "tomat")
		{
			if (!none(a))
				o[0] == 0 ? matrix_of<matrix<T, 3, 3>>(w, unit(a), odd1) : o[0] == 1 ? matrix_of<matrix<T, 3, 4>>(w, unit(a), odd1) : matrix_of<matrix<T, 4, 4>>(w, unit(a), odd1);
		}
		else if (o.name == "frommat")
		{
			if (!none(a))
				scale(w, o[0] == 0 ? from(rotation<3, 3>(a), o[1]) : o[0] == 1 ? from(rotation<3, 4>(a), o[1]) : from(rotation<4, 4>(a), o[1]), 1024);
		}
		else if (o.name == "toaa")
		{
			// also of quaternions of other lengths than one
			if (!none(a))
			{
				const Q q  = o[1] ? unit(a) : a;
				const A aa = odd1 ? Q::to_axis_angle(q, o[0] == 1) : o[0] == 1 && turn % 4 ? q.to_axis_angle() : q.to_axis_angle(o[0] == 1);
				scale(w, aa.axis, 1024);
				const double t = real(aa.angle);
				w.push_back(scaled(t, 1024));
				w.push_back(scaled(std::cos(t / 2), 1024));
				w.push_back(scaled(std::sin(t / 2), 1024));
			}
		}
		else if (o.name == "fromaa")
		{
			if (o[0] || o[1] || o[2])
			{
				const V axis  = unit(vec(o));
				const T angle = num((double)o[3] * pi / 3);
				const A aa{ axis, angle };
				scale(w, o[4] == 0 ? Q::from_axis_angle(axis, angle) : o[4] == 1 ? Q::from_axis_angle(aa) : Q{ aa }, 1024);
			}
		}
		else if (o.name == "toeuler")
		{
			if (!none(a))
			{
				const Q q = o[0] ? unit(a) : a;
				const E e = odd1 ? Q::to_euler(q) : q.to_euler();
				for (T x : { e.yaw, e.pitch, e.roll })
				{
					w.push_back(scaled(std::cos(real(x)), 1024));
					w.push_back(scaled(std::sin(real(x)), 1024));
				}
				w.push_back(scaled(real(e.pitch), 1024));
			}
		}
		else if (o.name == "fromeuler")
		{
			const T y = num((double)o[0] * pi / 6), p = num((double)o[1] * pi / 6), r = num((double)o[2] * pi / 6);
			const E e{ y, p, r };
			scale(w, o[3] == 0 ? Q::from_euler(y, p, r) : o[3] == 1 ? Q::from_euler(e) : Q{ e }, 1024);
		}
		else if (o.name == "between")
		{
			if ((o[0] || o[1] || o[2]) && (o[3] || o[4] || o[5]))
				scale(w, Q::from_rotation(vec(o), vec(o, 3)), 1024);
		}
		else if (o.name == "slerp")
		{
			if (!none(a) && !none(b))
			{
				const T t = num((double)o[0] / 4);
				Q x = unit(a), y = unit(b);
				if (o[1] == 1)
					x.slerp(y, t);
				else if (o[1] == 2)
					x = muu::slerp(x, y, t);
				else
					x = Q::slerp(x, y, t);
				scale(w, x, 1024);
			}
		}
		else if (o.name == "pow")
		{
			if (!none(a))
			{
				const T t = num((double)o[0] / 2);
				Q x		  = unit(a);
				o[1] == 1 ? x *= t : x = o[1] == 2 ? t * x : x * t;
				scale(w, x, 1024);
			}
		}
		else if (o.name == "aav")
		{
			const V v = vec(o, 1);
			const T g1 = val(o[4]);
			auto pick  = [&]() -> A {
				 switch (o[0])
				 {
					 case 1: return A{ v };
					 case 2: return A{ vector<T, 4>{ v.x, v.y, v.z, g1 } };
					 case 3: return A{ axis_angle<other>{ vector<other, 3>{ v }, static_cast<other>((float)o[4]) } };
					 case 4: return A{ alike<T, 4>{ { v.x, v.y, v.z, g1 } } };
					 default: return A{ v, g1 };
				 }
			};
			A x			= pick();
			const A& cx = x;
			push(w, x.axis);
			push(w, x.angle);
			push(w, static_cast<const V&>(cx));
			const auto v4 = static_cast<vector<T, 4>>(cx);
			push(w, V{ v4.x, v4.y, v4.z });
			push(w, v4.w);
			w.push_back(odd1 ? cx.infinity_or_nan() : turn % 4 ? A::infinity_or_nan(x) : muu::infinity_or_nan(x));
			bool all = true;
			for (int i = 0; i < 4; i++)
			{
				A y											 = x;
				(i == 3 ? y.angle : y.axis[(size_t)i]) = i % 2 ? constants<T>::infinity : num(std::nan(""));
				all = all && (odd1 ? y.infinity_or_nan() : turn % 4 ? A::infinity_or_nan(y) : muu::infinity_or_nan(y));
			}
			w.push_back(all);
			w.push_back(A{ x }.infinity_or_nan());
		}
		else if (o.name == "euv")
		{
			const T y = val(o[1]), p = val(o[2]), r = val(o[3]), f = val(o[4]);
			auto pick = [&]() -> E {
				switch (o[0])
				{
					case 1: return E{ y, p };
					case 2: return E{ V{ y, p, r } };
					case 3: return E{ euler_angles<other>{ static_cast<other>((float)o[1]), static_cast<other>((float)o[2]), static_cast<other>((float)o[3]) } };
					case 4: return E{ alike<T, 3>{ { y, p, r } } };
					default: return E{ y, p, r };
				}
			};
			E x			= pick();
			const E& cx = x;
			push(w, x);
			push(w, static_cast<V>(cx));
			push(w, x * f);
			push(w, f * x);
			E z = x;
			z *= f;
			push(w, z);
			w.push_back(odd1 ? cx.infinity_or_nan() : turn % 4 ? E::infinity_or_nan(x) : muu::infinity_or_nan(x));
			bool all = true;
			for (int i = 0; i < 3; i++)
			{
				E t												  = x;
				(i == 0 ? t.yaw : i == 1 ? t.pitch : t.roll) = i % 2 ? constants<T>::infinity : num(std::nan(""));
				all = all && (odd1 ? t.infinity_or_nan() : turn % 4 ? E::infinity_or_nan(t) : muu::infinity_or_nan(t));
			}
			w.push_back(all);
		}
		turn = turn * 5 + 1;
		turn ^= turn >> 7;
		dump(w);
	}
};
#define KIND(T)                                                                                                                            \
	template <>                                                                                                                            \
	base* create<T>() { return new tester<T>; }
#if PART == -1 || PART == 0
KIND(float)
#endif
#if PART == -1 || PART == 1
KIND(double)
#endif
#if PART == -1 || PART == 2
KIND(half)
#endif

#if PART <= 0
	#define USE(T)                                                                                                                         \
		template <>                                                                                                                        \
		base* create<T>();
	#if PART == 0
USE(double) USE(half)
	#endif
static std::unique_ptr<base> cur;
static base* any(long k) { return k == 3 ? create<float>() : k == 4 ? create<double>() : create<half>(); }
void seq::reset() { cur.reset(any(3)); }
void seq::apply(const op& o, out& w)
{
	if (o.name == "kind")
		cur.reset(any(o[0]));
	cur->apply(o, w);
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> q;
	q.push_back({ "kind", { 3 + r(3) } });
	long hi	  = r(3) ? 3 : r(2) ? 1 : 2;
	auto val  = [&]() { return r.range(-hi, hi); };
	auto vals = [&](op o, long m) {
		for (long i = 0; i < m; i++)
			o.a.push_back(val());
		return o;
	};
	auto add = [&](op o) { q.push_back(o); };
	add(vals(op("set", { 1, r(6) }), 4));
	add(vals(op("set", { 2, r(6) }), 4));
	static const char* const simple[] = { "conj", "dot", "cmp", "norm" };
	for (long i = r.range(4, 16); i > 0; i--)
		switch (r(22))
		{
			case 0: add(vals(op("set", { 1 + r(2), r(6) }), 4)); break;
			case 1: add({ "put", { 1 + r(2), r(3), r(4), val() } }); break;
			case 2: add({ "copy", { 1 + r(2), 1 + r(2) } }); break;
			case 3: add({ "mul", { r(3) } }); break;
			case 4: add({ "odd", { r(4), r(3) } }); break;
			case 5: add(vals(op("rot"), 3)); break;
			case 6: add(vals(op("urot"), 3)); break;
			case 7: add(vals(op("uu"), 3)); break;
			case 8: add({ "tomat", { r(3) } }); break;
			case 9:
			case 10: add({ "frommat", { r(3), r(2) } }); break;
			case 11: add({ "toaa", { r(2), r(2) } }); break;
			case 12:
			{
				op o = vals(op("fromaa"), 3);
				o.a.push_back(r.range(-6, 6));
				o.a.push_back(r(3));
				add(o);
				break;
			}
			case 13: add({ "toeuler", { r(2) } }); break;
			case 14: add({ "fromeuler", { r.range(-6, 6), r.range(-6, 6), r.range(-6, 6), r(3) } }); break;
			case 15:
			case 16: add(vals(op("between"), 6)); break;
			case 17:
			case 18: add({ "slerp", { r(5), r(3) } }); break;
			case 19:
			{
				static const long n[] = { -4, -2, -1, 0, 1, 2, 3, 4, 6 };
				add({ "pow", { r.pick(n), r(3) } });
				break;
			}
			case 20:
				if (r(3) == 0)
					add(r(2) ? vals(op("aav", { r(5) }), 4) : vals(op("euv", { r(5) }), 4));
				break;
			default: add({ simple[r(4)], {} });
		}
	return q;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
#endif
