// Driver of the VConsts component: the constants of the composite types (vectors, matrices, quaternions, shapes, uuids).
#include "muu/core.h"
#include "muu/half.h"
#include "muu/vector.h"
#include "muu/matrix.h"
#include "muu/quaternion.h"
#include "muu/plane.h"
#include "muu/bounding_box.h"
#include "muu/bounding_sphere.h"
#include "muu/oriented_bounding_box.h"
#include "muu/line_segment.h"
#include "muu/triangle.h"
#include "muu/uuid.h"
#include "seq.h"
using namespace muu;
using seq::op;
using seq::out;
using seq::rng;
#define NAMED(X) \
	X(one_over_two) X(two_over_three) X(two_over_five) X(sqrt_two) X(one_over_sqrt_two) X(one_over_three) X(three_over_two) \
	X(three_over_four) X(three_over_five) X(sqrt_three) X(one_over_sqrt_three) X(pi) X(one_over_pi) X(pi_over_two) X(pi_over_three) \
	X(pi_over_four) X(pi_over_five) X(pi_over_six) X(pi_over_seven) X(pi_over_eight) X(sqrt_pi) X(one_over_sqrt_pi) X(two_pi) \
	X(sqrt_two_pi) X(one_over_sqrt_two_pi) X(one_over_three_pi) X(three_pi_over_two) X(three_pi_over_four) X(three_pi_over_five) X(e) \
	X(one_over_e) X(e_over_two) X(e_over_three) X(e_over_four) X(e_over_five) X(e_over_six) X(sqrt_e) X(one_over_sqrt_e) X(phi) \
	X(one_over_phi) X(phi_over_two) X(phi_over_three) X(phi_over_four) X(phi_over_five) X(phi_over_six) X(sqrt_phi) X(one_over_sqrt_phi) \
	X(degrees_to_radians) X(radians_to_degrees)
#define WHOLE(X) \
	X(lowest) X(highest) X(zero) X(one) X(two) X(three) X(four) X(five) X(six) X(seven) X(eight) X(nine) X(ten) X(one_hundred)
#define SPECIAL(X) X(nan) X(signaling_nan) X(infinity) X(negative_infinity) X(negative_zero)
void seq::reset() {}
template <typename T>
static long code(T v)
{
	const float f = (float)v;
	return f == 0.0f ? 0 : f == 1.0f ? 2 : f == -1.0f ? -2 : f == 0.5f ? 1 : v == T(constants<float>::one_over_sqrt_two) || f == (float)T(0.70710678118654752440L) ? 7 : v == -T(constants<float>::one_over_sqrt_two) || f == -(float)T(0.70710678118654752440L) ? -7 : 99;
}
template <typename T>
static bool same(T a, T b)
{
	if constexpr (is_floating_point<T>)
	{
		const bool x = a != a, y = b != b;
		return x || y ? x && y : a == b && !__builtin_signbit((float)a) == !__builtin_signbit((float)b);
	}
	else
		return a == b;
}
// how many components differ from the scalar's constant, per name; -1000 for another number of components
template <typename T, typename C, typename V>
static long differ(const V& v, T s)
{
	long d = 0;
	for (size_t i = 0; i < sizeof(V) / sizeof(T); i++)
		d += !same(reinterpret_cast<const T*>(&v)[i], s);
	return d;
}
template <typename T, typename V>
static void spread(out& w)
{
	using C = constants<V>;
	using K = constants<T>;
	w.push_back((long)(sizeof(V) / sizeof(T)));
#define LIST(n) w.push_back(differ<T, C>(C::n, K::n));
	WHOLE(LIST)
	if constexpr (is_floating_point<T>)
	{
		w.push_back(C::significand_digits == K::significand_digits && C::decimal_digits == K::decimal_digits ? 0 : 1);
		w.push_back(differ<T, C>(constants<const V&>::pi, K::pi));
		SPECIAL(LIST) NAMED(LIST)
	}
#undef LIST
}
template <typename T>
static void cells(out& w, const T* p, size_t n)
{
	for (size_t i = 0; i < n; i++)
		w.push_back(code(p[i]));
}
template <typename T, size_t N>
static void put(out& w, const vector<T, N>& v)
{
	for (size_t i = 0; i < N; i++)
		w.push_back(code(v[i]));
}
template <typename T, size_t N>
static void axes(out& w)
{
	using C = constants<vector<T, N>>;
	put(w, C::x_axis);
	if constexpr (N > 1)
	{
		put(w, C::template axis<0>);
		put(w, C::template axis<N - 1>);
		put(w, C::template axis<1>);
	}
	if constexpr (N >= 2)
		put(w, C::y_axis);
	if constexpr (N >= 3)
		put(w, C::z_axis);
	if constexpr (N >= 4)
		put(w, C::w_axis);
	if constexpr (N == 2)
	{
		put(w, C::screen_right);
		put(w, C::screen_down);
		if constexpr (is_signed<T>)
		{
			put(w, C::screen_left);
			put(w, C::screen_up);
		}
	}
	if constexpr (N == 2 || N == 3)
	{
		put(w, C::right);
		put(w, C::up);
		if constexpr (is_signed<T>)
		{
			put(w, C::left);
			put(w, C::down);
		}
	}
	if constexpr (N == 3)
	{
		put(w, C::backward);
		if constexpr (is_signed<T>)
			put(w, C::forward);
		if constexpr (is_floating_point<T>)
		{
			put(w, C::forward_left);
			put(w, C::forward_right);
		}
	}
}
template <typename T, size_t R, size_t C>
static void rows(out& w, const matrix<T, R, C>& m)
{
	for (size_t r = 0; r < R; r++)
		for (size_t c = 0; c < C; c++)
			w.push_back(code(m(r, c)));
}
template <typename T, size_t R, size_t C>
static void turns(out& w)
{
	using K = constants<matrix<T, R, C>>;
	if constexpr (R >= 3 && C >= 3 && R <= 4 && C <= 4 && is_floating_point<T>)
	{
		rows(w, K::right);
		rows(w, K::up);
		rows(w, K::backward);
		rows(w, K::left);
		rows(w, K::down);
	}
	rows(w, K::identity);
}
template <typename T>
static void shapes(out& w)
{
	auto box = [&](const auto& b)
	{
		put(w, b.center);
		put(w, b.extents);
	};
	box(constants<bounding_box<T>>::zero);
	box(constants<bounding_box<T>>::unit);
	box(constants<oriented_bounding_box<T>>::zero);
	box(constants<oriented_bounding_box<T>>::unit);
	rows(w, constants<oriented_bounding_box<T>>::zero.axes);
	rows(w, constants<oriented_bounding_box<T>>::unit.axes);
	auto ball = [&](const bounding_sphere<T>& b)
	{
		put(w, b.center);
		w.push_back(code(b.radius));
	};
	ball(constants<bounding_sphere<T>>::zero);
	ball(constants<bounding_sphere<T>>::unit);
	cells(w, reinterpret_cast<const T*>(&constants<line_segment<T>>::zero), 6);
	cells(w, reinterpret_cast<const T*>(&constants<triangle<T>>::zero), 9);
	auto flat = [&](const plane<T>& p)
	{
		put(w, p.normal);
		w.push_back(code(p.d));
	};
	flat(constants<plane<T>>::zero);
	flat(constants<plane<T>>::xy);
	flat(constants<plane<T>>::xz);
	flat(constants<plane<T>>::yz);
	auto turn = [&](const quaternion<T>& q)
	{
		w.push_back(code(q.s));
		put(w, q.v);
	};
	turn(constants<quaternion<T>>::zero);
	turn(constants<quaternion<T>>::identity);
}
template <typename T>
static void vec(const op& o, out& w)
{
	const bool a = o.name == "axes";
	switch (o[1])
	{
		case 1: a ? axes<T, 1>(w) : spread<T, vector<T, 1>>(w); break;
		case 2: a ? axes<T, 2>(w) : spread<T, vector<T, 2>>(w); break;
		case 3: a ? axes<T, 3>(w) : spread<T, vector<T, 3>>(w); break;
		case 4: a ? axes<T, 4>(w) : spread<T, vector<T, 4>>(w); break;
		case 5: a ? axes<T, 5>(w) : spread<T, vector<T, 5>>(w); break;
	}
}
template <typename T>
static void mat(const op& o, out& w)
{
	const bool a = o.name == "turns";
	switch (o[1] * 10 + o[2])
	{
		case 22: a ? turns<T, 2, 2>(w) : spread<T, matrix<T, 2, 2>>(w); break;
		case 23: a ? turns<T, 2, 3>(w) : spread<T, matrix<T, 2, 3>>(w); break;
		case 33: a ? turns<T, 3, 3>(w) : spread<T, matrix<T, 3, 3>>(w); break;
		case 34: a ? turns<T, 3, 4>(w) : spread<T, matrix<T, 3, 4>>(w); break;
		case 43: a ? turns<T, 4, 3>(w) : spread<T, matrix<T, 4, 3>>(w); break;
		case 44: a ? turns<T, 4, 4>(w) : spread<T, matrix<T, 4, 4>>(w); break;
	}
}
#define EACH(k, call) \
	switch (k)        \
	{                 \
		case 1: call(float); break;       \
		case 2: call(double); break;      \
		case 3: call(long double); break; \
		case 4: call(half); break;        \
		case 5: call(int); break;         \
		case 6: call(unsigned); break;    \
	}
void seq::apply(const op& o, out& w)
{
#define VEC(T) vec<T>(o, w)
#define MAT(T) mat<T>(o, w)
	if (o.name == "spread" || o.name == "axes")
		EACH(o[0], VEC)
	else if (o.name == "fill" || o.name == "turns")
		EACH(o[0], MAT)
	else if (o.name == "shapes")
		switch (o[0])
		{
			case 1: shapes<float>(w); break;
			case 2: shapes<double>(w); break;
			case 3: shapes<long double>(w); break;
			case 4: shapes<half>(w); break;
		}
	else if (o.name == "uuids")
	{
		using C = constants<uuid>;
		for (const uuid* u : { &C::nil, &C::namespace_dns, &C::namespace_url, &C::namespace_oid, &C::namespace_x500 })
			for (size_t i = 0; i < 16; i++)
				w.push_back(std::to_integer<long>(u->bytes.value[i]));
	}
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> v;
	for (long n = 4; n--;)
		v.push_back(op{ "spread", { r.range(1, 6), r.range(1, 5) } });
	return v;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
