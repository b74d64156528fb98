// muu's geometric shapes: line_segment, triangle, bounding_box, oriented_bounding_box, bounding_sphere, plane, ray.
#include "muu/core.h"
#include "muu/half.h"
#include "muu/vector.h"
#include "muu/matrix.h"
#include "muu/bounding_box.h"
#include "muu/oriented_bounding_box.h"
#include "muu/bounding_sphere.h"
#include "muu/plane.h"
#include "muu/ray.h"
#include "muu/triangle.h"
#include "muu/line_segment.h"
#include "muu/sat_tester.h"
#include "seq.h"
#include <array>
#include <cmath>
#include <memory>
using namespace muu;
using seq::op;
using seq::out;
using seq::rng;

#ifndef PART
	#define PART -1
#endif
struct base
{
	virtual ~base() = default;
	virtual void apply(const op&, out&) = 0;
};
template <typename T>
base* create();

template <typename T, size_t N>
struct alike
{
	T v[N];
};
namespace muu
{
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 6>, bounding_box<T>> = true;
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 4>, bounding_sphere<T>> = true;
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 4>, plane<T>> = true;
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 6>, ray<T>> = true;
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 6>, line_segment<T>> = true;
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 9>, triangle<T>> = true;
	template <typename T>
	inline constexpr bool allow_implicit_bit_cast<alike<T, 15>, oriented_bounding_box<T>> = true;
}

enum : long
{
	PT = 1,
	SEG,
	TRI,
	BOX,
	OBB,
	BALL,
	PLANE,
	RAY
};
static constexpr long odd = 99999999;
static inline long scaled(double v, double by)
{
	v *= by;
	return v == v && v > -2e9 && v < 2e9 ? std::lround(v) : odd;
}
template <typename T>
static double real(T v)
{
	if constexpr (std::is_same_v<T, half>)
		return (double)static_cast<float>(v);
	else
		return (double)v;
}
template <typename T>
static long whole(T v, double by = 1)
{
	const double d = real(v) * by;
	return d == std::floor(d) && std::abs(d) < 2e9 ? (long)d : odd;
}
template <typename T>
static long about(T v, double by)
{
	const double d = real(v) * by, r = std::floor(d + 0.5);
	return std::abs(d - r) < (std::is_same_v<T, half> ? 0.2 : 1e-3) && std::abs(d) < 2e9 ? (long)r : odd;
}

template <typename T>
struct tester final : base
{
	using V		= vector<T, 3>;
	using S		= line_segment<T>;
	using TR	= triangle<T>;
	using B		= bounding_box<T>;
	using O		= oriented_bounding_box<T>;
	using BS	= bounding_sphere<T>;
	using P		= plane<T>;
	using R		= ray<T>;
	using M3	= matrix<T, 3, 3>;
	using M4	= matrix<T, 4, 4>;
	using other = std::conditional_t<std::is_same_v<T, double>, float, double>;
	static constexpr bool is_half = std::is_same_v<T, half>;
	static_assert(sizeof(S) == 6 * sizeof(T) && sizeof(TR) == 9 * sizeof(T) && sizeof(B) == 6 * sizeof(T) && sizeof(BS) == 4 * sizeof(T) && sizeof(P) == 4 * sizeof(T)
				  && sizeof(R) == 6 * sizeof(T) && sizeof(O) == 15 * sizeof(T));
	struct reg
	{
		long tag = PT;
		long d	 = 1; // denominator of the axes
		V pt{ T{}, T{}, T{} };
		S seg{};
		TR tri{};
		B box{};
		O obb{};
		BS ball{};
		P pl{};
		R ry{};
	};
	reg g[3]; // 1 is x, 2 is y
	unsigned turn = 0;

	static constexpr T val(long x) { return static_cast<T>((float)x); }
	static constexpr T hal(long x) { return static_cast<T>((float)x * 0.5f); }
	static T num(double x)
	{
		if constexpr (is_half)
			return static_cast<half>((float)x);
		else
			return static_cast<T>(x);
	}
	static V vec(const op& o, size_t i) { return V{ val(o[i]), val(o[i + 1]), val(o[i + 2]) }; }
	static void push(out& w, const V& v, double by)
	{
		for (size_t i = 0; i < 3; i++)
			w.push_back(scaled(real(v[i]), by));
	}
	static void exact(out& w, const V& v, double by)
	{
		for (size_t i = 0; i < 3; i++)
			w.push_back(whole(v[i], by));
	}
	static void raw(out& w, const void* p, size_t n)
	{
		T v[16];
		memcpy(v, p, n * sizeof(T));
		for (size_t i = 0; i < n; i++)
			w.push_back(whole(v[i], 2));
	}
	template <typename X>
	void data(out& w, const X& x, size_t n)
	{
		if (turn++ % 2)
		{
			const T* p = x.data();
			asm volatile("" : "+r"(p) : : "memory");
			for (size_t i = 0; i < n; i++)
				w.push_back(whole(p[i], 2));
		}
		else
			raw(w, &x, n);
	}
	void dump(out& w)
	{
		for (int k = 1; k <= 2; k++)
		{
			const reg& r = g[k];
			switch (r.tag)
			{
				case PT: exact(w, r.pt, 2); break;
				case SEG:
					if (turn % 3 == 0)
					{
						exact(w, r.seg.template get<0>(), 2);
						exact(w, r.seg[1], 2);
						turn++;
					}
					else if (turn % 3 == 1)
					{
						for (auto& p : r.seg)
							exact(w, p, 2);
						turn++;
					}
					else
						data(w, r.seg, 6);
					break;
				case TRI:
					if (turn % 3 == 0)
					{
						exact(w, r.tri.template get<0>(), 2);
						exact(w, r.tri[1], 2);
						exact(w, r.tri.template get<2>(), 2);
						turn++;
					}
					else if (turn % 3 == 1)
					{
						for (auto& p : r.tri)
							exact(w, p, 2);
						turn++;
					}
					else
						data(w, r.tri, 9);
					break;
				case BOX:
					if (turn % 3 == 0)
					{
						auto& c = r.box.center;
						auto& e = r.box.extents;
						exact(w, c, 2);
						exact(w, e, 2);
						turn++;
					}
					else
						data(w, r.box, 6);
					break;
				case OBB:
				{
					T v[15];
					if (turn++ % 2)
						memcpy(v, &r.obb, sizeof v);
					else
					{
						const T* p = r.obb.data();
						asm volatile("" : "+r"(p) : : "memory");
						for (int i = 0; i < 15; i++)
							v[i] = p[i];
					}
					for (int i = 0; i < 15; i++)
						w.push_back(about(v[i], i < 6 ? 2.0 : (double)r.d));
					break;
				}
				case BALL: data(w, r.ball, 4); break;
				case PLANE: data(w, r.pl, 4); break;
				case RAY: raw(w, &r.ry, 6); break;
			}
		}
	}
	template <typename X>
	static X cast(const op& o, size_t n, size_t at)
	{
		T v[16];
		for (size_t i = 0; i < n; i++)
			v[i] = val(o[at + i]);
		X x;
		memcpy(static_cast<void*>(&x), v, n * sizeof(T));
		return x;
	}
	template <size_t N>
	static alike<T, N> like(const op& o, size_t at)
	{
		alike<T, N> r;
		for (size_t i = 0; i < N; i++)
			r.v[i] = val(o[at + i]);
		return r;
	}
	static M3 axes(const op& o, size_t at, long d)
	{
		M3 m{ T{} };
		for (size_t c = 0; c < 3; c++)
			for (size_t r = 0; r < 3; r++)
				m(r, c) = num((double)o[at + 3 * c + r] / (double)d);
		return m;
	}
	void make(reg& r, long how, const op& o, size_t i) // o[i] is the tag
	{
		r.tag = o[i++];
		r.d	  = 1;
		switch (r.tag)
		{
			case PT: r.pt = vec(o, i); break;
			case SEG:
				switch (how % 5)
				{
					case 0: r.seg = S{ vec(o, i), vec(o, i + 3) }; break;
					case 1:
					{
						const V p[]{ vec(o, i), vec(o, i + 3) };
						r.seg = S{ p };
						break;
					}
					case 2: r.seg = S{ val(o[i]), val(o[i + 1]), val(o[i + 2]), val(o[i + 3]), val(o[i + 4]), val(o[i + 5]) }; break;
					case 3: r.seg = S{ line_segment<other>{ S{ vec(o, i), vec(o, i + 3) } } }; break;
					default: r.seg = like<6>(o, i); break;
				}
				break;
			case TRI:
				switch (how % 6)
				{
					case 0: r.tri = TR{ vec(o, i), vec(o, i + 3), vec(o, i + 6) }; break;
					case 1:
					{
						const V p[]{ vec(o, i), vec(o, i + 3), vec(o, i + 6) };
						r.tri = TR{ p };
						break;
					}
					case 2:
						r.tri = TR{ val(o[i]), val(o[i + 1]), val(o[i + 2]), val(o[i + 3]), val(o[i + 4]), val(o[i + 5]), val(o[i + 6]), val(o[i + 7]), val(o[i + 8]) };
						break;
					case 3: r.tri = TR{ triangle<other>{ TR{ vec(o, i), vec(o, i + 3), vec(o, i + 6) } } }; break;
					case 4:
						r.tri[0]				 = vec(o, i);
						r.tri.template get<1>() = vec(o, i + 3);
						*(r.tri.begin() + 2)	 = vec(o, i + 6);
						break;
					default: r.tri = like<9>(o, i); break;
				}
				break;
			case BOX:
			{
				const V lo = vec(o, i), hi = vec(o, i + 3);
				const T cx = hal(o[i] + o[i + 3]), cy = hal(o[i + 1] + o[i + 4]), cz = hal(o[i + 2] + o[i + 5]);
				const T ex = hal(o[i + 3] - o[i]), ey = hal(o[i + 4] - o[i + 1]), ez = hal(o[i + 5] - o[i + 2]);
				const V c{ cx, cy, cz }, e{ ex, ey, ez };
				switch (how % 12)
				{
					case 0: r.box = B{ c, e }; break;
					case 1: r.box = B{ c, ex, ey, ez }; break;
					case 2: r.box = B{ cx, cy, cz, e }; break;
					case 3: r.box = B{ cx, cy, cz, ex, ey, ez }; break;
					case 4: r.box = B::from_min_max(lo, hi); break;
					case 5: r.box = B::from_points(V{ hi.x, lo.y, hi.z }, V{ lo.x, hi.y, lo.z }); break;
					case 6: r.box = B::from_points(hi, c, lo, V{ lo.x, hi.y, lo.z }); break;
					case 7:
					{
						const V p[]{ c, V{ lo.x, hi.y, hi.z }, V{ hi.x, lo.y, lo.z }, c };
						r.box = how & 1 ? B{ p } : B::from_points(p);
						break;
					}
					case 8: r.box = B{ bounding_box<other>{ B{ c, e } } }; break;
					case 9:
					{
						alike<T, 6> a{ { cx, cy, cz, ex, ey, ez } };
						r.box = a;
						break;
					}
					case 10:
					{
						const V p[]{ lo, hi };
						r.box = B{ p, p + 2 };
						break;
					}
					default:
					{
						const V p[]{ hi, lo };
						r.box = B{ static_cast<const V*>(p), (size_t)2 };
						break;
					}
				}
				break;
			}
			case OBB:
			{
				r.d			= o[i + 15];
				const M3 a	= axes(o, i + 6, r.d);
				const V c	= vec(o, i), e = vec(o, i + 3);
				switch (how % 5)
				{
					case 0: r.obb = O{ c, e, a }; break;
					case 1: r.obb = O{ c, e.x, e.y, e.z, a }; break;
					case 2: r.obb = O{ c.x, c.y, c.z, e, a }; break;
					case 3: r.obb = O{ c.x, c.y, c.z, e.x, e.y, e.z, a }; break;
					default:
					{
						O t{ c, e, a };
						alike<T, 15> l;
						memcpy(&l, static_cast<const void*>(&t), sizeof l);
						r.obb = l;
						break;
					}
				}
				break;
			}
			case BALL:
				switch (how % 4)
				{
					case 0: r.ball = BS{ vec(o, i), val(o[i + 3]) }; break;
					case 1: r.ball = BS{ val(o[i]), val(o[i + 1]), val(o[i + 2]), val(o[i + 3]) }; break;
					case 2: r.ball = BS{ bounding_sphere<other>{ BS{ vec(o, i), val(o[i + 3]) } } }; break;
					default: r.ball = like<4>(o, i); break;
				}
				break;
			case PLANE:
				switch (how % 4)
				{
					case 0: r.pl = P{ vec(o, i), val(o[i + 3]) }; break;
					case 1: r.pl = P{ plane<other>{ P{ vec(o, i), val(o[i + 3]) } } }; break;
					case 2: // through a point
					{
						const long n2 = o[i] * o[i] + o[i + 1] * o[i + 1] + o[i + 2] * o[i + 2];
						if (n2 == 1)
						{
							const V n = vec(o, i);
							r.pl	  = P{ n * val(-o[i + 3]) + V{ n.y, n.z, n.x } * val(2), n };
						}
						else
							r.pl = P{ vec(o, i), val(o[i + 3]) };
						break;
					}
					default: r.pl = like<4>(o, i); break;
				}
				break;
			case RAY:
				switch (how % 4)
				{
					case 0: r.ry = R{ vec(o, i), vec(o, i + 3) }; break;
					case 1: r.ry = R{ val(o[i]), val(o[i + 1]), val(o[i + 2]), val(o[i + 3]), val(o[i + 4]), val(o[i + 5]) }; break;
					case 2: r.ry = R{ ray<other>{ R{ vec(o, i), vec(o, i + 3) } } }; break;
					default: r.ry = like<6>(o, i); break;
				}
				break;
		}
	}
	static size_t scalars(long tag)
	{
		static constexpr size_t n[]{ 0, 3, 6, 9, 6, 15, 4, 4, 6 };
		return n[tag];
	}
	template <typename F>
	static void with(reg& r, F&& f)
	{
		switch (r.tag)
		{
			case SEG: f(r.seg); break;
			case TRI: f(r.tri); break;
			case BOX: f(r.box); break;
			case OBB: f(r.obb); break;
			case BALL: f(r.ball); break;
			case PLANE: f(r.pl); break;
			case RAY: f(r.ry); break;
		}
	}
	template <typename X>
	static auto& same_kind(reg& r)
	{
		if constexpr (std::is_same_v<X, S>)
			return r.seg;
		else if constexpr (std::is_same_v<X, TR>)
			return r.tri;
		else if constexpr (std::is_same_v<X, B>)
			return r.box;
		else if constexpr (std::is_same_v<X, O>)
			return r.obb;
		else if constexpr (std::is_same_v<X, BS>)
			return r.ball;
		else if constexpr (std::is_same_v<X, P>)
			return r.pl;
		else
			return r.ry;
	}
	template <template <typename> typename X>
	static X<other> to_other(const X<T>& x)
	{
		return X<other>{ x };
	}
	static V unit(const V& v)
	{
		const double x = real(v.x), y = real(v.y), z = real(v.z), n = std::sqrt(x * x + y * y + z * z);
		return V{ num(x / n), num(y / n), num(z / n) };
	}
	static bool none(const V& v) { return whole(v.x) == 0 && whole(v.y) == 0 && whole(v.z) == 0; }

	template <typename X>
	void contains(out& w, X& x, const reg& y)
	{
		// every way of asking
		const X& cx = x;
		constexpr bool eps = std::is_same_v<X, S> || std::is_same_v<X, TR> || std::is_same_v<X, P>;
		(void)eps;
		switch (y.tag)
		{
			case PT:
				w.push_back(X::contains(x, y.pt));
				w.push_back(cx.contains(y.pt));
				if constexpr (!std::is_same_v<X, P>)
				{
					const V p[]{ y.pt, y.pt, y.pt };
					w.push_back(x.contains(p, p + 3));
					w.push_back(x.contains(p, p + 1));
					if (x.contains(p, p))
						w.back() = odd;
				}
				if constexpr (std::is_same_v<X, S>)
					w.push_back(S::contains(x[0], x[1], y.pt));
				if constexpr (std::is_same_v<X, TR>)
					w.push_back(TR::contains(x[0], x[1], x[2], y.pt));
				break;
			case SEG:
				if constexpr (!std::is_same_v<X, P>)
				{
					w.push_back(X::contains(x, y.seg));
					w.push_back(cx.contains(y.seg));
					const V p[]{ y.seg[0], y.seg[1] };
					w.push_back(x.contains(p, p + 2));
				}
				if constexpr (std::is_same_v<X, B> || std::is_same_v<X, O> || std::is_same_v<X, BS>)
					w.push_back(X::contains(x, y.seg[0], y.seg[1]));
				if constexpr (std::is_same_v<X, TR>)
					w.push_back(TR::contains(x[0], x[1], x[2], y.seg[0], y.seg[1]));
				break;
			case TRI:
				if constexpr (std::is_same_v<X, B> || std::is_same_v<X, O> || std::is_same_v<X, BS>)
				{
					w.push_back(X::contains(x, y.tri));
					w.push_back(cx.contains(y.tri));
					w.push_back(X::contains(x, y.tri[0], y.tri[1], y.tri[2]));
					w.push_back(x.contains(y.tri.begin(), y.tri.end()));
				}
				break;
			case BOX:
				if constexpr (std::is_same_v<X, B> || std::is_same_v<X, BS>)
				{
					w.push_back(X::contains(x, y.box));
					w.push_back(cx.contains(y.box));
				}
				break;
			case BALL:
				if constexpr (std::is_same_v<X, B> || std::is_same_v<X, BS>)
				{
					w.push_back(X::contains(x, y.ball));
					w.push_back(cx.contains(y.ball));
				}
				break;
			case OBB:
				if constexpr (std::is_same_v<X, B>)
				{
					w.push_back(B::contains(x, y.obb));
					w.push_back(cx.contains(y.obb));
				}
				break;
		}
	}
	void hit(out& w, reg& x, reg& y)
	{
		const auto both = [&](long a, long b) { return x.tag == a && y.tag == b; };
		if (x.tag == RAY)
		{
			if (none(x.ry.direction) || y.tag == SEG || y.tag == OBB || y.tag == PT || y.tag == RAY)
			{
				if (none(x.ry.direction) && (y.tag == PLANE || y.tag == TRI || y.tag == BALL || y.tag == BOX))
				{
					w.push_back(0);
					w.push_back(0);
				}
				return;
			}
			const R r{ x.ry.origin, unit(x.ry.direction) };
			const auto cast = [&](const auto& what)
			{
				for (const auto& h : { R::hits(r, what), r.hits(what) })
				{
					w.push_back(h.has_value());
					if (h)
						w.push_back(scaled(real(*h), 1024));
				}
			};
			switch (y.tag)
			{
				case PLANE: cast(y.pl); break;
				case TRI: cast(y.tri); break;
				case BALL: cast(y.ball); break;
				case BOX: cast(y.box); break;
			}
		}
		else if (both(SEG, PLANE) || both(PLANE, SEG))
		{
			const S& s = x.tag == SEG ? x.seg : y.seg;
			const P& p = x.tag == SEG ? y.pl : x.pl;
			w.push_back(S::intersects(s, p));
			w.push_back(s.intersects(p));
			w.push_back(P::intersects(p, s));
			w.push_back(p.intersects(s));
		}
		else if (both(SEG, BOX) || both(BOX, SEG))
		{
			const S& s = x.tag == SEG ? x.seg : y.seg;
			const B& b = x.tag == SEG ? y.box : x.box;
			w.push_back(S::intersects(s, b));
			w.push_back(s.intersects(b));
			w.push_back(B::intersects(b, s));
			w.push_back(b.intersects(s));
			w.push_back(B::intersects(b, s[0], s[1]));
		}
		else if (both(BOX, PLANE) || both(PLANE, BOX))
		{
			const B& b = x.tag == BOX ? x.box : y.box;
			const P& p = x.tag == BOX ? y.pl : x.pl;
			w.push_back(B::intersects(b, p));
			w.push_back(b.intersects(p));
			w.push_back(P::intersects(p, b));
			w.push_back(p.intersects(b));
		}
		else if (both(TRI, TRI))
		{
			const TR &a = x.tri, &b = y.tri;
			if constexpr (!is_half)
			{
				w.push_back(TR::intersects(a, b));
				w.push_back(a.intersects(b));
				std::optional<S> s, z;
				w.push_back(TR::intersects(a, b, s));
				w.push_back(a.intersects(b, z));
				w.push_back(s.has_value());
				if (s)
				{
					push(w, (*s)[0], 256);
					push(w, (*s)[1], 256);
				}
				if (s.has_value() != z.has_value())
					w.back() = odd;
			}
			else
				w = { 2, 2, 2, 2, 0 };
		}
		else if (both(TRI, BOX) || both(BOX, TRI))
		{
			const TR& t = x.tag == TRI ? x.tri : y.tri;
			const B& b	= x.tag == TRI ? y.box : x.box;
			w.push_back(TR::intersects(t, b));
			w.push_back(t.intersects(b));
			w.push_back(TR::intersects(t[0], t[1], t[2], b));
			w.push_back(B::intersects(b, t));
			w.push_back(b.intersects(t));
			w.push_back(B::intersects(b, t[0], t[1], t[2]));
			const auto ct = b.collision_tester();
			w.push_back(ct(t));
			w.push_back(ct(t[0], t[1], t[2]));
			w.push_back(ct(t.collision_tester()));
		}
		else if (both(TRI, OBB) || both(OBB, TRI))
		{
			const TR& t = x.tag == TRI ? x.tri : y.tri;
			const O& b	= x.tag == TRI ? y.obb : x.obb;
			w.push_back(TR::intersects(t, b));
			w.push_back(t.intersects(b));
			w.push_back(TR::intersects(t[0], t[1], t[2], b));
			w.push_back(O::intersects(b, t));
			w.push_back(b.intersects(t));
			w.push_back(O::intersects(b, t[0], t[1], t[2]));
		}
		else if (both(TRI, BALL) || both(BALL, TRI))
		{
			const TR& t = x.tag == TRI ? x.tri : y.tri;
			const BS& b = x.tag == TRI ? y.ball : x.ball;
			w.push_back(TR::intersects(t, b));
			w.push_back(t.intersects(b));
			w.push_back(TR::intersects(t[0], t[1], t[2], b));
			w.push_back(BS::intersects(b, t));
			w.push_back(b.intersects(t));
			w.push_back(BS::intersects(b, t[0], t[1], t[2]));
		}
		else if (both(BOX, BOX))
		{
			const B &a = x.box, &b = y.box;
			w.push_back(B::intersects(a, b));
			w.push_back(a.intersects(b));
			w.push_back(b.intersects(a));
			const auto ca = a.collision_tester();
			w.push_back(ca(b));
			w.push_back(ca(b.collision_tester()));
		}
		else if (both(BOX, OBB) || both(OBB, BOX))
		{
			const B& b = x.tag == BOX ? x.box : y.box;
			const O& o = x.tag == BOX ? y.obb : x.obb;
			w.push_back(B::intersects(b, o));
			w.push_back(b.intersects(o));
			w.push_back(O::intersects(o, b));
			w.push_back(o.intersects(b));
		}
		else if (both(OBB, OBB))
		{
			const O &a = x.obb, &b = y.obb;
			w.push_back(O::intersects(a, b));
			w.push_back(a.intersects(b));
			w.push_back(b.intersects(a));
		}
		else if (both(BOX, BALL) || both(BALL, BOX))
		{
			const B& b	= x.tag == BOX ? x.box : y.box;
			const BS& s = x.tag == BOX ? y.ball : x.ball;
			w.push_back(B::intersects(b, s));
			w.push_back(b.intersects(s));
			w.push_back(BS::intersects(s, b));
			w.push_back(s.intersects(b));
			const auto cb = b.collision_tester();
			const auto cs = s.collision_tester();
			w.push_back(cb(s));
			w.push_back(cb(cs));
			w.push_back(cs(b));
			w.push_back(cs(cb));
		}
		else if (both(OBB, BALL) || both(BALL, OBB))
		{
			const O& b	= x.tag == OBB ? x.obb : y.obb;
			const BS& s = x.tag == OBB ? y.ball : x.ball;
			w.push_back(O::intersects(b, s));
			w.push_back(b.intersects(s));
			w.push_back(BS::intersects(s, b));
			w.push_back(s.intersects(b));
		}
		else if (both(BALL, BALL))
		{
			const BS &a = x.ball, &b = y.ball;
			w.push_back(BS::intersects(a, b));
			w.push_back(a.intersects(b));
			w.push_back(b.intersects(a));
			const auto ca = a.collision_tester();
			w.push_back(ca(b));
			w.push_back(ca(b.collision_tester()));
		}
		else if (both(PT, BOX) || both(BOX, PT))
		{
			const B& b		= x.tag == BOX ? x.box : y.box;
			const auto ct	= b.collision_tester();
			const auto copy = ct;
			w.push_back(copy(x.tag == BOX ? y.pt : x.pt));
		}
	}
	template <typename X>
	void box_size(out& w, X& b)
	{
		const X& c = b;
		for (T v : { c.width(), c.height(), c.depth(), b.shortest_extent() * val(2), b.longest_extent() * val(2), c.shortest_side(), c.longest_side(), c.volume(), c.mass(val(3)) })
			w.push_back(whole(v));
		if (whole(c.shortest_extent(), 2) != whole(b.shortest_extent(), 2) || whole(c.longest_extent(), 2) != whole(b.longest_extent(), 2))
			w.back() = odd;
		w.push_back(real(c.volume()) == 0.0 ? 1 : whole(c.density(c.volume())));
		w.push_back(turn++ % 2 ? X::empty(b) : c.empty());
		if (X::approx_empty(b) != c.empty() || c.approx_empty() != c.empty())
			w.back() = odd;
		w.push_back(turn % 2 ? X::degenerate(b) : turn % 3 ? c.degenerate() : muu::degenerate(c));
		w.push_back(scaled(real(c.diagonal()), 1024));
	}
	template <typename X>
	void box_corners(out& w, const X& b, long d)
	{
		const auto put = [&](const V& v)
		{
			for (size_t i = 0; i < 3; i++)
				w.push_back(about(v[i], (double)d));
		};
		const bool st = turn++ % 2;
		put(st ? X::min_corner(b) : b.min_corner());
		put(st ? X::template corner<box_corner::x>(b) : b.template corner<box_corner::x>());
		put(st ? X::template corner<box_corner::y>(b) : b.template corner<box_corner::y>());
		put(st ? X::template corner<box_corner::xy>(b) : b.template corner<box_corner::xy>());
		put(st ? X::template corner<box_corner::z>(b) : b.template corner<box_corner::z>());
		put(st ? X::template corner<box_corner::xz>(b) : b.template corner<box_corner::xz>());
		put(st ? X::template corner<box_corner::yz>(b) : b.template corner<box_corner::yz>());
		put(st ? X::max_corner(b) : b.max_corner());
		for (int i = 0; i < 8; i++)
			put(st ? X::corner(b, static_cast<box_corner>(i)) : b.corner(static_cast<box_corner>(i)));
	}
	template <typename X>
	void same(out& w, X& x, X& y)
	{
		const X& c	 = x;
		const auto z = to_other(y);
		const bool f = turn++ % 2;
		bool loose	 = false; // 0.6 and the like differ between the types
		if constexpr (std::is_same_v<X, O> && std::is_same_v<T, double>)
			for (size_t i = 0; i < 15; i++)
				loose = loose || (double)(float)y.data()[i] != y.data()[i];
		w.push_back(x == y);
		w.push_back(x != y);
		w.push_back(loose ? x == y : f ? x == z : !(x != z));
		w.push_back(f ? X::approx_equal(x, y) : turn % 3 ? c.approx_equal(y) : muu::approx_equal(x, y));
		w.push_back(loose ? x == y : f ? X::approx_equal(x, z) : turn % 3 ? c.approx_equal(z) : muu::approx_equal(x, z));
		if constexpr (std::is_same_v<X, R>)
			w.push_back(none(x.origin) && none(x.direction));
		else
		{
			w.push_back(f ? X::zero(x) : c.zero());
			if (X::approx_zero(x) != c.zero() || c.approx_zero() != c.zero() || muu::approx_zero(x) != c.zero())
				w.back() = odd;
		}
		w.push_back(f ? X::infinity_or_nan(x) : turn % 3 ? c.infinity_or_nan() : muu::infinity_or_nan(x));
		X m = y;
		w.push_back(m == y && m.approx_equal(y) && !(m != y));
		T t[16];
		memcpy(t, static_cast<const void*>(&m), sizeof m);
		const size_t at = turn % (sizeof(X) / sizeof(T));
		t[at]			= t[at] + val(1);
		memcpy(static_cast<void*>(&m), t, sizeof m);
		w.push_back(m == y || m.approx_equal(y) || X::approx_equal(y, m) || !(m != y));
	}

	void apply(const op& o, out& w) override
	{
		reg &x = g[1], &y = g[2];
		const bool f = o[0];
		if (o.name == "set")
			make(g[o[0]], o[1], o, 2);
		else if (o.name == "swap")
			std::swap(x, y);
		else if (o.name == "copy")
			y = x;
		else if (o.name == "move")
		{
			const V v = vec(o, 1);
			if (x.tag == BOX)
				f ? (void)(x.box = B::translate(x.box, v)) : (void)x.box.translate(v);
			else if (x.tag == OBB)
				f ? (void)(x.obb = O::translate(x.obb, v)) : (void)x.obb.translate(v);
			else if (x.tag == BALL)
				f ? (void)(x.ball = BS::translate(x.ball, v)) : (void)x.ball.translate(v);
		}
		else if (o.name == "grow")
		{
			const V v = vec(o, 1);
			if (x.tag == BOX && o[1] > 0 && o[2] > 0 && o[3] > 0 && o[1] % 2 && o[2] % 2 && o[3] % 2)
				f ? (void)(x.box = B::scale(x.box, v)) : (void)x.box.scale(v);
			else if (x.tag == OBB && o[1] > 0 && o[2] > 0 && o[3] > 0)
				f ? (void)(x.obb = O::scale(x.obb, v)) : (void)x.obb.scale(v);
			else if (x.tag == BALL && o[1] > 0)
				f ? (void)(x.ball = BS::scale(x.ball, v.x)) : (void)x.ball.scale(v.x);
		}
		else if (o.name == "turn")
		{
			M4 m{ T{} };
			for (size_t c = 0; c < 3; c++)
				m((size_t)(std::abs(o[c + 1]) - 1), c) = val(o[c + 1] < 0 ? -1 : 1);
			for (size_t r = 0; r < 3; r++)
				m(r, 3) = val(o[4 + r]);
			m(3, 3) = val(1);
			if (x.tag == BOX)
				f ? (void)(x.box = B::transform(x.box, m)) : (void)x.box.transform(m);
			else if (x.tag == OBB && x.d == 1 && real(x.obb.extents.x) > 0 && real(x.obb.extents.y) > 0 && real(x.obb.extents.z) > 0)
			{
				f ? (void)(x.obb = O::transform(x.obb, m)) : (void)x.obb.transform(m);
				T v[15]; // near enough: go on with the exact numbers
				memcpy(v, static_cast<const void*>(&x.obb), sizeof v);
				for (auto& e : v)
					if (about(e, 2) != odd)
						e = hal(about(e, 2));
				memcpy(static_cast<void*>(&x.obb), v, sizeof v);
			}
			else if (x.tag == PLANE && std::abs(real(V::length_squared(x.pl.normal)) - 1) < 0.5 && !none(x.pl.normal))
				f ? (void)(x.pl = P::transform(x.pl, m)) : (void)x.pl.transform(m);
		}
		else if (o.name == "map")
		{
			if (x.tag == BOX)
			{
				M4 m{ T{} };
				for (size_t c = 0; c < 4; c++)
					for (size_t r = 0; r < 3; r++)
						m(r, c) = val(o[1 + 3 * c + r]);
				m(3, 3) = val(1);
				f ? (void)(x.box = B::transform(x.box, m)) : (void)x.box.transform(m);
			}
		}
		else if (o.name == "add")
		{
			if (x.tag == BOX)
				switch (y.tag)
				{
					case PT: x.box.append(y.pt); break;
					case SEG: turn++ % 2 ? x.box.append(y.seg) : x.box.append(y.seg[0], y.seg[1]); break;
					case TRI: turn++ % 2 ? x.box.append(y.tri) : x.box.append(y.tri[0], y.tri[1], y.tri[2]); break;
					case BOX: x.box.append(y.box); break;
				}
		}
		else if (o.name == "rev")
		{
			if (x.tag == SEG)
				f ? (void)(x.seg = S::reverse(x.seg)) : (void)x.seg.reverse();
		}
		else if (o.name == "ext")
		{
			const V d = x.seg[1] - x.seg[0];
			if (x.tag == SEG && (real(d.x) != 0) + (real(d.y) != 0) + (real(d.z) != 0) == 1)
				f ? (void)(x.seg = S::extend(x.seg, val(o[1]))) : (void)x.seg.extend(val(o[1]));
		}
		else if (o.name == "in")
		{
			if (x.tag == SEG)
				contains(w, x.seg, y);
			else if (x.tag == TRI)
				contains(w, x.tri, y);
			else if (x.tag == PLANE)
				contains(w, x.pl, y);
			else if (x.tag == BOX)
				contains(w, x.box, y);
			else if (x.tag == OBB)
				contains(w, x.obb, y);
			else if (x.tag == BALL)
				contains(w, x.ball, y);
			if (x.tag == SEG && y.tag > SEG)
				w.clear();
		}
		else if (o.name == "hit")
			hit(w, x, y);
		else if (o.name == "sat")
		{
			const V axis = vec(o, 0);
			const V ps[]{ x.tag == PT ? x.pt : x.tag == SEG ? x.seg[0] : x.tri[0], x.tag == SEG ? x.seg[1] : x.tri[1], x.tri[2] };
			const V qs[]{ y.tag == PT ? y.pt : y.tag == SEG ? y.seg[0] : y.tri[0], y.tag == SEG ? y.seg[1] : y.tri[1], y.tri[2] };
			if (x.tag > TRI || y.tag > TRI)
				return dump(w);
			const auto n = x.tag, m = y.tag;
			using tester3 = sat_tester<T, 3>;
			const auto test = [&](tester3 a, tester3 b)
			{
				w.push_back(a(b));
				w.push_back(b(a));
				w.push_back(a(b.min, b.max));
				if (y.tag == PT)
					w.push_back(a(b.min));
			};
			test(tester3{}.add(axis, ps, ps + n), tester3{}.add(axis, qs, qs + m));
			const auto ctor = [&](const V* p, long c) { return c == 1 ? tester3{ axis, p[0] } : c == 2 ? tester3{ axis, p[0], p[1] } : tester3{ axis, p[0], p[1], p[2] }; };
			test(ctor(ps, n), ctor(qs, m));
			const auto arr = [&](const V(&p)[3], long c)
			{
				if (c == 3)
					return turn++ % 2 ? tester3{ axis, p } : tester3{}.add(axis, p);
				tester3 t{ V::dot(axis, p[0]) };
				t.reset();
				for (long i = 0; i < c; i++)
					t.add(axis, p[i]);
				return t;
			};
			test(arr(ps, n), arr(qs, m));
			if (o[0] == 1 && o[1] == 0 && o[2] == 0)
			{
				const index_tag<0> a{};
				test(tester3{}.add(a, ps, ps + n), m == 3 ? tester3{ a, qs } : m == 2 ? tester3{ a, qs[0], qs[1] } : tester3{ a, qs[0] });
			}
			if (o[0] == 0 && o[1] == 1 && o[2] == 0)
			{
				const index_tag<1> a{};
				test(tester3{}.add(a, ps, ps + n), m == 3 ? tester3{ a, qs[0], qs[1], qs[2] } : m == 2 ? tester3{ a, qs[0], qs[1] } : tester3{ a, qs[0] });
			}
			if (o[2] == 0)
			{
				using V2	  = vector<T, 2>;
				using tester2 = sat_tester<T, 2>;
				const V2 a{ axis.x, axis.y };
				tester2 s, t;
				for (long i = 0; i < n; i++)
					s.add(a, V2{ ps[i].x, ps[i].y });
				for (long i = 0; i < m; i++)
					t.add(a, V2{ qs[i].x, qs[i].y });
				w.push_back(s(t));
				w.push_back(t(s));
			}
		}
		else if (o.name == "size")
		{
			if (x.tag == SEG)
			{
				const S& s = x.seg;
				w.push_back(whole(S::length_squared(s)));
				w.push_back(whole(s.length_squared()));
				w.push_back(scaled(real(S::length(s)), 1024));
				w.push_back(scaled(real(s.length()), 1024));
				exact(w, turn++ % 2 ? S::midpoint(s) : s.midpoint(), 2);
				w.push_back(turn % 2 ? S::degenerate(s) : turn % 3 ? s.degenerate() : muu::degenerate(s));
				T len{};
				const V d = turn % 2 ? S::direction(s, len) : s.direction(len);
				w.push_back(scaled(real(len), 1024));
				push(w, turn % 3 ? d : turn % 2 ? S::direction(s) : s.direction(), 1024);
			}
			else if (x.tag == TRI)
			{
				const TR& t = x.tri;
				const V &a = t[0], &b = t[1], &c = t[2];
				push(w, turn++ % 2 ? TR::normal(a, b, c) : t.normal(), 1024);
				const P p = turn % 4 == 0 ? TR::plane(a, b, c) : turn % 4 == 1 ? t.plane() : turn % 4 == 2 ? P{ a, b, c } : P{ t };
				push(w, p.normal, 1024);
				w.push_back(scaled(real(p.signed_distance(a)), 1024));
				w.push_back(scaled(real(turn % 2 ? TR::area(a, b, c) : t.area()), 256));
				push(w, turn % 2 ? TR::centroid(a, b, c) : t.centroid(), 1024);
				w.push_back(scaled(real(turn % 2 ? TR::perimeter(a, b, c) : t.perimeter()), 1024));
				w.push_back(TR::degenerate(a, b, c));
				w.push_back(turn % 2 ? t.degenerate() : muu::degenerate(t));
			}
			else if (x.tag == BOX)
				box_size(w, x.box);
			else if (x.tag == OBB)
				box_size(w, x.obb);
			else if (x.tag == BALL)
			{
				const BS& b = x.ball;
				w.push_back(whole(b.diameter()));
				const double k = 3.0 / (4.0 * 3.14159265358979323846);
				w.push_back(scaled(real(b.volume()), k));
				w.push_back(scaled(real(b.mass(val(3))), k));
				w.push_back(real(b.volume()) == 0.0 ? 1 : whole(b.density(b.volume())));
				w.push_back(turn++ % 2 ? BS::empty(b) : b.empty());
				if (BS::approx_empty(b) != b.empty() || b.approx_empty() != b.empty())
					w.back() = odd;
				w.push_back(turn % 2 ? BS::degenerate(b) : turn % 3 ? b.degenerate() : muu::degenerate(b));
			}
			else if (x.tag == RAY)
			{
				const R& r = x.ry;
				const V to{ val(1), val(-2), val(3) };
				const typename R::result_type at = val(3);
				exact(w, turn++ % 2 ? R::at(r, val(3)) : turn % 4 == 0 ? r.at(val(3)) : turn % 4 == 1 ? R::at(r, at) : r.at(at), 1);
				const R b = turn % 4 == 0 ? R::bounce(r, val(3), to) : turn % 4 == 1 ? R::bounce(r, at, to) : turn % 4 == 2 ? r.bounce(val(3), to) : r.bounce(at, to);
				exact(w, b.origin, 1);
				exact(w, b.direction, 1);
			}
			else if (x.tag == PLANE)
			{
				P p = x.pl;
				if (none(p.normal))
					w.resize(8);
				else
				{
					p.normalize();
					const P q = turn++ % 3 == 0 ? p : turn % 3 == 1 ? P::normalize(x.pl) : muu::plane<T>::normalize(p);
					push(w, q.normal, 1024);
					w.push_back(scaled(real(q.d), 1024));
					w.push_back(turn % 2 ? P::normalized(x.pl) : turn % 3 ? x.pl.normalized() : muu::normalized(x.pl));
					if constexpr (!is_half)
						if (!q.normalized())
							w.back() = odd;
					push(w, turn % 2 ? P::origin(q) : q.origin(), 1024);
				}
			}
		}
		else if (o.name == "near")
		{
			if (y.tag == PT)
			{
				const V& p = y.pt;
				if (x.tag == SEG)
					push(w, turn++ % 2 ? S::closest_point(x.seg, p) : x.seg.closest_point(p), 1024);
				else if (x.tag == BOX)
					push(w, x.box.closest_point(p), 1024);
				else if (x.tag == OBB)
					push(w, x.obb.closest_point(p), 1024);
				else if (x.tag == BALL)
					push(w, x.ball.closest_point(p), 1024);
				else if (x.tag == PLANE)
				{
					const P q = none(x.pl.normal) ? x.pl : P::normalize(x.pl);
					switch (turn++ % 4)
					{
						case 0: push(w, P::project(q, p), 1024); break;
						case 1: push(w, q.project(p), 1024); break;
						case 2: push(w, q.project(S{ p, V{} })[0], 1024); break;
						default: push(w, P::project(q, S{ V{}, p })[1], 1024); break;
					}
				}
			}
		}
		else if (o.name == "side")
		{
			if (x.tag == PLANE && y.tag <= TRI)
			{
				const P q = none(x.pl.normal) ? x.pl : P::normalize(x.pl);
				const P& r = x.pl;
				const V ps[]{ y.tag == PT ? y.pt : y.tag == SEG ? y.seg[0] : y.tri[0], y.tag == SEG ? y.seg[1] : y.tri[1], y.tri[2] };
				for (long i = 0; i < y.tag; i++)
				{
					w.push_back(scaled(real(turn % 2 ? P::signed_distance(q, ps[i]) : q.signed_distance(ps[i])), 256));
					w.push_back(scaled(real(turn++ % 2 ? P::distance(q, ps[i]) : q.distance(ps[i])), 256));
				}
				if (y.tag == SEG)
				{
					w.push_back(P::same_side(r, ps[0], ps[1]));
					w.push_back(r.same_side(ps[0], ps[1]));
				}
				if (y.tag == TRI)
				{
					w.push_back(P::same_side(r, ps[0], ps[1], ps[2]));
					w.push_back(r.same_side(ps[0], ps[1], ps[2]));
				}
			}
		}
		else if (o.name == "flat")
		{
			if (x.tag == SEG && y.tag == PT)
			{
				w.push_back(S::colinear(x.seg, y.pt));
				w.push_back(std::as_const(x.seg).colinear(y.pt));
			}
			else if (x.tag == SEG && y.tag == SEG)
			{
				w.push_back(S::colinear(x.seg, y.seg));
				w.push_back(std::as_const(x.seg).colinear(y.seg));
				w.push_back(S::coplanar(x.seg, y.seg));
				w.push_back(std::as_const(x.seg).coplanar(y.seg));
			}
			else if (x.tag == TRI && y.tag == PT)
			{
				w.push_back(TR::coplanar(x.tri, y.pt));
				w.push_back(std::as_const(x.tri).coplanar(y.pt));
				w.push_back(TR::coplanar(x.tri[0], x.tri[1], x.tri[2], y.pt));
			}
		}
		else if (o.name == "bary")
		{
			if (x.tag == TRI && y.tag == PT)
			{
				const TR& t = x.tri;
				push(w, turn++ % 2 ? TR::barycentric(t[0], t[1], t[2], y.pt) : t.barycentric(y.pt), 1024);
				push(w, turn % 2 ? t.barycentric_generator()(y.pt) : TR::barycentric_generator(t[0], t[1], t[2])(y.pt), 1024);
			}
		}
		else if (o.name == "corner")
		{
			if (x.tag == BOX)
				box_corners(w, x.box, 1);
			else if (x.tag == OBB)
				box_corners(w, x.obb, x.d);
		}
		else if (o.name == "box")
		{
			B b;
			if (x.tag == BALL)
				b = turn++ % 2 ? B{ x.ball } : B::from_sphere(x.ball);
			else if (x.tag == OBB)
				b = turn++ % 2 ? B{ x.obb } : B::from_obb(x.obb);
			else if (x.tag == SEG)
				b = B::from_points(x.seg[0], x.seg[1]);
			else if (x.tag == TRI)
				b = turn++ % 2 ? B::from_points(x.tri[0], x.tri[1], x.tri[2]) : B{ x.tri.begin(), x.tri.end() };
			else
				return dump(w);
			push(w, b.center, 2048);
			push(w, b.extents, 2048);
		}
		else if (o.name == "same")
		{
			if (x.tag == y.tag && x.tag != PT)
				with(x, [&](auto& a) { same(w, a, same_kind<remove_cvref<decltype(a)>>(y)); });
		}
		else if (o.name == "odd")
		{
			with(x,
				 [&](auto& a)
				 {
					 using X	   = remove_cvref<decltype(a)>;
					 X m		   = a;
					 const X& c	   = m;
					 T t[16];
					 memcpy(t, static_cast<const void*>(&m), sizeof m);
					 t[(size_t)o[0] % (sizeof(X) / sizeof(T))] = o[1] == 0 ? constants<T>::infinity : o[1] == 1 ? -constants<T>::infinity : num(std::nan(""));
					 memcpy(static_cast<void*>(&m), t, sizeof m);
					 w.push_back(turn++ % 2 ? X::infinity_or_nan(m) : turn % 3 ? c.infinity_or_nan() : muu::infinity_or_nan(m));
					 w.push_back(m == a || a == m);
					 w.push_back(m != a);
				 });
		}
		dump(w);
	}
};
#define KIND(n, T)                                                                                                     \
	template <>                                                                                                        \
	base* create<T>()                                                                                                  \
	{                                                                                                                  \
		return new tester<T>;                                                                                          \
	}
#if PART < 0 || PART == 0
KIND(3, float)
#endif
#if PART < 0 || PART == 1
KIND(4, double)
#endif
#if PART < 0 || PART == 2
KIND(5, half)
#endif
#if PART < 0 || PART == 0
template <>
base* create<double>();
template <>
base* create<half>();
namespace seq
{
	static std::unique_ptr<base> t;
	void reset() { t.reset(create<float>()); }
	void apply(const op& o, out& w)
	{
		if (o.name == "kind")
		{
			t.reset(o[0] == 3 ? create<float>() : o[0] == 4 ? create<double>() : create<half>());
			for (int i = 0; i < 6; i++)
				w.push_back(0);
		}
		else
			t->apply(o, w);
	}
	static const long turns[][10]{ { 1, 0, 0, 0, 1, 0, 0, 0, 1, 1 },   { 0, 1, 0, 0, 0, 1, 1, 0, 0, 1 },	 { 0, 1, 0, -1, 0, 0, 0, 0, 1, 1 },
								   { 2, 2, -1, -1, 2, 2, 2, -1, 2, 3 }, { 3, 4, 0, -4, 3, 0, 0, 0, 5, 5 },	 { 3, 0, -4, 0, 5, 0, 4, 0, 3, 5 },
								   { 2, 3, 6, 3, -6, 2, 6, 2, -3, 7 }, { 5, 0, 0, 0, 3, 4, 0, -4, 3, 5 } };
	static std::vector<long> shape(rng& r, long tag, long m)
	{
		std::vector<long> v{ tag };
		const auto n = [&](long k) { while (k--) v.push_back(r.range(-m, m)); };
		switch (tag)
		{
			case PT: n(3); break;
			case SEG: n(6); break;
			case TRI: n(9); break;
			case BOX:
			{
				n(3);
				const long x = v[1], y = v[2], z = v[3];
				for (long c : { x, y, z })
					v.push_back(c + (r(12) ? r.range(1, m) : 0));
				break;
			}
			case OBB:
			{
				n(3);
				for (int i = 0; i < 3; i++)
					v.push_back(r(15) ? r.range(1, (m + 1) / 2 + 1) : 0);
				const auto& t = turns[r(8)];
				v.insert(v.end(), t, t + 10);
				break;
			}
			case BALL:
				n(3);
				v.push_back(r(15) ? r.range(1, m) : 0);
				break;
			case PLANE:
				if (r(3) == 0)
				{
					const long a = r(3);
					for (long i = 0; i < 3; i++)
						v.push_back(i == a ? (r(2) ? 1 : -1) : 0);
				}
				else
					for (int i = 0; i < 3; i++)
						v.push_back(r.range(-2, 2));
				v.push_back(r.range(-2 * m, 2 * m));
				break;
			case RAY:
				n(3);
				if (r(3) == 0)
				{
					const long a = r(3);
					for (long i = 0; i < 3; i++)
						v.push_back(i == a ? (r(2) ? 1 : -1) : 0);
				}
				else
					for (int i = 0; i < 3; i++)
						v.push_back(r.range(-3, 3));
				break;
		}
		return v;
	}
	// the pairs that have something to say to each other
	static const long pairs[][2]{ { SEG, PT },	 { SEG, SEG },	{ TRI, PT },   { TRI, SEG },  { PLANE, PT },  { BOX, PT },	 { BOX, SEG },	{ BOX, TRI },	{ BOX, BOX },	 { BOX, BALL },
								  { BOX, OBB },	 { OBB, PT },	{ OBB, SEG },  { OBB, TRI },  { BALL, PT },	  { BALL, SEG }, { BALL, TRI }, { BALL, BOX },	{ BALL, BALL },	 { SEG, PLANE },
								  { BOX, PLANE }, { TRI, TRI }, { TRI, BOX },  { TRI, OBB },  { TRI, BALL },  { OBB, OBB },	 { OBB, OBB },	{ OBB, BALL },	{ PLANE, SEG },	 { PLANE, TRI },
								  { RAY, PLANE }, { RAY, TRI }, { RAY, BALL }, { RAY, BOX },  { OBB, BOX },	  { PLANE, BOX }, { PLANE, PLANE }, { RAY, RAY }, { SEG, BOX }, { OBB, BALL },
								  { TRI, TRI },	 { RAY, TRI },	{ RAY, BOX },  { RAY, BALL } };
	std::vector<op> random(rng& r)
	{
		std::vector<op> v;
		v.push_back(op{ "kind", { r(9) < 4 ? 3l : r(5) ? 4l : 5l } });
		const long m = r(2) ? 3 : 4;
		long flat = 0, frame[9];
		const auto set = [&](long where, long tag)
		{
			std::vector<long> a{ where, r(12) };
			auto s = shape(r, tag, m);
			const long w = r(3) ? r.range(3, 4) : 1;
			const bool wide = flat == 1 && tag == TRI && r(2); // around everything small
			const long lift = r(2) ? 4 : -4, turned = r(3);
			if (flat && tag <= TRI) // on a common plane or line
				for (size_t i = 1; i < s.size(); i += 3)
				{
					long x = r.range(-w, w), y = flat == 2 ? 0 : r.range(-w, w);
					if (wide)
					{
						const long c = ((long)(i / 3) + turned) % 3;
						x = c == 2 ? r.range(-1, 1) : c ? 4 : -4;
						y = c == 2 ? lift : -lift;
					}
					for (size_t j = 0; j < 3; j++)
						s[i + j] = frame[j] + x * frame[3 + j] + y * frame[6 + j];
				}
			a.insert(a.end(), s.begin(), s.end());
			v.push_back(op{ "set", a });
		};
		for (long n = r.range(2, 3); n--;)
		{
			const auto& p = pairs[r((long)(sizeof pairs / sizeof *pairs))];
			flat = r(2) ? 0 : r.range(1, 2);
			for (long i = 0; i < 9; i++)
				frame[i] = i < 3 ? r.range(-2, 2) : r.range(-1, 1);
			if (r(2)) // along two of the axes
				for (long i = 3, j = r(3), k = (j + r.range(1, 2)) % 3; i < 9; i++)
					frame[i] = i == 3 + j || i == 6 + k;
			set(1, p[0]);
			for (long k = r.range(2, 4); k--;)
			{
				set(2, p[1]);
				switch (r(14))
				{
					case 0: v.push_back(op{ "move", { r(2), r.range(-2, 2), r.range(-2, 2), r.range(-2, 2) } }); break;
					case 1:
						if (p[0] == BALL || p[0] == OBB || p[0] == BOX)
						{
							static constexpr long fs[]{ 1, 1, 3 };
							set(1, p[0]);
							v.push_back(op{ "grow", { r(2), r.pick(fs), r.pick(fs), r.pick(fs) } });
						}
						break;
					case 2:
					{
						static constexpr long perm[6][3]{ { 1, 2, 3 }, { 1, 3, 2 }, { 2, 1, 3 }, { 2, 3, 1 }, { 3, 1, 2 }, { 3, 2, 1 } };
						const auto& q = perm[r(6)];
						v.push_back(op{ "turn", { r(2), r(2) ? q[0] : -q[0], r(2) ? q[1] : -q[1], r(2) ? q[2] : -q[2], r.range(-1, 1), r.range(-1, 1), r.range(-1, 1) } });
						break;
					}
					case 3:
						if (p[0] == BOX)
						{
							std::vector<long> a{ r(2) };
							for (int i = 0; i < 12; i++)
								a.push_back(r.range(-1, 1));
							v.push_back(op{ "map", a });
							v.push_back(op{ "size" });
							set(1, BOX);
						}
						break;
					case 4:
						if (p[0] == BOX)
							v.push_back(op{ "add" });
						break;
					case 5: v.push_back(op{ "swap" }); break;
					case 6:
						v.push_back(op{ r(2) ? "copy" : "same" });
						v.push_back(op{ "same" });
						break;
					case 7:
						if (p[0] == SEG)
							v.push_back(r(2) ? op{ "rev", { r(2) } } : op{ "ext", { r(2), r.range(-2, 2) } });
						break;
					case 8: v.push_back(op{ "odd", { r(15), r(3) } }); break;
					case 9: v.push_back(op{ "size" }); break;
					case 10:
						v.push_back(op{ "corner" });
						v.push_back(op{ "box" });
						break;
					case 11:
					case 12:
						if (p[0] <= TRI && p[1] <= TRI)
							v.push_back(op{ "sat", { r.range(-2, 2), r.range(-2, 2), r(2) ? 0 : r.range(-2, 2) } });
						break;
				}
				v.push_back(op{ "in" });
				v.push_back(op{ "hit" });
				if (p[1] == PT)
				{
					v.push_back(op{ "near" });
					if (p[0] == TRI)
						v.push_back(op{ "bary" });
				}
				if (p[0] == PLANE)
					v.push_back(op{ "side" });
				if (p[0] == SEG || p[0] == TRI)
					v.push_back(op{ "flat" });
			}
			if (r(3) == 0)
				v.push_back(op{ "size" });
		}
		return v;
	}
	void finish(std::vector<std::pair<op, out>>&) {}
}
SEQ_MAIN()
#endif
