// muu::matrix: construction, access, arithmetic, inversion and the transformations.
#include "muu/core.h"
#include "muu/half.h"
#include "muu/vector.h"
#include "muu/quaternion.h"
#include "muu/matrix.h"
#include "seq.h"
#include <array>
#include <cmath>
#include <memory>
using namespace muu;
using seq::op;
using seq::out;
using seq::rng;

#ifndef PART
	#define PART -1
#endif
struct base
{
	virtual ~base() = default;
	virtual void apply(const op&, out&) = 0;
};
template <typename T, size_t R, size_t C>
base* create();

static constexpr long odd = 99999999;
static inline long scaled(double v, double by)
{
	v *= by;
	return v == v && v > -2e9 && v < 2e9 ? std::lround(v) : odd;
}
template <typename T>
static double real(T v)
{
	if constexpr (std::is_same_v<T, half>)
		return (double)static_cast<float>(v);
	else
		return (double)v;
}
template <typename T>
static long whole(T v)
{
	if constexpr (std::is_integral_v<T>)
		return (long)v;
	else
	{
		const double d = real(v);
		return d == std::floor(d) && std::abs(d) < 2e9 ? (long)d : odd;
	}
}
template <typename M>
static void ints(out& w, const M& m)
{
	for (size_t r = 0; r < M::rows; r++)
		for (size_t c = 0; c < M::columns; c++)
			w.push_back(whole(m(r, c)));
}
template <typename M>
static void quots(out& w, const M& m, double by)
{
	for (size_t r = 0; r < M::rows; r++)
		for (size_t c = 0; c < M::columns; c++)
			w.push_back(scaled(real(m(r, c)), by));
}
template <typename V>
static void intv(out& w, const V& v)
{
	for (auto& x : v)
		w.push_back(whole(x));
}

template <typename T, size_t R, size_t C>
struct tester final : base
{
	using M = matrix<T, R, C>;
	static constexpr bool is_float = !std::is_integral_v<T>;
	static constexpr bool is_unsig = std::is_unsigned_v<T>;
	static constexpr bool square   = R == C && R <= 4;
	static constexpr bool scale2   = R >= 2 && C >= 2 && R <= C && R + 1 >= C && C <= 4;
	static constexpr bool three	   = R >= 3 && C >= 3 && R <= 4 && C <= 4 && R <= C;
	static constexpr bool xlat2	   = scale2 && !(R == 2 && C == 2);
	static constexpr bool xlat3	   = three && C == 4;
	static constexpr bool rot2	   = is_float && scale2 && C <= 3;
	static constexpr bool rot3	   = is_float && three;
	struct guarded
	{
		T before[4]{};
		M v{ T{} };
		T after[4]{};
	};
	guarded g[3]; // 1, 2
	unsigned turn = 0;

	static constexpr T val(long x) { return static_cast<T>((float)x); }
	template <size_t... I>
	static void gets(out& w, const M& m, std::index_sequence<I...>)
	{
		(w.push_back(whole(m.template get<I / C, I % C>())), ...);
	}
	template <size_t... I>
	static void columns(out& w, const M& m, std::index_sequence<I...>)
	{
		w.resize(w.size() + R * C);
		long* p = &w.back() - (R * C - 1);
		auto fill = [&](size_t c, const vector<T, R>& v)
		{
			for (size_t r = 0; r < R; r++)
				p[r * C + c] = whole(v[r]);
		};
		(fill(I, m.template column<I>()), ...);
	}
	void dump(out& w)
	{
		for (int i = 1; i <= 2; i++)
		{
			const M& m = g[i].v;
			switch (turn++ % 5)
			{
				case 0: ints(w, m); break;
				case 1: gets(w, m, std::make_index_sequence<R * C>{}); break;
				case 2: columns(w, m, std::make_index_sequence<C>{}); break;
				case 3: // columns are contiguous
					for (size_t r = 0; r < R; r++)
						for (size_t c = 0; c < C; c++)
							w.push_back(whole(m.data()[c * R + r]));
					break;
				default:
				{
					T raw[R * C];
					static_assert(sizeof raw == sizeof m);
					memcpy(raw, &m, sizeof raw);
					for (size_t r = 0; r < R; r++)
						for (size_t c = 0; c < C; c++)
							w.push_back(whole(raw[c * R + r]));
				}
			}
			for (auto& x : g[i].before)
				if (whole(x) != 0)
					w.back() = odd;
			for (auto& x : g[i].after)
				if (whole(x) != 0)
					w.back() = odd;
		}
	}

	template <size_t... I>
	static M scalars(const T* p, std::index_sequence<I...>)
	{
		return M{ p[I]... };
	}
	template <size_t N>
	static M scalars_n(const T* p, size_t n)
	{
		if constexpr (N >= 2)
		{
			if (n == N)
				return scalars(p, std::make_index_sequence<N>{});
			return scalars_n<N - 1>(p, n);
		}
		else
			return M{ p[0] };
	}
	template <size_t... I>
	static M by_columns(const std::array<vector<T, R>, C>& v, std::index_sequence<I...>)
	{
		return M{ v[I]... };
	}
	template <size_t... I>
	static M by_float_columns(const std::array<vector<float, R + 1>, C>& v, std::index_sequence<I...>)
	{
		return M{ v[I]... };
	}
	template <size_t... I>
	void put_get(M& m, size_t at, T x, std::index_sequence<I...>)
	{
		((I == at ? (void)(m.template get<I / C, I % C>() = x) : (void)0), ...);
	}
	template <size_t... I>
	void put_column(M& m, size_t r, size_t c, T x, std::index_sequence<I...>)
	{
		((I == c ? (void)(m.template column<I>()[r] = x) : (void)0), ...);
	}
	M make(long how, const long* a, size_t n)
	{
		T raw[R * C]{};
		for (size_t i = 0; i < n; i++)
			raw[i] = val(is_unsig ? a[i] & 255 : a[i]);
		if (n < R * C)
			return scalars_n<R * C>(raw, n);
		switch (how)
		{
			case 1: // columns
				if constexpr (C >= 2)
				{
					std::array<vector<T, R>, C> v;
					for (size_t c = 0; c < C; c++)
						for (size_t r = 0; r < R; r++)
							v[c][r] = raw[r * C + c];
					return by_columns(v, std::make_index_sequence<C>{});
				}
				break;
			case 2: // columns of another type and length
				if constexpr (C >= 2)
				{
					std::array<vector<float, R + 1>, C> v;
					for (size_t c = 0; c < C; c++)
						for (size_t r = 0; r <= R; r++)
							v[c][r] = r == R ? 77.0f : (float)real(raw[r * C + c]);
					return by_float_columns(v, std::make_index_sequence<C>{});
				}
				break;
			case 3: // another, larger matrix
			{
				matrix<double, R + 1, C + 1> m{ 55.0 };
				for (size_t c = 0; c < C; c++)
					for (size_t r = 0; r < R; r++)
						m(r, c) = real(raw[r * C + c]);
				return M{ m };
			}
			case 4: // element by element
			{
				M m{ T{} };
				for (size_t i = 0; i < R * C; i++)
					put_get(m, i, raw[i], std::make_index_sequence<R * C>{});
				return m;
			}
			case 5: // the storage
			{
				M m;
				for (size_t i = 0; i < R * C; i++)
					m.data()[(i % C) * R + i / C] = raw[i];
				return m;
			}
			default: break;
		}
		return scalars_n<R * C>(raw, n);
	}
	template <size_t P, size_t Q>
	static matrix<T, P, Q> other(const op& o, size_t from)
	{
		matrix<T, P, Q> m{ T{} };
		for (size_t r = 0; r < P; r++)
			for (size_t c = 0; c < Q; c++)
				m(r, c) = val(o[from + r * Q + c]);
		return m;
	}
	template <size_t N>
	static vector<T, N> vec(const op& o, size_t from = 0)
	{
		vector<T, N> v{ T{} };
		for (size_t i = 0; i < N; i++)
			v[i] = val(o[from + i]);
		return v;
	}
	template <size_t... I>
	static constexpr M ascending(std::index_sequence<I...>)
	{
		if constexpr (R * C >= 2)
			return M{ val((long)(I / C + I % C + 1))... };
		else
			return M{ val(1) };
	}
	template <typename X>
	void rotated(out& w, const X& x)
	{
		if constexpr (rot2)
			ints(w, turn % 2 ? M::from_2d_rotation(x) : direct2(x));
	}
	template <typename X>
	static M direct2(const X& x)
	{
		if constexpr (X::rows == 2 && !(R == 3 && C == 3))
			return M::from_rotation(x);
		else
			return M::from_2d_rotation(x);
	}

	void apply(const op& o, out& w) override
	{
		M& a			= g[1].v;
		M& b			= g[2].v;
		const M& ca		= a;
		const bool odd1 = turn & 1;
		if (o.name == "set")
			g[o[0]].v = make(o[1], o.a.data() + 2, o.a.size() - 2);
		else if (o.name == "fill")
			g[o[0]].v = M{ val(o[1]) };
		else if (o.name == "put")
		{
			M& m	   = g[o[0]].v;
			size_t r = (size_t)o[2], c = (size_t)o[3];
			T x = val(o[4]);
			switch (o[1])
			{
				case 0: m(r, c) = x; break;
				case 1: put_get(m, r * C + c, x, std::make_index_sequence<R * C>{}); break;
				case 2: put_column(m, r, c, x, std::make_index_sequence<C>{}); break;
				default: m.data()[c * R + r] = x;
			}
		}
		else if (o.name == "copy")
			g[o[0]].v = g[o[1]].v;
		else if (o.name == "add")
		{
			M x = a, y = b;
			if (o[0] == 0)
				o[1] == 1 ? x += y : o[1] == 2 ? x += x : x = a + y;
			else
				o[1] == 1 ? x -= y : o[1] == 2 ? x -= x : x = a - y;
			ints(w, x);
		}
		else if (o.name == "neg")
		{
			if constexpr (!is_unsig)
				ints(w, +(-a));
		}
		else if (o.name == "sc")
		{
			M x = a;
			T t = val(o[1]);
			o[0] == 1 ? x *= t : o[0] == 2 ? x = t * a : x = a * t;
			ints(w, x);
		}
		else if (o.name == "own")
		{
			M x	   = a;
			T& t = x((size_t)o[1] % R, (size_t)o[2] % C);
			if (o[0] == 0 || whole(t) != 0)
			{
				o[0] == 0 ? x *= t : x /= t;
				if (o[0] == 1 && is_float)
					quots(w, x, 4096);
				else
					ints(w, x);
			}
		}
		else if (o.name == "div")
		{
			M x = a;
			T t = val(o[1]);
			if (o[1] != 0)
			{
				o[0] == 1 ? x /= t : x = a / t;
				if constexpr (is_float)
					quots(w, x, 4096);
				else
					ints(w, x);
			}
		}
		else if (o.name == "mul")
		{
			if constexpr (R == C)
			{
				M x = a;
				o[1] == 1 ? x *= b : o[1] == 2 ? x *= x : x = a * b;
				ints(w, x);
			}
		}
		else if (o.name == "mult")
		{
			ints(w, a * M::transpose(b));
			ints(w, muu::transpose(a) * b);
		}
		else if (o.name == "mulx")
			ints(w, a * other<C, 2>(o, 0));
		else if (o.name == "mv")
			intv(w, a * vec<C>(o));
		else if (o.name == "vm")
			intv(w, vec<R>(o) * a);
		else if (o.name == "tr")
		{
			if constexpr (R == C)
			{
				M x = a;
				ints(w, odd1 ? x.transpose() : M::transpose(a));
			}
			else
				ints(w, odd1 ? muu::transpose(a) : M::transpose(a));
		}
		else if (o.name == "det")
		{
			if constexpr (square)
				w.push_back(whole(odd1 ? a.determinant() : turn % 4 ? M::determinant(a) : muu::determinant(a)));
		}
		else if (o.name == "inv")
		{
			if constexpr (square)
			{
				if constexpr (is_float)
				{
					M x = a;
					x.invert();
					quots(w, odd1 ? x : M::invert(a), 4096);
				}
				else
					quots(w, odd1 ? muu::invert(a) : M::invert(a), 4096);
			}
		}
		else if (o.name == "cmp")
		{
			const M y = b;
			w.push_back(a == b);
			w.push_back(a != b);
			w.push_back(a == matrix<double, R, C>{ b });
			if constexpr (is_float)
				w.push_back(odd1 ? M::approx_equal(a, b) : turn % 4 ? ca.approx_equal(b) : muu::approx_equal(a, b));
			else
				w.push_back(!(a != b));
			w.push_back(odd1 ? M::zero(a) : ca.zero());
			if constexpr (is_float)
				w.push_back(odd1 ? M::approx_zero(a) : turn % 4 ? ca.approx_zero() : muu::approx_zero(a));
			else
				w.push_back(ca.zero());
			w.push_back(odd1 ? muu::infinity_or_nan(a) : ca.infinity_or_nan());
			// the answer follows a change of this matrix
			M x		   = y;
			bool before = true, after = false;
			if constexpr (is_float)
			{
				before = x.approx_equal(y);
				x(R - 1, C - 1) = x(R - 1, C - 1) + val(1);
				after  = x.approx_equal(y);
			}
			else
			{
				before = x == y;
				x(R - 1, C - 1) = static_cast<T>(x(R - 1, C - 1) + 1);
				after  = x == y;
			}
			w.push_back(before);
			w.push_back(after);
		}
		else if (o.name == "odd")
		{
			if constexpr (is_float)
			{
				M x = a;
				using K = muu::constants<T>;
				x((size_t)o[0], (size_t)o[1]) = o[2] == 0 ? K::nan : o[2] == 1 ? K::infinity : K::negative_infinity;
				w.push_back(odd1 ? muu::infinity_or_nan(x) : x.infinity_or_nan());
				w.push_back(x.zero());
				w.push_back(x.approx_equal(a));
				w.push_back(x.approx_zero());
			}
		}
		else if (o.name == "ident")
			ints(w, muu::constants<M>::identity);
		else if (o.name == "conv")
		{
			if constexpr (std::is_same_v<T, double>)
				ints(w, matrix<float, 2, 2>{ a }), ints(w, matrix<int, 3, 4>{ a }), ints(w, matrix<float, 5, 5>{ a });
			else
				ints(w, matrix<double, 2, 2>{ a }), ints(w, matrix<float, 3, 4>{ a }), ints(w, matrix<double, 5, 5>{ a });
		}
		else if (o.name == "cols")
		{
			if constexpr (C >= 2)
				intv(w, odd1 ? ca.x_column() : a.x_column()), intv(w, odd1 ? a.y_column() : ca.y_column());
			if constexpr (C >= 3)
				intv(w, odd1 ? ca.z_column() : a.z_column());
			if constexpr (C >= 4)
				intv(w, odd1 ? ca.w_column() : a.w_column());
			if constexpr (xlat2)
				intv(w, odd1 ? ca.translation_column() : a.translation_column());
		}
		else if (o.name == "const")
		{
			constexpr M x = ascending(std::make_index_sequence<R * C>{});
			constexpr auto t = M::transpose(x);
			constexpr auto p = x * t;
			ints(w, t);
			ints(w, p);
			if constexpr (square)
			{
				constexpr auto d = M::determinant(x);
				w.push_back(whole(d));
			}
		}
		else if (o.name == "scale2")
		{
			if constexpr (scale2)
			{
				T x = val(o[0]), y = val(o[1]);
				switch (turn % 5)
				{
					case 0: ints(w, M::from_2d_scale(x, y)); break;
					case 1: ints(w, M::from_2d_scale(vector<T, 2>{ x, y })); break;
					case 2: ints(w, M::from_2d_scale(vector<T, 3>{ x, y, val(9) })); break;
					case 3: ints(w, M::from_scale(x, y)); break;
					default: ints(w, M::from_scale(vector<T, 2>{ x, y }));
				}
			}
		}
		else if (o.name == "scale3")
		{
			if constexpr (three)
			{
				T x = val(o[0]), y = val(o[1]), z = val(o[2]);
				switch (turn % 5)
				{
					case 0: ints(w, M::from_3d_scale(x, y, z)); break;
					case 1: ints(w, M::from_3d_scale(vector<T, 3>{ x, y, z })); break;
					case 2: ints(w, M::from_3d_scale(vector<T, 4>{ x, y, z, val(9) })); break;
					case 3: ints(w, M::from_scale(x, y, z)); break;
					default: ints(w, M::from_scale(vector<T, 3>{ x, y, z }));
				}
			}
		}
		else if (o.name == "xlat2")
		{
			if constexpr (xlat2)
			{
				T x = val(o[0]), y = val(o[1]);
				switch (turn % 5)
				{
					case 0: ints(w, M::from_2d_translation(x, y)); break;
					case 1: ints(w, M::from_2d_translation(vector<T, 2>{ x, y })); break;
					case 2: ints(w, M::from_2d_translation(vector<T, 3>{ x, y, val(9) })); break;
					case 3: ints(w, M::from_translation(x, y)); break;
					default: ints(w, M::from_translation(vector<T, 2>{ x, y }));
				}
			}
		}
		else if (o.name == "xlat3")
		{
			if constexpr (xlat3)
			{
				T x = val(o[0]), y = val(o[1]), z = val(o[2]);
				switch (turn % 5)
				{
					case 0: ints(w, M::from_3d_translation(x, y, z)); break;
					case 1: ints(w, M::from_3d_translation(vector<T, 3>{ x, y, z })); break;
					case 2: ints(w, M::from_3d_translation(vector<T, 4>{ x, y, z, val(9) })); break;
					case 3: ints(w, M::from_translation(x, y, z)); break;
					default: ints(w, M::from_translation(vector<T, 3>{ x, y, z }));
				}
			}
		}
		else if (o.name == "axes2")
		{
			if constexpr (rot2)
				ints(w, M::from_axes(vec<2>(o, 0), vec<2>(o, 2)));
		}
		else if (o.name == "axes3")
		{
			if constexpr (rot3)
				ints(w, M::from_axes(vec<3>(o, 0), vec<3>(o, 3), vec<3>(o, 6)));
		}
		else if (o.name == "rot2")
		{
			if constexpr (rot2)
				switch (o[0])
				{
					case 0: rotated(w, other<2, 2>(o, 1)); break;
					case 1: rotated(w, other<2, 3>(o, 1)); break;
					default: rotated(w, other<3, 3>(o, 1));
				}
		}
		else if (o.name == "rot3")
		{
			if constexpr (rot3)
				switch (o[0])
				{
					case 0: ints(w, odd1 ? M::from_3d_rotation(other<3, 3>(o, 1)) : M::from_rotation(other<3, 3>(o, 1))); break;
					case 1: ints(w, odd1 ? M::from_3d_rotation(other<3, 4>(o, 1)) : M::from_rotation(other<3, 4>(o, 1))); break;
					default: ints(w, odd1 ? M::from_3d_rotation(other<4, 4>(o, 1)) : M::from_rotation(other<4, 4>(o, 1)));
				}
		}
		else if (o.name == "quat")
		{
			if constexpr (rot3)
				ints(w, M::from_quaternion(quaternion<T>{ val(o[0]), val(o[1]), val(o[2]), val(o[3]) }));
		}
		else if (o.name == "turn")
		{
			if constexpr (rot3)
			{
				vector<T, 3> axis{ T{} };
				axis[(size_t)o[0]] = val(1);
				const T angle	   = static_cast<T>((float)(o[1] * 1.5707963267948966));
				quots(w, odd1 ? M::from_axis_angle(axis, angle) : M::from_axis_angle(axis_angle<T>{ axis, angle }), 256);
			}
		}
		else if (o.name == "euler")
		{
			if constexpr (rot3)
			{
				T x[3];
				for (int i = 0; i < 3; i++)
					x[i] = static_cast<T>((float)(o[(size_t)i] * 1.5707963267948966));
				quots(w, odd1 ? M::from_euler(x[0], x[1], x[2]) : M::from_euler(euler_angles<T>{ x[0], x[1], x[2] }), 256);
			}
		}
		else if (o.name == "dir")
		{
			if constexpr (rot3)
				if (o[0] || o[1] || o[2])
					quots(w, M::from_3d_direction(vector<T, 3>::normalize(vec<3>(o))), 1024);
		}
		else if (o.name == "tpos")
		{
			if constexpr (rot3)
			{
				vector<T, 3> r{ T{} };
				if constexpr (C == 4)
					r = odd1 ? a * vec<3>(o) : ca.transform_position(vec<3>(o));
				else
					r = odd1 ? M::transform_position(a, vec<3>(o)) : ca.transform_position(vec<3>(o));
				for (auto& x : r)
					w.push_back(scaled(real(x), 4096));
			}
		}
		else if (o.name == "tdir")
		{
			if constexpr (rot3)
			{
				intv(w, odd1 ? M::transform_without_translating(a, vec<3>(o)) : ca.transform_without_translating(vec<3>(o)));
				for (auto& x : odd1 ? M::transform_direction(a, vec<3>(o)) : ca.transform_direction(vec<3>(o)))
					w.push_back(scaled(real(x), 64));
			}
		}
		else if (o.name == "size")
		{
			if constexpr (rot2)
			{
				const auto v = odd1 ? M::extract_2d_scale(a) : ca.extract_2d_scale();
				for (auto& x : v)
					w.push_back(scaled(real(x), 64));
			}
			if constexpr (rot3)
			{
				const auto v = odd1 ? M::extract_3d_scale(a) : ca.extract_3d_scale();
				for (auto& x : v)
					w.push_back(scaled(real(x), 64));
			}
		}
		else if (o.name == "shear")
		{
			if constexpr (rot2)
				w.push_back(ca.has_2d_shear());
			if constexpr (rot3)
				w.push_back(ca.has_3d_shear());
		}
		else if (o.name == "ortho")
		{
			if constexpr (rot3)
			{
				M x = a;
				x.orthonormalize();
				const M y = odd1 ? x : turn % 4 ? M::orthonormalize(a) : muu::orthonormalize(a);
				quots(w, y, 1024);
				w.push_back(odd1 ? M::orthonormalized(a) : ca.orthonormalized());
				w.push_back(x.orthonormalized());
			}
		}
		else if (o.name == "persp")
		{
			if constexpr (is_float && R == 4 && C == 4)
			{
				const T fov = static_cast<T>(1.57079632679f), z0 = val(o[3]), z1 = val(o[4]);
				const vector<T, 2> screen{ val(o[2] * 3), val(3) };
				switch (o[0])
				{
					case 0: persp<math_apis::directx | math_apis::right_handed>(w, o, fov, screen, z0, z1); break;
					case 1: persp<math_apis::opengl | math_apis::right_handed>(w, o, fov, screen, z0, z1); break;
					case 2: persp<math_apis::directx | math_apis::left_handed>(w, o, fov, screen, z0, z1); break;
					default: persp<math_apis::opengl | math_apis::left_handed>(w, o, fov, screen, z0, z1);
				}
			}
		}
		turn = turn * 5 + 1;
		turn ^= turn >> 7;
		dump(w);
	}
	template <math_apis Mode>
	static void persp(out& w, const op& o, T fov, const vector<T, 2>& screen, T z0, T z1)
	{
		quots(w, o[1] ? M::template perspective_projection<Mode>(fov, screen, z0, z1) : M::template perspective_projection<Mode>(fov, val(o[2]), z0, z1), 4096);
	}
};
#define SHAPES(X, T)                                                                                                                       \
	X(T, 1, 1)                                                                                                                             \
	X(T, 2, 2)                                                                                                                             \
	X(T, 2, 3)                                                                                                                             \
	X(T, 3, 3)                                                                                                                             \
	X(T, 3, 4)                                                                                                                             \
	X(T, 4, 4)                                                                                                                             \
	X(T, 4, 2)                                                                                                                             \
	X(T, 3, 2)                                                                                                                             \
	X(T, 1, 3)                                                                                                                             \
	X(T, 5, 5)
#define MAKE(T, R, C)                                                                                                                      \
	template <>                                                                                                                            \
	base* create<T, R, C>() { return new tester<T, R, C>; }
#if PART == -1 || PART == 0
SHAPES(MAKE, int)
#endif
#if PART == -1 || PART == 1
SHAPES(MAKE, short)
#endif
#if PART == -1 || PART == 2
SHAPES(MAKE, unsigned char)
#endif
#if PART == -1 || PART == 3
SHAPES(MAKE, float)
#endif
#if PART == -1 || PART == 4
SHAPES(MAKE, double)
#endif
#if PART == -1 || PART == 5
SHAPES(MAKE, half)
#endif

#if PART <= 0
	#define USE(T, R, C)                                                                                                                   \
		template <>                                                                                                                        \
		base* create<T, R, C>();
SHAPES(USE, int) SHAPES(USE, short) SHAPES(USE, unsigned char) SHAPES(USE, float) SHAPES(USE, double) SHAPES(USE, half)
static std::unique_ptr<base> cur;
static constexpr long shapes[][2] = { { 1, 1 }, { 2, 2 }, { 2, 3 }, { 3, 3 }, { 3, 4 }, { 4, 4 }, { 4, 2 }, { 3, 2 }, { 1, 3 }, { 5, 5 } };
template <typename T>
static base* any(long n)
{
	#define PICK(T, R, C)                                                                                                                  \
		if (shapes[n - 1][0] == R && shapes[n - 1][1] == C)                                                                                \
			return create<T, R, C>();
	SHAPES(PICK, T)
	return nullptr;
}
static base* any(long k, long n)
{
	switch (k)
	{
		case 0: return any<int>(n);
		case 1: return any<short>(n);
		case 2: return any<unsigned char>(n);
		case 3: return any<float>(n);
		case 4: return any<double>(n);
		default: return any<half>(n);
	}
}
void seq::reset() { cur.reset(any(0, 2)); }
void seq::apply(const op& o, out& w)
{
	if (o.name == "kind")
		cur.reset(any(o[0], o[1]));
	cur->apply(o, w);
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> q;
	long k = r(6), n = r(3) ? 2 + r(5) : 1 + r(10), R = shapes[n - 1][0], C = shapes[n - 1][1];
	q.push_back({ "kind", { k, n } });
	long lo = k == 2 ? 0 : -9, hi = 9;
	if (r(4) == 0)
		lo = k == 2 ? 0 : -2, hi = 2;
	if (r(8) == 0)
		lo = k == 2 ? 0 : -30, hi = 30;
	auto val = [&]() { return r.range(lo, hi); };
	auto vals = [&](op o, long m) {
		for (long i = 0; i < m; i++)
			o.a.push_back(val());
		q.push_back(o);
	};
	auto set = [&](long reg) {
		long m = r(4) || R * C < 3 ? R * C : r.range(2, R * C);
		if (r(5) == 0)
		{
			// sparse: singular, triangular, orthogonal matrices
			op o("set", { reg, r(6) });
			for (long i = 0; i < R * C; i++)
				o.a.push_back(r(3) ? 0 : val());
			q.push_back(o);
		}
		else if (r(6) == 0)
		{
			op o("set", { reg, r(6) });
			long s = r(3);
			for (long i = 0; i < R * C; i++)
				o.a.push_back((i % C + s) % C == i / C ? (r(4) || k == 2 ? 1 : -1) : 0);
			q.push_back(o);
		}
		else
			vals(op("set", { reg, r(6) }), m);
	};
	set(1);
	set(2);
	static const char* const simple[] = { "neg", "mult", "tr", "det", "inv", "cmp", "ident", "conv", "cols", "const", "size", "shear", "ortho", "inv", "ortho", "det" };
	for (long i = r.range(4, 16); i > 0; i--)
		switch (r(20))
		{
			case 0: set(1 + r(2)); break;
			case 1: q.push_back({ "put", { 1 + r(2), r(4), r(R), r(C), val() } }); break;
			case 2: q.push_back(r(2) ? op("copy", { 1 + r(2), 1 + r(2) }) : op("fill", { 1 + r(2), val() })); break;
			case 3: r(3) ? q.push_back({ "add", { r(2), r(3) } }) : q.push_back({ "own", { r(2), r(5), r(5) } }); break;
			case 4: q.push_back({ "mul", { 0, r(3) } }); break;
			case 5: r(2) ? q.push_back({ "sc", { r(3), val() } }) : q.push_back({ "div", { r(2), val() } }); break;
			case 6: vals(op("mulx"), 2 * C); break;
			case 7: r(2) ? vals(op("mv"), C) : vals(op("vm"), R); break;
			case 8: q.push_back({ "odd", { r(R), r(C), r(3) } }); break;
			case 9: r(2) ? vals(op("scale2"), 2) : vals(op("scale3"), 3); break;
			case 10: r(2) ? vals(op("xlat2"), 2) : vals(op("xlat3"), 3); break;
			case 11: r(2) ? vals(op("axes2"), 4) : vals(op("axes3"), 9); break;
			case 12: r(2) ? vals(op("rot2", { r(3) }), 9) : vals(op("rot3", { r(3) }), 16); break;
			case 13: r(2) ? vals(op("quat"), 4) : q.push_back({ "turn", { r(3), r.range(-3, 4) } }); break;
			case 14: r(2) ? q.push_back({ "euler", { r(4), r(4), r(4) } }) : q.push_back({ "dir", { r.range(-9, 9), r.range(-9, 9), r.range(-9, 9) } }); break;
			case 15: vals(op(r(2) ? "tpos" : "tdir"), 3); break;
			case 16:
				if (n == 6)
				{
					long z0 = 1 + r(3);
					q.push_back({ "persp", { r(4), r(2), 1 + r(3), z0, z0 + 1 + r(4) } });
					break;
				}
				[[fallthrough]];
			default: q.push_back({ simple[r(16)], {} });
		}
	return q;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
#endif
