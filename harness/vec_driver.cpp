// muu::vector: construction, access, arithmetic, products, lengths and the other queries.
#include "muu/core.h"
#include "muu/half.h"
#include "muu/span.h"
#include "muu/vector.h"
#include "muu/accumulator.h"
#include "seq.h"
#include <array>
#include <cmath>
#include <memory>
using namespace muu;
using seq::op;
using seq::out;
using seq::rng;

#ifndef PART
	#define PART -1
#endif
struct base
{
	virtual ~base() = default;
	virtual void apply(const op&, out&) = 0;
};
template <typename T, size_t N>
base* create();

static constexpr long odd = 99999999;
static inline long scaled(double v, double by)
{
	v *= by;
	return v == v && v > -2e9 && v < 2e9 ? std::lround(v) : odd;
}
template <typename T>
static long whole(T v)
{
	if constexpr (std::is_integral_v<T>)
		return (long)v;
	else
	{
		double d = (double)static_cast<float>(v);
		if constexpr (std::is_same_v<T, double>)
			d = v;
		return d == std::floor(d) && std::abs(d) < 2e9 ? (long)d : odd;
	}
}
template <typename T>
static double real(T v)
{
	if constexpr (std::is_same_v<T, half>)
		return (double)static_cast<float>(v);
	else
		return (double)v;
}

template <typename T, size_t N>
struct tester final : base
{
	using V = vector<T, N>;
	static constexpr bool is_float = !std::is_integral_v<T>;
	static constexpr bool is_unsig = std::is_unsigned_v<T>;
	struct guarded
	{
		T before[4]{};
		V v{ T{} };
		T after[4]{};
	};
	guarded g[3]; // 1, 2
	unsigned turn = 0;

	static void ints(out& w, const V& v)
	{
		for (size_t i = 0; i < N; i++)
			w.push_back(whole(v[i]));
	}
	template <typename W>
	static void each(out& w, const W& v)
	{
		for (auto& x : v)
			w.push_back(whole(x));
	}
	template <typename W>
	static void eachq(out& w, const W& v, double by)
	{
		for (auto& x : v)
			w.push_back(scaled(real(x), by));
	}
	template <size_t... I>
	static void gets(out& w, const V& v, std::index_sequence<I...>)
	{
		(w.push_back(whole(v.template get<I>())), ...);
	}
	void dump(out& w)
	{
		for (int r = 1; r <= 2; r++)
		{
			const V& v = g[r].v;
			switch (turn++ % 6)
			{
				case 0: ints(w, v); break;
				case 1: gets(w, v, std::make_index_sequence<N>{}); break;
				case 2: each(w, v); break;
				case 3:
					for (size_t i = 0; i < N; i++)
						w.push_back(whole(v.data()[i]));
					break;
				case 4:
				{
					T raw[N]; // the layout is that of an array
					static_assert(sizeof raw == sizeof v);
					memcpy(raw, &v, sizeof raw);
					for (auto& x : raw)
						w.push_back(whole(x));
					break;
				}
				default:
					if constexpr (N == 1)
						w.push_back(whole(v.x));
					else if constexpr (N == 2)
						w.push_back(whole(v.x)), w.push_back(whole(v.y));
					else if constexpr (N == 3)
						w.push_back(whole(v.x)), w.push_back(whole(v.y)), w.push_back(whole(v.z));
					else if constexpr (N == 4)
						w.push_back(whole(v.x)), w.push_back(whole(v.y)), w.push_back(whole(v.z)), w.push_back(whole(v.w));
					else
						for (auto it = v.cbegin(); it != v.cend(); ++it)
							w.push_back(whole(*it));
			}
			for (auto& x : g[r].before)
				if (whole(x) != 0)
					w.back() = odd;
			for (auto& x : g[r].after)
				if (whole(x) != 0)
					w.back() = odd;
		}
	}

	// construction from M scalars
	template <size_t M>
	V make(long how, const long* a)
	{
		std::array<T, M> arr{};
		T raw[M]{};
		double wide[M]{};
		std::array<float, M> other{};
		for (size_t i = 0; i < M; i++)
		{
			long b	 = std::is_same_v<T, unsigned char> ? (a[i] & 255) : a[i];
			arr[i]	 = raw[i] = static_cast<T>((float)b);
			wide[i]	 = (double)b;
			other[i] = (float)b;
		}
		switch (how)
		{
			case 0: return scalars<M>(raw, std::make_index_sequence<M>{});
			case 1: return V{ arr };
			case 2: return V{ raw };
			case 3: return V(raw, M); // pointer and count
			case 4: return V{ muu::span<T>{ raw, M } };
			case 5: return V{ muu::span<T, M>{ raw } };
			case 6:
				if constexpr (!std::is_same_v<T, float>)
					return V{ other };
				else
					return V{ wide };
			case 7: return V{ vector<float, M>{ other } };
			default:
				if constexpr (M >= 2)
				{
					vector<T, 1> head{ raw[0] };
					std::array<T, M - 1> rest{};
					for (size_t i = 1; i < M; i++)
						rest[i - 1] = raw[i];
					vector<T, M - 1> tail{ rest };
					if constexpr (M >= 3)
						if (turn % 2)
							return concat<M - 1>(vector<T, 1>{ raw[0] }, rest, std::make_index_sequence<M - 1>{});
					return V{ head, tail };
				}
				else
				{
					// from a vector of more dimensions
					std::array<float, N + 2> more{};
					more[0] = other[0];
					for (size_t i = 1; i < more.size(); i++)
						more[i] = i < N ? 0.0f : 7.0f;
					return V{ vector<float, N + 2>{ more } };
				}
		}
	}
	template <size_t M, size_t... I>
	V scalars(const T* p, std::index_sequence<I...>)
	{
		if constexpr (M == 1 && N > 1) // a single scalar is broadcast
			return V{ std::array<T, 1>{ p[0] } };
		else
			return V{ p[I]... };
	}
	template <size_t M, size_t... I>
	V concat(const vector<T, 1>& h, const std::array<T, M>& rest, std::index_sequence<I...>)
	{
		return V{ h, rest[I]... };
	}
	template <size_t M = N>
	V make_n(long m, long how, const long* a)
	{
		if constexpr (M >= 1)
			if (m == (long)M)
				return make<M>(how, a);
		if constexpr (M > 1)
			return make_n<M - 1>(m, how, a);
		return V{ T{} };
	}
	template <size_t... I>
	void put_get(V& v, size_t at, T x, std::index_sequence<I...>)
	{
		((I == at ? (void)(v.template get<I>() = x) : (void)0), ...);
	}
	template <size_t... I>
	long dot_axis(const V& v, size_t at, bool left, std::index_sequence<I...>)
	{
		long r = odd;
		((I == at ? (void)(r = whole(left ? V::dot(index_tag<I>{}, v) : turn % 2 ? v.template dot<I>(index_tag<I>{}) : V::dot(v, index_tag<I>{}))) : (void)0), ...);
		return r;
	}
	template <size_t... I>
	static vector<T, N> reversed(const V& v, std::index_sequence<I...>)
	{
		return v.template swizzle<(N - 1 - I)...>();
	}
	template <typename F>
	void division(out& w, const V& x)
	{
		if constexpr (is_float)
			eachq(w, x, 4096);
		else
			ints(w, x);
	}
	static bool no_zero(const V& v)
	{
		for (size_t i = 0; i < N; i++)
			if (whole(v[i]) == 0)
				return false;
		return true;
	}

	template <size_t... I>
	static constexpr V ascending(std::index_sequence<I...>)
	{
		return V{ static_cast<T>(I + 1)... };
	}
	template <size_t... I>
	static constexpr V descending(std::index_sequence<I...>)
	{
		return V{ static_cast<T>(N - I)... };
	}
	static constexpr std::array<T, N> elements(const V& v)
	{
		std::array<T, N> r{};
		for (size_t i = 0; i < N; i++)
			r[i] = v[i];
		return r;
	}

	void apply(const op& o, out& w) override
	{
		V& a			= g[1].v;
		V& b			= g[2].v;
		const V& ca		= a;
		const long odd1 = turn & 1;
		if (o.name == "set")
			g[o[0]].v = make_n(o[2], o[1], o.a.data() + 3);
		else if (o.name == "fill")
			g[o[0]].v = V{ static_cast<T>((float)o[1]) };
		else if (o.name == "put")
		{
			V& v	 = g[o[0]].v;
			T x		 = static_cast<T>((float)o[3]);
			size_t i = (size_t)o[2];
			switch (o[1])
			{
				case 0: v[i] = x; break;
				case 1: put_get(v, i, x, std::make_index_sequence<N>{}); break;
				case 2: *(v.begin() + (std::ptrdiff_t)i) = x; break;
				default: v.data()[i] = x;
			}
		}
		else if (o.name == "copy")
			g[o[0]].v = g[o[1]].v;
		else if (o.name == "bin")
		{
			V x		 = a;
			const V& y = o[1] == 2 ? x : b;
			V c		 = x;
			bool fine = o[0] < 3 || no_zero(y);
			if (fine)
			{
				switch (o[0])
				{
					case 0: o[1] == 1 ? c += b : o[1] == 2 ? c += c : c = x + y; break;
					case 1: o[1] == 1 ? c -= b : o[1] == 2 ? c -= c : c = x - y; break;
					case 2: o[1] == 1 ? c *= b : o[1] == 2 ? c *= c : c = x * y; break;
					case 3: o[1] == 1 ? c /= b : o[1] == 2 ? c /= c : c = x / y; break;
					default: o[1] == 1 ? c %= b : o[1] == 2 ? c %= c : c = x % y;
				}
				if (o[0] == 3)
					division<T>(w, c);
				else
					ints(w, c);
			}
		}
		else if (o.name == "sc")
		{
			T t = static_cast<T>((float)o[2]);
			V c = a;
			if (o[0] < 3 || o[2] != 0)
			{
				switch (o[0])
				{
					case 2: o[1] == 1 ? c *= t : o[1] == 2 ? c = t * a : c = a * t; break;
					case 3: o[1] == 1 ? c /= t : c = a / t; break;
					default: o[1] == 1 ? c %= t : c = a % t;
				}
				if (o[0] == 3)
					division<T>(w, c);
				else
					ints(w, c);
			}
		}
		else if (o.name == "own")
		{
			V c			= a;
			const auto i = (size_t)o[1] % N;
			if (o[0] == 2 || whole(c[i]) != 0)
			{
				o[0] == 2 ? c *= c[i] : o[0] == 3 ? c /= c[i] : c %= c[i];
				if (o[0] == 3)
					division<T>(w, c);
				else
					ints(w, c);
			}
		}
		else if (o.name == "shift")
		{
			if constexpr (!is_float)
			{
				V c = a;
				if (o[0] == 0)
					o[1] ? c <<= (int)o[2] : c = a << (int)o[2];
				else
					o[1] ? c >>= (int)o[2] : c = a >> (int)o[2];
				ints(w, c);
			}
		}
		else if (o.name == "neg")
		{
			if constexpr (!is_unsig)
				ints(w, +(-a));
		}
		else if (o.name == "abs")
			ints(w, odd1 ? V::abs(a) : odd1 + 2 == (long)(turn % 3) ? muu::abs(a) : ca.abs());
		else if (o.name == "sum")
			w.push_back(whole(odd1 ? V::sum(a) : ca.sum()));
		else if (o.name == "product")
			w.push_back(whole(odd1 ? V::product(a) : ca.product()));
		else if (o.name == "dot")
			w.push_back(whole(o[1] == 2 ? a.dot(a) : odd1 ? V::dot(a, b) : turn % 4 ? ca.dot(b) : muu::dot(a, b)));
		else if (o.name == "dota")
		{
			w.push_back(dot_axis(a, (size_t)o[0], false, std::make_index_sequence<N>{}));
			w.push_back(dot_axis(a, (size_t)o[0], true, std::make_index_sequence<N>{}));
		}
		else if (o.name == "cross")
		{
			if constexpr (N == 3 && !is_unsig)
				each(w, o[1] == 2 ? a.cross(a) : odd1 ? V::cross(a, b) : turn % 4 ? ca.cross(b) : muu::cross(a, b));
		}
		else if (o.name == "crossa")
		{
			if constexpr (N == 3 && !is_unsig)
			{
				switch (o[0])
				{
					case 0: each(w, odd1 ? V::cross(a, index_tag<0>{}) : a.cross(index_tag<0>{})), each(w, V::cross(index_tag<0>{}, a)); break;
					case 1: each(w, odd1 ? V::cross(a, index_tag<1>{}) : a.cross(index_tag<1>{})), each(w, V::cross(index_tag<1>{}, a)); break;
					default: each(w, odd1 ? V::cross(a, index_tag<2>{}) : a.cross(index_tag<2>{})), each(w, V::cross(index_tag<2>{}, a));
				}
			}
		}
		else if (o.name == "orth")
		{
			if constexpr (N == 3 && !is_unsig)
				each(w, odd1 ? V::orthogonal(a) : ca.orthogonal());
		}
		else if (o.name == "lensq")
			w.push_back(whole(odd1 ? V::length_squared(a) : turn % 4 ? ca.length_squared() : muu::length_squared(a)));
		else if (o.name == "len")
			w.push_back(scaled(real(odd1 ? V::length(a) : turn % 4 ? ca.length() : muu::length(a)), 64));
		else if (o.name == "dissq")
			w.push_back(whole(odd1 ? V::distance_squared(a, b) : turn % 4 ? ca.distance_squared(b) : muu::distance_squared(a, b)));
		else if (o.name == "dist")
			w.push_back(scaled(real(odd1 ? V::distance(a, b) : turn % 4 ? ca.distance(b) : muu::distance(a, b)), 64));
		else if (o.name == "norm")
		{
			if constexpr (is_float && N > 1)
			{
				typename V::delta_scalar_type len{};
				V x	 = a, z = a;
				V y	 = odd1 ? V::normalize(a, len) : x.normalize(len);
				z.normalize();
				V u	 = V::normalize(a), q = V::normalize_lensq(a, a.length_squared());
				V p	 = a;
				p.normalize_lensq(a.length_squared());
				if (!V::zero(a))
					for (size_t i = 0; i < N; i++)
						if (std::abs(real(z[i]) - real(y[i])) > 0.004 || std::abs(real(u[i]) - real(y[i])) > 0.004 || std::abs(real(q[i]) - real(y[i])) > 0.004
							|| std::abs(real(p[i]) - real(y[i])) > 0.004)
							y[i] = static_cast<T>(9.0f);
				eachq(w, y, 256);
				w.push_back(scaled(real(len), 64));
			}
		}
		else if (o.name == "dirto")
		{
			if constexpr (N == 2 || N == 3)
			{
				typename V::delta_scalar_type len{};
				auto d = odd1 ? V::direction(a, b, len) : ca.direction(b, len);
				auto e = odd1 ? V::direction(a, b) : ca.direction(b);
				if (a != b)
					for (size_t i = 0; i < N; i++)
						if (std::abs(real(d[i]) - real(e[i])) > 0.004)
							d = decltype(d){ typename V::delta_scalar_type(9.0f) };
				eachq(w, d, 256);
				w.push_back(scaled(real(len), 64));
			}
		}
		else if (o.name == "normed")
			w.push_back(odd1 ? V::normalized(a) : ca.normalized());
		else if (o.name == "angle")
		{
			if constexpr (N == 2 || N == 3)
				w.push_back(scaled(real(odd1 ? V::angle(a, b) : turn % 4 ? ca.angle(b) : muu::angle(a, b)), 1000));
		}
		else if (o.name == "min" || o.name == "max")
		{
			V c{ static_cast<T>((float)o[0]) };
			V three[] = { a, b, c };
			if (o.name == "min")
			{
				ints(w, odd1 ? V::min(a, b) : turn % 4 ? V::min({ a, b }) : muu::min(a, b));
				ints(w, odd1 ? V::min(a, b, c) : turn % 4 ? V::min(three, three + 3) : V::min({ a, b, c }));
			}
			else
			{
				ints(w, odd1 ? V::max(a, b) : turn % 4 ? V::max({ a, b }) : muu::max(a, b));
				ints(w, odd1 ? V::max(a, b, c) : turn % 4 ? V::max(three, three + 3) : V::max({ a, b, c }));
			}
		}
		else if (o.name == "clamp")
		{
			V lo{ static_cast<T>((float)o[0]) }, hi{ static_cast<T>((float)o[1]) }, c = a;
			ints(w, odd1 ? V::clamp(a, lo, hi) : turn % 4 ? c.clamp(lo, hi) : muu::clamp(a, lo, hi));
		}
		else if (o.name == "lerp")
		{
			using D = typename V::delta_scalar_type;
			D t		= static_cast<D>((float)o[0] / 4);
			V c		= a;
			V r		= odd1 ? V::lerp(a, b, t) : turn % 4 ? c.lerp(b, t) : muu::lerp(a, b, t);
			division<T>(w, r);
		}
		else if (o.name == "round")
		{
			if constexpr (is_float)
			{
				V h = a / static_cast<T>(2.0f);
				ints(w, odd1 ? V::ceil(h) : turn % 4 ? static_cast<const V&>(h).ceil() : muu::ceil(h));
				ints(w, odd1 ? V::floor(h) : turn % 4 ? static_cast<const V&>(h).floor() : muu::floor(h));
			}
		}
		else if (o.name == "cmp")
		{
			using O = std::conditional_t<std::is_same_v<T, double>, int, double>;
			vector<O, N> y{ b };
			w.push_back(a == b);
			w.push_back(a != b);
			w.push_back(odd1 ? a == y : y == a);
			w.push_back(odd1 ? a != y : y != a);
			if constexpr (is_float)
				w.push_back(odd1 ? V::approx_equal(a, b) : turn % 4 ? ca.approx_equal(b) : ca.approx_equal(y));
			else
				w.push_back(y.approx_equal(vector<double, N>{ a }));
			w.push_back(odd1 ? V::zero(a) : ca.zero());
			if constexpr (is_float)
				w.push_back(odd1 ? V::approx_zero(a) : ca.approx_zero());
			else
				w.push_back(vector<double, N>{ a }.approx_zero());
			w.push_back(odd1 ? V::infinity_or_nan(a) : ca.infinity_or_nan());
		}
		else if (o.name == "odd")
		{
			if constexpr (is_float)
			{
				V c		   = a;
				c[(size_t)o[0]] = o[1] == 0 ? muu::constants<T>::nan : o[1] == 1 ? muu::constants<T>::infinity : muu::constants<T>::negative_infinity;
				const V& d = c;
				w		   = { odd1 ? V::infinity_or_nan(c) : turn % 4 ? d.infinity_or_nan() : muu::infinity_or_nan(c), c == d, d.zero(), d.approx_zero(), d.approx_equal(a) };
			}
		}
		else if (o.name == "const")
		{
			// the same at compile time
			static constexpr V x = ascending(std::make_index_sequence<N>{}), y = descending(std::make_index_sequence<N>{});
			static constexpr auto el  = elements(x);
			static constexpr V z	  = (x + y) * static_cast<T>(2);
			static constexpr auto sum = x.sum();
			static constexpr auto dot = V::dot(x, y);
			static constexpr auto lsq = x.length_squared();
			static constexpr auto mx  = V::max(x, y);
			each(w, el);
			ints(w, z);
			ints(w, mx);
			w.push_back(whole(sum));
			w.push_back(whole(dot));
			w.push_back(whole(lsq));
			static constexpr auto len = x.length();
			w.push_back(scaled(real(len), 64));
		}
		else if (o.name == "swz")
		{
			ints(w, reversed(a, std::make_index_sequence<N>{}));
			each(w, a.template swizzle<N - 1, 0, N - 1>());
			if constexpr (N >= 2)
				each(w, a.xy()), each(w, a.yx());
			if constexpr (N >= 3)
				each(w, a.xz()), each(w, a.xyz()), each(w, a.xyz1()), each(w, a.xyz0());
		}
		else if (o.name == "acc")
		{
			accumulator<V> x, y;
			x.add(a);
			y.add(b);
			y.add(a);
			x.add(y);
			ints(w, x.min());
			ints(w, x.max());
			each(w, x.sum());
		}
		turn = turn * 5 + 1;
		turn ^= turn >> 7;
		dump(w);
	}
};
#define KIND(T)                                                                                                                            \
	template <>                                                                                                                            \
	base* create<T, 1>() { return new tester<T, 1>; }                                                                                        \
	template <>                                                                                                                            \
	base* create<T, 2>() { return new tester<T, 2>; }                                                                                        \
	template <>                                                                                                                            \
	base* create<T, 3>() { return new tester<T, 3>; }                                                                                        \
	template <>                                                                                                                            \
	base* create<T, 4>() { return new tester<T, 4>; }                                                                                        \
	template <>                                                                                                                            \
	base* create<T, 5>() { return new tester<T, 5>; }
#if PART == -1 || PART == 0
KIND(int)
#endif
#if PART == -1 || PART == 1
KIND(short)
#endif
#if PART == -1 || PART == 2
KIND(unsigned char)
#endif
#if PART == -1 || PART == 3
KIND(float)
#endif
#if PART == -1 || PART == 4
KIND(double)
#endif
#if PART == -1 || PART == 5
KIND(half)
#endif

#if PART <= 0
	#define USE(T)                                                                                                                         \
		template <>                                                                                                                        \
		base* create<T, 1>();                                                                                                              \
		template <>                                                                                                                        \
		base* create<T, 2>();                                                                                                              \
		template <>                                                                                                                        \
		base* create<T, 3>();                                                                                                              \
		template <>                                                                                                                        \
		base* create<T, 4>();                                                                                                              \
		template <>                                                                                                                        \
		base* create<T, 5>();
USE(int) USE(short) USE(unsigned char) USE(float) USE(double) USE(half)
static std::unique_ptr<base> cur;
template <typename T>
static base* any(long n)
{
	switch (n)
	{
		case 1: return create<T, 1>();
		case 2: return create<T, 2>();
		case 3: return create<T, 3>();
		case 4: return create<T, 4>();
		default: return create<T, 5>();
	}
}
static base* any(long k, long n)
{
	switch (k)
	{
		case 0: return any<int>(n);
		case 1: return any<short>(n);
		case 2: return any<unsigned char>(n);
		case 3: return any<float>(n);
		case 4: return any<double>(n);
		default: return any<half>(n);
	}
}
void seq::reset() { cur.reset(any(0, 3)); }
void seq::apply(const op& o, out& w)
{
	if (o.name == "kind")
		cur.reset(any(o[0], o[1]));
	cur->apply(o, w);
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> q;
	long k = r(6), n = 1 + r(5);
	q.push_back({ "kind", { k, n } });
	long lo = k == 2 ? 0 : -30, hi = 30;
	if (r(3) == 0)
		lo = k == 2 ? 0 : -3, hi = 3;
	auto val = [&]() { return r.range(lo, hi); };
	auto set = [&](long reg) {
		long m = r(4) ? n : 1 + r(n);
		op o("set", { reg, r(9), m });
		for (long i = 0; i < m; i++)
			o.a.push_back(k == 2 && i == 0 && r(4) == 0 ? r.range(200, 255) : val());
		q.push_back(o);
	};
	set(1);
	set(2);
	static const char* const simple[] = { "neg", "abs", "sum", "product", "orth", "lensq", "len", "dissq", "dist", "norm", "dirto", "normed", "angle", "round", "cmp",
										  "swz", "acc", "normed" };
	for (long i = r.range(4, 16); i > 0; i--)
		switch (r(15))
		{
			case 14: q.push_back(r(3) ? op("odd", { r(n), r(3) }) : op("const", {})); break;
			case 0: set(1 + r(2)); break;
			case 1: q.push_back({ "put", { 1 + r(2), r(4), r(n), val() } }); break;
			case 2: q.push_back(r(2) ? op("copy", { 1 + r(2), 1 + r(2) }) : op("fill", { 1 + r(2), val() })); break;
			case 3:
			case 4: q.push_back({ "bin", { r(5), r(3) } }); break;
			case 5: r(3) ? q.push_back({ "sc", { r.range(2, 4), r(3), val() } }) : q.push_back({ "own", { r.range(2, 4), r(5) } }); break;
			case 6: q.push_back({ "shift", { r(2), r(2), r(5) } }); break;
			case 7:
			{
				long a = val(), b = val();
				q.push_back(r(2) ? op("clamp", { std::min(a, b), std::max(a, b) }) : op(r(2) ? "min" : "max", { a }));
				break;
			}
			case 8: q.push_back(r(2) ? op("dot", { 0, r(2) * 2 }) : op("dota", { r(n) })); break;
			case 9: q.push_back(r(2) ? op("cross", { 0, r(2) * 2 }) : op("crossa", { r(3) })); break;
			case 10: q.push_back({ "lerp", { r(5) } }); break;
			default: q.push_back({ simple[r(18)], {} });
		}
	return q;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
#endif
