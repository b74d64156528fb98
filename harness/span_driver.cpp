// Driver of the Span component: span, static_array and the iterator helpers.
#include "muu/core.h"
#include "muu/span.h"
#include "muu/static_array.h"
#include "muu/iterators.h"
#include "seq.h"
#include <list>
#include <memory>
#include <span>

// a type or an extent that is not the one it has to be shows in every later view
static bool typed = true;
#define TYPED(...) typed = typed && bool(__VA_ARGS__)
using namespace muu;
using seq::op;
using seq::out;
using seq::rng;
struct trio
{
	short a[3];
};
template <typename T>
static T make(long v)
{
	if constexpr (std::is_same_v<T, trio>)
		return trio{ { (short)v, (short)(v + 1), (short)(v * 2) } };
	else
		return static_cast<T>(v);
}
template <typename T>
static long value(const T& v)
{
	if constexpr (std::is_same_v<T, trio>)
		return v.a[1] == v.a[0] + 1 && v.a[2] == v.a[0] * 2 ? v.a[0] : -99;
	else
		return (long)v;
}
namespace apart
{
	// found by argument-dependent lookup only
	template <typename T>
	struct bag
	{
		T* p;
		size_t n;
	};
	template <typename T>
	T* begin(const bag<T>& b)
	{
		return b.p;
	}
	template <typename T>
	T* end(const bag<T>& b)
	{
		return b.p + b.n;
	}
}
struct base
{
	virtual ~base()								= default;
	virtual void apply(const op& o, out& w)		= 0;
};
template <typename T>
struct machine : base
{
	static constexpr size_t N = 12;
	alignas(64) std::array<T, N> cells;
	span<T> slot[3];
	machine()
	{
		for (size_t i = 0; i < N; i++)
			cells[i] = make<T>((long)i);
	}
	long off(const void* p) const
	{
		return p ? (long)((const char*)p - (const char*)cells.data()) / (long)sizeof(T) : -1;
	}
	template <typename S>
	void view(out& w, const S& s) const
	{
		w.push_back(typed ? off(s.data()) : -77);
		w.push_back((long)s.size());
	}
	template <typename F>
	static void pick(long n, F&& f) // with the number as a type
	{
		switch (n)
		{
			case 0: f(std::integral_constant<size_t, 0>{}); break;
			case 1: f(std::integral_constant<size_t, 1>{}); break;
			case 2: f(std::integral_constant<size_t, 2>{}); break;
			case 3: f(std::integral_constant<size_t, 3>{}); break;
			case 4: f(std::integral_constant<size_t, 4>{}); break;
		}
	}
	static span<T> loose(span<T> s) { return s; }
	span<T> built(long how, long o, long n)
	{
		T* const p = cells.data() + o;
		const auto it = std::span<T>{ cells }.begin() + (how == 8 ? 0 : o);
		span<T> r;
		switch (how)
		{
			case 1: r = { p, (size_t)n }; break;
			case 2: r = { p, p + n }; break;
			case 3: r = span<T>{ it, (size_t)n }; break;
			case 4: r = span<T>{ it, it + n }; break;
			case 5: r = loose(cells); break;
			case 6: r = loose(cells._M_elems); break;
			case 7: r = loose(span<T, N>{ cells }); break;
			case 8: break;
			case 9:
				pick(n, [&](auto k) { r = loose(span<T, k()>{ p, (size_t)n }); });
				break;
			case 10: r = loose(span{ p, (size_t)n }); break;
			case 11:
			{
				auto s = span{ cells };
				TYPED(std::is_same_v<decltype(s), span<T, N>>);
				r = s;
				break;
			}
			case 12: r = loose(span{ p, p + n }); break;
			case 13:
				pick(n, [&](auto k) { r = loose(span<T, k()>{ it, it + n }); });
				break;
			case 14: r = loose(span<T, N>{ cells._M_elems }); break;
		}
		return r;
	}
	template <typename S>
	span<T> part(const S& s, long how, long a, long b)
	{
		span<T> r;
		switch (how)
		{
			case 1: r = s.first((size_t)a); break;
			case 2: r = s.last((size_t)a); break;
			case 3: r = s.subspan((size_t)a); break;
			case 4: r = s.subspan((size_t)a, (size_t)b); break;
			case 5:
				pick(a,
					 [&](auto k)
					 {
						 auto x = s.template first<k()>();
						 TYPED(decltype(x)::extent == k());
						 r = x;
					 });
				break;
			case 6:
				pick(a,
					 [&](auto k)
					 {
						 auto x = s.template last<k()>();
						 TYPED(decltype(x)::extent == k());
						 r = x;
					 });
				break;
			case 7:
				pick(a,
					 [&](auto k) { r = s.template subspan<k()>(); });
				break;
			case 8:
				pick(a,
					 [&](auto k)
					 {
						 if (b == 0)
							 r = s.template subspan<k(), 0>();
						 else if (b == 1)
							 r = s.template subspan<k(), 1>();
						 else
						 {
							 TYPED(decltype(s.template subspan<0, 1>())::extent == 1);
							 if constexpr (k() <= 3)
							 {
								 if (b == 2)
									 r = s.template subspan<k(), 2>();
							 }
							 if constexpr (k() <= 2)
							 {
								 if (b == 3)
									 r = s.template subspan<k(), 3>();
							 }
						 }
					 });
				break;
		}
		return r;
	}
	void take(out& w, const span<T>& s)
	{
		view(w, s);
		w.push_back(s.empty());
		w.push_back((long)(s.size_bytes() / sizeof(T)));
		for (size_t i = 0; i < s.size(); i++)
			w.push_back(value(s[i]));
		for (auto i = s.rbegin(); i != s.rend(); ++i)
			w.push_back(value(*i));
		for (auto& v : s)
			w.push_back(value(v));
		if (!s.empty())
		{
			w.push_back(value(s.front()));
			w.push_back(value(s.back()));
		}
		const span<const T> c = s;
		view(w, c);
		view(w, span<const T>{ c });
		w.push_back((long)(end(s) - begin(s)));
		w.push_back((long)(rend(s) - rbegin(s)));
		w.push_back((long)iterator_distance(begin_iterator(s), end_iterator(s)));
		const auto p = as_bytes(s);
		TYPED(std::is_same_v<std::remove_const_t<decltype(p)>, span<const std::byte>>);
		w.push_back(p.data() ? (long)(p.data() - reinterpret_cast<const std::byte*>(cells.data())) : -1);
		w.push_back((long)p.size());
		const auto q = as_writable_bytes(s);
		w.push_back(q.data() == p.data());
		w.push_back((long)q.size());
		if (s.data() && reinterpret_cast<uintptr_t>(s.data()) % 16 == 0)
		{
			const span<T, dynamic_extent, 16> a = s;
			view(w, a);
			const auto h = a.first(s.size() / 2);
			TYPED(decltype(a)::alignment == 16 && std::remove_const_t<decltype(h)>::alignment == 16);
			view(w, h);
			view(w, loose(a));
		}
		pick((long)s.size(),
			 [&](auto k)
			 {
				 if constexpr (k() > 0)
				 {
					 const span<T, k()> e{ s };
					 view(w, e);
					 w.push_back((long)(e.size_bytes() / sizeof(T)));
					 w.push_back(e.empty());
					 const auto b = as_bytes(e);
					 w.push_back(b.data() == p.data() && b.extent == k() * sizeof(T));
					 w.push_back((long)b.size());
					 w.push_back((long)as_writable_bytes(e).size());
					 const span<const T, k()> d = e;
					 view(w, d);
					 w.push_back(value(e.back()));
					 w.push_back(value(d.front()));
				 }
			 });
	}
	void put(const span<T>& s, long how, size_t i, long v)
	{
		const T x = make<T>(v);
		switch (how)
		{
			case 1: s[i] = x; break;
			case 2: s.front() = x; break;
			case 3: s.back() = x; break;
			case 4: *(s.begin() + i) = x; break;
			case 5: *(s.rbegin() + (long)i) = x; break;
			case 6: s.data()[i] = x; break;
			case 7:
			{
				auto b = as_writable_bytes(s).subspan(i * sizeof(T), sizeof(T));
				std::memcpy(b.data(), &x, sizeof(T));
				break;
			}
			case 8:
				pick((long)s.size(),
					 [&](auto k)
					 {
						 if constexpr (k() > 0)
							 span<T, k()>{ s }[i] = x;
					 });
				break;
			case 9:
				for (auto& y : s)
					y = x;
				break;
		}
	}
	void distances(out& w, long n)
	{
		std::list<T> l((size_t)n, make<T>(1));
		std::vector<T> v((size_t)n);
		const apart::bag<T> b{ cells.data(), (size_t)n };
		w.push_back((long)iterator_distance(begin_iterator(l), end_iterator(l)));
		w.push_back((long)iterator_distance(begin_iterator(v), end_iterator(v)));
		w.push_back((long)iterator_distance(begin_iterator(b), end_iterator(b)));
		w.push_back(off(begin_iterator(b)));
		w.push_back(off(end_iterator(b)));
		w.push_back(off(begin_iterator(cells._M_elems)));
		w.push_back(off(end_iterator(cells._M_elems)));
		w.push_back(off(begin_iterator(std::as_const(cells._M_elems))));
		w.push_back(off(end_iterator(std::as_const(cells._M_elems))));
		w.push_back(off(&*begin_iterator(cells)));
		w.push_back((long)iterator_distance(v.begin(), v.begin() + n));
		w.push_back((long)iterator_distance(v.begin() + n, v.begin()));
	}
	void apply(const op& o, out& w) override
	{
		if (o.name == "make")
			slot[o[0]] = built(o[1], o[2], o[3]);
		else if (o.name == "cut")
		{
			const span<T>& s = slot[o[1]];
			const long a = o[3], b = o[4];
			if (o[2] > 10 && s.size() == 5)
				slot[o[0]] = part(span<T, 5>{ s }, o[2] - 10, a, b);
			else
				slot[o[0]] = part(s, o[2] % 10, a, b);
		}
		else if (o.name == "take")
			take(w, slot[o[0]]);
		else if (o.name == "put")
			put(slot[o[0]], o[1], (size_t)o[2], o[3]);
		else if (o.name == "copy")
		{
			span<T>&a = slot[o[0]], &b = slot[o[1]];
			switch (o[2])
			{
				case 1: a = b; break;
				case 2: a = std::move(b); break;
				case 3:
				{
					span<T> c{ b };
					a = c;
					break;
				}
				case 4: a = { begin_iterator(b), end_iterator(b) }; break;
				case 5: std::swap(a, b); break;
			}
		}
		else if (o.name == "dist")
			distances(w, o[0]);
	}
};
static std::unique_ptr<base> m;
void seq::reset() { m = std::make_unique<machine<int>>(); }
// during compilation
static constexpr int fixed[5]{ 1, 2, 3, 4, 5 };
template <typename S>
static constexpr long digits(const S& s)
{
	long r = 0;
	for (auto& v : s)
		r = r * 10 + v;
	return r;
}
static constexpr long backwards()
{
	long r = 0;
	const span<const int> s{ fixed };
	for (auto i = s.rbegin(); i != s.rend(); ++i)
		r = r * 10 + *i;
	return r;
}
static constexpr span<const int> whole{ fixed };
static constexpr span<const int, 5> strict{ fixed };
static constexpr long known[]{ digits(whole), digits(strict), digits(whole.first(2)), digits(whole.last(2)), digits(whole.subspan(1, 3)), digits(whole.subspan(3)), digits(strict.first<3>()),
							   digits(strict.last<4>()), digits(strict.subspan<1, 2>()), digits(strict.subspan<2>()), backwards(), whole.front(), strict.back(), strict[2],
							   (long)whole.size_bytes() / (long)sizeof(int), (long)iterator_distance(begin_iterator(fixed), end_iterator(fixed)) };
// static arrays
using signs = static_array<int, 1>;
template <typename... A>
struct all
{
	template <typename X>
	static void describe(out& w)
	{
		constexpr X x{};
		constexpr size_t n = x.size();
		constexpr bool none = x.empty();
		constexpr auto first = x.begin(), last = x.end(), cfirst = x.cbegin(), clast = x.cend(), ptr = x.data();
		w.push_back((long)n);
		w.push_back(none);
		w.push_back((long)(last - first));
		w.push_back(cfirst == first && clast == last && ptr == first);
		for (auto p = first; p != last; ++p)
			w.push_back((long)*p);
		if constexpr (n > 0)
		{
			constexpr auto a = x.front(), b = x.back(), c = x[n / 2];
			w.insert(w.end(), { (long)a, (long)b, (long)c, (long)x[n - 1] });
		}
	}
	template <typename X, typename Y>
	static void relate(out& w)
	{
		constexpr bool r[]{ X{} == Y{}, X{} != Y{}, X{} < Y{}, X{} <= Y{}, X{} > Y{}, X{} >= Y{} };
		for (bool b : r)
			w.push_back(b);
	}
	static void describe(out& w, long i)
	{
		constexpr void (*f[])(out&){ describe<A>... };
		f[i](w);
	}
	template <typename X>
	static void row(out& w, long j)
	{
		constexpr void (*f[])(out&){ relate<X, A>... };
		f[j](w);
	}
	static void relate(out& w, long i, long j)
	{
		constexpr void (*f[])(out&, long){ row<A>... };
		f[i](w, j);
	}
};
template <int... N>
using sa = static_array<int, N...>;
using arrays = all<sa<>, sa<1>, sa<2>, sa<1, 2>, sa<2, 1>, sa<1, 2, 3>, sa<1, 3>, sa<1, 2, 2>, sa<-1>, sa<-1, 5, 5>, sa<1, 1>, sa<2, 1, 3, 4>>;
template <unsigned char... N>
using sb = static_array<unsigned char, N...>;
using bytes = all<sb<>, sb<1>, sb<2>, sb<1, 2>, sb<2, 1>, sb<1, 2, 3>, sb<1, 3>, sb<1, 2, 2>, sb<255>, sb<255, 5, 5>, sb<1, 1>, sb<2, 1, 3, 4>>;
void seq::apply(const op& o, out& w)
{
	if (o.name == "kind")
		switch (o[0])
		{
			case 1: m = std::make_unique<machine<unsigned char>>(); break;
			case 2: m = std::make_unique<machine<short>>(); break;
			case 3: m = std::make_unique<machine<int>>(); break;
			case 4: m = std::make_unique<machine<double>>(); break;
			case 5: m = std::make_unique<machine<trio>>(); break;
		}
	else if (o.name == "ct")
		w.assign(std::begin(known), std::end(known));
	else if (o.name == "sarr")
	{
		o[1] ? bytes::describe(w, o[0]) : arrays::describe(w, o[0]);
	}
	else if (o.name == "srel")
	{
		o[2] ? bytes::relate(w, o[0], o[1]) : arrays::relate(w, o[0], o[1]);
	}
	else
		m->apply(o, w);
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> v{ op{ "kind", { r.range(1, 5) } } };
	long len[3]{}, at[3]{ -1, -1, -1 };
	for (long n = 14; n--;)
	{
		const long k = r(3), j = r(3);
		switch (r(5))
		{
			case 0:
			{
				const long how = r.range(1, 14);
				long o = r(13), z = r(13 - o);
				if (how == 9 || how == 13)
					z = z > 4 ? 4 : z;
				if (how == 5 || how == 6 || how == 7 || how == 11 || how == 14)
					o = 0, z = 12;
				if (how == 8)
					o = -1, z = 0;
				v.push_back(op{ "make", { k, how, o, z } });
				len[k] = z;
				at[k]  = o;
				break;
			}
			case 1:
			case 2:
			{
				const long how = r.range(1, 8), a0 = how >= 5 ? 4 : 12;
				const long s = len[j];
				long a = r.range(0, std::min(a0, s)), b = 0;
				if (how == 3 || how == 4 || how == 7 || how == 8)
				{
					if (!s)
						break;
					a = r.range(0, std::min(a0, s - 1));
					if (how == 4 || how == 8)
						b = r.range(0, std::min(how == 8 ? std::min(3L, 5 - a) : 12L, s - a));
				}
				v.push_back(op{ "cut", { k, j, how + (s == 5 && r(3) ? 10 : 0), a, b } });
				const long o = at[j];
				at[k]  = how == 2 || how == 6 ? (o < 0 ? o : o + s - a) : how == 1 || how == 5 ? o : o + a;
				len[k] = how == 1 || how == 2 || how == 5 || how == 6 ? a : how == 4 || how == 8 ? b : s - a;
				break;
			}
			case 3:
			{
				if (!len[k])
					break;
				const long how = r.range(1, 9);
				v.push_back(op{ "put", { k, how, how == 8 && len[k] > 4 ? 0 : r(len[k]), r.range(0, 50) } });
				break;
			}
			case 4:
			{
				const long how = r.range(1, 5);
				if (how == 5)
					std::swap(len[k], len[j]), std::swap(at[k], at[j]);
				else
					len[k] = len[j], at[k] = at[j];
				v.push_back(op{ "copy", { k, j, how } });
				break;
			}
		}
		v.push_back(op{ "take", { r(3) } });
		if (!r(6))
			v.push_back(op{ "dist", { r(13) } });
	}
	return v;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
