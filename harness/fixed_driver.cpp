// Driver of FixedStr.tla: a register holding a fixed_string of one of several character types and lengths.
#include "muu/core.h"
#include "muu/fixed_string.h"
#include "seq.h"
#include <variant>
#include <iterator>
#include <sstream>
using namespace muu;
using seq::op;
using seq::out;

template <typename C>
static long unit(C c)
{
	return (long)(std::make_unsigned_t<std::conditional_t<std::is_same_v<C, char16_t>, uint16_t, std::conditional_t<std::is_same_v<C, char32_t>, uint32_t, C>>>)c;
}

constexpr size_t MAXL = 6;
struct base
{
	virtual void apply(const op&, out&) = 0;
	virtual void clear()				= 0;
};
base* machine0();
base* machine1();
base* machine2();
base* machine3();
// compiled once per character type (PART 0..3) to spread the work, and once (PART 4) for the rest
#if PART < 4
template <typename C>
struct machine : base
{
	void clear() override { v.clear(); }
	// the register: characters; every operation moves them into a fixed_string of that length and back
	std::basic_string<C> v;

	template <size_t I = 0, typename F>
	static void with(size_t len, F&& f) // calls f with index_tag<len>
	{
		if constexpr (I <= MAXL)
		{
			if (len == I)
				f(index_tag<I>{});
			else
				with<I + 1>(len, static_cast<F&&>(f));
		}
		else
			abort();
	}
	template <size_t L>
	static fixed_string<C, L> load(const std::basic_string<C>& s)
	{
		fixed_string<C, L> r{ C{} };
		for (size_t i = 0; i < L; i++)
			r[i] = s[i];
		return r;
	}
	template <size_t L>
	void store(const fixed_string<C, L>& r, out& w)
	{
		using F = fixed_string<C, L>;
		const F& cr = r;
		F m			= r; // copy
		bool same	= r.size() == L && r.length() == L && F::string_length == L && r.data() == r.c_str() && r.view().size() == L
				 && r.view().data() == r.data() && static_cast<typename F::view_type>(r) == r.view() && r.end() - r.begin() == (ptrdiff_t)L
				 && std::distance(r.rbegin(), r.rend()) == (ptrdiff_t)L && r.cend() - r.cbegin() == (ptrdiff_t)L && cr.c_str()[L] == C{};
		std::basic_string<C> a(r.begin(), r.end()), b(r.rbegin(), r.rend()), c(r.data(), L), d(r.crbegin(), r.crend()), e(m.begin(), m.end()),
			f(m.rbegin(), m.rend()), g(begin(cr), end(cr)), h(rbegin(cr), rend(cr)), g2(cbegin(cr), cend(cr)), h2(crbegin(cr), crend(cr)), k(begin(m), end(m)),
			l(rbegin(m), rend(m));
		std::basic_string<C> rb(b.rbegin(), b.rend());
		same = same && a == c && rb == c && d == b && e == a && f == b && g == a && h == b && g2 == a && h2 == b && k == a && l == b;
		if constexpr (L > 0)
		{
			same = same && r.front() == c.front() && r.back() == c.back() && m.front() == c.front() && m.back() == c.back()
				&& r.template get<L - 1>() == c.back() && m.template get<0>() == c.front();
		}
		if constexpr (std::is_same_v<C, char>)
		{
			std::ostringstream os;
			os << r;
			same = same && os.str() == c;
		}
		w = { (long)r.size(), r.empty(), static_cast<bool>(r), same };
		for (size_t i = 0; i < L; i++)
			w.push_back(unit(cr[i]));
		w.push_back(unit(r.c_str()[L]));
		v = c;
	}
	template <typename X>
	void storex(X x, out& w)
	{
		store(x, w);
	}
	static std::basic_string<C> text(const op& o, size_t from)
	{
		std::basic_string<C> s;
		for (size_t i = from; i < o.a.size(); i++)
			s += (C)o.a[i];
		return s;
	}
	template <size_t N>
	struct arr
	{
		C c[N];
	};
	template <size_t A, size_t B>
	static void rel(const fixed_string<C, A>& a, const fixed_string<C, B>& b, out& w)
	{
		auto sg = [](int x) { return x < 0 ? -1 : x > 0; };
		fixed_string<C, A> m = a;
		int c  = sg(fixed_string<C, A>::compare(a, b));
		int c2 = (const void*)&a == (const void*)&b ? sg(m.compare(m)) : sg(m.compare(b));
		w.push_back(c == c2 ? c : 9);
		w.push_back(a == b);
		w.push_back(a != b);
		w.push_back(a < b);
		w.push_back(a <= b);
		w.push_back(a > b);
		w.push_back(a >= b);
		if constexpr (A == B)
		{
			auto z = a <=> b;
			if ((z < 0) != (c < 0) || (z > 0) != (c > 0) || (z == 0) != (c == 0))
				w.back() = 9;
		}
	}
	template <auto A, auto B>
	void sub(bool slice, out& w)
	{
		with(v.size(), [&](auto L) {
			auto s = load<L.value>(v);
			if (slice)
			{
				if constexpr (B == 99)
					store(s.template slice<A>(), w);
				else
					store(s.template slice<A, B>(), w);
			}
			else if constexpr (B >= 0)
			{
				if constexpr (B == 99)
					store(s.template substr<A>(), w);
				else
					store(s.template substr<A, (size_t)B>(), w);
			}
		});
	}
	template <auto A>
	void sub1(bool slice, long b, out& w)
	{
		switch (b)
		{
			case -9: sub<A, -9>(slice, w); break;
			case -3: sub<A, -3L>(slice, w); break;
			case -2: sub<A, -2>(slice, w); break;
			case -1: sub<A, -1>(slice, w); break;
			case 0: sub<A, 0>(slice, w); break;
			case 1: sub<A, 1>(slice, w); break;
			case 2: sub<A, 2>(slice, w); break;
			case 3: sub<A, 3>(slice, w); break;
			case 4: sub<A, 4>(slice, w); break;
			case 7: sub<A, 7>(slice, w); break;
			default: sub<A, 99>(slice, w); break;
		}
	}
	void apply(const op& o, out& w) override
	{
		if (o.name == "make")
		{
			auto s	 = text(o, 2);
			long how = o[0];
			with((size_t)o[1], [&](auto LT) {
				constexpr size_t L = LT.value;
				if (how == 0)
				{
					with(s.size(), [&](auto N) {
						constexpr size_t n = N.value;
						if constexpr (n == 0)
							store(fixed_string<C, L>{ fixed_string<C, 0>{ C{} } }, w);
						else
						{
							arr<n> a;
							std::copy(s.begin(), s.end(), a.c);
							store(fixed_string<C, L>{ a.c }, w);
						}
					});
				}
				else if (how == 1)
				{
					if constexpr (std::is_same_v<C, char>)
						store(fixed_string<C, L>{ std::string_view{ s } }, w);
					else
						store(fixed_string<C, L>{ s.data(), index_tag<0>{} }, w);
					if constexpr (!std::is_same_v<C, char>)
						with(s.size(), [&](auto N) { store(fixed_string<C, L>{ s.data(), index_tag<N.value>{} }, w); });
				}
				else
					with(s.size(), [&](auto N) { store(fixed_string<C, L>{ s.data(), index_tag<N.value>{} }, w); });
			});
		}
		else if (o.name == "fill")
			with((size_t)o[0], [&](auto L) { store(fixed_string<C, L.value>{ (C)o[1] }, w); });
		else if (o.name == "conv")
			with(v.size(), [&](auto A) {
				with((size_t)o[0], [&](auto B) { store(fixed_string<C, B.value>{ load<A.value>(v) }, w); });
			});
		else if (o.name == "cat")
		{
			auto s = text(o, 0);
			with(v.size(), [&](auto A) { with(s.size(), [&](auto B) { store(load<A.value>(v) + load<B.value>(s), w); }); });
		}
		else if (o.name == "catc")
			with(v.size(), [&](auto A) { store(load<A.value>(v) + (C)o[0], w); });
		else if (o.name == "ccat")
			with(v.size(), [&](auto A) { store((C)o[0] + load<A.value>(v), w); });
		else if (o.name == "set")
			with(v.size(), [&](auto A) {
				if constexpr (A.value > 0)
				{
					auto s	 = load<A.value>(v);
					size_t i = (size_t)o[0];
					C c		 = (C)o[1];
					if (i == 0)
						s.front() = c;
					else if (i == A.value - 1)
						s.back() = c;
					else if (i == 1)
						s.begin()[1] = c;
					else
						s[i] = c;
					store(s, w);
				}
			});
		else if (o.name == "sub" || o.name == "slice")
		{
			bool sl = o.name == "slice";
			switch (o[0])
			{
				case -9: sub1<-9>(sl, o[1], w); break;
				case -2: sub1<-2L>(sl, o[1], w); break;
				case -1: sub1<(signed char)-1>(sl, o[1], w); break;
				case 0: sub1<0>(sl, o[1], w); break;
				case 1: sub1<1u>(sl, o[1], w); break;
				case 2: sub1<2>(sl, o[1], w); break;
				case 4: sub1<4_sz>(sl, o[1], w); break;
				default: sub1<-3>(sl, o[1], w); break;
			}
		}
		else if (o.name == "rel")
		{
			auto s = text(o, 0);
			with(v.size(), [&](auto A) {
				with(s.size(), [&](auto B) {
					auto a = load<A.value>(v);
					auto b = load<B.value>(s);
					rel(a, b, w);
					rel(b, a, w);
				});
			});
		}
		else if (o.name == "self")
			with(v.size(), [&](auto A) {
				auto a = load<A.value>(v);
				rel(a, a, w);
				rel(a, a, w);
			});
	}
};
template <typename C>
base* the()
{
	static machine<C> m;
	return &m;
}
	#if PART == 0
base* machine0() { return the<char>(); }
	#elif PART == 1
base* machine1() { return the<char16_t>(); }
	#elif PART == 2
base* machine2() { return the<char32_t>(); }
	#else
base* machine3() { return the<wchar_t>(); }
	#endif
#else
static long enc;
static base* m[4] = { machine0(), machine1(), machine2(), machine3() };
void seq::reset()
{
	enc = 0;
	for (auto x : m)
		x->clear();
}
void seq::apply(const op& o, out& w)
{
	if (o.name == "enc")
	{
		reset();
		enc = o[0];
		w	= { 0, 1, 0, 1, 0 };
		return;
	}
	m[enc]->apply(o, w);
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> q;
	long e = r(4);
	q.push_back({ "enc", { e } });
	std::vector<long> v; // a shadow of the register, only to know its length and to build related operands
	auto unit = [&]() -> long {
		const long b[] = { 0, 1, 32, 65, 66, 97, 127, 128, 200, 255 }, u[] = { 0, 65, 127, 128, 255, 256, 4660, 55296, 57343, 65535 };
		return e == 0 ? b[r(10)] : u[r(10)];
	};
	auto text = [&](long n) {
		std::vector<long> t;
		for (long i = 0; i < n; i++)
			t.push_back(unit());
		return t;
	};
	auto cat = [](std::vector<long> a, const std::vector<long>& b) {
		a.insert(a.end(), b.begin(), b.end());
		return a;
	};
	long n = r.range(4, 14);
	for (long i = 0; i < n; i++)
	{
		switch (r(11))
		{
			case 0:
			case 1:
			{
				auto t = text(r(7));
				long L = r(7);
				q.push_back({ "make", cat({ r(3), L }, t) });
				t.resize((size_t)L);
				v = t;
				break;
			}
			case 2:
			{
				long L = r(7), c = unit();
				q.push_back({ "fill", { L, c } });
				v.assign((size_t)L, c);
				break;
			}
			case 3:
			{
				long L = r(7);
				q.push_back({ "conv", { L } });
				v.resize((size_t)L);
				break;
			}
			case 4:
			{
				long k = r((long)(6 - v.size()) + 1);
				auto t = text(k);
				q.push_back({ "cat", t });
				v = cat(v, t);
				break;
			}
			case 5:
				if (v.size() < 6)
				{
					long c = unit();
					bool f = r(2);
					q.push_back({ f ? "ccat" : "catc", { c } });
					v.insert(f ? v.begin() : v.end(), c);
				}
				break;
			case 6:
				if (!v.empty())
				{
					long k = r((long)v.size()), c = unit();
					q.push_back({ "set", { k, c } });
					v[(size_t)k] = c;
				}
				break;
			case 7:
			{
				const long A[] = { -9, -2, -1, 0, 1, 2, 4, -3 }, Bs[] = { 0, 1, 2, 3, 4, 7, 99 }, B2[] = { -9, -3, -2, -1, 0, 1, 2, 3, 4, 7, 99 };
				bool sl = r(2);
				long a = A[r(8)], b = sl ? B2[r(11)] : Bs[r(7)], L = (long)v.size();
				q.push_back({ sl ? "slice" : "sub", { a, b } });
				auto ix = [&](long x) { return x >= 0 ? std::min(x, L) : std::max(0L, L + x); };
				long s = ix(a), en = b == 99 ? L : sl ? ix(b) : std::min(s + b, L);
				v = en > s ? std::vector<long>(v.begin() + s, v.begin() + en) : std::vector<long>{};
				break;
			}
			case 8: q.push_back({ "self", {} }); break;
			default:
			{
				auto t = v;
				if (r(4) == 0)
					t = text(r(7));
				else if (!t.empty() && r(2))
					t[(size_t)r((long)t.size())] = unit();
				else if (r(2))
					t.resize((size_t)r(7));
				q.push_back({ "rel", t });
			}
		}
	}
	return q;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
#endif
