// Driver of IntRange.tla.
#include "muu/core.h"
#include "muu/integral_range.h"
#include "seq.h"
using seq::op;
using seq::out;
using namespace muu;
struct base
{
	virtual void apply(const op&, out&) = 0;
	virtual void clear()				= 0;
};
alignas(64) static unsigned char store[1024];
using i128 = __int128;
template <typename T>
struct machine : base
{
	using R						  = integral_range<T>;
	static constexpr bool pointer = std::is_pointer_v<T>;
	static constexpr bool sgn = !pointer && static_cast<std::conditional_t<pointer, int, T>>(-1) < static_cast<std::conditional_t<pointer, int, T>>(1);
	R r[2]					  = { R{ T{} }, R{ T{} } };
	static T null()
	{
		if constexpr (pointer)
			return reinterpret_cast<T>(store);
		else
			return T{};
	}
	void clear() override { r[0] = r[1] = R{ null(), null() }; }
	// k*H + d, in the unsigned version of the type
	static T make(long k, long d)
	{
		if constexpr (pointer)
			return null() + d;
		else
		{
			using U = std::conditional_t<sizeof(T) == 16, unsigned __int128, std::make_unsigned_t<std::conditional_t<sizeof(T) == 16, int, T>>>;
			U h		= static_cast<U>(U{ 1 } << (sizeof(T) * 8 - 1));
			return static_cast<T>(static_cast<U>(static_cast<U>(k) * h + static_cast<U>(d)));
		}
	}
	static void put(out& w, T v)
	{
		if constexpr (pointer)
		{
			w.push_back(0);
			w.push_back((long)(v - null()));
		}
		else if constexpr (sizeof(T) <= 2)
		{
			w.push_back(0);
			w.push_back((long)v);
		}
		else if constexpr (sgn)
		{
			// near 0, the lowest or the highest value
			constexpr T lo = std::is_same_v<T, i128> ? (T)(((unsigned __int128)1) << 127) : (T)((uint64_t)1 << (sizeof(T) * 8 - 1));
			constexpr T hi = (T)~lo;
			T q			   = (T)(hi / 2);
			if (v > q)
			{
				w.push_back(1);
				w.push_back(-1 - (long)(hi - v));
			}
			else if (v < (T)(-q))
			{
				w.push_back(-1);
				w.push_back((long)(v - lo));
			}
			else
			{
				w.push_back(0);
				w.push_back((long)v);
			}
		}
		else
			putu(w, v, sizeof(T) * 8);
	}
	template <typename U>
	static void putu(out& w, U v, size_t bits) // bits: width of the value type, at most that of U
	{
		U h = static_cast<U>(U{ 1 } << (bits - 1));
		if (v < h / 2)
		{
			w.push_back(0);
			w.push_back((long)v);
		}
		else if (v < h + h / 2)
		{
			w.push_back(1);
			w.push_back(v < h ? -(long)(h - v) : (long)(v - h));
		}
		else
		{
			w.push_back(2);
			w.push_back(-1 - (long)(static_cast<U>(h - 1 + h) - v));
		}
	}
	bool walk(const R& x, long& n)
	{
		bool ok = true;
		n		= 0;
		T want	= x.s;
		auto e	= x.end();
		for (auto v : x)
		{
			ok = ok && v == want;
			++want;
			n++;
		}
		if (!n)
			return x.begin() == x.end();
		ok = ok && want == x.e && x.end() - x.begin() == n && x.begin() - x.end() == -n;
		auto it = end(x);
		long m	= 0;
		for (; it != begin(x); m++)
		{
			if (m & 1)
				--it;
			else
			{
				auto old = it--;
				ok		 = ok && !(old == it) && old != it;
			}
			--want;
			ok = ok && *it == want;
		}
		ok = ok && m == n && it == x.begin();
		if constexpr (!std::is_same_v<T, i128>)
		{
			using D = typename R::iterator::difference_type;
			using S = typename R::iterator::size_type;
			auto a	= x.begin();
			a += (S)(n - 1);
			ok = ok && *a == x.last();
			a -= (S)(n - 1);
			ok = ok && *a == x.first();
			a += (D)(n - 1);
			ok = ok && *a == x.last();
			a += -(D)(n - 1);
			ok = ok && *a == x.first();
			a -= -(D)(n - 1);
			ok = ok && *a == x.last();
			a -= (D)(n - 1);
			ok = ok && a == x.begin() && e - a == n && *a++ == x.first();
			ok = ok && a - x.begin() == 1 && *--a == x.first() && *(++a)-- == (n > 1 ? x.first() + 1 : x.e);
		}
		return ok;
	}
	void apply(const op& o, out& w) override
	{
		if (o.name == "type")
			clear();
		else if (o.name == "set")
			r[o[0] - 1] = R{ make(o[1], o[2]), make(o[3], o[4]) };
		else if (o.name == "upto")
		{
			if constexpr (pointer)
				r[o[0] - 1] = R{ null(), make(o[1], o[2]) };
			else
				r[o[0] - 1] = R{ make(o[1], o[2]) };
		}
		else if (o.name == "copy")
			r[o[0] - 1] = r[o[1] - 1];
		else if (o.name == "join")
			r[o[0] - 1] = r[o[0] - 1].union_with(r[o[1] - 1]);
		else if (o.name == "has")
		{
			w.push_back(r[o[0] - 1].contains(make(o[1], o[2])));
			return;
		}
		else if (o.name == "rel")
		{
			const R &a = r[0], &b = r[1];
			w = { a.contains(b), a.adjacent(b), a.intersects(b), a.intersects_or_adjacent(b), a == b, a != b };
			if (a.adjacent(b) != b.adjacent(a) || a.intersects(b) != b.intersects(a) || a.intersects_or_adjacent(b) != b.intersects_or_adjacent(a))
				w[3] = 9;
			return;
		}
		else if (o.name == "walk")
		{
			long n;
			bool ok = walk(r[o[0] - 1], n);
			w		= { n, ok };
			return;
		}
		for (auto& x : r)
		{
			put(w, x.s);
			put(w, x.e);
			w.push_back(x.empty());
			w.push_back(static_cast<bool>(x));
			if constexpr (sizeof(T) <= 2 || pointer)
			{
				w.push_back(0);
				w.push_back((long)x.size());
			}
			else
				putu(w, x.size(), sizeof(T) * 8);
			put(w, x.first());
			if (x.empty())
			{
				w.push_back(0);
				w.push_back(0);
			}
			else
				put(w, x.last());
		}
	}
};
static base* find(long k)
{
	static machine<int8_t> k0;
	static machine<uint8_t> k1;
	static machine<int16_t> k2;
	static machine<int32_t> k3;
	static machine<uint32_t> k4;
	static machine<int64_t> k5;
	static machine<uint64_t> k6;
	static machine<std::byte*> k7;
	static machine<int*> k8;
	static machine<i128> k9;
	static machine<uint16_t> k10;
	base* all[] = { &k0, &k1, &k2, &k3, &k4, &k5, &k6, &k7, &k8, &k9, &k10 };
	return all[k];
}
static base* m;
void seq::reset()
{
	m = find(3);
	m->clear();
}
void seq::apply(const op& o, out& w)
{
	if (o.name == "type")
		m = find(o[0]);
	m->apply(o, w);
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> q;
	long t	 = r(11);
	bool ptr = t == 7 || t == 8, sg = t == 0 || t == 2 || t == 3 || t == 5 || t == 9;
	q.push_back({ "type", { t } });
	using num = std::pair<long, long>;
	long H	  = t <= 1 ? 128 : 32768;
	bool small = t <= 2 || t == 10;
	auto value = [&]() -> num {
		if (ptr)
			return { 0, r(10) };
		if (small)
			return { 0, sg ? r.range(-H, H - 1) : r(2 * H) };
		long d = r(3) ? r(8) : r(100);
		switch (r(3))
		{
			case 0: return { sg ? -1 : 0, d };
			case 1: return sg ? num{ 0, d - 20 } : num{ 1, d - 20 };
			default: return { sg ? 1 : 2, -1 - d };
		}
	};
	auto less = [](num a, num b) { return a < b; };
	num R[2][2] = { { { 0, 0 }, { 0, 0 } }, { { 0, 0 }, { 0, 0 } } };
	auto near = [&](num x) -> num {
		for (;;)
		{
			num y = { x.first, x.second + r.range(-1, 1) };
			bool bad = ptr ? y.second < 0 || y.second > 12
				: small	   ? y.second < (sg ? -H : 0) || y.second >= (sg ? H : 2 * H)
						   : (y.first == (sg ? -1 : 0) && y.second < 0) || (y.first == (sg ? 1 : 2) && y.second >= 0);
			if (!bad)
				return y;
		}
	};
	long n = r.range(5, 16);
	for (long i = 0; i < n; i++)
	{
		long a = r(2);
		switch (r(8))
		{
			case 0:
			case 1:
			{
				num x = r(2) ? value() : near(R[1 - a][r(2)]), y = r(2) ? value() : r(2) ? near(R[1 - a][r(2)]) : near(x);
				if (less(y, x))
					std::swap(x, y);
				q.push_back({ "set", { a + 1, x.first, x.second, y.first, y.second } });
				R[a][0] = x;
				R[a][1] = y;
				break;
			}
			case 2:
			{
				num y = value();
				if (less(y, { 0, 0 }))
					break;
				q.push_back({ "upto", { a + 1, y.first, y.second } });
				R[a][0] = { 0, 0 };
				R[a][1] = y;
				break;
			}
			case 3:
				if (r(2))
				{
					q.push_back({ "copy", { a + 1, 2 - a } });
					R[a][0] = R[1 - a][0];
					R[a][1] = R[1 - a][1];
				}
				else
				{
					q.push_back({ "join", { a + 1, 2 - a } });
					R[a][0] = std::min(R[a][0], R[1 - a][0]);
					R[a][1] = std::max(R[a][1], R[1 - a][1]);
				}
				break;
			case 4:
			{
				num x = r(2) ? value() : near(R[a][r(2)]);
				q.push_back({ "has", { a + 1, x.first, x.second } });
				break;
			}
			case 5:
				if (R[a][0].first == R[a][1].first)
					q.push_back({ "walk", { a + 1 } });
				break;
			default: q.push_back({ "rel", {} });
		}
	}
	return q;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
