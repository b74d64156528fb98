// Driver of Accum.tla.
#include "muu/core.h"
#include "muu/accumulator.h"
#include "muu/half.h"
#include "muu/vector.h"
#include "seq.h"
#include <list>
using seq::op;
using seq::out;
using namespace muu;
struct base
{
	virtual void apply(const op&, out&) = 0;
	virtual void clear()				= 0;
};
template <typename T>
static long num(const T& v)
{
	if constexpr (is_floating_point<T>)
	{
		double d = static_cast<double>(v);
		return d == (double)(long)d ? (long)d : 2147483000L;
	}
	else
		return (long)v;
}
template <typename T, size_t D>
struct machine : base
{
	accumulator<T> r[2];
	void clear() override { r[0] = r[1] = accumulator<T>{}; }
	static T sample(const op& o, size_t i)
	{
		if constexpr (D == 1)
			return static_cast<T>(o[i]);
		else
		{
			T v;
			for (size_t d = 0; d < D; d++)
				v[d] = static_cast<typename T::scalar_type>(o[i + d]);
			return v;
		}
	}
	void apply(const op& o, out& w) override
	{
		std::vector<T> q;
		if (o.name == "kind")
			clear();
		auto& a = r[o.a.empty() || o.name == "kind" ? 0 : o[0] - 1];
		if (o.name == "addr" || o.name == "initr")
			for (size_t i = 1; i < o.a.size(); i += D)
				q.push_back(sample(o, i));
		if (o.name == "new")
			a = accumulator<T>{};
		else if (o.name == "init1")
			a = accumulator<T>{ sample(o, 1) };
		else if (o.name == "initr")
			a = accumulator<T>(q.begin(), q.end());
		else if (o.name == "addr")
		{
			if (q.size() & 1)
				a.add(q.data(), q.data() + q.size());
			else
			{
				std::list<T> l(q.begin(), q.end());
				a.add(l.cbegin(), l.cend());
			}
		}
		else if (o.name == "add")
			a.add(sample(o, 1));
		else if (o.name == "call")
			a(sample(o, 1));
		else if (o.name == "merge")
			a.add(r[o[1] - 1]);
		else if (o.name == "callm")
			a(r[o[1] - 1]);
		else if (o.name == "copy")
			a = r[o[1] - 1];
		for (auto& x : r)
		{
			w.push_back((long)x.sample_count());
			w.push_back(x.empty());
			auto mn = x.min(), mx = x.max();
			auto sm = x.sum();
			for (size_t d = 0; d < D; d++)
			{
				if constexpr (D == 1)
				{
					w.push_back(num(mn));
					w.push_back(num(mx));
					w.push_back(num(sm));
				}
				else
				{
					w.push_back(num(mn[d]));
					w.push_back(num(mx[d]));
					w.push_back(num(sm[d]));
				}
			}
		}
	}
};
static base* find(long k)
{
	static machine<int8_t, 1> k0;
	static machine<uint16_t, 1> k1;
	static machine<int, 1> k2;
	static machine<int64_t, 1> k3;
	static machine<float, 1> k4;
	static machine<double, 1> k5;
	static machine<half, 1> k6;
	static machine<vector<int, 2>, 2> k7;
	static machine<vector<float, 3>, 3> k8;
	static machine<uint32_t, 1> k9;
	static machine<long double, 1> k10;
	static machine<vector<int16_t, 5>, 5> k11;
	base* all[] = { &k0, &k1, &k2, &k3, &k4, &k5, &k6, &k7, &k8, &k9, &k10, &k11 };
	return all[k];
}
static base* m;
void seq::reset()
{
	m = find(2);
	m->clear();
}
void seq::apply(const op& o, out& w)
{
	if (o.name == "kind")
		m = find(o[0]);
	m->apply(o, w);
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> q;
	long k = r(12);
	const long dims[] = { 1, 1, 1, 1, 1, 1, 1, 2, 3, 1, 1, 5 };
	q.push_back({ "kind", { k } });
	auto scalar = [&]() -> long {
		switch (k)
		{
			case 0: return r.range(-128, 127);
			case 1:
			case 9: return r(3) ? r(65536) : r(5);
			case 6: return r.range(-60, 60);
			case 11: return r.range(-32768, 32767);
			case 4:
			case 8:
			{
				if (r(2))
					return r.range(-20, 20);
				long big = 1L << r.range(10, 24);
				return (r(2) ? 1 : -1) * big * (1 + r(2));
			}
			default: return r(2) ? r.range(-20, 20) : r.range(-20000000, 20000000);
		}
	};
	long n = r.range(4, 12), used = 0;
	long size[2] = { 0, 0 };
	auto put = [&](op o, long count) {
		for (long i = 0; i < count * dims[k]; i++)
			o.a.push_back(scalar());
		q.push_back(o);
	};
	for (long i = 0; i < n; i++)
	{
		long a = r(2), b = r(2);
		switch (r(9))
		{
			case 0:
				q.push_back({ "new", { a + 1 } });
				size[a] = 0;
				break;
			case 1:
				put({ "init1", { a + 1 } }, 1);
				size[a] = 1;
				break;
			case 2:
			case 3:
			{
				long c = r(4);
				if (size[a] + c > 12)
					break;
				bool f = r(3) == 0;
				put({ f ? "initr" : "addr", { a + 1 } }, c);
				size[a] = (f ? 0 : size[a]) + c;
				break;
			}
			case 4:
			case 5:
				if (size[a] + size[b] > 12)
					break;
				q.push_back({ r(2) ? "merge" : "callm", { a + 1, b + 1 } });
				size[a] += size[b];
				break;
			case 6:
				q.push_back({ "copy", { a + 1, b + 1 } });
				size[a] = size[b];
				break;
			default:
				if (size[a] >= 12)
					break;
				put({ r(2) ? "add" : "call", { a + 1 } }, 1);
				size[a]++;
		}
	}
	(void)used;
	return q;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
