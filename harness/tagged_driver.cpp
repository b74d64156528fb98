// Driver of TaggedPtr.tla. Compiled once per address width (PART 0: 64-bit, 1: 48-bit, 2: 57-bit addresses; each with its
// own copy of the library's namespace), and once (PART 3) for the rest.
#if PART == 0
	#define muu muu_all
	#define MUU_TAGGED_PTR_BITS 0
#elif PART == 1
	#define muu muu_48
	#define MUU_TAGGED_PTR_BITS 48
#elif PART == 2
	#define muu muu_57
	#define MUU_TAGGED_PTR_BITS 57
#endif
#include "seq.h"
#include <memory>
using seq::op;
using seq::out;
struct base
{
	virtual void apply(const op&, out&) = 0;
	virtual void clear()				= 0;
};
base* kind0(long);
base* kind1(long);
base* kind2(long);
#if PART < 3
	#include "muu/core.h"
	#include "muu/tagged_ptr.h"
namespace
{
	struct object
	{
		alignas(8) long v;
		long get() const { return v; }
	};
	struct alignas(1024) big
	{
		long v;
		long get() const { return v; }
	};
	enum class en : unsigned char
	{
	};
	enum class sen : signed char
	{
	};
	struct s1
	{
		unsigned char c;
	};
	struct s2
	{
		unsigned char c[2];
	};
	using fn = long(long);
	long twice(long x) { return 2 * x; }
	alignas(16) unsigned char fnpad[16];
	alignas(1024) unsigned char store[4096];
	template <typename T, size_t A>
	struct machine : base
	{
		using P = muu::tagged_ptr<T, A>;
		static constexpr size_t N = P::tag_bit_count;
		static constexpr size_t F = N - (A == 1 ? 0 : __builtin_ctzll(A));
		P r[2];
		static uintptr_t addr(long i)
		{
			const uintptr_t sign = F ? ~uintptr_t{} << (63 - F) : uintptr_t{ 1 } << 63;
			switch (i)
			{
				case 0: return 0;
				case 1: return A;
				case 2: return reinterpret_cast<uintptr_t>(store) + (A == 1024 ? 1024 : A == 1 ? 1 : 2 * A);
				case 3: return ~sign & ~uintptr_t{ A - 1 };
				case 4: return sign;
				default: return ~uintptr_t{ A - 1 };
			}
		}
		static T* ptr(long i) { return reinterpret_cast<T*>(addr(i)); }
		static long index(const void* p)
		{
			for (long i = 0; i < 6; i++)
				if (addr(i) == reinterpret_cast<uintptr_t>(p))
					return i;
			return -1;
		}
		void clear() override { r[0] = r[1] = P{}; }
		template <typename Fn>
		static void typed(long ty, long v, Fn&& f)
		{
			switch (ty)
			{
				case 0: f((unsigned char)v); break;
				case 1: f((signed char)v); break;
				case 2: f((unsigned short)v); break;
				case 3: f((short)v); break;
				case 4: f((unsigned)v); break;
				case 5: f((int)v); break;
				case 6: f((long)v); break;
				case 7: f((en)v); break;
				case 12: f((sen)v); break;
				case 8: f(s1{ (unsigned char)v }); break;
				case 9: f(s2{ { (unsigned char)v, (unsigned char)(v >> 8) } }); break;
				case 10: f(v != 0); break;
				default: f((char)v); break;
			}
		}
		// only what compiles: a tag stored bytewise has to fit
		template <typename Tag>
		static constexpr bool bytewise = !std::is_enum_v<Tag> && (!std::is_integral_v<Tag> || std::is_same_v<Tag, bool> || std::is_same_v<Tag, char>);
		template <typename Tag>
		static constexpr bool fits = !bytewise<Tag> || sizeof(Tag) * 8 <= N;
		bool consistent(const P& x)
		{
			bool ok = x.get() == x.ptr() && static_cast<T*>(x) == x.ptr();
			unsigned long t = x.template tag<unsigned long>();
			ok = ok && static_cast<unsigned long>(x.tag()) == t && x.template tag<long long>() == (long long)t;
			for (size_t i = 0; i < N; i++)
				ok = ok && x.tag_bit(i) == (bool)((t >> i) & 1);
			if constexpr (N >= 8)
				ok = ok && x.template tag<s1>().c == (t & 255);
			if constexpr (N <= 8)
				ok = ok && x.template tag<en>() == (en)t;
			if constexpr (N >= 16)
				ok = ok && x.template tag<s2>().c[1] == ((t >> 8) & 255);
			P c(x);
			ok = ok && c == x && !(c != x) && x == x.ptr() && x.ptr() == x && !(x != x.ptr()) && !(x.ptr() != x);
			if (index((const void*)x.ptr()) == 2)
			{
				if constexpr (std::is_same_v<T, object> || std::is_same_v<T, big>)
				{
					x->v = 41 + (long)t % 100;
					ok	 = ok && (*x).v == 41 + (long)t % 100 && x->get() == (*x).get() && std::to_address(x) == x.ptr();
				}
			}
			return ok;
		}
		void apply(const op& o, out& w) override
		{
			if (o.name == "kind")
			{
				clear();
				w = { (long)N, (long)P::alignment, (long)P::max_tag };
				static_assert(sizeof(P) == sizeof(void*));
				return;
			}
			if (o.name == "can")
			{
				typed(o[0], o[1], [&](auto v) { w.push_back(P::can_store_tag(v)); });
				return;
			}
			if (o.name == "canp")
			{
				w.push_back(P::can_store_ptr(reinterpret_cast<T*>(addr(o[0]) + (uintptr_t)o[1])));
				return;
			}
			P& x = r[o.a.empty() ? 0 : o[0] - 1];
			if (o.name == "ctor")
				x = P{ ptr(o[1]) };
			else if (o.name == "resetp")
				x.reset(ptr(o[1]));
			else if (o.name == "reset")
				x.reset();
			else if (o.name == "null")
				x = P{ nullptr };
			else if (o.name == "ptr")
				x.ptr(ptr(o[1]));
			else if (o.name == "asg")
				x = ptr(o[1]);
			else if (o.name == "clearp")
				x.clear_ptr();
			else if (o.name == "cleart")
				x.clear_tag();
			else if (o.name == "bit")
				x.tag_bit((size_t)o[1], o[2] != 0);
			else if (o.name == "copy")
				x = r[o[1] - 1];
			else if (o.name == "swap")
				std::swap(r[0], r[1]);
			else if (o.name == "ctort" || o.name == "resett")
				typed(o[2], o[3], [&](auto v) {
					if constexpr (fits<decltype(v)>)
					{
						if (o.name == "ctort")
							x = P{ ptr(o[1]), v };
						else
							x.reset(ptr(o[1]), v);
					}
				});
			else if (o.name == "tag")
				typed(o[1], o[2], [&](auto v) {
					if constexpr (fits<decltype(v)>)
						x.tag(v);
				});
			for (auto& y : r)
			{
				w.push_back(index((const void*)y.ptr()));
				w.push_back((long)y.template tag<unsigned long>());
				w.push_back(static_cast<bool>(y));
				w.push_back(consistent(y));
			}
			w.push_back(r[0] == r[1]);
			w.push_back(r[0] != r[1]);
			w.push_back(r[0] == r[1].ptr());
			w.push_back(r[0].ptr() != r[1]);
		}
	};
	// pointers to functions: called through when the address is that of a real function
	struct fmachine : machine<fn, 16>
	{
		void apply(const op& o, out& w) override
		{
			machine<fn, 16>::apply(o, w);
			uintptr_t f = reinterpret_cast<uintptr_t>(&twice);
			if ((f & 15) == 0 && w.size() > 4)
			{
				P x{ &twice };
				x.tag((unsigned char)3);
				if (x(21) != 42 || x.ptr() != &twice)
					w[3] = 0;
			}
		}
	};
}
	#if PART == 0
base* kind0(long k)
	#elif PART == 1
base* kind1(long k)
	#else
base* kind2(long k)
	#endif
{
	static machine<object, 8> a;
	static machine<big, 1024> b;
	static machine<int, 4> c;
	static machine<void, 16> d;
	static fmachine e;
	static machine<char, 2> f;
	#if PART == 0
	base* all[] = { &a, &b, &c, &d, &e, &f, nullptr };
	#else
	static machine<char, 1> g;
	base* all[] = { &a, &b, &c, &d, &e, &f, &g };
	#endif
	return all[k];
}
#else
static base* m;
static base* find(long k, long f) { return f == 0 ? kind0(k) : f == 16 ? kind1(k) : kind2(k); }
void seq::reset()
{
	m = find(0, 0);
	m->clear();
}
void seq::apply(const op& o, out& w)
{
	if (o.name == "kind")
		m = find(o[0], o[1]);
	m->apply(o, w);
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> q;
	const long la[] = { 3, 10, 2, 4, 4, 1, 0 }, fr[] = { 0, 7, 16 };
	const long width[] = { 8, 8, 16, 16, 32, 32, 64, 8, 8, 16, 8, 8, 8 };
	long k = r(7), f = fr[k == 6 ? 1 + r(2) : r(3)], N = la[k] + f;
	q.push_back({ "kind", { k, f } });
	auto tagv = [&](long& ty, long& v) {
		for (;;)
		{
			ty		  = r(13);
			bool sg	  = ty == 1 || ty == 3 || ty == 5 || ty == 6 || ty == 11 || ty == 12;
			bool obj  = ty >= 8 && ty <= 11;
			long full = N >= 31 ? 0x7fffffffL : (1L << N) - 1;
			if (width[ty] <= N)
			{
				long lim = 1L << width[ty];
				v		 = ty == 10 ? r(2) : sg ? r.range(-lim / 2, lim / 2 - 1) : r(lim);
				return;
			}
			if (obj)
				continue;
			v = r(3) == 0 ? full : r(full + 1);
			if (width[ty] == 8 && v > (sg ? 127 : 255))
				v &= 127;
			if (width[ty] == 16 && v > 32767)
				v &= 32767;
			return;
		}
	};
	long n = r.range(6, 24);
	for (long i = 0; i < n; i++)
	{
		long x = 1 + r(2), p = r(6), ty, v;
		switch (r(16))
		{
			case 0: q.push_back({ "ctor", { x, p } }); break;
			case 1: q.push_back({ "resetp", { x, p } }); break;
			case 2: q.push_back({ r(2) ? "reset" : "null", { x } }); break;
			case 3:
			case 4: q.push_back({ "ptr", { x, p } }); break;
			case 5: q.push_back({ "asg", { x, p } }); break;
			case 6: q.push_back({ r(2) ? "clearp" : "cleart", { x } }); break;
			case 7:
			case 8: q.push_back({ "bit", { x, r(N), r(2) } }); break;
			case 9: q.push_back({ "copy", { x, 3 - x } }); break;
			case 10: q.push_back({ "swap", {} }); break;
			case 11:
				tagv(ty, v);
				q.push_back({ "ctort", { x, p, ty, v } });
				break;
			case 12:
				tagv(ty, v);
				q.push_back({ "resett", { x, p, ty, v } });
				break;
			case 13:
				tagv(ty, v);
				if (ty != 10 && v >= 0)
				{
					if (r(2) && width[ty] > 8)
						v = r(30000);
					q.push_back({ "can", { ty, v } });
				}
				break;
			default:
				tagv(ty, v);
				q.push_back({ "tag", { x, ty, v } });
		}
	}
	return q;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
#endif
