#include "muu/core.h"
#include "muu/emplacement_array.h"
#include "seq.h"
#include <memory>
#include <optional>
namespace
{
	long live;
	bool boom;
	struct thrower
	{
		long v, check;
		thrower(long x) : v(x), check(x ^ 0x5555)
		{
			if (boom)
				throw 1;
			live++;
		}
		~thrower()
		{
			if (check != (v ^ 0x5555))
				abort();
			check = 0x1234567;
			live--;
		}
		long get() const { return check == (v ^ 0x5555) ? v : -99; }
		void set(long x) { v = x, check = x ^ 0x5555; }
	};
	struct alignas(64) aligned
	{
		long v, check;
		aligned(long x) noexcept : v(x), check(x ^ 0x5555) { live++; }
		~aligned()
		{
			if (check != (v ^ 0x5555))
				abort();
			check = 0x1234567;
			live--;
		}
		long get() const { return check == (v ^ 0x5555) ? v : -99; }
		void set(long x) { v = x, check = x ^ 0x5555; }
	};
	struct trivial
	{
		long v;
		trivial(long x) noexcept : v(x) { live++; }
		long get() const { return v; }
		void set(long x) { v = x; }
	};
	struct owner
	{
		std::unique_ptr<long> p;
		owner(long x) noexcept : p(new long(x)) { live++; }
		owner(owner&&) = delete;
		~owner() { live--; }
		long get() const { return *p; }
		void set(long x) { *p = x; }
	};
	struct base
	{
		virtual ~base() = default;
		virtual void apply(const seq::op&, seq::out&) = 0;
	};
	template <typename T>
	struct impl : base
	{
		using arr = muu::emplacement_array<T>;
		std::optional<arr> a[4];
		impl()
		{
			for (auto& x : a)
				x.emplace(0u);
		}
		void apply(const seq::op& o, seq::out& w) override
		{
			auto& n  = o.name;
			long thr = 0;
			if (n == "new")
				a[o[0]].emplace((size_t)o[1]);
			else if (n == "push" || n == "pushx")
			{
				boom = n == "pushx";
				try
				{
					T& r = a[o[0]]->emplace_back(o[1]);
					if (&r != &a[o[0]]->back())
						thr = 7;
				}
				catch (int)
				{
					thr = 1;
				}
				boom = false;
			}
			else if (n == "with" || n == "withx")
			{
				boom = n == "withx";
				try
				{
					T& r = o[1] & 1 ? a[o[0]]->emplace_back_with([&](void* p) -> T* { return ::new (p) T(o[1]); })
									: (n == "withx" ? a[o[0]]->emplace_back_with([&](void* p) -> T* { return ::new (p) T(o[1]); })
													: a[o[0]]->emplace_back_with([&](void* p) noexcept -> T* { return ::new (p) T(o[1]); }));
					if (&r != &a[o[0]]->back())
						thr = 7;
				}
				catch (int)
				{
					thr = 1;
				}
				boom = false;
			}
			else if (n == "set")
				(*a[o[0]])[(size_t)o[1]].set(o[2]);
			else if (n == "clear")
				a[o[0]]->clear();
			else if (n == "mctor")
				a[o[0]].emplace(std::move(*a[o[1]]));
			else if (n == "massign")
				*a[o[0]] = std::move(*a[o[1]]);
			w.push_back(thr);
			w.push_back(live);
			for (int i = 1; i <= 3; i++)
			{
				auto& x       = *a[i];
				const auto& c = x;
				w.push_back((long)c.size());
				w.push_back((long)c.capacity());
				w.push_back(c.empty());
				bool ok = true;
				if (c.size() <= c.capacity() && c.size())
				{
					ok = &x.front() == &x[0] && &x.back() == &x[x.size() - 1] && x.data() == &x[0] && c.data() == &c[0] && &c.front() == &c[0]
					  && &c.back() == &c[c.size() - 1] && (uintptr_t)x.data() % alignof(T) == 0 && x.begin() == x.data() && c.cbegin() == c.data();
					ok = ok && x.end() - x.begin() == (long)x.size() && c.end() - c.begin() == (long)c.size() && c.cend() == c.end() && end(x) == x.end()
					  && begin(x) == x.begin() && end(c) == c.end() && begin(c) == c.begin();
				}
				w.push_back(ok);
				for (auto& e : c)
					w.push_back(e.get());
			}
		}
	};
	std::unique_ptr<base> cur;
	size_t mem;
	void make(long k)
	{
		cur.reset();
		live = 0;
		switch (k)
		{
			case 0: cur = std::make_unique<impl<thrower>>(); break;
			case 1: cur = std::make_unique<impl<aligned>>(); break;
			case 2: cur = std::make_unique<impl<trivial>>(); break;
			default: cur = std::make_unique<impl<owner>>();
		}
	}
}
void seq::reset()
{
	cur.reset();
	mem = seq::live_bytes();
	make(0);
}
void seq::finish(std::vector<std::pair<op, out>>& t)
{
	long k = dynamic_cast<impl<trivial>*>(cur.get()) != nullptr;
	cur.reset();
	long leak = (long)seq::live_bytes() - (long)mem;
	t.push_back({ op("fin"), { leak, k ? 0 : live } });
}
void seq::apply(const op& o, out& w)
{
	if (o.name == "kind")
		make(o[0]);
	cur->apply(o, w);
}
std::vector<seq::op> seq::random(rng& r)
{
	std::vector<op> v;
	long k = r(4);
	v.push_back({ "kind", { k } });
	long n[4] = {}, c[4] = {};
	for (long m = 4 + r(30); m > 0; m--)
	{
		long i = 1 + r(3), j = 1 + r(3), x = r(1000);
		switch (r(10))
		{
			case 0:
			case 1: c[i] = r(7), n[i] = 0, v.push_back({ "new", { i, c[i] } }); break;
			case 2:
			case 3:
			case 4: if (n[i] < c[i]) v.push_back({ r(2) ? "push" : "with", { i, x } }), n[i]++; break;
			case 5: if (n[i] < c[i] && k == 0) v.push_back({ r(2) ? "pushx" : "withx", { i, x } }); break;
			case 6: if (n[i]) v.push_back({ "set", { i, r(n[i]), x } }); break;
			case 7: if (r(3) == 0) v.push_back({ "clear", { i } }), n[i] = 0; break;
			default:
				if (i != j)
					v.push_back({ r(2) ? "mctor" : "massign", { i, j } }), n[i] = n[j], c[i] = c[j], n[j] = c[j] = 0;
		}
	}
	return v;
}
SEQ_MAIN()
