// Driver of FunctionView.tla.
#include "muu/core.h"
#include "muu/function_view.h"
#include "seq.h"
using seq::op;
using seq::out;
using namespace muu;
// an argument that counts its copies and moves
struct box
{
	long v;
	static inline long copies, moves;
	explicit box(long x) noexcept : v(x) {}
	box(const box& o) : v(o.v) { copies++; }
	box(box&& o) noexcept : v(o.v)
	{
		moves++;
		o.v = -99;
	}
};
struct heavy // never copied
{
	long v;
	explicit heavy(long x) : v(x) {}
	heavy(const heavy&)			   = delete;
	heavy& operator=(const heavy&) = delete;
};
struct probe
{
	long x;			 // the number
	const heavy* in; // the object referred to
	bool ok;
};
static long nn[16];
static bool passed; // the callee saw what it should
static long fun(long t, long x, heavy& h, box b, const heavy& c, long& n)
{
	passed = b.v == x && h.v == 77 && c.v == 78 && &h != &c;
	h.v	   = 79; // the caller sees it
	return 1000 * t + 3 * x + n;
}
using sig = long(long, heavy&, box, const heavy&);
static long zero = 0;
static long f1(long x, heavy& h, box b, const heavy& c) { return fun(1, x, h, std::move(b), c, zero); }
static long f2(long x, heavy& h, box b, const heavy& c) { return fun(2, x, h, std::move(b), c, zero); }
static long f8(long x, heavy& h, box b, const heavy& c) { return fun(8, x, h, std::move(b), c, zero); }
static sig* volatile fp2 = f2;
static auto l3			 = [](long x, heavy& h, box b, const heavy& c) { return fun(3, x, h, std::move(b), c, zero); };
static long* refn		 = &nn[4];
static auto make4(long*& p)
{
	return [&p](long x, heavy& h, box b, const heavy& c) {
		long r = fun(4, x, h, std::move(b), c, *p);
		++*p;
		return r;
	};
}
static auto l4 = make4(refn);
struct pad
{
	long a[9];
};
static auto make5(pad q)
{
	return [q](long x, heavy& h, box b, const heavy& c) mutable {
		long r = fun(5, x, h, std::move(b), c, q.a[7]);
		q.a[7]++;
		return r;
	};
}
static auto l5 = make5(pad{});
struct functor
{
	long pre[3] = { 1, 2, 3 };
	long n		= 0;
	functor()	= default;
	static inline long copied;
	functor(const functor& f) : n{ f.n } { copied++; } // a view never copies its callable
	long operator()(long x, heavy& h, box b, const heavy& c)
	{
		long r = fun(6, x, h, std::move(b), c, n);
		n++;
		return r;
	}
	long operator()(long x, heavy& h, box b, const heavy& c) const
	{
		long k = n;
		return fun(7, x, h, std::move(b), c, k);
	}
};
static functor* s6;
struct stateless
{
	long operator()(long x, heavy& h, box b, const heavy& c) const { return fun(9, x, h, std::move(b), c, zero); }
};
static stateless s9;
struct thrower
{
	long n = 0;
	long operator()(long x, heavy& h, box b, const heavy& c)
	{
		if (x < 0)
		{
			passed = b.v == x && h.v == 77 && c.v == 78;
			h.v	   = 79;
			throw x;
		}
		long k = fun(10, x, h, std::move(b), c, n);
		n++;
		return k;
	}
};
static thrower* s10;
static auto l11 = [](long x, heavy& h, box b, const heavy& c) -> long { return fun(11, x, h, std::move(b), c, zero); };
struct calm
{
	long n = 0;
	long operator()(long x, heavy& h, box b, const heavy& c) noexcept
	{
		long r = fun(12, x, h, std::move(b), c, n);
		n++;
		return r;
	}
};
static calm* s12;
using view	= function_view<sig>;
static view* v[4];
struct tally
{
	long sum;
	void operator()(long x) noexcept { sum += x; }
};
// the other kinds of signature are bound beside: returning a reference, noexcept, nothing, const object
using rview = function_view<long&(long*)>;
using nview = function_view<long(long, heavy&, box, const heavy&) noexcept>;
static auto pick = [](long* p) -> long& { return *p; };

template <typename F>
static void calling(F&& f, long x, out& w)
{
	heavy h{ 77 }, c{ 78 };
	box b{ x };
	box::copies = box::moves = 0;
	passed		= false;
	functor::copied = 0;
	try
	{
		long r = f(x, h, b, c);
		w.push_back(0);
		w.push_back(r);
	}
	catch (long y)
	{
		w.push_back(1);
		w.push_back(y == x ? 0 : 1);
	}
	bool ok = passed && h.v == 79 && b.v == x && box::copies == 1 && functor::copied == 0;
	// moved along, never copied
	box::copies = box::moves = 0;
	w.push_back(ok);
}
static sig* via;
static long direct(long t, long x, heavy& h, box b, const heavy& c)
{
	switch (t)
	{
		case 4: return l4(x, h, std::move(b), c);
		case 5: return l5(x, h, std::move(b), c);
		case 6: return (*s6)(x, h, std::move(b), c);
		case 10: return (*s10)(x, h, std::move(b), c);
		default: return (*s12)(x, h, std::move(b), c);
	}
}
static void bind(view& d, long t)
{
	switch (t)
	{
		case 1: d = view{ f1 }; break;
		case 2:
		{
			sig* p = fp2;
			d	   = view{ p }; // the pointer itself may go away
			break;
		}
		case 3: d = view{ l3 }; break;
		case 4: d = view{ l4 }; break;
		case 5: d = view{ l5 }; break;
		case 6: d = view{ *s6 }; break;
		case 7: d = view{ static_cast<const functor&>(*s6) }; break;
		case 8: d = view{ &f8 }; break;
		case 9: d = view{ s9 }; break;
		case 10: d = view{ *s10 }; break;
		case 11: d = l11; break;
		default: d = view{ *s12 };
	}
}
void seq::reset()
{
	memset(nn, 0, sizeof nn);
	refn = &nn[4];
	delete s6;
	delete s10;
	delete s12;
	s6	= new functor;
	s10 = new thrower;
	s12 = new calm;
	using l5t = decltype(l5);
	l5.~l5t();
	new (&l5) auto(make5(pad{}));
	for (int i = 1; i < 4; i++)
	{
		delete v[i];
		v[i] = new view;
	}
}
void seq::apply(const op& o, out& w)
{
	if (o.name == "bind")
		bind(*v[o[0]], o[1]);
	else if (o.name == "copy")
	{
		view c{ *v[o[1]] };						// from an lvalue
		view d{ static_cast<const view&>(c) };	// from a const one
		view* e = new view{ std::move(d) };		// and from an rvalue
		c		= view{};
		d		= view{};
		delete v[o[0]];
		v[o[0]] = e;
	}
	else if (o.name == "assign")
		*v[o[0]] = *v[o[1]];
	else if (o.name == "null")
		*v[o[0]] = view{};
	else if (o.name == "direct")
		calling([&](long x, heavy& h, box b, const heavy& c) { return direct(o[0], x, h, std::move(b), c); }, o[1], w);
	else if (o.name == "call" || o.name == "callc")
	{
		view& t = *v[o[0]];
		if (!t)
			w = { 2, 0, 1 };
		else if (o.name == "call")
			calling(t, o[1], w);
		else
			calling(static_cast<const view&>(t), o[1], w);
		// a callable on the stack: what the call does to it is seen (the optimizer must know that the view reaches it)
		tally y{ o[1] };
		function_view<void(long)> yv{ y };
		yv(3);
		yv(4);
		if (y.sum != o[1] + 7)
			w[2] = 0;
		// reference results and noexcept signatures
		long z = 5;
		rview rv{ pick };
		if (&rv(&z) != &z)
			w[2] = 0;
		nview nv{ *s12 };
		heavy h{ 77 }, c{ 78 };
		long before = s12->n;
		if (!noexcept(nv(1L, h, box{ 1 }, c)) || nv(1L, h, box{ 1 }, c) != 12003 + before)
			w[2] = 0;
		s12->n = before;
	}
	for (int i = 1; i < 4; i++)
		w.push_back(static_cast<bool>(*v[i]));
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> q;
	long n = r.range(5, 25);
	const long st[] = { 4, 5, 6, 10, 12 };
	for (long i = 0; i < n; i++)
	{
		long a = 1 + r(3), b = 1 + r(3), x = r.range(-50, 50);
		switch (r(9))
		{
			case 0:
			case 1:
			case 2: q.push_back({ "bind", { a, 1 + r(12) } }); break;
			case 3: q.push_back({ r(2) ? "copy" : "assign", { a, b } }); break;
			case 4: q.push_back({ r(3) ? "direct" : "null", {} }); q.back().a = q.back().name == "null" ? std::vector<long>{ a } : std::vector<long>{ st[r(5)], x }; break;
			case 5: q.push_back({ "callc", { a, x } }); break;
			default: q.push_back({ "call", { a, x } });
		}
	}
	return q;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
