// Driver of Hash.tla.
#include "muu/core.h"
#include "muu/hashing.h"
#include "text.h"
#include <memory>
#include <sstream>
using seq::op;
using seq::out;
using namespace muu;
struct base
{
	virtual ~base() = default;
	virtual void apply(const op&, out&) = 0;
};
template <typename H>
static bool printed(const H& h, const std::vector<unsigned char>& v)
{
	std::ostringstream s;
	s << h;
	std::string want;
	for (auto b : v)
	{
		want += "0123456789abcdef"[b >> 4];
		want += "0123456789abcdef"[b & 15];
	}
	return s.str() == want;
}
template <typename H>
static void feed(H& h, const op& o)
{
	if (o.name == "bytes")
	{
		std::vector<unsigned char> b(o.a.begin() + 2, o.a.end());
		// exactly as large as needed, so that reading beyond is noticed
		switch (o[1])
		{
			case 0: h(b.data(), b.size()); break;
			case 1:
				for (auto x : b)
					h(static_cast<uint8_t>(x));
				break;
			case 2:
				for (auto x : b)
					h(static_cast<std::byte>(x));
				break;
			case 3: h(std::string_view{ reinterpret_cast<const char*>(b.data()), b.size() }); break;
			default: h(std::u8string_view{ reinterpret_cast<const char8_t*>(b.data()), b.size() }); break;
		}
	}
	else if (o.name == "text")
	{
		std::vector<long> u(o.a.begin() + 2, o.a.end());
		auto units = [&](auto c)
		{
			using C = decltype(c);
			std::vector<C> v(u.begin(), u.end());
			h(std::basic_string_view<C>{ v.data(), v.size() });
		};
		o[1] == 4 ? units(char16_t{}) : o[1] == 5 ? units(char32_t{}) : units(wchar_t{});
	}
	else if (o.name == "fill")
	{
		std::vector<unsigned char> b;
		for (long k = 1; k <= o[1]; k++)
			b.push_back((unsigned char)(o[2] + k * o[3]));
		for (size_t i = 0; i < b.size(); i += (size_t)o[4])
		{
			std::vector<unsigned char> part(b.begin() + (long)i, b.begin() + (long)std::min(b.size(), i + (size_t)o[4]));
			h(part.data(), part.size());
		}
	}
}
struct sha_machine : base
{
	sha1 r[2];
	bool done[2]{};
	void apply(const op& o, out& w) override
	{
		auto i = (size_t)(o[0] - 1);
		if (o.name == "new")
			r[i] = sha1{}, done[i] = false;
		else if (o.name == "copy")
			r[i] = r[o[1] - 1], done[i] = done[o[1] - 1];
		else if (o.name == "finish")
			r[i].finish(), done[i] = true;
		else if (o.name != "kind")
			feed(r[i], o);
		for (size_t k = 0; k < 2; k++)
			if (done[k])
			{
				std::vector<unsigned char> v;
				for (auto b : r[k].value().value)
					v.push_back((unsigned char)b);
				for (auto b : v)
					w.push_back(b);
				w.push_back(printed(r[k], v));
			}
	}
};
template <typename V>
static std::vector<unsigned char> bytes_of(V x)
{
	std::vector<unsigned char> v;
	for (size_t k = sizeof(V); k-- > 0;)
		v.push_back((unsigned char)(x >> (8 * k)));
	return v;
}
template <size_t Bits>
struct fnv_machine : base
{
	fnv1a<Bits> r[2];
	void apply(const op& o, out& w) override
	{
		auto i = (size_t)(o[0] - 1);
		if (o.name == "new")
			r[i] = fnv1a<Bits>{};
		else if (o.name == "copy")
			r[i] = r[o[1] - 1];
		else if (o.name != "kind")
			feed(r[i], o);
		for (auto& h : r)
		{
			auto v = bytes_of(h.value());
			for (auto b : v)
				w.push_back(b);
			w.push_back(printed(h, v));
		}
	}
};
template <size_t Bits>
struct comb_machine : base
{
	using V = typename hash_combiner<Bits>::hash_type;
	hash_combiner<Bits> r[2]{ V{}, V{} };
	void apply(const op& o, out& w) override
	{
		V x{};
		for (size_t k = sizeof(V); k-- > 0;)
			x = (V)((V)(x << (sizeof(V) > 1 ? 8 : 0)) | (V)o[1 + k]);
		if (o.name == "seed")
			r[o[0] - 1] = hash_combiner<Bits>{ x };
		else if (o.name == "comb")
		{
			auto& h = r[o[0] - 1](x);
			if (&h != &r[o[0] - 1])
				w.push_back(-1);
		}
		for (auto& h : r)
		{
			for (auto b : bytes_of(h.value()))
				w.push_back(b);
			w.push_back(1);
		}
	}
};
static std::unique_ptr<base> m;
static base* make(long k)
{
	switch (k)
	{
		case 1: return new fnv_machine<32>;
		case 2: return new fnv_machine<64>;
		case 3: return new fnv_machine<128>;
		case 4: return new comb_machine<16>;
		case 5: return new comb_machine<32>;
		case 6: return new comb_machine<64>;
		case 7: return new comb_machine<128>;
		default: return new sha_machine;
	}
}
// constant expressions agree with the known values
static_assert(fnv1a<32>{}.value() == 0x811C9DC5u);
static_assert(fnv1a<32>{}(std::string_view{ "foobar" }).value() == 0xbf9cf968u);
static_assert(fnv1a<64>{}(std::u16string_view{ u"foobar" }).value() == 0x85944171f73967e8ull);
void seq::reset() { m.reset(make(0)); }
void seq::apply(const op& o, out& w)
{
	if (o.name == "kind")
		m.reset(make(o[0]));
	m->apply(o, w);
}
std::vector<op> seq::random(rng& r)
{
	static const long only = getenv("HASH") ? atol(getenv("HASH")) : 0; // 1: sha1, 2: the others
	std::vector<op> ops;
	long k = only == 1 ? 0 : only == 2 ? 1 + r(7) : r(8);
	static const size_t sizes[] = { 20, 4, 8, 16, 2, 4, 8, 16 };
	ops.push_back({ "kind", { k } });
	long total = 0;
	for (long i = 0, n = 3 + r(8); i < n; i++)
	{
		long x = 1 + r(2);
		if (k > 3)
		{
			op o(r(4) ? "comb" : "seed", { x });
			long style = r(3);
			for (size_t j = 0; j < sizes[k]; j++)
				o.a.push_back(style == 0 ? r(256) : style == 1 ? 255 * r(2) : (r(3) ? 0 : r(256)));
			ops.push_back(o);
			continue;
		}
		switch (r(k == 0 ? 9 : 6))
		{
			case 0: ops.push_back({ "copy", { x, 3 - x } }); break;
			case 1: ops.push_back({ "new", { x } }); break;
			case 2:
			case 3:
			{
				op o("bytes", { x, r(5) });
				for (long j = r(12); j > 0; j--)
					o.a.push_back(r(256));
				ops.push_back(o);
				break;
			}
			case 4:
			{
				static const long encs[] = { 2, 4, 5 };
				op o("text", { x, r.pick(encs) });
				auto t = text::points(r, 8, true);
				std::vector<long> u;
				for (long c : t)
					text::enc(u, c, o[1] == 4 ? 2 : 4);
				o.a.insert(o.a.end(), u.begin(), u.end());
				ops.push_back(o);
				break;
			}
			case 5:
			case 6:
			{
				if (total > 600)
					break;
				static const long lens[] = { 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 121, 127, 128, 129 };
				long len				 = k ? r(40) : r(2) ? r.pick(lens) : r(200);
				total += len;
				ops.push_back({ "fill", { x, len, r(256), r(256), r(3) ? 1 + r(70) : 1000 } });
				break;
			}
			default: ops.push_back({ "finish", { x } });
		}
	}
	if (k == 0)
		ops.push_back({ "finish", { 1 } }), ops.push_back({ "finish", { 2 } });
	return ops;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
