// Driver of Uuid.tla.
#include "muu/core.h"
#include "muu/uuid.h"
#include "text.h"
#include <memory>
#include <sstream>
using seq::op;
using seq::out;
using muu::uuid;
static uuid r[2];
using u128 = unsigned __int128;
static uuid from(const long* b)
{
	uuid u{ nullptr };
	for (size_t k = 0; k < 16; k++)
		u.bytes.value[k] = static_cast<std::byte>(b[k]);
	return u;
}
static void put(out& w, uint64_t v, size_t n)
{
	for (size_t k = n; k-- > 0;)
		w.push_back((long)((v >> (8 * k)) & 255));
}
static void facts(out& w, const uuid& u)
{
	for (auto b : u.bytes.value)
		w.push_back((long)b);
	switch (u.variant())
	{
		case muu::uuid_variant::none: w.push_back(0); break;
		case muu::uuid_variant::standard: w.push_back(1); break;
		case muu::uuid_variant::reserved_ncs: w.push_back(2); break;
		case muu::uuid_variant::reserved_microsoft: w.push_back(3); break;
		case muu::uuid_variant::reserved_future: w.push_back(4); break;
		default: w.push_back(-1);
	}
	switch (u.version())
	{
		case muu::uuid_version::none: w.push_back(0); break;
		case muu::uuid_version::time: w.push_back(1); break;
		case muu::uuid_version::dce: w.push_back(2); break;
		case muu::uuid_version::name_md5: w.push_back(3); break;
		case muu::uuid_version::random: w.push_back(4); break;
		case muu::uuid_version::name_sha1: w.push_back(5); break;
		case muu::uuid_version::unknown: w.push_back(15); break;
		default: w.push_back(-1);
	}
	put(w, u.time_low(), 4);
	put(w, u.time_mid(), 2);
	put(w, u.time_high_and_version(), 2);
	put(w, u.clock_seq_high_and_reserved(), 1);
	put(w, u.clock_seq_low(), 1);
	put(w, u.node(), 8);
	w.push_back(static_cast<bool>(u));
	auto v = static_cast<u128>(u);
	put(w, (uint64_t)(v >> 64), 8);
	put(w, (uint64_t)v, 8);
}
template <typename C>
static std::optional<uuid> parse_as(const std::vector<long>& u)
{
	// exactly as large as needed, so that reading beyond is noticed
	std::unique_ptr<C[]> p{ new C[u.size()] };
	for (size_t i = 0; i < u.size(); i++)
		p[i] = (C)u[i];
	return uuid::parse(std::basic_string_view<C>{ p.get(), u.size() });
}
void seq::reset() { r[0] = r[1] = uuid{ nullptr }; }
void seq::apply(const op& o, out& w)
{
	auto i = (size_t)(o[0] - 1);
	out res;
	const long* a = o.a.data();
	if (o.name == "bytes")
		r[i] = from(a + 1);
	else if (o.name == "int")
	{
		u128 v = 0;
		for (size_t k = 0; k < 16; k++)
			v = (v << 8) | (u128)a[1 + k];
		r[i] = uuid{ v };
	}
	else if (o.name == "fields")
	{
		auto n = [&](size_t at, size_t len)
		{
			uint64_t v = 0;
			for (size_t k = 0; k < len; k++)
				v = (v << 8) | (uint64_t)a[2 + at + k];
			return v;
		};
		if (o[1] == 0)
			r[i] = uuid{ (uint32_t)n(0, 4), (uint16_t)n(4, 2), (uint16_t)n(6, 2), (uint8_t)n(8, 1), (uint8_t)n(9, 1), n(10, 8) };
		else
			r[i] = uuid{ (uint32_t)n(0, 4), (uint16_t)n(4, 2), (uint16_t)n(6, 2), (uint16_t)n(8, 2), n(10, 8) };
	}
	else if (o.name == "nil")
		r[i] = i ? uuid{ muu::constants<uuid>::nil } : uuid{ nullptr };
	else if (o.name == "copy")
		r[i] = r[o[1] - 1];
	else if (o.name == "named")
	{
		using c				= muu::constants<uuid>;
		const uuid* space[] = { &r[0], &r[1], &c::namespace_dns, &c::namespace_url, &c::namespace_oid, &c::namespace_x500 };
		std::vector<unsigned char> b(o.a.begin() + 3, o.a.end());
		const uuid& ns = *space[o[1] - 1];
		if (o[2] == 0)
			r[i] = uuid{ ns, (const void*)b.data(), b.size() };
		else if (o[2] == 1)
			r[i] = uuid{ ns, std::string_view{ (const char*)b.data(), b.size() } };
		else
			r[i] = uuid{ ns, std::u8string_view{ (const char8_t*)b.data(), b.size() } };
	}
	else if (o.name == "parse")
	{
		std::vector<long> u(o.a.begin() + 2, o.a.end());
		std::optional<uuid> p;
		switch (o[1])
		{
			case 1: p = parse_as<char>(u); break;
			case 2: p = parse_as<wchar_t>(u); break;
			case 3: p = parse_as<char8_t>(u); break;
			case 4: p = parse_as<char16_t>(u); break;
			case 5: p = parse_as<char32_t>(u); break;
		}
		res.push_back(p.has_value());
		if (p)
			r[i] = *p;
	}
	else if (o.name == "gen")
	{
		r[i] = uuid::generate();
		for (auto b : r[i].bytes.value)
			res.push_back((long)b);
		res.push_back(0);
	}
	else if (o.name == "print")
	{
		std::ostringstream s;
		s << r[i];
		std::wostringstream ws;
		ws << r[i];
		auto t	= s.str();
		auto wt = ws.str();
		for (size_t k = 0; k < 36; k++)
			res.push_back(k < t.size() ? (long)t[k] : -1);
		auto back = uuid::parse(t);
		res.push_back(t.size() == 36 && std::wstring(t.begin(), t.end()) == wt && back && *back == r[i]);
	}
	else if (o.name == "flip")
	{
		uuid q = r[i];
		q.bytes.value[o[1] / 8] ^= static_cast<std::byte>(1 << (o[1] % 8));
		res.push_back(std::hash<uuid>{}(q) == std::hash<uuid>{}(r[i]));
	}
	w.push_back(std::hash<uuid>{}(r[0]) == std::hash<uuid>{}(r[1]));
	w.insert(w.end(), res.begin(), res.end());
	facts(w, r[0]);
	facts(w, r[1]);
	w.push_back(r[0] == r[1]);
	w.push_back(r[0] != r[1]);
	w.push_back(r[0] < r[1]);
	w.push_back(r[0] <= r[1]);
	w.push_back(r[0] > r[1]);
	w.push_back(r[0] >= r[1]);
	auto c = uuid::compare(r[0], r[1]);
	w.push_back(c < 0 ? -1 : c > 0 ? 1 : 0);
}
static std::vector<long> some_bytes(seq::rng& r, size_t n)
{
	std::vector<long> b;
	long style = r(3);
	for (size_t k = 0; k < n; k++)
		b.push_back(style == 0 ? r(256) : style == 1 ? r(2) * 255 : (r(4) ? 0 : r(256)));
	return b;
}
static std::vector<long> uuid_text(seq::rng& r)
{
	std::vector<long> t;
	static const long blanks[] = { 32, 9, 10, 11, 12, 13 };
	auto blank				   = [&]
	{
		while (r(8) == 0)
			t.push_back(r.pick(blanks));
	};
	bool br	   = r(3) == 0, mixed = r(2);
	bool sep[17] = {};
	if (r(2))
		sep[4] = sep[6] = sep[8] = sep[10] = true;
	else if (r(2))
		for (auto& s : sep)
			s = r(4) == 0;
	blank();
	if (br)
		t.push_back('{');
	blank();
	for (int k = 0; k < 16; k++)
	{
		if (k && sep[k])
			t.push_back(r(6) ? 45 : r.pick(blanks));
		for (int j = 0; j < 2; j++)
		{
			long d = r(16);
			t.push_back(d < 10 ? 48 + d : (mixed && r(2) ? 87 : 55) + d);
		}
	}
	blank();
	if (br)
		t.push_back('}');
	blank();
	// one or two mistakes
	for (long m = r(3); m > 0; m--)
	{
		static const long junk[] = { 45, 32, 9, 123, 125, 47, 58, 64, 71, 96, 103, 0, 127, 128, 255, 304, 0x661, 0xFF11, 0x1F600, 48, 65, 8, 14, 0x2010, 0xA0, 0x85 };
		size_t at				 = (size_t)r((long)t.size());
		switch (r(3))
		{
			case 0: t[at] = r.pick(junk); break;
			case 1: t.insert(t.begin() + (long)at, r.pick(junk)); break;
			default: t.erase(t.begin() + (long)at);
		}
	}
	if (r(10) == 0)
		t.insert(t.begin(), 0xFEFF);
	return t;
}
std::vector<op> seq::random(rng& r)
{
	std::vector<op> ops;
	for (long i = 0, n = 4 + r(5); i < n; i++)
	{
		long x = 1 + r(2);
		auto with = [&](const char* name, std::vector<long> a, const std::vector<long>& b)
		{
			a.insert(a.end(), b.begin(), b.end());
			ops.push_back({ name, a });
		};
		switch (r(12))
		{
			case 0: with("bytes", { x }, some_bytes(r, 16)); break;
			case 1: with("int", { x }, some_bytes(r, 16)); break;
			case 2: with("fields", { x, r(2) }, some_bytes(r, 18)); break;
			case 3: ops.push_back({ "copy", { x, 3 - x } }); break;
			case 4: ops.push_back({ r(2) ? "gen" : "nil", { x } }); break;
			case 5: with("named", { x, 1 + r(6), r(3) }, some_bytes(r, (size_t)r(r(4) ? 12 : 130))); break;
			case 6: ops.push_back({ "print", { x } }); break;
			case 7: ops.push_back({ "flip", { x, r(128) } }); break;
			default:
			{
				long enc = 1 + r(5);
				std::vector<long> u;
				for (long c : uuid_text(r))
					text::enc(u, c, enc == 4 ? 2 : enc == 1 || enc == 3 ? 1 : 4);
				if (enc != 2 && enc != 5 && r(8) == 0 && !u.empty())
					u[(size_t)r((long)u.size())] = r(enc == 4 ? 65536 : 256);
				with("parse", { x, enc }, u);
			}
		}
	}
	return ops;
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
SEQ_MAIN()
