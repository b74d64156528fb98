#include "muu/core.h"
#include "muu/blob.h"
#include "seq.h"
#include <memory>
#include <optional>
using muu::blob;
namespace
{
	std::optional<blob> b[4];
	size_t base;
	unsigned char buf[8192];
	int pat(long p, long k) { return (int)((p * 31 + k * 7 + (k / 256) * 13) % 251); }
	const void* source(long p, long n)
	{
		for (long k = 0; k < n; k++)
			buf[k] = (unsigned char)pat(p, k);
		return buf;
	}
}
void seq::reset()
{
	for (auto& x : b)
		x.reset();
	base = seq::live_bytes();
	for (auto& x : b)
		x.emplace();
}
void seq::finish(std::vector<std::pair<op, out>>& t)
{
	for (auto& x : b)
		x.reset();
	long leak = (long)seq::live_bytes() - (long)base;
	t.push_back({ op("fin"), { leak } });
}
void seq::apply(const op& o, out& w)
{
	auto& x  = b[o[0]];
	auto& n  = o.name;
	if (n == "new")
	{
		blob tmp = o[2] < 0 ? blob{ (size_t)o[1], nullptr, (size_t)o[3] } : blob{ (size_t)o[1], source(o[2], o[1]), (size_t)o[3] };
		x.reset();
		x.emplace(std::move(tmp));
	}
	else if (n == "copy")
	{
		blob tmp{ *b[o[1]] };
		x.emplace(std::move(tmp));
	}
	else if (n == "copyal")
	{
		blob tmp{ *b[o[1]], (size_t)o[2] };
		x.emplace(std::move(tmp));
	}
	else if (n == "move")
		x.emplace(std::move(*b[o[1]]));
	else if (n == "assign")
		x->assign((size_t)o[1], source(o[2], o[1]), (size_t)o[3]);
	else if (n == "assign0")
		x->assign((size_t)o[1], nullptr, (size_t)o[2]);
	else if (n == "alias")
		x->assign((size_t)o[2], x->data() + o[1], (size_t)o[3]);
	else if (n == "cassign")
		*x = *b[o[1]];
	else if (n == "massign")
		*x = std::move(*b[o[1]]);
	else if (n == "resize")
		x->resize((size_t)o[1]);
	else if (n == "write")
		x->data()[o[1]] = (std::byte)pat(o[2], 0);
	for (int i = 1; i <= 3; i++)
	{
		const blob& c = *b[i];
		long sz = (long)c.size();
		std::vector<long> pos;
		if (sz <= 12)
			for (long k = 0; k < sz; k++)
				pos.push_back(k);
		else
			pos = { 0, 1, 7, 8, sz / 2, sz - 9, sz - 8, sz - 2, sz - 1 };
		w.push_back((long)pos.size());
		w.push_back(sz);
		w.push_back((long)c.alignment());
		auto p = (uintptr_t) static_cast<const void*>(c.data());
		w.push_back(p == 0);
		w.push_back(c.alignment() && p % c.alignment() == 0);
		w.push_back(static_cast<bool>(c));
		for (long k : pos)
			w.push_back((long)((const unsigned char*)c.data())[k]);
	}
}
std::vector<seq::op> seq::random(rng& r)
{
	static const long sizes[] = { 0, 0, 1, 2, 3, 5, 8, 12, 13, 64, 100, 2047, 2048, 2049, 3000 };
	static const long als[]   = { 0, 0, 0, 1, 8, 16, 32, 64, 128, 256, 1024 };
	std::vector<op> v;
	long sz[4] = {};
	int n      = 3 + (int)r(25);
	for (int k = 0; k < n; k++)
	{
		long i = 1 + r(3), j = 1 + r(3), z = r.pick(sizes), a = r.pick(als), p = r(7);
		switch (r(12))
		{
			case 0: v.push_back({ "new", { i, z, p, a } }); sz[i] = z; break;
			case 1: v.push_back({ "new", { i, z, -1, a } }); sz[i] = z; break;
			case 2: if (i != j) { v.push_back({ "copy", { i, j } }); sz[i] = sz[j]; } break;
			case 3: if (i != j) { v.push_back({ "copyal", { i, j, a } }); sz[i] = sz[j]; } break;
			case 4: if (i != j) { v.push_back({ "move", { i, j } }); sz[i] = sz[j]; sz[j] = 0; } break;
			case 5: v.push_back({ "assign", { i, z, p, a } }); sz[i] = z; break;
			case 6: if (sz[i]) { long o = r(sz[i]), m = r(sz[i] - o + 1); v.push_back({ "alias", { i, o, m, a } }); sz[i] = m; } break;
			case 7: v.push_back({ "cassign", { i, j } }); sz[i] = sz[j]; break;
			case 8: v.push_back({ "massign", { i, j } }); if (i != j) { sz[i] = sz[j]; sz[j] = 0; } break;
			case 9: v.push_back({ "resize", { i, z } }); sz[i] = z; break;
			case 10: if (sz[i]) v.push_back({ "write", { i, r(sz[i]), p } }); break;
			default: if (r(4) == 0) { v.push_back({ "assign0", { i, z, a } }); sz[i] = z; }
		}
	}
	return v;
}
SEQ_MAIN()
