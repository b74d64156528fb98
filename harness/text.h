// encoding of texts for the drivers, independent of muu
#pragma once
#include "seq.h"
namespace text
{
	inline void enc(std::vector<long>& o, long c, int w)
	{
		if (w == 4 || (w == 2 && c < 65536) || c < 128)
			o.push_back(c);
		else if (w == 2)
			o.push_back(0xD800 + ((c - 65536) >> 10)), o.push_back(0xDC00 + ((c - 65536) & 1023));
		else if (c < 2048)
			o.push_back(0xC0 | (c >> 6)), o.push_back(0x80 | (c & 63));
		else if (c < 65536)
			o.push_back(0xE0 | (c >> 12)), o.push_back(0x80 | ((c >> 6) & 63)), o.push_back(0x80 | (c & 63));
		else
			o.push_back(0xF0 | (c >> 18)), o.push_back(0x80 | ((c >> 12) & 63)), o.push_back(0x80 | ((c >> 6) & 63)), o.push_back(0x80 | (c & 63));
	}
	inline long space(seq::rng& r)
	{
		static const long v[] = { 9, 10, 11, 12, 13, 32, 32, 133, 160, 5760, 8192, 8195, 8202, 8232, 8233, 8239, 8287, 12288 };
		return r.pick(v);
	}
	inline long other(seq::rng& r)
	{
		static const long edge[] = { 1,      8,      14,     31,     33,     127,    128,    132,    134,    159,    161,    2047,    2048,    5759,
									 5761,   8191,   8203,   8231,   8234,   12287,  12289,  0xD7FF, 0xE000, 0xFEFE, 0xFFFD, 0xFFFF,  0x10000, 0x10FFFF,
									 0x4E2D, 0x6587, 0x3042, 0xFDD1, 0x103FF, 0x10401, 0x1F600, 0x10FC00, 0xFFFFE };
		switch (r(5))
		{
			case 0: return r.pick(edge);
			case 1: return 0x80 + r(0x780);
			case 2: return 0x800 + r(0xD000);
			case 3: return 0x10000 + r(0x100000);
			default: return 33 + r(94);
		}
	}
	// texts with units like 0x2000 can be taken for byte-swapped when they have no byte order mark: only where asked for
	inline std::vector<long> points_(seq::rng& r, int maxlen, bool nul)
	{
		std::vector<long> t;
		int mode = (int)r(4);
		if (r(12) == 0)
			t.push_back(0xFEFF);
		for (long n = r(3) * r(3); n > 0; n--)
			t.push_back(space(r));
		for (long n = r(maxlen); n > 0; n--)
			t.push_back(r(6) == 0 ? space(r) : (nul && r(8) == 0) ? 0 : mode == 0 ? 33 + r(94) : other(r));
		for (long n = r(3) * r(3); n > 0; n--)
			t.push_back(space(r));
		return t;
	}
	inline std::vector<long> points(seq::rng& r, int maxlen, bool nul = false, bool low0 = false)
	{
		auto t = points_(r, maxlen, nul);
		if (!low0)
		{
			std::vector<long> o;
			for (long c : t)
			{
				std::vector<long> u;
				enc(u, c, 2);
				bool bad = false;
				for (long x : u)
					bad |= x && !(x & 255);
				if (!bad)
					o.push_back(c);
			}
			t = o;
		}
		return t;
	}
	inline std::vector<long> units(const std::vector<long>& cps, int w)
	{
		std::vector<long> o;
		for (long c : cps)
			enc(o, c, w);
		return o;
	}
	template <typename C>
	std::basic_string<C> str(const std::vector<long>& a, size_t from = 0)
	{
		std::basic_string<C> s;
		for (size_t i = from; i < a.size(); i++)
			s += (C)a[i];
		return s;
	}
	template <typename S>
	void put(seq::out& w, const S& s)
	{
		using C = typename S::value_type;
		for (auto c : s)
			w.push_back(sizeof(C) == 1 ? (long)(unsigned char)c : (long)(uint32_t)c);
	}
}
