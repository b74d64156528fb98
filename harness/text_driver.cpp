#include "muu/core.h"
#include "muu/strings.h"
#include "text.h"
namespace
{
	muu::utf8_decoder* d8;
	muu::utf16_decoder* d16;
	int which = 7; // 1 decoding, 2 transcoding, 4 trimming
	template <typename C>
	void decode(const std::basic_string<C>& s, bool rev, long limit, seq::out& w)
	{
		long n = 0;
		auto f = [&](char32_t c, size_t start, size_t count) noexcept -> bool
		{
			w.push_back((long)c);
			w.push_back((long)start);
			w.push_back((long)count);
			return !(limit && ++n >= limit);
		};
		// the exact-size copy lets the sanitizer see reads past either end
		std::vector<C> v(s.begin(), s.end());
		muu::utf_decode(std::basic_string_view<C>(v.data(), v.size()), rev, f);
		// the other callback forms see the same code points
		if (!limit)
		{
			size_t k = 0;
			bool ok  = true;
			muu::utf_decode(std::basic_string_view<C>(v.data(), v.size()), rev,
							[&](char32_t c) noexcept
							{
								ok = ok && k < w.size() && w[k] == (long)c;
								k += 3;
							});
			if (!ok || k != w.size())
				w.push_back(-1);
			k = 0;
			muu::utf_decode(std::basic_string_view<C>(v.data(), v.size()), rev,
							[&](char32_t c, size_t st) noexcept
							{
								ok = ok && k < w.size() && w[k] == (long)c && w[k + 1] == (long)st;
								k += 3;
							});
			if (!ok || k != w.size())
				w.push_back(-2);
		}
	}
	template <typename A, typename B>
	void trans(const std::vector<long>& a, seq::out& w)
	{
		auto s = text::str<A>(a, 2);
		std::vector<A> v(s.begin(), s.end());
		auto r = muu::transcode<B>(std::basic_string_view<A>(v.data(), v.size()));
		text::put(w, r);
	}
	template <typename A>
	void trans_from(long to, const std::vector<long>& a, seq::out& w)
	{
		switch (to)
		{
			case 1: trans<A, char>(a, w); break;
			case 2: trans<A, wchar_t>(a, w); break;
			case 3: trans<A, char8_t>(a, w); break;
			case 4: trans<A, char16_t>(a, w); break;
			default: trans<A, char32_t>(a, w);
		}
	}
	template <typename A>
	void trim(long k, const std::vector<long>& a, seq::out& w)
	{
		auto s = text::str<A>(a, 2);
		std::vector<A> v(s.begin(), s.end());
		std::basic_string_view<A> sv(v.data(), v.size());
		auto r = k == 0 ? muu::trim(sv) : k == 1 ? muu::trim_left(sv) : muu::trim_right(sv);
		w.push_back(r.empty() ? 0 : r.data() - sv.data());
		w.push_back((long)r.size());
	}
	template <typename C>
	C swapped(C c)
	{
		unsigned char b[sizeof(C)];
		memcpy(b, &c, sizeof b);
		for (size_t i = 0; i < sizeof b / 2; i++)
			std::swap(b[i], b[sizeof b - 1 - i]);
		memcpy(&c, b, sizeof b);
		return c;
	}
}
void seq::reset()
{
	delete d8;
	delete d16;
	d8  = new muu::utf8_decoder{};
	d16 = new muu::utf16_decoder{};
}
void seq::finish(std::vector<std::pair<op, out>>&) {}
void seq::apply(const op& o, out& w)
{
	auto& n = o.name;
	if (n == "feed8")
	{
		if (d8->error())
			d8->clear_error();
		switch (o[0] % 3)
		{
			case 0: (*d8)((uint8_t)o[0]); break;
			case 1: (*d8)((char)o[0]); break;
			default: (*d8)((char8_t)o[0]);
		}
		w = { (long)d8->error(), (long)d8->has_value(), (long)d8->needs_more_input(), d8->has_value() ? (long)d8->value() : 0 };
	}
	else if (n == "feed16")
	{
		if (d16->error())
			d16->clear_error();
		if (o[0] & 1)
			(*d16)((uint16_t)o[0]);
		else
			(*d16)((char16_t)o[0]);
		w = { (long)d16->error(), (long)d16->has_value(), (long)d16->needs_more_input(), d16->has_value() ? (long)d16->value() : 0 };
	}
	else if (n == "dec" || n == "decsw") // decsw: the units are given in native order, the text is stored swapped
	{
		bool sw = n == "decsw";
		if (o[0] == 1)
		{
			if (o.a.size() % 2)
				decode(text::str<char>(o.a, 3), o[1], o[2], w);
			else
				decode(text::str<char8_t>(o.a, 3), o[1], o[2], w);
		}
		else if (o[0] == 2)
		{
			auto s = text::str<char16_t>(o.a, 3);
			if (sw)
				for (auto& c : s)
					c = swapped(c);
			decode(s, o[1], o[2], w);
		}
		else
		{
			auto s = text::str<char32_t>(o.a, 3);
			if (sw)
				for (auto& c : s)
					c = swapped(c);
			if (o.a.size() % 2)
				decode(s, o[1], o[2], w);
			else
				decode(std::wstring(s.begin(), s.end()), o[1], o[2], w);
		}
	}
	else if (n == "trans")
		switch (o[0])
		{
			case 1: trans_from<char>(o[1], o.a, w); break;
			case 2: trans_from<wchar_t>(o[1], o.a, w); break;
			case 3: trans_from<char8_t>(o[1], o.a, w); break;
			case 4: trans_from<char16_t>(o[1], o.a, w); break;
			default: trans_from<char32_t>(o[1], o.a, w);
		}
	else if (n == "trim")
		switch (o[1])
		{
			case 1: trim<char>(o[0], o.a, w); break;
			case 2: trim<wchar_t>(o[0], o.a, w); break;
			case 3: trim<char8_t>(o[0], o.a, w); break;
			case 4: trim<char16_t>(o[0], o.a, w); break;
			default: trim<char32_t>(o[0], o.a, w);
		}
}
namespace
{
	long byte(seq::rng& r)
	{
		static const long edge[] = { 0x00, 0x20, 0x41, 0x7F, 0x80, 0x85, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xC3, 0xDF, 0xE0,
									 0xE1, 0xE2, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF };
		return r(3) ? r.pick(edge) : r(256);
	}
	long unit16(seq::rng& r)
	{
		static const long edge[] = { 1, 0x20, 0x41, 0xFF, 0xD7FF, 0xD801, 0xD83D, 0xDBFF, 0xDC01, 0xDE01, 0xDFFF, 0xE001, 0xFFFD };
		return r(3) ? r.pick(edge) : r(65536) | 1;
	}
}
std::vector<seq::op> seq::random(rng& r)
{
	std::vector<op> v;
	for (long n = 2 + r(8); n > 0; n--)
	{
		int kind = (int)r(which == 1 ? 5 : 3);
		if (which == 7)
			kind = (int)r(7);
		if ((which & 1) && kind == 0)
		{
			for (long k = 1 + r(24); k > 0; k--)
				v.push_back({ "feed8", { byte(r) } });
			// whole code points too, so that long sequences are common
			auto u = text::units(text::points(r, 6, true, true), 1);
			for (long x : u)
				v.push_back({ "feed8", { x } });
			continue;
		}
		if ((which & 1) && kind == 1)
		{
			for (long k = 1 + r(16); k > 0; k--)
				v.push_back({ "feed16", { unit16(r) } });
			auto u = text::units(text::points(r, 6, true, true), 2);
			for (long x : u)
				v.push_back({ "feed16", { x } });
			continue;
		}
		static const int widths[] = { 0, 1, 4, 1, 2, 4 };
		long e                    = 1 + r(5);
		int w                     = widths[e];
		bool malformed = r(4) == 0, low0 = w != 2 || r(3) == 0;
		auto t = text::points(r, r(4) ? 10 : 40, true, low0);
		auto u = text::units(t, w);
		if (malformed && w != 4)
		{
			if (r(2))
				u.clear();
			for (long k = 1 + r(4); k > 0; k--)
				u.insert(u.begin() + r((long)u.size() + 1), w == 1 ? byte(r) : unit16(r));
			if (r(3) == 0 && !u.empty())
				u.erase(u.begin() + r((long)u.size()));
			if (r(3) == 0 && !u.empty())
				u.pop_back();
		}
		op o;
		if ((which == 1) || (which == 7 && kind < 4))
		{
			o = op{ "dec", { w, r(2), r(4) ? 0 : 1 + r(5) } };
			if (w != 1 && r(4) == 0 && !malformed)
			{
				o.name = "decsw";
				if (u.empty() || u[0] != 0xFEFF)
					u.insert(u.begin(), 0xFEFF);
			}
		}
		else if (which == 2 || (which == 7 && kind == 4))
			o = op{ "trans", { e, 1 + r(5) } };
		else
			o = op{ "trim", { r(3), e } };
		o.a.insert(o.a.end(), u.begin(), u.end());
		v.push_back(o);
	}
	return v;
}
int main(int argc, char** argv)
{
	if (const char* c = getenv("TEXT"))
		which = atoi(c);
	return seq::main_(argc, argv);
}
