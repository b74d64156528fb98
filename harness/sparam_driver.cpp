#include "muu/core.h"
#include "muu/string_param.h"
#include "text.h"
#include <list>
#include <memory>
#include <optional>
using muu::string_param;
namespace
{
	std::optional<string_param> p[4];
	size_t mem;
	struct any
	{
		virtual ~any() = default;
	};
	template <typename S>
	struct kept : any
	{
		S s;
		kept(S x) : s(std::move(x)) {}
	};
	std::list<std::unique_ptr<any>> keep; // the strings that are viewed, alive until the end
	template <typename C>
	struct viewish
	{
		std::basic_string_view<C> v;
		operator std::basic_string_view<C>() const noexcept { return v; }
	};
	template <typename C>
	void init(long i, long how, const std::vector<long>& a)
	{
		auto s = text::str<C>(a, 3);
		if (how == 4)
		{
			p[i].emplace(std::move(s));
			return;
		}
		auto k    = std::make_unique<kept<std::basic_string<C>>>(std::move(s));
		auto& str = k->s;
		keep.push_back(std::move(k));
		switch (how)
		{
			case 0: p[i].emplace(std::basic_string_view<C>(str)); break;
			case 1: p[i].emplace(str.data(), str.size()); break;
			case 2: p[i].emplace(str.c_str()); break;
			case 3: p[i].emplace(std::as_const(str)); break;
			case 5: p[i].emplace(viewish<C>{ str }); break;
			case 6: p[i].emplace((const C*)nullptr); break; // only with no text
			case 7: p[i].emplace((const C*)nullptr, (size_t)0); break;
			case 8: p[i].emplace(std::basic_string_view<C>()); break;
			default: p[i].emplace();
		}
	}
	template <typename C>
	void view(long i, seq::out& w)
	{
		const string_param& c = *p[i];
		std::basic_string_view<C> v = c;
		w.push_back((long)v.size());
		text::put(w, v);
		std::basic_string_view<C> v2 = c; // a second conversion gives the same text
		if (v2 != v)
			w.push_back(-1);
	}
	template <typename C>
	void take(long i, seq::out& w)
	{
		std::basic_string<C> v = std::move(*p[i]);
		w.push_back((long)v.size());
		text::put(w, v);
	}
}
void seq::reset()
{
	keep.clear();
	for (auto& x : p)
		x.reset();
	mem = seq::live_bytes();
	for (auto& x : p)
		x.emplace();
}
void seq::finish(std::vector<std::pair<op, out>>& t)
{
	for (auto& x : p)
		x.reset();
	keep.clear();
	t.push_back({ op("fin"), { (long)seq::live_bytes() - (long)mem } });
}
void seq::apply(const op& o, out& w)
{
	auto& n = o.name;
	if (n == "init")
		switch (o[1])
		{
			case 1: init<char>(o[0], o[2], o.a); break;
			case 2: init<wchar_t>(o[0], o[2], o.a); break;
			case 3: init<char8_t>(o[0], o[2], o.a); break;
			case 4: init<char16_t>(o[0], o[2], o.a); break;
			default: init<char32_t>(o[0], o[2], o.a);
		}
	if (n == "mctor")
		p[o[0]].emplace(std::move(*p[o[1]]));
	if (n == "massign")
		*p[o[0]] = std::move(*p[o[1]]);
	if (n == "trim")
	{
		if (&p[o[0]]->trim() != &*p[o[0]])
			w.push_back(-1);
	}
	if (n == "view" || n == "take")
	{
		bool v = n == "view";
		switch (o[1])
		{
			case 1: v ? view<char>(o[0], w) : take<char>(o[0], w); break;
			case 2: v ? view<wchar_t>(o[0], w) : take<wchar_t>(o[0], w); break;
			case 3: v ? view<char8_t>(o[0], w) : take<char8_t>(o[0], w); break;
			case 4: v ? view<char16_t>(o[0], w) : take<char16_t>(o[0], w); break;
			default: v ? view<char32_t>(o[0], w) : take<char32_t>(o[0], w);
		}
	}
	else
		w.push_back(0);
	for (int i = 1; i <= 3; i++)
	{
		w.push_back(p[i]->empty());
		w.push_back(static_cast<bool>(*p[i]));
		w.push_back(p[i]->owning());
	}
}
std::vector<seq::op> seq::random(rng& r)
{
	std::vector<op> v;
	for (long n = 3 + r(25); n > 0; n--)
	{
		long i = 1 + r(3), j = 1 + r(3), e = 1 + r(5);
		switch (r(8))
		{
			case 0:
			case 1:
			{
				long how = r(6);
				auto t   = text::points(r, how == 4 ? 30 : 12);
				int w    = e == 4 ? 2 : (e == 1 || e == 3) ? 1 : 4;
				if (r(10) == 0)
					how = 6 + r(4), t.clear();
				op o{ "init", { i, e, how } };
				for (long u : text::units(t, w))
					o.a.push_back(u);
				v.push_back(o);
				break;
			}
			case 2: if (i != j) v.push_back({ "mctor", { i, j } }); break;
			case 3: v.push_back({ "massign", { i, j } }); break;
			case 4: v.push_back({ "trim", { i } }); break;
			case 5: v.push_back({ "take", { i, e } }); break;
			default: v.push_back({ "view", { i, e } });
		}
	}
	return v;
}
SEQ_MAIN()
