#include "muu/core.h"
#include "muu/scope_guard.h"
#include "seq.h"
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
namespace
{
	seq::out* log_;
	std::vector<long> spare;
	void did(long x) { (log_ ? *log_ : spare).push_back(x); }
	std::map<long, std::function<std::pair<bool, bool>()>> live; // dismiss the guard; dismissed() before and after

	// hand-over of tokens to the interpreter, which runs the program on a thread of its own
	std::mutex m;
	std::condition_variable cv;
	const seq::op* token;
	bool quit, idle;
	const seq::op* next()
	{
		std::unique_lock l(m);
		token = nullptr;
		idle  = true;
		cv.notify_all();
		cv.wait(l, [] { return token || quit; });
		idle = false;
		return quit ? nullptr : token;
	}
	long n;
	void block();
	struct xc
	{
		long v;
	};

	long global_id; // for the callables without state
	template <template <typename> typename G>
	struct maker
	{
		template <typename F>
		static void with(F&& f, long id)
		{
			muu::scope_guard clean{ [=]() noexcept { live.erase(id); } };
			muu::scope_guard keep{ [=]() noexcept {} };
			G g{ static_cast<F&&>(f) };
			live[id] = [&]() noexcept
			{
				bool b = g.dismissed();
				g.dismiss();
				return std::make_pair(b, g.dismissed());
			};
			block();
		}
		static inline std::vector<long> ids; // LIFO of the ids of guards with stateless callables
		static void stateless() noexcept { did(100 + global_id); }
		static void run(long id, long c)
		{
			switch (c)
			{
				case 0: with([id]() noexcept { did(100 + id); }, id); break;
				case 1:
				{
					auto f = [id]() noexcept { did(100 + id); };
					with(f, id); // refers to f
					break;
				}
				case 2:
				{
					struct big
					{
						long id;
						std::unique_ptr<long> p;
						void operator()() noexcept { did(100 + *p); }
					};
					with(big{ id, std::make_unique<long>(id) }, id);
					break;
				}
				case 3:
				{
					const auto f = [id, s = std::string(40, 'x')]() noexcept { did(100 + id + (s.size() != 40)); };
					with(std::cref(f).get(), id);
					break;
				}
				default:
				{
					static thread_local std::vector<long> stack;
					struct empty // no state: the guard recreates it
					{
						void operator()() const noexcept { did(100 + stack.back()); }
					};
					struct pop
					{
						~pop() { stack.pop_back(); }
					};
					stack.push_back(id);
					pop p;
					with(empty{}, id);
				}
			}
		}
	};
	struct deferred
	{
		long id;
		bool throws;
		~deferred()
		{
			try
			{
				muu::scope_guard a{ [this]() noexcept { did(1000 + id * 10); } };
				muu::scope_fail b{ [this]() noexcept { did(1000 + id * 10 + 1); } };
				muu::scope_success c{ [this]() noexcept { did(1000 + id * 10 + 2); } };
				if (throws)
					throw 7;
			}
			catch (int)
			{}
		}
	};
	bool ended; // the block in progress has ended normally
	void block()
	{
		while (!ended)
		{
			auto o = next();
			if (!o)
			{
				ended = true;
				return;
			}
			auto& k = o->name;
			if (k == "guard")
			{
				long id = n++;
				long c  = (*o)[1];
				switch ((*o)[0])
				{
					case 0: maker<muu::scope_guard>::run(id, c); break;
					case 1: maker<muu::scope_fail>::run(id, c); break;
					default: maker<muu::scope_success>::run(id, c);
				}
				return; // the rest of the block ran inside
			}
			else if (k == "defer")
			{
				deferred d{ n++, (*o)[0] == 1 };
				block();
				return;
			}
			else if (k == "dismiss")
			{
				auto r = live.at((*o)[0])();
				did(10 + r.first), did(10 + r.second);
			}
			else if (k == "block")
			{
				block();
				if (!quit)
					ended = false;
			}
			else if (k == "try")
			{
				try
				{
					block();
				}
				catch (xc&)
				{
					did(1);
				}
				if (!quit)
					ended = false;
			}
			else if (k == "end")
				ended = true;
			else if (k == "throw")
				throw xc{ 1 };
		}
	}
	void program()
	{
		while (!quit)
		{
			ended = false;
			try
			{
				block();
			}
			catch (xc&)
			{
				did(1);
			}
		}
		std::unique_lock l(m);
		idle = true;
		cv.notify_all();
	}
	std::unique_ptr<std::thread> th;
	size_t mem;
	void stop()
	{
		if (th)
		{
			{
				std::unique_lock l(m);
				quit = true;
				cv.notify_all();
			}
			th->join();
			th.reset();
		}
		spare = {};
	}
}
void seq::reset()
{
	log_ = nullptr;
	stop();
	quit = idle = false;
	token       = nullptr;
	n           = 0;
	th          = std::make_unique<std::thread>(program);
	std::unique_lock l(m);
	cv.wait(l, [] { return idle; });
	mem = seq::live_bytes();
}
void seq::finish(std::vector<std::pair<op, out>>& t)
{
	log_ = nullptr;
	stop();
	live.clear();
	t.push_back({ op("fin"), { 0 } });
}
void seq::apply(const op& o, out& w)
{
	std::unique_lock l(m);
	log_  = &w;
	token = &o;
	idle  = false;
	cv.notify_all();
	cv.wait(l, [] { return idle; });
	log_ = nullptr;
}
std::vector<seq::op> seq::random(rng& r)
{
	std::vector<op> v;
	long id = 0;
	struct sc
	{
		bool tr;
		std::vector<long> g;
	};
	std::vector<sc> s{ { true, {} } };
	for (long k = 3 + r(40); k > 0; k--)
		switch (r(9))
		{
			case 0:
			case 1:
			case 2: v.push_back({ "guard", { r(3), r(5) } }), s.back().g.push_back(id++); break;
			case 3: v.push_back({ "defer", { r(2) } }), id++; break;
			case 4:
			{
				std::vector<long> all;
				for (auto& x : s)
					all.insert(all.end(), x.g.begin(), x.g.end());
				if (!all.empty())
					v.push_back({ "dismiss", { all[(size_t)r((long)all.size())] } });
				break;
			}
			case 5: v.push_back({ "block" }), s.push_back({ false, {} }); break;
			case 6: v.push_back({ "try" }), s.push_back({ true, {} }); break;
			case 7:
				v.push_back({ "end" }), s.pop_back();
				if (s.empty())
					s.push_back({ true, {} });
				break;
			default:
				v.push_back({ "throw" });
				while (!s.back().tr)
					s.pop_back();
				s.pop_back();
				if (s.empty())
					s.push_back({ true, {} });
		}
	return v;
}
SEQ_MAIN()
