// Drives muu::thread_pool under the controlled scheduler and logs API-level events.
#include "muu/thread_pool.h"
#include "vlog.h"
#include "vsched.h"
#include <array>
#include <atomic>
#include <cstring>
#include <list>
#include <memory>
#include <new>
#include <string>
#include <system_error>
#include <thread>
#include <vector>

namespace
{
	constexpr int MAXID = 256;
	int g_in[MAXID];     // written by the enqueuer before enqueue(), read by the task
	int g_out[MAXID];    // written by the task, read after wait()
	int g_yield[MAXID];  // scheduling points inside the task
	int g_gate[MAXID];   // 1: the task spins until g_open
	std::atomic<int> g_open{ 0 };
	int g_batch_scratch[16][64]; // per-batch scratch, written plainly by for_each callables

	struct rng
	{
		unsigned long s;
		VNS unsigned long operator()(unsigned long n)
		{
			s += 0x9E3779B97F4A7C15ull;
			unsigned long z = s;
			z               = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
			z               = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
			z ^= z >> 31;
			return z % n;
		}
	};

	void run_task(int id, size_t w) noexcept
	{
		vlog("start", "t", id, "w", (long)(w > 1000 ? 1000 : w));
		int v = g_in[id];
		for (int i = 0; i < g_yield[id]; i++)
			vs_point();
		while (g_gate[id] && !g_open.load())
			vs_point();
		g_out[id] = v + 1;
		vlog("end", "t", id);
	}

	// nontrivial, movable: reports the destruction of every owning copy that lives inside the pool
	constexpr unsigned MAGIC = 0x5eed1234;
	struct tracked
	{
		unsigned magic;
		int id;
		bool owner;
		bool origin;
		tracked(int i) noexcept : magic{ MAGIC }, id{ i }, owner{ true }, origin{ true } {}
		tracked(const tracked& o) noexcept : magic{ o.magic }, id{ o.id }, owner{ o.owner }, origin{ false }
		{
			check(o);
			if (owner)
				vlog("born", "t", id);
		}
		tracked(tracked&& o) noexcept : magic{ o.magic }, id{ o.id }, owner{ o.owner }, origin{ false }
		{
			check(o);
			if (owner && o.origin)
				vlog("born", "t", id);
			o.owner = false;
		}
		static void check(const tracked& o) noexcept
		{
			if (o.magic != MAGIC)
				vlog("corrupt");
		}
		~tracked()
		{
			check(*this);
			if (owner && !origin)
				vlog("dead", "t", id);
			magic = 0xdeadbeef;
		}
		void operator()(size_t w) noexcept
		{
			check(*this);
			if (!owner)
				vlog("corrupt");
			run_task(id, w);
		}
	};
	struct tracked_noarg : tracked
	{
		using tracked::tracked;
		tracked_noarg(const tracked_noarg&) noexcept = default;
		tracked_noarg(tracked_noarg&&) noexcept      = default;
		void operator()() noexcept
		{
			check(*this);
			if (!owner)
				vlog("corrupt");
			run_task(id, 999);
		}
	};
	template <int Pad>
	struct tracked_fat : tracked
	{
		unsigned char pad[Pad];
		tracked_fat(int i) noexcept : tracked(i) { std::memset(pad, i & 255, Pad); }
		tracked_fat(const tracked_fat&) noexcept = default;
		tracked_fat(tracked_fat&&) noexcept      = default;
		void operator()(size_t w) noexcept
		{
			for (int i = 0; i < Pad; i++)
				if (pad[i] != (unsigned char)(id & 255))
				{
					vlog("corrupt");
					break;
				}
			tracked::operator()(w);
		}
	};
	struct huge // larger than the in-place buffer: the pool refers to it by address
	{
		int id;
		unsigned char pad[300];
		void operator()(size_t w) noexcept
		{
			for (unsigned char c : pad)
				if (c != (unsigned char)(id & 255))
				{
					vlog("corrupt");
					break;
				}
			run_task(id, w);
		}
	};
	int g_fn_id;
	void plain_fn(size_t w) noexcept { run_task(g_fn_id, w); }

	VNS int new_task(rng& r, int& next)
	{
		int id      = next++;
		g_yield[id] = (int)r(3) == 0 ? (int)r(6) : (int)r(2);
		return id;
	}

	void enqueue_one(muu::thread_pool& pool, int pid, int id, int kind, int who)
	{
		g_in[id] = id * 7 + 3;
		vlog("enq_call", "t", id, "p", pid, "k", kind);
		switch (kind)
		{
			case 0: pool.enqueue(tracked{ id }); break;
			case 1:
			{
				tracked t{ id };
				pool.enqueue(t); // copied in
				break;
			}
			case 2: pool.enqueue([id](size_t w) noexcept { run_task(id, w); }); break;
			case 3: pool.enqueue(tracked_fat<28>{ id }); break;
			case 4:
			{
				int a[4] = { id, id ^ 0x55, id + 1000, ~id };
				pool.enqueue(
					[a = std::array<int, 4>{ { a[0], a[1], a[2], a[3] } }](size_t w) noexcept
					{
						if (a[1] != (a[0] ^ 0x55) || a[2] != a[0] + 1000 || a[3] != ~a[0])
							vlog("corrupt");
						run_task(a[0], w);
					});
				break;
			}
			case 5: pool.enqueue(tracked_noarg{ id }); break;
			case 6:
			{
				auto& h = *new huge; // outlives the pool
				h.id    = id;
				std::memset(h.pad, id & 255, sizeof h.pad);
				pool.enqueue(h); // by reference
				break;
			}
			case 7: pool.enqueue([id]() noexcept { run_task(id, 999); }); break;
			default: break;
		}
		vlog("enq_ret", "t", id, "p", pid);
		(void)who;
	}

	struct foreach_visit
	{
		long base;
		short fe;
		bool use_scratch;
		template <typename T>
		void visit(T v, long batch) const noexcept
		{
			long x = (long)((unsigned long)v - (unsigned long)base);
			if (batch >= 0 && use_scratch && batch < 64)
				g_batch_scratch[fe & 15][batch]++;
			vlog("visit", "f", fe, "x", x < -100000 ? -100000 : x > 100000 ? 100000 : x, "b", batch > 1000 ? 1000 : batch);
			if (vs_rand() % 4 == 0)
				vs_point();
		}
	};

	// a for_each callable that owns something: every copy the pool makes must be destroyed, exactly once, after its batch
	struct owning_visit
	{
		foreach_visit fv;
		unsigned magic;
		bool owner, origin;
		owning_visit(const foreach_visit& f) noexcept : fv(f), magic{ MAGIC }, owner{ true }, origin{ true } {}
		owning_visit(const owning_visit& o) noexcept : fv(o.fv), magic{ o.magic }, owner{ o.owner }, origin{ false }
		{
			if (o.magic != MAGIC)
				vlog("corrupt");
			if (owner)
				vlog("fe_born", "f", fv.fe);
		}
		owning_visit(owning_visit&& o) noexcept : fv(o.fv), magic{ o.magic }, owner{ o.owner }, origin{ false }
		{
			if (o.magic != MAGIC)
				vlog("corrupt");
			if (owner && o.origin)
				vlog("fe_born", "f", fv.fe);
			o.owner = false;
		}
		~owning_visit()
		{
			if (magic != MAGIC)
				vlog("corrupt");
			if (owner && !origin)
				vlog("fe_dead", "f", fv.fe);
			magic = 0xdeadbeef;
		}
		template <typename T>
		void visit(T v, long b) noexcept
		{
			if (magic != MAGIC || !owner)
				vlog("corrupt");
			fv.visit(v, b);
		}
	};
	template <typename T, bool Batched>
	struct owning_fn : owning_visit
	{
		using owning_visit::owning_visit;
		owning_fn(const owning_fn&) noexcept = default;
		owning_fn(owning_fn&&) noexcept      = default;
		void operator()(T v) noexcept { visit(v, -1); }
	};
	template <typename T>
	struct owning_fn<T, true> : owning_visit
	{
		using owning_visit::owning_visit;
		owning_fn(const owning_fn&) noexcept = default;
		owning_fn(owning_fn&&) noexcept      = default;
		void operator()(T v, size_t b) noexcept { visit(v, (long)b); }
	};
	enum class color : unsigned char
	{
	};

	template <typename T>
	void for_each_ints(muu::thread_pool& pool, int pid, int fe, T a, T b, int kind)
	{
		const long base = (long)(unsigned long)a; // values are reported relative to the first argument
		// [a, b) ascending, or {a, a-1, ..., b+1} when reversed
		const long n = a <= b ? (long)((unsigned long)b - (unsigned long)a) : (long)((unsigned long)a - (unsigned long)b);
		const long lo = a <= b ? 0 : -n + 1, hi = a <= b ? n : 1;
		vlog("fe_call", "f", fe, "p", pid, "bt", kind != 1 && kind != 3 && kind != 6);
		vlog("fe_rng", "f", fe, "lo", lo, "hi", hi);
		foreach_visit fv{ base, (short)fe, kind == 2 || kind == 5 };
		switch (kind)
		{
			case 0:
			case 2: pool.for_each(a, b, [fv](T v, size_t batch) noexcept { fv.visit(v, (long)batch); }); break;
			case 1: pool.for_each(a, b, [fv](T v) noexcept { fv.visit(v, -1); }); break;
			case 3:
			{
				auto fn = [fv](auto v) noexcept { fv.visit(v, -1); };
				pool.for_each(a, b, fn);
				break;
			}
			case 5: pool.for_each(a, b, owning_fn<T, true>{ fv }); break;
			case 6: pool.for_each(a, b, owning_fn<T, false>{ fv }); break;
			case 7:
			{
				owning_fn<T, true> fn{ fv };
				pool.for_each(a, b, fn); // copied
				break;
			}
			default:
			{
				// an lvalue callable too large for in-place storage: used by address, must outlive the batches
				struct big
				{
					foreach_visit fv;
					unsigned char pad[200];
					void operator()(T v, size_t batch) noexcept
					{
						for (unsigned char c : pad)
							if (c != 0x5a)
							{
								vlog("corrupt");
								break;
							}
						fv.visit(v, (long)batch);
					}
				};
				auto& fn = *new big;
				fn.fv    = fv;
				std::memset(fn.pad, 0x5a, 200);
				pool.for_each(a, b, fn);
			}
		}
		vlog("fe_ret", "f", fe, "p", pid);
	}

	std::list<std::vector<int>> g_vecs;
	std::list<std::list<int>> g_lists;
	void for_each_iters(muu::thread_pool& pool, int pid, int fe, int n, int kind)
	{
		vlog("fe_call", "f", fe, "p", pid, "bt", kind == 1 || kind == 3 || kind == 5);
		vlog("fe_rng", "f", fe, "lo", 0, "hi", n);
		foreach_visit fv{ 0, (short)fe, kind == 1 || kind == 5 };
		g_vecs.emplace_back();
		g_lists.emplace_back();
		auto& v = g_vecs.back();
		auto& l = g_lists.back();
		for (int i = 0; i < n; i++)
		{
			v.push_back(i);
			l.push_back(i);
		}
		switch (kind)
		{
			case 0: pool.for_each(v, [fv](int& e) noexcept { fv.visit(e, -1); }); break;
			case 1: pool.for_each(v.begin(), v.end(), [fv](int& e, size_t b) noexcept { fv.visit(e, (long)b); }); break;
			case 2: pool.for_each(v.data(), v.data() + n, [fv](int& e) noexcept { fv.visit(e, -1); }); break;
			case 3: pool.for_each(l.begin(), l.end(), [fv](int& e, size_t b) noexcept { fv.visit(e, (long)b); }); break;
			case 5: pool.for_each(v, owning_fn<int&, true>{ fv }); break;
			case 6: pool.for_each(l.begin(), l.end(), owning_fn<int&, false>{ fv }); break;
			default: pool.for_each(l, [fv](int& e) noexcept { fv.visit(e, -1); }); break;
		}
		vlog("fe_ret", "f", fe, "p", pid);
	}

	void do_wait(muu::thread_pool& pool, int pid, int p, const std::vector<int>& mine)
	{
		vlog("wait_call", "p", p, "pool", pid);
		pool.wait();
		vlog("wait_ret", "p", p, "pool", pid);
		for (int id : mine)
			vlog("read", "t", id, "ok", g_out[id] == id * 7 + 4);
	}
}

static void body(unsigned long seed, const char* mode)
{
	rng r{ seed * 1000003 + 17 };
	vs_config c{};
	c.seed           = seed;
	c.strategy       = (int)r(4) == 0 ? 2 : (int)r(2);
	c.switch_pct     = (int)(r(3) == 0 ? 500 : r(3) == 0 ? 30 : 150);
	c.plain_permille = (int)(r(2) ? r(60) : 0);
	c.depth          = (int)r(8);
	c.est_steps      = (int)(r(2) ? 1500 : 6000);
	c.spurious       = (int)(r(3) ? 0 : 100);
	c.timejump       = (int)(r(3) ? 20 : 0);
	c.max_steps      = 6000000;

	const bool m_cap = !std::strcmp(mode, "cap"), m_fe = !std::strcmp(mode, "foreach"), m_des = !std::strcmp(mode, "destroy"),
			   m_fifo = !std::strcmp(mode, "fifo"), m_wait = !std::strcmp(mode, "wait");

	const bool m_size = !std::strcmp(mode, "size");
	const size_t W    = m_fifo ? 1 : m_size ? 1 + r(7) : 1 + r(3);
	const size_t req  = m_size ? 1 + r(r(2) ? 40 : 3000) : 1 + r(r(2) ? 3 : 9);
	int next         = 0;

	vs_probe(g_in, sizeof g_in);
	vs_probe(g_out, sizeof g_out);
	vs_probe(g_batch_scratch, sizeof g_batch_scratch);
	vs_begin(&c);
	{
		std::vector<std::unique_ptr<muu::thread_pool>> pools;
		if (m_des && r(4) == 0)
		{
			// a worker thread cannot be created: the constructor must stop those it has made, and throw
			vlog("new_call", "pool", 9);
			const int live = vs_live();
			vs_fail_create((int)r(W));
			int threw = 0;
			try
			{
				muu::thread_pool doomed{ W, req };
			}
			catch (const std::system_error&)
			{
				threw = 1;
			}
			vs_fail_create(-1);
			vlog("new_fail", "pool", 9, "threw", threw, "left", (long)(vs_live() - live));
		}
		pools.push_back(std::make_unique<muu::thread_pool>(W, req));
		vlog("create", "pool", 0, "w", (long)pools[0]->workers(), "cap", (long)pools[0]->capacity());
		vlog("req", "pool", 0, "w", (long)W, "cap", (long)req);
		auto& pool = *pools[0];

		if (m_cap)
		{
			// hold every worker, fill to capacity (must not block), then overfill from another thread (must block)
			std::vector<int> ids;
			for (size_t i = 0; i < W; i++)
			{
				int id     = new_task(r, next);
				g_gate[id] = 1;
				ids.push_back(id);
				enqueue_one(pool, 0, id, (int)r(6), 0);
			}
			// wait until all the gate tasks are running
			for (;;)
			{
				int started = 0;
				const char* p = g_log->text;
				for (const char* e = p + g_log->len; p < e && (p = (const char*)memmem(p, e - p, "\"start\"", 7)); p++)
					started++;
				if (started >= (int)W)
					break;
				vs_point();
				std::this_thread::yield();
			}
			vlog("held", "pool", 0);
			const size_t cap = pool.capacity();
			size_t fill      = r(4) ? cap : r(cap + 1);
			for (size_t i = 0; i < fill && next < 60; i++)
			{
				int id = new_task(r, next);
				ids.push_back(id);
				enqueue_one(pool, 0, id, (int)r(8), 0);
			}
			std::vector<int> more;
			std::vector<std::thread> th;
			int extra = (int)r(3);
			for (int i = 0; i < extra; i++)
			{
				int id = new_task(r, next), k = (int)r(6);
				more.push_back(id);
				th.emplace_back([&pool, id, k, i]() { enqueue_one(pool, 0, id, k, i + 1); });
			}
			int spins = (int)r(40);
			for (int i = 0; i < spins; i++)
				vs_point();
			if (r(2))
				std::this_thread::sleep_for(std::chrono::milliseconds{ 1 + r(300) });
			vlog("open", "pool", 0);
			g_open = 1;
			for (auto& t : th)
				t.join();
			for (int id : more)
				ids.push_back(id);
			do_wait(pool, 0, 0, ids);
		}
		else if (m_fe)
		{
			int rounds = 1 + (int)r(3);
			int fe     = 0;
			for (int i = 0; i < rounds; i++)
			{
				int n = (int)(r(4) == 0 ? r(3) : r(3) == 0 ? r(24) : r(9));
				switch (r(13))
				{
					case 0: for_each_ints<int>(pool, 0, fe++, (int)r(40) - 20, (int)r(40) - 20, (int)r(8)); break;
					case 1: for_each_ints<size_t>(pool, 0, fe++, r(20), r(20), (int)r(8)); break;
					case 2: for_each_ints<unsigned char>(pool, 0, fe++, (unsigned char)(256 - r(20) - 1), (unsigned char)(256 - r(20) - 1), (int)r(8)); break;
					case 3: 
					{
						int at = r(2) ? -128 : -15; // at the lower limit, or around zero
						for_each_ints<signed char>(pool, 0, fe++, (signed char)(r(30) + at), (signed char)(r(30) + at), (int)r(8));
						break;
					}
					case 4: for_each_ints<unsigned char>(pool, 0, fe++, (unsigned char)255, (unsigned char)(255 - n), (int)r(8)); break;
					case 5: for_each_ints<long long>(pool, 0, fe++, 0x7fffffff00000000ll + (long long)r(10), 0x7fffffff00000000ll + (long long)r(10), (int)r(8)); break;
					case 6: for_each_ints<unsigned>(pool, 0, fe++, 0xfffffff0u + (unsigned)r(16), 0xfffffff0u + (unsigned)r(16), (int)r(8)); break;
					case 7: 
					{
						int at = r(2) ? 32767 : 6;
						for_each_ints<short>(pool, 0, fe++, (short)(at - r(12)), (short)(at - r(12)), (int)r(8));
						break;
					}
					case 9: for_each_ints<color>(pool, 0, fe++, (color)(250 - r(10)), (color)(255 - r(10)), (int)r(8)); break;
					case 8: for_each_ints<int>(pool, 0, fe++, 2147483647 - (int)r(3), 2147483647 - (int)r(12), (int)r(8)); break;
					default: for_each_iters(pool, 0, fe++, n, (int)r(8)); break;
				}
				if (r(2))
					do_wait(pool, 0, 0, {});
			}
			do_wait(pool, 0, 0, {});
		}
		else
		{
			// up to two extra producer threads plus the main thread
			int producers = m_fifo ? (int)r(2) : (int)r(3);
			struct op
			{
				int what, id, kind;
			};
			std::vector<std::vector<op>> prog(producers + 1);
			bool wait_after[3] = {};
			int next_fe        = 0;
			for (auto& p : prog)
			{
				int n = m_fifo ? 2 + (int)r(8) : (int)r(6);
				for (int i = 0; i < n; i++)
				{
					if (!m_des && !m_fifo && r(5) == 0)
						p.push_back({ 1, 0, 0 });
					else if (r(6) == 0)
						p.push_back({ 2, 0, 0 });
					else if (!m_fifo && r(8) == 0)
						p.push_back({ 3, next_fe++, (int)r(8) });
					else
					{
						int id = new_task(r, next);
						p.push_back({ 0, id, (int)r(8) });
					}
				}
			}
			if (m_wait)
				for (auto& w : wait_after)
					w = r(2);
			auto run = [&](int who)
			{
				std::vector<int> mine;
				for (auto& o : prog[who])
				{
					if (o.what == 0)
					{
						enqueue_one(pool, 0, o.id, o.kind, who);
						mine.push_back(o.id);
					}
					else if (o.what == 1)
						do_wait(pool, 0, who, mine);
					else if (o.what == 3)
						for_each_ints<int>(pool, 0, o.id, 100, 100 + (o.id * 5 + o.kind) % 7, o.kind);
					else
						vs_point();
				}
				if (wait_after[who])
					do_wait(pool, 0, who, mine);
			};
			std::vector<std::thread> th;
			for (int i = 1; i <= producers; i++)
				th.emplace_back(run, i);
			run(0);
			for (auto& t : th)
				t.join();
			bool final_wait = m_des ? r(5) == 0 : m_fifo || m_wait || r(4) != 0;
			if (m_des && r(3) == 0)
			{
				// moves
				int k = (int)r(3);
				if (k == 0)
				{
					auto p2 = std::make_unique<muu::thread_pool>(std::move(pool));
					vlog("moved", "pool", 0, "w", (long)pool.workers());
					pools.push_back(std::move(p2));
					int id = new_task(r, next);
					enqueue_one(*pools[1], 0, id, (int)r(6), 0);
					std::swap(pools[0], pools[1]);
				}
				else if (k == 1)
				{
					// the assigned-to pool holds work of its own, which must be shut down by the assignment
					auto p2 = std::make_unique<muu::thread_pool>(1 + r(2), 1 + r(4));
					vlog("create", "pool", 1, "w", (long)p2->workers(), "cap", (long)p2->capacity());
					int n = (int)r(4);
					for (int i = 0; i < n; i++)
					{
						int id = new_task(r, next);
						enqueue_one(*p2, 1, id, (int)r(6), 0);
					}
					vlog("destroy_call", "pool", 1);
					*p2 = std::move(pool);
					vlog("destroy_ret", "pool", 1);
					vlog("moved", "pool", 0, "w", (long)pool.workers());
					pools.push_back(std::move(p2));
					int id = new_task(r, next);
					enqueue_one(*pools[1], 0, id, (int)r(6), 0);
					std::swap(pools[0], pools[1]);
				}
				else
				{
					auto& self = *pools[0];
					self       = std::move(*pools[0]);
					int id     = new_task(r, next);
					enqueue_one(*pools[0], 0, id, (int)r(6), 0);
				}
			}
			if (final_wait)
			{
				std::vector<int> all;
				for (int i = 0; i < next; i++)
					all.push_back(i);
				std::vector<int> none;
				do_wait(*pools[0], 0, 0, none);
			}
		}
		vlog("destroy_call", "pool", 0);
		pools[0].reset();
		vlog("destroy_ret", "pool", 0);
		pools.clear();
	}
	vlog("fin", "th", 0);
	vs_end();
}

int main(int argc, char** argv) { return vlog_main(argc, argv, body); }
