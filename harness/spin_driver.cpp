// Drives muu::spin_mutex under the controlled scheduler and logs API-level events.
#include "muu/spin_mutex.h"
#include "vlog.h"
#include "vsched.h"
#include <mutex>
#include <thread>
#include <vector>

namespace
{
	muu::spin_mutex* g_m[2];
	long g_val[2];       // protected by g_m[i]
	long g_shadow[2][8]; // likewise

	struct op
	{
		int what, m, yields;
	};

	void critical(int th, int m, int yields)
	{
		long v = g_val[m];
		for (int i = 0; i < yields; i++)
			vs_point();
		g_shadow[m][v & 7] = v;
		g_val[m]           = v + 1;
		vlog("crit", "th", th, "m", m, "v", v);
	}

	void try_one(int th, int m, int yields)
	{
		vlog("try_call", "th", th, "m", m);
		bool ok = g_m[m]->try_lock();
		vlog("try_ret", "th", th, "m", m, "ok", ok);
		if (ok)
		{
			critical(th, m, yields);
			vlog("unlock_call", "th", th, "m", m);
			g_m[m]->unlock();
			vlog("unlock_ret", "th", th, "m", m);
		}
	}

	void run(int th, const std::vector<op>& prog)
	{
		for (auto& o : prog)
		{
			switch (o.what)
			{
				case 0:
					vlog("lock_call", "th", th, "m", o.m);
					g_m[o.m]->lock();
					vlog("lock_ret", "th", th, "m", o.m);
					critical(th, o.m, o.yields);
					vlog("unlock_call", "th", th, "m", o.m);
					g_m[o.m]->unlock();
					vlog("unlock_ret", "th", th, "m", o.m);
					break;
				case 1: try_one(th, o.m, o.yields); break;
				case 2: // both mutexes, always in the same order
					vlog("lock_call", "th", th, "m", 0);
					g_m[0]->lock();
					vlog("lock_ret", "th", th, "m", 0);
					critical(th, 0, o.yields);
					if (o.m)
						try_one(th, 1, 1);
					else
					{
						vlog("lock_call", "th", th, "m", 1);
						g_m[1]->lock();
						vlog("lock_ret", "th", th, "m", 1);
						critical(th, 1, o.yields);
						vlog("unlock_call", "th", th, "m", 1);
						g_m[1]->unlock();
						vlog("unlock_ret", "th", th, "m", 1);
					}
					vlog("unlock_call", "th", th, "m", 0);
					g_m[0]->unlock();
					vlog("unlock_ret", "th", th, "m", 0);
					break;
				case 3: // try_lock by the holder: must fail
					vlog("lock_call", "th", th, "m", o.m);
					g_m[o.m]->lock();
					vlog("lock_ret", "th", th, "m", o.m);
					vlog("try_call", "th", th, "m", o.m);
					vlog("try_ret", "th", th, "m", o.m, "ok", g_m[o.m]->try_lock());
					critical(th, o.m, o.yields);
					vlog("unlock_call", "th", th, "m", o.m);
					g_m[o.m]->unlock();
					vlog("unlock_ret", "th", th, "m", o.m);
					break;
				default: vs_point();
			}
		}
	}
}

static void body(unsigned long seed, const char*)
{
	unsigned long z = seed * 1000003 + 17;
	auto r          = [&](unsigned long n) -> unsigned long
	{
		z += 0x9E3779B97F4A7C15ull;
		unsigned long x = z;
		x               = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
		x               = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
		return (x ^ (x >> 31)) % n;
	};
	vs_config c{};
	c.seed           = seed;
	c.strategy       = (int)r(4) == 0 ? 2 : (int)r(2);
	c.switch_pct     = (int)(r(3) == 0 ? 500 : r(3) == 0 ? 30 : 150);
	c.plain_permille = (int)(r(2) ? 0 : 3000);
	c.depth          = (int)r(6);
	c.est_steps      = (int)(r(2) ? 100 : 400);
	c.max_steps      = 400000;
	vs_probe(g_val, sizeof g_val);
	vs_probe(g_shadow, sizeof g_shadow);
	vs_begin(&c);
	{
		muu::spin_mutex m0, m1;
		g_m[0] = &m0;
		g_m[1] = &m1;
		int n  = 1 + (int)r(4);
		std::vector<std::vector<op>> prog(n);
		bool one = r(2);
		for (auto& p : prog)
			for (int k = 1 + (int)r(4); k--;)
				p.push_back({ (int)(r(8) == 0 ? 3 : r(6) == 0 ? 2 : r(8) == 0 ? 4 : r(3) == 0), one ? 0 : (int)r(2), (int)r(4) });
		std::vector<std::thread> th;
		for (int i = 1; i < n; i++)
			th.emplace_back(run, i, std::cref(prog[i]));
		run(0, prog[0]);
		for (auto& t : th)
			t.join();
		for (int m = 0; m < 2; m++)
		{
			vlog("final", "m", m, "v", g_val[m]);
			try_one(0, m, 0);
		}
	}
	vlog("fin", "th", 0);
	vs_end();
}

int main(int argc, char** argv) { return vlog_main(argc, argv, body); }
