#include "vsched.h"
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <semaphore.h>

namespace
{
	constexpr int MAXT = 24;
	struct VC
	{
		uint32_t c[MAXT];
	};

	enum St
	{
		UNUSED,
		RUN,
		BLOCKED,
		DONE
	};
	struct Thr
	{
		St st;
		int token; // futex word
		const void* obj;
		int kind; // 1 mutex 2 cond 3 join 4 sleep 5 futex 6 rwlock
		bool timed, timedout, signalled;
		uint64_t deadline;
		int64_t prio;
		uint32_t run; // consecutive steps
		VC vc, acqpend, relfence;
		bool has_relfence;
		pthread_t real;
		void* (*fn)(void*);
		void* arg;
		void* ret;
		bool detached;
	};
	Thr T[MAXT];
	int nthr;
	int cur = 0;
	bool active = false;
	vs_config cfg;
	uint64_t rng_s, rng_u;
	uint64_t steps;
	uint64_t vtime;
	uint64_t pct_points[16];
	int pct_n;
	void (*race_cb)(const void*, int);
	void (*stuck_cb)(const char*);
	__thread int tid = -1;

	inline uint64_t rnd(uint64_t& s)
	{
		s += 0x9E3779B97F4A7C15ull;
		uint64_t z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	inline uint64_t R() { return rnd(rng_s); }

	// ---- raw futex (never through interposed symbols) --------------------------------------------------------------
	long raw_syscall6(long n, long a, long b, long c, long d, long e, long f)
	{
		long ret;
		register long r10 __asm__("r10") = d;
		register long r8 __asm__("r8")   = e;
		register long r9 __asm__("r9")   = f;
		__asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
		return ret;
	}
	void tok_wait(Thr& t)
	{
		while (!__atomic_load_n(&t.token, __ATOMIC_ACQUIRE))
			raw_syscall6(SYS_futex, (long)&t.token, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
		__atomic_store_n(&t.token, 0, __ATOMIC_RELAXED);
	}
	void tok_give(Thr& t)
	{
		__atomic_store_n(&t.token, 1, __ATOMIC_RELEASE);
		raw_syscall6(SYS_futex, (long)&t.token, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
	}

	// ---- side tables ------------------------------------------------------------------------------------------------
	struct Obj
	{
		const void* addr;
		int owner;  // mutex owner or -1
		int rec;    // recursion / reader count
		VC vc;
		bool used;
	};
	constexpr int NOBJ = 1 << 14;
	Obj* objs;
	Obj& obj(const void* a)
	{
		size_t h = ((uintptr_t)a * 0x9E3779B97F4A7C15ull) >> 50;
		for (;; h = (h + 1) & (NOBJ - 1))
		{
			if (!objs[h].used)
			{
				objs[h].used  = true;
				objs[h].addr  = a;
				objs[h].owner = -1;
				return objs[h];
			}
			if (objs[h].addr == a)
				return objs[h];
		}
	}
	inline void join(VC& a, const VC& b)
	{
		for (int i = 0; i < nthr; i++)
			if (b.c[i] > a.c[i])
				a.c[i] = b.c[i];
	}

	// ---- probes -----------------------------------------------------------------------------------------------------
	struct Cell
	{
		int wt;
		uint32_t wc;
		VC rd;
	};
	struct Probe
	{
		uintptr_t b, e;
		Cell* cells;
	};
	Probe probes[64];
	int nprobes;
	uintptr_t plo = ~0ull, phi = 0;

	void probe_access(uintptr_t a, size_t n, bool w)
	{
		for (int p = 0; p < nprobes; p++)
			if (a < probes[p].e && a + n > probes[p].b)
			{
				uintptr_t s = a < probes[p].b ? probes[p].b : a, e = a + n > probes[p].e ? probes[p].e : a + n;
				for (uintptr_t x = s & ~3ull; x < e; x += 4)
				{
					Cell& c = probes[p].cells[(x - (probes[p].b & ~3ull)) / 4];
					bool race = false;
					if (c.wt >= 0 && c.wt != tid && c.wc > T[tid].vc.c[c.wt])
						race = true;
					if (w)
						for (int i = 0; i < nthr; i++)
							if (i != tid && c.rd.c[i] > T[tid].vc.c[i])
								race = true;
					if (race && race_cb)
						race_cb((const void*)x, w);
					if (w)
					{
						c.wt = tid;
						c.wc = T[tid].vc.c[tid];
					}
					else
						c.rd.c[tid] = T[tid].vc.c[tid];
				}
			}
	}

	// ---- scheduling -------------------------------------------------------------------------------------------------
	[[noreturn]] void stuck(const char* why)
	{
		if (stuck_cb)
			stuck_cb(why);
		_exit(97);
	}
	void wake_expired()
	{
		for (int i = 0; i < nthr; i++)
			if (T[i].st == BLOCKED && T[i].timed && T[i].deadline <= vtime)
			{
				T[i].st       = RUN;
				T[i].timedout = true;
			}
	}
	bool jump_time()
	{
		uint64_t best = ~0ull;
		for (int i = 0; i < nthr; i++)
			if (T[i].st == BLOCKED && T[i].timed && T[i].deadline < best)
				best = T[i].deadline;
		if (best == ~0ull)
			return false;
		if (best > vtime)
			vtime = best;
		wake_expired();
		return true;
	}
	int pick(bool must_leave)
	{
		int run[MAXT], n = 0;
		for (;;)
		{
			n = 0;
			for (int i = 0; i < nthr; i++)
				if (T[i].st == RUN && !(must_leave && i == cur))
					run[n++] = i;
			if (n)
				break;
			if (must_leave && T[cur].st == RUN)
				return cur;
			if (!jump_time())
				stuck("deadlock");
		}
		bool fair = steps > cfg.max_steps / 2;
		if (!fair && cfg.strategy == 1)
		{
			int b = run[0];
			for (int i = 1; i < n; i++)
				if (T[run[i]].prio > T[b].prio)
					b = run[i];
			return b;
		}
		return run[R() % n];
	}
	void switch_to(int nx)
	{
		if (nx == cur)
			return;
		int me   = tid;
		T[me].run = 0;
		cur      = nx;
		tok_give(T[nx]);
		if (T[me].st != DONE)
			tok_wait(T[me]);
	}
	int64_t low_prio = 0;
	void step(bool heavy)
	{
		steps++;
		vtime += 50 + (R() & 255);
		if (steps > cfg.max_steps)
			stuck("livelock");
		wake_expired();
		if (cfg.timejump && (int)(R() % 100000) < cfg.timejump)
			jump_time();
		Thr& t = T[tid];
		t.run++;
		bool fair = steps > cfg.max_steps / 2;
		if (!fair && cfg.strategy == 1)
		{
			for (int i = 0; i < pct_n; i++)
				if (pct_points[i] == steps)
					t.prio = --low_prio;
			if (t.run > 3000)
			{
				t.prio = --low_prio;
				t.run  = 0;
			}
			switch_to(pick(false));
		}
		else
		{
			int pct = cfg.strategy == 2 && !fair ? 5 : cfg.switch_pct;
			if (fair)
				pct = 200;
			if ((heavy && (int)(R() % 1000) < pct) || t.run > 2000)
				switch_to(pick(t.run > 2000));
		}
	}
	// blocks the running thread until made runnable
	void block(int kind, const void* o, bool timed, uint64_t deadline)
	{
		Thr& t      = T[tid];
		t.st        = BLOCKED;
		t.kind      = kind;
		t.obj       = o;
		t.timed     = timed;
		t.deadline  = deadline;
		t.timedout  = false;
		t.signalled = false;
		switch_to(pick(false));
		if (t.st != RUN)
			stuck("scheduler");
	}
	int wake(int kind, const void* o, int n)
	{
		int w = 0;
		while (n-- > 0)
		{
			int c[MAXT], k = 0;
			for (int i = 0; i < nthr; i++)
				if (T[i].st == BLOCKED && T[i].kind == kind && T[i].obj == o)
					c[k++] = i;
			if (!k)
				break;
			int i          = c[R() % k];
			T[i].st        = RUN;
			T[i].signalled = true;
			w++;
		}
		return w;
	}
	inline void tick() { T[tid].vc.c[tid]++; }
	inline bool on() { return active && tid >= 0; }

	template <typename F>
	F real(const char* name)
	{
		return (F)dlsym(RTLD_NEXT, name);
	}

	void m_lock(pthread_mutex_t* m)
	{
		for (;;)
		{
			Obj& o = obj(m);
			if (o.owner == -1)
			{
				o.owner = tid;
				join(T[tid].vc, o.vc);
				return;
			}
			if (o.owner == tid)
			{
				int k = m->__data.__kind & 3;
				if (k == PTHREAD_MUTEX_RECURSIVE)
				{
					o.rec++;
					return;
				}
				stuck("self-deadlock");
			}
			block(1, m, false, 0);
		}
	}
	void m_unlock(pthread_mutex_t* m)
	{
		Obj& o = obj(m);
		if (o.rec)
		{
			o.rec--;
			return;
		}
		join(o.vc, T[tid].vc);
		tick();
		o.owner = -1;
		wake(1, m, MAXT);
	}
	uint64_t ts2ns(const struct timespec* t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
	constexpr uint64_t REALTIME_BASE = 1700000000ull * 1000000000ull;

	int c_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t deadline)
	{
		step(true);
		if ((int)(R() % 1000) < cfg.spurious)
		{
			m_unlock(m);
			step(true);
			m_lock(m);
			return 0;
		}
		m_unlock(m);
		if (timed && deadline <= vtime)
		{
			step(true);
			m_lock(m);
			return ETIMEDOUT;
		}
		block(2, c, timed, deadline);
		bool to = T[tid].timedout;
		m_lock(m);
		return to ? ETIMEDOUT : 0;
	}

	void finish_thread(void* ret)
	{
		Thr& t = T[tid];
		step(true);
		t.ret = ret;
		tick();
		t.st = DONE;
		wake(3, &t, MAXT);
		int nx = pick(false);
		int me = tid;
		cur    = nx;
		(void)me;
		tid = -1;
		tok_give(T[nx]);
	}
	void* trampoline(void* p)
	{
		Thr* t = (Thr*)p;
		tid    = (int)(t - T);
		tok_wait(*t);
		void* r = t->fn(t->arg);
		finish_thread(r);
		return r;
	}
}

extern "C"
{
	void vs_begin(const vs_config* c)
	{
		cfg   = *c;
		objs  = (Obj*)calloc(NOBJ, sizeof(Obj));
		rng_s = c->seed * 0x9E3779B97F4A7C15ull + 12345;
		rng_u = c->seed ^ 0xABCDEF0123456789ull;
		nthr  = 1;
		memset(T, 0, sizeof T);
		T[0].st   = RUN;
		T[0].vc.c[0] = 1;
		T[0].prio = (int64_t)(R() % 1000000) + 1;
		T[0].real = pthread_self();
		tid = cur = 0;
		steps     = 0;
		vtime     = 1000000000ull;
		pct_n     = c->depth > 16 ? 16 : c->depth;
		for (int i = 0; i < pct_n; i++)
			pct_points[i] = 1 + R() % (c->est_steps > 0 ? c->est_steps : 1);
		active = true;
	}
	void vs_end() { active = false; }
	int vs_self() { return tid; }
	uint64_t vs_steps() { return steps; }
	uint64_t vs_now_ns() { return vtime; }
	uint64_t vs_rand() { return rnd(rng_u); }
	void vs_on_race(void (*cb)(const void*, int)) { race_cb = cb; }
	void vs_on_stuck(void (*cb)(const char*)) { stuck_cb = cb; }
	void vs_point()
	{
		if (on())
			step(true);
	}
	void vs_probe(const void* a, size_t n)
	{
		Probe& p = probes[nprobes++];
		p.b      = (uintptr_t)a;
		p.e      = p.b + n;
		size_t k = n / 4 + 2;
		p.cells  = (Cell*)calloc(k, sizeof(Cell));
		for (size_t i = 0; i < k; i++)
			p.cells[i].wt = -1;
		if (p.b < plo)
			plo = p.b;
		if (p.e > phi)
			phi = p.e;
	}

	// ---- pthread interposition ----------------------------------------------------------------------------------------
	static int fail_create = -1;
	void vs_fail_create(int n) { fail_create = n; }
	int vs_live()
	{
		int n = 0;
		for (int i = 0; i < nthr; i++)
			n += i != tid && T[i].st != DONE;
		return n;
	}
	int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
	{
		static auto r = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
		if (!on())
			return r(out, at, fn, arg);
		step(true);
		if (nthr >= MAXT || (fail_create >= 0 && fail_create-- == 0))
			return EAGAIN;
		int id   = nthr++;
		Thr& t   = T[id];
		memset(&t, 0, sizeof t);
		t.fn     = fn;
		t.arg    = arg;
		t.vc     = T[tid].vc;
		t.vc.c[id] = 1;
		tick();
		t.prio = (int64_t)(R() % 1000000) + 1;
		pthread_attr_t a2;
		pthread_attr_init(&a2);
		pthread_attr_setstacksize(&a2, 512 * 1024);
		int rc = r(&t.real, &a2, trampoline, &t);
		pthread_attr_destroy(&a2);
		if (rc)
		{
			nthr--;
			return rc;
		}
		*out = t.real;
		t.st = RUN;
		step(true);
		return 0;
	}
	int pthread_join(pthread_t th, void** ret)
	{
		static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
		if (!on())
			return r(th, ret);
		step(true);
		for (int i = 0; i < nthr; i++)
			if (i != tid && pthread_equal(T[i].real, th) && !T[i].detached)
			{
				while (T[i].st != DONE)
					block(3, &T[i], false, 0);
				join(T[tid].vc, T[i].vc);
				int rc = r(th, ret);
				T[i].detached = true;
				step(true);
				return rc;
			}
		return ESRCH;
	}
	int pthread_detach(pthread_t th)
	{
		static auto r = real<int (*)(pthread_t)>("pthread_detach");
		if (on())
			for (int i = 0; i < nthr; i++)
				if (pthread_equal(T[i].real, th))
					T[i].detached = true;
		return r(th);
	}
	int pthread_mutex_lock(pthread_mutex_t* m)
	{
		static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
		if (!on())
			return r(m);
		step(true);
		m_lock(m);
		return 0;
	}
	int pthread_mutex_trylock(pthread_mutex_t* m)
	{
		static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
		if (!on())
			return r(m);
		step(true);
		Obj& o = obj(m);
		if (o.owner != -1)
			return EBUSY;
		o.owner = tid;
		join(T[tid].vc, o.vc);
		return 0;
	}
	int pthread_mutex_unlock(pthread_mutex_t* m)
	{
		static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
		if (!on())
			return r(m);
		m_unlock(m);
		step(true);
		return 0;
	}
	int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*)
	{
		return pthread_mutex_lock(m);
	}
	int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*)
	{
		return pthread_mutex_lock(m);
	}
	int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*)
	{
		memset(c, 0, sizeof *c);
		return 0;
	}
	int pthread_cond_destroy(pthread_cond_t*) { return 0; }
	int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
	{
		static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
		if (!on())
			return r(c, m);
		return c_wait(c, m, false, 0);
	}
	int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
	{
		static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
		if (!on())
			return r(c, m, ts);
		uint64_t d = ts2ns(ts);
		return c_wait(c, m, true, d >= REALTIME_BASE ? d - REALTIME_BASE : d);
	}
	int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clk, const struct timespec* ts)
	{
		static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
		if (!on())
			return r(c, m, clk, ts);
		uint64_t d = ts2ns(ts);
		if (clk == CLOCK_REALTIME)
			d = d >= REALTIME_BASE ? d - REALTIME_BASE : 0;
		return c_wait(c, m, true, d);
	}
	int pthread_cond_signal(pthread_cond_t* c)
	{
		static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
		if (!on())
			return r(c);
		step(true);
		wake(2, c, 1);
		step(true);
		return 0;
	}
	int pthread_cond_broadcast(pthread_cond_t* c)
	{
		static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
		if (!on())
			return r(c);
		step(true);
		wake(2, c, MAXT);
		step(true);
		return 0;
	}
	// rwlocks (std::shared_mutex)
	int pthread_rwlock_wrlock(pthread_rwlock_t* l)
	{
		static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
		if (!on())
			return r(l);
		step(true);
		for (;;)
		{
			Obj& o = obj(l);
			if (o.owner == -1 && o.rec == 0)
			{
				o.owner = tid;
				join(T[tid].vc, o.vc);
				return 0;
			}
			block(6, l, false, 0);
		}
	}
	int pthread_rwlock_rdlock(pthread_rwlock_t* l)
	{
		static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
		if (!on())
			return r(l);
		step(true);
		for (;;)
		{
			Obj& o = obj(l);
			if (o.owner == -1)
			{
				o.rec++;
				join(T[tid].vc, o.vc);
				return 0;
			}
			block(6, l, false, 0);
		}
	}
	int pthread_rwlock_trywrlock(pthread_rwlock_t* l)
	{
		static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock");
		if (!on())
			return r(l);
		step(true);
		Obj& o = obj(l);
		if (o.owner != -1 || o.rec)
			return EBUSY;
		o.owner = tid;
		join(T[tid].vc, o.vc);
		return 0;
	}
	int pthread_rwlock_tryrdlock(pthread_rwlock_t* l)
	{
		static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock");
		if (!on())
			return r(l);
		step(true);
		Obj& o = obj(l);
		if (o.owner != -1)
			return EBUSY;
		o.rec++;
		join(T[tid].vc, o.vc);
		return 0;
	}
	int pthread_rwlock_unlock(pthread_rwlock_t* l)
	{
		static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock");
		if (!on())
			return r(l);
		Obj& o = obj(l);
		join(o.vc, T[tid].vc);
		tick();
		if (o.owner == tid)
			o.owner = -1;
		else if (o.rec)
			o.rec--;
		wake(6, l, MAXT);
		step(true);
		return 0;
	}
	// ---- time ---------------------------------------------------------------------------------------------------------
	static int do_sleep(uint64_t ns)
	{
		step(true);
		block(4, &T[tid], true, vtime + ns);
		return 0;
	}
	int nanosleep(const struct timespec* a, struct timespec* b)
	{
		static auto r = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
		return on() ? do_sleep(ts2ns(a)) : r(a, b);
	}
	int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b)
	{
		static auto r = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
		if (!on())
			return r(c, flags, a, b);
		uint64_t ns = ts2ns(a);
		if (flags & TIMER_ABSTIME)
		{
			if (c == CLOCK_REALTIME)
				ns = ns > REALTIME_BASE ? ns - REALTIME_BASE : 0;
			ns = ns > vtime ? ns - vtime : 0;
		}
		return do_sleep(ns);
	}
	int usleep(useconds_t us)
	{
		if (on())
			return do_sleep((uint64_t)us * 1000);
		struct timespec t = { (time_t)(us / 1000000), (long)(us % 1000000) * 1000 };
		return nanosleep(&t, nullptr);
	}
	int sched_yield()
	{
		if (!on())
		{
			raw_syscall6(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
			return 0;
		}
		step(true);
		switch_to(pick(true));
		return 0;
	}
	int clock_gettime(clockid_t c, struct timespec* ts)
	{
		if (!on())
			return (int)raw_syscall6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0);
		uint64_t t = vtime + (c == CLOCK_REALTIME ? REALTIME_BASE : 0);
		ts->tv_sec  = (time_t)(t / 1000000000ull);
		ts->tv_nsec = (long)(t % 1000000000ull);
		return 0;
	}
	// ---- semaphores ---------------------------------------------------------------------------------------------------
	int sem_init(sem_t* s, int, unsigned v)
	{
		memset(s, 0, sizeof *s);
		*(unsigned*)s = v;
		return 0;
	}
	int sem_destroy(sem_t*) { return 0; }
	int sem_post(sem_t* s)
	{
		if (on())
			step(true);
		__atomic_fetch_add((unsigned*)s, 1, __ATOMIC_SEQ_CST);
		if (on())
		{
			join(obj(s).vc, T[tid].vc);
			tick();
			wake(7, s, MAXT);
			step(true);
		}
		return 0;
	}
	int sem_trywait(sem_t* s)
	{
		if (on())
			step(true);
		if (*(unsigned*)s == 0)
		{
			errno = EAGAIN;
			return -1;
		}
		--*(unsigned*)s;
		if (on())
			join(T[tid].vc, obj(s).vc);
		return 0;
	}
	int sem_wait(sem_t* s)
	{
		while (sem_trywait(s) != 0)
			if (on())
				block(7, s, false, 0);
		return 0;
	}
	int sem_clockwait(sem_t* s, clockid_t clk, const struct timespec* ts)
	{
		uint64_t d = ts2ns(ts);
		if (clk == CLOCK_REALTIME)
			d = d >= REALTIME_BASE ? d - REALTIME_BASE : 0;
		while (sem_trywait(s) != 0)
		{
			if (!on())
				continue;
			if (vtime >= d)
			{
				errno = ETIMEDOUT;
				return -1;
			}
			block(7, s, true, d);
		}
		return 0;
	}
	int sem_timedwait(sem_t* s, const struct timespec* ts) { return sem_clockwait(s, CLOCK_REALTIME, ts); }
	// ---- futex through syscall() (std::atomic::wait, __cxa_guard) -------------------------------------------------------
	long syscall(long n, ...)
	{
		va_list ap;
		va_start(ap, n);
		long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
		va_end(ap);
		if (n == SYS_futex && on())
		{
			int op = (int)b & 127;
			if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET)
			{
				step(true);
				if (__atomic_load_n((int*)a, __ATOMIC_SEQ_CST) != (int)c)
				{
					errno = EAGAIN;
					return -1;
				}
				const struct timespec* ts = (const struct timespec*)d;
				uint64_t dl               = 0;
				if (ts)
				{
					dl = ts2ns(ts);
					if (op == FUTEX_WAIT)
						dl += vtime;
					else if (b & FUTEX_CLOCK_REALTIME)
						dl = dl > REALTIME_BASE ? dl - REALTIME_BASE : 0;
				}
				block(5, (void*)a, ts != nullptr, dl);
				if (T[tid].timedout)
				{
					errno = ETIMEDOUT;
					return -1;
				}
				return 0;
			}
			if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET)
			{
				step(true);
				int k = wake(5, (void*)a, c > MAXT ? MAXT : (int)c);
				step(true);
				return k;
			}
		}
		long r = raw_syscall6(n, a, b, c, d, e, f);
		if (r < 0 && r > -4096)
		{
			errno = (int)-r;
			return -1;
		}
		return r;
	}

	// ---- private tsan runtime -------------------------------------------------------------------------------------------
	void __tsan_init() {}
	void __tsan_func_entry(void*) {}
	void __tsan_func_exit() {}
	static inline void plain(void* p, size_t n, bool w)
	{
		if (!on())
			return;
		uintptr_t a = (uintptr_t)p;
		if (cfg.plain_permille && (int)(R() % 10000) < cfg.plain_permille)
		{
			step(true);
			if (cfg.strategy != 1)
				switch_to(pick(false));
		}
		if (a < phi && a + n > plo)
			probe_access(a, n, w);
	}
#define RW(N)                                                                                                          \
	void __tsan_read##N(void* p) { plain(p, N, false); }                                                               \
	void __tsan_write##N(void* p) { plain(p, N, true); }                                                               \
	void __tsan_unaligned_read##N(void* p) { plain(p, N, false); }                                                     \
	void __tsan_unaligned_write##N(void* p) { plain(p, N, true); }                                                     \
	void __tsan_volatile_read##N(void* p) { plain(p, N, false); }                                                      \
	void __tsan_volatile_write##N(void* p) { plain(p, N, true); }                                                      \
	void __tsan_unaligned_volatile_read##N(void* p) { plain(p, N, false); }                                            \
	void __tsan_unaligned_volatile_write##N(void* p) { plain(p, N, true); }                                            \
	void __tsan_read_write##N(void* p) { plain(p, N, true); }                                                          \
	void __tsan_unaligned_read_write##N(void* p) { plain(p, N, true); }
	RW(1) RW(2) RW(4) RW(8) RW(16)
	void __tsan_read_range(void* p, size_t n) { plain(p, n, false); }
	void __tsan_write_range(void* p, size_t n) { plain(p, n, true); }
	void __tsan_vptr_update(void** p, void*) { plain(p, 8, true); }
	void __tsan_vptr_read(void** p) { plain(p, 8, false); }

	static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static void a_load(const volatile void* p, int mo)
	{
		Obj& o = obj((const void*)p);
		if (acq(mo))
			join(T[tid].vc, o.vc);
		else
			join(T[tid].acqpend, o.vc);
	}
	static void a_store(const volatile void* p, int mo, bool rmw)
	{
		Obj& o = obj((const void*)p);
		if (!rmw)
			memset(&o.vc, 0, sizeof o.vc);
		if (rel(mo))
			join(o.vc, T[tid].vc);
		else if (T[tid].has_relfence)
			join(o.vc, T[tid].relfence);
		tick();
	}
	void __tsan_atomic_thread_fence(int mo)
	{
		if (!on())
			return;
		step(true);
		if (acq(mo))
			join(T[tid].vc, T[tid].acqpend);
		if (rel(mo))
		{
			T[tid].relfence     = T[tid].vc;
			T[tid].has_relfence = true;
			tick();
		}
	}
	void __tsan_atomic_signal_fence(int) {}
#define ATOM(BITS, TY)                                                                                                 \
	TY __tsan_atomic##BITS##_load(const volatile TY* p, int mo)                                                        \
	{                                                                                                                  \
		if (on())                                                                                                      \
		{                                                                                                              \
			step(true);                                                                                                \
			a_load(p, mo);                                                                                             \
		}                                                                                                              \
		return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                   \
	}                                                                                                                  \
	void __tsan_atomic##BITS##_store(volatile TY* p, TY v, int mo)                                                     \
	{                                                                                                                  \
		if (on())                                                                                                      \
		{                                                                                                              \
			step(true);                                                                                                \
			a_store(p, mo, false);                                                                                     \
		}                                                                                                              \
		__atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                      \
	}                                                                                                                  \
	static inline void rmw##BITS(volatile TY* p, int mo)                                                               \
	{                                                                                                                  \
		if (on())                                                                                                      \
		{                                                                                                              \
			step(true);                                                                                                \
			a_load(p, mo);                                                                                             \
			a_store(p, mo, true);                                                                                      \
		}                                                                                                              \
	}                                                                                                                  \
	TY __tsan_atomic##BITS##_exchange(volatile TY* p, TY v, int mo)                                                    \
	{                                                                                                                  \
		rmw##BITS(p, mo);                                                                                              \
		return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                            \
	}                                                                                                                  \
	TY __tsan_atomic##BITS##_fetch_add(volatile TY* p, TY v, int mo)                                                   \
	{                                                                                                                  \
		rmw##BITS(p, mo);                                                                                              \
		return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                             \
	}                                                                                                                  \
	TY __tsan_atomic##BITS##_fetch_sub(volatile TY* p, TY v, int mo)                                                   \
	{                                                                                                                  \
		rmw##BITS(p, mo);                                                                                              \
		return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                             \
	}                                                                                                                  \
	TY __tsan_atomic##BITS##_fetch_and(volatile TY* p, TY v, int mo)                                                   \
	{                                                                                                                  \
		rmw##BITS(p, mo);                                                                                              \
		return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                             \
	}                                                                                                                  \
	TY __tsan_atomic##BITS##_fetch_or(volatile TY* p, TY v, int mo)                                                    \
	{                                                                                                                  \
		rmw##BITS(p, mo);                                                                                              \
		return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                              \
	}                                                                                                                  \
	TY __tsan_atomic##BITS##_fetch_xor(volatile TY* p, TY v, int mo)                                                   \
	{                                                                                                                  \
		rmw##BITS(p, mo);                                                                                              \
		return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                             \
	}                                                                                                                  \
	int __tsan_atomic##BITS##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int mo, int fmo)                    \
	{                                                                                                                  \
		if (on())                                                                                                      \
			step(true);                                                                                                \
		bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                     \
		if (on())                                                                                                      \
		{                                                                                                              \
			a_load(p, ok ? mo : fmo);                                                                                  \
			if (ok)                                                                                                    \
				a_store(p, mo, true);                                                                                  \
		}                                                                                                              \
		return ok;                                                                                                     \
	}                                                                                                                  \
	int __tsan_atomic##BITS##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int mo, int fmo)                      \
	{                                                                                                                  \
		if (on() && R() % 16 == 0 && cfg.spurious)                                                                     \
		{                                                                                                              \
			step(true);                                                                                                \
			a_load(p, fmo);                                                                                            \
			*e = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                 \
			return 0;                                                                                                  \
		}                                                                                                              \
		return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, mo, fmo);                                        \
	}                                                                                                                  \
	TY __tsan_atomic##BITS##_compare_exchange_val(volatile TY* p, TY e, TY v, int mo, int fmo)                         \
	{                                                                                                                  \
		__tsan_atomic##BITS##_compare_exchange_strong(p, &e, v, mo, fmo);                                              \
		return e;                                                                                                      \
	}
	ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
}
