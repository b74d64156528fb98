// Controlled scheduler: every pthread primitive, timed wait, futex and (through -fsanitize=thread instrumentation with
// this private runtime) every atomic and plain memory access of the code under test is a scheduling point; exactly one
// thread runs at a time, chosen by a seeded strategy, and time is virtual. See DESIGN.md, "Controlled scheduler".
#pragma once
#include <cstddef>
#include <cstdint>
extern "C"
{
	struct vs_config
	{
		uint64_t seed;
		int strategy;      // 0 random walk, 1 PCT, 2 round-robin-ish (long slices)
		int switch_pct;    // strategy 0: probability (in 1/1000) of switching at a sync point
		int plain_permille; // probability (1/10000) of treating a plain access as a scheduling point
		int depth;         // PCT change points
		int est_steps;     // PCT step estimate
		int spurious;      // probability (1/1000) that a condition wait wakes spuriously
		int timejump;      // probability (1/10000) per step that virtual time jumps to the next deadline
		uint64_t max_steps;
	};
	void vs_begin(const vs_config*);
	void vs_end();
	int vs_self();                                   // id of the running thread
	void vs_probe(const void* addr, size_t len);     // memory checked for happens-before races
	void vs_on_race(void (*cb)(const void* addr, int is_write));
	void vs_on_stuck(void (*cb)(const char* why));   // called once on deadlock/livelock, must not return
	uint64_t vs_steps();
	uint64_t vs_now_ns();
	void vs_fail_create(int n);                      // the n-th thread creation from now fails (0: the next one; -1: none)
	int vs_live();                                   // threads that have not finished, besides the caller
	void vs_point();                                 // explicit scheduling point
	uint64_t vs_rand();                              // scheduler-independent deterministic stream
}
