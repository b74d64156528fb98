// Shared-memory event log used by the concurrency drivers. Never instrumented.
#pragma once
#include <cstddef>
#define VNS __attribute__((no_sanitize("thread"), noinline))
struct vlog_buf
{
	size_t len;
	int events;
	int overflow;
	char text[1 << 18];
};
extern vlog_buf* g_log;
// Appends one JSON object {"e":name, k:v...}; called by the running thread only, so file order is execution order.
void vlog(const char* e, const char* k1 = nullptr, long v1 = 0, const char* k2 = nullptr, long v2 = 0, const char* k3 = nullptr, long v3 = 0);
// Runs body(seed) in a forked child per seed; prints one line per execution:
//   {"seed":s,"status":"ok|crash|hang","events":[...]}
int vlog_main(int argc, char** argv, void (*body)(unsigned long seed, const char* mode));
