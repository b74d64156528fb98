#include "vlog.h"
#include "vsched.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <cerrno>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

vlog_buf* g_log;

void vlog(const char* e, const char* k1, long v1, const char* k2, long v2, const char* k3, long v3)
{
	vlog_buf& b = *g_log;
	if (b.len + 200 > sizeof b.text)
	{
		b.overflow = 1;
		return;
	}
	int n = snprintf(b.text + b.len, 200, "%s{\"e\":\"%s\"", b.events ? "," : "", e);
	if (k1)
		n += snprintf(b.text + b.len + n, 60, ",\"%s\":%ld", k1, v1);
	if (k2)
		n += snprintf(b.text + b.len + n, 60, ",\"%s\":%ld", k2, v2);
	if (k3)
		n += snprintf(b.text + b.len + n, 60, ",\"%s\":%ld", k3, v3);
	n += snprintf(b.text + b.len + n, 4, "}");
	b.len += n;
	b.events++;
}

static void on_race(const void*, int w)
{
	static int once;
	if (!once++)
		vlog("race", "w", w);
}
static void on_stuck(const char* why)
{
	vlog("stuck", "deadlock", why[0] == 'd' || why[1] == 'e');
	_exit(97);
}

int vlog_main(int argc, char** argv, void (*body)(unsigned long, const char*))
{
	// usage: driver MODE FIRST COUNT
	const char* mode    = argc > 1 ? argv[1] : "all";
	unsigned long first = argc > 2 ? strtoul(argv[2], nullptr, 10) : 1;
	unsigned long count = argc > 3 ? strtoul(argv[3], nullptr, 10) : 1;
	g_log               = (vlog_buf*)mmap(nullptr, sizeof(vlog_buf), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	static char outbuf[1 << 20];
	setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
	for (unsigned long s = first; s < first + count; s++)
	{
		g_log->len      = 0;
		g_log->events   = 0;
		g_log->overflow = 0;
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0)
		{
			signal(SIGALRM, SIG_DFL);
			alarm(25);
			vs_on_race(on_race);
			vs_on_stuck(on_stuck);
			body(s, mode);
			_exit(0);
		}
		int st = 0;
		while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		const char* status = "ok";
		if (WIFSIGNALED(st))
			status = WTERMSIG(st) == SIGALRM ? "hang" : "crash";
		else if (WEXITSTATUS(st) == 97)
			status = "stuck";
		else if (WEXITSTATUS(st) != 0)
			status = "crash";
		printf("{\"seed\":%lu,\"status\":\"%s\",\"overflow\":%d,\"events\":[%.*s]}\n", s, status, g_log->overflow, (int)g_log->len, g_log->text);
		if (status[0] == 'h')
			break; // one is enough, and each costs the whole timeout
	}
	fflush(stdout);
	return 0;
}
