// Process and thread identifiers and the wall clock in microseconds, for every system value.
#include "vp.h"
#include <cstddef>
#include <sys/time.h>
#include <time.h>
#include <sys/types.h>
#include <unistd.h>
#include <pthread.h>
static int64_t sec, usec; static bool bad; static pid_t pid; static uint64_t tid;
extern "C" int vp_stub_gettimeofday(struct timeval *t, void *) { if (bad) return -1; t->tv_sec = sec; t->tv_usec = usec; return 0; }
extern "C" int vp_stub_clock_gettime(clockid_t c, struct timespec *t) { vp_assert(c == CLOCK_REALTIME, "another clock"); if (bad) return -1; t->tv_sec = sec; t->tv_nsec = usec * 1000; return 0; }
extern "C" pid_t vp_stub_getpid(void) { return pid; }
extern "C" pthread_t vp_stub_pthread_self(void) { return (pthread_t)tid; }
#include "environment/environment_appinfo.cpp"
using namespace CubicleSoft::Environment;
extern "C" void vp_main() {
	sec = (int64_t)vp_sym(43); usec = (int64_t)vp_range(0, 999999); bad = vp_choice(2); pid = (pid_t)vp_u32(); tid = vp_u64();
	uint64_t t = AppInfo::GetUnixMicrosecondTime(); if (bad) { vp_assert(t == 0, "time without a clock"); vp_cover("no clock"); } else { vp_assert(t - (uint64_t)usec == (uint64_t)sec * 1000000, "microsecond time"); vp_cover("time"); }
	vp_assert(AppInfo::GetCurrentProcessID() == pid, "process id"); vp_assert((uint64_t)AppInfo::GetCurrentThreadID() == tid, "thread id");
}
