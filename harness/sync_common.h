// Contracts of the POSIX calls the synchronisation objects are built on: process-shared mutexes and condition variables, shared
// memory objects, clocks. Every call is a scheduling point; waiters may wake spuriously; a timed wait may expire at any moment.
#pragma once
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <errno.h>
#include <fcntl.h>
#include <cstdarg>
#pragma clang attribute push(__attribute__((no_sanitize("thread"))), apply_to = function)
struct MxM { uint32_t magic; int owner; }; struct MxC { uint32_t magic; };
#define M_MAGIC 0x4d555458
#define C_MAGIC 0x434f4e44
#define NTHR 8
static void *waiting[NTHR]; static char wslot[NTHR]; static int spurious, lockfail, clockfail; static bool clockfail_used;
static uint64_t wait_ms; static int deadline_check;
static uint64_t now_sec = 1000; static uint64_t now_nsec;
static inline void progress() { vp_wake(VP_JOIN); }
static inline int me() { return vp_tid() + 1; }
extern "C" pthread_t vp_stub_pthread_self() { return (pthread_t)me(); }
extern "C" int vp_stub_pthread_mutexattr_init(pthread_mutexattr_t *a) { *(int *)a = 1; return 0; }
extern "C" int vp_stub_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { return 0; }
extern "C" int vp_stub_pthread_mutexattr_setpshared(pthread_mutexattr_t *a, int s) { vp_assert(*(int *)a == 1 || *(int *)a == 2, "uses uninitialised attributes"); *(int *)a = s == PTHREAD_PROCESS_SHARED ? 2 : 1; return 0; }
extern "C" int vp_stub_pthread_condattr_init(pthread_condattr_t *a) { *(int *)a = 1; return 0; }
extern "C" int vp_stub_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
extern "C" int vp_stub_pthread_condattr_setpshared(pthread_condattr_t *a, int s) { vp_assert(*(int *)a == 1 || *(int *)a == 2, "uses uninitialised attributes"); *(int *)a = s == PTHREAD_PROCESS_SHARED ? 2 : 1; return 0; }
static bool in_shm(void *p);
static void attr_ok(void *p, const int *a) { if (a) vp_assert(*a == 1 || *a == 2, "uses uninitialised attributes"); if (in_shm(p)) vp_assert(a && *a == 2, "a primitive in shared memory is private to the process"); }
extern "C" int vp_stub_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { vp_yield(); attr_ok(m, (const int *)a); MxM *x = (MxM *)m; x->magic = M_MAGIC; x->owner = 0; return 0; }
extern "C" int vp_stub_pthread_mutex_destroy(pthread_mutex_t *m) { MxM *x = (MxM *)m; vp_assert(x->magic == M_MAGIC, "destroys something that is not a mutex"); vp_assert(!x->owner, "destroys a locked mutex"); x->magic = 0; return 0; }
static void stat_init(MxM *x) { if (!x->magic && !x->owner && !in_shm(x)) x->magic = M_MAGIC; }   // PTHREAD_MUTEX_INITIALIZER
extern "C" int vp_stub_pthread_mutex_lock(pthread_mutex_t *m) {
	vp_yield(); MxM *x = (MxM *)m; stat_init(x); vp_assert(x->magic == M_MAGIC, "locks an uninitialised mutex");
	while (x->owner) { vp_block((uint64_t)m); }
	x->owner = me(); return 0;
}
extern "C" int vp_stub_pthread_mutex_trylock(pthread_mutex_t *m) { vp_yield(); MxM *x = (MxM *)m; stat_init(x); vp_assert(x->magic == M_MAGIC, "locks an uninitialised mutex"); if (x->owner) return EBUSY; x->owner = me(); return 0; }
extern "C" int vp_stub_pthread_mutex_unlock(pthread_mutex_t *m) { MxM *x = (MxM *)m; vp_assert(x->magic == M_MAGIC, "unlocks an uninitialised mutex"); vp_assert(x->owner == me(), "unlocks an internal mutex it does not hold"); x->owner = 0; vp_wake((uint64_t)m); progress(); vp_yield(); return 0; }
extern "C" int vp_stub_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { attr_ok(c, (const int *)a); ((MxC *)c)->magic = C_MAGIC; return 0; }
extern "C" int vp_stub_pthread_cond_destroy(pthread_cond_t *c) { vp_assert(((MxC *)c)->magic == C_MAGIC, "destroys something that is not a condition"); for (int i = 0; i < NTHR; i++) vp_assert(waiting[i] != (void *)c, "destroys a condition somebody waits for"); ((MxC *)c)->magic = 0; return 0; }
static void relock(pthread_mutex_t *m) { vp_yield(); MxM *x = (MxM *)m; while (x->owner) vp_block((uint64_t)m); x->owner = me(); }
static void letgo(pthread_cond_t *c, pthread_mutex_t *m) { vp_assert(((MxC *)c)->magic == C_MAGIC, "waits on an uninitialised condition"); MxM *x = (MxM *)m; vp_assert(x->magic == M_MAGIC && x->owner == me(), "waits without holding the mutex"); waiting[vp_tid()] = c; x->owner = 0; vp_wake((uint64_t)m); progress(); }
extern "C" int vp_stub_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	letgo(c, m); int t = vp_tid();
	if (spurious > 0 && vp_choice(2)) { spurious--; vp_resched(); waiting[t] = NULL; }
	else while (waiting[t] == (void *)c) vp_block((uint64_t)&wslot[t]);
	relock(m); return 0;
}
#ifndef OWN_TIMEDWAIT
extern "C" int vp_stub_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	if (deadline_check) {
		vp_assert(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "malformed deadline");
		uint64_t ns = now_nsec + wait_ms % 1000 * 1000000, q = wait_ms / 1000; if (ns >= 1000000000) { ns -= 1000000000; q++; }
		vp_assert((uint64_t)ts->tv_sec - now_sec == q && (uint64_t)ts->tv_nsec == ns, "deadline differs from the requested timeout");
	}
	letgo(c, m); int t = vp_tid();
	if (spurious > 0 && vp_choice(2)) { spurious--; vp_resched(); waiting[t] = NULL; relock(m); return 0; }
	vp_resched(); int r = 0; if (waiting[t] == (void *)c) { waiting[t] = NULL; r = ETIMEDOUT; }
	relock(m); return r;
}
#endif
extern "C" int vp_stub_pthread_cond_signal(pthread_cond_t *c) {
	vp_assert(((MxC *)c)->magic == C_MAGIC, "signals an uninitialised condition"); int w[NTHR], n = 0; for (int i = 0; i < NTHR; i++) if (waiting[i] == (void *)c) w[n++] = i;
	if (n) { int k = w[n > 1 ? vp_choice(n) : 0]; waiting[k] = NULL; vp_wake((uint64_t)&wslot[k]); } return 0;
}
extern "C" int vp_stub_pthread_cond_broadcast(pthread_cond_t *c) { vp_assert(((MxC *)c)->magic == C_MAGIC, "signals an uninitialised condition"); for (int i = 0; i < NTHR; i++) if (waiting[i] == (void *)c) { waiting[i] = NULL; vp_wake((uint64_t)&wslot[i]); } return 0; }
#ifndef OWN_CLOCK
extern "C" int vp_stub_clock_gettime(int, struct timespec *ts) { if (clockfail > 0 && vp_choice(2)) { clockfail--; clockfail_used = true; errno = EINVAL; return -1; } ts->tv_sec = (time_t)now_sec; ts->tv_nsec = (long)now_nsec; return 0; }
extern "C" int vp_stub_gettimeofday(struct timeval *tv, void *) { if (clockfail > 0 && vp_choice(2)) { clockfail--; clockfail_used = true; errno = EINVAL; return -1; } tv->tv_sec = (time_t)now_sec; tv->tv_usec = (suseconds_t)(now_nsec / 1000); return 0; }
#endif
// shared memory objects
#ifndef OWN_SHM
#define NSHM 4
struct Shm { char name[260]; size_t size; char *mem; int maps; bool exists; };
static Shm shm[NSHM]; static int fdobj[8]; static int fds, openfds, maps; static mode_t mask = 022; static int sysfail; static size_t poolblocks;
static bool in_shm(void *p) { for (int i = 0; i < NSHM; i++) if (shm[i].mem && (char *)p >= shm[i].mem && (char *)p < shm[i].mem + shm[i].size) return true; return false; }
static bool failing(const char *what) { if (sysfail > 0 && vp_choice(2)) { sysfail--; vp_cover(what); return true; } return false; }
extern "C" mode_t vp_stub_umask(mode_t m) { vp_yield(); mode_t o = mask; mask = m; return o; }
extern "C" int vp_stub_shm_open(const char *name, int flags, mode_t) {
	vp_yield(); size_t n = strlen(name); vp_assert(n < 256 && name[0] == '/', "malformed shared memory name"); for (size_t i = 1; i < n; i++) vp_assert(name[i] != '/', "malformed shared memory name");
	if (failing("shm_open failed")) { errno = EMFILE; return -1; }
	int k = -1; for (int i = 0; i < NSHM; i++) if (shm[i].exists && !strcmp(shm[i].name, name)) k = i;
	if (k >= 0 && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
	if (k < 0) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } for (k = 0; k < NSHM && shm[k].exists; k++); vp_assert(k < NSHM, "harness: too many objects"); strcpy(shm[k].name, name); shm[k].exists = true; shm[k].size = 0; shm[k].mem = NULL; }
	vp_assert(fds < 8, "harness: too many descriptors"); fdobj[fds] = k; openfds++; return 10 + fds++;
}
extern "C" int vp_stub_shm_unlink(const char *name) { for (int i = 0; i < NSHM; i++) if (shm[i].exists && !strcmp(shm[i].name, name)) { shm[i].exists = false; return 0; } errno = ENOENT; return -1; }
extern "C" int vp_stub_ftruncate(int fd, off_t size) {
	vp_yield(); static int eintr; if (sysfail > 0 && !eintr && vp_choice(2)) { eintr = 1; errno = EINTR; return -1; }
	Shm &s = shm[fdobj[fd - 10]]; if (!s.mem) { s.mem = (char *)malloc(size); poolblocks++; memset(s.mem, 0, size); s.size = size; }
	vp_assert(s.size == (size_t)size, "an existing object is resized"); return 0;
}
extern "C" void *vp_stub_mmap(void *, size_t n, int prot, int flags, int fd, off_t off) { vp_yield(); vp_assert((flags & MAP_SHARED) && (prot & PROT_WRITE) && (prot & PROT_READ) && off == 0, "maps a private or read-only copy"); if (failing("mmap failed")) { errno = ENOMEM; return MAP_FAILED; } Shm &s = shm[fdobj[fd - 10]]; vp_assert(s.mem && n <= s.size, "maps more than the object holds"); s.maps++; maps++; return s.mem; }
extern "C" int vp_stub_munmap(void *p, size_t n) { for (int i = 0; i < NSHM; i++) if (shm[i].mem == p && shm[i].maps) { vp_assert(n <= ((shm[i].size + 4095) & ~(size_t)4095), "unmaps more than was mapped"); shm[i].maps--; maps--; return 0; } vp_assert(false, "unmaps something that is not mapped"); return -1; }
extern "C" int vp_stub_close(int fd) { vp_assert(fd >= 10 && fd < 10 + fds && fdobj[fd - 10] >= 0, "closes a descriptor it does not own"); fdobj[fd - 10] = -1; openfds--; progress(); return 0; }
extern "C" int vp_stub_usleep(useconds_t) { vp_block(VP_JOIN); return 0; }
#endif
#pragma clang attribute pop
