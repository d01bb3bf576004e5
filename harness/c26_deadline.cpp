// A timed request never waits beyond its timeout in total, and never gives up before it, whatever holds it up and for how long.
#define OWN_TIMEDWAIT
#define OWN_CLOCK
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
#include "sync/sync_event.cpp"
#include "sync/sync_readwritelock.cpp"
using namespace CubicleSoft;
static Sync::ReadWriteLock *l; static uint64_t until; static uint64_t ns, nm;   // the clock: seconds after BASE, milliseconds
static int writer, readers, stage, sneak; static bool waits;
static uint64_t now() { return ns * 1000 + nm; }
static void settime(uint64_t s, uint64_t m) { ns = s; nm = m; now_sec = BASE + ns; now_nsec = nm * 1000000; }
extern "C" int vp_stub_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = (time_t)(BASE + ns); tv->tv_usec = (suseconds_t)(nm * 1000); return 0; }
extern "C" int vp_stub_clock_gettime(int, struct timespec *ts) { ts->tv_sec = (time_t)(BASE + ns); ts->tv_nsec = (long)(nm * 1000000); return 0; }
extern "C" int vp_stub_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
	uint64_t t = ((uint64_t)ts->tv_sec - BASE) * 1000000000 + (uint64_t)ts->tv_nsec; vp_assert(ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000, "malformed deadline");
	vp_assert(t <= (until + 1) * 1000000, "waits beyond the timeout"); waits = true; 
	letgo(c, m); int me_ = vp_tid();
	if (vp_choice(2)) {
		uint64_t v = now() + vp_sym(BITS) * QUANT, s1 = v / 1000, m1 = v % 1000; vp_assume(v * 1000000 < t); settime(s1, m1); stage++; vp_cover("woken");
		if (writer) { writer = 0; bool ok = l->WriteUnlock(); vp_assert(ok, "unlock"); if (sneak) { ok = l->ReadLock(0); vp_assert(ok, "reader"); readers++; vp_cover("reader sneaks in"); } }
		else if (readers) { readers--; bool ok = l->ReadUnlock(); vp_assert(ok, "unlock"); }
		if (waiting[me_] == (void *)c) waiting[me_] = NULL;   // otherwise a spurious wake-up
		relock(m); return 0;
	}
	if (vp_split(t > now() * 1000000)) settime((uint64_t)ts->tv_sec - BASE, (uint64_t)ts->tv_nsec / 1000000); waiting[me_] = NULL; relock(m); return ETIMEDOUT;
}
extern "C" void vp_main() {
	settime(0, vp_choice(2) ? 999 : 0); Sync::ReadWriteLock x; l = &x; bool c = x.Create(NULL); vp_assert(c, "create");
	bool wr = vp_choice(2); if (wr && vp_choice(2)) { readers = 1 + (int)vp_choice(2); for (int i = 0; i < readers; i++) { c = x.ReadLock(0); vp_assert(c, "read"); } } else { writer = 1; c = x.WriteLock(0); vp_assert(c, "write"); if (wr) sneak = (int)vp_choice(2); }
	uint32_t w = (uint32_t)(vp_sym(BITS) * QUANT + vp_choice(2)); vp_assume(w); until = now() + w;
	bool ok = wr ? x.WriteLock(w) : x.ReadLock(w);
	if (ok) { vp_assert(!writer && (!wr || !readers), "admitted while another holder excludes it"); vp_assert(now() <= until + 1, "admitted after the timeout"); ok = wr ? x.WriteUnlock() : x.ReadUnlock(); vp_assert(ok, "unlock"); vp_cover("admitted"); }
	else { vp_assert(waits, "gave up without waiting"); vp_assert(now() + 1 >= until, "gave up before the timeout"); vp_assert(now() <= until + 1, "gave up after the timeout"); vp_cover("gave up"); }
	if (writer) { c = x.WriteUnlock(); vp_assert(c, "unlock"); } while (readers) { readers--; c = x.ReadUnlock(); vp_assert(c, "unlock"); } c = x.WriteLock(0); vp_assert(c, "a lock is left behind");
}
