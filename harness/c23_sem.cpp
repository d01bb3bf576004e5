// Semaphore: THREADS threads taking and giving back capacity in every interleaving within PRE preemptions.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
using namespace CubicleSoft;
static Sync::Semaphore *sem; static int holders, maxh, keep;
static void body(void *arg) {
	int id = (int)(size_t)arg; (void)id;
	for (int i = 0; i < OPS; i++) {
		uint32_t w = vp_u32(); bool ok = sem->Lock(w);   // every timeout, 0 and INFINITE included
		if (!ok) { vp_assert(w != INFINITE, "an unbounded wait gave up"); vp_cover("not admitted"); continue; }
		holders++; vp_assert(holders <= maxh, "more holders than the count");
		vp_yield();
		if (keep > 0 && vp_choice(2)) { keep--; continue; }   // stays a holder; the main thread gives it back
		holders--; int prev = -1; bool u = sem->Unlock(&prev); vp_assert(u, "unlock refused"); vp_assert(prev >= 0 && prev < maxh, "reported count");
	}
}
extern "C" void vp_main() {
	maxh = 1 + vp_choice(2); spurious = SPUR; keep = KEEP; bool named = NAMED;
	{
		Sync::Semaphore s; sem = &s; bool c = s.Create(named ? "sem" : NULL, maxh); vp_assert(c, "create");
#ifdef RACE
		vp_share(&s, sizeof(s)); vp_share(shm[0].mem, shm[0].size);   // preemption before every access to them
#endif
#ifdef CLOCKFAIL
		clockfail = 1;
#endif
		for (size_t i = 0; i < THREADS; i++) vp_spawn(body, (void *)i);
		vp_preempt(PRE); vp_block(VP_IDLE); vp_preempt(0);
		while (!vp_all_done()) { vp_assert(holders >= maxh, "a waiter stays blocked while capacity is free"); vp_cover("blocked on full"); holders--; s.Unlock(); vp_block(VP_IDLE); }
		clockfail = 0;
		for (int i = holders; i < maxh; i++) vp_assert(s.Lock(0), "capacity lost");
		vp_assert(!s.Lock(0) && !s.Lock(1), "capacity gained");
		for (int i = 0; i < maxh; i++) { int prev; s.Unlock(&prev); vp_assert(prev == i, "count"); }
		int prev; s.Unlock(&prev); vp_assert(prev == maxh, "count"); s.Unlock(&prev); vp_assert(prev == maxh, "count raised above the maximum");
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
