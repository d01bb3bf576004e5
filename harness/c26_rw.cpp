// Reader/writer lock: THREADS threads read- and write-locking with any timeout in every interleaving within PRE preemptions.
#include "sync_common.h"
#include <new>
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
#include "sync/sync_event.cpp"
#include "sync/sync_readwritelock.cpp"
using namespace CubicleSoft;
static Sync::ReadWriteLock *obj[THREADS]; static int readers, writer, busy; static unsigned acts; static bool stay; static int kept_r, kept_w;
static void body(void *arg) {
	Sync::ReadWriteLock *l = obj[(size_t)arg];
	for (int i = 0; i < OPS; i++) {
		bool wr = vp_choice(2); uint32_t w = vp_u32(); bool alone = !busy && !readers && !writer, rd = !busy && !writer; unsigned a = acts; busy++; acts++;
		bool ok = wr ? l->WriteLock(w) : l->ReadLock(w); busy--; bool still = acts == a + 1;
		if (!ok) {
			vp_assert(w != INFINITE, "an unbounded lock request gave up"); if (!clockfail_used) vp_assert(!(still && alone), "refused although nobody holds or requests the lock"); if (!wr && !clockfail_used) vp_assert(!(still && rd), "a reader is refused although only readers hold the lock"); vp_cover("gave up"); acts++; continue;
		}
		vp_assert(!writer, "admitted while a writer holds the lock"); if (wr) vp_assert(!readers, "a writer is admitted while readers hold the lock");
		if (wr) { writer++; } else { readers++; if (readers > 1) vp_cover("readers share"); }
		vp_yield(); vp_assert(wr ? writer == 1 && !readers : !writer, "exclusion broken");
		if (stay && vp_choice(2)) { stay = false; if (wr) kept_w = 1; else kept_r = 1; return; }
		acts++; busy++; if (wr) writer--; else readers--; ok = wr ? l->WriteUnlock() : l->ReadUnlock(); vp_assert(ok, "unlock refused to a holder"); busy--; acts++;
	}
}
extern "C" void vp_main() {
	spurious = SPUR; stay = KEEP;
	{
		static char st[2][sizeof(Sync::ReadWriteLock)]; Sync::ReadWriteLock *l = new (st[0]) Sync::ReadWriteLock, *l2 = l; bool c = l->Create(NAMED ? "lock" : NULL); vp_assert(c, "create");
#ifdef TWO
		l2 = new (st[1]) Sync::ReadWriteLock; c = l2->Create("lock"); vp_assert(c, "create");
#endif
#ifdef RACE
		vp_share(l, sizeof(*l)); vp_share(shm[0].mem, shm[0].size);
#endif
#ifdef CLOCKFAIL
		clockfail = 1;
#endif
		for (size_t i = 0; i < THREADS; i++) { obj[i] = i & 1 ? l2 : l; vp_spawn(body, (void *)i); }
		vp_preempt(PRE); vp_block(VP_IDLE); vp_preempt(0); clockfail = 0; spurious = 0;
		if (kept_w || kept_r) {
			if (KEEP && vp_nblocked()) vp_cover("waits for the holder");
			if (kept_w) { writer--; c = l->WriteUnlock(); } else { readers--; c = l->ReadUnlock(); } vp_assert(c, "unlock"); vp_block(VP_IDLE);
		}
		vp_assert(vp_all_done(), "a request stays blocked although nobody holds the lock"); vp_assert(!readers && !writer, "harness");
		vp_assert(!l->ReadUnlock(), "a reader is left behind"); c = l->WriteLock(0); vp_assert(c, "a lock is left behind"); vp_assert(!l->ReadLock(0) && !l2->WriteLock(0), "a writer does not exclude"); c = l->WriteUnlock(); vp_assert(c, "unlock");
		c = l->ReadLock(0) && l2->ReadLock(0); vp_assert(c, "readers do not share"); vp_assert(!l->WriteLock(0), "readers do not exclude a writer"); c = l->ReadUnlock(); vp_assert(c && !l->WriteLock(0), "one of two readers does not exclude a writer"); c = l->ReadUnlock(); vp_assert(c, "unlock");
		l->~ReadWriteLock(); if (l2 != l) l2->~ReadWriteLock();
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
