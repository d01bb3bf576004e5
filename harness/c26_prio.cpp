// A writer that waits keeps later readers out and gets the lock once the readers before it are gone.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
#include "sync/sync_event.cpp"
#include "sync/sync_readwritelock.cpp"
using namespace CubicleSoft;
static Sync::ReadWriteLock *l; static bool got, gave, late; static uint32_t ww, rw;
static void wr(void *) { got = l->WriteLock(ww); gave = !got; vp_assert(got || ww != INFINITE, "an unbounded request gave up"); if (got) { vp_assert(!late, "a writer shares with a reader"); vp_yield(); l->WriteUnlock(); } }
static void rd(void *) { bool ok = l->ReadLock(rw); if (ok) { vp_assert(got || gave, "a later reader overtakes a waiting writer"); late = true; vp_cover("reader after writer"); vp_yield(); late = false; l->ReadUnlock(); } else vp_assert(rw != INFINITE, "an unbounded request gave up"); }
extern "C" void vp_main() {
	Sync::ReadWriteLock x; l = &x; bool c = x.Create(vp_choice(2) ? "l" : NULL); vp_assert(c, "create"); spurious = 1;
	int n = 1 + (int)vp_choice(NR); for (int i = 0; i < n; i++) { c = x.ReadLock(0); vp_assert(c, "readers share"); }
	ww = INFINITE; vp_spawn(wr, NULL); vp_block(VP_IDLE); vp_assert(!got, "a writer is admitted while readers hold the lock");
	vp_assert(!x.ReadLock(0), "a later reader overtakes a waiting writer"); rw = vp_u32(); vp_spawn(rd, NULL); vp_preempt(PRE); vp_block(VP_IDLE);
	for (int i = 0; i < n; i++) { vp_assert(!got, "a writer is admitted while readers hold the lock"); c = x.ReadUnlock(); vp_assert(c, "unlock"); vp_block(VP_IDLE); }
	vp_preempt(0); vp_assert(vp_all_done() && got, "the waiting writer is starved"); c = x.WriteLock(0); vp_assert(c, "a lock is left behind"); vp_cover("served");
}
