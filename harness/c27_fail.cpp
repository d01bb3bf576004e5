// One failing system call at any point: reported, nothing stays acquired, and the name stays usable.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_sharedmem.cpp"
#include "sync/sync_semaphore.cpp"
#include "sync/sync_event.cpp"
#include "sync/sync_readwritelock.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	bool prior = vp_choice(2); { Sync::SharedMem p; Sync::Semaphore q; Sync::Event e; Sync::ReadWriteLock l; if (prior) { p.Create("n", 20); q.Create("n", 2); e.Create("n"); l.Create("n"); if (vp_choice(2)) vp_end(); } }
	sysfail = FAILS; unsigned kind = vp_choice(4);
	{
		Sync::SharedMem m; Sync::Semaphore s; Sync::Event e; Sync::ReadWriteLock r; int done = 0;
		for (int i = 0; i < 3; i++) {
			if (i == 2) sysfail = 0;
			bool ok = kind == 0 ? m.Create("n", 20) : kind == 1 ? s.Create("n", 2) : kind == 2 ? e.Create("n", false, true) : r.Create("n");
			vp_assert(openfds == 0 && mask == 022 && maps == (ok ? 1 : 0), "a failure leaves resources acquired");
			if (!ok) { vp_cover("failed"); if (kind == 0) vp_assert(!m.RawData(), "pointer after a failure"); if (kind == 1) vp_assert(!s.Lock(0) && !s.Unlock(), "works without creation"); if (kind == 2) vp_assert(!e.Wait(0) && !e.Fire(), "works without creation"); if (kind == 3) vp_assert(!r.ReadLock(0) && !r.WriteLock(0) && !r.ReadUnlock() && !r.WriteUnlock(), "works without creation"); }
			else { done++; if (kind == 0) { vp_assert(m.First(), "nobody is told to initialise"); m.RawData()[19] = 1; } if (kind == 1) vp_assert(s.Lock(0) && s.Lock(0) && !s.Lock(0), "fresh object"); if (kind == 2) vp_assert(e.Wait(0) && !e.Wait(0), "fresh object"); if (kind == 3) vp_assert(r.WriteLock(0) && !r.ReadLock(0), "fresh object"); }
			if (i == 2) vp_assert(ok, "the name stays unusable after a failure");
		}
	}
	vp_assert(maps == 0 && openfds == 0 && mask == 022 && vp_heap_live() == poolblocks, "resources not released");
}
