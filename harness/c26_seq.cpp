// Reader/writer lock used from one thread: every history of STEPS operations, exact state.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
#include "sync/sync_event.cpp"
#include "sync/sync_readwritelock.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	{
		Sync::ReadWriteLock l; vp_assert(!l.ReadLock(0) && !l.WriteLock(0) && !l.ReadUnlock() && !l.WriteUnlock() && !l.ReadLock() && !l.WriteLock(), "works before creation"); int r = 0; bool w = false, made = false;
		for (int i = 0; i < STEPS; i++) switch (made ? vp_choice(6) : 0) {
			case 0: { bool named = vp_choice(2); bool c = l.Create(named ? "n" : NULL); vp_assert(c, "create"); made = true; r = 0; w = false; break; }
			case 1: { uint32_t t = vp_u32(); if (w) vp_assume(t != INFINITE); bool ok = l.ReadLock(t); vp_assert(ok == !w, "read lock differs from the state"); if (ok) r++; else vp_cover("reader refused"); break; }
			case 2: { uint32_t t = vp_u32(); if (w || r) vp_assume(t != INFINITE); bool ok = l.WriteLock(t); vp_assert(ok == !(w || r), "write lock differs from the state"); if (ok) w = true; else vp_cover("writer refused"); break; }
			case 3: { bool ok = l.ReadUnlock(); vp_assert(ok == (r > 0), "read unlock differs from the state"); if (r) r--; break; }
			case 4: { if (r) { Sync::ReadWriteLock::AutoReadUnlock a(&l); r--; } else { l.WriteUnlock(); w = false; } break; }
			default: { if (w) { Sync::ReadWriteLock::AutoWriteUnlock a(&l); w = false; } else l.WriteUnlock(); }
		}
		bool ok = l.ReadLock(0); vp_assert(ok == !w, "final state"); if (ok) { ok = l.ReadUnlock(); vp_assert(ok, "final state"); } ok = l.WriteLock(0); vp_assert(ok == !(w || r), "final state");
		if (ok) { vp_assert(!l.WriteLock(0) && !l.ReadLock(0), "a writer does not exclude"); } vp_cover("history");
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
