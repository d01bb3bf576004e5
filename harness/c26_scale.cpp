// Hundreds of readers at once: the writer is refused until the last one leaves.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
#include "sync/sync_event.cpp"
#include "sync/sync_readwritelock.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	static const unsigned D[] = { 1, 127, 128, 255, 256, 257, 1030 }; unsigned d = D[vp_choice(7)]; bool named = vp_choice(2);
	{
		Sync::ReadWriteLock l; vp_assert(l.Create(named ? "n" : NULL), "create");
		for (unsigned i = 0; i < d; i++) vp_assert(l.ReadLock(i == 7 ? vp_u32() : i % 3 ? INFINITE : 5), "reader refused"); vp_assert(!l.WriteLock(0) && !l.WriteLock(4), "writer enters beside readers");
		for (unsigned i = 0; i + 1 < d; i++) vp_assert(l.ReadUnlock(), "read unlock"); vp_assert(!l.WriteLock(0), "writer enters beside the last reader"); vp_assert(l.ReadUnlock() && !l.ReadUnlock(), "read unlock");
		for (unsigned i = 0; i < d; i++) { vp_assert(l.WriteLock(i % 2 ? 0 : INFINITE), "writer refused though free"); vp_assert(!l.ReadLock(0) && !l.WriteLock(0), "writer does not exclude"); vp_assert(l.WriteUnlock(), "write unlock"); } vp_assert(l.ReadLock(0) && l.ReadLock(), "reader refused though free"); vp_cover("many");
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
