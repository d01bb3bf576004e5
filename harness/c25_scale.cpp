// Hundreds of firings, waits and resets of one event, exact state.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_event.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	static const unsigned D[] = { 127, 256, 300, 1030 }; unsigned d = D[vp_choice(4)]; bool named = vp_choice(2), manual = vp_choice(2), pre = vp_choice(2);
	{
		Sync::Event e; vp_assert(e.Create(named ? "n" : NULL, manual, pre), "create"); vp_assert(e.Wait(0) == pre, "initial state"); if (manual && pre) vp_assert(e.Reset(), "reset");
		for (unsigned i = 0; i < d; i++) { vp_assert(!e.Wait(i % 2), "wait succeeds without firing"); vp_assert(e.Fire() && e.Fire(), "fire"); vp_assert(e.Wait(), "fired event refused"); if (manual) { vp_assert(e.Wait(0), "manual event closes itself"); vp_assert(e.Reset(), "reset"); } } vp_assert(!e.Wait(0), "open after the last wait");
		for (unsigned i = 0; i < d; i++) vp_assert(e.Fire(), "fire"); vp_assert(e.Wait(0), "fired event refused"); if (!manual) vp_assert(!e.Wait(0), "firings are counted"); else for (unsigned i = 0; i < d; i++) vp_assert(e.Wait(0), "manual event closes itself"); vp_cover("many");
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
