// Event used from one thread: every history of STEPS operations, exact state; deadlines of timed waits.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_event.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	deadline_check = 1; now_sec = vp_sym(33); now_nsec = vp_sym(30); vp_assume(now_nsec <= 999999999);
	{
		Sync::Event e; vp_assert(!e.Wait(0) && !e.Fire() && !e.Reset(), "works before creation"); bool on = false, manual = false, made = false;
		for (int i = 0; i < STEPS; i++) switch (made ? vp_choice(4) : 0) {
			case 0: { bool named = vp_choice(2); manual = vp_choice(2); on = vp_choice(2); bool c = e.Create(named ? "n" : NULL, manual, on); vp_assert(c, "create"); made = true; break; }
			case 1: { uint32_t w = (uint32_t)vp_sym(16); wait_ms = w; bool inf = on && vp_choice(2); bool ok = inf ? e.Wait() : e.Wait(w); vp_assert(ok == on, "wait differs from the state"); if (!manual) on = false; break; }
			case 2: { bool ok = e.Fire(); vp_assert(ok, "fire"); on = true; break; }
			default: { bool ok = e.Reset(); vp_assert(ok == manual, "reset"); if (manual) on = false; }
		}
		vp_assert(e.Wait(0) == on, "final state"); vp_cover("history");
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
