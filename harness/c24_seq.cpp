// Mutex used from one thread: every history of STEPS operations including (re-)creation, failing creation and destruction while owned;
// a second object of the same name stands for another process.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_mutex.cpp"
using namespace CubicleSoft;
static Sync::Mutex *other; static bool othergot;
static void body(void *) { bool ok = other->Lock(0); othergot = ok; if (ok) other->Unlock(); }
static bool free_for_other() { othergot = false; vp_spawn(body, NULL); vp_block(VP_IDLE); return othergot; }
extern "C" void vp_main() {
	{
		Sync::Mutex o; bool oc = o.Create("n"); vp_assert(oc, "create"); other = &o;
		{
			Sync::Mutex m; unsigned depth = 0; int made = 0;   // made: 0 not created, 1 unnamed, 2 named like o
#ifdef SYSFAIL
			sysfail = 1;
#endif
			for (int i = 0; i < STEPS; i++) switch (vp_choice(5)) {
				case 0: case 1: { bool named = vp_choice(2); bool c = m.Create(named ? "n" : NULL); if (c) { made = named ? 2 : 1; } else { vp_assert(SYSF, "create"); made = 0; if (SYSF) vp_cover("creation failed"); } depth = 0; break; }
				case 2: { uint32_t w = vp_u32(); bool ok = m.Lock(w); vp_assert(ok == (made != 0), "lock"); if (ok) depth++; break; }
				case 3: { bool all = vp_choice(2); bool ok = m.Unlock(all); vp_assert(ok == (depth > 0), "unlock"); if (ok) depth = all ? 0 : depth - 1; break; }
				default: { Sync::Mutex::AutoUnlock au(&m); if (depth) { bool ok = m.Lock(); vp_assert(ok, "lock"); } else { bool ok = m.Lock(0); vp_assert(ok == (made != 0), "lock"); } }
			}
			sysfail = 0; vp_assert(free_for_other() == !(made == 2 && depth), "another owner can take the mutex exactly when it is free"); vp_cover("history");
		}
		vp_assert(free_for_other(), "destroying an owned mutex must release it");
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
