// Semaphore used from one thread: every initial value, every history of STEPS operations, exact counts and exact deadlines.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	uint32_t max = (uint32_t)vp_range(0, 0x7fffffff), n; bool named = vp_choice(2);
	{
		Sync::Semaphore s; vp_assert(!s.Lock(0) && !s.Unlock(), "works before creation");
		if (vp_choice(2)) { bool c = s.Create(named ? "x" : NULL, (int)vp_range(0, 3)); vp_assert(c, "create"); if (vp_choice(2)) { s.Lock(0); } named = !named; }
		bool c = s.Create(named ? "name" : NULL, (int)max); vp_assert(c, "create"); n = max;
		for (int i = 0; i < STEPS; i++) {
			bool lock = vp_choice(2);
			if (lock) { unsigned k = vp_choice(3); uint32_t w = k == 0 ? 0 : k == 1 ? 5 : INFINITE; if (k == 2) vp_assume(n != 0); bool ok = s.Lock(w), exp = vp_split(n != 0); vp_assert(ok == exp, "admission differs from the count"); if (exp) n--; }
			else { int prev = -5; bool want = vp_choice(2); bool ok = s.Unlock(want ? &prev : NULL); vp_assert(ok, "unlock refused"); if (want) vp_assert(prev == (int)n, "reported count"); if (vp_split(n < max)) n++; }
		}
		if (vp_split(n != 0)) { Sync::Semaphore::AutoUnlock au(&s); vp_assert(s.Lock(), "lock"); vp_cover("scoped"); }
		int prev; s.Unlock(&prev); vp_assert(prev == (int)n, "final count");
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
