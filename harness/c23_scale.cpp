// Large counts: hundreds of locks and unlocks one after another, exact counts and refusals.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	static const int M[] = { 127, 128, 255, 256, 257, 300, 1030 }; int max = M[vp_choice(7)]; bool named = vp_choice(2);
	{
		Sync::Semaphore s; vp_assert(s.Create(named ? "n" : NULL, max), "create"); int prev;
		for (int i = 0; i < max; i++) vp_assert(s.Lock(i == 7 ? (uint32_t)vp_sym(31) : i % 3 ? INFINITE : 5), "free slot refused"); vp_assert(!s.Lock(0) && !s.Lock(3), "more owners than the limit"); vp_cover("full");
		for (int i = 0; i < max; i++) { prev = -7; vp_assert(s.Unlock(&prev) && prev == i, "reported count"); } vp_assert(s.Unlock(&prev) && prev == max, "reported count"); vp_assert(s.Unlock(&prev) && prev == max, "count beyond the limit");
		for (int i = 0; i < max; i++) vp_assert(s.Lock(0), "free slot refused"); vp_assert(!s.Lock(0), "more owners than the limit"); for (int i = 0; i < 5; i++) { vp_assert(s.Unlock(), "unlock"); vp_assert(s.Lock(), "released slot refused"); vp_assert(!s.Lock(0), "more owners than the limit"); }
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
