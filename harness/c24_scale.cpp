// Deep recursion: a mutex locked hundreds of times stays owned until the last unlock.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_mutex.cpp"
using namespace CubicleSoft;
static Sync::Mutex *other; static bool othergot;
static void body(void *) { bool ok = other->Lock(0); othergot = ok; if (ok) other->Unlock(); }
static bool free_for_other() { othergot = false; vp_spawn(body, NULL); vp_block(VP_IDLE); return othergot; }
extern "C" void vp_main() {
	static const unsigned D[] = { 127, 128, 255, 256, 257, 1030 }; unsigned d = D[vp_choice(6)]; bool named = vp_choice(2);
	{
		Sync::Mutex m; vp_assert(m.Create(named ? "n" : NULL), "create"); other = &m;
		for (unsigned i = 0; i < d; i++) vp_assert(m.Lock(i % 5 == 0 ? vp_u32() : INFINITE), "owner refused"); vp_assert(!free_for_other(), "another thread enters"); unsigned how = vp_choice(2);
		if (how) { vp_assert(m.Unlock(true), "unlock all"); vp_cover("all at once"); } else { for (unsigned i = 0; i + 1 < d; i++) vp_assert(m.Unlock(), "unlock"); vp_assert(!free_for_other(), "another thread enters before the last unlock"); vp_assert(m.Unlock(), "unlock"); vp_cover("one by one"); }
		vp_assert(free_for_other(), "still owned after the last unlock"); vp_assert(!m.Unlock(), "unlock of a free mutex"); vp_assert(m.Lock(0) && m.Unlock(), "usable afterwards");
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
