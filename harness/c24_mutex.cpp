// Mutex: THREADS threads locking (any timeout), re-locking and unlocking in every interleaving within PRE preemptions, through one
// object or (TWO) through one object per thread sharing a name.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_mutex.cpp"
using namespace CubicleSoft;
static Sync::Mutex *mx[THREADS]; static int owner = -1, depth;
static void body(void *arg) {
	int id = (int)(size_t)arg; Sync::Mutex *m = mx[id];
#ifdef TWO
	bool c = m->Create("mutex"); vp_assert(c, "create");
#endif
	for (int i = 0; i < OPS; i++) {
		if (vp_choice(2)) {
			uint32_t w = vp_u32(); bool mine = owner == id; bool ok = m->Lock(w);
			if (!ok) { vp_assert(w != INFINITE, "an unbounded wait gave up"); vp_assert(!mine, "the owner cannot lock again"); vp_cover("not admitted"); }
			else { vp_assert(owner == -1 || owner == id, "two threads own the mutex"); vp_assert(mine == (owner == id), "ownership"); owner = id; depth++; if (OPS > 1 && depth > 1) vp_cover("re-entered"); }
		} else {
			bool all = vp_choice(2), mine = owner == id; if (mine) { depth = all ? 0 : depth - 1; if (!depth) owner = -1; }
			bool ok = m->Unlock(all); vp_assert(ok == mine, "unlocking must succeed exactly for the owner"); if (!mine) vp_cover("foreign unlock");
		}
	}
	if (owner == id) { while (depth > 1) { depth--; bool ok = m->Unlock(); vp_assert(ok, "unlock"); vp_assert(owner == id, "ownership"); } depth = 0; owner = -1; bool ok = m->Unlock(); vp_assert(ok, "unlock"); }
}
extern "C" void vp_main() {
	spurious = SPUR;
	{
#ifdef TWO
		Sync::Mutex o[THREADS]; for (int i = 0; i < THREADS; i++) mx[i] = &o[i];
#else
		Sync::Mutex o[1]; for (int i = 0; i < THREADS; i++) mx[i] = &o[0]; bool c = o[0].Create(NAMED ? "mutex" : NULL); vp_assert(c, "create");
#endif
#ifdef RACE
		vp_share(&o[0], sizeof(o)); vp_share(shm[0].mem, shm[0].size);
#endif
		for (size_t i = 0; i < THREADS; i++) vp_spawn(body, (void *)i);
		vp_preempt(PRE); vp_block(VP_IDLE); vp_preempt(0);
		vp_assert(vp_all_done(), "a thread stays blocked although the mutex is free");
		for (auto &m : o) { vp_assert(!m.Unlock() && !m.Unlock(true), "unlocked by a non-owner"); vp_assert(m.Lock(0) && m.Lock(7), "a released mutex cannot be taken"); vp_assert(m.Unlock() && m.Unlock() && !m.Unlock(), "unlock"); }
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
