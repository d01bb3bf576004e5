// All openers keep the memory open: exactly one is told to initialise it, whatever the interleaving.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_sharedmem.cpp"
using namespace CubicleSoft;
static Sync::SharedMem m[THREADS]; static char v[THREADS];
static void body(void *a) { size_t i = (size_t)a; bool ok = m[i].Create("mem", 8); vp_assert(ok, "create"); v[i] = (char)vp_u8(); m[i].RawData()[i] = v[i]; }
extern "C" void vp_main() {
#ifdef PRIOR
	{ Sync::SharedMem s; bool c = s.Create("mem", 8); vp_assert(c && s.First(), "create"); for (int i = 0; i < 8; i++) s.RawData()[i] = (char)vp_u8(); }
#endif
	for (size_t i = 0; i < THREADS; i++) vp_spawn(body, (void *)i);
	vp_preempt(PRE); vp_block(VP_IDLE); vp_preempt(0); vp_assert(vp_all_done(), "an opener waits for ever");
	int f = 0; for (auto &x : m) { f += x.First(); vp_assert(x.RawData() == m[0].RawData(), "equal names do not share memory"); } vp_assert(f == 1, "not exactly one opener is told to initialise");
	for (int i = 0; i < THREADS; i++) vp_assert(m[0].RawData()[i] == v[i], "data of an opener was cleared"); vp_assert(openfds == 0 && mask == 022, "resources not released"); vp_cover("done");
}
