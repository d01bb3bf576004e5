// Two openers: they share memory exactly when kind, name and (rounded) size are equal. Names of symbolic bytes.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
#include "sync/sync_event.cpp"
#include "sync/sync_mutex.cpp"
#include "sync/sync_readwritelock.cpp"
#include "sync/sync_sharedmem.cpp"
using namespace CubicleSoft;
static char na[2][LMAX + 1]; static size_t ln[2];
static void name(int k) { ln[k] = vp_choice(LMAX + 1); for (size_t i = 0; i < ln[k]; i++) { na[k][i] = (char)vp_u8(); vp_assume(na[k][i] && na[k][i] != '/' && na[k][i] != '\\'); } na[k][ln[k]] = 0; }
extern "C" void vp_main() {
	static const size_t sizes[] = { 1, 4, 5, 8, 48, 1000, 10000 }; name(0); name(1);
	unsigned kind = vp_choice(6); bool same = ln[0] == ln[1]; for (size_t i = 0; same && i < ln[0]; i++) same = vp_split(na[0][i] == na[1][i]);
	{
		Sync::SharedMem a; Sync::SharedMem b; Sync::Semaphore s, s2; Sync::Event e, e2; Sync::Mutex m, m2; Sync::ReadWriteLock r; bool ok;
		if (kind == 0) {
			size_t x = sizes[vp_choice(7)], y = sizes[vp_choice(7)]; ok = a.Create(na[0], x); vp_assert(ok, "create"); ok = b.Create(na[1], y); vp_assert(ok, "create");
			vp_assert(vp_accessible(a.RawData(), x) && vp_accessible(b.RawData(), y), "memory is smaller than requested");
			bool eq = same && x == y; if (eq) vp_assert(a.RawData() == b.RawData() && a.First() && !b.First(), "equal names and sizes must share"); else if (!same || (x + 3) / 4 != (y + 3) / 4) vp_assert(a.RawData() != b.RawData() && b.First(), "different names or sizes must not share"); if (eq) vp_cover("shared");
			a.RawData()[x - 1] = 1; b.RawData()[y - 1] = 2;
		}
		else if (kind == 1) { ok = s.Create(na[0], 1); vp_assert(ok, "create"); ok = s2.Create(na[1], 1); vp_assert(ok, "create"); s.Lock(0); ok = s2.Lock(0); vp_assert(ok == !same, "semaphores share exactly by name"); }
		else if (kind == 2) { ok = e.Create(na[0], true, false); vp_assert(ok, "create"); ok = e2.Create(na[1], true, false); vp_assert(ok, "create"); e.Fire(); ok = e2.Wait(0); vp_assert(ok == same, "events share exactly by name"); }
		else if (kind == 3) { ok = s.Create(na[0], 1); vp_assert(ok, "create"); ok = m.Create(na[0]); vp_assert(ok, "create"); s.Lock(0); ok = m.Lock(0); vp_assert(ok, "a mutex and a semaphore of the same name interfere"); }
		else if (kind == 4) { ok = e.Create(na[0], true, true); vp_assert(ok, "create"); ok = r.Create(na[0]); vp_assert(ok, "create"); e.Reset(); ok = r.WriteLock(0); vp_assert(ok, "an event and a lock of the same name interfere"); }
		else { ok = s.Create(na[0], 1); vp_assert(ok, "create"); ok = s2.Create(NULL, 1); vp_assert(ok, "create"); s.Lock(0); ok = s2.Lock(0); vp_assert(ok, "unnamed objects share"); }
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks && mask == 022, "resources not released");
}
