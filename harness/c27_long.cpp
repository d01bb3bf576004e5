// Long names: still one well-formed object name, the same for the same input; memory safe.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_sharedmem.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	static char n[800]; size_t base = 255 - 1 - 15 - 6 - 6; unsigned c = vp_choice(9); static const int off[] = { -3, -2, -1, 0, 1, 2, 3, 260, 520 }; size_t len = base + off[c];
	for (size_t i = 0; i < len; i++) n[i] = (char)('a' + i % 26); n[0] = (char)vp_u8(); n[len / 2] = (char)vp_u8(); n[len - 1] = (char)vp_u8(); vp_assume(n[0] && n[len / 2] && n[len - 1]);
	{ Sync::SharedMem a, b; bool ok = a.Create(n, 64); vp_assert(ok && a.First(), "create"); ok = b.Create(n, 64); vp_assert(ok && !b.First() && a.RawData() == b.RawData(), "equal names must share"); ok = b.Create("other", 64); vp_assert(ok && b.First() && a.RawData() != b.RawData(), "different names must not share"); vp_cover("long"); }
	{ // equally long names that differ in one letter
		Sync::SharedMem a, b; for (size_t i = 0; i < len; i++) n[i] = (char)('a' + i % 26); size_t at[] = { 0, 1, len / 2, len - 2, len - 1 }, p = at[vp_choice(5)]; char x = (char)vp_u8(), y = (char)vp_u8(); vp_assume(x >= 'a' && x <= 'z' && y >= 'a' && y <= 'z' && x != y);
		n[p] = x; bool ok = a.Create(n, 64); vp_assert(ok && a.First(), "create"); n[p] = y; ok = b.Create(n, 64); vp_assert(ok && b.First() && a.RawData() != b.RawData(), "long names that differ in one letter must not share");
	}
	vp_assert(maps == 0 && openfds == 0 && mask == 022, "resources not released");
}
