// Every 64-bit integer is emitted as its exact decimal text.
#include "json_common.h"
extern "C" void vp_main() {
	bool sg = vp_choice(2); uint64_t v = vp_u64(), m = v; char exp[24]; unsigned n = 0;
	if (sg && vp_split((int64_t)v < 0)) { m = 0 - v; exp[n++] = '-'; }
	char d[20]; unsigned k = 0; do { d[k++] = '0' + (char)(m % 10); m /= 10; } while (m);
	while (k) exp[n++] = d[--k];
	size_t room = n - vp_choice(2); uint8_t *b = new uint8_t[room + 1]; S s; s.SetBuffer(b, room + 1);
	bool r = sg ? s.AppendInt((int64_t)v) : s.AppendUInt(v);
	vp_assert(r == (room == n), "integer append fits exactly or fails");
	if (r) { vp_assert(s.GetCurrPos() == n && b[n] == 0, "integer text length"); for (unsigned i = 0; i < n; i++) vp_assert(b[i] == (uint8_t)exp[i], "integer text differs"); vp_cover("int"); }
	delete[] b;
}
