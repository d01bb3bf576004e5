// Integers in every radix appended and prepended to a thread-local variable.
#include "tls_common.h"
extern "C" void vp_main() {
	unsigned radix = 2 + vp_choice(35); bool sg = vp_choice(2), pre = vp_choice(2);
	uint64_t v = vp_u64(), m = v; char exp[80]; size_t n = 0;
	if (sg && vp_split((int64_t)v < 0)) { m = 0 - v; exp[n++] = '-'; }
	char d[64]; unsigned k = 0; do { d[k++] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"[m % radix]; m /= radix; } while (m);
	while (k) exp[n++] = d[--k];
	TLS t; t.ThreadInit(); TLS::MixedVar x(&t); x.SetStr("#");
	if (pre) { if (sg) x.PrependInt((int64_t)v, radix); else x.PrependUInt(v, radix); } else { if (sg) x.AppendInt((int64_t)v, radix); else x.AppendUInt(v, radix); }
	vp_assert(x.GetSize() == n + 1 && x.GetStr()[n + 1] == 0, "integer text length");
	for (size_t i = 0; i < n; i++) vp_assert(x.GetStr()[i + (pre ? 0 : 1)] == exp[i], "integer text differs");
	vp_assert(x.GetStr()[pre ? n : 0] == '#', "existing text changed"); vp_cover("done");
}
