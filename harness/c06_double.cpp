// AppendDouble around any text the C library may produce for a double: all or nothing, in a buffer of any size.
#include "json_common.h"
static size_t want; static char fmt[128], src[5];
extern "C" int vp_stub_snprintf(char *s, size_t n, const char *f, ...) {
	// contract: at most n - 1 characters and a terminator; the result is the full length
	for (size_t i = 0; i < want && i + 1 < n; i++) { s[i] = src[i % 5]; fmt[i] = s[i]; fmt[i + 1] = 0; }
	if (n) s[want < n ? want : n - 1] = 0;
	return (int)want;
}
extern "C" void vp_main() {
	static const size_t lens[] = { 1, 2, 22, 98, 99, 100, 107, 320 }; want = lens[vp_choice(8)]; vp_sym_bytes(src, 5); for (int i = 0; i < 5; i++) vp_assume(src[i] != 0); double v; uint64_t bits = vp_u64(); memcpy(&v, &bits, 8);
	unsigned ctx = vp_choice(5); S s(false, ":", ",", 6); static uint8_t cb[64]; s.SetBuffer(cb, sizeof(cb)); context(s, ctx); vp_assert(s.GetCurrPos() < 60, "context");
	bool key = s.IsKeyRequired(); S::ModeType m0 = s.GetCurrMode(); size_t pre = (ctx == 2 || ctx == 4 ? 1 : 0) + (key ? 4 : 0);
	// the text kept is the produced one, up to the internal buffer
	S big(false, ":", ",", 6); static uint8_t bb[512]; big.SetBuffer(bb, sizeof(bb)); context(big, ctx); size_t p0 = big.GetCurrPos();
	bool ok = key ? big.AppendDouble("k", v) : vp_choice(2) ? big.AppendDouble(v) : big.AppendDouble(v, 3); vp_assert(ok, "a double is refused with ample room");
	size_t d = big.GetCurrPos() - p0; vp_assert(d >= pre + (want < 22 ? want : 22) && d <= pre + want, "appended size"); for (size_t i = pre; i < d; i++) vp_assert(bb[p0 + i] == (uint8_t)fmt[i - pre], "text is not the formatted number"); vp_assert(bb[p0 + d] == 0, "text not terminated");
	size_t room = vp_choice(3); room = room == 0 ? d : room == 1 ? d - 1 : 0; uint8_t *b = new uint8_t[room + 1]; s.SetBuffer(b, room + 1);
	bool r = key ? s.AppendDouble("k", v) : s.AppendDouble(v);
	vp_assert(r == (room >= d), "accepted without room, or refused with room");
	if (r) { for (size_t i = 0; i < d; i++) vp_assert(b[i] == bb[p0 + i], "appended text differs"); vp_assert(b[d] == 0 && s.GetCurrPos() == d && s.GetCurrMode() == big.GetCurrMode(), "position or mode"); vp_cover("fit"); }
	else { vp_assert(s.GetCurrPos() == 0 && s.GetCurrMode() == m0, "failed call changed position or mode"); vp_cover("refused"); }
	delete[] b;
}
