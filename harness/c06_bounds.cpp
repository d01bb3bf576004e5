// All-or-nothing appends in a buffer of any size, checked against a serializer with ample room.
#include "json_common.h"
static Op symop(unsigned maxstr) {
	Op o; o.code = vp_choice(ONOPS); o.haskey = takeskey(o.code) && vp_choice(2);
	if (o.haskey) { unsigned n = vp_choice(KEYLEN + 1); vp_sym_bytes(o.key, n); for (unsigned i = 0; i < n; i++) vp_assume(o.key[i] != 0); o.key[n] = 0; }
	if (o.code == OStr || o.code == OStrN) { o.len = vp_choice(maxstr + 1); vp_sym_bytes(o.str, o.len); o.str[o.len] = 0; if (o.code == OStr) for (unsigned i = 0; i < o.len; i++) vp_assume(o.str[i] != 0); }
	else if (o.code == ORaw) o.len = vp_choice(3);
	else if (o.code == OBool) o.b = vp_choice(2);
	else if (o.code == OInt || o.code == OUInt) o.num = NUMS[vp_choice(6)];
	return o;
}
extern "C" void vp_main() {
	bool esc = vp_choice(2); unsigned ctx = vp_choice(NCTX);
	const char *ks = vp_choice(2) ? ": " : ":", *vs = *ks && ks[1] ? ", " : ",";
	S a(esc, ks, vs, 6), b(esc, ks, vs, 6);
	static uint8_t big[512]; b.SetBuffer(big, sizeof(big));
	static uint8_t ctxbuf[64]; a.SetBuffer(ctxbuf, sizeof(ctxbuf));
	context(a, ctx); context(b, ctx);
	static uint8_t all[512]; size_t an = b.GetCurrPos();
	for (unsigned step = 0; step < STEPS; step++) {
		Op o = symop(STRLEN);
		if (o.code == OStr) { size_t p0 = b.GetCurrPos(); size_t c = a.CalculateStrSize(o.str), c2 = a.CalculateStrSize(o.str, (size_t)o.len, false); bool inobj = b.IsKeyRequired();
			S t(esc, ks, vs, 6); static uint8_t tb[64]; t.SetBuffer(tb, 64); if (a.GetCurrMode() == S::ModeStr) { t.StartStr(); } size_t q = t.GetCurrPos(); t.AppendStr(o.str);
			vp_assert(c == t.GetCurrPos() - q && c2 == c, "predicted string size differs from the bytes emitted"); vp_assert(a.CalculateStrSize(o.str, true) == c + strlen(ks) && a.CalculateStrSize(o.str, (size_t)o.len, true) == c + strlen(ks), "predicted key size differs"); }
		size_t bp = b.GetCurrPos(); S::ModeType bm = b.GetCurrMode();
		bool rb = apply(b, o); size_t d = b.GetCurrPos() - bp;
		if (!rb) { vp_assert(d == 0 && b.GetCurrMode() == bm, "refused call changed the serializer"); vp_cover("refused"); }
		vp_assert(big[b.GetCurrPos()] == 0 || (!rb && step == 0), "text not terminated");
		// room left in a: exact, one short, more, none
		size_t room; switch (vp_choice(4)) { case 0: room = d; break; case 1: room = d ? d - 1 : 0; break; case 2: room = 0; break; default: room = d + 2; }
		size_t have = ((ctx + step) & 1) * 3; uint8_t *small = new uint8_t[have + room + 1];
		a.SetBuffer(small, have + room + 1); vp_assert(a.GetBufferSize() == have + room && a.GetBuffer() == small && a.GetCurrPos() == 0, "SetBuffer");
		S::ModeType am = a.GetCurrMode();
		if (have) { bool r = a.Append("xyz", 3); vp_assert(r && a.GetCurrPos() == 3, "raw append that fits fails"); }
		bool ra = apply(a, o);
		size_t need = o.code == OBool && o.b ? d + 1 : d;   // "true" may be refused with exactly four bytes left
		vp_assert(a.GetCurrPos() <= a.GetBufferSize(), "position beyond the buffer");
		if (!rb) vp_assert(!ra, "call accepted in one buffer and refused in another");
		if (rb && room >= need) vp_assert(ra, "call whose text fits fails");
		if (ra) {
			vp_assert(a.GetCurrPos() == have + d && room >= d, "appended size differs");
			for (size_t i = 0; i < d; i++) vp_assert(small[have + i] == big[bp + i], "appended text differs");
			vp_assert(small[have + d] == 0, "text not terminated");
			vp_assert(a.GetCurrMode() == b.GetCurrMode(), "mode differs"); vp_cover("fit");
		} else {
			vp_assert(a.GetCurrPos() == have && a.GetCurrMode() == am, "failed call changed position or mode");
			if (rb) { // flush and retry in a buffer that is large enough: the streamed text must be the same
				uint8_t *s2 = new uint8_t[need + 1]; a.SetBuffer(s2, need + 1); bool r2 = apply(a, o); vp_assert(r2 && a.GetCurrPos() == d && a.GetCurrMode() == b.GetCurrMode(), "retry with enough room fails");
				for (size_t i = 0; i < d; i++) vp_assert(s2[i] == big[bp + i], "retried text differs");
				delete[] s2; vp_cover("retry");
			}
		}
		if (have) vp_assert(small[0] == 'x' && small[1] == 'y' && small[2] == 'z', "earlier text changed");
		delete[] small;
	}
	// finishing in tiny pieces yields the same text as at once
	size_t fp = b.GetCurrPos(); vp_assert(b.Finish(), "finish fails with ample room"); size_t fl = b.GetCurrPos() - fp, got = 0;
	size_t piece = 1 + (ctx >> 1 & 1); uint8_t *t = new uint8_t[piece + 1];
	for (unsigned i = 0;; i++) {
		vp_assert(i <= fl, "finish makes no progress");
		a.SetBuffer(t, piece + 1); bool r = a.Finish();
		vp_assert(a.GetCurrPos() <= piece && got + a.GetCurrPos() <= fl, "finish emits too much");
		for (size_t j = 0; j < a.GetCurrPos(); j++) vp_assert(t[j] == big[fp + got + j], "finish emits different text");
		got += a.GetCurrPos(); if (r) break;
	}
	vp_assert(got == fl, "finish reports success before everything is closed");
	delete[] t;
}
