// Emitted text is well-formed JSON that decodes to the appended events; ill-formed calls are refused.
#include "json_common.h"
#define MAXEV 24
struct Ev { char t; uint8_t s[12]; unsigned n; };   // t: { } [ ] s k n t f i
static Ev exp_[MAXEV]; static unsigned ne; static int depth; static char st[8];
static void ev(char t, const char *s = "", unsigned n = 0) { exp_[ne].t = t; for (unsigned i = 0; i < n; i++) exp_[ne].s[i] = s[i]; exp_[ne].n = n; ne++; }
static char numev[MAXEV][24]; static uint8_t buf[512]; static size_t pos;
static unsigned hex(uint8_t c) { vp_assert((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'), "bad hex digit"); return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void ws() { while (buf[pos] == ' ') pos++; }
static void pstr(const Ev &e) {
	vp_assert(buf[pos] == '"', "string expected"); pos++;
	for (unsigned i = 0; i < e.n; i++) {
		uint8_t c = buf[pos++], d;
		vp_assert(c != '"', "string ends too early");
		vp_assert(c >= 0x20, "control character inside a JSON string");
		if (c == '\\') {
			uint8_t x = buf[pos++];
			switch (x) { case 'b': d = 8; break; case 'f': d = 12; break; case 'n': d = 10; break; case 'r': d = 13; break; case 't': d = 9; break; case '"': case '\\': case '/': d = x; break;
				case 'u': { unsigned v = 0; for (int j = 0; j < 4; j++) v = v * 16 + hex(buf[pos++]); vp_assert(v < 0x80, "unexpected unicode escape"); d = (uint8_t)v; vp_cover("uesc"); break; }
				default: vp_assert(0, "invalid escape in JSON string"); d = 0; }
		} else d = c;
		vp_assert(d == e.s[i], "JSON string decodes to other content");
	}
	vp_assert(buf[pos] == '"', "JSON string decodes to more content"); pos++;
}
static void lit(const char *w) { for (; *w; w++) { vp_assert(buf[pos] == (uint8_t)*w, "literal differs"); pos++; } }
static void text(size_t end) {  // parse the whole text against the expected events
	char stk[10]; int d = 0; bool first[10]; pos = 0; first[0] = true;
	for (unsigned i = 0; i < ne; i++) {
		const Ev &e = exp_[i]; ws();
		if (e.t == '}' || e.t == ']') { vp_assert(buf[pos] == (uint8_t)e.t, "closing bracket expected"); pos++; vp_assert(d > 0 && stk[d] == (e.t == '}' ? '{' : '['), "bracket mismatch"); d--; continue; }
		bool afterkey = i && exp_[i - 1].t == 'k';
		if (!afterkey) { if (d && !first[d]) { vp_assert(buf[pos] == ',', "comma expected"); pos++; ws(); } first[d] = false; }
		if (e.t == 'k') { vp_assert(d && stk[d] == '{', "key outside an object"); pstr(e); ws(); vp_assert(buf[pos] == ':', "colon expected"); pos++; continue; }
		vp_assert(d == 0 || stk[d] == '[' || afterkey, "object member without key");
		switch (e.t) {
			case '{': case '[': vp_assert(buf[pos] == (uint8_t)e.t, "opening bracket expected"); pos++; stk[++d] = e.t; first[d] = true; break;
			case 's': pstr(e); break;
			case 'n': lit("null"); break; case 't': lit("true"); break; case 'f': lit("false"); break;
			case 'I': lit(numev[i]); break;
			default: lit((const char *)e.s); break;
		}
	}
	ws(); vp_assert(d == 0 && pos == end, "text continues after the value");
}
static const char *NUMTXT[] = { "0", "-1", "7", "-9223372036854775808", "9223372036854775807", "-1234567890123" };
static const char *UTXT[] = { "0", "18446744073709551615", "7", "9223372036854775808", "9223372036854775807", "18446742839141661493" };
extern "C" void vp_main() {
	bool esc = vp_choice(2); static const char *KS[] = { ": ", ":", " : " }, *VS[] = { ", ", ",", " , " }; unsigned sp = vp_choice(SPL);
	S s(esc, KS[sp], VS[sp], 5);
	s.SetBuffer(buf, sizeof(buf));
	unsigned ctx = vp_choice(NCTX); context(s, ctx);
	// events and open containers of the context ('"' = streamed string)
	bool rootdone = ctx != 0; char open[10]; int d = 0;
	switch (ctx) {
		case 1: ev('['); open[++d] = '['; break; case 2: ev('['); open[++d] = '['; ev('n'); break; case 3: ev('{'); open[++d] = '{'; break;
		case 4: ev('{'); open[++d] = '{'; ev('k', "a", 1); ev('i', "1", 2); break; case 5: ev('s'); open[++d] = '"'; break;
		case 6: ev('['); open[++d] = '['; ev('s'); open[++d] = '"'; break;
		case 7: ev('{'); open[++d] = '{'; ev('k', "n", 1); ev('n'); ev('k', "k", 1); ev('s'); open[++d] = '"'; break;
		case 8: ev('n'); break;
		case 9: ev('['); ev('{'); open[++d] = '['; open[++d] = '{'; ev('k', "x", 1); ev('n'); break;
	}
	for (unsigned step = 0; step < STEPS; step++) {
		Op o; o.code = vp_choice(ORaw); o.haskey = takeskey(o.code) && vp_choice(2);
		if (o.haskey) { if (step) o.key[0] = 0x22; else if (!vp_choice(2)) o.key[0] = 0; else { vp_sym_bytes(o.key, 1); vp_assume(o.key[0] != 0); } o.key[1] = 0; }
		unsigned ni = 0;
		if (o.code == OStr || o.code == OStrN) { o.len = vp_choice((step ? 1 : STRLEN) + 1); vp_sym_bytes(o.str, o.len); o.str[o.len] = 0; if (o.code == OStr) for (unsigned i = 0; i < o.len; i++) vp_assume(o.str[i] != 0); }
		else if (o.code == OBool) o.b = vp_choice(2);
		else if (o.code == OInt || o.code == OUInt) { ni = step ? 3 : vp_choice(6); o.num = NUMS[ni]; }
		// legality
		char in = d ? open[d] : 0; bool legal;
		if (o.code == OEndObj) legal = in == '{'; else if (o.code == OEndArr) legal = in == '['; else if (o.code == OEndStr) legal = in == '"';
		else if (in == '"') legal = o.code == OStr || o.code == OStrN;
		else { legal = in == '{' ? o.haskey : !o.haskey; if (!in && rootdone) legal = false; if (o.code <= OStartStr && d + 1 >= 5) legal = false; }
		vp_assert(s.IsKeyRequired() == (in == '{'), "IsKeyRequired is wrong");
		bool r = apply(s, o);
		vp_assert(r == legal, "call accepted although ill formed, or refused although well formed");
		if (!r) { vp_cover("refused"); continue; }
		rootdone = true;
		if (o.code == OEndObj) { ev('}'); d--; } else if (o.code == OEndArr) { ev(']'); d--; } else if (o.code == OEndStr) d--;
		else if (in == '"') { Ev &e = exp_[ne - 1]; for (unsigned i = 0; i < o.len; i++) e.s[e.n++] = o.str[i]; vp_cover("streamed"); }
		else {
			if (o.haskey) ev('k', o.key, o.key[0] ? 1 : 0);
			switch (o.code) {
				case OStartObj: ev('{'); open[++d] = '{'; break; case OStartArr: ev('['); open[++d] = '['; break; case OStartStr: ev('s'); open[++d] = '"'; break;
				case ONull: ev('n'); break; case OBool: ev(o.b ? 't' : 'f'); break;
				case OInt: case OUInt: { const char *t = o.code == OInt ? NUMTXT[ni] : UTXT[ni]; ev('I'); for (unsigned i = 0;; i++) { numev[ne - 1][i] = t[i]; if (!t[i]) break; } break; }
				default: ev('s', o.str, o.len);
			}
		}
	}
	vp_assert(s.Finish(), "finish fails with ample room");
	while (d) { if (open[d] != '"') ev(open[d] == '{' ? '}' : ']'); d--; }
	if (ne == 0) { vp_assert(s.GetCurrPos() == 0, "text without any call"); vp_end(); }
	text(s.GetCurrPos());
	vp_assert(buf[s.GetCurrPos()] == 0, "text not terminated");
	vp_cover("parsed");
}
