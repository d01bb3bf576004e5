// The options act the same whether given at construction or set later; Reset starts over; the depth limit refuses; the defaults are ": " and ", ".
#include "json_common.h"
static void text(S &s, char c) { char v[2] = { c, 0 }; bool ok = s.StartObject() && s.AppendStr("a", v) && s.StartArray("b") && s.AppendNull() && s.AppendBool(true) && s.EndArray() && s.EndObject(); vp_assert(ok, "legal calls refused"); }
extern "C" void vp_main() {
	bool esc = vp_choice(2); char k[3], w[3]; unsigned kn = vp_choice(3), wn = vp_choice(3); vp_sym_bytes(k, kn); vp_sym_bytes(w, wn); for (unsigned i = 0; i < kn; i++) vp_assume(k[i] != 0); for (unsigned i = 0; i < wn; i++) vp_assume(w[i] != 0); k[kn] = 0; w[wn] = 0;
	char c = (char)vp_u8(); vp_assume(c >= 0x20 && c != '"' && c != '\\');
	static uint8_t a[64], b[64]; S s(esc, k, w), t; t.SetEscapeSlashes(esc); t.SetKeySplitter(k); t.SetValSplitter(w); s.SetBuffer(a, 64); t.SetBuffer(b, 64);
	vp_assert(s.GetCurrMode() == S::ModeRootFirst && !s.IsKeyRequired(), "fresh mode"); text(s, c); text(t, c);
	char e[64]; size_t n = 0; const char *tok[] = { "{\"a\"", k, "\"", vp_split(c == '/') && esc ? "\\/" : NULL, "\"", w, "\"b\"", k, "[null", w, "true]}" };
	for (unsigned i = 0; i < 11; i++) { if (i == 3 && !tok[3]) { e[n++] = c; continue; } for (const char *p = tok[i]; *p; p++) e[n++] = *p; }
	vp_assert(s.GetCurrPos() == n && t.GetCurrPos() == n, "text length"); for (size_t i = 0; i < n; i++) vp_assert(a[i] == (uint8_t)e[i] && b[i] == (uint8_t)e[i], "text differs"); vp_assert(!a[n] && !b[n], "not terminated");
	vp_assert(s.GetCurrMode() == S::ModeRootNext && !s.StartArray() && !s.AppendNull(), "a second root value is accepted");
	s.ResetPos(); vp_assert(s.GetCurrPos() == 0 && s.GetCurrMode() == S::ModeRootNext && s.GetBuffer() == a, "ResetPos");
	if (vp_choice(2)) { s.Reset(); if (vp_choice(2)) { bool ok = s.StartArray() && s.StartObject(); vp_assert(ok, "after reset"); s.Reset(); } }
	else { s.Reset(); }
	vp_assert(s.GetCurrPos() == 0 && s.GetCurrMode() == S::ModeRootFirst, "Reset"); text(s, c); for (size_t i = 0; i < n; i++) vp_assert(a[i] == (uint8_t)e[i], "text after Reset differs"); vp_cover("reset");
	// the documented defaults
	static uint8_t db[64]; S d; d.SetBuffer(db, 64); bool ok = d.StartObject() && d.AppendInt("x", 1) && d.AppendStr("y", "/") && d.Finish(); vp_assert(ok && !strcmp((char *)db, "{\"x\": 1, \"y\": \"/\"}"), "default splitters");
	// depth limit: exactly MaxDepth - 1 containers or strings may be open
	unsigned md = 1 + vp_choice(4); S g(false, ":", ",", md); static uint8_t gb[64]; g.SetBuffer(gb, 64); unsigned open = 0;
	for (unsigned i = 0; i < 5; i++) { unsigned o = vp_choice(3); bool key = g.IsKeyRequired(); S::ModeType m = g.GetCurrMode(); size_t p = g.GetCurrPos(); bool r = o == 0 ? g.StartArray(key ? "k" : NULL) : o == 1 ? g.StartObject(key ? "k" : NULL) : g.StartStr(key ? "k" : NULL);
		vp_assert(r == (open + 1 < md), "depth limit"); if (!r) { vp_assert(g.GetCurrPos() == p && g.GetCurrMode() == m, "refused call changed the serializer"); vp_cover("depth"); break; } open++; if (o == 2) break; }
	bool f = g.Finish(); vp_assert(f && g.GetCurrMode() != S::ModeStr, "finish");
}
