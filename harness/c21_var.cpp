// Thread-local mixed variables against textbook strings: every sequence of STEPS operations on two variables (and copies of them).
#include "tls_common.h"
typedef TLS::MixedVar V;
#define CAP 160
struct M { char s[CAP]; size_t n; TLS::TLSMixedVarModes mode; int64_t num; double dbl; bool null; };
static M m[3]; static char str[40]; static size_t sl;
static void pick(M &x, bool cstr) {
	static const size_t lens[] = { LENS }; unsigned c = vp_choice(sizeof(lens) / sizeof(lens[0]) + 1);
	if (c < sizeof(lens) / sizeof(lens[0])) sl = lens[c]; else { size_t k = 8; while (k < x.n + 1) k *= 2; sl = k - x.n - 1; sl += vp_choice(2); }   // just inside / just beyond the current block
	vp_sym_bytes(str, sl); str[sl] = 0; if (cstr) for (size_t i = 0; i < sl; i++) vp_assume(str[i] != 0);
}
static void append(M &x, const char *s, size_t k) { for (size_t i = 0; i < k; i++) x.s[x.n++] = s[i]; x.null = false; }
static void prepend(M &x, const char *s, size_t k) { for (size_t i = x.n; i-- > 0;) x.s[i + k] = x.s[i]; for (size_t i = 0; i < k; i++) x.s[i] = s[i]; x.n += k; x.null = false; }
static void same(V *v, M &x) {
	vp_assert(v->GetSize() == x.n, "length differs from the textbook string");
	if (x.null) vp_assert(v->GetStr() == NULL || v->GetStr()[0] == 0, "a variable without text has one");
	else { vp_assert(v->GetStr() && v->GetStr()[x.n] == 0, "text is not NUL terminated"); for (size_t i = 0; i < x.n; i++) vp_assert(v->GetStr()[i] == x.s[i], "text differs from the textbook string"); }
	vp_assert(v->MxMode == x.mode && v->IsNone() == (x.mode == TLS::TMV_None) && v->IsBool() == (x.mode == TLS::TMV_Bool) && v->IsInt() == (x.mode == TLS::TMV_Int) && v->IsUInt() == (x.mode == TLS::TMV_UInt) && v->IsStr() == (x.mode == TLS::TMV_Str) && v->IsDouble() == (x.mode == TLS::TMV_Double), "type differs from the one last set");
	vp_assert(v->GetInt() == x.num && v->GetUInt() == (uint64_t)x.num && v->GetBool() == (x.num != 0), "integer value differs from the one last set");
	vp_assert(v->GetDouble() == x.dbl, "double value differs from the one last set");
}
extern "C" void vp_main() {
	{
		TLS t, t2; t.ThreadInit(vp_choice(2) ? 15 : 0); t2.ThreadInit(4);
		V *v[2] = { new V(&t), vp_choice(2) ? new V(&t2) : new V }; m[0].mode = m[1].mode = TLS::TMV_None; m[0].null = m[1].null = true; 
		vp_assert(v[0]->GetTLS() == &t, "allocator");
		static const int64_t ints[] = { 0, -7, INT64_MIN }; static const char *txt[] = { "0", "-7", "-9223372036854775808" }, *utxt[] = { "0", "18446744073709551609", "9223372036854775808" };
		if (INIT) { vp_sym_bytes(str, INIT); v[0]->SetData(str, INIT); m[0].mode = TLS::TMV_Str; append(m[0], str, INIT); }
		for (unsigned step = 0; step < STEPS; step++) {
			V *a = v[0]; M &x = m[0];
			switch (vp_choice(21)) {
				case 0: pick(x, true); a->SetStr(str); x.mode = TLS::TMV_Str; x.n = 0; append(x, str, sl); break;
				case 1: pick(x, false); a->SetData(str, sl); x.mode = TLS::TMV_Str; x.n = 0; append(x, str, sl); break;
				case 2: pick(x, true); a->AppendStr(str); append(x, str, sl); break;
				case 3: pick(x, false); a->AppendData(str, sl); append(x, str, sl); break;
				case 4: pick(x, true); a->PrependStr(str); prepend(x, str, sl); break;
				case 5: pick(x, false); a->PrependData(str, sl); prepend(x, str, sl); break;
				case 6: { char c = (char)vp_u8(); a->AppendChar(c); append(x, &c, 1); break; }
				case 7: { char c = (char)vp_u8(); bool has = x.n && vp_split(x.s[x.n - 1] == c); a->AppendMissingChar(c); if (!has) append(x, &c, 1); break; }
				case 8: { char c = (char)vp_u8(); bool has = x.n && vp_split(x.s[x.n - 1] == c); bool r = a->RemoveTrailingChar(c); vp_assert(r == has, "RemoveTrailingChar result"); if (has) x.n--; break; }
				case 9: { size_t s = vp_choice(2) ? x.n / 2 : vp_choice(2) ? 0 : x.n; a->SetSize(s); x.n = s; if (s) x.null = false; break; }
				case 10: { size_t s = x.n + 1 + vp_choice(20); a->SetSize(s); vp_assert(a->GetSize() == s && a->GetStr()[s] == 0, "SetSize"); for (size_t i = x.n; i < s; i++) { x.s[i] = (char)vp_u8(); a->GetStr()[i] = x.s[i]; } x.n = s; x.null = false; break; }
				case 11: { bool b = vp_choice(2); a->SetBool(b); x.mode = TLS::TMV_Bool; x.num = b; break; }
				case 12: { int64_t k = vp_u64(); a->SetInt(k); x.mode = TLS::TMV_Int; x.num = k; break; }
				case 13: { uint64_t k = vp_u64(); a->SetUInt(k); x.mode = TLS::TMV_UInt; x.num = k; break; }
				case 14: a->SetDouble(-2.5); x.mode = TLS::TMV_Double; x.dbl = -2.5; break;
				case 15: { unsigned i = vp_choice(3); a->AppendInt(ints[i]); append(x, txt[i], strlen(txt[i])); break; }
				case 16: { unsigned i = vp_choice(3); a->PrependUInt((uint64_t)ints[i]); prepend(x, utxt[i], strlen(utxt[i])); break; }
				case 17: { V *c = new V(*a); M cm = x; delete a; v[0] = c; vp_cover("copied"); m[0] = cm; break; }
				case 18: { V *c = new V(*a); c->SetTLS(c->GetTLS()); c->AppendChar('!'); vp_assert(c->GetSize() == x.n + 1, "copy"); delete c; break; }
				case 19: *v[0] = *v[1]; m[0] = m[1]; if (!v[0]->GetTLS()) v[0]->SetTLS(&t); vp_cover("assigned"); break;
				default: *v[1] = *v[0]; m[1] = m[0]; { V *q = v[0]; v[0] = v[1]; v[1] = q; M k = m[0]; m[0] = m[1]; m[1] = k; } break;
			}
			same(v[0], m[0]); same(v[1], m[1]);
		}
		delete v[0]; delete v[1]; t.ThreadEnd(); t2.ThreadEnd();
	}
	vp_assert(vp_heap_live() == 0, "memory not released exactly once");
}
