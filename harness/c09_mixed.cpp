// Fixed-capacity mixed variable against a textbook string, every operation sequence of STEPS operations.
#include "vp.h"
#include "templates/static_mixed_var.h"
using namespace CubicleSoft;
typedef StaticMixedVar<char[CAP]> V;
static char m[CAP + 64]; static size_t n; static StaticMixedVarModes mode; static int64_t num;
static char str[CAP + 8]; static size_t sl;
static void pick(bool cstr) {
	static const size_t lens[] = { 0, 1, 2, CAP - 1, CAP, CAP + 3 };
	unsigned c = vp_choice(7); sl = c < 6 ? lens[c] : CAP - 1 - n;   // includes the exact remaining room
	if (c == 6 && vp_choice(2)) sl++;
	vp_sym_bytes(str, sl); str[sl] = 0; if (cstr) for (size_t i = 0; i < sl; i++) vp_assume(str[i] != 0);
}
static void append(const char *s, size_t k) { for (size_t i = 0; i < k && n < CAP - 1; i++) m[n++] = s[i]; }
static void prepend(const char *s, size_t k) { if (n + k > CAP - 1) return; for (size_t i = n; i-- > 0;) m[i + k] = m[i]; for (size_t i = 0; i < k; i++) m[i] = s[i]; n += k; vp_cover("prepended"); }
extern "C" void vp_main() {
	V *v = new V; mode = MV_None;
	static const int64_t ints[] = { 0, -7, 123, INT64_MIN }; static const char *txt[] = { "0", "-7", "123", "-9223372036854775808" }, *utxt[] = { "0", "18446744073709551609", "123", "9223372036854775808" }, *hex[] = { "0", "-7", "7B", "-8000000000000000" };
	for (unsigned step = 0; step < STEPS; step++) {
		switch (vp_choice(16)) {
			case 0: pick(true); v->SetStr(str); mode = MV_Str; n = 0; append(str, sl); break;
			case 1: pick(false); v->SetData(str, sl); mode = MV_Str; n = 0; append(str, sl); break;
			case 2: pick(true); v->AppendStr(str); append(str, sl); break;
			case 3: pick(false); v->AppendData(str, sl); append(str, sl); break;
			case 4: pick(true); v->PrependStr(str); prepend(str, sl); break;
			case 5: pick(false); v->PrependData(str, sl); prepend(str, sl); break;
			case 6: { char c = (char)vp_u8(); v->AppendChar(c); append(&c, 1); break; }
			case 7: { char c = (char)vp_u8(); bool has = n && vp_split(m[n - 1] == c); v->AppendMissingChar(c); if (!has) append(&c, 1); break; }
			case 8: { char c = (char)vp_u8(); bool has = n && vp_split(m[n - 1] == c); bool r = v->RemoveTrailingChar(c); vp_assert(r == has, "RemoveTrailingChar result"); if (has) n--; break; }
			case 9: { size_t k = vp_choice(4); size_t s = k == 0 ? 0 : k == 1 ? n / 2 : k == 2 ? CAP : vp_range(CAP, ~0ULL); v->SetSize(s); if (k < 2) n = s; break; }
			case 10: { bool b = vp_choice(2); v->SetBool(b); mode = MV_Bool; num = b; vp_assert(v->GetBool() == b, "bool"); break; }
			case 11: { int64_t x = vp_u64(); v->SetInt(x); mode = MV_Int; num = x; break; }
			case 12: { uint64_t x = vp_u64(); v->SetUInt(x); mode = MV_UInt; num = x; vp_assert(v->GetUInt() == x, "uint"); break; }
			case 13: { unsigned i = vp_choice(4); bool h = vp_choice(2); h ? v->AppendInt(ints[i], 16) : v->AppendInt(ints[i]); const char *t = h ? hex[i] : txt[i]; append(t, strlen(t)); break; }
			case 14: { unsigned i = vp_choice(4); v->PrependInt(ints[i]); prepend(txt[i], strlen(txt[i])); break; }
			default: { unsigned i = vp_choice(4); if (vp_choice(2)) { v->AppendUInt((uint64_t)ints[i]); append(utxt[i], strlen(utxt[i])); } else { v->PrependUInt((uint64_t)ints[i]); prepend(utxt[i], strlen(utxt[i])); } break; }
		}
		vp_assert(v->GetSize() == n && v->MxStrPos == n, "length differs from the textbook string");
		vp_assert(v->GetStr()[n] == 0, "text is not NUL terminated");
		for (size_t i = 0; i < n; i++) vp_assert(v->MxStr[i] == m[i], "text differs from the textbook string");
		vp_assert(v->MxMode == mode && v->IsNone() == (mode == MV_None) && v->IsBool() == (mode == MV_Bool) && v->IsInt() == (mode == MV_Int) && v->IsUInt() == (mode == MV_UInt) && v->IsStr() == (mode == MV_Str) && !v->IsDouble(), "type differs from the one last set");
		vp_assert(v->GetInt() == num, "integer value differs from the one last set");
		vp_assert(v->GetMaxSize() == CAP, "capacity");
	}
	delete v;
}
