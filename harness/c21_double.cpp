// Text of a double in a thread-local mixed variable: whatever the C library formats is appended or prepended whole.
#include "tls_common.h"
static size_t want; static char src[5];
extern "C" int vp_stub_snprintf(char *s, size_t n, const char *f, ...) {
	for (size_t i = 0; i < want && i + 1 < n; i++) s[i] = src[i % 5];
	if (n) s[want < n ? want : n - 1] = 0;
	return (int)want;
}
extern "C" void vp_main() {
	{
		static const size_t lens[] = { 1, 3, 8, 22, 24 }; want = lens[vp_choice(5)]; vp_sym_bytes(src, 5); for (int i = 0; i < 5; i++) vp_assume(src[i] != 0); double v; uint64_t bits = vp_u64(); memcpy(&v, &bits, 8);
		TLS t; t.ThreadInit(vp_choice(2) ? 15 : 0); TLS::MixedVar *x = new TLS::MixedVar(&t); char m[64], o[16]; size_t n = vp_choice(8); vp_sym_bytes(o, n); bool text = n || vp_choice(2); if (text) x->SetData(o, n);
		bool app = vp_choice(2), dflt = vp_choice(2); if (app) { if (dflt) x->AppendDouble(v); else x->AppendDouble(v, 3); } else { if (dflt) x->PrependDouble(v); else x->PrependDouble(v, 3); }
		size_t k = 0; if (app) for (size_t i = 0; i < n; i++) m[k++] = o[i]; for (size_t i = 0; i < want; i++) m[k++] = src[i % 5]; if (!app) for (size_t i = 0; i < n; i++) m[k++] = o[i];
		vp_assert(x->GetSize() == k && x->GetStr()[k] == 0, "length or terminator"); for (size_t i = 0; i < k; i++) vp_assert(x->GetStr()[i] == m[i], "text differs");
		vp_assert(x->IsStr() == text, "type"); if (app) vp_cover("appended"); else vp_cover("prepended");
		x->SetDouble(v); double w = x->GetDouble(); uint64_t b2; memcpy(&b2, &w, 8); vp_assert(b2 == bits && x->IsDouble() && !x->IsStr() && x->GetSize() == k, "double value differs from the one set, or text changed");
		{ TLS::MixedVar c(*x); w = c.GetDouble(); memcpy(&b2, &w, 8); vp_assert(b2 == bits && c.IsDouble() && c.GetSize() == k, "copy of a double"); }
		delete x; t.ThreadEnd();
	}
	vp_assert(vp_heap_live() == 0, "memory not released exactly once");
}
