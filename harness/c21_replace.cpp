// Replacing data inside a thread-local variable: every text, pattern and replacement up to the bounds equals textbook replacement.
#include "tls_common.h"
extern "C" void vp_main() {
	{
		TLS t; t.ThreadInit(); TLS::MixedVar v(&t); size_t n = vp_choice(MAXN + 1), p = 1 + vp_choice(MAXP), r = vp_choice(MAXR + 1); char d[MAXN + 1], pat[MAXP + 1], rep[MAXR + 1], out[(MAXN + 1) * (MAXR + 1)]; size_t o = 0, k = 0; bool cs = vp_choice(2);
		vp_sym_bytes(d, n); vp_sym_bytes(pat, p); vp_sym_bytes(rep, r); pat[p] = rep[r] = 0; if (cs) { for (size_t i = 0; i < p; i++) vp_assume(pat[i]); for (size_t i = 0; i < r; i++) vp_assume(rep[i]); }
		if (n || vp_choice(2)) v.SetData(d, n); v.SetInt(5);
		for (size_t i = 0; i < n;) { bool eq = i + p <= n; for (size_t j = 0; eq && j < p; j++) eq = vp_split(d[i + j] == pat[j]); if (eq) { for (size_t j = 0; j < r; j++) out[o++] = rep[j]; i += p; k++; } else out[o++] = d[i++]; }
		size_t c = cs ? v.ReplaceStr(pat, rep) : v.ReplaceData(pat, p, rep, r); vp_assert(c == k, "number of replacements");
		vp_assert(v.GetSize() == o, "length after replacement"); if (v.GetStr()) vp_assert(v.GetStr()[o] == 0, "text is not NUL terminated"); for (size_t i = 0; i < o; i++) vp_assert(v.GetStr()[i] == out[i], "text after replacement"); if (k) vp_cover("replaced");
		v.AppendStr("xy"); vp_assert(v.GetSize() == o + 2 && v.GetStr()[o] == 'x' && v.GetStr()[o + 2] == 0, "append after replacement");
	}
}
