// GetAbsoluteFilename against component-wise resolution, for every base of up to NB and every name of up to NF printable bytes (any base given by the working directory too), all buffer sizes around the need.
#include "fs_common.h"
static char cwd[NB + 2]; static bool cwdfail;
extern "C" char *vp_stub_getcwd(char *b, size_t n) { if (cwdfail || strlen(cwd) + 1 > n) { errno = ERANGE; return NULL; } strcpy(b, cwd); return b; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
static void text(char *s, size_t n) { vp_sym_bytes(s, n); for (size_t i = 0; i < n; i++) vp_assume(s[i] >= 0x20 && s[i] < 0x7F && s[i] != '*' && s[i] != '?' && s[i] != '"' && s[i] != '<' && s[i] != '>' && s[i] != '|'); s[n] = 0; }
static bool sep(char c) { return vp_split(c == '/' || c == '\\'); }
extern "C" void vp_main() {
	char base[NB + 2], name[NF + 2]; size_t nb = vp_choice(NB + 1), nf = vp_choice(NF + 1); text(base, nb); text(name, nf); bool usecwd = vp_choice(2), tr = vp_choice(2); if (usecwd) { strcpy(cwd, base); for (size_t i = 0; i < nb; i++) vp_assume(cwd[i] != '\\'); cwdfail = nb == 0; }
	// reference: stack of components
	char ref[NB + NF + 4]; size_t rn = 0; bool good = nf > 0 && nb > 0 && vp_split(base[0] == '/' || base[0] == '\\'); bool dots = false;
	if (good) {
		bool abs = sep(name[0]);
		for (int part = abs ? 1 : 0; part < 2; part++) { const char *s = part ? name : base; size_t n = part ? nf : nb; for (size_t i = 0; i < n;) { if (sep(s[i])) { i++; continue; } size_t e = i; while (e < n && !sep(s[e])) e++; size_t l = e - i;
			if (l == 1 && vp_split(s[i] == '.')) { dots = true; } else if (l == 2 && vp_split(s[i] == '.' && s[i + 1] == '.')) { dots = true; while (rn && ref[rn - 1] != '/') rn--; if (rn) rn--; } else { ref[rn++] = '/'; for (size_t k = i; k < e; k++) ref[rn++] = s[k]; } i = e; } }
		if (tr || !rn) ref[rn++] = '/';
	}
	unsigned ck = vp_choice(4); size_t cap = ck == 0 ? rn + 1 : ck == 1 ? rn : ck == 2 ? rn + 9 : (size_t)vp_choice(NB + NF + 2); char *r = new char[cap];
	bool ok = File::GetAbsoluteFilename(r, cap, usecwd ? NULL : base, name, tr); vp_assert(ok == (good && cap > rn), "accepted paths");
	if (ok) {
		for (size_t i = 0; i < rn; i++) vp_assert(r[i] == ref[i], "absolute path differs"); vp_assert(r[rn] == 0, "absolute path differs in length"); vp_cover("resolved"); if (dots) vp_cover("dots resolved");
		char *r2 = new char[rn + 1]; bool ok2 = File::GetAbsoluteFilename(r2, rn + 1, "/x", r, tr); vp_assert(ok2, "normalising twice fails"); for (size_t i = 0; i <= rn; i++) vp_assert(r2[i] == r[i], "normalising twice changes the path"); delete[] r2;
	} else vp_cover("refused");
	delete[] r;
}
