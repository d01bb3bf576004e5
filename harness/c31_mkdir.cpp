// Directory creation for every relative or absolute path of up to NF bytes: creates exactly the missing ancestors, in order, with the given mode; or exactly one directory.
#include "dir_common.h"
static char calls[12][NF + 8]; static int ncalls; static mode_t want; static int lastres;
extern "C" int vp_stub_mkdir(const char *p, mode_t m) { vp_assert(ncalls < 12, "too many directories"); vp_assert(m == want, "mode of a new directory"); vp_assert(strlen(p) < NF + 8, "path"); strcpy(calls[ncalls++], p); unsigned k = vp_choice(2); lastres = k ? -1 : 0; if (k) errno = EEXIST; return lastres; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	char s[NF + 1]; size_t n = 1 + vp_choice(NF); vp_sym_bytes(s, n); s[n] = 0; for (size_t i = 0; i < n; i++) vp_assume(s[i] == '/' || s[i] == '.' || (s[i] >= 'a' && s[i] <= 'z')); bool rec = vp_choice(2); want = (mode_t)vp_sym(9);
	char ref[NF + 8]; size_t rn = 0; if (!vp_split(s[0] == '/')) { strcpy(ref, "/w"); rn = 2; } for (size_t i = 0; i < n;) { if (vp_split(s[i] == '/')) { i++; continue; } size_t e = i; while (e < n && !vp_split(s[e] == '/')) e++; if (e - i == 1 && vp_split(s[i] == '.')) {} else if (e - i == 2 && vp_split(s[i] == '.' && s[i + 1] == '.')) { while (rn && ref[rn - 1] != '/') rn--; if (rn) rn--; } else { ref[rn++] = '/'; for (size_t k = i; k < e; k++) ref[rn++] = s[k]; } i = e; } if (!rn) ref[rn++] = '/'; ref[rn] = 0;
	bool ok = Dir::Mkdir(s, (int)want, rec); int c = 0;
	if (rec) for (size_t k = 1; k < rn; k++) if (ref[k] == '/') { vp_assert(c < ncalls, "an ancestor is not created"); vp_assert(strlen(calls[c]) == k && !memcmp(calls[c], ref, k), "creates another directory"); c++; }
	vp_assert(c == ncalls - 1, "number of directories created"); vp_assert(strlen(calls[c]) == rn && !memcmp(calls[c], ref, rn), "creates another directory"); vp_assert(ok == (lastres == 0), "result of the creation"); if (c > 1) vp_cover("nested");
}
