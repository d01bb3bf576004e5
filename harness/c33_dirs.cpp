// Storage, temporary and executable locations for every environment, application name and buffer size within the bound.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <pwd.h>
#include <sys/types.h>
#include <unistd.h>
static char home[NH + 2], pwdir[NH + 2]; static int homekind, pwkind; static struct passwd pw;
extern "C" char *vp_stub_getenv(const char *n) { vp_assert(!strcmp(n, "HOME"), "another variable"); return homekind ? home : NULL; }
extern "C" uid_t vp_stub_getuid(void) { return 7; }
extern "C" struct passwd *vp_stub_getpwuid(uid_t u) { vp_assert(u == 7, "another user"); if (!pwkind) return NULL; pw.pw_dir = pwkind == 1 ? NULL : pwdir; return &pw; }
static char exe[NH + 2], real[NH + 2]; static int linkok, realok; static size_t nexe, nreal; static const char *wantarg;
extern "C" ssize_t vp_stub_readlink(const char *p, char *b, size_t n) { if (!linkok || strcmp(p, "/proc/self/exe")) { errno = ENOENT; return -1; } if (!n) { errno = EINVAL; return -1; } size_t k = nexe < n ? nexe : n; memcpy(b, exe, k); return (ssize_t)k; }
extern "C" char *vp_stub_realpath(const char *p, char *out) {
	bool same = linkok ? strlen(p) == nexe && !memcmp(p, exe, nexe) : p == wantarg; if (!same) { if (vp_choice(2)) { errno = ENOENT; return NULL; } if (!out) out = (char *)malloc(3); memcpy(out, "/?", 3); return out; } /* a path cut short may exist */ if (!realok) { errno = ENOENT; return NULL; } if (!out) out = (char *)malloc(nreal + 1); memcpy(out, real, nreal + 1); return out;
}
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_appinfo.cpp"
using namespace CubicleSoft::UTF8;
static size_t text(char *s, size_t max) { size_t n = vp_choice(max + 1); vp_sym_bytes(s, n); for (size_t i = 0; i < n; i++) { vp_assume(s[i] != 0); } s[n] = 0; return n; }
static char ref[64]; static size_t rn;
static void put(const char *s, size_t n) { memcpy(ref + rn, s, n); rn += n; }
static void putsep() { if (!vp_split(ref[rn - 1] == '/')) ref[rn++] = '/'; }
extern "C" void vp_main() {
	char app[NA + 2]; size_t na = 0; bool have = false; const char *a = NULL; bool can = true; unsigned what = vp_choice(5);
	if (what < 2) { have = vp_choice(2); if (have) { na = text(app, NA); a = app; } }
	if (what == 0) { put("/var/lib/", 9); if (have) { put(app, na); putsep(); } }
	else if (what == 1) {
		homekind = (int)vp_choice(2); size_t nh = 0, np = 0; if (homekind) nh = text(home, NH); pwkind = (int)vp_choice(3); if (pwkind == 2) np = text(pwdir, NH);
		if (nh) put(home, nh); else if (np) put(pwdir, np); else can = false; if (can) { putsep(); if (have) { ref[rn++] = '.'; put(app, na); putsep(); } }
	} else if (what == 2) put("/tmp/", 5);
	else {
		linkok = (int)vp_choice(2); realok = (int)vp_choice(2); exe[0] = real[0] = '/'; nexe = 1 + text(exe + 1, NH - 1); nreal = 1 + text(real + 1, NH - 1); static char arg[] = "x/prog"; wantarg = vp_choice(2) ? arg : NULL; can = realok && (linkok || wantarg); put(real, nreal); if (what == 4) while (!vp_split(ref[rn - 1] == '/')) rn--;
	}
	ref[rn] = 0; size_t need = rn + 1; unsigned ck = vp_choice(3); size_t cap = ck == 0 ? need + 1 : ck == 1 ? need + 30 : (size_t)vp_choice(need + 1); char *b = (char *)malloc(cap); if (cap) memset(b, 0x55, cap); size_t size = cap; bool ok;
	if (what == 0) ok = AppInfo::GetSystemAppStorageDir(b, size, a); else if (what == 1) ok = AppInfo::GetCurrentUserAppStorageDir(b, size, a); else if (what == 2) ok = AppInfo::GetTempStorageDir(b, size); else if (what == 3) ok = AppInfo::GetExecutableFilename(b, size, wantarg); else ok = AppInfo::GetExecutablePath(b, size, wantarg);
	if (ok) { vp_assert(can, "a location is made up"); vp_assert(size == need && need <= cap, "reported size"); for (size_t i = 0; i < need; i++) vp_assert(b[i] == ref[i], "location differs"); vp_cover("found"); }
	else { vp_assert(size == 0, "size after failure"); if (can && (what < 3 || linkok == 0)) { if (cap > (what < 3 ? need : nreal)) vp_assert(false, "refused although it fits"); } if (can && what >= 3 && linkok) vp_assert(!(cap > nexe && cap > nreal), "refused although it fits"); vp_cover("refused"); }
	free(b); vp_assert(vp_heap_live() == 0, "memory leaked");
}
