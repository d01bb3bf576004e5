// Link targets, canonical names and the working directory of every length up to N: complete and terminated, or refused.
#include "fs_common.h"
static char target[N + 2]; static size_t len; static bool bad; static const char *asked;
static void same(const char *p) { vp_assert(!strcmp(p, "/d/l"), "asks about another path"); }
extern "C" ssize_t vp_stub_readlink(const char *p, char *b, size_t n) { same(p); if (bad || !n) { errno = EINVAL; return -1; } size_t k = len < n ? len : n; memcpy(b, target, k); return (ssize_t)k; }
extern "C" char *vp_stub_realpath(const char *p, char *out) { same(p); if (bad) { errno = ENOENT; return NULL; } if (!out) out = (char *)malloc(len + 1); memcpy(out, target, len + 1); return out; }
extern "C" char *vp_stub_getcwd(char *b, size_t n) { if (bad) { errno = ENOENT; return NULL; } if (!n) { errno = EINVAL; return NULL; } if (len + 1 > n) { errno = ERANGE; return NULL; } memcpy(b, target, len + 1); return b; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	unsigned what = vp_choice(3); bad = vp_choice(2); len = 1 + vp_choice(N); vp_sym_bytes(target, len); for (size_t i = 0; i < len; i++) vp_assume(target[i] != 0); target[len] = 0; size_t cap = vp_choice(N + 3); char *b = (char *)malloc(cap); memset(b, 0x55, cap);
	bool ok = what == 0 ? File::Readlink(b, cap, "/d/l") : what == 1 ? File::Realpath(b, cap, "/d/l") : Dir::Getcwd(b, cap);
	vp_assert(ok == (!bad && len < cap), "result"); if (ok) { for (size_t i = 0; i <= len; i++) vp_assert(b[i] == target[i], "text differs"); vp_cover("text"); } else vp_cover("refused");
	free(b); vp_assert(vp_heap_live() == 0, "memory leaked");
}
