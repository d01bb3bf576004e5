// Paths around the internal limit of 8192 bytes: resolved exactly or refused, never truncated, no access outside the buffers.
#include "fs_common.h"
static char cwd[8300];
extern "C" char *vp_stub_getcwd(char *b, size_t n) { size_t l = strlen(cwd); if (l + 1 > n) { errno = ERANGE; return NULL; } memcpy(b, cwd, l + 1); return b; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
static char name[8300], r[8300], ref[17000];
extern "C" void vp_main() {
	size_t nb = vp_choice(2) ? 2 : 8180 + vp_choice(14), nf = vp_choice(2) ? 3 : 8180 + vp_choice(14); bool tr = vp_choice(2);
	memset(cwd, 'a', nb); cwd[0] = '/'; for (size_t i = 100; i + 2 < nb; i += 200) cwd[i] = '/'; cwd[nb] = 0; memset(name, 'b', nf); for (size_t i = 100; i + 2 < nf; i += 200) name[i] = '/'; name[nf] = 0;
	unsigned k = vp_choice(4); if (k == 1) name[0] = '/'; if (k == 2) { name[nf - 1] = '.'; name[nf - 2] = '.'; name[nf - 3] = nf == 3 ? 'b' : '/'; } if (k == 3) { name[nf - 1] = '/'; } char last = (char)vp_range('a', 'z'); if (k < 2) name[nf - 1] = last;
	bool ok = File::GetAbsoluteFilename(r, sizeof(r), vp_choice(2) ? cwd : NULL, name, tr);
	size_t n = 0; if (k != 1) { memcpy(ref, cwd, nb); n = nb; ref[n++] = '/'; } memcpy(ref + n, name, nf); n += nf; if (k == 2 && nf > 3) { n -= 3; while (ref[n - 1] != '/') n--; n--; } else if (k == 3) n--; if (tr) ref[n++] = '/';
	if (ok) { vp_assert(strlen(r) == n, "length of a long path"); for (size_t i = 0; i < n; i++) vp_assert(r[i] == ref[i], "long path is changed"); vp_cover("long path resolved"); } else { vp_assert(nb + nf >= 8185, "a path within the limit is refused"); vp_cover("refused"); }
}
