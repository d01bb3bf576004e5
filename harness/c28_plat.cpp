// GetPlatformFilename / IsValidFilenameFormat / GetPlatformFilenameInfo for every name of up to N bytes and every buffer size around it.
#include "fs_common.h"
#include "u8ref.h"
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	size_t n = vp_choice(N + 1); char *s = new char[n + 1]; vp_sym_bytes(s, n); for (size_t i = 0; i < n; i++) vp_assume(s[i] != 0); s[n] = 0;
#ifdef INFO
	File::FilenameInfo fi; memset(&fi, 0x55, sizeof(fi)); File::GetPlatformFilenameInfo(fi, s);
	vp_assert(fi.Length == n && fi.StartVolume == 0 && fi.StartPath == 0, "length and path"); size_t f = fi.StartFilename, e = fi.StartExtension, l = fi.StartLastExtension; vp_assert(f <= e && e <= l && l <= n, "parts out of order");
	for (size_t i = 0; i < n; i++) { if (i >= f) vp_assert(s[i] != '/', "separator in the file name"); if (i >= f && i < e) vp_assert(s[i] != '.', "period before the extension"); if (i > l) vp_assert(s[i] != '.', "period in the last extension"); } if (f) vp_assert(s[f - 1] == '/', "start of the file name"); if (e < n) vp_assert(s[e] == '.' && s[l] == '.', "extension"); else vp_assert(l == n, "extension"); vp_cover("parts");
#else
	bool good = n > 0; uint32_t c; for (size_t i = 0; i < n && good;) { unsigned k = r_dec8((const uint8_t *)s, i, n, &c); if (!k || !vp_split(r_valid(c)) || (!i && vp_split(r_comb(c))) || r_len8(c) != k) { good = false; break; } if (k == 1 && vp_split(c < 0x20 || c == 0x7F || c == '*' || c == '?' || c == '"' || c == '<' || c == '>' || c == '|')) good = false; i += k; }
	size_t cap = vp_choice(3) == 2 ? n + 3 : vp_choice(2) ? n + 1 : n; char *r = new char[cap]; bool ok = File::GetPlatformFilename(r, cap, s); vp_assert(ok == (good && cap > n), "accepted names");
	if (ok) { for (size_t i = 0; i < n; i++) vp_assert(r[i] == (s[i] == '\\' ? '/' : s[i]), "name is changed"); vp_assert(r[n] == 0, "termination"); vp_cover("accepted"); } else vp_cover("refused");
	vp_assert(File::IsValidFilenameFormat(s) == good, "valid format"); delete[] r;
#endif
	delete[] s;
}
