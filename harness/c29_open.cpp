// Opening: every access mode, sharing mode and failing system call; a failed open leaves nothing open, a successful one has the documented lock.
#include "fs_common.h"
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	vf_make(0, "f", 2); vf[1].name = "new"; vf[1].data = (uint8_t *)malloc(CAPF);
	{
		File other; unsigned os = vp_choice(3); if (os) { bool ok = other.Open("f", O_RDWR, os == 1 ? File::ShareBoth : File::ShareNone); vp_assert(ok, "open"); }
		File f; if (vp_choice(2)) { bool ok = f.Open("new", O_RDWR | O_CREAT); vp_assert(ok && f.IsOpen(), "create"); size_t n; ok = f.Write("ab", n); vp_assert(ok && n == 2 && f.GetCurrPos() == 2 && f.GetMaxPos() == 2, "write"); }
		int base = openfds - (f.IsOpen() ? 1 : 0); faults = FAULTS; fault_kinds = 1;
		uint32_t acc = (uint32_t)vp_sym(2); static const int extra[] = { 0, O_CREAT, O_CREAT | O_EXCL, O_TRUNC | O_CREAT }; int fl = extra[vp_choice(4)]; if (fl & O_TRUNC) vp_assume(acc != 0); unsigned sh = vp_choice(5), nm = vp_choice(4); bool absent = nm == 1 && !vf[1].exists; static const char *names[] = { "f", "new", "no\x01way", "missing" };
		bool ok = f.Open(names[nm], (int)acc | fl, (File::ShareType)sh, 0640);
		if (ok) {
			vp_assert(f.IsOpen() && openfds == base + 1, "open"); vp_assert(acc != 3 && nm < 2 && sh < 4, "opens what cannot be opened"); vp_assert(!absent || (fl & O_CREAT), "creates without being asked"); if (absent) vp_assert((vf[1].mode & 0777) == 0640, "mode of the new file"); if (fl & O_EXCL) vp_assert(nm == 1, "exclusive creation of an existing file");
			VFile &v = vf[nm]; if (sh == File::ShareBoth) vp_assert(v.shlock && !v.exlock, "shared lock"); else vp_assert(v.exlock == 1 && !v.shlock, "exclusive lock"); vp_assert(!(nm == 0 && os == 2) && !(nm == 0 && os == 1 && sh), "two exclusive owners"); vp_assert(f.GetCurrPos() == 0, "position after opening"); if (!used_error) vp_assert(f.GetMaxPos() == v.size, "position after opening"); vp_cover("opened");
			size_t n; uint8_t b[2]; faults = 0; vp_assert(f.Read(b, 1, n) == (acc != 1) && f.Write(b, 1, n) == (acc != 0), "access mode");
		} else {
			vp_assert(!f.IsOpen() && openfds == base, "a failed open leaves the file open"); if (acc != 3 && nm < 2 && sh < 4 && !used_error && !(nm == 0 && os && (os == 2 || sh)) && !(fl & O_EXCL) && !(absent && !(fl & O_CREAT))) vp_assert(false, "open fails without cause"); size_t n; uint8_t b[2]; vp_assert(!f.Read(b, 1, n) && !f.Write(b, 1, n), "works without a file"); vp_cover("refused");
		}
	}
	vp_assert(openfds == 0 && !vf[0].exlock && !vf[0].shlock && !vf[1].exlock && !vf[1].shlock, "file stays open");
}
