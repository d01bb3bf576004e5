// Open, then every sequence of STEPS reads, writes, seeks (any 64-bit position) and size updates under up to FAULTS failing, interrupted or short system calls.
#include "fs_common.h"
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
static uint8_t ref[CAPF]; static size_t rsize;
static void same() { vp_assert(vf[0].size == rsize, "file size differs"); for (size_t i = 0; i < rsize; i++) vp_assert(vf[0].data[i] == ref[i], "file content differs"); }
extern "C" void vp_main() {
	rsize = vp_choice(SIZE + 1); vf_make(0, "f", rsize); vp_sym_bytes(vf[0].data, CAPF); memcpy(ref, vf[0].data, CAPF); size_t heap = vp_heap_live();
	{
		File f; size_t n = 77; uint8_t b[8]; vp_assert(!f.IsOpen() && !f.Read(b, 1, n) && !f.Write(b, 1, n) && !f.Seek(File::SeekStart, 0) && !f.UpdateMaxPos() && !f.Flush(), "works without a file");
		static const int acc[] = { O_RDWR, O_RDONLY, O_WRONLY, O_WRONLY | O_APPEND, O_RDWR | O_TRUNC }; int fl = acc[vp_choice(NACC)]; if (fl & O_TRUNC) rsize = 0;
		bool rd = (fl & O_ACCMODE) != O_WRONLY, wr = (fl & O_ACCMODE) != O_RDONLY; bool ok = f.Open("f", fl); vp_assert(ok && f.IsOpen(), "open"); vp_assert(f.GetCurrPos() == 0 && f.GetMaxPos() == rsize, "position after opening");
		faults = FAULTS; size_t pos = 0, known = rsize; bool lost = false;
		for (int s = 0; s < STEPS; s++) {
			int op = (int)vp_choice(GROW ? 5 : 4); bool err0 = used_error; used_error = false; used_fault = false;
			if (op == 0) {
				size_t want = vp_choice(4); bool huge = want == 3 && vp_choice(2); uint8_t *d = (uint8_t *)malloc(CAPF), old[CAPF]; vp_sym_bytes(d, CAPF); memcpy(old, d, CAPF); n = 77; ok = f.Read(d, huge ? CAPF : want, n); size_t av = pos < rsize ? rsize - pos : 0, ask = huge ? CAPF : want; if (want == 3 && !huge) {}
				vp_assert(rd || !ok, "reads a file opened for writing"); if (ok) { vp_assert(n <= ask && n <= av, "more bytes reported than the file holds"); if (!used_fault) vp_assert(n == (ask < av ? ask : av), "fewer bytes read than the file holds"); if (ask && av && !used_error) vp_assert(n > 0, "end of file reported before it"); } else { vp_assert(!rd || used_error, "read fails without cause"); n = 0; }
				for (size_t i = 0; i < CAPF; i++) vp_assert(d[i] == (i < n ? ref[pos + i] : old[i]), "bytes read differ from the file"); pos += n; if (pos > known) known = pos; free(d); if (n) vp_cover("read");
			} else if (op == 1) {
				size_t len = vp_choice(4); uint8_t *d = (uint8_t *)malloc(len); vp_sym_bytes(d, len); n = 77; ok = f.Write(d, len, n); if (!wr) vp_assert(!ok, "writes a file opened for reading");
				else {
					vp_assert(n <= len && (!ok || n == len), "number of bytes written"); vp_assert(ok || used_error, "write fails without cause"); if (len && (fl & O_APPEND)) pos = n ? rsize : pos;
					for (size_t i = 0; i < n; i++) { if (pos > rsize) { for (size_t k = rsize; k < pos; k++) ref[k] = 0; rsize = pos; } ref[pos] = d[i]; if (++pos > rsize) rsize = pos; } if (FAULTS > 1 && n && n < len) vp_cover("partly written"); if (n) vp_cover("written");
				}
				free(d);
			} else if (op == 2) {
				int wh = (int)vp_choice(4); uint64_t p = vp_u64(), m = f.GetMaxPos(), c = f.GetCurrPos(); ok = f.Seek((File::SeekType)wh, p); vp_assert(ok || used_error, "seek fails without cause");
				uint64_t t; switch (wh) { case 0: t = p < m ? p : m; break; case 1: t = p < m ? m - p : 0; break; case 2: t = c > m ? m : p < m - c ? c + p : m; break; default: t = p < c ? c - p : 0; }
				if (lost) vp_end(); if (ok) { vp_assert(f.GetCurrPos() == t, "seek lands elsewhere than the clamped position"); vp_assert(t <= m || t <= c, "seek lands behind the end"); pos = (size_t)vp_concretize(t); vp_cover("sought"); }
			} else if (op == 3) { ok = f.UpdateMaxPos(); if (ok) vp_assert(f.GetMaxPos() == rsize, "size after updating it"); else vp_assert(used_error, "update fails without cause"); }
			else { rsize = vp_choice(SIZE + 2); if (rsize > vf[0].size) { memset(vf[0].data + vf[0].size, 0, rsize - vf[0].size); memset(ref + vf[0].size, 0, rsize - vf[0].size); } vf[0].size = rsize; if (GROW) vp_cover("size changed by another process"); }
			same(); VFd &d = vfd[0]; if (d.open && !used_error) { vp_assert(d.off == pos, "file offset"); if (!lost) vp_assert(f.GetCurrPos() == pos, "reported position differs from the true one"); }
			if (d.open && used_error) { if (fl & O_APPEND) lost = true; else vp_assert(f.GetCurrPos() == d.off, "reported position differs from the true one after a failure"); pos = d.off; } used_error |= err0;
			if (!GROW && wr && !lost) vp_assert(f.GetMaxPos() >= f.GetCurrPos(), "reported size"); if (!GROW && !used_error && !lost) vp_assert(f.GetMaxPos() == rsize, "reported size differs from the true one");
		}
		if (vp_choice(2)) { ok = f.Close(); vp_assert(ok && !f.IsOpen() && openfds == 0, "close"); vp_assert(!f.Read(b, 1, n) && !f.Write(b, 1, n), "works after closing"); } vp_cover("history");
	}
	vp_assert(openfds == 0 && vf[0].exlock == 0 && vf[0].shlock == 0, "file stays open"); vp_assert(vp_heap_live() == heap, "storage not released");
}
