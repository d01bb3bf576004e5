// Files of any size up to 2^62 bytes: every sequence of STEPS seeks, reads, writes and size updates; positions are kept exactly, nothing is cut to fewer bits.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <errno.h>
#include <fcntl.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <unistd.h>
static uint64_t size, off; static bool open_; static uint64_t rdat, rdn; static bool moved;
extern "C" int vp_stub_open(const char *, int, ...) { open_ = true; off = 0; return 5; }
extern "C" int vp_stub_open64(const char *, int, ...) { open_ = true; off = 0; return 5; }
extern "C" int vp_stub_close(int) { open_ = false; return 0; }
extern "C" int vp_stub_flock(int, int) { return 0; }
extern "C" off_t vp_stub_lseek(int fd, off_t o, int wh) { vp_assert(fd == 5, "fd"); int64_t r = (wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)off : (int64_t)size) + o; if (vp_split(r < 0)) { errno = EINVAL; return -1; } off = (uint64_t)r; return r; }
extern "C" off_t vp_stub_lseek64(int fd, off_t o, int wh) { return vp_stub_lseek(fd, o, wh); }
extern "C" int vp_stub_fstat(int, struct stat *s) { memset(s, 0, sizeof(*s)); s->st_mode = S_IFREG | 0644; s->st_size = (off_t)size; return 0; }
extern "C" int vp_stub_fstat64(int fd, struct stat *s) { return vp_stub_fstat(fd, s); }
extern "C" ssize_t vp_stub_read(int, void *, size_t n) { rdat = off; uint64_t av = off < size ? size - off : 0; if (n > av) n = av; rdn = n; off += n; return (ssize_t)n; }
extern "C" ssize_t vp_stub_write(int, const void *, size_t n) { rdat = off; rdn = n; off += n; if (off > size) size = off; return (ssize_t)n; }
#include "utf8/utf8_util.cpp"
#include "utf8/utf8_file_dir.cpp"
using namespace CubicleSoft::UTF8;
extern "C" void vp_main() {
	size = vp_range(0, (uint64_t)1 << 62); static uint8_t b[8];
	{
		File f; bool ok = f.Open("f", O_RDWR); vp_assert(ok, "open"); vp_assert(f.GetCurrPos() == 0 && f.GetMaxPos() == size, "position after opening"); uint64_t pos = 0;
		for (int i = 0; i < STEPS; i++) {
			size_t n = 77, k; switch (vp_choice(7)) {
				case 0: { uint64_t p = vp_u64(); ok = f.Seek(File::SeekStart, p); pos = p < size ? p : size; break; }
				case 1: { uint64_t p = vp_u64(); ok = f.Seek(File::SeekEnd, p); pos = p < size ? size - p : 0; break; }
				case 2: { uint64_t p = vp_u64(); ok = f.Seek(File::SeekForward, p); pos = p < size - pos ? pos + p : size; break; }
				case 3: { uint64_t p = vp_u64(); ok = f.Seek(File::SeekBackward, p); pos = p < pos ? pos - p : 0; break; }
				case 4: { k = 1 + vp_choice(8); uint64_t av = size - pos, e = k < av ? k : av; ok = f.Read(b, k, n); vp_assert(n == e, "number of bytes read"); if (vp_split(e != 0)) { vp_assert(rdat == pos, "reads at another position"); if (vp_split(pos > 0x123456789ULL)) vp_cover("read far behind"); } pos += e; break; }
				case 5: { k = 1 + vp_choice(8); ok = f.Write(b, k, n); vp_assert(n == k && rdat == pos && rdn == k, "writes at another position"); pos += k; if (vp_split(pos > 0x123456789ULL)) vp_cover("written far behind"); break; }
				default: size = vp_range(0, (uint64_t)1 << 62); vp_assume(size >= pos); ok = f.UpdateMaxPos();
			}
			vp_assert(ok, "operation fails without cause"); vp_assert(f.GetCurrPos() == pos && off == pos, "position is not the exact one"); vp_assert(f.GetMaxPos() == size, "size is not the exact one");
		}
	}
	vp_assert(!open_, "file stays open");
}
