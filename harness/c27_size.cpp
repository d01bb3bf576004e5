// Every requested size: the mapping asked for is at least as large, different sizes never use the same object.
#define OWN_SHM
#include "sync_common.h"
static size_t want; static bool mapped; static size_t got; static char lastname[260];
extern "C" mode_t vp_stub_umask(mode_t m) { return 022; }
extern "C" int vp_stub_shm_open(const char *name, int flags, mode_t) { strncpy(lastname, name, 259); return 10; }
extern "C" int vp_stub_shm_unlink(const char *) { return 0; }
extern "C" int vp_stub_ftruncate(int, off_t n) { if (n < 0) { got = (size_t)n; errno = EINVAL; return -1; } vp_assert((size_t)n >= want, "object is smaller than requested"); got = n; return 0; }
extern "C" void *vp_stub_mmap(void *, size_t n, int, int, int, off_t) { vp_assert(n >= want && n == got, "mapping is smaller than requested"); mapped = true; errno = ENOMEM; return MAP_FAILED; }
extern "C" int vp_stub_munmap(void *, size_t) { return 0; }
extern "C" int vp_stub_close(int) { return 0; }
extern "C" int vp_stub_usleep(useconds_t) { return 0; }
static bool in_shm(void *) { return false; }
#include "sync/sync_util.cpp"
#include "sync/sync_sharedmem.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	static const size_t bases[] = { 0, 1UL << 20, (1UL << 32) - 80, 1UL << 40, ~0UL - 300 }; unsigned c = vp_choice(5); want = bases[c] + (vp_sym(9) & (c == 4 ? 255 : 511)); if (c == 4) want += vp_choice(2) * 45;
	Sync::SharedMem m; bool ok = m.Create("n", want); vp_assert(!ok && !m.RawData(), "created without a mapping"); if (c < 4) vp_assert(mapped, "refused"); vp_cover("asked");
	static char n1[260]; strcpy(n1, lastname); size_t w1 = want; bool m1 = mapped; mapped = false;
	static const size_t d[] = { 4, 1024, 1UL << 31, 1UL << 32, 1UL << 33 }; want = w1 + d[vp_choice(5)]; if (want < w1) vp_end(); m.Create("n", want);
	if (m1 && mapped) vp_assert(strcmp(n1, lastname) != 0, "different sizes use the same object");
}
