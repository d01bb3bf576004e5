// Random bytes under every schedule of read() results: complete, short, interrupted, failing, exhausted.
#include "rng_common.h"
static uint8_t *buf; static size_t size; static uint8_t val[16]; static bool got[16]; static unsigned reads; static bool dead; static int deaderr;
extern "C" ssize_t vp_stub_read(int fd, void *p, size_t n) {
	vp_assert(fd == openfd && fd >= 0, "reads from something else than the system source");
	vp_assert(n <= size && (uint8_t *)p >= buf && (uint8_t *)p + n <= buf + size, "reads outside the requested buffer");
	if (dead) { if (deaderr) { errno = deaderr; return -1; } return 0; }
	if (!n) return 0;
	unsigned c = reads++ < SCHED ? vp_choice(4) : 0;
	if (c == 1) { errno = EINTR; vp_cover("interrupted"); return -1; }
	if (c == 2) { dead = true; deaderr = vp_choice(2) ? EIO : 0; if (deaderr) { errno = deaderr; vp_cover("failing"); return -1; } vp_cover("exhausted"); return 0; }
	if (c == 3) { size_t k = vp_range(1, n); n = vp_concretize(k); vp_cover("short"); }
	size_t o = (uint8_t *)p - buf; for (size_t i = 0; i < n; i++) { val[o + i] = vp_u8(); got[o + i] = true; ((uint8_t *)p)[i] = val[o + i]; }
	return (ssize_t)n;
}
extern "C" void vp_main() {
	bool safe = vp_choice(2); openmask = vp_choice(4); size = vp_choice(MAXN + 1);
	{
		Security::CSPRNG r(safe);
		if (safe) vp_assert(opens == 1 && !strcmp(opened[0], "/dev/random"), "source of crypto-safe bytes"); else vp_assert(opens >= 1 && (!strcmp(opened[opens - 1], "/dev/urandom") || !strcmp(opened[opens - 1], "/dev/arandom")), "source of random bytes");
		bool have = openfd >= 0; buf = new uint8_t[size]; for (size_t i = 0; i < size; i++) buf[i] = 0xA5;
		bool ok = r.GetBytes(buf, size);
		if (!have) vp_assert(!ok, "succeeds without a source");
		if (ok) for (size_t i = 0; i < size; i++) { vp_assert(got[i], "unfilled byte reported as success"); vp_assert(buf[i] == val[i], "byte differs from the source"); }
		if (have && !dead) vp_assert(ok, "refuses although the source delivers");
		if (dead) vp_assert(!ok, "exhausted source reported as success");
		delete[] buf;
	}
	vp_assert(openfd == -1, "descriptor leaked"); vp_assert(vp_heap_live() == 0, "memory leaked");
}
