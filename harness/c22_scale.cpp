// Large requests for random bytes, delivered in pieces of various sizes: every byte is the source's, in order.
#include "rng_common.h"
static uint8_t *buf; static size_t size, piece, total, deadat; static uint8_t base; static unsigned nread;
static uint8_t val(size_t i) { return (uint8_t)(base ^ (i * 5 + i / 256)); }
extern "C" ssize_t vp_stub_read(int fd, void *p, size_t n) {
	vp_assert(fd == openfd && fd >= 0, "reads from something else than the system source"); vp_assert((uint8_t *)p >= buf && (uint8_t *)p + n <= buf + size, "reads outside the requested buffer");
	if (deadat && total >= deadat) { errno = EIO; return -1; } if (nread++ % 7 == 3) { errno = EINTR; return -1; }
	if (n > piece) n = piece; size_t o = (uint8_t *)p - buf; for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = val(o + i); total += n; return (ssize_t)n;
}
extern "C" void vp_main() {
	static const size_t S[] = { 255, 256, 257, 511, 512, 513, 1024, 4095, 4096, 4097, 65535, 65536, 66000 }, P[] = { 7, 256, 4096, ~(size_t)0 >> 1 }; size = S[vp_choice(13)]; piece = P[vp_choice(4)]; base = vp_u8(); openmask = 3; static const int DD[] = { 0, 1, 2, 3 }; int dd = DD[vp_choice(4)]; deadat = dd == 0 ? 0 : dd == 1 ? 1 : dd == 2 ? size / 2 + 1 : size - 1; bool safe = vp_choice(2);
	{
		Security::CSPRNG r(safe); vp_assert(openfd >= 0, "source"); buf = new uint8_t[size]; bool ok = r.GetBytes(buf, size);
		if (ok) { vp_assert(total >= size, "unfilled byte reported as success"); for (size_t i = 0; i < size; i++) vp_assert(buf[i] == val(i), "byte differs from the source"); vp_cover("filled"); } else { vp_assert(deadat && total >= deadat, "refuses although the source delivers"); vp_cover("refused"); }
		delete[] buf;
	}
	vp_assert(openfd == -1, "descriptor leaked"); vp_assert(vp_heap_live() == 0, "memory leaked");
}
