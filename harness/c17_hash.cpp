// Hash functions equal an independent reference for every key content, every length 0..N, every hash key.
#include "vp.h"
#include <cstddef>
#include <cstdlib>
#include "templates/detachable_ordered_hash.cpp"
#undef FALL_THROUGH
#undef ROTL
#undef SIPROUND
#include "templates/packed_ordered_hash.h"
#include "templates/packed_ordered_hash.cpp"
#undef FALL_THROUGH
#include "templates/cache.h"
#include "templates/cache.cpp"
using namespace CubicleSoft;
static uint64_t rotl(uint64_t x, int b) { return (x << b) | (x >> (64 - b)); }
static void rnd(uint64_t *v) {
	v[0] += v[1]; v[2] += v[3]; v[1] = rotl(v[1], 13); v[3] = rotl(v[3], 16); v[1] ^= v[0]; v[3] ^= v[2]; v[0] = rotl(v[0], 32);
	v[2] += v[1]; v[0] += v[3]; v[1] = rotl(v[1], 17); v[3] = rotl(v[3], 21); v[1] ^= v[2]; v[3] ^= v[0]; v[2] = rotl(v[2], 32);
}
static uint64_t sip(const uint8_t *s, size_t n, uint64_t k0, uint64_t k1, unsigned c, unsigned d) { // SipHash-c-d
	uint64_t v[4] = { k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL };
	for (size_t i = 0; i <= n; i += 8) {
		uint64_t m = 0; size_t k = n - i < 8 ? n - i : 8;
		for (size_t j = 0; j < k; j++) m |= (uint64_t)s[i + j] << (8 * j);
		if (k < 8) m |= (uint64_t)(n & 0xFF) << 56;
		v[3] ^= m; for (unsigned r = 0; r < c; r++) rnd(v); v[0] ^= m;
		if (k < 8) break;
	}
	v[2] ^= 0xff; for (unsigned r = 0; r < d; r++) rnd(v);
	return v[0] ^ v[1] ^ v[2] ^ v[3];
}
static uint32_t djb(const uint8_t *s, size_t n, uint32_t h) {
	size_t i = 0; for (; i + 4 <= n; i += 4) h = h * 33 ^ ((uint32_t)s[i] | (uint32_t)s[i + 1] << 8 | (uint32_t)s[i + 2] << 16 | (uint32_t)s[i + 3] << 24);
	for (size_t j = n; j-- > i;) h = h * 33 ^ s[j];
	return h;
}
#ifndef SCALE
extern "C" void vp_main() {
	size_t n = vp_choice(N + 1); uint8_t *s = new uint8_t[n]; vp_sym_bytes(s, n);
	unsigned w = vp_choice(5);
	if (w <= 1) { uint64_t k1 = vp_u64(), k2 = vp_u64(); uint64_t e = sip(s, n, k1, k2, 2, 4), r = w ? PackedOrderedHashUtil::GetSipHashKey(s, n, k1, k2, 2, 4) : OrderedHashUtil::GetSipHashKey(s, n, k1, k2, 2, 4); vp_assert(r == e, "not the SipHash-2-4 of the key bytes"); vp_cover("sip"); }
	else if (w <= 3) { uint64_t k1 = vp_u64(); size_t r = w == 2 ? PackedOrderedHashUtil::GetDJBX33XHashKey(s, n, (size_t)k1) : OrderedHashUtil::GetDJBX33XHashKey(s, n, (size_t)k1); vp_assert(r == djb(s, n, (uint32_t)k1), "not the DJB hash of the key bytes"); vp_cover("djb"); }
	else {
		vp_assert(CacheUtil::GetHashKey(s, n) == djb(s, n, 5381), "cache hash differs from the DJB hash of the key bytes");
		char *z = new char[n + 1]; size_t h = 5381; for (size_t i = 0; i < n; i++) { z[i] = (char)s[i]; vp_assume(s[i] != 0); h = h * 33 ^ (size_t)z[i]; } z[n] = 0;
		vp_assert(CacheUtil::GetHashKey(z) == h, "cache string hash differs from the DJB hash of the key bytes"); delete[] z; vp_cover("cache");
	}
	delete[] s;
}
#endif
