#define SCALE
#include "c17_hash.cpp"
extern "C" void vp_main() {
	static const size_t L[] = { 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 1023, 1024, 4095, 4096, 4097, 65535, 65536, 65537 }; size_t n = L[vp_choice(21)]; uint8_t *s = new uint8_t[n + 1]; for (size_t i = 0; i < n; i++) { s[i] = (uint8_t)(i * 37 + i / 256 + 11); if (!s[i]) s[i] = 3; } s[n] = 0;
	if (vp_choice(2)) s[n - 1] |= 0x80; uint64_t k1 = 0x0123456789abcdefULL, k2 = ~k1;
	uint64_t e = sip(s, n, k1, k2, 2, 4); vp_assert(PackedOrderedHashUtil::GetSipHashKey(s, n, k1, k2, 2, 4) == e && OrderedHashUtil::GetSipHashKey(s, n, k1, k2, 2, 4) == e, "not the SipHash-2-4 of the key bytes");
	vp_assert(PackedOrderedHashUtil::GetDJBX33XHashKey(s, n, (size_t)k1) == djb(s, n, (uint32_t)k1) && OrderedHashUtil::GetDJBX33XHashKey(s, n, (size_t)k1) == djb(s, n, (uint32_t)k1), "not the DJB hash of the key bytes");
	vp_assert(CacheUtil::GetHashKey(s, n) == djb(s, n, 5381), "cache hash differs from the DJB hash of the key bytes"); size_t h = 5381; for (size_t i = 0; i < n; i++) h = h * 33 ^ (size_t)(char)s[i]; vp_assert(CacheUtil::GetHashKey((char *)s) == h, "cache string hash differs from the DJB hash of the key bytes"); vp_cover("long"); delete[] s;
}
