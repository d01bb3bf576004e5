// A timed wait on an empty semaphore asks for exactly the requested time, whatever the clock reads.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_semaphore.cpp"
using namespace CubicleSoft;
extern "C" void vp_main() {
	deadline_check = 1; now_sec = vp_sym(33); now_nsec = vp_sym(30); vp_assume(now_nsec <= 999999999);
	static const uint32_t big[] = { 3600000, 86400000, 0xfffffffe, 0x7fffffff, 0x80000000 }; unsigned c = vp_choice(6); uint32_t w = c < 5 ? big[c] : (uint32_t)vp_sym(16); vp_assume(w); wait_ms = w;
	Sync::Semaphore s; bool ok = s.Create(NULL, 0); vp_assert(ok, "create"); ok = s.Lock(w); vp_assert(!ok, "admitted without capacity"); vp_cover("waited");
	ok = s.Lock(0); vp_assert(!ok, "admitted without capacity");
}
