// Events: THREADS threads waiting (any timeout), firing and resetting in every interleaving within PRE preemptions.
#include "sync_common.h"
#include "sync/sync_util.cpp"
#include "sync/sync_event.cpp"
using namespace CubicleSoft;
static Sync::Event *ev; static bool manual; static unsigned clk, fires, firing, succ;
static unsigned fire_start, fire_end, reset_start, reset_end, succ_end; static unsigned resetting, resets;
// what is certain about the state, given that calls take effect somewhere between their start and their end
static bool surely_on(bool pre) { unsigned f = fires ? fire_start : pre ? 1 : 0; if (!f) return false; if (fires && firing && fires == firing) return false; return manual ? !resets || reset_end < f && !resetting : succ_end < f; }
static bool surely_off() { return manual && !firing && resets && (!fires || fire_end < reset_start) && !resetting; }
static bool prefire;
static void body(void *arg) {
	for (int i = 0; i < OPS; i++) switch (vp_choice(manual && RESET ? 3 : 2)) {
		case 0: {
			uint32_t w = vp_u32(); bool off = surely_off() || (!prefire && !fires); unsigned fs = fires; bool on = manual && !resets && surely_on(prefire) && !firing; unsigned rs = resets;
			bool ok = ev->Wait(w); clk++;
			if (ok) { succ++; succ_end = clk; vp_assert(!(off && fires == fs), "a wait succeeds on an event that was not fired"); if (!manual) vp_assert(succ <= fires + prefire, "more waits succeed than the event was fired"); vp_cover("released"); }
			else { vp_assert(w != INFINITE, "an unbounded wait gave up"); vp_assert(!(on && resets == rs && w != 0), "a wait fails on a signalled event"); vp_cover("gave up"); }
			break; }
		case 1: { clk++; fire_start = clk; fires++; firing++; bool ok = ev->Fire(); vp_assert(ok, "fire"); firing--; fire_end = ++clk; break; }
		default: { clk++; reset_start = clk; resets++; resetting++; bool ok = ev->Reset(); vp_assert(ok, "reset"); resetting--; reset_end = ++clk; }
	}
}
extern "C" void vp_main() {
	manual = MANUAL; prefire = vp_choice(2); spurious = SPUR; clk = 2;
	{
		Sync::Event e; ev = &e; bool c = e.Create(NAMED ? "event" : NULL, manual, prefire); vp_assert(c, "create");
#ifdef RACE
		vp_share(&e, sizeof(e)); vp_share(shm[0].mem, shm[0].size);
#endif
#ifdef CLOCKFAIL
		clockfail = 1;
#endif
		for (size_t i = 0; i < THREADS; i++) vp_spawn(body, (void *)i);
		vp_preempt(PRE); vp_block(VP_IDLE); vp_preempt(0); clockfail = 0; spurious = 0;
		int b = vp_nblocked(); bool on = surely_on(prefire);
		if (b) {
			vp_assert(!on, "a waiter stays blocked although the event is signalled"); vp_cover("still waiting"); b = 0;
			while (!vp_all_done()) { int n = vp_nblocked(); fires++; clk++; fire_start = clk; bool ok = e.Fire(); vp_assert(ok, "fire"); fire_end = ++clk; vp_block(VP_IDLE); if (OPS == 1) vp_assert(manual ? vp_all_done() : vp_nblocked() == n - 1 || vp_all_done(), "fire releases the wrong number of waiters"); }
			on = manual && surely_on(prefire);
		}
		bool r = e.Wait(0); if (on) vp_assert(r, "a signalled event does not let a wait through"); if (surely_off()) vp_assert(!r, "a reset event lets a wait through");
		if (manual) vp_assert(e.Wait(0) == r && (!r || e.Wait(9)), "a wait changed a manual event"); else { if (r) succ++; vp_assert(succ <= fires + prefire, "more waits succeed than the event was fired"); vp_assert(!e.Wait(0) && !e.Wait(3), "an auto event stays signalled after a wait"); }
	}
	vp_assert(maps == 0 && openfds == 0 && vp_heap_live() == poolblocks, "resources not released");
}
