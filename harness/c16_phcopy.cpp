#include "ph_common.h"
typedef PackedOrderedHash<E> T;
extern "C" void vp_main() {
	{
		size_t e = vp_choice(2) ? 1 : 8; bool sip = vp_choice(2);
		T *a = sip ? new T(e, 1, 2) : new T(e); M ma, mb;
		fill(*a, ma, vp_choice(INIT + 1), vp_choice(4));
		for (unsigned s = 0; s < PRE; s++) step(*a, ma, 5);
		unsigned how = vp_choice(4); T *b;
		if (how == 0) { b = new T(*a); vp_cover("construct"); }
		else { b = new T(2, 7); if (how >= 2) fill(*b, mb, 5, 1); T &r = (*b = *a); vp_assert(&r == b, "assignment result"); if (how == 3) { *b = *b; *b = *a; } vp_cover("assign"); }
		mb = ma; verify(*b, mb); verify(*a, ma);
		for (size_t i = 0; i < ma.k; i++) { Node *x = lookup(*a, ma.key[i]), *y = lookup(*b, ma.key[i]); vp_assert(x != y && x->Value.p != y->Value.p && (!ma.key[i].str || x->GetStrKey() != y->GetStrKey()), "copy shares storage"); }
		switch (vp_choice(3)) {
			case 0: delete a; for (unsigned s = 0; s < POST; s++) step(*b, mb); verify(*b, mb); delete b; break;
			case 1: for (unsigned s = 0; s < POST; s++) step(*a, ma); verify(*b, mb); verify(*a, ma); delete b; verify(*a, ma); delete a; break;
			default: for (unsigned s = 0; s < POST; s++) step(*b, mb); verify(*b, mb); verify(*a, ma); delete b; delete a;
		}
	}
	vp_assert(live == 0, "values not destroyed exactly once");
	vp_assert(vp_heap_live() == 0, "keys or storage not freed exactly once");
}
