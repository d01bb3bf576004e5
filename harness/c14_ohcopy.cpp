#include "oh_common.h"
static void copied(M &d, const M &s) { d = s; }
extern "C" void vp_main() {
	{
		size_t e = vp_choice(2) ? 1 : 3; bool sip = vp_choice(2);
		OrderedHash<uint32_t> *a = sip ? new OrderedHash<uint32_t>(e, 1, 2) : new OrderedHash<uint32_t>(e); M ma, mb;
		fill(*a, ma, vp_choice(INIT + 1));
		for (unsigned s = 0; s < PRE; s++) step(*a, ma, true);
		unsigned how = vp_choice(4); OrderedHash<uint32_t> *b;
		if (how == 0) { b = new OrderedHash<uint32_t>(*a); vp_cover("construct"); }
		else { b = new OrderedHash<uint32_t>(5, 7); if (how >= 2) fill(*b, mb, 3); OrderedHash<uint32_t> &r = (*b = *a); vp_assert(&r == b, "assignment result"); if (how == 3) { *b = *b; *b = *a; } vp_cover("assign"); }
		copied(mb, ma); verify(*b, mb, false); verify(*a, ma);
		for (size_t i = 0; i < ma.k; i++) { vp_assert(ma.n[i] != mb.n[i], "copy shares nodes"); if (ma.key[i].str) vp_assert(ma.n[i]->GetStrKey() != mb.n[i]->GetStrKey(), "copy shares key storage"); }
		if (vp_choice(2)) { delete a; a = NULL; for (unsigned s = 0; s < POST; s++) step(*b, mb); verify(*b, mb); delete b; }
		else if (vp_choice(2)) { for (unsigned s = 0; s < POST; s++) step(*a, ma); verify(*b, mb); verify(*a, ma); delete b; verify(*a, ma); delete a; }
		else { for (unsigned s = 0; s < POST; s++) step(*b, mb); verify(*b, mb); verify(*a, ma); delete b; delete a; }
		// a node copy or assignment duplicates key and value
		for (size_t i = 0; i < nf; i++) { Node c(*fr[i]), d; d = c; d = *&d; samekey(&c, frk[i]); samekey(&d, frk[i]); vp_assert(c.Value == frv[i] && d.Value == frv[i], "node copy"); }
		for (size_t i = 0; i < nf; i++) delete fr[i];
	}
	vp_assert(vp_heap_live() == 0, "nodes or keys not freed exactly once");
}
