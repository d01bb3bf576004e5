#include "solver.h"
#include <time.h>
#include <unistd.h>
Stats *gst;
static u64 nowus() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ULL + t.tv_nsec / 1000; }
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(3); }
Solver::Solver() {
	Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
	Z3_set_error_handler(ctx, zerr);
	s1 = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s1);
	Z3_tactic t = Z3_mk_tactic(ctx, "qfbv"); Z3_tactic_inc_ref(ctx, t); s2 = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, s2);
	p1 = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p1); Z3_params_set_uint(ctx, p1, Z3_mk_string_symbol(ctx, "rlimit"), t1); Z3_solver_set_params(ctx, s1, p1);
	s3 = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_LIA")); Z3_solver_inc_ref(ctx, s3); p3 = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p3);
	if (getenv("VP_Z3_RLIMIT")) t2 = atoi(getenv("VP_Z3_TIMEOUT"));
	p2 = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p2); Z3_params_set_uint(ctx, p2, Z3_mk_string_symbol(ctx, "rlimit"), t2); Z3_solver_set_params(ctx, s2, p2);
}
Z3_ast Solver::z(Expr *e, bool abs) {
	if (abs && !e->hasdiv) abs = false;
	if (abs ? e->za : e->z) return abs ? e->za : e->z;
	if (abs && (e->op == UDIV || e->op == UREM) && isC(e->k[1]) && e->k[1]->v) { e->za = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("d" + std::to_string(e->id)).c_str()), Z3_mk_bv_sort(ctx, e->w)); return e->za; }
	Z3_ast r = nullptr, a = e->k[0] ? z(e->k[0], abs) : nullptr, b = e->k[1] ? z(e->k[1], abs) : nullptr, c = e->k[2] ? z(e->k[2], abs) : nullptr;
	switch (e->op) {
	// width-1 expressions are Bool
	case CONST: if (e->w == 1) r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); else r = Z3_mk_unsigned_int64(ctx, e->v, Z3_mk_bv_sort(ctx, e->w)); break;
	case VAR: { Z3_symbol s = Z3_mk_int_symbol(ctx, (int)e->v); r = Z3_mk_const(ctx, s, e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)); break; }
	default: {
		auto tobv = [&](Expr *x, Z3_ast y) { if (x->w > 1) return y; return Z3_mk_ite(ctx, y, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); };
		auto frombv1 = [&](Z3_ast y) { return Z3_mk_eq(ctx, y, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); };
		bool b1 = e->w == 1;
		switch (e->op) {
		case ITE: r = Z3_mk_ite(ctx, a, b, c); break;
		case NOT: r = Z3_mk_not(ctx, a); break;
		case EQ: r = Z3_mk_eq(ctx, a, b); break;
		case ULT: r = Z3_mk_bvult(ctx, tobv(e->k[0], a), tobv(e->k[1], b)); break;
		case SLT: r = Z3_mk_bvslt(ctx, tobv(e->k[0], a), tobv(e->k[1], b)); break;
		case AND: if (b1) { Z3_ast t[2] = { a, b }; r = Z3_mk_and(ctx, 2, t); } else r = Z3_mk_bvand(ctx, a, b); break;
		case OR: if (b1) { Z3_ast t[2] = { a, b }; r = Z3_mk_or(ctx, 2, t); } else r = Z3_mk_bvor(ctx, a, b); break;
		case XOR: if (b1) r = Z3_mk_xor(ctx, a, b); else r = Z3_mk_bvxor(ctx, a, b); break;
		case CONCAT: r = Z3_mk_concat(ctx, tobv(e->k[0], a), tobv(e->k[1], b)); break;
		case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, tobv(e->k[0], a)); break;
		case SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, tobv(e->k[0], a)); break;
		case EXTRACT: r = Z3_mk_extract(ctx, e->v + e->w - 1, e->v, tobv(e->k[0], a)); if (b1) r = frombv1(r); break;
		default: {
			Z3_ast x = tobv(e->k[0], a), y = tobv(e->k[1], b);
			switch (e->op) {
			case ADD: r = Z3_mk_bvadd(ctx, x, y); break; case SUB: r = Z3_mk_bvsub(ctx, x, y); break; case MUL: r = Z3_mk_bvmul(ctx, x, y); break;
			case UDIV: r = Z3_mk_bvudiv(ctx, x, y); break; case SDIV: r = Z3_mk_bvsdiv(ctx, x, y); break; case UREM: r = Z3_mk_bvurem(ctx, x, y); break; case SREM: r = Z3_mk_bvsrem(ctx, x, y); break;
			case SHL: r = Z3_mk_bvshl(ctx, x, y); break; case LSHR: r = Z3_mk_bvlshr(ctx, x, y); break; case ASHR: r = Z3_mk_bvashr(ctx, x, y); break;
			default: abort();
			}
			if (b1) r = frombv1(r);
		} }
	} }
	if (abs) e->za = r; else e->z = r; return r;
}
Z3_ast Solver::inum(unsigned __int128 v) { std::string t; if (!v) t = "0"; while (v) { t.insert(t.begin(), (char)('0' + (int)(v % 10))); v /= 10; } return Z3_mk_numeral(ctx, t.c_str(), Z3_mk_int_sort(ctx)); }
Z3_ast Solver::ivar(unsigned __int128 hi) { Z3_ast v = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("i" + std::to_string(ifresh++)).c_str()), Z3_mk_int_sort(ctx)); iside.push_back(Z3_mk_ge(ctx, v, inum(0))); iside.push_back(Z3_mk_le(ctx, v, inum(hi))); return v; }
// t modulo 2^w, where t lies in [0, (maxq + 1) 2^w) or, for sub, in (-2^w, 2^w)
Z3_ast Solver::iwrap(Z3_ast t, unsigned w, bool sub, unsigned __int128 maxq) {
	unsigned __int128 m = (unsigned __int128)1 << w; Z3_ast q = ivar(maxq), r = ivar(m - 1); Z3_ast mul[2] = { inum(m), q }; Z3_ast mq = Z3_mk_mul(ctx, 2, mul);
	if (sub) { Z3_ast a[2] = { t, mq }; iside.push_back(Z3_mk_eq(ctx, r, Z3_mk_add(ctx, 2, a))); } else { Z3_ast a[2] = { r, mq }; iside.push_back(Z3_mk_eq(ctx, t, Z3_mk_add(ctx, 2, a))); }
	return r;
}
std::pair<Z3_ast, Z3_ast> Solver::idm(Z3_ast x, u64 id, unsigned __int128 c, unsigned __int128 qhi) {
	std::pair<u64, unsigned __int128> key(id, c); auto it = idiv.find(key); if (it != idiv.end()) return it->second;
	Z3_ast q = ivar(qhi), r = ivar(c - 1); Z3_ast mul[2] = { inum(c), q }; Z3_ast ad[2] = { Z3_mk_mul(ctx, 2, mul), r }; iside.push_back(Z3_mk_eq(ctx, x, Z3_mk_add(ctx, 2, ad)));
	return idiv[key] = { q, r };
}
Z3_ast Solver::iz(Expr *e) {
	auto it = im.find(e); if (it != im.end()) return it->second;
	if (!iok) return nullptr;
	typedef unsigned __int128 U; U M2 = (U)1 << e->w; Expr *x = e->k[0], *y = e->k[1]; Z3_ast r = nullptr;
	auto nn = [&](Expr *k) -> Z3_ast { Z3_ast t = iz(k); if (!iok) return t; return k->w == 1 ? Z3_mk_ite(ctx, t, inum(1), inum(0)) : t; };   // operand as a number
	auto two = [&](Z3_ast (*f)(Z3_context, unsigned, Z3_ast const *), Z3_ast p, Z3_ast q) { Z3_ast t[2] = { p, q }; return f(ctx, 2, t); };
	auto bad = [&]() { iok = false; return (Z3_ast) nullptr; };
	auto sgn = [&](Expr *k) { Z3_ast t = nn(k); return !iok ? t : k->hi < (1ULL << (k->w - 1)) ? t : Z3_mk_ite(ctx, Z3_mk_ge(ctx, t, inum((U)1 << (k->w - 1))), two(Z3_mk_sub, t, inum((U)1 << k->w)), t); };
	auto toBool = [&](Z3_ast t) { return Z3_mk_eq(ctx, t, inum(1)); };
	switch (e->op) {
	case CONST: r = e->w == 1 ? (e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : inum(e->v); break;
	case VAR: if (e->w == 1) r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("b" + std::to_string(e->v)).c_str()), Z3_mk_bool_sort(ctx)); else { r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->v)).c_str()), Z3_mk_int_sort(ctx)); iside.push_back(Z3_mk_ge(ctx, r, inum(0))); iside.push_back(Z3_mk_lt(ctx, r, inum(M2))); } break;
	case NOT: r = iz(x); if (iok) r = Z3_mk_not(ctx, r); break;
	case ITE: { Z3_ast a = iz(x), b = iz(y), c = iz(e->k[2]); if (iok) r = Z3_mk_ite(ctx, a, b, c); break; }
	case EQ: { if (x->w == 1) { Z3_ast a = iz(x), b = iz(y); if (iok) r = Z3_mk_eq(ctx, a, b); } else { Z3_ast a = nn(x), b = nn(y); if (iok) r = Z3_mk_eq(ctx, a, b); } break; }
	case ULT: { Z3_ast a = nn(x), b = nn(y); if (iok) r = Z3_mk_lt(ctx, a, b); break; }
	case SLT: { Z3_ast a = sgn(x), b = sgn(y); if (iok) r = Z3_mk_lt(ctx, a, b); break; }
	case AND: case OR: case XOR:
		if (e->w == 1) { Z3_ast a = iz(x), b = iz(y); if (iok) r = e->op == AND ? two(Z3_mk_and, a, b) : e->op == OR ? two(Z3_mk_or, a, b) : Z3_mk_xor(ctx, a, b); break; }
		if (e->op == AND) { Expr *c = isC(y) ? y : isC(x) ? x : nullptr, *o = c == y ? x : y; if (c && !(c->v & (c->v + 1))) { U m = (U)c->v + 1; Z3_ast t = nn(o); if (iok) r = o->hi < m ? t : idm(t, o->id, m, o->hi / (u64)c->v + 1).second; break; } }
		return bad();
	case ADD: { if (e->w == 1) return bad(); Z3_ast a = nn(x), b = nn(y); if (!iok) break; r = two(Z3_mk_add, a, b); if ((U)x->hi + y->hi >= M2) r = iwrap(r, e->w, false, 1); break; }
	case SUB: { if (e->w == 1) return bad(); Z3_ast a = nn(x), b = nn(y); if (!iok) break; r = two(Z3_mk_sub, a, b); if (x->lo < y->hi) r = iwrap(r, e->w, true, 1); break; }
	case MUL: { if (e->w == 1 || (!isC(x) && !isC(y))) return bad(); Expr *c = isC(x) ? x : y, *o = c == x ? y : x; Z3_ast t = nn(o); if (!iok) break;
		if (c->v >> (e->w - 1)) { u64 nc = (0 - c->v) & maskw(e->w); if ((U)nc * o->hi >= M2) return bad(); r = two(Z3_mk_sub, inum(0), two(Z3_mk_mul, inum(nc), t)); r = iwrap(r, e->w, true, 1); break; }   // multiplication by a negative constant
		r = two(Z3_mk_mul, inum(c->v), t); U top = (U)c->v * o->hi; if (top >= M2) r = iwrap(r, e->w, false, top >> e->w); break; }
	case SHL: { if (e->w == 1 || !isC(y) || y->v >= e->w) return bad(); Z3_ast t = nn(x); if (!iok) break; U c = (U)1 << y->v, top = c * x->hi; r = two(Z3_mk_mul, inum(c), t); if (top >= M2) r = iwrap(r, e->w, false, top >> e->w); break; }
	case LSHR: { if (e->w == 1 || !isC(y) || y->v >= e->w) return bad(); Z3_ast t = nn(x); if (iok) r = y->v ? idm(t, x->id, (U)1 << y->v, x->hi >> y->v).first : t; break; }
	case UDIV: case UREM: { if (e->w == 1 || !isC(y) || !y->v) return bad(); Z3_ast t = nn(x); if (iok) { auto p = idm(t, x->id, y->v, x->hi / y->v); r = e->op == UDIV ? p.first : p.second; } break; }
	case SDIV: case SREM: { if (e->w == 1 || !isC(y) || !y->v || y->v >> (e->w - 1)) return bad(); Z3_ast t = nn(x); if (!iok) break; if (x->hi < (1ULL << (e->w - 1))) { auto p = idm(t, x->id, y->v, x->hi / y->v); r = e->op == SDIV ? p.first : p.second; break; } return bad(); }
	case CONCAT: { Z3_ast a = nn(x), b = nn(y); if (iok) r = two(Z3_mk_add, two(Z3_mk_mul, inum((U)1 << y->w), a), b); break; }
	case ZEXT: r = nn(x); break;
	case SEXT: { Z3_ast t = nn(x); if (!iok) break; r = x->hi < (1ULL << (x->w - 1)) ? t : Z3_mk_ite(ctx, Z3_mk_ge(ctx, t, inum((U)1 << (x->w - 1))), two(Z3_mk_add, t, inum(M2 - ((U)1 << x->w))), t); break; }
	case EXTRACT: { Z3_ast t = nn(x); if (!iok) break; U hi = x->hi; u64 id = x->id;
		if (e->v) { auto p = idm(t, id, (U)1 << e->v, hi >> e->v); t = p.first; hi >>= e->v; id = (u64)x->id | ((u64)(e->v + 1) << 40); }
		if (hi >= M2) t = idm(t, id, M2, hi >> e->w).second;
		r = e->w == 1 ? toBool(t) : t; break; }
	default: return bad();
	}
	if (!iok) return nullptr;
	return im[e] = r;
}
Res Solver::intcheck(const std::vector<Expr *> &cs, VarSet vs, std::vector<std::pair<u32, u64>> *m, unsigned rl) {
	im.clear(); idiv.clear(); iside.clear(); iok = true; ifresh = 0; std::vector<Z3_ast> as;
	for (Expr *c : cs) { Z3_ast a = iz(c); if (!iok) return UNK; as.push_back(a); }
	Z3_params_set_uint(ctx, p3, Z3_mk_string_symbol(ctx, "rlimit"), rl); Z3_solver_set_params(ctx, s3, p3);
	Z3_solver_push(ctx, s3); for (Z3_ast a : as) Z3_solver_assert(ctx, s3, a); for (Z3_ast a : iside) Z3_solver_assert(ctx, s3, a);
	Z3_lbool r = Z3_solver_check(ctx, s3); Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
	if (res == SAT && m) {
		Z3_model md = Z3_solver_get_model(ctx, s3); Z3_model_inc_ref(ctx, md);
		for (u32 v : *vs) { Z3_ast o = nullptr; u64 val = 0; Expr *ve = mkVar(v, gvars[v].w); auto it = im.find(ve); if (it != im.end() && Z3_model_eval(ctx, md, it->second, true, &o) && o) { if (ve->w == 1) val = Z3_get_bool_value(ctx, o) == Z3_L_TRUE; else { uint64_t t = 0; Z3_get_numeral_uint64(ctx, o, &t); val = t; } } m->push_back({ v, val }); }
		Z3_model_dec_ref(ctx, md);
	}
	Z3_solver_pop(ctx, s3, 1); return res;
}
u64 Solver::ev(Expr *e, const Model &m) {
	if (e->op == CONST) return e->v;
	if (e->op == VAR) return e->v < m.size() ? (m[e->v] & maskw(e->w)) : 0;
	if (e->egen == gen) return e->ev;
	u64 r = 0, w = e->w;
	switch (e->op) {
	case ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
	case NOT: r = !ev(e->k[0], m); break;
	case CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
	case EXTRACT: r = (ev(e->k[0], m) >> e->v) & maskw(w); break;
	case ZEXT: r = ev(e->k[0], m); break;
	case SEXT: r = (u64)sx(ev(e->k[0], m), e->k[0]->w) & maskw(w); break;
	case AND: if (w == 1) { r = ev(e->k[0], m) && ev(e->k[1], m); break; } /* fallthrough */
	default: r = evalConstBin(e->op, ev(e->k[0], m), ev(e->k[1], m), e->k[0]->w);
	}
	e->egen = gen; e->ev = r; return r;
}
static bool intersects(VarSet a, VarSet b) { auto i = a->begin(), j = b->begin(); while (i != a->end() && j != b->end()) { if (*i == *j) return true; if (*i < *j) ++i; else ++j; } return false; }
static void collectRem(Expr *e, std::unordered_set<Expr *> &seen, std::vector<Expr *> &out) {
	if (!e || e->vars->empty() || !seen.insert(e).second) return;
	if ((e->op == UREM || e->op == UDIV) && isC(e->k[1]) && e->k[1]->v) out.push_back(e);
	for (int i = 0; i < 3; i++) collectRem(e->k[i], seen, out);
}
Res Solver::check(const std::vector<GroupP> &gs, Expr *cond, std::vector<std::pair<u32, u64>> *out) {
	gst->queries++;
	if (isC(cond)) { if (out) out->clear(); return cond->v ? SAT : UNSAT; }
	std::vector<u32> key; std::vector<Expr *> cons; VarSet vs = cond->vars;
	for (auto &g : gs) if (intersects(g->vars, cond->vars)) { for (Expr *c : g->cons) { key.push_back(c->id); cons.push_back(c); } vs = P.unite(vs, g->vars); }
	std::sort(key.begin(), key.end()); key.push_back(cond->id);
	auto it = cache.find(key);
	if (it != cache.end()) { gst->cachehits++; if (out) *out = it->second.m; return it->second.r; }
	if (cond->nodes > 1500 && !cond->hasdiv) { // large term: try a few assignments first (a satisfying one is a model; failure decides nothing)
		u64 r = 0x9E3779B97F4A7C15ULL * (cond->id + 1); Model mm;
		for (int t = 0; t < 24; t++) {
			std::vector<std::pair<u32, u64>> as; for (u32 v : *vs) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; u64 val = (t % 3 == 1 ? r & 0x8080808080808080ULL : t % 3 == 2 ? r & 0x7f7f7f7f7f7f7f7fULL : r) & maskw(gvars[v].w); if (mm.size() <= v) mm.resize(v + 1); mm[v] = val; as.push_back({ v, val }); }
			gen++; bool ok = ev(cond, mm); for (Expr *c : cons) ok = ok && ev(c, mm);
			if (ok) { gst->sat++; if (out) *out = as; CE ce; ce.r = SAT; ce.m = as; cache.emplace(std::move(key), std::move(ce)); return SAT; }
		}
	}
	gst->z3calls++;
	u64 t0 = nowus();
	std::vector<Z3_ast> as; for (Expr *c : cons) as.push_back(z(c)); as.push_back(z(cond));
	std::unordered_set<Expr *> seen; std::vector<Expr *> rems; for (Expr *c : cons) collectRem(c, seen, rems); collectRem(cond, seen, rems);
	for (Expr *r : rems) { // valid lemmas about division by constants
		if (r->op == UREM) as.push_back(z(P.get(ULT, 1, 0, r, r->k[1], 0)));
		else { u64 q = maskw(r->w) / r->k[1]->v; if (q < maskw(r->w)) as.push_back(z(P.get(ULT, 1, 0, r, mkConst(q + 1, r->w), 0))); }
	}
	Res res = UNK; Z3_solver used = s1; bool popUsed = false;
	bool hard = !rems.empty();
	if (hard) {
		Z3_solver_push(ctx, s1); for (Expr *c : cons) Z3_solver_assert(ctx, s1, z(c, true)); Z3_solver_assert(ctx, s1, z(cond, true));
		for (Expr *r : rems) { u64 q = r->op == UREM ? r->k[1]->v : maskw(r->w) / r->k[1]->v + 1; if (q) Z3_solver_assert(ctx, s1, z(P.get(ULT, 1, 0, r, mkConst(q, r->w), 0), true)); }
		if (Z3_solver_check(ctx, s1) == Z3_L_FALSE) { res = UNSAT; gst->absunsat++; }
		Z3_solver_pop(ctx, s1, 1);
	}
	std::vector<Expr *> all(cons); all.push_back(cond); std::vector<std::pair<u32, u64>> imodel; bool byint = false;
	static const bool icheck = getenv("VP_INTCHECK") != nullptr; Res ires = UNK;
	if (icheck) ires = intcheck(all, vs, nullptr, 20000000);
	for (int att = hard ? 1 : 0; att < 4 && res == UNK; att++) {
		// 0: incremental, 1: bit-blasting with a moderate limit, 2: integer encoding, 3: bit-blasting with the full limit
		if (att == 2) { if (!hard) continue; res = intcheck(all, vs, &imodel, 40000000); byint = res == SAT; continue; }
		Z3_solver s = att ? s2 : s1; used = s;
		if (att) { Z3_params_set_uint(ctx, p2, Z3_mk_string_symbol(ctx, "rlimit"), att == 1 && hard ? t2 / 40 : t2); Z3_solver_set_params(ctx, s2, p2); if (att == 1 && !hard) att = 3; }
		Z3_solver_push(ctx, s); for (Z3_ast a : as) Z3_solver_assert(ctx, s, a);
		Z3_lbool r = Z3_solver_check(ctx, s);
		res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
		if (res == UNK) Z3_solver_pop(ctx, s, 1); else popUsed = true;
	}
	CE ce; ce.r = res; 
	if (icheck && ires != UNK && res != UNK && ires != res) { fprintf(stderr, "FATAL: integer and bit-vector verdicts differ: %s\n", show(cond, 12).c_str()); _exit(3); }
	if (icheck) { static u64 n, k; n++; k += ires != UNK; if (n % 100 == 0) fprintf(stderr, "intcheck %llu of %llu\n", (unsigned long long)k, (unsigned long long)n); }
	if (byint) ce.m = imodel;
	else if (res == SAT) {
		Z3_model m = Z3_solver_get_model(ctx, used); Z3_model_inc_ref(ctx, m);
		for (u32 v : *vs) {
			Expr *ve = mkVar(v, gvars[v].w); Z3_ast o = nullptr; u64 val = 0;
			if (Z3_model_eval(ctx, m, z(ve), true, &o) && o) { Z3_inc_ref(ctx, o); if (ve->w == 1) val = Z3_get_bool_value(ctx, o) == Z3_L_TRUE; else { uint64_t t = 0; Z3_get_numeral_uint64(ctx, o, &t); val = t; } Z3_dec_ref(ctx, o); }
			ce.m.push_back({ v, val });
		}
		Z3_model_dec_ref(ctx, m);
	}
	if (res == SAT) {
		// self-check: the model returned really satisfies the query
		Model mm; for (auto &p : ce.m) { if (mm.size() <= p.first) mm.resize(p.first + 1); mm[p.first] = p.second; }
		gen++; bool ok = ev(cond, mm); for (Expr *c : cons) ok = ok && ev(c, mm);
		if (!ok) { fprintf(stderr, "FATAL: solver model does not satisfy query (encoding error)\n"); _exit(3); }
	}
	if (popUsed) Z3_solver_pop(ctx, used, 1);
	u64 dt = nowus() - t0; gst->z3us += dt; if (dt > gst->maxz3us) gst->maxz3us = dt;
	if (getenv("VP_SLOWQ") && dt > (u64)atoi(getenv("VP_SLOWQ")) * 1000) fprintf(stderr, "slow query %.3fs res=%d hard=%d popUsed=%d ncons=%zu cond=%s\n", dt / 1e6, res, hard, popUsed, cons.size(), show(cond, 12).c_str());
	if (res == SAT) gst->sat++; else if (res == UNSAT) gst->unsat++; else gst->unk++;
	if (cache.size() > 3000000) cache.clear();
	if (out) *out = ce.m;
	cache.emplace(std::move(key), std::move(ce));
	return res;
}
