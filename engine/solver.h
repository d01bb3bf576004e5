#pragma once
#include "expr.h"
#include <map>
struct Group { VarSet vars; std::vector<Expr *> cons; };   // cons kept sorted by id
typedef std::shared_ptr<const Group> GroupP;
typedef std::vector<u64> Model;  // indexed by var; missing = 0
enum Res { UNSAT = 0, SAT = 1, UNK = 2 };
struct Stats { u64 queries, z3calls, cachehits, modelhits, unsat, sat, unk, z3us, paths, killed, insts, forks, asserts, assertq, absunsat, maxz3us, exprs; };
extern Stats *gst;

struct Solver {
	Z3_context ctx; Z3_solver s1, s2; Z3_params p1, p2; unsigned t1 = 2000000, t2 = 400000000;
	u32 gen = 1;
	struct CE { Res r; std::vector<std::pair<u32, u64>> m; };
	struct KH { size_t operator()(const std::vector<u32> &a) const { size_t h = 1469598103934665603ULL; for (u32 x : a) h = (h ^ x) * 1099511628211ULL; return h; } };
	std::unordered_map<std::vector<u32>, CE, KH> cache;
	Solver();
	Z3_ast z(Expr *e, bool abs = false); // abs: divisions by constants become free variables (over-approximation)
	// integer encoding of the linear fragment (constant factors and divisors), for queries bit-blasting cannot settle
	Z3_solver s3; Z3_params p3; std::unordered_map<Expr *, Z3_ast> im; std::map<std::pair<u64, unsigned __int128>, std::pair<Z3_ast, Z3_ast>> idiv; std::vector<Z3_ast> iside; bool iok; unsigned ifresh = 0;
	Z3_ast iz(Expr *e), inum(unsigned __int128 v), ivar(unsigned __int128 hi), iwrap(Z3_ast t, unsigned w, bool sub, unsigned __int128 maxq); std::pair<Z3_ast, Z3_ast> idm(Z3_ast x, u64 id, unsigned __int128 c, unsigned __int128 qhi);
	Res intcheck(const std::vector<Expr *> &cs, VarSet vs, std::vector<std::pair<u32, u64>> *m, unsigned rl);
	u64 eval(Expr *e, const Model &m) { gen++; return ev(e, m); }
	u64 ev(Expr *e, const Model &m);
	// is (conjunction of groups touching cond) && cond satisfiable?  On SAT fill assignments for the variables involved.
	Res check(const std::vector<GroupP> &gs, Expr *cond, std::vector<std::pair<u32, u64>> *out);
};
