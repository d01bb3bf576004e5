// Hash-consed bit-vector expressions (width 1..64) with local simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <memory>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	CONCAT, EXTRACT, ZEXT, SEXT, EQ, ULT, SLT, ITE, NOT };
static const char *opname[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
	"concat", "extract", "zext", "sext", "eq", "ult", "slt", "ite", "not" };

struct Expr;
typedef const std::vector<u32> *VarSet;
struct Expr {
	Op op; u8 w; u32 id; u64 v; Expr *k[3]; u64 lo, hi; VarSet vars; Z3_ast z, za; u64 ev; u32 egen; u32 nodes; bool hasdiv;
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); return (i64)(((v & maskw(w)) ^ m) - m); }

struct VarInfo { u8 w; bool undef; std::string name; };
extern std::vector<VarInfo> gvars;

struct ExprPool {
	std::vector<Expr *> chunks; size_t used = 0, total = 0; 
	struct H { size_t operator()(const Expr *e) const { u64 h = e->op * 0x9E3779B97F4A7C15ULL + e->w; h = (h ^ e->v) * 0xff51afd7ed558ccdULL; for (int i = 0; i < 3; i++) { h ^= h >> 29; h = (h + (u64)(e->k[i] ? e->k[i]->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ULL; } return h ^ (h >> 32); } };
	struct E { bool operator()(const Expr *a, const Expr *b) const { return a->op == b->op && a->w == b->w && a->v == b->v && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
	std::unordered_set<Expr *, H, E> tab;
	struct VH { size_t operator()(const std::vector<u32> &a) const { size_t h = 1469598103934665603ULL; for (u32 x : a) h = (h ^ x) * 1099511628211ULL; return h; } };
	std::unordered_map<std::vector<u32>, VarSet, VH> vsets;
	VarSet internSet(const std::vector<u32> &v) { auto it = vsets.find(v); if (it != vsets.end()) return it->second; auto *n = new std::vector<u32>(v); vsets.emplace(v, n); return n; }
	VarSet unite(VarSet a, VarSet b) { if (a == b || b->empty()) return a; if (a->empty()) return b; std::vector<u32> r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r)); if (r == *a) return a; if (r == *b) return b; return internSet(r); }
	VarSet emptySet; 
	ExprPool() { emptySet = internSet({}); }
	Expr *get(Op op, u8 w, u64 v, Expr *a, Expr *b, Expr *c) {
		Expr t; t.op = op; t.w = w; t.v = v; t.k[0] = a; t.k[1] = b; t.k[2] = c;
		auto it = tab.find(&t); if (it != tab.end()) return *it;
		if (chunks.empty() || used == 4096) { chunks.push_back((Expr *)malloc(sizeof(Expr) * 4096)); used = 0; }
		Expr *e = &chunks.back()[used++]; *e = t; e->id = ++total; e->z = nullptr; e->za = nullptr; e->egen = 0; e->ev = 0; e->nodes = 1;
		e->vars = emptySet; e->hasdiv = (op == UDIV || op == UREM);
		for (int i = 0; i < 3; i++) if (t.k[i]) { e->vars = unite(e->vars, t.k[i]->vars); e->nodes += std::min(t.k[i]->nodes, 1000000u); e->hasdiv |= t.k[i]->hasdiv; }
		if (op == VAR) e->vars = internSet({ (u32)v });
		range(e); tab.insert(e); return e;
	}
	void range(Expr *e) {
		u64 m = maskw(e->w), lo = 0, hi = m; Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
		switch (e->op) {
		case CONST: lo = hi = e->v; break;
		case ADD: if (a->hi <= m - b->hi) { lo = a->lo + b->lo; hi = a->hi + b->hi; } break;
		case SUB: if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; } break;
		case MUL: { unsigned __int128 p = (unsigned __int128)a->hi * b->hi; if (p <= m) { lo = a->lo * b->lo; hi = (u64)p; } break; }
		case UDIV: if (b->lo > 0) { lo = a->lo / b->hi; hi = a->hi / b->lo; } break;
		case UREM: if (b->lo > 0) { hi = std::min(a->hi, b->hi - 1); } break;
		case AND: hi = std::min(a->hi, b->hi); break;
		case OR: case XOR: { u64 x = a->hi | b->hi; unsigned n = 0; while (n < 64 && (x >> n)) n++; hi = n ? maskw(n) : 0; if (e->op == OR) lo = std::max(a->lo, b->lo); break; }
		case LSHR: hi = a->hi; break;
		case CONCAT: lo = (a->lo << b->w) | b->lo; hi = (a->hi << b->w) | b->hi; if (a->lo != a->hi) { lo = a->lo << b->w; hi = (a->hi << b->w) | maskw(b->w); } break;
		case ZEXT: lo = a->lo; hi = a->hi; break;
		case EXTRACT: if (e->v == 0 && a->hi <= m) { lo = a->lo; hi = a->hi; } else if (e->v + e->w == a->w || (a->hi >> e->v) <= m) { lo = a->lo >> e->v; hi = a->hi >> e->v; } break;
		case SEXT: if (a->hi < (1ULL << (a->w - 1))) { lo = a->lo; hi = a->hi; } break;
		case ITE: lo = std::min(b->lo, c->lo); hi = std::max(b->hi, c->hi); break;
		default: break;
		}
		e->lo = lo; e->hi = hi;
	}
};
extern ExprPool P;
static inline bool isC(Expr *e) { return e->op == CONST; }
static inline bool isC(Expr *e, u64 v) { return e->op == CONST && e->v == v; }

Expr *mkConst(u64 v, unsigned w);
Expr *mkVar(u32 idx, unsigned w);
Expr *mkBin(Op op, Expr *a, Expr *b);
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZExt(Expr *a, unsigned w);
Expr *mkSExt(Expr *a, unsigned w);
Expr *mkNot(Expr *a);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
static inline Expr *mkEq(Expr *a, Expr *b) { return mkBin(EQ, a, b); }
static inline Expr *mkAnd1(Expr *a, Expr *b) { return mkBin(AND, a, b); }
static inline Expr *mkOr1(Expr *a, Expr *b) { return mkBin(OR, a, b); }
u64 evalConstBin(Op op, u64 a, u64 b, unsigned w);
std::string show(Expr *e, int depth = 6);
