#include "expr.h"
std::vector<VarInfo> gvars; ExprPool P;

Expr *mkConst(u64 v, unsigned w) { return P.get(CONST, w, v & maskw(w), 0, 0, 0); }
Expr *mkVar(u32 idx, unsigned w) { return P.get(VAR, w, idx, 0, 0, 0); }

u64 evalConstBin(Op op, u64 a, u64 b, unsigned w) {
	u64 m = maskw(w); a &= m; b &= m;
	switch (op) {
	case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
	case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
	case SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u64)(0 - (u64)x) & m; return (u64)(x / y) & m; }
	case SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
	case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
	case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b;
	case ASHR: { i64 x = sx(a, w); if (b >= w) b = w - 1; return (u64)(x >> b) & m; }
	case EQ: return a == b; case ULT: return a < b; case SLT: return sx(a, w) < sx(b, w);
	default: abort();
	}
}

static inline bool pow2(u64 v) { return v && !(v & (v - 1)); }
static inline unsigned lg(u64 v) { unsigned n = 0; while (v >>= 1) n++; return n; }

Expr *mkNot(Expr *a) {
	if (isC(a)) return mkConst(!a->v, 1);
	if (a->op == NOT) return a->k[0];
	return P.get(NOT, 1, 0, a, 0, 0);
}
Expr *mkZExt(Expr *a, unsigned w) {
	if (a->w == w) return a;
	if (isC(a)) return mkConst(a->v, w);
	if (a->op == ZEXT) return mkZExt(a->k[0], w);
	return P.get(ZEXT, w, 0, a, 0, 0);
}
Expr *mkSExt(Expr *a, unsigned w) {
	if (a->w == w) return a;
	if (isC(a)) return mkConst((u64)sx(a->v, a->w), w);
	if (a->hi < (1ULL << (a->w - 1))) return mkZExt(a, w);
	if (a->op == SEXT) return mkSExt(a->k[0], w);
	if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
	return P.get(SEXT, w, 0, a, 0, 0);
}
Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
	if (lo == 0 && w == a->w) return a;
	if (isC(a)) return mkConst(a->v >> lo, w);
	if (lo < 64 && (a->hi >> lo) == 0) return mkConst(0, w);
	switch (a->op) {
	case EXTRACT: return mkExtract(a->k[0], a->v + lo, w);
	case ZEXT: { Expr *x = a->k[0]; if (lo >= x->w) return mkConst(0, w); if (lo + w <= x->w) return mkExtract(x, lo, w); return mkZExt(mkExtract(x, lo, x->w - lo), w); }
	case SEXT: { Expr *x = a->k[0]; if (lo + w <= x->w) return mkExtract(x, lo, w); if (lo == 0) return mkSExt(x, w); break; }
	case CONCAT: { Expr *h = a->k[0], *l = a->k[1]; if (lo + w <= l->w) return mkExtract(l, lo, w); if (lo >= l->w) return mkExtract(h, lo - l->w, w); return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo)); }
	case AND: case OR: case XOR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
	case ADD: case SUB: case MUL: if (lo == 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
	case ITE: if (isC(a->k[1]) || isC(a->k[2]) || a->nodes < 200) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
	case UDIV: case UREM: // narrow when the high bits are known zero
		if (lo == 0 && a->k[0]->hi <= maskw(w) && a->k[1]->hi <= maskw(w) && a->k[1]->lo > 0) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
		break;
	default: break;
	}
	return P.get(EXTRACT, w, lo, a, 0, 0);
}
Expr *mkConcat(Expr *h, Expr *l) {
	unsigned w = h->w + l->w; if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
	if (isC(h) && isC(l)) return mkConst((h->v << l->w) | l->v, w);
	if (isC(h, 0)) return mkZExt(l, w);
	if (h->op == EXTRACT && l->op == EXTRACT && h->k[0] == l->k[0] && h->v == l->v + l->w) return mkExtract(h->k[0], l->v, w);
	if (h->op == ZEXT) return mkZExt(mkConcat(h->k[0], l), w);
	if (l->op == CONCAT) return mkConcat(mkConcat(h, l->k[0]), l->k[1]); // normal form: left-nested
	if (l->op == ZEXT) return mkConcat(mkConcat(h, mkConst(0, l->w - l->k[0]->w)), l->k[0]);
	// concat(concat(x, extract a), extract b) -> merge adjacent
	if (h->op == CONCAT && isC(h->k[1]) && isC(l)) return mkConcat(h->k[0], mkConst((h->k[1]->v << l->w) | l->v, h->k[1]->w + l->w));
	if (h->op == CONCAT && h->k[1]->op == EXTRACT && l->op == EXTRACT && h->k[1]->k[0] == l->k[0] && h->k[1]->v == l->v + l->w)
		return mkConcat(h->k[0], mkExtract(l->k[0], l->v, h->k[1]->w + l->w));
	return P.get(CONCAT, w, 0, h, l, 0);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
	if (isC(c)) return c->v ? a : b;
	if (a == b) return a;
	if (c->op == NOT) return mkIte(c->k[0], b, a);
	if (a->w == 1) {
		if (isC(a, 1) && isC(b, 0)) return c;
		if (isC(a, 0) && isC(b, 1)) return mkNot(c);
		if (isC(a, 1)) return mkBin(OR, c, b);
		if (isC(a, 0)) return mkBin(AND, mkNot(c), b);
		if (isC(b, 0)) return mkBin(AND, c, a);
		if (isC(b, 1)) return mkBin(OR, mkNot(c), a);
	}
	if (a->op == ITE && a->k[0] == c) a = a->k[1];
	if (b->op == ITE && b->k[0] == c) b = b->k[2];
	if (a == b) return a;
	return P.get(ITE, a->w, 0, c, a, b);
}
static bool disjointLow(Expr *a, Expr *b) { // a has zero low bits covering b
	return a->op == CONCAT && isC(a->k[1], 0) && a->k[1]->w < 64 && b->hi < (1ULL << a->k[1]->w);
}
static bool allConstLeaves(Expr *e, int d) { if (isC(e)) return true; if (e->op == ITE && d > 0) return allConstLeaves(e->k[1], d - 1) && allConstLeaves(e->k[2], d - 1); return false; }

// a = c*K + R without overflow: splits off the terms of a sum that are multiples of c
static bool splitMultiple(Expr *a, u64 c, Expr *&K, Expr *&R) {
	unsigned w = a->w; u64 m = maskw(w); std::vector<Expr *> todo{a}, terms;
	while (!todo.empty()) {
		Expr *t = todo.back(); todo.pop_back();
		if (t->op == ADD) { if ((unsigned __int128)t->k[0]->hi + t->k[1]->hi > m) return false; todo.push_back(t->k[0]); todo.push_back(t->k[1]); if (terms.size() + todo.size() > 12) return false; }
		else terms.push_back(t);
	}
	bool any = false; K = mkConst(0, w); R = mkConst(0, w);
	for (Expr *t : terms) {
		if (isC(t)) { if (t->v >= c) { any = true; K = mkBin(ADD, K, mkConst(t->v / c, w)); } R = mkBin(ADD, R, mkConst(t->v % c, w)); }
		else if (t->op == MUL && isC(t->k[1]) && t->k[1]->v % c == 0 && (unsigned __int128)t->k[0]->hi * t->k[1]->v <= m) { any = true; K = mkBin(ADD, K, mkBin(MUL, t->k[0], mkConst(t->k[1]->v / c, w))); }
		else R = mkBin(ADD, R, t);
	}
	return any;
}
Expr *mkBin(Op op, Expr *a, Expr *b) {
	unsigned w = a->w;
	if (a->w != b->w) { fprintf(stderr, "width mismatch %s %d %d\n", opname[op], a->w, b->w); abort(); }
	bool cmp = (op == EQ || op == ULT || op == SLT);
	if (isC(a) && isC(b)) return mkConst(evalConstBin(op, a->v, b->v, w), cmp ? 1 : w);
	bool comm = (op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ);
	if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
	u64 m = maskw(w);
	switch (op) {
	case ADD:
		if (isC(b, 0)) return a;
		if (isC(b)) {
			if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkConst(a->k[1]->v + b->v, w));
			if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(ADD, a->k[1], b), mkBin(ADD, a->k[2], b));
			// push constant into zext if no overflow
			if (a->op == ZEXT && a->hi <= maskw(a->k[0]->w) && b->v <= maskw(a->k[0]->w) - a->hi) return mkZExt(mkBin(ADD, a->k[0], mkConst(b->v, a->k[0]->w)), w);
			if (a->op == SUB && isC(a->k[0])) return mkBin(SUB, mkConst(a->k[0]->v + b->v, w), a->k[1]);
		} else {
			if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(ADD, a->k[0], b), a->k[1]);
			if (b->op == ADD && isC(b->k[1])) return mkBin(ADD, mkBin(ADD, a, b->k[0]), b->k[1]);
			if (a->op == SUB && a->k[1] == b) return a->k[0];
			if (b->op == SUB && b->k[1] == a) return b->k[0];
			for (int t = 0; t < 2; t++) { Expr *x = t ? b : a, *y = t ? a : b; if (y->op == CONCAT && isC(y->k[1], 0) && y->k[1]->w < w && mkBin(SHL, x, mkConst(y->k[1]->w, w)) == y) return mkBin(MUL, x, mkConst((1ULL << y->k[1]->w) + 1, w)); } // x + (x << k)
			if (disjointLow(a, b)) return mkConcat(a->k[0], mkExtract(b, 0, a->k[1]->w));
			if (disjointLow(b, a)) return mkConcat(b->k[0], mkExtract(a, 0, b->k[1]->w));
			if (a == b && w > 1) return mkBin(SHL, a, mkConst(1, w));
		}
		break;
	case SUB:
		if (isC(b)) return mkBin(ADD, a, mkConst(0 - b->v, w));
		if (a == b) return mkConst(0, w);
		if (a->op == ADD && a->k[0] == b) return a->k[1];
		if (a->op == ADD && a->k[1] == b) return a->k[0];
		if (a->op == ADD && isC(a->k[1])) return mkBin(ADD, mkBin(SUB, a->k[0], b), a->k[1]);
		if (b->op == ADD && isC(b->k[1])) return mkBin(ADD, mkBin(SUB, a, b->k[0]), mkConst(0 - b->k[1]->v, w));
		// x - (x udiv c)*c -> x urem c
		if (b->op == MUL && isC(b->k[1]) && b->k[1]->v && mkBin(UDIV, a, b->k[1]) == b->k[0]) return mkBin(UREM, a, b->k[1]);
		if (b->op == CONCAT && isC(b->k[1], 0) && b->k[1]->w < w && mkBin(SHL, mkBin(LSHR, a, mkConst(b->k[1]->w, w)), mkConst(b->k[1]->w, w)) == b) return mkZExt(mkExtract(a, 0, b->k[1]->w), w);
		if (isC(a) && b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(SUB, a, b->k[1]), mkBin(SUB, a, b->k[2]));
		break;
	case MUL:
		if (isC(b)) {
			if (b->v == 0) return b;
			if (b->v == 1) return a;
			if (pow2(b->v)) return mkBin(SHL, a, mkConst(lg(b->v), w));
			if (a->op == MUL && isC(a->k[1])) return mkBin(MUL, a->k[0], mkConst(a->k[1]->v * b->v, w));
			if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(MUL, a->k[1], b), mkBin(MUL, a->k[2], b));
		}
		break;
	case UDIV:
		if (isC(b) && b->v) {
			if (b->v == 1) return a;
			if (a->hi < b->v) return mkConst(0, w);
			if (pow2(b->v)) return mkBin(LSHR, a, mkConst(lg(b->v), w));
			if (a->hi / b->v <= 4 && b->v > 16) { Expr *r = mkConst(0, w); for (u64 q = 1; q <= a->hi / b->v; q++) r = mkIte(mkBin(ULT, a, mkConst(q * b->v, w)), r, mkConst(q, w)); return r; }
			{ Expr *K, *R; if ((a->op == ADD || a->op == MUL) && splitMultiple(a, b->v, K, R)) return mkBin(ADD, K, mkBin(UDIV, R, b)); }
			if (a->op == UDIV && isC(a->k[1]) && a->k[1]->v) { unsigned __int128 p = (unsigned __int128)a->k[1]->v * b->v; if (p > m) return mkConst(0, w); return mkBin(UDIV, a->k[0], mkConst((u64)p, w)); }
			if (a->op == ZEXT && b->v <= maskw(a->k[0]->w)) return mkZExt(mkBin(UDIV, a->k[0], mkConst(b->v, a->k[0]->w)), w);
		}
		break;
	case UREM:
		if (isC(b) && b->v) {
			if (b->v == 1) return mkConst(0, w);
			if (a->hi < b->v) return a;
			if (pow2(b->v)) return mkBin(AND, a, mkConst(b->v - 1, w));
			if (a->hi / b->v <= 4 && b->v > 16) { Expr *r = a; for (u64 q = 1; q <= a->hi / b->v; q++) r = mkIte(mkBin(ULT, a, mkConst(q * b->v, w)), r, mkBin(SUB, a, mkConst(q * b->v, w))); return r; }
			{ Expr *K, *R; if ((a->op == ADD || a->op == MUL) && splitMultiple(a, b->v, K, R)) return mkBin(UREM, R, b); }
			if (a->op == ZEXT && b->v <= maskw(a->k[0]->w)) return mkZExt(mkBin(UREM, a->k[0], mkConst(b->v, a->k[0]->w)), w);
		}
		break;
	case SDIV: if (a->hi < (1ULL << (w - 1)) && b->hi < (1ULL << (w - 1)) && b->lo > 0) return mkBin(UDIV, a, b); if (isC(b, 1)) return a; break;
	case SREM: if (a->hi < (1ULL << (w - 1)) && b->hi < (1ULL << (w - 1)) && b->lo > 0) return mkBin(UREM, a, b); break;
	case AND:
		if (a == b) return a;
		if (isC(b)) {
			if (b->v == 0) return b;
			if (b->v == m) return a;
			if (w == 1) return a;
			// b = low mask
			if (!((b->v + 1) & b->v)) { unsigned n = lg(b->v + 1); if (a->hi <= b->v) return a; return mkZExt(mkExtract(a, 0, n), w); }
			// mask with low zeros: contiguous field
			{ unsigned t = 0; while (!((b->v >> t) & 1)) t++; u64 f = b->v >> t; if (!((f + 1) & f)) { unsigned n = 0; while (f >> n) n++; Expr *mid = mkExtract(a, t, n); Expr *r = t ? mkConcat(mid, mkConst(0, t)) : mid; return mkZExt(r, w); } }
			if (a->op == AND && isC(a->k[1])) return mkBin(AND, a->k[0], mkConst(a->k[1]->v & b->v, w));
			if (a->op == ZEXT) return mkZExt(mkBin(AND, a->k[0], mkConst(b->v, a->k[0]->w)), w);
			if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(AND, a->k[1], b), mkBin(AND, a->k[2], b));
		}
		if (w == 1 && (mkNot(a) == b)) return mkConst(0, 1);
		if (w == 1) { // x==c1 & x==c2 etc.
			if (a->op == EQ && b->op == EQ && a->k[0] == b->k[0] && isC(a->k[1]) && isC(b->k[1])) return mkConst(0, 1);
			if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
			if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
		}
		break;
	case OR:
		if (a == b) return a;
		if (isC(b, 0)) return a;
		if (isC(b, m)) return b;
		if (!isC(b) || true) {
			if (disjointLow(a, b)) return mkConcat(a->k[0], mkExtract(b, 0, a->k[1]->w));
			if (disjointLow(b, a)) return mkConcat(b->k[0], mkExtract(a, 0, b->k[1]->w));
			// zext(concat(x,0)) | small
			if (a->op == ZEXT && b->hi <= maskw(a->k[0]->w)) { Expr *bb = mkExtract(b, 0, a->k[0]->w); if (disjointLow(a->k[0], bb) || isC(bb) || bb->op == CONCAT || bb->op == ZEXT) return mkZExt(mkBin(OR, a->k[0], bb), w); }
			if (b->op == ZEXT && a->hi <= maskw(b->k[0]->w)) { Expr *aa = mkExtract(a, 0, b->k[0]->w); if (disjointLow(b->k[0], aa) || isC(aa) || aa->op == CONCAT || aa->op == ZEXT) return mkZExt(mkBin(OR, b->k[0], aa), w); }
			// field-wise: concat(x, y) | concat(z, t) with equal split
			if (w > 1 && a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w) return mkConcat(mkBin(OR, a->k[0], b->k[0]), mkBin(OR, a->k[1], b->k[1]));
			if (w > 1 && a->op == CONCAT && isC(b)) return mkConcat(mkBin(OR, a->k[0], mkExtract(b, a->k[1]->w, a->k[0]->w)), mkBin(OR, a->k[1], mkExtract(b, 0, a->k[1]->w)));
			// const high | zext(x): split
			if (w > 1 && a->op == ZEXT && isC(b) && (b->v & maskw(a->k[0]->w)) == 0) return mkConcat(mkConst(b->v >> a->k[0]->w, w - a->k[0]->w), a->k[0]);
		}
		if (w == 1 && (mkNot(a) == b)) return mkConst(1, 1);
		if (w == 1) {
			if (a->op == OR && (a->k[0] == b || a->k[1] == b)) return a;
			if (b->op == OR && (b->k[0] == a || b->k[1] == a)) return b;
		}
		break;
	case XOR:
		if (a == b) return mkConst(0, w);
		if (isC(b, 0)) return a;
		if (w == 1 && isC(b, 1)) return mkNot(a);
		if (isC(b) && a->op == XOR && isC(a->k[1])) return mkBin(XOR, a->k[0], mkConst(a->k[1]->v ^ b->v, w));
		if (disjointLow(a, b)) return mkConcat(a->k[0], mkExtract(b, 0, a->k[1]->w));
		if (disjointLow(b, a)) return mkConcat(b->k[0], mkExtract(a, 0, b->k[1]->w));
		break;
	case SHL:
		if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - b->v), mkConst(0, b->v)); }
		break;
	case LSHR:
		if (isC(b)) { if (b->v == 0) return a; if (b->v >= w) return mkConst(0, w); return mkZExt(mkExtract(a, b->v, w - b->v), w); }
		break;
	case ASHR:
		if (isC(b)) { if (b->v == 0) return a; u64 s = b->v >= w ? w - 1 : b->v; return mkSExt(mkExtract(a, s, w - s), w); }
		break;
	case EQ:
		if (a == b) return mkConst(1, 1);
		if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
		if (isC(b)) {
			if (w == 1) return b->v ? a : mkNot(a);
			if (a->op == ZEXT) return mkEq(a->k[0], mkConst(b->v, a->k[0]->w));
			if (a->op == SEXT) { Expr *x = a->k[0]; if (((u64)sx(b->v, x->w) & m) != b->v) return mkConst(0, 1); return mkEq(x, mkConst(b->v, x->w)); }
			if (a->op == CONCAT) return mkBin(AND, mkEq(a->k[0], mkConst(b->v >> a->k[1]->w, a->k[0]->w)), mkEq(a->k[1], mkConst(b->v, a->k[1]->w)));
			if (a->op == ADD && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->v - a->k[1]->v, w));
			if (a->op == SUB && isC(b, 0)) return mkEq(a->k[0], a->k[1]);
			if (a->op == SUB && isC(a->k[0])) return mkEq(a->k[1], mkConst(a->k[0]->v - b->v, w));
			if (a->op == XOR && isC(a->k[1])) return mkEq(a->k[0], mkConst(b->v ^ a->k[1]->v, w));
			if (a->op == XOR && isC(b, 0)) return mkEq(a->k[0], a->k[1]);
			if (a->op == OR && isC(b, 0)) return mkBin(AND, mkEq(a->k[0], b), mkEq(a->k[1], b));
			if (a->op == UDIV && isC(a->k[1]) && a->k[1]->v && b->v == 0) return mkBin(ULT, a->k[0], a->k[1]);
			if (a->op == ITE) {
				if (isC(a->k[1]) && isC(a->k[2])) { bool t = a->k[1]->v == b->v, f = a->k[2]->v == b->v; return t ? (f ? mkConst(1, 1) : a->k[0]) : (f ? mkNot(a->k[0]) : mkConst(0, 1)); }
				if (isC(a->k[1]) && a->k[1]->v != b->v) return mkBin(AND, mkNot(a->k[0]), mkEq(a->k[2], b));
				if (isC(a->k[2]) && a->k[2]->v != b->v) return mkBin(AND, a->k[0], mkEq(a->k[1], b));
				if (isC(a->k[1])) return mkBin(OR, a->k[0], mkEq(a->k[2], b));
				if (isC(a->k[2])) return mkBin(OR, mkNot(a->k[0]), mkEq(a->k[1], b));
			}
		} else {
			if (a->op == ZEXT && b->op == ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkEq(mkZExt(a->k[0], n), mkZExt(b->k[0], n)); }
			if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
			if (a->op == ADD && b->op == ADD && isC(a->k[1]) && isC(b->k[1])) return mkEq(mkBin(ADD, a->k[0], mkConst(a->k[1]->v - b->k[1]->v, w)), b->k[0]);
			if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w) return mkBin(AND, mkEq(a->k[0], b->k[0]), mkEq(a->k[1], b->k[1]));
			if (a->op == ADD && (a->k[0] == b)) return mkEq(a->k[1], mkConst(0, w));
			if (a->op == ADD && (a->k[1] == b)) return mkEq(a->k[0], mkConst(0, w));
			if (b->op == ADD && (b->k[0] == a)) return mkEq(b->k[1], mkConst(0, w));
			if (b->op == ADD && (b->k[1] == a)) return mkEq(b->k[0], mkConst(0, w));
		}
		break;
	case ULT:
		if (a == b) return mkConst(0, 1);
		if (a->hi < b->lo) return mkConst(1, 1);
		if (a->lo >= b->hi) return mkConst(0, 1);
		if (isC(b, 1)) return mkEq(a, mkConst(0, w));
		if (isC(a, 0)) return mkNot(mkEq(b, mkConst(0, w)));
		if (isC(b) && a->op == ZEXT) { u64 mm = maskw(a->k[0]->w); if (b->v > mm) return mkConst(1, 1); return mkBin(ULT, a->k[0], mkConst(b->v, a->k[0]->w)); }
		if (isC(a) && b->op == ZEXT) { u64 mm = maskw(b->k[0]->w); if (a->v >= mm) return mkConst(0, 1); return mkBin(ULT, mkConst(a->v, b->k[0]->w), b->k[0]); }
		if (a->op == ZEXT && b->op == ZEXT) { unsigned n = std::max(a->k[0]->w, b->k[0]->w); return mkBin(ULT, mkZExt(a->k[0], n), mkZExt(b->k[0], n)); }
		// (x udiv c) < k  <=>  x < c*k (if no overflow)
		if (isC(b) && a->op == UDIV && isC(a->k[1]) && a->k[1]->v) { unsigned __int128 p = (unsigned __int128)a->k[1]->v * b->v; if (p > m) return mkConst(1, 1); return mkBin(ULT, a->k[0], mkConst((u64)p, w)); }
		if (isC(a) && b->op == UDIV && isC(b->k[1]) && b->k[1]->v) { unsigned __int128 p = (unsigned __int128)b->k[1]->v * ((unsigned __int128)a->v + 1); if (p > m) return mkConst(0, 1); return mkNot(mkBin(ULT, b->k[0], mkConst((u64)p, w))); }
		if (isC(b) && a->op == ADD && isC(a->k[1]) && a->k[0]->hi <= m - a->k[1]->v) { if (b->v <= a->k[1]->v) return mkConst(0, 1); return mkBin(ULT, a->k[0], mkConst(b->v - a->k[1]->v, w)); }
		if (a->op == ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(ULT, a->k[1], b), mkBin(ULT, a->k[2], b));
		if (b->op == ITE && isC(a) && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkBin(ULT, a, b->k[1]), mkBin(ULT, a, b->k[2]));
		break;
	case SLT: {
		u64 s = 1ULL << (w - 1);
		if (a == b) return mkConst(0, 1);
		if (a->hi < s && b->hi < s) return mkBin(ULT, a, b);
		if (a->lo >= s && b->lo >= s) return mkBin(ULT, a, b);
		if (a->hi < s && b->lo >= s) return mkConst(0, 1);
		if (a->lo >= s && b->hi < s) return mkConst(1, 1);
		if (isC(b) && a->op == SEXT) { i64 k = sx(b->v, w); unsigned n = a->k[0]->w; i64 mx = (i64)(maskw(n - 1)), mn = -mx - 1; if (n > 1) { if (k > mx) return mkConst(1, 1); if (k <= mn) return mkConst(0, 1); return mkBin(SLT, a->k[0], mkConst((u64)k, n)); } }
		if (isC(a) && b->op == SEXT) { i64 k = sx(a->v, w); unsigned n = b->k[0]->w; i64 mx = (i64)(maskw(n - 1)), mn = -mx - 1; if (n > 1) { if (k >= mx) return mkConst(0, 1); if (k < mn) return mkConst(1, 1); return mkBin(SLT, mkConst((u64)k, n), b->k[0]); } }
		if (isC(b, 0)) return mkEq(mkExtract(a, w - 1, 1), mkConst(1, 1));
		if (isC(a, m)) return mkEq(mkExtract(b, w - 1, 1), mkConst(0, 1));
		if (a->op == ITE && isC(b) && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkBin(SLT, a->k[1], b), mkBin(SLT, a->k[2], b));
		break; }
	default: break;
	}
	return P.get(op, cmp ? 1 : w, 0, a, b, 0);
}

std::string show(Expr *e, int d) {
	char b[64];
	if (e->op == CONST) { snprintf(b, 64, "0x%llx:%d", (unsigned long long)e->v, e->w); return b; }
	if (e->op == VAR) { snprintf(b, 64, "v%llu:%d", (unsigned long long)e->v, e->w); return b; }
	if (d == 0) return "...";
	std::string s = "("; s += opname[e->op]; if (e->op == EXTRACT) { snprintf(b, 64, "[%llu+%d]", (unsigned long long)e->v, e->w); s += b; }
	for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + show(e->k[i], d - 1);
	return s + ")";
}
