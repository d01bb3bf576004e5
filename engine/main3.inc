// ---- execution
static inline Val getv(State &s, Frame &f, const Opnd &o, unsigned w) { if (o.reg >= 0) return f.regs[o.reg]; if (o.undef) return freshVar(s, w, true); return C(o.c); }
static void doBranch(State &s, Frame &f, int to) {
	BB &nb = f.f->bbs[to];
	if (!nb.phis.empty()) {
		static thread_local std::vector<Val> tmp; tmp.clear();
		for (auto &p : nb.phis) { bool ok = false; for (auto &in : p.in) if (in.first == f.bb) { for (unsigned i = 0; i < p.nleaf; i++) tmp.push_back(getv(s, f, in.second[i], p.w[i])); ok = true; break; } if (!ok) { fprintf(stderr, "phi error\n"); abort(); } }
		size_t k = 0; for (auto &p : nb.phis) for (unsigned i = 0; i < p.nleaf; i++) f.regs[p.dst + i] = tmp[k++];
	}
	f.bb = to; f.pc = 0;
}
static void pushFrame(State &s, Func *fn, const std::vector<Val> &args, size_t nargs, bool hook) {
	if (!fn->decoded) { try { decode(fn); } catch (Unsup &u) { fatalUnsupported("unsupported construct: " + u.m); } }
	Thread &t = s.th[s.cur]; if ((int)t.fr.size() > maxDepth) violation(s, "recursion", "call depth exceeds " + std::to_string(maxDepth) + " (unbounded recursion)");
	t.fr.emplace_back(); Frame &f = t.fr.back(); f.f = fn; f.bb = 0; f.pc = 0; f.regs.assign(fn->nregs, C(0)); f.exitHook = hook;
	size_t k = 0; for (auto &a : fn->args) for (int i = 0; i < a.second; i++) { if (k < nargs) f.regs[a.first + i] = args[k]; k++; }
	for (; k < nargs; k++) f.va.push_back(args[k]);
	if (!fn->hit) { fn->hit = true; for (size_t i = 0; i < funcList.size() && i < sizeof(sh->fhit); i++) if (funcList[i] == fn) sh->fhit[i] = 1; }
}
static const u64 CH_JOIN = ~0ULL, CH_IDLE = ~0ULL - 1;
static void logv(State &s, Val v, unsigned w) { s.log.push_back(v); s.logw.push_back(w); }
// pick the next thread when the current one cannot continue (free switch)
static void pickNext(State &s) {
	std::vector<int> cand; for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].st == 0) cand.push_back(i);
	if (cand.empty()) { for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].st == 1 && s.th[i].chan == CH_IDLE) { s.th[i].st = 0; cand.push_back(i); break; } }
	if (cand.empty()) violation(s, "deadlock", "every thread is blocked");
	if (cand.size() == 1) { s.cur = cand[0]; return; }
	for (size_t i = 1; i < cand.size(); i++) { State *o = forkState(s); o->cur = cand[i]; logv(*o, C(cand[i]), 32); o->sched++; pushWork(o); }
	s.cur = cand[0]; logv(s, C(cand[0]), 32); s.sched++;
}
static void yieldPoint(State &s) { // pc already advanced
	if (s.preempt >= s.maxPreempt) return;
	int n = 0; for (auto &t : s.th) if (t.st == 0) n++;
	if (n < 2) return;
	for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].st == 0) { State *o = forkState(s); o->cur = i; o->preempt++; logv(*o, C(i), 32); pushWork(o); }
	logv(s, C(s.cur), 32);
}
static void wake(State &s, u64 chan) { for (auto &t : s.th) if (t.st == 1 && t.chan == chan) t.st = 0; }
static void popAllocas(State &s, Frame &f) { for (size_t i = f.allocas.size(); i-- > 0;) eraseObj(s, f.allocas[i]); }

static void doReturn(State &s, const std::vector<Val> &rv) {
	Thread &t = s.th[s.cur]; popAllocas(s, t.fr.back()); bool hook = t.fr.back().exitHook; t.fr.pop_back();
	if (t.fr.empty()) {
		t.st = 2; if (s.cur == 0) throw PathEnd();
		wake(s, CH_JOIN); pickNext(s); return;
	}
	if (hook) return;
	Frame &c = t.fr.back(); Inst &ci = c.f->bbs[c.bb].ins[c.pc];
	if (ci.dst >= 0) for (unsigned i = 0; i < ci.nleaf && i < rv.size(); i++) c.regs[ci.dst + i] = rv[i];
	if (ci.op == Instruction::Invoke) doBranch(s, c, ci.succ[0]); else c.pc++;
}
static Op binOp(unsigned o) {
	switch (o) {
	case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL; case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM;
	case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR; case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR; default: return CONST;
	}
}
static Val doBin(Op op, Val a, Val b, unsigned w) { if (!a.e && !b.e) return C(evalConstBin(op, a.c, b.c, w)); return fromE(mkBin(op, E(a, w), E(b, w))); }
static Val doICmp(unsigned p, Val a, Val b, unsigned w) {
	switch (p) {
	case CmpInst::ICMP_EQ: return doBin(EQ, a, b, w);
	case CmpInst::ICMP_NE: { Val r = doBin(EQ, a, b, w); return r.e ? fromE(mkNot(r.e)) : C(!r.c); }
	case CmpInst::ICMP_ULT: return doBin(ULT, a, b, w); case CmpInst::ICMP_UGT: return doBin(ULT, b, a, w);
	case CmpInst::ICMP_UGE: { Val r = doBin(ULT, a, b, w); return r.e ? fromE(mkNot(r.e)) : C(!r.c); }
	case CmpInst::ICMP_ULE: { Val r = doBin(ULT, b, a, w); return r.e ? fromE(mkNot(r.e)) : C(!r.c); }
	case CmpInst::ICMP_SLT: return doBin(SLT, a, b, w); case CmpInst::ICMP_SGT: return doBin(SLT, b, a, w);
	case CmpInst::ICMP_SGE: { Val r = doBin(SLT, a, b, w); return r.e ? fromE(mkNot(r.e)) : C(!r.c); }
	case CmpInst::ICMP_SLE: { Val r = doBin(SLT, b, a, w); return r.e ? fromE(mkNot(r.e)) : C(!r.c); }
	}
	abort();
}
static double asD(u64 v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } float f; u32 x = v; memcpy(&f, &x, 4); return f; }
static u64 fromD(double d, unsigned w) { if (w == 64) { u64 v; memcpy(&v, &d, 8); return v; } float f = (float)d; u32 x; memcpy(&x, &f, 4); return x; }
static Val vnot(Val v) { return v.e ? fromE(mkNot(v.e)) : C(!v.c); }
static Val vite(Val c, Val a, Val b, unsigned w) { if (!c.e) return c.c ? a : b; if (!a.e && !b.e && a.c == b.c) return a; return fromE(mkIte(c.e, E(a, w), E(b, w))); }

static void setObjBytes(State &s, u64 dst, Val v, u64 n) {
	if (!n) return; int di; MemObj *d = findObj(s, dst, &di); if (!d) badAccess(s, dst, n, true, nullptr); if (dst - d->base + n > d->size) badAccess(s, dst, n, true, d);
	if (d->ro || di < 0) violation(s, "memory", "memset to read-only object");
	d = writable(s, di); for (u64 i = 0; i < n; i++) writeBytes(d, dst - d->base + i, 1, v);
}
// returns true if the intrinsic/builtin finished (value in rv); pc not advanced yet
static void intrinsic(State &s, Frame &f, Inst &d, std::vector<Val> &rv) {
	Function *F = d.callee->F; auto id = F->getIntrinsicID(); auto arg = [&](unsigned i) { return getv(s, f, d.ops[i], d.ow[i]); };
	switch (id) {
	case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: { u64 n = concretize(s, arg(2), d.ow[2]), a = concretize(s, arg(0), 64), b = concretize(s, arg(1), 64); copyMem(s, a, b, n, id == Intrinsic::memmove, true); break; }
	case Intrinsic::memset: case Intrinsic::memset_inline: { u64 n = concretize(s, arg(2), d.ow[2]), a = concretize(s, arg(0), 64); Val v = truncTo(arg(1), 8); setObjBytes(s, a, v, n); break; }
	case Intrinsic::umul_with_overflow: { Val a = arg(0), b = arg(1); unsigned w = d.ow[0]; if (a.e || b.e) { if (b.e && !a.e) std::swap(a, b); if (b.e) fatalUnsupported("symbolic umul.with.overflow"); rv = { doBin(MUL, a, b, w), b.c ? fromE(mkBin(ULT, mkConst(maskw(w) / b.c, w), a.e)) : C(0) }; break; } unsigned __int128 p = (unsigned __int128)a.c * b.c; rv = { C((u64)p & maskw(w)), C(p > maskw(w)) }; break; }
	case Intrinsic::uadd_with_overflow: { Val a = arg(0), b = arg(1); unsigned w = d.ow[0]; Val r = doBin(ADD, a, b, w); rv = { r, doBin(ULT, r, a, w) }; break; }
	case Intrinsic::usub_with_overflow: { Val a = arg(0), b = arg(1); unsigned w = d.ow[0]; rv = { doBin(SUB, a, b, w), doBin(ULT, a, b, w) }; break; }
	case Intrinsic::usub_sat: { Val a = arg(0), b = arg(1); unsigned w = d.ow[0]; rv = { vite(doBin(ULT, a, b, w), C(0), doBin(SUB, a, b, w), w) }; break; }
	case Intrinsic::uadd_sat: { Val a = arg(0), b = arg(1); unsigned w = d.ow[0]; Val r = doBin(ADD, a, b, w); rv = { vite(doBin(ULT, r, a, w), C(maskw(w)), r, w) }; break; }
	case Intrinsic::umax: { Val a = arg(0), b = arg(1); unsigned w = d.ow[0]; rv = { vite(doBin(ULT, a, b, w), b, a, w) }; break; }
	case Intrinsic::umin: { Val a = arg(0), b = arg(1); unsigned w = d.ow[0]; rv = { vite(doBin(ULT, a, b, w), a, b, w) }; break; }
	case Intrinsic::smax: { Val a = arg(0), b = arg(1); unsigned w = d.ow[0]; rv = { vite(doBin(SLT, a, b, w), b, a, w) }; break; }
	case Intrinsic::smin: { Val a = arg(0), b = arg(1); unsigned w = d.ow[0]; rv = { vite(doBin(SLT, a, b, w), a, b, w) }; break; }
	case Intrinsic::abs: { Val a = arg(0); unsigned w = d.ow[0]; rv = { vite(doBin(SLT, a, C(0), w), doBin(SUB, C(0), a, w), a, w) }; break; }
	case Intrinsic::fshl: case Intrinsic::fshr: { Val a = arg(0), b = arg(1), c = arg(2); unsigned w = d.ow[0]; if (c.e) fatalUnsupported("symbolic funnel shift"); u64 k = c.c % w; if (id == Intrinsic::fshl) rv = { k ? doBin(OR, doBin(SHL, a, C(k), w), doBin(LSHR, b, C(w - k), w), w) : a }; else rv = { k ? doBin(OR, doBin(SHL, a, C(w - k), w), doBin(LSHR, b, C(k), w), w) : b }; break; }
	case Intrinsic::bswap: { Val a = arg(0); unsigned w = d.ow[0]; if (!a.e) { u64 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a.c >> (8 * i)) & 0xff) << (w - 8 - 8 * i); rv = { C(r) }; } else { Expr *r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = mkExtract(a.e, 8 * i, 8); r = r ? mkConcat(r, b) : b; } rv = { fromE(r) }; } break; }
	case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: { Val a = arg(0); unsigned w = d.ow[0];
		if (!a.e) { u64 v = a.c; unsigned r = 0; if (id == Intrinsic::ctpop) r = __builtin_popcountll(v); else if (id == Intrinsic::cttz) { r = v ? __builtin_ctzll(v) : w; } else { r = w; while (v) { r--; v >>= 1; } } rv = { C(r) }; }
		else { Expr *r; if (id == Intrinsic::ctpop) { r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZExt(mkExtract(a.e, i, 1), w)); } else { r = mkConst(w, w); for (unsigned i = 0; i < w; i++) { unsigned bit = id == Intrinsic::cttz ? w - 1 - i : i; unsigned val = id == Intrinsic::cttz ? w - 1 - i : w - 1 - i; r = mkIte(mkEq(mkExtract(a.e, bit, 1), mkConst(1, 1)), mkConst(val, w), r); } } rv = { fromE(r) }; } break; }
	case Intrinsic::expect: case Intrinsic::expect_with_probability: rv = { arg(0) }; break;
	case Intrinsic::assume: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: break;
	case Intrinsic::stacksave: rv = { C(0) }; break;
	case Intrinsic::threadlocal_address: rv = { arg(0) }; break;
	case Intrinsic::objectsize: rv = { C(~0ULL) }; break;
	case Intrinsic::is_constant: rv = { C(0) }; break;
	case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: rv = { arg(0) }; break;
	case Intrinsic::returnaddress: case Intrinsic::frameaddress: rv = { C(0) }; break;
	case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation(s, "trap", "trap reached"); break;
	case Intrinsic::fabs: { Val a = arg(0); if (a.e) fatalUnsupported("symbolic float"); rv = { C(fromD(fabs(asD(a.c, d.ow[0])), d.ow[0])) }; break; }
	case Intrinsic::fmuladd: { Val a = arg(0), b = arg(1), c = arg(2); if (a.e || b.e || c.e) fatalUnsupported("symbolic float"); rv = { C(fromD(asD(a.c, d.ow[0]) * asD(b.c, d.ow[0]) + asD(c.c, d.ow[0]), d.ow[0])) }; break; }
	case Intrinsic::vastart: { // layout: write a private va_list {gp_offset=48, fp_offset=176, overflow_arg_area, reg_save}
		u64 ap = concretize(s, arg(0), 64); MemObj *o = newObj(s, f.va.size() * 8 + 8, K_STACK, true, "varargs"); f.allocas.push_back(o->base);
		for (size_t i = 0; i < f.va.size(); i++) writeBytes(o, i * 8, 8, f.va[i].e ? fromE(mkZExt(f.va[i].e, 64)) : f.va[i]);
		storeMem(s, C(ap), C(48), 32); storeMem(s, C(ap + 4), C(176), 32); storeMem(s, C(ap + 8), C(o->base), 64); storeMem(s, C(ap + 16), C(0), 64); break; }
	case Intrinsic::vaend: break;
	default: fatalUnsupported("intrinsic " + F->getName().str());
	}
}
static bool builtin(State &s, Frame &f, Inst &d, std::vector<Val> &rv) { // false: handled control flow itself
	auto arg = [&](unsigned i) { return getv(s, f, d.ops[i], d.ow[i]); };
	switch (d.bi) {
	case B_SYM: { u64 w = concretize(s, arg(0), d.ow[0]); Val v = freshVar(s, w, false); logv(s, v, w); rv = { v.e ? fromE(mkZExt(v.e, 64)) : v }; return true; }
	case B_SYMBYTES: { u64 a = concretize(s, arg(0), 64), n = concretize(s, arg(1), 64); for (u64 i = 0; i < n; i++) { Val v = freshVar(s, 8, false); logv(s, v, 8); storeMem(s, C(a + i), v, 8); } return true; }
	case B_CHOICE: { u64 n = concretize(s, arg(0), d.ow[0]); if (n == 0) throw PathEnd();
		f.pc++; int dst = d.dst; // f may be invalidated by nothing here
		for (u64 i = n; i-- > 1;) { State *o = forkState(s); o->th[o->cur].fr.back().regs[dst] = C(i); logv(*o, C(i), 32); pushWork(o); }
		f.regs[dst] = C(0); logv(s, C(0), 32); return false; }
	case B_CONC: rv = { C(concretize(s, arg(0), 64)) }; return true;
	case B_ASSUME: { Val c = arg(0); Expr *e = mkNot(mkEq(E(c, d.ow[0]), mkConst(0, d.ow[0]))); if (isC(e)) { if (!e->v) { localst.killed++; throw PathEnd(); } return true; }
		if (S->eval(e, s.model)) { addCons(s, e, nullptr); return true; }
		std::vector<std::pair<u32, u64>> m; Res r = S->check(s.groups, e, &m); if (r == UNK) { noteUnknown("solver timeout in assume"); throw PathEnd(); } if (r == UNSAT) { localst.killed++; throw PathEnd(); } addCons(s, e, &m); return true; }
	case B_ASSERT: { Val c = arg(0); localst.asserts++; Expr *e = mkEq(E(c, d.ow[0]), mkConst(0, d.ow[0])); // violated condition
		auto msg = [&]() { return readCStr(s, concretize(s, arg(1), 64)); };
		if (isC(e)) { if (e->v) violation(s, "assert", msg()); return true; }
		localst.assertq++;
		std::vector<std::pair<u32, u64>> m; Res r = S->check(s.groups, e, &m);
		if (r == UNK) { noteUnknown("solver timeout in assertion: " + msg()); return true; }
		if (r == SAT) { addCons(s, e, &m); violation(s, "assert", msg()); }
		return true; }
	case B_COVER: { std::string n = readCStr(s, concretize(s, arg(0), 64)); int i = coverId(n); if (i < 256) sh->cover[i] = 1; return true; }
	case B_UNDEF: { unsigned w = concretize(s, arg(1), 32); rv = { freshVar(s, w, true) }; return true; }
	case B_HEAPLIVE: rv = { C(s.heapLive) }; return true;
	case B_MALLOC: case B_CALLOC: { u64 n = concretize(s, arg(0), 64); if (d.bi == B_CALLOC) n *= concretize(s, arg(1), 64);
		if (s.mallocFail > 0) { State *o = forkState(s); o->mallocFail--; o->th[o->cur].fr.back().regs[d.dst] = C(0); o->th[o->cur].fr.back().pc++; logv(*o, C(1), 32); pushWork(o); logv(s, C(0), 32); }
		u64 a = heapAlloc(s, n, K_MALLOC); if (d.bi == B_CALLOC && a) { int i; findObj(s, a, &i); s.objs[i]->un.clear(); } rv = { C(a) }; return true; }
	case B_REALLOC: { u64 p = concretize(s, arg(0), 64), n = concretize(s, arg(1), 64);
		if (s.mallocFail > 0) { State *o = forkState(s); o->mallocFail--; o->th[o->cur].fr.back().regs[d.dst] = C(0); o->th[o->cur].fr.back().pc++; logv(*o, C(1), 32); pushWork(o); logv(s, C(0), 32); }
		u64 a = heapAlloc(s, n, K_MALLOC); if (!a) { rv = { C(0) }; return true; }
		if (p) { int i = findIdx(s, p); if (i < 0 || s.objs[i]->base != p || s.objs[i]->kind != K_MALLOC) violation(s, "memory", "realloc of invalid pointer"); copyMem(s, a, p, std::min(n, s.objs[i]->size), false, false); freeObj(s, p, K_MALLOC); } rv = { C(a) }; return true; }
	case B_FREE: freeObj(s, concretize(s, arg(0), 64), K_MALLOC); return true;
	case B_NEW: rv = { C(heapAlloc(s, concretize(s, arg(0), 64), K_NEW)) }; return true;
	case B_NEWA: rv = { C(heapAlloc(s, concretize(s, arg(0), 64), K_NEWA)) }; return true;
	case B_DEL: freeObj(s, concretize(s, arg(0), 64), K_NEW); return true;
	case B_DELA: freeObj(s, concretize(s, arg(0), 64), K_NEWA); return true;
	case B_MEMCPY: case B_MEMMOVE: { u64 n = concretize(s, arg(2), 64), a = concretize(s, arg(0), 64), b = concretize(s, arg(1), 64); copyMem(s, a, b, n, d.bi == B_MEMMOVE, false); rv = { C(a) }; return true; }
	case B_MEMSET: { u64 n = concretize(s, arg(2), 64), a = concretize(s, arg(0), 64); setObjBytes(s, a, truncTo(arg(1), 8), n); rv = { C(a) }; return true; }
	case B_SPAWN: { u64 fa = concretize(s, arg(0), 64); Val a = arg(1); auto it = faddr.find(fa); if (it == faddr.end()) violation(s, "memory", "bad thread function");
		int id = s.th.size(); if (d.dst >= 0) f.regs[d.dst] = C(id); f.pc++; int cur = s.cur; s.th.emplace_back(); s.th.back().st = 0; s.th.back().chan = 0; s.cur = id; std::vector<Val> av = { a }; pushFrame(s, it->second, av, 1, false); s.cur = cur; return false; }
	case B_YIELD: f.pc++; yieldPoint(s); return false;
	case B_RESCHED: f.pc++; pickNext(s); return false;
	case B_TSAN: { f.pc++; if (s.maxPreempt && s.preempt < s.maxPreempt) { Val a = arg(0); if (!a.e) { bool in = false; for (auto &r : s.shared) if (a.c - r.first < r.second) in = true; if (in) yieldPoint(s); } } return false; }
	case B_BLOCK: { u64 ch = concretize(s, arg(0), 64); f.pc++; Thread &t = s.th[s.cur]; t.st = 1; t.chan = ch; pickNext(s); return false; }
	case B_WAKE: wake(s, concretize(s, arg(0), 64)); return true;
	case B_TID: rv = { C(s.cur) }; return true;
	case B_ALLDONE: { bool all = true; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].st != 2) all = false; rv = { C(all) }; return true; }
	case B_NBLOCKED: { int n = 0; for (size_t i = 0; i < s.th.size(); i++) if ((int)i != s.cur && s.th[i].st == 1) n++; rv = { C(n) }; return true; }
	case B_SHARE: s.shared.push_back({ concretize(s, arg(0), 64), concretize(s, arg(1), 64) }); return true;
	case B_PREEMPT: s.maxPreempt = s.preempt + (int)concretize(s, arg(0), d.ow[0]); return true;
	case B_MFAIL: s.mallocFail = (int)concretize(s, arg(0), d.ow[0]); return true;
	case B_NOTE: s.notes.push_back({ readCStr(s, concretize(s, arg(0), 64)), arg(1) }); return true;
	case B_END: throw PathEnd();
	case B_ABORT: violation(s, "abort", "abort/terminate reached: " + d.callee->name); return true;
	case B_ACCESSIBLE: { u64 a = concretize(s, arg(0), 64), n = concretize(s, arg(1), 64); int i; MemObj *o = findObj(s, a, &i); rv = { C(o && a - o->base + n <= o->size) }; return true; }
	case B_UNINIT: { u64 a = concretize(s, arg(0), 64), n = concretize(s, arg(1), 64); int i; MemObj *o = findObj(s, a, &i); if (!o || i < 0 || a - o->base + n > o->size) badAccess(s, a, n, true, o); o = writable(s, i); if (o->un.empty()) o->un.assign(o->size, 0); for (u64 k = 0; k < n; k++) o->un[a - o->base + k] = 1; return true; }
	case B_IGN: rv = { C(0) }; return true;
	}
	fatalUnsupported("builtin");
}

static int knownCond(State &s, Expr *c) { // condition already literally decided by the path?
	Expr *n = mkNot(c); u32 v = (*c->vars)[0];
	for (auto &g : s.groups) if (std::binary_search(g->vars->begin(), g->vars->end(), v)) { for (Expr *x : g->cons) { if (x == c) return 1; if (x == n) return 0; } return -1; }
	return -1;
}
static void step(State &s) {
	Thread &t = s.th[s.cur]; Frame &f = t.fr.back(); Inst &d = f.f->bbs[f.bb].ins[f.pc]; s.steps++; localst.insts++;
	auto A = [&](unsigned i) { return getv(s, f, d.ops[i], d.ow[i]); };
	auto set = [&](Val v) { f.regs[d.dst] = v; f.pc++; };
	switch (d.op) {
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: set(doBin(binOp(d.op), A(0), A(1), d.w)); return;
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { Val b = A(1); if (!b.e) { if (!b.c) violation(s, "divzero", "division by zero"); } else { if (decide(s, mkEq(b.e, mkConst(0, d.w)))) violation(s, "divzero", "division by zero"); } set(doBin(binOp(d.op), A(0), b, d.w)); return; }
	case Instruction::ICmp: set(doICmp(d.pred, A(0), A(1), d.sw)); return;
	case Instruction::Br: {
		if (d.ops.empty()) { doBranch(s, f, d.succ[0]); return; }
		Val c = A(0); bool b = c.e ? decide(s, c.e) : (c.c & 1); doBranch(s, f, b ? d.succ[0] : d.succ[1]); return; }
	case Instruction::Switch: {
		Val c = A(0); unsigned w = d.ow[0];
		if (!c.e) { for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == c.c) { doBranch(s, f, d.succ[i + 1]); return; } doBranch(s, f, d.succ[0]); return; }
		// group cases by destination
		u64 v = S->eval(c.e, s.model); int dest = d.succ[0]; for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == v) dest = d.succ[i + 1];
		Expr *in = mkConst(0, 1), *any = mkConst(0, 1); for (size_t i = 0; i < d.cases.size(); i++) { Expr *q = mkEq(c.e, mkConst(d.cases[i], w)); any = mkBin(OR, any, q); if (d.succ[i + 1] == dest) in = mkBin(OR, in, q); }
		if (dest == d.succ[0]) in = mkBin(OR, in, mkNot(any));
		decide(s, in); doBranch(s, f, dest); return; }
	case Instruction::GetElementPtr: {
		Val b = A(0); 
		if (d.gep.empty()) { set(b.e ? fromE(mkBin(ADD, b.e, mkConst(d.goff, 64))) : C(b.c + d.goff)); return; }
		Val r = b.e ? fromE(mkBin(ADD, b.e, mkConst(d.goff, 64))) : C(b.c + d.goff);
		for (auto &g : d.gep) { Val x = getv(s, f, g.o, g.w); if (!x.e) { u64 k = (u64)sx(x.c, g.w) * g.scale; r = r.e ? fromE(mkBin(ADD, r.e, mkConst(k, 64))) : C(r.c + k); } else { Expr *k = mkBin(MUL, mkSExt(x.e, 64), mkConst(g.scale, 64)); r = fromE(mkBin(ADD, E(r, 64), k)); } }
		set(r); return; }
	case Instruction::Load: {
		Val a = A(0);
		if (d.nleaf == 1) { Val v = loadMem(s, a, d.leaves[0].second); set(v); return; }
		u64 base = concretize(s, a, 64); std::vector<Val> vs; for (auto &l : d.leaves) vs.push_back(loadMem(s, C(base + l.first), l.second)); for (size_t i = 0; i < vs.size(); i++) f.regs[d.dst + i] = vs[i]; f.pc++; return; }
	case Instruction::Store: {
		Val a = A(0);
		if (d.leaves.size() == 1) { storeMem(s, a, A(1), d.leaves[0].second); f.pc++; return; }
		u64 base = concretize(s, a, 64); for (size_t i = 0; i < d.leaves.size(); i++) storeMem(s, C(base + d.leaves[i].first), A(1 + i), d.leaves[i].second); f.pc++; return; }
	case Instruction::Alloca: { u64 n = concretize(s, A(0), d.ow[0]); MemObj *o = newObj(s, d.size * n, K_STACK, false, nullptr); f.allocas.push_back(o->base); set(C(o->base)); return; }
	case Instruction::ZExt: { Val a = A(0); set(a.e ? fromE(mkZExt(a.e, d.w)) : a); return; }
	case Instruction::SExt: { Val a = A(0); set(a.e ? fromE(mkSExt(a.e, d.w)) : C((u64)sx(a.c, d.sw) & maskw(d.w))); return; }
	case Instruction::Trunc: set(truncTo(A(0), d.w)); return;
	case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: for (unsigned i = 0; i < d.nleaf; i++) f.regs[d.dst + i] = A(i); f.pc++; return;
	case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a = A(0); if (d.w < d.sw) a = truncTo(a, d.w); else if (a.e) a = fromE(mkZExt(a.e, d.w)); set(a); return; }
	case Instruction::Select: {
		Val c = A(0); unsigned n = d.nleaf; std::vector<Val> r; if (c.e) { int k = knownCond(s, c.e); if (k >= 0) c = C(k); }
		for (unsigned i = 0; i < n; i++) { if (!c.e) r.push_back((c.c & 1) ? A(1 + i) : A(1 + n + i)); else r.push_back(vite(c, A(1 + i), A(1 + n + i), d.leaves[i].second)); }
		// pointers: avoid symbolic pointers by deciding
		if (c.e && n == 1 && d.I->getType()->isPointerTy() && r[0].e) { bool b = decide(s, c.e); r[0] = b ? A(1) : A(2); }
		for (unsigned i = 0; i < n; i++) f.regs[d.dst + i] = r[i]; f.pc++; return; }
	case Instruction::ExtractValue: { std::vector<Val> r; for (unsigned i = 0; i < d.nleaf; i++) r.push_back(A(d.goff + i)); for (unsigned i = 0; i < d.nleaf; i++) f.regs[d.dst + i] = r[i]; f.pc++; return; }
	case Instruction::InsertValue: { std::vector<Val> r; for (unsigned i = 0; i < d.size; i++) r.push_back(A(i)); for (size_t i = d.size; i < d.ops.size(); i++) r[d.goff + i - d.size] = A(i); for (unsigned i = 0; i < d.nleaf; i++) f.regs[d.dst + i] = r[i]; f.pc++; return; }
	case Instruction::Ret: { std::vector<Val> r; for (size_t i = 0; i < d.ops.size(); i++) r.push_back(A(i)); doReturn(s, r); return; }
	case Instruction::Unreachable: violation(s, "unreachable", "unreachable code reached (undefined behaviour, e.g. missing return)"); return;
	case Instruction::Fence: f.pc++; return;
	case Instruction::AtomicRMW: { auto *ai = cast<AtomicRMWInst>(d.I); Val a = A(0), v = A(1), old = loadMem(s, a, d.w), nv; switch (ai->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = doBin(ADD, old, v, d.w); break; case AtomicRMWInst::Sub: nv = doBin(SUB, old, v, d.w); break; case AtomicRMWInst::And: nv = doBin(AND, old, v, d.w); break; case AtomicRMWInst::Or: nv = doBin(OR, old, v, d.w); break; case AtomicRMWInst::Xor: nv = doBin(XOR, old, v, d.w); break; default: fatalUnsupported("atomicrmw"); } storeMem(s, a, nv, d.w); set(old); return; }
	case Instruction::AtomicCmpXchg: { Val a = A(0), c = A(1), n = A(2); unsigned w = d.ow[1]; Val old = loadMem(s, a, w); Val eq = doBin(EQ, old, c, w); bool b = eq.e ? decide(s, eq.e) : eq.c; if (b) storeMem(s, a, n, w); f.regs[d.dst] = old; f.regs[d.dst + 1] = C(b); f.pc++; return; }
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: { Val a = A(0), b = A(1); if (a.e || b.e) fatalUnsupported("symbolic floating point"); double x = asD(a.c, d.w), y = asD(b.c, d.w), r = d.op == Instruction::FAdd ? x + y : d.op == Instruction::FSub ? x - y : d.op == Instruction::FMul ? x * y : x / y; set(C(fromD(r, d.w))); return; }
	case Instruction::FNeg: { Val a = A(0); set(doBin(XOR, a, C(1ULL << (d.w - 1)), d.w)); return; }
	case Instruction::FCmp: { Val a = A(0), b = A(1); if (a.e || b.e) fatalUnsupported("symbolic floating point"); double x = asD(a.c, d.sw), y = asD(b.c, d.sw); bool un = x != x || y != y, r = false; switch (d.pred) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_TRUE: r = true; break; } set(C(r)); return; }
	case Instruction::FPExt: case Instruction::FPTrunc: { Val a = A(0); if (a.e) fatalUnsupported("symbolic floating point"); set(C(fromD(asD(a.c, d.sw), d.w))); return; }
	case Instruction::SIToFP: { Val a = A(0); if (a.e) fatalUnsupported("symbolic floating point"); if (d.w == 32) set(C(fromD((float)sx(a.c, d.sw), 32))); else set(C(fromD((double)sx(a.c, d.sw), 64))); return; }
	case Instruction::UIToFP: { Val a = A(0); if (a.e) fatalUnsupported("symbolic floating point"); if (d.w == 32) set(C(fromD((float)a.c, 32))); else set(C(fromD((double)a.c, 64))); return; }
	case Instruction::FPToSI: { Val a = A(0); if (a.e) fatalUnsupported("symbolic floating point"); set(C((u64)(i64)asD(a.c, d.sw) & maskw(d.w))); return; }
	case Instruction::FPToUI: { Val a = A(0); if (a.e) fatalUnsupported("symbolic floating point"); set(C((u64)asD(a.c, d.sw) & maskw(d.w))); return; }
	case Instruction::VAArg: fatalUnsupported("va_arg");
	case Instruction::Call: case Instruction::Invoke: {
		Func *fn = d.callee;
		if (d.bi > 0) {
			std::vector<Val> rv; 
			if (d.bi == B_MEMINTR) intrinsic(s, f, d, rv);
			else if (!builtin(s, f, d, rv)) return;
			if (d.dst >= 0) for (unsigned i = 0; i < d.nleaf && i < rv.size(); i++) f.regs[d.dst + i] = rv[i];
			if (d.op == Instruction::Invoke) doBranch(s, f, d.succ[0]); else f.pc++;
			return;
		}
		size_t nargs = d.ops.size();
		if (!fn) { u64 fa = concretize(s, A(d.goff), 64); nargs = d.goff; auto it = faddr.find(fa); if (it == faddr.end()) violation(s, "memory", "call through invalid function pointer " + hexs(fa)); fn = it->second;
			if (fn->F->isDeclaration()) { // builtin through a pointer: synthesize
				auto bit = bnames.find(fn->name); if (bit == bnames.end()) fatalUnsupported("indirect call of external function " + fn->name);
				Inst d2 = d; d2.bi = bit->second; d2.callee = fn; std::vector<Val> rv; if (!builtin(s, f, d2, rv)) return; if (d.dst >= 0) for (unsigned i = 0; i < d.nleaf && i < rv.size(); i++) f.regs[d.dst + i] = rv[i]; f.pc++; return; } }
		if (fn->F->isDeclaration()) fatalUnsupported("external function without model: " + fn->name);
		std::vector<Val> args; args.reserve(nargs); auto *cb = cast<CallBase>(d.I); size_t k = 0; std::vector<u64> byv;
		for (unsigned i = 0; i < cb->arg_size(); i++) { unsigned n = d.argn[i]; if (n == 1 && cb->isByValArgument(i)) { u64 src = concretize(s, A(k), 64); u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i)); MemObj *o = newObj(s, sz, K_STACK, false, "byval"); byv.push_back(o->base); copyMem(s, o->base, src, sz, false, true); args.push_back(C(o->base)); k++; } else for (unsigned j = 0; j < n; j++) args.push_back(A(k++)); }
		pushFrame(s, fn, args, args.size(), false); for (u64 b : byv) s.th[s.cur].fr.back().allocas.push_back(b);
		return; }
	}
	fatalUnsupported(std::string("instruction ") + d.I->getOpcodeName());
}

static void flushStats() {
	u64 *a = (u64 *)&sh->st, *b = (u64 *)&localst; localst.exprs = P.total;
	for (size_t i = 0; i < sizeof(Stats) / 8; i++) { if (&b[i] == &localst.maxz3us) { u64 o; while ((o = a[i]) < b[i] && !__sync_bool_compare_and_swap(&a[i], o, b[i])); } else __sync_fetch_and_add(&a[i], b[i]); }
	memset(&localst, 0, sizeof(localst));
}
static bool isChild = false;
static void trySplit() {
	if (work.size() < 2 || sh->active >= maxProcs) return;
	if (__sync_add_and_fetch(&sh->active, 1) > maxProcs) { __sync_sub_and_fetch(&sh->active, 1); return; }
	flushStats(); fflush(0);
	pid_t p = fork();
	if (p < 0) { __sync_sub_and_fetch(&sh->active, 1); return; }
	std::deque<State *> a, b; bool t = false; for (State *x : work) { (t ? a : b).push_back(x); t = !t; }
	if (p == 0) { isChild = true; work.swap(a); for (State *x : b) delete x; }
	else { work.swap(b); for (State *x : a) delete x; }
}
static void samplePath(State &s) { // a few written-out cases for the evidence
	u64 n = __sync_fetch_and_add(&sh->samples, 1); if (n > 3 && (n & (n - 1))) return; if (n > 4096) return;
	FILE *fp = fopen((outDir + "/samples.txt").c_str(), "a"); if (!fp) return; fprintf(fp, "{\"path\":%llu,\"steps\":%llu,\"constraints\":%llu,\"witness\":[", (unsigned long long)n, (unsigned long long)s.steps, (unsigned long long)s.ncons);
	for (size_t i = 0; i < s.log.size() && i < 40; i++) fprintf(fp, "%s%llu", i ? "," : "", (unsigned long long)(s.log[i].e ? S->eval(s.log[i].e, s.model) : s.log[i].c)); fprintf(fp, "]}\n"); fclose(fp);
}
static void explore() {
	double lastSplit = now();
	while (!work.empty() && !sh->stop) {
		State *s = work.back(); work.pop_back(); u64 tick = 0; bool ended = false;
		try {
			while (true) {
				step(*s);
				if (s->steps > maxSteps) violation(*s, "nontermination", "path exceeds the step bound of " + std::to_string(maxSteps));
				if ((++tick & 1023) == 0) {
					if (sh->stop) break;
					double n = now(); if (n > deadline) { sh->incomplete = 1; sh->stop = 1; break; }
					if (n - lastSplit > 0.02) { lastSplit = n; trySplit(); }
				}
			}
		} catch (PathEnd &) { ended = true; }
		if (ended) { localst.paths++; u64 o; while ((o = sh->maxsteps) < s->steps && !__sync_bool_compare_and_swap(&sh->maxsteps, o, s->steps)); if (!sh->violation) samplePath(*s); }
		delete s;
		double n = now(); if (n > deadline && !work.empty()) { sh->incomplete = 1; sh->stop = 1; } if (n - lastSplit > 0.02) { lastSplit = n; trySplit(); }
	}
	if (sh->stop) for (State *x : work) (void)x;
}

// Uninitialised locals get an unknown value of their own, so that the optimiser cannot fold paths that read them.
static int prep(const char *in, const char *out) {
	LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> m = parseIRFile(in, err, ctx); if (!m) { err.print("symex", errs()); return 3; }
	const DataLayout &dl = m->getDataLayout(); unsigned id = 0; Type *i32 = Type::getInt32Ty(ctx);
	for (auto &F : *m) for (auto &B : F) {
		std::vector<AllocaInst *> as; for (auto &I : B) if (auto *a = dyn_cast<AllocaInst>(&I)) as.push_back(a);
		for (auto *a : as) {
			Type *t = a->getAllocatedType(); unsigned w = t->isPointerTy() ? 64 : t->isDoubleTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
			if (a->isArrayAllocation() || !(w == 8 || w == 16 || w == 32 || w == 64) || !isAllocaPromotable(a)) continue;
			std::string n = t->isPointerTy() ? "vp_undef_p" : t->isDoubleTy() ? "vp_undef_d" : "vp_undef_" + std::to_string(w);
			FunctionCallee fc = m->getOrInsertFunction(n, FunctionType::get(t, { i32, i32 }, false)); Function *f = cast<Function>(fc.getCallee()); f->setDoesNotAccessMemory(); f->setDoesNotThrow(); f->addFnAttr(Attribute::WillReturn);
			std::vector<Instruction *> at; for (auto *u : a->users()) if (auto *ii = dyn_cast<IntrinsicInst>(u)) if (ii->getIntrinsicID() == Intrinsic::lifetime_start) at.push_back(ii);
			if (at.empty()) at.push_back(a);
			for (auto *p : at) { IRBuilder<> b(p->getNextNode()); if (auto *sp = F.getSubprogram()) b.SetCurrentDebugLocation(DILocation::get(ctx, sp->getLine(), 0, sp)); b.CreateStore(b.CreateCall(fc, { ConstantInt::get(i32, id++), ConstantInt::get(i32, w) }), a); }
		}
	}
	std::error_code ec; raw_fd_ostream os(out, ec); if (ec) return 3; WriteBitcodeToFile(*m, os); return 0;
}
int main(int argc, char **argv) {
	if (argc == 4 && !strcmp(argv[1], "-prep")) return prep(argv[2], argv[3]);
	std::vector<std::string> files; double tl = 600; outDir = ".";
	for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "-o") outDir = argv[++i]; else if (a == "-t") tl = atof(argv[++i]); else if (a == "-s") maxSteps = strtoull(argv[++i], 0, 10); else if (a == "-j") maxProcs = atoi(argv[++i]); else if (a == "-d") maxDepth = atoi(argv[++i]); else if (a == "-v") verbose = true; else files.push_back(a); }
	deadline = now() + tl; double t0 = now();
	sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(sh, 0, sizeof(*sh)); sh->active = 1; gst = &localst;
	LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> m = parseIRFile(files[0], err, ctx); if (!m) { err.print("symex", errs()); return 3; }
	// redirect externals to stubs: foo -> vp_stub_foo
	std::vector<std::pair<Function *, Function *>> red;
	for (auto &F : *m) if (F.getName().starts_with("vp_stub_") && !F.isDeclaration()) { Function *t = m->getFunction(F.getName().substr(8)); if (t && t->isDeclaration()) red.push_back({ t, &F }); }
	for (auto &p : red) p.first->replaceAllUsesWith(p.second);
	for (size_t i = 1; i < files.size(); i++) { auto m2 = parseIRFile(files[i], err, ctx); if (!m2) { err.print("symex", errs()); return 3; } if (Linker::linkModules(*m, std::move(m2), Linker::LinkOnlyNeeded)) return 3; }
	M = m.get(); DL = &M->getDataLayout();
	std::unique_ptr<Solver> sp(new Solver); S = sp.get();
	State *s0;
	try { s0 = initState(); } catch (Unsup &u) { fprintf(stderr, "symex: unsupported %s\n", u.m.c_str()); return 3; }
	for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *cf = cb->getCalledFunction()) if (cf->getName() == "vp_cover") if (auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0)->stripPointerCasts())) if (g->hasInitializer()) if (auto *cd = dyn_cast<ConstantDataSequential>(g->getInitializer())) coverId(cd->getAsCString().str());
	Function *mainF = M->getFunction("vp_main"); if (!mainF) { fprintf(stderr, "no vp_main\n"); return 3; }
	s0->th.resize(1); s0->th[0].st = 0; s0->th[0].chan = 0;
	try {
		pushFrame(*s0, getFunc(mainF), {}, 0, false);
		if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<Function *> fs; for (auto &o : ca->operands()) if (auto *f = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts())) fs.push_back(f); for (size_t i = fs.size(); i-- > 0;) { std::string n = fs[i]->getName().str(); if (n.find("tsan") != std::string::npos) continue; pushFrame(*s0, getFunc(fs[i]), {}, 0, true); } }
	} catch (PathEnd &) { fprintf(stderr, "symex: %s\n", sh->unkmsg); return 3; }
	work.push_back(s0);
	explore();
	flushStats();
	__sync_sub_and_fetch(&sh->active, 1);
	int stt; bool childFail = false; while (wait(&stt) > 0) if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) childFail = true;
	if (childFail) { sh->unknown = 1; if (!sh->unkmsg[0]) strcpy(sh->unkmsg, "worker process died"); }
	if (isChild) { fflush(0); _exit(childFail ? 4 : 0); }
	// report
	FILE *f = fopen((outDir + "/result.json").c_str(), "w"); Stats &st = sh->st;
	fprintf(f, "{\"violation\":%d,\"unknown\":%d,\"incomplete\":%d,\"unkmsg\":\"%s\",\"paths\":%llu,\"killed\":%llu,\"insts\":%llu,\"forks\":%llu,\"queries\":%llu,\"z3calls\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unk\":%llu,\"cachehits\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"asserts\":%llu,\"assert_queries\":%llu,\"max_path_steps\":%llu,\"wall_s\":%.2f,\n\"covers\":{", sh->violation, sh->unknown, sh->incomplete, jsonEsc(sh->unkmsg).c_str(), (unsigned long long)st.paths, (unsigned long long)st.killed, (unsigned long long)st.insts, (unsigned long long)st.forks, (unsigned long long)st.queries, (unsigned long long)st.z3calls, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unk, (unsigned long long)st.cachehits, st.z3us / 1e6, st.maxz3us / 1e6, (unsigned long long)st.asserts, (unsigned long long)st.assertq, (unsigned long long)sh->maxsteps, now() - t0);
	for (size_t i = 0; i < coverNames.size(); i++) fprintf(f, "%s\"%s\":%d", i ? "," : "", jsonEsc(coverNames[i]).c_str(), i < 256 ? sh->cover[i] : 0);
	fprintf(f, "},\n\"functions\":["); bool first = true;
	for (size_t i = 0; i < funcList.size() && i < sizeof(sh->fhit); i++) if (sh->fhit[i]) { auto *sp2 = funcList[i]->F->getSubprogram(); std::string file = sp2 ? (sp2->getDirectory() + "/" + sp2->getFilename()).str() : ""; if (sp2 && sp2->getFilename().starts_with("/")) file = sp2->getFilename().str(); if (file.find("/repo/") == std::string::npos) continue; fprintf(f, "%s\"%s\"", first ? "" : ",\n ", jsonEsc(demangle(funcList[i]->name)).c_str()); first = false; }
	fprintf(f, "]}\n"); fclose(f);
	return sh->violation ? 1 : (sh->unknown || sh->incomplete) ? 2 : 0;
}
