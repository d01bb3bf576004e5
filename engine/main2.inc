// ---- decoding
static unsigned tyW(Type *t) {
	if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) return 0; return w; }
	if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0;
}
static bool flatten(Type *t, u64 off, std::vector<std::pair<u64, unsigned>> &out) {
	if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!flatten(st->getElementType(i), off + sl->getElementOffset(i), out)) return false; return true; }
	if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) if (!flatten(at->getElementType(), off + i * es, out)) return false; return true; }
	if (t->isVoidTy()) return true;
	unsigned w = tyW(t); if (!w) return false; out.push_back({ off, w }); return true;
}
static Func *getFunc(const Function *F) { auto it = funcs.find(F); return it == funcs.end() ? nullptr : it->second; }
struct Unsup { std::string m; };
static void constLeaves(Constant *c, std::vector<Opnd> &out) {
	Type *t = c->getType();
	if (t->isStructTy() || t->isArrayTy()) {
		unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
		for (unsigned i = 0; i < n; i++) constLeaves(c->getAggregateElement(i), out); return;
	}
	if (isa<UndefValue>(c)) { out.push_back(Opnd{ -1, 0, true }); return; }
	if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw Unsup{ "wide int const" }; out.push_back(Opnd{ -1, ci->getZExtValue(), false }); return; }
	if (isa<ConstantPointerNull>(c)) { out.push_back(Opnd{ -1, 0, false }); return; }
	if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(Opnd{ -1, cf->getValueAPF().bitcastToAPInt().getZExtValue(), false }); return; }
	if (auto *f = dyn_cast<Function>(c)) { Func *fn = getFunc(f); out.push_back(Opnd{ -1, fn->addr, false }); return; }
	if (auto *g = dyn_cast<GlobalVariable>(c)) { out.push_back(Opnd{ -1, gaddr.at(g), false }); return; }
	if (auto *al = dyn_cast<GlobalAlias>(c)) { constLeaves(al->getAliasee(), out); return; }
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		auto one = [&](unsigned i) { std::vector<Opnd> t2; constLeaves(ce->getOperand(i), t2); return t2[0].c; };
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: { APInt off(64, 0); auto *gep = cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL, off)) throw Unsup{ "gep const" }; out.push_back(Opnd{ -1, one(0) + off.getZExtValue(), false }); return; }
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back(Opnd{ -1, one(0) & maskw(tyW(t)), false }); return;
		case Instruction::Trunc: out.push_back(Opnd{ -1, one(0) & maskw(tyW(t)), false }); return;
		case Instruction::Sub: out.push_back(Opnd{ -1, (one(0) - one(1)) & maskw(tyW(t)), false }); return;
		case Instruction::Add: out.push_back(Opnd{ -1, (one(0) + one(1)) & maskw(tyW(t)), false }); return;
		}
	}
	std::string s; raw_string_ostream os(s); c->print(os); throw Unsup{ "constant " + os.str() };
}
struct BInfo { const char *name; };
enum BI { B_NONE, B_SYM, B_SYMBYTES, B_CHOICE, B_CONC, B_ASSUME, B_ASSERT, B_COVER, B_HEAPLIVE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DEL, B_DELA, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_SPAWN, B_YIELD, B_BLOCK, B_WAKE, B_TID, B_SHARE, B_TSAN, B_IGN, B_NOTE, B_END, B_ABORT, B_MFAIL, B_PREEMPT, B_ALLDONE, B_MEMINTR, B_ISSYM, B_FORKCMP, B_VALID, B_HAVOC, B_ACCESSIBLE, B_WAKEONE, B_NBLOCKED, B_POISON, B_UNPOISON, B_UNINIT, B_RESCHED, B_UNDEF };
static std::map<std::string, int> bnames = {
	{ "vp_sym", B_SYM }, { "vp_sym_bytes", B_SYMBYTES }, { "vp_choice", B_CHOICE }, { "vp_concretize", B_CONC }, { "vp_assume_", B_ASSUME }, { "vp_assert_", B_ASSERT }, { "vp_cover", B_COVER }, { "vp_heap_live", B_HEAPLIVE },
	{ "malloc", B_MALLOC }, { "calloc", B_CALLOC }, { "realloc", B_REALLOC }, { "free", B_FREE }, { "_Znwm", B_NEW }, { "_Znam", B_NEWA }, { "_ZnwmRKSt9nothrow_t", B_NEW }, { "_ZnamRKSt9nothrow_t", B_NEWA }, { "_ZdlPv", B_DEL }, { "_ZdlPvm", B_DEL }, { "_ZdaPv", B_DELA }, { "_ZdaPvm", B_DELA },
	{ "memcpy", B_MEMCPY }, { "memmove", B_MEMMOVE }, { "memset", B_MEMSET }, { "vp_spawn", B_SPAWN }, { "vp_yield", B_YIELD }, { "vp_resched", B_RESCHED }, { "vp_block", B_BLOCK }, { "vp_wake", B_WAKE }, { "vp_wake_one", B_WAKEONE }, { "vp_tid", B_TID }, { "vp_share", B_SHARE }, { "vp_note", B_NOTE }, { "vp_end", B_END }, { "abort", B_ABORT }, { "vp_malloc_fail", B_MFAIL }, { "vp_preempt", B_PREEMPT }, { "vp_all_done", B_ALLDONE }, { "vp_accessible", B_ACCESSIBLE }, { "vp_nblocked", B_NBLOCKED }, { "vp_uninit", B_UNINIT }, { "vp_undef_8", B_UNDEF }, { "vp_undef_16", B_UNDEF }, { "vp_undef_32", B_UNDEF }, { "vp_undef_64", B_UNDEF }, { "vp_undef_p", B_UNDEF }, { "vp_undef_d", B_UNDEF },
	{ "_ZSt17__throw_bad_allocv", B_ABORT }, { "__cxa_pure_virtual", B_ABORT }, { "_ZSt9terminatev", B_ABORT }, { "__cxa_throw_bad_array_new_length", B_ABORT }, { "__cxa_atexit", B_IGN }, { "__stack_chk_fail", B_ABORT },
};
static int coverId(const std::string &n) { auto it = coverIdx.find(n); if (it != coverIdx.end()) return it->second; int i = coverNames.size(); coverNames.push_back(n); coverIdx[n] = i; return i; }

static void decode(Func *fn) {
	fn->decoded = true; Function *F = fn->F; DenseMap<Value *, int> reg; DenseMap<BasicBlock *, int> bbi;
	auto alloc = [&](Value *v) { std::vector<std::pair<u64, unsigned>> lv; if (!flatten(v->getType(), 0, lv)) { std::string s; raw_string_ostream os(s); v->getType()->print(os); throw Unsup{ "type " + os.str() + " in " + fn->name }; } reg[v] = fn->nregs; fn->nregs += lv.size(); };
	for (auto &a : F->args()) { alloc(&a); std::vector<std::pair<u64, unsigned>> lv; flatten(a.getType(), 0, lv); fn->args.push_back({ reg[&a], (int)lv.size() }); }
	int n = 0; for (auto &B : *F) { bbi[&B] = n++; for (auto &I : B) if (!I.getType()->isVoidTy()) { if (auto *ii = dyn_cast<IntrinsicInst>(&I)) { (void)ii; } alloc(&I); } }
	auto opnds = [&](Value *v, std::vector<Opnd> &out, std::vector<unsigned> *ws) {
		std::vector<std::pair<u64, unsigned>> lv; if (!flatten(v->getType(), 0, lv)) throw Unsup{ "operand type in " + fn->name };
		if (auto *c = dyn_cast<Constant>(v)) constLeaves(c, out);
		else { int r = reg.lookup(v); for (size_t i = 0; i < lv.size(); i++) out.push_back(Opnd{ r + (int)i, 0, false }); }
		if (ws) for (auto &l : lv) ws->push_back(l.second);
	};
	fn->bbs.resize(n); n = 0;
	for (auto &B : *F) {
		BB &bb = fn->bbs[n++]; bb.B = &B;
		for (auto &I : B) {
			if (auto *ph = dyn_cast<PHINode>(&I)) {
				Phi p; p.dst = reg[ph]; std::vector<std::pair<u64, unsigned>> lv; flatten(ph->getType(), 0, lv); p.nleaf = lv.size(); for (auto &l : lv) p.w.push_back(l.second);
				for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { std::vector<Opnd> o; opnds(ph->getIncomingValue(i), o, nullptr); p.in.push_back({ bbi[ph->getIncomingBlock(i)], o }); }
				bb.phis.push_back(p); continue;
			}
			Inst d; d.op = I.getOpcode(); d.I = &I; d.callee = nullptr; d.bi = 0; d.dst = -1; d.w = d.sw = 0; d.goff = 0; d.size = 0; d.pred = 0; d.nleaf = 0;
			if (!I.getType()->isVoidTy()) { d.dst = reg[&I]; d.w = tyW(I.getType()); flatten(I.getType(), 0, d.leaves); d.nleaf = d.leaves.size(); }
			switch (I.getOpcode()) {
			case Instruction::Alloca: { auto *ai = cast<AllocaInst>(&I); d.size = DL->getTypeAllocSize(ai->getAllocatedType()); opnds(ai->getArraySize(), d.ops, &d.ow); break; }
			case Instruction::Load: opnds(I.getOperand(0), d.ops, &d.ow); break;
			case Instruction::Store: { d.leaves.clear(); flatten(I.getOperand(0)->getType(), 0, d.leaves); opnds(I.getOperand(1), d.ops, &d.ow); opnds(I.getOperand(0), d.ops, &d.ow); break; }
			case Instruction::GetElementPtr: {
				auto *g = cast<GetElementPtrInst>(&I); opnds(g->getPointerOperand(), d.ops, &d.ow); u64 off = 0;
				for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
					Value *ix = it.getOperand();
					if (auto *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
					else { u64 sc = DL->getTypeAllocSize(it.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += sc * (u64)ci->getSExtValue(); else { GepTerm t; std::vector<Opnd> o; opnds(ix, o, nullptr); t.o = o[0]; t.w = tyW(ix->getType()); t.scale = sc; d.gep.push_back(t); } }
				}
				d.goff = off; break; }
			case Instruction::Br: { auto *b = cast<BranchInst>(&I); if (b->isConditional()) { opnds(b->getCondition(), d.ops, &d.ow); d.succ = { bbi[b->getSuccessor(0)], bbi[b->getSuccessor(1)] }; } else d.succ = { bbi[b->getSuccessor(0)] }; break; }
			case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); opnds(sw->getCondition(), d.ops, &d.ow); d.succ.push_back(bbi[sw->getDefaultDest()]); for (auto &c : sw->cases()) { d.cases.push_back(c.getCaseValue()->getZExtValue()); d.succ.push_back(bbi[c.getCaseSuccessor()]); } break; }
			case Instruction::ICmp: case Instruction::FCmp: d.pred = cast<CmpInst>(&I)->getPredicate(); opnds(I.getOperand(0), d.ops, &d.ow); opnds(I.getOperand(1), d.ops, &d.ow); d.sw = d.ow[0]; break;
			case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst>(&I); opnds(I.getOperand(0), d.ops, &d.ow); Type *t = I.getOperand(0)->getType(); unsigned skip = 0; for (unsigned ix : ev->indices()) { for (unsigned i = 0; i < ix; i++) { std::vector<std::pair<u64, unsigned>> lv; flatten(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), 0, lv); skip += lv.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } d.goff = skip; break; }
			case Instruction::InsertValue: { auto *ev = cast<InsertValueInst>(&I); opnds(I.getOperand(0), d.ops, &d.ow); Type *t = I.getOperand(0)->getType(); unsigned skip = 0; for (unsigned ix : ev->indices()) { for (unsigned i = 0; i < ix; i++) { std::vector<std::pair<u64, unsigned>> lv; flatten(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType(), 0, lv); skip += lv.size(); } t = t->isStructTy() ? t->getStructElementType(ix) : t->getArrayElementType(); } d.goff = skip; d.size = d.ops.size(); opnds(I.getOperand(1), d.ops, &d.ow); break; }
			case Instruction::Call: case Instruction::Invoke: {
				auto *cb = cast<CallBase>(&I); Value *cv = cb->getCalledOperand()->stripPointerCasts();
				for (unsigned i = 0; i < cb->arg_size(); i++) { Value *a = cb->getArgOperand(i); if (a->getType()->isMetadataTy()) { d.argn.push_back(0); continue; } size_t b0 = d.ops.size(); opnds(a, d.ops, &d.ow); d.argn.push_back(d.ops.size() - b0); }
				if (isa<InlineAsm>(cv)) { d.bi = B_IGN; break; }
				if (auto *f = dyn_cast<Function>(cv)) d.callee = getFunc(f);
				else if (auto *al = dyn_cast<GlobalAlias>(cv)) { d.callee = getFunc(cast<Function>(al->getAliasee()->stripPointerCasts())); }
				else { size_t b0 = d.ops.size(); opnds(cb->getCalledOperand(), d.ops, &d.ow); d.goff = b0; d.callee = nullptr; d.bi = -1; }
				if (auto *iv = dyn_cast<InvokeInst>(&I)) d.succ = { bbi[iv->getNormalDest()] };
				if (d.callee) {
					Function *f = d.callee->F; StringRef nm = f->getName();
					if (f->isIntrinsic()) d.bi = B_MEMINTR;
					else if (nm == "__tsan_memcpy") d.bi = B_MEMCPY; else if (nm == "__tsan_memmove") d.bi = B_MEMMOVE; else if (nm == "__tsan_memset") d.bi = B_MEMSET;
					else if (nm.starts_with("__tsan_")) d.bi = (nm.starts_with("__tsan_read") || nm.starts_with("__tsan_write") || nm.starts_with("__tsan_unaligned")) ? B_TSAN : B_IGN;
					else if (f->isDeclaration()) { auto it = bnames.find(nm.str()); if (it != bnames.end()) d.bi = it->second; else if (nm.starts_with("vp_stub_")) d.bi = 0; }
				}
				break; }
			default:
				for (unsigned i = 0; i < I.getNumOperands(); i++) { if (isa<BasicBlock>(I.getOperand(i))) continue; opnds(I.getOperand(i), d.ops, &d.ow); }
				if (!d.ow.empty()) d.sw = d.ow[0];
			}
			bb.ins.push_back(std::move(d));
		}
	}
}

// ---- global setup
static void initConst(MemObj *o, Constant *c, u64 off) {
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(cd->getElementType()); StringRef raw = cd->getRawDataValues(); (void)es; memcpy(&o->d[off], raw.data(), raw.size()); return; }
	if (auto *st = dyn_cast<StructType>(t)) { if (isa<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initConst(o, cast<Constant>(c->getOperand(i)), off + sl->getElementOffset(i)); return; } }
	if (auto *at = dyn_cast<ArrayType>(t)) { if (isa<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) initConst(o, cast<Constant>(c->getOperand(i)), off + i * es); return; } }
	std::vector<Opnd> out; constLeaves(c, out); u64 v = out[0].c; memcpy(&o->d[off], &v, DL->getTypeStoreSize(t));
}
static State *initState() {
	State *s = new State; u64 fa = 0x10000000;
	for (auto &F : *M) { Func *f = new Func; f->F = &F; f->name = F.getName().str(); f->addr = fa; fa += 64; funcs[&F] = f; funcList.push_back(f); faddr[f->addr] = f; }
	u64 ga = 0x20000000; std::vector<std::pair<GlobalVariable *, MemObj *>> gl;
	for (auto &G : M->globals()) {
		if (G.getName().starts_with("llvm.")) continue;
		u64 sz = DL->getTypeAllocSize(G.getValueType()); MemObj *o = new MemObj; o->rc = 1; o->size = sz; o->kind = K_GLOBAL; o->ro = G.isConstant(); o->what = nullptr; o->base = ga; ga += ((sz + 0xfff) & ~0xfffULL) + 0x1000; o->d.assign(sz, 0); gaddr[&G] = o->base; gl.push_back({ &G, o });
	}
	for (auto &p : gl) { if (p.first->hasInitializer()) initConst(p.second, p.first->getInitializer(), 0); if (p.second->ro) constObjs.push_back(p.second); else s->objs.push_back(p.second); }
	return s;
}
