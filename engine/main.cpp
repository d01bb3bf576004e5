// symex: bounded symbolic execution of LLVM IR with Z3.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Transforms/Utils/PromoteMemToReg.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <map>
#include <set>
#include <deque>
#include <math.h>
using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Val { u64 c; Expr *e; };
static inline Val C(u64 v) { return Val{ v, nullptr }; }
static inline Val fromE(Expr *e) { if (e->op == CONST) return Val{ e->v, nullptr }; return Val{ 0, e }; }
static inline Expr *E(Val v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

struct Opnd { int reg; u64 c; bool undef; };   // reg<0: constant
struct GepTerm { Opnd o; unsigned w; u64 scale; };
struct Func;
struct Inst {
	unsigned op; unsigned w, sw; int dst; unsigned nleaf; unsigned pred;
	std::vector<Opnd> ops; std::vector<unsigned> ow; // operand widths (flattened leaves)
	std::vector<GepTerm> gep; u64 goff;
	Instruction *I; Func *callee; int bi; // builtin id
	std::vector<int> succ; std::vector<u64> cases;
	u64 size; std::vector<std::pair<u64, unsigned>> leaves; // for aggregate loads/stores: offset,width
	std::vector<unsigned> argn; // leaves per argument
};
struct Phi { int dst; unsigned nleaf; std::vector<std::pair<int, std::vector<Opnd>>> in; std::vector<unsigned> w; };
struct BB { std::vector<Phi> phis; std::vector<Inst> ins; BasicBlock *B; };
struct Func { Function *F; bool decoded = false; std::vector<BB> bbs; int nregs = 0; std::vector<std::pair<int, int>> args; u64 addr; bool hit = false; std::string name; };

struct MemObj { int rc; u64 base, size; u8 kind; bool ro; std::vector<u8> d; std::vector<Expr *> sym; std::vector<u8> un; const char *what; };
enum { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWA, K_FUNC };
static const char *kname[] = { "global", "stack", "malloc", "new", "new[]", "function" };

struct Frame { Func *f; int bb, pc; std::vector<Val> regs; std::vector<u64> allocas; int cbb, cpc; std::vector<Val> va; bool exitHook = false; };
struct Thread { std::vector<Frame> fr; int st; u64 chan; }; // st: 0 runnable 1 blocked 2 done
struct State {
	std::vector<MemObj *> objs; std::vector<Thread> th; int cur = 0; std::vector<GroupP> groups; Model model; u64 next = 0x100000000ULL; u32 nvar = 0;
	std::vector<Val> log; std::vector<u8> logw; u64 steps = 0; int preempt = 0; int maxPreempt = 0; std::vector<std::pair<u64, u64>> shared; int mallocFail = 0; std::vector<std::pair<std::string, Val>> notes;
	bool heapTrack = false; u64 heapLive = 0; u32 sched = 0; u64 ncons = 0;
	State() {}
	State(const State &o) : objs(o.objs), th(o.th), cur(o.cur), groups(o.groups), model(o.model), next(o.next), nvar(o.nvar), log(o.log), logw(o.logw), steps(o.steps), preempt(o.preempt), maxPreempt(o.maxPreempt), shared(o.shared), mallocFail(o.mallocFail), notes(o.notes), heapTrack(o.heapTrack), heapLive(o.heapLive), sched(o.sched), ncons(o.ncons) { for (auto *p : objs) p->rc++; }
	~State() { for (auto *p : objs) if (--p->rc == 0) delete p; }
	State &operator=(const State &) = delete;
};

struct Shared { int active; int stop; int violation; int unknown; int incomplete; Stats st; unsigned char cover[256]; unsigned char fhit[8192]; char unkmsg[512]; u64 maxsteps; u64 samples; };
static Shared *sh;
static Module *M; static const DataLayout *DL; static Solver *S;
static std::map<const Function *, Func *> funcs; static std::vector<Func *> funcList; static std::map<u64, Func *> faddr;
static std::map<const GlobalVariable *, u64> gaddr;
static std::vector<MemObj *> constObjs; // read-only globals, shared
static std::vector<std::string> coverNames; static std::map<std::string, int> coverIdx;
static std::deque<State *> work;
static std::string outDir; static double deadline; static u64 maxSteps = 20000000; static int maxProcs = 8; static u64 curCoverLocal[4];
static Stats localst; static bool verbose = false; static int maxDepth = 400;

struct PathEnd {}; // thrown to end the current path
[[noreturn]] static void fatalUnsupported(const std::string &m) {
	__sync_fetch_and_or(&sh->unknown, 1); strncpy(sh->unkmsg, m.c_str(), 511);
	throw PathEnd();
}
static void noteUnknown(const std::string &m) { __sync_fetch_and_or(&sh->unknown, 1); strncpy(sh->unkmsg, m.c_str(), 511); }

static std::string jsonEsc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

static std::vector<std::string> backtrace(State &s) {
	std::vector<std::string> r; auto &fr = s.th[s.cur].fr;
	for (int i = (int)fr.size() - 1; i >= 0 && r.size() < 30; i--) {
		auto &f = fr[i]; std::string n = demangle(f.f->name); int line = 0; std::string file;
		if (f.bb >= 0 && f.bb < (int)f.f->bbs.size() && f.pc < (int)f.f->bbs[f.bb].ins.size()) { Instruction *I = f.f->bbs[f.bb].ins[f.pc].I; if (I && I->getDebugLoc()) { line = I->getDebugLoc().getLine(); if (auto *sc = I->getDebugLoc()->getScope()) file = sc->getFilename().str(); } }
		r.push_back(n + " (" + file + ":" + std::to_string(line) + ")");
	}
	return r;
}

static void violation(State &s, const std::string &kind, const std::string &msg) {
	if (__sync_val_compare_and_swap(&sh->violation, 0, 1) == 0) {
		FILE *f = fopen((outDir + "/violation.json").c_str(), "w");
		if (f) {
			fprintf(f, "{\"kind\":\"%s\",\"msg\":\"%s\",\n\"trace\":[", jsonEsc(kind).c_str(), jsonEsc(msg).c_str());
			auto bt = backtrace(s); for (size_t i = 0; i < bt.size(); i++) fprintf(f, "%s\"%s\"", i ? ",\n " : "", jsonEsc(bt[i]).c_str());
			fprintf(f, "],\n\"values\":[");
			bool undef = false; for (u32 v = 0; v < s.model.size(); v++) if (v < gvars.size() && gvars[v].undef) undef = true;
			for (size_t i = 0; i < s.log.size(); i++) { u64 v = s.log[i].e ? S->eval(s.log[i].e, s.model) : s.log[i].c; fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v); }
			fprintf(f, "],\n\"notes\":[");
			for (size_t i = 0; i < s.notes.size(); i++) fprintf(f, "%s\"%s=%llu\"", i ? "," : "", jsonEsc(s.notes[i].first).c_str(), (unsigned long long)(s.notes[i].second.e ? S->eval(s.notes[i].second.e, s.model) : s.notes[i].second.c));
			fprintf(f, "],\n\"steps\":%llu,\"undef\":%s}\n", (unsigned long long)s.steps, undef ? "true" : "false"); fclose(f);
		}
		sh->stop = 1;
	}
	throw PathEnd();
}

// ---- constraints
static void addCons(State &s, Expr *c, const std::vector<std::pair<u32, u64>> *m) {
	if (m) for (auto &p : *m) { if (s.model.size() <= p.first) s.model.resize(p.first + 1, 0); s.model[p.first] = p.second; }
	if (isC(c)) return;
	if (c->op == AND) { Expr *a = c->k[0], *b = c->k[1]; addCons(s, a, nullptr); addCons(s, b, nullptr); return; }
	s.ncons++;
	auto g = std::make_shared<Group>(); g->vars = c->vars; g->cons.push_back(c);
	std::vector<GroupP> ng;
	for (auto &x : s.groups) {
		bool hit = false; { auto i = x->vars->begin(), j = c->vars->begin(); while (i != x->vars->end() && j != c->vars->end()) { if (*i == *j) { hit = true; break; } if (*i < *j) ++i; else ++j; } }
		if (hit) { g->vars = P.unite(g->vars, x->vars); for (Expr *y : x->cons) if (y != c) g->cons.push_back(y); } else ng.push_back(x);
	}
	std::sort(g->cons.begin(), g->cons.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
	ng.push_back(g); s.groups.swap(ng);
}
static State *forkState(State &s) { localst.forks++; return new State(s); }
static void pushWork(State *s) { work.push_back(s); }

// Decide a 1-bit condition; forks if both feasible. Returned state keeps the branch of its model.
static bool decide(State &s, Expr *c) {
	if (isC(c)) return c->v;
	bool mv = S->eval(c, s.model);
	std::vector<std::pair<u32, u64>> m; Expr *other = mv ? mkNot(c) : c, *mine = mv ? c : mkNot(c);
	Res r = S->check(s.groups, other, &m);
	if (r == UNSAT) return mv;
	if (r == UNK) { noteUnknown("solver timeout in branch"); addCons(s, mine, nullptr); return mv; }
	{ bool und = !c->vars->empty(); for (u32 v : *c->vars) if (!gvars[v].undef) { und = false; break; } if (und) violation(s, "uninit", "the outcome of a branch, an address or a size depends only on uninitialised memory"); }
	State *o = forkState(s); addCons(*o, other, &m); pushWork(o);
	addCons(s, mine, nullptr); return mv;
}
static u64 concretize(State &s, Val v, unsigned w) {
	if (!v.e) return v.c;
	u64 x = S->eval(v.e, s.model); decide(s, mkEq(v.e, mkConst(x, w))); return x;
}
static Val freshVar(State &s, unsigned w, bool undef) {
	// variables are interned by (ordinal on the path, width, kind)
	static std::map<std::tuple<u32, unsigned, bool>, u32> tab; auto key = std::make_tuple(s.nvar, w, undef); auto it = tab.find(key); u32 id;
	if (it == tab.end()) { id = gvars.size(); gvars.push_back(VarInfo{ (u8)w, undef, "" }); tab[key] = id; } else id = it->second;
	s.nvar++; if (s.model.size() <= id) s.model.resize(id + 1, 0);
	return fromE(mkVar(id, w));
}

// ---- memory
static MemObj *newObj(State &s, u64 size, u8 kind, bool init, const char *what) {
	MemObj *o = new MemObj; o->rc = 1; o->size = size; o->kind = kind; o->ro = false; o->what = what; o->base = s.next; s.next += ((size + 0xffff) & ~0xfffULL) + 0x10000; o->d.assign(size, 0); if (!init) o->un.assign(size, 1);
	s.objs.push_back(o); return o;
}
static int findIdx(State &s, u64 a) { // index of object with base<=a
	int lo = 0, hi = (int)s.objs.size(); while (lo < hi) { int m = (lo + hi) / 2; if (s.objs[m]->base <= a) lo = m + 1; else hi = m; } return lo - 1;
}
static MemObj *findObj(State &s, u64 a, int *idx) {
	int i = findIdx(s, a); if (i >= 0) { MemObj *o = s.objs[i]; if (a - o->base < o->size || (a == o->base + o->size)) { if (idx) *idx = i; return o; } }
	int lo = 0, hi = (int)constObjs.size(); while (lo < hi) { int m = (lo + hi) / 2; if (constObjs[m]->base <= a) lo = m + 1; else hi = m; }
	if (lo > 0) { MemObj *o = constObjs[lo - 1]; if (a - o->base <= o->size) { if (idx) *idx = -1; return o; } }
	return nullptr;
}
static MemObj *writable(State &s, int idx) {
	MemObj *o = s.objs[idx]; if (o->rc == 1) return o;
	MemObj *n = new MemObj(*o); n->rc = 1; o->rc--; s.objs[idx] = n; return n;
}
static std::string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static std::map<u64, std::pair<u64, u8>> everAlloc;
static void badAccess(State &s, u64 a, u64 n, bool wr, MemObj *o) {
	std::string m = std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " byte(s) at " + hexs(a);
	if (a < 4096) m += " (null pointer)";
	else if (o) m += " out of bounds of " + std::string(kname[o->kind]) + " object of size " + std::to_string(o->size) + " (offset " + std::to_string((i64)(a - o->base)) + ")" + (o->what ? std::string(" ") + o->what : "");
	else { int i = findIdx(s, a); if (i >= 0 && a - s.objs[i]->base < s.objs[i]->size + 0x10000) { o = s.objs[i]; m += " past " + std::string(kname[o->kind]) + " object of size " + std::to_string(o->size) + " (offset " + std::to_string((i64)(a - o->base)) + ")"; } else m += " (freed or invalid pointer)"; }
	violation(s, "memory", m);
}
static Val readBytes(State &s, MemObj *o, int idx, u64 off, unsigned nb) {
	if (!o->un.empty()) {
		for (unsigned i = 0; i < nb; i++) if (o->un[off + i]) {
			if (idx >= 0) o = writable(s, idx);
			Val v = freshVar(s, 8, true); if (o->sym.empty()) o->sym.assign(o->size, nullptr);
			o->sym[off + i] = v.e; o->un[off + i] = 0;
		}
	}
	bool anysym = false; if (!o->sym.empty()) for (unsigned i = 0; i < nb; i++) if (o->sym[off + i]) { anysym = true; break; }
	if (!anysym) { u64 v = 0; memcpy(&v, &o->d[off], nb); return C(v); }
	Expr *e = nullptr;
	for (int i = nb - 1; i >= 0;) { // stored bytes are raw extracts of the stored word: reload adjacent ones as one term
		Expr *b = o->sym[off + i]; int j = i - 1;
		if (!b) b = mkConst(o->d[off + i], 8);
		else if (b->op == EXTRACT) { while (j >= 0 && o->sym[off + j] && o->sym[off + j]->op == EXTRACT && o->sym[off + j]->k[0] == b->k[0] && o->sym[off + j]->v + 8 == o->sym[off + j + 1]->v) j--; b = mkExtract(b->k[0], o->sym[off + j + 1]->v, 8 * (i - j)); }
		e = e ? mkConcat(e, b) : b; i = j;
	}
	return fromE(e);
}
static void writeBytes(MemObj *o, u64 off, unsigned nb, Val v) {
	if (!o->un.empty()) for (unsigned i = 0; i < nb; i++) o->un[off + i] = 0;
	if (!v.e) { memcpy(&o->d[off], &v.c, nb); if (!o->sym.empty()) for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nullptr; return; }
	if (o->sym.empty()) o->sym.assign(o->size, nullptr);
	for (unsigned i = 0; i < nb; i++) o->sym[off + i] = nb == 1 ? v.e : P.get(EXTRACT, 8, i * 8, v.e, 0, 0);
}
static inline unsigned bytesOf(unsigned w) { return (w + 7) / 8; }
static Val truncTo(Val v, unsigned w) { if (!v.e) return C(v.c & maskw(w)); return fromE(mkExtract(v.e, 0, w)); }

// resolve a possibly symbolic address; returns object, sets offset list
static MemObj *resolve(State &s, Val addr, u64 n, bool wr, int &idx, std::vector<u64> &offs, Expr *&offE) {
	offE = nullptr; offs.clear();
	u64 a = addr.e ? S->eval(addr.e, s.model) : addr.c;
	MemObj *o = findObj(s, a, &idx);
	if (!o) badAccess(s, a, n, wr, nullptr);
	if (a - o->base + n > o->size) badAccess(s, a, n, wr, o);
	if (wr && (o->ro || idx < 0)) violation(s, "memory", "write to read-only object");
	if (!addr.e) { offs.push_back(a - o->base); return o; }
	Expr *off = mkBin(SUB, addr.e, mkConst(o->base, 64));
	decide(s, mkNot(mkBin(ULT, mkConst(o->size - n, 64), off)));
	// candidate offsets
	u64 lo = off->lo, hi = std::min(off->hi, o->size - n);
	if (off->hi <= o->size && hi - lo <= 40) { for (u64 x = lo; x <= hi; x++) offs.push_back(x); offE = off; return o; }
	// enumerate feasible values with the solver
	Expr *block = mkConst(1, 1); Model m = s.model; u64 v = S->eval(off, m);
	while (true) {
		offs.push_back(v); if (offs.size() > 64) { offs.clear(); break; }
		block = mkBin(AND, block, mkNot(mkEq(off, mkConst(v, 64))));
		std::vector<std::pair<u32, u64>> mm; Res r = S->check(s.groups, block, &mm);
		if (r == UNSAT) break;
		if (r == UNK) { noteUnknown("solver timeout resolving address"); break; }
		Model m2 = s.model; for (auto &p : mm) { if (m2.size() <= p.first) m2.resize(p.first + 1, 0); m2[p.first] = p.second; }
		v = S->eval(off, m2);
	}
	if (offs.empty()) { u64 x = S->eval(off, s.model); decide(s, mkEq(off, mkConst(x, 64))); offs.push_back(x); return o; }
	if (offs.size() == 1) return o;
	offE = off; return o;
}
static Val loadMem(State &s, Val addr, unsigned w) {
	unsigned nb = bytesOf(w); int idx; std::vector<u64> offs; Expr *offE; 
	if (!addr.e) { MemObj *o = findObj(s, addr.c, &idx); if (!o) badAccess(s, addr.c, nb, false, nullptr); u64 off = addr.c - o->base; if (off + nb > o->size) badAccess(s, addr.c, nb, false, o); if (o->kind == K_FUNC) violation(s, "memory", "read from code"); return truncTo(readBytes(s, o, idx, off, nb), w); }
	MemObj *o = resolve(s, addr, nb, false, idx, offs, offE);
	if (!offE) return truncTo(readBytes(s, o, idx, offs[0], nb), w);
	Expr *r = nullptr;
	for (u64 off : offs) { o = idx >= 0 ? s.objs[idx] : o; Expr *v = E(readBytes(s, o, idx, off, nb), nb * 8); r = r ? mkIte(mkEq(offE, mkConst(off, 64)), v, r) : v; }
	return truncTo(fromE(r), w);
}
static void storeMem(State &s, Val addr, Val v, unsigned w) {
	unsigned nb = bytesOf(w); int idx; std::vector<u64> offs; Expr *offE;
	if (w != nb * 8) v = v.e ? fromE(mkZExt(v.e, nb * 8)) : v;
	MemObj *o = resolve(s, addr, nb, true, idx, offs, offE);
	o = writable(s, idx);
	if (!offE) { writeBytes(o, offs[0], nb, v); return; }
	Expr *nv = E(v, nb * 8);
	for (u64 off : offs) { Expr *old = E(readBytes(s, o, idx, off, nb), nb * 8); o = s.objs[idx]; writeBytes(o, off, nb, fromE(mkIte(mkEq(offE, mkConst(off, 64)), nv, old))); }
}
static void copyMem(State &s, u64 dst, u64 src, u64 n, bool move, bool isStructCopy) {
	if (n == 0) return;
	int si, di; MemObj *so = findObj(s, src, &si); if (!so) badAccess(s, src, n, false, nullptr); if (src - so->base + n > so->size) badAccess(s, src, n, false, so);
	MemObj *d = findObj(s, dst, &di); if (!d) badAccess(s, dst, n, true, nullptr); if (dst - d->base + n > d->size) badAccess(s, dst, n, true, d);
	if (d->ro || di < 0) violation(s, "memory", "memcpy to read-only object");
	if (!move && dst != src && ((dst < src && dst + n > src) || (src < dst && src + n > dst))) violation(s, "memory", "memcpy with overlapping ranges of " + std::to_string(n) + " bytes");
	d = writable(s, di); so = findObj(s, src, &si);
	u64 a = src - so->base, b = dst - d->base;
	bool sSym = false; if (!so->sym.empty()) for (u64 i = 0; i < n; i++) if (so->sym[a + i]) { sSym = true; break; }
	std::vector<Expr *> ts; if (sSym) ts.assign(so->sym.begin() + a, so->sym.begin() + a + n);
	std::vector<u8> tu; if (!so->un.empty()) tu.assign(so->un.begin() + a, so->un.begin() + a + n);
	memmove(&d->d[b], &so->d[a], n);
	if (sSym) { if (d->sym.empty()) d->sym.assign(d->size, nullptr); memcpy(&d->sym[b], &ts[0], n * sizeof(Expr *)); } else if (!d->sym.empty()) std::fill(d->sym.begin() + b, d->sym.begin() + b + n, nullptr);
	if (!tu.empty()) { if (d->un.empty()) d->un.assign(d->size, 0); memcpy(&d->un[b], &tu[0], n); } else if (!d->un.empty()) std::fill(d->un.begin() + b, d->un.begin() + b + n, 0);
}
static void freeObj(State &s, u64 a, u8 kind) {
	if (!a) return; int i = findIdx(s, a); MemObj *o = i >= 0 ? s.objs[i] : nullptr;
	if (!o || o->base != a || (o->kind != K_MALLOC && o->kind != K_NEW && o->kind != K_NEWA)) {
		if (o && a - o->base < o->size) violation(s, "memory", "free of a pointer that is not the start of a live heap block (" + std::string(kname[o->kind]) + " object of size " + std::to_string(o->size) + ", offset " + std::to_string(a - o->base) + ")");
		violation(s, "memory", "free of an invalid or already freed pointer " + hexs(a));
	}
	if (o->kind != kind) violation(s, "memory", "mismatched deallocation: " + std::string(kname[o->kind]) + " block released as " + kname[kind]);
	s.objs.erase(s.objs.begin() + i); if (--o->rc == 0) delete o; s.heapLive--;
}
static void eraseObj(State &s, u64 a) { int i = findIdx(s, a); if (i >= 0 && s.objs[i]->base == a) { MemObj *o = s.objs[i]; s.objs.erase(s.objs.begin() + i); if (--o->rc == 0) delete o; } }
static u64 heapAlloc(State &s, u64 n, u8 kind) {
	if (n > (1ULL << 28)) { if (kind == K_MALLOC) return 0; violation(s, "memory", "allocation of " + std::to_string(n) + " bytes (would throw bad_alloc)"); }
	MemObj *o = newObj(s, n, kind, false, nullptr); s.heapLive++; return o->base;
}
static std::string readCStr(State &s, u64 a) { std::string r; int idx; while (true) { MemObj *o = findObj(s, a, &idx); if (!o || a - o->base >= o->size) break; u64 off = a - o->base; char c = o->d[off]; if (!c) break; r += c; a++; if (r.size() > 400) break; } return r; }
#include "main2.inc"
#include "main3.inc"
