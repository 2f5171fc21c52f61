// nzsym: symbolic executor for LLVM bitcode (bounded, exhaustive path exploration, Z3 decides).
#include "solver.hpp"
#include <llvm/ADT/BitVector.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <map>
#include <set>
#include <pthread.h>
#include <sys/resource.h>

using namespace llvm;
using namespace sx;

namespace {
Ctx cx;

struct Val { N n = nullptr; std::shared_ptr<std::vector<Val>> agg; Val() = default; Val(N x) : n(x) {} };

enum class OK : uint8_t { Global, Stack, Heap, Exc, Func };
struct Obj {
	uint64_t base, size; OK kind; bool readonly = false; uint8_t how = 0; // how: 0 malloc 1 new 2 new[]
	std::string name;
	std::vector<N> b; // byte values, nullptr = uninitialised
};
using ObjP = std::shared_ptr<Obj>;

struct Frame {
	Function* F = nullptr;
	Instruction* pc = nullptr;
	BasicBlock* prev = nullptr;
	std::vector<Val> regs;
	std::vector<uint64_t> allocas;
	uint64_t freeOnRet = 0; // exception object released when this (destructor) frame returns
	bool rootCall = false;
};
struct ExcInfo { uint64_t addr, type, dtor; };
struct Caught { uint64_t addr; int count; bool rethrown; };

struct State {
	std::vector<Frame> st;
	std::map<uint64_t, ObjP> mem;
	uint64_t heapNext = 0x200000000ull, stackNext = 0x7f0000000000ull;
	PCP pc;
	std::shared_ptr<Model> model;
	std::unordered_map<N, N> known;
	std::vector<N> inputs; std::vector<const char*> inputNames;
	std::vector<N> notes;
	std::map<uint64_t, ExcInfo> excs;
	std::vector<Caught> caught;
	uint64_t curExc = 0;
	N abortOk = nullptr;
	bool leakCheck = true;
	uint64_t steps = 0, loopMark = 0;
	std::string lastMsg;
	unsigned uninit = 0;
};
using StateP = std::unique_ptr<State>;

struct Violation { std::string kind, msg, loc; std::vector<std::string> trace; std::vector<std::string> inputs; std::vector<std::string> names; };

struct ForkOn { N n; };              // concretise n by forking, then re-execute
struct PathEnd {};                   // path is finished (infeasible or reported)
struct Unsupported { std::string what; };
struct Widen {};                     // too many paths: start again with merging
struct SpecFail {};                  // the two sides of a branch cannot be merged

struct Engine {
	Module& M; const DataLayout& DL; Solver S;
	std::unordered_map<const Value*, uint64_t> gaddr; // globals and functions
	std::unordered_map<uint64_t, Function*> faddr;
	DenseMap<const Value*, unsigned> slot; DenseMap<const Function*, unsigned> nslots;
	std::unordered_map<const Constant*, Val> constCache;
	std::map<uint64_t, ObjP> globals;
	std::vector<StateP> work;
	StateP cur;
	DenseSet<const BasicBlock*> visited;
	std::unordered_map<std::string, N> inputVars;
	// configuration
	double firstViol = -1;
	uint64_t maxSteps = 4000000, maxPaths = 2000000; double timeLimit = 300; unsigned maxViol = 4, maxConc = 4096; unsigned traceMax = 6;
	// results
	uint64_t paths = 0, killed = 0, steps = 0, forks = 0, asserts = 0, assertsTrivial = 0, assumes = 0, memQueries = 0; unsigned maxDepth = 0;
	std::vector<Violation> viols; std::set<std::string> vkeys;
	std::map<std::string, uint64_t> assertSites, reach;
	std::vector<json::Value> traces;
	std::string status = "complete", why;
	std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
	bool dbg = getenv("NZSYM_DEBUG") != nullptr;
	// state merging, used once plain path exploration has proved too wide
	bool merging = false; unsigned spec = 0; uint64_t specSteps = 0, merges = 0, mergeFails = 0;
	uint64_t mergeAfterPaths = 60000; double mergeAfterTime = 120;
	DenseMap<const Instruction*, std::pair<unsigned, unsigned>> mergeLog; // successes, failures
	DenseMap<const Function*, std::unique_ptr<DenseMap<const BasicBlock*, BasicBlock*>>> joins;

	Engine(Module& m) : M(m), DL(m.getDataLayout()), S(cx) {}

	double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

	// ---------------------------------------------------------------- set-up
	void number(Function& F) {
		unsigned k = 0;
		for (auto& a : F.args()) slot[&a] = k++;
		for (auto& bb : F) for (auto& i : bb) slot[&i] = k++;
		nslots[&F] = k;
	}
	void setup() {
		uint64_t fa = 0x10000;
		for (auto& F : M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; if (!F.isDeclaration()) number(F); }
		uint64_t ga = 0x10000000;
		for (auto& G : M.globals()) {
			uint64_t al = std::max<uint64_t>(16, G.getAlign().valueOrOne().value());
			ga = (ga + al - 1) / al * al;
			uint64_t sz = G.isDeclaration() ? std::max<uint64_t>(256, G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()).getFixedValue() : 0) : DL.getTypeAllocSize(G.getValueType()).getFixedValue();
			gaddr[&G] = ga;
			auto o = std::make_shared<Obj>(); o->base = ga; o->size = sz; o->kind = OK::Global; o->name = G.getName().str(); o->b.assign(sz, nullptr);
			globals[ga] = o;
			ga += sz + 64;
		}
		for (auto& A : M.aliases()) {
			auto* t = A.getAliaseeObject();
			if (t) gaddr[&A] = gaddr[t];
		}
		for (auto& G : M.globals()) {
			auto& o = *globals[gaddr[&G]];
			if (G.isDeclaration()) { for (auto& x : o.b) x = cx.C(8, 0); if (G.getName() == "__libc_single_threaded") o.b[0] = cx.C(8, 1); }
			else initMem(o, 0, G.getInitializer());
			o.readonly = G.isConstant();
		}
	}
	void putVal(Obj& o, uint64_t off, N v, unsigned bytes) {
		N x = v->w < bytes * 8 ? cx.zext(v, bytes * 8) : v;
		for (unsigned i = 0; i < bytes; ++i) o.b[off + i] = cx.extract(x, i * 8, 8);
	}
	void initMem(Obj& o, uint64_t off, const Constant* c) {
		Type* t = c->getType();
		if (isa<UndefValue>(c)) { for (uint64_t i = 0, n = DL.getTypeAllocSize(t); i < n; ++i) o.b[off + i] = cx.C(8, 0); return; }
		if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { for (uint64_t i = 0, n = DL.getTypeAllocSize(t); i < n; ++i) o.b[off + i] = cx.C(8, 0); return; }
		if (auto* ca = dyn_cast<ConstantDataSequential>(c)) {
			uint64_t es = DL.getTypeAllocSize(ca->getElementType());
			for (unsigned i = 0; i < ca->getNumElements(); ++i) initMem(o, off + i * es, ca->getElementAsConstant(i));
			return;
		}
		if (auto* ca = dyn_cast<ConstantArray>(c)) {
			uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType());
			for (unsigned i = 0; i < ca->getNumOperands(); ++i) initMem(o, off + i * es, ca->getOperand(i));
			return;
		}
		if (auto* cs = dyn_cast<ConstantStruct>(c)) {
			auto* sl = DL.getStructLayout(cs->getType());
			for (uint64_t i = 0, n = DL.getTypeAllocSize(t); i < n; ++i) o.b[off + i] = cx.C(8, 0);
			for (unsigned i = 0; i < cs->getNumOperands(); ++i) initMem(o, off + sl->getElementOffset(i), cs->getOperand(i));
			return;
		}
		Val v = constant(c);
		if (!v.n) throw Unsupported{"aggregate constant initialiser"};
		putVal(o, off, v.n, DL.getTypeStoreSize(t));
		for (uint64_t i = DL.getTypeStoreSize(t), n = DL.getTypeAllocSize(t); i < n; ++i) o.b[off + i] = cx.C(8, 0);
	}
	unsigned bits(Type* t) {
		if (t->isIntegerTy()) return t->getIntegerBitWidth();
		if (t->isPointerTy()) return 64;
		if (t->isFloatTy()) return 32;
		if (t->isDoubleTy()) return 64;
		std::string s; raw_string_ostream os(s); os << *t;
		throw Unsupported{"type " + os.str()};
	}
	Val zeroOf(Type* t) {
		if (auto* s = dyn_cast<StructType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (auto* e : s->elements()) v.agg->push_back(zeroOf(e)); return v; }
		if (auto* a = dyn_cast<ArrayType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (uint64_t i = 0; i < a->getNumElements(); ++i) v.agg->push_back(zeroOf(a->getElementType())); return v; }
		if (auto* a = dyn_cast<FixedVectorType>(t)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (uint64_t i = 0; i < a->getNumElements(); ++i) v.agg->push_back(zeroOf(a->getElementType())); return v; }
		return Val(cx.C(bits(t), 0));
	}
	Val constant(const Constant* c) {
		auto it = constCache.find(c);
		if (it != constCache.end()) return it->second;
		Val v = constant0(c);
		constCache[c] = v;
		return v;
	}
	Val constant0(const Constant* c) {
		Type* t = c->getType();
		if (auto* ci = dyn_cast<ConstantInt>(c)) return Val(cx.C(ci->getValue()));
		if (auto* cf = dyn_cast<ConstantFP>(c)) { bits(t); return Val(cx.C(cf->getValueAPF().bitcastToAPInt())); }
		if (isa<ConstantPointerNull>(c)) return Val(cx.C(64, 0));
		if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
		if (auto* g = dyn_cast<GlobalValue>(c)) { auto i = gaddr.find(g); if (i == gaddr.end()) throw Unsupported{"global " + g->getName().str()}; return Val(cx.C(64, i->second)); }
		if (auto* ca = dyn_cast<ConstantAggregate>(c)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (auto& o : ca->operands()) v.agg->push_back(constant(cast<Constant>(o))); return v; }
		if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); ++i) v.agg->push_back(constant(cd->getElementAsConstant(i))); return v; }
		if (auto* ce = dyn_cast<ConstantExpr>(c)) {
			auto op = [&](unsigned i) { return constant(ce->getOperand(i)); };
			switch (ce->getOpcode()) {
				case Instruction::GetElementPtr: {
					APInt off(64, 0); auto* gep = cast<GEPOperator>(ce);
					if (!gep->accumulateConstantOffset(DL, off)) throw Unsupported{"constant gep"};
					return Val(cx.add(op(0).n, cx.C(off)));
				}
				case Instruction::BitCast: case Instruction::AddrSpaceCast: return op(0);
				case Instruction::PtrToInt: case Instruction::IntToPtr: { N x = op(0).n; unsigned w = bits(t); return Val(w <= x->w ? cx.extract(x, 0, w) : cx.zext(x, w)); }
				case Instruction::Trunc: return Val(cx.extract(op(0).n, 0, bits(t)));
				case Instruction::Add: return Val(cx.add(op(0).n, op(1).n));
				case Instruction::Sub: return Val(cx.sub(op(0).n, op(1).n));
				case Instruction::ICmp: return Val(icmp((CmpInst::Predicate)ce->getPredicate(), op(0).n, op(1).n));
				default: throw Unsupported{std::string("constant expression ") + ce->getOpcodeName()};
			}
		}
		throw Unsupported{"constant"};
	}

	// ---------------------------------------------------------------- values
	Val raw(const Value* v) {
		if (auto* c = dyn_cast<Constant>(v)) return constant(c);
		return cur->st.back().regs[slot.lookup(v)];
	}
	N subst(N n) {
		if (!n || n->isConst() || cur->known.empty()) return n;
		auto it = cur->known.find(n);
		if (it != cur->known.end()) return it->second;
		return n;
	}
	Val get(const Value* v) { Val x = raw(v); if (x.n) x.n = subst(x.n); return x; }
	N getN(const Value* v) {
		Val x = get(v);
		if (!x.n) throw Unsupported{"aggregate where scalar expected"};
		return x.n;
	}
	void set(const Value* v, Val x) { cur->st.back().regs[slot.lookup(v)] = std::move(x); }

	// ---------------------------------------------------------------- path condition
	void addPC(State& s, N c) {
		if (c->isConst()) return;
		if (c->op == And && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
		auto p = std::make_shared<PC>(); p->cond = c; p->parent = s.pc; p->depth = s.pc ? s.pc->depth + 1 : 1;
		maxDepth = std::max(maxDepth, p->depth);
		s.pc = p;
		s.known[c] = cx.B(true);
		if (c->op == Xor && c->k[1]->isOnes()) s.known[c->k[0]] = cx.B(false);
		if (c->op == Eq && c->k[1]->isConst()) s.known[c->k[0]] = c->k[1];
	}
	// can c be true in the current state?  returns model
	bool feasible(N c, std::shared_ptr<Model>* m) {
		c = subst(c);
		if (c->isConst()) { if (m) *m = cur->model; return !c->isZero(); }
		if (cur->model->isTrue(c)) { if (m) *m = cur->model; return true; }
		auto nm = std::make_shared<Model>();
		Res r = S.check(cur->pc, c, nm.get());
		if (r == Res::Unknown) { status = "incomplete"; why = "solver gave no answer within its limit"; throw PathEnd{}; }
		if (r == Res::Sat) { if (m) *m = nm; return true; }
		return false;
	}
	StateP clone() { ++forks; return std::make_unique<State>(*cur); }
	// decide a branch; forks when both sides are feasible. returns the side taken by cur
	bool branch(N c) {
		c = subst(c);
		if (c->isConst()) return !c->isZero();
		bool side = cur->model->isTrue(c);
		N other = side ? cx.notN(c) : c;
		std::shared_ptr<Model> m;
		if (feasible(other, &m)) {
			if (spec) throw SpecFail{};
			auto o = clone();
			o->model = m; addPC(*o, other);
			// the other state re-executes the same instruction with the condition known
			o->known[c] = cx.B(!side);
			work.push_back(std::move(o));
			addPC(*cur, side ? c : cx.notN(c));
		}
		cur->known[c] = cx.B(side);
		return side;
	}
	// the block where all normal continuations of a block meet again (its immediate post-dominator when blocks which never return are left out)
	BasicBlock* joinOf(BasicBlock* bb) {
		auto& up = joins[bb->getParent()];
		if (!up) {
			up = std::make_unique<DenseMap<const BasicBlock*, BasicBlock*>>();
			std::vector<BasicBlock*> bs; DenseMap<BasicBlock*, unsigned> ix;
			for (auto& b : *bb->getParent()) { ix[&b] = bs.size(); bs.push_back(&b); }
			unsigned n = bs.size(); if (n > 600) return nullptr;
			auto succ = [&](BasicBlock* b) { std::vector<unsigned> v; auto* t = b->getTerminator(); if (auto* inv = dyn_cast<InvokeInst>(t)) v.push_back(ix[inv->getNormalDest()]); else for (unsigned i = 0; i < t->getNumSuccessors(); ++i) v.push_back(ix[t->getSuccessor(i)]); return v; };
			std::vector<char> live(n); bool ch = true;
			for (unsigned i = 0; i < n; ++i) live[i] = isa<ReturnInst>(bs[i]->getTerminator());
			while (ch) { ch = false; for (unsigned i = 0; i < n; ++i) if (!live[i]) for (unsigned j : succ(bs[i])) if (live[j]) { live[i] = 1; ch = true; break; } }
			std::vector<BitVector> pd(n, BitVector(n, true));
			for (unsigned i = 0; i < n; ++i) if (isa<ReturnInst>(bs[i]->getTerminator())) { pd[i].reset(); pd[i].set(i); }
			ch = true;
			while (ch) { ch = false; for (unsigned i = n; i-- > 0;) { if (!live[i] || isa<ReturnInst>(bs[i]->getTerminator())) continue;
				BitVector x(n, true); for (unsigned j : succ(bs[i])) if (live[j]) x &= pd[j]; x.set(i); if (x != pd[i]) { pd[i] = x; ch = true; } } }
			for (unsigned i = 0; i < n; ++i) if (live[i]) { BasicBlock* best = nullptr; unsigned cnt = 0; for (unsigned j : pd[i].set_bits()) if (j != i && live[j] && pd[j].count() > cnt) { cnt = pd[j].count(); best = bs[j]; } (*up)[bs[i]] = best; }
		}
		return up->lookup(bb);
	}
	N mergeN(N c, N a, N b) { // constants one apart: a counter
		if (a->w >= 32 && a->isConst() && b->isConst()) { if ((a->c - b->c).isOne()) return cx.add(cx.zext(c, a->w), b); if ((b->c - a->c).isOne()) return cx.add(cx.zext(cx.notN(c), a->w), a); }
		return cx.ite(c, a, b);
	}
	bool mergeVal(N c, const Val& a, const Val& b, Val& r) {
		if (a.n && b.n) { if (a.n->w != b.n->w) { r = Val(); return true; } r = a.n == b.n ? a : Val(mergeN(c, a.n, b.n)); return true; }
		if (a.agg && b.agg && a.agg->size() == b.agg->size()) { if (a.agg == b.agg) { r = a; return true; } r = Val(); r.agg = std::make_shared<std::vector<Val>>(a.agg->size()); for (size_t i = 0; i < a.agg->size(); ++i) mergeVal(c, (*a.agg)[i], (*b.agg)[i], (*r.agg)[i]); return true; }
		r = Val(); return true; // defined on one side only: nothing after the join uses it
	}
	// runs both sides of a branch up to the join and continues with one state; false (cur unchanged) when that cannot be done
	bool tryMerge(BranchInst* b, N c) {
		c = subst(c);
		if (c->isConst() || spec > 200) return false;
		auto& lg = mergeLog[b];
		if (lg.second >= 4 && lg.first < lg.second) return false;
		BasicBlock* J = joinOf(b->getParent());
		if (!J) return false;
		if (auto* sp = b->getFunction()->getSubprogram()) if (sp->getFilename().contains("/harness/")) return false; // the cases a harness distinguishes stay apart
		bool side = cur->model->isTrue(c); std::shared_ptr<Model> om;
		if (!feasible(side ? cx.notN(c) : c, &om)) return false;
		StateP base = std::move(cur), res[2];
		const size_t D = base->st.size(); bool ok = true;
		if (!spec) specSteps = 0;
		++spec;
		try {
			for (int k = 0; k < 2; ++k) {
				cur = std::make_unique<State>(*base);
				if ((k == 1) != side) cur->model = om;
				N cond = k ? c : cx.notN(c);
				addPC(*cur, cond); cur->known[c] = cx.B(k);
				PCP pc0 = cur->pc;
				jump(b->getSuccessor(k ? 0 : 1));
				while (!(cur->st.size() == D && cur->st.back().pc->getParent() == J)) {
					if (++specSteps > 400000 || ((specSteps & 0x3ff) == 0 && elapsed() > timeLimit)) throw SpecFail{};
					++cur->steps; ++steps;
					try { step(); } catch (ForkOn& f) { if (f.n) forkValues(f.n); }
					if (cur->st.size() < D) throw SpecFail{};
				}
				if (cur->pc != pc0 || cur->inputs.size() != base->inputs.size() || cur->notes.size() != base->notes.size() || cur->excs.size() != base->excs.size() || cur->caught.size() != base->caught.size() || cur->abortOk != base->abortOk || cur->leakCheck != base->leakCheck) throw SpecFail{};
				res[k] = std::move(cur);
			}
			State &f = *res[0], &t = *res[1];
			if (f.mem.size() != t.mem.size() || f.st.back().allocas != t.st.back().allocas) throw SpecFail{};
			for (auto i = f.mem.begin(), j = t.mem.begin(); i != f.mem.end(); ++i, ++j) if (i->first != j->first || i->second->size != j->second->size || i->second->kind != j->second->kind || i->second->how != j->second->how) throw SpecFail{};
			StateP m = std::make_unique<State>(*base);
			m->mem = t.mem;
			for (auto i = f.mem.begin(), j = m->mem.begin(); i != f.mem.end(); ++i, ++j) if (i->second != j->second) {
				auto o = std::make_shared<Obj>(*j->second); bool same = true;
				for (uint64_t x = 0; x < o->size; ++x) {
					N p = i->second->b[x], q = o->b[x];
					if (p == q) continue;
					same = false;
					if (!p || !q) { std::string nm = "uninit" + std::to_string(m->uninit++); N& v = inputVars[nm]; if (!v) v = cx.newVar(nm, 8); if (!p) p = v; if (!q) q = v; }
					o->b[x] = cx.ite(c, q, p);
				}
				if (!same) j->second = o;
			}
			Frame &ff = f.st.back(), &tf = t.st.back(); Frame& mf = m->st.back();
			if (ff.pc != tf.pc) throw SpecFail{};
			for (size_t i = 0; i < mf.regs.size(); ++i) mergeVal(c, tf.regs[i], ff.regs[i], mf.regs[i]);
			mf.pc = tf.pc; mf.prev = tf.prev; mf.allocas = tf.allocas;
			m->heapNext = std::max(f.heapNext, t.heapNext); m->stackNext = std::max(f.stackNext, t.stackNext); m->uninit = std::max(m->uninit, std::max(f.uninit, t.uninit));
			m->steps = std::max(f.steps, t.steps); m->lastMsg = t.lastMsg;
			--spec; ++merges; ++mergeLog[b].first;
			cur = std::move(m);
			return true;
		}
		catch (SpecFail&) {} catch (PathEnd&) {} catch (Unsupported&) {}
		--spec; ++mergeFails; ++mergeLog[b].second;
		cur = std::move(base);
		return false;
	}
	// concrete value of n: forks over all feasible values
	uint64_t conc(N n) {
		n = subst(n);
		if (n->isConst()) return n->u();
		throw ForkOn{n};
	}
	void forkValues(N n) {
		// enumerate all feasible values
		std::vector<std::pair<APInt, std::shared_ptr<Model>>> vs;
		PCP pc = cur->pc;
		vs.push_back({cur->model->eval(n), cur->model});
		N excl = cx.notN(cx.eq(n, cx.C(vs[0].first)));
		for (;;) {
			std::shared_ptr<Model> m;
			if (!feasible(excl, &m)) break;
			vs.push_back({m->eval(n), m});
			excl = cx.bitop(And, excl, cx.notN(cx.eq(n, cx.C(vs.back().first))));
			if (spec) throw SpecFail{};
			if (vs.size() > maxConc) { status = "incomplete"; why = "too many values to enumerate"; throw PathEnd{}; }
		}
		for (size_t i = vs.size(); i-- > 1;) {
			auto o = clone(); o->model = vs[i].second; addPC(*o, cx.eq(n, cx.C(vs[i].first))); o->known[n] = cx.C(vs[i].first);
			work.push_back(std::move(o));
		}
		if (vs.size() > 1) addPC(*cur, cx.eq(n, cx.C(vs[0].first)));
		cur->known[n] = cx.C(vs[0].first);
	}

	// ---------------------------------------------------------------- reporting
	static std::string locOf(const Instruction* i) {
		if (!i) return "?";
		if (auto& d = i->getDebugLoc()) {
			auto* sc = cast<DIScope>(d.getScope());
			return (sc->getFilename() + ":" + Twine(d.getLine())).str();
		}
		return i->getFunction()->getName().str();
	}
	void report(State& s, const std::string& kind, const std::string& msg, const Model& m) {
		Violation v; v.kind = kind; v.msg = msg;
		for (size_t i = s.st.size(); i-- > 0;) { v.trace.push_back(demangle(s.st[i].F->getName().str()) + " @ " + locOf(s.st[i].pc)); if (v.trace.size() > 24) break; }
		// innermost location inside the library, else innermost
		v.loc = s.st.empty() ? "end" : locOf(s.st.back().pc);
		for (size_t i = s.st.size(); i-- > 0;) { auto l = locOf(s.st[i].pc); if (l.find("NazaraUtils/") != std::string::npos) { v.loc = l; break; } }
		std::string key = kind + "|" + msg + "|" + v.loc;
		if (!vkeys.insert(key).second) return;
		for (auto n : s.inputs) { SmallString<40> x; m.eval(n).toString(x, 10, false); v.inputs.push_back(std::string(x.str())); }
		for (auto* nm : s.inputNames) v.names.push_back(nm);
		viols.push_back(std::move(v));
	}
	[[noreturn]] void fail(const std::string& kind, const std::string& msg) { report(*cur, kind, msg, *cur->model); throw PathEnd{}; }
	// abort-like event: allowed only if the harness declared it acceptable
	[[noreturn]] void abortEvent(const std::string& kind, const std::string& msg) {
		if (cur->abortOk) {
			N ok = subst(cur->abortOk);
			std::shared_ptr<Model> m;
			++asserts;
			if (!feasible(cx.notN(ok), &m)) { finishPath(false); throw PathEnd{}; }
			report(*cur, kind, "assertion fired for a valid input: " + msg, *m);
			throw PathEnd{};
		}
		fail(kind, msg);
	}
	// c must hold; if it can fail, report (and continue on the holding side)
	void require(N c, const std::string& kind, const std::string& msg) {
		c = subst(c);
		if (c->isTrue()) return;
		std::shared_ptr<Model> m;
		++memQueries;
		if (feasible(cx.notN(c), &m)) {
			report(*cur, kind, msg, *m);
			throw PathEnd{};
		}
	}

	// ---------------------------------------------------------------- memory
	ObjP* findObj(uint64_t a) {
		auto it = cur->mem.upper_bound(a);
		if (it == cur->mem.begin()) return nullptr;
		--it;
		if (a <= it->second->base + it->second->size) return &it->second;
		return nullptr;
	}
	Obj& writable(ObjP& p) { if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
	std::string describe(uint64_t a) {
		if (a < 4096) return "null pointer";
		if (a >= 0x200000000ull && a < cur->heapNext) return "heap address outside any live allocation (out of bounds or freed)";
		if (a >= 0x7f0000000000ull) return "stack address outside any live variable";
		return "invalid address";
	}
	struct Loc { ObjP* o; N off; };
	// resolve an address to an object with an in-bounds offset for 'size' bytes
	Loc resolve(N addr, uint64_t size, bool write) {
		addr = subst(addr);
		uint64_t a = addr->isConst() ? addr->u() : cur->model->eval(addr).getZExtValue();
		ObjP* o = nullptr;
		{ // prefer an object strictly containing a
			o = findObj(a);
		}
		if (!o || a + size > (*o)->base + (*o)->size) {
			if (addr->isConst() && size == 0) return Loc{nullptr, nullptr};
			fail("memory", std::string(write ? "write" : "read") + " of " + std::to_string(size) + " bytes at " + (o ? "offset " + std::to_string(a - (*o)->base) + " of a " + std::to_string((*o)->size) + "-byte object" : describe(a)));
		}
		uint64_t base = (*o)->base, osz = (*o)->size;
		if (write && (*o)->readonly) fail("memory", "write to constant " + (*o)->name);
		N off = subst(cx.sub(addr, cx.C(64, base)));
		if (!off->isConst()) {
			// all feasible addresses must be inside this object, else fork
			N in = cx.ule(off, cx.C(64, osz - size));
			if (!branch(in)) throw ForkOn{nullptr}; // re-execute with the model outside
			if (osz > 1024 * 64) throw ForkOn{off};
		}
		return Loc{o, off};
	}
	N byteAt(ObjP& p, uint64_t i) {
		if (p->b[i]) return p->b[i];
		Obj& o = writable(p);
		std::string nm = "uninit" + std::to_string(cur->uninit++);
		N& v = inputVars[nm]; if (!v) v = cx.newVar(nm, 8);
		return o.b[i] = v;
	}
	N readAt(ObjP& p, uint64_t off, unsigned bytes) {
		N r = nullptr;
		for (unsigned i = 0; i < bytes; ++i) { N b = byteAt(p, off + i); r = r ? cx.concat(b, r) : b; }
		return r;
	}
	N muxRead(ObjP& p, N idx, uint64_t lo, uint64_t n, unsigned stride, unsigned start, unsigned bytes) {
		// n entries starting at entry lo; idx selects (idx in [lo, lo+n))
		if (n == 1) return readAt(p, start + lo * stride, bytes);
		uint64_t half = 1; while (half * 2 < n) half *= 2;
		N c = cx.ult(idx, cx.C(idx->w, lo + half));
		N a = muxRead(p, idx, lo, half, stride, start, bytes), b = muxRead(p, idx, lo + half, n - half, stride, start, bytes);
		return cx.ite(c, a, b);
	}
	N loadInt(N addr, unsigned bytes) {
		Loc l = resolve(addr, bytes, false);
		if (l.off->isConst()) return readAt(*l.o, l.off->u(), bytes);
		unsigned t = std::min(3u, cx.tz(l.off)); unsigned stride = 1u << t;
		uint64_t n = ((*l.o)->size - bytes) / stride + 1;
		if (n > 2048) throw ForkOn{l.off};
		N idx = cx.lshr(l.off, cx.C(64, t));
		if (n <= 1) return readAt(*l.o, 0, bytes);
		if ((*l.o)->readonly == false && n > 512) throw ForkOn{l.off};
		unsigned ib = 1; while ((1ull << ib) < n) ++ib;
		return muxRead(*l.o, cx.extract(idx, 0, ib), 0, n, stride, 0, bytes);
	}
	void storeInt(N addr, N v, unsigned bytes) {
		Loc l = resolve(addr, bytes, true);
		if (v->w < bytes * 8) v = cx.zext(v, bytes * 8);
		if (l.off->isConst()) { Obj& o = writable(*l.o); uint64_t off = l.off->u(); for (unsigned i = 0; i < bytes; ++i) o.b[off + i] = cx.extract(v, i * 8, 8); return; }
		unsigned t = std::min(3u, cx.tz(l.off)); unsigned stride = 1u << t;
		uint64_t n = ((*l.o)->size - bytes) / stride + 1;
		if (n > 256) throw ForkOn{l.off};
		for (uint64_t k = 0; k < n; ++k) {
			N c = cx.eq(l.off, cx.C(64, k * stride));
			for (unsigned i = 0; i < bytes; ++i) {
				N old = (*l.o)->b[k * stride + i];
				N nv = cx.extract(v, i * 8, 8);
				if (!old) old = byteAt(*l.o, k * stride + i);
				writable(*l.o).b[k * stride + i] = cx.ite(c, nv, old);
			}
		}
	}
	Val load(Type* t, N addr) {
		if (auto* s = dyn_cast<StructType>(t)) {
			Val v; v.agg = std::make_shared<std::vector<Val>>(); auto* sl = DL.getStructLayout(s);
			for (unsigned i = 0; i < s->getNumElements(); ++i) v.agg->push_back(load(s->getElementType(i), cx.add(addr, cx.C(64, sl->getElementOffset(i)))));
			return v;
		}
		if (t->isArrayTy() || isa<FixedVectorType>(t)) {
			Type* e = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
			uint64_t n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(), es = DL.getTypeAllocSize(e);
			if (e->isIntegerTy() && e->getIntegerBitWidth() % 8) throw Unsupported{"vector of sub-byte elements in memory"};
			Val v; v.agg = std::make_shared<std::vector<Val>>();
			for (uint64_t i = 0; i < n; ++i) v.agg->push_back(load(e, cx.add(addr, cx.C(64, i * es))));
			return v;
		}
		unsigned w = bits(t), by = (w + 7) / 8;
		N x = loadInt(addr, by);
		return Val(cx.extract(x, 0, w));
	}
	void store(Type* t, N addr, const Val& v) {
		if (v.agg) {
			if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); ++i) store(s->getElementType(i), cx.add(addr, cx.C(64, sl->getElementOffset(i))), (*v.agg)[i]); return; }
			Type* e = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
			uint64_t es = DL.getTypeAllocSize(e);
			for (uint64_t i = 0; i < v.agg->size(); ++i) store(e, cx.add(addr, cx.C(64, i * es)), (*v.agg)[i]);
			return;
		}
		unsigned w = bits(t);
		storeInt(addr, v.n, (w + 7) / 8);
	}
	uint64_t newObj(OK kind, uint64_t size, uint64_t align, const std::string& name, uint8_t how = 0) {
		uint64_t& nx = kind == OK::Stack ? cur->stackNext : cur->heapNext;
		align = std::max<uint64_t>(align, 16);
		nx = (nx + align - 1) / align * align;
		auto o = std::make_shared<Obj>(); o->base = nx; o->size = size; o->kind = kind; o->name = name; o->how = how; o->b.assign(size, nullptr);
		cur->mem[nx] = o;
		uint64_t r = nx; nx += size + 48;
		return r;
	}
	void freeHeap(N p, uint8_t how, const char* what) {
		uint64_t a = conc(p);
		if (!a) return;
		auto it = cur->mem.find(a);
		if (it == cur->mem.end() || it->second->kind != OK::Heap) fail("memory", std::string(what) + " of an address that is not a live allocation (double free or invalid free)");
		if (it->second->how != how) fail("memory", std::string(what) + " does not match the allocation function");
		cur->mem.erase(it);
	}
	void copyMem(N dst, N src, uint64_t n) {
		if (n == 0) return;
		Loc s = resolve(src, n, false);
		if (!s.off->isConst()) throw ForkOn{s.off};
		std::vector<N> tmp((*s.o)->b.begin() + s.off->u(), (*s.o)->b.begin() + s.off->u() + n);
		Loc d = resolve(dst, n, true);
		if (!d.off->isConst()) throw ForkOn{d.off};
		Obj& o = writable(*d.o);
		std::copy(tmp.begin(), tmp.end(), o.b.begin() + d.off->u());
	}
	void setMem(N dst, N byte, uint64_t n) {
		if (n == 0) return;
		Loc d = resolve(dst, n, true);
		if (!d.off->isConst()) throw ForkOn{d.off};
		Obj& o = writable(*d.o);
		std::fill_n(o.b.begin() + d.off->u(), n, byte);
	}
	std::string cstr(N p) {
		std::string s; uint64_t a = conc(p);
		for (;;) { ObjP* o = findObj(a); if (!o || a >= (*o)->base + (*o)->size) break; N b = (*o)->b[a - (*o)->base]; if (!b || !b->isConst() || b->isZero()) break; s += (char)b->u(); ++a; }
		return s;
	}
	const char* intern(const std::string& s) { static std::set<std::string> pool; return pool.insert(s).first->c_str(); }

	// ---------------------------------------------------------------- control
	void jump(BasicBlock* to) {
		Frame& f = cur->st.back();
		BasicBlock* from = f.pc->getParent();
		visited.insert(to);
		std::vector<std::pair<const Value*, Val>> ph;
		for (auto& p : to->phis()) ph.push_back({&p, raw(p.getIncomingValueForBlock(from))});
		for (auto& x : ph) set(x.first, x.second);
		cur->st.back().prev = from;
		cur->st.back().pc = to->getFirstNonPHI();
	}
	void next() { Frame& f = cur->st.back(); f.pc = f.pc->getNextNode(); }
	void popFrame() {
		Frame& f = cur->st.back();
		for (auto a : f.allocas) cur->mem.erase(a);
		uint64_t fr = f.freeOnRet;
		cur->st.pop_back();
		if (fr) { cur->mem.erase(fr); cur->excs.erase(fr); }
	}
	void pushFrame(Function* F, const std::vector<Val>& args) {
		if (cur->st.size() > 400) fail("recursion", "call depth exceeds 400");
		Frame f; f.F = F; f.regs.resize(nslots.lookup(F));
		unsigned i = 0; for (auto& a : F->args()) { (void)a; f.regs[i] = args[i]; ++i; }
		f.pc = F->getEntryBlock().getFirstNonPHI();
		visited.insert(&F->getEntryBlock());
		cur->st.push_back(std::move(f));
	}
	// finish the call instruction of the top frame with a result
	void finishCall(Val v) {
		Frame& f = cur->st.back();
		Instruction* I = f.pc;
		if (!I->getType()->isVoidTy()) set(I, std::move(v));
		if (auto* inv = dyn_cast<InvokeInst>(I)) jump(inv->getNormalDest()); else next();
	}
	bool typeMatches(uint64_t thrown, uint64_t wanted, int depth = 0) {
		if (thrown == wanted) return true;
		if (depth > 8) return false;
		// walk __si_class_type_info: { vptr, name, base }
		auto it = cur->mem.find(thrown);
		if (it == cur->mem.end() || it->second->size < 24) return false;
		for (auto& G : M.globals()) if (gaddr[&G] == thrown && G.hasInitializer()) {
			auto* cs = dyn_cast<ConstantStruct>(G.getInitializer());
			if (cs && cs->getNumOperands() == 3) { Val b = constant(cs->getOperand(2)); return b.n && b.n->isConst() && typeMatches(b.n->u(), wanted, depth + 1); }
		}
		return false;
	}
	int selectorOf(uint64_t t) { return (int)(t & 0x7fffffff) | 1; }
	void unwind(uint64_t exc) {
		uint64_t ty = cur->excs.count(exc) ? cur->excs[exc].type : 0;
		// phase 1: is there a handler?
		bool handler = false;
		for (size_t i = cur->st.size(); i-- > 0 && !handler;) {
			auto* inv = dyn_cast<InvokeInst>(cur->st[i].pc);
			if (!inv) continue;
			auto* lp = inv->getLandingPadInst();
			for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
				if (!lp->isCatch(k)) { handler = true; break; }
				uint64_t want = constant(cast<Constant>(lp->getClause(k))).n->u();
				if (want == 0 || typeMatches(ty, want)) { handler = true; break; }
			}
		}
		if (!handler) fail("exception", "uncaught exception (std::terminate)" + (cur->lastMsg.empty() ? std::string() : ": " + cur->lastMsg));
		while (!cur->st.empty()) {
			Frame& f = cur->st.back();
			if (auto* inv = dyn_cast<InvokeInst>(f.pc)) {
				auto* lp = inv->getLandingPadInst();
				bool enter = lp->isCleanup(); int sel = 0;
				for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
					if (!lp->isCatch(k)) { auto* arr = lp->getClause(k); (void)arr; enter = true; sel = -1; break; }
					uint64_t want = constant(cast<Constant>(lp->getClause(k))).n->u();
					if (want == 0) { enter = true; sel = 0x7ffffffe; break; }
					if (typeMatches(ty, want)) { enter = true; sel = selectorOf(want); break; }
				}
				if (enter) {
					jump(inv->getUnwindDest());
					Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(cx.C(64, exc)); v.agg->push_back(cx.C(32, (uint32_t)sel));
					set(lp, v);
					cur->st.back().pc = lp->getNextNode();
					cur->curExc = exc;
					return;
				}
			}
			popFrame();
			if (cur->st.empty()) break;
		}
		fail("exception", "uncaught exception");
	}
	void throwForeign(const char* what, const char* tinfo) {
		cur->lastMsg = what;
		uint64_t t = 0x999;
		if (auto* g = M.getNamedGlobal(tinfo)) t = gaddr[g];
		uint64_t a = newObj(OK::Exc, 64, 16, "exception");
		for (auto& b : cur->mem[a]->b) b = cx.C(8, 0);
		cur->excs[a] = {a, t, 0};
		unwind(a);
	}
	void finishPath(bool normal) {
		++paths;
		if (traces.size() < traceMax || (paths % 97 == 0 && traces.size() < traceMax * 3)) {
			json::Array in, nt;
			for (auto n : cur->inputs) { SmallString<40> x; cur->model->eval(n).toString(x, 10, false); in.push_back(std::string(x.str())); }
			for (auto n : cur->notes) { SmallString<40> x; cur->model->eval(n).toString(x, 10, false); nt.push_back(std::string(x.str())); }
			traces.push_back(json::Object{{"inputs", std::move(in)}, {"notes", std::move(nt)}, {"normal", normal}});
		}
	}
	void endOfEntry() {
		if (cur->leakCheck) {
			unsigned n = 0; uint64_t sz = 0;
			for (auto& p : cur->mem) if (p.second->kind == OK::Heap) { ++n; sz += p.second->size; }
			if (n) fail("leak", std::to_string(n) + " heap block(s) leaked");
		}
		finishPath(true);
		throw PathEnd{};
	}

	// ---------------------------------------------------------------- helpers for builtins
	N input(const std::string& name, unsigned w) {
		if (spec) throw SpecFail{};
		std::string key = std::to_string(cur->inputs.size()) + "|" + name + "|" + std::to_string(w);
		N& v = inputVars[key];
		if (!v) v = cx.newVar(name, w);
		cur->inputs.push_back(v); cur->inputNames.push_back(intern(name));
		return v;
	}
	N popcnt(N x) {
		unsigned w = x->w; std::vector<N> v;
		unsigned rw = 1; while ((1u << rw) <= w) ++rw;
		for (unsigned i = 0; i < w; ++i) v.push_back(cx.zext(cx.extract(x, i, 1), rw));
		N r = v[0]; for (size_t i = 1; i < v.size(); ++i) r = cx.add(r, v[i]);
		v = {r};
		return w >= rw ? cx.zext(v[0], w) : cx.extract(v[0], 0, w);
	}
	N ctlz(N x) { unsigned w = x->w; N r = cx.C(w, w); for (unsigned i = 0; i < w; ++i) r = cx.ite(cx.extract(x, i, 1), cx.C(w, w - 1 - i), r); return r; }
	N cttz(N x) { unsigned w = x->w; N r = cx.C(w, w); for (unsigned i = w; i-- > 0;) r = cx.ite(cx.extract(x, i, 1), cx.C(w, i), r); return r; }
	N icmp(CmpInst::Predicate p, N a, N b) {
		switch (p) {
			case CmpInst::ICMP_EQ: return cx.eq(a, b); case CmpInst::ICMP_NE: return cx.notN(cx.eq(a, b));
			case CmpInst::ICMP_ULT: return cx.ult(a, b); case CmpInst::ICMP_ULE: return cx.ule(a, b);
			case CmpInst::ICMP_UGT: return cx.ult(b, a); case CmpInst::ICMP_UGE: return cx.ule(b, a);
			case CmpInst::ICMP_SLT: return cx.slt(a, b); case CmpInst::ICMP_SLE: return cx.sle(a, b);
			case CmpInst::ICMP_SGT: return cx.slt(b, a); case CmpInst::ICMP_SGE: return cx.sle(b, a);
			default: throw Unsupported{"icmp"};
		}
	}
	N fcmp(CmpInst::Predicate p, N a, N b) {
		N uno = cx.mk(FUno, 1, 0, a, b), ord = cx.notN(uno);
		N e = cx.mk(FEq, 1, 0, a, b), l = cx.mk(FLt, 1, 0, a, b), le = cx.mk(FLe, 1, 0, a, b), g = cx.mk(FLt, 1, 0, b, a), ge = cx.mk(FLe, 1, 0, b, a);
		auto O = [&](N x) { return cx.bitop(Or, uno, x); };
		switch (p) {
			case CmpInst::FCMP_FALSE: return cx.B(false); case CmpInst::FCMP_TRUE: return cx.B(true);
			case CmpInst::FCMP_ORD: return ord; case CmpInst::FCMP_UNO: return uno;
			case CmpInst::FCMP_OEQ: return e; case CmpInst::FCMP_UEQ: return O(e);
			case CmpInst::FCMP_OLT: return l; case CmpInst::FCMP_ULT: return O(l);
			case CmpInst::FCMP_OLE: return le; case CmpInst::FCMP_ULE: return O(le);
			case CmpInst::FCMP_OGT: return g; case CmpInst::FCMP_UGT: return O(g);
			case CmpInst::FCMP_OGE: return ge; case CmpInst::FCMP_UGE: return O(ge);
			case CmpInst::FCMP_ONE: return cx.bitop(And, ord, cx.notN(e)); case CmpInst::FCMP_UNE: return cx.notN(e);
			default: throw Unsupported{"fcmp"};
		}
	}
	N fabsN(N x) { return cx.bitop(And, x, cx.C(APInt::getSignedMaxValue(x->w))); }
	template<typename F> Val mapV(Type* t, const Val& a, const Val& b, F f) {
		if (a.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(mapV(t, (*a.agg)[i], b.agg ? (*b.agg)[i] : b, f)); return r; }
		return Val(f(a.n, b.n));
	}
#include "exec.inc"

	// ---------------------------------------------------------------- main loop
	void runEntry(Function* F) {
		auto start = [&] {
		cur = std::make_unique<State>();
		cur->mem = globals; cur->model = std::make_shared<Model>();
		// static constructors first
		std::vector<Function*> ctors;
		if (auto* g = M.getNamedGlobal("llvm.global_ctors")) if (g->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(g->getInitializer()))
			for (auto& e : arr->operands()) if (auto* s = dyn_cast<ConstantStruct>(e)) if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
		pushFrame(F, {});
		cur->st.back().rootCall = true;
		for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) if (!(*it)->isDeclaration()) { pushFrame(*it, {}); cur->st.back().rootCall = true; }
		work.clear();
		work.push_back(std::move(cur));
		};
		if (getenv("NZSYM_MERGE")) merging = true;
		start();
		unsigned tick = 0;
		while (!work.empty()) {
			cur = std::move(work.back()); work.pop_back();
			try {
				for (;;) {
					if ((++tick & 0x3ff) == 0 && elapsed() > timeLimit) { status = "incomplete"; why = "time limit"; return; }
					if (!merging && (paths > mergeAfterPaths || ((tick & 0x3ff) == 0 && elapsed() > mergeAfterTime && paths > 1000)) && viols.empty()) throw Widen{};
					if (++cur->steps > maxSteps) { fail("nontermination", "no end of the path after " + std::to_string(maxSteps) + " instructions"); }
					++steps;
					try { step(); }
					catch (ForkOn& f) { if (f.n) forkValues(f.n); }
				}
			} catch (PathEnd&) {
			} catch (Widen&) { // start again, merging
				merging = true; paths = 0; traces.clear(); work.clear(); cur.reset();
				start(); continue;
			} catch (Unsupported& u) {
				status = "unsupported"; why = u.what + " at " + (cur->st.empty() ? std::string("?") : locOf(cur->st.back().pc) + " in " + demangle(cur->st.back().F->getName().str()));
				return;
			}
			cur.reset();
			if (paths > maxPaths) { status = "incomplete"; why = "path limit"; return; }
			if (!viols.empty()) { if (firstViol < 0) firstViol = elapsed(); else if (elapsed() > firstViol + 30) { status = "stopped"; why = "violation found"; return; } }
			if (viols.size() >= maxViol) { status = "stopped"; why = "violation limit"; return; }
		}
	}
	json::Object result() {
		std::map<std::string, std::set<unsigned>> lines; std::map<std::string, std::set<std::string>> fns;
		for (auto* bb : visited) for (auto& i : *bb) if (auto& d = i.getDebugLoc()) {
			const DILocation* l = d.get();
			while (l) {
				std::string fn = l->getFilename().str();
				auto p = fn.rfind("NazaraUtils/");
				if (p != std::string::npos) {
					lines[fn.substr(p)].insert(l->getLine());
					if (auto* sp = l->getScope()->getSubprogram()) fns[fn.substr(p)].insert(sp->getName().str());
				}
				l = l->getInlinedAt();
			}
		}
		json::Object jl, jf;
		for (auto& p : lines) { json::Array a; for (auto x : p.second) a.push_back(x); jl[p.first] = std::move(a); }
		for (auto& p : fns) { json::Array a; for (auto& x : p.second) a.push_back(x); jf[p.first] = std::move(a); }
		json::Array vs;
		for (auto& v : viols) vs.push_back(json::Object{{"kind", v.kind}, {"msg", v.msg}, {"loc", v.loc}, {"trace", json::Array(v.trace)}, {"inputs", json::Array(v.inputs)}, {"names", json::Array(v.names)}});
		json::Object as; for (auto& p : assertSites) as[p.first] = p.second;
		json::Object rc; for (auto& p : reach) rc[p.first] = p.second;
		json::Array dm; for (auto& d : S.dumps) dm.push_back(json::Array{d.first, d.second});
		return json::Object{{"status", status}, {"why", why}, {"paths", paths}, {"steps", steps}, {"forks", forks}, {"merging", merging}, {"merges", merges}, {"merge_failures", mergeFails}, {"asserts", asserts}, {"asserts_folded", assertsTrivial}, {"assumes", assumes}, {"safety_queries", memQueries},
			{"max_path_constraints", maxDepth}, {"queries", S.st.queries}, {"sat", S.st.sat}, {"unsat", S.st.unsat}, {"unknown", S.st.unknown}, {"external_queries", S.st.external}, {"solver_s", S.st.time}, {"max_query_s", S.st.maxTime}, {"wall_s", elapsed()},
			{"nodes", (int64_t)cx.nextId}, {"sym_vars", (int64_t)cx.vars.size()}, {"uses_fp", cx.usesFP}, {"violations", std::move(vs)}, {"lines", std::move(jl)}, {"functions", std::move(jf)}, {"assert_sites", std::move(as)}, {"reach", std::move(rc)}, {"traces", json::Array(traces)}, {"dumps", std::move(dm)}};
	}
};

struct Args { std::string bc, entry, out, dump; unsigned dumpEvery = 0; double time = 300; uint64_t steps = 4000000; unsigned viol = 4, full = 60000, quick = 4000, traces = 6; };
Args A;
int rc = 0;

void* mainThread(void*) {
	LLVMContext C;
	auto mb = MemoryBuffer::getFile(A.bc);
	if (!mb) { errs() << "cannot read " << A.bc << "\n"; rc = 2; return nullptr; }
	auto m = parseBitcodeFile(**mb, C);
	if (!m) { errs() << "cannot parse " << A.bc << "\n"; rc = 2; return nullptr; }
	Module& M = **m;
	Function* F = M.getFunction(A.entry);
	if (!F || F->isDeclaration()) { errs() << "no entry " << A.entry << "\n"; rc = 2; return nullptr; }
	Engine* E = new Engine(M);
	E->timeLimit = A.time; E->maxSteps = A.steps; E->maxViol = A.viol; E->traceMax = A.traces;
	E->S.fullMs = A.full; E->S.quickMs = A.quick; E->S.setTimeout(E->S.inc, A.quick);
	if (A.dumpEvery) { E->S.dumpDir = A.dump; E->S.dumpEvery = A.dumpEvery; }
	try { E->setup(); E->runEntry(F); }
	catch (Unsupported& u) { E->status = "unsupported"; E->why = u.what; }
	catch (PathEnd&) { }
	json::Object o = E->result(); o["entry"] = A.entry;
	std::string s; raw_string_ostream os(s); os << json::Value(std::move(o)); os.flush();
	if (A.out.empty()) outs() << s << "\n"; else std::ofstream(A.out) << s;
	return nullptr;
}
} // namespace

int main(int argc, char** argv) {
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--entry") A.entry = nx(); else if (a == "--out") A.out = nx(); else if (a == "--time") A.time = atof(nx().c_str());
		else if (a == "--steps") A.steps = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") A.viol = atoi(nx().c_str());
		else if (a == "--full-ms") A.full = atoi(nx().c_str()); else if (a == "--quick-ms") A.quick = atoi(nx().c_str());
		else if (a == "--dump") A.dump = nx(); else if (a == "--dump-every") A.dumpEvery = atoi(nx().c_str()); else if (a == "--traces") A.traces = atoi(nx().c_str());
		else A.bc = a;
	}
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, size_t(2) << 30);
	pthread_t t; pthread_create(&t, &at, mainThread, nullptr); pthread_join(t, nullptr);
	fflush(stdout);
	_exit(rc);
}
