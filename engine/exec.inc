	// included inside struct Engine
	void step() {
		Instruction* I = cur->st.back().pc;
		switch (I->getOpcode()) {
			case Instruction::Ret: {
				Val v; if (I->getNumOperands()) v = get(I->getOperand(0));
				bool root = cur->st.back().rootCall;
				popFrame();
				if (root) { if (cur->st.empty()) endOfEntry(); return; }
				finishCall(v);
				return;
			}
			case Instruction::Br: {
				auto* b = cast<BranchInst>(I);
				if (b->isUnconditional()) { jump(b->getSuccessor(0)); return; }
				N c = getN(b->getCondition());
				if (merging && tryMerge(b, c)) return;
				bool t = branch(c);
				jump(b->getSuccessor(t ? 0 : 1));
				return;
			}
			case Instruction::Switch: {
				auto* s = cast<SwitchInst>(I);
				N c = getN(s->getCondition());
				if (c->isConst()) {
					for (auto& k : s->cases()) if (k.getCaseValue()->getValue() == c->c) { jump(k.getCaseSuccessor()); return; }
					jump(s->getDefaultDest()); return;
				}
				for (auto& k : s->cases()) if (branch(cx.eq(c, cx.C(k.getCaseValue()->getValue())))) { jump(k.getCaseSuccessor()); return; }
				jump(s->getDefaultDest());
				return;
			}
			case Instruction::Unreachable: fail("ub", "unreachable code reached");
			case Instruction::Invoke: case Instruction::Call: doCall(cast<CallBase>(I)); return;
			case Instruction::Resume: {
				Val v = get(I->getOperand(0));
				unwindFromResume((*v.agg)[0].n->u());
				return;
			}
			case Instruction::Alloca: {
				auto* a = cast<AllocaInst>(I);
				uint64_t n = conc(getN(a->getArraySize()));
				uint64_t sz = DL.getTypeAllocSize(a->getAllocatedType()) * n;
				uint64_t p = newObj(OK::Stack, sz, a->getAlign().value(), a->hasName() ? a->getName().str() : "local");
				cur->st.back().allocas.push_back(p);
				set(I, Val(cx.C(64, p))); next(); return;
			}
			case Instruction::Load: { Val v = load(I->getType(), getN(I->getOperand(0))); set(I, v); next(); return; }
			case Instruction::Store: { store(I->getOperand(0)->getType(), getN(I->getOperand(1)), get(I->getOperand(0))); next(); return; }
			case Instruction::GetElementPtr: {
				auto* g = cast<GetElementPtrInst>(I);
				if (g->getType()->isVectorTy()) throw Unsupported{"vector gep"};
				N p = getN(g->getPointerOperand());
				for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
					Value* ix = it.getOperand();
					if (auto* st = it.getStructTypeOrNull()) p = cx.add(p, cx.C(64, DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue())));
					else {
						uint64_t es = DL.getTypeAllocSize(it.getIndexedType());
						N i = getN(ix);
						i = i->w < 64 ? cx.sext(i, 64) : cx.extract(i, 0, 64);
						p = cx.add(p, cx.mul(i, cx.C(64, es)));
					}
				}
				set(I, Val(p)); next(); return;
			}
			case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); Val a = get(c->getOperand(0)), b = get(c->getOperand(1)); auto p = c->getPredicate(); set(I, mapV(nullptr, a, b, [&](N x, N y) { return icmp(p, x, y); })); next(); return; }
			case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); Val a = get(c->getOperand(0)), b = get(c->getOperand(1)); auto p = c->getPredicate(); set(I, mapV(nullptr, a, b, [&](N x, N y) { return fcmp(p, x, y); })); next(); return; }
			case Instruction::Select: {
				Val c = get(I->getOperand(0)), a = get(I->getOperand(1)), b = get(I->getOperand(2));
				if (c.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < c.agg->size(); ++i) r.agg->push_back(Val(cx.ite((*c.agg)[i].n, (*a.agg)[i].n, (*b.agg)[i].n))); set(I, r); next(); return; }
				N cn = c.n;
				if (a.agg) { bool t = branch(cn); set(I, t ? a : b); next(); return; }
				set(I, Val(cx.ite(cn, a.n, b.n))); next(); return;
			}
			case Instruction::PHI: throw Unsupported{"phi in the middle of a block"};
			case Instruction::ExtractValue: {
				auto* e = cast<ExtractValueInst>(I); Val v = get(e->getAggregateOperand());
				for (unsigned i : e->indices()) { Val x = (*v.agg)[i]; v = x; }
				set(I, v); next(); return;
			}
			case Instruction::InsertValue: {
				auto* e = cast<InsertValueInst>(I); Val v = get(e->getAggregateOperand()), x = get(e->getInsertedValueOperand());
				set(I, insertAt(v, e->getIndices(), 0, x)); next(); return;
			}
			case Instruction::ExtractElement: {
				Val v = get(I->getOperand(0)); uint64_t i = conc(getN(I->getOperand(1)));
				if (i >= v.agg->size()) fail("ub", "vector index out of range");
				Val x = (*v.agg)[i]; set(I, x); next(); return;
			}
			case Instruction::InsertElement: {
				Val v = get(I->getOperand(0)); Val x = get(I->getOperand(1)); uint64_t i = conc(getN(I->getOperand(2)));
				if (i >= v.agg->size()) fail("ub", "vector index out of range");
				Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[i] = x; set(I, r); next(); return;
			}
			case Instruction::ShuffleVector: {
				auto* s = cast<ShuffleVectorInst>(I); Val a = get(s->getOperand(0)), b = get(s->getOperand(1));
				Val r; r.agg = std::make_shared<std::vector<Val>>();
				for (int m : s->getShuffleMask()) r.agg->push_back(m < 0 ? (*a.agg)[0] : (size_t)m < a.agg->size() ? (*a.agg)[m] : (*b.agg)[m - a.agg->size()]);
				set(I, r); next(); return;
			}
			case Instruction::Freeze: { Val v = get(I->getOperand(0)); set(I, v); next(); return; }
			case Instruction::FNeg: { Val v = get(I->getOperand(0)); set(I, Val(cx.bitop(Xor, v.n, cx.C(APInt::getSignMask(v.n->w))))); next(); return; }
			case Instruction::Fence: next(); return;
			case Instruction::AtomicRMW: {
				auto* a = cast<AtomicRMWInst>(I); N p = getN(a->getPointerOperand()), v = getN(a->getValOperand());
				N old = load(a->getType(), p).n, nv;
				switch (a->getOperation()) {
					case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = cx.add(old, v); break; case AtomicRMWInst::Sub: nv = cx.sub(old, v); break;
					case AtomicRMWInst::And: nv = cx.bitop(And, old, v); break; case AtomicRMWInst::Or: nv = cx.bitop(Or, old, v); break; case AtomicRMWInst::Xor: nv = cx.bitop(Xor, old, v); break;
					default: throw Unsupported{"atomicrmw"};
				}
				store(a->getType(), p, Val(nv)); set(I, Val(old)); next(); return;
			}
			case Instruction::AtomicCmpXchg: {
				auto* a = cast<AtomicCmpXchgInst>(I); N p = getN(a->getPointerOperand()), c = getN(a->getCompareOperand()), v = getN(a->getNewValOperand());
				Type* t = a->getCompareOperand()->getType();
				N old = load(t, p).n; N e = cx.eq(old, c);
				store(t, p, Val(cx.ite(e, v, old)));
				Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(Val(old)); r.agg->push_back(Val(e)); set(I, r); next(); return;
			}
			case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
			case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
				Val v = get(I->getOperand(0)); set(I, castV(I->getOpcode(), I->getOperand(0)->getType(), I->getType(), v)); next(); return;
			}
			default: break;
		}
		if (auto* b = dyn_cast<BinaryOperator>(I)) {
			Val a = get(b->getOperand(0)), c = get(b->getOperand(1));
			Instruction::BinaryOps op = b->getOpcode();
			if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem)
				if (c.n) require(cx.notN(cx.eq(c.n, cx.C(c.n->w, 0))), "ub", "division by zero");
			set(I, mapV(nullptr, a, c, [&](N x, N y) { return binop(op, x, y); })); next(); return;
		}
		throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
	}
	N binop(Instruction::BinaryOps op, N x, N y) {
		switch (op) {
			case Instruction::Add: return cx.add(x, y); case Instruction::Sub: return cx.sub(x, y); case Instruction::Mul: return cx.mul(x, y);
			case Instruction::UDiv: return cx.udiv(x, y); case Instruction::SDiv: return cx.bin(sx::SDiv, x, y); case Instruction::URem: return cx.urem(x, y); case Instruction::SRem: return cx.bin(sx::SRem, x, y);
			case Instruction::And: return cx.bitop(sx::And, x, y); case Instruction::Or: return cx.bitop(sx::Or, x, y); case Instruction::Xor: return cx.bitop(sx::Xor, x, y);
			case Instruction::Shl: return cx.shl(x, y); case Instruction::LShr: return cx.lshr(x, y); case Instruction::AShr: return cx.ashr(x, y);
			case Instruction::FAdd: if (x->id > y->id) std::swap(x, y); return cx.mk(sx::FAdd, x->w, 0, x, y);
			case Instruction::FSub: // a - b and b - a share one subtraction: they differ by the sign, except that both are +0 for equal operands
				if (x->id > y->id && !x->isConst() && !y->isConst()) return cx.ite(cx.mk(sx::FEq, 1, 0, x, y), cx.C(APInt(x->w, 0)), cx.bitop(sx::Xor, cx.mk(sx::FSub, x->w, 0, y, x), cx.C(APInt::getSignMask(x->w))));
				return cx.mk(sx::FSub, x->w, 0, x, y);
			case Instruction::FMul: if (x->id > y->id) std::swap(x, y); return cx.mk(sx::FMul, x->w, 0, x, y); case Instruction::FDiv: return cx.mk(sx::FDiv, x->w, 0, x, y);
			default: throw Unsupported{"binary operator"};
		}
	}
	Val castV(unsigned op, Type* from, Type* to, const Val& v) {
		if (v.agg) {
			if (op == Instruction::BitCast) { // vector -> scalar or vector
				N all = nullptr; for (auto& e : *v.agg) all = all ? cx.concat(e.n, all) : e.n;
				if (auto* vt = dyn_cast<FixedVectorType>(to)) { unsigned w = bits(vt->getElementType()); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); ++i) r.agg->push_back(Val(cx.extract(all, i * w, w))); return r; }
				return Val(all);
			}
			Type* te = cast<FixedVectorType>(to)->getElementType(); Type* fe = cast<FixedVectorType>(from)->getElementType();
			Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto& e : *v.agg) r.agg->push_back(castV(op, fe, te, e)); return r;
		}
		if (auto* vt = dyn_cast<FixedVectorType>(to)) { unsigned w = bits(vt->getElementType()); Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); ++i) r.agg->push_back(Val(cx.extract(v.n, i * w, w))); return r; }
		unsigned w = bits(to); N x = v.n;
		switch (op) {
			case Instruction::Trunc: return Val(cx.extract(x, 0, w));
			case Instruction::ZExt: return Val(cx.zext(x, w)); case Instruction::SExt: return Val(cx.sext(x, w));
			case Instruction::PtrToInt: case Instruction::IntToPtr: return Val(w <= x->w ? cx.extract(x, 0, w) : cx.zext(x, w));
			case Instruction::BitCast: case Instruction::AddrSpaceCast: return v;
			case Instruction::FPToSI: return Val(cx.mk(FToS, w, 0, x)); case Instruction::FPToUI: return Val(cx.mk(FToU, w, 0, x));
			case Instruction::SIToFP: return Val(cx.mk(SToF, w, 0, x)); case Instruction::UIToFP: return Val(cx.mk(UToF, w, 0, x));
			case Instruction::FPExt: return Val(cx.mk(FExt, w, 0, x)); case Instruction::FPTrunc: return Val(cx.mk(FTrunc, w, 0, x));
		}
		throw Unsupported{"cast"};
	}
	Val insertAt(const Val& v, ArrayRef<unsigned> idx, unsigned k, const Val& x) {
		if (k == idx.size()) return x;
		Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg);
		(*r.agg)[idx[k]] = insertAt((*v.agg)[idx[k]], idx, k + 1, x);
		return r;
	}
	void unwindFromResume(uint64_t exc) { popFrame(); if (cur->st.empty()) fail("exception", "uncaught exception"); unwind(exc); }

	void doCall(CallBase* cb) {
		Function* F = cb->getCalledFunction();
		if (!F) {
			if (cb->isInlineAsm()) {
				auto* ia = cast<InlineAsm>(cb->getCalledOperand());
				if (ia->getAsmString().empty()) { finishCall(Val()); return; }
				if (ia->getAsmString().find("int") == 0 || ia->getAsmString().find("int $$") != std::string::npos) abortEvent("assert", cur->lastMsg.empty() ? "debug break" : cur->lastMsg);
				throw Unsupported{"inline assembly " + ia->getAsmString()};
			}
			if (auto* a = dyn_cast<GlobalAlias>(cb->getCalledOperand())) F = dyn_cast<Function>(a->getAliaseeObject());
		}
		if (!F) {
			uint64_t a = conc(getN(cb->getCalledOperand()));
			auto it = faddr.find(a);
			if (it == faddr.end()) fail("memory", "call through an invalid function pointer (" + describe(a) + ")");
			F = it->second;
		}
		if (F->isIntrinsic()) { intrinsic(cb, F); return; }
		std::vector<Val> args;
		for (unsigned i = 0; i < cb->arg_size(); ++i) { auto* v = cb->getArgOperand(i); if (v->getType()->isMetadataTy()) { args.push_back(Val()); continue; } args.push_back(get(v)); }
		if (!F->isDeclaration()) {
			StringRef nm = F->getName();
			if (nm.starts_with("sym_")) { external(cb, F, args); return; }
			std::vector<uint64_t> copies;
			for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->paramHasAttr(i, Attribute::ByVal)) {
				Type* t = cb->getParamByValType(i); uint64_t sz = DL.getTypeAllocSize(t);
				uint64_t p = newObj(OK::Stack, sz, 16, "byval"); copyMem(cx.C(64, p), args[i].n, sz); args[i] = Val(cx.C(64, p)); copies.push_back(p);
			}
			args.resize(F->arg_size());
			pushFrame(F, args);
			for (auto p : copies) cur->st.back().allocas.push_back(p);
			return;
		}
		external(cb, F, args);
	}
	Val pair(N a, N b) { Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(Val(a)); r.agg->push_back(Val(b)); return r; }
	N minmax(Intrinsic::ID id, N a, N b) {
		switch (id) { case Intrinsic::umin: return cx.ite(cx.ult(a, b), a, b); case Intrinsic::umax: return cx.ite(cx.ult(a, b), b, a); case Intrinsic::smin: return cx.ite(cx.slt(a, b), a, b); default: return cx.ite(cx.slt(a, b), b, a); }
	}
	// upper bounds on the significant bits of a value, as an unsigned and as a signed number
	unsigned ubits(N n, int d = 6) {
		unsigned w = n->w; if (n->isConst()) return n->c.getActiveBits(); if (!d) return w; auto cap = [&](unsigned x) { return std::min(x, w); };
		switch (n->op) {
			case ZExt: return ubits(n->k[0], d - 1);
			case And: return std::min(ubits(n->k[0], d - 1), ubits(n->k[1], d - 1));
			case Or: case Xor: return std::max(ubits(n->k[0], d - 1), ubits(n->k[1], d - 1));
			case Ite: return std::max(ubits(n->k[1], d - 1), ubits(n->k[2], d - 1));
			case Add: return cap(std::max(ubits(n->k[0], d - 1), ubits(n->k[1], d - 1)) + 1);
			case Mul: return cap(ubits(n->k[0], d - 1) + ubits(n->k[1], d - 1));
			case UDiv: return n->k[1]->isConst() && !n->k[1]->isZero() ? ubits(n->k[0], d - 1) : w;
			case LShr: { unsigned x = ubits(n->k[0], d - 1); return n->k[1]->isConst() ? (n->k[1]->c.uge(x) ? 0 : x - (unsigned)n->k[1]->u()) : x; }
			default: return w;
		}
	}
	unsigned sbits(N n, int d = 6) {
		unsigned w = n->w; if (n->isConst()) return n->c.getSignificantBits(); if (!d) return w; unsigned r = w, u = ubits(n, d) + 1;
		switch (n->op) {
			case SExt: r = sbits(n->k[0], d - 1); break;
			case Ite: r = std::max(sbits(n->k[1], d - 1), sbits(n->k[2], d - 1)); break;
			case Add: case Sub: r = std::max(sbits(n->k[0], d - 1), sbits(n->k[1], d - 1)) + 1; break;
			case Mul: r = sbits(n->k[0], d - 1) + sbits(n->k[1], d - 1); break;
			case AShr: r = sbits(n->k[0], d - 1); break;
			default: break;
		}
		return std::min(std::min(r, u), w);
	}
	// does x * y leave w bits? Partial products above the width, plus one extra bit of the product itself
	N mulOverflow(N x, N y, bool sign) {
		unsigned w = x->w, n = sign ? w - 1 : w; N a = x, b = y;
		if (sign) { a = cx.bitop(Xor, x, cx.sext(cx.extract(x, w - 1, 1), w)); b = cx.bitop(Xor, y, cx.sext(cx.extract(y, w - 1, 1), w)); }
		N flag = cx.B(false), top = cx.extract(a, n - 1, 1);
		for (unsigned i = 1; i < n; ++i) { flag = cx.bitop(Or, flag, cx.bitop(And, top, cx.extract(b, i, 1))); top = cx.bitop(Or, top, cx.extract(a, n - 1 - i, 1)); }
		N m = sign ? cx.mul(cx.sext(x, w + 1), cx.sext(y, w + 1)) : cx.mul(cx.zext(x, w + 1), cx.zext(y, w + 1));
		N last = cx.extract(m, w, 1); if (sign) last = cx.bitop(Xor, last, cx.extract(m, w - 1, 1));
		return cx.bitop(Or, flag, last);
	}
	Val ovf(Intrinsic::ID id, N a, N b) {
		unsigned w = a->w; N no = cx.B(false);
		auto S = [&](N x, unsigned n) { return cx.sext(x, n); }; auto U = [&](N x, unsigned n) { return cx.zext(x, n); };
		switch (id) {
			case Intrinsic::uadd_with_overflow: { N r = cx.add(a, b); return pair(r, std::max(ubits(a), ubits(b)) < w ? no : cx.ult(r, a)); }
			case Intrinsic::usub_with_overflow: return pair(cx.sub(a, b), cx.ult(a, b));
			case Intrinsic::umul_with_overflow: {
				N r = cx.mul(a, b); if (ubits(a) + ubits(b) <= w) return pair(r, no); if (w >= 32 && !a->isConst() && !b->isConst()) return pair(r, mulOverflow(a, b, false));
				N m = cx.mul(U(a, 2 * w), U(b, 2 * w)); return pair(r, cx.notN(cx.eq(cx.extract(m, w, w), cx.C(w, 0)))); }
			case Intrinsic::sadd_with_overflow: { N r = cx.add(a, b); if (std::max(sbits(a), sbits(b)) < w) return pair(r, no); N m = cx.add(S(a, w + 1), S(b, w + 1)); return pair(r, cx.notN(cx.eq(m, S(r, w + 1)))); }
			case Intrinsic::ssub_with_overflow: { N r = cx.sub(a, b); if (std::max(sbits(a), sbits(b)) < w) return pair(r, no); N m = cx.sub(S(a, w + 1), S(b, w + 1)); return pair(r, cx.notN(cx.eq(m, S(r, w + 1)))); }
			default: {
				N r = cx.mul(a, b); if (sbits(a) + sbits(b) <= w) return pair(r, no); if (w >= 32 && !a->isConst() && !b->isConst()) return pair(r, mulOverflow(a, b, true));
				N m = cx.mul(S(a, 2 * w), S(b, 2 * w)); return pair(r, cx.notN(cx.eq(m, S(r, 2 * w)))); }
		}
	}
	void intrinsic(CallBase* cb, Function* F) {
		auto id = F->getIntrinsicID();
		auto A = [&](unsigned i) { return getN(cb->getArgOperand(i)); };
		auto V = [&](unsigned i) { return get(cb->getArgOperand(i)); };
		switch (id) {
			case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_end: case Intrinsic::lifetime_start:
			case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
				finishCall(cx.C(64, 0)); return;
			case Intrinsic::stacksave: finishCall(cx.C(64, 0)); return;
			case Intrinsic::assume: require(A(0), "ub", "an assumption given to the compiler is false"); finishCall(Val()); return;
			case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address:
				finishCall(V(0)); return;
			case Intrinsic::is_constant: finishCall(Val(cx.B(false))); return;
			case Intrinsic::objectsize: finishCall(Val(cx.C(APInt::getAllOnes(bits(cb->getType()))))); return;
			case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = conc(A(2)); copyMem(A(0), A(1), n); finishCall(Val()); return; }
			case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = conc(A(2)); setMem(A(0), A(1), n); finishCall(Val()); return; }
			case Intrinsic::trap: abortEvent("abort", cur->lastMsg.empty() ? "trap" : cur->lastMsg);
			case Intrinsic::debugtrap: abortEvent("assert", cur->lastMsg.empty() ? "debug break" : cur->lastMsg);
			case Intrinsic::ubsantrap: {
				static const char* k[] = {"signed addition overflow", "unreachable code reached", "cfi", "division overflow or division by zero", "dynamic type", "float to integer conversion out of range", "function type", "implicit conversion", "invalid builtin argument", "objc", "invalid bool/enum value loaded", "missing return", "signed multiplication overflow", "negation overflow", "nonnull", "nonnull", "nonnull", "nonnull", "index out of bounds", "pointer overflow", "shift exponent out of range", "signed subtraction overflow", "null or misaligned access", "alignment", "vla"};
				uint64_t i = A(0)->u(); fail("ub", i < 25 ? k[i] : "undefined behaviour");
			}
			case Intrinsic::ctpop: { Val a = V(0); finishCall(mapV(nullptr, a, a, [&](N x, N) { return popcnt(x); })); return; }
			case Intrinsic::ctlz: { N x = A(0); finishCall(Val(ctlz(x))); return; }
			case Intrinsic::cttz: { N x = A(0); finishCall(Val(cttz(x))); return; }
			case Intrinsic::bswap: { N x = A(0), r = nullptr; for (unsigned i = 0; i < x->w; i += 8) { N b = cx.extract(x, i, 8); r = r ? cx.concat(r, b) : b; } finishCall(Val(r)); return; }
			case Intrinsic::bitreverse: { N x = A(0), r = nullptr; for (unsigned i = 0; i < x->w; ++i) { N b = cx.extract(x, i, 1); r = r ? cx.concat(r, b) : b; } finishCall(Val(r)); return; }
			case Intrinsic::fshl: case Intrinsic::fshr: {
				N a = A(0), b = A(1), s = A(2); unsigned w = a->w;
				N cc = cx.concat(a, b), sh = cx.zext(cx.urem(s, cx.C(w, w)), 2 * w);
				finishCall(Val(id == Intrinsic::fshl ? cx.extract(cx.shl(cc, sh), w, w) : cx.extract(cx.lshr(cc, sh), 0, w))); return;
			}
			case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { Val a = V(0), b = V(1); finishCall(mapV(nullptr, a, b, [&](N x, N y) { return minmax(id, x, y); })); return; }
			case Intrinsic::abs: { N x = A(0); finishCall(Val(cx.ite(cx.slt(x, cx.C(x->w, 0)), cx.sub(cx.C(x->w, 0), x), x))); return; }
			case Intrinsic::usub_sat: { N a = A(0), b = A(1); finishCall(Val(cx.ite(cx.ult(a, b), cx.C(a->w, 0), cx.sub(a, b)))); return; }
			case Intrinsic::uadd_sat: { N a = A(0), b = A(1); N r = cx.add(a, b); finishCall(Val(cx.ite(cx.ult(r, a), cx.C(APInt::getAllOnes(a->w)), r))); return; }
			case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
				finishCall(ovf(id, A(0), A(1))); return;
			case Intrinsic::fabs: finishCall(Val(fabsN(A(0)))); return;
			case Intrinsic::copysign: { N a = A(0), b = A(1); unsigned w = a->w; finishCall(Val(cx.concat(cx.extract(b, w - 1, 1), cx.extract(a, 0, w - 1)))); return; }
			case Intrinsic::sqrt: { N a = A(0); finishCall(Val(cx.mk(FSqrt, a->w, 0, a))); return; }
			case Intrinsic::fma: { N a = A(0); finishCall(Val(cx.mk(FFma, a->w, 0, a, A(1), A(2)))); return; }
			case Intrinsic::fmuladd: { N a = A(0), m = cx.mk(FMul, a->w, 0, a, A(1)); finishCall(Val(cx.mk(FAdd, a->w, 0, m, A(2)))); return; }
			case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: { N a = A(0); finishCall(Val(cx.mk(FRint, a->w, 0, a))); return; }
			case Intrinsic::round: { N a = A(0); finishCall(Val(cx.mk(FRint, a->w, 1, a))); return; }
			case Intrinsic::ceil: { N a = A(0); finishCall(Val(cx.mk(FRint, a->w, 2, a))); return; }
			case Intrinsic::floor: { N a = A(0); finishCall(Val(cx.mk(FRint, a->w, 3, a))); return; }
			case Intrinsic::trunc: { N a = A(0); finishCall(Val(cx.mk(FRint, a->w, 4, a))); return; }
			case Intrinsic::minnum: case Intrinsic::maxnum: {
				N a = A(0), b = A(1); N l = cx.mk(FLt, 1, 0, a, b); N na = cx.mk(FUno, 1, 0, a, a), nb = cx.mk(FUno, 1, 0, b, b);
				N r = id == Intrinsic::minnum ? cx.ite(l, a, b) : cx.ite(l, b, a);
				finishCall(Val(cx.ite(na, b, cx.ite(nb, a, r)))); return;
			}
			case Intrinsic::is_fpclass: {
				N x = A(0); unsigned m = (unsigned)cast<ConstantInt>(cb->getArgOperand(1))->getZExtValue();
				unsigned w = x->w, mant = w == 32 ? 23 : 52, ex = w == 32 ? 8 : 11;
				N s = cx.extract(x, w - 1, 1), e = cx.extract(x, mant, ex), f = cx.extract(x, 0, mant);
				N emax = cx.eq(e, cx.C(APInt::getAllOnes(ex))), e0 = cx.eq(e, cx.C(ex, 0)), f0 = cx.eq(f, cx.C(mant, 0)), q = cx.extract(f, mant - 1, 1);
				auto And_ = [&](N a, N b) { return cx.bitop(sx::And, a, b); }; auto Not = [&](N a) { return cx.notN(a); };
				N neg = s, posn = Not(s), inf = And_(emax, f0), nan = And_(emax, Not(f0)), zero = And_(e0, f0), sub = And_(e0, Not(f0)), nrm = And_(Not(emax), Not(e0));
				N c[10] = {And_(nan, Not(q)), And_(nan, q), And_(inf, neg), And_(nrm, neg), And_(sub, neg), And_(zero, neg), And_(zero, posn), And_(sub, posn), And_(nrm, posn), And_(inf, posn)};
				N r = cx.B(false); for (int i = 0; i < 10; ++i) if (m & (1u << i)) r = cx.bitop(sx::Or, r, c[i]);
				finishCall(Val(r)); return;
			}
			case Intrinsic::eh_typeid_for: { N t = A(0); finishCall(Val(cx.C(32, (uint32_t)selectorOf(t->u())))); return; }
			case Intrinsic::ptrmask: finishCall(Val(cx.bitop(sx::And, A(0), A(1)))); return;
			case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
				Val v = V(0); N r = nullptr; for (auto& e : *v.agg) r = !r ? e.n : id == Intrinsic::vector_reduce_add ? cx.add(r, e.n) : cx.bitop(id == Intrinsic::vector_reduce_or ? sx::Or : id == Intrinsic::vector_reduce_and ? sx::And : sx::Xor, r, e.n);
				finishCall(Val(r)); return;
			}
			default: throw Unsupported{"intrinsic " + F->getName().str()};
		}
	}
	N memByte(N p, uint64_t i) { return loadInt(cx.add(p, cx.C(64, i)), 1); }
	void external(CallBase* cb, Function* F, std::vector<Val>& a) {
		StringRef nm = F->getName();
		auto n = [&](unsigned i) { return a[i].n; };
		// ---- harness interface
		if (nm == "__dynamic_cast") { // single inheritance only: a base subobject lies at offset 0
			N p = n(0); uint64_t dst = conc(n(2));
			uint64_t vptr = conc(load(PointerType::get(M.getContext(), 0), p).n);
			auto at = [&](uint64_t a) { return conc(loadInt(cx.C(64, a), 8)); };
			uint64_t top = at(vptr - 16), ty = at(vptr - 8);
			if (top) throw Unsupported{"dynamic_cast within multiple inheritance"};
			finishCall(Val(typeMatches(ty, dst) ? p : cx.C(64, 0))); return;
		}
		if (nm.starts_with("sym_")) {
			if (nm == "sym_u8" || nm == "sym_u16" || nm == "sym_u32" || nm == "sym_u64" || nm == "sym_bool") {
				unsigned w = nm == "sym_bool" ? 1 : atoi(nm.substr(5).str().c_str());
				N v = input(cstr(n(0)), w);
				finishCall(Val(w == 1 ? (bits(cb->getType()) == 1 ? v : cx.zext(v, bits(cb->getType()))) : v)); return;
			}
			if (nm == "sym_bytes") { // (ptr, n, name)
				N p = n(0); uint64_t k = conc(n(1)); std::string s = cstr(n(2));
				if (k) { Loc l = resolve(p, k, true); if (!l.off->isConst()) throw ForkOn{l.off}; Obj& o = writable(*l.o); uint64_t off = l.off->u(); for (uint64_t i = 0; i < k; ++i) o.b[off + i] = input(s, 8); }
				finishCall(Val()); return;
			}
			if (nm == "sym_pick") { // (name, lo, hi): every value in [lo, hi], explored one by one
				uint64_t lo = conc(n(1)), hi = conc(n(2));
				if (lo > hi) { ++killed; throw PathEnd{}; }
				N v = input(cstr(n(0)), 64);
				N c = cx.bitop(sx::And, cx.ule(cx.C(64, lo), v), cx.ule(v, cx.C(64, hi)));
				std::shared_ptr<Model> m; if (!feasible(c, &m)) { ++killed; throw PathEnd{}; }
				cur->model = m; addPC(*cur, c);
				finishCall(Val(v));
				forkValues(v);
				return;
			}
			if (nm == "sym_concretize") { uint64_t v = conc(n(0)); finishCall(Val(cx.C(n(0)->w, v))); return; }
			if (nm == "sym_assume") {
				N c = n(0); c = cx.notN(cx.eq(c, cx.C(c->w, 0))); ++assumes;
				std::shared_ptr<Model> m;
				if (!feasible(c, &m)) { ++killed; throw PathEnd{}; }
				cur->model = m; addPC(*cur, subst(c)); finishCall(Val()); return;
			}
			if (nm == "sym_assert") {
				N c = n(0); c = subst(cx.notN(cx.eq(c, cx.C(c->w, 0)))); std::string s = cstr(n(1));
				++asserts; ++assertSites[s];
				if (c->isConst()) ++assertsTrivial;
				std::shared_ptr<Model> m;
				if (feasible(cx.notN(c), &m)) {
					report(*cur, "assertion", s, *m);
					throw PathEnd{};
				} else if (!c->isConst()) cur->known[c] = cx.B(true);
				finishCall(Val()); return;
			}
			if (nm == "sym_note") { cur->notes.push_back(n(0)); finishCall(Val()); return; }
			if (nm == "sym_reach") { ++reach[cstr(n(0))]; finishCall(Val()); return; }
			if (nm == "sym_abort_ok") { N c = n(0); cur->abortOk = cx.notN(cx.eq(c, cx.C(c->w, 0))); finishCall(Val()); return; }
			if (nm == "sym_abort_never") { cur->abortOk = nullptr; finishCall(Val()); return; }
			if (nm == "sym_no_leak_check") { cur->leakCheck = false; finishCall(Val()); return; }
			if (nm == "sym_is_symbolic") { finishCall(Val(cx.C(bits(cb->getType()), 1))); return; }
			if (nm == "sym_live_blocks") { uint64_t k = 0; for (auto& p : cur->mem) if (p.second->kind == OK::Heap) ++k; finishCall(Val(cx.C(64, k))); return; }
			throw Unsupported{"harness function " + nm.str()};
		}
		// ---- allocation
		auto alloc = [&](uint64_t sz, uint64_t al, uint8_t how) {
			if (sz > (1u << 24)) fail("allocation", "allocation of " + std::to_string(sz) + " bytes");
			finishCall(Val(cx.C(64, newObj(OK::Heap, sz, al, "heap", how))));
		};
		if (nm == "_Znwm" || nm == "_ZnwmRKSt9nothrow_t") { alloc(conc(n(0)), 16, 1); return; }
		if (nm == "_Znam" || nm == "_ZnamRKSt9nothrow_t") { alloc(conc(n(0)), 16, 2); return; }
		if (nm == "_ZnwmSt11align_val_t" || nm == "_ZnwmSt11align_val_tRKSt9nothrow_t") { uint64_t s = conc(n(0)), al = conc(n(1)); alloc(s, al, 3); return; }
		if (nm == "_ZnamSt11align_val_t" || nm == "_ZnamSt11align_val_tRKSt9nothrow_t") { uint64_t s = conc(n(0)), al = conc(n(1)); alloc(s, al, 4); return; }
		if (nm == "malloc") { alloc(conc(n(0)), 16, 0); return; }
		if (nm == "calloc") { uint64_t s = conc(n(0)) * conc(n(1)); uint64_t p = newObj(OK::Heap, s, 16, "heap", 0); for (auto& b : cur->mem[p]->b) b = cx.C(8, 0); finishCall(Val(cx.C(64, p))); return; }
		if (nm == "aligned_alloc") { uint64_t al = conc(n(0)), s = conc(n(1)); alloc(s, al, 0); return; }
		if (nm == "free") { freeHeap(n(0), 0, "free"); finishCall(Val()); return; }
		if (nm == "_ZdlPv" || nm == "_ZdlPvm" || nm == "_ZdlPvRKSt9nothrow_t") { freeHeap(n(0), 1, "operator delete"); finishCall(Val()); return; }
		if (nm == "_ZdaPv" || nm == "_ZdaPvm" || nm == "_ZdaPvRKSt9nothrow_t") { freeHeap(n(0), 2, "operator delete[]"); finishCall(Val()); return; }
		if (nm.starts_with("_ZdlPv") && nm.contains("align_val_t")) { freeHeap(n(0), 3, "aligned operator delete"); finishCall(Val()); return; }
		if (nm.starts_with("_ZdaPv") && nm.contains("align_val_t")) { freeHeap(n(0), 4, "aligned operator delete[]"); finishCall(Val()); return; }
		// ---- C library
		if (nm == "memcpy" || nm == "memmove") { uint64_t k = conc(n(2)); copyMem(n(0), n(1), k); finishCall(a[0]); return; }
		if (nm == "memset") { uint64_t k = conc(n(2)); setMem(n(0), cx.extract(n(1), 0, 8), k); finishCall(a[0]); return; }
		if (nm == "memcmp" || nm == "bcmp" || nm == "strncmp" || nm == "strcmp") {
			bool str = nm[0] == 's'; uint64_t k = nm == "strcmp" ? 4096 : conc(n(2));
			if (!str) {
				std::vector<N> x, y; for (uint64_t i = 0; i < k; ++i) { x.push_back(memByte(n(0), i)); y.push_back(memByte(n(1), i)); }
				N r = cx.C(32, 0);
				for (uint64_t i = k; i-- > 0;) r = cx.ite(cx.eq(x[i], y[i]), r, cx.ite(cx.ult(x[i], y[i]), cx.C(32, 0xffffffff), cx.C(32, 1)));
				finishCall(Val(r)); return;
			}
			for (uint64_t i = 0; i < k; ++i) {
				N x = memByte(n(0), i), y = memByte(n(1), i);
				if (!branch(cx.eq(x, y))) { finishCall(Val(cx.ite(cx.ult(x, y), cx.C(32, 0xffffffff), cx.C(32, 1)))); return; }
				if (branch(cx.eq(x, cx.C(8, 0)))) break;
			}
			finishCall(Val(cx.C(32, 0))); return;
		}
		if (nm == "strlen") { for (uint64_t i = 0;; ++i) if (branch(cx.eq(memByte(n(0), i), cx.C(8, 0)))) { finishCall(Val(cx.C(64, i))); return; } }
		if (nm == "memchr") {
			uint64_t k = conc(n(2)); N ch = cx.extract(n(1), 0, 8);
			for (uint64_t i = 0; i < k; ++i) if (branch(cx.eq(memByte(n(0), i), ch))) { finishCall(Val(cx.add(n(0), cx.C(64, i)))); return; }
			finishCall(Val(cx.C(64, 0))); return;
		}
		if (nm == "abort") abortEvent("abort", cur->lastMsg.empty() ? "abort() called" : cur->lastMsg);
		if (nm == "raise" || nm == "kill") abortEvent("assert", cur->lastMsg.empty() ? "signal raised" : cur->lastMsg);
		if (nm == "__assert_fail") abortEvent("assert", "assert(" + cstr(n(0)) + ")");
		if (nm == "__glibcxx_assert_fail" || nm == "_ZSt21__glibcxx_assert_failPKciS0_S0_") abortEvent("assert", "libstdc++ assertion " + cstr(n(3)));
		if (nm == "exit" || nm == "_exit") fail("abort", "exit called");
		if (nm == "fputs" || nm == "puts") { cur->lastMsg = cstr(n(0)); finishCall(Val(cx.C(32, 0))); return; }
		if (nm == "fprintf" || nm == "printf" || nm == "fputc" || nm == "putc" || nm == "putchar" || nm == "fflush" || nm == "fwrite") {
			if (nm == "fprintf") { std::string f = cstr(n(1)); if (a.size() > 2 && a[2].n && a[2].n->w == 64 && f.find("%s") != std::string::npos) f.replace(f.find("%s"), 2, cstr(n(2))); cur->lastMsg = f; }
			finishCall(Val(cx.C(bits(cb->getType()), 0))); return;
		}
		if (nm == "getenv") { finishCall(Val(cx.C(64, 0))); return; }
		if (nm == "fabs" || nm == "fabsf") { finishCall(Val(fabsN(n(0)))); return; }
		if (nm == "ceil" || nm == "ceilf") { finishCall(Val(cx.mk(FRint, n(0)->w, 2, n(0)))); return; }
		if (nm == "floor" || nm == "floorf") { finishCall(Val(cx.mk(FRint, n(0)->w, 3, n(0)))); return; }
		if (nm == "trunc" || nm == "truncf") { finishCall(Val(cx.mk(FRint, n(0)->w, 4, n(0)))); return; }
		if (nm == "round" || nm == "roundf") { finishCall(Val(cx.mk(FRint, n(0)->w, 1, n(0)))); return; }
		if (nm == "sqrt" || nm == "sqrtf") { finishCall(Val(cx.mk(FSqrt, n(0)->w, 0, n(0)))); return; }
		if (nm == "fma" || nm == "fmaf") { finishCall(Val(cx.mk(FFma, n(0)->w, 0, n(0), n(1), n(2)))); return; }
		if (nm == "fmod" || nm == "fmodf") {
			if (n(0)->isConst() && n(1)->isConst()) { finishCall(Val(n(0)->w == 32 ? cx.C(Ctx::ofF(std::fmod(Ctx::asF(n(0)->c), Ctx::asF(n(1)->c)))) : cx.C(Ctx::ofD(std::fmod(Ctx::asD(n(0)->c), Ctx::asD(n(1)->c)))))); return; }
			throw Unsupported{"symbolic fmod"};
		}
		// ---- C++ runtime
		if (nm == "__cxa_atexit" || nm == "__cxa_thread_atexit") { finishCall(Val(cx.C(32, 0))); return; }
		if (nm == "__cxa_guard_acquire") { N g = loadInt(n(0), 1); bool done = !branch(cx.eq(g, cx.C(8, 0))); finishCall(Val(cx.C(32, done ? 0 : 1))); return; }
		if (nm == "__cxa_guard_release") { storeInt(n(0), cx.C(8, 1), 1); finishCall(Val()); return; }
		if (nm == "__cxa_guard_abort") { finishCall(Val()); return; }
		if (nm == "__cxa_allocate_exception") { uint64_t s = conc(n(0)); finishCall(Val(cx.C(64, newObj(OK::Exc, s, 16, "exception")))); return; }
		if (nm == "__cxa_free_exception") { cur->mem.erase(conc(n(0))); finishCall(Val()); return; }
		if (nm == "__cxa_throw") { uint64_t o = conc(n(0)); cur->excs[o] = {o, conc(n(1)), conc(n(2))}; cur->lastMsg = ""; unwind(o); return; }
		if (nm == "__cxa_rethrow") {
			if (cur->caught.empty()) fail("exception", "rethrow without an active exception");
			cur->caught.back().rethrown = true; unwind(cur->caught.back().addr); return;
		}
		if (nm == "__cxa_begin_catch" || nm == "__cxa_get_exception_ptr") {
			uint64_t o = conc(n(0));
			if (nm == "__cxa_begin_catch") {
				if (!cur->caught.empty() && cur->caught.back().addr == o) { cur->caught.back().count++; cur->caught.back().rethrown = false; }
				else cur->caught.push_back({o, 1, false});
			}
			finishCall(Val(cx.C(64, o))); return;
		}
		if (nm == "__cxa_end_catch") {
			if (cur->caught.empty()) fail("exception", "end_catch without an active exception");
			Caught& c = cur->caught.back(); --c.count;
			bool keep = c.rethrown; uint64_t o = c.addr;
			if (c.count <= 0) {
				cur->caught.pop_back();
				if (!keep) {
					uint64_t d = cur->excs.count(o) ? cur->excs[o].dtor : 0;
					if (d) {
						auto it = faddr.find(d);
						if (it != faddr.end() && !it->second->isDeclaration()) {
							std::vector<Val> args{Val(cx.C(64, o))};
							pushFrame(it->second, args); cur->st.back().freeOnRet = o; return;
						}
					}
					cur->mem.erase(o); cur->excs.erase(o);
				}
			}
			finishCall(Val()); return;
		}
		if (nm == "_ZSt9terminatev") fail("exception", "std::terminate called");
		if (nm == "__cxa_pure_virtual") fail("abort", "pure virtual call");
		if (nm == "_ZSt18uncaught_exceptionv" || nm == "_ZSt19uncaught_exceptionsv") { finishCall(Val(cx.C(bits(cb->getType()), 0))); return; }
		if (nm.starts_with("_ZSt20__throw_length_error")) { throwForeign(("std::length_error: " + cstr(n(0))).c_str(), "_ZTISt12length_error"); return; }
		if (nm.starts_with("_ZSt20__throw_out_of_range") || nm.starts_with("_ZSt24__throw_out_of_range_fmt")) { throwForeign("std::out_of_range", "_ZTISt12out_of_range"); return; }
		if (nm.starts_with("_ZSt19__throw_logic_error")) { throwForeign("std::logic_error", "_ZTISt11logic_error"); return; }
		if (nm.starts_with("_ZSt24__throw_invalid_argument")) { throwForeign("std::invalid_argument", "_ZTISt16invalid_argument"); return; }
		if (nm.starts_with("_ZSt25__throw_bad_function_call")) { throwForeign("std::bad_function_call", "_ZTISt17bad_function_call"); return; }
		if (nm.starts_with("_ZSt17__throw_bad_alloc") || nm.starts_with("_ZSt28__throw_bad_array_new_length")) { throwForeign("std::bad_alloc", "_ZTISt9bad_alloc"); return; }
		if (nm.starts_with("_ZSt16__throw_bad_cast")) { throwForeign("std::bad_cast", "_ZTISt8bad_cast"); return; }
		// standard exception classes: construction and destruction have no observable effect here
		if (nm.starts_with("_ZNSt11logic_error") || nm.starts_with("_ZNSt13runtime_error") || nm.starts_with("_ZNSt9exception") || nm.starts_with("_ZNSt9bad_alloc") || nm.starts_with("_ZNSt12length_error") || nm.starts_with("_ZNSt12out_of_range") || nm.starts_with("_ZNSt16invalid_argument") || nm.starts_with("_ZNSt8ios_base4Init")) { finishCall(cb->getType()->isVoidTy() ? Val() : Val(cx.C(64, 0))); return; }
		throw Unsupported{"call to " + demangle(nm.str())};
	}
