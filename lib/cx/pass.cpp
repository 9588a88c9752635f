/* Instruments LLVM IR for path exploration: next to every integer or pointer
 * value an expression id is computed (0: concrete), by calls into rt.cpp. */
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <string>
#include <fstream>
#include <cstdlib>
using namespace llvm;
namespace {
typedef SmallVector<Value *, 2> Ids;
struct CX {
	Module &M; LLVMContext &C; const DataLayout &DL;
	Type *I32, *I64, *V, *P; Value *Z;
	std::set<std::string> wrap;
	FunctionCallee fBin, fCmp, fSel, fCast, fGep, fLoad, fStore, fBr, fSw, fMemcpy, fMemset, fPin, fMM, fArg, fGetArg, fRet, fGetRet, fAlloca, fOvf, fCall, fVaEntry, fVaStart, fByv, fByvGet;
	CX(Module &M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
		I32 = Type::getInt32Ty(C); I64 = Type::getInt64Ty(C); V = Type::getVoidTy(C); P = PointerType::getUnqual(C);
		Z = ConstantInt::get(I32, 0);
		auto F = [&](const char *n, Type *r, ArrayRef<Type *> a){ return M.getOrInsertFunction(n, FunctionType::get(r, a, false)); };
		fBin = F("__cx_bin", I32, {I32, I32, I32, I32, I64, I64});       /* op bits ida idb va vb */
		fCmp = F("__cx_cmp", I32, {I32, I32, I32, I32, I64, I64});
		fSel = F("__cx_sel", I32, {I32, I32, I32, I32, I32, I64, I64});  /* bits idc c ida idb va vb */
		fCast = F("__cx_cast", I32, {I32, I32, I32, I32, I64});          /* kind from to id v */
		fGep = F("__cx_gep", I32, {I32, I64, I32, I64, I64});            /* idbase vbase ididx vidx scale */
		fLoad = F("__cx_load", I32, {I32, P, I32, I32});                 /* idp p n bits */
		fStore = F("__cx_store", V, {I32, P, I32, I32, I64});            /* idp p n id v */
		fBr = F("__cx_br", V, {I32, I32, I32});                          /* id taken site */
		fSw = F("__cx_sw", V, {I32, I32, I64, P, I32});                  /* id bits v cases n */
		fMemcpy = F("__cx_memcpy", V, {I32, P, I32, P, I32, I64});
		fMemset = F("__cx_memset", V, {I32, P, I32, I32, I32, I64});
		fPin = F("__cx_pin", V, {I32, I64});
		fMM = F("__cx_minmax", I32, {I32, I32, I32, I32, I64, I64});
		fArg = F("__cx_arg", V, {I32, I32});
		fGetArg = F("__cx_getarg", I32, {I32});
		fRet = F("__cx_ret", V, {I32, I32});
		fGetRet = F("__cx_getret", I32, {I32});
		fAlloca = F("__cx_alloca", V, {P, I64});
		fOvf = F("__cx_ovf", I32, {I32, I32, I32, I32, I64, I64});
		fCall = F("__cx_call", V, {I32, I64});                           /* nargs, 2-bit classes */
		fVaEntry = F("__cx_va_entry", P, {});
		fVaStart = F("__cx_va_start", V, {P, P, I32});
		fByv = F("__cx_byval", V, {I32, P});
		fByvGet = F("__cx_byval_get", V, {I32, P, I64});
		std::ifstream f(getenv("CX_WRAP") ? getenv("CX_WRAP") : "");
		for(std::string s; f >> s;) wrap.insert(s);
	}
	bool sc(Type *t){ return t->isPointerTy() || (t->isIntegerTy() && t->getIntegerBitWidth() <= 64); }
	unsigned bits(Type *t){ return t->isPointerTy() ? 64 : t->getIntegerBitWidth(); }
	void flat(Type *t, SmallVectorImpl<Type *> &o){
		if(auto *s = dyn_cast<StructType>(t)){ for(auto *e : s->elements()) flat(e, o); }
		else if(auto *a = dyn_cast<ArrayType>(t)){ for(unsigned i = 0; i < a->getNumElements() && i < 64; i++) flat(a->getElementType(), o); }
		else o.push_back(t);
	}
	unsigned nflat(Type *t){ SmallVector<Type *, 4> o; flat(t, o); return o.size(); }
	DenseMap<Value *, Ids> id;
	Ids get(Value *v){
		auto it = id.find(v);
		if(it != id.end()) return it->second;
		return Ids(nflat(v->getType()), Z);
	}
	Value *g1(Value *v){ Ids r = get(v); return r.size() ? r[0] : Z; }
	Value *as64(IRBuilder<> &B, Value *v){
		Type *t = v->getType();
		if(t->isPointerTy()) return B.CreatePtrToInt(v, I64);
		if(t->isIntegerTy()){ if(t->getIntegerBitWidth() < 64) return B.CreateZExt(v, I64); if(t->getIntegerBitWidth() == 64) return v; return B.CreateTrunc(v, I64); }
		return ConstantInt::get(I64, 0);
	}
	Value *c(unsigned n){ return ConstantInt::get(I32, n); }
	bool conc(Value *v){ Ids r = get(v); for(auto *x : r) if(x != Z) return false; return true; }
	bool inst(const Function &F){ return !F.isDeclaration() && !F.getName().starts_with("__cx_") && !F.hasFnAttribute("cx_skip"); }
	unsigned site = 0; Value *vaent = nullptr; std::set<std::string> exts;
	void rename(){
		SmallVector<GlobalValue *, 32> L;
		for(auto &F : M) if(F.isDeclaration() && !F.isIntrinsic()) L.push_back(&F);
		for(auto &G : M.globals()) if(G.isDeclaration()) L.push_back(&G);
		for(auto *g : L){
			std::string n = g->getName().str();
			if(!wrap.count(n)) continue;
			if(auto *o = M.getNamedValue("__w_" + n)) g->replaceAllUsesWith(o), g->eraseFromParent();
			else g->setName("__w_" + n);
		}
	}
	void run(){
		rename();
		site = 1; for(char ch : M.getName()) site = site * 31 + ch; site &= 0xffff; site <<= 14;
		SmallVector<Function *, 64> L;
		for(auto &F : M) if(inst(F)) L.push_back(&F);
		for(auto *F : L) func(*F);
		if(getenv("CX_EXTS")){ std::ofstream o(getenv("CX_EXTS")); for(auto &x : exts) o << x << "\n"; }
	}
	void pinv(IRBuilder<> &B, Value *v){
		if(!conc(v) && sc(v->getType())) B.CreateCall(fPin, {g1(v), as64(B, v)});
	}
	void func(Function &F){
		id.clear();
		if(getenv("CX_ASAN")) F.addFnAttr(Attribute::SanitizeAddress);
		SmallVector<Instruction *, 256> I;
		SmallVector<BasicBlock *, 32> order;
		/* reverse post order so definitions come before uses (except phis) */
		{ std::set<BasicBlock *> seen; SmallVector<std::pair<BasicBlock *, unsigned>, 32> st; SmallVector<BasicBlock *, 32> post;
		  st.push_back({&F.getEntryBlock(), 0}); seen.insert(&F.getEntryBlock());
		  while(!st.empty()){ auto &t = st.back(); auto *T = t.first->getTerminator(); if(t.second < T->getNumSuccessors()){ auto *s = T->getSuccessor(t.second++); if(seen.insert(s).second) st.push_back({s, 0}); } else { post.push_back(t.first); st.pop_back(); } }
		  for(auto i = post.rbegin(); i != post.rend(); ++i) order.push_back(*i); }
		for(auto *b : order) for(auto &i : *b) I.push_back(&i);
		{ IRBuilder<> B(&*F.getEntryBlock().getFirstInsertionPt()); unsigned k = 0;
		  for(auto &A : F.args()){ if(A.hasByValAttr()) B.CreateCall(fByvGet, {c(k), &A, ConstantInt::get(I64, DL.getTypeAllocSize(A.getParamByValType()))}); else if(sc(A.getType())) id[&A] = Ids{B.CreateCall(fGetArg, {c(k)})}; k++; }
		  vaent = F.isVarArg() ? B.CreateCall(fVaEntry, {}) : nullptr; }
		SmallVector<PHINode *, 16> phis;
		for(auto *b : order) for(auto &p : b->phis()){
			SmallVector<Type *, 2> fl; flat(p.getType(), fl); Ids r;
			bool any = false; for(auto *t : fl) if(sc(t)) any = true;
			if(!any) continue;
			for(auto *t : fl){ if(sc(t)) { auto *q = PHINode::Create(I32, p.getNumIncomingValues(), "", &p); r.push_back(q); } else r.push_back(Z); }
			id[&p] = r; phis.push_back(&p);
		}
		for(auto *i : I) visit(i);
		for(auto *p : phis){
			Ids r = id[p];
			for(unsigned k = 0; k < p->getNumIncomingValues(); k++){ Ids in = get(p->getIncomingValue(k)); for(unsigned j = 0; j < r.size(); j++) if(auto *q = dyn_cast<PHINode>(r[j])) q->addIncoming(in[j], p->getIncomingBlock(k)); }
		}
	}
	void visit(Instruction *i){
		IRBuilder<> B(i);
		if(isa<PHINode>(i)) return;
		if(auto *b = dyn_cast<BinaryOperator>(i)){
			Value *x = b->getOperand(0), *y = b->getOperand(1);
			if(!sc(b->getType())){ pinv(B, x); pinv(B, y); return; }
			if(conc(x) && conc(y)) return;
			id[i] = Ids{B.CreateCall(fBin, {c(b->getOpcode()), c(bits(b->getType())), g1(x), g1(y), as64(B, x), as64(B, y)})};
		}else if(auto *b = dyn_cast<ICmpInst>(i)){
			Value *x = b->getOperand(0), *y = b->getOperand(1);
			if(!sc(x->getType()) || (conc(x) && conc(y))) return;
			id[i] = Ids{B.CreateCall(fCmp, {c(b->getPredicate()), c(bits(x->getType())), g1(x), g1(y), as64(B, x), as64(B, y)})};
		}else if(auto *s = dyn_cast<SelectInst>(i)){
			Value *x = s->getTrueValue(), *y = s->getFalseValue(), *k = s->getCondition();
			if(!k->getType()->isIntegerTy()) return;
			if(conc(x) && conc(y) && conc(k)) return;
			if(!sc(s->getType())){ pinv(B, k); return; }
			id[i] = Ids{B.CreateCall(fSel, {c(bits(s->getType())), g1(k), B.CreateZExt(k, I32), g1(x), g1(y), as64(B, x), as64(B, y)})};
		}else if(auto *k = dyn_cast<CastInst>(i)){
			Value *x = k->getOperand(0);
			if(conc(x)) return;
			if(!sc(k->getType()) || !sc(x->getType())){ pinv(B, x); return; }
			unsigned kind = isa<SExtInst>(k) ? 1 : 0;
			id[i] = Ids{B.CreateCall(fCast, {c(kind), c(bits(x->getType())), c(bits(k->getType())), g1(x), as64(B, x)})};
		}else if(auto *f = dyn_cast<FreezeInst>(i)){
			id[i] = get(f->getOperand(0));
		}else if(auto *g = dyn_cast<GetElementPtrInst>(i)){
			bool all = true; for(auto &o : g->operands()) if(!conc(o)) all = false;
			if(all || !g->getType()->isPointerTy()) return;
			Value *cur = g1(g->getPointerOperand()), *cv = as64(B, g->getPointerOperand());
			for(auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it){
				Value *ix = it.getOperand();
				if(auto *st = it.getStructTypeOrNull()){
					uint64_t off = DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
					if(!off) continue;
					cur = B.CreateCall(fGep, {cur, cv, Z, ConstantInt::get(I64, off), ConstantInt::get(I64, 1)});
					cv = B.CreateAdd(cv, ConstantInt::get(I64, off));
				}else{
					uint64_t sz = DL.getTypeAllocSize(it.getIndexedType());
					Value *v = B.CreateSExtOrTrunc(ix, I64), *ii = g1(ix);
					if(ii != Z && bits(ix->getType()) != 64) ii = B.CreateCall(fCast, {c(1), c(bits(ix->getType())), c(64), ii, as64(B, ix)});
					cur = B.CreateCall(fGep, {cur, cv, ii, v, ConstantInt::get(I64, sz)});
					cv = B.CreateAdd(cv, B.CreateMul(v, ConstantInt::get(I64, sz)));
				}
			}
			id[i] = Ids{cur};
		}else if(auto *l = dyn_cast<LoadInst>(i)){
			Value *p = l->getPointerOperand(); Type *t = l->getType();
			if(sc(t)) id[i] = Ids{B.CreateCall(fLoad, {g1(p), p, c(DL.getTypeStoreSize(t)), c(bits(t))})};
			else {
				pinv(B, p);
				if(t->isAggregateType()) ldagg(B, l, p, t);
				else B.CreateCall(fLoad, {Z, p, c(DL.getTypeStoreSize(t)), c(0)});  /* pins the bytes */
			}
		}else if(auto *s = dyn_cast<StoreInst>(i)){
			Value *p = s->getPointerOperand(), *v = s->getValueOperand(); Type *t = v->getType();
			if(sc(t)) B.CreateCall(fStore, {g1(p), p, c(DL.getTypeStoreSize(t)), g1(v), as64(B, v)});
			else {
				pinv(B, p);
				if(t->isAggregateType()) stagg(B, v, p, t);
				else B.CreateCall(fStore, {Z, p, c(DL.getTypeStoreSize(t)), Z, ConstantInt::get(I64, 0)});
			}
		}else if(auto *a = dyn_cast<AllocaInst>(i)){
			B.SetInsertPoint(i->getNextNode());
			while(isa<AllocaInst>(B.GetInsertPoint()) ) B.SetInsertPoint(B.GetInsertPoint()->getNextNode());
			Value *n = a->getArraySize();
			pinv(B, n);
			uint64_t sz = DL.getTypeAllocSize(a->getAllocatedType());
			Value *tot = B.CreateMul(B.CreateZExtOrTrunc(n, I64), ConstantInt::get(I64, sz));
			B.CreateCall(fAlloca, {a, tot});
		}else if(auto *b = dyn_cast<BranchInst>(i)){
			if(b->isConditional() && !conc(b->getCondition()))
				B.CreateCall(fBr, {g1(b->getCondition()), B.CreateZExt(b->getCondition(), I32), c(site++)});
		}else if(auto *s = dyn_cast<SwitchInst>(i)){
			Value *v = s->getCondition();
			if(conc(v) || !sc(v->getType())) return;
			SmallVector<uint64_t, 32> cs; for(auto &k : s->cases()) cs.push_back(k.getCaseValue()->getZExtValue());
			auto *init = ConstantDataArray::get(C, cs);
			auto *G = new GlobalVariable(M, init->getType(), true, GlobalValue::PrivateLinkage, init);
			B.CreateCall(fSw, {g1(v), c(bits(v->getType())), as64(B, v), G, c(cs.size())});
		}else if(auto *r = dyn_cast<ReturnInst>(i)){
			if(Value *v = r->getReturnValue()){ Ids d = get(v); for(unsigned k = 0; k < d.size() && k < 8; k++) B.CreateCall(fRet, {c(k), d[k]}); }
		}else if(auto *e = dyn_cast<ExtractValueInst>(i)){
			Ids d = get(e->getAggregateOperand()); unsigned o = off(e->getAggregateOperand()->getType(), e->getIndices());
			unsigned n = nflat(e->getType()); Ids r; for(unsigned k = 0; k < n; k++) r.push_back(o + k < d.size() ? d[o + k] : Z); id[i] = r;
		}else if(auto *e = dyn_cast<InsertValueInst>(i)){
			Ids d = get(e->getAggregateOperand()), n = get(e->getInsertedValueOperand()); unsigned o = off(e->getAggregateOperand()->getType(), e->getIndices());
			for(unsigned k = 0; k < n.size(); k++) d[o + k] = n[k]; id[i] = d;
		}else if(auto *k = dyn_cast<CallBase>(i)) call(B, k);
	}
	unsigned off(Type *t, ArrayRef<unsigned> ix){
		unsigned o = 0;
		for(unsigned x : ix){
			if(auto *s = dyn_cast<StructType>(t)){ for(unsigned j = 0; j < x; j++) o += nflat(s->getElementType(j)); t = s->getElementType(x); }
			else { auto *a = cast<ArrayType>(t); o += x * nflat(a->getElementType()); t = a->getElementType(); }
		}
		return o;
	}
	void aggwalk(Type *t, uint64_t o, SmallVectorImpl<std::pair<Type *, uint64_t>> &out){
		if(auto *s = dyn_cast<StructType>(t)){ auto *L = DL.getStructLayout(s); for(unsigned j = 0; j < s->getNumElements(); j++) aggwalk(s->getElementType(j), o + L->getElementOffset(j), out); }
		else if(auto *a = dyn_cast<ArrayType>(t)){ for(unsigned j = 0; j < a->getNumElements() && j < 64; j++) aggwalk(a->getElementType(), o + j * DL.getTypeAllocSize(a->getElementType()), out); }
		else out.push_back({t, o});
	}
	void ldagg(IRBuilder<> &B, Value *l, Value *p, Type *t){
		SmallVector<std::pair<Type *, uint64_t>, 4> o; aggwalk(t, 0, o); Ids r;
		for(auto &x : o) r.push_back(sc(x.first) ? (Value *)B.CreateCall(fLoad, {Z, B.CreateConstGEP1_64(Type::getInt8Ty(C), p, x.second), c(DL.getTypeStoreSize(x.first)), c(bits(x.first))}) : Z);
		id[l] = r;
	}
	void stagg(IRBuilder<> &B, Value *v, Value *p, Type *t){
		SmallVector<std::pair<Type *, uint64_t>, 4> o; aggwalk(t, 0, o); Ids d = get(v);
		for(unsigned k = 0; k < o.size(); k++) B.CreateCall(fStore, {Z, B.CreateConstGEP1_64(Type::getInt8Ty(C), p, o[k].second), c(DL.getTypeStoreSize(o[k].first)), d[k], ConstantInt::get(I64, 0)});
	}
	void call(IRBuilder<> &B, CallBase *k){
		if(k->isInlineAsm()) return;
		Function *f = k->getCalledFunction();
		if(auto *m = dyn_cast<MemTransferInst>(k)){
			B.CreateCall(fMemcpy, {g1(m->getDest()), m->getDest(), g1(m->getSource()), m->getSource(), g1(m->getLength()), as64(B, m->getLength())});
			return;
		}
		if(auto *m = dyn_cast<MemSetInst>(k)){
			B.CreateCall(fMemset, {g1(m->getDest()), m->getDest(), g1(m->getValue()), B.CreateZExt(m->getValue(), I32), g1(m->getLength()), as64(B, m->getLength())});
			return;
		}
		if(f && f->isIntrinsic()){
			int mm = -1, ov = -1;
			switch(f->getIntrinsicID()){
				case Intrinsic::smax: mm = 0; break; case Intrinsic::smin: mm = 1; break; case Intrinsic::umax: mm = 2; break; case Intrinsic::umin: mm = 3; break;
				case Intrinsic::abs: mm = 4; break; case Intrinsic::usub_sat: mm = 5; break; case Intrinsic::fshl: break;
				case Intrinsic::sadd_with_overflow: ov = 0; break; case Intrinsic::ssub_with_overflow: ov = 1; break; case Intrinsic::smul_with_overflow: ov = 2; break;
				case Intrinsic::uadd_with_overflow: ov = 4; break; case Intrinsic::usub_with_overflow: ov = 5; break; case Intrinsic::umul_with_overflow: ov = 6; break;
				case Intrinsic::expect: id[k] = get(k->getArgOperand(0)); return;
				default: break;
			}
			Value *x = k->arg_size() > 0 ? k->getArgOperand(0) : nullptr, *y = k->arg_size() > 1 ? k->getArgOperand(1) : nullptr;
			if(mm >= 0 && sc(k->getType())){
				if(conc(x) && conc(y)) return;
				id[k] = Ids{B.CreateCall(fMM, {c(mm), c(bits(k->getType())), g1(x), mm == 4 ? Z : g1(y), as64(B, x), as64(B, y)})};
				return;
			}
			if(ov >= 0 && sc(x->getType())){
				if(conc(x) && conc(y)) return;
				unsigned op = (ov & 3) == 0 ? Instruction::Add : (ov & 3) == 1 ? Instruction::Sub : Instruction::Mul;
				Value *a = as64(B, x), *b = as64(B, y);
				id[k] = Ids{B.CreateCall(fBin, {c(op), c(bits(x->getType())), g1(x), g1(y), a, b}), B.CreateCall(fOvf, {c(ov), c(bits(x->getType())), g1(x), g1(y), a, b})};
				return;
			}
			if(f->getIntrinsicID() == Intrinsic::vastart){
				B.SetInsertPoint(k->getNextNode());
				B.CreateCall(fVaStart, {vaent, k->getArgOperand(0), c(k->getFunction()->arg_size())});
				return;
			}
			if(f->getIntrinsicID() == Intrinsic::vacopy){
				B.CreateCall(fMemcpy, {Z, k->getArgOperand(0), Z, k->getArgOperand(1), Z, ConstantInt::get(I64, 24)});
				return;
			}
			if(f->getName().starts_with("llvm.va_") || f->getName().starts_with("llvm.lifetime") || f->getName().starts_with("llvm.dbg") || f->getName().starts_with("llvm.assume")) return;
			for(auto &a : k->args()) if(!isa<MetadataAsValue>(a)) pinv(B, a);
			return;
		}
		if(f && f->isDeclaration() && !f->getName().starts_with("__cx_")){
			exts.insert(f->getName().str());
			for(auto &a : k->args()) pinv(B, a);
			return;
		}
		pinv(B, k->getCalledOperand());
		unsigned n = 0; uint64_t cls = 0;
		for(auto &a : k->args()){
			if(n >= 30) break;
			if(k->isByValArgument(n)) { B.CreateCall(fByv, {c(n), a.get()}); cls |= 2ull << 2 * n; }
			else if(a->getType()->isFloatTy() || a->getType()->isDoubleTy()) cls |= 1ull << 2 * n;
			else if(!sc(a->getType())) cls |= 3ull << 2 * n;
			B.CreateCall(fArg, {c(n), sc(a->getType()) && !k->isByValArgument(n) ? g1(a) : Z}); n++;
		}
		B.CreateCall(fCall, {c(n), ConstantInt::get(I64, cls)});
		SmallVector<Type *, 4> fl; flat(k->getType(), fl);
		if(k->getType()->isVoidTy()) return;
		B.SetInsertPoint(k->getNextNode());
		Ids r; unsigned j = 0; for(auto *t : fl){ r.push_back(sc(t) && j < 8 ? (Value *)B.CreateCall(fGetRet, {c(j)}) : Z); j++; }
		id[k] = r;
	}
};
struct P : PassInfoMixin<P> {
	PreservedAnalyses run(Module &M, ModuleAnalysisManager &){ CX(M).run(); return PreservedAnalyses::none(); }
	static bool isRequired(){ return true; }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
	return {LLVM_PLUGIN_API_VERSION, "cx", "1", [](PassBuilder &PB){
		PB.registerPipelineParsingCallback([](StringRef n, ModulePassManager &m, ArrayRef<PassBuilder::PipelineElement>){ if(n == "cx"){ m.addPass(P()); return true; } return false; });
	}};
}
