// Symbolic executor for LLVM 18 bitcode.  See DESIGN.md.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <set>
#include <deque>
#include <fstream>
#include <sstream>
#include <functional>

using namespace llvm;
Ctx X;
SolverStats SS;
static Solver *SV;

struct Val { u64 c; E e; Val():c(0),e(0){} Val(u64 x):c(x),e(0){} Val(E x):c(0),e(x){} };
static inline Val mk(E e) { if (e->kind==K_CONST && e->width<=64) return Val(e->c0); return Val(e); }
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : X.mkConst(w,v.c); }

// ------------------------------------------------------------------ memory
static Expr UNINIT_; static const E UNINIT=&UNINIT_;
enum ObjKind : u8 { O_GLOBAL, O_STACK, O_HEAP, O_FUNC, O_FREED, O_DEADSTACK };
struct Obj { int rc; u32 size; ObjKind kind; bool ro; u8 *d; E *s; const Instruction *site; };
struct Chunk { int rc; Obj *o[64]; };
static Obj FREED{1<<30,0,O_FREED,true,0,0,0}, DEADSTACK{1<<30,0,O_DEADSTACK,true,0,0,0};
static void decObj(Obj *o) { if (!o||o==&FREED||o==&DEADSTACK) return; if (--o->rc==0) { free(o->d); free(o->s); delete o; } }
static Obj *newObj(u32 size, ObjKind k, const Instruction *site) { Obj *o=new Obj; o->rc=1; o->size=size; o->kind=k; o->ro=false; o->d=(u8*)calloc(size?size:1,1); o->s=0; o->site=site; return o; }
static void mkSym(Obj *o) { if (!o->s) o->s=(E*)calloc(o->size?o->size:1,sizeof(E)); }
static void setUninit(Obj *o) { mkSym(o); for (u32 i=0;i<o->size;i++) o->s[i]=UNINIT; }
static Obj *cloneObj(Obj *o) { Obj *n=new Obj(*o); n->rc=1; n->d=(u8*)malloc(o->size?o->size:1); memcpy(n->d,o->d,o->size); if (o->s) { n->s=(E*)malloc((o->size?o->size:1)*sizeof(E)); memcpy(n->s,o->s,o->size*sizeof(E)); } return n; }
static void decChunk(Chunk *c) { if (c && --c->rc==0) { for (int i=0;i<64;i++) decObj(c->o[i]); delete c; } }
struct Mem {
	std::vector<Chunk*> t; u32 next=1;
	Mem() {}
	Mem(const Mem &o):t(o.t),next(o.next) { for (Chunk *c:t) if (c) c->rc++; }
	Mem &operator=(const Mem&)=delete;
	~Mem() { for (Chunk *c:t) decChunk(c); }
	Obj *get(u32 id) const { u32 i=id>>6; if (i>=t.size()||!t[i]) return 0; return t[i]->o[id&63]; }
	Chunk *wchunk(u32 id) {
		u32 i=id>>6; if (i>=t.size()) t.resize(i+1,(Chunk*)0);
		if (!t[i]) { t[i]=new Chunk; t[i]->rc=1; memset(t[i]->o,0,sizeof t[i]->o); }
		else if (t[i]->rc>1) { Chunk *n=new Chunk(*t[i]); n->rc=1; for (int j=0;j<64;j++) if (n->o[j]&&n->o[j]!=&FREED&&n->o[j]!=&DEADSTACK) n->o[j]->rc++; t[i]->rc--; t[i]=n; }
		return t[i];
	}
	u32 alloc(Obj *o) { u32 id=next++; wchunk(id)->o[id&63]=o; return id; }
	Obj *w(u32 id) { Chunk *c=wchunk(id); Obj *&o=c->o[id&63]; if (o->rc>1 && o!=&FREED && o!=&DEADSTACK) { Obj *n=cloneObj(o); o->rc--; o=n; } return o; }
	void kill(u32 id, Obj *tomb) { Chunk *c=wchunk(id); decObj(c->o[id&63]); c->o[id&63]=tomb; }
};

// ------------------------------------------------------------------ decoded code
struct Op { int slot; Val v; std::vector<Val> *agg; Op():slot(-1),agg(0){} };
struct FuncInfo;
struct DInst {
	unsigned opc; int dst; unsigned w, w2; int n; Op *ops; const Instruction *I;
	int t0, t1; u64 aux; std::vector<std::pair<int,u64>> *gep; std::vector<std::pair<u64,int>> *sw; FuncInfo *callee; const Function *cf; int ext; unsigned nslots;
};
struct PhiMove { int dst; unsigned ns; std::vector<std::pair<int,Op>> in; };
struct BBInfo { int start; std::vector<PhiMove> phis; };
struct FuncInfo { const Function *F; bool decoded=false; std::vector<DInst> code; std::vector<BBInfo> bbs; int nregs=0; std::vector<std::pair<int,int>> args; bool executed=false; bool inRepo=false; u64 addr=0; };
struct Frame { FuncInfo *f; int pc; int bb, prev; std::vector<Val> regs; std::vector<u32> allocas; std::vector<Val> va; };
struct InputRec { const char *kind; std::string name; std::vector<E> v; };

struct State {
	std::vector<std::shared_ptr<Frame>> st; Mem mem; PathCond pc; u64 steps=0; u32 forks=0;
	std::vector<InputRec> inputs; std::vector<Val> obs; std::map<std::string,int> symcount; u32 uninitCount=0, hidden=0;
	std::vector<std::pair<u64,u64>> todoCtors; u64 excPtr=0; int excSel=0; int phase=0; bool done=false; u64 uid=0; u64 order=0; u64 curTI=0;
	State() {}
	State(const State &o)=default;
};

struct PathEnd { std::string status, kind, msg; };  // thrown to end a path
struct Restart {};                                    // re-execute the current instruction

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
static std::unordered_map<const GlobalValue*,u64> gaddr; static std::unordered_map<u64,FuncInfo*> faddr; static std::unordered_map<const Function*,FuncInfo*> finfo;
static std::vector<State*> work;
static u64 STEP_LIMIT=30000000; static double TIME_LIMIT=600; static int JOBS=8; static u64 SEED=0; static int MAXVIOL=4; static bool VERBOSE=false, CHECKLEAK=true, STRICT_UNINIT=true; static u64 TARGET_PENDING=256;
static u64 nSteps=0,nForks=0,nPaths=0,nPruned=0,nViol=0,nErr=0,nConc=0,nInfeasBranches=0,nAsserts=0,nAssertQ=0; static u64 stateUid=1;
static std::map<std::string,u64> reached, endCount; static std::set<std::string> funcsRun; static std::map<std::string,u64> errs_m, stubs;
static std::map<u64,int> tiIndex; static std::map<std::string,long> PARAMS;
struct ViolRec { std::string kind,msg,inputs,trace; bool uninit; };
static std::vector<ViolRec> viols; struct Sample { std::string inputs, obs; bool z3ok; }; static std::vector<Sample> samples; static u64 samplesSeen=0; static unsigned SAMPLES=8;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); }
static u64 rngS=88172645463325252ull; static u64 rng() { rngS^=rngS<<13; rngS^=rngS>>7; rngS^=rngS<<17; return rngS; }

[[noreturn]] static void inconclusive(const std::string &m) { throw PathEnd{"error","",m}; }
[[noreturn]] static void violation(const std::string &k, const std::string &m) { throw PathEnd{"violation",k,m}; }

static unsigned bitw(Type *t) {
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80;
	return 0;
}
static unsigned nslots(Type *t) {
	if (auto *s=dyn_cast<StructType>(t)) { unsigned n=0; for (Type *e:s->elements()) n+=nslots(e); return n; }
	if (auto *a=dyn_cast<ArrayType>(t)) return a->getNumElements()*nslots(a->getElementType());
	if (auto *v=dyn_cast<FixedVectorType>(t)) return v->getNumElements();
	if (t->isVoidTy()||t->isMetadataTy()||t->isLabelTy()||t->isTokenTy()) return 0;
	return 1;
}
static void leafTypes(Type *t, u64 off, std::vector<std::pair<Type*,u64>> &o) {
	if (auto *s=dyn_cast<StructType>(t)) { auto *sl=DL->getStructLayout(s); for (unsigned i=0;i<s->getNumElements();i++) leafTypes(s->getElementType(i),off+sl->getElementOffset(i),o); }
	else if (auto *a=dyn_cast<ArrayType>(t)) for (u64 i=0;i<a->getNumElements();i++) leafTypes(a->getElementType(),off+i*DL->getTypeAllocSize(a->getElementType()),o);
	else if (auto *v=dyn_cast<FixedVectorType>(t)) for (u64 i=0;i<v->getNumElements();i++) leafTypes(v->getElementType(),off+i*DL->getTypeStoreSize(v->getElementType()),o);
	else o.push_back(std::make_pair(t,off));
}
static u64 slotIndex(Type *t, ArrayRef<unsigned> idx) {
	u64 n=0;
	for (unsigned i:idx) {
		if (auto *s=dyn_cast<StructType>(t)) { for (unsigned j=0;j<i;j++) n+=nslots(s->getElementType(j)); t=s->getElementType(i); }
		else if (auto *a=dyn_cast<ArrayType>(t)) { n+=i*nslots(a->getElementType()); t=a->getElementType(); }
	}
	return n;
}
static u64 globalAddr(const GlobalValue *g);
static FuncInfo *getFunc(const Function *F);
static Val constVal(const Constant *c);
static void constLeaves(const Constant *c, std::vector<Val> &o) {
	Type *t=c->getType();
	if (t->isStructTy()||t->isArrayTy()||t->isVectorTy()) {
		unsigned n = t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements();
		for (unsigned i=0;i<n;i++) constLeaves(c->getAggregateElement(i),o);
		return;
	}
	o.push_back(constVal(c));
}
static Val constVal(const Constant *c) {
	Type *t=c->getType();
	if (auto *ci=dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth()<=64) return Val(ci->getZExtValue()); APInt v=ci->getValue(); return Val(X.mkConst(ci->getBitWidth(),v.getRawData()[0],v.getNumWords()>1?v.getRawData()[1]:0)); }
	if (auto *cf=dyn_cast<ConstantFP>(c)) { APInt v=cf->getValueAPF().bitcastToAPInt(); if (v.getBitWidth()<=64) return Val(v.getZExtValue()); return Val(X.mkConst(v.getBitWidth(),v.getRawData()[0],v.getRawData()[1])); }
	if (isa<ConstantPointerNull>(c)) return Val((u64)0);
	if (isa<UndefValue>(c)) { if (bitw(t)>64) return Val(X.mkConst(bitw(t),0)); return Val((u64)0); }
	if (c->isNullValue()) return Val((u64)0);
	if (auto *g=dyn_cast<GlobalValue>(c)) return Val(globalAddr(g));
	if (auto *ce=dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
			case Instruction::GetElementPtr: { APInt off(64,0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) inconclusive("constant gep"); return Val(constVal(ce->getOperand(0)).c+off.getSExtValue()); }
			case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: return constVal(ce->getOperand(0));
			case Instruction::PtrToInt: return Val(constVal(ce->getOperand(0)).c & maskw(bitw(t)));
			case Instruction::Trunc: return Val(constVal(ce->getOperand(0)).c & maskw(bitw(t)));
			case Instruction::ZExt: return constVal(ce->getOperand(0));
			case Instruction::Sub: return Val((constVal(ce->getOperand(0)).c-constVal(ce->getOperand(1)).c)&maskw(bitw(t)));
			case Instruction::Add: return Val((constVal(ce->getOperand(0)).c+constVal(ce->getOperand(1)).c)&maskw(bitw(t)));
			case Instruction::Mul: return Val((constVal(ce->getOperand(0)).c*constVal(ce->getOperand(1)).c)&maskw(bitw(t)));
			case Instruction::ICmp: { u64 a=constVal(ce->getOperand(0)).c,b=constVal(ce->getOperand(1)).c; switch(ce->getPredicate()) { case CmpInst::ICMP_EQ: return Val((u64)(a==b)); case CmpInst::ICMP_NE: return Val((u64)(a!=b)); case CmpInst::ICMP_ULT: return Val((u64)(a<b)); case CmpInst::ICMP_UGT: return Val((u64)(a>b)); default: break; } break; }
			case Instruction::Select: return constVal(ce->getOperand(0)).c?constVal(ce->getOperand(1)):constVal(ce->getOperand(2));
			default: break;
		}
	}
	std::string s; raw_string_ostream os(s); c->print(os); inconclusive("constant "+os.str());
}
// ------------------------------------------------------------------ decoding
static int extId(StringRef name);
static void decode(FuncInfo *fi) {
	if (fi->decoded) return; fi->decoded=true;
	const Function &F=*fi->F;
	std::unordered_map<const Value*,int> slot; std::unordered_map<const BasicBlock*,int> bbid; int n=0;
	for (auto &a:F.args()) { int k=nslots(a.getType()); slot[&a]=n; fi->args.push_back(std::make_pair(n,k)); n+=k; }
	for (auto &b:F) { bbid[&b]=bbid.size(); for (auto &i:b) { int k=nslots(i.getType()); if (k) { slot[&i]=n; n+=k; } } }
	fi->nregs=n;
	auto mkop=[&](const Value *v)->Op {
		Op o;
		auto it=slot.find(v); if (it!=slot.end()) { o.slot=it->second; return o; }
		if (auto *c=dyn_cast<Constant>(v)) {
			if (nslots(c->getType())==1 && !c->getType()->isAggregateType() && !c->getType()->isVectorTy()) o.v=constVal(c);
			else { o.agg=new std::vector<Val>; constLeaves(c,*o.agg); if (!o.agg->empty()) o.v=(*o.agg)[0]; }
		}
		return o;
	};
	fi->bbs.resize(F.size());
	for (auto &b:F) {
		BBInfo &bi=fi->bbs[bbid[&b]]; bi.start=fi->code.size();
		for (auto &i:b) {
			if (auto *p=dyn_cast<PHINode>(&i)) { PhiMove m; m.dst=slot[p]; m.ns=nslots(p->getType()); for (unsigned k=0;k<p->getNumIncomingValues();k++) m.in.push_back(std::make_pair(bbid[p->getIncomingBlock(k)],mkop(p->getIncomingValue(k)))); bi.phis.push_back(m); continue; }
			if (isa<DbgInfoIntrinsic>(&i)) continue;
			DInst d; memset(&d,0,sizeof d); d.opc=i.getOpcode(); d.I=&i; auto st=slot.find(&i); d.dst=st==slot.end()?-1:st->second; d.w=bitw(i.getType()); d.nslots=nslots(i.getType()); d.ext=-1;
			std::vector<Op> ops;
			if (auto *cb=dyn_cast<CallBase>(&i)) {
				for (auto &a:cb->args()) { if (a->getType()->isMetadataTy()) ops.push_back(Op()); else ops.push_back(mkop(a)); }
				ops.push_back(mkop(cb->getCalledOperand()));
				const Function *cf=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
				d.cf=cf;
				if (cf) { if (cf->isDeclaration()) d.ext=extId(cf->getName()); else d.callee=getFunc(cf); }
				if (auto *inv=dyn_cast<InvokeInst>(&i)) { d.t0=bbid[inv->getNormalDest()]; d.t1=bbid[inv->getUnwindDest()]; }
			} else {
				for (auto &o:i.operands()) { if (isa<BasicBlock>(o)) { ops.push_back(Op()); continue; } ops.push_back(mkop(o)); }
			}
			if (i.getNumOperands()>0) d.w2=bitw(i.getOperand(0)->getType());
			if (auto *br=dyn_cast<BranchInst>(&i)) { d.t0=bbid[br->getSuccessor(0)]; d.t1=br->isConditional()?bbid[br->getSuccessor(1)]:-1; if (br->isConditional()) { ops.clear(); ops.push_back(mkop(br->getCondition())); } }
			if (auto *sw=dyn_cast<SwitchInst>(&i)) { d.t0=bbid[sw->getDefaultDest()]; d.sw=new std::vector<std::pair<u64,int>>; for (auto c:sw->cases()) d.sw->push_back(std::make_pair(c.getCaseValue()->getZExtValue(),bbid[c.getCaseSuccessor()])); }
			if (auto *g=dyn_cast<GetElementPtrInst>(&i)) {
				int64_t off=0; d.gep=new std::vector<std::pair<int,u64>>; int opi=1;
				for (auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi,++opi) {
					if (StructType *s=gi.getStructTypeOrNull()) { off+=DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
					u64 sz=DL->getTypeAllocSize(gi.getIndexedType());
					if (auto *ci=dyn_cast<ConstantInt>(gi.getOperand())) off+=ci->getSExtValue()*(int64_t)sz;
					else d.gep->push_back(std::make_pair(opi,sz));
				}
				d.aux=off;
			}
			if (auto *al=dyn_cast<AllocaInst>(&i)) d.aux=DL->getTypeAllocSize(al->getAllocatedType());
			if (auto *ic=dyn_cast<CmpInst>(&i)) d.aux=ic->getPredicate();
			if (auto *ev=dyn_cast<ExtractValueInst>(&i)) d.aux=slotIndex(ev->getAggregateOperand()->getType(),ev->getIndices());
			if (auto *iv=dyn_cast<InsertValueInst>(&i)) { d.aux=slotIndex(iv->getType(),iv->getIndices()); d.t0=nslots(iv->getOperand(1)->getType()); }
			d.n=ops.size(); d.ops=new Op[ops.size()+1]; for (size_t k=0;k<ops.size();k++) d.ops[k]=ops[k];
			fi->code.push_back(d);
		}
	}
}
static FuncInfo *getFunc(const Function *F) { FuncInfo *&f=finfo[F]; if (!f) { f=new FuncInfo; f->F=F; } return f; }
static u64 funcAddrOf(const Function *F);
static Mem *initMem;
static u64 globalAddr(const GlobalValue *g) {
	if (auto *ga=dyn_cast<GlobalAlias>(g)) { return constVal(ga->getAliasee()).c; }
	if (g->isDeclaration() && g->hasExternalWeakLinkage()) return 0;
	auto it=gaddr.find(g); if (it!=gaddr.end()) return it->second;
	inconclusive("no address for global "+g->getName().str());
}
static void initBytes(Obj *o, const Constant *c, u64 off) {
	Type *t=c->getType();
	if (isa<UndefValue>(c)||c->isNullValue()) return;
	if (auto *cd=dyn_cast<ConstantDataSequential>(c)) { StringRef r=cd->getRawDataValues(); memcpy(o->d+off,r.data(),r.size()); return; }
	if (isa<ConstantAggregate>(c)) {
		if (auto *s=dyn_cast<StructType>(t)) { auto *sl=DL->getStructLayout(s); for (unsigned i=0;i<s->getNumElements();i++) initBytes(o,cast<Constant>(c->getOperand(i)),off+sl->getElementOffset(i)); }
		else { u64 es=t->isArrayTy()?DL->getTypeAllocSize(t->getArrayElementType()).getFixedValue():DL->getTypeStoreSize(cast<FixedVectorType>(t)->getElementType()).getFixedValue(); for (unsigned i=0;i<c->getNumOperands();i++) initBytes(o,cast<Constant>(c->getOperand(i)),off+i*es); }
		return;
	}
	Val v=constVal(c); u64 sz=DL->getTypeStoreSize(t);
	if (v.e) { u64 b[2]={v.e->c0,v.e->c1}; memcpy(o->d+off,b,sz); } else memcpy(o->d+off,&v.c,sz);
}
// ------------------------------------------------------------------ state helpers
static Frame *top(State &s) { auto &p=s.st.back(); if (p.use_count()>1) p=std::make_shared<Frame>(*p); return p.get(); }
static std::string where(const Instruction *I) {
	std::string r; if (!I) return r;
	if (const DebugLoc &d=I->getDebugLoc()) { std::string f=d->getFilename().str(); size_t p=f.rfind('/'); r=(p==std::string::npos?f:f.substr(p+1))+":"+std::to_string(d.getLine()); }
	return r;
}
static std::string trace(State &s) {
	std::string r;
	for (int i=(int)s.st.size()-1;i>=0 && i>(int)s.st.size()-14;i--) { Frame *f=s.st[i].get(); const Instruction *I= f->pc<(int)f->f->code.size()?f->f->code[f->pc].I:0; std::string nm=demangle(f->f->F->getName().str()); if (nm.size()>110) nm=nm.substr(0,110)+"..."; r+="    "+nm+" "+where(I)+"\n"; }
	return r;
}
static State *cloneState(State &s) { State *n=new State(s); n->uid=stateUid++; n->forks++; nForks++; return n; }
static E fixedOf(State &s, E e) { u64 v; return s.pc.isFixed(e,v)?X.mkConst(e->width,v):0; }
static u64 evalU(State &s, E e) { std::unordered_map<E,Ctx::V> memo; return X.eval(e,[&](u32 v){ return s.pc.val(v); },memo).lo; }
static void noteUninit(State &s, E c, const char *what) {
	if (STRICT_UNINIT && c->uninit) violation("uninit",std::string(what)+" depends on uninitialised memory");
}
// The path condition names a value for every part of e that matters, so the value in the model is the only one.
static bool determined(State &s, E e, int &budget) {
	if (Ctx::isC(e)) return true;
	if (--budget<0 || e->kind==K_VAR) return false;
	if (fixedOf(s,e)) return true;
	if (e->width==1 && !X.unaryByte(e)) { for (E m:s.pc.multi) if (m==e || (m->kind==K_NOT && m->k[0]==e) || (e->kind==K_NOT && e->k[0]==m)) return true; }
	if (e->kind==K_EXTRACT && e->width==1 && e->c0+1==e->k[0]->width) { E sg=X.slt(e->k[0],X.mkConst(e->k[0]->width,0)); if (sg->kind==K_SLT && determined(s,sg,budget)) return true; } // the sign
	if (e->kind==K_ITE) return determined(s,e->k[0],budget) && determined(s,evalU(s,e->k[0])?e->k[1]:e->k[2],budget);
	if (!e->nk) return false;
	for (int i=0;i<e->nk;i++) if (!determined(s,e->k[i],budget)) return false;
	return true;
}
static bool known(State &s, E e) { int budget=24; if (e->width>64 || X.unaryByte(e) || !determined(s,e,budget)) return false; s.pc.fix(e,evalU(s,e)); return true; }
static Val reduce(State &s, const Val &v) { if (v.e && !v.e->uninit && !s.pc.fixed.empty() && v.e->width<=64) { u64 x; if (s.pc.isFixed(v.e,x)) return Val(x); if (known(s,v.e)) return Val(evalU(s,v.e)); } return v; }
// Fork on a boolean: returns the truth value for this state; the other side is queued with `other` applied.
static bool decide(State &s, E c, const std::function<void(State&)> &other) {
	if (Ctx::isC(c)) return c->c0;
	if (E f=fixedOf(s,c)) return f->c0;
	noteUninit(s,c,"branch");
	if (known(s,c)) return evalU(s,c);
	bool m=SV->evalModel(s.pc,c);
	E nc=m?X.not_(c):c;
	std::vector<std::pair<u32,u64>> patch;
	bool o; try { o=SV->may(s.pc,nc,patch,false); } catch (Unknown &u) { inconclusive(u.what); }
	if (o) {
		State *n=cloneState(s); SV->add(n->pc,nc,patch); other(*n); work.push_back(n);
		SV->addc(s.pc,m?c:X.not_(c));
	} else nInfeasBranches++;
	return m;
}
// One value for e in this state; other feasible values are queued as states that re-execute the instruction.
static u64 concretize(State &s, E e) {
	if (Ctx::isC(e)) return e->c0;
	if (E f=fixedOf(s,e)) return f->c0;
	noteUninit(s,e,"address, size or target");
	if (known(s,e)) return evalU(s,e);
	u64 v=evalU(s,e);
	E c=X.eq(e,X.mkConst(e->width,v));
	std::vector<std::pair<u32,u64>> patch;
	bool o; try { o=SV->may(s.pc,X.not_(c),patch,false); } catch (Unknown &u) { inconclusive(u.what); }
	nConc++;
	if (o) { State *n=cloneState(s); SV->add(n->pc,X.not_(c),patch); work.push_back(n); SV->addc(s.pc,c); }
	s.pc.fix(e,v);
	return v;
}
static u64 conc(State &s, const Val &v) { return v.e ? concretize(s,v.e) : v.c; }
static void assume(State &s, E c) {
	if (Ctx::isC(c)) { if (!c->c0) throw PathEnd{"pruned","",""}; return; }
	std::vector<std::pair<u32,u64>> patch; bool o;
	try { o=SV->may(s.pc,c,patch); } catch (Unknown &u) { inconclusive(u.what); }
	if (!o) throw PathEnd{"pruned","",""};
	SV->add(s.pc,c,patch);
}
static std::string hex(u64 v) { char b[32]; snprintf(b,32,"0x%llx",(unsigned long long)v); return b; }
static std::string objDesc(State &s, u32 id) {
	Obj *o=s.mem.get(id); if (!o) return "no object"; static const char *k[]={"global","stack","heap","function","freed heap","dead stack"};
	std::string r=std::string(k[o->kind])+" object"; if (o->kind<O_FREED) r+=" of size "+std::to_string(o->size); if (o->site) r+=" from "+where(o->site); return r;
}
// Check [addr,addr+n) for access; returns object id and offset.
static void checkAccess(State &s, u64 a, u64 n, bool wr, u32 &id, u32 &off) {
	id=a>>32; off=(u32)a;
	if (id==0) violation("null-deref",std::string(wr?"write":"read")+" at address "+hex(a));
	Obj *o=s.mem.get(id);
	if (!o) violation("wild",std::string(wr?"write":"read")+" at wild address "+hex(a));
	if (o->kind==O_FREED) violation("use-after-free",std::string(wr?"write to":"read of")+" freed memory");
	if (o->kind==O_DEADSTACK) violation("use-after-return",std::string(wr?"write to":"read of")+" dead stack memory");
	if (o->kind==O_FUNC) violation("wild","data access to function");
	if ((u64)off+n>o->size) violation("out-of-bounds",std::string(wr?"write":"read")+" of "+std::to_string(n)+" bytes at offset "+std::to_string((int)off)+" of "+objDesc(s,id));
	if (wr && o->ro) violation("write-const","write to constant object");
}
static E freshUninit(State &s) { return X.mkVar("uninit#"+std::to_string(s.uninitCount++),8,true,true); }
static E byteE(State &s, u32 id, Obj *o, u32 i) {
	if (o->s && o->s[i]) { if (o->s[i]==UNINIT) { E e=freshUninit(s); Obj *w=s.mem.w(id); w->s[i]=e; return e; } return o->s[i]; }
	return X.mkConst(8,o->d[i]);
}
static Val loadAt(State &s, u32 id, u32 off, unsigned w) {
	Obj *o=s.mem.get(id); unsigned n=(w+7)/8;
	bool sym=false; if (o->s) for (unsigned i=0;i<n;i++) if (o->s[off+i]) { sym=true; break; }
	if (!sym) {
		if (w<=64) { u64 v=0; memcpy(&v,o->d+off,n); return Val(v&maskw(w)); }
		u64 v[2]={0,0}; memcpy(v,o->d+off,n); return Val(X.mkConst(w,v[0],v[1]));
	}
	// a fully uninitialised scalar stays one unknown
	E r=0; for (unsigned i=0;i<n;i++) { E b=byteE(s,id,s.mem.get(id),off+i); r=r?X.concat(b,r):b; }
	if (r->width>w) r=X.extract(r,0,w);
	return mk(r);
}
static void storeAt(State &s, u32 id, u32 off, const Val &v, unsigned w) {
	Obj *o=s.mem.w(id); unsigned n=(w+7)/8;
	if (!v.e || (v.e->kind==K_CONST)) {
		if (v.e) { u64 b[2]={v.e->c0,v.e->c1}; memcpy(o->d+off,b,n); } else { u64 c=v.c; memcpy(o->d+off,&c,n); }
		if (o->s) for (unsigned i=0;i<n;i++) o->s[off+i]=0;
		return;
	}
	mkSym(o);
	E e=v.e; if (e->width<n*8) e=X.zext(e,n*8);
	for (unsigned i=0;i<n;i++) { E b=X.extract(e,i*8,8); if (b->kind==K_CONST) { o->d[off+i]=b->c0; o->s[off+i]=0; } else o->s[off+i]=b; }
}
static void collectTabs(E e, std::unordered_set<E> &seen, std::vector<E> &out) { if (!seen.insert(e).second) return; if (e->kind==K_TAB) { out.push_back(e); return; } for (int i=0;i<e->nk;i++) collectTabs(e->k[i],seen,out); }
static E simplifyFixed(State &s, E e) {
	if (s.pc.fixed.empty()) return e;
	std::unordered_map<E,E> m,memo; for (auto &f:s.pc.fixed) m[f.first]=X.mkConst(f.first->width,f.second);
	return X.subst(e,m,memo);
}
// Address resolution. Returns concrete address, or sets unary variable info for a symbolic in-bounds read.
struct Addr { bool conc; u64 a; E var; Ctx::Vec vec; u32 id; E idx=0; unsigned lg=0; };
static void resolve(State &s, const Val &av, u64 n, bool wr, Addr &r) {
	r.conc=true;
	if (!av.e) { r.a=av.c; return; }
	E e=av.e;
	noteUninit(s,e,"address");
	if (e->vs->v.size()>1) {
		e=simplifyFixed(s,e);
		while (e->vs->v.size()>1) {
			std::unordered_set<E> seen; std::vector<E> tabs; collectTabs(e,seen,tabs);
			if (tabs.empty()) break;
			E best=tabs[0]; for (E t:tabs) if (t->vs->v[0]<best->vs->v[0]) best=t;
			u64 v=concretize(s,best); std::unordered_map<E,E> m,memo; m[best]=X.mkConst(best->width,v); e=X.subst(e,m,memo);
		}
		if (Ctx::isC(e)) { r.a=e->c0; return; }
	}
	if (X.unaryByte(e) && X.evalUnary(e,r.vec)) {
		u32 v=e->vs->v[0]; Bits256 d=s.pc.domain(v); u64 ma=r.vec.v[s.pc.val(v)]; u32 id=ma>>32; Obj *o=s.mem.get(id);
		auto ok=[&](u64 a){ return (a>>32)==id && o && o->kind<=O_HEAP && (u64)(u32)a+n<=o->size; };
		Bits256 good; for (int i=0;i<256;i++) if (d.get(i) && ok(r.vec.v[i])) good.set(i);
		if (!ok(ma)) {
			// the model's address is bad: explore the rest separately, report this one
			E c=X.eq(e,X.mkConst(64,ma)); std::vector<std::pair<u32,u64>> patch; bool ot; try { ot=SV->may(s.pc,X.not_(c),patch,false); } catch (Unknown &u) { inconclusive(u.what); }
			if (ot) { State *nst=cloneState(s); SV->add(nst->pc,X.not_(c),patch); work.push_back(nst); }
			u32 i2,o2; checkAccess(s,ma,n,wr,i2,o2); inconclusive("address resolution");
		}
		if (!(good==d)) {
			u64 tv[256]; for (int i=0;i<256;i++) tv[i]=good.get(i); E c=X.tab(X.vars[v].e,1,tv); std::vector<std::pair<u32,u64>> patch; bool ot; try { ot=SV->may(s.pc,X.not_(c),patch,false); } catch (Unknown &u) { inconclusive(u.what); }
			if (ot) { State *nst=cloneState(s); SV->add(nst->pc,X.not_(c),patch); work.push_back(nst); }
			SV->addc(s.pc,c);
		}
		if (wr) { r.a=concretize(s,e); return; }
		r.conc=false; r.var=X.vars[v].e; r.id=id; return;
	}
	if (!wr && n<=8 && !X.unaryByte(e)) {
		// index computed from several inputs into a small constant table: keep it symbolic as a multiplexer
		u64 ma=evalU(s,e); u32 id=ma>>32; Obj *o=s.mem.get(id);
		unsigned lg=n==8?3:n==4?2:n==2?1:0; bool tabular=o && o->kind<=O_HEAP && o->size<=256*n && o->size>=n;
		if (tabular && o->size>256) { E low=lg?X.extract(X.sub(e,X.mkConst(64,(u64)id<<32)),0,lg):0; tabular=low && Ctx::isC(low) && !low->c0; } else lg=0;
		if (tabular && o->s) for (u32 i=0;i<o->size&&tabular;i++) if (o->s[i]) tabular=false;
		if (tabular) {
			u64 base=(u64)id<<32; E idx=X.sub(e,X.mkConst(64,base)); E in=X.ult(idx,X.mkConst(64,o->size-n+1));
			if ((u32)ma+n>o->size) {
				std::vector<std::pair<u32,u64>> patch; bool ot; try { ot=SV->may(s.pc,in,patch,false); } catch (Unknown &u) { inconclusive(u.what); }
				if (ot) { State *nst=cloneState(s); SV->add(nst->pc,in,patch); work.push_back(nst); }
				u32 i2,o2; checkAccess(s,ma,n,wr,i2,o2); inconclusive("address resolution");
			}
			std::vector<std::pair<u32,u64>> patch; bool out; try { out=SV->may(s.pc,X.not_(in),patch,false); } catch (Unknown &u) { inconclusive(u.what); }
			if (out) { State *nst=cloneState(s); SV->add(nst->pc,X.not_(in),patch); work.push_back(nst); SV->addc(s.pc,in); }
			r.conc=false; r.id=id; r.lg=lg; r.idx=X.extract(idx,lg,8); return;
		}
	}
	r.a=concretize(s,e);
}
static E muxTree(E idx, int bit, u32 lo, const u64 *tv, unsigned w) {
	if (bit<0) return X.mkConst(w,tv[lo]);
	E a=muxTree(idx,bit-1,lo,tv,w), b=muxTree(idx,bit-1,lo|(1u<<bit),tv,w); if (a==b) return a; return X.ite(X.extract(idx,bit,1),b,a);
}
static Val load(State &s, const Val &av, unsigned w) {
	u64 n=(w+7)/8; Addr r; resolve(s,av,n,false,r);
	u32 id,off;
	if (r.conc) { checkAccess(s,r.a,n,false,id,off); return loadAt(s,id,off,w); }
	if (r.idx) { Obj *o=s.mem.get(r.id); u64 tv[256]; for (u32 i=0;i<256;i++) { tv[i]=0; u32 j=(i<<r.lg)+n<=o->size?i<<r.lg:0; u64 x=0; memcpy(&x,o->d+j,n); tv[i]=x&maskw(w); } return mk(muxTree(r.idx,7,0,tv,w)); }
	Bits256 d=s.pc.domain(r.var->c0); Obj *o=s.mem.get(r.id); bool sym=false;
	if (w<=64) {
		u64 tv[256];
		for (int i=0;i<256 && !sym;i++) {
			u64 a=r.vec.v[i]; tv[i]=0; if ((a>>32)!=r.id || (u64)(u32)a+n>o->size) continue;
			if (o->s && d.get(i)) for (u64 k=0;k<n;k++) if (o->s[(u32)a+k]) sym=true;
			if (!sym) { u64 x=0; memcpy(&x,o->d+(u32)a,n); tv[i]=x&maskw(w); }
		}
		if (!sym) return mk(X.tab(r.var,w,tv));
	}
	// symbolic contents: mux
	std::map<u32,Bits256> offs; for (int i=0;i<256;i++) if (d.get(i)) offs[(u32)r.vec.v[i]].set(i);
	E res=0;
	for (auto &p:offs) { Val v=loadAt(s,r.id,p.first,w); E ve=toE(v,w); if (!res) res=ve; else { u64 tv[256]; for (int i=0;i<256;i++) tv[i]=p.second.get(i); res=X.ite(X.tab(r.var,1,tv),ve,res); } }
	return mk(res);
}
static void store(State &s, const Val &av, const Val &v, unsigned w) {
	u64 n=(w+7)/8; Addr r; resolve(s,av,n,true,r); u32 id,off; checkAccess(s,r.a,n,true,id,off); storeAt(s,id,off,reduce(s,v),w);
}
static void copyMem(State &s, u64 dst, u64 src, u64 n) {
	if (!n) return; u32 di,df,si,sf; checkAccess(s,src,n,false,si,sf); checkAccess(s,dst,n,true,di,df);
	Obj *d=s.mem.w(di), *o=s.mem.get(si);
	if (o->s && !d->s) mkSym(d);
	memmove(d->d+df,o->d+sf,n);
	if (d->s) { if (o->s) memmove(d->s+df,o->s+sf,n*sizeof(E)); else memset(d->s+df,0,n*sizeof(E)); }
}
static u64 rd64(State &s, u64 a) { u32 id,off; checkAccess(s,a,8,false,id,off); Val v=loadAt(s,id,off,64); if (v.e) inconclusive("symbolic pointer in runtime structure"); return v.c; }
static std::string rdStr(State &s, u64 a) {
	std::string r; u32 id,off; checkAccess(s,a,1,false,id,off); Obj *o=s.mem.get(id);
	for (;off<o->size;off++) { u8 c=o->d[off]; if (o->s&&o->s[off]) { r+='?'; continue; } if (!c) return r; r+=(char)c; } return r;
}
static u64 mallocObj(State &s, u64 n, const Instruction *I, bool zero=false) { Obj *o=newObj(n,O_HEAP,I); if (!zero) setUninit(o); return (u64)s.mem.alloc(o)<<32; }
static void freeObj(State &s, u64 a) {
	if (!a) return; u32 id=a>>32; Obj *o=s.mem.get(id); if (!o) violation("bad-free","free of wild pointer "+hex(a));
	if (o->kind==O_FREED) violation("double-free","memory freed twice");
	if (o->kind!=O_HEAP||(u32)a) violation("bad-free","free of non-heap or interior pointer ("+objDesc(s,id)+")");
	s.mem.kill(id,&FREED);
}
// ------------------------------------------------------------------ control
static void enterBB(Frame *f, int bb) {
	BBInfo &b=f->f->bbs[bb]; int prev=f->bb; f->prev=prev; f->bb=bb; f->pc=b.start;
	if (b.phis.empty()) return;
	static std::vector<Val> tmp; tmp.clear();
	for (auto &p:b.phis) { for (auto &in:p.in) if (in.first==prev) { for (unsigned i=0;i<p.ns;i++) { const Op &o=in.second; tmp.push_back(o.slot>=0?f->regs[o.slot+i]:(o.agg?(*o.agg)[i]:o.v)); } break; } }
	size_t k=0; for (auto &p:b.phis) for (unsigned i=0;i<p.ns;i++) f->regs[p.dst+i]=tmp[k++];
}
static void pushFrame(State &s, FuncInfo *fi, const std::vector<Val> &args) {
	decode(fi); if (!fi->executed) { fi->executed=true; }
	if (s.st.size()>4000) violation("stack-overflow","call depth exceeds 4000");
	auto f=std::make_shared<Frame>(); f->f=fi; f->regs.resize(fi->nregs); f->bb=0; f->prev=-1; f->pc=fi->bbs[0].start;
	int nfix=fi->nregs; int na=0; if (!fi->args.empty()) na=fi->args.back().first+fi->args.back().second;
	(void)nfix;
	for (size_t i=0;i<args.size();i++) { if ((int)i<na) f->regs[i]=args[i]; else f->va.push_back(args[i]); }
	s.st.push_back(f);
}
static void popFrame(State &s) { Frame *f=s.st.back().get(); for (u32 a:f->allocas) s.mem.kill(a,&DEADSTACK); s.st.pop_back(); }
// typeinfo
static std::unordered_map<u64,int> tiKinds; static u64 vtSI=0,vtVMI=0,vtCls=0,vtPtr=0;
static bool tiSame(State &s, u64 a, u64 b) { if (a==b) return true; u64 na=rd64(s,a+8), nb=rd64(s,b+8); return na==nb || rdStr(s,na)==rdStr(s,nb); }
static bool upcast(State &s, u64 from, u64 to, u64 &ptr) {
	if (tiSame(s,from,to)) return true;
	u64 vt=rd64(s,from)&~0xffffffffull;
	if (vt==vtSI) return upcast(s,rd64(s,from+16),to,ptr);
	if (vt==vtVMI) {
		u32 n=rd64(s,from+16)>>32;
		for (u32 i=0;i<n;i++) { u64 b=rd64(s,from+24+16*i); int64_t of=rd64(s,from+32+16*i); u64 p=ptr; if (of&1) { if (!p) continue; u64 v=rd64(s,p); p+=rd64(s,v+(of>>8)); } else p+=(of>>8); if (!(of&2)) continue; if (upcast(s,b,to,p)) { ptr=p; return true; } }
	}
	return false;
}
static bool canCatch(State &s, u64 cti, u64 tti, u64 &ptr) {
	if (!cti) return true;
	if (tiSame(s,cti,tti)) return true;
	u64 p=ptr; if (upcast(s,tti,cti,p)) { ptr=p; return true; }
	return false;
}
static int tiId(u64 a) { auto it=tiIndex.find(a); if (it!=tiIndex.end()) return it->second; int n=tiIndex.size()+1; return tiIndex[a]=n; }
static u64 clauseTI(const LandingPadInst *lp, unsigned i) { return constVal(lp->getClause(i)).c; }
static const LandingPadInst *lpOf(Frame *f) { const DInst &d=f->f->code[f->pc]; if (d.opc!=Instruction::Invoke) return 0; return cast<InvokeInst>(d.I)->getLandingPadInst(); }
static void unwind(State &s, u64 exc, size_t from) {
	u64 ti=rd64(s,exc-32);
	bool found=false;
	for (int i=(int)from-1;i>=0&&!found;i--) { const LandingPadInst *lp=lpOf(s.st[i].get()); if (!lp) continue; for (unsigned k=0;k<lp->getNumClauses();k++) { if (lp->isFilter(k)) { found=true; break; } u64 p=exc; if (canCatch(s,clauseTI(lp,k),ti,p)) { found=true; break; } } }
	if (!found) { std::string nm=rdStr(s,rd64(s,ti+8)); violation("uncaught","uncaught exception of type "+demangle("_ZTS"+nm)); }
	while (s.st.size()>from) popFrame(s);
	while (!s.st.empty()) {
		const LandingPadInst *lp=lpOf(s.st.back().get());
		if (lp) {
			int sel=-1; u64 adj=exc;
			for (unsigned k=0;k<lp->getNumClauses()&&sel<0;k++) { if (lp->isFilter(k)) { sel=0x7fff; break; } u64 p=exc; u64 c=clauseTI(lp,k); if (canCatch(s,c,ti,p)) { sel=tiId(c); adj=p; } }
			if (sel<0 && lp->isCleanup()) sel=0;
			if (sel>=0) {
				u32 id,off; checkAccess(s,exc-16,8,true,id,off); storeAt(s,id,off,Val(adj),64);
				Frame *f=top(s); s.excPtr=exc; s.excSel=sel; enterBB(f,f->f->code[f->pc].t1); return;
			}
		}
		popFrame(s);
	}
}
static Val getv(Frame *f, const Op &o, int i=0) { if (o.slot>=0) return f->regs[o.slot+i]; if (o.agg) return (*o.agg)[i]; return o.v; }
static void leakCheck(State &s) {
	// conservative reachability from globals
	std::vector<u32> q; std::unordered_set<u32> seen;
	auto scan=[&](Obj *o){ for (u32 i=0;i+8<=o->size;i+=8) { u64 v; memcpy(&v,o->d+i,8); bool sym=false; if (o->s) for (int k=0;k<8;k++) if (o->s[i+k]) sym=true; if (sym) continue; u32 id=v>>32; Obj *t; if (id && (t=s.mem.get(id)) && t->kind==O_HEAP && seen.insert(id).second) q.push_back(id); } };
	std::vector<u32> heap;
	for (u32 id=1;id<s.mem.next;id++) { Obj *o=s.mem.get(id); if (!o) continue; if (o->kind==O_HEAP) heap.push_back(id); else if (o->kind==O_GLOBAL) scan(o); }
	while (!q.empty()) { u32 id=q.back(); q.pop_back(); scan(s.mem.get(id)); }
	for (u32 id:heap) if (!seen.count(id)) { violation("leak","memory leak: "+objDesc(s,id)); }
}
static void inputName(State &s, const std::string &n, std::string &out) { int k=s.symcount[n]++; out = k?n+"."+std::to_string(k):n; }
// ------------------------------------------------------------------ externals
typedef std::function<bool(State&,const DInst&,std::vector<Val>&,Val&)> Ext; // returns true if a value/return is ready; false if control was transferred
static std::vector<Ext> exts; static std::unordered_map<std::string,int> extIdx; static std::vector<std::string> extNames;
static int extId(StringRef n) {
	std::string s=n.str(); auto it=extIdx.find(s); if (it!=extIdx.end()) return it->second;
	if (s.compare(0,5,"llvm.")==0) {
		// match by prefix up to the type suffix
		std::string p=s; while (true) { size_t k=p.rfind('.'); if (k==std::string::npos||k<5) break; p=p.substr(0,k); auto j=extIdx.find(p); if (j!=extIdx.end()) { extIdx[s]=j->second; return j->second; } }
	}
	exts.push_back([s](State&,const DInst&,std::vector<Val>&,Val&)->bool { inconclusive("unmodelled external function "+demangle(s)); });
	extNames.push_back(s); extIdx[s]=exts.size()-1; return exts.size()-1;
}
static void reg(const char *n, Ext e) { exts.push_back(e); extNames.push_back(n); extIdx[n]=exts.size()-1; }
static unsigned argw(const DInst &d, int i) { return bitw(cast<CallBase>(d.I)->getArgOperand(i)->getType()); }
static std::vector<E> bytesAt(State &s, u64 a, u64 n) { std::vector<E> r; if (!n) return r; u32 id,off; checkAccess(s,a,n,false,id,off); for (u64 i=0;i<n;i++) r.push_back(byteE(s,id,s.mem.get(id),off+i)); return r; }
static void setRet(State &s, const DInst &d, const Val *v, unsigned n) { Frame *f=top(s); if (d.dst>=0) for (unsigned i=0;i<n&&i<d.nslots;i++) f->regs[d.dst+i]=v[i]; if (d.opc==Instruction::Invoke) enterBB(f,d.t0); else f->pc++; }
#define EXT(name) reg(name,[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { (void)s;(void)d;(void)a;(void)r;
#define END return true; });
static void regExts() {
	EXT("vp_bytes") u64 p=conc(s,a[0]), n=conc(s,a[1]); std::string nm; inputName(s,rdStr(s,conc(s,a[2])),nm); InputRec ir; ir.kind="b"; ir.name=nm;
		if (n) { u32 id,off; checkAccess(s,p,n,true,id,off); Obj *o=s.mem.w(id); mkSym(o); for (u64 i=0;i<n;i++) { E v=X.mkVar(nm+"["+std::to_string(i)+"]",8); o->s[off+i]=v; ir.v.push_back(v); } } s.inputs.push_back(ir); END
	EXT("vp_u64") std::string nm; inputName(s,rdStr(s,conc(s,a[0])),nm); E v=X.mkVar(nm,64); s.inputs.push_back(InputRec{"w",nm,{v}}); r=Val(v); END
	EXT("vp_u32") std::string nm; inputName(s,rdStr(s,conc(s,a[0])),nm); E v=X.mkVar(nm,32); s.inputs.push_back(InputRec{"w",nm,{v}}); r=Val(v); END
	EXT("vp_u8") std::string nm; inputName(s,rdStr(s,conc(s,a[0])),nm); E v=X.mkVar(nm,8); s.inputs.push_back(InputRec{"w",nm,{v}}); r=Val(v); END
	EXT("vp_hidden_u8") std::string nm="~"+std::to_string(s.hidden++); r=Val(X.mkVar(nm,8,false,true)); END
	EXT("vp_assume") assume(s,X.extract(toE(a[0],argw(d,0)),0,1)); END
	EXT("vp_assert")
		nAsserts++;
		E c=X.extract(toE(a[0],argw(d,0)),0,1);
		if (Ctx::isC(c)) { if (!c->c0) violation("assert",rdStr(s,conc(s,a[1]))); return true; }
		nAssertQ++;
		if (c->uninit && STRICT_UNINIT) violation("uninit","assertion depends on uninitialised memory: "+rdStr(s,conc(s,a[1])));
		std::vector<std::pair<u32,u64>> patch; bool bad;
		try { bad=SV->may(s.pc,X.not_(c),patch); } catch (Unknown &u) { inconclusive("assert '"+rdStr(s,conc(s,a[1]))+"': "+u.what); }
		if (bad) {
			State *n=cloneState(s); bool ok=true; std::vector<std::pair<u32,u64>> p2; try { ok=SV->may(s.pc,c,p2); } catch (Unknown &u) { ok=false; }
			if (ok) { SV->add(n->pc,c,p2); work.push_back(n); } else delete n;
			SV->add(s.pc,X.not_(c),patch); violation("assert",rdStr(s,conc(s,a[1])));
		} END
	EXT("vp_fail") violation("assert",rdStr(s,conc(s,a[0]))); END
	EXT("vp_crash") violation("crash",rdStr(s,conc(s,a[0]))); END
	EXT("vp_error") inconclusive(rdStr(s,conc(s,a[0]))); END
	EXT("vp_observe") if (STRICT_UNINIT && toE(a[0],64)->uninit) violation("uninit","result handed to the caller depends on uninitialised memory"); s.obs.push_back(a[0]); END
	EXT("vp_observe_bytes") for (E e:bytesAt(s,conc(s,a[0]),conc(s,a[1]))) { if (STRICT_UNINIT && e->uninit) violation("uninit","result handed to the caller depends on uninitialised memory"); s.obs.push_back(mk(X.zext(e,64))); } END
	EXT("vp_reach") reached[rdStr(s,conc(s,a[0]))]++; END
	EXT("vp_fork") r=Val(conc(s,a[0])); END
	EXT("vp_split") E e=toE(a[0],64); for (;;) { bool z=e->kind==K_ZEXT; E i=z?e->k[0]:e; if (i->kind!=K_ITE) break; E n=conc(s,mk(i->k[0]))?i->k[1]:i->k[2]; e=z?X.zext(n,64):n; } r=mk(e); END
	EXT("vp_unary") E e=toE(a[0],64); Ctx::Vec v; r=Val((u64)(!Ctx::isC(e) && X.unaryByte(e) && X.evalUnary(e,v))); END
	EXT("vp_ite") r=mk(X.ite(X.not_(X.eq(toE(a[0],64),X.mkConst(64,0))),toE(a[1],64),toE(a[2],64))); END
	EXT("vp_param") auto it=PARAMS.find(rdStr(s,conc(s,a[0]))); r= it==PARAMS.end()?a[1]:Val((u64)it->second&0xffffffffu); END
	EXT("vp_native") r=Val((u64)0); END
	EXT("vp_is_symbolic") r=Val((u64)(a[0].e && a[0].e->kind!=K_CONST && !fixedOf(s,a[0].e))); END
	EXT("vp_heap_live") u64 n=0; for (u32 id=1;id<s.mem.next;id++) { Obj *o=s.mem.get(id); if (o&&o->kind==O_HEAP) n++; } r=Val(n); END
	EXT("vp_heap_size") u64 p=conc(s,a[0]); Obj *o=s.mem.get(p>>32); if (!o||o->kind!=O_HEAP) violation(o&&o->kind==O_FREED?"use-after-free":"bad-free","realloc of invalid pointer"); r=Val((u64)o->size); END
	EXT("vp_mark_static") END
	EXT("vp_done") throw PathEnd{"ok","",""}; END
	EXT("vp_print") fprintf(stderr,"[print] %s %s\n",rdStr(s,conc(s,a[0])).c_str(),a[1].e?X.str(a[1].e).c_str():hex(a[1].c).c_str()); END
	EXT("malloc") u64 n=conc(s,a[0]); if (n>(1u<<28)) r=Val((u64)0); else r=Val(mallocObj(s,n,s.st.back()->f->code[s.st.back()->pc].I)); END
	EXT("vp_calloc1") u64 n=conc(s,a[0]); if (n>(1u<<28)) r=Val((u64)0); else r=Val(mallocObj(s,n,d.I,true)); END
	EXT("free") freeObj(s,conc(s,a[0])); END
	auto cpy=[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { u64 n=conc(s,a[2]); u64 p=conc(s,a[0]), q=conc(s,a[1]); copyMem(s,p,q,n); r=Val(p); return true; };
	reg("llvm.memcpy",cpy); reg("llvm.memmove",cpy); reg("memcpy",cpy); reg("memmove",cpy); reg("llvm.memcpy.inline",cpy);
	auto set=[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { u64 n=conc(s,a[2]), p=conc(s,a[0]); r=Val(p); if (!n) return true; u32 id,off; checkAccess(s,p,n,true,id,off); Obj *o=s.mem.w(id);
		if (!a[1].e) { memset(o->d+off,(int)a[1].c,n); if (o->s) memset(o->s+off,0,n*sizeof(E)); } else { mkSym(o); E b=X.extract(a[1].e,0,8); for (u64 i=0;i<n;i++) o->s[off+i]=b; } return true; };
	reg("llvm.memset",set); reg("memset",set);
	auto cmp=[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool {
		u64 n=conc(s,a[2]); std::vector<E> p=bytesAt(s,conc(s,a[0]),n), q=bytesAt(s,conc(s,a[1]),n);
		bool eqonly=d.cf && d.cf->getName()=="bcmp";
		if (eqonly) { E c=X.True; for (u64 i=0;i<n;i++) c=X.and_(c,X.eq(p[i],q[i])); r=mk(X.zext(X.not_(c),32)); return true; }
		E res=X.mkConst(32,0);
		for (int64_t i=(int64_t)n-1;i>=0;i--) res=X.ite(X.eq(p[i],q[i]),res,X.ite(X.ult(p[i],q[i]),X.mkConst(32,(u64)-1),X.mkConst(32,1)));
		r=mk(res); return true; };
	reg("memcmp",cmp); reg("bcmp",cmp);
	for (const char *n:{"llvm.lifetime.start","llvm.lifetime.end","llvm.assume","llvm.experimental.noalias.scope.decl","llvm.prefetch","llvm.donothing","llvm.invariant.end","llvm.stackrestore","llvm.dbg.value","llvm.dbg.declare","llvm.dbg.label","llvm.va_end"}) reg(n,[](State&,const DInst&,std::vector<Val>&,Val&r)->bool{ return true; });
	EXT("llvm.va_start") Frame *f=top(s); u64 sz=0; for (auto &v:f->va) { if (v.e&&v.e->width==80) { sz=(sz+15)&~15ull; sz+=16; } else sz+=8; }
		Obj *o=newObj(sz+8,O_STACK,d.I); u32 id=s.mem.alloc(o); top(s)->allocas.push_back(id); u64 off=0;
		for (auto &v:top(s)->va) { if (v.e&&v.e->width==80) { off=(off+15)&~15ull; storeAt(s,id,off,v,80); off+=16; } else { storeAt(s,id,off,v.e?Val(X.zext(v.e,64)):v,64); off+=8; } }
		u64 ap=conc(s,a[0]); store(s,Val(ap),Val((u64)48),32); store(s,Val(ap+4),Val((u64)176),32); store(s,Val(ap+8),Val((u64)id<<32),64); store(s,Val(ap+16),Val((u64)0),64); END
	EXT("llvm.va_copy") copyMem(s,conc(s,a[0]),conc(s,a[1]),24); END
	EXT("llvm.stacksave") r=Val((u64)0); END
	EXT("llvm.invariant.start") r=Val((u64)0); END
	EXT("llvm.expect") r=a[0]; END
	EXT("llvm.is.constant") r=Val((u64)0); END
	EXT("llvm.objectsize") r=Val(~0ull & maskw(d.w)); END
	EXT("llvm.launder.invariant.group") r=a[0]; END
	EXT("llvm.strip.invariant.group") r=a[0]; END
	EXT("llvm.trap") violation("trap","trap instruction"); END
	EXT("llvm.ubsantrap") violation("ub","undefined behaviour trap"); END
	EXT("llvm.eh.typeid.for") r=Val((u64)tiId(a[0].c)); END
	EXT("llvm.umax") E x=toE(a[0],d.w),y=toE(a[1],d.w); r=mk(X.ite(X.ult(x,y),y,x)); END
	EXT("llvm.umin") E x=toE(a[0],d.w),y=toE(a[1],d.w); r=mk(X.ite(X.ult(x,y),x,y)); END
	EXT("llvm.smax") E x=toE(a[0],d.w),y=toE(a[1],d.w); r=mk(X.ite(X.slt(x,y),y,x)); END
	EXT("llvm.smin") E x=toE(a[0],d.w),y=toE(a[1],d.w); r=mk(X.ite(X.slt(x,y),x,y)); END
	EXT("llvm.abs") E x=toE(a[0],d.w); r=mk(X.ite(X.slt(x,X.mkConst(d.w,0)),X.neg(x),x)); END
	EXT("llvm.usub.sat") E x=toE(a[0],d.w),y=toE(a[1],d.w); r=mk(X.ite(X.ult(x,y),X.mkConst(d.w,0),X.sub(x,y))); END
	EXT("llvm.uadd.sat") E x=toE(a[0],d.w),y=toE(a[1],d.w); E t=X.add(x,y); r=mk(X.ite(X.ult(t,x),X.not_(X.mkConst(d.w,0)),t)); END
	EXT("llvm.ctpop") E x=toE(a[0],d.w); if (Ctx::isC(x)) { r=Val((u64)__builtin_popcountll(x->c0)); return true; } E t=X.mkConst(d.w,0); for (unsigned i=0;i<d.w;i++) t=X.add(t,X.zext(X.extract(x,i,1),d.w)); r=mk(t); END
	EXT("llvm.ctlz") E x=toE(a[0],d.w); E t=X.mkConst(d.w,d.w); for (unsigned i=0;i<d.w;i++) t=X.ite(X.extract(x,i,1),X.mkConst(d.w,d.w-1-i),t); r=mk(t); END
	EXT("llvm.cttz") E x=toE(a[0],d.w); E t=X.mkConst(d.w,d.w); for (int i=d.w-1;i>=0;i--) t=X.ite(X.extract(x,i,1),X.mkConst(d.w,i),t); r=mk(t); END
	EXT("llvm.bswap") E x=toE(a[0],d.w), t=0; for (unsigned i=0;i<d.w;i+=8) { E b=X.extract(x,i,8); t=t?X.concat(t,b):b; } r=mk(t); END
	auto fsh=[](bool left){ return [left](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { u64 k=conc(s,a[2])%d.w; E c=X.concat(toE(a[0],d.w),toE(a[1],d.w)); if (left) r=mk(X.extract(c,d.w-k,d.w)); else r=mk(X.extract(c,k,d.w)); return true; }; };
	reg("llvm.fshl",fsh(true)); reg("llvm.fshr",fsh(false));
	auto ov=[](int op,bool sg){ return [op,sg](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool {
		unsigned w=argw(d,0); E x=toE(a[0],w), y=toE(a[1],w); unsigned w2=op==2?2*w:w+1;
		E xe=sg?X.sext(x,w2):X.zext(x,w2), ye=sg?X.sext(y,w2):X.zext(y,w2); E t=op==0?X.add(xe,ye):op==1?X.sub(xe,ye):X.mul(xe,ye); E lo=X.extract(t,0,w);
		E o=X.not_(X.eq(sg?X.sext(lo,w2):X.zext(lo,w2),t));
		Val v[2]={mk(lo),mk(o)}; setRet(s,d,v,2); return false; }; };
	reg("llvm.sadd.with.overflow",ov(0,true)); reg("llvm.uadd.with.overflow",ov(0,false)); reg("llvm.ssub.with.overflow",ov(1,true)); reg("llvm.usub.with.overflow",ov(1,false)); reg("llvm.smul.with.overflow",ov(2,true)); reg("llvm.umul.with.overflow",ov(2,false));
	auto fab=[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { r=mk(X.fabs_(toE(a[0],d.w))); return true; };
	reg("llvm.fabs",fab); reg("fabsl",fab); reg("fabs",fab);
	auto fmo=[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { r=mk(X.farith(K_FREM,toE(a[0],d.w),toE(a[1],d.w))); return true; };
	reg("fmodl",fmo); reg("fmod",fmo);
	auto flr=[](int k){ return [k](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { E x=toE(a[0],d.w); if (!Ctx::isC(x)) inconclusive("symbolic floor/ceil/round"); long double v=Ctx::toLD(x); v = k==0?floorl(v):k==1?ceill(v):k==2?truncl(v):k==4?roundl(v):rintl(v); r=mk(X.mkLD(d.w,v)); return true; }; };
	for (const char *n:{"floorl","floor","llvm.floor"}) reg(n,flr(0)); for (const char *n:{"ceill","ceil","llvm.ceil"}) reg(n,flr(1)); for (const char *n:{"truncl","trunc","llvm.trunc"}) reg(n,flr(2)); for (const char *n:{"rintl","rint","llvm.rint","nearbyint","nearbyintl","llvm.nearbyint","roundeven","llvm.roundeven"}) reg(n,flr(3)); for (const char *n:{"roundl","round","llvm.round"}) reg(n,flr(4));
	// functions of floating point numbers without a symbolic model: known values only
	auto fun1=[](double (*f)(double), long double (*fl)(long double)){ return [f,fl](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { E x=toE(a[0],d.w); if (!Ctx::isC(x)) inconclusive("function of a symbolic floating point value"); long double v=Ctx::toLD(x); r=mk(X.mkLD(d.w,d.w==64?(long double)f((double)v):fl(v))); return true; }; };
	auto fun2=[](double (*f)(double,double), long double (*fl)(long double,long double)){ return [f,fl](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { E x=toE(a[0],d.w), y=toE(a[1],d.w); if (!Ctx::isC(x)||!Ctx::isC(y)) inconclusive("function of a symbolic floating point value"); long double v=Ctx::toLD(x), w=Ctx::toLD(y); r=mk(X.mkLD(d.w,d.w==64?(long double)f((double)v,(double)w):fl(v,w))); return true; }; };
	#define F1(n) { auto e=fun1(static_cast<double(*)(double)>(::n),::n##l); reg(#n,e); reg(#n "l",e); reg("llvm." #n,e); }
	#define F2(n) { auto e=fun2(static_cast<double(*)(double,double)>(::n),::n##l); reg(#n,e); reg(#n "l",e); reg("llvm." #n,e); }
	F1(sqrt) F1(log) F1(log10) F1(log2) F1(exp) F1(exp2) F1(log1p) F1(expm1) F1(cbrt) F1(sin) F1(cos) F1(tan) F2(pow) F2(hypot) F2(copysign) F2(fmin) F2(fmax) F2(remainder) F2(nextafter) F2(atan2)
	reg("llvm.minnum",fun2(static_cast<double(*)(double,double)>(::fmin),::fminl)); reg("llvm.maxnum",fun2(static_cast<double(*)(double,double)>(::fmax),::fmaxl));
	auto toint=[](int k){ return [k](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { E x=toE(a[0],argw(d,0)); if (!Ctx::isC(x)) inconclusive("symbolic rounding"); long double v=Ctx::toLD(x); r=Val((u64)(k?llrintl(v):llroundl(v))); return true; }; };
	for (const char *n:{"lround","lroundl","llround","llroundl","llvm.lround","llvm.llround"}) reg(n,toint(0)); for (const char *n:{"lrint","lrintl","llrint","llrintl","llvm.lrint","llvm.llrint"}) reg(n,toint(1));
	auto ldx=[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { E x=toE(a[0],d.w); if (!Ctx::isC(x)) inconclusive("symbolic ldexp"); int k=(int)conc(s,a[1]); long double v=Ctx::toLD(x); r=mk(X.mkLD(d.w,d.w==64?(long double)ldexp((double)v,k):ldexpl(v,k))); return true; };
	for (const char *n:{"ldexp","ldexpl","llvm.ldexp","scalbn","scalbnl"}) reg(n,ldx);
	auto frx=[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { E x=toE(a[0],d.w); if (!Ctx::isC(x)) inconclusive("symbolic frexp"); int k; long double v=frexpl(Ctx::toLD(x),&k); store(s,a[1],Val((u64)(u32)k),32); r=mk(X.mkLD(d.w,v)); return true; };
	for (const char *n:{"frexp","frexpl"}) reg(n,frx);
	auto mdf=[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { E x=toE(a[0],d.w); if (!Ctx::isC(x)) inconclusive("symbolic modf"); long double ip; long double v=modfl(Ctx::toLD(x),&ip); store(s,a[1],Val(X.mkLD(d.w,ip)),d.w); r=mk(X.mkLD(d.w,v)); return true; };
	for (const char *n:{"modf","modfl"}) reg(n,mdf);
	auto fma_=[](State &s,const DInst &d,std::vector<Val> &a,Val &r)->bool { r=mk(X.farith(K_FADD,X.farith(K_FMUL,toE(a[0],d.w),toE(a[1],d.w)),toE(a[2],d.w))); return true; };
	reg("llvm.fmuladd",fma_);
	EXT("llvm.is.fpclass") unsigned w=argw(d,0); E x=toE(a[0],w); u64 m=conc(s,a[1]); E z=X.mkLD(w,0), inf=X.mkLD(w,__builtin_infl()), ax=X.fabs_(x); E nan=X.fcmp(CmpInst::FCMP_UNO,x,x), isinf=X.fcmp(CmpInst::FCMP_OEQ,ax,inf), zero=X.fcmp(CmpInst::FCMP_OEQ,x,z); bool neg=false; E res=X.False;
		if (((m>>9)&1)!=((m>>2)&1)||((m>>8)&1)!=((m>>3)&1)||((m>>7)&1)!=((m>>4)&1)||((m>>6)&1)!=((m>>5)&1)||(m&1)!=((m>>1)&1)) inconclusive("test of the sign of a floating point class"); (void)neg;
		E tiny=X.mkLD(w,w==64?(long double)2.2250738585072014e-308:w==32?(long double)1.17549435e-38f:3.36210314311209350626e-4932L); E sub=X.and_(X.fcmp(CmpInst::FCMP_OLT,ax,tiny),X.not_(zero)), nor=X.and_(X.fcmp(CmpInst::FCMP_OGE,ax,tiny),X.not_(isinf));
		if (m&1) res=X.or_(res,nan); if (m&4) res=X.or_(res,isinf); if (m&8) res=X.or_(res,nor); if (m&16) res=X.or_(res,sub); if (m&32) res=X.or_(res,zero); r=mk(res); END
	EXT("llvm.sadd.sat") E x=X.sext(toE(a[0],d.w),d.w+1),y=X.sext(toE(a[1],d.w),d.w+1); E t=X.add(x,y), lo=X.extract(t,0,d.w); E o=X.not_(X.eq(X.sext(lo,d.w+1),t)); E sg=X.extract(t,d.w,1); E mn=X.mkC128(d.w,(unsigned __int128)1<<(d.w-1)); r=mk(X.ite(o,X.ite(sg,mn,X.not_(mn)),lo)); END
	EXT("llvm.ssub.sat") E x=X.sext(toE(a[0],d.w),d.w+1),y=X.sext(toE(a[1],d.w),d.w+1); E t=X.sub(x,y), lo=X.extract(t,0,d.w); E o=X.not_(X.eq(X.sext(lo,d.w+1),t)); E sg=X.extract(t,d.w,1); E mn=X.mkC128(d.w,(unsigned __int128)1<<(d.w-1)); r=mk(X.ite(o,X.ite(sg,mn,X.not_(mn)),lo)); END
	EXT("llvm.bitreverse") E x=toE(a[0],d.w), t=0; for (unsigned i=0;i<d.w;i++) { E b=X.extract(x,i,1); t=t?X.concat(t,b):b; } r=mk(t); END
	EXT("llvm.ptrmask") r=mk(X.and_(toE(a[0],64),toE(a[1],64))); END
	EXT("llvm.threadlocal.address") r=a[0]; END
	EXT("vp_unwind") u64 exc=conc(s,a[0]); unwind(s,exc,s.st.size()-1); return false; END
	EXT("vp_call_dtor") u64 fn=conc(s,a[0]); auto it=faddr.find(fn); if (it==faddr.end()||it->second->F->isDeclaration()) return true; std::vector<Val> ar(1,a[1]); pushFrame(s,it->second,ar); return false; END
	EXT("__dynamic_cast") u64 p=conc(s,a[0]); if (!p) { r=Val((u64)0); return true; } u64 vt=rd64(s,p); int64_t ott=rd64(s,vt-16); u64 ti=rd64(s,vt-8); u64 q=p+ott; r=Val(upcast(s,ti,conc(s,a[2]),q)?q:0); END
	EXT("vp_host_fmt") // (buf,size,fmt,prec,long double)
		u64 buf=conc(s,a[0]), n=conc(s,a[1]); std::string fmt=rdStr(s,conc(s,a[2])); int prec=(int)conc(s,a[3]); E x=toE(a[4],80);
		if (!Ctx::isC(x)) inconclusive("formatting a symbolic floating point value"); char tmp[5200]; int l=snprintf(tmp,sizeof tmp,fmt.c_str(),prec,Ctx::toLD(x)); if ((u64)l+1>n) inconclusive("float text too long");
		u32 id,off; checkAccess(s,buf,l+1,true,id,off); for (int i=0;i<=l;i++) storeAt(s,id,off+i,Val((u64)(u8)tmp[i]),8); r=Val((u64)(u32)l); END
	EXT("vp_host_strtold") // (text,len,out long double*, as double?) -> text is a syntactically valid number
		u64 p=conc(s,a[0]), n=conc(s,a[1]); std::vector<E> b=bytesAt(s,p,n); bool c=true; std::string t; for (E e:b) { E f=e; if (!Ctx::isC(f)) { if (X.unaryByte(f)) { Bits256 dm=s.pc.domain(f->vs->v[0]); if (dm.count()==1) { Ctx::Vec v; X.evalUnary(f,v); f=X.mkConst(8,v.v[dm.first()]); } } } if (Ctx::isC(f)) t+=(char)f->c0; else c=false; }
		u64 o=conc(s,a[2]); int kind=(int)conc(s,a[3]); Val v;
		if (c) { long double ld; if (kind==1) ld=strtod(t.c_str(),0); else if (kind==2) ld=strtof(t.c_str(),0); else ld=strtold(t.c_str(),0); v=Val(X.mkLD(80,ld)); }
		else { std::string nm="~num"+std::to_string(kind); for (E e:b) nm+="_"+std::to_string(e->id); E dv=X.mkVar(nm,64,false,true);
			// an arbitrary finite double
			E ex=X.extract(dv,52,11); assume(s,X.not_(X.eq(ex,X.mkConst(11,0x7ff)))); v=Val(X.fpext(dv,80)); }
		store(s,Val(o),v,80); END
	EXT("vp_abort_state") inconclusive("aborted by model: "+rdStr(s,conc(s,a[0]))); END
	EXT("vp_stub") stubs[rdStr(s,conc(s,a[0]))]++; END
}
// ------------------------------------------------------------------ instruction execution
static Val binop(State &s, unsigned opc, unsigned w, const Val &a, const Val &b) {
	if (!a.e && !b.e && w<=64) {
		u64 x=a.c,y=b.c,m=maskw(w);
		switch(opc) {
			case Instruction::Add: return Val((x+y)&m); case Instruction::Sub: return Val((x-y)&m); case Instruction::Mul: return Val((x*y)&m);
			case Instruction::And: return Val(x&y); case Instruction::Or: return Val(x|y); case Instruction::Xor: return Val(x^y);
			case Instruction::Shl: return Val(y>=w?0:(x<<y)&m); case Instruction::LShr: return Val(y>=w?0:x>>y); case Instruction::AShr: return Val((u64)(sext64(x,w)>>(y>=w?w-1:y))&m);
			case Instruction::UDiv: if (!y) violation("div-by-zero","integer division by zero"); return Val(x/y);
			case Instruction::URem: if (!y) violation("div-by-zero","integer remainder by zero"); return Val(x%y);
			case Instruction::SDiv: case Instruction::SRem: { if (!y) violation("div-by-zero","integer division by zero"); int64_t p=sext64(x,w),q=sext64(y,w); if (q==-1) { if (p==sext64(1ull<<(w-1),w)) violation("div-overflow","signed division overflow"); return Val(opc==Instruction::SDiv?(u64)(-p)&m:0); } return Val((u64)(opc==Instruction::SDiv?p/q:p%q)&m); }
		}
	}
	E x=toE(a,w),y=toE(b,w);
	switch(opc) {
		case Instruction::Add: return mk(X.add(x,y)); case Instruction::Sub: return mk(X.sub(x,y)); case Instruction::Mul: return mk(X.mul(x,y));
		case Instruction::And: return mk(X.and_(x,y)); case Instruction::Or: return mk(X.or_(x,y)); case Instruction::Xor: return mk(X.xor_(x,y));
		case Instruction::Shl: return mk(X.shl(x,y)); case Instruction::LShr: return mk(X.lshr(x,y)); case Instruction::AShr: return mk(X.ashr(x,y));
		case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
			bool sg=opc==Instruction::SDiv||opc==Instruction::SRem;
			if (!decide(s,X.not_(X.eq(y,X.mkConst(w,0))),[](State&){})) violation("div-by-zero","integer division by zero");
			if (sg) { E bad=X.and_(X.eq(y,X.mkC128(w,~(unsigned __int128)0)),X.eq(x,X.mkC128(w,(unsigned __int128)1<<(w-1)))); if (decide(s,bad,[](State&){})) violation("div-overflow","signed division overflow"); }
			return mk(X.divrem(opc==Instruction::UDiv?K_UDIV:opc==Instruction::URem?K_UREM:opc==Instruction::SDiv?K_SDIV:K_SREM,x,y));
		}
	}
	inconclusive("binop");
}
static E icmpE(unsigned p, E x, E y) {
	switch(p) {
		case CmpInst::ICMP_EQ: return X.eq(x,y); case CmpInst::ICMP_NE: return X.not_(X.eq(x,y));
		case CmpInst::ICMP_ULT: return X.ult(x,y); case CmpInst::ICMP_ULE: return X.ule(x,y); case CmpInst::ICMP_UGT: return X.ult(y,x); case CmpInst::ICMP_UGE: return X.ule(y,x);
		case CmpInst::ICMP_SLT: return X.slt(x,y); case CmpInst::ICMP_SLE: return X.sle(x,y); case CmpInst::ICMP_SGT: return X.slt(y,x); default: return X.sle(y,x);
	}
}
static Val icmp(unsigned p, unsigned w, const Val &a, const Val &b) {
	if (!a.e&&!b.e&&w<=64) {
		u64 x=a.c,y=b.c; int64_t sx=sext64(x,w),sy=sext64(y,w); bool r;
		switch(p) { case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_SLT:r=sx<sy;break; case CmpInst::ICMP_SLE:r=sx<=sy;break; case CmpInst::ICMP_SGT:r=sx>sy;break; default:r=sx>=sy; }
		return Val((u64)r);
	}
	return mk(icmpE(p,toE(a,w),toE(b,w)));
}
static void doReturn(State &s, const DInst &d, Frame *f) {
	std::vector<Val> rv; if (d.n) { unsigned n=nslots(d.I->getOperand(0)->getType()); for (unsigned i=0;i<n;i++) rv.push_back(getv(f,d.ops[0],i)); }
	popFrame(s);
	if (s.st.empty()) return;
	Frame *c=s.st.back().get(); const DInst &ci=c->f->code[c->pc]; setRet(s,ci,rv.data(),rv.size());
}
static void step(State &s) {
	Frame *f=top(s); const DInst &d=f->f->code[f->pc]; nSteps++; s.steps++;
	Val *R=f->regs.data();
#define A(i) (d.ops[i].slot>=0?R[d.ops[i].slot]:d.ops[i].v)
	switch(d.opc) {
		case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
		case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
			Val v=reduce(s,binop(s,d.opc,d.w,A(0),A(1))); f=top(s); f->regs[d.dst]=v; f->pc++; return; }
		case Instruction::ICmp: R[d.dst]=icmp(d.aux,d.w2,A(0),A(1)); f->pc++; return;
		case Instruction::FCmp: R[d.dst]=mk(X.fcmp(d.aux,toE(A(0),d.w2),toE(A(1),d.w2))); f->pc++; return;
		case Instruction::FAdd: R[d.dst]=mk(X.farith(K_FADD,toE(A(0),d.w),toE(A(1),d.w))); f->pc++; return;
		case Instruction::FSub: R[d.dst]=mk(X.farith(K_FSUB,toE(A(0),d.w),toE(A(1),d.w))); f->pc++; return;
		case Instruction::FMul: R[d.dst]=mk(X.farith(K_FMUL,toE(A(0),d.w),toE(A(1),d.w))); f->pc++; return;
		case Instruction::FDiv: R[d.dst]=mk(X.farith(K_FDIV,toE(A(0),d.w),toE(A(1),d.w))); f->pc++; return;
		case Instruction::FRem: R[d.dst]=mk(X.farith(K_FREM,toE(A(0),d.w),toE(A(1),d.w))); f->pc++; return;
		case Instruction::FNeg: { E x=toE(A(0),d.w); E sb=d.w==80?X.mkConst(80,0,0x8000):X.mkConst(d.w,1ull<<(d.w-1)); bool fpk=x->kind>=K_FADD; if (fpk) R[d.dst]=mk(X.farith(K_FSUB,X.mkLD(d.w,-0.0L),x)); else R[d.dst]=mk(X.xor_(x,sb)); f->pc++; return; }
		case Instruction::Trunc: { Val v=A(0); R[d.dst]=v.e?mk(X.extract(v.e,0,d.w)):Val(v.c&maskw(d.w)); f->pc++; return; }
		case Instruction::ZExt: { Val v=A(0); R[d.dst]=(v.e||d.w>64)?reduce(s,mk(X.zext(toE(v,d.w2),d.w))):v; f->pc++; return; }
		case Instruction::SExt: { Val v=A(0); R[d.dst]=(v.e||d.w>64)?mk(X.sext(toE(v,d.w2),d.w)):Val((u64)sext64(v.c,d.w2)&maskw(d.w)); f->pc++; return; }
		case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v=A(0); if (v.e) v=mk(d.w<d.w2?X.extract(v.e,0,d.w):X.zext(v.e,d.w)); else v.c&=maskw(d.w); R[d.dst]=v; f->pc++; return; }
		case Instruction::BitCast: case Instruction::Freeze: for (unsigned i=0;i<d.nslots;i++) R[d.dst+i]=getv(f,d.ops[0],i); f->pc++; return;
		case Instruction::SIToFP: case Instruction::UIToFP: R[d.dst]=mk(X.itofp(d.opc==Instruction::SIToFP,toE(A(0),d.w2),d.w)); f->pc++; return;
		case Instruction::FPToSI: case Instruction::FPToUI: R[d.dst]=mk(X.fptoi(d.opc==Instruction::FPToSI,toE(A(0),d.w2),d.w)); f->pc++; return;
		case Instruction::FPExt: R[d.dst]=mk(X.fpext(toE(A(0),d.w2),d.w)); f->pc++; return;
		case Instruction::FPTrunc: R[d.dst]=mk(X.fptrunc(toE(A(0),d.w2),d.w)); f->pc++; return;
		case Instruction::GetElementPtr: {
			Val b=A(0); bool sym=b.e!=0; u64 off=d.aux;
			for (auto &g:*d.gep) { Val i=A(g.first); if (i.e) sym=true; else off+=(u64)sext64(i.c,bitw(d.I->getOperand(g.first)->getType()))*g.second; }
			if (!sym) R[d.dst]=Val(b.c+off);
			else { E e=X.add(toE(b,64),X.mkConst(64,off)); for (auto &g:*d.gep) { Val i=A(g.first); if (i.e) e=X.add(e,X.mul(X.sext(i.e,64),X.mkConst(64,g.second))); } R[d.dst]=mk(e); }
			f->pc++; return; }
		case Instruction::Alloca: {
			u64 n=d.aux*conc(s,A(0)); f=top(s); if (n>(1u<<26)) violation("stack-overflow","alloca of "+std::to_string(n)+" bytes"); Obj *o=newObj(n,O_STACK,d.I); setUninit(o); u32 id=s.mem.alloc(o); f->allocas.push_back(id); f->regs[d.dst]=Val((u64)id<<32); f->pc++; return; }
		case Instruction::Load: {
			if (d.nslots==1 && d.w) { Val v=load(s,A(0),d.w); f=top(s); f->regs[d.dst]=v; f->pc++; return; }
			std::vector<std::pair<Type*,u64>> lt; leafTypes(d.I->getType(),0,lt); u64 p=conc(s,A(0)); f=top(s); for (size_t i=0;i<lt.size();i++) f->regs[d.dst+i]=load(s,Val(p+lt[i].second),bitw(lt[i].first)); f->pc++; return; }
		case Instruction::Store: {
			Type *t=d.I->getOperand(0)->getType();
			if (bitw(t)) { store(s,A(1),A(0),bitw(t)); top(s)->pc++; return; }
			std::vector<std::pair<Type*,u64>> lt; leafTypes(t,0,lt); u64 p=conc(s,A(1)); for (size_t i=0;i<lt.size();i++) store(s,Val(p+lt[i].second),getv(f,d.ops[0],i),bitw(lt[i].first)); top(s)->pc++; return; }
		case Instruction::Select: {
			Val c=A(0);
			if (c.e) {
				if (d.nslots==1 && d.w) {
					Val a=A(1),b=A(2);
					if (d.I->getType()->isPointerTy()) { // do not merge pointers
						bool t=decide(s,c.e,[](State&){}); f=top(s); f->regs[d.dst]=t?a:b; f->pc++; return; }
					f->regs[d.dst]=mk(X.ite(c.e,toE(a,d.w),toE(b,d.w))); f->pc++; return;
				}
				c=Val((u64)decide(s,c.e,[](State&){})); f=top(s);
			}
			for (unsigned i=0;i<d.nslots;i++) f->regs[d.dst+i]=getv(f,d.ops[c.c?1:2],i); f->pc++; return; }
		case Instruction::Br: {
			if (d.t1<0) { enterBB(f,d.t0); return; }
			Val c=A(0); bool t;
			if (c.e) { int t0=d.t0,t1=d.t1; bool m=SV->evalModel(s.pc,c.e); t=decide(s,c.e,[&](State &o){ enterBB(top(o),m?t1:t0); }); f=top(s); } else t=c.c&1;
			enterBB(f,t?d.t0:d.t1); return; }
		case Instruction::Switch: {
			Val v=A(0); unsigned w=d.w2;
			if (!v.e) { int t=d.t0; for (auto &c:*d.sw) if (c.first==v.c) { t=c.second; break; } enterBB(f,t); return; }
			if (E fx=fixedOf(s,v.e)) { int t=d.t0; for (auto &c:*d.sw) if (c.first==fx->c0) { t=c.second; break; } enterBB(f,t); return; }
			noteUninit(s,v.e,"switch");
			// group by target
			std::map<int,E> conds; E none=X.True; for (auto &c:*d.sw) { E q=X.eq(v.e,X.mkConst(w,c.first)); if (c.second!=d.t0) none=X.and_(none,X.not_(q)); if (c.second==d.t0) continue; auto it=conds.find(c.second); if (it==conds.end()) conds[c.second]=q; else it->second=X.or_(it->second,q); }
			conds[d.t0]=none;
			int mine=-1;
			for (auto &p:conds) if (mine<0 && SV->evalModel(s.pc,p.second)) mine=p.first;
			if (mine<0) inconclusive("switch");
			for (auto &p:conds) { if (p.first==mine) continue; std::vector<std::pair<u32,u64>> patch; bool o; try { o=SV->may(s.pc,p.second,patch,false); } catch (Unknown &u) { inconclusive(u.what); } if (!o) { nInfeasBranches++; continue; } State *n=cloneState(s); SV->add(n->pc,p.second,patch); enterBB(top(*n),p.first); work.push_back(n); }
			SV->addc(s.pc,conds[mine]); enterBB(top(s),mine); return; }
		case Instruction::Ret: doReturn(s,d,f); return;
		case Instruction::Unreachable: violation("unreachable","unreachable code executed (undefined behaviour or missing return)");
		case Instruction::ExtractValue: for (unsigned i=0;i<d.nslots;i++) R[d.dst+i]=getv(f,d.ops[0],d.aux+i); f->pc++; return;
		case Instruction::InsertValue: { for (unsigned i=0;i<d.nslots;i++) R[d.dst+i]=getv(f,d.ops[0],i); for (int i=0;i<d.t0;i++) R[d.dst+d.aux+i]=getv(f,d.ops[1],i); f->pc++; return; }
		case Instruction::ExtractElement: { u64 i=conc(s,A(1)); f=top(s); f->regs[d.dst]=getv(f,d.ops[0],i); f->pc++; return; }
		case Instruction::InsertElement: { u64 k=conc(s,A(2)); f=top(s); for (unsigned i=0;i<d.nslots;i++) f->regs[d.dst+i]=getv(f,d.ops[0],i); f->regs[d.dst+k]=getv(f,d.ops[1]); f->pc++; return; }
		case Instruction::LandingPad: R[d.dst]=Val(s.excPtr); R[d.dst+1]=Val((u64)(u32)s.excSel); f->pc++; return;
		case Instruction::Resume: { u64 exc=getv(f,d.ops[0],0).c; unwind(s,exc,s.st.size()-1); return; }
		case Instruction::AtomicRMW: { auto *ai=cast<AtomicRMWInst>(d.I); Val old=load(s,A(0),d.w); Val nv; switch(ai->getOperation()) { case AtomicRMWInst::Add: nv=binop(s,Instruction::Add,d.w,old,A(1)); break; case AtomicRMWInst::Sub: nv=binop(s,Instruction::Sub,d.w,old,A(1)); break; case AtomicRMWInst::Xchg: nv=A(1); break; default: inconclusive("atomicrmw"); } store(s,A(0),nv,d.w); f=top(s); f->regs[d.dst]=old; f->pc++; return; }
		case Instruction::AtomicCmpXchg: { unsigned w=bitw(d.I->getOperand(1)->getType()); Val old=load(s,A(0),w); u64 o=conc(s,old),e=conc(s,A(1)); if (o==e) store(s,A(0),A(2),w); f=top(s); f->regs[d.dst]=Val(o); f->regs[d.dst+1]=Val((u64)(o==e)); f->pc++; return; }
		case Instruction::Fence: f->pc++; return;
		case Instruction::Call: case Instruction::Invoke: {
			auto *cb=cast<CallBase>(d.I); std::vector<Val> args; unsigned na=cb->arg_size();
			FuncInfo *ci=d.callee; int ext=d.ext;
			if (!d.cf) {
				if (cb->isInlineAsm()) { setRet(s,d,0,0); return; }
				u64 t=conc(s,A(d.n-1)); f=top(s); R=f->regs.data();
				auto it=faddr.find(t); if (it==faddr.end()) { if (!t) violation("null-deref","call through null function pointer"); violation("wild","call through wild pointer "+hex(t)); }
				if (it->second->F->isDeclaration()) ext=extId(it->second->F->getName()); else ci=it->second;
			}
			for (unsigned i=0;i<na;i++) {
				Type *t=cb->getArgOperand(i)->getType();
				if (t->isMetadataTy()) { args.push_back(Val()); continue; }
				unsigned ns=nslots(t); 
				if (cb->isByValArgument(i)) { u64 sz=DL->getTypeAllocSize(cb->getParamByValType(i)); u64 src=conc(s,A(i)); Obj *o=newObj(sz,O_STACK,d.I); setUninit(o); u32 id=s.mem.alloc(o); copyMem(s,(u64)id<<32,src,sz); f=top(s); f->allocas.push_back(id); args.push_back(Val((u64)id<<32)); continue; }
				for (unsigned k=0;k<ns;k++) args.push_back(getv(f,d.ops[i],k));
			}
			if (ci) { pushFrame(s,ci,args); return; }
			Val r; if (exts[ext](s,d,args,r)) { setRet(s,d,&r,1); }
			return; }
		case Instruction::VAArg: inconclusive("va_arg");
		default: inconclusive(std::string("instruction ")+d.I->getOpcodeName());
	}
}
// ------------------------------------------------------------------ exploration
static std::string hexBytes(const std::vector<u8> &b) { static const char *h="0123456789abcdef"; std::string r; for (u8 c:b) { r+=h[c>>4]; r+=h[c&15]; } return r; }
static std::string inputsStr(State &s) {
	std::string r;
	for (auto &i:s.inputs) { std::vector<u8> b; for (E e:i.v) { u64 v=s.pc.val(e->c0); for (unsigned k=0;k<e->width;k+=8) b.push_back(v>>k); } if (!r.empty()) r+=";"; r+=i.name+"="+hexBytes(b); }
	return r;
}
static std::string obsStr(State &s) { std::string r; for (auto &v:s.obs) { u64 x=v.e?evalU(s,v.e):v.c; if (!r.empty()) r+=","; r+=hex(x).substr(2); } return r; }
struct Shared { std::atomic<int> next; std::atomic<int> viol; std::atomic<int> stop; };
static Shared *SH;
static void finish(State &s, const PathEnd &p) {
	endCount[p.status]++;
	if (p.status=="ok") {
		nPaths++; samplesSeen++;
		size_t k; if (samples.size()<SAMPLES) { samples.push_back(Sample()); k=samples.size()-1; } else { k=rng()%samplesSeen; if (k>=SAMPLES) return; }
		bool z=true; try { std::vector<std::pair<u32,u64>> m; z=SV->checkPath(s.pc,m); for (auto &x:m) s.pc.model[x.first]=x.second; } catch (Unknown &u) { }
		if (!z) { nErr++; errs_m["explored path refuted by full solver check"]++; }
		samples[k]=Sample{inputsStr(s),obsStr(s),z};
	} else if (p.status=="pruned") nPruned++;
	else if (p.status=="violation") {
		nViol++; SH->viol++;
		if (viols.size()<16) viols.push_back(ViolRec{p.kind,p.msg,inputsStr(s),trace(s),false});
	} else { nErr++; std::string m=p.msg; if (errs_m.size()<40) { if (!errs_m.count(m)) m+=""; errs_m[m+"\n"+trace(s)]++; } SH->stop=1; }
}
// run a state until it ends; newly forked states are on `work`
static bool runState(State *s) {
	try {
		while (true) {
			if (s->st.empty()) {
				if (!s->todoCtors.empty()) { u64 fn=s->todoCtors.front().first; s->todoCtors.erase(s->todoCtors.begin()); pushFrame(*s,faddr[fn],{}); continue; }
				if (CHECKLEAK) leakCheck(*s);
				finish(*s,PathEnd{"ok","",""}); return true;
			}
			step(*s);
			if (s->steps>STEP_LIMIT) violation("hang","no termination within "+std::to_string(STEP_LIMIT)+" steps");
			if ((nSteps&0xffff)==0) { if (elapsed()>TIME_LIMIT || SH->stop || SH->viol>=MAXVIOL) { SH->stop=1; return false; } }
		}
	} catch (PathEnd &p) { finish(*s,p); return true; }
}
static void explore(bool bfs) {
	while (!work.empty()) {
		if (elapsed()>TIME_LIMIT || SH->stop || SH->viol>=MAXVIOL) { SH->stop=1; return; }
		State *s;
		if (bfs) { s=work.front(); work.erase(work.begin()); } else { s=work.back(); work.pop_back(); }
		if (!runState(s)) { delete s; return; }
		delete s;
		if (bfs && work.size()>=TARGET_PENDING) return;
	}
}
static void esc(std::string &o, const std::string &s) { o+='"'; for (unsigned char c:s) { if (c=='"'||c=='\\') { o+='\\'; o+=c; } else if (c=='\n') o+="\\n"; else if (c=='\t') o+="\\t"; else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } o+='"'; }
static void writeOut(const std::string &file, bool complete) {
	std::string o="{"; auto num=[&](const char *k, double v){ char b[64]; if (v==(double)(long long)v) snprintf(b,64,"\"%s\": %lld, ",k,(long long)v); else snprintf(b,64,"\"%s\": %.3f, ",k,v); o+=b; };
	num("steps",nSteps); num("forks",nForks); num("paths",nPaths); num("pruned",nPruned); num("violations_found",nViol); num("errors_found",nErr); num("concretizations",nConc); num("infeasible_branches",nInfeasBranches); num("asserts",nAsserts); num("assert_queries",nAssertQ);
	num("z3_queries",SS.z3_queries); num("z3_sat",SS.z3_sat); num("z3_unsat",SS.z3_unsat); num("z3_unknown",SS.z3_unknown); num("query_cache_hits",SS.cache_hits); num("domain_decided",SS.domain_decided); num("model_hits",SS.model_hits); num("path_checks",SS.path_checks); num("z3_time",SS.z3_time+1e-9); num("z3_max",SS.z3_max+1e-9); num("wall",elapsed()+1e-9); num("expr_nodes",X.nextId);
	o+="\"complete\": "; o+=complete?"true":"false";
	o+=", \"errors\": ["; bool first=true; for (auto &e:errs_m) { if (!first) o+=","; first=false; esc(o,e.first); } o+="]";
	o+=", \"reached\": {"; first=true; for (auto &e:reached) { if (!first) o+=","; first=false; esc(o,e.first); o+=":"+std::to_string(e.second); } o+="}";
	o+=", \"stubs\": {"; first=true; for (auto &e:stubs) { if (!first) o+=","; first=false; esc(o,e.first); o+=":"+std::to_string(e.second); } o+="}";
	o+=", \"functions\": ["; first=true; for (auto &e:finfo) if (e.second->executed) { if (!first) o+=","; first=false; esc(o,e.first->getName().str()); } o+="]";
	o+=", \"violations\": ["; first=true; for (auto &v:viols) { if (!first) o+=","; first=false; o+="{\"kind\":"; esc(o,v.kind); o+=",\"msg\":"; esc(o,v.msg); o+=",\"inputs\":"; esc(o,v.inputs); o+=",\"trace\":"; esc(o,v.trace); o+="}"; } o+="]";
	o+=", \"samples\": ["; first=true; for (auto &v:samples) { if (!first) o+=","; first=false; o+="{\"inputs\":"; esc(o,v.inputs); o+=",\"obs\":"; esc(o,v.obs); o+=",\"z3\":"; o+=v.z3ok?"true":"false"; o+="}"; } o+="]}";
	std::ofstream(file)<<o<<"\n";
}
int main(int argc, char **argv) {
	std::string bc, out="out"; 
	for (int i=1;i<argc;i++) { std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
		if (a=="--out") out=nx(); else if (a=="--time") TIME_LIMIT=atof(nx().c_str()); else if (a=="--jobs") JOBS=atoi(nx().c_str()); else if (a=="--seed") SEED=strtoull(nx().c_str(),0,10); else if (a=="--steps") STEP_LIMIT=strtoull(nx().c_str(),0,10); else if (a=="--maxviol") MAXVIOL=atoi(nx().c_str()); else if (a=="--noleak") CHECKLEAK=false; else if (a=="--samples") SAMPLES=atoi(nx().c_str()); else if (a=="--pending") TARGET_PENDING=atoi(nx().c_str()); else if (a=="--param") { std::string p=nx(); size_t q=p.find('='); PARAMS[p.substr(0,q)]=atol(p.c_str()+q+1); } else if (a=="-v") VERBOSE=true; else bc=a; }
	T0=std::chrono::steady_clock::now(); rngS^=SEED*0x9e3779b97f4a7c15ull; for (int i=0;i<8;i++) rng();
	SH=(Shared*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new (SH) Shared(); SH->next=0; SH->viol=0; SH->stop=0;
	SMDiagnostic err; M=parseIRFile(bc,err,LC); if (!M) { err.print("vpsym",llvm::errs()); return 2; }
	DL=&M->getDataLayout(); SV=new Solver; regExts();
	State *s0=new State;
	// objects for functions and globals
	for (auto &F:*M) { Obj *o=newObj(0,O_FUNC,0); u32 id=s0->mem.alloc(o); gaddr[&F]=(u64)id<<32; faddr[(u64)id<<32]=getFunc(&F); }
	std::vector<std::pair<const GlobalVariable*,u32>> gl;
	for (auto &G:M->globals()) { u64 sz=G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()).getFixedValue():0; if (G.isDeclaration()&&sz<64) sz=64; Obj *o=newObj(sz,O_GLOBAL,0); u32 id=s0->mem.alloc(o); gaddr[&G]=(u64)id<<32; gl.push_back(std::make_pair(&G,id));
		std::string n=G.getName().str(); if (n=="_ZTVN10__cxxabiv120__si_class_type_infoE") vtSI=(u64)id<<32; if (n=="_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVMI=(u64)id<<32; if (n=="_ZTVN10__cxxabiv117__class_type_infoE") vtCls=(u64)id<<32; }
	try { for (auto &p:gl) if (p.first->hasInitializer()) { Obj *o=s0->mem.get(p.second); initBytes(o,p.first->getInitializer(),0); o->ro=p.first->isConstant(); } } catch (PathEnd &p) { fprintf(stderr,"%s\n",p.msg.c_str()); return 2; }
	if (auto *gc=M->getNamedGlobal("llvm.global_ctors")) if (auto *ca=dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64,u64>> l; for (auto &op:ca->operands()) { auto *cs=cast<ConstantStruct>(op); if (auto *F=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) l.push_back(std::make_pair(cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),gaddr[F])); } std::stable_sort(l.begin(),l.end(),[](auto &a,auto &b){return a.first<b.first;}); for (auto &p:l) s0->todoCtors.push_back(std::make_pair(p.second,0)); }
	Function *mf=M->getFunction("vp_main"); if (!mf||mf->isDeclaration()) { fprintf(stderr,"no vp_main\n"); return 2; }
	s0->todoCtors.push_back(std::make_pair(gaddr[mf],0));
	work.push_back(s0);
	explore(true);
	if (work.empty() || SH->stop || SH->viol>=MAXVIOL) { writeOut(out+".0",work.empty()&&!SH->stop); return 0; }
	// parallel phase
	std::vector<State*> init=work; work.clear();
	for (size_t i=init.size()-1;i>0;i--) std::swap(init[i],init[rng()%(i+1)]);
	int nw=std::min<int>(JOBS,init.size()); std::vector<pid_t> pids; fflush(0);
	u64 keepErr=nErr; (void)keepErr;
	for (int w=0;w<nw;w++) { pid_t p=fork(); if (p==0) {
			// fresh counters: the parent reports its own
			nSteps=nForks=nPaths=nPruned=nViol=nErr=nConc=nInfeasBranches=nAsserts=nAssertQ=0; SS=SolverStats(); errs_m.clear(); reached.clear(); viols.clear(); samples.clear(); samplesSeen=0; stubs.clear(); rngS^=(w+1)*0x2545F4914F6CDD1Dull; for (int i=0;i<4;i++) rng(); endCount.clear();
			bool complete=true;
			while (true) { int i=SH->next++; if (i>=(int)init.size()) break; work.push_back(init[i]); explore(false); if (SH->stop || SH->viol>=MAXVIOL) { complete=false; break; } }
			writeOut(out+"."+std::to_string(w+1),complete); _exit(0); }
		pids.push_back(p); }
	bool ok=true; for (pid_t p:pids) { int st; waitpid(p,&st,0); if (!WIFEXITED(st)||WEXITSTATUS(st)) ok=false; }
	if (!ok) { errs_m["worker process died (memory?)"]++; nErr++; }
	writeOut(out+".0",ok);
	return 0;
}
