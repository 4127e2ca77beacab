#include "llvm/Analysis/ValueTracking.h"
// ll2c: mechanical LLVM-IR -> C extraction for CBMC.
//
//   ll2c IN.bc OUT.c --entry H_foo [--entry H_bar ...] [--stub REGEX=SYMBOL ...] [--O1]
//
// The input is the IR clang produced from a harness translation unit that
// #includes the real /repo headers.  Nothing is hand-copied: every function
// reachable from the entries is translated instruction by instruction.
// What the extraction drops is listed in DESIGN.md (exception edges, atomics
// ordering, volatile, debug info).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <regex>
#include <sstream>
#include <fstream>
#include <functional>
#include <iostream>
#include <deque>

using namespace llvm;
using std::string; using std::vector; using std::map; using std::set;

static Module* M; static const DataLayout* DL;
static std::ostringstream typesOut;
static map<Type*, string> typeName;
static int typeCnt = 0;
static set<string> ghostNames; static bool EH=false; static bool BYTES=false; // --bytewise: wide accesses through pointers are spelt out byte by byte

[[noreturn]] static void die(const string& s){ std::cerr << "ll2c: " << s << "\n"; exit(3); }
static string str(Type* t){ string s; raw_string_ostream o(s); t->print(o); return s; }
static string str(Value* t){ string s; raw_string_ostream o(s); t->print(o); return s; }

static string sanitize(StringRef n){ string r; for(char c: n){ if(isalnum((unsigned char)c)||c=='_') r+=c; else { char b[8]; snprintf(b,8,"_%02x",(unsigned char)c); r+=b; } } return r; }

static string ctype(Type* t);
static unsigned storeBits(unsigned w){ return w<=8?8:w<=16?16:w<=32?32:w<=64?64:128; }
static string uintT(unsigned w){
  if(w==1) return "_Bool"; if(w==8) return "u8"; if(w==16) return "u16"; if(w==32) return "u32"; if(w==64) return "u64"; if(w==128) return "u128";
  return "unsigned __CPROVER_bitvector["+std::to_string(w)+"]";
}
static string sintT(unsigned w){
  if(w==8) return "s8"; if(w==16) return "s16"; if(w==32) return "s32"; if(w==64) return "s64"; if(w==128) return "s128";
  return "signed __CPROVER_bitvector["+std::to_string(w)+"]";
}
// type used in memory (i1 -> u8)
static string memtype(Type* t){ if(t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); if(w==1) return "u8"; return uintT(w);} return ctype(t); }
static string ctype(Type* t){
  if(t->isIntegerTy()) return uintT(t->getIntegerBitWidth());
  if(t->isFloatTy()) return "float"; if(t->isDoubleTy()) return "double"; if(t->isX86_FP80Ty()) return "long double"; if(t->isFP128Ty()) return "long double";
  if(t->isPointerTy()) return "ptr";
  if(t->isVoidTy()) return "void";
  auto it=typeName.find(t); if(it!=typeName.end()) return it->second;
  string nm;
  std::ostringstream def;
  if(auto* st=dyn_cast<StructType>(t)){
    vector<string> f; for(unsigned i=0;i<st->getNumElements();++i) f.push_back(memtype(st->getElementType(i)));
    nm="struct S"+std::to_string(typeCnt++);
    def<<nm<<" { "; 
    if(st->getNumElements()==0) def<<"u8 dummy[0]; ";
    for(unsigned i=0;i<f.size();++i) def<<f[i]<<" f"<<i<<"; ";
    def<<"}"<<(st->isPacked()?" __attribute__((packed))":"")<<";"; if(st->hasName()) def<<" // "<<st->getName().str();
    def<<"\n";
  } else if(auto* at=dyn_cast<ArrayType>(t)){
    string e=memtype(at->getElementType()); nm="struct A"+std::to_string(typeCnt++);
    def<<nm<<" { "<<e<<" e["<<at->getNumElements()<<"]; };\n";
  } else if(auto* vt=dyn_cast<FixedVectorType>(t)){
    string e=ctype(vt->getElementType()); nm="struct V"+std::to_string(typeCnt++);
    def<<nm<<" { "<<e<<" e["<<vt->getNumElements()<<"]; };\n";
  } else die("type "+str(t));
  typesOut<<def.str(); typeName[t]=nm; return nm;
}

static string gname(const GlobalValue* g){ string n=sanitize(g->getName()); if(isa<GlobalVariable>(g)) return "G_"+n; return n; }

static string intLit(const APInt& v){
  unsigned w=v.getBitWidth();
  if(w==1) return v.getBoolValue()?"1":"0";
  SmallString<64> s; 
  if(w<=64){ v.toStringUnsigned(s,10); return "(("+uintT(w)+")"+string(s.str())+(w>32?"ull":"u")+")"; }
  if(w<=128){ uint64_t lo=v.extractBitsAsZExtValue(64,0), hi=v.lshr(64).extractBitsAsZExtValue(std::min(64u,w-64),0);
    std::ostringstream o; o<<"((("<<uintT(w)<<")"<<hi<<"ull<<64)|"<<lo<<"ull)"; return o.str(); }
  die("big int"); }

struct FnCtx {
  Function* F; std::ostringstream decls, body; map<const Value*,string> names; int tmp=0;
  string newTmp(Type* t, const char* p="t"){ string n=string(p)+std::to_string(tmp++); decls<<"  "<<ctype(t)<<" "<<n<<";\n"; return n; }
};
static FnCtx* C;
static std::deque<Function*> workF; static set<Function*> seenF;
static vector<GlobalVariable*> globalsUsed; static set<GlobalVariable*> seenG;
static set<string> externUsed;
static void useG(GlobalVariable* g){ if(seenG.insert(g).second) globalsUsed.push_back(g); }
static void useF(Function* f){ if(seenF.insert(f).second) workF.push_back(f); }

static string val(Value* v);
static string emitGEP(GEPOperator* g);
static string emitExprOfConstantExpr(ConstantExpr* ce);

static string constInit(Constant* c); // C initializer (for globals)
static string constVal(Constant* c){
  Type* t=c->getType();
  if(auto* ci=dyn_cast<ConstantInt>(c)) return intLit(ci->getValue());
  if(isa<ConstantPointerNull>(c)) return "((ptr)0)";
  if(auto* cf=dyn_cast<ConstantFP>(c)){ 
    if(t->isDoubleTy()){ uint64_t b=cf->getValueAPF().bitcastToAPInt().getZExtValue(); std::ostringstream o; 
       if(cf->getValueAPF().isFinite()){ char buf[64]; double d=cf->getValueAPF().convertToDouble(); snprintf(buf,64,"%.17g",d); string s=buf; if(s.find_first_of(".e")==string::npos) s+=".0"; return "("+s+")"; }
       o<<"vf_bits2d("<<b<<"ull)"; return o.str(); }
    if(t->isFloatTy()){ uint32_t b=cf->getValueAPF().bitcastToAPInt().getZExtValue(); 
       if(cf->getValueAPF().isFinite()){ char buf[64]; float d=cf->getValueAPF().convertToFloat(); snprintf(buf,64,"%.9g",d); string s=buf; if(s.find_first_of(".e")==string::npos) s+=".0"; return "("+s+"f)"; }
       std::ostringstream o; o<<"vf_bits2f("<<b<<"u)"; return o.str(); }
    // long double
    { SmallString<64> s; cf->getValueAPF().toString(s); string r(s.str()); if(r.find_first_of(".eE")==string::npos) r+=".0"; return "("+r+"L)"; }
  }
  if(auto* gv=dyn_cast<GlobalVariable>(c)){ useG(gv); return "((ptr)&"+gname(gv)+")"; }
  if(auto* f=dyn_cast<Function>(c)){ useF(f); return "((ptr)&"+gname(f)+")"; }
  if(auto* ga=dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if(isa<UndefValue>(c)){ if(C) return C->newTmp(t,"undef"); return "0"; }
  if(auto* ce=dyn_cast<ConstantExpr>(c)) return emitExprOfConstantExpr(ce);
  if(t->isAggregateType()||t->isVectorTy()){ return "(("+ctype(t)+")"+constInit(c)+")"; }
  die("const "+str(c));
}
static string constInit(Constant* c){
  Type* t=c->getType();
  if(isa<UndefValue>(c)){ if(t->isAggregateType()||t->isVectorTy()) return "{0}"; return "0"; }
  if(isa<ConstantAggregateZero>(c)){ if(auto*st=dyn_cast<StructType>(t)) if(st->getNumElements()==0) return "{}"; if(auto*at=dyn_cast<ArrayType>(t)) if(at->getNumElements()==0) return "{}"; 
     // nested {0}
     return "{0}"; }
  if(auto* cs=dyn_cast<ConstantStruct>(c)){ string s="{"; for(unsigned i=0;i<cs->getNumOperands();++i){ if(i) s+=","; s+=constInit(cs->getOperand(i)); } return s+"}"; }
  if(auto* ca=dyn_cast<ConstantArray>(c)){ string s="{{"; for(unsigned i=0;i<ca->getNumOperands();++i){ if(i) s+=","; s+=constInit(ca->getOperand(i)); } return s+"}}"; }
  if(auto* cv=dyn_cast<ConstantVector>(c)){ string s="{{"; for(unsigned i=0;i<cv->getNumOperands();++i){ if(i) s+=","; s+=constInit(cv->getOperand(i)); } return s+"}}"; }
  if(auto* cd=dyn_cast<ConstantDataSequential>(c)){ string s="{{"; for(unsigned i=0;i<cd->getNumElements();++i){ if(i) s+=","; s+=constVal(cd->getElementAsConstant(i)); } return s+"}}"; }
  return constVal(c);
}

static string val(Value* v){
  if(auto* c=dyn_cast<Constant>(v)) return constVal(c);
  auto it=C->names.find(v); if(it==C->names.end()) die("no name for "+str(v)); return it->second;
}

// signed view of integer expr
static string sval(const string& e, unsigned w){ if(w==1) return "(-(int)("+e+"))"; return "(("+sintT(w)+")"+e+")"; }
static string mask(const string& e, unsigned w){ if(w==1) return "((_Bool)(("+e+")&1))"; return "(("+uintT(w)+")("+e+"))"; }

static string gepExpr(Type* srcTy, const string& base, gep_type_iterator gi, gep_type_iterator ge){
  // typed gep: &((T*)base)[i0].f.e[j]
  bool first=true; string cur; Type* curT=srcTy;
  for(;gi!=ge;++gi){
    Value* idx=gi.getOperand();
    if(first){
      first=false;
      bool zero=isa<ConstantInt>(idx)&&cast<ConstantInt>(idx)->isZero();
      string b="(("+memtype(srcTy)+"*)"+base+")";
      if(zero) cur="(*"+b+")"; else {
        unsigned w=idx->getType()->getIntegerBitWidth(); cur="("+b+"["+ (isa<ConstantInt>(idx)? std::to_string(cast<ConstantInt>(idx)->getSExtValue()) : sval(val(idx),w))+"])"; }
      continue;
    }
    if(StructType* st=gi.getStructTypeOrNull()){
      unsigned f=cast<ConstantInt>(idx)->getZExtValue(); cur+=".f"+std::to_string(f); curT=st->getElementType(f);
    } else {
      unsigned w=idx->getType()->getIntegerBitWidth();
      cur+=".e["+(isa<ConstantInt>(idx)? std::to_string(cast<ConstantInt>(idx)->getSExtValue()) : sval(val(idx),w))+"]";
    }
  }
  return "((ptr)&"+cur+")";
}
static string emitGEP(GEPOperator* g){
  if(g->getType()->isVectorTy()) die("vector gep");
  Type* st=g->getSourceElementType();
  APInt off(64,0);
  if(st->isIntegerTy(8) && g->getNumIndices()==1){
    Value* idx=g->getOperand(1); unsigned w=idx->getType()->getIntegerBitWidth();
    string i=isa<ConstantInt>(idx)? std::to_string(cast<ConstantInt>(idx)->getSExtValue())+"ll" : sval(val(idx),w);
    return "("+val(g->getPointerOperand())+" + "+i+")";
  }
  // typed gep. zero-length arrays / odd cases -> byte arithmetic
  bool odd=false;
  if(isa<StructType>(st)||isa<ArrayType>(st)||st->isVectorTy()){ if(DL->getTypeAllocSize(st)==0) odd=true; }
  if(!odd){ Type* t=st; unsigned k=0; for(auto gi=gep_type_begin(g); gi!=gep_type_end(g); ++gi,++k){ if(k==0) continue; if(auto*at=dyn_cast<ArrayType>(gi.getIndexedType())) if(at->getNumElements()==0) odd=true; if(!gi.isStruct()){ } } (void)t; }
  if(odd || g->accumulateConstantOffset(*DL,off)){
    if(!odd){ 
      // constant offset: still prefer typed form (helps CBMC field sensitivity)
      return gepExpr(st,val(g->getPointerOperand()),gep_type_begin(g),gep_type_end(g));
    }
    string e="("+val(g->getPointerOperand());
    for(auto gi=gep_type_begin(g); gi!=gep_type_end(g); ++gi){
      if(StructType* s=gi.getStructTypeOrNull()){ unsigned f=cast<ConstantInt>(gi.getOperand())->getZExtValue(); e+=" + "+std::to_string(DL->getStructLayout(s)->getElementOffset(f)); }
      else { uint64_t sz=DL->getTypeAllocSize(gi.getIndexedType()); Value* idx=gi.getOperand(); e+=" + (s64)"+std::to_string(sz)+"*"+sval(val(idx),idx->getType()->getIntegerBitWidth()); }
    }
    return e+")";
  }
  return gepExpr(st,val(g->getPointerOperand()),gep_type_begin(g),gep_type_end(g));
}

static string castExpr(unsigned op, const string& v, Type* from, Type* to){
  switch(op){
    case Instruction::Trunc: if(to->isIntegerTy(1)) return "((_Bool)(("+v+")&1))"; return "(("+uintT(to->getIntegerBitWidth())+")"+v+")";
    case Instruction::ZExt: return "(("+uintT(to->getIntegerBitWidth())+")"+v+")";
    case Instruction::SExt: { unsigned fw=from->getIntegerBitWidth(), tw=to->getIntegerBitWidth(); if(fw==1) return "(("+uintT(tw)+")(-("+sintT(tw)+")"+v+"))"; return "(("+uintT(tw)+")("+sintT(tw)+")("+sintT(fw)+")"+v+")"; }
    case Instruction::PtrToInt: { unsigned tw=to->getIntegerBitWidth(); return "(("+uintT(tw)+")(u64)"+v+")"; }
    case Instruction::IntToPtr: return "((ptr)(u64)"+v+")";
    case Instruction::UIToFP: return "(("+ctype(to)+")"+v+")";
    case Instruction::SIToFP: return "(("+ctype(to)+")"+sval(v,from->getIntegerBitWidth())+")";
    case Instruction::FPToUI: return "(("+ctype(to)+")"+v+")";
    case Instruction::FPToSI: { unsigned tw=to->getIntegerBitWidth(); return "(("+uintT(tw)+")("+sintT(tw)+")"+v+")"; }
    case Instruction::FPTrunc: case Instruction::FPExt: return "(("+ctype(to)+")"+v+")";
    case Instruction::BitCast: case Instruction::AddrSpaceCast:
      if(from==to) return v;
      if(from->isDoubleTy()&&to->isIntegerTy(64)) return "vf_d2bits("+v+")";
      if(from->isIntegerTy(64)&&to->isDoubleTy()) return "vf_bits2d("+v+")";
      if(from->isFloatTy()&&to->isIntegerTy(32)) return "vf_f2bits("+v+")";
      if(from->isIntegerTy(32)&&to->isFloatTy()) return "vf_bits2f("+v+")";
      return "";
  }
  die("cast");
}
static string emitExprOfConstantExpr(ConstantExpr* ce){
  unsigned op=ce->getOpcode();
  if(op==Instruction::GetElementPtr) return emitGEP(cast<GEPOperator>(ce));
  if(Instruction::isCast(op)){ string r=castExpr(op,val(ce->getOperand(0)),ce->getOperand(0)->getType(),ce->getType()); if(r.size()) return r; }
  unsigned w=ce->getType()->isIntegerTy()?ce->getType()->getIntegerBitWidth():0;
  string a,b; if(w&&ce->getNumOperands()==2){ a=val(ce->getOperand(0)); b=val(ce->getOperand(1)); }
  switch(op){ case Instruction::Add: return mask(a+"+"+b,w); case Instruction::Sub: return mask(a+"-"+b,w); case Instruction::Mul: return mask(a+"*"+b,w);
   case Instruction::And: return mask(a+"&"+b,w); case Instruction::Or: return mask(a+"|"+b,w); case Instruction::Xor: return mask(a+"^"+b,w);
   case Instruction::Shl: return mask(a+"<<"+b,w); case Instruction::LShr: return mask(a+">>"+b,w);
   case Instruction::ICmp: { auto p=(CmpInst::Predicate)ce->getPredicate(); string x=val(ce->getOperand(0)),y=val(ce->getOperand(1)); if(p==CmpInst::ICMP_EQ) return "("+x+"=="+y+")"; if(p==CmpInst::ICMP_NE) return "("+x+"!="+y+")"; break; } }
  die("constexpr "+str(ce));
}

static string binop(unsigned op, const string& a, const string& b, Type* t){
  if(t->isFloatingPointTy()){ switch(op){ case Instruction::FAdd: return "("+a+"+"+b+")"; case Instruction::FSub: return "("+a+"-"+b+")"; case Instruction::FMul: return "("+a+"*"+b+")"; case Instruction::FDiv: return "("+a+"/"+b+")"; } die("fp op"); }
  unsigned w=t->getIntegerBitWidth();
  string c = (w<32)? "(u32)":"";   // avoid signed promotion
  if(w==1){ switch(op){ case Instruction::Add: case Instruction::Sub: case Instruction::Xor: return "((_Bool)("+a+"^"+b+"))"; case Instruction::And: case Instruction::Mul: return "((_Bool)("+a+"&"+b+"))"; case Instruction::Or: return "((_Bool)("+a+"|"+b+"))"; 
       case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: return a; default: return "0"; } }
  switch(op){
    case Instruction::Add: return mask(c+a+"+"+c+b,w); case Instruction::Sub: return mask(c+a+"-"+c+b,w); case Instruction::Mul: return mask(c+a+"*"+c+b,w);
    case Instruction::UDiv: return mask(a+"/"+b,w); case Instruction::URem: return mask(a+"%"+b,w);
    case Instruction::SDiv: return mask(sval(a,w)+"/"+sval(b,w),w); case Instruction::SRem: return mask(sval(a,w)+"%"+sval(b,w),w);
    case Instruction::And: return mask(a+"&"+b,w); case Instruction::Or: return mask(a+"|"+b,w); case Instruction::Xor: return mask(a+"^"+b,w);
    case Instruction::Shl: return mask(c+a+"<<"+b,w); case Instruction::LShr: return mask(a+">>"+b,w);
    case Instruction::AShr: return mask(sval(a,w)+">>"+b,w);
  } die("binop");
}
static string icmpExpr(CmpInst::Predicate p, const string& a, const string& b, Type* t){
  bool isP=t->isPointerTy(); unsigned w=isP?64:t->getIntegerBitWidth();
  auto U=[&](const string& x){ return isP? x : x; };
  auto Sx=[&](const string& x){ return isP? "((s64)"+x+")" : sval(x,w); };
  switch(p){ case CmpInst::ICMP_EQ: return "("+a+"=="+b+")"; case CmpInst::ICMP_NE: return "("+a+"!="+b+")";
    case CmpInst::ICMP_UGT: return "("+U(a)+">"+U(b)+")"; case CmpInst::ICMP_UGE: return "("+U(a)+">="+U(b)+")"; case CmpInst::ICMP_ULT: return "("+U(a)+"<"+U(b)+")"; case CmpInst::ICMP_ULE: return "("+U(a)+"<="+U(b)+")";
    case CmpInst::ICMP_SGT: return "("+Sx(a)+">"+Sx(b)+")"; case CmpInst::ICMP_SGE: return "("+Sx(a)+">="+Sx(b)+")"; case CmpInst::ICMP_SLT: return "("+Sx(a)+"<"+Sx(b)+")"; case CmpInst::ICMP_SLE: return "("+Sx(a)+"<="+Sx(b)+")"; default: die("icmp"); }
}
static string fcmpExpr(CmpInst::Predicate p, const string& a, const string& b){
  string nan="("+a+"!="+a+"||"+b+"!="+b+")", ok="("+a+"=="+a+"&&"+b+"=="+b+")";
  switch(p){ case CmpInst::FCMP_FALSE: return "0"; case CmpInst::FCMP_TRUE: return "1"; case CmpInst::FCMP_ORD: return ok; case CmpInst::FCMP_UNO: return nan;
   case CmpInst::FCMP_OEQ: return "("+a+"=="+b+")"; case CmpInst::FCMP_OGT: return "("+a+">"+b+")"; case CmpInst::FCMP_OGE: return "("+a+">="+b+")"; case CmpInst::FCMP_OLT: return "("+a+"<"+b+")"; case CmpInst::FCMP_OLE: return "("+a+"<="+b+")"; case CmpInst::FCMP_ONE: return "("+ok+"&&"+a+"!="+b+")";
   case CmpInst::FCMP_UEQ: return "("+nan+"||"+a+"=="+b+")"; case CmpInst::FCMP_UGT: return "(!("+a+"<="+b+"))"; case CmpInst::FCMP_UGE: return "(!("+a+"<"+b+"))"; case CmpInst::FCMP_ULT: return "(!("+a+">="+b+"))"; case CmpInst::FCMP_ULE: return "(!("+a+">"+b+"))"; case CmpInst::FCMP_UNE: return "("+a+"!="+b+")"; default: die("fcmp"); }
}

static string constString(Value* v){
  v=v->stripPointerCasts();
  if(auto* g=dyn_cast<GlobalVariable>(v)) if(g->hasInitializer()) if(auto* cd=dyn_cast<ConstantDataSequential>(g->getInitializer())) if(cd->isCString()) return cd->getAsCString().str();
  if(auto* g=dyn_cast<GlobalVariable>(v)) if(g->hasInitializer() && isa<ConstantAggregateZero>(g->getInitializer())) return "";
  return "?"; }
static string cstr(const string& s){ string r="\""; for(char c:s){ if(c=='"'||c=='\\') r+='\\'; r+=c; } return r+"\""; }

static string funcSig(Function* f, const string& nm, bool names){
  FunctionType* ft=f->getFunctionType(); string s=ctype(ft->getReturnType())+" "+nm+"("; 
  for(unsigned i=0;i<ft->getNumParams();++i){ if(i) s+=", "; s+=ctype(ft->getParamType(i)); if(names) s+=" a"+std::to_string(i); }
  if(ft->getNumParams()==0) s+="void"; 
  return s+")"; }

static LoopInfo* LI; 
static map<BasicBlock*,int> bbId; 
struct CutInfo { int id; string inv; vector<CallBase*> dummy; };
static map<const Loop*, int> cutLoops; static int cutCnt=0;
static vector<string> cutReport;

static bool isGhost(const string& n){ return false; }

static void emitPhiEdge(BasicBlock* from, BasicBlock* to, std::ostream& o, const char* ind){
  vector<std::pair<string,string>> as;
  for(auto& phi: to->phis()){ Value* v=phi.getIncomingValueForBlock(from); if(isa<UndefValue>(v)) continue; as.push_back({C->names[&phi], val(v)}); }
  if(as.size()==1){ o<<ind<<as[0].first<<" = "<<as[0].second<<";\n"; }
  else if(as.size()>1){
    // parallel copy: only use temps where needed
    set<string> dst; for(auto&p:as) dst.insert(p.first);
    vector<std::pair<string,string>> late; int i=0; vector<string> tmps;
    vector<std::pair<string,string>> direct;
    for(auto& phi: to->phis()){ Value* v=phi.getIncomingValueForBlock(from); if(isa<UndefValue>(v)) continue; string d=C->names[&phi]; 
      bool hazard = isa<PHINode>(v) && cast<PHINode>(v)->getParent()==to && v!=&phi;
      if(v==&phi) continue;
      if(hazard){ string t=C->newTmp(phi.getType(),"p"); o<<ind<<t<<" = "<<val(v)<<";\n"; late.push_back({d,t}); } else direct.push_back({d,val(v)}); }
    for(auto&p:direct) o<<ind<<p.first<<" = "<<p.second<<";\n";
    for(auto&p:late) o<<ind<<p.first<<" = "<<p.second<<";\n"; (void)i;
  }
  // loop entry: reset cut mode
  if(LI){ Loop* L=LI->getLoopFor(to); if(L && L->getHeader()==to && cutLoops.count(L) && !L->contains(from)) o<<ind<<"cutmode"<<cutLoops[L]<<" = 0;\n"; }
}
static string lbl(BasicBlock* b){ return "bb"+std::to_string(bbId[b]); }

static void emitCall(CallBase* cb, std::ostream& o);

static void storeTo(Instruction* I, const string& e, std::ostream& o){ if(I->getType()->isVoidTy()) { o<<"  "<<e<<";\n"; return; } o<<"  "<<C->names[I]<<" = "<<e<<";\n"; }

// exceptions (--eh): vf_exc is set while an exception propagates
static bool mayThrow(CallBase* cb){ if(cb->doesNotThrow()||cb->isInlineAsm()) return false; Function* f=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()); if(!f) return true; if(f->isIntrinsic()||f->doesNotThrow()) return false; StringRef n=f->getName(); if(n=="vf_throw"||n=="__cxa_throw"||n=="__cxa_rethrow"||n.starts_with("_ZSt20__throw")||n.starts_with("_ZSt17__throw")) return true; return !f->isDeclaration(); }
static void emitReturn(std::ostream& o){ if(!C->F->getReturnType()->isVoidTy()) o<<" { "<<ctype(C->F->getReturnType())<<" rv; return rv; }"; else o<<" return;"; }
static void emitInst(Instruction* I, std::ostream& o){
  Type* t=I->getType();
  if(auto* b=dyn_cast<BinaryOperator>(I)){
    if(auto* vt=dyn_cast<FixedVectorType>(t)){ string a=val(b->getOperand(0)),c=val(b->getOperand(1)); for(unsigned i=0;i<vt->getNumElements();++i){ string s=".e["+std::to_string(i)+"]"; o<<"  "<<C->names[I]<<s<<" = "<<binop(b->getOpcode(),"("+a+")"+s,"("+c+")"+s,vt->getElementType())<<";\n"; } return; }
    if(b->getOpcode()==Instruction::FRem) die("frem");
    storeTo(I,binop(b->getOpcode(),val(b->getOperand(0)),val(b->getOperand(1)),t),o); return; }
  if(auto* u=dyn_cast<UnaryOperator>(I)){ storeTo(I,"(-"+val(u->getOperand(0))+")",o); return; }
  if(auto* c=dyn_cast<ICmpInst>(I)){ Type* ot=c->getOperand(0)->getType(); string a=val(c->getOperand(0)),b=val(c->getOperand(1));
    if(auto* vt=dyn_cast<FixedVectorType>(ot)){ for(unsigned i=0;i<vt->getNumElements();++i){ string s=".e["+std::to_string(i)+"]"; o<<"  "<<C->names[I]<<s<<" = "<<icmpExpr(c->getPredicate(),"("+a+")"+s,"("+b+")"+s,vt->getElementType())<<";\n"; } return; }
    storeTo(I,icmpExpr(c->getPredicate(),a,b,ot),o); return; }
  if(auto* c=dyn_cast<FCmpInst>(I)){ if(c->getOperand(0)->getType()->isVectorTy()) die("vec fcmp"); storeTo(I,fcmpExpr(c->getPredicate(),val(c->getOperand(0)),val(c->getOperand(1))),o); return; }
  if(auto* g=dyn_cast<GetElementPtrInst>(I)){ storeTo(I,emitGEP(cast<GEPOperator>(g)),o); return; }
  if(auto* s=dyn_cast<SelectInst>(I)){ string c=val(s->getCondition()),a=val(s->getTrueValue()),b=val(s->getFalseValue());
    if(s->getCondition()->getType()->isVectorTy()){ auto* vt=cast<FixedVectorType>(t); for(unsigned i=0;i<vt->getNumElements();++i){ string x=".e["+std::to_string(i)+"]"; o<<"  "<<C->names[I]<<x<<" = ("<<c<<")"<<x<<" ? ("<<a<<")"<<x<<" : ("<<b<<")"<<x<<";\n"; } return; }
    if(t->isAggregateType()||t->isVectorTy()){ o<<"  if("<<c<<") "<<C->names[I]<<" = "<<a<<"; else "<<C->names[I]<<" = "<<b<<";\n"; return; }
    storeTo(I,"("+c+" ? "+a+" : "+b+")",o); return; }
  if(I->isAtomic() && !isa<FenceInst>(I)) if(Function* ah=M->getFunction("vf_contract_atomic")){ Value* ap=isa<LoadInst>(I)?cast<LoadInst>(I)->getPointerOperand():isa<StoreInst>(I)?cast<StoreInst>(I)->getPointerOperand():isa<AtomicRMWInst>(I)?cast<AtomicRMWInst>(I)->getPointerOperand():isa<AtomicCmpXchgInst>(I)?cast<AtomicCmpXchgInst>(I)->getPointerOperand():nullptr; if(ap){ useF(ah); o<<"  vf_contract_atomic("<<val(ap)<<");\n"; } }
  if(BYTES){ Value* ptr=nullptr; Type* at=nullptr; if(auto* l=dyn_cast<LoadInst>(I)){ ptr=l->getPointerOperand(); at=t; } else if(auto* s=dyn_cast<StoreInst>(I)){ ptr=s->getPointerOperand(); at=s->getValueOperand()->getType(); }
    if(ptr&&!isa<GlobalValue>(getUnderlyingObject(ptr))&&!isa<AllocaInst>(getUnderlyingObject(ptr))){ Type* et=at; unsigned n=0; if(auto* vt=dyn_cast<FixedVectorType>(at)){ et=vt->getElementType(); n=vt->getNumElements(); }
      unsigned w=et->isIntegerTy()?et->getIntegerBitWidth():0; if((w==8&&n)||w==16||w==32||w==64){ string p=val(ptr),T=uintT(w); unsigned nb=w/8;
        for(unsigned k=0;k<(n?n:1);++k){ string el=n?".e["+std::to_string(k)+"]":"";
          if(isa<LoadInst>(I)){ string e; for(unsigned i=0;i<nb;++i){ if(i) e+="|"; e+="(("+T+")((u8*)"+p+")["+std::to_string(k*nb+i)+"]<<"+std::to_string(8*i)+")"; } if(n) o<<"  "<<C->names[I]<<el<<" = "<<e<<";\n"; else storeTo(I,"(("+T+")("+e+"))",o); }
          else { string x="("+val(cast<StoreInst>(I)->getValueOperand())+")"+el; for(unsigned i=0;i<nb;++i) o<<"  ((u8*)"<<p<<")["<<k*nb+i<<"] = (u8)("<<x<<">>"<<8*i<<");\n"; } }
        return; } } }
  if(auto* l=dyn_cast<LoadInst>(I)){ string p=val(l->getPointerOperand()); 
    if(t->isIntegerTy(1)) storeTo(I,"((_Bool)(*(u8*)"+p+"&1))",o);
    else if(t->isIntegerTy() && !isPowerOf2_32(t->getIntegerBitWidth())){ unsigned w=t->getIntegerBitWidth(); unsigned nb=(w+7)/8; string e; string T=uintT(storeBits(w)); for(unsigned i=0;i<nb;++i){ if(i) e+="|"; e+="(("+T+")((u8*)"+p+")["+std::to_string(i)+"]<<"+std::to_string(8*i)+")"; } storeTo(I,"(("+uintT(w)+")("+e+"))",o); }
    else storeTo(I,"(*("+ctype(t)+"*)"+p+")",o); return; }
  if(auto* s=dyn_cast<StoreInst>(I)){ Value* v=s->getValueOperand(); Type* vt=v->getType(); string p=val(s->getPointerOperand());
    if(isa<UndefValue>(v)&&!isa<PoisonValue>(v)) {}
    if(vt->isIntegerTy(1)) o<<"  *(u8*)"<<p<<" = (u8)"<<val(v)<<";\n";
    else if(vt->isIntegerTy() && !isPowerOf2_32(vt->getIntegerBitWidth())){ unsigned w=vt->getIntegerBitWidth(); unsigned nb=(w+7)/8; string x=val(v); for(unsigned i=0;i<nb;++i) o<<"  ((u8*)"<<p<<")["<<i<<"] = (u8)("<<x<<">>"<<8*i<<");\n"; }
    else o<<"  *("<<ctype(vt)<<"*)"<<p<<" = "<<val(v)<<";\n"; return; }
  if(auto* a=dyn_cast<AllocaInst>(I)){ (void)a; return; }
  if(auto* c=dyn_cast<CastInst>(I)){ Type* ft=c->getOperand(0)->getType(); string v=val(c->getOperand(0)); 
    if(c->getOpcode()!=Instruction::BitCast && t->isVectorTy()){ auto* vt=cast<FixedVectorType>(t); Type* fe=cast<FixedVectorType>(ft)->getElementType(); for(unsigned i=0;i<vt->getNumElements();++i){ string s=".e["+std::to_string(i)+"]"; o<<"  "<<C->names[I]<<s<<" = "<<castExpr(c->getOpcode(),"("+v+")"+s,fe,vt->getElementType())<<";\n"; } return; }
    string e=castExpr(c->getOpcode(),v,ft,t); if(e.size()){ storeTo(I,e,o); return; }
    // bitcast involving vectors: go through an integer / lane repacking
    auto lanes=[&](Type* x)->std::pair<unsigned,unsigned>{ if(auto*vt=dyn_cast<FixedVectorType>(x)) return {vt->getNumElements(),(unsigned)DL->getTypeSizeInBits(vt->getElementType())}; return {1,(unsigned)DL->getTypeSizeInBits(x)}; };
    auto [fn,fw]=lanes(ft); auto [tn,tw]=lanes(t); unsigned tot=fn*fw; if(tot!=tn*tw) die("bitcast size");
    auto fsrc=[&](unsigned i)->string{ string s = ft->isVectorTy()? "("+v+").e["+std::to_string(i)+"]" : v; Type* et=ft->isVectorTy()?cast<FixedVectorType>(ft)->getElementType():ft; if(et->isDoubleTy()) s="vf_d2bits("+s+")"; else if(et->isFloatTy()) s="vf_f2bits("+s+")"; else if(et->isPointerTy()) s="(u64)"+s; return s; };
    for(unsigned j=0;j<tn;++j){ string e2; string W=uintT(tw==1?1:tw);
      if(tw>=fw){ unsigned k=tw/fw; if(tw%fw) die("bitcast ratio"); for(unsigned i=0;i<k;++i){ if(i) e2+="|"; e2+="(("+uintT(tw)+")"+fsrc(j*k+i)+(i?"<<"+std::to_string(i*fw):"")+")"; } if(tw<32&&tw>1) e2="(("+uintT(tw)+")("+e2+"))"; else e2="("+e2+")"; }
      else { unsigned k=fw/tw; unsigned i=j/k, sh=(j%k)*tw; e2=mask("("+fsrc(i)+">>"+std::to_string(sh)+")",tw); }
      Type* et=t->isVectorTy()?cast<FixedVectorType>(t)->getElementType():t; if(et->isDoubleTy()) e2="vf_bits2d("+e2+")"; else if(et->isFloatTy()) e2="vf_bits2f("+e2+")"; else if(et->isPointerTy()) e2="(ptr)"+e2;
      o<<"  "<<C->names[I]<<(t->isVectorTy()?".e["+std::to_string(j)+"]":"")<<" = "<<e2<<";\n"; }
    return; }
  if(isa<FreezeInst>(I)){ storeTo(I,val(I->getOperand(0)),o); return; }
  if(auto* ev=dyn_cast<ExtractValueInst>(I)){ string e=val(ev->getAggregateOperand()); Type* at=ev->getAggregateOperand()->getType(); e="("+e+")"; for(unsigned i: ev->indices()){ if(auto*st=dyn_cast<StructType>(at)){ e+=".f"+std::to_string(i); at=st->getElementType(i);} else { e+=".e["+std::to_string(i)+"]"; at=cast<ArrayType>(at)->getElementType(); } } storeTo(I,e,o); return; }
  if(auto* iv=dyn_cast<InsertValueInst>(I)){ string nm=C->names[I]; if(!isa<UndefValue>(iv->getAggregateOperand())) o<<"  "<<nm<<" = "<<val(iv->getAggregateOperand())<<";\n"; string e=nm; Type* at=t; for(unsigned i: iv->indices()){ if(auto*st=dyn_cast<StructType>(at)){ e+=".f"+std::to_string(i); at=st->getElementType(i);} else { e+=".e["+std::to_string(i)+"]"; at=cast<ArrayType>(at)->getElementType(); } } o<<"  "<<e<<" = "<<val(iv->getInsertedValueOperand())<<";\n"; return; }
  if(auto* ee=dyn_cast<ExtractElementInst>(I)){ Value* ix=ee->getIndexOperand(); storeTo(I,"("+val(ee->getVectorOperand())+").e["+(isa<ConstantInt>(ix)?std::to_string(cast<ConstantInt>(ix)->getZExtValue()):val(ix))+"]",o); return; }
  if(auto* ie=dyn_cast<InsertElementInst>(I)){ string nm=C->names[I]; if(!isa<UndefValue>(ie->getOperand(0))) o<<"  "<<nm<<" = "<<val(ie->getOperand(0))<<";\n"; Value* ix=ie->getOperand(2); o<<"  "<<nm<<".e["<<(isa<ConstantInt>(ix)?std::to_string(cast<ConstantInt>(ix)->getZExtValue()):val(ix))<<"] = "<<val(ie->getOperand(1))<<";\n"; return; }
  if(auto* sv=dyn_cast<ShuffleVectorInst>(I)){ unsigned n=cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); string a=isa<UndefValue>(sv->getOperand(0))?"":val(sv->getOperand(0)), b=isa<UndefValue>(sv->getOperand(1))?"":val(sv->getOperand(1)); auto mk=sv->getShuffleMask(); for(unsigned i=0;i<mk.size();++i){ int k=mk[i]; if(k<0) continue; const string& src=(unsigned)k<n?a:b; if(src.empty()) continue; o<<"  "<<C->names[I]<<".e["<<i<<"] = ("<<src<<").e["<<((unsigned)k<n?k:k-(int)n)<<"];\n"; } return; }
  if(auto* cb=dyn_cast<CallBase>(I)){ emitCall(cb,o); if(auto* iv=dyn_cast<InvokeInst>(I)){ if(EH&&mayThrow(cb)){ o<<"  if(vf_exc) {\n"; emitPhiEdge(I->getParent(),iv->getUnwindDest(),o,"    "); o<<"    goto "<<lbl(iv->getUnwindDest())<<"; }\n"; } emitPhiEdge(I->getParent(),iv->getNormalDest(),o,"  "); o<<"  goto "<<lbl(iv->getNormalDest())<<";\n"; } return; }
  if(auto* rmw=dyn_cast<AtomicRMWInst>(I)){ string p=val(rmw->getPointerOperand()), v=val(rmw->getValOperand()), T=memtype(t); string nm=C->names[I]; o<<"  "<<nm<<" = *("<<T<<"*)"<<p<<";\n"; unsigned w=t->isIntegerTy()?t->getIntegerBitWidth():64; string r; switch(rmw->getOperation()){ case AtomicRMWInst::Add: r=mask(nm+"+"+v,w); break; case AtomicRMWInst::Sub: r=mask(nm+"-"+v,w); break; case AtomicRMWInst::And: r=mask(nm+"&"+v,w); break; case AtomicRMWInst::Or: r=mask(nm+"|"+v,w); break; case AtomicRMWInst::Xor: r=mask(nm+"^"+v,w); break; case AtomicRMWInst::Xchg: r=v; break; default: die("rmw"); } o<<"  *("<<T<<"*)"<<p<<" = "<<r<<";\n"; return; }
  if(auto* cx=dyn_cast<AtomicCmpXchgInst>(I)){ string p=val(cx->getPointerOperand()), c=val(cx->getCompareOperand()), n=val(cx->getNewValOperand()); string T=memtype(cx->getCompareOperand()->getType()); string nm=C->names[I]; o<<"  "<<nm<<".f0 = *("<<T<<"*)"<<p<<"; "<<nm<<".f1 = ("<<nm<<".f0=="<<c<<"); if("<<nm<<".f1) *("<<T<<"*)"<<p<<" = "<<n<<";\n"; return; }
  if(isa<FenceInst>(I)) return;
  if(auto* br=dyn_cast<BranchInst>(I)){ BasicBlock* B=I->getParent();
    if(br->isUnconditional()){ emitPhiEdge(B,br->getSuccessor(0),o,"  "); o<<"  goto "<<lbl(br->getSuccessor(0))<<";\n"; }
    else { 
      // make any back edge unconditional at the end
      o<<"  if("<<val(br->getCondition())<<") {\n"; emitPhiEdge(B,br->getSuccessor(0),o,"    "); o<<"    goto "<<lbl(br->getSuccessor(0))<<"; }\n"; emitPhiEdge(B,br->getSuccessor(1),o,"  "); o<<"  goto "<<lbl(br->getSuccessor(1))<<";\n"; } return; }
  if(auto* sw=dyn_cast<SwitchInst>(I)){ BasicBlock* B=I->getParent(); string c=val(sw->getCondition()); for(auto cs: sw->cases()){ o<<"  if("<<c<<" == "<<val(cs.getCaseValue())<<") {\n"; emitPhiEdge(B,cs.getCaseSuccessor(),o,"    "); o<<"    goto "<<lbl(cs.getCaseSuccessor())<<"; }\n"; } emitPhiEdge(B,sw->getDefaultDest(),o,"  "); o<<"  goto "<<lbl(sw->getDefaultDest())<<";\n"; return; }
  if(auto* r=dyn_cast<ReturnInst>(I)){ if(r->getReturnValue()) o<<"  return "<<val(r->getReturnValue())<<";\n"; else o<<"  return;\n"; return; }
  if(isa<UnreachableInst>(I)){ o<<"  __CPROVER_assert(0,\"ub: unreachable reached\"); __CPROVER_assume(0);"; if(!C->F->getReturnType()->isVoidTy()) o<<" { "<<ctype(C->F->getReturnType())<<" rv; return rv; }"; else o<<" return;"; o<<"\n"; return; }
  if(EH&&isa<LandingPadInst>(I)){ o<<"  vf_exc = 0;\n"; return; }
  if(EH&&isa<ResumeInst>(I)){ o<<"  vf_exc = 1;"; emitReturn(o); o<<"\n"; return; }
  if(isa<ResumeInst>(I)||isa<LandingPadInst>(I)){ o<<"  __CPROVER_assume(0);"; if(!C->F->getReturnType()->isVoidTy()) o<<" { "<<ctype(C->F->getReturnType())<<" rv; return rv; }"; else o<<" return;"; o<<"\n"; return; }
  die("inst "+str(I));
}

static string vecMap(FixedVectorType* vt, Instruction* I, std::ostream& o, std::function<string(string)> f){ for(unsigned i=0;i<vt->getNumElements();++i){ string s=".e["+std::to_string(i)+"]"; o<<"  "<<C->names[I]<<s<<" = "<<f(s)<<";\n"; } return ""; }

static bool emitIntrinsic(Function* f, CallBase* cb, std::ostream& o){
  auto A=[&](unsigned i){ return val(cb->getArgOperand(i)); };
  Type* t=cb->getType(); unsigned id=f->getIntrinsicID();
  auto scalarOrVec=[&](std::function<string(vector<string>,Type*)> fn){
    unsigned n=0; for(unsigned i=0;i<cb->arg_size();++i) n++;
    if(auto* vt=dyn_cast<FixedVectorType>(t)){ for(unsigned i=0;i<vt->getNumElements();++i){ string s=".e["+std::to_string(i)+"]"; vector<string> a; for(unsigned k=0;k<n;++k) a.push_back(cb->getArgOperand(k)->getType()->isVectorTy()?"("+A(k)+")"+s:A(k)); o<<"  "<<C->names[cb]<<s<<" = "<<fn(a,vt->getElementType())<<";\n"; } }
    else { vector<string> a; for(unsigned k=0;k<n;++k) a.push_back(A(k)); storeTo(cb,fn(a,t),o); } };
  switch(id){
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::x86_sse2_pause: case Intrinsic::sideeffect: case Intrinsic::stackrestore: return true;
    case Intrinsic::stacksave: storeTo(cb,"((ptr)0)",o); return true;
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: storeTo(cb,A(0),o); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: storeTo(cb,A(0),o); return true;
    case Intrinsic::is_constant: storeTo(cb,"0",o); return true;
    case Intrinsic::objectsize: storeTo(cb,"((u64)-1)",o); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: { string k=id==Intrinsic::ubsantrap? A(0):"0"; string kk=id==Intrinsic::ubsantrap? std::to_string(cast<ConstantInt>(cb->getArgOperand(0))->getZExtValue()):""; o<<"  __CPROVER_assert(0,\"ub: sanitizer trap "<<kk<<"\"); __CPROVER_assume(0);\n"; return true; }
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      auto* n=dyn_cast<ConstantInt>(cb->getArgOperand(2));
      if(n && n->getZExtValue()==0) return true;
      if(n&&BYTES&&n->getZExtValue()<=64){ unsigned N=n->getZExtValue(); o<<"  { u8 vf_t["<<N<<"]; "; for(unsigned i=0;i<N;++i) o<<"vf_t["<<i<<"]=(("<<A(1)<<"))["<<i<<"]; "; for(unsigned i=0;i<N;++i) o<<"(("<<A(0)<<"))["<<i<<"]=vf_t["<<i<<"]; "; o<<"}\n"; }
      else if(n){ o<<"  vf_memcpy_c("<<A(0)<<","<<A(1)<<","<<n->getZExtValue()<<");\n"; }
      else o<<"  "<<(id==Intrinsic::memmove?"vf_memmove":"vf_memcpy")<<"("<<A(0)<<","<<A(1)<<",(u64)"<<A(2)<<");\n"; return true; }
    case Intrinsic::memset: { auto* n=dyn_cast<ConstantInt>(cb->getArgOperand(2)); if(n&&n->getZExtValue()==0) return true; o<<"  vf_memset("<<A(0)<<","<<A(1)<<",(u64)"<<A(2)<<");\n"; return true; }
    case Intrinsic::umin: scalarOrVec([&](vector<string> a,Type* e){ return "("+a[0]+"<"+a[1]+"?"+a[0]+":"+a[1]+")"; }); return true;
    case Intrinsic::umax: scalarOrVec([&](vector<string> a,Type* e){ return "("+a[0]+">"+a[1]+"?"+a[0]+":"+a[1]+")"; }); return true;
    case Intrinsic::smin: scalarOrVec([&](vector<string> a,Type* e){ unsigned w=e->getIntegerBitWidth(); return "("+sval(a[0],w)+"<"+sval(a[1],w)+"?"+a[0]+":"+a[1]+")"; }); return true;
    case Intrinsic::smax: scalarOrVec([&](vector<string> a,Type* e){ unsigned w=e->getIntegerBitWidth(); return "("+sval(a[0],w)+">"+sval(a[1],w)+"?"+a[0]+":"+a[1]+")"; }); return true;
    case Intrinsic::abs: scalarOrVec([&](vector<string> a,Type* e){ unsigned w=e->getIntegerBitWidth(); return "("+sval(a[0],w)+"<0?"+mask("0u-"+a[0],w)+":"+a[0]+")"; }); return true;
    case Intrinsic::ctpop: scalarOrVec([&](vector<string> a,Type* e){ unsigned w=e->getIntegerBitWidth(); return "(("+uintT(w)+")vf_popcount((u64)"+a[0]+"))"; }); return true;
    case Intrinsic::cttz: scalarOrVec([&](vector<string> a,Type* e){ unsigned w=e->getIntegerBitWidth(); return "(("+uintT(w)+")vf_cttz((u64)"+a[0]+","+std::to_string(w)+"))"; }); return true;
    case Intrinsic::ctlz: scalarOrVec([&](vector<string> a,Type* e){ unsigned w=e->getIntegerBitWidth(); return "(("+uintT(w)+")vf_ctlz((u64)"+a[0]+","+std::to_string(w)+"))"; }); return true;
    case Intrinsic::bswap: { unsigned w=t->getIntegerBitWidth(); string e; for(unsigned i=0;i<w/8;++i){ if(i) e+="|"; e+="((("+uintT(w)+")("+A(0)+">>"+std::to_string(8*i)+")&255)<<"+std::to_string(w-8-8*i)+")"; } storeTo(cb,mask(e,w),o); return true; }
    case Intrinsic::bitreverse: { unsigned w=t->getIntegerBitWidth(); string e; for(unsigned i=0;i<w;++i){ if(i) e+="|"; e+="((("+uintT(w)+")("+A(0)+">>"+std::to_string(i)+")&1)<<"+std::to_string(w-1-i)+")"; } storeTo(cb,mask(e,w),o); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: scalarOrVec([&](vector<string> a,Type* e){ unsigned w=e->getIntegerBitWidth(); string W=std::to_string(w); string s="("+a[2]+"%"+W+")"; if(id==Intrinsic::fshl) return "("+s+"==0?"+a[0]+":"+mask("("+a[0]+"<<"+s+")|("+a[1]+">>("+W+"-"+s+"))",w)+")"; return "("+s+"==0?"+a[1]+":"+mask("("+a[0]+"<<("+W+"-"+s+"))|("+a[1]+">>"+s+")",w)+")"; }); return true;
    case Intrinsic::usub_sat: scalarOrVec([&](vector<string> a,Type* e){ return "("+a[0]+">"+a[1]+"?"+mask(a[0]+"-"+a[1],e->getIntegerBitWidth())+":"+mask("0",e->getIntegerBitWidth())+")"; }); return true;
    case Intrinsic::uadd_sat: scalarOrVec([&](vector<string> a,Type* e){ unsigned w=e->getIntegerBitWidth(); return "("+mask(a[0]+"+"+a[1],w)+"<"+a[0]+"?"+mask("~0ull",w)+":"+mask(a[0]+"+"+a[1],w)+")"; }); return true;
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned w=cb->getArgOperand(0)->getType()->getIntegerBitWidth(); if(w>64) die("overflow w"); string nm=C->names[cb]; string op=(id==Intrinsic::uadd_with_overflow||id==Intrinsic::sadd_with_overflow)?"+":(id==Intrinsic::usub_with_overflow||id==Intrinsic::ssub_with_overflow)?"-":"*";
      bool sg=id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow||id==Intrinsic::smul_with_overflow;
      string T2= sg? "s128":"u128"; if(w<=32&&sg) T2="s64"; if(w<=32&&!sg) T2="u64";
      string a=sg?sval(A(0),w):A(0), b=sg?sval(A(1),w):A(1);
      o<<"  { "<<T2<<" ov=("<<T2<<")"<<a<<op<<"("<<T2<<")"<<b<<"; "<<nm<<".f0=("<<uintT(w)<<")ov; "<<nm<<".f1=(ov!=("<<T2<<")("<<(sg?sintT(w):uintT(w))<<")ov); }\n"; return true; }
    case Intrinsic::x86_sse2_pmovmskb_128: { string e; for(int i=0;i<16;++i){ if(i) e+="|"; e+="((u32)("+A(0)+".e["+std::to_string(i)+"]>>7)<<"+std::to_string(i)+")"; } storeTo(cb,"("+e+")",o); return true; }
    case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_add: { auto* vt=cast<FixedVectorType>(cb->getArgOperand(0)->getType()); string e="("+A(0)+").e[0]"; unsigned op=id==Intrinsic::vector_reduce_or?Instruction::Or:id==Intrinsic::vector_reduce_and?Instruction::And:id==Intrinsic::vector_reduce_xor?Instruction::Xor:Instruction::Add; for(unsigned i=1;i<vt->getNumElements();++i) e=binop(op,e,"("+A(0)+").e["+std::to_string(i)+"]",vt->getElementType()); storeTo(cb,e,o); return true; }
    case Intrinsic::threadlocal_address: storeTo(cb,A(0),o); return true;
    case Intrinsic::fabs: if(cb->getType()->isDoubleTy()) storeTo(cb,"vf_bits2d(vf_d2bits("+A(0)+")&0x7ffffffffffffffful)",o); else if(cb->getType()->isFloatTy()) storeTo(cb,"vf_bits2f(vf_f2bits("+A(0)+")&0x7fffffffu)",o); else die("fabs"); return true;
    case Intrinsic::ceil: storeTo(cb,"vf_ceil("+A(0)+")",o); return true;
    case Intrinsic::is_fpclass: die("fpclass");
    case Intrinsic::fmuladd: storeTo(cb,"("+A(0)+"*"+A(1)+"+"+A(2)+")",o); return true;
    case Intrinsic::eh_typeid_for: storeTo(cb,"0",o); return true;
    default: die("intrinsic "+f->getName().str());
  }
}

static void emitCall(CallBase* cb, std::ostream& o){
  if(cb->isInlineAsm()) { o<<"  /* inline asm dropped */\n"; return; }
  Value* cv=cb->getCalledOperand()->stripPointerCastsAndAliases();
  Function* f=dyn_cast<Function>(cv);
  if(f && f->isIntrinsic()){ if(emitIntrinsic(f,cb,o)) return; }
  if(f){
    StringRef n=f->getName();
    if(n=="vf_check"){ string s=constString(cb->getArgOperand(1)); o<<"  __CPROVER_assert("<<val(cb->getArgOperand(0))<<", "<<cstr(s)<<");\n"; return; }
    if(n=="vf_assume"){ o<<"  __CPROVER_assume("<<val(cb->getArgOperand(0))<<");\n"; return; }
    if(n=="vf_cover"){ string s=constString(cb->getArgOperand(0)); o<<"  __CPROVER_assert(0, "<<cstr("cover:"+s)<<");\n"; return; }
    if(n.starts_with("gtl_verif_loop_")){
      Loop* L=LI->getLoopFor(cb->getParent());
      if(!L||!cutLoops.count(L)) { o<<"  /* loop hook outside a loop */\n"; return; }
      int id=cutLoops[L]; string args; for(unsigned i=0;i<cb->arg_size();++i){ if(i) args+=", "; args+=val(cb->getArgOperand(i)); }
      string nm=n.substr(strlen("gtl_verif_loop_")).str(); useF(f);
      Function* hv=M->getFunction("gtl_verif_havoc_"+nm); if(hv) useF(hv);
      Function* so=M->getFunction("gtl_verif_sameobj_"+nm); // the invariant confines pointers to the object they start in
      Function* vr=M->getFunction("gtl_verif_var_"+nm); if(vr) useF(vr);
      o<<"  if(cutmode"<<id<<"==0) {\n    __CPROVER_assert("<<gname(f)<<"("<<args<<"), \"loop invariant "<<nm<<" holds on entry\");\n";
      if(hv) o<<"    "<<gname(hv)<<"("<<args<<");\n";
      for(auto& phi: L->getHeader()->phis()){ string t=C->newTmp(phi.getType(),"hv"); C->decls.str(); if(so&&phi.getType()->isPointerTy()) o<<"    { s64 vf_hv; __CPROVER_assume(vf_hv>-(1l<<50)&&vf_hv<(1l<<50)); "<<C->names[&phi]<<" = "<<C->names[&phi]<<" + vf_hv; }\n"; else o<<"    { "<<ctype(phi.getType())<<" vf_hv; "<<C->names[&phi]<<" = vf_hv; }\n"; }
      o<<"    cutmode"<<id<<" = 1; goto cut"<<id<<"; }\n";
      o<<"  if(cutmode"<<id<<"==1) {\n    __CPROVER_assume("<<gname(f)<<"("<<args<<")); cutmode"<<id<<"=2; "; if(vr) o<<"cutvar"<<id<<" = "<<gname(vr)<<"("<<args<<"); "; o<<"}\n";
      o<<"  else {\n    __CPROVER_assert("<<gname(f)<<"("<<args<<"), \"loop invariant "<<nm<<" is preserved\");\n"; if(vr) o<<"    __CPROVER_assert("<<gname(vr)<<"("<<args<<") < cutvar"<<id<<", \"loop variant "<<nm<<" decreases\");\n"; o<<"    __CPROVER_assume(0); }\n";
      return;
    }
    if(EH&&(n=="vf_throw"||n=="__cxa_throw"||n=="__cxa_rethrow"||n.starts_with("_ZSt20__throw")||n.starts_with("_ZSt17__throw"))){ o<<"  vf_exc = 1;"; if(isa<CallInst>(cb)) emitReturn(o); o<<"\n"; return; }
    if(EH&&(n=="__clang_call_terminate"||n=="_ZSt9terminatev")){ o<<"  __CPROVER_assert(0,\"std::terminate is not called\"); __CPROVER_assume(0);\n"; return; }
    if(EH&&n=="__cxa_begin_catch"){ if(!cb->use_empty()) storeTo(cb,"((ptr)0)",o); return; }
    if(EH&&n=="__cxa_end_catch") return;
    if(EH&&n=="__cxa_allocate_exception"){ storeTo(cb,"((ptr)0)",o); return; }
    if(EH&&(n=="__cxa_free_exception"||n.starts_with("_ZNSt12length_errorC")||n.starts_with("_ZNSt12out_of_rangeC")||n.starts_with("_ZNSt9bad_allocC"))) return;
    useF(f);
    string args; for(unsigned i=0;i<f->getFunctionType()->getNumParams();++i){ if(i) args+=", "; args+=val(cb->getArgOperand(i)); }
    string e=gname(f)+"("+args+")";
    if(f->getReturnType()!=cb->getType()) die("call type mismatch "+f->getName().str());
    if(cb->getType()->isVoidTy()||cb->use_empty()) o<<"  "<<e<<";\n"; else storeTo(cb,e,o);
    if(EH&&mayThrow(cb)){ if(isa<CallInst>(cb)){ o<<"  if(vf_exc)"; emitReturn(o); o<<"\n"; } if(cb->doesNotReturn()){ if(isa<CallInst>(cb)) o<<"  __CPROVER_assume(0);\n"; } return; }
    if(cb->doesNotReturn()) o<<"  __CPROVER_assume(0);\n";
    return;
  }
  FunctionType* ft=cb->getFunctionType(); string sig=ctype(ft->getReturnType())+"(*)("; for(unsigned i=0;i<ft->getNumParams();++i){ if(i) sig+=","; sig+=ctype(ft->getParamType(i)); } if(!ft->getNumParams()) sig+="void"; sig+=")";
  string args; for(unsigned i=0;i<cb->arg_size();++i){ if(i) args+=", "; args+=val(cb->getArgOperand(i)); }
  string e="(("+sig+")"+val(cb->getCalledOperand())+")("+args+")";
  if(cb->getType()->isVoidTy()) o<<"  "<<e<<";\n"; else storeTo(cb,e,o);
  if(EH&&mayThrow(cb)&&isa<CallInst>(cb)){ o<<"  if(vf_exc)"; emitReturn(o); o<<"\n"; }
}

// loop-contiguous topological order
static void orderRegion(LoopInfo& li, Loop* L, const vector<BasicBlock*>& rpo, vector<BasicBlock*>& out){
  // blocks directly in region in rpo; inner loops emitted as units
  // build supernodes
  map<BasicBlock*,int> node; vector<vector<BasicBlock*>> members; vector<Loop*> nl;
  for(BasicBlock* b: rpo){ Loop* bl=li.getLoopFor(b); if(L && !L->contains(b)) continue; 
    Loop* top=bl; if(bl==L) top=nullptr; else { while(top && top->getParentLoop()!=L) top=top->getParentLoop(); }
    if(!top){ node[b]=members.size(); members.push_back({b}); nl.push_back(nullptr); }
    else { int k=-1; for(size_t i=0;i<nl.size();++i) if(nl[i]==top) k=i; if(k<0){ k=members.size(); members.push_back({}); nl.push_back(top);} members[k].push_back(b); node[b]=k; } }
  size_t n=members.size(); vector<set<int>> succ(n); vector<int> indeg(n,0);
  for(size_t i=0;i<n;++i) for(auto* b: members[i]) for(auto* s: successors(b)){ auto it=node.find(s); if(it==node.end()) continue; int j=it->second; if(j==(int)i) continue; if(L && s==L->getHeader()) continue; if(succ[i].insert(j).second) indeg[j]++; }
  // Kahn, prefer most recently enabled (keeps code local), but rpo index priority is fine
  set<int> ready; vector<bool> done(n,false); for(size_t i=0;i<n;++i) if(!indeg[i]) ready.insert(i);
  size_t cnt=0;
  while(cnt<n){ if(ready.empty()){ for(size_t i=0;i<n;++i) if(!done[i]){ ready.insert(i); break; } }
    int i=*ready.begin(); ready.erase(i); if(done[i]) continue; done[i]=true; cnt++;
    if(nl[i]) orderRegion(li,nl[i],members[i],out); else out.push_back(members[i][0]);
    for(int j: succ[i]) if(--indeg[j]==0 && !done[j]) ready.insert(j); }
}

static string translateFunction(Function* F){
  FnCtx ctx; C=&ctx; ctx.F=F; DominatorTree DT(*F); LoopInfo li(DT); LI=&li; bbId.clear(); cutLoops.clear();
  vector<BasicBlock*> rpo; { set<BasicBlock*> vis; vector<BasicBlock*> post; std::function<void(BasicBlock*)> dfs=[&](BasicBlock* b){ if(!vis.insert(b).second) return; 
      vector<BasicBlock*> ss; if(auto* iv=dyn_cast<InvokeInst>(b->getTerminator())){ ss.push_back(iv->getNormalDest()); if(EH) ss.push_back(iv->getUnwindDest()); } else for(auto* s: successors(b)) ss.push_back(s);
      for(auto it=ss.rbegin();it!=ss.rend();++it) dfs(*it); post.push_back(b); }; dfs(&F->getEntryBlock()); rpo.assign(post.rbegin(),post.rend()); }
  vector<BasicBlock*> order; orderRegion(li,nullptr,rpo,order);
  // keep only reachable ones
  { set<BasicBlock*> r(rpo.begin(),rpo.end()); vector<BasicBlock*> o2; for(auto*b:order) if(r.count(b)) o2.push_back(b); order=o2; }
  int k=0; for(auto* b: order) bbId[b]=k++;
  int ai=0; for(auto& a: F->args()) ctx.names[&a]="a"+std::to_string(ai++);
  int vi=0; std::ostringstream allocs;
  for(auto* b: order) for(auto& I: *b){
    if(auto* cb=dyn_cast<CallBase>(&I)) if(auto* f=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if(f->getName().starts_with("gtl_verif_loop_")){ Loop* L=li.getLoopFor(b); if(L && !cutLoops.count(L)){ int id=cutCnt++; cutLoops[L]=id; ctx.decls<<"  int cutmode"<<id<<" = 0; u64 cutvar"<<id<<" = 0;\n"; 
        bool writes=false; string nm=f->getName().substr(strlen("gtl_verif_loop_")).str(); for(auto* lb: L->blocks()) for(auto& LI2: *lb) if(isa<StoreInst>(LI2)|| (isa<CallBase>(LI2) && LI2.mayWriteToMemory() && !(cast<CallBase>(LI2).getCalledFunction() && (cast<CallBase>(LI2).getCalledFunction()->getName().starts_with("gtl_verif_")||cast<CallBase>(LI2).getCalledFunction()->isIntrinsic()||cast<CallBase>(LI2).getCalledFunction()->getName().starts_with("vf_"))))) writes=true;
        cutReport.push_back(nm+" "+std::to_string(id)+(writes?" writes":" pure")); } }
    if(I.getType()->isVoidTy()) continue;
    if(auto* a=dyn_cast<AllocaInst>(&I)){ string n="m"+std::to_string(vi++); 
      if(a->isArrayAllocation() && !isa<ConstantInt>(a->getArraySize())) die("vla"); uint64_t cnt=a->isArrayAllocation()?cast<ConstantInt>(a->getArraySize())->getZExtValue():1;
      if(cnt==1) ctx.decls<<"  "<<memtype(a->getAllocatedType())<<" "<<n<<";\n"; else ctx.decls<<"  "<<memtype(a->getAllocatedType())<<" "<<n<<"["<<cnt<<"];\n";
      ctx.names[&I]="((ptr)&"+n+")"; continue; }
    if(isa<LandingPadInst>(&I)) { ctx.names[&I]="lp"; }
    string n="v"+std::to_string(vi++); ctx.names[&I]=n; ctx.decls<<"  "<<ctype(I.getType())<<" "<<n<<";\n";
  }
  std::ostringstream body;
  for(auto* b: order){
    body<<lbl(b)<<":;\n";
    Loop* L=li.getLoopFor(b); if(L && L->getHeader()==b && cutLoops.count(L)) body<<"cut"<<cutLoops[L]<<":;\n";
    for(auto& I: *b){ if(isa<PHINode>(I)) continue; emitInst(&I,body); }
  }
  std::ostringstream o; o<<"// "<<llvm::demangle(F->getName().str())<<"\n"<<funcSig(F,gname(F),true)<<"\n{\n"<<ctx.decls.str()<<body.str()<<"}\n\n";
  C=nullptr; LI=nullptr; return o.str();
}

static void runPasses(Module& m, const string& pipeline){
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM; PipelineTuningOptions PTO; PTO.LoopUnrolling=false; PTO.LoopVectorization=false; PTO.SLPVectorization=false; PTO.LoopInterleaving=false;
  PassBuilder PB(nullptr,PTO); PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
  ModulePassManager MPM; if(auto e=PB.parsePassPipeline(MPM,pipeline)) die("pipeline: "+toString(std::move(e))); MPM.run(m,MAM);
}

int main(int argc,char** argv){
  if(argc<3) die("usage"); string in=argv[1], out=argv[2]; vector<string> entries; vector<std::pair<string,string>> stubs, recs; vector<string> keep; string pipeline="default<O1>";
  for(int i=3;i<argc;++i){ string a=argv[i]; if(a=="--eh") EH=true; else if(a=="--bytewise") BYTES=true; else if(a=="--entry") entries.push_back(argv[++i]); else if(a=="--stub"){ string s=argv[++i]; auto p=s.rfind("=>"); stubs.push_back({s.substr(0,p),s.substr(p+2)}); } else if(a=="--rec"){ string s=argv[++i]; auto p=s.rfind("=>"); recs.push_back({s.substr(0,p),s.substr(p+2)}); } else if(a=="--noinline") keep.push_back(argv[++i]); else if(a=="--pipeline") pipeline=argv[++i]; else die("arg "+a); }
  LLVMContext ctx; SMDiagnostic err; auto m=parseIRFile(in,err,ctx); if(!m){ err.print("ll2c",errs()); return 3; } M=m.get(); DL=&M->getDataLayout();
  set<string> ent(entries.begin(),entries.end());
  for(auto& f: *M){ if(f.isDeclaration()) continue; f.removeFnAttr(Attribute::OptimizeNone); StringRef n=f.getName();
    if((n.contains("scoped_guard")||(n.starts_with("_ZZN3gtl")&&n.contains("UlvE")&&n.ends_with("_clEv")))&&!f.hasFnAttribute(Attribute::NoInline)) f.addFnAttr(Attribute::AlwaysInline);
    if(ent.count(n.str())||n.starts_with("gtl_verif_")) { f.setLinkage(GlobalValue::ExternalLinkage); if(n.starts_with("gtl_verif_")||n.starts_with("vf_contract_")) f.addFnAttr(Attribute::NoInline); if(n.starts_with("gtl_verif_")) f.addFnAttr(Attribute::OptimizeNone); }
    else if(n.starts_with("vf_contract_")||n.starts_with("vfk_")){ f.setLinkage(GlobalValue::ExternalLinkage); f.addFnAttr(Attribute::NoInline); }
    else if(!f.hasAvailableExternallyLinkage()) { f.setComdat(nullptr); f.setLinkage(GlobalValue::InternalLinkage); } }
  // memcpy/memmove/memset of the code under verification (not of the harness itself) go to their contracts, where given
  { auto harness=[&](StringRef n){ return n.starts_with("_ZL")||n.starts_with("vf_")||n.starts_with("H_")||n.contains("H_v_")||n.contains("scoped_guard")||n.starts_with("gtl_verif_"); }; vector<MemIntrinsic*> mi;
    for(auto& f: *M) if(!f.isDeclaration()&&!harness(f.getName())) for(auto& I: instructions(f)) if(auto* x=dyn_cast<MemIntrinsic>(&I)) mi.push_back(x);
    for(auto* x: mi){ Function* c=M->getFunction(isa<MemSetInst>(x)? "vf_contract_memset": isa<MemMoveInst>(x)? "vf_contract_memmove":"vf_contract_memcpy"); if(!c) continue; IRBuilder<> B(x); Value* a1=x->getArgOperand(1); Value* len=B.CreateZExtOrTrunc(x->getArgOperand(2),B.getInt64Ty()); B.CreateCall(c,{x->getArgOperand(0),a1,len}); x->eraseFromParent(); } }
  // stubs: replace every call to a function whose demangled name matches by the contract function
  vector<string> stubReport;
  for(auto& [re,sym]: stubs){ std::regex r(re); Function* s=M->getFunction(sym); if(!s) die("no contract "+sym); int n=0; vector<Function*> fs; for(auto& f:*M) if(&f!=s && !f.isIntrinsic()){ string d=llvm::demangle(f.getName().str()); if(std::regex_search(d,r)) fs.push_back(&f); }
    for(auto* f: fs){ if(f->getFunctionType()!=s->getFunctionType()) die("contract type mismatch for "+llvm::demangle(f->getName().str())+" vs "+sym+": "+str(f->getFunctionType())+" / "+str(s->getFunctionType())); f->replaceAllUsesWith(s); ++n; 
      // the contract may call the original under a vfk_ alias: not supported
    }
    stubReport.push_back(sym+" "+std::to_string(n)); }
  // recursion: calls a matching function makes to itself (or to another matching instance) go to the contract
  for(auto& [re,sym]: recs){ std::regex r(re); Function* s=M->getFunction(sym); if(!s) die("no contract "+sym); int n=0; vector<Function*> fs; for(auto& f:*M) if(!f.isDeclaration() && &f!=s && std::regex_search(llvm::demangle(f.getName().str()),r)) fs.push_back(&f);
    for(auto* f: fs) for(auto* g: fs) if(g->getFunctionType()==s->getFunctionType()) for(auto& I: instructions(*f)) if(auto* cb=dyn_cast<CallBase>(&I)) if(cb->getCalledOperand()==g){ cb->setCalledOperand(s); ++n; }
    stubReport.push_back(sym+" "+std::to_string(n)); }
  // drop everything unreachable
  // (allow vf_contract functions to remain)
  { vector<GlobalVariable*> kill; for(auto& g: M->globals()){ if(g.getName()=="llvm.global_ctors"||g.getName()=="llvm.used"||g.getName()=="llvm.compiler.used") kill.push_back(&g); else if(!g.isDeclaration()&&!g.hasAvailableExternallyLinkage()&&!g.getName().starts_with("gtl_verif")) { g.setComdat(nullptr); g.setLinkage(GlobalValue::InternalLinkage);} } for(auto*g:kill) g->eraseFromParent(); }
  runPasses(*M,pipeline);
  runPasses(*M,EH? "function(loop-simplify,simplifycfg,loop-simplify)":"function(loop-simplify,lowerinvoke,simplifycfg,loop-simplify)");
  for(auto& e: entries){ Function* f=M->getFunction(e); if(!f) die("no entry "+e); useF(f); }
  std::ostringstream funcs, protos, globs; 
  while(!workF.empty()){ Function* f=workF.front(); workF.pop_front(); if(f->isIntrinsic()) continue; 
    if(f->isDeclaration()){ externUsed.insert(f->getName().str()); protos<<"#ifndef HAVE_"<<gname(f)<<"\n"<<funcSig(f,gname(f),false)<<"; // extern\n#endif\n"; continue; }
    protos<<funcSig(f,gname(f),false)<<";\n"; funcs<<translateFunction(f); }
  // globals (may reference more functions)
  std::ostringstream gdecl,gdef; for(size_t i=0;i<globalsUsed.size();++i){ GlobalVariable* g=globalsUsed[i]; string T=memtype(g->getValueType()); gdecl<<(g->hasInitializer()&&0?"static ":"extern ")<<T<<" "<<gname(g)<<";\n"; if(g->hasInitializer()){ string init; if(isa<UndefValue>(g->getInitializer())) gdef<<T<<" "<<gname(g)<<";\n"; else { init=constInit(g->getInitializer()); gdef<<T<<" "<<gname(g)<<" = "<<init<<";\n"; } } else gdef<<T<<" "<<gname(g)<<"; // external\n"; 
     while(!workF.empty()){ Function* f=workF.front(); workF.pop_front(); if(f->isIntrinsic()) continue; if(f->isDeclaration()){ externUsed.insert(f->getName().str()); protos<<"#ifndef HAVE_"<<gname(f)<<"\n"<<funcSig(f,gname(f),false)<<"; // extern\n#endif\n"; continue; } protos<<funcSig(f,gname(f),false)<<";\n"; funcs<<translateFunction(f); } }
  std::ofstream o(out); o<<"// generated by ll2c from "<<in<<"\n#include \"models.h\"\n"<<(EH?"_Bool vf_exc;\n":"")<<typesOut.str()<<"\n"<<protos.str()<<"\n"<<gdecl.str()<<gdef.str()<<"\n"<<funcs.str();
  o<<"#include \"models.c\"\n";
  std::ofstream r(out+".report"); for(auto& e: externUsed) r<<"extern "<<e<<"\n"; for(auto& s: stubReport) r<<"stub "<<s<<"\n"; for(auto& s: cutReport) r<<"cut "<<s<<"\n"; for(auto* f: seenF) if(!f->isDeclaration()) r<<"func "<<llvm::demangle(f->getName().str())<<"\n";
  return 0;
}
