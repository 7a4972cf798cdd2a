// irdump: reads LLVM bitcode/IR and prints it as JSON for the verification-condition generator.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
using namespace llvm;
static std::string ts(Type* t) {
   if (auto* st=dyn_cast<StructType>(t)) if (st->hasName()) return "%"+st->getName().str();
   std::string s; raw_string_ostream o(s); t->print(o,false,true); return o.str();
}
static std::set<StructType*> structs;
static void note(Type* t) {
   if (auto* s=dyn_cast<StructType>(t)) { if (!structs.insert(s).second) return; for(auto* e:s->elements()) note(e);} 
   else if (auto* a=dyn_cast<ArrayType>(t)) note(a->getElementType());
}
struct Fn {
   std::map<const Value*,int> id; 
   json::Value op(const Value* v,int d=0) {
      if (auto it=id.find(v); it!=id.end()) return json::Array{"l",it->second};
      if (auto* c=dyn_cast<ConstantInt>(v)) { SmallString<32> s; c->getValue().toStringSigned(s); return json::Array{"i",(int)c->getBitWidth(),s.str().str()}; }
      if (auto* c=dyn_cast<ConstantFP>(v)) { SmallString<64> s; c->getValueAPF().toString(s,0,0); return json::Array{"f",s.str().str()}; }
      if (auto* md=dyn_cast<MetadataAsValue>(v)) { if (auto* ms=dyn_cast<MDString>(md->getMetadata())) return json::Array{"md",ms->getString().str()}; return json::Array{"md",""}; }
      if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
      if (isa<UndefValue>(v)) return json::Array{"undef",ts(v->getType())};
      if (isa<ConstantAggregateZero>(v)) return json::Array{"zero",ts(v->getType())};
      if (auto* f=dyn_cast<Function>(v)) return json::Array{"fn",f->getName().str()};
      if (auto* g=dyn_cast<GlobalVariable>(v)) return json::Array{"g",g->getName().str()};
      if (auto* a=dyn_cast<GlobalAlias>(v)) return op(a->getAliasee(),d);
      if (auto* ce=dyn_cast<ConstantExpr>(v)) {
         json::Array a{"ce",std::string(ce->getOpcodeName()),ts(ce->getType())};
         if (auto* ge=dyn_cast<GEPOperator>(ce)) { note(ge->getSourceElementType()); a.push_back(ts(ge->getSourceElementType())); }
         json::Array ops; for(auto& u:ce->operands()) ops.push_back(op(u.get(),d+1)); a.push_back(std::move(ops)); return a;
      }
      if (auto* ca=dyn_cast<ConstantDataSequential>(v)) { if (ca->getNumElements()>4096) return json::Array{"?"}; json::Array e; for(unsigned i=0;i<ca->getNumElements();i++) e.push_back(op(ca->getElementAsConstant(i),d+1)); return json::Array{"arr",ts(v->getType()),std::move(e)}; }
      if (auto* ca=dyn_cast<ConstantAggregate>(v)) { json::Array e; for(auto& u:ca->operands()) e.push_back(op(u.get(),d+1)); return json::Array{"arr",ts(v->getType()),std::move(e)}; }
      return json::Array{"?"};
   }
};
int main(int argc,char** argv) {
   LLVMContext ctx; SMDiagnostic err; auto m=parseIRFile(argv[1],err,ctx); if (!m) { err.print(argv[0],errs()); return 2; }
   json::Object root,funs,globs,decls;
   for(auto& F:*m) {
      json::Object f; std::string nm=F.getName().str();
      f["dem"]=demangle(nm); f["ret"]=ts(F.getReturnType());
      Fn c; int n=0; json::Array args;
      for(auto& a:F.args()) { c.id[&a]=n; json::Array r{n,a.getName().str(),ts(a.getType())}; if (a.hasStructRetAttr()) { note(a.getParamStructRetType()); r.push_back("sret"); r.push_back(ts(a.getParamStructRetType())); } else if (a.hasByValAttr()) { r.push_back("byval"); r.push_back(ts(a.getParamByValType())); } n++; args.push_back(std::move(r)); }
      f["args"]=std::move(args); f["noreturn"]=F.doesNotReturn();
      if (F.isDeclaration()) { decls[nm]=std::move(f); continue; }
      for(auto& B:F) for(auto& I:B) c.id[&I]=n++;
      std::map<const BasicBlock*,int> bid; int bn=0; for(auto& B:F) bid[&B]=bn++;
      DominatorTree DT(F); LoopInfo LI(DT);
      json::Array loops; 
      for(auto* L:LI.getLoopsInPreorder()) { json::Array bl; for(auto* b:L->blocks()) bl.push_back(bid[b]); 
         loops.push_back(json::Object{{"h",bid[L->getHeader()]},{"blocks",std::move(bl)},{"depth",(int)L->getLoopDepth()},{"line",L->getStartLoc()?(int)L->getStartLoc().getLine():0}}); }
      f["loops"]=std::move(loops);
      json::Array blocks;
      for(auto& B:F) {
         json::Array ins;
         for(auto& I:B) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            json::Object o; o["op"]=std::string(I.getOpcodeName()); o["id"]=c.id[&I]; o["ty"]=ts(I.getType());
            if (I.hasName()) o["name"]=I.getName().str();
            if (auto dl=I.getDebugLoc()) { o["line"]=(int)dl.getLine(); if (auto* sc=dyn_cast_or_null<DIScope>(dl.getScope())) o["file"]=sc->getFilename().str(); }
            json::Array ops;
            if (auto* a=dyn_cast<AllocaInst>(&I)) { o["aty"]=ts(a->getAllocatedType()); note(a->getAllocatedType()); ops.push_back(c.op(a->getArraySize())); }
            else if (auto* g=dyn_cast<GetElementPtrInst>(&I)) { o["sty"]=ts(g->getSourceElementType()); note(g->getSourceElementType()); for(auto& u:g->operands()) ops.push_back(c.op(u.get())); }
            else if (auto* p=dyn_cast<PHINode>(&I)) { for(unsigned i=0;i<p->getNumIncomingValues();i++) ops.push_back(json::Array{bid[p->getIncomingBlock(i)],c.op(p->getIncomingValue(i))}); }
            else if (auto* cb=dyn_cast<CallBase>(&I)) {
               o["callee"]=c.op(cb->getCalledOperand()); for(auto& u:cb->args()) ops.push_back(c.op(u.get()));
               json::Array at; for(unsigned i=0;i<cb->arg_size();i++) at.push_back(ts(cb->getArgOperand(i)->getType())); o["aty"]=std::move(at);
               if (cb->arg_size() && cb->paramHasAttr(0,Attribute::StructRet)) { o["sret"]=ts(cb->getParamStructRetType(0)); note(cb->getParamStructRetType(0)); }
               if (auto* iv=dyn_cast<InvokeInst>(&I)) o["normal"]=bid[iv->getNormalDest()];
            }
            else if (auto* s=dyn_cast<StoreInst>(&I)) { o["vty"]=ts(s->getValueOperand()->getType()); note(s->getValueOperand()->getType()); ops.push_back(c.op(s->getValueOperand())); ops.push_back(c.op(s->getPointerOperand())); }
            else if (auto* b=dyn_cast<BranchInst>(&I)) { if (b->isConditional()) ops.push_back(c.op(b->getCondition())); json::Array d; for(auto* s:successors(&B)) d.push_back(bid[s]); o["dst"]=std::move(d); }
            else if (auto* s=dyn_cast<SwitchInst>(&I)) { ops.push_back(c.op(s->getCondition())); json::Array cs; for(auto& k:s->cases()) cs.push_back(json::Array{c.op(k.getCaseValue()),bid[k.getCaseSuccessor()]}); o["cases"]=std::move(cs); o["dflt"]=bid[s->getDefaultDest()]; }
            else { if (auto* k=dyn_cast<CmpInst>(&I)) o["pred"]=CmpInst::getPredicateName(k->getPredicate()).str();
               if (auto* e=dyn_cast<ExtractValueInst>(&I)) { json::Array x; for(auto i:e->indices()) x.push_back((int)i); o["idx"]=std::move(x); }
               if (auto* e=dyn_cast<InsertValueInst>(&I)) { json::Array x; for(auto i:e->indices()) x.push_back((int)i); o["idx"]=std::move(x); }
               if (auto* e=dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"]=e->hasNoSignedWrap(); o["nuw"]=e->hasNoUnsignedWrap(); }
               for(auto& u:I.operands()) ops.push_back(c.op(u.get())); 
               if (I.getNumOperands()) o["oty"]=ts(I.getOperand(0)->getType()); }
            if (isa<LoadInst>(&I)) note(I.getType());
            o["ops"]=std::move(ops); ins.push_back(std::move(o));
         }
         blocks.push_back(json::Object{{"name",B.getName().str()},{"ins",std::move(ins)}});
      }
      f["blocks"]=std::move(blocks); funs[nm]=std::move(f);
   }
   for(auto& G:m->globals()) { Fn c; json::Object g; g["ty"]=ts(G.getValueType()); note(G.getValueType()); g["dem"]=demangle(G.getName().str()); g["const"]=G.isConstant();
      if (G.hasInitializer()) g["init"]=c.op(G.getInitializer()); globs[G.getName().str()]=std::move(g); }
   json::Object st; auto& dl=m->getDataLayout(); std::vector<StructType*> v(structs.begin(),structs.end());
   for(auto* s:v) { if (!s->isSized()) continue; json::Array e; auto* L=dl.getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) e.push_back(json::Array{ts(s->getElementType(i)),(int64_t)L->getElementOffset(i),(int64_t)dl.getTypeAllocSize(s->getElementType(i)).getFixedValue()}); st[ts(s)]=json::Object{{"el",std::move(e)},{"size",(int64_t)L->getSizeInBytes()}}; }
   root["functions"]=std::move(funs); root["decls"]=std::move(decls); root["globals"]=std::move(globs); root["structs"]=std::move(st);
   outs() << json::Value(std::move(root)); return 0;
}
