// LLVM pass: routes every IEEE-double operation of a module through the symbolic runtime (vxrt.cpp).
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/InstIterator.h"
#include <map>
using namespace llvm;
namespace {
static const std::map<StringRef,StringRef>& libm1(){
  static const std::map<StringRef,StringRef> m={
   {"sqrt","vx_sqrt"},{"sin","vx_sin"},{"cos","vx_cos"},{"tan","vx_tan"},{"asin","vx_asin"},{"acos","vx_acos"},{"atan","vx_atan"},
   {"sinh","vx_sinh"},{"cosh","vx_cosh"},{"tanh","vx_tanh"},{"exp","vx_exp"},{"log","vx_log"},{"log10","vx_log10"},{"fabs","vx_fabs"},
   {"floor","vx_floor"},{"ceil","vx_ceil"},{"trunc","vx_trunc"},{"round","vx_round"},{"rint","vx_rint"},{"nearbyint","vx_rint"},
   {"__sqrt_finite","vx_sqrt"},{"__exp_finite","vx_exp"},{"__log_finite","vx_log"},{"__acos_finite","vx_acos"},{"__asin_finite","vx_asin"}};
  return m;
}
static const std::map<StringRef,StringRef>& libm2(){
  static const std::map<StringRef,StringRef> m={
   {"pow","vx_pow"},{"atan2","vx_atan2"},{"fmod","vx_fmod"},{"hypot","vx_hypot"},{"fmin","vx_fmin"},{"fmax","vx_fmax"},{"copysign","vx_copysign"},
   {"__atan2_finite","vx_atan2"},{"__pow_finite","vx_pow"},{"__hypot_finite","vx_hypot"},{"remainder","vx_remainder"}};
  return m;
}
struct VX: PassInfoMixin<VX>{
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
    LLVMContext&C=M.getContext();
    Type*D=Type::getDoubleTy(C);Type*I32=Type::getInt32Ty(C);Type*I64=Type::getInt64Ty(C);Type*I8=Type::getInt8Ty(C);
    auto fn=[&](StringRef n,Type*r,ArrayRef<Type*>a){return M.getOrInsertFunction(n,FunctionType::get(r,a,false));};
    // redirect iostream double insertion/extraction
    struct{const char*a;const char*b;} ren[]={{"_ZNSo9_M_insertIdEERSoT_","vx_os_insert"},{"_ZNSi10_M_extractIdEERSiRT_","vx_is_extract"},{"_ZNSolsEd","vx_os_insert"},{"_ZNSirsERd","vx_is_extract"},{"_ZNSt7__cxx119to_stringEd","vx_to_string"}};
    for(auto&r:ren) if(Function*F=M.getFunction(r.a)) if(F->isDeclaration()) F->replaceAllUsesWith(M.getOrInsertFunction(r.b,F->getFunctionType()).getCallee());
    for(Function&F:M){
      if(F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::NoFree);
      // functions may now have side effects through the runtime
      F.removeFnAttr(Attribute::Memory);F.removeFnAttr(Attribute::WillReturn);F.removeFnAttr(Attribute::NoSync);
      std::vector<Instruction*> W;
      for(Instruction&I:instructions(F)) W.push_back(&I);
      for(Instruction*I:W){
        IRBuilder<> B(I);
        auto isD=[&](Type*t){return t->isDoubleTy();};
        auto isVD=[&](Type*t){auto*v=dyn_cast<FixedVectorType>(t);return v&&v->getElementType()->isDoubleTy();};
        auto emitBin=[&](unsigned op,Value*a,Value*b)->Value*{
          const char*n=op==Instruction::FAdd?"vx_add":op==Instruction::FSub?"vx_sub":op==Instruction::FMul?"vx_mul":op==Instruction::FDiv?"vx_div":"vx_fmod";
          return B.CreateCall(fn(n,D,{D,D}),{a,b});};
        auto rep=[&](Value*v){I->replaceAllUsesWith(v);I->eraseFromParent();};
        if(auto*BO=dyn_cast<BinaryOperator>(I)){
          unsigned op=BO->getOpcode();
          if(op<Instruction::FAdd&&0) continue;
          if(!(op==Instruction::FAdd||op==Instruction::FSub||op==Instruction::FMul||op==Instruction::FDiv||op==Instruction::FRem)) continue;
          if(isD(BO->getType())) rep(emitBin(op,BO->getOperand(0),BO->getOperand(1)));
          else if(isVD(BO->getType())){
            unsigned n=cast<FixedVectorType>(BO->getType())->getNumElements();Value*r=PoisonValue::get(BO->getType());
            for(unsigned k=0;k<n;k++) r=B.CreateInsertElement(r,emitBin(op,B.CreateExtractElement(BO->getOperand(0),k),B.CreateExtractElement(BO->getOperand(1),k)),k);
            rep(r);
          }
        } else if(auto*U=dyn_cast<UnaryOperator>(I)){
          if(isD(U->getType())) rep(B.CreateCall(fn("vx_neg",D,{D}),{U->getOperand(0)}));
          else if(isVD(U->getType())){
            unsigned n=cast<FixedVectorType>(U->getType())->getNumElements();Value*r=PoisonValue::get(U->getType());
            for(unsigned k=0;k<n;k++) r=B.CreateInsertElement(r,B.CreateCall(fn("vx_neg",D,{D}),{B.CreateExtractElement(U->getOperand(0),k)}),k);
            rep(r);
          }
        } else if(auto*FC=dyn_cast<FCmpInst>(I)){
          if(I->getDebugLoc()&&I->getDebugLoc()->getFilename().contains("pybind11/")) continue; // argument conversion: 'is it the error value -1', settled by the interpreter's error flag
          Type*t=FC->getOperand(0)->getType();
          auto one=[&](Value*a,Value*b)->Value*{return B.CreateTrunc(B.CreateCall(fn("vx_fcmp",I32,{I32,D,D}),{ConstantInt::get(I32,FC->getPredicate()),a,b}),Type::getInt1Ty(C));};
          if(isD(t)) rep(one(FC->getOperand(0),FC->getOperand(1)));
          else if(isVD(t)){
            unsigned n=cast<FixedVectorType>(t)->getNumElements();Value*r=PoisonValue::get(FC->getType());
            for(unsigned k=0;k<n;k++) r=B.CreateInsertElement(r,one(B.CreateExtractElement(FC->getOperand(0),k),B.CreateExtractElement(FC->getOperand(1),k)),k);
            rep(r);
          }
        } else if(isa<FPToSIInst>(I)||isa<FPToUIInst>(I)){
          if(isD(I->getOperand(0)->getType())){Value*v=B.CreateCall(fn("vx_toi64",I64,{D}),{I->getOperand(0)});rep(B.CreateTruncOrBitCast(v,I->getType()));}
        } else if(isa<FPTruncInst>(I)){
          if(isD(I->getOperand(0)->getType())){Value*v=B.CreateCall(fn("vx_tofloat",Type::getFloatTy(C),{D}),{I->getOperand(0)});rep(v);}
        } else if(isa<FPExtInst>(I)&&I->getType()->isX86_FP80Ty()&&isD(I->getOperand(0)->getType())){
          Value*v=B.CreateFPExt(B.CreateCall(fn("vx_concrete",D,{D}),{I->getOperand(0)}),I->getType());rep(v);
        } else if(auto*CB=dyn_cast<CallBase>(I)){
          Function*G=CB->getCalledFunction();
          if(!G) continue;
          StringRef nm=G->getName();
          Value*nv=nullptr;
          if(auto*II=dyn_cast<IntrinsicInst>(CB)){
            if(II->getIntrinsicID()==Intrinsic::is_fpclass&&isD(II->getArgOperand(0)->getType())){
              nv=B.CreateTrunc(B.CreateCall(fn("vx_fpclass",I32,{D,I32}),{II->getArgOperand(0),II->getArgOperand(1)}),Type::getInt1Ty(C));
            } else if(isD(II->getType())){
              const char*n=nullptr;int ar=1;
              switch(II->getIntrinsicID()){
                case Intrinsic::fabs:n="vx_fabs";break; case Intrinsic::sqrt:n="vx_sqrt";break;
                case Intrinsic::sin:n="vx_sin";break; case Intrinsic::cos:n="vx_cos";break;
                case Intrinsic::exp:n="vx_exp";break; case Intrinsic::log:n="vx_log";break; case Intrinsic::log10:n="vx_log10";break;
                case Intrinsic::floor:n="vx_floor";break; case Intrinsic::ceil:n="vx_ceil";break; case Intrinsic::trunc:n="vx_trunc";break;
                case Intrinsic::round:n="vx_round";break; case Intrinsic::rint:case Intrinsic::nearbyint:n="vx_rint";break;
                case Intrinsic::pow:n="vx_pow";ar=2;break; case Intrinsic::copysign:n="vx_copysign";ar=2;break;
                case Intrinsic::minnum:n="vx_fmin";ar=2;break; case Intrinsic::maxnum:n="vx_fmax";ar=2;break;
                case Intrinsic::powi:nv=B.CreateCall(fn("vx_powi",D,{D,I32}),{II->getArgOperand(0),II->getArgOperand(1)});break;
                case Intrinsic::fmuladd:case Intrinsic::fma:nv=B.CreateCall(fn("vx_add",D,{D,D}),{B.CreateCall(fn("vx_mul",D,{D,D}),{II->getArgOperand(0),II->getArgOperand(1)}),II->getArgOperand(2)});break;
                default:break;
              }
              if(n){ if(ar==1) nv=B.CreateCall(fn(n,D,{D}),{II->getArgOperand(0)}); else nv=B.CreateCall(fn(n,D,{D,D}),{II->getArgOperand(0),II->getArgOperand(1)}); }
            } else if(isVD(II->getType())) errs()<<"vxpass: vector intrinsic "<<nm<<" in "<<F.getName()<<"\n";
          } else {
            if(CB->arg_size()==1&&isD(CB->getType())&&isD(CB->getArgOperand(0)->getType())){auto it=libm1().find(nm);if(it!=libm1().end()) nv=B.CreateCall(fn(it->second,D,{D}),{CB->getArgOperand(0)});}
            else if(CB->arg_size()==2&&isD(CB->getType())&&isD(CB->getArgOperand(0)->getType())&&isD(CB->getArgOperand(1)->getType())){auto it=libm2().find(nm);if(it!=libm2().end()) nv=B.CreateCall(fn(it->second,D,{D,D}),{CB->getArgOperand(0),CB->getArgOperand(1)});}
            else if(nm=="ldexp"&&CB->arg_size()==2) nv=B.CreateCall(fn("vx_ldexp",D,{D,I32}),{CB->getArgOperand(0),CB->getArgOperand(1)});
            else if(nm=="exp10"||nm=="exp2"||nm=="cbrt"||nm=="asinh"||nm=="frexp"||nm=="modf"||nm=="sincos") errs()<<"vxpass: unsupported libm "<<nm<<"\n";
          }
          if(nv){
            if(auto*IN=dyn_cast<InvokeInst>(CB)){ IN->getUnwindDest()->removePredecessor(IN->getParent()); B.CreateBr(IN->getNormalDest()); }
            rep(nv);
          }
        }
      }
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"VX","1",[](PassBuilder&PB){
    PB.registerOptimizerLastEPCallback([](ModulePassManager&MPM,OptimizationLevel){MPM.addPass(VX());});
    PB.registerPipelineParsingCallback([](StringRef N,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){if(N=="vx"){MPM.addPass(VX());return true;}return false;});
  }};
}
