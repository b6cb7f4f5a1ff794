// irdump: dumps LLVM IR (bitcode) reachable from given roots as JSON for the VC generator.
// It makes no semantic decision: one JSON record per IR instruction; GEPs are lowered to
// byte offsets with the module's own DataLayout, constants are written out in full.
#include "llvm/ADT/SetVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
using json::Array; using json::Object; using JV = llvm::json::Value;

static const DataLayout* DL;
static std::map<Type*, int> typeIds;
static std::vector<JV> typeRecs;
static SetVector<Function*> funcs;
static SetVector<GlobalVariable*> gvars;

static int typeId(Type* t) {
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    int id = (int)typeRecs.size();
    typeIds[t] = id; typeRecs.push_back(nullptr);
    Object o;
    if (t->isIntegerTy()) { o["k"] = "int"; o["w"] = (int64_t)t->getIntegerBitWidth(); }
    else if (t->isPointerTy()) { o["k"] = "ptr"; }
    else if (t->isFloatTy()) { o["k"] = "fp"; o["w"] = 32; }
    else if (t->isDoubleTy()) { o["k"] = "fp"; o["w"] = 64; }
    else if (t->isX86_FP80Ty()) { o["k"] = "fp"; o["w"] = 80; }
    else if (t->isVoidTy()) { o["k"] = "void"; }
    else if (auto* s = dyn_cast<StructType>(t)) {
        o["k"] = "struct"; o["name"] = s->hasName() ? s->getName().str() : std::string();
        if (!s->isOpaque()) {
            auto* l = DL->getStructLayout(s);
            Array f;
            for (unsigned i = 0; i < s->getNumElements(); ++i) f.push_back(Array{(int64_t)l->getElementOffset(i).getFixedValue(), typeId(s->getElementType(i))});
            o["f"] = std::move(f);
        }
    }
    else if (auto* a = dyn_cast<ArrayType>(t)) { o["k"] = "array"; o["n"] = (int64_t)a->getNumElements(); o["e"] = typeId(a->getElementType()); }
    else if (auto* v = dyn_cast<FixedVectorType>(t)) { o["k"] = "vec"; o["n"] = (int64_t)v->getNumElements(); o["e"] = typeId(v->getElementType()); }
    else o["k"] = "other";
    if (t->isSized()) { o["size"] = (int64_t)DL->getTypeAllocSize(t).getFixedValue(); o["store"] = (int64_t)DL->getTypeStoreSize(t).getFixedValue(); o["align"] = (int64_t)DL->getABITypeAlign(t).value(); }
    typeRecs[id] = std::move(o);
    return id;
}

static JV constant(const Constant* c);
static JV intConst(const APInt& v) { SmallString<32> s; v.toString(s, 10, false); return Array{"c", std::string(s.str()), (int64_t)v.getBitWidth()}; }

static JV constant(const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) return intConst(ci->getValue());
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); SmallString<32> s; b.toString(s, 10, false); return Array{"fp", std::string(s.str()), (int64_t)b.getBitWidth()}; }
    if (isa<ConstantPointerNull>(c)) return Array{"null"};
    if (isa<UndefValue>(c)) return Array{"undef", typeId(c->getType())};
    if (isa<ConstantAggregateZero>(c)) return Array{"zero", typeId(c->getType())};
    if (auto* f = dyn_cast<Function>(c)) { funcs.insert(const_cast<Function*>(f)); return Array{"f", f->getName().str()}; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { gvars.insert(const_cast<GlobalVariable*>(g)); return Array{"g", g->getName().str()}; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) return constant(ga->getAliasee());
    if (auto* cda = dyn_cast<ConstantDataArray>(c)) { if (cda->getElementType()->isIntegerTy(8)) { std::string hex; static const char* H="0123456789abcdef"; for (unsigned char ch : cda->getRawDataValues()) { hex += H[ch>>4]; hex += H[ch&15]; } return Array{"bytes", hex}; } }
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { Array a; for (unsigned i = 0; i < cds->getNumElements(); ++i) a.push_back(constant(cds->getElementAsConstant(i))); return Array{"agg", typeId(c->getType()), std::move(a)}; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { Array a; for (auto& op : ca->operands()) a.push_back(constant(cast<Constant>(op))); return Array{"agg", typeId(c->getType()), std::move(a)}; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) return Array{"gepc", constant(cast<Constant>(g->getPointerOperand())), (int64_t)off.getSExtValue()}; }
        if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::Trunc || ce->getOpcode() == Instruction::AddrSpaceCast) return Array{"cast", ce->getOpcodeName(), constant(ce->getOperand(0)), typeId(ce->getType())};
        if (ce->getNumOperands() == 2) return Array{"bin", ce->getOpcodeName(), constant(ce->getOperand(0)), constant(ce->getOperand(1)), typeId(ce->getType())};
    }
    std::string s; raw_string_ostream os(s); c->print(os); return Array{"unk", os.str()};
}

static std::string qual(const DIScope* s) {
    std::string r;
    for (; s && !isa<DIFile>(s) && !isa<DICompileUnit>(s); s = s->getScope()) { std::string n = s->getName().str(); if (isa<DINamespace>(s) && n.empty()) n = "(anonymous)"; if (n == "__cxx11" || n == "_V2") { } else r = r.empty() ? n : n + "::" + r; }
    return r;
}

int main(int argc, char** argv) {
    // usage: irdump in.bc out.json root-regex
    LLVMContext ctx; SMDiagnostic err;
    auto m = parseIRFile(argv[1], err, ctx);
    if (!m) { err.print("irdump", errs()); return 2; }
    DL = &m->getDataLayout();
    std::regex rootRe(argv[3]);
    for (auto& f : *m) if (!f.isDeclaration()) { std::string d = demangle(f.getName().str()); if (std::regex_search(d, rootRe)) funcs.insert(&f); }
    for (auto& g : m->globals()) { std::string d = demangle(g.getName().str()); if (std::regex_search(d, rootRe)) gvars.insert(&g); }
    Object fo; Object go;
    size_t fi = 0, gi = 0;
    while (fi < funcs.size() || gi < gvars.size()) {
        if (gi < gvars.size()) {
            auto* g = gvars[gi++];
            Object o; o["dem"] = demangle(g->getName().str()); o["const"] = g->isConstant(); o["t"] = typeId(g->getValueType());
            if (g->hasInitializer()) o["init"] = constant(g->getInitializer());
            go[g->getName().str()] = std::move(o);
            continue;
        }
        Function* f = funcs[fi++];
        Object o; o["dem"] = demangle(f->getName().str()); o["ret"] = typeId(f->getReturnType()); o["decl"] = f->isDeclaration(); o["noreturn"] = f->doesNotReturn(); o["nounwind"] = f->doesNotThrow(); if (f->isVarArg()) o["vararg"] = true;
        Array args;
        for (auto& a : f->args()) { Object ao; ao["t"] = typeId(a.getType()); if (a.hasStructRetAttr()) ao["sret"] = typeId(a.getParamStructRetType()); if (a.hasByValAttr()) ao["byval"] = typeId(a.getParamByValType()); ao["n"] = a.getName().str(); if (uint64_t d = a.getDereferenceableBytes()) ao["deref"] = (int64_t)d; args.push_back(std::move(ao)); }
        o["args"] = std::move(args);
        if (auto* sp = f->getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
        if (!f->isDeclaration()) {
            std::map<const llvm::Value*, int> ids; int n = 0;
            std::map<const BasicBlock*, int> bids; int bn = 0;
            for (auto& bb : *f) { bids[&bb] = bn++; for (auto& i : bb) ids[&i] = n++; }
            auto opnd = [&](const llvm::Value* v) -> JV {
                if (auto* a = dyn_cast<Argument>(v)) return Array{"a", (int64_t)a->getArgNo()};
                if (auto* c = dyn_cast<Constant>(v)) return constant(c);
                if (auto* b = dyn_cast<BasicBlock>(v)) return Array{"b", bids[b]};
                if (isa<MetadataAsValue>(v)) return Array{"md"};
                if (isa<InlineAsm>(v)) return Array{"asm"};
                return Array{"v", ids.at(v)};
            };
            Array blocks;
            for (auto& bb : *f) {
                Array ins;
                for (auto& i : bb) {
                    if (isa<DbgInfoIntrinsic>(&i)) continue;
                    Object io; io["op"] = i.getOpcodeName(); io["id"] = ids[&i]; io["t"] = typeId(i.getType());
                    if (auto loc = i.getDebugLoc()) { io["ln"] = (int64_t)loc.getLine(); if (auto* sc = loc->getScope()) { auto fn = sc->getFilename(); if (!f->getSubprogram() || fn != f->getSubprogram()->getFilename()) io["fl"] = fn.str(); } }
                    Array a;
                    if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                        a.push_back(opnd(g->getPointerOperand()));
                        int64_t off = 0; Array vars;
                        for (gep_type_iterator gt = gep_type_begin(g), ge = gep_type_end(g); gt != ge; ++gt) {
                            const llvm::Value* idx = gt.getOperand();
                            if (StructType* st = gt.getStructTypeOrNull()) off += (int64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()).getFixedValue();
                            else { int64_t sz = (int64_t)DL->getTypeAllocSize(gt.getIndexedType()).getFixedValue(); if (auto* ci = dyn_cast<ConstantInt>(idx)) off += ci->getSExtValue() * sz; else vars.push_back(Array{opnd(idx), sz, (int64_t)idx->getType()->getIntegerBitWidth()}); }
                        }
                        io["off"] = off; io["vars"] = std::move(vars); io["ib"] = g->isInBounds(); io["src"] = typeId(g->getSourceElementType());
                    } else if (auto* cb = dyn_cast<CallBase>(&i)) {
                        for (auto& op : cb->args()) a.push_back(opnd(op));
                        io["callee"] = opnd(cb->getCalledOperand());
                        if (auto* cf = cb->getCalledFunction()) { if (cf->isIntrinsic()) io["intr"] = Intrinsic::getBaseName(cf->getIntrinsicID()).str(); }
                        if (cb->doesNotReturn()) io["nr"] = true;
                        if (cb->doesNotThrow()) io["nt"] = true;
                        for (unsigned k = 0; k < cb->arg_size(); ++k) { if (cb->isByValArgument(k)) io["byval"] = Array{(int64_t)k, typeId(cb->getParamByValType(k))}; }
                        if (auto* iv = dyn_cast<InvokeInst>(&i)) { io["nd"] = bids[iv->getNormalDest()]; io["ud"] = bids[iv->getUnwindDest()]; }
                    } else if (auto* p = dyn_cast<PHINode>(&i)) {
                        Array in; for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) in.push_back(Array{bids[p->getIncomingBlock(k)], opnd(p->getIncomingValue(k))}); io["in"] = std::move(in);
                    } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
                        a.push_back(opnd(sw->getCondition())); Array cs; for (auto& c : sw->cases()) cs.push_back(Array{intConst(c.getCaseValue()->getValue()), bids[c.getCaseSuccessor()]}); io["cases"] = std::move(cs); io["def"] = bids[sw->getDefaultDest()];
                    } else if (auto* br = dyn_cast<BranchInst>(&i)) {
                        if (br->isConditional()) a.push_back(opnd(br->getCondition())); Array s; for (unsigned k=0;k<br->getNumSuccessors();++k) s.push_back(bids[br->getSuccessor(k)]); io["s"] = std::move(s);
                    } else {
                        for (auto& op : i.operands()) a.push_back(opnd(op));
                        if (auto* al = dyn_cast<AllocaInst>(&i)) { io["at"] = typeId(al->getAllocatedType()); io["nm"] = i.getName().str(); }
                        if (auto* c = dyn_cast<CmpInst>(&i)) { io["p"] = CmpInst::getPredicateName(c->getPredicate()).str(); io["ot"] = typeId(c->getOperand(0)->getType()); }
                        if (auto* c = dyn_cast<CastInst>(&i)) io["st"] = typeId(c->getSrcTy());
                        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i)) { if (ob->hasNoSignedWrap()) io["nsw"] = true; if (ob->hasNoUnsignedWrap()) io["nuw"] = true; }
                        if (auto* ev = dyn_cast<ExtractValueInst>(&i)) { Array x; for (unsigned k : ev->indices()) x.push_back((int64_t)k); io["ix"] = std::move(x); }
                        if (auto* iv = dyn_cast<InsertValueInst>(&i)) { Array x; for (unsigned k : iv->indices()) x.push_back((int64_t)k); io["ix"] = std::move(x); }
                        if (auto* st = dyn_cast<StoreInst>(&i)) io["vt"] = typeId(st->getValueOperand()->getType());
                        if (auto* lp = dyn_cast<LandingPadInst>(&i)) { io["cleanup"] = lp->isCleanup(); Array k; for (unsigned q = 0; q < lp->getNumClauses(); ++q) k.push_back(lp->isCatch(q)); io["catch"] = std::move(k); }
                        if (auto* rm = dyn_cast<AtomicRMWInst>(&i)) io["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
                    }
                    io["a"] = std::move(a);
                    ins.push_back(std::move(io));
                }
                blocks.push_back(Object{{"n", bb.getName().str()}, {"i", std::move(ins)}});
            }
            o["blocks"] = std::move(blocks);
        }
        fo[f->getName().str()] = std::move(o);
    }
    // class layouts from debug info (only dots:: / vc:: classes)
    Object lay;
    DebugInfoFinder dif; dif.processModule(*m);
    for (auto* t : dif.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || c->isForwardDecl() || (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type)) continue;
        std::string qn = qual(c);
        if (qn.compare(0, 6, "dots::") != 0 && qn.compare(0, 4, "vc::") != 0) continue;
        Object mem; Array bases;
        for (auto* e : c->getElements()) if (auto* d = dyn_cast<DIDerivedType>(e)) {
            if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) { const DIType* bt = d->getBaseType(); mem[d->getName().str().empty() ? std::string("_anon") : d->getName().str()] = Array{(int64_t)d->getOffsetInBits() / 8, (int64_t)d->getSizeInBits() / 8, bt ? bt->getName().str() : std::string()}; }
            else if (d->getTag() == dwarf::DW_TAG_inheritance) { const DIType* bt = d->getBaseType(); bases.push_back(Array{(int64_t)d->getOffsetInBits() / 8, bt ? qual(bt) : std::string()}); }
        }
        lay[qn] = Object{{"size", (int64_t)c->getSizeInBits() / 8}, {"m", std::move(mem)}, {"b", std::move(bases)}};
    }
    Array types; for (auto& t : typeRecs) types.push_back(t);
    Object top{{"types", std::move(types)}, {"funcs", std::move(fo)}, {"globals", std::move(go)}, {"layouts", std::move(lay)}};
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    os << JV(std::move(top));
    return 0;
}
