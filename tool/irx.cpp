// irx: links LLVM bitcode files, normalises the result (inlining of selected
// functions plus a pass pipeline), and writes the resulting program as JSON
// lines for the analyses in ../sa.
//
// usage: irx -o OUT [-inline-unknown KNOWN] [-inline FILE] [-noinline FILE]
//            [-pipeline P] [-unroll N] [-only FILE]
//            [-roots FILE] [-top DIR] [-list OUT] a.bc b.bc ...
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Transforms/Utils/FixIrreducible.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"

#include <fstream>
#include <iostream>
#include <functional>
#include <map>
#include <set>
#include <string>

using namespace llvm;

/*
 * one-latch: a loop that is continued at several places is one loop, not
 * nested ones.
 */
struct OneLatch : PassInfoMixin<OneLatch> {
        PreservedAnalyses run(Function &F, FunctionAnalysisManager &AM)
        {
                auto &LI = AM.getResult<LoopAnalysis>(F);
                bool changed = false;
                for (auto *L : LI.getLoopsInPreorder()) {
                        SmallVector<BasicBlock *, 8> latches;
                        L->getLoopLatches(latches);
                        if (latches.size() > 1) {
                                SplitBlockPredecessors(L->getHeader(),
                                                       latches, ".latch");
                                changed = true;
                        }
                }
                return changed ? PreservedAnalyses::none()
                               : PreservedAnalyses::all();
        }
        static bool isRequired() { return true; }
};

/*
 * fix-entries: a loop that is entered at several places is entered at one.
 */
struct FixEntries : PassInfoMixin<FixEntries> {
        PreservedAnalyses run(Function &F, FunctionAnalysisManager &AM)
        {
                auto &LI = AM.getResult<LoopAnalysis>(F);
                ReversePostOrderTraversal<const Function *> RPOT(&F);
                if (!containsIrreducibleCFG<const BasicBlock *>(RPOT, LI)) {
                        return PreservedAnalyses::all();
                }
                PreservedAnalyses PA = LowerSwitchPass().run(F, AM);
                AM.invalidate(F, PA);
                return FixIrreduciblePass().run(F, AM);
        }
        static bool isRequired() { return true; }
};

static DenseMap<const Value *, int> ids;
static const DataLayout *DL;

static std::string
tystr(const Type *t)
{
        std::string s;
        raw_string_ostream os(s);
        if (auto *st = dyn_cast<StructType>(t); st && st->hasName()) {
                return "%" + st->getName().str();
        }
        t->print(os);
        return os.str();
}

static void
set_from_file(const std::string &path, std::set<std::string> &out)
{
        std::ifstream f(path);
        std::string l;
        while (std::getline(f, l)) {
                if (!l.empty()) {
                        out.insert(l);
                }
        }
}

// where a function is defined, relative to the root of the repository
static std::string
filekey(const Function &F, const std::string &root)
{
        auto *sp = F.getSubprogram();
        if (!sp) {
                return "";
        }
        std::string f = sp->getFilename().str();
        if (f.compare(0, root.size(), root) == 0) {
                f = f.substr(root.size());
        }
        return f;
}

static std::string
basename_of(const Function &F)
{
        // linking renames a clashing static function to name.N
        std::string n = F.getName().str();
        return n.substr(0, n.find('.'));
}

// A function that lost its known name while another one of the same type
// appeared in the same file has been renamed: give it the known name.
static void
undo_renames(Module &M, const std::string &known, const std::string &root)
{
        typedef std::pair<std::string, std::string> Key;
        std::map<Key, std::set<std::string>> gone;
        std::map<Key, std::vector<Function *>> fresh;
        std::set<std::string> names;
        std::ifstream f(known);
        std::string l;
        while (std::getline(f, l)) {
                size_t a = l.find('\t');
                size_t b = l.find('\t', a + 1);
                if (a == l.npos || b == l.npos) {
                        continue;
                }
                gone[{l.substr(0, a), l.substr(b + 1)}].insert(
                        l.substr(a + 1, b - a - 1));
                names.insert(l.substr(a + 1, b - a - 1));
        }
        std::set<std::string> files;
        for (auto &F : M) {
                if (F.isDeclaration()) {
                        continue;
                }
                Key k{filekey(F, root), tystr(F.getFunctionType())};
                files.insert(k.first);
                std::string n = basename_of(F);
                auto it = gone.find(k);
                if (it != gone.end()) {
                        it->second.erase(n);
                }
                if (!names.count(n)) {
                        fresh[k].push_back(&F);
                }
        }
        for (auto &e : fresh) {
                auto it = gone.find(e.first);
                if (e.second.size() != 1 || it == gone.end() ||
                    it->second.size() != 1) {
                        continue;
                }
                const std::string &n = *it->second.begin();
                Function *F = e.second[0];
                if (Function *D = M.getFunction(n)) {
                        if (!D->isDeclaration() ||
                            D->getFunctionType() != F->getFunctionType()) {
                                continue;
                        }
                        D->replaceAllUsesWith(F);
                        D->eraseFromParent();
                }
                errs() << "irx: " << F->getName() << " is " << n << "\n";
                F->setName(n);
        }
}

static json::Value constval(const Constant *c, int depth);

static void
gepsteps(const GEPOperator *g, json::Array &steps,
         json::Value (*enc)(const Value *))
{
        Type *t = g->getSourceElementType();
        bool first = true;
        for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
                const Value *ix = *it;
                if (first) {
                        first = false;
                        uint64_t sz = DL->getTypeAllocSize(t);
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) {
                                if (ci->getSExtValue() != 0) {
                                        steps.push_back(json::Array{
                                                "o", (int64_t)(ci->getSExtValue() *
                                                               (int64_t)sz)});
                                }
                        } else {
                                steps.push_back(json::Array{
                                        "x", (int64_t)sz, enc(ix)});
                        }
                        continue;
                }
                if (auto *st = dyn_cast<StructType>(t)) {
                        unsigned fi =
                                (unsigned)cast<ConstantInt>(ix)->getZExtValue();
                        uint64_t off =
                                DL->getStructLayout(st)->getElementOffset(fi);
                        steps.push_back(json::Array{
                                "f", tystr(st), (int64_t)fi, (int64_t)off});
                        t = st->getElementType(fi);
                } else {
                        Type *et;
                        if (auto *at = dyn_cast<ArrayType>(t)) {
                                et = at->getElementType();
                        } else {
                                et = cast<VectorType>(t)->getElementType();
                        }
                        uint64_t sz = DL->getTypeAllocSize(et);
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) {
                                steps.push_back(json::Array{
                                        "o", (int64_t)(ci->getSExtValue() *
                                                       (int64_t)sz)});
                        } else {
                                steps.push_back(json::Array{
                                        "x", (int64_t)sz, enc(ix)});
                        }
                        t = et;
                }
        }
}

// The linker merges struct types of the same shape, so that the names in
// member accesses become arbitrary.  Remember the original ones.
static void
save_names(Module &m)
{
        LLVMContext &ctx = m.getContext();
        for (auto &f : m) {
                for (auto &i : instructions(f)) {
                        auto *g = dyn_cast<GetElementPtrInst>(&i);
                        if (g == nullptr) {
                                continue;
                        }
                        SmallVector<Metadata *, 4> names;
                        Type *t = g->getSourceElementType();
                        bool first = true;
                        for (auto it = g->idx_begin(); it != g->idx_end();
                             ++it) {
                                if (first) {
                                        first = false;
                                        continue;
                                }
                                if (auto *st = dyn_cast<StructType>(t)) {
                                        names.push_back(MDString::get(
                                                ctx, tystr(st)));
                                        t = st->getElementType(
                                                (unsigned)cast<ConstantInt>(
                                                        it->get())
                                                        ->getZExtValue());
                                } else if (auto *at =
                                                   dyn_cast<ArrayType>(t)) {
                                        t = at->getElementType();
                                } else {
                                        t = cast<VectorType>(t)
                                                    ->getElementType();
                                }
                        }
                        if (!names.empty()) {
                                g->setMetadata("irxt",
                                               MDNode::get(ctx, names));
                        }
                }
        }
}

static void
restore_names(const GetElementPtrInst *g, json::Array &steps)
{
        MDNode *md = g->getMetadata("irxt");
        if (md == nullptr) {
                return;
        }
        unsigned n = 0;
        for (auto &s : steps) {
                auto *a = s.getAsArray();
                if ((*a)[0] == json::Value("f")) {
                        n++;
                }
        }
        if (n != md->getNumOperands()) {
                return;
        }
        n = 0;
        for (auto &s : steps) {
                auto *a = s.getAsArray();
                if ((*a)[0] == json::Value("f")) {
                        (*a)[1] = cast<MDString>(md->getOperand(n++))
                                          ->getString()
                                          .str();
                }
        }
}

// operand encoding:
//   N            instruction number
//   "aN"         argument
//   "@name"      global
//   ["c",v,bits] integer (v is a decimal string when it does not fit)
//   ["null"] ["undef"] ["zero"] ["fp",str] ["agg",[...]] ["str",hex]
//   ["gep",base,steps] ["ce",op,[...]]
static json::Value
enc(const Value *v)
{
        if (auto it = ids.find(v); it != ids.end()) {
                return it->second;
        }
        if (auto *a = dyn_cast<Argument>(v)) {
                return "a" + std::to_string(a->getArgNo());
        }
        if (auto *bb = dyn_cast<BasicBlock>(v)) {
                return json::Array{"bb", 0};
        }
        if (auto *c = dyn_cast<Constant>(v)) {
                return constval(c, 0);
        }
        if (isa<MetadataAsValue>(v)) {
                return json::Array{"md"};
        }
        if (isa<InlineAsm>(v)) {
                return json::Array{"asm"};
        }
        return json::Array{"?"};
}

static json::Value
constval(const Constant *c, int depth)
{
        if (auto *g = dyn_cast<GlobalValue>(c)) {
                return "@" + g->getName().str();
        }
        if (auto *ci = dyn_cast<ConstantInt>(c)) {
                if (ci->getBitWidth() <= 64) {
                        return json::Array{"c", ci->getSExtValue(),
                                           (int64_t)ci->getBitWidth()};
                }
                SmallString<40> s;
                ci->getValue().toString(s, 10, true);
                return json::Array{"c", std::string(s),
                                   (int64_t)ci->getBitWidth()};
        }
        if (isa<ConstantPointerNull>(c)) {
                return json::Array{"null"};
        }
        if (isa<UndefValue>(c)) {
                return json::Array{"undef"};
        }
        if (isa<ConstantAggregateZero>(c)) {
                return json::Array{"zero", tystr(c->getType()),
                                   (int64_t)DL->getTypeAllocSize(c->getType())};
        }
        if (auto *f = dyn_cast<ConstantFP>(c)) {
                SmallString<40> s;
                f->getValueAPF().bitcastToAPInt().toString(s, 16, false);
                return json::Array{"fp", std::string(s), tystr(c->getType())};
        }
        if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
                if (d->isString() || d->isCString()) {
                        return json::Array{"str",
                                           json::fixUTF8(d->getAsString())};
                }
                json::Array a;
                for (unsigned i = 0; i < d->getNumElements(); i++) {
                        a.push_back(constval(d->getElementAsConstant(i),
                                             depth + 1));
                }
                return json::Array{"agg", std::move(a), tystr(c->getType())};
        }
        if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
                json::Array a;
                for (unsigned i = 0; i < ca->getNumOperands(); i++) {
                        a.push_back(constval(ca->getOperand(i), depth + 1));
                }
                json::Array r{"agg", std::move(a), tystr(c->getType())};
                if (auto *st = dyn_cast<StructType>(c->getType())) {
                        json::Array offs;
                        for (unsigned i = 0; i < st->getNumElements(); i++) {
                                offs.push_back((int64_t)DL->getStructLayout(st)
                                                       ->getElementOffset(i));
                        }
                        r.push_back(std::move(offs));
                }
                return r;
        }
        if (auto *g = dyn_cast<GEPOperator>(c)) {
                json::Array steps;
                gepsteps(g, steps, enc);
                return json::Array{"gep", enc(g->getPointerOperand()),
                                   std::move(steps)};
        }
        if (auto *ce = dyn_cast<ConstantExpr>(c)) {
                json::Array a;
                for (unsigned i = 0; i < ce->getNumOperands(); i++) {
                        a.push_back(enc(ce->getOperand(i)));
                }
                return json::Array{"ce", ce->getOpcodeName(), std::move(a)};
        }
        return json::Array{"?"};
}

static DenseMap<const DIType *, int> ditypes;
static std::vector<const DIType *> dilist;

static int
diid(const DIType *t)
{
        if (t == nullptr) {
                return -1;
        }
        auto it = ditypes.find(t);
        if (it != ditypes.end()) {
                return it->second;
        }
        int n = (int)dilist.size();
        ditypes[t] = n;
        dilist.push_back(t);
        return n;
}

static void
dump_ditypes(raw_ostream &os)
{
        for (size_t i = 0; i < dilist.size(); i++) {
                const DIType *t = dilist[i];
                json::Object o;
                o["k"] = "di";
                o["id"] = (int64_t)i;
                o["tag"] = dwarf::TagString(t->getTag()).str();
                o["name"] = t->getName().str();
                o["size"] = (int64_t)t->getSizeInBits();
                if (auto *d = dyn_cast<DIDerivedType>(t)) {
                        o["base"] = diid(d->getBaseType());
                        o["off"] = (int64_t)d->getOffsetInBits();
                        if (d->isBitField()) {
                                o["bitfield"] = true;
                        }
                } else if (auto *c = dyn_cast<DICompositeType>(t)) {
                        o["base"] = diid(c->getBaseType());
                        json::Array m;
                        for (auto *e : c->getElements()) {
                                if (auto *mt = dyn_cast<DIType>(e)) {
                                        m.push_back(diid(mt));
                                } else if (auto *en =
                                                   dyn_cast<DIEnumerator>(e)) {
                                        m.push_back(json::Array{
                                                en->getName().str(),
                                                en->getValue()
                                                        .getSExtValue()});
                                } else if (auto *sr =
                                                   dyn_cast<DISubrange>(e)) {
                                        if (auto *ci = dyn_cast_if_present<
                                                    ConstantInt *>(
                                                    sr->getCount())) {
                                                o["count"] =
                                                        ci->getSExtValue();
                                        }
                                }
                        }
                        o["members"] = std::move(m);
                } else if (auto *st = dyn_cast<DISubroutineType>(t)) {
                        json::Array m;
                        for (auto *e : st->getTypeArray()) {
                                m.push_back(diid(e));
                        }
                        o["members"] = std::move(m);
                }
                os << json::Value(std::move(o)) << "\n";
        }
}

static void
dump_function(Function &F, raw_ostream &os)
{
        json::Object fo;
        fo["k"] = "func";
        fo["name"] = F.getName().str();
        fo["internal"] = F.hasLocalLinkage();
        fo["ret"] = tystr(F.getReturnType());
        fo["vararg"] = F.isVarArg();
        json::Array args;
        for (auto &a : F.args()) {
                args.push_back(
                        json::Array{a.getName().str(), tystr(a.getType())});
        }
        fo["args"] = std::move(args);
        if (auto *sp = F.getSubprogram()) {
                fo["file"] = sp->getFilename().str();
                fo["line"] = (int64_t)sp->getLine();
                if (sp->getType()) {
                        fo["ditype"] = diid(sp->getType());
                }
        }
        if (F.isDeclaration()) {
                fo["decl"] = true;
                os << json::Value(std::move(fo)) << "\n";
                return;
        }
        ids.clear();
        DenseMap<const BasicBlock *, int> bbs;
        int n = 0, nb = 0;
        for (auto &B : F) {
                bbs[&B] = nb++;
                for (auto &I : B) {
                        if (isa<DbgInfoIntrinsic>(&I)) {
                                continue;
                        }
                        ids[&I] = n++;
                }
        }
        json::Array vars; // debug names of values
        json::Array blocks;
        for (auto &B : F) {
                json::Array ins;
                for (auto &I : B) {
                        if (auto *dv = dyn_cast<DbgValueInst>(&I)) {
                                if (auto *v = dv->getValue(0)) {
                                        auto it = ids.find(v);
                                        if (it != ids.end()) {
                                                vars.push_back(json::Array{
                                                        it->second,
                                                        dv->getVariable()
                                                                ->getName()
                                                                .str()});
                                        }
                                }
                                continue;
                        }
                        if (auto *dv = dyn_cast<DbgDeclareInst>(&I)) {
                                if (auto *v = dv->getAddress()) {
                                        auto it = ids.find(v);
                                        if (it != ids.end()) {
                                                vars.push_back(json::Array{
                                                        it->second,
                                                        dv->getVariable()
                                                                ->getName()
                                                                .str(),
                                                        diid(dv->getVariable()
                                                                     ->getType())});
                                        }
                                }
                                continue;
                        }
                        if (isa<DbgInfoIntrinsic>(&I)) {
                                continue;
                        }
                        json::Object o;
                        o["i"] = ids[&I];
                        o["op"] = I.getOpcodeName();
                        o["ty"] = tystr(I.getType());
                        json::Array ops;
                        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                                ops.push_back(enc(g->getPointerOperand()));
                                json::Array steps;
                                gepsteps(cast<GEPOperator>(g), steps, enc);
                                restore_names(g, steps);
                                o["steps"] = std::move(steps);
                                o["src"] = tystr(g->getSourceElementType());
                        } else if (auto *p = dyn_cast<PHINode>(&I)) {
                                json::Array in;
                                for (unsigned i = 0;
                                     i < p->getNumIncomingValues(); i++) {
                                        in.push_back(json::Array{
                                                bbs[p->getIncomingBlock(i)],
                                                enc(p->getIncomingValue(i))});
                                }
                                o["in"] = std::move(in);
                        } else if (auto *c = dyn_cast<CallBase>(&I)) {
                                for (auto &a : c->args()) {
                                        ops.push_back(enc(a.get()));
                                }
                                o["callee"] = enc(
                                        c->getCalledOperand()
                                                ->stripPointerCasts());
                                if (auto *ci = dyn_cast<CallInst>(&I)) {
                                        if (ci->isMustTailCall()) {
                                                o["musttail"] = true;
                                        }
                                }
                        } else if (auto *b = dyn_cast<BranchInst>(&I)) {
                                if (b->isConditional()) {
                                        ops.push_back(enc(b->getCondition()));
                                }
                                json::Array s;
                                // getSuccessor(0) is the "true" target
                                for (unsigned i = 0;
                                     i < b->getNumSuccessors(); i++) {
                                        s.push_back(bbs[b->getSuccessor(i)]);
                                }
                                o["succ"] = std::move(s);
                        } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
                                ops.push_back(enc(s->getCondition()));
                                json::Array cs;
                                for (auto &c : s->cases()) {
                                        cs.push_back(json::Array{
                                                c.getCaseValue()
                                                        ->getSExtValue(),
                                                bbs[c.getCaseSuccessor()]});
                                }
                                o["cases"] = std::move(cs);
                                o["default"] = bbs[s->getDefaultDest()];
                        } else {
                                for (auto &op : I.operands()) {
                                        ops.push_back(enc(op.get()));
                                }
                        }
                        if (auto *c = dyn_cast<CmpInst>(&I)) {
                                o["pred"] = CmpInst::getPredicateName(
                                                    c->getPredicate())
                                                    .str();
                        }
                        if (auto *ld = dyn_cast<LoadInst>(&I)) {
                                o["size"] = (int64_t)DL->getTypeStoreSize(
                                        ld->getType());
                                if (ld->isAtomic()) {
                                        o["atomic"] = (int64_t)ld->getOrdering();
                                }
                                if (ld->isVolatile()) {
                                        o["volatile"] = true;
                                }
                        }
                        if (auto *st = dyn_cast<StoreInst>(&I)) {
                                o["size"] = (int64_t)DL->getTypeStoreSize(
                                        st->getValueOperand()->getType());
                                if (st->isAtomic()) {
                                        o["atomic"] = (int64_t)st->getOrdering();
                                }
                        }
                        if (auto *a = dyn_cast<AllocaInst>(&I)) {
                                o["aty"] = tystr(a->getAllocatedType());
                                if (auto s = a->getAllocationSize(*DL)) {
                                        o["size"] = (int64_t)s->getFixedValue();
                                }
                        }
                        if (auto *rmw = dyn_cast<AtomicRMWInst>(&I)) {
                                o["rmw"] = AtomicRMWInst::getOperationName(
                                                   rmw->getOperation())
                                                   .str();
                                o["atomic"] = (int64_t)rmw->getOrdering();
                                o["size"] = (int64_t)DL->getTypeStoreSize(
                                        rmw->getValOperand()->getType());
                        }
                        if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                                o["atomic"] =
                                        (int64_t)cx->getSuccessOrdering();
                                o["size"] = (int64_t)DL->getTypeStoreSize(
                                        cx->getNewValOperand()->getType());
                        }
                        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
                                json::Array ix;
                                for (auto x : ev->indices()) {
                                        ix.push_back((int64_t)x);
                                }
                                o["idx"] = std::move(ix);
                        }
                        if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
                                json::Array ix;
                                for (auto x : iv->indices()) {
                                        ix.push_back((int64_t)x);
                                }
                                o["idx"] = std::move(ix);
                        }
                        if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
                                json::Array ix;
                                for (auto x : sv->getShuffleMask()) {
                                        ix.push_back((int64_t)x);
                                }
                                o["mask"] = std::move(ix);
                        }
                        if (!ops.empty()) {
                                o["ops"] = std::move(ops);
                        }
                        if (const DebugLoc &dl = I.getDebugLoc()) {
                                o["l"] = (int64_t)dl.getLine();
                                if (auto *sc = dyn_cast_or_null<DIScope>(
                                            dl.getScope())) {
                                        if (auto *sp = cast<DILocalScope>(sc)
                                                               ->getSubprogram()) {
                                                if (sp != F.getSubprogram()) {
                                                        o["fn"] =
                                                                sp->getName()
                                                                        .str();
                                                }
                                                std::string fn =
                                                        sc->getFilename()
                                                                .str();
                                                if (!F.getSubprogram() ||
                                                    fn != F.getSubprogram()
                                                                    ->getFilename()) {
                                                        o["file"] = fn;
                                                }
                                        }
                                }
                        }
                        ins.push_back(std::move(o));
                }
                blocks.push_back(std::move(ins));
        }
        fo["blocks"] = std::move(blocks);
        fo["vars"] = std::move(vars);
        fo["n"] = n;
        os << json::Value(std::move(fo)) << "\n";
}

int
main(int argc, char **argv)
{
        std::string out, pipeline, known, inl, noinl, only, roots, top, list;
        std::vector<std::string> files;
        std::set<std::string> drop;
        for (int i = 1; i < argc; i++) {
                std::string a = argv[i];
                if (a == "-o") {
                        out = argv[++i];
                } else if (a == "-pipeline") {
                        pipeline = argv[++i];
                } else if (a == "-inline-unknown") {
                        known = argv[++i];
                } else if (a == "-inline") {
                        inl = argv[++i];
                } else if (a == "-noinline") {
                        noinl = argv[++i];
                } else if (a == "-unroll") {
                        // so that the lane loops are always unrolled
                        std::string t = "-unroll-threshold=";
                        t += argv[++i];
                        std::string t2 = "-unroll-max-iteration-count-to-"
                                         "analyze=";
                        t2 += argv[i];
                        const char *av[] = {"irx", t.c_str(), t2.c_str()};
                        cl::ParseCommandLineOptions(3, av);
                } else if (a == "-only") {
                        only = argv[++i];
                } else if (a == "-top") {
                        top = argv[++i];
                } else if (a == "-list") {
                        list = argv[++i];
                } else if (a == "-drop-struct") {
                        drop.insert(argv[++i]);
                } else if (a == "-roots") {
                        roots = argv[++i];
                } else {
                        files.push_back(a);
                }
        }
        LLVMContext ctx;
        SMDiagnostic err;
        std::unique_ptr<Module> M;
        for (auto &f : files) {
                auto m = parseIRFile(f, err, ctx);
                if (!m) {
                        err.print("irx", errs());
                        return 2;
                }
                save_names(*m);
                if (!M) {
                        M = std::move(m);
                } else if (Linker::linkModules(*M, std::move(m))) {
                        errs() << "irx: link failed for " << f << "\n";
                        return 2;
                }
        }
        DL = &M->getDataLayout();
        std::set<std::string> kn, in, ni, on;
        if (!known.empty()) {
                undo_renames(*M, known, top);
                std::set<std::string> lines;
                set_from_file(known, lines);
                for (auto &l : lines) {
                        size_t a = l.find('\t');
                        kn.insert(a == l.npos
                                          ? l
                                          : l.substr(a + 1,
                                                     l.find('\t', a + 1) -
                                                             a - 1));
                }
        }
        if (!list.empty()) {
                // the functions as undo_renames wants them
                std::error_code ec;
                raw_fd_ostream os(list, ec);
                for (auto &F : *M) {
                        if (!F.isDeclaration()) {
                                os << filekey(F, top) << "\t"
                                   << basename_of(F) << "\t"
                                   << tystr(F.getFunctionType()) << "\n";
                        }
                }
        }
        if (!drop.empty()) {
                // what is stored into members of these structures is of no
                // interest
                std::vector<Instruction *> dead;
                for (auto &F : *M) {
                        for (auto &B : F) {
                                for (auto &I : B) {
                                        auto *st = dyn_cast<StoreInst>(&I);
                                        if (!st) {
                                                continue;
                                        }
                                        auto *g = dyn_cast<GEPOperator>(
                                                st->getPointerOperand());
                                        if (!g) {
                                                continue;
                                        }
                                        auto *t = dyn_cast<StructType>(
                                                g->getSourceElementType());
                                        if (!t || !t->hasName()) {
                                                continue;
                                        }
                                        std::string n = t->getName().str();
                                        n = n.substr(n.find('.') + 1);
                                        n = n.substr(0, n.find('.'));
                                        if (drop.count(n)) {
                                                dead.push_back(&I);
                                        }
                                }
                        }
                }
                for (auto *I : dead) {
                        I->eraseFromParent();
                }
        }
        if (!inl.empty()) {
                set_from_file(inl, in);
        }
        if (!noinl.empty()) {
                set_from_file(noinl, ni);
        }
        if (!only.empty()) {
                set_from_file(only, on);
        }
        bool all = in.count("*") != 0;
        std::set<const Function *> rec;
        {
                CallGraph cg(*M);
                for (auto it = scc_begin(&cg); !it.isAtEnd(); ++it) {
                        if (it.hasCycle()) {
                                for (auto *n : *it) {
                                        if (n->getFunction()) {
                                                rec.insert(n->getFunction());
                                        }
                                }
                        }
                }
        }
        for (auto &F : *M) {
                if (F.isDeclaration()) {
                        continue;
                }
                F.removeFnAttr(Attribute::OptimizeNone);
                F.removeFnAttr(Attribute::NoInline);
                F.removeFnAttr(Attribute::AlwaysInline);
                std::string n = F.getName().str();
                // linking renames a clashing static function to name.N
                std::string base = n.substr(0, n.find('.'));
                bool want = all || in.count(n) || in.count(base) ||
                            (!kn.empty() && !kn.count(base));
                if (ni.count(n) || ni.count(base) || rec.count(&F)) {
                        want = false;
                }
                if (want) {
                        F.addFnAttr(Attribute::AlwaysInline);
                } else {
                        F.addFnAttr(Attribute::NoInline);
                }
        }
        if (!roots.empty()) {
                // keep what is inlined into the given functions, or into
                // those an initialiser of the given tables names
                std::set<std::string> rs;
                set_from_file(roots, rs);
                std::set<Function *> keep;
                std::vector<Function *> work;
                auto add = [&](Function *F) {
                        if (!F->isDeclaration() && keep.insert(F).second) {
                                work.push_back(F);
                        }
                };
                std::function<void(Value *)> walk = [&](Value *v) {
                        if (auto *F = dyn_cast<Function>(v)) {
                                add(F);
                        } else if (auto *C = dyn_cast<Constant>(v)) {
                                if (isa<GlobalVariable>(C)) {
                                        return;
                                }
                                for (auto &o : C->operands()) {
                                        walk(o);
                                }
                        }
                };
                for (auto &r : rs) {
                        if (r[0] == '@') {
                                auto *G = M->getGlobalVariable(r.substr(1),
                                                               true);
                                if (G && G->hasInitializer()) {
                                        for (auto &o : G->getInitializer()
                                                               ->operands()) {
                                                walk(o);
                                        }
                                }
                                continue;
                        }
                        bool pre = r.back() == '*';
                        std::string q = pre ? r.substr(0, r.size() - 1) : r;
                        for (auto &F : *M) {
                                std::string n = F.getName().str();
                                if (pre ? n.compare(0, q.size(), q) == 0
                                        : n.substr(0, n.find('.')) == q) {
                                        add(&F);
                                }
                        }
                }
                while (!work.empty()) {
                        Function *F = work.back();
                        work.pop_back();
                        for (auto &B : *F) {
                                for (auto &I : B) {
                                        auto *cb = dyn_cast<CallBase>(&I);
                                        if (!cb) {
                                                continue;
                                        }
                                        auto *c = cb->getCalledFunction();
                                        if (c &&
                                            c->hasFnAttribute(
                                                    Attribute::AlwaysInline)) {
                                                add(c);
                                        }
                                }
                        }
                }
                for (auto &F : *M) {
                        if (!F.isDeclaration() && !keep.count(&F)) {
                                F.removeFnAttr(Attribute::AlwaysInline);
                                F.deleteBody();
                        }
                }
        }
        if (!pipeline.empty()) {
                LoopAnalysisManager LAM;
                FunctionAnalysisManager FAM;
                CGSCCAnalysisManager CGAM;
                ModuleAnalysisManager MAM;
                PassBuilder PB;
                PB.registerModuleAnalyses(MAM);
                PB.registerCGSCCAnalyses(CGAM);
                PB.registerFunctionAnalyses(FAM);
                PB.registerLoopAnalyses(LAM);
                PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
                PB.registerPipelineParsingCallback(
                        [](StringRef name, FunctionPassManager &FPM,
                           ArrayRef<PassBuilder::PipelineElement>) {
                                if (name == "one-latch") {
                                        FPM.addPass(OneLatch());
                                        return true;
                                }
                                if (name == "fix-entries") {
                                        FPM.addPass(FixEntries());
                                        return true;
                                }
                                return false;
                        });
                ModulePassManager MPM;
                if (auto e = PB.parsePassPipeline(MPM, pipeline)) {
                        errs() << "irx: bad pipeline: "
                               << toString(std::move(e)) << "\n";
                        return 2;
                }
                MPM.run(*M, MAM);
        }
        std::error_code ec;
        raw_fd_ostream os(out, ec);
        if (ec) {
                errs() << "irx: cannot write " << out << "\n";
                return 2;
        }
        for (auto &G : M->globals()) {
                json::Object o;
                o["k"] = "global";
                o["name"] = G.getName().str();
                o["const"] = G.isConstant();
                o["ty"] = tystr(G.getValueType());
                o["size"] = (int64_t)DL->getTypeAllocSize(G.getValueType());
                SmallVector<DIGlobalVariableExpression *, 1> gvs;
                G.getDebugInfo(gvs);
                for (auto *gv : gvs) {
                        o["line"] = (int64_t)gv->getVariable()->getLine();
                        o["file"] = gv->getVariable()->getFilename().str();
                        o["di"] = diid(gv->getVariable()->getType());
                }
                if (G.hasInitializer()) {
                        o["init"] = constval(G.getInitializer(), 0);
                }
                os << json::Value(std::move(o)) << "\n";
        }
        for (auto *st : M->getIdentifiedStructTypes()) {
                if (!st->hasName() || st->isOpaque()) {
                        continue;
                }
                json::Object o;
                o["k"] = "struct";
                o["name"] = "%" + st->getName().str();
                o["size"] = (int64_t)DL->getTypeAllocSize(st);
                os << json::Value(std::move(o)) << "\n";
        }
        DebugInfoFinder dif;
        dif.processModule(*M);
        for (auto *t : dif.types()) {
                diid(t);
        }
        for (auto &F : *M) {
                if (!on.empty() && !F.isDeclaration()) {
                        std::string n = F.getName().str();
                        std::string base = n.substr(0, n.find('.'));
                        if (!on.count(n) && !on.count(base)) {
                                continue;
                        }
                }
                dump_function(F, os);
        }
        dump_ditypes(os);
        return 0;
}
