// ll2c: mechanical LLVM-IR -> C translation for CBMC.
//
//   ll2c in.ll out.c meta.json
//
// Every function reachable from an exported harness (name starting "vf_h_") is
// emitted as C, instruction by instruction.  Undefined behaviour that LLVM IR
// expresses through flags (nsw/nuw, over-wide shifts, division by zero,
// `unreachable`) becomes an explicit __CPROVER_assert; raw memory accesses are
// left to cbmc --pointer-check.  Anything the translation does not know stops
// it with an error: nothing is silently dropped.
#include <llvm/ADT/SmallPtrSet.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <cstdio>
#include <cstdlib>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace llvm;
using std::string;

static std::unique_ptr<Module> M;
static const DataLayout *DL;

[[noreturn]] static void die(const string &m, const Value *v = nullptr) {
    errs() << "ll2c: " << m;
    if (v) {
        errs() << ": ";
        v->print(errs());
        if (auto *i = dyn_cast<Instruction>(v))
            errs() << "\n  in " << demangle(i->getFunction()->getName().str());
    }
    errs() << "\n";
    exit(3);
}

static string cstr(const string &s) {
    string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += ' ';
        else r += c;
    }
    return r;
}

// ---------------------------------------------------------------- types
static std::map<Type *, string> structNames;
static std::ostringstream typeDefs;
static int structCount = 0;

static string ity(unsigned w) {
    switch (w) {
    case 1: return "_Bool";
    case 8: return "uint8_t";
    case 16: return "uint16_t";
    case 32: return "uint32_t";
    case 64: return "uint64_t";
    case 128: return "u128_t";
    default: return "u" + std::to_string(w) + "_t";
    }
}
static std::set<unsigned> oddWidths;
static string ty(Type *t);

static string sity(unsigned w) {
    switch (w) {
    case 8: return "int8_t";
    case 16: return "int16_t";
    case 32: return "int32_t";
    case 64: return "int64_t";
    case 128: return "s128_t";
    case 1: die("signed i1");
    default: return "s" + std::to_string(w) + "_t";
    }
}

static string ty(Type *t) {
    if (t->isVoidTy()) return "void";
    if (auto *it = dyn_cast<IntegerType>(t)) {
        unsigned w = it->getBitWidth();
        if (w != 1 && w != 8 && w != 16 && w != 32 && w != 64 && w != 128)
            oddWidths.insert(w);
        return ity(w);
    }
    if (t->isPointerTy()) return "ptr_t";
    if (t->isFloatTy()) return "float";
    if (t->isDoubleTy()) return "double";
    auto f = structNames.find(t);
    if (f != structNames.end()) return f->second;
    string name;
    if (auto *st = dyn_cast<StructType>(t)) {
        std::vector<string> fs;
        for (auto *e : st->elements()) fs.push_back(ty(e));
        name = "struct S" + std::to_string(structCount++);
        structNames[t] = name;
        typeDefs << name << " { ";
        bool any = false;
        for (size_t i = 0; i < fs.size(); ++i) {
            if (DL->getTypeAllocSize(st->getElementType(i)) == 0) continue;
            // i1 never lives in memory structs in clang output, except returns
            typeDefs << fs[i] << " f" << i << "; ";
            any = true;
        }
        if (!any) typeDefs << "uint8_t pad; ";
        typeDefs << "}";
        if (st->isPacked()) typeDefs << " __attribute__((packed))";
        typeDefs << ";";
        if (st->hasName()) typeDefs << " // " << cstr(st->getName().str());
        typeDefs << "\n";
        if (any)
            typeDefs << "_Static_assert(sizeof(" << name << ")=="
                     << DL->getTypeAllocSize(t).getFixedValue() << ",\"\");\n";
        return name;
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        string e = ty(at->getElementType());
        name = "struct A" + std::to_string(structCount++);
        structNames[t] = name;
        uint64_t n = at->getNumElements();
        typeDefs << name << " { " << e << " a[" << (n ? n : 1) << "]; };\n";
        return name;
    }
    string s;
    raw_string_ostream os(s);
    t->print(os);
    die("unsupported type " + s);
}

// memory image type of T (i1 stored as a byte, odd widths as bytes)
static bool oddInt(Type *t) {
    auto *it = dyn_cast<IntegerType>(t);
    if (!it) return false;
    unsigned w = it->getBitWidth();
    return w != 1 && w != 8 && w != 16 && w != 32 && w != 64 && w != 128;
}

// ---------------------------------------------------------------- globals
static std::map<const GlobalValue *, string> gnames;
static std::deque<const Function *> fwork;
static std::set<const Function *> fseen;
static std::vector<const GlobalVariable *> gvars;
static std::set<const GlobalVariable *> gseen;
static std::map<const Function *, const Function *> replaced;

static string mangle(const string &s) {
    string r;
    for (char c : s) {
        if (isalnum((unsigned char)c) || c == '_') r += c;
        else {
            char b[8];
            snprintf(b, sizeof b, "_%02x", (unsigned char)c);
            r += b;
        }
    }
    return r;
}

static string gname(const GlobalValue *g) {
    auto f = gnames.find(g);
    if (f != gnames.end()) return f->second;
    string n = g->hasName() ? mangle(g->getName().str())
                            : "anon" + std::to_string(gnames.size());
    if (!isa<Function>(g)) n = "g_" + n;
    return gnames[g] = n;
}

static const Function *resolveFn(const Function *f) {
    auto r = replaced.find(f);
    return r == replaced.end() ? f : r->second;
}
static const Function *aliasee(const Value *v) {
    if (auto *ga = dyn_cast<GlobalAlias>(v))
        return dyn_cast<Function>(ga->getAliaseeObject());
    return nullptr;
}
static void needFn(const Function *f) {
    if (fseen.insert(f).second) fwork.push_back(f);
}
static void needGlobal(const GlobalVariable *g) {
    if (gseen.insert(g).second) gvars.push_back(g);
}

static bool isCString(const Constant *c, string &out) {
    const Constant *k = c;
    uint64_t off = 0;
    if (auto *ce = dyn_cast<ConstantExpr>(k)) {
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            APInt o(64, 0);
            if (!gep->accumulateConstantOffset(*DL, o)) return false;
            off = o.getZExtValue();
            k = dyn_cast<Constant>(gep->getPointerOperand());
        }
    }
    auto *gv = dyn_cast_or_null<GlobalVariable>(k);
    if (!gv || !gv->hasInitializer()) return false;
    auto *cda = dyn_cast<ConstantDataArray>(gv->getInitializer());
    if (!cda || !cda->isString()) {
        if (isa<ConstantAggregateZero>(gv->getInitializer())) { out = ""; return true; }
        return false;
    }
    out = cda->getAsString().substr(off).str();
    auto z = out.find('\0');
    if (z != string::npos) out.resize(z);
    return true;
}

static string constExpr(const Constant *c, bool init = false);

static string intConst(const APInt &v) {
    unsigned w = v.getBitWidth();
    if (w == 1) return v.isZero() ? "0" : "1";
    if (w <= 32 || w == 64 || w < 64) {
        string s = std::to_string(v.getZExtValue());
        return "((" + ity(w) + ")" + s + (w > 32 ? "ULL" : "U") + ")";
    }
    if (w == 128) {
        return "((((u128_t)" + std::to_string(v.extractBits(64, 64).getZExtValue()) +
               "ULL)<<64)|" + std::to_string(v.extractBits(64, 0).getZExtValue()) + "ULL)";
    }
    die("wide constant");
}

static string fpConst(const APFloat &f, bool isDouble) {
    // bit-exact through hex-float text; inf/nan by builtin
    if (f.isInfinity())
        return string(f.isNegative() ? "(-" : "(") +
               (isDouble ? "__builtin_inf())" : "__builtin_inff())");
    if (f.isNaN()) return isDouble ? "__builtin_nan(\"\")" : "__builtin_nanf(\"\")";
    APFloat d = f;
    bool li;
    d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    char b[64];
    snprintf(b, sizeof b, "%a", d.convertToDouble());
    return string(isDouble ? "(" : "((float)") + b + ")";
}

static string gepExpr(const GEPOperator *g, std::function<string(const Value *)> val,
                      std::ostringstream *pre = nullptr);

static string constExpr(const Constant *c, bool init) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        ty(c->getType());
        return intConst(ci->getValue());
    }
    if (isa<ConstantPointerNull>(c)) return "((ptr_t)0)";
    if (auto *cf = dyn_cast<ConstantFP>(c))
        return fpConst(cf->getValueAPF(), c->getType()->isDoubleTy());
    if (auto *f = dyn_cast<Function>(c)) {
        f = const_cast<Function *>(resolveFn(f));
        needFn(f);
        return "((ptr_t)&" + gname(f) + ")";
    }
    if (auto *a = aliasee(c)) {
        needFn(resolveFn(a));
        return "((ptr_t)&" + gname(resolveFn(a)) + ")";
    }
    if (auto *g = dyn_cast<GlobalVariable>(c)) {
        needGlobal(g);
        return "((ptr_t)&" + gname(g) + ")";
    }
    if (isa<UndefValue>(c)) { // includes poison
        Type *t = c->getType();
        if (init) {
            if (t->isStructTy() || t->isArrayTy()) return "{0}";
            return "0";
        }
        if (t->isIntegerTy() && !oddInt(t)) return "nondet_" + ity(t->getIntegerBitWidth()) + "()";
        if (t->isPointerTy()) return "nondet_ptr()";
        if (t->isFloatTy()) return "nondet_float()";
        if (t->isDoubleTy()) return "nondet_double()";
        return "((" + ty(t) + "){0})";
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (auto *gep = dyn_cast<GEPOperator>(ce))
            return gepExpr(gep, [](const Value *v) { return constExpr(cast<Constant>(v)); });
        auto o0 = [&] { return constExpr(ce->getOperand(0)); };
        switch (ce->getOpcode()) {
        case Instruction::PtrToInt: return "((" + ty(c->getType()) + ")(uint64_t)" + o0() + ")";
        case Instruction::IntToPtr: return "((ptr_t)(uint64_t)" + o0() + ")";
        case Instruction::BitCast:
        case Instruction::AddrSpaceCast: return o0();
        case Instruction::Sub:
            return "((" + ty(c->getType()) + ")(" + o0() + "-" + constExpr(ce->getOperand(1)) + "))";
        case Instruction::Add:
            return "((" + ty(c->getType()) + ")(" + o0() + "+" + constExpr(ce->getOperand(1)) + "))";
        case Instruction::Trunc: return "((" + ty(c->getType()) + ")" + o0() + ")";
        default: die("constant expression", c);
        }
    }
    Type *t = c->getType();
    string pre = init ? "" : "((" + ty(t) + ")", post = init ? "" : ")";
    if (isa<ConstantAggregateZero>(c)) { ty(t); return pre + "{0}" + post; }
    if (auto *cda = dyn_cast<ConstantDataArray>(c)) {
        ty(t);
        string s = "{{";
        for (unsigned i = 0; i < cda->getNumElements(); ++i)
            s += (i ? "," : "") + constExpr(cda->getElementAsConstant(i), true);
        return pre + s + "}}" + post;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        ty(t);
        string s = "{{";
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            s += (i ? "," : "") + constExpr(ca->getOperand(i), true);
        return pre + s + "}}" + post;
    }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        ty(t);
        string s = "{";
        bool any = false;
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) {
            if (DL->getTypeAllocSize(cs->getOperand(i)->getType()) == 0) continue;
            s += (any ? "," : "") + string(".f") + std::to_string(i) + "=" +
                 constExpr(cs->getOperand(i), true);
            any = true;
        }
        if (!any) s += "0";
        return pre + s + "}" + post;
    }
    die("constant", c);
}

static std::ostringstream *curDecl;

// With `pre`, the variable part of the offset goes through a variable of its
// own: cbmc 6.11 mishandles byte accesses at offsets of the form size*i + c.
static string gepExpr(const GEPOperator *g, std::function<string(const Value *)> val,
                      std::ostringstream *pre) {
    string base = val(g->getPointerOperand());
    int64_t k = 0;
    std::vector<std::pair<string, uint64_t>> terms;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        const Value *idx = it.getOperand();
        if (auto *st = it.getStructTypeOrNull()) {
            k += DL->getStructLayout(st)->getElementOffset(
                cast<ConstantInt>(idx)->getZExtValue());
        } else {
            uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(idx)) k += ci->getSExtValue() * (int64_t)sz;
            else {
                unsigned w = idx->getType()->getIntegerBitWidth();
                terms.push_back({"((int64_t)(" + sity(w) + ")" + val(idx) + ")", sz});
            }
        }
    }
    if (k == 0 && terms.empty()) return base;
    string s = "((ptr_t)((char*)" + base;
    string var;
    for (auto &[e, sz] : terms)
        var += "+(" + e + (sz == 1 ? "" : "*" + std::to_string(sz) + "LL") + ")";
    if (pre && !terms.empty()) {
        static int n = 0;
        string o = "o_" + std::to_string(n++);
        // declared at the top of the function: a declaration between labels
        // makes goto-cc split every jump across it
        *curDecl << "  int64_t " << o << ";\n";
        *pre << "  " << o << "=0" << var << ";\n";
        s += "+" + o;
    } else
        s += var;
    if (k != 0) s += "+(" + std::to_string(k) + "LL)";
    return s + "))";
}

// ---------------------------------------------------------------- functions
static std::ostringstream protos, bodies;
static std::set<string> externs;
static std::ostringstream meta;
static std::map<string, int> fnOf;

static string proto(const Function *f, bool named) {
    std::ostringstream s;
    s << ty(f->getReturnType()) << " " << gname(f) << "(";
    int i = 0;
    for (auto &a : f->args()) {
        s << (i ? "," : "") << ty(a.getType());
        if (named) s << " a" << i;
        ++i;
    }
    if (i == 0) s << "void";
    s << ")";
    return s.str();
}

static bool cutLoops = false;

struct FnEmit {
    const Function &F;
    std::map<const Value *, string> names;
    std::map<const BasicBlock *, int> bb;
    std::ostringstream decl, out;
    int n = 0;
    string where;

    explicit FnEmit(const Function &f) : F(f) {
        where = demangle(F.getName().str());
        if (where.size() > 160) where = where.substr(0, 160) + "...";
        where = cstr(where);
    }

    string val(const Value *v) {
        if (auto *c = dyn_cast<Constant>(v)) return constExpr(c);
        auto f = names.find(v);
        if (f == names.end()) die("unnamed value", v);
        return f->second;
    }
    void ub(const string &cond, const string &what) {
        out << "  __CPROVER_assert(" << cond << ",\"ub:" << what << " in " << where << "\");\n";
    }
    string def(const Instruction &I) {
        string t = ty(I.getType());
        auto f = names.find(&I);
        if (f != names.end()) return f->second;
        die("undeclared", &I);
    }
    // promote operand so that C arithmetic happens in >= 32 bits, unsigned
    string up(const string &e, unsigned w) {
        if (w < 32) return "((uint32_t)" + e + ")";
        return e;
    }
    string sx(const string &e, unsigned w) { return "((" + sity(w) + ")" + e + ")"; }

    void edge(const BasicBlock *from, const BasicBlock *to) {
        // parallel copies for phis
        std::vector<std::pair<string, string>> cp;
        std::vector<string> tys;
        for (auto &phi : to->phis()) {
            cp.push_back({names[&phi], val(phi.getIncomingValueForBlock(from))});
            tys.push_back(ty(phi.getType()));
        }
        if (cp.size() == 1) {
            out << "  " << cp[0].first << "=" << cp[0].second << ";";
        } else if (!cp.empty()) {
            out << "  {";
            for (size_t i = 0; i < cp.size(); ++i)
                out << tys[i] << " t" << i << "=" << cp[i].second << ";";
            for (size_t i = 0; i < cp.size(); ++i) out << cp[i].first << "=t" << i << ";";
            out << "}";
        }
        auto c = cuts.find(to);
        if (c == cuts.end()) out << " goto b" << bb[to] << ";\n";
        else out << " goto b" << bb[to] << (c->second.L->contains(from) ? "_back" : "_in") << ";\n";
    }

    // A loop is cut at its header: shown on entry, the invariants are assumed
    // for an arbitrary iteration and shown again when it goes round.
    // Everything it changes must be in the header's phis.
    struct Cut { const Loop *L; int id; string in, back; };
    std::map<const BasicBlock *, Cut> cuts;
    static int ncuts, ncands;
    static std::ostringstream cutMeta;
    DominatorTree DT;
    LoopInfo LI;

    string writes(const Loop *L) {
        for (auto *b : L->blocks())
            for (auto &I : *b) {
                if (auto *c = dyn_cast<CallInst>(&I)) {
                    auto *f = c->getCalledFunction();
                    if (!f) return "an indirect call";
                    if (f->isIntrinsic() && !c->mayWriteToMemory()) continue;
                    StringRef nm = f->getName();
                    if (nm.starts_with("vf_") || nm.starts_with("__CPROVER") || nm.starts_with("llvm.lifetime") ||
                        nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental"))
                        continue;
                    return "a call of " + demangle(nm.str());
                }
                if (I.mayWriteToMemory()) return "a write to memory";
            }
        return "";
    }
    // v as a constant step away from something
    const Value *peel(const Value *v, int64_t &d) {
        for (;;) {
            auto *b = dyn_cast<BinaryOperator>(v);
            if (!b) return v;
            auto *c = dyn_cast<ConstantInt>(b->getOperand(1));
            if (!c) return v;
            if (b->getOpcode() == Instruction::Add) d += c->getSExtValue();
            else if (b->getOpcode() == Instruction::Sub) d -= c->getSExtValue();
            else return v;
            v = b->getOperand(0);
        }
    }
    bool step(const PHINode *p, const Loop *L, int64_t &d) {
        bool any = false;
        for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) {
            if (!L->contains(p->getIncomingBlock(i))) continue;
            int64_t k = 0;
            if (peel(p->getIncomingValue(i), k) != p || (any && k != d)) return false;
            any = true;
            d = k;
        }
        return any;
    }
    // the header's phi that v is made from
    const PHINode *root(const Value *v, const BasicBlock *H) {
        for (;;) {
            int64_t d = 0;
            v = peel(v, d);
            if (isa<ZExtInst>(v) || isa<SExtInst>(v) || isa<TruncInst>(v)) {
                v = cast<Instruction>(v)->getOperand(0);
                continue;
            }
            auto *p = dyn_cast<PHINode>(v);
            return p && p->getParent() == H ? p : nullptr;
        }
    }
    // v as an integer, if the loop does not change it
    std::vector<string> outside(const Value *v, const Loop *L) {
        unsigned w = 64;
        while (isa<ZExtInst>(v) || isa<SExtInst>(v) || isa<TruncInst>(v)) {
            auto *i = cast<Instruction>(v);
            if (!L->contains(i)) break;
            if (isa<TruncInst>(v)) w = std::min(w, i->getType()->getIntegerBitWidth());
            v = i->getOperand(0);
        }
        Type *t = v->getType();
        if (!t->isIntegerTy() || t->getIntegerBitWidth() > 64 || t->getIntegerBitWidth() < 8) return {};
        if (auto *i = dyn_cast<Instruction>(v))
            if (L->contains(i)) return {};
        w = std::min(w, t->getIntegerBitWidth());
        string s = "((int64_t)(" + sity(w) + ")" + val(v) + ")";
        if (w == 64) return {s};
        return {s, "((int64_t)(u" + sity(w) + ")" + val(v) + ")"};
    }
    void prepareCuts() {
        DT.recalculate(const_cast<Function &>(F));
        LI.analyze(DT);
        for (const Loop *L : LI.getLoopsInPreorder()) {
            const BasicBlock *H = L->getHeader();
            Cut c{L, ncuts++, "", ""};
            string w = writes(L);
            if (!w.empty()) {
                cutMeta << (c.id ? ",\n" : "") << "  {\"loop\": " << c.id << ", \"fn\": \"" << F.getName().str()
                        << "\", \"uncut\": \"" << cstr(w) << "\"}";
                continue;
            }
            int first = ncands;
            string b = "b" + std::to_string(bb[H]);
            struct X { string now, was, old; const PHINode *phi = nullptr; bool known = false; int64_t delta = 0; };
            std::vector<X> xs, bs;
            std::ostringstream in, back, havoc, save, mand;
            string pre = "q" + std::to_string(c.id) + "_";
            int k = 0;
            for (auto &phi : H->phis()) {
                Type *t = phi.getType();
                string v = names[&phi], n = pre + std::to_string(k++);
                if (t->isIntegerTy(1)) {
                    decl << "  _Bool " << n << ";\n";
                    save << "  " << n << "=" << v << ";\n";
                    havoc << "  " << v << "=(_Bool)(vf_havoc()&1);\n";
                    bs.push_back({v, n, ""});
                } else if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) {
                    unsigned w = t->getIntegerBitWidth();
                    decl << "  int64_t " << n << "," << n << "o;\n";
                    string now = "((int64_t)(" + sity(w) + ")" + v + ")", un = "((int64_t)" + v + ")";
                    save << "  " << n << "=" << now << ";\n";
                    havoc << "  " << v << "=(" << ty(t) << ")vf_havoc();" << n << "o=" << now << ";\n";
                    X x{now, n, n + "o", &phi};
                    x.known = step(&phi, L, x.delta);
                    xs.push_back(x);
                    if (w < 64) {
                        decl << "  int64_t " << n << "u," << n << "uo;\n";
                        save << "  " << n << "u=" << un << ";\n";
                        havoc << "  " << n << "uo=" << un << ";\n";
                        X u{un, n + "u", n + "uo", &phi, x.known, x.delta};
                        xs.push_back(u);
                    }
                } else if (t->isPointerTy()) {
                    decl << "  ptr_t " << n << "p; int64_t " << n << "o," << n << ";\n";
                    save << "  " << n << "p=" << v << ";" << n << "=0;\n";
                    havoc << "  " << n << "o=(int64_t)vf_havoc();" << v << "=(ptr_t)((char*)" << n << "p+" << n << "o);\n";
                    mand << "  __CPROVER_assert(__CPROVER_same_object(" << v << "," << n
                         << "p),\"loop: pointer stays in its object\");\n";
                    xs.push_back({"((int64_t)((char*)" + v + "-(char*)" + n + "p))", n, n + "o", &phi});
                } else {
                    havoc << "  {" << ty(t) << " t; " << v << "=t;}\n";
                }
            }
            // values the loop reads and does not change
            std::vector<string> vs;
            std::set<string> seen;
            for (auto *bl : L->blocks())
                for (auto &I : *bl) {
                    bool cmp = isa<ICmpInst>(I);
                    for (auto &o : I.operands()) {
                        Type *t = o->getType();
                        if (!t->isIntegerTy() || t->getIntegerBitWidth() > 64 || t->getIntegerBitWidth() < 8) continue;
                        bool ok = false;
                        if (auto *ci = dyn_cast<ConstantInt>(o)) ok = cmp && !ci->isZero();
                        else if (auto *oi = dyn_cast<Instruction>(o)) ok = !L->contains(oi);
                        else ok = isa<Argument>(o);
                        if (!ok) continue;
                        for (string e : {"((int64_t)(" + sity(t->getIntegerBitWidth()) + ")" + val(o) + ")",
                                         "((int64_t)" + val(o) + ")"}) {
                            if (t->getIntegerBitWidth() == 64 && e.compare(0, 11, "((int64_t)(") != 0) continue;
                            if (seen.insert(e).second && vs.size() < 16) vs.push_back(e);
                        }
                    }
                }
            std::vector<string> cs;
            std::set<string> have;
            auto add = [&](const string &e) { if (have.insert(e).second) cs.push_back(e); };
            std::vector<string> ms;
            auto measure = [&](const string &e) { if (have.insert(e).second) ms.push_back(e); };
            auto down = [&](const X &x) { measure(x.now + "<" + x.old + "&&" + x.old + ">=0"); };
            auto upTo = [&](const X &x, const string &v) {
                measure(v + "-" + x.now + "<" + v + "-" + x.old + "&&" + v + "-" + x.old + ">=0");
            };
            // first the relations that the steps suggest: variables that move
            // in fixed proportion, and bounds the loop itself compares with
            const X *lead = nullptr;
            auto num = [](int64_t d) { return "(" + std::to_string(d) + "LL)"; };
            for (auto &x : xs) {
                if (!x.known) continue;
                if (x.delta == 0) add(x.now + "==" + x.was);
                if (x.delta > 0) add(x.now + ">=" + x.was);
                if (x.delta < 0) { add(x.now + "<=" + x.was); down(x); }
                for (auto &y : xs) {
                    if (&y == &x) break;
                    if (!y.known || !y.delta || !x.delta) continue;
                    if (lead && &y != lead) continue;
                    lead = &y;
                    add(num(y.delta) + "*(" + x.now + "-" + x.was + ")==" + num(x.delta) + "*(" + y.now + "-" + y.was + ")");
                }
            }
            for (auto *bl : L->blocks())
                for (auto &I : *bl) {
                    auto *cmp = dyn_cast<ICmpInst>(&I);
                    if (!cmp || !(cmp->getOperand(0)->getType()->isIntegerTy() || cmp->getOperand(0)->getType()->isPointerTy())) continue;
                    for (int side = 0; side < 2; ++side) {
                        auto *p = root(cmp->getOperand(side), H);
                        if (!p) continue;
                        const Value *o = cmp->getOperand(1 - side);
                        auto *q = root(o, H);
                        for (auto &x : xs) {
                            if (x.phi != p) continue;
                            if (q) {
                                for (auto &y : xs)
                                    if (y.phi == q) {
                                        add(x.now + "<=" + y.now);
                                        measure(y.now + "-" + x.now + "<" + y.old + "-" + x.old + "&&" + y.old + "-" + x.old + ">=0");
                                    }
                                continue;
                            }
                            for (auto &v : outside(o, L)) {
                                add(x.now + "<=" + v);
                                add(x.now + ">=" + v);
                                upTo(x, v);
                            }
                            add(x.now + ">=0");
                            add(x.now + ">=-1");
                            down(x);
                        }
                    }
                }
            size_t tier1 = cs.size(), mtier1 = ms.size();
            for (auto &x : xs) {
                add(x.now + "==" + x.was);
                add(x.now + ">=" + x.was);
                add(x.now + "<=" + x.was);
                add(x.now + ">=0");
                add(x.now + ">=-1");
                for (auto &v : vs) {
                    add(x.now + "<=" + v);
                    add(x.now + ">=" + v);
                    add(x.now + "-" + x.was + "<=" + v);
                    add("(" + v + "<" + x.was + "||" + x.now + "<=" + v + ")");
                }
                for (auto &f : bs) {
                    add("(" + f.now + "||" + x.now + "==" + x.was + ")");
                    add("(!" + f.now + "||" + x.now + "==" + x.was + ")");
                }
            }
            for (size_t i = 0; i < xs.size(); ++i)
                for (size_t j = 0; j < xs.size(); ++j) {
                    if (i == j) continue;
                    auto &x = xs[i], &y = xs[j];
                    add(x.now + "<=" + y.now);
                    if (x.known && y.known) continue;
                    add(x.now + "-" + x.was + "==2*(" + y.now + "-" + y.was + ")");
                    if (i > j) continue;
                    add(x.now + "-" + y.now + "==" + x.was + "-" + y.was);
                    add(x.now + "+" + y.now + "==" + x.was + "+" + y.was);
                }
            for (auto &f : bs) add(f.now + "==" + f.was);
            for (auto &x : xs) {
                down(x);
                for (auto &v : vs) upTo(x, v);
            }
            in << save.str();
            std::ostringstream as;
            for (auto &e : cs) {
                string id = std::to_string(ncands++);
                in << "  VF_INV(" << id << ",(" << e << "),\"inv:" << id << ":base\")\n";
                as << "  VF_ASM(" << id << ",(" << e << "))\n";
                back << "  VF_INV(" << id << ",(" << e << "),\"inv:" << id << ":step\")\n";
            }
            in << havoc.str() << as.str() << "  goto " << b << ";\n";
            back << mand.str();
            int mk = 0;
            for (auto &e : ms) {
                if (size_t(mk) == mtier1) back << "#ifdef VF_MORE\n";
                back << "  __CPROVER_assert(" << e << ",\"var:" << c.id << ":" << mk++ << "\");\n";
            }
            if (ms.size() > mtier1) back << "#endif\n";
            back << "  __CPROVER_assume(0);\n";
            if (F.getReturnType()->isVoidTy()) back << "  return;\n";
            else back << "  {" << ty(F.getReturnType()) << " t; return t;}\n";
            c.in = " " + b + "_in:;\n" + in.str();
            c.back = " " + b + "_back:;\n" + back.str();
            cutMeta << (c.id ? ",\n" : "") << "  {\"loop\": " << c.id << ", \"fn\": \"" << F.getName().str()
                    << "\", \"first\": " << first << ", \"last\": " << ncands << ", \"tier1\": " << first + tier1 << ", \"text\": [";
            for (size_t i = 0; i < cs.size(); ++i) cutMeta << (i ? "," : "") << "\"" << cstr(cs[i]) << "\"";
            cutMeta << "]}";
            cuts.emplace(H, c);
        }
    }

    void load(const string &dst, const string &p, Type *t) {
        if (t->isIntegerTy(1)) {
            out << "  " << dst << "=(_Bool)(*(uint8_t*)" << p << "&1);\n";
        } else if (oddInt(t)) {
            unsigned w = t->getIntegerBitWidth(), nb = (w + 7) / 8;
            out << "  " << dst << "=(" << ty(t) << ")(";
            for (unsigned i = 0; i < nb; ++i)
                out << (i ? "|" : "") << "(((" << (nb > 8 ? "u128_t" : "uint64_t") << ")((uint8_t*)" << p
                    << ")[" << i << "])<<" << 8 * i << ")";
            out << ");\n";
        } else
            out << "  " << dst << "=*(" << ty(t) << "*)" << p << ";\n";
    }
    void store(const string &v, const string &p, Type *t) {
        if (t->isIntegerTy(1))
            out << "  *(uint8_t*)" << p << "=(uint8_t)" << v << ";\n";
        else if (oddInt(t)) {
            unsigned w = t->getIntegerBitWidth(), nb = (w + 7) / 8;
            out << "  {" << (nb > 8 ? "u128_t" : "uint64_t") << " t=" << v << ";";
            for (unsigned i = 0; i < nb; ++i)
                out << "((uint8_t*)" << p << ")[" << i << "]=(uint8_t)(t>>" << 8 * i << ");";
            out << "}\n";
        } else
            out << "  *(" << ty(t) << "*)" << p << "=" << v << ";\n";
    }

    // A type of size sz that p is known to point to, from its definition or
    // from how it is used.
    Type *objType(const Value *p, uint64_t sz, int depth = 3) {
        auto ok = [&](Type *t) { return t && t->isSized() && DL->getTypeAllocSize(t) == sz && !t->isIntegerTy(8); };
        if (auto *a = dyn_cast<AllocaInst>(p)) if (ok(a->getAllocatedType())) return a->getAllocatedType();
        if (auto *g = dyn_cast<GlobalVariable>(p)) if (ok(g->getValueType())) return g->getValueType();
        if (auto *g = dyn_cast<GEPOperator>(p)) if (ok(g->getResultElementType())) return g->getResultElementType();
        // the first members of an aggregate share its address
        auto first = [&](Type *t) -> Type * {
            while (t && t->isSized() && DL->getTypeAllocSize(t) > sz) {
                if (auto *st = dyn_cast<StructType>(t)) t = st->getNumElements() ? st->getElementType(0) : nullptr;
                else if (auto *at = dyn_cast<ArrayType>(t)) t = at->getElementType();
                else t = nullptr;
            }
            return ok(t) ? t : nullptr;
        };
        if (!isa<Constant>(p))
            for (auto *u : p->users())
                if (auto *g = dyn_cast<GEPOperator>(u))
                    if (g->getPointerOperand() == p) if (Type *t = first(g->getSourceElementType())) return t;
        if (auto *a = dyn_cast<AllocaInst>(p)) return first(a->getAllocatedType());
        if (auto *g = dyn_cast<GEPOperator>(p)) return first(g->getResultElementType());
        if (depth == 0) return nullptr;
        if (auto *f = dyn_cast<PHINode>(p)) {
            for (auto &v : f->incoming_values())
                if (v != p) if (Type *t = objType(v, sz, depth - 1)) return t;
        }
        if (auto *c = dyn_cast<CallBase>(p)) {
            auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
            if (cf && !cf->isDeclaration())
                for (auto &b : *cf)
                    if (auto *r = dyn_cast<ReturnInst>(b.getTerminator()))
                        if (r->getReturnValue())
                            if (Type *t = objType(r->getReturnValue(), sz, depth - 1)) return t;
        }
        if (auto *a = dyn_cast<Argument>(p)) {
            if (Type *t = a->getParamByValType()) if (ok(t)) return t;
            if (Type *t = a->getParamStructRetType()) if (ok(t)) return t;
            unsigned n = a->getArgNo();
            for (auto *u : a->getParent()->users())
                if (auto *c = dyn_cast<CallBase>(u))
                    if (c->getCalledOperand() == a->getParent() && n < c->arg_size())
                        if (Type *t = objType(c->getArgOperand(n), sz, depth - 1)) return t;
        }
        return nullptr;
    }

    void call(const CallBase &C) {
        const Value *cv = C.getCalledOperand()->stripPointerCasts();
        const Function *cf = dyn_cast<Function>(cv);
        if (!cf) cf = aliasee(cv);
        if (cf) {
            string nm = cf->getName().str();
            if (cf->isIntrinsic()) return intrinsic(C, *cf);
            if (nm == "vf_assert") {
                string s;
                if (!isCString(dyn_cast<Constant>(C.getArgOperand(1)), s))
                    die("vf_assert name must be a literal", &C);
                out << "  __CPROVER_assert(" << val(C.getArgOperand(0)) << ",\"post:" << cstr(s) << "\");\n";
                return;
            }
            if (nm == "vf_reach") {
                string s;
                if (!isCString(dyn_cast<Constant>(C.getArgOperand(0)), s))
                    die("vf_reach name must be a literal", &C);
                out << "  __CPROVER_assert(0,\"reach:" << cstr(s) << "\");\n";
                return;
            }
            if (nm == "vf_assume") {
                out << "  __CPROVER_assume(" << val(C.getArgOperand(0)) << ");\n";
                return;
            }
            if (nm == "_ZSt21__glibcxx_assert_failPKciS0_S0_") {
                ub("0", "library precondition (glibcxx assertion)");
                out << "  __CPROVER_assume(0);\n";
                return;
            }
            if (nm == "__cxa_throw" || nm == "__cxa_rethrow" || StringRef(nm).starts_with("_ZSt") &&
                StringRef(nm).contains("__throw_")) {
                ub("0", "exception thrown");
                out << "  __CPROVER_assume(0);\n";
                return;
            }
            if (nm == "abort" || nm == "_ZSt9terminatev") {
                ub("0", "abort/terminate");
                out << "  __CPROVER_assume(0);\n";
                return;
            }
        }
        std::ostringstream s;
        std::vector<string> args;
        for (unsigned i = 0; i < C.arg_size(); ++i) args.push_back(val(C.getArgOperand(i)));
        if (C.getFunctionType()->isVarArg()) die("vararg call", &C);
        if (cf) {
            cf = resolveFn(cf);
            if (!isa<Function>(cv) || cf->getFunctionType() == C.getFunctionType() || true) {
                needFn(cf);
                s << gname(cf);
            }
        } else {
            s << "((" << ty(C.getType()) << "(*)(";
            for (unsigned i = 0; i < C.arg_size(); ++i)
                s << (i ? "," : "") << ty(C.getArgOperand(i)->getType());
            if (C.arg_size() == 0) s << "void";
            s << "))" << val(C.getCalledOperand()) << ")";
        }
        s << "(";
        for (size_t i = 0; i < args.size(); ++i) s << (i ? "," : "") << args[i];
        s << ")";
        if (C.getType()->isVoidTy()) out << "  " << s.str() << ";\n";
        else out << "  " << def(C) << "=" << s.str() << ";\n";
    }

    void intrinsic(const CallBase &C, const Function &f) {
        auto id = f.getIntrinsicID();
        auto a = [&](int i) { return val(C.getArgOperand(i)); };
        auto w = [&] { return C.getArgOperand(0)->getType()->getIntegerBitWidth(); };
        auto set = [&](const string &e) { out << "  " << def(C) << "=" << e << ";\n"; };
        switch (id) {
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value:
        case Intrinsic::dbg_label:
        case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::donothing:
            return;
        case Intrinsic::assume: ub(a(0), "llvm.assume"); return;
        case Intrinsic::expect: set(a(0)); return;
        case Intrinsic::is_constant: set("0"); return;
        case Intrinsic::trap:
        case Intrinsic::ubsantrap:
        case Intrinsic::debugtrap:
            ub("0", "trap");
            out << "  __CPROVER_assume(0);\n";
            return;
        case Intrinsic::ctpop: set("vf_ctpop" + std::to_string(w()) + "(" + a(0) + ")"); return;
        case Intrinsic::ctlz:
        case Intrinsic::cttz: {
            string nm = id == Intrinsic::ctlz ? "vf_ctlz" : "vf_cttz";
            if (auto *ci = dyn_cast<ConstantInt>(C.getArgOperand(1)); ci && ci->isOne())
                ub(a(0) + "!=0", "count zeros of 0");
            set(nm + std::to_string(w()) + "(" + a(0) + ")");
            return;
        }
        case Intrinsic::bswap: set("vf_bswap" + std::to_string(w()) + "(" + a(0) + ")"); return;
        case Intrinsic::bitreverse: set("vf_bitrev" + std::to_string(w()) + "(" + a(0) + ")"); return;
        case Intrinsic::fshl:
        case Intrinsic::fshr: {
            unsigned k = w();
            string T = ity(k), W = std::to_string(k);
            string sh = "((" + a(2) + ")%" + W + ")";
            if (id == Intrinsic::fshl)
                set("(" + T + ")(" + sh + "==0?" + a(0) + ":((" + T + ")(" + a(0) + "<<" + sh + ")|(" + T + ")(" + a(1) + ">>(" + W + "-" + sh + "))))");
            else
                set("(" + T + ")(" + sh + "==0?" + a(1) + ":((" + T + ")(" + a(0) + "<<(" + W + "-" + sh + "))|(" + T + ")(" + a(1) + ">>" + sh + ")))");
            return;
        }
        case Intrinsic::umin: set(a(0) + "<" + a(1) + "?" + a(0) + ":" + a(1)); return;
        case Intrinsic::umax: set(a(0) + ">" + a(1) + "?" + a(0) + ":" + a(1)); return;
        case Intrinsic::smin: set(sx(a(0), w()) + "<" + sx(a(1), w()) + "?" + a(0) + ":" + a(1)); return;
        case Intrinsic::smax: set(sx(a(0), w()) + ">" + sx(a(1), w()) + "?" + a(0) + ":" + a(1)); return;
        case Intrinsic::abs: {
            string T = ity(w());
            if (cast<ConstantInt>(C.getArgOperand(1))->isOne())
                ub("!(" + sx(a(0), w()) + "==" + "((" + sity(w()) + ")((" + T + ")1<<" + std::to_string(w() - 1) + ")))", "abs overflow");
            set(sx(a(0), w()) + "<0?(" + T + ")(0-" + a(0) + "):" + a(0));
            return;
        }
        case Intrinsic::usub_sat: set(a(0) + "<" + a(1) + "?(" + ity(w()) + ")0:(" + ity(w()) + ")(" + a(0) + "-" + a(1) + ")"); return;
        case Intrinsic::uadd_sat: set("(" + ity(w()) + ")(" + a(0) + "+" + a(1) + ")<" + a(0) + "?(" + ity(w()) + ")-1:(" + ity(w()) + ")(" + a(0) + "+" + a(1) + ")"); return;
        case Intrinsic::uadd_with_overflow:
        case Intrinsic::usub_with_overflow:
        case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow:
        case Intrinsic::ssub_with_overflow:
        case Intrinsic::smul_with_overflow: {
            unsigned k = w();
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow ||
                      id == Intrinsic::smul_with_overflow;
            string op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? "+"
                        : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? "-" : "*";
            string d = def(C);
            string T = ity(k), ST = sg ? sity(k) : T;
            string W = std::to_string(2 * k);
            oddWidths.insert(2 * k);
            string big = sg ? "s" + W + "_t" : "s" + std::to_string(2 * k + 2) + "_t";
            if (!sg) { big = "s" + std::to_string(2 * k + 2) + "_t"; oddWidths.insert(2 * k + 2); }
            if (2 * k == 16 || 2 * k == 32 || 2 * k == 64 || 2 * k == 128) if (sg) big = sity(2 * k);
            out << "  {" << big << " t=(" << big << ")(" << ST << ")" << a(0) << op << "(" << big << ")(" << ST << ")" << a(1) << ";"
                << d << ".f0=(" << T << ")t;" << d << ".f1=(t!=(" << big << ")(" << ST << ")(" << T << ")t);}\n";
            return;
        }
        case Intrinsic::memcpy:
        case Intrinsic::memcpy_inline:
        case Intrinsic::memmove: {
            auto *ci = dyn_cast<ConstantInt>(C.getArgOperand(2));
            if (ci) {
                uint64_t sz = ci->getZExtValue();
                if (sz == 0) return;
                Type *t = objType(C.getArgOperand(1), sz);
                if (!t) t = objType(C.getArgOperand(0), sz);
                if (t) {
                    out << "  *(" << ty(t) << "*)" << a(0) << "=*(" << ty(t) << "*)" << a(1) << ";\n";
                    return;
                }
                // type unknown: word by word
                std::vector<std::pair<uint64_t, unsigned>> parts;
                for (uint64_t o = 0; o < sz;) {
                    unsigned n = sz - o >= 8 ? 8 : sz - o >= 4 ? 4 : sz - o >= 2 ? 2 : 1;
                    parts.push_back({o, n});
                    o += n;
                }
                out << "  {ptr_t d_=" << a(0) << ",s_=" << a(1) << ";";
                for (auto &[o, n] : parts)
                    out << ity(n * 8) << " t" << o << "=*(" << ity(n * 8) << "*)((char*)s_+" << o << ");";
                for (auto &[o, n] : parts)
                    out << "*(" << ity(n * 8) << "*)((char*)d_+" << o << ")=t" << o << ";";
                out << "}\n";
                return;
            }
            out << "  vf_memmove(" << a(0) << "," << a(1) << "," << a(2) << ");\n";
            return;
        }
        case Intrinsic::memset: {
            auto *ci = dyn_cast<ConstantInt>(C.getArgOperand(2));
            auto *cv = dyn_cast<ConstantInt>(C.getArgOperand(1));
            if (ci && cv && cv->isZero()) {
                uint64_t sz = ci->getZExtValue();
                if (sz == 0) return;
                Type *t = objType(C.getArgOperand(0), sz);
                if (t && (t->isStructTy() || t->isArrayTy())) {
                    out << "  *(" << ty(t) << "*)" << a(0) << "=(" << ty(t) << "){0};\n";
                    return;
                }
                if (sz <= 8 && (sz & (sz - 1)) == 0) {
                    out << "  *(" << ity(sz * 8) << "*)" << a(0) << "=0;\n";
                    return;
                }
                string B = "struct B" + std::to_string(sz);
                byteStructs.insert(sz);
                out << "  *(" << B << "*)" << a(0) << "=(" << B << "){{0}};\n";
                return;
            }
            out << "  vf_memset(" << a(0) << "," << a(1) << "," << a(2) << ");\n";
            return;
        }
        case Intrinsic::fabs: set(C.getType()->isDoubleTy() ? "__builtin_fabs(" + a(0) + ")" : "__builtin_fabsf(" + a(0) + ")"); return;
        case Intrinsic::fmuladd: set("(" + a(0) + "*" + a(1) + ")+" + a(2)); return;
        default: die("intrinsic " + f.getName().str(), &C);
        }
    }
    static inline std::set<uint64_t> byteStructs;

    void binop(const BinaryOperator &B) {
        string d = def(B), x = val(B.getOperand(0)), y = val(B.getOperand(1));
        Type *t = B.getType();
        if (t->isFloatingPointTy()) {
            const char *o = nullptr;
            switch (B.getOpcode()) {
            case Instruction::FAdd: o = "+"; break;
            case Instruction::FSub: o = "-"; break;
            case Instruction::FMul: o = "*"; break;
            case Instruction::FDiv: o = "/"; break;
            default: die("fp op", &B);
            }
            out << "  " << d << "=" << x << o << y << ";\n";
            return;
        }
        if (!t->isIntegerTy()) die("vector op", &B);
        unsigned w = t->getIntegerBitWidth();
        string T = ity(w), W = std::to_string(w);
        if (oddInt(t)) oddWidths.insert(w);
        bool nsw = false, nuw = false, exact = false;
        if (auto *o = dyn_cast<OverflowingBinaryOperator>(&B)) {
            nsw = o->hasNoSignedWrap();
            nuw = o->hasNoUnsignedWrap();
        }
        if (auto *o = dyn_cast<PossiblyExactOperator>(&B)) exact = o->isExact();
        auto ovf = [&](const char *op, const char *what) {
            if (w == 1) return;
            if (nsw) {
                string fn = string("__CPROVER_overflow_") + what;
                ub("!" + fn + "(" + sx(x, w) + "," + sx(y, w) + ")", string("signed overflow (") + op + ")");
            }
            if (nuw) {
                string fn = string("__CPROVER_overflow_") + what;
                ub("!" + fn + "(" + x + "," + y + ")", string("unsigned overflow flagged nuw (") + op + ")");
            }
        };
        bool var = !isa<Constant>(B.getOperand(0)) && !isa<Constant>(B.getOperand(1));
        switch (B.getOpcode()) {
        case Instruction::Add:
            ovf("+", "plus");
            out << "  " << d << "=(" << T << ")(" << up(x, w) << "+" << up(y, w) << ");\n";
            break;
        case Instruction::Sub:
            ovf("-", "minus");
            out << "  " << d << "=(" << T << ")(" << up(x, w) << "-" << up(y, w) << ");\n";
            break;
        case Instruction::Mul:
            ovf("*", "mult");
            if (var && w <= 64)
                out << "  " << d << "=(" << T << ")VF_MUL(" << x << "," << y << ");\n";
            else
                out << "  " << d << "=(" << T << ")(" << up(x, w) << "*" << up(y, w) << ");\n";
            break;
        case Instruction::And: out << "  " << d << "=(" << T << ")(" << x << "&" << y << ");\n"; break;
        case Instruction::Or: out << "  " << d << "=(" << T << ")(" << x << "|" << y << ");\n"; break;
        case Instruction::Xor: out << "  " << d << "=(" << T << ")(" << x << "^" << y << ");\n"; break;
        case Instruction::Shl:
            if (!isa<ConstantInt>(B.getOperand(1)) || cast<ConstantInt>(B.getOperand(1))->getValue().uge(w))
                ub(y + "<" + W, "shift amount out of range");
            out << "  " << d << "=(" << T << ")(" << up(x, w) << "<<(" << y << "));\n";
            if (nuw) ub("(" + T + ")(" + d + ">>" + y + ")==" + x, "shl nuw");
            break;
        case Instruction::LShr:
            if (!isa<ConstantInt>(B.getOperand(1)) || cast<ConstantInt>(B.getOperand(1))->getValue().uge(w))
                ub(y + "<" + W, "shift amount out of range");
            out << "  " << d << "=(" << T << ")(" << up(x, w) << ">>(" << y << "));\n";
            break;
        case Instruction::AShr:
            if (!isa<ConstantInt>(B.getOperand(1)) || cast<ConstantInt>(B.getOperand(1))->getValue().uge(w))
                ub(y + "<" + W, "shift amount out of range");
            out << "  " << d << "=(" << T << ")(" << sx(x, w) << ">>(" << y << "));\n";
            break;
        case Instruction::UDiv:
        case Instruction::URem:
            ub(y + "!=0", "division by zero");
            if (var && w <= 64) {
                out << "  " << d << "=(" << T << ")" << (B.getOpcode() == Instruction::UDiv ? "VF_DIV(" : "VF_REM(") << x << "," << y << ");\n";
                break;
            }
            if (w <= 64) {
                out << "  " << d << "=" << (B.getOpcode() == Instruction::UDiv ? "VF_UDIVC(" : "VF_UREMC(") << T << "," << up(x, w)
                    << "," << up(y, w) << ");\n";
                break;
            }
            out << "  " << d << "=(" << T << ")(" << up(x, w)
                << (B.getOpcode() == Instruction::UDiv ? "/" : "%") << up(y, w) << ");\n";
            break;
        case Instruction::SDiv:
        case Instruction::SRem: {
            ub(y + "!=0", "division by zero");
            if (w >= 32)
                ub("!(" + sx(y, w) + "==-1&&" + x + "==((" + T + ")1<<" + std::to_string(w - 1) + "))", "signed division overflow");
            const char *o = B.getOpcode() == Instruction::SDiv ? "/" : "%";
            string f = *o == '/' ? "VF_SDIV" : "VF_SREM";
            if (var && w <= 64)
                out << "  " << d << "=" << f << "(" << T << "," << sx(x, w) << "," << sx(y, w) << "," << x << "," << y << ");\n";
            else if (w <= 64)
                out << "  " << d << "=" << f << "C(" << T << "," << sx(x, w) << "," << sx(y, w) << ");\n";
            else
                out << "  " << d << "=(" << T << ")(" << sx(x, w) << o << sx(y, w) << ");\n";
            break;
        }
        default: die("binop", &B);
        }
    }

    void icmp(const ICmpInst &I) {
        string d = def(I), x = val(I.getOperand(0)), y = val(I.getOperand(1));
        Type *t = I.getOperand(0)->getType();
        bool ptr = t->isPointerTy();
        if (ptr && !I.isEquality()) {
            x = "((uint64_t)" + x + ")";
            y = "((uint64_t)" + y + ")";
        }
        unsigned w = ptr ? 64 : t->getIntegerBitWidth();
        const char *o = "==";
        bool sg = I.isSigned();
        switch (I.getPredicate()) {
        case ICmpInst::ICMP_EQ: o = "=="; break;
        case ICmpInst::ICMP_NE: o = "!="; break;
        case ICmpInst::ICMP_UGT:
        case ICmpInst::ICMP_SGT: o = ">"; break;
        case ICmpInst::ICMP_UGE:
        case ICmpInst::ICMP_SGE: o = ">="; break;
        case ICmpInst::ICMP_ULT:
        case ICmpInst::ICMP_SLT: o = "<"; break;
        case ICmpInst::ICMP_ULE:
        case ICmpInst::ICMP_SLE: o = "<="; break;
        default: die("icmp", &I);
        }
        if (sg) { x = sx(x, w); y = sx(y, w); }
        out << "  " << d << "=(" << x << o << y << ");\n";
    }

    void fcmp(const FCmpInst &I) {
        string d = def(I), x = val(I.getOperand(0)), y = val(I.getOperand(1));
        string un = "(" + x + "!=" + x + "||" + y + "!=" + y + ")";
        string e;
        switch (I.getPredicate()) {
        case FCmpInst::FCMP_FALSE: e = "0"; break;
        case FCmpInst::FCMP_TRUE: e = "1"; break;
        case FCmpInst::FCMP_OEQ: e = x + "==" + y; break;
        case FCmpInst::FCMP_OGT: e = x + ">" + y; break;
        case FCmpInst::FCMP_OGE: e = x + ">=" + y; break;
        case FCmpInst::FCMP_OLT: e = x + "<" + y; break;
        case FCmpInst::FCMP_OLE: e = x + "<=" + y; break;
        case FCmpInst::FCMP_ONE: e = "!" + un + "&&" + x + "!=" + y; break;
        case FCmpInst::FCMP_ORD: e = "!" + un; break;
        case FCmpInst::FCMP_UNO: e = un; break;
        case FCmpInst::FCMP_UEQ: e = un + "||" + x + "==" + y; break;
        case FCmpInst::FCMP_UGT: e = un + "||" + x + ">" + y; break;
        case FCmpInst::FCMP_UGE: e = un + "||" + x + ">=" + y; break;
        case FCmpInst::FCMP_ULT: e = un + "||" + x + "<" + y; break;
        case FCmpInst::FCMP_ULE: e = un + "||" + x + "<=" + y; break;
        case FCmpInst::FCMP_UNE: e = x + "!=" + y; break;
        default: die("fcmp", &I);
        }
        out << "  " << d << "=(" << e << ");\n";
    }

    static string path(Type *t, ArrayRef<unsigned> idx) {
        string s;
        for (unsigned i : idx) {
            if (auto *st = dyn_cast<StructType>(t)) {
                s += ".f" + std::to_string(i);
                t = st->getElementType(i);
            } else if (auto *at = dyn_cast<ArrayType>(t)) {
                s += ".a[" + std::to_string(i) + "]";
                t = at->getElementType();
            } else die("path");
        }
        return s;
    }

    void inst(const Instruction &I) {
        if (auto *b = dyn_cast<BinaryOperator>(&I)) return binop(*b);
        if (auto *c = dyn_cast<ICmpInst>(&I)) return icmp(*c);
        if (auto *c = dyn_cast<FCmpInst>(&I)) return fcmp(*c);
        if (auto *c = dyn_cast<CallInst>(&I)) return call(*c);
        if (isa<PHINode>(&I)) return;
        if (isa<AllocaInst>(&I)) return;
        switch (I.getOpcode()) {
        case Instruction::Load: load(def(I), val(I.getOperand(0)), I.getType()); return;
        case Instruction::Store:
            store(val(I.getOperand(0)), val(I.getOperand(1)), I.getOperand(0)->getType());
            return;
        case Instruction::GetElementPtr: {
            std::ostringstream pre;
            string e = gepExpr(cast<GEPOperator>(&I), [&](const Value *v) { return val(v); }, &pre);
            out << pre.str() << "  " << def(I) << "=" << e << ";\n";
            return;
        }
        case Instruction::Select:
            out << "  " << def(I) << "=" << val(I.getOperand(0)) << "?" << val(I.getOperand(1)) << ":"
                << val(I.getOperand(2)) << ";\n";
            return;
        case Instruction::ZExt:
            out << "  " << def(I) << "=(" << ty(I.getType()) << ")" << val(I.getOperand(0)) << ";\n";
            return;
        case Instruction::Trunc:
            if (I.getType()->isIntegerTy(1))
                out << "  " << def(I) << "=(_Bool)(" << val(I.getOperand(0)) << "&1);\n";
            else
                out << "  " << def(I) << "=(" << ty(I.getType()) << ")" << val(I.getOperand(0)) << ";\n";
            return;
        case Instruction::SExt: {
            unsigned w = I.getOperand(0)->getType()->getIntegerBitWidth();
            if (w == 1)
                out << "  " << def(I) << "=" << val(I.getOperand(0)) << "?(" << ty(I.getType()) << ")-1:(" << ty(I.getType()) << ")0;\n";
            else
                out << "  " << def(I) << "=(" << ty(I.getType()) << ")(" << sity(I.getType()->getIntegerBitWidth()) << ")"
                    << sx(val(I.getOperand(0)), w) << ";\n";
            return;
        }
        case Instruction::PtrToInt:
            out << "  " << def(I) << "=(" << ty(I.getType()) << ")(uint64_t)" << val(I.getOperand(0)) << ";\n";
            return;
        case Instruction::IntToPtr:
            out << "  " << def(I) << "=(ptr_t)(uint64_t)" << val(I.getOperand(0)) << ";\n";
            return;
        case Instruction::BitCast: {
            Type *f = I.getOperand(0)->getType(), *t = I.getType();
            if (f == t || (f->isPointerTy() && t->isPointerTy()))
                out << "  " << def(I) << "=" << val(I.getOperand(0)) << ";\n";
            else
                out << "  {union{" << ty(f) << " x;" << ty(t) << " y;} u; u.x=" << val(I.getOperand(0)) << ";" << def(I) << "=u.y;}\n";
            return;
        }
        case Instruction::FPExt:
        case Instruction::FPTrunc:
            out << "  " << def(I) << "=(" << ty(I.getType()) << ")" << val(I.getOperand(0)) << ";\n";
            return;
        case Instruction::UIToFP:
            out << "  " << def(I) << "=(" << ty(I.getType()) << ")" << val(I.getOperand(0)) << ";\n";
            return;
        case Instruction::SIToFP: {
            unsigned w = I.getOperand(0)->getType()->getIntegerBitWidth();
            out << "  " << def(I) << "=(" << ty(I.getType()) << ")" << sx(val(I.getOperand(0)), w) << ";\n";
            return;
        }
        case Instruction::FPToUI:
            out << "  " << def(I) << "=(" << ty(I.getType()) << ")" << val(I.getOperand(0)) << ";\n";
            return;
        case Instruction::FPToSI: {
            unsigned w = I.getType()->getIntegerBitWidth();
            out << "  " << def(I) << "=(" << ty(I.getType()) << ")(" << sity(w) << ")" << val(I.getOperand(0)) << ";\n";
            return;
        }
        case Instruction::FNeg: out << "  " << def(I) << "=-" << val(I.getOperand(0)) << ";\n"; return;
        case Instruction::Freeze: out << "  " << def(I) << "=" << val(I.getOperand(0)) << ";\n"; return;
        case Instruction::ExtractValue: {
            auto *e = cast<ExtractValueInst>(&I);
            const Value *agg = e->getAggregateOperand();
            if (isa<Constant>(agg)) {
                out << "  {" << ty(agg->getType()) << " t=" << val(agg) << ";" << def(I) << "=t"
                    << path(agg->getType(), e->getIndices()) << ";}\n";
            } else
                out << "  " << def(I) << "=" << val(agg) << path(agg->getType(), e->getIndices()) << ";\n";
            return;
        }
        case Instruction::InsertValue: {
            auto *e = cast<InsertValueInst>(&I);
            const Value *agg = e->getAggregateOperand();
            if (!isa<UndefValue>(agg)) out << "  " << def(I) << "=" << val(agg) << ";\n";
            out << "  " << def(I) << path(agg->getType(), e->getIndices()) << "=" << val(e->getInsertedValueOperand()) << ";\n";
            return;
        }
        case Instruction::Br: {
            auto *b = cast<BranchInst>(&I);
            if (b->isUnconditional()) edge(I.getParent(), b->getSuccessor(0));
            else {
                out << "  if(" << val(b->getCondition()) << "){";
                edge(I.getParent(), b->getSuccessor(0));
                out << "  }else{";
                edge(I.getParent(), b->getSuccessor(1));
                out << "  }\n";
            }
            return;
        }
        case Instruction::Switch: {
            auto *s = cast<SwitchInst>(&I);
            string v = val(s->getCondition());
            for (auto &c : s->cases()) {
                out << "  if(" << v << "==" << constExpr(c.getCaseValue()) << "){";
                edge(I.getParent(), c.getCaseSuccessor());
                out << "  }\n";
            }
            edge(I.getParent(), s->getDefaultDest());
            return;
        }
        case Instruction::Ret:
            if (I.getNumOperands()) out << "  return " << val(I.getOperand(0)) << ";\n";
            else out << "  return;\n";
            return;
        case Instruction::Unreachable:
            ub("0", "unreachable code reached");
            out << "  __CPROVER_assume(0);\n";
            if (!F.getReturnType()->isVoidTy()) out << "  {" << ty(F.getReturnType()) << " t; return t;}\n";
            else out << "  return;\n";
            return;
        case Instruction::Fence: return;
        case Instruction::AtomicRMW: {
            auto *r = cast<AtomicRMWInst>(&I);
            string p = val(r->getPointerOperand()), v = val(r->getValOperand()), d = def(I);
            load(d, p, I.getType());
            string T = ty(I.getType());
            string e;
            switch (r->getOperation()) {
            case AtomicRMWInst::Xchg: e = v; break;
            case AtomicRMWInst::Add: e = d + "+" + v; break;
            case AtomicRMWInst::Sub: e = d + "-" + v; break;
            case AtomicRMWInst::And: e = d + "&" + v; break;
            case AtomicRMWInst::Or: e = d + "|" + v; break;
            case AtomicRMWInst::Xor: e = d + "^" + v; break;
            default: die("rmw", &I);
            }
            store("((" + T + ")(" + e + "))", p, I.getType());
            return;
        }
        default: die("instruction", &I);
        }
    }

    void run() {
        curDecl = &decl;
        int i = 0;
        for (auto &a : F.args()) {
            names[&a] = "a" + std::to_string(i);
            if (a.hasByValAttr()) {
                string t = ty(a.getParamByValType());
                decl << "  " << t << " bv" << i << "=*(" << t << "*)a" << i << "; a" << i << "=(ptr_t)&bv" << i << ";\n";
            }
            ++i;
        }
        for (auto &b : F) bb[&b] = n++;
        int k = 0;
        for (auto &I : instructions(F)) {
            if (I.getType()->isVoidTy()) continue;
            string nm = "v" + std::to_string(k++);
            if (auto *al = dyn_cast<AllocaInst>(&I)) {
                auto *cnt = dyn_cast<ConstantInt>(al->getArraySize());
                if (!cnt) die("dynamic alloca", &I);
                string t = ty(al->getAllocatedType());
                if (al->getAllocatedType()->isIntegerTy(1)) t = "uint8_t";
                if (oddInt(al->getAllocatedType())) {
                    uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType());
                    byteStructs.insert(sz);
                    t = "struct B" + std::to_string(sz);
                }
                decl << "  " << t << " m" << nm << "; ptr_t " << nm << "=(ptr_t)&m" << nm << ";\n";
                if (cnt->getZExtValue() != 1) die("array alloca", &I);
            } else
                decl << "  " << ty(I.getType()) << " " << nm << ";\n";
            names[&I] = nm;
        }
        if (cutLoops) prepareCuts();
        for (auto &b : F) {
            auto c = cuts.find(&b);
            if (c != cuts.end()) out << c->second.in;
            out << " b" << bb[&b] << ":;\n";
            for (auto &I : b) inst(I);
        }
        for (auto &c : cuts) out << c.second.back;
        bodies << "// " << where << "\n" << proto(&F, true) << "\n{\n" << decl.str();
        if (bb[&F.getEntryBlock()] != 0) bodies << "  goto b" << bb[&F.getEntryBlock()] << ";\n";
        bodies << out.str() << "}\n";
    }
};

int FnEmit::ncuts = 0;
int FnEmit::ncands = 0;
std::ostringstream FnEmit::cutMeta;

static const std::set<string> preludeFns = {
    "vf_nondet", "vf_memmove", "vf_memset", "memcmp", "memchr", "strlen",
};

int main(int argc, char **argv) {
    if (argc > 1 && string(argv[1]) == "--cut") {
        cutLoops = true;
        --argc;
        ++argv;
    }
    if (argc < 4) { fprintf(stderr, "usage: ll2c in.ll out.c meta.json\n"); return 3; }
    LLVMContext &ctx = *new LLVMContext;
    SMDiagnostic err;
    M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("ll2c", errs()); return 3; }
    DL = &M->getDataLayout();

    // contract substitutions: global arrays named vf_replace_* = { {real, contract}, ... }
    for (auto &g : M->globals()) {
        if (!g.getName().starts_with("vf_replace_") || !g.hasInitializer()) continue;
        auto *in = g.getInitializer();
        if (in->getNumOperands() != 2) die("vf_replace shape", &g);
        auto strip = [](Value *v) -> Function * { return dyn_cast<Function>(v->stripPointerCasts()); };
        auto *a = strip(in->getOperand(0)), *b = strip(in->getOperand(1));
        if (!a || !b) die("vf_replace operands", &g);
        replaced[a] = b;
    }
    std::vector<string> harnesses;
    for (auto &f : *M)
        if (!f.isDeclaration() && f.getName().starts_with("vf_h_")) {
            needFn(&f);
            harnesses.push_back(f.getName().str());
        }
    meta << "{\n \"functions\": [\n";
    bool firstf = true;
    std::ostringstream gdecl, gdef;
    size_t gi = 0;
    while (!fwork.empty() || gi < gvars.size()) {
        if (!fwork.empty()) {
            const Function *f = fwork.front();
            fwork.pop_front();
            string nm = f->getName().str();
            if (f->isDeclaration()) {
                if (preludeFns.count(nm)) continue;
                externs.insert(nm);
                protos << proto(f, false) << ";\n";
                continue;
            }
            protos << proto(f, false) << ";\n";
            FnEmit e(*f);
            e.run();
            meta << (firstf ? "" : ",\n") << "  {\"sym\": \"" << nm << "\", \"name\": \""
                 << cstr(demangle(nm)) << "\"}";
            firstf = false;
            continue;
        }
        auto *g = gvars[gi++];
        string t = ty(g->getValueType());
        gdecl << "extern " << t << " " << gname(g) << ";\n";
        if (g->hasInitializer())
            gdef << t << " " << gname(g) << "=" << constExpr(g->getInitializer(), true) << ";\n";
        else
            gdef << t << " " << gname(g) << ";\n";
    }
    meta << "\n ],\n \"externs\": [";
    { bool c = false; for (auto &e : externs) { meta << (c ? "," : "") << "\"" << e << "\""; c = true; } }
    meta << "],\n \"harnesses\": [";
    { bool c = false; for (auto &e : harnesses) { meta << (c ? "," : "") << "\"" << e << "\""; c = true; } }
    meta << "],\n \"loops\": [\n" << FnEmit::cutMeta.str() << "]\n}\n";

    std::ofstream o(argv[2]);
    o << "#include \"vf_prelude.h\"\n";
    for (auto w : oddWidths) {
        if (w == 16 || w == 32 || w == 64 || w == 128 || w == 8) continue;
        o << "typedef unsigned __CPROVER_bitvector[" << w << "] u" << w << "_t; typedef signed __CPROVER_bitvector[" << w << "] s" << w << "_t;\n";
    }
    for (auto b : FnEmit::byteStructs) o << "struct B" << b << " { uint8_t a[" << b << "]; };\n";
    o << typeDefs.str() << gdecl.str() << protos.str() << gdef.str() << bodies.str();
    o.close();
    std::ofstream m(argv[3]);
    m << meta.str();
    m.close();
    (void)M.release();
    return o.good() && m.good() ? 0 : 3;
}
