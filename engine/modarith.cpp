// modarith: abstract interpretation of modular-arithmetic kernels (number theoretic transforms) over LLVM IR.
//
//   modarith <module.bc> <root> [witness <seed>]
//
// Control flow and table contents are constants of the program; the polynomial coefficients are abstract.  An abstract value is
//   - a linear form over the inputs of one group, coefficients modulo M  (what the machine integer is congruent to), and
//   - an interval containing the machine integer itself                  (so that no addition or conversion silently wraps).
// The product of a form of group 1 and a form of group 2 is a new product atom.  A branch on an abstract value is analysed on both
// sides with the interval refined and joined at the post-dominator; both sides have to be congruent.
// Functions with a contract of their own (proved separately by specs/c29.py) are replaced by that contract.
// With "witness" the inputs are constants and no contract is used: the answer is a counterexample, never a proof.
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/Local.h>

#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;

static u64 M = 0;          // modulus of the forms; 0: 2^64 (wrapm mode)
static unsigned WB = 0;    // Montgomery radix bits
static bool wrapm = false, witness = false;
static u64 seed = 0;
static u64 madd(u64 a, u64 b) { if (!M) return a + b; u128 s = (u128)a + b; return s >= M ? (u64)(s - M) : (u64)s; }
static u64 msub(u64 a, u64 b) { if (!M) return a - b; return a >= b ? a - b : a + (M - b); }
static u64 mmul(u64 a, u64 b) { return M ? (u64)((u128)a * b % M) : a * b; }
static u64 mpow(u64 a, u64 e) { u64 r = 1; for (; e; e >>= 1, a = mmul(a, a)) if (e & 1) r = mmul(r, a); return r; }
static u64 mred(i128 x) { if (!M) return (u64)x; i128 r = x % (i128)M; return (u64)(r < 0 ? r + M : r); }

struct Form { int space = 0; std::vector<u64> c; u64 k = 0; };   // space 0: constant, 1, 2: inputs, 3: products
typedef std::shared_ptr<const Form> F;
static F konst(u64 k) { auto f = std::make_shared<Form>(); f->k = k; return f; }
static bool eqF(const F &a, const F &b) { return a->space == b->space ? a->k == b->k && a->c == b->c : false; }
static F comb(const F &a, const F &b, bool sub)
{
    auto r = std::make_shared<Form>();
    r->space = a->space ? a->space : b->space;
    size_t n = std::max(a->c.size(), b->c.size());
    r->c.resize(n);
    for (size_t i = 0; i < n; i++) {
        u64 x = i < a->c.size() ? a->c[i] : 0, y = i < b->c.size() ? b->c[i] : 0;
        r->c[i] = sub ? msub(x, y) : madd(x, y);
    }
    r->k = sub ? msub(a->k, b->k) : madd(a->k, b->k);
    return r;
}
static F scale(const F &a, u64 s)
{
    auto r = std::make_shared<Form>(*a);
    for (auto &x : r->c) x = mmul(x, s);
    r->k = mmul(r->k, s);
    return r;
}

enum Kind : char { UND, INT, PTR, ABS, CMP, LOST, FP, AGG };
struct Value_ {
    Kind k = UND;
    short w = 0;                   // bits
    u128 c = 0;                    // INT: the bits; PTR: offset
    int obj = 0;
    F f;                           // ABS
    short zx = 0;                  // ABS, part: width before the zero extension that produced it
    bool part = false;             // only the low bits of an element of Z/M: good for being output, not for arithmetic
    i128 lo = 0, hi = 0;
    unsigned pred = 0;             // CMP: (value of) inst pred constant
    const Value *on = nullptr;
    i128 rhs = 0;
    std::shared_ptr<std::string> why;
    std::shared_ptr<std::vector<Value_>> ag;   // AGG: the scalar fields in order
};
typedef Value_ V;
static u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static V mkint(unsigned w, u128 c) { V v; v.k = INT; v.w = w; v.c = c & mask(w); return v; }
static V mkptr(int o, int64_t off) { V v; v.k = PTR; v.w = 64; v.obj = o; v.c = (u128)(u64)off; return v; }
static V lost(unsigned w, const std::string &s) { V v; v.k = LOST; v.w = w; v.why = std::make_shared<std::string>(s); return v; }
static i128 sx(const V &v) { unsigned w = v.w; u128 c = v.c & mask(w); if (w < 128 && (c >> (w - 1) & 1)) return (i128)(c | ~mask(w)); return (i128)c; }

struct Unsupported { std::string s; };
[[noreturn]] static void unsup(const std::string &s) { throw Unsupported{s}; }

struct Cell { V v; unsigned bytes; };
struct Obj { std::map<int64_t, Cell> cells; const GlobalVariable *g = nullptr; int64_t size = -1; };
static std::vector<Obj> objs(1);
struct Undo { int o; int64_t off; bool had; Cell old; };
static std::vector<Undo> *logp = nullptr;

static const DataLayout *DL;
static std::map<const GlobalVariable *, int> gobj;
static std::vector<std::pair<F, F>> prods;
static std::map<int, V> results;
static std::map<std::pair<int, int>, std::pair<i128, i128>> inrange;
static std::map<std::pair<int, int>, i128> inval;
static u64 steps = 0;
static std::map<std::string, u64> used;     // contracts used, calls
static std::set<const Function *> visited;
static std::string assertion, firstLost;
static u64 nlost = 0, nfork = 0, nops = 0;

static std::string loc(const Instruction *I)
{
    if (auto &D = I->getDebugLoc()) {
        std::string f = D->getFilename().str();
        return f.substr(f.rfind('/') + 1) + ":" + std::to_string(D.getLine());
    }
    return "?";
}
static V lose(const Instruction *I, unsigned w, const std::string &s)
{
    nlost++;
    std::string t = loc(I) + ": " + s;
    if (firstLost.empty()) firstLost = t;
    return lost(w, t);
}
static std::string show(i128 x)
{
    if (x == 0) return "0";
    bool n = x < 0; u128 u = n ? -(u128)x : (u128)x; std::string s;
    while (u) { s = char('0' + (int)(u % 10)) + s; u /= 10; }
    return (n ? "-" : "") + s;
}

// ------------------------------------------------------------------ memory
static void put(int o, int64_t off, const Cell *c)
{
    auto &cs = objs[o].cells;
    auto it = cs.find(off);
    if (logp) logp->push_back({o, off, it != cs.end(), it != cs.end() ? it->second : Cell{}});
    if (c) cs[off] = *c;
    else if (it != cs.end()) cs.erase(it);
}
static bool byteAt(int o, int64_t off, unsigned &b)
{
    auto &cs = objs[o].cells;
    auto it = cs.upper_bound(off);
    if (it == cs.begin()) return false;
    --it;
    if (it->first + (int64_t)it->second.bytes <= off || it->second.v.k != INT) return false;
    b = (unsigned)(it->second.v.c >> (8 * (off - it->first)) & 255);
    return true;
}
static void clearRange(int o, int64_t off, int64_t n)
{
    auto &cs = objs[o].cells;
    std::vector<int64_t> kill;
    auto it = cs.lower_bound(off - 16);
    for (; it != cs.end() && it->first < off + n; ++it)
        if (it->first + (int64_t)it->second.bytes > off) kill.push_back(it->first);
    for (auto k : kill) {
        Cell c = cs[k];
        put(o, k, nullptr);
        for (unsigned i = 0; i < c.bytes; i++)   // bytes of a partly overwritten constant survive
            if ((k + i < off || k + (int64_t)i >= off + n) && c.v.k == INT) { Cell b{mkint(8, c.v.c >> (8 * i)), 1}; put(o, k + i, &b); }
    }
}
static void store(const V &p, const V &v, unsigned bytes)
{
    if (p.k != PTR || !p.obj) unsup("store through a pointer that is not known");
    int64_t off = (int64_t)p.c;
    auto &cs = objs[p.obj].cells;
    auto it = cs.find(off);
    if (!(it != cs.end() && it->second.bytes == bytes)) clearRange(p.obj, off, bytes);
    Cell c{v, bytes};
    put(p.obj, off, &c);
}
static void flat(Type *T, int64_t off, std::vector<std::pair<Type *, int64_t>> &o)
{
    if (auto *S = dyn_cast<StructType>(T))
        for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), off + (int64_t)DL->getStructLayout(S)->getElementOffset(i), o);
    else if (auto *A = dyn_cast<ArrayType>(T))
        for (unsigned i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), off + i * (int64_t)DL->getTypeAllocSize(A->getElementType()), o);
    else o.push_back({T, off});
}
static V load(const V &p, Type *T, const Instruction *I)
{
    if (T->isAggregateType()) {
        std::vector<std::pair<Type *, int64_t>> fs;
        flat(T, 0, fs);
        V v; v.k = AGG; v.ag = std::make_shared<std::vector<V>>();
        for (auto &x : fs) { V q = p; q.c += (u128)(u64)x.second; v.ag->push_back(load(q, x.first, I)); }
        return v;
    }
    unsigned w = T->isPointerTy() ? 64 : DL->getTypeSizeInBits(T), bytes = DL->getTypeStoreSize(T);
    if (p.k != PTR || !p.obj) unsup("load through a pointer that is not known at " + loc(I));
    int64_t off = (int64_t)p.c;
    auto &O = objs[p.obj];
    auto it = O.cells.find(off);
    if (it != O.cells.end() && it->second.bytes == bytes) {
        V v = it->second.v;
        if (v.k == INT) v.w = w, v.c &= mask(w);
        return v;
    }
    if (it == O.cells.end() && O.g && O.g->hasInitializer()) {
        if (Constant *C = ConstantFoldLoadFromConst(const_cast<Constant *>(O.g->getInitializer()), T, APInt(64, off), *DL))
            if (auto *CI = dyn_cast<ConstantInt>(C)) {
                u128 x = CI->getValue().extractBitsAsZExtValue(std::min(64u, w), 0);
                if (w > 64) x |= (u128)CI->getValue().extractBitsAsZExtValue(w - 64, 64) << 64;
                return mkint(w, x);
            }
        unsup("load from global " + O.g->getName().str());
    }
    u128 x = 0; bool all = bytes <= 16;
    for (unsigned i = 0; all && i < bytes; i++) { unsigned b; if (byteAt(p.obj, off + i, b)) x |= (u128)b << (8 * i); else all = false; }
    if (all) return mkint(w, x);
    for (auto &kv : O.cells)
        if (kv.first < off + bytes && kv.first + (int64_t)kv.second.bytes > off && kv.second.v.k != INT)
            return lose(I, w, "part of an abstract value is read");
    return lose(I, w, "uninitialised memory is read");
}
static void copyMem(const V &d, const V &s, int64_t n)
{
    if (d.k != PTR || s.k != PTR || !d.obj || !s.obj) unsup("memcpy of unknown memory");
    int64_t a = (int64_t)d.c, b = (int64_t)s.c;
    if (objs[s.obj].g && objs[s.obj].cells.empty()) {
        clearRange(d.obj, a, n);
        LLVMContext &C = objs[s.obj].g->getContext();
        for (int64_t i = 0; i < n; i++)
            if (Constant *K = ConstantFoldLoadFromConst(const_cast<Constant *>(objs[s.obj].g->getInitializer()), Type::getInt8Ty(C), APInt(64, b + i), *DL))
                if (auto *CI = dyn_cast<ConstantInt>(K)) { Cell c{mkint(8, CI->getZExtValue()), 1}; put(d.obj, a + i, &c); }
        return;
    }
    std::vector<std::pair<int64_t, Cell>> t;
    auto &cs = objs[s.obj].cells;
    for (auto it = cs.lower_bound(b); it != cs.end() && it->first < b + n; ++it)
        if (it->first + (int64_t)it->second.bytes <= b + n) t.push_back({it->first - b, it->second});
    clearRange(d.obj, a, n);
    for (auto &x : t) put(d.obj, a + x.first, &x.second);
}

// ------------------------------------------------------------------ arithmetic
static V toAbs(const V &v)
{
    V r = v;
    if (v.k == INT) { r.k = ABS; r.f = konst(mred(sx(v))); r.lo = r.hi = sx(v); }
    return r;
}
static bool fits(i128 lo, i128 hi, unsigned w)
{
    if (w >= 127) return true;
    i128 h = (i128)1 << (w - 1);
    return (lo >= -h && hi < h) || (lo >= 0 && hi < 2 * h);
}
static V mkabs(const Instruction *I, unsigned w, F f, i128 lo, i128 hi)
{
    V v; v.k = ABS; v.w = w; v.f = f; v.lo = lo; v.hi = hi;
    if (!wrapm && !fits(lo, hi, w)) return lose(I, w, "a value in [" + show(lo) + ", " + show(hi) + "] does not fit its " + std::to_string(w) + " bit type");
    return v;
}
static bool small(i128 x) { i128 b = (i128)1 << 62; return x < b && x > -b; }
static V arith(const Instruction *I, unsigned op, const V &a, const V &b, unsigned w)
{
    if (a.k == LOST) return a;
    if (b.k == LOST) return b;
    if (a.k == UND || b.k == UND) return lose(I, w, "undefined value is used");
    if (a.k == INT && b.k == INT) {
        u128 x = a.c, y = b.c;
        i128 sa = sx(a), sb = sx(b);
        switch (op) {
        case Instruction::Add: return mkint(w, x + y);
        case Instruction::Sub: return mkint(w, x - y);
        case Instruction::Mul: return mkint(w, x * y);
        case Instruction::And: return mkint(w, x & y);
        case Instruction::Or: return mkint(w, x | y);
        case Instruction::Xor: return mkint(w, x ^ y);
        case Instruction::Shl: return y < w ? mkint(w, x << (int)y) : lose(I, w, "shift amount too large");
        case Instruction::LShr: return y < w ? mkint(w, x >> (int)y) : lose(I, w, "shift amount too large");
        case Instruction::AShr: return y < w ? mkint(w, (u128)(sa >> (int)y)) : lose(I, w, "shift amount too large");
        case Instruction::UDiv: return y ? mkint(w, x / y) : lose(I, w, "division by zero");
        case Instruction::URem: return y ? mkint(w, x % y) : lose(I, w, "division by zero");
        case Instruction::SDiv: return sb ? mkint(w, (u128)(sa / sb)) : lose(I, w, "division by zero");
        case Instruction::SRem: return sb ? mkint(w, (u128)(sa % sb)) : lose(I, w, "division by zero");
        }
        unsup("operation");
    }
    if (a.part || b.part) return lose(I, w, "arithmetic on the low bits of a residue");
    if (a.k == PTR && b.k == PTR && a.obj == b.obj && op == Instruction::Sub) return mkint(w, a.c - b.c);
    if (a.k == PTR || b.k == PTR || a.k == CMP || b.k == CMP) unsup("arithmetic on a pointer or condition at " + loc(I));
    nops++;
    V x = toAbs(a), y = toAbs(b);
    if (op == Instruction::Shl && b.k == INT && b.c < 100) { y = mkint(128, (u128)1 << (int)b.c); y = toAbs(y); op = Instruction::Mul; y.k = ABS; }
    else if (op == Instruction::Shl) return lose(I, w, "shift by an abstract amount");
    if (op == Instruction::Add || op == Instruction::Sub) {
        if (x.f->space && y.f->space && x.f->space != y.f->space) return lose(I, w, "forms over different inputs are added");
        bool s = op == Instruction::Sub;
        return mkabs(I, w, comb(x.f, y.f, s), s ? x.lo - y.hi : x.lo + y.lo, s ? x.hi - y.lo : x.hi + y.hi);
    }
    if (op == Instruction::Mul) {
        i128 lo, hi;
        if (wrapm) lo = hi = 0;
        else {
            if (!small(x.lo) || !small(x.hi) || !small(y.lo) || !small(y.hi)) return lose(I, w, "product of large values");
            i128 p[4] = {x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi};
            lo = hi = p[0];
            for (i128 q : p) { if (q < lo) lo = q; if (q > hi) hi = q; }
        }
        if (!y.f->space) return mkabs(I, w, scale(x.f, y.f->k), lo, hi);
        if (!x.f->space) return mkabs(I, w, scale(y.f, x.f->k), lo, hi);
        if (x.f->space == 2 && y.f->space == 1) std::swap(x, y);
        if (x.f->space != 1 || y.f->space != 2) return lose(I, w, "product of forms that is not bilinear");
        auto f = std::make_shared<Form>();
        f->space = 3;
        f->c.resize(prods.size() + 1);
        f->c[prods.size()] = 1;
        prods.push_back({x.f, y.f});
        return mkabs(I, w, f, lo, hi);
    }
    return lose(I, w, std::string("operation ") + Instruction::getOpcodeName(op) + " on an abstract value");
}
static V join(const V &a, const V &b)
{
    if (a.k == LOST) return a;
    if (b.k == LOST) return b;
    if (a.k == UND) return b.k == UND ? a : lost(b.w, "undefined on one path");
    if (b.k == UND) return lost(a.w, "undefined on one path");
    if (a.k == PTR || b.k == PTR) {
        if (a.k == b.k && a.obj == b.obj && a.c == b.c) return a;
        unsup("pointer depends on an abstract value");
    }
    if (a.k == CMP || b.k == CMP) unsup("condition depends on an abstract condition");
    if (a.k == INT && b.k == INT && a.c == b.c) return a;
    V x = toAbs(a), y = toAbs(b);
    if (!eqF(x.f, y.f)) return lost(a.w, "two sides of a branch on a coefficient give incongruent values");
    V r = x;
    r.lo = std::min(x.lo, y.lo);
    r.hi = std::max(x.hi, y.hi);
    return r;
}

// ------------------------------------------------------------------ interpreter
struct FnInfo { std::unique_ptr<PostDominatorTree> pdt; std::unordered_map<const Value *, int> id; int n = 0; std::string name; };
static std::map<const Function *, FnInfo> infos;
static FnInfo &info(const Function *Fn)
{
    auto &i = infos[Fn];
    if (!i.pdt) {
        i.pdt = std::make_unique<PostDominatorTree>(*const_cast<Function *>(Fn));
        for (auto &A : Fn->args()) i.id[&A] = i.n++;
        for (auto &I : instructions(*Fn)) i.id[&I] = i.n++;
        if (auto *SP = Fn->getSubprogram()) {
            i.name = SP->getName().str();
            for (auto *S = SP->getScope(); S; S = S->getScope())
                if (isa<DINamespace>(S) || isa<DICompositeType>(S)) i.name = S->getName().str() + "::" + i.name;
        } else
            i.name = demangle(Fn->getName().str());
    }
    return i;
}
typedef std::vector<V> Env;
struct Frame { const Function *fn; FnInfo *in; Env e; };
static V call(const Function *Fn, const std::vector<V> &args, const Instruction *at);
static int newObj(int64_t size) { objs.emplace_back(); objs.back().size = size; return (int)objs.size() - 1; }

static V get(Frame &f, const Value *v)
{
    if (auto *C = dyn_cast<ConstantInt>(v)) {
        unsigned w = C->getBitWidth();
        if (w > 128) unsup("wide constant");
        u128 x = C->getValue().extractBitsAsZExtValue(std::min(64u, w), 0);
        if (w > 64) x |= (u128)C->getValue().extractBitsAsZExtValue(w - 64, 64) << 64;
        return mkint(w, x);
    }
    if (isa<ConstantPointerNull>(v)) return mkptr(0, 0);
    if (v->getType()->isAggregateType() && isa<Constant>(v)) {
        std::vector<std::pair<Type *, int64_t>> fs;
        flat(v->getType(), 0, fs);
        V r; r.k = AGG; r.ag = std::make_shared<std::vector<V>>();
        if (isa<UndefValue>(v) || isa<ConstantAggregateZero>(v))
            for (auto &x : fs) r.ag->push_back(isa<UndefValue>(v) ? V() : x.first->isPointerTy() ? mkptr(0, 0) : mkint(DL->getTypeSizeInBits(x.first), 0));
        else
            for (auto &o : cast<Constant>(v)->operands()) { V x = get(f, o); if (x.k == AGG) r.ag->insert(r.ag->end(), x.ag->begin(), x.ag->end()); else r.ag->push_back(x); }
        return r;
    }
    if (isa<UndefValue>(v)) { V u; u.w = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 64; return u; }
    if (auto *G = dyn_cast<GlobalVariable>(v)) {
        auto it = gobj.find(G);
        if (it == gobj.end()) { int o = newObj(DL->getTypeAllocSize(G->getValueType())); objs[o].g = G; it = gobj.insert({G, o}).first; }
        return mkptr(it->second, 0);
    }
    if (auto *CE = dyn_cast<ConstantExpr>(v)) {
        if (auto *GO = dyn_cast<GEPOperator>(CE)) {
            APInt off(64, 0);
            if (GO->accumulateConstantOffset(*DL, off)) { V b = get(f, GO->getPointerOperand()); b.c = (u64)b.c + off.getSExtValue(); return b; }
        }
        unsup("constant expression");
    }
    if (isa<ConstantFP>(v)) { V x; x.k = FP; return x; }
    auto it = f.in->id.find(v);
    if (it == f.in->id.end()) unsup("operand");
    return f.e[it->second];
}
static bool cmpInt(unsigned p, const V &a, const V &b)
{
    i128 x = sx(a), y = sx(b);
    switch (p) {
    case CmpInst::ICMP_EQ: return a.c == b.c;
    case CmpInst::ICMP_NE: return a.c != b.c;
    case CmpInst::ICMP_UGT: return a.c > b.c;
    case CmpInst::ICMP_UGE: return a.c >= b.c;
    case CmpInst::ICMP_ULT: return a.c < b.c;
    case CmpInst::ICMP_ULE: return a.c <= b.c;
    case CmpInst::ICMP_SGT: return x > y;
    case CmpInst::ICMP_SGE: return x >= y;
    case CmpInst::ICMP_SLT: return x < y;
    case CmpInst::ICMP_SLE: return x <= y;
    }
    unsup("predicate");
}
static int decide(unsigned p, i128 lo, i128 hi, i128 r)   // 1, 0 or -1 (both possible)
{
    switch (p) {
    case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: return lo > r ? 1 : hi <= r ? 0 : -1;
    case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: return lo >= r ? 1 : hi < r ? 0 : -1;
    case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: return hi < r ? 1 : lo >= r ? 0 : -1;
    case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: return hi <= r ? 1 : lo > r ? 0 : -1;
    case CmpInst::ICMP_EQ: return lo == hi && lo == r ? 1 : (r < lo || r > hi) ? 0 : -1;
    case CmpInst::ICMP_NE: return lo == hi && lo == r ? 0 : (r < lo || r > hi) ? 1 : -1;
    }
    return -1;
}
static V icmp(const ICmpInst *I, V a, V b)
{
    unsigned p = I->getPredicate();
    if (a.k == LOST || b.k == LOST) return a.k == LOST ? a : b;
    if (a.k == INT && b.k == INT) return mkint(1, cmpInt(p, a, b));
    if (a.k == PTR && b.k == PTR) {
        if (a.obj == b.obj) return mkint(1, cmpInt(p, mkint(64, a.c), mkint(64, b.c)));
        if (p == CmpInst::ICMP_EQ) return mkint(1, 0);
        if (p == CmpInst::ICMP_NE) return mkint(1, 1);
        unsup("pointer comparison");
    }
    const Value *on = I->getOperand(0);
    if (a.k == INT && b.k == ABS) { std::swap(a, b); p = ICmpInst::getSwappedPredicate((CmpInst::Predicate)p); on = I->getOperand(1); }
    if (a.k == ABS && b.k == ABS && b.lo == b.hi) { b = mkint(b.w, (u128)b.lo); }
    if (a.k != ABS || b.k != INT) return lose(I, 1, "comparison of two abstract values");
    bool uns = ICmpInst::isUnsigned((CmpInst::Predicate)p);
    if (uns && a.lo < 0) return lose(I, 1, "unsigned comparison of a value that may be negative");
    i128 r = uns ? (i128)b.c : sx(b);
    int d = decide(p, a.lo, a.hi, r);
    if (d >= 0) return mkint(1, d);
    V v; v.k = CMP; v.w = 1; v.pred = p; v.on = on; v.rhs = r;
    return v;
}
static V refine(const V &v, unsigned p, i128 r, bool truth)
{
    V x = v;
    if (x.k != ABS) return x;
    if (!truth) p = CmpInst::getInversePredicate((CmpInst::Predicate)p);
    switch (p) {
    case CmpInst::ICMP_SGT: case CmpInst::ICMP_UGT: x.lo = std::max(x.lo, r + 1); break;
    case CmpInst::ICMP_SGE: case CmpInst::ICMP_UGE: x.lo = std::max(x.lo, r); break;
    case CmpInst::ICMP_SLT: case CmpInst::ICMP_ULT: x.hi = std::min(x.hi, r - 1); break;
    case CmpInst::ICMP_SLE: case CmpInst::ICMP_ULE: x.hi = std::min(x.hi, r); break;
    case CmpInst::ICMP_EQ: x.lo = x.hi = r; break;
    case CmpInst::ICMP_NE: if (x.lo == r) x.lo++; if (x.hi == r) x.hi--; break;
    }
    return x;
}
// the compared value and the values it is a sign or zero extension of
static void refineEnv(Frame &f, const V &c, bool truth)
{
    const Value *v = c.on;
    while (v) {
        auto it = f.in->id.find(v);
        if (it == f.in->id.end()) break;
        f.e[it->second] = refine(f.e[it->second], c.pred, c.rhs, truth);
        for (auto *U : v->users())
            if (auto *C = dyn_cast<CastInst>(U))
                if (C->getFunction() == f.fn && f.e[f.in->id[C]].k == ABS && (isa<SExtInst>(C) || isa<ZExtInst>(C) || isa<TruncInst>(C)))
                    f.e[f.in->id[C]] = refine(f.e[f.in->id[C]], c.pred, c.rhs, truth);
        if (isa<SExtInst>(v) || isa<ZExtInst>(v)) v = cast<CastInst>(v)->getOperand(0);
        else break;
    }
}
static V evalInst(Frame &f, const Instruction *I);

struct Stop { const BasicBlock *from = nullptr; bool returned = false; V ret; bool joined = false; std::vector<V> phis; };
static Stop run(Frame &f, const BasicBlock *B, const BasicBlock *prev, const BasicBlock *stop, bool skipPhis);

static void joinArms(Frame &f, const Instruction *T, const V &c, const BasicBlock *B1, const BasicBlock *B2, const BasicBlock *J, Stop &out, const BasicBlock *cur)
{
    nfork++;
    Env base = f.e;
    auto *outer = logp;
    std::vector<Undo> lg[2];
    std::vector<std::pair<std::pair<int, int64_t>, std::pair<bool, Cell>>> now[2];
    std::vector<V> phis[2];
    Stop st[2];
    for (int a = 0; a < 2; a++) {
        logp = &lg[a];
        f.e = base;
        refineEnv(f, c, a == 0);
        const BasicBlock *S = a == 0 ? B1 : B2;
        if (S == J) { st[a].from = cur; }
        else st[a] = run(f, S, cur, J, false);
        if (st[a].joined) phis[a] = st[a].phis;
        else if (J && !st[a].returned)
            for (auto &P : J->phis()) phis[a].push_back(get(f, P.getIncomingValueForBlock(st[a].from)));
        std::set<std::pair<int, int64_t>> seen;
        for (auto &u : lg[a])
            if (seen.insert({u.o, u.off}).second) {
                auto it = objs[u.o].cells.find(u.off);
                now[a].push_back({{u.o, u.off}, {it != objs[u.o].cells.end(), it != objs[u.o].cells.end() ? it->second : Cell{}}});
            }
        logp = nullptr;
        for (auto it = lg[a].rbegin(); it != lg[a].rend(); ++it)
            if (it->had) objs[it->o].cells[it->off] = it->old;
            else objs[it->o].cells.erase(it->off);
    }
    logp = outer;
    f.e = base;
    std::map<std::pair<int, int64_t>, std::pair<bool, Cell>> m[2];
    for (int a = 0; a < 2; a++) for (auto &x : now[a]) m[a][x.first] = x.second;
    std::set<std::pair<int, int64_t>> keys;
    for (int a = 0; a < 2; a++) for (auto &x : m[a]) keys.insert(x.first);
    for (auto &k : keys) {
        std::pair<bool, Cell> x[2];
        for (int a = 0; a < 2; a++) {
            auto it = m[a].find(k);
            if (it != m[a].end()) x[a] = it->second;
            else { auto j = objs[k.first].cells.find(k.second); x[a] = {j != objs[k.first].cells.end(), j != objs[k.first].cells.end() ? j->second : Cell{}}; }
        }
        if (!x[0].first && !x[1].first) { put(k.first, k.second, nullptr); continue; }
        if (x[0].first != x[1].first) { put(k.first, k.second, x[0].first ? &x[0].second : &x[1].second); continue; }  // local of one side
        Cell j{join(x[0].second.v, x[1].second.v), x[0].second.bytes};
        put(k.first, k.second, &j);
    }
    if (st[0].returned != st[1].returned) unsup("one side of an abstract branch returns");
    if (st[0].returned) { out.returned = true; out.ret = T->getFunction()->getReturnType()->isVoidTy() ? V() : join(st[0].ret, st[1].ret); return; }
    int i = 0;
    for (auto &P : J->phis()) { f.e[f.in->id[&P]] = join(phis[0][i], phis[1][i]); i++; }
    out.from = nullptr;
}

static Stop run(Frame &f, const BasicBlock *B, const BasicBlock *prev, const BasicBlock *stop, bool skipPhis)
{
    for (;;) {
        if (B == stop) { Stop s; s.from = prev; return s; }
        if (!skipPhis && prev) {
            std::vector<std::pair<int, V>> t;
            for (auto &P : B->phis()) t.push_back({f.in->id[&P], get(f, P.getIncomingValueForBlock(prev))});
            for (auto &x : t) f.e[x.first] = x.second;
        }
        skipPhis = false;
        const BasicBlock *next = nullptr;
        for (auto &I : *B) {
            if (isa<PHINode>(I)) continue;
            if (++steps > 2000000000ull) unsup("step limit");
            if (auto *R = dyn_cast<ReturnInst>(&I)) {
                Stop s; s.returned = true;
                if (R->getReturnValue()) s.ret = get(f, R->getReturnValue());
                return s;
            }
            if (auto *Br = dyn_cast<BranchInst>(&I)) {
                if (!Br->isConditional()) { next = Br->getSuccessor(0); break; }
                V c = get(f, Br->getCondition());
                if (c.k == INT) { next = Br->getSuccessor(c.c ? 0 : 1); break; }
                if (c.k == LOST) unsup("branch on a value that is not known: " + *c.why);
                if (c.k != CMP) unsup("branch condition at " + loc(Br));
                auto *N = (*f.in->pdt)[const_cast<BasicBlock *>(B)];
                const BasicBlock *J = N && N->getIDom() ? N->getIDom()->getBlock() : nullptr;
                Stop o;
                joinArms(f, Br, c, Br->getSuccessor(0), Br->getSuccessor(1), J, o, B);
                if (o.returned) return o;
                if (J == stop) {
                    Stop s; s.joined = true;
                    for (auto &P : J->phis()) s.phis.push_back(f.e[f.in->id[&P]]);
                    return s;
                }
                next = J; skipPhis = true;
                break;
            }
            if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                V c = get(f, Sw->getCondition());
                if (c.k != INT) unsup("switch on an abstract value");
                next = Sw->getDefaultDest();
                for (auto &cs : Sw->cases()) if (cs.getCaseValue()->getZExtValue() == (u64)c.c) next = cs.getCaseSuccessor();
                break;
            }
            if (auto *Iv = dyn_cast<InvokeInst>(&I)) { f.e[f.in->id[&I]] = evalInst(f, &I); next = Iv->getNormalDest(); break; }
            if (isa<UnreachableInst>(I)) unsup("unreachable code is reached at " + loc(&I));
            f.e[f.in->id[&I]] = evalInst(f, &I);
        }
        prev = B;
        B = next;
    }
}

static V gep(Frame &f, const GetElementPtrInst *G)
{
    V b = get(f, G->getPointerOperand());
    if (b.k == LOST) return b;
    if (b.k != PTR) unsup("address");
    int64_t off = (int64_t)b.c;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        V i = get(f, it.getOperand());
        if (i.k != INT) unsup("index depends on a coefficient at " + loc(G));
        if (auto *S = it.getStructTypeOrNull()) off += DL->getStructLayout(S)->getElementOffset((unsigned)i.c);
        else off += (int64_t)sx(i) * (int64_t)DL->getTypeAllocSize(it.getIndexedType());
    }
    b.c = (u64)off;
    return b;
}
static V selectV(Frame &f, const SelectInst *S, const V &c)
{
    V r[2];
    for (int a = 0; a < 2; a++) {
        Env base = f.e;
        refineEnv(f, c, a == 0);
        const Value *v = a == 0 ? S->getTrueValue() : S->getFalseValue();
        if (auto *B = dyn_cast<BinaryOperator>(v)) r[a] = evalInst(f, B);
        else r[a] = get(f, v);
        f.e = base;
    }
    return join(r[0], r[1]);
}
static V castV(const Instruction *I, V a, unsigned w)
{
    if (a.k == LOST || a.k == UND) { a.w = w; return a; }
    unsigned op = I->getOpcode();
    if (a.k == INT) {
        if (op == Instruction::SExt) return mkint(w, (u128)sx(a));
        return mkint(w, a.c);
    }
    if (a.k != ABS) unsup("conversion at " + loc(I));
    if (op == Instruction::SExt) {
        if (!wrapm && a.lo >= 0 && a.hi >= (i128)1 << (a.w - 1)) return lose(I, w, "sign extension of a large unsigned value");
        a.w = w; return a;
    }
    if (op == Instruction::ZExt) {
        if (!wrapm && a.lo < 0) { if (!a.part) a.zx = a.w; a.part = true; a.w = w; return a; }
        a.w = w; return a;
    }
    if (op == Instruction::Trunc && a.zx && w <= (unsigned)a.zx) { a.zx = 0; a.part = false; return mkabs(I, w, a.f, a.lo, a.hi); }
    if (op == Instruction::Trunc && M >> 32 && a.w == 64 && w >= 8) { a.w = w; a.part = true; return a; }
    if (op == Instruction::Trunc) return mkabs(I, w, a.f, a.lo, a.hi);
    unsup("conversion");
}

// ------------------------------------------------------------------ contracts
static V derefp(const V &p, const Instruction *at, LLVMContext &C) { return load(p, Type::getInt64Ty(C), at); }
static V ring(const V &v)   // an element of Z/M held in a 64 bit word
{
    V r = v;
    if (v.k == INT) { r.k = ABS; r.f = konst((u64)(v.c % M)); }
    r.w = 64; r.lo = 0; r.hi = ((i128)1 << 64) - 1;
    return r;
}
static V unring(const V &v) { return v.k == ABS && !v.f->space ? mkint(64, v.f->k) : v; }
static bool contract(const Function *Fn, const std::string &n, const std::vector<V> &a, const Instruction *at, V &res)
{
    if (witness || wrapm) return false;
    LLVMContext &C = Fn->getContext();
    const std::string T = "cuHEpp::INTorus::";
    if (n.compare(0, T.size(), T) == 0) {
        std::string op = n.substr(T.size());
        if (op == "INTorus" && a.size() == 3) {
            if (a[2].k != INT) return false;
            V x = a[1];
            if (x.k == LOST) { store(a[0], x, 8); res = V(); return true; }
            if (x.k != INT && x.k != ABS) return false;
            V r = ring(x);
            if (x.k == INT) r = (a[2].c & 1) ? unring(r) : x;
            store(a[0], r, 8);
            used[n]++;
            res = V();
            return true;
        }
        bool asg = op == "operator+=";
        if (op == "operator+" || op == "operator-" || op == "operator*" || asg) {
            if (a.size() != 2 || a[0].k != PTR || a[1].k != PTR) return false;
            V x = derefp(a[0], at, C), y = derefp(a[1], at, C);
            V r;
            if (x.k == LOST) r = x;
            else if (y.k == LOST) r = y;
            else if ((x.k != INT && x.k != ABS) || (y.k != INT && y.k != ABS)) return false;
            else if (x.k == INT && y.k == INT) {
                u64 p = (u64)(x.c % M), q = (u64)(y.c % M);
                r = mkint(64, op == "operator-" ? msub(p, q) : op == "operator*" ? mmul(p, q) : madd(p, q));
            }
            else {
                V p = ring(x), q = ring(y);
                p.lo = p.hi = q.lo = q.hi = 0;
                bool w = wrapm; wrapm = true;
                r = arith(at, op == "operator-" ? Instruction::Sub : op == "operator*" ? Instruction::Mul : Instruction::Add, p, q, 64);
                wrapm = w;
                if (r.k == ABS) r = unring(ring(r));
            }
            used[n]++;
            if (asg) { store(a[0], r, 8); res = a[0]; }
            else res = r;
            return true;
        }
        if (op == "operator<<") {
            if (a.size() != 2 || a[1].k != INT) return false;
            if (a[1].c > 191) { res = lose(at, 64, "shift by " + show((i128)a[1].c) + " is outside the range of INTorus::operator<<"); return true; }
            V x = derefp(a[0], at, C);
            if (x.k == LOST) { res = x; return true; }
            if (x.k != INT && x.k != ABS) return false;
            V p = ring(x);
            p.f = scale(p.f, mpow(2, (u64)a[1].c));
            res = unring(p);
            used[n]++;
            return true;
        }
        return false;
    }
    if (n == "raintt::SREDC" && a.size() == 1 && WB && a[0].k == ABS) {
        V x = a[0];
        i128 R = (i128)1 << WB, h = R / 2;
        x.f = scale(x.f, mpow(mpow(2, WB), M - 2));
        i128 l = x.lo - (i128)M * (h - 1), u = x.hi + (i128)M * h;
        auto fl = [&](i128 v) { return v >= 0 ? v / R : -((-v + R - 1) / R); };
        auto ce = [&](i128 v) { return v >= 0 ? (v + R - 1) / R : -((-v) / R); };
        i128 lo = ce(l), hi = fl(u);
        used[n]++;
        res = mkabs(at, Fn->getReturnType()->getIntegerBitWidth(), x.f, lo, hi);
        return true;
    }
    return false;
}
static u64 rnd(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

static int depth = 0;
static V call(const Function *Fn, const std::vector<V> &args, const Instruction *at)
{
    std::string sym = Fn->getName().str();
    if (sym.rfind("__vf_in", 0) == 0) {
        int g = (int)args[0].c, i = (int)args[1].c;
        i128 lo = sx(args[2]), hi = sx(args[3]);
        unsigned w = Fn->getReturnType()->getIntegerBitWidth();
        inrange[{g, i}] = {lo, hi};
        if (witness) {
            u64 r = rnd(seed * 1000003 + g * 7919 + i);
            i128 v;
            switch (seed % 4) {
            case 0: v = r % 8 == 0 ? lo : r % 8 == 1 ? hi : lo + (i128)((u128)rnd(r) % (u128)(hi - lo + 1)); break;
            case 1: v = r & 1 ? hi : lo; break;
            case 2: v = hi - (i128)(r % 3 ? 0 : 1); break;
            default: v = lo + (i128)((u128)r % (u128)(hi - lo + 1));
            }
            inval[{g, i}] = v;
            return mkint(w, (u128)v);
        }
        auto f = std::make_shared<Form>();
        f->space = g;
        f->c.resize(i + 1);
        f->c[i] = 1;
        V v; v.k = ABS; v.w = w; v.f = f; v.lo = lo; v.hi = hi;
        return v;
    }
    if (sym.rfind("__vf_out", 0) == 0) { results[(int)args[0].c] = args[1]; return V(); }
    if (sym == "__vf_mod") { M = (u64)args[0].c; WB = (unsigned)args[1].c; wrapm = M == 0; return V(); }
    if (Fn->isDeclaration()) {
        if (sym.rfind("llvm.lifetime", 0) == 0 || sym.rfind("llvm.dbg", 0) == 0 || sym == "llvm.assume" || sym.rfind("llvm.invariant", 0) == 0 || sym.rfind("llvm.experimental.noalias", 0) == 0) return V();
        if (sym.rfind("llvm.expect", 0) == 0) return args[0];
        if (sym.rfind("llvm.memset", 0) == 0) {
            if (args[2].k != INT || args[1].k != INT || args[0].k != PTR) unsup("memset");
            int64_t n = (int64_t)args[2].c, o = (int64_t)args[0].c, i = 0;
            clearRange(args[0].obj, o, n);
            u64 b = (u64)args[1].c & 255;
            for (; i + 8 <= n; i += 8) { Cell c{mkint(64, b * 0x0101010101010101ull), 8}; put(args[0].obj, o + i, &c); }
            for (; i < n; i++) { Cell c{mkint(8, b), 1}; put(args[0].obj, o + i, &c); }
            return V();
        }
        if (sym.rfind("llvm.memcpy", 0) == 0 || sym.rfind("llvm.memmove", 0) == 0 || sym == "memmove" || sym == "memcpy") {
            if (args[2].k != INT) unsup("memcpy");
            copyMem(args[0], args[1], (int64_t)args[2].c);
            return args[0];
        }
        if (sym.rfind("_Znw", 0) == 0 || sym.rfind("_Zna", 0) == 0 || sym == "malloc" || sym == "aligned_alloc") return mkptr(newObj(-1), 0);
        if (sym.rfind("_Zdl", 0) == 0 || sym.rfind("_Zda", 0) == 0 || sym == "free") return V();
        if (sym == "__assert_fail") { assertion = loc(at); unsup("assertion fails at " + loc(at)); }
        unsup("call of " + demangle(sym) + " at " + loc(at));
    }
    FnInfo &in = info(Fn);
    V r;
    if (contract(Fn, in.name, args, at, r)) return r;
    if (depth > 200) unsup("recursion");
    visited.insert(Fn);
    Frame f{Fn, &in, Env(in.n)};
    int i = 0;
    for (auto &a : args) if (i < (int)Fn->arg_size()) f.e[i++] = a;
    depth++;
    Stop s = run(f, &Fn->getEntryBlock(), nullptr, nullptr, false);
    depth--;
    return s.ret;
}
static V evalInst(Frame &f, const Instruction *I)
{
    unsigned w = I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : 64;
    if (auto *B = dyn_cast<BinaryOperator>(I)) {
        if (!I->getType()->isIntegerTy()) unsup("floating point");
        V a = get(f, B->getOperand(0)), b = get(f, B->getOperand(1));
        if (I->getOpcode() == Instruction::Xor && a.k == CMP && b.k == INT && b.c == 1) { a.pred = CmpInst::getInversePredicate((CmpInst::Predicate)a.pred); return a; }
        return arith(I, I->getOpcode(), a, b, w);
    }
    if (auto *C = dyn_cast<ICmpInst>(I)) {
        V a = get(f, C->getOperand(0)), b = get(f, C->getOperand(1));
        return icmp(C, a, b);
    }
    switch (I->getOpcode()) {
    case Instruction::SExt: case Instruction::ZExt: case Instruction::Trunc: {
        V a = get(f, I->getOperand(0));
        if (a.k == CMP) unsup("condition used as a number at " + loc(I));
        return castV(I, a, w);
    }
    case Instruction::ExtractValue: case Instruction::InsertValue: {
        bool ex = I->getOpcode() == Instruction::ExtractValue;
        Type *T = I->getOperand(0)->getType();
        auto idx = ex ? cast<ExtractValueInst>(I)->getIndices() : cast<InsertValueInst>(I)->getIndices();
        std::vector<std::pair<Type *, int64_t>> fs;
        unsigned at = 0;
        for (unsigned i : idx) {
            for (unsigned j = 0; j < i; j++) { fs.clear(); flat(T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType(), 0, fs); at += fs.size(); }
            T = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
        }
        fs.clear(); flat(T, 0, fs);
        V a = get(f, I->getOperand(0));
        if (a.k != AGG) unsup("aggregate value at " + loc(I));
        if (ex && !T->isAggregateType()) return (*a.ag)[at];
        V r; r.k = AGG;
        if (ex) { r.ag = std::make_shared<std::vector<V>>(a.ag->begin() + at, a.ag->begin() + at + fs.size()); return r; }
        V x = get(f, I->getOperand(1));
        r.ag = std::make_shared<std::vector<V>>(*a.ag);
        for (unsigned j = 0; j < fs.size(); j++) (*r.ag)[at + j] = x.k == AGG ? (*x.ag)[j] : x;
        return r;
    }
    case Instruction::Freeze: return get(f, I->getOperand(0));
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return get(f, I->getOperand(0));
    case Instruction::PtrToInt: { V a = get(f, I->getOperand(0)); if (a.k != PTR) unsup("ptrtoint"); return a; }
    case Instruction::Alloca: return mkptr(newObj(DL->getTypeAllocSize(cast<AllocaInst>(I)->getAllocatedType())), 0);
    case Instruction::Load: return load(get(f, I->getOperand(0)), I->getType(), I);
    case Instruction::Store: {
        V v = get(f, I->getOperand(0));
        if (v.k == CMP) unsup("condition stored at " + loc(I));
        if (v.k == AGG) {
            std::vector<std::pair<Type *, int64_t>> fs;
            flat(I->getOperand(0)->getType(), 0, fs);
            V p = get(f, I->getOperand(1));
            for (unsigned i = 0; i < fs.size(); i++) { V q = p; q.c += (u128)(u64)fs[i].second; store(q, (*v.ag)[i], DL->getTypeStoreSize(fs[i].first)); }
            return V();
        }
        store(get(f, I->getOperand(1)), v, DL->getTypeStoreSize(I->getOperand(0)->getType()));
        return V();
    }
    case Instruction::GetElementPtr: return gep(f, cast<GetElementPtrInst>(I));
    case Instruction::Select: {
        V c = get(f, I->getOperand(0));
        if (c.k == INT) return get(f, I->getOperand(c.c ? 1 : 2));
        if (c.k == CMP) return selectV(f, cast<SelectInst>(I), c);
        if (c.k == LOST) { c.w = w; return c; }
        unsup("select");
    }
    case Instruction::Call: case Instruction::Invoke: {
        auto *C = cast<CallBase>(I);
        auto *Fn = C->getCalledFunction();
        if (!Fn) unsup("indirect call at " + loc(I));
        if (Fn->getName().starts_with("llvm.dbg")) return V();
        std::vector<V> a;
        for (auto &x : C->args()) {
            if (x->getType()->isMetadataTy()) continue;
            V v = get(f, x);
            if (v.k == CMP) unsup("condition passed at " + loc(I));
            if (C->isByValArgument(&x - C->arg_begin())) {
                int o = newObj(-1);
                copyMem(mkptr(o, 0), v, DL->getTypeAllocSize(C->getParamByValType(&x - C->arg_begin())));
                v = mkptr(o, 0);
            }
            a.push_back(v);
        }
        if (Fn->isIntrinsic()) {
            auto id = Fn->getIntrinsicID();
            if (id == Intrinsic::umin || id == Intrinsic::umax || id == Intrinsic::smin || id == Intrinsic::smax) {
                if (a[0].k != INT || a[1].k != INT) return lose(I, w, "minimum of abstract values");
                bool l = (id == Intrinsic::umin || id == Intrinsic::umax) ? a[0].c < a[1].c : sx(a[0]) < sx(a[1]);
                bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
                return l == mn ? a[0] : a[1];
            }
        }
        V r = call(Fn, a, I);
        if (r.k == INT && I->getType()->isIntegerTy()) r.w = w;
        return r;
    }
    }
    unsup(std::string(I->getOpcodeName()) + " at " + loc(I));
}

static u64 minv(u64 a) { return mpow(a, M - 2); }
static std::string verdict(std::string &detail)
{
    int N = results.size();
    for (auto &o : results)
        if (o.second.k == LOST) { detail = *o.second.why; return "lost"; }
    if (witness) return "witness";
    auto at = [](const F &f, size_t i) { return i < f->c.size() ? f->c[i] : 0; };
    if (wrapm) {   // inverse after forward: every output is the same multiple of its own input
        u64 s = 0;
        for (int k = 0; k < N; k++) {
            V v = toAbs(results[k]);
            if (v.k != ABS) { detail = "output " + std::to_string(k) + " is not a form"; return "lost"; }
            u64 m = v.w >= 64 ? ~0ull : ((1ull << v.w) - 1);
            if (k == 0) s = at(v.f, 0) & m;
            if (!s || (s & (s - 1))) { detail = "output 0 is " + std::to_string(s) + " times input 0"; return "refuted"; }
            for (int j = 0; j < N; j++)
                if ((at(v.f, j) & m) != (j == k ? s : 0)) {
                    detail = "coefficient of input " + std::to_string(j) + " in output " + std::to_string(k) + " is " + std::to_string(at(v.f, j) & m) + ", specified " + std::to_string(j == k ? s : 0);
                    return "refuted";
                }
            if (v.f->k & m) { detail = "constant term in output " + std::to_string(k); return "refuted"; }
        }
        detail = "every output is " + std::to_string(s) + " times its input";
        return "proved";
    }
    // pointwise products of evaluations at the N distinct roots of X^N + 1, interpolated back
    if ((int)prods.size() != N) { detail = std::to_string(prods.size()) + " pointwise products for " + std::to_string(N) + " coefficients"; return "refuted"; }
    std::set<u64> roots;
    std::vector<u64> r(N), ab(N);
    for (int i = 0; i < N; i++) {
        u64 al[2];
        for (int s = 0; s < 2; s++) {
            const F &f = s ? prods[i].second : prods[i].first;
            u64 a0 = at(f, 0), a1 = at(f, 1);
            if (!a0 || f->k) { detail = "value " + std::to_string(i) + " of the transform does not depend on the first coefficient"; return "refuted"; }
            u64 q = mmul(a1, minv(a0));
            if (s == 0) r[i] = q;
            else if (q != r[i]) { detail = "position " + std::to_string(i) + " multiplies values at two different points"; return "refuted"; }
            u64 x = a0;
            for (int p = 0; p < N; p++, x = mmul(x, q))
                if (at(f, p) != x) {
                    detail = "value " + std::to_string(i) + " of the transform of factor " + std::to_string(s + 1) + " is not the value of the polynomial at one point: the weight of coefficient " + std::to_string(p) + " is " +
                             std::to_string(at(f, p)) + ", specified " + std::to_string(x);
                    return "refuted";
                }
            if (madd(mpow(q, N), 1) != 0) { detail = "position " + std::to_string(i) + " evaluates at a point that is no root of X^N+1"; return "refuted"; }
            al[s] = a0;
        }
        ab[i] = mmul(al[0], al[1]);
        if (!roots.insert(r[i]).second) { detail = "two positions evaluate at the same root"; return "refuted"; }
    }
    for (int k = 0; k < N; k++) {
        V v = toAbs(results[k]);
        if (v.k != ABS || (v.f->space != 3)) { detail = "output " + std::to_string(k) + " is not a combination of the products"; return "refuted"; }
        for (int i = 0; i < N; i++) {
            u64 want = minv(mmul(mmul(ab[i], (u64)N), mpow(r[i], k)));
            if (at(v.f, i) != want) {
                detail = "output " + std::to_string(k) + " weighs product " + std::to_string(i) + " by " + std::to_string(at(v.f, i)) + ", specified " + std::to_string(want);
                return "refuted";
            }
        }
        if (v.f->k) { detail = "constant term in output " + std::to_string(k); return "refuted"; }
    }
    detail = "values at " + std::to_string(N) + " distinct roots of X^N+1, multiplied and interpolated";
    return "proved";
}
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c == '\n' ? ' ' : c; } return r; }

int main(int argc, char **argv)
{
    if (argc < 3) return 2;
    LLVMContext C;
    SMDiagnostic E;
    auto Mo = parseIRFile(argv[1], E, C);
    if (!Mo) { E.print("modarith", errs()); return 2; }
    DL = &Mo->getDataLayout();
    PassBuilder PB;
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM;
    FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
    FPM.addPass(EarlyCSEPass(false));
    for (auto &Fn : *Mo) {
        if (Fn.isDeclaration()) continue;
        Fn.removeFnAttr(Attribute::OptimizeNone);
        std::vector<InvokeInst *> inv;
        for (auto &BB : Fn) if (auto *II = dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(II);
        for (auto *II : inv) changeToCall(II);
        removeUnreachableBlocks(Fn);
        FPM.run(Fn, FAM);
    }
    if (std::string(argv[2]) == "print") {   // the functions named, after promotion of locals
        for (auto &Fn : *Mo)
            for (int i = 3; i < argc; i++) {
                std::string d = demangle(Fn.getName().str());
                if (!Fn.isDeclaration() && d.compare(0, strlen(argv[i]), argv[i]) == 0) { llvm::outs() << "; NAME " << d << "\n"; Fn.print(llvm::outs()); }
            }
        return 0;
    }
    const Function *root = Mo->getFunction(argv[2]);
    if (!root) { llvm::outs() << "{\"status\": \"unknown\", \"why\": \"root not found\"}\n"; return 0; }
    if (argc > 4) { witness = true; seed = strtoull(argv[4], 0, 10); }
    std::string st, why;
    try {
        call(root, {}, &*root->getEntryBlock().begin());
        st = verdict(why);
        if (witness) {
            int N = results.size();
            st = "agree";
            if (M) {
                std::vector<u64> want(N, 0);
                for (int i = 0; i < N; i++)
                    for (int j = 0; j < N; j++) {
                        u64 p = mmul(mred(inval[{1, i}]), mred(inval[{2, j}]));
                        int k = (i + j) % N;
                        want[k] = i + j < N ? madd(want[k], p) : msub(want[k], p);
                    }
                for (int k = 0; k < N; k++) {
                    V v = results[k];
                    u64 m = v.w >= 64 ? ~0ull : ((1ull << v.w) - 1);
                    if (v.k == LOST) { st = "unknown"; why = *v.why; break; }
                    if (v.k != INT || (mred(sx(v)) != want[k] && ((u64)v.c & m) != (want[k] & m))) {
                        st = "differs"; why = "output " + std::to_string(k) + " is " + show(sx(v)) + ", specified " + std::to_string(want[k]) + " modulo " + std::to_string(M); break;
                    }
                }
            }
        }
    } catch (Unsupported &u) { st = assertion.empty() ? "unknown" : "assertion"; why = u.s; }
    llvm::outs() << "{\"status\": \"" << st << "\", \"why\": \"" << esc(why) << "\", \"steps\": " << steps << ", \"abstract_operations\": " << nops << ", \"forks\": " << nfork << ", \"lost\": " << nlost
                 << ", \"first_lost\": \"" << esc(firstLost) << "\", \"products\": " << prods.size() << ", \"contracts\": {";
    bool c1 = true;
    for (auto &u : used) { llvm::outs() << (c1 ? "" : ", ") << "\"" << esc(u.first) << "\": " << u.second; c1 = false; }
    llvm::outs() << "}, \"functions\": [";
    c1 = true;
    for (auto *Fn : visited) { std::string n = infos[Fn].name; if (n.find("std::") != std::string::npos && n.rfind("std::", 0) == 0) continue; llvm::outs() << (c1 ? "" : ", ") << "\"" << esc(n) << "\""; c1 = false; }
    i128 lo = 0, hi = 0;
    for (auto &o : results) if (o.second.k == ABS) { lo = std::min(lo, o.second.lo); hi = std::max(hi, o.second.hi); }
    llvm::outs() << "], \"range\": \"[" << show(lo) << ", " << show(hi) << "]\"}\n";
    return 0;
}
