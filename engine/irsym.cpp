// Symbolic interpreter of LLVM IR with bit-precise integers, bytes and IEEE
// doubles.  It executes vp_main() of a module made of a harness and the library
// sources; inputs are SMT bit-vectors, branches on them fork, and every check
// is decided by the solver for all inputs of the path.
//
//   irsym MODULE.bc OUT.json BUDGET_S JOBS
#include "llvm/ADT/SmallString.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include <z3++.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
using std::string;
typedef uint64_t u64;

static z3::context Z;
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;

static u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }

// a scalar (concrete up to 64 bits, or an expression) or an aggregate
struct Val {
    unsigned w = 0; bool conc = true; u64 v = 0;
    std::shared_ptr<z3::expr> e;
    std::vector<Val> agg;
    Val() {}
    Val(unsigned w_, u64 x) : w(w_), v(x & maskw(w_)) {}
    explicit Val(const z3::expr& x) : w(x.get_sort().bv_size()) {
        z3::expr s = x.simplify();
        uint64_t t;
        if (w <= 64 && s.is_numeral_u64(t)) { v = t; }
        else { conc = false; e = std::make_shared<z3::expr>(s); }
    }
    z3::expr ex() const { return conc ? Z.bv_val((uint64_t) v, w) : *e; }
    int64_t sv() const { if (w >= 64) return (int64_t) v; u64 s = 1ull << (w - 1); return (int64_t) ((v ^ s) - s); }
};
static Val fromBool(const z3::expr& b) { return Val(z3::ite(b, Z.bv_val(1, 1), Z.bv_val(0, 1))); }
static z3::expr isTrue(const Val& v) { return v.ex() != Z.bv_val(0, v.w); }

struct Obj {
    u64 base = 0, size = 0; bool writable = true, freed = false; string name;
    std::vector<uint8_t> b; std::map<u64, z3::expr> sym;
    // words stored as a whole, to read them back as they are
    std::map<u64, z3::expr> words;
    void clobber(u64 off, u64 n) {
        auto it = words.lower_bound(off > 32 ? off - 32 : 0);
        while (it != words.end() && it->first < off + n) {
            if (it->first + it->second.get_sort().bv_size() / 8 > off) it = words.erase(it); else ++it;
        }
    }
};
struct Frame {
    Function* F; BasicBlock* bb; BasicBlock* prev = nullptr; BasicBlock::iterator ip;
    std::unordered_map<const Value*, Val> r;
    std::vector<u64> allocas;
    CallBase* site = nullptr;
};
struct Stop { string why; };                // engine limitation
struct Crash { string what; };              // the code under test misbehaves
struct Done {};
struct Pruned {};

struct State {
    std::vector<Frame> fr;
    std::map<u64, std::shared_ptr<Obj>> mem;
    u64 next = 0x10000000;
    std::vector<z3::expr> pc;
    std::vector<std::pair<string, z3::expr>> in;       // inputs in order
    std::map<string, int> names;
    std::vector<std::pair<string, std::vector<z3::expr>>> bytes;
    int depth = 0; long steps = 0; bool overflow = true;
    std::set<string> reached;
    std::shared_ptr<z3::model> model;       // some inputs of this path
    string uniq(const string& n) { int& k = names[n]; string s = n; if (k++) s += "#" + std::to_string(k); return s; }
};

// ---- results -----------------------------------------------------------------
static long npaths, nkilled, nforks, nqueries, nproved, ntrivial, nunkb, nunkc, ntimeouts, maxdepth;
static double solver_s;
static std::map<string, std::pair<long, long>> fns, checks;
static std::map<string, long> reach;
static std::vector<string> errors, viols, samples;
static double budget;
static auto t0 = std::chrono::steady_clock::now();
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

static std::map<const GlobalValue*, u64> gaddr;
static std::map<u64, Function*> faddr;
static std::map<u64, std::shared_ptr<Obj>> gpristine;

static bool usesfp = false;
static z3::check_result query(State& S, const z3::expr& c, z3::model* m = nullptr) {
    double t = now();
    // doubles need the general solver, bit-vectors are bit-blasted
    z3::solver s = usesfp ? z3::solver(Z) : z3::tactic(Z, "qfbv").mk_solver();
    z3::params p(Z); p.set("timeout", usesfp ? 240000u : 60000u); s.set(p);
    for (auto& e : S.pc) s.add(e);
    s.add(c);
    ++nqueries;
    z3::check_result r = s.check();
    solver_s += now() - t;
    if (r == z3::sat && m) *m = s.get_model();
    return r;
}
static string inputs(State& S, z3::model& m) {
    std::ostringstream o;
    o << "inputs\n";
    for (auto& i : S.in) {
        z3::expr v = m.eval(i.second, true);
        uint64_t x = 0; v.is_numeral_u64(x);
        o << i.first << " " << (long long) (int64_t) x << "\n";
    }
    for (auto& h : S.bytes) {
        o << h.first << " ";
        for (auto& e : h.second) { uint64_t x = 0; m.eval(e, true).is_numeral_u64(x); char t[4]; snprintf(t, 4, "%02x", unsigned(x)); o << t; }
        o << "\n";
    }
    return o.str();
}

// ---- memory ------------------------------------------------------------------
static Obj* find(State& S, u64 a, bool write) {
    auto it = S.mem.upper_bound(a);
    if (it != S.mem.begin()) {
        --it;
        Obj* o = it->second.get();
        if (a >= o->base && (a < o->base + o->size || a == o->base)) {
            if (write && it->second.use_count() > 1) { it->second = std::make_shared<Obj>(*o); o = it->second.get(); }
            return o;
        }
    }
    auto g = gpristine.upper_bound(a);
    if (g != gpristine.begin()) {
        --g;
        Obj* o = g->second.get();
        if (a >= o->base && a < o->base + o->size) {
            if (o->name.size() && o->name[0] == '?') throw Stop{"access to external data " + o->name.substr(1)};
            if (!write) return o;
            S.mem[g->first] = std::make_shared<Obj>(*o);
            return S.mem[g->first].get();
        }
    }
    return nullptr;
}
static Obj* access(State& S, u64 a, u64 n, bool write) {
    Obj* o = find(S, a, write);
    if (!o || o->freed || a + n > o->base + o->size) {
        std::ostringstream m; m << (write ? "write" : "read") << " outside of any object";
        throw Crash{m.str()};
    }
    if (write && !o->writable) throw Crash{"write to constant data"};
    return o;
}
static u64 alloc(State& S, u64 n, const char* name) {
    auto o = std::make_shared<Obj>();
    o->base = S.next; o->size = n; o->b.assign(n, 0); o->name = name;
    S.next += (n + 63) / 32 * 32;
    S.mem[o->base] = o;
    return o->base;
}
static Val loadv(State& S, u64 a, unsigned bits) {
    u64 n = (bits + 7) / 8;
    Obj* o = access(S, a, n, false);
    u64 off = a - o->base;
    bool sym = false;
    auto wo = o->words.find(off);
    if (wo != o->words.end() && wo->second.get_sort().bv_size() == bits) return Val(wo->second);
    auto it = o->sym.lower_bound(off);
    if (it != o->sym.end() && it->first < off + n) sym = true;
    if (!sym && bits <= 64) {
        u64 v = 0;
        for (u64 i = 0; i < n; ++i) v |= (u64) o->b[off + i] << (8 * i);
        return Val(bits, v);
    }
    z3::expr e(Z);
    for (u64 i = 0; i < n; ++i) {
        auto k = o->sym.find(off + i);
        z3::expr b = k != o->sym.end() ? k->second : Z.bv_val((unsigned) o->b[off + i], 8);
        e = i ? z3::concat(b, e) : b;
    }
    if (n * 8 > bits) e = e.extract(bits - 1, 0);
    return Val(e);
}
static void storev(State& S, u64 a, const Val& v) {
    u64 n = (v.w + 7) / 8;
    Obj* o = access(S, a, n, true);
    u64 off = a - o->base;
    o->clobber(off, n);
    if (v.conc) {
        for (u64 i = 0; i < n; ++i) { o->b[off + i] = (uint8_t) (v.v >> (8 * i)); o->sym.erase(off + i); }
        return;
    }
    z3::expr e = v.ex();
    if (n * 8 > v.w) e = z3::zext(e, n * 8 - v.w);
    else if (n > 1) o->words.emplace(off, e);
    for (u64 i = 0; i < n; ++i) {
        Val b(e.extract(8 * i + 7, 8 * i));
        o->sym.erase(off + i);
        if (b.conc) o->b[off + i] = (uint8_t) b.v; else o->sym.emplace(off + i, b.ex());
    }
}
static void copyb(State& S, u64 d, u64 s, u64 n) {
    if (!n) return;
    Obj* so = access(S, s, n, false);
    std::vector<uint8_t> b(so->b.begin() + (s - so->base), so->b.begin() + (s - so->base) + n);
    std::map<u64, z3::expr> sy;
    for (auto it = so->sym.lower_bound(s - so->base); it != so->sym.end() && it->first < s - so->base + n; ++it)
        sy.emplace(it->first - (s - so->base), it->second);
    std::map<u64, z3::expr> wd;
    for (auto& w : so->words) if (w.first >= s - so->base && w.first + w.second.get_sort().bv_size() / 8 <= s - so->base + n) wd.emplace(w.first - (s - so->base), w.second);
    Obj* o = access(S, d, n, true);
    o->clobber(d - o->base, n);
    for (u64 i = 0; i < n; ++i) { o->b[d - o->base + i] = b[i]; o->sym.erase(d - o->base + i); }
    for (auto& k : sy) o->sym.emplace(d - o->base + k.first, k.second);
    for (auto& k : wd) o->words.emplace(d - o->base + k.first, k.second);
}
static unsigned bitsOf(Type* t) {
    if (t->isPointerTy()) return 64;
    return (unsigned) DL->getTypeSizeInBits(t).getFixedValue();
}
static Val loadT(State& S, u64 a, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) {
        Val r; const StructLayout* l = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) r.agg.push_back(loadT(S, a + l->getElementOffset(i), st->getElementType(i)));
        return r;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        Val r;
        for (u64 i = 0; i < n; ++i) r.agg.push_back(loadT(S, a + i * DL->getTypeAllocSize(et), et));
        return r;
    }
    return loadv(S, a, bitsOf(t));
}
static void storeT(State& S, u64 a, const Val& v, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) {
        const StructLayout* l = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) storeT(S, a + l->getElementOffset(i), v.agg[i], st->getElementType(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        for (u64 i = 0; i < v.agg.size(); ++i) storeT(S, a + i * DL->getTypeAllocSize(et), v.agg[i], et);
        return;
    }
    storev(S, a, v);
}

// ---- constants ---------------------------------------------------------------
static Val cval(const Constant* c);
static Val zeroOf(Type* t) {
    Val r;
    if (auto* st = dyn_cast<StructType>(t)) { for (auto* e : st->elements()) r.agg.push_back(zeroOf(e)); return r; }
    if (t->isArrayTy()) { for (u64 i = 0; i < t->getArrayNumElements(); ++i) r.agg.push_back(zeroOf(t->getArrayElementType())); return r; }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) { for (u64 i = 0; i < vt->getNumElements(); ++i) r.agg.push_back(zeroOf(vt->getElementType())); return r; }
    return Val(bitsOf(t), 0);
}
static Val cval(const Constant* c) {
    if (auto* i = dyn_cast<ConstantInt>(c)) {
        if (i->getBitWidth() <= 64) return Val(i->getBitWidth(), i->getZExtValue());
        SmallString<64> s; i->getValue().toStringUnsigned(s);
        return Val(Z.bv_val(s.c_str(), i->getBitWidth()));
    }
    if (auto* f = dyn_cast<ConstantFP>(c)) {
        APInt a = f->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() > 64) return Val(64, 0);
        return Val(a.getBitWidth(), a.getZExtValue());
    }
    if (isa<ConstantPointerNull>(c)) return Val(64, 0);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto* g = dyn_cast<GlobalAlias>(c)) return cval(g->getAliasee());
    if (auto* g = dyn_cast<GlobalValue>(c)) {
        auto it = gaddr.find(g);
        if (it == gaddr.end()) throw Stop{"no address of " + g->getName().str()};
        return Val(64, it->second);
    }
    if (auto* a = dyn_cast<ConstantAggregate>(c)) { Val r; for (auto& o : a->operands()) r.agg.push_back(cval(cast<Constant>(o))); return r; }
    if (auto* d = dyn_cast<ConstantDataSequential>(c)) { Val r; for (unsigned i = 0; i < d->getNumElements(); ++i) r.agg.push_back(cval(d->getElementAsConstant(i))); return r; }
    if (auto* x = dyn_cast<ConstantExpr>(c)) {
        switch (x->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(x)->accumulateConstantOffset(*DL, off)) throw Stop{"constant address"};
                return Val(64, cval(x->getOperand(0)).v + off.getSExtValue());
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
                return Val(bitsOf(x->getType()), cval(x->getOperand(0)).v);
            case Instruction::Sub: return Val(bitsOf(x->getType()), cval(x->getOperand(0)).v - cval(x->getOperand(1)).v);
            case Instruction::Add: return Val(bitsOf(x->getType()), cval(x->getOperand(0)).v + cval(x->getOperand(1)).v);
            case Instruction::Trunc: return Val(bitsOf(x->getType()), cval(x->getOperand(0)).v);
            default: throw Stop{string("constant expression ") + x->getOpcodeName()};
        }
    }
    throw Stop{"constant"};
}
static Val get(Frame& f, Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return cval(c);
    auto it = f.r.find(v);
    if (it == f.r.end()) throw Stop{"value without definition in " + f.F->getName().str()};
    return it->second;
}

// ---- forks -------------------------------------------------------------------
static std::deque<State> work;
static void fork(State& S, const z3::expr& c, const std::function<void(State&)>& other) {
    // continue S with c, and a copy with the negation after `other`
    State T = S;
    T.pc.push_back(!c);
    other(T);
    ++T.depth;
    work.push_back(std::move(T));
    S.pc.push_back(c);
    ++S.depth; ++nforks;
    maxdepth = std::max(maxdepth, (long) S.depth);
}
// decide a condition; forks leave the other case to be re-executed from `redo`
static bool decide(State& S, const Val& v, const std::function<void(State&)>& redo) {
    if (v.conc) return v.v != 0;
    z3::expr c = isTrue(v);
    int side = -1;                           // the side taken by known inputs
    if (S.model) { z3::expr t = S.model->eval(c, true); if (t.is_true()) side = 1; else if (t.is_false()) side = 0; }
    z3::model m(Z);
    z3::check_result a = side == 1 ? z3::sat : query(S, c, &m);
    if (side != 1 && a == z3::sat && side != 0) S.model = std::make_shared<z3::model>(m);
    z3::check_result b = side == 0 ? z3::sat : query(S, !c, &m);
    if (a == z3::unknown || b == z3::unknown) ++nunkb;
    if (a == z3::unsat && b == z3::unsat) { ++nkilled; throw Pruned(); }
    if (a == z3::unsat) { S.pc.push_back(!c); return false; }
    if (b == z3::unsat) { S.pc.push_back(c); return true; }
    std::shared_ptr<z3::model> m1, m0;
    if (side == 1) m1 = S.model; else if (side == 0) m0 = S.model; else m1 = S.model;
    S.model = m0;
    fork(S, c, redo);
    S.model = m1;
    return true;
}
// make a value concrete, one path for every possible value
static u64 concretize(State& S, const Val& v, const std::function<void(State&)>& redo) {
    if (v.conc) return v.v;
    z3::model m(Z);
    z3::check_result r = query(S, Z.bool_val(true), &m);
    if (r == z3::unknown) throw Stop{"unknown value"};
    if (r == z3::unsat) { ++nkilled; throw Pruned(); }
    uint64_t x = 0;
    if (!m.eval(v.ex(), true).is_numeral_u64(x)) throw Stop{"value"};
    z3::expr c = v.ex() == Z.bv_val(x, v.w);
    S.model.reset();
    if (query(S, !c) != z3::unsat) fork(S, c, redo); else S.pc.push_back(c);
    return x;
}

// ---- checks ------------------------------------------------------------------
static void violation(State& S, const string& id, z3::model& m) {
    checks[id].second++;
    bool known = false;
    for (auto& v : viols) if (v.compare(0, 7 + id.size(), "check " + id + "\n") == 0) known = true;
    if (!known) viols.push_back("check " + id + "\n" + inputs(S, m));
}
static void docheck(State& S, const Val& v, const string& id) {
    if (v.conc) {
        if (v.v) { checks[id].first++; ++ntrivial; ++nproved; return; }
        z3::model m(Z);
        if (query(S, Z.bool_val(true), &m) == z3::sat) violation(S, id, m);
        throw Done();
    }
    z3::model m(Z);
    z3::check_result r = query(S, !isTrue(v), &m);
    if (r == z3::unsat) { checks[id].first++; ++nproved; return; }
    if (r == z3::unknown) { ++nunkc; return; }
    violation(S, id, m);
    S.model.reset();
    S.pc.push_back(isTrue(v));
    if (query(S, Z.bool_val(true)) == z3::unsat) throw Done();
}

// ---- floating point ----------------------------------------------------------
static z3::sort F64() { return Z.fpa_sort<64>(); }
static z3::expr fpx(const Val& v) { usesfp = true; return z3::expr(Z, Z3_mk_fpa_to_fp_bv(Z, v.ex(), F64())); }
static Val ofp(State& S, const z3::expr& e) {
    // the bit pattern of a result is a fresh vector tied to the value
    z3::expr s = e.simplify();
    z3::expr b = Z.bv_const(S.uniq("!fp" + std::to_string(nqueries)).c_str(), 64);
    z3::expr ieee(Z, Z3_mk_fpa_to_ieee_bv(Z, s));
    return Val(ieee);
}
static double dbl(const Val& v) { double d; u64 x = v.v; memcpy(&d, &x, 8); return d; }
static Val dval(double d) { u64 x; memcpy(&x, &d, 8); return Val(64, x); }

static Val fbin(State& S, unsigned op, const Val& a, const Val& b) {
    if (a.conc && b.conc) switch (op) {
        case Instruction::FAdd: return dval(dbl(a) + dbl(b));
        case Instruction::FSub: return dval(dbl(a) - dbl(b));
        case Instruction::FMul: return dval(dbl(a) * dbl(b));
        case Instruction::FDiv: return dval(dbl(a) / dbl(b));
        case Instruction::FRem: return dval(fmod(dbl(a), dbl(b)));
    }
    Z.set_rounding_mode(z3::RNE);
    z3::expr x = fpx(a), y = fpx(b);
    switch (op) {
        case Instruction::FAdd: return ofp(S, x + y);
        case Instruction::FSub: return ofp(S, x - y);
        case Instruction::FMul: return ofp(S, x * y);
        case Instruction::FDiv: return ofp(S, x / y);
    }
    throw Stop{"floating point operation"};
}
static Val rounded(State& S, unsigned id, const Val& a) {
    if (a.conc) return dval(id == Intrinsic::floor ? std::floor(dbl(a)) : id == Intrinsic::ceil ? std::ceil(dbl(a)) : std::trunc(dbl(a)));
    z3::expr rm(Z, id == Intrinsic::floor ? Z3_mk_fpa_rtn(Z) : id == Intrinsic::ceil ? Z3_mk_fpa_rtp(Z) : Z3_mk_fpa_rtz(Z));
    return ofp(S, z3::expr(Z, Z3_mk_fpa_round_to_integral(Z, rm, fpx(a))));
}
static Val fcmp(unsigned p, const Val& a, const Val& b) {
    if (p == FCmpInst::FCMP_TRUE) return Val(1, 1);
    if (p == FCmpInst::FCMP_FALSE) return Val(1, 0);
    const bool un = p & 8;
    if (a.conc && b.conc) {
        double x = dbl(a), y = dbl(b);
        bool nan = std::isnan(x) || std::isnan(y);
        if (nan) return Val(1, un);
        bool r = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y);
        if ((p & 7) == 7) r = true;
        return Val(1, r);
    }
    z3::expr x = fpx(a), y = fpx(b);
    z3::expr nan = z3::expr(Z, Z3_mk_fpa_is_nan(Z, x)) || z3::expr(Z, Z3_mk_fpa_is_nan(Z, y));
    z3::expr r = Z.bool_val(false);
    if (p & 1) r = r || z3::expr(Z, Z3_mk_fpa_eq(Z, x, y));
    if (p & 2) r = r || (x > y);
    if (p & 4) r = r || (x < y);
    if (un) r = r || nan;
    return fromBool(r);
}

// ---- integer operations ------------------------------------------------------
static Val ibin(unsigned op, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (a.conc && b.conc && w <= 64) {
        u64 x = a.v, y = b.v; int64_t sx = a.sv(), sy = b.sv();
        switch (op) {
            case Instruction::Add: return Val(w, x + y);
            case Instruction::Sub: return Val(w, x - y);
            case Instruction::Mul: return Val(w, x * y);
            case Instruction::And: return Val(w, x & y);
            case Instruction::Or: return Val(w, x | y);
            case Instruction::Xor: return Val(w, x ^ y);
            case Instruction::Shl: return Val(w, y >= w ? 0 : x << y);
            case Instruction::LShr: return Val(w, y >= w ? 0 : x >> y);
            case Instruction::AShr: return Val(w, y >= w ? (sx < 0 ? ~0ull : 0) : (u64) (sx >> y));
            case Instruction::UDiv: if (!y) throw Crash{"division by zero"}; return Val(w, x / y);
            case Instruction::URem: if (!y) throw Crash{"division by zero"}; return Val(w, x % y);
            case Instruction::SDiv: if (!y) throw Crash{"division by zero"}; if (sy == -1) return Val(w, 0 - x); return Val(w, (u64) (sx / sy));
            case Instruction::SRem: if (!y) throw Crash{"division by zero"}; if (sy == -1) return Val(w, 0); return Val(w, (u64) (sx % sy));
        }
    }
    z3::expr x = a.ex(), y = b.ex();
    switch (op) {
        case Instruction::Add: return Val(x + y);
        case Instruction::Sub: return Val(x - y);
        case Instruction::Mul: return Val(x * y);
        case Instruction::And: return Val(x & y);
        case Instruction::Or: return Val(x | y);
        case Instruction::Xor: return Val(x ^ y);
        case Instruction::Shl: return Val(z3::shl(x, y));
        case Instruction::LShr: return Val(z3::lshr(x, y));
        case Instruction::AShr: return Val(z3::ashr(x, y));
        case Instruction::UDiv: return Val(z3::udiv(x, y));
        case Instruction::URem: return Val(z3::urem(x, y));
        case Instruction::SDiv: return Val(x / y);
        case Instruction::SRem: return Val(z3::srem(x, y));
    }
    throw Stop{"integer operation"};
}
static Val icmp(unsigned p, const Val& a, const Val& b) {
    if (a.conc && b.conc && a.w <= 64) {
        u64 x = a.v, y = b.v; int64_t sx = a.sv(), sy = b.sv(); bool r = false;
        switch (p) {
            case ICmpInst::ICMP_EQ: r = x == y; break; case ICmpInst::ICMP_NE: r = x != y; break;
            case ICmpInst::ICMP_UGT: r = x > y; break; case ICmpInst::ICMP_UGE: r = x >= y; break;
            case ICmpInst::ICMP_ULT: r = x < y; break; case ICmpInst::ICMP_ULE: r = x <= y; break;
            case ICmpInst::ICMP_SGT: r = sx > sy; break; case ICmpInst::ICMP_SGE: r = sx >= sy; break;
            case ICmpInst::ICMP_SLT: r = sx < sy; break; case ICmpInst::ICMP_SLE: r = sx <= sy; break;
        }
        return Val(1, r);
    }
    z3::expr x = a.ex(), y = b.ex();
    switch (p) {
        case ICmpInst::ICMP_EQ: return fromBool(x == y); case ICmpInst::ICMP_NE: return fromBool(x != y);
        case ICmpInst::ICMP_UGT: return fromBool(z3::ugt(x, y)); case ICmpInst::ICMP_UGE: return fromBool(z3::uge(x, y));
        case ICmpInst::ICMP_ULT: return fromBool(z3::ult(x, y)); case ICmpInst::ICMP_ULE: return fromBool(z3::ule(x, y));
        case ICmpInst::ICMP_SGT: return fromBool(x > y); case ICmpInst::ICMP_SGE: return fromBool(x >= y);
        case ICmpInst::ICMP_SLT: return fromBool(x < y); case ICmpInst::ICMP_SLE: return fromBool(x <= y);
    }
    throw Stop{"comparison"};
}
static Val lanes(const Val& a, const Val& b, const std::function<Val(const Val&, const Val&)>& f) {
    if (a.agg.empty()) return f(a, b);
    Val r; for (size_t i = 0; i < a.agg.size(); ++i) r.agg.push_back(lanes(a.agg[i], b.agg[i], f));
    return r;
}
static Val selectv(const Val& c, const Val& a, const Val& b) {
    if (c.conc) return c.v ? a : b;
    if (!a.agg.empty()) { Val r; for (size_t i = 0; i < a.agg.size(); ++i) r.agg.push_back(selectv(c, a.agg[i], b.agg[i])); return r; }
    return Val(z3::ite(isTrue(c), a.ex(), b.ex()));
}
static string cstr(State& S, u64 a) {
    string r;
    for (;; ++a) { Val c = loadv(S, a, 8); if (!c.conc) throw Stop{"symbolic name"}; if (!c.v) return r; r += (char) c.v; }
}

// ---- calls -------------------------------------------------------------------
static bool retv(State& S, CallBase* cb, const Val& v) {
    Frame& f = S.fr.back();
    if (!cb->getType()->isVoidTy()) f.r[cb] = v;
    if (auto* iv = dyn_cast<InvokeInst>(cb)) { f.prev = f.bb; f.bb = iv->getNormalDest(); f.ip = f.bb->begin(); }
    else ++f.ip;
    return true;
}
static void enter(State& S, Function* F, const std::vector<Val>& args, CallBase* site) {
    if (S.fr.size() > 200) throw Stop{"call depth"};
    Frame n; n.F = F; n.bb = &F->getEntryBlock(); n.ip = n.bb->begin(); n.site = site;
    unsigned i = 0;
    for (Argument& a : F->args()) {
        Val v = args[i++];
        if (a.hasByValAttr()) { u64 sz = DL->getTypeAllocSize(a.getParamByValType()); u64 p = alloc(S, sz, "byval"); copyb(S, p, v.v, sz); v = Val(64, p); }
        n.r[&a] = v;
    }
    string dn = demangle(F->getName().str());
    if (dn.compare(0, 8, "diffpy::") == 0 || dn.find(" diffpy::") != string::npos) fns[dn].second = 1;
    S.fr.push_back(std::move(n));
}
static Val input(State& S, const string& name, unsigned w) {
    string n = S.uniq(name);
    z3::expr e = Z.bv_const(n.c_str(), w);
    S.in.push_back({n, w == 64 ? e : z3::sext(e, 64 - w)});
    return Val(e);
}
static void havoc(State& S, u64 a, u64 n, const string& name) {
    string id = S.uniq(name);
    std::vector<z3::expr> v;
    for (u64 i = 0; i < n; ) {
        u64 k = n - i >= 8 ? 8 : 1;         // whole words keep the formulas small
        z3::expr e = Z.bv_const((id + "[" + std::to_string(i) + "]").c_str(), 8 * k);
        for (u64 j = 0; j < k; ++j) v.push_back(e.extract(8 * j + 7, 8 * j));
        storev(S, a + i, Val(e));
        i += k;
    }
    S.bytes.push_back({id, v});
}

static void call(State& S, CallBase* cb) {
    Frame& f = S.fr.back();
    auto redo = [](State&) {};          // the copy re-executes this call
    Value* callee = cb->getCalledOperand()->stripPointerCasts();
    Function* F = dyn_cast<Function>(callee);
    if (auto* ga = dyn_cast<GlobalAlias>(callee)) F = dyn_cast<Function>(ga->getAliaseeObject());
    if (!F) {
        Val t = get(f, cb->getCalledOperand());
        u64 a = concretize(S, t, redo);
        auto it = faddr.find(a);
        if (it == faddr.end()) throw Crash{"call of an invalid function"};
        F = it->second;
    }
    std::vector<Val> A;
    string n = F->getName().str();
    if (n.compare(0, 9, "llvm.dbg.") == 0 || n.compare(0, 13, "llvm.lifetime") == 0 || n.compare(0, 12, "llvm.experim") == 0) { retv(S, cb, Val()); return; }
    for (Value* a : cb->args()) { if (a->getType()->isMetadataTy()) A.push_back(Val()); else A.push_back(get(f, a)); }
    auto C = [&](unsigned i) { return concretize(S, A[i], redo); };
    if (!F->isDeclaration()) { enter(S, F, A, cb); return; }
    if (F->isIntrinsic()) {
        Intrinsic::ID id = F->getIntrinsicID();
        switch (id) {
            case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: retv(S, cb, Val(64, 0)); return;
            case Intrinsic::expect: retv(S, cb, A[0]); return;
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
                u64 d = C(0), s = C(1), k = C(2); copyb(S, d, s, k); retv(S, cb, Val()); return; }
            case Intrinsic::memset: { u64 d = C(0), k = C(2); for (u64 i = 0; i < k; ++i) storev(S, d + i, A[1]); retv(S, cb, Val()); return; }
            case Intrinsic::umax: retv(S, cb, selectv(icmp(ICmpInst::ICMP_UGT, A[0], A[1]), A[0], A[1])); return;
            case Intrinsic::umin: retv(S, cb, selectv(icmp(ICmpInst::ICMP_ULT, A[0], A[1]), A[0], A[1])); return;
            case Intrinsic::smax: retv(S, cb, selectv(icmp(ICmpInst::ICMP_SGT, A[0], A[1]), A[0], A[1])); return;
            case Intrinsic::smin: retv(S, cb, selectv(icmp(ICmpInst::ICMP_SLT, A[0], A[1]), A[0], A[1])); return;
            case Intrinsic::abs: retv(S, cb, selectv(icmp(ICmpInst::ICMP_SLT, A[0], Val(A[0].w, 0)), ibin(Instruction::Sub, Val(A[0].w, 0), A[0]), A[0])); return;
            case Intrinsic::usub_sat: retv(S, cb, selectv(icmp(ICmpInst::ICMP_UGT, A[0], A[1]), ibin(Instruction::Sub, A[0], A[1]), Val(A[0].w, 0))); return;
            case Intrinsic::fabs: retv(S, cb, ibin(Instruction::And, A[0], Val(64, ~(1ull << 63)))); return;
            case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: retv(S, cb, rounded(S, id, A[0])); return;
            case Intrinsic::is_constant: retv(S, cb, Val(1, 0)); return;
            case Intrinsic::objectsize: retv(S, cb, Val(64, ~0ull)); return;
            case Intrinsic::trap: throw Crash{"trap"};
            case Intrinsic::fshl: {
                unsigned w = A[0].w; Val s = ibin(Instruction::URem, A[2], Val(w, w));
                if (!s.conc) throw Stop{"funnel shift"};
                retv(S, cb, s.v ? ibin(Instruction::Or, ibin(Instruction::Shl, A[0], s), ibin(Instruction::LShr, A[1], Val(w, w - s.v))) : A[0]); return; }
            case Intrinsic::uadd_with_overflow: { Val r; r.agg.push_back(ibin(Instruction::Add, A[0], A[1])); r.agg.push_back(icmp(ICmpInst::ICMP_ULT, r.agg[0], A[0])); retv(S, cb, r); return; }
            case Intrinsic::eh_typeid_for: retv(S, cb, Val(32, 1)); return;
            default: throw Stop{"intrinsic " + n};
        }
    }
    if (n == "floor" || n == "ceil" || n == "trunc") { retv(S, cb, rounded(S, n == "floor" ? Intrinsic::floor : n == "ceil" ? Intrinsic::ceil : Intrinsic::trunc, A[0])); return; }
    // harness interface
    if (n == "vp_symbits") { unsigned w = C(1); Val v = input(S, cstr(S, C(0)), w); retv(S, cb, w == 64 ? v : Val(z3::sext(v.ex(), 64 - w))); return; }
    if (n == "vp_symbyte") { Val v = input(S, cstr(S, C(0)), 8); retv(S, cb, Val(bitsOf(cb->getType()), 0).w == 8 ? v : Val(z3::zext(v.ex(), bitsOf(cb->getType()) - 8))); return; }
    if (n == "vp_choose") {
        string nm = S.uniq(cstr(S, C(0))); u64 k = C(1);
        if (!k) throw Stop{"empty choice"};
        CallBase* site = cb;
        for (u64 i = 1; i < k; ++i) {
            State T = S; T.in.push_back({nm, Z.bv_val((uint64_t) i, 64)}); retv(T, site, Val(32, i)); ++T.depth; ++nforks; work.push_back(std::move(T));
        }
        S.in.push_back({nm, Z.bv_val((uint64_t) 0, 64)});
        retv(S, cb, Val(32, 0)); return;
    }
    if (n == "vp_havoc") { u64 a = C(0), k = C(1); havoc(S, a, k, cstr(S, C(2))); retv(S, cb, Val()); return; }
    if (n == "vp_havoc_global") {
        string want = cstr(S, C(0)); u64 cnt = 0;
        for (auto& g : M->globals()) {
            if (g.isConstant() || g.isDeclaration()) continue;
            string dn = demangle(g.getName().str());
            if (dn.compare(0, want.size(), want)) continue;
            havoc(S, gaddr[&g], DL->getTypeAllocSize(g.getValueType()), "global:" + g.getName().str());
            ++cnt;
        }
        retv(S, cb, Val(32, cnt)); return;
    }
    if (n == "vp_assume") {
        if (A[0].conc) { if (!A[0].v) { ++nkilled; throw Pruned(); } }
        else { S.pc.push_back(isTrue(A[0])); S.model.reset(); if (query(S, Z.bool_val(true)) == z3::unsat) { ++nkilled; throw Pruned(); } }
        retv(S, cb, Val()); return;
    }
    if (n == "vp_check") { docheck(S, A[0], cstr(S, C(1))); retv(S, cb, Val()); return; }
    if (n == "vp_reach") { S.reached.insert(cstr(S, C(0))); retv(S, cb, Val()); return; }
    if (n == "vp_overflow") { S.overflow = C(0); retv(S, cb, Val()); return; }
    if (n == "vp_is_native") { retv(S, cb, Val(32, 0)); return; }
    // C and C++ library
    if (n == "_Znwm" || n == "_Znam" || n == "malloc") { u64 k = C(0); if (k > (1u << 24)) throw Crash{"huge allocation"}; u64 p = alloc(S, k, "heap"); retv(S, cb, Val(64, p)); return; }
    if (n == "_ZdlPv" || n == "_ZdaPv" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "free") {
        u64 p = C(0);
        if (p) { Obj* o = find(S, p, true); if (!o || o->freed || o->base != p) throw Crash{"invalid release of memory"}; o->freed = true; }
        retv(S, cb, Val()); return; }
    if (n == "memcpy" || n == "memmove") { u64 d = C(0), s = C(1), k = C(2); copyb(S, d, s, k); retv(S, cb, A[0]); return; }
    if (n == "memset") { u64 d = C(0), k = C(2); Val b = A[1].conc ? Val(8, A[1].v) : Val(A[1].ex().extract(7, 0)); for (u64 i = 0; i < k; ++i) storev(S, d + i, b); retv(S, cb, A[0]); return; }
    if (n == "strlen") {
        u64 a = C(0), i = 0;
        for (;; ++i) { Val c = loadv(S, a + i, 8); if (!c.conc) throw Stop{"length of symbolic text"}; if (!c.v) break; }
        retv(S, cb, Val(64, i)); return; }
    if (n == "memchr") {
        u64 a = C(0), k = C(2); Val c = A[1].conc ? Val(8, A[1].v) : Val(A[1].ex().extract(7, 0));
        Val r(64, 0);
        for (u64 i = k; i-- > 0; ) r = selectv(icmp(ICmpInst::ICMP_EQ, loadv(S, a + i, 8), c), Val(64, a + i), r);
        retv(S, cb, r); return; }
    if (n == "strchr") {
        u64 a = C(0), k = 0; Val c = A[1].conc ? Val(8, A[1].v) : Val(A[1].ex().extract(7, 0));
        for (;; ++k) { Val x = loadv(S, a + k, 8); if (!x.conc) throw Stop{"search in symbolic text"}; if (!x.v) break; }
        Val r(64, 0);
        for (u64 i = k + 1; i-- > 0; ) r = selectv(icmp(ICmpInst::ICMP_EQ, loadv(S, a + i, 8), c), Val(64, a + i), r);
        retv(S, cb, r); return; }
    if (n == "_ZNSt8ios_base4InitC1Ev") { retv(S, cb, Val()); return; }
    if (n == "memcmp" || n == "bcmp") {
        u64 a = C(0), b = C(1), k = C(2);
        Val r(32, 0);
        for (u64 i = k; i-- > 0; ) {
            Val x = loadv(S, a + i, 8), y = loadv(S, b + i, 8);
            r = selectv(icmp(ICmpInst::ICMP_EQ, x, y), r, selectv(icmp(ICmpInst::ICMP_ULT, x, y), Val(32, ~0ull), Val(32, 1)));
        }
        retv(S, cb, r); return; }
    if (n == "isspace" || n == "isdigit" || n == "isalpha" || n == "isupper" || n == "islower" || n == "isalnum") {
        Val c = A[0];
        auto in = [&](unsigned lo, unsigned hi) { return ibin(Instruction::And, icmp(ICmpInst::ICMP_SGE, c, Val(32, lo)), icmp(ICmpInst::ICMP_SLE, c, Val(32, hi))); };
        Val r(1, 0);
        if (n == "isspace") r = ibin(Instruction::Or, in(9, 13), in(32, 32));
        if (n == "isdigit" || n == "isalnum") r = ibin(Instruction::Or, r, in('0', '9'));
        if (n == "isupper" || n == "isalpha" || n == "isalnum") r = ibin(Instruction::Or, r, in('A', 'Z'));
        if (n == "islower" || n == "isalpha" || n == "isalnum") r = ibin(Instruction::Or, r, in('a', 'z'));
        retv(S, cb, selectv(r, Val(32, 1), Val(32, 0))); return; }
    if (n == "__cxa_atexit") { retv(S, cb, Val(32, 0)); return; }
    if (n == "__cxa_guard_acquire") { Val g = loadv(S, C(0), 8); retv(S, cb, selectv(icmp(ICmpInst::ICMP_EQ, g, Val(8, 0)), Val(32, 1), Val(32, 0))); return; }
    if (n == "__cxa_guard_release") { storev(S, C(0), Val(8, 1)); retv(S, cb, Val()); return; }
    if (n.find("__throw_") != string::npos || n == "__cxa_throw" || n == "__cxa_rethrow" || n == "abort" || n == "__assert_fail" || n == "_ZSt9terminatev")
        throw Crash{"exception or abort (" + demangle(n) + ")"};
    throw Stop{"external function " + demangle(n)};
}

// signed overflow is undefined: reported like any other crash
static void nooverflow(State& S, Instruction& I, const Val& a, const Val& b) {
    auto* o = dyn_cast<OverflowingBinaryOperator>(&I);
    if (!o || !o->hasNoSignedWrap() || a.w < 32 || !a.agg.empty() || !S.overflow) return;
    if (a.conc && b.conc) return;
    z3::expr ok(Z);
    z3::expr x = z3::sext(a.ex(), a.w), y = z3::sext(b.ex(), a.w), r(Z);
    switch (I.getOpcode()) {
        case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break;
        default: return;
    }
    ok = r == z3::sext(r.extract(a.w - 1, 0), a.w);
    Val v = fromBool(ok);
    if (v.conc && v.v) return;
    z3::model m(Z);
    if (query(S, !ok, &m) == z3::sat) { violation(S, "crash-signed-overflow", m); S.pc.push_back(ok); S.model.reset(); }
}

static void step(State& S) {
    Frame& f = S.fr.back();
    Instruction& I = *f.ip;
    ++S.steps;
    auto next = [&](const Val& v) { f.r[&I] = v; ++f.ip; };
    auto redo = [](State&) {};
    if (auto* p = dyn_cast<PHINode>(&I)) {
        // all phi nodes of the block take their values at once
        std::vector<std::pair<PHINode*, Val>> v;
        for (PHINode& q : f.bb->phis()) v.push_back({&q, get(f, q.getIncomingValueForBlock(f.prev))});
        for (auto& x : v) f.r[x.first] = x.second;
        f.ip = f.bb->getFirstNonPHIIt();
        (void) p;
        return;
    }
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
        Val x = get(f, b->getOperand(0)), y = get(f, b->getOperand(1));
        unsigned op = b->getOpcode();
        if (b->getType()->isFPOrFPVectorTy()) { if (!b->getType()->getScalarType()->isDoubleTy()) throw Stop{"float"}; next(lanes(x, y, [&](const Val& a, const Val& c) { return fbin(S, op, a, c); })); return; }
        if ((op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem) && y.agg.empty() && !y.conc) {
            z3::model m(Z);
            if (query(S, y.ex() == Z.bv_val(0, y.w), &m) == z3::sat) violation(S, "crash-division-by-zero", m);
        }
        nooverflow(S, I, x, y);
        next(lanes(x, y, [&](const Val& a, const Val& c) { return ibin(op, a, c); }));
        return;
    }
    switch (I.getOpcode()) {
        case Instruction::FNeg: { Val x = get(f, I.getOperand(0)); next(lanes(x, x, [](const Val& a, const Val&) { return ibin(Instruction::Xor, a, Val(64, 1ull << 63)); })); return; }
        case Instruction::ICmp: { unsigned p = cast<ICmpInst>(I).getPredicate(); next(lanes(get(f, I.getOperand(0)), get(f, I.getOperand(1)), [&](const Val& a, const Val& b) { return icmp(p, a, b); })); return; }
        case Instruction::FCmp: { if (!I.getOperand(0)->getType()->getScalarType()->isDoubleTy()) throw Stop{"float"}; unsigned p = cast<FCmpInst>(I).getPredicate(); next(lanes(get(f, I.getOperand(0)), get(f, I.getOperand(1)), [&](const Val& a, const Val& b) { return fcmp(p, a, b); })); return; }
        case Instruction::Select: {
            Val c = get(f, I.getOperand(0)), a = get(f, I.getOperand(1)), b = get(f, I.getOperand(2));
            if (!c.agg.empty()) { Val r; for (size_t i = 0; i < c.agg.size(); ++i) r.agg.push_back(selectv(c.agg[i], a.agg[i], b.agg[i])); next(r); return; }
            next(selectv(c, a, b)); return; }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
            unsigned w = bitsOf(I.getType()->getScalarType()), op = I.getOpcode(); Val x = get(f, I.getOperand(0));
            next(lanes(x, x, [&](const Val& a, const Val&) -> Val {
                if (a.conc && a.w <= 64 && w <= 64) return op == Instruction::SExt ? Val(w, (u64) a.sv()) : Val(w, a.v);
                if (op == Instruction::ZExt) return Val(z3::zext(a.ex(), w - a.w));
                if (op == Instruction::SExt) return Val(z3::sext(a.ex(), w - a.w));
                return Val(a.ex().extract(w - 1, 0)); }));
            return; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: next(get(f, I.getOperand(0))); return;
        case Instruction::BitCast: {
            Val x = get(f, I.getOperand(0));
            if (I.getType()->isVectorTy() != I.getOperand(0)->getType()->isVectorTy()) throw Stop{"vector cast"};
            next(x); return; }
        case Instruction::Freeze: next(get(f, I.getOperand(0))); return;
        case Instruction::SIToFP: case Instruction::UIToFP: {
            Val x = get(f, I.getOperand(0));
            if (!I.getType()->isDoubleTy()) throw Stop{"float"};
            bool sg = I.getOpcode() == Instruction::SIToFP;
            if (x.conc) { next(dval(sg ? (double) x.sv() : (double) x.v)); return; }
            z3::expr rm(Z, Z3_mk_fpa_rne(Z));
            next(ofp(S, z3::expr(Z, sg ? Z3_mk_fpa_to_fp_signed(Z, rm, x.ex(), F64()) : Z3_mk_fpa_to_fp_unsigned(Z, rm, x.ex(), F64())))); return; }
        case Instruction::FPToSI: {
            Val x = get(f, I.getOperand(0)); unsigned w = bitsOf(I.getType());
            if (!I.getOperand(0)->getType()->isDoubleTy()) throw Stop{"float"};
            if (x.conc) { next(Val(w, (u64) (int64_t) dbl(x))); return; }
            z3::expr rm(Z, Z3_mk_fpa_rtz(Z));
            next(Val(z3::expr(Z, Z3_mk_fpa_to_sbv(Z, rm, fpx(x), w)))); return; }
        case Instruction::Alloca: {
            auto& a = cast<AllocaInst>(I);
            u64 k = concretize(S, get(f, a.getArraySize()), redo) * DL->getTypeAllocSize(a.getAllocatedType());
            u64 p = alloc(S, k, "local"); f.allocas.push_back(p); next(Val(64, p)); return; }
        case Instruction::Load: { u64 a = concretize(S, get(f, I.getOperand(0)), redo); next(loadT(S, a, I.getType())); return; }
        case Instruction::Store: { u64 a = concretize(S, get(f, I.getOperand(1)), redo); storeT(S, a, get(f, I.getOperand(0)), I.getOperand(0)->getType()); ++f.ip; return; }
        case Instruction::AtomicRMW: {
            auto& r = cast<AtomicRMWInst>(I);
            u64 a = concretize(S, get(f, r.getPointerOperand()), redo); Val o = loadT(S, a, I.getType()), v = get(f, r.getValOperand());
            if (r.getOperation() == AtomicRMWInst::Add) v = ibin(Instruction::Add, o, v);
            else if (r.getOperation() == AtomicRMWInst::Sub) v = ibin(Instruction::Sub, o, v);
            else if (r.getOperation() != AtomicRMWInst::Xchg) throw Stop{"atomic operation"};
            storev(S, a, v); next(o); return; }
        case Instruction::GetElementPtr: {
            auto* g = cast<GEPOperator>(&I);
            Val a = get(f, g->getPointerOperand());
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                if (StructType* st = it.getStructTypeOrNull()) { a = ibin(Instruction::Add, a, Val(64, DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()))); continue; }
                Val i = get(f, it.getOperand());
                if (i.w < 64) i = i.conc ? Val(64, (u64) i.sv()) : Val(z3::sext(i.ex(), 64 - i.w));
                a = ibin(Instruction::Add, a, ibin(Instruction::Mul, i, Val(64, DL->getTypeAllocSize(it.getIndexedType()))));
            }
            next(a); return; }
        case Instruction::ExtractValue: { Val v = get(f, I.getOperand(0)); for (unsigned i : cast<ExtractValueInst>(I).indices()) { Val t = v.agg[i]; v = t; } next(v); return; }
        case Instruction::InsertValue: {
            auto& iv = cast<InsertValueInst>(I); Val v = get(f, I.getOperand(0)); Val* p = &v;
            for (unsigned i : iv.indices()) p = &p->agg[i];
            *p = get(f, I.getOperand(1)); next(v); return; }
        case Instruction::ExtractElement: { Val v = get(f, I.getOperand(0)), i = get(f, I.getOperand(1)); u64 k = concretize(S, i, redo); next(v.agg.at(k)); return; }
        case Instruction::InsertElement: { Val v = get(f, I.getOperand(0)), i = get(f, I.getOperand(2)); u64 k = concretize(S, i, redo); v.agg.at(k) = get(f, I.getOperand(1)); next(v); return; }
        case Instruction::ShuffleVector: {
            auto& sv = cast<ShuffleVectorInst>(I); Val a = get(f, I.getOperand(0)), b = get(f, I.getOperand(1)), r;
            for (int k : sv.getShuffleMask()) { if (k < 0) k = 0; r.agg.push_back(k < (int) a.agg.size() ? a.agg[k] : b.agg[k - a.agg.size()]); }
            next(r); return; }
        case Instruction::Br: {
            auto& b = cast<BranchInst>(I);
            unsigned k = 0;
            if (b.isConditional()) k = decide(S, get(f, b.getCondition()), redo) ? 0 : 1;
            f.prev = f.bb; f.bb = b.getSuccessor(k); f.ip = f.bb->begin(); return; }
        case Instruction::Switch: {
            auto& s = cast<SwitchInst>(I);
            Val v = get(f, s.getCondition());
            BasicBlock* to = s.getDefaultDest();
            // one fork per successor, not one per value
            std::vector<std::pair<BasicBlock*, Val>> by;
            for (auto& c : s.cases()) {
                if (c.getCaseSuccessor() == to) continue;
                Val eq = icmp(ICmpInst::ICMP_EQ, v, cval(c.getCaseValue()));
                bool have = false;
                for (auto& b : by) if (b.first == c.getCaseSuccessor()) { b.second = ibin(Instruction::Or, b.second, eq); have = true; }
                if (!have) by.push_back({c.getCaseSuccessor(), eq});
            }
            for (auto& b : by)
                if (decide(S, b.second, redo)) { to = b.first; break; }
            f.prev = f.bb; f.bb = to; f.ip = f.bb->begin(); return; }
        case Instruction::Call: case Instruction::Invoke: call(S, cast<CallBase>(&I)); return;
        case Instruction::Ret: {
            Val v; bool has = I.getNumOperands();
            if (has) v = get(f, I.getOperand(0));
            for (u64 a : f.allocas) S.mem.erase(a);
            CallBase* site = f.site;
            S.fr.pop_back();
            if (S.fr.empty()) throw Done();
            retv(S, site, v); return; }
        case Instruction::Unreachable: throw Crash{"unreachable code"};
        case Instruction::Fence: ++f.ip; return;
        default: throw Stop{string("instruction ") + I.getOpcodeName()};
    }
}

static void initGlobals() {
    u64 a = 0x1000;
    for (Function& F : *M) { gaddr[&F] = a; faddr[a] = &F; a += 16; }
    a = 0x4000000;
    for (auto& g : M->globals()) {
        u64 n = g.getValueType()->isSized() ? (u64) DL->getTypeAllocSize(g.getValueType()) : 8;
        gaddr[&g] = a;
        a += (n + 63) / 32 * 32;
    }
    for (auto& g : M->globals()) {
        u64 n = g.getValueType()->isSized() ? (u64) DL->getTypeAllocSize(g.getValueType()) : 8;
        auto o = std::make_shared<Obj>();
        o->base = gaddr[&g]; o->size = std::max<u64>(n, 1); o->b.assign(o->size, 0); o->name = g.getName().str();
        if (g.isDeclaration()) { o->name = "?" + o->name; gpristine[o->base] = o; continue; }
        const u64 base = o->base;
        State S; S.mem[base] = std::move(o);
        try { storeT(S, base, cval(g.getInitializer()), g.getValueType()); }
        catch (Stop&) { S.mem[base]->name = "?" + S.mem[base]->name; }
        o = S.mem[base];
        S.mem.clear();
        o->writable = !g.isConstant();
        gpristine[o->base] = o;
    }
}

static void explore(bool breadth, size_t limit) {
    while (!work.empty() && work.size() < limit) {
        if (now() > budget) { ntimeouts = (long) work.size(); break; }
        if (breadth && limit != ~0ul && work.size() > 1 && now() > 4) break;     // slow queries: share now
        State S = std::move(breadth ? work.front() : work.back());
        if (breadth) work.pop_front(); else work.pop_back();
        try {
            for (;;) { if (S.steps > 5000000) throw Stop{"too many steps"}; if ((S.steps & 1023) == 0 && now() > budget) { ++ntimeouts; throw Pruned(); } step(S); }
        }
        catch (Done&) {
            z3::model m(Z);
            z3::check_result r = query(S, Z.bool_val(true), &m);
            if (r == z3::sat) {
                ++npaths;
                for (auto& x : S.reached) reach[x]++;
                if (samples.size() < 12 && (npaths & (npaths - 1)) == 0) samples.push_back(inputs(S, m));
            } else ++nkilled;
        }
        catch (Pruned&) {}
        catch (Stop& s) {
            string w = s.why;
            if (S.fr.size()) w += " in " + demangle(S.fr.back().F->getName().str());
            if (errors.size() < 20 && std::find(errors.begin(), errors.end(), w) == errors.end()) errors.push_back(w);
        }
        catch (Crash& c) {
            z3::model m(Z);
            if (query(S, Z.bool_val(true), &m) == z3::sat) violation(S, "crash-" + c.what, m);
        }
        catch (z3::exception& e) { if (errors.size() < 20) errors.push_back(string("z3: ") + e.msg()); }
        catch (std::exception& e) { if (errors.size() < 20) errors.push_back(e.what()); }
    }
}

// ---- several processes -------------------------------------------------------
static void put(std::ostream& o, const string& s) { o << s.size() << ' ' << s << '\n'; }
static string gets_(std::istream& i) { size_t n = 0; i >> n; i.get(); string s(n, 0); i.read(&s[0], n); return s; }
static void share(int jobs, const string& base) {
    auto* next = (std::atomic<size_t>*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (next) std::atomic<size_t>(0);
    std::vector<State> roots(std::make_move_iterator(work.begin()), std::make_move_iterator(work.end()));
    work.clear();
    std::vector<pid_t> pid;
    for (int j = 0; j < jobs; ++j) {
        pid_t p = ::fork();
        if (p) { pid.push_back(p); continue; }
        npaths = nkilled = nforks = nqueries = nproved = ntrivial = nunkb = nunkc = ntimeouts = 0; solver_s = 0;
        fns.clear(); checks.clear(); reach.clear(); errors.clear(); viols.clear(); samples.clear();
        for (size_t k; (k = (*next)++) < roots.size(); ) { work.push_back(std::move(roots[k])); explore(false, ~0ul); work.clear(); }
        std::ofstream o(base + "." + std::to_string(j));
        for (long x : {npaths, nkilled, nforks, nqueries, nproved, ntrivial, nunkb, nunkc, ntimeouts, maxdepth}) o << x << ' ';
        o << solver_s << '\n';
        o << fns.size() << '\n'; for (auto& f : fns) put(o, f.first);
        o << checks.size() << '\n'; for (auto& f : checks) { put(o, f.first); o << f.second.first << ' ' << f.second.second << '\n'; }
        o << reach.size() << '\n'; for (auto& f : reach) { put(o, f.first); o << f.second << '\n'; }
        for (auto* v : {&errors, &viols, &samples}) { o << v->size() << '\n'; for (auto& x : *v) put(o, x); }
        o << "end\n";
        o.close();
        _exit(0);
    }
    for (int j = 0; j < jobs; ++j) {
        int st; waitpid(pid[j], &st, 0);
        const string fn = base + "." + std::to_string(j);
        std::ifstream i(fn);
        long c[10]; double t = 0;
        for (long& x : c) i >> x;
        i >> t;
        if (!i) { errors.push_back("a worker process failed"); continue; }
        npaths += c[0]; nkilled += c[1]; nforks += c[2]; nqueries += c[3]; nproved += c[4]; ntrivial += c[5]; nunkb += c[6]; nunkc += c[7]; ntimeouts += c[8]; maxdepth = std::max(maxdepth, c[9]); solver_s += t;
        size_t n;
        for (i >> n; n; --n) fns[gets_(i)].second = 1;
        for (i >> n; n; --n) { string k = gets_(i); long a, b; i >> a >> b; checks[k].first += a; checks[k].second += b; }
        for (i >> n; n; --n) { string k = gets_(i); long a; i >> a; reach[k] += a; }
        for (auto* v : {&errors, &viols, &samples})
            for (i >> n; n; --n) {
                string x = gets_(i);
                if (v == &samples && v->size() >= 12) continue;
                if (v != &samples) { bool dup = false; for (auto& y : *v) dup |= y.substr(0, y.find('\n')) == x.substr(0, x.find('\n')); if (dup) continue; }
                v->push_back(x);
            }
        string e; i >> e;
        if (e != "end") errors.push_back("result of a worker process is incomplete");
        i.close();
        unlink(fn.c_str());
    }
}

static string js(const string& s) {
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char t[8]; snprintf(t, 8, "\\u%04x", c); r += t; }
        else r += c;
    }
    return r + "\"";
}
template <class T> static string jl(const std::vector<T>& v) { string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + js(v[i]); return r + "]"; }

int main(int argc, char** argv) {
    SMDiagnostic err;
    M = parseIRFile(argv[1], err, LC);
    if (!M) { err.print("irsym", errs()); return 1; }
    DL = &M->getDataLayout();
    budget = atof(argv[3]);
    initGlobals();
    State S0;
    Function* mainf = M->getFunction("vp_main");
    if (!mainf) mainf = M->getFunction("_Z7vp_mainv");
    if (!mainf) { std::cerr << "no vp_main\n"; return 1; }
    // initializers of static data, as far as they are within reach
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
        if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, Function*>> ctors;
            for (auto& o : ca->operands()) if (auto* cs = dyn_cast<ConstantStruct>(o))
                if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
            std::stable_sort(ctors.begin(), ctors.end(), [](const std::pair<u64, Function*>& a, const std::pair<u64, Function*>& b) { return a.first < b.first; });
            for (auto& c : ctors) {
                S0.fr.clear(); S0.steps = 0;
                try { enter(S0, c.second, {}, nullptr); while (S0.steps < 1000000) step(S0); }
                catch (Done&) {} catch (Stop&) {} catch (Crash&) {} catch (z3::exception&) {} catch (std::exception&) {}
            }
            S0.fr.clear(); S0.steps = 0; work.clear();
        }
    fns.clear();
    enter(S0, mainf, {}, nullptr);
    work.push_back(std::move(S0));
    // the first forks in this process, the states they leave are shared out
    const int jobs = argc > 4 ? atoi(argv[4]) : 1;
    explore(true, jobs > 1 ? 3 * jobs : ~0ul);
    if (!work.empty() && !ntimeouts) share(jobs, string(argv[2]));
    for (auto& f : fns) f.second.first = 1;
    std::ofstream o(argv[2]);
    o << "{\"paths\":" << npaths << ",\"killed\":" << nkilled << ",\"forks\":" << nforks << ",\"queries\":" << nqueries
      << ",\"solver_s\":" << solver_s << ",\"checks_proved\":" << nproved << ",\"trivial\":" << ntrivial << ",\"fallbacks\":0"
      << ",\"unknown_branch\":" << nunkb << ",\"unknown_check\":" << nunkc << ",\"timeouts\":" << ntimeouts << ",\"nerr\":" << errors.size()
      << ",\"infeasible\":0,\"maxdepth\":" << maxdepth << ",\"wall_s\":" << now();
    o << ",\"functions\":{"; { bool c = false; for (auto& f : fns) { o << (c ? "," : "") << js(f.first) << ":[1,1]"; c = true; } } o << "}";
    o << ",\"checks\":{"; { bool c = false; for (auto& f : checks) { o << (c ? "," : "") << js(f.first) << ":[" << f.second.first << "," << f.second.second << "]"; c = true; } } o << "}";
    o << ",\"reach\":{"; { bool c = false; for (auto& f : reach) { o << (c ? "," : "") << js(f.first) << ":[" << f.second << "]"; c = true; } } o << "}";
    o << ",\"errors\":" << jl(errors) << ",\"violations\":" << jl(viols) << ",\"samples\":" << jl(samples) << "}\n";
    return 0;
}
