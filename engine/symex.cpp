// symex: path-exploring symbolic executor for LLVM bitcode (LLVM 18), real-arithmetic or FP mode.
#include <ucontext.h>
#include <sys/mman.h>
#include <exception>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/resource.h>
#include "solver.hpp"

using namespace llvm;

struct Val {
    enum K : uint8_t { UNDEF, I, E, R_, A } k = UNDEF;
    int w = 0;
    u128 i = 0;
    N e = nullptr;  // symbolic BV/Bool (or FP node in FP mode when k==E and fp)
    R r = nullptr;
    std::shared_ptr<std::vector<Val>> a;
    static Val mkI(u128 v, int w) { Val x; x.k = I; x.w = w; x.i = v & NodeCtx::mask(w); return x; }
    static Val mkE(N n) { Val x; if (n->op == O_CONST) return mkI(n->c, n->w); x.k = E; x.w = n->w; x.e = n; return x; }
    static Val mkR(R r) { Val x; x.k = R_; x.w = 64; x.r = r; return x; }
    static Val mkA(std::vector<Val> v) { Val x; x.k = A; x.a = std::make_shared<std::vector<Val>>(std::move(v)); return x; }
};
struct PathEnd { int why; std::string msg; };  // 0 normal/pruned, 1 error(violation), 2 unsupported
enum { PE_PRUNE = 0, PE_VIOL = 1, PE_UNSUP = 2, PE_DONE = 3, PE_ABORT = 4 };

struct ShEnt { Val v; unsigned sz; };
struct Obj {
    uint64_t base, size;
    std::vector<uint8_t> b;
    std::vector<uint8_t> init;
    std::map<uint64_t, ShEnt> sh;
    bool freed = false, ro = false;
    int kind = 0;  // 0 global 1 stack 2 heap
    std::string name;
};
struct Violation { std::string label, kind, detail; std::vector<std::pair<std::string, double>> inputs; bool exactModel; };

struct Engine {
    LLVMContext ctx;
    std::unique_ptr<Module> mod;
    const DataLayout* DL = nullptr;
    RealCtx rc;
    NodeCtx nc{rc};
    Solver sol{rc, nc};
    // options
    bool roots = false, fpMode = false; int fe = 11, fs = 53;
    long maxPaths = 20000; double timeLimit = 300, queryTimeout = 10, branchTimeout = 2; uint64_t seed = 1;
    bool checkDiv = false; bool forkSelect = true; bool verbose = false; long maxSteps = 400000000; int numericTries = 300;
    bool nraBranch = true;
    double t0;
    // path state
    std::vector<int> prefix; size_t pos = 0;
    std::vector<int> decisions;
    std::vector<std::vector<int>> work;
    std::vector<N> pc;
    std::set<N> pcSet;
    std::map<std::string, int> nameCount;
    struct Input { std::string name; int kind; int atom; N n; double fixed; };
    std::vector<Input> inputs;
    bool abortOk = false;
    std::string curLabel;
    long steps = 0, totalSteps = 0;
    // witness
    bool haveWit = false;
    std::map<std::string, double> witVals; int witSalt = 0;
    // results
    long pathsDone = 0, pathsPruned = 0, pathsAbort = 0, forks = 0, unkBranches = 0; 
    std::map<std::string, long> assertsProved, assertHow; std::map<std::string, long> reached; std::map<std::string,int> reachModel;
    std::vector<Violation> viol; std::map<std::string, int> violCount;
    std::vector<std::string> unknowns; std::vector<std::string> unsup; std::set<std::string> externs;
    std::map<std::string, long> assumptions;
    std::set<const BasicBlock*> bbSeen;
    bool incomplete = false; std::string incompleteWhy;

    // ---- memory
    std::map<uint64_t, std::unique_ptr<Obj>> objs;
    Obj* last = nullptr;
    uint64_t nextAddr = 0x10000;
    std::unordered_map<const GlobalValue*, uint64_t> gaddr;
    std::unordered_map<uint64_t, Function*> faddr;
    long uninitCount = 0;

    uint64_t allocObj(uint64_t size, int kind, const std::string& name, uint64_t align = 16) {
        if (align < 16) align = 16;
        nextAddr = (nextAddr + align - 1) / align * align;
        uint64_t base = nextAddr;
        nextAddr += size + 64;
        auto o = std::make_unique<Obj>();
        o->base = base; o->size = size; o->b.assign(size, 0xA5); o->init.assign(size, 0); o->kind = kind; o->name = name;
        objs[base] = std::move(o);
        return base;
    }
    Obj* find(uint64_t a) {
        if (last && a >= last->base && a < last->base + last->size) return last;
        auto it = objs.upper_bound(a);
        if (it == objs.begin()) return nullptr;
        --it;
        Obj* o = it->second.get();
        if (a < o->base + o->size || (a == o->base)) { last = o; return o; }
        return nullptr;
    }
    Obj* access(uint64_t a, uint64_t n, bool wr) {
        Obj* o = find(a);
        if (!o || a + n > o->base + o->size) memViol(std::string(wr ? "write" : "read") + " of " + std::to_string(n) + " bytes out of bounds" + (o ? " of object " + o->name + " size " + std::to_string(o->size) + " at offset " + std::to_string(a - o->base) : " (no object at address " + std::to_string(a) + ")"));
        if (o->freed) memViol(std::string(wr ? "write" : "read") + " after free (" + o->name + ")");
        return o;
    }
    void memViol(const std::string& m) { throw PathEnd{PE_VIOL, "memory: " + m}; }
    void eraseSh(Obj* o, uint64_t off, uint64_t n) {
        if (o->sh.empty()) return;
        auto it = o->sh.lower_bound(off >= 16 ? off - 16 : 0);
        while (it != o->sh.end() && it->first < off + n) {
            if (it->first + it->second.sz > off) {
                // partially overwritten BV shadow: split into bytes
                if ((it->first < off || it->first + it->second.sz > off + n) && it->second.v.k == Val::E && !fpMode) {
                    ShEnt se = it->second; uint64_t so = it->first;
                    it = o->sh.erase(it);
                    N wide = nc.zext(se.v.e, se.sz * 8);
                    for (unsigned k = 0; k < se.sz; k++) { uint64_t bo = so + k; if (bo < off || bo >= off + n) { N bn = nc.extract(wide, 8 * k, 8); if (bn->op == O_CONST) o->b[bo] = (uint8_t)bn->c; else o->sh[bo] = {Val::mkE(bn), 1}; } }
                    it = o->sh.lower_bound(off);
                    continue;
                }
                it = o->sh.erase(it);
            } else ++it;
        }
    }
    // scalar store
    void storeScalar(uint64_t addr, const Val& v, Type* ty) {
        unsigned n = DL->getTypeStoreSize(ty);
        Obj* o = access(addr, n, true);
        uint64_t off = addr - o->base;
        eraseSh(o, off, n);
        if (v.k == Val::UNDEF) { std::fill(o->init.begin() + off, o->init.begin() + off + n, 0); return; }
        std::fill(o->init.begin() + off, o->init.begin() + off + n, 1);
        if (v.k == Val::I) {
            u128 x = v.i;
            for (unsigned k = 0; k < n && k < 16; k++) o->b[off + k] = (uint8_t)(x >> (8 * k));
            return;
        }
        if (v.k == Val::R_) {
            if (v.r->isConst() || v.r->spec) {
                double d = v.r->spec ? (v.r->spec == PINF ? INFINITY : v.r->spec == NINF ? -INFINITY : NAN) : v.r->constVal().get_d();
                if (n == 8) { memcpy(&o->b[off], &d, 8); if (rc.fromDouble(d) == v.r) return; }
                else if (n == 4) { float f = d; memcpy(&o->b[off], &f, 4); }
            }
            o->sh[off] = {v, n};
            return;
        }
        if (v.k == Val::E) { o->sh[off] = {v, n}; return; }
        throw PathEnd{PE_UNSUP, "store kind"};
    }
    Val bytesToVal(Obj* o, uint64_t off, unsigned n, Type* ty) {
        if (ty->isDoubleTy()) { double d; memcpy(&d, &o->b[off], 8); return fpC(d); }
        if (ty->isFloatTy()) { float f; memcpy(&f, &o->b[off], 4); return fpC(f); }
        if (ty->isX86_FP80Ty()) { long double ld = 0; memcpy(&ld, &o->b[off], 10); return fpC((double)ld); }
        u128 x = 0;
        for (unsigned k = 0; k < n; k++) x |= (u128)o->b[off + k] << (8 * k);
        return Val::mkI(x, bits(ty));
    }
    Val fpC(double d) { if (fpMode) { Val v; v.k = Val::E; v.w = 64; v.e = nc.fcst(d); return v; } return Val::mkR(rc.fromDouble(d)); }
    int bits(Type* ty) { if (ty->isPointerTy()) return 64; return (int)DL->getTypeSizeInBits(ty); }
    Val loadScalar(uint64_t addr, Type* ty) {
        unsigned n = DL->getTypeStoreSize(ty);
        Obj* o = access(addr, n, false);
        uint64_t off = addr - o->base;
        if (!o->sh.empty()) {
            auto it = o->sh.find(off);
            if (it != o->sh.end() && it->second.sz == n) {
                Val v = it->second.v;
                if (v.k == Val::R_) return v;
                if (v.k == Val::E) { if (ty->isIntegerTy() && (int)ty->getIntegerBitWidth() < v.w) return Val::mkE(nc.extract(v.e, 0, ty->getIntegerBitWidth())); return v; }
                return v;
            }
            auto lo = o->sh.lower_bound(off >= 16 ? off - 16 : 0);
            bool ov = false;
            for (; lo != o->sh.end() && lo->first < off + n; ++lo) if (lo->first + lo->second.sz > off) ov = true;
            if (ov) {
                // assemble bytes
                N acc = nullptr;
                for (unsigned k = 0; k < n; k++) { N bn = byteAt(o, off + k); acc = acc ? nc.concat(bn, acc) : bn; }
                if (ty->isFloatingPointTy()) throw PathEnd{PE_UNSUP, "partial symbolic load as float"};
                int w = bits(ty);
                return Val::mkE(nc.extract(acc, 0, w));
            }
        }
        bool un = false;
        for (unsigned k = 0; k < n; k++) if (!o->init[off + k]) { un = true; break; }
        if (un && ty->isFloatingPointTy() && !fpMode) {
            bool all = true;
            for (unsigned k = 0; k < n; k++) if (o->init[off + k]) all = false;
            if (all) {
                Val v = newReal("uninit", false, -3, 3, true);
                assumptions["read of uninitialised floating-point memory (treated as arbitrary value)"]++;
                o->sh[off] = {v, n};
                std::fill(o->init.begin() + off, o->init.begin() + off + n, 1);
                return v;
            }
        }
        return bytesToVal(o, off, n, ty);
    }
    N byteAt(Obj* o, uint64_t off) {
        auto lo = o->sh.lower_bound(off >= 16 ? off - 16 : 0);
        for (; lo != o->sh.end() && lo->first <= off; ++lo)
            if (lo->first + lo->second.sz > off) {
                Val v = lo->second.v;
                if (v.k == Val::R_) {
                    if (v.r->isConst()) return nc.cst(o->b[off], 8);
                    throw PathEnd{PE_UNSUP, "byte access to symbolic real"};
                }
                N wide = nc.zext(v.e, lo->second.sz * 8);
                return nc.extract(wide, 8 * (off - lo->first), 8);
            }
        return nc.cst(o->b[off], 8);
    }
    Val load(uint64_t addr, Type* ty) {
        if (auto* st = dyn_cast<StructType>(ty)) {
            auto* sl = DL->getStructLayout(st);
            std::vector<Val> v;
            for (unsigned k = 0; k < st->getNumElements(); k++) v.push_back(load(addr + sl->getElementOffset(k), st->getElementType(k)));
            return Val::mkA(v);
        }
        if (auto* at = dyn_cast<ArrayType>(ty)) {
            std::vector<Val> v;
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for (uint64_t k = 0; k < at->getNumElements(); k++) v.push_back(load(addr + k * es, at->getElementType()));
            return Val::mkA(v);
        }
        if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
            std::vector<Val> v;
            uint64_t es = DL->getTypeStoreSize(vt->getElementType());
            for (uint64_t k = 0; k < vt->getNumElements(); k++) v.push_back(load(addr + k * es, vt->getElementType()));
            return Val::mkA(v);
        }
        return loadScalar(addr, ty);
    }
    void store(uint64_t addr, const Val& v, Type* ty) {
        if (ty->isAggregateType() || ty->isVectorTy()) {
            if (v.k == Val::UNDEF) return;
            if (auto* st = dyn_cast<StructType>(ty)) { auto* sl = DL->getStructLayout(st); for (unsigned k = 0; k < st->getNumElements(); k++) store(addr + sl->getElementOffset(k), (*v.a)[k], st->getElementType(k)); return; }
            Type* et = ty->isArrayTy() ? ty->getArrayElementType() : cast<FixedVectorType>(ty)->getElementType();
            uint64_t es = DL->getTypeAllocSize(et);
            for (size_t k = 0; k < v.a->size(); k++) store(addr + k * es, (*v.a)[k], et);
            return;
        }
        storeScalar(addr, v, ty);
    }
    void copyMem(uint64_t d, uint64_t s, uint64_t n) {
        if (!n || d == s) return;
        Obj* so = access(s, n, false);
        std::vector<uint8_t> b(so->b.begin() + (s - so->base), so->b.begin() + (s - so->base) + n), in(so->init.begin() + (s - so->base), so->init.begin() + (s - so->base) + n);
        std::vector<std::pair<uint64_t, ShEnt>> sh;
        uint64_t so_off = s - so->base;
        for (auto it = so->sh.lower_bound(so_off >= 16 ? so_off - 16 : 0); it != so->sh.end() && it->first < so_off + n; ++it) {
            if (it->first + it->second.sz <= so_off) continue;
            if (it->first < so_off || it->first + it->second.sz > so_off + n) {
                if (it->second.v.k == Val::E) { for (unsigned k = 0; k < it->second.sz; k++) { uint64_t bo = it->first + k; if (bo >= so_off && bo < so_off + n) sh.push_back({bo - so_off, {Val::mkE(nc.extract(nc.zext(it->second.v.e, it->second.sz * 8), 8 * k, 8)), 1}}); } continue; }
                throw PathEnd{PE_UNSUP, "partial copy of symbolic real"};
            }
            sh.push_back({it->first - so_off, it->second});
        }
        Obj* o = access(d, n, true);
        uint64_t off = d - o->base;
        eraseSh(o, off, n);
        std::copy(b.begin(), b.end(), o->b.begin() + off);
        std::copy(in.begin(), in.end(), o->init.begin() + off);
        for (auto& x : sh) o->sh[off + x.first] = x.second;
    }
    // ---- inputs / witness
    static double h01(const std::string& name, uint64_t salt) {
        uint64_t h = std::hash<std::string>()(name) ^ (salt * 0x9E3779B97F4A7C15ULL + 0x1234567);
        h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
        return (h >> 11) * (1.0 / 9007199254740992.0);
    }
    double sampleVar(const std::string& name, double lo, double hi, bool integer) {
        auto it = witVals.find(name);
        if (it != witVals.end()) return it->second;
        double u = h01(name, seed * 1000003ULL + witSalt);
        double v;
        if (integer) { v = lo + std::floor(u * (hi - lo + 1)); if (v > hi) v = hi; }
        else {
            v = lo + (hi - lo) * u;
            // a fraction of samples at simple values
            double u2 = h01(name + "!", seed * 77 + witSalt);
            if (witSalt > 0 && u2 < 0.15) v = u2 < 0.05 ? lo : u2 < 0.1 ? hi : (lo + hi) / 2;
            v = std::round(v * 4096) / 4096;
            if (v < lo) v = lo; if (v > hi) v = hi;
        }
        return v;
    }
    void newWitEpoch() { rc.newEpoch(); nc.newEpoch(); }
    void initEval() {
        rc.varValue = [this](int a) { Atom& at = rc.atoms[a]; return sampleVar(at.name, at.lo, at.hi, false); };
        nc.bvValue = [this](N n) { auto v = sampleVar(n->name, n->lo, n->hi, true); return (u128)(__int128)v; };
        nc.fpValue = [this](N n) { return sampleVar(n->name, n->lo, n->hi, false); };
    }
    bool evalB(N n) { if (fpMode) throw Unsupported("eval in fp mode"); return nc.eval(n) != 0; }
    bool witOkAll(const std::vector<N>& cs, bool strict) {
        for (N c : cs) { nc.nearTie = false; bool v = evalB(c); if (!v) return false; if (strict && nc.nearTie && c->op != O_REQ) { /* accept */ } }
        return true;
    }
    bool findWitness(const std::vector<N>& cs, int tries) {
        if (fpMode) return false;
        auto saveV = witVals; int saveS = witSalt;
        for (int t = 0; t < tries; t++) {
            if (t % 2 == 1 && !saveV.empty()) { witVals = saveV; // perturb: drop a few
                int drop = 1 + (int)(h01("drop", t + seed) * 3);
                for (int d = 0; d < drop && !witVals.empty(); d++) { auto it = witVals.begin(); std::advance(it, (size_t)(h01("pick" + std::to_string(d), t + seed) * witVals.size())); witVals.erase(it); }
            } else witVals.clear();
            witSalt = saveS + 1 + t;
            newWitEpoch();
            if (witOkAll(cs, true)) { freeze(); return true; }
        }
        witVals = saveV; witSalt = saveS;
        newWitEpoch();
        return false;
    }
    void freeze() {  // store current sampled values explicitly
        for (auto& in : inputs) { if (in.kind == 0) witVals[in.name] = rc.varValue(in.atom); else if (in.kind == 1) witVals[in.name] = (double)(__int128)nc.sx(nc.bvValue(in.n), in.n->w); }
    }
    void setModel(const Model& m) {
        for (auto& kv : m.real) witVals[rc.atoms[kv.first].name] = kv.second;
        for (auto& kv : m.bv) witVals[nc.all[kv.first]->name] = (double)(int64_t)(__int128)nc.sx(kv.second, nc.all[kv.first]->w);
        for (auto& kv : m.fp) witVals[nc.all[kv.first]->name] = kv.second;
        newWitEpoch();
    }
    Val newReal(const char* nm, bool pos, double lo, double hi, bool internal = false) {
        std::string name = uniq(nm);
        int a = rc.var(name, pos, lo, hi);
        inputs.push_back({name, 0, a, nullptr, 0});
        (void)internal;
        return Val::mkR(rc.atomR(a));
    }
    std::string uniq(const std::string& nm) { int c = nameCount[nm]++; return c ? nm + "#" + std::to_string(c) : nm; }
    // ---- constraints
    void assume(N c) {
        if (c == nc.T) return;
        if (c == nc.F) throw PathEnd{PE_PRUNE, "assumption false"};
        if (c->op == O_AND && c->w == 1) { assume(c->k[0]); assume(c->k[1]); return; }
        if (pcSet.insert(c).second) {
            pc.push_back(c);
            if (haveWit && !fpMode && !evalB(c)) haveWit = false;
            noteBounds(c);
        }
    }
    void noteBounds(N c) {}
    std::unordered_map<uint32_t, std::set<long>> leafMemo;
    std::unordered_map<int, std::set<long>> atomLeafMemo;
    const std::set<long>& leavesAtom(int a) {
        auto it = atomLeafMemo.find(a);
        if (it != atomLeafMemo.end()) return it->second;
        std::set<long> s;
        Atom at = rc.atoms[a];
        if (at.k == A_VAR) s.insert(a);
        for (R p : {at.a, at.b}) if (p) for (auto& t : p->t) for (auto& f : t.m->f) { auto& l = leavesAtom(f.first); s.insert(l.begin(), l.end()); }
        if (at.cond) { auto& l = leaves(at.cond); s.insert(l.begin(), l.end()); }
        return atomLeafMemo[a] = s;
    }
    const std::set<long>& leaves(N n) {
        auto it = leafMemo.find(n->id);
        if (it != leafMemo.end()) return it->second;
        std::set<long> s;
        if (n->op == O_VAR || n->op == O_FVAR) s.insert(-(long)n->id - 1);
        if (n->r) for (auto& t : n->r->t) for (auto& f : t.m->f) { auto& l = leavesAtom(f.first); s.insert(l.begin(), l.end()); }
        for (int i = 0; i < n->nk; i++) { auto& l = leaves(n->k[i]); s.insert(l.begin(), l.end()); }
        return leafMemo[n->id] = s;
    }
    std::vector<N> slice(const std::vector<N>& q) {
        std::set<long> cl;
        for (N n : q) { auto& l = leaves(n); cl.insert(l.begin(), l.end()); }
        std::vector<char> in(pc.size(), 0);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < pc.size(); i++) if (!in[i]) {
                auto& l = leaves(pc[i]);
                bool hit = false;
                for (long x : l) if (cl.count(x)) { hit = true; break; }
                if (hit) { in[i] = 1; ch = true; cl.insert(l.begin(), l.end()); }
            }
        }
        std::vector<N> r = q;
        for (size_t i = 0; i < pc.size(); i++) if (in[i]) r.push_back(pc[i]);
        return r;
    }
    std::map<std::vector<uint32_t>, Res> qcache;
    std::set<std::vector<uint32_t>> linUnsat;
    Res query(const std::vector<N>& extra, double timeout, Model* m, const char* cls) {
        for (N e : extra) if (e == nc.F) return UNSAT;
        auto cs = slice(extra);
        std::vector<uint32_t> key;
        for (N c : cs) key.push_back(c->id);
        std::sort(key.begin(), key.end());
        if (!m) { auto it = qcache.find(key); if (it != qcache.end()) return it->second; }
        Res r = sol.check(cs, timeout, m, cls, false);
        if (r != UNKNOWN) qcache[key] = r;
        return r;
    }
    void checkTime() { if (nowS() - t0 > timeLimit) { incomplete = true; incompleteWhy = "time limit"; throw PathEnd{PE_UNSUP, "time limit"}; } }
    bool tryWitness() {
        if (fpMode) return false;
        if (haveWit) return true;
        newWitEpoch();
        try { if (witOkAll(pc, false) || findWitness(pc, 60)) { haveWit = true; return true; } } catch (Unsupported&) {}
        return false;
    }
    // feasibility of pc && c. returns 1 feasible, 0 infeasible, 2 unknown
    int feasible(N c) {
        if (c == nc.T) return 1;
        if (c == nc.F) return 0;
        if (!fpMode && haveWit && evalB(c)) return 1;
        // numeric search
        if (!fpMode) {
            auto sv = witVals; int ss = witSalt; bool hw = haveWit;
            std::vector<N> cs = pc; cs.push_back(c);
            bool f = findWitness(cs, 24);
            if (f) { altWit = witVals; altSalt = witSalt; haveAlt = true; altFor = c; }
            witVals = sv; witSalt = ss; haveWit = hw; newWitEpoch();
            if (f) return 1;
        }
        Model m;
        Res r = query({c}, branchTimeout, &m, "branch");
        if (r == UNSAT) return 0;
        if (r == SAT) { altModel = m; haveAltModel = true; altModelFor = c; return 1; }
        return 2;
    }
    std::map<std::string, double> altWit; int altSalt = 0; bool haveAlt = false; N altFor = nullptr;
    Model altModel; bool haveAltModel = false; N altModelFor = nullptr;
    void adopt(N c) {  // after assuming c, refresh witness if possible
        if (fpMode) { haveWit = false; return; }
        if (haveWit) { newWitEpoch(); if (witOkAll(pc, false)) return; haveWit = false; }
        if (haveAlt && altFor == c) { witVals = altWit; witSalt = altSalt; newWitEpoch(); if (witOkAll(pc, false)) { haveWit = true; return; } }
        if (haveAltModel && altModelFor == c) { setModel(altModel); if (witOkAll(pc, false)) { haveWit = true; return; } }
    }
    bool branch(N c) {
        if (c == nc.T) return true;
        if (c == nc.F) return false;
        if (pcSet.count(c)) return true;
        N nn = nc.notN(c);
        if (pcSet.count(nn)) return false;
        if (pos < prefix.size()) {
            int ch = prefix[pos++];
            decisions.push_back(ch);
            assume((ch & 1) ? c : nn);
            return ch & 1;
        }
        checkTime();
        pos++;
        tryWitness();
        haveAlt = haveAltModel = false;
        int ft, ff;
        bool first;
        bool hw = haveWit && !fpMode;
        if (hw) { first = evalB(c); } else first = true;
        // the side satisfied by the witness is feasible
        N fc = first ? c : nn, sc = first ? nn : c;
        int f1 = hw ? 1 : feasible(fc);
        int f2;
        if (f1 == 0) f2 = 1; else f2 = feasible(sc);
        (void)ft; (void)ff;
        if (f1 == 2 || f2 == 2) unkBranches++;
        if (f1 != 0 && f2 != 0) {
            forks++;
            std::vector<int> alt = decisions;
            alt.push_back(first ? 0 : 1);
            work.push_back(alt);
            decisions.push_back(first ? 1 : 0);
            assume(fc); adopt(fc);
            return first;
        }
        if (f1 == 0) { decisions.push_back(first ? 0 : 1); assume(sc); adopt(sc); return !first; }
        decisions.push_back(first ? 1 : 0);
        assume(fc); adopt(fc);
        return first;
    }
    uint64_t concretize(const Val& v) {
        if (v.k == Val::I) return (uint64_t)v.i;
        if (v.k == Val::UNDEF) return 0;
        if (v.k == Val::R_) { if (v.r->isConst()) { double d = v.r->constVal().get_d(); uint64_t b; memcpy(&b, &d, 8); return b; } throw PathEnd{PE_UNSUP, "concretize real"}; }
        if (v.k != Val::E) throw PathEnd{PE_UNSUP, "concretize"};
        for (int it = 0; it < 5000; it++) {
            u128 cand = 0; bool ok = false;
            if (pos < prefix.size()) {
                // the recorded value follows the decision: encoded as (value<<1 | taken)
                int d = prefix[pos];
                cand = (u128)(int64_t)(d >> 1); ok = true;
                pos++;
                N c = nc.bin(O_EQ, v.e, nc.cst(cand, v.w));
                decisions.push_back(d);
                if (d & 1) { assume(c); return (uint64_t)(cand & NodeCtx::mask(v.w)); }
                assume(nc.notN(c));
                continue;
            }
            checkTime();
            if (tryWitness()) { cand = nc.eval(v.e); ok = true; }
            else {
                Model m;
                N t = nc.var("__cz" + std::to_string(v.e->id), v.w, 0, 1);
                Res r = query({nc.bin(O_EQ, t, v.e)}, queryTimeout, &m, "concretize");
                if (r == UNSAT) throw PathEnd{PE_PRUNE, "infeasible"};
                if (r == SAT) { cand = m.bv.count(t->id) ? m.bv[t->id] : 0; ok = true; }
            }
            if (!ok) throw PathEnd{PE_UNSUP, "cannot concretize"};
            int64_t sc = (int64_t)(__int128)nc.sx(cand, v.w);
            if (sc > (1LL << 29) || sc < -(1LL << 29)) throw PathEnd{PE_UNSUP, "concretize: value too large"};
            N c = nc.bin(O_EQ, v.e, nc.cst(cand, v.w));
            if (c == nc.T) return (uint64_t)cand;
            N nn = nc.notN(c);
            pos++;
            haveAlt = haveAltModel = false;
            int f2 = feasible(nn);
            if (f2) { std::vector<int> alt = decisions; alt.push_back((int)(sc << 1)); work.push_back(alt); forks++; }
            decisions.push_back((int)((sc << 1) | 1));
            assume(c); adopt(c);
            return (uint64_t)(cand & NodeCtx::mask(v.w));
        }
        throw PathEnd{PE_UNSUP, "too many concretizations"};
    }
    N toN(const Val& v) {
        if (v.k == Val::I) return nc.cst(v.i, v.w);
        if (v.k == Val::E) return v.e;
        if (v.k == Val::UNDEF) return nc.cst(0, v.w ? v.w : 64);
        if (v.k == Val::R_ && v.r->isConst()) { double d = v.r->constVal().get_d(); uint64_t b; memcpy(&b, &d, 8); return nc.cst(b, 64); }
        throw PathEnd{PE_UNSUP, "integer operation on symbolic real"};
    }
    N toB(const Val& v) { N n = toN(v); if (n->w == 1) return n; return nc.notN(nc.bin(O_EQ, n, nc.cst(0, n->w))); }
    R toR(const Val& v) {
        if (v.k == Val::R_) return v.r;
        if (v.k == Val::I) { double d; uint64_t b = (uint64_t)v.i; memcpy(&d, &b, 8); return rc.fromDouble(d); }
        if (v.k == Val::UNDEF) { assumptions["undef float"]++; return rc.zero; }
        throw PathEnd{PE_UNSUP, "toR"};
    }
    N toF(const Val& v) {
        if (v.k == Val::E) return v.e;
        if (v.k == Val::I) { double d; uint64_t b = (uint64_t)v.i; memcpy(&d, &b, 8); return nc.fcst(d); }
        if (v.k == Val::UNDEF) return nc.fcst(0);
        throw PathEnd{PE_UNSUP, "toF"};
    }
    // ---- assertion handling
    std::vector<std::pair<std::string, double>> snapshot() {
        std::vector<std::pair<std::string, double>> r;
        for (auto& in : inputs) {
            if (in.kind == 0) r.push_back({in.name, rc.varValue(in.atom)});
            else if (in.kind == 1) r.push_back({in.name, (double)(int64_t)(__int128)nc.sx(nc.bvValue(in.n), in.n->w)});
            else if (in.kind == 2) r.push_back({in.name, in.fixed});
            else r.push_back({in.name, nc.fpValue(in.n)});
        }
        return r;
    }
    void record(const std::string& label, const std::string& kind, const std::string& detail, bool exact) {
        int& c = violCount[label + "|" + kind];
        c++;
        if (c > 40) return;
        viol.push_back({label, kind, detail, snapshot(), exact});
        if (verbose) { fprintf(stderr, "VIOL %s %s %s\n", label.c_str(), kind.c_str(), detail.c_str()); }
    }
    void reach(const std::string& label) {
        if (reached[label]++ == 0 || !reachModel.count(label)) {
            if (tryWitness()) { reachModel[label] = 1; }
            else { Model m; Res r = sol.check(pc, queryTimeout, &m, "vacuity"); if (r == SAT || pc.empty()) { reachModel[label] = 1; if (!fpMode) { setModel(m); haveWit = witOkAll(pc, false); } } }
        }
    }
    void assertEq(R l, R r, const std::string& label) {
        reach(label);
        if (l == r && !l->spec) { assertsProved[label]++; assertHow["canonical-identity"]++; 
            // still discharge once through the solver so that the verdict is the solver's
            sol.polyIdentity(l, r); return; }
        if (l->spec || r->spec) {
            if (l->spec == r->spec && l->spec != NANV) { assertsProved[label]++; return; }
            confirmAnyModel(label, "values differ (non-finite): " + rc.str(l) + " vs " + rc.str(r));
            return;
        }
        try {
            int k = 0;
            if (sol.coefMatch(l, r)) k = sol.polyIdentity(l, r);
            if (k) { assertsProved[label]++; assertHow[k == 1 ? "polynomial-identity(unsat)" : "coefficient-tolerance(unsat)"]++; return; }
            auto v = rc.clear({l, r});
            k = sol.polyIdentity(v[0], v[1]);
            if (verbose) fprintf(stderr, "CLR %zu %zu -> %zu %zu\n", l->t.size(), r->t.size(), v[0]->t.size(), v[1]->t.size());
            if (verbose && !k) fprintf(stderr, "NOTEQ %s\n  L=%s\n  R=%s\n D=%s\n", label.c_str(), rc.str(l).c_str(), rc.str(r).c_str(), rc.str(rc.sub(v[0],v[1])).c_str());
            if (k) { assertsProved[label]++; assertHow[k == 1 ? "polynomial-identity(unsat)" : "coefficient-tolerance(unsat)"]++; return; }
        } catch (Unsupported& e) { if (verbose) fprintf(stderr, "clear failed: %s\n", e.what()); }
        // numeric counterexample candidates
        R d = rc.sub(l, r);
        auto bad = [&]() {
            long double dv = rc.eval(d), s = std::max(std::fabs(rc.eval(l)), std::fabs(rc.eval(r)));
            return std::isfinite((double)dv) && std::fabs(dv) > 1e-5L * s && std::fabs(dv) > 1e-7L;
        };
        if (numericCex(label, "values differ: " + rc.str(l, 4) + "  VS  " + rc.str(r, 4), bad)) return;
        Model m;
        N c = nc.notN(nc.req(l, r));
        Res q = query({c}, queryTimeout, &m, "assert-eq");
        if (q == UNSAT) { assertsProved[label]++; assertHow["nra(unsat)"]++; return; }
        if (q == SAT) {
            auto sv = witVals; int ss = witSalt; bool hw = haveWit;
            if (!hw) { auto all = pc; all.push_back(c); Model m2; Res q2 = sol.check(all, queryTimeout, &m2, "assert-full"); if (q2 == UNSAT) throw PathEnd{PE_PRUNE, "infeasible"}; if (q2 == SAT) m = m2; }
            setModel(m); record(label, "assert_eq", "solver model", true); witVals = sv; witSalt = ss; haveWit = hw; newWitEpoch();
            return;
        }
        unknowns.push_back(label + ": equality undecided " + rc.str(d, 6));
    }
    bool numericCex(const std::string& label, const std::string& detail, std::function<bool()> bad) {
        if (fpMode) return false;
        auto sv = witVals; int ss = witSalt; bool hw = haveWit;
        int found = 0;
        for (int t = 0; t < numericTries && found < 3; t++) {
            if (t == 0 && haveWit) { newWitEpoch(); }
            else {
                witVals = sv;
                if (t % 3 == 0 || sv.empty()) witVals.clear();
                else { int drop = 1 + (int)(h01("d", t + seed) * 4); for (int d = 0; d < drop && !witVals.empty(); d++) { auto it = witVals.begin(); std::advance(it, (size_t)(h01("p" + std::to_string(d), t * 7 + seed) * witVals.size())); witVals.erase(it); } }
                witSalt = ss + 1000 + t;
                newWitEpoch();
                if (!witOkAll(pc, true)) continue;
            }
            if (bad()) {
                freezeTmp();
                found++;
                // pinned solver query: inputs fixed to these values
                pinned();
                record(label, "assert", detail, true);
            }
        }
        witVals = sv; witSalt = ss; haveWit = hw; newWitEpoch();
        return found > 0;
    }
    void freezeTmp() { freeze(); newWitEpoch(); }
    void pinned() {
        // asks the solver to confirm the (concretised) path condition at the candidate point; atoms are pinned to tight enclosures
        std::string decl, body;
        Enc e(rc, nc, false);
        try { for (N c : pc) { bool real = false; for (long l : leaves(c)) if (l >= 0) real = true; (void)real; body += "(assert " + e.node(c) + ")\n"; } } catch (Unsupported&) { return; }
        std::string pins;
        for (int a : e.atomsUsed) {
            double v = (double)rc.evalAtom(a);
            if (!std::isfinite(v)) return;
            Q lo(v), hi(v);
            if (rc.atoms[a].k != A_VAR) { Q eps = abs(Q(v)) * Q(1e-9) + Q(1e-12); lo -= eps; hi += eps; }
            pins += "(assert (and (<= " + Enc::qs(lo) + " a" + std::to_string(a) + ") (<= a" + std::to_string(a) + " " + Enc::qs(hi) + ")))\n";
        }
        std::string vals;
        for (int a : e.invUsed) pins += "(assert (= (* i" + std::to_string(a) + " a" + std::to_string(a) + ") 1.0))\n";
        sol.raw(e.decl + body + pins, 3, "pinned-model", "", vals, "");
    }
    void confirmAnyModel(const std::string& label, const std::string& detail) {
        // condition is false on the whole path: any model of pc violates
        if (tryWitness()) { freezeTmp(); record(label, "assert", detail, true); return; }
        Model m;
        Res r = sol.check(pc, queryTimeout, &m, "assert");
        if (r == UNSAT) { throw PathEnd{PE_PRUNE, "infeasible"}; }
        if (r == SAT) { auto sv = witVals; setModel(m); record(label, "assert", detail, true); witVals = sv; newWitEpoch(); return; }
        unknowns.push_back(label + ": path feasibility undecided: " + detail);
    }
    void assertB(N c, const std::string& label) {
        reach(label);
        if (c == nc.T) { assertsProved[label]++; assertHow["constant-true"]++; return; }
        if (c->op == O_AND && c->w == 1) { assertB(c->k[0], label); assertB(c->k[1], label); return; }
        if (c == nc.F) { confirmAnyModel(label, "condition false on this path"); throw PathEnd{PE_PRUNE, "assert failed"}; }
        N ng = nc.notN(c);
        // linear pass first through query()
        if (!fpMode) {
            auto cs = slice({ng});
            std::vector<uint32_t> key;
            for (N x : cs) key.push_back(x->id);
            std::sort(key.begin(), key.end());
            Res r = linUnsat.count(key) ? UNSAT : sol.check(cs, 10, nullptr, "assert-lin", true);
            if (r == UNSAT) linUnsat.insert(key);
            if (r == UNSAT) { assertsProved[label]++; assertHow["linear(unsat)"]++; assume(c); return; }
            if (numericCex(label, "assertion violated", [&]() { nc.nearTie = false; bool v = evalB(ng); return v && !nc.nearTie; })) { assumeSoft(c); return; }
        }
        Model m;
        Res q = query({ng}, queryTimeout, &m, "assert");
        if (q == UNSAT) { assertsProved[label]++; assertHow["nra/bv(unsat)"]++; assume(c); return; }
        if (q == SAT) {
            auto sv = witVals; int ss = witSalt; bool hw = haveWit;
            if (!hw) { auto all = pc; all.push_back(ng); Model m2; Res q2 = sol.check(all, queryTimeout, &m2, "assert-full"); if (q2 == UNSAT) throw PathEnd{PE_PRUNE, "infeasible"}; if (q2 == SAT) m = m2; }
            setModel(m); record(label, "assert", "solver model", true); witVals = sv; witSalt = ss; haveWit = hw; newWitEpoch();
            assumeSoft(c);
            return;
        }
        unknowns.push_back(label + ": assertion undecided");
        assumeSoft(c);
    }
    void assumeSoft(N c) { assume(c); tryWitness(); }

#include "interp.inc"

    // ---- main loop
    void runEntry(const std::string& fn) {
        Function* f = mod->getFunction(fn);
        if (!f || f->isDeclaration()) { unsup.push_back("no such entry " + fn); return; }
        work.push_back({});
        while (!work.empty()) {
            if (pathsDone + pathsPruned + pathsAbort >= maxPaths) { incomplete = true; incompleteWhy = "path limit"; break; }
            if (nowS() - t0 > timeLimit) { incomplete = true; incompleteWhy = "time limit"; break; }
            if (unsup.size() > 5) { incomplete = true; incompleteWhy = "unsupported"; break; }
            if (viol.size() > 60) break;
            prefix = work.back(); work.pop_back();
            resetPath();
            try {
                initGlobals();
                callFunction(f, {});
                pathsDone++; sampleWitness();
            } catch (PathEnd& e) {
                if (e.why == PE_PRUNE) pathsPruned++;
                else if (e.why == PE_DONE) { pathsDone++; sampleWitness(); }
                else if (e.why == PE_ABORT) { if (abortOk) pathsAbort++; else { try { confirmAnyModel("no-abort", e.msg); } catch (PathEnd&) {} pathsAbort++; } }
                else if (e.why == PE_VIOL) { try { confirmAnyModel("memory-safety", e.msg + " in " + where()); } catch (PathEnd&) {} pathsDone++; }
                else {
                    unsup.push_back(e.msg + " @ " + where());
                    // a single path which ran into the limit: perhaps the real code does not end on it (the native replay decides)
                    if (incomplete && (e.msg == "time limit" || e.msg == "step limit") && nowS() - pathT0 > 0.25 * timeLimit) { timeLimit += 40; try { confirmAnyModel("no-end", "still running after " + std::to_string(steps) + " steps in " + where()); } catch (PathEnd&) {} catch (Unsupported&) {} }
                    if (incomplete) break;
                }
            } catch (Unsupported& e) { unsup.push_back(std::string(e.what()) + " @ " + where()); }
        }
    }
    std::vector<std::vector<std::pair<std::string, double>>> witnesses;
    void sampleWitness() {
        if (witnesses.size() >= 3) return;
        try {
            if (tryWitness()) { freeze(); witnesses.push_back(snapshot()); return; }
            Model m;
            if (sol.check(pc, queryTimeout, &m, "path-witness") == SAT) { setModel(m); if (fpMode || witOkAll(pc, false)) witnesses.push_back(snapshot()); }
        } catch (Unsupported&) {} catch (PathEnd&) {}
    }
    double pathT0 = 0;
    void resetPath() {
        pathT0 = nowS();
        coroReset();
        pos = 0; decisions.clear(); pc.clear(); pcSet.clear(); nameCount.clear(); inputs.clear(); abortOk = false;
        objs.clear(); last = nullptr; nextAddr = 0x10000; stack.clear(); totalSteps += steps; steps = 0; haveWit = true; witVals.clear(); witSalt = 0; newWitEpoch(); sol.bounds.clear(); tlsDtors = 0;
    }
};
static Engine* G;
long double eval_bool_for_ite(N c) { return G->nc.eval(c) != 0; }

static std::string jesc(const std::string& s) {
    std::string o;
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
    return o;
}
int main(int argc, char** argv) {
    struct rlimit rl = {1UL << 30, 1UL << 30};
    setrlimit(RLIMIT_STACK, &rl);
    if (!getenv("SYMEX_RE")) { setenv("SYMEX_RE", "1", 1); execv("/proc/self/exe", argv); }
    signal(SIGPIPE, SIG_IGN);
    std::string bc, entry, out;
    Engine* E = new Engine; G = E;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--bc") bc = nx(); else if (a == "--entry") entry = nx(); else if (a == "--out") out = nx();
        else if (a == "--fp") { E->fpMode = true; std::string f = nx(); sscanf(f.c_str(), "%d,%d", &E->fe, &E->fs); E->sol.fe = E->fe; E->sol.fs = E->fs; }
        else if (a == "--time") E->timeLimit = atof(nx().c_str()); else if (a == "--paths") E->maxPaths = atol(nx().c_str());
        else if (a == "--qtime") E->queryTimeout = atof(nx().c_str()); else if (a == "--btime") E->branchTimeout = atof(nx().c_str());
        else if (a == "--seed") E->seed = atol(nx().c_str()); else if (a == "--checkdiv") E->checkDiv = true; else if (a == "--ite") E->forkSelect = false;
        else if (a == "-v") E->verbose = true; else if (a == "--dump") E->sol.dumpDir = nx(); else if (a == "--tries") E->numericTries = atoi(nx().c_str());
        else if (a == "--roots") E->roots = true;
        else if (a == "--ctol") E->rc.coefTol = atof(nx().c_str()); else if (a == "--steps") E->maxSteps = atol(nx().c_str());
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; }
    }
    SMDiagnostic err;
    E->mod = parseIRFile(bc, err, E->ctx);
    if (!E->mod) { fprintf(stderr, "cannot read %s: %s\n", bc.c_str(), err.getMessage().str().c_str()); return 3; }
    E->DL = &E->mod->getDataLayout();
    E->t0 = nowS();
    E->initEval();
    E->runEntry(entry);
    E->totalSteps += E->steps;
    double wall = nowS() - E->t0;
    std::set<std::string> fns; std::set<std::string> files;
    std::set<std::string> lines;
    bool wantLines = getenv("SYMEX_LINES") != nullptr;
    for (auto* bb : E->bbSeen)
        for (auto& I : *bb)
            for (const DILocation* L = I.getDebugLoc(); L; L = L->getInlinedAt())
                if (auto* sp = L->getScope()->getSubprogram()) {
                    std::string fn = L->getScope()->getFilename().str();
                    if (fn.empty()) fn = sp->getFilename().str();
                    std::string dir = sp->getFile() ? sp->getFile()->getDirectory().str() : "";
                    std::string full = fn.size() && fn[0] == '/' ? fn : dir + "/" + fn;
                    size_t k = full.find("/src/");
                    if (k == std::string::npos || full.find("/usr/") == 0) continue;
                    if (wantLines) lines.insert(full.substr(k + 1) + ":" + std::to_string(L->getLine()));
                    std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
                    // strip template args for brevity
                    std::string sh; int d = 0;
                    for (char c : nm) { if (c == '<') d++; if (!d) sh += c; if (c == '>') d--; if (sh.size() > 160) break; }
                    size_t par = sh.find('(');
                    if (par != std::string::npos) sh = sh.substr(0, par);
                    fns.insert(full.substr(k + 1) + ": " + sh);
                }
    if (wantLines)
        if (FILE* lf = fopen((std::string(getenv("SYMEX_LINES")) + "." + std::to_string(getpid())).c_str(), "w")) { for (auto& l : lines) fprintf(lf, "%s\n", l.c_str()); fclose(lf); }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    auto& st = E->sol.st;
    fprintf(f, "{\"entry\":\"%s\",\"paths_completed\":%ld,\"paths_pruned\":%ld,\"paths_aborted_ok\":%ld,\"forks\":%ld,\"branches_undecided_explored_both\":%ld,\n", entry.c_str(), E->pathsDone, E->pathsPruned, E->pathsAbort, E->forks, E->unkBranches);
    fprintf(f, "\"complete\":%s,\"incomplete_why\":\"%s\",\"wall\":%.3f,\n", (E->incomplete || !E->unsup.empty()) ? "false" : "true", jesc(E->incompleteWhy).c_str(), wall);
    fprintf(f, "\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver_errors\":%ld,\"solver_time\":%.3f,\"max_query_s\":%.3f,\"solver_last_error\":\"%s\",\n", st.queries, st.sat, st.unsat, st.unknown, st.errors, st.time, st.maxq, jesc(E->sol.lastErr).c_str());
    auto mp = [&](const char* n, const std::map<std::string, long>& m) { fprintf(f, "\"%s\":{", n); bool c = false; for (auto& kv : m) { fprintf(f, "%s\"%s\":%ld", c ? "," : "", jesc(kv.first).c_str(), kv.second); c = true; } fprintf(f, "},\n"); };
    mp("query_classes", st.byClass); mp("asserts_proved", E->assertsProved); mp("how", E->assertHow); mp("reached", E->reached); mp("assumptions", E->assumptions);
    { std::map<std::string, long> rm; for (auto& kv : E->reachModel) rm[kv.first] = kv.second; mp("reach_model", rm); }
    auto ls = [&](const char* n, const std::vector<std::string>& v) { fprintf(f, "\"%s\":[", n); for (size_t i = 0; i < v.size() && i < 50; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(v[i]).c_str()); fprintf(f, "],\n"); };
    ls("unknowns", E->unknowns); ls("unsupported", E->unsup);
    ls("externs", std::vector<std::string>(E->externs.begin(), E->externs.end()));
    { std::vector<std::string> v(fns.begin(), fns.end()); fprintf(f, "\"functions\":["); for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(v[i]).c_str()); fprintf(f, "],\n"); }
    fprintf(f, "\"witnesses\":[");
    for (size_t i = 0; i < E->witnesses.size(); i++) {
        fprintf(f, "%s[", i ? "," : "");
        auto& w = E->witnesses[i];
        for (size_t k = 0; k < w.size(); k++) { char b[64]; snprintf(b, 64, "%a", w[k].second); fprintf(f, "%s[\"%s\",\"%s\",%.17g]", k ? "," : "", jesc(w[k].first).c_str(), b, std::isfinite(w[k].second) ? w[k].second : 0.0); }
        fprintf(f, "]");
    }
    fprintf(f, "],\n\"steps\":%ld,\n", E->totalSteps);
    fprintf(f, "\"violations\":[");
    for (size_t i = 0; i < E->viol.size(); i++) {
        auto& v = E->viol[i];
        fprintf(f, "%s{\"label\":\"%s\",\"kind\":\"%s\",\"detail\":\"%s\",\"inputs\":[", i ? ",\n" : "", jesc(v.label).c_str(), jesc(v.kind).c_str(), jesc(v.detail).c_str());
        for (size_t k = 0; k < v.inputs.size(); k++) { char b[64]; snprintf(b, 64, "%a", v.inputs[k].second); fprintf(f, "%s[\"%s\",\"%s\",%.17g]", k ? "," : "", jesc(v.inputs[k].first).c_str(), b, std::isfinite(v.inputs[k].second) ? v.inputs[k].second : 0.0); }
        fprintf(f, "]}");
    }
    fprintf(f, "]}\n");
    fflush(f); if (f != stdout) fclose(f);
    E->sol.z3.stop();
    _exit(0);
}
