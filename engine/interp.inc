    // ---- interpreter (included inside struct Engine)
    struct FnInfo { std::unordered_map<const Value*, int> slot; int n = 0; };
    struct Frame { Function* f; FnInfo* fi; std::vector<Val> regs; std::vector<uint64_t> allocas; const Instruction* cur = nullptr; };
    struct StkEnt { const Function* f; const Instruction* cur; };
    std::vector<StkEnt> stack;
    int tlsDtors = 0;
    std::unordered_map<const Function*, std::unique_ptr<FnInfo>> fninfo;
    std::unordered_map<const Constant*, Val> constMemo;
    std::unordered_map<const Function*, int> stubKind;
    bool globalsBuilt = false;
    std::vector<Obj> gsnap; uint64_t gsnapNext = 0;
    std::map<uint64_t, uint64_t> vaCount;
    long clockTick = 0;

    std::string where() {
        std::string s;
        for (int i = (int)stack.size() - 1, k = 0; i >= 0 && k < 6; i--, k++) {
            std::string nm = demangle(stack[i].f->getName().str());
            if (nm.size() > 90) nm = nm.substr(0, 90) + "...";
            s += (k ? " <- " : "") + nm;
            if (stack[i].cur && stack[i].cur->getDebugLoc()) s += ":" + std::to_string(stack[i].cur->getDebugLoc().getLine());
        }
        return s;
    }
    FnInfo* info(Function* f) {
        auto& p = fninfo[f];
        if (!p) {
            p = std::make_unique<FnInfo>();
            for (auto& a : f->args()) p->slot[&a] = p->n++;
            for (auto& bb : *f) for (auto& I : bb) if (!I.getType()->isVoidTy()) p->slot[&I] = p->n++;
        }
        return p.get();
    }
    // ---- globals
    uint64_t fnAddr(Function* f) {
        auto it = gaddr.find(f);
        if (it != gaddr.end()) return it->second;
        uint64_t a = 0x7f0000000000ULL + 16 * (faddr.size() + 1);
        gaddr[f] = a; faddr[a] = f;
        return a;
    }
    void initGlobals() {
        if (globalsBuilt) {
            for (auto& o : gsnap) objs[o.base] = std::make_unique<Obj>(o);
            nextAddr = gsnapNext;
            return;
        }
        for (auto& f : *mod) fnAddr(&f);
        std::vector<GlobalVariable*> gv;
        for (auto& g : mod->globals()) {
            uint64_t sz = DL->getTypeAllocSize(g.getValueType());
            if (g.isDeclaration() && sz < 512) sz = 512;
            uint64_t a = allocObj(sz, 0, g.getName().str(), g.getAlign().valueOrOne().value());
            gaddr[&g] = a;
            gv.push_back(&g);
        }
        for (auto* g : gv) {
            Obj* o = objs[gaddr[g]].get();
            std::fill(o->init.begin(), o->init.end(), 1);
            std::fill(o->b.begin(), o->b.end(), 0);
            if (g->hasInitializer()) initConst(gaddr[g], g->getInitializer());
            else if (g->getName().startswith("_ZTI")) {          // type descriptors of the library: name at offset 8
                std::string n = g->getName().str().substr(4);
                uint64_t a = allocObj(n.size() + 1, 0, "_ZTS" + n, 1);
                Obj* so = objs[a].get();
                std::fill(so->init.begin(), so->init.end(), 1);
                for (size_t k = 0; k <= n.size(); k++) so->b[k] = k < n.size() ? n[k] : 0;
                store(gaddr[g] + 8, Val::mkI(a, 64), PointerType::get(mod->getContext(), 0));
            }
        }
        if (auto* ct = mod->getGlobalVariable("llvm.global_ctors"))
            if (ct->hasInitializer())
                if (auto* ca = dyn_cast<ConstantArray>(ct->getInitializer()))
                    for (auto& op : ca->operands())
                        if (auto* cs = dyn_cast<ConstantStruct>(op)) {
                            if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) callFunction(f, {});
                        }
        steps = 0;
        for (auto& kv : objs) gsnap.push_back(*kv.second);
        gsnapNext = nextAddr;
        globalsBuilt = true;
    }
    void initConst(uint64_t addr, Constant* c) {
        if (isa<UndefValue>(c)) return;
        if (isa<ConstantAggregateZero>(c)) { Obj* o = find(addr); uint64_t n = DL->getTypeStoreSize(c->getType()); std::fill(o->b.begin() + (addr - o->base), o->b.begin() + (addr - o->base) + n, 0); return; }
        if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(s->getType()); for (unsigned k = 0; k < s->getNumOperands(); k++) initConst(addr + sl->getElementOffset(k), s->getOperand(k)); return; }
        if (auto* a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned k = 0; k < a->getNumOperands(); k++) initConst(addr + k * es, a->getOperand(k)); return; }
        if (auto* a = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (unsigned k = 0; k < a->getNumElements(); k++) initConst(addr + k * es, a->getElementAsConstant(k)); return; }
        if (auto* cf = dyn_cast<ConstantFP>(c)) {
            Obj* o = find(addr);
            APInt b = cf->getValueAPF().bitcastToAPInt();
            unsigned n = b.getBitWidth() / 8;
            for (unsigned k = 0; k < n; k++) o->b[addr - o->base + k] = (uint8_t)b.extractBits(8, 8 * k).getZExtValue();
            return;
        }
        store(addr, constVal(c), c->getType());
    }
    double apf(const APFloat& f) { APFloat g = f; bool li; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return g.convertToDouble(); }
    Val constVal(Constant* c) {
        auto it = constMemo.find(c);
        if (it != constMemo.end()) return it->second;
        Val v = constVal0(c);
        constMemo[c] = v;
        return v;
    }
    Val undefOf(Type* t) { Val v; v.k = Val::UNDEF; v.w = (t->isIntegerTy() || t->isPointerTy()) ? bits(t) : 64; return v; }
    Val zeroOf(Type* t) {
        if (t->isFloatingPointTy()) return fpC(0.0);
        if (t->isIntegerTy() || t->isPointerTy()) return Val::mkI(0, bits(t));
        std::vector<Val> v;
        if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) v.push_back(zeroOf(e));
        else if (auto* at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(zeroOf(at->getElementType()));
        else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (uint64_t i = 0; i < vt->getNumElements(); i++) v.push_back(zeroOf(vt->getElementType()));
        else throw PathEnd{PE_UNSUP, "zero type"};
        return Val::mkA(v);
    }
    Val undefAgg(Type* t) {
        if (!t->isAggregateType() && !t->isVectorTy()) return undefOf(t);
        std::vector<Val> v;
        if (auto* st = dyn_cast<StructType>(t)) for (auto* e : st->elements()) v.push_back(undefAgg(e));
        else if (auto* at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); i++) v.push_back(undefAgg(at->getElementType()));
        else if (auto* vt = dyn_cast<FixedVectorType>(t)) for (uint64_t i = 0; i < vt->getNumElements(); i++) v.push_back(undefAgg(vt->getElementType()));
        return Val::mkA(v);
    }
    Val constVal0(Constant* c) {
        Type* t = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c)) {
            int w = ci->getBitWidth();
            if (w > 128) throw PathEnd{PE_UNSUP, "wide int"};
            APInt a = ci->getValue();
            u128 v = a.getRawData()[0];
            if (w > 64) v |= (u128)a.getRawData()[1] << 64;
            return Val::mkI(v, w);
        }
        if (auto* cf = dyn_cast<ConstantFP>(c)) return fpC(apf(cf->getValueAPF()));
        if (isa<ConstantPointerNull>(c)) return Val::mkI(0, 64);
        if (isa<UndefValue>(c)) return undefAgg(t);
        if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
        if (auto* f = dyn_cast<Function>(c)) return Val::mkI(fnAddr(f), 64);
        if (auto* g = dyn_cast<GlobalVariable>(c)) return Val::mkI(gaddr.at(g), 64);
        if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
        if (auto* s = dyn_cast<ConstantStruct>(c)) { std::vector<Val> v; for (auto& o : s->operands()) v.push_back(constVal(cast<Constant>(o))); return Val::mkA(v); }
        if (auto* s = dyn_cast<ConstantArray>(c)) { std::vector<Val> v; for (auto& o : s->operands()) v.push_back(constVal(cast<Constant>(o))); return Val::mkA(v); }
        if (auto* s = dyn_cast<ConstantVector>(c)) { std::vector<Val> v; for (auto& o : s->operands()) v.push_back(constVal(cast<Constant>(o))); return Val::mkA(v); }
        if (auto* s = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < s->getNumElements(); i++) v.push_back(constVal(s->getElementAsConstant(i))); return Val::mkA(v); }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
                case Instruction::GetElementPtr: {
                    APInt off(64, 0);
                    if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw PathEnd{PE_UNSUP, "const gep"};
                    return Val::mkI((uint64_t)constVal(ce->getOperand(0)).i + (uint64_t)off.getSExtValue(), 64);
                }
                case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
                case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: return Val::mkI(constVal(ce->getOperand(0)).i, bits(t));
                case Instruction::Add: return Val::mkI(constVal(ce->getOperand(0)).i + constVal(ce->getOperand(1)).i, bits(t));
                case Instruction::Sub: return Val::mkI(constVal(ce->getOperand(0)).i - constVal(ce->getOperand(1)).i, bits(t));
                case Instruction::ICmp: return icmp((CmpInst::Predicate)ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
                default: throw PathEnd{PE_UNSUP, std::string("constexpr ") + ce->getOpcodeName()};
            }
        }
        throw PathEnd{PE_UNSUP, "constant"};
    }
    Val get(Frame& fr, Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
        auto it = fr.fi->slot.find(v);
        if (it != fr.fi->slot.end()) return fr.regs[it->second];
        throw PathEnd{PE_UNSUP, "operand"};
    }
    // ---- integer ops
    static Op icOp(unsigned o) {
        switch (o) {
            case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL;
            case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM;
            case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
            case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR;
        }
        return O_CONST;
    }
    Val ibin(unsigned opc, const Val& a, const Val& b) {
        if (opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) {
            if (branch(nc.bin(O_EQ, toN(b), nc.cst(0, toN(b)->w)))) throw PathEnd{PE_VIOL, "integer division by zero"};
        }
        if (a.k == Val::R_ && !a.r->isConst() && b.k == Val::I) {
            if (opc == Instruction::And && b.i == 0x7fffffffffffffffULL) return Val::mkR(fabsR(a.r));
            if (opc == Instruction::Xor && b.i == 0x8000000000000000ULL) return Val::mkR(rc.neg(a.r));
        }
        Op o = icOp(opc);
        if (a.k == Val::I && b.k == Val::I) { u128 r; if (NodeCtx::foldBin(o, a.i, b.i, a.w, r)) return Val::mkI(r, a.w); }
        N x = toN(a), y = toN(b);
        if (x->w != y->w) { if (a.k == Val::UNDEF) x = nc.cst(0, y->w); else if (b.k == Val::UNDEF) y = nc.cst(0, x->w); }
        return Val::mkE(nc.bin(o, x, y));
    }
    Val icmp(CmpInst::Predicate p, const Val& a, const Val& b) {
        if (a.k == Val::R_ && !a.r->isConst() && b.k == Val::I) {
            if (p == CmpInst::ICMP_SLT && b.i == 0) return Val::mkE(nc.rlt(a.r, rc.zero));
            if (p == CmpInst::ICMP_SGT && b.i == NodeCtx::mask(64)) return Val::mkE(nc.rle(rc.zero, a.r));
        }
        N x = toN(a), y = toN(b);
        if (x->w != y->w) { if (a.k == Val::UNDEF) x = nc.cst(0, y->w); else if (b.k == Val::UNDEF) y = nc.cst(0, x->w); }
        N r;
        switch (p) {
            case CmpInst::ICMP_EQ: r = nc.bin(O_EQ, x, y); break;
            case CmpInst::ICMP_NE: r = nc.notN(nc.bin(O_EQ, x, y)); break;
            case CmpInst::ICMP_ULT: r = nc.bin(O_ULT, x, y); break;
            case CmpInst::ICMP_ULE: r = nc.bin(O_ULE, x, y); break;
            case CmpInst::ICMP_UGT: r = nc.bin(O_ULT, y, x); break;
            case CmpInst::ICMP_UGE: r = nc.bin(O_ULE, y, x); break;
            case CmpInst::ICMP_SLT: r = nc.bin(O_SLT, x, y); break;
            case CmpInst::ICMP_SLE: r = nc.bin(O_SLE, x, y); break;
            case CmpInst::ICMP_SGT: r = nc.bin(O_SLT, y, x); break;
            case CmpInst::ICMP_SGE: r = nc.bin(O_SLE, y, x); break;
            default: throw PathEnd{PE_UNSUP, "icmp"};
        }
        return Val::mkE(r);
    }
    // ---- float ops
    int signOf(R x) {  // forks
        if (x->spec) return x->spec == PINF ? 1 : x->spec == NINF ? -1 : 0;
        if (x->isConst()) return sgn(x->constVal());
        int s = rc.signKnown(x);
        if (s) return s;
        if (branch(nc.rlt(rc.zero, x))) return 1;
        if (branch(nc.rlt(x, rc.zero))) return -1;
        return 0;
    }
    R fabsR(R x) {
        if (x->spec) return x->spec == NANV ? x : rc.pinf;
        if (x->isConst()) return rc.cst(abs(x->constVal()));
        if (rc.signWeak(x) > 0 || rc.signKnown(x) > 0) return x;
        if (rc.signWeak(x) < 0 || rc.signKnown(x) < 0) return rc.neg(x);
        return branch(nc.rlt(x, rc.zero)) ? rc.neg(x) : x;
    }
    R specMul(R a, R b) {
        if (a->spec == NANV || b->spec == NANV) return rc.nan;
        int s = signOf(a) * signOf(b);
        return s > 0 ? rc.pinf : s < 0 ? rc.ninf : rc.nan;
    }
    R divR(R a, R b) {
        if (a->spec == NANV || b->spec == NANV) return rc.nan;
        if (b->spec) return a->spec ? rc.nan : rc.zero;
        if (b->isZero()) {
            if (checkDiv) throw PathEnd{PE_VIOL, "floating-point division by zero"};
            int s = signOf(a);
            return s > 0 ? rc.pinf : s < 0 ? rc.ninf : rc.nan;
        }
        if (a->spec) { int s = signOf(a) * signOf(b); return s > 0 ? rc.pinf : s < 0 ? rc.ninf : rc.pinf; }
        if (!b->isConst() && !rc.signKnown(b)) {
            N z = nc.req(b, rc.zero);
            if (z != nc.F && !pcSet.count(nc.notN(z))) {
                if (checkDiv) { if (branch(z)) throw PathEnd{PE_VIOL, "floating-point division by zero"}; }
                else { assumptions["symbolic divisor assumed non-zero"]++; assume(nc.notN(z)); tryWitness(); }
            }
        }
        if (a->isZero()) return rc.zero;
        return rc.div(a, b);
    }
    Val fbin(unsigned opc, const Val& x, const Val& y) {
        if (fpMode) {
            N a = toF(x), b = toF(y);
            Op o = opc == Instruction::FAdd ? O_FADD : opc == Instruction::FSub ? O_FSUB : opc == Instruction::FMul ? O_FMUL : opc == Instruction::FDiv ? O_FDIV : O_CONST;
            if (o == O_CONST) throw PathEnd{PE_UNSUP, "frem in fp mode"};
            if (a->op == O_FCONST && b->op == O_FCONST && fe == 11 && fs == 53) {
                double p = a->fc, q = b->fc;
                return fpC(o == O_FADD ? p + q : o == O_FSUB ? p - q : o == O_FMUL ? p * q : p / q);
            }
            // exact in every format: x - (+0) = x, x + (-0) = x, sums of two zeros
            auto pz = [](N k) { return k->op == O_FCONST && k->fc == 0 && !std::signbit(k->fc); };
            auto nz = [](N k) { return k->op == O_FCONST && k->fc == 0 && std::signbit(k->fc); };
            if (a->op == O_FCONST && b->op == O_FCONST && a->fc == 0 && b->fc == 0 && (o == O_FADD || o == O_FSUB)) return fpC(o == O_FADD ? a->fc + b->fc : a->fc - b->fc);
            if ((o == O_FADD && nz(b)) || (o == O_FSUB && pz(b))) return mkF(a);
            if (o == O_FADD && nz(a)) return mkF(b);
            if ((o == O_FADD || o == O_FMUL) && b->id < a->id) std::swap(a, b);  // IEEE addition and multiplication commute
            return mkF(nc.mk(o, 64, {a, b}));
        }
        R a = toR(x), b = toR(y);
        switch (opc) {
            case Instruction::FAdd: return Val::mkR(rc.add(a, b));
            case Instruction::FSub: return Val::mkR(rc.sub(a, b));
            case Instruction::FMul:
                if (a->spec || b->spec) return Val::mkR(specMul(a, b));
                return Val::mkR(rc.mul(a, b));
            case Instruction::FDiv: return Val::mkR(divR(a, b));
            case Instruction::FRem: return Val::mkR(fmodR(a, b));
        }
        throw PathEnd{PE_UNSUP, "fp op"};
    }
    Val mkF(N n) { Val v; v.k = Val::E; v.w = 64; v.e = n; return v; }
    R fmodR(R a, R b) {
        if (a->isConst() && b->isConst() && !b->isZero()) return rc.fromDouble(std::fmod(a->constVal().get_d(), b->constVal().get_d()));
        R q = divR(a, b);
        long k = roundInt(q, 0);
        return rc.sub(a, rc.scale(b, Q(k)));
    }
    // mode 0 trunc, 1 floor, 2 ceil, 3 round half away
    long roundInt(R x, int mode) {
        if (x->spec) throw PathEnd{PE_UNSUP, "rounding non-finite value"};
        if (mode == 2) return -roundInt(rc.neg(x), 1);
        if (mode == 3) { if (x->isConst()) return (long)std::round(x->constVal().get_d()); if (branch(nc.rle(rc.zero, x))) return roundInt(rc.add(x, rc.cst(Q(1, 2))), 1); return -roundInt(rc.add(rc.neg(x), rc.cst(Q(1, 2))), 1); }
        auto fl = [](const Q& q) { mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return z; };
        if (x->isConst()) {
            Q c = x->constVal();
            mpz_class z = fl(c);
            if (mode == 0 && c < 0 && Q(z) != c) z += 1;
            if (!z.fits_slong_p()) throw PathEnd{PE_UNSUP, "float to int out of range"};
            return z.get_si();
        }
        auto cond = [&](long k) {
            R lo = rc.cst(Q(k)), hi = rc.cst(Q(k + 1));
            if (mode == 0 && k == 0) return nc.bin(O_AND, nc.rlt(rc.cst(Q(-1)), x), nc.rlt(x, rc.cst(Q(1))));
            if (mode == 0 && k < 0) return nc.bin(O_AND, nc.rlt(rc.cst(Q(k - 1)), x), nc.rle(x, lo));
            return nc.bin(O_AND, nc.rle(lo, x), nc.rlt(x, hi));
        };
        for (int it = 0; it < 300; it++) {
            long cand = 0;
            if (pos < prefix.size()) {
                int d = prefix[pos++];
                cand = d >> 1;
                decisions.push_back(d);
                N c = cond(cand);
                if (d & 1) { assume(c); return cand; }
                assume(nc.notN(c));
                continue;
            }
            checkTime();
            if (tryWitness()) { long double v = rc.eval(x); cand = (long)(mode == 0 ? std::trunc((double)v) : std::floor((double)v)); }
            else {
                Model m;
                int a = rc.var("__rnd" + std::to_string(x->id), false, -10, 10);
                Res r = query({nc.req(rc.atomR(a), x)}, queryTimeout, &m, "concretize");
                if (r == UNSAT) throw PathEnd{PE_PRUNE, "infeasible"};
                if (r == SAT && m.real.count(a)) { double v = m.real[a]; cand = (long)(mode == 0 ? std::trunc(v) : std::floor(v)); }
                else throw PathEnd{PE_UNSUP, "cannot round symbolic value"};
            }
            if (cand > (1L << 28) || cand < -(1L << 28)) throw PathEnd{PE_UNSUP, "rounded value too large"};
            N c = cond(cand);
            pos++;
            haveAlt = haveAltModel = false;
            int f2 = feasible(nc.notN(c));
            if (f2) { std::vector<int> alt = decisions; alt.push_back((int)(cand * 2)); work.push_back(alt); forks++; }
            decisions.push_back((int)(cand * 2 + 1));
            assume(c); adopt(c);
            return cand;
        }
        throw PathEnd{PE_UNSUP, "too many rounding cases"};
    }
    N fcmpN(CmpInst::Predicate p, const Val& x, const Val& y) {
        if (p == CmpInst::FCMP_FALSE) return nc.F;
        if (p == CmpInst::FCMP_TRUE) return nc.T;
        bool unord = CmpInst::isUnordered(p);
        if (fpMode) {
            N a = toF(x), b = toF(y);
            auto lt = [&](N u, N v) { return cf2(O_FLT, u, v); };
            auto le = [&](N u, N v) { return cf2(O_FLE, u, v); };
            auto eq = [&](N u, N v) { return cf2(O_FEQ, u, v); };
            N nan = nc.bin(O_OR, fnan(a), fnan(b));
            switch (p) {
                case CmpInst::FCMP_OEQ: return eq(a, b);
                case CmpInst::FCMP_UNE: return nc.notN(eq(a, b));
                case CmpInst::FCMP_OLT: return lt(a, b); case CmpInst::FCMP_OLE: return le(a, b);
                case CmpInst::FCMP_OGT: return lt(b, a); case CmpInst::FCMP_OGE: return le(b, a);
                case CmpInst::FCMP_ULT: return nc.notN(le(b, a)); case CmpInst::FCMP_ULE: return nc.notN(lt(b, a));
                case CmpInst::FCMP_UGT: return nc.notN(le(a, b)); case CmpInst::FCMP_UGE: return nc.notN(lt(a, b));
                case CmpInst::FCMP_ORD: return nc.notN(nan); case CmpInst::FCMP_UNO: return nan;
                case CmpInst::FCMP_ONE: return nc.bin(O_OR, lt(a, b), lt(b, a));
                case CmpInst::FCMP_UEQ: return nc.bin(O_OR, nan, eq(a, b));
                default: break;
            }
            throw PathEnd{PE_UNSUP, "fcmp"};
        }
        R a = toR(x), b = toR(y);
        if (a->spec == NANV || b->spec == NANV) return nc.b(unord);
        switch (p) {
            case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return nc.req(a, b);
            case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return nc.notN(nc.req(a, b));
            case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return nc.rlt(a, b);
            case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return nc.rle(a, b);
            case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return nc.rlt(b, a);
            case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return nc.rle(b, a);
            case CmpInst::FCMP_ORD: return nc.T;
            case CmpInst::FCMP_UNO: return nc.F;
            default: throw PathEnd{PE_UNSUP, "fcmp"};
        }
    }
    N cf2(Op o, N a, N b) {
        if (a->op == O_FCONST && b->op == O_FCONST && fe == 11 && fs == 53) return nc.b(o == O_FLT ? a->fc < b->fc : o == O_FLE ? a->fc <= b->fc : a->fc == b->fc);
        return nc.mk(o, 1, {a, b});
    }
    N fnan(N a) { if (a->op == O_FCONST) return nc.b(std::isnan(a->fc)); return nc.mk(O_FNAN, 1, {a}); }
    Val fneg(const Val& x) {
        if (fpMode) { N a = toF(x); if (a->op == O_FCONST) return fpC(-a->fc); return mkF(nc.mk(O_FNEG, 64, {a})); }
        return Val::mkR(rc.neg(toR(x)));
    }
    R sqrtR(R x) {
        if (x->spec) return x->spec == PINF ? x : rc.nan;
        if (x->isConst()) { if (sgn(x->constVal()) < 0) return rc.nan; return rc.sqrt_(x); }
        if (rc.signKnown(x) < 0) return rc.nan;
        if (rc.signWeak(x) <= 0 && rc.signKnown(x) <= 0) { if (branch(nc.rlt(x, rc.zero))) return rc.nan; }
        return rc.sqrt_(x);
    }
    bool known(R x) { return x->isConst() || x->spec; }
    R domain1(R x, AK k) {  // |x|<=1 functions
        if (!x->spec && !x->isConst()) {
            if (branch(nc.rlt(rc.unit, x))) return rc.nan;
            if (branch(nc.rlt(x, rc.neg(rc.unit)))) return rc.nan;
        } else if (x->spec) return rc.nan;
        return rc.fn1(k, x);
    }
    R logR(R x) {
        if (x->spec) return x->spec == PINF ? x : rc.nan;
        if (!x->isConst() && rc.signKnown(x) <= 0) {
            if (branch(nc.rlt(x, rc.zero))) return rc.nan;
            if (branch(nc.req(x, rc.zero))) return rc.ninf;
        }
        return rc.fn1(A_LOG, x);
    }
    Val select(const Val& c, const Val& a, const Val& b, Type* t) {
        if (c.k == Val::I) return (c.i & 1) ? a : b;
        if (c.k == Val::UNDEF) return a;
        if (c.k == Val::A) { std::vector<Val> v; Type* et = cast<FixedVectorType>(t)->getElementType(); for (size_t i = 0; i < c.a->size(); i++) v.push_back(select((*c.a)[i], (*a.a)[i], (*b.a)[i], et)); return Val::mkA(v); }
        N cn = toB(c);
        if (t->isIntegerTy() && a.k != Val::R_ && b.k != Val::R_) return Val::mkE(nc.ite(cn, toNw(a, bits(t)), toNw(b, bits(t))));
        if (fpMode && t->isFloatingPointTy()) { N x = toF(a), y = toF(b); if (x == y) return a; return mkF(nc.mk(O_FITE, 64, {cn, x, y})); }
        if (!forkSelect && t->isFloatingPointTy()) {
            R x = toR(a), y = toR(b);
            if (x == y) return a;
            if (!x->spec && !y->spec) {
                int id = rc.newAtom(A_ITE, x, y, "ite" + std::to_string(cn->id));
                rc.atoms[id].cond = cn;
                if (rc.signWeak(x) > 0 && rc.signWeak(y) > 0) rc.atoms[id].nonneg = true;
                return Val::mkR(rc.atomR(id));
            }
        }
        return branch(cn) ? a : b;
    }
    N toNw(const Val& v, int w) { if (v.k == Val::UNDEF) return nc.cst(0, w); return toN(v); }

    Val castOp(unsigned opc, const Val& v, Type* from, Type* to) {
        if (to->isVectorTy() && from->isVectorTy() && opc != Instruction::BitCast) {
            std::vector<Val> r;
            for (auto& e : *v.a) r.push_back(castOp(opc, e, cast<VectorType>(from)->getElementType(), cast<VectorType>(to)->getElementType()));
            return Val::mkA(r);
        }
        switch (opc) {
            case Instruction::Trunc: { if (v.k == Val::UNDEF) return undefOf(to); return v.k == Val::I ? Val::mkI(v.i, bits(to)) : Val::mkE(nc.extract(toN(v), 0, bits(to))); }
            case Instruction::ZExt: { if (v.k == Val::UNDEF) return Val::mkI(0, bits(to)); return v.k == Val::I ? Val::mkI(v.i, bits(to)) : Val::mkE(nc.zext(toN(v), bits(to))); }
            case Instruction::SExt: { if (v.k == Val::UNDEF) return Val::mkI(0, bits(to)); return v.k == Val::I ? Val::mkI((u128)NodeCtx::sx(v.i, v.w), bits(to)) : Val::mkE(nc.sext(toN(v), bits(to))); }
            case Instruction::PtrToInt: case Instruction::IntToPtr: { Val r = v; if (r.k == Val::I) r = Val::mkI(r.i, bits(to)); return r; }
            case Instruction::BitCast: {
                if (from == to) return v;
                if (from->isVectorTy() || to->isVectorTy()) {
                    uint64_t a = allocObj(64, 1, "bitcast");
                    store(a, v, from);
                    Val r = load(a, to);
                    objs.erase(a); last = nullptr;
                    return r;
                }
                if (to->isFloatingPointTy() && v.k == Val::I && !fpMode) return Val::mkR(toR(v));
                if (to->isFloatingPointTy() && v.k == Val::I && fpMode) return mkF(toF(v));
                if (to->isIntegerTy() && fpMode && v.k == Val::E && v.e->op == O_FCONST) { uint64_t b; memcpy(&b, &v.e->fc, 8); return Val::mkI(b, 64); }
                return v;
            }
            case Instruction::FPExt: case Instruction::FPTrunc:
                if (opc == Instruction::FPTrunc) assumptions["narrowing floating conversion treated as identity"]++;
                return v;
            case Instruction::SIToFP: case Instruction::UIToFP: {
                Val c = v;
                if (v.k == Val::E) c = Val::mkI(concretize(v), v.w);
                if (c.k == Val::UNDEF) return fpC(0);
                if (opc == Instruction::SIToFP) return fpMode ? fpC((double)NodeCtx::sx(c.i, c.w)) : Val::mkR(rc.cst(Q(mpz_class((long)NodeCtx::sx(c.i, c.w)))));
                return fpMode ? fpC((double)c.i) : Val::mkR(rc.cst(Q(mpz_class((unsigned long)c.i))));
            }
            case Instruction::FPToSI: case Instruction::FPToUI: {
                if (fpMode) { N a = toF(v); if (a->op == O_FCONST) return Val::mkI((u128)(__int128)a->fc, bits(to)); if (opc == Instruction::FPToSI) { Val r; r.k = Val::E; r.w = bits(to); r.e = nc.mk(O_FTOSI, bits(to), {a}); return r; } throw PathEnd{PE_UNSUP, "fp to int in fp mode"}; }
                R x = toR(v);
                if (x->isConst() && opc == Instruction::FPToUI) { mpz_class z; Q c = x->constVal(); mpz_tdiv_q(z.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t()); return Val::mkI((u128)z.get_ui(), bits(to)); }
                return Val::mkI((u128)(__int128)roundInt(x, 0), bits(to));
            }
        }
        throw PathEnd{PE_UNSUP, "cast"};
    }
    // ---- calls
    std::string cstr(uint64_t a) {
        std::string s;
        for (int i = 0; i < 4096; i++) { Obj* o = access(a + i, 1, false); char c = o->b[a + i - o->base]; if (!c) break; s += c; }
        return s;
    }
    Val callFunction(Function* f, std::vector<Val> args) {
        if (stubFor(f)) { Val r; if (builtin(f, args, nullptr, r)) return r; }
        if (f->isDeclaration()) {
            Val r;
            if (builtin(f, args, nullptr, r)) return r;
            externs.insert(f->getName().str());
            throw PathEnd{PE_UNSUP, "external function " + demangle(f->getName().str())};
        }
        return exec(f, args);
    }
    static bool pre(StringRef n, const char* p) { return n.starts_with(p); }
    // 1: functions with a body whose body is replaced by a stub
    int stubFor(Function* f) {
        auto it = stubKind.find(f);
        if (it != stubKind.end()) return it->second;
        StringRef n = f->getName();
        int k = 0;
        if (n.starts_with("sym_")) k = 1;
        static const char* ps[] = {"_ZNSo", "_ZStlsI", "_ZSt16__ostream_insert", "_ZNSi", "_ZNSt9basic_ios", "_ZNSt8ios_base", "_ZNSt14basic_ofstream", "_ZNSt13basic_filebuf", "_ZSt4endl", "_ZSt5flush", "_ZNSt13basic_ostreamIc", "_ZNKSt9basic_ios", "_ZNSt13basic_fstream", "_ZNSt15basic_streambuf", "_ZNSt14basic_ifstream", "_ZNKSt14basic_ofstream", "_ZNKSt13basic_fstream", "_ZNKSt12__basic_file", "_ZNSt12__basic_file", "_ZStrsI", "_ZNSt6thread15_M_start_thread"};
        for (auto p : ps) if (n.starts_with(p)) k = 1;
        stubKind[f] = k;
        return k;
    }
    Val exec(Function* f, std::vector<Val>& args) {
        if (stack.size() > 3000) throw PathEnd{PE_UNSUP, "call depth"};
        Frame fr;
        fr.f = f; fr.fi = info(f);
        fr.regs.resize(fr.fi->n);
        unsigned ai = 0;
        for (auto& a : f->args()) {
            if (ai >= args.size()) break;
            Val v = args[ai];
            if (a.hasByValAttr()) {
                uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
                uint64_t p = allocObj(sz, 1, "byval");
                copyMem(p, (uint64_t)v.i, sz);
                fr.allocas.push_back(p);
                v = Val::mkI(p, 64);
            }
            fr.regs[ai++] = v;
        }
        stack.push_back({f, nullptr});
        size_t myIdx = stack.size() - 1;
        BasicBlock* bb = &f->getEntryBlock(); BasicBlock* prev = nullptr;
        Val ret;
        while (true) {
            bbSeen.insert(bb);
            auto it = bb->begin();
            // phis
            std::vector<std::pair<int, Val>> ph;
            while (auto* p = dyn_cast<PHINode>(&*it)) { ph.push_back({fr.fi->slot[p], get(fr, p->getIncomingValueForBlock(prev))}); ++it; }
            for (auto& x : ph) fr.regs[x.first] = x.second;
            BasicBlock* next = nullptr;
            bool done = false;
            for (; it != bb->end(); ++it) {
                Instruction& I = *it;
                stack[myIdx].cur = &I;
                if (++steps > maxSteps) { incomplete = true; incompleteWhy = "step limit"; throw PathEnd{PE_UNSUP, "step limit"}; }
                if ((steps & 0xffff) == 0) checkTime();
                if (auto* br = dyn_cast<BranchInst>(&I)) {
                    if (br->isUnconditional()) next = br->getSuccessor(0);
                    else { Val c = get(fr, br->getCondition()); bool t = c.k == Val::I ? (c.i & 1) : c.k == Val::UNDEF ? false : branch(toB(c)); next = br->getSuccessor(t ? 0 : 1); }
                    break;
                }
                if (auto* r = dyn_cast<ReturnInst>(&I)) { if (r->getReturnValue()) ret = get(fr, r->getReturnValue()); done = true; break; }
                if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                    Val c = get(fr, sw->getCondition());
                    next = sw->getDefaultDest();
                    for (auto& cs : sw->cases()) { Val cv = constVal(cs.getCaseValue()); if (branch(nc.bin(O_EQ, toNw(c, cv.w), toN(cv)))) { next = cs.getCaseSuccessor(); break; } }
                    break;
                }
                if (isa<UnreachableInst>(&I)) throw PathEnd{PE_ABORT, "unreachable reached"};
                if (auto* cb = dyn_cast<CallBase>(&I)) {
                    Val r = doCall(fr, cb);
                    if (!I.getType()->isVoidTy()) fr.regs[fr.fi->slot[&I]] = r;
                    if (auto* iv = dyn_cast<InvokeInst>(&I)) { next = iv->getNormalDest(); break; }
                    continue;
                }
                if (auto* al = dyn_cast<AllocaInst>(&I)) {
                    uint64_t n = (uint64_t)concretize(get(fr, al->getArraySize())) * DL->getTypeAllocSize(al->getAllocatedType());
                    uint64_t p = allocObj(n, 1, "local " + al->getName().str(), al->getAlign().value());
                    fr.allocas.push_back(p);
                    fr.regs[fr.fi->slot[&I]] = Val::mkI(p, 64);
                    continue;
                }
                if (isa<ResumeInst>(&I)) throw PathEnd{PE_ABORT, "resume"};
                Val r = simple(fr, I);
                if (!I.getType()->isVoidTy()) fr.regs[fr.fi->slot[&I]] = r;
            }
            if (done) break;
            if (!next) throw PathEnd{PE_UNSUP, "no successor"};
            prev = bb; bb = next;
        }
        for (uint64_t a : fr.allocas) { objs.erase(a); }
        last = nullptr;
        stack.pop_back();
        return ret;
    }
    Val simple(Frame& fr, Instruction& I) {
        Type* t = I.getType();
        switch (I.getOpcode()) {
            case Instruction::Load: { uint64_t a = concretize(get(fr, I.getOperand(0))); return load(a, t); }
            case Instruction::Store: { Val v = get(fr, I.getOperand(0)); uint64_t a = concretize(get(fr, I.getOperand(1))); store(a, v, I.getOperand(0)->getType()); return Val(); }
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&I);
                uint64_t a = concretize(get(fr, g->getPointerOperand()));
                for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
                    if (StructType* st = ti.getStructTypeOrNull()) { a += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ti.getOperand())->getZExtValue()); continue; }
                    Val iv = get(fr, ti.getOperand());
                    int64_t k = iv.k == Val::I ? (int64_t)(__int128)NodeCtx::sx(iv.i, iv.w) : (int64_t)NodeCtx::sx(concretize(iv), iv.w);
                    a += k * (int64_t)DL->getTypeAllocSize(ti.getIndexedType());
                }
                return Val::mkI(a, 64);
            }
            case Instruction::Select: return select(get(fr, I.getOperand(0)), get(fr, I.getOperand(1)), get(fr, I.getOperand(2)), t);
            case Instruction::FNeg: {
                Val v = get(fr, I.getOperand(0));
                if (t->isVectorTy()) { std::vector<Val> r; for (auto& x : *v.a) r.push_back(fneg(x)); return Val::mkA(r); }
                return fneg(v);
            }
            case Instruction::ICmp: {
                Val a = get(fr, I.getOperand(0)), b = get(fr, I.getOperand(1));
                auto p = cast<ICmpInst>(&I)->getPredicate();
                if (t->isVectorTy()) { std::vector<Val> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(icmp(p, (*a.a)[i], (*b.a)[i])); return Val::mkA(r); }
                return icmp(p, a, b);
            }
            case Instruction::FCmp: {
                Val a = get(fr, I.getOperand(0)), b = get(fr, I.getOperand(1));
                auto p = cast<FCmpInst>(&I)->getPredicate();
                if (t->isVectorTy()) { std::vector<Val> r; for (size_t i = 0; i < a.a->size(); i++) r.push_back(Val::mkE(fcmpN(p, (*a.a)[i], (*b.a)[i]))); return Val::mkA(r); }
                return Val::mkE(fcmpN(p, a, b));
            }
            case Instruction::ExtractValue: { Val v = get(fr, I.getOperand(0)); for (unsigned k : cast<ExtractValueInst>(&I)->indices()) { if (v.k == Val::UNDEF) return undefAgg(t); Val n = (*v.a)[k]; v = n; } return v; }
            case Instruction::InsertValue: {
                auto* iv = cast<InsertValueInst>(&I);
                Val v = get(fr, I.getOperand(0)), x = get(fr, I.getOperand(1));
                if (v.k == Val::UNDEF) v = undefAgg(t);
                return insertAt(v, iv->getIndices(), 0, x);
            }
            case Instruction::ExtractElement: { Val v = get(fr, I.getOperand(0)); uint64_t k = concretize(get(fr, I.getOperand(1))); if (v.k == Val::UNDEF) return undefOf(t); return v.a->at(k); }
            case Instruction::InsertElement: { Val v = get(fr, I.getOperand(0)); if (v.k == Val::UNDEF) v = undefAgg(t); std::vector<Val> n = *v.a; n.at(concretize(get(fr, I.getOperand(2)))) = get(fr, I.getOperand(1)); return Val::mkA(n); }
            case Instruction::ShuffleVector: {
                auto* sv = cast<ShuffleVectorInst>(&I);
                Val a = get(fr, I.getOperand(0)), b = get(fr, I.getOperand(1));
                if (a.k == Val::UNDEF) a = undefAgg(I.getOperand(0)->getType());
                if (b.k == Val::UNDEF) b = undefAgg(I.getOperand(1)->getType());
                std::vector<Val> r; size_t n = a.a->size();
                for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? undefOf(cast<VectorType>(t)->getElementType()) : (size_t)m < n ? (*a.a)[m] : (*b.a)[m - n]);
                return Val::mkA(r);
            }
            case Instruction::Freeze: { Val v = get(fr, I.getOperand(0)); if (v.k == Val::UNDEF) return zeroOf(t); return v; }
            case Instruction::AtomicRMW: {
                auto* ar = cast<AtomicRMWInst>(&I);
                uint64_t a = concretize(get(fr, ar->getPointerOperand()));
                Type* vt = ar->getValOperand()->getType();
                Val old = load(a, vt), v = get(fr, ar->getValOperand()), n;
                switch (ar->getOperation()) {
                    case AtomicRMWInst::Xchg: n = v; break;
                    case AtomicRMWInst::Add: n = ibin(Instruction::Add, old, v); break;
                    case AtomicRMWInst::Sub: n = ibin(Instruction::Sub, old, v); break;
                    case AtomicRMWInst::And: n = ibin(Instruction::And, old, v); break;
                    case AtomicRMWInst::Or: n = ibin(Instruction::Or, old, v); break;
                    default: throw PathEnd{PE_UNSUP, "atomicrmw"};
                }
                store(a, n, vt);
                return old;
            }
            case Instruction::AtomicCmpXchg: {
                auto* cx = cast<AtomicCmpXchgInst>(&I);
                uint64_t a = concretize(get(fr, cx->getPointerOperand()));
                Type* vt = cx->getCompareOperand()->getType();
                Val old = load(a, vt), cmp = get(fr, cx->getCompareOperand());
                bool eq = branch(nc.bin(O_EQ, toN(old), toN(cmp)));
                if (eq) store(a, get(fr, cx->getNewValOperand()), vt);
                return Val::mkA({old, Val::mkI(eq, 1)});
            }
            case Instruction::Fence: return Val();
            case Instruction::LandingPad: return undefAgg(t);
            default: break;
        }
        if (auto* bo = dyn_cast<BinaryOperator>(&I)) {
            Val a = get(fr, bo->getOperand(0)), b = get(fr, bo->getOperand(1));
            bool fp = t->isFPOrFPVectorTy();
            if (t->isVectorTy()) {
                if (a.k == Val::UNDEF) a = zeroOf(t); if (b.k == Val::UNDEF) b = zeroOf(t);
                std::vector<Val> r;
                for (size_t i = 0; i < a.a->size(); i++) r.push_back(fp ? fbin(I.getOpcode(), (*a.a)[i], (*b.a)[i]) : ibin(I.getOpcode(), (*a.a)[i], (*b.a)[i]));
                return Val::mkA(r);
            }
            return fp ? fbin(I.getOpcode(), a, b) : ibin(I.getOpcode(), a, b);
        }
        if (auto* ci = dyn_cast<CastInst>(&I)) return castOp(I.getOpcode(), get(fr, I.getOperand(0)), I.getOperand(0)->getType(), t);
        throw PathEnd{PE_UNSUP, std::string("instruction ") + I.getOpcodeName()};
    }
    Val insertAt(const Val& v, ArrayRef<unsigned> idx, unsigned d, const Val& x) {
        if (d == idx.size()) return x;
        std::vector<Val> n = *v.a;
        n[idx[d]] = insertAt(n[idx[d]], idx, d + 1, x);
        return Val::mkA(n);
    }
    Val doCall(Frame& fr, CallBase* cb) {
        Function* f = cb->getCalledFunction();
        if (f && f->getName().starts_with("llvm.dbg")) return Val();
        if (cb->isInlineAsm()) { if (cb->getType()->isVoidTy()) return Val(); throw PathEnd{PE_UNSUP, "inline asm"}; }
        std::vector<Val> args;
        for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { args.push_back(Val()); continue; } args.push_back(get(fr, a)); }
        if (f && f->isIntrinsic()) return intrinsic(f, cb, args);
        if (!f) {
            if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) f = dyn_cast<Function>(al->getAliaseeObject());
        }
        if (!f) {
            uint64_t a = concretize(get(fr, cb->getCalledOperand()));
            auto it = faddr.find(a);
            if (it == faddr.end()) throw PathEnd{PE_VIOL, "memory: call through invalid function pointer"};
            f = it->second;
        }
        // byval copies decided by the callee's attribute; also honour call-site attribute on declarations
        Val r;
        if (f->isDeclaration() || stubFor(f)) {
            if (builtin(f, args, cb, r)) return r;
            if (f->isDeclaration()) { externs.insert(f->getName().str()); throw PathEnd{PE_UNSUP, "external function " + demangle(f->getName().str())}; }
        }
        return exec(f, args);
    }
    Val elemwise(Type* t, std::vector<Val>& args, std::function<Val(std::vector<Val>&)> fn) {
        if (!t->isVectorTy()) return fn(args);
        std::vector<Val> r;
        size_t n = cast<FixedVectorType>(t)->getNumElements();
        for (size_t i = 0; i < n; i++) { std::vector<Val> a; for (auto& x : args) a.push_back(x.k == Val::A ? (*x.a)[i] : x); r.push_back(fn(a)); }
        return Val::mkA(r);
    }
    Val minmax(const Val& a, const Val& b, bool mx) {
        if (fpMode) { N x = toF(a), y = toF(b); return mkF(nc.mk(O_FITE, 64, {cf2(O_FLT, x, y), mx ? y : x, mx ? x : y})); }
        R x = toR(a), y = toR(b);
        if (x->spec == NANV) return b; if (y->spec == NANV) return a;
        return branch(nc.rlt(x, y)) ? (mx ? b : a) : (mx ? a : b);
    }
    Val intrinsic(Function* f, CallBase* cb, std::vector<Val>& a) {
        Type* t = cb->getType();
        switch (f->getIntrinsicID()) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(concretize(a[0]), concretize(a[1]), concretize(a[2])); return Val();
            case Intrinsic::memset: memSet(concretize(a[0]), a[1], concretize(a[2])); return Val();
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::eh_typeid_for: case Intrinsic::var_annotation:
                if (t->isVoidTy()) return Val(); return zeroOf(t);
            case Intrinsic::invariant_start: case Intrinsic::stacksave: return Val::mkI(0, 64);
            case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::annotation: case Intrinsic::ptr_annotation: return a[0];
            case Intrinsic::is_constant: return Val::mkI(0, 1);
            case Intrinsic::objectsize: return Val::mkI(~(u128)0, bits(t));
            case Intrinsic::trap: throw PathEnd{PE_ABORT, "trap"};
            case Intrinsic::sqrt: return elemwise(t, a, [&](std::vector<Val>& x) { return mathFn("sqrt", x); });
            case Intrinsic::fabs: return elemwise(t, a, [&](std::vector<Val>& x) { return mathFn("fabs", x); });
            case Intrinsic::sin: return mathFn("sin", a); case Intrinsic::cos: return mathFn("cos", a);
            case Intrinsic::exp: return mathFn("exp", a); case Intrinsic::log: return mathFn("log", a); case Intrinsic::log10: return mathFn("log10", a); case Intrinsic::log2: return mathFn("log2", a);
            case Intrinsic::exp2: return mathFn("exp2", a);
            case Intrinsic::pow: return mathFn("pow", a);
            case Intrinsic::powi: {
                if (fpMode) throw PathEnd{PE_UNSUP, "powi"};
                long e = (long)(int32_t)concretize(a[1]); R x = toR(a[0]);
                if (e < 0) return Val::mkR(divR(rc.unit, rc.powi(x, -e)));
                return Val::mkR(rc.powi(x, e));
            }
            case Intrinsic::ldexp: { long e = (long)(int32_t)concretize(a[1]); Q p = 1; for (long k = 0; k < std::labs(e); k++) p *= 2; return Val::mkR(rc.scale(toR(a[0]), e < 0 ? Q(1 / p) : p)); }
            case Intrinsic::floor: return mathFn("floor", a); case Intrinsic::ceil: return mathFn("ceil", a); case Intrinsic::trunc: return mathFn("trunc", a); case Intrinsic::round: return mathFn("round", a);
            case Intrinsic::copysign: return mathFn("copysign", a);
            case Intrinsic::minnum: case Intrinsic::minimum: return elemwise(t, a, [&](std::vector<Val>& x) { return minmax(x[0], x[1], false); });
            case Intrinsic::maxnum: case Intrinsic::maximum: return elemwise(t, a, [&](std::vector<Val>& x) { return minmax(x[0], x[1], true); });
            case Intrinsic::fma: case Intrinsic::fmuladd:
                return elemwise(t, a, [&](std::vector<Val>& x) { return fbin(Instruction::FAdd, fbin(Instruction::FMul, x[0], x[1]), x[2]); });
            case Intrinsic::umin: return elemwise(t, a, [&](std::vector<Val>& x) { return iteV(icmp(CmpInst::ICMP_ULT, x[0], x[1]), x[0], x[1]); });
            case Intrinsic::umax: return elemwise(t, a, [&](std::vector<Val>& x) { return iteV(icmp(CmpInst::ICMP_UGT, x[0], x[1]), x[0], x[1]); });
            case Intrinsic::smin: return elemwise(t, a, [&](std::vector<Val>& x) { return iteV(icmp(CmpInst::ICMP_SLT, x[0], x[1]), x[0], x[1]); });
            case Intrinsic::smax: return elemwise(t, a, [&](std::vector<Val>& x) { return iteV(icmp(CmpInst::ICMP_SGT, x[0], x[1]), x[0], x[1]); });
            case Intrinsic::abs: { Val z = Val::mkI(0, bits(t)); return iteV(icmp(CmpInst::ICMP_SLT, a[0], z), ibin(Instruction::Sub, z, a[0]), a[0]); }
            case Intrinsic::usub_sat: { return iteV(icmp(CmpInst::ICMP_ULT, a[0], a[1]), Val::mkI(0, bits(t)), ibin(Instruction::Sub, a[0], a[1])); }
            case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
                int w = bits(t); u128 v = concretize(a[0]) & NodeCtx::mask(w); int n = 0;
                if (f->getIntrinsicID() == Intrinsic::ctpop) { while (v) { n += v & 1; v >>= 1; } }
                else if (f->getIntrinsicID() == Intrinsic::ctlz) { n = w; while (v) { n--; v >>= 1; } }
                else { if (!v) n = w; else while (!(v & 1)) { n++; v >>= 1; } }
                return Val::mkI(n, w);
            }
            case Intrinsic::bswap: { int w = bits(t); u128 v = concretize(a[0]), r = 0; for (int k = 0; k < w / 8; k++) r |= ((v >> (8 * k)) & 0xff) << (w - 8 - 8 * k); return Val::mkI(r, w); }
            case Intrinsic::fshl: case Intrinsic::fshr: {
                int w = bits(t); u128 s = concretize(a[2]) % w; u128 x = concretize(a[0]), y = concretize(a[1]);
                if (f->getIntrinsicID() == Intrinsic::fshl) return Val::mkI(s ? (x << (int)s) | (y >> (int)(w - s)) : x, w);
                return Val::mkI(s ? (x << (int)(w - s)) | (y >> (int)s) : y, w);
            }
            case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
                bool sg = f->getIntrinsicID() == Intrinsic::smul_with_overflow || f->getIntrinsicID() == Intrinsic::sadd_with_overflow || f->getIntrinsicID() == Intrinsic::ssub_with_overflow;
                unsigned op = (f->getIntrinsicID() == Intrinsic::umul_with_overflow || f->getIntrinsicID() == Intrinsic::smul_with_overflow) ? Instruction::Mul : (f->getIntrinsicID() == Intrinsic::uadd_with_overflow || f->getIntrinsicID() == Intrinsic::sadd_with_overflow) ? Instruction::Add : Instruction::Sub;
                N x = toN(a[0]), y = toN(a[1]); int w = x->w;
                if (w > 64) throw PathEnd{PE_UNSUP, "wide overflow"};
                N X = sg ? nc.sext(x, w + w) : nc.zext(x, w + w), Y = sg ? nc.sext(y, 2 * w) : nc.zext(y, 2 * w);
                N full = nc.bin(icOp(op), X, Y), low = nc.extract(full, 0, w);
                N back = sg ? nc.sext(low, 2 * w) : nc.zext(low, 2 * w);
                return Val::mkA({Val::mkE(low), Val::mkE(nc.notN(nc.bin(O_EQ, back, full)))});
            }
            case Intrinsic::is_fpclass: {
                unsigned m = (unsigned)concretize(a[1]);
                if (fpMode) {
                    N x = toF(a[0]); N r = nc.F;
                    if ((m & 3) == 3) r = nc.bin(O_OR, r, fnan(x));
                    N inf = cf2(O_FEQ, mkF(nc.mk(O_FABS, 64, {x})).e, nc.fcst(INFINITY));
                    if ((m & 0x204) == 0x204) r = nc.bin(O_OR, r, inf);
                    if ((m & 0x1f8) == 0x1f8) r = nc.bin(O_OR, r, nc.notN(nc.bin(O_OR, inf, fnan(x))));
                    return Val::mkE(r);
                }
                R x = toR(a[0]);
                if (x->spec == NANV) return Val::mkI((m & 3) != 0, 1);
                if (x->spec == PINF) return Val::mkI((m & 0x200) != 0, 1);
                if (x->spec == NINF) return Val::mkI((m & 0x4) != 0, 1);
                bool neg = m & 0x8, pos = m & 0x100, zer = (m & 0x60) != 0;
                if (neg && pos && zer) return Val::mkI(1, 1);
                if (!neg && !pos && !zer) return Val::mkI(0, 1);
                N r = nc.F;
                if (neg) r = nc.bin(O_OR, r, nc.rlt(x, rc.zero));
                if (pos) r = nc.bin(O_OR, r, nc.rlt(rc.zero, x));
                if (zer) r = nc.bin(O_OR, r, nc.req(x, rc.zero));
                return Val::mkE(r);
            }
            case Intrinsic::vector_reduce_fadd: { Val s = a[0]; for (auto& x : *a[1].a) s = fbin(Instruction::FAdd, s, x); return s; }
            default: break;
        }
        if (f->getName().starts_with("llvm.lifetime") || f->getName().starts_with("llvm.experimental")) return Val();
        throw PathEnd{PE_UNSUP, "intrinsic " + f->getName().str()};
    }
    Val iteV(const Val& c, const Val& x, const Val& y) {
        if (c.k == Val::I) return c.i & 1 ? x : y;
        return Val::mkE(nc.ite(toB(c), toN(x), toN(y)));
    }
    void memSet(uint64_t p, const Val& v, uint64_t n) {
        if (!n) return;
        Obj* o = access(p, n, true);
        uint64_t off = p - o->base;
        eraseSh(o, off, n);
        uint8_t b = v.k == Val::I ? (uint8_t)v.i : (uint8_t)concretize(v);
        std::fill(o->b.begin() + off, o->b.begin() + off + n, b);
        std::fill(o->init.begin() + off, o->init.begin() + off + n, 1);
    }
    Val mathFn(const std::string& fn, std::vector<Val>& a) {
        if (fpMode) {
            N x = toF(a[0]);
            if (fn == "fabs") return x->op == O_FCONST ? fpC(std::fabs(x->fc)) : mkF(nc.mk(O_FABS, 64, {x}));
            if (fn == "sqrt") return x->op == O_FCONST && fs == 53 ? fpC(std::sqrt(x->fc)) : mkF(nc.mk(O_FSQRT, 64, {x}));
            if (x->op == O_FCONST && (a.size() < 2 || toF(a[1])->op == O_FCONST)) {
                double u = x->fc, w = a.size() > 1 ? toF(a[1])->fc : 0;
                if (fn == "pow") return fpC(std::pow(u, w)); if (fn == "exp") return fpC(std::exp(u)); if (fn == "log") return fpC(std::log(u)); if (fn == "log10") return fpC(std::log10(u)); if (fn == "log2") return fpC(std::log2(u));
                if (fn == "sin") return fpC(std::sin(u)); if (fn == "cos") return fpC(std::cos(u)); if (fn == "floor") return fpC(std::floor(u)); if (fn == "ceil") return fpC(std::ceil(u));
            }
            throw PathEnd{PE_UNSUP, fn + " in fp mode"};
        }
        R x = toR(a[0]);
        auto ret = [](R r) { return Val::mkR(r); };
        if (fn == "fabs") return ret(fabsR(x));
        if (fn == "sqrt") return ret(sqrtR(x));
        if (x->spec == NANV) return ret(rc.nan);
        if (fn == "sin" || fn == "cos" || fn == "tan") { if (x->spec) return ret(rc.nan); if (fn == "tan") { R s, c; rc.tanParts(x, s, c); return ret(divR(s, c)); } return ret(fn == "sin" ? rc.sin_(x) : rc.cos_(x)); }
        if (fn == "exp") return ret(rc.fn1(A_EXP, x));
        if (fn == "exp2") return ret(rc.fn1(A_EXP, rc.mul(x, rc.fn1(A_LOG, rc.cst(Q(2))))));
        if (fn == "log") return ret(logR(x));
        if (fn == "log10" || fn == "log2") {
            if (x->isConst() && fn == "log10") { Q c = x->constVal(); for (int k = -30; k <= 30; k++) { Q p = 1; for (int i = 0; i < std::abs(k); i++) p *= 10; if (k < 0) p = 1 / p; if (p == c) return ret(rc.cst(Q(k))); } }
            R l = logR(x);
            if (l->spec) return ret(l);
            return ret(rc.div(l, rc.fn1(A_LOG, rc.cst(Q(fn == "log10" ? 10 : 2)))));
        }
        if (fn == "pow") return ret(powR(x, toR(a[1])));
        if (fn == "acos") return ret(domain1(x, A_ACOS));
        if (fn == "asin") return ret(domain1(x, A_ASIN));
        if (fn == "atan") return ret(rc.fn1(A_ATAN, x));
        if (fn == "atan2") {
            R y = toR(a[1]);
            if (y->spec || x->spec) throw PathEnd{PE_UNSUP, "atan2 special"};
            int sy = signOf(y);
            if (sy > 0) return ret(rc.fn1(A_ATAN, divR(x, y)));
            int sx = signOf(x);
            if (sy == 0) return ret(sx == 0 ? rc.zero : rc.scale(rc.pi(), Q(sx, 2)));
            R b = rc.fn1(A_ATAN, divR(x, y));
            return ret(rc.add(b, sx >= 0 ? rc.pi() : rc.neg(rc.pi())));
        }
        if (fn == "sinh" || fn == "cosh" || fn == "tanh") {
            if (x->spec) throw PathEnd{PE_UNSUP, "hyperbolic special"};
            R s, c; rc.sinhcosh(x, s, c);
            return ret(fn == "sinh" ? s : fn == "cosh" ? c : divR(s, c));
        }
        if (fn == "asinh") return ret(rc.fn1(A_ASINH, x));
        if (fn == "acosh") { if (!x->spec && !x->isConst() && branch(nc.rlt(x, rc.unit))) return ret(rc.nan); if (x->isConst() && x->constVal() < 1) return ret(rc.nan); return ret(rc.fn1(A_ACOSH, x)); }
        if (fn == "atanh") { return ret(domain1(x, A_ATANH)); }
        if (fn == "cbrt") return ret(rc.fn1(A_CBRT, x));
        if (fn == "hypot") { R y = toR(a[1]); return ret(sqrtR(rc.add(rc.mul(x, x), rc.mul(y, y)))); }
        if (fn == "floor" || fn == "ceil" || fn == "trunc" || fn == "round") {
            if (x->spec) return ret(x);
            if (x->isConst()) { Q c = x->constVal(); if (abs(c) > Q(1e15)) return ret(x); }
            return ret(rc.cst(Q(roundInt(x, fn == "trunc" ? 0 : fn == "floor" ? 1 : fn == "ceil" ? 2 : 3))));
        }
        if (fn == "fmod") return ret(fmodR(x, toR(a[1])));
        if (fn == "copysign") {
            R y = toR(a[1]); R ax = fabsR(x);
            if (y->spec) return ret(y->spec == NINF ? rc.neg(ax) : ax);
            if (y->isConst()) return ret(sgn(y->constVal()) < 0 ? rc.neg(ax) : ax);
            return ret(branch(nc.rlt(y, rc.zero)) ? rc.neg(ax) : ax);
        }
        if (fn == "fmin") return minmax(a[0], a[1], false);
        if (fn == "fmax") return minmax(a[0], a[1], true);
        if (fn == "expm1") return ret(rc.sub(rc.fn1(A_EXP, x), rc.unit));
        if (fn == "log1p") return ret(logR(rc.add(x, rc.unit)));
        throw PathEnd{PE_UNSUP, "math " + fn};
    }
    R powR(R x, R y) {
        if (y->isConst()) {
            Q e = y->constVal();
            if (e == 0) return rc.unit;
            if (x->spec) { if (x->spec == PINF) return e > 0 ? rc.pinf : rc.zero; throw PathEnd{PE_UNSUP, "pow special"}; }
            if (e.get_den() == 1 && abs(e) <= 64) { long n = e.get_num().get_si(); if (n < 0) return divR(rc.unit, rc.powi(x, -n)); return rc.powi(x, n); }
            if (e.get_den() == 2 && abs(e) <= 32) { R s = sqrtR(x); if (s->spec == NANV) return s; long n = e.get_num().get_si(); if (n < 0) return divR(rc.unit, rc.powi(s, -n)); return rc.powi(s, n); }
        }
        if (x->spec || y->spec) {
            if (y->spec == PINF && x->isConst()) { Q c = abs(x->constVal()); return c < 1 ? rc.zero : c == 1 ? rc.unit : rc.pinf; }
            if (y->spec == NINF && x->isConst()) { Q c = abs(x->constVal()); return c > 1 ? rc.zero : c == 1 ? rc.unit : rc.pinf; }
            throw PathEnd{PE_UNSUP, "pow special"};
        }
        if (x->isZero()) { int s = signOf(y); return s > 0 ? rc.zero : s == 0 ? rc.unit : rc.pinf; }
        if (!x->isConst() && rc.signKnown(x) <= 0) { if (branch(nc.rlt(x, rc.zero))) return rc.nan; if (branch(nc.req(x, rc.zero))) return powR(rc.zero, y); }
        else if (x->isConst() && x->constVal() < 0) return rc.nan;
        if (roots && y->isConst() && !x->isConst()) {             // powers by a third or a quarter, as algebraic roots
            double n3 = y->constVal().get_d() * 3, n4 = y->constVal().get_d() * 4;
            bool third = std::fabs(n3 - std::round(n3)) < 1e-14 && std::fabs(n3) <= 32, quarter = n4 == std::round(n4) && std::fabs(n4) <= 32;
            if (third || quarter) {
                R s = quarter ? sqrtR(sqrtR(x)) : rc.fn1(A_CBRT, x);
                long n = std::lround(quarter ? n4 : n3);
                return n < 0 ? divR(rc.unit, rc.powi(s, -n)) : rc.powi(s, n);
            }
        }
        if (x->isConst() && y->isConst()) {                       // perfect powers: 16^(1/4)
            Q e = y->constVal(), b = x->constVal();
            if (e.get_den() <= 64 && abs(e.get_num()) <= 64) {
                unsigned long d = e.get_den().get_ui();
                mpz_class rn, rd;
                if (mpz_root(rn.get_mpz_t(), b.get_num().get_mpz_t(), d) && mpz_root(rd.get_mpz_t(), b.get_den().get_mpz_t(), d)) {
                    Q r(rn, rd); r.canonicalize();
                    long n = e.get_num().get_si(); R v = rc.powi(rc.cst(r), n < 0 ? -n : n);
                    return n < 0 ? divR(rc.unit, v) : v;
                }
            }
        }
        return rc.pow_(x, y);
    }
    // ---- external functions / stubs
    uint64_t heapAlloc(uint64_t n) { if (n > (1UL << 32)) throw PathEnd{PE_ABORT, "allocation of " + std::to_string(n) + " bytes (bad_alloc)"}; return allocObj(n ? n : 1, 2, "heap"); }
    void heapFree(uint64_t p) {
        if (!p) return;
        auto it = objs.find(p);
        if (it == objs.end() || it->second->kind != 2) memViol("free of a pointer that is not a heap allocation");
        if (it->second->freed) memViol("double free");
        it->second->freed = true;
        it->second->sh.clear();
    }
    bool builtin(Function* f, std::vector<Val>& a, CallBase* cb, Val& out) {
        StringRef n = f->getName();
        Type* rt = f->getReturnType();
        auto I = [&](int k) { return concretize(a[k]); };
        auto done0 = [&]() { if (rt->isVoidTy()) out = Val(); else out = zeroOf(rt); return true; };
        if (n.starts_with("sym_")) return symApi(n, a, out);
        // memory
        if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") { out = Val::mkI(heapAlloc(I(0)), 64); return true; }
        if (n == "calloc") { uint64_t p = heapAlloc(I(0) * I(1)); memSet(p, Val::mkI(0, 8), I(0) * I(1)); out = Val::mkI(p, 64); return true; }
        if (n == "aligned_alloc") { out = Val::mkI(heapAlloc(I(1)), 64); return true; }
        if (n == "realloc") {
            uint64_t p = I(0), sz = I(1), q = heapAlloc(sz);
            if (p) { auto it = objs.find(p); if (it == objs.end() || it->second->freed) memViol("realloc of invalid pointer"); uint64_t c = std::min(sz, it->second->size); copyMem(q, p, c); heapFree(p); }
            out = Val::mkI(q, 64); return true;
        }
        if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t" || n == "_ZdlPvmSt11align_val_t" || n == "_ZdaPvSt11align_val_t") { heapFree(I(0)); out = Val(); return true; }
        if (n == "memcpy" || n == "memmove") { copyMem(I(0), I(1), I(2)); out = a[0]; return true; }
        if (n == "memset") { memSet(I(0), a[1], I(2)); out = a[0]; return true; }
        if (n == "memcmp" || n == "bcmp" || n == "strncmp" || n == "strcmp") {
            uint64_t p = I(0), q = I(1), m = n == "strcmp" ? 4096 : I(2);
            for (uint64_t k = 0; k < m; k++) {
                N x = byteAt(access(p + k, 1, false), p + k - find(p + k)->base), y = byteAt(access(q + k, 1, false), q + k - find(q + k)->base);
                if (!branch(nc.bin(O_EQ, x, y))) { bool lt = branch(nc.bin(O_ULT, x, y)); out = Val::mkI((u128)(__int128)(lt ? -1 : 1), 32); return true; }
                if (n.starts_with("str") && branch(nc.bin(O_EQ, x, nc.cst(0, 8)))) break;
            }
            out = Val::mkI(0, 32); return true;
        }
        if (n == "memchr") {
            uint64_t p = I(0), m = I(2);
            N y = nc.cst((u128)(I(1) & 255), 8);
            for (uint64_t k = 0; k < m; k++) {
                N x = byteAt(access(p + k, 1, false), p + k - find(p + k)->base);
                if (branch(nc.bin(O_EQ, x, y))) { out = Val::mkI(p + k, 64); return true; }
            }
            out = Val::mkI(0, 64); return true;
        }
        if (n == "strlen") {
            uint64_t p = I(0), k = 0;
            for (; k < 4096; k++) if (branch(nc.bin(O_EQ, byteAt(access(p + k, 1, false), p + k - find(p + k)->base), nc.cst(0, 8)))) break;
            out = Val::mkI(k, 64); return true;
        }
        // math
        static const std::set<std::string> mf = {"sqrt","fabs","sin","cos","tan","exp","exp2","log","log10","log2","pow","acos","asin","atan","atan2","sinh","cosh","tanh","asinh","acosh","atanh","cbrt","hypot","floor","ceil","trunc","round","fmod","copysign","fmin","fmax","expm1","log1p"};
        {
            std::string m = n.str();
            if (mf.count(m)) { out = mathFn(m, a); return true; }
            if (m.size() > 1 && (m.back() == 'f' || m.back() == 'l') && mf.count(m.substr(0, m.size() - 1))) { out = mathFn(m.substr(0, m.size() - 1), a); return true; }
        }
        if (n == "ldexp" || n == "scalbn") { long e = (long)(int32_t)I(1); Q p = 1; for (long k = 0; k < std::labs(e); k++) p *= 2; out = Val::mkR(rc.scale(toR(a[0]), e < 0 ? Q(1 / p) : p)); return true; }
        if (n == "nextafter") { R x = toR(a[0]), y = toR(a[1]); if (known(x) && known(y) && !x->spec && !y->spec) { out = fpC(std::nextafter(x->constVal().get_d(), y->constVal().get_d())); return true; } return false; }
        if (n == "lround" || n == "lrint") { out = Val::mkI((u128)(__int128)roundInt(toR(a[0]), 3), 64); return true; }
        // runtime
        if (n == "__cxa_guard_acquire") { uint64_t g = I(0); Val v = load(g, Type::getInt8Ty(ctx)); out = Val::mkI(v.i ? 0 : 1, 32); return true; }
        if (n == "__cxa_guard_release") { store(I(0), Val::mkI(1, 8), Type::getInt8Ty(ctx)); out = Val(); return true; }
        if (n == "__cxa_guard_abort") { out = Val(); return true; }
        if (n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n == "atexit") { out = Val::mkI(0, 32); return true; }
        if (n == "abort" || n == "exit" || n == "_exit" || n == "_ZSt9terminatev" || n == "__assert_fail" || n == "__cxa_throw" || n == "__cxa_rethrow" || n == "quick_exit" || n == "_ZSt10unexpectedv" || n == "__clang_call_terminate" || n.starts_with("_ZSt20__throw") || n.starts_with("_ZSt19__throw") || n.starts_with("_ZSt21__throw") || n.starts_with("_ZSt24__throw") || n.starts_with("_ZSt25__throw") || n.starts_with("_ZSt17__throw") || n.starts_with("_ZSt16__throw") || n.starts_with("_ZSt18__throw") || n.starts_with("_ZSt22__throw") || n.starts_with("_ZSt28__throw") || n.starts_with("_ZSt23__throw") || n.starts_with("_ZSt26__throw") || n.starts_with("_ZSt27__throw"))
            throw PathEnd{PE_ABORT, "program aborts/throws (" + demangle(n.str()) + ") in " + where()};
        if (n == "__cxa_allocate_exception") { out = Val::mkI(heapAlloc(I(0)), 64); return true; }
        if (n == "__cxa_free_exception" || n == "__cxa_begin_catch" || n == "__cxa_end_catch") return done0();
        if (n == "__errno_location") { static uint64_t e = 0; e = allocObj(8, 0, "errno"); out = Val::mkI(e, 64); return true; }
        // std::list
        if (n == "_ZNSt8__detail15_List_node_base7_M_hookEPS0_") { uint64_t t = I(0), p = I(1); Type* P = PointerType::getUnqual(ctx); uint64_t pv = concretize(load(p + 8, P)); store(t, Val::mkI(p, 64), P); store(t + 8, Val::mkI(pv, 64), P); store(pv, Val::mkI(t, 64), P); store(p + 8, Val::mkI(t, 64), P); out = Val(); return true; }
        if (n == "_ZNSt8__detail15_List_node_base9_M_unhookEv") { uint64_t t = I(0); Type* P = PointerType::getUnqual(ctx); uint64_t nx = concretize(load(t, P)), pv = concretize(load(t + 8, P)); store(pv, Val::mkI(nx, 64), P); store(nx + 8, Val::mkI(pv, 64), P); out = Val(); return true; }
        if (n == "_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_") {
            uint64_t t = I(0), fi = I(1), la = I(2); Type* P = PointerType::getUnqual(ctx);
            auto L = [&](uint64_t x) { return concretize(load(x, P)); }; auto S = [&](uint64_t x, uint64_t v) { store(x, Val::mkI(v, 64), P); };
            if (t != la) { S(L(la + 8), t); S(L(fi + 8), la); S(L(t + 8), fi); uint64_t tmp = L(t + 8); S(t + 8, L(la + 8)); S(la + 8, L(fi + 8)); S(fi + 8, tmp); }
            out = Val(); return true;
        }
        // threads: run the body inline at creation
        if (n.starts_with("_ZNSt6thread15_M_start_thread")) {
            uint64_t up = I(1); Type* P = PointerType::getUnqual(ctx);
            uint64_t st = concretize(load(up, P)), vt = concretize(load(st, P)), fn = concretize(load(vt + 16, P));
            assumptions["std::thread bodies executed at creation (one schedule)"]++;
            callFunction(faddr.at(fn), {Val::mkI(st, 64)});
            store(I(0), Val::mkI(1, 64), Type::getInt64Ty(ctx));
            out = Val(); return true;
        }
        if (n == "_ZNSt6thread4joinEv" || n == "_ZNSt6thread6detachEv") { Val id = load(I(0), Type::getInt64Ty(ctx)); if (id.i == 0) throw PathEnd{PE_ABORT, "join of non-joinable thread"}; store(I(0), Val::mkI(0, 64), Type::getInt64Ty(ctx)); out = Val(); return true; }
        if (n == "_ZNSt6thread6_StateD2Ev" || n == "_ZNSt6thread6_StateD1Ev") { out = Val(); return true; }
        if (n == "_ZNSt6thread20hardware_concurrencyEv") { out = Val::mkI(hwThreads, 32); return true; }
        if (n.starts_with("pthread_mutex") || n.starts_with("pthread_cond") || n == "pthread_create" || n.starts_with("pthread_once") || n.starts_with("_ZNSt18condition_variable") || n == "__gthread_active_p" || n == "sched_yield" || n.starts_with("pthread_rwlock")) { assumptions["locks and condition variables stubbed"]++; return done0(); }
        if (n.starts_with("_ZNSt6chrono") && n.contains("now")) { out = Val::mkI(1000000 * (++clockTick), 64); return true; }
        if (n == "clock" || n == "time") { out = Val::mkI(++clockTick, 64); return true; }
        if (n == "rand") { out = Val::mkI(12345, 32); return true; }
        if (n == "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE" || n == "_ZNSt13random_device7_M_finiEv" || n == "_ZNSt13random_device14_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE") { out = Val(); return true; }
        if (n.starts_with("_ZNSt13random_device")) { out = Val::mkI(123456789, 32); return true; }
        if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fputs" || n == "fwrite" || n == "fflush" || n == "putc" || n == "fputc") return done0();
        if (n == "getenv") return done0();
        if (n.starts_with("_ZNSt6localeC") || n.starts_with("_ZNSt6localeD") || n.starts_with("_ZNSt6localeaS")) { out = Val(); return true; }
        // iostream family: no-ops that return their first argument
        if (stubFor(f)) {
            assumptions["iostream operations stubbed"]++;
            if (rt->isVoidTy()) { out = Val(); return true; }
            if (rt->isPointerTy() && !a.empty()) { out = a[0]; return true; }
            out = zeroOf(rt);
            return true;
        }
        return false;
    }
    int hwThreads = 4;
    int atomByName(const std::string& n) { auto it = rc.varByName.find(n); if (it == rc.varByName.end()) throw PathEnd{PE_UNSUP, "no input named " + n}; return it->second; }
    int atomOf(R r) {
        if (r->spec || r->t.size() != 1 || r->t[0].c != 1 || r->t[0].m->f.size() != 1 || r->t[0].m->f[0].second != 1) throw PathEnd{PE_UNSUP, "sym_diff/subst needs a plain variable"};
        int a = r->t[0].m->f[0].first;
        if (rc.atoms[a].k != A_VAR) throw PathEnd{PE_UNSUP, "sym_diff/subst needs a plain variable"};
        return a;
    }
    // ---- coroutines (symbolic schedules): every thread of the program under test is interpreted on its own stack
    struct Coro { ucontext_t c; void* mem = nullptr; std::vector<StkEnt> stack; Function* f = nullptr; Val arg; bool live = false; };
    std::vector<std::unique_ptr<Coro>> coros; std::vector<void*> coroMem;
    int curCoro = 0; bool coroKill = false; std::exception_ptr coroExc;
    static constexpr size_t coroStack = 256UL << 20;
    static void coroMain() { coroEngine->coroBody(); }
    inline static Engine* coroEngine = nullptr;
    void coroBody() {
        try {
            Coro& c = *coros[curCoro];
            callFunction(c.f, {c.arg});
            throw PathEnd{PE_UNSUP, "coroutine returned"};
        } catch (...) { if (!coroKill) coroExc = std::current_exception(); }
        coros[curCoro]->live = false;
        curCoro = 0;
        setcontext(&coros[0]->c);
    }
    void coroInit() { if (coros.empty()) { coros.push_back(std::make_unique<Coro>()); coros[0]->live = true; curCoro = 0; coroEngine = this; } }
    int coroCreate(Function* f, Val arg) {
        coroInit();
        auto c = std::make_unique<Coro>();
        if (coroMem.empty()) {
            c->mem = mmap(nullptr, coroStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (c->mem == MAP_FAILED) throw PathEnd{PE_UNSUP, "no memory for a coroutine"};
        } else { c->mem = coroMem.back(); coroMem.pop_back(); }
        c->f = f; c->arg = arg; c->live = true;
        getcontext(&c->c);
        c->c.uc_stack.ss_sp = c->mem; c->c.uc_stack.ss_size = coroStack; c->c.uc_link = nullptr;
        makecontext(&c->c, (void (*)())coroMain, 0);
        coros.push_back(std::move(c));
        return (int)coros.size() - 1;
    }
    void coroSwitch(int to) {
        coroInit();
        if (to < 0 || to >= (int)coros.size() || !coros[to]->live) throw PathEnd{PE_UNSUP, "switch to a dead coroutine"};
        if (to == curCoro) return;
        int from = curCoro;
        coros[from]->stack.swap(stack);
        stack.swap(coros[to]->stack);
        curCoro = to;
        swapcontext(&coros[from]->c, &coros[to]->c);
        if (coroKill && from) throw PathEnd{PE_PRUNE, "path over"};
        if (coroExc) { auto e = coroExc; coroExc = nullptr; std::rethrow_exception(e); }
    }
    void coroReset() {   // called on the main stack at the end of a path: unwinds what is left
        if (coros.empty()) return;
        coroKill = true;
        for (size_t i = 1; i < coros.size(); i++) {
            if (coros[i]->live) {
                if (coros[i]->stack.empty() && !coros[i]->f) {}
                curCoro = (int)i;
                swapcontext(&coros[0]->c, &coros[i]->c);
            }
            coroMem.push_back(coros[i]->mem);
        }
        coroKill = false; coroExc = nullptr; coros.clear(); curCoro = 0;
    }
    bool symApi(StringRef n, std::vector<Val>& a, Val& out) {
        if (n == "sym_coro_create") { out = Val::mkI(coroCreate(faddr.at(concretize(a[0])), a[1]), 32); return true; }
        if (n == "sym_coro_switch") { coroSwitch((int)concretize(a[0])); out = Val(); return true; }
        auto dbl = [&](int k) { if (fpMode) return toF(a[k])->fc; R r = toR(a[k]); if (r->spec) return r->spec == PINF ? 1e300 : -1e300; return r->constVal().get_d(); };
        auto nm = [&](int k) { return cstr(concretize(a[k])); };
        if (n == "sym_native") { out = Val::mkI(0, 32); return true; }
        if (n == "sym_real" || n == "sym_pos" || n == "sym_box") {
            std::string name = nm(0); double lo = dbl(1), hi = dbl(2);
            if (fpMode) {
                std::string u = uniq(name);
                N v = nc.fvar(u, lo, hi);
                inputs.push_back({u, 3, 0, v, 0});
                assume(nc.bin(O_AND, cf2(O_FLE, nc.fcst(lo), v), cf2(O_FLE, v, nc.fcst(hi))));
                out = mkF(v);
                return true;
            }
            out = newReal(name.c_str(), n == "sym_pos", lo, hi);
            if (n == "sym_box") {
                R r = toR(out);
                int at = atomOf(r);
                Q ql = lo == std::floor(lo) ? Q(lo) : rc.fromDouble(lo)->constVal(), qh = hi == std::floor(hi) ? Q(hi) : rc.fromDouble(hi)->constVal();
                sol.bounds[at] = {ql, qh};
                N c1 = nc.rle(rc.cst(ql), r), c2 = nc.rle(r, rc.cst(qh));
                assume(c1); assume(c2);
                assumptions["box bounds on inputs"]++;
            }
            tryWitness();
            return true;
        }
        if (n == "sym_int" || n == "sym_choose") {
            std::string name = nm(0); int64_t lo, hi;
            if (n == "sym_int") { lo = (int64_t)concretize(a[1]); hi = (int64_t)concretize(a[2]); } else { lo = 0; hi = (int64_t)concretize(a[1]) - 1; }
            std::string u = uniq(name);
            N v = nc.var(u, 64, (double)lo, (double)hi);
            inputs.push_back({u, 1, 0, v, 0});
            if (n == "sym_choose") {   // a fresh symbol in a known range: every value is feasible, no query is needed
                if (hi < lo) throw PathEnd{PE_PRUNE, "empty choice"};
                int64_t c = lo;
                if (pos < prefix.size()) c = prefix[pos++];
                else {
                    checkTime();
                    pos++;
                    for (int64_t k = hi; k > lo; k--) { std::vector<int> alt = decisions; alt.push_back((int)k); work.push_back(alt); forks++; }
                }
                decisions.push_back((int)c);
                inputs.back().kind = 2; inputs.back().fixed = (double)c;
                out = Val::mkI((u128)(__int128)c, 64);
                return true;
            }
            assume(nc.bin(O_SLE, nc.cst((u128)(__int128)lo, 64), v));
            assume(nc.bin(O_SLE, v, nc.cst((u128)(__int128)hi, 64)));
            out = Val::mkE(v);
            return true;
        }
        if (n == "sym_concretize") { out = Val::mkI(concretize(a[0]), 64); return true; }
        if (n == "sym_assume") {
            N c = toB(a[0]);
            if (c == nc.F) throw PathEnd{PE_PRUNE, "assume false"};
            bool had = haveWit;
            assume(c);
            if (!fpMode) {
                if (had && !haveWit) newWitEpoch();
                if (!tryWitness()) {
                    Model m; Res r = sol.check(pc, branchTimeout, &m, "assume");
                    if (r == UNSAT) throw PathEnd{PE_PRUNE, "assumptions infeasible"};
                    if (r == SAT) { setModel(m); haveWit = witOkAll(pc, false); }
                }
            }
            out = Val(); return true;
        }
        if (n == "sym_assert") { assertB(toB(a[0]), nm(1)); out = Val(); return true; }
        if (n == "sym_assert_eq") {
            std::string l = nm(2);
            if (fpMode) { N x = toF(a[0]), y = toF(a[1]); assertB(nc.bin(O_OR, cf2(O_FEQ, x, y), nc.bin(O_AND, fnan(x), fnan(y))), l); }
            else assertEq(toR(a[0]), toR(a[1]), l);
            out = Val(); return true;
        }
        if (n == "sym_assert_close") {
            if (fpMode) throw PathEnd{PE_UNSUP, "assert_close in fp mode"};
            R x = toR(a[0]), y = toR(a[1]), t = toR(a[2]); std::string l = nm(3);
            if (x->spec || y->spec) { assertEq(x, y, l); out = Val(); return true; }
            R d = rc.sub(x, y);
            assertB(nc.bin(O_AND, nc.rle(d, t), nc.rle(rc.neg(t), d)), l);
            out = Val(); return true;
        }
        if (n == "sym_diff") { R e = toR(a[0]); if (e->spec) { out = Val::mkR(rc.nan); return true; } out = Val::mkR(rc.diff(e, atomByName(nm(1)))); return true; }
        if (n == "sym_subst") { R e = toR(a[0]); out = e->spec ? a[0] : Val::mkR(rc.subst(e, atomByName(nm(1)), toR(a[2]))); return true; }
        if (n == "sym_expect_abort") { abortOk = concretize(a[0]) != 0; out = Val(); return true; }
        if (n == "sym_reach") { reach(nm(0)); assertsProved[nm(0)]++; out = Val(); return true; }
        if (n == "sym_fail") { confirmAnyModel(nm(0), "failure point reached"); throw PathEnd{PE_PRUNE, "fail"}; }
        if (n == "sym_end") throw PathEnd{PE_DONE, ""};
        if (n == "sym_known") { out = Val::mkI(a[0].k == Val::R_ ? known(a[0].r) : a[0].k == Val::I, 32); return true; }
        if (n == "sym_isnan") { out = Val::mkI(!fpMode && toR(a[0])->spec == NANV, 32); return true; }
        if (n == "sym_isfinite") { out = Val::mkI(fpMode || toR(a[0])->spec == FIN, 32); return true; }
        if (n == "sym_hwthreads") { hwThreads = (int)concretize(a[0]); out = Val(); return true; }
        if (n == "sym_print") {
            std::string v = a[1].k == Val::R_ ? rc.str(a[1].r, 40) : a[1].k == Val::I ? std::to_string((long)a[1].i) : "sym";
            fprintf(stderr, "PRINT %s = %s\n", nm(0).c_str(), v.c_str());
            out = Val(); return true;
        }
        return false;
    }
