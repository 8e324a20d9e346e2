// Boolean / bit-vector / FP expression DAG
#pragma once
#include "real.hpp"
enum Op : uint8_t {
    O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_NOT,
    O_RLT, O_RLE, O_REQ,             // poly <0, <=0, ==0   (width 1)
    O_FVAR, O_FCONST, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FSQRT, O_FITE, O_FLT, O_FLE, O_FEQ, O_FNAN, O_FTOSI
};
struct Node {
    Op op; int w;
    N k[3]; int nk;
    unsigned __int128 c;   // const / extract low
    R r;                   // real
    std::string name;
    double lo, hi;         // var sampling
    double fc;             // FP const
    uint32_t id;
};
typedef unsigned __int128 u128;
struct NodeCtx {
    RealCtx& rc;
    std::unordered_map<size_t, std::vector<Node*>> tab;
    std::vector<Node*> all;
    N T, F;
    NodeCtx(RealCtx& r) : rc(r) { F = cst(0, 1); T = cst(1, 1); }
    static u128 mask(int w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
    N mk(Op op, int w, std::initializer_list<N> ks, u128 c = 0, R r = nullptr, const std::string& name = "", double fc = 0) {
        size_t h = RealCtx::hcomb(op, w);
        for (N x : ks) h = RealCtx::hcomb(h, x->id);
        h = RealCtx::hcomb(h, (size_t)c); h = RealCtx::hcomb(h, r ? r->id : 0); if (!name.empty()) h = RealCtx::hcomb(h, std::hash<std::string>()(name));
        uint64_t fb; memcpy(&fb, &fc, 8); h = RealCtx::hcomb(h, fb);
        for (Node* n : tab[h]) {
            if (n->op != op || n->w != w || n->c != c || n->r != r || n->name != name || memcmp(&n->fc, &fc, 8) || n->nk != (int)ks.size()) continue;
            bool eq = true; int i = 0;
            for (N x : ks) if (n->k[i++] != x) eq = false;
            if (eq) return n;
        }
        Node* n = new Node; n->op = op; n->w = w; n->c = c; n->r = r; n->name = name; n->fc = fc; n->nk = 0; n->lo = n->hi = 0;
        for (N x : ks) n->k[n->nk++] = x;
        n->id = all.size(); all.push_back(n); tab[h].push_back(n);
        return n;
    }
    N cst(u128 v, int w) { return mk(O_CONST, w, {}, v & mask(w)); }
    N b(bool v) { return v ? T : F; }
    static bool isC(N n) { return n->op == O_CONST; }
    static __int128 sx(u128 v, int w) { if (w >= 128) return v; u128 m = (u128)1 << (w - 1); return (__int128)((v ^ m) - m); }
    static bool foldBin(Op op, u128 a, u128 b, int w, u128& o) {
        switch (op) {
            case O_ADD: o = a + b; break; case O_SUB: o = a - b; break; case O_MUL: o = a * b; break;
            case O_AND: o = a & b; break; case O_OR: o = a | b; break; case O_XOR: o = a ^ b; break;
            case O_SHL: o = b >= (u128)w ? 0 : a << (int)b; break; case O_LSHR: o = b >= (u128)w ? 0 : a >> (int)b; break;
            case O_ASHR: { __int128 s = sx(a, w); o = (u128)(s >> (b >= (u128)w ? w - 1 : (int)b)); break; }
            case O_UDIV: if (!b) return false; o = a / b; break; case O_UREM: if (!b) return false; o = a % b; break;
            case O_SDIV: if (!b) return false; o = (u128)(sx(a, w) / sx(b, w)); break;
            case O_SREM: if (!b) return false; o = (u128)(sx(a, w) % sx(b, w)); break;
            case O_EQ: o = a == b; break; case O_ULT: o = a < b; break; case O_ULE: o = a <= b; break;
            case O_SLT: o = sx(a, w) < sx(b, w); break; case O_SLE: o = sx(a, w) <= sx(b, w); break;
            default: return false;
        }
        return true;
    }
    // ITE tree over constant leaves: number of leaves (0: not such a tree, or too big)
    int treeLeaves(N a, int depth = 0) {
        if (isC(a)) return 1;
        if (a->op != O_ITE || depth > 6) return 0;
        int x = treeLeaves(a->k[1], depth + 1), y = x ? treeLeaves(a->k[2], depth + 1) : 0;
        return x && y && x + y <= 12 ? x + y : 0;
    }
    template <typename Fn> N liftTree(N a, Fn f) { return isC(a) ? f(a) : ite(a->k[0], liftTree(a->k[1], f), liftTree(a->k[2], f)); }
    N bin(Op op, N a, N b) {
        int w = a->w;
        if (w > 1 && !(isC(a) && isC(b))) {
            int x = treeLeaves(a), y = x ? treeLeaves(b) : 0;
            if (x && y && x * y <= 24) return x > 1 ? liftTree(a, [&](N u) { return bin(op, u, b); }) : liftTree(b, [&](N u) { return bin(op, a, u); });
        }
        bool cmp = op >= O_EQ && op <= O_SLE;
        int rw = cmp ? 1 : w;
        u128 o;
        if (isC(a) && isC(b) && foldBin(op, a->c, b->c, w, o)) return cst(o, rw);
        if (op == O_AND) { if (a == b) return a; if (isC(a)) std::swap(a, b); if (isC(b)) { if (b->c == 0) return b; if (b->c == mask(w)) return a; } if (w == 1 && (a == notN(b))) return F; }
        if (op == O_OR) { if (a == b) return a; if (isC(a)) std::swap(a, b); if (isC(b)) { if (b->c == 0) return a; if (b->c == mask(w)) return b; } if (w == 1 && (a == notN(b))) return T; }
        if (op == O_XOR) { if (a == b) return cst(0, w); if (isC(a)) std::swap(a, b); if (isC(b) && b->c == 0) return a; if (w == 1 && isC(b)) return notN(a); }
        if (op == O_ADD) { if (isC(a)) std::swap(a, b); if (isC(b) && b->c == 0) return a; if (isC(b) && a->op == O_ADD && isC(a->k[1])) return bin(O_ADD, a->k[0], cst(a->k[1]->c + b->c, w)); }
        if (op == O_SUB) { if (a == b) return cst(0, w); if (isC(b)) return bin(O_ADD, a, cst(-b->c, w)); }
        if (op == O_MUL) { if (isC(a)) std::swap(a, b); if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; } }
        if ((op == O_SHL || op == O_LSHR || op == O_ASHR) && isC(b) && b->c == 0) return a;
        if ((op == O_UDIV) && isC(b) && b->c == 1) return a;
        if (op == O_EQ) {
            if (a == b) return T;
            if (isC(a)) std::swap(a, b);
            if (w == 1 && isC(b)) return b->c ? a : notN(a);
            if (isC(b) && a->op == O_ZEXT) { if (b->c > mask(a->k[0]->w)) return F; return bin(O_EQ, a->k[0], cst(b->c, a->k[0]->w)); }
            if (isC(b) && a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) {
                bool e1 = a->k[1]->c == b->c, e2 = a->k[2]->c == b->c;
                if (e1 && e2) return T; if (!e1 && !e2) return F;
                return e1 ? a->k[0] : notN(a->k[0]);
            }
        }
        if ((op == O_ULT || op == O_SLT) && a == b) return F;
        if ((op == O_ULE || op == O_SLE) && a == b) return T;
        if (op == O_ULT && isC(b) && b->c == 0) return F;
        if (op == O_ULE && isC(a) && a->c == 0) return T;
        return mk(op, rw, {a, b});
    }
    N notN(N a) {
        if (isC(a)) return cst(~a->c, a->w);
        if (a->op == O_NOT) return a->k[0];
        if (a->op == O_RLT) return rcmp(O_RLE, rc.neg(a->r));
        if (a->op == O_RLE) return rcmp(O_RLT, rc.neg(a->r));
        return mk(O_NOT, a->w, {a});
    }
    N ite(N c, N a, N b) {
        if (isC(c)) return c->c ? a : b;
        if (a == b) return a;
        if (a->w == 1) {
            if (a == T) return bin(O_OR, c, b); if (a == F) return bin(O_AND, notN(c), b);
            if (b == T) return bin(O_OR, notN(c), a); if (b == F) return bin(O_AND, c, a);
        }
        return mk(O_ITE, a->w, {c, a, b});
    }
    N zext(N a, int w) { if (a->w == w) return a; if (isC(a)) return cst(a->c, w); if (a->w > 1 && treeLeaves(a)) return liftTree(a, [&](N u) { return zext(u, w); }); return mk(O_ZEXT, w, {a}); }
    N sext(N a, int w) { if (a->w == w) return a; if (isC(a)) return cst((u128)sx(a->c, a->w), w); if (a->w > 1 && treeLeaves(a)) return liftTree(a, [&](N u) { return sext(u, w); }); return mk(O_SEXT, w, {a}); }
    N extract(N a, int lo, int w) {
        if (lo == 0 && w == a->w) return a;
        if (isC(a)) return cst(a->c >> lo, w);
        if (a->w > 1 && treeLeaves(a)) return liftTree(a, [&](N u) { return extract(u, lo, w); });
        if ((a->op == O_ZEXT || a->op == O_SEXT) && lo + w <= a->k[0]->w) return extract(a->k[0], lo, w);
        if (a->op == O_ZEXT && lo >= a->k[0]->w) return cst(0, w);
        if (a->op == O_EXTRACT) return extract(a->k[0], lo + (int)a->c, w);
        if (a->op == O_CONCAT) { int l = a->k[1]->w; if (lo + w <= l) return extract(a->k[1], lo, w); if (lo >= l) return extract(a->k[0], lo - l, w); }
        if (lo == 0 && (a->op == O_AND || a->op == O_OR || a->op == O_XOR || a->op == O_ADD || a->op == O_SUB || a->op == O_MUL) && w == 1) {
            if (a->op == O_AND || a->op == O_OR || a->op == O_XOR) return bin(a->op, extract(a->k[0], 0, 1), extract(a->k[1], 0, 1));
        }
        return mk(O_EXTRACT, w, {a}, lo);
    }
    N concat(N hi, N lo) {
        if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, hi->w + lo->w);
        if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && (int)hi->c == (int)lo->c + lo->w) return extract(hi->k[0], (int)lo->c, hi->w + lo->w);
        if (isC(hi) && hi->c == 0) return zext(lo, hi->w + lo->w);
        return mk(O_CONCAT, hi->w + lo->w, {hi, lo});
    }
    N var(const std::string& n, int w, double lo, double hi) { Node* v = (Node*)mk(O_VAR, w, {}, 0, nullptr, n); v->lo = lo; v->hi = hi; return v; }
    N fvar(const std::string& n, double lo, double hi) { Node* v = (Node*)mk(O_FVAR, 64, {}, 0, nullptr, n); v->lo = lo; v->hi = hi; return v; }
    N fcst(double d) { return mk(O_FCONST, 64, {}, 0, nullptr, "", d); }
    // p op 0
    N rcmp(Op op, R p) {
        if (p->spec) {
            if (p->spec == NANV) return F;
            if (op == O_REQ) return F;
            return b(p->spec == NINF);
        }
        if (p->isConst()) { int s = sgn(p->constVal()); return b(op == O_RLT ? s < 0 : op == O_RLE ? s <= 0 : s == 0); }
        int sk = rc.signKnown(p);
        if (sk > 0) return F;
        if (sk < 0) return b(op != O_REQ);
        int sw = rc.signWeak(p);
        if (op == O_RLE && sw < 0) return T;
        if (op == O_RLT && sw > 0) return F;
        // strip positive common factor, normalise scale
        auto cf = rc.commonFactor(p);
        std::vector<std::pair<int, int>> st;
        for (auto& f : cf) { if (rc.atoms[f.first].pos || (rc.atoms[f.first].nonneg && f.second < 0)) st.push_back(f); else if (op == O_REQ && f.second < 0) st.push_back(f); else if (f.second < 0) st.push_back({f.first, f.second - (f.second % 2 ? 1 : 0)}); }
        if (!st.empty()) p = rc.monoMul(p, st, -1);
        if (p->isConst()) return rcmp(op, p);
        // clear denominators when small
        bool neg = false;
        for (auto& t : p->t) for (auto& f : t.m->f) if (f.second < 0) neg = true;
        if (neg && p->t.size() < 400) {
            try { auto v = rc.clear({p}, op != O_REQ); p = v[0]; if (p->isConst() || rc.signKnown(p)) return rcmp(op, p); } catch (Unsupported&) {}
        }
        Q l = abs(p->t[0].c);
        if (op == O_REQ) l = p->t[0].c;
        if (l != 1) p = rc.scale(p, 1 / l);
        return mk(op, 1, {}, 0, p);
    }
    N rlt(R a, R b) { if (a->spec || b->spec) return spc(a, b, 0); return rcmp(O_RLT, rc.sub(a, b)); }
    N rle(R a, R b) { if (a->spec || b->spec) return spc(a, b, 1); return rcmp(O_RLE, rc.sub(a, b)); }
    N req(R a, R b) { if (a->spec || b->spec) return spc(a, b, 2); if (a == b) return T; return rcmp(O_REQ, rc.sub(a, b)); }
    N spc(R a, R b, int m) {
        if (a->spec == NANV || b->spec == NANV) return F;
        double x = a->spec == PINF ? 1 : a->spec == NINF ? -1 : 0, y = b->spec == PINF ? 1 : b->spec == NINF ? -1 : 0;
        return this->b(m == 0 ? x < y : m == 1 ? x <= y : x == y);
    }
    // ---- evaluation under witness
    std::vector<u128> val; std::vector<uint32_t> ep; uint32_t epoch = 1;
    std::vector<char> tie;
    std::function<u128(N)> bvValue;
    std::function<double(N)> fpValue;
    std::vector<double> fval;
    void newEpoch() { epoch++; }
    bool nearTie = false;  // set when a real comparison was numerically ambiguous
    u128 eval(N n) {
        if (val.size() < all.size()) { val.resize(all.size() * 2); ep.resize(all.size() * 2, 0); fval.resize(all.size() * 2); }
        if (ep[n->id] == epoch) return val[n->id];
        u128 r = 0;
        switch (n->op) {
            case O_CONST: r = n->c; break;
            case O_VAR: r = bvValue(n) & mask(n->w); break;
            case O_NOT: r = ~eval(n->k[0]); break;
            case O_ITE: r = eval(n->k[0]) ? eval(n->k[1]) : eval(n->k[2]); break;
            case O_ZEXT: r = eval(n->k[0]); break;
            case O_SEXT: r = (u128)sx(eval(n->k[0]), n->k[0]->w); break;
            case O_EXTRACT: r = eval(n->k[0]) >> (int)n->c; break;
            case O_CONCAT: r = (eval(n->k[0]) << n->k[1]->w) | eval(n->k[1]); break;
            case O_RLT: case O_RLE: case O_REQ: {
                long double v = rc.eval(n->r), s = rc.evalScale(n->r);
                bool near = !(std::fabs(v) > 1e-12L * s);
                if (near) nearTie = true;
                r = n->op == O_RLT ? (v < 0 && !near) : n->op == O_RLE ? (v <= 0 || near) : near;
                break;
            }
            case O_FLT: r = feval(n->k[0]) < feval(n->k[1]); break;
            case O_FLE: r = feval(n->k[0]) <= feval(n->k[1]); break;
            case O_FEQ: r = feval(n->k[0]) == feval(n->k[1]); break;
            case O_FNAN: r = std::isnan(feval(n->k[0])); break;
            case O_FTOSI: { double d = feval(n->k[0]); r = std::isfinite(d) && std::fabs(d) < 9e18 ? (u128)(__int128)d : 0; break; }
            default: {
                u128 a = eval(n->k[0]), b = eval(n->k[1]);
                if (!foldBin(n->op, a, b, n->k[0]->w, r)) r = 0;
            }
        }
        r &= mask(n->w);
        if (val.size() < all.size()) { val.resize(all.size() * 2); ep.resize(all.size() * 2, 0); fval.resize(all.size() * 2); }
        val[n->id] = r; ep[n->id] = epoch;
        return r;
    }
    double feval(N n) {
        switch (n->op) {
            case O_FVAR: return fpValue(n);
            case O_FCONST: return n->fc;
            case O_FADD: return feval(n->k[0]) + feval(n->k[1]);
            case O_FSUB: return feval(n->k[0]) - feval(n->k[1]);
            case O_FMUL: return feval(n->k[0]) * feval(n->k[1]);
            case O_FDIV: return feval(n->k[0]) / feval(n->k[1]);
            case O_FNEG: return -feval(n->k[0]);
            case O_FABS: return std::fabs(feval(n->k[0]));
            case O_FSQRT: return std::sqrt(feval(n->k[0]));
            case O_FITE: return eval(n->k[0]) ? feval(n->k[1]) : feval(n->k[2]);
            default: return NAN;
        }
    }
};
