// Exact real-arithmetic expression layer: interned Laurent polynomials over atoms.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

typedef mpq_class Q;
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

struct Mono {
    std::vector<std::pair<int, int>> f;  // (atom, exponent), sorted by atom
    int id;
};
typedef const Mono* M;
struct Term { M m; Q c; };
enum Spec : uint8_t { FIN = 0, PINF, NINF, NANV };
struct Poly {
    std::vector<Term> t;  // sorted by mono id
    Spec spec = FIN;
    uint32_t id = 0;
    bool isConst() const { return spec == FIN && (t.empty() || (t.size() == 1 && t[0].m->f.empty())); }
    bool isZero() const { return spec == FIN && t.empty(); }
    Q constVal() const { return t.empty() ? Q(0) : t[0].c; }
};
typedef const Poly* R;

enum AK { A_VAR, A_SQRT, A_POLY, A_SIN, A_COS, A_EXP, A_LOG, A_POW, A_ACOS, A_ASIN, A_ATAN, A_ATAN2, A_SINH, A_COSH, A_ASINH, A_ACOSH, A_ATANH, A_CBRT, A_PI, A_UF, A_ITE };
static const char* AKN[] = {"var","sqrt","poly","sin","cos","exp","log","pow","acos","asin","atan","atan2","sinh","cosh","asinh","acosh","atanh","cbrt","pi","uf","ite"};
struct Node;
typedef const Node* N;
struct Atom {
    AK k;
    std::string name;
    R a = nullptr, b = nullptr;
    N cond = nullptr;
    bool pos = false;     // known > 0
    bool nonneg = false;  // known >= 0
    double lo = -2, hi = 2;   // sampling range (vars)
    bool vlogsample = false;
    int id;
};

extern long double eval_bool_for_ite(N c);
struct RealCtx {
    std::vector<Atom> atoms;
    std::map<std::vector<std::pair<int, int>>, Mono*> monoTab;
    std::unordered_map<size_t, std::vector<Poly*>> polyTab;
    std::vector<Poly*> allPolys;
    M one;
    R zero, unit, pinf, ninf, nan;
    size_t expandCap = 60000;
    double coefTol = 1e-12;
    std::map<std::string, int> varByName;
    int piAtom = -1;

    RealCtx() {
        one = mono({});
        zero = intern({});
        unit = intern({{one, Q(1)}});
        auto sp = [&](Spec s) { Poly* p = new Poly; p->spec = s; p->id = allPolys.size(); allPolys.push_back(p); return p; };
        pinf = sp(PINF); ninf = sp(NINF); nan = sp(NANV);
    }
    M mono(const std::vector<std::pair<int, int>>& f) {
        auto it = monoTab.find(f);
        if (it != monoTab.end()) return it->second;
        Mono* m = new Mono; m->f = f; m->id = monoTab.size();
        monoTab[f] = m;
        return m;
    }
    static size_t hcomb(size_t a, size_t b) { return a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2)); }
    static size_t hq(const Q& q) {
        size_t h = mpz_get_ui(q.get_num_mpz_t());
        h = hcomb(h, mpz_get_ui(q.get_den_mpz_t()));
        return hcomb(h, sgn(q) + 2);
    }
    R intern(std::vector<Term> t) {
        size_t h = t.size();
        for (auto& x : t) h = hcomb(hcomb(h, x.m->id), hq(x.c));
        auto& b = polyTab[h];
        for (Poly* p : b) {
            if (p->t.size() != t.size()) continue;
            bool eq = true;
            for (size_t i = 0; i < t.size() && eq; i++) eq = p->t[i].m == t[i].m && p->t[i].c == t[i].c;
            if (eq) return p;
        }
        Poly* p = new Poly; p->t = std::move(t); p->id = allPolys.size();
        allPolys.push_back(p);
        b.push_back(p);
        return p;
    }
    R cst(const Q& q) { return q == 0 ? zero : intern({{one, q}}); }
    R atomR(int a, int e = 1) { return intern({{mono({{a, e}}), Q(1)}}); }

    typedef std::unordered_map<M, Q> Acc;
    R fromAcc(Acc& acc) {
        std::vector<Term> t;
        t.reserve(acc.size());
        for (auto& kv : acc) if (kv.second != 0) t.push_back({kv.first, kv.second});
        std::sort(t.begin(), t.end(), [](const Term& a, const Term& b) { return a.m->id < b.m->id; });
        return intern(std::move(t));
    }
    // ---- special values
    int signKnown(R p) {  // 1 if >0, -1 if <0, 0 unknown/zero
        if (p->spec == PINF) return 1;
        if (p->spec == NINF) return -1;
        if (p->spec == NANV || p->t.empty()) return 0;
        int s = 0;
        for (auto& t : p->t) {
            int ts = sgn(t.c);
            for (auto& f : t.m->f) {
                if (f.second % 2 == 0) { if (!atoms[f.first].pos) { if (f.second < 0) continue; ts = ts * 2; continue; } }
                else if (!atoms[f.first].pos && !(atoms[f.first].nonneg && f.second < 0)) return 0;
            }
            if (ts == 2 || ts == -2) { ts /= 2; ts = ts > 0 ? 3 : -3; }
            else if (ts > 3 || ts < -3) ts = ts > 0 ? 3 : -3;
            // ts = +-1 strict, +-3 weak
            int sg = ts > 0 ? 1 : -1;
            bool strict = (ts == 1 || ts == -1);
            if (s == 0) s = strict ? sg : sg * 3;
            else { if ((s > 0) != (sg > 0)) return 0; if (strict) s = sg; }
        }
        if (s == 3 || s == -3) return 0;
        return s;
    }
    int signWeak(R p) {  // 1: >=0 ; -1: <=0 ; 0 unknown
        if (p->spec) return signKnown(p);
        if (p->t.empty()) return 1;
        int s = 0;
        for (auto& t : p->t) {
            int ts = sgn(t.c);
            for (auto& f : t.m->f) if (f.second % 2 != 0 && !atoms[f.first].pos && !atoms[f.first].nonneg) return 0;
            if (s == 0) s = ts; else if (s != ts) return 0;
        }
        return s;
    }
    R add(R x, R y) {
        if (x->spec || y->spec) {
            if (x->spec == NANV || y->spec == NANV) return nan;
            if (x->spec && y->spec) return x->spec == y->spec ? x : nan;
            return x->spec ? x : y;
        }
        if (x->t.empty()) return y;
        if (y->t.empty()) return x;
        std::vector<Term> r;
        r.reserve(x->t.size() + y->t.size());
        size_t i = 0, j = 0;
        while (i < x->t.size() || j < y->t.size()) {
            if (j >= y->t.size() || (i < x->t.size() && x->t[i].m->id < y->t[j].m->id)) r.push_back(x->t[i++]);
            else if (i >= x->t.size() || y->t[j].m->id < x->t[i].m->id) r.push_back(y->t[j++]);
            else {
                Q c = x->t[i].c + y->t[j].c;
                if (c != 0) r.push_back({x->t[i].m, c});
                i++; j++;
            }
        }
        return intern(std::move(r));
    }
    R scale(R x, const Q& c) {
        if (x->spec) { if (x->spec == NANV || c == 0) return nan; return (c > 0) == (x->spec == PINF) ? pinf : ninf; }
        if (c == 0) return zero;
        if (c == 1) return x;
        std::vector<Term> r = x->t;
        for (auto& t : r) t.c *= c;
        return intern(std::move(r));
    }
    R neg(R x) { return scale(x, Q(-1)); }
    R sub(R x, R y) { return add(x, neg(y)); }

    // multiply monomials; returns raw (may contain reducible powers)
    static void mulFac(const std::vector<std::pair<int, int>>& a, const std::vector<std::pair<int, int>>& b, std::vector<std::pair<int, int>>& o) {
        o.clear();
        size_t i = 0, j = 0;
        while (i < a.size() || j < b.size()) {
            if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) o.push_back(a[i++]);
            else if (i >= a.size() || b[j].first < a[i].first) o.push_back(b[j++]);
            else {
                int e = a[i].second + b[j].second;
                if (e) o.push_back({a[i].first, e});
                i++; j++;
            }
        }
    }
    bool reducible(const std::vector<std::pair<int, int>>& f) {
        for (auto& x : f) {
            AK k = atoms[x.first].k;
            if (x.second >= 2 && (k == A_SQRT || k == A_SIN || k == A_SINH)) return true;
            if (x.second >= 3 && k == A_CBRT) return true;
            if (x.second >= 1 && k == A_POLY) return true;
        }
        return false;
    }
    R reduceMono(const std::vector<std::pair<int, int>>& f, const Q& c) {
        std::vector<std::pair<int, int>> keep;
        std::vector<R> extra;
        for (auto& x : f) {
            Atom& a = atoms[x.first];
            if (a.k == A_SQRT && x.second >= 2) {
                if (x.second % 2) keep.push_back({x.first, 1});
                extra.push_back(powi(a.a, x.second / 2));
            } else if (a.k == A_CBRT && x.second >= 3) {
                if (x.second % 3) keep.push_back({x.first, x.second % 3});
                extra.push_back(powi(a.a, x.second / 3));
            } else if (a.k == A_POLY && x.second >= 1) {
                extra.push_back(powi(a.a, x.second));
            } else if (a.k == A_SIN && x.second >= 2) {
                if (x.second % 2) keep.push_back({x.first, 1});
                R co = atomR(trigPartner(x.first));
                extra.push_back(powi(sub(unit, mul(co, co)), x.second / 2));
            } else if (a.k == A_SINH && x.second >= 2) {
                if (x.second % 2) keep.push_back({x.first, 1});
                R co = atomR(trigPartner(x.first));
                extra.push_back(powi(sub(mul(co, co), unit), x.second / 2));
            } else keep.push_back(x);
        }
        R r = intern({{mono(keep), c}});
        for (R e : extra) r = mul(r, e);
        return r;
    }
    int trigPartner(int a) {
        AK want = atoms[a].k == A_SIN ? A_COS : atoms[a].k == A_COS ? A_SIN : atoms[a].k == A_SINH ? A_COSH : A_SINH;
        return newAtom(want, atoms[a].a, nullptr);
    }
    R mul(R x, R y) {
        if (x->spec || y->spec) {
            if (x->spec == NANV || y->spec == NANV) return nan;
            int sx = signKnown(x), sy = signKnown(y);
            if ((x->spec == FIN && x->t.empty()) || (y->spec == FIN && y->t.empty())) return nan;
            if (!sx || !sy) throw Unsupported("inf * value of unknown sign");
            return sx * sy > 0 ? pinf : ninf;
        }
        if (x->t.empty() || y->t.empty()) return zero;
        if (x->isConst()) return scale(y, x->constVal());
        if (y->isConst()) return scale(x, y->constVal());
        if (x->t.size() * y->t.size() > expandCap * 4) throw Unsupported("polynomial too large (" + std::to_string(x->t.size()) + "x" + std::to_string(y->t.size()) + ")");
        if (x->id > y->id) std::swap(x, y);
        auto key = std::make_pair(x->id, y->id);
        auto it = mulMemo.find(key);
        if (it != mulMemo.end()) return it->second;
        Acc acc;
        acc.reserve(x->t.size() * y->t.size());
        std::vector<std::pair<int, int>> o;
        R extra = zero;
        for (auto& a : x->t)
            for (auto& b : y->t) {
                mulFac(a.m->f, b.m->f, o);
                if (reducible(o)) {
                    auto oc = o;
                    R rr = reduceMono(oc, a.c * b.c);
                    for (auto& t : rr->t) acc[t.m] += t.c;
                } else acc[mono(o)] += a.c * b.c;
            }
        R r = fromAcc(acc);
        mulMemo[key] = r;
        return r;
    }
    std::map<std::pair<uint32_t, uint32_t>, R> mulMemo;
    R powi(R x, long e) {
        if (e == 0) return unit;
        if (e < 0) return powi(inv(x), -e);
        R r = nullptr, b = x;
        while (e) {
            if (e & 1) r = r ? mul(r, b) : b;
            e >>= 1;
            if (e) b = mul(b, b);
        }
        return r;
    }
    // common monomial factor (min exponents) of p
    std::vector<std::pair<int, int>> commonFactor(R p) {
        std::vector<std::pair<int, int>> cf = p->t[0].m->f;
        for (size_t i = 1; i < p->t.size(); i++) {
            std::vector<std::pair<int, int>> n;
            std::map<int, int> mm(p->t[i].m->f.begin(), p->t[i].m->f.end());
            std::map<int, int> c(cf.begin(), cf.end());
            for (auto& kv : c) { auto it = mm.find(kv.first); int e = std::min(kv.second, it == mm.end() ? 0 : it->second); if (e) n.push_back({kv.first, e}); }
            for (auto& kv : mm) if (!c.count(kv.first) && kv.second < 0) n.push_back({kv.first, kv.second});
            std::sort(n.begin(), n.end());
            cf = n;
        }
        return cf;
    }
    R monoMul(R p, std::vector<std::pair<int, int>> f, int sign) {
        if (sign < 0) for (auto& x : f) x.second = -x.second;
        return mul(p, intern({{mono(f), Q(1)}}));
    }
    // exact multivariate polynomial division (lex order on atoms); nullptr when d does not divide p
    static int lexCmp(M a, M b) {
        size_t i = 0, j = 0;
        while (i < a->f.size() || j < b->f.size()) {
            int ka = i < a->f.size() ? a->f[i].first : 1 << 30, kb = j < b->f.size() ? b->f[j].first : 1 << 30;
            if (ka == kb) { if (a->f[i].second != b->f[j].second) return a->f[i].second > b->f[j].second ? 1 : -1; i++; j++; }
            else if (ka < kb) return a->f[i].second > 0 ? 1 : -1;
            else return b->f[j].second > 0 ? -1 : 1;
        }
        return 0;
    }
    R divExact(R p, R d) {
        if (p->t.size() < d->t.size() || p->t.size() > 4000) return nullptr;
        auto lead = [&](R x) { const Term* b = &x->t[0]; for (auto& t : x->t) if (lexCmp(t.m, b->m) > 0) b = &t; return b; };
        auto trail = [&](R x) { const Term* b = &x->t[0]; for (auto& t : x->t) if (lexCmp(t.m, b->m) < 0) b = &t; return b; };
        auto quot = [&](M a, M b, std::vector<std::pair<int, int>>& o) {
            o.clear();
            size_t j = 0;
            for (auto& x : a->f) {
                int e = x.second;
                if (j < b->f.size() && b->f[j].first < x.first) return false;
                if (j < b->f.size() && b->f[j].first == x.first) e -= b->f[j++].second;
                if (e < 0) return false;
                if (e) o.push_back({x.first, e});
            }
            return j == b->f.size();
        };
        for (auto& t : p->t) for (auto& f : t.m->f) if (f.second < 0) return nullptr;
        for (auto& t : d->t) for (auto& f : t.m->f) if (f.second < 0) return nullptr;
        std::vector<std::pair<int, int>> o;
        const Term *ld = lead(d), *td = trail(d);
        if (!quot(lead(p)->m, ld->m, o) || !quot(trail(p)->m, td->m, o)) return nullptr;
        R q = zero, rem = p;
        for (int it = 0; it < 600 && !rem->t.empty(); it++) {
            const Term* lr = lead(rem);
            if (!quot(lr->m, ld->m, o)) return nullptr;
            R term = intern({{mono(o), lr->c / ld->c}});
            q = add(q, term);
            rem = sub(rem, mul(term, d));
            if (rem->spec || rem->t.size() > 2 * p->t.size() + 50) return nullptr;
        }
        return rem->t.empty() ? q : nullptr;
    }
    std::map<uint32_t, R> invMemo;
    R inv(R p) {
        if (p->spec) return p->spec == NANV ? nan : zero;
        if (p->t.empty()) return pinf;  // caller decides
        auto it = invMemo.find(p->id);
        if (it != invMemo.end()) return it->second;
        R r;
        if (p->t.size() == 1) {
            auto f = p->t[0].m->f;
            for (auto& x : f) x.second = -x.second;
            Q c = 1 / p->t[0].c;
            r = reducible(f) ? reduceMono(f, c) : intern({{mono(f), c}});
        } else {
            auto cf = commonFactor(p);
            R rest = cf.empty() ? p : monoMul(p, cf, -1);
            if (rest->t.size() == 1) { r = mul(inv(rest), monoMul(unit, cf, -1)); }
            else {
                Q lead = rest->t[0].c;
                R prim = scale(rest, 1 / lead);
                R ia;
                auto is = sqrtByArg.find(rest->id);
                if (is != sqrtByArg.end()) ia = atomR(is->second, -2);
                else {
                    is = sqrtByArg.find(prim->id);
                    if (is != sqrtByArg.end()) ia = scale(atomR(is->second, -2), 1 / lead);
                    else {
                        R viaDiv = nullptr;
                        for (auto& sa : sqrtByArg) {
                            R S = atoms[sa.second].a;
                            if (S->t.size() < 2 || S->t.size() >= prim->t.size()) continue;
                            R qq = divExact(prim, S);
                            if (qq) { viaDiv = mul(inv(qq), scale(atomR(sa.second, -2), 1 / lead)); break; }
                        }
                        if (viaDiv) ia = viaDiv;
                        else {
                            int a = newAtom(A_POLY, prim, nullptr);
                            ia = scale(atomR(a, -1), 1 / lead);
                        }
                    }
                }
                r = cf.empty() ? ia : monoMul(ia, cf, -1);
            }
        }
        invMemo[p->id] = r;
        return r;
    }
    std::map<uint32_t, int> sqrtByArg;
    std::map<std::string, int> atomTab;  // key string -> id
    struct FP { long double v; int id; };
    std::map<int, std::vector<int>> atomsByKind;
    int newAtom(AK k, R a, R b, const std::string& name = "") {
        std::string key = std::to_string(k) + ":" + (a ? std::to_string(a->id) : "-") + ":" + (b ? std::to_string(b->id) : "-") + ":" + name;
        auto it = atomTab.find(key);
        if (it != atomTab.end()) return it->second;
        // semantic unification: same kind with provably equal argument
        if (k != A_VAR && k != A_PI && k != A_ITE && unifyOn && a) {
            for (int o : atomsByKind[k]) {
                Atom& oa = atoms[o];
                if (oa.name != name) continue;
                if (!fingerEq(oa.a, a)) continue;
                if ((oa.b == nullptr) != (b == nullptr)) continue;
                if (b && !fingerEq(oa.b, b)) continue;
                bool eq = false;
                unifyOn = false;
                try { eq = isZeroTol(oa.a, a) && (!b || isZeroTol(oa.b, b)); } catch (Unsupported&) { eq = false; }
                unifyOn = true;
                if (eq) { atomTab[key] = o; if (k == A_SQRT) sqrtByArg[a->id] = o; return o; }
            }
        }
        Atom at;
        at.k = k; at.a = a; at.b = b; at.name = name; at.id = atoms.size();
        switch (k) {
            case A_SQRT: at.pos = signKnown(a) > 0; at.nonneg = true; break;
            case A_EXP: case A_COSH: case A_PI: at.pos = at.nonneg = true; break;
            case A_POW: at.pos = signKnown(a) > 0; at.nonneg = true; break;
            case A_CBRT: at.pos = signKnown(a) > 0; at.nonneg = signWeak(a) > 0; break;
            case A_POLY: at.pos = signKnown(a) > 0; at.nonneg = signWeak(a) > 0; break;
            case A_ACOS: at.nonneg = true; break;
            default: break;
        }
        atoms.push_back(at);
        atomTab[key] = at.id;
        atomsByKind[k].push_back(at.id);
        if (k == A_SQRT) sqrtByArg[a->id] = at.id;
        if (wit.size() <= (size_t)at.id) { wit.resize(at.id + 1); witOk.resize(at.id + 1, 0); }
        return at.id;
    }
    bool unifyOn = true;
    bool fingerEq(R x, R y) {
        if (x == y) return true;
        if (x->spec || y->spec) return false;
        for (int k = 0; k < 2; k++) {
            long double a = fingerVal(x, k), b = fingerVal(y, k);
            if (std::isnan((double)a) || std::isnan((double)b)) continue;
            long double s = std::max(std::fabs(a), std::fabs(b));
            if (std::fabs(a - b) > 1e-7L * s + 1e-25L) return false;
        }
        return true;
    }
    std::unordered_map<uint32_t, long double> fingMemo[2];
    std::unordered_map<int, long double> fingAtom[2];
    long double fingerVal(R p, int k) {
        auto it = fingMemo[k].find(p->id);
        if (it != fingMemo[k].end()) return it->second;
        long double v = evalWith(p, [&](int a) { return fingerAtom(a, k); });
        fingMemo[k][p->id] = v;
        return v;
    }
    long double fingerAtom(int a, int k) {
        auto it = fingAtom[k].find(a);
        if (it != fingAtom[k].end()) return it->second;
        long double v;
        if (atoms[a].k == A_VAR) {
            uint64_t h = std::hash<std::string>()(atoms[a].name) * 6364136223846793005ULL + k * 1442695040888963407ULL + 12345;
            h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
            double u = (h >> 11) * (1.0 / 9007199254740992.0);
            v = atoms[a].lo + (atoms[a].hi - atoms[a].lo) * u;
        } else v = evalAtomFn(atoms[a], [&](R p) { return fingerVal(p, k); });
        fingAtom[k][a] = v;
        return v;
    }
    static long double qd(const Q& q) {
        double d = q.get_d();
        Q rest = q - Q(d == d && std::fabs(d) < 1e308 ? d : 0);
        return (long double)d + (long double)rest.get_d();
    }
    static long double ipow(long double b, int e) {
        if (e < 0) return 1 / ipow(b, -e);
        long double r = 1;
        while (e) { if (e & 1) r *= b; b *= b; e >>= 1; }
        return r;
    }
    template <class F> long double evalWith(R p, F at) {
        if (p->spec) return p->spec == PINF ? INFINITY : p->spec == NINF ? -INFINITY : NAN;
        long double s = 0;
        for (auto& t : p->t) {
            long double v = qd(t.c);
            for (auto& f : t.m->f) v *= ipow(at(f.first), f.second);
            s += v;
        }
        return s;
    }
    template <class F> long double evalAtomFn(const Atom& a, F ev) {
        switch (a.k) {
            case A_SQRT: return sqrtl(ev(a.a));
            case A_POLY: return ev(a.a);
            case A_SIN: return sinl(ev(a.a));
            case A_COS: return cosl(ev(a.a));
            case A_EXP: return expl(ev(a.a));
            case A_LOG: return logl(ev(a.a));
            case A_POW: return powl(ev(a.a), ev(a.b));
            case A_ACOS: return acosl(ev(a.a));
            case A_ASIN: return asinl(ev(a.a));
            case A_ATAN: return atanl(ev(a.a));
            case A_ATAN2: return atan2l(ev(a.a), ev(a.b));
            case A_SINH: return sinhl(ev(a.a));
            case A_COSH: return coshl(ev(a.a));
            case A_ASINH: return asinhl(ev(a.a));
            case A_ACOSH: return acoshl(ev(a.a));
            case A_ATANH: return atanhl(ev(a.a));
            case A_CBRT: return cbrtl(ev(a.a));
            case A_PI: return 3.14159265358979323846264338327950288L;
            case A_ITE: return eval_bool_for_ite(a.cond) != 0 ? ev(a.a) : ev(a.b);
            default: return NAN;
        }
    }
    // ---- witness evaluation
    std::vector<long double> wit;
    std::vector<char> witOk;
    std::vector<long double> polyVal; std::vector<uint32_t> polyEp; uint32_t epoch = 1;
    std::function<double(int)> varValue;
    void newEpoch() { epoch++; std::fill(witOk.begin(), witOk.end(), 0); }
    long double evalAtom(int a) {
        if (witOk.size() <= (size_t)a) { wit.resize(atoms.size()); witOk.resize(atoms.size(), 0); }
        if (witOk[a]) return wit[a];
        long double v = atoms[a].k == A_VAR ? (long double)varValue(a) : evalAtomFn(atoms[a], [&](R p) { return eval(p); });
        wit[a] = v; witOk[a] = 1;
        return v;
    }
    long double eval(R p) {
        if (polyVal.size() < allPolys.size()) { polyVal.resize(allPolys.size() * 2); polyEp.resize(allPolys.size() * 2, 0); }
        if (polyEp[p->id] == epoch) return polyVal[p->id];
        long double v = evalWith(p, [&](int a) { return evalAtom(a); });
        polyVal[p->id] = v; polyEp[p->id] = epoch;
        return v;
    }
    // magnitude scale (sum of |terms|) for numerically judging zero
    long double evalScale(R p) {
        long double s = 0;
        for (auto& t : p->t) {
            long double v = qd(t.c);
            for (auto& f : t.m->f) v *= ipow(evalAtom(f.first), f.second);
            s += std::fabs(v);
        }
        return s;
    }
    // ---- clearing denominators: given list of polys, multiply all by the same factor so that no negative exponents remain and
    // reduce. returns false if cap exceeded
    std::vector<R> clear(std::vector<R> ps, bool positiveOnly = false, bool nested = true) {
        for (int iter = 0; iter < 200; iter++) {
            // find highest atom id with negative exponent
            std::map<int, int> mn;
            for (R p : ps) for (auto& t : p->t) for (auto& f : t.m->f) if (f.second < 0) { int& e = mn[f.first]; e = std::min(e, f.second); }
            if (mn.empty()) return ps;
            int a = mn.rbegin()->first, e = -mn.rbegin()->second;
            if (positiveOnly && !atoms[a].pos && !atoms[a].nonneg && (e % 2)) e++;
            R fac = atomPosPow(a, e);
            for (R& p : ps) p = mulAtomPow(p, a, e);
            (void)fac;
        }
        throw Unsupported("clear: too many iterations");
    }
    R atomPosPow(int a, int e) { return nullptr; }
    // multiply p by atom^e (symbolically combining exponents), then reduce positive powers
    R mulAtomPow(R p, int a, int e) {
        // group terms by resulting exponent of a to avoid repeated expansions
        std::map<int, Acc> groups;
        for (auto& t : p->t) {
            std::vector<std::pair<int, int>> f;
            int ea = e;
            for (auto& x : t.m->f) { if (x.first == a) ea += x.second; else f.push_back(x); }
            groups[ea][mono(f)] += t.c;
        }
        R r = zero;
        for (auto& g : groups) {
            R gp = fromAcc(g.second);
            if (g.first == 0) { r = add(r, gp); continue; }
            if (atoms[a].k == A_POLY && g.first > 0) { r = add(r, mul(gp, powi(atoms[a].a, g.first))); continue; }
            r = add(r, mul(gp, g.first > 0 ? powi(atomR(a), g.first) : atomR(a, g.first)));
        }
        return r;
    }
    // equality with coefficient tolerance after clearing; returns true if proven syntactically
    bool isZeroTol(R x, R y) {
        if (x == y) return true;
        if (x->spec || y->spec) return x->spec == y->spec && x->spec != NANV;
        auto v = clear({x, y});
        return coefEq(v[0], v[1]);
    }
    bool coefEq(R x, R y) {
        if (x == y) return true;
        size_t i = 0, j = 0;
        Q tol(coefTol);
        while (i < x->t.size() || j < y->t.size()) {
            if (i >= x->t.size() || j >= y->t.size() || x->t[i].m != y->t[j].m) return false;
            Q d = x->t[i].c - y->t[j].c;
            if (d != 0) {
                Q s = abs(x->t[i].c) > abs(y->t[j].c) ? Q(abs(x->t[i].c)) : Q(abs(y->t[j].c));
                if (abs(d) > tol * s) return false;
            }
            i++; j++;
        }
        return true;
    }
    // ---- variables
    int var(const std::string& name, bool pos, double lo, double hi) {
        auto it = varByName.find(name);
        int id;
        if (it != varByName.end()) id = it->second;
        else { id = newAtom(A_VAR, nullptr, nullptr, name); varByName[name] = id; 
        atoms[id].pos = pos; atoms[id].nonneg = pos || lo >= 0; atoms[id].lo = lo; atoms[id].hi = hi; }
        return id;
    }
    R pi() { if (piAtom < 0) piAtom = newAtom(A_PI, nullptr, nullptr, "pi"); return atomR(piAtom); }
    // ---- rational from double: simplest rational within half ulp
    static Q simplest(const Q& lo, const Q& hi) {  // 0 < lo <= hi
        mpz_class fl = lo.get_num() / lo.get_den();
        if (Q(fl) == lo) return lo;
        if (fl + 1 <= hi) return Q(fl + 1);
        Q r = simplest(1 / (hi - fl), 1 / (lo - fl));
        return fl + 1 / r;
    }
    std::unordered_map<uint64_t, R> dblMemo;
    bool recognisePi = true;
    R fromDouble(double d) {
        if (std::isnan(d)) return nan;
        if (std::isinf(d)) return d > 0 ? pinf : ninf;
        uint64_t bits; memcpy(&bits, &d, 8);
        auto it = dblMemo.find(bits);
        if (it != dblMemo.end()) return it->second;
        R r;
        double ad = std::fabs(d);
        if (ad == 0) r = zero;
        else if (ad == std::floor(ad) && ad < 9e15) r = cst(Q(d));
        else {
            r = nullptr;
            if (recognisePi) {
                static const long double PIL = 3.14159265358979323846264338327950288L;
                static const int dens[] = {1, 2, 3, 4, 6, 8, 12, 180, 360};
                for (int den : dens) {
                    long double x = ad / PIL * den;
                    long double n = roundl(x);
                    if (n >= 1 && n <= 2000) {
                        double cand = (double)(n * PIL / den);
                        double ulp = std::nextafter(ad, INFINITY) - ad;
                        if (std::fabs(cand - ad) <= 2 * ulp) { r = scale(pi(), Q((long)n, den)); break; }
                    }
                }
                if (r) { Q c = r->t[0].c; c.canonicalize(); r = scale(pi(), d < 0 ? Q(-c) : c); }
            }
            if (!r) {
                double up = std::nextafter(ad, INFINITY), dn = std::nextafter(ad, 0.0);
                if (std::isinf(up) || dn == 0) r = cst(Q(d));
                else {
                    Q lo = (Q(ad) + Q(dn)) / 2, hi = (Q(ad) + Q(up)) / 2;
                    Q s = simplest(lo, hi);
                    if (mpz_sizeinbase(s.get_den_mpz_t(), 2) + mpz_sizeinbase(s.get_num_mpz_t(), 2) > 400) s = Q(ad);
                    r = cst(d < 0 ? Q(-s) : s);
                }
            }
        }
        dblMemo[bits] = r;
        return r;
    }
    // ---- functions
    static bool sqrtQ(const Q& q, Q& out) {
        if (q < 0) return false;
        if (mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) {
            out = Q(sqrt(q.get_num()), sqrt(q.get_den()));
            out.canonicalize();
            return true;
        }
        return false;
    }
    R sqrt_(R x) {
        if (x->spec) return x->spec == PINF ? pinf : nan;
        if (x->t.empty()) return zero;
        if (x->isConst() && x->constVal() < 0) return nan;
        // split into content * monomial(common, even, positive) * rest
        auto cf = commonFactor(x);
        std::vector<std::pair<int, int>> outF, stay;
        R pre = unit;
        bool single = x->t.size() == 1;
        std::vector<std::pair<int, int>> taken;
        for (auto& f : cf) {
            Atom& a = atoms[f.first];
            if (a.k == A_SQRT && !single) continue;
            if (a.pos || a.nonneg) {
                if (f.second % 2 == 0) { pre = mul(pre, powAtom(f.first, f.second / 2)); taken.push_back(f); }
                else if (single && a.k != A_SQRT) {
                    // sqrt(a) as own atom
                    R s;
                    if (a.k == A_POLY) s = sqrtAtom(a.a, f.second);
                    else s = sqrtAtom(atomR(f.first), f.second);
                    pre = mul(pre, s);
                    taken.push_back(f);
                } else {
                    int e = f.second - ((f.second % 2 + 2) % 2);
                    if (e) { pre = mul(pre, powAtom(f.first, e / 2)); taken.push_back({f.first, e}); }
                }
            }
        }
        R rest = taken.empty() ? x : monoMul(x, taken, -1);
        // numeric content
        Q content = abs(rest->t[0].c);
        if (rest->t.size() == 1) {
            Q s;
            if (rest->isConst()) {
                if (rest->constVal() < 0) return nan;
                if (sqrtQ(rest->constVal(), s)) return scale(pre, s);
                // sqrt(p/q) = sqrt(p*q)/q  with squarefree reduction by small primes
                mpz_class n = rest->constVal().get_num() * rest->constVal().get_den(), out = 1, den = rest->constVal().get_den();
                static const int pr[] = {2, 3, 5, 7, 11, 13};
                for (int p : pr) while (n % (p * p) == 0) { n /= p * p; out *= p; }
                Q c(out, den); c.canonicalize();
                return scale(mul(pre, atomR(newAtom(A_SQRT, cst(Q(n)), nullptr))), c);
            }
            if (content != 1) {
                R cs = sqrt_(cst(content));
                R in = scale(rest, 1 / content);
                return mul(mul(pre, cs), atomR(newAtom(A_SQRT, in, nullptr)));
            }
        }
        auto is = sqrtByArg.find(rest->id);
        if (is != sqrtByArg.end()) return mul(pre, atomR(is->second));
        // perfect-square content only
        mpz_class g = 0; mpz_class l = 1;
        for (auto& t : rest->t) { mpz_class tg; mpz_gcd(tg.get_mpz_t(), g.get_mpz_t(), t.c.get_num_mpz_t()); g = tg; mpz_class tl; mpz_lcm(tl.get_mpz_t(), l.get_mpz_t(), t.c.get_den_mpz_t()); l = tl; }
        Q cont(g, l); cont.canonicalize();
        Q s;
        if (cont != 1) {
            if (sqrtQ(cont, s)) { rest = scale(rest, 1 / cont); pre = scale(pre, s); }
            else {
                rest = scale(rest, 1 / cont);
                pre = mul(pre, sqrt_(cst(cont)));
            }
        }
        return mul(pre, atomR(newAtom(A_SQRT, rest, nullptr)));
    }
    R powAtom(int a, int e) {
        if (e >= 0) return powi(atomR(a), e);
        return atomR(a, e);
    }
    R sqrtAtom(R arg, int e) {  // arg^(e/2) via sqrt atom
        int s = newAtom(A_SQRT, arg, nullptr);
        return powAtom(s, e);
    }
    // linear decomposition helper for trig
    void sincos(R x, R& s, R& c) {
        if (x->spec) { s = c = nan; return; }
        if (x->t.empty()) { s = zero; c = unit; return; }
        if (x->t.size() > 1) {
            R head = intern({x->t.back()});
            R tail = sub(x, head);
            R s1, c1, s2, c2;
            sincos(tail, s1, c1); sincos(head, s2, c2);
            s = add(mul(s1, c2), mul(c1, s2));
            c = sub(mul(c1, c2), mul(s1, s2));
            return;
        }
        M m = x->t[0].m;
        Q k = x->t[0].c;
        // PI multiples
        if (m->f.size() == 1 && m->f[0].second == 1 && atoms[m->f[0].first].k == A_PI) {
            // reduce mod 2
            Q kk = k;
            mpz_class fl = kk.get_num() / kk.get_den();
            if (kk < 0 && Q(fl) != kk) fl -= 1;
            mpz_class two = fl - (fl % 2 + 2) % 2;
            kk -= two;  // in [0,2)
            bool negS = false, negC = false;
            if (kk >= 1) { kk -= 1; negS = negC = true; }
            if (kk > Q(1, 2)) { kk = 1 - kk; negC = !negC; }
            R ss = nullptr, cc = nullptr;
            if (kk == 0) ss = zero, cc = unit;
            else if (kk == Q(1, 2)) ss = unit, cc = zero;
            else if (kk == Q(1, 6)) ss = cst(Q(1, 2)), cc = scale(sqrt_(cst(3)), Q(1, 2));
            else if (kk == Q(1, 3)) cc = cst(Q(1, 2)), ss = scale(sqrt_(cst(3)), Q(1, 2));
            else if (kk == Q(1, 4)) cc = ss = scale(sqrt_(cst(2)), Q(1, 2));
            if (ss) { s = negS ? neg(ss) : ss; c = negC ? neg(cc) : cc; return; }
            R arg = scale(pi(), kk);
            ss = atomR(newAtom(A_SIN, arg, nullptr)); cc = atomR(newAtom(A_COS, arg, nullptr));
            s = negS ? neg(ss) : ss; c = negC ? neg(cc) : cc;
            return;
        }
        if (k < 0) { R s1, c1; sincos(neg(x), s1, c1); s = neg(s1); c = c1; return; }
        // inverse trig base
        if (m->f.size() == 1 && m->f[0].second == 1) {
            Atom at = atoms[m->f[0].first];
            if (at.k == A_ACOS || at.k == A_ASIN || at.k == A_ATAN || at.k == A_ATAN2) {
                R bs, bc;
                if (at.k == A_ACOS) { bc = at.a; bs = sqrt_(sub(unit, mul(at.a, at.a))); }
                else if (at.k == A_ASIN) { bs = at.a; bc = sqrt_(sub(unit, mul(at.a, at.a))); }
                else if (at.k == A_ATAN) { bc = inv(sqrt_(add(unit, mul(at.a, at.a)))); bs = mul(at.a, bc); }
                else { R h = inv(sqrt_(add(mul(at.a, at.a), mul(at.b, at.b)))); bs = mul(at.a, h); bc = mul(at.b, h); }
                if (k.get_den() == 1 && k <= 64) { multi(bs, bc, k.get_num().get_si(), s, c); return; }
            }
        }
        // base with integer multiple?
        R unitm = intern({{m, Q(1)}});
        Q best = 0;
        for (auto& b : trigBase[m]) { Q r = k / b; if (r.get_den() == 1 && r <= 64) { best = b; break; } }
        if (best == 0) {
            // choose base: if denominator is 1 use unit coefficient, else as is
            best = (k.get_den() == 1 && k <= 64) ? Q(1) : k;
            trigBase[m].push_back(best);
        }
        Q r = k / best;
        R arg = scale(unitm, best);
        R bs = atomR(newAtom(A_SIN, arg, nullptr)), bc = atomR(newAtom(A_COS, arg, nullptr));
        multi(bs, bc, r.get_num().get_si(), s, c);
    }
    std::map<M, std::vector<Q>> trigBase;
    void multi(R bs, R bc, long n, R& s, R& c) {
        s = zero; c = unit;
        for (long i = 0; i < n; i++) { R s2 = add(mul(s, bc), mul(c, bs)); R c2 = sub(mul(c, bc), mul(s, bs)); s = s2; c = c2; }
    }
    R sin_(R x) { R s, c; sincos(x, s, c); return s; }
    R cos_(R x) { R s, c; sincos(x, s, c); return c; }
    R div(R a, R b) { return mul(a, inv(b)); }
    // sine and cosine parts of tan(x): (sin, 1 + cos) of twice the argument for halves of inverse functions
    void tanParts(R x, R& s, R& c) {
        // half-angle of an inverse function?
        if (!x->spec && x->t.size() == 1 && x->t[0].c.get_den() == 2) {
            M m = x->t[0].m;
            if (m->f.size() == 1 && m->f[0].second == 1) {
                AK k = atoms[m->f[0].first].k;
                if (k == A_ACOS || k == A_ASIN || k == A_ATAN || k == A_ATAN2) {
                    sincos(scale(x, 2), s, c); c = add(unit, c);
                    return;
                }
            }
        }
        if (!x->spec && x->t.size() == 1) {
            M m = x->t[0].m;
            if (x->t[0].c == 1 && m->f.size() == 1 && m->f[0].second == 1 && atoms[m->f[0].first].k == A_ATAN) { s = atoms[m->f[0].first].a; c = unit; return; }
        }
        sincos(x, s, c);
    }
    void sinhcosh(R x, R& s, R& c) {
        if (x->spec) throw Unsupported("sinh of inf");
        if (x->t.empty()) { s = zero; c = unit; return; }
        if (x->t.size() > 1) {
            R head = intern({x->t.back()});
            R tail = sub(x, head), s1, c1, s2, c2;
            sinhcosh(tail, s1, c1); sinhcosh(head, s2, c2);
            s = add(mul(s1, c2), mul(c1, s2)); c = add(mul(c1, c2), mul(s1, s2));
            return;
        }
        M m = x->t[0].m; Q k = x->t[0].c;
        if (k < 0) { R s1, c1; sinhcosh(neg(x), s1, c1); s = neg(s1); c = c1; return; }
        if (m->f.size() == 1 && m->f[0].second == 1 && k.get_den() == 1 && k <= 16) {
            Atom at = atoms[m->f[0].first];
            R bs = nullptr, bc = nullptr;
            if (at.k == A_ACOSH) { bc = at.a; bs = sqrt_(sub(mul(at.a, at.a), unit)); }
            else if (at.k == A_ASINH) { bs = at.a; bc = sqrt_(add(mul(at.a, at.a), unit)); }
            else if (at.k == A_ATANH) { bc = inv(sqrt_(sub(unit, mul(at.a, at.a)))); bs = mul(at.a, bc); }
            if (bs) { s = zero; c = unit; for (long i = 0; i < k.get_num().get_si(); i++) { R s2 = add(mul(s, bc), mul(c, bs)); R c2 = add(mul(c, bc), mul(s, bs)); s = s2; c = c2; } return; }
        }
        Q best = 0;
        for (auto& b : hypBase[m]) { Q r = k / b; if (r.get_den() == 1 && r <= 16) { best = b; break; } }
        if (best == 0) { best = (k.get_den() == 1 && k <= 16) ? Q(1) : k; hypBase[m].push_back(best); }
        Q r = k / best;
        R arg = intern({{m, best}});
        R bs = atomR(newAtom(A_SINH, arg, nullptr)), bc = atomR(newAtom(A_COSH, arg, nullptr));
        s = zero; c = unit;
        for (long i = 0; i < r.get_num().get_si(); i++) { R s2 = add(mul(s, bc), mul(c, bs)); R c2 = add(mul(c, bc), mul(s, bs)); s = s2; c = c2; }
    }
    std::map<M, std::vector<Q>> hypBase;
    R fn1(AK k, R x) {
        if (x->spec) {
            if (x->spec == NANV) return nan;
            if (k == A_EXP) return x->spec == PINF ? pinf : zero;
            if (k == A_LOG && x->spec == PINF) return pinf;
            if (k == A_ATAN) return scale(pi(), x->spec == PINF ? Q(1, 2) : Q(-1, 2));
            throw Unsupported("function of inf");
        }
        if (x->isConst()) {
            Q c = x->constVal();
            switch (k) {
                case A_EXP: if (c == 0) return unit; break;
                case A_LOG: if (c == 1) return zero; if (c == 0) return ninf; if (c < 0) return nan; break;
                case A_ACOS: if (c == 1) return zero; if (c == 0) return scale(pi(), Q(1, 2)); if (c == -1) return pi(); if (c > 1 || c < -1) return nan; break;
                case A_ASIN: if (c == 0) return zero; if (c == 1) return scale(pi(), Q(1, 2)); if (c == -1) return scale(pi(), Q(-1, 2)); if (c > 1 || c < -1) return nan; break;
                case A_ATAN: case A_ASINH: case A_ATANH: case A_CBRT: if (c == 0) return zero; break;
                case A_ACOSH: if (c == 1) return zero; break;
                default: break;
            }
        }
        if (k == A_LOG && x->t.size() == 1 && x->t[0].c == 1 && x->t[0].m->f.size() == 1) {
            auto f = x->t[0].m->f[0];
            if (atoms[f.first].k == A_EXP) return scale(atoms[f.first].a, Q(f.second));
        }
        if (k == A_LOG && x->t.size() == 1 && signKnown(x) > 0) {
            // log(c * prod a^e) -> sum
            R r = zero;
            Q c = x->t[0].c;
            if (c != 1) r = logQ(c);
            for (auto& f : x->t[0].m->f) {
                Atom a = atoms[f.first];
                R l;
                if (a.k == A_EXP) l = a.a;
                else if (a.k == A_SQRT) l = scale(fn1(A_LOG, a.a), Q(1, 2));
                else if (a.k == A_POLY) l = atomR(newAtom(A_LOG, a.a, nullptr));
                else if (a.k == A_POW) l = mul(a.b, fn1(A_LOG, a.a));
                else l = atomR(newAtom(A_LOG, atomR(f.first), nullptr));
                r = add(r, scale(l, Q(f.second)));
            }
            return r;
        }
        if (k == A_EXP) {
            // exp(sum) -> product, exp(log) simplification
            R r = unit;
            for (auto& t : x->t) {
                if (t.m->f.size() == 1 && t.m->f[0].second == 1 && atoms[t.m->f[0].first].k == A_LOG && t.c.get_den() == 1 && abs(t.c) <= 8) { r = mul(r, powi(atoms[t.m->f[0].first].a, t.c.get_num().get_si())); continue; }
                // integer multiples of same base
                Q c = t.c; R base; long n = 1;
                if (c < 0) { n = -1; c = -c; }
                base = intern({{t.m, c}});
                r = mul(r, atomR(newAtom(A_EXP, base, nullptr), n));
            }
            return r;
        }
        if (k == A_ACOS && x->t.size() == 1 && false) return x;
        if (k == A_ATAN && x->t.size() >= 1 && x->t[0].c < 0) return neg(fn1(k, neg(x)));
        if ((k == A_ASIN || k == A_ASINH || k == A_ATANH || k == A_CBRT) && x->t[0].c < 0) return neg(fn1(k, neg(x)));
        return atomR(newAtom(k, x, nullptr));
    }
    R logQ(const Q& c) {
        // factor small primes for canonical logs
        R r = zero;
        mpz_class n = c.get_num(), d = c.get_den();
        static const int pr[] = {2, 3, 5, 7, 11, 13};
        for (int p : pr) {
            long e = 0;
            while (n % p == 0 && n > 0) { n /= p; e++; }
            while (d % p == 0) { d /= p; e--; }
            if (e) r = add(r, scale(atomR(newAtom(A_LOG, cst(Q(p)), nullptr)), Q(e)));
        }
        Q rest(n, d); rest.canonicalize();
        if (rest != 1) r = add(r, atomR(newAtom(A_LOG, cst(rest), nullptr)));
        return r;
    }
    R pow_(R x, R y) {
        if (y->isConst()) {
            Q e = y->constVal();
            if (e.get_den() == 1 && abs(e) <= 64) { if (x->isZero() && e < 0) return pinf; return powi(x, e.get_num().get_si()); }
            if (e.get_den() == 2 && abs(e) <= 32) { R s = sqrt_(x); return powi(s, e.get_num().get_si()); }
            if (e.get_den() == 3 && abs(e) <= 32) { R s = fn1(A_CBRT, x); return powi(s, e.get_num().get_si()); }
        }
        if (x->spec || y->spec) throw Unsupported("pow special");
        if (x == unit) return unit;
        if (x->isZero()) { if (signKnown(y) > 0) return zero; throw Unsupported("pow(0,y)"); }
        // normalise exponent sign
        return atomR(newAtom(A_POW, x, y));
    }
    // ---- derivative and substitution
    std::map<std::pair<uint32_t, int>, R> dMemo;
    R diff(R p, int v) {
        if (p->spec) throw Unsupported("diff of inf");
        auto key = std::make_pair(p->id, v);
        auto it = dMemo.find(key);
        if (it != dMemo.end()) return it->second;
        R r = zero;
        for (auto& t : p->t)
            for (size_t i = 0; i < t.m->f.size(); i++) {
                int a = t.m->f[i].first, e = t.m->f[i].second;
                R da = diffAtom(a, v);
                if (da->isZero()) continue;
                auto f = t.m->f;
                if (e == 1) f.erase(f.begin() + i); else f[i].second = e - 1;
                r = add(r, mul(intern({{mono(f), t.c * e}}), da));
            }
        dMemo[key] = r;
        return r;
    }
    std::map<std::pair<int, int>, R> dAtomMemo;
    R diffAtom(int a, int v) {
        if (a == v) return unit;
        Atom at = atoms[a];
        if (at.k == A_VAR || at.k == A_PI) return zero;
        auto key = std::make_pair(a, v);
        auto it = dAtomMemo.find(key);
        if (it != dAtomMemo.end()) return it->second;
        R da = at.a ? diff(at.a, v) : zero, db = at.b ? diff(at.b, v) : zero;
        R r;
        if (da->isZero() && db->isZero()) r = zero;
        else switch (at.k) {
            case A_SQRT: r = scale(mul(da, atomR(a, -1)), Q(1, 2)); break;
            case A_POLY: r = da; break;
            case A_SIN: r = mul(da, atomR(trigPartner(a))); break;
            case A_COS: r = neg(mul(da, atomR(trigPartner(a)))); break;
            case A_SINH: case A_COSH: r = mul(da, atomR(trigPartner(a))); break;
            case A_EXP: r = mul(da, atomR(a)); break;
            case A_LOG: r = div(da, at.a); break;
            case A_CBRT: r = scale(mul(da, atomR(a, -2)), Q(1, 3)); break;
            case A_POW: if (!db->isZero()) throw Unsupported("diff pow exponent"); r = mul(mul(at.b, da), mul(atomR(a), inv(at.a))); break;
            case A_ACOS: r = neg(div(da, sqrt_(sub(unit, mul(at.a, at.a))))); break;
            case A_ASIN: r = div(da, sqrt_(sub(unit, mul(at.a, at.a)))); break;
            case A_ATAN: r = div(da, add(unit, mul(at.a, at.a))); break;
            case A_ATAN2: r = div(sub(mul(at.b, da), mul(at.a, db)), add(mul(at.a, at.a), mul(at.b, at.b))); break;
            case A_ATANH: r = div(da, sub(unit, mul(at.a, at.a))); break;
            case A_ASINH: r = div(da, sqrt_(add(unit, mul(at.a, at.a)))); break;
            case A_ACOSH: r = div(da, sqrt_(sub(mul(at.a, at.a), unit))); break;
            default: throw Unsupported("diff atom");
        }
        dAtomMemo[key] = r;
        return r;
    }
    R subst(R p, int v, R val) {
        std::map<int, R> memo;
        return substR(p, v, val, memo);
    }
    bool dependsOn(R p, int v) {
        for (auto& t : p->t) for (auto& f : t.m->f) { if (f.first == v) return true; Atom& a = atoms[f.first]; if ((a.a && dependsOn(a.a, v)) || (a.b && dependsOn(a.b, v))) return true; }
        return false;
    }
    R substR(R p, int v, R val, std::map<int, R>& memo) {
        if (p->spec) return p;
        R r = zero;
        for (auto& t : p->t) {
            R m = cst(t.c);
            for (auto& f : t.m->f) {
                R av;
                auto it = memo.find(f.first);
                if (it != memo.end()) av = it->second;
                else {
                    Atom at = atoms[f.first];
                    if (f.first == v) av = val;
                    else if (!at.a) av = atomR(f.first);
                    else {
                        R a2 = substR(at.a, v, val, memo), b2 = at.b ? substR(at.b, v, val, memo) : nullptr;
                        if (a2 == at.a && b2 == at.b) av = atomR(f.first);
                        else switch (at.k) {
                            case A_SQRT: av = sqrt_(a2); break;
                            case A_POLY: av = a2; break;
                            case A_SIN: av = sin_(a2); break;
                            case A_COS: av = cos_(a2); break;
                            case A_POW: av = pow_(a2, b2); break;
                            case A_SINH: case A_COSH: { R s, c; sinhcosh(a2, s, c); av = at.k == A_SINH ? s : c; break; }
                            case A_ATAN2: throw Unsupported("subst atan2");
                            default: av = fn1(at.k, a2);
                        }
                    }
                    memo[f.first] = av;
                }
                if (f.second < 0 && av->isZero()) throw Unsupported("subst: division by zero");
                m = mul(m, powi(av, f.second));
            }
            r = add(r, m);
        }
        return r;
    }
    std::string str(R p, size_t maxTerms = 12) {
        if (p->spec) return p->spec == PINF ? "inf" : p->spec == NINF ? "-inf" : "nan";
        if (p->t.empty()) return "0";
        std::string s;
        size_t n = 0;
        for (auto& t : p->t) {
            if (n++ >= maxTerms) { s += " + ...(" + std::to_string(p->t.size()) + " terms)"; break; }
            if (!s.empty()) s += " + ";
            s += t.c.get_str();
            for (auto& f : t.m->f) { s += "*" + atomStr(f.first); if (f.second != 1) s += "^" + std::to_string(f.second); }
        }
        return s;
    }
    std::string atomStr(int a) {
        Atom& at = atoms[a];
        if (at.k == A_VAR || at.k == A_PI) return at.name;
        std::string s = std::string(AKN[at.k]) + "(" + (at.a ? str(at.a, 6) : "");
        if (at.b) s += "," + str(at.b, 6);
        return s + ")";
    }
};
