// SMT-LIB encoding and a persistent solver process
#pragma once
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <sstream>
#include "node.hpp"

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
enum Res { UNSAT, SAT, UNKNOWN };

struct SolverProc {
    std::vector<std::string> cmd;
    pid_t pid = -1;
    int in = -1, out = -1;
    std::string buf;
    void start() {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) throw std::runtime_error("pipe");
        pid = fork();
        if (pid == 0) {
            dup2(a[0], 0); dup2(b[1], 1); dup2(b[1], 2);
            close(a[0]); close(a[1]); close(b[0]); close(b[1]);
            std::vector<char*> av;
            for (auto& s : cmd) av.push_back((char*)s.c_str());
            av.push_back(nullptr);
            execvp(av[0], av.data());
            _exit(127);
        }
        close(a[0]); close(b[1]);
        in = a[1]; out = b[0];
        buf.clear();
    }
    void stop() {
        if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); close(in); close(out); }
        pid = -1;
    }
    ~SolverProc() { stop(); }
    // send text, read until a line equal to marker; returns false on timeout
    bool ask(const std::string& text, std::string& reply, double deadline) {
        if (pid < 0) start();
        std::string t = text + "\n(echo \"@@done\")\n";
        size_t off = 0;
        reply.clear();
        fcntl(in, F_SETFL, O_NONBLOCK);
        double end = nowS() + deadline;
        while (true) {
            struct pollfd p[2] = {{out, POLLIN, 0}, {in, (short)(off < t.size() ? POLLOUT : 0), 0}};
            double left = end - nowS();
            if (left <= 0) { stop(); return false; }
            int r = poll(p, off < t.size() ? 2 : 1, (int)(left * 1000) + 1);
            if (r <= 0) { if (r == 0) { stop(); return false; } continue; }
            if (off < t.size() && (p[1].revents & POLLOUT)) {
                ssize_t n = write(in, t.data() + off, t.size() - off);
                if (n > 0) off += n;
            }
            if (p[0].revents & (POLLIN | POLLHUP)) {
                char tmp[65536];
                ssize_t n = read(out, tmp, sizeof tmp);
                if (n <= 0) { stop(); return false; }
                buf.append(tmp, n);
                size_t k = buf.find("@@done");
                if (k != std::string::npos) {
                    reply = buf.substr(0, k);
                    size_t e = buf.find('\n', k);
                    buf = e == std::string::npos ? "" : buf.substr(e + 1);
                    return true;
                }
            }
        }
    }
};

struct Stats { long queries = 0, sat = 0, unsat = 0, unknown = 0, errors = 0; double time = 0; double maxq = 0; std::map<std::string, long> byClass; };

struct Model { std::map<int, double> real; std::map<uint32_t, u128> bv; std::map<uint32_t, double> fp; };

struct Enc {
    RealCtx& rc; NodeCtx& nc;
    bool lin;
    int fe = 11, fs = 53;
    std::set<int> atomsUsed; std::vector<int> atomQueue;
    std::set<int> invUsed;
    std::map<int, std::string> monoSym; std::vector<M> monos;
    std::map<uint32_t, std::string> nodeSym;
    std::string decl, defs;
    std::set<uint32_t> bvVars, fpVars;
    bool hasReal = false, hasBV = false, nonlin = false, approxAtoms = false;
    Enc(RealCtx& r, NodeCtx& n, bool l) : rc(r), nc(n), lin(l) {}
    static std::string qs(const Q& q) {
        std::string s;
        Q a = abs(q);
        if (a.get_den() == 1) s = a.get_num().get_str() + ".0";
        else s = "(/ " + a.get_num().get_str() + ".0 " + a.get_den().get_str() + ".0)";
        return q < 0 ? "(- " + s + ")" : s;
    }
    std::string asym(int a) {
        if (atomsUsed.insert(a).second) {
            atomQueue.push_back(a);
            decl += "(declare-const a" + std::to_string(a) + " Real)\n";
        }
        return "a" + std::to_string(a);
    }
    std::string isym(int a) {
        asym(a);
        if (invUsed.insert(a).second) decl += "(declare-const i" + std::to_string(a) + " Real)\n";
        return "i" + std::to_string(a);
    }
    std::string msym(M m) {
        auto it = monoSym.find(m->id);
        if (it != monoSym.end()) return it->second;
        std::string s;
        if (m->f.empty()) s = "1.0";
        else if (m->f.size() == 1 && m->f[0].second == 1) s = asym(m->f[0].first);
        else {
            nonlin = true;
            if (lin) { s = "m" + std::to_string(m->id); decl += "(declare-const " + s + " Real)\n"; for (auto& f : m->f) linTouch(f.first); }
            else {
                std::string b = "(*";
                int n = 0;
                for (auto& f : m->f) { std::string x = f.second > 0 ? asym(f.first) : isym(f.first); for (int i = 0; i < std::abs(f.second); i++) b += " " + x, n++; }
                b += ")";
                if (n == 1) b = b.substr(3, b.size() - 4);
                s = b;
            }
            monos.push_back(m);
        }
        monoSym[m->id] = s;
        return s;
    }
    void linTouch(int) {}
    std::string poly(R p) {
        hasReal = true;
        if (p->spec) throw Unsupported("encode inf");
        if (p->t.empty()) return "0.0";
        std::string s;
        for (auto& t : p->t) {
            std::string ms = msym(t.m);
            if (t.m->f.empty()) s += " " + qs(t.c);
            else if (t.c == 1) s += " " + ms;
            else s += " (* " + qs(t.c) + " " + ms + ")";
        }
        return p->t.size() == 1 ? s.substr(1) : "(+" + s + ")";
    }
    std::string sortOf(N n) { return n->w == 1 ? "Bool" : "(_ BitVec " + std::to_string(n->w) + ")"; }
    static std::string bvc(u128 c, int w) {
        std::string b = "#b";
        for (int i = w - 1; i >= 0; i--) b += ((c >> i) & 1) ? '1' : '0';
        return b;
    }
    std::string fpc(double d) {
        // exact conversion through real literal
        if (std::isnan(d)) return "(_ NaN " + fst() + ")";
        if (std::isinf(d)) return d > 0 ? "(_ +oo " + fst() + ")" : "(_ -oo " + fst() + ")";
        if (d == 0) return std::signbit(d) ? "(_ -zero " + fst() + ")" : "(_ +zero " + fst() + ")";
        return "((_ to_fp " + fst() + ") RNE " + qs(Q(d)) + ")";
    }
    std::string fst() { return std::to_string(fe) + " " + std::to_string(fs); }
    // w==1 nodes are Bool sorted
    std::string node(N n) {
        if (n->op == O_CONST) return n->w == 1 ? (n->c ? "true" : "false") : bvc(n->c, n->w);
        auto it = nodeSym.find(n->id);
        if (it != nodeSym.end()) return it->second;
        if (n->w > 1 && n->op < O_FCONST && n->op != O_RLT && n->op != O_RLE && n->op != O_REQ) hasBV = true;
        std::string s;
        auto B = [&](int i) { return node(n->k[i]); };
        auto two = [&](const char* o) { return std::string("(") + o + " " + B(0) + " " + B(1) + ")"; };
        bool b1 = n->nk > 0 && n->k[0]->w == 1;
        switch (n->op) {
            case O_VAR: s = "v" + std::to_string(n->id); decl += "(declare-const " + s + " " + sortOf(n) + ")\n"; bvVars.insert(n->id); hasBV = true; break;
            case O_ADD: s = n->w == 1 ? two("xor") : two("bvadd"); break;
            case O_SUB: s = n->w == 1 ? two("xor") : two("bvsub"); break;
            case O_MUL: s = n->w == 1 ? two("and") : two("bvmul"); break;
            case O_UDIV: s = two("bvudiv"); break; case O_SDIV: s = two("bvsdiv"); break;
            case O_UREM: s = two("bvurem"); break; case O_SREM: s = two("bvsrem"); break;
            case O_AND: s = two(n->w == 1 ? "and" : "bvand"); break;
            case O_OR: s = two(n->w == 1 ? "or" : "bvor"); break;
            case O_XOR: s = two(n->w == 1 ? "xor" : "bvxor"); break;
            case O_SHL: s = two("bvshl"); break; case O_LSHR: s = two("bvlshr"); break; case O_ASHR: s = two("bvashr"); break;
            case O_EQ: s = two("="); break;
            case O_ULT: s = b1 ? "(and (not " + B(0) + ") " + B(1) + ")" : two("bvult"); break;
            case O_ULE: s = b1 ? "(or (not " + B(0) + ") " + B(1) + ")" : two("bvule"); break;
            case O_SLT: s = b1 ? "(and " + B(0) + " (not " + B(1) + "))" : two("bvslt"); break;
            case O_SLE: s = b1 ? "(or " + B(0) + " (not " + B(1) + "))" : two("bvsle"); break;
            case O_ITE: s = "(ite " + B(0) + " " + B(1) + " " + B(2) + ")"; break;
            case O_ZEXT: s = b1 ? "(ite " + B(0) + " " + bvc(1, n->w) + " " + bvc(0, n->w) + ")" : "((_ zero_extend " + std::to_string(n->w - n->k[0]->w) + ") " + B(0) + ")"; break;
            case O_SEXT: s = b1 ? "(ite " + B(0) + " " + bvc(~(u128)0, n->w) + " " + bvc(0, n->w) + ")" : "((_ sign_extend " + std::to_string(n->w - n->k[0]->w) + ") " + B(0) + ")"; break;
            case O_EXTRACT: s = "((_ extract " + std::to_string((int)n->c + n->w - 1) + " " + std::to_string((int)n->c) + ") " + B(0) + ")"; if (n->w == 1) s = "(= #b1 " + s + ")"; break;
            case O_CONCAT: { auto e = [&](N x) { return x->w == 1 ? "(ite " + node(x) + " #b1 #b0)" : node(x); }; s = "(concat " + e(n->k[0]) + " " + e(n->k[1]) + ")"; break; }
            case O_NOT: s = n->w == 1 ? "(not " + B(0) + ")" : "(bvnot " + B(0) + ")"; break;
            case O_RLT: s = "(< " + poly(n->r) + " 0.0)"; break;
            case O_RLE: s = "(<= " + poly(n->r) + " 0.0)"; break;
            case O_REQ: s = "(= " + poly(n->r) + " 0.0)"; break;
            case O_FVAR: s = "f" + std::to_string(n->id); decl += "(declare-const " + s + " (_ FloatingPoint " + fst() + "))\n"; fpVars.insert(n->id); break;
            case O_FCONST: s = fpc(n->fc); break;
            case O_FADD: s = "(fp.add RNE " + B(0) + " " + B(1) + ")"; break;
            case O_FSUB: s = "(fp.sub RNE " + B(0) + " " + B(1) + ")"; break;
            case O_FMUL: s = "(fp.mul RNE " + B(0) + " " + B(1) + ")"; break;
            case O_FDIV: s = "(fp.div RNE " + B(0) + " " + B(1) + ")"; break;
            case O_FNEG: s = "(fp.neg " + B(0) + ")"; break;
            case O_FABS: s = "(fp.abs " + B(0) + ")"; break;
            case O_FSQRT: s = "(fp.sqrt RNE " + B(0) + ")"; break;
            case O_FITE: s = "(ite " + B(0) + " " + B(1) + " " + B(2) + ")"; break;
            case O_FLT: s = two("fp.lt"); break; case O_FLE: s = two("fp.leq"); break; case O_FEQ: s = two("fp.eq"); break;
            case O_FTOSI: s = "((_ fp.to_sbv " + std::to_string(n->w) + ") RTZ " + B(0) + ")"; break;
            case O_FNAN: s = "(fp.isNaN " + B(0) + ")"; break;
            default: throw Unsupported("encode node");
        }
        if (n->op != O_VAR && n->op != O_FVAR && s.size() > 40) {
            std::string nm = "n" + std::to_string(n->id);
            bool fp = n->op >= O_FCONST && n->op <= O_FITE;
            decl += "(define-fun " + nm + " () " + (fp ? "(_ FloatingPoint " + fst() + ")" : sortOf(n)) + " " + s + ")\n";
            s = nm;
        }
        nodeSym[n->id] = s;
        return s;
    }
    // facts for all atoms used (closes over atom definitions)
    std::string atomFacts() {
        std::string o;
        std::map<AK, std::vector<int>> byKind;
        for (size_t i = 0; i < atomQueue.size(); i++) {
            int a = atomQueue[i];
            Atom at = rc.atoms[a];
            std::string s = "a" + std::to_string(a);
            byKind[at.k].push_back(a);
            auto A = [&](const std::string& c) { o += "(assert " + c + ")\n"; };
            if (at.pos) A("(> " + s + " 0.0)"); else if (at.nonneg) A("(>= " + s + " 0.0)");
            switch (at.k) {
                case A_VAR: break;
                case A_SQRT: if (!lin) A("(= (* " + s + " " + s + ") " + poly(at.a) + ")"); else { approxAtoms = true; }
                    break;
                case A_CBRT: if (!lin) A("(= (* " + s + " " + s + " " + s + ") " + poly(at.a) + ")"); else approxAtoms = true; break;
                case A_POLY: A("(= " + s + " " + poly(at.a) + ")"); break;
                case A_PI: A("(and (> " + s + " 3.14159265358979) (< " + s + " 3.14159265358980))"); break;
                case A_SIN: case A_COS: {
                    approxAtoms = true;
                    A("(and (<= (- 1.0) " + s + ") (<= " + s + " 1.0))");
                    if (!lin && at.k == A_SIN) { std::string c = asym(rc.trigPartner(a)); A("(= (+ (* " + s + " " + s + ") (* " + c + " " + c + ")) 1.0)"); }
                    if (!lin && at.k == A_COS) asym(rc.trigPartner(a));
                    break; }
                case A_SINH: case A_COSH: approxAtoms = true; if (!lin && at.k == A_SINH) { std::string c = asym(rc.trigPartner(a)); A("(= (- (* " + c + " " + c + ") (* " + s + " " + s + ")) 1.0)"); }
                    if (at.k == A_COSH) A("(>= " + s + " 1.0)");
                    break;
                case A_ACOS: approxAtoms = true; A("(and (<= 0.0 " + s + ") (<= " + s + " " + asym(piA()) + "))"); if (at.a) { std::string p = poly(at.a); A("(and (= (= " + s + " 0.0) (= " + p + " 1.0)) (= (= " + s + " " + asym(piA()) + ") (= " + p + " (- 1.0))))"); A("(= (> (* 2.0 " + s + ") " + asym(piA()) + ") (< " + p + " 0.0))"); A("(= (= (* 2.0 " + s + ") " + asym(piA()) + ") (= " + p + " 0.0))"); } break;
                case A_ATAN: case A_ASIN: approxAtoms = true; A("(and (<= (- " + asym(piA()) + ") (* 2.0 " + s + ")) (<= (* 2.0 " + s + ") " + asym(piA()) + "))"); { std::string p = poly(at.a); A("(and (= (> " + s + " 0.0) (> " + p + " 0.0)) (= (< " + s + " 0.0) (< " + p + " 0.0)))"); } break;
                case A_ATAN2: approxAtoms = true; A("(and (<= (- " + asym(piA()) + ") " + s + ") (<= " + s + " " + asym(piA()) + "))"); { std::string p = poly(at.a); A("(and (=> (> " + p + " 0.0) (> " + s + " 0.0)) (=> (< " + p + " 0.0) (< " + s + " 0.0)))"); } break;
                case A_EXP: { approxAtoms = true; std::string p = poly(at.a); A("(and (= (> " + p + " 0.0) (> " + s + " 1.0)) (= (= " + p + " 0.0) (= " + s + " 1.0)) (>= " + s + " (+ 1.0 " + p + ")))"); break; }
                case A_LOG: { approxAtoms = true; std::string p = poly(at.a); A("(and (= (> " + p + " 1.0) (> " + s + " 0.0)) (= (= " + p + " 1.0) (= " + s + " 0.0)) (<= " + s + " (- " + p + " 1.0)))"); break; }
                case A_POW: { approxAtoms = true; std::string x = poly(at.a), y = poly(at.b);
                    A("(=> (> " + x + " 0.0) (> " + s + " 0.0))");
                    A("(=> (and (> " + x + " 1.0) (> " + y + " 0.0)) (> " + s + " 1.0))"); A("(=> (and (> " + x + " 1.0) (< " + y + " 0.0)) (< " + s + " 1.0))");
                    A("(=> (and (< 0.0 " + x + ") (< " + x + " 1.0) (> " + y + " 0.0)) (< " + s + " 1.0))"); A("(=> (and (< 0.0 " + x + ") (< " + x + " 1.0) (< " + y + " 0.0)) (> " + s + " 1.0))");
                    A("(=> (or (= " + x + " 1.0) (= " + y + " 0.0)) (= " + s + " 1.0))");
                    A("(=> (and (= " + x + " 0.0) (> " + y + " 0.0)) (= " + s + " 0.0))");
                    break; }
                case A_UF: case A_ASINH: case A_ATANH: case A_ACOSH: approxAtoms = true; break;
                case A_ITE: { std::string c = node(at.cond); A("(= " + s + " (ite " + c + " " + poly(at.a) + " " + poly(at.b) + "))"); break; }
                default: approxAtoms = true;
            }
            if (at.a && !at.a->spec && at.a->isConst() && (at.k == A_SQRT || at.k == A_CBRT || at.k == A_EXP || at.k == A_LOG || (at.k == A_POW && at.b->isConst()))) {
                double x = at.a->constVal().get_d(), v = at.k == A_SQRT ? std::sqrt(x) : at.k == A_CBRT ? std::cbrt(x) : at.k == A_EXP ? std::exp(x) : at.k == A_LOG ? std::log(x) : std::pow(x, at.b->constVal().get_d());
                if (std::isfinite(v) && std::fabs(v) > 1e-200) {   // libm is good to an ulp or two; the interval is far wider
                    double e = std::fabs(v) * 1e-12 + (at.k == A_LOG ? 1e-12 : 0);
                    A("(and (< " + qs(Q(v - e)) + " " + s + ") (< " + s + " " + qs(Q(v + e)) + "))");
                }
            }
        }
        auto mono2 = [&](AK k, bool sameB) {
            auto& v = byKind[k];
            if (v.size() > 8) return;
            for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) {
                Atom x = rc.atoms[v[i]], y = rc.atoms[v[j]];
                if (sameB && x.b != y.b) continue;
                std::string sx = "a" + std::to_string(v[i]), sy = "a" + std::to_string(v[j]);
                std::string px = poly(x.a), py = poly(y.a);
                if (!sameB || rc.signKnown(x.b) > 0) o += "(assert (= (< " + px + " " + py + ") (< " + sx + " " + sy + ")))\n(assert (= (= " + px + " " + py + ") (= " + sx + " " + sy + ")))\n";
                else if (rc.signKnown(x.b) < 0) o += "(assert (=> (and (> " + px + " 0.0) (> " + py + " 0.0)) (and (= (< " + px + " " + py + ") (> " + sx + " " + sy + ")) (= (= " + px + " " + py + ") (= " + sx + " " + sy + ")))))\n";
            }
        };
        mono2(A_EXP, false); mono2(A_LOG, false); mono2(A_ATAN, false); mono2(A_ASIN, false); mono2(A_POW, true); mono2(A_SQRT, false);
        if (lin) {
            for (size_t i = 0; i < monos.size(); i++) {
                M m = monos[i];
                bool pos = true, nn = true;
                bool bnd = true; double B = 1;
                for (auto& f : m->f) {
                    Atom& a = rc.atoms[f.first];
                    bool strict = a.pos || (a.nonneg && f.second < 0);
                    if (f.second % 2) { if (!strict) pos = false; if (!strict && !a.nonneg) nn = false; }
                    else if (!strict && f.second > 0) pos = false;
                    (void)B; (void)bnd;
                }
                std::string s = monoSym[m->id];
                if (pos) o += "(assert (> " + s + " 0.0))\n"; else if (nn) o += "(assert (>= " + s + " 0.0))\n";
                // interval bounds
                Q lo, hi;
                if (monoBounds(m, lo, hi)) o += "(assert (and (<= " + qs(lo) + " " + s + ") (<= " + s + " " + qs(hi) + ")))\n";
            }
        } else {
            for (int a : invUsed) o += "(assert (= (* i" + std::to_string(a) + " a" + std::to_string(a) + ") 1.0))\n";
            invUsed.clear();
        }
        return o;
    }
    int piA() { rc.pi(); return rc.piAtom; }
    std::map<int, std::pair<Q, Q>>* bounds = nullptr;  // var atom -> [lo,hi]
    bool monoBounds(M m, Q& lo, Q& hi) {
        if (!bounds) return false;
        lo = 1; hi = 1;
        for (auto& f : m->f) {
            auto it = bounds->find(f.first);
            if (it == bounds->end() || f.second < 0) return false;
            Q l, h;
            Q a = it->second.first, b = it->second.second;
            Q pa = 1, pb = 1;
            for (int i = 0; i < f.second; i++) { pa *= a; pb *= b; }
            l = std::min(pa, pb); h = std::max(pa, pb);
            if (f.second % 2 == 0 && a < 0 && b > 0) l = 0;
            Q c[4] = {Q(lo * l), Q(lo * h), Q(hi * l), Q(hi * h)};
            lo = *std::min_element(c, c + 4); hi = *std::max_element(c, c + 4);
        }
        return true;
    }
};

struct Solver {
    RealCtx& rc; NodeCtx& nc;
    SolverProc z3;
    Stats st;
    int fe = 11, fs = 53;
    std::string dumpDir;
    std::map<int, std::pair<Q, Q>> bounds;
    Solver(RealCtx& r, NodeCtx& n) : rc(r), nc(n) { z3.cmd = {"z3-new", "-in", "-smt2"}; }
    std::map<std::string, std::vector<std::string>> fails;
    Res raw(const std::string& text, double timeout, const std::string& cls, const std::string& getv, std::string& values, const std::string& logic) {
        double t0 = nowS();
        std::string q = "(reset)\n(set-option :print-success false)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n(set-option :timeout " + std::to_string((long)(timeout * 1000)) + ")\n";
        if (!logic.empty()) q += "(set-logic " + logic + ")\n";
        q += text + "(check-sat)\n";
        std::string rep;
        st.queries++; st.byClass[cls]++;
        if (!dumpDir.empty()) { FILE* f = fopen((dumpDir + "/q" + std::to_string(st.queries) + "_" + cls + ".smt2").c_str(), "w"); if (f) { fputs(q.c_str(), f); fclose(f); } }
        bool ok = z3.ask(q, rep, timeout * 1.3 + 3);
        Res r = UNKNOWN;
        if (ok) {
            if (rep.find("(error") != std::string::npos) { st.errors++; lastErr = rep.substr(0, 400); r = UNKNOWN; }
            else if (rep.find("unsat") != std::string::npos) r = UNSAT;
            else if (rep.find("sat") != std::string::npos) r = SAT;
        }
        if (r == SAT && !getv.empty()) { if (!z3.ask(getv, values, 10)) values.clear(); }
        double dt = nowS() - t0;
        st.time += dt; st.maxq = std::max(st.maxq, dt);
        (r == SAT ? st.sat : r == UNSAT ? st.unsat : st.unknown)++;
        return r;
    }
    std::string lastErr;
    // decide conjunction. allowSat: whether a model is wanted
    Res check(const std::vector<N>& cs, double timeout, Model* mdl, const char* cls, bool linOnly = false) {
        bool fpAny = false;
        for (int pass = 0; pass < 2; pass++) {
            Enc e(rc, nc, pass == 0);
            e.fe = fe; e.fs = fs; e.bounds = &bounds;
            std::string body;
            try {
                for (N c : cs) body += "(assert " + e.node(c) + ")\n";
                body += e.atomFacts();
            } catch (Unsupported&) { return UNKNOWN; }
            fpAny = !e.fpVars.empty();
            std::string full = e.decl + body;
            std::string gv, vals;
            bool exact = !e.nonlin && !e.approxAtoms;
            if (mdl && (exact || pass == 1)) {
                gv = "(get-value (";
                int n = 0;
                for (int a : e.atomsUsed) if (rc.atoms[a].k == A_VAR) gv += "a" + std::to_string(a) + " ", n++;
                for (auto v : e.bvVars) gv += "v" + std::to_string(v) + " ", n++;
                for (auto v : e.fpVars) gv += "f" + std::to_string(v) + " ", n++;
                gv += "))";
                if (!n) gv.clear();
            }
            std::string logic;
            if (!e.hasBV && !fpAny) logic = pass == 0 ? "QF_LRA" : (e.nonlin || e.approxAtoms || true ? "QF_NRA" : "QF_LRA");
            if (exact && logic == "QF_NRA") logic = "QF_LRA";
            Res r = raw(full, pass == 0 && !fpAny ? std::min(timeout, 10.0) : timeout, cls, gv, vals, logic);
            if (r == UNSAT) return UNSAT;
            if (exact) { if (r == SAT && mdl) parse(vals, *mdl); return r; }
            if (linOnly && pass == 0) return UNKNOWN;
            if (pass == 1) {
                if (r == SAT && mdl) parse(vals, *mdl);
                return r;
            }
        }
        return UNKNOWN;
    }
    // ---- model parsing
    struct SX { std::string a; std::vector<SX> l; bool list = false; };
    static SX rd(const std::string& s, size_t& i) {
        while (i < s.size() && isspace(s[i])) i++;
        SX x;
        if (i >= s.size()) return x;
        if (s[i] == '(') {
            x.list = true; i++;
            while (true) {
                while (i < s.size() && isspace(s[i])) i++;
                if (i >= s.size()) return x;
                if (s[i] == ')') { i++; return x; }
                x.l.push_back(rd(s, i));
            }
        }
        while (i < s.size() && !isspace(s[i]) && s[i] != '(' && s[i] != ')') x.a += s[i++];
        return x;
    }
    static double num(const SX& x) {
        if (!x.list) { std::string t = x.a; if (!t.empty() && t.back() == '?') t.pop_back(); return strtod(t.c_str(), nullptr); }
        if (x.l.size() == 2 && x.l[0].a == "-") return -num(x.l[1]);
        if (x.l.size() == 3 && x.l[0].a == "/") return num(x.l[1]) / num(x.l[2]);
        return 0;
    }
    double fpnum(const SX& x) {
        auto bits = [](const std::string& b) { unsigned long long v = 0; if (b[1] == 'b') for (size_t i = 2; i < b.size(); i++) v = v * 2 + (b[i] - '0'); else v = strtoull(b.c_str() + 2, 0, 16); return v; };
        if (x.list && x.l.size() == 4 && x.l[0].a == "fp") {
            int s = bits(x.l[1].a); long long e = bits(x.l[2].a); unsigned long long m = bits(x.l[3].a);
            long long bias = (1LL << (fe - 1)) - 1;
            double v = e == 0 ? std::ldexp((double)m, 1 - bias - (fs - 1)) : std::ldexp((double)(m | (1ULL << (fs - 1))), e - bias - (fs - 1));
            return s ? -v : v;
        }
        if (x.list && x.l.size() >= 2) { if (x.l[1].a == "+oo") return INFINITY; if (x.l[1].a == "-oo") return -INFINITY; if (x.l[1].a == "NaN") return NAN; if (x.l[1].a == "-zero") return -0.0; }
        return 0;
    }
    void parse(const std::string& v, Model& m) {
        size_t i = 0;
        SX x = rd(v, i);
        for (auto& p : x.l) {
            if (p.l.size() != 2) continue;
            const std::string& n = p.l[0].a;
            if (n.empty()) continue;
            int id = atoi(n.c_str() + 1);
            if (n[0] == 'a') m.real[id] = num(p.l[1]);
            else if (n[0] == 'v') {
                const std::string& b = p.l[1].a;
                u128 val = 0;
                if (b == "true") val = 1; else if (b == "false") val = 0;
                else if (b.size() > 2 && b[1] == 'b') for (size_t k = 2; k < b.size(); k++) val = val * 2 + (b[k] - '0');
                else if (b.size() > 2) for (size_t k = 2; k < b.size(); k++) val = val * 16 + (isdigit(b[k]) ? b[k] - '0' : tolower(b[k]) - 'a' + 10);
                m.bv[id] = val;
            } else if (n[0] == 'f') m.fp[id] = fpnum(p.l[1]);
        }
    }
    // equality of two cleared polynomials; 1: identity proven exactly, 2: proven up to coefficient tolerance, 0: not
    // cheap pre-check (decides only whether the identity query is worth asking)
    bool coefMatch(R l, R r) {
        std::unordered_map<int, std::pair<Q, Q>> cf;
        for (auto& t : l->t) cf[t.m->id].first = t.c;
        for (auto& t : r->t) cf[t.m->id].second = t.c;
        Q tol(rc.coefTol);
        for (auto& kv : cf) {
            if (kv.second.first == kv.second.second) continue;
            Q df = abs(kv.second.first - kv.second.second), a = abs(kv.second.first), b = abs(kv.second.second);
            if (df > tol * (a > b ? a : b)) return false;
        }
        return true;
    }
    std::set<std::string> identityKnown;
    int polyIdentity(R l, R r) {
        Enc e(rc, nc, true);
        e.bounds = nullptr;
        std::string a = e.poly(l), b = e.poly(r);
        std::string vals, text = e.decl + "(assert (not (= " + a + " " + b + ")))\n";
        if (text.size() < 4096 && identityKnown.count(text)) return 1;   // the same query was discharged on another path
        if (raw(text, 30, "poly-identity", "", vals, "QF_LRA") == UNSAT) { if (text.size() < 4096) identityKnown.insert(text); return 1; }
        // weights
        std::map<int, std::pair<Q, Q>> cf;
        for (auto& t : l->t) cf[t.m->id].first = t.c;
        for (auto& t : r->t) cf[t.m->id].second = t.c;
        std::string d, lhs, rhs;
        Q tol(rc.coefTol);
        int n = 0;
        for (auto& kv : cf) {
            Q df = abs(kv.second.first - kv.second.second);
            if (df == 0) continue;
            Q mx = abs(kv.second.first) > abs(kv.second.second) ? Q(abs(kv.second.first)) : Q(abs(kv.second.second));
            std::string w = "w" + std::to_string(kv.first);
            d += "(declare-const " + w + " Real)\n(assert (>= " + w + " 0.0))\n";
            lhs += " (* " + Enc::qs(df) + " " + w + ")";
            rhs += " (* " + Enc::qs(tol * mx) + " " + w + ")";
            n++;
        }
        if (!n) return 1;
        if (raw(d + "(assert (> (+ 0.0" + lhs + ") (+ 0.0" + rhs + ")))\n", 30, "coef-tolerance", "", vals, "QF_LRA") == UNSAT) return 2;
        return 0;
    }
};
