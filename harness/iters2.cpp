// P16: IAS15, sequent and constant step iterators
#include "common.h"
#include <array>
static double box(const char* p, int i, double lo = -1, double hi = 1) { return sym_box(nm(p, i).c_str(), lo, hi); }
// state [t, positions 3N, velocities 3N (, auxiliary velocities 3N)]; derivative w0 + w7 (t - t0)^7 entry by entry, independent of the rest
template <bool AUX> struct Free {
    using Scalar = double;
    static constexpr bool ext_vel_dep = AUX;
    static const int N = 2, S = 1 + 6 * N + (AUX ? 3 * N : 0);
    int clock = 0;
    double y[S], w0[S], w7[S], scale = 1;
    size_t number() const { return N; }
    size_t pos_offset() const { return 1; }
    size_t vel_offset() const { return 1 + 3 * N; }
    size_t auxi_vel_offset() const { return 1 + 6 * N; }
    double step_scale() const { return scale; }
    V3 pos(size_t i) const { return V3(y[1 + 3 * i], y[2 + 3 * i], y[3 + 3 * i]); }
    V3 vel(size_t i) const { return V3(y[1 + 3 * N + 3 * i], y[2 + 3 * N + 3 * i], y[3 + 3 * N + 3 * i]); }
    template <typename A> void write_to_scalar_array(A& a) const { a.resize(S); for (int i = 0; i < S; i++) a[i] = y[i]; }
    template <typename A> void read_from_scalar_array(A const& a) { for (int i = 0; i < S; i++) y[i] = a[i]; }
    template <typename A> void evaluate_general_derivative(A& a) const {
        a.resize(S);
        double x = y[clock], x2 = x * x;
        for (int i = 0; i < S; i++) a[i] = w0[i] + w7[i] * x2 * x2 * x2 * x;
    }
};
static std::vector<double> pcs;            // predictor-corrector errors since the last decision
static int pcCalls, sizeSeen, maxPC = 3;
static bool mayReject = true;
struct PC {
    void set_atol(double) {}
    void set_rtol(double) {}
    template <typename A, typename B> double error(A const& dy, B const& diff) {
        sizeSeen = dy.size();
        sym_assert(dy.size() == diff.size(), "sizes-agree");
        if (!pcs.empty()) sym_assert(pcs.back() >= 1 && (pcs.size() < 2 || pcs.back() < pcs[pcs.size() - 2]), "iterates-only-while-improving");
        pcs.push_back(sym_pos(nm("pc", pcCalls++).c_str(), 0.1, 4));
        sym_assume(pcs.back() < 1e6);
        if ((int)pcs.size() == maxPC) sym_assume(pcs.back() < 1);
        return pcs.back();
    }
};
static double stepErr;
static int decisions;
struct SC {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    double next(size_t order, double e) const {
        size_t n = pcs.size();
        sym_assert(order == 7, "order-of-the-last-coefficient");
        sym_assert(n > 0 && (pcs[n - 1] < 1 || (n > 1 && pcs[n - 1] >= pcs[n - 2])), "decides-only-when-converged");
        pcs.clear();
        stepErr = e;
        return decisions++ == 0 && mayReject && sym_choose("reject", 2) ? 0.125 : 0.5;
    }
    double limiter_min() const { return 0.25; }
    double limiter(double r) const { sym_assert(r == 0.5, "limiter-on-the-new-ratio"); return 0.75; }
};
template <bool AUX> using IAS = ode::IAS15<integrator::GaussRadau<DT>, PC, SC>;
template <bool AUX> static void prep(Free<AUX>& p, bool symstate, int who) {
    for (int i = 0; i < p.S; i++) p.y[i] = p.w0[i] = p.w7[i] = 0;
    p.w0[0] = 1;
    for (int b = 0; b < 2; b++) {
        p.y[1 + 3 * b + b] = 1 + b;                       // places
        p.y[1 + 6 + 3 * b] = b == 0 ? 1 : 1e-12;          // body 1 is slow: its share of the derivative is not looked at
    }
    for (int i = 1; i < p.S; i++) p.w0[i] = 0;
    int base[3] = {1, 7, 13};
    for (int k = 0; k < (AUX ? 3 : 2); k++) {
        double w = sym_box(nm("w", k).c_str(), 0, 1), q = sym_box(nm("q", k).c_str(), 0, 1);
        sym_assume(w > 0);
        sym_assume(q > 0);
        p.w0[base[k] + 3 * who] = k == 1 ? -w : w;
        p.w7[base[k] + 3 * who + 2] = k == 1 ? q : -q;
        if (who == 1) p.w7[base[k] + 3 * who + 1] = q / 2;
    }
}
template <bool AUX> static void ias(int who) {
    Free<AUX> p;
    prep(p, false, who);
    auto p0 = p;
    p.scale = 1;
    IAS<AUX> it;
    pcs.clear(); pcCalls = decisions = 0;
    double hn = it.iterate(p, 1.0), h = decisions == 1 ? 1.0 : 0.125;
    sym_reach("accepted");
    sym_assert(decisions <= 2, "rejected-step-retried-once");
    sym_assert_eq(hn, h * 0.75, "next-step-from-the-limited-ratio");
    for (int i = 0; i < p.S; i++) sym_assert_close(p.y[i], p0.y[i] + p0.w0[i] * h + p0.w7[i] * (h * h * h * h * h * h * h * h) / 8, 1e-8, "accepted-state-is-the-integral");
    double mb = 0, md = 0, h7 = h * h * h * h * h * h * h, s7 = 1, s = h * integrator::Radau::h(6);
    for (int i = 0; i < 7; i++) s7 *= s;
    if (who == 0)
        for (int i = 1; i < p.S; i++) {
            double b = p0.w7[i] * h7, d = p0.w0[i] + p0.w7[i] * s7;
            b = b < 0 ? -b : b;
            d = d < 0 ? -d : d;
            mb = b > mb ? b : mb;
            md = d > md ? d : md;
        }
    if (who == 0) {
        sym_assert_eq(stepErr * 5e-10 * md, mb, "error-is-the-last-coefficient-over-the-derivative");
    } else sym_assert_eq(stepErr, 0, "slow-bodies-do-not-count");
}
extern "C" void ias_fast() { maxPC = 1, mayReject = false; ias<false>(0); }
extern "C" void ias_slow() { ias<false>(1); }
extern "C" void ias_fast_aux() { maxPC = 1, mayReject = false; ias<true>(0); }
extern "C" void ias_slow_aux() { ias<true>(1); }
extern "C" void ias_converge() { maxPC = 5, mayReject = false; ias<false>(1); }
// which bodies count: displacement during the step against the distance from the origin, in physical time
extern "C" void ias_mask() {
    Free<false> p;
    prep(p, false, 0);
    p.w0[1] = 1, p.w7[3] = sym_box("q", 0.1, 1), p.w0[7] = p.w7[9] = 0, p.y[1 + 6] = 0;
    sym_assume(p.w7[3] > 0);
    p.scale = sym_pos("scale", 0.1, 10);
    double x = p.y[1] = sym_real("x", -1, 1), v = p.y[7] = sym_pos("v", 1e-13, 1e-11);
    IAS<false> it;
    pcs.clear(); pcCalls = decisions = 0;
    maxPC = 1, mayReject = false;
    double h = sym_pos("h", 0.5, 2);
    sym_assume(h <= 1);
    it.iterate(p, h);
    double dt = h / p.scale;
    bool slow = x * x * 1e-12 > v * v * dt * dt;
    if (slow) sym_assert_eq(stepErr, 0, "slow-bodies-do-not-count");
    else sym_assert(stepErr > 0, "moving-bodies-count");
}
template <typename B> struct Reg : B { static constexpr int regu_type = 1; };
extern "C" void ias_time() {   // the time entry counts only for regularised systems
    Reg<Free<false>> r;
    Free<false> p;
    prep<false>(p, false, 1);
    prep<false>(r, false, 1);
    double q = sym_box("qt", 0, 1);
    sym_assume(q > 0);
    p.clock = r.clock = 4;
    for (int i = 1; i < p.S; i++) p.w0[i] = r.w0[i] = p.w7[i] = r.w7[i] = 0;
    p.w0[4] = r.w0[4] = 1;
    p.w7[0] = r.w7[0] = q;
    maxPC = 1, mayReject = false;
    IAS<false> a, b;
    pcs.clear(); pcCalls = decisions = 0;
    a.iterate(p, 0.5);
    sym_assert_eq(stepErr, 0, "plain-time-does-not-count");
    pcs.clear();
    b.iterate(r, 0.5);
    sym_assert(stepErr > 0, "regularised-time-counts");
}
// ---- sequent and constant iterators on a stand-in integrator
struct Seq {
    using Scalar = double;
    std::vector<double> s, home;
    double H, sum = 0;
    int n = 0, run = 0;
    double first = 0;
    std::vector<int> ns;
    std::vector<double> res;     // results (first entry) of the finished runs
    template <typename A> void write_to_scalar_array(A& a) { finish(); a.resize(2); a[0] = s[0]; a[1] = s[1]; }
    template <typename A> void read_from_scalar_array(A const& a) { finish(); s[0] = a[0]; s[1] = a[1]; }
    void finish() {
        if (!n) return;
        sym_assert_close(sum, H, 1e-12, "substeps-add-up");
        ns.push_back(n);
        n = 0, sum = 0;
        s[0] = sym_real(nm("R", run).c_str(), -1, 1);
        s[1] = s[0] * 2;
        res.push_back(s[0]);
        run++;
    }
};
static Seq* q;
struct FInt : integrator::LeapFrogDKD<DT> {
    static constexpr size_t order{4};
    template <typename P, typename S> void integrate(P& p, S h) {
        if (!p.n) {
            sym_assert_eq(p.s[0], p.home[0], "every-run-starts-from-the-step-begin");
            sym_assert_eq(p.s[1], p.home[1], "every-run-starts-from-the-step-begin");
            p.first = h;
        } else sym_assert_eq(h, p.first, "equal-substeps");
        p.n++;
        p.sum += h;
    }
};
static double sErr, ratio;
static int eCalls, lastCol;
struct SE {
    void set_atol(double) {}
    void set_rtol(double) {}
    template <typename A, typename B, typename C> double error(A const& y0, B const& y1, C const& y1p) {
        q->finish();
        int n = q->res.size();
        sym_assert(n >= 2, "two-results");
        for (int i = 0; i < 2; i++) sym_assert_eq(y0[i], q->home[i], "error-scale-is-the-start");
        sym_assert_eq(y1[0], q->res[n - 2], "coarser-then-finer");
        sym_assert_eq(y1p[0], q->res[n - 1], "coarser-then-finer");
        double a = q->ns[n - 1], b = q->ns[n - 2], r = a / b;
        double e = sym_pos(nm("e", eCalls++).c_str(), 0.1, 40);
        sErr = e / (r * r * r * r - 1);
        sym_assert(a > b, "refines");
        return e;
    }
};
struct SCt {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    double next_with_limiter(size_t order, double e) const {
        sym_assert(order == 4, "order");
        sym_assert_eq(e, sErr, "richardson-scaled-error");
        return ratio = sym_pos("ratio", 0.1, 4);
    }
};
extern "C" void sequent() {
    Seq p;
    q = &p;
    p.s = {sym_real("s0", -1, 1), sym_real("s1", -1, 1)};
    p.home = p.s;
    p.H = sym_box("H", -1, 1);
    ode::SequentOdeIterator<FInt, SE, SCt> it;
    double hn = it.iterate(p, p.H);
    sym_assert_eq(hn, p.H * ratio, "next-step");
    int n = p.res.size();
    sym_assert_eq(p.s[0], p.res[n - 1], "result-is-the-finest");
    sym_assert_eq(p.s[1], p.res[n - 1] * 2, "result-is-the-finest");
    if (eCalls < 10) sym_assert(sErr <= 1, "refined-until-within-tolerance");
}
struct Rec { using Scalar = double; int n = 0; double h = 0; };
struct RInt : integrator::LeapFrogDKD<DT> { template <typename P, typename S> void integrate(P& p, S h) { p.n++; p.h = h; } };
extern "C" void constant() {
    Rec r;
    ode::ConstOdeIterator<RInt> it;
    double h = sym_real("h", -1, 1);
    sym_assert_eq(it.iterate(r, h), h, "constant-step");
    sym_assert(r.n == 1, "one-integration-per-step");
    sym_assert_eq(r.h, h, "one-integration-per-step");
}
