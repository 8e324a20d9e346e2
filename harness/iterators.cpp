// P13 Bulirsch-Stoer, P14 step control, P15 error estimates, P16 other step iterators
#include "common.h"
#include <array>
#include <functional>
static const int NV = 2;                 // state entries of the stand-in system
static double lastErr, limLo, limHi, lastR, lastL;
static int attempts, maxAttempts;
static bool allBad;                      // every error estimate of this attempt was above tolerance
struct Sys {                             // records what the iterator does; every drift or kick moves the state by an arbitrary vector
    using Scalar = double;
    using StateScalarArray = std::vector<double>;
    std::vector<double> state, inc, home; // home: the state every substep sequence has to start from
    bool collecting = false, kdk = false;
    int count = 0;                       // sequences so far, names the fresh symbols
    double H = 0, Hold = 0;
    std::vector<int> ns;                 // substep numbers of the finished sequences of this attempt
    std::vector<std::array<double, NV>> X;  // and their increments
    std::vector<int> kind;               // current sequence
    std::vector<double> len;
    template <typename A> void write_to_scalar_array(A& a) const { a.resize(NV); for (int i = 0; i < NV; i++) a[i] = state[i]; }
    void finish() {                      // a sequence is over: it has to be a full leapfrog composition of n equal steps
        if (kind.empty()) return;
        int fk = kdk ? 1 : 0, n = int(kind.size() - 1) / 2;
        double D = 0;
        sym_assert(kind.size() == size_t(2 * n + 1) && n > 0, "leapfrog-sequence");
        for (size_t i = 0; i < kind.size(); i++) if (kind[i] != fk) D += len[i];
        bool again = false;
        for (int m : ns) again = again || m == n;
        if (ns.empty() && attempts == 0) attempts = 1;
        else if (again) {                // the same substep number: a new attempt after a rejection
            sym_assert(n == ns[0], "different-substep-numbers");
            sym_assert(lastErr > 1, "retried-only-when-out-of-tolerance");
            Hold = H;
            ns.clear();
            X.clear();
            if (++attempts > maxAttempts) sym_end();
            H = D;
            double q = D / Hold;
            sym_assert(q >= limLo, "retried-step-within-the-limits");
            sym_assert(q <= limHi, "retried-step-within-the-limits");
            sym_assert(bool(int(q < 1) | int(!allBad)), "retried-step-is-shorter");
            allBad = true;
        }
        for (size_t i = 0; i < kind.size(); i++) {
            sym_assert(kind[i] == int(i % 2 ? 1 - fk : fk), "leapfrog-sequence");
            bool end = i == 0 || i + 1 == kind.size();
            double d = len[i] - (end ? len[0] : len[1]);
            if (sym_known(d)) sym_assert(d == 0, "equal-substeps");
            else sym_assert_eq(len[i], end ? len[0] : len[1], "equal-substeps");
        }
        sym_assert_eq(len[0] * (2 * n), H, "equal-substeps");
        sym_assert_eq(len[1] * n, H, "equal-substeps");
        ns.push_back(n);
        X.push_back({inc[0], inc[1]});
        kind.clear(); len.clear();
        count++;
    }
    void op(int k, double h) {
        if (kind.empty())
            for (int i = 0; i < NV; i++) {
                sym_assert_eq(state[i], home[i], "every-sequence-starts-from-the-step-begin");
                sym_assert_eq(inc[i], 0, "increments-cleared");
            }
        if (!kind.empty() && kind.back() == k) len.back() += h;
        else { kind.push_back(k); len.push_back(h); }
        sym_assert(collecting, "increments-are-collected");
        bool whole = kind.size() % 2 && kind.size() > 1;   // a full sequence? (ends like it began)
        if (whole) { double d = len.back() - len.front(); whole = sym_known(d) ? d == 0 : true; }
        if (!whole) { for (int i = 0; i < NV; i++) inc[i] = 7, state[i] = 8; return; }
        std::string name = nm("X", count) + nm("_", kind.size());
        for (int i = 0; i < NV; i++) {
            inc[i] = sym_box((name + char('a' + i)).c_str(), -1, 1);
            state[i] = home[i] + inc[i];
        }
    }
    void drift(double h) { op(0, h); }
    void kick(double h) { op(1, h); }
    template <typename A> void read_from_scalar_array(A const& a) {
        sym_assert(a.size() == (size_t)NV, "state-size");
        finish();
        for (int i = 0; i < NV; i++) state[i] = a[i];
    }
    std::vector<double> const& increment() const { return inc; }
    void collect_increment(bool b) { collecting = b; }
    void clear_increment() { finish(); for (auto& x : inc) x = 0; }
};
static Sys* sys;
static std::vector<double> errs, ratios;
static std::vector<double> Tkk(std::vector<int> const& n, std::vector<std::array<double, NV>> const& X, int from, int to) {
    std::vector<double> r(NV, 0.0);      // polynomial in 1/n^2 through the points from..to, at 0
    for (int i = from; i <= to; i++) {
        double w = 1, ni = double(n[i]) * n[i];
        for (int j = from; j <= to; j++)
            if (j != i) w *= ni / (ni - double(n[j]) * n[j]);
        for (int q = 0; q < NV; q++) r[q] += w * X[i][q];
    }
    return r;
}
static int forceK = 0;                   // > 0: the error is out of tolerance before this column and within it there
struct Err {
    Err() {}
    Err(double, double) {}
    void set_atol(double) {}
    void set_rtol(double) {}
    template <typename A, typename B, typename C> double error(A const& y0, B const& y1, C const& y1p) {
        sys->finish();
        int k = sys->ns.size() - 1;
        sym_assert(k >= 1, "error-after-two-rows");
        auto a = Tkk(sys->ns, sys->X, 1, k), b = Tkk(sys->ns, sys->X, 0, k);
        for (int i = 0; i < NV; i++) {
            sym_assert_eq(y0[i], sys->home[i], "error-scale-is-the-start-of-the-step");
            sym_assert_close(y1[i], a[i], 1e-9, "error-compares-the-last-two-extrapolations");
            sym_assert_close(y1p[i], b[i], 1e-9, "error-compares-the-last-two-extrapolations");
        }
        double e = sym_pos((nm("e", sys->count) + nm("_", k)).c_str(), 0.1, 40);
        if (forceK) sym_assume(k < forceK ? e > 1 : e <= 1);
        allBad = bool(int(allBad) & int(e > 1));
        errs.push_back(e);
        return lastErr = e;
    }
};
struct Ctl {                             // any controller that shortens the step when the error is out of tolerance
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    double next(size_t order, double e) const {
        int k = sys->ns.size() - 1;
        sym_assert((int)order == 2 * k + 1, "order-of-the-extrapolated-result");
        sym_assert_eq(e, lastErr, "error-handed-on");
        double r = sym_pos((nm("r", sys->count) + nm("_", k)).c_str(), 0.1, 3);
        sym_assume(bool(int(r < 1) | int(e <= 1)));
        if (k == 1) sym_assume(bool(int(r < 0.5) | int(e <= 9)));   // holds for the real controller, see pid_contract
        ratios.push_back(r);
        return r;
    }
    double limiter(size_t, double r) const {
        double l = sym_pos((nm("l", sys->count)).c_str(), limLo, limHi);
        sym_assume(l >= limLo && l <= limHi);
        sym_assume(bool(int(l < 1) | int(r >= 1)));
        lastR = r, lastL = l;
        return l;
    }
};
template <typename I, int M> using BSx = ode::BulirschStoer<I, Err, Ctl, M>;
static void start(Sys& s, bool kdk) {
    sys = &s;
    s.kdk = kdk;
    s.inc.resize(NV);
    for (int i = 0; i < NV; i++) s.state.push_back(sym_box(nm("s", i).c_str(), -1, 1));
    limLo = 0.25, limHi = 4;
    sym_expect_abort(1);      // giving up loudly is acceptable, a wrong result is not
}
template <typename BS>
static double step(BS& bs, Sys& s, double h, int tries) {
    s.home = s.state;
    s.ns.clear(); s.X.clear();
    s.H = h;
    attempts = 0, maxAttempts = tries, allBad = true;
    double hn = bs.iterate(s, h);
    sym_reach("accepted");
    int k = s.ns.size() - 1;
    auto T = Tkk(s.ns, s.X, 0, k);
    for (int i = 0; i < NV; i++) sym_assert_close(s.state[i], s.home[i] + T[i], 1e-9, "accepted-state-is-the-extrapolation");
    sym_assert(lastErr <= 1, "accepted-only-within-tolerance");
    sym_assert(!s.collecting, "increment-collection-switched-off");
    sym_assert_eq(hn, s.H * lastL, "next-step-within-the-limits");
    return hn;
}
template <typename I, int M>
static void bsFirst(bool kdk) {
    Sys s;
    start(s, kdk);
    double h = sym_real("h", -1, 1);
    sym_assume(h != 0);
    BSx<I, M> bs;
    double hn = step(bs, s, h, 2);
    sym_assert_eq(lastR, ratios.back(), "first-step-follows-the-controller");
}
template <typename I, int M>
static void bsDeep(bool kdk) {           // the first step converges in the last column only
    Sys s;
    start(s, kdk);
    double h = sym_real("h", -1, 1);
    sym_assume(h != 0);
    BSx<I, M> bs;
    forceK = M;
    step(bs, s, h, 1);
    forceK = 0;
}
template <typename I, int M>
static void bsNext(bool kdk, int K) {    // second step, after a first one which converged in column K
    Sys s;
    start(s, kdk);
    double h = sym_real("h", 0, 1);
    sym_assume(h != 0);
    BSx<I, M> bs;
    forceK = K;
    step(bs, s, h, 1);
    forceK = 0;
    double h2 = sym_real("g", -1, 1);
    sym_assume(h2 != 0);
    step(bs, s, h2, 2);
}
using DKD = integrator::LeapFrogDKD<DT>;
using KDK = integrator::LeapFrogKDK<DT>;
extern "C" void bs1_dkd() { bsFirst<DKD, 7>(false); }
extern "C" void bs1_kdk() { bsFirst<KDK, 7>(true); }
extern "C" void bs1_long() { bsFirst<DKD, 11>(false); }
extern "C" void bs_deep_dkd() { bsDeep<DKD, 10>(false); }
extern "C" void bs_deep_kdk() { bsDeep<KDK, 10>(true); }
extern "C" void bs_deeper_kdk() { bsDeep<KDK, 14>(true); }
extern "C" void bs2_k1() { bsNext<DKD, 4>(false, 1); }
extern "C" void bs2_k2() { bsNext<DKD, 4>(false, 2); }
extern "C" void bs2_k3() { bsNext<DKD, 4>(false, 3); }
extern "C" void bs2_k4() { bsNext<DKD, 4>(false, 4); }
extern "C" void bs2_l3() { bsNext<DKD, 7>(false, 3); }
extern "C" void bs2_l5() { bsNext<DKD, 7>(false, 5); }
extern "C" void bs2_l7() { bsNext<DKD, 7>(false, 7); }
extern "C" void bs2_kdk() { bsNext<KDK, 4>(true, 2); }

// ---- Bulirsch-Stoer for functions dy/dt = f(y, t): modified midpoint + extrapolation
struct FErr {
    static int K, calls;
    FErr() {}
    FErr(double, double) {}
    void set_atol(double) {}
    void set_rtol(double) {}
    template <typename A, typename B, typename C> double error(A const&, B const&, C const&) {
        calls++;
        double e = sym_pos(nm("e", calls).c_str(), 0.1, 40);
        sym_assume(calls < K ? e > 1 : e <= 1);
        return e;
    }
};
int FErr::K, FErr::calls;
struct FCtl {
    void set_limiter(double, double) {}
    void set_safe_guards(double, double) {}
    double next(size_t, double) const { return 0.5; }
    double limiter(size_t, double r) const { return r; }
};
using SA = DT::StateScalarArray;
static void bsf(int K) {
    ode::BulirschStoer<DKD, FErr, FCtl, 7> bs;
    FErr::K = K, FErr::calls = 0;
    double z = sym_box("z", -1, 1), y0 = sym_box("y", -1, 1), t0 = sym_real("t", -1, 1), t = t0;
    double c[16];
    for (int i = 0; i <= 2 * K + 1; i++) c[i] = sym_box(nm("c", i).c_str(), -1, 1);
    SA d(2);
    d[0] = y0;
    d[1] = 0;
    auto f = [&](SA const& y, SA& dy, double tt) {
        dy[0] = z * y[0];
        double s = 0, x = tt - t0;
        for (int i = 2 * K + 1; i >= 0; i--) s = s * x + c[i];
        dy[1] = s;
    };
    double h = bs.iterate(f, d, t, 0.5);
    sym_assert_eq(t, t0 + 0.5, "time-advanced-by-the-step");
    sym_assert_eq(h, 0.25, "next-step-from-the-controller");
    double s = 0, w = 0.5;
    for (int i = 0; i <= 2 * K + 1; i++, w *= 0.5) s += c[i] * w / (i + 1);
    sym_assert_close(d[1], s, 1e-9, "quadrature-exact-to-its-order");
    double p = d[0], fact = 1;
    for (int k = 0; k <= 2 * K + 2; k++) {      // Taylor coefficients in z at 0
        double g = sym_subst(p, "z", 0);
        double e = y0;
        for (int i = 0; i < k; i++) e *= 0.5;
        sym_assert_close(g, e, 1e-6, "linear-equation-to-the-order-of-the-table");
        p = sym_diff(p, "z");
    }
}
extern "C" void bsf_1() { bsf(1); }
extern "C" void bsf_2() { bsf(2); }
extern "C" void bsf_3() { bsf(3); }
extern "C" void bsf_4() { bsf(4); }
extern "C" void bsf_retry() {   // rejected attempts leave no trace
    ode::BulirschStoer<DKD, FErr, FCtl, 2> bs;
    FErr::K = 4, FErr::calls = 0;     // first attempt: columns 1 and 2 fail; second attempt accepts in its second column
    double y0 = sym_box("y", -1, 1), t0 = sym_real("t", -1, 1), t = t0, c0 = sym_box("c0", -1, 1), c1 = sym_box("c1", -1, 1);
    SA d(1);
    d[0] = y0;
    auto f = [&](SA const& y, SA& dy, double tt) { dy[0] = c0 + c1 * (tt - t0); };
    bs.iterate(f, d, t, 0.5);
    sym_assert(FErr::calls >= 4, "rejected-once");
    double h = t - t0;
    sym_assert_close(d[0], y0 + c0 * h + 0.5 * c1 * h * h, 1e-9, "quadrature-after-rejection");
    sym_assert_eq(h, 0.25, "shortened-step");
}
// ---- P14: PID controller
using PID = ode::PIDController<DT>;
extern "C" void pid() {
    int o = 1 + sym_choose("order", 24);
    if (o > 20) o = o * 10 - 171;   // 39, 49 at the end
    if (o > 49) o = 49;
    double S1 = sym_pos("S1", 0.1, 1), S2 = sym_pos("S2", 0.1, 1), S3 = sym_pos("S3", 0.01, 0.9), S4 = sym_pos("S4", 1, 9);
    sym_assume(S3 < 1);
    sym_assume(S4 > 1);
    PID p;
    p.set_safe_guards(S1, S2);
    p.set_limiter(S3, S4);
    double hi = std::pow(1 / S3, 1.0 / o), lo = std::pow(S3, 1.0 / o) / S4;
    sym_assert_eq(p.limiter_max(o), hi, "limits");
    sym_assert_eq(p.limiter_min(o), lo, "limits");
    sym_assert_eq(p.limiter_max(), S4, "limits-without-order");
    sym_assert_eq(p.limiter_min(), 1 / S4, "limits-without-order");
    double e = sym_pos("e", 0.01, 20);
    double f = S1 * std::pow(S2 / e, 1.0 / o);
    sym_assert_eq(p.next(o, e), f, "proportional-law");
    sym_assert_eq(p.next(o, std::array<double, 1>{e}), f, "proportional-law");
    sym_assert_eq(p.next(o, 0.0), hi, "no-error-greatest-growth");
    sym_assert_eq(p.next(o, std::array<double, 1>{0.0}), hi, "no-error-greatest-growth");
    sym_assert_eq(p.next(o, std::array<double, 2>{0.0, e}), hi, "no-error-greatest-growth");
    double g = sym_pos("g", 0.01, 20), Kp = sym_pos("Kp", 0.1, 1), Ki = sym_pos("Ki", 0.1, 1), Kd = sym_real("Kd", -1, 1);
    p.set_PID_coefficients(Kp, Ki, Kd);
    sym_assert_eq(p.next(o, e), f, "proportional-law");
    sym_assert_eq(p.next(o, std::array<double, 2>{e, g}), S1 * std::pow(S2 / e, Kp * (1.0 / o)) * std::pow(g / S2, Ki * (1.0 / o)), "proportional-integral-law");
}
extern "C" void pid_limits() {
    static const int ords[] = {0, 1, 2, 7, 15};
    int o = ords[sym_choose("order", 5)];
    PID p;
    double r = sym_real("r", -1, 9), e = sym_pos("e", 0.01, 20);
    double l = p.limiter(o, r), lo = p.limiter_min(o), hi = p.limiter_max(o);
    sym_assert(lo < hi && lo <= 1 && hi >= 1, "limits-enclose-one");
    sym_assert(l == (r < lo ? lo : r > hi ? hi : r), "clamped");
    double q = p.limiter(r), lo0 = p.limiter_min(), hi0 = p.limiter_max();
    sym_assert(q == (r < lo0 ? lo0 : r > hi0 ? hi0 : r), "clamped");
    if (!o) return;
    double n = p.next(o, e), w = p.next_with_limiter(o, e);
    sym_assert(w == (n < lo ? lo : n > hi ? hi : n), "clamped");
}
extern "C" void pid_default() {   // a new controller behaves like one with the documented limiter and guards
    PID p;
    double e = sym_pos("e", 0.01, 20), r = sym_real("r", -1, 9);
    for (int o = 1; o < 50; o++) {
        double hi = std::pow(50.0, 1.0 / o), lo = std::pow(0.02, 1.0 / o) / 4;
        sym_assert_close(p.limiter_max(o), hi, 1e-9, "default-limits");
        sym_assert_close(p.limiter_min(o), lo, 1e-9, "default-limits");
    }
    sym_assert(p.limiter_max() == 4, "default-limits");
    sym_assert(p.limiter_min() == 0.25, "default-limits");
    int o = 1 + sym_choose("order", 20);
    sym_assert_eq(p.next(o, e), 0.65 * std::pow(0.95 / e, 1.0 / o), "default-law");
    double lo = p.limiter_min(o), hi = p.limiter_max(o);
    sym_assert(p.limiter(o, r) == (r < lo ? lo : r > hi ? hi : r), "clamped");
}
extern "C" void pid_contract() {   // what the iterators rely on: an error out of tolerance shortens the step, and more error means a shorter step
    PID p;
    int s = sym_choose("guards", 4);
    static const double g1[] = {0.72, 0.6, 0.7, 0.85}, g2[] = {0.95, 0.95, 1.0, 1.0};
    p.set_safe_guards(g1[s], g2[s]);
    p.set_limiter(0.02, 4.0);
    static const int ords[] = {3, 5, 7, 9, 15, 4};
    int o = ords[sym_choose("order", 6)];
    double e = sym_pos("e", 0.01, 20), f = sym_pos("f", 0.01, 20);
    double a = p.next(o, e), b = p.next(o, f);
    if (e > 1) sym_assert(a < 1, "too-much-error-shortens-the-step");
    if (e < f) sym_assert(b < a, "more-error-shorter-step");
}
extern "C" void pid_contract9() {
    PID p;
    p.set_safe_guards(0.72, 0.95);
    double e = sym_pos("e", 0.01, 20);
    if (e > 9) sym_assert(p.next(3, e) < 0.5, "error-nine-halves-the-step");
}
// ---- P15: error estimates
struct V { std::vector<double> a, b, c; };
static V vecs(int n) {
    V v;
    for (int i = 0; i < n; i++) {
        v.a.push_back(sym_real(nm("a", i).c_str(), -2, 2));
        v.b.push_back(sym_real(nm("b", i).c_str(), -2, 2));
        v.c.push_back(sym_real(nm("c", i).c_str(), -2, 2));
    }
    return v;
}
static double ab(double x) { return x < 0 ? -x : x; }
static double mx(double x, double y) { return x < y ? y : x; }
template <typename E> static E est(double& at, double& rt) {
    E e;
    at = sym_pos("atol", 0.1, 2);
    rt = sym_pos("rtol", 0.1, 2);
    e.set_atol(at);
    e.set_rtol(rt);
    sym_assert_eq(e.atol(), at, "tolerances");
    sym_assert_eq(e.rtol(), rt, "tolerances");
    E f(at, rt);
    sym_assert_eq(f.atol(), at, "tolerances");
    sym_assert_eq(f.rtol(), rt, "tolerances");
    return e;
}
extern "C" void err_rms() {
    double at, rt, s = 0;
    auto e = est<ode::RMS<DT>>(at, rt);
    V v = vecs(2);
    for (int i = 0; i < 2; i++) { double q = (v.b[i] - v.c[i]) / (at + rt * mx(ab(v.a[i]), ab(v.b[i]))); s += q * q; }
    double r = e.error(v.a, v.b, v.c);
    sym_assert(r >= 0, "not-negative");
    sym_assert_eq(r * r * 2, s, "root-mean-square-of-scaled-differences");
}
extern "C" void err_worst() {
    double at, rt, d = 0;
    auto e = est<ode::WorstOffender<DT>>(at, rt);
    V v = vecs(2);
    for (int i = 0; i < 2; i++) d = mx(d, ab(v.b[i]) / (at + rt * ab(v.a[i])));
    sym_assert_eq(e.error(v.a, v.b), d, "largest-scaled-difference-2");
}
extern "C" void err_worst3() {
    double at, rt;
    auto e = est<ode::WorstOffender<DT>>(at, rt);
    V v = vecs(2);
    int w = sym_choose("plain-entry", 2);     // one entry fully symbolic, the other with a positive value and deviation only
    v.a[w] = 0;
    sym_assume(v.b[w] > 0);
    v.c[w] = v.b[w] + sym_pos("d", 0.1, 1);
    double r = e.error(v.a, v.b, v.c), q[2];
    for (int i = 0; i < 2; i++) {
        double s = at + rt * mx(ab(v.a[i]), ab(v.b[i])), d = ab(v.b[i] - v.c[i]);
        q[i] = r * s - d;
        sym_assert(q[i] >= 0, "no-entry-exceeds-the-error");
    }
    sym_assert_eq(q[0] * q[1], 0, "attained-by-one-entry");
}
extern "C" void err_ratio() {
    double at, rt, s = 0, d = 0, sc = 0;
    auto e = est<ode::MaxRatioError<DT>>(at, rt);
    V v = vecs(2);
    for (int i = 0; i < 2; i++) {
        sc = mx(sc, at + rt * ab(v.a[i]));
        s = mx(s, ab(v.b[i] - v.c[i]));
        d = mx(d, ab(v.b[i]));
    }
    sym_assert_eq(e.error(v.a, v.b, v.c), s / sc, "largest-difference-over-largest-scale");
    sym_assert_eq(e.error(v.a, v.b), d / sc, "largest-difference-over-largest-scale-2");
}
extern "C" void err_zero() {   // entries that are and stay exactly zero never count, also without an absolute tolerance
    V v = vecs(1);
    sym_assume(v.a[0] != 0);
    double rt = sym_pos("rtol", 0.1, 2);
    int at = sym_choose("where", 2);
    std::vector<double> a{0, 0}, b{0, 0}, c{0, 0};
    a[at] = v.a[0], b[at] = v.b[0], c[at] = v.c[0];
    double s = ab(v.b[0] - v.c[0]) / (rt * mx(ab(v.a[0]), ab(v.b[0])));
    ode::WorstOffender<DT> w(0, rt);
    ode::RMS<DT> r(0, rt);
    ode::MaxRatioError<DT> m(0, rt);
    double x = r.error(a, b, c);
    sym_assert_eq(x * x * 2, s * s, "rms-skips-zero-entries");
    sym_assert_eq(w.error(a, b, c), s, "worst-skips-zero-entries");
    sym_assert_eq(m.error(a, b, c), ab(v.b[0] - v.c[0]) / (rt * ab(v.a[0])), "ratio-skips-zero-entries");
}
