// P12: Gauss-Radau stepping
#include "common.h"
using GR = integrator::GaussRadau<DT>;
using integrator::Radau;
struct Poly {   // state [t, y_1 .. y_n]; dt/ds = 1 and dy_k/ds = w_k(t) + lam * y_k, w_k polynomials of degree 7 about t0
    using Scalar = double;
    int n;
    double t0 = 0, lam = 0, t, y[3], c[3][8];
    template <typename A> void write_to_scalar_array(A& a) const {
        a.resize(n + 1);
        a[0] = t;
        for (int i = 0; i < n; i++) a[i + 1] = y[i];
    }
    template <typename A> void read_from_scalar_array(A const& a) {
        sym_assert((int)a.size() == n + 1, "state-size");
        t = a[0];
        for (int i = 0; i < n; i++) y[i] = a[i + 1];
    }
    template <typename A> void evaluate_general_derivative(A& a) const {
        a.resize(n + 1);
        a[0] = 1;
        for (int i = 0; i < n; i++) {
            double s = 0, x = t - t0;
            for (int k = 7; k >= 0; k--) s = s * x + c[i][k];
            a[i + 1] = s + lam * y[i];
        }
    }
};
static void init(Poly& p, int n, const char* tag = "c") {
    p.n = n;
    p.t = p.t0 = 0;
    for (int i = 0; i < n; i++) {
        p.y[i] = sym_box(nm("y", i).c_str(), -1, 1);
        for (int k = 0; k < 8; k++) p.c[i][k] = sym_box((nm(tag, i) + "_" + std::to_string(k)).c_str(), -1, 1);
    }
}
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return r; }
extern "C" void tables() {   // node polynomials: G <-> B is the change between Newton basis prod (s - h_i) s and powers of s
    double pc[9][10] = {{0}};   // pc[k]: coefficients of s (s-h0) .. (s-h_{k-1})
    pc[0][1] = 1;
    for (int k = 0; k < 7; k++)
        for (int j = 1; j <= 8; j++) {
            pc[k + 1][j + 1] += pc[k][j];
            pc[k + 1][j] -= Radau::h(k) * pc[k][j];
        }
    double x = sym_box("x", -1, 1);
    for (int i = 0; i < 7; i++)
        for (int j = 0; j <= i; j++) {
            sym_assert_close(Radau::g2b(i, j) * x, pc[i][j + 1] * x, 1e-13, "g2b-is-the-node-polynomial");
            sym_assert_close(Radau::est_b(i, j) * x, binom(i + 1, j + 1) * x, 1e-13, "predictor-binomials");
        }
    for (int i = 0; i < 7; i++)     // b2g is the inverse triangle
        for (int j = 0; j <= i; j++) {
            double s = 0;
            for (int k = j; k <= i; k++) s += Radau::b2g(i, k) * Radau::g2b(k, j);
            sym_assert_close(s * x, (i == j) * x, 1e-12, "b2g-inverts-g2b");
        }
    for (int i = 0; i < 8; i++)
        for (int k = 0; k < 8; k++) {
            double p = 1;
            for (int q = 0; q <= k; q++) p *= Radau::h(i);
            sym_assert_close(Radau::dy_tab(i, k) * x, p / (k + 1) * x, 1e-13, "integral-table");
        }
    for (int i = 0; i < 7; i++) {   // h are the Radau nodes: the polynomial prod (s-h_i) is orthogonal to 1..s^6 with weight s
        double s = 0;
        for (int k = 0; k < 9; k++) s += pc[7][k] / (k + i + 1);
        sym_assert_close(s * x, 0, 1e-15, "radau-nodes");
    }
}
extern "C" void transform() {
    GR::IterTable G, B, G2;
    for (int i = 0; i < 7; i++) { G[i].resize(2); B[i].resize(2); G2[i].resize(2); }
    double g[7][2];
    for (int i = 0; i < 7; i++)
        for (int k = 0; k < 2; k++) G[i][k] = g[i][k] = sym_box((nm("g", i) + nm("_", k)).c_str(), -1, 1);
    for (int i = 0; i < 7; i++) for (int k = 0; k < 2; k++) B[i][k] = sym_box((nm("j", i) + nm("_", k)).c_str(), -1, 1);
    Radau::transform_g2b(G, B);
    double s = sym_box("s", 0, 1);
    for (int k = 0; k < 2; k++) {
        double p = 0, q = 0, w = 1, v = 1;
        for (int i = 0; i < 7; i++) {
            q += w * g[i][k];
            w *= s - Radau::h(i);
            p += v * B[i][k];
            v *= s;
        }
        sym_assert_close(p, q, 1e-11, "both-tables-are-the-same-polynomial");
    }
    Radau::transform_b2g(B, G2);
    for (int i = 0; i < 7; i++) for (int k = 0; k < 2; k++) sym_assert_close(G2[i][k], g[i][k], 1e-11, "b2g-inverts-g2b");
}
static void exactIntegral(Poly const& p, Poly const& p0, double h, double tol, const char* l) {
    for (int i = 0; i < p.n; i++) {
        double s = 0, hk = h;
        for (int k = 0; k < 8; k++, hk *= h) s += p0.c[i][k] * hk / (k + 1);
        sym_assert_close(p.y[i], p0.y[i] + s, tol, l);
    }
    sym_assert_close(p.t, p0.t + h, 1e-14, "time-advanced-by-the-step");
}
extern "C" void poly1() {   // any polynomial of degree 7 is integrated exactly in one pass
    Poly p;
    init(p, 2);
    Poly p0 = p;
    GR g;
    double h = sym_box("h", -1, 1);
    g.correct(p, h);
    for (int i = 0; i < 2; i++) sym_assert_eq(p.y[i], p0.y[i], "correct-leaves-the-state");
    sym_assert_eq(p.t, p0.t, "correct-leaves-the-state");
    double hk = 1;
    for (int k = 0; k < 7; k++) {
        hk *= h;
        for (int i = 0; i < 2; i++) sym_assert_close(g.b()[k][i + 1], p0.c[i][k + 1] * hk, 1e-8, "b-are-the-taylor-coefficients");
        sym_assert_close(g.b()[k][0], 0, 1e-8, "b-are-the-taylor-coefficients");
    }
    for (int i = 0; i < 2; i++) {
        sym_assert_close(g.diff_b6()[i + 1], p0.c[i][7] * hk, 1e-8, "last-change-of-b6");
        double f = 0;
        for (int k = 7; k >= 0; k--) f = f * (h * Radau::h(6)) + p0.c[i][k];
        sym_assert_close(g.dy_h()[i + 1], f, 1e-10, "last-derivative");
        sym_assert_close(g.dy_0()[i + 1], p0.c[i][0], 1e-14, "initial-derivative");
    }
    g.evaluate(p, h);
    exactIntegral(p, p0, h, 1e-8, "integral-of-the-polynomial");
}
extern "C" void stages() {
    Poly p;
    init(p, 1);
    Poly p0 = p;
    GR g;
    g.correct(p, 1.0);
    for (int s = 0; s < 8; s++) {
        g.integrate_to(p, 1.0, s);
        exactIntegral(p, p0, Radau::h(s), 1e-9, "state-at-the-stage");
    }
}
// coefficients of the polynomial sum_k b_k s^(k+1), k = 0..6, seen from s = 1 in units of q: value added to power i+1
static double extra(double const* b, int i, double q) {
    double s = 0, qi = 1;
    for (int j = i; j < 7; j++) s += binom(j + 1, i + 1) * b[j];
    for (int k = 0; k <= i; k++) qi *= q;
    return s * qi;
}
extern "C" void predict1() {   // any step ratio
    Poly p;
    init(p, 1);
    GR g;
    double q = sym_box("q", 0, 2), b1[7];
    g.correct(p, 1.0);
    for (int k = 0; k < 7; k++) b1[k] = g.b()[k][1];
    g.predict(q);
    for (int k = 0; k < 7; k++) sym_assert_close(g.b()[k][1], extra(b1, k, q) + b1[k], 1e-7, "first-prediction");
}
static void predictor(double q1, double q2, bool single = false) {   // two different polynomials in succession
    Poly p;
    init(p, 1);
    if (single) {
        int j = sym_choose("power", 7);
        for (int k = 0; k < 8; k++) if (k != j + 1) p.c[0][k] = 0;
    }
    GR g;
    g.correct(p, 1.0);
    g.evaluate(p, 1.0);
    double b1[7], e1[7], b2[7];
    for (int k = 0; k < 7; k++) b1[k] = p.c[0][k + 1];
    g.predict(q1);
    for (int k = 0; k < 7; k++) {
        e1[k] = extra(b1, k, q1);
        sym_assert_close(g.b()[k][1], e1[k] + b1[k], 1e-5, "first-prediction");
    }
    Poly r;
    init(r, 1, "d");
    p.t0 = p.t;
    for (int k = 0; k < 8; k++) p.c[0][k] = single ? r.c[0][1] * (0.125 * k - 0.5) : r.c[0][k];
    g.correct(p, 1.0);
    for (int k = 0; k < 7; k++) {
        b2[k] = p.c[0][k + 1];
        if (!single) sym_assert_close(g.b()[k][1], b2[k], 1e-4, "g-follows-the-prediction");
    }
    g.evaluate(p, 1.0);
    g.predict(q2);
    for (int k = 0; k < 7; k++) sym_assert_close(g.b()[k][1], extra(b2, k, q2) + b2[k] - e1[k], 1e-3, "prediction-adds-the-last-correction");
}
extern "C" void predict2() { predictor(0.75, 1.25); }
extern "C" void predict2b() { predictor(2, 0.5); }
static const double ratios[][2] = {{0.75, 1.25}, {1, 1}};
extern "C" void predict2s() { int k = sym_choose("ratios", 2); predictor(ratios[k][0], ratios[k][1], true); }
extern "C" void predict2c() { predictor(1, 1); }
extern "C" void continued() {   // once the prediction is that of the true polynomial nothing is left to correct
    Poly p;
    init(p, 1);
    GR g;
    double h = 0.75, q = 1.25, t = 0;
    Poly p0 = p;
    for (int n = 0; n < 3; n++) {
        g.correct(p, h);
        if (n == 2) sym_assert_close(g.diff_b6()[1], 0, 1e-3, "exact-prediction-needs-no-correction");
        g.evaluate(p, h);
        t += h;
        exactIntegral(p, p0, t, 1e-3, "integral-after-prediction");
        g.predict(q);
        h *= q;
    }
}
extern "C" void whole() {
    Poly p;
    init(p, 2);
    Poly p0 = p;
    GR g;
    double h = sym_box("h", -1, 1);
    g.integrate(p, h);
    exactIntegral(p, p0, h, 1e-8, "one-step");
    double b1[7], hk = 1;
    for (int k = 0; k < 7; k++) { hk *= h; b1[k] = p0.c[1][k + 1] * hk; }
    for (int k = 0; k < 7; k++) sym_assert_close(g.b()[k][2], extra(b1, k, 1) + b1[k], 1e-5, "predicts-an-equal-step");
}
extern "C" void resized() {   // another number of variables starts afresh
    Poly p, r;
    init(p, 2);
    init(r, 1, "d");
    GR g;
    g.integrate(p, 1.0);
    Poly r0 = r;
    g.correct(r, 1.0);
    for (int k = 0; k < 7; k++) sym_assert_close(g.b()[k][1], r0.c[0][k + 1], 1e-8, "new-size-starts-afresh");
    g.evaluate(r, 1.0);
    exactIntegral(r, r0, 1.0, 1e-8, "one-step");
}
extern "C" void linear() {   // implicit system y' = lam y: iterating the corrector reaches the exponential to its order
    Poly p;
    p.n = 1;
    p.t = p.t0 = 0;
    p.y[0] = sym_box("y", -1, 1);
    for (int k = 0; k < 8; k++) p.c[0][k] = 0;
    p.lam = sym_box("lam", -0.25, 0.25);
    double y0 = p.y[0], s = 0, f = y0;
    GR g;
    for (int k = 0; k < 9; k++) g.correct(p, 1.0);
    g.evaluate(p, 1.0);
    for (int k = 1; k < 20; k++) { s += f; f *= p.lam / k; }
    sym_assert_close(p.y[0], s, 1e-9, "converges-to-the-exponential");
}
