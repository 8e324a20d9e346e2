// P11: symplectic composition methods.
#include "common.h"
struct Rec {   // records the sequence of drifts and kicks
    using Scalar = double;
    std::vector<int> kind;
    std::vector<double> c;
    void add(int k, double h) {   // neighbouring substeps of one kind are one substep
        if (!kind.empty() && kind.back() == k) { c.back() += h; return; }
        kind.push_back(k);
        c.push_back(h);
    }
    void drift(double h) { add(0, h); }
    void kick(double h) { add(1, h); }
};
constexpr int MAXO = 10;
struct Jet {   // one degree of freedom, force k1 x + k2 x^2 + k3 x^3; the state is a power series in the step truncated after h^ord
    using Scalar = double;
    int ord;
    double x[MAXO + 2], v[MAXO + 2], k1, k2, k3;
    void force(double const* q, double* a, int n) const {
        double s[MAXO + 2];
        for (int i = 0; i < n; i++) {
            s[i] = 0;
            for (int j = 0; j <= i; j++) s[i] += q[j] * q[i - j];
        }
        for (int i = 0; i < n; i++) {
            a[i] = k1 * q[i] + k2 * s[i];
            for (int j = 0; j <= i; j++) a[i] += k3 * s[j] * q[i - j];
        }
    }
    void drift(double c) { for (int i = ord; i > 0; i--) x[i] += c * v[i - 1]; }
    void kick(double c) {
        double a[MAXO + 2];
        force(x, a, ord);
        for (int i = ord; i > 0; i--) v[i] += c * a[i - 1];
    }
    void exact() {   // Taylor series of the true solution
        double a[MAXO + 2];
        for (int i = 0; i < ord; i++) {
            force(x, a, i + 1);
            x[i + 1] = v[i] / (i + 1);
            v[i + 1] = a[i] / (i + 1);
        }
    }
};
template <typename I>
static void sequence(bool kdk) {
    I integ;
    Rec one, r;
    double h = sym_real("h", -2, 2);
    integ.integrate(one, 1.0);
    integ.integrate(r, h);
    size_t n = one.c.size();
    sym_assert(r.c.size() == n && n >= 3, "same-sequence-for-every-step");
    double D = 0, K = 0, d = 0, k = 0;
    for (size_t i = 0; i < n; i++) {
        sym_assert(one.kind[i] == r.kind[i], "same-sequence-for-every-step");
        sym_assert_eq(r.c[i], one.c[i] * h, "substep-proportional-to-step");
        sym_assert(one.kind[i] == one.kind[n - 1 - i], "time-symmetric");
        sym_assert_eq(r.c[i], r.c[n - 1 - i], "time-symmetric");
        (one.kind[i] ? K : D) += one.c[i];
    }
    sym_assert(one.kind[0] == (kdk ? 1 : 0), "starts-with");
    double b = sym_box("hb", -1, 1);
    sym_assert_close(D * b, b, 1e-13, "drifts-add-up-to-the-step");
    sym_assert_close(K * b, b, 1e-13, "kicks-add-up-to-the-step");
}
template <typename I>
static void order(int ord, double tol, bool k2 = true, bool k3 = true) {
    I integ;
    Jet s, e;
    s.ord = ord;
    for (int i = 0; i <= ord; i++) s.x[i] = s.v[i] = 0;
    s.x[0] = sym_box("x", -1, 1);
    s.v[0] = sym_box("v", -1, 1);
    s.k1 = sym_box("k1", -1, 1);
    s.k2 = k2 ? sym_box("k2", -1, 1) : 0;
    s.k3 = k3 ? sym_box("k3", -1, 1) : 0;
    e = s;
    integ.integrate(s, 1.0);
    e.exact();
    for (int i = 0; i <= ord; i++) {
        sym_assert_close(s.x[i], e.x[i], tol, "series-of-position");
        sym_assert_close(s.v[i], e.v[i], tol, "series-of-velocity");
    }
    sym_assert((int)I::order == ord, "advertised-order");
}
using namespace integrator;
extern "C" void seq2() { sequence<Symplectic2nd<DT>>(false); }
extern "C" void seqdkd() { sequence<LeapFrogDKD<DT>>(false); }
extern "C" void seqkdk() { sequence<LeapFrogKDK<DT>>(true); }
extern "C" void seq4() { sequence<Symplectic4th<DT>>(false); }
extern "C" void seq6() { sequence<Symplectic6th<DT>>(false); }
extern "C" void seq8() { sequence<Symplectic8th<DT>>(false); }
extern "C" void seq10() { sequence<Symplectic10th<DT>>(false); }
extern "C" void ord2() { order<Symplectic2nd<DT>>(2, 1e-13); }
extern "C" void ordkdk() { order<LeapFrogKDK<DT>>(2, 1e-13); }
extern "C" void ord4() { order<Symplectic4th<DT>>(4, 1e-12); }
extern "C" void ord6() { order<Symplectic6th<DT>>(6, 1e-11); }
extern "C" void ord8() { order<Symplectic8th<DT>>(8, 1e-6); }
extern "C" void ord10() { order<Symplectic10th<DT>>(10, 1e-9, true, false); }
extern "C" void ord10l() { order<Symplectic10th<DT>>(10, 1e-9, false, false); }
extern "C" void ord10c() { order<Symplectic10th<DT>>(10, 1e-6); }
// reversibility and exact conservation laws on the real systems
template <typename I>
static void reverse(size_t n) {   // an arbitrary position-dependent force (quadratic), real plain system
    struct Q {};
    auto ps = symParticles(n);
    system::SimpleSystem<PP, force::Interactions<force::NewtonianGrav>> s(0, ps);
    I integ;
    double h = sym_real("h", -1, 1);
    V3 L0 = calc::calc_total_angular_momentum(s), P0(0, 0, 0);
    for (size_t i = 0; i < n; i++) { P0.x += s.mass(i) * s.vel(i).x; P0.y += s.mass(i) * s.vel(i).y; P0.z += s.mass(i) * s.vel(i).z; }
    double t0 = s.time();
    integ.integrate(s, h);
    sym_assert_eq(s.time(), t0 + h, "time-advanced-by-the-step");
    V3 L = calc::calc_total_angular_momentum(s), P(0, 0, 0);
    for (size_t i = 0; i < n; i++) { P.x += s.mass(i) * s.vel(i).x; P.y += s.mass(i) * s.vel(i).y; P.z += s.mass(i) * s.vel(i).z; }
    eqV(P, P0, "momentum-conserved");
    eqV(L, L0, "angular-momentum-conserved");
    integ.integrate(s, -h);
    for (size_t i = 0; i < n; i++) { eqV(s.pos(i), ps[i].pos, "step-back-returns"); eqV(s.vel(i), ps[i].vel, "step-back-returns"); }
    sym_assert_eq(s.time(), t0, "step-back-returns");
}
extern "C" void real2dkd() { reverse<Symplectic2nd<DT>>(2); }
extern "C" void real3dkd() { reverse<Symplectic2nd<DT>>(3); }
