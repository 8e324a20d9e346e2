// P23: random draws and scattering set-up. The distributions of the standard library are stand-ins: any value of their range
#include <random>
#include "sym.h"
#include <string>
static int nDraw, nNormal;
static double lastLo, lastHi, lastQ, qs[8], normals[8], means[8], sigmas[8];
namespace std {
struct sym_device { unsigned operator()() { return 1; } };
struct sym_mt {
    explicit sym_mt(unsigned = 1) {}
    unsigned operator()() { return 0; }
};
template <typename T = double> struct sym_uniform {
    double a, b;
    sym_uniform(double l = 0, double h = 1) : a(l), b(h) { sym_assert(l <= h, "uniform-limits-ordered"); }
    template <typename G> double operator()(G&) {
        if (nDraw >= 6) sym_end();   // bound on the number of draws
        double q = sym_real(("q" + std::to_string(nDraw++)).c_str(), 0, 1);   // quantile
        sym_assume((int)(q >= 0) & (int)(q < 1));
        lastLo = a, lastHi = b, lastQ = qs[nDraw - 1] = q;
        return a + (b - a) * q;
    }
};
template <typename T = double> struct sym_normal {
    double m, s;
    sym_normal(double mean = 0, double sigma = 1) : m(mean), s(sigma) {}
    template <typename G> double operator()(G&) {
        if (nNormal >= 6) sym_end();   // bound on the number of draws
        double z = sym_real(("z" + std::to_string(nNormal)).c_str(), -2, 2);
        normals[nNormal] = z, means[nNormal] = m, sigmas[nNormal] = s, nNormal++;
        return m + s * z;
    }
};
}
#define random_device sym_device
#define mt19937 sym_mt
#define uniform_real_distribution sym_uniform
#define normal_distribution sym_normal
#include "common.h"
using namespace hub::random;
static void start() { nDraw = nNormal = 0; }
extern "C" void draw_uniform() {
    start();
    double a = sym_real("a", -3, 3), d = sym_pos("d", 0.1, 3), x = Uniform(a, a + d);
    sym_assert_eq(x, a + d * lastQ, "uniform");
    sym_assert((int)(nDraw == 1) & (int)(x >= a) & (int)(x < a + d), "uniform-range");
    sym_assert(Fixed(a) == a, "fixed");
}
extern "C" void draw_log() {   // 10^u, u uniform between the logarithms: x = low (high/low)^q
    start();
    double a = sym_pos("a", 0.1, 2), k = sym_pos("k", 1.1, 9);
    sym_assume(k > 1);
    double x = Logarithm(a, a * k);
    sym_assert_eq(std::log(x), std::log(a) + std::log(k) * lastQ, "logarithm-uniform");
    sym_assert((int)(nDraw == 1) & (int)(x > 0), "logarithm");
}
static void power(double p, double beta) {   // quantile q: (x^beta - low^beta) / (high^beta - low^beta) = q or 1 - q
    start();
    double a = sym_pos("a", 0.3, 1), k = sym_pos("k", 1.1, 4), b = a * k;
    sym_assume(k > 1);
    double x = PowerLaw(p, a, b);
    double A = std::pow(a, beta), B = std::pow(b, beta), X = std::pow(x, beta);
    double q = beta > 0 ? lastQ : 1 - lastQ;
    sym_assert((int)(nDraw == 1) & (int)(x > 0), "power-law");
    sym_assert(beta > 0 ? (int)(X >= A) & (int)(X <= B) : (int)(X <= A) & (int)(X >= B), "power-law-range");
    (void)q;
    double w = X - A, d = (B - A) * lastQ, d2 = (B - A) * (1 - lastQ);
    sym_assert((int)(w == d) | (int)(w == d2), "power-law-quantile");
}
extern "C" void draw_power2() { power(2, 3); }
extern "C" void draw_power0() { power(0, 1); }
extern "C" void draw_powerm2() { power(-2, -1); }
extern "C" void draw_powerm3() { power(-3, -2); }
extern "C" void draw_powerm1() {   // logarithmic
    start();
    double a = sym_pos("a", 0.1, 2), k = sym_pos("k", 1.1, 9);
    sym_assume(k > 1);
    double x = PowerLaw(-1.0, a, a * k);
    sym_assert_eq(std::log(x), std::log(a) + std::log(k) * lastQ, "power-law-minus-one");
}
extern "C" void draw_normal() {
    start();
    double m = sym_real("m", -2, 2), s = sym_pos("s", 0.1, 3);
    sym_assert_eq(Normal(m, s), m + s * normals[0], "normal");
    double d = Normal();
    sym_assert_eq(d, normals[1], "standard-normal");
    sym_assert(nNormal == 2, "one-draw-each");
}
extern "C" void draw_trunc() {   // the first draw within the limits
    start();
    double m = sym_real("m", -2, 2), s = sym_pos("s", 0.1, 3), lo = sym_real("lo", -2, 0), hi = sym_real("hi", 0, 2);
    sym_assume(lo < hi);
    double x = TruncatedNormal(lo, hi, m, s);
    sym_assert((int)(x >= lo) & (int)(x <= hi), "truncated-range");
    sym_assert_eq(x, m + s * normals[nNormal - 1], "truncated-is-a-draw");
    for (int i = 0; i + 1 < nNormal; i++) {
        double y = m + s * normals[i];
        sym_assert((int)(y < lo) | (int)(y > hi), "only-outside-rejected");
    }
}
extern "C" void draw_maxwell() {
    start();
    double s = sym_pos("s", 0.1, 3), x = Maxwellian(s);
    sym_assert(nNormal == 3, "three-components");
    sym_assert_eq(x * x, s * s * (normals[0] * normals[0] + normals[1] * normals[1] + normals[2] * normals[2]), "maxwellian");
    sym_assert(x >= 0, "maxwellian");
}
extern "C" void draw_tmaxwell() {
    start();
    double s = sym_pos("s", 0.1, 3), lo = sym_pos("lo", 0.1, 1), hi = sym_pos("hi", 1, 3), x = TruncatedMaxwellian(lo, hi, s);
    sym_assert((int)(x >= lo) & (int)(x <= hi), "truncated-maxwellian");
    int n = nNormal - 3;
    sym_assert_eq(x * x, s * s * (normals[n] * normals[n] + normals[n + 1] * normals[n + 1] + normals[n + 2] * normals[n + 2]), "truncated-maxwellian");
    if (n) {
        double y2 = s * s * (normals[0] * normals[0] + normals[1] * normals[1] + normals[2] * normals[2]);
        sym_assert((int)(y2 < lo * lo) | (int)(y2 > hi * hi), "only-outside-rejected");
    }
}
extern "C" void draw_polar() {   // Marsaglia's polar method on a point of the ring
    start();
    double r0 = sym_pos("r0", 0.1, 0.5);
    auto [x, y] = Normal2(r0);
    double u = 2 * qs[nDraw - 2] - 1, v = 2 * qs[nDraw - 1] - 1, w = u * u + v * v;
    sym_assert((int)(w < 1) & (int)(w > r0 * r0), "point-of-the-ring");
    sym_assert_eq((x * x + y * y), -2 * std::log(w), "polar-radius");
    sym_assert((int)(x * v == y * u) & (int)(x * u >= 0) & (int)(y * v >= 0), "polar-direction");
}
static int nCall;
static double drawn[4];
static double source(double a) {
    if (nCall >= 4) sym_end();
    drawn[nCall] = sym_real(nm("d", nCall).c_str(), -3, 3);
    sym_assume((int)(drawn[nCall] > -1e100) & (int)(drawn[nCall] < 1e100));
    return a * drawn[nCall++];
}
template <int M> static void param() {
    nCall = 0;
    double a = sym_pos("a", 0.5, 2), lo = sym_real("lo", -2, 0), hi = sym_real("hi", 0, 2);
    sym_assume((int)(lo < hi) & (int)(a < 2));
    Parameter p(source, a);
    if (M == 1) p.set_min(lo);
    if (M == 2) p.set_max(hi);
    if (M == 3) p.set_boundary(lo, hi);
    double x = p.draw();
    sym_assert_eq(x, a * drawn[nCall - 1], "parameter-is-a-draw");
    if (M & 1) sym_assert(x >= lo, "parameter-minimum");
    if (M & 2) sym_assert(x <= hi, "parameter-maximum");
    for (int i = 0; i + 1 < nCall; i++) {
        double y = a * drawn[i];
        sym_assert((M & 1 ? (int)(y < lo) : 0) | (M & 2 ? (int)(y > hi) : 0), "only-outside-redrawn");
    }
}
extern "C" void param_free() { param<0>(); }
extern "C" void param_min() { param<1>(); }
extern "C" void param_max() { param<2>(); }
extern "C" void param_both() { param<3>(); }
// scattering
using namespace hub::scattering;
extern "C" void critical() {   // total energy of the encounter is zero at the critical velocity
    double m1 = sym_pos("m1", 0.1, 3), m2 = sym_pos("m2", 0.1, 3), E1 = -sym_pos("E1", 0.1, 2), E2 = -sym_pos("E2", 0.1, 2);
    double v = critical_vel(m1, m2, E1, E2);
    sym_assert(v >= 0, "critical-velocity");
    sym_assert_eq(v * v * m1 * m2 / (m1 + m2) / 2 + E1 + E2, 0, "critical-velocity");
    // two equal bodies at rest a distance d apart, and a point
    double d = sym_pos("d", 0.3, 2), x = sym_real("x", -2, 2);
    std::vector<Pt> c{Pt(m1, V3(x, 0, 0), V3(1, x, 2)), Pt(m1, V3(x, d, 0), V3(1, x, 2))};
    Pt b(m2, symV("p"), symV("v"));
    double w = critical_vel(c, b);
    sym_assert_eq(w * w * (2 * m1 * m2) / (2 * m1 + m2) / 2, m1 * m1 / d, "critical-velocity-of-clusters");
}
static double peri(double u, double v, double b) { double k = b * v * v / u; return u / (v * v) * (std::sqrt(1 + k * k) - 1); }
extern "C" void impact() {   // an encounter with the largest impact parameter has the given periapsis
    double u = sym_pos("u", 0.3, 3), v = sym_pos("v", 0.3, 2), rp = sym_pos("rp", 0.3, 2), b = b_max(u, v, rp), s = rp * v * v / u + 1;
    sym_assert(b > 0, "impact-parameter");
    sym_assert_eq(b * b * v * v * v * v + u * u, s * s * u * u, "impact-parameter");
    double m1 = sym_pos("m1", 0.1, 3), m2 = sym_pos("m2", 0.1, 3), R1 = sym_pos("R1", 0.1, 1), R2 = sym_pos("R2", 0.1, 1), f = sym_pos("f", 0.1, 1);
    double b2 = b_max(m1, m2, R1, R2, v, f);
    sym_assert_eq(b2, b_max(m1 + m2, v, hub::orbit::tidal_radius(f, m1, m2, R1, R2)), "impact-parameter-by-tides");
    sym_assert_eq(hard_radius(m1, m2, u, v) * u * v * v, m1 * m2, "hard-radius");
}
extern "C" void incident() {   // b^2 uniform below b_max^2, incoming from distance r with velocity v at infinity
    start();
    double m1 = sym_pos("m1", 0.1, 3), m2 = sym_pos("m2", 0.1, 3), v = sym_pos("v", 0.3, 2), B = sym_pos("B", 0.3, 3), r = sym_pos("r", 5, 30), u = m1 + m2;
    sym_expect_abort(1);   // starts inside the periapsis or head on: refused
    auto h = incident_orbit(m1, m2, v, B, r);
    sym_expect_abort(0);
    double b2 = h.b * h.b;
    sym_assert((int)(b2 == B * B * qs[0]) | (int)(b2 == B * B * qs[1]), "uniform-over-the-disk");
    double turn = 2 * hub::consts::pi;   // from any side: the other draw turns the encounter by any angle of the full circle
    sym_assert((int)(b2 == B * B * qs[0]) & (int)(h.i == turn * qs[1]) | (int)(b2 == B * B * qs[1]) & (int)(h.i == turn * qs[0]), "uniform-over-the-disk");
    sym_assert_eq(h.p * u, b2 * v * v, "angular-momentum");
    sym_assert_eq((h.e * h.e - 1) * u * u, b2 * v * v * v * v, "velocity-at-infinity");
    sym_assert_eq(r * (1 + h.e * std::cos(h.nu)), h.p, "starting-distance");
    sym_assert((int)(h.nu <= 0) & (int)(h.orbit_type == hub::orbit::OrbitType::Hyperbola), "incoming");
    sym_assert_eq(h.m1, m1, "masses"), sym_assert_eq(h.m2, m2, "masses");
}
// the same for groups of particles, from their masses and sizes
template <typename A, typename B> static void incidentOf(A const& a, B const& b, double M1, double M2, double R1, double R2) {
    start();
    double v = sym_pos("v", 0.3, 2), f = sym_pos("f", 0.001, 0.01), u = M1 + M2;
    double rp = hub::orbit::tidal_radius(0.02, M1, M2, R1, R2), r = hub::orbit::tidal_radius(f, M1, M2, R1, R2);
    double w = b_max(a, b, v, f);
    sym_assert_eq(w, b_max(u, v, r), "impact-parameter-of-clusters");
    sym_expect_abort(1);
    auto h = incident_orbit(a, b, v, f);
    sym_expect_abort(0);
    double b2 = h.b * h.b, B2 = rp * rp + 2 * u * rp / (v * v);
    double q = h.b == std::sqrt(B2 * qs[0]) ? qs[0] : qs[1];
    sym_assert_eq(b2, B2 * q, "uniform-over-the-disk");
    sym_assert_eq(h.p * u, b2 * v * v, "angular-momentum");
    sym_assert_eq((h.e * h.e - 1) * u * u, b2 * v * v * v * v, "velocity-at-infinity");
    sym_assert_eq(r * (1 + h.e * std::cos(h.nu)), h.p, "starting-distance");
    sym_assert((int)(h.nu <= 0) & (int)(h.orbit_type == hub::orbit::OrbitType::Hyperbola), "incoming");
    sym_assert_eq(h.m1, M1, "masses"), sym_assert_eq(h.m2, M2, "masses");
}
static std::vector<Pt> pairOf(const char* t, double m, double d) {
    double x = sym_real((std::string(t) + "x").c_str(), -2, 2);
    return {Pt(m, V3(x, 0, 0), V3(0, 0, 0)), Pt(2 * m, V3(x, d, 0), V3(0, 1, 0))};
}
extern "C" void incident_single() {
    double m = sym_pos("m", 0.1, 3), d = sym_pos("d", 0.5, 2), n = sym_pos("n", 0.1, 3);
    auto a = pairOf("a", m, d);
    Pt b(n, symV("p"), symV("u"));
    double R = hub::orbit::cluster_size(a);
    incidentOf(a, b, 3 * m, n, R, hub::orbit::cluster_size(b));
}
extern "C" void incident_pairs() {
    double m = sym_pos("m", 0.1, 3), d = sym_pos("d", 0.5, 2), n = sym_pos("n", 0.1, 3), c = sym_pos("c", 0.5, 2);
    auto a = pairOf("a", m, d), b = pairOf("b", n, c);
    incidentOf(a, b, 3 * m, 3 * n, hub::orbit::cluster_size(a), hub::orbit::cluster_size(b));
}
