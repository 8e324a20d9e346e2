// P32: units, stellar radii and secular time scales.
#include "common.h"
#include "/repo/src/secular.hpp"
struct EllipticPair { double m1, m2, a, e; };
// time scale of eccentric Kozai-Lidov oscillations, quadrupole order (G = 1)
static double elk(double m1, double m2, double m3, double a1, double a2, double e2) {
    double m = m1 + m2, s = std::sqrt(1 - e2 * e2), P = 2 * consts::pi * std::sqrt(a1 * a1 * a1 / m);       // Kepler's third law
    return P * m / m3 * (a2 * s) * (a2 * s) * (a2 * s) / (a1 * a1 * a1);
}
extern "C" void elk_numbers() {
    double m1 = sym_pos("m1", .1, 3), m2 = sym_pos("m2", .1, 3), m3 = sym_pos("m3", .1, 3), a1 = sym_pos("a1", .5, 2), a2 = sym_pos("a2", 3, 9), e2 = sym_box("e2", 0, .9);
    sym_assert_eq(secular::ELK_quad_timescale<double>(m1, m2, m3, a1, a2, e2), elk(m1, m2, m3, a1, a2, e2), "time scale");
    sym_end();
}
extern "C" void elk_orbits() {
    double m1 = sym_pos("m1", .1, 3), m2 = sym_pos("m2", .1, 3), m3 = sym_pos("m3", .1, 3), a1 = sym_pos("a1", .5, 2), a2 = sym_pos("a2", 3, 9), e2 = sym_box("e2", 0, .9), e1 = sym_box("e1", 0, .9);
    EllipticPair in{m1, m2, a1, e1}, out{m1 + m2, m3, a2, e2};
    sym_assert_eq(secular::ELK_quad_timescale(in, out), elk(m1, m2, m3, a1, a2, e2), "time scale of orbits");
    sym_end();
}
extern "C" void elk_kepler_orbits() {
    double m1 = sym_pos("m1", .1, 3), m2 = sym_pos("m2", .1, 3), m3 = sym_pos("m3", .1, 3), a1 = sym_pos("a1", .5, 2), a2 = sym_pos("a2", 3, 9);
    orbit::Elliptic in(m1, m2, a1, 0.25, 0.1, 0.2, 0.3, 0.4), out(m1 + m2, m3, a2, 0.5, 0.5, 0.6, 0.7, 0.8);
    sym_assert_eq(secular::ELK_quad_timescale(in, out), elk(m1, m2, m3, a1, a2, 0.5), "time scale of orbits");
    sym_end();
}
// the time scale is a time: it follows from the units of mass and length
extern "C" void elk_scaling() {
    double m1 = sym_pos("m1", .1, 3), m2 = sym_pos("m2", .1, 3), m3 = sym_pos("m3", .1, 3), a1 = sym_pos("a1", .5, 2), a2 = sym_pos("a2", 3, 9), e2 = sym_box("e2", 0, .9), k = sym_pos("k", .5, 2), l = sym_pos("l", .5, 2);
    double t = secular::ELK_quad_timescale<double>(m1, m2, m3, a1, a2, e2);
    double T = secular::ELK_quad_timescale<double>(k * k * m1, k * k * m2, k * k * m3, l * l * a1, l * l * a2, e2);
    sym_assert_eq(T * k, t * l * l * l, "scaling of units");
    sym_end();
}
// ---- units: independent figures (km, s, kg), mass unit: solar mass, length unit: AU, G = 1
static const double AU = 149597870.7, YR = 365.25636042 * 86400, TU = YR / (2 * consts::pi), MS = 1.98847e30, KMS = TU / AU, C = 299792.458 * KMS, RS = 6.957e5 / AU;
extern "C" void radius_bh() {
    double m = sym_pos("m", .1, 3), r = stellar::stellar_radius(stellar::StarType::BH, m);
    sym_assert_eq(r, 2 * m / (C * C), "black hole: Schwarzschild radius");
    sym_end();
}
extern "C" void radius_ns() {
    double m = sym_pos("m", .1, 3), r = stellar::stellar_radius(stellar::StarType::NS, m);
    sym_assert_eq(r + 0 * m, 10 / AU, "neutron star: 10 km");
    sym_end();
}
extern "C" void radius_star() {
    double m = sym_pos("m", .1, 3), r = stellar::stellar_radius(stellar::StarType::STAR, m);
    sym_assert(r > 0, "star: radius is positive");
    r = r / RS;
    sym_assert_eq(r * r * r * r, m * m * m, "star: Rs (m/Ms)^(3/4)");
    sym_end();
}
extern "C" void radius_wd() {
    double m = sym_pos("m", .1, 3), r = stellar::stellar_radius(stellar::StarType::WD, m);
    r = r / (0.01 * RS);
    sym_assert_eq(r * r * r * m, 1, "white dwarf: 0.01 Rs (Ms/m)^(1/3)");
    sym_end();
}
template <typename A, typename B> static void lit(A whole, B decimal, double u, double expect, const char* l) {
    double x = sym_pos(l, .5, 2);
    sym_assert_eq(x * u, x * expect, l);
    sym_assert_eq((double)decimal(x), x * expect, l);
    for (unsigned long long n : {0ull, 1ull, 7ull, 123456789ull}) sym_assert_eq(x * whole(n), x * n * expect, l);
}
#define U(NAME, E) lit([](unsigned long long x) { return unit::operator"" _##NAME(x); }, [](long double x) { return unit::operator"" _##NAME(x); }, unit::NAME, E, #NAME)
extern "C" void units_length() {
    U(AU, 1); U(km, 1 / AU); U(m, 1e-3 / AU); U(cm, 1e-5 / AU); U(Rs, RS); U(Re, 6378 / AU); U(Rj, 69911 / AU);
    U(PC, 648000 / consts::pi);
    sym_end();
}
extern "C" void units_time() {
    U(year, 2 * consts::pi); U(kyr, 2e3 * consts::pi); U(Myr, 2e6 * consts::pi); U(Gyr, 2e9 * consts::pi); U(month, consts::pi / 6);
    U(day, 86400 / TU); U(hr, 3600 / TU); U(min, 60 / TU); U(sec, 1 / TU); U(T_hubble, 13.7 * 2e9 * consts::pi);
    sym_end();
}
extern "C" void units_mass() {
    U(Ms, 1); U(kg, 1 / MS); U(mp, 1.67262192e-27 / MS); U(Me, 3.003e-6); U(Mj, 317.8 * 3.003e-6); U(Mmoon, 0.0123 * 3.003e-6);
    sym_end();
}
extern "C" void units_other() {
    U(kms, KMS); U(cms, 1e-5 * KMS); U(deg, consts::pi / 180);
    double x = sym_pos("x", .5, 2);
    sym_assert_eq(x * consts::G, x, "G");
    sym_assert_eq(x * consts::C, x * C, "speed of light");
    double J = KMS * KMS * 1e-6 / MS;                                   // kg m^2 s^-2
    sym_assert_eq(x * consts::kB, x * 1.38064852e-23 * J, "Boltzmann constant");
    sym_assert_eq(x * consts::kB_on_mp, x * 1.38064852e-23 / 1.67262192e-27 * (KMS * KMS * 1e-6), "Boltzmann constant per proton mass");
    sym_end();
}
