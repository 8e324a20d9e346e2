// P20: Kepler elements <-> coordinates; P21: anomalies, Kepler's equation, times
#include "common.h"
using namespace hub::orbit;
// a real number whose machine epsilon is coarse (1/4), and for which sine and hyperbolic sine are stand-ins that know only:
//   |e sin a - e sin b| < |a - b|  (e < 1), e sinh a - e sinh b beyond a - b, |asinh y| >= |E| if |y| >= |sinh E|
struct Coarse {
    double v;
    Coarse(double x = 0) : v(x) {}
    Coarse& operator+=(Coarse o) { v += o.v; return *this; }
    Coarse& operator-=(Coarse o) { v -= o.v; return *this; }
    Coarse& operator*=(Coarse o) { v *= o.v; return *this; }
    Coarse& operator/=(Coarse o) { v /= o.v; return *this; }
    Coarse operator-() const { return -v; }
    friend Coarse operator+(Coarse a, Coarse b) { return a.v + b.v; }
    friend Coarse operator-(Coarse a, Coarse b) { return a.v - b.v; }
    friend Coarse operator*(Coarse a, Coarse b) { return a.v * b.v; }
    friend Coarse operator/(Coarse a, Coarse b) { return a.v / b.v; }
    friend bool operator<(Coarse a, Coarse b) { return a.v < b.v; }
    friend bool operator>(Coarse a, Coarse b) { return a.v > b.v; }
    friend bool operator<=(Coarse a, Coarse b) { return a.v <= b.v; }
    friend bool operator>=(Coarse a, Coarse b) { return a.v >= b.v; }
    friend bool operator==(Coarse a, Coarse b) { return a.v == b.v; }
    friend bool operator!=(Coarse a, Coarse b) { return a.v != b.v; }
};
static const double EPS = 0.25;
namespace hub::math {
    template <> struct epsilon<Coarse> { using value_type = double; static constexpr double value = 0.25; };
}
static double rootE, rootS, rootEc;   // the true root, the (hyperbolic) sine there, the eccentricity
static int nS;
static Coarse fabs(Coarse a) { return std::fabs(a.v); }
static Coarse abs(Coarse a) { return std::fabs(a.v); }
static Coarse max(Coarse a, Coarse b) { return a.v < b.v ? b : a; }
static Coarse sin(Coarse x) {
    double g = sym_real(nm("g", nS++).c_str(), -1, 1), d = x.v - rootE;
    sym_assume((int)(d > 0) & (int)(g < d) & (int)(g > -d) | (int)(d < 0) & (int)(g > d) & (int)(g < -d) | (int)(d == 0) & (int)(g == 0));
    return rootS + g / rootEc;
}
static Coarse sinh(Coarse x) {
    double g = sym_real(nm("g", nS++).c_str(), -9, 9), d = x.v - rootE;
    sym_assume((int)(d > 0) & (int)(g > d) | (int)(d < 0) & (int)(g < d) | (int)(d == 0) & (int)(g == 0));
    return rootS + g / rootEc;
}
static Coarse asinh(Coarse y) {
    double A = sym_real(nm("A", nS++).c_str(), -5, 5), ay = std::fabs(y.v), as = std::fabs(rootS);
    sym_assume((int)(ay < as) | (int)(A >= std::fabs(rootE)));
    sym_assume((int)(std::fabs(A) <= ay) & ((int)(std::fabs(A) < 5) | (int)(ay > 64)));
    sym_assume((int)(y.v > 0) & (int)(A > 0) | (int)(y.v < 0) & (int)(A < 0) | (int)(y.v == 0) & (int)(A == 0));
    return A;
}
static double ang(const char* n) { return sym_real(n, -3, 3); }
static const double PI = consts::pi;
struct El { double m1, m2, p, e, i, O, w, nu; };
static El elems(int type) {   // 0 ellipse, 1 hyperbola, 2 parabola, 3 circle
    El k;
    k.m1 = sym_pos("m1", 0.1, 3), k.m2 = sym_pos("m2", 0.1, 3), k.p = sym_pos("p", 0.3, 3);
    if (type == 0) { k.e = sym_pos("e", 0.05, 0.95); sym_assume(k.e < 1); }
    if (type == 1) k.e = 1 + sym_pos("e1", 0.05, 2);
    if (type == 2) k.e = 1;
    if (type == 3) k.e = 0;
    k.i = sym_real("i", 0.1, 3), k.O = ang("Omega"), k.w = ang("omega"), k.nu = ang("nu");
    sym_assume(1 + k.e * std::cos(k.nu) > 0);
    return k;
}
static Kepler make(El const& k) { return Kepler(k.m1, k.m2, k.p, k.e, k.i, k.O, k.w, k.nu); }
// the geometry of the orbit in space: everything a conic section in the plane given by the angles has to satisfy
static void geometry(El const& k, V3 const& r, V3 const& v, double s) {   // s = -1: (r, v) is secondary minus primary, as elements_to_coord returns
    double u = k.m1 + k.m2;
    double ci = std::cos(k.i), si = std::sin(k.i), cO = std::cos(k.O), sO = std::sin(k.O), c = std::cos(k.w + k.nu), d = std::sin(k.w + k.nu), cn = std::cos(k.nu), sn = std::sin(k.nu);
    double R = k.p / (1 + k.e * cn);
    // unit vectors along the radius and the direction of motion
    V3 er(cO * c - sO * d * ci, sO * c + cO * d * ci, d * si), et(-cO * d - sO * c * ci, -sO * d + cO * c * ci, c * si);
    double vr = std::sqrt(u / k.p) * k.e * sn, vt = std::sqrt(u / k.p) * (1 + k.e * cn);
    eqV(r, V3(s * R * er.x, s * R * er.y, s * R * er.z), "place");
    eqV(v, V3(s * (vr * er.x + vt * et.x), s * (vr * er.y + vt * et.y), s * (vr * er.z + vt * et.z)), "velocity");
}
template <int T> static void toCoord() {
    El k = elems(T);
    auto o = make(k);
    sym_assert(o.orbit_type == (T == 0 || T == 3 ? OrbitType::Ellipse : T == 1 ? OrbitType::Hyperbola : OrbitType::Parabola), "orbit-type");
    auto [r, v] = orbit_to_coord<V3>(o);
    geometry(k, r, v, -1);
    V3 r2, v2;
    orbit_to_coord(o, r2, v2);
    eqV(r2, r, "both-forms");
    eqV(v2, v, "both-forms-velocity");
    // integrals of motion
    double u = k.m1 + k.m2, n2 = v.x * v.x + v.y * v.y + v.z * v.z, R = k.p / (1 + k.e * std::cos(k.nu));
    sym_assert_eq(n2 / 2 - u / R, -u * (1 - k.e * k.e) / (2 * k.p), "energy");
    sym_assert_eq(r.x * v.y - r.y * v.x, std::sqrt(u * k.p) * std::cos(k.i), "angular-momentum-along-the-pole");
}
extern "C" void coord_ellipse() { toCoord<0>(); }
extern "C" void coord_hyperbola() { toCoord<1>(); }
extern "C" void coord_parabola() { toCoord<2>(); }
extern "C" void coord_circle() { toCoord<3>(); }
static void sameTrig(double a, double c, double s, const char* l) {
    sym_assert_eq(std::cos(a), c, l);
    sym_assert_eq(std::sin(a), s, l);
}
static Kepler back(double m1, double m2, V3 r, V3 v) {
    if (sym_choose("form", 2)) { Kepler q; coord_to_orbit(m1, m2, r, v, q); return q; }
    return coord_to_orbit(m1, m2, r, v);
}
// coordinates -> elements: a state at distance R, radial and transverse velocity vr and vt, in the plane (i, Omega), at angle theta from the node
enum { GENERAL, CIRCLE, PARABOLA };
template <int T> static void fromCoord(bool incl, bool retro) {
    // v0 = (mass parameter) / (angular momentum): radial velocity v0 e sin(nu), transverse v0 (1 + e cos(nu))
    double R = sym_pos("R", 0.3, 3), v0 = sym_pos("v0", 0.3, 2), X = T == CIRCLE ? 1 : sym_pos("X", 0.3, 3), m1 = sym_pos("m1", 0.1, 3), es = T == CIRCLE ? 0 : sym_real("es", -2, 2);
    double ec = X - 1, vt = v0 * X, vr = v0 * es, u = R * v0 * v0 * X;     // ec = e cos(nu), es = e sin(nu)
    if (T == PARABOLA) { es = sym_real("t", -3, 3), X = 2 / (1 + es * es), ec = X - 1, es = X * es, vt = v0 * X, vr = v0 * es, u = R * v0 * v0 * X; }   // t = tan(nu/2)
    if (T == GENERAL) sym_assume((int)(ec > 0) | (int)(ec < 0) | (int)(es > 0) | (int)(es < 0));
    double e = T == CIRCLE ? 0 : T == PARABOLA ? 1 : std::sqrt(ec * ec + es * es), cn = T == CIRCLE ? 1 : ec / e, sn = T == CIRCLE ? 0 : es / e;
    sym_assume(u > m1);
    double th = ang("theta"), O = 0, ci = retro ? -1 : 1, si = 0, c = std::cos(th), d = std::sin(th);
    if (incl) {
        double i = sym_real("i", 0.1, 3);
        O = ang("Omega");
        ci = std::cos(i), si = std::sin(i);
        sym_assume(si > 0);
    }
    double cO = std::cos(O), sO = std::sin(O);
    V3 er(cO * c - sO * d * ci, sO * c + cO * d * ci, d * si), et(-cO * d - sO * c * ci, -sO * d + cO * c * ci, c * si);
    V3 r(R * er.x, R * er.y, R * er.z), v(vr * er.x + vt * et.x, vr * er.y + vt * et.y, vr * er.z + vt * et.z);
    auto q = back(m1, u - m1, r, v);
    sym_reach("converted");
    sym_assert_eq(q.m1, m1, "mass1");
    sym_assert_eq(q.m2, u - m1, "mass2");
    sym_assert_eq(q.e, e, "eccentricity");
    sym_assert_eq(q.p, R * (1 + ec), "semi-latus-rectum");
    sym_assert(q.orbit_type == classify_orbit(q.e), "orbit-type");
    sym_assert_eq(std::cos(q.i), ci, "inclination");
    sym_assert_eq(std::sin(q.i), si, "inclination");
    if (incl) {
        sym_assert_eq(std::cos(q.Omega), cO, "node");
        sym_assert_eq(std::sin(q.Omega), sO, "node");
    }
    if (T != CIRCLE) {
        sameTrig(q.nu, cn, sn, "true-anomaly");
        if (incl) {
            sym_assert_eq(std::cos(q.omega), c * cn + d * sn, "periapsis");
            sym_assert((int)(q.omega >= 0) & (int)(d * ec - c * es >= 0) | (int)(q.omega <= 0) & (int)(d * ec - c * es <= 0), "periapsis-side");
            sym_assert((int)(q.omega <= PI) & (int)(q.omega >= -PI), "periapsis-range");
        }
    }
    if (!incl) {   // the direction of periapsis (of the body, for circles) in the plane
        double w = q.omega + ci * q.Omega + (T == CIRCLE ? q.nu : 0);
        sym_assert_eq(std::cos(w), c * cn + d * sn, "direction-in-the-plane");
        if (T == CIRCLE) sym_assert_eq(std::sin(w), d, "direction-in-the-plane");
        else {
            sym_assert((int)(w >= 0) & (int)(d * ec - c * es >= 0) | (int)(w <= 0) & (int)(d * ec - c * es <= 0), "side-in-the-plane");
            sym_assert((int)(w <= PI) & (int)(w >= -PI), "direction-range");
        }
    } else if (T == CIRCLE) {
        sameTrig(q.omega + q.nu, c, d, "argument-of-latitude");
    }
}
extern "C" void from_general() { fromCoord<GENERAL>(true, false); }
extern "C" void from_planar() { fromCoord<GENERAL>(false, false); }
extern "C" void from_retrograde() { fromCoord<GENERAL>(false, true); }
extern "C" void from_parabola() { fromCoord<PARABOLA>(true, false); }
extern "C" void from_circle() { fromCoord<CIRCLE>(true, false); }
extern "C" void from_circle_planar() { fromCoord<CIRCLE>(false, false); }
extern "C" void from_circle_retrograde() { fromCoord<CIRCLE>(false, true); }
// ---- P21 ----
static double ecc(int type) { return type == 0 ? sym_pos("e", 0.05, 0.95) : type == 1 ? 1 + sym_pos("e1", 0.05, 2) : 1; }
static double nuIn(double e) {
    double nu = sym_real("nu", -3, 3);
    sym_assume((int)(nu < PI) & (int)(nu > -PI));
    sym_assume(std::cos(nu / 2) > 0);
    sym_assume(1 + e * std::cos(nu) > 0);
    return nu;
}
template <int T> static void anomalies() {
    double e = ecc(T);
    if (T == 0) sym_assume(e < 1);
    double nu = nuIn(e), cn = std::cos(nu), sn = std::sin(nu), X = 1 + e * cn;
    double E = T_anomaly_to_E_anomaly(nu, e);
    if (T == 0) {
        sym_assert_eq(std::cos(E), (e + cn) / X, "eccentric-anomaly");
        sym_assert_eq(std::sin(E), std::sqrt(1 + e) * std::sqrt(1 - e) * sn / X, "eccentric-anomaly");
    } else if (T == 1) {
        sym_assert_eq(std::cosh(E), (e + cn) / X, "hyperbolic-anomaly");
        sym_assert_eq(std::sinh(E), std::sqrt(e + 1) * std::sqrt(e - 1) * sn / X, "hyperbolic-anomaly");
    } else
        sym_assert_eq(E * (1 + cn), sn, "parabolic-anomaly");
    double back = E_anomaly_to_T_anomaly(E, e);
    sameTrig(back, cn, sn, "there-and-back");
    sym_assert_eq(E_anomaly_to_M_anomaly(E, e), T == 0 ? E - e * std::sin(E) : T == 1 ? e * std::sinh(E) - E : E + E * E * E / 3, "mean-anomaly");
    sym_assert_eq(T_anomaly_to_M_anomaly(nu, e), E_anomaly_to_M_anomaly(E, e), "mean-anomaly-of-true");
}
extern "C" void anom_ellipse() { anomalies<0>(); }
extern "C" void anom_hyperbola() { anomalies<1>(); }
extern "C" void anom_parabola() { anomalies<2>(); }
// the area law: dt/dnu = r^2/h
template <int T> static void areaLaw() {
    double q = sym_pos("q", 0.2, 1), e = T == 0 ? (1 - q) / (1 + q) : T == 1 ? (1 + q) / (1 - q) : 1;   // q = (1-e)/(1+e)
    if (T != 2) sym_assume(q < 1);
    double nu = nuIn(e), X = 1 + e * std::cos(nu);
    double M = T_anomaly_to_M_anomaly(nu, e);
    double s = std::sqrt(q), k = T == 0 ? 8 * q * s / ((1 + q) * (1 + q) * (1 + q)) : T == 1 ? 8 * q * s / ((1 - q) * (1 - q) * (1 - q)) : 2;   // |1-e^2|^(3/2)
    sym_assert_eq(sym_diff(M, "nu"), k / (X * X), "area-law");
    sym_assert_eq(sym_subst(M, "nu", 0), 0, "zero-at-periapsis");
    double m1 = sym_pos("m1", 0.1, 3), m2 = sym_pos("m2", 0.1, 3), h = sym_pos("h", 0.3, 2), u = m1 + m2, p = h * h / u;
    Kepler o(m1, m2, p, e, 0., 0., 0., nu);
    double t = time_to_periapsis(o), d = sym_diff(t, "nu"), r = p / X;
    if (T == 0) sym_assert((int)(d * h == r * r) | (int)(d * h == -r * r), "time-law");
    else sym_assert_eq(d * h, -r * r, "time-law-before-periapsis-positive");
    sym_assert_eq(sym_subst(t, "nu", 0), 0, "no-time-at-periapsis");
}
extern "C" void area_ellipse() { areaLaw<0>(); }
extern "C" void area_hyperbola() { areaLaw<1>(); }
extern "C" void area_parabola() { areaLaw<2>(); }

// Kepler's equation: the root is found to machine precision
template <int T> static void keplerEq() {
    rootEc = T == 0 ? sym_pos("e", 0.05, 0.95) : T == 1 ? (sym_choose("e", 2) ? 3 : 1.125) : 1;
    if (T == 0) sym_assume(rootEc < 1);
    double sgn = sym_choose("sign", 2) ? -1 : 1;
    rootE = sgn * sym_pos("E", 0.5, 5);
    sym_assume((int)(std::fabs(rootE) > 0.5) & (int)(std::fabs(rootE) < 8));
    nS = 0;
    double M;
    if (T == 0) {
        double w = sym_real("w", -1, 1);   // e sin(E)
        sym_assume((int)(w < rootEc) & (int)(w > -rootEc) & (int)(w * sgn < std::fabs(rootE)));
        rootS = w / rootEc, M = rootE - w;
    } else if (T == 1) {
        double w = sgn * sym_pos("w", 0.5, 20);   // e (sinh(E) - E)
        rootS = rootE + w / rootEc, M = (rootEc - 1) * rootE + w;
    } else
        M = rootE + rootE * rootE * rootE / 3;
    sym_assume((int)(std::fabs(M) > EPS) & (int)(std::fabs(M) < 8));
    double E = M_anomaly_to_E_anomaly(Coarse(M), Coarse(rootEc)).v;
    double err = E - rootE;
    sym_assert((int)(err <= EPS * std::fabs(rootE)) & (int)(-err <= EPS * std::fabs(rootE)), "root-of-keplers-equation");
}
extern "C" void kepler_ellipse() { keplerEq<0>(); }
extern "C" void kepler_hyperbola() { keplerEq<1>(); }
extern "C" void kepler_parabola() { keplerEq<2>(); }

// two bodies (or clusters) moving on a given orbit: the time to periapsis from their coordinates is that of the orbit
template <int T> static void pairTime() {
    // e, X = 1 + e cos(nu), S = e |sin(nu)|; distance R; V = u/h: radial velocity V e sin(nu), transverse V (1 + e cos(nu))
    double e = T == 2 ? 1 : sym_pos("e", T == 0 ? 0.1 : 1.1, T == 0 ? 0.9 : 3), X = sym_pos("X", 0.3, 1.9), R = sym_pos("R", 0.3, 3), V = sym_pos("V", 0.3, 2), m1 = sym_pos("m1", 0.1, 3);
    if (T == 0) sym_assume(e < 1);
    if (T == 1) sym_assume(e > 1);
    sym_assume((int)(X - 1 < e) & (int)(1 - X < e));
    double S2 = e * e - (X - 1) * (X - 1);
    sym_assume(S2 > 0);
    double S = std::sqrt(S2), u = R * V * V * X, side = sym_choose("side", 2) ? -1 : 1;
    sym_assume(u > m1);
    Pt a(m1, V3(0, 0, 0), V3(0, 0, 0)), b(u - m1, V3(0, R, 0), V3(V * X, side * V * S, 0));
    double tau = time_to_periapsis(a, b);
    double M = T_anomaly_to_M_anomaly(std::acos((X - 1) / e), e), p = R * X, k = T == 0 ? 1 - e * e : T == 1 ? e * e - 1 : 1;
    double n = T == 2 ? 2 * V / p : V * k * std::sqrt(k) / p;      // mean motion
    sym_assert_eq(tau * tau * n * n, M * M, "time-of-the-pair");
}
extern "C" void pair_ellipse() { pairTime<0>(); }
extern "C" void pair_hyperbola() { pairTime<1>(); }
extern "C" void pair_parabola() { pairTime<2>(); }
// energies, axes and vectors of a relative state
extern "C" void visviva() {
    double u = sym_pos("u", 0.3, 3), m1 = sym_pos("m1", 0.1, 3), m2 = sym_pos("m2", 0.1, 3);
    V3 r = symV("r"), v = symV("v");
    double R2 = r.x * r.x + r.y * r.y + r.z * r.z, v2 = v.x * v.x + v.y * v.y + v.z * v.z, R = std::sqrt(R2), rv = r.x * v.x + r.y * v.y + r.z * v.z;
    sym_assume(R2 > 0);
    V3 L(r.y * v.z - r.z * v.y, r.z * v.x - r.x * v.z, r.x * v.y - r.y * v.x);
    auto one = [&](double w, double a, const char* l) { sym_assert_eq(a * (v2 * R - 2 * w), -w * R, l); };
    auto vec = [&](double w, V3 E, const char* l) {   // E = v x L / u - r/|r|
        eqV(E * w, V3(v.y * L.z - v.z * L.y - w * r.x / R, v.z * L.x - v.x * L.z - w * r.y / R, v.x * L.y - v.y * L.x - w * r.z / R), l);
    };
    auto ecc = [&](double w, double e, const char* l) {   // e^2 = 1 + 2 (energy) h^2/u^2
        sym_assert(e >= 0, l);
        sym_assert_eq(e * e * w * w, w * w + (v2 - 2 * w / R) * (L.x * L.x + L.y * L.y + L.z * L.z), l);
    };
    double vis = v2 * R - 2 * u;
    sym_assume((int)(vis > 0) | (int)(vis < 0));
    one(u, calc_semi_major_axis(u, r, v), "semi-major-axis");
    ecc(u, calc_eccentricity(u, r, v), "eccentricity");
    vec(u, calc_runge_lenz_vector(u, r, v), "runge-lenz");
    auto [a1, e1] = calc_a_e(u, r, v);
    one(u, a1, "semi-major-axis-and-eccentricity"), ecc(u, e1, "semi-major-axis-and-eccentricity");
    auto [a2, E2] = calc_a_RL_vector(u, r, v);
    one(u, a2, "semi-major-axis-and-vector"), vec(u, E2, "semi-major-axis-and-vector");
    double mu = m1 * m2 / (m1 + m2), w = m1 + m2;
    eqV(calc_angular_momentum(m1, m2, r, v), L * mu, "angular-momentum");
    double vis2 = v2 * R - 2 * w;
    sym_assume((int)(vis2 > 0) | (int)(vis2 < 0));
    auto [a3, E3, L3] = calc_a_e_L(m1, m2, r, v);
    one(w, a3, "axis-vector-momentum"), vec(w, E3, "axis-vector-momentum"), eqV(L3, L * mu, "axis-vector-momentum");
}
extern "C" void periods() {
    double m1 = sym_pos("m1", 0.1, 3), m2 = sym_pos("m2", 0.1, 3), a = sym_pos("a", 0.2, 3), q = sym_pos("q", 0.2, 1);
    sym_assume(q < 1);
    double P = period(m1, m2, a), two = 2 * PI;
    sym_assert(P > 0, "period");
    sym_assert_eq(P, two * std::sqrt(a * a * a / (m1 + m2)), "period");
    double e = q, p = a * (1 - e * e);
    sym_assert_eq(period(Kepler(m1, m2, p, e, 0., 0., 0., 0.)), P, "period-of-orbit");
    sym_assert_eq(semi_latus_rectum(a, e), p, "semi-latus-rectum");
    Elliptic E(m1, m2, a, e, 0.3, 0.2, 0.1, 0.4);
    sym_assert_eq(E.a, a, "elliptic-axis");
    sym_assert_eq(E.p, p, "elliptic-axis");
    sym_assert((int)(E.orbit_type == OrbitType::Ellipse) & (int)(E.i == 0.3) & (int)(E.Omega == 0.2) & (int)(E.omega == 0.1) & (int)(E.nu == 0.4), "elliptic");
    double n = sym_real("neg", -3, 0);
    sym_assume(n <= 0);
    sym_expect_abort(1);
    period(m1, m2, n);
    sym_expect_abort(0);
    sym_fail("unbound-orbit-has-no-period");
}
// a hyperbolic orbit from the velocity at infinity and the impact parameter
extern "C" void hyperbolic() {
    double m1 = sym_pos("m1", 0.1, 3), m2 = sym_pos("m2", 0.1, 3), vi = sym_pos("vinf", 0.3, 2), b = sym_pos("b", 0.3, 3), r = sym_pos("r", 1, 30), u = m1 + m2;
    int out = sym_choose("out", 3);
    double k = b * b * vi * vi * vi * vi, e = std::sqrt(1 + k / (u * u)), rp = u / (vi * vi) * (e - 1);
    sym_assume(r > rp);
    Hyperbolic h = out == 2 ? Hyperbolic(m1, m2, vi, b, 0.3, 0.2, 0.1, r) : Hyperbolic(m1, m2, vi, b, 0.3, 0.2, 0.1, r, out ? Hyper::out : Hyper::in);
    sym_assert((int)(h.orbit_type == OrbitType::Hyperbola) & (int)(h.i == 0.3) & (int)(h.Omega == 0.2) & (int)(h.omega == 0.1), "angles");
    sym_assert_eq(h.m1, m1, "masses"), sym_assert_eq(h.m2, m2, "masses"), sym_assert_eq(h.b, b, "impact-parameter");
    sym_assert_eq(h.e * h.e, 1 + k / (u * u), "eccentricity");
    sym_assert(h.e > 1, "eccentricity");
    sym_assert_eq(h.p * u, b * b * vi * vi, "angular-momentum");
    sym_assert_eq(r * (1 + h.e * std::cos(h.nu)), h.p, "distance");
    sym_assert(out == 1 ? h.nu >= 0 : h.nu <= 0, "incoming-or-outgoing");
    sym_assert((int)(h.nu <= PI) & (int)(h.nu >= -PI), "range");
}
extern "C" void hyperbolic_inside() {   // closer than the periapsis: refused
    double m1 = sym_pos("m1", 0.1, 3), m2 = sym_pos("m2", 0.1, 3), vi = sym_pos("vinf", 0.3, 2), b = sym_pos("b", 0.3, 3), r = sym_pos("r", 1, 30), u = m1 + m2;
    double k = b * b * vi * vi * vi * vi, e = std::sqrt(1 + k / (u * u)), rp = u / (vi * vi) * (e - 1);
    sym_assume(r < rp);
    sym_assert(rp > 0, "periapsis");
    sym_expect_abort(1);
    Hyperbolic h(m1, m2, vi, b, 0.3, 0.2, 0.1, r);
    sym_expect_abort(0);
    sym_fail("inside-periapsis-refused");
}

extern "C" void rotate() {   // any vector, turned by z-x-z Euler angles
    V3 v = symV("v"), r = v;
    double a = sym_real("phi", -3, 3), b = sym_real("theta", -3, 3), c = sym_real("psi", -3, 3);
    euler_rotate(r, a, b, c);
    double x = v.x * std::cos(c) - v.y * std::sin(c), y = v.x * std::sin(c) + v.y * std::cos(c);
    double y2 = y * std::cos(b) - v.z * std::sin(b), z2 = y * std::sin(b) + v.z * std::cos(b);
    sym_assert_eq(r.x, x * std::cos(a) - y2 * std::sin(a), "rotation"), sym_assert_eq(r.y, x * std::sin(a) + y2 * std::cos(a), "rotation"), sym_assert_eq(r.z, z2, "rotation");
}
