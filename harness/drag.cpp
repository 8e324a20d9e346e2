// P04: gas drag and disk interactions.
#include "common.h"
#include "/repo/src/interaction/static-gas-drag.hpp"
#include "/repo/src/interaction/disk-capture-star.hpp"
double force::AlphaDisk::Q = 1;
double force::AlphaDisk::alpha = 1;
double force::AlphaDisk::lambda = 1;
int force::AlphaDisk::force = 0;
struct Gas {
    SPACEHUB_USING_TYPE_SYSTEM_OF(DT);
    size_t n;
    ScalarArray m, c, cs, R;
    VectorArray p, v;
    size_t number() const { return n; }
    ScalarArray const& mass() const { return m; }
    VectorArray const& pos() const { return p; }
    VectorArray const& vel() const { return v; }
    ScalarArray const& sub_sonic_c() const { return c; }
    ScalarArray const& local_cs() const { return cs; }
    ScalarArray const& radius() const { return R; }
};
static double dt(V3 const& a, V3 const& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 lin(double a, V3 const& x, double b, V3 const& y) { return V3(a * x.x + b * y.x, a * x.y + b * y.y, a * x.z + b * y.z); }
static void gas(int n) {
    Gas s; s.n = n;
    for (int i = 0; i < n; i++) {
        s.m.push_back(sym_pos(nm("m", i).c_str(), 0.1, 3));
        s.c.push_back(sym_pos(nm("c", i).c_str(), 0.1, 3));
        s.cs.push_back(sym_pos(nm("cs", i).c_str(), 0.1, 3));
        s.p.push_back(V3(0, 0, 0));
        s.v.push_back(symV(nm("v", i)));
    }
    Gas::VectorArray acc(n);
    for (int i = 0; i < n; i++) acc[i] = V3(0.5, -0.25, i);
    force::StaticGasDrag::add_acc_to(s, acc);
    for (int i = 0; i < n; i++) {
        double u2 = dt(s.v[i], s.v[i]), u = std::sqrt(u2);
        V3 d = lin(1, acc[i], -1, V3(0.5, -0.25, i));
        double k;
        if (u < s.cs[i]) k = s.c[i] * s.m[i];
        else k = 3 * std::sqrt(consts::pi / 2) * s.c[i] * s.m[i] * s.cs[i] * s.cs[i] * s.cs[i] / (u2 * u);
        eqV(d, lin(-k, s.v[i], 0, d), "drag-law");
    }
}
extern "C" void gas1() { gas(1); }
extern "C" void gas2() { gas(2); }
// bodies 1.. orbit body 0 through its disk: the drag is antiparallel to the motion relative to the gas and body 0 takes the recoil
template <typename F>
static void recoil(int n) {
    Gas s; s.n = n;
    for (int i = 0; i < n; i++) {
        s.m.push_back(sym_pos(nm("m", i).c_str(), 0.1, 3));
        s.R.push_back(sym_pos(nm("R", i).c_str(), 0.1, 3));
        s.p.push_back(symV(nm("p", i)));
        s.v.push_back(symV(nm("v", i)));
    }
    Gas::VectorArray acc(n);
    F::add_acc_to(s, acc);
    V3 P(0, 0, 0);
    for (int i = 0; i < n; i++) P = lin(1, P, s.m[i], acc[i]);
    eqV(P, V3(0, 0, 0), "recoil");
    for (int i = 1; i < n; i++) {
        V3 dr = lin(1, s.p[i], -1, s.p[0]), dv = lin(1, s.v[i], -1, s.v[0]);
        double rr = std::sqrt(dr.x * dr.x + dr.y * dr.y), vk = std::sqrt(s.m[0] / rr);
        V3 w(dv.x + vk * dr.y / rr, dv.y - vk * dr.x / rr, dv.z);
        sym_assert_eq(acc[i].x * w.y, acc[i].y * w.x, "parallel-to-relative-velocity");
        sym_assert_eq(acc[i].x * w.z, acc[i].z * w.x, "parallel-to-relative-velocity");
        sym_assert_eq(acc[i].y * w.z, acc[i].z * w.y, "parallel-to-relative-velocity");
    }
}
// drag on a star in the disk: pi R^2 rho |w| w, rho that of a marginally stable disk, exponential in height; gas density by height
static void captureMag() {
    Gas s; s.n = 2;
    double M = sym_pos("M", 0.1, 3), m = sym_pos("m", 0.1, 3), rr = sym_pos("r", 0.2, 3), z = sym_real("z", -0.5, 0.5);
    s.m = {M, m}; s.R = {1, sym_pos("R", 0.1, 2)};
    V3 dr(0.6 * rr, -0.8 * rr, z), p0 = symV("p"), v0 = symV("v"), dv = symV("u");
    s.p = {p0, lin(1, p0, 1, dr)}; s.v = {v0, lin(1, v0, 1, dv)};
    Gas::VectorArray acc(2);
    force::DiskCaptureStar::add_acc_to(s, acc);
    double vk = std::sqrt(M / rr), Om = vk / rr, Mdot = 0.22 * M / 1e7 / (2 * consts::pi), H = std::pow(0.5 * Mdot / (M * Om), 1.0 / 3) * rr;
    double rho = M / (2 * consts::pi * rr * rr * rr) * std::exp(-z * z / (2 * H * H));
    V3 w(dv.x - 0.8 * vk, dv.y - 0.6 * vk, dv.z);
    double k = consts::pi * s.R[1] * s.R[1] * rho * std::sqrt(dt(w, w));
    eqV(acc[1], lin(-k / m, w, 0, w), "capture-law");
    eqV(acc[0], lin(k / M, w, 0, w), "capture-law");
}
extern "C" void capture_law() { captureMag(); }
extern "C" void capture2() { recoil<force::DiskCaptureStar>(2); }
extern "C" void capture3() { recoil<force::DiskCaptureStar>(3); }
extern "C" void alpha_aero2() { force::AlphaDisk::force = -1; recoil<force::AlphaDisk>(2); }
// magnitude of the alpha-disk forces, gas state expressed independently
static void alphaMag(int mode) {
    force::AlphaDisk::force = mode;
    force::AlphaDisk::Q = sym_pos("Q", 0.5, 2);
    force::AlphaDisk::alpha = sym_pos("alpha", 0.1, 1);
    force::AlphaDisk::lambda = sym_pos("lambda", 0.1, 1);
    Gas s; s.n = 2;
    double M = sym_pos("m0", 1, 3), m = sym_pos("m1", 0.1, 1), R = sym_pos("R1", 0.1, 1);
    s.m.push_back(M); s.m.push_back(m); s.R.push_back(0); s.R.push_back(R);
    double rc = sym_pos("r", 0.5, 2), z = sym_real("z", -0.1, 0.1), w = sym_pos("w", 0.001, 1);
    s.p.push_back(V3(0, 0, 0)); s.p.push_back(V3(rc, 0, z));
    double vk = std::sqrt(M / rc);
    s.v.push_back(V3(0, 0, 0)); s.v.push_back(V3(w, vk, 0));   // moves through the gas with speed w along x
    Gas::VectorArray acc(2);
    force::AlphaDisk::add_acc_to(s, acc);
    double Om = std::sqrt(M / (rc * rc * rc));
    double Md = force::AlphaDisk::lambda * 0.22 * (M / 1e7) / (2 * consts::pi);
    double H = std::pow(force::AlphaDisk::Q / 2 / force::AlphaDisk::alpha * Md / M / Om, 1.0 / 3) * rc;
    double rho = M / (2 * force::AlphaDisk::Q * consts::pi * rc * rc * rc) * std::exp(-(z * z) / (2 * H * H)) * 1000;
    double cs = Om * H, Ma = w / cs, eps = 1 / std::exp(2.0), I = 0;
    bool smooth = false;
    if (mode >= 0) {
        if (Ma > 1 + eps) I = (0.5 * std::log(1 - 1 / (Ma * Ma)) + 3) / (Ma * Ma);
        else if (Ma <= 0.1) I = Ma / 3;
        else if (Ma < 1 - eps) I = (0.5 * std::log((1 + Ma) / (1 - Ma)) - Ma) / (Ma * Ma);
        else smooth = true;
    }
    if (smooth) return;
    double f = 0;
    if (mode >= 0) f += I * 4 * consts::pi * m * m / (cs * cs) * rho;
    if (mode <= 0) f += 4 * consts::pi * R * R * rho * w * w;
    sym_assert_eq(acc[1].x * m / f, -1, "drag-magnitude");
    sym_assert_eq(acc[0].x * M / f, 1, "drag-recoil-magnitude");
}
extern "C" void alpha_mag_df() { alphaMag(1); }
extern "C" void alpha_mag_aero() { alphaMag(-1); }
extern "C" void alpha_mag_both() { alphaMag(0); }
// table look-up: never outside the table, and between the two bracketing table values
extern "C" void disk_table() {
    static const std::vector<double> X = {-1, -0.5, 0, 0.5, 1}, Y = {3, 1, 4, 1, 5};
    double x = sym_real("x", -1, 1);
    sym_assume(x >= -1 && x < 1);
    double y = force::MagnetoDisk::interpolate(x, X, Y);
    for (int i = 0; i < 4; i++)
        if (x >= X[i] && x < X[i + 1]) sym_assert_eq(y, Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / 0.5, "piecewise-linear");
}
// the real tables, every double in the documented range (IEEE mode)
extern "C" void disk_table_ieee() {
    double x = sym_real("x", -1, 2);
    sym_assume(x >= force::_GDF_lgM[0] && x < force::_GDF_lgM[force::_GDF_lgM.size() - 1]);
    sym_assume(x >= 2 - 1e-13);  // the last 450 doubles below the end of the table
    volatile double y = force::MagnetoDisk::interpolate(x, force::_GDF_lgM, force::_GDF_I);
    (void)y;
    sym_assert(true, "look-up-inside-table");
}
// each of the four disk tables and the friction table, every argument inside: the straight line between the two neighbours of the argument
static double line(double x, std::vector<double> const& X, std::vector<double> const& Y, size_t a, size_t b) {
    while (b - a > 1) { size_t c = (a + b) / 2; if (x < X[c]) b = c; else a = c; }
    return Y[a] + (Y[b] - Y[a]) * (x - X[a]) / (X[b] - X[a]);
}
static void table(std::vector<double> const& X, std::vector<double> const& Y, size_t a, size_t b) {
    double x = sym_real("x", X[a], X[b]);
    sym_assume(x >= X[a] && x < X[b]);
    sym_assert_close(force::MagnetoDisk::interpolate(x, X, Y), line(x, X, Y, a, b), 1e-7 * std::fabs(Y[a] - Y[b]), "between-the-neighbours");
}
using namespace force;
#define TAB(N, X, Y) extern "C" void disk_table_##N() { size_t n = X.size(), c = sym_choose("part", 8); table(X, Y, c * (n - 1) / 8, (c + 1) * (n - 1) / 8); }
TAB(rho, _mag_disk_lgr_cgs, _mag_disk_lgrho_cgs)
TAB(height, _mag_disk_lgr_cgs, _mag_disk_lgH_cgs)
TAB(speed, _mag_disk_lgr_cgs, _mag_disk_v_cgs)
TAB(friction, _GDF_lgM, _GDF_I)
// the magneto-disk force: gas friction by Mach number plus aerodynamic drag, with the gas of the tables (held constant beyond them)
static void magnetoLaw(int where, int mach) {
    Gas s; s.n = 2;
    double M = sym_pos("M", 0.1, 3), m = sym_pos("m", 0.1, 3), Rb = sym_pos("R", 0.1, 2), r = sym_pos("r", 1, 1000), w = sym_pos("w", 0.001, 10);
    auto const &X = _mag_disk_lgr_cgs, &Yr = _mag_disk_lgrho_cgs, &Yh = _mag_disk_lgH_cgs, &Yv = _mag_disk_v_cgs;
    size_t n = X.size();
    double L = std::log10(r / unit::cm), lr, lh, v;
    if (where == 0) { sym_assume(L < X[0]); lr = Yr[0]; lh = Yh[0]; v = Yv[0]; }
    else if (where == 2) { sym_assume(L >= X[n - 1]); lr = Yr[n - 1]; lh = Yh[n - 1]; v = Yv[n - 1]; }
    else { sym_assume(L >= X[221] && L < X[222]); lr = line(L, X, Yr, 221, 222); lh = line(L, X, Yh, 221, 222); v = line(L, X, Yv, 221, 222); }
    double rho = std::pow(10, lr) / 5.893333333333333e-07, H = std::pow(10, lh) / 1.5e13;
    v *= 3.357318203286629e-07;
    s.m = {M, m}; s.R = {1, Rb};
    s.p = {V3(0, 0, 0), V3(0, r, 0)};
    s.v = {V3(0, 0, 0), V3(-v, w, 0)};   // moves outwards through the gas with speed w
    double Om = std::sqrt(M / (r * r * r)), cs = Om * H, Ma = w / cs, lgM = std::log10(Ma), I;
    auto const& XM = _GDF_lgM;
    if (mach == 0) { sym_assume(lgM < -1); I = Ma / 3; }
    else if (mach == 2) { sym_assume(lgM >= 2); I = 0; }
    else { sym_assume(lgM >= XM[70] && lgM < XM[71]); I = line(lgM, XM, _GDF_I, 70, 71); }
    Gas::VectorArray acc(2);
    force::MagnetoDisk::add_acc_to(s, acc);
    double f = I * 4 * consts::pi * m * m / (cs * cs) * rho + 4 * consts::pi * Rb * Rb * rho * w * w;
    sym_assert_eq(acc[1].y * m, -f, "magneto-law");
    sym_assert_eq(acc[0].y * M, f, "magneto-law");
    sym_assert_eq(acc[1].x, 0, "magneto-law");
    sym_assert_eq(acc[0].x, 0, "magneto-law");
    sym_assert_eq(acc[1].z, 0, "magneto-law");
}
extern "C" void magneto_low() { magnetoLaw(0, 0); }
extern "C" void magneto_low_fast() { magnetoLaw(0, 2); }
extern "C" void magneto_in() { magnetoLaw(1, 0); }
extern "C" void magneto_in_mid() { magnetoLaw(1, 1); }
extern "C" void magneto_high() { magnetoLaw(2, 0); }
extern "C" void magneto_high_fast() { magnetoLaw(2, 2); }
extern "C" void magneto2() {
    Gas s; s.n = 2;
    for (int i = 0; i < 2; i++) {
        s.m.push_back(sym_pos(nm("m", i).c_str(), 0.1, 3));
        s.R.push_back(sym_pos(nm("R", i).c_str(), 0.1, 3));
    }
    s.p.push_back(V3(0, 0, 0)); s.p.push_back(V3(sym_pos("x", 0.1, 5000), 0, 0));
    s.v.push_back(V3(0, 0, 0)); s.v.push_back(symV("v"));
    sym_assume(s.p[1].x > 5000);
    // any direction of motion through the gas, slow or fast (every cell of the friction table: magneto_in_mid, disk_table_friction)
    size_t n = _mag_disk_v_cgs.size();
    double x = s.p[1].x, M = s.m[0], H = std::pow(10, _mag_disk_lgH_cgs[n - 1]) / 1.5e13, cs = std::sqrt(M / (x * x * x)) * H, vg = _mag_disk_v_cgs[n - 1] * 3.357318203286629e-07;
    double u = s.v[1].x, v = s.v[1].y - vg, w = s.v[1].z, lgM = std::log10(std::sqrt(u * u + v * v + w * w) / cs);
    if (sym_choose("fast", 2)) sym_assume(lgM >= 2); else sym_assume(lgM < -1);
    Gas::VectorArray acc(2);
    force::MagnetoDisk::add_acc_to(s, acc);
    eqV(lin(s.m[0], acc[0], s.m[1], acc[1]), V3(0, 0, 0), "recoil");
}
