// P22: groups of particles: mass, centre of mass, energies, size, tides, moving them
#include "common.h"
using namespace hub::orbit;
struct Sums { double m = 0, k = 0, w = 0, r2 = 0; V3 p{0, 0, 0}, v{0, 0, 0}; };
static double d2(V3 a, V3 b) { return (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z); }
static Sums sums(std::vector<Pt> const& q) {
    Sums s;
    for (auto& b : q) {
        s.m += b.mass;
        s.p.x += b.mass * b.pos.x, s.p.y += b.mass * b.pos.y, s.p.z += b.mass * b.pos.z;
        s.v.x += b.mass * b.vel.x, s.v.y += b.mass * b.vel.y, s.v.z += b.mass * b.vel.z;
        s.k += b.mass * (b.vel.x * b.vel.x + b.vel.y * b.vel.y + b.vel.z * b.vel.z) / 2;
    }
    for (size_t i = 0; i < q.size(); i++)
        for (size_t j = 0; j < i; j++) s.w -= q[i].mass * q[j].mass / std::sqrt(d2(q[i].pos, q[j].pos));
    return s;
}
static void apart(std::vector<Pt> const& q) {
    for (size_t i = 0; i < q.size(); i++)
        for (size_t j = 0; j < i; j++) sym_assume(d2(q[i].pos, q[j].pos) > 0);
}
static void eqS(V3 a, V3 b, double m, const char* l) { eqV(V3(a.x * m, a.y * m, a.z * m), b, l); }
template <typename... T> static void basics(std::vector<Pt> const& q, T const&... a) {
    auto s = sums(q);
    sym_assert_eq(M_tot(a...), s.m, "mass");
    eqS(COM_p(a...), s.p, s.m, "centre-of-mass");
    eqS(COM_v(a...), s.v, s.m, "velocity-of-the-centre");
    sym_assert_eq(E_k(a...), s.k, "kinetic");
    sym_assert_eq(E_p(a...), s.w, "potential");
    sym_assert_eq(E_tot(a...), s.k + s.w, "total");
    double kc = (s.v.x * s.v.x + s.v.y * s.v.y + s.v.z * s.v.z) / 2;
    sym_assert_eq(E_k_COM(a...) * s.m, kc, "energy-of-the-centre");
    sym_assert_eq(E_inner(a...) * s.m, (s.k + s.w) * s.m - kc, "inner");
}
static void same(Pt const& a, Pt const& b, const char* l) { eqV(a.pos, b.pos, l), eqV(a.vel, b.vel, l), sym_assert_eq(a.mass, b.mass, l); }
extern "C" void basics1() {
    auto q = symParticles(1);
    basics(q, q);
    basics(q, q[0]);
    sym_assert(cluster_size(q[0]) == 0, "size-of-a-point");
    sym_assert(cluster_size(q) == 0, "size-of-a-point");
}
extern "C" void basics2() { auto q = symParticles(2); apart(q); basics(q, q); basics(q, q[0], q[1]); }
extern "C" void basics3() { auto q = symParticles(3); apart(q); basics(q, q); basics(q, q[0], q[1], q[2]); }
extern "C" void basics4() { auto q = symParticles(4); apart(q); basics(q, q); basics(q, q[0], q[1], q[2], q[3]); }
extern "C" void grouping() {
    auto q = symParticles(3);
    auto g = group(q[0], q[1], q[2]);
    auto h = group(q[0], q[1]);
    sym_assert((int)(g.size() == 3) & (int)(h.size() == 2), "group-size");
    for (int i = 0; i < 3; i++) same(g[i], q[i], "group-members");
    for (int i = 0; i < 2; i++) same(h[i], q[i], "group-members");
    Pt a = q[0];
    double r = M_rdc(q[1], q[2]), r3 = M_rdc(a, h), r4 = M_rdc(h, q);
    double m = q[1].mass + q[2].mass, hh = q[0].mass + q[1].mass, qq = m + q[0].mass;
    sym_assert_eq(r * m, q[1].mass * q[2].mass, "reduced-mass");
    sym_assert_eq(r3 * (a.mass + hh), a.mass * hh, "reduced-mass");
    sym_assert_eq(r4 * (hh + qq), hh * qq, "reduced-mass");
}
// moving: every body by the same displacement, the centre ends where asked; separations and masses stay
static void moved(std::vector<Pt> const& o, std::vector<Pt> const& q, V3 cp, V3 cv, bool pos, bool vel, const char* l) {
    auto s = sums(q), so = sums(o);
    eqV(s.p, V3(cp.x * s.m, cp.y * s.m, cp.z * s.m), std::string(l) + "-centre");
    eqV(s.v, V3(cv.x * s.m, cv.y * s.m, cv.z * s.m), std::string(l) + "-velocity");
    for (size_t i = 0; i < o.size(); i++) {
        sym_assert_eq(q[i].mass, o[i].mass, l);
        if (!pos) eqV(q[i].pos, o[i].pos, l);
        if (!vel) eqV(q[i].vel, o[i].vel, l);
        for (size_t j = 0; j < i; j++) eqV(q[i].pos - q[j].pos, o[i].pos - o[j].pos, l), eqV(q[i].vel - q[j].vel, o[i].vel - o[j].vel, l);
    }
}
template <int N> static void moving() {
    auto q0 = symParticles(N);
    V3 cp = symV("cp"), cv = symV("cv"), zero(0, 0, 0);
    auto s = sums(q0);
    V3 op(s.p.x / s.m, s.p.y / s.m, s.p.z / s.m), ov(s.v.x / s.m, s.v.y / s.m, s.v.z / s.m);
    auto q = q0;
    move_particles(cp, cv, q), moved(q0, q, cp, cv, true, true, "move");
    q = q0, move_particles_pos(cp, q), moved(q0, q, cp, ov, true, false, "move-positions");
    q = q0, move_particles_vel(cv, q), moved(q0, q, op, cv, false, true, "move-velocities");
    q = q0, move_to_COM_frame(q), moved(q0, q, zero, zero, true, true, "centre-frame");
    if constexpr (N == 1) {
        q = q0, move_particles(cp, cv, q[0]), moved(q0, q, cp, cv, true, true, "move-one");
        q = q0, move_particles_pos(cp, q[0]), moved(q0, q, cp, ov, true, false, "move-one-position");
        q = q0, move_particles_vel(cv, q[0]), moved(q0, q, op, cv, false, true, "move-one-velocity");
    } else if constexpr (N == 2) {
        q = q0, move_particles(cp, cv, q[0], q[1]), moved(q0, q, cp, cv, true, true, "move-each");
        q = q0, move_particles_pos(cp, q[0], q[1]), moved(q0, q, cp, ov, true, false, "move-each-position");
        q = q0, move_particles_vel(cv, q[0], q[1]), moved(q0, q, op, cv, false, true, "move-each-velocity");
        q = q0, move_to_COM_frame(q[0], q[1]), moved(q0, q, zero, zero, true, true, "centre-frame-each");
    } else {
        q = q0, move_particles(cp, cv, q[0], q[1], q[2]), moved(q0, q, cp, cv, true, true, "move-each");
        q = q0, move_particles_pos(cp, q[0], q[1], q[2]), moved(q0, q, cp, ov, true, false, "move-each-position");
        q = q0, move_particles_vel(cv, q[0], q[1], q[2]), moved(q0, q, op, cv, false, true, "move-each-velocity");
        q = q0, move_to_COM_frame(q[0], q[1], q[2]), moved(q0, q, zero, zero, true, true, "centre-frame-each");
    }
}
extern "C" void moving1() { moving<1>(); }
extern "C" void moving2() { moving<2>(); }
extern "C" void moving3() { moving<3>(); }
extern "C" void orbiting() {   // placing particles on an orbit
    auto q0 = symParticles(2);
    double m1 = sym_pos("M1", 0.1, 3), p = sym_pos("P", 0.3, 3), e = sym_pos("e", 0.05, 0.95), nu = sym_real("nu", -3, 3);
    sym_assume(e < 1);
    sym_assume(1 + e * std::cos(nu) > 0);
    Kepler o(m1, q0[0].mass + q0[1].mass, p, e, 0.5, 0.25, 0.125, nu);
    V3 r, v;
    orbit_to_coord(o, r, v);
    auto q = q0;
    move_particles(o, q[0], q[1]), moved(q0, q, r, v, true, true, "onto-the-orbit");
    std::vector<Pt> o1{q0[0]}, q1{q0[0]};
    move_particles(o, q1[0]), moved(o1, q1, r, v, true, true, "one-onto-the-orbit");
}
// largest separation
template <typename... T> static void size(std::vector<Pt> const& q, const char* l, T const&... a) {
    double S = cluster_size(a...);
    bool hit = false;
    sym_assert(S >= 0, l);
    for (size_t i = 0; i < q.size(); i++)
        for (size_t j = 0; j < i; j++) {
            double d = d2(q[i].pos, q[j].pos);
            sym_assert(S * S >= d, l);
            hit = (int)hit | (int)(S * S == d);
        }
    sym_assert(hit, l);
}
static std::vector<Pt> line(int n) {
    std::vector<Pt> q;
    for (int i = 0; i < n; i++) q.emplace_back(sym_pos(nm("m", i).c_str(), 0.1, 3), V3(i % 3 == 0 ? sym_real(nm("x", i).c_str(), -2, 2) : 0, i % 3 == 1 ? sym_real(nm("x", i).c_str(), -2, 2) : 0, i % 3 == 2 ? sym_real(nm("x", i).c_str(), -2, 2) : 0), V3(0, 0, 0));
    return q;
}
extern "C" void size2() { auto q = symParticles(2, false); size(q, "size", q); size(q, "size-each", q[0], q[1]); }
extern "C" void size3() { auto q = line(3); size(q, "size", q); }
extern "C" void size3e() { auto q = line(3); size(q, "size-each", q[0], q[1], q[2]); }
extern "C" void size4() { auto q = line(4); size(q, "size", q); }
using SP = particles::SizeParticles<DT>::Particle;
extern "C" void size_body() {
    SP b(1.0, sym_pos("R", 0.1, 1), V3(0, 0, 0), V3(0, 0, 0));
    std::vector<SP> q{b};
    sym_assert(cluster_size(b) == b.radius, "size-of-a-body");
    sym_assert(cluster_size(q) == b.radius, "size-of-a-body");
}
// relative orbits and tides of clusters, through their centres of mass: c1 = two bodies with centre at distance D from b
struct Rel { std::vector<Pt> c1, c2; double u, m, mb; V3 D, V, s; };
static Rel relSetup() {
    Rel r;
    V3 B = symV("B"), W = symV("W"), w = symV("w");
    r.D = symV("D"), r.V = symV("V"), r.s = symV("s");
    double m = sym_pos("m", 0.1, 3), ma = m / 4, mb = 3 * m / 4, mc = sym_pos("m2", 0.1, 3);
    sym_assume(r.D.x * r.D.x + r.D.y * r.D.y + r.D.z * r.D.z > 0);
    sym_assume(r.s.x * r.s.x + r.s.y * r.s.y + r.s.z * r.s.z > 0);
    r.c1 = {Pt(ma, B + r.D + r.s * mb, W + r.V + w * mb), Pt(mb, B + r.D - r.s * ma, W + r.V - w * ma)};
    r.c2 = {Pt(mc, B, W)};
    r.m = ma + mb, r.mb = mc, r.u = r.m + mc;
    return r;
}
extern "C" void relative() {
    auto r = relSetup();
    auto& b = r.c2[0];
    double vis = (r.V.x * r.V.x + r.V.y * r.V.y + r.V.z * r.V.z) * std::sqrt(r.D.x * r.D.x + r.D.y * r.D.y + r.D.z * r.D.z) - 2 * r.u;
    sym_assume((int)(vis > 0) | (int)(vis < 0));
    double a = hub::orbit::calc_semi_major_axis(r.u, r.D, r.V), e = hub::orbit::calc_eccentricity(r.u, r.D, r.V);
    sym_assert_eq(calc_semi_major_axis(r.c1, b), a, "pair-axis");
    sym_assert_eq(calc_eccentricity(r.c1, r.c2), e, "pair-eccentricity");
    auto [a2, e2] = calc_a_e(b, r.c1);
    sym_assert_eq(a2, a, "pair-axis-and-eccentricity");
    sym_assert_eq(e2, e, "pair-axis-and-eccentricity");
    sym_assume(vis < 0);
    sym_assert_eq(period(r.c1, b), hub::orbit::period(r.m, r.mb, a), "pair-period");
}
static void tides(double f1, double f2, double M1, double M2, double R1, double R2, double r2, const char* l) {   // (M2/M1)(R1/r)^3 and reverse
    double r3 = r2 * std::sqrt(r2);
    sym_assert_eq(f1 * M1 * r3, M2 * R1 * R1 * R1, l);
    sym_assert_eq(f2 * M2 * r3, M1 * R2 * R2 * R2, l);
}
extern "C" void tidal() {
    auto r = relSetup();
    auto& b = r.c2[0];
    double R1 = sym_pos("R1", 0.1, 1), R2 = sym_pos("R2", 0.1, 1), r2 = r.D.x * r.D.x + r.D.y * r.D.y + r.D.z * r.D.z;
    auto [f1, f2] = tidal_factor(std::sqrt(r2), r.m, r.mb, R1, R2);
    tides(f1, f2, r.m, r.mb, R1, R2, r2, "tidal-factor");
    auto [f3, f4] = tidal_factor(r.c1, b, R1, R2);
    tides(f3, f4, r.m, r.mb, R1, R2, r2, "tidal-factor-of-clusters");
    auto [f5, f6] = tidal_factor(r.c1, r.c2);
    double S = r.m * std::sqrt(r.s.x * r.s.x + r.s.y * r.s.y + r.s.z * r.s.z);
    tides(f5, f6, r.m, r.mb, S, 0, r2, "tidal-factor-by-size");
    sym_assert_eq(E_tid(r.c1, b, R1, R2) * r2, -r.m * r.mb * (R1 + R2), "tidal-energy");
    sym_assert_eq(E_tid(r.c1, r.c2) * r2, -r.m * r.mb * S, "tidal-energy-by-size");
}
extern "C" void tidal_distance() {
    double M1 = sym_pos("M1", 0.1, 3), M2 = sym_pos("M2", 0.1, 3), R1 = sym_pos("R1", 0.1, 1), R2 = sym_pos("R2", 0.1, 1), f = sym_pos("f", 0.1, 1);
    double r = tidal_radius(f, M1, M2, R2), r1 = tidal_radius(f, M2, M1, R1), both = tidal_radius(f, M1, M2, R1, R2);
    sym_assert(r > 0, "tidal-radius");
    sym_assert_eq(r * r * r * f * M2, M1 * R2 * R2 * R2, "tidal-radius");
    sym_assert((int)(both >= r) & (int)(both >= r1) & ((int)(both == r) | (int)(both == r1)), "larger-tidal-radius");
    std::vector<Pt> c1{Pt(M1, V3(0, 0, 0), V3(0, 0, 0))}, c2{Pt(M2, V3(0, 0, 0), V3(0, 0, 0))};
    sym_assert_eq(tidal_radius(f, c1, c2, R2), r, "tidal-radius-of-clusters");
}
