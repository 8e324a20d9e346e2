// P02: energies, momenta and other state diagnostics; accelerations as gradient of the potential.
#include "common.h"
struct Chained {
    SPACEHUB_USING_TYPE_SYSTEM_OF(DT);
    PP c;
    VectorArray cp, cv;
    IdxArray idx;
    size_t number() const { return c.number(); }
    ScalarArray const& mass() const { return c.mass(); }
    StateVectorArray const& pos() const { return c.pos(); }
    StateVectorArray const& vel() const { return c.vel(); }
    Scalar mass(size_t i) const { return c.mass(i); }
    auto const& pos(size_t i) const { return c.pos(i); }
    auto const& vel(size_t i) const { return c.vel(i); }
    VectorArray const& chain_pos() const { return cp; }
    VectorArray const& chain_vel() const { return cv; }
    IdxArray const& index() const { return idx; }
};
static void link(Chained& s, bool few = false) {
    int n = s.number();
    if (few) {   // identity, reversed, evens downwards then odds upwards
        long c = sym_choose("order", 3);
        for (int i = 0; i < n; i++) s.idx.push_back(c == 0 ? i : c == 1 ? n - 1 - i : 0);
        if (c == 2) { int k = 0; for (int i = (n - 1) / 2 * 2; i >= 0; i -= 2) s.idx[k++] = i; for (int i = 1; i < n; i += 2) s.idx[k++] = i; }
    }
    std::vector<int> left(n);
    for (int i = 0; i < n; i++) left[i] = i;
    for (int i = 0; i < n && !few; i++) {
        int c = (int)sym_choose(nm("slot", i).c_str(), (long)left.size());
        s.idx.push_back(left[c]);
        left.erase(left.begin() + c);
    }
    for (int i = 0; i + 1 < n; i++) {
        auto a = s.idx[i], b = s.idx[i + 1];
        auto const &p = s.c.pos(), &v = s.c.vel();
        s.cp.push_back(V3(p[b].x - p[a].x, p[b].y - p[a].y, p[b].z - p[a].z));
        s.cv.push_back(V3(v[b].x - v[a].x, v[b].y - v[a].y, v[b].z - v[a].z));
    }
    s.cp.push_back(V3(0, 0, 0));
    s.cv.push_back(V3(0, 0, 0));
}
static double refT(std::vector<Pt> const& ps) {
    double t = 0;
    for (auto& p : ps) t += p.mass * (p.vel.x * p.vel.x + p.vel.y * p.vel.y + p.vel.z * p.vel.z) / 2;
    return t;
}
static double refU(std::vector<Pt> const& ps) {
    double u = 0;
    for (size_t i = 0; i < ps.size(); i++)
        for (size_t j = 0; j < i; j++) {
            double dx = ps[j].pos.x - ps[i].pos.x, dy = ps[j].pos.y - ps[i].pos.y, dz = ps[j].pos.z - ps[i].pos.z;
            u -= ps[i].mass * ps[j].mass / std::sqrt(dx * dx + dy * dy + dz * dz);
        }
    return u;
}
static V3 crossR(V3 const& a, V3 const& b) { return V3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
template <typename S>
static void diag(S const& s, std::vector<Pt> const& ps) {
    size_t n = ps.size();
    double T = refT(ps), U = refU(ps), E0 = sym_pos("E0", 0.1, 2);
    sym_assert_eq(calc::calc_kinetic_energy(s), T, "kinetic-energy");
    sym_assert_eq(calc::calc_potential_energy(s), U, "potential-energy");
    sym_assert_eq(calc::calc_total_energy(s), T + U, "total-energy");
    double e = calc::calc_energy_error(s, E0), r = (T + U - E0) / E0;
    sym_assert_eq(e * e, r * r, "relative-energy-error");
    sym_assert(e >= 0, "relative-energy-error-sign");
    V3 L(0, 0, 0);
    for (auto& p : ps) { V3 l = crossR(p.pos, p.vel); L.x += p.mass * l.x; L.y += p.mass * l.y; L.z += p.mass * l.z; }
    eqV(calc::calc_total_angular_momentum(s), L, "angular-momentum");
    sym_assert_eq(calc::calc_step_scale(s), 1, "step-scale");
    double M = 0; V3 c(0, 0, 0);
    for (auto& p : ps) { M += p.mass; c.x += p.mass * p.pos.x; c.y += p.mass * p.pos.y; c.z += p.mass * p.pos.z; }
    V3 g = calc::calc_com(s.mass(), s.pos());
    eqV(V3(g.x * M, g.y * M, g.z * M), c, "centre-of-mass");
}
extern "C" void diag2() { auto ps = symParticles(2); PP s(0, ps); diag(s, ps); }
extern "C" void diag3() { auto ps = symParticles(3); PP s(0, ps); diag(s, ps); }
extern "C" void diag4() { auto ps = symParticles(4); PP s(0, ps); diag(s, ps); }
static void chainU(int n, bool few = false) {
    auto ps = symParticles(n, false);
    Chained s; s.c = PP(0, ps); link(s, few);
    sym_assert_eq(calc::calc_potential_energy(s), refU(ps), "potential-energy-chain");
}
extern "C" void chainU2() { chainU(2); }
extern "C" void chainU3() { chainU(3); }
extern "C" void chainU4() { chainU(4); }
extern "C" void chainU5f() { chainU(5, true); }
extern "C" void chainU6f() { chainU(6, true); }
extern "C" void chainU8f() { chainU(8, true); }
extern "C" void chainU5() { chainU(5); }
extern "C" void pairU() {
    auto ps = symParticles(2, false);
    sym_assert_eq(calc::calc_potential_energy(ps[0], ps[1]), refU(ps), "pair-potential");
}
// a_i = -(1/m_i) dU/dx_i, differentiating what the potential-energy routine computes
template <typename S>
static void grad(S& s, std::vector<Pt> const& ps) {
    double U = calc::calc_potential_energy(s);
    PP::VectorArray acc(ps.size());
    for (size_t i = 0; i < ps.size(); i++) acc[i] = V3(0, 0, 0);
    force::NewtonianGrav::add_acc_to(s, acc);
    for (size_t i = 0; i < ps.size(); i++) {
        sym_assert_eq(ps[i].mass * acc[i].x, -sym_diff(U, (nm("p", i) + "x").c_str()), "force-is-gradient");
        sym_assert_eq(ps[i].mass * acc[i].y, -sym_diff(U, (nm("p", i) + "y").c_str()), "force-is-gradient");
        sym_assert_eq(ps[i].mass * acc[i].z, -sym_diff(U, (nm("p", i) + "z").c_str()), "force-is-gradient");
    }
}
extern "C" void grad3() { auto ps = symParticles(3, false); PP s(0, ps); grad(s, ps); }
extern "C" void grad4() { auto ps = symParticles(4, false); PP s(0, ps); grad(s, ps); }
extern "C" void gradc3() { auto ps = symParticles(3, false); Chained s; s.c = PP(0, ps); link(s); grad(s, ps); }
extern "C" void gradc4() { auto ps = symParticles(4, false); Chained s; s.c = PP(0, ps); link(s); grad(s, ps); }
// subset angular momenta
static void sub(int n) {
    auto ps = symParticles(n);
    PP s(0, ps);
    std::vector<size_t> id;
    for (int i = 0; i < n; i++) if (sym_choose(nm("in", i).c_str(), 2)) id.push_back(i);
    if (id.empty()) return;
    V3 L(0, 0, 0), P(0, 0, 0), V(0, 0, 0); double M = 0;
    for (auto i : id) {
        V3 l = crossR(ps[i].pos, ps[i].vel); double m = ps[i].mass;
        L.x += m * l.x; L.y += m * l.y; L.z += m * l.z; M += m;
        P.x += m * ps[i].pos.x; P.y += m * ps[i].pos.y; P.z += m * ps[i].pos.z;
        V.x += m * ps[i].vel.x; V.y += m * ps[i].vel.y; V.z += m * ps[i].vel.z;
    }
    eqV(calc::calc_angular_momentum(s, id), L, "subset-angular-momentum");
    V3 o = crossR(P, V);   // Koenig: L = L_internal + (1/M) P x V
    eqV(calc::calc_isolated_angular_momentum(s, id), V3(L.x - o.x / M, L.y - o.y / M, L.z - o.z / M), "isolated-angular-momentum");
}
extern "C" void subL2() { sub(2); }
extern "C" void subL3() { sub(3); }
// removing the centre of mass: zero weighted sum afterwards, relative positions unchanged
static void com(int n) {
    auto ps = symParticles(n);
    PP s(0, ps);
    calc::move_to_com(s.mass(), s.pos());
    calc::move_to_com(s.mass(), s.vel());
    V3 c(0, 0, 0), d(0, 0, 0);
    for (int i = 0; i < n; i++) { V3 p = s.pos(i), v = s.vel(i); double m = s.mass(i); c.x += m * p.x; c.y += m * p.y; c.z += m * p.z; d.x += m * v.x; d.y += m * v.y; d.z += m * v.z; }
    eqV(c, V3(0, 0, 0), "com-position-zero");
    eqV(d, V3(0, 0, 0), "com-velocity-zero");
    for (int i = 1; i < n; i++) {
        eqV(V3(s.pos(i).x - s.pos(0).x, s.pos(i).y - s.pos(0).y, s.pos(i).z - s.pos(0).z), V3(ps[i].pos.x - ps[0].pos.x, ps[i].pos.y - ps[0].pos.y, ps[i].pos.z - ps[0].pos.z), "com-relative-position");
        eqV(V3(s.vel(i).x - s.vel(0).x, s.vel(i).y - s.vel(0).y, s.vel(i).z - s.vel(0).z), V3(ps[i].vel.x - ps[0].vel.x, ps[i].vel.y - ps[0].vel.y, ps[i].vel.z - ps[0].vel.z), "com-relative-velocity");
        sym_assert_eq(s.mass(i), ps[i].mass, "com-mass");
    }
}
extern "C" void com2() { com(2); }
extern "C" void com3() { com(3); }
extern "C" void com4() { com(4); }
// fall-free time: the pair minimum of pi/2 * sqrt(r^3 / (2 (m1+m2)))
static void fall(int n) {
    PP::ScalarArray m; PP::VectorArray p; std::vector<double> x;
    for (int i = 0; i < n; i++) {
        m.push_back(sym_pos(nm("m", i).c_str(), 0.1, 3));
        x.push_back(sym_pos(nm("x", i).c_str(), 0.1, 3));
        sym_assume(m[i] >= 1e-6 && x[i] <= 1e6);
        if (i) sym_assume(x[i] > x[i - 1]);
        p.push_back(V3(x[i], 0, 0));
    }
    double t = calc::calc_fall_free_time(m, p), best = 0;
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++) {
            double r = x[j] - x[i], s = r * std::sqrt(r) / std::sqrt(m[i] + m[j]);
            if ((i == 0 && j == 1) || s < best) best = s;
        }
    sym_assert_eq(t, best * consts::pi / std::sqrt(8.0), "fall-free-time");
}
extern "C" void fall2() { fall(2); }
extern "C" void fall3() { fall(3); }
