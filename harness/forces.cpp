// P01/P03/P04: pairwise forces, direct-sum branch and chain branch, against an independently written pair law.
#include "common.h"
struct Base {
    SPACEHUB_USING_TYPE_SYSTEM_OF(DT);
    size_t n;
    ScalarArray m, k, tau, R;
    VectorArray p, v;
    size_t number() const { return n; }
    ScalarArray const& mass() const { return m; }
    VectorArray const& pos() const { return p; }
    VectorArray const& vel() const { return v; }
    ScalarArray const& tide_apsidal_const() const { return k; }
    ScalarArray const& tide_lag_time() const { return tau; }
    ScalarArray const& radius() const { return R; }
};
struct Direct : Base {};
struct Chained : Base {
    VectorArray cp, cv;
    IdxArray idx;
    VectorArray const& chain_pos() const { return cp; }
    VectorArray const& chain_vel() const { return cv; }
    IdxArray const& index() const { return idx; }
};
// thin: masses and the x-components are symbolic, the other components are fixed generic rationals (keeps quartic terms small)
static bool onlyMass = false;
static V3 thinV(const char* p, int i, int salt) {
    return V3(onlyMass ? ((i * 3 + salt * 5) % 13) / 2.0 + i : sym_real((nm(p, i) + "x").c_str(), -2, 2), ((i * 7 + salt * 3) % 11) / 4.0 - 1.125, ((i * 5 + salt) % 7) / 4.0 - 0.625);
}
static void fill(Base& s, int n, bool vel, bool tide, bool thin = false) {
    s.n = n;
    for (int i = 0; i < n; i++) {
        s.m.push_back(sym_pos(nm("m", i).c_str(), 0.1, 3));
        s.p.push_back(thin ? thinV("p", i, 1) : symV(nm("p", i)));
        s.v.push_back(!vel ? V3(0, 0, 0) : thin ? thinV("v", i, 2) : symV(nm("v", i)));
        if (tide) {
            s.k.push_back(sym_choose(nm("tidal", i).c_str(), 2) ? sym_pos(nm("k", i).c_str(), 0.1, 2) : 0.0);
            s.tau.push_back(sym_real(nm("tau", i).c_str(), 0, 2));
            s.R.push_back(sym_pos(nm("R", i).c_str(), 0.1, 2));
        }
    }
}
// any ordering of the particles along the chain; consecutive differences are the chain coordinates
static void link(Chained& s, bool few = false) {
    int n = s.n;
    if (few) {   // identity, reversed, evens downwards then odds upwards
        long c = sym_choose("order", 3);
        for (int i = 0; i < n; i++) s.idx.push_back(c == 0 ? i : c == 1 ? n - 1 - i : 0);
        if (c == 2) { int k = 0; for (int i = (n - 1) / 2 * 2; i >= 0; i -= 2) s.idx[k++] = i; for (int i = 1; i < n; i += 2) s.idx[k++] = i; }
    }
    std::vector<int> left(n);
    for (int i = 0; i < n; i++) left[i] = i;
    for (int i = 0; i < n && !few; i++) {
        int c = (int)sym_choose(nm("slot", i).c_str(), (long)left.size());
        s.idx.push_back(left[c]);
        left.erase(left.begin() + c);
    }
    for (int i = 0; i + 1 < n; i++) {
        auto a = s.idx[i], b = s.idx[i + 1];
        s.cp.push_back(V3(s.p[b].x - s.p[a].x, s.p[b].y - s.p[a].y, s.p[b].z - s.p[a].z));
        s.cv.push_back(V3(s.v[b].x - s.v[a].x, s.v[b].y - s.v[a].y, s.v[b].z - s.v[a].z));
    }
    s.cp.push_back(V3(0, 0, 0));
    s.cv.push_back(V3(0, 0, 0));
}
static double dt(V3 const& a, V3 const& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3 lin(double a, V3 const& x, double b, V3 const& y) { return V3(a * x.x + b * y.x, a * x.y + b * y.y, a * x.z + b * y.z); }
// acceleration of body 1 due to body 2 (textbook form, n = (x1-x2)/r, v = v1-v2, G = 1)
struct PairCtx { double r, r2; V3 n, d, v; };
static PairCtx ctx(Base const& s, int a, int b) {
    PairCtx c;
    c.d = lin(1, s.p[a], -1, s.p[b]);
    c.v = lin(1, s.v[a], -1, s.v[b]);
    c.r2 = dt(c.d, c.d);
    c.r = std::sqrt(c.r2);
    c.n = V3(c.d.x / c.r, c.d.y / c.r, c.d.z / c.r);
    return c;
}
static const double c1 = 1.0 / consts::C, c2 = c1 * c1, c4 = c2 * c2, c5 = c4 * c1;
static V3 lawN(Base const& s, int a, int b) {
    auto c = ctx(s, a, b);
    return lin(-s.m[b] / (c.r * c.r2), c.d, 0, c.d);
}
static V3 law1(Base const& s, int a, int b) {
    auto c = ctx(s, a, b);
    V3 const &v1 = s.v[a], &v2 = s.v[b];
    double m1 = s.m[a], m2 = s.m[b], nv1 = dt(c.n, v1), nv2 = dt(c.n, v2);
    double A = 5 * m1 * m2 / (c.r * c.r2) + 4 * m2 * m2 / (c.r * c.r2) + m2 / c.r2 * (1.5 * nv2 * nv2 - dt(v1, v1) + 4 * dt(v1, v2) - 2 * dt(v2, v2));
    double B = m2 / c.r2 * (4 * nv1 - 3 * nv2);
    return lin(c2 * A, c.n, c2 * B, c.v);
}
static V3 law2(Base const& s, int a, int b) {
    auto c = ctx(s, a, b);
    V3 const &v1 = s.v[a], &v2 = s.v[b];
    double m1 = s.m[a], m2 = s.m[b], x = dt(c.n, v1), y = dt(c.n, v2), s1 = dt(v1, v1), s2 = dt(v2, v2), s12 = dt(v1, v2);
    double r4 = c.r2 * c.r2, r3 = c.r2 * c.r;
    double A = -57. / 4 * m1 * m1 * m2 / r4 - 69. / 2 * m1 * m2 * m2 / r4 - 9 * m2 * m2 * m2 / r4 +
               m2 / c.r2 * (-15. / 8 * y * y * y * y + 1.5 * y * y * s1 - 6 * y * y * s12 - 2 * s12 * s12 + 4.5 * y * y * s2 + 4 * s12 * s2 - 2 * s2 * s2) +
               m1 * m2 / r3 * (39. / 2 * x * x - 39 * x * y + 17. / 2 * y * y - 15. / 4 * s1 - 2.5 * s12 + 1.25 * s2) +
               m2 * m2 / r3 * (2 * x * x - 4 * x * y - 6 * y * y - 8 * s12 + 4 * s2);
    double B = m2 * m2 / r3 * (-2 * x - 2 * y) + m1 * m2 / r3 * (-63. / 4 * x + 55. / 4 * y) +
               m2 / c.r2 * (-6 * x * y * y + 4.5 * y * y * y + y * s1 - 4 * x * s12 + 4 * y * s12 + 4 * x * s2 - 5 * y * s2);
    return lin(c4 * A, c.n, c4 * B, c.v);
}
static V3 law25(Base const& s, int a, int b) {
    auto c = ctx(s, a, b);
    double m1 = s.m[a], m2 = s.m[b], nv = dt(c.n, c.v), vv = dt(c.v, c.v), r3 = c.r2 * c.r;
    double k = 0.8 * m1 * m2 / r3;
    double A = k * nv * (3 * vv - 6 * m1 / c.r + 52. / 3 * m2 / c.r), B = k * (-vv + 2 * m1 / c.r - 8 * m2 / c.r);
    return lin(c5 * A, c.n, c5 * B, c.v);
}
static V3 lawT(Base const& s, int a, int b) {
    auto c = ctx(s, a, b);
    double r4 = c.r2 * c.r2, r8 = r4 * r4, rv = dt(c.d, c.v) / c.r2, f = 0;
    auto R5 = [&](int i) { return s.R[i] * s.R[i] * s.R[i] * s.R[i] * s.R[i]; };
    f += 3 * s.k[a] * R5(a) * s.m[b] * s.m[b] * (1 + 3 * s.tau[a] * rv);
    f += 3 * s.k[b] * R5(b) * s.m[a] * s.m[a] * (1 + 3 * s.tau[b] * rv);
    return lin(-f / (r8 * s.m[a]), c.d, 0, c.d);
}
template <typename F, typename L>
static void direct(int n, bool vel, bool tide, L law, const char* tag, double sc, bool thin = false) {
    Direct s;
    fill(s, n, vel, tide, thin);
    Base::VectorArray acc(n);
    for (int i = 0; i < n; i++) acc[i] = V3(0.5 * sc, -0.25 * sc, i * sc);  // add_acc_to accumulates on top of what is there
    F::add_acc_to(s, acc);
    for (int i = 0; i < n; i++) {
        V3 e(0.5 * sc, -0.25 * sc, i * sc);
        for (int j = 0; j < n; j++)
            if (j != i) e = lin(1, e, 1, law(s, i, j));
        eqV(lin(1 / sc, acc[i], 0, e), lin(1 / sc, e, 0, e), tag);
    }
}
template <typename F, typename L>
static void chained(int n, bool vel, bool tide, L law, const char* tag, double sc, bool thin = false, bool few = false) {
    Chained s;
    fill(s, n, vel, tide, thin);
    link(s, few);
    Base::VectorArray acc(n);
    for (int i = 0; i < n; i++) acc[i] = V3(0.5 * sc, -0.25 * sc, i * sc);
    F::add_acc_to(s, acc);
    for (int i = 0; i < n; i++) {
        V3 e(0.5 * sc, -0.25 * sc, i * sc);
        for (int j = 0; j < n; j++)
            if (j != i) e = lin(1, e, 1, law(s, i, j));
        eqV(lin(1 / sc, acc[i], 0, e), lin(1 / sc, e, 0, e), tag);
    }
}
template <typename F>
static void newton3(int n, bool vel, bool tide, bool torque) {  // total momentum / angular momentum are not changed by mutual forces
    Direct s;
    fill(s, n, vel, tide);
    Base::VectorArray acc(n);
    F::add_acc_to(s, acc);
    V3 P(0, 0, 0), T(0, 0, 0);
    for (int i = 0; i < n; i++) {
        P = lin(1, P, s.m[i], acc[i]);
        T.x += s.m[i] * (s.p[i].y * acc[i].z - s.p[i].z * acc[i].y);
        T.y += s.m[i] * (s.p[i].z * acc[i].x - s.p[i].x * acc[i].z);
        T.z += s.m[i] * (s.p[i].x * acc[i].y - s.p[i].y * acc[i].x);
    }
    eqV(P, V3(0, 0, 0), "net-force-zero");
    if (torque) eqV(T, V3(0, 0, 0), "net-torque-zero");
}
#define ENT(name, F, law, vel, tide, sc)                                             \
    extern "C" void name##_d2() { direct<F>(2, vel, tide, law, #name "-pair", sc); } \
    extern "C" void name##_d3() { direct<F>(3, vel, tide, law, #name "-sum", sc); }  \
    extern "C" void name##_d4() { direct<F>(4, vel, tide, law, #name "-sum", sc); }  \
    extern "C" void name##_c2() { chained<F>(2, vel, tide, law, #name "-chain", sc); } \
    extern "C" void name##_c3() { chained<F>(3, vel, tide, law, #name "-chain", sc); } \
    extern "C" void name##_c4() { chained<F>(4, vel, tide, law, #name "-chain", sc); } \
    extern "C" void name##_f5() { chained<F>(5, vel, tide, law, #name "-chain", sc, false, true); } \
    extern "C" void name##_f6() { chained<F>(6, vel, tide, law, #name "-chain", sc, false, true); } \
    extern "C" void name##_t5() { chained<F>(5, vel, tide, law, #name "-chain", sc, true, true); } \
    extern "C" void name##_t6() { chained<F>(6, vel, tide, law, #name "-chain", sc, true, true); } \
    extern "C" void name##_m5() { onlyMass = true; chained<F>(5, vel, tide, law, #name "-chain", sc, true, true); } \
    extern "C" void name##_m7() { onlyMass = true; chained<F>(7, vel, tide, law, #name "-chain", sc, true, true); } \
    extern "C" void name##_c5() { chained<F>(5, vel, tide, law, #name "-chain", sc); }
ENT(newton, force::NewtonianGrav, lawN, false, false, 1)
ENT(pn1, force::PN1, law1, true, false, c2)
ENT(pn2, force::PN2, law2, true, false, c4)
ENT(pn25, force::PN2p5, law25, true, false, c5)
ENT(tide, force::Tidal, lawT, true, true, 1)
extern "C" void newton_d5() { direct<force::NewtonianGrav>(5, false, false, lawN, "newton-sum", 1); }
extern "C" void newton_c1() { chained<force::NewtonianGrav>(1, false, false, lawN, "newton-chain", 1); }
extern "C" void newton_mom3() { newton3<force::NewtonianGrav>(3, false, false, true); }
extern "C" void tide_mom2() { newton3<force::Tidal>(2, true, true, true); }
