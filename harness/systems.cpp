// P06, P08, P09, P10: particle systems. State vectors, drift/kick, collected increments, general derivative, regularisation.
#include "common.h"
using system::ReguType;
using Arr = DT::StateScalarArray;
using VA = std::vector<V3>;
static V3 lin(double a, V3 const& x, double b, V3 const& y) { return V3(a * x.x + b * y.x, a * x.y + b * y.y, a * x.z + b * y.z); }
static double dt3(V3 const& a, V3 const& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
// arbitrary forces: an unknown constant per body plus an unknown multiple of the velocity (velocity dependent) or position (otherwise)
template <int K, bool VD>
struct Fake {
    constexpr static bool vel_dependent{VD};
    static inline V3 val[4] = {V3(0, 0, 0), V3(0, 0, 0), V3(0, 0, 0), V3(0, 0, 0)};
    static inline double k = 0;
    static void init(size_t n) {
        for (size_t i = 0; i < n; i++) val[i] = symV("f" + std::to_string(K) + "_" + std::to_string(i));
        k = sym_real(("k" + std::to_string(K)).c_str(), -1, 1);
    }
    static V3 law(size_t i, V3 const& p, V3 const& v) { return lin(1, val[i], k, VD ? v : p); }
    // the same law evaluated through the link (chain) coordinates of the system for one half of the linear part: real forces read both
    template <typename P>
    static auto links(P const& p, int) -> std::enable_if_t<(sizeof(p.chain_pos()) > 0), VA> {
        VA r(p.number(), V3(0, 0, 0));
        auto const& id = p.index();
        size_t n = p.number();
        auto get = [&](size_t i) { if (VD) return V3(p.chain_vel()[i].x, p.chain_vel()[i].y, p.chain_vel()[i].z); return V3(p.chain_pos()[i].x, p.chain_pos()[i].y, p.chain_pos()[i].z); };
        r[id[0]] = get(n - 1);
        for (size_t i = 1; i < n; i++) r[id[i]] = lin(1, r[id[i - 1]], 1, get(i - 1));
        return r;
    }
    template <typename P>
    static VA links(P const& p, long) { VA r; for (size_t i = 0; i < p.number(); i++) r.push_back(VD ? V3(p.vel(i).x, p.vel(i).y, p.vel(i).z) : V3(p.pos(i).x, p.pos(i).y, p.pos(i).z)); return r; }
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        VA q = links(p, 0);
        for (size_t i = 0; i < p.number(); i++) {
            V3 mid = VD ? lin(0.25, V3(p.vel(i).x, p.vel(i).y, p.vel(i).z), 0.75, q[i]) : lin(0.25, V3(p.pos(i).x, p.pos(i).y, p.pos(i).z), 0.75, q[i]);
            auto l = lin(1, val[i], k, mid);
            a[i].x += l.x; a[i].y += l.y; a[i].z += l.z;
        }
    }
};
using FN = Fake<0, false>;
using FI = Fake<1, false>;
using FD = Fake<2, true>;
using I0 = force::Interactions<FN>;
using II = force::Interactions<FN, FI>;
using ID = force::Interactions<FN, FD>;
using IB = force::Interactions<FN, FI, FD>;
template <typename S, typename = void> struct RT { static constexpr bool regu = false; static constexpr ReguType type = ReguType::None; };
template <typename S> struct RT<S, std::void_t<decltype(S::regu_type)>> { static constexpr bool regu = true; static constexpr ReguType type = S::regu_type; };
template <typename S, typename = void> struct CH { static constexpr bool v = false; };
template <typename S> struct CH<S, std::void_t<decltype(std::declval<S&>().chain_pos())>> { static constexpr bool v = true; };
// a state as the user sees it
struct St { double t = 0, om = 0, be = 0; VA p, v, w; };
template <typename S>
static size_t len(size_t n) { return 1 + 3 * n * (S::ext_vel_dep ? 3 : 2) + (RT<S>::regu ? 2 : 0); }
template <typename S>
static V3 at(Arr const& y, size_t n, int block, size_t i) { size_t o = 1 + 3 * n * block + 3 * i; return V3(y[o], y[o + 1], y[o + 2]); }
template <typename S>
static VA block(S const& s, Arr const& y, int b) {
    size_t n = s.number();
    VA r(n, V3(0, 0, 0));
    if constexpr (CH<S>::v) {
        auto const& id = s.index();
        r[id[0]] = at<S>(y, n, b, n - 1);
        for (size_t i = 1; i < n; i++) r[id[i]] = lin(1, r[id[i - 1]], 1, at<S>(y, n, b, i - 1));
    } else for (size_t i = 0; i < n; i++) r[i] = at<S>(y, n, b, i);
    return r;
}
template <typename S>
static St decode(S const& s, Arr const& y) {
    St a;
    a.t = y[0]; a.p = block(s, y, 0); a.v = block(s, y, 1);
    if (S::ext_vel_dep) a.w = block(s, y, 2);
    if (RT<S>::regu) { a.om = y[y.size() - 2]; a.be = y[y.size() - 1]; }
    return a;
}
template <typename S>
static S make(size_t n, std::vector<double>& m) {
    // concrete starting layout (fixes the chain ordering, all orderings are tried); everything else is overwritten with symbolic data
    std::vector<Pt> ps;
    std::vector<int> left(n), where(n);
    for (size_t i = 0; i < n; i++) left[i] = i;
    double x[4] = {0, 1, 2.5, 4.75};
    std::vector<double> px(n);
    for (size_t i = 0; i < n; i++) {
        int c = CH<S>::v ? (int)sym_choose(nm("slot", i).c_str(), (long)left.size()) : 0;
        px[left[c]] = x[i];
        left.erase(left.begin() + c);
    }
    for (size_t i = 0; i < n; i++) {
        m.push_back(sym_pos(nm("m", i).c_str(), 0.1, 3));
        ps.emplace_back(Pt(m[i], V3(px[i], 0.25, -0.5), V3(0, px[i], 1)));
    }
    return S(0.5, ps);
}
template <typename S>
static Arr symState(size_t n) {
    Arr y;
    for (size_t i = 0; i < len<S>(n); i++) {
        bool tail = RT<S>::regu && i + 2 >= len<S>(n);
        y.emplace_back(tail ? sym_pos(nm("y", i).c_str(), 1, 9) : sym_real(nm("y", i).c_str(), -2, 2));
    }
    return y;
}
template <typename S>
static void cmpState(S& s, St const& e, const char* l) {
    size_t n = s.number();
    sym_assert_eq(s.time(), e.t, l);
    for (size_t i = 0; i < n; i++) { eqV(s.pos(i), e.p[i], l); eqV(s.vel(i), e.v[i], l); }
    Arr y; s.write_to_scalar_array(y);
    sym_assert(y.size() == len<S>(n) && y.size() == s.variable_number(), "state-vector-length");
    if (y.size() != len<S>(n)) return;
    St b = decode(s, y);
    sym_assert_eq(b.t, e.t, l);
    for (size_t i = 0; i < n; i++) { eqV(b.p[i], e.p[i], l); eqV(b.v[i], e.v[i], l); if (S::ext_vel_dep) eqV(b.w[i], e.w[i], l); }
    if constexpr (RT<S>::regu) {
        sym_assert_eq(b.om, e.om, l); sym_assert_eq(b.be, e.be, l);
        sym_assert_eq(s.omega(), e.om, l); sym_assert_eq(s.bindE(), e.be, l);
    }
}
// ---- P06 ------------------------------------------------------------------------------------------------------------
template <typename S>
static void roundtrip(size_t n) {
    std::vector<double> m;
    S s = make<S>(n, m);
    Arr y = symState<S>(n), z;
    sym_assert(s.variable_number() == len<S>(n), "state-vector-length");
    s.read_from_scalar_array(y);
    s.write_to_scalar_array(z);
    s.write_to_scalar_array(z);          // into a vector that was used before
    sym_assert(z.size() == y.size(), "state-vector-length");
    for (size_t i = 0; i < y.size(); i++) sym_assert_eq(z[i], y[i], "read-then-write");
    cmpState(s, decode(s, y), "state-vector-layout");
    sym_assert(s.number() == n, "number-of-bodies");
    for (size_t i = 0; i < n; i++) sym_assert_eq(s.mass(i), m[i], "mass-untouched");
    sym_assert(s.increment().size() == len<S>(n), "increment-length");
}
template <typename S>
static void fresh(size_t n) {   // a new system: Cartesian data as given, time as given, auxiliary velocity = velocity, omega and binding energy from the particles
    std::vector<Pt> ps;
    double t0 = sym_real("t0", -2, 2);
    for (size_t i = 0; i < n; i++) ps.emplace_back(Pt(sym_pos(nm("m", i).c_str(), 0.1, 3), V3(sym_pos(nm("x", i).c_str(), 0.1, 2), 0.25, 0.125 * i), symV(nm("v", i))));
    for (size_t i = 1; i < n; i++) sym_assume(ps[i].pos.x > ps[i - 1].pos.x);
    S s(t0, ps);
    St e; e.t = t0;
    double T = 0, U = 0;
    for (size_t i = 0; i < n; i++) {
        e.p.push_back(ps[i].pos); e.v.push_back(ps[i].vel); e.w.push_back(ps[i].vel);
        T += ps[i].mass * dt3(ps[i].vel, ps[i].vel) / 2;
        for (size_t j = 0; j < i; j++) { V3 d = lin(1, ps[i].pos, -1, ps[j].pos); U += ps[i].mass * ps[j].mass / std::sqrt(dt3(d, d)); }
    }
    e.om = U; e.be = U - T;
    cmpState(s, e, "new-system");
    if constexpr (RT<S>::regu) sym_assert_eq(s.step_scale(), RT<S>::type == ReguType::None ? 1 : U, "step-scale");
    else sym_assert_eq(s.step_scale(), 1, "step-scale");
    for (size_t i = 0; i < s.increment().size(); i++) sym_assert_eq(s.increment()[i], 0, "increment-starts-at-zero");
    if constexpr (CH<S>::v) {            // the first ordering is the one of the positions
        DT::IdxArray want(n);
        DT::StateVectorArray q;
        for (auto& p : ps) q.emplace_back(p.pos);
        Chain::calc_chain_index(q, want);
        sym_assert(want == s.index(), "new-chain-order");
    }
}
template <typename S>
static void wrongsize(size_t n) {
    std::vector<double> m;
    S s = make<S>(n, m);
    long k = sym_choose("len", (long)len<S>(n) + 3);
    if (k == (long)len<S>(n)) return;
    Arr y;
    for (long i = 0; i < k; i++) y.emplace_back(0.0);
    sym_expect_abort(1);
    sym_reach("wrong-size");
    s.read_from_scalar_array(y);
    sym_fail("wrong-length-accepted");
}
// ---- P08 / P10 --------------------------------------------------------------------------------------------------------
static double kin(std::vector<double> const& m, VA const& v) { double t = 0; for (size_t i = 0; i < m.size(); i++) t += m[i] * dt3(v[i], v[i]) / 2; return t; }
static double pot(std::vector<double> const& m, VA const& p) {
    double u = 0;
    for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < i; j++) { V3 d = lin(1, p[i], -1, p[j]); u += m[i] * m[j] / std::sqrt(dt3(d, d)); }
    return u;   // = -U > 0
}
template <typename S>
static double refDrift(St& a, std::vector<double> const& m, double h) {
    double t = h;
    if (RT<S>::regu && RT<S>::type == ReguType::LogH) t = h / (a.be + kin(m, a.v));
    if (RT<S>::regu && RT<S>::type == ReguType::TTL) t = h / a.om;
    a.t += t;
    for (size_t i = 0; i < m.size(); i++) a.p[i] = lin(1, a.p[i], t, a.v[i]);
    return t;
}
template <typename S>
static V3 extra(size_t i, V3 const& p, V3 const& v) {
    V3 a(0, 0, 0);
    if (S::Interaction::ext_vel_indep) a = lin(1, a, 1, FI::law(i, p, v));
    if (S::Interaction::ext_vel_dep) a = lin(1, a, 1, FD::law(i, p, v));
    return a;
}
template <typename S>
static double refKick(St& a, std::vector<double> const& m, double h) {
    size_t n = m.size();
    double t = h;
    if (RT<S>::regu && RT<S>::type != ReguType::None) t = h / pot(m, a.p);
    VA N, E; double dom = 0, dbe = 0;
    for (size_t i = 0; i < n; i++) N.push_back(FN::law(i, a.p[i], a.v[i]));
    if (S::ext_vel_dep) {   // half kick of the velocity with the auxiliary velocity in the force, kick of the auxiliary velocity, half kick
        for (size_t i = 0; i < n; i++) a.v[i] = lin(1, a.v[i], t / 2, lin(1, N[i], 1, extra<S>(i, a.p[i], a.w[i])));
        for (size_t i = 0; i < n; i++) {
            V3 x = extra<S>(i, a.p[i], a.v[i]);
            a.w[i] = lin(1, a.w[i], t, lin(1, N[i], 1, x));
            dom += m[i] * dt3(a.v[i], N[i]) * t;
            dbe -= m[i] * dt3(a.v[i], x) * t;
        }
        for (size_t i = 0; i < n; i++) a.v[i] = lin(1, a.v[i], t / 2, lin(1, N[i], 1, extra<S>(i, a.p[i], a.w[i])));
    } else {
        for (size_t i = 0; i < n; i++) {
            V3 x = extra<S>(i, a.p[i], a.v[i]), u = lin(1, a.v[i], t, lin(1, N[i], 1, x)), mid = lin(0.5, a.v[i], 0.5, u);
            dom += m[i] * dt3(mid, N[i]) * t;    // work along the exact (straight) velocity segment
            dbe -= m[i] * dt3(mid, x) * t;
            a.v[i] = u;
        }
    }
    if (RT<S>::type == ReguType::TTL && RT<S>::regu) a.om += dom;
    if (RT<S>::type == ReguType::LogH && RT<S>::regu) a.be += dbe;
    return t;
}
template <typename S>
static void initF(size_t n) { FN::init(n); FI::init(n); FD::init(n); }
template <typename S>
static void step(size_t n, int mode) {
    std::vector<double> m;
    S s = make<S>(n, m);
    initF<S>(n);
    Arr y = symState<S>(n);
    s.read_from_scalar_array(y);
    double h = sym_real("h", 0.01, 1);
    St e = decode(s, y);
    bool collect = true;
    s.collect_increment(true);
    if (mode == 0) { s.drift(h); refDrift<S>(e, m, h); cmpState(s, e, "drift"); }
    else if (mode == 1) { s.kick(h); refKick<S>(e, m, h); cmpState(s, e, "kick"); }
    else {
        double g = sym_real("g", 0.01, 1);
        s.drift(h); refDrift<S>(e, m, h);
        s.kick(g); refKick<S>(e, m, g);
        cmpState(s, e, "drift-kick");
    }
    // collected increments are exactly what changed
    Arr z; s.write_to_scalar_array(z);
    auto const& inc = s.increment();
    for (size_t i = 0; i < z.size() && collect; i++) {
        bool base = CH<S>::v && i >= 1 && i < 1 + 3 * n * (S::ext_vel_dep ? 3 : 2);
        (void)base;
        sym_assert_eq(inc[i], z[i] - y[i], "collected-increment");
    }
    Arr keep;
    for (size_t i = 0; i < inc.size(); i++) keep.emplace_back(inc[i]);
    s.collect_increment(false);
    s.read_from_scalar_array(y);   // (the increments are not part of the state vector)
    if (mode != 1) s.drift(h);
    if (mode != 0) s.kick(h);
    for (size_t i = 0; i < keep.size(); i++) sym_assert_eq(s.increment()[i], keep[i], "collection-off");
    s.clear_increment();
    for (size_t i = 0; i < keep.size(); i++) sym_assert_eq(s.increment()[i], 0, "increment-cleared");
}
template <typename S>
static void pre(size_t n) {   // before a macro step the auxiliary velocity is synchronised; positions, velocities, time stay
    std::vector<double> m;
    S s = make<S>(n, m);
    Arr y = symState<S>(n);
    s.read_from_scalar_array(y);
    St e = decode(s, y);
    s.pre_iter_process();
    e.w = e.v;
    cmpState(s, e, "pre-step");
}
// after a macro step chain systems may re-order their chain: the physical state is unchanged
template <typename S>
static void post(size_t n) {
    std::vector<double> m;
    S s = make<S>(n, m);
    Arr y;
    // the new positions: any ordering along a line, so that every re-chaining from every old chain is reached
    double x[4] = {0, 1, 2.5, 4.75};
    std::vector<int> left(n);
    VA np(n, V3(0, 0, 0));
    for (size_t i = 0; i < n; i++) left[i] = i;
    for (size_t i = 0; i < n; i++) { int c = (int)sym_choose(nm("new", i).c_str(), (long)left.size()); np[left[c]] = V3(x[i], 0.5, -1); left.erase(left.begin() + c); }
    double o = sym_real("o", -1, 1);
    for (auto& p : np) { p.x += o; p.y -= o; }
    VA nv; for (size_t i = 0; i < n; i++) nv.push_back(symV(nm("v", i)));
    auto const& id = s.index();
    y.emplace_back(sym_real("t", -1, 1));
    auto put = [&](VA const& q) { for (size_t i = 0; i + 1 < n; i++) { V3 d = lin(1, q[id[i + 1]], -1, q[id[i]]); y.emplace_back(d.x); y.emplace_back(d.y); y.emplace_back(d.z); } V3 b = q[id[0]]; y.emplace_back(b.x); y.emplace_back(b.y); y.emplace_back(b.z); };
    put(np); put(nv);
    if (S::ext_vel_dep) put(nv);
    if (RT<S>::regu) { y.emplace_back(sym_pos("om", 1, 2)); y.emplace_back(sym_pos("be", 1, 2)); }
    s.read_from_scalar_array(y);
    s.post_iter_process();
    for (size_t i = 0; i < n; i++) { eqV(s.pos(i), np[i], "post-step-state"); eqV(s.vel(i), nv[i], "post-step-state"); sym_assert_eq(s.mass(i), m[i], "post-step-state"); }
    sym_assert_eq(s.time(), y[0], "post-step-state");
    if constexpr (RT<S>::regu) { sym_assert_eq(s.omega(), y[y.size() - 2], "post-step-state"); sym_assert_eq(s.bindE(), y[y.size() - 1], "post-step-state"); }
    // chain coordinates are consistent with the (new) ordering and the ordering is a shortest-link chain for these positions
    s.pre_iter_process();
    Arr z; s.write_to_scalar_array(z);
    St b = decode(s, z);
    for (size_t i = 0; i < n; i++) { eqV(b.p[i], np[i], "post-step-chain"); eqV(b.v[i], nv[i], "post-step-chain"); if (S::ext_vel_dep) eqV(b.w[i], nv[i], "post-step-chain"); }
    DT::IdxArray want(n);
    { DT::StateVectorArray q; for (auto& p : np) q.emplace_back(p); Chain::calc_chain_index(q, want); }
    bool same = want == s.index();
    sym_assert(same, "post-step-ordering");
}
// ---- P09 ---------------------------------------------------------------------------------------------------------------
// The general derivative is the infinitesimal step: d/dh of (drift by h, kick by h) at h = 0, auxiliary velocity synchronised.
template <typename S>
static void deriv(size_t n) {
    std::vector<double> m;
    S s = make<S>(n, m);
    initF<S>(n);
    Arr y = symState<S>(n), dy, z;
    s.read_from_scalar_array(y);
    s.pre_iter_process();
    St e = decode(s, y);
    // on the physical trajectory the two time transformations agree; derivative entries use each side's own scale
    double sp = 1, sv = 1;
    if (RT<S>::type == ReguType::LogH && RT<S>::regu) { sp = 1 / (e.be + kin(m, e.v)); sv = 1 / pot(m, e.p); }
    if (RT<S>::type == ReguType::TTL && RT<S>::regu) { sp = 1 / e.om; sv = 1 / pot(m, e.p); }
    for (size_t i = 0; i < 5; i++) dy.emplace_back(7);   // a vector that was used before
    s.evaluate_general_derivative(dy);
    sym_assert(dy.size() == len<S>(n), "derivative-length");
    if (dy.size() != len<S>(n)) return;
    VA dp = block(s, dy, 0), dv = block(s, dy, 1), dw;
    if (S::ext_vel_dep) dw = block(s, dy, 2);
    sym_assert_eq(dy[0], sp, "time-rate");
    double dom = 0, dbe = 0;
    for (size_t i = 0; i < n; i++) {
        V3 N = FN::law(i, e.p[i], e.v[i]), x = extra<S>(i, e.p[i], e.v[i]), a = lin(1, N, 1, x);
        eqV(dp[i], lin(sp, e.v[i], 0, a), "position-rate");
        eqV(dv[i], lin(sv, a, 0, a), "velocity-rate");
        if (S::ext_vel_dep) eqV(dw[i], lin(sv, a, 0, a), "auxiliary-velocity-rate");
        dom += m[i] * dt3(e.v[i], N) * sv;
        dbe -= m[i] * dt3(e.v[i], x) * sv;
    }
    if constexpr (RT<S>::regu) {
        sym_assert_eq(dy[dy.size() - 2], RT<S>::type == ReguType::TTL ? dom : 0, "omega-rate");
        sym_assert_eq(dy[dy.size() - 1], RT<S>::type == ReguType::LogH ? dbe : 0, "binding-energy-rate");
    }
    s.write_to_scalar_array(z);
    for (size_t i = 0; i < y.size(); i++) if (!S::ext_vel_dep || i < 1 + 6 * n) sym_assert_eq(z[i], y[i], "state-untouched");
    // acceleration accessor
    DT::VectorArray acc(n);
    s.evaluate_acc(acc);
    for (size_t i = 0; i < n; i++) eqV(acc[i], lin(1, FN::law(i, e.p[i], e.v[i]), 1, extra<S>(i, e.p[i], e.v[i])), "acceleration");
}
#ifndef SEL
#define SEL 0
#endif
#if SEL == 6
#define SYS(nm_, T) \
    extern "C" void nm_##_rt2() { roundtrip<T>(2); } extern "C" void nm_##_rt3() { roundtrip<T>(3); } extern "C" void nm_##_rt4() { roundtrip<T>(4); } \
    extern "C" void nm_##_new() { fresh<T>(3); } extern "C" void nm_##_len() { wrongsize<T>(2); } extern "C" void nm_##_pre() { pre<T>(3); }
#define POST(nm_, T) extern "C" void nm_##_post3() { post<T>(3); } extern "C" void nm_##_post4() { post<T>(4); }
#elif SEL == 8
#define SYS(nm_, T) \
    extern "C" void nm_##_dr2() { step<T>(2, 0); } extern "C" void nm_##_dr3() { step<T>(3, 0); } extern "C" void nm_##_dr4() { step<T>(4, 0); } \
    extern "C" void nm_##_ki2() { step<T>(2, 1); } extern "C" void nm_##_ki3() { step<T>(3, 1); } extern "C" void nm_##_ki4() { step<T>(4, 1); } \
    extern "C" void nm_##_dk2() { step<T>(2, 2); } extern "C" void nm_##_dk3() { step<T>(3, 2); }
#define POST(nm_, T)
#else
#define SYS(nm_, T) extern "C" void nm_##_de2() { deriv<T>(2); } extern "C" void nm_##_de3() { deriv<T>(3); } extern "C" void nm_##_de4() { deriv<T>(4); }
#define POST(nm_, T)
#endif
#define ALL(tag, I)                                                         \
    using S_##tag = system::SimpleSystem<PP, I>; SYS(simple_##tag, S_##tag) \
    using C_##tag = system::ChainSystem<PP, I>; SYS(chain_##tag, C_##tag) POST(chain_##tag, C_##tag) \
    using RL_##tag = system::RegularizedSystem<PP, I, ReguType::LogH>; SYS(logh_##tag, RL_##tag) \
    using RT_##tag = system::RegularizedSystem<PP, I, ReguType::TTL>; SYS(ttl_##tag, RT_##tag) \
    using RN_##tag = system::RegularizedSystem<PP, I, ReguType::None>; SYS(none_##tag, RN_##tag) \
    using AL_##tag = system::ARchainSystem<PP, I, ReguType::LogH>; SYS(arlogh_##tag, AL_##tag) POST(arlogh_##tag, AL_##tag) \
    using AT_##tag = system::ARchainSystem<PP, I, ReguType::TTL>; SYS(arttl_##tag, AT_##tag) \
    using AN_##tag = system::ARchainSystem<PP, I, ReguType::None>; SYS(arnone_##tag, AN_##tag)
ALL(n, I0)
ALL(i, II)
ALL(d, ID)
ALL(b, IB)
