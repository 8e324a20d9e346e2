// P31: the ready-made methods are the combinations of system, integrator, step control and precision which their names say.
// FAM: 2 4 6 8 10 (symplectic), 1 (Gauss-Radau), 0 (Bulirsch-Stoer); PREC: 0 double, 1 _Plus, 2 _Ext, 3 _ExtPlus
#ifdef __clang__
#pragma clang diagnostic ignored "-Wc++11-narrowing"   // g++ accepts the narrowing of link lengths in chain.hpp
#endif
#include "common.h"
#ifndef FAM
#define FAM 4
#endif
#ifndef MZ
#define MZ 2
#endif
#ifndef PREC
#define PREC 0
#endif
static int calls, mode;                 // evaluations of the force; 0: no force, 1: unknown accelerations, 2: given numbers
static std::vector<V3> unknown;
static V3 push(int n, size_t i) {
    if (mode == 0) return V3(0, 0, 0);
    double s = i ? -1 : 1;
    if (mode == 2) { double c = s * ((n * 7 + 3) % 11 - 5) / 4096.0; return V3(c, 0.5 * c, -0.25 * c); }
    while ((int)unknown.size() <= n) { V3 q(0, 0, 0); q.x = sym_real(nm("a", (int)unknown.size()).c_str(), -1, 1); unknown.push_back(q); }
    return V3(s * unknown[n].x, s * unknown[n].y, s * unknown[n].z);
}
struct Push {                           // the acceleration of the n-th evaluation, whatever the state
    constexpr static bool vel_dependent{false};
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) {
        for (size_t i = 0; i < p.number(); i++) { V3 q = push(calls, i); a[i].x += q.x; a[i].y += q.y; a[i].z += q.z; }
        calls++;
    }
};
using F = force::Interactions<Push>;
using namespace hub::ode;
using namespace hub::integrator;
template <int P> struct Prec;
template <> struct Prec<0> { using T = Types<double, Vec3>; using E = T; using Raw = double; };
template <> struct Prec<1> { using T = Types<double_k, Vec3>; using E = Types<double, Vec3>; using Raw = double; };
template <> struct Prec<2> { using T = Types<long double, Vec3>; using E = T; using Raw = long double; };
template <> struct Prec<3> { using T = Types<long_double_k, Vec3>; using E = Types<long double, Vec3>; using Raw = long double; };
using T = Prec<PREC>::T;
using ET = Prec<PREC>::E;
using Raw = Prec<PREC>::Raw;
#if FAM == 0
using RefA = BulirschStoer<LeapFrogDKD<T>, WorstOffender<ET>, PIDController<ET>>;
#define A0 BS
#define A1 AR_BS
#define A2 Chain_BS
#define A3 AR_Chain
#else
#if FAM == 1
using Int = GaussRadau<T>;
using RefA = IAS15<Int, MaxRatioError<ET>, PIDController<ET>>;
#define BASE Radau
#else
#define CAT3(a, b, c) a##b##c
#define X3(a, b, c) CAT3(a, b, c)
#if FAM == 2
using Int = Symplectic2nd<T>;
#elif FAM == 4
using Int = Symplectic4th<T>;
#elif FAM == 6
using Int = Symplectic6th<T>;
#elif FAM == 8
using Int = Symplectic8th<T>;
#else
using Int = Symplectic10th<T>;
#endif
using RefA = SequentOdeIterator<Int, WorstOffender<ET>, PIDController<ET>>;
#if FAM == 2
#define BASE Sym2
#elif FAM == 4
#define BASE Sym4
#elif FAM == 6
#define BASE Sym6
#elif FAM == 8
#define BASE Sym8
#else
#define BASE Sym10
#endif
#endif
using RefC = ConstOdeIterator<Int>;
#define J2_(a, b) a##b
#define J2(a, b) J2_(a, b)
#define A0 BASE
#define A1 J2(AR_, BASE)
#define A2 J2(Chain_, BASE)
#define A3 J2(AR_, J2(BASE, _Chain))
#endif
#ifndef J2
#define J2_(a, b) a##b
#define J2(a, b) J2_(a, b)
#endif
#if PREC == 0
#define SUF(x) x
#elif PREC == 1
#define SUF(x) J2(x, _Plus)
#elif PREC == 2
#define SUF(x) J2(x, _Ext)
#else
#define SUF(x) J2(x, _ExtPlus)
#endif
template <typename X, typename = void> struct Comp { static constexpr bool v = false; using R = X; };
template <typename X> struct Comp<X, std::void_t<decltype(std::declval<X&>().err)>> { static constexpr bool v = true; using R = std::decay_t<decltype(std::declval<X&>().real)>; };
template <typename X> static double num(X const& x) { if constexpr (Comp<X>::v) return (double)x.real; else return (double)x; }
template <typename S, typename = void> struct Chained { static constexpr bool v = false; };
template <typename S> struct Chained<S, std::void_t<decltype(std::declval<S&>().chain_pos())>> { static constexpr bool v = true; };
struct Out { std::vector<double> y; int n = 0; double step = 0; size_t vars = 0; };
static double x0, v0, t0, h0, eps;
template <typename Sim> static Out one(int m) {
    mode = m; calls = 0;
    using P = typename Sim::Particle;
    using Sc = typename Sim::Scalar;
    using VV = std::decay_t<decltype(std::declval<P&>().pos)>;
    P a(1, VV(x0, 0.5, 0), VV(v0, 0.25, 0)), b(2, VV(-1, -0.5, 0.25), VV(0, 0.5, -0.25));
    Sim sim(t0, a, b);
    typename Sim::RunArgs args;
    Out o;

    args.step_size = h0;
    args.rtol = 1e-6;
    args.atol = 1e-9;
    args.add_stop_condition([&](auto&, auto h) { o.step = num(h); return o.n++ > 0; });
    args.add_start_point_operation([&](auto& q, auto) {

        if constexpr (PREC & 1) {   // what rounding has taken from the coordinates before
            auto& x = [&]() -> auto& { if constexpr (Chained<std::decay_t<decltype(q)>>::v) return q.chain_pos()[0].x; else return q.pos()[0].x; }();
            using X = std::decay_t<decltype(x)>;
            if constexpr (Comp<X>::v) const_cast<X&>(x).err = eps;
        }
    });
    sim.run(args);
    auto s = sim.particles();
    typename std::decay_t<decltype(s)>::StateScalarArray y;
    s.write_to_scalar_array(y);
    o.vars = y.size();
    for (auto const& q : y) o.y.push_back(num(q));
    for (size_t i = 0; i < 2; i++) { o.y.push_back(num(s.pos()[i].x)); o.y.push_back(num(s.pos()[i].y)); o.y.push_back(num(s.vel()[i].x)); }
    o.y.push_back(num(s.time()));
    o.n = calls;
    return o;
}
template <template <typename> typename PT, typename Sys, typename A, typename It> static void same(int sys, int m) {
    using R = Simulator<Sys, It>;
    using S = std::decay_t<decltype(std::declval<A&>().particles())>;
    using Sc = std::decay_t<decltype(std::declval<S&>().pos()[0].x)>;
    sym_assert(std::numeric_limits<typename Comp<Sc>::R>::digits == std::numeric_limits<Raw>::digits, "precision of the coordinates");
    sym_assert(Comp<Sc>::v == bool(PREC & 1), "plus methods carry the rounding error");
    Out a = one<A>(m), r = one<R>(m);
    sym_assert(a.vars == r.vars && a.vars == (sys & 1 ? 15u : 13u), "variables of the system");
    sym_assert(a.n == r.n, "evaluations of the force");
    sym_assert_eq(a.step, r.step, "next step");
    sym_assert(a.y.size() == r.y.size(), "variables of the system");
    for (size_t i = 0; i < a.y.size() && i < r.y.size(); i++) sym_assert_eq(a.y[i], r.y[i], "state after the step");
}
template <template <typename, typename> typename, typename> struct Nil;
static void inputs(bool free) {
    t0 = free ? sym_real("t", 0, 2) : 0.5;
    x0 = 1; v0 = 0.125; h0 = 0.0625; eps = 0;
    if (free) { x0 = sym_real("x", 1, 2); v0 = sym_real("v", -1, 1); h0 = sym_pos("h", 0.01, 0.5); }
    if ((PREC & 1) && free) eps = sym_real("eps", -0.01, 0.01);
}
template <typename TT> using PPs = particles::PointParticles<TT>;
using Ps = particles::PointParticles<T>;
using S0 = system::SimpleSystem<Ps, F>;
using S1 = system::RegularizedSystem<Ps, F>;
using S2 = system::ChainSystem<Ps, F>;
using S3 = system::ARchainSystem<Ps, F>;
#define GO(N, NAME, IT, FREE, M) same<PPs, S##N, methods::NAME<F>, IT>(N, M)
#define EACH(FREE, M, PRE, IT)                              \
    inputs(FREE);                                           \
    GO(0, SUF(J2(PRE, A0)), IT, FREE, M);                   \
    GO(1, SUF(J2(PRE, A1)), IT, FREE, M);                   \
    GO(2, SUF(J2(PRE, A2)), IT, FREE, M);                   \
    GO(3, SUF(J2(PRE, A3)), IT, FREE, M);
extern "C" void method_adaptive() { inputs(false); GO(0, SUF(A0), RefA, 0, (FAM == 10 || FAM < MZ ? 0 : 2)); GO(2, SUF(A2), RefA, 0, (FAM == 10 || FAM < MZ ? 0 : 2)); }
extern "C" void method_adaptive_regular() { inputs(false); GO(1, SUF(A1), RefA, 0, 0); GO(3, SUF(A3), RefA, 0, 0); }
#if FAM
extern "C" void method_const() {
    inputs(true);
    GO(0, SUF(J2(Const_, A0)), RefC, 1, 1); GO(2, SUF(J2(Const_, A2)), RefC, 1, 1);
}
extern "C" void method_const_regular() {
    inputs(false);
    if (PREC & 1) eps = sym_real("eps", -0.01, 0.01);
    GO(1, SUF(J2(Const_, A1)), RefC, 1, 0); GO(3, SUF(J2(Const_, A3)), RefC, 1, 0);
}
#endif
