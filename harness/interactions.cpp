// P05: composition of forces.
#include "common.h"
template <int K, bool VD>
struct Fake {   // an arbitrary force: adds an unknown (symbolic) acceleration to every body, distinct per force
    constexpr static bool vel_dependent{VD};
    static inline V3 val[4] = {V3(0, 0, 0), V3(0, 0, 0), V3(0, 0, 0), V3(0, 0, 0)};
    static inline int calls = 0;
    template <typename P>
    static void add_acc_to(P const& p, typename P::VectorArray& a) {
        calls++;
        for (size_t i = 0; i < p.number(); i++) { a[i].x += val[i].x; a[i].y += val[i].y; a[i].z += val[i].z; }
    }
    static void init(size_t n) { calls = 0; for (size_t i = 0; i < n; i++) val[i] = symV("f" + std::to_string(K) + "_" + std::to_string(i)); }
};
static void ad(PP::VectorArray& a, V3 const* v, size_t n) { for (size_t i = 0; i < n; i++) { a[i].x += v[i].x; a[i].y += v[i].y; a[i].z += v[i].z; } }
static PP::VectorArray zero(size_t n) { PP::VectorArray a(n); for (size_t i = 0; i < n; i++) a[i] = V3(0, 0, 0); return a; }
static PP::VectorArray junk(size_t n) { PP::VectorArray a(n); for (size_t i = 0; i < n; i++) a[i] = symV(nm("junk", i)); return a; }
static void cmp(PP::VectorArray const& a, PP::VectorArray const& b, const char* l) { for (size_t i = 0; i < a.size(); i++) eqV(a[i], b[i], l); }
template <typename... X>
static void compose(size_t n) {
    using I = force::Interactions<Fake<0, false>, X...>;
    auto ps = symParticles(n);
    PP s(0, ps);
    Fake<0, false>::init(n);
    (X::init(n), ...);
    auto N = zero(n), VI = zero(n), VD = zero(n), EX = zero(n), ALL = zero(n);
    ad(N, Fake<0, false>::val, n);
    ([&] { if constexpr (X::vel_dependent) ad(VD, X::val, n); else ad(VI, X::val, n); ad(EX, X::val, n); ad(ALL, X::val, n); }(), ...);
    ad(ALL, Fake<0, false>::val, n);
    constexpr bool vd = (false || ... || X::vel_dependent), vi = (false || ... || !X::vel_dependent);
    sym_assert(I::ext_vel_dep == vd, "velocity-dependent-flag");
    sym_assert(I::ext_vel_indep == vi, "velocity-independent-flag");
    auto a = junk(n);
    I::eval_acc(s, a); cmp(a, ALL, "total-acceleration");
    int one = 1; bool once = Fake<0, false>::calls == one && (true && ... && (X::calls == one));
    sym_assert(once, "every-force-once");
    a = junk(n); I::eval_newtonian_acc(s, a); cmp(a, N, "internal-acceleration");
    if (vd || vi) { a = junk(n); I::eval_extra_acc(s, a); cmp(a, EX, "extra-acceleration"); }
    if (vd) { a = junk(n); I::eval_extra_vel_dep_acc(s, a); cmp(a, VD, "extra-velocity-dependent"); }
    if (vi) { a = junk(n); I::eval_extra_vel_indep_acc(s, a); cmp(a, VI, "extra-velocity-independent"); }
    force::InteractionData<I, PP::VectorArray> d(n);
    sym_assert(d.acc().size() == n && d.newtonian_acc().size() == n && d.tot_vel_indep_acc().size() == n, "acceleration-storage-size");
    if constexpr (vd) sym_assert(d.ext_vel_dep_acc().size() == n, "acceleration-storage-size");
    if constexpr (vi) sym_assert(d.ext_vel_indep_acc().size() == n, "acceleration-storage-size");
    for (size_t i = 0; i < n; i++) { sym_assert_eq(s.mass(i), ps[i].mass, "state-untouched"); eqV(s.pos(i), ps[i].pos, "state-untouched"); eqV(s.vel(i), ps[i].vel, "state-untouched"); }
}
extern "C" void comp_none() { compose<>(2); }
extern "C" void comp_i() { compose<Fake<1, false>>(2); }
extern "C" void comp_d() { compose<Fake<1, true>>(2); }
extern "C" void comp_id() { compose<Fake<1, false>, Fake<2, true>>(3); }
extern "C" void comp_di() { compose<Fake<1, true>, Fake<2, false>>(3); }
extern "C" void comp_did() { compose<Fake<1, true>, Fake<2, false>, Fake<3, true>>(3); }
extern "C" void comp_idi() { compose<Fake<1, false>, Fake<2, true>, Fake<3, false>>(2); }
extern "C" void comp_ddii() { compose<Fake<1, true>, Fake<2, true>, Fake<3, false>, Fake<4, false>>(2); }
// real forces together: the total equals the sum of each force on its own
extern "C" void comp_real() {
    using I = force::Interactions<force::NewtonianGrav, force::PN1, force::PN2p5>;
    size_t n = 3;
    auto ps = symParticles(n);
    PP s(0, ps);
    auto a = junk(n), b = zero(n), c = zero(n), d = zero(n);
    I::eval_acc(s, a);
    force::NewtonianGrav::add_acc_to(s, b); force::PN1::add_acc_to(s, c); force::PN2p5::add_acc_to(s, d);
    for (size_t i = 0; i < n; i++) eqV(a[i], V3(b[i].x + c[i].x + d[i].x, b[i].y + c[i].y + d[i].y, b[i].z + c[i].z + d[i].z), "sum-of-real-forces");
    auto e = junk(n);
    I::eval_extra_acc(s, e);
    for (size_t i = 0; i < n; i++) eqV(e[i], V3(c[i].x + d[i].x, c[i].y + d[i].y, c[i].z + d[i].z), "sum-of-real-extra-forces");
}
