N = "src/interaction/newtonian.hpp"
PN = "src/interaction/post-newtonian.hpp"
CC = "src/core-computation.hpp"
CH = "src/particle-system/chain.hpp"
CS = "src/particle-system/chain-system.hpp"
AR = "src/particle-system/archain.hpp"
RS = "src/particle-system/regu-system.hpp"
seed("p01-near-links-large-n", "P01", [(N, "for (size_t i = 0; i < size - 2; ++i) {", "size_t const second = size > 4 ? size - 3 : size - 2;\n            for (size_t i = 0; i < second; ++i) {")],
     "chain coordinates with five or more bodies", "one next-nearest pair of the chain is skipped", r'''
int main() {
    auto ps = line({0, 1, 2.2, 3.5, 5.2});
    system::SimpleSystem<PP, force::Interactions<force::NewtonianGrav>> s(0, ps);
    system::ChainSystem<PP, force::Interactions<force::NewtonianGrav>> c(0, ps);
    PP::VectorArray a(5), b(5);
    s.evaluate_acc(a); c.evaluate_acc(b);
    for (int i = 0; i < 5; i++) near3(b[i], a[i], "chain acceleration");
    return bad;
}
''')
seed("p02-chain-potential-last-pair", "P02", [(CC, "for (size_t i = 0; i < size - 2; ++i) {", "size_t const second = size > 4 ? size - 3 : size - 2;\n            for (size_t i = 0; i < second; ++i) {")],
     "chain coordinates with five or more bodies", "the reported potential (and total) energy of a chain system lacks one next-nearest pair", r'''
int main() {
    auto ps = line({0, 2.1, 1, 3.5, 5.2});
    system::SimpleSystem<PP, force::Interactions<force::NewtonianGrav>> s(0, ps);
    system::ChainSystem<PP, force::Interactions<force::NewtonianGrav>> c(0, ps);
    near(calc::calc_potential_energy(c), calc::calc_potential_energy(s), "chain potential energy");
    return bad;
}
''')
seed("p03-pn1-far-pair", "P03", [(PN, """            auto coef = consts::G / r2 * INV_C2;

            acceleration[i] += (coef * m[j]) * (Ai * n - Bi * dv);
            acceleration[j] -= (coef * m[i]) * (Aj * n - Bj * dv);
        };

        if constexpr (HAS_METHOD(Particles, chain_pos) && HAS_METHOD(Particles, index) &&
                      HAS_METHOD(Particles, chain_vel)) {
            auto const &ch_p = particles.chain_pos();
            auto const &ch_v = particles.chain_vel();
            auto const &idx = particles.index();

            size_t size = particles.number();
            for (size_t i = 0; i < size - 1; ++i) {
                force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
            }

            for (size_t i = 0; i < size - 2; ++i) {
                force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
            }

            for (size_t i = 0; i < size; ++i) {
                for (size_t j = i + 3; j < size; ++j) {
                    force(p[idx[j]] - p[idx[i]], v[idx[j]] - v[idx[i]], idx[i], idx[j]);""",
"""            auto coef = consts::G / r2 * INV_C2;

            acceleration[i] += (coef * m[j]) * (Ai * n - Bi * dv);
            acceleration[j] -= (coef * m[i]) * (Aj * n - Bj * dv);
        };

        if constexpr (HAS_METHOD(Particles, chain_pos) && HAS_METHOD(Particles, index) &&
                      HAS_METHOD(Particles, chain_vel)) {
            auto const &ch_p = particles.chain_pos();
            auto const &ch_v = particles.chain_vel();
            auto const &idx = particles.index();

            size_t size = particles.number();
            for (size_t i = 0; i < size - 1; ++i) {
                force(ch_p[i], ch_v[i], idx[i], idx[i + 1]);
            }

            for (size_t i = 0; i < size - 2; ++i) {
                force(ch_p[i] + ch_p[i + 1], ch_v[i] + ch_v[i + 1], idx[i], idx[i + 2]);
            }

            for (size_t i = 0; i < size; ++i) {
                for (size_t j = i + 3; j < size; ++j) {
                    force(p[idx[j]] - p[idx[i]], v[j] - v[i], idx[i], idx[j]);""")],
     "chain coordinates, four or more bodies, permuted ordering, first post-Newtonian order", "far pairs use the relative velocity of other bodies in the 1PN term", r'''
int main() {
    auto ps = line({0, 3.4, 1.1, 2.1});
    system::SimpleSystem<PP, force::Interactions<force::PN1>> s(0, ps);
    system::ChainSystem<PP, force::Interactions<force::PN1>> c(0, ps);
    PP::VectorArray a(4), b(4);
    s.evaluate_acc(a); c.evaluate_acc(b);
    for (int i = 0; i < 4; i++) near3(V3(b[i] * 1e9), V3(a[i] * 1e9), "chain 1PN acceleration");
    return bad;
}
''')
seed("p03-pn2-asymmetry", "P03", [(PN, "gmr2 * (-3.75 * v2s + 1.25 * v1s - 2.5 * v12 + 19.5 * nv2s - 39 * nv1 * nv2 + 8.5 * nv1s) +", "gmr2 * (-3.75 * v2s + 1.25 * v1s - 2.5 * v12 + 19.5 * nv1s - 39 * nv1 * nv2 + 8.5 * nv2s) +")],
     "second post-Newtonian order and bodies with different radial velocities", "the 2PN term of the second body of a pair is no longer the first one with the bodies exchanged", r'''
int main() {
    std::vector<Pt> ps{Pt(1.0, V3(0, 0, 0), V3(0.3, 0.1, 0)), Pt(2.0, V3(1, 0.5, 0.2), V3(-0.4, 0.2, 0.5))}, qs{ps[1], ps[0]};
    system::SimpleSystem<PP, force::Interactions<force::PN2>> s(0, ps), q(0, qs);
    PP::VectorArray a(2), b(2);
    s.evaluate_acc(a); q.evaluate_acc(b);
    double k = 1 / std::sqrt(norm2(a[0]));
    near3(V3(b[1] * k), V3(a[0] * k), "2PN under exchange");
    k = 1 / std::sqrt(norm2(a[1]));
    near3(V3(b[0] * k), V3(a[1] * k), "2PN under exchange");
    return bad;
}
''')
TI = "src/interaction/tidal.hpp"
seed("p04-tide-lag-of-other-body", "P04", [(TI, "auto coef = 3 * consts::G * k[j] * rad5 * m[i] * m[i] * (1 + 3 * tau[j] * dot(dv, dr) / r2) / r8;", "auto coef = 3 * consts::G * k[j] * rad5 * m[i] * m[i] * (1 + 3 * tau[i] * dot(dv, dr) / r2) / r8;")],
     "two bodies with different time lags, the deformable one having the higher index", "the tide raised on the second body of a pair lags with the first body's time constant", r'''
#include "src/interaction/tidal.hpp"
int main() {
    using TP = particles::TideParticles<DT>;
    std::vector<TP::Particle> ps;
    ps.emplace_back(TP::Particle(1.0, 0.01, 0.0, 0.7, V3(0, 0, 0), V3(0, 0, 0)));
    ps.emplace_back(TP::Particle(2.0, 0.4, 0.5, 0.02, V3(1, 0.5, 0), V3(0.6, -0.3, 0.2)));
    system::SimpleSystem<TP, force::Interactions<force::Tidal>> s(0, ps);
    TP::VectorArray a(2);
    s.evaluate_acc(a);
    double r2 = 1.25, vr = 0.6 - 0.15, c = 3 * 0.5 * std::pow(0.4, 5) * (1 + 3 * 0.02 * vr / r2) / std::pow(r2, 4);
    double k = 1 / c;
    near3(V3(a[0] * k), V3(1, 0.5, 0), "tidal acceleration of the perturber");
    return bad;
}
''')
IN = "src/interaction/interaction.hpp"
seed("p05-last-independent-force", "P05", [(IN, """            if constexpr (!Arg::vel_dependent) {
                Arg::add_acc_to(particles, acceleration);
            }
            if constexpr (sizeof...(Args) > 0) {""", """            if constexpr (!Arg::vel_dependent) {
                Arg::add_acc_to(particles, acceleration);
            }
            if constexpr (sizeof...(Args) > 1 || (sizeof...(Args) > 0 && !Arg::vel_dependent)) {""")],
     "a force list which ends with a velocity-dependent force followed by a single velocity-independent one", "the last velocity-independent force is dropped when it follows a velocity-dependent one", r'''
template <int K, bool VD> struct F {
    constexpr static bool vel_dependent{VD};
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) { for (size_t i = 0; i < p.number(); i++) a[i] += V3(K, 2 * K, 0); }
};
int main() {
    using I = force::Interactions<force::NewtonianGrav, F<1, true>, F<10, false>>;
    auto ps = line({0, 1});
    PP s(0, ps);
    PP::VectorArray a(2);
    I::eval_extra_acc(s, a); near3(a[0], V3(11, 22, 0), "extra acceleration");
    I::eval_extra_vel_indep_acc(s, a); near3(a[1], V3(10, 20, 0), "velocity independent acceleration");
    return bad;
}
''')
FD = r'''
struct Drag {
    constexpr static bool vel_dependent{true};
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) { for (size_t i = 0; i < p.number(); i++) a[i] -= p.vel(i) * 0.1; }
};
struct Push {
    constexpr static bool vel_dependent{false};
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) { for (size_t i = 0; i < p.number(); i++) a[i] += V3(0.3, -0.2 * i, 0.1); }
};
'''
seed("p06-stale-aux-velocity", "P06", [(AR, """                load_to_coords(aux_vel_begin, aux_vel_end, chain_aux_vel_);
                Chain::calc_cartesian(this->mass(), chain_aux_vel_, aux_vel_, index_);""", """                load_to_coords(aux_vel_begin, aux_vel_end, chain_aux_vel_);
                Chain::calc_cartesian(this->mass(), chain_vel_, aux_vel_, index_);""")],
     "regularised chain with velocity-dependent forces and a state vector whose auxiliary velocities differ from the velocities", "loading a state vector leaves the Cartesian auxiliary velocities equal to the velocities", FD + r'''
int main() {
    auto ps = line({0, 2.1, 1});
    using S = system::ARchainSystem<PP, force::Interactions<force::NewtonianGrav, Drag>, system::ReguType::TTL>;
    S s(0, ps), t(0, ps);
    DT::StateScalarArray y;
    s.write_to_scalar_array(y);
    for (size_t i = 19; i < 28; i++) y[i] += 0.25 * (i - 17);   // auxiliary velocities only
    s.read_from_scalar_array(y);
    auto v0 = s.vel();
    s.kick(0.125);
    // the real velocities were kicked with the drag of the auxiliary ones: compare with the drag of the loaded values
    t.read_from_scalar_array(y);
    double h = 0.125 / -calc::calc_potential_energy(t);
    PP::VectorArray n(3);
    force::Interactions<force::NewtonianGrav>::eval_acc(t, n);
    std::vector<V3> w(3), v(3);
    auto const& id = t.index();
    auto at = [&](int o) { return V3(y[o], y[o + 1], y[o + 2]); };
    w[id[0]] = at(19 + 6); w[id[1]] = w[id[0]] + at(19); w[id[2]] = w[id[1]] + at(22);
    for (int i = 0; i < 3; i++) {
        v[i] = v0[i] + (n[i] - w[i] * 0.1) * (0.5 * h);
        w[i] = w[i] + (n[i] - v[i] * 0.1) * h;
        v[i] = v[i] + (n[i] - w[i] * 0.1) * (0.5 * h);
        near3(s.vel(i), v[i], "velocity after the kick");
    }
    return bad;
}
''')
seed("p08-chain-aux-not-swapped", "P08", [(CS, """        std::swap(chain_aux_vel_, chain_vel());
        Interactions::eval_extra_vel_dep_acc(*this, accels_.ext_vel_dep_acc());
        std::swap(aux_vel_, this->vel());
        std::swap(chain_aux_vel_, chain_vel());""", """        Interactions::eval_extra_vel_dep_acc(*this, accels_.ext_vel_dep_acc());
        std::swap(aux_vel_, this->vel());""")],
     "chain system with a velocity-dependent force that reads the chain velocities (post-Newtonian, tide) and auxiliary velocities which differ from the velocities", "the half kicks of the velocities evaluate chain forces with the wrong set of velocities",
     r'''
struct CF {   // a velocity-dependent force which reads the link velocity when the system has one
    constexpr static bool vel_dependent{true};
    template <typename P> static auto link(P const& p, int) -> decltype(V3(p.chain_vel()[0])) { return V3(p.chain_vel()[0] * (p.index()[0] == 0 ? 1.0 : -1.0)); }
    template <typename P> static V3 link(P const& p, long) { return V3(p.vel(1) - p.vel(0)); }
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) { V3 d = link(p, 0); a[0] += d * 0.5; a[1] -= d * 0.25; }
};
int main() {
    auto ps = line({0, 1});
    using I = force::Interactions<force::NewtonianGrav, CF>;
    system::SimpleSystem<PP, I> s(0, ps);
    system::ChainSystem<PP, I> c(0, ps);
    s.pre_iter_process(); c.pre_iter_process();
    for (int k = 0; k < 3; k++) { s.kick(0.125); c.kick(0.125); s.drift(0.125); c.drift(0.125); }
    for (int i = 0; i < 2; i++) near3(c.vel(i), s.vel(i), "velocity of the chain system");
    return bad;
}
''')
seed("p09-aux-time-rate", "P09", [(AR, """        if constexpr (Interactions::ext_vel_dep) {
            add_scaled_coords_to(dy_dh, chain_acc_, vel_regu);
        }""", """        if constexpr (Interactions::ext_vel_dep) {
            add_scaled_coords_to(dy_dh, chain_acc_, pos_regu);
        }""")],
     "regularised chain with velocity-dependent forces in a state where the two time transformations differ (off the energy surface)", "the derivative of the auxiliary velocities uses the time rate of the positions", FD + r'''
int main() {
    auto ps = line({0, 2.1, 1});
    using S = system::ARchainSystem<PP, force::Interactions<force::NewtonianGrav, Drag>, system::ReguType::LogH>;
    S s(0, ps);
    DT::StateScalarArray y, d;
    s.write_to_scalar_array(y);
    y[y.size() - 1] *= 1.5;
    s.read_from_scalar_array(y);
    s.evaluate_general_derivative(d);
    for (int i = 0; i < 9; i++) near(d[19 + i], d[10 + i], "derivative of the auxiliary velocity");
    return bad;
}
''')
seed("p10-omega-work", "P10", [(RS, """        sync_auxi_vel_increment(accels_.acc(), phy_time);
        advance_omega(this->vel(), accels_.newtonian_acc(), phy_time);""", """        sync_auxi_vel_increment(accels_.acc(), phy_time);
        advance_omega(this->vel(), accels_.tot_vel_indep_acc(), phy_time);""")],
     "time-transformed leapfrog with velocity-independent and velocity-dependent extra forces together", "the auxiliary function also collects the work of the extra velocity-independent forces", FD + r'''
int main() {
    auto ps = line({0, 2.1, 1});
    using S = system::RegularizedSystem<PP, force::Interactions<force::NewtonianGrav, Drag, Push>, system::ReguType::TTL>;
    S s(0, ps);
    s.pre_iter_process();
    PP::VectorArray n(3);
    force::Interactions<force::NewtonianGrav>::eval_acc(s, n);
    double h = 0.125 / -calc::calc_potential_energy(s), o0 = s.omega(), w = 0;
    std::vector<V3> v(3);
    for (int i = 0; i < 3; i++) { v[i] = s.vel(i) + (n[i] - s.vel(i) * 0.1 + V3(0.3, -0.2 * i, 0.1)) * (0.5 * h); w += s.mass(i) * dot(n[i], v[i]); }
    s.kick(0.125);
    near(s.omega() - o0, w * h, "change of the auxiliary function");
    return bad;
}
''')
SY = "src/integrator/symplectic/symplectic-integrator.hpp"
GR = "src/integrator/Gauss-Radau.hpp"
BS = "src/ode-iterator/Bulirsch-Stoer.hpp"
PID = "src/ode-iterator/step-controller/PID-controller.hpp"
WO = "src/ode-iterator/error-checker/worst-offender.hpp"
RMS = "src/ode-iterator/error-checker/RMS.hpp"
I15 = "src/ode-iterator/IAS15.hpp"
SQ = "src/ode-iterator/sequent-iterator.hpp"
SI = "src/simulator.hpp"
CB = "src/args-callback/callbacks.hpp"
CO = "src/args-callback/collision.hpp"
OR = "src/orbits/orbits.hpp"
PM = "src/orbits/particle-manip.hpp"
RG = "src/rand-generator.hpp"
SC = "src/scattering/cross-section.hpp"
MT = "src/multi-thread/multi-thread.hpp"
seed("p12-predict-old-table", "P12", [(GR, "            calc::array_scale(old_b_[i], old_b_[i], Q[i]);\n            calc::array_add(b_[i], old_b_[i], tmp_array_);", "            calc::array_scale(old_b_[i], old_b_[i], Q[i]);\n            calc::array_add(b_[i], old_b_[i], tmp_array_);\n            if (step_ratio == 1) calc::array_add(old_b_[i], b_[i], tmp_array_);")],
     "two or more consecutive steps with the same length whose last corrections do not vanish", "the memory of the prediction is polluted by the correction, the next prediction is off", r'''
struct Poly {
    using Scalar = double;
    using A = DT::ScalarArray; using S = DT::StateScalarArray;
    double t = 0, y = 0;
    void write_to_scalar_array(S& s) { s.resize(2); s[0] = t, s[1] = y; }
    void read_from_scalar_array(S const& s) { t = s[0], y = s[1]; }
    void evaluate_general_derivative(A& d) { d.resize(2); d[0] = 1, d[1] = t * t * t * t * t; }
};
int main() {   // after a step the prediction for a quintic is exact but for the last correction (b after - b predicted before)
    Poly p;
    integrator::GaussRadau<DT> g;
    g.integrate(p, 1.0);   // predicted with correction = b (nothing was predicted before)
    auto pred = g.b();
    g.correct(p, 1.0);
    auto b = g.b();
    g.evaluate(p, 1.0);
    g.predict(1.0);
    // exact coefficients of (2 + s)^5 - 2^5: 80 80 40 10 1; correction of the last step: b - pred, pred = prediction + correction of the first
    double exact[7] = {80, 80, 40, 10, 1, 0, 0}, first[7] = {5 * 0, 0, 0, 0, 1, 0, 0}, step1[7] = {5, 10, 10, 5, 1, 0, 0};
    for (int i = 0; i < 7; i++) near(b[i][1], step1[i], "corrected coefficient", 1e-9);
    for (int i = 0; i < 7; i++) near(g.b()[i][1], exact[i] + (step1[i] - (pred[i][1] - first[i])), "predicted coefficient", 1e-9);
    return bad;
}
''')
seed("p13-retry-from-advanced-state", "P13", [(BS, """                        iter_h *= step_ctrl_.limiter(result_order, new_h / iter_h);
                        break;
                    }
                }
            }
            particles.read_from_scalar_array(input_);
        }""", """                        iter_h *= step_ctrl_.limiter(result_order, new_h / iter_h);
                        break;
                    }
                }
            }
            if (first_step_) particles.read_from_scalar_array(input_);
        }""")],
     "a rejected attempt after the first step", "the first substep sequence of the retry starts from the end of the rejected attempt", r'''
using Sys = system::SimpleSystem<PP, force::Interactions<force::NewtonianGrav>>;
static std::vector<double> starts;
struct W : Sys {   // remembers the state at the beginning of every substep sequence
    using Sys::Sys;
    bool fresh = false;
    void clear_increment() { Sys::clear_increment(); fresh = true; }
    void drift(double h) { if (fresh) starts.push_back(pos(0).x), fresh = false; Sys::drift(h); }
};
int main() {   // after a good first step a far too long one is tried and rejected
    W a(0, std::vector<Pt>{Pt(1, V3(1, 0, 0), V3(0, 0.2, 0)), Pt(1, V3(-1, 0, 0), V3(0, -0.2, 0))});
    ode::BulirschStoer<integrator::LeapFrogDKD<DT>, ode::WorstOffender<DT>, ode::PIDController<DT>> it;
    it.set_atol(0), it.set_rtol(1e-13);
    double h = it.iterate(a, 0.05);
    for (int i = 0; i < 20; i++) {
        starts.clear();
        double x = a.pos(0).x;
        h = it.iterate(a, 40 * h);
        for (double s : starts) near(s, x, "start of a substep sequence", 0);
    }
    check(it.reject_rate() > 0, "some attempt is rejected");
    return bad;
}
''')
seed("p13-leapfrog-kdk-half-kick", "P13", [(BS, """            particles.drift(h);
            particles.kick(0.5 * h);
        } else {""", """            particles.drift(h);
            particles.kick(num_drift > 25 ? h : 0.5 * h);
        } else {""")],
     "the kick-drift-kick variant with a table deep enough to use more than 25 substeps", "the deepest substep sequence ends with a full kick", r'''
struct Rec {   // y'' = 0 with constant force 1: records the total length of kicks
    double k = 0, d = 0;
    void kick(double h) { k += h; }
    void drift(double h) { d += h; }
};
int main() {
    ode::BulirschStoer<integrator::LeapFrogKDK<DT>, ode::WorstOffender<DT>, ode::PIDController<DT>, 10> it;
    using U = system::SimpleSystem<PP, force::Interactions<force::NewtonianGrav>>;
    // constant field: a uniform force is integrated exactly by every substep sequence
    for (size_t n : {1, 2, 3, 5, 8, 12, 17, 25, 36, 51}) {
        U s(0, std::vector<Pt>{Pt(1, V3(1, 0, 0), V3(0, 0.5, 0)), Pt(1, V3(-1, 0, 0), V3(0, -0.5, 0))}), r = s;
        it.integrate_by_n_steps(s, 0.01, n);
        integrator::LeapFrogKDK<DT> kdk;
        for (size_t i = 0; i < n; i++) kdk.integrate(r, 0.01 / n);
        near3(s.vel(0), r.vel(0), "velocity after n substeps", 1e-12);
    }
    return bad;
}
''')
seed("p16-mask-velocities", "P16", [(I15, "                mask[vel_offset + 3 * i] = mask[vel_offset + 3 * i + 1] = mask[vel_offset + 3 * i + 2] = true;", "                mask[vel_offset + 3 * i] = mask[vel_offset + 3 * i + 1] = mask[vel_offset + i + 2] = true;")],
     "a body, not the first, which hardly moves in a step while others do", "the slow body is not fully left out, and a moving one partly is", r'''
using Sys = system::SimpleSystem<PP, force::Interactions<force::NewtonianGrav>>;
int main() {   // body 1 hardly moves: only its z velocity has an error, which must not count
    Sys s(0, std::vector<Pt>{Pt(1, V3(1, 0, 0), V3(0, 1, 0)), Pt(1, V3(1e9, 0, 0), V3(0, 1e-9, 0))});
    ode::IAS15<integrator::GaussRadau<DT>, ode::RMS<DT>, ode::PIDController<DT>> it;
    DT::StateScalarArray in; s.write_to_scalar_array(in);
    DT::ScalarArray dy(in.size()), b(in.size());
    for (auto& x : dy) x = 1;
    for (auto& x : b) x = 0;
    b[s.vel_offset() + 5] = 1;
    near(it.calc_step_error(dy, b, s, 0.1), 0, "error of a body that does not move");
    return bad;
}
''')
seed("p16-sequent-scale", "P16", [(SQ, "(integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1)", "(integer_pow(double(ns[i] / (i > 1 ? ns[i - 1] : 1.0)), Integrator::order == 2 ? 2 : Integrator::order - (i > 5)) - 1)")],
     "an integrator of order above two and a step that needs more than five refinements", "the error estimate of fine refinements is scaled with a lower order", r'''
static std::vector<double> scaled;
struct Chk {   // records nothing itself: error grows so that every refinement is used
    using Scalar = double;
    void set_atol(double) {}
    void set_rtol(double) {}
    template <class A, class B, class C> double error(A const&, B const&, C const&) { return 1e9; }
};
struct Ctl {
    void set_safe_guards(double, double) {}
    void set_limiter(double, double) {}
    double next_with_limiter(size_t, double e) const { scaled.push_back(e); return 1; }
};
using Sys = system::SimpleSystem<PP, force::Interactions<force::NewtonianGrav>>;
int main() {
    Sys s(0, std::vector<Pt>{Pt(1, V3(1, 0, 0), V3(0, 0.5, 0)), Pt(1, V3(-1, 0, 0), V3(0, -0.5, 0))});
    ode::SequentOdeIterator<integrator::Symplectic4th<DT>, Chk, Ctl> it;
    it.iterate(s, 0.1);
    near(scaled.at(0), 1e9 / (std::pow(20.0 / 18, 4) - 1), "scaled error of the last refinement");
    return bad;
}
''')
seed("p17-operation-step", "P17", [(SI, """                step_size_ = rest_step;
                run_args.operations(particles_, step_size_);
                advance_one_step();""", """                run_args.operations(particles_, step_size_);
                step_size_ = rest_step;
                advance_one_step();""")],
     "a run whose last step is shortened to hit the end time, watched by an operation that uses the step size", "operations before the last step are told a step which is not the one that follows", r'''
using Sys = system::SimpleSystem<PP, force::Interactions<force::NewtonianGrav>>;
using It = ode::ConstOdeIterator<integrator::LeapFrogDKD<DT>>;
int main() {
    Simulator<Sys, It> sim(0, std::vector<Pt>{Pt(1, V3(1, 0, 0), V3(0, 0.5, 0)), Pt(1, V3(-1, 0, 0), V3(0, -0.5, 0))});
    RunArgs<Sys> args;
    args.step_size = 0.3;
    args.add_stop_condition(1.0);
    std::vector<double> t, h;
    args.add_operation([&](auto& p, auto s) { t.push_back(p.time()); h.push_back(s); });
    sim.run(args);
    for (size_t i = 0; i + 1 < t.size(); i++) near(h[i], t[i + 1] - t[i], "announced step");
    return bad;
}
''')
seed("p18-bool-log-slice-catch-up", "P18", [(CB, """        auto t = ptc.time();
        if (ptc.time() >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
            opt_time_ += opt_interval_;
            return opt_(ptc, step_size);""", """        auto t = ptc.time();
        if (ptc.time() >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
            opt_time_ = t + opt_interval_;
            return opt_(ptc, step_size);""")],
     "a stop condition in a time slice which is first called between two slice times", "later slices are due late", r'''
struct P { double now; double time() const { return now; } };
int main() {
    int n = 0;
    auto op = [&](P&, double) -> bool { n++; return true; };
    struct PS : P { using Scalar = double; };
    std::function<bool(PS&, double)> f = [&](PS&, double) { n++; return true; };
    callback::TimeSlice<std::function<bool(PS&, double)>, double> s(f, 0.0, 10.0, 10);
    PS p;
    p.now = 0.9, s(p, 0.1);
    p.now = 1.0;
    check(s(p, 0.1), "slice at 1");
    return bad;
}
''')
seed("p18-step-slice-interval", "P18", [(CB, """        step_ = 0;
        step_interval_ = step_interval;""", """        step_ = step_ < step_interval ? step_ : 0;
        step_interval_ = step_interval;""")],
     "parameters reset after fewer steps than the new interval", "the slice does not start anew", r'''
struct PS { using Scalar = double; double time() const { return 0; } };
int main() {
    int n = 0;
    std::function<void(PS&, double)> f = [&](PS&, double) { n++; };
    callback::StepSlice<std::function<void(PS&, double)>> s(f, 2);
    PS p;
    s(p, 1.0);
    s.reset_slice_params(3);
    n = 0;
    s(p, 1.0);
    check(n == 1, "first call after a reset");
    return bad;
}
''')
seed("p19-collision-pairs", "P19", [(CO, "for (size_t j = i + 1; j < num; ++j) {", "for (size_t j = i + 1; j < num && (j < 3 || i < 2); ++j) {")],
     "four bodies or more, of which the third and the fourth touch", "the collision of the last two bodies is never reported", r'''
using FP = particles::SizeParticles<DT>;
using Sys = system::SimpleSystem<FP, force::Interactions<force::NewtonianGrav>>;
int main() {
    std::vector<FP::Particle> ps;
    double x[4] = {0, 10, 20, 20.5};
    for (double a : x) ps.emplace_back(FP::Particle(1, 0.3, V3(a, 0, 0), V3(0, 0, 0)));
    Sys s(0, ps);
    callback::StickyCollision c;
    check(c(s, 0.1), "bodies 2 and 3 touch");
    return bad;
}
''')
seed("p21-parabola-mean-anomaly", "P21", [(OR, "return E_anomaly + E_anomaly * E_anomaly * E_anomaly / 3.0;", "return E_anomaly + fabs(E_anomaly) * E_anomaly * E_anomaly / 3.0;")],
     "a parabolic orbit before periapsis", "the mean anomaly of an approaching parabola does not obey the area law", r'''
int main() {
    near(orbit::E_anomaly_to_M_anomaly(-0.6, 1.0), -0.6 - 0.216 / 3, "mean anomaly before periapsis of a parabola");
    return bad;
}
''')
seed("p23-focusing", "P23", [(SC, "        auto const b_upper = b_max(M_stay + M_incident, v_inf, closest_approach_max);", "        auto const b_upper = b_max(M_stay, v_inf, closest_approach_max);")],
     "an incoming cluster whose mass matters", "encounters closer than the largest closest approach are never drawn", r'''
int main() {
    std::vector<Pt> c{Pt(1, V3(0, 0, 0), V3(0, 0, 0)), Pt(1, V3(1, 0, 0), V3(0, 0, 0))};
    std::vector<Pt> d{Pt(10, V3(0, 0, 0), V3(0, 0, 0)), Pt(10, V3(1, 0, 0), V3(0, 0, 0))};
    double v = 1e-2, m = 0;
    for (int i = 0; i < 2000; i++) m = std::fmax(m, scattering::incident_orbit(c, d, v, 1e-9).b);
    double rp = orbit::tidal_radius(0.02, 2.0, 20.0, orbit::cluster_size(c), orbit::cluster_size(d));
    near(m, scattering::b_max(22.0, v, rp), "largest impact parameter drawn", 0.02);
    return bad;
}
''')

seed("p14-limiter-order", "P14", [(PID, "            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;", "            limiter_min_[i] = std::min(POW(safe_guard3_, expon_[i]), 0.75) / safe_guard4_;")],
     "methods of order 14 and more (deep Bulirsch-Stoer tables)", "the smallest allowed step ratio of high orders is too small", r"""
int main() {
    ode::PIDController<DT> c;
    c.set_limiter(0.02, 4.0);
    for (int k = 1; k < 50; k++) near(c.limiter_min(k), std::pow(0.02, 1.0 / k) / 4, "lower limit");
    return bad;
}
""")
seed("p20-retrograde-periapsis", "P20", [(OR, """                args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
            } else {
                args.Omega = 0;
                args.omega = math::sign(E.y * L.z) * myacos(E.x / args.e);
            }
        } else {
            if (n != 0) {
                args.Omega = math::sign(N.y) * myacos(N.x / n);
                args.omega = 0;
                Vector peri = cross(L, N);
                args.nu = math::sign(dot(peri, dr)) * myacos(dot(N / n, dr / r));
            } else {
                args.Omega = args.omega = 0;
                args.nu = math::sign(dr.y * L.z) * acos(dot(Vector(1.0, 0, 0), dr / r));
            }
        }
        return args;""", """                args.omega = math::sign(dot(cross(N, E), Vector(0, 0, 1))) * myacos(dot(E / args.e, N / n));
            } else {
                args.Omega = 0;
                args.omega = math::sign(E.y * L.z) * myacos(E.x / args.e);
            }
        } else {
            if (n != 0) {
                args.Omega = math::sign(N.y) * myacos(N.x / n);
                args.omega = 0;
                Vector peri = cross(L, N);
                args.nu = math::sign(dot(peri, dr)) * myacos(dot(N / n, dr / r));
            } else {
                args.Omega = args.omega = 0;
                args.nu = math::sign(dr.y * L.z) * acos(dot(Vector(1.0, 0, 0), dr / r));
            }
        }
        return args;""")],
     "a retrograde orbit (inclination above 90 degrees), converted by the form that returns the elements", "the argument of periapsis has the wrong sign", r"""
int main() {
    for (double z : {1.0, -1.0}) {
        V3 r(0.3, 1, 0.2), v(-1.1 * z, 0.2 * z, 0.5);
        auto k = orbit::coord_to_orbit(1.0 / consts::G, 0.5 / consts::G, r, v);
        auto [p, w] = orbit::orbit_to_coord<V3>(k);
        near3(p, -r, "position of the other body", 1e-7);
        near3(w, -v, "velocity of the other body", 1e-7);
    }
    return bad;
}
""")
seed("p21-period-of-orbit", "P21", [(OR, "return period(args.m1, args.m2, args.p / (1 - args.e * args.e));", "return period(args.m1, args.m2, args.p / ((1 - args.e) * (1 + args.e * args.e)));")],
     "the period of a noncircular orbit given by its elements", "the period belongs to another semi-major axis", r"""
int main() {
    orbit::Elliptic k(1, 2, 3, 0.5, 0.1, 0.2, 0.3, 0.4);
    near(orbit::period(k), orbit::period(1.0, 2.0, 3.0), "period");
    return bad;
}
""")
seed("p22-moving-three", "P22", [(PM, """        ptc1.vel += dv, ptc2.vel += dv;
        (..., (ptcs.vel += dv));
    }""", """        ptc1.vel += dv, ptc2.vel += dv;
        (..., (ptcs.vel += centre_mass_vel - COM_v(ptc1, ptc2, ptcs...)));
    }""")],
     "three or more particles given one by one", "the particles after the second are displaced by another velocity", r"""
int main() {
    Pt a(1, V3(0, 0, 0), V3(1, 0, 0)), b(2, V3(1, 0, 0), V3(0, 1, 0)), c(3, V3(0, 1, 0), V3(0, 0, 1));
    orbit::move_particles_vel(V3(1, 2, 3), a, b, c);
    near3(orbit::COM_v(a, b, c), V3(1, 2, 3), "velocity of the centre of mass");
    return bad;
}
""")
seed("p23-truncated-maxwellian", "P23", [(RG, """        // TODO: can be optimized by using inverse transformed method.
        for (;;) {
            double x = dist(generator);
            double y = dist(generator);
            double z""", """        // TODO: can be optimized by using inverse transformed method.
        double x = dist(generator);
        double y = dist(generator);
        for (;;) {
            double z""")],
     "a draw that is rejected once", "only one of the three components is drawn again, which biases the distribution", r"""
int main() {
    double num = 0, den = 0, m = 0;
    for (double r = 2.0005; r < 10; r += 0.001) { double w = r * r * std::exp(-r * r / 2); num += r * w; den += w; }
    int N = 400000;
    for (int i = 0; i < N; i++) m += random::TruncatedMaxwellian(2, 10, 1) / N;
    near(m, num / den, "mean of the truncated distribution", 0.002);
    return bad;
}
""")
MT = "src/multi-thread/multi-thread.hpp"
CQ = "src/multi-thread/concurrent-queue.h"
CIO = "src/multi-thread/ciostream.hpp"
seed("p24-few-items", "P24", [(MT, "auto len_pth = total_len / thread_num;", "auto len_pth = std::max<size_t>(1, total_len / thread_num);")],
     "fewer items than threads", "threads get items that do not exist", r"""
int main() {
    std::mutex m;
    std::vector<int> hit(16, 0);
    multi_thread::multi_threads_loop(2, 5, [&](size_t b, size_t e) { std::lock_guard<std::mutex> l(m); for (size_t i = b; i < e && i < 16; i++) hit[i]++; check(b <= e && e <= 2, "part inside the items"); });
    check(hit[0] == 1 && hit[1] == 1, "every item once");
    for (int i = 2; i < 16; i++) check(hit[i] == 0, "no other item");
    return bad;
}
""")
seed("p24-execute-lock", "P24", [(MT, """    auto ConcurrentFile::execute(Callback &&func, Args &&...args) {
        std::lock_guard<std::mutex> lock(*mutex_);""", """    auto ConcurrentFile::execute(Callback &&func, Args &&...args) {
        std::lock_guard<std::mutex>{*mutex_};""")],
     "two threads executing on the same file at the same time", "the unnamed guard is destroyed at once, so the callback runs without the lock", r"""
#include <atomic>
#include <chrono>
int main() {
    auto f = multi_thread::make_thread_safe_fstream("f.txt", std::ios_base::out);
    std::atomic<int> inside{0};
    std::atomic<bool> both{false};
    auto job = [&] {
        for (int k = 0; k < 5; k++) f.execute([&](std::fstream& s) {
            if (inside.fetch_add(1) > 0) both = true;
            std::this_thread::sleep_for(std::chrono::milliseconds(30));
            s << 1 << '\n';
            inside--;
            return 0;
        });
    };
    std::thread a(job), b(job);
    a.join(); b.join();
    check(!both, "one thread at a time");
    return bad;
}
""")
seed("p25-notify-if-empty", "P25", [(CQ, """        void emplace_back(Args &&...args) {
            {
                std::lock_guard<std::mutex> lock(mutex_);
                deque_.emplace_back(std::forward<Args>(args)...);
            }
            cv_.notify_one();""", """        void emplace_back(Args &&...args) {
            bool was_empty;
            {
                std::lock_guard<std::mutex> lock(mutex_);
                was_empty = deque_.empty();
                deque_.emplace_back(std::forward<Args>(args)...);
            }
            if (was_empty) cv_.notify_one();""")],
     "two consumers waiting, and a second element put in before the first woken consumer took the first", "the second consumer is never woken", r"""
#include <thread>
#include <chrono>
#include <unistd.h>
#include "src/multi-thread/concurrent-queue.h"
int main() {
    std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(40)); std::printf("a consumer waits for ever: wrong\n"); std::fflush(stdout); _exit(1); }).detach();
    for (int r = 0; r < 60; r++) {
        multi_thread::ConcurrentDeque<int> q;
        std::vector<std::thread> c;
        for (int k = 0; k < 4; k++) c.emplace_back([&] { int x; q.try_pop_front(x); });
        std::this_thread::sleep_for(std::chrono::milliseconds(10));
        for (int k = 0; k < 4; k++) q.emplace_back(k);
        for (auto& t : c) t.join();
    }
    std::fflush(stdout);
    _exit(bad);
}
""")
seed("p25-opip-drain", "P25", [(CIO, "while (!queue_.empty()) {\n                      file_ << queue_.front();", "if (!queue_.empty()) {\n                      file_ << queue_.front();")],
     "a pipe dropped while at least two values wait to be written", "only one of the waiting values is written when an output pipe is dropped", r"""
#include <thread>
#include <fstream>
#include <queue>
#include <condition_variable>
#include "src/multi-thread/ciostream.hpp"
struct text_line { int v; };
std::ostream& operator<<(std::ostream& o, text_line const& l) { return o << l.v << '\n'; }
int main() {
    for (int trial = 0; trial < 20; trial++) {
        { multi_thread::Opip<text_line> p("out.txt"); for (int i = 0; i < 2000; i++) p << text_line{i}; }
        std::ifstream f("out.txt");
        int n = 0, x = 0;
        while (f >> x) check(x == n++, "order");
        check(n == 2000, "everything written is in the file");
    }
    return bad;
}
""")
seed("p25-pop-back-if", "P25", [(CQ, "while (!stop_ && deque_.empty()) {\n                cv_.wait(lock);\n            }\n            if (stop_) return false;\n\n            data = std::move(deque_.back());", "if (!stop_ && deque_.empty()) {\n                cv_.wait(lock);\n            }\n            if (stop_) return false;\n\n            data = std::move(deque_.back());")],
     "another consumer takes the element between the wake-up and the return from the wait", "a consumer takes an element from an empty queue", r"""
#include <thread>
#include <atomic>
#include <chrono>
#include <mutex>
#include <deque>
#include <condition_variable>
#include <unistd.h>
#include "src/multi-thread/concurrent-queue.h"
int main() {
    std::thread([] { std::this_thread::sleep_for(std::chrono::seconds(60)); std::fflush(stdout); _exit(1); }).detach();
    for (int trial = 0; trial < 20 && !bad; trial++) {
        multi_thread::ConcurrentDeque<int> q;
        constexpr int N = 20000, C = 6;
        std::vector<std::atomic<int>> seen(N + 1);
        std::atomic<int> taken{0};
        std::vector<std::thread> t;
        for (int c = 0; c < C; c++) t.emplace_back([&] { int x = 0; while (q.try_pop_back(x)) { if (x < 1 || x > N) { bad = 1; } else seen[x]++; taken++; } });
        for (int i = 1; i <= N; i++) { q.emplace_back(i); if (i % 64 == 0) std::this_thread::sleep_for(std::chrono::microseconds(50)); }
        for (int k = 0; k < 3000 && taken < N; k++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        std::this_thread::sleep_for(std::chrono::milliseconds(2));
        q.stop();
        for (auto& x : t) x.join();
        check(taken == N, "as many taken as put");
        for (int i = 1; i <= N; i++) if (seen[i] != 1) { check(false, "each element once"); break; }
    }
    std::fflush(stdout);
    _exit(bad);
}
""")

KN = "src/kahan-number.hpp"
seed("p26-neumaier-branch", "P26", [(KN, "T add = -rhs.real + lhs.err;\n            T sum = lhs.real + add;\n\n            if (math::abs(add) < math::abs(lhs.real))", "T add = -rhs.real + lhs.err;\n            T sum = lhs.real + add;\n\n            if (add < math::abs(lhs.real))")],
     "subtracting a number that is bigger than the value held", "the error term misses what rounding took", r"""
#include "src/kahan-number.hpp"
int main() {
    double_p a(1.0);
    a -= double_p(1e17);
    near((double)a, 1.0 - 1e17, "value", 0);
    near(a.err, 1.0, "what rounding took", 0);
    return bad;
}
""")
seed("p26-klein-sub", "P26", [(KN, "lhs.err_of_err = (add - sum) - rhs.real;", "lhs.err_of_err = (add - rhs.real) - sum;")],
     "an error so far bigger than the number subtracted, with digits lost when both are combined", "the second error term is not what rounding took", r"""
#include "src/kahan-number.hpp"
int main() {
    double_e a(0.0);
    a.err = 1.0;
    a -= double_e(1e-17);
    near(a.real, 1.0, "value", 0);
    near(a.err_of_err, -1e-17, "what rounding took", 0);
    return bad;
}
""")
seed("p26-kahan-sub-err", "P26", [(KN, "T add = -rhs.real - lhs.err;", "T add = -(rhs.real - lhs.err);")],
     "a subtraction after an inexact operation", "the error kept is applied with the wrong sign by subtractions", r"""
#include "src/kahan-number.hpp"
int main() {
    double_k a(1.0);
    for (int i = 0; i < 1000; i++) a -= double_k(1e-16);
    double big = (double)a;
    near((1.0 - big) * 1e13, 1.0, "a thousand tiny numbers", 0.01);
    return bad;
}
""")
TP, DP, SP = "src/particles/tide-particles.hpp", "src/particles/drag-particles.hpp", "src/particles/finite-size.hpp"
seed("p27-size-resize", "P27", [(SP, "hub::resize_all(new_sz, pos_, vel_, mass_, radius_, idn_);", "hub::resize_all(new_sz, pos_, vel_, mass_, idn_);\n        if (radius_.size() < new_sz) radius_.resize(new_sz);")],
     "a container is shortened and then appended to", "radii belong to other particles", r"""
int main() {
    using FP = particles::SizeParticles<DT>;
    std::vector<FP::Particle> v;
    for (int i = 0; i < 3; i++) v.emplace_back(FP::Particle(1, 1 + i, V3(i, 0, 0), V3(0, 0, 0)));
    FP p(0, v);
    p.resize(2);
    p.emplace_back(FP::Particle(1, 9, V3(0, 0, 0), V3(0, 0, 0)));
    near(p.radius(2), 9, "radius of the last particle");
    check(p.radius().size() == 3, "three radii");
    return bad;
}
""")
seed("p27-drag-clear", "P27", [(DP, "hub::clear_all(pos_, vel_, mass_, sub_sonic_c_, local_cs_, idn_);", "hub::clear_all(pos_, vel_, mass_, sub_sonic_c_, idn_);")],
     "a container with drag data that is cleared and filled again", "the sound speeds of the old particles stay", r"""
int main() {
    using DPs = particles::DragParticles<DT>;
    DPs p;
    p.emplace_back(DPs::Particle(1, 2, 3, V3(0, 0, 0), V3(0, 0, 0)));
    p.clear();
    p.emplace_back(DPs::Particle(1, 4, 5, V3(0, 0, 0), V3(0, 0, 0)));
    near(p.local_cs(0), 5, "sound speed of the new particle");
    return bad;
}
""")
seed("p27-tide-handed-back", "P27", [(TP, "ptc.emplace_back(mass_[i], radius_[i], k_AM_[i], tau_lag_[i], pos_[i], vel_[i]);", "ptc.emplace_back(mass_[i], radius_[i], tau_lag_[i], k_AM_[i], pos_[i], vel_[i]);")],
     "tidal particles handed back by a container", "apsidal constant and lag time are exchanged", r"""
int main() {
    using Ts = particles::TideParticles<DT>;
    Ts p;
    p.emplace_back(Ts::Particle(1, 2, 3, 4, V3(0, 0, 0), V3(0, 0, 0)));
    auto v = p.to_AoS();
    near(v[0].tide_apsidal_const, 3, "apsidal constant");
    near(v[0].tide_lag_time, 4, "lag time");
    return bad;
}
""")
CB = "src/args-callback/callbacks.hpp"
seed("p28-header-per-copy", "P28", [(CB, "if (fstream_->tellp() == 0) {", "if (fstream_->good()) {")],
     "a writer that was copied, both the original and the copy writing", "the names of the columns are repeated in the middle of the file", r"""
#include <fstream>
int main() {
    PP p(0, line({1, 2}));
    {
        callback::DefaultWriter w("out.txt");
        auto c = w;
        w(p, 0.1);
        c(p, 0.1);
    }
    std::ifstream f("out.txt");
    std::string l;
    int names = 0;
    while (std::getline(f, l)) names += l.find("time") != std::string::npos;
    check(names == 1, "the names of the columns are written once");
    return bad;
}
""")
seed("p28-drag-columns", "P28", [(DP, 'return "time,id,mass,', 'return "id,time,mass,')],
     "drag particles written to a file", "the first two columns have each other's name", r"""
int main() {
    using DPs = particles::DragParticles<DT>;
    DPs p;
    p.time() = 7;
    p.emplace_back(DPs::Particle(1, 2, 3, V3(0, 0, 0), V3(0, 0, 0)));
    std::ostringstream o;
    o << p;
    auto n = p.column_names();
    check((n.substr(0, 4) == "time") == (o.str().substr(0, 1) == "7"), "first column");
    return bad;
}
""")
SVH = "src/small-vector.hpp"
seed("p30-move-assign-kept", "P30", [(SVH, "            std::move(RHS.begin(), RHS.begin() + CurSize, this->begin());", "            std::move(RHS.begin(), RHS.begin() + CurSize / 2, this->begin());")],
     "a short vector moved onto an even shorter one that has room for it", "old elements stay in front of the moved ones", r"""
int main() {
    llvm::SmallVector<double, 4> a{1.0, 2.0}, b{5.0, 6.0, 7.0};
    a = std::move(b);
    near(a[0], 5, "first"); near(a[1], 6, "second"); near(a[2], 7, "third");
    return bad;
}
""")
seed("p30-erase-range", "P30", [(SVH, "        iterator erase(const_iterator CS, const_iterator CE) {", "        iterator erase(const_iterator CS, const_iterator CE) {\n            if (CE == this->begin() + this->capacity() && CS != CE) --CE;")],
     "a range is erased up to the end of a vector that is exactly full", "the last element stays", r"""
int main() {
    llvm::SmallVector<double, 4> a{1.0, 2.0, 3.0, 4.0};
    a.erase(a.begin() + 1, a.end());
    check(a.size() == 1, "one element is left");
    return bad;
}
""")
VH, CC, TC, MH = "src/vector/vector3.hpp", "src/core-computation.hpp", "src/type-class.hpp", "src/math.hpp"
seed("p29-largest-component", "P29", [(VH, "            return max > z ? max : z;", "            return max > z || z < 0 ? max : z;"), (VH, "value_type max = (x > y ? x : y);", "value_type max = (x > y ? x : (y < 0 ? z : y));")],
     "vectors with two negative components", "the largest component is not the largest", r"""
int main() {
    near(V3(-3, -1, -2).max_component(), -1, "largest component");
    return bad;
}
""")
seed("p29-error-of-z", "P29", [(CC, "                dst[i].z.err = src[i].z.err;", "                dst[i].z.err = src[i].y.err;")],
     "precise vectors whose errors are copied", "the error of the third component is lost", r"""
int main() {
    std::vector<Vec3<double_k>> a(1), b(1);
    a[0].y.err = 1; a[0].z.err = 2;
    calc::array_copy_err(b, a);
    near(b[0].z.err, 2, "copied error");
    return bad;
}
""")
seed("p29-reload-shorter", "P29", [(TC, "        var.resize(len);\n        auto iter = begin;", "        if (var.size() < len) var.resize(len);\n        auto iter = begin;\n        if (begin == end) return;")],
     "fewer numbers are loaded than vectors were there", "vectors of an older state stay and are filled from outside of the range", r"""
int main() {
    std::vector<double> f{1, 2, 3, 4, 5, 6, 7, 8, 9};
    std::vector<V3> v(3);
    load_to_coords(f.begin(), f.begin() + 3, v);
    check(v.size() == 1, "one vector");
    return bad;
}
""")
seed("p29-bisection-sign", "P29", [(MH, "            if (f(mid) * f(high) > 0)", "            if (f(mid) * f(high) > 0 || f(mid) < f(low))")],
     "a falling function", "bisection runs to the wrong end of the interval", r"""
int main() {
    near(math::root_bisection([](double x) { return 0.7 - x; }, 0.5, 1.0), 0.7, "root of a falling function", 1e-12);
    near(math::root_bisection([](double x) { return x - 0.7; }, 0.5, 1.0), 0.7, "root of a rising function", 1e-12);
    return bad;
}
""")
CH = "src/particle-system/chain.hpp"; SY = "src/integrator/symplectic/symplectic-integrator.hpp"; SH = "src/spaceHub.hpp"
seed("p07-five-shortest-pairs", "P07", [(CH, "        std::sort(dist.begin(), dist.end(), [&](", "        std::partial_sort(dist.begin(), dist.begin() + std::min<size_t>(dist.size(), 2 * pos.size()), dist.end(), [&](")],
     "six bodies or more", "only the 2N shortest pairs are sorted; the chain is completed with links that are not the shortest", r"""
#include <list>
int main() {
    srand(3);
    for (int t = 0; t < 20000; t++) {
        int n = 4 + t % 5;
        std::vector<V3> p;
        for (int i = 0; i < n; i++) p.emplace_back(V3(rand() / 1e9, rand() / 1e9, rand() / 1e9));
        std::vector<size_t> id(n);
        Chain::calc_chain_index(p, id);
        auto d = [&](int i, int j) { return norm(p[i] - p[j]); };
        int a = 0, b = 1;
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (d(i, j) < d(a, b)) a = j, b = i;
        std::list<int> l{a, b};
        while ((int)l.size() < n) {
            double best = 1e99; int k = -1; bool front = false;
            for (int i = 0; i < n; i++) {
                bool in = false;
                for (int q : l) in = in || q == i;
                if (in) continue;
                if (d(i, l.front()) < best) best = d(i, l.front()), k = i, front = true;
                if (d(i, l.back()) < best) best = d(i, l.back()), k = i, front = false;
            }
            if (front) l.push_front(k); else l.push_back(k);
        }
        std::vector<size_t> w(l.begin(), l.end()), r(w.rbegin(), w.rend()), g(id.begin(), id.end());
        check(g == w || g == r, "shortest links");
        if (bad) break;
    }
    return bad;
}
""")
seed("p11-eighth-order-kicks", "P11", [(SY, "        system.kick(-2.44699182370524015E0 * step_size);\n        system.drift(-2.03140778260310517E0 * step_size);\n        system.kick(-1.61582374150096997E0 * step_size);\n        system.drift(-1.69832618404521085E0", "        system.kick(-1.61582374150096997E0 * step_size);\n        system.drift(-2.03140778260310517E0 * step_size);\n        system.kick(-2.44699182370524015E0 * step_size);\n        system.drift(-1.69832618404521085E0"),
     (SY, "        system.kick(-1.61582374150096997E0 * step_size);\n        system.drift(-2.03140778260310517E0 * step_size);\n        system.kick(-2.44699182370524015E0 * step_size);\n        system.drift(-1.22708085895116059E0", "        system.kick(-2.44699182370524015E0 * step_size);\n        system.drift(-2.03140778260310517E0 * step_size);\n        system.kick(-1.61582374150096997E0 * step_size);\n        system.drift(-1.22708085895116059E0")],
     "the eighth order integrator and a comparison of two step sizes", "two kicks of the eighth order scheme change places: still symmetric and consistent, but of second order", r"""
struct Osc {                                    // harmonic oscillator
    using Scalar = double;
    double x = 1, v = 0;
    template <typename T> void drift(T h) { x += h * v; }
    template <typename T> void kick(T h) { v -= h * x; }
};
static double err(int n) {
    integrator::Symplectic8th<DT> s;
    Osc o;
    double h = 1.0 / n;
    for (int i = 0; i < n; i++) { // the scheme as a template on any system with drift and kick
        s.integrate(o, h);
    }
    return std::fabs(o.x - std::cos(1.0));
}
int main() {
    double a = err(4), b = err(8);
    std::printf("%g %g\n", a, b);
    check(a / b > 100, "error falls with the eighth power of the step");
    return bad;
}
""")
seed("p31-chain-sym8-order", "P31", [(SH, "DEFINE_INTEGRATION_METHOD(AR_Sym8_Chain, ARchainSystem, sym8)", "DEFINE_INTEGRATION_METHOD(AR_Sym8_Chain, ARchainSystem, sym6)")],
     "the method AR_Sym8_Chain", "the eighth order chain method is of sixth order", r"""
static int calls;
struct Count {
    constexpr static bool vel_dependent{false};
    template <typename P> static void add_acc_to(P const& p, typename P::VectorArray& a) { calls++; force::NewtonianGrav::add_acc_to(p, a); }
};
template <typename M> static int count() {
    M s(0, line({0, 1, 3}));
    typename M::RunArgs args;
    args.add_stop_condition(0.05);
    args.step_size = 0.01;
    calls = 0;
    s.run(args);
    return calls;
}
int main() {
    using F = force::Interactions<Count>;
    int a = count<methods::Const_AR_Sym8_Chain<F>>(), b = count<methods::Const_AR_Sym8<F>>();
    std::printf("%d %d\n", a, b);
    check(a == b, "as many force evaluations as the plain eighth order method");
    return bad;
}
""")
seed("p31-const-plus-precision", "P31", [(SH, "        Simulator<system::SYSTEM<particle<details::precise_type>, interactions>, details::const_##ITER##_plus>;        \\\n", "        Simulator<system::SYSTEM<particle<details::normal_type>, interactions>, details::const_##ITER##_plus>;         \\\n")],
     "a fixed-step _Plus method over many steps", "the fixed-step _Plus methods do not carry the rounding errors of their coordinates", r"""
int main() {
    using M = methods::Const_Sym4_Plus<>;
    M s(0, line({0, 1, 3}));
    check(sizeof(s.particles().pos()[0].x) > sizeof(double), "coordinates carry their rounding error");
    return bad;
}
""")
SC = "src/secular.hpp"; ST = "src/stellar/stellar.hpp"; MA = "src/macros.hpp"
seed("p32-white-dwarf-power", "P32", [(ST, "pow(unit::Ms / mass, 1.0 / 3)", "pow(unit::Ms / mass, 1 / 3)")],
     "a white dwarf that does not have one solar mass", "every white dwarf has the same radius", r"""
int main() {
    using namespace stellar;
    near(stellar_radius(StarType::WD, 0.125) / stellar_radius(StarType::WD, 1.0), 2, "radius by mass");
    return bad;
}
""")
seed("p32-outer-eccentricity", "P32", [(SC, "sqrt(1 - e2 * e2)", "(1 - e2 * e2)")],
     "an eccentric outer orbit", "the Kozai-Lidov time scale of eccentric outer orbits is too short", r"""
#include "src/secular.hpp"
int main() {
    near(secular::ELK_quad_timescale(1., 1., 1., 1., 10., .6) / secular::ELK_quad_timescale(1., 1., 1., 1., 10., 0.), 0.512, "(1-e^2)^(3/2)");
    return bad;
}
""")
seed("p32-literal-of-day", "P32", [(MA, "MAKE_UNIT(day, 1_year / 365.25636042)", "MAKE_UNIT(day, 1_month / 30.4375)")],
     "times in days, hours or seconds, velocities, the speed of light", "the day is 0.002 % off the one the year is made of", r"""
int main() {
    near(unit::year / unit::day, 365.25636042, "days in a year", 1e-9);
    return bad;
}
""")
CR = "src/tools/config-reader.hpp"; TI = "src/tools/timer.hpp"
seed("p33-last-divider", "P33", [(CR, "line.find(divider)", "line.rfind(divider)")],
     "a value with the divider in it", "key and value are cut at the wrong place", r"""
#include <fstream>
int main() {
    static bool done = false;
    std::atexit([] { if (!done) _Exit(1); });      // a missing key ends the program
    { std::ofstream f("a.cfg"); f << "# c\nformula = a=b\nn=3\n"; }
    tools::ConfigReader r("a.cfg");
    check(r.get<int>("n") == 3, "number");
    check(r.get<std::string>("formula") == "a=b", "value with a divider");
    done = true;
    return bad;
}
""")
seed("p33-second-pause", "P33", [(TI, "        duration_ = get_time();", "        duration_ += get_time();")],
     "a stopwatch that is paused twice", "the time before the first pause counts twice", r"""
#include <thread>
int main() {
    tools::Timer t;
    t.start();
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    t.pause();
    double a = t.get_time();
    t.pause();
    near(t.get_time(), a, "pausing again changes nothing");
    check(a > 0.04, "time");
    return bad;
}
""")
seed("p33-first-value", "P33", [(CR, "map_[key] = val;", "map_.emplace(key, val);")],
     "a key given twice", "the first value of a key counts instead of the last", r"""
#include <fstream>
int main() {
    { std::ofstream f("a.cfg"); f << "n=1\n n = 2 \n"; }
    tools::ConfigReader r("a.cfg");
    check(r.get<int>("n") == 2, "the last value counts");
    return bad;
}
""")
seed("p33-wide-numbers", "P33", [(CR, "operator unsigned long() { return std::stoul(opt_); }", "operator unsigned long() { return std::stod(opt_); }")],
     "an unsigned number above 2^53", "seeds and other large numbers lose their last digits", r"""
int main() {
    char a[] = "p", b[] = "12345678901234567891";
    char* v[] = {a, b, nullptr};
    tools::OptArg o;
    tools::read_command_line(2, v, o);
    check((unsigned long)o == 12345678901234567891ul, "all digits");
    return bad;
}
""")
PS = "src/particle-system/archain.hpp"
seed("p06-first-chain-by-velocity", "P06", [(PS, "Chain::calc_chain_index(this->pos(), index_);\n        Chain::calc_chain(this->pos(), chain_pos(), index());", "Chain::calc_chain_index(this->vel(), index_);\n        Chain::calc_chain(this->pos(), chain_pos(), index());")],
     "a new regularised chain system whose velocities are ordered differently from its positions", "the first chain links far bodies; the first step loses the precision of close pairs", r"""
int main() {
    std::vector<Pt> ps{Pt(1, V3(0, 0, 0), V3(0, 0, 0)), Pt(1, V3(10, 0, 0), V3(0.1, 0, 0)), Pt(1, V3(0.1, 0, 0), V3(0.3, 0, 0))};
    system::ARchainSystem<PP, force::Interactions<force::NewtonianGrav>, system::ReguType::LogH> s(0, ps);
    auto id = s.index();
    check(id[1] == 0 || id[1] == 2, "chain 1-2-0 or its reverse");
    check(id[0] == 1 || id[2] == 1, "the far body is at an end");
    return bad;
}
""")
