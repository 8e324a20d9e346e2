// P17: Simulator::run with arbitrary states, step answers and stop conditions
#include "common.h"
static int K = 3;
static bool symEnd;
static double ab(double x, bool neg) { return neg ? -x : x; }
static double endT, rtolT;
static int steps, phase;           // phase 0: outside a step, 1: pre_iter_process done, 2: iterate done
static double given, t_[8], sc_[8], next_[8];
static int ev[256], nev;           // event log: kind*16 + step
static double evh[256];
enum { START0, START1, OP0, OP1, STOP0, STOP1, COND, STEP };
static void log(int kind, double h) {
    if (nev < 256) { ev[nev] = kind * 16 + steps; evh[nev++] = h; }
}
template <bool REGU> struct Sys : DT {
    SPACEHUB_USING_TYPE_SYSTEM_OF(DT);
    using Particle = Pt;
    double t = 0;
    int it = 0;
    std::vector<double> m;
    std::vector<V3> p;
    Sys() = default;
    template <typename STL> Sys(double time, STL const& ps) : t(time) {
        for (auto const& q : ps) m.push_back(q.mass), p.push_back(q.pos);
    }
    auto const& mass() const { return m; }
    auto const& pos() const { return p; }
    double time() const { return t; }
    double step_scale() const { return REGU ? sc_[it] : 1; }
    void pre_iter_process() { sym_assert(phase == 0, "pre-iteration-once-per-step"); phase = 1; }
    void post_iter_process() { sym_assert(phase == 2, "post-iteration-once-per-step"); phase = 0; }
};
template <bool REGU> struct SysT : Sys<REGU> { using Sys<REGU>::Sys; };
struct SysR : Sys<true> { using Sys<true>::Sys; static constexpr int regu_type = 1; };
using SysP = SysT<false>;
static double gotAtol, gotRtol;
template <bool REGU, bool TOL> struct It {
    template <typename S> double iterate(S& s, double h) {
        sym_assert(phase == 1, "iteration-between-pre-and-post");
        phase = 2;
        double rest = (endT - s.t) * s.step_scale(), d = endT - s.t, g2 = given;
        bool back = rest < 0, gneg = g2 < 0;     // decided on this path by the code under test
        double ar = ab(rest, back), ag = ab(g2, gneg), ah = ab(h, back);
        sym_assert(ah > 0, "steps-towards-the-end");
        sym_assert(ah <= ar, "never-past-the-end");
        bool shorter = ag <= ar;
        if (shorter) sym_assert(ah == ag, "step-as-proposed");
        else sym_assert(ah == ar, "last-step-shortened-to-the-end");
        sym_assert(ab(d, back) > rtolT * (endT < 0 ? -endT : endT), "no-step-when-done");
        log(STEP, h);
        steps++;
        if (steps > K) sym_fail("more-steps");
        given = next_[steps];
        s.t = t_[steps];
        s.it = steps;
        if (steps == K) { double d = s.t - endT, r = rtolT * (endT < 0 ? -endT : endT); sym_assume((int)(d <= r) & (int)(-d <= r)); }
        return given;
    }
};
template <bool REGU> struct It<REGU, true> : It<REGU, false> {
    void set_atol(double a) { sym_assert(nev == 0, "tolerances-before-anything"); gotAtol = a; }
    void set_rtol(double a) { gotRtol = a; }
};
template <bool REGU> static void inputs() {
    nev = steps = phase = 0;
    for (int i = 0; i <= K; i++) {
        t_[i] = sym_real(nm("t", i).c_str(), -3, 3);
        sc_[i] = sym_pos(nm("scale", i).c_str(), 0.3, 3);
        next_[i] = sym_real(nm("h", i).c_str(), 0.01, 2);
        sym_assume((int)(next_[i] > 0) | (int)(next_[i] < 0));
    }
    static const double ends[] = {2, -0.5};
    if (symEnd) {
        endT = sym_pos("end", 0.1, 3);
        if (sym_choose("endsign", 2)) endT = -endT;
    } else endT = ends[sym_choose("endcase", 2)];
}
// conds: 0 none, 1 stop conditions which become true at an arbitrary step
template <typename S, bool REGU, bool TOL> static void run(bool withEnd, bool conds, bool deflt) {
    inputs<REGU>();
    Pt a(sym_pos("m0", 0.1, 3), V3(0, 0, 0), V3(0, 0, 0)), b(sym_pos("m1", 0.1, 3), V3(0, sym_pos("r", 0.1, 3), 0), V3(0, 0, 0));
    hub::Simulator<S, It<REGU, TOL>> sim(t_[0], a, b);
    typename decltype(sim)::RunArgs args;
    args.step_size = deflt ? 0 : next_[0];
    given = next_[0];
    if (deflt) {
        double r = b.pos.y;
        sym_assume(r > 1e-3);
        sym_assume(r < 1e3);
        sym_assume(a.mass + b.mass > 1e-3);
        sym_assume(r * r * r < 1e9);
        given = 0.1 * (REGU ? sc_[0] : 1) * (std::pow(r, 1.5) / std::sqrt(a.mass + b.mass) * consts::pi * 0.5 / std::sqrt(2.0));
    }
    args.atol = sym_pos("atol", 1e-9, 1e-3);
    args.rtol = sym_pos("rtol", 1e-9, 1e-3);
    args.time_rtol = rtolT = sym_pos("trtol", 1e-9, 0.1);
    if (!withEnd) endT = hub::unit::T_hubble;
    if (withEnd) args.add_stop_condition(endT);
    int fire = -1, fireWhich = 0, calls[2] = {0, 0};
    if (conds) {
        fire = sym_choose("fire", K + 1), fireWhich = sym_choose("which", 2);
        for (int w = 0; w < 2; w++)
            args.add_stop_condition([&calls, fire, fireWhich](S& s, double h, int w) {
                log(COND, h);
                calls[w]++;
                return w == fireWhich && steps == fire;
            }, w);
    }
    for (int w = 0; w < 2; w++) {
        args.add_start_point_operation([](S& s, double h, int w) { log(START0 + w, h); }, w);
        args.add_operation([](S& s, double h, int w) { log(OP0 + w, h); }, w);
        args.add_stop_point_operation([](S& s, double h, int w) { log(STOP0 + w, h); }, w);
    }
    sim.run(args);
    sym_reach("returned");
    double d = sim.particles().time() - endT;
    double rr = rtolT * (endT < 0 ? -endT : endT);
    bool atEnd = (int)(d <= rr) & (int)(-d <= rr);
    sym_assert((int)atEnd | (int)(conds && fire == steps), "returns-at-the-end-or-when-stopped");
    sym_assert(phase == 0, "complete-steps-only");
    if (TOL) {
        sym_assert(gotAtol == args.atol, "absolute-tolerance-forwarded");
        sym_assert(gotRtol == args.rtol, "relative-tolerance-forwarded");
    }
    int k = 0;
    auto is = [&](int kind, int st) {
        while (k < nev && ev[k] / 16 == COND) k++;
        return k < nev && ev[k] == kind * 16 + st ? (k++, true) : false;
    };
    sym_assert(is(START0, 0) && is(START1, 0), "start-operations-once-first-in-order");
    for (int s = 0; s < steps; s++) {
        sym_assert(is(OP0, s) && is(OP1, s), "operations-before-every-step-in-order");
        sym_assert(is(STEP, s), "one-iteration-per-step");
        sym_assert(evh[k - 1] == evh[k - 2], "operations-are-told-the-step-that-follows");
    }
    sym_assert(is(OP0, steps) && is(OP1, steps), "operations-at-the-end");
    sym_assert(is(STOP0, steps) && is(STOP1, steps), "stop-operations-once-last");
    while (k < nev && ev[k] / 16 == COND) k++;
    sym_assert(k == nev, "nothing-else-is-called");
    if (conds && fire == steps && !atEnd) sym_assert(calls[fireWhich] == steps + 1, "stop-conditions-checked-before-every-step");
}
extern "C" void run_end_sym() { symEnd = true, K = 2; run<SysP, false, true>(true, false, false); }
extern "C" void run_end() { run<SysP, false, true>(true, false, false); }
extern "C" void run_end_regu() { run<SysR, true, false>(true, false, false); }
extern "C" void run_cond() { K = 2; run<SysP, false, true>(true, true, false); }
extern "C" void run_cond_only() { K = 2; run<SysR, true, true>(false, true, false); }
extern "C" void run_default() { K = 1; run<SysP, false, true>(true, false, true); }
extern "C" void run_default_regu() { K = 1; run<SysR, true, true>(true, false, true); }
// a run without any stop condition is refused before anything happens
extern "C" void run_refused() {
    inputs<false>();
    Pt a(1, V3(0, 0, 0), V3(0, 0, 0)), b(1, V3(1, 0, 0), V3(0, 0, 0));
    hub::Simulator<SysP, It<false, true>> sim(t_[0], a, b);
    decltype(sim)::RunArgs args;
    args.step_size = next_[0];
    args.add_operation([](SysP&, double) { sym_assert(false, "operation-without-stop-condition"); });
    sym_assert(args.step_size == next_[0], "set-up");
    sym_expect_abort(1);
    sim.run(args);
    sym_expect_abort(0);
    sym_assert(false, "run-without-stop-condition-returns");
}
// a vanishing regularisation function: nothing is done
#ifdef SYM_NATIVE
#endif
