// P18: slices of callbacks in time, logarithmic time and steps; collision detection
#include "common.h"
struct Clock { using Scalar = double; double t = 0; double time() const { return t; } };
static int fired; static double firedH, firedT;
static bool answer;
struct OpV { void operator()(Clock& c, double h) { fired++, firedH = h, firedT = c.t; } };
struct OpB { bool operator()(Clock& c, double h) { fired++, firedH = h, firedT = c.t; return answer; } };
static void called(int before, bool expect, Clock const& c, double h, const char* l) {
    sym_assert(fired == before + (expect ? 1 : 0), l);
    if (expect && fired > before) {
        sym_assert(firedH == h, "passes-on-the-step-size");
        sym_assert(firedT == c.t, "passes-on-the-system");
    }
}
template <typename S, bool B, typename F> static void feed(S& sl, int n, const char* p, F expect) {
    for (int k = 0; k < n; k++) {
        Clock c;
        c.t = sym_real(nm(p, k).c_str(), -2, 6);
        double h = sym_real((nm(p, k) + "h").c_str(), 0.1, 1);
        int before = fired;
        bool e = expect(c.t);
        if constexpr (B) {
            answer = sym_choose((nm(p, k) + "answer").c_str(), 2);
            bool r = sl(c, h);
            sym_assert(r == (e && answer), "answers-what-the-operation-answers");
        } else sl(c, h);
        called(before, e, c, h, "invoked-iff-a-slice-is-due");
    }
}
template <bool B> static void timeSlice(int n, bool reset) {
    using Op = std::conditional_t<B, OpB, OpV>;
    fired = 0;
    double a = sym_real("start", -1, 1), b = sym_real("end", 2, 4);
    sym_assume(b >= a);
    if (reset) a = 7;
    size_t num = sym_choose("num", 3) + 1;
    callback::TimeSlice<Op, double> sl(Op{}, a, b + (reset ? 10 : 0), reset ? 3 : num);
    int count = 0;
    if (reset) {
        Clock c;
        c.t = 9;
        sl(c, 1);
        a = sym_real("start2", -1, 1);
        sym_assume(b >= a);
        sl.reset_slice_params(a, b, num);
    }
    feed<decltype(sl), B>(sl, n, "t", [&](double t) { bool e = t <= b && t >= a + count * ((b - a) / (double)num); count += e; return e; });
}
extern "C" void time_void() { timeSlice<false>(3, false); }
extern "C" void time_bool() { timeSlice<true>(3, false); }
extern "C" void time_reset() { timeSlice<false>(2, true); timeSlice<true>(1, true); }
template <bool B> static void logSlice(int n, bool reset) {
    using Op = std::conditional_t<B, OpB, OpV>;
    fired = 0;
    int which = sym_choose("span", 2);
    static const double D[] = {16, 81}, F[] = {2, 3};
    static const int N[] = {4, 4};
    double a = sym_real("start", -1, 1);
    sym_assume(a * a < 1e6);
    callback::LogTimeSlice<Op, double> sl(Op{}, reset ? 100 : a, reset ? 164 : a + D[which], reset ? 2 : N[which]);
    if (reset) {
        Clock c;
        c.t = 109;
        sl(c, 1);
        sym_assert(fired == 1, "fires");
        sl.reset_slice_params(a, a + D[which], N[which]);
    }
    double f = F[which], due = f;     // due - start
    feed<decltype(sl), B>(sl, n, "t", [&](double t) {
        double x = t - a;
        if (x > D[which] || x < due) return false;
        do due *= f; while (due <= x);
        return true;
    });
}
extern "C" void log_void() { logSlice<false>(3, false); }
extern "C" void log_bool() { logSlice<true>(2, false); }
extern "C" void log_reset() { logSlice<false>(2, true); }
// a span of exactly one time unit has all its slices at its end
extern "C" void log_unit() {
    fired = 0;
    double a = sym_choose("start", 2) ? 0 : 3;
    callback::LogTimeSlice<OpV, double> sl(OpV{}, a, a + 1, 5);
    Clock c;
    c.t = sym_real("t", -1, 4);
    sl(c, 0.5);
    sym_reach("returns");
    sym_assert(fired == (c.t == a + 1 ? 1 : 0), "invoked-iff-a-slice-is-due");
}
template <bool B> static void stepSlice() {
    using Op = std::conditional_t<B, OpB, OpV>;
    fired = 0;
    size_t k = sym_choose("interval", 4), phase = 0;
    callback::StepSlice<Op> dflt, sl = k == 0 ? callback::StepSlice<Op>(Op{}) : callback::StepSlice<Op>(Op{}, k);
    size_t n = k == 0 ? 1 : k;
    auto& s = sym_choose("default", 2) ? (n = 1, dflt) : sl;
    feed<callback::StepSlice<Op>, B>(s, 1 + (int)sym_choose("calls", 5), "t", [&](double) { return phase++ % n == 0; });
    if (B) return;
    n = sym_choose("interval2", 3) + 1;
    s.reset_slice_params(n);
    phase = 0;
    feed<callback::StepSlice<Op>, B>(s, 4, "u", [&](double) { return phase++ % n == 0; });
}
extern "C" void step_void() { stepSlice<false>(); }
extern "C" void step_bool() { stepSlice<true>(); }
// collisions: any pair whose spheres touch
static double box3(const char* p, int i) { return sym_real(nm(p, i).c_str(), -1, 1); }
template <typename PS> static void collide(PS& s, int n) {
    bool touch = false;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) {
            double dx = s.pos(i).x - s.pos(j).x, dy = s.pos(i).y - s.pos(j).y, dz = s.pos(i).z - s.pos(j).z, r = s.radius(i) + s.radius(j);
            if (dx * dx + dy * dy + dz * dz <= r * r) touch = true;
        }
    callback::StickyCollision c;
    bool hit = c(s, sym_real("h", 0, 1));
    sym_reach(hit ? "touching" : "apart");
    sym_assert(hit == touch, "collision-iff-some-pair-touches");
}
template <typename F> static void collideN(int n, bool line) {
    using FP = particles::SizeParticles<DT>;
    using S = F;
    std::vector<typename FP::Particle> ps;
    for (int i = 0; i < n; i++) {
        V3 p = line ? V3(0, 0, 0) : symV(nm("p", i));
        if (line) (i % 3 == 0 ? p.x : i % 3 == 1 ? p.y : p.z) = sym_real(nm("q", i).c_str(), -1, 1);
        double r = sym_pos(nm("r", i).c_str(), 0.1, 1);
        ps.emplace_back(1.0, r, p, V3(0, 0, 0));
    }
    S s(0.0, ps);
    collide(s, n);
}
using FPS = particles::SizeParticles<DT>;
using NF = force::Interactions<force::NewtonianGrav>;
extern "C" void collide2() { collideN<system::SimpleSystem<FPS, NF>>(2, false); }
extern "C" void collide3() { collideN<system::SimpleSystem<FPS, NF>>(3, true); }
extern "C" void collide_chain() { collideN<system::ChainSystem<FPS, NF>>(2, false); }
extern "C" void collide4() { collideN<system::SimpleSystem<FPS, NF>>(4, true); }
