// Compensated numbers: every addition keeps exactly what rounding took away.
// Run with --fp E,S: scalars are IEEE numbers of that (small) format, the templates are instantiated with `float`. The native
// replay instantiates the same templates with SF, a software number of the same format, so that a counterexample rounds alike.
#include "sym.h"
#include <cmath>
#include <iostream>
#ifndef FE
#define FE 4
#define FS 5
#endif
#ifdef SYM_NATIVE
static double rnd(double d) {
    if (d == 0 || !std::isfinite(d)) return d;
    int e;
    std::frexp(d, &e);                                       // |d| in [2^(e-1), 2^e)
    int q = e - FS, qmin = 2 - (1 << (FE - 1)) - FS + 1;     // weight of the last digit
    if (q < qmin) q = qmin;
    double m = std::nearbyint(std::ldexp(d, -q)), r = std::ldexp(m, q);
    if (std::fabs(r) >= std::ldexp(1.0, 1 << (FE - 1))) return std::copysign(INFINITY, d);
    return r;
}
struct SF {
    double v;
    SF() = default;
    constexpr SF(double d) : v(d) {}
    constexpr SF(int d) : v(d) {}
    operator double() const { return v; }
    SF operator-() const { return SF(-v); }
    friend SF operator+(SF a, SF b) { return SF(rnd(a.v + b.v)); }
    friend SF operator-(SF a, SF b) { return SF(rnd(a.v - b.v)); }
    friend SF operator*(SF a, SF b) { return SF(rnd(a.v * b.v)); }
    friend SF operator/(SF a, SF b) { return SF(rnd(a.v / b.v)); }
    SF& operator+=(SF b) { return *this = *this + b; }
    SF& operator-=(SF b) { return *this = *this - b; }
    SF& operator*=(SF b) { return *this = *this * b; }
    SF& operator/=(SF b) { return *this = *this / b; }
    friend bool operator<(SF a, SF b) { return a.v < b.v; }
    friend bool operator>(SF a, SF b) { return a.v > b.v; }
    friend bool operator<=(SF a, SF b) { return a.v <= b.v; }
    friend bool operator>=(SF a, SF b) { return a.v >= b.v; }
    friend bool operator==(SF a, SF b) { return a.v == b.v; }
    friend bool operator!=(SF a, SF b) { return a.v != b.v; }
    friend bool operator>=(SF a, int b) { return a.v >= b; }
    friend bool operator>(SF a, int b) { return a.v > b; }
    friend bool operator<(SF a, int b) { return a.v < b; }
    friend bool operator<=(SF a, int b) { return a.v <= b; }
    friend bool operator==(SF a, int b) { return a.v == b; }
};
#endif
#include "/repo/src/kahan-number.hpp"
using namespace hub;
#ifdef SYM_NATIVE
using F = SF;
#else
using F = float;
#endif
#ifndef LIM
#define LIM 16
#endif
static F mag(F a) { return a >= F(0) ? a : -a; }
static F in(const char* n) {
    F x = F(sym_real(n, -LIM, LIM));
    sym_assume(x >= F(-LIM));
    sym_assume(x <= F(LIM));
    return x;
}
// Knuth's branch-free two-sum: s = fl(a+b), e = a+b-s exactly, for every a and b
struct SE { F s, e; };
static SE two(F a, F b) {
    F s = a + b, bb = s - a;
    return {s, (a - (s - bb)) + (b - bb)};
}
#define SUM "the sum is the rounded sum"
#define TOOK "the error term is exactly what rounding took"
#define CORR "the error kept so far corrects the increment"
#define SAME(a, b) ((double)(a) == (double)(b))
// value without error so far: the sum is the rounded sum, the error term exactly what rounding took
template <int OP>
static void kahan_exact() {
    F r = in("real"), b = in("b"), s = OP ? -b : b;
    sym_assume(mag(b) <= mag(r));                              // a small number is added to a big one
    Kahan<F> k(r), x(b);
    if (OP) k -= x; else k += x;
    SE t = two(r, s);
    sym_assert(SAME(k.real, t.s), SUM);
    sym_assert(SAME(-k.err, t.e), TOOK);
    sym_assert(SAME(x.real, b), "the operand is left alone");
}
extern "C" void kahan_add_exact() { kahan_exact<0>(); }
extern "C" void kahan_sub_exact() { kahan_exact<1>(); }
// any error so far: the increment is corrected by it, then added as above
template <int OP>
static void kahan_state() {
    F r = in("real"), c = in("err"), b = in("b");
    Kahan<F> k(r), x(b);
    k.err = c;
    if (OP) k -= x; else k += x;
    Kahan<F> g(r);
    Kahan<F> y(OP ? -b - c : b - c);
    g += y;
    sym_assert(SAME(k.real, g.real), CORR);
    sym_assert(SAME(k.err, g.err), CORR);
}
extern "C" void kahan_add_state() { kahan_state<0>(); }
extern "C" void kahan_sub_state() { kahan_state<1>(); }
template <int OP>
static void neumaier_exact() {
    F r = in("real"), b = in("b"), s = OP ? -b : b;
    Neumaier<F> k(r), x(b);
    if (OP) k -= x; else k += x;
    SE t = two(r, s);
    sym_assert(SAME(k.real, t.s), SUM);
    sym_assert(SAME(k.err, t.e), TOOK);
    sym_assert(SAME(x.real, b), "the operand is left alone");
}
extern "C" void neumaier_add_exact() { neumaier_exact<0>(); }
extern "C" void neumaier_sub_exact() { neumaier_exact<1>(); }
template <int OP>
static void neumaier_state() {
    F r = in("real"), c = in("err"), b = in("b");
    Neumaier<F> k(r), x(b);
    k.err = c;
    if (OP) k -= x; else k += x;
    Neumaier<F> g(r);
    g.err = F(-0.0);                                           // x + (-0) is x
    Neumaier<F> y(OP ? -b + c : b + c);
    g += y;
    sym_assert(SAME(k.real, g.real), CORR);
    sym_assert(SAME(k.err, g.err), CORR);
}
extern "C" void neumaier_add_state() { neumaier_state<0>(); }
extern "C" void neumaier_sub_state() { neumaier_state<1>(); }
// second order: with no error so far the first two-sum is trivial and the second is as above
template <int OP>
static void klein_exact() {
    F r = in("real"), b = in("b"), s = OP ? -b : b;
    Klein<F> k(r), x(b);
    if (OP) k -= x; else k += x;
    SE t = two(r, s);
    sym_assert(SAME(k.real, t.s), SUM);
    sym_assert(SAME(k.err, t.e), TOOK);
    sym_assert(SAME(k.err_of_err, 0), "no second error without a first");
}
extern "C" void klein_add_exact() { klein_exact<0>(); }
extern "C" void klein_sub_exact() { klein_exact<1>(); }
// an increment to zero: the second error term is exactly what rounding the corrected increment took
template <int OP>
static void klein_inner() {
    F c = in("err"), b = in("b"), s = OP ? -b : b;
    Klein<F> k(F(0)), x(b);
    k.err = c;
    if (OP) k -= x; else k += x;
    SE t = two(s, c);
    sym_assert(SAME(k.real, t.s), SUM);
    sym_assert(SAME(k.err, 0), "nothing is lost by adding to zero");
    sym_assert(SAME(k.err_of_err, t.e), "the second error term is exactly what rounding took from the increment");
}
extern "C" void klein_add_inner() { klein_inner<0>(); }
extern "C" void klein_sub_inner() { klein_inner<1>(); }
template <int OP>
static void klein_state() {
    F r = in("real"), c = in("err"), d = in("err2"), b = in("b");
    Klein<F> k(r), x(b);
    k.err = c; k.err_of_err = d;
    if (OP) k -= x; else k += x;
    // the increment first ...
    Klein<F> i(F(0)), y(OP ? -b : b);
    i.real = i.err_of_err = F(-0.0);
    i.err = c + d;
    i += y;
    // ... then its rounded sum
    Klein<F> g(r), z(i.real);
    g.err = g.err_of_err = F(-0.0);
    g += z;
    sym_assert(SAME(k.err_of_err, i.err_of_err), "the errors kept so far correct the increment");
    sym_assert(SAME(k.real, g.real), CORR);
    sym_assert(SAME(k.err, g.err), CORR);
}
extern "C" void klein_add_state() { klein_state<0>(); }
extern "C" void klein_sub_state() { klein_state<1>(); }
// values (exact reals): construction, copies, assignment, conversion, negation, scaling, chains of sums
template <typename K>
static void values() {
    using V = typename K::value_type;
    double a = sym_real("a", -2, 2), b = sym_real("b", -2, 2), c = sym_real("c", -2, 2), d = sym_pos("d", 0.1, 2);
    K x(a), y(b);
    sym_assert_eq((double)(V)x, (double)a, "value of a new number");
    sym_assert_eq((double)x.err, 0, "no error of a new number");
    x.err = c;
    K z(x), w(V(7.0));
    w = x;
    sym_assert_eq((double)z.real, a, "a copy has the value");
    sym_assert_eq((double)z.err, c, "a copy has the error");
    sym_assert_eq((double)w.real, a, "an assigned number has the value");
    sym_assert_eq((double)w.err, c, "an assigned number has the error");
    w = V(b);
    sym_assert_eq((double)w.real, b, "assignment of a plain number: value");
    sym_assert_eq((double)w.err, 0, "assignment of a plain number: no error is left");
    x.zero_err();
    sym_assert_eq((double)x.real, a, "zero_err leaves the value");
    sym_assert_eq((double)x.err, 0, "zero_err");
    K n = -x;
    sym_assert_eq((double)n.real, -a, "negative");
    K s(a);
    s += y;
    sym_assert_eq((double)s.real, a + b, "sum");
    s -= K(V(c));
    sym_assert_eq((double)s.real, a + b - c, "difference");
    s += s;
    sym_assert_eq((double)s.real, 2 * (a + b - c), "a number added to itself");
    s *= K(V(d));
    sym_assert_eq((double)s.real, 2 * (a + b - c) * d, "product");
    s /= K(V(d));
    sym_assert_eq((double)s.real, 2 * (a + b - c), "quotient");
    s -= s;
    sym_assert_eq((double)s.real, 0, "a number subtracted from itself");
    sym_assert_eq((double)y.real, b, "operands are left alone");
}
#ifndef SYM_NATIVE
#define VAL(K) values<K<float>>()
#else
#define VAL(K) values<K<double>>()
#endif
extern "C" void kahan_values() { VAL(Kahan); }
extern "C" void neumaier_values() { VAL(Neumaier); }
extern "C" void klein_values() { VAL(Klein); }
