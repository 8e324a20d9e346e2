// P29: vectors, arrays of scalars and vectors, and small numeric helpers
#include "common.h"
template <typename T> using VT = Vec3<T>;
static double d(double x) { return x; }
template <typename T> static double d(Kahan<T> const& x) { return x.real; }
template <typename T> static void isV(VT<T> const& v, double x, double y, double z, const char* l) {
    sym_assert_eq(d(v.x), x, l); sym_assert_eq(d(v.y), y, l); sym_assert_eq(d(v.z), z, l);
}
// ------------------------------------------------------------------ vectors
template <typename A, typename B> static void vecOps() {
    double ax = sym_real("ax", -2, 2), ay = sym_real("ay", -2, 2), az = sym_real("az", -2, 2);
    double bx = sym_pos("bx", 0.1, 2), by = sym_pos("by", 0.1, 2), bz = sym_pos("bz", 0.1, 2);
    double c = sym_pos("c", 0.1, 2), e = sym_real("e", -2, 2);
    VT<A> a(ax, ay, az);
    VT<B> b(bx, by, bz);
    using R = A;
    isV(VT<R>(a + b), ax + bx, ay + by, az + bz, "sum of vectors");
    isV(VT<R>(a - b), ax - bx, ay - by, az - bz, "difference of vectors");
    isV(VT<R>(a * b), ax * bx, ay * by, az * bz, "product of vectors by component");
    isV(VT<R>(a / b), ax / bx, ay / by, az / bz, "quotient of vectors by component");
    isV(VT<R>(a + c), ax + c, ay + c, az + c, "vector plus number");
    isV(VT<R>(a - c), ax - c, ay - c, az - c, "vector minus number");
    isV(VT<R>(a * c), ax * c, ay * c, az * c, "vector times number");
    isV(VT<R>(a / c), ax / c, ay / c, az / c, "vector divided by number");
    isV(VT<R>(A(e) + a), e + ax, e + ay, e + az, "number plus vector");
    isV(VT<R>(A(e) - a), e - ax, e - ay, e - az, "number minus vector");
    isV(VT<R>(A(e) * a), e * ax, e * ay, e * az, "number times vector");
    isV(VT<B>(B(e) / b), e / bx, e / by, e / bz, "number divided by vector");
    isV(VT<R>(-a), -ax, -ay, -az, "negative vector");
    VT<A> v(a);
    auto& r1 = (v += b); isV(v, ax + bx, ay + by, az + bz, "+= vector"); sym_assert(&r1 == &v, "the vector itself is handed back");
    v = a; v -= b; isV(v, ax - bx, ay - by, az - bz, "-= vector");
    v = a; v *= b; isV(v, ax * bx, ay * by, az * bz, "*= vector");
    v = a; v /= b; isV(v, ax / bx, ay / by, az / bz, "/= vector");
    v = a; v += A(c); isV(v, ax + c, ay + c, az + c, "+= number");
    v = a; v -= A(c); isV(v, ax - c, ay - c, az - c, "-= number");
    v = a; v *= A(c); isV(v, ax * c, ay * c, az * c, "*= number");
    v = a; v /= A(c); isV(v, ax / c, ay / c, az / c, "/= number");
    // a vector combined with itself or one of its own components
    v = a; v += v; isV(v, 2 * ax, 2 * ay, 2 * az, "+= itself");
    v = a; v -= v; isV(v, 0, 0, 0, "-= itself");
    v = a; v *= v; isV(v, ax * ax, ay * ay, az * az, "*= itself");
    v = VT<A>(bx, by, bz); v *= v.x; isV(v, bx * bx, by * bx, bz * bx, "*= its first component");
    v = VT<A>(bx, by, bz); v /= v.x; isV(v, 1, by / bx, bz / bx, "/= its first component");
    v = VT<A>(bx, by, bz); v += v.y; isV(v, bx + by, by + by, bz + by, "+= its second component");
    v = A(e); isV(v, e, e, e, "assignment of a number");
    isV(VT<A>(A(e)), e, e, e, "vector from one number");
    isV(VT<A>(), 0, 0, 0, "default vector");
    isV(VT<A>(b), bx, by, bz, "conversion between vector types");
    isV(a, ax, ay, az, "operands are left alone");
    // products
    sym_assert_eq(d(dot(a, b)), ax * bx + ay * by + az * bz, "inner product");
    isV(VT<R>(cross(a, b)), ay * bz - az * by, az * bx - ax * bz, ax * by - ay * bx, "cross product");
    sym_assert_eq(d(norm2(a)), ax * ax + ay * ay + az * az, "squared length");
    sym_assert_eq(d(a.norm2()), ax * ax + ay * ay + az * az, "squared length (member)");
    double n = d(norm(a));
    sym_assert(n >= 0, "a length is not negative");
    sym_assert_eq(n * n, ax * ax + ay * ay + az * az, "length");
    double m = d(a.norm());
    sym_assert_eq(m * m, ax * ax + ay * ay + az * az, "length (member)");
    double nb = d(norm(b));
    sym_assert_eq(d(re_norm(b)) * nb, 1, "inverse length");
    sym_assert_eq(d(b.re_norm()) * nb, 1, "inverse length (member)");
    double dist = d(distance(a, b));
    sym_assert(dist >= 0, "a distance is not negative");
    sym_assert_eq(dist * dist, (ax - bx) * (ax - bx) + (ay - by) * (ay - by) + (az - bz) * (az - bz), "distance");
}
extern "C" void vec_plain() { vecOps<double, double>(); sym_end(); }
extern "C" void vec_precise() { vecOps<double_k, double_k>(); sym_end(); }
extern "C" void vec_mixed() { vecOps<double, float>(); sym_end(); }
// comparisons of components
extern "C" void vec_order() {
    V3 a = symV("a"), b = symV("b");
    auto A = [](double x) { return x < 0 ? -x : x; };
    V3 p = vec_abs(a), q = a.abs();
    for (auto& v : {p, q}) { sym_assert_eq(v.x, A(a.x), "absolute values"); sym_assert_eq(v.y, A(a.y), "absolute values"); sym_assert_eq(v.z, A(a.z), "absolute values"); }
    V3 hi = vec_max(a, b), lo = vec_min(a, b);
    const double* x[] = {&a.x, &a.y, &a.z};
    const double* y[] = {&b.x, &b.y, &b.z};
    const double* h[] = {&hi.x, &hi.y, &hi.z};
    const double* l[] = {&lo.x, &lo.y, &lo.z};
    for (int i = 0; i < 3; i++) {
        sym_assert(*h[i] >= *x[i] && *h[i] >= *y[i] && (*h[i] == *x[i] || *h[i] == *y[i]), "bigger components");
        sym_assert(*l[i] <= *x[i] && *l[i] <= *y[i] && (*l[i] == *x[i] || *l[i] == *y[i]), "smaller components");
    }
    sym_end();
}
extern "C" void vec_largest() {
    V3 a = symV("a");
    double m = a.max_component(), n = max_abs(a);
    sym_assert(m >= a.x && m >= a.y && m >= a.z && (m == a.x || m == a.y || m == a.z), "largest component");
    auto A = [](double x) { return x < 0 ? -x : x; };
    double p = A(a.x), q = A(a.y), r = A(a.z);
    sym_assert(n >= p && n >= q && n >= r && (n == p || n == q || n == r), "largest size of a component");
    sym_end();
}
// expression templates: one expression at a time, evaluated by component
extern "C" void vec_lazy() {
    using L = lazy::LazyVec3<double>;
    V3 A = symV("a"), B(sym_pos("bx", 0.1, 2), sym_pos("by", 0.1, 2), sym_pos("bz", 0.1, 2));
    double c = sym_pos("c", 0.1, 2);
    L a(A.x, A.y, A.z), b(B.x, B.y, B.z), v;
    auto is = [](L const& v, V3 const& w, const char* l) { isV(V3(v.x, v.y, v.z), w.x, w.y, w.z, l); };
    v = a + b * c; is(v, A + B * c, "a + b c");
    v = (a - b) / c; is(v, (A - B) / c, "(a - b) / c");
    v = c * a - b * b; is(v, c * A - B * B, "c a - b b");
    v = -a / b; is(v, -A / B, "-a / b");
    v = a; v += b * c; is(v, A + B * c, "+= expression");
    v = a; v -= b + c; is(v, A - B - c, "-= expression");
    v = a; v *= b - a; is(v, A * (B - A), "*= expression");
    v = a; v /= b * 2.0; is(v, A / (B * 2.0), "/= expression");
    v = a; v = v * v + v; is(v, A * A + A, "an expression of the vector itself");
    v = a; v += v; is(v, A + A, "+= itself");
    L w(a * b); is(w, A * B, "made from an expression");
    L u(c); is(u, V3(c, c, c), "made from a number");
    L z; is(z, V3(0, 0, 0), "default vector");
    sym_assert_eq(lazy::dot(a, b), dot(A, B), "inner product");
    is(lazy::cross(a, b), cross(A, B), "cross product");
    sym_assert_eq(lazy::norm2(a), norm2(A), "squared length");
    double n = lazy::norm(a), m = lazy::distance(a, b), r = lazy::re_norm(b), nb = lazy::norm(b);
    sym_assert_eq(n * n, norm2(A), "length");
    sym_assert_eq(m * m, norm2(A - B), "distance");
    sym_assert_eq(r * nb, 1, "inverse length");
    sym_end();
}
// ------------------------------------------------------------------ arrays
template <typename T> struct Mk;
template <> struct Mk<double> {
    static double sym(std::string const& n) { return sym_real(n.c_str(), -2, 2); }
    static double pos(std::string const& n) { return sym_pos(n.c_str(), 0.1, 2); }
};
template <> struct Mk<V3> {
    static V3 sym(std::string const& n) { return symV(n); }
    static V3 pos(std::string const& n) { return V3(sym_pos((n + "x").c_str(), 0.1, 2), sym_pos((n + "y").c_str(), 0.1, 2), sym_pos((n + "z").c_str(), 0.1, 2)); }
};
static V3 one(double) { return V3(1, 0, 0); }
static void is(double a, double b, const char* l) { sym_assert_eq(a, b, l); }
static void is(double_k const& a, double b, const char* l) { sym_assert_eq(a.real, b, l); }
static void is(V3 const& a, V3 const& b, const char* l) { isV(a, b.x, b.y, b.z, l); }
static void is(VT<double_k> const& a, V3 const& b, const char* l) { isV(a, b.x, b.y, b.z, l); }
// T: values, S: values of the state (may be precise)
template <typename T, typename S> static void arrays() {
    int n = (int)sym_choose("n", 4);
    std::vector<T> A, B, C, P;
    for (int i = 0; i < n; i++) { A.push_back(Mk<T>::sym(nm("a", i))); B.push_back(Mk<T>::sym(nm("b", i))); C.push_back(Mk<T>::sym(nm("c", i))); P.push_back(Mk<T>::pos(nm("d", i))); }
    llvm::SmallVector<T, 2> a(A.begin(), A.end()), b(B.begin(), B.end()), c(C.begin(), C.end()), p(P.begin(), P.end()), o(n);
    double s = sym_real("s", -2, 2), q = sym_pos("q", 0.1, 2), z = sym_real("z", -2, 2);
    using namespace hub::calc;
#define EACH(e, l) for (int i = 0; i < n; i++) is(o[i], e, l)
    array_add(o, a, b); EACH(A[i] + B[i], "array_add");
    array_add(o, a, b, c); EACH(A[i] + B[i] + C[i], "array_add of three");
    array_mul(o, a, b); EACH(A[i] * B[i], "array_mul");
    array_mul(o, a, b, c); EACH(A[i] * B[i] * C[i], "array_mul of three");
    array_sub(o, a, b); EACH(A[i] - B[i], "array_sub");
    array_div(o, a, p); EACH(A[i] / P[i], "array_div");
    array_scale(o, a, s); EACH(A[i] * s, "array_scale");
    array_div_scale(o, a, q); EACH(A[i] / q, "array_div_scale");
    array_scale_add(o, a, b, s); EACH((A[i] + B[i]) * s, "array_scale_add");
    array_scale_add(o, a, s, b, z); EACH(A[i] * s + B[i] * z, "array_scale_add of two factors");
    array_scale_sub(o, a, b, s); EACH((A[i] - B[i]) * s, "array_scale_sub");
    o = a; array_scale(o, o, s); EACH(A[i] * s, "array_scale in place");
    o = a; array_add(o, o, b); EACH(A[i] + B[i], "array_add in place");
    o = a; array_sub(o, b, o); EACH(B[i] - A[i], "array_sub in place");
    array_advance(o, a, b, s); EACH(A[i] + B[i] * s, "array_advance from another array");
    array_retreat(o, a, b, s); EACH(A[i] - B[i] * s, "array_retreat from another array");
    o = a; array_set_zero(o); EACH(A[i] * 0, "array_set_zero");
    { auto x = a, y = b; set_arrays_zero(x, y); for (int i = 0; i < n; i++) { is(x[i], A[i] * 0, "set_arrays_zero: first"); is(y[i], A[i] * 0, "set_arrays_zero: second"); } }
    // the state may be of a precise type
    llvm::SmallVector<S, 2> v;
    auto set = [&] { v.clear(); for (int i = 0; i < n; i++) v.emplace_back(A[i]); };
#define STATE(e, l) for (int i = 0; i < n; i++) is(v[i], e, l)
    set(); array_advance(v, b); STATE(A[i] + B[i], "array_advance");
    set(); array_advance(v, b, s); STATE(A[i] + B[i] * s, "array_advance by a step");
    set(); array_retreat(v, b); STATE(A[i] - B[i], "array_retreat");
    set(); array_retreat(v, b, s); STATE(A[i] - B[i] * s, "array_retreat by a step");
    for (int i = 0; i < n; i++) { is(a[i], A[i], "operands are left alone"); is(b[i], B[i], "operands are left alone"); }
    sym_end();
}
extern "C" void arr_scalar() { arrays<double, double>(); }
extern "C" void arr_vector() { arrays<V3, V3>(); }
extern "C" void arr_scalar_precise() { arrays<double, double_k>(); }
extern "C" void arr_vector_precise() { arrays<V3, VT<double_k>>(); }
extern "C" void arr_reduce() {
    int n = (int)sym_choose("n", 4);
    llvm::SmallVector<double, 2> a, b, c, o(n);
    llvm::SmallVector<V3, 2> u, v;
    double sum = 0, ab = 0, abc = 0, uv = 0, cuv = 0;
    V3 us(0, 0, 0);
    for (int i = 0; i < n; i++) {
        a.push_back(sym_real(nm("a", i).c_str(), -2, 2)); b.push_back(sym_real(nm("b", i).c_str(), -2, 2)); c.push_back(sym_real(nm("c", i).c_str(), -2, 2));
        u.push_back(symV(nm("u", i))); v.push_back(symV(nm("v", i)));
        sum += a[i]; ab += a[i] * b[i]; abc += a[i] * b[i] * c[i];
        double w = u[i].x * v[i].x + u[i].y * v[i].y + u[i].z * v[i].z;
        uv += w; cuv += c[i] * w;
        us = V3(us.x + u[i].x, us.y + u[i].y, us.z + u[i].z);
    }
    sym_assert_eq(calc::array_sum(a), sum, "array_sum");
    sym_assert_eq(calc::array_dot(a, b), ab, "array_dot");
    sym_assert_eq(calc::array_dot(a, b, c), abc, "array_dot of three");
    calc::coord_dot(o, u, v);
    for (int i = 0; i < n; i++) sym_assert_eq(o[i], u[i].x * v[i].x + u[i].y * v[i].y + u[i].z * v[i].z, "coord_dot");
    sym_assert_eq(calc::coord_contract_to_scalar(u, v), uv, "coord_contract_to_scalar");
    sym_assert_eq(calc::coord_contract_to_scalar(c, u, v), cuv, "coord_contract_to_scalar with weights");
    sym_assert_eq(calc::add(sum, ab, abc), sum + ab + abc, "add");
    sym_assert_eq(calc::mul(sum, ab, 2.0), sum * ab * 2, "mul");
    sym_end();
}
extern "C" void arr_logic() {
    bool x = sym_choose("x", 2), y = sym_choose("y", 2), z = sym_choose("z", 2);
    sym_assert(calc::any(x, y, z) == (x || y || z), "any");
    sym_assert(calc::all(x, y, z) == (x && y && z), "all");
    sym_end();
}
// error terms of precise arrays
extern "C" void arr_err() {
    int n = (int)sym_choose("n", 3);
    llvm::SmallVector<double_k, 2> s(n), t(n);
    llvm::SmallVector<VT<double_k>, 2> v(n), w(n);
    llvm::SmallVector<double, 2> p(n), q(n);
    llvm::SmallVector<V3, 2> u(n), r(n);
    for (int i = 0; i < n; i++) {
        s[i] = double_k(sym_real(nm("s", i).c_str(), -2, 2)); s[i].err = sym_real(nm("se", i).c_str(), -2, 2);
        V3 x = symV(nm("v", i)), e = symV(nm("ve", i));
        v[i] = VT<double_k>(x.x, x.y, x.z); v[i].x.err = e.x; v[i].y.err = e.y; v[i].z.err = e.z;
        t[i] = double_k(1.0); w[i] = VT<double_k>(1.0, 2.0, 3.0);
        p[i] = sym_real(nm("p", i).c_str(), -2, 2); u[i] = symV(nm("u", i));
    }
    calc::array_save_err(q, s); calc::array_save_err(r, v);
    for (int i = 0; i < n; i++) { sym_assert_eq(q[i], s[i].err, "saved error"); is(r[i], V3(v[i].x.err, v[i].y.err, v[i].z.err), "saved errors"); }
    calc::array_copy_err(t, s); calc::array_copy_err(w, v);
    for (int i = 0; i < n; i++) {
        sym_assert_eq(t[i].err, s[i].err, "copied error"); sym_assert_eq(t[i].real, 1, "values stay");
        is(V3(w[i].x.err, w[i].y.err, w[i].z.err), V3(v[i].x.err, v[i].y.err, v[i].z.err), "copied errors"); is(w[i], V3(1, 2, 3), "values stay");
    }
    calc::array_load_err(t, p); calc::array_load_err(w, u);
    for (int i = 0; i < n; i++) {
        sym_assert_eq(t[i].err, p[i], "loaded error"); sym_assert_eq(t[i].real, 1, "values stay");
        is(V3(w[i].x.err, w[i].y.err, w[i].z.err), u[i], "loaded errors"); is(w[i], V3(1, 2, 3), "values stay");
    }
    calc::array_set_err_zero(t); calc::array_set_err_zero(w);
    for (int i = 0; i < n; i++) {
        sym_assert_eq(t[i].err, 0, "no error"); sym_assert_eq(t[i].real, 1, "values stay");
        is(V3(w[i].x.err, w[i].y.err, w[i].z.err), V3(0, 0, 0), "no errors"); is(w[i], V3(1, 2, 3), "values stay");
    }
    // nothing happens to plain vectors
    auto u0 = u;
    calc::array_load_err(u, u0); calc::array_set_err_zero(u); calc::array_copy_err(u, r); calc::array_save_err(r, u);
    for (int i = 0; i < n; i++) is(u[i], u0[i], "plain vectors have no error");
    sym_end();
}
// flattening vectors into arrays and back
template <typename T> static void coords() {
    int n = (int)sym_choose("n", 4);
    std::vector<V3> V;
    llvm::SmallVector<VT<T>, 2> v;
    std::vector<double> base;
    for (int i = 0; i < n; i++) { V.push_back(symV(nm("v", i))); v.emplace_back(VT<T>(V[i].x, V[i].y, V[i].z)); }
    for (int i = 0; i < 3 * n + 1; i++) base.push_back(sym_real(nm("f", i).c_str(), -2, 2));
    double s = sym_real("s", -2, 2);
    std::vector<double> f{base[0]};
    add_coords_to(f, v);
    sym_assert(f.size() == 3 * (size_t)n + 1, "three numbers for every vector");
    if (f.size() != 3 * (size_t)n + 1) return;
    sym_assert_eq(f[0], base[0], "what was there stays");
    for (int i = 0; i < n; i++) { sym_assert_eq(f[3 * i + 1], V[i].x, "x"); sym_assert_eq(f[3 * i + 2], V[i].y, "y"); sym_assert_eq(f[3 * i + 3], V[i].z, "z"); }
    std::vector<double> g;
    add_scaled_coords_to(g, v, s);
    sym_assert(g.size() == 3 * (size_t)n, "three numbers for every vector");
    if (g.size() != 3 * (size_t)n) return;
    for (int i = 0; i < n; i++) { sym_assert_eq(g[3 * i], V[i].x * s, "scaled x"); sym_assert_eq(g[3 * i + 1], V[i].y * s, "scaled y"); sym_assert_eq(g[3 * i + 2], V[i].z * s, "scaled z"); }
    auto h = base;
    advance_coords_to(h.begin() + 1, v);
    sym_assert_eq(h[0], base[0], "what is before stays");
    for (int i = 0; i < 3 * n; i++) { double c = i % 3 == 0 ? V[i / 3].x : i % 3 == 1 ? V[i / 3].y : V[i / 3].z; sym_assert_eq(h[i + 1], base[i + 1] + c, "advanced"); }
    h = base;
    advance_scaled_coords_to(h.begin() + 1, v, s);
    for (int i = 0; i < 3 * n; i++) { double c = i % 3 == 0 ? V[i / 3].x : i % 3 == 1 ? V[i / 3].y : V[i / 3].z; sym_assert_eq(h[i + 1], base[i + 1] + c * s, "advanced by a step"); }
    llvm::SmallVector<VT<T>, 2> w(sym_choose("old", 2) ? 4 : 0);
    load_to_coords(base.begin() + 1, base.end(), w);
    sym_assert(w.size() == (size_t)n, "a vector for every three numbers");
    if (w.size() == (size_t)n) for (int i = 0; i < n; i++) isV(w[i], base[3 * i + 1], base[3 * i + 2], base[3 * i + 3], "loaded");
    sym_end();
}
extern "C" void coords_plain() { coords<double>(); }
extern "C" void coords_precise() { coords<double_k>(); }
// ------------------------------------------------------------------ numeric helpers
extern "C" void num_simple() {
    double x = sym_real("x", -2, 2), y = sym_real("y", -2, 2), lo = sym_real("lo", -2, 2), hi = sym_real("hi", -2, 2);
    sym_assume(lo <= hi);
    double a = math::min(x, y), b = math::max(x, y);
    sym_assert(a <= x && a <= y && (a == x || a == y), "min");
    sym_assert(b >= x && b >= y && (b == x || b == y), "max");
    double c = math::in_range(lo, x, hi);
    sym_assert(c >= lo && c <= hi, "in_range is in the range");
    sym_assert(x < lo ? c == lo : x > hi ? c == hi : c == x, "in_range leaves values of the range alone");
    sym_assert_eq(math::abs(x), x < 0 ? -x : x, "abs");
    sym_assert_eq(math::step(x), x > 0 ? 1 : 0, "step");
    sym_assume(x < 0 || x > 0);
    sym_assert_eq(math::sign(x), x < 0 ? -1 : 1, "sign");
    sym_assert_eq(math::sign(x) * math::abs(x), x, "sign and size");
    sym_assert(math::iseq(x, x), "a number equals itself");
    sym_assert(!math::iseq(x, x + 1e-9), "different numbers are not equal");
    sym_end();
}
extern "C" void num_mixed() {                                 // arguments of different types
    double x = sym_real("x", -2, 2);
    sym_assert_eq(math::min(x, 1), x > 1 ? 1 : x, "min of a number and an integer");
    sym_end();
}
// bisection: any start interval of up to eight roundings, a continuous function with one sign change (rising or falling)
template <int RISING> static void bisect(double base) {
    double eps = 2.220446049250313e-16, w = eps * 8;
    double r = sym_box("root", 0, 1), slope = sym_pos("slope", 0.5, 2);
    double lo = base, hi = base + w * (base > 0 ? base : base < 0 ? -base : 1);
    double root = lo + (hi - lo) * r;
    double found = math::root_bisection([&](double x) { return (RISING ? slope : -slope) * (x - root); }, lo, hi);
    sym_assert(found >= lo && found <= hi, "the root is looked for inside the interval");
    double size = hi > 0 ? hi : -hi;
    sym_assert(found - root <= eps * size * 1.01, "not above the root");
    sym_assert(root - found <= eps * size * 1.01, "not below the root");
}
extern "C" void num_bisect_up() { bisect<1>(1); sym_end(); }
extern "C" void num_bisect_down() { bisect<0>(1); sym_end(); }
extern "C" void num_bisect_negative() { bisect<1>(-2); sym_end(); }
extern "C" void num_newton() {
    double r = sym_box("root", 2, 3), b = sym_box("middle", -3, -1);
    int calls = 0;
    double x = math::root_newton([&](double x) { calls++; return x > b && calls < 2 ? x - (b + 0.5) : x - r; });
    sym_assert_eq(x, r, "a root is a place the iteration does not leave");
    sym_end();
}
