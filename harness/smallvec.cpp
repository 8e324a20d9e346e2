// P30: the array type behind every particle array is a list: any history of operations, small buffer or heap
#include "sym.h"
#include <vector>
#include <list>
#include <string>
#include "/repo/src/small-vector.hpp"
#ifndef STEPS
#define STEPS 1
#endif
#ifndef SYM_NATIVE
template class std::basic_string<char>;
#endif
static std::string nm(const char* p, int i) { return std::string(p) + std::to_string(i); }
static int alive = 0;
struct Obj {                                                   // an element that owns memory
    double* p;
    Obj() : p(new double(0)) { alive++; }
    Obj(double d) : p(new double(d)) { alive++; }
    Obj(Obj const& o) : p(o.p ? new double(*o.p) : nullptr) { alive++; }
    Obj(Obj&& o) : p(o.p) { o.p = nullptr; alive++; }
    Obj& operator=(Obj const& o) { if (this != &o) { delete p; p = o.p ? new double(*o.p) : nullptr; } return *this; }
    Obj& operator=(Obj&& o) { if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
    ~Obj() { delete p; p = nullptr; alive--; }
};
static double val(double d) { return d; }
static double val(Obj const& o) { if (!o.p) { sym_fail("an element was moved away"); return 0; } return *o.p; }
static int serial;
static double fresh() { return sym_real(nm("x", serial++).c_str(), -2, 2); }
using R = std::vector<double>;
template <typename V> static void same(V const& v, R const& r) {
    sym_assert(v.size() == r.size(), "size");
    sym_assert(v.empty() == r.empty(), "empty");
    sym_assert(v.capacity() >= r.size(), "capacity");
    if (v.size() != r.size()) return;
    for (size_t i = 0; i < r.size(); i++) sym_assert_eq(val(v[i]), r[i], "element");
    size_t k = 0;
    for (auto const& x : v) { sym_assert(k < r.size(), "iteration ends"); sym_assert_eq(val(x), r[k++], "element in iteration"); }
    sym_assert(k == r.size(), "iteration visits all");
    if (!r.empty()) { sym_assert_eq(val(v.front()), r.front(), "front"); sym_assert_eq(val(v.back()), r.back(), "back"); }
    k = r.size();
    for (auto i = v.rbegin(); i != v.rend(); ++i) sym_assert_eq(val(*i), r[--k], "element in reverse iteration");
}
template <typename E, unsigned N> using SV = llvm::SmallVector<E, N>;
template <typename E, unsigned N> static void fill(SV<E, N>& v, R& r, int n) {
    for (int i = 0; i < n; i++) { double x = fresh(); v.push_back(E(x)); r.push_back(x); }
}
template <typename E, unsigned N> static void step(SV<E, N>& v, R& r, int s) {
    auto pos = [&](size_t n) { return (size_t)sym_choose(nm("at", s).c_str(), (long)n); };
    switch (sym_choose(nm("op", s).c_str(), 17)) {
        case 0: { double x = fresh(); E e(x); v.push_back(e); r.push_back(x); sym_assert_eq(val(e), x, "the argument is left alone"); break; }
        case 1: { double x = fresh(); v.emplace_back(x); r.push_back(x); break; }
        case 2: if (!r.empty()) { v.pop_back(); r.pop_back(); } break;
        case 3: { size_t i = pos(r.size() + 1); double x = fresh(); E e(x); auto it = v.insert(v.begin() + i, e); r.insert(r.begin() + i, x); sym_assert(it == v.begin() + i, "place of what was inserted"); break; }
        case 4: { size_t i = pos(r.size() + 1); double x = fresh(); auto it = v.insert(v.begin() + i, E(x)); r.insert(r.begin() + i, x); sym_assert(it == v.begin() + i, "place of what was inserted"); break; }
        case 5: { size_t i = pos(r.size() + 1), n = (size_t)sym_choose(nm("n", s).c_str(), 4); double x = fresh(); E e(x); auto it = v.insert(v.begin() + i, n, e); r.insert(r.begin() + i, n, x); sym_assert(it == v.begin() + i, "place of what was inserted"); break; }
        case 6: {
            size_t i = pos(r.size() + 1), n = (size_t)sym_choose(nm("n", s).c_str(), 4);
            std::list<E> l; R q;
            for (size_t k = 0; k < n; k++) { double x = fresh(); l.emplace_back(x); q.push_back(x); }
            auto it = v.insert(v.begin() + i, l.begin(), l.end());
            r.insert(r.begin() + i, q.begin(), q.end());
            sym_assert(it == v.begin() + i, "place of what was inserted");
            break;
        }
        case 7: if (!r.empty()) { size_t i = pos(r.size()); auto it = v.erase(v.begin() + i); r.erase(r.begin() + i); sym_assert(it == v.begin() + i, "place after what was erased"); } break;
        case 8: { size_t i = pos(r.size() + 1), j = i + (size_t)sym_choose(nm("n", s).c_str(), (long)(r.size() - i + 1)); auto it = v.erase(v.begin() + i, v.begin() + j); r.erase(r.begin() + i, r.begin() + j); sym_assert(it == v.begin() + i, "place after what was erased"); break; }
        case 9: { size_t n = pos(7); v.resize(n); r.resize(n); break; }
        case 10: { size_t n = pos(7); double x = fresh(); E e(x); v.resize(n, e); r.resize(n, x); break; }
        case 11: { size_t n = pos(7); double x = fresh(); E e(x); v.assign(n, e); r.assign(n, x); break; }
        case 12: v.clear(); r.clear(); break;
        case 13: { size_t n = pos(7); v.reserve(n); sym_assert(v.capacity() >= n, "reserved capacity"); break; }
        case 14: { size_t n = pos(4); double x = fresh(); E e(x); v.append(n, e); r.insert(r.end(), n, x); break; }
        case 15: { double x = fresh(), y = fresh(); std::list<E> l; l.emplace_back(x); l.emplace_back(y); v.append(l.begin(), l.end()); r.push_back(x); r.push_back(y); break; }
        case 16: if (!r.empty()) { double x = fresh(); size_t i = pos(r.size()); v[i] = E(x); r[i] = x; } break;
    }
    same(v, r);
}
template <typename E, unsigned N> static void history() {
    alive = 0; serial = 0;
    {
        SV<E, N> v;
        R r;
        fill(v, r, (int)sym_choose("start", 5));
        same(v, r);
        for (int s = 0; s < STEPS; s++) step(v, r, s);
    }
    sym_assert(alive == 0, "every element is destroyed once");
    sym_end();
}
extern "C" void sv_plain() { history<double, 2>(); }
extern "C" void sv_objects() { history<Obj, 2>(); }
// two vectors: copies, moves, swaps, comparison
template <typename E, unsigned N> static void two() {
    alive = 0; serial = 0;
    {
        SV<E, N> a, b;
        R x, y;
        fill(a, x, (int)sym_choose("a", 5));
        fill(b, y, (int)sym_choose("b", 5));
        if (sym_choose("big", 2)) b.reserve(6);                // few elements on the heap
        switch (sym_choose("op", 9)) {
            case 0: a = b; x = y; break;
            case 1: a = std::move(b); x = y; b.clear(); y.clear(); break;
            case 2: a.swap(b); x.swap(y); break;
            case 3: { SV<E, N> c(b); same(c, y); a = c; x = y; break; }
            case 4: { SV<E, N> c(std::move(b)); same(c, y); b.clear(); y.clear(); c.push_back(E(1.0)); break; }
            case 5: { SV<E, N> c(a.begin(), a.end()); same(c, x); SV<E, N> d(3); sym_assert(d.size() == 3, "size"); for (auto& e : d) sym_assert_eq(val(e), 0, "new elements are zero"); break; }
            case 6: { auto& c = a; a = c; break; }
            case 7: { a.assign(b.begin(), b.end()); x = y; break; }
            case 8: { SV<E, N> c; c = std::move(a); same(c, x); a.clear(); for (size_t i = 0; i < y.size(); i++) a.push_back(b[i]); x = y; break; }
        }
        same(a, x);
        same(b, y);
        // they are independent of each other and can go on being used
        double z = fresh();
        a.push_back(E(z)); x.push_back(z);
        same(a, x);
        same(b, y);
    }
    sym_assert(alive == 0, "every element is destroyed once");
    sym_end();
}
extern "C" void sv_two_plain() { two<double, 2>(); }
extern "C" void sv_two_objects() { two<Obj, 2>(); }
extern "C" void sv_compare() {
    serial = 0;
    SV<double, 2> a, b;
    R x, y;
    fill(a, x, (int)sym_choose("a", 4));
    fill(b, y, (int)sym_choose("b", 4));
    bool eq = x.size() == y.size();
    for (size_t i = 0; eq && i < x.size(); i++) eq = x[i] == y[i];
    sym_assert((a == b) == eq, "equality");
    sym_assert((a != b) == !eq, "difference");
    bool less = false, open = true;
    for (size_t i = 0; open && i < x.size() && i < y.size(); i++) { if (x[i] < y[i]) { less = true; open = false; } else if (y[i] < x[i]) open = false; }
    if (open) less = x.size() < y.size();
    sym_assert((a < b) == less, "order");
    sym_end();
}
