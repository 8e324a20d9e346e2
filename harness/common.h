#pragma once
#include "sym.h"
#include "/repo/src/spaceHub.hpp"
#include <string>
#ifndef SYM_NATIVE
template class std::basic_string<char>;
#endif
using namespace hub;
using DT = Types<double, Vec3>;
using PP = particles::PointParticles<DT>;
using Pt = PP::Particle;
using V3 = Vec3<double>;
inline std::string nm(const char* p, int i) { return std::string(p) + std::to_string(i); }
inline V3 symV(const std::string& p, double lo = -2, double hi = 2) {
    V3 v;
    v.x = sym_real((p + "x").c_str(), lo, hi);
    v.y = sym_real((p + "y").c_str(), lo, hi);
    v.z = sym_real((p + "z").c_str(), lo, hi);
    return v;
}
inline void eqV(V3 const& a, V3 const& b, const std::string& l) {
    sym_assert_eq(a.x, b.x, (l + ".x").c_str());
    sym_assert_eq(a.y, b.y, (l + ".y").c_str());
    sym_assert_eq(a.z, b.z, (l + ".z").c_str());
}
inline std::vector<Pt> symParticles(int n, bool vel = true) {
    std::vector<Pt> ps;
    for (int i = 0; i < n; i++) {
        double m = sym_pos(nm("m", i).c_str(), 0.1, 3);
        V3 p = symV(nm("p", i));
        V3 v = vel ? symV(nm("v", i)) : V3(0, 0, 0);
        ps.emplace_back(Pt(m, p, v));
    }
    return ps;
}
// independent statement of the pairwise inverse-square law (G = 1)
inline V3 pairSum(std::vector<Pt> const& ps, size_t i) {
    V3 a(0, 0, 0);
    for (size_t j = 0; j < ps.size(); j++)
        if (j != i) {
            double dx = ps[j].pos.x - ps[i].pos.x, dy = ps[j].pos.y - ps[i].pos.y, dz = ps[j].pos.z - ps[i].pos.z;
            double r2 = dx * dx + dy * dy + dz * dz, r3 = r2 * std::sqrt(r2);
            a.x += ps[j].mass * dx / r3;
            a.y += ps[j].mass * dy / r3;
            a.z += ps[j].mass * dz / r3;
        }
    return a;
}
