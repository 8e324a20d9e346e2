// P07: chain ordering over arbitrary pair distances.
#include "common.h"
using VA = DT::StateVectorArray;
using IA = DT::IdxArray;
static double d2(V3 const& a, V3 const& b) { double x = a.x - b.x, y = a.y - b.y, z = a.z - b.z; return x * x + y * y + z * z; }
static bool isPerm(IA const& id, size_t n) {
    if (id.size() != n) return false;
    for (size_t k = 0; k < n; k++) { bool f = false; for (auto i : id) f = f || i == k; if (!f) return false; }
    return true;
}
// the ordering: a permutation; starts with the closest pair; every further link is the shortest one from either end to a body not yet linked
template <typename D>
static void order(IA const& id, int n, D dist) {
    bool perm = isPerm(id, n);
    sym_assert(perm, "ordering-is-a-permutation");
    if (!perm) return;
    // equal distances leave the choice open: the rest is about pairwise different distances
    std::vector<double> ds;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) ds.push_back(dist(i, j));
    for (size_t a = 0; a < ds.size(); a++) for (size_t b = 0; b < a; b++) sym_assume(ds[a] != ds[b]);
    int l = -1;
    double best = 0;
    for (int i = 0; i + 1 < n; i++) { double d = dist(id[i], id[i + 1]); if (l < 0 || d < best) { best = d; l = i; } }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) sym_assert(best <= dist(i, j), "closest-pair-linked");
    int r = l + 1;
    while (r - l + 1 < n) {
        double dl = l > 0 ? dist(id[l], id[l - 1]) : -1, dr = r < n - 1 ? dist(id[r], id[r + 1]) : -1;
        bool left = dr < 0 || (dl >= 0 && dl < dr);
        double d = left ? dl : dr;
        for (int k = 0; k < n; k++)
            if (k < l || k > r) { sym_assert(d <= dist(id[l], id[k]), "shortest-next-link"); sym_assert(d <= dist(id[r], id[k]), "shortest-next-link"); }
        if (left) l--; else r++;
    }
}
// the same for arbitrary pair distances (a superset of what points can produce): a point carries its label, a difference carries the distance
struct Q { double d; Q operator*(Q const& o) const { return d != 0 ? *this : o; } Q operator+(Q const& o) const { return Q{d + o.d}; } operator double() const { return d; } };
static double DD[6][6];
struct Lab { using value_type = Q; Q x, y, z; int i; Lab operator-(Lab const& o) const { return Lab{Q{DD[i][o.i]}, Q{0}, Q{0}, -1}; } };
static void labelled(int n, int first = -1) {
    std::vector<Lab> p;
    for (int i = 0; i < n; i++) {
        p.push_back(Lab{Q{0}, Q{0}, Q{0}, i});
        for (int j = 0; j < i; j++) DD[i][j] = DD[j][i] = sym_pos((nm("d", i) + nm("_", j)).c_str(), 0.1, 9);
    }
    if (first >= 0) {   // case split: which pair is the closest (the cases together cover everything)
        int c = 0, a = 0, b = 0;
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (c++ == first) { a = i; b = j; }
        for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (i != a || j != b) sym_assume(DD[a][b] < DD[i][j]);
    }
    IA id(n);
    Chain::calc_chain_index(p, id);
    order(id, n, [&](int i, int j) { return DD[i][j]; });
}
extern "C" void label3() { labelled(3); }
extern "C" void label4a() { labelled(4, 0); }
extern "C" void label4b() { labelled(4, 1); }
extern "C" void label4c() { labelled(4, 2); }
extern "C" void label4d() { labelled(4, 3); }
extern "C" void label4e() { labelled(4, 4); }
extern "C" void label4f() { labelled(4, 5); }
// more bodies: every choice and order of the first `lead` shortest pairs (the rest in one of two fixed orders), all distances that have that order
static void ranked(int n, int lead, int first) {
    std::vector<std::pair<int, int>> e, s;
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) e.push_back({i, j});
    for (int k = 0; k < lead; k++) {
        int c = k == 0 && first >= 0 ? first : sym_choose(nm("pair", k).c_str(), e.size());
        s.push_back(e[c]);
        e.erase(e.begin() + c);
    }
    if (sym_choose("rest", 2)) std::reverse(e.begin(), e.end());
    for (auto& q : e) s.push_back(q);
    std::vector<Lab> p;
    int R[6][6] = {};
    for (int i = 0; i < n; i++) p.push_back(Lab{Q{0}, Q{0}, Q{0}, i});
    double last = 0;
    for (size_t k = 0; k < s.size(); k++) {
        int a = s[k].first, b = s[k].second;
        double d = sym_pos((nm("d", a) + nm("_", b)).c_str(), 0.1 + k, 1 + k);
        sym_assume(d > last);
        DD[a][b] = DD[b][a] = last = d;
        R[a][b] = R[b][a] = k + 1;
    }
    IA id(n);
    Chain::calc_chain_index(p, id);
    order(id, n, [&](int i, int j) { return R[i][j]; });
}
#ifndef FIRST
#define FIRST 0
#endif
extern "C" void label5() { ranked(5, 3, FIRST); }
extern "C" void label6() { ranked(6, 3, FIRST); }
extern "C" void label5any() { ranked(5, 2, -1); }
extern "C" void label6any() { ranked(6, 2, -1); }
