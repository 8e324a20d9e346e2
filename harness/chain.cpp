// P07: chain coordinates.
#include "common.h"
using VA = DT::StateVectorArray;
using IA = DT::IdxArray;
static double d2(V3 const& a, V3 const& b) { double x = a.x - b.x, y = a.y - b.y, z = a.z - b.z; return x * x + y * y + z * z; }
static bool isPerm(IA const& id, size_t n) {
    if (id.size() != n) return false;
    for (size_t k = 0; k < n; k++) { bool f = false; for (auto i : id) f = f || i == k; if (!f) return false; }
    return true;
}
// the ordering: a permutation; starts with the closest pair; every further link is the shortest one from either end to a body not yet linked
template <typename D>
static void order(IA const& id, int n, D dist) {
    bool perm = isPerm(id, n);
    sym_assert(perm, "ordering-is-a-permutation");
    if (!perm) return;
    // equal distances leave the choice open: the rest is about pairwise different distances
    std::vector<double> ds;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) ds.push_back(dist(i, j));
    for (size_t a = 0; a < ds.size(); a++) for (size_t b = 0; b < a; b++) sym_assume(ds[a] != ds[b]);
    int l = -1;
    double best = 0;
    for (int i = 0; i + 1 < n; i++) { double d = dist(id[i], id[i + 1]); if (l < 0 || d < best) { best = d; l = i; } }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) sym_assert(best <= dist(i, j), "closest-pair-linked");
    int r = l + 1;
    while (r - l + 1 < n) {
        double dl = l > 0 ? dist(id[l], id[l - 1]) : -1, dr = r < n - 1 ? dist(id[r], id[r + 1]) : -1;
        bool left = dr < 0 || (dl >= 0 && dl < dr);
        double d = left ? dl : dr;
        for (int k = 0; k < n; k++)
            if (k < l || k > r) { sym_assert(d <= dist(id[l], id[k]), "shortest-next-link"); sym_assert(d <= dist(id[r], id[k]), "shortest-next-link"); }
        if (left) l--; else r++;
    }
}
static void greedy(int n) {
    VA p;
    for (int i = 0; i < n; i++) p.emplace_back(symV(nm("p", i)));
    IA id(n);
    Chain::calc_chain_index(p, id);
    order(id, n, [&](int i, int j) { return d2(p[i], p[j]); });
}
extern "C" void greedy2() { greedy(2); }
extern "C" void greedy3() { greedy(3); }
extern "C" void greedy4() { greedy(4); }
static IA anyPerm(const char* t, int n) {
    IA id;
    std::vector<int> left(n);
    for (int i = 0; i < n; i++) left[i] = i;
    for (int i = 0; i < n; i++) { int c = (int)sym_choose(nm(t, i).c_str(), (long)left.size()); id.emplace_back(left[c]); left.erase(left.begin() + c); }
    return id;
}
static VA pts(int n) { VA p; for (int i = 0; i < n; i++) p.emplace_back(symV(nm("p", i))); return p; }
// to chain coordinates: links are differences of neighbours, last entry is the first body; and back again
static void convert(int n) {
    auto id = anyPerm("slot", n);
    VA p = pts(n), c(n), q(n), u(n), e(n);
    DT::ScalarArray m;
    for (int i = 0; i < n; i++) m.emplace_back(sym_pos(nm("m", i).c_str(), 0.1, 3));
    Chain::calc_chain(p, c, id);
    for (int i = 0; i + 1 < n; i++) eqV(c[i], V3(p[id[i + 1]].x - p[id[i]].x, p[id[i + 1]].y - p[id[i]].y, p[id[i + 1]].z - p[id[i]].z), "chain-link");
    eqV(c[n - 1], p[id[0]], "chain-anchor");
    Chain::calc_cartesian(m, c, q, id);
    for (int i = 0; i < n; i++) eqV(q[i], p[i], "chain-then-cartesian");
    VA y;
    for (int i = 0; i < n; i++) y.emplace_back(symV(nm("c", i)));
    Chain::calc_cartesian(m, y, u, id);
    Chain::calc_chain(u, e, id);
    for (int i = 0; i < n; i++) eqV(e[i], y[i], "cartesian-then-chain");
}
extern "C" void conv2() { convert(2); }
extern "C" void conv3() { convert(3); }
extern "C" void conv4() { convert(4); }
extern "C" void conv5() { convert(5); }
extern "C" void conv6() { convert(6); }
// re-ordering a chain gives what a fresh conversion with the new ordering would give
static void update(int n, bool all) {
    IA a, b = anyPerm("new", n);
    if (all) a = anyPerm("old", n);
    else for (int i = 0; i < n; i++) a.emplace_back(i);
    VA p = pts(n), c(n), w(n);
    Chain::calc_chain(p, c, a);
    Chain::update_chain(c, p, a, b);
    sym_assert(c.size() == (size_t)n, "updated-chain-length");
    for (int i = 0; i + 1 < n; i++) eqV(c[i], V3(p[b[i + 1]].x - p[b[i]].x, p[b[i + 1]].y - p[b[i]].y, p[b[i + 1]].z - p[b[i]].z), "updated-link");
    eqV(c[n - 1], p[b[0]], "updated-anchor");
}
// every link of the new chain that spans any number of old ones, in both directions
static void updLink(int n) {
    int u = sym_choose("first", n), v = sym_choose("second", n - 1), rev = sym_choose("reversed", 2);
    if (v >= u) v++;
    VA p(n), c(n);
    IA a(n), b(n);
    for (int i = 0; i < n; i++) p[i] = symV(nm("p", i)), a[i] = rev ? n - 1 - i : i;
    int at = sym_choose("end", 2), k = at ? 0 : 2;
    for (int i = 0; i < n; i++) if (i != u && i != v) b[k++] = i;
    b[at ? n - 2 : 0] = u, b[at ? n - 1 : 1] = v;
    Chain::calc_chain(p, c, a);
    Chain::update_chain(c, p, a, b);
    sym_assert(c.size() == (size_t)n, "updated-chain-length");
    for (int i = 0; i + 1 < n; i++) eqV(c[i], V3(p[b[i + 1]].x - p[b[i]].x, p[b[i + 1]].y - p[b[i]].y, p[b[i + 1]].z - p[b[i]].z), "updated-link");
    eqV(c[n - 1], p[b[0]], "updated-anchor");
}
extern "C" void updl5() { updLink(5); }
extern "C" void updl6() { updLink(6); }
extern "C" void updl8() { updLink(8); }
extern "C" void upd2() { update(2, true); }
extern "C" void upd3() { update(3, true); }
extern "C" void upd4() { update(4, false); }
extern "C" void upd4all() { update(4, true); }
extern "C" void upd5() { update(5, false); }
extern "C" void upd6() { update(6, false); }
extern "C" void upd5all() { update(5, true); }
