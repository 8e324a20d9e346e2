// P27/P28: particle containers keep their arrays in step; everything that is printed or read has its documented layout.
#include "sched.h"
#include "common.h"
#include "/repo/src/args-callback/callbacks.hpp"
using namespace hub;
using Tok = std::sym_tok;
using Out = std::sym_ostream;
using In = std::sym_istream;
// a printed table: cells of rows; a cell is one number
struct Table {
    std::vector<std::vector<double>> rows;
    std::string head;      // text before the first number, up to the end of its line
    bool ok = true;        // every cell holds exactly one number and nothing else
};
static Table table(std::vector<Tok> const& t, char sep = ',') {
    Table r;
    std::vector<double> row;
    bool cell = false, headDone = false, gap = false;
    for (auto const& k : t) {
        if (k.kind == 0) {
            if (cell) r.ok = false;
            row.push_back(k.d);
            cell = true; headDone = true; gap = false;
            continue;
        }
        for (char c : k.s) {
            if (c == '\n') {
                if (gap) r.ok = false;
                if (!row.empty()) r.rows.push_back(row);
                row.clear();
                cell = false; headDone = true; gap = false;
            } else if (!headDone) r.head += c;
            else if (c == sep) { if (!cell) r.ok = false; cell = false; gap = true; }
            else r.ok = false;
        }
    }
    if (!row.empty()) r.rows.push_back(row);
    return r;
}
static std::vector<std::string> split(std::string const& s) {
    std::vector<std::string> v(1);
    for (char c : s) if (c == ',') v.emplace_back(); else v.back() += c;
    return v;
}
// the kinds of particles, with their columns
struct KPoint {
    using Ps = particles::PointParticles<DT>; using P = Ps::Particle;
    static P make(double* q) { return P(q[0], V3(q[1], q[2], q[3]), V3(q[4], q[5], q[6])); }
    static P make2(double* q) { return P(q[0], q[1], q[2], q[3], q[4], q[5], q[6]); }
    static constexpr int extra = 0;
    static double ex(P const&, int) { return 0; }
    static double ex(Ps const&, size_t, int) { return 0; }
    static size_t exn(Ps const& p, int) { return p.mass().size(); }
    static const char* exname(int) { return ""; }
};
struct KSize {
    using Ps = particles::SizeParticles<DT>; using P = Ps::Particle;
    static P make(double* q) { return P(q[0], q[7], V3(q[1], q[2], q[3]), V3(q[4], q[5], q[6])); }
    static P make2(double* q) { return P(q[0], q[7], q[1], q[2], q[3], q[4], q[5], q[6]); }
    static constexpr int extra = 1;
    static double ex(P const& p, int) { return p.radius; }
    static double ex(Ps const& p, size_t i, int) { return p.radius(i); }
    static size_t exn(Ps const& p, int) { return p.radius().size(); }
    static const char* exname(int) { return "radius"; }
};
struct KDrag {
    using Ps = particles::DragParticles<DT>; using P = Ps::Particle;
    static P make(double* q) { return P(q[0], q[7], q[8], V3(q[1], q[2], q[3]), V3(q[4], q[5], q[6])); }
    static P make2(double* q) { return P(q[0], q[7], q[8], q[1], q[2], q[3], q[4], q[5], q[6]); }
    static constexpr int extra = 2;
    static double ex(P const& p, int k) { return k ? p.local_cs : p.sub_sonic_coef; }
    static double ex(Ps const& p, size_t i, int k) { return k ? p.local_cs(i) : p.sub_sonic_c(i); }
    static size_t exn(Ps const& p, int k) { return k ? p.local_cs().size() : p.sub_sonic_c().size(); }
    static const char* exname(int k) { return k ? "local_cs" : "sub_sonic_c"; }
};
struct KTide {
    using Ps = particles::TideParticles<DT>; using P = Ps::Particle;
    static P make(double* q) { return P(q[0], q[7], q[8], q[9], V3(q[1], q[2], q[3]), V3(q[4], q[5], q[6])); }
    static P make2(double* q) { return P(q[0], q[7], q[8], q[9], q[1], q[2], q[3], q[4], q[5], q[6]); }
    static constexpr int extra = 3;
    static double ex(P const& p, int k) { return k == 0 ? p.radius : k == 1 ? p.tide_apsidal_const : p.tide_lag_time; }
    static double ex(Ps const& p, size_t i, int k) { return k == 0 ? p.radius(i) : k == 1 ? p.tide_apsidal_const(i) : p.tide_lag_time(i); }
    static size_t exn(Ps const& p, int k) { return k == 0 ? p.radius().size() : k == 1 ? p.tide_apsidal_const().size() : p.tide_lag_time().size(); }
    static const char* exname(int k) { return k == 0 ? "radius" : k == 1 ? "k_AM" : "tau_lag"; }
};
// ten numbers of a particle: mass, position, velocity, extras
struct Q { double q[10]; };
static Q symQ(int i) {
    Q r;
    const char* n[] = {"m", "px", "py", "pz", "vx", "vy", "vz", "e0_", "e1_", "e2_"};
    for (int k = 0; k < 10; k++) r.q[k] = sym_real(nm(n[k], i).c_str(), -3, 3);
    return r;
}
template <typename K> static void isP(typename K::P const& p, Q const& q) {
    sym_assert_eq(p.mass, q.q[0], "mass of a particle");
    eqV(p.pos, V3(q.q[1], q.q[2], q.q[3]), "position of a particle");
    eqV(p.vel, V3(q.q[4], q.q[5], q.q[6]), "velocity of a particle");
    for (int k = 0; k < K::extra; k++) sym_assert_eq(K::ex(p, k), q.q[7 + k], "further data of a particle");
}
template <typename K> static void isPs(typename K::Ps const& ps, std::vector<Q> const& q, double t) {
    size_t n = q.size();
    sym_assert(ps.number() == n, "number of particles");
    sym_assert(ps.pos().size() == n && ps.vel().size() == n && ps.mass().size() == n && ps.idn().size() == n, "all arrays have that length");
    for (int k = 0; k < K::extra; k++) sym_assert(K::exn(ps, k) == n, "all arrays have that length");
    sym_assert(ps.capacity() >= n, "capacity");
    if (ps.number() != n || ps.pos().size() != n || ps.vel().size() != n || ps.mass().size() != n) return;
    sym_assert_eq(ps.time(), t, "time");
    for (size_t i = 0; i < n; i++) {
        sym_assert(ps.idn(i) == i, "particles are numbered in order");
        sym_assert_eq(ps.mass(i), q[i].q[0], "mass");
        eqV(ps.pos(i), V3(q[i].q[1], q[i].q[2], q[i].q[3]), "position");
        eqV(ps.vel(i), V3(q[i].q[4], q[i].q[5], q[i].q[6]), "velocity");
        for (int k = 0; k < K::extra; k++) sym_assert_eq(K::ex(ps, i, k), q[i].q[7 + k], "further data");
    }
    auto v = ps.to_AoS();
    sym_assert(v.size() == n, "as many particles are handed back");
    if (v.size() == n) for (size_t i = 0; i < n; i++) isP<K>(v[i], q[i]);
}
// any sequence of operations leaves the container as the list of particles it stands for
template <typename K> static void ops(int steps) {
    double t = sym_real("t", -3, 3);
    std::vector<Q> q;
    int next = 0;
    int n0 = (int)sym_choose("n", 4);
    std::vector<typename K::P> init;
    for (int i = 0; i < n0; i++) { q.push_back(symQ(next++)); init.push_back(i % 2 ? K::make(q.back().q) : K::make2(q.back().q)); }
    typename K::Ps ps(t, init);
    isPs<K>(ps, q, t);
    for (int s = 0; s < steps; s++) {
        switch (sym_choose(nm("op", s).c_str(), 5)) {
            case 0: { Q a = symQ(next++); ps.emplace_back(K::make(a.q)); q.push_back(a); break; }
            case 1: ps.clear(); q.clear(); break;
            case 2: ps.reserve(ps.number() + 3); break;
            case 3: if (!q.empty()) { ps.resize(q.size() - 1); q.pop_back(); } break;
            case 4: {                                         // written through the accessors
                if (q.empty()) break;
                Q a = symQ(next++);
                size_t i = q.size() - 1;
                ps.mass(i) = a.q[0]; ps.pos(i) = V3(a.q[1], a.q[2], a.q[3]); ps.vel()[i] = V3(a.q[4], a.q[5], a.q[6]);
                for (int k = 0; k < 3; k++) a.q[7 + k] = q[i].q[7 + k];
                q[i] = a;
                break;
            }
        }
        isPs<K>(ps, q, t);
    }
    typename K::Ps copy(ps), other;
    isPs<K>(copy, q, t);
    other = ps;
    isPs<K>(other, q, t);
    if (!q.empty()) { other.mass(0) = other.mass(0) + 1; isPs<K>(ps, q, t); }
    typename K::Ps moved(std::move(copy));
    isPs<K>(moved, q, t);
    sym_end();
}
// more particles than fit into the small buffers
template <typename K> static void many() {
    std::vector<Q> q;
    double t = sym_real("t", -3, 3);
    typename K::Ps ps;
    ps.time() = t;
    for (int i = 0; i < 19; i++) { q.push_back(symQ(i)); ps.emplace_back(K::make(q.back().q)); }
    isPs<K>(ps, q, t);
    typename K::Ps copy;
    copy = ps;
    ps.resize(6); q.resize(6);
    isPs<K>(ps, q, t);
    ps = std::move(copy);
    sym_assert(ps.number() == 19, "number of particles after a move");
    sym_end();
}
// printed rows: the columns that column_names() announces, in that order
template <typename K> static double column(std::string const& c, double t, int i, Q const& q, bool& known) {
    known = true;
    const char* n[] = {"mass", "px", "py", "pz", "vx", "vy", "vz"};
    if (c == "time") return t;
    if (c == "id") return i;
    for (int k = 0; k < 7; k++) if (c == n[k]) return q.q[k];
    for (int k = 0; k < K::extra; k++) if (c == K::exname(k)) return q.q[7 + k];
    known = false;
    return 0;
}
template <typename K> static void isRows(Table const& r, size_t first, std::vector<std::string> const& cols, std::vector<Q> const& q, double t) {
    sym_assert(r.ok, "every cell holds one number");
    sym_assert(cols.size() == 9 + (size_t)K::extra, "every datum has a column");
    if (r.rows.size() < first + q.size()) { sym_assert(false, "one row for every particle"); return; }
    for (size_t i = 0; i < q.size(); i++) {
        auto const& row = r.rows[first + i];
        sym_assert(row.size() == cols.size(), "a row has as many cells as there are column names");
        if (row.size() != cols.size()) return;
        for (size_t c = 0; c < cols.size(); c++) {
            bool known;
            double v = column<K>(cols[c], t, (int)i, q[i], known);
            sym_assert(known, "column names are known");
            sym_assert_eq(row[c], v, ("column " + cols[c]).c_str());
        }
    }
}
template <typename K> static void rows() {
    double t = sym_real("t", -3, 3);
    std::vector<Q> q;
    int n = (int)sym_choose("n", 4);
    std::vector<typename K::P> init;
    for (int i = 0; i < n; i++) { q.push_back(symQ(i)); init.push_back(K::make(q.back().q)); }
    typename K::Ps ps(t, init);
    Out o;
    o << ps;
    Table r = table(o.out);
    sym_assert(r.rows.size() == q.size(), "one row for every particle");
    isRows<K>(r, 0, split(ps.column_names()), q, t);
    sym_end();
}
// a single particle is read back in the order in which it is printed
template <typename K> static void single() {
    Q q = symQ(0), z = symQ(1);
    auto p = K::make(q.q);
    Out o;
    o << p;
    Table r = table(o.out);
    sym_assert(r.ok && r.rows.size() == 1, "one row");
    if (r.rows.size() != 1) return;
    sym_assert(r.rows[0].size() == 7 + (size_t)K::extra, "every datum is printed");
    In in;
    in.in = r.rows[0];
    auto b = K::make(z.q);
    in >> b;
    isP<K>(b, q);
    sym_assert(in.at == in.in.size(), "everything is read");
    sym_end();
}
#define KIND(k, K) \
    extern "C" void cont_##k() { ops<K>(2); } \
    extern "C" void cont3_##k() { ops<K>(3); } \
    extern "C" void many_##k() { many<K>(); } \
    extern "C" void rows_##k() { rows<K>(); } \
    extern "C" void single_##k() { single<K>(); }
KIND(point, KPoint)
KIND(size, KSize)
KIND(drag, KDrag)
KIND(tide, KTide)
// ------------------------------------------------------------------ streams of the other parts
#define NEWT force::Interactions<force::NewtonianGrav>
static std::string text(std::vector<Tok> const& t) {          // numbers become '#'
    std::string s;
    for (auto const& k : t) s += k.kind ? k.s : std::string("#");
    return s;
}
static void isNumbers(std::vector<Tok> const& t, std::vector<double> const& v, const char* l) {
    size_t n = 0;
    for (auto const& k : t) if (k.kind == 0) { if (n < v.size()) sym_assert_eq(k.d, v[n], l); n++; }
    sym_assert(n == v.size(), "as many numbers as expected");
}
static std::vector<Q> fixedPlaces(int n) {                     // symbolic masses and velocities, places whose chain is out of order
    std::vector<Q> q;
    double x[4] = {0, 3, 1, 4.5};
    for (int i = 0; i < n; i++) {
        Q a = symQ(i);
        a.q[0] = sym_pos(nm("M", i).c_str(), 0.1, 3);
        a.q[1] = x[i]; a.q[2] = 0.25 * i; a.q[3] = -0.5 * i;
        q.push_back(a);
    }
    return q;
}
template <typename S, typename K> static void sysRows() {
    double t = sym_real("t", -3, 3);
    auto q = fixedPlaces(3);
    std::vector<typename K::P> init;
    for (auto& a : q) init.push_back(K::make(a.q));
    S sys(t, init);
    Out o;
    o << sys;
    Table r = table(o.out);
    sym_assert(r.rows.size() == q.size(), "one row for every particle");
    isRows<K>(r, 0, split(sys.column_names()), q, t);
    sym_end();
}
extern "C" void rows_simple() { sysRows<system::SimpleSystem<KPoint::Ps, NEWT>, KPoint>(); }
extern "C" void rows_chain() { sysRows<system::ChainSystem<KPoint::Ps, NEWT>, KPoint>(); }
extern "C" void rows_regu() { sysRows<system::RegularizedSystem<KPoint::Ps, NEWT, system::ReguType::LogH>, KPoint>(); }
extern "C" void rows_archain() { sysRows<system::ARchainSystem<KPoint::Ps, NEWT, system::ReguType::TTL>, KPoint>(); }
extern "C" void rows_simple_tide() { sysRows<system::SimpleSystem<KTide::Ps, NEWT>, KTide>(); }
extern "C" void rows_archain_drag() { sysRows<system::ARchainSystem<KDrag::Ps, NEWT, system::ReguType::LogH>, KDrag>(); }
// the writer: names once, at the top, then the rows of every call
extern "C" void writer_default() {
    std::vector<Tok> file;
    std::string name;
    std::sym_fstream::onOpen = [&](std::sym_fstream& f) { name = f.name; };
    std::sym_fstream::onClose = [&](std::sym_fstream& f) { file = f.toks(); };
    double t0 = sym_real("t0", -3, 3), t1 = sym_real("t1", -3, 3);
    std::vector<Q> q = {symQ(0), symQ(1)};
    std::vector<KPoint::P> init;
    for (auto& a : q) init.push_back(KPoint::make(a.q));
    KPoint::Ps ps(t0, init);
    Q moved = symQ(2);
    int calls = (int)sym_choose("calls", 3);
    {
        callback::DefaultWriter w("run.txt");
        auto copy = w;                                         // callbacks are handed over by copy
        if (calls > 0) copy(ps, 0.1);
        ps.time() = t1;
        ps.pos(1) = V3(moved.q[1], moved.q[2], moved.q[3]);
        if (calls > 1) (sym_choose("who", 2) ? copy : w)(ps, 0.1);   // copies share the file
    }
    sym_assert(name == "run.txt", "the file that was asked for");
    Table r = table(file);
    auto cols = split(ps.column_names());
    if (calls) sym_assert(r.head == ps.column_names(), "the names of the columns come first");
    sym_assert(r.rows.size() == 2 * (size_t)calls, "every call writes a row for every particle");
    if (calls > 0) isRows<KPoint>(r, 0, cols, q, t0);
    if (calls > 1) {
        for (int k = 1; k < 4; k++) q[1].q[k] = moved.q[k];
        isRows<KPoint>(r, 2, cols, q, t1);
    }
    sym_end();
}
extern "C" void writer_energy() {
    std::vector<Tok> file;
    std::sym_fstream::onClose = [&](std::sym_fstream& f) { file = f.toks(); };
    double t0 = sym_real("t0", -3, 3), t1 = sym_real("t1", -3, 3);
    auto q = fixedPlaces(2);
    std::vector<KPoint::P> init;
    for (auto& a : q) init.push_back(KPoint::make(a.q));
    system::SimpleSystem<KPoint::Ps, NEWT> sys(t0, init);
    double E0 = 0, E1 = 0;
    auto energy = [&] {
        double e = 0, dx = sys.pos(0).x - sys.pos(1).x, dy = sys.pos(0).y - sys.pos(1).y, dz = sys.pos(0).z - sys.pos(1).z;
        for (int i = 0; i < 2; i++) e += 0.5 * sys.mass(i) * (sys.vel(i).x * sys.vel(i).x + sys.vel(i).y * sys.vel(i).y + sys.vel(i).z * sys.vel(i).z);
        return e - sys.mass(0) * sys.mass(1) / std::sqrt(dx * dx + dy * dy + dz * dz);
    };
    {
        callback::EnergyErrWriter w("err.txt");
        E0 = energy();
        sym_assume(E0 < -0.001);                              // a bound system
        w(sys, 0.1);
        sys.time() = t1;
        sys.vel(0).x = sym_real("kick", -3, 3);
        E1 = energy();
        sym_assume(E1 > E0);
        w(sys, 0.1);
    }
    Table r = table(file);
    sym_assert(r.ok && r.rows.size() == 2 && r.rows[0].size() == 2 && r.rows[1].size() == 2, "one row of time and error for every call");
    if (r.rows.size() != 2 || r.rows[0].size() != 2 || r.rows[1].size() != 2) return;
    sym_assert_eq(r.rows[0][0], t0, "time");
    sym_assert_eq(r.rows[1][0], t1, "time");
    sym_assert_eq(r.rows[0][1], 0, "no error at the first call");
    sym_assert_eq(r.rows[1][1] * E0, E0 - E1, "energy error relative to the first call");
    sym_end();
}
// every writer remembers the energy of the system it was first called with
extern "C" void writer_energies() {
    std::vector<std::vector<Tok>> file;
    std::sym_fstream::onClose = [&](std::sym_fstream& f) { file.push_back(f.toks()); };
    auto q = fixedPlaces(2), z = fixedPlaces(3);
    std::vector<KPoint::P> init;
    for (auto& a : q) init.push_back(KPoint::make(a.q));
    system::SimpleSystem<KPoint::Ps, NEWT> one(0.0, init);
    init[0].mass = sym_pos("heavier", 0.1, 3);
    init[1].vel.y = sym_real("faster", -3, 3);
    system::SimpleSystem<KPoint::Ps, NEWT> other(0.0, init);
    double K1 = calc::calc_total_energy(one), K2 = calc::calc_total_energy(other);
    sym_assume(K1 < -0.001);
    sym_assume(K2 < -0.001);
    {
        callback::EnergyErrWriter a("a.txt");
        a(one, 0.1);
        callback::EnergyErrWriter b("b.txt");
        b(other, 0.1);
        a(one, 0.1);
    }
    sym_assert(file.size() == 2, "two files");
    for (auto& f : file) for (auto& row : table(f).rows) sym_assert_eq(row[1], 0, "an unchanged system has no energy error");
    sym_end();
}
// vectors, orbits, tuples, containers
extern "C" void text_vec() {
    V3 v = symV("v"), w = symV("w");
    Out o;
    o << v;
    sym_assert(text(o.out) == "#,#,#", "a vector is printed as comma separated components");
    isNumbers(o.out, {v.x, v.y, v.z}, "components in order");
    In in;
    in.in = {w.x, w.y, w.z};
    in >> v;
    eqV(v, w, "components are read in order");
    orbit::Kepler k(sym_pos("m1", 0.1, 3), sym_pos("m2", 0.1, 3), 1.0, 0.5, 0.0, 0.0, 0.0, 0.0);
    double* f[] = {&k.m1, &k.m2, &k.p, &k.e, &k.i, &k.Omega, &k.omega, &k.nu};
    std::vector<double> val;
    for (int i = 0; i < 8; i++) { *f[i] = sym_real(nm("k", i).c_str(), -3, 3); val.push_back(*f[i]); }
    Out p;
    p << k;
    sym_assert(text(p.out) == "#,#,#,#,#,#,#,#", "an orbit is printed as comma separated elements");
    isNumbers(p.out, val, "elements in order");
    sym_end();
}
extern "C" void text_print() {
    double a = sym_real("a", -3, 3), b = sym_real("b", -3, 3), c = sym_real("c", -3, 3);
    { Out o; auto& r = hub::print(o, a, " and ", b, '\n'); sym_assert(&r == &o, "the stream is handed back"); sym_assert(text(o.out) == "# and #\n", "print"); isNumbers(o.out, {a, b}, "print: values in order"); }
    { Out o; auto& r = hub::print_csv(o, a, b, c); sym_assert(&r == &o, "the stream is handed back"); sym_assert(text(o.out) == "#,#,#", "print_csv"); isNumbers(o.out, {a, b, c}, "print_csv: values in order"); }
    { Out o; hub::print_csv(o, a); sym_assert(text(o.out) == "#", "print_csv of one value"); isNumbers(o.out, {a}, "print_csv: value"); }
    { Out o; hub::display(o, a, b, c); sym_assert(text(o.out) == "# # # ", "display"); isNumbers(o.out, {a, b, c}, "display: values in order"); }
    { Out o; using hub::operator<<; o << std::make_tuple(a, b, c); sym_assert(text(o.out) == "# # #", "tuple"); isNumbers(o.out, {a, b, c}, "tuple: values in order"); }
    { Out o; using hub::operator<<; o << std::make_tuple(a); sym_assert(text(o.out) == "#", "tuple of one"); isNumbers(o.out, {a}, "tuple: value"); }
    { Out o; using hub::operator<<; o << std::array<double, 3>{a, b, c}; sym_assert(text(o.out) == "# # # ", "array"); isNumbers(o.out, {a, b, c}, "array: values in order"); }
    { Out o; using hub::operator<<; o << std::vector<double>{a, b, c}; sym_assert(text(o.out) == "# # # ", "vector"); isNumbers(o.out, {a, b, c}, "vector: values in order"); }
    { Out o; using hub::operator<<; o << std::vector<double>{}; sym_assert(text(o.out) == "", "empty vector"); }
    { Out o; using hub::operator<<; o << llvm::SmallVector<double, 2>{a, b, c}; sym_assert(text(o.out) == "# # # ", "small vector"); isNumbers(o.out, {a, b, c}, "small vector: values in order"); }
    { In in; in.in = {a, b, c}; double x = 9, y = 9; V3 v; auto& r = hub::input(in, x, y); sym_assert(&r == &in, "the stream is handed back"); sym_assert_eq(x, a, "input: first"); sym_assert_eq(y, b, "input: second"); }
    { In in; in.in = {a, b, c}; double x = 9, y = 9, z = 9; using hub::operator>>; in >> std::tie(x, y, z); sym_assert_eq(x, a, "tuple in: first"); sym_assert_eq(y, b, "tuple in: second"); sym_assert_eq(z, c, "tuple in: third"); }
    sym_end();
}
// compensated numbers: only the value is printed; a number that is read in has no error
template <typename K> static void kahanText() {
    double a = sym_real("a", -3, 3), b = sym_real("b", -3, 3), c = sym_real("c", -3, 3);
    K x(a);
    x.err = b;
    Out o;
    o << x;
    sym_assert(text(o.out) == "#", "the value is printed");
    isNumbers(o.out, {a}, "the value is printed");
    if constexpr (std::is_same_v<K, hub::double_e>) x.err_of_err = b;
    In in;
    in.in = {c};
    in >> x;
    sym_assert_eq(x.real, c, "the value is read");
    sym_assert_eq(x.err, 0, "a number that was read has no error");
    if constexpr (std::is_same_v<K, hub::double_e>) sym_assert_eq(x.err_of_err, 0, "a number that was read has no error");
}
extern "C" void text_kahan() { kahanText<hub::double_k>(); kahanText<hub::double_p>(); kahanText<hub::double_e>(); sym_end(); }
