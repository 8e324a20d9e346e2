// P24: helpers that run one job on several threads, and the file shared by threads, under every schedule.
#include "sched.h"
#ifndef SYM_NATIVE
template class std::basic_string<char>;
#endif
#include "/repo/src/multi-thread/multi-thread.hpp"
using namespace hub;
namespace mt = hub::multi_thread;
extern "C" {
// --- multi_threads_loop: every item goes to exactly one thread
struct Range { size_t b, e; int runs; bool done; };
#ifndef BUDGET
#define BUDGET 2
#endif
static void loop_n(size_t nth, size_t total, int budget) {
    vt::begin(budget);
    static Range* rs;   // slot k: what thread k was given
    rs = new Range[16]();
    mt::multi_threads_loop(total, nth, [](size_t b, size_t e) {
        int k = vt::sc().cur;
        rs[k].b = b; rs[k].e = e; rs[k].runs++;
        vt::point();
        rs[k].done = true;
    });
    sym_assert(vt::running() == 0, "all threads have finished on return");
    sym_assert(vt::sc().th.size() <= nth + 1, "no more threads than asked for");
    long item = sym_int("item", 0, 1L << 40);
    sym_assume(item < (long)total);
    long hits = 0;
    for (int k = 0; k <= (int)nth && k < 16; k++) {
        if (!rs[k].runs) continue;
        sym_assert(rs[k].runs == 1 && rs[k].done, "every part is complete on return");
        sym_assert((bool)((int)(rs[k].b <= rs[k].e) & (int)(rs[k].e <= total)), "a part is a range of the items");
        hits += (long)((int)(item >= (long)rs[k].b) & (int)(item < (long)rs[k].e));
    }
    sym_assert(hits == 1, "every item is handed to exactly one thread");
    sym_end();
}
void thr_loop() {
    size_t nth = 1 + sym_choose("threads", 3);
    long total = sym_int("total", 1, 1L << 40);
    loop_n(nth, (size_t)total, BUDGET);
}
void thr_loop_wide() {
    size_t nth = 4 + sym_choose("threads", 3);
    long total = sym_int("total", 1, 1L << 40);
    loop_n(nth, (size_t)total, 0);
}
void thr_loop_empty() {
    vt::begin(1);
    static long work; work = 0;
    mt::multi_threads_loop(0, 1 + sym_choose("threads", 3), [](size_t b, size_t e) { work += (long)(e - b); });
    sym_assert(work == 0, "no item is made up");
    sym_end();
}
// --- multi_thread: every thread gets an intact copy of the job and its arguments
struct Job {
    double tag;
    bool alive = true;
    explicit Job(double t) : tag(t) {}
    Job(Job const& o) : tag(o.tag), alive(o.alive) {}
    Job(Job&& o) noexcept : tag(o.tag), alive(o.alive) { o.tag = -1; o.alive = false; }
};
struct Seen { size_t i; double tag, x, y; bool alive; size_t len; bool done; };
static std::vector<Seen>* seen;
struct Run : Job {
    using Job::Job;
    void operator()(std::vector<double> v, double y) {
        size_t k = seen->size();
        seen->push_back({0, tag, v.size() ? v[0] : -77, y, alive, v.size(), false});
        vt::point();
        (*seen)[k].done = true;
    }
};
struct IRun : Job {
    using Job::Job;
    void operator()(size_t i, std::vector<double> v, double y) {
        size_t k = seen->size();
        seen->push_back({i, tag, v.size() ? v[0] : -77, y, alive, v.size(), false});
        vt::point();
        (*seen)[k].done = true;
    }
};
static void judge(size_t n, double x, double y, double tag, bool indexed) {
    sym_assert(vt::running() == 0, "all threads have finished on return");
    sym_assert(seen->size() == n, "the job runs once per thread");
    int mask = 0;
    for (auto& s : *seen) {
        sym_assert(s.done, "every run is complete on return");
        sym_assert(s.alive, "the job is not moved from");
        sym_assert(s.len == 2, "the container argument is intact");
        sym_assert_eq(s.x, x, "contents of the container argument");
        sym_assert_eq(s.y, y, "plain argument");
        sym_assert_eq(s.tag, tag, "state of the job");
        mask |= 1 << s.i;
    }
    if (indexed) sym_assert(mask == (1 << n) - 1, "every index once");
    sym_end();
}
static void mtn(bool rv, bool indexed, bool autom) {
    vt::begin(BUDGET);
    seen = new std::vector<Seen>();
    seen->reserve(16);
    size_t n = autom ? mt::machine_thread_num : 1 + sym_choose("threads", 3);
    double x = sym_real("x", -5, 5), y = sym_real("y", -5, 5), tag = sym_real("tag", -5, 5);
    std::vector<double> v{x, y};
    if (!indexed) {
        Run job(tag);
        if (autom) { if (rv) mt::auto_multi_thread(Run(tag), std::vector<double>{x, y}, (double)y); else mt::auto_multi_thread(job, v, y); }
        else { if (rv) mt::multi_thread(n, Run(tag), std::vector<double>{x, y}, (double)y); else mt::multi_thread(n, job, v, y); }
    } else {
        IRun job(tag);
        if (autom) { if (rv) mt::auto_indexed_multi_thread(IRun(tag), std::vector<double>{x, y}, (double)y); else mt::auto_indexed_multi_thread(job, v, y); }
        else { if (rv) mt::indexed_multi_thread(n, IRun(tag), std::vector<double>{x, y}, (double)y); else mt::indexed_multi_thread(n, job, v, y); }
    }
    judge(n, x, y, tag, indexed);
}
void thr_multi_lvalue() { mtn(false, false, false); }
void thr_multi_rvalue() { mtn(true, false, false); }
void thr_indexed_lvalue() { mtn(false, true, false); }
void thr_indexed_rvalue() { mtn(true, true, false); }
void thr_auto_rvalue() { mtn(true, sym_choose("indexed", 2), true); }
void thr_auto_lvalue() { mtn(false, sym_choose("indexed", 2), true); }
// --- a file shared by threads
static std::fstream* theFile;
static void onOpen(std::fstream& f) { theFile = &f; }
static bool num(size_t i, double& d) { auto& t = theFile->toks(); if (i >= t.size() || t[i].kind != 0) return false; d = t[i].d; return true; }
// rows of (id, a, b) written by two threads, 2 + 1 rows, a third access through execute / flush / eof
static void rows(int mode) {
    vt::begin(BUDGET + 1);
    std::fstream::onOpen = onOpen;
    double a = sym_real("a", -5, 5), b = sym_real("b", -5, 5), c = sym_real("c", -5, 5);
    {
        mt::ConcurrentFile f = mt::make_thread_safe_fstream("f", std::ios_base::out);
        std::thread t1([f, a, b]() mutable { f << std::make_tuple(1.0, a, b); f << std::make_tuple(2.0, b, a); });
        std::thread t2([f, c, mode]() mutable {
            if (mode == 0) f << std::make_tuple(3.0, c, c);
            if (mode == 1) f.execute([](auto& s, double x) { s << 3.0 << ' ' << x << ' ' << x; }, c);
            if (mode == 2) f.flush();
            if (mode == 3) f.eof();
        });
        t1.join();
        t2.join();
        size_t nrow = mode < 2 ? 3 : 2;
        sym_assert(theFile->toks().size() == 5 * nrow, "all rows are in the file");
        int at[4] = {-1, -1, -1, -1};
        for (size_t r = 0; r < nrow; r++) {
            double id, x, y;
            bool ok = num(5 * r, id) && num(5 * r + 2, x) && num(5 * r + 4, y);
            sym_assert(ok, "rows are not mixed");
            if (!ok) sym_end();
            int k = id == 1.0 ? 1 : id == 2.0 ? 2 : 3;
            at[k] = (int)r;
            sym_assert_eq(x, k == 1 ? a : k == 2 ? b : c, "second field of a row");
            sym_assert_eq(y, k == 1 ? b : k == 2 ? a : c, "third field of a row");
        }
        sym_assert(at[1] >= 0 && at[2] > at[1], "rows of one thread keep their order");
        if (nrow == 3) sym_assert(at[3] >= 0, "row of the other thread");
    }
    sym_end();
}
void thr_file_rows() { rows(0); }
void thr_file_execute() { rows(1); }
void thr_file_flush() { rows(2); }
void thr_file_eof() { rows(3); }
// two readers share a file of n numbers: every number is read once, and the result tells whether a number was read
void thr_file_read() {
    vt::begin(BUDGET);
    std::fstream::onOpen = onOpen;
    int n = 1 + (int)sym_choose("n", 3);
    bool nl = sym_choose("newline", 2);
    double v[3];
    for (int i = 0; i < 3; i++) v[i] = sym_real((std::string("v") + std::to_string(i)).c_str(), -5, 5);
    {
        mt::ConcurrentFile f("f", std::ios_base::in);
        theFile->newlineAtEnd = nl;
        for (int i = 0; i < n; i++) theFile->src().push_back(v[i] * 0 + v[i]);
        static std::vector<double>* got[2];
        got[0] = new std::vector<double>(); got[1] = new std::vector<double>();
        auto job = [f](int k) mutable { double x = 0; while (f >> x) got[k]->push_back(x); };
        std::thread t0(job, 0), t1(job, 1);
        t0.join(); t1.join();
        sym_assert(got[0]->size() + got[1]->size() == (size_t)n, "every number is delivered once");
        double s = 0, q = 0;
        for (int k = 0; k < 2; k++) for (double x : *got[k]) { s += x; q += x * x; }
        double s0 = 0, q0 = 0;
        for (int i = 0; i < n; i++) { s0 += v[i]; q0 += v[i] * v[i]; }
        sym_assert_eq(s, s0, "sum of the numbers read");
        sym_assert_eq(q, q0, "sum of squares of the numbers read");
    }
    sym_end();
}
}
