// P25: queues, pipes and the thread pool, under every schedule.
#include "sched.h"
#ifndef SYM_NATIVE
template class std::basic_string<char>;
#endif
#ifndef BUDGET
#define BUDGET 2
#endif
#include "/repo/src/multi-thread/concurrent-queue.h"
#include "/repo/src/multi-thread/thread_pool.h"
#include "/repo/src/multi-thread/ciostream.hpp"
namespace mt = hub::multi_thread;
static double val(int i) { return sym_real((std::string("v") + std::to_string(i)).c_str(), -5, 5); }
extern "C" {
// --- ConcurrentDeque
struct Got { double x[8]; int n = 0; };
static void take(mt::ConcurrentDeque<double>& q, Got& g, int n, bool back) {
    for (int i = 0; i < n; i++) {
        double d = -77;
        bool ok = back ? q.try_pop_back(d) : q.try_pop_front(d);
        sym_assert(ok, "an element is delivered while the queue runs");
        g.x[g.n++] = d;
    }
}
// one producer, one consumer: first in, first out
void que_fifo() {
    vt::begin(BUDGET, 1);
    double v[3] = {val(0), val(1), val(2)};
    Got g;
    {
        mt::ConcurrentDeque<double> q;
        std::thread c([&] { take(q, g, 3, false); });
        for (double x : v) q.emplace_back(x);
        c.join();
        sym_assert(q.empty(), "nothing is left over");
    }
    sym_assert(g.n == 3, "every element is delivered");
    for (int i = 0; i < 3; i++) sym_assert_eq(g.x[i], v[i], "elements come in order");
    sym_end();
}
// the same through the other end
void que_fifo_back() {
    vt::begin(BUDGET);
    double v[2] = {val(0), val(1)};
    Got g;
    mt::ConcurrentDeque<double> q;
    std::thread c([&] { take(q, g, 2, true); });
    for (double x : v) q.emplace_front(x);
    c.join();
    for (int i = 0; i < 2; i++) sym_assert_eq(g.x[i], v[i], "elements come in order");
    sym_end();
}
// two producers, two consumers: every element exactly once
void que_shared() {
    vt::begin(BUDGET);
    double v[2] = {val(0), val(1)};
    Got g[2];
    mt::ConcurrentDeque<double> q;
    std::thread c0([&] { take(q, g[0], 1, false); }), c1([&] { take(q, g[1], 1, true); });
    std::thread p0([&] { q.emplace_back(v[0]); });
    q.emplace_front(v[1]);
    p0.join(); c0.join(); c1.join();
    sym_assert(g[0].n == 1 && g[1].n == 1, "every consumer got one");
    sym_assert_eq(g[0].x[0] + g[1].x[0], v[0] + v[1], "every element is delivered once (sum)");
    sym_assert_eq(g[0].x[0] * g[1].x[0], v[0] * v[1], "every element is delivered once (product)");
    sym_assert(q.empty(), "nothing is left over");
    sym_end();
}
// stop(): every waiting consumer returns without an element
void que_stop() {
    vt::begin(BUDGET, 1);
    bool r[2] = {true, true};
    {
        mt::ConcurrentDeque<double> q;
        std::thread c0([&] { double d; r[0] = q.try_pop_front(d); }), c1([&] { double d; r[1] = q.try_pop_back(d); });
        q.stop();
        c0.join(); c1.join();
    }
    sym_assert(!r[0] && !r[1], "a stopped empty queue delivers nothing");
    sym_end();
}
// single thread: a deque
void que_sequential() {
    vt::begin(0);
    mt::ConcurrentDeque<double> q;
    std::deque<double> ref;
    for (int i = 0; i < 5; i++) {
        long op = sym_choose("op", 4);
        if (op < 2) {
            double x = val(i);
            if (op == 0) { q.emplace_back(x); ref.push_back(x); } else { q.emplace_front(x); ref.push_front(x); }
        } else {
            if (ref.empty()) { sym_assert(q.empty(), "empty like a deque"); continue; }
            double d = -77, e;
            bool ok;
            if (op == 2) { e = ref.front(); ref.pop_front(); ok = q.try_pop_front(d); } else { e = ref.back(); ref.pop_back(); ok = q.try_pop_back(d); }
            sym_assert(ok, "an element is delivered");
            sym_assert_eq(d, e, "element of a deque");
        }
        sym_assert(q.empty() == ref.empty(), "empty like a deque");
    }
    sym_end();
}
// --- pipes to and from files
static std::fstream* theFile;
static std::vector<std::sym_tok>* written;
static int fileLen;
static bool fileNl;
static double fileVal[128];
static void onOpenOut(std::fstream& f) { theFile = &f; }
static void onCloseOut(std::fstream& f) { written = new std::vector<std::sym_tok>(f.toks()); }
static void onOpenIn(std::fstream& f) { for (int i = 0; i < fileLen; i++) f.src().push_back(fileVal[i]); f.newlineAtEnd = fileNl; }
static void* dirty(size_t n) {   // storage with old contents
    unsigned char* p = (unsigned char*)malloc(n);
    unsigned char fill = sym_choose("old storage", 2) ? 0x01 : 0x00;
    for (size_t i = 0; i < n; i++) ((volatile unsigned char*)p)[i] = fill;
    return p;
}
static void judgeOut(double* v, int n) {
    sym_assert(written && written->size() == (size_t)n, "everything that was put in is in the file");
    if (written && (int)written->size() == n) for (int i = 0; i < n; i++) sym_assert_eq((*written)[i].d, v[i], "the file keeps the order");
    sym_assert(vt::running() == 0, "the writer thread has finished");
    sym_end();
}
void pipe_out() {
    vt::begin(BUDGET, 1);
    std::fstream::onOpen = onOpenOut; std::fstream::onClose = onCloseOut;
    int n = (int)sym_choose("n", 4);
    double v[3] = {val(0), val(1), val(2)};
    using P = mt::Opip<double>;
    P* p = new (dirty(sizeof(P))) P("f");
    for (int i = 0; i < n; i++) { double x = v[i]; *p << std::move(x); }
    p->~P();
    judgeOut(v, n);
}
void pipe_costream() {
    vt::begin(BUDGET);
    std::fstream::onOpen = onOpenOut; std::fstream::onClose = onCloseOut;
    int n = (int)sym_choose("n", 3);
    double v[3] = {val(0), val(1), val(2)};
    {
        std::string name("f");
        mt::Costream<double> a(name);
        if (n > 0) a << v[0];
        mt::Costream<double> b(std::move(a));
        if (n > 1) b << v[1];
    }
    judgeOut(v, n);
}
// two threads write to one pipe
void pipe_out_shared() {
    vt::begin(BUDGET);
    std::fstream::onOpen = onOpenOut; std::fstream::onClose = onCloseOut;
    double v[3] = {val(0), val(1), val(2)};
    {
        mt::Opip<double> p("f");
        std::thread t([&] { double x = v[1]; p << std::move(x); });
        double x = v[0];
        p << std::move(x);
        t.join();
    }
    sym_assert(written && written->size() == 2, "everything that was put in is in the file");
    if (written->size() == 2) {
        sym_assert_eq((*written)[0].d + (*written)[1].d, v[0] + v[1], "every value once (sum)");
        sym_assert_eq((*written)[0].d * (*written)[1].d, v[0] * v[1], "every value once (product)");
    }
    sym_end();
}
static void pipeIn(int n, int readers) {
    std::fstream::onOpen = onOpenIn;
    fileLen = n;
    fileNl = sym_choose("newline", 2);
    for (int i = 0; i < n; i++) fileVal[i] = val(i);
    using P = mt::Ipip<double>;
    P* p = new (dirty(sizeof(P))) P("f");
    if (readers == 1) {
        for (int i = 0; i < n; i++) {
            double x = -77;
            bool ok = *p >> std::move(x);
            sym_assert(ok, "every number of the file is delivered");
            if (!ok) sym_end();
            sym_assert_eq(x, fileVal[i], "numbers come in the order of the file");
        }
        double y = 0;
        sym_assert(!(*p >> std::move(y)), "the end of the file is reported");
    } else {
        double sum[2] = {0, 0}; int cnt[2] = {0, 0};
        auto job = [&](int k) { double x = 0; while (cnt[k] <= n && (*p >> std::move(x))) { sum[k] += x; cnt[k]++; } };
        std::thread a(job, 0), b(job, 1);
        a.join(); b.join();
        double s = 0;
        for (int i = 0; i < n; i++) s += fileVal[i];
        sym_assert(cnt[0] + cnt[1] == n, "every number of the file is delivered once");
        sym_assert_eq(sum[0] + sum[1], s, "sum of the numbers of the file");
    }
    p->~P();
    sym_assert(vt::running() == 0, "the reader thread has finished");
    sym_end();
}
void pipe_in() { vt::begin(BUDGET, 1); pipeIn((int)sym_choose("n", 4), 1); }
void pipe_in_long() { vt::begin(0); pipeIn(99 + (int)sym_choose("n", 4), 1); }
void pipe_in_shared() { vt::begin(BUDGET - 1); pipeIn((int)sym_choose("n", 3), 2); }
// a pipe can be dropped before its file is read to the end
void pipe_in_drop() {
    vt::begin(BUDGET);
    std::fstream::onOpen = onOpenIn;
    fileLen = 2; fileNl = true;
    fileVal[0] = val(0); fileVal[1] = val(1);
    using P = mt::Ipip<double>;
    P* p = new (dirty(sizeof(P))) P("f");
    if (sym_choose("read one", 2)) { double x = -77; bool ok = *p >> std::move(x); sym_assert(ok, "every number of the file is delivered"); sym_assert_eq(x, fileVal[0], "numbers come in the order of the file"); }
    p->~P();
    sym_assert(vt::running() == 0, "the reader thread has finished");
    sym_end();
}
// --- thread pool
void pool_commit() {
    vt::begin(BUDGET);
    double a = val(0), b = val(1);
    static int runs[2]; runs[0] = runs[1] = 0;
    int nw = 1 + (int)sym_choose("workers", 2);
    {
        mt::ThreadPool pool(nw, 1000);
        auto f0 = pool.commit([](double x, double y) { runs[0]++; vt::point(); return x - 2 * y; }, a, b);
        auto f1 = pool.commit([](double x) { runs[1]++; return x * x; }, b);
        sym_assert_eq(f1.get(), b * b, "result of the second task");
        sym_assert_eq(f0.get(), a - 2 * b, "result of the first task");
    }
    sym_assert(runs[0] == 1 && runs[1] == 1, "every task runs once");
    sym_assert(vt::running() == 0, "all workers have finished");
    sym_end();
}
void pool_drop() {
    vt::begin(BUDGET, 1);
    static int runs; runs = 0;
    int nw = 1 + (int)sym_choose("workers", 2);
    {
        mt::ThreadPool pool(nw, 1000);
        if (sym_choose("task", 2)) pool.commit([] { runs++; });
    }
    sym_assert(runs <= 1, "no task runs twice");
    sym_assert(vt::running() == 0, "all workers have finished");
    sym_end();
}
void pool_two_users() {
    vt::begin(BUDGET);
    double a = val(0), b = val(1);
    double r = 0;
    {
        mt::ThreadPool pool(1, 1000);
        std::thread t([&] { r = pool.commit([](double x) { return 3 * x; }, a).get(); });
        double q = pool.commit([](double x) { return -x; }, b).get();
        sym_assert_eq(q, -b, "result for the first user");
        t.join();
    }
    sym_assert_eq(r, 3 * a, "result for the second user");
    sym_end();
}
}
