// Native replay runtime: inputs come from a file "name value" (hex floats), assertions are evaluated on the real, natively compiled code.
#include <csignal>
#include <cmath>
#include <exception>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
#include <ucontext.h>
#include "sym.h"
#include <dlfcn.h>
static void (*ENTRY)();
static std::map<std::string, double> vals;
static std::map<std::string, int> cnt;
static std::map<std::string, double> pert;   // overrides during derivative passes
static bool collect = false;
struct Req { std::string var; bool isSub; double val; };
static std::vector<Req> reqs;
static std::vector<double> es;               // e of the k-th request in the current pass
static std::vector<double> ans;
static size_t kReq = 0;
static int failures = 0;
static bool abortOk = false, assumeBroken = false;
static double tolRel = 1e-6;
struct Stop {};
// the first pass judges everything up to the first derivative request, and everything if there is none
static bool mute() { return collect && !reqs.empty(); }
static double look(const char* n, double lo, double hi) {
    int c = cnt[n]++;
    std::string u = c ? std::string(n) + "#" + std::to_string(c) : n;
    auto p = pert.find(u);
    if (p != pert.end()) return p->second;
    auto it = vals.find(u);
    if (it != vals.end()) return it->second;
    return (lo + hi) / 2;
}
extern "C" {
double sym_real(const char* n, double lo, double hi) { return look(n, lo, hi); }
double sym_pos(const char* n, double lo, double hi) { return look(n, lo, hi); }
double sym_box(const char* n, double lo, double hi) { return look(n, lo, hi); }
long sym_int(const char* n, long lo, long hi) { return (long)look(n, lo, lo); }
long sym_choose(const char* n, long k) { return (long)look(n, 0, 0); }
long sym_concretize(long v) { return v; }
void sym_assume(bool c) { if (!c && !mute()) { assumeBroken = true; throw Stop(); } }
void sym_fail(const char* l) { if (mute()) return; failures++; printf("REPLAY-FAIL %s reached\n", l); }
void sym_assert(bool c, const char* l) { if (!c && !mute()) { failures++; printf("REPLAY-FAIL %s\n", l); } }
void sym_assert_eq(double a, double b, const char* l) {
    if (mute()) return;
    if (std::isnan(a) && std::isnan(b)) return;
    if (a == b) return;
    double s = std::fmax(std::fabs(a), std::fabs(b));
    if (!(std::fabs(a - b) <= tolRel * s + 1e-8)) { failures++; printf("REPLAY-FAIL %s: %.17g vs %.17g\n", l, a, b); }
}
void sym_assert_close(double a, double b, double t, const char* l) {
    if (mute()) return;
    if (!(std::fabs(a - b) <= t * (1 + 1e-9))) { failures++; printf("REPLAY-FAIL %s: %.17g vs %.17g tol %.3g\n", l, a, b, t); }
}
static double request(double e, const char* v, bool sub, double val) {
    size_t k = kReq++;
    if (collect) { if (k >= reqs.size()) reqs.push_back({v, sub, val}); es.push_back(e); return 0; }
    return k < ans.size() ? ans[k] : 0;
}
double sym_diff(double e, const char* v) { return request(e, v, false, 0); }
double sym_subst(double e, const char* v, double val) { return request(e, v, true, val); }
void sym_expect_abort(int on) { abortOk = on; }
int sym_native() { return 1; }
void sym_reach(const char*) {}
void sym_end() { throw Stop(); }
int sym_known(double) { return 0; }
int sym_isnan(double x) { return std::isnan(x); }
int sym_isfinite(double x) { return std::isfinite(x); }
void sym_hwthreads(int) {}
void sym_print(const char* n, double v) { if (!mute()) printf("PRINT %s = %.17g\n", n, v); }
}
struct Coro { ucontext_t c; void (*f)(void*); void* arg; };
static std::vector<Coro*> coros;
static int curCoro = 0;
static bool coroStop = false;
static void coroMain() {
    Coro* c = coros[curCoro];
    try { c->f(c->arg); } catch (Stop&) {}
    coroStop = true;   // a path that ends inside a thread
    curCoro = 0;
    setcontext(&coros[0]->c);
}
extern "C" int sym_coro_create(void (*f)(void*), void* arg) {
    if (coros.empty()) coros.push_back(new Coro());
    Coro* c = new Coro();
    c->f = f, c->arg = arg;
    getcontext(&c->c);
    size_t sz = 1 << 20;
    c->c.uc_stack.ss_sp = malloc(sz); c->c.uc_stack.ss_size = sz; c->c.uc_link = nullptr;
    makecontext(&c->c, coroMain, 0);
    coros.push_back(c);
    return (int)coros.size() - 1;
}
extern "C" void sym_coro_switch(int to) {
    if (coros.empty()) coros.push_back(new Coro());
    if (to == curCoro) return;
    int from = curCoro;
    curCoro = to;
    swapcontext(&coros[from]->c, &coros[to]->c);
    if (coroStop) { coroStop = false; throw Stop(); }
}
static void fin() {
    fflush(stdout);
    // an assumption that breaks ends the pass: failures counted before it happened on inputs that satisfy all assumptions so far
    if (failures) { printf("REPLAY-VIOLATED %d\n", failures); fflush(stdout); _exit(1); }
    if (assumeBroken) { printf("REPLAY-ASSUME-BROKEN\n"); fflush(stdout); _exit(3); }
    printf("REPLAY-OK\n"); fflush(stdout);
    _exit(0);
}
static void onAbort(int) { if (abortOk) fin(); printf("REPLAY-FAIL no-abort: program aborted\n"); fflush(stdout); _exit(1); }
static void onExit() { static bool in = false; if (in) return; in = true; onAbort(0); }
static void onTerm() { onAbort(0); }
__attribute__((noinline)) static void fill() {   // what uninitialised stack memory will hold
    volatile unsigned char a[1 << 20];
    for (size_t i = 0; i < sizeof a; i++) a[i] = 0x40;
}
static void pass() {
    static bool f = getenv("REPLAY_FILL") != nullptr;
    if (f) fill();
    cnt.clear(); kReq = 0; es.clear(); coros.clear(); curCoro = 0; coroStop = false;
    try { ENTRY(); } catch (Stop&) {}
}
int main(int argc, char** argv) {
    FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr;
    if (f) {
        char n[512], v[128];
        while (fscanf(f, "%500s %100s", n, v) == 2) vals[n] = strtod(v, nullptr);
        fclose(f);
    }
    if (argc > 2) ENTRY = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
    if (!ENTRY) { printf("REPLAY-NO-ENTRY\n"); fflush(stdout); _exit(4); }
    if (getenv("REPLAY_TOL")) tolRel = atof(getenv("REPLAY_TOL"));
    signal(SIGABRT, onAbort);
    std::set_terminate(onTerm);
    atexit(onExit);
    collect = true;
    pass();
    if (reqs.empty()) fin();
    failures = 0;
    std::vector<double> base = es;
    if (!reqs.empty()) {
        ans.assign(reqs.size(), 0);
        std::vector<Req> rq = reqs;
        for (size_t k = 0; k < rq.size(); k++) {
            auto ev = [&](double x) { pert.clear(); pert[rq[k].var] = x; pass(); return k < es.size() ? es[k] : NAN; };
            if (rq[k].isSub) ans[k] = ev(rq[k].val);
            else {
                double x = vals.count(rq[k].var) ? vals[rq[k].var] : 0, h = 1e-4 * std::fmax(1.0, std::fabs(x)) ;
                double d1 = (ev(x + h) - ev(x - h)) / (2 * h), d2 = (ev(x + h / 2) - ev(x - h / 2)) / h;
                ans[k] = (4 * d2 - d1) / 3;
            }
        }
        pert.clear();
        tolRel = std::fmax(tolRel, 1e-5);
    }
    collect = false;
    pass();
    fin();
}
