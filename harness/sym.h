// Symbolic-input / assertion API used by every harness.
//  * compiled to LLVM bitcode the functions are intercepted by /verif/engine (symbolic execution);
//  * compiled natively with -DSYM_NATIVE and linked with replay_rt.cpp they read a concrete counterexample from a file.
#pragma once
#include <cstddef>
extern "C" {
double sym_real(const char* name, double lo, double hi);  // any real number (lo,hi: sampling range of the witness search only)
double sym_pos(const char* name, double lo, double hi);   // any real number > 0
double sym_box(const char* name, double lo, double hi);   // any real number in [lo,hi]
long sym_int(const char* name, long lo, long hi);         // symbolic integer in [lo,hi]
long sym_choose(const char* name, long n);                // forks over 0..n-1
long sym_concretize(long v);
void sym_assume(bool c);
void sym_assert(bool c, const char* label);
void sym_assert_eq(double a, double b, const char* label);
void sym_assert_close(double a, double b, double tol, const char* label);
double sym_diff(double e, const char* var);                  // d e / d var
double sym_subst(double e, const char* var, double value);   // e with var := value
void sym_expect_abort(int on);                               // aborting/throwing is acceptable from here on
int sym_native();
void sym_reach(const char* label);
void sym_fail(const char* label);
void sym_end();
int sym_known(double);
int sym_isnan(double);
int sym_isfinite(double);
void sym_hwthreads(int n);
int sym_coro_create(void (*f)(void*), void* arg);            // cooperative threads: f must never return
void sym_coro_switch(int id);                                 // 0: the entry itself
void sym_print(const char* name, double v);
}
