// Harness interface.  The same harness compiles into the symbolic binary (NS_SYM, instrumented) and the native replay binary.
#pragma once
#include <cstdint>
#include <cmath>
extern "C" {
double ns_real(const char *name, double lo, double hi);      // arbitrary real in [lo,hi]
double ns_grid(const char *name, double lo, double hi);      // like ns_real, counterexamples prefer integers
int ns_int(const char *name, int lo, int hi);                // arbitrary integer, one path per feasible value
void ns_assume(int c);                                       // restrict to executions where c holds
void ns_check(int c, const char *msg);                       // property assertion
void ns_check_eq(double a, double b, double tol, const char *msg);  // a == b (replay: |a-b| <= tol*max(1,|a|,|b|))
void ns_check_le(double a, double b, double tol, const char *msg);  // a <= b
void ns_observe(const char *name, double v);                 // compared between encoding and native run
void ns_reach(const char *label);                            // reachability witness
int ns_symbolic();                                           // 1 in the symbolic binary
int ns_issym(double a);                                       // 1 when the value is symbolic
void ns_unsupported(const char *msg);                        // this path cannot be encoded (reported as incomplete)
void ns_flag(const char *name, int v);                       // engine options for this path ("itemin", "havoc")
void ns_must_eq0(double a);                                  // assume a == 0 (contract stubs)
double ns_parse(const char *s, const char **end);             // number at the start of a printed text (symbolic values are printed as tokens)
void ns_hook_register(const char *name, void (*f)());
}
namespace nsh { struct Reg { Reg(const char *n, void (*f)()) { ns_hook_register(n, f); } }; }
#define NS_HARNESS(N) static void N(); static nsh::Reg N##_reg(#N, N); static void N()
