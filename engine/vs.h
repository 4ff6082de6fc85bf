// Harness API. In the symbolic build these are the runtime's entry points (runtime.cpp), in the
// native replay build they read concrete inputs from a file (native.cpp).
#ifndef VS_H
#define VS_H
extern "C" {
double vs_real(const char *name, double lo, double hi);   // arbitrary real in [lo,hi]
int    vs_int(const char *name, int lo, int hi);          // arbitrary integer in [lo,hi], kept symbolic
int    vs_pick(const char *name, int n);                  // arbitrary integer in [0,n), path-split on its value
bool   vs_bool(const char *name);                         // arbitrary Boolean, kept symbolic
void   vs_assume(bool c);
void   vs_check(bool c, const char *msg);                 // must hold for every value on this path
void   vs_eq(double a, double b, double tol, const char *msg);  // |a-b| <= tol
void   vs_le(double a, double b, double tol, const char *msg);  // a <= b + tol
void   vs_option(const char *name, int v);                // "strict_fp": x/0 and sqrt(<0) are violations
int    vs_symbolic(void);                                 // 1 in the symbolic build
int    vs_tier(void);                                     // 0 quick, 1 thorough
const char *vs_tmpdir(void);                              // per-process scratch directory
void   vs_register(const char *name, void (*fn)(), int thorough_only);
}
struct vs_reg_ { vs_reg_(const char *n, void (*f)(), int t) { vs_register(n, f, t); } };
#define VS_HARNESS(name) static void name(); static vs_reg_ vs_reg_##name(#name, name, 0); static void name()
#define VS_HARNESS_THOROUGH(name) static void name(); static vs_reg_ vs_reg_##name(#name, name, 1); static void name()
#define VS_STR2(x) #x
#define VS_STR(x) VS_STR2(x)
#define CHECK(c) vs_check((c), #c)
#define CHECKM(c, m) vs_check((c), m)
#define EQ(a, b) vs_eq((a), (b), 1e-6, #a " == " #b)
#define EQT(a, b, t) vs_eq((a), (b), (t), #a " == " #b)
#endif
