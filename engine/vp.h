// Harness API.  The same harness source is linked twice: with the symbolic
// runtime (vprt.cpp) for the solver run, and with the native runtime
// (vpnative.cpp) for replaying a counterexample on the real build.
#ifndef VP_H_
#define VP_H_
extern "C" {
double vp_sym(const char* name, double lo, double hi);   // symbolic real in [lo, hi]
double vp_symx(const char* name, double lo, double hi);  // symbolic real in (lo, hi)
int    vp_choose(const char* name, int n);               // nondeterministic 0..n-1
unsigned char vp_symbyte(const char* name);              // symbolic byte (irsym harnesses)
long   vp_symbits(const char* name, int bits);           // symbolic signed integer (irsym harnesses)
void   vp_havoc(void* p, unsigned long n, const char* name);   // any bytes (irsym harnesses)
void   vp_overflow(int on);                              // report signed overflow (irsym harnesses, default on)
int    vp_havoc_global(const char* prefix);              // any bytes in the variables of a namespace (irsym harnesses)
void   vp_assume(int cond);
void   vp_assume_lt(double a, double b);
void   vp_assume_le(double a, double b);
void   vp_assume_ne(double a, double b);
void   vp_check(int cond, const char* id);
void   vp_check_eq(double a, double b, double tol, const char* id);  // |a-b| <= tol
void   vp_check_le(double a, double b, double tol, const char* id);  // a <= b + tol
void   vp_check_finite(double a, const char* id);
void   vp_reach(const char* label);                      // reachability witness
void   vp_mode(const char* mode);                        // "real" (default) or "fp"
void   vp_note(const char* text);                        // remembered with a violation
int    vp_is_native(void);
void   vp_main(void);                                    // the harness
}
#endif
