// Harness API.  The same harness source is compiled twice:
//  * with the VP instrumentation plugin + vp_rt.cpp    -> symbolic execution
//  * without it + vp_native.cpp                        -> plain native replay
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
// a symbolic real in [lo,hi]; the concrete value comes from the witness file
double vp_sym(const char* name, double lo, double hi);
// a symbolic 32 bit integer in [lo,hi]
int vp_symint(const char* name, int lo, int hi);
// like vp_sym but every number the code later parses out of text with exactly
// this value is that symbol (numbers reach the code through an input file)
double vp_symtok(const char* name, double lo, double hi);
// a symbolic integer (0 <= lo) spelled as the text returned (a width no other
// number has); code parsing exactly that text gets the symbol
const char* vp_symtokint(const char* name, int lo, int hi, int* value);
// a fixed parameter that the driver may vary between slices (never symbolic)
double vp_param(const char* name, double dflt);
// assumptions (preconditions); end the path when false
void vp_assume_le(double a, double b);
void vp_assume_lt(double a, double b);
void vp_assume(int cond);  // concrete condition
// obligations
void vp_eq(const char* label, double a, double b, double tol);
void vp_le(const char* label, double a, double b, double tol);  // a <= b + tol
void vp_true(const char* label, int cond);
void vp_finite(const char* label, double a);
// suspend / resume tracking (the skipped phase is treated as concrete)
void vp_pause(void);
void vp_resume(void);
// forget the symbolic identity of a value
double vp_conc(double a);
// replace by a concrete value chosen by path (used to cut)
void vp_note(const char* text);
const char* vp_scratch(void);  // scratch directory of this run
const char* vp_arg(const char* key, const char* dflt);  // scenario options
int vp_is_native(void);
// the symbolic identity of a byte in memory (0: none), to carry it through files
unsigned vp_shadow_of(const void* p);
void vp_shadow_set(void* p, unsigned id);
#ifdef __cplusplus
}
#endif
