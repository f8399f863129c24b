// Native replay runtime: plain values, obligations checked directly.
#include <cmath>
#include <csignal>
#include <exception>
#include <unistd.h>
#include "vp_common.h"
#include "vp.h"
static FILE* out() {
  static FILE* f = nullptr;
  if (!f) { const char* n = getenv("VP_DUMP"); f = n ? fopen(n, "w") : stdout; if (!f) f = stdout; }
  return f;
}
static void end(const char* w) { static bool d = false; if (d) return; d = true; fprintf(out(), "end %s\n", w); fflush(out()); }
extern "C" {
double vp_sym(const char* n, double lo, double hi) { double v = vpc_value(n, lo, hi); fprintf(out(), "sym %s %.17g\n", n, v); return v; }
double vp_symtok(const char* n, double lo, double hi) { double v = vpc_tokvalue(n, lo, hi); fprintf(out(), "sym %s %.17g\n", n, v); return v; }
const char* vp_symtokint(const char* n, int lo, int hi, int* v) { *v = vpc_ivalue(n, lo, hi); fprintf(out(), "sym %s %d\n", n, *v); return vpc_inttext(*v); }
int vp_symint(const char* n, int lo, int hi) { int v = vpc_ivalue(n, lo, hi); fprintf(out(), "sym %s %d\n", n, v); return v; }
double vp_param(const char* n, double d) { return vpc_param(n, d); }
void vp_assume_le(double a, double b) { if (!(a <= b)) { end("assume"); _exit(77); } }
void vp_assume_lt(double a, double b) { if (!(a < b)) { end("assume"); _exit(77); } }
void vp_assume(int c) { if (!c) { end("assume"); _exit(77); } }
void vp_eq(const char* l, double a, double b, double tol) {
  bool ok = std::fabs(a - b) <= tol;
  fprintf(out(), "o %d %.17g %.17g %.17g %s\n", ok, a, b, tol, l);
}
void vp_le(const char* l, double a, double b, double tol) {
  bool ok = a <= b + tol;
  fprintf(out(), "o %d %.17g %.17g %.17g %s\n", ok, a, b, tol, l);
}
void vp_true(const char* l, int c) { fprintf(out(), "o %d %d 1 0 %s\n", c ? 1 : 0, c ? 1 : 0, l); }
void vp_finite(const char* l, double a) { fprintf(out(), "o %d %.17g 0 0 %s\n", std::isfinite(a) ? 1 : 0, a, l); }
void vp_pause(void) {}
void vp_resume(void) {}
double vp_conc(double a) { return a; }
void vp_note(const char* t) { fprintf(out(), "note %s\n", t); }
const char* vp_scratch(void) { return vpc_scratch(); }
const char* vp_arg(const char* k, const char* d) { return vpc_arg(k, d); }
int vp_is_native(void) { return 1; }
}
static void onsig(int s) { char b[32]; snprintf(b, 32, "signal%d", s); end(b); _exit(128 + s); }
static void onterm() { end("exception"); _exit(99); }
static void onexit() { end("ok"); }
__attribute__((constructor)) static void init() {
  out();
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGTERM}) signal(s, onsig);
  std::set_terminate(onterm);
  atexit(onexit);
}
extern "C" {
unsigned vp_shadow_of(const void*) { return 0; }
void vp_shadow_set(void*, unsigned) {}
}
