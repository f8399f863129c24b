// Instrumented stand-ins for compiler-rt / libm entry points on complex
// numbers, so that the symbolic values survive them.
#include <cmath>
extern "C" {
struct vpc2 { double r, i; };
vpc2 __muldc3(double a, double b, double c, double d) { return vpc2{a * c - b * d, a * d + b * c}; }
vpc2 __divdc3(double a, double b, double c, double d) { double n = c * c + d * d; return vpc2{(a * c + b * d) / n, (b * c - a * d) / n}; }
vpc2 cexp(double a, double b) { double e = std::exp(a); return vpc2{e * std::cos(b), e * std::sin(b)}; }
}
