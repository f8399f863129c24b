// witness / parameter / option plumbing shared by both runtimes
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <cmath>
struct VpcEnv {
  std::map<std::string, std::string> w, a;
  std::string scratch;
};
static VpcEnv& vpc() {
  static VpcEnv* e = nullptr;
  if (e) return *e;
  e = new VpcEnv();
  if (const char* fn = getenv("VP_IN")) {
    if (FILE* f = fopen(fn, "r")) {
      char k[512], v[512], t[16];
      while (fscanf(f, "%15s %511s %511s", t, k, v) == 3) {
        if (t[0] == 'w') e->w[k] = v; else e->a[k] = v;
      }
      fclose(f);
    }
  }
  const char* s = getenv("VP_SCRATCH");
  e->scratch = s ? s : "/tmp";
  return *e;
}
static double vpc_frac(const char* name) {
  unsigned long long h = 1469598103934665603ull;
  for (const char* p = name; *p; p++) { h ^= (unsigned char)*p; h *= 1099511628211ull; }
  h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 33;
  // short dyadic fractions keep the witnesses readable and exact
  return 0.15 + 0.7 * (double)((h >> 20) % 1024) / 1024.0;
}
static double vpc_value(const char* name, double lo, double hi) {
  auto it = vpc().w.find(name);
  if (it != vpc().w.end()) return strtod(it->second.c_str(), nullptr);
  double v = lo + (hi - lo) * vpc_frac(name);
  return (double)(float)v;
}
// numbers that go through text are told apart by their value: keep it unique
static double vpc_tokvalue(const char* name, double lo, double hi) {
  static std::map<float, int>* used = nullptr;
  if (!used) used = new std::map<float, int>();
  double v = vpc_value(name, lo, hi);
  auto brief = [](double x) { char b[40]; snprintf(b, sizeof b, "%.4g", x); return strtod(b, nullptr) == x; };
  bool nudge = vpc().a.count("nudge") > 0;
  for (int k = 1; k < 50 && (used->count((float)v) || (nudge && brief(v))); k++)
    v += (hi - lo) * 1.7e-5 * k * (v < 0.5 * (lo + hi) ? 1 : -1);
  (*used)[(float)v] = 1;
  return v;
}
static int vpc_ivalue(const char* name, int lo, int hi) {
  auto it = vpc().w.find(name);
  if (it != vpc().w.end()) return (int)strtod(it->second.c_str(), nullptr);
  double f = vpc_frac(name);
  return lo + (int)std::floor(f * ((double)hi - lo));
}
static double vpc_param(const char* name, double d) {
  auto it = vpc().a.find(name);
  return it != vpc().a.end() ? strtod(it->second.c_str(), nullptr) : d;
}
static const char* vpc_arg(const char* k, const char* d) {
  auto it = vpc().a.find(k);
  return it != vpc().a.end() ? it->second.c_str() : d;
}
static const char* vpc_scratch() { return vpc().scratch.c_str(); }

static const char* vpc_inttext(int v) {
  static int k = 0;
  char* b = (char*)malloc(64);
  snprintf(b, 64, "%0*d", 12 + k++, v);
  return b;
}
