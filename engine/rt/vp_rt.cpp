// Symbolic runtime: expression DAG with concrete values, shadow memory,
// path constraints, obligations; dumped as text when the run ends.
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>
#include <unistd.h>
#include "vp_common.h"

typedef uint32_t u32;
typedef uint64_t u64;
typedef int64_t i64;

extern "C" {
u32 __vp_args[64];
u32 __vp_ret[8];
void* __vp_callee;
}

// operators -- keep in sync with norm/vpnorm.cpp
enum {
  K_CONST = 0, K_ADD = 1, K_SUB, K_MUL, K_DIV, K_NEG = 6, K_SYM = 10,
  K_FN = 1000,               // +fid
  K_ISYM = 200, K_ICONST = 201, K_IBIN = 300, K_ICAST = 400
};

struct Node {
  int op;
  u32 a, b, c;
  union { double d; i64 i; } v;
  int w;  // 0 real, else integer width
};
static std::vector<Node>& N() { static std::vector<Node>* n = nullptr;
  if (!n) { n = new std::vector<Node>(); n->reserve(1 << 20); n->push_back(Node{}); }
  return *n; }

struct Key { u64 x, y, z;
  bool operator==(const Key& o) const { return x == o.x && y == o.y && z == o.z; } };
struct KeyH { size_t operator()(const Key& k) const {
  u64 h = k.x * 0x9E3779B97F4A7C15ull ^ (k.y + 0x7F4A7C15ull) * 0xC2B2AE3D27D4EB4Full ^ (k.z * 0x165667B19E3779F9ull);
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return h; } };
static std::unordered_map<Key, u32, KeyH>& H() {
  static auto* h = new std::unordered_map<Key, u32, KeyH>(); return *h; }

static inline u64 bits(double d) { u64 b; memcpy(&b, &d, 8); return b; }
// same number (the two zeros are one number)
static inline bool sameb(u64 a, u64 b) { return a == b || (!(a << 1) && !(b << 1)); }
static bool paused = false;

static u32 mk(int op, u32 a, u32 b, u32 c, double d, int w = 0, i64 iv = 0) {
  Key k;
  if (op == K_CONST) k = Key{(u64)op, bits(d), 0};
  else if (op == K_ICONST) k = Key{(u64)op | ((u64)w << 32), (u64)iv, 0};
  else k = Key{(u64)op | ((u64)w << 32), ((u64)a << 32) | b, c};
  auto it = H().find(k);
  if (it != H().end()) return it->second;
  Node n; n.op = op; n.a = a; n.b = b; n.c = c; n.w = w;
  if (w) n.v.i = iv; else n.v.d = d;
  u32 id = (u32)N().size();
  N().push_back(n);
  H().emplace(k, id);
  return id;
}
static inline u32 cst(double d) { return mk(K_CONST, 0, 0, 0, d == 0 ? 0.0 : d); }
static inline u32 icst(int w, i64 v) { return mk(K_ICONST, 0, 0, 0, 0, w, v); }
static inline bool isc(u32 id) { return N()[id].op == K_CONST || N()[id].op == K_ICONST; }
static inline bool isr(u32 id) { return id && N()[id].w == 0; }
static inline double val(u32 id) { return N()[id].v.d; }
static inline i64 sx(int w, i64 v) { if (w >= 64) return v; int s = 64 - w; return (i64)((u64)v << s) >> s; }
static inline u64 zx(int w, i64 v) { if (w >= 64) return (u64)v; return (u64)v & (((u64)1 << w) - 1); }

// ---- constraints ---------------------------------------------------------
enum { C_LT = 1, C_LE, C_EQ, C_NE, C_FLOOR /* k <= a < k+1 */, C_ICMP, C_CONC };
struct Con { int kind; int pred; int w; u32 a, b; int taken; double k; int assume; const char* site; };
static std::vector<Con>& CS() { static auto* c = new std::vector<Con>(); return *c; }
static std::unordered_map<Key, int, KeyH>& CSeen() { static auto* c = new std::unordered_map<Key, int, KeyH>(); return *c; }
static size_t maxcons = 200000;
static int assuming = 0;
static bool overflow = false;
static void addcon(Con c) {
  Key k{(u64)c.kind | ((u64)c.pred << 8) | ((u64)c.w << 16) | ((u64)c.taken << 32), ((u64)c.a << 32) | c.b, bits(c.k)};
  if (!CSeen().emplace(k, 1).second) return;
  if (CS().size() >= maxcons) { overflow = true; return; }
  c.assume = assuming;
  CS().push_back(c);
}
static void rcon(int kind, u32 a, u32 b, const char* site) {
  if (isc(a) && isc(b)) return;
  addcon(Con{kind, 0, 0, a, b, 1, 0, 0, site});
}

struct Obl { int kind; std::string label; u32 a, b; double va, vb, tol; size_t ncons; };
static std::vector<Obl>& OB() { static auto* c = new std::vector<Obl>(); return *c; }
struct SymI { std::string name; double lo, hi; u32 id; int isint; };
static std::vector<SymI>& SY() { static auto* c = new std::vector<SymI>(); return *c; }
static std::vector<std::string>& NOTES() { static auto* c = new std::vector<std::string>(); return *c; }
static std::vector<const char*>& FUNS() { static auto* c = new std::vector<const char*>(); return *c; }
static std::unordered_map<u64, u32>& MAGIC() { static auto* c = new std::unordered_map<u64, u32>(); return *c; }
static std::map<std::string, long>& LOST() { static auto* c = new std::map<std::string, long>(); return *c; }
static bool trackFuns = true;

// ---- shadow memory -------------------------------------------------------
struct Page { u32 s[4096]; };
static Page** L1[1 << 18];
static inline Page* page(u64 a, bool mkp) {
  u64 p = a >> 12; u64 i = (p >> 17) & 0x3ffff, j = p & 0x1ffff;
  if (!L1[i]) { if (!mkp) return nullptr; L1[i] = (Page**)calloc(1 << 17, sizeof(Page*)); }
  if (!L1[i][j]) { if (!mkp) return nullptr; L1[i][j] = (Page*)calloc(1, sizeof(Page)); }
  return L1[i][j];
}
static inline u32 sget(u64 a) { Page* p = page(a, false); return p ? p->s[a & 4095] : 0; }
static inline void sset(u64 a, u32 v) { Page* p = page(a, v != 0); if (p) p->s[a & 4095] = v; }
static void sclear(u64 a, u64 n) {
  while (n) {
    u64 o = a & 4095, m = 4096 - o; if (m > n) m = n;
    Page* p = page(a, false);
    if (p) memset(p->s + o, 0, m * sizeof(u32));
    a += m; n -= m;
  }
}

// ---- arithmetic ----------------------------------------------------------
static u32 bin(int op, u32 a, u32 b, double res);
static u32 neg(u32 a, double res) {
  if (isc(a)) return cst(res);
  if (N()[a].op == K_NEG) return N()[a].a;
  return mk(K_NEG, a, 0, 0, res);
}
static u32 bin(int op, u32 a, u32 b, double res) {
  bool ca = isc(a), cb = isc(b);
  if (ca && cb) return cst(res);
  double va = val(a), vb = val(b);
  switch (op) {
  case K_ADD:
    if (ca && va == 0) return b;
    if (cb && vb == 0) return a;
    if (a > b) std::swap(a, b);
    break;
  case K_SUB:
    if (cb && vb == 0) return a;
    if (ca && va == 0) return neg(b, res);
    if (a == b) return cst(0.0);
    break;
  case K_MUL:
    if ((ca && va == 0) || (cb && vb == 0)) return cst(0.0);
    if (ca && va == 1) return b;
    if (cb && vb == 1) return a;
    if (ca && va == -1) return neg(b, res);
    if (cb && vb == -1) return neg(a, res);
    if (a > b) std::swap(a, b);
    break;
  case K_DIV:
    if (cb && vb == 1) return a;
    if (ca && va == 0) return cst(0.0);
    break;
  }
  return mk(op, a, b, 0, res);
}
static inline u32 lift(u32 s, double v) { return s ? s : cst(v); }
static inline u32 fin(u32 id) { return (id && isc(id)) ? 0 : id; }

static void confloor(u32 x, double k, const char* site) {
  if (isc(x)) return;
  addcon(Con{C_FLOOR, 0, 0, x, 0, 1, k, 0, site});
}
// x >= 0 ?  records the sign and returns |x| node
static u32 absnode(u32 x, const char* site) {
  if (isc(x)) return cst(std::fabs(val(x)));
  u32 z = cst(0.0);
  if (val(x) < 0) { rcon(C_LT, x, z, site); return neg(x, -val(x)); }
  rcon(C_LE, z, x, site);
  return x;
}

extern "C" {
u32 __vp_fbin(u32 op, u32 sa, u32 sb, double a, double b, double res) {
  if (!(sa | sb) || paused) return 0;
  if ((sa && !isr(sa)) || (sb && !isr(sb))) return 0;
  u32 x = lift(sa, a), y = lift(sb, b);
  if (op == 5) {
    u32 q = bin(K_DIV, x, y, a / b);
    double k = std::trunc(a / b);
    double fl = std::floor(a / b);
    confloor(q, fl, "fmod");
    return fin(bin(K_SUB, x, bin(K_MUL, cst(k), y, k * b), res));
  }
  return fin(bin(op, x, y, res));
}
u32 __vp_fneg(u32 s, double res) { if (!s || paused || !isr(s)) return 0; return fin(neg(s, res)); }
u32 __vp_cast(u32 s, double res) {
  if (!s || !isr(s)) return 0;
  if (sameb(bits(res), bits(val(s)))) return s;
  if (paused) return 0;
  return mk(7, s, 0, 0, res);
}
void __vp_fcmp(u32 pred, u32 sa, u32 sb, double a, double b, u32 res, const char* site) {
  if (!(sa | sb) || paused) return;
  if (a != a || b != b) return;
  u32 x = lift(sa, a), y = lift(sb, b);
  if (!isr(x) || !isr(y)) return;
  if (isc(x) && isc(y)) return;
  if (x == y) return;
  switch (pred & 7) {  // ignore ordered/unordered (no NaN here)
  case 0: case 7: return;
  case 1: rcon(res ? C_EQ : C_NE, x, y, site); return;
  case 6: rcon(res ? C_NE : C_EQ, x, y, site); return;
  case 2: if (res) rcon(C_LT, y, x, site); else rcon(C_LE, x, y, site); return;
  case 3: if (res) rcon(C_LE, y, x, site); else rcon(C_LT, x, y, site); return;
  case 4: if (res) rcon(C_LT, x, y, site); else rcon(C_LE, y, x, site); return;
  case 5: if (res) rcon(C_LE, x, y, site); else rcon(C_LT, y, x, site); return;
  }
}
void __vp_lost(u32 s, const char* site) { if (s && !paused) LOST()[site]++; }

static u32 ilift(u32 s, int w, u64 v) { return s ? s : icst(w, sx(w, v)); }
u32 __vp_ibin(u32 opc, u32 w, u32 sa, u32 sb, u64 a, u64 b, u64 res) {
  if (!(sa | sb) || paused) return 0;
  if (isr(sa) || isr(sb)) {  // bit games with a real
    if (sa && isr(sa)) __vp_lost(sa, "bits-of-real");
    return 0;
  }
  u32 x = ilift(sa, w, a), y = ilift(sb, w, b);
  return mk(K_IBIN + opc, x, y, 0, 0, w, sx(w, res));
}
u32 __vp_icast(u32 opc, u32 w1, u32 w2, u32 s, u64 res) {
  if (!s || paused || isr(s)) return 0;
  if (isc(s)) return 0;
  return mk(K_ICAST + opc, s, w1, 0, 0, w2, sx(w2, res));
}
void __vp_icmp(u32 pred, u32 w, u32 sa, u32 sb, u64 a, u64 b, u32 res, const char* site) {
  if (!(sa | sb) || paused) return;
  if (isr(sa) || isr(sb)) {
    u32 z = cst(0.0);
    if (sa && !sb && w == 64) {
      if (pred == 40 && (i64)b == 0) { if (res) rcon(C_LT, sa, z, site); else rcon(C_LE, z, sa, site); return; }
      if (pred == 38 && (i64)b == -1) { if (res) rcon(C_LE, z, sa, site); else rcon(C_LT, sa, z, site); return; }
    }
    __vp_lost(sa ? sa : sb, site);
    return;
  }
  u32 x = ilift(sa, w, a), y = ilift(sb, w, b);
  if (isc(x) && isc(y)) return;
  addcon(Con{C_ICMP, (int)pred, (int)w, x, y, (int)res, 0, 0, site});
}
void __vp_f2i(u32 s, double a, i64 res, const char* site) {
  if (!s || paused || !isr(s)) return;
  double fl = std::floor(a);
  confloor(s, fl, site);
  if (a < 0 && fl == a) {}
}
void __vp_i2f(u32, i64, u32, const char*) {}
void __vp_conc(u32 s, u64 v, u32 w, const char* site) {
  if (!s || paused || isr(s) || isc(s)) return;
  addcon(Con{C_CONC, 32, (int)w, s, icst(w, sx(w, v)), 1, 0, 0, site});
}
u32 __vp_load(void* p, u32 sz, u64 b) {
  u32 id = sget((u64)p);
  if (!id) return 0;
  const Node& n = N()[id];
  if (n.w == 0) {
    if (sz == 8 || sz > 100) { if (sameb(bits(n.v.d), b)) return id; }
    return 0;
  }
  if (sz > 100) return 0;
  if ((int)(sz * 8) != n.w) return 0;
  return zx(n.w, n.v.i) == zx(n.w, (i64)b) ? id : 0;
}
void __vp_store(void* p, u32 sz, u32 id) {
  u64 a = (u64)p;
  u32 n = sz > 100 ? sz - 100 : sz;
  Page* pg = page(a, id != 0);
  if (pg && (a & 4095) + n <= 4096) {
    u32* s = pg->s + (a & 4095);
    s[0] = id;
    for (u32 i = 1; i < n; i++) s[i] = 0;
    return;
  }
  sset(a, id);
  for (u32 i = 1; i < n; i++) sset(a + i, 0);
}
void __vp_memcpy(void* d, void* s, u64 n) {
  u64 a = (u64)d, b = (u64)s;
  if (a == b || !n) return;
  if (n > (1u << 28)) return;
  // fast path: nothing shadowed on either side
  bool any = false;
  for (u64 q = b & ~4095ull; q < b + n && !any; q += 4096) if (page(q, false)) any = true;
  if (!any) { sclear(a, n); return; }
  std::vector<u32> t(n);
  for (u64 i = 0; i < n; i++) t[i] = sget(b + i);
  for (u64 i = 0; i < n; i++) if (t[i]) sset(a + i, t[i]); else { Page* p = page(a + i, false); if (p) p->s[(a + i) & 4095] = 0; }
}
void __vp_memset(void* p, u64 n) { if (n < (1u << 30)) sclear((u64)p, n); }

u32 __vp_fn(u32 fid, u32 s0, u32 s1, u32 s2, double a0, double a1, double a2, double res, const char* site) {
  if (!(s0 | s1 | s2) || paused) return 0;
  if ((s0 && !isr(s0)) || (s1 && !isr(s1)) || (s2 && !isr(s2))) return 0;
  u32 x = lift(s0, a0);
  switch (fid) {
  case 14: return fin(absnode(x, site));
  case 15: confloor(x, res, site); return 0;
  case 16: confloor(neg(x, -a0), -res, site); return 0;
  case 17: {  // round half away from zero
    u32 z = cst(0.0);
    if (a0 >= 0) { rcon(C_LE, z, x, site); confloor(bin(K_ADD, x, cst(0.5), a0 + 0.5), res, site); }
    else { rcon(C_LT, x, z, site); confloor(bin(K_SUB, cst(0.5), x, 0.5 - a0), -res, site); }
    return 0; }
  case 18: { u32 z = cst(0.0);
    if (a0 >= 0) { rcon(C_LE, z, x, site); confloor(x, res, site); }
    else { rcon(C_LT, x, z, site); confloor(neg(x, -a0), -res, site); }
    return 0; }
  case 19: confloor(bin(K_ADD, x, cst(0.5), a0 + 0.5), res, site); return 0;
  case 42: return __vp_fbin(5, s0, s1, a0, a1, res);
  case 43: { u32 y = lift(s1, a1);
    u32 q = bin(K_ADD, bin(K_MUL, x, x, a0 * a0), bin(K_MUL, y, y, a1 * a1), a0 * a0 + a1 * a1);
    return fin(mk(K_FN + 1, q, 0, 0, res)); }
  case 44: { u32 y = lift(s1, a1);
    if (a1 < a0) { rcon(C_LT, y, x, site); return fin(y); } rcon(C_LE, x, y, site); return fin(x); }
  case 45: { u32 y = lift(s1, a1);
    if (a0 < a1) { rcon(C_LT, x, y, site); return fin(y); } rcon(C_LE, y, x, site); return fin(x); }
  case 46: { u32 y = lift(s1, a1); u32 z = cst(0.0);
    u32 m = absnode(x, site);
    bool ng = std::signbit(a1);
    if (!isc(y)) { if (ng) rcon(a1 == 0 ? C_LE : C_LT, y, z, site); else rcon(C_LE, z, y, site); }
    return fin(ng ? neg(m, res) : m); }
  case 47: case 40: {
    if (!s1) {
      double e = a1;
      if (e == 0.5) return fin(mk(K_FN + 1, x, 0, 0, res));
      if (e == std::floor(e) && std::fabs(e) <= 16) {
        int n = (int)std::fabs(e);
        if (n == 0) return 0;
        u32 r = x; double rv = a0;
        for (int i = 1; i < n; i++) { rv *= a0; r = bin(K_MUL, r, x, rv); }
        if (e < 0) r = bin(K_DIV, cst(1.0), r, res);
        return fin(r);
      }
    }
    return fin(mk(K_FN + 40, x, lift(s1, a1), 0, res)); }
  case 48: return fin(bin(K_MUL, x, cst(std::ldexp(1.0, (int)a1)), res));
  case 60: { u32 y = lift(s1, a1), z = lift(s2, a2);
    return fin(bin(K_ADD, bin(K_MUL, x, y, a0 * a1), z, res)); }
  case 41: return fin(mk(K_FN + 41, x, lift(s1, a1), 0, res));
  case 1:
    if (isc(x)) return 0;
    return mk(K_FN + 1, x, 0, 0, res);
  default: return fin(mk(K_FN + fid, x, 0, 0, res));
  }
}
void __vp_enter(char* slot, const char* name) {
  if (*slot) return;
  if (paused || !trackFuns) return;
  *slot = 1;
  FUNS().push_back(name);
}
u32 __vp_extret(u32 s, double v) {
  if (s) { if (isr(s) && sameb(bits(val(s)), bits(v))) return s; }
  if (!MAGIC().empty()) { auto it = MAGIC().find(bits(v)); if (it != MAGIC().end()) return it->second; }
  return 0;
}
u32 __vp_extreti(u32 s, u64 v) {
  if (!s) return 0;
  const Node& n = N()[s];
  if (n.w == 0) return sameb(bits(n.v.d), v) ? s : 0;
  return zx(n.w, n.v.i) == zx(n.w, (i64)v) ? s : 0;
}

// number <-> pattern (see the pass)
static bool wasPaused = false;
void __vp_codec_in(void) { wasPaused = paused; paused = true; }
void __vp_codec_ser(void* p, u64 v) {
  paused = wasPaused;
  u32 id = sget((u64)p);
  __vp_ret[0] = id && N()[id].w == 0 && sameb(bits(N()[id].v.d), v) ? id : 0;
}
void __vp_codec_des(void* p, void* o) {
  paused = wasPaused;
  u32 id = sget((u64)p);
  u64 b; memcpy(&b, o, 8);
  __vp_store(o, 8, id && N()[id].w == 0 && sameb(bits(N()[id].v.d), b) ? id : 0);
}
// the shadow of memory, for harnesses that carry bytes through a file
u32 vp_shadow_of(const void* p) { return sget((u64)p); }
void vp_shadow_set(void* p, u32 id) { sset((u64)p, id); }

// ---- harness API -----------------------------------------------------------
static double newsym(const char* name, double lo, double hi, double v) {
  u32 id = (u32)N().size();
  Node n; n.op = K_SYM; n.a = (u32)SY().size(); n.b = n.c = 0; n.w = 0; n.v.d = v;
  N().push_back(n);
  SY().push_back(SymI{name, lo, hi, id, 0});
  __vp_ret[0] = id;
  return v;
}
double vp_sym(const char* name, double lo, double hi) { return newsym(name, lo, hi, vpc_value(name, lo, hi)); }
double vp_symtok(const char* name, double lo, double hi) {
  double v = newsym(name, lo, hi, vpc_tokvalue(name, lo, hi));
  u32 id = __vp_ret[0];
  MAGIC()[bits(v)] = id;
  double fv = (double)(float)v;
  if (bits(fv) != bits(v)) MAGIC()[bits(fv)] = mk(7, id, 0, 0, fv);
  __vp_ret[0] = id;
  return v;
}
int vp_symint(const char* name, int lo, int hi) {
  int v = vpc_ivalue(name, lo, hi);
  u32 id = (u32)N().size();
  Node n; n.op = K_ISYM; n.a = (u32)SY().size(); n.b = n.c = 0; n.w = 32; n.v.i = v;
  N().push_back(n);
  SY().push_back(SymI{name, (double)lo, (double)hi, id, 1});
  __vp_ret[0] = id;
  return v;
}
static std::unordered_map<std::string, u32>& ITOK() { static auto* c = new std::unordered_map<std::string, u32>(); return *c; }
const char* vp_symtokint(const char* name, int lo, int hi, int* value) {
  int v = vp_symint(name, lo, hi);
  u32 id = __vp_ret[0];
  const char* t = vpc_inttext(v);
  ITOK()[t] = id;
  *value = v;
  sset((u64)value, 0);
  __vp_store(value, 4, id);
  __vp_ret[0] = 0;
  return t;
}
// integers read out of text
static long intOf(const char* s, char** e, int base) {
  char* q;
  long v = strtoll(s, &q, base);
  if (e) *e = q;
  __vp_ret[0] = 0;
  if (!ITOK().empty() && q - s >= 12) {
    auto it = ITOK().find(std::string(s, q - s));
    if (it != ITOK().end()) __vp_ret[0] = __vp_icast(40, 32, 64, it->second, (u64)v);
  }
  return v;
}
long vp_strtol(const char* s, char** e, int base) __asm__("strtol");
long vp_strtol(const char* s, char** e, int base) { return intOf(s, e, base); }
long vp_strtol23(const char* s, char** e, int base) __asm__("__isoc23_strtol");
long vp_strtol23(const char* s, char** e, int base) { return intOf(s, e, base); }
double vp_param(const char* name, double d) { __vp_ret[0] = 0; return vpc_param(name, d); }
static void finish(int code, const char* why);
void vp_assume_le(double a, double b) {
  u32 x = lift(__vp_args[0], a), y = lift(__vp_args[1], b);
  assuming = 1;
  if (a <= b) rcon(C_LE, x, y, "assume"); else { rcon(C_LT, y, x, "assume"); assuming = 0; finish(77, "assume"); }
  assuming = 0;
}
void vp_assume_lt(double a, double b) {
  u32 x = lift(__vp_args[0], a), y = lift(__vp_args[1], b);
  assuming = 1;
  if (a < b) rcon(C_LT, x, y, "assume"); else { rcon(C_LE, y, x, "assume"); assuming = 0; finish(77, "assume"); }
  assuming = 0;
}
void vp_assume(int c) { if (!c) finish(77, "assume"); }
static void obl(int kind, const char* l, u32 a, u32 b, double va, double vb, double tol) {
  OB().push_back(Obl{kind, l, a, b, va, vb, tol, CS().size()});
}
void vp_eq(const char* l, double a, double b, double tol) { obl(1, l, lift(__vp_args[1], a), lift(__vp_args[2], b), a, b, tol); }
void vp_le(const char* l, double a, double b, double tol) { obl(2, l, lift(__vp_args[1], a), lift(__vp_args[2], b), a, b, tol); }
void vp_true(const char* l, int c) { obl(3, l, cst(c ? 1 : 0), cst(1), c ? 1 : 0, 1, 0); }
void vp_finite(const char* l, double a) { bool c = std::isfinite(a); obl(3, l, cst(c ? 1 : 0), cst(1), c ? 1 : 0, 1, 0); }
void vp_pause(void) { paused = true; }
void vp_resume(void) { paused = false; }
double vp_conc(double a) { __vp_ret[0] = 0; return a; }
void vp_note(const char* t) { NOTES().push_back(t); }
const char* vp_scratch(void) { return vpc_scratch(); }
const char* vp_arg(const char* k, const char* d) { return vpc_arg(k, d); }
int vp_is_native(void) { return 0; }
}

static const char* clean(const std::string& s, std::string& o) { o = s; for (auto& c : o) if (c == '\n' || c == '\t') c = ' '; return o.c_str(); }

static bool dumped = false;
static void dump(const char* why) {
  if (dumped) return;
  dumped = true;
  paused = true;
  const char* fn = getenv("VP_DUMP");
  if (!fn) return;
  FILE* f = fopen(fn, "w");
  if (!f) return;
  std::string t;
  fprintf(f, "end %s\n", why);
  if (overflow) fprintf(f, "overflow\n");
  for (auto& s : SY()) fprintf(f, "sym %u %d %.17g %.17g %s\n", s.id, s.isint, s.lo, s.hi, s.name.c_str());
  std::vector<char> need(N().size(), 0);
  std::vector<u32> st;
  auto want = [&](u32 i) { if (i && !need[i]) { need[i] = 1; st.push_back(i); } };
  for (auto& s : SY()) want(s.id);
  for (auto& c : CS()) { want(c.a); want(c.b); }
  for (auto& o : OB()) { want(o.a); want(o.b); }
  while (!st.empty()) {
    u32 i = st.back(); st.pop_back();
    Node& n = N()[i];
    if (n.op == K_CONST || n.op == K_ICONST || n.op == K_SYM || n.op == K_ISYM) continue;
    want(n.a);
    if (n.op >= K_ICAST && n.op < K_FN) continue;
    want(n.b); want(n.c);
  }
  for (u32 i = 1; i < N().size(); i++) if (need[i]) {
    Node& n = N()[i];
    if (n.w) fprintf(f, "n %u %d %u %u %u %d %lld\n", i, n.op, n.a, n.b, n.c, n.w, (long long)n.v.i);
    else fprintf(f, "n %u %d %u %u %u 0 %.17g\n", i, n.op, n.a, n.b, n.c, n.v.d);
  }
  for (auto& c : CS())
    fprintf(f, "c %d %d %d %u %u %d %.17g %d %s\n", c.kind, c.pred, c.w, c.a, c.b, c.taken, c.k, c.assume, clean(c.site ? c.site : "?", t));
  for (auto& o : OB())
    fprintf(f, "o %d %u %u %.17g %.17g %.17g %zu %s\n", o.kind, o.a, o.b, o.va, o.vb, o.tol, o.ncons, clean(o.label, t));
  for (auto& n : NOTES()) fprintf(f, "note %s\n", clean(n, t));
  for (auto& n : LOST()) fprintf(f, "lost %ld %s\n", n.second, clean(n.first, t));
  for (auto& n : FUNS()) { std::string q; clean(n, q); fprintf(f, "fun %s\n", q.c_str()); }
  fclose(f);
}
static void finish(int code, const char* why) { dump(why); fflush(nullptr); _exit(code); }
static void onsig(int s) { char b[32]; snprintf(b, 32, "signal%d", s); dump(b); _exit(128 + s); }
static void onexit() { dump("ok"); }
static void onterm() { dump("exception"); _exit(99); }
#include <exception>
__attribute__((constructor)) static void init() {
  N(); H(); CS(); OB(); SY(); FUNS(); NOTES(); MAGIC(); LOST(); CSeen();
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGTERM}) signal(s, onsig);
  std::set_terminate(onterm);
  atexit(onexit);
}
// keep recycled heap memory free of stale shadows
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); sclear((u64)p, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
