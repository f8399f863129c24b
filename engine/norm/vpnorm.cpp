// vpnorm: reads the dump of one symbolic run and produces
//  * the normal form of every obligation (Laurent polynomials with exact
//    rational coefficients over symbols, square roots, denominators and
//    uninterpreted/elementary functions) and SMT-LIB queries for them,
//  * SMT-LIB queries for the negation of every path constraint,
//  * candidate inputs (found by evaluating the DAG) for flipped branches and
//    for violated obligations; candidates are only ever *suggestions*.
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;
typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

enum { K_CONST = 0, K_ADD = 1, K_SUB, K_MUL, K_DIV, K_NEG = 6, K_CAST = 7, K_SYM = 10,
  K_FN = 1000, K_ISYM = 200, K_ICONST = 201, K_IBIN = 300, K_ICAST = 400 };
enum { C_LT = 1, C_LE, C_EQ, C_NE, C_FLOOR, C_ICMP, C_CONC };
struct Node { int op = -1; u32 a = 0, b = 0, c = 0; int w = 0; double d = 0; i64 i = 0; };
struct Con { int kind, pred, w; u32 a, b; int taken; double k; int assume; string site; u64 h; };
struct Obl { int kind; u32 a, b; double va, vb, tol; size_t nc; string label; };
struct Sym { u32 id; int isint; double lo, hi; string name; double wit; };
static vector<Node> N; static vector<Con> CS; static vector<Obl> OB; static vector<Sym> SY;
static vector<string> notes, funs; static vector<pair<long,string>> lost;
static string endw; static bool overflow_ = false;

static void readDump(const char* fn) {
  ifstream f(fn); string line;
  if (!f) { fprintf(stderr, "cannot read %s\n", fn); exit(3); }
  while (getline(f, line)) {
    const char* s = line.c_str();
    if (!strncmp(s, "n ", 2)) {
      u32 id; Node n; int off; char vb[64];
      sscanf(s + 2, "%u %d %u %u %u %d %63s", &id, &n.op, &n.a, &n.b, &n.c, &n.w, vb); (void)off;
      if (n.w) n.i = strtoll(vb, 0, 10); else n.d = strtod(vb, 0);
      if (N.size() <= id) N.resize(id + 1);
      N[id] = n;
    } else if (!strncmp(s, "c ", 2)) {
      Con c; int off = 0; char kb[64];
      sscanf(s + 2, "%d %d %d %u %u %d %63s %d %n", &c.kind, &c.pred, &c.w, &c.a, &c.b, &c.taken, kb, &c.assume, &off);
      c.k = strtod(kb, 0); c.site = s + 2 + off; CS.push_back(c);
    } else if (!strncmp(s, "o ", 2)) {
      Obl o; int off = 0; char v1[64], v2[64], v3[64];
      sscanf(s + 2, "%d %u %u %63s %63s %63s %zu %n", &o.kind, &o.a, &o.b, v1, v2, v3, &o.nc, &off);
      o.va = strtod(v1, 0); o.vb = strtod(v2, 0); o.tol = strtod(v3, 0); o.label = s + 2 + off; OB.push_back(o);
    } else if (!strncmp(s, "sym ", 4)) {
      Sym y; int off = 0; char v1[64], v2[64];
      sscanf(s + 4, "%u %d %63s %63s %n", &y.id, &y.isint, v1, v2, &off);
      y.lo = strtod(v1, 0); y.hi = strtod(v2, 0); y.name = s + 4 + off; SY.push_back(y);
    } else if (!strncmp(s, "end ", 4)) endw = s + 4;
    else if (!strncmp(s, "note ", 5)) notes.push_back(s + 5);
    else if (!strncmp(s, "fun ", 4)) funs.push_back(s + 4);
    else if (!strncmp(s, "lost ", 5)) { long k; int off = 0; sscanf(s + 5, "%ld %n", &k, &off); lost.push_back({k, s + 5 + off}); }
    else if (!strcmp(s, "overflow")) overflow_ = true;
  }
  for (auto& y : SY) { if (y.id >= N.size()) N.resize(y.id + 1); y.wit = y.isint ? (double)N[y.id].i : N[y.id].d; }
}

// ---------------------------------------------------------------- polynomials
enum AK { A_SYM, A_SQRT, A_DEN, A_FN, A_DEF, A_OPQ };
struct Poly;
typedef shared_ptr<const Poly> PP;
struct Atom { AK k; int idx; int fid; PP p, q; double lo, hi; bool haveb = false; u32 node; vector<pair<int,int>> lm; PP rest; double wt = 1; };
static vector<Atom> AT;
typedef vector<pair<int,int>> MV;  // sorted (atom, exp)
struct MVH { size_t operator()(const MV& m) const { u64 h = 1469598103934665603ull; for (auto& x : m) { h ^= (u64)x.first * 1000003u + (u64)(x.second + 500); h *= 1099511628211ull; h ^= h >> 27; } return h; } };
static vector<MV> MO; static unordered_map<MV, int, MVH> MI;
static int mono(const MV& m) { auto it = MI.find(m); if (it != MI.end()) return it->second; int i = MO.size(); MO.push_back(m); MI[m] = i; return i; }
struct Poly { map<int, mpq_class> t; };
struct TooBig {};
static double cpunow() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static double TLIM = 1e30; static unsigned tickc = 0;
static inline void tick() { if ((++tickc & 63) == 0 && cpunow() > TLIM) throw TooBig(); }
static size_t LIMIT = 60000, DEFT = 1000000000; static u64 WORK = 0, WORKMAX = 40000000;

static PP pconst(const mpq_class& c) { auto p = make_shared<Poly>(); if (c != 0) p->t[mono({})] = c; return p; }
static PP patom(int a, int e = 1) { auto p = make_shared<Poly>(); p->t[mono({{a, e}})] = 1; return p; }
static bool iszero(const PP& p) { return p->t.empty(); }
static bool isconst(const PP& p, mpq_class* c = 0) {
  if (p->t.empty()) { if (c) *c = 0; return true; }
  if (p->t.size() == 1 && MO[p->t.begin()->first].empty()) { if (c) *c = p->t.begin()->second; return true; }
  return false; }
static PP padd(const PP& a, const PP& b, int sgn) {
  if (iszero(b)) return a;
  tick();
  auto r = make_shared<Poly>(*a);
  for (auto& x : b->t) { auto it = r->t.find(x.first);
    if (it == r->t.end()) r->t[x.first] = sgn > 0 ? x.second : mpq_class(-x.second);
    else { if (sgn > 0) it->second += x.second; else it->second -= x.second; if (it->second == 0) r->t.erase(it); } }
  WORK += b->t.size();
  if (r->t.size() > LIMIT || WORK > WORKMAX) throw TooBig();
  return r; }
static PP pscale(const PP& a, const mpq_class& c) { if (c == 0) return pconst(0); if (c == 1) return a; auto r = make_shared<Poly>(*a); for (auto& x : r->t) x.second *= c; return r; }
static PP pmul(const PP& a, const PP& b);
static PP ppow(PP a, int n) { PP r = pconst(1); while (n) { if (n & 1) r = pmul(r, a); n >>= 1; if (n) a = pmul(a, a); } return r; }

// product of two monomials: usually a monomial, sometimes (sqrt^2, cos^2, LM(D)/D) a polynomial
struct MP { int m; PP p; };
static unordered_map<u64, MP> MM;
static unordered_map<int, MP> NF;
static int nfdepth = 0;
struct DepthG { DepthG() { if (++nfdepth > 400) { nfdepth = 0; throw TooBig(); } } ~DepthG() { if (nfdepth) --nfdepth; } };
static PP pmono(int m) { auto p = make_shared<Poly>(); p->t[m] = 1; return p; }
// weighted degree-lex order used for leading monomials
static double mweight(const MV& m) { double w = 0; for (auto& f : m) if (AT[f.first].k != A_DEN) w += AT[f.first].wt * f.second; return w; }
static bool mless(const MV& a, const MV& b) {
  double x = mweight(a), y = mweight(b); if (fabs(x - y) > 1e-9) return x < y;
  int i = (int)a.size() - 1, j = (int)b.size() - 1;
  while (i >= 0 || j >= 0) { int fa = i >= 0 ? a[i].first : -1, fb = j >= 0 ? b[j].first : -1;
    if (fa == fb) { if (a[i].second != b[j].second) return a[i].second < b[j].second; i--; j--; }
    else if (fa > fb) return a[i].second < 0; else return b[j].second > 0; }
  return false; }
static int leadMono(const PP& p) { int best = -1; for (auto& x : p->t) if (best < 0 || mless(MO[best], MO[x.first])) best = x.first; return best; }
static MP nf(const MV& raw) {
  int key = mono(raw);
  auto it = NF.find(key); if (it != NF.end()) return it->second;
  DepthG g;
  for (size_t i = 0; i < raw.size(); i++) {
    int at = raw[i].first, e = raw[i].second; const Atom A = AT[at]; PP extra; int ne = e;
    if (A.k == A_SQRT && e >= 2) { extra = ppow(A.p, e / 2); ne = e % 2; }
    else if (A.k == A_FN && A.fid == 3 && e >= 2) { PP s = patom(A.idx); extra = ppow(padd(pconst(1), pmul(s, s), -1), e / 2); ne = e % 2; }
    else if (A.k == A_DEN && e > 0) { extra = ppow(A.p, e); ne = 0; }
    if (extra) { MV r = raw; if (ne) r[i].second = ne; else r.erase(r.begin() + i); MP b = nf(r); PP q = pmul(b.p ? b.p : pmono(b.m), extra); MP res{-1, q}; return NF[key] = res; } }
  for (size_t i = 0; i < raw.size(); i++) {
    int at = raw[i].first, e = raw[i].second; if (AT[at].k != A_DEN || e >= 0) continue;
    const MV lm = AT[at].lm; PP rest = AT[at].rest; bool div = !lm.empty(); MV q;
    { size_t j = 0; for (auto& f : raw) { int ee = f.second; if (j < lm.size() && lm[j].first < f.first) { div = false; break; } if (j < lm.size() && lm[j].first == f.first) { if (ee < lm[j].second) { div = false; break; } ee -= lm[j].second; j++; } if (ee) q.push_back({f.first, ee}); } if (j < lm.size()) div = false; }
    if (!div) continue;
    MV q1; for (auto& f : q) { int ee = f.second; if (f.first == at) ee += 1; if (ee) q1.push_back({f.first, ee}); }
    MP a = nf(q1), b = nf(q);
    PP r = padd(a.p ? a.p : pmono(a.m), pmul(b.p ? b.p : pmono(b.m), rest), -1);
    MP res{-1, r}; return NF[key] = res; }
  MP res{key, nullptr}; return NF[key] = res; }
static MP mmul(int x, int y) {
  if (x > y) swap(x, y);
  u64 k = ((u64)x << 32) | (u32)y;
  auto it = MM.find(k); if (it != MM.end()) return it->second;
  const MV A = MO[x], B = MO[y]; MV r; size_t i = 0, j = 0;
  while (i < A.size() || j < B.size()) {
    if (j >= B.size() || (i < A.size() && A[i].first < B[j].first)) r.push_back(A[i++]);
    else if (i >= A.size() || B[j].first < A[i].first) r.push_back(B[j++]);
    else { int e = A[i].second + B[j].second; if (e) r.push_back({A[i].first, e}); i++; j++; } }
  MP res = nf(r); MM[k] = res; return res; }
static PP pmul(const PP& a, const PP& b) {
  if (iszero(a)) return a; if (iszero(b)) return b;
  mpq_class c;
  if (isconst(a, &c)) return pscale(b, c);
  if (isconst(b, &c)) return pscale(a, c);
  if ((u64)a->t.size() * b->t.size() > 40 * LIMIT) throw TooBig();
  WORK += (u64)a->t.size() * b->t.size();
  if (WORK > WORKMAX) throw TooBig();
  auto r = make_shared<Poly>();
  for (auto& x : a->t) for (auto& y : b->t) {
    tick();
    MP mp = mmul(x.first, y.first);
    mpq_class cc = x.second * y.second;
    if (mp.m >= 0) { auto& e = r->t[mp.m]; e += cc; if (e == 0) r->t.erase(mp.m); }
    else for (auto& z : mp.p->t) { auto& e = r->t[z.first]; e += cc * z.second; if (e == 0) r->t.erase(z.first); } }
  if (r->t.size() > LIMIT) throw TooBig();
  return r; }

static string pkey(const PP& p) { string s; for (auto& x : p->t) { s += to_string(x.first); s += ':'; s += x.second.get_str(62); s += ';'; } return s; }
static map<string, int> ATI;
static int newAtom(const string& key, Atom a) { auto it = ATI.find(key); if (it != ATI.end()) return it->second; int i = AT.size(); AT.push_back(a); ATI[key] = i; return i; }

static mpq_class Q(double d) { if (!std::isfinite(d)) return mpq_class(0); mpq_class q(d); return q; }

// multiply p by the monomial/denominator needed to make every exponent >= 0.
// den receives (atom, power) pairs: original p == result / prod atom^power
static PP pclear(PP p, vector<pair<int,int>>* den) {
  for (int guard = 0; guard < 200; guard++) {
    int at = -1, mn = 0;
    for (auto& x : p->t) for (auto& f : MO[x.first]) if (f.second < 0 && f.first >= at) { if (f.first > at) { at = f.first; mn = f.second; } else mn = min(mn, f.second); }
    if (at < 0) return p;
    int k = -mn; if (den) den->push_back({at, k});
    // multiply by at^k
    PP r = pconst(0); map<int, shared_ptr<Poly>> grp;
    for (auto& x : p->t) {
      int e = 0; MV m; for (auto& f : MO[x.first]) if (f.first == at) e = f.second; else m.push_back(f);
      auto& g = grp[e + k]; if (!g) g = make_shared<Poly>(); g->t[mono(m)] += x.second; }
    for (auto& g : grp) {
      if (g.first == 0) r = padd(r, g.second, 1);
      else if (AT[at].k == A_DEN) r = padd(r, pmul(g.second, ppow(AT[at].p, g.first)), 1);
      else r = padd(r, pmul(g.second, patom(at, 1) ? ppow(patom(at), g.first) : PP()), 1); }
    p = r; }
  throw TooBig(); }

static PP pinv(PP p);
static PP matomInv(int at, int e) {  // atom^-e, e>0
  Atom a = AT[at];
  if (a.k == A_SQRT) { PP r = ppow(pinv(a.p), (e + 1) / 2); if (e & 1) r = pmul(r, patom(at)); return r; }
  return patom(at, -e); }
static PP pinv(PP p) {
  if (iszero(p)) throw TooBig();
  if (p->t.size() == 1) {
    mpq_class c = 1 / p->t.begin()->second; PP r = pconst(c); MV m = MO[p->t.begin()->first];
    for (auto& f : m) { if (f.second > 0) r = pmul(r, matomInv(f.first, f.second)); else r = pmul(r, AT[f.first].k == A_DEN ? ppow(AT[f.first].p, -f.second) : ppow(patom(f.first), -f.second)); }
    return r; }
  vector<pair<int,int>> den; PP q = pclear(p, &den);
  // common monomial content
  MV g; bool first = true;
  for (auto& x : q->t) { if (first) { g = MO[x.first]; first = false; } else { MV h; for (auto& f : g) for (auto& z : MO[x.first]) if (z.first == f.first) h.push_back({f.first, min(f.second, z.second)}); g = h; } if (g.empty()) break; }
  PP r = pconst(1);
  if (!g.empty()) {
    auto qq = make_shared<Poly>();
    for (auto& x : q->t) { MV m; for (auto& f : MO[x.first]) { int e = f.second; for (auto& z : g) if (z.first == f.first) e -= z.second; if (e) m.push_back({f.first, e}); } qq->t[mono(m)] += x.second; }
    q = qq; for (auto& z : g) r = pmul(r, matomInv(z.first, z.second)); }
  int lmi = leadMono(q); mpq_class lc = q->t.at(lmi); q = pscale(q, 1 / lc); r = pscale(r, 1 / lc);
  if (q->t.size() == 1) r = pmul(r, pinv(q));
  else { Atom a; a.k = A_DEN; a.p = q; a.lm = MO[lmi]; auto rs = make_shared<Poly>(*q); rs->t.erase(lmi); a.rest = rs; int id = newAtom("D" + pkey(q), a); r = pmul(r, patom(id, -1)); }
  for (auto& d : den) r = pmul(r, AT[d.first].k == A_DEN ? ppow(AT[d.first].p, d.second) : ppow(patom(d.first), d.second));
  return r; }

static bool sqRat(const mpq_class& c, mpq_class& r) {
  if (c <= 0) return false;
  if (!mpz_perfect_square_p(c.get_num_mpz_t()) || !mpz_perfect_square_p(c.get_den_mpz_t())) return false;
  mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); r = mpq_class(n, d); r.canonicalize(); return true; }
static double atomLo(int a); static double atomHi(int a);
static PP psqrt(PP p, u32 node) {
  mpq_class c;
  if (isconst(p, &c)) { mpq_class r; if (c == 0) return p; if (sqRat(c, r)) return pconst(r); }
  PP out = pconst(1);
  if (!iszero(p)) {
    // pull out a squared monomial content of positive atoms
    MV g; bool first = true;
    for (auto& x : p->t) { MV m = MO[x.first]; if (first) { g = m; first = false; } else { MV h; for (auto& f : g) for (auto& z : m) if (z.first == f.first && (z.second > 0) == (f.second > 0)) h.push_back({f.first, f.second > 0 ? min(f.second, z.second) : max(f.second, z.second)}); g = h; } if (g.empty()) break; }
    MV take; for (auto& z : g) { int e = (z.second / 2) * 2; if (e && AT[z.first].k == A_SYM && atomLo(z.first) >= 0) take.push_back({z.first, e}); }
    if (!take.empty()) {
      auto qq = make_shared<Poly>();
      for (auto& x : p->t) { MV m; for (auto& f : MO[x.first]) { int e = f.second; for (auto& z : take) if (z.first == f.first) e -= z.second; if (e) m.push_back({f.first, e}); } qq->t[mono(m)] += x.second; }
      p = qq; for (auto& z : take) out = pmul(out, z.second > 0 ? ppow(patom(z.first), z.second / 2) : patom(z.first, z.second / 2)); }
    mpq_class lc = p->t.rbegin()->second, r; mpq_class al = abs(lc);
    if (al != 1 && sqRat(al, r)) { p = pscale(p, 1 / al); out = pscale(out, r); }
    if (isconst(p, &c)) { mpq_class r2; if (sqRat(c, r2)) return pscale(out, r2); }
    // perfect square of a single monomial?
    if (p->t.size() == 1 && p->t.begin()->second == 1) { bool ok = true; MV h; for (auto& f : MO[p->t.begin()->first]) { if (f.second % 2 || atomLo(f.first) < 0) ok = false; h.push_back({f.first, f.second / 2}); } if (ok) { auto q = make_shared<Poly>(); q->t[mono(h)] = 1; return pmul(out, q); } }
  }
  Atom a; a.k = A_SQRT; a.p = p; a.node = node; { double w = 0; for (auto& x : p->t) w = max(w, mweight(MO[x.first])); a.wt = max(0.5, w / 2); } int id = newAtom("S" + pkey(p), a);
  return pmul(out, patom(id)); }

static unordered_map<u32, PP> NP_;
static PP np(u32 id);
static PP pinv(PP p);
static PP defp(PP p) {
  if (p->t.size() <= DEFT) return p;
  mpq_class lc = p->t.rbegin()->second; PP q = pscale(p, 1 / lc);
  Atom a; a.k = A_DEF; a.p = q; int id = newAtom("F" + pkey(q), a);
  return pscale(patom(id), lc); }
static PP opaque(u32 id) { Atom a; a.k = A_OPQ; a.node = id; return patom(newAtom("O" + to_string(id), a)); }
static PP fnatom(int fid, PP x, PP y, u32 node) {
  int sg = 1;
  if (fid == 2 || fid == 3 || fid == 4 || fid == 7 || fid == 8 || fid == 9 || fid == 10 || fid == 5) {
    if (!iszero(x) && x->t.rbegin()->second < 0) { x = pscale(x, -1); if (fid != 3 && fid != 9) sg = -1; } }
  if ((fid == 2 || fid == 3) && x->t.size() == 1 && x->t.begin()->second == 1) {
    const MV& m = MO[x->t.begin()->first];
    if (m.size() == 1 && m[0].second == 1 && AT[m[0].first].k == A_FN) {
      Atom in = AT[m[0].first];
      auto one = [&](PP p) { return psqrt(padd(pconst(1), pmul(p, p), -1), node); };
      PP r;
      if (in.fid == 41) r = pmul(fid == 2 ? in.p : in.q, pinv(psqrt(padd(pmul(in.p, in.p), pmul(in.q, in.q), 1), node)));
      if (in.fid == 6) r = fid == 3 ? in.p : one(in.p);
      if (in.fid == 5) r = fid == 2 ? in.p : one(in.p);
      if (in.fid == 7) { PP h = pinv(psqrt(padd(pconst(1), pmul(in.p, in.p), 1), node)); r = fid == 2 ? pmul(in.p, h) : h; }
      if (r) return pscale(r, sg); } }
  string key = "f" + to_string(fid) + "(" + pkey(x) + "," + (y ? pkey(y) : "") + ")";
  Atom a; a.k = A_FN; a.fid = fid; a.p = x; a.q = y; a.node = node; a.idx = -1;
  if (fid == 3) { // make sure the matching sine exists first
    PP s = fnatom(2, x, nullptr, node); a.idx = MO[s->t.begin()->first][0].first; }
  if (fid == 4) return pmul(pscale(fnatom(2, x, nullptr, node), sg), pinv(fnatom(3, x, nullptr, node)));
  int id = newAtom(key, a);
  return pscale(patom(id), sg); }
static PP np0(u32 id) {
  const Node n = N[id];
  switch (n.op) {
  case K_CONST: return pconst(Q(n.d));
  case K_SYM: { Atom a; a.k = A_SYM; a.idx = n.a; return patom(newAtom("Y" + to_string(n.a), a)); }
  case K_ADD: return padd(np(n.a), np(n.b), 1);
  case K_SUB: return padd(np(n.a), np(n.b), -1);
  case K_MUL: { PP a = np(n.a), b = np(n.b); if (a->t.size() > 1 && b->t.size() > 1) { a = defp(a); b = defp(b); } return pmul(a, b); }
  case K_DIV: { PP b = np(n.b); mpq_class c; if (isconst(b, &c)) { if (c == 0) return opaque(id); return pscale(np(n.a), 1 / c); } return pmul(np(n.a), pinv(defp(b))); }
  case K_NEG: return pscale(np(n.a), -1);
  case K_CAST: return np(n.a);
  }
  if (n.op >= K_FN) {
    int fid = n.op - K_FN;
    if (fid == 1) return psqrt(defp(np(n.a)), id);
    return fnatom(fid, defp(np(n.a)), n.b ? np(n.b) : nullptr, id); }
  return opaque(id); }
static PP np(u32 id) {
  auto it = NP_.find(id); if (it != NP_.end()) return it->second;
  // iterative descent to avoid deep recursion
  vector<u32> st{id};
  while (!st.empty()) {
    u32 x = st.back(); if (NP_.count(x)) { st.pop_back(); continue; }
    const Node& n = N[x]; bool rdy = true;
    if (n.op != K_CONST && n.op != K_SYM && n.w == 0) for (u32 ch : {n.a, n.b, n.c}) if (ch && !NP_.count(ch)) { st.push_back(ch); rdy = false; }
    if (!rdy) continue;
    PP r; try { r = np0(x); } catch (TooBig&) { r = opaque(x); }
    if (WORK > WORKMAX) WORK = WORKMAX - 100000;  // keep going cheaply
    NP_[x] = r; st.pop_back(); }
  return NP_[id]; }

// ---------------------------------------------------------------- intervals
struct Iv { double lo, hi; };
static Iv ivmul(Iv a, Iv b) { double x[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}; for (double& v : x) if (v != v) v = 0; Iv r{x[0], x[0]}; for (double v : x) { r.lo = min(r.lo, v); r.hi = max(r.hi, v); } return r; }
static map<string, Iv> KNOWN;  // canonical poly (no constant, lead coeff 1) -> bounds from path constraints
static Iv atomIv(int a);
static Iv ipow(Iv b, int e) {
  if (e < 0) { Iv p = ipow(b, -e); if (p.lo <= 0 && p.hi >= 0) { if (p.lo == 0 && p.hi > 0) return {1 / p.hi, INFINITY}; return {-INFINITY, INFINITY}; } return {1 / p.hi, 1 / p.lo}; }
  Iv r{1, 1}; if (e % 2 == 0) { double l = (b.lo <= 0 && b.hi >= 0) ? 0 : min(fabs(b.lo), fabs(b.hi)), h = max(fabs(b.lo), fabs(b.hi)); return {pow(l, e), pow(h, e)}; }
  (void)r; return {pow(b.lo, e), pow(b.hi, e)}; }
static Iv monoIv(int m) { Iv r{1, 1}; for (auto& f : MO[m]) r = ivmul(r, ipow(atomIv(f.first), f.second)); return r; }
static string canonKey(const PP& p, mpq_class& c0, mpq_class& lc) {
  int m0 = mono({}); auto q = make_shared<Poly>(*p); c0 = 0; auto it = q->t.find(m0); if (it != q->t.end()) { c0 = it->second; q->t.erase(it); }
  if (q->t.empty()) { lc = 0; return ""; }
  lc = q->t.rbegin()->second; return pkey(pscale(q, 1 / lc)); }
static Iv polyIv(const PP& p) {
  Iv r{0, 0};
  for (auto& x : p->t) { Iv m = monoIv(x.first); double c = x.second.get_d(); Iv t = ivmul(m, {c, c}); r.lo += t.lo; r.hi += t.hi; }
  if (!KNOWN.empty()) { mpq_class c0, lc; string k = canonKey(p, c0, lc); if (k.size()) { auto it = KNOWN.find(k); if (it != KNOWN.end()) { double l = lc.get_d(), c = c0.get_d(); double a = it->second.lo * l + c, b = it->second.hi * l + c; if (a > b) swap(a, b); if (a == a) r.lo = max(r.lo, a); if (b == b) r.hi = min(r.hi, b); } } }
  return r; }
static Iv atomIv(int i) {
  if (AT[i].haveb) return {AT[i].lo, AT[i].hi};
  Iv r{-INFINITY, INFINITY}; Atom a = AT[i];
  switch (a.k) {
  case A_SYM: r = {SY[a.idx].lo, SY[a.idx].hi}; break;
  case A_SQRT: { Iv p = polyIv(a.p); r = {sqrt(max(0.0, p.lo)), p.hi > 0 ? sqrt(p.hi) : 0.0}; break; }
  case A_DEN: case A_DEF: r = polyIv(a.p); break;
  case A_FN: {
    Iv p = a.fid < 40 ? polyIv(a.p) : Iv{-INFINITY, INFINITY};
    switch (a.fid) { case 2: case 3: r = {-1, 1}; break; case 5: r = {-1.5707964, 1.5707964}; break; case 6: r = {0, 3.1415927}; break; case 7: r = {atan(p.lo), atan(p.hi)}; break;
      case 10: r = {tanh(p.lo), tanh(p.hi)}; break; case 11: r = {exp(p.lo), exp(p.hi)}; break; case 8: r = {sinh(p.lo), sinh(p.hi)}; break;
      case 9: { double m = (p.lo <= 0 && p.hi >= 0) ? 1 : min(cosh(p.lo), cosh(p.hi)); r = {m, max(cosh(p.lo), cosh(p.hi))}; break; }
      case 41: r = {-3.1415927, 3.1415927}; break; }
    break; }
  default: break; }
  if (a.k != A_SYM) { // bounds for the atom itself from path constraints
    mpq_class c0, lc; string k = canonKey(patom(i), c0, lc); auto it = KNOWN.find(k); if (it != KNOWN.end()) { r.lo = max(r.lo, it->second.lo); r.hi = min(r.hi, it->second.hi); } 
    double s = 1e-9 * max(fabs(r.lo), fabs(r.hi)); if (std::isfinite(s)) { if (r.lo > 0) r.lo -= min(s, 1e-9 * r.lo); else r.lo -= s; r.hi += s; } }
  AT[i].lo = r.lo; AT[i].hi = r.hi; AT[i].haveb = true; return r; }
static double atomLo(int a) { return atomIv(a).lo; }
static double atomHi(int a) { return atomIv(a).hi; }

// ---------------------------------------------------------------- SMT output
static string rat(const mpq_class& q) {
  string n = q.get_num().get_str(), d = q.get_den().get_str(); bool ng = n[0] == '-'; if (ng) n = n.substr(1);
  string s = d == "1" ? n + ".0" : "(/ " + n + ".0 " + d + ".0)"; return ng ? "(- " + s + ")" : s; }
static string ratd(double d) { return rat(Q(d)); }
struct Smt {
  ostringstream decl, body; set<int> atoms; set<int> monos; bool lin; size_t size = 0;
  Smt(bool l) : lin(l) {}
  string aname(int a) { return "a" + to_string(a); }
  void needAtom(int a) {
    if (!atoms.insert(a).second) return;
    Atom t = AT[a]; decl << "(declare-const " << aname(a) << " Real)\n";
    Iv v = atomIv(a);
    if (std::isfinite(v.lo)) body << "(assert (>= " << aname(a) << " " << ratd(v.lo) << "))\n";
    if (std::isfinite(v.hi)) body << "(assert (<= " << aname(a) << " " << ratd(v.hi) << "))\n";
    if (t.k == A_SQRT && t.p->t.size() <= 400) { string p = poly(t.p); body << "(assert (= (* " << aname(a) << " " << aname(a) << ") " << p << "))\n"; body << "(assert (>= " << aname(a) << " 0.0))\n"; }
    if ((t.k == A_DEF || t.k == A_DEN) && t.p->t.size() <= 400) { string p = poly(t.p); body << "(assert (= " << aname(a) << " " << p << "))\n"; if (t.k == A_DEN) body << "(assert (not (= " << aname(a) << " 0.0)))\n"; }
    if (t.k == A_FN && t.fid == 3) { needAtom(t.idx); body << "(assert (= (+ (* " << aname(a) << " " << aname(a) << ") (* " << aname(t.idx) << " " << aname(t.idx) << ")) 1.0))\n"; }
  }
  string mterm(int m) {
    if (MO[m].empty()) return "1.0";
    if (lin) {
      if (monos.insert(m).second) { Iv v = monoIv(m); decl << "(declare-const m" << m << " Real)\n"; if (std::isfinite(v.lo)) body << "(assert (>= m" << m << " " << ratd(v.lo) << "))\n"; if (std::isfinite(v.hi)) body << "(assert (<= m" << m << " " << ratd(v.hi) << "))\n"; }
      return "m" + to_string(m); }
    string num, den; int nn = 0, nd = 0;
    for (auto& f : MO[m]) { needAtom(f.first); for (int k = 0; k < abs(f.second); k++) { if (f.second > 0) { num += " " + aname(f.first); nn++; } else { den += " " + aname(f.first); nd++; } } }
    string a = nn == 0 ? "1.0" : nn == 1 ? num.substr(1) : "(*" + num + ")";
    if (!nd) return a;
    string b = nd == 1 ? den.substr(1) : "(*" + den + ")";
    return "(/ " + a + " " + b + ")"; }
  string poly(const PP& p) {
    if (iszero(p)) return "0.0";
    string s = p->t.size() > 1 ? "(+" : "";
    for (auto& x : p->t) { string t = mterm(x.first); string u = x.second == 1 ? t : t == "1.0" ? rat(x.second) : "(* " + rat(x.second) + " " + t + ")"; if (p->t.size() > 1) s += " " + u; else return u; }
    size += s.size(); return s + ")"; }
};
static string conSmt(Smt& S, const Con& c, bool negate) {
  PP d = padd(np(c.b), np(c.a), -1);  // b - a
  string p;
  if (c.kind == C_FLOOR) { PP x = np(c.a); string t = S.poly(x); string s = "(and (>= " + t + " " + ratd(c.k) + ") (< " + t + " " + ratd(c.k + 1) + "))"; return negate ? "(not " + s + ")" : s; }
  p = S.poly(d); string s;
  if (c.kind == C_LT) s = "(> " + p + " 0.0)"; else if (c.kind == C_LE) s = "(>= " + p + " 0.0)"; else if (c.kind == C_EQ) s = "(= " + p + " 0.0)"; else s = "(not (= " + p + " 0.0))";
  return negate ? "(not " + s + ")" : s; }

// integers: bit-vectors
static string bvname(u32 id) { return "i" + to_string(id); }
static void bvdecl(u32 id, set<u32>& done, ostream& os) {
  vector<u32> st{id};
  while (!st.empty()) {
    u32 x = st.back(); if (done.count(x)) { st.pop_back(); continue; }
    const Node& n = N[x]; bool rdy = true;
    if (n.op >= K_IBIN && n.op < K_ICAST) { for (u32 ch : {n.a, n.b}) if (!done.count(ch)) { st.push_back(ch); rdy = false; } }
    else if (n.op >= K_ICAST && n.op < K_FN) { if (!done.count(n.a)) { st.push_back(n.a); rdy = false; } }
    if (!rdy) continue;
    st.pop_back(); done.insert(x);
    auto bvc = [&](i64 v, int w) { u64 u = w >= 64 ? (u64)v : ((u64)v & (((u64)1 << w) - 1)); return "(_ bv" + to_string(u) + " " + to_string(w) + ")"; };
    if (n.op == K_ISYM) { os << "(declare-const " << bvname(x) << " (_ BitVec 32))\n(assert (bvsge " << bvname(x) << " " << bvc((i64)SY[n.a].lo, 32) << "))\n(assert (bvsle " << bvname(x) << " " << bvc((i64)SY[n.a].hi, 32) << "))\n"; continue; }
    string e;
    if (n.op == K_ICONST) e = bvc(n.i, n.w);
    else if (n.op >= K_IBIN && n.op < K_ICAST) {
      static const map<int, string> M = {{13, "bvadd"}, {15, "bvsub"}, {17, "bvmul"}, {19, "bvudiv"}, {20, "bvsdiv"}, {22, "bvurem"}, {23, "bvsrem"}, {25, "bvshl"}, {26, "bvlshr"}, {27, "bvashr"}, {28, "bvand"}, {29, "bvor"}, {30, "bvxor"}};
      auto it = M.find(n.op - K_IBIN); if (it != M.end()) e = "(" + it->second + " " + bvname(n.a) + " " + bvname(n.b) + ")"; }
    else if (n.op >= K_ICAST && n.op < K_FN) {
      int oc = n.op - K_ICAST, w1 = n.b, w2 = n.w;
      if (oc == 38) e = "((_ extract " + to_string(w2 - 1) + " 0) " + bvname(n.a) + ")";
      else if (oc == 39) e = "((_ zero_extend " + to_string(w2 - w1) + ") " + bvname(n.a) + ")";
      else if (oc == 40) e = "((_ sign_extend " + to_string(w2 - w1) + ") " + bvname(n.a) + ")"; }
    if (e.empty()) os << "(declare-const " << bvname(x) << " (_ BitVec " << n.w << "))\n";
    else os << "(define-fun " << bvname(x) << " () (_ BitVec " << n.w << ") " << e << ")\n"; } }
static string icon(const Con& c, bool negate) {
  static const map<int, string> M = {{34, "bvugt"}, {35, "bvuge"}, {36, "bvult"}, {37, "bvule"}, {38, "bvsgt"}, {39, "bvsge"}, {40, "bvslt"}, {41, "bvsle"}};
  string s; if (c.pred == 32 || c.pred == 33) { s = "(= " + bvname(c.a) + " " + bvname(c.b) + ")"; if (c.pred == 33) s = "(not " + s + ")"; } else s = "(" + M.at(c.pred) + " " + bvname(c.a) + " " + bvname(c.b) + ")";
  bool t = c.taken; if (negate) t = !t; return t ? s : "(not " + s + ")"; }

// ---------------------------------------------------------------- sampling
static const int KB = 32;
struct Eval {
  vector<u32> order; vector<int> slot; vector<double> v; vector<i64> iv; vector<int> islot;
  void init() { slot.assign(N.size(), -1); for (u32 i = 1; i < N.size(); i++) if (N[i].op >= 0) { slot[i] = order.size(); order.push_back(i); } v.resize(order.size() * KB); iv.resize(order.size() * KB); }
  static i64 sx(int w, i64 x) { if (w >= 64) return x; int s = 64 - w; return (i64)((u64)x << s) >> s; }
  static u64 zx(int w, i64 x) { return w >= 64 ? (u64)x : ((u64)x & (((u64)1 << w) - 1)); }
  void run(const vector<vector<double>>& pts) {
    for (size_t q = 0; q < order.size(); q++) {
      const Node& n = N[order[q]]; double* r = &v[q * KB];
      if (n.w) { i64* ir = &iv[q * KB];
        if (n.op == K_ICONST) for (int k = 0; k < KB; k++) ir[k] = n.i;
        else if (n.op == K_ISYM) for (int k = 0; k < KB; k++) ir[k] = (i64)pts[k][n.a];
        else if (n.op < K_ICAST) { i64 *a = &iv[(size_t)slot[n.a] * KB], *b = &iv[(size_t)slot[n.b] * KB]; int oc = n.op - K_IBIN;
          for (int k = 0; k < KB; k++) { i64 x = a[k], y = b[k], z = 0; u64 ux = zx(n.w, x), uy = zx(n.w, y);
            switch (oc) { case 13: z = (i64)((u64)x + (u64)y); break; case 15: z = (i64)((u64)x - (u64)y); break; case 17: z = (i64)((u64)x * (u64)y); break; case 19: z = uy ? ux / uy : 0; break; case 20: z = y && !(y == -1) ? x / y : -x; break; case 22: z = uy ? ux % uy : 0; break; case 23: z = y && y != -1 ? x % y : 0; break; case 25: z = uy < 64 ? (i64)((u64)x << uy) : 0; break; case 26: z = uy < 64 ? (i64)(ux >> uy) : 0; break; case 27: z = uy < 64 ? x >> uy : (x < 0 ? -1 : 0); break; case 28: z = x & y; break; case 29: z = x | y; break; case 30: z = x ^ y; break; }
            ir[k] = sx(n.w, z); } }
        else { i64* a = &iv[(size_t)slot[n.a] * KB]; int oc = n.op - K_ICAST, w1 = n.b; for (int k = 0; k < KB; k++) ir[k] = oc == 39 ? (i64)zx(w1, a[k]) : sx(n.w, a[k]); }
        continue; }
      double *a = n.a && n.op != K_SYM ? &v[(size_t)slot[n.a] * KB] : nullptr, *b = n.b ? &v[(size_t)slot[n.b] * KB] : nullptr;
      switch (n.op) {
      case K_CONST: for (int k = 0; k < KB; k++) r[k] = n.d; break;
      case K_SYM: for (int k = 0; k < KB; k++) r[k] = pts[k][n.a]; break;
      case K_ADD: for (int k = 0; k < KB; k++) r[k] = a[k] + b[k]; break;
      case K_SUB: for (int k = 0; k < KB; k++) r[k] = a[k] - b[k]; break;
      case K_MUL: for (int k = 0; k < KB; k++) r[k] = a[k] * b[k]; break;
      case K_DIV: for (int k = 0; k < KB; k++) r[k] = a[k] / b[k]; break;
      case K_NEG: for (int k = 0; k < KB; k++) r[k] = -a[k]; break;
      case K_CAST: for (int k = 0; k < KB; k++) r[k] = a[k]; break;
      default: { int f = n.op - K_FN;
        for (int k = 0; k < KB; k++) { double x = a ? a[k] : 0, y = b ? b[k] : 0, z = NAN;
          switch (f) { case 1: z = sqrt(x); break; case 2: z = sin(x); break; case 3: z = cos(x); break; case 4: z = tan(x); break; case 5: z = asin(x); break; case 6: z = acos(x); break; case 7: z = atan(x); break; case 8: z = sinh(x); break; case 9: z = cosh(x); break; case 10: z = tanh(x); break; case 11: z = exp(x); break; case 12: z = log(x); break; case 13: z = log10(x); break; case 20: z = asinh(x); break; case 21: z = acosh(x); break; case 22: z = atanh(x); break; case 23: z = log2(x); break; case 24: z = exp2(x); break; case 25: z = log1p(x); break; case 26: z = expm1(x); break; case 27: z = cbrt(x); break; case 40: z = pow(x, y); break; case 41: z = atan2(x, y); break; }
          r[k] = z; } } } } }
  bool holds(const Con& c, int k) {
    if (c.kind >= C_ICMP) { i64 a = iv[(size_t)slot[c.a] * KB + k], b = iv[(size_t)slot[c.b] * KB + k]; u64 ua = zx(c.w, a), ub = zx(c.w, b); bool r = false;
      switch (c.pred) { case 32: r = a == b; break; case 33: r = a != b; break; case 34: r = ua > ub; break; case 35: r = ua >= ub; break; case 36: r = ua < ub; break; case 37: r = ua <= ub; break; case 38: r = a > b; break; case 39: r = a >= b; break; case 40: r = a < b; break; case 41: r = a <= b; break; }
      return r == (bool)c.taken; }
    double a = v[(size_t)slot[c.a] * KB + k];
    if (c.kind == C_FLOOR) return a >= c.k && a < c.k + 1;
    double b = v[(size_t)slot[c.b] * KB + k];
    switch (c.kind) { case C_LT: return a < b; case C_LE: return a <= b; case C_EQ: return a == b; default: return a != b; } }
  double val(u32 id, int k) { return v[(size_t)slot[id] * KB + k]; }
};

static string esc(const string& s) { string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static string dstr(double d) { char b[64]; if (d != d) return "\"nan\""; if (std::isinf(d)) return d > 0 ? "\"inf\"" : "\"-inf\""; snprintf(b, 64, "%.17g", d); return b; }

int main(int argc, char** argv) {
  // vpnorm dump outdir samples seed [start]
  if (argc < 5) return 2;
  readDump(argv[1]); string od = argv[2]; int samples = atoi(argv[3]); unsigned seed = atoi(argv[4]);
  size_t start = argc > 5 ? atoi(argv[5]) : 0; bool wantSmt = argc > 6 ? atoi(argv[6]) : 1;
  // structural hashes
  vector<u64> nh(N.size(), 0);
  auto mix = [](u64 h, u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xBF58476D1CE4E5B9ull; return h ^ (h >> 29); };
  for (u32 i = 1; i < N.size(); i++) if (N[i].op >= 0) { const Node& n = N[i]; u64 h = mix(n.op, n.w); if (n.op == K_CONST) { u64 b; memcpy(&b, &n.d, 8); h = mix(h, b); } else if (n.op == K_ICONST) h = mix(h, n.i); else if (n.op == K_SYM || n.op == K_ISYM) h = mix(h, hash<string>()(SY[n.a].name)); else { h = mix(h, nh[n.a]); if (n.op >= K_ICAST && n.op < K_FN) h = mix(h, n.b); else { if (n.b) h = mix(h, nh[n.b]); if (n.c) h = mix(h, nh[n.c]); } } nh[i] = h; }
  for (auto& c : CS) { u64 kb; memcpy(&kb, &c.k, 8); c.h = mix(mix(mix(mix(c.kind, c.pred * 2 + c.taken), nh[c.a]), c.b ? nh[c.b] : 0), kb); }

  // sampling
  vector<map<double, vector<double>>> flip(CS.size()); vector<double> chkpt; vector<pair<double,double>> chkval; vector<vector<vector<double>>> bad(OB.size()); vector<double> badval(OB.size(), 0); long onpath = 0, tried = 0;
  if (samples > 0 && !SY.empty()) {
    vector<double> witv; for (auto& y : SY) witv.push_back(y.wit);
    Eval E; E.init(); mt19937_64 rng(seed); uniform_real_distribution<double> U(0, 1);
    // interesting constants: thresholds symbols are compared with
    vector<vector<double>> thr(SY.size());
    for (auto& c : CS) if (c.kind < C_FLOOR) { auto chk = [&](u32 x, u32 y) { if (N[x].op == K_SYM && N[y].op == K_CONST) thr[N[x].a].push_back(N[y].d); }; chk(c.a, c.b); chk(c.b, c.a); }
    auto uni = [&](const Sym& s) { if (s.isint) { double r = U(rng); if (r < 0.2) return s.lo; if (r < 0.4) return s.hi; if (r < 0.6) { double m = min(s.hi, max(s.lo, floor(U(rng) * 8) - 2)); return m; } return floor(s.lo + U(rng) * (s.hi - s.lo + 1)); } double x = s.lo + U(rng) * (s.hi - s.lo); return x; };
    auto clampS = [&](const Sym& s, double x) { if (s.isint) x = floor(x + 0.5); return min(s.hi, max(s.lo, x)); };
    double nodes = E.order.size(); int maxb = max(4.0, min(samples / (double)KB, 3e8 / (nodes * KB + 1)));
    for (int bt = 0; bt < maxb; bt++) {
      vector<vector<double>> pts(KB, vector<double>(SY.size()));
      for (int k = 0; k < KB; k++) { auto& p = pts[k]; for (size_t j = 0; j < SY.size(); j++) p[j] = SY[j].wit;
        int mode = (bt * KB + k) % 6;
        if (mode == 0) for (size_t j = 0; j < SY.size(); j++) p[j] = uni(SY[j]);
        else if (mode == 1 || mode == 2) { int m = 1 + rng() % 3; for (int q = 0; q < m; q++) { size_t j = rng() % SY.size(); p[j] = uni(SY[j]); } }
        else if (mode == 3) { double sc = pow(10, -4 * U(rng)); for (size_t j = 0; j < SY.size(); j++) p[j] = clampS(SY[j], p[j] + sc * (U(rng) - 0.5) * (SY[j].hi - SY[j].lo)); }
        else if (mode == 4) { int m = 1 + rng() % 3; for (int q = 0; q < m; q++) { size_t j = rng() % SY.size(); double r = U(rng); if (r < 0.25) p[j] = SY[j].lo; else if (r < 0.5) p[j] = SY[j].hi; else if (r < 0.6 && SY[j].lo <= 0 && SY[j].hi >= 0) p[j] = 0; else if (!thr[j].empty()) { double t = thr[j][rng() % thr[j].size()]; double w = (SY[j].hi - SY[j].lo); p[j] = clampS(SY[j], t + (r < 0.75 ? 0 : (U(rng) - 0.5) * 1e-3 * w)); } else p[j] = uni(SY[j]); } }
        else { double r = U(rng); for (size_t j = 0; j < SY.size(); j++) if (U(rng) < r) p[j] = uni(SY[j]); } }
      E.run(pts);
      for (int k = 0; k < KB; k++) { tried++; size_t i = 0; for (; i < CS.size(); i++) if (!E.holds(CS[i], k)) break;
        if (i < CS.size()) { if (i >= start && !CS[i].assume) { double key = CS[i].kind == C_FLOOR ? floor(E.val(CS[i].a, k)) : CS[i].kind == C_CONC ? (double)E.iv[(size_t)E.slot[CS[i].a] * KB + k] : 0; if (key == key && flip[i].size() < 64) flip[i].emplace(key, pts[k]); } }
        else { onpath++; if (chkpt.empty() && pts[k] != witv && (bt * KB + k) % 6 != 4) { bool fin = true; chkval.clear(); for (auto& o : OB) { chkval.push_back({E.val(o.a, k), E.val(o.b, k)}); if (!std::isfinite(chkval.back().first)) fin = false; } if (fin) chkpt = pts[k]; else chkval.clear(); } for (size_t o = 0; o < OB.size(); o++) { if (OB[o].kind == 3) continue; double d = E.val(OB[o].a, k) - E.val(OB[o].b, k); double vv = OB[o].kind == 1 ? fabs(d) : d; if (!(vv <= OB[o].tol * 1.01)) { if (bad[o].size() < 3) bad[o].push_back(pts[k]); } } } } } }

  // normal forms of obligations at increasing abstraction levels
  struct OR_ { string st; size_t terms = 0; string smt; int level = -1; PP d; };
  vector<OR_> R(OB.size());
  Smt L(true); vector<string> ldis; int nident = 0;
  const size_t lv[3] = {1000000000, 60, 6};
  auto loadKnown = [&]() {
    KNOWN.clear();
    for (auto& c : CS) if (c.kind == C_LT || c.kind == C_LE) { try { PP d = padd(np(c.b), np(c.a), -1); if (d->t.size() > 200) continue; mpq_class c0, lc; string k = canonKey(d, c0, lc); if (k.empty()) continue; double b = mpq_class(-c0 / lc).get_d(); Iv& v = KNOWN.emplace(k, Iv{-INFINITY, INFINITY}).first->second; if (lc > 0) v.lo = max(v.lo, b); else v.hi = min(v.hi, b); } catch (TooBig&) {} }
    for (auto& a : AT) a.haveb = false; };
  for (int l = 0; l < 3; l++) {
    bool todo = false; for (size_t o = 0; o < OB.size(); o++) if (R[o].st.empty() && OB[o].kind != 3) todo = true;
    if (l && !todo) break;
    DEFT = lv[l]; NP_.clear(); WORK = 0; TLIM = cpunow() + 6;
    try { loadKnown(); } catch (TooBig&) {}
    const double lend = cpunow() + (l == 0 ? 25 : 12); 
    for (size_t o = 0; o < OB.size(); o++) {
      if (!R[o].st.empty()) continue;
      if (OB[o].kind == 3) { R[o].st = OB[o].va == 1 ? "path-true" : "path-false"; continue; }
      if (OB[o].a == OB[o].b) { R[o].st = "ident"; nident++; R[o].level = l; continue; }
      TLIM = min(lend, cpunow() + 8); WORK = 0;
      try {
        PP d = padd(np(OB[o].a), np(OB[o].b), -1); R[o].terms = d->t.size(); mpq_class c;
        if (l == 0) R[o].d = d;
        if (isconst(d, &c)) { double v = c.get_d(); if (OB[o].kind == 1) v = fabs(v); if (v <= OB[o].tol) { R[o].st = c == 0 ? "ident" : "bounded"; nident++; R[o].level = l; ldis.push_back("(> " + ratd(v) + " " + ratd(OB[o].tol) + ")"); continue; } R[o].st = "const-violated"; continue; }
        // small residual: linear relaxation over bounded monomials
        auto tryLin = [&](const PP& q, double scale) { Iv v = polyIv(q); double hi = OB[o].kind == 1 ? max(fabs(v.lo), fabs(v.hi)) : v.hi; if (hi <= OB[o].tol * scale) { string t = L.poly(q); string tl = ratd(OB[o].tol * scale);
          { mpq_class c0, lc; string k = canonKey(q, c0, lc); auto it = k.empty() ? KNOWN.end() : KNOWN.find(k); if (it != KNOWN.end()) { // bounds from the path condition
              auto as = [&](double b, const char* op) { if (std::isfinite(b)) L.body << "(assert (" << op << " (* " << rat(mpq_class(1) / lc) << " (- " << t << " " << rat(c0) << ")) " << ratd(b) << "))\n"; };
              as(it->second.lo, ">="); as(it->second.hi, "<="); } } ldis.push_back(OB[o].kind == 1 ? "(or (> " + t + " " + tl + ") (< " + t + " (- " + tl + ")))" : "(> " + t + " " + tl + ")"); return true; } return false; };
        if (d->t.size() <= 4000 && tryLin(d, 1)) { R[o].st = "bounded"; R[o].level = l; continue; }
        vector<pair<int,int>> den; PP q = pclear(d, &den);
        if (iszero(q)) { R[o].st = "ident"; R[o].level = l; nident++; ldis.push_back("(not (= " + L.poly(q) + " 0.0))"); continue; }
        if (OB[o].kind == 1) { double sc = 1; for (auto& f : den) { Iv v = atomIv(f.first); double m = (v.lo > 0) ? v.lo : (v.hi < 0) ? -v.hi : 0; sc *= pow(m, f.second); } if (sc > 0 && q->t.size() <= 6000 && tryLin(q, sc)) { R[o].st = "bounded"; R[o].level = l; continue; } }
        if (l == 2 || d->t.size() < 300) R[o].d = d;
      } catch (TooBig&) { } } }
  for (auto& r : R) if (r.st.empty()) r.st = "open";
  // combined linear query
  if (wantSmt) {
    ofstream f(od + "/obl_lin.smt2"); f << L.decl.str() << L.body.str() << "(assert (or false"; for (auto& s : ldis) f << "\n " << s; f << "))\n(check-sat)\n"; }
  // open obligations: path /\ violation, full nonlinear
  DEFT = lv[0]; NP_.clear(); WORK = 0; TLIM = cpunow() + 6; try { loadKnown(); } catch (TooBig&) {}
  auto emitVals = [&](ostream& f, Smt& S, bool real) {
    f << "(check-sat)\n(get-value ("; bool any = false;
    for (size_t j = 0; j < SY.size(); j++) { if (real && !SY[j].isint) { auto it = ATI.find("Y" + to_string(j)); if (it != ATI.end() && S.atoms.count(it->second)) { f << " a" << it->second; any = true; } } }
    if (!any) f << " true"; f << "))\n"; };
  auto symmap = [&](Smt& S) { string m; for (size_t j = 0; j < SY.size(); j++) { auto it = ATI.find("Y" + to_string(j)); if (it != ATI.end() && S.atoms.count(it->second)) m += (m.empty() ? "" : ",") + string("\"a") + to_string(it->second) + "\":\"" + esc(SY[j].name) + "\""; } return "{" + m + "}"; };
  vector<string> omap(OB.size()), fmap(CS.size()); vector<int> femit(CS.size(), 0);
  size_t budget = 60 << 20; const double oend = cpunow() + 25, fend = oend + 40;
  if (wantSmt) for (size_t o = 0; o < OB.size(); o++) if (R[o].st == "open") {
    WORK = 0; TLIM = min(cpunow() + 2, oend); 
    try { PP d = padd(np(OB[o].a), np(OB[o].b), -1); if (d->t.size() > 800) continue;
      Smt S(false); string t = S.poly(d); string tl = ratd(OB[o].tol); string vio = OB[o].kind == 1 ? "(or (> " + t + " " + tl + ") (< " + t + " (- " + tl + ")))" : "(> " + t + " " + tl + ")";
      string cons; for (size_t i = 0; i < CS.size() && i < OB[o].nc + 0; i++) { if (CS[i].kind >= C_ICMP) continue; PP x = padd(np(CS[i].b ? CS[i].b : CS[i].a), np(CS[i].a), -1); if (x->t.size() > 120) continue; cons += "(assert " + conSmt(S, CS[i], false) + ")\n"; }
      ofstream f(od + "/obl_" + to_string(o) + ".smt2"); f << "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n" << S.decl.str() << S.body.str() << cons << "(assert " << vio << ")\n"; emitVals(f, S, true); omap[o] = symmap(S); R[o].smt = "obl_" + to_string(o) + ".smt2";
    } catch (TooBig&) {} }
  // flips without a sampled witness (bounds from the box only: the path is not assumed)
  KNOWN.clear(); for (auto& a : AT) a.haveb = false;
  if (wantSmt) {
    for (size_t i = start; i < CS.size(); i++) {
      bool multi = CS[i].kind == C_FLOOR || CS[i].kind == C_CONC; if (CS[i].assume || (!multi && !flip[i].empty())) continue;
      auto negI = [&](Smt& S) { string t = conSmt(S, CS[i], true); if (multi) for (auto& kv : flip[i]) { Con c = CS[i]; c.k = kv.first; t = "(and " + t + " " + conSmt(S, c, true) + ")"; } return t; };
      if (CS[i].kind >= C_ICMP) {
        ostringstream f; set<u32> done; f << "(set-option :pp.bv_literals true)\n"; for (size_t j = 0; j <= i; j++) if (CS[j].kind >= C_ICMP) { bvdecl(CS[j].a, done, f); bvdecl(CS[j].b, done, f); }
        for (size_t j = 0; j < i; j++) if (CS[j].kind >= C_ICMP) f << "(assert " << icon(CS[j], false) << ")\n"; f << "(assert " << icon(CS[i], true) << ")\n"; if (multi) for (auto& kv : flip[i]) f << "(assert (not (= " << bvname(CS[i].a) << " (_ bv" << Eval::zx(CS[i].w, (i64)kv.first) << " " << CS[i].w << "))))\n"; f << "(check-sat)\n(get-value (";
        string m; for (auto& s : SY) if (s.isint && done.count(s.id)) { f << " " << bvname(s.id); m += (m.empty() ? "" : ",") + string("\"") + bvname(s.id) + "\":\"" + esc(s.name) + "\""; } f << "))\n";
        ofstream(od + "/flip_" + to_string(i) + ".smt2") << f.str(); fmap[i] = "{" + m + "}"; femit[i] = 1; continue; }
      WORK = 0; TLIM = min(cpunow() + 3, fend);
      try {
        // tier 1: negation alone; tier 2: with the prefix
        PP x = padd(np(CS[i].b ? CS[i].b : CS[i].a), np(CS[i].a), -1); if (x->t.size() > 600) { femit[i] = 2; continue; }
        { Smt S(true); string t = negI(S); ofstream f(od + "/flip_" + to_string(i) + ".lin.smt2"); f << S.decl.str() << S.body.str() << "(assert " << t << ")\n(check-sat)\n"; }
        { Smt S(true); string t = negI(S); string cons; for (size_t j = 0; j < i; j++) { if (CS[j].kind >= C_ICMP) continue; PP y = padd(np(CS[j].b ? CS[j].b : CS[j].a), np(CS[j].a), -1); if (y->t.size() > 120) continue; cons += "(assert " + conSmt(S, CS[j], false) + ")\n"; }
          ofstream f(od + "/flip_" + to_string(i) + ".lin2.smt2"); f << S.decl.str() << S.body.str() << cons << "(assert " << t << ")\n(check-sat)\n"; }
        Smt S(false); string t = negI(S); string cons;
        for (size_t j = 0; j < i; j++) { if (CS[j].kind >= C_ICMP) continue; PP y = padd(np(CS[j].b ? CS[j].b : CS[j].a), np(CS[j].a), -1); if (y->t.size() > 120) continue; cons += "(assert " + conSmt(S, CS[j], false) + ")\n"; }
        ofstream f(od + "/flip_" + to_string(i) + ".smt2"); f << "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 18)\n" << S.decl.str() << S.body.str() << cons << "(assert " << t << ")\n"; emitVals(f, S, true); fmap[i] = symmap(S); femit[i] = 1;
        budget -= min(budget, S.size); if (!budget) break;
      } catch (TooBig&) { femit[i] = 2; } } }
  // ---- JSON
  ofstream j(od + "/norm.json"); size_t nn = 0; for (auto& n : N) if (n.op >= 0) nn++;
  j << "{\"end\":\"" << esc(endw) << "\",\"overflow\":" << (overflow_ ? "true" : "false") << ",\"nodes\":" << nn << ",\"sampled\":" << tried << ",\"onpath\":" << onpath << ",\n\"syms\":[";
  for (size_t i = 0; i < SY.size(); i++) j << (i ? "," : "") << "{\"name\":\"" << esc(SY[i].name) << "\",\"lo\":" << dstr(SY[i].lo) << ",\"hi\":" << dstr(SY[i].hi) << ",\"int\":" << SY[i].isint << ",\"wit\":" << dstr(SY[i].wit) << "}";
  auto pt = [&](const vector<double>& p) { string s = "["; for (size_t q = 0; q < p.size(); q++) s += (q ? "," : "") + dstr(p[q]); return s + "]"; };
  auto flips = [&](size_t i) { string s; for (auto& kv : flip[i]) s += (s.empty() ? "" : ",") + pt(kv.second); return s.empty() ? s : ",\"flips\":[" + s + "]"; };
  j << "],\n\"chk\":" << pt(chkpt) << ",\"chkval\":["; for (size_t o = 0; o < chkval.size(); o++) j << (o ? "," : "") << "[" << dstr(chkval[o].first) << "," << dstr(chkval[o].second) << "]";
  j << "],\n\"cons\":[";
  for (size_t i = 0; i < CS.size(); i++) j << (i ? ",\n" : "") << "{\"h\":\"" << hex << CS[i].h << dec << "\",\"kind\":" << CS[i].kind << ",\"assume\":" << CS[i].assume << ",\"site\":\"" << esc(CS[i].site) << "\",\"emit\":" << femit[i] << flips(i) << (fmap[i].empty() ? "" : ",\"map\":" + fmap[i]) << "}";
  j << "],\n\"obls\":[";
  for (size_t o = 0; o < OB.size(); o++) { j << (o ? ",\n" : "") << "{\"label\":\"" << esc(OB[o].label) << "\",\"kind\":" << OB[o].kind << ",\"va\":" << dstr(OB[o].va) << ",\"vb\":" << dstr(OB[o].vb) << ",\"tol\":" << dstr(OB[o].tol) << ",\"st\":\"" << R[o].st << "\",\"terms\":" << R[o].terms << ",\"level\":" << R[o].level << ",\"const\":" << (N[OB[o].a].op == K_CONST && N[OB[o].b].op == K_CONST ? 1 : 0) << ",\"smt\":\"" << R[o].smt << "\"" << (omap[o].empty() ? "" : ",\"map\":" + omap[o]) << ",\"bad\":["; for (size_t q = 0; q < bad[o].size(); q++) j << (q ? "," : "") << pt(bad[o][q]); j << "]}"; }
  j << "],\n\"nlin\":" << ldis.size() << ",\"notes\":["; for (size_t i = 0; i < notes.size(); i++) j << (i ? "," : "") << "\"" << esc(notes[i]) << "\"";
  j << "],\"lost\":["; for (size_t i = 0; i < lost.size(); i++) j << (i ? "," : "") << "\"" << lost[i].first << " " << esc(lost[i].second) << "\"";
  j << "],\"funs\":["; for (size_t i = 0; i < funs.size(); i++) j << (i ? "," : "") << "\"" << esc(funs[i]) << "\""; j << "]}\n";
  return 0; }
