// Shared part of the harness: random generation, exact rational models, reporting.
// Every oracle below computes with GMP rationals on its own copy of the inputs; nothing is
// read back from the library under test except the result being judged.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cfenv>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <optional>
#include <memory>
#include <algorithm>
#include <sstream>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <gmpxx.h>
#include <mpfr.h>

extern "C" {
#include "ap_global0.h"
#include "ap_global1.h"
}

typedef mpq_class Q;
typedef mpz_class Z;
using std::string;
using std::vector;
typedef vector<Q> Pt;

// ---------------------------------------------------------------- rng
struct Rng {
  uint64_t s[2];
  static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
  }
  explicit Rng(uint64_t seed) { s[0] = mix(seed); s[1] = mix(s[0] ^ 0xabcdef1234567ull); }
  uint64_t next() {
    uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  template <class T> const T& pick(const vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- reporting
struct Status { volatile long cas; char label[240]; };
struct Report {
  string prop;                 // property id given on the command line
  Status* st = nullptr;
  long cur = 0, salt = 0;
  bool verbose = false;
  long evaluations = 0, violations = 0;
  std::map<string, long> stats;
  std::unordered_set<uint64_t> hashes;
  std::map<string, int> vcount;
  vector<string> samples;
  string inputs;               // textual description of the current case's inputs
};
inline Report*& g_tls() { static thread_local Report* t = nullptr; return t; } // a thread's own report (program threads)
inline Report& R() { static Report r; Report* t = g_tls(); return t ? *t : r; }
inline void label(const string& s) {
  if (R().st) { strncpy(R().st->label, s.c_str(), sizeof(R().st->label) - 1); }
  if (R().verbose) fprintf(stderr, "## %s\n", s.c_str());
}
inline void desc(const string& s) {
  if (R().inputs.size() < 6000) { R().inputs += s; R().inputs += "; "; }
  if (R().verbose) fprintf(stderr, "   %s\n", s.c_str());
}
inline string oneline(string s) { for (char& c : s) if (c == '\n' || c == '\t') c = ' '; return s; }
inline void violation(const string& key, const string& what) {
  Report& r = R();
  if (g_tls()) { r.inputs += "!" + key + ": " + what; return; } // part of the thread's transcript
  r.violations++;
  int& n = r.vcount[key];
  if (n++ < 3 || r.verbose) {
    printf("VIOL\t%ld\t%s\t%s || inputs: %s\n", r.cur, key.c_str(), oneline(what).c_str(), oneline(r.inputs).substr(0, 3000).c_str());
    fflush(stdout);
  }
}
inline void stat(const string& k, long n = 1) { R().stats[k] += n; }
inline void judged(long n = 1) { R().evaluations += n; }
inline uint64_t hstr(const string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline void nontrivial(const string& s) {
  Report& r = R();
  if (r.hashes.insert(hstr(s)).second && r.samples.size() < 3) r.samples.push_back(oneline(s).substr(0, 400));
}
inline void require(bool ok, const string& key, const string& what) { judged(); if (!ok) violation(key, what); }

// ---------------------------------------------------------------- rationals
inline string str(const Q& q) { return q.get_str(); }
inline string str(const Pt& p) { string s = "("; for (size_t i = 0; i < p.size(); i++) { if (i) s += ","; s += str(p[i]); } return s + ")"; }
inline Q qd(double d) { Q q; mpq_set_d(q.get_mpq_t(), d); return q; }
inline Q floorq(const Q& q) { Z z; mpz_fdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return Q(z); }
inline Q ceilq(const Q& q) { Z z; mpz_cdiv_q(z.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return Q(z); }
inline Q truncq(const Q& q) { return sgn(q) >= 0 ? floorq(q) : ceilq(q); }
inline bool isint(const Q& q) { return q.get_den() == 1; }
inline Q frac(long a, long b) { Q q(a, b); q.canonicalize(); return q; }
inline Q pow2(long e) { Z z = 1; if (e >= 0) { z <<= e; return Q(z); } z <<= -e; return Q(Z(1), z); }
inline bool dbl_exact(const Q& q) { double d = mpq_get_d(q.get_mpq_t()); return std::isfinite(d) && qd(d) == q; }

// extended rational
struct X { int inf = 0; Q q; X() {} X(const Q& v) : q(v) {} X(int i, int) : inf(i) {} };
inline X pinf() { return X(1, 0); }
inline X ninf() { return X(-1, 0); }
inline int cmp(const X& a, const X& b) {
  if (a.inf != b.inf) return a.inf < b.inf ? -1 : 1;
  if (a.inf) return 0;
  return cmp(a.q, b.q) < 0 ? -1 : cmp(a.q, b.q) > 0 ? 1 : 0;
}
inline string str(const X& x) { return x.inf ? (x.inf > 0 ? "+oo" : "-oo") : str(x.q); }
struct Itv { X lo = ninf(), hi = pinf(); bool empty() const { return cmp(lo, hi) > 0 || lo.inf > 0 || hi.inf < 0; }
  bool has(const Q& q) const { return cmp(lo, X(q)) <= 0 && cmp(X(q), hi) <= 0; }
  bool top() const { return lo.inf < 0 && hi.inf > 0; } };
inline string str(const Itv& i) { return "[" + str(i.lo) + "," + str(i.hi) + "]"; }

inline X xscalar(ap_scalar_t* s) {
  switch (s->discr) {
  case AP_SCALAR_DOUBLE:
    if (std::isnan(s->val.dbl)) { violation("nan-scalar", "a NaN scalar was returned"); return pinf(); }
    if (std::isinf(s->val.dbl)) return s->val.dbl > 0 ? pinf() : ninf();
    return X(qd(s->val.dbl));
  case AP_SCALAR_MPQ: {
    if (mpz_sgn(mpq_denref(s->val.mpq)) == 0) return mpz_sgn(mpq_numref(s->val.mpq)) > 0 ? pinf() : ninf();
    return X(Q(s->val.mpq));
  }
  case AP_SCALAR_MPFR: {
    if (mpfr_nan_p(s->val.mpfr)) { violation("nan-scalar", "a NaN scalar was returned"); return pinf(); }
    if (mpfr_inf_p(s->val.mpfr)) return mpfr_sgn(s->val.mpfr) > 0 ? pinf() : ninf();
    Q q; mpfr_get_q(q.get_mpq_t(), s->val.mpfr); return X(q);
  }
  }
  violation("bad-scalar", "a scalar with an unknown type was returned");
  return pinf();
}
inline Itv xitv(ap_interval_t* i) { Itv r; r.lo = xscalar(i->inf); r.hi = xscalar(i->sup); return r; }
inline Itv xcoeff(ap_coeff_t* c) {
  if (c->discr == AP_COEFF_SCALAR) { Itv r; r.lo = r.hi = xscalar(c->val.scalar); return r; }
  return xitv(c->val.interval);
}

// ---------------------------------------------------------------- number generation
struct Prof { int ints = 60, halves = 15, thirds = 10, decimals = 8, big = 5, tiny = 2; long mag = 6; };
inline Q gnum(Rng& g, const Prof& p = Prof()) {
  int r = g.below(100);
  if ((r -= p.ints) < 0) return Q(g.range(-p.mag, p.mag));
  if ((r -= p.halves) < 0) return frac(g.range(-4 * p.mag, 4 * p.mag), 1 << g.range(1, 3));
  if ((r -= p.thirds) < 0) return frac(g.range(-3 * p.mag, 3 * p.mag), g.pick(vector<long>{3, 5, 6, 7, 10}));
  if ((r -= p.decimals) < 0) return qd((double)g.range(-1000, 1000) / 10.0);
  if ((r -= p.big) < 0) { Q v = pow2(g.pick(vector<long>{16, 24, 31, 32, 40, 53})) + Q(g.range(-2, 2)); return g.chance(50) ? v : Q(-v); }
  { Q v = pow2(-g.pick(vector<long>{10, 24, 40, 53})) * Q(g.range(1, 3)); return g.chance(50) ? v : Q(-v); }
}
inline Q gint(Rng& g, const Prof& p = Prof()) { Q q = gnum(g, p); return floorq(q); }

// ---------------------------------------------------------------- APRON object construction
enum SK { SK_ANY, SK_MPQ };
inline void set_scalar(Rng& g, ap_scalar_t* s, const X& x, SK k = SK_ANY) {
  if (x.inf) {
    if (k == SK_MPQ || g.chance(30)) ap_scalar_reinit(s, AP_SCALAR_MPQ);
    else if (g.chance(20)) ap_scalar_reinit(s, AP_SCALAR_MPFR);
    else ap_scalar_reinit(s, AP_SCALAR_DOUBLE);
    ap_scalar_set_infty(s, x.inf); return;
  }
  int c = k == SK_MPQ ? 0 : (int)g.below(10);
  if (c >= 4 && c < 8 && dbl_exact(x.q)) { ap_scalar_set_double(s, mpq_get_d(x.q.get_mpq_t())); return; }
  if (c >= 8) {
    mpfr_t m; mpfr_init2(m, 60); int t = mpfr_set_q(m, x.q.get_mpq_t(), MPFR_RNDN);
    if (t == 0 && mpfr_number_p(m)) { ap_scalar_set_mpfr(s, m); mpfr_clear(m); return; }
    mpfr_clear(m);
  }
  Q q = x.q;
  ap_scalar_set_mpq(s, q.get_mpq_t());
}
inline void set_coeff(Rng& g, ap_coeff_t* c, const Itv& v, SK k = SK_ANY) {
  if (!v.lo.inf && !v.hi.inf && v.lo.q == v.hi.q) {
    ap_scalar_t* s = ap_scalar_alloc(); set_scalar(g, s, v.lo, k); ap_coeff_set_scalar(c, s); ap_scalar_free(s); return;
  }
  ap_interval_t* i = ap_interval_alloc();
  set_scalar(g, i->inf, v.lo, k); set_scalar(g, i->sup, v.hi, k);
  ap_coeff_set_interval(c, i); ap_interval_free(i);
}
inline Itv pt_itv(const Q& q) { Itv r; r.lo = r.hi = X(q); return r; }
inline Itv mk_itv(const X& a, const X& b) { Itv r; r.lo = a; r.hi = b; return r; }
inline bool is_pt(const Itv& i) { return !i.lo.inf && !i.hi.inf && i.lo.q == i.hi.q; }

// linear expression specification
struct LE {
  vector<Itv> c; Itv k = pt_itv(0);
  explicit LE(size_t n = 0) : c(n, pt_itv(0)) {}
  bool scalar() const { for (auto& i : c) if (!is_pt(i)) return false; return is_pt(k); }
  bool quasi() const { for (auto& i : c) if (!is_pt(i)) return false; return true; }
};
inline string str(const LE& e) {
  string s; for (size_t i = 0; i < e.c.size(); i++) if (!(is_pt(e.c[i]) && sgn(e.c[i].lo.q) == 0))
      s += (is_pt(e.c[i]) ? str(e.c[i].lo.q) : str(e.c[i])) + "*x" + std::to_string(i) + " + ";
  return s + (is_pt(e.k) ? str(e.k.lo.q) : str(e.k));
}
inline X xadd_lo(const X& a, const X& b) { if (a.inf || b.inf) return ninf(); return X(a.q + b.q); }
inline X xadd_hi(const X& a, const X& b) { if (a.inf || b.inf) return pinf(); return X(a.q + b.q); }
inline Itv iadd(const Itv& a, const Itv& b) { return mk_itv(xadd_lo(a.lo, b.lo), xadd_hi(a.hi, b.hi)); }
inline Itv iscale(const Itv& a, const Q& q) {
  if (sgn(q) == 0) return pt_itv(0);
  X l = a.lo, h = a.hi; if (!l.inf) l.q *= q; if (!h.inf) h.q *= q;
  if (sgn(q) < 0) { l.inf = -l.inf; h.inf = -h.inf; std::swap(l, h); }
  return mk_itv(l, h);
}
inline Itv eval(const LE& e, const Pt& p) { Itv r = e.k; for (size_t i = 0; i < e.c.size(); i++) r = iadd(r, iscale(e.c[i], p[i])); return r; }
inline Q evalq(const LE& e, const Pt& p) { Q r = e.k.lo.q; for (size_t i = 0; i < e.c.size(); i++) r += e.c[i].lo.q * p[i]; return r; }

// build the APRON expression (dense or sparse, shuffled scalar representations)
inline ap_linexpr0_t* mk(Rng& g, const LE& e, SK k = SK_ANY) {
  size_t n = e.c.size();
  if (g.chance(50)) {
    ap_linexpr0_t* r = ap_linexpr0_alloc(AP_LINEXPR_DENSE, n);
    for (size_t i = 0; i < n; i++) set_coeff(g, &r->p.coeff[i], e.c[i], k);
    set_coeff(g, &r->cst, e.k, k);
    return r;
  }
  vector<size_t> idx;
  for (size_t i = 0; i < n; i++) if (!(is_pt(e.c[i]) && sgn(e.c[i].lo.q) == 0) || g.chance(10)) idx.push_back(i);
  if (g.chance(40)) for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[g.below(i)]);
  ap_linexpr0_t* r = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, g.chance(50) ? idx.size() : 0);
  for (size_t i : idx) {
    ap_coeff_t* c = ap_coeff_alloc(AP_COEFF_SCALAR); set_coeff(g, c, e.c[i], k);
    ap_linexpr0_set_coeff(r, i, c); ap_coeff_free(c);
  }
  set_coeff(g, &r->cst, e.k, k);
  return r;
}

// constraint specification: e OP 0
struct LC { LE e; ap_constyp_t op = AP_CONS_SUPEQ; Q mod = 0; };
inline const char* opname(ap_constyp_t t) { switch (t) { case AP_CONS_EQ: return "="; case AP_CONS_SUPEQ: return ">="; case AP_CONS_SUP: return ">"; case AP_CONS_EQMOD: return "=mod"; default: return "!="; } }
inline string str(const LC& c) { return str(c.e) + " " + opname(c.op) + (c.op == AP_CONS_EQMOD ? " " + str(c.mod) : string(" 0")); }
inline bool holds(const Q& v, ap_constyp_t op, const Q& mod) {
  switch (op) {
  case AP_CONS_EQ: return sgn(v) == 0;
  case AP_CONS_SUPEQ: return sgn(v) >= 0;
  case AP_CONS_SUP: return sgn(v) > 0;
  case AP_CONS_DISEQ: return sgn(v) != 0;
  case AP_CONS_EQMOD: if (sgn(mod) == 0) return sgn(v) == 0; return isint(v / mod);
  }
  return false;
}
// some value of the interval satisfies the constraint
inline bool may_hold(const Itv& v, ap_constyp_t op, const Q& mod) {
  if (is_pt(v)) return holds(v.lo.q, op, mod);
  switch (op) {
  case AP_CONS_EQ: return v.has(0);
  case AP_CONS_SUPEQ: return cmp(v.hi, X(Q(0))) >= 0;
  case AP_CONS_SUP: return cmp(v.hi, X(Q(0))) > 0;
  case AP_CONS_DISEQ: return true;
  case AP_CONS_EQMOD: {
    if (sgn(mod) == 0) return v.has(0);
    if (v.lo.inf || v.hi.inf) return true;
    Q m = abs(mod); return ceilq(v.lo.q / m) * m <= v.hi.q; }
  }
  return true;
}
// every value of the interval satisfies the constraint
inline bool must_hold(const Itv& v, ap_constyp_t op, const Q& mod) {
  if (is_pt(v)) return holds(v.lo.q, op, mod);
  switch (op) {
  case AP_CONS_SUPEQ: return cmp(v.lo, X(Q(0))) >= 0;
  case AP_CONS_SUP: return cmp(v.lo, X(Q(0))) > 0;
  case AP_CONS_DISEQ: return !v.has(0);
  default: return false;
  }
}
inline ap_lincons0_t mk(Rng& g, const LC& c, SK k = SK_ANY) {
  ap_scalar_t* s = nullptr;
  if (c.op == AP_CONS_EQMOD) { s = ap_scalar_alloc(); set_scalar(g, s, X(c.mod), SK_MPQ); }
  return ap_lincons0_make(c.op, mk(g, c.e, k), s);
}
inline ap_lincons0_array_t mk(Rng& g, const vector<LC>& v, SK k = SK_ANY) {
  ap_lincons0_array_t a = ap_lincons0_array_make(v.size());
  for (size_t i = 0; i < v.size(); i++) a.p[i] = mk(g, v[i], k);
  return a;
}

// read back a library expression as a specification (n dimensions); the reader walks the
// public structure, so dense/sparse handling in the library's accessors is not trusted
inline bool rd(ap_linexpr0_t* e, size_t n, LE& out) {
  out = LE(n);
  out.k = xcoeff(&e->cst);
  if (e->discr == AP_LINEXPR_DENSE) {
    if (e->size > n) { for (size_t i = n; i < e->size; i++) { Itv v = xcoeff(&e->p.coeff[i]); if (!(is_pt(v) && sgn(v.lo.q) == 0)) return false; } }
    for (size_t i = 0; i < e->size && i < n; i++) out.c[i] = xcoeff(&e->p.coeff[i]);
  } else {
    for (size_t i = 0; i < e->size; i++) {
      ap_dim_t d = e->p.linterm[i].dim; if (d == AP_DIM_MAX) continue;
      Itv v = xcoeff(&e->p.linterm[i].coeff);
      if (d >= n) { if (!(is_pt(v) && sgn(v.lo.q) == 0)) return false; continue; }
      out.c[d] = v;
    }
  }
  return true;
}
inline bool rd(ap_lincons0_t* c, size_t n, LC& out) {
  if (!rd(c->linexpr0, n, out.e)) return false;
  out.op = c->constyp; out.mod = 0;
  if (c->scalar) { X x = xscalar(c->scalar); if (x.inf) return false; out.mod = x.q; }
  return true;
}
inline string str(ap_lincons0_array_t* a, size_t n) {
  string s = "{"; for (size_t i = 0; i < a->size; i++) { LC c; if (rd(&a->p[i], n, c)) s += str(c) + ", "; else s += "?, "; } return s + "}";
}

// ---------------------------------------------------------------- tree expressions
struct TX { int kind = 0; /*0 cst 1 dim 2 node*/ Itv cst = pt_itv(0); int dim = 0;
  ap_texpr_op_t op = AP_TEXPR_ADD; ap_texpr_rtype_t ty = AP_RTYPE_REAL; ap_texpr_rdir_t dir = AP_RDIR_RND;
  std::shared_ptr<TX> a, b; };
typedef std::shared_ptr<TX> TP;
inline TP tcst(const Itv& i) { TP t(new TX); t->kind = 0; t->cst = i; return t; }
inline TP tdim(int d) { TP t(new TX); t->kind = 1; t->dim = d; return t; }
inline TP tnode(ap_texpr_op_t op, TP a, TP b, ap_texpr_rtype_t ty = AP_RTYPE_REAL, ap_texpr_rdir_t dir = AP_RDIR_RND) {
  TP t(new TX); t->kind = 2; t->op = op; t->a = a; t->b = b; t->ty = ty; t->dir = dir; return t; }
inline bool binop(ap_texpr_op_t op) { return op <= AP_TEXPR_POW; }
inline string str(const TP& t) {
  if (t->kind == 0) return is_pt(t->cst) ? str(t->cst.lo.q) : str(t->cst);
  if (t->kind == 1) return "x" + std::to_string(t->dim);
  static const char* on[] = {"+", "-", "*", "/", "%", "^", "neg", "cast", "sqrt"};
  static const char* tn[] = {"r", "i", "f", "d", "l", "q"};
  string sfx = string("_") + tn[t->ty] + "," + (t->dir == AP_RDIR_RND ? "?" : t->dir == AP_RDIR_NEAREST ? "n" : t->dir == AP_RDIR_ZERO ? "0" : t->dir == AP_RDIR_UP ? "+" : "-");
  if (binop(t->op)) return "(" + str(t->a) + " " + on[t->op] + sfx + " " + str(t->b) + ")";
  return string(on[t->op]) + sfx + "(" + str(t->a) + ")";
}
inline ap_texpr0_t* mk(Rng& g, const TP& t) {
  if (t->kind == 0) {
    ap_coeff_t* c = ap_coeff_alloc(AP_COEFF_SCALAR); set_coeff(g, c, t->cst);
    ap_texpr0_t* r = ap_texpr0_cst(c); ap_coeff_free(c); return r;
  }
  if (t->kind == 1) return ap_texpr0_dim(t->dim);
  if (binop(t->op)) return ap_texpr0_binop(t->op, mk(g, t->a), mk(g, t->b), t->ty, t->dir);
  return ap_texpr0_unop(t->op, mk(g, t->a), t->ty, t->dir);
}
inline bool rdtree(ap_texpr0_t* t, TP& out) {
  if (!t) return false;
  switch (t->discr) {
  case AP_TEXPR_CST: out = tcst(xcoeff(&t->val.cst)); return true;
  case AP_TEXPR_DIM: out = tdim(t->val.dim); return true;
  case AP_TEXPR_NODE: {
    TP a, b; if (!rdtree(t->val.node->exprA, a)) return false;
    if (binop(t->val.node->op)) { if (!rdtree(t->val.node->exprB, b)) return false; }
    else if (t->val.node->exprB) return false;
    out = tnode(t->val.node->op, a, b, t->val.node->type, t->val.node->dir); return true; }
  }
  return false;
}
// structural identity of two specs (constants compared by value)
inline bool same(const TP& a, const TP& b) {
  if (a->kind != b->kind) return false;
  if (a->kind == 0) return cmp(a->cst.lo, b->cst.lo) == 0 && cmp(a->cst.hi, b->cst.hi) == 0;
  if (a->kind == 1) return a->dim == b->dim;
  if (a->op != b->op || !same(a->a, b->a)) return false;
  if (a->op != AP_TEXPR_NEG && a->op != AP_TEXPR_MOD) { if (a->ty != b->ty) return false; if (a->ty != AP_RTYPE_REAL && a->dir != b->dir) return false; }
  return !binop(a->op) || same(a->b, b->b);
}
// rounding of an exact (or tightly enclosed irrational) value into a type; nullopt = undefined
inline std::optional<Q> round_mpfr_in(mpfr_t src_or_null, const Q* q, int prec, long emin_normal, long emax, mpfr_rnd_t rnd) {
  mpfr_exp_t oe = mpfr_get_emin(), oE = mpfr_get_emax();
  mpfr_t m; mpfr_init2(m, prec);
  // mpfr significand in [1/2,1): exponents are one larger; smallest subnormal has exponent emin_normal-prec+2
  mpfr_set_emin(emin_normal + 1 - prec + 1); mpfr_set_emax(emax + 1);
  mpfr_clear_overflow(); // an overflow (even one that a directed rounding saturates) is a run-time error, not a value
  int t = q ? mpfr_set_q(m, q->get_mpq_t(), rnd) : mpfr_set(m, src_or_null, rnd);
  t = mpfr_check_range(m, t, rnd); if (mpfr_overflow_p()) { mpfr_set_emin(oe); mpfr_set_emax(oE); mpfr_clear(m); return std::nullopt; }
  t = mpfr_subnormalize(m, t, rnd);
  std::optional<Q> r;
  if (mpfr_number_p(m)) { Q o; mpfr_get_q(o.get_mpq_t(), m); r = o; }
  mpfr_set_emin(oe); mpfr_set_emax(oE);
  mpfr_clear(m);
  return r;
}
inline std::optional<Q> round_to(Rng& g, const Q& v, ap_texpr_rtype_t ty, ap_texpr_rdir_t dir) {
  if (ty == AP_RTYPE_REAL) return v;
  if (dir == AP_RDIR_RND) dir = g.pick(vector<ap_texpr_rdir_t>{AP_RDIR_NEAREST, AP_RDIR_ZERO, AP_RDIR_UP, AP_RDIR_DOWN});
  if (ty == AP_RTYPE_INT) {
    switch (dir) {
    case AP_RDIR_UP: return ceilq(v); case AP_RDIR_DOWN: return floorq(v); case AP_RDIR_ZERO: return truncq(v);
    default: { Q f = floorq(v), d = v - f, h = frac(1, 2); if (d < h) return f; if (d > h) return Q(f + 1);
        return isint(f / 2) ? f : Q(f + 1); }
    }
  }
  mpfr_rnd_t r = dir == AP_RDIR_NEAREST ? MPFR_RNDN : dir == AP_RDIR_UP ? MPFR_RNDU : dir == AP_RDIR_DOWN ? MPFR_RNDD : MPFR_RNDZ;
  if (sgn(v) == 0) return v;
  switch (ty) {
  case AP_RTYPE_SINGLE: return round_mpfr_in(nullptr, &v, 24, -126, 127, r);
  case AP_RTYPE_DOUBLE: return round_mpfr_in(nullptr, &v, 53, -1022, 1023, r);
  case AP_RTYPE_EXTENDED: return round_mpfr_in(nullptr, &v, 64, -16382, 16383, r);
  default: return round_mpfr_in(nullptr, &v, 113, -16382, 16383, r);
  }
}
// one concrete value the expression can take at p (random resolution of non-determinism); nullopt when undefined
inline std::optional<Q> eval(Rng& g, const TP& t, const Pt& p) {
  if (t->kind == 0) {
    if (is_pt(t->cst)) return t->cst.lo.q;
    if (t->cst.lo.inf && t->cst.hi.inf) return gnum(g);
    if (t->cst.lo.inf) return Q(t->cst.hi.q - abs(gnum(g)));
    if (t->cst.hi.inf) return Q(t->cst.lo.q + abs(gnum(g)));
    if (t->cst.empty()) return std::nullopt;
    switch (g.below(3)) { case 0: return t->cst.lo.q; case 1: return t->cst.hi.q; default: return Q(t->cst.lo.q + (t->cst.hi.q - t->cst.lo.q) * frac(g.range(0, 8), 8)); }
  }
  if (t->kind == 1) return p[t->dim];
  auto A = eval(g, t->a, p); if (!A) return A;
  if (mpz_sizeinbase(A->get_num_mpz_t(), 2) > 4000 || mpz_sizeinbase(A->get_den_mpz_t(), 2) > 4000) return std::nullopt;
  std::optional<Q> B; if (binop(t->op)) { B = eval(g, t->b, p); if (!B) return B; }
  Q v;
  switch (t->op) {
  case AP_TEXPR_ADD: v = *A + *B; break;
  case AP_TEXPR_SUB: v = *A - *B; break;
  case AP_TEXPR_MUL: v = *A * *B; break;
  case AP_TEXPR_DIV: if (sgn(*B) == 0) return std::nullopt; v = *A / *B; break;
  case AP_TEXPR_MOD: // no rounding; ill-typed when the operands do not belong to the type
    if (sgn(*B) == 0) return std::nullopt;
    if (t->ty != AP_RTYPE_REAL) { auto ra = round_to(g, *A, t->ty, AP_RDIR_UP), rb = round_to(g, *B, t->ty, AP_RDIR_UP); if (!ra || !rb || *ra != *A || *rb != *B) return std::nullopt; }
    return Q(*A - *B * truncq(*A / *B));
  case AP_TEXPR_POW: {
    if (!isint(*B) || sgn(*B) < 0 || *B > 12) return std::nullopt;
    v = 1; for (long i = 0, n = B->get_num().get_si(); i < n; i++) v *= *A; break; }
  case AP_TEXPR_NEG: return Q(-*A);
  case AP_TEXPR_CAST: v = *A; break;
  case AP_TEXPR_SQRT: {
    if (sgn(*A) < 0) return std::nullopt;
    Z n, d; if (mpz_perfect_square_p(A->get_num_mpz_t()) && mpz_perfect_square_p(A->get_den_mpz_t())) {
      n = sqrt(A->get_num()); d = sqrt(A->get_den()); v = Q(n, d); v.canonicalize(); break; }
    if (t->ty == AP_RTYPE_REAL) return std::nullopt;
    // irrational: enclose tightly, then round (never a tie)
    mpfr_t m; mpfr_init2(m, 600); mpfr_set_q(m, A->get_mpq_t(), MPFR_RNDN); mpfr_sqrt(m, m, MPFR_RNDN);
    mpfr_get_q(v.get_mpq_t(), m); mpfr_clear(m); break; }
  }
  return round_to(g, v, t->ty, t->dir);
}

// ---------------------------------------------------------------- generation of expressions
inline Q gcoef(Rng& g, const Prof& p) { return g.chance(55) ? Q(g.range(-3, 3)) : gnum(g, p); }
inline LE gle(Rng& g, size_t n, const Prof& p, int dens = 50, bool itv = false) {
  LE e(n);
  for (size_t i = 0; i < n; i++) if (g.chance(dens)) {
    Q a = gcoef(g, p);
    e.c[i] = pt_itv(a);
    if (itv && g.chance(25)) { Q b = a + abs(gcoef(g, p)); e.c[i] = mk_itv(X(a), X(b)); if (g.chance(6)) e.c[i].hi = pinf(); if (g.chance(6)) e.c[i].lo = ninf(); }
  }
  Q a = gnum(g, p); e.k = pt_itv(a);
  if (itv && g.chance(40)) { e.k = mk_itv(X(a), X(a + abs(gnum(g, p)))); if (g.chance(8)) e.k.hi = pinf(); if (g.chance(8)) e.k.lo = ninf(); }
  return e;
}
// octagonal / interval shaped expression
inline LE goct(Rng& g, size_t n, const Prof& p) {
  LE e(n); if (n) { size_t i = g.below(n), j = g.below(n); e.c[i] = pt_itv(g.chance(50) ? 1 : -1); if (g.chance(70) && j != i) e.c[j] = pt_itv(g.chance(50) ? 1 : -1); }
  e.k = pt_itv(gnum(g, p)); return e;
}
struct TOpt { bool rounding = false, nonlin = true, itv = true, ints = false; int depth = 3; };
inline TP gtx(Rng& g, size_t n, const Prof& p, const TOpt& o, int depth) {
  if (depth == 0 || g.chance(15)) {
    if (n && g.chance(65)) return tdim(g.below(n));
    Q a = gnum(g, p); if (o.itv && g.chance(25)) return tcst(mk_itv(X(a), X(a + abs(gnum(g, p)))));
    return tcst(pt_itv(a));
  }
  ap_texpr_rtype_t ty = AP_RTYPE_REAL; ap_texpr_rdir_t dir = AP_RDIR_RND;
  if (o.rounding && g.chance(70)) ty = g.pick(vector<ap_texpr_rtype_t>{AP_RTYPE_INT, AP_RTYPE_SINGLE, AP_RTYPE_DOUBLE, AP_RTYPE_DOUBLE, AP_RTYPE_EXTENDED, AP_RTYPE_QUAD, AP_RTYPE_SINGLE});
  if (ty != AP_RTYPE_REAL) dir = g.pick(vector<ap_texpr_rdir_t>{AP_RDIR_NEAREST, AP_RDIR_ZERO, AP_RDIR_UP, AP_RDIR_DOWN, AP_RDIR_RND});
  int r = g.below(100);
  auto sub = [&]() { return gtx(g, n, p, o, depth - 1); };
  if (r < 28) return tnode(AP_TEXPR_ADD, sub(), sub(), ty, dir);
  if (r < 52) return tnode(AP_TEXPR_SUB, sub(), sub(), ty, dir);
  if (r < 62) return tnode(AP_TEXPR_NEG, sub(), nullptr, ty, dir);
  if (r < 70 && o.rounding) return tnode(AP_TEXPR_CAST, sub(), nullptr, ty, dir);
  if (r < 78 || !o.nonlin) { TP c = tcst(pt_itv(gcoef(g, p))); return g.chance(50) ? tnode(AP_TEXPR_MUL, c, sub(), ty, dir) : tnode(AP_TEXPR_MUL, sub(), c, ty, dir); }
  if (r < 86) return tnode(AP_TEXPR_MUL, sub(), sub(), ty, dir);
  if (r < 91) return tnode(AP_TEXPR_DIV, sub(), g.chance(60) ? tcst(pt_itv(gnum(g, p))) : sub(), ty, dir);
  if (r < 94) return tnode(AP_TEXPR_MOD, sub(), g.chance(70) ? tcst(pt_itv(Q(g.range(1, 7)))) : sub(), ty, dir);
  if (r < 97) return tnode(AP_TEXPR_POW, sub(), tcst(pt_itv(Q(g.range(0, 3)))), ty, dir);
  TP s = sub(); return tnode(AP_TEXPR_SQRT, g.chance(60) ? tnode(AP_TEXPR_MUL, s, s) : s, nullptr, ty, dir);
}
inline bool tree_linear_real(const TP& t) { // syntactically linear, REAL, scalar constants (value is a function of p)
  if (t->kind == 0) return is_pt(t->cst);
  if (t->kind == 1) return true;
  if (t->op == AP_TEXPR_NEG) return tree_linear_real(t->a);
  if (t->ty != AP_RTYPE_REAL) return false;
  switch (t->op) {
  case AP_TEXPR_CAST: return tree_linear_real(t->a);
  case AP_TEXPR_ADD: case AP_TEXPR_SUB: return tree_linear_real(t->a) && tree_linear_real(t->b);
  case AP_TEXPR_MUL: return tree_linear_real(t->a) && tree_linear_real(t->b) && (t->a->kind == 0 || t->b->kind == 0);
  case AP_TEXPR_DIV: return tree_linear_real(t->a) && t->b->kind == 0 && is_pt(t->b->cst) && sgn(t->b->cst.lo.q) != 0;
  default: return false;
  }
}

// ---------------------------------------------------------------- program entry
typedef void (*CaseFn)(Rng& g, long cas);
inline void on_alarm(int) { if (R().st) { strncpy(R().st->label + 200, "TIMEOUT", 20); } _exit(77); }
inline string& g_libdir() { static string s; return s; }
inline string& g_domfilter() { static string s; return s; }
inline std::map<string, CaseFn>& modes() { static std::map<string, CaseFn> m; return m; }
struct Mode { Mode(const char* n, CaseFn f) { modes()[n] = f; } };
inline int harness_main(int argc, char** argv) {
  string mode, statusfile; uint64_t seed = 1; long start = 0, count = 1; long limit_ms = 4000;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto val = [&]() { return string(argv[++i]); };
    if (a == "--mode") mode = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--start") start = atol(val().c_str()); else if (a == "--count") count = atol(val().c_str());
    else if (a == "--status") statusfile = val(); else if (a == "--verbose") R().verbose = true;
    else if (a == "--libs") g_libdir() = val(); else if (a == "--dom") g_domfilter() = val();
    else if (a == "--limit-ms") limit_ms = atol(val().c_str()); else if (a == "--prop") R().prop = val();
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
  }
  auto it = modes().find(mode);
  if (it == modes().end()) { fprintf(stderr, "no such mode: %s\n", mode.c_str()); return 3; }
  if (!statusfile.empty()) {
    int fd = open(statusfile.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) { fprintf(stderr, "status file\n"); return 3; }
    R().st = (Status*)mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    memset(R().st, 0, sizeof(Status));
    close(fd);
  }
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sigaction(SIGVTALRM, &sa, 0);
  for (long c = start; c < start + count; c++) {
    R().cur = c; R().salt = (long)(seed << 20); R().inputs.clear();
    if (R().st) { R().st->cas = c; memset(R().st->label, 0, sizeof R().st->label); }
    struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = limit_ms / 1000; tv.it_value.tv_usec = (limit_ms % 1000) * 1000;
    setitimer(ITIMER_VIRTUAL, &tv, 0);
    Rng g(Rng::mix(seed) ^ Rng::mix(hstr(mode) + 77) ^ Rng::mix((uint64_t)c * 2654435761ull + 12345));
    it->second(g, c);
  }
  struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_VIRTUAL, &tv, 0);
  Report& r = R();
  printf("DONE\t%ld\t%ld\t%ld\n", count, r.evaluations, r.violations);
  for (auto& kv : r.stats) printf("STAT\t%s\t%ld\n", kv.first.c_str(), kv.second);
  for (auto& s : r.samples) printf("SAMPLE\t%s\n", s.c_str());
  string hl; char b[24]; size_t n = 0;
  for (uint64_t h : r.hashes) { snprintf(b, sizeof b, "%llx ", (unsigned long long)h); hl += b; if (++n >= 60000) break; }
  printf("HASHES\t%s\n", hl.c_str());
  fflush(stdout);
  return 0;
}
