// Abstract domains under test, and the independent reference (exact rational points, PPL).
#pragma once
#include "core.h"
#include <ppl.hh>
namespace PPL = Parma_Polyhedra_Library;
typedef PPL::NNC_Polyhedron Poly;

// ---------------------------------------------------------------- PPL reference model
inline PPL::Linear_Expression ple(const LE& e, Z& den, size_t n) {
  den = 1;
  for (size_t i = 0; i < e.c.size(); i++) mpz_lcm(den.get_mpz_t(), den.get_mpz_t(), e.c[i].lo.q.get_den_mpz_t());
  mpz_lcm(den.get_mpz_t(), den.get_mpz_t(), e.k.lo.q.get_den_mpz_t());
  PPL::Linear_Expression l;
  if (n) l.set_space_dimension(n);
  for (size_t i = 0; i < e.c.size(); i++) { Q q = e.c[i].lo.q * Q(den); l += PPL::Coefficient(q.get_num()) * PPL::Variable(i); }
  Q q = e.k.lo.q * Q(den); l += PPL::Coefficient(q.get_num());
  return l;
}
inline void padd(Poly& P, const LC& c) {
  Z d; PPL::Linear_Expression l = ple(c.e, d, P.space_dimension());
  switch (c.op) {
  case AP_CONS_EQ: P.add_constraint(l == 0); break;
  case AP_CONS_SUPEQ: P.add_constraint(l >= 0); break;
  case AP_CONS_SUP: P.add_constraint(l > 0); break;
  default: break; // congruences / disequalities are not representable: relaxed
  }
}
inline Poly puniv(size_t n) { return Poly(n, PPL::UNIVERSE); }
inline Poly pempty(size_t n) { return Poly(n, PPL::EMPTY); }
// constraint array -> reference polyhedron. modded: congruences were present (the polyhedron is a relaxation)
inline bool poly_of(ap_lincons0_array_t* a, size_t n, Poly& P, bool* modded = nullptr) {
  P = puniv(n);
  if (modded) *modded = false;
  for (size_t i = 0; i < a->size; i++) {
    LC c; if (!rd(&a->p[i], n, c)) return false;
    if (!c.e.scalar()) {
      // e.g. the unsatisfiable or trivial constraint forms; otherwise unknown
      return false;
    }
    if ((c.op == AP_CONS_EQMOD && sgn(c.mod) != 0) || c.op == AP_CONS_DISEQ) { if (modded) *modded = true; }
    if (c.op == AP_CONS_EQMOD && sgn(c.mod) == 0) c.op = AP_CONS_EQ;
    padd(P, c);
  }
  return true;
}
inline string str(const Poly& P) { std::ostringstream o; using namespace PPL::IO_Operators; o << P.minimized_constraints(); return o.str(); }
// inf/sup of a scalar linear expression over a polyhedron
inline Itv prange(const Poly& P, const LE& e) {
  Itv r; if (P.is_empty()) { r.lo = pinf(); r.hi = ninf(); return r; }
  Z d; PPL::Linear_Expression l = ple(e, d, P.space_dimension());
  PPL::Coefficient n, dd; bool m;
  if (P.bounds_from_above(l) && P.maximize(l, n, dd, m)) { Q q(n, dd); q.canonicalize(); r.hi = X(Q(q / Q(d))); }
  if (P.bounds_from_below(l) && P.minimize(l, n, dd, m)) { Q q(n, dd); q.canonicalize(); r.lo = X(Q(q / Q(d))); }
  return r;
}
inline Itv pdim(const Poly& P, size_t i) { LE e(P.space_dimension()); e.c[i] = pt_itv(1); return prange(P, e); }
// some points of P: vertices, vertices+rays, convex combinations (closure points are moved inside)
inline vector<Pt> ppoints(Rng& g, const Poly& P, size_t maxn) {
  vector<Pt> out; size_t n = P.space_dimension();
  if (P.is_empty()) return out;
  vector<Pt> vs, rays; vector<bool> clos;
  for (auto& gen : P.minimized_generators()) {
    Pt p(n);
    for (size_t i = 0; i < n; i++) p[i] = Q(gen.coefficient(PPL::Variable(i)));
    if (gen.is_point() || gen.is_closure_point()) { for (auto& x : p) { x /= Q(gen.divisor()); x.canonicalize(); } vs.push_back(p); clos.push_back(gen.is_closure_point()); }
    else { rays.push_back(p); if (gen.is_line()) { for (auto& x : p) x = -x; rays.push_back(p); } }
  }
  vector<size_t> pts; for (size_t i = 0; i < vs.size(); i++) if (!clos[i]) pts.push_back(i);
  if (pts.empty()) return out;
  for (size_t k = 0; k < maxn; k++) {
    Pt p = vs[pts[g.below(pts.size())]];
    if (g.chance(50)) { // convex combination, possibly towards a closure point
      size_t j = g.below(vs.size()); Q t = clos[j] ? frac(g.range(0, 7), 8) : frac(g.range(0, 4), 4);
      for (size_t i = 0; i < n; i++) p[i] = p[i] * (1 - t) + vs[j][i] * t;
    }
    if (!rays.empty() && g.chance(50)) { const Pt& r = g.pick(rays); Q t = g.chance(30) ? Q(g.range(1, 100)) : frac(g.range(0, 6), g.range(1, 3)); for (size_t i = 0; i < n; i++) p[i] += t * r[i]; }
    out.push_back(p);
  }
  return out;
}

// ---------------------------------------------------------------- domains
struct Dom {
  string name, lib, sym; int arg;     // arg: -1 none, else bool strict; 100+: product
  bool convex;      // to_lincons describes the value exactly (convex set of the listed constraints)
  bool poly;        // can represent any (closed) polyhedron
  bool strict;      // represents strict inequalities
  bool cong;        // congruences
  bool exactnum;    // exact rational arithmetic
  bool oct, box;
  ap_manager_t* alloc() const;
};
inline vector<Dom>& doms() {
  static vector<Dom> v = {
    // name        lib        symbol                     arg  convex poly strict cong exact oct  box
    {"boxD",      "boxD",     "box_manager_alloc",        -1, true, false, false, false, false, false, true},
    {"boxMPQ",    "boxMPQ",   "box_manager_alloc",        -1, true, false, false, false, true,  false, true},
    {"boxMPFR",   "boxMPFR",  "box_manager_alloc",        -1, true, false, false, false, false, false, true},
    {"octD",      "octD",     "oct_manager_alloc",        -1, true, false, false, false, false, true,  false},
    {"octMPQ",    "octMPQ",   "oct_manager_alloc",        -1, true, false, false, false, true,  true,  false},
    {"octMPFR",   "octMPFR",  "oct_manager_alloc",        -1, true, false, false, false, false, true,  false},
    {"octRll",    "octRll",   "oct_manager_alloc",        -1, true, false, false, false, false, true,  false},
    {"octIll",    "octIll",   "oct_manager_alloc",        -1, true, false, false, false, false, true,  false},
    {"octMPZ",    "octMPZ",   "oct_manager_alloc",        -1, true, false, false, false, false, true,  false},
    {"polka",     "polkaMPQ", "pk_manager_alloc",          0, true, true,  false, false, true,  false, false},
    {"polkas",    "polkaMPQ", "pk_manager_alloc",          1, true, true,  true,  false, true,  false, false},
    {"polkaeq",   "polkaMPQ", "pkeq_manager_alloc",       -1, true, false, false, false, true,  false, false},
    {"polkaRll",  "polkaRll", "pk_manager_alloc",          0, true, true,  false, false, true,  false, false},
    {"polkasRll", "polkaRll", "pk_manager_alloc",          1, true, true,  true,  false, true,  false, false},
    {"polkaeqRll","polkaRll", "pkeq_manager_alloc",       -1, true, false, false, false, true,  false, false},
    {"ppl",       "ppl",      "ap_ppl_poly_manager_alloc", 0, true, true,  false, false, true,  false, false},
    {"ppls",      "ppl",      "ap_ppl_poly_manager_alloc", 1, true, true,  true,  false, true,  false, false},
    {"pplgrid",   "ppl",      "ap_ppl_grid_manager_alloc",-1, false,false, false, true,  true,  false, false},
    {"pkgrid",    "pkgrid",   "pk_manager_alloc",        100, false,false, false, true,  true,  false, false},
    {"pkgrids",   "pkgrid",   "pk_manager_alloc",        101, false,false, true,  true,  true,  false, false},
    {"t1pD",      "t1pD",     "t1p_manager_alloc",        -1, false,false, false, false, false, false, false},
    {"t1pMPQ",    "t1pMPQ",   "t1p_manager_alloc",        -1, false,false, false, false, false, false, false},
    {"t1pMPFR",   "t1pMPFR",  "t1p_manager_alloc",        -1, false,false, false, false, false, false, false},
    {"avoD",      "avoD",     "avo_manager_alloc",        -1, false,false, false, false, false, false, false},
    {"avoMPQ",    "avoMPQ",   "avo_manager_alloc",        -1, false,false, false, false, false, false, false},
    {"fppD",      "fppD",     "fpp_manager_alloc",        -1, false,false, false, false, false, false, false},
  };
  return v;
}
inline void* libhandle(const string& lib) {
  static std::map<string, void*> m;
  auto it = m.find(lib); if (it != m.end()) return it->second;
  string p = g_libdir() + "/dom_" + lib + ".so";
  void* h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "HARNESS-ERROR dlopen: %s\n", dlerror()); _exit(3); }
  return m[lib] = h;
}
inline void* libsym(const string& lib, const string& s) {
  void* f = dlsym(libhandle(lib), s.c_str());
  if (!f) { fprintf(stderr, "HARNESS-ERROR dlsym: %s\n", dlerror()); _exit(3); }
  return f;
}
inline ap_manager_t* Dom::alloc() const {
  void* f = libsym(lib, sym);
  if (arg < 0) return ((ap_manager_t * (*)(void)) f)();
  if (arg < 100) return ((ap_manager_t * (*)(bool)) f)(arg == 1);
  ap_manager_t* a = ((ap_manager_t * (*)(bool)) f)(arg == 101);
  ap_manager_t* b = ((ap_manager_t * (*)(void)) libsym(lib, "ap_ppl_grid_manager_alloc"))();
  for (int i = 0; i < AP_EXC_SIZE; i++) { ap_manager_set_abort_if_exception(a, (ap_exc_t)i, false); ap_manager_set_abort_if_exception(b, (ap_exc_t)i, false); }
  ap_manager_t* r = ((ap_manager_t * (*)(ap_manager_t*, ap_manager_t*)) libsym(lib, "ap_pkgrid_manager_alloc"))(a, b);
  ap_manager_free(a); ap_manager_free(b);
  return r;
}
// domains selected with --dom a,b,c (required)
inline const Dom& gdom(Rng& g, std::function<bool(const Dom&)> ok = nullptr) {
  static vector<const Dom*> sel;
  if (sel.empty()) {
    std::stringstream ss(g_domfilter()); string t;
    while (std::getline(ss, t, ',')) { bool f = false; for (auto& d : doms()) if (d.name == t) { sel.push_back(&d); f = true; } if (!f) { fprintf(stderr, "HARNESS-ERROR unknown domain %s\n", t.c_str()); _exit(3); } }
    if (sel.empty()) { fprintf(stderr, "HARNESS-ERROR no domain\n"); _exit(3); }
  }
  for (int k = 0; k < 1000; k++) { const Dom* d = g.pick(sel); if (!ok || ok(*d)) return *d; }
  fprintf(stderr, "HARNESS-ERROR no suitable domain\n"); _exit(3);
}
inline const Dom& domn(const string& s) { for (auto& d : doms()) if (d.name == s) return d; _exit(3); }

// resource limits of a manager (convex polyhedra): lifted while the oracle looks at values
inline bool& g_limits() { static bool b = false; return b; }
typedef void* (*pk_get_t)(ap_manager_t*); typedef void (*pk_setc_t)(void*, size_t);
struct Limits { size_t obj[AP_FUNID_SIZE]; size_t coeff = 0; bool on = false; };
inline std::map<ap_manager_t*, Limits>& limits() { static std::map<ap_manager_t*, Limits> m; return m; }
inline void apply_limits(ap_manager_t* m, bool on) {
  auto it = limits().find(m); if (it == limits().end()) return; Limits& l = it->second; l.on = on;
  for (int i = 1; i < AP_FUNID_SIZE; i++) m->option.funopt[i].max_object_size = on ? l.obj[i] : 0;
  if (l.coeff) { void* pk = ((pk_get_t)libsym("polkaMPQ", "pk_manager_get_internal"))(m); ((pk_setc_t)libsym("polkaMPQ", "pk_set_max_coeff_size"))(pk, on ? l.coeff : 0); }
}
struct NoLimit { ap_manager_t* m; bool was = false;
  explicit NoLimit(ap_manager_t* mm) : m(mm) { if (!g_limits()) return; auto it = limits().find(m); if (it != limits().end() && it->second.on) { was = true; apply_limits(m, false); } }
  ~NoLimit() { if (was) apply_limits(m, true); } };

struct Man { // owned manager
  const Dom* d; ap_manager_t* m;
  explicit Man(const Dom& dd) : d(&dd), m(dd.alloc()) {
    for (int i = 0; i < AP_EXC_SIZE; i++) ap_manager_set_abort_if_exception(m, (ap_exc_t)i, false);
    // options a user may set: information flags, and the algorithm of each function
    Rng g(Rng::mix((uint64_t)R().cur * 77 + 5) ^ (uint64_t)R().salt++);
    if (g.chance(40)) for (int i = 0; i < AP_FUNID_SIZE; i++) { ap_funopt_t o = ap_manager_get_funopt(m, (ap_funid_t)i); o.flag_exact_wanted = o.flag_best_wanted = true; ap_manager_set_funopt(m, (ap_funid_t)i, &o); wanted = true; }
    if (d->lib.compare(0, 6, "pkgrid") && g.chance(25)) { bool all = g.chance(50); int v = pickalgo(g);
      for (int i = 1; i < AP_FUNID_SIZE; i++) if (all || g.chance(40)) { ap_funopt_t o = ap_manager_get_funopt(m, (ap_funid_t)i); o.algorithm = all ? v : pickalgo(g); ap_manager_set_funopt(m, (ap_funid_t)i, &o); algo = true; }
      if (algo) desc(all ? "algorithm=" + std::to_string(v) : string("mixed algorithms")); }
    limit(g);
  }
  void limit(Rng& g) { if (!g_limits() || d->lib != "polkaMPQ") return; Limits l; size_t o = g.chance(70) ? g.pick(vector<size_t>{1, 4, 8, 12, 20, 40, 80}) : 0;
    for (int i = 0; i < AP_FUNID_SIZE; i++) l.obj[i] = g.chance(80) ? o : 0; if (!o || g.chance(50)) l.coeff = g.range(1, 2);
    desc("limits: object size " + std::to_string(o) + ", coefficient size " + std::to_string(l.coeff)); limits()[m] = l; apply_limits(m, true); }
  bool wanted = false, algo = false;
  int pickalgo(Rng& g) const { return d->box ? (int)g.pick(vector<long>{0, 1, 2, 3, 10, 99, 100, 100, 101, 102, 110}) : (int)g.range(-1, 1); }
  ~Man() { if (g_limits()) limits().erase(m); ap_manager_free(m); }
  Man(const Man&) = delete;
  operator ap_manager_t*() const { return m; }
};
struct A0 { // owned abstract value
  ap_manager_t* m = nullptr; ap_abstract0_t* a = nullptr;
  A0() {}
  A0(ap_manager_t* mm, ap_abstract0_t* aa) : m(mm), a(aa) {}
  A0(A0&& o) : m(o.m), a(o.a) { o.a = nullptr; }
  A0& operator=(A0&& o) { if (this != &o) { clear(); m = o.m; a = o.a; o.a = nullptr; } return *this; }
  A0(const A0&) = delete;
  void clear() { if (a) ap_abstract0_free(m, a); a = nullptr; }
  ~A0() { clear(); }
  A0 copy() const { return A0(m, ap_abstract0_copy(m, a)); }
  ap_abstract0_t* rel() { ap_abstract0_t* x = a; a = nullptr; return x; }
  operator ap_abstract0_t*() const { return a; }
};
inline size_t dimof(ap_manager_t* m, ap_abstract0_t* a) { ap_dimension_t d = ap_abstract0_dimension(m, a); return d.intdim + d.realdim; }

struct Box { vector<Itv> v; };
inline vector<Itv> get_box(ap_manager_t* m, ap_abstract0_t* a, size_t n) {
  vector<Itv> r; ap_interval_t** t = ap_abstract0_to_box(m, a);
  if (!t) return r; // only legal for n == 0
  for (size_t i = 0; i < n; i++) r.push_back(xitv(t[i]));
  ap_interval_array_free(t, n);
  return r;
}
inline ap_interval_t** mk_box(Rng& g, const vector<Itv>& b) {
  ap_interval_t** t = ap_interval_array_alloc(b.size());
  for (size_t i = 0; i < b.size(); i++) { set_scalar(g, t[i]->inf, b[i].lo); set_scalar(g, t[i]->sup, b[i].hi); }
  return t;
}
// concretisation as a reference polyhedron, through to_lincons_array on a private copy
inline bool gamma(ap_manager_t* m, ap_abstract0_t* a, Poly& P, bool* modded = nullptr) {
  NoLimit nl(m); A0 c(m, ap_abstract0_copy(m, a)); size_t n = dimof(m, c);
  ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, c);
  bool ok = poly_of(&l, n, P, modded);
  ap_lincons0_array_clear(&l);
  return ok;
}

// ---------------------------------------------------------------- membership oracles
// Each returns "" when p may be in gamma(a), otherwise how the library denies it.
inline string denies(Rng& g, ap_manager_t* m, ap_abstract0_t* a, const Pt& p, size_t intdim, int which, const Prof& pr) {
  size_t n = p.size(); NoLimit nl(m);
  A0 c(m, ap_abstract0_copy(m, a));
  switch (which) {
  case 0: {
    ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, c); string r;
    for (size_t i = 0; i < l.size && r.empty(); i++) {
      LC k; if (!rd(&l.p[i], n, k)) { r = "to_lincons: ill-formed constraint"; break; }
      if (!may_hold(eval(k.e, p), k.op, k.mod)) r = "to_lincons excludes it: " + str(k);
    }
    ap_lincons0_array_clear(&l);
    return r; }
  case 1: {
    vector<Itv> b = get_box(m, c, n);
    for (size_t i = 0; i < b.size(); i++) if (!b[i].has(p[i])) return "to_box excludes it: x" + std::to_string(i) + " in " + str(b[i]);
    return ""; }
  case 2: {
    if (ap_abstract0_is_bottom(m, c)) return "is_bottom";
    return ""; }
  case 3: {
    LE e = g.chance(50) ? goct(g, n, pr) : gle(g, n, pr);
    ap_linexpr0_t* x = mk(g, e); ap_interval_t* i = ap_abstract0_bound_linexpr(m, c, x); Itv v = xitv(i);
    ap_interval_free(i); ap_linexpr0_free(x);
    Q q = evalq(e, p);
    if (!v.has(q)) return "bound_linexpr excludes it: " + str(e) + " in " + str(v) + " but is " + str(q);
    return ""; }
  case 4: {
    vector<LC> cs; for (size_t i = 0; i < n; i++) { LC k; k.e = LE(n); k.e.c[i] = pt_itv(1); k.e.k = pt_itv(-p[i]); k.op = AP_CONS_EQ; cs.push_back(k); }
    ap_lincons0_array_t l = mk(g, cs); A0 r(m, ap_abstract0_meet_lincons_array(m, false, c, &l)); ap_lincons0_array_clear(&l);
    if (ap_abstract0_is_bottom(m, r)) return "meet with the point's equalities is bottom";
    return ""; }
  case 5: { // a constraint that p violates must not be reported as satisfied by all points
    LC k; k.e = g.chance(50) ? goct(g, n, pr) : gle(g, n, pr); Q q = evalq(k.e, p); k.e.k = pt_itv(k.e.k.lo.q - q); // now 0 at p
    if (g.chance(40)) { k.op = AP_CONS_SUP; } else { k.op = AP_CONS_SUPEQ; k.e.k = pt_itv(k.e.k.lo.q - frac(1, g.pick(vector<long>{1, 2, 100}))); }
    ap_lincons0_t l = mk(g, k); bool s = ap_abstract0_sat_lincons(m, c, &l); ap_lincons0_clear(&l);
    if (s) return "sat_lincons says every point satisfies " + str(k);
    return ""; }
  case 6: {
    if (!n) return "";
    size_t d = g.below(n); ap_interval_t* i = ap_abstract0_bound_dimension(m, c, d); Itv v = xitv(i); ap_interval_free(i);
    if (!v.has(p[d])) return "bound_dimension excludes it: x" + std::to_string(d) + " in " + str(v);
    return ""; }
  case 7: {
    ap_tcons0_array_t l = ap_abstract0_to_tcons_array(m, c); string r;
    for (size_t i = 0; i < l.size && r.empty(); i++) {
      TP t; if (!rdtree(l.p[i].texpr0, t)) { r = "to_tcons: ill-formed"; break; }
      Q mod = 0; if (l.p[i].scalar) mod = xscalar(l.p[i].scalar).q;
      if (tree_linear_real(t)) { auto v = eval(g, t, p); if (v && !holds(*v, l.p[i].constyp, mod)) r = "to_tcons excludes it: " + str(t) + opname(l.p[i].constyp); }
    }
    ap_tcons0_array_clear(&l);
    return r; }
  }
  return "";
}
static const int N_ORACLES = 8;
inline bool& nocheck() { static bool b = false; return b; } // set in the modes that judge something else
// judge that p is in gamma(a); several oracles chosen at random
inline bool check_in(Rng& g, const Man& m, ap_abstract0_t* a, const Pt& p, size_t intdim, const string& key, const string& ctx, const Prof& pr, int k = 3) {
  if (nocheck()) return true;
  for (int i = 0; i < k; i++) {
    int w = i == 0 ? g.below(2) : g.below(N_ORACLES);
    string r = denies(g, m, a, p, intdim, w, pr);
    judged();
    if (!r.empty()) { violation(key, ctx + ": point " + str(p) + " lost: " + r); return false; }
  }
  return true;
}

// ---------------------------------------------------------------- points and values
struct Shape { size_t I = 0, N = 0; Prof pr; };  // I integer dims, then reals; N total
inline Pt gpt(Rng& g, const Shape& s) { Pt p(s.N); for (size_t i = 0; i < s.N; i++) p[i] = i < s.I ? gint(g, s.pr) : gnum(g, s.pr); return p; }
inline vector<Pt> gpts(Rng& g, const Shape& s, int k) {
  vector<Pt> v; for (int i = 0; i < k; i++) {
    if (i && g.chance(40)) { Pt p = v[g.below(v.size())]; if (s.N) { size_t d = g.below(s.N); p[d] = d < s.I ? gint(g, s.pr) : gnum(g, s.pr); } v.push_back(p); }
    else v.push_back(gpt(g, s)); }
  return v; }
inline Prof gprof(Rng& g) {
  Prof p; int r = g.below(10);
  if (r < 5) { p.ints = 85; p.halves = 8; p.thirds = 7; p.decimals = p.big = p.tiny = 0; p.mag = g.pick(vector<long>{2, 4, 8}); }
  else if (r < 8) { }
  else { p.ints = 30; p.halves = 10; p.thirds = 15; p.decimals = 20; p.big = 15; p.tiny = 10; p.mag = 20; }
  return p; }
inline Shape gshape(Rng& g, size_t maxn = 4, bool reals = false) {
  Shape s; s.N = g.chance(4) ? 0 : g.range(1, maxn); int r = g.below(10);
  s.I = reals || r < 5 ? 0 : r < 7 ? s.N : g.below(s.N + 1); s.pr = gprof(g); return s; }

// a constraint satisfied by every point of ps (tight at one of them when possible)
inline LC gcons(Rng& g, const Shape& s, const vector<Pt>& ps, const Dom& d, bool allow_itv = true) {
  LC c; int r = g.below(10);
  c.e = d.oct ? (r < 8 ? goct(g, s.N, s.pr) : gle(g, s.N, s.pr)) : d.box ? (r < 6 ? goct(g, s.N, s.pr) : gle(g, s.N, s.pr)) : (r < 3 ? goct(g, s.N, s.pr) : gle(g, s.N, s.pr));
  if (ps.empty()) { c.op = g.pick(vector<ap_constyp_t>{AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ}); return c; }
  Q mn = evalq(c.e, ps[0]), mx = mn; bool alleq = true;
  for (auto& p : ps) { Q v = evalq(c.e, p); if (v != mn) alleq = false; if (v < mn) mn = v; if (v > mx) mx = v; }
  Q slack = g.chance(60) ? Q(0) : abs(gnum(g, s.pr));
  if (alleq && g.chance(40)) { c.op = AP_CONS_EQ; c.e.k = pt_itv(c.e.k.lo.q - mn); }
  else if (g.chance(20)) { c.op = AP_CONS_SUP; if (sgn(slack) == 0) slack = frac(1, g.range(1, 3)); c.e.k = pt_itv(c.e.k.lo.q - mn + slack); }
  else if (d.cong && g.chance(50)) {
    // congruence: all points agree modulo the gcd of differences
    Q gq = 0; for (auto& p : ps) { Q df = abs(evalq(c.e, p) - mn); if (sgn(df) == 0) continue; if (sgn(gq) == 0) gq = df; else { // rational gcd
          Z l; mpz_lcm(l.get_mpz_t(), gq.get_den_mpz_t(), df.get_den_mpz_t()); Z a = Q(gq * Q(l)).get_num(), b = Q(df * Q(l)).get_num(), r; mpz_gcd(r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t()); gq = Q(r, l); gq.canonicalize(); } }
    c.op = AP_CONS_EQMOD; c.mod = sgn(gq) ? gq : Q(g.range(1, 6)); c.e.k = pt_itv(c.e.k.lo.q - mn);
  } else { c.op = AP_CONS_SUPEQ; c.e.k = pt_itv(c.e.k.lo.q - mn + slack); }
  if (allow_itv && g.chance(8)) { // widen the constant upwards: weaker constraint
    if (c.op == AP_CONS_SUPEQ || c.op == AP_CONS_SUP) c.e.k = mk_itv(X(Q(c.e.k.lo.q - abs(gnum(g, s.pr)))), c.e.k.hi);
  }
  return c;
}
inline A0 perturb(Rng& g, const Man& m, A0 a) {
  // exercise the representation without changing the meaning
  for (int k = g.below(3); k > 0; k--) switch (g.below(7)) {
    case 0: ap_abstract0_canonicalize(m, a); break;
    case 1: ap_abstract0_minimize(m, a); break;
    case 2: ap_abstract0_is_bottom(m, a); break;
    case 3: { A0 c = a.copy(); a = std::move(c); break; }
    case 4: { ap_abstract0_is_top(m, a); break; }
    case 5: { ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, a); ap_lincons0_array_clear(&l); break; }
    case 6: { A0 c = a.copy(); ap_abstract0_is_leq(m, a, c); break; }
  }
  return a;
}
// a value whose concretisation contains every point of ps, by a random construction
inline string describe(ap_manager_t* m, ap_abstract0_t* a);
inline A0 build_(Rng& g, const Man& m, const Shape& s, const vector<Pt>& ps, int depth);
inline A0 build(Rng& g, const Man& m, const Shape& s, const vector<Pt>& ps, int depth = 2) {
  A0 a = build_(g, m, s, ps, depth);
  if (R().verbose) { fprintf(stderr, "   build(depth %d) around", depth); for (auto& p : ps) fprintf(stderr, " %s", str(p).c_str()); fprintf(stderr, " = %s\n", describe(m, a).c_str());
    Rng g2(7); for (auto& p : ps) for (int w = 0; w < 2; w++) { string r = denies(g2, m, a, p, s.I, w, s.pr); if (!r.empty()) fprintf(stderr, "   !!! %s\n", r.c_str()); } }
  return a;
}
inline A0 build_(Rng& g, const Man& m, const Shape& s, const vector<Pt>& ps, int depth) {
  const Dom& d = *m.d; size_t n = s.N; size_t rd_ = n - s.I;
  int r = g.below(depth > 0 ? 16 : 6);
  auto recons = [&](A0 a) { int k = g.range(1, 4); vector<LC> cs; for (int i = 0; i < k; i++) cs.push_back(gcons(g, s, ps, d));
      if (s.I && n > 1 && g.chance(30)) { // a thin band between an integer dimension and another one
        size_t i = g.below(s.I), j = g.below(n); if (j == i) j = (i + 1) % n; LC c; c.e = LE(n); c.e.c[i] = pt_itv(g.chance(50) ? 1 : -1); c.e.c[j] = pt_itv(g.chance(50) ? 1 : -1); c.op = AP_CONS_SUPEQ;
        Q lo = evalq(c.e, ps[0]), hi = lo; for (auto& p : ps) { Q v = evalq(c.e, p); if (v < lo) lo = v; if (v > hi) hi = v; }
        if (hi - lo < 1) { static const long w[] = {0, 0, 1, 2}; lo -= frac(w[g.below(4)], 4); hi += frac(w[g.below(4)], 4); c.e.k = pt_itv(-lo); cs.push_back(c); c.e.c[i] = pt_itv(-c.e.c[i].lo.q); c.e.c[j] = pt_itv(-c.e.c[j].lo.q); c.e.k = pt_itv(hi); cs.push_back(c); } }
      if (R().verbose) for (auto& c : cs) fprintf(stderr, "   build: cons %s\n", str(c).c_str());
      ap_lincons0_array_t l = mk(g, cs); A0 res(m, ap_abstract0_meet_lincons_array(m, true, a.rel(), &l)); ap_lincons0_array_clear(&l); return res; };
  switch (r) {
  case 0: return A0(m, ap_abstract0_top(m, s.I, rd_));
  case 1: case 2: {
    vector<Itv> b(n);
    for (size_t i = 0; i < n; i++) { Q lo = ps[0][i], hi = lo; for (auto& p : ps) { if (p[i] < lo) lo = p[i]; if (p[i] > hi) hi = p[i]; }
      b[i] = mk_itv(g.chance(15) ? ninf() : X(g.chance(60) ? lo : Q(lo - abs(gnum(g, s.pr)))), g.chance(15) ? pinf() : X(g.chance(60) ? hi : Q(hi + abs(gnum(g, s.pr))))); }
    if (R().verbose) for (auto& i : b) fprintf(stderr, "   build: bounds %s\n", str(i).c_str());
    ap_interval_t** t = mk_box(g, b); A0 a(m, ap_abstract0_of_box(m, s.I, rd_, t)); ap_interval_array_free(t, n);
    if (g.chance(50)) return perturb(g, m, recons(std::move(a)));
    return a; }
  case 3: case 4: case 5: return perturb(g, m, recons(A0(m, ap_abstract0_top(m, s.I, rd_))));
  case 6: case 7: case 8: { // join of two parts
    vector<Pt> p1, p2; for (auto& p : ps) (g.chance(50) ? p1 : p2).push_back(p); if (p1.empty()) p1.push_back(ps[0]); if (p2.empty()) p2.push_back(ps[0]);
    A0 a = build(g, m, s, p1, depth - 1), b = build(g, m, s, p2, depth - 1);
    return perturb(g, m, A0(m, ap_abstract0_join(m, true, a.rel(), b))); }
  case 9: { A0 a = build(g, m, s, ps, depth - 1), b = build(g, m, s, ps, depth - 1); return perturb(g, m, A0(m, ap_abstract0_meet(m, true, a.rel(), b))); }
  case 10: case 11: { // invertible assignment
    if (!n) return build(g, m, s, ps, depth - 1);
    size_t i = g.below(n); LE e = i < s.I ? LE(n) : gle(g, n, s.pr, 40);
    if (i < s.I) { for (size_t j = 0; j < s.I; j++) if (g.chance(40)) e.c[j] = pt_itv(Q(g.range(-2, 2))); e.k = pt_itv(Q(g.range(-4, 4))); }
    Q a = g.chance(50) || i < s.I ? Q(g.chance(70) ? 1 : -1) : Q(g.range(1, 3)); e.c[i] = pt_itv(a);
    vector<Pt> q = ps; for (auto& p : q) { Q rest = evalq(e, p) - a * p[i]; p[i] = (p[i] - rest) / a; }
    A0 v = build(g, m, s, q, depth - 1); ap_linexpr0_t* x = mk(g, e); if (R().verbose) fprintf(stderr, "   build: x%zu := %s\n", i, str(e).c_str());
    A0 r2(m, ap_abstract0_assign_linexpr(m, true, v.rel(), i, x, nullptr)); ap_linexpr0_free(x);
    return perturb(g, m, std::move(r2)); }
  case 12: { // forget
    A0 v = build(g, m, s, ps, depth - 1); if (!n) return v; ap_dim_t td[1] = {(ap_dim_t)g.below(n)};
    return perturb(g, m, A0(m, ap_abstract0_forget_array(m, true, v.rel(), td, 1, false))); }
  case 13: { // widening
    vector<Pt> p1(ps.begin(), ps.begin() + (ps.size() + 1) / 2); A0 a = build(g, m, s, p1, depth - 1), b = build(g, m, s, ps, depth - 1);
    A0 j(m, ap_abstract0_join(m, false, a, b)); return perturb(g, m, A0(m, ap_abstract0_widening(m, a, j))); }
  case 14: { // add then remove a dimension
    A0 v = build(g, m, s, ps, depth - 1); bool real = g.chance(70) || s.I == 0;
    ap_dimchange_t dc; ap_dimchange_init(&dc, real ? 0 : 1, real ? 1 : 0); dc.dim[0] = real ? s.I + g.below(n - s.I + 1) : g.below(s.I + 1);
    v = A0(m, ap_abstract0_add_dimensions(m, true, v.rel(), &dc, g.chance(50)));
    v = A0(m, ap_abstract0_remove_dimensions(m, true, v.rel(), &dc)); ap_dimchange_clear(&dc);
    return perturb(g, m, std::move(v)); }
  default: { A0 v = build(g, m, s, ps, depth - 1); return perturb(g, m, recons(std::move(v))); }
  }
}
inline string sig(const Man& m, const string& op, ap_abstract0_t* a) { return m.d->name + "/" + op; }
inline string describe(ap_manager_t* m, ap_abstract0_t* a) {
  NoLimit nl(m); A0 c(m, ap_abstract0_copy(m, a)); size_t n = dimof(m, c); ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, c); string s = str(&l, n); ap_lincons0_array_clear(&l); return s; }

// ---------------------------------------------------------------- helpers of the workloads
static bool all_real(const Shape& s) { return s.I == 0; }
static bool pt_ok(const Shape& s, const Pt& p) { for (size_t i = 0; i < s.I; i++) if (!isint(p[i])) return false; return true; }

// points of a: the ones it was built around plus, when the concretisation is known exactly, vertices etc.
static vector<Pt> witnesses(Rng& g, const Man& m, const A0& a, const Shape& s, const vector<Pt>& ps, Poly* P = nullptr, bool* haveP = nullptr) {
  vector<Pt> w = ps;
  if (haveP) *haveP = false;
  if (!m.d->convex) return w;
  Poly Q_ = puniv(s.N); bool modded = false;
  if (!gamma(m, a, Q_, &modded)) return w;
  if (modded) return w;
  if (P) *P = Q_;
  if (haveP) *haveP = true;
  for (auto& p : ppoints(g, Q_, 4)) if (pt_ok(s, p)) w.push_back(p);
  return w;
}
// image of P under the parallel assignment dims := exprs (scalar coefficients, interval constant allowed)
static Poly image(const Poly& P, const vector<size_t>& dims, const vector<LE>& es, bool keep = false) {
  size_t n = P.space_dimension(), k = dims.size();
  Poly T = P; T.add_space_dimensions_and_embed(k);
  for (size_t i = 0; i < k; i++) {
    for (int side = 0; side < 2; side++) {
      const X& b = side ? es[i].k.hi : es[i].k.lo; if (b.inf) continue;
      LE e(n + k); for (size_t j = 0; j < n; j++) e.c[j] = es[i].c[j];
      e.c[n + i] = pt_itv(-1); e.k = pt_itv(b.q);
      LC c; c.e = e; c.op = AP_CONS_SUPEQ;
      if (!side) { // y - lin - lo >= 0
        for (auto& x : c.e.c) x = pt_itv(-x.lo.q); c.e.k = pt_itv(-b.q); }
      padd(T, c);
    }
  }
  // permute: result dimension dims[i] is n+i; drop the old ones
  PPL::Variables_Set vs; for (size_t d : dims) vs.insert(PPL::Variable(d));
  struct Map { vector<size_t> m; bool has_empty_codomain() const { return m.empty(); } PPL::dimension_type max_in_codomain() const { return *std::max_element(m.begin(), m.end()); }
    bool maps(PPL::dimension_type i, PPL::dimension_type& j) const { j = m[i]; return true; } } mp;
  mp.m.resize(n + k); for (size_t i = 0; i < n + k; i++) mp.m[i] = i;
  for (size_t i = 0; i < k; i++) { mp.m[n + i] = dims[i]; mp.m[dims[i]] = n + i; }
  T.map_space_dimensions(mp);
  if (!keep) T.remove_higher_space_dimensions(n);
  return T;
}
static Poly preimage(const Poly& P, const vector<size_t>& dims, const vector<LE>& es, bool keep = false) {
  size_t n = P.space_dimension(), k = dims.size();
  // variables 0..n-1: state before; n..2n-1: state after
  Poly T = P; T.add_space_dimensions_and_embed(n);
  struct Map { size_t n; bool has_empty_codomain() const { return n == 0; } PPL::dimension_type max_in_codomain() const { return 2 * n - 1; }
    bool maps(PPL::dimension_type i, PPL::dimension_type& j) const { j = i < n ? i + n : i - n; return true; } } mp{n};
  if (n) T.map_space_dimensions(mp);
  for (size_t i = 0; i < n; i++) {
    int at = -1; for (size_t j = 0; j < k; j++) if (dims[j] == i) at = j;
    if (at < 0) { LC c; c.e = LE(2 * n); c.e.c[i] = pt_itv(1); c.e.c[n + i] = pt_itv(-1); c.op = AP_CONS_EQ; padd(T, c); continue; }
    for (int side = 0; side < 2; side++) {
      const X& b = side ? es[at].k.hi : es[at].k.lo; if (b.inf) continue;
      LC c; c.e = LE(2 * n); for (size_t j = 0; j < n; j++) c.e.c[j] = es[at].c[j];
      c.e.c[n + i] = pt_itv(-1); c.e.k = pt_itv(b.q); c.op = AP_CONS_SUPEQ;
      if (!side) { for (auto& x : c.e.c) x = pt_itv(-x.lo.q); c.e.k = pt_itv(-b.q); }
      padd(T, c);
    }
  }
  if (!keep) T.remove_higher_space_dimensions(n);
  return T;
}
static Poly closure(const Poly& P) { Poly c = P; if (!c.is_empty()) c.topological_closure_assign(); return c; } // PPL forgets that a non-minimized polyhedron is empty

static vector<size_t> gdims(Rng& g, size_t n, size_t k) {
  vector<size_t> v; for (size_t i = 0; i < n; i++) v.push_back(i);
  for (size_t i = 0; i < k; i++) std::swap(v[i], v[i + g.below(n - i)]);
  v.resize(k); return v; }

static string nm(const Man& m) { return m.d->name; }
static bool destr(Rng& g) { return g.chance(50); }
// apply an operation either in place or not
static bool g_flags = false, g_fe = false, g_fb = false; // flag mode: judge the exactness flags instead of soundness
static ap_abstract0_t* cap(const Man& m, ap_abstract0_t* r) { g_fe = m.m->result.flag_exact; g_fb = m.m->result.flag_best; return r; }
template <class F> static A0 app(Rng& g, const Man& m, const A0& a, bool d, F f) {
  if (d) { A0 c = a.copy(); return A0(m, cap(m, f(true, c.rel()))); }
  return A0(m, cap(m, f(false, a.a))); }
// the least element of the domain that contains a polyhedron
static Poly leastabs(const Dom& d, const Poly& P) {
  if (P.is_empty()) return pempty(P.space_dimension()); if (d.strict) return P;
  if (d.poly) return closure(P);
  size_t n = P.space_dimension();
  if (d.box) { PPL::Rational_Box b(P, PPL::ANY_COMPLEXITY); Poly c(b.constraints()); c.add_space_dimensions_and_embed(n - c.space_dimension()); c.topological_closure_assign(); return c; }
  if (d.oct) { PPL::Octagonal_Shape<mpq_class> b(P, PPL::ANY_COMPLEXITY); Poly c(b.constraints()); c.add_space_dimensions_and_embed(n - c.space_dimension()); return c; }
  Poly c(n, PPL::UNIVERSE); const PPL::Constraint_System& cs = P.minimized_constraints(); for (auto it = cs.begin(); it != cs.end(); ++it) if (it->is_equality()) c.add_constraint(*it); return c;
}
static PPL::Pointset_Powerset<Poly> powerset(const vector<Poly>& v, bool strict) {
  PPL::Pointset_Powerset<Poly> r(v[0].space_dimension(), PPL::EMPTY);
  for (Poly p : v) { r.add_disjunct(strict ? p : closure(p)); } return r; }
// judge the flags of the last operation against the exact result
static void flagcheck(const Man& m, const string& key, const A0& r, const Poly& ref, const vector<Poly>* parts = nullptr, const Poly* dest = nullptr) {
  const Dom& d = *m.d; if (!d.exactnum) return; Poly G = puniv(ref.space_dimension()); if (!gamma(m, r, G)) return;
  Poly C = d.strict ? ref : closure(ref); if (dest) C.intersection_assign(*dest);
  stat("flags:" + d.name + (g_fe ? ":exact" : g_fb ? ":best" : ":none"));
  if (g_fe) { judged(); if (parts ? !PPL::check_containment(G, powerset(*parts, d.strict)) || !C.contains(G) : G != C) violation(key + "/exact", "flagged exact, but the result {" + str(G) + "} is not {" + str(C) + "}"); }
  if (g_fb) { judged(); Poly L = leastabs(d, ref); if (dest) L.intersection_assign(*dest); if (!L.contains(G)) violation(key + "/best", "flagged best, but the result {" + str(G) + "} is larger than {" + str(L) + "}"); }
  // arithmetic is exact and every polyhedron is representable: the result on real dimensions is exact (hull for joins)
  if (d.poly && d.exactnum && d.lib.compare(0, 6, "pkgrid") && !m.algo) { judged(); if (!C.contains(G)) violation(key + "/precision", "result {" + str(G) + "} is larger than {" + str(C) + "}"); }
}


// ---- exactness with integer dimensions: every point of a result flagged exact must come from a point of the arguments
struct Part { Poly P; size_t n; vector<bool> ints; }; // over n result dimensions followed by existential ones; ints: which of those are integral
// is q the projection of a point of the part with integral values where required?  1 yes, 0 no, -1 undecided
static int mip_member(const Part& T, const Pt& q) {
  size_t D = T.P.space_dimension(), x = D - T.n, B = 200;
  // variables: the existential ones, then eps
  PPL::MIP_Problem mp(x + 1); mp.set_control_parameter(PPL::MIP_Problem::PRICING_TEXTBOOK); PPL::Variable eps(x); bool strict = false;
  for (auto& c : T.P.minimized_constraints()) {
    Q k(c.inhomogeneous_term()); for (size_t i = 0; i < T.n; i++) k += Q(c.coefficient(PPL::Variable(i))) * q[i];
    mpz_class den = k.get_den(); PPL::Linear_Expression e(PPL::Coefficient(k.get_num())); bool any = false;
    for (size_t i = 0; i < x; i++) { mpz_class v = c.coefficient(PPL::Variable(T.n + i)); if (sgn(v)) any = true; v *= den; e += PPL::Coefficient(v) * PPL::Variable(i); }
    if (!any) { int sg = sgn(k); if (c.is_equality() ? sg != 0 : c.is_strict_inequality() ? sg <= 0 : sg < 0) return 0; continue; }
    if (c.is_equality()) mp.add_constraint(e == 0); else if (c.is_strict_inequality()) { strict = true; mp.add_constraint(e - eps >= 0); } else mp.add_constraint(e >= 0); }
  mp.add_constraint(eps >= 0); mp.add_constraint(eps <= 1); mp.set_objective_function(PPL::Linear_Expression(eps)); mp.set_optimization_mode(PPL::MAXIMIZATION);
  auto feas = [&](PPL::MIP_Problem& z) { if (!z.is_satisfiable()) return false; if (!strict) return true; PPL::Coefficient n, d; z.optimal_value(n, d); return n > 0; };
  PPL::MIP_Problem lp = mp; if (!feas(lp)) return 0; bool anyint = false; PPL::Variables_Set vs;
  for (size_t i = 0; i < x; i++) if (T.ints[i]) { anyint = true; vs.insert(PPL::Variable(i)); }
  if (!anyint) return 1;
  bool inside = true; // the relaxation lies in the box to which the search is limited
  for (size_t i = 0; i < x; i++) if (T.ints[i]) {
    PPL::MIP_Problem z = lp; z.set_objective_function(PPL::Linear_Expression(PPL::Variable(i)));
    for (int up = 0; up < 2; up++) { z.set_optimization_mode(up ? PPL::MAXIMIZATION : PPL::MINIMIZATION); if (z.solve() != PPL::OPTIMIZED_MIP_PROBLEM) { inside = false; break; } PPL::Coefficient n, d; z.optimal_value(n, d); if (abs(n) > B * d) { inside = false; break; } }
    mp.add_constraint(PPL::Variable(i) <= (int)B); mp.add_constraint(PPL::Variable(i) >= -(int)B); }
  // branch and bound, with a bound on the number of nodes
  vector<PPL::MIP_Problem> todo{mp}; int nodes = 0;
  while (!todo.empty()) {
    if (++nodes > 150) return -1;
    PPL::MIP_Problem z = todo.back(); todo.pop_back(); if (!feas(z)) continue;
    PPL::Generator pt = strict ? z.optimizing_point() : z.feasible_point(); size_t br = x; Q bv;
    for (size_t i = 0; i < x && br == x; i++) if (T.ints[i]) { Q v = Q(mpz_class(pt.coefficient(PPL::Variable(i)))) / Q(mpz_class(pt.divisor())); if (!isint(v)) { br = i; bv = v; } }
    if (br == x) return 1;
    PPL::MIP_Problem z2 = z; z.add_constraint(PPL::Variable(br) <= PPL::Coefficient(floorq(bv).get_num())); z2.add_constraint(PPL::Variable(br) >= PPL::Coefficient(ceilq(bv).get_num())); todo.push_back(z); todo.push_back(z2); }
  return inside ? 0 : -1; }
// points of a polyhedron that are integral on the first I dimensions
static vector<Pt> intpoints(Rng& g, const Poly& G, size_t I, size_t maxn) {
  vector<Pt> out; size_t n = G.space_dimension();
  for (auto& p : ppoints(g, G, maxn)) {
    if (!I) { out.push_back(p); continue; }
    Poly S = G; for (size_t i = 0; i < I; i++) { Q v = g.chance(50) ? floorq(p[i]) : ceilq(p[i]); LC c; c.e = LE(n); c.e.c[i] = pt_itv(1); c.e.k = pt_itv(-v); c.op = AP_CONS_EQ; padd(S, c); }
    if (S.is_empty()) continue; auto ps = ppoints(g, S, 3); out.insert(out.end(), ps.begin(), ps.end());
    if (ps.size() > 1) { Pt m = ps[0]; Q t = frac(g.range(1, 12), 13); for (size_t i = 0; i < n; i++) m[i] = m[i] * t + ps[1][i] * (1 - t); out.push_back(m); } }
  return out; }
template <class F> static void exactpts(Rng& g, const Man& m, const string& key, const A0& r, size_t I, F member) {
  const Dom& d = *m.d; if (!d.exactnum) return; size_t n = dimof(m, r); Poly G = puniv(n); bool md = false; if (!d.convex || !gamma(m, r, G, &md) || md) return;
  stat("flags-int:" + d.name + (g_fe ? ":exact" : g_fb ? ":best" : ":none")); if (!g_fe) return;
  for (auto& p : intpoints(g, G, I, 6)) { int x = member(p); if (x < 0) { stat("flags-int:undecided"); continue; } judged(); stat("flags-int:points");
    if (!x) { violation(key + "/exact-int", "flagged exact, but the result {" + str(G) + "} has the point " + str(p) + " that no state of the arguments leads to"); return; } } }
static int member_any(const vector<Part>& ts, const Pt& q) { int r = 0; for (auto& t : ts) { int x = mip_member(t, q); if (x == 1) return 1; if (x < 0) r = -1; } return r; }

static void cover(const Man& m, const string& op, const A0& r) {
  stat("op:" + m.d->name + "/" + op); NoLimit nl(m);
  bool bot = ap_abstract0_is_bottom(m, r), top = ap_abstract0_is_top(m, r);
  stat(string("result:") + (bot ? "bottom" : top ? "top" : "proper"));
  if (!bot && !top) nontrivial(R().inputs);
}
static LE gexpr_for(Rng& g, const Shape& s, const Dom& d, size_t target, bool itv) {
  LE e = (d.oct && g.chance(60)) ? goct(g, s.N, s.pr) : gle(g, s.N, s.pr, 45, itv);
  if (itv && d.oct && g.chance(20)) { Q a = e.k.lo.q; e.k = mk_itv(X(a), X(Q(a + abs(gnum(g, s.pr))))); }
  if (target < s.I && g.chance(85)) { // integer-valued expression on the integer dimensions
    for (size_t i = 0; i < s.N; i++) if (i >= s.I) e.c[i] = pt_itv(0); else { e.c[i] = pt_itv(floorq(e.c[i].lo.inf ? Q(1) : e.c[i].lo.q)); }
    e.k = e.k.lo.inf || e.k.hi.inf ? e.k : mk_itv(X(floorq(e.k.lo.q)), X(floorq(e.k.hi.q)));
  }
  return e; }
static Q pick_in(Rng& g, const Itv& v, bool integer) {
  Q a;
  if (v.lo.inf && v.hi.inf) a = gnum(g); else if (v.lo.inf) a = v.hi.q - (g.chance(50) ? Q(0) : abs(gnum(g))); else if (v.hi.inf) a = v.lo.q + (g.chance(50) ? Q(0) : abs(gnum(g)));
  else switch (g.below(3)) { case 0: a = v.lo.q; break; case 1: a = v.hi.q; break; default: a = v.lo.q + (v.hi.q - v.lo.q) * frac(g.range(0, 8), 8); }
  if (integer && !isint(a)) { Q f = floorq(a); if (v.has(f)) return f; f = ceilq(a); if (v.has(f)) return f; }
  return a; }
