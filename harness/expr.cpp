// Scalars, intervals, coefficients; linear expressions, constraints, generators; tree expressions.
// Every object is built next to a model (exact rationals, maps from dimension to coefficient, trees)
// and every result is compared with the same operation on the model.
#include "envmodel.h"
#include "ap_global0.h"
#include "ap_global1.h"

#include "scal.h"
static bool eqx(const X& a, const X& b) { return cmp(a, b) == 0; }
static void isv(const string& key, ap_scalar_t* s, const X& v, int ty = -1) {
  judged(); X r = xscalar(s);
  if (!eqx(r, v)) violation(key, "value is " + str(r) + " instead of " + str(v));
  if (ty >= 0 && (int)s->discr != ty) violation(key + "/type", string("type is ") + tyname(s->discr) + " instead of " + tyname(ty));
}
static string ds(ap_scalar_t* s) { return string(tyname(s->discr)) + ":" + str(xscalar(s)); }
static int sg(int x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

static void m_scalar(Rng& g, long) {
  X xa = wildx(g), xb = g.chance(25) ? xa : wildx(g); if (!xa.inf && !xb.inf && g.chance(8)) xb = X(Q(xa.q + pow2(-60)));
  ap_scalar_t *a = mks(g, xa), *b = mks(g, xb); desc("a=" + ds(a) + " b=" + ds(b)); nontrivial(R().inputs);
  isv("scalar/read", a, xa); isv("scalar/read", b, xb);
  switch (g.below(5)) {
  case 0: { // assignments, possibly changing the type, with aliasing
    for (int k = g.range(1, 5); k > 0; k--) {
      int op = g.below(14);
      switch (op) {
      case 0: label("scalar/set"); { int t = b->discr; ap_scalar_set(a, b); xa = xb; isv("scalar/set", a, xa, t); if (t == AP_SCALAR_MPFR) require(mpfr_get_prec(a->val.mpfr) == mpfr_get_prec(b->val.mpfr), "scalar/set/precision", "precision not copied"); } break;
      case 1: { label("scalar/set_mpq"); Q q = wild(g); ap_scalar_set_mpq(a, q.get_mpq_t()); xa = X(q); isv("scalar/set_mpq", a, xa, AP_SCALAR_MPQ); break; }
      case 2: { label("scalar/set_int"); long i = g.chance(20) ? g.pick(vector<long>{LONG_MAX, LONG_MIN, 0, -1}) : g.range(-1000, 1000); ap_scalar_set_int(a, i); xa = X(Q(i)); isv("scalar/set_int", a, xa, AP_SCALAR_MPQ); break; }
      case 3: { label("scalar/set_frac"); long i = g.range(-1000, 1000); unsigned long j = g.chance(10) ? ULONG_MAX : g.range(1, 100); ap_scalar_set_frac(a, i, j); Z i_(i), j_(j); Q q(i_, j_); q.canonicalize(); xa = X(q); isv("scalar/set_frac", a, xa, AP_SCALAR_MPQ);
        require(a->discr != AP_SCALAR_MPQ || mpz_cmp(mpq_denref(a->val.mpq), q.get_den_mpz_t()) == 0, "scalar/set_frac/canonical", "the fraction is not in canonical form"); break; }
      case 4: { label("scalar/set_double"); double d = g.chance(15) ? (g.chance(50) ? INFINITY : -INFINITY) : mpq_get_d(wild(g).get_mpq_t()); if (!std::isinf(d) && !std::isfinite(d)) d = 0; ap_scalar_set_double(a, d); xa = std::isinf(d) ? X(d > 0 ? 1 : -1, 0) : X(qd(d)); isv("scalar/set_double", a, xa, AP_SCALAR_DOUBLE); break; }
      case 5: { label("scalar/set_mpfr"); mpfr_t m; mpfr_init2(m, g.range(2, 200)); Q q = wild(g); mpfr_set_q(m, q.get_mpq_t(), MPFR_RNDN); Q e; mpfr_get_q(e.get_mpq_t(), m); ap_scalar_set_mpfr(a, m); xa = X(e); isv("scalar/set_mpfr", a, xa, AP_SCALAR_MPFR); mpfr_clear(m); break; }
      case 6: { label("scalar/set_infty"); int s = g.range(-1, 1), t = a->discr; ap_scalar_set_infty(a, s); xa = s ? X(s, 0) : X(Q(0)); isv("scalar/set_infty", a, xa, t); break; }
      case 7: { label("scalar/reinit"); ap_scalar_discr_t t = ALLT[g.below(3)]; bool same = a->discr == t; ap_scalar_reinit(a, t); require(a->discr == t, "scalar/reinit", "type not changed"); if (!same) { ap_scalar_set_int(a, 0); xa = X(Q(0)); } else isv("scalar/reinit", a, xa); break; }
      case 8: label("scalar/swap"); ap_scalar_swap(a, b); std::swap(xa, xb); isv("scalar/swap", a, xa); isv("scalar/swap", b, xb); break;
      case 9: { label("scalar/alloc_set"); ap_scalar_t* c = ap_scalar_alloc_set(a); isv("scalar/alloc_set", c, xa, a->discr); ap_scalar_free(a); a = c; isv("scalar/alloc_set", a, xa); break; }
      case 10: { label("scalar/neg"); bool al = g.chance(40); int t = al ? a->discr : b->discr; ap_scalar_neg(a, al ? a : b); if (!al) xa = xb; xa.inf = -xa.inf; xa.q = -xa.q; isv("scalar/neg", a, xa, t); break; }
      case 11: { label("scalar/inv"); bool al = g.chance(40); X v = al ? xa : xb; ap_scalar_discr_t t = al ? a->discr : b->discr; if (!v.inf && sgn(v.q) == 0) break; ap_scalar_inv(a, al ? a : b); X r = xscalar(a); judged(); require(a->discr == t, "scalar/inv/type", "type changed");
        if (v.inf) { if (!eqx(r, X(Q(0)))) violation("scalar/inv/infinite", "1/infinity is " + str(r)); }
        else { Q e = 1 / v.q; if (t == AP_SCALAR_MPQ) { if (!eqx(r, X(e))) violation("scalar/inv", "1/" + str(v.q) + " is " + str(r)); }
          else if (t == AP_SCALAR_DOUBLE && (abs(e) > pow2(1023) || abs(e) < pow2(-1022))) stat("inv-range");
          else { int p = t == AP_SCALAR_DOUBLE ? 53 : mpfr_get_prec(a->val.mpfr); if (r.inf || abs(Q(r.q - e)) > abs(e) * pow2(1 - p)) violation("scalar/inv", "1/" + str(v.q) + " is " + str(r)); } }
        xa = r; break; }
      case 12: { label("scalar/alloc_set_typed"); Q q = wild(g); ap_scalar_free(a); int w = g.below(3);
        if (w == 0) { a = ap_scalar_alloc_set_mpq(q.get_mpq_t()); xa = X(q); isv("scalar/alloc_set_mpq", a, xa, AP_SCALAR_MPQ); }
        else if (w == 1) { double d = mpq_get_d(q.get_mpq_t()); if (!std::isfinite(d)) d = 1; a = ap_scalar_alloc_set_double(d); xa = X(qd(d)); isv("scalar/alloc_set_double", a, xa, AP_SCALAR_DOUBLE); }
        else { mpfr_t m; mpfr_init2(m, g.range(2, 200)); mpfr_set_q(m, q.get_mpq_t(), MPFR_RNDD); Q e; mpfr_get_q(e.get_mpq_t(), m); a = ap_scalar_alloc_set_mpfr(m); mpfr_clear(m); xa = X(e); isv("scalar/alloc_set_mpfr", a, xa, AP_SCALAR_MPFR); }
        break; }
      default: label("scalar/set_self"); ap_scalar_set(a, a); isv("scalar/set_self", a, xa); break;
      }
      isv("scalar/argument", b, xb);
    }
    break; }
  case 1: { // comparisons
    label("scalar/cmp"); int c = cmp(xa, xb), r = ap_scalar_cmp(a, b); require(r == c, "scalar/cmp", "compare is " + std::to_string(r) + " instead of " + std::to_string(c)); require(ap_scalar_cmp(b, a) == -c, "scalar/cmp/swapped", "compare of the exchanged arguments is " + std::to_string(ap_scalar_cmp(b, a)));
    require(ap_scalar_equal(a, b) == (c == 0), "scalar/equal", "equal should be " + std::to_string(c == 0)); require(ap_scalar_infty(a) == xa.inf, "scalar/infty", "infty is " + std::to_string(ap_scalar_infty(a)));
    int s = xa.inf ? xa.inf : sgn(xa.q); require(ap_scalar_sgn(a) == s, "scalar/sgn", "sign is " + std::to_string(ap_scalar_sgn(a)) + " instead of " + std::to_string(s));
    int i = g.chance(30) ? g.pick(vector<int>{0, INT32_MAX, INT32_MIN, 1, -1}) : (int)g.range(-8, 8); if (g.chance(40) && !xa.inf && isint(xa.q) && abs(xa.q) < pow2(31)) i = (int)xa.q.get_num().get_si();
    int ci = cmp(xa, X(Q(i))); r = ap_scalar_cmp_int(a, i); require(r == ci, "scalar/cmp_int", "compare with " + std::to_string(i) + " is " + std::to_string(r)); require(ap_scalar_equal_int(a, i) == (ci == 0), "scalar/equal_int", "equal_int with " + std::to_string(i));
    label("scalar/hash"); ap_scalar_t* a2 = mks(g, xa); long h = ap_scalar_hash(a), h2 = ap_scalar_hash(a2); require(h == h2, "scalar/hash", "equal scalars " + ds(a) + " and " + ds(a2) + " have hashes " + std::to_string(h) + " and " + std::to_string(h2)); ap_scalar_free(a2); break; }
  case 2: { // to rationals
    label("scalar/to_mpq"); Q q; mpq_t m; mpq_init(m); int r = ap_mpq_set_scalar(m, a, MPFR_RNDU); judged(); X v = mpz_sgn(mpq_denref(m)) == 0 ? X(mpz_sgn(mpq_numref(m)), 0) : X(Q(m)); if (!eqx(v, xa)) violation("scalar/to_mpq", "converted to " + str(v)); if (r) violation("scalar/to_mpq/exact", "an exact conversion returns " + std::to_string(r));
    if (!xa.inf && mpz_sgn(mpq_denref(m))) { Q c = v.q; c.canonicalize(); require(mpz_cmp(mpq_denref(m), c.get_den_mpz_t()) == 0, "scalar/to_mpq/canonical", "the rational is not in canonical form"); } mpq_clear(m); break; }
  case 3: { // to doubles
    label("scalar/to_double"); mpfr_rnd_t rn = g.pick(vector<mpfr_rnd_t>{MPFR_RNDU, MPFR_RNDD, MPFR_RNDN, MPFR_RNDZ}); double d = 42; int r = ap_double_set_scalar(&d, a, rn); judged(); string ctx = "rounding " + std::to_string(rn) + " gives " + std::to_string(d) + " returns " + std::to_string(r);
    if (std::isnan(d)) { violation("scalar/to_double/nan", ctx); break; } X v = std::isinf(d) ? X(d > 0 ? 1 : -1, 0) : X(qd(d)); int c = cmp(v, xa);
    if (sg(r) != c) violation("scalar/to_double/return", ctx + " instead of " + std::to_string(c)); if (rn == MPFR_RNDU && c < 0) violation("scalar/to_double/up", ctx); if (rn == MPFR_RNDD && c > 0) violation("scalar/to_double/down", ctx);
    if (rn == MPFR_RNDZ && !xa.inf && (v.inf || abs(v.q) > abs(xa.q))) violation("scalar/to_double/zero", ctx);
    if (c) { // no double lies strictly between the value and the result
      double n = c > 0 ? nextafter(d, -INFINITY) : nextafter(d, INFINITY); X w = std::isinf(n) ? X(n > 0 ? 1 : -1, 0) : X(qd(n)); if (c > 0 ? cmp(w, xa) >= 0 : cmp(w, xa) <= 0) violation("scalar/to_double/tight", ctx); }
    break; }
  default: { // to MPFR numbers
    label("scalar/to_mpfr"); mpfr_rnd_t rn = g.pick(vector<mpfr_rnd_t>{MPFR_RNDU, MPFR_RNDD, MPFR_RNDN, MPFR_RNDZ}); int p = g.pick(vector<int>{2, 10, 24, 53, 64, 200}); mpfr_t m, e; mpfr_init2(m, p); mpfr_init2(e, p); int r = ap_mpfr_set_scalar(m, a, rn), x = 0; judged(); if (xa.inf) mpfr_set_inf(e, xa.inf); else x = mpfr_set_q(e, xa.q.get_mpq_t(), rn);
    if (!mpfr_equal_p(m, e) || mpfr_get_prec(m) != p) violation("scalar/to_mpfr", "wrong value or precision"); if (sg(r) != sg(x)) violation("scalar/to_mpfr/return", "returns " + std::to_string(r) + " instead of " + std::to_string(x)); mpfr_clear(m); mpfr_clear(e); }
  }
  isv("scalar/arguments", a, xa); isv("scalar/arguments", b, xb); ap_scalar_free(a); ap_scalar_free(b);
}
static Mode M_scalar("scalar", m_scalar);

// ---------------------------------------------------------------- intervals and coefficients
static Itv gitv(Rng& g) {
  X a = wildx(g), b = wildx(g); if (g.chance(12)) b = a; if (g.chance(12)) a = ninf(); if (g.chance(12)) b = pinf();
  if (cmp(a, b) > 0 && !g.chance(20)) std::swap(a, b); return mk_itv(a, b);
}
static Itv gitv_small(Rng& g) { X a(Q(g.range(-2, 2))), b(Q(g.range(-2, 2))); if (g.chance(10)) a = ninf(); if (g.chance(10)) b = pinf(); if (cmp(a, b) > 0 && !g.chance(20)) std::swap(a, b); return mk_itv(a, b); }
static ap_interval_t* mki(Rng& g, const Itv& i) { ap_interval_t* r = ap_interval_alloc(); ap_scalar_free(r->inf); ap_scalar_free(r->sup); r->inf = mks(g, i.lo); r->sup = mks(g, i.hi); return r; }
static bool ibot(const Itv& i) { return cmp(i.lo, i.hi) > 0; }
static bool sub(const Itv& a, const Itv& b) { return ibot(a) || (cmp(a.lo, b.lo) >= 0 && cmp(a.hi, b.hi) <= 0); }
static bool eqi(const Itv& a, const Itv& b) { return eqx(a.lo, b.lo) && eqx(a.hi, b.hi); }
static bool eqset(const Itv& a, const Itv& b) { return sub(a, b) && sub(b, a); }
static bool okcmp(const Itv& a, const Itv& b, int r) { // the documented meaning of the result of ap_interval_cmp
  if (eqi(a, b)) return r == 0; if (eqset(a, b)) return r >= -1 && r <= 1;
  if (sub(a, b)) return r == -1; if (sub(b, a)) return r == 1; return r == (cmp(a.lo, b.lo) > 0 ? 2 : -2);
}
static Itv ineg(const Itv& i) { Itv r = mk_itv(i.hi, i.lo); r.lo.inf = -r.lo.inf; r.hi.inf = -r.hi.inf; r.lo.q = -r.lo.q; r.hi.q = -r.hi.q; return r; }
static void isi(const string& key, ap_interval_t* i, const Itv& v) { judged(); Itv r = xitv(i); if (!eqi(r, v)) violation(key, "value is " + str(r) + " instead of " + str(v)); }

struct CV { bool itv = false; Itv v = pt_itv(0); };
static string str(const CV& c) { return c.itv ? str(c.v) : str(c.v.lo); }
static CV gcv(Rng& g) { CV c; c.itv = g.chance(40); if (c.itv) c.v = g.chance(60) ? gitv(g) : gitv_small(g); else { c.v.lo = c.v.hi = g.chance(60) ? wildx(g) : X(Q(g.range(-2, 2))); } return c; }
static ap_coeff_t* mkc(Rng& g, const CV& c) { ap_coeff_t* r = ap_coeff_alloc(c.itv ? AP_COEFF_INTERVAL : AP_COEFF_SCALAR); if (c.itv) { ap_interval_free(r->val.interval); r->val.interval = mki(g, c.v); } else { ap_scalar_free(r->val.scalar); r->val.scalar = mks(g, c.v.lo); } return r; }
static void isc(const string& key, ap_coeff_t* c, const CV& v) {
  judged(); bool it = c->discr == AP_COEFF_INTERVAL; if (it != v.itv) { violation(key + "/kind", it ? "an interval instead of a scalar" : "a scalar instead of an interval"); return; } Itv r = xcoeff(c); if (!eqi(r, v.v)) violation(key, "value is " + str(r) + " instead of " + str(v)); }
static bool ceq(const CV& a, const CV& b) { return a.itv == b.itv && (a.itv ? eqset(a.v, b.v) : eqx(a.v.lo, b.v.lo)); }
static bool okccmp(const CV& a, const CV& b, int r) { if (a.itv != b.itv) return r == (a.itv ? 3 : -3); return a.itv ? okcmp(a.v, b.v, r) : r == cmp(a.v.lo, b.v.lo); }
static CV creduce(const CV& c) { CV r = c; if (c.itv && eqx(c.v.lo, c.v.hi)) r.itv = false; return r; }
static bool czero(const CV& c) { return eqx(c.v.lo, X(Q(0))) && eqx(c.v.hi, X(Q(0))); }

static void m_coeff(Rng& g, long) {
  if (g.chance(45)) { // intervals
    bool small = g.chance(50); Itv va = small ? gitv_small(g) : gitv(g), vb = g.chance(20) ? va : small ? gitv_small(g) : gitv(g); ap_interval_t *a = mki(g, va), *b = mki(g, vb); desc("a=" + str(va) + " b=" + str(vb)); nontrivial(R().inputs);
    if (g.chance(50)) {
      label("interval/tests"); require(ap_interval_is_top(a) == va.top(), "interval/is_top", ""); require(ap_interval_is_bottom(a) == ibot(va), "interval/is_bottom", ""); require(ap_interval_is_leq(a, b) == sub(va, vb), "interval/is_leq", "inclusion should be " + std::to_string(sub(va, vb)));
      int r = ap_interval_cmp(a, b); require(okcmp(va, vb, r), "interval/cmp", "compare is " + std::to_string(r)); require(ap_interval_equal(a, b) == eqset(va, vb), "interval/equal", "equal should be " + std::to_string(eqset(va, vb)));
      int i = g.range(-2, 2); require(ap_interval_equal_int(a, i) == eqi(va, pt_itv(i)), "interval/equal_int", "with " + std::to_string(i));
      label("interval/hash"); ap_interval_t* c = mki(g, ibot(va) ? mk_itv(X(Q(7)), X(Q(-5))) : va); require(ap_interval_equal(a, c), "interval/equal/rebuilt", "the same interval differs"); require(ap_interval_hash(a) == ap_interval_hash(c), "interval/hash", "equal intervals have different hashes"); ap_interval_free(c);
    } else for (int k = g.range(1, 4); k > 0; k--) switch (g.below(11)) {
      case 0: label("interval/set"); ap_interval_set(a, b); va = vb; isi("interval/set", a, va); break;
      case 1: label("interval/set_scalar"); { Itv v = gitv(g); ap_scalar_t *l = mks(g, v.lo), *h = mks(g, v.hi); ap_interval_set_scalar(a, l, h); va = v; isi("interval/set_scalar", a, va); isv("interval/set_scalar/argument", l, v.lo); ap_scalar_free(l); ap_scalar_free(h); } break;
      case 2: { label("interval/set_mpq"); Q l = wild(g), h = wild(g); ap_interval_set_mpq(a, l.get_mpq_t(), h.get_mpq_t()); va = mk_itv(X(l), X(h)); isi("interval/set_mpq", a, va); break; }
      case 3: { label("interval/set_int"); long l = g.range(-99, 99), h = g.chance(10) ? LONG_MAX : g.range(-99, 99); ap_interval_set_int(a, l, h); va = mk_itv(X(Q(l)), X(Q(h))); isi("interval/set_int", a, va); break; }
      case 4: { label("interval/set_frac"); long l = g.range(-99, 99), h = g.range(-99, 99), dl = g.range(1, 20), dh = g.range(1, 20); ap_interval_set_frac(a, l, dl, h, dh); va = mk_itv(X(frac(l, dl)), X(frac(h, dh))); isi("interval/set_frac", a, va); break; }
      case 5: { label("interval/set_double"); double l = g.chance(20) ? -INFINITY : g.range(-99, 99) / 10.0, h = g.chance(20) ? INFINITY : g.range(-99, 99) / 10.0; ap_interval_set_double(a, l, h); va = mk_itv(std::isinf(l) ? ninf() : X(qd(l)), std::isinf(h) ? pinf() : X(qd(h))); isi("interval/set_double", a, va); break; }
      case 6: { label("interval/set_mpfr"); mpfr_t l, h; mpfr_init2(l, g.range(2, 100)); mpfr_init2(h, g.range(2, 100)); Q q = wild(g), e; mpfr_set_q(l, q.get_mpq_t(), MPFR_RNDD); mpfr_set_q(h, q.get_mpq_t(), MPFR_RNDU); mpfr_get_q(e.get_mpq_t(), l); va.lo = X(e); mpfr_get_q(e.get_mpq_t(), h); va.hi = X(e); ap_interval_set_mpfr(a, l, h); isi("interval/set_mpfr", a, va); mpfr_clear(l); mpfr_clear(h); break; }
      case 7: { label("interval/set_top"); int t1 = a->inf->discr, t2 = a->sup->discr; ap_interval_set_top(a); va = mk_itv(ninf(), pinf()); isi("interval/set_top", a, va); require((int)a->inf->discr == t1 && (int)a->sup->discr == t2, "interval/set_top/type", "the type of the bounds changed"); break; }
      case 8: { label("interval/set_bottom"); int t1 = a->inf->discr, t2 = a->sup->discr; ap_interval_set_bottom(a); va = mk_itv(X(Q(1)), X(Q(-1))); isi("interval/set_bottom", a, va); require((int)a->inf->discr == t1 && (int)a->sup->discr == t2, "interval/set_bottom/type", "the type of the bounds changed"); break; }
      case 9: { label("interval/neg"); bool al = g.chance(40); ap_interval_neg(a, al ? a : b); va = ineg(al ? va : vb); isi("interval/neg", a, va); break; }
      default: { label("interval/alloc_set"); ap_interval_t* c = ap_interval_alloc_set(a); isi("interval/alloc_set", c, va); ap_interval_free(a); a = c; ap_interval_swap(a, b); std::swap(va, vb); if (g.chance(30)) { size_t n = g.range(0, 3); ap_interval_t** t = ap_interval_array_alloc(n); for (size_t i = 0; i < n; i++) isi("interval/array_alloc", t[i], pt_itv(0)); ap_interval_array_free(t, n); } } }
    isi("interval/arguments", a, va); isi("interval/arguments", b, vb); ap_interval_free(a); ap_interval_free(b); return;
  }
  CV va = gcv(g), vb = g.chance(20) ? va : gcv(g); ap_coeff_t *a = mkc(g, va), *b = mkc(g, vb); desc("a=" + str(va) + " b=" + str(vb)); nontrivial(R().inputs);
  if (g.chance(50)) {
    label("coeff/tests"); int r = ap_coeff_cmp(a, b); require(okccmp(va, vb, r), "coeff/cmp", "compare is " + std::to_string(r)); require(ap_coeff_equal(a, b) == ceq(va, vb), "coeff/equal", "equal should be " + std::to_string(ceq(va, vb))); require(ap_coeff_zero(a) == czero(va), "coeff/zero", "zero should be " + std::to_string(czero(va)));
    int i = g.range(-2, 2); require(ap_coeff_equal_int(a, i) == eqi(va.v, pt_itv(i)), "coeff/equal_int", "equal_int with " + std::to_string(i) + " is " + std::to_string(ap_coeff_equal_int(a, i))); ap_coeff_t* c = mkc(g, va); require(ap_coeff_equal(a, c) && ap_coeff_cmp(a, c) == 0, "coeff/equal/rebuilt", "the same coefficient differs"); label("coeff/hash"); require(ap_coeff_hash(a) == ap_coeff_hash(c), "coeff/hash", "equal coefficients have different hashes"); ap_coeff_free(c);
  } else for (int k = g.range(1, 4); k > 0; k--) {
    CV n = gcv(g); auto bounds = [&](Q& l, Q& h) { l = wild(g); h = wild(g); };
    switch (g.below(18)) {
    case 0: label("coeff/set"); ap_coeff_set(a, b); va = vb; isc("coeff/set", a, va); break;
    case 1: { label("coeff/neg"); bool al = g.chance(40); CV s = al ? va : vb; ap_coeff_neg(a, al ? a : b); va = s; va.v = ineg(s.v); isc("coeff/neg", a, va); break; }
    case 2: label("coeff/reduce"); ap_coeff_reduce(a); va = creduce(va); isc("coeff/reduce", a, va); break;
    case 3: { label("coeff/set_scalar"); X x = wildx(g); ap_scalar_t* s = mks(g, x); ap_coeff_set_scalar(a, s); va.itv = false; va.v = mk_itv(x, x); isc("coeff/set_scalar", a, va); isv("coeff/set_scalar/argument", s, x); ap_scalar_free(s); break; }
    case 4: { label("coeff/set_scalar_mpq"); Q q = wild(g); ap_coeff_set_scalar_mpq(a, q.get_mpq_t()); va.itv = false; va.v = pt_itv(q); isc("coeff/set_scalar_mpq", a, va); break; }
    case 5: { label("coeff/set_scalar_int"); long i = g.range(-99, 99); ap_coeff_set_scalar_int(a, i); va.itv = false; va.v = pt_itv(i); isc("coeff/set_scalar_int", a, va); break; }
    case 6: { label("coeff/set_scalar_frac"); long i = g.range(-99, 99), d = g.range(1, 30); ap_coeff_set_scalar_frac(a, i, d); va.itv = false; va.v = pt_itv(frac(i, d)); isc("coeff/set_scalar_frac", a, va); break; }
    case 7: { label("coeff/set_scalar_double"); double d = g.range(-99, 99) / 8.0; ap_coeff_set_scalar_double(a, d); va.itv = false; va.v = pt_itv(qd(d)); isc("coeff/set_scalar_double", a, va); break; }
    case 8: { label("coeff/set_scalar_mpfr"); mpfr_t m; mpfr_init2(m, g.range(2, 100)); mpfr_set_d(m, g.range(-99, 99) / 7.0, MPFR_RNDN); Q e; mpfr_get_q(e.get_mpq_t(), m); ap_coeff_set_scalar_mpfr(a, m); mpfr_clear(m); va.itv = false; va.v = pt_itv(e); isc("coeff/set_scalar_mpfr", a, va); break; }
    case 9: { label("coeff/set_interval"); Itv v = gitv(g); ap_interval_t* i = mki(g, v); ap_coeff_set_interval(a, i); va.itv = true; va.v = v; isc("coeff/set_interval", a, va); isi("coeff/set_interval/argument", i, v); ap_interval_free(i); break; }
    case 10: { label("coeff/set_interval_scalar"); Itv v = gitv(g); ap_scalar_t *l = mks(g, v.lo), *h = mks(g, v.hi); ap_coeff_set_interval_scalar(a, l, h); ap_scalar_free(l); ap_scalar_free(h); va.itv = true; va.v = v; isc("coeff/set_interval_scalar", a, va); break; }
    case 11: { label("coeff/set_interval_mpq"); Q l, h; bounds(l, h); ap_coeff_set_interval_mpq(a, l.get_mpq_t(), h.get_mpq_t()); va.itv = true; va.v = mk_itv(X(l), X(h)); isc("coeff/set_interval_mpq", a, va); break; }
    case 12: { label("coeff/set_interval_int"); long l = g.range(-99, 99), h = g.range(-99, 99); ap_coeff_set_interval_int(a, l, h); va.itv = true; va.v = mk_itv(X(Q(l)), X(Q(h))); isc("coeff/set_interval_int", a, va); break; }
    case 13: { label("coeff/set_interval_frac"); long l = g.range(-99, 99), h = g.range(-99, 99), dl = g.range(1, 9), dh = g.range(1, 9); ap_coeff_set_interval_frac(a, l, dl, h, dh); va.itv = true; va.v = mk_itv(X(frac(l, dl)), X(frac(h, dh))); isc("coeff/set_interval_frac", a, va); break; }
    case 14: { label("coeff/set_interval_double"); double l = g.range(-99, 99) / 8.0, h = g.range(-99, 99) / 8.0; ap_coeff_set_interval_double(a, l, h); va.itv = true; va.v = mk_itv(X(qd(l)), X(qd(h))); isc("coeff/set_interval_double", a, va); break; }
    case 15: label("coeff/set_interval_top"); ap_coeff_set_interval_top(a); va.itv = true; va.v = mk_itv(ninf(), pinf()); isc("coeff/set_interval_top", a, va); break;
    case 16: { label("coeff/alloc_set"); ap_coeff_t* c = g.chance(50) ? ap_coeff_alloc_set(a) : va.itv ? ap_coeff_alloc_set_interval(a->val.interval) : ap_coeff_alloc_set_scalar(a->val.scalar); isc("coeff/alloc_set", c, va); ap_coeff_free(a); a = c; ap_coeff_swap(a, b); std::swap(va, vb); break; }
    default: { label("coeff/reinit"); bool it = g.chance(50); ap_scalar_discr_t t = ALLT[g.below(3)]; ap_coeff_reinit(a, it ? AP_COEFF_INTERVAL : AP_COEFF_SCALAR, t); bool ok = (a->discr == AP_COEFF_INTERVAL) == it && (it ? a->val.interval->inf->discr == t && a->val.interval->sup->discr == t : a->val.scalar->discr == t); require(ok, "coeff/reinit", "kind or type not changed"); if (!ok) return; ap_coeff_set(a, b); va = vb; isc("coeff/set", a, va); }
    }
    isc("coeff/argument", b, vb);
  }
  isc("coeff/arguments", a, va); isc("coeff/arguments", b, vb); ap_coeff_free(a); ap_coeff_free(b);
}
static Mode M_coeff("coeff", m_coeff);
#include "expr_lin.h"
#include "expr_tree.h"
#include "expr_print.h"
int main(int argc, char** argv) { return harness_main(argc, argv); }
