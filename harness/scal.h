// Scalars built next to their exact value, without the code under test.
#pragma once
#include "core.h"

// ---------------------------------------------------------------- scalars
static Q wild(Rng& g) {
  int r = g.below(100);
  if (r < 60) return gnum(g);
  if (r < 68) { Q v = pow2(g.range(54, 200)) + Q(g.range(-3, 3)); return g.chance(50) ? v : Q(-v); }
  if (r < 74) { Q v = pow2(-g.range(60, 200)) * Q(g.range(1, 9)); return g.chance(50) ? v : Q(-v); }
  if (r < 78) { Q v = pow2(g.range(1000, 1030)) * Q(g.range(1, 7)); return g.chance(50) ? v : Q(-v); }   // around the double overflow threshold
  if (r < 82) { Q v = pow2(-g.range(1015, 1085)) * Q(g.range(1, 99)); return g.chance(50) ? v : Q(-v); } // subnormal doubles and below
  if (r < 86) { Z n = 1; n <<= g.pick(vector<long>{31, 32, 62, 63, 64, 65, 128}); Q v(Z(n + g.range(-2, 2))); return g.chance(50) ? v : Q(-v); }
  if (r < 91) { Z d = 1; d <<= g.pick(vector<long>{31, 32, 63, 64, 65, 128}); Z n9(g.range(-9, 9)); Q v(n9, d); v.canonicalize(); return v; }
  if (r < 95) return frac(g.range(-100000, 100000), g.range(1, 100000));
  return Q(g.range(-3, 3));
}
static X wildx(Rng& g) { return g.chance(12) ? (g.chance(50) ? pinf() : ninf()) : X(wild(g)); }
static const ap_scalar_discr_t ALLT[] = {AP_SCALAR_DOUBLE, AP_SCALAR_MPQ, AP_SCALAR_MPFR};
static const char* tyname(int t) { return t == AP_SCALAR_DOUBLE ? "double" : t == AP_SCALAR_MPQ ? "mpq" : "mpfr"; }
static void mpq_inf(mpq_t q, int s) { mpz_set_si(mpq_numref(q), s); mpz_set_si(mpq_denref(q), 0); }
// fills the structure directly: nothing of the code under test is used to build inputs
static void fill(ap_scalar_t* s, const X& x, ap_scalar_discr_t t, int prec = 64) {
  ap_scalar_reinit(s, t);
  switch (t) {
  case AP_SCALAR_DOUBLE: s->val.dbl = x.inf ? x.inf * INFINITY : mpq_get_d(x.q.get_mpq_t()); break;
  case AP_SCALAR_MPQ: if (x.inf) mpq_inf(s->val.mpq, x.inf); else mpq_set(s->val.mpq, x.q.get_mpq_t()); break;
  case AP_SCALAR_MPFR: mpfr_set_prec(s->val.mpfr, prec); if (x.inf) mpfr_set_inf(s->val.mpfr, x.inf); else mpfr_set_q(s->val.mpfr, x.q.get_mpq_t(), MPFR_RNDN); break;
  }
}
static int exact_prec(const Q& q) { // precision at which MPFR represents q exactly, 0 if none below 400
  if (mpz_popcount(q.get_den_mpz_t()) != 1) return 0;
  size_t b = mpz_sizeinbase(q.get_num_mpz_t(), 2); return b > 400 ? 0 : (int)std::max<size_t>(b, 2);
}
// a scalar holding exactly x, of a random possible type
static ap_scalar_t* mks(Rng& g, const X& x, int want = -1) {
  ap_scalar_t* s = ap_scalar_alloc(); ap_scalar_discr_t t = want >= 0 ? (ap_scalar_discr_t)want : ALLT[g.below(3)]; int p = 64;
  if (!x.inf) { if (t == AP_SCALAR_DOUBLE && !dbl_exact(x.q)) t = AP_SCALAR_MPQ; if (t == AP_SCALAR_MPFR) { p = exact_prec(x.q); if (!p) t = AP_SCALAR_MPQ; else p += g.pick(vector<int>{0, 0, 1, 20, 200}); } }
  else p = g.range(2, 200);
  fill(s, x, t, p); return s;
}
