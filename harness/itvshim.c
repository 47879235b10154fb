/* The number, bound and interval layers of one number type (NUM_...), behind an exact interface:
   operands and results are GMP rationals with infinities. Compiled once per number type. */
#include "itvshim.h"
#include <fenv.h>
#include "ap_config.h"
#include "ap_manager.h"
#include "num.h"
#include "bound.h"
#include "itv.h"

#define F(x) NUMFUN(x)

static itv_internal_t* I = 0;

/* ------------------------------------------------------------------ loading and reading */
static void load_num(num_t a, mpq_srcptr q) {
#if defined(NUM_DOUBLE)
  *a = mpq_get_d(q);
#elif defined(NUM_LONGDOUBLE)
  mpfr_t f; mpfr_init2(f, 64); mpfr_set_q(f, q, GMP_RNDN); *a = mpfr_get_ld(f, GMP_RNDN); mpfr_clear(f);
#elif defined(NUM_MPFR)
  mpfr_set_q(a, q, GMP_RNDN);
#elif defined(NUM_MPQ)
  mpq_set(a, q);
#elif defined(NUM_MPZ)
  mpz_set(a, mpq_numref(q));
#elif defined(NUM_LONGRAT) || defined(NUM_LONGLONGRAT)
  *a->n = mpz_get_si(mpq_numref(q)); *a->d = mpz_get_si(mpq_denref(q));
#else
  *a = mpz_get_si(mpq_numref(q));
#endif
}
/* 0: fine, 1: not a number, 2: not in canonical form */
static int read_num(mpq_ptr q, num_t a) {
#if defined(NUM_DOUBLE)
  if (*a != *a || *a - *a != 0) return 1;
  mpq_set_d(q, *a);
#elif defined(NUM_LONGDOUBLE)
  mpfr_t f; if (*a != *a || *a - *a != 0) return 1;
  mpfr_init2(f, 64); mpfr_set_ld(f, *a, GMP_RNDN); mpfr_get_q(q, f); mpfr_clear(f);
#elif defined(NUM_MPFR)
  if (!mpfr_number_p(a)) return 1;
  mpfr_get_q(q, a);
#elif defined(NUM_MPQ)
  mpz_t g; if (mpz_sgn(mpq_denref(a)) <= 0) return 2;
  mpq_set(q, a); mpz_init(g); mpz_gcd(g, mpq_numref(a), mpq_denref(a)); int bad = mpz_cmp_ui(g, 1); mpz_clear(g); if (bad) return 2;
#elif defined(NUM_MPZ)
  mpq_set_z(q, a);
#elif defined(NUM_LONGRAT) || defined(NUM_LONGLONGRAT)
  if (*a->d <= 0) return 2;
  mpq_set_si(q, *a->n, *a->d); mpq_canonicalize(q); if (mpz_get_si(mpq_denref(q)) != *a->d) return 2;
#else
  mpq_set_si(q, *a, 1);
#endif
  return 0;
}
static void load_bound(bound_t a, const shim_x* x) {
  if (x->inf) bound_set_infty(a, x->inf);
  else { bound_set_int(a, 0); load_num(bound_numref(a), x->q); }
}
static int read_bound(shim_x* x, bound_t a) {
#if defined(NUM_DOUBLE) || defined(NUM_LONGDOUBLE)
  if (*a != *a) return 1;
#elif defined(NUM_MPFR)
  if (mpfr_nan_p(a)) return 1;
#endif
  if (bound_infty(a)) { x->inf = bound_sgn(a); return 0; }
  x->inf = 0; return read_num(x->q, bound_numref(a));
}
static void load_itv(itv_t a, const shim_i* i) {
  shim_x n; n.inf = -i->lo.inf; mpq_init(n.q); mpq_neg(n.q, i->lo.q);
  load_bound(a->inf, &n); load_bound(a->sup, &i->hi); mpq_clear(n.q);
}
static int read_itv(shim_i* i, itv_t a) {
  int r = read_bound(&i->lo, a->inf), s = read_bound(&i->hi, a->sup);
  i->lo.inf = -i->lo.inf; mpq_neg(i->lo.q, i->lo.q); return r ? r : s;
}

/* ------------------------------------------------------------------ calls */
/* r = op(a, b, n); c: a bound given exactly (also used as a number).
   alias: 0 the destination is another interval, preloaded with d; 1 it is the first operand; 2 the second */
int F(shim_itv)(int op, shim_i* r, shim_i* a, shim_i* b, shim_x* c, long n, int alias, const shim_i* d, int* code, shim_x* rb) {
  itv_t A, B, D; bound_t C, RB; num_t N; int bad = 0; *code = 0;
  int old = fegetround(); ap_fpu_init();
  if (!I) I = itv_internal_alloc();
  itv_init(A); itv_init(B); itv_init(D); bound_init(C); bound_init(RB); num_init(N);
  load_itv(A, a); load_itv(B, b); load_itv(D, d); if (!c->inf) load_num(N, c->q); load_bound(C, c); load_bound(RB, &d->hi);
  struct __itv_struct *x = A, *y = B, *z = alias == 1 ? A : alias == 2 ? B : D;
  switch (op) {
  case OP_ADD: itv_add(z, x, y); break;
  case OP_SUB: itv_sub(z, x, y); break;
  case OP_MUL: itv_mul(I, z, x, y); break;
  case OP_DIV: itv_div(I, z, x, y); break;
  case OP_NEG: itv_neg(z, x); break;
  case OP_ABS: itv_abs(z, x); break;
  case OP_SQRT: *code = itv_sqrt(I, z, x); break;
  case OP_MOD: itv_mod(I, z, x, y, n != 0); break;
  case OP_POW: itv_pow(I, z, x, y); break;
  case OP_MEET: *code = itv_meet(I, z, x, y); break;
  case OP_JOIN: itv_join(z, x, y); break;
  case OP_WIDEN: itv_widening(z, x, y); break;
  case OP_ADDNUM: itv_add_num(z, x, N); break;
  case OP_SUBNUM: itv_sub_num(z, x, N); break;
  case OP_MULNUM: itv_mul_num(z, x, N); break;
  case OP_DIVNUM: itv_div_num(z, x, N); break;
  case OP_ADDBOUND: itv_add_bound(z, x, C); break;
  case OP_SUBBOUND: itv_sub_bound(z, x, C); break;
  case OP_MULBOUND: itv_mul_bound(z, x, C); break;
  case OP_DIVBOUND: itv_div_bound(z, x, C); break;
  case OP_ENLARGE: itv_enlarge_bound(z, x, C); break;
  case OP_MUL2EXP: itv_mul_2exp(z, x, n); break;
  case OP_CEIL: itv_ceil(z, x); break;
  case OP_FLOOR: itv_floor(z, x); break;
  case OP_TRUNC: itv_trunc(z, x); break;
  case OP_TOINT: itv_to_int(z, x); break;
  case OP_TOFLOAT: itv_to_float(z, x); break;
  case OP_TODOUBLE: itv_to_double(z, x); break;
  case OP_UNCEIL: itv_unceil(z, x); break;
  case OP_UNFLOOR: itv_unfloor(z, x); break;
  case OP_UNTRUNC: itv_untrunc(z, x); break;
  case OP_FROMINT: itv_from_int(z, x); break;
  case OP_FROMFLOAT: itv_from_float(z, x); break;
  case OP_FROMDOUBLE: itv_from_double(z, x); break;
  case OP_SETNUM: itv_set_num(z, N); break;
  case OP_SETNUM2: { num_t M; num_init(M); load_num(M, b->hi.q); itv_set_num2(z, N, M); num_clear(M); break; }
  case OP_SETINT: itv_set_int(z, n); break;
  case OP_SETINT2: itv_set_int2(z, n, n + 3); break;
  case OP_SETTOP: itv_set_top(z); break;
  case OP_SETBOTTOM: itv_set_bottom(z); *code = itv_is_bottom(I, z); break;
  case OP_SETUNIT: itv_set_unit_num(z, N); break;
  case OP_SETUNITB: itv_set_unit_bound(z, C); break;
  case OP_SET: itv_set(z, x); break;
  case OP_SWAP: itv_set(z, x); itv_swap(z, y); if (read_itv(b, y)) bad = 1; load_itv(B, b); break;
  case OP_CANON: itv_set(z, x); *code = itv_canonicalize(I, z, n != 0); break;
  case OP_INVPOW: { itv_t E; itv_init(E); itv_set_int(E, n); itv_inv_pow(I, z, y, x, E); itv_clear(E); break; } /* z^n in x, sign as y */
  /* tests: the answer in *code */
  case OP_ISTOP: *code = itv_is_top(x); break;
  case OP_ISBOTTOM: *code = itv_is_bottom(I, x); break;
  case OP_ISPOINT: *code = itv_is_point(I, x); break;
  case OP_ISZERO: *code = itv_is_zero(x); break;
  case OP_ISLEQ: *code = itv_is_leq(x, y); break;
  case OP_ISEQ: *code = itv_is_eq(x, y); break;
  case OP_ISPOS: *code = itv_is_pos(x); break;
  case OP_ISNEG: *code = itv_is_neg(x); break;
  case OP_ISINT: *code = itv_is_int(I, x); break;
  case OP_HASH: *code = itv_hash(x) == itv_hash(y); break;
  case OP_MAGNITUDE: itv_magnitude(RB, x); bad = read_bound(rb, RB); break;
  case OP_RANGE: itv_range_abs(RB, x); bad = read_bound(rb, RB); break;
  }
  if (op < OP_ISTOP) bad = read_itv(r, z);
  /* operands that were not destinations are unchanged */
  if (z != A && read_itv(a, A)) bad = bad ? bad : 3;
  if (z != B && read_itv(b, B)) bad = bad ? bad : 3;
  if (!c->inf && read_num(c->q, N)) bad = bad ? bad : 3;
  if (read_bound(c, C)) bad = bad ? bad : 3;
  itv_clear(A); itv_clear(B); itv_clear(D); bound_clear(C); bound_clear(RB); num_clear(N);
  fesetround(old); return bad;
}

/* up (and down) = op(a, b, n) */
int F(shim_bound)(int op, shim_x* up, shim_x* down, shim_x* a, shim_x* b, long n, int alias, const shim_x* d, int* code) {
  bound_t A, B, U, D; num_t N; int bad = 0; *code = 0; int two = 0;
  int old = fegetround(); ap_fpu_init();
  bound_init(A); bound_init(B); bound_init(U); bound_init(D); num_init(N);
  load_bound(A, a); load_bound(B, b); load_bound(U, d); load_bound(D, d); if (!b->inf) load_num(N, b->q);
#define Z (alias == 1 ? A : alias == 2 ? B : U)
  switch (op) {
  case BO_NEG: bound_neg(Z, A); break;
  case BO_ABS: bound_abs(Z, A); break;
  case BO_ADD: bound_add(Z, A, B); break;
  case BO_SUB: bound_sub(Z, A, B); break;
  case BO_MUL: bound_mul(Z, A, B); break;
  case BO_DIV: bound_div(Z, A, B); break;
  case BO_ADDNUM: bound_add_num(Z, A, N); break;
  case BO_SUBNUM: bound_sub_num(Z, A, N); break;
  case BO_MULNUM: bound_mul_num(Z, A, N); break;
  case BO_DIVNUM: bound_div_num(Z, A, N); break;
  case BO_ADDUINT: bound_add_uint(Z, A, n); break;
  case BO_SUBUINT: bound_sub_uint(Z, A, n); break;
  case BO_MUL2: bound_mul_2(Z, A); break;
  case BO_DIV2: bound_div_2(Z, A); break;
  case BO_MUL2EXP: bound_mul_2exp(Z, A, n); break;
  case BO_MIN: bound_min(Z, A, B); break;
  case BO_MAX: bound_max(Z, A, B); break;
  case BO_FLOOR: bound_floor(Z, A); break;
  case BO_CEIL: bound_ceil(Z, A); break;
  case BO_TRUNC: bound_trunc(Z, A); break;
  case BO_TOFLOAT: bound_to_float(Z, A); break;
  case BO_TODOUBLE: bound_to_double(Z, A); break;
  case BO_NEXTFLOAT: bound_next_float(Z, A); break;
  case BO_NEXTDOUBLE: bound_next_double(Z, A); break;
  case BO_SET: bound_set(Z, A); break;
  case BO_SETINT: bound_set_int(Z, n); break;
  case BO_SETNUM: bound_set_num(Z, N); break;
  case BO_SWAP: bound_swap(A, B); if (read_bound(up, A) || read_bound(down, B)) bad = 1; bound_swap(A, B); break;
  case BO_SQRT: two = 1; bound_sqrt(Z, D, A); break;
  case BO_POW: two = 1; bound_pow(Z, D, A, n); break;
  case BO_ROOT: two = 1; bound_root(Z, D, A, n); break;
  case BO_INITSET: { bound_t E; bound_init_set(E, A); bad = read_bound(up, E); bound_clear(E); break; }
  case BO_SERIAL: { size_t k = bound_serialized_size(A); char* p = malloc(k + 16); memset(p, 0x5a, k + 16);
    size_t w = bound_serialize(p, A); *code = 0; if (w > k) *code |= 1; for (int i = 0; i < 16; i++) if (p[k + i] != 0x5a) *code |= 2;
    if (bound_deserialize(U, p) != w) *code |= 4; free(p); bad = read_bound(up, U); break; }
  case BO_SGN: *code = bound_sgn(A); break;
  case BO_CMP: *code = bound_cmp(A, B); break;
  case BO_CMPINT: *code = bound_cmp_int(A, n); break;
  case BO_CMPNUM: *code = bound_cmp_num(A, N); break;
  case BO_EQUAL: *code = bound_equal(A, B); break;
  case BO_INTEGER: *code = bound_integer(A); break;
  case BO_INFTY: *code = bound_infty(A); break;
  case BO_HASH: *code = bound_hash(A) == bound_hash(B); break;
  }
  if (op < BO_SWAP) bad = read_bound(up, Z);
  if (two) { if (!bad) bad = read_bound(up, Z); if (!bad) bad = read_bound(down, D); }
  if (!(alias == 1) && read_bound(a, A)) bad = bad ? bad : 3;
  if (!(alias == 2) && read_bound(b, B)) bad = bad ? bad : 3;
#undef Z
  bound_clear(A); bound_clear(B); bound_clear(U); bound_clear(D); num_clear(N);
  fesetround(old); return bad;
}

/* conversions: op on a (this type) and the coefficient co */
int F(shim_conv)(int op, shim_i* a, ap_coeff_t* co, const shim_i* d, int* code) {
  itv_t A; int bad = 0; *code = 0; int old = fegetround(); ap_fpu_init(); if (!I) I = itv_internal_alloc();
  itv_init(A);
  switch (op) {
  case CV_FROM_SCALAR: load_itv(A, d); *code = itv_set_ap_scalar(I, A, co->val.scalar); bad = read_itv(a, A); break;
  case CV_FROM_INTERVAL: load_itv(A, d); *code = itv_set_ap_interval(I, A, co->val.interval); bad = read_itv(a, A); break;
  case CV_FROM_COEFF: load_itv(A, d); *code = itv_set_ap_coeff(I, A, co); bad = read_itv(a, A); break;
  case CV_TO_INTERVAL: load_itv(A, a); *code = ap_interval_set_itv(I, co->val.interval, A); bad = read_itv(a, A); break;
  case CV_TO_COEFF: load_itv(A, a); *code = ap_coeff_set_itv(I, co, A); bad = read_itv(a, A); break;
  case CV_BOUND_FROM: { bound_t B; bound_init(B); load_bound(B, &d->hi); *code = bound_set_ap_scalar(B, co->val.scalar); bad = read_bound(&a->hi, B); bound_clear(B); break; }
  case CV_BOUND_TO: { bound_t B; bound_init(B); load_bound(B, &a->hi); *code = ap_scalar_set_bound(co->val.scalar, B); bad = read_bound(&a->hi, B); bound_clear(B); break; }
  case CV_ARRAY: { ap_interval_t* t[2] = { co->val.interval, co->val.interval }; itv_t* T; *code = itv_array_set_ap_interval_array(I, &T, t, 2); bad = read_itv(a, T[0]);
    if (!bad && !itv_is_eq(T[0], T[1])) bad = 4; itv_array_free(T, 2); break; }
  }
  itv_clear(A); fesetround(old); return bad;
}

/* plain numbers: conversions */
int F(shim_num)(int op, mpq_ptr a, mpq_ptr r, long* li, int* code) {
  num_t N; int bad = 0; *code = 0; int old = fegetround(); ap_fpu_init(); num_init(N);
  mpz_t z; mpz_init(z); mpfr_t f; mpfr_init2(f, 53);
  switch (op) {
  case NU_SETMPZ: *code = num_set_mpz(N, mpq_numref(a)); bad = read_num(r, N); break;
  case NU_SETMPQ: *code = num_set_mpq(N, a); bad = read_num(r, N); break;
  case NU_SETDOUBLE: *code = num_set_double(N, mpq_get_d(a)); bad = read_num(r, N); break;
  case NU_SETMPFR: mpfr_set_prec(f, 300); mpfr_set_q(f, a, GMP_RNDN); *code = num_set_mpfr(N, f); bad = read_num(r, N); break;
  case NU_SETINT2: *code = num_set_int2(N, mpz_get_si(mpq_numref(a)), mpz_get_si(mpq_denref(a))); bad = read_num(r, N); break;
  case NU_TOINT: load_num(N, a); *code = int_set_num(li, N); break;
  case NU_TOMPZ: load_num(N, a); *code = mpz_set_num(z, N); mpq_set_z(r, z); break;
  case NU_TOMPQ: load_num(N, a); *code = mpq_set_num(r, N); break;
  case NU_TODOUBLE: { double x; load_num(N, a); *code = double_set_num(&x, N); if (x - x != 0) bad = 1; else mpq_set_d(r, x); break; }
  case NU_TOMPFR: load_num(N, a); mpfr_set_prec(f, *li); *code = mpfr_set_num(f, N); if (!mpfr_number_p(f)) bad = 1; else mpfr_get_q(r, f); break;
  case NU_INTEGER: load_num(N, a); *code = num_integer(N); break;
  case NU_SERIAL: { num_t M; load_num(N, a); num_init(M); size_t k = num_serialized_size(N); char* p = malloc(k + 16); memset(p, 0x5a, k + 16);
    size_t w = num_serialize(p, N); if (w > k) *code |= 1; for (int i = 0; i < 16; i++) if (p[k + i] != 0x5a) *code |= 2;
    if (num_deserialize(M, p) != w) *code |= 4; free(p); bad = read_num(r, M); num_clear(M); break; }
  }
  mpz_clear(z); mpfr_clear(f); num_clear(N); fesetround(old); return bad;
}
/* the table of constants of the native types overflows: outside of the semantics */
void F(shim_start)(void) { int old = fegetround(); ap_fpu_init(); if (!I) I = itv_internal_alloc(); fesetround(old); }
void F(shim_done)(void) { if (I) itv_internal_free(I); I = 0; }
