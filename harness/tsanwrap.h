// GMP and MPFR are not instrumented: tell ThreadSanitizer which numbers their functions read and write.
#pragma once
#ifdef __SANITIZE_THREAD__
#include <dlfcn.h>
extern "C" { void __tsan_read_range(void*, unsigned long); void __tsan_write_range(void*, unsigned long); }
#define TS_R(p) __tsan_read_range((void*)(p), sizeof *(p))
#define TS_W(p) __tsan_write_range((void*)(p), sizeof *(p))
#define TS_NEXT(name) static decltype(&name) f = (decltype(&name))dlsym(RTLD_NEXT, TS_STR(name))
#define TS_STR(x) TS_STR2(x)
#define TS_STR2(x) #x
// result, one or two operands, possibly a machine operand
#define TS_W_R(name, D, S) extern "C" void name(D* r, const S* a) { TS_NEXT(name); TS_R(a); TS_W(r); f(r, a); }
#define TS_W_RR(name, D, S) extern "C" void name(D* r, const S* a, const S* b) { TS_NEXT(name); TS_R(a); TS_R(b); TS_W(r); f(r, a, b); }
#define TS_W_RX(name, D, S, X) extern "C" void name(D* r, const S* a, X x) { TS_NEXT(name); TS_R(a); TS_W(r); f(r, a, x); }
#define TS_W_X(name, D, X) extern "C" void name(D* r, X x) { TS_NEXT(name); TS_W(r); f(r, x); }
#define TS_C(name, D) extern "C" int name(const D* a, const D* b) noexcept(noexcept(name(a, b))) { TS_NEXT(name); TS_R(a); TS_R(b); return f(a, b); }
#define TS_SW(name, D) extern "C" void name(D* a, D* b) noexcept(noexcept(name(a, b))) { TS_NEXT(name); TS_W(a); TS_W(b); f(a, b); }
typedef __mpz_struct TZ; typedef __mpq_struct TQ; typedef unsigned long TU;
TS_W_R(mpz_set, TZ, TZ) TS_W_RR(mpz_add, TZ, TZ) TS_W_RR(mpz_sub, TZ, TZ) TS_W_RR(mpz_mul, TZ, TZ) TS_W_RR(mpz_gcd, TZ, TZ) TS_W_RR(mpz_lcm, TZ, TZ)
TS_W_RR(mpz_fdiv_q, TZ, TZ) TS_W_RR(mpz_cdiv_q, TZ, TZ) TS_W_RR(mpz_tdiv_q, TZ, TZ) TS_W_RR(mpz_divexact, TZ, TZ) TS_W_RR(mpz_addmul, TZ, TZ) TS_W_RR(mpz_submul, TZ, TZ)
TS_W_RX(mpz_add_ui, TZ, TZ, TU) TS_W_RX(mpz_sub_ui, TZ, TZ, TU) TS_W_RX(mpz_mul_2exp, TZ, TZ, mp_bitcnt_t) TS_W_RX(mpz_mul_si, TZ, TZ, long) TS_W_RX(mpz_mul_ui, TZ, TZ, TU)
TS_W_X(mpz_set_si, TZ, long) TS_W_X(mpz_set_ui, TZ, TU) TS_W_X(mpz_set_d, TZ, double) TS_C(mpz_cmp, TZ) TS_C(mpz_cmpabs, TZ) TS_SW(mpz_swap, TZ)
TS_W_R(mpq_set, TQ, TQ) TS_W_RR(mpq_add, TQ, TQ) TS_W_RR(mpq_sub, TQ, TQ) TS_W_RR(mpq_mul, TQ, TQ) TS_W_RR(mpq_div, TQ, TQ) TS_W_R(mpq_inv, TQ, TQ) TS_W_R(mpq_set_z, TQ, TZ)
TS_W_RX(mpq_mul_2exp, TQ, TQ, mp_bitcnt_t) TS_W_RX(mpq_div_2exp, TQ, TQ, mp_bitcnt_t) TS_W_X(mpq_set_d, TQ, double) TS_C(mpq_cmp, TQ) TS_SW(mpq_swap, TQ)
extern "C" void mpq_set_si(TQ* r, long a, TU b) { TS_NEXT(mpq_set_si); TS_W(r); f(r, a, b); }
extern "C" void mpq_canonicalize(TQ* r) { TS_NEXT(mpq_canonicalize); TS_W(r); f(r); }
#define TS_F(name) extern "C" int name(mpfr_ptr r, mpfr_srcptr a, mpfr_srcptr b, mpfr_rnd_t x) { TS_NEXT(name); TS_R(a); TS_R(b); TS_W(r); return f(r, a, b, x); }
#define TS_F1(name, S) extern "C" int name(mpfr_ptr r, S a, mpfr_rnd_t x) { TS_NEXT(name); TS_R(a); TS_W(r); return f(r, a, x); }
TS_F(mpfr_add) TS_F(mpfr_sub) TS_F(mpfr_mul) TS_F(mpfr_div) TS_F1(mpfr_sqrt, mpfr_srcptr) TS_F1(mpfr_set_q, mpq_srcptr) TS_F1(mpfr_set_z, mpz_srcptr)
extern "C" int mpfr_set_d(mpfr_ptr r, double a, mpfr_rnd_t x) { TS_NEXT(mpfr_set_d); TS_W(r); return f(r, a, x); }
extern "C" int mpfr_set4(mpfr_ptr r, mpfr_srcptr a, mpfr_rnd_t x, int s) { TS_NEXT(mpfr_set4); TS_R(a); TS_W(r); return f(r, a, x, s); }
extern "C" int mpfr_cmp3(mpfr_srcptr a, mpfr_srcptr b, int s) { TS_NEXT(mpfr_cmp3); TS_R(a); TS_R(b); return f(a, b, s); }
#endif
