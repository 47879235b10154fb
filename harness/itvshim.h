#pragma once
#include <gmp.h>
#include <mpfr.h>
#include "ap_coeff.h"
typedef struct { int inf; mpq_t q; } shim_x;          /* a bound: inf is the sign of an infinity, or 0 */
typedef struct { shim_x lo, hi; } shim_i;
enum { OP_ADD, OP_SUB, OP_MUL, OP_DIV, OP_NEG, OP_ABS, OP_SQRT, OP_MOD, OP_POW, OP_MEET, OP_JOIN, OP_WIDEN,
  OP_ADDNUM, OP_SUBNUM, OP_MULNUM, OP_DIVNUM, OP_ADDBOUND, OP_SUBBOUND, OP_MULBOUND, OP_DIVBOUND, OP_ENLARGE, OP_MUL2EXP,
  OP_CEIL, OP_FLOOR, OP_TRUNC, OP_TOINT, OP_TOFLOAT, OP_TODOUBLE, OP_UNCEIL, OP_UNFLOOR, OP_UNTRUNC, OP_FROMINT, OP_FROMFLOAT, OP_FROMDOUBLE,
  OP_SETNUM, OP_SETNUM2, OP_SETINT, OP_SETINT2, OP_SETTOP, OP_SETBOTTOM, OP_SETUNIT, OP_SETUNITB, OP_SET, OP_SWAP, OP_CANON, OP_INVPOW,
  OP_ISTOP, OP_ISBOTTOM, OP_ISPOINT, OP_ISZERO, OP_ISLEQ, OP_ISEQ, OP_ISPOS, OP_ISNEG, OP_ISINT, OP_HASH, OP_MAGNITUDE, OP_RANGE, OP_COUNT };
enum { BO_NEG, BO_ABS, BO_ADD, BO_SUB, BO_MUL, BO_DIV, BO_ADDNUM, BO_SUBNUM, BO_MULNUM, BO_DIVNUM, BO_ADDUINT, BO_SUBUINT, BO_MUL2, BO_DIV2, BO_MUL2EXP,
  BO_MIN, BO_MAX, BO_FLOOR, BO_CEIL, BO_TRUNC, BO_TOFLOAT, BO_TODOUBLE, BO_NEXTFLOAT, BO_NEXTDOUBLE, BO_SET, BO_SETINT, BO_SETNUM,
  BO_SWAP, BO_SQRT, BO_POW, BO_ROOT, BO_INITSET, BO_SERIAL, BO_SGN, BO_CMP, BO_CMPINT, BO_CMPNUM, BO_EQUAL, BO_INTEGER, BO_INFTY, BO_HASH, BO_COUNT };
enum { CV_FROM_SCALAR, CV_FROM_INTERVAL, CV_FROM_COEFF, CV_TO_INTERVAL, CV_TO_COEFF, CV_BOUND_FROM, CV_BOUND_TO, CV_ARRAY, CV_COUNT };
enum { NU_SETMPZ, NU_SETMPQ, NU_SETDOUBLE, NU_SETMPFR, NU_SETINT2, NU_TOINT, NU_TOMPZ, NU_TOMPQ, NU_TODOUBLE, NU_TOMPFR, NU_INTEGER, NU_SERIAL, NU_COUNT };
#define SHIM_DECL(S) \
  int shim_itv_##S(int op, shim_i* r, shim_i* a, shim_i* b, shim_x* c, long n, int alias, const shim_i* d, int* code, shim_x* rb); \
  int shim_bound_##S(int op, shim_x* up, shim_x* down, shim_x* a, shim_x* b, long n, int alias, const shim_x* d, int* code); \
  int shim_conv_##S(int op, shim_i* a, ap_coeff_t* co, const shim_i* d, int* code); \
  int shim_num_##S(int op, mpq_ptr a, mpq_ptr r, long* li, int* code); \
  void shim_start_##S(void); void shim_done_##S(void);
#ifdef __cplusplus
extern "C" {
#endif
SHIM_DECL(D) SHIM_DECL(Dl) SHIM_DECL(MPQ) SHIM_DECL(MPZ) SHIM_DECL(MPFR) SHIM_DECL(Rl) SHIM_DECL(Rll) SHIM_DECL(Il) SHIM_DECL(Ill)
#ifdef __cplusplus
}
#endif
