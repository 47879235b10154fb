// The number, bound and interval layers, for each of the nine number types (itvshim.c), against exact rationals.
#include "scal.h"
extern "C" {
#include "itvshim.h"
}

enum Kind { FLT, RAT, INT };
struct Ty { const char* name; Kind k; bool native; int prec; ap_scalar_discr_t out;
  decltype(&shim_itv_D) itv; decltype(&shim_bound_D) bound; decltype(&shim_conv_D) conv; decltype(&shim_num_D) num; };
#define T(S, k, nat, prec, out) {#S, k, nat, prec, out, shim_itv_##S, shim_bound_##S, shim_conv_##S, shim_num_##S}
static const Ty TY[] = { T(D, FLT, true, 53, AP_SCALAR_DOUBLE), T(MPQ, RAT, false, 0, AP_SCALAR_MPQ), T(MPFR, FLT, false, 53, AP_SCALAR_MPFR), T(Rll, RAT, true, 0, AP_SCALAR_MPQ),
  T(MPZ, INT, false, 0, AP_SCALAR_MPQ), T(Ill, INT, true, 0, AP_SCALAR_MPQ), T(Dl, FLT, true, 64, AP_SCALAR_DOUBLE), T(Rl, RAT, true, 0, AP_SCALAR_MPQ), T(Il, INT, true, 0, AP_SCALAR_MPQ) };
static const Ty& pickty(Rng& g) { return TY[g.chance(60) ? g.below(4) : g.below(9)]; }
static bool small(const Ty& t) { return t.native && t.k != FLT; }
// is v a value of the type? (for native integers and rationals: small enough that no operation overflows)
static bool rep(const Ty& t, const Q& v) {
  switch (t.k) {
  case INT: return isint(v) && (!t.native || abs(v) <= Q(1L << 40));
  case RAT: return !t.native || (abs(Q(v.get_num())) <= Q(1L << 40) && v.get_den() <= 1 << 20);
  default: { int p = exact_prec(v); if (!p || p > t.prec) { // trailing zeros do not count
        if (mpz_popcount(v.get_den_mpz_t()) != 1) return false; Z n = v.get_num(); if (n == 0) return true; n >>= mpz_scan1(n.get_mpz_t(), 0); if ((int)mpz_sizeinbase(n.get_mpz_t(), 2) > t.prec) return false; }
      if (!strcmp(t.name, "D")) return dbl_exact(v);
      return abs(v) < pow2(16000) && (sgn(v) == 0 || abs(v) > pow2(-16000)); } } }
static Q val(Rng& g, const Ty& t) {
  for (;;) { Q v;
    if (small(t)) v = t.k == INT ? Q(g.chance(80) ? g.range(-12, 12) : g.range(-100000, 100000)) : frac(g.chance(80) ? g.range(-12, 12) : g.range(-1000, 1000), g.chance(80) ? g.range(1, 6) : g.range(1, 60));
    else if (t.k == INT) v = floorq(wild(g));
    else if (t.k == RAT) v = wild(g);
    else { int r = g.below(100);
      if (r < 50) v = gnum(g); else if (r < 75) { Z m = (long)(g.next() >> (64 - t.prec)); v = Q(m) * pow2(g.range(-70, 20)); if (g.chance(50)) v = -v; } else v = wild(g);
      if (abs(v) >= pow2(1023)) v = 3;
      if (!rep(t, v)) { v = qd(mpq_get_d(v.get_mpq_t())); } }
    if (t.k != FLT ? rep(t, v) : rep(t, v)) return v; } }
struct Sx { shim_x s; Sx() { s.inf = 0; mpq_init(s.q); } explicit Sx(const X& x) { s.inf = x.inf; mpq_init(s.q); mpq_set(s.q, x.q.get_mpq_t()); } ~Sx() { mpq_clear(s.q); }
  X get() const { return s.inf ? X(s.inf, 0) : X(Q(s.q)); } Sx(const Sx&) = delete; };
struct Si { shim_i s; Si() { s.lo.inf = s.hi.inf = 0; mpq_init(s.lo.q); mpq_init(s.hi.q); }
  explicit Si(const Itv& i) { s.lo.inf = i.lo.inf; s.hi.inf = i.hi.inf; mpq_init(s.lo.q); mpq_init(s.hi.q); mpq_set(s.lo.q, i.lo.q.get_mpq_t()); mpq_set(s.hi.q, i.hi.q.get_mpq_t()); }
  ~Si() { mpq_clear(s.lo.q); mpq_clear(s.hi.q); } Si(const Si&) = delete;
  Itv get() const { Itv r; r.lo = s.lo.inf ? X(s.lo.inf, 0) : X(Q(s.lo.q)); r.hi = s.hi.inf ? X(s.hi.inf, 0) : X(Q(s.hi.q)); return r; } };
static bool same(const X& a, const X& b) { return cmp(a, b) == 0; }
static bool same(const Itv& a, const Itv& b) { return same(a.lo, b.lo) && same(a.hi, b.hi); }
static X neg(const X& a) { return a.inf ? X(-a.inf, 0) : X(Q(-a.q)); }
static int xs(const X& a) { return a.inf ? a.inf : sgn(a.q); }
static X xadd(const X& a, const X& b) { return a.inf ? a : b.inf ? b : X(Q(a.q + b.q)); }
static X xmul(const X& a, const X& b) { if (!xs(a) || !xs(b)) return X(Q(0)); if (a.inf || b.inf) return X(xs(a) * xs(b), 0); return X(Q(a.q * b.q)); }
static X xdiv(const X& a, const X& b) { if (!xs(a) || b.inf) return X(Q(0)); if (!xs(b)) return X(xs(a), 0); if (a.inf) return X(xs(a) * xs(b), 0); return X(Q(a.q / b.q)); }
static X xmin(const X& a, const X& b) { return cmp(a, b) <= 0 ? a : b; }
static X xmax(const X& a, const X& b) { return cmp(a, b) >= 0 ? a : b; }
static X xb(Rng& g, const Ty& t) { return g.chance(15) ? X(g.chance(50) ? 1 : -1, 0) : X(val(g, t)); }
static Itv it(Rng& g, const Ty& t) { // a non-empty interval
  Itv r; Q a = val(g, t), b = g.chance(20) ? a : val(g, t); if (g.chance(25)) { a = Q(0); } if (a > b) std::swap(a, b);
  r.lo = X(a); r.hi = X(b); if (g.chance(12)) r.lo = ninf(); if (g.chance(12)) r.hi = pinf(); return r; }
static Itv iint(Itv i) { if (!i.lo.inf) i.lo = X(ceilq(i.lo.q)); if (!i.hi.inf) i.hi = X(floorq(i.hi.q)); return i; }
static vector<Q> pts(Rng& g, const Itv& i) { // points of it
  vector<Q> c, r; if (!i.lo.inf) { c.push_back(i.lo.q); c.push_back(i.lo.q + frac(1, 3)); c.push_back(Q(i.lo.q + abs(gnum(g)))); } if (!i.hi.inf) { c.push_back(i.hi.q); c.push_back(i.hi.q - frac(1, 3)); c.push_back(Q(i.hi.q - abs(gnum(g)))); }
  if (!i.lo.inf && !i.hi.inf) { c.push_back((i.lo.q + i.hi.q) / 2); c.push_back(Q(i.lo.q + (i.hi.q - i.lo.q) * frac(g.range(0, 100), 100))); }
  for (long v : {0, 1, -1, 2, -2}) c.push_back(Q(v)); c.push_back(gnum(g)); c.push_back(Q(pow2(200))); c.push_back(Q(-pow2(200))); c.push_back(pow2(-100)); c.push_back(Q(-pow2(-100)));
  for (auto& q : c) if (i.has(q)) r.push_back(q); return r; }
static Q qpow(const Q& b, unsigned n) { Q r = 1; while (n--) r *= b; return r; }

// r, rounded up from e?
static string up(const Ty& t, const X& r, const X& e, bool exactop) {
  if (cmp(r, e) < 0) return str(r) + " is below the exact " + str(e);
  if (e.inf) return same(r, e) ? "" : str(r) + " instead of " + str(e);
  if (rep(t, e.q) && (exactop || t.k == FLT)) return same(r, e) ? "" : str(r) + " instead of " + str(e);
  if (t.k == FLT && abs(e.q) < pow2(1023)) { if (r.inf) return str(r) + " for " + str(e); if (r.q - e.q > abs(e.q) * pow2(-(t.prec - 2)) + pow2(-1070)) return str(r) + " is far from the exact " + str(e); }
  if (t.k == INT && exactop && !r.inf && r.q - e.q >= 1) return str(r) + " is far from the exact " + str(e);
  return ""; }
static string tight(const Ty& t, const Itv& r, const Itv& e, bool exactop) {
  string s = up(t, r.hi, e.hi, exactop); if (!s.empty()) return "upper bound " + s;
  s = up(t, neg(r.lo), neg(e.lo), exactop); return s.empty() ? "" : "lower bound (negated) " + s; }
static const char* IN[] = {"add","sub","mul","div","neg","abs","sqrt","mod","pow","meet","join","widening","add_num","sub_num","mul_num","div_num","add_bound","sub_bound","mul_bound","div_bound","enlarge_bound","mul_2exp",
  "ceil","floor","trunc","to_int","to_float","to_double","unceil","unfloor","untrunc","from_int","from_float","from_double","set_num","set_num2","set_int","set_int2","set_top","set_bottom","set_unit_num","set_unit_bound","set","swap","canonicalize","inv_pow",
  "is_top","is_bottom","is_point","is_zero","is_leq","is_eq","is_pos","is_neg","is_int","hash","magnitude","range_abs"};
static const char* BAD[] = {"", "is not a number", "is not in canonical form", "an operand became invalid", "two conversions of one value differ"};

static std::optional<Q> rto(const Q& x, bool dbl, mpfr_rnd_t r) { if (sgn(x) == 0) return x; return dbl ? round_mpfr_in(nullptr, &x, 53, -1022, 1023, r) : round_mpfr_in(nullptr, &x, 24, -126, 127, r); }
static const mpfr_rnd_t RN[] = {MPFR_RNDN, MPFR_RNDU, MPFR_RNDD, MPFR_RNDZ};

static void m_nitv(Rng& g, long) {
  const Ty& t = pickty(g); int op = g.below(OP_COUNT); Itv a = it(g, t), b = it(g, t); X c = xb(g, t); long n = 0; int alias = g.below(3);
  bool sq = small(t); // keep native integers away from overflow
  switch (op) { // operands the operation is meant for
  case OP_POW: n = g.range(0, sq ? 3 : 5); b.lo = b.hi = X(Q(n)); if (!sq && g.chance(10)) b = it(g, t); if (sq) { a.lo = X(Q(g.range(-9, 0))); a.hi = X(Q(g.range(0, 9))); if (t.k == RAT && g.chance(50)) { a.lo = X(frac(g.range(-9, 3), g.range(1, 5))); a.hi = X(Q(a.lo.q + frac(g.range(0, 9), 2))); } }
    if (!sq) for (X* x : {&a.lo, &a.hi}) if (!x->inf && (abs(x->q) > pow2(100) || (sgn(x->q) != 0 && abs(x->q) < pow2(-100)))) *x = X(Q(x == &a.lo ? -7 : 7)); if (a.empty()) std::swap(a.lo, a.hi); if (!b.lo.inf && !same(b.lo, b.hi)) ; else if (!b.hi.inf && b.hi.q > 8) b.lo = b.hi = X(Q(2)); break;
  case OP_INVPOW: { n = g.range(1, sq ? 3 : 5); if (alias == 2) alias = 0; Q z = sq ? Q(g.range(-9, 9)) : g.chance(70) ? gnum(g) : val(g, t); if (abs(z) > pow2(60) || (sgn(z) && abs(z) < pow2(-60))) z = 3; if (t.k == INT) z = floorq(z); Q v = qpow(z, n);
    Q d1 = abs(val(g, t)), d2 = abs(val(g, t)); if (sq) { d1 = Q(g.range(0, 30)); d2 = Q(g.range(0, 30)); } a.lo = X(Q(v - d1)); a.hi = X(Q(v + d2)); for (X* x : {&a.lo, &a.hi}) if (!rep(t, x->q)) *x = X(v); if (!rep(t, v)) a = it(g, t);
    if (t.k == RAT && sq && g.chance(60)) { a.lo = X(frac(g.range(-40, 20), g.range(1, 9))); a.hi = X(Q(a.lo.q + g.range(0, 9))); } if (g.chance(10)) a.lo = ninf(); if (g.chance(10)) a.hi = pinf();
    b = Itv(); if (g.chance(30)) b.lo = X(Q(0)); else if (g.chance(30)) b.hi = X(Q(0)); break; }
  case OP_MOD: n = g.chance(40); if (n) { a = iint(a); b = iint(b); if (a.empty()) a.lo = a.hi = X(Q(5)); if (b.empty()) b.lo = b.hi = X(Q(3)); for (X* x : {&a.lo, &a.hi, &b.lo, &b.hi}) if (!x->inf && !rep(t, x->q)) *x = x == &a.lo || x == &b.lo ? ninf() : pinf(); }
    if (g.chance(50) && xs(b.lo) <= 0 && xs(b.hi) >= 0) { b.lo = X(Q(g.range(1, 3))); b.hi = X(Q(b.lo.q + g.range(0, 3))); if (g.chance(40)) { X l = b.lo; b.lo = neg(b.hi); b.hi = neg(l); } } break;
  case OP_ADDNUM: case OP_SUBNUM: case OP_MULNUM: case OP_DIVNUM: case OP_SETNUM: c = X(val(g, t)); if (op == OP_DIVNUM && sgn(c.q) == 0) c = X(Q(2)); break;
  case OP_ADDBOUND: case OP_SUBBOUND: if (c.inf) c = X(val(g, t)); break;
  case OP_MULBOUND: if (c.inf) c = X(val(g, t)); break;
  case OP_DIVBOUND: if (c.inf || !xs(c)) c = X(Q(-3)); break;
  case OP_ENLARGE: c = c.inf ? pinf() : X(Q(abs(c.q))); break;
  case OP_SETUNIT: c = X(Q(abs(val(g, t)))); break;
  case OP_SETUNITB: c = c.inf ? pinf() : X(Q(abs(c.q))); break;
  case OP_MUL2EXP: n = g.range(-6, 6); if (sq) { n = g.range(-3, 6); for (X* x : {&a.lo, &a.hi}) if (!x->inf) *x = X(Q(0)); } break;
  case OP_SETINT: case OP_SETINT2: n = g.range(-1000, 1000); break;
  case OP_SETNUM2: if (b.hi.inf) b.hi = X(val(g, t)); c = X(val(g, t)); break;
  case OP_CANON: n = g.chance(50); if (g.chance(30)) std::swap(a.lo.q, a.hi.q); break;
  case OP_ISBOTTOM: if (g.chance(50)) std::swap(a.lo.q, a.hi.q); break;
  case OP_JOIN: case OP_WIDEN: case OP_ISLEQ: for (Itv* x : {&a, &b}) if (g.chance(8)) { x->lo = X(Q(1)); x->hi = X(Q(-1)); } break;
  case OP_SWAP: alias = 0; break;
  case OP_HASH: case OP_ISEQ: if (g.chance(60)) b = a; if (op == OP_HASH) for (X* x : {&a.lo, &a.hi, &b.lo, &b.hi}) if (!x->inf && abs(x->q) > pow2(50)) *x = X(Q(4)); break;
  case OP_FROMFLOAT: case OP_FROMDOUBLE: case OP_TOFLOAT: case OP_TODOUBLE: if (sq) { op = OP_CEIL; break; }
    if (t.k == RAT || t.k == FLT) { if (g.chance(30)) for (X* x : {&a.lo, &a.hi}) if (!x->inf) { auto r = rto(x->q, op == OP_FROMDOUBLE, MPFR_RNDN); if (r && rep(t, *r)) *x = X(*r); } if (a.empty()) std::swap(a.lo, a.hi); } break;
  case OP_ISPOINT: if (g.chance(40)) a.lo = a.hi; if (a.lo.inf) a = it(g, t); break;
  case OP_ISZERO: if (g.chance(40)) a.lo = a.hi = X(Q(0)); break;
  case OP_ISINT: if (g.chance(50)) a = iint(a); for (X* x : {&a.lo, &a.hi}) if (!x->inf && !rep(t, x->q)) *x = X(Q(3)); break;
  }
  bool bin = op <= OP_DIV || op == OP_MOD || op == OP_POW || op == OP_MEET || op == OP_JOIN || op == OP_WIDEN || op == OP_SWAP || op == OP_ISLEQ || op == OP_ISEQ || op == OP_HASH || op == OP_INVPOW;
  if (op == OP_MOD || op == OP_POW) { if (alias == 2) alias = 0; }
  if (op >= OP_SETNUM && op <= OP_SETUNITB) alias = 0; if (op == OP_INVPOW && alias == 2) alias = 0; if (!bin && alias == 2) alias = 1; if (op >= OP_ISTOP || op == OP_SETNUM2) alias = 0;
  if (op == OP_SUB && g.chance(15)) { b = a; } // a - a
  Itv d = it(g, t); string nm = string(t.name) + "/" + IN[op]; label(nm);
  desc(nm + " a=" + str(a) + (bin ? " b=" + str(b) : "") + (op >= OP_ADDNUM && op <= OP_ENLARGE ? " c=" + str(c) : "") + (n ? " n=" + std::to_string(n) : "") + " alias " + std::to_string(alias)); nontrivial(R().inputs); stat(IN[op]);
  Si sa(a), sb(b), sd(d), sr; Sx sc(c), srb; int code = 0;
  int bad = t.itv(op, &sr.s, &sa.s, &sb.s, &sc.s, n, alias, &sd.s, &code, &srb.s); Itv r = sr.get(); const string K = "itv/" + nm; judged();
  if (bad) { violation(K + "/invalid", string("result ") + BAD[bad]); return; }
  if (alias != 1 && !same(sa.get(), a)) violation(K + "/operand", "the first operand became " + str(sa.get()));
  if (alias != 2 && op != OP_SWAP && !same(sb.get(), b)) violation(K + "/operand", "the second operand became " + str(sb.get()));
  if (!same(sc.get(), c)) violation(K + "/operand", "the number became " + str(sc.get()));
  auto in = [&](const Q& v, const string& from) { judged(); if (r.has(v)) return true; violation(K + "/lost", "result " + str(r) + " misses " + str(v) + " obtained from " + from); return false; };
  auto best = [&](const Itv& e, bool exactop = true) { judged(); string s = tight(t, r, e, exactop && t.k != INT ? true : exactop); if (!s.empty()) violation(K + "/bounds", "result " + str(r) + ", expected " + str(e) + ": " + s); };
  auto ans = [&](bool e) { judged(); if ((code != 0) != e) violation(K + "/answer", string("answered ") + (code ? "yes" : "no")); };
  vector<Q> pa = a.empty() ? vector<Q>() : pts(g, a), pb = b.empty() ? vector<Q>() : pts(g, b);
  auto pairs = [&](auto f) { for (auto& x : pa) for (auto& y : pb) { auto v = f(x, y); if (v && !in(*v, str(x) + " and " + str(y))) return; } };
  auto singles = [&](auto f) { for (auto& x : pa) { auto v = f(x); if (v && !in(*v, str(x))) return; } };
  typedef std::optional<Q> O; const Q cq = c.q;
  auto corners = [&](const Itv& p, const Itv& q) { Itv e; X z[4] = {xmul(p.lo, q.lo), xmul(p.lo, q.hi), xmul(p.hi, q.lo), xmul(p.hi, q.hi)}; e.lo = e.hi = z[0]; for (auto& w : z) { e.lo = xmin(e.lo, w); e.hi = xmax(e.hi, w); } return e; };
  auto quot = [&](const Itv& p, const Itv& q) { Itv e; X z[4] = {xdiv(p.lo, q.lo), xdiv(p.lo, q.hi), xdiv(p.hi, q.lo), xdiv(p.hi, q.hi)}; e.lo = e.hi = z[0]; for (auto& w : z) { e.lo = xmin(e.lo, w); e.hi = xmax(e.hi, w); } return e; };
  switch (op) {
  case OP_ADD: pairs([](const Q& x, const Q& y) { return O(x + y); }); { Itv e; e.lo = a.lo.inf ? a.lo : xadd(a.lo, b.lo); e.hi = a.hi.inf ? a.hi : xadd(a.hi, b.hi); best(e); } break;
  case OP_SUB: pairs([](const Q& x, const Q& y) { return O(x - y); }); { Itv e; e.lo = a.lo.inf ? a.lo : xadd(a.lo, neg(b.hi)); e.hi = a.hi.inf ? a.hi : xadd(a.hi, neg(b.lo)); best(e); } break;
  case OP_MUL: pairs([](const Q& x, const Q& y) { return O(x * y); }); best(corners(a, b)); break;
  case OP_DIV: pairs([](const Q& x, const Q& y) { return sgn(y) ? O(x / y) : O(); }); if (xs(b.lo) > 0 || xs(b.hi) < 0) best(quot(a, b)); break;
  case OP_NEG: singles([](const Q& x) { return O(-x); }); { Itv e; e.lo = neg(a.hi); e.hi = neg(a.lo); best(e); } break;
  case OP_ABS: singles([](const Q& x) { return O(abs(x)); }); { Itv e; e.hi = xmax(neg(a.lo), a.hi); e.lo = xs(a.lo) >= 0 ? a.lo : xs(a.hi) <= 0 ? neg(a.hi) : X(Q(0)); best(e); } break;
  case OP_SQRT: { bool some = false;
    for (auto& x : pa) if (sgn(x) >= 0) { some = true; judged(); if (r.hi.inf < 0 || r.lo.inf > 0 || (!r.hi.inf && (sgn(r.hi.q) < 0 || r.hi.q * r.hi.q < x)) || (!r.lo.inf && sgn(r.lo.q) > 0 && r.lo.q * r.lo.q > x)) { violation(K + "/lost", "result " + str(r) + " misses the square root of " + str(x)); break; } }
    if (!some) { require(r.empty(), K + "/empty", "square root of a negative interval is " + str(r)); break; }
    X l = xmax(a.lo, X(Q(0))); auto sqx = [&](const X& v, const X& x) { return v.inf ? v.inf == x.inf : !x.inf && v.q * v.q == x.q && sgn(v.q) >= 0; };
    require(!code || (sqx(r.lo, l) && sqx(r.hi, a.hi)), K + "/exact", "claims to be exact: " + str(r));
    require(r.hi.inf ? a.hi.inf != 0 : (r.hi.q <= 1 || (r.hi.q - 1) * (r.hi.q - 1) <= a.hi.q || (!a.hi.inf && t.k == FLT && (r.hi.q * r.hi.q <= a.hi.q * (1 + pow2(-45))))), K + "/bounds", "the upper bound is too large: " + str(r));
    require(r.lo.inf == 0 && sgn(r.lo.q) >= 0, K + "/bounds", "the lower bound is negative: " + str(r)); break; }
  case OP_MOD: { bool ii = n != 0; pairs([&](const Q& x, const Q& y) { if (!sgn(y) || (ii && (!isint(x) || !isint(y)))) return O(); return O(x - y * truncq(x / y)); }); break; }
  case OP_POW: if (same(b.lo, b.hi) && !b.lo.inf && isint(b.lo.q) && sgn(b.lo.q) >= 0) singles([&](const Q& x) { return abs(x) > pow2(150) ? O() : O(qpow(x, b.lo.q.get_num().get_ui())); }); break;
  case OP_INVPOW: { vector<Q> zs; for (long k = -9; k <= 9; k++) zs.push_back(Q(k)); for (int k = 0; k < 10; k++) { Q w = gnum(g); if (abs(w) < pow2(70)) zs.push_back(w); } for (int k = 0; k < 12; k++) zs.push_back(frac(g.range(-60, 60), 20));
    for (auto& z : zs) if (b.has(z) && a.has(qpow(z, n))) if (!in(z, "its power " + str(Q(qpow(z, n))))) break; break; }
  case OP_MEET: { Itv e; e.lo = xmax(a.lo, b.lo); e.hi = xmin(a.hi, b.hi); ans(e.empty()); if (!e.empty()) best(e); break; }
  case OP_JOIN: { if (a.empty()) { best(b); break; } if (b.empty()) { best(a); break; } Itv e; e.lo = xmin(a.lo, b.lo); e.hi = xmax(a.hi, b.hi); best(e); break; }
  case OP_WIDEN: { if (a.empty()) { best(b); break; } if (b.empty()) { best(a); break; } Itv e; e.lo = cmp(b.lo, a.lo) < 0 ? ninf() : a.lo; e.hi = cmp(b.hi, a.hi) > 0 ? pinf() : a.hi; best(e); break; }
  case OP_ADDNUM: case OP_ADDBOUND: singles([&](const Q& x) { return O(x + cq); }); { Itv e; e.lo = xadd(a.lo, c); e.hi = xadd(a.hi, c); best(e); } break;
  case OP_SUBNUM: case OP_SUBBOUND: singles([&](const Q& x) { return O(x - cq); }); { Itv e; e.lo = xadd(a.lo, neg(c)); e.hi = xadd(a.hi, neg(c)); best(e); } break;
  case OP_MULNUM: case OP_MULBOUND: singles([&](const Q& x) { return O(x * cq); }); { Itv p; p.lo = p.hi = c; best(corners(a, p)); } break;
  case OP_DIVNUM: case OP_DIVBOUND: singles([&](const Q& x) { return O(x / cq); }); { Itv p; p.lo = p.hi = c; best(quot(a, p)); } break;
  case OP_ENLARGE: { Itv e; e.lo = a.lo.inf ? a.lo : c.inf ? ninf() : X(Q(a.lo.q - cq)); e.hi = a.hi.inf ? a.hi : xadd(a.hi, c); best(e); break; }
  case OP_MUL2EXP: { Q f = pow2(n); singles([&](const Q& x) { return O(x * f); }); Itv p; p.lo = p.hi = X(f); best(corners(a, p)); break; }
  case OP_CEIL: case OP_FLOOR: case OP_TRUNC: { auto f = [&](const Q& x) { return op == OP_CEIL ? ceilq(x) : op == OP_FLOOR ? floorq(x) : truncq(x); }; singles([&](const Q& x) { return O(f(x)); });
    Itv e = a; if (!e.lo.inf) e.lo = X(f(a.lo.q)); if (!e.hi.inf) e.hi = X(f(a.hi.q)); best(e); break; }
  case OP_TOINT: singles([](const Q& x) { return O(floorq(x)); }); singles([](const Q& x) { return O(ceilq(x)); }); { Itv e = a; if (!e.lo.inf) e.lo = X(floorq(a.lo.q)); if (!e.hi.inf) e.hi = X(ceilq(a.hi.q)); best(e); } break;
  case OP_TOFLOAT: case OP_TODOUBLE: { bool db = op == OP_TODOUBLE; for (auto m : RN) singles([&](const Q& x) { return rto(x, db, m); }); break; }
  case OP_UNCEIL: case OP_UNFLOOR: case OP_UNTRUNC: case OP_FROMINT: for (auto& x : pa) { Q y = floorq(x); bool go = true; for (int k = 0; k < 6 && go; k++) { Q v = y + frac(g.range(-99, 99), 100);
      bool h = op == OP_UNCEIL ? a.has(ceilq(v)) : op == OP_UNFLOOR ? a.has(floorq(v)) : op == OP_UNTRUNC ? a.has(truncq(v)) : (a.has(ceilq(v)) || a.has(floorq(v))); if (h && (t.k != INT || isint(v))) go = in(v, "an integer it rounds to"); } if (!go) break; } break;
  case OP_FROMFLOAT: case OP_FROMDOUBLE: { bool db = op == OP_FROMDOUBLE; int p = db ? 53 : 24; if (t.k == INT) break;
    for (auto& x0 : pa) { auto y = rto(x0, db, MPFR_RNDN); if (!y) continue; Q e = sgn(*y) ? Q(abs(*y) * pow2(-p)) : db ? pow2(-1075) : pow2(-150); bool go = true;
      for (long k : {-3, -2, -1, 0, 1, 2, 3}) { Q v = *y + e * frac(k, 2) * frac(99, 100); for (auto m : RN) { auto w = rto(v, db, m); if (w && a.has(*w)) { go = in(v, "a floating-point number it rounds to, " + str(*w)); break; } } if (!go) break; } if (!go) break; } break; }
  case OP_SETNUM: { Itv e; e.lo = e.hi = c; best(e); break; }
  case OP_SETNUM2: { Itv e; e.lo = c; e.hi = b.hi; best(e); break; }
  case OP_SETINT: { Itv e; e.lo = e.hi = X(Q(n)); best(e); break; }
  case OP_SETINT2: { Itv e; e.lo = X(Q(n)); e.hi = X(Q(n + 3)); best(e); break; }
  case OP_SETTOP: require(r.top(), K + "/bounds", "is " + str(r)); break;
  case OP_SETBOTTOM: require(r.empty() && code, K + "/bounds", "is " + str(r)); break;
  case OP_SETUNIT: case OP_SETUNITB: { Itv e; e.lo = neg(c); e.hi = c; best(e); break; }
  case OP_SET: best(a); break;
  case OP_SWAP: best(b); require(same(sb.get(), a), K + "/bounds", "the other became " + str(sb.get())); break;
  case OP_CANON: { Itv e = n ? iint(a) : a; ans(e.empty()); if (!e.empty()) best(e); break; }
  case OP_ISTOP: ans(a.top()); break;
  case OP_ISBOTTOM: ans(a.empty()); break;
  case OP_ISPOINT: ans(same(a.lo, a.hi)); break;
  case OP_ISZERO: ans(same(a.lo, X(Q(0))) && same(a.hi, X(Q(0)))); break;
  case OP_ISLEQ: if (!a.empty() || !b.empty() || true) ans(a.empty() || (!b.empty() && cmp(b.lo, a.lo) <= 0 && cmp(a.hi, b.hi) <= 0)); break;
  case OP_ISEQ: ans(same(a, b)); break;
  case OP_ISPOS: ans(xs(a.lo) >= 0); break;
  case OP_ISNEG: ans(xs(a.hi) <= 0); break;
  case OP_ISINT: ans((a.lo.inf || isint(a.lo.q)) && (a.hi.inf || isint(a.hi.q))); break;
  case OP_HASH: if (same(a, b)) ans(true); break;
  case OP_MAGNITUDE: { string s = up(t, srb.get(), xmax(neg(a.lo), a.hi), true); if (!s.empty()) violation(K + "/bounds", s); break; }
  case OP_RANGE: { X e = a.lo.inf || a.hi.inf ? pinf() : X(Q(a.hi.q - a.lo.q)); string s = up(t, srb.get(), e, true); if (!s.empty()) violation(K + "/bounds", s); break; }
  }
}
static Mode M1("nitv", m_nitv);

static const char* BN[] = {"neg","abs","add","sub","mul","div","add_num","sub_num","mul_num","div_num","add_uint","sub_uint","mul_2","div_2","mul_2exp","min","max","floor","ceil","trunc","to_float","to_double","next_float","next_double","set","set_int","set_num",
  "swap","sqrt","pow","root","init_set","serialize","sgn","cmp","cmp_int","cmp_num","equal","integer","infty","hash"};
static void m_nbound(Rng& g, long) {
  const Ty& t = pickty(g); int op = g.below(BO_COUNT); X a = xb(g, t), b = g.chance(15) ? a : xb(g, t); X d = xb(g, t); long n = g.range(0, 9); int alias = g.below(3); bool sq = small(t);
  switch (op) {
  case BO_ADD: if (a.inf && b.inf && a.inf != b.inf) b = a; break;
  case BO_SUB: if (a.inf && b.inf && a.inf == b.inf) b = neg(a); break;
  case BO_DIV: if (a.inf && b.inf) b = X(Q(-2)); break;
  case BO_ADDNUM: case BO_SUBNUM: case BO_MULNUM: case BO_DIVNUM: case BO_SETNUM: case BO_CMPNUM: if (b.inf) b = X(val(g, t)); break;
  case BO_MUL2: case BO_MUL2EXP: n = g.range(-6, 6); if (sq) { n = g.range(-3, 6); a = a.inf ? a : X(Q(abs(a.q))); } break;
  case BO_SQRT: a = a.inf ? pinf() : X(Q(abs(a.q))); break;
  case BO_POW: n = g.range(0, sq ? 3 : 5); if (sq && !a.inf) a = X(t.k == INT ? Q(g.range(-9, 9)) : frac(g.range(-9, 9), g.range(1, 5))); if (!a.inf && (abs(a.q) > pow2(150) || (sgn(a.q) && abs(a.q) < pow2(-150)))) a = X(Q(3)); break;
  case BO_ROOT: n = g.range(1, 5); if (!(n & 1)) a = a.inf ? pinf() : X(Q(abs(a.q))); break;
  case BO_TOFLOAT: case BO_TODOUBLE: case BO_NEXTFLOAT: case BO_NEXTDOUBLE: if (sq) op = BO_CEIL; break;
  case BO_HASH: if (!a.inf && abs(a.q) > pow2(50)) a = X(Q(7)); if (g.chance(60)) b = a; if (!b.inf && abs(b.q) > pow2(50)) b = a; break;
  case BO_EQUAL: case BO_CMP: if (g.chance(30)) b = a; break;
  case BO_CMPINT: n = g.range(-12, 12); break;
  }
  bool bin = (op >= BO_ADD && op <= BO_DIV) || op == BO_MIN || op == BO_MAX;
  if (!bin && alias == 2) alias = 1; if (op >= BO_SWAP) alias = 0; if (op == BO_SETINT || op == BO_SETNUM) alias = 0;
  string nm = string(t.name) + "/" + BN[op]; label(nm); desc(nm + " a=" + str(a) + " b=" + str(b) + " n=" + std::to_string(n) + " alias " + std::to_string(alias) + " old " + str(d)); nontrivial(R().inputs); stat(BN[op]);
  Sx sa(a), sb(b), sd(d), su, sw; int code = 0; int bad = t.bound(op, &su.s, &sw.s, &sa.s, &sb.s, n, alias, &sd.s, &code); const string K = "bound/" + nm; judged();
  if (bad) { violation(K + "/invalid", string("result ") + BAD[bad]); return; }
  if (alias != 1 && !same(sa.get(), a)) violation(K + "/operand", "the first operand became " + str(sa.get()));
  if (alias != 2 && !same(sb.get(), b)) violation(K + "/operand", "the second operand became " + str(sb.get()));
  X r = su.get(), e; bool want = true;
  switch (op) {
  case BO_NEG: e = neg(a); break;
  case BO_ABS: e = xs(a) < 0 ? neg(a) : a; break;
  case BO_ADD: case BO_ADDNUM: e = a.inf ? a : xadd(a, b); break;
  case BO_SUB: case BO_SUBNUM: e = a.inf ? a : xadd(a, neg(b)); break;
  case BO_MUL: case BO_MULNUM: e = xmul(a, b); break;
  case BO_DIV: case BO_DIVNUM: e = xdiv(a, b); break;
  case BO_ADDUINT: e = xadd(a, X(Q(n))); break;
  case BO_SUBUINT: e = xadd(a, X(Q(-n))); break;
  case BO_MUL2: e = xmul(a, X(Q(2))); break;
  case BO_DIV2: e = xdiv(a, X(Q(2))); break;
  case BO_MUL2EXP: e = xmul(a, X(pow2(n))); break;
  case BO_MIN: e = xmin(a, b); break;
  case BO_MAX: e = xmax(a, b); break;
  case BO_FLOOR: e = a.inf ? a : X(floorq(a.q)); break;
  case BO_CEIL: e = a.inf ? a : X(ceilq(a.q)); break;
  case BO_TRUNC: e = a.inf ? a : X(truncq(a.q)); break;
  case BO_SET: case BO_INITSET: case BO_SERIAL: e = a; break;
  case BO_SETINT: e = X(Q(n)); break;
  case BO_SETNUM: e = b; break;
  default: want = false;
  }
  if (want) { judged(); string s = up(t, r, e, true); if (!s.empty()) violation(K + "/value", s); }
  auto ans = [&](int v) { judged(); if ((code > 0) - (code < 0) != v) violation(K + "/answer", "answered " + std::to_string(code) + " instead of " + std::to_string(v)); };
  switch (op) {
  case BO_SERIAL: require(code == 0, K + "/size", "wrote or read another size than announced, code " + std::to_string(code)); break;
  case BO_SWAP: require(same(r, b) && same(sw.get(), a), K + "/value", "became " + str(r) + " and " + str(sw.get())); break;
  case BO_TOFLOAT: case BO_TODOUBLE: { judged(); if (a.inf) { if (!same(r, a)) violation(K + "/value", "became " + str(r)); break; } if (cmp(r, a) < 0) { violation(K + "/value", str(r) + " is below"); break; }
    bool db = op == BO_TODOUBLE; auto w = rto(a.q, db, MPFR_RNDU); if (w && rep(t, *w) && (sgn(a.q) == 0 || abs(a.q) > pow2(db ? -1000 : -120)) && abs(a.q) < pow2(db ? 1000 : 120) && !same(r, X(*w))) violation(K + "/value", str(r) + " instead of " + str(*w)); break; }
  case BO_NEXTFLOAT: case BO_NEXTDOUBLE: { judged(); if (a.inf) { if (!same(r, pinf())) violation(K + "/value", "became " + str(r)); break; } bool db = op == BO_NEXTDOUBLE; auto w = rto(a.q, db, MPFR_RNDU); if (!w) break; Q ul = sgn(*w) ? Q(abs(*w) * pow2(db ? -53 : -24)) : Q(0); X lowest = *w > a.q ? X(*w) : X(Q(*w + ul));
    if (cmp(r, lowest) < 0 || cmp(r, a) <= 0) violation(K + "/value", str(r) + " is not above"); break; }
  case BO_SQRT: case BO_POW: case BO_ROOT: { X lo = sw.get(); judged();
    if (op == BO_POW) { e = X(Q(1)); for (int k = 0; k < n; k++) e = xmul(e, a); if (cmp(lo, e) > 0 || cmp(r, e) < 0) violation(K + "/value", "[" + str(lo) + "," + str(r) + "] misses " + str(e)); break; }
    int k = op == BO_SQRT ? 2 : n; if (a.inf) { if (!same(r, a)) violation(K + "/value", "upper root of an infinite bound: " + str(r)); if (cmp(lo, a) > 0) violation(K + "/value", "lower root " + str(lo)); break; }
    auto pw = [&](const X& v) { return v.inf ? v : X(qpow(v.q, k)); }; // compare v with the root of a, in sign and magnitude
    auto below = [&](const X& v) { if (v.inf) return v.inf < 0; if ((k & 1) == 0 && sgn(v.q) < 0) return true; return cmp(pw(v), a) <= 0; };
    auto above = [&](const X& v) { if (v.inf) return v.inf > 0; if ((k & 1) == 0 && sgn(v.q) < 0) return false; return cmp(pw(v), a) >= 0; };
    if (!below(lo) || !above(r)) violation(K + "/value", "[" + str(lo) + "," + str(r) + "] misses the root of " + str(a)); break; }
  case BO_SGN: ans(xs(a)); break;
  case BO_CMP: ans(cmp(a, b)); break;
  case BO_CMPINT: ans(cmp(a, X(Q(n)))); break;
  case BO_CMPNUM: ans(cmp(a, b)); break;
  case BO_EQUAL: ans(same(a, b)); break;
  case BO_INTEGER: ans(!a.inf && isint(a.q)); break;
  case BO_INFTY: ans(a.inf != 0); break;
  case BO_HASH: if (same(a, b)) ans(1); break;
  }
}
static Mode M2("nbound", m_nbound);

// conversions between the scalars of the interface and the numbers of each type
static const char* CN[] = {"itv_set_ap_scalar","itv_set_ap_interval","itv_set_ap_coeff","ap_interval_set_itv","ap_coeff_set_itv","bound_set_ap_scalar","ap_scalar_set_bound","itv_array_set_ap_interval_array"};
static const char* NN[] = {"set_mpz","set_mpq","set_double","set_mpfr","set_int2","to_int","to_mpz","to_mpq","to_double","to_mpfr","integer","serialize"};
static bool repout(const Ty& t, const Q& v) { if (t.out == AP_SCALAR_MPQ) return true; if (t.out == AP_SCALAR_DOUBLE) return dbl_exact(v); int p = exact_prec(v); Z m = v.get_num(); if (m != 0) m >>= mpz_scan1(m.get_mpz_t(), 0); return mpz_popcount(v.get_den_mpz_t()) == 1 && (int)mpz_sizeinbase(m.get_mpz_t(), 2) <= 53; (void)p; }
static void m_nconv(Rng& g, long) {
  const Ty& t = pickty(g); bool sq = small(t);
  auto any = [&]() { Q v = g.chance(50) ? val(g, t) : wild(g); if (sq) { if (t.k == INT) v = g.chance(50) ? frac(g.range(-9999, 9999), g.range(1, 50)) : val(g, t); else if (!rep(t, v)) v = val(g, t); } if (t.k == FLT && !strcmp(t.name, "D") && abs(v) > pow2(1023)) v = Q(1) / 3; if (t.k == FLT && abs(v) > pow2(1000)) v = Q(1) / 3; if (t.k == FLT && sgn(v) && abs(v) < pow2(-1000)) v = Q(-1) / 7; return v; };
  int code = 0; Itv d = it(g, t); Si sd(d);
  if (g.chance(50)) {
    int op = g.below(CV_COUNT); string nm = string(t.name) + "/" + CN[op]; label(nm); stat(CN[op]); const string K = "conv/" + nm;
    ap_coeff_t* co = ap_coeff_alloc(op == CV_FROM_SCALAR || op == CV_BOUND_FROM || op == CV_BOUND_TO || (op == CV_FROM_COEFF && g.chance(50)) || (op == CV_TO_COEFF && g.chance(50)) ? AP_COEFF_SCALAR : AP_COEFF_INTERVAL);
    Itv v; auto put = [&](ap_scalar_t* s, X& x, bool fin) { x = !fin && g.chance(15) ? X(g.chance(50) ? 1 : -1, 0) : X(any()); ap_scalar_t* m = mks(g, x); ap_scalar_set(s, m); if (m->discr == AP_SCALAR_MPFR && s->discr == AP_SCALAR_MPFR) {} x = xscalar(s); ap_scalar_free(m); };
    bool from = op == CV_FROM_SCALAR || op == CV_FROM_INTERVAL || op == CV_FROM_COEFF || op == CV_BOUND_FROM || op == CV_ARRAY;
    if (from) { if (co->discr == AP_COEFF_SCALAR) { put(co->val.scalar, v.lo, op != CV_BOUND_FROM); v.hi = v.lo; } else { put(co->val.interval->inf, v.lo, false); put(co->val.interval->sup, v.hi, false); if (v.lo.inf > 0) v.lo = ninf(), ap_scalar_set_infty(co->val.interval->inf, -1); if (v.hi.inf < 0) { v.hi = pinf(); ap_scalar_set_infty(co->val.interval->sup, 1); } } }
    else { X x = xb(g, t); v = it(g, t); if (g.chance(40)) { if (v.hi.inf) v.hi = X(val(g, t)); v.lo = v.hi; } if (op == CV_BOUND_TO) { v.lo = v.hi = x; } }
    desc(nm + " " + str(v)); nontrivial(R().inputs);
    Si sv(v); int bad = t.conv(op, &sv.s, co, &sd.s, &code); judged();
    if (bad) violation(K + "/invalid", string("result ") + BAD[bad]);
    else if (from) { Itv r = sv.get(); bool ok = true, ex = true;
      if (cmp(r.hi, v.hi) < 0 || (op != CV_BOUND_FROM && cmp(r.lo, v.lo) > 0)) { ok = false; violation(K + "/lost", str(r) + " does not cover " + str(v)); }
      ex = op == CV_BOUND_FROM ? same(r.hi, v.hi) : same(r, v);
      bool fits = (v.hi.inf || rep(t, v.hi.q)) && (v.lo.inf || rep(t, v.lo.q));
      require(!ok || (code != 0) == ex, K + "/exact", string("claims to be ") + (code ? "exact" : "inexact") + ": " + str(r));
      require(!ok || !fits || ex, K + "/value", str(r) + " although " + str(v) + " is representable"); }
    else { Itv r; if (op == CV_TO_COEFF) { if (co->discr == AP_COEFF_SCALAR) r.lo = r.hi = xscalar(co->val.scalar); else { r.lo = xscalar(co->val.interval->inf); r.hi = xscalar(co->val.interval->sup); } } else if (op == CV_BOUND_TO) r.lo = r.hi = xscalar(co->val.scalar); else { r.lo = xscalar(co->val.interval->inf); r.hi = xscalar(co->val.interval->sup); }
      bool ok = cmp(r.hi, v.hi) >= 0 && (op == CV_BOUND_TO || cmp(r.lo, v.lo) <= 0); require(ok, K + "/lost", str(r) + " does not cover " + str(v));
      bool ex = op == CV_BOUND_TO ? same(r.hi, v.hi) : same(r, v), fits = (v.hi.inf || repout(t, v.hi.q)) && (v.lo.inf || repout(t, v.lo.q));
      require(!ok || !code || ex, K + "/exact", "claims to be exact: " + str(r)); require(!ok || !fits || (ex && code), K + "/value", str(r) + " although " + str(v) + " is representable");
      require(op == CV_BOUND_TO || same(sv.get(), v), K + "/operand", "the operand became " + str(sv.get())); }
    ap_coeff_free(co); return;
  }
  int op = g.below(NU_COUNT); string nm = string(t.name) + "/" + NN[op]; label(nm); stat(NN[op]); const string K = "num/" + nm; long li = 0;
  Q a = op >= NU_TOINT ? val(g, t) : any();
  switch (op) {
  case NU_SETMPZ: a = floorq(a); if (t.k == FLT && abs(a) > pow2(1000)) a = 7; break;
  case NU_SETDOUBLE: if (abs(a) > pow2(1000)) a = 9; a = qd(mpq_get_d(a.get_mpq_t())); if (sq && t.k == RAT && !rep(t, a)) a = frac(g.range(-99, 99), 8); if (!dbl_exact(a)) a = 5; break;
  case NU_SETMPFR: if (!exact_prec(a) || exact_prec(a) > 300) a = frac(g.range(-99999, 99999), 1024); break;
  case NU_SETINT2: a = frac(g.range(-9999, 9999), g.range(1, 999)); break;
  case NU_TOINT: if (abs(a) > pow2(60)) a = 12; break;
  case NU_TOMPFR: li = g.range(2, 120); break;
  case NU_TODOUBLE: if (abs(a) > pow2(1000)) a = Q(rep(t, frac(-9, 2)) ? frac(-9, 2) : Q(-9)); break;
  }
  if (abs(a) > pow2(1000) && t.k == FLT) a = 3; if (op >= NU_TOINT && !strcmp(t.name, "Dl") && sgn(a) && abs(a) < pow2(-1000)) a = 3;
  desc(nm + " " + str(a) + " " + std::to_string(li)); nontrivial(R().inputs); Q r, in = a; int bad = t.num(op, in.get_mpq_t(), r.get_mpq_t(), &li, &code); judged();
  if (bad) { violation(K + "/invalid", string("result ") + BAD[bad]); return; }
  if (op == NU_TOINT) r = Q(li);
  if (op == NU_INTEGER) { require((code != 0) == isint(a), K + "/answer", code ? "yes" : "no"); return; }
  if (op == NU_SERIAL) { require(code == 0 && r == a, K + "/value", "became " + str(r) + ", code " + std::to_string(code)); return; }
  require(r >= a, K + "/below", str(r) + " is below"); if (r < a) return;
  require((code != 0) == (r == a), K + "/exact", string("claims to be ") + (code ? "exact" : "inexact") + ": " + str(r));
  if (op == NU_TOINT || op == NU_TOMPZ) require(r - a < 1 || (!strcmp(t.name, "Dl") && op == NU_TOMPZ), K + "/value", str(r) + " is far from it");
  if (op <= NU_SETINT2 && rep(t, a)) require(r == a, K + "/value", str(r) + " although it is representable");
}
static Mode M3("nconv", m_nconv);

#include <fcntl.h>
#include <unistd.h>
#define ALL(f) f##_D(), f##_Dl(), f##_MPQ(), f##_MPZ(), f##_MPFR(), f##_Rl(), f##_Rll(), f##_Il(), f##_Ill()
int main(int argc, char** argv) {
  int e = dup(2), n = open("/dev/null", O_WRONLY); dup2(n, 2); ALL(shim_start); dup2(e, 2); close(e); close(n); // the constants of the native integer types overflow
  int r = harness_main(argc, argv); ALL(shim_done); return r; }
