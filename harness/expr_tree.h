// Tree expressions and constraints against trees.
#pragma once
struct TT; typedef std::shared_ptr<TT> TTP;
struct TT { int kind = 0; CV c; unsigned d = 0; ap_texpr_op_t op = AP_TEXPR_ADD; ap_texpr_rtype_t ty = AP_RTYPE_REAL; ap_texpr_rdir_t dir = AP_RDIR_RND; TTP a, b; };
static TTP ttc(const CV& c) { TTP t(new TT); t->c = c; return t; }
static TTP ttd(unsigned d) { TTP t(new TT); t->kind = 1; t->d = d; return t; }
static TTP ttn(ap_texpr_op_t op, ap_texpr_rtype_t ty, ap_texpr_rdir_t dir, TTP a, TTP b) { TTP t(new TT); t->kind = 2; t->op = op; t->ty = ty; t->dir = dir; t->a = a; t->b = b; return t; }
static string str(const TTP& t) {
  if (t->kind == 0) return str(t->c); if (t->kind == 1) return "x" + std::to_string(t->d);
  static const char* on[] = {"+", "-", "*", "/", "%", "^", "neg", "cast", "sqrt"}; string s = string("_") + std::to_string(t->ty) + "," + std::to_string(t->dir);
  if (binop(t->op)) return "(" + str(t->a) + on[t->op] + s + " " + str(t->b) + ")"; return string(on[t->op]) + s + "(" + str(t->a) + ")"; }
static const vector<ap_texpr_op_t> UN = {AP_TEXPR_NEG, AP_TEXPR_CAST, AP_TEXPR_SQRT}, BIN = {AP_TEXPR_ADD, AP_TEXPR_SUB, AP_TEXPR_MUL, AP_TEXPR_DIV, AP_TEXPR_MOD, AP_TEXPR_POW};
static const vector<ap_texpr_rtype_t> TY = {AP_RTYPE_REAL, AP_RTYPE_INT, AP_RTYPE_SINGLE, AP_RTYPE_DOUBLE, AP_RTYPE_EXTENDED, AP_RTYPE_QUAD};
static const vector<ap_texpr_rdir_t> DIR = {AP_RDIR_NEAREST, AP_RDIR_ZERO, AP_RDIR_UP, AP_RDIR_DOWN, AP_RDIR_RND};
static TTP gtt(Rng& g, size_t n, int depth, int shape) { // shape: 0 anything, 1 mostly exact and linear, 2 mostly exact and polynomial or fractional
  if (depth == 0 || g.chance(shape ? 12 : 18)) return n && g.chance(60) ? ttd(g.below(n)) : ttc(glc(g));
  ap_texpr_rtype_t ty = g.chance(shape ? 2 : 45) ? g.pick(TY) : AP_RTYPE_REAL; ap_texpr_rdir_t dir = g.pick(DIR); if (ty == AP_RTYPE_REAL && g.chance(60)) dir = AP_RDIR_RND;
  auto s = [&]() { return gtt(g, n, depth - 1, shape); }; auto k = [&]() { return gtt(g, g.chance(95) ? 0 : n, g.below(2), shape); };
  if (!shape) return g.chance(30) ? ttn(g.pick(UN), ty, dir, s(), nullptr) : ttn(g.pick(BIN), ty, dir, s(), s());
  int r = g.below(100); if (r < 10) return ttn(AP_TEXPR_NEG, ty, dir, s(), nullptr); if (r < 20) return ttn(AP_TEXPR_CAST, ty, dir, s(), nullptr); if (r < 60) return ttn(g.chance(50) ? AP_TEXPR_ADD : AP_TEXPR_SUB, ty, dir, s(), s());
  if (r < 96 && shape == 1) return r < 88 ? (g.chance(50) ? ttn(AP_TEXPR_MUL, ty, dir, k(), s()) : ttn(AP_TEXPR_MUL, ty, dir, s(), k())) : ttn(AP_TEXPR_DIV, ty, dir, s(), k());
  if (r < 78) return ttn(AP_TEXPR_MUL, ty, dir, s(), s()); if (r < 84) return ttn(AP_TEXPR_DIV, ty, dir, s(), k()); if (r < 90 && shape == 2) return ttn(AP_TEXPR_DIV, ty, dir, s(), s());
  if (r < 97) { CV e; e.v = pt_itv(Q(g.range(0, 4))); return ttn(AP_TEXPR_POW, ty, dir, s(), ttc(e)); } return ttn(g.pick(BIN), ty, dir, s(), s()); }
static ap_texpr0_t* build(Rng& g, const TTP& t) {
  if (t->kind == 0) { ap_coeff_t* c = mkc(g, t->c); ap_texpr0_t* r = ap_texpr0_cst(c); ap_coeff_free(c); return r; } if (t->kind == 1) return ap_texpr0_dim(t->d);
  if (binop(t->op)) { ap_texpr0_t* x = build(g, t->a); return ap_texpr0_binop(t->op, x, build(g, t->b), t->ty, t->dir); } return ap_texpr0_unop(t->op, build(g, t->a), t->ty, t->dir); }
static TTP rdt(ap_texpr0_t* e) { if (!e) return nullptr;
  switch (e->discr) { case AP_TEXPR_CST: return ttc(rdc(&e->val.cst)); case AP_TEXPR_DIM: return ttd(e->val.dim);
  case AP_TEXPR_NODE: { TTP a = rdt(e->val.node->exprA), b = rdt(e->val.node->exprB); if (!a || (b != nullptr) != binop(e->val.node->op)) return nullptr; return ttn(e->val.node->op, e->val.node->type, e->val.node->dir, a, b); } } return nullptr; }
static bool sametree(const TTP& a, const TTP& b) { if (a->kind != b->kind) return false; if (a->kind == 0) return same(a->c, b->c); if (a->kind == 1) return a->d == b->d; return a->op == b->op && a->ty == b->ty && a->dir == b->dir && sametree(a->a, b->a) && (!binop(a->op) || sametree(a->b, b->b)); }
static void ist(const string& key, ap_texpr0_t* e, const TTP& m) { judged(); if (!e) { violation(key, "NULL"); return; } TTP r = rdt(e); if (!r) violation(key, "malformed tree"); else if (!sametree(r, m)) violation(key, "tree is " + str(r) + " instead of " + str(m)); }
static void isfree(const string& key, ap_texpr0_t* e, const TTP& m) { ist(key, e, m); if (e) ap_texpr0_free(e); }
// measures
static size_t tdepth(const TTP& t) { if (t->kind != 2) return 0; return 1 + std::max(tdepth(t->a), t->b ? tdepth(t->b) : (size_t)0); }
static size_t tsize(const TTP& t) { if (t->kind != 2) return 0; return 1 + tsize(t->a) + (t->b ? tsize(t->b) : 0); }
static void tdims(const TTP& t, std::set<unsigned>& s) { if (t->kind == 1) s.insert(t->d); if (t->kind == 2) { tdims(t->a, s); if (t->b) tdims(t->b, s); } }
static bool tconst(const TTP& t) { std::set<unsigned> s; tdims(t, s); return s.empty(); }
static bool tscalar(const TTP& t) { if (t->kind == 0) return !t->c.itv || eqx(t->c.v.lo, t->c.v.hi); if (t->kind == 1) return true; return tscalar(t->a) && (!t->b || tscalar(t->b)); }
static bool texact(const TTP& t) { return t->ty == AP_RTYPE_REAL || t->op == AP_TEXPR_NEG || t->op == AP_TEXPR_MOD; } // no rounding happens at the node
static bool arith(const TTP& t) { if (t->kind != 2) return true; if (!texact(t)) return false; switch (t->op) { case AP_TEXPR_ADD: case AP_TEXPR_SUB: case AP_TEXPR_MUL: case AP_TEXPR_DIV: return arith(t->a) && arith(t->b); case AP_TEXPR_NEG: case AP_TEXPR_CAST: return arith(t->a); default: return false; } }
static bool smallint(const TTP& t) { return t->kind == 0 && !t->c.itv && !t->c.v.lo.inf && isint(t->c.v.lo.q) && sgn(t->c.v.lo.q) >= 0; }
// cls: 1 linear, 2 polynomial, 3 fraction. strict: coefficients are built from constants without rounding; otherwise any expression without dimension is a coefficient
static bool tclass(const TTP& t, int cls, bool strict) {
  if (t->kind != 2) return true; if (!strict && tconst(t)) return true; auto coef = [&](const TTP& x) { return tconst(x) && (!strict || arith(x)); }; auto rec = [&](const TTP& x) { return tclass(x, cls, strict); };
  if (!texact(t)) return false;
  switch (t->op) {
  case AP_TEXPR_NEG: case AP_TEXPR_CAST: return rec(t->a);
  case AP_TEXPR_ADD: case AP_TEXPR_SUB: return rec(t->a) && rec(t->b);
  case AP_TEXPR_MUL: return rec(t->a) && rec(t->b) && (cls > 1 || coef(t->a) || coef(t->b));
  case AP_TEXPR_DIV: return rec(t->a) && (cls > 2 ? rec(t->b) : coef(t->b));
  case AP_TEXPR_POW: return cls > 1 && rec(t->a) && (strict ? smallint(t->b) : tconst(t->b));
  default: return false; } }
static TTP tsubst(const TTP& t, unsigned d, const TTP& by) { if (t->kind == 0) return t; if (t->kind == 1) return t->d == d ? by : t; return ttn(t->op, t->ty, t->dir, tsubst(t->a, d, by), t->b ? tsubst(t->b, d, by) : nullptr); }
static TTP tmap(const TTP& t, const std::function<TTP(unsigned)>& f) { if (t->kind == 0) return t; if (t->kind == 1) return f(t->d); return ttn(t->op, t->ty, t->dir, tmap(t->a, f), t->b ? tmap(t->b, f) : nullptr); }
static TTP ttop() { CV c; c.itv = true; c.v = Itv(); return ttc(c); }
static DC grem(Rng& g, size_t I, size_t N) { DC c; for (size_t i = 0; i < N; i++) if (g.chance(30)) { c.dim.push_back(i); (i < I ? c.I : c.R)++; } return c; }
static TTP remt(const DC& c, const TTP& t) { return tmap(t, [&](unsigned d) { unsigned k = 0; for (unsigned x : c.dim) { if (x == d) return ttop(); if (x < d) k++; } return ttd(d - k); }); }
static TTP addt(const DC& c, const TTP& t) { return tmap(t, [&](unsigned d) { return ttd(addd(c, d)); }); }
static TTP permt(const vector<unsigned>& p, const TTP& t) { return tmap(t, [&](unsigned d) { return ttd(p[d]); }); }
// the linear form of a comb: sums of constants, dimensions and products of a constant and a dimension, all exact
static bool comb(const TTP& t, VL& out) {
  auto addc = [&](CV& to, const CV& c) { if (czero(c)) return true; if (!czero(to)) return false; to = c; return true; };
  if (t->kind == 0) return addc(out.k, t->c); if (t->kind == 1) { CV one; one.v = pt_itv(1); return addc(out.t[t->d], one); }
  if (t->ty != AP_RTYPE_REAL) return false; if (t->op == AP_TEXPR_ADD) return comb(t->a, out) && comb(t->b, out);
  if (t->op == AP_TEXPR_MUL) { TTP a = t->a, b = t->b; if (a->kind == 1) std::swap(a, b); return a->kind == 0 && b->kind == 1 && addc(out.t[b->d], a->c); } return false; }
static bool comblike(ap_texpr0_t* e, const VL& m, string& why) { TTP t = rdt(e); if (!t) { why = "malformed"; return false; } VL l; if (!comb(t, l)) { why = str(t) + " is not a sum of distinct terms"; return false; } if (!leq(l, m)) { why = str(t) + " is not " + str(m); return false; } return true; }
static void isclass(const string& key, const vector<TTP>& v, std::function<bool()> cst, std::function<bool()> lin, std::function<bool()> poly, std::function<bool()> frac_, std::function<bool()> sc) {
  auto two = [&](const char* nm, int cls, bool r) { bool s = true, l = true; for (auto& t : v) { s = s && tclass(t, cls, true); l = l && tclass(t, cls, false); } judged(); if (s && !r) violation(key + "/" + nm, "not recognised"); if (!l && r) violation(key + "/" + nm, "wrongly claimed"); stat(string(nm) + (r ? "-yes" : "-no")); };
  if (cst) { bool c = true; for (auto& t : v) c = c && tconst(t); require(cst() == c, key + "/is_interval_cst", ""); } if (lin) two("is_interval_linear", 1, lin()); if (poly) two("is_interval_polynomial", 2, poly()); if (frac_) two("is_interval_polyfrac", 3, frac_());
  if (sc) { bool c = true; for (auto& t : v) c = c && tscalar(t); require(sc() == c, key + "/is_scalar", ""); } }

static const vector<ap_constyp_t>& CTT = CT;
struct VT { TTP e; ap_constyp_t op; bool mod; Q m; };
static VT gvt(Rng& g, size_t n, int depth = 3) { VT c; c.e = gtt(g, n, depth, g.below(3)); c.op = g.pick(CTT); c.mod = c.op == AP_CONS_EQMOD; c.m = Q(g.range(1, 5)); return c; }
static ap_tcons0_t build(Rng& g, const VT& c) { return ap_tcons0_make(c.op, build(g, c.e), c.mod ? mks(g, X(c.m)) : nullptr); }
static void isvt(const string& key, ap_tcons0_t* c, const VT& m) { ist(key, c->texpr0, m.e); if (c->constyp != m.op) violation(key + "/type", string("type ") + opname(c->constyp)); if ((c->scalar != nullptr) != m.mod) violation(key + "/modulo", "modulo missing or added"); else if (m.mod) isv(key + "/modulo", c->scalar, X(m.m)); }
static VT with(const VT& c, TTP e) { VT r = c; r.e = e; return r; }

// a constant built by each constructor; f chooses it, the same list serves the environment level
struct KC { int w; Q p, q; long i, j; unsigned long k, l; double x, y; mpfr_t m, n; CV c, s;
  KC(Rng& g) { w = g.below(14); p = wild(g); q = wild(g); i = g.range(-50, 50); j = g.range(-50, 50); k = g.range(1, 9); l = g.range(1, 9); x = mpq_get_d(p.get_mpq_t()); y = mpq_get_d(q.get_mpq_t()); if (!std::isfinite(x)) x = 1; if (!std::isfinite(y)) y = 2; mpfr_init2(m, 100); mpfr_init2(n, 30); mpfr_set_q(m, p.get_mpq_t(), MPFR_RNDN); mpfr_set_q(n, q.get_mpq_t(), MPFR_RNDN); c = gcv(g); s = gcv(g); s.itv = false; s.v.hi = s.v.lo; }
  ~KC() { mpfr_clear(m); mpfr_clear(n); } KC(const KC&) = delete;
  CV model() { CV r; Q a, b; auto one = [&](const Q& v) { r.v = pt_itv(v); return r; }; auto two = [&](const Q& v, const Q& u) { r.itv = true; r.v = mk_itv(X(v), X(u)); return r; }; auto fr = [](long n_, unsigned long d_) { Z a_(n_), b_(d_); Q v(a_, b_); v.canonicalize(); return v; };
    switch (w) { case 0: return c; case 1: return s; case 2: return one(p); case 3: mpfr_get_q(a.get_mpq_t(), m); return one(a); case 4: return one(Q(i)); case 5: return one(fr(i, k)); case 6: return one(qd(x));
    case 7: r.itv = true; r.v = c.v; return r; case 8: r.itv = true; r.v = mk_itv(s.v.lo, c.v.hi); return r; case 9: return two(p, q); case 10: mpfr_get_q(a.get_mpq_t(), m); mpfr_get_q(b.get_mpq_t(), n); return two(a, b); case 11: return two(Q(i), Q(j)); case 12: if (i & 1) return two(fr(i, k), fr(j, l)); return two(qd(x), qd(y)); default: r.itv = true; r.v = Itv(); return r; } }
};
#define KCONS(K, g, RES, PRE, ...) do { ap_coeff_t* _c = mkc(g, (K).c); ap_scalar_t *_s = mks(g, (K).s.v.lo), *_h = mks(g, (K).c.v.hi); ap_interval_t* _i = mki(g, (K).c.v); \
  switch ((K).w) { case 0: RES = PRE(__VA_ARGS__ _c); break; case 1: RES = PRE##_scalar(__VA_ARGS__ _s); break; case 2: RES = PRE##_scalar_mpq(__VA_ARGS__ (K).p.get_mpq_t()); break; case 3: RES = PRE##_scalar_mpfr(__VA_ARGS__ (K).m); break; case 4: RES = PRE##_scalar_int(__VA_ARGS__ (K).i); break; case 5: RES = PRE##_scalar_frac(__VA_ARGS__ (K).i, (K).k); break; case 6: RES = PRE##_scalar_double(__VA_ARGS__ (K).x); break; \
  case 7: RES = PRE##_interval(__VA_ARGS__ _i); break; case 8: RES = PRE##_interval_scalar(__VA_ARGS__ _s, _h); break; case 9: RES = PRE##_interval_mpq(__VA_ARGS__ (K).p.get_mpq_t(), (K).q.get_mpq_t()); break; case 10: RES = PRE##_interval_mpfr(__VA_ARGS__ (K).m, (K).n); break; case 11: RES = PRE##_interval_int(__VA_ARGS__ (K).i, (K).j); break; \
  case 12: if ((K).i & 1) RES = PRE##_interval_frac(__VA_ARGS__ (K).i, (K).k, (K).j, (K).l); else RES = PRE##_interval_double(__VA_ARGS__ (K).x, (K).y); break; default: RES = top_of(__VA_ARGS__ 0); } ap_coeff_free(_c); ap_scalar_free(_s); ap_scalar_free(_h); ap_interval_free(_i); } while (0)
static ap_texpr0_t* top_of(int) { return ap_texpr0_cst_interval_top(); }
static ap_texpr1_t* top_of(ap_environment_t* e, int) { return ap_texpr1_cst_interval_top(e); }

static void m_texpr(Rng& g, long) {
  size_t n = g.range(0, 6), I = g.below(n + 1); TTP ta = gtt(g, n, g.range(0, 5), g.below(3)); ap_texpr0_t* a = build(g, ta); desc("a=" + str(ta) + " over " + std::to_string(I) + "+" + std::to_string(n - I)); if (ta->kind == 2) nontrivial(R().inputs); ist("texpr/build", a, ta);
  std::set<unsigned> ds; tdims(ta, ds); DC ch = gadd(g, I, n), rm = grem(g, I, n); vector<unsigned> pm = gperm(g, n); ap_dimchange_t *dc = ch.make(), *dr = rm.make(); ap_dimperm_t* dp = mkp(pm);
  switch (g.below(8)) {
  case 0: { label("texpr/constants"); KC k(g); ap_texpr0_t* r; KCONS(k, g, r, ap_texpr0_cst, ); isfree("texpr/cst/" + std::to_string(k.w), r, ttc(k.model())); r = ap_texpr0_dim(3); isfree("texpr/dim", r, ttd(3)); break; }
  case 1: { label("texpr/copy"); ap_texpr0_t* c = ap_texpr0_copy(a); ist("texpr/copy", c, ta); require(c != a && (c->discr != AP_TEXPR_NODE || c->val.node != a->val.node), "texpr/copy/shared", "shares its node"); ap_texpr0_free(a); ist("texpr/copy/independent", c, ta); a = c;
    if (ta->kind == 2 && binop(ta->op)) { ap_texpr0_t* r = ap_texpr0_node(ta->op, ta->ty, ta->dir, build(g, ta->a), build(g, ta->b)); isfree("texpr/node", r, ta); } require(!ap_texpr0_copy(nullptr), "texpr/copy/null", "not NULL"); break; }
  case 2: { label("texpr/measures"); require(ap_texpr0_depth(a) == tdepth(ta), "texpr/depth", std::to_string(ap_texpr0_depth(a)) + " instead of " + std::to_string(tdepth(ta))); require(ap_texpr0_size(a) == tsize(ta), "texpr/size", std::to_string(ap_texpr0_size(a)) + " instead of " + std::to_string(tsize(ta)));
    require(ap_texpr0_max_dim(a) == (ds.empty() ? 0 : *ds.rbegin() + 1), "texpr/max_dim", std::to_string(ap_texpr0_max_dim(a))); for (unsigned d = 0; d < n + 2; d++) require(ap_texpr0_has_dim(a, d) == (ds.count(d) > 0), "texpr/has_dim", std::to_string(d));
    ap_dim_t* l = ap_texpr0_dimlist(a); size_t i = 0; bool ok = true; for (unsigned d : ds) if (!(ok = ok && l[i++] == d)) break; require(ok && l[i] == AP_DIM_MAX, "texpr/dimlist", "wrong list"); free(l); break; }
  case 3: { label("texpr/class"); isclass("texpr", {ta}, [&] { return ap_texpr0_is_interval_cst(a); }, [&] { return ap_texpr0_is_interval_linear(a); }, [&] { return ap_texpr0_is_interval_polynomial(a); }, [&] { return ap_texpr0_is_interval_polyfrac(a); }, [&] { return ap_texpr0_is_scalar(a); });
    vector<TTP> v = {ta}; vector<ap_texpr0_t*> p = {a}; int sh = g.below(3); for (int k = g.below(3); k > 0; k--) { v.push_back(gtt(g, n, 3, sh)); p.push_back(build(g, v.back())); } size_t s = g.chance(10) ? 0 : v.size(); vector<TTP> w(v.begin(), v.begin() + s); isclass("texpr_array", w, nullptr, [&] { return ap_texpr0_array_is_interval_linear(p.data(), s); }, [&] { return ap_texpr0_array_is_interval_polynomial(p.data(), s); }, [&] { return ap_texpr0_array_is_interval_polyfrac(p.data(), s); }, [&] { return ap_texpr0_array_is_scalar(p.data(), s); }); for (size_t i = 1; i < p.size(); i++) ap_texpr0_free(p[i]); break; }
  case 4: { label("texpr/substitute"); unsigned d = g.below(n + 1); TTP by = g.chance(15) ? ta : gtt(g, n, 2, g.below(3)); ap_texpr0_t* b = build(g, by); TTP m = tsubst(ta, d, by); desc("x" + std::to_string(d) + " := " + str(by)); ap_texpr0_t* r = ap_texpr0_substitute(a, d, b); ist("texpr/substitute", r, m); ist("texpr/substitute/argument", a, ta); ist("texpr/substitute/by", b, by);
    ap_texpr0_substitute_with(a, d, b); ta = m; ist("texpr/substitute_with", a, m); ist("texpr/substitute_with/by", b, by); ap_texpr0_free(b); ist("texpr/substitute/copies", r, m); ap_texpr0_free(r); break; }
  case 5: { label("texpr/dimensions"); int w = g.below(3); TTP m = w == 0 ? addt(ch, ta) : w == 1 ? remt(rm, ta) : permt(pm, ta); const char* nm = w == 0 ? "add" : w == 1 ? "remove" : "permute"; desc(string(nm) + " " + (w == 0 ? str(ch.dim) : w == 1 ? str(rm.dim) : str(pm))); ap_texpr0_t* r = w == 0 ? ap_texpr0_add_dimensions(a, dc) : w == 1 ? ap_texpr0_remove_dimensions(a, dr) : ap_texpr0_permute_dimensions(a, dp); isfree(string("texpr/") + nm + "_dimensions", r, m); ist(string("texpr/") + nm + "_dimensions/argument", a, ta);
    if (w == 0) ap_texpr0_add_dimensions_with(a, dc); else if (w == 1) ap_texpr0_remove_dimensions_with(a, dr); else ap_texpr0_permute_dimensions_with(a, dp); ta = m; ist(string("texpr/") + nm + "_dimensions_with", a, m);
    if (w == 0) { ap_dimchange_t* inv = dc; ap_dimchange_add_invert(inv); ap_texpr0_t* back = ap_texpr0_remove_dimensions(a, inv); TTP orig = tmap(m, [&](unsigned d) { unsigned k = 0; for (unsigned e = 0; e <= n; e++) if (addd(ch, e) == d) k = e; return ttd(k); }); isfree("texpr/add_invert", back, orig); } break; }
  case 6: { label("texpr/equal"); TTP tb = g.chance(50) ? ta : gtt(g, n, 3, g.below(3)); if (g.chance(40)) { // one small change somewhere
      std::function<TTP(const TTP&)> mut = [&](const TTP& t) -> TTP { if (t->kind == 0) { CV c = t->c; if (g.chance(40)) { c.itv = true; } else c = glc(g); return ttc(c); } if (t->kind == 1) return ttd(t->d + 1); int r = g.below(6); if (r == 0) return ttn(t->op, g.pick(TY), t->dir, t->a, t->b); if (r == 1) return ttn(t->op, t->ty, g.pick(DIR), t->a, t->b); if (r == 2) return ttn(g.pick(t->b ? BIN : UN), t->ty, t->dir, t->a, t->b); if (r == 3 && t->b) return ttn(t->op, t->ty, t->dir, t->b, t->a); if (t->b && g.chance(50)) return ttn(t->op, t->ty, t->dir, t->a, mut(t->b)); return ttn(t->op, t->ty, t->dir, mut(t->a), t->b); }; tb = mut(tb); }
    ap_texpr0_t* b = build(g, tb); desc("b=" + str(tb)); bool e = sametree(ta, tb); stat(e ? "equal" : "different"); require(ap_texpr0_equal(a, b) == e, "texpr/equal", "equal should be " + std::to_string(e)); require(ap_texpr0_equal(b, a) == e, "texpr/equal/symmetric", "equal should be " + std::to_string(e)); require(ap_texpr0_equal(nullptr, nullptr) && !ap_texpr0_equal(a, nullptr) && !ap_texpr0_equal(nullptr, a), "texpr/equal/null", "");
    if (e) { long h = ap_texpr0_hash(a), k = ap_texpr0_hash(b); require(h == k, "texpr/hash", "equal expressions have hashes " + std::to_string(h) + " and " + std::to_string(k)); } else (void)ap_texpr0_hash(b); ap_texpr0_free(b); break; }
  default: { // linear expressions, constraints
    int w = g.below(3);
    if (w == 0) { label("texpr/from_linexpr"); VL l = gvl(g, n); ap_linexpr0_t* e = build(g, l); ap_texpr0_t* r = ap_texpr0_from_linexpr0(e); string why; judged(); if (!comblike(r, l, why)) violation("texpr/from_linexpr", why); ap_texpr0_free(r); isl("texpr/from_linexpr/argument", e, l); ap_linexpr0_free(e); VC c = gvc(g, n); ap_lincons0_t lc = build(g, c); ap_tcons0_t t = ap_tcons0_from_lincons0(&lc); judged(); if (!comblike(t.texpr0, c.e, why)) violation("tcons/from_lincons", why); if (t.constyp != c.op || (t.scalar != nullptr) != c.mod) violation("tcons/from_lincons/type", "type or modulo changed"); else if (c.mod) { isv("tcons/from_lincons/modulo", t.scalar, X(c.m)); require(t.scalar != lc.scalar, "tcons/from_lincons/shared", "modulo shared"); } ap_lincons0_clear(&lc); ap_tcons0_clear(&t); }
    else if (w == 1) { label("tcons"); VT v = gvt(g, n); ap_tcons0_t c = build(g, v), d = ap_tcons0_copy(&c); isvt("tcons/make", &c, v); isvt("tcons/copy", &d, v); require(d.texpr0 != c.texpr0 && (!d.scalar || d.scalar != c.scalar), "tcons/copy/shared", "");
      isclass("tcons", {v.e}, [&] { return ap_tcons0_is_interval_cst(&c); }, [&] { return ap_tcons0_is_interval_linear(&c); }, [&] { return ap_tcons0_is_interval_polynomial(&c); }, [&] { return ap_tcons0_is_interval_polyfrac(&c); }, [&] { return ap_tcons0_is_scalar(&c); }); int k = g.below(3); ap_tcons0_t r = k == 0 ? ap_tcons0_add_dimensions(&c, dc) : k == 1 ? ap_tcons0_remove_dimensions(&c, dr) : ap_tcons0_permute_dimensions(&c, dp); VT m = with(v, k == 0 ? addt(ch, v.e) : k == 1 ? remt(rm, v.e) : permt(pm, v.e)); string kk = k == 0 ? "add" : k == 1 ? "remove" : "permute"; isvt("tcons/" + kk, &r, m); isvt("tcons/" + kk + "/argument", &c, v); if (k == 0) ap_tcons0_add_dimensions_with(&c, dc); else if (k == 1) ap_tcons0_remove_dimensions_with(&c, dr); else ap_tcons0_permute_dimensions_with(&c, dp); isvt("tcons/" + kk + "_with", &c, m);
      ap_tcons0_clear(&c); require(!c.texpr0 && !c.scalar, "tcons/clear", "pointers remain"); isvt("tcons/copy/independent", &d, v); ap_tcons0_clear(&d); ap_tcons0_clear(&r); ap_tcons0_t u = ap_tcons0_make_unsat(); TTP t = rdt(u.texpr0); judged(); if (!t || t->kind != 0 || t->c.itv || t->c.v.lo.inf || (u.constyp == AP_CONS_SUPEQ || u.constyp == AP_CONS_SUP ? sgn(t->c.v.lo.q) >= 0 : true)) violation("tcons/make_unsat", "satisfiable"); ap_tcons0_clear(&u); }
    else { label("tcons_array"); size_t s = g.below(4); vector<VT> v; ap_tcons0_array_t t = ap_tcons0_array_make(s); int sh = g.below(3); for (size_t i = 0; i < s; i++) { require(!t.p[i].texpr0 && !t.p[i].scalar, "tcons_array/make", "not NULL"); v.push_back(gvt(g, n, 2)); if (g.chance(50)) v.back().e = gtt(g, n, 2, sh); t.p[i] = build(g, v[i]); } vector<TTP> es; for (auto& x : v) es.push_back(x.e); isclass("tcons_array", es, nullptr, [&] { return ap_tcons0_array_is_interval_linear(&t); }, nullptr, nullptr, nullptr);
      int k = g.below(3); ap_tcons0_array_t r = k == 0 ? ap_tcons0_array_add_dimensions(&t, dc) : k == 1 ? ap_tcons0_array_remove_dimensions(&t, dr) : ap_tcons0_array_permute_dimensions(&t, dp); require(r.size == s, "tcons_array/size", ""); auto md = [&](const VT& x) { return with(x, k == 0 ? addt(ch, x.e) : k == 1 ? remt(rm, x.e) : permt(pm, x.e)); }; for (size_t i = 0; i < s && i < r.size; i++) { isvt("tcons_array/dimensions/" + std::to_string(k), &r.p[i], md(v[i])); isvt("tcons_array/argument", &t.p[i], v[i]); } ap_tcons0_array_clear(&r);
      size_t s2 = g.range(s ? 0 : 1, 6); if (s2 == 0) s2 = 1; ap_tcons0_array_resize(&t, s2); require(t.size == s2, "tcons_array/resize/size", ""); for (size_t i = 0; i < s2; i++) if (i < s) isvt("tcons_array/resize", &t.p[i], v[i]); else require(!t.p[i].texpr0 && !t.p[i].scalar, "tcons_array/resize/new", "not NULL");
      if (k == 0) ap_tcons0_array_add_dimensions_with(&t, dc); else if (k == 1) ap_tcons0_array_remove_dimensions_with(&t, dr); else ap_tcons0_array_permute_dimensions_with(&t, dp); for (size_t i = 0; i < s2 && i < s; i++) isvt("tcons_array/dimensions_with/" + std::to_string(k), &t.p[i], md(v[i])); ap_tcons0_array_clear(&t); } }
  }
  ist("texpr/argument", a, ta); ap_texpr0_free(a); ap_dimchange_free(dc); ap_dimchange_free(dr); ap_dimperm_free(dp);
}
static Mode M_texpr("texpr", m_texpr);

static void m_texpr1(Rng& g, long) {
  Pool P(g); auto fresh = [&](int maxn) { for (;;) { ME m = gme(g, P, maxn); if (wellformed(m)) return sorted(m); } };
  ME e = fresh(5), f; if (g.chance(60)) { f = e; for (int k = g.range(0, 3); k > 0; k--) { int v = g.below(P.v.size()); if (!f.has(v)) (g.chance(50) ? f.I : f.R).push_back(v); } f = sorted(f); if (g.chance(15) && f.R.size()) f.R.pop_back(); } else f = fresh(6);
  ap_environment_t *E = mkenv(P, e), *F = mkenv(P, f); if (!E || !F) return; vector<int> al = e.all(), fl = f.all(); size_t n = al.size(), ce = E->count, cf = F->count; TTP ta = gtt(g, n, g.range(0, 4), g.below(3)); desc("env=" + str(P, e) + " other=" + str(P, f) + " a=" + str(ta)); if (ta->kind == 2) nontrivial(R().inputs); bool le = sub(e, f);
  auto emb = [&](const TTP& t) { return tmap(t, [&](unsigned d) { return ttd(std::find(fl.begin(), fl.end(), al[d]) - fl.begin()); }); }; auto envis = [&](const string& key, ap_environment_t* x, const ME& m) { judged(); if (!x || !(rdenv(P, x) == m)) violation(key + "/environment", "wrong environment"); };
  bool inF = false; std::function<ap_texpr1_t*(const TTP&)> b1 = [&](const TTP& t) -> ap_texpr1_t* { ap_environment_t* E0 = inF ? F : E; ap_environment_t* E2 = E0; const vector<int>& al_ = inF ? fl : al; if (g.chance(20)) E2 = mkenv(P, inF ? f : e); ap_texpr1_t* r; if (t->kind == 0) { ap_coeff_t* c = mkc(g, t->c); r = ap_texpr1_cst(E2, c); ap_coeff_free(c); } else if (t->kind == 1) r = ap_texpr1_var(E2, P.v[al_[t->d]]); else if (t->b) { ap_texpr1_t* x = b1(t->a); r = ap_texpr1_binop(t->op, x, b1(t->b), t->ty, t->dir); } else r = ap_texpr1_unop(t->op, b1(t->a), t->ty, t->dir); if (E2 != E0) ap_environment_free(E2); return r; };
  auto bF = [&](const TTP& t) { inF = true; ap_texpr1_t* r = b1(t); inF = false; return r; };
  ap_texpr1_t* a = b1(ta); judged(); if (!a) { violation("texpr1/build", "NULL"); return; } ist("texpr1/build", a->texpr0, ta); envis("texpr1/build", a->env, e);
  switch (g.below(6)) {
  case 0: { label("texpr1/constants"); KC k(g); ap_texpr1_t* r; KCONS(k, g, r, ap_texpr1_cst, E, ); judged(); if (!r) violation("texpr1/cst", "NULL"); else { ist("texpr1/cst/" + std::to_string(k.w), r->texpr0, ttc(k.model())); envis("texpr1/cst", r->env, e); ap_texpr1_free(r); } for (size_t v = 0; v < P.v.size(); v++) { ap_texpr1_t* x = ap_texpr1_var(E, P.v[v]); auto it = std::find(al.begin(), al.end(), (int)v); require((x != nullptr) == (it != al.end()), "texpr1/var/null", P.names[v]); if (x && it != al.end()) ist("texpr1/var", x->texpr0, ttd(it - al.begin())); if (x) ap_texpr1_free(x); } break; }
  case 1: { label("texpr1/copy"); ap_texpr1_t* c = ap_texpr1_copy(a); ist("texpr1/copy", c->texpr0, ta); envis("texpr1/copy", c->env, e); ap_texpr1_free(a); ist("texpr1/copy/independent", c->texpr0, ta); a = c; std::set<unsigned> ds; tdims(ta, ds); for (size_t v = 0; v < P.v.size(); v++) { auto it = std::find(al.begin(), al.end(), (int)v); require(ap_texpr1_has_var(a, P.v[v]) == (it != al.end() && ds.count(it - al.begin())), "texpr1/has_var", P.names[v]); }
    isclass("texpr1", {ta}, [&] { return ap_texpr1_is_interval_cst(a); }, [&] { return ap_texpr1_is_interval_linear(a); }, [&] { return ap_texpr1_is_interval_polynomial(a); }, [&] { return ap_texpr1_is_interval_polyfrac(a); }, [&] { return ap_texpr1_is_scalar(a); }); require(!ap_texpr1_copy(nullptr), "texpr1/copy/null", "");
    VL l = gvl(g, n); ap_linexpr1_t x = ap_linexpr1_of_linexpr0(E, build(g, l)); ap_texpr1_t* t = ap_texpr1_from_linexpr1(&x); string why; judged(); if (!comblike(t->texpr0, l, why)) violation("texpr1/from_linexpr", why); envis("texpr1/from_linexpr", t->env, e); ap_texpr1_free(t); isl("texpr1/from_linexpr/argument", x.linexpr0, l); ap_linexpr1_clear(&x); break; }
  case 2: { label("texpr1/substitute"); bool other = !(e == f) && g.chance(25); int v = g.chance(70) && n ? al[g.below(n)] : (int)g.below(P.v.size()); TTP by = gtt(g, other ? fl.size() : n, 2, g.below(3)); ap_texpr1_t* b = other ? bF(by) : b1(by); auto it = std::find(al.begin(), al.end(), v); bool bad = other || it == al.end(); TTP m = bad ? ta : tsubst(ta, it - al.begin(), by); desc(P.names[v] + " := " + str(by)); ap_texpr1_t* r = ap_texpr1_substitute(a, P.v[v], b); require((r == nullptr) == bad, "texpr1/substitute/null", std::to_string(bad)); if (r) { ist("texpr1/substitute", r->texpr0, m); envis("texpr1/substitute", r->env, e); ap_texpr1_free(r); }
    ist("texpr1/substitute/argument", a->texpr0, ta); require(ap_texpr1_substitute_with(a, P.v[v], b) == bad, "texpr1/substitute_with/return", ""); ist("texpr1/substitute_with", a->texpr0, m); ta = m; ist("texpr1/substitute/by", b->texpr0, by); ap_texpr1_free(b); break; }
  case 3: { label("texpr1/extend_environment"); ap_texpr1_t* r = ap_texpr1_extend_environment(a, F); require((r != nullptr) == le, "texpr1/extend_environment/null", std::to_string(le)); if (r) { if (le) ist("texpr1/extend_environment", r->texpr0, emb(ta)); envis("texpr1/extend_environment", r->env, f); ap_texpr1_free(r); } ist("texpr1/extend_environment/argument", a->texpr0, ta); envis("texpr1/extend_environment/argument", a->env, e); bool bad = ap_texpr1_extend_environment_with(a, F); require(bad == !le, "texpr1/extend_environment_with/return", ""); if (le) ta = emb(ta); ist("texpr1/extend_environment_with", a->texpr0, ta); envis("texpr1/extend_environment_with", a->env, le ? f : e); break; }
  case 4: { label("texpr1/equal"); bool other = !(e == f) && g.chance(30); TTP tb = other ? gtt(g, fl.size(), 3, g.below(3)) : g.chance(50) ? ta : gtt(g, n, 3, g.below(3)); if (other && n <= fl.size() && g.chance(60)) tb = ta; ap_texpr1_t* b = other ? bF(tb) : b1(tb); require(ap_texpr1_equal(a, b) == (!other && sametree(ta, tb)), "texpr1/equal", ""); require(ap_texpr1_equal(nullptr, nullptr) && !ap_texpr1_equal(a, nullptr), "texpr1/equal/null", ""); ap_texpr1_free(b); break; }
  default: { int w = g.below(2);
    if (w == 0) { label("tcons1"); VT v = gvt(g, n); ap_texpr1_t* x = b1(v.e); ap_tcons1_t c = ap_tcons1_make(v.op, x, v.mod ? mks(g, X(v.m)) : nullptr), r; isvt("tcons1/make", &c.tcons0, v); envis("tcons1/make", c.env, e); r = ap_tcons1_copy(&c); isvt("tcons1/copy", &r.tcons0, v); envis("tcons1/copy", r.env, e); bool bad = ap_tcons1_extend_environment_with(&r, F); VT m = le ? with(v, emb(v.e)) : v; require(bad == !le, "tcons1/extend_environment_with/return", ""); isvt("tcons1/extend_environment_with", &r.tcons0, m); envis("tcons1/extend_environment_with", r.env, le ? f : e); ap_tcons1_clear(&r); bad = ap_tcons1_extend_environment(&r, &c, F); require(bad == !le, "tcons1/extend_environment/return", ""); if (!bad) { isvt("tcons1/extend_environment", &r.tcons0, m); envis("tcons1/extend_environment", r.env, f); ap_tcons1_clear(&r); } isvt("tcons1/argument", &c.tcons0, v);
      ap_texpr1_t ref = ap_tcons1_texpr1ref(&c); ist("tcons1/texpr1ref", ref.texpr0, v.e); require(*ap_tcons1_constypref(&c) == v.op && ap_tcons1_envref(&c) == c.env && ap_tcons1_scalarref(&c) == c.tcons0.scalar, "tcons1/refs", ""); ap_tcons1_clear(&c); require(!c.env && !c.tcons0.texpr0, "tcons1/clear", "fields remain"); free(x); VC vc = gvc(g, n); ap_linexpr1_t lx = ap_linexpr1_of_linexpr0(E, build(g, vc.e)); ap_lincons1_t lc = ap_lincons1_make(vc.op, &lx, vc.mod ? mks(g, X(vc.m)) : nullptr); c = ap_tcons1_from_lincons1(&lc); string why; judged(); if (!comblike(c.tcons0.texpr0, vc.e, why)) violation("tcons1/from_lincons", why); envis("tcons1/from_lincons", c.env, e); require(c.tcons0.constyp == vc.op, "tcons1/from_lincons/type", ""); ap_tcons1_clear(&c); isvc("tcons1/from_lincons/argument", &lc.lincons0, vc); ap_lincons1_clear(&lc); c = ap_tcons1_of_tcons0(E, ap_tcons0_make_unsat()); envis("tcons1/make_unsat", c.env, e); ap_tcons1_clear(&c); }
    else { label("tcons1_array"); size_t s = g.below(4); vector<VT> v; ap_tcons1_array_t t = ap_tcons1_array_make(E, s); for (size_t i = 0; i < s; i++) { v.push_back(gvt(g, n, 2)); ap_tcons1_t c; c.tcons0 = build(g, v[i]); c.env = g.chance(50) ? ap_environment_copy(E) : mkenv(P, e); bool r = ap_tcons1_array_set(&t, i, &c); require(!r, "tcons1_array/set", "refused"); if (r) ap_tcons1_clear(&c); } { ap_tcons1_t c = ap_tcons1_of_tcons0(E, ap_tcons0_make_unsat()); bool r = ap_tcons1_array_set(&t, s, &c); require(r, "tcons1_array/set/range", "index out of range accepted"); if (r) ap_tcons1_clear(&c); }
      if (s && !(e == f)) { ap_tcons1_t c = ap_tcons1_of_tcons0(F, ap_tcons0_make_unsat()); bool r = ap_tcons1_array_set(&t, 0, &c); require(r, "tcons1_array/set/environment", "a constraint over another environment was accepted"); if (r) ap_tcons1_clear(&c); } require(ap_tcons1_array_size(&t) == s && ap_tcons1_array_envref(&t) == t.env, "tcons1_array/size", ""); for (size_t i = 0; i < s; i++) { ap_tcons1_t c = ap_tcons1_array_get(&t, i); isvt("tcons1_array/get", &c.tcons0, v[i]); envis("tcons1_array/get", c.env, e); }
      ap_tcons1_array_t r; bool bad = ap_tcons1_array_extend_environment(&r, &t, F); require(bad == !le, "tcons1_array/extend_environment/return", ""); if (!bad) { envis("tcons1_array/extend_environment", r.env, f); if (le) for (size_t i = 0; i < s; i++) isvt("tcons1_array/extend_environment", &r.tcons0_array.p[i], with(v[i], emb(v[i].e))); ap_tcons1_array_clear(&r); } for (size_t i = 0; i < s; i++) isvt("tcons1_array/argument", &t.tcons0_array.p[i], v[i]); bad = ap_tcons1_array_extend_environment_with(&t, F); require(bad == !le, "tcons1_array/extend_environment_with/return", ""); envis("tcons1_array/extend_environment_with", t.env, le ? f : e); for (size_t i = 0; i < s; i++) isvt("tcons1_array/extend_environment_with", &t.tcons0_array.p[i], le ? with(v[i], emb(v[i].e)) : v[i]); if (s) { ap_tcons1_array_clear_index(&t, 0); require(!t.tcons0_array.p[0].texpr0, "tcons1_array/clear_index", ""); } ap_tcons1_array_clear(&t); } }
  }
  ist("texpr1/argument", a->texpr0, ta); ap_texpr1_free(a); envis("texpr1/arguments", E, e); envis("texpr1/arguments", F, f); require(E->count == ce && F->count == cf, "texpr1/count", "reference counts are " + std::to_string(E->count) + " and " + std::to_string(F->count) + " instead of " + std::to_string(ce) + " and " + std::to_string(cf)); ap_environment_free(E); ap_environment_free(F); if (P.custom) require(g_live == 0, "texpr1/variables-leak", std::to_string(g_live) + " copies of variables are still alive");
}
static Mode M_texpr1("texpr1", m_texpr1);
