// Linear expressions, constraints and generators against maps from dimension to coefficient.
#pragma once
typedef std::map<unsigned, CV> TM;
struct VL { bool dense = false; size_t n = 0; TM t; CV k; }; // dense: all dimensions below n are present
static CV zeroc() { return CV(); }
static CV at(const VL& e, unsigned d) { auto it = e.t.find(d); return it == e.t.end() ? zeroc() : it->second; }
static string str(const VL& e) { string s = e.dense ? "dense" + std::to_string(e.n) + "(" : "sparse("; for (auto& p : e.t) s += str(p.second) + "*x" + std::to_string(p.first) + " + "; return s + str(e.k) + ")"; }
static CV glc(Rng& g) { CV c; int r = g.below(100); if (r < 15) return c; if (r < 70) { c.v = pt_itv(Q(g.range(-3, 3))); return c; } if (r < 78) { c.itv = true; c.v = pt_itv(Q(g.range(-1, 1))); return c; } if (r < 92) { c.itv = true; c.v = gitv_small(g); return c; } return gcv(g); }
static VL gvl(Rng& g, size_t n, int dense = -1) { VL e; e.n = n; e.dense = dense < 0 ? g.chance(50) : dense; int pc = g.pick(vector<int>{0, 30, 60, 100}); for (size_t i = 0; i < n; i++) if (e.dense || g.chance(pc)) e.t[i] = glc(g); e.k = glc(g); return e; }
static void put(Rng& g, ap_coeff_t* c, const CV& v) { ap_coeff_clear(c); ap_coeff_t* x = mkc(g, v); *c = *x; free(x); }
static ap_linexpr0_t* build(Rng& g, const VL& e) {
  if (e.dense) { ap_linexpr0_t* r = ap_linexpr0_alloc(AP_LINEXPR_DENSE, e.n); for (auto& p : e.t) put(g, &r->p.coeff[p.first], p.second); put(g, &r->cst, e.k); return r; }
  if (g.chance(50)) { size_t fr = g.chance(40) ? g.range(1, 3) : 0; ap_linexpr0_t* r = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, e.t.size() + fr); size_t i = 0; for (auto& p : e.t) { r->p.linterm[i].dim = p.first; put(g, &r->p.linterm[i].coeff, p.second); i++; } put(g, &r->cst, e.k); return r; }
  vector<unsigned> o; for (auto& p : e.t) o.push_back(p.first); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.below(i)]);
  ap_linexpr0_t* r = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, g.chance(50) ? 0 : g.below(o.size() + 2)); for (unsigned d : o) { ap_coeff_t* c = ap_linexpr0_coeffref(r, d); judged(); if (!c) { violation("linexpr/coeffref/sparse", "NULL for dimension " + std::to_string(d)); continue; } put(g, c, e.t.at(d)); } put(g, &r->cst, e.k); return r;
}
static CV rdc(ap_coeff_t* c) { CV v; v.itv = c->discr == AP_COEFF_INTERVAL; v.v = xcoeff(c); return v; }
static bool same(const CV& a, const CV& b) { return a.itv == b.itv && eqi(a.v, b.v); }
static VL rdl(ap_linexpr0_t* e, const string& key) {
  VL r; r.dense = e->discr == AP_LINEXPR_DENSE; r.k = rdc(&e->cst); r.n = e->size;
  if (r.dense) { for (size_t i = 0; i < e->size; i++) r.t[i] = rdc(&e->p.coeff[i]); return r; }
  bool fr = false; ap_dim_t last = 0; bool first = true;
  for (size_t i = 0; i < e->size; i++) { ap_dim_t d = e->p.linterm[i].dim; if (d == AP_DIM_MAX) { fr = true; continue; } if (fr || (!first && d <= last)) violation(key + "/sorted", "the terms of a sparse expression are not sorted"); first = false; last = d; r.t[d] = rdc(&e->p.linterm[i].coeff); }
  return r;
}
static string diff(const VL& a, const VL& b) { // same function, same kinds of coefficients
  if (a.dense != b.dense) return "representation changed"; if (!same(a.k, b.k)) return "constant " + str(b.k) + " instead of " + str(a.k);
  std::set<unsigned> ds; for (auto& p : a.t) ds.insert(p.first); for (auto& p : b.t) ds.insert(p.first);
  for (unsigned d : ds) if (!same(at(a, d), at(b, d))) return "coefficient of x" + std::to_string(d) + " is " + str(at(b, d)) + " instead of " + str(at(a, d)); return ""; }
static void isl(const string& key, ap_linexpr0_t* e, const VL& m) { judged(); if (!e) { violation(key, "NULL"); return; } string d = diff(m, rdl(e, key)); if (d.size()) violation(key, d); if (m.dense && e->size != m.n) violation(key + "/size", "size " + std::to_string(e->size) + " instead of " + std::to_string(m.n)); }
static bool leq(const VL& a, const VL& b) { std::set<unsigned> ds; for (auto& p : a.t) ds.insert(p.first); for (auto& p : b.t) ds.insert(p.first); for (unsigned d : ds) if (!ceq(creduce(at(a, d)), creduce(at(b, d)))) return false; return ceq(creduce(a.k), creduce(b.k)); }
// dimension changes
struct DC { vector<unsigned> dim; size_t I = 0, R = 0; ap_dimchange_t* make() const { ap_dimchange_t* c = ap_dimchange_alloc(I, R); for (size_t i = 0; i < dim.size(); i++) c->dim[i] = dim[i]; return c; } };
static string str(const vector<unsigned>& v) { string s = "["; for (unsigned x : v) s += std::to_string(x) + " "; return s + "]"; }
static DC gadd(Rng& g, size_t I, size_t N) { DC c; int k = g.range(0, 4); vector<unsigned> a, b; for (int i = 0; i < k; i++) if (g.chance(50)) a.push_back(g.below(I + 1)); else b.push_back(I + g.below(N - I + 1)); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.I = a.size(); c.R = b.size(); c.dim = a; c.dim.insert(c.dim.end(), b.begin(), b.end()); return c; }
static unsigned addd(const DC& c, unsigned d) { unsigned k = 0; for (unsigned x : c.dim) if (x <= d) k++; return d + k; }
static VL addl(const DC& c, const VL& e) { VL r = e; r.t.clear(); for (auto& p : e.t) r.t[addd(c, p.first)] = p.second; if (e.dense) { r.n = e.n + c.dim.size(); for (size_t i = 0; i < r.n; i++) if (!r.t.count(i)) r.t[i] = zeroc(); } return r; }
static vector<unsigned> gperm(Rng& g, size_t n) { vector<unsigned> p(n); for (size_t i = 0; i < n; i++) p[i] = i; for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[g.below(i)]); return p; }
static ap_dimperm_t* mkp(const vector<unsigned>& p) { ap_dimperm_t* r = ap_dimperm_alloc(p.size()); for (size_t i = 0; i < p.size(); i++) r->dim[i] = p[i]; return r; }
static VL perml(const vector<unsigned>& p, const VL& e) { VL r = e; r.t.clear(); for (auto& x : e.t) r.t[p[x.first]] = x.second; return r; }
static int typel(const VL& e, ap_linexpr0_t* x) { (void)e; int r = AP_LINEXPR_LINEAR; VL v = rdl(x, "linexpr/type"); if (v.k.itv) r = AP_LINEXPR_QUASILINEAR; for (auto& p : v.t) if (p.second.itv) r = AP_LINEXPR_INTLINEAR; return r; }

static const vector<ap_constyp_t> CT = {AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQMOD, AP_CONS_DISEQ};
struct VC { VL e; ap_constyp_t op; bool mod; Q m; };
static string str(const VC& c) { return str(c.e) + opname(c.op) + (c.mod ? str(c.m) : string("")); }
static VC gvc(Rng& g, size_t n, int dense = -1) { VC c; c.e = gvl(g, n, dense); if (g.chance(25)) for (auto& p : c.e.t) p.second = g.chance(20) ? creduce(p.second) : zeroc(); if (g.chance(30)) { c.e.k.itv = g.chance(50); Itv v = gitv_small(g); if (!c.e.k.itv) v = pt_itv(Q(g.range(-2, 2))); c.e.k.v = v; } c.op = g.pick(CT); c.mod = c.op == AP_CONS_EQMOD; c.m = Q(g.range(0, 3)); return c; }
static ap_lincons0_t build(Rng& g, const VC& c) { return ap_lincons0_make(c.op, build(g, c.e), c.mod ? mks(g, X(c.m)) : nullptr); }
static void isvc(const string& key, ap_lincons0_t* c, const VC& m) { isl(key, c->linexpr0, m.e); if (c->constyp != m.op) violation(key + "/type", string("type ") + opname(c->constyp)); if ((c->scalar != nullptr) != m.mod) violation(key + "/modulo", "modulo missing or added"); else if (m.mod) isv(key + "/modulo", c->scalar, X(m.m)); }

static void m_linexpr(Rng& g, long) {
  size_t n = g.chance(15) ? g.range(9, 30) : g.range(0, 6), I = g.below(n + 1); VL va = gvl(g, n), vb; int rel = g.below(4);
  if (rel == 0) vb = gvl(g, g.chance(60) ? n : g.below(n + 3)); else { vb = va; if (rel > 1) { vb.dense = g.chance(50); if (vb.dense) { vb.n = n; for (size_t i = 0; i < n; i++) if (!vb.t.count(i)) vb.t[i] = zeroc(); } else for (auto it = vb.t.begin(); it != vb.t.end();) if (czero(it->second) && g.chance(70)) it = vb.t.erase(it); else ++it; }
    if (rel == 3) { int w = g.below(3); if (w == 0 || vb.t.empty()) vb.k = glc(g); else { auto it = vb.t.begin(); std::advance(it, g.below(vb.t.size())); it->second = glc(g); } } }
  ap_linexpr0_t *a = build(g, va), *b = build(g, vb); desc("a=" + str(va) + " b=" + str(vb)); if (va.t.size() > 1) nontrivial(R().inputs); bool reduced = false;
  switch (g.below(9)) {
  case 0: { // reading and writing coefficients
    for (int k = g.range(1, 6); k > 0; k--) { unsigned d = g.below(n + 2); CV v = glc(g); bool out = va.dense && d >= va.n; if (g.chance(4)) { d = AP_DIM_MAX; out = true; } bool cst = g.chance(20); string at_ = " at " + std::to_string(d);
      switch (g.below(5)) {
      case 0: { label("linexpr/get_coeff"); ap_coeff_t* c = mkc(g, gcv(g)); if (cst) { ap_linexpr0_get_cst(c, a); isc("linexpr/get_cst", c, va.k); } else { bool r = ap_linexpr0_get_coeff(c, a, d); require(r == out, "linexpr/get_coeff/return", "returns " + std::to_string(r) + at_); if (!out) isc("linexpr/get_coeff", c, at(va, d)); } ap_coeff_free(c); break; }
      case 1: { label("linexpr/coeffref"); ap_coeff_t* c = cst ? ap_linexpr0_cstref(a) : ap_linexpr0_coeffref(a, d); if (cst) { isc("linexpr/cstref", c, va.k); break; } require((c == nullptr) == out, "linexpr/coeffref/null", at_); if (c && !out) { isc("linexpr/coeffref", c, at(va, d)); if (g.chance(50)) { put(g, c, v); va.t[d] = v; } else if (!va.t.count(d)) va.t[d] = zeroc(); } break; }
      case 2: { label("linexpr/set_coeff"); ap_coeff_t* c = mkc(g, v); if (cst) { ap_linexpr0_set_cst(a, c); va.k = v; } else { bool r = ap_linexpr0_set_coeff(a, d, c); require(r == out, "linexpr/set_coeff/return", "returns " + std::to_string(r) + at_); if (!out) va.t[d] = v; } isc("linexpr/set_coeff/argument", c, v); ap_coeff_free(c); break; }
      case 3: { label("linexpr/set_coeff_typed"); bool r = out; CV w; int kind = g.below(8); int i = g.range(-9, 9), j = g.range(-9, 9), p = g.range(1, 9), q = g.range(1, 9);
        Itv iv = gitv_small(g); ap_scalar_t *s1 = mks(g, iv.lo), *s2 = mks(g, iv.hi); ap_interval_t* it = mki(g, iv);
        switch (kind) {
        case 0: w.v = mk_itv(iv.lo, iv.lo); if (cst) ap_linexpr0_set_cst_scalar(a, s1); else r = ap_linexpr0_set_coeff_scalar(a, d, s1); break;
        case 1: w.v = pt_itv(i); if (cst) ap_linexpr0_set_cst_scalar_int(a, i); else r = ap_linexpr0_set_coeff_scalar_int(a, d, i); break;
        case 2: w.v = pt_itv(frac(i, p)); if (cst) ap_linexpr0_set_cst_scalar_frac(a, i, p); else r = ap_linexpr0_set_coeff_scalar_frac(a, d, i, p); break;
        case 3: w.v = pt_itv(qd(i / 10.0)); if (cst) ap_linexpr0_set_cst_scalar_double(a, i / 10.0); else r = ap_linexpr0_set_coeff_scalar_double(a, d, i / 10.0); break;
        case 4: w.itv = true; w.v = iv; if (cst) ap_linexpr0_set_cst_interval(a, it); else r = ap_linexpr0_set_coeff_interval_scalar(a, d, it->inf, it->sup); break;
        case 5: w.itv = true; w.v = iv; if (cst) ap_linexpr0_set_cst_interval_scalar(a, s1, s2); else r = ap_linexpr0_set_coeff_interval_scalar(a, d, s1, s2); break;
        case 6: w.itv = true; w.v = mk_itv(X(Q(i)), X(Q(j))); if (cst) ap_linexpr0_set_cst_interval_int(a, i, j); else r = ap_linexpr0_set_coeff_interval_int(a, d, i, j); break;
        default: w.itv = true; w.v = mk_itv(X(frac(i, p)), X(frac(j, q))); if (cst) ap_linexpr0_set_cst_interval_frac(a, i, p, j, q); else r = ap_linexpr0_set_coeff_interval_frac(a, d, i, p, j, q); break;
        }
        if (cst) va.k = w; else { require(r == out, "linexpr/set_coeff_typed/return", at_); if (!out) va.t[d] = w; } ap_scalar_free(s1); ap_scalar_free(s2); ap_interval_free(it); break; }
      default: { label("linexpr/set_list"); unsigned d2 = g.below(n ? n : 1), d3 = g.below(n ? n : 1); bool o2 = va.dense && d2 >= va.n, o3 = va.dense && d3 >= va.n; CV v2 = glc(g), v3; v3.v = pt_itv(frac(g.range(-9, 9), 4)); Itv iv = gitv_small(g); int num = g.range(-9, 9); ap_coeff_t* c2 = mkc(g, v2); ap_scalar_t *s1 = mks(g, iv.lo), *s2 = mks(g, iv.hi); ap_interval_t* ii = mki(g, iv); mpq_class mq(num, 7); mq.canonicalize(); mpfr_t mf; mpfr_init2(mf, 60); mpfr_set_d(mf, num / 8.0, MPFR_RNDN); bool r, x; int w = g.below(5);
        // the arguments are applied in order until one is refused
        auto setm = [&](unsigned dd, bool oo, const CV& c) { if (x) return; if (oo) x = true; else va.t[dd] = c; }; x = false; CV ci, cn, cq, cf, cl; ci.itv = true; ci.v = iv; cn.v = pt_itv(num); cq.v = pt_itv(Q(mq)); cf.v = pt_itv(qd(num / 8.0)); cl.v = mk_itv(iv.lo, iv.lo);
        if (w == 0) { r = ap_linexpr0_set_list(a, AP_COEFF, c2, d2, AP_COEFF_S_INT, num, d3, AP_CST_I, ii, AP_END); setm(d2, o2, v2); setm(d3, o3, cn); if (!x) va.k = ci; }
        else if (w == 1) { r = ap_linexpr0_set_list(a, AP_CST_S_MPQ, mq.get_mpq_t(), AP_COEFF_I_SCALAR, s1, s2, d2, AP_COEFF_S_MPFR, mf, d3, AP_END); va.k = cq; setm(d2, o2, ci); setm(d3, o3, cf); }
        else if (w == 2) { r = ap_linexpr0_set_list(a, AP_COEFF_S_FRAC, num, 4, d2, AP_CST_S_DOUBLE, 2.5, AP_COEFF_I_INT, -3, num, d3, AP_END); CV c4, c5; c4.v = pt_itv(frac(num, 4)); c5.itv = true; c5.v = mk_itv(X(Q(-3)), X(Q(num))); setm(d2, o2, c4); if (!x) { va.k = zeroc(); va.k.v = pt_itv(frac(5, 2)); } setm(d3, o3, c5); }
        else if (w == 3) { r = ap_linexpr0_set_list(a, AP_CST, c2, AP_COEFF_S, s1, d2, AP_COEFF_I_FRAC, num, 3, 7, 2, d3, AP_CST_S_INT, num, AP_END); va.k = v2; CV c5; c5.itv = true; c5.v = mk_itv(X(frac(num, 3)), X(frac(7, 2))); setm(d2, o2, cl); setm(d3, o3, c5); if (!x) va.k = cn; }
        else { r = ap_linexpr0_set_list(a, AP_COEFF_I_DOUBLE, -1.5, 2.25, d2, AP_COEFF_I_MPQ, mq.get_mpq_t(), mq.get_mpq_t(), d3, AP_CST_I_INT, 1, num, AP_CST_S_FRAC, num, 9, AP_COEFF_S_DOUBLE, 0.5, d2, AP_END); CV c5, c6, c7; c5.itv = c6.itv = true; c5.v = mk_itv(X(frac(-3, 2)), X(frac(9, 4))); c6.v = pt_itv(Q(mq)); c7.v = pt_itv(frac(1, 2)); setm(d2, o2, c5); setm(d3, o3, c6); if (!x) { va.k = zeroc(); va.k.v = pt_itv(frac(num, 9)); } setm(d2, o2, c7); }
        require(r == x, "linexpr/set_list/return", "returns " + std::to_string(r)); ap_coeff_free(c2); ap_scalar_free(s1); ap_scalar_free(s2); ap_interval_free(ii); mpfr_clear(mf); break; }
      }
      isl("linexpr/write", a, va); }
    break; }
  case 1: { label("linexpr/copy"); ap_linexpr0_t* c = ap_linexpr0_copy(a); isl("linexpr/copy", c, va); if (va.t.size() && g.chance(60)) { unsigned d = va.t.begin()->first; CV v = glc(g); put(g, ap_linexpr0_coeffref(c, d), v); isl("linexpr/copy/independent", a, va); }
    label("linexpr/minimize"); VL m = rdl(c, "x"); for (auto& p : m.t) p.second = creduce(p.second); ap_linexpr0_minimize(c); VL r = rdl(c, "linexpr/minimize"); r.k = creduce(r.k); m.k = creduce(m.k); string d = diff(m, r); require(d.empty(), "linexpr/minimize", d);
    if (!va.dense) { bool z = c->size != r.t.size(); for (auto& p : r.t) if (czero(p.second)) z = true; require(!z, "linexpr/minimize/zero", "a null or unused term remains"); } ap_linexpr0_free(c);
    if (!va.dense) { label("linexpr/realloc"); ap_linexpr0_realloc(a, a->size + g.range(0, 3)); isl("linexpr/realloc", a, va); } else { size_t m2 = g.below(n + 3); ap_linexpr0_realloc(a, m2); va.n = m2; for (auto it = va.t.begin(); it != va.t.end();) if (it->first >= m2) it = va.t.erase(it); else ++it; for (size_t i = 0; i < m2; i++) if (!va.t.count(i)) va.t[i] = zeroc(); isl("linexpr/realloc", a, va); } break; }
  case 2: { label("linexpr/classification"); bool i1 = true, r1 = true; for (auto& p : va.t) if (!czero(p.second)) (p.first < I ? r1 : i1) = false; require(ap_linexpr0_is_integer(a, I) == i1, "linexpr/is_integer", "with " + std::to_string(I)); require(ap_linexpr0_is_real(a, I) == r1, "linexpr/is_real", "with " + std::to_string(I));
    int t = typel(va, a), t2 = typel(vb, b); require(ap_linexpr0_type(a) == t, "linexpr/type", "type " + std::to_string(ap_linexpr0_type(a))); require(ap_linexpr0_is_linear(a) == (t == AP_LINEXPR_LINEAR), "linexpr/is_linear", ""); require(ap_linexpr0_is_quasilinear(a) == (t != AP_LINEXPR_INTLINEAR), "linexpr/is_quasilinear", "");
    ap_linexpr0_t* v[2] = {a, b}; size_t m = g.below(3); int tt = AP_LINEXPR_LINEAR; if (m > 0) tt = std::min(tt, t); if (m > 1) tt = std::min(tt, t2); require(ap_linexpr0_array_type(v, m) == tt, "linexpr/array_type", ""); require(ap_linexpr0_array_is_linear(v, m) == (tt == AP_LINEXPR_LINEAR), "linexpr/array_is_linear", ""); require(ap_linexpr0_array_is_quasilinear(v, m) == (tt != AP_LINEXPR_INTLINEAR), "linexpr/array_is_quasilinear", ""); break; }
  case 3: { label("linexpr/add_dimensions"); DC c = gadd(g, I, n); ap_dimchange_t* dc = c.make(); desc("add " + str(c.dim)); VL m = addl(c, va); ap_linexpr0_t* r = ap_linexpr0_add_dimensions(a, dc); isl("linexpr/add_dimensions", r, m); isl("linexpr/add_dimensions/argument", a, va); ap_linexpr0_free(r); if (g.chance(50)) { ap_linexpr0_add_dimensions_with(a, dc); va = m; isl("linexpr/add_dimensions_with", a, va); } ap_dimchange_free(dc); break; }
  case 4: { label("linexpr/permute_dimensions"); vector<unsigned> p = gperm(g, va.dense ? n : n + g.below(3)); desc("permute " + str(p)); ap_dimperm_t* dp = mkp(p); VL m = perml(p, va); ap_linexpr0_t* r = ap_linexpr0_permute_dimensions(a, dp); isl("linexpr/permute_dimensions", r, m); isl("linexpr/permute_dimensions/argument", a, va); ap_linexpr0_free(r); if (g.chance(50)) { ap_linexpr0_permute_dimensions_with(a, dp); va = m; isl("linexpr/permute_dimensions_with", a, va); } ap_dimperm_free(dp); break; }
  case 5: { label("linexpr/equal"); bool e = leq(va, vb), r = ap_linexpr0_equal(a, b); require(r == e, "linexpr/equal", "equal is " + std::to_string(r)); reduced = true; require(ap_linexpr0_equal(a, a), "linexpr/equal/self", "not equal to itself");
    label("linexpr/compare"); int c = ap_linexpr0_compare(a, b); judged(); CV x, y; bool found = false; std::set<unsigned> ds; for (auto& p : va.t) ds.insert(p.first); for (auto& p : vb.t) ds.insert(p.first); for (unsigned d : ds) { x = creduce(at(va, d)); y = creduce(at(vb, d)); if (!ceq(x, y)) { found = true; break; } if (x.itv && ibot(x.v)) { stat("compare-empty"); x.itv = true; found = true; break; } } if (!found) { x = creduce(va.k); y = creduce(vb.k); }
    if (x.itv && y.itv && ibot(x.v) && ibot(y.v)) stat("compare-empty"); else if (!okccmp(x, y, c)) violation("linexpr/compare", "compare is " + std::to_string(c) + " where " + str(x) + " meets " + str(y));
    if (e) { label("linexpr/hash"); long h1 = ap_linexpr0_hash(a), h2 = ap_linexpr0_hash(b); require(h1 == h2, "linexpr/hash", "equal expressions have hashes " + std::to_string(h1) + " and " + std::to_string(h2)); } break; }
  case 6: { // constraints
    VC vc = gvc(g, n), vd = gvc(g, n); ap_lincons0_t c = build(g, vc); desc("c=" + str(vc)); isvc("lincons/make", &c, vc); ap_lincons0_t d = ap_lincons0_copy(&c); isvc("lincons/copy", &d, vc);
    label("lincons/is_sat"); bool cst = true; for (auto& p : vc.e.t) if (!czero(p.second)) cst = false; Itv k = vc.e.k.v; bool us = ap_lincons0_is_unsat(&c), sa = ap_lincons0_is_sat(&c); judged();
    if (!(cst && ibot(k))) { if (us && (!cst || may_hold(k, vc.op, vc.m))) violation("lincons/is_unsat/wrong", "a satisfiable constraint is said unsatisfiable"); if (sa && cst && !must_hold(k, vc.op, vc.m)) violation("lincons/is_sat/wrong", "a constraint that may not hold is said trivial"); if (sa && !cst) violation("lincons/is_sat/variable", "a constraint over variables is said trivial");
      if (cst && vc.op != AP_CONS_EQMOD && vc.op != AP_CONS_EQ) { if (!us && !may_hold(k, vc.op, vc.m)) violation("lincons/is_unsat/missed", "unsatisfiable constant constraint not recognised"); if (!sa && must_hold(k, vc.op, vc.m)) violation("lincons/is_sat/missed", "trivial constant constraint not recognised"); } }
    DC ch = gadd(g, I, n); ap_dimchange_t* dc = ch.make(); label("lincons/add_dimensions"); VC m = vc; m.e = addl(ch, vc.e); ap_lincons0_t r = ap_lincons0_add_dimensions(&c, dc); isvc("lincons/add_dimensions", &r, m); ap_lincons0_clear(&r); ap_lincons0_add_dimensions_with(&d, dc); isvc("lincons/add_dimensions_with", &d, m); ap_dimchange_free(dc); ap_lincons0_clear(&d); require(!d.linexpr0 && !d.scalar, "lincons/clear", "pointers remain");
    vector<unsigned> p = gperm(g, n); ap_dimperm_t* dp = mkp(p); label("lincons/permute_dimensions"); m.e = perml(p, vc.e); r = ap_lincons0_permute_dimensions(&c, dp); isvc("lincons/permute_dimensions", &r, m); ap_lincons0_clear(&r); isvc("lincons/argument", &c, vc); ap_lincons0_permute_dimensions_with(&c, dp); isvc("lincons/permute_dimensions_with", &c, m); ap_dimperm_free(dp); ap_lincons0_clear(&c);
    r = ap_lincons0_make_unsat(); require(ap_lincons0_is_unsat(&r) && !ap_lincons0_is_sat(&r), "lincons/make_unsat", ""); ap_lincons0_clear(&r); break; }
  case 7: { // arrays of constraints
    size_t s = g.below(4); vector<VC> v; ap_lincons0_array_t t = ap_lincons0_array_make(s); for (size_t i = 0; i < s; i++) { require(!t.p[i].linexpr0 && !t.p[i].scalar, "lincons_array/make", "not NULL"); v.push_back(gvc(g, n)); t.p[i] = build(g, v[i]); } int ty = AP_LINEXPR_LINEAR; for (size_t i = 0; i < s; i++) ty = std::min(ty, typel(v[i].e, t.p[i].linexpr0));
    label("lincons_array"); require(ap_lincons0_array_type(&t) == ty, "lincons_array/type", ""); require(ap_lincons0_array_is_linear(&t) == (ty == AP_LINEXPR_LINEAR), "lincons_array/is_linear", ""); require(ap_lincons0_array_is_quasilinear(&t) == (ty != AP_LINEXPR_INTLINEAR), "lincons_array/is_quasilinear", "");
    DC ch = gadd(g, I, n); ap_dimchange_t* dc = ch.make(); vector<unsigned> p = gperm(g, n); ap_dimperm_t* dp = mkp(p); bool add = g.chance(50); ap_lincons0_array_t r = add ? ap_lincons0_array_add_dimensions(&t, dc) : ap_lincons0_array_permute_dimensions(&t, dp); require(r.size == s, "lincons_array/size", ""); for (size_t i = 0; i < s && i < r.size; i++) { isvc("lincons_array/argument", &t.p[i], v[i]); VC m = v[i]; m.e = add ? addl(ch, m.e) : perml(p, m.e); isvc(add ? "lincons_array/add_dimensions" : "lincons_array/permute_dimensions", &r.p[i], m); } ap_lincons0_array_clear(&r);
    size_t s2 = g.below(6); ap_lincons0_array_resize(&t, s2); require(t.size == s2, "lincons_array/resize/size", ""); for (size_t i = 0; i < s2; i++) if (i < s) isvc("lincons_array/resize", &t.p[i], v[i]); else require(!t.p[i].linexpr0 && !t.p[i].scalar, "lincons_array/resize/new", "not NULL");
    if (add) ap_lincons0_array_add_dimensions_with(&t, dc); else ap_lincons0_array_permute_dimensions_with(&t, dp); for (size_t i = 0; i < s2 && i < s; i++) { VC m = v[i]; m.e = add ? addl(ch, m.e) : perml(p, m.e); isvc(add ? "lincons_array/add_dimensions_with" : "lincons_array/permute_dimensions_with", &t.p[i], m); }
    ap_dimchange_free(dc); ap_dimperm_free(dp); ap_lincons0_array_clear(&t); break; }
  default: { // generators
    label("generator"); static const vector<ap_gentyp_t> GT = {AP_GEN_LINE, AP_GEN_RAY, AP_GEN_VERTEX, AP_GEN_LINEMOD, AP_GEN_RAYMOD}; size_t s = g.below(4); vector<VL> v; vector<ap_gentyp_t> ty; ap_generator0_array_t t = ap_generator0_array_make(s); for (size_t i = 0; i < s; i++) { v.push_back(gvl(g, n)); ty.push_back(g.pick(GT)); t.p[i] = ap_generator0_make(ty[i], build(g, v[i])); }
    auto isg = [&](const string& key, ap_generator0_t* x, const VL& m, ap_gentyp_t tt) { isl(key, x->linexpr0, m); if (x->gentyp != tt) violation(key + "/type", "type changed"); };
    DC ch = gadd(g, I, n); ap_dimchange_t* dc = ch.make(); vector<unsigned> p = gperm(g, n); ap_dimperm_t* dp = mkp(p); bool add = g.chance(50);
    if (s) { ap_generator0_t c = ap_generator0_copy(&t.p[0]); isg("generator/copy", &c, v[0], ty[0]); ap_generator0_t r = add ? ap_generator0_add_dimensions(&c, dc) : ap_generator0_permute_dimensions(&c, dp); VL m = add ? addl(ch, v[0]) : perml(p, v[0]); isg("generator/dimensions", &r, m, ty[0]); ap_generator0_clear(&r); if (add) ap_generator0_add_dimensions_with(&c, dc); else ap_generator0_permute_dimensions_with(&c, dp); isg("generator/dimensions_with", &c, m, ty[0]); ap_generator0_clear(&c); require(!c.linexpr0, "generator/clear", "pointer remains"); }
    ap_generator0_array_t r = add ? ap_generator0_array_add_dimensions(&t, dc) : ap_generator0_array_permute_dimensions(&t, dp); for (size_t i = 0; i < s; i++) { isg("generator_array/argument", &t.p[i], v[i], ty[i]); isg("generator_array/dimensions", &r.p[i], add ? addl(ch, v[i]) : perml(p, v[i]), ty[i]); } ap_generator0_array_clear(&r);
    size_t s2 = g.below(6); ap_generator0_array_resize(&t, s2); require(t.size == s2, "generator_array/resize/size", ""); for (size_t i = 0; i < s2; i++) if (i < s) isg("generator_array/resize", &t.p[i], v[i], ty[i]); else require(!t.p[i].linexpr0, "generator_array/resize/new", "not NULL");
    if (add) ap_generator0_array_add_dimensions_with(&t, dc); else ap_generator0_array_permute_dimensions_with(&t, dp); for (size_t i = 0; i < s2 && i < s; i++) isg("generator_array/dimensions_with", &t.p[i], add ? addl(ch, v[i]) : perml(p, v[i]), ty[i]); ap_dimchange_free(dc); ap_dimperm_free(dp); ap_generator0_array_clear(&t); }
  }
  if (!reduced) { isl("linexpr/arguments", a, va); isl("linexpr/arguments", b, vb); }
  ap_linexpr0_free(a); ap_linexpr0_free(b);
}
static Mode M_linexpr("linexpr", m_linexpr);

// expressions over environments
static void m_linexpr1(Rng& g, long) {
  Pool P(g); auto fresh = [&](int maxn) { for (;;) { ME m = gme(g, P, maxn); if (wellformed(m)) return sorted(m); } };
  ME e = fresh(6), f; if (g.chance(60)) { f = e; for (int k = g.range(0, 3); k > 0; k--) { int v = g.below(P.v.size()); if (!f.has(v)) (g.chance(50) ? f.I : f.R).push_back(v); } f = sorted(f); if (g.chance(15) && f.size()) { if (f.R.size()) f.R.pop_back(); } } else f = fresh(6);
  ap_environment_t *E = mkenv(P, e), *F = mkenv(P, f); if (!E || !F) return; vector<int> al = e.all(), fl = f.all(); size_t n = al.size(); VL va = gvl(g, n); desc("env=" + str(P, e) + " other=" + str(P, f) + " a=" + str(va)); if (va.t.size() > 1) nontrivial(R().inputs);
  size_t ce = E->count, cf = F->count; bool le = sub(e, f); auto emb = [&](const VL& x) { VL r = x; r.t.clear(); for (auto& p : x.t) r.t[std::find(fl.begin(), fl.end(), al[p.first]) - fl.begin()] = p.second; if (x.dense) { r.n = fl.size(); for (size_t i = 0; i < r.n; i++) if (!r.t.count(i)) r.t[i] = zeroc(); } return r; };
  auto envis = [&](const string& key, ap_environment_t* x, const ME& m) { judged(); if (!x || !(rdenv(P, x) == m)) violation(key + "/environment", "wrong environment"); };
  int what = g.below(5);
  if (what == 0) { // access by variable
    ap_linexpr1_t a = ap_linexpr1_make(E, va.dense ? AP_LINEXPR_DENSE : AP_LINEXPR_SPARSE, g.below(4)); require(!va.dense || a.linexpr0->size == n, "linexpr1/make/size", "a dense expression has not the size of the environment"); for (auto& p : va.t) { ap_coeff_t* c = mkc(g, p.second); if (g.chance(50)) require(!ap_linexpr1_set_coeff(&a, P.v[al[p.first]], c), "linexpr1/set_coeff", "refused"); else { ap_coeff_t* q = ap_linexpr1_coeffref(&a, P.v[al[p.first]]); judged(); if (!q) violation("linexpr1/coeffref", "NULL"); else ap_coeff_set(q, c); } ap_coeff_free(c); } { ap_coeff_t* c = mkc(g, va.k); ap_linexpr1_set_cst(&a, c); ap_coeff_free(c); } isl("linexpr1/set", a.linexpr0, va);
    label("linexpr1/access"); for (size_t v = 0; v < P.v.size(); v++) { auto it = std::find(al.begin(), al.end(), (int)v); bool in = it != al.end(); ap_coeff_t* c = ap_coeff_alloc(AP_COEFF_SCALAR); bool r = ap_linexpr1_get_coeff(c, &a, P.v[v]); require(r == !in, "linexpr1/get_coeff/return", P.names[v]); if (in && !r) isc("linexpr1/get_coeff", c, at(va, it - al.begin())); if (!in) { require(!ap_linexpr1_coeffref(&a, P.v[v]), "linexpr1/coeffref/unknown", P.names[v]); require(ap_linexpr1_set_coeff_scalar_int(&a, P.v[v], 3), "linexpr1/set_coeff/unknown", P.names[v]); } ap_coeff_free(c); }
    if (n) { unsigned d = g.below(n); int num = g.range(-9, 9); require(!ap_linexpr1_set_list(&a, AP_COEFF_S_INT, num, P.v[al[d]], AP_CST_I_INT, -1, num, AP_END), "linexpr1/set_list/return", "refused"); CV c; c.v = pt_itv(num); va.t[d] = c; va.k.itv = true; va.k.v = mk_itv(X(Q(-1)), X(Q(num))); isl("linexpr1/set_list", a.linexpr0, va); }
    bool i1 = true, r1 = true; for (auto& p : va.t) if (!czero(p.second)) (p.first < e.I.size() ? r1 : i1) = false; require(ap_linexpr1_is_integer(&a) == i1, "linexpr1/is_integer", ""); require(ap_linexpr1_is_real(&a) == r1, "linexpr1/is_real", ""); ap_linexpr1_t c = ap_linexpr1_copy(&a); isl("linexpr1/copy", c.linexpr0, va); envis("linexpr1/copy", c.env, e); ap_linexpr1_clear(&c); require(!c.linexpr0 && !c.env, "linexpr1/clear", "fields not NULL"); envis("linexpr1/make", a.env, e); ap_linexpr1_clear(&a);
  } else if (what == 1) { label("linexpr1/extend_environment"); ap_linexpr1_t a = ap_linexpr1_of_linexpr0(E, build(g, va)), r; bool bad = ap_linexpr1_extend_environment(&r, &a, F); require(bad == !le, "linexpr1/extend_environment/return", "returns " + std::to_string(bad)); if (!bad) { if (le) isl("linexpr1/extend_environment", r.linexpr0, emb(va)); envis("linexpr1/extend_environment", r.env, f); ap_linexpr1_clear(&r); } isl("linexpr1/extend_environment/argument", a.linexpr0, va); bad = ap_linexpr1_extend_environment_with(&a, F); require(bad == !le, "linexpr1/extend_environment_with/return", ""); isl("linexpr1/extend_environment_with", a.linexpr0, le ? emb(va) : va); envis("linexpr1/extend_environment_with", a.env, le ? f : e); ap_linexpr1_clear(&a); }
  else if (what == 2) { label("lincons1"); VC vc = gvc(g, n); ap_linexpr1_t x = ap_linexpr1_of_linexpr0(E, build(g, vc.e)); ap_lincons1_t c = ap_lincons1_make(vc.op, &x, vc.mod ? mks(g, X(vc.m)) : nullptr), r; isvc("lincons1/make", &c.lincons0, vc); envis("lincons1/make", c.env, e); bool bad = ap_lincons1_extend_environment(&r, &c, F); require(bad == !le, "lincons1/extend_environment/return", ""); VC m = vc; if (le) m.e = emb(vc.e); if (!bad) { isvc("lincons1/extend_environment", &r.lincons0, m); envis("lincons1/extend_environment", r.env, f); ap_lincons1_clear(&r); } r = ap_lincons1_copy(&c); isvc("lincons1/copy", &r.lincons0, vc); bad = ap_lincons1_extend_environment_with(&r, F); require(bad == !le, "lincons1/extend_environment_with/return", ""); isvc("lincons1/extend_environment_with", &r.lincons0, le ? m : vc); envis("lincons1/extend_environment_with", r.env, le ? f : e); ap_lincons1_clear(&r);
    for (size_t v = 0; v < P.v.size(); v++) { auto it = std::find(al.begin(), al.end(), (int)v); bool in = it != al.end(); ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_SCALAR); bool rr = ap_lincons1_get_coeff(k, &c, P.v[v]); require(rr == !in, "lincons1/get_coeff/return", P.names[v]); if (in && !rr) isc("lincons1/get_coeff", k, at(vc.e, it - al.begin())); ap_coeff_free(k); } ap_lincons1_clear(&c); require(!c.env && !c.lincons0.linexpr0, "lincons1/clear", "fields not NULL"); ap_lincons1_t u = ap_lincons1_make_unsat(E); require(ap_lincons1_is_unsat(&u), "lincons1/make_unsat", ""); ap_lincons1_clear(&u); }
  else if (what == 3) { label("lincons1_array"); size_t s = g.below(4); vector<VC> v; ap_lincons1_array_t t = ap_lincons1_array_make(E, s); for (size_t i = 0; i < s; i++) { v.push_back(gvc(g, n)); ap_lincons1_t c; ap_environment_t* E2 = g.chance(50) ? ap_environment_copy(E) : mkenv(P, e); c.lincons0 = build(g, v[i]); c.env = E2; bool r = ap_lincons1_array_set(&t, i, &c); require(!r, "lincons1_array/set", "refused"); if (r) ap_lincons1_clear(&c); }
    if (!(e == f)) { ap_lincons1_t c = ap_lincons1_make_unsat(F); bool r = ap_lincons1_array_set(&t, 0, &c); require(r, "lincons1_array/set/environment", "a constraint over another environment was accepted"); if (r) ap_lincons1_clear(&c); } if (s) { require(ap_lincons1_array_size(&t) == s, "lincons1_array/size", ""); size_t i = g.below(s); ap_lincons1_t c = ap_lincons1_array_get(&t, i); isvc("lincons1_array/get", &c.lincons0, v[i]); envis("lincons1_array/get", c.env, e); VC w = gvc(g, n); ap_lincons1_t d; d.lincons0 = build(g, w); d.env = ap_environment_copy(E); require(!ap_lincons1_array_set(&t, i, &d), "lincons1_array/set/again", "refused"); v[i] = w; }
    ap_lincons1_array_t r; bool bad = ap_lincons1_array_extend_environment(&r, &t, F); require(bad == !le, "lincons1_array/extend_environment/return", ""); auto chk = [&](const string& key, ap_lincons1_array_t* x, bool ext) { envis(key, x->env, ext ? f : e); for (size_t i = 0; i < s; i++) { VC m = v[i]; if (ext) m.e = emb(m.e); isvc(key, &x->lincons0_array.p[i], m); } }; if (!bad) { chk("lincons1_array/extend_environment", &r, le); ap_lincons1_array_clear(&r); } chk("lincons1_array/argument", &t, false); bad = ap_lincons1_array_extend_environment_with(&t, F); chk("lincons1_array/extend_environment_with", &t, !bad); if (s && g.chance(50)) { ap_lincons1_array_clear_index(&t, 0); require(!t.lincons0_array.p[0].linexpr0, "lincons1_array/clear_index", "not NULL"); } ap_lincons1_array_clear(&t); }
  else { label("generator1"); size_t s = g.below(4); vector<VL> v; ap_generator1_array_t t = ap_generator1_array_make(E, s); for (size_t i = 0; i < s; i++) { v.push_back(gvl(g, n)); ap_linexpr1_t x = ap_linexpr1_of_linexpr0(E, build(g, v[i])); ap_generator1_t c = ap_generator1_make(AP_GEN_RAY, &x); bool r = ap_generator1_array_set(&t, i, &c); require(!r, "generator1_array/set", "refused"); if (r) ap_generator1_clear(&c); }
    if (s) { ap_generator1_t c = ap_generator1_array_get(&t, 0), d = ap_generator1_copy(&c), r; isl("generator1_array/get", c.generator0.linexpr0, v[0]); isl("generator1/copy", d.generator0.linexpr0, v[0]); bool bad = ap_generator1_extend_environment(&r, &c, F); require(bad == !le, "generator1/extend_environment/return", ""); if (!bad) { if (le) isl("generator1/extend_environment", r.generator0.linexpr0, emb(v[0])); envis("generator1/extend_environment", r.env, f); ap_generator1_clear(&r); } bad = ap_generator1_extend_environment_with(&d, F); isl("generator1/extend_environment_with", d.generator0.linexpr0, !bad && le ? emb(v[0]) : v[0]); envis("generator1/extend_environment_with", d.env, bad ? e : f);
      for (size_t w = 0; w < P.v.size(); w++) { auto it = std::find(al.begin(), al.end(), (int)w); bool in = it != al.end(); ap_coeff_t* k = ap_coeff_alloc(AP_COEFF_SCALAR); bool rr = ap_generator1_get_coeff(k, &c, P.v[w]); require(rr == !in, "generator1/get_coeff/return", P.names[w]); if (in && !rr) isc("generator1/get_coeff", k, at(v[0], it - al.begin())); ap_coeff_free(k); } ap_generator1_clear(&d); }
    ap_generator1_array_t r; bool bad = ap_generator1_array_extend_environment(&r, &t, F); require(bad == !le, "generator1_array/extend_environment/return", ""); if (!bad) { envis("generator1_array/extend_environment", r.env, f); if (le) for (size_t i = 0; i < s; i++) isl("generator1_array/extend_environment", r.generator0_array.p[i].linexpr0, emb(v[i])); ap_generator1_array_clear(&r); } bad = ap_generator1_array_extend_environment_with(&t, F); if (!bad && le) for (size_t i = 0; i < s; i++) isl("generator1_array/extend_environment_with", t.generator0_array.p[i].linexpr0, emb(v[i])); ap_generator1_array_clear(&t); }
  envis("linexpr1/arguments", E, e); envis("linexpr1/arguments", F, f); require(E->count == ce && F->count == cf, "linexpr1/count", "reference counts are " + std::to_string(E->count) + " and " + std::to_string(F->count) + " instead of " + std::to_string(ce) + " and " + std::to_string(cf));
  ap_environment_free(E); ap_environment_free(F); if (P.custom) require(g_live == 0, "linexpr1/variables-leak", std::to_string(g_live) + " copies of variables are still alive");
}
static Mode M_linexpr1("linexpr1", m_linexpr1);
