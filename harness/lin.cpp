// Linearization and evaluation of expressions over a box of values (ap_linearize.h), judged pointwise.
#include "dom.h"
#include "ap_linearize.h"
#include "ops.h"

static ap_scalar_discr_t gdiscr(Rng& g) { return g.pick(vector<ap_scalar_discr_t>{AP_SCALAR_DOUBLE, AP_SCALAR_MPQ, AP_SCALAR_MPFR}); }
static const char* dname(ap_scalar_discr_t d) { return d == AP_SCALAR_DOUBLE ? "double" : d == AP_SCALAR_MPQ ? "mpq" : "mpfr"; }
static bool sdiscr(ap_scalar_t* s, ap_scalar_discr_t d) { return s->discr == d; }
static bool cdiscr(ap_coeff_t* c, ap_scalar_discr_t d) { return c->discr == AP_COEFF_SCALAR ? sdiscr(c->val.scalar, d) : sdiscr(c->val.interval->inf, d) && sdiscr(c->val.interval->sup, d); }
static bool ediscr(ap_linexpr0_t* e, ap_scalar_discr_t d) { if (!cdiscr(&e->cst, d)) return false; for (size_t i = 0; i < e->size; i++) if (e->discr == AP_LINEXPR_DENSE ? !cdiscr(&e->p.coeff[i], d) : e->p.linterm[i].dim != AP_DIM_MAX && !cdiscr(&e->p.linterm[i].coeff, d)) return false; return true; }
static bool equasi(ap_linexpr0_t* e) { for (size_t i = 0; i < e->size; i++) { if (e->discr == AP_LINEXPR_SPARSE && e->p.linterm[i].dim == AP_DIM_MAX) continue; if ((e->discr == AP_LINEXPR_DENSE ? &e->p.coeff[i] : &e->p.linterm[i].coeff)->discr != AP_COEFF_SCALAR) return false; } return true; }

// interval product and exact interval evaluation over a box
static X xmul(const X& a, const X& b) { int sa = a.inf ? a.inf : sgn(a.q), sb = b.inf ? b.inf : sgn(b.q); if (!sa || !sb) return X(Q(0)); if (a.inf || b.inf) return sa * sb > 0 ? pinf() : ninf(); return X(Q(a.q * b.q)); }
static Itv imul(const Itv& a, const Itv& b) { X p[4] = {xmul(a.lo, b.lo), xmul(a.lo, b.hi), xmul(a.hi, b.lo), xmul(a.hi, b.hi)}; Itv r = mk_itv(p[0], p[0]); for (auto& x : p) { if (cmp(x, r.lo) < 0) r.lo = x; if (cmp(x, r.hi) > 0) r.hi = x; } return r; }
static Itv ieval(const LE& e, const vector<Itv>& b) { Itv r = e.k; for (size_t i = 0; i < e.c.size(); i++) if (!(is_pt(e.c[i]) && sgn(e.c[i].lo.q) == 0)) r = iadd(r, imul(e.c[i], b[i])); return r; }
static bool within(const Itv& a, const Itv& b) { return cmp(b.lo, a.lo) <= 0 && cmp(a.hi, b.hi) <= 0; }

struct Ctx { Shape s; vector<Pt> ps; vector<Itv> box; A0 a; };
// an abstract value around points: a box, or a value of the domain
static Ctx ctx(Rng& g, const Man& m) {
  Ctx c; c.s = gshape(g, 4); c.ps = gpts(g, c.s, g.range(1, 5));
  if (g.chance(70)) { vector<Itv> b(c.s.N);
    for (size_t i = 0; i < c.s.N; i++) { b[i] = pt_itv(c.ps[0][i]); for (auto& p : c.ps) { if (cmp(X(p[i]), b[i].lo) < 0) b[i].lo = X(p[i]); if (cmp(X(p[i]), b[i].hi) > 0) b[i].hi = X(p[i]); }
      int r = g.below(12); if (r == 0) b[i].lo = ninf(); else if (r == 1) b[i].hi = pinf(); else if (r == 2) b[i] = Itv(); else if (r < 6) { b[i].lo.q -= abs(i < c.s.I ? gint(g, c.s.pr) : gnum(g, c.s.pr)); b[i].hi.q += abs(i < c.s.I ? gint(g, c.s.pr) : gnum(g, c.s.pr)); } }
    ap_interval_t** t = mk_box(g, b); c.a = A0(m, ap_abstract0_of_box(m, c.s.I, c.s.N - c.s.I, t)); ap_interval_array_free(t, c.s.N);
    string d; for (auto& i : b) d += str(i); desc("box " + d + " int " + std::to_string(c.s.I));
    for (int k = 0; k < 4; k++) { Pt p(c.s.N); bool ok = true; for (size_t i = 0; i < c.s.N; i++) { p[i] = pick_in(g, b[i], i < c.s.I); if (i < c.s.I && !isint(p[i])) ok = false; } if (ok) c.ps.push_back(p); }
  } else { c.a = build(g, m, c.s, c.ps); desc("value " + describe(m, c.a)); }
  ap_abstract0_is_bottom(m, c.a); c.box = get_box(m, A0(m, ap_abstract0_copy(m, c.a)), c.s.N); string d; // (the test first: it may cache a closed octagon) for (auto& p : c.ps) d += str(p); desc("points " + d);
  return c; }
static TOpt gopt(Rng& g) { TOpt o; o.rounding = g.chance(55); o.nonlin = g.chance(75); o.itv = g.chance(50); return o; }
static TP gtree(Rng& g, const Ctx& c) { TOpt o = gopt(g); return gtx(g, c.s.N, c.s.pr, o, g.range(1, 4)); }
static bool tree_scalar(const TP& t) { return t->kind == 0 ? is_pt(t->cst) : t->kind == 1 ? true : tree_scalar(t->a) && (!binop(t->op) || tree_scalar(t->b)); }

static void lin_judge(Rng& g, const Ctx& c, const string& key, const TP& t, ap_linexpr0_t* r, ap_scalar_discr_t d, bool quasi) {
  LE e; if (!r) { violation(key + "/null", "no result"); return; } if (!rd(r, c.s.N, e)) { violation(key + "/dimensions", "the result uses dimensions beyond the expression's"); return; }
  judged(); if (!ediscr(r, d)) violation(key + "/scalars", string("the result is not made of ") + dname(d) + " scalars"); if (quasi && !equasi(r)) violation(key + "/quasilinear", "the result has interval coefficients: " + str(e));
  if (!(e.k.lo.inf && e.k.hi.inf)) nontrivial(R().inputs);
  bool ex = d == AP_SCALAR_MPQ && tree_linear_real(t);
  for (auto& p : c.ps) for (int k = 0; k < 2; k++) { auto v = eval(g, t, p); if (!v) { stat("undefined-value"); continue; } judged(); Itv i = eval(e, p);
    if (!i.has(*v)) { violation(key + "/lost", "at " + str(p) + " the expression " + str(t) + " may be " + str(*v) + " but its linear form " + str(e) + " is in " + str(i)); return; }
    if (ex && !is_pt(i)) { violation(key + "/linear-exact", "the linear expression " + str(t) + " became " + str(e)); return; } } }

static void m_eval(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Ctx c = ctx(g, m); if (ap_abstract0_is_bottom(m, c.a)) return; ap_scalar_discr_t D = gdiscr(g); desc(dname(D)); string kd = d.name + "/" ; bool ex = false;
  switch (g.below(8)) {
  case 7: { // linearization of syntactically linear trees, without values
    TP t = gtree(g, c); desc(str(t)); string key = "intlinearize_texpr_intlinear/" + string(dname(D)); label(key); ap_texpr0_t* x = mk(g, t); bool lin = ap_texpr0_is_interval_linear(x); ap_linexpr0_t* r = ap_intlinearize_texpr0_intlinear(m, x, D); judged();
    if (!lin && !r) stat("not-linear"); else { lin_judge(g, c, key, t, r, D, false); if (r) ap_linexpr0_free(r); } ap_texpr0_free(x); break; }
  case 0: case 1: { // evaluation of trees
    TP t = gtree(g, c); desc(str(t)); string key = "eval_texpr/" + string(dname(D)); label(key); ap_texpr0_t* x = mk(g, t); ap_interval_t* i = ap_eval_texpr0(m, c.a, x, D, g.chance(80) ? &ex : nullptr); Itv v = xitv(i); judged();
    if (!sdiscr(i->inf, D) || !sdiscr(i->sup, D)) violation(key + "/scalars", "wrong scalars"); if (!v.top()) nontrivial(R().inputs);
    for (auto& p : c.ps) for (int k = 0; k < 2; k++) { auto q = eval(g, t, p); if (!q) { stat("undefined-value"); continue; } judged(); if (!v.has(*q)) { violation(key + "/lost", "at " + str(p) + " the expression " + str(t) + " may be " + str(*q) + ", not in " + str(v)); break; } }
    ap_interval_free(i); ap_texpr0_free(x); break; }
  case 2: { // evaluation of linear expressions
    LE e = gle(g, c.s.N, c.s.pr, 50, g.chance(50)); desc(str(e)); string key = "eval_linexpr/" + string(dname(D)); label(key); ap_linexpr0_t* x = mk(g, e); ap_interval_t* i = ap_eval_linexpr0(m, c.a, x, D, &ex); Itv v = xitv(i), ref = ieval(e, c.box); judged(); if (!v.top()) nontrivial(R().inputs);
    if (!within(ref, v)) violation(key + "/lost", str(e) + " evaluates to " + str(v) + " but takes the values " + str(ref)); else if (ex && !within(v, ref)) violation(key + "/exact", str(e) + " evaluates exactly to " + str(v) + " instead of " + str(ref));
    if (D == AP_SCALAR_MPQ && !within(v, ref)) violation(key + "/rational", str(e) + " evaluates to " + str(v) + " instead of " + str(ref));
    ap_interval_free(i); ap_linexpr0_free(x); break; }
  case 3: case 4: { // interval linearization
    TP t = gtree(g, c); bool q = g.chance(50); desc(str(t) + (q ? " quasilinear" : "")); string key = "intlinearize_texpr/" + string(dname(D)); label(key); ap_texpr0_t* x = mk(g, t); ap_linexpr0_t* r = ap_intlinearize_texpr0(m, c.a, x, &ex, D, q);
    lin_judge(g, c, key, t, r, D, q); TP t2; bool ok = rdtree(x, t2) && same(t, t2); require(ok, key + "/argument", "the expression changed"); if (r) ap_linexpr0_free(r); ap_texpr0_free(x); break; }
  case 5: { // arrays of trees
    size_t n = g.range(0, 3); vector<TP> ts; vector<ap_texpr0_t*> xs; for (size_t i = 0; i < n; i++) { ts.push_back(gtree(g, c)); desc(str(ts[i])); xs.push_back(mk(g, ts[i])); } bool q = g.chance(50); string key = "intlinearize_texpr_array/" + string(dname(D)); label(key); xs.push_back(nullptr);
    ap_linexpr0_t** r = ap_intlinearize_texpr0_array(m, c.a, xs.data(), n, &ex, D, q); for (size_t i = 0; i < n; i++) { lin_judge(g, c, key, ts[i], r[i], D, q); ap_linexpr0_free(r[i]); ap_texpr0_free(xs[i]); } free(r); break; }
  case 6: { // quasilinearization of interval linear expressions
    size_t n = g.range(1, 3); bool one = g.chance(50); if (one) n = 1; vector<LE> es; vector<ap_linexpr0_t*> xs; for (size_t i = 0; i < n; i++) { es.push_back(gle(g, c.s.N, c.s.pr, 50, g.chance(70))); desc(str(es[i])); xs.push_back(mk(g, es[i])); }
    string key = "quasilinearize_linexpr/" + string(dname(D)); label(key); ap_linexpr0_t** r; ap_linexpr0_t* r1; if (one) { r1 = ap_quasilinearize_linexpr0(m, c.a, xs[0], &ex, D); r = &r1; } else r = ap_quasilinearize_linexpr0_array(m, c.a, xs.data(), n, &ex, D);
    for (size_t i = 0; i < n; i++) { LE e; judged(); if (!r[i] || !rd(r[i], c.s.N, e)) { violation(key + "/shape", "ill-formed result"); continue; } if (!equasi(r[i])) { bool allpt = true; for (auto& k : e.c) if (!is_pt(k)) allpt = false; if (!allpt) violation(key + "/quasilinear", "still " + str(e)); }
      if (!es[i].quasi()) nontrivial(R().inputs);
      for (auto& p : c.ps) { Itv a = eval(es[i], p), b = eval(e, p); judged(); if (!within(a, b)) { violation(key + "/lost", "at " + str(p) + ", " + str(es[i]) + " is " + str(a) + " but became " + str(e) + " which is " + str(b)); break; } }
      LE f; bool okf = rd(xs[i], c.s.N, f) && str(f) == str(es[i]); require(okf, key + "/argument", "the expression changed to " + str(f)); }
    for (size_t i = 0; i < n; i++) { if (r[i] != xs[i]) ap_linexpr0_free(r[i]); } if (!one && r != xs.data()) free(r); for (auto x : xs) ap_linexpr0_free(x); break; }
  }
  stat(string("discr:") + dname(D));
}
static Mode M_eval("eval", m_eval);

// ---- constraints
struct TC { TP t; ap_constyp_t op; Q mod; };
static string str(const TC& c) { return str(c.t) + " " + opname(c.op) + " " + str(c.mod); }
static ap_tcons0_t mk(Rng& g, const TC& c) { ap_scalar_t* s = nullptr; if (c.op == AP_CONS_EQMOD) { s = ap_scalar_alloc(); set_scalar(g, s, X(c.mod), SK_MPQ); } return ap_tcons0_make(c.op, mk(g, c.t), s); }
static TC gtc(Rng& g, const Ctx& c) { TC r; r.op = g.pick(vector<ap_constyp_t>{AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQMOD, AP_CONS_DISEQ}); r.mod = 0; if (r.op == AP_CONS_EQMOD) r.mod = g.chance(15) ? Q(0) : abs(gnum(g, c.s.pr)); TP t = gtree(g, c);
  if (g.chance(60)) { auto v = eval(g, t, g.pick(c.ps)); if (v) { t = tnode(AP_TEXPR_SUB, t, tcst(pt_itv(*v))); if (g.chance(50)) t = tnode(AP_TEXPR_NEG, t, nullptr); } } r.t = t; return r; }

static void judge_meet(Rng& g, const Ctx& c, const string& key, const Pt& p, ap_lincons0_t* l, size_t n, const string& what) {
  for (size_t i = 0; i < n; i++) { LC k; judged(); if (!rd(&l[i], c.s.N, k)) { violation(key + "/dimensions", "ill-formed constraint"); return; } if (!may_hold(eval(k.e, p), k.op, k.mod)) { violation(key + "/lost", "the point " + str(p) + " satisfies " + what + " but not " + str(k)); return; } } }
static void m_cons(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Ctx c = ctx(g, m); if (ap_abstract0_is_bottom(m, c.a)) return; ap_scalar_discr_t D = gdiscr(g); desc(dname(D)); bool ex = false; bool meet = g.chance(75); desc(meet ? "meet" : "test"); string sfx = string("/") + dname(D) + (meet ? "" : "/test");
  switch (g.below(6)) {
  case 0: case 1: { TC t = gtc(g, c); bool q = g.chance(60); desc(str(t) + (q ? " quasilinear" : "")); string key = "intlinearize_tcons" + sfx; label(key); ap_tcons0_t x = mk(g, t); ap_lincons0_t r = ap_intlinearize_tcons0(m, c.a, &x, &ex, D, q, meet); LC k; judged();
    if (!r.linexpr0 || !rd(&r, c.s.N, k)) violation(key + "/shape", "ill-formed result"); else { if (!ediscr(r.linexpr0, D)) violation(key + "/scalars", "wrong scalars"); if (q && !equasi(r.linexpr0)) violation(key + "/quasilinear", "interval coefficients: " + str(k)); nontrivial(R().inputs);
      for (auto& p : c.ps) { auto v = eval(g, t.t, p); if (!v) { stat("undefined-value"); continue; } if (holds(*v, t.op, t.mod)) { if (meet) judge_meet(g, c, key, p, &r, 1, str(t)); } else if (!meet) { judged(); if (must_hold(eval(k.e, p), k.op, k.mod)) violation(key + "/false", "every value of " + str(k) + " satisfies it at " + str(p) + " but " + str(t) + " does not hold: " + str(*v)); } } }
    if (r.linexpr0) ap_lincons0_clear(&r); ap_tcons0_clear(&x); break; }
  case 2: case 3: { size_t n = g.range(0, 3); vector<TC> ts; ap_tcons0_array_t x = ap_tcons0_array_make(n); for (size_t i = 0; i < n; i++) { ts.push_back(gtc(g, c)); desc(str(ts[i])); x.p[i] = mk(g, ts[i]); }
    ap_linexpr_type_t ty = g.pick(vector<ap_linexpr_type_t>{AP_LINEXPR_INTLINEAR, AP_LINEXPR_QUASILINEAR, AP_LINEXPR_LINEAR}); bool bx = g.chance(60), io = g.chance(50); size_t km = g.range(1, 4); desc("type " + std::to_string(ty) + (bx ? " boxize" : "") + (io ? " intervals only" : "") + " kmax " + std::to_string(km));
    string key = "intlinearize_tcons_array" + sfx; label(key); ap_lincons0_array_t r = ap_intlinearize_tcons0_array(m, c.a, &x, &ex, D, ty, meet, bx, km, io); vector<LC> ks(r.size); bool ok = true; nontrivial(R().inputs);
    for (size_t i = 0; i < r.size; i++) { judged(); if (!rd(&r.p[i], c.s.N, ks[i])) { violation(key + "/shape", "ill-formed constraint"); ok = false; continue; } if (!ediscr(r.p[i].linexpr0, D)) violation(key + "/scalars", "wrong scalars");
      if (ty != AP_LINEXPR_INTLINEAR && !equasi(r.p[i].linexpr0)) violation(key + "/quasilinear", "interval coefficients: " + str(ks[i])); if (ty == AP_LINEXPR_LINEAR && (ks[i].op == AP_CONS_EQ || ks[i].op == AP_CONS_SUPEQ || ks[i].op == AP_CONS_SUP) && !is_pt(ks[i].e.k)) violation(key + "/linear", "an interval constant: " + str(ks[i])); }
    if (ok) for (auto& p : c.ps) { bool all = true, undef = false, some = false; for (auto& t : ts) { auto v = eval(g, t.t, p); if (!v) { undef = true; break; } if (!holds(*v, t.op, t.mod)) all = false; }
      if (undef) { stat("undefined-value"); continue; } if (all) { stat("satisfying-points"); if (meet) judge_meet(g, c, key, p, r.p, r.size, "all constraints"); }
      else if (!meet && (void(some), true)) { bool must = true; for (auto& k : ks) if (!must_hold(eval(k.e, p), k.op, k.mod)) must = false; judged(); if (must) violation(key + "/false", "the result holds at " + str(p) + " where the constraints do not"); } }
    ap_lincons0_array_clear(&r); ap_tcons0_array_clear(&x); break; }
  case 4: { LC l; l.e = gle(g, c.s.N, c.s.pr, 50, g.chance(70)); l.op = g.pick(vector<ap_constyp_t>{AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQMOD, AP_CONS_DISEQ}); if (l.op == AP_CONS_EQMOD) l.mod = abs(gnum(g, c.s.pr)); if (g.chance(50) && !l.e.k.lo.inf && !l.e.k.hi.inf) { Itv v = eval(l.e, g.pick(c.ps)); const X& b = g.chance(70) ? v.hi : v.lo; if (!b.inf) { l.e.k.lo.q -= b.q; l.e.k.hi.q -= b.q; } }
    desc(str(l)); string key = "quasilinearize_lincons" + sfx; label(key); ap_lincons0_t x = mk(g, l); ap_lincons0_t r = ap_quasilinearize_lincons0(m, c.a, &x, &ex, D, meet); LC k; judged(); if (!rd(&r, c.s.N, k)) { violation(key + "/shape", "ill-formed"); } else { if (!equasi(r.linexpr0)) { bool allpt = true; for (auto& z : k.e.c) if (!is_pt(z)) allpt = false; if (!allpt) violation(key + "/quasilinear", "still " + str(k)); } if (!l.e.quasi()) nontrivial(R().inputs);
      for (auto& p : c.ps) { if (meet && may_hold(eval(l.e, p), l.op, l.mod)) judge_meet(g, c, key, p, &r, 1, str(l)); if (!meet && !must_hold(eval(l.e, p), l.op, l.mod)) { judged(); if (must_hold(eval(k.e, p), k.op, k.mod)) violation(key + "/false", str(k) + " always holds at " + str(p) + " where " + str(l) + " may fail"); } } }
    if (r.linexpr0 != x.linexpr0) ap_lincons0_clear(&r); ap_lincons0_clear(&x); break; }
  default: { size_t n = g.range(1, 3); vector<LC> ls; for (size_t i = 0; i < n; i++) { LC l; l.e = gle(g, c.s.N, c.s.pr, 50, g.chance(60)); l.op = g.pick(vector<ap_constyp_t>{AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQMOD, AP_CONS_DISEQ}); if (l.op == AP_CONS_EQMOD) l.mod = abs(gnum(g, c.s.pr)); if (g.chance(70) && !l.e.k.lo.inf && !l.e.k.hi.inf) { Itv v = eval(l.e, g.pick(c.ps)); const X& b = g.chance(70) ? v.hi : v.lo; if (!b.inf) { l.e.k.lo.q -= b.q; l.e.k.hi.q -= b.q; } } ls.push_back(l); desc(str(l)); }
    bool lz = g.chance(60); string key = "quasilinearize_lincons_array" + sfx + (lz ? "/linear" : ""); label(key); desc(lz ? "linearize" : ""); ap_lincons0_array_t x = mk(g, ls); ap_lincons0_array_t r = ap_quasilinearize_lincons0_array(m, c.a, &x, &ex, D, lz, meet); vector<LC> ks(r.size); bool ok = true; nontrivial(R().inputs);
    for (size_t i = 0; i < r.size; i++) { judged(); if (!rd(&r.p[i], c.s.N, ks[i])) { violation(key + "/shape", "ill-formed constraint"); ok = false; } else if (!ks[i].e.quasi()) violation(key + "/quasilinear", "still " + str(ks[i])); else if (lz && ks[i].op <= AP_CONS_SUP && !is_pt(ks[i].e.k)) violation(key + "/linear", "an interval constant: " + str(ks[i])); }
    if (ok) for (auto& p : c.ps) { bool all = true, must = true; for (auto& l : ls) { Itv v = eval(l.e, p); if (!may_hold(v, l.op, l.mod)) all = false; if (!must_hold(v, l.op, l.mod)) must = false; }
      if (all && meet) { stat("satisfying-points"); judge_meet(g, c, key, p, r.p, r.size, "all constraints"); } if (!must && !meet) { bool mm = true; for (auto& k : ks) if (!must_hold(eval(k.e, p), k.op, k.mod)) mm = false; judged(); if (mm) violation(key + "/false", "the result always holds at " + str(p) + " where the constraints may fail"); } }
    if (r.p != x.p) ap_lincons0_array_clear(&r); ap_lincons0_array_clear(&x); break; }
  }
  stat(string("discr:") + dname(D));
}
static Mode M_cons("cons", m_cons);
int main(int argc, char** argv) { return harness_main(argc, argv); }
