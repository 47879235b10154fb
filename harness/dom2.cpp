// Abstract-domain workloads: predicates, property extraction, precision, widening, value semantics.
#include "dom.h"

// The recorded defects of loose polyhedra with strict constraints have keys of their own: the expression has only
// integer dimensions (or none), or some ray of the region lies on the hyperplane of the constraint.
static std::string strict_defect(const Dom& d, const LC& c, const Poly& P, size_t I) {
  if (c.op != AP_CONS_SUP || (d.name != std::string("polka") && d.name != std::string("polkaeq") && d.name != std::string("pkgrid"))) return "";
  bool ints = true; for (size_t i = I; i < c.e.c.size(); i++) if (c.e.c[i].lo.q != 0) ints = false;
  if (ints) return "/strict-on-integers";
  for (const auto& g : P.minimized_generators()) if (g.is_ray()) { Q v; for (size_t i = 0; i < g.space_dimension(); i++) v += c.e.c[i].lo.q * Q(g.coefficient(PPL::Variable(i))); if (v == 0) return "/strict-on-ray"; }
  return "";
}
static A0 gval(Rng& g, const Man& m, const Shape& s, vector<Pt>& ps, int maxp = 3) {
  ps = gpts(g, s, g.range(1, maxp));
  if (g.chance(5)) { ps.clear(); return A0(m, ap_abstract0_bottom(m, s.I, s.N - s.I)); }
  return build(g, m, s, ps);
}
// exact region when the value is convex and described by its constraints
static bool region(const Man& m, const A0& a, Poly& P) { bool md = false; return m.d->convex && gamma(m, a, P, &md) && !md; }
static bool exactflag(const Man& m) { return m.m->result.flag_exact; }
static string flags(const Man& m) { return string(m.m->result.flag_exact ? " exact" : "") + (m.m->result.flag_best ? " best" : ""); }
static Itv gitv(Rng& g, const Prof& p) { Q a = gnum(g, p), b = g.chance(20) ? a : Q(a + abs(gnum(g, p))); Itv v = mk_itv(X(a), X(b)); if (g.chance(20)) v.lo = ninf(); if (g.chance(20)) v.hi = pinf(); return v; }

// ------------------------------------------------------------------ predicates
static void m_pred(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g);
  int kind = g.below(9);
  static const char* on[] = {"is_bottom", "is_top", "is_leq", "is_eq", "sat_interval", "sat_lincons", "sat_tcons", "is_dimension_unconstrained", "is_leq"};
  string op = on[kind];
  if (!s.N && (kind == 4 || kind == 7)) { s.N = 1; s.I = 0; }
  label(d.name + "/" + op);
  desc(d.name + " " + op + " I=" + std::to_string(s.I) + " N=" + std::to_string(s.N));
  vector<Pt> ps; A0 a;
  if (g.chance(12)) { a = A0(m, ap_abstract0_top(m, s.I, s.N - s.I)); ps.push_back(gpt(g, s)); if (g.chance(50)) a = perturb(g, m, std::move(a)); }
  else if (g.chance(12)) { // contradictory constraints
    vector<LC> cs; for (int i = g.range(2, 4); i > 0; i--) { LC c; c.e = d.oct ? goct(g, s.N, s.pr) : gle(g, s.N, s.pr); c.op = g.pick(vector<ap_constyp_t>{AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ}); cs.push_back(c); desc("of " + str(c)); }
    ap_lincons0_array_t l = mk(g, cs); a = perturb(g, m, A0(m, ap_abstract0_of_lincons_array(m, s.I, s.N - s.I, &l))); ap_lincons0_array_clear(&l); }
  else a = gval(g, m, s, ps);
  desc("a=" + describe(m, a));
  Poly P = puniv(s.N); bool haveP = region(m, a, P);
  vector<Pt> w = witnesses(g, m, a, s, ps);
  if (haveP && ps.empty() && P.is_empty()) w.clear();
  bool real = s.I == 0;
  string key = d.name + "/" + op + (s.I ? "/int" : "/real");
  label(d.name + "/" + op);
  auto outcome = [&](bool r) { stat("op:" + d.name + "/" + op); stat(string("answer:") + op + (r ? ":true" : exactflag(m) ? ":false-exact" : ":unknown")); nontrivial(R().inputs); };
  switch (kind) {
  case 0: {
    bool r = ap_abstract0_is_bottom(m, a); bool ex = exactflag(m); outcome(r); judged();
    if (r && !w.empty()) violation(key + "/true", "is_bottom answers true but " + str(w[0]) + " belongs to the value");
    if (!r && ex && real && haveP && P.is_empty()) violation(key + "/false-exact", "is_bottom answers false exactly but the constraints have no solution");
    if (r && haveP && real && !P.is_empty()) violation(key + "/true", "is_bottom answers true but the constraints are satisfiable");
    break; }
  case 1: {
    bool r = ap_abstract0_is_top(m, a); bool ex = exactflag(m); outcome(r); judged();
    if (r && haveP && !P.is_universe()) violation(key + "/true", "is_top answers true but constraints remain");
    if (r) for (int i = 0; i < 2; i++) check_in(g, m, a, gpt(g, s), s.I, key + "/true", "is_top answered true", s.pr, 2);
    if (!r && ex && real && haveP && P.is_universe()) violation(key + "/false-exact", "is_top answers false exactly on the universe");
    break; }
  case 2: case 3: case 8: {
    vector<Pt> p2; A0 b;
    int how = g.below(5);
    if (how == 0) b = a.copy();
    else if (how == 1) { A0 c = gval(g, m, s, p2); b = A0(m, ap_abstract0_join(m, false, a, c)); }
    else if (how == 2) { A0 c = ps.empty() ? gval(g, m, s, p2) : build(g, m, s, ps); b = A0(m, ap_abstract0_meet(m, false, a, c)); }
    else if (how == 3) { // rebuilt from its own constraints
      ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, a); b = A0(m, ap_abstract0_of_lincons_array(m, s.I, s.N - s.I, &l)); ap_lincons0_array_clear(&l); }
    else b = gval(g, m, s, p2);
    b = perturb(g, m, std::move(b)); desc("b=" + describe(m, b));
    bool swap = how < 4 && g.chance(50); A0& x = swap ? b : a; A0& y = swap ? a : b;
    Poly X_ = puniv(s.N), Y = puniv(s.N); bool hx = region(m, x, X_), hy = region(m, y, Y);
    vector<Pt> wx = witnesses(g, m, x, s, swap ? vector<Pt>() : ps), wy = witnesses(g, m, y, s, swap ? ps : vector<Pt>());
    if (wx.empty() && swap && how == 1) wx = ps; if (!swap && how == 1) { wy = ps; wy.insert(wy.end(), p2.begin(), p2.end()); }
    label(d.name + "/" + op);
    bool r = kind == 3 ? ap_abstract0_is_eq(m, x, y) : ap_abstract0_is_leq(m, x, y); bool ex = exactflag(m); outcome(r); judged();
    string dir = swap ? " (b against a)" : " (a against b)";
    if (r) {
      for (size_t i = 0; i < wx.size() && i < 3; i++) check_in(g, m, y, wx[i], s.I, key + "/true", op + " answered true" + dir, s.pr, 2);
      if (kind == 3) for (size_t i = 0; i < wy.size() && i < 3; i++) check_in(g, m, x, wy[i], s.I, key + "/true", op + " answered true" + dir, s.pr, 2);
      if (hx && hy && real) { judged(); if (!Y.contains(X_) || (kind == 3 && !X_.contains(Y))) violation(key + "/true", op + " answered true" + dir + " but the constraints disagree"); }
    } else if (ex && hx && hy && real) { judged(); bool truth = Y.contains(X_) && (kind != 3 || X_.contains(Y)); if (truth) violation(key + "/false-exact", op + " answered false exactly" + dir + " but the relation holds"); }
    // reflexivity where the library claims exactness is covered by how==0
    break; }
  case 4: {
    size_t dim = g.below(s.N); Itv v = gitv(g, s.pr);
    if (haveP && g.chance(60)) { Itv t = pdim(P, dim); if (!t.empty()) { if (g.chance(70)) v.lo = t.lo; if (g.chance(70)) v.hi = t.hi; if (g.chance(25) && !v.lo.inf) v.lo.q += frac(1, 64); if (g.chance(25) && !v.hi.inf) v.hi.q -= frac(1, 64); } }
    desc("x" + std::to_string(dim) + " in " + str(v));
    ap_interval_t* i = ap_interval_alloc(); set_scalar(g, i->inf, v.lo); set_scalar(g, i->sup, v.hi);
    bool r = ap_abstract0_sat_interval(m, a, dim, i); bool ex = exactflag(m); ap_interval_free(i); outcome(r); judged();
    if (r) { for (auto& p : w) if (!v.has(p[dim])) { violation(key + "/true", "sat_interval answers true but " + str(p) + " is a counter-example"); break; }
      if (haveP && real && !P.is_empty()) { Itv t = pdim(P, dim); if (cmp(t.lo, v.lo) < 0 || cmp(t.hi, v.hi) > 0) violation(key + "/true", "sat_interval answers true but the dimension ranges over " + str(t)); } }
    else if (ex && haveP && real) { Itv t = pdim(P, dim); if (P.is_empty() || (cmp(t.lo, v.lo) >= 0 && cmp(t.hi, v.hi) <= 0)) violation(key + "/false-exact", "sat_interval answers false exactly but the dimension ranges over " + str(t)); }
    break; }
  case 5: {
    LC c; c.e = d.oct && g.chance(60) ? goct(g, s.N, s.pr) : gle(g, s.N, s.pr, 50, g.chance(20));
    c.op = g.pick(vector<ap_constyp_t>{AP_CONS_SUPEQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ, AP_CONS_EQMOD, AP_CONS_DISEQ});
    if (c.op == AP_CONS_EQMOD) c.mod = g.chance(80) ? Q(g.range(1, 5)) : Q(0);
    if (haveP && c.e.scalar() && g.chance(70)) { Itv t = prange(P, c.e); X b = g.chance(70) ? t.lo : t.hi; if (!b.inf && !t.empty()) { c.e.k = pt_itv(Q(c.e.k.lo.q - b.q)); if (g.chance(30)) c.e.k = pt_itv(Q(c.e.k.lo.q - frac(1, 64))); } }
    else if (!w.empty() && c.e.scalar() && g.chance(60)) c.e.k = pt_itv(Q(c.e.k.lo.q - evalq(c.e, w[0])));
    desc("cons " + str(c));
    ap_lincons0_t l = mk(g, c); bool r = ap_abstract0_sat_lincons(m, a, &l); bool ex = exactflag(m); ap_lincons0_clear(&l); outcome(r); judged();
    if (r) { for (auto& p : w) if (!may_hold(eval(c.e, p), c.op, c.mod)) { violation(key + "/true", "sat_lincons answers true but " + str(p) + " is a counter-example"); break; } }
    if (haveP && real && c.e.scalar() && c.op <= AP_CONS_SUP) { Poly C = puniv(s.N); padd(C, c); bool truth = C.contains(P);
      if (r && !truth) violation(key + "/true", "sat_lincons answers true but the region is not included");
      if (!r && ex && truth) violation(key + "/false-exact" + strict_defect(d, c, P, s.I), "sat_lincons answers false exactly but the constraint holds"); }
    break; }
  case 6: {
    TOpt o; o.rounding = g.chance(30); o.itv = false; TP t = gtx(g, s.N, s.pr, o, g.range(1, 3)); LC c;
    c.op = g.pick(vector<ap_constyp_t>{AP_CONS_SUPEQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ, AP_CONS_EQMOD, AP_CONS_DISEQ}); if (c.op == AP_CONS_EQMOD) c.mod = Q(g.range(1, 5));
    if (!w.empty() && g.chance(50)) { auto v = eval(g, t, w[0]); if (v && mpz_sizeinbase(v->get_den_mpz_t(), 2) < 200) t = tnode(AP_TEXPR_SUB, t, tcst(pt_itv(Q(*v - (g.chance(50) ? Q(0) : frac(1, 16)))))); }
    desc("tcons " + str(t) + opname(c.op) + str(c.mod));
    ap_scalar_t* sc = nullptr; if (c.op == AP_CONS_EQMOD) { sc = ap_scalar_alloc(); set_scalar(g, sc, X(c.mod), SK_MPQ); }
    ap_tcons0_t l = ap_tcons0_make(c.op, mk(g, t), sc); bool r = ap_abstract0_sat_tcons(m, a, &l); ap_tcons0_clear(&l); outcome(r); judged();
    if (r) for (auto& p : w) { auto v = eval(g, t, p); if (v && !holds(*v, c.op, c.mod)) { violation(key + "/true", "sat_tcons answers true but " + str(p) + " is a counter-example (value " + str(*v).substr(0, 80) + ")"); break; } }
    break; }
  case 7: {
    size_t dim = g.below(s.N); desc("x" + std::to_string(dim));
    bool r = ap_abstract0_is_dimension_unconstrained(m, a, dim); bool ex = exactflag(m); outcome(r); judged();
    if (r) { for (size_t i = 0; i < w.size() && i < 3; i++) { Pt p = w[i]; p[dim] = dim < s.I ? gint(g, s.pr) : gnum(g, s.pr); check_in(g, m, a, p, s.I, key + "/true", "is_dimension_unconstrained answered true", s.pr, 2); } }
    if (haveP && real && !P.is_empty()) { Poly U = P; U.unconstrain(PPL::Variable(dim)); bool truth = P.contains(U);
      if (r && !truth) violation(key + "/true", "is_dimension_unconstrained answers true but the region depends on it");
      if (!r && ex && truth) violation(key + "/false-exact", "is_dimension_unconstrained answers false exactly on a free dimension"); }
    break; }
  }
}
static Mode M_p("pred", m_pred);

// ------------------------------------------------------------------ extraction
static bool gens_poly(ap_generator0_array_t* ga, size_t n, Poly& P, bool& mod) {
  PPL::Generator_System gs; bool pt = false; mod = false; P = pempty(n);
  for (size_t i = 0; i < ga->size; i++) {
    LE e; if (!rd(ga->p[i].linexpr0, n, e) || !e.scalar()) return false;
    if (ga->p[i].gentyp == AP_GEN_VERTEX) { Z d; e.k = pt_itv(0); PPL::Linear_Expression l = ple(e, d, n); gs.insert(PPL::point(l, d)); pt = true; }
  }
  if (!pt) { return true; }
  P = puniv(0); Poly T(n, PPL::EMPTY);
  for (auto& x : gs) T.add_generator(x);
  for (size_t i = 0; i < ga->size; i++) {
    LE e; rd(ga->p[i].linexpr0, n, e); Z d; e.k = pt_itv(0); bool z = true; for (auto& c : e.c) if (sgn(c.lo.q)) z = false; if (z && ga->p[i].gentyp != AP_GEN_VERTEX) continue;
    PPL::Linear_Expression l = ple(e, d, n);
    switch (ga->p[i].gentyp) { case AP_GEN_RAY: T.add_generator(PPL::ray(l)); break; case AP_GEN_LINE: T.add_generator(PPL::line(l)); break; case AP_GEN_VERTEX: break; default: mod = true; T.add_generator(PPL::line(l)); }
  }
  P = T; return true;
}
static void m_extract(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g); int kind = g.below(8);
  static const char* on[] = {"bound_dimension", "bound_linexpr", "bound_texpr", "to_box", "to_lincons", "to_tcons", "to_generator", "bound_linexpr"};
  string op = on[kind]; if (!s.N && kind == 0) { s.N = 1; s.I = 0; }
  label(d.name + "/" + op); desc(d.name + " " + op + " I=" + std::to_string(s.I) + " N=" + std::to_string(s.N));
  vector<Pt> ps; A0 a = gval(g, m, s, ps); desc("a=" + describe(m, a));
  Poly P = puniv(s.N); bool haveP = region(m, a, P); vector<Pt> w = witnesses(g, m, a, s, ps); bool real = s.I == 0;
  string key = d.name + "/" + op + (s.I ? "/int" : "/real"); label(d.name + "/" + op); stat("op:" + d.name + "/" + op);
  auto encl = [&](const Itv& r, const Itv& t, bool ex, const string& what) { // r must enclose the exact range t
    judged(); if (t.empty()) { return; }
    if (cmp(t.lo, r.lo) < 0 || cmp(t.hi, r.hi) > 0) violation(key + "/region", what + " gives " + str(r) + " but the exact range is " + str(t));
    if (ex && (cmp(t.lo, r.lo) != 0 || cmp(t.hi, r.hi) != 0)) violation(key + "/exact", what + " claims an exact result " + str(r) + " but the range is " + str(t)); };
  switch (kind) {
  case 0: { size_t dim = g.below(s.N); desc("x" + std::to_string(dim)); ap_interval_t* i = ap_abstract0_bound_dimension(m, a, dim); bool ex = exactflag(m); Itv v = xitv(i); ap_interval_free(i); nontrivial(R().inputs);
    for (auto& p : w) { judged(); if (!v.has(p[dim])) { violation(key + "/point", "range " + str(v) + " excludes " + str(p)); break; } }
    if (haveP && real) encl(v, pdim(P, dim), ex, "bound_dimension");
    if (haveP && real && P.is_empty() && ex && !v.empty()) violation(key + "/exact", "exact non-empty range " + str(v) + " of an empty value");
    break; }
  case 1: case 7: { LE e = d.oct && g.chance(50) ? goct(g, s.N, s.pr) : gle(g, s.N, s.pr, 50, g.chance(30)); desc("expr " + str(e)); ap_linexpr0_t* x = mk(g, e); ap_interval_t* i = ap_abstract0_bound_linexpr(m, a, x); bool ex = exactflag(m); Itv v = xitv(i); ap_interval_free(i); ap_linexpr0_free(x); nontrivial(R().inputs);
    for (auto& p : w) { judged(); Itv t = eval(e, p); if (cmp(t.lo, v.lo) < 0 || cmp(t.hi, v.hi) > 0) { violation(key + "/point", "range " + str(v) + " excludes values " + str(t) + " at " + str(p)); break; } }
    if (haveP && real && e.quasi()) { LE e2 = e; e2.k = pt_itv(0); Itv t = prange(P, e2); if (!t.empty()) { t = iadd(t, e.k); encl(v, t, ex, "bound_linexpr"); } }
    break; }
  case 2: { TOpt o; o.rounding = g.chance(40); o.itv = g.chance(30); TP t = gtx(g, s.N, s.pr, o, g.range(1, 4)); desc("expr " + str(t)); ap_texpr0_t* x = mk(g, t); ap_interval_t* i = ap_abstract0_bound_texpr(m, a, x); Itv v = xitv(i); ap_interval_free(i); ap_texpr0_free(x); nontrivial(R().inputs);
    for (auto& p : w) for (int k = 0; k < 2; k++) { auto q = eval(g, t, p); if (!q) continue; judged(); if (!v.has(*q)) { violation(key + "/point", "range " + str(v) + " excludes " + str(*q).substr(0, 100) + " at " + str(p)); break; } }
    break; }
  case 3: { vector<Itv> b = get_box(m, a, s.N); bool ex = m.m->result.flag_best || exactflag(m); ex = exactflag(m) && d.box; nontrivial(R().inputs); judged();
    if (s.N && b.size() != s.N) violation(key + "/shape", "to_box returned no intervals");
    for (auto& p : w) for (size_t i = 0; i < b.size(); i++) { judged(); if (!b[i].has(p[i])) { violation(key + "/point", "x" + std::to_string(i) + " in " + str(b[i]) + " excludes " + str(p)); goto out; } }
    if (haveP && real) for (size_t i = 0; i < b.size(); i++) encl(b[i], pdim(P, i), ex, "to_box x" + std::to_string(i));
  out: break; }
  case 4: { ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, a); nontrivial(R().inputs);
    for (auto& p : w) for (size_t i = 0; i < l.size; i++) { LC c; judged(); if (!rd(&l.p[i], s.N, c)) { violation(key + "/shape", "constraint over unknown dimensions"); break; } if (!may_hold(eval(c.e, p), c.op, c.mod)) { violation(key + "/point", str(c) + " excludes " + str(p)); break; } }
    // the constraints rebuild a value containing the same states
    A0 b(m, ap_abstract0_of_lincons_array(m, s.I, s.N - s.I, &l)); ap_lincons0_array_clear(&l);
    for (size_t i = 0; i < w.size() && i < 3; i++) check_in(g, m, b, w[i], s.I, key + "/rebuild", "value rebuilt from its own constraints", s.pr, 2);
    Poly B = puniv(s.N); if (haveP && real && region(m, b, B)) { judged(); if (!B.contains(P)) violation(key + "/rebuild", "value rebuilt from its own constraints loses states: " + str(B) + " vs " + str(P)); if (d.exactnum && d.convex && P != B) violation(key + "/rebuild-precision", "value rebuilt from its own constraints gains states: " + str(B) + " vs " + str(P)); }
    break; }
  case 5: { ap_tcons0_array_t l = ap_abstract0_to_tcons_array(m, a); nontrivial(R().inputs);
    for (auto& p : w) for (size_t i = 0; i < l.size; i++) { TP t; judged(); if (!rdtree(l.p[i].texpr0, t)) { violation(key + "/shape", "ill-formed tree constraint"); break; } Q mod = 0; if (l.p[i].scalar) mod = xscalar(l.p[i].scalar).q; auto v = eval(g, t, p); if (v && tree_linear_real(t) && !holds(*v, l.p[i].constyp, mod)) { violation(key + "/point", str(t) + opname(l.p[i].constyp) + " excludes " + str(p)); break; } }
    ap_tcons0_array_clear(&l); break; }
  default: { ap_generator0_array_t ga = ap_abstract0_to_generator_array(m, a); nontrivial(R().inputs); bool ex = exactflag(m);
    if (m.m->result.exn != AP_EXC_NONE) { stat("exn:" + d.name + "/to_generator"); ap_generator0_array_clear(&ga); break; }
    Poly G = puniv(s.N); bool mod = false; judged();
    if (!gens_poly(&ga, s.N, G, mod)) violation(key + "/shape", "ill-formed generators");
    else {
      for (auto& p : w) { Poly Q1(s.N, PPL::UNIVERSE); for (size_t i = 0; i < s.N; i++) { LC c; c.e = LE(s.N); c.e.c[i] = pt_itv(1); c.e.k = pt_itv(Q(-p[i])); c.op = AP_CONS_EQ; padd(Q1, c); } judged(); if (!closure(G).contains(Q1)) { violation(key + "/point", "the generators do not generate " + str(p) + ": " + str(G)); break; } }
      if (haveP && real) { judged(); if (!closure(G).contains(P)) violation(key + "/region", "the generators do not cover the constraints: " + str(G) + " vs " + str(P)); else if (d.poly && !mod && !closure(P).contains(G)) violation(key + "/precision", "generators of a polyhedron exceed its constraints: " + str(G) + " vs " + str(P)); }
      (void)ex; }
    ap_generator0_array_clear(&ga); break; }
  }
}
static Mode M_x("extract", m_extract);

// ------------------------------------------------------------------ widening
static void m_widen(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g, 3); string op = "widening";
  desc(d.name + " widening I=" + std::to_string(s.I) + " N=" + std::to_string(s.N));
  if (g.chance(20)) { // a chain must stabilise
    op = "widening-chain"; label(d.name + "/" + op); stat("op:" + d.name + "/" + op);
    vector<Pt> all = gpts(g, s, 2); A0 x = build(g, m, s, all); int lim = d.box ? 40 : 120, i; bool thr = g.chance(30) ;
    vector<LC> tc; if (thr) for (int k = g.range(0, 4); k > 0; k--) tc.push_back(gcons(g, s, {gpt(g, s)}, d, false));
    // the loop body: a guard (sometimes) then a parallel assignment of one or more dimensions
    vector<size_t> dims; vector<LE> es; vector<LC> guard;
    if (s.N) {
      if (g.chance(40)) dims.push_back(g.below(s.N)); else dims = gdims(g, s.N, g.range(1, s.N));
      for (size_t dim : dims) { LE e = LE(s.N); bool rot = dims.size() > 1 && g.chance(75);
        if (rot) { size_t k = dim < s.I ? g.below(s.I) : g.below(s.N); e.c[k] = pt_itv(Q(g.chance(80) ? 1 : -1)); }
        else { e.c[dim] = pt_itv(g.chance(80) ? Q(1) : Q(2)); for (size_t k = 0; k < s.N; k++) if (k != dim && g.chance(40) && (dim >= s.I || k < s.I)) e.c[k] = pt_itv(Q(g.range(-1, 1))); }
        Q dl = dim < s.I ? Q(g.range(-2, 2)) : g.chance(70) ? Q(g.range(-2, 2)) : gnum(g, s.pr); e.k = g.chance(50) ? pt_itv(dl) : mk_itv(X(dl), X(Q(dl + g.range(0, 2))));
        es.push_back(e); desc("x" + std::to_string(dim) + " := " + str(e)); }
      if (g.chance(25)) { LC c; c.e = goct(g, s.N, s.pr); c.op = AP_CONS_SUPEQ; c.e.k = pt_itv(Q(g.range(0, 30))); guard.push_back(c); desc("guard " + str(c)); } }
    if (thr) { for (auto& c : tc) desc("threshold " + str(c)); }
    vector<Pt> orbit = all; bool query = g.chance(60);
    for (i = 0; i < lim; i++) {
      A0 y = x.copy();
      if (!guard.empty()) { ap_lincons0_array_t l = mk(g, guard); y = A0(m, ap_abstract0_meet_lincons_array(m, true, y.rel(), &l)); ap_lincons0_array_clear(&l); }
      if (s.N) { vector<ap_dim_t> td; vector<ap_linexpr0_t*> le; for (size_t k = 0; k < dims.size(); k++) { td.push_back(dims[k]); le.push_back(mk(g, es[k])); }
        y = A0(m, ap_abstract0_assign_linexpr_array(m, true, y.rel(), td.data(), le.data(), td.size(), nullptr)); for (auto* l : le) ap_linexpr0_free(l); }
      if (i < 3) { vector<Pt> n2; for (auto& p : orbit) { bool in = true; for (auto& c : guard) if (!holds(evalq(c.e, p), c.op, c.mod)) in = false; if (!in) continue;
          Pt q = p; for (size_t k = 0; k < dims.size(); k++) q[dims[k]] = pick_in(g, eval(es[k], p), dims[k] < s.I); if (pt_ok(s, q)) n2.push_back(q); } orbit.insert(orbit.end(), n2.begin(), n2.end()); if (orbit.size() > 8) orbit.resize(8); }
      if (query) switch (g.below(4)) { case 0: ap_abstract0_is_bottom(m, x); break; case 1: ap_abstract0_is_leq(m, y, x); break; case 2: get_box(m, x, s.N); break; default: break; }
      A0 j(m, ap_abstract0_join(m, false, x, y)); if (g.chance(30)) j = perturb(g, m, std::move(j));
      if (query && g.chance(60)) ap_abstract0_is_leq(m, j, x);
      A0 z; if (thr) { ap_lincons0_array_t l = mk(g, tc); z = A0(m, ap_abstract0_widening_threshold(m, x, j, &l)); ap_lincons0_array_clear(&l); } else z = A0(m, ap_abstract0_widening(m, x, j));
      judged();
      bool st = ap_abstract0_is_leq(m, z, x); x = std::move(z); if (st) break; }
    stat("chain-length:" + string(i < 5 ? "1-5" : i < 20 ? "6-20" : "21+")); nontrivial(R().inputs);
    // on real dimensions the post-fixpoint test is exact enough for every domain here
    if (i >= lim && m.algo && d.oct) stat("chain-undecided"); // without closures inclusion is only semi-decided
    else if (i >= lim) violation(d.name + "/" + op + (s.I ? "/int" : "/real"), "the widened iteration did not stabilise within " + std::to_string(lim) + " steps; last " + describe(m, x));
    else for (size_t k = 0; k < orbit.size() && k < 5; k++) check_in(g, m, x, orbit[k], s.I, d.name + "/" + op + "/point", "the stable iterate loses a reachable state; iterate " + describe(m, x), s.pr, 2);
    return; }
  bool thr = g.chance(50); if (thr) op = "widening_threshold";
  label(d.name + "/" + op); stat("op:" + d.name + "/" + op);
  vector<Pt> ps = gpts(g, s, g.range(1, 2)), p2 = gpts(g, s, g.range(1, 2));
  A0 a = g.chance(6) ? A0(m, ap_abstract0_bottom(m, s.I, s.N - s.I)) : build(g, m, s, ps); A0 b = build(g, m, s, p2); desc("a=" + describe(m, a));
  A0 j(m, ap_abstract0_join(m, false, a, b)); j = perturb(g, m, std::move(j)); desc("b=" + describe(m, j));
  Poly PA = puniv(s.N), PB = puniv(s.N); bool ha = region(m, a, PA), hb = region(m, j, PB);
  vector<Pt> w = witnesses(g, m, j, s, p2); bool isb = ap_abstract0_is_bottom(m, a); if (!isb) w.insert(w.end(), ps.begin(), ps.end());
  string key = d.name + "/" + op + (s.I ? "/int" : "/real"); A0 r; vector<LC> tc;
  label(d.name + "/" + op);
  if (!thr) r = A0(m, ap_abstract0_widening(m, a, j));
  else {
    for (int k = g.range(0, 4); k > 0; k--) { LC c = gcons(g, s, g.chance(60) ? w : vector<Pt>{gpt(g, s)}, d, false); if (c.op == AP_CONS_EQMOD) c.op = AP_CONS_EQ; tc.push_back(c); desc("threshold " + str(c)); }
    ap_lincons0_array_t l = mk(g, tc); r = A0(m, ap_abstract0_widening_threshold(m, a, j, &l)); ap_lincons0_array_clear(&l); }
  cover(m, op, r);
  int lim = 6; for (size_t i = w.size(); i > 1; i--) std::swap(w[i - 1], w[g.below(i)]);
  for (auto& p : w) { if (lim-- <= 0) break; check_in(g, m, r, p, s.I, key + "/point", "result=" + describe(m, r), s.pr); }
  Poly G = puniv(s.N); if (hb && s.I == 0 && region(m, r, G)) { judged(); if (!closure(G).contains(PB)) violation(key + "/region", "the widening does not cover its second argument: " + str(G) + " vs " + str(PB));
    if (thr && ha && (d.poly || (d.oct && d.exactnum))) for (auto& c : tc) { if (!c.e.scalar() || c.op > AP_CONS_SUP) continue; if (d.oct) { int nz = 0; bool u = true; for (auto& x : c.e.c) if (sgn(x.lo.q)) { nz++; if (abs(x.lo.q) != 1) u = false; } if (!u || nz > 2 || nz == 0) continue; }
        if (d.oct && m.algo) continue; Poly C = puniv(s.N); padd(C, c); if (!C.contains(PA) || !C.contains(PB)) continue; judged(); stat("thresholds-kept-checked"); Poly C2 = closure(C); if (!C2.contains(G)) violation(key + "/threshold" + strict_defect(d, c, PB, s.I), "threshold " + str(c) + " holds in both arguments but not in the result " + str(G)); } }
}
static Mode M_w("widen", m_widen);

static void m_limits(Rng& g, long c) {
  g_limits() = true;
  switch (g.below(3)) { case 0: m_pred(g, c); break; case 1: m_extract(g, c); break; default: m_widen(g, c); }
  g_limits() = false;
}
static Mode M_li("limits", m_limits);

int main(int argc, char** argv) { return harness_main(argc, argv); }
