// Abstract-domain workloads: values as mathematical objects, algebraic laws, invalid arguments.
#include "values.h"

static void m_pure(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g, 3); desc(d.name + " I=" + std::to_string(s.I) + " N=" + std::to_string(s.N));
  vector<Pt> ps = gpts(g, s, g.range(1, 3)), p2 = gpts(g, s, g.range(1, 2)), p3 = gpts(g, s, 1);
  auto mkv = [&](vector<Pt>& p) { if (g.chance(5)) { p.clear(); return A0(m, ap_abstract0_bottom(m, s.I, s.N - s.I)); } return build(g, m, s, p); };
  A0 a = mkv(ps), b = mkv(p2), c = mkv(p3);
  Op o = gop(g, m, s, b, c, ps); desc(o.name + " a=" + describe(m, a) + " b=" + describe(m, b));
  string key = d.name + "/" + o.name; label(key); stat("op:" + key);
  A0 sa = a.copy(), sb = b.copy(), sc = c.copy(); Obs oa = observe(m, a, s.N), ob = observe(m, b, s.N), oc = observe(m, c, s.N); string args = o.args();
  auto args_same = [&](const string& when) { judged(); string now = o.args(); if (now != args) violation(key + "/arguments", "the caller's arguments changed " + when + ": " + args + " became " + now); };
  auto vals_same = [&]() { unchanged(g, m, a, oa, sa, s, ps, key + "/purity", "the argument"); unchanged(g, m, b, ob, sb, s, p2, key + "/purity", "the second argument"); unchanged(g, m, c, oc, sc, s, p3, key + "/purity", "the third argument"); };
  if (o.query) {
    A0 k = a.copy(); string r1 = o.q(a); string r2 = o.q(k); judged();
    if (r1 != r2) violation(key + "/copy", "a value and its copy answer differently: " + r1 + " against " + r2);
    args_same("during a query"); vals_same();
    if (semantic(m, s) && o.name != "to_generator" && o.name != "fprint" && o.name.compare(0, 4, "to_l") && o.name.compare(0, 4, "to_t")) { string r3 = o.q(a); judged(); if (r1 != r3) violation(key + "/repeat", "the same query answers differently the second time: " + r1 + " against " + r3); }
    nontrivial(R().inputs);
  } else {
    A0 k = a.copy(), kb = b.copy(), kc = c.copy();
    A0 r1(m, o.f(false, a));
    vals_same(); args_same("without being destructive");
    std::swap(b, kb); std::swap(c, kc);  // same representations as the first time
    A0 r2(m, o.f(true, k.rel()));
    std::swap(b, kb); std::swap(c, kc);
    string df = differ(m, r1, r2); judged(); if (!df.empty()) violation(key + "/in-place", "the in-place version gives another result: " + df);
    args_same("in place"); vals_same();
    { Obs rb = observe(m, r1, o.out.N); A0 rs = r1.copy(); // writing to the copy of a result does not show in the result, nor in the argument
      A0 w = r1.copy(); vector<LC> cs(1); cs[0].e = LE(o.out.N); cs[0].e.k = pt_itv(-1); if (o.out.N) cs[0].e.c[g.below(o.out.N)] = pt_itv(g.chance(50) ? 1 : -1); cs[0].op = AP_CONS_SUPEQ; ap_lincons0_array_t l = mk(g, cs);
      w = A0(m, ap_abstract0_meet_lincons_array(m, true, w.rel(), &l)); ap_lincons0_array_clear(&l);
      unchanged(g, m, r1, rb, rs, o.out, {}, key + "/sharing", "a result, when its copy was modified,"); }
    if (semantic(m, s) && !o.widen && !(o.name == "closure" && !d.convex)) { /* the closure of a product depends on how far it is reduced */ A0 r3(m, o.f(false, a)); judged(); df = differ(m, r1, r3); if (!df.empty()) violation(key + "/repeat", "the same operation gives another result the second time: " + df); }
    // aliasing: the argument in several positions
    if (!o.others.empty()) { A0 a2 = a.copy(), k2 = a.copy(), sv = b.copy(); b = a2.copy(); A0 r4(m, o.f(false, a2)); // b is a distinct copy of a
      b.clear(); b.m = m; b.a = k2.a; A0 r5(m, o.f(false, k2)); b.a = nullptr; b = std::move(sv); judged(); df = differ(m, r4, r5); stat("alias:" + o.name);
      if (!df.empty()) violation(key + "/alias", "passing the same value twice gives another result than passing a copy: " + df);
      unchanged(g, m, k2, oa, sa, s, ps, key + "/purity", "an argument passed twice"); }
    cover(m, o.name, r1);
  }
  o.done();
}
static Mode M_pu("pure", m_pure);

// ------------------------------------------------------------------ laws
static void m_laws(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g, 4); size_t n = s.N, rd_ = s.N - s.I; desc(d.name + " I=" + std::to_string(s.I) + " N=" + std::to_string(n));
  vector<Pt> ps = gpts(g, s, g.range(1, 3)), p2 = gpts(g, s, g.range(1, 2)), p3 = gpts(g, s, 1);
  auto mkv = [&](vector<Pt>& p) { if (g.chance(5)) { p.clear(); return A0(m, ap_abstract0_bottom(m, s.I, s.N - s.I)); } return build(g, m, s, p); };
  A0 a = mkv(ps), b = mkv(p2), c = mkv(p3); desc("a=" + describe(m, a) + " b=" + describe(m, b) + " c=" + describe(m, c));
  bool sem = semantic(m, s); Obs oa = observe(m, a, n); A0 sa = a.copy();
  auto same = [&](const string& law, const A0& x, const A0& y) { judged(); stat("law:" + law); string df = differ(m, x, y); if (!df.empty()) violation(d.name + "/" + law, df); };
  auto meet = [&](const A0& x, const A0& y) { return A0(m, ap_abstract0_meet(m, false, x, y)); };
  auto join = [&](const A0& x, const A0& y) { return A0(m, ap_abstract0_join(m, false, x, y)); };
  int k = g.below(16); string lab = d.name + "/law" + std::to_string(k); label(lab); nontrivial(R().inputs);
  auto L = [&](const char* t) { label(d.name + "/" + t); };
  bool grid = !d.convex;  bool law = sem && d.name.rfind("pkgrid", 0) != 0;
  switch (k) {
  case 0: { L("canonicalize"); A0 x = a.copy(); ap_abstract0_canonicalize(m, x); unchanged(g, m, x, oa, sa, s, ps, d.name + "/canonicalize", "canonicalize: the value"); break; }
  case 1: { L("minimize"); A0 x = a.copy(); ap_abstract0_minimize(m, x); unchanged(g, m, x, oa, sa, s, ps, d.name + "/minimize", "minimize: the value"); break; }
  case 2: { L("approximate"); A0 x = a.copy(); int v = d.lib.compare(0, 5, "polka") ? (int)g.range(-1, 4) : (int)g.pick(vector<long>{-1, 0, 1, 2, 3, 10}); desc("approximate " + std::to_string(v)); ap_abstract0_approximate(m, x, v);
    Obs o = observe(m, x, n); judged(); if (s.I == 0 && oa.has && o.has && d.exactnum && !closure(o.P).contains(oa.P)) violation(d.name + "/approximate/region", "approximate(" + std::to_string(v) + ") removed states: {" + str(o.P) + "} from {" + str(oa.P) + "}");
    vector<Pt> w = witnesses(g, m, a, s, ps); for (auto& p : w) check_in(g, m, x, p, s.I, d.name + "/approximate/point", "approximate(" + std::to_string(v) + ") gives " + describe(m, x), s.pr, 1); break; }
  case 3: { L("closure"); A0 x(m, ap_abstract0_closure(m, false, a)); Obs o = observe(m, x, n); judged(); if (s.I == 0 && oa.has && o.has && d.exactnum && !(o.P == closure(oa.P))) violation(d.name + "/closure", "the topological closure of {" + str(oa.P) + "} is {" + str(o.P) + "}");
    for (auto& p : ps) check_in(g, m, x, p, s.I, d.name + "/closure/point", "closure", s.pr, 1); break; }
  case 4: { L("hash"); A0 x = a.copy(), y = a.copy(); y = perturb(g, m, std::move(y)); if (g.chance(60) && d.convex) { ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, y); if (l.size > 1 && g.chance(50)) std::swap(l.p[0], l.p[l.size - 1]); y = A0(m, ap_abstract0_of_lincons_array(m, s.I, rd_, &l)); ap_lincons0_array_clear(&l); }
    ap_abstract0_canonicalize(m, x); ap_abstract0_canonicalize(m, y); bool eq = ap_abstract0_is_eq(m, x, y); int hx = ap_abstract0_hash(m, x), hy = ap_abstract0_hash(m, y); judged(); stat(string("hash:") + (eq ? "equal" : "different"));
    if (eq && hx != hy) violation(d.name + "/hash", "equal canonical values have hashes " + std::to_string(hx) + " and " + std::to_string(hy)); break; }
  case 5: if (law) { L("meet-commutes"); same("meet-commutes", meet(a, b), meet(b, a)); } break;
  case 6: if (law) { L("join-commutes"); same("join-commutes", join(a, b), join(b, a)); } break;
  case 7: if (law) { L("associative"); if (g.chance(50)) same("meet-associates", meet(meet(a, b), c), meet(a, meet(b, c))); else same("join-associates", join(join(a, b), c), join(a, join(b, c))); } break;
  case 8: if (law) { L("absorbs"); same("join-absorbs-meet", join(a, meet(a, b)), a); same("meet-absorbs-join", meet(a, join(a, b)), a); } break;
  case 9: if (law) { L("units"); A0 t(m, ap_abstract0_top(m, s.I, rd_)), z(m, ap_abstract0_bottom(m, s.I, rd_)); same("meet-top", meet(a, t), a); same("join-bottom", join(a, z), a); same("meet-bottom", meet(a, z), z); same("join-top", join(a, t), t);
      require(ap_abstract0_is_top(m, t), d.name + "/is_top-top", "top is not top"); require(ap_abstract0_is_bottom(m, z), d.name + "/is_bottom-bottom", "bottom is not bottom"); } break;
  case 10: if (law) { L("array-meet-join"); ap_abstract0_t* t[3] = {a.a, b.a, c.a}; same("meet_array", A0(m, ap_abstract0_meet_array(m, t, 3)), meet(meet(a, b), c)); same("join_array", A0(m, ap_abstract0_join_array(m, t, 3)), join(join(a, b), c)); } break;
  case 11: { L("rebuild"); // a value is determined by its constraints, and a box by its intervals
    if (law && !grid) { ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, a); A0 x(m, ap_abstract0_of_lincons_array(m, s.I, rd_, &l)); ap_lincons0_array_clear(&l); same("rebuild-from-constraints", x, a);
      ap_tcons0_array_t tl = ap_abstract0_to_tcons_array(m, a); A0 y(m, ap_abstract0_of_tcons_array(m, s.I, rd_, &tl)); ap_tcons0_array_clear(&tl); same("rebuild-from-tree-constraints", y, a); }
    if (law && d.box && n) { ap_interval_t** t = ap_abstract0_to_box(m, a); A0 x(m, ap_abstract0_of_box(m, s.I, rd_, t)); if (t) ap_interval_array_free(t, n); same("rebuild-from-box", x, a); }
    break; }
  case 12: if (law) { L("meet-one-by-one"); // constraints one at a time or together
      vector<LC> cs; for (int i = g.range(2, 4); i > 0; i--) { LC x = gcons(g, s, ps.empty() ? p2 : ps, d, false); if (d.oct || d.box) { int nz = 0; bool u = true; for (auto& q : x.e.c) if (sgn(q.lo.q)) { nz++; if (abs(q.lo.q) != 1) u = false; } if (!u || nz > (d.oct ? 2 : 1)) continue; } if (d.name == "polkaeq" && x.op != AP_CONS_EQ) x.op = AP_CONS_EQ; if (x.op == AP_CONS_EQMOD && !d.cong) continue; cs.push_back(x); desc(str(x)); }
      if (d.box || d.oct) for (auto& x : cs) if (x.op == AP_CONS_SUP) x.op = AP_CONS_SUPEQ;
      ap_lincons0_array_t l = mk(g, cs); A0 x(m, ap_abstract0_meet_lincons_array(m, false, a, &l)); A0 y = a.copy(); for (size_t i = 0; i < l.size; i++) { ap_lincons0_array_t one; one.p = &l.p[i]; one.size = 1; y = A0(m, ap_abstract0_meet_lincons_array(m, true, y.rel(), &one)); } ap_lincons0_array_clear(&l); same("constraints-one-by-one", x, y); } break;
  case 13: if (n) { L("permute-inverse"); ap_dimperm_t* pm = ap_dimperm_alloc(n); vector<size_t> v(n); for (size_t i = 0; i < n; i++) v[i] = i; for (size_t i = s.I; i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); for (size_t i = n; i > s.I + 1; i--) std::swap(v[i - 1], v[s.I + g.below(i - s.I)]);
      for (size_t i = 0; i < n; i++) pm->dim[i] = v[i]; ap_dimperm_t* inv = ap_dimperm_alloc(n); ap_dimperm_invert(inv, pm); A0 x(m, ap_abstract0_permute_dimensions(m, false, a, pm)); A0 y(m, ap_abstract0_permute_dimensions(m, false, x, inv)); ap_dimperm_free(pm); ap_dimperm_free(inv);
      if (sem) same("permute-inverse", y, a); else unchanged(g, m, y, oa, sa, s, ps, d.name + "/permute-inverse", "permuted forth and back: the value"); } break;
  case 14: { L("add-remove"); vector<size_t> pos; size_t ki = g.below(3), kr = g.below(3); for (size_t i = 0; i < ki; i++) pos.push_back(g.below(s.I + 1)); for (size_t i = 0; i < kr; i++) pos.push_back(s.I + g.below(rd_ + 1)); std::sort(pos.begin(), pos.begin() + ki); std::sort(pos.begin() + ki, pos.end());
      ap_dimchange_t* dc = ap_dimchange_alloc(ki, kr); for (size_t i = 0; i < pos.size(); i++) dc->dim[i] = pos[i]; A0 x(m, ap_abstract0_add_dimensions(m, false, a, dc, g.chance(50))); ap_dimchange_add_invert(dc); desc("then remove " + dump(dc)); A0 y(m, ap_abstract0_remove_dimensions(m, false, x, dc)); ap_dimchange_free(dc);
      if (law) same("add-then-remove", y, a); else if (d.convex) unchanged(g, m, y, oa, sa, s, ps, d.name + "/add-then-remove", "dimensions added and removed: the value"); break; }
  default: if (law && n) { L("assign-identity"); vector<ap_dim_t> td; vector<ap_linexpr0_t*> es; for (size_t x : gdims(g, n, g.range(1, n))) { LE e(n); e.c[x] = pt_itv(1); td.push_back(x); es.push_back(mk(g, e)); }
      A0 x(m, ap_abstract0_assign_linexpr_array(m, false, a, td.data(), es.data(), td.size(), nullptr)), y(m, ap_abstract0_substitute_linexpr_array(m, false, a, td.data(), es.data(), td.size(), nullptr)); for (auto* e : es) ap_linexpr0_free(e); same("assign-identity", x, a); same("substitute-identity", y, a); } break;
  }
}
static Mode M_la("laws", m_laws);

// ---------------------------------------------------------------- invalid arguments are refused
struct Log { size_t n = 0; ap_exc_t exn = AP_EXC_NONE; string fun, msg; };
static Log excs(ap_manager_t* m) { Log l; for (ap_exclog_t* e = m->result.exclog; e; e = e->tail) if (e->exn == AP_EXC_INVALID_ARGUMENT) { if (!l.n++) { l.exn = e->exn; l.fun = ap_name_of_funid[e->funid]; l.msg = e->msg ? e->msg : ""; if (!e->msg || !*e->msg) l.fun += " (no message)"; } } return l; }
static void m_errors(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g, 4); desc(d.name + " I=" + std::to_string(s.I) + " N=" + std::to_string(s.N));
  vector<Pt> ps = gpts(g, s, g.range(1, 2)); A0 a = g.chance(10) ? A0(m, ap_abstract0_bottom(m, s.I, s.N - s.I)) : build(g, m, s, ps), b = build(g, m, s, ps), c = build(g, m, s, ps);
  A0 sa = a.copy(); Obs oa = observe(m, a, s.N); bool bot = ap_abstract0_is_bottom(m, a); vector<Pt> p1 = ps; if (bot) ps.clear();
  size_t N = s.N, I = s.I; string base = d.name + "/"; bool destr = g.chance(40);
  auto clear = [&] { ap_manager_clear_exclog(m); m.m->result.flag_exact = m.m->result.flag_best = true; };
  auto raised = [&](const string& key, const string& fun, const string& what) { // the manager tells
    Log l = excs(m); judged(); stat("refused:" + key.substr(base.size())); nontrivial(key + R().inputs);
    if (!l.n) { violation(key + "/not-reported", what + " raised no invalid-argument exception"); return; }
    if (!fun.empty() && l.fun != fun) violation(key + "/function", what + " is reported in " + l.fun + " rather than " + fun);
    }; // (the fallback value may be flagged: it is built by a call of its own)
  auto value = [&](const string& key, const string& fun, const string& what, size_t i2, size_t n2, std::function<ap_abstract0_t*(bool, ap_abstract0_t*)> f) { // refused transformation: a top-like value
    label(key); desc(what + (destr ? " in place" : "")); clear(); A0 k = a.copy(); clear(); A0 r(m, destr ? f(true, k.rel()) : f(false, a)); raised(key, fun, what);
    ap_dimension_t dd = ap_abstract0_dimension(m, r); judged(); if (dd.intdim != i2 || dd.realdim != n2 - i2) { violation(key + "/dimensions", what + " gives a value of " + std::to_string(dd.intdim) + "+" + std::to_string(dd.realdim) + " dimensions instead of " + std::to_string(i2) + "+" + std::to_string(n2 - i2)); return; }
    Shape t = s; t.I = i2; t.N = n2; for (int j = 0; j < 2; j++) if (!check_in(g, m, r, gpt(g, t), i2, key + "/fallback", "the result of a refused call", s.pr, 1)) return; };
  auto pred = [&](const string& key, const string& fun, const string& what, std::function<bool()> f) { label(key); desc(what); clear(); bool r = f(); raised(key, fun, what); judged(); if (m.m->result.flag_exact) violation(key + "/flags", what + " was answered exactly"); if (r) violation(key + "/true", what + " was answered true"); };
  auto itv = [&](const string& key, const string& fun, const string& what, std::function<ap_interval_t*()> f) { label(key); desc(what); clear(); ap_interval_t* i = f(); raised(key, fun, what); judged(); if (!xitv(i).top()) violation(key + "/fallback", what + " gives " + str(xitv(i))); ap_interval_free(i); };
  auto badle = [&](bool ray = false) { // an expression with one dimension too many
    bool sp = g.chance(60); ap_linexpr0_t* e; if (sp) { size_t k = g.below(3); e = ap_linexpr0_alloc(AP_LINEXPR_SPARSE, 0); for (size_t i = 0; i < k; i++) if (N) ap_coeff_set_scalar_int(ap_linexpr0_coeffref(e, g.below(N)), g.range(-3, 3)); ap_coeff_set_scalar_int(ap_linexpr0_coeffref(e, N + g.below(3)), g.chance(20) ? 0 : g.range(1, 3)); }
    else { e = ap_linexpr0_alloc(AP_LINEXPR_DENSE, N + 1 + g.below(3)); for (size_t i = 0; i < e->size; i++) ap_coeff_set_scalar_int(&e->p.coeff[i], g.range(-2, 2)); }
    if (!ray) ap_coeff_set_scalar_int(&e->cst, g.range(-3, 3)); return e; };
  auto badtx = [&] { ap_texpr0_t* t = ap_texpr0_dim(N + g.below(3)); for (int k = g.below(3); k > 0; k--) { ap_texpr0_t* u = N && g.chance(50) ? ap_texpr0_dim(g.below(N)) : ap_texpr0_cst_scalar_int(g.range(-3, 3)); t = g.chance(50) ? ap_texpr0_binop(AP_TEXPR_ADD, t, u, AP_RTYPE_REAL, AP_RDIR_RND) : ap_texpr0_binop(AP_TEXPR_MUL, u, t, AP_RTYPE_REAL, AP_RDIR_RND); } if (g.chance(20)) t = ap_texpr0_unop(AP_TEXPR_NEG, t, AP_RTYPE_REAL, AP_RDIR_RND); return t; };
  auto goodle = [&] { return mk(g, gle(g, N, s.pr, 50, false)); };
  auto goodtx = [&] { TOpt o; return mk(g, gtx(g, N, s.pr, o, 2)); };
  auto otherdim = [&](Man& mm) { Shape t = s; if (g.chance(30) && s.I != s.N) { t.I++; } else if (g.chance(40) && s.I) { t.I--; } else { t.N++; if (g.chance(50)) t.I++; } return build(g, mm, t, gpts(g, t, 1)); };
  int kind = g.below(15);
  switch (kind) {
  case 0: case 1: case 2: { // a value of another library
    std::unique_ptr<Man> m2; for (int i = 0; i < 10 && !m2; i++) { auto t = std::make_unique<Man>(gdom(g)); if (t->m->library != m.m->library) m2 = std::move(t); }
    if (!m2) break; A0 w = build(g, *m2, s, p1), wk = w.copy(); Op o = gop(g, m, s, b, c, p1); string key = base + "manager/" + o.name; label(key); desc(o.name + " with a value of " + m2->d->name + (destr ? " in place" : "")); string args = o.args();
    bool second = !o.others.empty() && g.chance(50) && !(o.widen); A0 save;
    if (second) { A0* pb = o.others[0]; save = std::move(*pb); pb->m = m2->m; pb->a = w.copy().rel(); }
    clear();
    if (o.query) { o.q(second ? (ap_abstract0_t*)a : (ap_abstract0_t*)w); raised(key, "", o.name + " of a value of another library"); }
    else { A0 k = second ? a.copy() : w.copy(); clear(); ap_abstract0_t* in = destr ? k.rel() : second ? (ap_abstract0_t*)a : (ap_abstract0_t*)w; A0 r(m, o.f(destr, in));
      if (r.a == in) { stat("nothing-to-do"); r.m = second ? m.m : m2->m; } else { raised(key, "", o.name + " of a value of another library"); ap_dimension_t dd = ap_abstract0_dimension(m, r); judged(); if (dd.intdim != o.out.I || dd.intdim + dd.realdim != o.out.N) violation(key + "/dimensions", "the result has " + std::to_string(dd.intdim) + "+" + std::to_string(dd.realdim) + " dimensions");
        else if (!o.widen) { Shape t = s; t.I = o.out.I; t.N = o.out.N; check_in(g, m, r, gpt(g, t), t.I, key + "/fallback", "the result of a refused call", s.pr, 1); } } }
    if (second) { A0* pb = o.others[0]; { A0 drop(m2->m, pb->a); pb->a = nullptr; } *pb = std::move(save); }
    judged(); if (o.args() != args) violation(key + "/arguments", "the caller's arguments changed"); if (g.chance(50)) { clear(); ap_dimension_t dd = ap_abstract0_dimension(m, w); judged(); if (dd.intdim != I || dd.realdim != N - I || !excs(m).n) violation(base + "manager/dimension", "the dimension of a value of another library is " + std::to_string(dd.intdim) + "+" + std::to_string(dd.realdim)); }
    if (g.chance(30)) { clear(); ap_abstract0_free(m, w.rel()); raised(base + "manager/free", "free", "freeing a value of another library"); }
    o.done(); break; }
  case 3: case 4: { // operands of different dimensions
    A0 w = otherdim(m); int k = g.below(10); string key = base + "operands/";
    switch (k) {
    case 0: value(key + "meet", "meet", "a meet of values of different dimensions", I, N, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_meet(m, x, v, w); }); break;
    case 1: value(key + "join", "join", "a join of values of different dimensions", I, N, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_join(m, x, v, w); }); break;
    case 2: case 3: value(key + (k == 2 ? "meet_array" : "join_array"), k == 2 ? "meet_array" : "join_array", "an array of values of different dimensions", I, N, [&](bool x, ap_abstract0_t* v) { ap_abstract0_t* t[3] = {v, b, w}; if (g.chance(50)) std::swap(t[1], t[2]); ap_abstract0_t* r = k == 2 ? ap_abstract0_meet_array(m, t, 3) : ap_abstract0_join_array(m, t, 3); if (x) ap_abstract0_free(m, v); return r; }); break;
    case 4: value(key + "widening", "widening", "a widening of values of different dimensions", I, N, [&](bool x, ap_abstract0_t* v) { ap_abstract0_t* r = ap_abstract0_widening(m, v, w); if (x) ap_abstract0_free(m, v); return r; }); break;
    case 5: { ap_lincons0_array_t l = ap_lincons0_array_make(0); value(key + "widening_threshold", "widening", "a widening of values of different dimensions", I, N, [&](bool x, ap_abstract0_t* v) { ap_abstract0_t* r = ap_abstract0_widening_threshold(m, v, w, &l); if (x) ap_abstract0_free(m, v); return r; }); ap_lincons0_array_clear(&l); break; }
    case 6: pred(key + "is_leq", "is_leq", "an inclusion of values of different dimensions", [&] { return ap_abstract0_is_leq(m, a, w); }); break;
    case 7: pred(key + "is_eq", "is_eq", "an equality of values of different dimensions", [&] { return ap_abstract0_is_eq(m, a, w); }); break;
    default: if (!N) break; { ap_dim_t x0 = g.below(N); bool sub = g.chance(50); if (k == 8) { ap_linexpr0_t* e = goodle(); value(key + "assign", sub ? "substitute_linexpr_array" : "assign_linexpr_array", "a destination of other dimensions", I, N, [&](bool x, ap_abstract0_t* v) { return sub ? ap_abstract0_substitute_linexpr(m, x, v, x0, e, w) : ap_abstract0_assign_linexpr(m, x, v, x0, e, w); }); ap_linexpr0_free(e); }
      else { ap_texpr0_t* e = goodtx(); value(key + "assign", sub ? "substitute_texpr_array" : "assign_texpr_array", "a destination of other dimensions", I, N, [&](bool x, ap_abstract0_t* v) { return sub ? ap_abstract0_substitute_texpr(m, x, v, x0, e, w) : ap_abstract0_assign_texpr(m, x, v, x0, e, w); }); ap_texpr0_free(e); } } }
    break; }
  case 5: { // an empty family
    bool me = g.chance(50); label(base + "empty-array"); clear(); A0 r(m, me ? ap_abstract0_meet_array(m, nullptr, 0) : ap_abstract0_join_array(m, nullptr, 0)); raised(base + "empty-array", me ? "meet_array" : "join_array", "an empty array of values"); break; }
  case 6: { // dimensions out of range
    ap_dim_t x0 = g.chance(80) ? N + g.below(3) : (ap_dim_t)1000000; string key = base + "dimension/"; string w = "dimension " + std::to_string(x0);
    switch (g.below(7)) {
    case 0: itv(key + "bound_dimension", "bound_dimension", "the bounds of " + w, [&] { return ap_abstract0_bound_dimension(m, a, x0); }); break;
    case 1: pred(key + "unconstrained", "is_dimension_unconstrained", "a test on " + w, [&] { return ap_abstract0_is_dimension_unconstrained(m, a, x0); }); break;
    case 2: { ap_interval_t* i = ap_interval_alloc(); ap_interval_set_int(i, -1, 5); pred(key + "sat_interval", "sat_interval", "a test on " + w, [&] { return ap_abstract0_sat_interval(m, a, x0, i); }); ap_interval_free(i); break; }
    case 3: { size_t k = g.range(1, 2); value(key + "expand", "expand", "an expansion of " + w, I, N + k, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_expand(m, x, v, x0, k); }); break; }
    case 4: { ap_dim_t t[2] = {0, x0}; bool two = N && g.chance(60); if (two && g.chance(50)) std::swap(t[0], t[1]); value(key + "forget", "forget_array", "forgetting " + w, I, N, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_forget_array(m, x, v, two ? t : &x0, two ? 2 : 1, false); }); break; }
    case 5: { ap_linexpr0_t* e[2] = {goodle(), goodle()}; ap_dim_t t[2] = {0, x0}; bool two = N && g.chance(60), sub = g.chance(50); value(key + "assign_linexpr", sub ? "substitute_linexpr_array" : "assign_linexpr_array", "an assignment to " + w, I, N, [&](bool x, ap_abstract0_t* v) { return sub ? ap_abstract0_substitute_linexpr_array(m, x, v, two ? t : &x0, e, two ? 2 : 1, nullptr) : ap_abstract0_assign_linexpr_array(m, x, v, two ? t : &x0, e, two ? 2 : 1, nullptr); }); ap_linexpr0_free(e[0]); ap_linexpr0_free(e[1]); break; }
    default: { ap_texpr0_t* e[2] = {goodtx(), goodtx()}; ap_dim_t t[2] = {0, x0}; bool two = N && g.chance(60), sub = g.chance(50); value(key + "assign_texpr", sub ? "substitute_texpr_array" : "assign_texpr_array", "an assignment to " + w, I, N, [&](bool x, ap_abstract0_t* v) { return sub ? ap_abstract0_substitute_texpr_array(m, x, v, two ? t : &x0, e, two ? 2 : 1, nullptr) : ap_abstract0_assign_texpr_array(m, x, v, two ? t : &x0, e, two ? 2 : 1, nullptr); }); ap_texpr0_free(e[0]); ap_texpr0_free(e[1]); break; }
    }
    break; }
  case 7: case 8: { // linear expressions with dimensions out of range, or missing
    string key = base + "linexpr/", w = "an expression beyond the dimensions"; ap_linexpr0_t* e = badle(); int k = g.below(7); bool null = g.chance(20);
    if (k == 0) itv(key + "bound", "bound_linexpr", w, [&] { return ap_abstract0_bound_linexpr(m, a, e); });
    else if (k == 1) { ap_lincons0_t l = ap_lincons0_make(g.chance(50) ? AP_CONS_SUPEQ : AP_CONS_EQ, e, nullptr); pred(key + "sat", "sat_lincons", w, [&] { return ap_abstract0_sat_lincons(m, a, &l); }); }
    else if (k == 2 && N) { ap_dim_t x0 = g.below(N), t[2] = {x0, (x0 + 1) % (ap_dim_t)N}; ap_linexpr0_t* h = goodle(); ap_linexpr0_t* es[2] = {h, null ? nullptr : e}; bool two = null || (N > 1 && g.chance(60)), sub = g.chance(50); if (!two) es[0] = e; if (two && N < 2) es[0] = es[1]; size_t nb = two && N > 1 ? 2 : 1;
      value(key + "assign", sub ? "substitute_linexpr_array" : "assign_linexpr_array", w, I, N, [&](bool x, ap_abstract0_t* v) { return sub ? ap_abstract0_substitute_linexpr_array(m, x, v, t, es, nb, nullptr) : ap_abstract0_assign_linexpr_array(m, x, v, t, es, nb, nullptr); }); ap_linexpr0_free(h); }
    else { size_t nb = g.range(1, 3), at = g.below(nb); bool ray = k >= 5, th = k == 4, of = k == 3 && g.chance(40);
      if (ray) { ap_generator0_array_t l = ap_generator0_array_make(nb); for (size_t i = 0; i < nb; i++) { ap_linexpr0_t* x = i == at ? (null ? nullptr : badle(true)) : ap_linexpr0_alloc(AP_LINEXPR_SPARSE, 0); if (i != at && N) ap_coeff_set_scalar_int(ap_linexpr0_coeffref(x, g.below(N)), 1); l.p[i] = ap_generator0_make(g.chance(50) ? AP_GEN_RAY : AP_GEN_LINE, x); }
        value(key + "add_ray", "add_ray_array", w, I, N, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_add_ray_array(m, x, v, &l); }); ap_generator0_array_clear(&l); }
      else { ap_lincons0_array_t l = ap_lincons0_array_make(nb); for (size_t i = 0; i < nb; i++) l.p[i] = ap_lincons0_make(AP_CONS_SUPEQ, i == at ? (null ? nullptr : ap_linexpr0_copy(e)) : goodle(), nullptr);
        if (th) value(key + "widening_threshold", "widening", w, I, N, [&](bool x, ap_abstract0_t* v) { ap_abstract0_t* r = ap_abstract0_widening_threshold(m, v, b, &l); if (x) ap_abstract0_free(m, v); return r; });
        else value(key + "meet", "meet_lincons_array", w, I, N, [&](bool x, ap_abstract0_t* v) { if (of) { if (x) ap_abstract0_free(m, v); return ap_abstract0_of_lincons_array(m, I, N - I, &l); } return ap_abstract0_meet_lincons_array(m, x, v, &l); });
        ap_lincons0_array_clear(&l); } }
    ap_linexpr0_free(e); break; }
  case 9: { // tree expressions
    string key = base + "texpr/", w = "a tree expression beyond the dimensions"; ap_texpr0_t* e = badtx(); int k = g.below(4); bool null = g.chance(20);
    if (k == 0) itv(key + "bound", "bound_texpr", w, [&] { return ap_abstract0_bound_texpr(m, a, e); });
    else if (k == 1) { ap_tcons0_t l = ap_tcons0_make(AP_CONS_SUPEQ, e, nullptr); pred(key + "sat", "sat_tcons", w, [&] { return ap_abstract0_sat_tcons(m, a, &l); }); }
    else if (k == 2 && N) { ap_dim_t x0 = g.below(N); bool sub = g.chance(50); ap_texpr0_t* es[1] = {null ? nullptr : e}; value(key + "assign", sub ? "substitute_texpr_array" : "assign_texpr_array", w, I, N, [&](bool x, ap_abstract0_t* v) { return sub ? ap_abstract0_substitute_texpr_array(m, x, v, &x0, es, 1, nullptr) : ap_abstract0_assign_texpr_array(m, x, v, &x0, es, 1, nullptr); }); }
    else { size_t nb = g.range(1, 3), at = g.below(nb); bool of = g.chance(30); ap_tcons0_array_t l = ap_tcons0_array_make(nb); for (size_t i = 0; i < nb; i++) l.p[i] = ap_tcons0_make(AP_CONS_SUPEQ, i == at ? (null ? nullptr : ap_texpr0_copy(e)) : goodtx(), nullptr);
      value(key + "meet", "meet_tcons_array", w, I, N, [&](bool x, ap_abstract0_t* v) { if (of) { if (x) ap_abstract0_free(m, v); return ap_abstract0_of_tcons_array(m, I, N - I, &l); } return ap_abstract0_meet_tcons_array(m, x, v, &l); }); ap_tcons0_array_clear(&l); }
    ap_texpr0_free(e); break; }
  case 10: case 11: { // dimension changes
    bool add = g.chance(50); vector<size_t> pos; size_t ki = g.below(3), kr = g.below(3); if (!(ki + kr)) kr = 1; bool bad = false;
    for (size_t i = 0; i < ki + kr; i++) pos.push_back(g.below(N + 3)); if (g.chance(60)) std::sort(pos.begin(), pos.end());
    for (size_t i = 0; i < ki + kr; i++) { if (add ? (i < ki ? pos[i] > I : pos[i] > N || pos[i] < I) : (i < ki ? pos[i] >= I : pos[i] >= N || pos[i] < I)) bad = true; if (i && (add ? pos[i - 1] > pos[i] : pos[i - 1] >= pos[i])) bad = true; }
    ap_dimchange_t* dc = ap_dimchange_alloc(ki, kr); for (size_t i = 0; i < pos.size(); i++) dc->dim[i] = pos[i]; string w = (add ? "adding " : "removing ") + dump(dc), key = base + (add ? "add_dimensions" : "remove_dimensions");
    auto f = [&](bool x, ap_abstract0_t* v) { return add ? ap_abstract0_add_dimensions(m, x, v, dc, false) : ap_abstract0_remove_dimensions(m, x, v, dc); };
    size_t i2 = add ? I + ki : I >= ki ? I - ki : 0, r2 = add ? N - I + kr : N - I >= kr ? N - I - kr : 0;
    if (bad) value(key, add ? "add_dimensions" : "remove_dimensions", w, i2, i2 + r2, f);
    else { label(key); desc(w); clear(); A0 r(m, f(false, a)); judged(); stat("valid:dimchange"); if (excs(m).n) violation(key + "/refused", w + " was refused in " + excs(m).fun); }
    ap_dimchange_free(dc); break; }
  case 12: { // permutations
    size_t n2 = g.chance(75) ? N : N + g.range(1, 2); if (g.chance(20) && N) n2 = N - 1; ap_dimperm_t* pm = ap_dimperm_alloc(n2); vector<bool> seen(n2 + 3); bool bad = n2 != N, mixed = false; string w = "permutation";
    for (size_t i = 0; i < n2; i++) pm->dim[i] = i; for (size_t i = n2; i > 1; i--) std::swap(pm->dim[i - 1], pm->dim[g.below(i)]); if (n2 && g.chance(60)) pm->dim[g.below(n2)] = g.below(n2 + (g.chance(30) ? 2 : 0));
    for (size_t i = 0; i < n2; i++) { w += " " + std::to_string(pm->dim[i]); if (pm->dim[i] >= n2 || seen[pm->dim[i]]) bad = true; else seen[pm->dim[i]] = true; if ((i < I) != (pm->dim[i] < I)) mixed = true; }
    if (bad) value(base + "permute", "permute_dimensions", w, I, N, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_permute_dimensions(m, x, v, pm); });
    else if (!mixed) { clear(); A0 r(m, ap_abstract0_permute_dimensions(m, false, a, pm)); judged(); stat("valid:permutation"); if (excs(m).n) violation(base + "permute/refused", w + " was refused"); }
    ap_dimperm_free(pm); break; }
  case 13: { // foldings
    size_t k = g.below(4); vector<ap_dim_t> t; for (size_t i = 0; i < k; i++) t.push_back(g.below(N + (g.chance(30) ? 2 : 0) + !N)); if (g.chance(50)) std::sort(t.begin(), t.end()); bool bad = !k, mixed = false, range = false; for (size_t i = 0; i < k; i++) { if (t[i] >= N) bad = range = true; if (i && t[i - 1] >= t[i]) bad = true; if ((t[i] < I) != (t[0] < I)) bad = mixed = true; }
    string w = "folding " + dumpv(t), key = base + "fold"; auto f = [&](bool x, ap_abstract0_t* v) { return ap_abstract0_fold(m, x, v, t.data(), t.size()); };
    if (bad && (mixed || range || (k && k - 1 > (t[0] < I ? I : N - I)))) { label(key); desc(w); clear(); A0 q = a.copy(); clear(); A0 r(m, destr ? f(true, q.rel()) : f(false, a)); raised(key, "fold", w); }
    else if (bad) value(key, "fold", w, k && t[0] < I ? I - (k - 1) : I, k ? N - (k - 1) : N, f);
    else { clear(); A0 r(m, f(false, a)); judged(); stat("valid:fold"); if (excs(m).n) violation(key + "/refused", w + " was refused"); }
    break; }
  default: { // valid calls raise nothing
    Op o = gop(g, m, s, b, c, p1); string key = base + "valid/" + o.name; label(key); clear(); if (o.query) o.q(a); else { A0 k = a.copy(); clear(); A0 r(m, destr ? o.f(true, k.rel()) : o.f(false, a)); } judged(); stat("valid:" + o.name); Log l = excs(m); if (l.n) violation(key + "/refused", o.name + " with valid arguments raised an invalid-argument exception in " + l.fun + ": " + l.msg); o.done(); }
  }
  unchanged(g, m, a, oa, sa, s, ps, base + "refused-call/purity", "the argument of a refused call");
}
static Mode M_er("errors", m_errors);
int main(int argc, char** argv) { return harness_main(argc, argv); }
