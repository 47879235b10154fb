// Abstract-domain workloads (level 0) with exact rational oracles.
#include "dom.h"

// ------------------------------------------------------------------ assignment / substitution
static void do_assign(Rng& g, bool subst, bool tree) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g); if (!s.N) s.N = 1, s.I = 0; s.I = std::min(s.I, s.N);
  string op = string(subst ? "substitute_" : "assign_") + (tree ? "texpr" : "linexpr");
  label(d.name + "/" + op);
  size_t k = g.chance(65) ? 1 : g.range(1, s.N);
  vector<size_t> dims = gdims(g, s.N, k);
  vector<Pt> ps = gpts(g, s, g.range(1, 4));
  vector<LE> es; vector<TP> ts; bool scal = true;
  for (size_t i = 0; i < k; i++) {
    if (tree && g_flags) { LE e = gexpr_for(g, s, d, dims[i], g.chance(30)); if (!e.quasi()) scal = false; TP t = tcst(e.k); for (size_t j = 0; j < s.N; j++) if (!(is_pt(e.c[j]) && sgn(e.c[j].lo.q) == 0)) t = tnode(AP_TEXPR_ADD, t, tnode(AP_TEXPR_MUL, tcst(e.c[j]), tdim(j)));
      es.push_back(e); ts.push_back(t); desc("x" + std::to_string(dims[i]) + " := " + str(t)); }
    else if (tree) { TOpt o; o.rounding = g.chance(30); o.nonlin = g.chance(60); o.itv = g.chance(30); ts.push_back(gtx(g, s.N, s.pr, o, g.range(1, 3))); desc("x" + std::to_string(dims[i]) + " := " + str(ts[i])); }
    else { es.push_back(gexpr_for(g, s, d, dims[i], g.chance(30))); if (!es[i].quasi()) scal = false; desc("x" + std::to_string(dims[i]) + " := " + str(es[i])); }
  }
  auto step = [&](const Pt& p, Pt& q) {
    q = p;
    for (size_t i = 0; i < k; i++) {
      Q v; if (tree) { auto r = eval(g, ts[i], p); if (!r) return false; v = *r; } else v = pick_in(g, eval(es[i], p), dims[i] < s.I);
      q[dims[i]] = v; }
    return pt_ok(s, q); };
  desc(d.name + " " + op + " I=" + std::to_string(s.I) + " N=" + std::to_string(s.N));
  A0 a, dest; vector<std::pair<Pt, Pt>> io; // (before, after)
  vector<Pt> after;
  for (auto& p : ps) { Pt q; if (step(p, q)) io.push_back({p, q}); }
  for (auto& x : io) after.push_back(x.second);
  if (subst) { if (after.empty()) after.push_back(ps[0]); a = build(g, m, s, after); }
  else a = build(g, m, s, ps);
  bool useDest = g.chance(25);
  if (useDest) { // the result is intersected with dest
    vector<Pt> dp; for (auto& x : io) dp.push_back(subst ? x.first : x.second);
    if (dp.empty()) dp.push_back(gpt(g, s));
    if (dp.size() > 1 && g.chance(40)) dp.resize(1 + g.below(dp.size()));
    dest = build(g, m, s, dp, 1);
    desc("dest=" + describe(m, dest));
  }
  desc("a=" + describe(m, a));
  Poly P = puniv(s.N), PD = puniv(s.N); bool haveP = false, modD = false, haveD = false;
  vector<Pt> w = witnesses(g, m, a, s, {}, &P, &haveP);
  if (useDest) haveD = d.convex && gamma(m, dest, PD, &modD) && !modD;
  for (auto& p : w) { Pt q; if (!subst) { if (step(p, q)) io.push_back({p, q}); } }
  bool arr = k > 1 || g.chance(30), de = destr(g);
  vector<ap_dim_t> td(dims.begin(), dims.end());
  vector<ap_linexpr0_t*> le; vector<ap_texpr0_t*> te;
  for (size_t i = 0; i < k; i++) if (tree) te.push_back(mk(g, ts[i])); else le.push_back(mk(g, es[i]));
  label(d.name + "/" + op + (arr ? "_array" : ""));
  ap_abstract0_t* dst = useDest ? dest.a : nullptr;
  A0 r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) {
    if (!subst) return tree ? (arr ? ap_abstract0_assign_texpr_array(m, x, v, td.data(), te.data(), k, dst) : ap_abstract0_assign_texpr(m, x, v, td[0], te[0], dst))
                            : (arr ? ap_abstract0_assign_linexpr_array(m, x, v, td.data(), le.data(), k, dst) : ap_abstract0_assign_linexpr(m, x, v, td[0], le[0], dst));
    return tree ? (arr ? ap_abstract0_substitute_texpr_array(m, x, v, td.data(), te.data(), k, dst) : ap_abstract0_substitute_texpr(m, x, v, td[0], te[0], dst))
                : (arr ? ap_abstract0_substitute_linexpr_array(m, x, v, td.data(), le.data(), k, dst) : ap_abstract0_substitute_linexpr(m, x, v, td[0], le[0], dst)); });
  for (auto e : le) ap_linexpr0_free(e);
  for (auto e : te) ap_texpr0_free(e);
  if (m.m->result.exn != AP_EXC_NONE) stat(string("exn:") + d.name + "/" + op + ":" + ap_name_of_exception[m.m->result.exn]);
  string key = d.name + "/" + op + (arr ? "_array" : "") + (useDest ? "+dest" : "") + (s.I ? "/int" : "/real");
  cover(m, op, r);
  int lim = 8;
  for (auto& x : io) {
    if (lim-- <= 0) break;
    const Pt& res = subst ? x.first : x.second; const Pt& src = subst ? x.second : x.first;
    // dest membership must be certain: every definite oracle accepts, and dest was built around the point
    if (useDest) { bool in = false; if (haveD) { in = true; ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, dest); for (size_t i = 0; i < l.size; i++) { LC c; if (!rd(&l.p[i], s.N, c) || !must_hold(eval(c.e, res), c.op, c.mod)) in = false; } ap_lincons0_array_clear(&l); }
      if (!in) continue; }
    check_in(g, m, r, res, s.I, key + "/point", (subst ? "substitution must keep" : "assignment must reach") + string(" (from ") + str(src) + ") result=" + describe(m, r), s.pr);
  }
  if (g_flags && haveP && (!useDest || haveD)) {
    Part T{puniv(s.N), s.N, {}}; auto mkpart = [&](const vector<LE>& e) { T.P = subst ? preimage(P, dims, e, true) : image(P, dims, e, true); if (!d.strict) T.P = closure(T.P); };
    if (scal) mkpart(es);
    if (subst) for (size_t i = 0; i < s.N; i++) T.ints.push_back(i < s.I); else for (size_t x : dims) T.ints.push_back(x < s.I);
    exactpts(g, m, key, r, s.I, [&](const Pt& p) { if (useDest && !mip_member(Part{d.strict ? PD : closure(PD), s.N, {}}, p)) return 0;
      if (!scal) { // interval coefficients are evaluated on the dimensions the point fixes
        vector<LE> e2 = es; for (auto& e : e2) for (size_t j = 0; j < s.N; j++) if (!is_pt(e.c[j])) { if (!subst && std::find(dims.begin(), dims.end(), j) != dims.end()) return -1; LE one(s.N); one.c[j] = e.c[j]; one.k = e.k; e.k = eval(one, p); e.c[j] = pt_itv(0); }
        mkpart(e2); }
      return mip_member(T, p); });
  }
  if ((!tree || g_flags) && scal && haveP && all_real(s) && (!useDest || haveD)) {
    Poly G = puniv(s.N);
    if (g_flags) { Poly ref = subst ? preimage(P, dims, es) : image(P, dims, es); flagcheck(m, key, r, ref, nullptr, useDest ? &PD : nullptr); }
    else if (gamma(m, r, G)) {
      Poly ref = subst ? preimage(P, dims, es) : image(P, dims, es);
      if (useDest) ref.intersection_assign(PD);
      judged();
      if (!closure(G).contains(ref) || (!G.contains(ref) && d.strict)) violation(key + "/region", "result does not cover the exact image: result {" + str(G) + "} exact {" + str(ref) + "}");
      stat("region-checks");
    }
  }
}
static Mode M_as("assign", [](Rng& g, long c) { do_assign(g, false, c % 2); });
static Mode M_su("substitute", [](Rng& g, long c) { do_assign(g, true, c % 2); });

// ------------------------------------------------------------------ meets
// the same value may occur several times among the arguments
static void alias(Rng& g, vector<ap_abstract0_t*>& t) { if (!g.chance(25)) return; for (int k = g.range(1, 3); k > 0; k--) { ap_abstract0_t* x = t[g.below(t.size())]; t.insert(t.begin() + g.below(t.size() + 1), x); } desc("aliased array of " + std::to_string(t.size())); }
static void m_meet(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g);
  int kind = g.below(4); // meet, meet_array, lincons, tcons
  static const char* on[] = {"meet", "meet_array", "meet_lincons", "meet_tcons"};
  string op = on[kind]; label(d.name + "/" + op);
  vector<Pt> ps = gpts(g, s, g.range(1, 4));
  desc(d.name + " " + op + " I=" + std::to_string(s.I) + " N=" + std::to_string(s.N));
  A0 a = build(g, m, s, ps); desc("a=" + describe(m, a));
  Poly P = puniv(s.N); bool haveP; vector<Pt> w = witnesses(g, m, a, s, ps, &P, &haveP);
  vector<A0> bs; vector<LC> cs; vector<TP> ts; vector<LC> tc; Poly ref = P; bool refok = haveP && all_real(s);
  Poly inter = P; bool interok = haveP; // the arguments without the constraints
  vector<Pt> keep; bool de = destr(g); A0 r; bool of = false;
  if (kind <= 1) {
    int nb = kind == 0 ? 1 : g.range(0, 3);
    vector<Pt> common = ps; if (common.size() > 1 && g.chance(50)) common.resize(1 + g.below(common.size()));
    for (int i = 0; i < nb; i++) { bs.push_back(build(g, m, s, common)); desc("b=" + describe(m, bs.back()));
      Poly B = puniv(s.N); bool md = false; if (!(d.convex && gamma(m, bs.back(), B, &md) && !md)) refok = interok = false; else { ref.intersection_assign(B); inter.intersection_assign(B); } }
    keep = common;
    label(d.name + "/" + op);
    if (kind == 0) r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_meet(m, x, v, bs[0]); });
    else { vector<ap_abstract0_t*> t; t.push_back(a.a); for (auto& b : bs) t.push_back(b.a); alias(g, t); r = A0(m, cap(m, ap_abstract0_meet_array(m, t.data(), t.size()))); }
  } else if (kind == 2) {
    int nc = g.range(0, 3);
    for (int i = 0; i < nc; i++) {
      LC c;
      if (g.chance(45)) { vector<Pt> sub(ps.begin(), ps.begin() + 1 + g.below(ps.size())); c = gcons(g, s, sub, d); }
      else { c.e = d.oct && g.chance(60) ? goct(g, s.N, s.pr) : gle(g, s.N, s.pr, 50, g.chance(25)); c.op = g.pick(vector<ap_constyp_t>{AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_SUPEQ, AP_CONS_EQMOD, AP_CONS_DISEQ});
        if (c.op == AP_CONS_EQMOD) c.mod = g.chance(70) ? Q(g.range(1, 6)) : g.chance(50) ? frac(g.range(1, 9), 2) : Q(0);
        if (g.chance(50) && c.e.quasi() && !w.empty()) { Q v = evalq(c.e, w[g.below(w.size())]); c.e.k = pt_itv(c.e.k.lo.q - v); } }
      cs.push_back(c); desc("cons " + str(c));
      if (c.e.quasi() && is_pt(c.e.k) && c.op != AP_CONS_DISEQ && c.op != AP_CONS_EQMOD) padd(ref, c);
      else if (c.op == AP_CONS_EQMOD && sgn(c.mod) == 0 && c.e.scalar()) { LC c2 = c; c2.op = AP_CONS_EQ; padd(ref, c2); if (g_flags) refok = false; }
      else refok = false;
    }
    if (g_flags && !d.strict && refok && ref.is_empty()) for (auto& c : cs) if (c.op == AP_CONS_SUP) refok = false; // closed domains may close a strict inequality
    for (auto& p : w) { bool ok = true; for (auto& c : cs) if (!may_hold(eval(c.e, p), c.op, c.mod)) ok = false; if (ok) keep.push_back(p); }
    ap_lincons0_array_t l = mk(g, cs); of = g.chance(15);
    label(d.name + "/" + op);
    if (of) { r = A0(m, cap(m, ap_abstract0_of_lincons_array(m, s.I, s.N - s.I, &l))); keep.clear(); for (int i = 0; i < 6; i++) { Pt p = gpt(g, s); bool ok = true; for (auto& c : cs) if (!may_hold(eval(c.e, p), c.op, c.mod)) ok = false; if (ok) keep.push_back(p); } refok = false; op = "of_lincons"; inter = puniv(s.N); interok = true; }
    else r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_meet_lincons_array(m, x, v, &l); });
    ap_lincons0_array_clear(&l);
  } else {
    int nc = g.range(1, 3); refok = false;
    ap_tcons0_array_t l = ap_tcons0_array_make(nc);
    for (int i = 0; i < nc; i++) {
      TOpt o; o.rounding = g.chance(25); o.nonlin = g.chance(60); o.itv = g.chance(25);
      TP t = gtx(g, s.N, s.pr, o, g.range(1, 3)); LC c; c.op = g.pick(vector<ap_constyp_t>{AP_CONS_EQ, AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_SUPEQ, AP_CONS_EQMOD, AP_CONS_DISEQ});
      if (c.op == AP_CONS_EQMOD) c.mod = Q(g.range(1, 6));
      if (g.chance(60)) { auto v = eval(g, t, ps[0]); if (v && mpz_sizeinbase(v->get_den_mpz_t(), 2) < 200) t = tnode(AP_TEXPR_SUB, t, tcst(pt_itv(*v))); }
      ts.push_back(t); tc.push_back(c); desc("tcons " + str(t) + " " + opname(c.op) + (c.op == AP_CONS_EQMOD ? " " + str(c.mod) : string("0")));
      ap_scalar_t* sc = nullptr; if (c.op == AP_CONS_EQMOD) { sc = ap_scalar_alloc(); set_scalar(g, sc, X(c.mod), SK_MPQ); }
      l.p[i] = ap_tcons0_make(c.op, mk(g, t), sc);
    }
    for (auto& p : w) { bool ok = true; for (size_t i = 0; i < ts.size(); i++) { auto v = eval(g, ts[i], p); if (!v || !holds(*v, tc[i].op, tc[i].mod)) ok = false; } if (ok) keep.push_back(p); }
    label(d.name + "/" + op); of = g.chance(15);
    if (of) { r = A0(m, cap(m, ap_abstract0_of_tcons_array(m, s.I, s.N - s.I, &l))); op = "of_tcons"; }
    else r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_meet_tcons_array(m, x, v, &l); });
    ap_tcons0_array_clear(&l);
  }
  if (m.m->result.exn != AP_EXC_NONE) stat(string("exn:") + d.name + "/" + op + ":" + ap_name_of_exception[m.m->result.exn]);
  cover(m, op, r);
  string key = d.name + "/" + op + (s.I ? "/int" : "/real");
  int lim = 8; for (auto& p : keep) { if (lim-- <= 0) break; check_in(g, m, r, p, s.I, key + "/point", "result=" + describe(m, r), s.pr); }
  if (g_flags && interok && ts.empty()) // every constraint can be evaluated exactly on a point of the result
    exactpts(g, m, key, r, s.I, [&](const Pt& p) { if (!mip_member(Part{d.strict ? inter : closure(inter), s.N, {}}, p)) return 0;
      for (auto& c : cs) { ap_constyp_t op = c.op; if (op == AP_CONS_EQMOD && !c.e.scalar()) return -1; /* congruences of intervals have no exact meaning in the library */ if (!d.strict) { if (op == AP_CONS_DISEQ) continue; if (op == AP_CONS_SUP) op = AP_CONS_SUPEQ; } if (!may_hold(eval(c.e, p), op, c.mod)) return 0; } return 1; });
  if (refok && g_flags) flagcheck(m, key, r, ref);
  else if (refok) { Poly G = puniv(s.N); if (gamma(m, r, G)) { judged(); stat("region-checks"); if (!closure(G).contains(ref) || (d.strict && !G.contains(ref))) violation(key + "/region", "result does not cover the intersection: result {" + str(G) + "} exact {" + str(ref) + "}"); } }
}
static Mode M_me("meet", m_meet);

// ------------------------------------------------------------------ joins, time elapse
static void m_join(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g);
  int kind = g.below(4); static const char* on[] = {"join", "join_array", "add_ray", "join"};
  string op = on[kind]; label(d.name + "/" + op);
  vector<Pt> ps = gpts(g, s, g.range(1, 3));
  desc(d.name + " " + op + " I=" + std::to_string(s.I) + " N=" + std::to_string(s.N));
  A0 a = build(g, m, s, ps); desc("a=" + describe(m, a));
  Poly P = puniv(s.N); bool haveP; vector<Pt> keep = witnesses(g, m, a, s, ps, &P, &haveP);
  Poly ref = P; bool refok = haveP; bool de = destr(g); A0 r; bool useRef = true; vector<Poly> parts(1, P);
  if (kind != 2) {
    int nb = kind == 1 ? g.range(0, 3) : 1; vector<A0> bs;
    for (int i = 0; i < nb; i++) {
      vector<Pt> p2 = gpts(g, s, g.range(1, 3)); A0 b = g.chance(8) ? A0(m, ap_abstract0_bottom(m, s.I, s.N - s.I)) : build(g, m, s, p2);
      Poly B = puniv(s.N); bool hb; bool isb = ap_abstract0_is_bottom(m, b); vector<Pt> w2 = witnesses(g, m, b, s, isb ? vector<Pt>() : p2, &B, &hb);
      keep.insert(keep.end(), w2.begin(), w2.end()); if (hb) parts.push_back(B); if (hb && refok) ref.poly_hull_assign(B); else refok = false;
      bs.push_back(std::move(b)); desc("b=" + describe(m, bs.back())); }
    label(d.name + "/" + op);
    if (kind != 1) r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_join(m, x, v, bs[0]); });
    else { vector<ap_abstract0_t*> t; t.push_back(a.a); for (auto& b : bs) t.push_back(b.a); alias(g, t); r = A0(m, cap(m, ap_abstract0_join_array(m, t.data(), t.size()))); }
  } else {
    int nr = g.range(0, 3); ap_generator0_array_t ga = ap_generator0_array_make(nr); vector<std::pair<int, Pt>> rays; useRef = false;
    for (int i = 0; i < nr; i++) {
      int t = d.cong ? g.pick(vector<int>{AP_GEN_LINE, AP_GEN_RAY, AP_GEN_LINEMOD, AP_GEN_RAYMOD}) : g.pick(vector<int>{AP_GEN_LINE, AP_GEN_RAY, AP_GEN_RAY});
      LE e(s.N); Pt v(s.N); for (size_t j = 0; j < s.N; j++) { Q q = g.chance(60) ? Q(g.range(-2, 2)) : gnum(g, s.pr); if (j < s.I) q = floorq(q); e.c[j] = pt_itv(q); v[j] = q; }
      rays.push_back({t, v}); ga.p[i] = ap_generator0_make((ap_gentyp_t)t, mk(g, e)); desc("gen " + std::to_string(t) + str(v)); }
    vector<Pt> out;
    for (auto& p : keep) { Pt q = p; for (auto& r2 : rays) { Q t; if (r2.first == AP_GEN_LINE || r2.first == AP_GEN_LINEMOD) t = Q(g.range(-3, 3)); else t = Q(g.range(0, 3));
        if (s.I == 0 && (r2.first == AP_GEN_LINE || r2.first == AP_GEN_RAY) && g.chance(50)) t /= 2; for (size_t j = 0; j < s.N; j++) q[j] += t * r2.second[j]; } if (pt_ok(s, q)) out.push_back(q); }
    keep.insert(keep.end(), out.begin(), out.end());
    label(d.name + "/" + op);
    r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_add_ray_array(m, x, v, &ga); });
    ap_generator0_array_clear(&ga);
  }
  if (m.m->result.exn != AP_EXC_NONE) stat(string("exn:") + d.name + "/" + op + ":" + ap_name_of_exception[m.m->result.exn]);
  cover(m, op, r);
  string key = d.name + "/" + op + (s.I ? "/int" : "/real");
  for (size_t i = keep.size(); i > 1; i--) std::swap(keep[i - 1], keep[g.below(i)]);
  int lim = 8; for (auto& p : keep) { if (lim-- <= 0) break; check_in(g, m, r, p, s.I, key + "/point", "result=" + describe(m, r), s.pr); }
  if (refok && useRef && s.I && g_flags) { vector<Part> ts; for (auto& q : parts) ts.push_back(Part{d.strict ? q : closure(q), s.N, {}}); exactpts(g, m, key, r, s.I, [&](const Pt& p) { return member_any(ts, p); }); }
  if (refok && useRef && all_real(s) && g_flags) flagcheck(m, key, r, ref, &parts);
  else if (refok && useRef && all_real(s)) { Poly G = puniv(s.N); if (gamma(m, r, G)) { judged(); stat("region-checks"); if (!closure(G).contains(ref) || (d.strict && !G.contains(ref))) violation(key + "/region", "result does not cover the hull: result {" + str(G) + "} exact {" + str(ref) + "}"); } }
}
static Mode M_jo("join", m_join);

// ------------------------------------------------------------------ dimensions
static void m_dims(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s = gshape(g);
  int kind = g_flags && s.I && g.chance(30) ? 1 + 4 * (int)g.below(2) : g.below(7); static const char* on[] = {"add_dimensions", "remove_dimensions", "permute_dimensions", "expand", "fold", "forget", "apply_dimchange2"};
  string op = on[kind]; label(d.name + "/" + op);
  if (!s.N && kind != 0 && kind != 2) { s.N = 2; s.I = g.below(3); }
  vector<Pt> ps = gpts(g, s, g.range(1, 3)); size_t n = s.N;
  desc(d.name + " " + op + " I=" + std::to_string(s.I) + " N=" + std::to_string(n));
  A0 a = build(g, m, s, ps); desc("a=" + describe(m, a));
  Poly P = puniv(n); bool haveP; vector<Pt> w = witnesses(g, m, a, s, ps, &P, &haveP); bool refok = haveP && all_real(s); Poly ref = P;
  bool de = destr(g); A0 r; vector<Pt> keep; Shape s2 = s; string extra;
  vector<Part> ip; // exact result on integer dimensions
  // the part whose result dimension i is dimension from[i] of T; the other dimensions of T are existential
  auto part = [&](const Poly& T, const vector<size_t>& from, const vector<bool>& ints) { size_t D = T.space_dimension(); Part t{d.strict ? T : closure(T), from.size(), {}};
    struct Map { vector<size_t> m; bool has_empty_codomain() const { return m.empty(); } PPL::dimension_type max_in_codomain() const { return m.size() - 1; } bool maps(PPL::dimension_type i, PPL::dimension_type& j) const { j = m[i]; return true; } } mp; mp.m.assign(D, D);
    for (size_t i = 0; i < from.size(); i++) mp.m[from[i]] = i; size_t o = from.size(); for (size_t i = 0; i < D; i++) if (mp.m[i] == D) { mp.m[i] = o++; t.ints.push_back(ints[i]); }
    if (D) t.P.map_space_dimensions(mp); ip.push_back(t); };
  vector<bool> isint; for (size_t i = 0; i < n; i++) isint.push_back(i < s.I); vector<size_t> id; for (size_t i = 0; i < n; i++) id.push_back(i);
  auto without = [&](const vector<size_t>& pos) { vector<size_t> v; for (size_t x : id) if (std::find(pos.begin(), pos.end(), x) == pos.end()) v.push_back(x); return v; };
  auto mkchange = [&](size_t I, size_t N, bool add, vector<size_t>& pos, size_t& ki, size_t& kr) {
    pos.clear(); ki = kr = 0;
    if (add) { ki = g.below(3) ; kr = g.below(3); for (size_t i = 0; i < ki; i++) pos.push_back(g.below(I + 1)); for (size_t i = 0; i < kr; i++) pos.push_back(I + g.below(N - I + 1)); std::sort(pos.begin(), pos.begin() + ki); std::sort(pos.begin() + ki, pos.end()); }
    else { for (size_t i = 0; i < N; i++) if (g.chance(35)) { pos.push_back(i); if (i < I) ki++; else kr++; } } };
  auto mkdc = [&](const vector<size_t>& pos, size_t ki, size_t kr) { ap_dimchange_t* dc = ap_dimchange_alloc(ki, kr); for (size_t i = 0; i < pos.size(); i++) dc->dim[i] = pos[i]; return dc; };
  auto addpt = [&](const Pt& p, const vector<size_t>& pos, size_t ki, bool project) { Pt q; size_t j = 0; for (size_t i = 0; i <= p.size(); i++) { while (j < pos.size() && pos[j] == i) { q.push_back(project ? Q(0) : (j < ki ? gint(g, s.pr) : gnum(g, s.pr))); j++; } if (i < p.size()) q.push_back(p[i]); } return q; };
  auto rempt = [&](const Pt& p, const vector<size_t>& pos) { Pt q; for (size_t i = 0; i < p.size(); i++) if (std::find(pos.begin(), pos.end(), i) == pos.end()) q.push_back(p[i]); return q; };
  auto addpoly = [&](Poly T, const vector<size_t>& pos, bool project) { size_t nn = T.space_dimension(); if (project) T.add_space_dimensions_and_project(pos.size()); else T.add_space_dimensions_and_embed(pos.size());
    struct Map { vector<size_t> m; bool has_empty_codomain() const { return m.empty(); } PPL::dimension_type max_in_codomain() const { return m.size() - 1; } bool maps(PPL::dimension_type i, PPL::dimension_type& j) const { j = m[i]; return true; } } mp;
    mp.m.resize(nn + pos.size()); size_t j = 0, o = 0; for (size_t i = 0; i <= nn; i++) { while (j < pos.size() && pos[j] == i) { mp.m[nn + j] = o++; j++; } if (i < nn) mp.m[i] = o++; }
    if (mp.m.size()) T.map_space_dimensions(mp); return T; };
  auto rempoly = [&](Poly T, const vector<size_t>& pos) { PPL::Variables_Set v; for (size_t i : pos) v.insert(PPL::Variable(i)); T.remove_space_dimensions(v); return T; };
  vector<size_t> pos; size_t ki, kr;
  switch (kind) {
  case 0: { mkchange(s.I, n, true, pos, ki, kr); bool pr = g.chance(50); ap_dimchange_t* dc = mkdc(pos, ki, kr); for (auto x : pos) extra += std::to_string(x) + ","; desc(string("add ") + extra + (pr ? " project" : ""));
    r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_add_dimensions(m, x, v, dc, pr); }); ap_dimchange_free(dc);
    for (auto& p : w) keep.push_back(addpt(p, pos, ki, pr)); s2.I += ki; s2.N += ki + kr; if (haveP) { part(addpoly(ref, pos, pr), [&] { vector<size_t> v; for (size_t i = 0; i < s2.N; i++) v.push_back(i); return v; }(), {}); ref = addpoly(ref, pos, pr); } if (ki) refok = false; break; }
  case 1: { mkchange(s.I, n, false, pos, ki, kr); ap_dimchange_t* dc = mkdc(pos, ki, kr); for (auto x : pos) extra += std::to_string(x) + ","; desc(string("remove ") + extra);
    r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_remove_dimensions(m, x, v, dc); }); ap_dimchange_free(dc);
    for (auto& p : w) keep.push_back(rempt(p, pos)); s2.I -= ki; s2.N -= ki + kr; if (haveP) part(ref, without(pos), isint); if (refok) ref = rempoly(ref, pos); break; }
  case 2: { ap_dimperm_t* pm = ap_dimperm_alloc(n); vector<size_t> v(n); for (size_t i = 0; i < n; i++) v[i] = i; // permutes integers among themselves, reals among themselves
    for (size_t i = s.I; i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); for (size_t i = n; i > s.I + 1; i--) std::swap(v[i - 1], v[s.I + g.below(i - s.I)]);
    for (size_t i = 0; i < n; i++) { pm->dim[i] = v[i]; extra += std::to_string(v[i]) + ","; } desc("perm " + extra);
    r = app(g, m, a, de, [&](bool x, ap_abstract0_t* q) { return ap_abstract0_permute_dimensions(m, x, q, pm); }); ap_dimperm_free(pm);
    for (auto& p : w) { Pt q(n); for (size_t i = 0; i < n; i++) q[v[i]] = p[i]; keep.push_back(q); }
    struct Map { vector<size_t> m; bool has_empty_codomain() const { return m.empty(); } PPL::dimension_type max_in_codomain() const { return m.size() - 1; } bool maps(PPL::dimension_type i, PPL::dimension_type& j) const { j = m[i]; return true; } } mp{v}; if (n && refok) ref.map_space_dimensions(mp); if (haveP && n) { vector<size_t> from(n); for (size_t i = 0; i < n; i++) from[v[i]] = i; part(P, from, isint); } break; }
  case 3: { size_t dim = g.below(n), k = g.below(3); desc("expand x" + std::to_string(dim) + " by " + std::to_string(k));
    r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_expand(m, x, v, dim, k); });
    bool isI = dim < s.I; size_t at = isI ? s.I : n; s2.N += k; if (isI) s2.I += k;
    for (auto& p : w) for (int t = 0; t < 2; t++) { // other copies take the value of any point agreeing elsewhere
        Pt q = p; vector<Q> ex; for (size_t i = 0; i < k; i++) { Q v = p[dim]; const Pt& o = w[g.below(w.size())]; bool agree = true; for (size_t j = 0; j < n; j++) if (j != dim && o[j] != p[j]) agree = false; if (agree) v = o[dim]; ex.push_back(v); }
        q.insert(q.begin() + at, ex.begin(), ex.end()); keep.push_back(q); }
    if (haveP) { Poly E = P; E.expand_space_dimension(PPL::Variable(dim), k); vector<size_t> from; for (size_t i = 0; i < at; i++) from.push_back(i); for (size_t i = 0; i < k; i++) from.push_back(n + i); for (size_t i = at; i < n; i++) from.push_back(i); part(E, from, {}); }
    if (refok) { Poly E = ref; E.expand_space_dimension(PPL::Variable(dim), k); ref = E; } break; }
  case 4: { size_t k = g.range(1, s.I && g.chance(50) ? (long)s.I : (s.N > s.I ? (long)(s.N - s.I) : (long)s.I)); bool ints = !(k <= s.N - s.I && (s.I < k || g.chance(60)));
    if (ints && k > s.I) k = s.I; vector<size_t> c; for (size_t i = ints ? 0 : s.I; i < (ints ? s.I : n); i++) c.push_back(i); for (size_t i = 0; i < k; i++) std::swap(c[i], c[i + g.below(c.size() - i)]); c.resize(k);
    if (k > 1 && g.chance(50)) std::sort(c.begin(), c.end());
    bool sorted = std::is_sorted(c.begin(), c.end()); (void)sorted; std::sort(c.begin(), c.end());
    vector<ap_dim_t> td(c.begin(), c.end()); for (auto x : c) extra += std::to_string(x) + ","; desc("fold " + extra);
    r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_fold(m, x, v, td.data(), k); });
    vector<size_t> rest(c.begin() + 1, c.end()); s2.N -= k - 1; if (ints) s2.I -= k - 1;
    for (auto& p : w) for (size_t i = 0; i < k; i++) { Pt q = p; q[c[0]] = p[c[i]]; keep.push_back(rempt(q, rest)); }
    if (haveP) for (size_t i = 0; i < k; i++) { vector<size_t> from = without(rest); for (auto& x : from) if (x == c[0]) x = c[i]; part(P, from, isint); }
    if (refok) { PPL::Variables_Set vs; for (size_t x : rest) vs.insert(PPL::Variable(x)); if (!rest.empty()) ref.fold_space_dimensions(vs, PPL::Variable(c[0])); } break; }
  case 5: { size_t k = g.range(1, n); vector<size_t> c = gdims(g, n, k); bool pr = g.chance(40) && !(g_flags && d.name.rfind("polka", 0) == 0 && d.name != "polkaeq"); /* the recorded projection defect belongs to P05 */ vector<ap_dim_t> td(c.begin(), c.end()); for (auto x : c) extra += std::to_string(x) + ","; desc("forget " + extra + (pr ? " project" : ""));
    r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_forget_array(m, x, v, td.data(), k, pr); });
    for (auto& p : w) { Pt q = p; for (auto x : c) q[x] = pr ? Q(0) : (x < s.I ? gint(g, s.pr) : gnum(g, s.pr)); keep.push_back(q); }
    if (haveP) { Poly E = P; E.add_space_dimensions_and_embed(k); if (pr) for (size_t i = 0; i < k; i++) E.add_constraint(PPL::Variable(n + i) == 0); vector<size_t> from = id; for (size_t i = 0; i < k; i++) from[c[i]] = n + i; part(E, from, isint); }
    if (refok) { for (auto x : c) { ref.unconstrain(PPL::Variable(x)); if (pr) ref.add_constraint(PPL::Variable(x) == 0); } } break; }
  default: { vector<size_t> p1, p2; size_t a1, b1, a2, b2; mkchange(s.I, n, true, p1, a1, b1); size_t nI = s.I + a1, nN = n + a1 + b1; mkchange(nI, nN, false, p2, a2, b2); bool pr = g.chance(50);
    ap_dimchange2_t* dc = ap_dimchange2_alloc(g.chance(15) ? nullptr : mkdc(p1, a1, b1), nullptr); if (!dc->add) { p1.clear(); a1 = b1 = 0; nI = s.I; nN = n; mkchange(nI, nN, false, p2, a2, b2); }
    if (!g.chance(15)) dc->remove = mkdc(p2, a2, b2); else { p2.clear(); a2 = b2 = 0; }
    for (auto x : p1) extra += "+" + std::to_string(x); for (auto x : p2) extra += "-" + std::to_string(x); desc(extra);
    r = app(g, m, a, de, [&](bool x, ap_abstract0_t* v) { return ap_abstract0_apply_dimchange2(m, x, v, dc, pr); }); ap_dimchange2_free(dc);
    for (auto& p : w) keep.push_back(rempt(addpt(p, p1, a1, pr), p2)); s2.I = nI - a2; s2.N = nN - a2 - b2; if (a1) refok = false; if (refok) ref = rempoly(addpoly(ref, p1, pr), p2); break; }
  }
  if (m.m->result.exn != AP_EXC_NONE) stat(string("exn:") + d.name + "/" + op + ":" + ap_name_of_exception[m.m->result.exn]);
  string key = d.name + "/" + op + (s.I ? "/int" : "/real");
  ap_dimension_t dm = ap_abstract0_dimension(m, r);
  require(dm.intdim == s2.I && dm.realdim == s2.N - s2.I, key + "/dimension", "result has dimension (" + std::to_string(dm.intdim) + "," + std::to_string(dm.realdim) + ") instead of (" + std::to_string(s2.I) + "," + std::to_string(s2.N - s2.I) + ")");
  if (dm.intdim != s2.I || dm.realdim != s2.N - s2.I) return;
  cover(m, op, r);
  for (size_t i = keep.size(); i > 1; i--) std::swap(keep[i - 1], keep[g.below(i)]);
  int lim = 8; for (auto& p : keep) { if (lim-- <= 0) break; check_in(g, m, r, p, s2.I, key + "/point", "result=" + describe(m, r), s.pr); }
  if (g_flags && haveP && !ip.empty()) exactpts(g, m, key, r, s2.I, [&](const Pt& p) { return member_any(ip, p); });
  if (refok && g_flags) flagcheck(m, key, r, ref);
  else if (refok) { Poly G = puniv(s2.N); if (gamma(m, r, G)) { judged(); stat("region-checks"); if (!closure(G).contains(ref) || (d.strict && !G.contains(ref))) violation(key + "/region", "result does not cover: result {" + str(G) + "} exact {" + str(ref) + "}"); } }
}
static Mode M_di("dims", m_dims);

// the same operations, judged by what the manager says of the result: exact, best
static void m_flags(Rng& g, long c) {
  nocheck() = g_flags = true;
  switch (g.below(5)) { case 0: do_assign(g, false, g.chance(25)); break; case 1: do_assign(g, true, g.chance(25)); break; case 2: m_meet(g, c); break; case 3: m_join(g, c); break; default: m_dims(g, c); }
  nocheck() = g_flags = false;
}
static Mode M_fl("flags", m_flags);

// the same operations when the manager limits the size of objects and coefficients
static void m_limits(Rng& g, long c) {
  g_limits() = true;
  switch (g.below(5)) { case 0: do_assign(g, false, c % 2); break; case 1: do_assign(g, true, c % 2); break; case 2: m_meet(g, c); break; case 3: m_join(g, c); break; default: m_dims(g, c); }
  g_limits() = false;
}
static Mode M_li("limits", m_limits);

int main(int argc, char** argv) { return harness_main(argc, argv); }
