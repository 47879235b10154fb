// Values over environments (level 1 of the interface) against the same operation on dimensions (level 0), with an
// independent map from names to dimensions, and against named states.
#include "values.h"
#include "envmodel.h"

typedef std::map<int, Q> St; // a state: name -> value
static Shape shp(const ME& e, const Prof& pr) { Shape s; s.I = e.I.size(); s.N = e.size(); s.pr = pr; return s; }
static Pt proj(const St& s, const ME& e) { Pt p; for (int v : e.all()) p.push_back(s.at(v)); return p; }
static St named(const Pt& p, const ME& e) { St s; vector<int> a = e.all(); for (size_t i = 0; i < a.size(); i++) s[a[i]] = p[i]; return s; }
static int at(const vector<int>& v, int x) { for (size_t i = 0; i < v.size(); i++) if (v[i] == x) return i; return -1; }
static LE lift(const LE& e, const ME& from, const ME& to) { LE r(to.size()); r.k = e.k; vector<int> f = from.all(), t = to.all(); for (size_t i = 0; i < f.size(); i++) r.c[at(t, f[i])] = e.c[i]; return r; }
static TP lift(const TP& e, const ME& from, const ME& to) { if (!e || e->kind == 0) return e; if (e->kind == 1) return tdim(at(to.all(), from.all()[e->dim])); return tnode(e->op, lift(e->a, from, to), lift(e->b, from, to), e->ty, e->dir); }
static LC lift(const LC& c, const ME& from, const ME& to) { LC r = c; r.e = lift(c.e, from, to); return r; }
static A0 permuteto(ap_manager_t* m, A0 x, const vector<int>& names, const vector<int>& target) {
  ap_dimperm_t* pm = ap_dimperm_alloc(names.size()); for (size_t i = 0; i < names.size(); i++) pm->dim[i] = at(target, names[i]); A0 r(m, ap_abstract0_permute_dimensions(m, false, x, pm)); ap_dimperm_free(pm); return r; }
// embed a value over one environment into a larger one: new dimensions first at the end of their section, then sorted
static A0 embed(ap_manager_t* m, A0 x, const ME& from, const ME& to, bool project) {
  vector<int> ni = minus(to.I, from.I), nr = minus(to.R, from.R); if (ni.empty() && nr.empty()) return x; ap_dimchange_t* dc = ap_dimchange_alloc(ni.size(), nr.size());
  for (size_t i = 0; i < ni.size(); i++) dc->dim[i] = from.I.size(); for (size_t i = 0; i < nr.size(); i++) dc->dim[ni.size() + i] = from.size(); A0 y(m, ap_abstract0_add_dimensions(m, false, x, dc, project)); ap_dimchange_free(dc);
  vector<int> names = from.I; names.insert(names.end(), ni.begin(), ni.end()); names.insert(names.end(), from.R.begin(), from.R.end()); names.insert(names.end(), nr.begin(), nr.end()); return permuteto(m, std::move(y), names, to.all()); }
static A0 restrictto(ap_manager_t* m, A0 x, const ME& from, const ME& to) {
  vector<int> a = from.all(); vector<size_t> rem; size_t ki = 0; for (size_t i = 0; i < a.size(); i++) if (!to.has(a[i])) { rem.push_back(i); if (i < from.I.size()) ki++; } if (rem.empty()) return x;
  ap_dimchange_t* dc = ap_dimchange_alloc(ki, rem.size() - ki); for (size_t i = 0; i < rem.size(); i++) dc->dim[i] = rem[i]; A0 y(m, ap_abstract0_remove_dimensions(m, false, x, dc)); ap_dimchange_free(dc); return y; }
static size_t invalids(ap_manager_t* m) { size_t n = 0; for (ap_exclog_t* e = m->result.exclog; e; e = e->tail) if (e->exn == AP_EXC_INVALID_ARGUMENT) n++; return n; }
static ME subset(Rng& g, const ME& e, int pct) { ME r; for (int v : e.I) if (g.chance(pct)) r.I.push_back(v); for (int v : e.R) if (g.chance(pct)) r.R.push_back(v); return r; }
static ME without(const ME& e, const vector<int>& v) { ME r; r.I = minus(e.I, v); r.R = minus(e.R, v); return r; }

static void case1(Rng& g, Pool& P) {
  const Dom& d = gdom(g); Man m(d); ap_manager_t* mm = m; string base = d.name + "/";
  auto fresh = [&](size_t lo, size_t hi) { for (;;) { ME x = sorted(gme(g, P, hi, g.pick(vector<long>{0, 0, 30, 50, 100}))); if (wellformed(x) && x.size() >= lo) return x; } };
  ME e = fresh(g.chance(4) ? 0 : 1, 4); Prof pr = gprof(g); Shape s = shp(e, pr); size_t N = s.N; vector<int> al = e.all(); bool sem = semantic(m, s), destr = g.chance(50);
  ap_environment_t* ea = mkenv(P, e); desc(d.name + " env " + str(P, e) + (destr ? " in place" : ""));
  auto outside = [&] { for (;;) { int v = g.below(P.v.size()); if (!e.has(v)) return v; } };
  auto fresh_names = [&](size_t k, const ME& ex) { vector<int> r; for (int t = 0; t < 100 && r.size() < k; t++) { int v = g.below(P.v.size()); if (!ex.has(v) && at(r, v) < 0) r.push_back(v); } return r; };
  auto related = [&] { ME r = subset(g, e, 60); for (int v : fresh_names(g.below(3), e)) (g.chance(50) || s.I == 0 ? r.R : r.I).push_back(v); return sorted(r); };
  vector<ap_environment_t*> envs{ea};
  auto envof = [&](const ME& x) { if (x == e && g.chance(60)) return ea; ap_environment_t* r = mkenv(P, x); envs.push_back(r); return r; };
  vector<Pt> ps = gpts(g, s, g.range(1, 3));
  bool bot = g.chance(5); A0 a0 = bot ? A0(m, ap_abstract0_bottom(m, s.I, N - s.I)) : build(g, m, s, ps); if (bot) ps.clear();
  auto wrap = [&](A0 x, ap_environment_t* en) { ap_abstract1_t r; r.abstract0 = x.rel(); r.env = ap_environment_copy(en); return r; };
  ap_abstract1_t a = wrap(a0.copy(), ea); A0 snap = a0.copy(); Obs oa = observe(m, a0, N); desc("a=" + describe(m, a0));
  auto clear = [&] { ap_manager_clear_exclog(mm); };
  // run the operation in place or not; the functional version leaves its argument alone
  auto run = [&](const string& key, std::function<ap_abstract1_t(bool, ap_abstract1_t*)> f) { label(key); stat("op:" + key.substr(base.size())); clear();
    if (destr) { ap_abstract1_t k = ap_abstract1_copy(m, &a); size_t c0 = k.env->count; (void)c0; return f(true, &k); }
    ap_abstract1_t r = f(false, &a); judged(); if (a.env != ea || !a.abstract0) violation(key + "/purity", "the environment of the argument changed"); else if (!(rdenv(P, a.env) == e)) violation(key + "/purity", "the environment of the argument is now " + str(P, rdenv(P, a.env))); else unchanged(g, m, a.abstract0, oa, snap, s, ps, key + "/purity", "the argument"); return r; };
  auto okenv = [&](const string& key, ap_abstract1_t& r, const ME& er) { judged(); if (!r.env || !r.abstract0) { violation(key + "/null", "the result has no value or no environment"); return false; } ME re = rdenv(P, r.env); ap_dimension_t dd = ap_abstract0_dimension(m, r.abstract0);
    if (!(re == er)) { violation(key + "/environment", "the result is over " + str(P, re) + " instead of " + str(P, er)); return false; }
    if (dd.intdim != er.I.size() || dd.realdim != er.R.size()) { violation(key + "/dimensions", "the value has " + std::to_string(dd.intdim) + "+" + std::to_string(dd.realdim) + " dimensions over " + str(P, er)); return false; } return true; };
  auto judge = [&](const string& key, ap_abstract1_t r, const ME& er, const A0* x, const vector<Pt>& states) {
    size_t inv = invalids(m); judged(); if (inv) violation(key + "/exception", "a valid call raised an invalid-argument exception: " + string(mm->result.exclog->msg ? mm->result.exclog->msg : ""));
    if (okenv(key, r, er)) { Shape t = shp(er, pr); for (auto& p : states) if (!check_in(g, m, r.abstract0, p, t.I, key + "/state", "the result " + describe(m, r.abstract0) + " over " + str(P, er), pr, 1)) break;
      if (x && sem && er.I.empty()) { judged(); stat("compared"); string df = differ(m, r.abstract0, *x); if (!df.empty()) violation(key + "/level0", "differs from the operation on dimensions: " + df); }
      A0 t2(m, ap_abstract0_copy(m, r.abstract0)); cover(m, key.substr(base.size()), t2); }
    ap_abstract1_clear(m, &r); };
  auto refused = [&](const string& key, const string& what, std::function<ap_abstract1_t(bool, ap_abstract1_t*)> f) { desc(what); ap_abstract1_t r = run(key, f); stat("refused:" + key.substr(base.size())); judged(); if (!invalids(m)) violation(key + "/not-reported", what + " raised no invalid-argument exception"); nontrivial(R().inputs);
    if (!r.env || !r.abstract0) { violation(key + "/null", "no result"); return; } ME re = rdenv(P, r.env); okenv(key, r, re); if (re == e) for (auto& p : ps) if (!check_in(g, m, r.abstract0, p, s.I, key + "/fallback", "the result of a refused call", pr, 1)) break; ap_abstract1_clear(m, &r); };
  auto l1 = [&](const LE& x, const ME& es) { ap_linexpr1_t r; r.linexpr0 = mk(g, x); r.env = ap_environment_copy(envof(es)); return r; };
  auto t1 = [&](const TP& x, const ME& es) { ap_texpr1_t* r = (ap_texpr1_t*)malloc(sizeof(ap_texpr1_t)); r->texpr0 = mk(g, x); r->env = ap_environment_copy(envof(es)); return r; };
  auto badsub = [&] { ME x = subset(g, e, 60); int v = outside(); (g.chance(50) ? x.I : x.R).push_back(v); if (g.chance(30) && N) { x = ME(); int w = al[g.below(N)]; (e.isint(w) ? x.R : x.I).push_back(w); } return sorted(x); };
  auto lincons = [&](const ME& es, vector<LC>& up, int maxc) { vector<LC> cs; vector<Pt> q; for (auto& p : ps) q.push_back(proj(named(p, e), es)); if (q.empty()) q.push_back(gpt(g, shp(es, pr))); for (int i = g.range(0, maxc); i > 0; i--) { LC c = gcons(g, shp(es, pr), q, d); cs.push_back(c); up.push_back(lift(c, es, e)); desc(str(up.back())); } ap_lincons1_array_t r; r.lincons0_array = mk(g, cs); r.env = ap_environment_copy(envof(es)); return r; };
  auto tcons = [&](const ME& es, vector<std::pair<TP, ap_constyp_t>>& up, int maxc) { int k = g.range(0, maxc); ap_tcons1_array_t r = ap_tcons1_array_make(envof(es), k); for (int i = 0; i < k; i++) { TOpt o; o.rounding = g.chance(25); TP t = gtx(g, es.size(), pr, o, g.range(1, 3)); ap_constyp_t ty = g.pick(vector<ap_constyp_t>{AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ, AP_CONS_DISEQ}); r.tcons0_array.p[i] = ap_tcons0_make(ty, mk(g, t), nullptr); up.push_back({lift(t, es, e), ty}); desc(str(up.back().first) + opname(ty)); } return r; };
  auto lc0 = [&](const vector<LC>& v) { return mk(g, v); };
  auto tc0 = [&](const vector<std::pair<TP, ap_constyp_t>>& v) { ap_tcons0_array_t r = ap_tcons0_array_make(v.size()); for (size_t i = 0; i < v.size(); i++) r.p[i] = ap_tcons0_make(v[i].second, mk(g, v[i].first), nullptr); return r; };
  auto sat = [&](const vector<std::pair<TP, ap_constyp_t>>& v, vector<Pt> w) { vector<Pt> r; for (auto& p : w) { bool ok = true; for (auto& c : v) { if (!tree_linear_real(c.first)) { ok = false; break; } auto q = eval(g, c.first, p); if (!q || !holds(*q, c.second, 0)) ok = false; } if (ok) r.push_back(p); } return r; };
  bool err = g.chance(12);
  int op = g.below(26);
  switch (op) {
  case 0: case 1: case 2: case 3: { // meet, join, arrays
    const char* nm[] = {"meet", "join", "meet_array", "join_array"}; string key = base + nm[op]; bool meet = !(op & 1); 
    if (err) { ME e2 = fresh(0, 4); if (e2 == e) break; Shape t = shp(e2, pr); ap_abstract1_t b = wrap(build(g, m, t, gpts(g, t, 1)), envof(e2)); int posn = g.below(2);
      if (op < 2) refused(key + "-env", "a value over " + str(P, e2), [&](bool x, ap_abstract1_t* v) { return meet ? ap_abstract1_meet(m, x, v, &b) : ap_abstract1_join(m, x, v, &b); });
      else { destr = false; bool empty = g.chance(20); refused(key + "-env", empty ? "an empty array" : "values over different environments", [&](bool, ap_abstract1_t* v) { ap_abstract1_t t3[3] = {*v, posn ? *v : b, b}; return meet ? ap_abstract1_meet_array(m, t3, empty ? 0 : 3) : ap_abstract1_join_array(m, t3, empty ? 0 : 3); }); }
      ap_abstract1_clear(m, &b); break; }
    vector<Pt> p2 = meet ? ps : gpts(g, s, g.range(1, 2)); A0 b0 = p2.empty() ? A0(m, ap_abstract0_top(m, s.I, N - s.I)) : build(g, m, s, p2), c0 = p2.empty() ? b0.copy() : build(g, m, s, p2); desc("b=" + describe(m, b0)); ap_abstract1_t b = wrap(b0.copy(), envof(e)), c = wrap(c0.copy(), envof(e)); vector<Pt> st = ps; if (!meet) st.insert(st.end(), p2.begin(), p2.end());
    if (op < 2) { A0 x(m, meet ? ap_abstract0_meet(m, false, a0, b0) : ap_abstract0_join(m, false, a0, b0)); judge(key, run(key, [&](bool z, ap_abstract1_t* v) { return meet ? ap_abstract1_meet(m, z, v, &b) : ap_abstract1_join(m, z, v, &b); }), e, &x, st); }
    else { destr = false; ap_abstract0_t* t0[3] = {a0.a, b0.a, c0.a}; A0 x(m, meet ? ap_abstract0_meet_array(m, t0, 3) : ap_abstract0_join_array(m, t0, 3)); judge(key, run(key, [&](bool, ap_abstract1_t* v) { ap_abstract1_t t3[3] = {*v, b, c}; return meet ? ap_abstract1_meet_array(m, t3, 3) : ap_abstract1_join_array(m, t3, 3); }), e, &x, st); }
    ap_abstract1_clear(m, &b); ap_abstract1_clear(m, &c); break; }
  case 4: { // linear constraints over a sub-environment
    string key = base + "meet_lincons_array"; if (err) { ME es = badsub(); ap_lincons1_array_t l = ap_lincons1_array_make(envof(es), 0); refused(key + "-env", "constraints over " + str(P, es), [&](bool z, ap_abstract1_t* v) { return ap_abstract1_meet_lincons_array(m, z, v, &l); }); ap_lincons1_array_clear(&l); break; }
    ME es = g.chance(30) ? e : subset(g, e, 60); vector<LC> up; ap_lincons1_array_t l = lincons(es, up, 3); string before = dump(&l.lincons0_array); ap_lincons0_array_t l0 = lc0(up); A0 x(m, ap_abstract0_meet_lincons_array(m, false, a0, &l0)); ap_lincons0_array_clear(&l0); desc("over " + str(P, es));
    judge(key, run(key, [&](bool z, ap_abstract1_t* v) { return ap_abstract1_meet_lincons_array(m, z, v, &l); }), e, &x, ps); require(dump(&l.lincons0_array) == before && rdenv(P, l.env) == es, key + "/arguments", "the constraints of the caller changed"); ap_lincons1_array_clear(&l); break; }
  case 5: { string key = base + "meet_tcons_array"; if (err) { ME es = badsub(); ap_tcons1_array_t l = ap_tcons1_array_make(envof(es), 0); refused(key + "-env", "constraints over " + str(P, es), [&](bool z, ap_abstract1_t* v) { return ap_abstract1_meet_tcons_array(m, z, v, &l); }); ap_tcons1_array_clear(&l); break; }
    ME es = g.chance(30) ? e : subset(g, e, 60); vector<std::pair<TP, ap_constyp_t>> up; ap_tcons1_array_t l = tcons(es, up, 2); string before = dump(&l.tcons0_array); ap_tcons0_array_t l0 = tc0(up); A0 x(m, ap_abstract0_meet_tcons_array(m, false, a0, &l0)); ap_tcons0_array_clear(&l0); desc("over " + str(P, es));
    judge(key, run(key, [&](bool z, ap_abstract1_t* v) { return ap_abstract1_meet_tcons_array(m, z, v, &l); }), e, &x, sat(up, ps)); require(dump(&l.tcons0_array) == before && rdenv(P, l.env) == es, key + "/arguments", "the constraints of the caller changed"); ap_tcons1_array_clear(&l); break; }
  case 6: case 7: case 8: case 9: { // assignments and substitutions
    bool sub = op & 1, tree = op >= 8; string key = base + (sub ? "substitute" : "assign") + (tree ? "_texpr" : "_linexpr"); if (!N) break; size_t kk = g.chance(60) ? 1 : g.range(g.chance(10) ? 0 : 1, N); vector<int> tv; vector<size_t> td = gdims(g, N, kk); for (size_t x : td) tv.push_back(al[x]);
    bool hasdest = g.chance(30), one = kk == 1 && g.chance(50); vector<ME> es; vector<LE> le; vector<TP> te; bool scal = true; int bad = err && kk ? (int)g.below(3) : -1; size_t badi = kk ? g.below(kk) : 0;
    for (size_t i = 0; i < kk; i++) { ME x = g.chance(30) ? e : subset(g, e, 60); if (bad == 0 && i == badi) x = badsub(); es.push_back(x); if (tree) { TOpt o; o.rounding = g.chance(25); te.push_back(gtx(g, x.size(), pr, o, g.range(1, 3))); if (!tree_linear_real(te.back())) scal = false; desc(P.names[tv[i]] + ":=" + str(te.back()) + " over " + str(P, x)); }
      else { Shape t = shp(x, pr); LE z = gexpr_for(g, t, d, N, g.chance(20)); if (e.isint(tv[i])) { z = LE(x.size()); for (size_t j = 0; j < x.I.size(); j++) z.c[j] = pt_itv(Q(g.range(-2, 2))); z.k = pt_itv(Q(g.range(-3, 3))); } le.push_back(z); if (!z.scalar()) scal = false; desc(P.names[tv[i]] + ":=" + str(z) + " over " + str(P, x)); } }
    if (bad == 1) tv[badi] = outside(); vector<Pt> st; ap_abstract1_t dst; A0 d0; if (bad == 2) hasdest = true;
    auto fapp = [&](const Pt& p) { Pt q = p; for (size_t i = 0; i < kk; i++) { if (tree) { auto v = eval(g, lift(te[i], es[i], e), p); if (!v) return Pt(); q[td[i]] = *v; } else q[td[i]] = evalq(lift(le[i], es[i], e), p); } return q; };
    if (bad < 0 && scal) { if (!sub) { for (auto& p : ps) { Pt q = fapp(p); if (q.size() == N && pt_ok(s, q)) st.push_back(q); } } else { vector<Pt> post; for (auto& p : gpts(g, s, 2)) { Pt q = fapp(p); if (q.size() == N && pt_ok(s, q)) { post.push_back(q); st.push_back(p); } }
        if (!post.empty()) { ap_abstract1_clear(m, &a); a0 = build(g, m, s, post); a = wrap(a0.copy(), ea); snap = a0.copy(); oa = observe(m, a0, N); ps = post; desc("a=" + describe(m, a0)); } } }
    if (hasdest) { ME de = bad == 2 ? badsub() : e; Shape t = shp(de, pr); d0 = bad != 2 && !st.empty() ? build(g, m, s, st) : build(g, m, t, gpts(g, t, 1)); if (bad != 2 && st.empty()) st.clear(); dst = wrap(d0.copy(), envof(de)); desc("dest=" + describe(m, d0)); }
    ap_linexpr1_t* L = (ap_linexpr1_t*)malloc(sizeof(ap_linexpr1_t) * (kk + 1)); ap_texpr1_t* T = (ap_texpr1_t*)malloc(sizeof(ap_texpr1_t) * (kk + 1)); vector<string> before; for (size_t i = 0; i < kk; i++) if (tree) { ap_texpr1_t* t = t1(te[i], es[i]); T[i] = *t; free(t); before.push_back(dump(T[i].texpr0)); } else { L[i] = l1(le[i], es[i]); before.push_back(dump(L[i].linexpr0)); }
    VA va(P, tv); auto f = [&](bool z, ap_abstract1_t* v) { ap_abstract1_t* de = hasdest ? &dst : nullptr; ap_var_t* tvp = va.d();
      if (tree) { if (one) return sub ? ap_abstract1_substitute_texpr(m, z, v, tvp[0], &T[0], de) : ap_abstract1_assign_texpr(m, z, v, tvp[0], &T[0], de); return sub ? ap_abstract1_substitute_texpr_array(m, z, v, tvp, T, kk, de) : ap_abstract1_assign_texpr_array(m, z, v, tvp, T, kk, de); }
      if (one) return sub ? ap_abstract1_substitute_linexpr(m, z, v, tvp[0], &L[0], de) : ap_abstract1_assign_linexpr(m, z, v, tvp[0], &L[0], de); return sub ? ap_abstract1_substitute_linexpr_array(m, z, v, tvp, L, kk, de) : ap_abstract1_assign_linexpr_array(m, z, v, tvp, L, kk, de); };
    if (bad >= 0) refused(key + (bad == 0 ? "-expr" : bad == 1 ? "-var" : "-dest"), bad == 0 ? "an expression over " + str(P, es[badi]) : bad == 1 ? "the unknown variable " + P.names[tv[badi]] : string("a destination over another environment"), f);
    else { vector<ap_dim_t> dd(td.begin(), td.end()); A0 x; ap_abstract0_t* de = hasdest ? d0.a : nullptr;
      if (tree) { vector<ap_texpr0_t*> v; for (size_t i = 0; i < kk; i++) v.push_back(mk(g, lift(te[i], es[i], e))); x = kk ? A0(m, sub ? ap_abstract0_substitute_texpr_array(m, false, a0, dd.data(), v.data(), kk, de) : ap_abstract0_assign_texpr_array(m, false, a0, dd.data(), v.data(), kk, de)) : hasdest ? A0(m, ap_abstract0_meet(m, false, a0, d0)) : a0.copy(); for (auto* t : v) ap_texpr0_free(t); }
      else { vector<ap_linexpr0_t*> v; for (size_t i = 0; i < kk; i++) v.push_back(mk(g, lift(le[i], es[i], e))); x = kk ? A0(m, sub ? ap_abstract0_substitute_linexpr_array(m, false, a0, dd.data(), v.data(), kk, de) : ap_abstract0_assign_linexpr_array(m, false, a0, dd.data(), v.data(), kk, de)) : hasdest ? A0(m, ap_abstract0_meet(m, false, a0, d0)) : a0.copy(); for (auto* t : v) ap_linexpr0_free(t); }
      if (hasdest && st.empty()) st.clear(); judge(key, run(key, f), e, &x, st);
      for (size_t i = 0; i < kk; i++) require(tree ? dump(T[i].texpr0) == before[i] && rdenv(P, T[i].env) == es[i] : dump(L[i].linexpr0) == before[i] && rdenv(P, L[i].env) == es[i], key + "/arguments", "an expression of the caller changed"); }
    for (size_t i = 0; i < kk; i++) if (tree) { ap_texpr0_free(T[i].texpr0); ap_environment_free(T[i].env); } else ap_linexpr1_clear(&L[i]); free(L); free(T); if (hasdest) ap_abstract1_clear(m, &dst); break; }
  case 10: { string key = base + "forget_array"; vector<int> tv; for (int v : al) if (g.chance(45)) tv.push_back(v); for (size_t i = tv.size(); i > 1; i--) std::swap(tv[i - 1], tv[g.below(i)]); bool pj = g.chance(40) && d.lib.compare(0, 8, "polkaMPQ") && d.name.rfind("pkgrid", 0) != 0;
    if (err) { tv.insert(tv.begin() + g.below(tv.size() + 1), outside()); VA va(P, tv); refused(key + "-var", "forgetting the unknown variable among " + str(P, tv), [&](bool z, ap_abstract1_t* v) { return ap_abstract1_forget_array(m, z, v, va.d(), tv.size(), pj); }); break; }
    vector<ap_dim_t> td; for (int v : tv) td.push_back(at(al, v)); desc("forget " + str(P, tv)); td.reserve(1); A0 x(m, ap_abstract0_forget_array(m, false, a0, td.data(), td.size(), pj)); vector<Pt> st; for (auto p : ps) { for (auto dd : td) p[dd] = pj ? Q(0) : dd < s.I ? gint(g, pr) : gnum(g, pr); st.push_back(p); }
    VA va(P, tv); judge(key, run(key, [&](bool z, ap_abstract1_t* v) { return ap_abstract1_forget_array(m, z, v, va.d(), tv.size(), pj); }), e, &x, st); require(va.same(P, tv), key + "/arguments", "the variables of the caller changed"); break; }
  case 11: case 12: { string key = base + "change_environment"; bool pj = g.chance(50); ME e2 = err ? badsub() : related(); bool compat = wellformed(lce(e, e2)); ap_environment_t* n = envof(e2); desc("to " + str(P, e2) + (pj ? " projected" : "")); auto f = [&](bool z, ap_abstract1_t* v) { return ap_abstract1_change_environment(m, z, v, n, pj); };
    if (!compat) { refused(key + "-types", "an environment with other types", f); break; }
    ME l = lce(e, e2); A0 x = restrictto(m, embed(m, a0.copy(), e, l, pj), l, e2); vector<Pt> st; for (auto& p : ps) { St z = named(p, e); for (int v : e2.all()) if (!z.count(v)) z[v] = pj ? Q(0) : e2.isint(v) ? gint(g, pr) : gnum(g, pr); st.push_back(proj(z, e2)); } judge(key, run(key, f), e2, &x, st); break; }
  case 13: { string key = base + "minimize_environment"; vector<int> rem; for (size_t i = 0; i < N; i++) { A0 k = a0.copy(); if (ap_abstract0_is_dimension_unconstrained(m, k, i)) rem.push_back(al[i]); } ME er = without(e, rem); A0 x = restrictto(m, a0.copy(), e, er); vector<Pt> st; for (auto& p : ps) st.push_back(proj(named(p, e), er));
    if (!sem) { ap_abstract1_t r = run(key, [&](bool z, ap_abstract1_t* v) { return ap_abstract1_minimize_environment(m, z, v); }); ME re = rdenv(P, r.env); judged(); if (!sub(re, e)) violation(key + "/environment", "not a part of the environment: " + str(P, re)); else { vector<Pt> s2; for (auto& p : ps) s2.push_back(proj(named(p, e), re)); judge(key, r, re, nullptr, s2); break; } ap_abstract1_clear(m, &r); break; }
    judge(key, run(key, [&](bool z, ap_abstract1_t* v) { return ap_abstract1_minimize_environment(m, z, v); }), er, &x, st); break; }
  case 14: case 15: { string key = base + "rename_array"; vector<int> v1, v2; for (int v : al) if (g.chance(50)) v1.push_back(v); for (size_t i = v1.size(); i > 1; i--) std::swap(v1[i - 1], v1[g.below(i)]);
    if (g.chance(40)) { v2 = v1; for (size_t i = v2.size(); i > 1; i--) std::swap(v2[i - 1], v2[g.below(i)]); } else { ME rest = without(e, v1); v2 = fresh_names(v1.size(), rest); }
    if (err) { if (g.chance(50) || v1.empty()) { v1.push_back(outside()); v2.push_back(outside()); } else v2[g.below(v2.size())] = v1.size() < N ? minus(al, v1)[0] : v2.size() > 1 ? v2[0] == v2[1] ? v2[0] : v2[1] : outside(); }
    ME er = e; bool valid = true; { ME e2; vector<int> c = v1; std::sort(c.begin(), c.end()); if (std::adjacent_find(c.begin(), c.end()) != c.end()) valid = false; for (int v : v1) if (!e.has(v)) valid = false; auto ren = [&](int v) { int k = at(v1, v); return k < 0 ? v : v2[k]; }; for (int v : e.I) e2.I.push_back(ren(v)); for (int v : e.R) e2.R.push_back(ren(v)); if (!wellformed(e2)) valid = false; er = e2; }
    desc("rename " + str(P, v1) + " to " + str(P, v2)); VA a1(P, v1), a2(P, v2); auto f = [&](bool z, ap_abstract1_t* v) { return ap_abstract1_rename_array(m, z, v, a1.d(), a2.d(), v1.size()); }; if (!valid) { refused(key + "-spec", "an invalid renaming", f); break; }
    vector<int> raw = er.all(); ME so = sorted(er); A0 x = N ? permuteto(m, a0.copy(), raw, so.all()) : a0.copy(); vector<Pt> st; for (auto& p : ps) st.push_back(proj(named(p, er), so)); judge(key, run(key, f), so, &x, st); require(a1.same(P, v1) && a2.same(P, v2), key + "/arguments", "the variables of the caller changed"); break; }
  case 16: { string key = base + "expand"; if (!N) break; int v = al[g.below(N)]; vector<int> nv = fresh_names(g.below(3), e); int bad = err ? g.below(3) : -1; if (bad == 0) v = outside(); if (bad == 1) nv.push_back(al[g.below(N)]); if (bad == 2) { int w = outside(); nv.push_back(w); nv.push_back(w); } if (bad == 0 && nv.empty()) bad = -2; if (bad == -2) break;
    desc("expand " + P.names[v] + " into " + str(P, nv)); VA va(P, nv); ap_var_t vv = P.v[v]; auto f = [&](bool z, ap_abstract1_t* x) { return ap_abstract1_expand(m, z, x, vv, va.d(), nv.size()); }; if (bad >= 0) { refused(key + (bad == 0 ? "-unknown" : "-names"), bad == 0 ? "an unknown variable" : "names in use", f); break; }
    bool in = e.isint(v); ME er = e; (in ? er.I : er.R).insert((in ? er.I : er.R).end(), nv.begin(), nv.end()); ME so = sorted(er); A0 x = permuteto(m, A0(m, ap_abstract0_expand(m, false, a0, at(al, v), nv.size())), er.all(), so.all()); vector<Pt> st; for (auto& p : ps) { St z = named(p, e); for (int w : nv) z[w] = z[v]; st.push_back(proj(z, so)); } judge(key, run(key, f), so, &x, st); break; }
  case 17: case 18: { string key = base + "fold"; if (!N) break; vector<int> tv; const vector<int>& from = e.I.size() && (e.R.empty() || g.chance(50)) ? e.I : e.R; for (int v : from) if (g.chance(65)) tv.push_back(v); if (tv.empty()) tv.push_back(from[0]); for (size_t i = tv.size(); i > 1; i--) std::swap(tv[i - 1], tv[g.below(i)]);
    int bad = err ? g.below(3) : -1; if (bad == 0) { tv.insert(tv.begin() + g.below(tv.size() + 1), outside()); } if (bad == 1) { tv.push_back(tv[g.below(tv.size())]); } desc("fold " + str(P, tv)); if (bad == 2) tv.clear(); VA va(P, tv); auto f = [&](bool z, ap_abstract1_t* x) { return ap_abstract1_fold(m, z, x, va.d(), tv.size()); };
    if (bad >= 0) { refused(key + (bad == 0 ? "-unknown" : bad == 1 ? "-twice" : "-none"), bad == 0 ? "an unknown variable" : bad == 1 ? "a variable twice" : "no variable", f); break; }
    vector<int> others(tv.begin() + 1, tv.end()); ME er = without(e, others); A0 x = a0.copy(); if (tv.size() > 1) { vector<int> names = al; int mn = -1; for (size_t i = 0; i < names.size() && mn < 0; i++) if (at(tv, names[i]) >= 0) mn = i; std::swap(names[mn], names[at(names, tv[0])]); x = permuteto(m, std::move(x), al, names); vector<ap_dim_t> td; for (size_t i = 0; i < names.size(); i++) if (at(tv, names[i]) >= 0) td.push_back(i); x = A0(m, ap_abstract0_fold(m, false, x, td.data(), td.size())); x = permuteto(m, std::move(x), minus(names, others), er.all()); }
    vector<Pt> st; for (auto& p : ps) for (int v : tv) { St z = named(p, e); z[tv[0]] = z[v]; st.push_back(proj(z, er)); } judge(key, run(key, f), er, &x, st); require(va.same(P, tv), key + "/arguments", "the variables of the caller changed"); break; }
  case 19: { bool th = g.chance(60); string key = base + (th ? "widening_threshold" : "widening"); destr = false; vector<Pt> p2 = gpts(g, s, 1); A0 b0 = build(g, m, s, p2); A0 j(m, ap_abstract0_join(m, false, a0, b0)); ap_abstract1_t b = wrap(j.copy(), envof(e)); vector<Pt> st = ps; st.insert(st.end(), p2.begin(), p2.end()); 
    if (!th) { if (err) { ME e2 = badsub(); Shape t = shp(e2, pr); ap_abstract1_t c = wrap(build(g, m, t, gpts(g, t, 1)), envof(e2)); refused(key + "-env", "a value over " + str(P, e2), [&](bool, ap_abstract1_t* v) { return ap_abstract1_widening(m, v, &c); }); ap_abstract1_clear(m, &c); } else { A0 k = a0.copy(), jj = j.copy(); A0 x(m, ap_abstract0_widening(m, k, jj)); judge(key, run(key, [&](bool, ap_abstract1_t* v) { return ap_abstract1_widening(m, v, &b); }), e, &x, st); } }
    else { ME es = err ? badsub() : g.chance(30) ? e : subset(g, e, 60); vector<LC> up; ap_lincons1_array_t l; if (err) l = ap_lincons1_array_make(envof(es), 0); else { vector<LC> cs; for (int i = g.range(0, 3); i > 0; i--) { LC c = gcons(g, shp(es, pr), {gpt(g, shp(es, pr))}, d, false); if (c.op == AP_CONS_EQMOD) c.op = AP_CONS_EQ; cs.push_back(c); up.push_back(lift(c, es, e)); desc("threshold " + str(up.back())); } l.lincons0_array = mk(g, cs); l.env = ap_environment_copy(envof(es)); }
      auto f = [&](bool, ap_abstract1_t* v) { return ap_abstract1_widening_threshold(m, v, &b, &l); }; if (err) refused(key + "-env", "thresholds over " + str(P, es), f); else { ap_lincons0_array_t l0 = lc0(up); A0 k = a0.copy(), jj = j.copy(); A0 x(m, ap_abstract0_widening_threshold(m, k, jj, &l0)); ap_lincons0_array_clear(&l0); judge(key, run(key, f), e, &x, st); } ap_lincons1_array_clear(&l); }
    ap_abstract1_clear(m, &b); break; }
  case 20: { string key = base + "unify"; ME e2 = err ? badsub() : related(); ME l = lce(e, e2); bool compat = wellformed(l); ap_environment_t* n = envof(e2); Shape t = shp(e2, pr); vector<St> full; vector<Pt> p2; if (compat) for (auto& p : ps) { St z = named(p, e); for (int v : e2.all()) if (!z.count(v)) z[v] = e2.isint(v) ? gint(g, pr) : gnum(g, pr); full.push_back(z); p2.push_back(proj(z, e2)); } if (p2.empty()) p2 = gpts(g, t, 1);
    A0 b0 = build(g, m, t, p2); ap_abstract1_t b = wrap(b0.copy(), n); desc("with " + describe(m, b0) + " over " + str(P, e2)); auto f = [&](bool z, ap_abstract1_t* v) { return ap_abstract1_unify(m, z, v, &b); };
    if (!compat) refused(key + "-types", "a value over incompatible variables", f); else { vector<Pt> st; for (auto& z : full) st.push_back(proj(z, l)); A0 xa = embed(m, a0.copy(), e, l, false), xb = embed(m, b0.copy(), e2, l, false); A0 x(m, ap_abstract0_meet(m, false, xa, xb)); judge(key, run(key, f), l, &x, st);
      ME be = rdenv(P, b.env); require(be == e2, key + "/purity", "the second argument is now over " + str(P, be)); for (auto& p : p2) if (!check_in(g, m, b.abstract0, p, t.I, key + "/purity", "the second argument", pr, 1)) break; } ap_abstract1_clear(m, &b); break; }
  case 21: { string key = base + "add_ray_array"; ME es = err ? badsub() : g.chance(30) ? e : subset(g, e, 60); size_t k = err ? 0 : g.range(0, 2); vector<LE> rays; vector<int> ty; ap_generator1_array_t l = ap_generator1_array_make(envof(es), k); ap_generator0_array_t l0 = ap_generator0_array_make(k); for (size_t i = 0; i < k; i++) { LE r(es.size()); for (auto& x : r.c) x = pt_itv(Q(g.range(-2, 2))); int t = g.chance(60) ? AP_GEN_RAY : AP_GEN_LINE; LE u = lift(r, es, e); rays.push_back(u); ty.push_back(t); desc((t == AP_GEN_RAY ? "ray " : "line ") + str(u)); l.generator0_array.p[i] = ap_generator0_make((ap_gentyp_t)t, mk(g, r, SK_MPQ)); l0.p[i] = ap_generator0_make((ap_gentyp_t)t, mk(g, u, SK_MPQ)); }
    auto f = [&](bool z, ap_abstract1_t* v) { return ap_abstract1_add_ray_array(m, z, v, &l); }; if (err) refused(key + "-env", "rays over " + str(P, es), f); else { A0 x(m, ap_abstract0_add_ray_array(m, false, a0, &l0)); vector<Pt> st; for (auto& p : ps) { Pt q = p; for (size_t i = 0; i < k; i++) { Q t = Q(g.range(ty[i] == AP_GEN_RAY ? 0 : -3, 3)); for (size_t j = 0; j < N; j++) q[j] += t * rays[i].c[j].lo.q; } st.push_back(q); } judge(key, run(key, f), e, &x, st); } ap_generator1_array_clear(&l); ap_generator0_array_clear(&l0); break; }
  case 22: { // constructors
    destr = false; int k = g.below(6);
    if (k == 0) { string key = base + "of_box"; vector<int> tv; for (int v : al) if (g.chance(60)) tv.push_back(v); for (size_t i = tv.size(); i > 1; i--) std::swap(tv[i - 1], tv[g.below(i)]); if (err) tv.insert(tv.begin() + g.below(tv.size() + 1), outside()); vector<Itv> full(N); vector<Itv> part; Pt c = gpt(g, s); for (int v : tv) { Itv i; int at_ = at(al, v); Q mid = at_ < 0 ? Q(0) : c[at_]; i.lo = g.chance(20) ? ninf() : X(Q(mid - abs(gint(g, pr)))); i.hi = g.chance(20) ? pinf() : X(Q(mid + abs(gint(g, pr)))); part.push_back(i); if (at_ >= 0) full[at_] = i; desc(P.names[v] + " in " + str(i)); }
      ap_interval_t** t = mk_box(g, part); VA va(P, tv); auto f = [&](bool, ap_abstract1_t*) { return ap_abstract1_of_box(m, ea, va.d(), t, tv.size()); }; if (err) { ps.clear(); refused(key + "-var", "the unknown variable among " + str(P, tv), f); } else { ap_interval_t** t0 = mk_box(g, full); A0 x(m, ap_abstract0_of_box(m, s.I, N - s.I, t0)); ap_interval_array_free(t0, N); judge(key, run(key, f), e, &x, {c}); } ap_interval_array_free(t, tv.size()); }
    else if (k == 1) { string key = base + "of_lincons_array"; ME es = g.chance(30) ? e : subset(g, e, 60); vector<LC> up; ap_lincons1_array_t l = lincons(es, up, 3); ap_lincons0_array_t l0 = lc0(up); A0 x(m, ap_abstract0_of_lincons_array(m, s.I, N - s.I, &l0)); ap_lincons0_array_clear(&l0); judge(key, run(key, [&](bool, ap_abstract1_t*) { return ap_abstract1_of_lincons_array(m, ea, &l); }), e, &x, ps); ap_lincons1_array_clear(&l); }
    else if (k == 2) { string key = base + "of_tcons_array"; ME es = g.chance(30) ? e : subset(g, e, 60); vector<std::pair<TP, ap_constyp_t>> up; ap_tcons1_array_t l = tcons(es, up, 2); judge(key, run(key, [&](bool, ap_abstract1_t*) { return ap_abstract1_of_tcons_array(m, ea, &l); }), e, nullptr, sat(up, ps)); ap_tcons1_array_clear(&l); }
    else if (k == 3) { string key = base + "top"; A0 x(m, ap_abstract0_top(m, s.I, N - s.I)); judge(key, run(key, [&](bool, ap_abstract1_t*) { return ap_abstract1_top(m, ea); }), e, &x, {gpt(g, s)}); }
    else if (k == 4) { string key = base + "bottom"; A0 x(m, ap_abstract0_bottom(m, s.I, N - s.I)); judge(key, run(key, [&](bool, ap_abstract1_t*) { return ap_abstract1_bottom(m, ea); }), e, &x, {}); }
    else { string key = base + "copy"; judge(key, run(key, [&](bool, ap_abstract1_t* v) { return ap_abstract1_copy(m, v); }), e, &a0, ps); }
    break; }
  case 23: { string key = base + "closure"; A0 x(m, ap_abstract0_closure(m, false, a0)); judge(key, run(key, [&](bool z, ap_abstract1_t* v) { return ap_abstract1_closure(m, z, v); }), e, d.convex ? &x : nullptr, ps); break; }
  default: { // queries: the same answers as on dimensions
    int k = g.below(14); string key, r, x; bool cmpok = sem; ME es = err ? badsub() : g.chance(30) ? e : subset(g, e, 60); A0 c = a0.copy(); bool refuse = false; size_t inv = 0; int v = err || !N ? outside() : al[g.below(N)]; auto B = [](bool b) { return string(b ? "true" : "false"); }; auto I = [](ap_interval_t* i) { string t = str(xitv(i)); ap_interval_free(i); return t; };
    clear(); string fallback; auto done = [&] { inv = invalids(m); };
    switch (k) {
    case 0: { key = base + "sat_lincons"; refuse = err; fallback = "false"; LC q = err ? LC() : gcons(g, shp(es, pr), vector<Pt>{gpt(g, shp(es, pr))}, d); if (err) q.e = LE(es.size()); ap_lincons1_t l; l.lincons0 = mk(g, q); l.env = ap_environment_copy(envof(es)); desc(str(q) + " over " + str(P, es)); label(key); r = B(ap_abstract1_sat_lincons(m, &a, &l)); done(); ap_lincons1_clear(&l); if (!err) { ap_lincons0_t l0 = mk(g, lift(q, es, e)); x = B(ap_abstract0_sat_lincons(m, c, &l0)); ap_lincons0_clear(&l0); } break; }
    case 1: { key = base + "sat_tcons"; refuse = err; fallback = "false"; TOpt o; TP t = gtx(g, es.size(), pr, o, 2); ap_tcons1_t l; l.tcons0 = ap_tcons0_make(AP_CONS_SUPEQ, mk(g, t), nullptr); l.env = ap_environment_copy(envof(es)); desc(str(t) + ">=0 over " + str(P, es)); label(key); r = B(ap_abstract1_sat_tcons(m, &a, &l)); done(); ap_tcons1_clear(&l); if (!err) { ap_tcons0_t l0 = ap_tcons0_make(AP_CONS_SUPEQ, mk(g, lift(t, es, e)), nullptr); x = B(ap_abstract0_sat_tcons(m, c, &l0)); ap_tcons0_clear(&l0); } break; }
    case 2: { key = base + "sat_interval"; refuse = !e.has(v); fallback = "false"; Itv w = mk_itv(X(Q(g.range(-6, 0))), X(Q(g.range(0, 6)))); ap_interval_t* i = ap_interval_alloc(); set_scalar(g, i->inf, w.lo); set_scalar(g, i->sup, w.hi); desc(P.names[v] + " in " + str(w)); label(key); r = B(ap_abstract1_sat_interval(m, &a, P.v[v], i)); done(); if (!refuse) x = B(ap_abstract0_sat_interval(m, c, at(al, v), i)); ap_interval_free(i); break; }
    case 3: { key = base + "is_variable_unconstrained"; refuse = !e.has(v); fallback = "false"; desc(P.names[v]); label(key); r = B(ap_abstract1_is_variable_unconstrained(m, &a, P.v[v])); done(); if (!refuse) x = B(ap_abstract0_is_dimension_unconstrained(m, c, at(al, v))); break; }
    case 4: { key = base + "bound_variable"; refuse = !e.has(v); fallback = "[-oo,+oo]"; desc(P.names[v]); label(key); ap_interval_t* i = ap_abstract1_bound_variable(m, &a, P.v[v]); if (!refuse) for (auto& p : ps) { judged(); if (!xitv(i).has(p[at(al, v)])) violation(key + "/state", "the value " + str(p[at(al, v)]) + " of " + P.names[v] + " is not in " + str(xitv(i))); } r = I(i); done(); if (!refuse) x = I(ap_abstract0_bound_dimension(m, c, at(al, v))); break; }
    case 5: { key = base + "bound_linexpr"; refuse = err; fallback = "[-oo,+oo]"; LE q = gle(g, es.size(), pr, 60, g.chance(20)); ap_linexpr1_t l = l1(q, es); desc(str(q) + " over " + str(P, es)); label(key); ap_interval_t* i = ap_abstract1_bound_linexpr(m, &a, &l); if (!err && q.scalar()) for (auto& p : ps) { judged(); Q w = evalq(lift(q, es, e), p); if (!xitv(i).has(w)) violation(key + "/state", "the value " + str(w) + " is not in " + str(xitv(i))); } r = I(i); done(); ap_linexpr1_clear(&l); if (!err) { ap_linexpr0_t* l0 = mk(g, lift(q, es, e)); x = I(ap_abstract0_bound_linexpr(m, c, l0)); ap_linexpr0_free(l0); } break; }
    case 6: { key = base + "bound_texpr"; refuse = err; fallback = "[-oo,+oo]"; TOpt o; o.rounding = g.chance(30); TP q = gtx(g, es.size(), pr, o, g.range(1, 3)); ap_texpr1_t* l = t1(q, es); desc(str(q) + " over " + str(P, es)); label(key); ap_interval_t* i = ap_abstract1_bound_texpr(m, &a, l); if (!err) for (auto& p : ps) { auto w = eval(g, lift(q, es, e), p); if (!w) continue; judged(); if (!xitv(i).has(*w)) violation(key + "/state", "the value " + str(*w) + " is not in " + str(xitv(i))); } r = I(i); done(); ap_texpr1_free(l); if (!err) { ap_texpr0_t* l0 = mk(g, lift(q, es, e)); x = I(ap_abstract0_bound_texpr(m, c, l0)); ap_texpr0_free(l0); } break; }
    case 7: case 8: { bool eq = k == 7; key = base + (eq ? "is_eq" : "is_leq"); ME e2 = err ? fresh(0, 3) : e; refuse = !(e2 == e); fallback = "false"; Shape t = shp(e2, pr); A0 b0 = g.chance(40) && !refuse ? a0.copy() : build(g, m, t, gpts(g, t, 1)); ap_abstract1_t b = wrap(b0.copy(), envof(e2)); desc("b=" + describe(m, b0)); label(key); r = B(eq ? ap_abstract1_is_eq(m, &a, &b) : ap_abstract1_is_leq(m, &a, &b)); done(); if (!refuse) x = B(eq ? ap_abstract0_is_eq(m, c, b0) : ap_abstract0_is_leq(m, c, b0)); ap_abstract1_clear(m, &b); break; }
    case 9: { key = base + "is_bottom"; label(key); r = B(ap_abstract1_is_bottom(m, &a)) + B(ap_abstract1_is_top(m, &a)); done(); x = B(ap_abstract0_is_bottom(m, c)); x += B(ap_abstract0_is_top(m, c)); break; }
    case 10: { key = base + "to_box"; label(key); ap_box1_t b = ap_abstract1_to_box(m, &a); done(); if (!(rdenv(P, b.env) == e)) violation(key + "/environment", "over " + str(P, rdenv(P, b.env))); for (size_t i = 0; i < N; i++) { Itv w = xitv(b.p[i]); r += str(w); for (auto& p : ps) { judged(); if (!w.has(p[i])) violation(key + "/state", "state " + str(p) + " is not in the box"); } } ap_box1_clear(&b); for (auto& w : get_box(m, c, N)) x += str(w); break; }
    case 11: { key = base + "to_lincons_array"; label(key); ap_lincons1_array_t b = ap_abstract1_to_lincons_array(m, &a); done(); if (!(rdenv(P, b.env) == e)) violation(key + "/environment", "over " + str(P, rdenv(P, b.env))); r = str(&b.lincons0_array, N); ap_lincons1_array_clear(&b); ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, c); x = str(&l, N); ap_lincons0_array_clear(&l); cmpok = false; if (!ps.empty()) { A0 z(m, ap_abstract0_copy(m, a.abstract0)); (void)z; } break; }
    case 12: { bool gen = g.chance(50); key = base + (gen ? "to_generator_array" : "to_tcons_array"); label(key); cmpok = false; if (gen) { ap_generator1_array_t b = ap_abstract1_to_generator_array(m, &a); done(); if (!(rdenv(P, b.env) == e)) violation(key + "/environment", "over " + str(P, rdenv(P, b.env))); ap_generator1_array_clear(&b); } else { ap_tcons1_array_t b = ap_abstract1_to_tcons_array(m, &a); done(); if (!(rdenv(P, b.env) == e)) violation(key + "/environment", "over " + str(P, rdenv(P, b.env))); ap_tcons1_array_clear(&b); } inv = 0; break; }
    default: { // linearisation on the value
      bool tree = g.chance(50), quasi = g.chance(60); key = base + (tree ? "intlinear_of_tree" : "quasilinear_of_intlinear"); refuse = err; cmpok = false; fallback = r = ""; if (ap_abstract0_is_bottom(m, c)) { key.clear(); break; } label(key); ap_linexpr1_t o; TP q; LE le; ap_scalar_discr_t dis = g.pick(vector<ap_scalar_discr_t>{AP_SCALAR_DOUBLE, AP_SCALAR_MPQ});
      if (tree) { TOpt to; to.rounding = g.chance(30); q = gtx(g, es.size(), pr, to, 2); desc(str(q) + " over " + str(P, es)); ap_texpr1_t* l = t1(q, es); o = ap_abstract1_intlinear_of_tree(m, &a, l, dis, quasi); ap_texpr1_free(l); } else { le = gle(g, es.size(), pr, 60, true); desc(str(le) + " over " + str(P, es)); ap_linexpr1_t l = l1(le, es); o = ap_abstract1_quasilinear_of_intlinear(m, &a, &l, dis); ap_linexpr1_clear(&l); }
      done(); judged(); if (!(rdenv(P, o.env) == e)) violation(key + "/environment", "over " + str(P, rdenv(P, o.env))); else if (o.linexpr0) { LE z; if (!rd(o.linexpr0, N, z)) violation(key + "/malformed", "a dimension outside of the environment"); else if (refuse) { if (!z.k.top()) violation(key + "/fallback", "the fallback is " + str(z)); } else for (auto& p : ps) { std::optional<Q> w; if (tree) w = eval(g, lift(q, es, e), p); else { Itv i = eval(lift(le, es, e), p); if (!i.lo.inf) w = i.lo.q; else if (!i.hi.inf) w = i.hi.q; } if (!w) continue; Itv i = eval(z, p); judged(); if (!i.has(*w)) violation(key + "/state", "the expression has the value " + str(*w) + " at " + str(p) + " but its linear form " + str(z) + " gives " + str(i)); } } ap_linexpr1_clear(&o); break; }
    }
    if (key.empty()) break; stat("op:" + key.substr(base.size()) + (refuse ? " refused" : "")); nontrivial(R().inputs); judged();
    if (refuse) { if (!inv) violation(key + "/not-reported", "raised no invalid-argument exception"); if (!fallback.empty() && r != fallback) violation(key + "/fallback", "a refused query answers " + r); }
    else { if (inv) violation(key + "/exception", "a valid query raised an invalid-argument exception"); if (cmpok && r != x) violation(key + "/level0", "answers " + r + ", on dimensions " + x); if (cmpok) stat("compared"); }
    if (a.env != ea) violation(key + "/purity", "the environment of the argument changed"); else unchanged(g, m, a.abstract0, oa, snap, s, ps, key + "/purity", "the argument"); break; }
  }
  if (a.env == ea) { size_t c = ea->count; ap_abstract1_clear(m, &a); require(ea->count + 1 == c && c == 2, "environment/count", base + " the environment has " + std::to_string(c) + " references instead of 2"); }
  for (auto* x : envs) { require(x->count == 1, "environment/count", base + " an environment of the caller has " + std::to_string(x->count) + " references instead of 1"); ap_environment_free(x); }
}
static void m_level1(Rng& g, long) {
  Pool P(g); if (P.custom) desc("custom variables"); case1(g, P);
  if (P.custom && !R().violations) require(g_live == 0, "environment/variables", std::to_string(g_live) + " variables are still referenced after everything was freed"); }
static Mode M_l1("level1", m_level1);
int main(int c, char** v) { return harness_main(c, v); }
