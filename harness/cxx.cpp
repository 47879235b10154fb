// The C++ interface against the C interface: the same call through both, on copies of the same arguments.
#include "values.h"
#include "text.h"
#include "envmodel.h"
#include "apronxx.hh"
#include <sstream>
namespace ax = apron;

// ---------------------------------------------------------------- C objects seen from C++
struct Mgr : ax::manager { Mgr(ap_manager_t* x) : ax::manager(x) {} };
struct V0 : ax::abstract0 { V0(ap_abstract0_t* x) : ax::abstract0(x) {} };
struct TX0 : ax::texpr0 { TX0(ap_texpr0_t* x) : ax::texpr0(x) {} };
static ax::linexpr0 cxl(ap_linexpr0_t* e) { ax::linexpr0 l; ap_linexpr0_t* t = l.get_ap_linexpr0_t(); std::swap(*t, *e); ap_linexpr0_free(e); return l; }
static ax::lincons0 cxc(ap_lincons0_t c) { ax::lincons0 l; ap_lincons0_t* t = l.get_ap_lincons0_t(); ap_lincons0_clear(t); *t = c; return l; }
static ax::interval cxi(Rng& g, const Itv& v) { ax::interval i; set_scalar(g, i.get_ap_interval_t()->inf, v.lo); set_scalar(g, i.get_ap_interval_t()->sup, v.hi); return i; }
static string text(ap_manager_t* m, ap_abstract0_t* a) { // all that can be seen of a value
  if (!a || !a->value) return "no value"; A0 c(m, ap_abstract0_copy(m, a)); ap_dimension_t d = ap_abstract0_dimension(m, c); string s = std::to_string(d.intdim) + "+" + std::to_string(d.realdim);
  if (ap_abstract0_is_bottom(m, c)) return s + " empty"; ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, c); s += " " + dump(&l); ap_lincons0_array_clear(&l); return s; }
static string quiet(ap_manager_t* m, ap_abstract0_t* a) { ap_manager_clear_exclog(m); bool e = m->result.flag_exact, b = m->result.flag_best; string s = text(m, a); ap_manager_clear_exclog(m); m->result.flag_exact = e; m->result.flag_best = b; return s; }
static bool g_stale = false;
struct Out { int exn = 0; string msg, val, flags; };
static Out outcome(ap_manager_t* m) { Out o; if (m->result.exclog) { o.exn = m->result.exclog->exn; if (m->result.exclog->msg) o.msg = m->result.exclog->msg; } o.flags = string(m->result.flag_exact ? "exact " : "") + (m->result.flag_best ? "best" : ""); return o; }
template <class F> static Out callc(ap_manager_t* m, F f) { ap_manager_clear_exclog(m); m->result.flag_exact = m->result.flag_best = g_stale; string v = f(); Out o = outcome(m); o.val = v; ap_manager_clear_exclog(m); return o; }
static string g_left; // what a throwing call left in the log
template <class F> static Out callx(ap_manager_t* m, F f) {
  ap_manager_clear_exclog(m); m->result.flag_exact = m->result.flag_best = g_stale; Out o; string v; int k = 0; string w;
  try { v = f(); }
  catch (const ax::timeout& e) { k = AP_EXC_TIMEOUT; w = e.what(); } catch (const ax::not_implemented& e) { k = AP_EXC_NOT_IMPLEMENTED; w = e.what(); } catch (const std::invalid_argument& e) { k = AP_EXC_INVALID_ARGUMENT; w = e.what(); }
  catch (const std::length_error& e) { k = AP_EXC_OUT_OF_SPACE; w = e.what(); } catch (const std::overflow_error& e) { k = AP_EXC_OVERFLOW; w = e.what(); } catch (const std::exception& e) { k = 99; w = e.what(); }
  o = outcome(m); if (o.exn) g_left = "the exception log still holds " + o.msg; else g_left.clear(); o.exn = k; o.msg = w; o.val = v; ap_manager_clear_exclog(m); return o; }
// the C++ call does what the C call does
static bool agree(const string& key, const Out& c, const Out& x, bool flags = true) {
  judged(2); stat(c.exn ? "agree:exception" : "agree:result");
  if (c.exn != x.exn) { violation(key + "/exception", "the C function raises " + (c.exn ? std::to_string(c.exn) + " (" + c.msg + ")" : string("nothing")) + ", the C++ method " + (x.exn ? std::to_string(x.exn) + " (" + x.msg + ")" : string("nothing"))); return false; }
  if (x.exn && x.msg.find(c.msg) == string::npos) { violation(key + "/message", "the message '" + x.msg + "' does not contain '" + c.msg + "'"); return false; }
  if (g_left.size()) { violation(key + "/log", g_left); g_left.clear(); return false; }
  if (!c.exn && c.val != x.val) { violation(key + "/result", "C gives " + c.val + ", C++ " + x.val); return false; }
  if (!c.exn && flags && c.flags != x.flags) { violation(key + "/flags", "C flags '" + c.flags + "', C++ '" + x.flags + "'"); return false; }
  return true; }
static string B(bool b) { return b ? "true" : "false"; }
struct Tmp { FILE* f; Tmp() : f(tmpfile()) {} ~Tmp() { fclose(f); } };
static string cstr(std::function<void(std::ostream&)> f) { std::ostringstream o; f(o); return o.str(); }

// ---------------------------------------------------------------- abstract values, level 0
typedef std::function<ap_abstract0_t*(ap_abstract0_t* a, ap_abstract0_t* b, ap_abstract0_t* c)> CF;   // functional C call
typedef std::function<void(Mgr& M, V0& dst, V0& a, V0& b, V0& c)> XF;                              // C++ call; the result is in dst
// in: the result replaces a; dst: it goes to another object, which may be one of the arguments
static bool g_dz = false; // the C call is destructive as the C++ method is
static void both(Rng& g, const Man& m, Mgr& M, const string& key, const A0& a, const A0& b, const A0& c, CF cf, XF in, XF dst, std::function<string()> args) {
  A0 a1 = a.copy(), b1 = b.copy(), c1 = c.copy(), a2 = a.copy(), b2 = b.copy(), c2 = c.copy(); string sa = quiet(m, a), sb = quiet(m, b), sc = quiet(m, c), as = args();
  bool mem = in && (!dst || g.chance(50)); int al = mem ? 0 : g.below(5); string how = mem ? "member" : al == 0 ? "first" : al == 1 ? "second" : "other"; label(key + "/" + how); desc(how); ap_abstract0_t* r = nullptr;
  g_dz = mem; Out oc = callc(m, [&] { r = cf(mem ? a1.rel() : a1.a, b1, c1); return string(); }); oc.val = quiet(m, r); if (r) ap_abstract0_free(m, r);
  V0 va(a2.rel()), vb(b2.rel()), vc(c2.rel()), vd(ap_abstract0_copy(m, b)); string sd = quiet(m, b);
  V0& t = mem ? va : al == 0 ? va : al == 1 ? vb : vd; string st = quiet(m, t.get_ap_abstract0_t());
  Out ox = callx(m, [&] { (mem ? in : dst)(M, t, va, vb, vc); return string(); }); ox.val = quiet(m, t.get_ap_abstract0_t());
  if (!agree(key + "/" + how, oc, ox)) return;
  if (semantic(m, Shape()) || !m.algo) { judged(3);
    if (ox.exn && !mem && ox.val != st) violation(key + "/" + how + "/destination", "a refused call changed its destination");
    if (&t != &va && differ(m, va.get_ap_abstract0_t(), a.copy()).size() && m.d->exactnum) violation(key + "/" + how + "/argument", "the first argument changed from " + sa + " to " + quiet(m, va.get_ap_abstract0_t()));
    if (&t != &vb && differ(m, vb.get_ap_abstract0_t(), b.copy()).size() && m.d->exactnum) violation(key + "/" + how + "/argument", "the second argument changed from " + sb + " to " + quiet(m, vb.get_ap_abstract0_t()));
    if (differ(m, vc.get_ap_abstract0_t(), c.copy()).size() && m.d->exactnum) violation(key + "/" + how + "/argument", "the third argument changed from " + sc + " to " + quiet(m, vc.get_ap_abstract0_t())); }
  if (args() != as) violation(key + "/" + how + "/argument", "an argument of the caller changed from " + as + " to " + args());
  stat("op:" + key.substr(key.find('/') + 1)); if (!oc.exn) nontrivial(R().inputs + how); }
static A0 value(Rng& g, const Man& m, const Shape& s) { if (g.chance(6)) return A0(m, ap_abstract0_bottom(m, s.I, s.N - s.I)); return build(g, m, s, gpts(g, s, g.range(1, 3))); }
static ax::lincons0_array lcs(Rng& g, const Shape& s, const Dom& d, const vector<Pt>& ps, int k) { vector<LC> v; for (int i = g.range(0, k); i > 0; i--) { v.push_back(gcons(g, s, ps, d)); desc(str(v.back())); } ax::lincons0_array a(0); ap_lincons0_array_clear(a.get_ap_lincons0_array_t()); *a.get_ap_lincons0_array_t() = mk(g, v); return a; }
static ax::tcons0_array tcs(Rng& g, const Shape& s, int k) { ax::tcons0_array a(0); ap_tcons0_array_clear(a.get_ap_tcons0_array_t()); int n = g.range(0, k); ap_tcons0_array_t t = ap_tcons0_array_make(n); for (int i = 0; i < n; i++) { TOpt o; o.rounding = g.chance(30); TP e = gtx(g, s.N, s.pr, o, 2); ap_constyp_t ct = g.pick(vector<ap_constyp_t>{AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ, AP_CONS_DISEQ}); desc(str(e) + opname(ct)); t.p[i] = ap_tcons0_make(ct, mk(g, e), nullptr); } *a.get_ap_tcons0_array_t() = t; return a; }
static ap_dimchange_t* gchange(Rng& g, const Shape& s, bool add) { vector<size_t> pos; size_t ki = 0, kr = 0; if (add) { ki = g.below(3); kr = g.below(3); for (size_t i = 0; i < ki; i++) pos.push_back(g.below(s.I + 1)); for (size_t i = 0; i < kr; i++) pos.push_back(s.I + g.below(s.N - s.I + 1)); std::sort(pos.begin(), pos.begin() + ki); std::sort(pos.begin() + ki, pos.end()); }
  else for (size_t i = 0; i < s.N; i++) if (g.chance(35)) { pos.push_back(i); (i < s.I ? ki : kr)++; } ap_dimchange_t* c = ap_dimchange_alloc(ki, kr); for (size_t i = 0; i < pos.size(); i++) c->dim[i] = pos[i]; desc(dump(c)); return c; }
static ax::dimchange cxd(ap_dimchange_t* c) { ax::dimchange d(c->intdim, c->realdim, c->dim); ap_dimchange_free(c); return d; }
static vector<size_t> gperm(Rng& g, const Shape& s) { vector<size_t> v(s.N); for (size_t i = 0; i < s.N; i++) v[i] = i; for (size_t i = s.I; i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); for (size_t i = s.N; i > s.I + 1; i--) std::swap(v[i - 1], v[s.I + g.below(i - s.I)]); return v; }

static void m_cxx0(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Mgr M(ap_manager_copy(m)); Shape s; s.pr = gprof(g); s.N = g.range(0, 4); s.I = g.chance(50) ? 0 : g.below(s.N + 1); size_t n = s.N, I = s.I; ap_manager_t* mm = m;
  A0 a = value(g, m, s), b = value(g, m, s), c = value(g, m, s); if (g.chance(20)) b = A0(m, ap_abstract0_join(m, true, b.rel(), a));
  if (g.chance(6)) { Shape t = s; t.N++; b = value(g, m, t); stat("bad-argument"); } bool bad = g.chance(6); vector<Pt> ps = gpts(g, s, 2); string base = d.name + "/";
  desc(base + " a=" + describe(m, a) + " b=" + describe(m, b)); auto none = [] { return string(); };
  g_stale = g.chance(50); int k = g.below(30); if (!n && (k >= 5 && k <= 9 || k == 13 || k == 14)) k = 0;
  switch (k) {
  case 0: case 1: { bool J = k; string key = base + (J ? "join" : "meet"); int f = g.below(3); XF in = [&](Mgr& M, V0& t, V0&, V0& b, V0&) { if (f) { if (J) t.join(M, b); else t.meet(M, b); } else { if (J) t += b; else t *= b; } };
    both(g, m, M, key, a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t* b, ap_abstract0_t*) { return J ? ap_abstract0_join(mm, g_dz, a, b) : ap_abstract0_meet(mm, g_dz, a, b); }, in, [&](Mgr& M, V0& t, V0& a, V0& b, V0&) { if (J) join(M, t, a, b); else meet(M, t, a, b); }, none); break; }
  case 2: case 3: { bool J = k == 3, vec = g.chance(50); string key = base + (J ? "join" : "meet") + (vec ? "-vector" : "-array"); int q = g.range(1, 4), rot = g.below(3);
    both(g, m, M, key, a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t* b, ap_abstract0_t* c) { ap_abstract0_t *l[3] = {a, b, c}, *t[4]; for (int i = 0; i < q; i++) t[i] = l[(i + rot) % 3]; return J ? ap_abstract0_join_array(mm, t, q) : ap_abstract0_meet_array(mm, t, q); }, nullptr,
      [&](Mgr& M, V0& t, V0& a, V0& b, V0& c) { const ax::abstract0 *l[3] = {&a, &b, &c}, *x[4]; for (int i = 0; i < q; i++) x[i] = l[(i + rot) % 3]; vector<const ax::abstract0*> v(x, x + q); if (vec) { if (J) join(M, t, v); else meet(M, t, v); } else { if (J) join(M, t, (size_t)q, x); else meet(M, t, (size_t)q, x); } }, none); break; }
  case 4: { bool tree = g.chance(40); Shape t = s; if (bad) t.N++; ax::lincons0_array L = tree ? ax::lincons0_array(0) : lcs(g, t, d, gpts(g, t, 1), 4); ax::tcons0_array T = tree ? tcs(g, t, 3) : ax::tcons0_array(0); bool op = g.chance(40);
    both(g, m, M, base + (tree ? "meet-tcons" : "meet-lincons"), a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t*, ap_abstract0_t*) { return tree ? ap_abstract0_meet_tcons_array(mm, g_dz, a, T.get_ap_tcons0_array_t()) : ap_abstract0_meet_lincons_array(mm, g_dz, a, L.get_ap_lincons0_array_t()); },
      [&](Mgr& M, V0& t, V0&, V0&, V0&) { if (tree) { if (op) t *= T; else t.meet(M, T); } else { if (op) t *= L; else t.meet(M, L); } }, [&](Mgr& M, V0& t, V0& a, V0&, V0&) { if (tree) meet(M, t, a, T); else meet(M, t, a, L); }, [&] { return dump(L.get_ap_lincons0_array_t()) + dump(T.get_ap_tcons0_array_t()); }); break; }
  case 5: { ax::generator0_array G(0); ap_generator0_array_clear(G.get_ap_generator0_array_t()); int q = g.range(0, 3); ap_generator0_array_t t = ap_generator0_array_make(q); for (int i = 0; i < q; i++) { LE e(n); for (auto& x : e.c) x = pt_itv(Q(g.range(-2, 2))); int ty = g.chance(60) ? AP_GEN_RAY : g.chance(80) ? AP_GEN_LINE : AP_GEN_VERTEX; desc(str(e)); t.p[i] = ap_generator0_make((ap_gentyp_t)ty, mk(g, e, SK_MPQ)); } *G.get_ap_generator0_array_t() = t; bool op = g.chance(40);
    both(g, m, M, base + "add_rays", a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t*, ap_abstract0_t*) { return ap_abstract0_add_ray_array(mm, g_dz, a, G.get_ap_generator0_array_t()); }, [&](Mgr& M, V0& t, V0&, V0&, V0&) { if (op) t += G; else t.add_rays(M, G); }, [&](Mgr& M, V0& t, V0& a, V0&, V0&) { add_rays(M, t, a, G); }, [&] { return dump(G.get_ap_generator0_array_t()); }); break; }
  case 6: case 7: case 8: case 9: { bool sub = k & 1, tree = k >= 8; int form = g.below(3); size_t q = form == 0 ? 1 : g.range(1, n); vector<ap_dim_t> td; for (size_t x : gdims(g, n, q)) td.push_back(x); if (bad) td[g.below(q)] = n + g.below(2); vector<ax::linexpr0> L; vector<std::unique_ptr<TX0>> T; vector<const ax::linexpr0*> pl; vector<const ax::texpr0*> pt; vector<ap_linexpr0_t*> cl; vector<ap_texpr0_t*> ct; L.reserve(q);
    for (size_t i = 0; i < q; i++) { desc("x" + std::to_string(td[i])); if (tree) { TOpt o; o.rounding = g.chance(30); TP e = gtx(g, n, s.pr, o, 2); desc(str(e)); T.emplace_back(new TX0(mk(g, e))); pt.push_back(T.back().get()); ct.push_back(T.back()->get_ap_texpr0_t()); } else { LE e = gexpr_for(g, s, d, std::min<size_t>(td[i], n - 1), g.chance(25)); desc(str(e)); L.push_back(cxl(mk(g, e))); pl.push_back(&L.back()); cl.push_back(L.back().get_ap_linexpr0_t()); } }
    bool inter = g.chance(35), dflt = !inter && g.chance(50); bool mism = form == 2 && g.chance(5) && q > 0; vector<ap_dim_t> tv = td; if (mism) tv.push_back(0); const ax::abstract0* nul = nullptr; (void)nul;
    string key = base + (sub ? "substitute" : "assign") + (tree ? "-texpr" : "-linexpr") + (form == 0 ? "" : form == 1 ? "-array" : "-vector") + (inter ? "-inter" : "");
    if (mism) { V0 v(a.copy().rel()); bool th = false; string before = quiet(m, v.get_ap_abstract0_t()); label(key + "/sizes"); try { if (tree) { if (sub) v.substitute(M, tv, pt); else v.assign(M, tv, pt); } else { if (sub) v.substitute(M, tv, pl); else v.assign(M, tv, pl); } } catch (std::invalid_argument&) { th = true; } judged(); if (!th) violation(key + "/sizes", "vectors of different sizes are accepted"); else if (quiet(m, v.get_ap_abstract0_t()) != before) violation(key + "/sizes", "a refused call changed its object"); break; }
    CF cf = [&](ap_abstract0_t* a, ap_abstract0_t*, ap_abstract0_t* c) { ap_abstract0_t* de = inter ? c : nullptr; return tree ? sub ? ap_abstract0_substitute_texpr_array(mm, g_dz, a, td.data(), ct.data(), q, de) : ap_abstract0_assign_texpr_array(mm, g_dz, a, td.data(), ct.data(), q, de) : sub ? ap_abstract0_substitute_linexpr_array(mm, g_dz, a, td.data(), cl.data(), q, de) : ap_abstract0_assign_linexpr_array(mm, g_dz, a, td.data(), cl.data(), q, de); };
#define FORMS(OBJ, f, P) { if (inter) { if (form == 0) OBJ f(M DS, td[0], *P[0], c); else if (form == 1) OBJ f(M DS, q, td.data(), P.data(), c); else OBJ f(M DS, td, P, c); } else { if (form == 0) OBJ f(M DS, td[0], *P[0]); else if (form == 1) OBJ f(M DS, q, td.data(), P.data()); else OBJ f(M DS, td, P); } }
#define DS
    XF in = [&](Mgr& M, V0& t, V0&, V0&, V0& c) { if (tree) { if (sub) FORMS(t., substitute, pt) else FORMS(t., assign, pt) } else { if (sub) FORMS(t., substitute, pl) else FORMS(t., assign, pl) } };
#undef DS
#define DS , (ax::abstract0&)t, (const ax::abstract0&)a
    XF ds = [&](Mgr& M, V0& t, V0& a, V0&, V0& c) { if (tree) { if (sub) FORMS(, substitute, pt) else FORMS(, assign, pt) } else { if (sub) FORMS(, substitute, pl) else FORMS(, assign, pl) } };
#undef DS
    (void)dflt; both(g, m, M, key, a, b, c, cf, in, ds, [&] { string r = dumpv(td); for (auto* x : cl) r += dump(x) + ";"; for (auto* x : ct) r += dump(x) + ";"; return r; }); break; }
  case 10: { int form = n ? g.below(3) : 1 + g.below(2); vector<ap_dim_t> td; if (n) for (size_t x : gdims(g, n, form ? g.range(0, n) : 1)) td.push_back(x); if (bad) td.push_back(n); if (form == 0 && td.size() > 1) td.resize(1); bool pr = g.chance(40); if (d.lib == "polkaMPQ" && d.name != "polkaeq" || d.name.rfind("pkgrid", 0) == 0) pr = false; desc(dumpv(td)); if (td.empty() && form == 0) break;
    both(g, m, M, base + "forget" + (form == 0 ? "" : form == 1 ? "-array" : "-vector"), a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t*, ap_abstract0_t*) { return ap_abstract0_forget_array(mm, g_dz, a, td.data(), td.size(), pr); },
      [&](Mgr& M, V0& t, V0&, V0&, V0&) { if (form == 0) t.forget(M, td[0], pr); else if (form == 1) t.forget(M, td.size(), td.data(), pr); else t.forget(M, td, pr); }, [&](Mgr& M, V0& t, V0& a, V0&, V0&) { if (form == 0) forget(M, t, a, td[0], pr); else if (form == 1) forget(M, t, a, td.size(), td.data(), pr); else forget(M, t, a, td, pr); }, [&] { return dumpv(td); }); break; }
  case 11: case 12: { bool add = k == 11, pr = add && g.chance(50); Shape t = s; if (bad) t.N++; ax::dimchange D = cxd(gchange(g, t, add)); 
    both(g, m, M, base + (add ? "add_dimensions" : "remove_dimensions"), a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t*, ap_abstract0_t*) { return add ? ap_abstract0_add_dimensions(mm, g_dz, a, D.get_ap_dimchange_t(), pr) : ap_abstract0_remove_dimensions(mm, g_dz, a, D.get_ap_dimchange_t()); },
      [&](Mgr& M, V0& t, V0&, V0&, V0&) { if (add) { if (pr) t.add_dimensions(M, D, pr); else t.add_dimensions(M, D); } else t.remove_dimensions(M, D); }, [&](Mgr& M, V0& t, V0& a, V0&, V0&) { if (add) { if (pr) add_dimensions(M, t, a, D, pr); else add_dimensions(M, t, a, D); } else remove_dimensions(M, t, a, D); }, [&] { return dump(D.get_ap_dimchange_t()); }); break; }
  case 13: { size_t dim = g.below(n), q = g.below(3); if (bad) dim = n; bool def = q == 1; desc(std::to_string(dim) + " by " + std::to_string(q)); both(g, m, M, base + "expand", a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t*, ap_abstract0_t*) { return ap_abstract0_expand(mm, g_dz, a, dim, q); }, [&](Mgr& M, V0& t, V0&, V0&, V0&) { if (def) t.expand(M, dim); else t.expand(M, dim, q); }, [&](Mgr& M, V0& t, V0& a, V0&, V0&) { if (def) expand(M, t, a, dim); else expand(M, t, a, dim, q); }, none); break; }
  case 14: { bool ints = I && (I == n || g.chance(50)); vector<ap_dim_t> td; for (size_t i = ints ? 0 : I; i < (ints ? I : n); i++) if (g.chance(60)) td.push_back(i); if (td.empty()) td.push_back(ints ? 0 : I); if (bad) td.push_back(n); bool vec = g.chance(50); desc(dumpv(td));
    both(g, m, M, base + "fold", a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t*, ap_abstract0_t*) { return ap_abstract0_fold(mm, g_dz, a, td.data(), td.size()); }, [&](Mgr& M, V0& t, V0&, V0&, V0&) { if (vec) t.fold(M, td); else t.fold(M, td.size(), td.data()); }, [&](Mgr& M, V0& t, V0& a, V0&, V0&) { if (vec) fold(M, t, a, td); else fold(M, t, a, td.size(), td.data()); }, [&] { return dumpv(td); }); break; }
  case 15: { vector<size_t> v = gperm(g, s); vector<ap_dim_t> w(v.begin(), v.end()); ax::dimperm P(w); desc(dumpv(v)); both(g, m, M, base + "permute_dimensions", a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t*, ap_abstract0_t*) { return ap_abstract0_permute_dimensions(mm, g_dz, a, P.get_ap_dimperm_t()); }, [&](Mgr& M, V0& t, V0&, V0&, V0&) { t.permute_dimensions(M, P); }, [&](Mgr& M, V0& t, V0& a, V0&, V0&) { permute_dimensions(M, t, a, P); }, [&] { string r; for (size_t i = 0; i < P.size(); i++) r += std::to_string(P[i]) + ","; return r; }); break; }
  case 16: case 17: { if (dimof(m, b) == n) b = A0(m, ap_abstract0_join(m, true, b.rel(), a)); bool th = k == 17; ax::lincons0_array L = lcs(g, s, d, ps, th ? 3 : 0);
    if (th) for (size_t i = 0; i < L.size(); i++) if (L[i].get_constyp() == AP_CONS_EQMOD) L[i].get_constyp() = AP_CONS_EQ;
    both(g, m, M, base + (th ? "widening_threshold" : "widening"), a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t* b, ap_abstract0_t*) { return th ? ap_abstract0_widening_threshold(mm, a, b, L.get_ap_lincons0_array_t()) : ap_abstract0_widening(mm, a, b); }, nullptr, [&](Mgr& M, V0& t, V0& a, V0& b, V0&) { if (th) widening(M, t, a, b, L); else widening(M, t, a, b); }, none); break; }
  case 18: both(g, m, M, base + "closure", a, b, c, [&](ap_abstract0_t* a, ap_abstract0_t*, ap_abstract0_t*) { return ap_abstract0_closure(mm, g_dz, a); }, [&](Mgr& M, V0& t, V0&, V0&, V0&) { t.closure(M); }, [&](Mgr& M, V0& t, V0& a, V0&, V0&) { closure(M, t, a); }, none); break;
  case 19: case 20: { // constructors, set and assignment
    int w = g.below(6), how = g.below(3); static const char* names[] = {"top", "bottom", "copy", "box", "lincons", "tcons"}; string key = base + names[w] + (how == 0 ? "/constructor" : how == 1 ? "/set" : "/assignment"); label(key); Shape t = s; bool resize = how == 0 || how == 1 && w != 2 && g.chance(50); if (resize) { t.N = g.range(0, 4); t.I = g.below(t.N + 1); } desc("(" + std::to_string(t.I) + "," + std::to_string(t.N) + ")");
    ax::lincons0_array L = w == 4 ? lcs(g, t, d, gpts(g, t, 1), 4) : ax::lincons0_array(0); ax::tcons0_array T = w == 5 ? tcs(g, t, 3) : ax::tcons0_array(0); ax::interval_array V(t.N); if (w == 3) for (size_t i = 0; i < t.N; i++) { Itv v; if (g.chance(70)) v.lo = X(gnum(g, s.pr)); if (g.chance(70)) v.hi = v.lo.inf ? X(gnum(g, s.pr)) : X(Q(v.lo.q + g.range(g.chance(10) ? -1 : 0, 4))); V[i] = cxi(g, v); desc(str(v)); }
    if (w == 3 && t.N && bad) { ax::interval_array W(t.N - 1); V0 x(a.copy().rel()); bool th = false; try { if (how == 0) ax::abstract0(M, t.I, t.N - t.I, W); else if (how == 1) x.set(M, W, t.I, t.N - t.I); else if (t.N == n) (ax::abstract0&)x = W; else throw std::invalid_argument(""); } catch (std::invalid_argument&) { th = true; } judged(); if (!th) violation(key + "/short", "too short an array is accepted"); break; }
    size_t rd = t.N - t.I; ap_abstract0_t* r = nullptr; Out oc = callc(m, [&] { r = w == 0 ? ap_abstract0_top(m, t.I, rd) : w == 1 ? ap_abstract0_bottom(m, t.I, rd) : w == 2 ? ap_abstract0_copy(m, a) : w == 3 ? ap_abstract0_of_box(m, t.I, rd, V.get_ap_interval_t_array()) : w == 4 ? ap_abstract0_of_lincons_array(m, t.I, rd, L.get_ap_lincons0_array_t()) : ap_abstract0_of_tcons_array(m, t.I, rd, T.get_ap_tcons0_array_t()); return string(); }); oc.val = quiet(m, r); ap_abstract0_free(m, r);
    V0 src(a.copy().rel()); Out ox;
    if (how == 0) { std::unique_ptr<ax::abstract0> p; ox = callx(m, [&] { switch (w) { case 0: p.reset(new ax::abstract0(M, t.I, rd, ax::top())); break; case 1: p.reset(new ax::abstract0(M, t.I, rd, ax::bottom())); break; case 2: if (g.chance(50)) p.reset(new ax::abstract0(M, src)); else p.reset(new ax::abstract0((const ax::abstract0&)src)); break; case 3: p.reset(new ax::abstract0(M, t.I, rd, V)); break; case 4: p.reset(new ax::abstract0(M, t.I, rd, L)); break; default: p.reset(new ax::abstract0(M, t.I, rd, T)); } return string(); }); ox.val = p ? quiet(m, p->get_ap_abstract0_t()) : ""; }
    else { V0 v(value(g, m, s).rel()); ax::abstract0& x = v; if (how == 1) ox = callx(m, [&] { if (resize) switch (w) { case 0: x.set(M, ax::top(), t.I, rd); break; case 1: x.set(M, ax::bottom(), t.I, rd); break; case 3: x.set(M, V, t.I, rd); break; case 4: x.set(M, L, t.I, rd); break; case 5: x.set(M, T, t.I, rd); } else switch (w) { case 0: x.set(M, ax::top()); break; case 1: x.set(M, ax::bottom()); break; case 2: x.set(M, src); x.set(M, x); break; case 3: x.set(M, V); break; case 4: x.set(M, L); break; case 5: x.set(M, T); } return string(); });
      else ox = callx(m, [&] { switch (w) { case 0: x = ax::top(); break; case 1: x = ax::bottom(); break; case 2: x = (const ax::abstract0&)src; x = *&x; break; case 3: x = V; break; case 4: x = L; break; default: x = T; } return string(); }); ox.val = quiet(m, x.get_ap_abstract0_t()); }
    agree(key, oc, ox, false); stat("op:" + key.substr(base.size())); nontrivial(R().inputs); break; }
  case 21: { int w = g.below(3), al = g.range(-2, 10); static const char* nm[] = {"minimize", "canonicalize", "approximate"}; string key = base + nm[w]; label(key); A0 x = a.copy(); V0 y(a.copy().rel()); Out oc = callc(m, [&] { w == 0 ? ap_abstract0_minimize(m, x) : w == 1 ? ap_abstract0_canonicalize(m, x) : ap_abstract0_approximate(m, x, al); return string(); }), ox = callx(m, [&] { w == 0 ? y.minimize(M) : w == 1 ? y.canonicalize(M) : y.approximate(M, al); return string(); }); oc.val = quiet(m, x); ox.val = quiet(m, y.get_ap_abstract0_t()); agree(key, oc, ox, false); stat("op:" + key.substr(base.size())); break; }
  case 22: { string key = base + "compare"; A0 a1 = a.copy(), b1 = b.copy(), a2 = a.copy(), b2 = b.copy(); V0 x(a.copy().rel()), y(b.copy().rel()); int w = g.below(8); static const char* nm[] = {"is_eq", "is_leq", "==", "!=", "<=", ">=", "<", ">"}; key += string("/") + nm[w]; label(key);
    auto le = [&](A0& p, A0& q) { return (bool)ap_abstract0_is_leq(m, p, q); }; auto eq = [&](A0& p, A0& q) { return (bool)ap_abstract0_is_eq(m, p, q); };
    Out oc = callc(m, [&] { switch (w) { case 0: case 2: return B(eq(a1, b1)); case 3: return B(!eq(a1, b1)); case 1: case 4: return B(le(a1, b1)); case 5: return B(le(b1, a1)); case 6: { bool r = le(a1, b1); return B(r && !le(b2, a2)); } default: { bool r = le(b1, a1); return B(r && !le(a2, b2)); } } });
    Out ox = callx(m, [&] { const ax::abstract0 &p = x, &q = y; switch (w) { case 0: return B(p.is_eq(M, q)); case 1: return B(p.is_leq(M, q)); case 2: return B(p == q); case 3: return B(p != q); case 4: return B(p <= q); case 5: return B(p >= q); case 6: return B(p < q); default: return B(p > q); } }); agree(key, oc, ox, w < 6); stat("op:" + key.substr(base.size()) + " " + oc.val); nontrivial(R().inputs); break; }
  case 23: { string key = base + "predicate"; A0 x = a.copy(); V0 y(a.copy().rel()); int w = g.below(6); if (!n && (w == 2 || w == 3)) w = 0; static const char* nm[] = {"is_bottom", "is_top", "is_dimension_unconstrained", "sat-interval", "sat-lincons", "sat-tcons"}; key += string("/") + nm[w]; label(key); size_t dim = n ? g.below(n) : 0; if (bad) dim = n + 1; Itv v; v.lo = X(Q(g.range(-8, 1))); v.hi = X(Q(g.range(0, 8))); ax::interval iv = cxi(g, v); ax::lincons0 lc = w == 4 ? cxc(mk(g, gcons(g, s, ps, d))) : ax::lincons0(); TOpt o; ax::tcons0_array T = w == 5 ? tcs(g, s, 1) : ax::tcons0_array(0); if (w == 5 && !T.size()) w = 0;
    Out oc = callc(m, [&] { switch (w) { case 0: return B(ap_abstract0_is_bottom(m, x)); case 1: return B(ap_abstract0_is_top(m, x)); case 2: return B(ap_abstract0_is_dimension_unconstrained(m, x, dim)); case 3: return B(ap_abstract0_sat_interval(m, x, dim, iv.get_ap_interval_t())); case 4: return B(ap_abstract0_sat_lincons(m, x, lc.get_ap_lincons0_t())); default: return B(ap_abstract0_sat_tcons(m, x, T[0].get_ap_tcons0_t())); } });
    Out ox = callx(m, [&] { switch (w) { case 0: return B(y.is_bottom(M)); case 1: return B(y.is_top(M)); case 2: return B(y.is_dimension_unconstrained(M, dim)); case 3: return B(y.sat(M, dim, iv)); case 4: return B(y.sat(M, lc)); default: return B(y.sat(M, T[0])); } }); agree(key, oc, ox); stat("op:" + key.substr(base.size()) + " " + oc.val); break; }
  case 24: case 25: { int w = g.below(3); if (!n) w = 1 + g.below(2); static const char* nm[] = {"dimension", "linexpr", "texpr"}; string key = base + "bound/" + nm[w]; label(key); A0 x = a.copy(); V0 y(a.copy().rel()); size_t dim = n ? g.below(n) : 0; if (bad) dim = n + 2; LE e = gle(g, bad ? n + 2 : n, s.pr, 60, g.chance(25)); TOpt o; o.rounding = g.chance(30); TP t = gtx(g, bad ? n + 2 : n, s.pr, o, 2); desc(str(e)); ax::linexpr0 L = cxl(mk(g, e)); TX0 T(mk(g, t));
    auto I2 = [](ap_interval_t* i) { string r = dump(i); ap_interval_free(i); return r; };
    Out oc = callc(m, [&] { return I2(w == 0 ? ap_abstract0_bound_dimension(m, x, dim) : w == 1 ? ap_abstract0_bound_linexpr(m, x, L.get_ap_linexpr0_t()) : ap_abstract0_bound_texpr(m, x, T.get_ap_texpr0_t())); });
    Out ox = callx(m, [&] { ax::interval i = w == 0 ? y.bound(M, (ap_dim_t)dim) : w == 1 ? y.bound(M, L) : y.bound(M, T); return dump(i.get_ap_interval_t()); }); agree(key, oc, ox); stat("op:" + key.substr(base.size())); nontrivial(R().inputs); break; }
  case 26: case 27: { int w = g.below(5); static const char* nm[] = {"box", "lincons", "tcons", "generators", "dimension"}; string key = base + "to/" + nm[w]; label(key); A0 x = a.copy(); V0 y(a.copy().rel());
    Out oc = callc(m, [&] { string r; if (w == 0) { ap_interval_t** v = ap_abstract0_to_box(m, x); for (size_t i = 0; i < n; i++) r += dump(v[i]); if (v) ap_interval_array_free(v, n); } else if (w == 1) { ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, x); r = dump(&l); ap_lincons0_array_clear(&l); } else if (w == 2) { ap_tcons0_array_t l = ap_abstract0_to_tcons_array(m, x); r = dump(&l); ap_tcons0_array_clear(&l); } else if (w == 3) { ap_generator0_array_t l = ap_abstract0_to_generator_array(m, x); r = dump(&l); ap_generator0_array_clear(&l); } else { ap_dimension_t q = ap_abstract0_dimension(m, x); r = std::to_string(q.intdim) + "+" + std::to_string(q.realdim) + " " + std::to_string(ap_abstract0_size(m, x)); } return r; });
    Out ox = callx(m, [&] { string r; if (w == 0) { ax::interval_array v = y.to_box(M); if (v.size() != n) return string("size"); for (size_t i = 0; i < n; i++) r += dump(v[i].get_ap_interval_t()); } else if (w == 1) { ax::lincons0_array l = y.to_lincons_array(M); r = dump(l.get_ap_lincons0_array_t()); } else if (w == 2) { ax::tcons0_array l = y.to_tcons_array(M); r = dump(l.get_ap_tcons0_array_t()); } else if (w == 3) { ax::generator0_array l = y.to_generator_array(M); r = dump(l.get_ap_generator0_array_t()); } else { ap_dimension_t q = y.get_dimension(M); r = std::to_string(q.intdim) + "+" + std::to_string(q.realdim) + " " + std::to_string(y.size(M)); } return r; });
    agree(key, oc, ox, w != 4); stat("op:" + key.substr(base.size())); nontrivial(R().inputs); break; }
  case 28: { int w = g.below(4); static const char* nm[] = {"print", "printdiff", "dump", "ostream"}; string key = base + "text/" + nm[w]; label(key); A0 x = a.copy(), z = b.copy(); V0 y(a.copy().rel()), u(b.copy().rel()); Names N = gnames(g, n, g.chance(50)); if (w == 1 && dimof(m, b) != n) break;
    Out oc = callc(m, [&] { if (w == 3) { ap_manager_t* mm = m; if (ap_abstract0_is_bottom(mm, x)) return string("bottom"); if (ap_abstract0_is_top(mm, x)) return string("top"); ap_lincons0_array_t l = ap_abstract0_to_lincons_array(mm, x); string r = std::to_string(l.size); ap_lincons0_array_clear(&l); return r; } return printed([&](FILE* f) { if (w == 0) ap_abstract0_fprint(f, m, x, N.arr); else if (w == 1) ap_abstract0_fprintdiff(f, m, x, z, N.arr); else ap_abstract0_fdump(f, m, x); }); });
    Out ox = callx(m, [&] { if (w == 3) { string r = cstr([&](std::ostream& o) { o << (const ax::abstract0&)y; }); if (r == "bottom" || r == "top") return r; size_t k = 0; for (char ch : r) if (ch == ';') k++; return std::to_string(k); } return printed([&](FILE* f) { if (w == 0) y.print(M, N.arr, f); else if (w == 1) printdiff(M, y, u, N.arr, f); else y.dump(M, f); }); });
    if (w == 2) { oc.val.clear(); ox.val.clear(); } agree(key, oc, ox, false); stat("op:" + key.substr(base.size())); break; }
  default: { string key = base + "serialize"; label(key); A0 x = a.copy(); V0 y(a.copy().rel()), t(value(g, m, s).rel()); string bytes;
    Out oc = callc(m, [&] { ap_membuf_t q = ap_abstract0_serialize_raw(m, x); string r((char*)q.ptr, q.ptr ? q.size : 0); free(q.ptr); return r; }); Out ox = callx(m, [&] { std::unique_ptr<string> p(y.serialize(M)); return *p; }); if (!agree(key, oc, ox, false)) break; if (oc.exn) { stat("op:serialize refused"); break; }
    size_t eaten = 77; bool ask = g.chance(50); string tail = oc.val; if (ask) tail += string(g.range(0, 3), 'x'); ox = callx(m, [&] { if (ask) deserialize(M, t, tail, &eaten); else deserialize(M, t, tail); return string(); }); judged(); if (ox.exn) violation(base + "deserialize", ox.msg); else { if (ask && eaten != oc.val.size()) violation(base + "deserialize/eaten", std::to_string(eaten) + " bytes of " + std::to_string(oc.val.size())); string w = differ(m, t.get_ap_abstract0_t(), a.copy()); if (w.size()) violation(base + "deserialize/value", w); } stat("op:serialize"); break; }
  }
  // the manager
  if (g.chance(10)) { judged(3); label(base + "manager"); Mgr N(ap_manager_copy(m)); ax::manager K(M), Q(N); size_t cnt = m.m->count; Q = K; if (m.m->count != cnt) violation(base + "manager/count", "assigning a manager to a copy of itself changed the number of references"); if (K.get_library() != m.m->library || K.get_version() != m.m->version) violation(base + "manager/name", K.get_library()); if (&K.get_funopt(AP_FUNID_MEET) != &m.m->option.funopt[AP_FUNID_MEET]) violation(base + "manager/funopt", "options of another function"); bool th = false; try { K.get_funopt(AP_FUNID_SIZE); } catch (std::out_of_range&) { th = true; } if (!th) violation(base + "manager/funopt", "an identifier that does not exist is accepted");
    V0 y(a.copy().rel()); if (y.get_manager().get_ap_manager_t() != m.m) violation(base + "get_manager", "another manager"); if (K.get_flag_exact() != m.m->result.flag_exact || K.get_flag_best() != m.m->result.flag_best) violation(base + "manager/flags", "flags"); }
  judged(); if (m.m->count != (size_t)0 && false) violation(base + "manager/references", "");
}
static Mode M_cxx0("cxx0", m_cxx0);
#ifdef CXX_MORE
#include "cxx_expr.h"
#include "cxx_level1.h"
#endif
int main(int argc, char** argv) { return harness_main(argc, argv); }
