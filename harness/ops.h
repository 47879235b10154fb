// A random operation with its arguments, as something that can be applied several times.
#pragma once
#include "dom.h"

// ---------------------------------------------------------------- exact text of user-visible objects
inline string dump(ap_scalar_t* s) {
  switch (s->discr) {
  case AP_SCALAR_DOUBLE: { char b[64]; snprintf(b, sizeof b, "d%a", s->val.dbl); return b; }
  case AP_SCALAR_MPQ: { char* c = mpq_get_str(nullptr, 10, s->val.mpq); string r = string("q") + c; void (*f)(void*, size_t); mp_get_memory_functions(nullptr, nullptr, &f); f(c, strlen(c) + 1); return r; }
  case AP_SCALAR_MPFR: { char b[400]; mpfr_snprintf(b, sizeof b, "m%Ra", s->val.mpfr); return b; }
  }
  return "?"; }
inline string dump(ap_interval_t* i) { return "[" + dump(i->inf) + "," + dump(i->sup) + "]"; }
inline string dump(ap_coeff_t* c) { return c->discr == AP_COEFF_SCALAR ? dump(c->val.scalar) : dump(c->val.interval); }
inline string dump(ap_linexpr0_t* e) {
  string s = e->discr == AP_LINEXPR_DENSE ? "D" : "S";
  for (size_t i = 0; i < e->size; i++) s += " " + (e->discr == AP_LINEXPR_DENSE ? dump(&e->p.coeff[i]) : std::to_string((long)(int)e->p.linterm[i].dim) + ":" + dump(&e->p.linterm[i].coeff));
  return s + " + " + dump(&e->cst); }
inline string dump(ap_lincons0_t* c) { return dump(c->linexpr0) + " " + opname(c->constyp) + (c->scalar ? dump(c->scalar) : string()); }
inline string dump(ap_lincons0_array_t* a) { string s; for (size_t i = 0; i < a->size; i++) s += dump(&a->p[i]) + "; "; return s; }
inline string dump(ap_generator0_array_t* a) { string s; for (size_t i = 0; i < a->size; i++) s += std::to_string(a->p[i].gentyp) + " " + dump(a->p[i].linexpr0) + "; "; return s; }
inline string dump(ap_texpr0_t* t) {
  if (!t) return "null";
  if (t->discr == AP_TEXPR_CST) return dump(&t->val.cst);
  if (t->discr == AP_TEXPR_DIM) return "x" + std::to_string(t->val.dim);
  auto* n = t->val.node; return "(" + std::to_string(n->op) + " " + std::to_string(n->type) + " " + std::to_string(n->dir) + " " + dump(n->exprA) + " " + (n->exprB ? dump(n->exprB) : string("-")) + ")"; }
inline string dump(ap_tcons0_array_t* a) { string s; for (size_t i = 0; i < a->size; i++) s += dump(a->p[i].texpr0) + " " + opname(a->p[i].constyp) + (a->p[i].scalar ? dump(a->p[i].scalar) : string()) + "; "; return s; }
inline string dump(ap_dimchange_t* d) { string s = std::to_string(d->intdim) + "+" + std::to_string(d->realdim) + ":"; for (size_t i = 0; i < d->intdim + d->realdim; i++) s += std::to_string(d->dim[i]) + ","; return s; }
template <class V> string dumpv(const V& v) { string s; for (auto x : v) s += std::to_string(x) + ","; return s; }

struct Op {
  string name; bool query = false, widen = false, hasdest = false, isdim = false;
  std::function<ap_abstract0_t*(bool, ap_abstract0_t*)> f;      // transformation
  std::function<string(ap_abstract0_t*)> q;                      // query, as text
  std::function<string()> args;                                  // text of the arguments owned by the caller
  std::function<void()> done;
  vector<A0*> others;                                            // abstract arguments (must keep their meaning)
  Shape out;
};
inline string qstr(const Itv& v) { return str(v); }

// others: b and c are values of the same shape
inline Op gop(Rng& g, const Man& m, const Shape& s, A0& b, A0& c, const vector<Pt>& ps, int only = -1) {
  const Dom& d = *m.d; size_t n = s.N; Op o; o.out = s; ap_manager_t* mm = m.m; o.args = [] { return string(); }; o.done = [] {};
  int k = only >= 0 ? only : (int)g.below(38);
  if (!n && (k < 4 || (k >= 11 && k < 18) || k == 24 || k == 27 || k == 28)) k = 4 + g.below(3);
  auto mkchange = [&](bool add) { vector<size_t> pos; size_t ki = 0, kr = 0, I = s.I, N = n;
    if (add) { ki = g.below(3); kr = g.below(3); for (size_t i = 0; i < ki; i++) pos.push_back(g.below(I + 1)); for (size_t i = 0; i < kr; i++) pos.push_back(I + g.below(N - I + 1)); std::sort(pos.begin(), pos.begin() + ki); std::sort(pos.begin() + ki, pos.end()); o.out.I += ki; o.out.N += ki + kr; }
    else { for (size_t i = 0; i < N; i++) if (g.chance(35)) { pos.push_back(i); if (i < I) ki++; else kr++; } o.out.I -= ki; o.out.N -= ki + kr; }
    ap_dimchange_t* dc = ap_dimchange_alloc(ki, kr); for (size_t i = 0; i < pos.size(); i++) dc->dim[i] = pos[i]; return dc; };
  A0 *pb = &b, *pc = &c;
  switch (k) {
  case 0: case 1: case 2: case 3: {
    size_t kk = g.chance(60) ? 1 : g.range(1, n); auto td = std::make_shared<vector<ap_dim_t>>(); for (size_t x : gdims(g, n, kk)) td->push_back(x);
    bool dest = g.chance(35); if (dest) o.others.push_back(pb); o.hasdest = dest; bool sub = k & 1; string t;
    if (k < 2) { auto es = std::make_shared<vector<ap_linexpr0_t*>>(); for (auto x : *td) { LE e = gexpr_for(g, s, d, x, g.chance(25)); t += "x" + std::to_string(x) + (sub ? "<-" : ":=") + str(e) + " "; es->push_back(mk(g, e)); }
      o.name = sub ? "substitute_linexpr" : "assign_linexpr"; bool one = kk == 1 && g.chance(50);
      o.f = [=](bool x, ap_abstract0_t* a) { ap_abstract0_t* de = dest ? pb->a : nullptr;
        if (one) return sub ? ap_abstract0_substitute_linexpr(mm, x, a, (*td)[0], (*es)[0], de) : ap_abstract0_assign_linexpr(mm, x, a, (*td)[0], (*es)[0], de);
        return sub ? ap_abstract0_substitute_linexpr_array(mm, x, a, td->data(), es->data(), td->size(), de) : ap_abstract0_assign_linexpr_array(mm, x, a, td->data(), es->data(), td->size(), de); };
      o.args = [=] { string r = dumpv(*td); for (auto* e : *es) r += dump(e) + "; "; return r; }; o.done = [=] { for (auto* e : *es) ap_linexpr0_free(e); }; }
    else { auto es = std::make_shared<vector<ap_texpr0_t*>>(); for (auto x : *td) { TOpt to; to.rounding = g.chance(30); TP e = gtx(g, n, s.pr, to, g.range(1, 3)); t += "x" + std::to_string(x) + (sub ? "<-" : ":=") + str(e) + " "; es->push_back(mk(g, e)); }
      o.name = sub ? "substitute_texpr" : "assign_texpr"; bool one = kk == 1 && g.chance(50);
      o.f = [=](bool x, ap_abstract0_t* a) { ap_abstract0_t* de = dest ? pb->a : nullptr;
        if (one) return sub ? ap_abstract0_substitute_texpr(mm, x, a, (*td)[0], (*es)[0], de) : ap_abstract0_assign_texpr(mm, x, a, (*td)[0], (*es)[0], de);
        return sub ? ap_abstract0_substitute_texpr_array(mm, x, a, td->data(), es->data(), td->size(), de) : ap_abstract0_assign_texpr_array(mm, x, a, td->data(), es->data(), td->size(), de); };
      o.args = [=] { string r = dumpv(*td); for (auto* e : *es) r += dump(e) + "; "; return r; }; o.done = [=] { for (auto* e : *es) ap_texpr0_free(e); }; }
    desc(t + (dest ? "with dest" : "")); break; }
  case 4: o.name = "meet"; o.others.push_back(pb); o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_meet(mm, x, a, *pb); }; break;
  case 5: case 6: o.name = "join"; o.others.push_back(pb); o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_join(mm, x, a, *pb); }; break;
  case 7: case 8: { bool me = k == 7; o.name = me ? "meet_array" : "join_array"; o.others = {pb, pc}; int rot = g.below(3);
    o.f = [=](bool x, ap_abstract0_t* a) { ap_abstract0_t* t[3] = {pb->a, pc->a, nullptr}; t[2] = t[rot % 3]; t[rot] = a; if (!t[2]) t[2] = a; ap_abstract0_t* r = me ? ap_abstract0_meet_array(mm, t, 3) : ap_abstract0_join_array(mm, t, 3); if (x) ap_abstract0_free(mm, a); return r; }; break; }
  case 9: { auto l = std::make_shared<ap_lincons0_array_t>(); vector<LC> cs; for (int i = g.range(0, 4); i > 0; i--) { LC c1 = g.chance(70) ? gcons(g, s, ps, d) : LC(); if (c1.e.c.size() != n) { c1.e = gle(g, n, s.pr, 50, g.chance(20)); c1.op = g.pick(vector<ap_constyp_t>{AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ, AP_CONS_DISEQ, AP_CONS_EQMOD}); if (c1.op == AP_CONS_EQMOD) c1.mod = g.range(1, 5); } cs.push_back(c1); desc(str(c1)); }
    *l = mk(g, cs); o.name = "meet_lincons"; o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_meet_lincons_array(mm, x, a, l.get()); }; o.args = [=] { return dump(l.get()); }; o.done = [=] { ap_lincons0_array_clear(l.get()); }; break; }
  case 10: { auto l = std::make_shared<ap_tcons0_array_t>(); int nb = g.range(0, 3); *l = ap_tcons0_array_make(nb);
    for (int i = 0; i < nb; i++) { TOpt to; to.rounding = g.chance(30); TP e = gtx(g, n, s.pr, to, g.range(1, 3)); ap_constyp_t ct = g.pick(vector<ap_constyp_t>{AP_CONS_SUPEQ, AP_CONS_SUP, AP_CONS_EQ, AP_CONS_DISEQ}); desc(str(e) + opname(ct)); l->p[i] = ap_tcons0_make(ct, mk(g, e), nullptr); }
    o.name = "meet_tcons"; o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_meet_tcons_array(mm, x, a, l.get()); }; o.args = [=] { return dump(l.get()); }; o.done = [=] { ap_tcons0_array_clear(l.get()); }; break; }
  case 11: { auto l = std::make_shared<ap_generator0_array_t>(); int nr = g.range(0, 3); *l = ap_generator0_array_make(nr);
    for (int i = 0; i < nr; i++) { LE e(n); for (auto& x : e.c) x = pt_itv(Q(g.range(-2, 2))); int ty = g.chance(60) ? AP_GEN_RAY : AP_GEN_LINE; desc(string(ty == AP_GEN_RAY ? "ray " : "line ") + str(e)); l->p[i] = ap_generator0_make((ap_gentyp_t)ty, mk(g, e, SK_MPQ)); }
    o.name = "add_ray"; o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_add_ray_array(mm, x, a, l.get()); }; o.args = [=] { return dump(l.get()); }; o.done = [=] { ap_generator0_array_clear(l.get()); }; break; }
  case 12: { auto td = std::make_shared<vector<ap_dim_t>>(); for (size_t x : gdims(g, n, g.range(1, n))) td->push_back(x); bool pr = g.chance(40); if (!d.lib.compare(0, 8, "polkaMPQ") && d.name != "polkaeq") pr = false; if (d.name.rfind("pkgrid", 0) == 0) pr = false;
    o.name = "forget"; desc(dumpv(*td)); o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_forget_array(mm, x, a, td->data(), td->size(), pr); }; o.args = [=] { return dumpv(*td); }; break; }
  case 13: { ap_dimchange_t* dc = mkchange(true); bool pr = g.chance(50); o.name = "add_dimensions"; o.isdim = true; desc(dump(dc)); o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_add_dimensions(mm, x, a, dc, pr); }; o.args = [=] { return dump(dc); }; o.done = [=] { ap_dimchange_free(dc); }; break; }
  case 14: { ap_dimchange_t* dc = mkchange(false); o.name = "remove_dimensions"; o.isdim = true; desc(dump(dc)); o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_remove_dimensions(mm, x, a, dc); }; o.args = [=] { return dump(dc); }; o.done = [=] { ap_dimchange_free(dc); }; break; }
  case 15: { ap_dimperm_t* pm = ap_dimperm_alloc(n); vector<size_t> v(n); for (size_t i = 0; i < n; i++) v[i] = i; for (size_t i = s.I; i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); for (size_t i = n; i > s.I + 1; i--) std::swap(v[i - 1], v[s.I + g.below(i - s.I)]);
    for (size_t i = 0; i < n; i++) pm->dim[i] = v[i]; o.name = "permute_dimensions"; o.isdim = true; desc(dumpv(v)); o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_permute_dimensions(mm, x, a, pm); }; o.args = [=] { string r; for (size_t i = 0; i < pm->size; i++) r += std::to_string(pm->dim[i]) + ","; return r; }; o.done = [=] { ap_dimperm_free(pm); }; break; }
  case 16: { size_t dim = g.below(n), kk = g.below(3); o.out.N += kk; if (dim < s.I) o.out.I += kk; o.name = "expand"; o.isdim = true; desc("x" + std::to_string(dim) + " by " + std::to_string(kk)); o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_expand(mm, x, a, dim, kk); }; break; }
  case 17: { bool ints = s.I && (s.I == n || g.chance(50)); auto td = std::make_shared<vector<ap_dim_t>>(); for (size_t i = ints ? 0 : s.I; i < (ints ? s.I : n); i++) if (g.chance(60)) td->push_back(i); if (td->empty()) td->push_back(ints ? 0 : s.I);
    o.out.N -= td->size() - 1; if (ints) o.out.I -= td->size() - 1; o.name = "fold"; o.isdim = true; desc(dumpv(*td)); o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_fold(mm, x, a, td->data(), td->size()); }; o.args = [=] { return dumpv(*td); }; break; }
  case 18: o.name = "closure"; o.f = [=](bool x, ap_abstract0_t* a) { return ap_abstract0_closure(mm, x, a); }; break;
  case 19: o.name = "widening"; o.widen = true; o.others.push_back(pb); o.f = [=](bool x, ap_abstract0_t* a) { A0 j(mm, ap_abstract0_join(mm, false, a, *pb)); ap_abstract0_t* r = ap_abstract0_widening(mm, a, j); if (x) ap_abstract0_free(mm, a); return r; }; break;
  case 20: { auto l = std::make_shared<ap_lincons0_array_t>(); vector<LC> cs; for (int i = g.range(0, 4); i > 0; i--) { LC c1 = gcons(g, s, g.chance(60) ? ps : vector<Pt>{gpt(g, s)}, d, false); if (c1.op == AP_CONS_EQMOD) c1.op = AP_CONS_EQ; cs.push_back(c1); desc("threshold " + str(c1)); }
    *l = mk(g, cs); o.name = "widening_threshold"; o.widen = true; o.others.push_back(pb); o.f = [=](bool x, ap_abstract0_t* a) { A0 j(mm, ap_abstract0_join(mm, false, a, *pb)); ap_abstract0_t* r = ap_abstract0_widening_threshold(mm, a, j, l.get()); if (x) ap_abstract0_free(mm, a); return r; };
    o.args = [=] { return dump(l.get()); }; o.done = [=] { ap_lincons0_array_clear(l.get()); }; break; }
  // queries
  case 21: o.name = "is_bottom"; o.query = true; o.q = [=](ap_abstract0_t* a) { return std::to_string(ap_abstract0_is_bottom(mm, a)); }; break;
  case 22: o.name = "is_top"; o.query = true; o.q = [=](ap_abstract0_t* a) { return std::to_string(ap_abstract0_is_top(mm, a)); }; break;
  case 23: case 26: { bool eq = k == 26; o.name = eq ? "is_eq" : "is_leq"; o.query = true; o.others.push_back(pb); bool sw = g.chance(40); o.q = [=](ap_abstract0_t* a) { return std::to_string(eq ? ap_abstract0_is_eq(mm, a, *pb) : sw ? ap_abstract0_is_leq(mm, *pb, a) : ap_abstract0_is_leq(mm, a, *pb)); }; break; }
  case 24: { size_t dim = g.below(n); Itv v = mk_itv(X(gnum(g, s.pr)), pinf()); if (g.chance(30)) v.hi = X(Q(v.lo.q + 5)); ap_interval_t* i = ap_interval_alloc(); set_scalar(g, i->inf, v.lo); set_scalar(g, i->sup, v.hi); desc("x" + std::to_string(dim) + " in " + str(v));
    o.name = "sat_interval"; o.query = true; o.q = [=](ap_abstract0_t* a) { return std::to_string(ap_abstract0_sat_interval(mm, a, dim, i)); }; o.args = [=] { return dump(i); }; o.done = [=] { ap_interval_free(i); }; break; }
  case 25: { LC c1 = gcons(g, s, ps, d); desc(str(c1)); auto l = std::make_shared<ap_lincons0_t>(mk(g, c1)); o.name = "sat_lincons"; o.query = true; o.q = [=](ap_abstract0_t* a) { return std::to_string(ap_abstract0_sat_lincons(mm, a, l.get())); }; o.args = [=] { return dump(l.get()); }; o.done = [=] { ap_lincons0_clear(l.get()); }; break; }
  case 27: { size_t dim = g.below(n); o.name = "is_dimension_unconstrained"; o.query = true; o.q = [=](ap_abstract0_t* a) { return std::to_string(ap_abstract0_is_dimension_unconstrained(mm, a, dim)); }; break; }
  case 28: { size_t dim = g.below(n); o.name = "bound_dimension"; o.query = true; o.q = [=](ap_abstract0_t* a) { ap_interval_t* i = ap_abstract0_bound_dimension(mm, a, dim); string r = qstr(xitv(i)); ap_interval_free(i); return r; }; break; }
  case 29: { LE e = gle(g, n, s.pr, 50, g.chance(25)); desc(str(e)); ap_linexpr0_t* x = mk(g, e); o.name = "bound_linexpr"; o.query = true; o.q = [=](ap_abstract0_t* a) { ap_interval_t* i = ap_abstract0_bound_linexpr(mm, a, x); string r = qstr(xitv(i)); ap_interval_free(i); return r; }; o.args = [=] { return dump(x); }; o.done = [=] { ap_linexpr0_free(x); }; break; }
  case 30: { TOpt to; to.rounding = g.chance(40); TP t = gtx(g, n, s.pr, to, g.range(1, 4)); desc(str(t)); ap_texpr0_t* x = mk(g, t); o.name = "bound_texpr"; o.query = true; o.q = [=](ap_abstract0_t* a) { ap_interval_t* i = ap_abstract0_bound_texpr(mm, a, x); string r = qstr(xitv(i)); ap_interval_free(i); return r; }; o.args = [=] { return dump(x); }; o.done = [=] { ap_texpr0_free(x); }; break; }
  case 31: o.name = "to_box"; o.query = true; o.q = [=](ap_abstract0_t* a) { string r; for (auto& v : get_box(mm, a, n)) r += qstr(v) + " "; return r; }; break;
  case 32: o.name = "to_lincons"; o.query = true; o.q = [=](ap_abstract0_t* a) { ap_lincons0_array_t l = ap_abstract0_to_lincons_array(mm, a); string r = str(&l, n); ap_lincons0_array_clear(&l); return r; }; break;
  case 33: o.name = "to_tcons"; o.query = true; o.q = [=](ap_abstract0_t* a) { ap_tcons0_array_t l = ap_abstract0_to_tcons_array(mm, a); string r = dump(&l); ap_tcons0_array_clear(&l); return r; }; break;
  case 34: o.name = "to_generator"; o.query = true; o.q = [=](ap_abstract0_t* a) { ap_generator0_array_t l = ap_abstract0_to_generator_array(mm, a); string r = dump(&l); ap_generator0_array_clear(&l); return r; }; break;
  case 35: { TOpt to; to.rounding = g.chance(30); TP e = gtx(g, n, s.pr, to, g.range(1, 3)); desc(str(e) + ">=0"); auto l = std::make_shared<ap_tcons0_t>(ap_tcons0_make(AP_CONS_SUPEQ, mk(g, e), nullptr)); o.name = "sat_tcons"; o.query = true; o.q = [=](ap_abstract0_t* a) { return std::to_string(ap_abstract0_sat_tcons(mm, a, l.get())); }; o.args = [=] { return dump(l->texpr0); }; o.done = [=] { ap_tcons0_clear(l.get()); }; break; }
  default: { o.name = k == 36 ? "fprint" : "fdump"; o.query = true; bool pr = k == 36; o.q = [=](ap_abstract0_t* a) { char* buf = nullptr; size_t sz = 0; FILE* f = open_memstream(&buf, &sz); if (pr) ap_abstract0_fprint(f, mm, a, nullptr); else ap_abstract0_fdump(f, mm, a); fclose(f); string r = pr ? string(buf, sz) : string(); free(buf); return r; }; break; }
  }
  return o;
}
