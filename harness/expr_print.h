// What the data structures print, read back and compared with the structure.
#pragma once
#include "text.h"
static ap_scalar_t* anyscalar(Rng& g) { // also values only MPFR can hold exactly, with a printed form that is rounded
  if (g.chance(20)) { ap_scalar_t* s = ap_scalar_alloc(); mpfr_t m; mpfr_init2(m, g.range(2, 150)); Q q = wild(g); mpfr_set_q(m, q.get_mpq_t(), MPFR_RNDN); if (g.chance(30)) mpfr_add_ui(m, m, 1, MPFR_RNDN); ap_scalar_reinit(s, AP_SCALAR_MPFR); mpfr_set_prec(s->val.mpfr, mpfr_get_prec(m)); mpfr_set(s->val.mpfr, m, MPFR_RNDN); mpfr_clear(m); return s; }
  return mks(g, wildx(g)); }
static void m_print(Rng& g, long) {
  size_t n = g.chance(10) ? g.range(9, 30) : g.range(0, 6); bool given = g.chance(60); Names N = gnames(g, n, given);
  switch (g.below(8)) {
  case 0: { label("print/scalar"); ap_scalar_t *a = anyscalar(g), *b = anyscalar(g); desc(ds(a) + " " + ds(b)); nontrivial(R().inputs); string s = printed([&](FILE* f) { ap_scalar_fprint(f, a); }); size_t i = 0; PN p = pnum(s, i); pv(string("print/scalar/") + tyname(a->discr), denotes(p, a) ? rest(s, i) : "another number", s);
    ap_interval_t* v = ap_interval_alloc(); ap_interval_set_scalar(v, a, b); string t = printed([&](FILE* f) { ap_interval_fprint(f, v); }); i = 0; PI q = pcoef(t, i); pv("print/interval", q.ok && q.itv && denotes(q.a, a) && denotes(q.b, b) ? rest(t, i) : "another interval", t);
    ap_coeff_t* c = ap_coeff_alloc(AP_COEFF_SCALAR); if (g.chance(50)) ap_coeff_set_scalar(c, a); else ap_coeff_set_interval(c, v); string u = printed([&](FILE* f) { ap_coeff_fprint(f, c); }); i = 0; q = pcoef(u, i); pv("print/coeff", denotes(q, c) ? rest(u, i) : "another coefficient", u); ap_coeff_free(c); ap_interval_free(v); ap_scalar_free(a); ap_scalar_free(b); break; }
  case 1: case 2: { label("print/linexpr"); VL l = gvl(g, n); ap_linexpr0_t* e = build(g, l); if (n && g.chance(40)) { ap_coeff_t* c = g.chance(70) ? ap_linexpr0_coeffref(e, g.below(n)) : &e->cst; if (c) { ap_scalar_t* s = anyscalar(g); ap_coeff_set_scalar(c, s); ap_scalar_free(s); } } desc(str(rdl(e, "print"))); if (n > 1) nontrivial(R().inputs);
    string s = printed([&](FILE* f) { ap_linexpr0_fprint(f, e, N.arr); }); size_t i = 0; PL p = plin(s, i, N); string w = saysl(p, e); pv("print/linexpr", w.size() ? w : rest(s, i), s);
    ap_gentyp_t gt = g.pick(vector<ap_gentyp_t>{AP_GEN_LINE, AP_GEN_RAY, AP_GEN_VERTEX, AP_GEN_LINEMOD, AP_GEN_RAYMOD}); ap_generator0_t gn = ap_generator0_make(gt, e); static const char* nm[] = {"LINE:    ", "RAY:     ", "VERTEX:  ", "LINEMOD: ", "RAYMOD:  "}; string t = printed([&](FILE* f) { ap_generator0_fprint(f, &gn, N.arr); }); pv("print/generator", t == nm[gt] + s ? "" : "not the kind of generator followed by the expression", t); ap_generator0_clear(&gn); break; }
  case 3: { label("print/lincons"); size_t k = g.chance(20) ? g.range(9, 12) : g.below(4); ap_lincons0_array_t a = ap_lincons0_array_make(k); for (size_t i = 0; i < k; i++) { VC c = gvc(g, n); a.p[i] = build(g, c); desc(str(c)); } if (k && n) nontrivial(R().inputs);
    for (size_t i = 0; i < k; i++) { string s = printed([&](FILE* f) { ap_lincons0_fprint(f, &a.p[i], N.arr); }); size_t j = 0; PC p = pcons(s, j, N); string w = saysc(p, &a.p[i]); pv("print/lincons", w.size() ? w : rest(s, j), s); }
    string s = printed([&](FILE* f) { ap_lincons0_array_fprint(f, &a, N.arr); }); vector<string> l = lines(s); size_t at_ = 0; string w = array_(l, at_, "constraints", "constraints", k, [&](size_t i, const string& x) { size_t j = 0; PC p = pcons(x, j, N); string y = saysc(p, &a.p[i]); return y.size() ? y : rest(x, j); }); pv("print/lincons_array", w.size() ? w : at_ == l.size() ? "" : "more lines", s); ap_lincons0_array_clear(&a); break; }
  case 4: case 5: { label("print/texpr"); TTP t = gtt(g, n, g.range(0, 5), g.below(3)); ap_texpr0_t* e = build(g, t); desc(str(t)); if (t->kind == 2) nontrivial(R().inputs); string s = printed([&](FILE* f) { ap_texpr0_fprint(f, e, N.arr); }); size_t i = 0; string why; PTP p = ptree(s, i, N, 0, why); pv("print/texpr", !p ? "unreadable: " + why : i != s.size() ? rest(s, i) : sayst(p, e) ? "" : "another expression than " + str(t), s);
    VT v = gvt(g, n); ap_tcons0_t c = build(g, v); string u = printed([&](FILE* f) { ap_tcons0_fprint(f, &c, N.arr); }); i = 0; p = ptree(u, i, N, 0, why); ap_constyp_t op; bool mod; PN m; if (!p) pv("print/tcons", "unreadable: " + why, u); else if (!pop(u, i, op, mod, m)) pv("print/tcons", "no operator", u); else pv("print/tcons", !sayst(p, c.texpr0) || op != c.constyp || (mod && !denotes(m, c.scalar)) ? "another constraint than " + str(v.e) + opname(v.op) : rest(u, i), u);
    ap_tcons0_array_t a = ap_tcons0_array_make(2); a.p[0] = c; a.p[1] = ap_tcons0_make(AP_CONS_SUP, e, nullptr); string x = printed([&](FILE* f) { ap_tcons0_array_fprint(f, &a, N.arr); }); pv("print/tcons_array", x == "array of constraints of size 2\n 0: " + u + "\n 1: " + s + " > 0\n" ? "" : "not the list of the constraints", x); ap_tcons0_array_clear(&a); break; }
  case 6: { label("print/change"); DC c = gadd(g, g.below(n + 1), n); ap_dimchange_t* d = c.make(); string s = printed([&](FILE* f) { ap_dimchange_fprint(f, d); }); std::stringstream ss(s); string a, b, r; ss >> a >> b >> r; bool ok = a == "dimchange:" && b == "intdim=" + std::to_string(c.I) + "," && r == "realdim=" + std::to_string(c.R); unsigned v; size_t i = 0; while (ss >> v) ok = ok && i < c.dim.size() && v == c.dim[i++]; ok = ok && i == c.dim.size(); pv("print/dimchange", ok ? "" : "another change", s); ap_dimchange_free(d);
    vector<unsigned> pm = gperm(g, n); ap_dimperm_t* dp = mkp(pm); string t = printed([&](FILE* f) { ap_dimperm_fprint(f, dp); }); vector<string> l = lines(t); ok = l.size() == n + 1 && l[0].find(std::to_string(n)) != string::npos; for (size_t k = 0; ok && k < n; k++) { unsigned x, y; ok = sscanf(l[k + 1].c_str(), "%u -> %u", &x, &y) == 2 && x == k && y == pm[k]; } pv("print/dimperm", ok ? "" : "another permutation", t); ap_dimperm_free(dp); break; }
  default: { label("print/environment"); Names M = gnames(g, n, true); size_t I = g.below(n + 1); std::sort(M.v.begin(), M.v.begin() + I); std::sort(M.v.begin() + I, M.v.end()); M.p.clear(); M.set(); ap_environment_t* en = ap_environment_alloc((ap_var_t*)M.p.data(), I, (ap_var_t*)M.p.data() + I, n - I); desc("environment of " + std::to_string(I) + "+" + std::to_string(n - I)); if (n) nontrivial(R().inputs);
    string s = printed([&](FILE* f) { ap_environment_fdump(f, en); }); vector<string> l = lines(s); bool ok = l.size() == n + 1 && l[0] == "environment: dim = (" + std::to_string(I) + "," + std::to_string(n - I) + "), count = " + std::to_string(en->count); for (size_t i = 0; ok && i < n; i++) { char b[100]; snprintf(b, sizeof b, "%2zu: %s", i, M.v[i].c_str()); ok = l[i + 1] == b; } pv("print/environment", ok ? "" : "another environment", s);
    auto same1 = [&](const char* key, const string& a, const string& b) { pv(key, a == b ? "" : "with the names of the environment it should be: " + b, a); };
    VL l1 = gvl(g, n); ap_linexpr1_t e1 = ap_linexpr1_make(en, AP_LINEXPR_SPARSE, 0); ap_linexpr0_free(e1.linexpr0); e1.linexpr0 = build(g, l1); same1("print/linexpr1", printed([&](FILE* f) { ap_linexpr1_fprint(f, &e1); }), printed([&](FILE* f) { ap_linexpr0_fprint(f, e1.linexpr0, M.arr); })); { string t = printed([&](FILE* f) { ap_linexpr1_fprint(f, &e1); }); size_t i = 0; PL p = plin(t, i, M); string w = saysl(p, e1.linexpr0); pv("print/linexpr1/names", w.size() ? w : rest(t, i), t); }
    ap_lincons1_array_t a1 = ap_lincons1_array_make(en, 2); for (int i = 0; i < 2; i++) a1.lincons0_array.p[i] = build(g, gvc(g, n)); same1("print/lincons1_array", printed([&](FILE* f) { ap_lincons1_array_fprint(f, &a1); }), printed([&](FILE* f) { ap_lincons0_array_fprint(f, &a1.lincons0_array, M.arr); })); ap_lincons1_t c1 = ap_lincons1_array_get(&a1, 0); same1("print/lincons1", printed([&](FILE* f) { ap_lincons1_fprint(f, &c1); }), printed([&](FILE* f) { ap_lincons0_fprint(f, &c1.lincons0, M.arr); })); ap_lincons1_array_clear(&a1);
    ap_generator1_array_t g1 = ap_generator1_array_make(en, 2); for (int i = 0; i < 2; i++) g1.generator0_array.p[i] = ap_generator0_make(g.chance(50) ? AP_GEN_RAY : AP_GEN_VERTEX, build(g, gvl(g, n))); string gt = printed([&](FILE* f) { ap_generator1_array_fprint(f, &g1); }); same1("print/generator1_array", gt, printed([&](FILE* f) { ap_generator0_array_fprint(f, &g1.generator0_array, M.arr); }));
    { vector<string> gl = lines(gt); size_t at_ = 0; string w = array_(gl, at_, "generator", "generators", 2, [&](size_t i, const string& x) -> string { const char* k = g1.generator0_array.p[i].gentyp == AP_GEN_RAY ? "RAY:     " : "VERTEX:  "; if (x.compare(0, 9, k)) return "kind"; size_t j = 9; PL p = plin(x, j, M); string y = saysl(p, g1.generator0_array.p[i].linexpr0); return y.size() ? y : rest(x, j); }); pv("print/generator_array", w.size() ? w : at_ == gl.size() ? "" : "more lines", gt); } ap_generator1_t gg = ap_generator1_array_get(&g1, 1); same1("print/generator1", printed([&](FILE* f) { ap_generator1_fprint(f, &gg); }), printed([&](FILE* f) { ap_generator0_fprint(f, &gg.generator0, M.arr); })); ap_generator1_array_clear(&g1);
    ap_texpr1_t t1; t1.env = en; t1.texpr0 = build(g, gtt(g, n, 3, g.below(3))); string tt = printed([&](FILE* f) { ap_texpr1_fprint(f, &t1); }); { size_t i = 0; string why; PTP p = ptree(tt, i, M, 0, why); pv("print/texpr1", !p ? why : !sayst(p, t1.texpr0) ? "another expression" : rest(tt, i), tt); } ap_tcons1_t k1; k1.env = en; k1.tcons0 = ap_tcons0_make(AP_CONS_DISEQ, t1.texpr0, nullptr); same1("print/tcons1", printed([&](FILE* f) { ap_tcons1_fprint(f, &k1); }), tt + " != 0"); ap_tcons0_clear(&k1.tcons0);
    ap_linexpr1_clear(&e1); ap_environment_free(en); } }
}
static Mode M_print("print", m_print);
