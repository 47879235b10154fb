// Fixed reproductions of the known findings (known_findings.txt), one mode each, so that every run of a
// check states whether the finding is still there. A reproduction only reports when the defect shows.
#include "dom.h"

// projection in newpolka leaves the generators flagged as sorted (caught by its own assertions)
static void k_forget(Rng& g, long c) {
  const Dom& d = domn(c % 2 ? "polkas" : "polka"); Man m(d);
  label(d.name + "/forget");
  Rng f(4711);
  for (int i = 0; i < 3000; i++) {
    Shape s = gshape(f); if (s.N < 2) continue;
    vector<Pt> ps = gpts(f, s, 2);
    A0 a = build(f, m, s, ps); ap_dim_t td[2] = {0, 1}; label(d.name + "/forget");
    A0 r(m, ap_abstract0_forget_array(m, false, a, td, 2, true));
  }
  judged();
}
static Mode M1("k_forget", k_forget);

// strict constraints against loose polyhedra: pk_sat_lincons tests a constraint over integer dimensions (or none) as
// strict although it was tightened, and takes rays on the boundary for points of the boundary
static void k_strict(Rng& g, long c) {
  const Dom& d = domn(c % 2 ? "polkaeq" : "polka"); Man m(d); bool ray = c == 2;
  string key = d.name + "/sat_lincons/real/false-exact/" + (ray ? "strict-on-ray" : "strict-on-integers"); label(d.name + "/sat_lincons");
  LC k; k.op = AP_CONS_SUPEQ; k.e = LE(2); k.e.c[0] = pt_itv(1); // x0 >= 0, x1 >= 0
  LC l = k; l.e.c[0] = pt_itv(0); l.e.c[1] = pt_itv(1);
  vector<LC> cs; if (ray) cs = {k, l};
  ap_lincons0_array_t a = mk(g, cs); A0 v(m, ap_abstract0_of_lincons_array(m, 0, 2, &a)); ap_lincons0_array_clear(&a);
  LC t; t.op = AP_CONS_SUP; t.e = LE(2); t.e.k = pt_itv(2); if (ray) t.e.c[0] = pt_itv(1); // 2 > 0, x0 + 2 > 0... saturated by the ray along x1 only
  desc(d.name + " sat_lincons a=" + describe(m, v) + " cons " + str(t));
  ap_lincons0_t x = mk(g, t); bool r = ap_abstract0_sat_lincons(m, v, &x); bool ex = m.m->result.flag_exact; ap_lincons0_clear(&x); judged();
  if (!r && ex) violation(key, "sat_lincons answers false exactly but the constraint holds");
}
static void k_strict_w(Rng& g, long) {
  const Dom& d = domn("polka"); Man m(d); label("polka/widening_threshold");
  LC k; k.op = AP_CONS_SUPEQ; k.e = LE(2); k.e.c[0] = pt_itv(1); LC l = k; l.e.c[0] = pt_itv(0); l.e.c[1] = pt_itv(1);
  LC one = k; one.e.k = pt_itv(1); // x0 >= -1
  LC t; t.op = AP_CONS_SUP; t.e = LE(2); t.e.k = pt_itv(2); t.e.c[0] = pt_itv(1); // x0 + 2 > 0
  auto mkv = [&](vector<LC> cs) { ap_lincons0_array_t a = mk(g, cs); A0 v(m, ap_abstract0_of_lincons_array(m, 0, 2, &a)); ap_lincons0_array_clear(&a); return v; };
  A0 a = mkv({k, l}), b = mkv({one, l}); ap_lincons0_array_t th = mk(g, vector<LC>{t}); A0 r(m, ap_abstract0_widening_threshold(m, a, b, &th));
  ap_lincons0_array_clear(&th); judged();
  t.op = AP_CONS_SUPEQ; ap_lincons0_t x = mk(g, t); bool kept = ap_abstract0_sat_lincons(m, r, &x); ap_lincons0_clear(&x);
  desc("polka widening_threshold a=" + describe(m, a) + " b=" + describe(m, b));
  if (!kept) violation("polka/widening_threshold/real/threshold/strict-on-ray", "threshold x0+2 > 0 holds in both arguments but not in the result " + describe(m, r));
}
static Mode M3("k_strict_w", k_strict_w);
static Mode M2("k_strict", k_strict);

int main(int argc, char** argv) { return harness_main(argc, argv); }
