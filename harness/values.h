// What can be observed of abstract values, and comparison of their meanings.
#pragma once
#include "ops.h"

// What can be observed of a value: its region (when the constraints describe it), and the value itself.
struct Obs { bool has = false; Poly P{0, PPL::UNIVERSE}; };
static Obs observe(const Man& m, ap_abstract0_t* a, size_t n) { Obs o; bool md = false; o.P = puniv(n); o.has = m.d->convex && gamma(m, a, o.P, &md) && !md; return o; }
static bool semantic(const Man& m, const Shape& s) { return m.d->exactnum && s.I == 0 && !m.algo; } // representation does not influence results
// do two values mean the same?
static string differ(const Man& m, ap_abstract0_t* x, ap_abstract0_t* y) {
  ap_dimension_t dx = ap_abstract0_dimension(m, x), dy = ap_abstract0_dimension(m, y);
  if (dx.intdim != dy.intdim || dx.realdim != dy.realdim) return "dimensions differ";
  size_t n = dx.intdim + dx.realdim; Obs a = observe(m, x, n), b = observe(m, y, n);
  if (a.has && b.has) { if (a.P == b.P) return ""; return "{" + str(a.P) + "} against {" + str(b.P) + "}"; }
  if (a.has != b.has && m.d->convex) return "only one has plain constraints";
  A0 cx(m, ap_abstract0_copy(m, x)), cy(m, ap_abstract0_copy(m, y));
  if (!ap_abstract0_is_eq(m, cx, cy) && m.m->result.flag_exact) return "is_eq denies it: " + describe(m, x) + " against " + describe(m, y);
  return ""; }
// a query must leave the meaning alone
static void unchanged(Rng& g, const Man& m, ap_abstract0_t* a, const Obs& before, const A0& snap, const Shape& s, const vector<Pt>& ps, const string& key, const string& what) {
  Obs now = observe(m, a, s.N); judged();
  if (before.has && now.has) {
    if (semantic(m, s) ? !(now.P == before.P) : !before.P.contains(now.P)) { violation(key, what + " changed from {" + str(before.P) + "} to {" + str(now.P) + "}"); return; } }
  else if (!m.d->convex && !(A0(m, ap_abstract0_copy(m, a)).a && (ap_abstract0_is_eq(m, A0(m, ap_abstract0_copy(m, a)), snap.copy()) || !m.m->result.flag_exact))) { violation(key, what + " changed to " + describe(m, a)); return; }
  for (auto& p : ps) if (!check_in(g, m, a, p, s.I, key, what, s.pr, 1)) return; }
