// Workloads for the data structures of libapron: environments, linear and tree expressions, constraints, generators,
// coefficients. Each is judged against a small model written here.
#include "envmodel.h"
#include "ap_global0.h"
#include "ap_global1.h"

static void m_env(Rng& g, long) {
  Pool P(g); if (P.custom) desc("custom variables");
  auto fresh = [&](int maxn) { for (;;) { ME m = gme(g, P, maxn); if (wellformed(m)) return m; } };
  ME ma = fresh(6), mb = g.chance(50) ? fresh(6) : ME(); if (mb.size() == 0 && g.chance(80)) { // related environments
    mb = ma; auto drop = [&](vector<int>& v) { for (size_t i = 0; i < v.size();) if (g.chance(30)) v.erase(v.begin() + i); else i++; }; if (g.chance(60)) drop(mb.I); if (g.chance(60)) drop(mb.R);
    if (g.chance(60)) for (int k = g.range(1, 3); k > 0; k--) { int v = g.below(P.v.size()); if (!mb.has(v) && (g.chance(15) || !ma.has(v))) (g.chance(50) ? mb.I : mb.R).push_back(v); } }
  ME sa = sorted(ma), sb = sorted(mb); desc("a=" + str(P, sa) + " b=" + str(P, sb)); label("environment/alloc");
  ap_environment_t *a = mkenv(P, ma), *b = mkenv(P, mb);
  require(a && b, "environment/alloc/valid", "a valid list of variables was refused"); if (!a || !b) return;
  auto is = [&](const string& key, ap_environment_t* e, const ME& m) { judged(); if (!e) { violation(key, "NULL instead of " + str(P, m)); return false; } ME r = rdenv(P, e); if (!(r == m)) { violation(key, "got " + str(P, r) + " instead of " + str(P, m)); return false; }
    if (e->count < 1) violation(key + "/count", "reference count " + std::to_string(e->count)); return true; };
  is("environment/alloc", a, sa); is("environment/alloc", b, sb); size_t ca = a->count, cb = b->count;
  if (ma.size() > 1) nontrivial(R().inputs);
  switch (g.below(12)) {
  case 0: { // alloc, valid or not
    ME m = gme(g, P, 5); if (g.chance(40) && m.size()) { vector<int> al = m.all(); (g.chance(50) ? m.I : m.R).push_back(al[g.below(al.size())]); } label("environment/alloc"); desc("alloc " + str(P, m)); VA x(P, m.I), y(P, m.R);
    ap_environment_t* e = ap_environment_alloc(m.I.empty() && g.chance(50) ? nullptr : x.d(), x.n(), m.R.empty() && g.chance(50) ? nullptr : y.d(), y.n()); judged();
    if (!wellformed(m)) { if (e) violation("environment/alloc/duplicate", "duplicates accepted: " + str(P, m)); } else is("environment/alloc", e, sorted(m));
    require(x.same(P, m.I) && y.same(P, m.R), "environment/alloc/arguments", "the arrays of the caller changed"); if (e) ap_environment_free(e); break; }
  case 1: { // add
    ME m = gme(g, P, 4); if (g.chance(20) && sa.size()) { vector<int> al = sa.all(); (g.chance(50) ? m.I : m.R).push_back(al[g.below(al.size())]); } desc("add " + str(P, m)); bool perm = g.chance(60); label(perm ? "environment/add_perm" : "environment/add");
    VA x(P, m.I), y(P, m.R); ap_dimperm_t pm; pm.dim = nullptr; pm.size = 0; ap_environment_t* e = perm ? ap_environment_add_perm(a, x.d(), x.n(), y.d(), y.n(), &pm) : ap_environment_add(a, x.d(), x.n(), y.d(), y.n());
    ME t = sa; t.I.insert(t.I.end(), m.I.begin(), m.I.end()); t.R.insert(t.R.end(), m.R.begin(), m.R.end()); string key = perm ? "environment/add_perm" : "environment/add"; judged();
    if (!wellformed(t)) { if (e) violation(key + "/duplicate", "duplicates accepted"); if (perm && pm.dim) violation(key + "/perm-null", "permutation not NULL on failure"); }
    else if (is(key, e, sorted(t)) && perm) { vector<int> from = t.all(), to = sorted(t).all(); judged(); bool ok = pm.size == from.size(); for (size_t i = 0; ok && i < from.size(); i++) ok = pm.dim[i] < to.size() && to[pm.dim[i]] == from[i]; if (!ok) violation(key + "/permutation", "the permutation does not bring " + str(P, from) + " to " + str(P, to)); }
    require(x.same(P, m.I) && y.same(P, m.R), key + "/arguments", "the arrays of the caller changed"); if (pm.dim) ap_dimperm_clear(&pm); if (e) ap_environment_free(e); break; }
  case 2: { // remove
    vector<int> al = sa.all(), rem; for (int v : al) if (g.chance(40)) rem.push_back(v); for (size_t i = rem.size(); i > 1; i--) std::swap(rem[i - 1], rem[g.below(i)]); if (g.chance(20)) rem.insert(rem.begin() + g.below(rem.size() + 1), (int)g.below(P.v.size()));
    desc("remove " + str(P, rem)); label("environment/remove"); VA x(P, rem); ap_environment_t* e = ap_environment_remove(a, x.d(), x.n()); judged();
    bool valid = true; { vector<int> c = rem; std::sort(c.begin(), c.end()); if (std::adjacent_find(c.begin(), c.end()) != c.end()) valid = false; for (int v : rem) if (!sa.has(v)) valid = false; }
    if (!valid) { if (e) violation("environment/remove/unknown", "removing " + str(P, rem) + " was accepted"); } else { ME t; t.I = minus(sa.I, rem); t.R = minus(sa.R, rem); is("environment/remove", e, t); }
    require(x.same(P, rem), "environment/remove/arguments", "the array of the caller changed"); if (e) ap_environment_free(e); break; }
  case 3: { // lookup
    label("environment/dim_of_var"); vector<int> al = sa.all();
    for (size_t v = 0; v < P.v.size(); v++) { ap_dim_t d = ap_environment_dim_of_var(a, P.v[v]); auto it = std::find(al.begin(), al.end(), (int)v); ap_dim_t x = it == al.end() ? AP_DIM_MAX : it - al.begin(); judged();
      if (d != x) violation("environment/dim_of_var", P.names[v] + " has dimension " + std::to_string(d) + " instead of " + std::to_string(x)); if (ap_environment_mem_var(a, P.v[v]) != (x != AP_DIM_MAX)) violation("environment/mem_var", P.names[v]); }
    require(ap_environment_var_of_dim(a, sa.size()) == nullptr, "environment/var_of_dim/out", "a variable beyond the last dimension");
    ap_environment_name_of_dim_t* nm = ap_environment_name_of_dim_alloc(a); bool ok = nm->size == al.size(); for (size_t i = 0; ok && i < al.size(); i++) ok = P.names[al[i]] == nm->p[i]; require(ok, "environment/name_of_dim", "wrong names"); ap_environment_name_of_dim_free(nm); break; }
  case 4: { // comparisons
    label("environment/compare"); bool eq = sa == sb, le = sub(sa, sb), ge = sub(sb, sa), compat = wellformed(lce(sa, sb)); int x = !compat ? -2 : eq ? 0 : le ? -1 : ge ? 1 : 2, c = ap_environment_compare(a, b);
    require(ap_environment_is_eq(a, b) == eq, "environment/is_eq", "is_eq should be " + std::to_string(eq)); require(ap_environment_is_leq(a, b) == le, "environment/is_leq", "is_leq should be " + std::to_string(le));
    require(c == x, "environment/compare", "compare is " + std::to_string(c) + " instead of " + std::to_string(x)); ap_environment_t* a2 = mkenv(P, sa); require(ap_environment_is_eq(a, a2) && ap_environment_is_leq(a, a2) && !ap_environment_compare(a, a2), "environment/is_eq/rebuilt", "an environment with the same variables differs");
    require(ap_environment_hash(a) == ap_environment_hash(a2), "environment/hash", "equal environments with different hashes"); ap_environment_free(a2); break; }
  case 5: { // dimchange
    label("environment/dimchange"); ME mc = sa; if (g.chance(60)) { mc = lce(sa, sb); if (!wellformed(mc)) mc = sb; } else mc = sb; ap_environment_t* c = mkenv(P, mc); ap_dimchange_t* dc = ap_environment_dimchange(a, c); judged(); bool le = sub(sa, mc); desc("to " + str(P, mc));
    if (!le) { if (dc) violation("environment/dimchange/not-included", "a transformation although the second environment misses variables"); }
    else if (!dc) violation("environment/dimchange", "NULL although the second environment includes the first"); else { vector<int> o; if (dc->intdim != mc.I.size() - sa.I.size() || dc->realdim != mc.R.size() - sa.R.size() || !addnames(sa, dc, o) || !embeds(o, mc.all())) violation("environment/dimchange/meaning", "adding dimensions leads to " + str(P, o)); }
    if (dc) ap_dimchange_free(dc); ap_environment_free(c); break; }
  case 6: { // dimchange2
    label("environment/dimchange2"); ap_dimchange2_t* dc = ap_environment_dimchange2(a, b); ME l = lce(sa, sb); judged();
    if (!wellformed(l)) { if (dc) violation("environment/dimchange2/incompatible", "incompatible environments accepted"); } else if (!dc) violation("environment/dimchange2", "NULL on compatible environments");
    else { vector<int> o = sa.all(); bool ok = true; if (dc->add) ok = addnames(sa, dc->add, o) && embeds(o, l.all()); else ok = sa == l; vector<int> al = l.all(), rest; if (ok) { o = al; if (dc->remove) { size_t n = dc->remove->intdim + dc->remove->realdim; for (size_t i = 0; i < n; i++) if (dc->remove->dim[i] >= al.size() || (i && dc->remove->dim[i] <= dc->remove->dim[i - 1]) || (dc->remove->dim[i] < l.I.size()) != (i < dc->remove->intdim)) ok = false;
        for (size_t i = 0; i < al.size(); i++) { bool r = false; for (size_t k = 0; k < n; k++) if (dc->remove->dim[k] == i) r = true; if (!r) rest.push_back(al[i]); } } else rest = al; if (ok) ok = rest == sb.all(); } if (!ok) violation("environment/dimchange2/meaning", "the transformation leads to " + str(P, rest) + " through " + str(P, o)); }
    if (dc) ap_dimchange2_free(dc); break; }
  case 7: case 8: { // least common environment
    label("environment/lce"); ap_dimchange_t *d1 = nullptr, *d2 = nullptr; ap_environment_t* e = ap_environment_lce(a, b, &d1, &d2); ME l = lce(sa, sb); judged();
    if (!wellformed(l)) { if (e) violation("environment/lce/incompatible", "incompatible environments have a common one"); }
    else if (is("environment/lce", e, l)) { judged(); for (int k = 0; k < 2; k++) { ap_dimchange_t* d = k ? d2 : d1; const ME& m = k ? sb : sa; if (!d) { if (!(m == l)) violation("environment/lce/transformation", "no transformation for " + str(P, m)); continue; } vector<int> o; if (m == l || d->intdim != l.I.size() - m.I.size() || !addnames(m, d, o) || !embeds(o, l.all())) violation("environment/lce/transformation", "transformation of " + str(P, m) + " leads to " + str(P, o)); } }
    if (e) ap_environment_free(e); if (d1) ap_dimchange_free(d1); if (d2) ap_dimchange_free(d2); break; }
  case 9: { // least common environment of an array
    label("environment/lce_array"); size_t n = g.range(1, 4); vector<ap_environment_t*> t, own; vector<ME> ms; for (size_t i = 0; i < n; i++) { int r = g.below(10); if (r < 4) { t.push_back(a); ms.push_back(sa); } else if (r < 8) { t.push_back(b); ms.push_back(sb); } else { ME m = r == 8 ? sa : sorted(fresh(4)); ap_environment_t* e = mkenv(P, m); own.push_back(e); t.push_back(e); ms.push_back(m); } }
    string ds; for (auto& m : ms) ds += str(P, m); desc("lce " + ds); vector<ap_environment_t*> keep = t; ME l = ms[0]; for (auto& m : ms) l = lce(l, m); bool alleq = true; for (auto& m : ms) if (!(m == ms[0])) alleq = false;
    ap_dimchange_t** dc = nullptr; ap_environment_t* e = ap_environment_lce_array(t.data(), n, &dc); judged(); require(t == keep, "environment/lce_array/arguments", "the array of the caller changed");
    if (!wellformed(l)) { if (e) violation("environment/lce_array/incompatible", "incompatible environments have a common one"); if (dc) violation("environment/lce_array/incompatible-transformation", "transformations although there is no result"); }
    else if (is("environment/lce_array", e, l) && t == keep) { judged(); if (alleq && dc) { bool any = false; for (size_t i = 0; i < n; i++) if (dc[i]) any = true; if (any) violation("environment/lce_array/transformation", "transformations although all environments are equal"); } else if (!alleq && !dc) violation("environment/lce_array/transformation", "no transformation");
      if (dc && !alleq) for (size_t i = 0; i < n; i++) { if (!dc[i]) { if (!(ms[i] == l)) violation("environment/lce_array/transformation", "no transformation for " + str(P, ms[i])); continue; } vector<int> o; if (dc[i]->intdim != l.I.size() - ms[i].I.size() || !addnames(ms[i], dc[i], o) || !embeds(o, l.all())) violation("environment/lce_array/transformation", "transformation of " + str(P, ms[i]) + " leads to " + str(P, o)); } }
    if (dc) { for (size_t i = 0; i < n; i++) if (dc[i]) ap_dimchange_free(dc[i]); free(dc); } if (e) ap_environment_free(e); for (auto x : own) { require(x->count == 1, "environment/lce_array/count", "reference count of an argument is " + std::to_string(x->count)); ap_environment_free(x); } break; }
  default: { // rename
    label("environment/rename"); vector<int> al = sa.all(), f, t; for (int v : al) if (g.chance(45)) f.push_back(v); for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[g.below(i)]);
    if (f.size() > 1 && g.chance(30)) { t = f; std::rotate(t.begin(), t.begin() + 1, t.end()); } else for (size_t i = 0; i < f.size(); i++) t.push_back(g.below(P.v.size()));
    if (g.chance(12)) { f.push_back(g.below(P.v.size())); t.push_back(g.below(P.v.size())); } if (f.size() && g.chance(6)) { f.push_back(f[0]); t.push_back(g.below(P.v.size())); }
    desc("rename " + str(P, f) + " to " + str(P, t)); bool valid = true, dup = false; for (size_t i = 0; i < f.size(); i++) { if (!sa.has(f[i])) valid = false; for (size_t j = 0; j < i; j++) if (f[i] == f[j]) dup = true; }
    auto ren = [&](int v) { for (size_t i = 0; i < f.size(); i++) if (f[i] == v) return t[i]; return v; }; ME m; for (int v : sa.I) m.I.push_back(ren(v)); for (int v : sa.R) m.R.push_back(ren(v)); if (!wellformed(m)) valid = false;
    VA x(P, f), y(P, t); ap_dimperm_t pm; pm.dim = (ap_dim_t*)(intptr_t)1; pm.size = 99; ap_environment_t* e = ap_environment_rename(a, x.d(), y.d(), f.size(), &pm); judged();
    if (dup) stat("rename-duplicate"); // which of two renamings of the same variable applies is not specified
    else if (!valid) { if (e) violation("environment/rename/invalid", "invalid renaming accepted"); if (pm.dim) violation("environment/rename/perm-null", "permutation not NULL on failure"); }
    else if (is("environment/rename", e, sorted(m))) { vector<int> from = m.all(), to = sorted(m).all(); judged(); bool ok = pm.size == from.size(); for (size_t i = 0; ok && i < from.size(); i++) ok = pm.dim[i] < to.size() && to[pm.dim[i]] == from[i]; if (!ok) violation("environment/rename/permutation", "the permutation does not bring " + str(P, from) + " to " + str(P, to)); }
    require(x.same(P, f) && y.same(P, t), "environment/rename/arguments", "the arrays of the caller changed"); if (pm.dim && pm.dim != (ap_dim_t*)(intptr_t)1) ap_dimperm_clear(&pm); if (e) ap_environment_free(e); break; }
  }
  is("environment/arguments", a, sa); is("environment/arguments", b, sb);
  require(a->count == ca && b->count == cb, "environment/count", "reference counts of the arguments changed to " + std::to_string(a->count) + " and " + std::to_string(b->count));
  ap_environment_t* k = ap_environment_copy(a); ap_environment_free(a); is("environment/copy", k, sa); ap_environment_free(k); ap_environment_free(b);
  if (P.custom) require(g_live == 0, "environment/variables-leak", std::to_string(g_live) + " copies of variables are still alive");
}
static Mode M_env("env", m_env);

int main(int argc, char** argv) { return harness_main(argc, argv); }
