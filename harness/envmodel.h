// Environments as ordered lists of names.
#pragma once
#include "core.h"
#include "ap_global1.h"

// ------------------------------------------------------------------ variables
// variables are ranks in a sorted pool of names; with the custom operations they are reference-counted objects
struct Vobj { int id; long refs; };
static long g_live;
static int vo_cmp(ap_var_t a, ap_var_t b) { int x = ((Vobj*)a)->id, y = ((Vobj*)b)->id; return x > y ? -5 : x < y ? 3 : 0; } // reversed on purpose
static int vo_hash(ap_var_t a) { return ((Vobj*)a)->id * 7; }
static ap_var_t vo_copy(ap_var_t a) { ((Vobj*)a)->refs++; g_live++; return a; }
static void vo_free(ap_var_t a) { ((Vobj*)a)->refs--; g_live--; }
static char* vo_str(ap_var_t a) { char b[40]; snprintf(b, sizeof b, "v%d", ((Vobj*)a)->id); return strdup(b); }
static ap_var_operations_t vo_ops = {vo_cmp, vo_hash, vo_copy, vo_free, vo_str};
struct Pool { vector<ap_var_t> v; vector<string> names; bool custom; vector<Vobj> objs; ap_var_operations_t* old;
  Pool(Rng& g) { custom = g.chance(15); old = ap_var_operations;
    if (custom) { ap_var_operations = &vo_ops; g_live = 0; objs.resize(14); for (int i = 0; i < 14; i++) objs[i] = {i * 3 + 1, 0}; for (int i = 13; i >= 0; i--) { v.push_back(&objs[i]); names.push_back("v" + std::to_string(objs[i].id)); } }
    else { static const char* n[] = {"", "A", "Z", "a", "a1", "a10", "a2", "aa", "b", "ba", "x", "x_y", "y", "~~"}; for (auto s : n) { v.push_back((ap_var_t)s); names.push_back(s); } } }
  ~Pool() { ap_var_operations = old; }
  int rank(ap_var_t x) const { for (size_t i = 0; i < v.size(); i++) if (!ap_var_operations->compare(v[i], x)) return i; return -1; }
};
struct ME { vector<int> I, R; size_t size() const { return I.size() + R.size(); } vector<int> all() const { vector<int> a = I; a.insert(a.end(), R.begin(), R.end()); return a; }
  bool operator==(const ME& o) const { return I == o.I && R == o.R; } bool has(int v) const { return isint(v) || isreal(v); }
  bool isint(int v) const { return std::find(I.begin(), I.end(), v) != I.end(); } bool isreal(int v) const { return std::find(R.begin(), R.end(), v) != R.end(); } };
static string str(const Pool& P, const ME& m) { string s = "{"; for (int i : m.I) s += P.names[i] + ":int "; for (int i : m.R) s += P.names[i] + ":real "; return s + "}"; }
static string str(const Pool& P, const vector<int>& m) { string s = "["; for (int i : m) s += (i < 0 ? string("new") : P.names[i]) + " "; return s + "]"; }
static ME sorted(ME m) { std::sort(m.I.begin(), m.I.end()); std::sort(m.R.begin(), m.R.end()); return m; }
static bool wellformed(const ME& m) { vector<int> a = m.all(); std::sort(a.begin(), a.end()); return std::adjacent_find(a.begin(), a.end()) == a.end(); }
static ME rdenv(const Pool& P, ap_environment_t* e) { ME m; for (size_t i = 0; i < e->intdim + e->realdim; i++) (i < e->intdim ? m.I : m.R).push_back(P.rank(ap_environment_var_of_dim(e, i))); return m; }
static ME gme(Rng& g, const Pool& P, int maxn, int bias = 50) { ME m; int n = g.below(maxn + 1); for (int k = 0; k < n; k++) { int v = g.below(P.v.size()); if (m.has(v)) continue; (g.chance(bias) ? m.I : m.R).push_back(v); } return m; } // unsorted
struct VA { vector<ap_var_t> p; VA(const Pool& P, const vector<int>& v) { for (int i : v) p.push_back(P.v[i]); p.push_back(nullptr); } size_t n() const { return p.size() - 1; } ap_var_t* d() { return p.data(); } bool same(const Pool& P, const vector<int>& v) const { for (size_t i = 0; i < v.size(); i++) if (p[i] != P.v[v[i]]) return false; return true; } };
static ap_environment_t* mkenv(const Pool& P, const ME& m) { VA a(P, m.I), b(P, m.R); return ap_environment_alloc(a.d(), a.n(), b.d(), b.n()); }
// insert new dimensions (-1) as a dimchange says
static bool addnames(const ME& m, ap_dimchange_t* dc, vector<int>& out) { vector<int> v = m.all(); size_t n = dc->intdim + dc->realdim, k = 0; out.clear();
  for (size_t i = 0; i < n; i++) { if (dc->dim[i] > v.size()) return false; if (i && i != dc->intdim && dc->dim[i] < dc->dim[i - 1]) return false; if (i < dc->intdim ? dc->dim[i] > m.I.size() : dc->dim[i] < m.I.size()) return false; }
  for (size_t i = 0; i <= v.size(); i++) { while (k < n && dc->dim[k] == i && (k < dc->intdim || i >= m.I.size())) { out.push_back(-1); k++; } if (i < v.size()) out.push_back(v[i]); }
  return k == n; }
static bool embeds(const vector<int>& with, const vector<int>& target) { if (with.size() != target.size()) return false; for (size_t i = 0; i < with.size(); i++) if (with[i] >= 0 && with[i] != target[i]) return false; return true; }
static vector<int> minus(const vector<int>& a, const vector<int>& b) { vector<int> r; for (int x : a) if (std::find(b.begin(), b.end(), x) == b.end()) r.push_back(x); return r; }
static ME lce(const ME& a, const ME& b) { ME r = a; for (int x : b.I) if (!r.isint(x)) r.I.push_back(x); for (int x : b.R) if (!r.isreal(x)) r.R.push_back(x); return sorted(r); }
static bool sub(const ME& a, const ME& b) { for (int x : a.I) if (!b.isint(x)) return false; for (int x : a.R) if (!b.isreal(x)) return false; return true; }
