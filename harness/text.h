// Reading back the text the library prints. The reader is written from the documented notation only.
#pragma once
#include "core.h"
#include <cfenv>

// ---------------------------------------------------------------- numbers
struct PN { bool ok = false; int inf = 0; Q dec, dbl; bool frac_ = false, flt = false; }; // the exact decimal value, and the double closest to it
static string str(const PN& p) { return !p.ok ? "?" : p.inf ? (p.inf > 0 ? "+oo" : "-oo") : str(p.dec); }
static Q pow10q(long e) { Z z; mpz_ui_pow_ui(z.get_mpz_t(), 10, std::labs(e)); return e >= 0 ? Q(z) : Q(Z(1), z); }
static PN pnum(const string& s, size_t& i) { // [+-]oo | [-]digits[/digits] | [-]digits[.digits][e[+-]digits]
  PN r; size_t j = i; bool neg = false;
  if (s.compare(j, 3, "+oo") == 0 || s.compare(j, 3, "-oo") == 0) { r.ok = true; r.inf = s[j] == '+' ? 1 : -1; i = j + 3; return r; }
  if (j < s.size() && s[j] == '-') { neg = true; j++; }
  size_t d0 = j; string dig; long sc = 0; while (j < s.size() && isdigit(s[j])) dig += s[j++];
  if (j < s.size() && s[j] == '/' && j > d0) { size_t k = ++j; string den; while (j < s.size() && isdigit(s[j])) den += s[j++]; if (j == k || Z(den, 10) == 0) return r; r.dec = Q(Z(dig, 10), Z(den, 10)); r.dec.canonicalize(); r.frac_ = true; }
  else {
    if (j < s.size() && s[j] == '.') { j++; r.flt = true; while (j < s.size() && isdigit(s[j])) { dig += s[j++]; sc--; } }
    if (dig.empty()) return r;
    if (j + 1 < s.size() && (s[j] == 'e' || s[j] == 'E' || s[j] == '@') && (isdigit(s[j + 1]) || (j + 2 < s.size() && (s[j + 1] == '+' || s[j + 1] == '-') && isdigit(s[j + 2])))) { j++; bool en = false; if (s[j] == '+' || s[j] == '-') en = s[j++] == '-'; string ex; while (j < s.size() && isdigit(s[j])) ex += s[j++]; long e = atol(ex.c_str()); sc += en ? -e : e; r.flt = true; }
    r.dec = Q(Z(dig, 10)) * pow10q(sc); r.dec.canonicalize(); }
  if (neg) r.dec = -r.dec; r.ok = true; r.dbl = r.dec;
  if (!r.frac_) { int rm = fegetround(); fesetround(FE_TONEAREST); double d = strtod(s.substr(i, j - i).c_str(), nullptr); fesetround(rm); if (std::isfinite(d)) r.dbl = qd(d); }
  i = j; return r; }
// the text denotes the value: a rational exactly, a floating-point number to the printed precision
static bool denotes(const PN& p, ap_scalar_t* s) {
  X v = xscalar(s); if (!p.ok) return false; if (p.inf || v.inf) return p.inf == v.inf; if (p.dec == v.q) return true;
  if (s->discr == AP_SCALAR_MPQ) return false; if (s->discr == AP_SCALAR_DOUBLE) return p.dbl == v.q;
  if (dbl_exact(v.q)) return p.dbl == v.q; Q e = abs(p.dec - v.q); return p.dec >= v.q && e <= abs(v.q) * pow10q(-18); }
struct PI { bool ok = false, itv = false; PN a, b; };
static PI pcoef(const string& s, size_t& i) { PI r; if (i < s.size() && s[i] == '[') { size_t j = i + 1; r.itv = true; r.a = pnum(s, j); if (!r.a.ok || j >= s.size() || s[j] != ',') return r; j++; r.b = pnum(s, j); if (!r.b.ok || j >= s.size() || s[j] != ']') return r; i = j + 1; r.ok = true; return r; } r.a = pnum(s, i); r.ok = r.a.ok; return r; }
static bool denotes(const PI& p, ap_coeff_t* c) { if (!p.ok || p.itv != (c->discr == AP_COEFF_INTERVAL)) return false; return p.itv ? denotes(p.a, c->val.interval->inf) && denotes(p.b, c->val.interval->sup) : denotes(p.a, c->val.scalar); }
static X px(const PN& p, bool dbl) { return p.inf ? X(p.inf, 0) : X(dbl ? p.dbl : p.dec); }

struct Names { vector<string> v; bool given = false; size_t n = 0; char** arr = nullptr; vector<char*> p;
  void set() { for (auto& s : v) p.push_back((char*)s.c_str()); p.push_back(nullptr); arr = given ? p.data() : nullptr; }
  string name(size_t d) const { return given ? v[d] : "x" + std::to_string(d); }
  int match(const string& s, size_t& i) const { // longest name
    if (!given) { if (i >= s.size() || s[i] != 'x') return -1; size_t j = i + 1, k = j; while (j < s.size() && isdigit(s[j])) j++; if (j == k) return -1; int d = atoi(s.substr(k, j - k).c_str()); i = j; return d; }
    int best = -1; size_t l = 0; for (size_t d = 0; d < v.size(); d++) if (v[d].size() > l && s.compare(i, v[d].size(), v[d]) == 0) { best = d; l = v[d].size(); } if (best >= 0) i += l; return best; } };
// a linear expression as printed: signed terms
struct PT_ { int sign = 1; bool unit = false; PI c; };
struct PL { bool ok = false; std::map<int, PT_> t; bool hask = false; PT_ k; string why; };
static PL plin(const string& s, size_t& i, const Names& N) {
  PL r; bool first = true; size_t j = i;
  for (;;) {
    PT_ t; if (first) { if (s[j] == '-') { t.sign = -1; j++; } } else if (s.compare(j, 3, " + ") == 0) j += 3; else if (s.compare(j, 3, " - ") == 0) { t.sign = -1; j += 3; } else break;
    t.c = pcoef(s, j); if (!t.c.ok) t.unit = true; int d = N.match(s, j);
    if (d < 0) { if (t.unit) { r.why = "no number nor name at '" + s.substr(j, 12) + "'"; return r; } if (r.hask) { r.why = "two constants"; return r; } r.hask = true; r.k = t; }
    else { if (r.hask || r.t.count(d)) { r.why = "a term is repeated or follows the constant"; return r; } r.t[d] = t; }
    first = false; }
  i = j; r.ok = true; return r; }
static bool termis(const PT_& t, ap_coeff_t* c) {
  if (t.unit) { if (c->discr != AP_COEFF_SCALAR) return false; X v = xscalar(c->val.scalar); return !v.inf && v.q == t.sign; }
  PI p = t.c; if (t.sign < 0) { if (p.itv) return false; p.a.inf = -p.a.inf; p.a.dec = -p.a.dec; p.a.dbl = -p.a.dbl; if (!p.a.frac_ && c->discr == AP_COEFF_SCALAR && c->val.scalar->discr == AP_SCALAR_MPFR && !p.a.inf) { X v = xscalar(c->val.scalar); if (v.inf) return false; if (p.a.dbl == v.q || p.a.dec == v.q) return true; return abs(p.a.dec - v.q) <= abs(v.q) * pow10q(-18); } }
  return denotes(p, c); }
static bool zeroc_(ap_coeff_t* c) { Itv v = xcoeff(c); return is_pt(v) && sgn(v.lo.q) == 0; }
// "" when the printed expression is the given one
static string saysl(const PL& p, ap_linexpr0_t* e) {
  if (!p.ok) return "unreadable: " + p.why; size_t seen = 0;
  auto one = [&](int d, ap_coeff_t* c) -> string { auto it = p.t.find(d); if (zeroc_(c)) return it == p.t.end() ? "" : "term " + std::to_string(d) + " is printed but zero"; if (it == p.t.end()) return "the term of x" + std::to_string(d) + " is missing"; seen++; return termis(it->second, c) ? "" : "the coefficient of x" + std::to_string(d) + " is another one"; };
  for (size_t i = 0; i < e->size; i++) { string w; if (e->discr == AP_LINEXPR_DENSE) w = one(i, &e->p.coeff[i]); else if (e->p.linterm[i].dim != AP_DIM_MAX) w = one(e->p.linterm[i].dim, &e->p.linterm[i].coeff); if (w.size()) return w; }
  if (seen != p.t.size()) return "it has additional terms";
  if (zeroc_(&e->cst)) { if (!p.hask) return p.t.empty() ? "the constant is missing" : ""; } else if (!p.hask) return "the constant is missing";
  return termis(p.k, &e->cst) ? "" : "the constant is another one"; }
struct PC { bool ok = false; PL e; ap_constyp_t op = AP_CONS_SUPEQ; bool mod = false; PN m; string why; };
static bool pop(const string& s, size_t& i, ap_constyp_t& op, bool& mod, PN& m) {
  static const std::pair<const char*, ap_constyp_t> t[] = {{" >= 0", AP_CONS_SUPEQ}, {" > 0", AP_CONS_SUP}, {" = 0", AP_CONS_EQ}, {" != 0", AP_CONS_DISEQ}};
  for (auto& x : t) if (s.compare(i, strlen(x.first), x.first) == 0) { i += strlen(x.first); op = x.second; mod = false; if (s.compare(i, 5, " mod ") == 0) { if (op != AP_CONS_EQ) return false; i += 5; m = pnum(s, i); if (!m.ok) return false; mod = true; op = AP_CONS_EQMOD; } return true; } return false; }
static PC pcons(const string& s, size_t& i, const Names& N) { PC r; r.e = plin(s, i, N); if (!r.e.ok) { r.why = r.e.why; return r; } if (!pop(s, i, r.op, r.mod, r.m)) { r.why = "no operator at '" + s.substr(i, 12) + "'"; return r; } r.ok = true; return r; }
static string saysc(const PC& p, ap_lincons0_t* c) { if (!p.ok) return "unreadable: " + p.why; if (p.op != c->constyp) return "another operator"; if (p.mod && !denotes(p.m, c->scalar)) return "another modulo"; return saysl(p.e, c->linexpr0); }
// the constraint as a specification over exact numbers
static bool lcof(const PC& p, size_t n, bool dbl, LC& c) { c.e = LE(n); c.op = p.op; auto cf = [&](const PT_& t) { Itv v = t.unit ? pt_itv(1) : t.c.itv ? mk_itv(px(t.c.a, dbl), px(t.c.b, dbl)) : mk_itv(px(t.c.a, dbl), px(t.c.a, dbl)); return t.sign < 0 ? iscale(v, -1) : v; };
  for (auto& t : p.e.t) { if (t.first < 0 || (size_t)t.first >= n) return false; c.e.c[t.first] = cf(t.second); } if (p.e.hask) c.e.k = cf(p.e.k); if (p.mod) { if (p.m.inf) return false; c.mod = p.m.dec; } return true; }

// ---------------------------------------------------------------- trees
struct PTree { TP t; string why; PI c; std::shared_ptr<PTree> a, b; int kind = 0, dim = 0; ap_texpr_op_t op = AP_TEXPR_ADD; bool sfx = false; int ty = 0, dir = 0; };
typedef std::shared_ptr<PTree> PTP;
static int prec_(ap_texpr_op_t op) { static const int p[] = {1, 1, 2, 2, 2, 3, 4, 5, 5}; return p[op]; }
static bool psfx(const string& s, size_t& i, PTree& t) { t.sfx = false; t.ty = AP_RTYPE_REAL; if (i >= s.size() || s[i] != '_') return true; size_t j = i + 1; static const char ty[] = "rifdlq"; const char* q = j < s.size() ? strchr(ty, s[j]) : nullptr; if (!q || s[j] == 'r') return false; t.ty = q - ty; j++; if (s[j] != ',') return false; j++; if (s.compare(j, 3, "+oo") == 0) { t.dir = AP_RDIR_UP; j += 3; } else if (s.compare(j, 3, "-oo") == 0) { t.dir = AP_RDIR_DOWN; j += 3; } else if (s[j] == 'n') { t.dir = AP_RDIR_NEAREST; j++; } else if (s[j] == '0') { t.dir = AP_RDIR_ZERO; j++; } else if (s[j] == '?') { t.dir = AP_RDIR_RND; j++; } else return false; t.sfx = true; i = j; return true; }
static PTP ptree(const string& s, size_t& i, const Names& N, int minp, string& why);
static PTP pprim(const string& s, size_t& i, const Names& N, string& why) {
  PTP r(new PTree);
  if (i < s.size() && s[i] == '(') { i++; r = ptree(s, i, N, 0, why); if (!r) return r; if (i >= s.size() || s[i] != ')') { why = "no closing parenthesis at '" + s.substr(i, 12) + "'"; return nullptr; } i++; return r; }
  size_t j = i; r->c = pcoef(s, j); if (r->c.ok) { r->kind = 0; i = j; return r; }
  static const std::pair<const char*, ap_texpr_op_t> u[] = {{"-", AP_TEXPR_NEG}, {"cast", AP_TEXPR_CAST}, {"sqrt", AP_TEXPR_SQRT}};
  for (auto& x : u) if (s.compare(i, strlen(x.first), x.first) == 0 && (x.second == AP_TEXPR_NEG || strchr("_(", s[i + strlen(x.first)]))) { i += strlen(x.first); r->kind = 2; r->op = x.second; if (!psfx(s, i, *r)) { why = "bad rounding at '" + s.substr(i, 12) + "'"; return nullptr; } r->a = pprim(s, i, N, why); return r->a ? r : nullptr; }
  int d = N.match(s, i); if (d >= 0) { r->kind = 1; r->dim = d; return r; }
  why = "nothing known at '" + s.substr(i, 12) + "'"; return nullptr; }
static PTP ptree(const string& s, size_t& i, const Names& N, int minp, string& why) { // binary operators between blanks, all associating to the left
  PTP l = pprim(s, i, N, why); if (!l) return l;
  for (;;) { if (i + 2 >= s.size() || s[i] != ' ') return l; static const char ops[] = "+-*/%^"; const char* q = strchr(ops, s[i + 1]); if (!q) return l; ap_texpr_op_t op = (ap_texpr_op_t)(q - ops); if (prec_(op) < minp) return l; size_t j = i + 2; PTP n(new PTree); n->kind = 2; n->op = op; if (!psfx(s, j, *n)) { why = "bad rounding at '" + s.substr(j, 12) + "'"; return nullptr; } if (j >= s.size() || s[j] != ' ') { return l; } i = j + 1; n->a = l; n->b = ptree(s, i, N, prec_(op) + 1, why); if (!n->b) return nullptr; l = n; } }
static bool sayst(const PTP& p, ap_texpr0_t* e) {
  if (!p || !e) return false; if (p->kind == 0) return e->discr == AP_TEXPR_CST && denotes(p->c, &e->val.cst); if (p->kind == 1) return e->discr == AP_TEXPR_DIM && (int)e->val.dim == p->dim; if (e->discr != AP_TEXPR_NODE) return false;
  auto* n = e->val.node; if (n->op != p->op || !sayst(p->a, n->exprA) || (n->exprB != nullptr) != (p->b != nullptr) || (p->b && !sayst(p->b, n->exprB))) return false;
  if (n->op == AP_TEXPR_NEG || n->op == AP_TEXPR_MOD) return true; /* never rounded */ if (n->type == AP_RTYPE_REAL) return !p->sfx; return p->sfx && (int)n->type == p->ty && (int)n->dir == p->dir; }

template <class F> static string printed(F f) { char* b = nullptr; size_t z = 0; FILE* o = open_memstream(&b, &z); f(o); fclose(o); string r(b, z); free(b); return r; }
static vector<string> lines(const string& s) { vector<string> v; string c; for (char x : s) if (x == '\n') { v.push_back(c); c.clear(); } else c += x; if (c.size()) v.push_back(c); return v; }
// an array: a heading with the number of elements, then "index: element" lines
static string array_(const vector<string>& l, size_t& at, const string& what, const string& whats, size_t n, std::function<string(size_t, const string&)> each) {
  if (at >= l.size()) return "no heading"; string h = l[at++]; if (!n) return h == "empty array of " + whats ? "" : "heading '" + h + "'"; if (h != "array of " + what + " of size " + std::to_string(n)) return "heading '" + h + "'";
  for (size_t i = 0; i < n; i++) { if (at >= l.size()) return "a line is missing"; const string& s = l[at++]; size_t j = 0; while (j < s.size() && s[j] == ' ') j++; string ix = std::to_string(i); if (s.compare(j, ix.size() + 2, ix + ": ")) return "index in '" + s + "'"; string w = each(i, s.substr(j + ix.size() + 2)); if (w.size()) return w + " in '" + s + "'"; }
  return ""; }
// ---------------------------------------------------------------- helpers
static Names gnames(Rng& g, size_t n, bool given) { Names N; N.given = given; N.n = n; static const char* p[] = {"x", "y", "z", "a", "ab", "abc", "x1", "x10", "x2", "u_v", "v'", "k", "K", "wxyz", "longername", "i", "j", "t", "b1", "b12", "m", "q", "r", "s", "d", "f", "g", "h", "l", "p", "A", "B", "C", "D"}; if (given) { vector<string> v(std::begin(p), std::end(p)); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); v.resize(n); N.v = v; } N.set(); return N; }
static void pv(const string& key, const string& why, const string& text) { judged(); if (why.size()) violation(key, why + "; printed: " + text); }
static string rest(const string& s, size_t i) { return i == s.size() ? "" : "followed by '" + s.substr(i) + "'"; }
