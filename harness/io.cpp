// What is printed of an abstract value, and its serialized form, read back and compared with the value.
#include "values.h"
#include "text.h"
#include "envmodel.h"

struct Txt { vector<string> l; size_t at = 0; bool end() const { return at >= l.size(); } string next() { return end() ? "" : l[at++]; } string peek() const { return end() ? "" : l[at]; } };
static bool heading(const string& s, const string& pre, size_t& a, size_t& b, string& tail) { if (s.compare(0, pre.size(), pre)) return false; int n = 0; if (sscanf(s.c_str() + pre.size(), "(%zu,%zu)%n", &a, &b, &n) != 2 || !n) return false; tail = s.substr(pre.size() + n); return true; }
static string dims(const string& what, size_t a, size_t b, const Shape& s) { return a == s.I && b == s.N - s.I ? "" : "the heading of the " + what + " says (" + std::to_string(a) + "," + std::to_string(b) + ") for (" + std::to_string(s.I) + "," + std::to_string(s.N - s.I) + ")"; }
static bool pitv(const string& s, size_t& i, PI& p) { p = pcoef(s, i); return p.ok && p.itv; }
static bool itvtext(const PI& p, ap_interval_t* v) { return denotes(p.a, v->inf) && denotes(p.b, v->sup); }
static bool same(ap_scalar_t* a, ap_scalar_t* b) { X x = xscalar(a), y = xscalar(b); return x.inf == y.inf && (x.inf || x.q == y.q); }
static string tostr(ap_interval_t* v) { return str(xitv(v)); }
static string boxname(const Names& N, size_t d) { if (!N.given) return N.name(d) + " in "; string s = N.v[d]; if (s.size() < 8) s = string(8 - s.size(), ' ') + s; return s + " in "; }
// a printed constraint list of either form (with or without indices) against the constraints of the value
struct Read { bool empty = false, unread = false; vector<PC> c; string why; };
static Read conslines(Txt& t, const Names& N, bool indexed, size_t n) {
  Read r;
  if (indexed) { size_t k = 0; string h = t.peek(); if (h == "empty array of constraints") { t.next(); return r; } if (sscanf(h.c_str(), "array of constraints of size %zu", &k) != 1 || !k) { r.unread = true; r.why = "heading '" + h + "'"; return r; }
    r.why = array_(t.l, t.at, "constraints", "constraints", k, [&](size_t, const string& x) -> string { size_t j = 0; PC p = pcons(x, j, N); if (!p.ok || j != x.size()) return "unreadable (" + p.why + ")"; r.c.push_back(p); return ""; }); r.unread = r.why.size(); return r; }
  while (!t.end()) { size_t j = 0; string x = t.peek(); if (x.find(" 0") == string::npos || x.compare(0, 7, "octagon") == 0) break; t.next(); PC p = pcons(x, j, N); if (!p.ok || j != x.size()) { r.unread = true; r.why = "unreadable (" + p.why + ") '" + x + "'"; return r; } r.c.push_back(p); }
  return r; }
// one component of a value; m is the manager of the component
static Read component(Txt& t, const Names& N, const string& lib, const Shape& s, string& why) {
  Read r; size_t a = 0, b = 0; string tail, h = t.peek(); bool poly = lib == "polka", grid = lib == "grid", ppl = lib == "ppl", oct = lib == "oct";
  string noun = oct ? "octagon" : grid ? "grid" : "polyhedron";
  if (heading(h, "empty " + noun + " of dim ", a, b, tail)) { t.next(); r.empty = true; why = dims("empty " + noun, a, b, s); if (tail.size()) why = "heading followed by '" + tail + "'"; return r; }
  if (oct || poly) { if (!heading(h, noun + " of dim ", a, b, tail) || tail.size()) { r.unread = true; r.why = "heading '" + h + "'"; return r; } t.next(); why = dims(noun, a, b, s); }
  (void)ppl; return conslines(t, N, !oct, s.N); }
static bool speccs(const Read& r, size_t n, bool dbl, vector<LC>& cs) { for (auto& p : r.c) { LC c; if (!lcof(p, n, dbl, c)) return false; cs.push_back(c); } return true; }
// the printed constraints are those listed for the value, one for one
static bool listed(const Man& m, ap_abstract0_t* a, const Read& r) {
  NoLimit nl(m); A0 c(m, ap_abstract0_copy(m, a)); ap_lincons0_array_t l = ap_abstract0_to_lincons_array(m, c); bool ok = l.size == r.c.size();
  for (size_t i = 0; ok && i < l.size; i++) { bool f = false; for (auto& p : r.c) if (saysc(p, &l.p[i]).empty()) f = true; ok = f; }
  ap_lincons0_array_clear(&l); return ok; }
static bool addspec(Poly& P, LC c) { if (!c.e.scalar()) return false; for (auto& x : c.e.c) if (x.lo.inf) return false; if (c.e.k.lo.inf) return c.e.k.lo.inf > 0; if (c.op == AP_CONS_EQMOD && sgn(c.mod) == 0) c.op = AP_CONS_EQ; if (c.op == AP_CONS_EQMOD || c.op == AP_CONS_DISEQ) return false; padd(P, c); return true; }
static string judgetext(Rng& g, const Man& m, ap_abstract0_t* a, const Shape& s, const Names& N, const string& text) {
  const Dom& d = *m.d; Txt t; t.l = lines(text); if (text.empty() || text.back() != '\n') return "the text does not end with a newline"; string why; vector<Read> parts; size_t n = s.N;
  if (d.box) {
    size_t x, y; string tail, h = t.next(); if (!heading(h, "interval of dim ", x, y, tail) || tail.empty() || tail[0] != ':') return "heading '" + h + "'"; if ((why = dims("interval", x, y, s)).size()) return why; A0 c(m, ap_abstract0_copy(m, a)); bool bot = ap_abstract0_is_bottom(m, c);
    if (tail != ":" && tail != ": bottom") return "heading '" + h + "'"; stat(bot ? "text:empty" : "text:box"); if ((tail == ": bottom") != bot) return bot ? "an empty value is not said to be" : "a value that is not empty is said to be";
    if (!bot) { ap_interval_t** b = ap_abstract0_to_box(m, c); for (size_t i = 0; i < n && why.empty(); i++) { string l = t.next(), p = boxname(N, i); size_t j = p.size(); PI v; if (l.compare(0, j, p)) why = "line '" + l + "' for " + N.name(i); else if (!pitv(l, j, v) || j != l.size()) why = "no interval in '" + l + "'"; else if (!itvtext(v, b[i])) why = "'" + l + "' for " + tostr(b[i]); } if (b) ap_interval_array_free(b, n); }
    return why.size() ? why : t.end() ? "" : "more lines than dimensions"; }
  if (d.lib == "pkgrid") { string h = t.next(); if (h.compare(0, 27, "reduced product of library ") || h.substr(27) != m.m->library) return "heading '" + h + "'"; parts.push_back(component(t, N, "polka", s, why)); if (why.size() || parts[0].unread) return why + parts[0].why; parts.push_back(component(t, N, "grid", s, why)); }
  else parts.push_back(component(t, N, d.oct ? "oct" : d.name == "pplgrid" ? "grid" : d.lib == "ppl" ? "ppl" : "polka", s, why));
  if (why.size()) return why; bool empty = false; vector<LC> cs; bool dbl = d.name == "octD"; for (auto& p : parts) { if (p.unread) return p.why; if (p.empty) empty = true; else if (!speccs(p, n, dbl, cs)) return "a dimension that does not exist"; }
  if (!t.end()) return "additional line '" + t.peek() + "'"; stat(empty ? "text:empty" : "text:constraints", 1); stat("text:lines", cs.size());
  if (!d.convex) { // rebuild the value from what is printed
    A0 c(m, ap_abstract0_copy(m, a)), r(m, empty ? ap_abstract0_bottom(m, s.I, n - s.I) : ap_abstract0_top(m, s.I, n - s.I)); if (!empty && cs.size()) { ap_lincons0_array_t l = mk(g, cs); r = A0(m, ap_abstract0_meet_lincons_array(m, true, r.rel(), &l)); ap_lincons0_array_clear(&l); }
    if (!ap_abstract0_is_eq(m, r, c) && m.m->result.flag_exact) return "it says another value than " + describe(m, c); return ""; }
  if (!empty && listed(m, a, parts[0])) { stat("text:listed"); return ""; }
  if (d.name == "octMPFR" && !empty) { stat("text:rounded"); return ""; }
  Obs o = observe(m, a, n); if (!o.has) { stat("text:unobserved"); return ""; } Poly P = puniv(n); if (empty) P = Poly(n, PPL::EMPTY); else for (auto& c : cs) if (!addspec(P, c)) return "";
  if (!(P == o.P)) { if (m.algo && (P.is_empty() || o.P.is_empty())) { stat("text:algorithm"); return ""; } return "it says {" + str(P) + "} but the value is {" + str(o.P) + "}"; } return ""; }
static string judgediff(const Man& m, ap_abstract0_t* a, ap_abstract0_t* b, const Shape& s, const Names& N, const string& text, Rng& g) {
  const Dom& d = *m.d; Txt t; t.l = lines(text); A0 ca(m, ap_abstract0_copy(m, a)), cb(m, ap_abstract0_copy(m, b)); bool ba = ap_abstract0_is_bottom(m, ca), bb = ap_abstract0_is_bottom(m, cb); string why; size_t n = s.N;
  if (d.box) {
    size_t x, y; string tail, h = t.next(); if (!heading(h, "diff of 2 intervals of dim ", x, y, tail)) return "heading '" + h + "'"; if ((why = dims("difference", x, y, s)).size()) return why; bool eq = ap_abstract0_is_eq(m, ca, cb);
    if ((tail == " : none") != eq) return eq ? "no difference, but it is not said" : "there are differences, but none is said"; if (eq) return t.end() ? "" : "additional line"; if (tail.size()) return "heading '" + h + "'"; stat("diff:box");
    auto restof = [&] { string r; while (!t.end()) r += t.next() + "\n"; return r; };
    if (ba) { if (t.next() != "bottom =>") return "it does not say the first value is empty"; stat("diff:empty"); return judgetext(g, m, b, s, N, restof()); }
    if (bb) { if (t.l.back() != "=> bottom") return "it does not say the second value is empty"; t.l.pop_back(); stat("diff:empty"); return judgetext(g, m, a, s, N, restof()); }
    ap_interval_t **va = ap_abstract0_to_box(m, ca), **vb = ap_abstract0_to_box(m, cb);
    for (size_t i = 0; i < n && why.empty(); i++) { string l = t.next(), p = boxname(N, i); size_t j = p.size(); PI v; bool e1 = same(va[i]->inf, vb[i]->inf), e2 = same(va[i]->sup, vb[i]->sup); if (l.compare(0, j, p)) { why = "line '" + l + "' for " + N.name(i); break; } if (e1 && e2) { if (l.substr(j) != "[=,=]") why = "'" + l + "' for equal bounds"; continue; }
      if (!pitv(l, j, v) || !itvtext(v, va[i]) || l.compare(j, 4, " => ")) { why = "the old interval in '" + l + "' is not " + tostr(va[i]); break; } j += 4; PN q;
      if (e1) { if (l.compare(j, 4, "[=, ")) { why = "'" + l + "': the lower bound is equal"; break; } j += 4; } else { if (l[j] != (cmp(xscalar(va[i]->inf), xscalar(vb[i]->inf)) < 0 ? '-' : '+') || l[j + 1] != '[') { why = "'" + l + "': sense of the lower bound"; break; } j += 2; q = pnum(l, j); if (!denotes(q, vb[i]->inf) || l.compare(j, 2, ", ")) { why = "'" + l + "' for a new lower bound of " + tostr(vb[i]); break; } j += 2; }
      if (e2) { if (l.substr(j) != "=]") why = "'" + l + "': the upper bound is equal"; } else { q = pnum(l, j); if (!denotes(q, vb[i]->sup)) { why = "'" + l + "' for a new upper bound of " + tostr(vb[i]); break; } if (l.substr(j) != (cmp(xscalar(va[i]->sup), xscalar(vb[i]->sup)) < 0 ? "]-" : "]+")) why = "'" + l + "': sense of the upper bound"; } }
    if (va) ap_interval_array_free(va, n); if (vb) ap_interval_array_free(vb, n); return why.size() ? why : t.end() ? "" : "more lines than dimensions"; }
  if (d.oct) {
    if (m.algo) { stat("diff:algorithm"); return ""; } bool eq = ap_abstract0_is_eq(m, ca, cb); string h = t.peek(); stat("diff:octagon");
    if (ba && bb) return h == "octagon1 = octagon2 = empty" && t.l.size() == 1 ? "" : "both are empty";
    if (ba || bb) { stat("diff:empty"); if (ba) { if (t.next() != "octagon1 = empty" || t.next() != "octagon2 =") return "the first is empty"; } else if (t.next() != "octagon1 =") return "only the second is empty"; Read r = conslines(t, N, false, n); if (r.unread) return r.why; if (bb && t.next() != "octagon2 = empty") return "the second is empty"; if (!t.end()) return "additional line '" + t.peek() + "'";
      Obs o = observe(m, ba ? b : a, n); if (o.has && d.name != "octMPFR") { Poly P = puniv(n); vector<LC> cs; if (!speccs(r, n, d.name == "octD", cs)) return "unknown dimension"; for (auto& c : cs) if (!addspec(P, c)) return ""; if (s.I ? !P.contains(o.P) : !(P == o.P)) return "it says {" + str(P) + "} but the value is {" + str(o.P) + "}"; } return ""; }
    if (eq != (h == "octagon1 = octagon2")) return eq ? "they are equal" : "they are not equal"; if (eq) return t.l.size() == 1 ? "" : "additional line"; 
    // each line: what the first says / what the second says of the same expression
    Obs oa = observe(m, a, n), ob = observe(m, b, n);
    while (!t.end()) { string l = t.next(); size_t k = l.find(" / "); if (k == string::npos) return "line '" + l + "'"; string part[2] = {l.substr(0, k), l.substr(k + 3)}; LC c[2]; bool inf[2]; for (int i = 0; i < 2; i++) { size_t j = 0; PC p = pcons(part[i], j, N); if (!p.ok || j != part[i].size() || !lcof(p, n, d.name == "octD", c[i]) || p.op != AP_CONS_SUPEQ) return "unreadable '" + part[i] + "'"; inf[i] = p.e.hask && p.e.k.c.ok && (p.e.k.c.a.inf); }
      for (size_t i = 0; i < n; i++) if (!(c[0].e.c[i].lo.q == c[1].e.c[i].lo.q)) return "two expressions in '" + l + "'"; if (part[0] == part[1]) return "no difference in '" + l + "'";
      for (int i = 0; i < 2; i++) { Obs& o = i ? ob : oa; if (inf[i] || !o.has || d.name == "octMPFR") continue; Poly H = puniv(n); if (addspec(H, c[i]) && !H.contains(o.P)) return "'" + part[i] + "' does not hold on {" + str(o.P) + "}"; } }
    return ""; }
  return ""; }

static size_t excs(ap_manager_t* m, ap_exc_t k) { size_t n = 0; for (ap_exclog_t* e = m->result.exclog; e; e = e->tail) if (e->exn == k) n++; return n; }
static A0 value(Rng& g, const Man& m, const Shape& s) { size_t n = s.N; if (g.chance(8)) return A0(m, ap_abstract0_bottom(m, s.I, n - s.I)); vector<Pt> ps = gpts(g, s, g.range(1, 3)); A0 a = build(g, m, s, ps);
  if (g.chance(8) && n) { LC c; c.e = LE(n); c.op = AP_CONS_SUPEQ; c.e.c[g.below(n)] = pt_itv(1); c.e.k = pt_itv(Q(g.range(-6, 2))); LC e = c; for (auto& x : e.e.c) x = iscale(x, -1); e.e.k = pt_itv(-c.e.k.lo.q - 1); vector<LC> cs{c, e}; ap_lincons0_array_t l = mk(g, cs); a = A0(m, ap_abstract0_meet_lincons_array(m, true, a.rel(), &l)); ap_lincons0_array_clear(&l); }
  return a; }

static void m_dprint(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s; s.pr = gprof(g); s.N = g.chance(5) ? g.range(10, 12) : g.range(0, 4); s.I = g.chance(50) ? 0 : g.below(s.N + 1); if (s.N > 4 && !d.box) s.N = 4, s.I = std::min(s.I, s.N); size_t n = s.N;
  Names N = gnames(g, n, g.chance(60)); A0 a = value(g, m, s); string base = d.name + "/"; desc(base + " " + describe(m, a)); Obs before = observe(m, a, n); A0 snap = a.copy(); stat(string("names:") + (N.given ? "given" : "default"));
  nontrivial(R().inputs);
  switch (g.below(6)) {
  case 0: case 1: case 2: { label(base + "fprint"); string t = printed([&](FILE* f) { ap_abstract0_fprint(f, m, a, N.arr); }); pv(base + "fprint", judgetext(g, m, a, s, N, t), t); break; }
  case 3: { label(base + "fprintdiff"); A0 b = g.chance(25) ? a.copy() : value(g, m, s); if (g.chance(30)) b = A0(m, ap_abstract0_join(m, true, b.rel(), a)); desc("and " + describe(m, b)); ap_manager_clear_exclog(m); A0 sb = b.copy(); string t = printed([&](FILE* f) { ap_abstract0_fprintdiff(f, m, a, b, N.arr); });
    if (!d.box && !d.oct) { judged(); stat("diff:none"); if (!excs(m, AP_EXC_NOT_IMPLEMENTED) && d.lib != "pkgrid") violation(base + "fprintdiff", "nothing is printed and no exception raised"); break; }
    pv(base + "fprintdiff", judgediff(m, a, b, s, N, t, g), t); string w = differ(m, b, sb); judged(); if (w.size() && semantic(m, s)) violation(base + "fprintdiff/argument", "the second value changed: " + w); break; }
  case 4: { label(base + "fdump"); string t = printed([&](FILE* f) { ap_abstract0_fdump(f, m, a); }); judged(); if (t.empty() && d.convex) violation(base + "fdump", "nothing is printed"); break; }
  default: { label(base + "fprint1"); Pool P(g); ME e; { vector<int> all; for (size_t i = 0; i < P.v.size(); i++) if (P.names[i].size()) all.push_back(i); if (n > all.size()) break; for (size_t i = all.size(); i > 1; i--) std::swap(all[i - 1], all[g.below(i)]); for (size_t i = 0; i < n; i++) (i < s.I ? e.I : e.R).push_back(all[i]); e = sorted(e); }
    ap_environment_t* env = mkenv(P, e); Names M; M.given = true; M.n = n; for (int v : e.all()) M.v.push_back(P.names[v]); M.set(); ap_abstract1_t x; x.abstract0 = a.copy().rel(); x.env = env; A0 w(m, x.abstract0);
    string t = printed([&](FILE* f) { ap_abstract1_fprint(f, m, &x); }); pv(base + "fprint1", judgetext(g, m, a, s, M, t), t);
    if (d.box || d.oct) { A0 b = value(g, m, s); ap_abstract1_t y; y.abstract0 = b; y.env = env; string u = printed([&](FILE* f) { ap_abstract1_fprintdiff(f, m, &x, &y); }); pv(base + "fprintdiff1", judgediff(m, a, b, s, M, u, g), u); }
    ap_manager_clear_exclog(m); ap_environment_t* o = ap_environment_alloc_empty(); if (n) { ap_abstract1_t y; y.abstract0 = ap_abstract0_top(m, 0, 0); y.env = o; string u = printed([&](FILE* f) { ap_abstract1_fprintdiff(f, m, &x, &y); }); ap_abstract0_free(m, y.abstract0); judged(); if (!excs(m, AP_EXC_INVALID_ARGUMENT)) violation(base + "fprintdiff1/environments", "values over different environments are compared without an exception"); }
    ap_environment_free(o); ap_environment_free(env); break; }
  }
  Obs now = observe(m, a, n); judged(); if (before.has && now.has && semantic(m, s) ? !(now.P == before.P) : !before.P.contains(now.P) && before.has && now.has) violation(base + "print/changed", "printing changed the value from {" + str(before.P) + "} to {" + str(now.P) + "}");
}
static Mode M_dprint("dprint", m_dprint);

// ---------------------------------------------------------------- serialization
static string raw(const Man& m, ap_abstract0_t* a) { return printed([&](FILE* f) { ap_abstract0_fdump(f, m, a); }); }
static void m_serial(Rng& g, long) {
  const Dom& d = gdom(g); Man m(d); Shape s; s.pr = gprof(g); s.N = g.range(0, 5); s.I = g.chance(50) ? 0 : g.below(s.N + 1); string base = d.name + "/"; size_t n = s.N;
  size_t k = d.oct ? g.range(1, 4) : 1; vector<A0> v; vector<Shape> sh; for (size_t i = 0; i < k; i++) { Shape t = s; if (i && g.chance(50)) { t.N = g.range(0, 4); t.I = g.below(t.N + 1); } v.push_back(value(g, m, t)); sh.push_back(t); desc(describe(m, v.back())); }
  nontrivial(R().inputs); ap_manager_clear_exclog(m);
  if (!d.oct) { label(base + "serialize_raw"); ap_membuf_t b = ap_abstract0_serialize_raw(m, v[0]); judged(); if (!excs(m, AP_EXC_NOT_IMPLEMENTED)) violation(base + "serialize_raw", "no exception although there is no serialization"); else if (b.ptr || b.size) violation(base + "serialize_raw", "a buffer of " + std::to_string(b.size) + " bytes although there is no serialization"); free(b.ptr);
    ap_manager_clear_exclog(m); char buf[16] = {0}; size_t z = 0; ap_abstract0_t* r = ap_abstract0_deserialize_raw(m, buf, g.chance(50) ? &z : nullptr); judged(); if (!excs(m, AP_EXC_NOT_IMPLEMENTED)) violation(base + "deserialize_raw", "no exception although there is no serialization"); if (r && r->value) violation(base + "deserialize_raw", "a value comes from nowhere"); if (r) { ap_manager_free(r->man); free(r); }
    stat("unsupported"); return; }
  label(base + "serialize_raw"); string all; vector<size_t> size; vector<string> dumps;
  for (size_t i = 0; i < k; i++) { string d0 = raw(m, v[i]); ap_membuf_t b = ap_abstract0_serialize_raw(m, v[i]); judged(); if (!b.ptr || b.size < 10) { violation(base + "serialize_raw", "no buffer"); free(b.ptr); return; } string d1 = raw(m, v[i]); if (d0 != d1) violation(base + "serialize_raw/argument", "serializing changed the value from " + d0 + " to " + d1); dumps.push_back(d0); all.append((char*)b.ptr, b.size); size.push_back(b.size); stat("bytes", b.size);
    ap_membuf_t b2 = ap_abstract0_serialize_raw(m, v[i]); judged(); if (b2.size != b.size || memcmp(b.ptr, b2.ptr, b.size)) violation(base + "serialize_raw/repeat", "two serializations of the same value differ"); free(b2.ptr); free(b.ptr); }
  if (excs(m, AP_EXC_NOT_IMPLEMENTED) + excs(m, AP_EXC_INVALID_ARGUMENT)) violation(base + "serialize_raw/exception", "a valid call raised an exception");
  // one buffer of the exact size, holding all values one after the other, possibly written by another process
  char* p = (char*)malloc(all.size()); memcpy(p, all.data(), all.size()); Man m2(d); size_t at = 0;
  for (size_t i = 0; i < k; i++) {
    label(base + "deserialize_raw"); size_t z = 12345; bool last = i + 1 == k; ap_abstract0_t* x; char* q = p + at; size_t slack = 0;
    if (last && g.chance(50)) { x = ap_abstract0_deserialize_raw(m2, q, nullptr); z = size[i]; stat("no-size"); } else x = ap_abstract0_deserialize_raw(m2, q, &z); (void)slack; judged(); if (!x || !x->value) { violation(base + "deserialize_raw", "no value"); break; } A0 r(m2, x);
    if (z != size[i]) { violation(base + "deserialize_raw/size", std::to_string(z) + " bytes are said to be read out of " + std::to_string(size[i])); break; } at += z; ap_dimension_t dd = ap_abstract0_dimension(m2, r); judged();
    if (dd.intdim != sh[i].I || dd.intdim + dd.realdim != sh[i].N) { violation(base + "deserialize_raw/dimensions", "dimensions (" + std::to_string(dd.intdim) + "," + std::to_string(dd.realdim) + ")"); continue; }
    ap_membuf_t b3 = ap_abstract0_serialize_raw(m2, r); judged(); if (b3.size != size[i] || memcmp(b3.ptr, p + at - z, z)) violation(base + "deserialize_raw/again", "serializing the value read gives other bytes"); free(b3.ptr);
    string d2 = raw(m2, r); size_t c1 = dumps[i].find("matrix: NULL") , c2 = d2.find("matrix: NULL"); stat(c1 == string::npos ? "state:matrix" : "state:closed"); (void)c2;
    // the matrix written first is read back as it was
    auto first = [](const string& t) { vector<string> l = lines(t); string r; bool in = false; for (auto& x : l) { if (x == "matrix:") { in = true; continue; } if (x == "closed matrix:" && r.empty()) { in = true; continue; } if (x.find("matrix") != string::npos) { if (in && r.size()) break; in = false; continue; } if (in) r += x + "\n"; } return r; };
    if (first(dumps[i]) != first(d2)) violation(base + "deserialize_raw/matrix", "the matrix changed from " + dumps[i] + " to " + d2);
    A0 c1v = v[i].copy(); Obs a = observe(m, v[i], sh[i].N), b = observe(m2, r, sh[i].N); judged(); bool alg = m.algo || m2.algo; if (a.has && b.has && !alg && !(a.P == b.P)) violation(base + "deserialize_raw/value", "the value read is {" + str(b.P) + "} instead of {" + str(a.P) + "}");
    if (!alg) { A0 back(m, ap_abstract0_copy(m, c1v)); A0 other(m2, ap_abstract0_copy(m2, r)); judged(); if (ap_abstract0_is_bottom(m, back) != ap_abstract0_is_bottom(m2, other)) violation(base + "deserialize_raw/empty", "emptiness changed"); }
    nontrivial(R().inputs); cover(m2, "deserialize_raw", r); }
  free(p);
  // a buffer written with another representation of numbers is refused
  if (g.chance(30)) { const Dom* o = nullptr; for (auto& x : doms()) if (x.oct && x.lib != d.lib && x.lib.compare(3, 2, "Rl") && x.lib.compare(3, 2, "Il") && ("," + g_domfilter() + ",").find("," + x.name + ",") != string::npos && g.chance(30)) { o = &x; break; } if (o) { Man mo(*o); Shape t = s; A0 y(mo, ap_abstract0_top(mo, t.I, t.N - t.I)); if (g.chance(50)) y = A0(mo, ap_abstract0_bottom(mo, t.I, t.N - t.I)); ap_membuf_t b = ap_abstract0_serialize_raw(mo, y); label(base + "deserialize_raw/foreign"); ap_manager_clear_exclog(m); size_t z = 0; ap_abstract0_t* x = ap_abstract0_deserialize_raw(m, b.ptr, &z); judged(); stat("foreign:" + o->name);
      if (!excs(m, AP_EXC_INVALID_ARGUMENT)) violation(base + "deserialize_raw/foreign", "a buffer of " + o->name + " is accepted"); if (x && x->value) ap_abstract0_free(m, x); else if (x) { ap_manager_free(x->man); free(x); } free(b.ptr); } }
}
static Mode M_serial("serial", m_serial);

int main(int argc, char** argv) { return harness_main(argc, argv); }
