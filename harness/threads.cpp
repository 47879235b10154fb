// Threads that share nothing must not influence each other. Each thread has its own manager, values, environments and
// expressions and runs a deterministic script; its transcript must be the one the same script gives on its own.
// With ThreadSanitizer any unordered access to memory of the library shared by two threads is reported as well.
#include "ops.h"
#include "tsanwrap.h"
#include <thread>
#include <atomic>
#include <time.h>

// what the running threads are doing, for the statistics of overlap; relaxed so that no ordering is introduced
static const int MAXT = 8;
static std::atomic<int> g_now[MAXT];
static std::atomic<int> g_ready;
static const char* const OPS[] = {"", "build", "substitute_linexpr", "assign_linexpr", "substitute_texpr", "assign_texpr", "meet", "join", "meet_array", "join_array", "meet_lincons", "meet_tcons", "add_ray", "forget", "add_dimensions",
  "remove_dimensions", "permute_dimensions", "expand", "fold", "closure", "widening", "widening_threshold", "is_bottom", "is_top", "is_eq", "is_leq", "sat_interval", "sat_lincons", "sat_tcons", "is_dimension_unconstrained",
  "bound_dimension", "bound_linexpr", "bound_texpr", "to_box", "to_lincons", "to_tcons", "to_generator", "fprint", "fdump", "environment", "expression", "refused", "serialize", "minimize", "fprintdiff"};
static int opid(const string& s) { for (size_t i = 0; i < sizeof OPS / sizeof *OPS; i++) if (s == OPS[i]) return i; return 1; }

struct Ctx { int me = -1; bool conc = false; Rng* jit = nullptr; };
static thread_local Ctx g_ctx;
static void enter(const string& op) {
  Ctx& c = g_ctx; if (!c.conc) return; int id = opid(op);
  g_now[c.me].store(id, std::memory_order_relaxed);
  for (int t = 0; t < MAXT; t++) if (t != c.me) { int o = g_now[t].load(std::memory_order_relaxed); if (o) { string a = OPS[std::min(id, o)], b = OPS[std::max(id, o)]; stat("overlap:" + op); nontrivial(a + "|" + b); } }
  int j = c.jit->below(100);
  if (j < 10) std::this_thread::yield(); else if (j < 13) { struct timespec ts = {0, (long)c.jit->below(30000)}; nanosleep(&ts, nullptr); }
}
static string tmp(std::function<void(FILE*)> f) { char* b = nullptr; size_t n = 0; FILE* s = open_memstream(&b, &n); f(s); fclose(s); string r(b, n); free(b); return r; }
static void say(const string& s) { R().inputs += s + "\n"; }
static string excs(ap_manager_t* m) { string r; for (ap_exclog_t* e = m->result.exclog; e; e = e->tail) r += string("(") + ap_name_of_exception[e->exn] + " " + ap_name_of_funid[e->funid] + " " + (e->msg ? e->msg : "") + ")"; ap_manager_clear_exclog(m); return r; }
static string flags(ap_manager_t* m) { return string(m->result.flag_exact ? "e" : "-") + (m->result.flag_best ? "b" : "-"); }

// environments, expressions over names, values over environments
static void envwork(Rng& g, const Man& m) {
  enter("environment");
  vector<string> names; for (int i = 0; i < 8; i++) names.push_back("v" + std::to_string((i * 5 + g.below(3) * 40) % 97) + string(1, 'a' + i));
  auto mkenv = [&](size_t k) { vector<size_t> ix = {0, 1, 2, 3, 4, 5, 6, 7}; for (size_t i = 8; i > 1; i--) std::swap(ix[i - 1], ix[g.below(i)]); vector<ap_var_t> I, Rl; for (size_t i = 0; i < k; i++) (ix[i] % 3 == 0 ? I : Rl).push_back((ap_var_t)names[ix[i]].c_str()); return ap_environment_alloc(I.data(), I.size(), Rl.data(), Rl.size()); };
  auto text = [&](ap_environment_t* e) { return tmp([&](FILE* f) { ap_environment_fdump(f, e); }); };
  auto clean = [](string s) { size_t p; while ((p = s.find("count")) != string::npos) { size_t q = s.find('\n', p); s.erase(p, q == string::npos ? string::npos : q - p); } return s; };
  ap_environment_t *a = mkenv(g.range(1, 4)), *b = mkenv(g.range(1, 4));
  ap_dimchange_t *d1 = nullptr, *d2 = nullptr; ap_environment_t* l = ap_environment_lce(a, b, &d1, &d2);
  say("env " + clean(text(a)) + clean(text(b)) + (l ? clean(text(l)) : string("no lce")) + std::to_string(ap_environment_is_leq(a, b)) + std::to_string(ap_environment_compare(a, b)));
  if (d1) ap_dimchange_free(d1); if (d2) ap_dimchange_free(d2);
  if (l) { enter("expression");
    size_t n = l->intdim + l->realdim; ap_linexpr1_t le = ap_linexpr1_make(l, AP_LINEXPR_DENSE, n); ap_coeff_set_scalar_double(&le.linexpr0->cst, 1.5); ap_texpr1_t* t = ap_texpr1_from_linexpr1(&le); ap_linexpr1_clear(&le);
    ap_texpr1_t* v = ap_texpr1_var(l, ap_environment_var_of_dim(l, g.below(n))); ap_texpr1_t* c = ap_texpr1_cst_scalar_double(l, g.range(-9, 9) / 4.0);
    ap_texpr1_t* s = ap_texpr1_binop((ap_texpr_op_t)g.pick(vector<long>{AP_TEXPR_ADD, AP_TEXPR_SUB, AP_TEXPR_MUL}), ap_texpr1_copy(v), c, (ap_texpr_rtype_t)g.pick(vector<long>{AP_RTYPE_REAL, AP_RTYPE_DOUBLE, AP_RTYPE_INT}), AP_RDIR_RND);
    say("expr " + tmp([&](FILE* f) { ap_texpr1_fprint(f, s); }) + " depth " + std::to_string(ap_texpr0_depth(s->texpr0)));
    ap_abstract1_t x = ap_abstract1_top(m, l); ap_var_t w = ap_environment_var_of_dim(l, g.below(n));
    x = ap_abstract1_assign_texpr(m, true, &x, w, s, nullptr); say(flags(m) + " " + tmp([&](FILE* f) { ap_abstract1_fprint(f, m, &x); }));
    ap_interval_t* iv = ap_abstract1_bound_texpr(m, &x, s); say("in " + dump(iv)); ap_interval_free(iv);
    ap_tcons1_array_t tc = ap_tcons1_array_make(l, 1); ap_tcons1_t k = ap_tcons1_make(AP_CONS_SUPEQ, s, ap_scalar_alloc()); ap_tcons1_array_set(&tc, 0, &k); s = nullptr;
    x = ap_abstract1_meet_tcons_array(m, true, &x, &tc); say(flags(m) + " " + tmp([&](FILE* f) { ap_abstract1_fprint(f, m, &x); }));
    ap_tcons1_array_clear(&tc); ap_abstract1_t y = ap_abstract1_change_environment(m, false, &x, b, false); say(tmp([&](FILE* f) { ap_abstract1_fprint(f, m, &y); })); ap_abstract1_clear(m, &y); ap_abstract1_clear(m, &x);
    ap_texpr1_free(v); ap_texpr1_free(t); ap_environment_free(l); }
  ap_environment_free(a); ap_environment_free(b); say(excs(m));
}
static void script(uint64_t seed, const Dom& d) {
  Rng g(seed); fesetround(FE_TONEAREST);
  enter("build"); Man m(d); Shape s = gshape(g, 3); say(d.name + " " + std::to_string(s.I) + " " + std::to_string(s.N));
  vector<Pt> ps = gpts(g, s, g.range(1, 2)), p2 = gpts(g, s, 1);
  int steps = g.range(5, 10); A0 a, b, c;
  auto fresh = [&] { enter("build"); a = build(g, m, s, ps, 1); b = build(g, m, s, p2, 1); c = b.copy(); };
  fresh();
  for (int i = 0; i < steps; i++) {
    int k = g.below(20);
    if (k == 0) { envwork(g, m); continue; }
    if (k == 1) { enter("refused"); A0 z(m, ap_abstract0_top(m, s.I + 1, s.N - s.I)); A0 r(m, ap_abstract0_meet(m, false, a, z)); say("refused " + excs(m)); continue; }
    if (k == 2) { enter("minimize"); ap_abstract0_minimize(m, a); ap_abstract0_canonicalize(m, b); say(std::to_string(ap_abstract0_size(m, a)) + " " + std::to_string(ap_abstract0_hash(m, b))); continue; }
    if (k == 3 && d.oct) { enter("serialize"); ap_membuf_t w = ap_abstract0_serialize_raw(m, a); if (w.ptr) { size_t n = 0; A0 r(m, ap_abstract0_deserialize_raw(m, w.ptr, &n)); say("serialized " + std::to_string(w.size) + " " + std::to_string(hstr(string((char*)w.ptr, w.size))) + " " + describe(m, r)); free(w.ptr); } continue; }
    if (k == 4 && (d.oct || d.box)) { enter("fprintdiff"); say(tmp([&](FILE* f) { ap_abstract0_fprintdiff(f, m, a, b, nullptr); })); continue; }
    Op o = gop(g, m, s, b, c, ps); enter(o.name); R().inputs += o.name + " ";
    if (o.query) say(o.q(a) + " " + flags(m));
    else { A0 r(m, g.chance(50) ? o.f(false, a) : o.f(true, a.copy().rel())); say(describe(m, r) + " " + flags(m)); if (!o.isdim) { a = std::move(r); if (ap_abstract0_is_bottom(m, a)) { o.done(); o.done = [] {}; fresh(); } } }
    say(excs(m)); o.done();
  }
  a.clear(); b.clear(); c.clear();
}
static void run(Report& r, int me, bool conc, uint64_t seed, uint64_t jseed, const Dom& d, int total) {
  Rng jit(jseed); g_tls() = &r; g_ctx = Ctx{me, conc, &jit};
  if (conc) { g_ready.fetch_add(1, std::memory_order_relaxed); while (g_ready.load(std::memory_order_relaxed) < total) std::this_thread::yield(); }
  script(seed, d);
  if (conc) g_now[me].store(0, std::memory_order_relaxed);
  mpfr_free_cache(); g_tls() = nullptr;
}
static void m_threads(Rng& g, long) {
  gdom(g); for (auto& d : doms()) if (("," + g_domfilter() + ",").find("," + d.name + ",") != string::npos) libhandle(d.lib);
  int n = g.range(2, 6); bool samedom = g.chance(40), same = g.chance(30); const Dom* d0 = &gdom(g); uint64_t s0 = g.next();
  struct T { Report conc, alone; uint64_t seed, j; const Dom* d; }; vector<std::unique_ptr<T>> ts;
  for (int i = 0; i < n; i++) { auto t = std::make_unique<T>(); t->d = samedom || same ? d0 : &gdom(g); t->seed = same ? s0 : g.next(); t->j = g.next(); t->conc.cur = t->alone.cur = R().cur; t->conc.salt = t->alone.salt = R().salt; ts.push_back(std::move(t)); }
  string ds; for (auto& t : ts) ds += t->d->name + " "; desc(std::to_string(n) + " threads: " + ds + (same ? "(same script)" : "")); label(ds); stat("threads:" + std::to_string(n));
  g_ready.store(0, std::memory_order_relaxed);
  { vector<std::thread> th; for (int i = 0; i < n; i++) th.emplace_back([&, i] { run(ts[i]->conc, i, true, ts[i]->seed, ts[i]->j, *ts[i]->d, n); }); for (auto& t : th) t.join(); }
  for (int i = 0; i < n; i++) { std::thread t([&] { run(ts[i]->alone, i, false, ts[i]->seed, ts[i]->j, *ts[i]->d, n); }); t.join(); }
  for (int i = 0; i < n; i++) { T& t = *ts[i]; judged();
    for (auto& kv : t.conc.stats) R().stats[kv.first] += kv.second; for (auto& s : t.conc.samples) nontrivial(s); R().hashes.insert(t.conc.hashes.begin(), t.conc.hashes.end());
    if (R().verbose) fprintf(stderr, "== thread %d (%s)\n%s", i, t.d->name.c_str(), t.conc.inputs.c_str());
    if (t.conc.inputs != t.alone.inputs) { std::stringstream x(t.conc.inputs), y(t.alone.inputs); string a, b; while (std::getline(x, a) && std::getline(y, b) && a == b) {} violation(t.d->name + "/interference", "a thread among " + std::to_string(n) + " observed: " + a.substr(0, 500) + " but on its own: " + b.substr(0, 500)); }
    if (same && i && t.conc.inputs != ts[0]->conc.inputs) violation(t.d->name + "/nondeterminism", "two threads running the same script observed different results"); }
}
static Mode M_th("threads", m_threads);
int main(int argc, char** argv) { return harness_main(argc, argv); }
