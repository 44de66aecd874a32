// C18: a client that recomputes over a growing or rolling history.
// C22: calls with bad arguments between good ones, over live streams.
#include "exec.h"
#include "direct.h"
#include "cdlref.h"
#include "refs.h"
#include <limits>
#include <memory>

namespace {
const vector<double>& series(const Fn* f, const Direct* d, const Feed& fd, size_t i) { // what a user would feed into the i-th input of the direct call
  switch (d->in[i]) { case 'O': return fd.o; case 'H': return fd.h; case 'L': return fd.l; case 'C': return fd.c; case 'V': return fd.v; case 'I': return fd.oi; }
  int k = 0; for (size_t j = 0; j < i; j++) if (d->in[j] == 'R') k++;
  if (f->name == "MAVP" && k == 1) return fd.per; if (f->name == "ACOS" || f->name == "ASIN") return fd.sgn;
  return k == 1 ? fd.h : fd.c;
}
vector<double> full_opts(const Fn* f, const string& s) { vector<double> o = parse_opts(s); for (size_t i = o.size(); i < f->opt.size(); i++) o.push_back(f->opt[i]->defaultValue); return o; }
struct Bufs { // exactly sized inputs and outputs of one call
  vector<vector<double>> d; vector<vector<float>> f; vector<vector<double>> ro; vector<vector<int>> io; vector<const void*> in; vector<void*> out; double rs; int is; const char* kinds;
  void outputs(const Direct* D, size_t n, long sent) { kinds = D->out; rs = -2.75e-209 * (1 + sent % 91); is = -770000 - (int)(sent % 91); size_t k = strlen(kinds); ro.assign(k, {}); io.assign(k, {}); out.clear(); for (size_t i = 0; i < k; i++) { if (kinds[i] == 'R') { vector<double>(n, rs).swap(ro[i]); out.push_back(n ? (void*)ro[i].data() : (void*)&rs); } else { vector<int>(n, is).swap(io[i]); out.push_back(n ? (void*)io[i].data() : (void*)&is); } } }
  double get(size_t k, size_t i) const { return kinds[k] == 'R' ? ro[k][i] : (double)io[k][i]; }
  bool clean(size_t k, size_t i) const { return kinds[k] == 'R' ? biteq(ro[k][i], rs) : io[k][i] == is; }
  bool all_clean(size_t from = 0) const { for (size_t k = 0; kinds[k]; k++) for (size_t i = from; i < (kinds[k] == 'R' ? ro[k].size() : io[k].size()); i++) if (!clean(k, i)) return false; return true; }
};
string who(const Fn* f, const string& o, bool single) { return (single ? "S_" : "") + f->name + "(" + o + ")"; }
bool close_enough(double a, double b) { if (biteq(a, b)) return true; if (!std::isfinite(a) || !std::isfinite(b)) return a == b; return fabs(a - b) <= 1e-6 * (1 + fabs(b)); }
}
// ---------------------------------------------------------------- C18
// Functions whose value at a bar is a function of the bars in its look-back window only (whatever the first requested bar).
static bool window_only(const Fn* f, const vector<double>& o) {
  if (f->fi->flags & TA_FUNC_FLG_UNST_PER) return false;
  static const std::set<string> cum = {"AD", "ADOSC", "OBV", "PVT", "SAR", "SAREXT", "NVI", "PVI", "DEMA", "TEMA", "TRIX", "MACD", "MACDFIX", "MACDEXT", "MAMA"};
  if (cum.count(f->name)) return false;
  for (size_t i = 0; i < f->opt.size(); i++) if (f->opt[i]->type == TA_OptInput_IntegerList) { int t = o[i] == TA_INTEGER_DEFAULT ? (int)f->opt[i]->defaultValue : (int)o[i]; if (t != TA_MAType_SMA && t != TA_MAType_WMA && t != TA_MAType_TRIMA) return false; }
  return true;
}
static bool index_output(const Fn* f, size_t) { return f->name == "MAXINDEX" || f->name == "MININDEX" || f->name == "MINMAXINDEX"; }
void run_ranges(const Scenario& sc) {
  Exec ex; ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply();
  std::map<string, vector<vector<double>>> memo; // fn|opts|feed|precision|first bar -> values delivered from that bar on
  for (auto& o : sc.ops) {
    if (o.name != "roll") continue;
    const Fn* f = fn_by_name(o.gets("fn")); const Direct* d = f ? direct_by_name(f->name.c_str()) : nullptr; auto fit = ex.feeds.find((int)o.geti("feed")); if (!d || fit == ex.feeds.end()) continue; const Feed& fd = fit->second;
    string os = o.gets("o", "-"); vector<double> opt = full_opts(f, os); bool single = o.geti("single"); string me = who(f, os, single); const char* fn = f->name.c_str(); size_t no = strlen(d->out), ni = strlen(d->in);
    int L = d->lookback(opt.data()); if (L < 0 || L > 100000) continue;
    // the client keeps the bars k.. of the feed, up to `tail` bars beyond the requested end, and asks for a..e
    int n = fd.n, e = (int)std::min<long>(std::max(0L, o.geti("e", n - 1)), n - 1), a = (int)std::min<long>(std::max(0L, o.geti("a")), e), k = ex.cfg.compat ? 0 : (int)std::min<long>(std::max(0L, o.geti("k")), std::max(0, a - L)), tail = (int)o.geti("tail") % 64;
    int seff = std::max(a, k + L), cnt = std::max(0, e - seff + 1), len = e - k + 1 + tail;
    // far: the kept bars lie far into an array, up to index 2^31 - 1000 (only the bars the call may read exist)
    long far = o.geti("far"); if (ex.cfg.compat || a - k < L || e - k < a - k) far = 0; far = std::max(0L, std::min(far, (long)INT_MAX - 1000 - (e - k)));
    auto call = [&](Bufs& b, int k, int a, int e, int seff, int len, uint64_t js, double eps, int& ob, int& on, long far = 0) {
      Rng r(js + 5); b.d.assign(ni, {}); b.f.assign(ni, {}); b.in.clear();
      for (size_t i = 0; i < ni; i++) { const vector<double>& s = series(f, d, fd, i); vector<double> v(len);
        for (int j = 0; j < len; j++) { int bar = k + j; bool used = bar >= (ex.cfg.compat ? 0 : seff - L) && bar <= e; // Metastock averages start at the first bar there is
          if (used || !js) v[j] = bar < fd.n ? s[bar] : 1.5; else switch (r.below(8)) { case 0: v[j] = NAN; break; case 1: v[j] = INFINITY; break; case 2: v[j] = -INFINITY; break; case 3: v[j] = 0; break; case 4: v[j] = 1e30 * (r.unit() - .5); break; case 5: v[j] = -1; break; default: v[j] = s[r.below(fd.n)]; }
          if (eps && bar < fd.n) v[j] *= 1 + eps * (2 * r.unit() - 1); }
        if (single) { b.f[i].assign(v.begin(), v.end()); b.in.push_back(b.f[i].data()); } else { b.d[i].swap(v); b.in.push_back(b.d[i].data()); }
        b.in.back() = (const void*)((uintptr_t)b.in.back() - (uintptr_t)far * (single ? sizeof(float) : sizeof(double))); }
      b.outputs(d, (size_t)std::max(0, e - seff + 1), js + 3); ob = on = -99; A.begin_op(); scrub_stack(js * 77 + ex.junk);
      return (single ? d->sbatch : d->batch)((int)(a - k + far), (int)(e - k + far), b.in.data(), opt.data(), &ob, &on, b.out.data()); };
    // the whole history in one call is the first entry of the record
    string base = f->name + "|" + os + "|" + std::to_string(o.geti("feed")) + (single ? "|f|" : "|d|");
    string ck = base + std::to_string(L);
    if (!memo.count(ck)) { Bufs b; int ob, on; int rc = call(b, 0, 0, n - 1, L, n, 0, 0, ob, on); if (rc) { LOG.add("rc %d", rc); continue; }
      if (on != std::max(0, n - L) || (on && ob != L)) viol("frame", fn, "%s over bars 0..%d delivers %d values from bar %d, the look-back is %d", me.c_str(), n - 1, on, ob, L);
      auto& m = memo[ck]; m.resize(no); for (size_t q = 0; q < no; q++) for (int i = 0; i < on; i++) m[q].push_back(b.get(q, i)); }
    Bufs b; int ob, on; int rc = call(b, k, a, e, seff, len, (uint64_t)o.geti("js"), 0, ob, on, far); SIM_BARS += len; STATS["probe.recomputed"]++; if (far) { STATS["probe.far"]++; if (on > 0) ob = (int)(ob - far); }
    if (far && on > 0 && cnt) for (size_t q = 0; q < no; q++) if (index_output(f, q)) for (int i = 0; i < on && i < cnt; i++) b.io[q][i] = (int)(b.io[q][i] - far);
    if (A.invalid_free) viol("invalid-free", fn, "%s released a block that is not allocated", me.c_str());
    LOG.add("roll %d %d %d", rc, ob, on);
    if (rc) viol("range-rc", fn, "%s over bars %d..%d of a history that starts at bar %d returned %d", me.c_str(), a, e, k, rc);
    if (on != cnt || (cnt && ob != seff - k)) viol("frame", fn, "%s over bars %d..%d of a history that starts at bar %d delivers %d values from bar %d, expected %d from bar %d (look-back %d)", me.c_str(), a, e, k, on, ob + k, cnt, seff, L);
    if (!cnt) continue;
    string fk = base + std::to_string(seff); if (f->name == "APO" || f->name == "PPO") fk += a - k < L ? "|" + std::to_string(a) + "|" + std::to_string(k) : "|po"; // the faster average starts at the requested bar
    auto& M = memo[fk]; M.resize(no);
    for (size_t q = 0; q < no; q++) {
      double sh = index_output(f, q) ? k : 0;
      for (int i = 0; i < cnt; i++) { double g = b.get(q, i) + sh; LOG.addv(g);
        if (i < (int)M[q].size()) { COMPARED++; if (g != M[q][i] && !biteq(g, M[q][i])) viol("revised", fn, "%s output %zu: the value of bar %d, computed from bar %d on, is %.17g after it was %.17g (request %d..%d, history kept from bar %d, %d bars follow the end)", me.c_str(), q, seff + i, seff, g, M[q][i], a, e, k, tail); }
        else M[q].push_back(g); } }
    if (!ex.cfg.compat && window_only(f, opt)) { auto& C = memo[ck]; // the same bar asked for from another first bar
      for (size_t q = 0; q < no; q++) { double sh = index_output(f, q) ? k : 0; bool isint = d->out[q] != 'R';
        for (int i = 0; i < cnt; i++) { double g = b.get(q, i) + sh; int ci = seff + i - L; if (ci < 0 || ci >= (int)C[q].size()) continue; double w = C[q][ci]; COMPARED++; if (isint ? g == w : close_enough(g, w)) continue;
          if (isint && index_output(f, q)) { auto& x = series(f, d, fd, 0); if (g >= 0 && w >= 0 && g < n && w < n && (single ? (float)x[(size_t)g] == (float)x[(size_t)w] : x[(size_t)g] == x[(size_t)w])) continue; } // a tie
          bool noise = false; // running sums: a difference of the size the inputs' own rounding makes
          for (int t = 0; t < 12 && !noise; t++) { Bufs p; int x, y, u = t / 2; double eps = single ? 1.2e-7 : u < 3 ? 4e-16 : u < 5 ? 1e-13 : 1e-12, ref = t & 1 ? g - sh : w; int at = t & 1 ? i : ci;
            if (t & 1 ? call(p, k, a, e, seff, len, (uint64_t)t + 1, eps, x, y) : call(p, 0, 0, n - 1, L, n, (uint64_t)t + 1, eps, x, y)) break; if (at >= y) break; double z = p.get(q, at);
            noise = std::isfinite(g) && std::isfinite(w) ? !std::isfinite(z) || fabs(z - ref) > 0.1 * fabs(g - w) : std::isfinite(z) == std::isfinite(t & 1 ? w : g) && std::isnan(z) == std::isnan(t & 1 ? w : g) && !biteq(z, ref); }
          if (noise) { STATS["oracle.ill_conditioned"]++; STATS["ill." + f->name]++; continue; }
          viol("start-dependent", fn, "%s output %zu: bar %d is %.17g when asked for from bar %d on, %.17g when computed from the first bar", me.c_str(), q, seff + i, g, seff, w); } } }
  }
  if (!A.live.empty()) viol("leak", "", "%zu blocks still allocated", A.live.size());
}

// ---------------------------------------------------------------- C22
namespace {
struct LiveS { const Fn* f = nullptr; const Direct* d = nullptr; string os; vector<double> opt; void* st = nullptr; int pos = 0, feed = 0; vector<int> rc; vector<vector<double>> out; };
struct Args {
  Exec ex; std::map<int, LiveS> live; std::map<string, vector<double>> good; // results of the good calls
  const Feed* feed(long id) { auto it = ex.feeds.find((int)id); return it == ex.feeds.end() ? nullptr : &it->second; }
  void bars(const Fn* f, const Direct* d, const Feed& fd, int k, Bufs& b) { b.in.clear(); for (size_t i = 0; i < strlen(d->in); i++) b.in.push_back(series(f, d, fd, i).data() + k); }
  void post(const Fn* f, const char* w) { if (A.invalid_free) viol("invalid-free", f->name, "%s released a block that is not allocated", w); }
  void open(const Op& o) {
    LiveS& s = live[(int)o.geti("s")]; close(s); s = LiveS(); s.f = fn_by_name(o.gets("fn")); s.d = s.f ? direct_by_name(s.f->name.c_str()) : nullptr; const Feed* fd = feed(o.geti("feed")); if (!s.d || !fd) { s.d = nullptr; return; }
    s.os = o.gets("o", "-"); s.opt = full_opts(s.f, s.os); s.feed = (int)o.geti("feed"); int rc = s.d->init(&s.st, s.opt.data());
    if (rc) { if (s.d->lookback(s.opt.data()) >= 0) viol("good-refused", s.f->name, "%s StateInit returned %d for valid parameters", who(s.f, s.os, false).c_str(), rc); s.d = nullptr; return; }
    void* t = nullptr; rc = s.d->init(&t, s.opt.data()); Bufs b; s.out.resize(strlen(s.d->out)); // the undisturbed twin
    for (int i = 0; i < fd->n && !rc; i++) { bars(s.f, s.d, *fd, i, b); b.outputs(s.d, 1, 5); s.rc.push_back(s.d->state(t, b.in.data(), b.out.data())); for (size_t q = 0; q < s.out.size(); q++) s.out[q].push_back(b.get(q, 0)); }
    s.d->freest(&t); LOG.add(" open");
  }
  void close(LiveS& s) { if (s.d && s.st) { int rc = s.d->freest(&s.st); if (rc || s.st) viol("free-rc", s.f->name, "StateFree of a live stream returned %d", rc); post(s.f, "StateFree"); } s.d = nullptr; s.st = nullptr; }
  void bar(LiveS& s, long n, bool block) {
    const Feed& fd = *feed(s.feed); Bufs b; n = std::min<long>(n, fd.n - s.pos); if (n < 1) return; size_t no = s.out.size();
    auto chk = [&](int i, int rc, size_t j) { COMPARED++; SIM_BARS++; if (rc != s.rc[i]) viol("stream-disturbed", s.f->name, "%s bar %d: State returned %d, the undisturbed stream %d", who(s.f, s.os, false).c_str(), i, rc, s.rc[i]);
      if (!rc) for (size_t q = 0; q < no; q++) { LOG.addv(b.get(q, j)); if (!biteq(b.get(q, j), s.out[q][i])) viol("stream-disturbed", s.f->name, "%s output %zu bar %d: %.17g, the undisturbed stream %.17g", who(s.f, s.os, false).c_str(), q, i, b.get(q, j), s.out[q][i]); } };
    if (block) { bars(s.f, s.d, fd, 0, b); b.outputs(s.d, (size_t)n, 5); int ob = -9, on = -9; s.d->bstate(s.st, s.pos, s.pos + (int)n - 1, b.in.data(), &ob, &on, b.out.data()); if (on != n) viol("stream-disturbed", s.f->name, "%s block of %ld bars at bar %d reports %d", who(s.f, s.os, false).c_str(), n, s.pos, on);
      for (long j = 0; j < n; j++) if (!s.rc[s.pos + j]) chk(s.pos + (int)j, 0, (size_t)j); s.pos += (int)n; }
    else for (long j = 0; j < n; j++) { bars(s.f, s.d, fd, s.pos, b); b.outputs(s.d, 1, 5); int rc = s.d->state(s.st, b.in.data(), b.out.data()); chk(s.pos, rc, 0); s.pos++; }
  }
  // a call with valid arguments is carried out
  void ok(const Op& o) {
    const Fn* f = fn_by_name(o.gets("fn")); const Direct* d = f ? direct_by_name(f->name.c_str()) : nullptr; const Feed* fd = feed(o.geti("feed")); if (!d || !fd) return; string os = o.gets("o", "-"); vector<double> opt = full_opts(f, os); bool single = o.geti("single"); const char* fn = f->name.c_str(); string me = who(f, os, single);
    int e = (int)std::min<long>(std::max(0L, o.geti("e", fd->n - 1)), fd->n - 1), a = (int)std::min<long>(std::max(0L, o.geti("a")), e);
    A.begin_op(); int L = d->lookback(opt.data()); if (L < 0) viol("good-refused", fn, "%s_Lookback refuses valid parameters", me.c_str());
    int cnt = std::max(0, e - std::max(a, L) + 1); Bufs b; b.f.resize(strlen(d->in)); if (single) for (size_t i = 0; i < strlen(d->in); i++) { auto& s = series(f, d, *fd, i); b.f[i].assign(s.begin(), s.begin() + e + 1); b.in.push_back(b.f[i].data()); } else bars(f, d, *fd, 0, b);
    b.outputs(d, (size_t)cnt, 7); int ob = -9, on = -9; scrub_stack(ex.junk * 5); int rc = (single ? d->sbatch : d->batch)(a, e, b.in.data(), opt.data(), &ob, &on, b.out.data()); post(f, "batch call"); LOG.add(" ok %d %d %d", rc, ob, on); STATS["args.good"]++; SIM_BARS += e - a + 1;
    if (rc) viol("good-refused", fn, "%s over bars %d..%d returned %d for valid arguments", me.c_str(), a, e, rc);
    if (on != cnt) viol("good-frame", fn, "%s over bars %d..%d delivers %d values, expected %d", me.c_str(), a, e, on, cnt);
    string key = me + "|" + std::to_string(o.geti("feed")) + "|" + std::to_string(a) + "|" + std::to_string(e); vector<double> v; for (size_t q = 0; q < strlen(d->out); q++) for (int i = 0; i < cnt; i++) { v.push_back(b.get(q, i)); LOG.addv(v.back()); }
    auto it = good.find(key); if (it == good.end()) good[key] = v; else { COMPARED++; for (size_t i = 0; i < v.size(); i++) if (!biteq(v[i], it->second[i])) viol("good-changed", fn, "%s over bars %d..%d gives %.17g after refused calls where it gave %.17g before", me.c_str(), a, e, v[i], it->second[i]); }
    if (o.geti("init")) { void* st = nullptr; rc = d->init(&st, opt.data()); if (rc) viol("good-refused", fn, "%s StateInit returned %d for valid parameters", me.c_str(), rc); d->freest(&st); post(f, "StateFree"); }
  }
  // a call with one (or more) bad arguments is refused and changes nothing
  void bad(const Op& o) {
    const Fn* f = fn_by_name(o.gets("fn")); const Direct* d = f ? direct_by_name(f->name.c_str()) : nullptr; const Feed* fd = feed(o.geti("feed")); if (!d || !fd) return; string os = o.gets("o", "-"), w = o.gets("w"); vector<double> opt = full_opts(f, os); bool single = o.geti("single"); const char* fn = f->name.c_str(); string me = who(f, os, single);
    size_t ni = strlen(d->in), no = strlen(d->out); int n = std::min(fd->n, 40 + (int)o.geti("e") % 8), a = 0, e = n - 1; std::set<int> want; string what;
    Bufs b; b.f.resize(ni); if (single) for (size_t i = 0; i < ni; i++) { auto& s = series(f, d, *fd, i); b.f[i].assign(s.begin(), s.begin() + n); b.in.push_back(b.f[i].data()); } else bars(f, d, *fd, 0, b);
    b.outputs(d, (size_t)n, 11); vector<void*> out = b.out; vector<const void*> in = b.in;
    if (o.has("a")) { a = (int)o.geti("a"); if (a < 0) { want.insert(TA_OUT_OF_RANGE_START_INDEX); what += " startIdx " + std::to_string(a); } }
    if (o.has("e")) { int x = (int)o.geti("e"); if (x < 0 || x < a) { e = x; want.insert(TA_OUT_OF_RANGE_END_INDEX); what += " endIdx " + std::to_string(x) + " (startIdx " + std::to_string(a) + ")"; } else { e = std::min(x, n - 1); a = std::min(a, e); } }
    if (o.has("ni")) { size_t i = (size_t)o.geti("ni") % std::max<size_t>(1, ni); if (ni) { in[i] = nullptr; want.insert(TA_BAD_PARAM); what += " input " + std::to_string(i) + " missing"; } }
    if (o.has("no")) { size_t i = (size_t)o.geti("no") % no; out[i] = nullptr; want.insert(TA_BAD_PARAM); what += " output " + std::to_string(i) + " missing"; }
    bool badopt = false;
    for (size_t i = 0; i < opt.size(); i++) { bool bo = false; double v = opt[i]; auto* oi = f->opt[i]; switch (oi->type) {
      case TA_OptInput_IntegerRange: { auto* q = (const TA_IntegerRange*)oi->dataSet; bo = v != TA_INTEGER_DEFAULT && (v < q->min || v > q->max); break; }
      case TA_OptInput_RealRange: { auto* q = (const TA_RealRange*)oi->dataSet; bo = v != TA_REAL_DEFAULT && (v < q->min || v > q->max); break; }
      case TA_OptInput_IntegerList: { auto* q = (const TA_IntegerList*)oi->dataSet; bo = v != TA_INTEGER_DEFAULT; for (unsigned j = 0; j < q->nbElement; j++) if (q->data[j].value == v) bo = false; break; }
      default: break; }
      if (bo) { badopt = true; want.insert(TA_BAD_PARAM); char t[64]; snprintf(t, sizeof t, " parameter %zu is %.17g", i, v); what += t; } }
    size_t blocks = A.live.size(); A.begin_op(); scrub_stack(ex.junk * 9); int rc = 0, ob = -77, on = -78; STATS["args.bad"]++;
    auto expect = [&](const char* call) { LOG.add(" bad %s %d", call, rc); STATS[string("args.bad.") + call]++; COMPARED++;
      if (rc == 0) viol("bad-accepted", fn, "%s %s with%s was carried out", me.c_str(), call, what.c_str());
      if (!want.count(rc)) viol("bad-rc", fn, "%s %s with%s returned %d", me.c_str(), call, what.c_str(), rc);
      if (!b.all_clean()) viol("bad-effect", fn, "%s %s with%s was refused and wrote to its outputs", me.c_str(), call, what.c_str());
      if (ob != -77 || on != -78) viol("bad-effect", fn, "%s %s with%s was refused and reported %d/%d", me.c_str(), call, what.c_str(), ob, on);
      if (A.live.size() != blocks) viol("bad-leak", fn, "%s %s with%s was refused and kept memory", me.c_str(), call, what.c_str()); };
    if (w == "batch") { if (want.empty()) return; rc = (single ? d->sbatch : d->batch)(a, e, in.data(), opt.data(), &ob, &on, out.data()); expect("batch call"); }
    else if (w == "lb") { if (!badopt) return; rc = d->lookback(opt.data()); COMPARED++; STATS["args.bad.Lookback"]++; if (rc != -1) viol("bad-accepted", fn, "%s_Lookback with%s returned %d", me.c_str(), what.c_str(), rc); }
    else if (w == "init") { if (!badopt) return; void* st = nullptr; want = {TA_BAD_PARAM}; rc = d->init(&st, opt.data()); bool left = st != nullptr; if (left && rc) d->freest(&st); expect("StateInit"); if (left) viol("bad-effect", fn, "%s StateInit with%s was refused and left a stream", me.c_str(), what.c_str()); }
    else if (w == "initnull") { what = " no slot"; want = {TA_BAD_PARAM}; for (size_t i = 0; i < opt.size(); i++) opt[i] = f->opt[i]->defaultValue; rc = d->init(nullptr, opt.data()); expect("StateInit"); }
    else if (w == "statenull") { what = " no stream"; want = {TA_BAD_PARAM}; rc = d->state(nullptr, b.in.data(), b.out.data()); expect("State"); }
    else if (w == "bstatenull") { what = " no stream"; want = {TA_BAD_PARAM}; rc = d->bstate(nullptr, 0, n - 1, b.in.data(), &ob, &on, b.out.data()); expect("BatchState"); }
    else if (w == "freenull") { what = " no slot"; want = {TA_BAD_PARAM}; rc = d->freest(nullptr); expect("StateFree"); }
    else if (w == "loadnull") { what = " no slot"; want = {TA_BAD_PARAM}; SimFile F; F.data.assign(64, 0); SimStream st; st.f = &F; FILE* fp = sim_open(&st, 0); rc = d->load(nullptr, fp); fclose(fp); expect("StateLoad"); }
    post(f, "a refused call");
  }
  void sbad(const Op& o) { // bad calls on a live stream
    auto it = live.find((int)o.geti("s")); if (it == live.end() || !it->second.d) return; LiveS& s = it->second; const Feed& fd = *feed(s.feed); const Direct* d = s.d; size_t ni = strlen(d->in), no = strlen(d->out); int n = std::min(fd.n, 10), ob = -77, on = -78, rc; Bufs b; bars(s.f, d, fd, 0, b); b.outputs(d, (size_t)n, 13); string w = o.gets("w"), me = who(s.f, s.os, false); const char* fn = s.f->name.c_str(); vector<void*> out = b.out; size_t i = (size_t)o.geti("i");
    size_t blocks = A.live.size(); A.begin_op(); STATS["args.bad"]++;
    if (w == "bin") { if (!ni) return; b.in[i % ni] = nullptr; rc = d->bstate(s.st, 0, n - 1, b.in.data(), &ob, &on, out.data()); }
    else if (w == "bout") { out[i % no] = nullptr; rc = d->bstate(s.st, 0, n - 1, b.in.data(), &ob, &on, out.data()); }
    else if (w == "occ") { SimFile F; F.data.assign(256, 0); SimStream st; st.f = &F; FILE* fp = sim_open(&st, 0); void* p = s.st; rc = d->load(&s.st, fp); fclose(fp); if (s.st != p) viol("bad-effect", fn, "%s StateLoad into an occupied slot replaced its stream", me.c_str()); }
    else if (w == "sout") { // a bar whose result has nowhere to go
      if (s.pos >= fd.n) return; bars(s.f, d, fd, s.pos, b); out[i % no] = nullptr; rc = d->state(s.st, b.in.data(), out.data()); STATS["args.bad.State"]++; LOG.add(" sout %d", rc);
      if (rc == TA_NEED_MORE_DATA && s.rc[s.pos] == TA_NEED_MORE_DATA) { s.pos++; return; } // nothing to deliver yet: an ordinary bar
      if (rc == 0) viol("bad-accepted", fn, "%s State without output %zu was carried out", me.c_str(), i % no);
      if (rc != TA_BAD_PARAM) viol("bad-rc", fn, "%s State without output %zu returned %d", me.c_str(), i % no, rc);
      try { bar(s, fd.n, false); } catch (Violation& v) { viol("refused-step-consumed", fn, "%s a State call refused for its missing output %zu used up its bar: %s", me.c_str(), i % no, v.detail.c_str()); } return; }
    else return;
    COMPARED++; LOG.add(" sbad %s %d", w.c_str(), rc); STATS["args.bad.live"]++;
    if (rc == 0) viol("bad-accepted", fn, "%s bad call '%s' on a live stream was carried out", me.c_str(), w.c_str());
    if (rc != TA_BAD_PARAM) viol("bad-rc", fn, "%s bad call '%s' on a live stream returned %d", me.c_str(), w.c_str(), rc);
    if (!b.all_clean() || ob != -77 || on != -78) viol("bad-effect", fn, "%s bad call '%s' on a live stream was refused and wrote to its outputs", me.c_str(), w.c_str());
    if (A.live.size() != blocks) viol("bad-leak", fn, "%s bad call '%s' on a live stream was refused and kept or released memory", me.c_str(), w.c_str()); post(s.f, "a refused call");
  }
  // questions about a function: good ones are answered, bad ones refused with a null answer
  void ask(const Op& o) {
    const Fn* f = fn_by_name(o.gets("fn")); if (!f) return; const TA_FuncHandle* h = f->fi->handle; static unsigned long bogus[32]; static const unsigned bad[] = {0, 1, 7, 31, 1000, 0x7fffffffu, 0x80000000u, 0xffffffffu}; unsigned extra = bad[o.geti("x") & 7]; const char* fn = f->name.c_str();
    auto one = [&](const char* what, auto get, unsigned nb) {
      const void* p; auto call = [&](const TA_FuncHandle* h, unsigned i) { p = (void*)8; auto* q = decltype(get.second){}; q = (decltype(q))8; int rc = get.first(h, i, &q); p = q; STATS["args.asked"]++; COMPARED++; return rc; };
      for (unsigned i = 0; i < nb; i++) { int rc = call(h, i); if (rc || !p) viol("ask-refused", fn, "TA_Get%sParameterInfo(%s, %u of %u) returned %d", what, fn, i, nb, rc); }
      unsigned i = extra > 0xffffffffu - nb ? 0xffffffffu : nb + extra; int rc = call(h, i); if (rc != TA_BAD_PARAM || p) viol("ask-accepted", fn, "TA_Get%sParameterInfo(%s, %u of %u) returned %d%s", what, fn, i, nb, rc, p ? " with a result" : "");
      rc = call(nullptr, 0); if (rc != TA_BAD_PARAM) viol("ask-accepted", fn, "TA_Get%sParameterInfo without a handle returned %d", what, rc);
      rc = get.first(h, 0, nullptr); if (rc != TA_BAD_PARAM) viol("ask-accepted", fn, "TA_Get%sParameterInfo without a place for the answer returned %d", what, rc);
      rc = call((const TA_FuncHandle*)bogus, 0); if (rc != TA_INVALID_HANDLE) viol("ask-accepted", fn, "TA_Get%sParameterInfo of something that is no handle returned %d", what, rc); };
    one("Input", std::make_pair(TA_GetInputParameterInfo, (const TA_InputParameterInfo*)0), f->fi->nbInput); one("OptInput", std::make_pair(TA_GetOptInputParameterInfo, (const TA_OptInputParameterInfo*)0), f->fi->nbOptInput);
    one("Output", std::make_pair(TA_GetOutputParameterInfo, (const TA_OutputParameterInfo*)0), f->fi->nbOutput); one("Struct", std::make_pair(TA_GetStructParameterInfo, (const TA_InputParameterInfo*)0), f->fi->nbStructParams);
    const TA_FuncInfo* fi = nullptr; int rc = TA_GetFuncInfo(h, &fi); if (rc || fi != f->fi) viol("ask-refused", fn, "TA_GetFuncInfo(%s) returned %d", fn, rc);
    if ((rc = TA_GetFuncInfo(nullptr, &fi)) != TA_BAD_PARAM || (rc = TA_GetFuncInfo(h, nullptr)) != TA_BAD_PARAM) viol("ask-accepted", fn, "TA_GetFuncInfo with a missing argument returned %d", rc);
    if ((rc = TA_GetFuncInfo((const TA_FuncHandle*)bogus, &fi)) != TA_INVALID_HANDLE) viol("ask-accepted", fn, "TA_GetFuncInfo of something that is no handle returned %d", rc);
    const TA_FuncHandle* g = nullptr; rc = TA_GetFuncHandle(fn, &g); if (rc || g != h) viol("ask-refused", fn, "TA_GetFuncHandle(%s) returned %d", fn, rc);
    string nm = f->name, m[] = {nm + "X", nm.substr(0, nm.size() - 1), nm + " ", " " + nm, nm.substr(0, 1), "@" + nm, "[", "9", "{", "ZZZZ", "QSTICK"};
    for (auto& x : m) { if (x.empty() || fn_by_name(x)) continue; g = (const TA_FuncHandle*)8; rc = TA_GetFuncHandle(x.c_str(), &g); if (rc != TA_FUNC_NOT_FOUND || g) viol("ask-accepted", fn, "TA_GetFuncHandle(\"%s\") returned %d%s", x.c_str(), rc, g ? " with a result" : ""); }
    g = (const TA_FuncHandle*)8; rc = TA_GetFuncHandle("", &g); if (rc != TA_BAD_PARAM || g) viol("ask-accepted", fn, "TA_GetFuncHandle of an empty name returned %d", rc);
    if ((rc = TA_GetFuncHandle(nullptr, &g)) != TA_BAD_PARAM || (rc = TA_GetFuncHandle(fn, nullptr)) != TA_BAD_PARAM) viol("ask-accepted", fn, "TA_GetFuncHandle with a missing argument returned %d", rc);
    TA_StringTable* t; if ((rc = TA_GroupTableAlloc(nullptr)) != TA_BAD_PARAM || (rc = TA_FuncTableAlloc(nullptr, &t)) != TA_BAD_PARAM || (rc = TA_FuncTableAlloc(f->fi->group, nullptr)) != TA_BAD_PARAM || (rc = TA_ForEachFunc(nullptr, nullptr)) != TA_BAD_PARAM) viol("ask-accepted", fn, "a listing with a missing argument returned %d", rc);
    TA_ParamHolder* ph; if ((rc = TA_ParamHolderAlloc(nullptr, &ph)) != TA_BAD_PARAM || (rc = TA_ParamHolderAlloc(h, nullptr)) != TA_BAD_PARAM) viol("ask-accepted", fn, "TA_ParamHolderAlloc with a missing argument returned %d", rc);
    post(f, "a question"); LOG.add(" asked");
  }
  void run(const Scenario& sc) {
    ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply();
    for (auto& o : sc.ops) { if (o.name == "cfg" || o.name == "feed") continue; A.begin_op(); LOG.add("%s", o.name.c_str());
      if (o.name == "ask") ask(o); else if (o.name == "open") open(o); else if (o.name == "ok") ok(o); else if (o.name == "bad") bad(o); else if (o.name == "sbad") sbad(o);
      else if (o.name == "bar") { auto it = live.find((int)o.geti("s")); if (it != live.end() && it->second.d) bar(it->second, o.geti("n"), o.geti("block")); } }
    string last; for (auto& k : live) { if (k.second.f) last = k.second.f->name; close(k.second); }
    if (!A.live.empty()) viol("leak", last, "%zu blocks still allocated after everything was freed", A.live.size());
  }
};
}
void run_args(const Scenario& sc) { Args* a = new Args; try { a->run(sc); } catch (...) { delete a; throw; } delete a; }

// ---------------------------------------------------------------- C23
// Simulated time travel: a stream is moved 2^k bars into its future (its bar counter advances by a multiple of its look-back,
// as if that many bars had been fed in between) and must go on like its twin that was not moved.
namespace {
struct Life {
  struct S { const Fn* f = nullptr; const Direct* d = nullptr; string os; vector<double> opt; void *st = nullptr, *tw = nullptr; int feed = 0; uint64_t pos = 0; int settle = 0; bool jumped = false; };
  Exec ex; std::map<int, S> live;
  void close(S& s) { if (s.st) s.d->freest(&s.st); if (s.tw) s.d->freest(&s.tw); s.st = s.tw = nullptr; if (A.invalid_free && s.f) viol("invalid-free", s.f->name, "StateFree released a block that is not allocated"); }
  void bar(S& s, long n, bool block) {
    const Feed& fd = ex.feeds.find(s.feed)->second; size_t no = strlen(s.d->out); uint64_t size, index;
    while (n > 0) { int at = (int)(s.pos % fd.n), k = block ? (int)std::min<long>(n, fd.n - at) : 1, rc[2] = {0, 0}, on[2] = {-9, -9}; Bufs b[2];
      for (int w = 0; w < 2; w++) { void* st = w ? s.tw : s.st; int ob = -9; for (size_t i = 0; i < strlen(s.d->in); i++) b[w].in.push_back(series(s.f, s.d, fd, i).data() + (block ? 0 : at)); b[w].outputs(s.d, (size_t)k, 3);
        if (block) rc[w] = s.d->bstate(st, at, at + k - 1, b[w].in.data(), &ob, &on[w], b[w].out.data()); else rc[w] = s.d->state(st, b[w].in.data(), b[w].out.data()); }
      s.d->age(s.st, &size, &index, nullptr); SIM_BARS += 2 * k; LOG.add(" %d", rc[0]);
      auto me = [&] { return who(s.f, s.os, false) + " at bar " + std::to_string((unsigned long long)index); };
      if (rc[0] != rc[1] || on[0] != on[1]) viol("aged-rc", s.f->name, "%s returns %d (%d elements), its younger twin %d (%d)", me().c_str(), rc[0], on[0], rc[1], on[1]);
      for (int j = 0; j < k; j++) { if (s.settle > 0) { s.settle--; continue; } if (rc[0] && !block) continue; COMPARED++; if (s.jumped) STATS["age.compared"]++;
        for (size_t q = 0; q < no; q++) { LOG.addv(b[0].get(q, j)); if (!biteq(b[0].get(q, j), b[1].get(q, j))) viol("aged-value", s.f->name, "%s output %zu is %.17g, its younger twin gives %.17g", me().c_str(), q, b[0].get(q, j), b[1].get(q, j)); } }
      s.pos += k; n -= k; }
  }
  void run(const Scenario& sc) {
    ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply();
    for (auto& o : sc.ops) { if (o.name == "cfg" || o.name == "feed") continue; A.begin_op(); LOG.add("%s", o.name.c_str()); S& s = live[(int)o.geti("s")];
      if (o.name == "open") { close(s); s = S(); s.f = fn_by_name(o.gets("fn")); s.d = s.f ? direct_by_name(s.f->name.c_str()) : nullptr; s.feed = (int)o.geti("feed"); if (!s.d || !ex.feeds.count(s.feed)) { s.d = nullptr; continue; }
        s.os = o.gets("o", "-"); s.opt = full_opts(s.f, s.os); if (s.d->init(&s.st, s.opt.data()) || s.d->init(&s.tw, s.opt.data())) { close(s); s.d = nullptr; } continue; }
      if (!s.d) continue; scrub_stack(ex.junk * 31);
      if (o.name == "bar") bar(s, o.geti("n"), o.geti("block"));
      else if (o.name == "jump") { // to: power of two, off: bars still missing to it when the move is over
        uint64_t size, index, unit; s.d->age(s.st, &size, &index, nullptr); unit = 2 * std::max<uint64_t>(1, size) * (size + 1); uint64_t goal = (1ull << o.geti("to")) - (uint64_t)o.geti("off") - size - 8;
        if (index < 2 * size + 70 || index >= goal) continue; // only a stream that is past its warm-up
        uint64_t put = index + (goal - index) / unit * unit; if (goal - put > 200) put += unit; s.d->age(s.st, &size, &index, &put); s.settle = (int)std::min<uint64_t>(size + 8, 100000); s.jumped = true; STATS["age.jump"]++; STATS["fault.time.jump"]++; STATS["age.jump.2^" + std::to_string(o.geti("to"))]++; STATS["age.skipped_bars_log2_sum"] += o.geti("to"); LOG.add(" %llu", (unsigned long long)put); }
      else if (o.name == "save") { SimFile F; SimStream w; w.f = &F; w.write = true; FILE* fp = sim_open(&w, (int)o.geti("buf")); int rc = s.d->save(s.st, fp); if (fclose(fp)) rc = rc ? rc : -1; if (rc) viol("save-rc", s.f->name, "%s StateSave returned %d on a healthy device", who(s.f, s.os, false).c_str(), rc);
        s.d->freest(&s.st); s.st = nullptr; SimStream q; q.f = &F; fp = sim_open(&q, 0); rc = s.d->load(&s.st, fp); fclose(fp); STATS["age.restored"]++; STATS["fault.crash"]++; if (rc || !s.st) viol("load-rc", s.f->name, "%s StateLoad of a complete image returned %d", who(s.f, s.os, false).c_str(), rc); } }
    for (auto& k : live) close(k.second); if (!A.live.empty()) viol("leak", "", "%zu blocks still allocated after everything was freed", A.live.size());
  }
};
}
void run_life(const Scenario& sc) { Life* l = new Life; try { l->run(sc); } catch (...) { delete l; throw; } delete l; }

// ---------------------------------------------------------------- C24: broken quotes in the feed
// Every stream and call runs twice, over the clean feed and over the same feed with broken quotes in it.
namespace {
struct Quotes {
  struct S { const Fn* f = nullptr; const Direct* d = nullptr; string os; vector<double> opt; void *st = nullptr, *tw = nullptr, *old = nullptr; int at = 0, pos = 0, lb = 0; vector<vector<double>> solo; vector<int> rcs; };
  Exec ex; Feed clean, bad; int lo = INT_MAX, hi = -1; std::map<int, S> live;
  void close(S& s) { for (void** p : {&s.st, &s.tw, &s.old}) { if (*p) s.d->freest(p); *p = nullptr; } if (A.invalid_free && s.f) viol("invalid-free", s.f->name, "StateFree released a block that is not allocated"); }
  void domain(const Fn* f, const Direct* d, const string& me, size_t q, double v, int bar, int L, bool batch) {
    if (d->out[q] == 'R') return;
    bool idx = f->name == "MAXINDEX" || f->name == "MININDEX" || f->name == "MINMAXINDEX";
    if (idx ? (batch && (v > bar || v < bar - L)) : f->name == "HT_TRENDMODE" ? (v != 0 && v != 1) : fabs(v) > 200) viol("quote-domain", f->name, "%s output %zu at bar %d is %g, outside what the function can report", me.c_str(), q, bar, v);
  }
  // Functions that pick, compare or combine single bars of their window: nothing of a bar remains once it has left it.
  static bool forgets(const Fn* f) { static const std::set<string> S = {"ACOS", "ADD", "AROON", "AROONOSC", "ASIN", "ATAN", "AVGPRICE", "BOP", "CDL3OUTSIDE", "CDLENGULFING", "CDLXSIDEGAP3METHODS", "CEIL", "COS", "COSH", "DIV", "EXP", "FLOOR", "LN", "LOG10", "MAX", "MEDPRICE", "MIDPOINT", "MIDPRICE", "MIN", "MINMAX", "MOM", "MULT", "ROC", "ROCP", "ROCR", "ROCR100", "SIN", "SINH", "SQRT", "SUB", "TAN", "TANH", "TRANGE", "TYPPRICE", "WCLPRICE", "WILLR"}; return S.count(f->name); }
  void glitch(const Op& o) {
    int i = (int)o.geti("i"), m = (int)o.geti("m"); string w = o.gets("w"); if (i < 0 || i >= bad.n) return; lo = std::min(lo, i); hi = std::max(hi, i); STATS["fault.quote." + w]++;
    vector<double>* c[] = {&bad.o, &bad.h, &bad.l, &bad.c, &bad.v, &bad.oi, &bad.per, &bad.sgn};
    if (w == "crossed") { std::swap(bad.h[i], bad.l[i]); return; }
    for (int k = 0; k < 8; k++) if (m >> k & 1) { double& x = (*c[k])[i]; x = w == "nan" ? NAN : w == "inf" ? INFINITY : w == "ninf" ? -INFINITY : w == "huge" ? 1e300 : w == "nhuge" ? -1e300 : w == "tiny" ? 5e-324 : w == "zero" ? 0 : w == "neg" ? -x : w == "fat" ? x * 1e6 : i ? (*c[k])[i - 1] : x; }
  }
  void step(S& s, long n, bool block) {
    size_t no = strlen(s.d->out), ni = strlen(s.d->in);
    while (n > 0 && s.pos < clean.n) { int k = block ? (int)std::min<long>(n, clean.n - s.pos) : 1, rc[3] = {0, 0, 0}, on[3] = {-9, -9, -9}; Bufs b[3];
      for (int w = 0; w < 3; w++) { void* st = w == 0 ? s.st : w == 1 ? s.tw : s.old; if (!st) continue; const Feed& fd = w == 1 ? clean : bad; int ob = -9, p = s.pos; vector<vector<double>> cp(ni);
        for (size_t i = 0; i < ni; i++) { const vector<double>& v = series(s.f, s.d, fd, i); cp[i].assign(v.begin() + p, v.begin() + p + k); b[w].in.push_back(cp[i].data()); }
        b[w].outputs(s.d, (size_t)k, 3 + w);
        if (block) rc[w] = s.d->bstate(st, 0, k - 1, b[w].in.data(), &ob, &on[w], b[w].out.data()); else rc[w] = s.d->state(st, b[w].in.data(), b[w].out.data()); }
      SIM_BARS += 2 * k; LOG.add(" %d", rc[0]); string me = who(s.f, s.os, false) + " (stream from bar " + std::to_string(s.at) + ")"; const char* fn = s.f->name.c_str();
      if (rc[0] != rc[1] || on[0] != on[1]) viol("quote-rc", fn, "%s returns %d (%d elements) at bar %d behind a broken quote, %d (%d) over the clean feed", me.c_str(), rc[0], on[0], s.pos, rc[1], on[1]);
      if (s.old && (rc[0] != rc[2] || on[0] != on[2])) viol("quote-restore", fn, "%s restored returns %d (%d elements) at bar %d, the stream it was saved from %d (%d)", me.c_str(), rc[0], on[0], s.pos, rc[2], on[2]);
      int got = block ? (rc[0] ? 0 : on[0]) : rc[0] ? 0 : 1;
      for (int j = 0; j < got; j++) { int bar = s.pos + (block ? k - got : 0) + j; COMPARED++;
        for (size_t q = 0; q < no; q++) { double v = b[0].get(q, j), c = b[1].get(q, j); LOG.addv(v); if (!biteq(v, c)) domain(s.f, s.d, me, q, v, bar, 0, false);
          if ((bar < lo || s.at > hi) && !biteq(v, c)) viol("quote-early", fn, "%s output %zu at bar %d is %.17g, the clean feed gives %.17g, and no broken quote was fed to it", me.c_str(), q, bar, v, c);
          if (bar > hi && bar - s.lb > hi && forgets(s.f)) { STATS["quote.recovered"]++; if (!close_enough(v, c)) viol("quote-remembered", fn, "%s output %zu at bar %d is %.17g, the clean feed gives %.17g; its window of %d bars has no broken quote in it", me.c_str(), q, bar, v, c, s.lb + 1); }
          if (s.old && !biteq(v, b[2].get(q, j))) viol("quote-restore", fn, "%s restored gives output %zu %.17g at bar %d, the stream it was saved from %.17g", me.c_str(), q, v, bar, b[2].get(q, j));
          if (!s.rcs[bar - s.at] && !biteq(c, s.solo[q][bar - s.at])) viol("quote-neighbour", fn, "%s over the clean feed gives output %zu %.17g at bar %d next to a stream with broken quotes, %.17g alone", me.c_str(), q, c, bar, s.solo[q][bar - s.at]); } 
        if (s.pos > hi && hi >= s.at) STATS["quote.after"]++; }
      if (s.pos <= hi && s.pos + k > lo) STATS["quote.fed"]++;
      s.pos += k; n -= k; }
  }
  void batch(const Op& o) {
    const Fn* f = fn_by_name(o.gets("fn")); const Direct* d = f ? direct_by_name(f->name.c_str()) : nullptr; if (!d) return; string os = o.gets("o", "-"); vector<double> opt = full_opts(f, os); bool single = o.geti("single"); size_t no = strlen(d->out), ni = strlen(d->in);
    int L = d->lookback(opt.data()); if (L < 0 || L > 100000) return; int k = (int)std::min<long>(std::max(0L, o.geti("k")), clean.n - 1), a = (int)std::min<long>(std::max(0L, o.geti("a")), clean.n - 1 - k), e = (int)std::min<long>(std::max((long)a, o.geti("e", clean.n - 1)), clean.n - 1 - k);
    int cap = e - std::max(a, L) + 1, rc[2], ob[2] = {-9, -9}, on[2] = {-9, -9}; if (cap < 0) cap = 0; Bufs b[2];
    for (int w = 0; w < 2; w++) { const Feed& fd = w ? clean : bad; b[w].d.assign(ni, {}); b[w].f.assign(ni, {});
      for (size_t i = 0; i < ni; i++) { const vector<double>& v = series(f, d, fd, i); if (single) { b[w].f[i].assign(v.begin() + k, v.begin() + k + e + 1); b[w].in.push_back(b[w].f[i].data()); } else { b[w].d[i].assign(v.begin() + k, v.begin() + k + e + 1); b[w].in.push_back(b[w].d[i].data()); } }
      b[w].outputs(d, (size_t)cap, 5 + w); scrub_stack(ex.junk * 31 + w); rc[w] = (single ? d->sbatch : d->batch)(a, e, b[w].in.data(), opt.data(), &ob[w], &on[w], b[w].out.data()); }
    string me = who(f, os, single); const char* fn = f->name.c_str(); LOG.add(" %d %d", rc[0], on[0]);
    if (rc[0] != rc[1] || on[0] != on[1] || (on[0] && ob[0] != ob[1])) viol("quote-rc", fn, "%s over bars %d..%d returns %d (%d elements from %d) with broken quotes, %d (%d from %d) over the clean feed", me.c_str(), k + a, k + e, rc[0], on[0], ob[0], rc[1], on[1], ob[1]);
    if (rc[0]) return;
    for (int j = 0; j < on[0]; j++) { int bar = ob[0] + j; COMPARED++;
      for (size_t q = 0; q < no; q++) { double v = b[0].get(q, j), c = b[1].get(q, j); LOG.addv(v); if (!biteq(v, c)) domain(f, d, me, q, v, bar, L, true);
        if (k + bar - L > hi && forgets(f)) { STATS["quote.recovered"]++; if (!close_enough(v, c)) viol("quote-remembered", fn, "%s over bars %d..%d output %zu at bar %d is %.17g, the clean feed gives %.17g; its window of %d bars has no broken quote in it", me.c_str(), k + a, k + e, q, k + bar, v, c, L + 1); }
        if ((k + bar < lo || k > hi) && !biteq(v, c)) viol("quote-early", fn, "%s over bars %d..%d output %zu at bar %d is %.17g, the clean feed gives %.17g, and no broken quote comes before that bar", me.c_str(), k + a, k + e, q, k + bar, v, c); } }
    if (k <= hi && k + e >= lo) STATS["quote.fed"]++;
  }
  void run(const Scenario& sc) {
    ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply(); if (!ex.feeds.count(0)) return; clean = ex.feeds[0]; bad = clean;
    for (auto& o : sc.ops) if (o.name == "glitch") glitch(o);
    for (auto& o : sc.ops) { if (o.name == "cfg" || o.name == "feed" || o.name == "glitch") continue; A.begin_op(); LOG.add("%s", o.name.c_str());
      if (o.name == "batch") { batch(o); continue; }
      S& s = live[(int)o.geti("s")];
      if (o.name == "open") { close(s); s = S(); s.f = fn_by_name(o.gets("fn")); s.d = s.f ? direct_by_name(s.f->name.c_str()) : nullptr; s.at = s.pos = (int)o.geti("at"); if (!s.d || s.at >= clean.n) { s.d = nullptr; continue; }
        s.os = o.gets("o", "-"); s.opt = full_opts(s.f, s.os); if (s.d->init(&s.st, s.opt.data()) || s.d->init(&s.tw, s.opt.data())) { close(s); s.d = nullptr; continue; }
        size_t no = strlen(s.d->out), ni = strlen(s.d->in); s.lb = s.d->lookback(s.opt.data()); s.solo.assign(no, {}); void* st = nullptr; if (s.d->init(&st, s.opt.data())) { close(s); s.d = nullptr; continue; } // the clean stream alone
        for (int i = s.at; i < clean.n; i++) { Bufs b; for (size_t j = 0; j < ni; j++) b.in.push_back(series(s.f, s.d, clean, j).data() + i); b.outputs(s.d, 1, 3); s.rcs.push_back(s.d->state(st, b.in.data(), b.out.data())); for (size_t q = 0; q < no; q++) s.solo[q].push_back(b.get(q, 0)); }
        s.d->freest(&st); if (s.at > hi && hi >= 0) STATS["quote.reopened"]++; continue; }
      if (!s.d) continue; scrub_stack(ex.junk * 31);
      if (o.name == "bar") step(s, o.geti("n"), o.geti("block"));
      else if (o.name == "save") { if (s.old) { s.d->freest(&s.old); s.old = nullptr; } SimFile F; SimStream w; w.f = &F; w.write = true; FILE* fp = sim_open(&w, (int)o.geti("buf")); int rc = s.d->save(s.st, fp); if (fclose(fp)) rc = rc ? rc : -1; if (rc) viol("save-rc", s.f->name, "%s StateSave returned %d on a healthy device", who(s.f, s.os, false).c_str(), rc);
        s.old = s.st; s.st = nullptr; SimStream q; q.f = &F; fp = sim_open(&q, 0); rc = s.d->load(&s.st, fp); fclose(fp); STATS["quote.restored"]++; if (rc || !s.st) viol("load-rc", s.f->name, "%s StateLoad of a complete image returned %d", who(s.f, s.os, false).c_str(), rc); } }
    for (auto& k : live) close(k.second); if (!A.live.empty()) viol("leak", "", "%zu blocks still allocated after everything was freed", A.live.size());
  }
};
}
void run_quotes(const Scenario& sc) { Quotes* l = new Quotes; try { l->run(sc); } catch (...) { delete l; throw; } delete l; }

// ---------------------------------------------------------------- C20: a pipeline that works in place over one arena of series
namespace {
struct Pipe {
  struct S { const Fn* f = nullptr; const Direct* d = nullptr; string os; vector<double> opt; void *st = nullptr, *tw = nullptr; int pos = 0; };
  Exec ex; int n = 0; vector<vector<double>> real, model; vector<vector<int>> ireal, imodel; std::map<int, S> live; // 8 series of doubles, 2 of ints
  void close(S& s) { for (void** p : {&s.st, &s.tw}) { if (*p) s.d->freest(p); *p = nullptr; } }
  void call(const Fn* f, const Direct* d, const string& os, const vector<double>& opt, const Op& o, S* s) { // in: series per input, out: series per output (never two outputs in one)
    size_t ni = strlen(d->in), no = strlen(d->out); int in[8], out[4]; string si = o.gets("in"), so = o.gets("out"); if (si.size() < ni || so.size() < no) return;
    for (size_t i = 0; i < ni; i++) in[i] = (si[i] - '0') & 7; for (size_t q = 0; q < no; q++) { out[q] = d->out[q] == 'R' ? (so[q] - '0') & 7 : (so[q] - '0') & 1; for (size_t p = 0; p < q; p++) if (d->out[p] == d->out[q] && out[p] == out[q]) return; }
    int a = (int)std::min<long>(std::max(0L, o.geti("a")), n - 1), e = (int)std::min<long>(std::max((long)a, o.geti("e", n - 1)), n - 1), L = d->lookback(opt.data()); if (L < 0 || L > 100000) return;
    int cap = s ? e - a + 1 : std::max(0, e - std::max(a, L) + 1), rc[2], ob[2] = {-9, -9}, on[2] = {-9, -9}; Bufs b; const char* fn = f->name.c_str(); string me = who(f, os, false) + (s ? "_BatchState" : "");
    vector<const void*> ri; for (size_t i = 0; i < ni; i++) { b.d.push_back(vector<double>(model[in[i]].begin(), model[in[i]].begin() + e + 1)); ri.push_back(real[in[i]].data()); } for (auto& v : b.d) b.in.push_back(v.data());
    b.outputs(d, (size_t)cap, 3); vector<void*> ro; for (size_t q = 0; q < no; q++) ro.push_back(d->out[q] == 'R' ? (void*)real[out[q]].data() : (void*)ireal[out[q]].data());
    for (int w = 0; w < 2; w++) { auto& I = w ? ri : b.in; auto& O = w ? ro : b.out; scrub_stack(ex.junk * 31); rc[w] = s ? s->d->bstate(w ? s->st : s->tw, a, e, I.data(), &ob[w], &on[w], O.data()) : d->batch(a, e, I.data(), opt.data(), &ob[w], &on[w], O.data()); }
    SIM_BARS += 2 * (e - a + 1); LOG.add(" %d %d", rc[0], on[0]); bool shared = false; for (size_t q = 0; q < no; q++) for (size_t i = 0; i < ni; i++) if (d->out[q] == 'R' && out[q] == in[i]) shared = true; STATS[shared ? "pipe.shared" : "pipe.apart"]++;
    string how; for (size_t q = 0; q < no; q++) for (size_t i = 0; i < ni; i++) if (d->out[q] == 'R' && out[q] == in[i]) how += " output " + std::to_string(q) + " = input " + std::to_string(i);
    if (rc[0] != rc[1] || on[0] != on[1] || (on[0] && ob[0] != ob[1])) viol("inplace-rc", fn, "%s over %d..%d with%s returns %d (%d elements from %d), with separate arrays %d (%d from %d)", me.c_str(), a, e, how.c_str(), rc[1], on[1], ob[1], rc[0], on[0], ob[0]);
    int got = rc[0] ? 0 : on[0];
    for (size_t q = 0; q < no; q++) for (int j = 0; j < got; j++) { if (d->out[q] == 'R') model[out[q]][j] = b.ro[q][j]; else imodel[out[q]][j] = b.io[q][j]; }
    for (size_t q = 0; q < no; q++) for (int j = 0; j < got; j++) { COMPARED++; double g = d->out[q] == 'R' ? real[out[q]][j] : ireal[out[q]][j], w = d->out[q] == 'R' ? model[out[q]][j] : imodel[out[q]][j]; LOG.addv(g); if (!biteq(g, w)) viol("inplace-value", fn, "%s over %d..%d with%s gives output %zu element %d = %.17g, with separate arrays %.17g", me.c_str(), a, e, how.c_str(), q, j, g, w); }
    for (int k = 0; k < 8; k++) for (int j = 0; j < n; j++) if (!biteq(real[k][j], model[k][j])) { bool mine = false; for (size_t q = 0; q < no; q++) if (d->out[q] == 'R' && out[q] == k) mine = true; if (mine && j <= e) { real[k][j] = model[k][j]; continue; } viol("inplace-stray", fn, "%s over %d..%d with%s changed element %d of series %d, which is no output element", me.c_str(), a, e, how.c_str(), j, k); }
    for (int k = 0; k < 2; k++) for (int j = 0; j < n; j++) if (ireal[k][j] != imodel[k][j]) { if (j < cap) { ireal[k][j] = imodel[k][j]; continue; } viol("inplace-stray", fn, "%s changed element %d of integer series %d, which is no output element", me.c_str(), j, k); }
  }
  // C19: the same request to the double and the single precision entry point, over quotes a float can hold
  void both(const Op& o, const Feed& f) {
    const Fn* fn = fn_by_name(o.gets("fn")); const Direct* d = fn ? direct_by_name(fn->name.c_str()) : nullptr; if (!d) return; string os = o.gets("o", "-"); vector<double> opt = full_opts(fn, os); int L = d->lookback(opt.data()); if (L < 0 || L > 100000) return; size_t ni = strlen(d->in), no = strlen(d->out);
    int k = (int)std::min<long>(std::max(0L, o.geti("k")), n - 1), a = (int)std::min<long>(std::max(0L, o.geti("a")), n - 1 - k), e = (int)std::min<long>(std::max((long)a, o.geti("e", n - 1)), n - 1 - k), cap = std::max(0, e - std::max(a, L) + 1);
    auto call = [&](Bufs& b, bool single, double eps, uint64_t es, int& ob, int& on) { Rng r(es + 9); b.d.assign(ni, {}); b.f.assign(ni, {}); b.in.clear(); ob = on = -9;
      for (size_t i = 0; i < ni; i++) { auto& s = series(fn, d, f, i); for (int j = 0; j <= e; j++) { float x = (float)s[k + j]; if (single) b.f[i].push_back(x); else b.d[i].push_back(eps ? x * (1 + eps * (2 * r.unit() - 1)) : x); } b.in.push_back(single ? (void*)b.f[i].data() : (void*)b.d[i].data()); }
      b.outputs(d, (size_t)cap, 3 + single); scrub_stack(ex.junk * 31 + single); return (single ? d->sbatch : d->batch)(a, e, b.in.data(), opt.data(), &ob, &on, b.out.data()); };
    Bufs b[2]; int rc[2], ob[2], on[2]; for (int w = 0; w < 2; w++) rc[w] = call(b[w], w, 0, 0, ob[w], on[w]);
    string me = fn->name + "(" + os + ") over bars " + std::to_string(k + a) + ".." + std::to_string(k + e); const char* fc = fn->name.c_str(); SIM_BARS += 2 * (e - a + 1); LOG.add(" %d %d", rc[0], on[0]); STATS["single.calls"]++;
    if (rc[0] != rc[1] || on[0] != on[1] || (on[0] && ob[0] != ob[1])) viol("single-rc", fc, "%s returns %d (%d elements from %d) in single precision, %d (%d from %d) in double precision", me.c_str(), rc[1], on[1], ob[1], rc[0], on[0], ob[0]);
    if (rc[0]) return; vector<vector<vector<double>>> probe; // what rounding of the quotes themselves does to the result
    for (int j = 0; j < on[0]; j++) for (size_t q = 0; q < no; q++) { double x = b[0].get(q, j), y = b[1].get(q, j); COMPARED++; LOG.addv(y); if (biteq(x, y) || close_enough(x, y)) continue;
      if (probe.empty()) { STATS["single.probes"]++; for (int t = 0; t < 12; t++) { Bufs p; int pb, pn; A.begin_op(); call(p, false, t < 6 ? 1.2e-7 : 4e-7, t, pb, pn); vector<vector<double>> v(no); for (size_t w = 0; w < no; w++) for (int i = 0; i < on[0]; i++) v[w].push_back(p.get(w, i)); probe.push_back(v); } }
      double spread = 0; bool wild = false; for (auto& v : probe) { double z = v[q][j]; if (!std::isfinite(z) != !std::isfinite(x)) wild = true; else if (std::isfinite(z)) spread = std::max(spread, fabs(z - x)); }
      if (wild || (std::isfinite(x) && std::isfinite(y) && fabs(x - y) <= 1e-6 * (1 + fabs(x)) + 6 * spread)) { STATS["single.rounding"]++; continue; }
      viol("single-value", fc, "%s output %zu bar %d is %.17g in single precision, %.17g in double precision", me.c_str(), q, k + ob[0] + j, y, x); }
  }
  void run(const Scenario& sc) {
    ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply(); if (!ex.feeds.count(0)) return; const Feed& f = ex.feeds[0]; n = f.n; model = {f.o, f.h, f.l, f.c, f.v, f.oi, f.per, f.sgn}; real = model; imodel.assign(2, vector<int>(n, 7)); ireal = imodel;
    for (auto& o : sc.ops) { if (o.name == "cfg" || o.name == "feed") continue; A.begin_op(); LOG.add("%s", o.name.c_str());
      if (o.name == "reset") { model = {f.o, f.h, f.l, f.c, f.v, f.oi, f.per, f.sgn}; real = model; continue; }
      if (o.name == "both") { both(o, f); continue; }
      if (o.name == "pipe") { const Fn* fn = fn_by_name(o.gets("fn")); const Direct* d = fn ? direct_by_name(fn->name.c_str()) : nullptr; if (!d) continue; string os = o.gets("o", "-"); call(fn, d, os, full_opts(fn, os), o, nullptr); continue; }
      S& s = live[(int)o.geti("s")];
      if (o.name == "open") { close(s); s = S(); s.f = fn_by_name(o.gets("fn")); s.d = s.f ? direct_by_name(s.f->name.c_str()) : nullptr; if (!s.d) continue; s.os = o.gets("o", "-"); s.opt = full_opts(s.f, s.os); if (s.d->init(&s.st, s.opt.data()) || s.d->init(&s.tw, s.opt.data())) { close(s); s.d = nullptr; } continue; }
      if (o.name == "block" && s.d) call(s.f, s.d, s.os, s.opt, o, &s); }
    for (auto& k : live) close(k.second); if (!A.live.empty()) viol("leak", "", "%zu blocks still allocated after everything was freed", A.live.size());
  }
};
}
void run_pipe(const Scenario& sc) { Pipe* l = new Pipe; try { l->run(sc); } catch (...) { delete l; throw; } delete l; }

// ---------------------------------------------------------------- C25: settings that change while streams are open
// A stream keeps the settings it was opened under: whatever is changed afterwards, it (and a copy restored from an image of it)
// goes on like the same stream with nothing changed.
namespace {
static string fmt(const char* f, ...) { char b[700]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
struct Env {
  struct S { const Fn* f = nullptr; const Direct* d = nullptr; string os; vector<double> opt; void *st = nullptr, *tw = nullptr; int at = 0, pos = 0, lb = 0; unsigned dirty = 0; vector<vector<double>> solo; vector<int> rcs; std::unique_ptr<SimFile> img; int imgpos = 0; string what; };
  Exec ex; Feed fd; std::map<int, S> live; bool held = false; Violation first;
  // A stream whose own candle settings changed goes on being driven after a difference (for memory safety and return codes); the difference is reported at the end.
  void differ(const S& s, bool copy, const string& d) { const char* k = s.dirty & 4 ? "settings-candle" : copy ? "settings-restored" : s.dirty ? "settings-stream" : "settings-unrelated"; try { viol(k, s.f->name, "%s", d.c_str()); } catch (Violation& v) { if (!(s.dirty & 4)) throw; if (!held) { held = true; first = v; } } }
  void close(S& s) { for (void** p : {&s.st, &s.tw}) { if (*p) s.d->freest(p); *p = nullptr; } if (A.invalid_free && s.f) viol("invalid-free", s.f->name, "StateFree released a block that is not allocated"); }
  void feed(S& s, void* st, int& pos, long n, bool block, bool copy) {
    size_t no = strlen(s.d->out), ni = strlen(s.d->in); const char* fn = s.f->name.c_str();
    while (n > 0 && pos < fd.n) { int k = block ? (int)std::min<long>(n, fd.n - pos) : 1, on = -9, ob = -9, rc; Bufs b; vector<vector<double>> cp(ni);
      for (size_t i = 0; i < ni; i++) { const vector<double>& v = series(s.f, s.d, fd, i); cp[i].assign(v.begin() + pos, v.begin() + pos + k); b.in.push_back(cp[i].data()); }
      b.outputs(s.d, (size_t)k, 3 + copy); scrub_stack(ex.junk * 31 + copy); rc = block ? s.d->bstate(st, 0, k - 1, b.in.data(), &ob, &on, b.out.data()) : s.d->state(st, b.in.data(), b.out.data());
      SIM_BARS += k; LOG.add(" %d", rc); string me = who(s.f, s.os, false) + " (stream from bar " + std::to_string(s.at) + (copy ? ", restored" : "") + s.what + ")";
      int want = s.rcs[pos - s.at + k - 1]; if (rc != want) differ(s, copy, fmt("%s returns %d at bar %d, %d with no setting changed", me.c_str(), rc, pos + k - 1, want)); if (rc && rc != TA_NEED_MORE_DATA) viol("settings-rc", fn, "%s returns %d at bar %d", me.c_str(), rc, pos + k - 1);
      if (block && on != k) viol("settings-frame", fn, "%s reports %d elements for a block of %d bars", me.c_str(), on, k);
      for (int j = 0; j < k; j++) { int bar = pos + j; if (s.rcs[bar - s.at]) continue; COMPARED++; STATS[s.dirty ? "settings.after_own" : "settings.after_other"]++;
        for (size_t q = 0; q < no; q++) { double v = b.get(q, j); LOG.addv(v); if (!biteq(v, s.solo[q][bar - s.at])) { differ(s, copy, fmt("%s output %zu at bar %d is %.17g, %.17g with no setting changed", me.c_str(), q, bar, v, s.solo[q][bar - s.at])); break; } } }
      pos += k; n -= k; }
  }
  void change(const Op& o) {
    string w = o.gets("w"); int id = (int)o.geti("id"); char t[80]; bool un = w == "unst", co = w == "compat", re = w == "init" || w == "shutdown", all = re || (id == TA_AllCandleSettings && w == "default"); if (re) id = TA_AllCandleSettings;
    for (auto& k : live) { S& s = k.second; if (!s.d || un || co) continue; unsigned m = cdl_known(s.f->name) ? cdl_mask(s.f->name) : s.f->name.compare(0, 3, "CDL") == 0 ? ~0u : 0; if ((all ? m : m >> id & 1) && s.lb == 0) return; }
    long v = un || co ? o.geti("v") : o.geti("p");
    if (re) snprintf(t, sizeof t, ", TA_%s", w == "init" ? "Initialize" : "Shutdown"); else if (un) snprintf(t, sizeof t, ", unstable period %d=%ld", id, v); else if (co) snprintf(t, sizeof t, ", compatibility %ld", v); else if (w == "default") snprintf(t, sizeof t, ", candle default %d", id); else snprintf(t, sizeof t, ", candle setting %d period %ld", id, v);
    STATS["fault.setting." + w]++;
    if (w == "init") TA_Initialize(); else if (re) TA_Shutdown(); else if (un) TA_SetUnstablePeriod((TA_FuncUnstId)id, (unsigned)o.geti("v")); else if (co) TA_SetCompatibility((TA_Compatibility)(o.geti("v") & 1)); else if (w == "candle") TA_SetCandleSettings((TA_CandleSettingType)id, (TA_RangeType)o.geti("r"), (int)o.geti("p"), o.getd("f", 1)); else TA_RestoreCandleDefaultSettings((TA_CandleSettingType)id);
    for (auto& k : live) { S& s = k.second; if (!s.d) continue; s.what += t;
      if (un || re) { for (int i = 0; i < TA_FUNC_UNST_ALL; i++) if ((re || id == i || id == TA_FUNC_UNST_ALL) && unst_may(s.f, i)) s.dirty |= 1; } if (co || re) { if (!cdl_known(s.f->name)) s.dirty |= 2; }
      if (!un && !co) { unsigned m = cdl_known(s.f->name) ? cdl_mask(s.f->name) : s.f->name.compare(0, 3, "CDL") == 0 ? ~0u : 0; if (all ? m : m >> id & 1) s.dirty |= 4; } }
  }
  void run(const Scenario& sc) {
    ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply(); if (!ex.feeds.count(0)) return; fd = ex.feeds[0];
    for (auto& o : sc.ops) { if (o.name == "cfg" || o.name == "feed") continue; A.begin_op(); LOG.add("%s", o.name.c_str());
      if (o.name == "set") { change(o); continue; }
      S& s = live[(int)o.geti("s")];
      if (o.name == "open") { if (s.d) close(s); s = S(); s.f = fn_by_name(o.gets("fn")); s.d = s.f ? direct_by_name(s.f->name.c_str()) : nullptr; s.at = s.pos = (int)o.geti("at"); if (!s.d || s.at >= fd.n) { s.d = nullptr; continue; }
        s.os = o.gets("o", "-"); s.opt = full_opts(s.f, s.os); s.lb = s.d->lookback(s.opt.data()); if (s.d->init(&s.st, s.opt.data())) { close(s); s.d = nullptr; continue; }
        size_t no = strlen(s.d->out), ni = strlen(s.d->in); s.solo.assign(no, {}); void* st = nullptr; if (s.d->init(&st, s.opt.data())) { close(s); s.d = nullptr; continue; } // the same stream with nothing changed
        for (int i = s.at; i < fd.n; i++) { Bufs b; for (size_t j = 0; j < ni; j++) b.in.push_back(series(s.f, s.d, fd, j).data() + i); b.outputs(s.d, 1, 3); s.rcs.push_back(s.d->state(st, b.in.data(), b.out.data())); for (size_t q = 0; q < no; q++) s.solo[q].push_back(b.get(q, 0)); }
        s.d->freest(&st); continue; }
      if (!s.d) continue;
      if (o.name == "bar") { int p = s.pos; feed(s, s.st, s.pos, o.geti("n"), o.geti("block"), false); if (s.tw) feed(s, s.tw, p, s.pos - p, !o.geti("block"), true); }
      else if (o.name == "save") { s.img.reset(new SimFile); SimStream w; w.f = s.img.get(); w.write = true; FILE* fp = sim_open(&w, (int)o.geti("buf")); int rc = s.d->save(s.st, fp); if (fclose(fp)) rc = rc ? rc : -1; s.imgpos = s.pos; if (rc) viol("save-rc", s.f->name, "%s StateSave returned %d on a healthy device", who(s.f, s.os, false).c_str(), rc); }
      else if (o.name == "load" && s.img) { if (s.tw) { s.d->freest(&s.tw); s.tw = nullptr; } SimStream q; q.f = s.img.get(); FILE* fp = sim_open(&q, 0); int rc = s.d->load(&s.tw, fp), p = s.imgpos; fclose(fp); STATS["settings.restored"]++; STATS["fault.crash"]++;
        if (rc || !s.tw) viol("load-rc", s.f->name, "%s StateLoad of a complete image returned %d", who(s.f, s.os, false).c_str(), rc); feed(s, s.tw, p, s.pos - p, false, true); } }
    for (auto& k : live) if (k.second.d) close(k.second); if (!A.live.empty()) viol("leak", "", "%zu blocks still allocated after everything was freed", A.live.size());
    if (held) throw first;
  }
};
}
void run_env(const Scenario& sc) { Env* l = new Env; try { l->run(sc); } catch (...) { delete l; throw; } delete l; }

// The image of a stream is a function of what the stream was opened with and fed: two processes with other memory contents, the
// same stream saved twice, a restored copy, and a stream fed in blocks write the same bytes.
namespace {
struct Imager {
  const Fn* f = nullptr; const Direct* d = nullptr; string os; vector<double> opt; void* st[2] = {nullptr, nullptr}; int pos = 0, gen[2] = {0, 0}; bool blk = false; Exec ex; Feed fd;
  string me() { return who(f, os, false) + " after " + std::to_string(pos) + " bars"; }
  void world(int k) { A.junk = (k ? ex.junk2 : ex.junk) * 0x0101010101010101ull + 7 * k; scrub_stack(A.junk ^ 0x55); }
  void step(int k, int p, int n, bool block) {
    size_t ni = strlen(d->in);
    while (n > 0) { int c = block ? n : 1, ob, on; Bufs b; vector<vector<double>> cp(ni);
      for (size_t i = 0; i < ni; i++) { const vector<double>& v = series(f, d, fd, i); cp[i].assign(v.begin() + p, v.begin() + p + c); b.in.push_back(cp[i].data()); }
      b.outputs(d, (size_t)c, 3 + k); world(k); int rc = block ? d->bstate(st[k], 0, c - 1, b.in.data(), &ob, &on, b.out.data()) : d->state(st[k], b.in.data(), b.out.data()); LOG.add(" %d", rc);
      if (rc && rc != TA_NEED_MORE_DATA) viol("image-rc", f->name, "%s a step returns %d", me().c_str(), rc); SIM_BARS += c; p += c; n -= c; } }
  string image(int k, void* s, int buf) { SimFile F; SimStream w; w.f = &F; w.write = true; FILE* fp = sim_open(&w, buf); world(k); int rc = d->save(s, fp); if (fclose(fp)) rc = rc ? rc : -1; if (rc) viol("save-rc", f->name, "%s StateSave returned %d on a healthy device", me().c_str(), rc); return string((const char*)F.data.data(), F.data.size()); }
  void same(const char* key, const string& a, const string& b, const char* what) {
    COMPARED++; if (a == b) return; size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    viol(key, f->name, "%s %s: images of %zu and %zu bytes differ from byte %zu on", me().c_str(), what, a.size(), b.size(), i); }
  void run(const Scenario& sc) {
    ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply(); if (!ex.feeds.count(0)) return; fd = ex.feeds[0];
    for (auto& o : sc.ops) { if (o.name == "cfg" || o.name == "feed") continue; A.begin_op(); LOG.add("%s", o.name.c_str());
      if (o.name == "open") { if (f) return; f = fn_by_name(o.gets("fn")); d = f ? direct_by_name(f->name.c_str()) : nullptr; if (!d) return; os = o.gets("o", "-"); opt = full_opts(f, os); blk = o.geti("block"); for (int k = 0; k < 2; k++) { world(k); if (d->init(&st[k], opt.data())) { for (int q = 0; q <= k; q++) d->freest(&st[q]); return; } } continue; }
      if (!d) continue;
      if (o.name == "bar") { int n = (int)std::min<long>(o.geti("n"), fd.n - pos); if (n <= 0) continue; step(0, pos, n, false); step(1, pos, n, blk && o.geti("block")); pos += n; }
      else if (o.name == "save") { string a = image(0, st[0], o.geti("buf") ? -1 : 0), b = image(1, st[1], 0); STATS["image.compared"]++; LOG.add("%zu %016llx", a.size(), (unsigned long long)hashstr(a));
        same(gen[0] != gen[1] ? "image-restored" : blk ? "image-block" : "image-twin", a, b, gen[0] != gen[1] ? "and the same stream restored in between" : blk ? "fed singly and in blocks" : "opened and fed twice");
        if (o.geti("again")) same("image-again", a, image(0, st[0], -1), "saved twice"); }
      else if (o.name == "load") { int k = (int)o.geti("k") & 1; SimFile F; string a = image(k, st[k], 0); F.data.assign(a.begin(), a.end()); d->freest(&st[k]); st[k] = nullptr; world(1 - k); SimStream q; q.f = &F; FILE* fp = sim_open(&q, o.geti("buf") ? -1 : 0); int rc = d->load(&st[k], fp); fclose(fp); STATS["fault.crash"]++; STATS["image.restored"]++; gen[k]++;
        if (rc || !st[k]) viol("load-rc", f->name, "%s StateLoad of a complete image returned %d", me().c_str(), rc); same("image-roundtrip", a, image(k, st[k], 0), "restored and saved again"); } }
    for (int k = 0; k < 2; k++) if (st[k]) d->freest(&st[k]);
    if (!A.live.empty()) viol("leak", "", "%zu blocks still allocated after everything was freed", A.live.size());
  }
};
}
void run_image(const Scenario& sc) { Imager* l = new Imager; try { l->run(sc); } catch (...) { delete l; throw; } delete l; }
// ---------------------------------------------------------------- C27
// C27: the values delivered are those of a small executable reference model of the indicator (refs.cpp, cdlref.cpp), through
// batch calls of both precisions over any range and through streams fed singly or in blocks, with crashes and restores in between.
namespace {
struct Judge { // the model's answer for one history, and how far rounding alone moves it
  const Fn* f; const Direct* d; vector<double> opt; RefSet s; Feed fd; int n, start, L = 0; bool cdl; vector<vector<double>> in, y; vector<vector<vector<double>>> p; vector<double> tol; vector<char> am;
  static double nudge(double x, uint64_t k) { uint64_t u; memcpy(&u, &x, 8); return std::isfinite(x) ? x * (1 + 1e-13 * ((double)(mix(u, k) >> 11) / 4503599627370496.0 - 1)) : x; }
  vector<vector<double>> eval(const vector<vector<double>>& w) { vector<const double*> q; for (auto& v : w) q.push_back(v.data()); RefOut r = ref_eval(f->name, opt, s, q, n, start); L = r.lookback; return r.v; }
  void run() {
    cdl = cdl_known(f->name); CandleSet cs[TA_AllCandleSettings]; 
    if (cdl) { cdl_defaults(cs); L = cdl_lookback(f->name, cs); vector<int> v; cdl_eval(f->name, fd, cs, opt.empty() ? 0 : opt[0], v, am); y.assign(1, vector<double>(v.begin(), v.end())); return; }
    y = eval(in); double m = 0, M = 0; for (auto& v : in) for (double x : v) if (std::isfinite(x)) M = std::max(M, fabs(x)); for (auto& v : y) { m = 0; for (double x : v) if (std::isfinite(x)) m = std::max(m, fabs(x)); tol.push_back(1e-8 * std::max(m, 1e-5) + 1e-14 * M); } }
  bool fits(size_t q, int t, double x) { // x delivered for output q at bar t
    if (cdl) { if (am[t]) { STATS["oracle.ambiguous_bars"]++; return true; } COMPARED++; return x == y[q][t]; }
    if (q >= y.size()) return true; double w = y[q][t];
    if (std::isnan(w) && index_output(f, q)) { bool mx = f->name == "MAXINDEX" || q == 1; int a = t - (int)opt[0] + 1, i = (int)x; COMPARED++; if (i < a || i > t) return false; for (int k = a; k <= t; k++) if (mx ? in[0][k] > in[0][i] : in[0][k] < in[0][i]) return false; return true; } // a tie: any of them
    if (std::isnan(w) && !std::isnan(x) && strcmp(f->fi->group, "Math Transform")) { STATS["oracle.undecided"]++; return true; }
    if (biteq(x, w) || x == w || fabs(x - w) <= tol[q]) { COMPARED++; return true; }
    if (p.empty()) for (uint64_t k = 1; k <= 14; k++) { auto z = in; for (auto& v : z) for (double& a : v) a = nudge(a, k); s.noise = k; p.push_back(eval(z)); }
    double sp = 0; for (auto& r : p) { double v = r[q][t]; if (!std::isfinite(v) || !std::isfinite(w)) { if (biteq(v, w) || v == w) continue; STATS["oracle.ill_conditioned"]++; return true; } sp = std::max(sp, fabs(v - w)); }
    if (std::isfinite(x) && std::isfinite(w) && fabs(x - w) <= 1e3 * sp) { STATS["oracle.ill_conditioned"]++; return true; }
    return false; }
};
struct Teller {
  Exec ex; std::map<string, std::unique_ptr<Judge>> js; void* st = nullptr; const Direct* d = nullptr;
  Judge& judge(const Fn* f, const vector<double>& opt, const string& os, int fid, int n, int start, bool single) {
    string k = f->name + os + "|" + std::to_string(fid) + "|" + std::to_string(n) + "|" + std::to_string(start) + (single ? "f" : "d"); auto& p = js[k]; if (p) return *p; p.reset(new Judge); Judge& j = *p; j.f = f; j.d = direct_by_name(f->name.c_str()); j.opt = opt; j.n = n; j.start = start;
    for (size_t i = 0; i < opt.size(); i++) { auto t = f->opt[i]->type; if ((t == TA_OptInput_IntegerRange || t == TA_OptInput_IntegerList) ? opt[i] == (double)TA_INTEGER_DEFAULT : opt[i] == TA_REAL_DEFAULT) j.opt[i] = f->opt[i]->defaultValue; }
    for (int i = 0; i < TA_FUNC_UNST_ALL; i++) j.s.un[i] = (unsigned)ex.cfg.unst; for (auto& u : ex.cfg.unsts) j.s.un[u.first] = (unsigned)u.second; j.s.compat = ex.cfg.compat ? 1 : 0;
    j.fd = ex.feeds[fid]; for (auto* v : {&j.fd.o, &j.fd.h, &j.fd.l, &j.fd.c, &j.fd.v, &j.fd.oi, &j.fd.per, &j.fd.sgn}) { v->resize(n); if (single) for (double& x : *v) x = (float)x; } j.fd.n = n;
    for (size_t i = 0; i < strlen(j.d->in); i++) j.in.push_back(series(f, j.d, j.fd, i)); j.run(); return j; }
  void check(const char* key, Judge& j, size_t q, int t, double x, const string& how) { if (!j.fits(q, t, x)) viol(key, j.f->name, "%s output %zu bar %d is %.12g, the reference model gives %.12g", how.c_str(), q, t, x, j.y[q][t]); LOG.addv(x); }
  void run(const Scenario& sc) {
    ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply();
    for (auto& o : sc.ops) {
      if (o.name != "value" && o.name != "follow") continue; const Fn* f = fn_by_name(o.gets("fn")); d = f ? direct_by_name(f->name.c_str()) : nullptr; if (!d || !ex.feeds.count(0)) continue; if (!ref_known(f->name) && !cdl_known(f->name)) continue;
      const Feed& fd = ex.feeds[0]; string os = o.gets("o", "-"); vector<double> opt = full_opts(f, os); size_t ni = strlen(d->in), no = strlen(d->out); A.begin_op(); LOG.add("%s", o.name.c_str());
      if (o.name == "value") {
        bool single = o.geti("single"); int a = (int)std::min<long>(o.geti("a"), fd.n - 1), e = (int)std::max<long>(a, std::min<long>(o.geti("e", fd.n - 1), fd.n - 1)); if (a < 0) continue; Judge& j = judge(f, opt, os, 0, e + 1, a, single); string me = who(f, os, single) + " over bars " + std::to_string(a) + ".." + std::to_string(e);
        int lb = d->lookback(opt.data()); if (lb != j.L) viol("lookback", f->name, "%s look-back %d, the reference model needs %d", who(f, os, false).c_str(), lb, j.L);
        Bufs b; int ob = -9, on = -9; b.d.assign(ni, {}); b.f.assign(ni, {}); for (size_t i = 0; i < ni; i++) { const vector<double>& v = series(f, d, j.fd, i); if (single) { b.f[i].assign(v.begin(), v.end()); b.in.push_back(b.f[i].data()); } else { b.d[i] = v; b.in.push_back(b.d[i].data()); } }
        int s = std::max(a, j.L), cnt = std::max(0, e - s + 1); b.outputs(d, (size_t)cnt, o.geti("js") + 3); scrub_stack(o.geti("js") * 77 + ex.junk); int rc = (single ? d->sbatch : d->batch)(a, e, b.in.data(), opt.data(), &ob, &on, b.out.data()); SIM_BARS += e + 1; STATS["probe.valued"]++; LOG.add("%d %d %d", rc, ob, on);
        if (rc || on != cnt || (cnt && ob != s)) viol("value-frame", f->name, "%s returned %d with %d values from bar %d, the reference model delivers %d from bar %d", me.c_str(), rc, on, ob, cnt, s);
        for (size_t q = 0; q < no; q++) for (int t = s; t <= e; t++) check("value", j, q, t, b.get(q, (size_t)(t - s)), me);
      } else {
        Judge& j = judge(f, opt, os, 0, fd.n, 0, false); Rng r(o.getu("plan", 1)); int how = (int)o.geti("how"), pos = 0; if (d->init(&st, opt.data())) viol("stream-rc", f->name, "%s cannot be opened", who(f, os, false).c_str());
        while (pos < fd.n) { bool block = how == 1 || (how == 2 && r.chance(.4)); int c = block ? (int)std::min<long>(r.range(1, r.chance(.5) ? 6 : 60), fd.n - pos) : 1; string me = who(f, os, false) + (block ? " stream, block" : " stream,");
          Bufs b; int ob, on; vector<vector<double>> cp(ni); for (size_t i = 0; i < ni; i++) { const vector<double>& v = series(f, d, fd, i); cp[i].assign(v.begin() + pos, v.begin() + pos + c); b.in.push_back(cp[i].data()); }
          b.outputs(d, (size_t)c, pos + 3); int rc = block ? d->bstate(st, 0, c - 1, b.in.data(), &ob, &on, b.out.data()) : d->state(st, b.in.data(), b.out.data()); SIM_BARS += c; int last = pos + c - 1, want = last < j.L ? TA_NEED_MORE_DATA : TA_SUCCESS; LOG.add("%d", rc);
          if (rc != want) viol("stream-rc", f->name, "%s bar %d returned %d, expected %d (look-back %d)", me.c_str(), last, rc, want, j.L);
          for (size_t q = 0; q < no; q++) for (int t = std::max(pos, j.L); t <= last; t++) check("stream-value", j, q, t, b.get(q, (size_t)(t - pos)), me);
          pos += c;
          if (o.geti("crash") && r.chance(.06)) { SimFile F; SimStream w; w.f = &F; w.write = true; FILE* fp = sim_open(&w, r.chance(.5) ? -1 : 0); int rc = d->save(st, fp); if (fclose(fp)) rc = rc ? rc : -1; d->freest(&st); st = nullptr; scrub_stack(pos); SimStream q; q.f = &F; fp = sim_open(&q, -1); int rl = d->load(&st, fp); fclose(fp); STATS["fault.crash"]++; if (rc || rl || !st) viol("stream-rc", f->name, "%s save %d load %d on a healthy device", me.c_str(), rc, rl); } }
        d->freest(&st); st = nullptr; STATS["probe.followed"]++; }
    }
    if (!A.live.empty()) viol("leak", "", "%zu blocks still allocated after everything was freed", A.live.size());
  }
};
}
void run_indicator(const Scenario& sc) { Teller* l = new Teller; try { l->run(sc); } catch (...) { delete l; throw; } delete l; }
