#include "exec.h"
#include "direct.h"

string Scenario::text() const {
  string s = "prop " + prop + "\n";
  for (auto& o : ops) { s += o.name; for (auto& k : o.kv) s += " " + k.first + "=" + k.second; s += "\n"; }
  return s;
}
Scenario Scenario::parse(const string& t) {
  Scenario sc; size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i); if (e == string::npos) e = t.size();
    string ln = t.substr(i, e - i); i = e + 1; if (ln.empty() || ln[0] == '#') continue;
    vector<string> w; size_t p = 0; while (p < ln.size()) { size_t q = ln.find(' ', p); if (q == string::npos) q = ln.size(); if (q > p) w.push_back(ln.substr(p, q - p)); p = q + 1; }
    if (w.empty()) continue;
    if (w[0] == "prop") { sc.prop = w.size() > 1 ? w[1] : ""; continue; }
    Op o; o.name = w[0]; for (size_t k = 1; k < w.size(); k++) { size_t q = w[k].find('='); if (q == string::npos) continue; o.kv[w[k].substr(0, q)] = w[k].substr(q + 1); }
    sc.ops.push_back(o);
  }
  return sc;
}
string fkey(const Meta& m) { return m.fn->name + "(" + m.opts + ")"; }

// ---------------------------------------------------------------- Inst
int Inst::alloc(const Fn* f, const vector<double>& o, bool use_opts) {
  fn = f; opt = o; h = nullptr;
  int rc = TA_ParamHolderAlloc(f->fi->handle, &h); if (rc) return rc;
  if (use_opts) for (size_t i = 0; i < f->opt.size() && i < o.size(); i++) {
    auto t = f->opt[i]->type;
    if (t == TA_OptInput_IntegerRange || t == TA_OptInput_IntegerList) TA_SetOptInputParamInteger(h, (unsigned)i, (int)o[i]);
    else TA_SetOptInputParamReal(h, (unsigned)i, o[i]);
  }
  return 0;
}
void Inst::inputs(const Feed& f, int k) {
  int reals = 0;
  for (size_t i = 0; i < fn->in.size(); i++) {
    auto* ii = fn->in[i];
    if (ii->type == TA_Input_Price) TA_SetInputParamPricePtr(h, (unsigned)i, f.o.data() + k, f.h.data() + k, f.l.data() + k, f.c.data() + k, f.v.data() + k, f.oi.data() + k);
    else if (ii->type == TA_Input_Real) {
      const vector<double>* s = &f.c;
      if (fn->name == "MAVP" && i == 1) s = &f.per;
      else if (fn->name == "ACOS" || fn->name == "ASIN") s = &f.sgn;
      else if (reals == 1) s = &f.h;
      reals++;
      TA_SetInputParamRealPtr(h, (unsigned)i, s->data() + k);
    }
  }
}
void Inst::outputs(int n, uint64_t sent) {
  rs = -1.8637511e-201 * (double)(1 + sent % 997); is = -(int)(1000 + sent % 997); nout = n;
  ro.resize(fn->out.size()); io.resize(fn->out.size());
  for (size_t i = 0; i < fn->out.size(); i++) {
    if (fn->out[i]->type == TA_Output_Real) { if ((int)ro[i].size() != n) vector<double>(n, rs).swap(ro[i]); else std::fill(ro[i].begin(), ro[i].end(), rs); TA_SetOutputParamRealPtr(h, (unsigned)i, ro[i].data()); }
    else { if ((int)io[i].size() != n) vector<int>(n, is).swap(io[i]); else std::fill(io[i].begin(), io[i].end(), is); TA_SetOutputParamIntegerPtr(h, (unsigned)i, io[i].data()); }
  }
}

int Inst::call(const Feed& fd, int a, int b, int* ob, int* on, bool single) {
  const Direct* D = single ? direct_by_name(fn->name.c_str()) : nullptr; if (!D) return TA_CallFunc(h, a, b, ob, on);
  vector<vector<float>> fbuf; vector<const void*> fin; vector<double> o = opt; vector<void*> out; int reals = 0; // single precision entry point, called directly
  for (const char* c = D->in; *c; c++) { const vector<double>* v = &fd.c; switch (*c) { case 'O': v = &fd.o; break; case 'H': v = &fd.h; break; case 'L': v = &fd.l; break; case 'V': v = &fd.v; break; case 'I': v = &fd.oi; break; case 'C': break; default: if (fn->name == "MAVP" && reals == 1) v = &fd.per; else if (fn->name == "ACOS" || fn->name == "ASIN") v = &fd.sgn; else if (reals == 1) v = &fd.h; reals++; } fbuf.emplace_back(v->begin(), v->end()); }
  for (auto& v : fbuf) fin.push_back(v.data());
  for (size_t i = o.size(); i < fn->opt.size(); i++) o.push_back(fn->opt[i]->defaultValue);
  for (size_t k = 0; k < fn->out.size(); k++) out.push_back(fn->out[k]->type == TA_Output_Integer ? (void*)io[k].data() : (void*)ro[k].data());
  return D->sbatch(a, b, fin.data(), o.data(), ob, on, out.data());
}

// ---------------------------------------------------------------- settings
void Settings::apply() const {
  TA_Initialize();
  if (unst) TA_SetUnstablePeriod(TA_FUNC_UNST_ALL, (unsigned)unst);
  for (auto& u : unsts) TA_SetUnstablePeriod((TA_FuncUnstId)u.first, (unsigned)u.second);
  if (compat) TA_SetCompatibility((TA_Compatibility)compat);
  if (cdl) { Rng r(cdl);
    for (int t = 0; t < TA_AllCandleSettings; t++) if (r.chance(.5)) TA_SetCandleSettings((TA_CandleSettingType)t, (TA_RangeType)r.below(3), (int)r.below(15), r.range(1, 40) / 16.0); }
}

// ---------------------------------------------------------------- reference
Ref& Exec::ref(const Meta& m) {
  string key = m.fn->name + "|" + m.opts + "|" + std::to_string(m.feed) + "|" + std::to_string(m.at);
  auto& p = refs[key]; if (p) return *p;
  p = std::make_shared<Ref>(); Ref& R = *p; const Feed& fd = feeds.at(m.feed);
  long sfa = A.fail_at; bool sfp = A.fail_persist; long soa = A.op_allocs; long sof = A.op_fired; uint64_t sj = A.junk;
  A.begin_op(); A.junk = junk2; uint64_t ser = A.serial;
  int no = (int)m.fn->out.size();
  { // batch over the whole history
    Inst b; if (b.alloc(m.fn, parse_opts(m.opts))) throw Skip{"holder"};
    int lb = -1; TA_GetLookback(b.h, &lb); R.lookback = lb; R.n = fd.n - m.at;
    if (chkBatch && R.n > 0) {
      b.inputs(fd, m.at); b.outputs(R.n, 1); scrub_stack(junk2);
      R.batchrc = TA_CallFunc(b.h, 0, R.n - 1, &R.bbeg, &R.bnb);
      R.bout.resize(no); if (!R.batchrc) for (int o = 0; o < no; o++) { for (int i = 0; i < R.bnb && i < R.n; i++) R.bout[o].push_back(b.out(o, i)); }
    }
    TA_ParamHolderFree(b.h);
  }
  Inst q; if (q.alloc(m.fn, parse_opts(m.opts))) throw Skip{"holder"};
  q.outputs(1, 2); scrub_stack(junk2);
  R.initrc = TA_InitNewState(q.h);
  if (R.initrc == 0 && chkRef) {
    R.out.assign(no, vector<double>(R.n)); R.unt.assign(no, vector<char>(R.n)); R.rc.resize(R.n);
    for (int i = 0; i < R.n; i++) {
      q.inputs(fd, m.at + i); q.outputs(1, 2);
      if ((i & 7) == 0) scrub_stack(junk2);
      R.rc[i] = TA_CallFuncState(q.h);
      for (int o = 0; o < no; o++) { R.out[o][i] = q.out(o, 0); R.unt[o][i] = q.untouched(o, 0); }
    }
  }
  if (R.initrc == 0) TA_FreeState(q.h);
  TA_ParamHolderFree(q.h);
  for (auto it = A.live.begin(); it != A.live.end();) if (it->second.id >= ser) { free(it->first); it = A.live.erase(it); } else ++it;
  A.begin_op(sfa, sfp); A.op_allocs = soa; A.op_fired = sof; A.junk = sj;
  return R;
}

// ---------------------------------------------------------------- running
void Exec::configure(const Scenario& s) {
  prop = s.prop;
  chkBatch = prop == "C01"; chkRef = !chkBatch;
  chkLeak = prop == "C05" || prop == "C08" || prop == "C09" || prop == "C10";
  for (auto& o : s.ops) {
    if (o.name == "cfg") { cfg.unst = o.geti("unst"); cfg.compat = o.geti("compat"); cfg.cdl = o.getu("cdl"); junk = o.getu("junk", 1); junk2 = o.getu("junk2", 2);
      for (auto& k : o.kv) if (k.first[0] == 'u' && k.first.size() > 1 && isdigit(k.first[1])) cfg.unsts.push_back({atol(k.first.c_str() + 1), atol(k.second.c_str())}); }
    else if (o.name == "feed") { Feed f; f.kind = (int)o.geti("kind"); f.seed = o.getu("seed", 1); f.q2 = o.geti("q"); f.pat = o.gets("pat"); f.n = (int)o.geti("n", 100); if (f.n < 1) f.n = 1; if (f.n > 200000) f.n = 200000; f.build(); feeds[(int)o.geti("id")] = std::move(f); }
  }
}
void Exec::run(const Scenario& s) {
  configure(s);
  A.reset(junk * 0x0101010101010101ull);
  cfg.apply();
  for (auto& o : s.ops) op(o);
  finish();
}
void Exec::op(const Op& o) {
  if (o.name == "cfg" || o.name == "feed") return;
  LOG.add("%s", o.name.c_str());
  if (!in_task) A.begin_op();
  if (!in_task) scrub_stack(junk * 3);
  if (o.name == "stream") op_stream(o);
  else if (o.name == "step") op_step(o);
  else if (o.name == "bstep") op_bstep(o);
  else if (o.name == "save") op_save(o);
  else if (o.name == "load") op_load(o);
  else if (o.name == "free") op_free(o);
  else if (o.name == "crash") op_crash(o);
  else if (o.name == "batch") op_batch(o);
  else if (o.name == "null") op_null(o);
  else if (o.name == "jsave") op_jsave(o);
  else if (o.name == "jload") op_jload(o);
  else if (o.name == "occload") op_occload(o);
}
void Exec::post(const string& fn, const char* what) {
  if (A.invalid_free) viol("invalid-free", fn, "%s released a block that is not allocated", what);
}
void Exec::drop(Slot& s) {
  if (!s.exists) return;
  if (s.in.h) {
    A.begin_op();
    if (s.live) { int rc = TA_FreeState(s.in.h); post(s.m.fn->name, "StateFree");
      if (rc && chkLeak) viol("free-rc", s.m.fn->name, "%s StateFree of a live stream returned %d", fkey(s.m).c_str(), rc); }
    TA_ParamHolderFree(s.in.h);
  }
  s.in.h = nullptr; s.live = s.exists = false;
}
void Exec::finish() {
  for (auto& k : slots) drop(k.second);
  slots.clear();
  if (chkLeak && !in_task && !A.live.empty()) {
    size_t n = 0; for (auto& b : A.live) n += b.second.n;
    long cnt = (long)A.live.size();
    const char* f = refs.empty() ? "" : refs.begin()->first.c_str(); string fn = f; fn = fn.substr(0, fn.find('|'));
    viol("leak", fn, "%ld blocks (%zu bytes) still allocated after everything was released", cnt, n);
  }
}

// ---------------------------------------------------------------- checks on delivered bars
static bool close_enough(double a, double b, double scale) {
  if (a != a && b != b) return true;
  if (std::isinf(a) || std::isinf(b) || a != a || b != b) return a == b;
  return fabs(a - b) <= 1e-6 * (scale + fabs(b));
}
// True when the batch result at this bar moves by a comparable amount under input perturbations of a few ulps:
// the difference is then rounding noise of an ill-conditioned formula, not a different formula.
bool Exec::ill_conditioned(const Meta& m, int o, int e, double g, double w) {
  bool isint = m.fn->out[o]->type == TA_Output_Integer;
  if (isint && (m.fn->name.compare(0, 3, "CDL") == 0 || !(m.fn->fi->flags & TA_FUNC_FLG_UNST_PER))) return false;
  const Feed& fd = feeds.at(m.feed); STATS["oracle.conditioning_probes"]++;
  for (int t = 0; t < 6; t++) {
    Feed p = fd; Rng r(7919 + t); double eps = t < 3 ? 4e-16 : t < 5 ? 1e-13 : 1e-12;
    for (auto* v : {&p.o, &p.h, &p.l, &p.c, &p.v, &p.oi, &p.sgn}) for (auto& x : *v) x *= 1 + eps * (2 * r.unit() - 1);
    Inst b; if (b.alloc(m.fn, parse_opts(m.opts))) return false;
    int n = fd.n - m.at, ob = 0, on = 0; b.inputs(p, m.at); b.outputs(n, 1); int rc = TA_CallFunc(b.h, 0, n - 1, &ob, &on);
    double x = rc == 0 && e < on ? b.out(o, e) : w; TA_ParamHolderFree(b.h);
    bool moved; // by as much as stream and batch differ; infinities and NaN only count when the perturbation turns one into the other
    if (std::isfinite(g) && std::isfinite(w)) moved = !std::isfinite(x) || fabs(x - w) > 0.1 * fabs(g - w);
    else moved = std::isfinite(x) == std::isfinite(g) && std::isnan(x) == std::isnan(g) && !biteq(x, w);
    if (moved) { STATS["oracle.ill_conditioned"]++; STATS["ill." + m.fn->name]++; return true; }
  }
  return false;
}
void Exec::check_bar(Slot& s, int i, int rc) { // i: bar index within the stream, outputs in element 0
  Ref& R = ref(s.m); SIM_BARS++;
  LOG.addi(rc); if (rc == 0) COMPARED++;
  int no = (int)s.m.fn->out.size();
  if (rc == 0) for (int o = 0; o < no; o++) LOG.addv(s.in.out(o, 0));
  if (chkBatch) {
    int exp = i < R.lookback ? TA_NEED_MORE_DATA : TA_SUCCESS;
    if (rc != exp) viol(rc == 0 ? "ready-early" : exp == 0 && rc == TA_NEED_MORE_DATA ? "ready-late" : "step-rc", s.m.fn->name, "%s bar %d lookback %d: State returned %d", fkey(s.m).c_str(), i, R.lookback, rc);
    if (rc == 0 && R.batchrc == 0 && i - R.bbeg >= 0 && i - R.bbeg < R.bnb) for (int o = 0; o < no; o++) {
      double g = s.in.out(o, 0), w = R.bout[o][i - R.bbeg];
      // prices set the scale against which rounding is judged
      double sc = 1; const Feed& fd = feeds.at(s.m.feed); if (fd.kind == 6) sc = 1e4; double wear = R.n > 5000 ? R.n / 500. : 1; // running sums wear off over a long feed
      if (!close_enough(g, w, sc * wear) && !ill_conditioned(s.m, o, i - R.bbeg, g, w)) viol("stream-vs-batch", s.m.fn->name, "%s output %d bar %d (lookback %d): stream %.17g batch %.17g", fkey(s.m).c_str(), o, i, R.lookback, g, w);
    }
  } else {
    if (rc != R.rc[i]) viol("diverged-rc", s.m.fn->name, "%s bar %d: State returned %d, the undisturbed stream %d", fkey(s.m).c_str(), i, rc, R.rc[i]);
    if (rc == 0) for (int o = 0; o < no; o++) {
      double g = s.in.out(o, 0); if (s.in.untouched(o, 0) != (bool)R.unt[o][i] || (!R.unt[o][i] && !biteq(g, R.out[o][i])))
        viol("diverged-value", s.m.fn->name, "%s output %d bar %d (lookback %d): %.17g, the undisturbed stream %.17g", fkey(s.m).c_str(), o, i, R.lookback, g, R.out[o][i]);
    }
  }
}

// ---------------------------------------------------------------- ops
void Exec::op_stream(const Op& o) {
  int id = (int)o.geti("s"); const Fn* f = fn_by_name(o.gets("fn")); if (!f) return;
  Slot& s = slots[id]; drop(s);
  s.m = Meta{f, o.gets("o", "-"), (int)o.geti("feed"), (int)o.geti("at"), 0};
  if (!feeds.count(s.m.feed) || s.m.at >= feeds[s.m.feed].n) return;
  Ref& R = ref(s.m);
  if (chkBatch && (R.initrc == 0) != (R.batchrc == 0 || R.batchrc == -1)) viol("init-rc", f->name, "%s StateInit returned %d where the batch call returned %d", fkey(s.m).c_str(), R.initrc, R.batchrc);
  if (chkBatch && R.batchrc == 0 && R.lookback >= R.n && R.bnb) viol("batch-lookback", f->name, "%s batch delivers %d elements from bar %d, Lookback says %d", fkey(s.m).c_str(), R.bnb, R.bbeg, R.lookback);
  if (chkBatch && R.batchrc == 0 && R.lookback < R.n && (R.bbeg != R.lookback || R.bnb != R.n - R.lookback)) viol("batch-lookback", f->name, "%s batch delivers from bar %d, Lookback says %d", fkey(s.m).c_str(), R.bbeg, R.lookback);
  if (s.in.alloc(f, parse_opts(s.m.opts))) return;
  s.exists = true; s.in.outputs(1, junk + 3);
  if (o.geti("empty")) { LOG.add(" empty"); return; }
  if (R.initrc) throw Skip{"init"};
  long fa = o.geti("af"); A.begin_op(fa, o.geti("afp"));
  int rc = TA_InitNewState(s.in.h); post(f->name, "StateInit");
  long fired = A.op_fired; if (fired) STATS["fault.alloc.StateInit"]++;
  LOG.add(" init %d", rc); STATS["max_allocs.StateInit"] = std::max(STATS["max_allocs.StateInit"], A.op_allocs);
  A.begin_op();
  if (fired) {
    if (rc == 0) viol("alloc-hidden", f->name, "%s StateInit returned success although allocation %ld failed", fkey(s.m).c_str(), fa);
    if (rc != TA_ALLOC_ERR) viol("alloc-rc", f->name, "%s StateInit returned %d when allocation %ld failed", fkey(s.m).c_str(), rc, fa);
    int fr = TA_FreeState(s.in.h); post(f->name, "StateFree after failed StateInit");
    if (s.in.state() != nullptr) viol("alloc-cleanup", f->name, "%s state pointer not cleared by StateFree (%d) after failed StateInit", fkey(s.m).c_str(), fr);
    TA_ParamHolderFree(s.in.h); s.in.h = nullptr; s.exists = false;
    if (o.geti("retry", 1)) { Op o2 = o; o2.kv.erase("af"); o2.kv.erase("afp"); op_stream(o2); }
    return;
  }
  if (rc) viol("init-rc", f->name, "%s StateInit returned %d, earlier %d", fkey(s.m).c_str(), rc, R.initrc);
  s.live = true;
}
void Exec::op_step(const Op& o) {
  Slot& s = slots[(int)o.geti("s")]; if (!s.live) return;
  const Feed& fd = feeds[s.m.feed]; long n = o.geti("n", 1);
  for (long k = 0; k < n && s.m.at + s.m.pos < fd.n; k++) {
    s.in.inputs(fd, s.m.at + s.m.pos); s.in.outputs(1, junk + 5 + s.m.pos);
    if (!in_task && (k & 7) == 0) scrub_stack(junk * 5 + k);
    int rc = TA_CallFuncState(s.in.h);
    check_bar(s, s.m.pos, rc); s.m.pos++;
  }
  post(s.m.fn->name, "State");
}
void Exec::op_bstep(const Op& o) {
  Slot& s = slots[(int)o.geti("s")]; if (!s.live) return;
  const Feed& fd = feeds[s.m.feed]; int n = (int)std::min<long>(o.geti("n", 1), fd.n - s.m.at - s.m.pos);
  if (o.geti("n", 1) == 0) { // an empty block
    s.in.inputs(fd, 0); s.in.outputs(1, junk + 12); int ob = -77, on = -77, b = (int)o.geti("base"); int rc = TA_CallFuncBatchState(s.in.h, b + 1, b, &ob, &on); post(s.m.fn->name, "BatchState");
    STATS["probe.empty_block"]++; LOG.add(" empty %d %d", rc, on);
    if (rc || on != 0 || ob != 0) viol("batchstate-empty", s.m.fn->name, "%s BatchState of an empty block returned %d with %d elements from %d", fkey(s.m).c_str(), rc, on, ob);
    for (size_t k = 0; k < s.m.fn->out.size(); k++) if (!s.in.untouched((int)k, 0)) viol("batchstate-empty", s.m.fn->name, "%s BatchState of an empty block wrote output %zu", fkey(s.m).c_str(), k);
    return; }
  if (n <= 0) return;
  Ref& R = ref(s.m); int no = (int)s.m.fn->out.size();
  int base = (int)o.geti("base"); // the segment is addressed as [base, base+n) of an array that begins base bars earlier
  if (base > s.m.at + s.m.pos) base = s.m.at + s.m.pos;
  s.in.inputs(fd, s.m.at + s.m.pos - base); s.in.outputs(n, junk + 11);
  int ob = -77, on = -77; if (!in_task) scrub_stack(junk * 7);
  int rc = TA_CallFuncBatchState(s.in.h, base, base + n - 1, &ob, &on); post(s.m.fn->name, "BatchState");
  STATS["op.BatchState"]++; SIM_BARS += n; if (rc == 0) COMPARED++; LOG.add(" bs %d %d %d", rc, ob, on);
  const char* fn = s.m.fn->name.c_str();
  if (chkBatch) { // values only; the framing rules are C12's
    for (int i = 0; i < n; i++) { int b = s.m.pos + i; if (b < R.lookback || R.batchrc || b - R.bbeg < 0 || b - R.bbeg >= R.bnb) continue;
      double sc = fd.kind == 6 ? 1e4 : 1, wear = R.n > 5000 ? R.n / 500. : 1;
      for (int k = 0; k < no; k++) if (!close_enough(s.in.out(k, i), R.bout[k][b - R.bbeg], sc * wear) && !ill_conditioned(s.m, k, b - R.bbeg, s.in.out(k, i), R.bout[k][b - R.bbeg])) viol("stream-vs-batch", fn, "%s output %d bar %d (lookback %d): BatchState %.17g batch %.17g", fkey(s.m).c_str(), k, b, R.lookback, s.in.out(k, i), R.bout[k][b - R.bbeg]); }
  } else {
    int last = R.rc[s.m.pos + n - 1];
    if (rc != last) viol("batchstate-rc", fn, "%s BatchState over bars %d..%d returned %d, the last State call %d", fkey(s.m).c_str(), s.m.pos, s.m.pos + n - 1, rc, last);
    if (ob != base || on != n) viol("batchstate-frame", fn, "%s BatchState(%d..%d) reported outBegIdx=%d outNBElement=%d", fkey(s.m).c_str(), base, base + n - 1, ob, on);
    for (int i = 0; i < n; i++) { int b = s.m.pos + i;
      for (int k = 0; k < no; k++) {
        double g = s.in.out(k, i); bool isint = s.m.fn->out[k]->type == TA_Output_Integer;
        LOG.addv(g);
        if (R.rc[b] == TA_NEED_MORE_DATA) { if (isint ? g != (double)INT_MAX : g == g) viol("batchstate-warmup", fn, "%s BatchState output %d bar %d is %.17g during warm-up", fkey(s.m).c_str(), k, b, g); }
        else if (R.rc[b] == 0 && !R.unt[k][b] && !biteq(g, R.out[k][b])) viol("batchstate-value", fn, "%s output %d bar %d (lookback %d): BatchState %.17g, State %.17g", fkey(s.m).c_str(), k, b, R.lookback, g, R.out[k][b]);
      } }
  }
  s.m.pos += n;
}
static DiskFault parse_fault(const Op& o) {
  DiskFault f; string k = o.gets("flt", "none");
  f.kind = k == "enospc" ? DiskFault::ENOSPC_ : k == "eio" ? DiskFault::EIO_ : k == "trans" ? DiskFault::TRANSIENT_ : k == "eintr" ? DiskFault::EINTR_ : k == "short" ? DiskFault::SHORT_ : DiskFault::NONE;
  f.at = o.geti("at", -1); f.seed = o.getu("fs"); return f;
}
static const char* FLT[] = {"none", "enospc", "eio", "transient", "eintr", "short"};
void Exec::op_save(const Op& o) {
  Slot& s = slots[(int)o.geti("s")]; if (!s.live) return;
  int fid = (int)o.geti("f"); SimFile& F = files[fid]; const char* fn = s.m.fn->name.c_str();
  if (!o.geti("app")) { F.data.clear(); F.durable = 0; images[fid].clear(); }
  size_t off = F.data.size();
  SimStream st; st.f = &F; st.write = true; st.flt = parse_fault(o);
  int buf = (int)o.geti("buf", -1); FILE* fp = sim_open(&st, buf);
  int rc = TA_SaveState(s.in.h, fp); post(fn, "StateSave");
  STATS["op.save"]++; long fired_in_call = st.fired; 
  int fl = fflush(fp); bool err = ferror(fp); int cl = fclose(fp);
  long len = (long)(F.data.size() - off);
  LOG.add(" save rc %d flush %d len %ld lost %ld", rc, fl, len, st.lost);
  if (st.fired) STATS[string("fault.write.") + FLT[st.flt.kind]]++;
  if (len == 0 && st.lost == 0) viol("save-empty", fn, "%s StateSave returned %d and wrote nothing", fkey(s.m).c_str(), rc);
  if (st.lost == 0) {
    if (rc) viol("save-rc", fn, "%s StateSave returned %d although every byte was written", fkey(s.m).c_str(), rc);
  } else {
    // bytes were refused by the device
    if (rc == 0 && buf == 0 && fired_in_call) viol("save-hides-loss", fn, "%s StateSave returned success although the device refused %ld of its bytes (fault %s at byte %ld)", fkey(s.m).c_str(), st.lost, FLT[st.flt.kind], st.flt.at);
    if (rc == 0 && fl == 0 && cl == 0) viol("save-hides-loss", fn, "%s StateSave and fflush both reported success although the device refused %ld bytes (fault %s at byte %ld, buffer %d)", fkey(s.m).c_str(), st.lost, FLT[st.flt.kind], st.flt.at, buf);
    if (rc == TA_IO_FAILED) STATS["probe.save_reported_failure"]++; else if (rc != 0) viol("save-rc", fn, "%s StateSave returned %d (not TA_IO_FAILED) when the device refused bytes", fkey(s.m).c_str(), rc);
    else STATS["probe.save_failure_at_flush"]++;
  }
  (void)err;
  Image im; im.off = off; im.len = len; im.m = s.m; im.complete = st.lost == 0; im.acked = rc == 0 && fl == 0 && cl == 0;
  images[fid].push_back(im);
  if (im.acked && o.geti("sync", 1)) { F.durable = F.data.size(); }
}
void Exec::op_load(const Op& o) {
  int fid = (int)o.geti("f"); auto& iv = images[fid]; if (iv.empty()) return;
  size_t ix = (size_t)(o.geti("i") % (long)iv.size()); Image im = iv[ix];
  int sid = (int)o.geti("s"); Slot& s = slots[sid]; drop(s);
  const char* fn = im.m.fn->name.c_str();
  SimFile& F = files[fid];
  size_t present = F.data.size() > im.off ? std::min(im.len, F.data.size() - im.off) : 0;
  bool whole = im.complete && present == im.len;
  SimStream st; st.f = &F; st.pos = im.off; st.flt = parse_fault(o);
  long cut = o.geti("cut", -1); if (cut >= 0 && whole) { cut = cut % (long)std::max<size_t>(im.len, 1); st.limit = im.off + cut; whole = false; STATS["fault.read.truncated"]++; }
  if (st.flt.kind == DiskFault::EIO_ && whole) { st.flt.at = st.flt.at % (long)std::max<size_t>(im.len, 1); whole = false; }
  SimFile shifted; // after a passing read error there is always something more to read
  if (st.flt.kind == DiskFault::TRANSIENT_ && whole && im.len) { st.flt.at = st.flt.at % (long)im.len; whole = false; shifted = F; shifted.data.resize(im.off + im.len); for (int t = 0; t < 2; t++) for (size_t b = 0; b < im.len; b++) { uint8_t c = shifted.data[im.off + b]; shifted.data.push_back(c); } st.f = &shifted; }
  if (!whole && im.complete && cut < 0 && st.flt.kind != DiskFault::EIO_ && st.flt.kind != DiskFault::TRANSIENT_) STATS["fault.crash.torn_image"]++;
  if (!im.complete) { // image of a failed save: what follows is whatever the device took; present it as the end of the file
    st.limit = im.off + present; }
  int buf = (int)o.geti("buf", -1); 
  s.m = im.m; s.in = Inst();
  if (s.in.alloc(im.m.fn, parse_opts(im.m.opts), !o.geti("dflt"))) return;
  s.exists = true; s.in.outputs(1, junk + 7);
  FILE* fp = sim_open(&st, buf);
  long fa = o.geti("af"); A.begin_op(fa, o.geti("afp")); size_t mr = A.max_request; A.max_request = 0;
  int rc = TA_LoadState(s.in.h, fp); post(fn, "StateLoad");
  long fired = A.op_fired; size_t req = A.max_request; A.begin_op(); A.max_request = std::max(mr, req);
  long tell = ftello(fp); fclose(fp);
  if (st.fired) STATS[string("fault.read.") + FLT[st.flt.kind]]++;
  if (fired) STATS["fault.alloc.StateLoad"]++;
  LOG.add(" load rc %d whole %d fired %ld", rc, (int)whole, fired);
  if (whole && !fired) {
    if (rc) viol("load-rc", fn, "%s StateLoad of a complete image (%zu bytes, saved at bar %d) returned %d", fkey(s.m).c_str(), im.len, im.m.pos, rc);
    if (tell != (long)(im.off + im.len)) viol("load-framing", fn, "%s StateLoad consumed %ld bytes of a %zu byte image", fkey(s.m).c_str(), tell - (long)im.off, im.len);
    if (s.in.state() == nullptr) viol("load-null", fn, "%s StateLoad returned success without a state", fkey(s.m).c_str());
    s.live = true; STATS["probe.restored"]++; if (im.m.pos < ref(s.m).lookback) STATS["probe.restored_in_warmup"]++;
    return;
  }
  // the load had to fail
  if (fired && whole) {
    if (rc == 0) viol("alloc-hidden", fn, "%s StateLoad returned success although allocation %ld failed", fkey(s.m).c_str(), fa);
    if (rc != TA_ALLOC_ERR) viol("alloc-rc", fn, "%s StateLoad returned %d when allocation %ld failed", fkey(s.m).c_str(), rc, fa);
  } else if (rc == 0) viol("torn-accepted", fn, "%s StateLoad accepted the first %zu of %zu bytes of an image (fault %s)", fkey(s.m).c_str(), cut >= 0 ? (size_t)cut : st.flt.kind == DiskFault::EIO_ || st.flt.kind == DiskFault::TRANSIENT_ ? (size_t)st.flt.at : present, im.len, FLT[st.flt.kind]);
  else if (rc != TA_IO_FAILED && !fired) viol("torn-rc", fn, "%s StateLoad of a truncated image (%zu of %zu bytes) returned %d, not TA_IO_FAILED", fkey(s.m).c_str(), cut >= 0 ? (size_t)cut : st.flt.kind == DiskFault::EIO_ ? (size_t)st.flt.at : present, im.len, rc);
  if (!fired && req > 64 * im.len + 65536) viol("torn-garbage-size", fn, "%s StateLoad of a truncated %zu byte image asked for %zu bytes of memory", fkey(s.m).c_str(), im.len, req);
  STATS["probe.load_refused"]++;
  int fr = TA_FreeState(s.in.h); post(fn, "StateFree after failed StateLoad");
  if (s.in.state() != nullptr) viol("torn-cleanup", fn, "%s StateFree (%d) after a failed StateLoad left the state pointer set", fkey(s.m).c_str(), fr);
  // the same holder must accept the good image afterwards
  if (im.complete && F.data.size() >= im.off + im.len && o.geti("retry", 1)) {
    SimStream s2; s2.f = &F; s2.pos = im.off; FILE* f2 = sim_open(&s2, -1);
    int r2 = TA_LoadState(s.in.h, f2); fclose(f2); post(fn, "StateLoad retry");
    if (r2) viol("retry-rc", fn, "%s StateLoad of the complete image after a failed one returned %d", fkey(s.m).c_str(), r2);
    s.live = true; STATS["probe.load_retry_ok"]++; return;
  }
  TA_ParamHolderFree(s.in.h); s.in.h = nullptr; s.exists = false;
}
void Exec::op_free(const Op& o) {
  Slot& s = slots[(int)o.geti("s")]; if (!s.exists || !s.in.h) return;
  const char* fn = s.m.fn->name.c_str();
  int n = 1 + (int)o.geti("again");
  for (int i = 0; i < n; i++) {
    int rc = TA_FreeState(s.in.h); post(fn, i ? "second StateFree" : "StateFree");
    if (rc) viol("free-rc", fn, "%s StateFree call %d returned %d", fkey(s.m).c_str(), i + 1, rc);
    if (s.in.state()) viol("free-ptr", fn, "%s StateFree left the state pointer set", fkey(s.m).c_str());
  }
  s.live = false; if (o.geti("keep")) { // reuse the holder for a new stream of the same function
    int rc = TA_InitNewState(s.in.h); if (rc == 0) { s.live = true; s.m.pos = 0; } return; }
  TA_ParamHolderFree(s.in.h); s.in.h = nullptr; s.exists = false;
}
void Exec::op_crash(const Op& o) {
  STATS["fault.crash"]++;
  Rng r(o.getu("seed", 1) + 99);
  for (auto& k : slots) { k.second.in.h = nullptr; k.second.live = k.second.exists = false; }
  slots.clear(); A.free_all();
  for (auto& k : files) { SimFile& f = k.second; if (f.data.size() > f.durable) { size_t keep = f.durable + r.below(f.data.size() - f.durable + 1); if (keep < f.data.size()) STATS["fault.crash.lost_unsynced"]++; f.data.resize(keep); } }
  TA_Shutdown(); cfg.apply();
}
void Exec::op_occload(const Op& o) { // load into a slot that already holds a live stream
  Slot& s = slots[(int)o.geti("s")]; int fid = (int)o.geti("f"); auto& iv = images[fid]; if (!s.live || iv.empty()) return;
  size_t ix = (size_t)(o.geti("i") % (long)iv.size()); Image& im = iv[ix];
  if (im.m.fn != s.m.fn || !im.complete || files[fid].data.size() < im.off + im.len) return;
  SimStream st; st.f = &files[fid]; st.pos = im.off; FILE* fp = sim_open(&st, (int)o.geti("buf", -1));
  void* before = s.in.state(); int rc = TA_LoadState(s.in.h, fp); fclose(fp); post(s.m.fn->name, "StateLoad");
  LOG.add(" occ %d", rc); STATS["probe.occupied_load"]++;
  if (rc != TA_BAD_PARAM) viol("occupied-accepted", s.m.fn->name, "%s StateLoad into an occupied slot returned %d", fkey(s.m).c_str(), rc);
  if (s.in.state() != before) viol("occupied-clobbered", s.m.fn->name, "%s StateLoad into an occupied slot replaced its state", fkey(s.m).c_str());
}
void Exec::op_null(const Op& o) { // a slot with no stream in it
  const Fn* f = fn_by_name(o.gets("fn")); if (!f || feeds.empty()) return; const Feed& fd = feeds.begin()->second; const char* fn = f->name.c_str();
  Inst q; if (q.alloc(f, parse_opts(o.gets("o", "-")))) return;
  q.inputs(fd, 0); q.outputs(std::min(fd.n, 3), 9);
  int n = std::min(fd.n, 3), rc, b = -5, e = -5; int fid = (int)o.geti("f", 90);
  for (char c : o.gets("do", "sbfwl")) {
    if (c == 's') { rc = TA_CallFuncState(q.h); if (rc != TA_BAD_PARAM) viol("null-step", fn, "State on an empty slot returned %d", rc); }
    if (c == 'b') { rc = TA_CallFuncBatchState(q.h, 0, n - 1, &b, &e); if (rc != TA_BAD_PARAM) viol("null-batch", fn, "BatchState on an empty slot returned %d", rc); }
    if (c == 'f') { rc = TA_FreeState(q.h); if (rc) viol("null-free", fn, "StateFree on an empty slot returned %d", rc); }
    if (c == 'w') { SimFile& F = files[fid]; F.data.clear(); SimStream st; st.f = &F; st.write = true; FILE* fp = sim_open(&st, -1); rc = TA_SaveState(q.h, fp); fclose(fp); if (rc) viol("null-save", fn, "StateSave of an empty slot returned %d", rc); }
    if (c == 'l' && files.count(fid) && !files[fid].data.empty()) { SimStream st; st.f = &files[fid]; FILE* fp = sim_open(&st, 0); rc = TA_LoadState(q.h, fp); long t = ftello(fp); fclose(fp);
      if (rc || q.state()) viol("null-load", fn, "StateLoad of an empty-slot image returned %d, state %s", rc, q.state() ? "set" : "empty");
      if (t != (long)files[fid].data.size()) viol("null-load", fn, "StateLoad consumed %ld of %zu bytes of an empty-slot image", t, files[fid].data.size()); }
    post(fn, "call on an empty slot"); if (q.state()) viol("null-state", fn, "operation '%c' on an empty slot left a state in it", c);
  }
  STATS["probe.empty_slot_ops"]++; TA_ParamHolderFree(q.h);
}
static const uint64_t MARK = 0x4b5241404d5453ull;
void Exec::op_jsave(const Op& o) { // several streams and application markers through one FILE*
  int fid = (int)o.geti("f"); SimFile& F = files[fid]; F.data.clear(); F.durable = 0; images[fid].clear();
  SimStream st; st.f = &F; st.write = true; st.flt = parse_fault(o); FILE* fp = sim_open(&st, (int)o.geti("buf", -1));
  string ss = o.gets("ss"); const char* p = ss.c_str(); uint64_t k = 0;
  while (*p) {
    char* e; long id = strtol(p, &e, 10); p = *e == ',' ? e + 1 : e; if (e == p && *e) break;
    auto it = slots.find((int)id); if (it == slots.end() || !it->second.exists || !it->second.in.h) continue; Slot& s = it->second;
    int rc = TA_SaveState(s.in.h, fp); post(s.m.fn->name, "StateSave"); if (rc) { fclose(fp); viol("save-rc", s.m.fn->name, "%s StateSave to a healthy file returned %d", fkey(s.m).c_str(), rc); }
    Image im; im.m = s.m; im.complete = true; im.empty = !s.live; images[fid].push_back(im); if (im.empty) STATS["probe.journal_empty_marker"]++;
    uint64_t m = MARK + k++; fwrite(&m, 8, 1, fp);
  }
  if (fclose(fp)) viol("harness", "", "jsave close failed");
  F.durable = F.data.size(); STATS["probe.journal_saved"]++; if (st.fired) STATS[string("fault.write.") + FLT[st.flt.kind]]++;
}
void Exec::op_jload(const Op& o) {
  int fid = (int)o.geti("f"); auto& iv = images[fid]; if (iv.empty() || !files.count(fid)) return;
  SimStream st; st.f = &files[fid]; st.flt = parse_fault(o); FILE* fp = sim_open(&st, (int)o.geti("buf", -1));
  int base = (int)o.geti("s"); uint64_t k = 0;
  for (auto& im : iv) {
    Slot& s = slots[base + (int)k]; drop(s); s.m = im.m; s.in = Inst(); if (s.in.alloc(im.m.fn, parse_opts(im.m.opts), !o.geti("dflt"))) return;
    s.exists = true; s.in.outputs(1, junk + 8);
    int rc = TA_LoadState(s.in.h, fp); post(s.m.fn->name, "StateLoad");
    LOG.add(" jload %d", rc);
    if (rc) { fclose(fp); viol("load-rc", s.m.fn->name, "%s StateLoad of image %d of a journal returned %d", fkey(s.m).c_str(), (int)k, rc); }
    if ((s.in.state() == nullptr) != im.empty) { fclose(fp); viol("load-null", s.m.fn->name, "%s StateLoad of image %d of a journal (%s) left the slot %s", fkey(s.m).c_str(), (int)k, im.empty ? "an empty slot" : "a stream", s.in.state() ? "occupied" : "empty"); }
    uint64_t m = 0; size_t g = fread(&m, 8, 1, fp);
    if (g != 1 || m != MARK + k) { fclose(fp); viol("load-framing", s.m.fn->name, "%s after StateLoad of image %d the next record is not the one that was written there", fkey(s.m).c_str(), (int)k); }
    k++; if (im.empty) continue; s.live = true; STATS["probe.restored"]++;
  }
  fclose(fp); if (st.fired) STATS[string("fault.read.") + FLT[st.flt.kind]]++;
}
void Exec::op_batch(const Op& o) {
  const Fn* f = fn_by_name(o.gets("fn")); if (!f) return; int fi = (int)o.geti("feed"); if (!feeds.count(fi)) return; const Feed& fd = feeds[fi];
  int a = (int)o.geti("a"), b = (int)o.geti("b", fd.n - 1); if (a < 0) a = 0; if (b >= fd.n) b = fd.n - 1; if (a > b) a = b;
  const char* fn = f->name.c_str(); string opts = o.gets("o", "-"); int n = b - a + 1, no = (int)f->out.size();
  bool single = o.geti("single"); if (single) STATS["probe.single_precision"]++;
  auto call = [&](Inst& q, uint64_t jk, int& ob, int& on) { q.inputs(fd, 0); q.outputs(n, jk); ob = on = -99 - (int)(jk % 89); if (!in_task) scrub_stack(jk * 0x9191); return q.call(fd, a, b, &ob, &on, single); };
  // reference: no fault, different heap and stack contents
  BR R; { uint64_t sj = A.junk; A.junk = junk2 * 0x0101010101010101ull; A.begin_op(); Inst q; if (q.alloc(f, parse_opts(opts))) return; 
    R.rc = call(q, junk2, R.ob, R.on); A.junk = sj; R.v.resize(no);
    if (R.rc == 0) { if (R.on > n || R.on < 0) viol("batch-bounds", fn, "%s(%s) batch [%d,%d] reported %d elements", fn, opts.c_str(), a, b, R.on); for (int k = 0; k < no; k++) for (int i = 0; i < R.on; i++) R.v[k].push_back(q.out(k, i)); }
    TA_ParamHolderFree(q.h); post(fn, "batch call"); }
  if (prop == "C17") { // the same call again, after other calls: same answer
    string key = f->name + "|" + opts + "|" + std::to_string(fi) + "|" + std::to_string(a) + "|" + std::to_string(b) + (single ? "|f" : ""); auto it = memo.find(key);
    if (it == memo.end()) memo[key] = R;
    else { BR& W = it->second; STATS["probe.repeated_calls"]++; bool same = W.rc == R.rc && (R.rc || (W.ob == R.ob && W.on == R.on)); int bk = 0, bi = 0;
      if (same && R.rc == 0) for (int k = 0; k < no && same; k++) for (int i = 0; i < R.on && same; i++) if (!biteq(W.v[k][i], R.v[k][i])) { same = false; bk = k; bi = i; }
      if (!same) viol("batch-history", fn, "%s(%s) batch [%d,%d] called again after other calls differs: rc %d/%d, frame %d,%d/%d,%d, output %d element %d", fn, opts.c_str(), a, b, R.rc, W.rc, R.ob, R.on, W.ob, W.on, bk, bi); } }
  Inst q; if (q.alloc(f, parse_opts(opts))) return;
  if (chkLeak && (A.live.size() > 4 + slots.size() * 400)) {}
  size_t live0 = A.live.size(); int ob, on;
  long fa = o.geti("af"); A.begin_op(fa, o.geti("afp"));
  int rc = call(q, junk, ob, on); long fired = A.op_fired; STATS["max_allocs.Batch"] = std::max(STATS["max_allocs.Batch"], A.op_allocs); A.begin_op();
  post(fn, "batch call"); LOG.add(" batch %d %d %d", rc, ob, on); SIM_BARS += n; if (rc == 0 && on > 0) COMPARED++;
  auto cmp = [&](int rc, int ob, int on, const char* when) {
    if (rc != R.rc) viol("batch-rc", fn, "%s(%s) batch [%d,%d] %s returned %d, expected %d", fn, opts.c_str(), a, b, when, rc, R.rc);
    if (rc == 0) { if (ob != R.ob || on != R.on) viol("batch-frame", fn, "%s(%s) batch [%d,%d] %s: outBegIdx/outNBElement %d/%d, expected %d/%d", fn, opts.c_str(), a, b, when, ob, on, R.ob, R.on);
      for (int k = 0; k < no; k++) for (int i = 0; i < on; i++) if (!biteq(q.out(k, i), R.v[k][i])) viol("batch-value", fn, "%s(%s) batch [%d,%d] %s: output %d element %d is %.17g, expected %.17g", fn, opts.c_str(), a, b, when, k, i, q.out(k, i), R.v[k][i]);
      for (int k = 0; k < no; k++) for (int i = 0; i < on; i++) LOG.addv(q.out(k, i)); } };
  if (fired) {
    STATS["fault.alloc.Batch"]++;
    if (rc == 0) viol("alloc-hidden", fn, "%s(%s) batch [%d,%d] returned success although allocation %ld failed", fn, opts.c_str(), a, b, fa);
    if (rc != TA_ALLOC_ERR) viol("alloc-rc", fn, "%s(%s) batch [%d,%d] returned %d when allocation %ld failed", fn, opts.c_str(), a, b, rc, fa);
    if (A.live.size() != live0) viol("leak", fn, "%s(%s) batch [%d,%d] with allocation %ld failing left %zd blocks allocated", fn, opts.c_str(), a, b, fa, (ssize_t)(A.live.size() - live0));
    rc = call(q, junk, ob, on); cmp(rc, ob, on, "retried after the failure");
  } else cmp(rc, ob, on, "");
  if (!in_task && A.live.size() != live0) viol("leak", fn, "%s(%s) batch [%d,%d] left %zd blocks allocated", fn, opts.c_str(), a, b, (ssize_t)(A.live.size() - live0));
  TA_ParamHolderFree(q.h);
}
