// C14: histories of global settings calls against a model of the settings store.
#include "exec.h"
#include "cdlref.h"
namespace {
const int NU = TA_FUNC_UNST_ALL, NC = TA_AllCandleSettings;
const CandleSet DEF[] = {{0, 10, 1.0}, {0, 10, 3.0}, {0, 10, 1.0}, {1, 10, 0.1}, {0, 0, 1.0}, {0, 0, 2.0}, {2, 10, 1.0}, {1, 10, 0.1}, {1, 5, 0.2}, {1, 5, 0.6}, {1, 5, 0.05}};
static_assert(sizeof(DEF) / sizeof(DEF[0]) == TA_AllCandleSettings, "candle settings");
const char* UNAME[] = {"ADX", "ADXR", "ATR", "CMO", "DX", "EMA", "HT_DCPERIOD", "HT_DCPHASE", "HT_PHASOR", "HT_SINE", "HT_TRENDLINE", "HT_TRENDMODE", "IMI", "KAMA", "MAMA", "MFI", "MINUS_DI", "MINUS_DM", "NATR", "PLUS_DI", "PLUS_DM", "RSI", "STOCHRSI", "T3", "WLMA"};
static_assert(sizeof(UNAME) / sizeof(UNAME[0]) == TA_FUNC_UNST_ALL, "unstable ids");
struct GS { bool up = false; unsigned un[TA_FUNC_UNST_ALL] = {}; int compat = 0; CandleSet cs[TA_AllCandleSettings] = {}; bool cdlok = false;
  void zero() { for (auto& u : un) u = 0; compat = 0; cdlok = false; }
  void init() { zero(); up = cdlok = true; for (int i = 0; i < NC; i++) cs[i] = DEF[i]; } };
// May unstable period `id` influence function fn at all?
}
bool unst_may(const Fn* f, int id) {
  const string u = UNAME[id]; if (f->name == u) return true;
  if (u == "ADX") return f->name == "ADXR";
  if (u == "RSI") return f->name == "STOCHRSI";
  bool ma = false; for (auto* o : f->opt) if (strstr(o->paramName, "MAType")) ma = true;
  if (ma && (u == "EMA" || u == "KAMA" || u == "MAMA" || u == "T3" || u == "WLMA")) return true;
  if (u == "EMA") for (const char* c : {"ADOSC", "DEMA", "MACD", "MACDFIX", "TEMA", "TRIX"}) if (f->name == c) return true;
  return false;
}
namespace {
struct Res { int lb = 0, rc = 0, ob = 0, on = 0; vector<vector<double>> v; vector<int> src; };
struct Probe { GS g; string fn, o; int feed; bool single, stream; Res r; size_t at; };
struct Globals {
  Exec ex; GS m; vector<Probe> probes; size_t opno = 0;
  void rc(int got, int want, const char* what) { STATS["globals.ops"]++; LOG.add("%s %d", what, got); if (got != want) viol("settings-rc", what, "%s returned %d, expected %d", what, got, want); }
  void getters(const char* after) {
    for (int i = 0; i < NU; i++) { unsigned g = TA_GetUnstablePeriod((TA_FuncUnstId)i); if (g != m.un[i]) viol("settings-get", UNAME[i], "after %s the unstable period of %s reads %u, the last accepted value is %u", after, UNAME[i], g, m.un[i]); }
    if ((int)TA_GetCompatibility() != m.compat) viol("settings-get", "compatibility", "after %s the compatibility reads %d, the last accepted value is %d", after, (int)TA_GetCompatibility(), m.compat);
  }
  Res calc(const Fn* f, const string& o, const Feed& fd, bool single, bool stream) {
    Res R; Inst b; if (b.alloc(f, parse_opts(o))) throw Skip{"holder"};
    int e = TA_GetLookback(b.h, &R.lb); if (e) R.lb = -1000 - e;
    b.inputs(fd, 0); b.outputs(fd.n, 7); scrub_stack(ex.junk * 7); int no = (int)f->out.size();
    R.rc = b.call(fd, 0, fd.n - 1, &R.ob, &R.on, single); R.v.resize(no);
    if (R.rc == 0) for (int k = 0; k < no; k++) for (int i = 0; i < R.on && i < fd.n; i++) R.v[k].push_back(b.out(k, i));
    if (stream) {
      int ir = TA_InitNewState(b.h); R.src.push_back(ir);
      if (ir == 0) { for (int i = 0; i < fd.n; i++) { b.inputs(fd, i); b.outputs(1, 7); int r = TA_CallFuncState(b.h); R.src.push_back(r); if (r == 0) for (int k = 0; k < no; k++) R.v[k].push_back(b.out(k, 0)); SIM_BARS++; } TA_FreeState(b.h); }
    }
    TA_ParamHolderFree(b.h); return R;
  }
  string diff(const Res& a, const Res& b) {
    char t[300];
    if (a.lb != b.lb) { snprintf(t, sizeof t, "look-back %d instead of %d", a.lb, b.lb); return t; }
    if (a.rc != b.rc || a.ob != b.ob || a.on != b.on) { snprintf(t, sizeof t, "return code %d, first bar %d, %d values instead of %d, %d, %d", a.rc, a.ob, a.on, b.rc, b.ob, b.on); return t; }
    if (a.src != b.src) return "different stream return codes";
    for (size_t k = 0; k < a.v.size(); k++) for (size_t i = 0; i < a.v[k].size(); i++) { COMPARED++; if (!biteq(a.v[k][i], b.v[k][i])) { snprintf(t, sizeof t, "output %zu value %zu is %.17g instead of %.17g", k, i, a.v[k][i], b.v[k][i]); return t; } }
    return "";
  }
  // the settings of g, each stated once on a freshly initialised library
  void establish(const GS& g) {
    TA_Initialize();
    for (int i = 0; i < NU; i++) TA_SetUnstablePeriod((TA_FuncUnstId)i, g.un[i]);
    TA_SetCompatibility((TA_Compatibility)g.compat);
    for (int i = 0; i < NC; i++) TA_SetCandleSettings((TA_CandleSettingType)i, (TA_RangeType)g.cs[i].range, g.cs[i].period, g.cs[i].factor);
  }
  void check_cdl(const Fn* f, const string& o, const Feed& fd, const Res& R, const char* who) {
    int lb = cdl_lookback(f->name, m.cs); vector<double> op = parse_opts(o); double pen = !op.empty() ? op[0] : f->opt.empty() ? 0 : f->opt[0]->defaultValue; if (pen == TA_REAL_DEFAULT) pen = f->opt[0]->defaultValue;
    string cfg; char t[64]; for (int i = 0; i < NC; i++) if (cdl_mask(f->name) >> i & 1) { snprintf(t, sizeof t, " %d:{%d,%d,%g}", i, m.cs[i].range, m.cs[i].period, m.cs[i].factor); cfg += t; }
    if (R.lb != lb) viol("candle-lookback", f->name, "%s with settings%s has look-back %d, expected %d", who, cfg.c_str(), R.lb, lb);
    if (R.rc) viol("candle-rc", f->name, "%s returned %d", who, R.rc);
    int want = fd.n > lb ? fd.n - lb : 0; if (R.on != want || (want && R.ob != lb)) viol("candle-range", f->name, "%s delivered %d values from bar %d, expected %d from %d", who, R.on, R.ob, want, lb);
    vector<int> v; vector<char> am; cdl_eval(f->name, fd, m.cs, pen, v, am);
    for (int i = lb; i < fd.n; i++) { if (am[i]) { STATS["oracle.ambiguous_bars"]++; continue; } COMPARED++; if (v[i]) { STATS["probe.pattern_hits"]++; STATS["hit." + f->name]++; } if ((int)R.v[0][i - lb] != v[i]) viol("candle-value", f->name, "%s with settings%s bar %d: %d, the documented rule gives %d", who, cfg.c_str(), i, (int)R.v[0][i - lb], v[i]); }
  }
  const Fn* fn(const Op& o) { return fn_by_name(o.gets("fn")); }
  void set_unst(int id, unsigned v, const char* w) { rc(TA_SetUnstablePeriod((TA_FuncUnstId)id, v), id >= 0 && id <= NU ? TA_SUCCESS : TA_BAD_PARAM, w); }
  void set_cdl(int t, const CandleSet& c, const char* w) { rc(TA_SetCandleSettings((TA_CandleSettingType)t, (TA_RangeType)c.range, c.period, c.factor), t >= 0 && t < NC ? TA_SUCCESS : TA_BAD_PARAM, w); }
  void op(const Op& o) {
    const string& n = o.name; A.begin_op();
    if (n == "ginit") { rc(TA_Initialize(), TA_SUCCESS, "TA_Initialize"); m.init(); }
    else if (n == "gshut") { rc(TA_Shutdown(), m.up ? TA_SUCCESS : TA_LIB_NOT_INITIALIZE, "TA_Shutdown"); if (m.up) { m.up = false; m.zero(); } }
    else if (n == "gunst") { int id = (int)o.geti("id"); unsigned v = (unsigned)o.geti("v"); set_unst(id, v, "TA_SetUnstablePeriod"); if (id == NU) for (auto& u : m.un) u = v; else if (id >= 0 && id < NU) m.un[id] = v; }
    else if (n == "gcompat") { int v = (int)(o.geti("v") & 1); rc(TA_SetCompatibility((TA_Compatibility)v), TA_SUCCESS, "TA_SetCompatibility"); m.compat = v; }
    else if (n == "gcdl") { int t = (int)o.geti("t"); CandleSet c{(int)(o.geti("r") % 3), (int)o.geti("p") % 200, o.getd("f")}; if (c.period < 0) c.period = 0; set_cdl(t, c, "TA_SetCandleSettings"); if (t >= 0 && t < NC) m.cs[t] = c; }
    else if (n == "grest") { int t = (int)o.geti("t"); rc(TA_RestoreCandleDefaultSettings((TA_CandleSettingType)t), t >= 0 && t <= NC ? TA_SUCCESS : TA_BAD_PARAM, "TA_RestoreCandleDefaultSettings"); if (t == NC) { for (int i = 0; i < NC; i++) m.cs[i] = DEF[i]; m.cdlok = true; } else if (t >= 0 && t < NC) m.cs[t] = DEF[t]; }
    else if (n == "gget") { int id = (int)o.geti("id"); unsigned g = TA_GetUnstablePeriod((TA_FuncUnstId)id); unsigned w = id >= 0 && id < NU ? m.un[id] : 0; STATS["globals.ops"]++; if (g != w) viol("settings-get", "unstable", "TA_GetUnstablePeriod(%d) returned %u, expected %u", id, g, w); }
    else if (m.up) {
      const Fn* f = fn(o); auto fi = ex.feeds.find((int)o.geti("feed")); if (!f || fi == ex.feeds.end()) return; const Feed& fd = fi->second; string os = o.gets("o"); string who = f->name + "(" + os + ")";
      if (n == "gcall") {
        bool single = o.geti("single"), stream = o.geti("stream"); Res R = calc(f, os, fd, single, stream); STATS["globals.ops"]++; LOG.add("call %d %d %d", R.rc, R.ob, R.on); for (auto& v : R.v) for (double x : v) LOG.addv(x);
        if (cdl_known(f->name) && !single) check_cdl(f, os, fd, R, who.c_str());
        if (probes.size() < 24) probes.push_back({m, f->name, os, (int)o.geti("feed"), single, stream, R, opno});
      } else if (n == "gunrel") { // settings the function does not depend on are changed around a call
        Res R0 = calc(f, os, fd, false, o.geti("stream")); Rng r(o.getu("seed", 1)); unsigned mask = cdl_mask(f->name); string what; char t[64];
        vector<int> us, ts; for (int i = 0; i < NU; i++) if (!unst_may(f, i) && r.chance(.6)) us.push_back(i); for (int i = 0; i < NC; i++) if (!(mask >> i & 1) && r.chance(.6)) ts.push_back(i);
        if (o.has("only")) { long x = o.geti("only"); us.clear(); ts.clear(); if (x < NU) { if (x >= 0 && !unst_may(f, (int)x)) us.push_back((int)x); } else if (x < NU + NC && !(mask >> (x - NU) & 1)) ts.push_back((int)(x - NU)); }
        for (int i : us) { unsigned v = (unsigned)r.range(1, 40); set_unst(i, v, "TA_SetUnstablePeriod"); snprintf(t, sizeof t, " %s=%u", UNAME[i], v); what += t; }
        for (int i : ts) { CandleSet c{(int)r.below(3), (int)r.range(0, 20), r.range(1, 40) / 16.0}; set_cdl(i, c, "TA_SetCandleSettings"); snprintf(t, sizeof t, " candle%d", i); what += t; }
        bool cp = cdl_known(f->name) && r.chance(.5); if (cp) rc(TA_SetCompatibility((TA_Compatibility)!m.compat), TA_SUCCESS, "TA_SetCompatibility");
        Res R1 = calc(f, os, fd, false, o.geti("stream")); string d = diff(R1, R0); STATS["probe.unrelated"]++;
        for (int i : us) set_unst(i, m.un[i], "TA_SetUnstablePeriod"); for (int i : ts) set_cdl(i, m.cs[i], "TA_SetCandleSettings"); if (cp) TA_SetCompatibility((TA_Compatibility)m.compat);
        if (d != "") viol("settings-unrelated", f->name, "%s: settings it does not depend on (%s%s) changed the result: %s", who.c_str(), what.c_str(), cp ? " compatibility" : "", d.c_str());
      } else if (n == "gdelay") { // the unstable period of the function itself is raised by k
        int id = -1; for (int i = 0; i < NU; i++) if (f->name == UNAME[i]) id = i; if (id < 0) return; int k = (int)o.geti("k", 1); if (k < 1) return;
        Res R0 = calc(f, os, fd, false, false); set_unst(id, m.un[id] + k, "TA_SetUnstablePeriod"); Res R1 = calc(f, os, fd, false, false); set_unst(id, m.un[id], "TA_SetUnstablePeriod"); STATS["probe.delay"]++;
        vector<double> op = parse_opts(os); bool unsmoothed = !op.empty() && op[0] == 1 && (f->name == "PLUS_DI" || f->name == "MINUS_DI" || f->name == "PLUS_DM" || f->name == "MINUS_DM"); // a period of 1 has nothing to stabilise
        if (R0.rc || R1.rc) { if (R0.rc != R1.rc) viol("unstable-rc", f->name, "%s returns %d, with an unstable period raised by %d it returns %d", who.c_str(), R0.rc, k, R1.rc); }
        else {
          int d = unsmoothed ? 0 : k;
          if (d && R1.lb == R0.lb && diff(R1, R0) == "") viol("unstable-ignored", f->name, "%s: raising the unstable period of %s by %d changes nothing (look-back %d)", who.c_str(), UNAME[id], k, R0.lb);
          if (R1.lb != R0.lb + d) viol("unstable-delay", f->name, "%s: the unstable period of %s raised by %d moves the look-back from %d to %d", who.c_str(), UNAME[id], k, R0.lb, R1.lb);
          int want = R0.on > d ? R0.on - d : 0; if (R1.on != want || (want && R1.ob != R0.ob + d)) viol("unstable-delay", f->name, "%s: the unstable period of %s raised by %d changes the range from (%d,%d) to (%d,%d)", who.c_str(), UNAME[id], k, R0.ob, R0.on, R1.ob, R1.on);
          for (size_t q = 0; q < R1.v.size(); q++) for (int i = 0; i < R1.on; i++) { COMPARED++; double a = R1.v[q][i], b = R0.v[q][i + d]; if (!biteq(a, b)) viol("unstable-value", f->name, "%s: the unstable period of %s raised by %d changes output %zu at bar %d from %.17g to %.17g", who.c_str(), UNAME[id], k, q, R1.ob + i, b, a); }
        }
      } else return;
    } else return;
    opno++; getters(n.c_str());
  }
  void run(const Scenario& s) {
    ex.configure(s); A.reset(ex.junk * 0x0101010101010101ull); TA_Initialize(); m.init(); getters("TA_Initialize");
    for (auto& o : s.ops) if (o.name != "cfg" && o.name != "feed") { LOG.add("%s", o.name.c_str()); op(o); }
    for (auto& p : probes) { // every call again, its settings stated once on a fresh library
      establish(p.g); const Fn* f = fn_by_name(p.fn); Res R = calc(f, p.o, ex.feeds.at(p.feed), p.single, p.stream); STATS["probe.replayed"]++;
      string d = diff(p.r, R); if (d != "") viol("settings-history", p.fn, "%s(%s) at step %zu of the history: %s when the same settings are stated once", p.fn.c_str(), p.o.c_str(), p.at, d.c_str());
    }
    TA_Initialize();
  }
};
}
void run_globals(const Scenario& s) { Globals g; try { g.run(s); } catch (...) { TA_Initialize(); throw; } }
void cdl_defaults(CandleSet* cs) { for (int i = 0; i < TA_AllCandleSettings; i++) cs[i] = DEF[i]; }
