// C15: histories of parameter-holder calls against a model of a holder plus the direct API.
// C16: reflection tables and holders under allocation failure.
#include "exec.h"
#include "direct.h"
#include <strings.h>
#include <limits>
const Direct* direct_by_name(const char* s) { for (int i = 0; i < NDIRECT; i++) if (!strcmp(DIRECT[i].name, s)) return &DIRECT[i]; return nullptr; }

namespace {
const int HMAX = 6;
struct Param { char kind; string comp; int first; }; // P: price (components), R: real array, N: integer array; first: index of its first direct input
struct Holder {
  const Fn* fn = nullptr; const Direct* d = nullptr; TA_ParamHolder* h = nullptr;
  vector<Param> par; vector<const double*> in; vector<char> inset; // per parameter
  vector<char> optr; vector<double> opt;
  vector<int> outset; vector<double*> ro; vector<int*> io;         // chosen buffer of every output
  vector<double> rb[2][4], trb[2][4]; vector<int> ib[2][4], tib[2][4]; // two buffers per output: reflective side, direct side
  void* twin = nullptr; int started = 0;
  SimFile img, timg; bool saved = false;
};
struct Holders {
  Exec ex; std::map<int, Holder> hs; int N = 0; double sr = -3.25e-217; int si = -987123;
  string who(Holder& H) { string s = H.d->name; s += "("; char b[40]; for (size_t i = 0; i < H.opt.size(); i++) { snprintf(b, sizeof b, "%s%.9g", i ? "," : "", H.opt[i]); s += b; } return s + ")"; }
  const double* arr(const Feed& f, long k, int off) { const vector<double>* v[] = {&f.o, &f.h, &f.l, &f.c, &f.v, &f.oi, &f.per, &f.sgn}; return v[k & 7]->data() + off; }
  void reset_out(Holder& H) { for (int b = 0; b < 2; b++) for (int o = 0; o < 4; o++) { std::fill(H.rb[b][o].begin(), H.rb[b][o].end(), sr); std::fill(H.trb[b][o].begin(), H.trb[b][o].end(), sr); std::fill(H.ib[b][o].begin(), H.ib[b][o].end(), si); std::fill(H.tib[b][o].begin(), H.tib[b][o].end(), si); } }
  void cmp_out(Holder& H, const char* what) { // every output buffer, chosen or not
    for (int b = 0; b < 2; b++) for (size_t o = 0; o < H.fn->out.size(); o++) for (int i = 0; i < N; i++) {
      if (!biteq(H.rb[b][o][i], H.trb[b][o][i])) viol("holder-value", H.d->name, "%s %s: output %zu buffer %d element %d is %.17g, the direct call gives %.17g", who(H).c_str(), what, o, b, i, H.rb[b][o][i], H.trb[b][o][i]);
      if (H.ib[b][o][i] != H.tib[b][o][i]) viol("holder-value", H.d->name, "%s %s: output %zu buffer %d element %d is %d, the direct call gives %d", who(H).c_str(), what, o, b, i, H.ib[b][o][i], H.tib[b][o][i]); }
  }
  void touched(Holder& H, const char* what) { cmp_out(H, what); } // after a refusal the direct side is all sentinels
  // inputs of the direct call at array offset k
  vector<const void*> din(Holder& H) { vector<const void*> v; for (auto p : H.in) v.push_back(p); return v; }
  vector<void*> dout(Holder& H) { vector<void*> v; for (size_t o = 0; o < H.outset.size(); o++) v.push_back(H.d->out[o] == 'R' ? (void*)H.trb[H.outset[o]][o].data() : (void*)H.tib[H.outset[o]][o].data()); return v; }
  bool in_ready(Holder& H) { for (char c : H.inset) if (!c) return false; return true; }
  bool out_ready(Holder& H) { for (int c : H.outset) if (c < 0) return false; return true; }
  int want_unset(Holder& H) { bool i = in_ready(H), o = out_ready(H); return i && o ? 0 : !i && o ? TA_INPUT_NOT_ALL_INITIALIZE : i && !o ? TA_OUTPUT_NOT_ALL_INITIALIZE : -1; }
  void refuse(const char* key, const char* fn, const char* what, int rc, int want) { // want < 0: any refusal
    STATS["holder.ops"]++; STATS["holder.refused"]++; LOG.add(" refused %d", rc);
    if (rc == 0) viol(key, fn, "%s was accepted, expected refusal %d", what, want);
    if (want > 0 && rc != want) viol(key, fn, "%s returned %d, expected %d", what, rc, want);
  }
  void free_state(Holder& H) {
    int r = TA_FreeState(H.h), w = H.d->freest(&H.twin); STATS["holder.ops"]++; void* p = (void*)1; TA_GetParamStatePtr(H.h, &p);
    if (r != w) viol("holder-rc", H.d->name, "%s FreeState returned %d, the direct call %d", who(H).c_str(), r, w);
    if (p) viol("holder-state", H.d->name, "%s FreeState left the state pointer set", who(H).c_str());
    H.twin = nullptr; post(H);
  }
  void post(Holder& H) { if (A.invalid_free) viol("invalid-free", H.d->name, "a block was released that is not allocated"); }
  void drop(Holder& H) { if (!H.h) return; if (H.twin) free_state(H); int r = TA_ParamHolderFree(H.h); H.h = nullptr; if (r) viol("holder-free", H.d->name, "TA_ParamHolderFree returned %d", r); post(H); }
  void check_state(Holder& H, const char* what) { void* p = nullptr; int r = TA_GetParamStatePtr(H.h, &p); if (r || (p == nullptr) != (H.twin == nullptr)) viol("holder-state", H.d->name, "%s after %s the holder %s a state, the direct slot %s", who(H).c_str(), what, p ? "has" : "lacks", H.twin ? "has one" : "lacks one"); }

  void hnew(const Op& o) {
    int id = (int)(o.geti("h") % HMAX); Holder& H = hs[id]; drop(H); H = Holder();
    const char* name = nullptr; string fnm = o.gets("fn"); for (int i = 0; i < NDIRECT; i++) if (fnm == DIRECT[i].name) name = DIRECT[i].name; if (!name) return;
    const Fn* f = fn_by_name(fnm); if (!f) viol("holder-handle", name, "function %s is not reachable through the reflective interface", name);
    const TA_FuncHandle* hd = nullptr; int rc = TA_GetFuncHandle(name, &hd); if (rc || !hd) viol("holder-handle", name, "TA_GetFuncHandle(%s) returned %d", name, rc);
    TA_ParamHolder* p = nullptr; rc = TA_ParamHolderAlloc(hd, &p); if (rc || !p) viol("holder-alloc", name, "TA_ParamHolderAlloc returned %d", rc);
    H.fn = f; H.d = direct_by_name(name); H.h = p; STATS["holder.ops"]++;
    string in = H.d->in; for (size_t i = 0; i < in.size(); i++) { bool pc = strchr("OHLCVI", in[i]) != nullptr; if (pc && !H.par.empty() && H.par.back().kind == 'P') { H.par.back().comp += in[i]; continue; } H.par.push_back({pc ? 'P' : in[i], pc ? string(1, in[i]) : "", (int)i}); }
    if (H.par.size() != f->in.size() || (size_t)H.d->nopt != f->opt.size() || strlen(H.d->out) != f->out.size()) viol("holder-shape", name, "%s has %zu/%d/%zu inputs/options/outputs, its description %zu/%zu/%zu", name, H.par.size(), H.d->nopt, strlen(H.d->out), f->in.size(), f->opt.size(), f->out.size());
    H.in.assign(in.size(), nullptr); H.inset.assign(H.par.size(), 0);
    for (auto* oi : f->opt) { bool real = oi->type == TA_OptInput_RealRange || oi->type == TA_OptInput_RealList; H.optr.push_back(real); H.opt.push_back(real ? TA_REAL_DEFAULT : TA_INTEGER_DEFAULT); }
    H.outset.assign(f->out.size(), -1); for (int b = 0; b < 2; b++) for (size_t k = 0; k < f->out.size() && k < 4; k++) { H.rb[b][k].assign(N, sr); H.trb[b][k].assign(N, sr); H.ib[b][k].assign(N, si); H.tib[b][k].assign(N, si); }
  }
  void hin(const Op& o, bool isnull, Holder& H) {
    int i = (int)o.geti("i"); string k = o.gets("k", "r"); long nul = o.geti("nul"); auto fit = ex.feeds.find((int)o.geti("feed")); if (fit == ex.feeds.end()) return; const Feed& f = fit->second; int off = (int)(o.geti("off") % 9);
    const char* name = isnull ? "" : H.d->name; TA_ParamHolder* h = isnull ? nullptr : H.h; char what[160]; int rc;
    const double* c[6]; long pm = o.geti("pm"); for (int q = 0; q < 6; q++) c[q] = (nul >> q & 1) ? nullptr : arr(f, pm ? (pm >> (3 * q)) & 7 : q, off);
    snprintf(what, sizeof what, "%s SetInputParam (%s, index %d, null mask %ld)", name, k.c_str(), i, nul);
    if (k == "p") rc = TA_SetInputParamPricePtr(h, (unsigned)i, c[0], c[1], c[2], c[3], c[4], c[5]);
    else if (k == "r") rc = TA_SetInputParamRealPtr(h, (unsigned)i, c[0]);
    else { static const int ints[16] = {1}; rc = TA_SetInputParamIntegerPtr(h, (unsigned)i, (nul & 1) ? nullptr : ints); }
    int reasons = 0, want = -1;
    if (isnull) { reasons++; want = TA_BAD_PARAM; }
    else if (i < 0 || i >= (int)H.par.size()) { reasons++; want = TA_BAD_PARAM; if (k != "p" && (nul & 1)) reasons++, want = TA_BAD_PARAM; reasons = 1; }
    else {
      const Param& P = H.par[i]; bool type = (k == "p") != (P.kind == 'P') || (k == "n") != (P.kind == 'N'); if (type) { reasons++; want = TA_INVALID_PARAM_HOLDER_TYPE; }
      bool miss = false; if (k == "p") { if (!type) for (char x : P.comp) if (nul >> (strchr("OHLCVI", x) - "OHLCVI") & 1) miss = true; } else miss = nul & 1;
      if (miss) { reasons++; want = TA_BAD_PARAM; }
      if (!reasons) {
        STATS["holder.ops"]++; LOG.add(" in %d", rc); if (rc) viol("holder-set", name, "%s returned %d", what, rc);
        H.inset[i] = 1; if (k == "p") { for (size_t q = 0; q < P.comp.size(); q++) H.in[P.first + q] = c[strchr("OHLCVI", P.comp[q]) - "OHLCVI"]; } else H.in[P.first] = c[0];
        return; }
    }
    refuse("holder-refuse", name, what, rc, reasons == 1 ? want : -1);
  }
  void hopt(const Op& o, bool isnull, Holder& H) {
    int i = (int)o.geti("i"); bool real = o.gets("k") == "r"; double v = o.getd("v"); const char* name = isnull ? "" : H.d->name; TA_ParamHolder* h = isnull ? nullptr : H.h; char what[160];
    snprintf(what, sizeof what, "%s SetOptInputParam%s(index %d, %.9g)", name, real ? "Real" : "Integer", i, v);
    int rc = real ? TA_SetOptInputParamReal(h, (unsigned)i, v) : TA_SetOptInputParamInteger(h, (unsigned)i, (int)v);
    int want = 0; if (isnull || i < 0 || i >= (int)H.opt.size()) want = TA_BAD_PARAM; else if ((bool)H.optr[i] != real) want = TA_INVALID_PARAM_HOLDER_TYPE;
    if (want) { refuse("holder-refuse", name, what, rc, want); return; }
    STATS["holder.ops"]++; LOG.add(" opt %d", rc); if (rc) viol("holder-set", name, "%s returned %d", what, rc); H.opt[i] = real ? v : (int)v;
  }
  void hout(const Op& o, bool isnull, Holder& H) {
    int i = (int)o.geti("i"); bool real = o.gets("k") == "r", nul = o.geti("nul"); int b = (int)(o.geti("b") & 1); const char* name = isnull ? "" : H.d->name; TA_ParamHolder* h = isnull ? nullptr : H.h; char what[160];
    snprintf(what, sizeof what, "%s SetOutputParam%sPtr(index %d%s)", name, real ? "Real" : "Integer", i, nul ? ", null" : "");
    bool ok = !isnull && i >= 0 && i < (int)H.outset.size(); static double dd[4]; static int di[4];
    int rc = real ? TA_SetOutputParamRealPtr(h, (unsigned)i, nul ? nullptr : ok ? H.rb[b][i].data() : dd) : TA_SetOutputParamIntegerPtr(h, (unsigned)i, nul ? nullptr : ok ? H.ib[b][i].data() : di);
    int reasons = 0, want = 0; if (!ok) reasons = 1, want = TA_BAD_PARAM; else { if ((H.d->out[i] == 'R') != real) reasons++, want = TA_INVALID_PARAM_HOLDER_TYPE; if (nul) reasons++, want = TA_BAD_PARAM; }
    if (reasons) { refuse("holder-refuse", name, what, rc, reasons == 1 ? want : -1); return; }
    STATS["holder.ops"]++; LOG.add(" out %d", rc); if (rc) viol("holder-set", name, "%s returned %d", what, rc); H.outset[i] = b;
  }
  void frame(Holder& H, const char* what, int r, int w, int ob, int on, int wb, int wn) {
    STATS["holder.ops"]++; LOG.add(" %s %d %d %d", what, r, ob, on); COMPARED++;
    if (r != w) viol("holder-rc", H.d->name, "%s %s returned %d, the direct call %d", who(H).c_str(), what, r, w);
    if (ob != wb || on != wn) viol("holder-frame", H.d->name, "%s %s: outBegIdx/outNBElement %d/%d, the direct call %d/%d", who(H).c_str(), what, ob, on, wb, wn);
    cmp_out(H, what); for (size_t o = 0; o < H.outset.size(); o++) if (H.outset[o] >= 0) for (int i = 0; i < std::min(N, std::max(1, on)); i++) LOG.addv(H.d->out[o] == 'R' ? H.rb[H.outset[o]][o][i] : H.ib[H.outset[o]][o][i]);
    post(H); check_state(H, what);
  }
  void hcall(const Op& o, bool isnull, Holder& H) {
    string w = o.gets("w"); bool via = o.geti("via"); int a = (int)o.geti("a"), e = (int)o.geti("e"); int lim = N - 10; if (a > lim) a = lim; if (e > lim) e = lim; int ob = -77, on = -78, wb = -77, wn = -78;
    if (isnull) { int x = -1; FILE* fp = nullptr; int rc = w == "batch" ? TA_CallFunc(nullptr, 0, 0, &ob, &on) : w == "lb" ? TA_GetLookback(nullptr, &x) : w == "init" ? TA_InitNewState(nullptr) : w == "state" ? TA_CallFuncState(nullptr) : w == "bstate" ? TA_CallFuncBatchState(nullptr, 0, 0, &ob, &on) : w == "free" ? TA_FreeState(nullptr) : w == "save" ? TA_SaveState(nullptr, fp) : TA_LoadState(nullptr, fp);
      refuse("holder-null", "", ("a call without a holder (" + w + ")").c_str(), rc, TA_BAD_PARAM); return; }
    const Direct* d = H.d; const TA_FuncInfo* fi = H.fn->fi; reset_out(H);
    if (w == "lb") { int x = -1; int rc = TA_GetLookback(H.h, &x), y = d->lookback(H.opt.data()); STATS["holder.ops"]++; COMPARED++; LOG.add(" lb %d %d", rc, x); if (rc || x != y) viol("holder-lookback", d->name, "%s TA_GetLookback gives %d (%d), the direct call %d", who(H).c_str(), x, rc, y); cmp_out(H, w.c_str()); return; }
    if (w == "init") { if (H.twin) return; int r; TA_StateFunc fp = nullptr; if (via) { r = TA_GetInitNewStateFuncPtr(fi, &fp); if (r || !fp) viol("holder-fptr", d->name, "TA_GetInitNewStateFuncPtr returned %d", r); r = fp(H.h->hiddenData); } else r = TA_InitNewState(H.h);
      int x = d->init(&H.twin, H.opt.data()); if (x && H.twin) { d->freest(&H.twin); TA_FreeState(H.h); H.twin = nullptr; } frame(H, "InitNewState", r, x, 0, 0, 0, 0); return; }
    if (w == "free") { if (via) { TA_StateFunc fp = nullptr; int r = TA_GetFreeStateFuncPtr(fi, &fp); if (r || !fp) viol("holder-fptr", d->name, "TA_GetFreeStateFuncPtr returned %d", r); r = fp(H.h->hiddenData); int x = d->freest(&H.twin); H.twin = nullptr; frame(H, "FreeState", r, x, 0, 0, 0, 0); } else free_state(H); return; }
    if (w == "save") { H.img.data.clear(); H.timg.data.clear(); SimStream s1, s2; s1.f = &H.img; s1.write = true; s2.f = &H.timg; s2.write = true; FILE *f1 = sim_open(&s1, -1), *f2 = sim_open(&s2, -1); int r; TA_StateIOFunc fp = nullptr;
      if (via) { r = TA_GetSaveStateFuncPtr(fi, &fp); if (r || !fp) viol("holder-fptr", d->name, "TA_GetSaveStateFuncPtr returned %d", r); r = fp(H.h->hiddenData, f1); } else r = TA_SaveState(H.h, f1);
      int x = d->save(H.twin, f2); fclose(f1); fclose(f2); frame(H, "SaveState", r, x, 0, 0, 0, 0); H.saved = r == 0;
      if (H.img.data.size() != H.timg.data.size()) viol("holder-image", d->name, "%s TA_SaveState wrote %zu bytes, the direct call %zu", who(H).c_str(), H.img.data.size(), H.timg.data.size()); return; }
    if (w == "load") { if (!H.saved) return; if (H.twin) free_state(H); SimStream s1, s2; s1.f = &H.timg; s2.f = &H.img; FILE *f1 = sim_open(&s1, -1), *f2 = sim_open(&s2, -1); int r; TA_StateIOFunc fp = nullptr; // each side loads the other's image
      if (via) { r = TA_GetLoadStateFuncPtr(fi, &fp); if (r || !fp) viol("holder-fptr", d->name, "TA_GetLoadStateFuncPtr returned %d", r); r = fp(H.h->hiddenData, f1); } else r = TA_LoadState(H.h, f1);
      int x = d->load(&H.twin, f2); long t1 = ftello(f1), t2 = ftello(f2); fclose(f1); fclose(f2); frame(H, "LoadState", r, x, 0, 0, 0, 0);
      if (t1 != t2) viol("holder-image", d->name, "%s TA_LoadState consumed %ld bytes, the direct call %ld", who(H).c_str(), t1, t2); return; }
    int un = want_unset(H);
    if (un) { int rc = w == "batch" ? TA_CallFunc(H.h, a, e, &ob, &on) : w == "state" ? TA_CallFuncState(H.h) : TA_CallFuncBatchState(H.h, a, e, &ob, &on); refuse("holder-unset", d->name, (who(H) + " " + w + " with unset parameters").c_str(), rc, un); cmp_out(H, "refused call"); return; }
    vector<const void*> in = din(H); vector<void*> out = dout(H); int r, x;
    if (w == "batch") { SIM_BARS += std::max(0, e - a + 1); scrub_stack(11); r = TA_CallFunc(H.h, a, e, &ob, &on); scrub_stack(12); x = d->batch(a, e, in.data(), H.opt.data(), &wb, &wn, out.data()); frame(H, "CallFunc", r, x, ob, on, wb, wn); return; }
    if (w == "bstate") { if (e >= a && a < 0) a = 0; SIM_BARS += std::max(0, e - a + 1); TA_BatchStateFunc fp = nullptr; if (via) { r = TA_GetCallFuncBatchStateFuncPtr(fi, &fp); if (r || !fp) viol("holder-fptr", d->name, "TA_GetCallFuncBatchStateFuncPtr returned %d", r); r = fp(H.h->hiddenData, a, e, &ob, &on); } else r = TA_CallFuncBatchState(H.h, a, e, &ob, &on);
      x = d->bstate(H.twin, a, e, in.data(), &wb, &wn, out.data()); frame(H, "BatchState", r, x, ob, on, wb, wn); return; }
    step(H, via);
  }
  void step(Holder& H, bool via) {
    const Direct* d = H.d; reset_out(H); vector<const void*> in = din(H); vector<void*> out = dout(H); int r; SIM_BARS++;
    if (via) { TA_StateFunc fp = nullptr; r = TA_GetCallFuncStateFuncPtr(H.fn->fi, &fp); if (r || !fp) viol("holder-fptr", d->name, "TA_GetCallFuncStateFuncPtr returned %d", r); r = fp(H.h->hiddenData); } else r = TA_CallFuncState(H.h);
    int x = d->state(H.twin, in.data(), out.data()); frame(H, "State", r, x, 0, 0, 0, 0);
  }
  void hrun(const Op& o, Holder& H) { // n bars, the input pointers moved along
    auto fit = ex.feeds.find((int)o.geti("feed")); if (fit == ex.feeds.end() || !H.twin || !out_ready(H)) return; const Feed& f = fit->second; long n = o.geti("n"), off = o.geti("off"), pm = o.geti("pm");
    for (long j = 0; j < n && off + j < f.n; j++) {
      for (size_t i = 0; i < H.par.size(); i++) { const Param& P = H.par[i]; const double* c[6]; for (int q = 0; q < 6; q++) c[q] = arr(f, pm ? (pm >> (3 * q)) & 7 : q, (int)(off + j)); int rc;
        if (P.kind == 'P') { rc = TA_SetInputParamPricePtr(H.h, (unsigned)i, c[0], c[1], c[2], c[3], c[4], c[5]); for (size_t q = 0; q < P.comp.size(); q++) H.in[P.first + q] = c[strchr("OHLCVI", P.comp[q]) - "OHLCVI"]; }
        else { const double* s = arr(f, i == 0 ? 3 : H.fn->name == "MAVP" ? 6 : 1, (int)(off + j)); rc = TA_SetInputParamRealPtr(H.h, (unsigned)i, s); H.in[P.first] = s; }
        if (rc) viol("holder-set", H.d->name, "setting input %zu returned %d", i, rc); H.inset[i] = 1; }
      step(H, o.geti("via")); }
    // the arrays seen from the last bar on may be shorter than a block: point back at the start
    for (size_t i = 0; i < H.par.size(); i++) { const Param& P = H.par[i]; if (P.kind == 'P') { TA_SetInputParamPricePtr(H.h, (unsigned)i, f.o.data(), f.h.data(), f.l.data(), f.c.data(), f.v.data(), f.oi.data()); for (size_t q = 0; q < P.comp.size(); q++) H.in[P.first + q] = arr(f, strchr("OHLCVI", P.comp[q]) - "OHLCVI", 0); } else { TA_SetInputParamRealPtr(H.h, (unsigned)i, f.c.data()); H.in[P.first] = f.c.data(); } H.inset[i] = 1; }
  }
  void hmove(const Op& o, Holder& H) { // hand the stream over to another holder of the same function
    auto it = hs.find((int)(o.geti("g") % HMAX)); if (it == hs.end() || !it->second.h || &it->second == &H || it->second.fn != H.fn || it->second.twin || !H.twin) return; Holder& G = it->second; void* p = nullptr;
    int r1 = TA_GetParamStatePtr(H.h, &p), r2 = TA_SetParamStatePtr(G.h, p), r3 = TA_SetParamStatePtr(H.h, nullptr); if (r1 || r2 || r3) viol("holder-state", H.d->name, "moving a state returned %d %d %d", r1, r2, r3);
    G.twin = H.twin; H.twin = nullptr; check_state(G, "move"); check_state(H, "move"); STATS["holder.moves"]++;
  }
  void bad(const Op& o) { // misuse of the entry points
    TA_ParamHolder* p = (TA_ParamHolder*)8; int rc = TA_ParamHolderAlloc(nullptr, &p); refuse("holder-null", "", "TA_ParamHolderAlloc(NULL handle)", rc, TA_BAD_PARAM);
    static unsigned junk[64]; p = (TA_ParamHolder*)8; rc = TA_ParamHolderAlloc((const TA_FuncHandle*)junk, &p); refuse("holder-null", "", "TA_ParamHolderAlloc(bogus handle)", rc, TA_INVALID_HANDLE); if (p) viol("holder-null", "", "TA_ParamHolderAlloc(bogus handle) left a result");
    rc = TA_ParamHolderFree(nullptr); if (rc) viol("holder-null", "", "TA_ParamHolderFree(NULL) returned %d", rc);
    const TA_FuncHandle* h = (const TA_FuncHandle*)8; string nm = o.gets("nm", "NOSUCHFUNC"); if (!fn_by_name(nm)) { rc = TA_GetFuncHandle(nm.c_str(), &h); refuse("holder-null", "", ("TA_GetFuncHandle(" + nm + ")").c_str(), rc, TA_FUNC_NOT_FOUND); }
  }
  void run(const Scenario& sc) {
    ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply(); N = 0; for (auto& f : ex.feeds) N = N ? std::min(N, f.second.n) : f.second.n; if (N < 20) return;
    for (auto& o : sc.ops) {
      if (o.name == "cfg" || o.name == "feed") continue; A.begin_op(); LOG.add("%s", o.name.c_str());
      if (o.name == "hnew") { hnew(o); continue; } if (o.name == "hbad") { bad(o); continue; }
      bool isnull = o.geti("h") < 0; Holder dummy; auto it = isnull ? hs.end() : hs.find((int)(o.geti("h") % HMAX)); if (!isnull && (it == hs.end() || !it->second.h)) continue; Holder& H = isnull ? dummy : it->second;
      if (o.name == "hin") hin(o, isnull, H); else if (o.name == "hopt") hopt(o, isnull, H); else if (o.name == "hout") hout(o, isnull, H); else if (o.name == "hcall") hcall(o, isnull, H);
      else if (isnull) continue; else if (o.name == "hrun") hrun(o, H); else if (o.name == "hmove") hmove(o, H); else if (o.name == "hfree") { drop(H); hs.erase(it); }
    }
    string last; for (auto& k : hs) { if (k.second.h) last = k.second.d->name; drop(k.second); }
    if (!A.live.empty()) viol("leak", last, "%zu blocks still allocated after every holder was freed", A.live.size());
  }
};
// ---------------------------------------------------------------- C16
struct Tab { int kind; TA_StringTable* t = nullptr; TA_ParamHolder* h = nullptr; string what; long blocks = 0; };
struct RefTab { bool built = false; vector<string> groups; std::map<string, vector<string>> funcs; };
RefTab RT;
void build_ref() { // from the function descriptions, independently of the tables
  if (RT.built) return; std::set<string> g; for (auto& f : FNS) { g.insert(f.fi->group); RT.funcs[f.fi->group].push_back(f.name); }
  RT.groups.assign(g.begin(), g.end()); for (auto& k : RT.funcs) std::sort(k.second.begin(), k.second.end()); RT.built = true;
}
void check_table(const Tab& t) {
  vector<string> v; for (unsigned i = 0; i < t.t->size; i++) { if (!t.t->string || !t.t->string[i]) viol("table-content", "", "%s: entry %u of %u is missing", t.what.c_str(), i, t.t->size); v.push_back(t.t->string[i]); }
  std::sort(v.begin(), v.end()); const vector<string>& w = t.kind == 0 ? RT.groups : RT.funcs[t.what];
  if (v != w) { string d; for (auto& x : w) if (!std::binary_search(v.begin(), v.end(), x)) { d = x + " is missing"; break; } if (d.empty()) for (auto& x : v) if (!std::binary_search(w.begin(), w.end(), x)) { d = x + " is not expected"; break; } viol("table-content", "", "%s lists %zu entries, %zu exist: %s", t.what.c_str(), v.size(), w.size(), d.c_str()); }
  for (auto& x : v) LOG.addi(hashstr(x));
}
}
void run_holder(const Scenario& sc) { Holders* h = new Holders; try { h->run(sc); } catch (...) { delete h; throw; } delete h; }
void run_tables(const Scenario& sc) {
  build_ref(); Exec ex; ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply(); vector<Tab> live;
  auto release = [&](size_t i) { Tab t = live[i]; live.erase(live.begin() + i); long n0 = (long)A.live.size(); if (t.kind < 2) check_table(t); int rc = t.kind == 0 ? TA_GroupTableFree(t.t) : t.kind == 1 ? TA_FuncTableFree(t.t) : TA_ParamHolderFree(t.h);
    if (A.invalid_free) viol("invalid-free", t.what, "freeing %s released a block that is not allocated", t.what.c_str()); if (rc) viol("table-free", t.what, "freeing %s returned %d", t.what.c_str(), rc);
    if (n0 - (long)A.live.size() != t.blocks) viol("table-leak", t.what, "freeing %s released %ld of its %ld blocks", t.what.c_str(), n0 - (long)A.live.size(), t.blocks); LOG.add(" freed"); };
  for (auto& o : sc.ops) {
    if (o.name == "cfg" || o.name == "feed") continue; LOG.add("%s", o.name.c_str()); A.begin_op();
    if (o.name == "tfree") { if (!live.empty()) release((size_t)o.geti("i") % live.size()); continue; }
    if (o.name == "tnull") { int rc = o.geti("k") == 0 ? TA_GroupTableFree(nullptr) : o.geti("k") == 1 ? TA_FuncTableFree(nullptr) : TA_ParamHolderFree(nullptr); if (rc) viol("table-free", "", "freeing a null result returned %d", rc); continue; }
    if (o.name != "talloc") continue;
    int kind = (int)o.geti("k") % 3; string g = o.gets("g"); for (auto& c : g) if (c == '_') c = ' '; const TA_FuncHandle* hd = nullptr; bool unknown = false;
    if (kind == 1) { unknown = !RT.funcs.count(g); } if (kind == 2) { const Fn* f = fn_by_name(g); if (!f) continue; hd = f->fi->handle; }
    long n0 = (long)A.live.size(), fa = o.geti("af"); string what = kind == 0 ? "the group table" : g;
    for (int attempt = 0; attempt < 2; attempt++) {
      Tab t; t.kind = kind; t.what = what; t.t = (TA_StringTable*)16; t.h = (TA_ParamHolder*)16; A.begin_op(attempt ? 0 : fa, o.geti("afp"));
      int rc = kind == 0 ? TA_GroupTableAlloc(&t.t) : kind == 1 ? TA_FuncTableAlloc(g.c_str(), &t.t) : TA_ParamHolderAlloc(hd, &t.h); long fired = A.op_fired; A.begin_op(); bool null = kind < 2 ? t.t == nullptr : t.h == nullptr; LOG.add(" %d", rc); STATS["table.ops"]++;
      if (A.invalid_free) viol("invalid-free", what, "allocating %s released a block that is not allocated", what.c_str());
      if (fired) { static const char* K[] = {"fault.alloc.GroupTable", "fault.alloc.FuncTable", "fault.alloc.ParamHolder"}; STATS[K[kind]]++; }
      long delta = (long)A.live.size() - n0;
      if (unknown) { if (fired ? rc == 0 : rc != TA_GROUP_NOT_FOUND) viol("table-rc", what, "TA_FuncTableAlloc of an unknown group returned %d", rc); if (!null) viol("table-null", what, "TA_FuncTableAlloc of an unknown group left a result"); if (delta) viol("table-leak", what, "TA_FuncTableAlloc of an unknown group kept %ld blocks", delta); if (!fired) break; continue; }
      if (fired) { if (rc == 0) viol("alloc-hidden", what, "allocating %s returned success although allocation %ld failed", what.c_str(), fa); if (rc != TA_ALLOC_ERR) viol("alloc-rc", what, "allocating %s returned %d when allocation %ld failed", what.c_str(), rc, fa);
        if (!null) viol("table-null", what, "allocating %s left a result although it failed", what.c_str()); if (delta) viol("table-leak", what, "allocating %s kept %ld blocks although allocation %ld failed", what.c_str(), delta, fa); continue; }
      if (rc || null) viol("table-rc", what, "allocating %s returned %d%s", what.c_str(), rc, attempt ? " when retried after a failure" : "");
      t.blocks = delta; if (kind < 2) check_table(t);
      else { const Fn* f = fn_by_name(g); const Direct* d = direct_by_name(g.c_str()); vector<double> op; for (auto* oi : f->opt) op.push_back(oi->type == TA_OptInput_RealRange || oi->type == TA_OptInput_RealList ? TA_REAL_DEFAULT : TA_INTEGER_DEFAULT); int lb = -9, rc2 = TA_GetLookback(t.h, &lb); int w = d ? d->lookback(op.data()) : lb; if (rc2 || lb != w) viol("table-content", g, "a fresh holder of %s has look-back %d, the direct call with defaults %d", g.c_str(), lb, w); int x, y; rc2 = TA_CallFunc(t.h, 0, 0, &x, &y); if (rc2 != TA_INPUT_NOT_ALL_INITIALIZE && rc2 != TA_OUTPUT_NOT_ALL_INITIALIZE) viol("table-content", g, "a fresh holder of %s accepts a call without parameters (%d)", g.c_str(), rc2); }
      live.push_back(t); break;
    }
  }
  while (!live.empty()) release(live.size() - 1);
  if (!A.live.empty()) viol("table-leak", "", "%zu blocks still allocated after every result was freed", A.live.size());
}
