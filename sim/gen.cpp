// Scenario generators: everything is drawn from one PRNG.
#include "exec.h"
#include "direct.h"
#include "cdlref.h"

static int lookback_of(const Fn* f, const string& opts) { Inst q; if (q.alloc(f, parse_opts(opts))) return 0; int lb = 0; TA_GetLookback(q.h, &lb); TA_ParamHolderFree(q.h); return lb; }
static bool has_unst(const Fn* f) { return f->fi->flags & TA_FUNC_FLG_UNST_PER; }

struct G {
  Rng r; Scenario sc; const Fn* f; Settings cfg; string opts; int L = 0, n = 0;
  G(const string& prop, uint64_t seed, int hint) : r(seed) { sc.prop = prop; f = hint >= 0 ? &FNS[hint % FNS.size()] : &FNS[r.below(FNS.size())]; }
  void config(double p_unst = .25, double p_compat = .2, double p_cdl = .25) {
    Op& o = sc.add("cfg");
    if (r.chance(p_unst)) { if (r.chance(.5)) cfg.unst = r.range(1, r.chance(.8) ? 12 : 60); else { int k = (int)r.range(1, 3); for (int i = 0; i < k; i++) cfg.unsts.push_back({r.range(0, TA_FUNC_UNST_ALL - 1), r.range(1, 20)}); } }
    if (r.chance(p_compat)) cfg.compat = 1;
    if (r.chance(p_cdl)) cfg.cdl = r.range(1, 1000000);
    if (cfg.unst) o.set("unst", cfg.unst);
    for (auto& u : cfg.unsts) o.set(("u" + std::to_string(u.first)).c_str(), u.second);
    if (cfg.compat) o.set("compat", 1); if (cfg.cdl) o.set("cdl", (long)cfg.cdl);
    o.set("junk", r.range(1, 255)); o.set("junk2", r.range(1, 255));
    cfg.apply();
  }
  string pick_opts(const Fn* fn, int& lb, int maxlb = 400) { string s; for (int k = 0; k < 20; k++) { s = random_opts(r, *fn); lb = lookback_of(fn, s); if ((lb >= 0 && lb <= maxlb) || r.chance(.02)) break; } if (lb < 0) lb = 0; if (lb > maxlb) lb = maxlb; /* a look-back that is refused or absurd is looked at, too */
    if (fn->name == "MAVP" && r.chance(.8)) { vector<double> v = parse_opts(s); if (v.size() > 1) { char b[64]; snprintf(b, sizeof b, "%g,%g,%g", v[1], v[1], v.size() > 2 ? v[2] : 0.); string t = b; int l2 = lookback_of(fn, t); if (l2 >= 0 && l2 <= maxlb) { s = t; lb = l2; } } }
    return s; }
  int feed(int id, int nn) { Op& o = sc.add("feed"); static const std::set<string> FINITE = {"C01", "C14", "C15", "C18", "C19", "C23", "C24", "C27"}; int kind = (int)r.below(FINITE.count(sc.prop) ? FEED_KINDS - 1 : FEED_KINDS); bool cdl = f->name.compare(0, 3, "CDL") == 0; if (cdl && r.chance(.75)) kind = r.chance(.3) ? 8 : 10;
    o.set("id", id); o.set("kind", kind); o.set("seed", r.range(1, 1 << 30)); o.set("n", nn); if (cdl || r.chance(.4)) o.set("q", 1); if (cdl && kind == 10) o.set("pat", f->name); return kind; }
  void base(int extra_lo, int extra_hi, int maxlb = 400) { opts = pick_opts(f, L, maxlb); int extra = (int)r.range(extra_lo, extra_hi); if (r.chance(.03)) extra += (int)r.range(200, 1500); n = L + extra; if (r.chance(.04)) n = (int)r.range(1, std::max(1, L + 8)); }
  Op& stream(int s, int fd = 0, int at = 0) { return sc.add("stream").set("s", s).set("fn", f->name).set("o", opts).set("feed", fd).set("at", at); }
  int cut_point() { // where to interrupt: biased to the edges of the warm-up
    switch (r.below(8)) { case 0: return 0; case 1: return (int)r.range(0, 3); case 2: return std::max(0, L - (int)r.range(0, 3)); case 3: return L + (int)r.range(0, 3); case 4: return (int)r.range(0, std::max(1, L)); default: return (int)r.range(0, n); } }
  int buf() { switch (r.below(5)) { case 0: return 0; case 1: return 1 + (int)r.below(16); case 2: return 1 << (int)r.range(3, 9); default: return -1; } }
  void benign(Op& o) { o.set("buf", buf()); if (r.chance(.3)) o.set("flt", r.chance(.5) ? "short" : "eintr").set("fs", r.range(1, 1 << 20)); }
};

Scenario generate(const string& prop, uint64_t seed, int hint) {
  G g(prop, seed, hint); Rng& r = g.r; Scenario& sc = g.sc;
  if (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C08" || prop == "C12" || prop == "C17") {
    g.config(); g.base(8, 110); if (prop == "C01" && r.chance(.0007)) g.n += 66000; g.feed(0, g.n);
    g.stream(0).set("at", 0);
    int pos = 0, f = 0, segs = 0;
    if (prop == "C01") {
      while (pos < g.n) {
        int k = (int)r.range(1, std::max(1, r.chance(.3) ? 6 : g.n / 2)); if (r.chance(.15)) k = g.n;
        if (r.chance(.25)) { sc.add("bstep").set("s", 0).set("n", k).set("base", r.chance(.5) ? r.range(0, 40) : 0); } else sc.add("step").set("s", 0).set("n", k);
        pos += k; if (pos < g.n && r.chance(.12) && segs++ < 2) { sc.add("save").set("s", 0).set("f", 0); sc.add("crash").set("seed", r.range(1, 1000)); sc.add("load").set("s", 0).set("f", 0).set("i", 0); }
      }
    } else if (prop == "C02") {
      int cuts = (int)r.range(1, 3); vector<int> cp; for (int i = 0; i < cuts; i++) cp.push_back(std::min(g.cut_point(), g.n)); std::sort(cp.begin(), cp.end());
      for (int c : cp) {
        if (c > pos) { sc.add("step").set("s", 0).set("n", c - pos); pos = c; }
        g.benign(sc.add("save").set("s", 0).set("f", f));
        if (r.chance(.25)) { sc.add("step").set("s", 0).set("n", r.range(1, 10)); if (r.chance(.5)) sc.add("save").set("s", 0).set("f", f + 1).set("flt", r.chance(.5) ? "enospc" : "eio").set("at", r.range(0, 200)); } // lost after the checkpoint
        if (r.chance(.7)) sc.add("crash").set("seed", r.range(1, 1000000));
        else if (r.chance(.5)) { // original and copy run on side by side
          Op& l = sc.add("load").set("s", 1).set("f", f).set("i", 0); g.benign(l); int a = (int)r.range(1, 12); for (int q = 0; q < 3; q++) { sc.add("step").set("s", 0).set("n", a); sc.add("step").set("s", 1).set("n", r.range(1, 12)); }
          sc.add("free").set("s", 0); sc.add("step").set("s", 1).set("n", 5); } 
        Op& l = sc.add("load").set("s", 0).set("f", f).set("i", 0); g.benign(l); if (r.chance(.3)) l.set("dflt", 1);
        f ^= 1;
      }
      if (r.chance(.2)) sc.add("bstep").set("s", 0).set("n", g.n); else sc.add("step").set("s", 0).set("n", g.n);
    } else if (prop == "C03") {
      int tries = (int)r.range(1, 5);
      for (int i = 0; i < tries; i++) {
        int c = std::min(g.cut_point(), g.n); if (c > pos) { sc.add("step").set("s", 0).set("n", c - pos); pos = c; } else { int k = (int)r.range(0, 4); if (k) sc.add("step").set("s", 0).set("n", k); pos += k; }
        Op& o = sc.add("save").set("s", 0).set("f", i); 
        if (r.chance(.7)) { static const char* fk[] = {"enospc", "eio", "trans"}; o.set("buf", g.buf()).set("flt", fk[r.below(3)]).set("at", r.chance(.6) ? r.range(0, 120) : r.range(0, 1500)); } else g.benign(o);
      }
      sc.add("step").set("s", 0).set("n", r.range(0, 20));
      g.benign(sc.add("save").set("s", 0).set("f", 20));
      if (r.chance(.5)) sc.add("crash"); 
      sc.add("load").set("s", 1).set("f", 20).set("i", 0); sc.add("step").set("s", 1).set("n", g.n); sc.add("step").set("s", 0).set("n", g.n);
    } else if (prop == "C12") {
      while (pos < g.n) {
        int k = (int)r.range(1, std::max(1, r.chance(.4) ? 5 : g.n / 2)); if (r.chance(.1)) k = g.n;
        if (r.chance(.7)) sc.add("bstep").set("s", 0).set("n", k).set("base", r.chance(.4) ? r.range(0, 60) : 0); else sc.add("step").set("s", 0).set("n", k);
        if (r.chance(.08)) sc.add("bstep").set("s", 0).set("n", 0).set("base", r.range(0, 20));
        pos += k; if (r.chance(.08)) { g.benign(sc.add("save").set("s", 0).set("f", 0)); sc.add("crash").set("seed", 3); sc.add("load").set("s", 0).set("f", 0).set("i", 0); }
      }
    } else if (prop == "C08") {
      int len = (int)r.range(3, 14); int slots = (int)r.range(1, 3);
      for (int i = 0; i < len; i++) { int s = (int)r.below(slots);
        switch (r.below(8)) {
        case 0: g.stream(s); break;
        case 1: case 2: sc.add("step").set("s", s).set("n", r.chance(.3) ? g.L + r.range(0, 5) : r.range(1, 20)); break;
        case 3: sc.add("bstep").set("s", s).set("n", r.range(1, 20)); break;
        case 4: { Op& o = sc.add("save").set("s", s).set("f", r.below(2)); if (r.chance(.3)) o.set("flt", "enospc").set("at", r.range(0, 200)).set("buf", g.buf()); else g.benign(o); break; }
        case 5: { Op& o = sc.add("load").set("s", s).set("f", r.below(2)).set("i", 0); if (r.chance(.3)) o.set("cut", r.range(0, 400)).set("retry", r.below(2)); break; }
        case 6: sc.add("free").set("s", s).set("again", r.below(3)).set("keep", r.chance(.3)); break;
        case 7: if (r.chance(.5)) sc.add("occload").set("s", s).set("f", r.below(2)).set("i", 0); else sc.add("batch").set("fn", g.f->name).set("o", g.opts).set("feed", 0).set("a", r.range(0, 20)); break;
        } }
    } else { // C17: histories replayed over differently dirtied memory
      if (r.chance(.35)) { // a few calls that differ in one respect, repeated in random order
        sc.ops.pop_back(); struct Call { string fn, o; int fd, a; }; vector<Call> pool; g.feed(1, g.n); vector<double> v0 = parse_opts(g.opts); int k = (int)r.range(2, 5); pool.push_back({g.f->name, g.opts, 0, 0});
        for (int i = 0; i < k; i++) { Call c = pool[0]; switch (r.below(5)) {
          case 0: case 1: { int lb; vector<double> v1 = parse_opts(g.pick_opts(g.f, lb, std::max(1, g.n - 8))), v = v0; if (!v.empty() && v1.size() == v.size()) { size_t j = r.below(v.size()); v[j] = v1[j]; if (r.chance(.3)) v = v1; string t; char b[40]; for (size_t q = 0; q < v.size(); q++) { snprintf(b, sizeof b, "%s%.17g", q ? "," : "", v[q]); t += b; } c.o = t; } break; }
          case 2: c.fd = 1; break; case 3: c.a = (int)r.range(0, g.n - 1); break;
          case 4: { const Fn* f2 = &FNS[r.below(FNS.size())]; int lb; c.fn = f2->name; c.o = g.pick_opts(f2, lb, g.n); break; } }
          pool.push_back(c); }
        int m = (int)r.range(4, 12); for (int i = 0; i < m; i++) { const Call& c = pool[r.below(pool.size())]; sc.add("batch").set("fn", c.fn).set("o", c.o).set("feed", c.fd).set("a", c.a); if (r.chance(.2)) sc.ops.back().set("single", 1); }
      } else if (r.chance(.4)) { sc.ops.pop_back(); int k = (int)r.range(1, 4); for (int i = 0; i < k; i++) { int a = (int)r.range(0, g.n - 1); if (r.chance(.5)) a = 0; sc.add("batch").set("fn", g.f->name).set("o", g.opts).set("feed", 0).set("a", a).set("b", r.chance(.5) ? g.n - 1 : r.range(a, g.n - 1)); if (r.chance(.2)) sc.ops.back().set("single", 1); } }
      else { while (pos < g.n) { int k = (int)r.range(1, g.n); if (r.chance(.3)) { sc.add("bstep").set("s", 0).set("n", k); } else sc.add("step").set("s", 0).set("n", k); pos += k; if (r.chance(.3)) { sc.add("batch").set("fn", g.f->name).set("o", g.opts).set("feed", 0).set("a", 0); }
        if (r.chance(.3)) { g.benign(sc.add("save").set("s", 0).set("f", 0)); if (r.chance(.4)) sc.add("crash").set("seed", 3); else if (r.chance(.5)) sc.add("free").set("s", 0); sc.add("load").set("s", 0).set("f", 0).set("i", 0); } } }
    }
    return sc;
  }
  if (prop == "C04") {
    g.config(.15, .1, .15); g.base(2, 30); g.feed(0, g.n); g.stream(0);
    int k = (int)r.range(2, 6); static const char* fk[] = {"enospc", "eio", "trans", "trans"};
    int pos = 0, img = (int)r.range(60, 200);
    for (int i = 0; i < k; i++) {
      int c = std::min(g.cut_point(), g.n); if (c > pos) { sc.add("step").set("s", 0).set("n", c - pos); pos = c; }
      Op& o = sc.add("save").set("s", 0).set("f", 1).set("app", r.chance(.3)).set("buf", g.buf()).set("flt", fk[r.below(4)]).set("at", r.chance(.5) ? r.range(0, 100) : r.chance(.6) ? r.range(0, 4 * img) : r.range(0, 6000));
      (void)o;
    }
    g.benign(sc.add("save").set("s", 0).set("f", 2)); sc.add("crash").set("seed", r.range(1, 99999)); sc.add("load").set("s", 0).set("f", 2).set("i", 0); sc.add("step").set("s", 0).set("n", 12);
    return sc;
  }
  if (prop == "C05") {
    g.config(.15, .1, .15); g.base(2, 30); g.feed(0, g.n); g.stream(0);
    sc.add("step").set("s", 0).set("n", std::min(g.cut_point(), g.n)); g.benign(sc.add("save").set("s", 0).set("f", 0));
    int k = (int)r.range(1, 6);
    for (int i = 0; i < k; i++) {
      switch (r.below(4)) {
      case 0: case 1: { Op& o = sc.add("load").set("s", 1).set("f", 0).set("i", 0).set("buf", g.buf()); o.set("cut", r.chance(.5) ? r.range(0, 80) : r.range(0, 100000)); if (r.chance(.2)) o.set("flt", "short").set("fs", r.range(1, 9999)); o.set("retry", r.chance(.6)); break; }
      case 2: { Op& o = sc.add("load").set("s", 1).set("f", 0).set("i", 0).set("buf", g.buf()); bool tr = r.chance(.4); o.set("flt", tr ? "trans" : "eio").set("at", r.chance(.5) ? r.range(0, 80) : r.range(0, 100000)).set("retry", r.chance(.6)); if (tr && r.chance(.7)) o.set("buf", 0); break; }
      case 3: sc.add("save").set("s", 0).set("f", 1).set("sync", 0).set("buf", g.buf()); sc.add("crash").set("seed", r.range(1, 1 << 30)); sc.add("load").set("s", 1).set("f", 1).set("i", 0); sc.add("load").set("s", 0).set("f", 0).set("i", 0); break;
      }
      if (r.chance(.4)) sc.add("step").set("s", 1).set("n", r.range(1, 10));
    }
    return sc;
  }
  if (prop == "C06") {
    g.config(.15, .1, .15); int k = (int)r.range(2, 6); string ss; int mx = 0; vector<Op> st;
    for (int i = 0; i < k; i++) { const Fn* f = i == 0 ? g.f : &FNS[r.below(FNS.size())]; if (i && r.chance(.3)) f = g.f; int lb; string o = g.pick_opts(f, lb, 200); mx = std::max(mx, lb); 
      Op a{"stream", {}}; a.set("s", i).set("fn", f->name).set("o", o).set("feed", 0).set("at", r.range(0, 5)); if (r.chance(.2)) a.set("empty", 1); st.push_back(a); ss += (i ? "," : "") + std::to_string(i); 
      Op b{"step", {}}; b.set("s", i).set("n", r.chance(.6) ? lb + r.range(0, 8) : r.range(0, lb)); st.push_back(b); }
    g.feed(0, mx + (int)r.range(30, 60)); for (auto& o : st) sc.ops.push_back(o);
    Op& js = sc.add("jsave").set("f", 0).set("ss", ss); g.benign(js);
    if (r.chance(.7)) sc.add("crash").set("seed", 5);
    Op& jl = sc.add("jload").set("f", 0).set("s", 10); g.benign(jl); if (r.chance(.3)) jl.set("dflt", 1);
    for (int q = 0; q < 3; q++) for (int i = 0; i < k; i++) sc.add("step").set("s", 10 + i).set("n", r.range(1, 15));
    return sc;
  }
  if (prop == "C07") {
    g.config(.15, .1, .15); g.base(5, 40); g.feed(0, g.n); g.stream(0); sc.add("step").set("s", 0).set("n", std::min(g.cut_point(), g.n)); g.benign(sc.add("save").set("s", 0).set("f", 0));
    int k = (int)r.range(2, 7); string all = "sbfwl";
    for (int i = 0; i < k; i++) switch (r.below(5)) {
      case 0: sc.add("occload").set("s", r.below(2)).set("f", 0).set("i", 0).set("buf", g.buf()); break;
      case 1: { string d; int m = (int)r.range(1, 7); for (int q = 0; q < m; q++) d += all[r.below(5)]; sc.add("null").set("fn", g.f->name).set("o", g.opts).set("do", d); break; }
      case 2: sc.add("step").set("s", r.below(2)).set("n", r.range(1, 12)); break;
      case 3: g.stream(1).set("at", r.range(0, 4)); break;
      case 4: sc.add("free").set("s", 1).set("again", r.below(3)); break; }
    sc.add("occload").set("s", 0).set("f", 0).set("i", 0); sc.add("step").set("s", 0).set("n", g.n); sc.add("step").set("s", 1).set("n", g.n);
    return sc;
  }
  if (prop == "C09") {
    g.config(); g.base(5, 90); g.feed(0, g.n);
    int k = (int)r.range(2, 6);
    for (int i = 0; i < k; i++) { int a = r.chance(.5) ? 0 : (int)r.range(0, g.n - 1); sc.add("batch").set("fn", g.f->name).set("o", g.opts).set("feed", 0).set("a", a).set("b", r.chance(.6) ? g.n - 1 : r.range(a, g.n - 1)).set("af", i == 0 ? 1 : r.range(1, 12)).set("afp", r.chance(.3)); if (r.chance(.35)) sc.ops.back().set("single", 1); }
    return sc;
  }
  if (prop == "C10") {
    g.config(); g.base(5, 40); g.feed(0, g.n);
    int k = (int)r.range(1, 4);
    for (int i = 0; i < k; i++) g.stream(0).set("af", r.chance(.4) ? 1 : r.range(1, 24)).set("afp", r.chance(.3));
    sc.add("step").set("s", 0).set("n", std::min(g.cut_point(), g.n)); sc.add("save").set("s", 0).set("f", 0);
    k = (int)r.range(1, 5);
    for (int i = 0; i < k; i++) { sc.add("load").set("s", 1).set("f", 0).set("i", 0).set("af", r.chance(.4) ? 1 : r.range(1, 24)).set("afp", r.chance(.3)).set("retry", r.chance(.6)); if (r.chance(.5)) sc.add("step").set("s", 1).set("n", r.range(1, 10)); }
    sc.add("step").set("s", 0).set("n", g.n);
    return sc;
  }
  if (prop == "C11" || prop == "C13") {
    g.config(.2, .15, .2); int nt = (int)r.range(2, r.chance(.7) ? 2 : 4); bool stream = prop == "C11"; int mx = 0; vector<Op> st; bool same = r.chance(.6);
    int blo = stream ? 4 : 20, bhi = stream ? 24 : 60;
    for (int t = 0; t < nt; t++) {
      const Fn* f = t == 0 || same ? g.f : &FNS[r.below(FNS.size())]; int k = (int)r.range(1, 2);
      for (int q = 0; q < k; q++) {
        int lb; string o = g.pick_opts(f, lb, 80); if (t && same && r.chance(.4)) o = g.opts; else if (t == 0) g.opts = o; mx = std::max(mx, lb); int s = 10 * t + q;
        auto T = [&](const char* n) -> Op& { st.push_back(Op{n, {}}); return st.back().set("t", t); };
        if (stream) {
          T("stream").set("s", s).set("fn", f->name).set("o", o).set("feed", r.chance(.6) ? 0 : 1).set("at", r.range(0, 4)); int segs = (int)r.range(1, 3);
          for (int i = 0; i < segs; i++) { if (r.chance(.3)) T("bstep").set("s", s).set("n", lb / segs + r.range(1, 12)).set("base", 0); else T("step").set("s", s).set("n", lb / segs + r.range(1, 12));
            if (r.chance(.4)) { T("save").set("s", s).set("f", s).set("buf", r.chance(.5) ? 0 : -1); T("load").set("s", s).set("f", s).set("i", 0); } }
          if (r.chance(.3)) T("free").set("s", s);
        } else { int c = (int)r.range(1, 3); for (int i = 0; i < c; i++) { int a = r.chance(.6) ? 0 : (int)r.range(0, lb + 10); T("call").set("fn", f->name).set("o", o).set("feed", r.chance(.6) ? 0 : 1).set("a", a); if (r.chance(.3)) st.back().set("single", 1); } }
      } }
    g.feed(0, mx + (int)r.range(blo, bhi)); g.feed(1, mx + (int)r.range(blo, bhi));
    sc.add("sched").set("seed", r.range(1, 1 << 30)).set("rate", r.chance(.3) ? r.range(1, 6) : r.chance(.6) ? r.range(8, 120) : r.range(150, 2500)).set("bias", r.chance(.5) ? r.range(1, 6) : 0);
    for (auto& o : st) sc.ops.push_back(o);
    return sc;
  }
  if (prop == "C15") {
    g.config(.2, .15, .2); int nh = (int)r.range(1, 3); vector<const Fn*> hf; vector<string> ho; int mx = 0;
    for (int i = 0; i < nh; i++) { const Fn* f = i == 0 || r.chance(.4) ? g.f : &FNS[r.below(FNS.size())]; int lb; string o = g.pick_opts(f, lb, 120); hf.push_back(f); ho.push_back(o); mx = std::max(mx, lb); }
    int n = mx + (int)r.range(30, 70); g.feed(0, n); g.feed(1, n);
    auto optval = [&](const Fn* f, size_t k, const string& good) -> double { auto* oi = f->opt[k]; vector<double> v = parse_opts(good); double w = k < v.size() ? v[k] : oi->defaultValue;
      if (r.chance(.8)) return w; bool real = oi->type == TA_OptInput_RealRange; if (r.chance(.3)) return real ? TA_REAL_DEFAULT : TA_INTEGER_DEFAULT;
      if (oi->type == TA_OptInput_IntegerRange) { auto* q = (const TA_IntegerRange*)oi->dataSet; return r.chance(.5) ? q->min - 1.0 : r.chance(.5) ? q->min : r.chance(.1) ? std::min(q->max + 1.0, 2147483647.0) : q->min + (double)r.below(40); }
      if (real) { auto* q = (const TA_RealRange*)oi->dataSet; return r.chance(.5) ? std::max(q->min * (q->min < 0 ? 1.01 : .99) - 1, -3.9e37) : std::max(q->min, -5.0); } return (double)r.range(-1, 12); };
    auto pick_pm = [&]() -> long { if (r.chance(.5)) return 0; long pm = 0; for (int q = 0; q < 6; q++) pm |= (long)r.below(6) << (3 * q); return pm; };
    auto good_in = [&](int h, size_t i) { const Fn* f = hf[h]; bool price = f->in[i]->type == TA_Input_Price; Op& o = sc.add("hin"); o.set("h", h).set("i", i).set("k", price ? "p" : "r").set("feed", r.below(2)).set("off", r.chance(.6) ? 0 : r.range(0, 8)); long pm = pick_pm(); if (!price) pm = f->name == "MAVP" && i == 1 ? 6 : r.below(8); if (pm) o.set("pm", pm); if (price && r.chance(.15)) { int fl = f->in[i]->flags; long nul = 0; static const int F[] = {TA_IN_PRICE_OPEN, TA_IN_PRICE_HIGH, TA_IN_PRICE_LOW, TA_IN_PRICE_CLOSE, TA_IN_PRICE_VOLUME, TA_IN_PRICE_OPENINTEREST}; for (int q = 0; q < 6; q++) if (!(fl & F[q])) nul |= 1 << q; if (nul) o.set("nul", nul); } };
    auto good_out = [&](int h, size_t i) { sc.add("hout").set("h", h).set("i", i).set("k", hf[h]->out[i]->type == TA_Output_Real ? "r" : "n").set("b", r.below(2)); };
    auto set_all = [&](int h, double p) { const Fn* f = hf[h]; for (size_t i = 0; i < f->in.size(); i++) if (r.chance(p)) good_in(h, i); for (size_t i = 0; i < f->out.size(); i++) if (r.chance(p)) good_out(h, i);
      for (size_t i = 0; i < f->opt.size(); i++) if (r.chance(.8)) { auto t = f->opt[i]->type; sc.add("hopt").set("h", h).set("i", i).set("k", t == TA_OptInput_RealRange || t == TA_OptInput_RealList ? "r" : "i").setd("v", optval(f, i, ho[h])); } };
    auto bad_set = [&](int h) { const Fn* f = hf[h]; int hh = r.chance(.07) ? -1 : h;
      switch (r.below(3)) {
      case 0: { int i = r.chance(.4) ? (int)r.range(-1, 4) : (int)r.below(f->in.size()); static const char* K[] = {"r", "p", "n"}; bool price = i >= 0 && i < (int)f->in.size() && f->in[i]->type == TA_Input_Price; const char* k = r.chance(.4) ? K[r.below(3)] : price ? "p" : "r"; Op& o = sc.add("hin"); o.set("h", hh).set("i", i).set("k", k).set("feed", r.below(2)).set("off", r.range(0, 8)); long pm = pick_pm(); if (pm) o.set("pm", pm); if (r.chance(.8)) o.set("nul", r.chance(.5) ? 1 << r.below(6) : r.range(1, 63)); break; }
      case 1: { int i = f->opt.empty() || r.chance(.5) ? (int)r.range(-1, 8) : (int)r.below(f->opt.size()); sc.add("hopt").set("h", hh).set("i", i).set("k", r.chance(.5) ? "r" : "i").setd("v", r.chance(.5) ? r.range(1, 40) : r.unit() * 3); break; }
      case 2: { int i = r.chance(.4) ? (int)r.range(-1, 4) : (int)r.below(f->out.size()); sc.add("hout").set("h", hh).set("i", i).set("k", r.chance(.5) ? "r" : "n").set("b", r.below(2)); if (r.chance(.4)) sc.ops.back().set("nul", 1); break; } } };
    for (int h = 0; h < nh; h++) { sc.add("hnew").set("h", h).set("fn", hf[h]->name); }
    if (r.chance(.1)) sc.add("hbad");
    for (int h = 0; h < nh; h++) { int m = (int)r.range(0, 3); if (r.chance(.3)) for (int q = 0; q < m; q++) bad_set(h); set_all(h, r.chance(.8) ? 1 : .6); if (r.chance(.7)) sc.add("hcall").set("h", h).set("w", "init").set("via", r.chance(.3)); }
    int len = (int)r.range(6, 24); vector<int> pos(nh, 0);
    for (int q = 0; q < len; q++) { int h = (int)r.below(nh); const Fn* f = hf[h];
      switch (r.below(14)) {
      case 0: case 1: bad_set(h); break;
      case 2: good_in(h, r.below(f->in.size())); break;
      case 3: good_out(h, r.below(f->out.size())); break;
      case 4: if (!f->opt.empty()) { size_t i = r.below(f->opt.size()); auto t = f->opt[i]->type; sc.add("hopt").set("h", h).set("i", i).set("k", t == TA_OptInput_RealRange || t == TA_OptInput_RealList ? "r" : "i").setd("v", optval(f, i, random_opts(r, *f))); } break;
      case 5: case 6: { int a = r.chance(.5) ? 0 : (int)r.range(-1, n), e = r.chance(.7) ? n : (int)r.range(-1, n); Op& o = sc.add("hcall"); o.set("h", r.chance(.04) ? -1 : h).set("w", "batch").set("a", a).set("e", e); break; }
      case 7: sc.add("hcall").set("h", r.chance(.04) ? -1 : h).set("w", "lb"); break;
      case 8: sc.add("hcall").set("h", r.chance(.04) ? -1 : h).set("w", r.chance(.6) ? "init" : "free").set("via", r.chance(.3)); break;
      case 9: { int k = r.chance(.5) ? (int)r.range(1, 10) : n; Op& o = sc.add("hrun"); o.set("h", h).set("feed", r.below(2)).set("n", k).set("off", k == n ? 0 : pos[h] % std::max(1, n - 10)).set("via", r.chance(.2)); long pm = pick_pm(); if (pm && r.chance(.3)) o.set("pm", pm); pos[h] += k; break; }
      case 10: sc.add("hcall").set("h", r.chance(.04) ? -1 : h).set("w", "state").set("via", r.chance(.3)); break;
      case 11: { int a = (int)r.range(0, 20); sc.add("hcall").set("h", h).set("w", "bstate").set("a", a).set("e", r.chance(.4) ? n : a + r.range(-1, 20)).set("via", r.chance(.3)); break; }
      case 12: sc.add("hcall").set("h", r.chance(.04) ? -1 : h).set("w", r.chance(.5) ? "save" : "load").set("via", r.chance(.3)); break;
      case 13: if (r.chance(.3) && nh > 1) sc.add("hmove").set("h", h).set("g", r.below(nh)); else if (r.chance(.3)) { sc.add("hfree").set("h", h); sc.add("hnew").set("h", h).set("fn", hf[h]->name); if (r.chance(.8)) set_all(h, 1); } else { sc.add("hcall").set("h", h).set("w", "init"); sc.add("hrun").set("h", h).set("feed", 0).set("n", n); } break; } }
    for (int h = 0; h < nh; h++) if (r.chance(.6)) sc.add("hcall").set("h", h).set("w", "batch").set("a", 0).set("e", n);
    return sc;
  }
  if (prop == "C14") {
    Op& c = sc.add("cfg"); c.set("junk", r.range(1, 255)).set("junk2", r.range(1, 255)); TA_Initialize();
    static vector<int> pats; if (pats.empty()) for (auto& f : FNS) if (cdl_known(f.name)) pats.push_back(f.idx);
    static vector<int> unsts; if (unsts.empty()) for (auto& f : FNS) if (has_unst(&f)) unsts.push_back(f.idx);
    if (r.chance(.25)) g.f = &FNS[pats[r.below(pats.size())]]; else if (r.chance(.2)) g.f = &FNS[unsts[r.below(unsts.size())]];
    const Fn* main = g.f; struct C { const Fn* f; string o; }; vector<C> pool; int mx = 0, lb; string o = g.pick_opts(main, lb, 200); mx = lb; pool.push_back({main, o}); if (r.chance(.5)) { o = g.pick_opts(main, lb, 200); mx = std::max(mx, lb); pool.push_back({main, o}); }
    if (r.chance(.5)) { const Fn* f2 = &FNS[r.below(FNS.size())]; o = g.pick_opts(f2, lb, 200); mx = std::max(mx, lb); pool.push_back({f2, o}); }
    unsigned mask = cdl_mask(main->name); vector<int> ms; for (int i = 0; i < TA_AllCandleSettings; i++) if (mask >> i & 1) ms.push_back(i);
    g.feed(0, mx + (int)r.range(20, 90)); g.feed(1, mx + (int)r.range(20, 90)); int len = (int)r.range(4, 30);
    static const int big[] = {0, 1, 2, 3, 5, 8, 13, 30, 60, 400, 100000};
    auto unst = [&] { int id = r.chance(.6) ? (int)r.below(TA_FUNC_UNST_ALL) : r.chance(.5) ? TA_FUNC_UNST_ALL : r.chance(.5) ? 5 : (int)r.range(-3, TA_FUNC_UNST_ALL + 3); if (has_unst(main) && r.chance(.3)) for (int i = 0; i < TA_FUNC_UNST_ALL; i++) { static const char* UN[] = {"ADX", "ADXR", "ATR", "CMO", "DX", "EMA", "HT_DCPERIOD", "HT_DCPHASE", "HT_PHASOR", "HT_SINE", "HT_TRENDLINE", "HT_TRENDMODE", "IMI", "KAMA", "MAMA", "MFI", "MINUS_DI", "MINUS_DM", "NATR", "PLUS_DI", "PLUS_DM", "RSI", "STOCHRSI", "T3", "WLMA"}; if (main->name == UN[i]) id = i; }
      if (r.chance(.04)) id = r.chance(.5) ? INT_MAX : INT_MIN; sc.add("gunst").set("id", id).set("v", big[r.below(r.chance(.9) ? 9 : 11)]); };
    auto cdl = [&] { int t = !ms.empty() && r.chance(.7) ? ms[r.below(ms.size())] : r.chance(.85) ? (int)r.below(TA_AllCandleSettings) : (int)r.range(-2, TA_AllCandleSettings + 3); if (r.chance(.03)) t = r.chance(.5) ? INT_MAX : INT_MIN; long rt = r.below(3), pd = r.chance(.2) ? 0 : r.range(1, r.chance(.8) ? 12 : 25); double fc = r.chance(.1) ? r.range(0, 4) : r.range(1, 40) / 16.0;
      if (t >= 0 && t < TA_AllCandleSettings && r.chance(.35)) { // one or two components keep the value the library ships, then perhaps that setting alone is restored
        static const struct { int r, p; double f; } DF[] = {{0, 10, 1}, {0, 10, 3}, {0, 10, 1}, {1, 10, .1}, {0, 0, 1}, {0, 0, 2}, {2, 10, 1}, {1, 10, .1}, {1, 5, .2}, {1, 5, .6}, {1, 5, .05}};
        int keep = (int)r.range(1, 6); if (keep & 1) rt = DF[t].r; if (keep & 2) pd = DF[t].p; if (keep & 4) fc = DF[t].f; sc.add("gcdl").set("t", t).set("r", rt).set("p", pd).setd("f", fc); if (r.chance(.5)) sc.add("grest").set("t", r.chance(.8) ? t : (int)TA_AllCandleSettings); return; }
      sc.add("gcdl").set("t", t).set("r", rt).set("p", pd).setd("f", fc); };
    auto call = [&] { const C& q = pool[r.below(pool.size())]; switch (r.below(8)) {
      case 0: sc.add("gunrel").set("seed", r.range(1, 1 << 30)); if (r.chance(.3)) sc.ops.back().set("only", r.range(0, TA_FUNC_UNST_ALL + TA_AllCandleSettings - 1)); break;
      case 1: if (has_unst(q.f)) { sc.add("gdelay").set("k", r.chance(.7) ? r.range(1, 12) : r.range(1, 60)); break; } [[fallthrough]];
      default: sc.add("gcall"); if (r.chance(.15)) sc.ops.back().set("single", 1); else if (r.chance(.25)) sc.ops.back().set("stream", 1); }
      sc.ops.back().set("fn", q.f->name).set("o", q.o).set("feed", r.below(2)); };
    for (int i = 0; i < len; i++) switch (r.below(16)) {
      case 0: sc.add("ginit"); break;
      case 1: sc.add("gshut"); if (r.chance(.3)) sc.add("gshut"); if (r.chance(.3)) unst(); if (r.chance(.3)) cdl(); if (r.chance(.3)) sc.add("gcompat").set("v", 1); if (r.chance(.9)) sc.add("ginit"); break;
      case 2: case 3: case 4: unst(); break;
      case 5: sc.add("gcompat").set("v", r.below(2)); break;
      case 6: case 7: case 8: cdl(); break;
      case 9: sc.add("grest").set("t", r.chance(.4) ? TA_AllCandleSettings : !ms.empty() && r.chance(.6) ? ms[r.below(ms.size())] : (int)r.range(-2, TA_AllCandleSettings + 2)); break;
      case 10: sc.add("gget").set("id", r.range(-3, TA_FUNC_UNST_ALL + 3)); break;
      default: call(); }
    call(); return sc;
  }
  if (prop == "C16") {
    g.config(.1, .1, .1); int len = (int)r.range(4, 20); std::set<string> gs; for (auto& f : FNS) gs.insert(f.fi->group); vector<string> gv(gs.begin(), gs.end());
    for (int i = 0; i < len; i++) switch (r.below(10)) {
      case 0: sc.add("tnull").set("k", r.below(3)); break;
      case 1: case 2: case 3: sc.add("tfree").set("i", r.below(8)); break;
      default: { int k = (int)r.below(3); string gr = k == 2 ? (r.chance(.5) ? g.f->name : FNS[r.below(FNS.size())].name) : r.chance(.9) ? gv[r.below(gv.size())] : "No such group"; if (k == 1 && r.chance(.05)) { static const char* X[] = {"overlap studies", "Overlap", "Overlap Studies ", "", "Pattern Recognition2"}; gr = X[r.below(5)]; } for (auto& c : gr) if (c == ' ') c = '_';
        Op& o = sc.add("talloc"); o.set("k", k).set("g", gr); if (r.chance(.75)) o.set("af", r.chance(.5) ? r.range(1, 2) : r.range(1, 5)).set("afp", r.chance(.25)); } }
    return sc;
  }
  if (prop == "C18") {
    g.config(.2, .15, .2); g.base(8, 110); g.feed(0, g.n); int m = (int)r.range(3, 10), e = (int)r.range(0, g.n - 1); bool single = r.chance(.2); vector<std::pair<int,int>> firsts; // first bar delivered, oldest bar kept
    for (int i = 0; i < m; i++) { int a, k;
      if (r.chance(.8)) e = std::min(g.n - 1, e + (int)r.range(0, r.chance(.7) ? 3 : 20)); else e = (int)r.range(0, g.n - 1);
      if (!firsts.empty() && r.chance(.6)) { a = firsts[r.below(firsts.size())].first; k = r.chance(.4) ? a - g.L : (int)r.range(0, std::max(0, a - g.L)); }
      else switch (r.below(4)) { case 0: a = 0; k = 0; break; case 1: a = e - (int)r.range(0, 4); k = a - g.L; break; case 2: a = g.L + (int)r.range(0, 6); k = (int)r.range(0, 6); break; default: a = (int)r.range(0, e); k = (int)r.range(0, std::max(0, a - g.L)); break; }
      if (a < 0) a = 0; if (k < 0) k = 0; if (e < a) e = std::min(g.n - 1, a + (int)r.range(0, 10)); firsts.push_back({a, k});
      Op& o = sc.add("roll").set("fn", g.f->name).set("o", g.opts).set("feed", 0).set("a", a).set("e", e).set("k", k).set("js", r.range(1, 1 << 20)).set("tail", r.chance(.5) ? 0 : r.range(1, 12)); if (single) o.set("single", 1);
      if (r.chance(.3)) { static const long far[] = {INT_MAX, INT_MAX, 1L << 30, 1L << 24, 1L << 16, 1L << 15, 1000}; o.set("far", far[r.below(7)] - r.range(0, 300)); } }
    return sc;
  }
  if (prop == "C23") {
    g.config(.15, .1, .2); while (g.f->name.find("INDEX") != string::npos) g.f = &FNS[r.below(FNS.size())]; g.base(20, 140, 120); g.feed(0, g.n); // (index outputs are ints)
    sc.add("open").set("s", 0).set("fn", g.f->name).set("o", g.opts).set("feed", 0); sc.add("bar").set("s", 0).set("n", 2 * g.L + 70 + (int)r.range(0, 40)).set("block", r.chance(.3));
    static const int TO[] = {31, 32, 31, 32, 31, 32, 15, 16, 24, 30, 33, 40, 48, 53, 60}; int m = (int)r.range(1, 3), last = 0;
    for (int i = 0; i < m; i++) { int to = TO[r.below(15)]; if (to <= last) to = std::min(60, last + 1); last = to; if (r.chance(.15)) sc.add("save").set("s", 0);
      sc.add("jump").set("s", 0).set("to", to).set("off", (int)r.range(0, 2 * std::min(g.L, 40) + 20)); int nb = (int)r.range(1, 3); for (int j = 0; j < nb; j++) { sc.add("bar").set("s", 0).set("n", r.range(1, g.L + 60)).set("block", r.chance(.3)); if (r.chance(.2)) sc.add("save").set("s", 0); }
      sc.add("bar").set("s", 0).set("n", g.L + 2 * std::min(g.L, 40) + 60); }
    return sc;
  }
  if (prop == "C25") {
    g.config(.3, .3, .3); g.base(10, 110, 120); g.feed(0, g.n); int ns = (int)r.range(1, 2); vector<const Fn*> sf;
    for (int i = 0; i < ns; i++) { const Fn* f = i ? &FNS[r.below(FNS.size())] : g.f; int lb = 0; string o = i ? g.pick_opts(f, lb, g.n) : g.opts; sf.push_back(f); sc.add("open").set("s", i).set("fn", f->name).set("o", o).set("at", i ? r.range(0, 5) : 0); }
    int m = (int)r.range(2, 12); static const int big[] = {0, 1, 2, 3, 5, 8, 13, 30, 60, 400, 100000};
    for (int i = 0; i < m; i++) { int s = (int)r.below(ns); const Fn* f = sf[s];
      switch (r.below(8)) {
        case 0: case 1: case 2: { Op& q = sc.add("set"); int w = (int)r.below(7); if (f->name.compare(0, 3, "CDL") == 0 && r.chance(.7)) w = 3;
          if (w < 2) { int id = r.chance(.3) ? (int)TA_FUNC_UNST_ALL : (int)r.below(TA_FUNC_UNST_ALL); if (r.chance(.6)) for (int t = 0; t < 40; t++) { int x = (int)r.below(TA_FUNC_UNST_ALL); if (unst_may(f, x)) { id = x; break; } } q.set("w", "unst").set("id", id).set("v", big[r.below(11)]); }
          else if (w == 2) q.set("w", "compat").set("v", r.below(2));
          else if (w == 6) q.set("w", r.chance(.5) ? "init" : "shutdown");
          else if (w == 5) q.set("w", "default").set("id", r.chance(.5) ? (int)TA_AllCandleSettings : (int)r.below(TA_AllCandleSettings));
          else { q.set("w", "candle").set("id", r.below(TA_AllCandleSettings)).set("r", r.below(3)).set("p", r.chance(.5) ? r.range(0, 15) : r.chance(.7) ? r.range(0, 60) : 1000).setd("f", r.range(1, 40) / 16.0); }
          break; }
        case 3: sc.add("save").set("s", s).set("buf", r.chance(.5) ? 0 : -1); if (r.chance(.5)) break; [[fallthrough]];
        case 4: sc.add("load").set("s", s); break;
        default: sc.add("bar").set("s", s).set("n", r.chance(.3) ? 1 : r.range(1, g.L + 12)).set("block", r.chance(.3)); break; } }
    for (int i = 0; i < ns; i++) sc.add("bar").set("s", i).set("n", g.n).set("block", r.chance(.2));
    return sc;
  }
  if (prop == "C26") {
    g.config(.4, .3, .4); g.base(10, 110, 120); g.feed(0, g.n); sc.add("open").set("fn", g.f->name).set("o", g.opts).set("block", r.chance(.4)); int m = (int)r.range(1, 10);
    for (int i = 0; i < m; i++) { switch (r.below(6)) { case 0: case 1: sc.add("save").set("buf", r.below(2)).set("again", r.chance(.3)); break; case 2: sc.add("load").set("k", r.below(2)).set("buf", r.below(2)); break;
      default: sc.add("bar").set("n", r.chance(.3) ? 1 : r.range(1, g.L + 12)).set("block", r.chance(.6)); } }
    sc.add("save"); sc.add("load").set("k", r.below(2)); sc.add("bar").set("n", r.range(1, g.n)).set("block", r.chance(.5)); sc.add("save");
    return sc;
  }
  if (prop == "C28" || prop == "C29") { // the source generator
    bool io = prop == "C28"; vector<string> fs{g.f->name}; for (int k = (int)r.range(0, 2); k-- > 0;) { string x = FNS[r.below(FNS.size())].name; if (std::find(fs.begin(), fs.end(), x) == fs.end()) fs.push_back(x); }
    string all; for (auto& x : fs) all += (all.empty() ? "" : ",") + x; if (r.chance(.02)) all = "*"; sc.add("world").set("fns", all);
    static const char* FORMS[] = {"stmt", "stmt", "unhead", "div", "after", "before", "block", "astride", "twice", "line", "long", "head", "blank"};
    auto mess = [&](double pe, double pd) { while (r.chance(pe)) if (r.chance(.12)) sc.add("edit").set("fn", "ta_defs.h").set("at", (long)r.below(1 << 20)).set("id", (long)r.below(1000000)).set("form", string(r.chance(.6) ? "rc" : FORMS[r.below(13)])); else sc.add("edit").set("fn", fs[r.below(fs.size())]).set("at", (long)r.below(1 << 20)).set("id", (long)r.below(1000000)).set("form", string(FORMS[r.below(13)])); static const char* H[] = {"gut", "garble", "delete", "trunc", "spoil", "new"}; while (r.chance(pd)) sc.add("damage").set("how", H[r.chance(.1) ? 5 : r.below(5)]).set("fn", r.chance(.1) ? string("ta_defs.h") : fs[r.below(fs.size())]).set("at", (long)r.below(1 << 20)); };
    static const char* K[] = {"kill", "kill", "full", "write", "read", "open", "openr", "openw", "close", "rename", "tool", "alloc"};
    int n = (int)r.range(1, io ? 4 : 3); for (int k = 0; k < n; k++) { mess(io ? .4 : .7, io ? .2 : .5); if (r.chance(.08)) sc.add("marker").set("fn", r.chance(.1) ? string("ta_defs.h") : fs[r.below(fs.size())]).set("at", (long)r.below(1 << 20)); if (io && r.chance(.12)) { string x = fs[r.below(fs.size())]; static const char* KN[] = {"read", "write", "full", "close", "kill", "openw", "openr", "rename"}; sc.add("damage").set("how", string("new")).set("fn", x).set("at", 0L); Op& q = sc.add("run"); q.set("fault", string(KN[r.below(8)])).set("at", (long)r.below(1000000)).set("on", r.chance(.8) ? "/ta_" + x + ".c" : string(r.chance(.5) ? "pass2.tmp" : "templates/")); if (r.chance(.3)) q.set("keep", 1L); } Op& o = sc.add("run"); if (io || r.chance(.3)) { o.set("fault", string(io ? K[r.below(12)] : "kill")).set("at", (long)r.below(1000000)); if (r.chance(.3)) o.set("keep", 1L); static const char* ON[] = {"pass1.tmp", "pass2.tmp", "logic.tmp", "ta_defs", "ta_retcode", "ta_func_api", "ta_frame", "ta_group_idx", "ta_func.h", "Core", "templates/", "/ta_func/ta_"}; if (r.chance(.7)) o.set("on", r.chance(.5) ? "/ta_" + fs[r.below(fs.size())] + ".c" : string(ON[r.below(12)])); } }
    return sc;
  }
  if (prop == "C27") {
    g.config(.3, .25, 0); g.base(10, 160, r.chance(.04) ? 1500 : 150); long kind = g.feed(0, g.n); Op& fo = sc.ops.back(); fo.set("q", 1); // sums of these quotes are exact
    static const std::set<string> SQ = {"VAR", "STDDEV", "BBANDS", "CORREL", "BETA"}; if (SQ.count(g.f->name) && kind == 6) fo.set("kind", (long)0); if (g.f->name.compare(0, 3, "HT_") == 0 && (kind == 2 || kind == 3)) fo.set("kind", (long)0);
    static const std::set<string> FL = {"ACCBANDS", "ADD", "AVGPRICE", "BOP", "CCI", "DIV", "MEDPRICE", "MFI", "MOM", "MULT", "NVI", "PVI", "PVT", "SUB", "TYPPRICE", "WCLPRICE"}; // these do float arithmetic on float quotes, see C19
    int m = (int)r.range(1, 4); bool single = r.chance(.3) && !FL.count(g.f->name);
    for (int i = 0; i < m; i++) if (i && r.chance(.4)) { sc.add("follow").set("fn", g.f->name).set("o", g.opts).set("how", r.below(3)).set("plan", r.range(1, 1 << 20)).set("crash", r.chance(.5)); }
      else { Op& o = sc.add("value").set("fn", g.f->name).set("o", g.opts).set("js", r.range(1, 1 << 20)); int a = 0; if (r.chance(.5)) { a = r.chance(.5) ? (int)r.range(0, g.n - 1) : g.L + (int)r.range(-2, 6); a = std::max(0, std::min(a, g.n - 1)); o.set("a", a); } if (r.chance(.4)) o.set("e", r.range(a, g.n - 1)); if (single && r.chance(.7)) o.set("single", 1); }
    return sc;
  }
  if (prop == "C19") {
    g.config(.2, .15, .2); g.base(6, 110); g.feed(0, g.n); Op& fd = sc.ops.back(); // functions that do float arithmetic on the quotes get quotes on which sums and differences of floats are exact
    static const std::set<string> FL = {"ACCBANDS", "ADD", "AVGPRICE", "BOP", "CCI", "DIV", "MEDPRICE", "MFI", "MOM", "MULT", "NVI", "PVI", "PVT", "SUB", "TYPPRICE", "WCLPRICE"}; bool fl = FL.count(g.f->name); long kd = fd.geti("kind"); if (fl) { fd.set("q", 1); if (kd == 6 || kd == 7) fd.set("kind", (long)0); }
    int m = (int)r.range(1, 5), e = (int)r.range(0, g.n - 1);
    for (int i = 0; i < m; i++) { Op& q = sc.add("both").set("fn", g.f->name).set("o", g.opts); if (r.chance(.5)) q.set("a", r.chance(.5) ? r.range(0, g.n - 1) : g.L + r.range(0, 3)); if (r.chance(.5)) { e = std::min(g.n - 1, e + (int)r.range(0, 10)); q.set("e", e); } if (r.chance(.3)) q.set("k", r.range(0, g.n - 1)); }
    return sc;
  }
  if (prop == "C20") {
    g.config(.15, .1, .15); g.base(6, 90, 120); g.feed(0, g.n); int ns = (int)r.range(0, 2); vector<const Fn*> sf; vector<int> pos(2, 0); int reads = 0;
    auto arrays = [&](Op& q, const Fn* f) { const Direct* d = direct_by_name(f->name.c_str()); string in, out; int k = 0;
      for (const char* c = d->in; *c; c++) { int v = *c == 'O' ? 0 : *c == 'H' ? 1 : *c == 'L' ? 2 : *c == 'C' ? 3 : *c == 'V' ? 4 : *c == 'I' ? 5 : 3; if (*c == 'R') { k++; v = f->name == "MAVP" && k == 2 ? 6 : f->name == "ACOS" || f->name == "ASIN" ? 7 : k == 2 ? 1 : 3; } if (r.chance(.1)) v = (int)r.below(8); in += char('0' + v); }
      for (const char* c = d->out; *c; c++) { if (*c != 'R') { out += char('0' + (out.find('0') != string::npos)); continue; } int v; for (int t = 0;; t++) { v = r.chance(.75) && t < 20 ? in[r.below(in.size())] - '0' : (int)r.below(8); if (out.find(char('0' + v)) == string::npos) break; } out += char('0' + v); }
      q.set("in", in).set("out", out); };
    for (int s = 0; s < ns; s++) { string o = g.opts; int lb; if (s) o = g.pick_opts(g.f, lb, 120); sc.add("open").set("s", s).set("fn", g.f->name).set("o", o); }
    int len = (int)r.range(1, 7);
    for (int i = 0; i < len; i++) { if (ns && r.chance(.4)) { int s = (int)r.below(ns); Op& q = sc.add("block").set("s", s); arrays(q, g.f); if (r.chance(.5)) q.set("a", r.range(0, g.n - 1)); if (r.chance(.4)) q.set("e", r.range(0, g.n - 1)); }
      else { const Fn* f = r.chance(.75) ? g.f : &FNS[r.below(FNS.size())]; int lb = 0; string o = f == g.f && r.chance(.6) ? g.opts : g.pick_opts(f, lb, 120); Op& q = sc.add("pipe").set("fn", f->name).set("o", o); arrays(q, f); if (r.chance(.5)) q.set("a", r.range(0, g.n - 1)); if (r.chance(.4)) q.set("e", r.range(0, g.n - 1)); }
      if (++reads % 2 == 0 && r.chance(.5)) sc.add("reset"); }
    return sc;
  }
  if (prop == "C24") {
    g.config(.15, .1, .15); g.base(12, 120, 150); g.feed(0, g.n); static const char* W[] = {"nan", "nan", "nan", "inf", "ninf", "huge", "nhuge", "tiny", "zero", "neg", "fat", "stuck", "crossed"};
    int ng = (int)r.range(1, r.chance(.7) ? 3 : 8), base = r.chance(.3) ? (int)r.range(0, std::max(0, g.L - 1)) : (int)r.range(0, g.n - 1), top = base; string w = W[r.below(13)]; bool many = r.chance(.4);
    for (int i = 0; i < ng; i++) { int at = std::min(g.n - 1, base + (i ? (int)r.range(0, r.chance(.6) ? 6 : g.n / 2) : 0)); top = std::max(top, at); if (many) w = W[r.below(13)]; sc.add("glitch").set("i", at).set("w", w).set("m", r.chance(.4) ? 255 : r.chance(.4) ? 8 : r.range(1, 255)); }
    int ns = (int)r.range(0, 2); vector<int> pos(2, 0);
    auto open = [&](int s) { int at = r.chance(.25) && top + 1 < g.n ? top + 1 : r.chance(.8) ? 0 : (int)r.range(0, g.n - 1); int lb; string o = s ? g.pick_opts(g.f, lb, 150) : g.opts; sc.add("open").set("s", s).set("fn", g.f->name).set("o", o).set("at", at); pos[s] = at; };
    for (int s = 0; s < ns; s++) open(s);
    int len = (int)r.range(3, 14);
    for (int i = 0; i < len; i++) { int s = ns ? (int)r.below(ns) : 0; int what = ns ? (int)r.below(10) : 9;
      if (what < 6) { int k = r.chance(.5) ? (int)r.range(1, 6) : r.chance(.5) ? std::max(1, base - pos[s] + (int)r.range(-1, 2)) : (int)r.range(1, g.n); sc.add("bar").set("s", s).set("n", k).set("block", r.chance(.4)); pos[s] += k; }
      else if (what == 6) sc.add("save").set("s", s).set("buf", g.buf());
      else if (what == 7 && r.chance(.4)) open(s);
      else { Op& q = sc.add("batch").set("fn", g.f->name).set("o", g.opts); if (r.chance(.3)) q.set("k", r.chance(.6) ? top + 1 : r.range(0, g.n - 1)); if (r.chance(.5)) q.set("a", r.range(0, g.n - 1)); if (r.chance(.4)) q.set("e", r.range(0, g.n - 1)); if (r.chance(.3)) q.set("single", 1); } }
    if (ns) sc.add("bar").set("s", 0).set("n", g.n).set("block", r.chance(.3));
    return sc;
  }
  if (prop == "C22") {
    g.config(.15, .1, .15); g.base(6, 40, 200); g.feed(0, g.n); int ns = (int)r.range(0, 2); vector<string> so;
    for (int s = 0; s < ns; s++) { string o = g.opts; int lb; if (s) o = g.pick_opts(g.f, lb, 200); sc.add("open").set("s", s).set("fn", g.f->name).set("o", o).set("feed", 0); sc.add("bar").set("s", s).set("n", std::min(g.cut_point(), g.n)); }
    auto sub = [&](int i, double v) { vector<double> q = parse_opts(g.opts); string t; char b[40]; for (size_t j = 0; j < g.f->opt.size(); j++) { double x = (int)j == i ? v : j < q.size() ? q[j] : g.f->opt[j]->defaultValue; snprintf(b, sizeof b, "%s%.17g", j ? "," : "", x); t += b; } return t.empty() ? string("-") : t; };
    auto edge = [&](int i, bool bad) -> double { auto* oi = g.f->opt[i]; switch (oi->type) {
      case TA_OptInput_IntegerRange: { auto* q = (const TA_IntegerRange*)oi->dataSet; if (!bad) return r.chance(.5) ? q->min : r.chance(.6) ? q->max : q->min + 1; double v; switch (r.below(6)) { case 0: case 1: v = q->min - 1.0; break; case 2: case 3: v = q->max + 1.0; break; case 4: v = r.chance(.5) ? -2147483647. : 2147483647.; break; default: v = r.chance(.5) ? (double)q->min - r.range(1, 100) : (double)q->max + r.range(1, 100000); } return std::max(-2147483647., std::min(2147483647., v)); }
      case TA_OptInput_RealRange: { auto* q = (const TA_RealRange*)oi->dataSet; if (!bad) return r.chance(.5) ? q->min : r.chance(.7) ? q->max : q->min + 1e-9; double lo = q->min, hi = q->max; bool below = r.chance(.5); double base = below ? lo : hi, d = r.chance(.4) ? fabs(base) * 1e-6 + 1e-9 : r.chance(.5) ? fabs(base) * .3 + 1 : 3.9e37 - fabs(base); double v = below ? base - d : base + d; return v == TA_REAL_DEFAULT ? -3.8e37 : v; }
      case TA_OptInput_IntegerList: { auto* q = (const TA_IntegerList*)oi->dataSet; int mx = 0; for (unsigned j = 0; j < q->nbElement; j++) mx = std::max(mx, q->data[j].value); if (!bad) return q->data[r.chance(.5) ? q->nbElement - 1 : r.below(q->nbElement)].value; return r.chance(.4) ? -1 : r.chance(.6) ? mx + 1 : r.chance(.5) ? mx + r.range(1, 1000) : -2147483647.; }
      default: return oi->defaultValue; } };
    auto good = [&] { string o = g.opts; if (!g.f->opt.empty() && r.chance(.35)) { int i = (int)r.below(g.f->opt.size()); o = sub(i, edge(i, false)); } int a = r.chance(.5) ? 0 : (int)r.range(0, g.n - 1), e = r.chance(.5) ? g.n - 1 : r.chance(.5) ? a : (int)r.range(a, g.n - 1);
      Op& q = sc.add("ok").set("fn", g.f->name).set("o", o).set("feed", 0).set("a", a).set("e", e); if (r.chance(.3)) q.set("single", 1); if (r.chance(.4)) q.set("init", 1); };
    auto badcall = [&] { Op& q = sc.add("bad").set("fn", g.f->name).set("feed", 0); string o = g.opts; bool opt = !g.f->opt.empty(); int which = (int)r.below(9);
      if (which < 5) { q.set("w", "batch"); if (r.chance(.35)) q.set("single", 1); int nb = r.chance(.85) ? 1 : (int)r.range(2, 3);
        for (int i = 0; i < nb; i++) switch (r.below(opt ? 6 : 4)) { case 0: q.set("a", r.chance(.5) ? -1 : r.chance(.3) ? (long)INT_MIN : -r.range(2, 100)); break; case 1: { long a = r.range(0, 30); if (r.chance(.5)) { if (r.chance(.6)) q.set("a", a = 0); q.set("e", r.chance(.5) ? -1 : r.chance(.3) ? (long)INT_MIN : -r.range(2, 100)); } else { q.set("a", a + 1); q.set("e", r.chance(.6) ? a : r.range(0, a)); } break; } case 2: q.set("ni", r.below(6)); break; case 3: q.set("no", r.below(4)); break; default: { int j = (int)r.below(g.f->opt.size()); o = sub(j, edge(j, true)); } } }
      else if (which == 5 && opt) { int j = (int)r.below(g.f->opt.size()); o = sub(j, edge(j, true)); q.set("w", "lb"); }
      else if (which <= 7 && opt) { int j = (int)r.below(g.f->opt.size()); o = sub(j, edge(j, true)); q.set("w", "init"); }
      else { static const char* W[] = {"initnull", "statenull", "bstatenull", "freenull", "loadnull"}; q.set("w", W[r.below(5)]); }
      q.set("o", o); };
    good(); int len = (int)r.range(4, 16);
    for (int i = 0; i < len; i++) switch (r.below(ns ? 8 : 5)) {
      case 0: good(); break;
      case 1: if (r.chance(.2)) { sc.add("ask").set("fn", g.f->name).set("x", r.below(8)); break; } [[fallthrough]];
      case 2: case 3: case 4: badcall(); break;
      case 5: { static const char* W[] = {"bin", "bout", "occ"}; sc.add("sbad").set("s", r.below(ns)).set("w", W[r.below(3)]).set("i", r.below(6)); break; }
      default: sc.add("bar").set("s", r.below(ns)).set("n", r.range(1, 10)); if (r.chance(.3)) sc.ops.back().set("block", 1); }
    { vector<Op> oks; for (auto& o : sc.ops) if (o.name == "ok") oks.push_back(o); for (auto& o : oks) sc.ops.push_back(o); }
    for (int s = 0; s < ns; s++) if (r.chance(.1)) { sc.add("sbad").set("s", s).set("w", "sout").set("i", r.below(4)); } else sc.add("bar").set("s", s).set("n", g.n);
    return sc;
  }
  return sc;
}
