// Reference recognition of the candlestick patterns: every average is taken directly over the window the
// settings name, under the settings the model holds (never the library's own copy).
#include "cdlref.h"
namespace {
struct Avg { double v; };
struct Hik { int idx = 0, res = 0; };
thread_local bool amb; thread_local double tol;
inline bool lt(double a, double b) { if (fabs(a - b) <= tol) amb = true; return a < b; }
inline Avg operator+(double a, Avg b) { return {a + b.v}; }
inline Avg operator-(double a, Avg b) { return {a - b.v}; }
inline bool operator<(double a, Avg b) { return lt(a, b.v); }
inline bool operator>(double a, Avg b) { return lt(b.v, a); }
inline bool operator<=(double a, Avg b) { return !lt(b.v, a); }
inline bool operator>=(double a, Avg b) { return !lt(a, b.v); }
struct Bars { const double *inOpen, *inHigh, *inLow, *inClose; const CandleSet* cs; };
inline double range(const Bars& B, int t, int i) {
  double o = B.inOpen[i], c = B.inClose[i], h = B.inHigh[i], l = B.inLow[i];
  switch (t) { case 0: return fabs(c - o); case 1: return h - l; case 2: return (h - (c >= o ? c : o)) + ((c >= o ? o : c) - l); } return 0;
}
Avg average(const Bars& B, int set, int i) {
  const CandleSet& c = B.cs[set]; double s = 0; if (c.period == 0) s = range(B, c.range, i); else { for (int k = i - c.period; k < i; k++) s += range(B, c.range, k); s /= c.period; }
  return {c.factor * s / (c.range == 2 ? 2.0 : 1.0)};
}
typedef CandleSet Cs;
#define max(a, b) (((a) > (b)) ? (a) : (b))
#define min(a, b) (((a) < (b)) ? (a) : (b))
#define std_fabs fabs
#define PER(X) cs[TA_##X].period
#define AVG(X, I) average(B, TA_##X, I)
#define CDLARGS const Bars& B, int i, double optInPenetration, Hik& H
#define inOpen B.inOpen
#define inHigh B.inHigh
#define inLow B.inLow
#define inClose B.inClose
#define patternIdx H.idx
#define patternResult H.res
#define TA_REALBODY(I) (fabs(inClose[I] - inOpen[I]))
#define TA_UPPERSHADOW(I) (inHigh[I] - (inClose[I] >= inOpen[I] ? inClose[I] : inOpen[I]))
#define TA_LOWERSHADOW(I) ((inClose[I] >= inOpen[I] ? inOpen[I] : inClose[I]) - inLow[I])
#define TA_HIGHLOWRANGE(I) (inHigh[I] - inLow[I])
#define TA_CANDLECOLOR(I) (inClose[I] >= inOpen[I] ? 1 : -1)
#define TA_REALBODYGAPUP(X, Y) (min(inOpen[X], inClose[X]) > max(inOpen[Y], inClose[Y]))
#define TA_REALBODYGAPDOWN(X, Y) (max(inOpen[X], inClose[X]) < min(inOpen[Y], inClose[Y]))
#define TA_CANDLEGAPUP(X, Y) (inLow[X] > inHigh[Y])
#define TA_CANDLEGAPDOWN(X, Y) (inHigh[X] < inLow[Y])
struct CdlRef { const char* name; int (*ref)(CDLARGS); int (*lb)(const Cs*); unsigned mask; };
#pragma GCC diagnostic ignored "-Wunused-parameter"
#pragma GCC diagnostic ignored "-Wdangling-else"
#include "cdlref.inc"
#undef inOpen
#undef inHigh
#undef inLow
#undef inClose
const CdlRef* find(const string& n) { for (auto& r : CDLREF) if (n == r.name) return &r; return nullptr; }
}
bool cdl_known(const string& n) { return find(n); }
unsigned cdl_mask(const string& n) { auto* r = find(n); return r ? r->mask : 0; }
int cdl_lookback(const string& n, const CandleSet* cs) { return find(n)->lb(cs); }
void cdl_eval(const string& n, const Feed& f, const CandleSet* cs, double pen, vector<int>& val, vector<char>& ambiguous) {
  const CdlRef* r = find(n); Bars B{f.o.data(), f.h.data(), f.l.data(), f.c.data(), cs}; int lb = r->lb(cs), warm = n.compare(0, 10, "CDLHIKKAKE") ? 0 : 3; Hik H; int stale = 0;
  val.assign(f.n, 0); ambiguous.assign(f.n, 0); double m = 0, fac = 1; for (int i = 0; i < f.n; i++) for (double x : {f.o[i], f.h[i], f.l[i], f.c[i]}) if (fabs(x) > m) m = fabs(x);
  for (int t = 0; t < TA_AllCandleSettings; t++) if (fabs(cs[t].factor) > fac) fac = fabs(cs[t].factor);
  tol = 1e-11 * m * fac;
  for (int i = (lb > warm ? lb - warm : 0); i < f.n; i++) { amb = false; int v = r->ref(B, i, pen, H); if (amb) stale = warm ? 5 : 1; val[i] = v; if (stale) { ambiguous[i] = 1; stale--; } }
}
