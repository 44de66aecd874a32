// Reference models of the indicators, written from their published definitions: every sum is taken afresh over its window,
// every composite is built from its parts, nothing is kept in ring buffers. Recursive averages start where the library documents
// it: the bar `f` of the first value, less the look-back (Metastock compatibility: with the first bar there is).
#include "refs.h"
namespace {
typedef vector<double> V;
const double NA = NAN;
struct S { int b = 0; V v; double operator[](int i) const { return v[(size_t)i]; } double& at(int i) { return v[(size_t)i]; } int n() const { return (int)v.size(); } }; // b: first bar with a value
struct M {
  const RefSet& s; const vector<const double*>& in; int n, start; vector<double> o; int L = 0, f = 0; RefOut R;
  S real(size_t i) const { S x; x.v.assign(in[i], in[i] + n); return x; }
  S blank(int b) const { S x; x.b = b; x.v.assign((size_t)n, NA); return x; }
  template <class F> S each(int b, F g) const { S x = blank(b); for (int t = std::max(b, 0); t < n; t++) x.at(t) = g(t); return x; }
  int un(int id) const { return (int)s.un[id]; }
  bool meta() const { return s.compat == TA_COMPATIBILITY_METASTOCK; }
  static bool exact(double v) { return v * 1048576 == floor(v * 1048576) && fabs(v) < 1e9; } // sums of these are exact
  static bool zero(double v) { return fabs(v) < 1e-14; }
  static double sum(const S& x, int t, int p) { double a = 0; for (int i = t - p + 1; i <= t; i++) a += x[i]; return a; }
  static double hi(const S& x, int t, int p) { double a = x[t]; for (int i = t - p + 1; i < t; i++) if (std::isnan(x[i])) return NA; else if (x[i] > a) a = x[i]; return a; }
  static double lo(const S& x, int t, int p) { double a = x[t]; for (int i = t - p + 1; i < t; i++) if (std::isnan(x[i])) return NA; else if (x[i] < a) a = x[i]; return a; }
  // ---- moving averages; f is the first bar a value is wanted for
  int lb_ema(int p) const { return p - 1 + un(TA_FUNC_UNST_EMA); }
  S avg(const S& x, int p, int f) const { return each(f, [&](int t) { return sum(x, t, p) / p; }); }
  S recur(const S& x, double k, int seed, int p, int f) const { // exponential recursion started with the mean of p values from bar `seed` on
    S y = blank(f); if (seed + p > n) return y; double a = sum(x, seed + p - 1, p) / p; int t = seed + p - 1; for (;;) { if (t >= f) y.at(t) = a; if (++t >= n) break; a += (x[t] - a) * k; } return y; }
  S expo(const S& x, double k, int p, int lb, int f) const {
    if (!meta()) return recur(x, k, f - lb, p, f);
    S y = blank(f); double a = x[x.b]; for (int t = x.b;;) { if (t >= f) y.at(t) = a; if (++t >= n) break; a += (x[t] - a) * k; } return y; }
  S ema(const S& x, int p, int f) const { return expo(x, 2.0 / (p + 1), p, lb_ema(p), f); }
  S wlma(const S& x, int p, int f) const { return expo(x, 1.0 / p, p, p - 1 + un(TA_FUNC_UNST_WLMA), f); }
  S wma(const S& x, int p, int f) const { return each(f, [&](int t) { double a = 0; for (int i = 0; i < p; i++) a += x[t - i] * (p - i); return a / (p * (p + 1) / 2.0); }); }
  S trima(const S& x, int p, int f) const { int k = (p + 1) / 2; return each(f, [&](int t) { double a = 0, w = 0; for (int i = 0; i < p; i++) { int g = std::min(i + 1, p - i); a += x[t - i] * g; w += g; } (void)k; return a / w; }); }
  S dema(const S& x, int p, int f) const { S a = ema(x, p, f - lb_ema(p)), b = ema(a, p, f); return each(f, [&](int t) { return 2 * a[t] - b[t]; }); }
  S tema(const S& x, int p, int f) const { int l = lb_ema(p); S a = ema(x, p, f - 2 * l), b = ema(a, p, f - l), c = ema(b, p, f); return each(f, [&](int t) { return 3 * a[t] - 3 * b[t] + c[t]; }); }
  S t3(const S& x, int p, double v, int f) const { double k = 2.0 / (p + 1); int at = f - 6 * (p - 1) - un(TA_FUNC_UNST_T3); S e[7]; e[0] = x; for (int i = 1; i <= 6; i++) { e[i] = recur(e[i - 1], k, at, p, at + p - 1); at += p - 1; }
    double c1 = -v * v * v, c2 = 3 * v * v + 3 * v * v * v, c3 = -6 * v * v - 3 * v - 3 * v * v * v, c4 = 1 + 3 * v + v * v * v + 3 * v * v; return each(f, [&](int t) { return c1 * e[6][t] + c2 * e[5][t] + c3 * e[4][t] + c4 * e[3][t]; }); }
  S noisy(const S& y) const { S x = y; if (s.noise) { Rng r(s.noise); double m = 0; for (double v : x.v) if (std::isfinite(v)) m = std::max(m, fabs(v)); for (double& v : x.v) v += 1e-14 * m * (2 * r.unit() - 1); } return x; }
  S kama(const S& z, int p, int f) const { S y = blank(f), x = z.b > 0 ? noisy(z) : z; /* a computed series carries rounding */ int a = f - p - un(TA_FUNC_UNST_KAMA); if (a + p >= n) return y; double k = x[a + p - 1], fast = 2.0 / 3, slow = 2.0 / 31; bool grid = true; for (int i = a; i < a + p; i++) grid &= exact(x[i]);
    for (int t = a + p; t < n; t++) { double way = 0; grid &= exact(x[t]); for (int i = t - p + 1; i <= t; i++) way += fabs(x[i] - x[i - 1]); if (!(way >= 1e-9) && !grid) return y; /* rounding decides from here on */ double er = zero(way) ? 1 : std::min(1.0, fabs(x[t] - x[t - p]) / way), c = er * (fast - slow) + slow; k += (x[t] - k) * c * c; if (t >= f) y.at(t) = k; } return y; }
  // ---- Ehlers' Hilbert transform
  struct H { int h0; V sm, period, smooth, q1, i1; };
  H hilbert(const S& y, int a, int warm) const { // a: first bar used; the quadrature filter starts 3 + warm bars later
    S x = noisy(y); // how much of the phase is rounding?
    H h; h.h0 = a + 3 + warm; for (V* v : {&h.sm, &h.period, &h.smooth, &h.q1, &h.i1}) v->assign((size_t)n, 0.0); V det((size_t)n, 0.0), q2 = det, i2 = det, ji = det, jq = det; double per = 0, smp = 0, re = 0, im = 0; int z = h.h0;
    auto g = [&](const V& v, int t) { return t < z ? 0.0 : v[(size_t)t]; };
    auto ht = [&](const V& v, int t, double adj) { return (.0962 * (g(v, t) - g(v, t - 6)) + .5769 * (g(v, t - 2) - g(v, t - 4))) * adj; };
    for (int t = z; t < n; t++) { double adj = .075 * per + .54; h.sm[t] = (4 * x[t] + 3 * x[t - 1] + 2 * x[t - 2] + x[t - 3]) / 10; det[t] = ht(h.sm, t, adj); h.q1[t] = ht(det, t, adj); h.i1[t] = g(det, t - 3); ji[t] = ht(h.i1, t, adj); jq[t] = ht(h.q1, t, adj);
      q2[t] = .2 * (h.q1[t] + ji[t]) + .8 * g(q2, t - 1); i2[t] = .2 * (h.i1[t] - jq[t]) + .8 * g(i2, t - 1); re = .2 * (i2[t] * g(i2, t - 1) + q2[t] * g(q2, t - 1)) + .8 * re; im = .2 * (i2[t] * g(q2, t - 1) - q2[t] * g(i2, t - 1)) + .8 * im;
      double old = per; if (im != 0 && re != 0) per = 2 * M_PI / atan(im / re); if (per > 1.5 * old) per = 1.5 * old; if (per < .67 * old) per = .67 * old; per = std::min(50.0, std::max(6.0, per)); per = .2 * per + .8 * old; smp = .33 * per + .67 * smp; h.period[t] = per; h.smooth[t] = smp; }
    return h; }
  void mama(const S& x, double fast, double slow, int f, S& ma, S& fa) const { ma = fa = blank(f); if (x.b > 0) return; /* of a series of K values: rounding decides the phase, the model does not follow */ H h = hilbert(x, f - 32 - un(TA_FUNC_UNST_MAMA), 9); double prev = 0, m = 0, fm = 0;
    for (int t = h.h0; t < n; t++) { if (std::isnan(x[t]) || std::isnan(x[t - 3])) return; double ph = h.i1[t] != 0 ? atan(h.q1[t] / h.i1[t]) * 180 / M_PI : 0, d = std::max(1.0, prev - ph), al = d > 1 ? std::max(slow, fast / d) : fast; prev = ph; m = al * x[t] + (1 - al) * m; fm = al / 2 * m + (1 - al / 2) * fm; if (t >= f) { ma.at(t) = m; fa.at(t) = fm; } } }
  V dcphase(const H& h) const { V ph((size_t)n, 0.0); double p = 0; for (int t = h.h0; t < n; t++) { int dc = (int)(h.smooth[t] + .5); double re = 0, im = 0; for (int i = 0; i < dc; i++) { double y = t - i < h.h0 ? 0 : h.sm[t - i], w = 2 * M_PI * i / dc; re += sin(w) * y; im += cos(w) * y; }
      if (im != 0) p = atan(re / im) * 180 / M_PI; else p += re < 0 ? -90 : re > 0 ? 90 : 0; p += 90 + 360 / h.smooth[t]; if (im < 0) p += 180; if (p > 315) p -= 360; ph[t] = p; } return ph; }
  V trendline(const S& x, const H& h) const { V y((size_t)n, 0.0), it((size_t)n, 0.0); auto g = [&](int t) { return t < h.h0 ? 0.0 : it[t]; }; for (int t = h.h0; t < n; t++) { int dc = (int)(h.smooth[t] + .5); if (dc > t + 1) { it[t] = NA; } else if (dc > 0) it[t] = sum(x, t, dc) / dc; y[t] = (4 * g(t) + 3 * g(t - 1) + 2 * g(t - 2) + g(t - 3)) / 10; } return y; }
  // ---- the moving average family
  int lb_ma(int p, int type) const { return p <= 1 ? 0 : lb_one(p, type); }
  int lb_one(int p, int type) const { switch (type) { case TA_MAType_EMA: return lb_ema(p); case TA_MAType_DEMA: return 2 * lb_ema(p); case TA_MAType_TEMA: return 3 * lb_ema(p); case TA_MAType_KAMA: return p + un(TA_FUNC_UNST_KAMA); case TA_MAType_MAMA: return 32 + un(TA_FUNC_UNST_MAMA); case TA_MAType_T3: return 6 * (p - 1) + un(TA_FUNC_UNST_T3); case TA_MAType_WLMA: return p - 1 + un(TA_FUNC_UNST_WLMA); } return p - 1; }
  S ma(const S& x, int p, int type, int f) const { if (p <= 1) return each(f, [&](int t) { return x[t]; }); return one(x, p, type, f); }
  S one(const S& x, int p, int type, int f) const {
    switch (type) { case TA_MAType_EMA: return ema(x, p, f); case TA_MAType_WMA: return wma(x, p, f); case TA_MAType_DEMA: return dema(x, p, f); case TA_MAType_TEMA: return tema(x, p, f); case TA_MAType_TRIMA: return trima(x, p, f); case TA_MAType_KAMA: return kama(x, p, f); case TA_MAType_MAMA: { S a, b; mama(x, .5, .05, f, a, b); return a; } case TA_MAType_T3: return t3(x, p, .7, f); case TA_MAType_WLMA: return wlma(x, p, f); }
    return avg(x, p, f); }
  // ---- parts
  static double tr(const S& h, const S& l, const S& c, int t) { return std::max({h[t] - l[t], fabs(c[t - 1] - h[t]), fabs(c[t - 1] - l[t])}); }
  static double pdm(const S& h, const S& l, int t) { double u = h[t] - h[t - 1], d = l[t - 1] - l[t]; return u > 0 && u > d ? u : 0; }
  static double mdm(const S& h, const S& l, int t) { double u = h[t] - h[t - 1], d = l[t - 1] - l[t]; return d > 0 && d > u ? d : 0; }
  template <class F> S wilder(int a, int p, F g) const { // Wilder's running sum: p-1 terms from bar a+1 on, from then on the old sum loses 1/p of itself
    S y = blank(a + p); double w = 0; for (int t = a + 1; t < a + p && t < n; t++) w += g(t); for (int t = a + p; t < n; t++) y.at(t) = w = w - w / p + g(t); return y; }
  S atr(const S& h, const S& l, const S& c, int p, int unst, int f) const { int a = f - p - unst; S y = blank(f); if (a + p >= n) return y; double w = 0; for (int t = a + 1; t <= a + p; t++) w += tr(h, l, c, t); w /= p; for (int t = a + p;;) { if (t >= f) y.at(t) = w; if (++t >= n) break; w = (w * (p - 1) + tr(h, l, c, t)) / p; } return y; }
  double dx(const S& P, const S& Mi, const S& T, int t, bool& ok) const { ok = false; if (zero(T[t])) return 0; double a = 100 * P[t] / T[t], b = 100 * Mi[t] / T[t]; if (zero(a + b)) return 0; ok = true; return 100 * fabs(a - b) / (a + b); }
  S adx(const S& h, const S& l, const S& c, int p, int f) const { int u = un(TA_FUNC_UNST_ADX), a = f - 2 * p + 1 - u; S P = wilder(a, p, [&](int t) { return pdm(h, l, t); }), Mi = wilder(a, p, [&](int t) { return mdm(h, l, t); }), T = wilder(a, p, [&](int t) { return tr(h, l, c, t); }), y = blank(f);
    double w = 0; bool ok; int t = a + p; for (; t < a + 2 * p && t < n; t++) w += dx(P, Mi, T, t, ok); w /= p; for (t = a + 2 * p - 1; t < n;) { if (t >= f) y.at(t) = w; if (++t >= n) break; double d = dx(P, Mi, T, t, ok); if (ok) w = (w * (p - 1) + d) / p; } return y; }
  // relative strength: smoothed gains and losses
  S strength(const S& x, int p, int unst, int f, bool cmo) const { S y = blank(f); if (p == 1) return each(f, [&](int t) { return x[t]; }); int L = p + unst - (meta() ? 1 : 0), a = f - L;
    auto val = [&](double g, double l) { return zero(g + l) ? 0.0 : cmo ? 100 * (g - l) / (g + l) : 100 * g / (g + l); }; double g = 0, l = 0; auto add = [&](int t, double w) { double d = x[t] - x[t - 1]; if (d < 0) l -= d * w; else g += d * w; };
    if (meta() && unst == 0) { for (int t = a + 1; t < a + p && t < n; t++) add(t, 1.0 / p); if (a + p - 1 < n) y.at(a + p - 1) = val(g, l); g = l = 0; }
    for (int t = a + 1; t <= a + p && t < n; t++) add(t, 1.0 / p); for (int t = a + p; t < n;) { if (t >= f) y.at(t) = val(g, l); if (++t >= n) break; g = g * (p - 1) / p; l = l * (p - 1) / p; add(t, 1.0 / p); } return y; }
  int lb_strength(int p, int unst) const { return p + unst - (meta() ? 1 : 0); }
  S fastk(const S& h, const S& l, const S& c, int p, int f) const { return each(f, [&](int t) { double H = hi(h, t, p), Lo = lo(l, t, p); if (H == Lo) return 0.0; return 100 * (c[t] - Lo) / (H - Lo); }); }
  S sar(const S& h, const S& l, double startv, double off, double il, double al, double xl, double is, double as, double xs, bool sign, int f) const {
    S y = blank(f); bool lng = startv > 0 || (startv == 0 && !(mdm(h, l, f) > 0)); double ep = lng ? h[f] : l[f], sar = startv != 0 ? fabs(startv) : lng ? l[f - 1] : h[f - 1]; il = std::min(il, xl); al = std::min(al, xl); is = std::min(is, xs); as = std::min(as, xs); double af = lng ? il : is;
    for (int t = f; t < n; t++) { double pl = t == f ? l[f] : l[t - 1], ph = t == f ? h[f] : h[t - 1]; bool turn = lng ? l[t] <= sar : h[t] >= sar;
      if (turn) { lng = !lng; sar = lng ? std::min({ep, pl, l[t]}) : std::max({ep, ph, h[t]}); if (off != 0) sar += (lng ? -sar : sar) * off; ep = lng ? h[t] : l[t]; af = lng ? il : is; y.at(t) = sign && !lng ? -sar : sar; }
      else { y.at(t) = sign && !lng ? -sar : sar; if (lng ? h[t] > ep : l[t] < ep) { ep = lng ? h[t] : l[t]; af = std::min(af + (lng ? al : as), lng ? xl : xs); } }
      sar += af * (ep - sar); sar = lng ? std::min({sar, pl, l[t]}) : std::max({sar, ph, h[t]}); }
    return y; }
  void lin(const S& x, int t, int p, double& m, double& b) const { double tb = (p - 1) / 2.0, yb = sum(x, t, p) / p, sxy = 0, sxx = 0; for (int i = 0; i < p; i++) { double d = i - tb; sxy += d * (x[t - p + 1 + i] - yb); sxx += d * d; } m = sxy / sxx; b = yb - m * tb; }
  double var(const S& x, int t, int p) const { double m = sum(x, t, p) / p, a = 0; for (int i = t - p + 1; i <= t; i++) a += (x[i] - m) * (x[i] - m); return a / p; }
  void emit(const S& a) { R.v.push_back(a.v); }
  bool run(const string& fn, bool eval);
};
typedef double (*Math)(double);
const struct { const char* n; Math f; } MATHS[] = {{"ACOS", acos}, {"ASIN", asin}, {"ATAN", atan}, {"CEIL", ceil}, {"COS", cos}, {"COSH", cosh}, {"EXP", exp}, {"FLOOR", floor}, {"LN", log}, {"LOG10", log10}, {"SIN", sin}, {"SINH", sinh}, {"SQRT", sqrt}, {"TAN", tan}, {"TANH", tanh}};
#define AT(X) R.lookback = L = (X); if (!eval) return true; f = std::max(start, L); if (f >= n) { return true; }
bool M::run(const string& fn, bool eval) {
  auto P = [&](size_t i) { return i < o.size() ? (int)o[i] : 0; }; auto E = [&](int b, auto g) { emit(each(b, g)); };
  for (auto& m : MATHS) if (fn == m.n) { AT(0) E(f, [&](int t) { return m.f(in[0][t]); }); return true; }
  if (fn == "ADD" || fn == "SUB" || fn == "MULT" || fn == "DIV") { AT(0) E(f, [&](int t) { double a = in[0][t], b = in[1][t]; return fn == "ADD" ? a + b : fn == "SUB" ? a - b : fn == "MULT" ? a * b : a / b; }); return true; }
  if (fn == "AVGPRICE") { AT(0) E(f, [&](int t) { return (in[0][t] + in[1][t] + in[2][t] + in[3][t]) / 4; }); return true; }
  if (fn == "MEDPRICE") { AT(0) E(f, [&](int t) { return (in[0][t] + in[1][t]) / 2; }); return true; }
  if (fn == "TYPPRICE") { AT(0) E(f, [&](int t) { return (in[0][t] + in[1][t] + in[2][t]) / 3; }); return true; }
  if (fn == "WCLPRICE") { AT(0) E(f, [&](int t) { return (in[0][t] + in[1][t] + 2 * in[2][t]) / 4; }); return true; }
  if (fn == "BOP") { AT(0) E(f, [&](int t) { double r = in[1][t] - in[2][t]; return r < 1e-14 ? 0.0 : (in[3][t] - in[0][t]) / r; }); return true; }
  if (fn == "TRANGE") { AT(1) S h = real(0), l = real(1), c = real(2); E(f, [&](int t) { return tr(h, l, c, t); }); return true; }
  if (fn == "MOM" || fn == "ROC" || fn == "ROCP" || fn == "ROCR" || fn == "ROCR100") { int p = P(0); AT(p) E(f, [&](int t) { double x = in[0][t], y = in[0][t - p]; if (fn == "MOM") return x - y; if (y == 0) return 0.0; return fn == "ROC" ? 100 * (x - y) / y : fn == "ROCP" ? (x - y) / y : fn == "ROCR" ? x / y : 100 * x / y; }); return true; }
  if (fn == "SUM") { AT(P(0) - 1) S x = real(0); E(f, [&](int t) { return sum(x, t, P(0)); }); return true; }
  if (fn == "MAX" || fn == "MIN" || fn == "MINMAX" || fn == "MIDPOINT") { int p = P(0); AT(p - 1) S x = real(0); if (fn == "MIDPOINT") E(f, [&](int t) { return (hi(x, t, p) + lo(x, t, p)) / 2; }); if (fn == "MIN" || fn == "MINMAX") E(f, [&](int t) { return lo(x, t, p); }); if (fn == "MAX" || fn == "MINMAX") E(f, [&](int t) { return hi(x, t, p); }); return true; }
  if (fn == "MIDPRICE") { int p = P(0); AT(p - 1) S h = real(0), l = real(1); E(f, [&](int t) { return (hi(h, t, p) + lo(l, t, p)) / 2; }); return true; }
  if (fn == "WILLR") { int p = P(0); AT(p - 1) S h = real(0), l = real(1), c = real(2); E(f, [&](int t) { double H = hi(h, t, p), Lo = lo(l, t, p); return H == Lo ? 0.0 : -100 * (H - c[t]) / (H - Lo); }); return true; }
  if (fn == "MAXINDEX" || fn == "MININDEX" || fn == "MINMAXINDEX") { int p = P(0); AT(p - 1) S x = real(0); auto at = [&](bool mx) { E(f, [&](int t) { int b = t; bool tie = false; for (int i = t - 1; i > t - p; i--) { if (mx ? x[i] > x[b] : x[i] < x[b]) { b = i; tie = false; } else if (x[i] == x[b]) tie = true; } return tie ? NA : (double)b; }); }; if (fn != "MAXINDEX") at(false); if (fn != "MININDEX") at(true); return true; }
  if (fn == "AROON" || fn == "AROONOSC") { int p = P(0); AT(p) S h = real(0), l = real(1); auto age = [&](const S& x, bool mx) { return each(f, [&](int t) { int b = t; for (int i = t - 1; i >= t - p; i--) if (mx ? x[i] > x[b] : x[i] < x[b]) b = i; /* the most recent one */ return 100.0 * (p - (t - b)) / p; }); };
    S u = age(h, true), d = age(l, false); if (fn == "AROON") { emit(d); emit(u); } else E(f, [&](int t) { return u[t] - d[t]; }); return true; }
  if (fn == "SMA" || fn == "WMA" || fn == "TRIMA" || fn == "EMA" || fn == "DEMA" || fn == "TEMA" || fn == "KAMA" || fn == "WLMA") { static const struct { const char* n; int t; } T[] = {{"SMA", TA_MAType_SMA}, {"WMA", TA_MAType_WMA}, {"TRIMA", TA_MAType_TRIMA}, {"EMA", TA_MAType_EMA}, {"DEMA", TA_MAType_DEMA}, {"TEMA", TA_MAType_TEMA}, {"KAMA", TA_MAType_KAMA}, {"WLMA", TA_MAType_WLMA}}; int ty = 0; for (auto& x : T) if (fn == x.n) ty = x.t; AT(lb_one(P(0), ty)) emit(one(real(0), P(0), ty, f)); return true; }
  if (fn == "MA") { AT(lb_ma(P(0), P(1))) emit(ma(real(0), P(0), P(1), f)); return true; }
  if (fn == "T3") { AT(6 * (P(0) - 1) + un(TA_FUNC_UNST_T3)) emit(t3(real(0), P(0), o[1], f)); return true; }
  if (fn == "MAMA") { AT(32 + un(TA_FUNC_UNST_MAMA)) S a, b; mama(real(0), o[0], o[1], f, a, b); emit(a); emit(b); return true; }
  if (fn == "MAVP") { int lo = P(0), hi = P(1), ty = P(2); AT(lb_ma(std::max(lo, hi), ty)) S x = real(0), y = blank(f); std::map<int, S> m; for (int t = f; t < n; t++) { double w = in[1][t]; int p = (int)w; if (p < lo) p = lo; else if (p > hi) p = hi; auto i = m.find(p); if (i == m.end()) i = m.emplace(p, ma(x, p, ty, f)).first; y.at(t) = i->second[t]; } emit(y); return true; }
  if (fn == "VAR") { AT(P(0) - 1) S x = real(0); E(f, [&](int t) { return var(x, t, P(0)); }); return true; }
  if (fn == "STDDEV") { AT(P(0) - 1) S x = real(0); E(f, [&](int t) { return sqrt(var(x, t, P(0))) * o[1]; }); return true; }
  if (fn == "AVGDEV") { int p = P(0); AT(p - 1) S x = real(0); E(f, [&](int t) { double m = sum(x, t, p) / p, a = 0; for (int i = t - p + 1; i <= t; i++) a += fabs(x[i] - m); return a / p; }); return true; }
  if (fn == "BBANDS") { int p = P(0), ty = P(3); AT(std::max(lb_ma(p, ty), p - 1)) S x = real(0), m = ma(x, p, ty, f); E(f, [&](int t) { return m[t] + o[1] * sqrt(var(x, t, p)); }); emit(m); E(f, [&](int t) { return m[t] - o[2] * sqrt(var(x, t, p)); }); return true; }
  if (fn == "ACCBANDS") { int p = P(0); AT(p - 1) S h = real(0), l = real(1), c = real(2); S u = each(0, [&](int t) { double s = h[t] + l[t]; return zero(s) ? h[t] : h[t] * (1 + 4 * (h[t] - l[t]) / s); }), d = each(0, [&](int t) { double s = h[t] + l[t]; return zero(s) ? l[t] : l[t] * (1 - 4 * (h[t] - l[t]) / s); }); emit(avg(u, p, f)); emit(avg(c, p, f)); emit(avg(d, p, f)); return true; }
  if (fn.compare(0, 9, "LINEARREG") == 0 || fn == "TSF") { int p = P(0); AT(p - 1) S x = real(0); E(f, [&](int t) { double m, b; lin(x, t, p, m, b); return fn == "TSF" ? b + m * p : fn == "LINEARREG" ? b + m * (p - 1) : fn == "LINEARREG_SLOPE" ? m : fn == "LINEARREG_ANGLE" ? atan(m) * 180 / M_PI : b; }); return true; }
  if (fn == "CORREL") { int p = P(0); AT(p - 1) S x = real(0), y = real(1); E(f, [&](int t) { double mx = sum(x, t, p) / p, my = sum(y, t, p) / p, xx = 0, yy = 0, xy = 0; for (int i = t - p + 1; i <= t; i++) { xx += (x[i] - mx) * (x[i] - mx); yy += (y[i] - my) * (y[i] - my); xy += (x[i] - mx) * (y[i] - my); } double big = 0, bg = 0; for (int i = 0; i <= t; i++) { big = std::max(big, x[i] * x[i]); bg = std::max(bg, y[i] * y[i]); } return xx > 0 && yy > 0 && (xx < 1e-5 * big || yy < 1e-5 * bg) ? NA : xx * yy < 1e-14 ? 0.0 : xy / sqrt(xx * yy); }); return true; }
  if (fn == "BETA") { int p = P(0); AT(p) S x = real(0), y = real(1); auto rt = [](const S& s, int t) { return zero(s[t - 1]) ? 0.0 : (s[t] - s[t - 1]) / s[t - 1]; }; E(f, [&](int t) { double mx = 0, my = 0, xx = 0, xy = 0; for (int i = t - p + 1; i <= t; i++) { mx += rt(x, i); my += rt(y, i); } mx /= p; my /= p; for (int i = t - p + 1; i <= t; i++) { double a = rt(x, i) - mx; xx += a * a; xy += a * (rt(y, i) - my); } double top = 0; for (int i = f - L + 1; i <= t; i++) top = std::max({top, rt(x, i) * rt(x, i), fabs(rt(x, i) * rt(y, i))}); return p * p * xx < 1e-14 * p || xx < 1e-6 * top ? NA : xy / xx; }); return true; }
  if (fn == "CCI") { int p = P(0); AT(p - 1) S tp = each(0, [&](int t) { return (in[0][t] + in[1][t] + in[2][t]) / 3; }); E(f, [&](int t) { double m = sum(tp, t, p) / p, a = 0; for (int i = t - p + 1; i <= t; i++) a += fabs(tp[i] - m); double d = tp[t] - m; return zero(d) || zero(a) ? 0.0 : d / (.015 * a / p); }); return true; }
  if (fn == "IMI") { int p = P(0); AT(p - 1 + un(TA_FUNC_UNST_IMI)) E(f, [&](int t) { double u = 0, d = 0; for (int i = t - p + 1; i <= t; i++) { double x = in[1][i] - in[0][i]; if (x > 0) u += x; else d -= x; } return 100 * u / (u + d); }); return true; }
  if (fn == "ULTOSC") { int p[3] = {P(0), P(1), P(2)}; std::sort(p, p + 3); AT(p[2]) S h = real(0), l = real(1), c = real(2); E(f, [&](int t) { double r = 0; for (int k = 0; k < 3; k++) { double a = 0, b = 0; for (int i = t - p[k] + 1; i <= t; i++) { a += c[i] - std::min(l[i], c[i - 1]); b += tr(h, l, c, i); } if (!zero(b)) r += (4 >> k) * a / b; } return 100 * r / 7; }); return true; }
  if (fn == "MFI") { int p = P(0); AT(p + un(TA_FUNC_UNST_MFI)) S tp = each(0, [&](int t) { return (in[0][t] + in[1][t] + in[2][t]) / 3; }); E(f, [&](int t) { double u = 0, d = 0; for (int i = t - p + 1; i <= t; i++) { double w = tp[i] * in[3][i]; if (tp[i] > tp[i - 1]) u += w; else if (tp[i] < tp[i - 1]) d += w; } double top = 0; for (int i = f - L; i <= t; i++) top = std::max(top, fabs(tp[i] * in[3][i])); return u + d > 0 && u + d < 1e-5 * top ? NA : u + d < 1 ? 0.0 : 100 * u / (u + d); }); return true; }
  if (fn == "AD") { AT(0) double a = 0; S y = blank(f); for (int t = f; t < n; t++) { double r = in[0][t] - in[1][t]; if (r > 0) a += (2 * in[2][t] - in[1][t] - in[0][t]) / r * in[3][t]; y.at(t) = a; } emit(y); return true; }
  if (fn == "ADOSC") { int p = P(0), q = P(1); AT(lb_ema(std::max(p, q))) double a = 0, x = 0, z = 0; S y = blank(f); for (int t = f - L; t < n; t++) { double r = in[0][t] - in[1][t]; if (r > 0) a += (2 * in[2][t] - in[1][t] - in[0][t]) / r * in[3][t]; if (t == f - L) x = z = a; else { x += (a - x) * 2 / (p + 1); z += (a - z) * 2 / (q + 1); } if (t >= f) y.at(t) = x - z; } emit(y); return true; }
  if (fn == "OBV") { AT(0) double a = in[1][f]; S y = blank(f); for (int t = f; t < n; t++) { if (t > f) { if (in[0][t] > in[0][t - 1]) a += in[1][t]; else if (in[0][t] < in[0][t - 1]) a -= in[1][t]; } y.at(t) = a; } emit(y); return true; }
  if (fn == "PVT") { AT(1) double a = 0; S y = blank(f); for (int t = f; t < n; t++) { a += in[1][t] * (in[0][t] - in[0][t - 1]) / in[0][t - 1]; y.at(t) = a; } emit(y); return true; }
  if (fn == "NVI" || fn == "PVI") { AT(1) double a = 100; S y = blank(f); for (int t = f; t < n; t++) { if (fn == "NVI" ? in[1][t] < in[1][t - 1] : in[1][t] > in[1][t - 1]) a *= in[0][t] / in[0][t - 1]; y.at(t) = a; } emit(y); return true; }
  if (fn == "ATR" || fn == "NATR") { int p = P(0), u = un(fn == "ATR" ? TA_FUNC_UNST_ATR : TA_FUNC_UNST_NATR); AT(p + u) S h = real(0), l = real(1), c = real(2); if (p <= 1) { E(f, [&](int t) { return tr(h, l, c, t); }); return true; } S a = atr(h, l, c, p, u, f); if (fn == "ATR") emit(a); else E(f, [&](int t) { return zero(c[t]) ? 0.0 : 100 * a[t] / c[t]; }); return true; }
  if (fn == "PLUS_DM" || fn == "MINUS_DM") { bool pl = fn[0] == 'P'; int p = P(0), u = un(pl ? TA_FUNC_UNST_PLUS_DM : TA_FUNC_UNST_MINUS_DM); AT(p <= 1 ? 1 : p - 1 + u) S h = real(0), l = real(1); auto g = [&](int t) { return pl ? pdm(h, l, t) : mdm(h, l, t); }; if (p <= 1) { E(f, g); return true; } int a = f - L; S y = blank(f); double w = 0; for (int t = a + 1; t < a + p && t < n; t++) w += g(t); for (int t = a + p - 1; t < n;) { if (t >= f) y.at(t) = w; if (++t >= n) break; w = w - w / p + g(t); } emit(y); return true; }
  if (fn == "PLUS_DI" || fn == "MINUS_DI") { bool pl = fn[0] == 'P'; int p = P(0), u = un(pl ? TA_FUNC_UNST_PLUS_DI : TA_FUNC_UNST_MINUS_DI); AT(p <= 1 ? 1 : p + u) S h = real(0), l = real(1), c = real(2); auto g = [&](int t) { return pl ? pdm(h, l, t) : mdm(h, l, t); }; if (p <= 1) { E(f, [&](int t) { double r = tr(h, l, c, t), d = g(t); return d > 0 && !zero(r) ? d / r : 0.0; }); return true; }
    S D = wilder(f - L, p, g), T = wilder(f - L, p, [&](int t) { return tr(h, l, c, t); }); E(f, [&](int t) { return zero(T[t]) ? 0.0 : 100 * D[t] / T[t]; }); return true; }
  if (fn == "DX") { int p = P(0); AT(p + un(TA_FUNC_UNST_DX)) S h = real(0), l = real(1), c = real(2), A = wilder(f - L, p, [&](int t) { return pdm(h, l, t); }), B = wilder(f - L, p, [&](int t) { return mdm(h, l, t); }), T = wilder(f - L, p, [&](int t) { return tr(h, l, c, t); }), y = blank(f); double w = 0; for (int t = f; t < n; t++) { bool ok; double d = dx(A, B, T, t, ok); if (ok) w = d; y.at(t) = w; } emit(y); return true; }
  if (fn == "ADX") { int p = P(0); AT(2 * p - 1 + un(TA_FUNC_UNST_ADX)) emit(adx(real(0), real(1), real(2), p, f)); return true; }
  if (fn == "ADXR") { int p = P(0); AT(3 * p - 2 + un(TA_FUNC_UNST_ADX)) S a = adx(real(0), real(1), real(2), p, f - p + 1); E(f, [&](int t) { return (a[t] + a[t - p + 1]) / 2; }); return true; }
  if (fn == "RSI" || fn == "CMO") { int u = un(fn == "RSI" ? TA_FUNC_UNST_RSI : TA_FUNC_UNST_CMO); AT(lb_strength(P(0), u)) emit(strength(real(0), P(0), u, f, fn == "CMO")); return true; }
  if (fn == "APO" || fn == "PPO") { int a = P(0), b = P(1), ty = P(2); if (b < a) std::swap(a, b); AT(lb_ma(b, ty)) S x = real(0), q = ma(x, a, ty, std::max(start, lb_ma(a, ty))), s = ma(x, b, ty, f); E(f, [&](int t) { return fn == "APO" ? q[t] - s[t] : zero(s[t]) ? 0.0 : 100 * (q[t] - s[t]) / s[t]; }); return true; }
  auto macd = [&](const S& q, const S& s, const S& g) { E(f, [&](int t) { return q[t] - s[t]; }); emit(g); E(f, [&](int t) { return q[t] - s[t] - g[t]; }); };
  if (fn == "MACD" || fn == "MACDFIX") { bool fix = fn == "MACDFIX"; int a = fix ? 12 : P(0), b = fix ? 26 : P(1), g = fix ? P(0) : P(2); if (b < a) std::swap(a, b); AT(lb_ema(b) + lb_ema(g)) S x = real(0); int at = f - lb_ema(g); S q = expo(x, fix ? .15 : 2.0 / (a + 1), a, lb_ema(a), at), s = expo(x, fix ? .075 : 2.0 / (b + 1), b, lb_ema(b), at), d = each(at, [&](int t) { return q[t] - s[t]; }); macd(q, s, ema(d, g, f)); return true; }
  if (fn == "MACDEXT") { int a = P(0), ta = P(1), b = P(2), tb = P(3), g = P(4), tg = P(5); if (b < a) { std::swap(a, b); std::swap(ta, tb); } AT(std::max(lb_ma(a, ta), lb_ma(b, tb)) + lb_ma(g, tg)) S x = real(0); int at = f - lb_ma(g, tg); S q = ma(x, a, ta, at), s = ma(x, b, tb, at), d = each(at, [&](int t) { return q[t] - s[t]; }); macd(q, s, ma(d, g, tg, f)); return true; }
  if (fn == "TRIX") { int p = P(0), l = lb_ema(p); AT(3 * l + 1) S a = ema(real(0), p, f - 1 - 2 * l), b = ema(a, p, f - 1 - l), c = ema(b, p, f - 1); E(f, [&](int t) { return c[t - 1] == 0 ? 0.0 : 100 * (c[t] - c[t - 1]) / c[t - 1]; }); return true; }
  if (fn == "STOCHF") { int p = P(0), q = P(1), ty = P(2), l = lb_ma(q, ty); AT(p - 1 + l) S k = fastk(real(0), real(1), real(2), p, f - l), d = ma(k, q, ty, f); emit(k); emit(d); return true; }
  if (fn == "STOCH") { int p = P(0), q = P(1), tq = P(2), w = P(3), tw = P(4), lq = lb_ma(q, tq), lw = lb_ma(w, tw); AT(p - 1 + lq + lw) S k = fastk(real(0), real(1), real(2), p, f - lq - lw), sk = ma(k, q, tq, f - lw), d = ma(sk, w, tw, f); emit(sk); emit(d); return true; }
  if (fn == "STOCHRSI") { int r = P(0), p = P(1), q = P(2), ty = P(3), l = lb_ma(q, ty), u = un(TA_FUNC_UNST_RSI); AT(lb_strength(r, u) + p - 1 + l) S x = strength(real(0), r, u, f - l - p + 1, false); S k = each(f - l, [&](int t) { double H = hi(x, t, p), Lo = lo(x, t, p); if (H == Lo && (H == 0 || H == 100)) return 0.0; return H - Lo < 1e-7 ? NA : 100 * (x[t] - Lo) / (H - Lo); }), d = ma(k, q, ty, f); emit(k); emit(d); return true; }
  if (fn == "SAR") { AT(1) emit(sar(real(0), real(1), 0, 0, o[0], o[0], o[1], o[0], o[0], o[1], false, f)); return true; }
  if (fn == "SAREXT") { AT(1) emit(sar(real(0), real(1), o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7], true, f)); return true; }
  if (fn == "HT_DCPERIOD" || fn == "HT_PHASOR") { bool d = fn == "HT_DCPERIOD"; AT(32 + un(d ? TA_FUNC_UNST_HT_DCPERIOD : TA_FUNC_UNST_HT_PHASOR)) H h = hilbert(real(0), f - L, 9); if (d) E(f, [&](int t) { return h.smooth[t]; }); else { E(f, [&](int t) { return h.i1[t]; }); E(f, [&](int t) { return h.q1[t]; }); } return true; }
  if (fn == "HT_DCPHASE" || fn == "HT_SINE") { bool d = fn == "HT_DCPHASE"; AT(63 + un(d ? TA_FUNC_UNST_HT_DCPHASE : TA_FUNC_UNST_HT_SINE)) V p = dcphase(hilbert(real(0), f - L, 34)); if (d) E(f, [&](int t) { return p[t]; }); else { E(f, [&](int t) { return sin(p[t] * M_PI / 180); }); E(f, [&](int t) { return sin((p[t] + 45) * M_PI / 180); }); } return true; }
  if (fn == "HT_TRENDLINE") { AT(63 + un(TA_FUNC_UNST_HT_TRENDLINE)) S x = real(0); V y = trendline(x, hilbert(x, f - L, 34)); E(f, [&](int t) { return y[t]; }); return true; }
  if (fn == "HT_TRENDMODE") { AT(63 + un(TA_FUNC_UNST_HT_TRENDMODE)) S x = real(0), y = blank(f); H h = hilbert(x, f - L, 34); V p = dcphase(h), tl = trendline(x, h); double ps = 0, pl = 0, pp = 0; int days = 0;
    for (int t = h.h0; t < n; t++) { double s = sin(p[t] * M_PI / 180), l = sin((p[t] + 45) * M_PI / 180); int tr = 1; if ((s > l && ps <= pl) || (s < l && ps >= pl)) { days = 0; tr = 0; } days++; if (days < .5 * h.smooth[t]) tr = 0; double d = p[t] - pp, w = 360 / h.smooth[t]; if (d > .67 * w && d < 1.5 * w) tr = 0; if (tl[t] != 0 && fabs((h.sm[t] - tl[t]) / tl[t]) >= .015) tr = 1; if (t >= f) y.at(t) = tr; ps = s; pl = l; pp = p[t]; } emit(y); return true; }
  return false;
}
}
bool ref_known(const string& fn) { RefSet s{}; vector<const double*> none; M m{s, none, 0, 0, {2, 2, 2, 2, 2, 2, 2, 2}}; return m.run(fn, false); }
int ref_lookback(const string& fn, const vector<double>& opt, const RefSet& s) { vector<const double*> none; M m{s, none, 0, 0, opt}; m.run(fn, false); return m.R.lookback; }
RefOut ref_eval(const string& fn, const vector<double>& opt, const RefSet& s, const vector<const double*>& in, int n, int start) { M m{s, in, n, start, opt}; m.run(fn, true); return m.R; }
