#include "core.h"
#include <cerrno>
AllocSeam A;
RunLog LOG;
std::map<string, long> STATS;
long SIM_BARS = 0, COMPARED = 0;
vector<Fn> FNS;

void RunLog::add(const char* fmt, ...) {
  char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  for (char* p = b; *p; ++p) { h ^= (unsigned char)*p; h *= 1099511628211ull; }
  h ^= '\n'; h *= 1099511628211ull;
  if (keep) lines.push_back(b);
}
void viol(const string& key, const string& fn, const char* fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  throw Violation{key, fn, b};
}
__attribute__((noinline)) void scrub_stack(uint64_t pat) {
  volatile uint64_t buf[3072];
  for (int i = 0; i < 3072; i++) buf[i] = pat;
}

// ------------------------------------------------------------------ allocator seam
static bool alloc_should_fail() {
  A.op_allocs++; A.total++;
  if (A.fail_at > 0 && (A.op_allocs == A.fail_at || (A.fail_persist && A.op_allocs > A.fail_at))) { A.op_fired++; A.fired++; return true; }
  return false;
}
static void fill(void* p, size_t n, uint64_t pat) {
  uint64_t* q = (uint64_t*)p; size_t k = n / 8;
  for (size_t i = 0; i < k; i++) q[i] = pat;
  memset((char*)p + k * 8, (int)(pat & 0xff), n - k * 8);
}
static const size_t SIM_HEAP_MAX = 1u << 30; // the simulated machine has 1 GB
extern "C" {
void* sim_malloc(size_t n) {
  if (n > A.max_request) A.max_request = n;
  if (n > SIM_HEAP_MAX) { A.op_allocs++; A.total++; return nullptr; }
  if (alloc_should_fail()) return nullptr;
  void* p = malloc(n ? n : 1); if (!p) abort();
  fill(p, n, A.junk);
  A.live[p] = {n, A.serial++}; return p;
}
void* sim_calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { A.op_allocs++; A.max_request = SIZE_MAX; return nullptr; }
  if (n > A.max_request) A.max_request = n;
  if (n > SIM_HEAP_MAX) { A.op_allocs++; A.total++; return nullptr; }
  if (alloc_should_fail()) return nullptr;
  void* p = calloc(1, n ? n : 1); if (!p) abort();
  A.live[p] = {n, A.serial++}; return p;
}
void sim_free(void* p) {
  if (!p) return;
  auto it = A.live.find(p);
  if (it == A.live.end()) { A.invalid_free++; return; }
  fill(p, it->second.n, ~A.junk);
  A.live.erase(it); A.freed++; free(p);
}
void* sim_realloc(void* p, size_t n) {
  if (!p) return sim_malloc(n);
  if (!n) { sim_free(p); return nullptr; }
  auto it = A.live.find(p); if (it == A.live.end()) { A.invalid_free++; return nullptr; }
  size_t old = it->second.n; void* q = sim_malloc(n); if (!q) return nullptr;
  memcpy(q, p, old < n ? old : n); sim_free(p); return q;
}
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
const char* TA_FunctionDescriptionXMLArray[1] = {""};
}
void AllocSeam::free_all() {
  for (auto& k : live) { fill(k.first, k.second.n, 0xDEDEDEDEDEDEDEDEull); free(k.first); }
  live.clear();
}

// ------------------------------------------------------------------ disk seam
static ssize_t sim_write_cb(void* c, const char* buf, size_t n) {
  SimStream* s = (SimStream*)c; s->calls++;
  size_t done = 0;
  while (done < n) {
    size_t chunk = n - done;
    if (s->flt.kind == DiskFault::SHORT_ || s->flt.kind == DiskFault::EINTR_) { // device takes part of it; driver retries
      size_t k = 1 + s->rng.below(chunk); if (k < chunk) { s->fired++; }
      chunk = k;
    }
    if (s->flt.kind == DiskFault::ENOSPC_ || s->flt.kind == DiskFault::EIO_ || s->flt.kind == DiskFault::TRANSIENT_) {
      bool trip = false; size_t room = chunk;
      if (s->tripped && s->flt.kind != DiskFault::TRANSIENT_) { trip = true; room = 0; }
      else if (!s->tripped && s->flt.at >= 0 && s->xfer + (long)chunk > s->flt.at) {
        trip = true; long rm = s->flt.at - s->xfer; room = rm < 0 ? 0 : (size_t)rm;
        if (s->flt.kind == DiskFault::EIO_) room = 0;
      }
      if (trip) {
        s->tripped = true; s->fired++;
        s->f->data.insert(s->f->data.end(), (const uint8_t*)buf + done, (const uint8_t*)buf + done + room);
        s->xfer += room; s->lost += (long)(n - done - room);
        errno = s->flt.kind == DiskFault::EIO_ ? EIO : ENOSPC;
        // a cookie write reports a short count; glibc marks the stream
        return (ssize_t)(done + room);
      }
    }
    s->f->data.insert(s->f->data.end(), (const uint8_t*)buf + done, (const uint8_t*)buf + done + chunk);
    done += chunk; s->xfer += chunk;
  }
  return (ssize_t)done;
}
static ssize_t sim_read_cb(void* c, char* buf, size_t n) {
  SimStream* s = (SimStream*)c; s->calls++;
  size_t end = s->f->data.size(); if (s->limit >= 0 && (size_t)s->limit < end) end = s->limit;
  size_t avail = s->pos < end ? end - s->pos : 0;
  size_t k = n < avail ? n : avail;
  if ((s->flt.kind == DiskFault::SHORT_ || s->flt.kind == DiskFault::EINTR_) && k > 1) { size_t q = 1 + s->rng.below(k); if (q < k) s->fired++; k = q; }
  if (s->flt.kind == DiskFault::EIO_ && s->flt.at >= 0) {
    if (s->tripped || (long)(s->xfer) >= s->flt.at) { s->tripped = true; s->fired++; errno = EIO; return -1; }
    if (s->xfer + (long)k > s->flt.at) k = s->flt.at - s->xfer;
  }
  if (s->flt.kind == DiskFault::TRANSIENT_ && s->flt.at >= 0 && !s->tripped) { // one failing read, then the device works again
    if ((long)s->xfer >= s->flt.at) { s->tripped = true; s->fired++; errno = EIO; return -1; }
    if (s->xfer + (long)k > s->flt.at) k = s->flt.at - s->xfer;
  }
  memcpy(buf, s->f->data.data() + s->pos, k); s->pos += k; s->xfer += k; return (ssize_t)k;
}
static int sim_seek_cb(void* c, off64_t* off, int whence) {
  SimStream* s = (SimStream*)c; if (s->write) { if (whence == SEEK_CUR && *off == 0) { *off = s->f->data.size(); return 0; } return -1; }
  off64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)s->pos : (off64_t)s->f->data.size();
  b += *off; if (b < 0) return -1; s->pos = b; *off = b; return 0;
}
static int sim_close_cb(void* c) { ((SimStream*)c)->closed = true; return 0; }
FILE* sim_open(SimStream* st, int bufsize) {
  cookie_io_functions_t io = {sim_read_cb, sim_write_cb, sim_seek_cb, sim_close_cb};
  st->rng = Rng(st->flt.seed + 77);
  FILE* fp = fopencookie(st, st->write ? "w" : "r", io);
  if (!fp) abort();
  if (bufsize == 0) setvbuf(fp, nullptr, _IONBF, 0);
  else if (bufsize > 0) setvbuf(fp, nullptr, _IOFBF, bufsize);
  return fp;
}

// ------------------------------------------------------------------ feeds
struct Shape { const char* pat; double v[24]; };
static const Shape SHAPES[] = {
#include "shapes.inc"
};
static const int NSHAPES = sizeof(SHAPES) / sizeof(SHAPES[0]);
void Feed::build() {
  Rng r(mix(seed, kind));
  o.resize(n); h.resize(n); l.resize(n); c.resize(n); v.resize(n); oi.resize(n); per.resize(n); sgn.resize(n);
  double p = 100; double drift = 0;
  if (kind == 6) p = 1e7; if (kind == 7) p = 0.02; if (kind == 11) p = 0;
  double q = p; const Shape* sh = nullptr; int shpos = 0, wait = 0; double shbase = 0, shscale = 1; vector<int> own; if (!pat.empty()) for (int i = 0; i < NSHAPES; i++) if (pat == SHAPES[i].pat) own.push_back(i);
  for (int i = 0; i < n; i++) {
    double O, H, L, C, V = floor(r.unit() * 5000) + 1, u = r.unit();
    double vol = p * 0.02;
    switch (kind) {
    case 0: case 6: case 7: default: O = p + (r.unit() - .5) * vol; C = O + (r.unit() - .5) * vol * 3; H = std::max(O, C) + r.unit() * vol; L = std::min(O, C) - r.unit() * vol; break;
    case 1: // coarse ticks: many equal prices
      O = p + r.range(-2, 2) * .5; C = O + r.range(-4, 4) * .5; H = std::max(O, C) + r.range(0, 3) * .5; L = std::min(O, C) - r.range(0, 3) * .5; break;
    case 2: // half of the bars are flat
      if (u < .5) { O = H = L = C = p; if (r.chance(.3)) V = 0; } else { O = p + (r.unit() - .5) * vol; C = O + (r.unit() - .5) * vol * 3; H = std::max(O, C) + r.unit() * vol; L = std::min(O, C) - r.unit() * vol; } break;
    case 3: O = H = L = C = p; break; // constant
    case 4: drift = .4; O = p + drift; C = O + r.unit(); H = C + r.unit() * .5; L = O - r.unit() * .5; break; // trend up
    case 5: drift = -.15; O = p + drift; C = O - r.unit() * .4; H = O + r.unit() * .5; L = C - r.unit() * .5; break; // trend down
    case 8: { // candle alphabet: tiny/long bodies, with/without shadows, gaps
      static const double body[] = {0, .05, .3, 1, 2, 5}; static const double shd[] = {0, 0, .03, .5, 3};
      double gap = r.chance(.4) ? (r.range(-3, 3)) * .8 : 0; O = p + gap; double b = body[r.below(6)]; C = O + (r.chance(.5) ? b : -b);
      H = std::max(O, C) + shd[r.below(5)]; L = std::min(O, C) - shd[r.below(5)]; break; }
    case 10: { // planted candlestick shapes between ordinary bars
      if (!sh && wait-- <= 0) { sh = &SHAPES[!own.empty() && r.chance(.6) ? own[r.below(own.size())] : (int)r.below(NSHAPES)]; shpos = r.chance(.15) ? (int)r.below(6) : 0; shscale = r.chance(.6) ? 1 : .5 + r.unit() * 2; shbase = p + (r.chance(.5) ? 0 : r.range(-4, 4) * .25); wait = (int)r.range(0, 12); }
      if (sh) { const double* w = sh->v + 4 * shpos; double j = r.chance(.15) ? (r.unit() - .5) * .2 : 0; O = shbase + shscale * w[0]; H = shbase + shscale * w[1]; L = shbase + shscale * w[2]; C = shbase + shscale * w[3]; if (r.chance(.5)) O += j; else C += j; H = std::max({H, O, C}); L = std::min({L, O, C}); if (++shpos == 6) sh = nullptr; }
      else { O = p + r.range(-4, 4) * .25; C = O + r.range(-4, 4) * .5; H = std::max(O, C) + r.range(0, 3) * .25; L = std::min(O, C) - r.range(0, 3) * .25; }
      break; }
    case 9: // regime switching with spikes
      if (i % 40 == 0) drift = (r.unit() - .5) * 2; O = p + drift; C = O + (r.unit() - .5) * (r.chance(.05) ? 20 : 1); H = std::max(O, C) + r.unit(); L = std::min(O, C) - r.unit(); break;
    case 11: // a spread or an oscillator: prices around zero, exact zeros among them
      if (r.chance(.5)) { O = p + r.range(-2, 2) * .5; C = O + r.range(-3, 3) * .5; H = std::max(O, C) + r.range(0, 2) * .5; L = std::min(O, C) - r.range(0, 2) * .5; }
      else { O = p + r.unit() - .5; C = O + r.unit() - .5; H = std::max(O, C) + r.unit() * .4; L = std::min(O, C) - r.unit() * .4; }
      break;
    case 12: // ordinary prices, erratic volume
      O = p + (r.unit() - .5) * vol; C = r.chance(.2) ? O : O + (r.unit() - .5) * vol * 3; H = std::max(O, C) + (r.chance(.2) ? 0 : r.unit() * vol); L = std::min(O, C) - (r.chance(.2) ? 0 : r.unit() * vol);
      if (i % 16 == 0) drift = r.below(3); if (drift == 0) V = 0; else if (drift == 1 && r.chance(.3)) V *= 1e5; break;
    }
    if (kind == 11) { if (r.chance(.1)) { double s = C; O -= s; H -= s; L -= s; C = 0; } }
    else if (L <= 0) { double s = .01 - L; if (kind == 7) s = 1e-4 - L; O += s; H += s; L += s; C += s; }
    if (q2) { double g = kind == 7 ? 1048576 : 64; O = ceil(O * g) / g; C = ceil(C * g) / g; H = std::max({ceil(H * g) / g, O, C}); L = std::min({ceil(L * g) / g, O, C}); } // sums of these are exact in double
    double keepC = C;
    if (kind == 13 && r.chance(.04)) { // a broken quote
      static const double W[] = {NAN, NAN, NAN, INFINITY, -INFINITY, 1e300, -1e300, 0, -1, 5e-324}; double w = W[r.below(10)]; int m = (int)r.range(1, 31);
      if (m & 1) O = w; if (m & 2) H = w; if (m & 4) L = w; if (m & 8) C = w; if (m & 16) V = w;
    }
    o[i] = O; h[i] = H; l[i] = L; c[i] = C; v[i] = V; oi[i] = floor(r.unit() * 300); C = keepC;
    per[i] = 1 + floor(r.unit() * 35); if (kind == 13 && r.chance(.03)) per[i] = r.chance(.5) ? NAN : r.chance(.5) ? 1e300 : -INFINITY; sgn[i] = (r.unit() * 2 - 1);
    p = C; if (kind == 6 ? (p < 1e6 || p > 1e8) : kind == 7 ? (p < .002 || p > .5) : kind == 11 ? fabs(p) > 8 : (p < 10 || p > 1000)) p = q;
  }
}

// ------------------------------------------------------------------ functions
static void each_cb(const TA_FuncInfo* f, void*) {
  Fn x; x.fi = f; x.name = f->name;
  for (unsigned i = 0; i < f->nbInput; i++) { const TA_InputParameterInfo* p; if (TA_GetInputParameterInfo(f->handle, i, &p)) abort(); x.in.push_back(p); }
  for (unsigned i = 0; i < f->nbOptInput; i++) { const TA_OptInputParameterInfo* p; if (TA_GetOptInputParameterInfo(f->handle, i, &p)) abort(); x.opt.push_back(p); }
  for (unsigned i = 0; i < f->nbOutput; i++) { const TA_OutputParameterInfo* p; if (TA_GetOutputParameterInfo(f->handle, i, &p)) abort(); x.out.push_back(p); }
  x.idx = (int)FNS.size(); FNS.push_back(x);
}
void load_functions() { if (FNS.empty()) TA_ForEachFunc(each_cb, nullptr); std::sort(FNS.begin(), FNS.end(), [](const Fn& a, const Fn& b) { return a.name < b.name; }); for (size_t i = 0; i < FNS.size(); i++) FNS[i].idx = (int)i; }
const Fn* fn_by_name(const string& s) { for (auto& f : FNS) if (f.name == s) return &f; return nullptr; }
string random_opts(Rng& r, const Fn& f) {
  string s; char t[64]; double prev = 0; int mode = (int)r.below(8); // 0: defaults
  for (size_t i = 0; i < f.opt.size(); i++) {
    auto* oi = f.opt[i]; double v = oi->defaultValue;
    switch (oi->type) {
    case TA_OptInput_IntegerRange: { auto* g = (const TA_IntegerRange*)oi->dataSet;
      if (mode) { long cap = mode <= 2 ? 8 : mode <= 5 ? 30 : mode == 6 ? 75 : 200; long lo = g->min, hi = std::min<long>(g->max, std::max<long>(cap, lo)); v = r.range(lo, hi); if (r.chance(.08)) v = lo; } } break;
    case TA_OptInput_IntegerList: { auto* g = (const TA_IntegerList*)oi->dataSet; if (mode) v = g->data[r.below(g->nbElement)].value; } break;
    case TA_OptInput_RealRange: { auto* g = (const TA_RealRange*)oi->dataSet; if (mode) { double lo = std::max<double>(g->min, -3), hi = std::min<double>(g->max, 4); if (hi < lo) hi = lo; v = lo + (hi - lo) * (double)r.range(0, 64) / 64; if (r.chance(.25)) { static const double S[] = {0, 1, 1, -1, 2, .5}; double t = S[r.below(6)]; if (t >= lo && t <= hi) v = t; } } } break;
    case TA_OptInput_RealList: break;
    }
    if (mode && i && f.opt[i - 1]->type == oi->type && r.chance(.12)) { double lo = v, hi = v; if (oi->type == TA_OptInput_IntegerRange) { lo = ((const TA_IntegerRange*)oi->dataSet)->min; hi = ((const TA_IntegerRange*)oi->dataSet)->max; } else if (oi->type == TA_OptInput_RealRange) { lo = ((const TA_RealRange*)oi->dataSet)->min; hi = ((const TA_RealRange*)oi->dataSet)->max; } if (prev >= lo && prev <= hi) v = prev; } // equal parameters take paths of their own
    prev = v;
    if (r.chance(.04)) v = oi->type == TA_OptInput_RealRange || oi->type == TA_OptInput_RealList ? TA_REAL_DEFAULT : TA_INTEGER_DEFAULT; // "use the default"
    snprintf(t, sizeof t, "%s%.17g", i ? "," : "", v); s += t;
  }
  return s.empty() ? "-" : s;
}
vector<double> parse_opts(const string& s) { vector<double> v; if (s == "-" || s.empty()) return v; const char* p = s.c_str(); char* e; for (;;) { v.push_back(strtod(p, &e)); if (*e != ',') break; p = e + 1; } return v; }
