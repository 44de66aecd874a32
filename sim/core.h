// Core of the ta-lib-rt simulator: PRNG, seams (allocator, disk), feeds, function table.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <functional>
#include <climits>
extern "C" {
#include "ta_libc.h"
}
using std::string;
using std::vector;

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long lo, long hi) { return lo >= hi ? lo : lo + (long)below((uint64_t)(hi - lo + 1)); }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return unit() < p; }
};
static inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x51ull)); return r.next(); }
static inline uint64_t hashstr(const string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

// ---------------------------------------------------------------- allocator seam
struct AllocSeam {
  // per-operation
  long op_allocs = 0;      // allocations attempted by the library in the current operation
  long fail_at = 0;        // 1-based index of the allocation to fail (0: none)
  bool fail_persist = false; // every later allocation of the operation fails too
  long op_fired = 0;       // injected failures in the current operation
  // per-run
  long fired = 0, total = 0, invalid_free = 0, freed = 0;
  uint64_t junk = 0x5eed;  // contents of fresh / freed memory
  uint64_t serial = 0;
  size_t max_request = 0; // largest single request of the run
  struct Blk { size_t n; uint64_t id; };
  std::unordered_map<void*, Blk> live;
  std::unordered_set<void*> quarantine_seen;
  void begin_op(long fa = 0, bool persist = false) { op_allocs = 0; fail_at = fa; fail_persist = persist; op_fired = 0; }
  void reset(uint64_t j) { begin_op(); fired = total = invalid_free = freed = 0; junk = j; serial = 0; max_request = 0; }
  void free_all(); // drop everything still live (crash / end of run)
};
extern AllocSeam A;

// ---------------------------------------------------------------- disk seam
// One simulated file: the page cache content and how much of it is durable.
struct SimFile { vector<uint8_t> data; size_t durable = 0; };
struct DiskFault {
  enum Kind { NONE, ENOSPC_, EIO_, TRANSIENT_, EINTR_, SHORT_ } kind = NONE;
  long at = -1;      // byte offset (within this open) at which the fault fires
  uint64_t seed = 0; // for SHORT_/EINTR_: how transfers are cut up
};
struct SimStream { // an open FILE* on a SimFile
  SimFile* f = nullptr; size_t pos = 0; bool write = false; DiskFault flt; long xfer = 0; Rng rng{1};
  long fired = 0; long lost = 0; bool closed = false; long calls = 0; long limit = -1; // limit: reads see EOF here
  bool tripped = false;
};
FILE* sim_open(SimStream* st, int bufsize); // bufsize: 0 unbuffered, <0 default full, >0 that many bytes

// ---------------------------------------------------------------- market feed
struct Feed {
  int kind = 0; uint64_t seed = 1; int n = 0; bool q2 = false; string pat; // pat: pattern whose shapes are planted more often (kind 10)
  vector<double> o, h, l, c, v, oi, per, sgn;
  void build();
};
enum { FEED_KINDS = 14 };

// ---------------------------------------------------------------- functions
struct Fn {
  const TA_FuncInfo* fi; string name; int idx;
  vector<const TA_InputParameterInfo*> in; vector<const TA_OptInputParameterInfo*> opt; vector<const TA_OutputParameterInfo*> out;
};
extern vector<Fn> FNS;
void load_functions();
const Fn* fn_by_name(const string&);
string random_opts(Rng& r, const Fn& f); // "14,9,0.7" textual
vector<double> parse_opts(const string& s);

// ---------------------------------------------------------------- violations
struct Violation { string key, fn, detail; };
[[noreturn]] void viol(const string& key, const string& fn, const char* fmt, ...);
struct Skip { string why; };

// stats / log
struct RunLog {
  uint64_t h = 1469598103934665603ull; bool keep = false; vector<string> lines;
  void add(const char* fmt, ...);
  void addv(double d) { uint64_t u; if (d != d) u = 0x7ff8dead; else memcpy(&u, &d, 8); h ^= u; h *= 1099511628211ull; }
  void addi(uint64_t u) { h ^= u; h *= 1099511628211ull; }
};
extern RunLog LOG;
extern std::map<string, long> STATS; // counters (fault kinds fired, probes)
extern long SIM_BARS, COMPARED; // bars delivered / delivered values compared with an oracle
static inline bool biteq(double a, double b) { if (a != a && b != b) return true; return memcmp(&a, &b, 8) == 0; }
void scrub_stack(uint64_t pat);
