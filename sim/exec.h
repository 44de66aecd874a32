#pragma once
#include "core.h"

// ---------------------------------------------------------------- scenario
struct Op {
  string name; std::map<string, string> kv;
  long geti(const char* k, long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtol(i->second.c_str(), 0, 10); }
  uint64_t getu(const char* k, uint64_t d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtoull(i->second.c_str(), 0, 10); }
  double getd(const char* k, double d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : strtod(i->second.c_str(), 0); }
  string gets(const char* k, const char* d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  bool has(const char* k) const { return kv.count(k); }
  Op& set(const char* k, const string& v) { kv[k] = v; return *this; }
  Op& set(const char* k, long v) { kv[k] = std::to_string(v); return *this; }
  Op& setd(const char* k, double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); kv[k] = b; return *this; }
};
struct Scenario { string prop; vector<Op> ops; string text() const; static Scenario parse(const string&); Op& add(const string& name) { ops.push_back(Op{name, {}}); return ops.back(); } };

// ---------------------------------------------------------------- a function instance behind the abstract interface
struct Inst {
  const Fn* fn = nullptr; vector<double> opt; TA_ParamHolder* h = nullptr;
  vector<vector<double>> ro; vector<vector<int>> io; double rs = 0; int is = 0; int nout = 0;
  int alloc(const Fn* f, const vector<double>& o, bool use_opts = true);
  void inputs(const Feed& fd, int idx);
  void outputs(int n, uint64_t sent);
  double out(int o, int i) const { return fn->out[o]->type == TA_Output_Integer ? (double)io[o][i] : ro[o][i]; }
  bool untouched(int o, int i) const { return fn->out[o]->type == TA_Output_Integer ? io[o][i] == is : biteq(ro[o][i], rs); }
  int call(const Feed& fd, int a, int b, int* ob, int* on, bool single); // batch call, double or single precision
  void* state() const { void* p = (void*)1; if (h) TA_GetParamStatePtr(h, &p); return p; }
};

struct Ref {
  int initrc = -1, lookback = -1, batchrc = -1, bbeg = -1, bnb = -1; int n = 0;
  vector<vector<double>> bout; vector<int> rc; vector<vector<double>> out; vector<vector<char>> unt;
};

struct Meta { const Fn* fn = nullptr; string opts; int feed = 0, at = 0, pos = 0; };
struct Image { bool empty = false; size_t off = 0, len = 0; Meta m; bool complete = false, acked = false; };

struct Settings { // what the application re-applies after a restart
  long unst = 0; long compat = 0; uint64_t cdl = 0; // cdl: seed of candle settings (0 default)
  vector<std::pair<long,long>> unsts;
  void apply() const;
};

struct Exec {
  string prop;
  Settings cfg; uint64_t junk = 1, junk2 = 2;
  std::map<int, Feed> feeds;
  struct Slot { Meta m; Inst in; bool live = false; bool exists = false; };
  std::map<int, Slot> slots;
  std::map<int, SimFile> files; std::map<int, vector<Image>> images;
  std::map<string, std::shared_ptr<Ref>> refs;
  bool chkBatch = false, chkRef = true, chkLeak = false;
  bool in_task = false;
  struct BR { int rc = 0, ob = 0, on = 0; vector<vector<double>> v; };
  std::map<string, BR> memo; // first result of every distinct batch call of the history
  void configure(const Scenario& s);
  void run(const Scenario& s);
  void op(const Op& o);
  void finish();
  Ref& ref(const Meta& m);
  // ops
  void op_stream(const Op&); void op_step(const Op&); void op_bstep(const Op&); void op_save(const Op&); void op_load(const Op&);
  void op_free(const Op&); void op_crash(const Op&); void op_batch(const Op&); void op_null(const Op&); void op_jsave(const Op&); void op_jload(const Op&);
  void op_occload(const Op&);
  bool ill_conditioned(const Meta& m, int o, int e, double g, double w);
  void check_bar(Slot& s, int i, int rc);
  void post(const string& fn, const char* what);
  void drop(Slot& s);
};
string fkey(const Meta& m);
// global-settings / abstract-interface executors (extra.cpp)
void run_globals(const Scenario&); void run_holder(const Scenario&); void run_tables(const Scenario&); void run_gencode(const Scenario&);
// calls.cpp
void run_ranges(const Scenario&); void run_args(const Scenario&); void run_life(const Scenario&); void run_quotes(const Scenario&); void run_pipe(const Scenario&); void run_env(const Scenario&); void run_image(const Scenario&); void run_indicator(const Scenario&);
bool unst_may(const Fn* f, int id); // may unstable period `id` influence f at all?
// generators
Scenario generate(const string& prop, uint64_t seed, int fnhint);
// task scheduler (sched.cpp)
void run_tasks(const Scenario&);
extern string SCHED_REPLAY; // explicit switch list of the last run_tasks
