// Task scheduler: independent callers of the library as coroutines. Every load, store and basic-block edge of
// the library is a possible preemption point (sanitizer-coverage callbacks of the "cov" build); one PRNG, or an
// explicit switch list, decides who runs. Harness code is not instrumented and therefore never preempted.
#include "exec.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
string SCHED_REPLAY;
extern "C" { extern char __data_start, _end; }
namespace {
const size_t STK = 1 << 19;
// A task stands for a thread: the program's thread-local block (the library's thread-locals, if it has any, live
// there) is private to each task and starts from the program's initial image.
struct Tls { char* base = nullptr; const char* img = nullptr; size_t file = 0, size = 0; } TLSB;
int find_tls(dl_phdr_info* i, size_t, void*) { // the first object reported is the program itself
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { TLSB.base = (char*)i->dlpi_tls_data; TLSB.img = (const char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); TLSB.file = i->dlpi_phdr[k].p_filesz; TLSB.size = i->dlpi_phdr[k].p_memsz; }
  return 1; }
struct Task { ucontext_t ctx; char* stk = nullptr; vector<char> tls; vector<Op> ops; bool done = false, failed = false, skip = false; Violation v; };
struct Sched {
  bool active = false; int cur = -1; uint64_t steps = 0, next_at = 0; vector<Task> tasks; ucontext_t main; Rng rng{1}; long rate = 100; int bias = 0;
  bool fixed = false; vector<std::pair<uint64_t, int>> list; size_t li = 0; string rec; long nsw = 0; Exec* ex = nullptr; std::function<void(const Op&)> fn;
} S;
vector<char*> STACKS; vector<char> MAIN_TLS; int ATOMIC = 0; char* CUR_STK = nullptr;
void tls_out(vector<char>& v) { if (TLSB.base) v.assign(TLSB.base, TLSB.base + TLSB.size); }
void tls_in(const vector<char>& v) { if (TLSB.base) memcpy(TLSB.base, v.data(), v.size()); }
void to(int t) { int me = S.cur; S.cur = t; tls_out(me < 0 ? MAIN_TLS : S.tasks[me].tls); tls_in(S.tasks[t].tls); CUR_STK = S.tasks[t].stk; if (me < 0) swapcontext(&S.main, &S.tasks[t].ctx); else swapcontext(&S.tasks[me].ctx, &S.tasks[t].ctx); }
int other() { int n = 0; for (size_t i = 0; i < S.tasks.size(); i++) if (!S.tasks[i].done && (int)i != S.cur) n++; if (!n) return -1; int k = (int)S.rng.below(n); for (size_t i = 0; i < S.tasks.size(); i++) if (!S.tasks[i].done && (int)i != S.cur && k-- == 0) return (int)i; return -1; }
void switch_to(int t) { S.nsw++; if (S.rec.size() < (1u << 22)) { if (!S.rec.empty()) S.rec += ','; S.rec += std::to_string(S.steps) + ":" + std::to_string(t); } to(t); }
inline void point(const void* a) {
  if (!S.active || ATOMIC || (size_t)((const char*)a - CUR_STK) < STK) return; // a task's own stack is private to it
  S.steps++;
  if (S.fixed) {
    while (S.li < S.list.size() && S.list[S.li].first < S.steps) S.li++;
    if (S.li < S.list.size() && S.list[S.li].first == S.steps) { int t = S.list[S.li++].second; if (t >= 0 && t < (int)S.tasks.size() && t != S.cur && !S.tasks[t].done) switch_to(t); }
    return;
  }
  bool shared = S.bias && a >= (void*)&__data_start && a < (void*)&_end; // static data of the library: hidden shared state, if any
  if (S.steps >= S.next_at || (shared && S.rng.below(S.bias) == 0)) {
    S.next_at = S.steps + 1 + S.rng.below(2 * S.rate);
    int t = other(); if (t >= 0) switch_to(t);
  }
}
void entry(unsigned t) {
  Task& T = S.tasks[t];
  try { for (auto& o : T.ops) { S.fn(o); } } catch (Violation& v) { T.failed = true; T.v = v; } catch (Skip&) { T.skip = true; }
  T.done = true;
  for (size_t k = 1; k <= S.tasks.size(); k++) { int n = (int)((t + k) % S.tasks.size()); if (!S.tasks[n].done) { S.cur = n; tls_in(S.tasks[n].tls); CUR_STK = S.tasks[n].stk; setcontext(&S.tasks[n].ctx); } }
  S.cur = -1; S.active = false; tls_in(MAIN_TLS); setcontext(&S.main);
}
struct Exp { int rc, ob, on, lb; vector<vector<double>> v; };
}
extern "C" {
#define PT(n) void __sanitizer_cov_load##n(void* a) { point(a); } void __sanitizer_cov_store##n(void* a) { point(a); }
PT(1) PT(2) PT(4) PT(8) PT(16)
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { (void)g; point(nullptr); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
// a library that takes a lock gives the other tasks their turn while it waits for it
int sim_mutex_lock(pthread_mutex_t* m) { int r; while ((r = pthread_mutex_trylock(m)) == EBUSY && S.active) { int t = -1; for (size_t k = 1; k < S.tasks.size() && t < 0; k++) { int n = (int)((S.cur + k) % S.tasks.size()); if (!S.tasks[n].done) t = n; } if (t < 0) break; to(t); } return r == EBUSY ? pthread_mutex_lock(m) : r; }
int sim_once(pthread_once_t* o, void (*f)()) { ATOMIC++; int r = pthread_once(o, f); ATOMIC--; return r; }
}
void run_tasks(const Scenario& sc) {
  SCHED_REPLAY.clear();
  Exec ex; ex.configure(sc); A.reset(ex.junk * 0x0101010101010101ull); ex.cfg.apply(); ex.chkBatch = false; ex.chkRef = true; ex.chkLeak = false;
  S.active = false; S.cur = -1; S.steps = 0; S.next_at = 0; S.rec.clear(); S.nsw = 0; S.list.clear(); S.li = 0; S.fixed = false; S.bias = 0; S.rate = 100; S.tasks.clear();
  int nt = 0; for (auto& o : sc.ops) if (o.has("t")) nt = std::max(nt, (int)std::min<long>(o.geti("t"), 7) + 1);
  S.tasks.resize(nt);
  // expectations: every caller alone, no preemption
  std::map<string, Exp> exp;
  auto ckey = [](const Op& o) { return o.gets("fn") + "|" + o.gets("o", "-") + "|" + o.gets("feed", "0") + "|" + o.gets("a", "0") + "|" + o.gets("b", "-1") + "|" + o.gets("single", "0"); };
  auto call = [&](const Op& o, Inst& q, Exp& e) -> bool {
    const Fn* f = fn_by_name(o.gets("fn")); int fi = (int)o.geti("feed"); if (!f || !ex.feeds.count(fi)) return false; const Feed& fd = ex.feeds[fi];
    int a = (int)o.geti("a"), b = (int)o.geti("b", fd.n - 1); if (a < 0) a = 0; if (b >= fd.n) b = fd.n - 1; if (a > b) a = b;
    if (q.alloc(f, parse_opts(o.gets("o", "-")))) return false;
    q.inputs(fd, 0); q.outputs(b - a + 1, 5); e.ob = e.on = e.lb = -99; TA_GetLookback(q.h, &e.lb); e.rc = q.call(fd, a, b, &e.ob, &e.on, o.geti("single"));
    TA_ParamHolderFree(q.h); q.h = nullptr; return true; };
  for (auto& o : sc.ops) {
    if (o.name == "stream") { const Fn* f = fn_by_name(o.gets("fn")); if (!f || !ex.feeds.count((int)o.geti("feed")) || o.geti("at") >= ex.feeds[(int)o.geti("feed")].n) continue; Meta m{f, o.gets("o", "-"), (int)o.geti("feed"), (int)o.geti("at"), 0}; ex.ref(m); }
    else if (o.name == "call" && !exp.count(ckey(o))) { Inst q; Exp e; if (!call(o, q, e)) continue; e.v.resize(q.fn->out.size()); if (e.rc == 0) for (size_t k = 0; k < e.v.size(); k++) for (int i = 0; i < e.on && i < q.nout; i++) e.v[k].push_back(q.out((int)k, i)); exp[ckey(o)] = e; }
    else if (o.name == "sched") { S.rng = Rng(o.getu("seed", 1)); S.rate = std::max(1l, o.geti("rate", 100)); S.bias = (int)o.geti("bias");
      if (o.has("sw")) { S.fixed = true; string l = o.gets("sw"); const char* p = l.c_str(); while (*p) { char* e; uint64_t st = strtoull(p, &e, 10); if (*e != ':') break; int t = (int)strtol(e + 1, &e, 10); S.list.push_back({st, t}); p = *e == ',' ? e + 1 : e; if (*e != ',') break; } } }
  }
  for (auto& o : sc.ops) if (o.has("t")) { long t = std::min<long>(std::max(0l, o.geti("t")), 7); S.tasks[t].ops.push_back(o); }
  ex.in_task = true;
  S.fn = [&](const Op& o) {
    if (o.name != "call") { ex.op(o); return; }
    auto it = exp.find(ckey(o)); if (it == exp.end()) return; const Exp& w = it->second; Inst q; Exp e; if (!call(o, q, e)) return;
    const char* fn = q.fn->name.c_str(); string os = o.gets("o", "-"); SIM_BARS += q.nout; COMPARED++;
    LOG.add("call %d %d %d %d", e.rc, e.ob, e.on, e.lb);
    if (e.lb != w.lb) viol("interleaved-lookback", fn, "%s(%s) Lookback is %d among interleaved callers, %d alone", fn, os.c_str(), e.lb, w.lb);
    if (e.rc != w.rc) viol("interleaved-rc", fn, "%s(%s) returned %d among interleaved callers, %d alone", fn, os.c_str(), e.rc, w.rc);
    if (e.rc == 0 && (e.ob != w.ob || e.on != w.on)) viol("interleaved-frame", fn, "%s(%s) outBegIdx/outNBElement %d/%d among interleaved callers, %d/%d alone", fn, os.c_str(), e.ob, e.on, w.ob, w.on);
    if (e.rc == 0) for (size_t k = 0; k < w.v.size(); k++) for (int i = 0; i < e.on && i < q.nout; i++) { LOG.addv(q.out((int)k, i)); if (!biteq(q.out((int)k, i), w.v[k][i])) viol("interleaved-value", fn, "%s(%s) output %zu element %d is %.17g among interleaved callers, %.17g alone", fn, os.c_str(), k, i, q.out((int)k, i), w.v[k][i]); }
  };
  if (nt) {
#if !__has_feature(address_sanitizer)
    if (!TLSB.size) dl_iterate_phdr(find_tls, nullptr);
#endif
    while ((int)STACKS.size() < nt) { char* p = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); STACKS.push_back(p); }
    for (int i = 0; i < nt; i++) { Task& T = S.tasks[i]; T.tls.assign(TLSB.size, 0); if (TLSB.file) memcpy(T.tls.data(), TLSB.img, TLSB.file); T.stk = STACKS[i]; memset(T.stk + STK - 65536, (int)ex.junk, 65536); getcontext(&T.ctx); T.ctx.uc_stack.ss_sp = T.stk; T.ctx.uc_stack.ss_size = STK; T.ctx.uc_link = &S.main; makecontext(&T.ctx, (void (*)())entry, 1, (unsigned)i); }
    S.active = true; S.next_at = 1 + S.rng.below(2 * S.rate); to(0); S.active = false;
    STATS["sched.switches"] += S.nsw; STATS["sched.preemption_points"] += (long)S.steps; SCHED_REPLAY = S.rec; LOG.add("switches %ld steps %llu", S.nsw, (unsigned long long)S.steps);
  }
  ex.in_task = false;
  for (auto& T : S.tasks) if (T.failed) { A.begin_op(); throw T.v; }
  for (auto& k : ex.slots) ex.drop(k.second);
}
