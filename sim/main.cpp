#include "exec.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <time.h>
#include <signal.h>
#include <sys/time.h>
extern "C" { extern __attribute__((weak)) unsigned char __start___sancov_cntrs[], __stop___sancov_cntrs[]; }
static unsigned char *cov_b, *cov_e;
static string slurp(const char* p) { FILE* f = fopen(p, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", p); exit(2); } string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
static string esc(const string& s) { string o; char b[8]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c == '\n') o += "\\n"; else if (c < 32) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// A run that burns 20 s of CPU time does not terminate for practical purposes.
static void on_hang(int) { static const char m[] = "\nSIMHANG\n"; if (write(2, m, sizeof m - 1) < 0) {} _exit(97); }
static void arm() { struct itimerval t = {{0, 0}, {20, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
// Which counters show that a run exercised the property's own stimulus.
static long stimulus(const string& p) {
  static const std::map<string, vector<string>> M = {{"C28", {"fault.gen_"}}, {"C29", {"gen.edits", "gen.damage", "fault.gen_"}}, {"C27", {"probe.valued", "probe.followed", "fault.crash"}}, {"C26", {"image.compared", "image.restored"}}, {"C25", {"fault.setting"}}, {"C02", {"probe.restored"}}, {"C03", {"op.save"}}, {"C04", {"fault.write"}}, {"C05", {"probe.load_refused"}}, {"C06", {"probe.restored"}},
    {"C07", {"probe.occupied_load", "probe.empty_slot_ops"}}, {"C09", {"fault.alloc"}}, {"C10", {"fault.alloc"}}, {"C11", {"sched.switches"}}, {"C13", {"sched.switches"}}, {"C14", {"globals.ops"}}, {"C15", {"holder.ops"}}, {"C16", {"fault.alloc"}}, {"C22", {"args.bad"}}, {"C23", {"age.jump"}}, {"C24", {"quote.fed"}}, {"C20", {"pipe.shared"}}, {"C19", {"single.calls"}}};
  auto it = M.find(p); if (it == M.end()) return COMPARED; long s = 0;
  for (auto& pre : it->second) for (auto k = STATS.lower_bound(pre); k != STATS.end() && k->first.compare(0, pre.size(), pre) == 0; ++k) s += k->second;
  return s;
}
// One run. Returns 0 held, 1 violation, 2 skipped.
// Known findings: lines "ID PROP KEY FN COND[;COND]", COND one of oI!=oJ, oI=V|V.., compat=N, - (always)
struct Known { string id, prop, key, fn, cond; };
static vector<Known> KNOWN;
static void load_known(const string& path) {
  if (path.empty()) return; string t = slurp(path.c_str()); size_t i = 0;
  while (i < t.size()) { size_t e = t.find('\n', i); if (e == string::npos) e = t.size(); char a[5][256]; if (sscanf(t.substr(i, e - i).c_str(), "%255s %255s %255s %255s %255s", a[0], a[1], a[2], a[3], a[4]) == 5) KNOWN.push_back({a[0], a[1], a[2], a[3], a[4]}); i = e + 1; }
}
static string known_match(const Scenario& sc, const Violation& v) {
  long compat = 0; for (auto& o : sc.ops) if (o.name == "cfg") compat = o.geti("compat");
  vector<double> op; size_t p = v.detail.find(v.fn + "("); if (p != string::npos) { size_t q = v.detail.find(')', p); op = parse_opts(v.detail.substr(p + v.fn.size() + 1, q - p - v.fn.size() - 1)); if (const Fn* f = fn_by_name(v.fn)) for (size_t i = 0; i < op.size() && i < f->opt.size(); i++) if (op[i] == TA_INTEGER_DEFAULT || op[i] == TA_REAL_DEFAULT) op[i] = f->opt[i]->defaultValue; }
  for (auto& k : KNOWN) {
    if (k.prop != sc.prop || k.key != v.key || (k.fn != "*" && k.fn != v.fn)) continue; bool ok = true; string c = k.cond; size_t b = 0;
    while (b < c.size() && c != "-") { size_t e = c.find(';', b); if (e == string::npos) e = c.size(); string t = c.substr(b, e - b); b = e + 1;
      bool any = false; size_t s = 0; // alternatives within one condition: a,b
      while (s < t.size()) { size_t f = t.find(',', s); if (f == string::npos) f = t.size(); string u = t.substr(s, f - s); s = f + 1; int i, j; 
        if (sscanf(u.c_str(), "compat=%d", &i) == 1) any |= compat == i;
        else if (sscanf(u.c_str(), "o%d!=o%d", &i, &j) == 2) any |= i < (int)op.size() && j < (int)op.size() && op[i] != op[j];
        else if (sscanf(u.c_str(), "o%d=%d", &i, &j) == 2) any |= i < (int)op.size() && op[i] == j; }
      ok &= any; }
    if (ok) return k.id; }
  return "";
}
struct Result { int code = 0; string known; Violation v; uint64_t hash = 0; };
static Result run_one(const Scenario& sc) {
  Result R; LOG.h = 1469598103934665603ull; LOG.lines.clear(); arm();
  try {
    if (sc.prop == "C11" || sc.prop == "C13") run_tasks(sc);
    else if (sc.prop == "C14") run_globals(sc);
    else if (sc.prop == "C15") run_holder(sc);
    else if (sc.prop == "C16") run_tables(sc);
    else if (sc.prop == "C18") run_ranges(sc);
    else if (sc.prop == "C22") run_args(sc);
    else if (sc.prop == "C23") run_life(sc);
    else if (sc.prop == "C24") run_quotes(sc);
    else if (sc.prop == "C25") run_env(sc);
    else if (sc.prop == "C26") run_image(sc);
    else if (sc.prop == "C27") run_indicator(sc);
    else if (sc.prop == "C28" || sc.prop == "C29") run_gencode(sc);
    else if (sc.prop == "C20" || sc.prop == "C19") run_pipe(sc);
    else { Exec e; e.run(sc); }
  } catch (Violation& v) { R.code = 1; R.v = v; R.known = known_match(sc, v); LOG.add("VIOLATION %s %s", v.key.c_str(), v.fn.c_str()); }
  catch (Skip& s) { R.code = 2; LOG.add("skip %s", s.why.c_str()); }
  A.begin_op(); A.free_all(); A.invalid_free = 0; R.hash = LOG.h;
  return R;
}
// change-directed search: the functions named by --focus (repeats are weights) lead three quarters of the runs
static std::vector<int> focus_of(const string& a) { std::vector<int> r; size_t b = 0; while (b < a.size()) { size_t e = a.find(',', b); if (e == string::npos) e = a.size(); if (const Fn* f = fn_by_name(a.substr(b, e - b))) r.push_back(f->idx); b = e + 1; } return r; }
static int hint_of(const std::vector<int>& focus, uint64_t seed, uint64_t idx) {
  if (!focus.empty()) { uint64_t h = mix(mix(seed, 0xf0c5), idx); if (h & 3) return focus[(h >> 8) % focus.size()]; }
  return (int)(idx % FNS.size()); }
int main(int argc, char** argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0); signal(SIGVTALRM, on_hang);
  cov_b = __start___sancov_cntrs; cov_e = __stop___sancov_cntrs; if (!cov_b || !cov_e) cov_b = cov_e = nullptr;
  TA_Initialize(); load_functions();
  string mode = argc > 1 ? argv[1] : "";
  auto arg = [&](const char* k, const char* d) -> string { for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], k)) return argv[i + 1]; return d; };
  load_known(arg("--known", ""));
  if (mode == "fns") { for (auto& f : FNS) printf("%s\n", f.name.c_str()); return 0; }
  if (mode == "gen") { // print the scenario of one run
    uint64_t seed = strtoull(arg("--seed", "1").c_str(), 0, 10), idx = strtoull(arg("--idx", "0").c_str(), 0, 10);
    string prop = arg("--prop", "C02"); Scenario sc = generate(prop, mix(mix(seed, hashstr(prop)), idx), fn_by_name(arg("--fn", "")) ? fn_by_name(arg("--fn", ""))->idx : hint_of(focus_of(arg("--focus", "")), seed, idx)); printf("%s", sc.text().c_str()); return 0; }
  if (mode == "exec") { // execute a scenario file, optionally several times
    string text = slurp(argv[2]); // several scenarios (each starting with "prop") run one after the other in this process
    vector<string> parts; for (size_t p = 0; p < text.size();) { size_t q = text.find("\nprop ", p + 1); q = q == string::npos ? text.size() : q + 1; parts.push_back(text.substr(p, q - p)); p = q; }
    if (parts.empty()) return 2; for (size_t i = 0; i + 1 < parts.size(); i++) { Scenario s = Scenario::parse(parts[i]); if (!s.prop.empty()) run_one(s); }
    Scenario sc = Scenario::parse(parts.back()); bool verbose = arg("--log", "") != ""; LOG.keep = verbose;
    int times = atoi(arg("--times", "1").c_str()); Result R; uint64_t h0 = 0;
    for (int i = 0; i < times; i++) { R = run_one(sc); if (i && R.hash != h0) { printf("NONDETERMINISTIC\n"); return 3; } h0 = R.hash; }
    if (verbose) for (auto& l : LOG.lines) printf("%s\n", l.c_str());
    if (!SCHED_REPLAY.empty() && arg("--sched", "") != "") printf("SCHED %s\n", SCHED_REPLAY.c_str());
    printf("HASH %016llx\n", (unsigned long long)R.hash);
    if (R.code == 1) { printf("VIOL {\"known\":\"%s\",\"key\":\"%s\",\"fn\":\"%s\",\"detail\":\"%s\"}\n", R.known.c_str(), esc(R.v.key).c_str(), esc(R.v.fn).c_str(), esc(R.v.detail).c_str()); return 1; }
    printf("HELD%s\n", R.code == 2 ? " (skipped)" : ""); return 0; }
  if (mode == "run") { // a batch of runs: indices first, first+stride, ... until the deadline or count
    string prop = arg("--prop", "C02"); uint64_t seed = strtoull(arg("--seed", "1").c_str(), 0, 10); uint64_t first = strtoull(arg("--first", "0").c_str(), 0, 10), stride = strtoull(arg("--stride", "1").c_str(), 0, 10);
    uint64_t count = strtoull(arg("--count", "1000000000").c_str(), 0, 10); double secs = atof(arg("--secs", "1e9").c_str()); string prog = arg("--progress", ""); long maxviol = atol(arg("--maxviol", "200").c_str()); string onlyfn = arg("--fn", "");
    int hintfix = -1; if (onlyfn != "") { const Fn* f = fn_by_name(onlyfn); if (!f) return 2; hintfix = f->idx; }
    std::vector<int> focus = focus_of(arg("--focus", ""));
    int pfd = prog.empty() ? -1 : open(prog.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
    bool hashes = arg("--hashes", "") != "";
    double t0 = now(); uint64_t nontriv = 0, done = 0, skipped = 0, viols = 0; std::unordered_set<uint64_t> distinct; uint64_t idx = first; std::map<string, int> vk;
    for (uint64_t k = 0; k < count; k++, idx += stride) {
      if (((k & 15) == 0 || prop == "C28" || prop == "C29") && now() - t0 > secs) break;
      if (pfd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "%020llu", (unsigned long long)idx); if (pwrite(pfd, b, n, 0) < 0) {} }
      Scenario sc = generate(prop, mix(mix(seed, hashstr(prop)), idx), hintfix >= 0 ? hintfix : hint_of(focus, seed, idx));
      long st0 = stimulus(prop); Result R = run_one(sc); done++;
      if (hashes) printf("H %llu %016llx\n", (unsigned long long)idx, (unsigned long long)R.hash);
      if (R.code == 2) skipped++; else if (stimulus(prop) > st0) { nontriv++; if (distinct.size() < 4000000) distinct.insert(R.hash); }
      if (R.code == 1 && !R.known.empty()) { STATS["known." + R.known]++; } else if (R.code == 1) { viols++; string kk = R.v.key + "|" + R.v.fn; if (vk[kk]++ < 3) printf("VIOL {\"idx\":%llu,\"key\":\"%s\",\"fn\":\"%s\",\"detail\":\"%s\"}\n", (unsigned long long)idx, esc(R.v.key).c_str(), esc(R.v.fn).c_str(), esc(R.v.detail).c_str()); if ((long)vk.size() >= maxviol) { idx += stride; break; } }
    }
    long edges = 0; for (unsigned char* p = cov_b; p && p < cov_e; p++) edges += *p != 0;
    printf("STATS {\"runs\":%llu,\"skipped\":%llu,\"nontrivial\":%llu,\"viols\":%llu,\"distinct\":%zu,\"bars\":%ld,\"edges\":%ld,\"edges_total\":%ld,\"next\":%llu,\"secs\":%.2f,\"counters\":{", (unsigned long long)done, (unsigned long long)skipped, (unsigned long long)nontriv, (unsigned long long)viols, distinct.size(), SIM_BARS, edges, (long)(cov_e - cov_b), (unsigned long long)idx, now() - t0);
    bool c = false; for (auto& k : STATS) { printf("%s\"%s\":%ld", c ? "," : "", k.first.c_str(), k.second); c = true; }
    printf("}}\n");
    string dump = arg("--dump", ""); if (!dump.empty()) { FILE* f = fopen(dump.c_str(), "wb"); if (f) { for (uint64_t h : distinct) fwrite(&h, 8, 1, f); fclose(f); } }
    string cov = arg("--cov", ""); if (!cov.empty()) { FILE* f = fopen(cov.c_str(), "w"); if (f) { for (unsigned char* p = cov_b; p && p < cov_e; p++) fputc(*p ? 1 : 0, f); fclose(f); } }
    return 0; }
  fprintf(stderr, "usage: sim run|exec|gen|fns\n"); return 2;
}
