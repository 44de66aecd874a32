// C28, C29: the source generator (src/tools/gen_code) as a program on a simulated disk. Every run is a child process of its own; its
// files are in memory, its helper programs (mcpp, javac, java) are stubs, every change of the tree goes to a journal the parent replays.
#include "exec.h"
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
extern "C" { int gen_code_main(int, char**); char* sim_gen_repo = nullptr; }
namespace {
typedef std::shared_ptr<const string> Blob; // null: the file does not exist
typedef std::map<string, Blob> Tree;        // paths below ta-lib-rt/; what is not named is as in the repository
Blob from_disk(const string& key) {
  static std::map<string, Blob> cache; auto i = cache.find(key); if (i != cache.end()) return i->second;
  static string root; if (root.empty()) { const char* e = getenv("TALIB_REPO"); root = string(e && *e ? e : "/repo") + "/ta-lib-rt/"; }
  Blob b; if (FILE* f = fopen((root + key).c_str(), "rb")) { struct stat st; if (!fstat(fileno(f), &st) && S_ISREG(st.st_mode)) { string s; char t[65536]; size_t n; while ((n = fread(t, 1, sizeof t, f)) > 0) s.append(t, n); b = std::make_shared<const string>(std::move(s)); } fclose(f); }
  return cache[key] = b;
}
Blob get(const Tree& t, const string& key) { auto i = t.find(key); return i == t.end() ? from_disk(key) : i->second; }
bool same(const Blob& a, const Blob& b) { return a == b || (a && b && *a == *b); }
string norm(const string& p) { // the program runs in c/bin
  vector<string> v{"c", "bin"}; size_t b = 0; if (!p.empty() && p[0] == '/') return "";
  while (b <= p.size()) { size_t e = p.find('/', b); if (e == string::npos) e = p.size(); string c = p.substr(b, e - b); b = e + 1; if (c.empty() || c == ".") continue; if (c == "..") { if (v.empty()) return ""; v.pop_back(); } else v.push_back(c); }
  string o; for (auto& c : v) o += (o.empty() ? "" : "/") + c; return o;
}
bool ends(const string& s, const char* e) { size_t n = strlen(e); return s.size() >= n && !s.compare(s.size() - n, n, e); }
bool target(const string& k) { return k.compare(0, 7, "c/temp/") && k.compare(0, 6, "c/bin/") && !ends(k, ".tmp"); } // a file of the source tree, not a temporary one

// ---------------------------------------------------------------- inside the child
struct Flt { string kind; long at = -1; bool keep = false; string on; }; // on: count and strike only operations on files of that name
struct Child { bool on = false; Tree t; std::map<string, string> w; Flt f; long ops = 0, fired = 0; bool full = false; int jfd = -1; std::map<string, long> per; } C;
vector<string> SUBSET;
void rec(char k, const string& a, const char* p, uint64_t off, uint64_t n) { struct { char k[8]; uint64_t la, off, n; } h = {{k}, a.size(), off, n}; string s((char*)&h, sizeof h); s += a; if (n) s.append(p, n); for (size_t d = 0; d < s.size();) { ssize_t r = write(C.jfd, s.data() + d, s.size() - d); if (r <= 0) _exit(98); d += r; } }
[[noreturn]] void leave(char how, int code) { rec(how, "", nullptr, (uint64_t)code, 0); rec('#', "", nullptr, C.ops, 0); for (auto& x : C.per) rec('N', x.first, nullptr, x.second, 0); rec('F', "", nullptr, C.fired, 0); rec('A', "", nullptr, A.op_allocs, 0); fflush(stdout); _exit(how == 'K' ? 77 : code & 255); }
// one more operation of the program; does the fault strike here?
bool strike(const char* kinds, const string& key) {
  C.per[key]++; if (!C.f.on.empty() && !(C.fired && C.f.keep) && key.find(C.f.on) == string::npos) return false;
  long i = C.ops++; if (C.f.at < 0 || i < C.f.at) return false; if (C.f.kind == "kill") return true;
  if (C.fired && !C.f.keep) return false; if (!strstr(kinds, (":" + C.f.kind + ":").c_str())) return false; C.fired++; return true;
}
bool killed() { return C.f.kind == "kill" && C.ops - 1 >= C.f.at; }
Blob cget(const string& k) { auto i = C.w.find(k); if (i != C.w.end()) return std::make_shared<const string>(i->second); return get(C.t, k); }
void own(const string& k) { if (C.w.count(k)) return; Blob b = get(C.t, k); C.w[k] = b ? *b : ""; C.t[k] = nullptr; }
void put_trunc(const string& k) { C.t[k] = nullptr; C.w[k] = ""; rec('T', k, nullptr, 0, 0); }
struct Fh { string key; bool wr = false, app = false; size_t pos = 0; Blob in; };
ssize_t f_read(void* c, char* b, size_t n) { Fh* h = (Fh*)c; if (h->wr || !h->in) { errno = EBADF; return -1; } if (strike(":read:", h->key)) { if (killed()) leave('K', 0); errno = EIO; return -1; } if (h->pos >= h->in->size()) return 0; n = std::min(n, h->in->size() - h->pos); memcpy(b, h->in->data() + h->pos, n); h->pos += n; return (ssize_t)n; }
void put(Fh* h, const char* b, size_t n) { own(h->key); string& s = C.w[h->key]; if (h->app) h->pos = s.size(); if (s.size() < h->pos + n) s.resize(h->pos + n); memcpy(&s[h->pos], b, n); rec('W', h->key, b, h->pos, n); h->pos += n; }
ssize_t f_write(void* c, const char* b, size_t n) {
  Fh* h = (Fh*)c; if (!h->wr) { errno = EBADF; return 0; } if (!n) return 0;
  if (strike(":write:full:", h->key)) { if (killed()) { if (n > 1) put(h, b, n / 2); leave('K', 0); } size_t part = C.f.kind == "full" ? n / 2 : 0; if (part) put(h, b, part); errno = C.f.kind == "full" ? ENOSPC : EIO; return (ssize_t)part; }
  put(h, b, n); return (ssize_t)n;
}
int f_close(void* c) { Fh* h = (Fh*)c; bool s = strike(h->wr ? ":close:" : "::", h->key); delete h; if (s && killed()) leave('K', 0); if (s) { errno = EIO; return -1; } return 0; }
int f_seek(void* c, off64_t* o, int wh) { Fh* h = (Fh*)c; size_t len = h->wr ? C.w[h->key].size() : h->in ? h->in->size() : 0; long p = wh == SEEK_SET ? *o : wh == SEEK_CUR ? (long)h->pos + *o : (long)len + *o; if (p < 0) { errno = EINVAL; return -1; } h->pos = p; *o = p; return 0; }
// ---------------------------------------------------------------- a run, seen from the parent
struct RunRes { bool killed = false, died = false; int code = 0; long ops = 0, fired = 0, allocs = 0; std::map<string, long> per; string out; Tree after; vector<string> touched; string bad, badwhy; };
// replays the journal; `want`: what an undisturbed run makes of the tree (null while that is being found out)
RunRes run_gen(const Tree& before, const vector<string>& fns, const Flt& f, const Tree* want) {
  RunRes R; R.after = before; int jfd = memfd_create("j", 0), ofd = memfd_create("o", 0); if (jfd < 0 || ofd < 0) throw Skip{"memfd"};
  fflush(stdout); fflush(stderr); pid_t pid = fork(); if (pid < 0) { close(jfd); close(ofd); throw Skip{"fork"}; }
  if (!pid) {
    struct itimerval tv = {{0, 0}, {30, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr); signal(SIGVTALRM, SIG_DFL); signal(SIGABRT, SIG_DFL);
    dup2(ofd, 1); int nul = open("/dev/null", 1); if (nul >= 0) dup2(nul, 2); if (chdir("/proc/self")) {} // nothing real is reachable from here
    C.on = true; C.t = before; C.w.clear(); C.f = f; C.ops = C.fired = 0; C.per.clear(); C.full = false; C.jfd = jfd; SUBSET = fns;
    A.begin_op(f.kind == "alloc" ? f.at : 0, f.keep); char nm[] = "gen_code"; char* av[] = {nm, nullptr}; int rc = gen_code_main(1, av);
    if (A.op_fired) C.fired = A.op_fired; fflush(nullptr); leave('E', rc);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  auto slurpfd = [](int fd) { string s; off_t n = lseek(fd, 0, SEEK_END); s.resize(n > 0 ? n : 0); size_t d = 0; while (d < s.size()) { ssize_t r = pread(fd, &s[d], s.size() - d, d); if (r <= 0) break; d += r; } close(fd); return s; };
  string j = slurpfd(jfd); R.out = slurpfd(ofd); R.died = true; R.code = WIFSIGNALED(st) ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
  std::map<string, string> w; std::set<string> tch; size_t p = 0;
  auto look = [&](const string& k) { if (!target(k)) return; tch.insert(k); if (!want || !R.bad.empty()) return; auto i = w.find(k); Blob now = i == w.end() ? R.after[k] : std::make_shared<const string>(i->second);
    if (same(now, get(before, k)) || same(now, get(*want, k))) return; if (!get(before, k) && k.compare(0, 17, "c/src/ta_func/ta_") == 0) return; /* a new function's source grows in two passes: there is nothing to lose yet */ R.bad = k; Blob o = get(before, k); char b[200]; snprintf(b, sizeof b, "holds %zu bytes, neither its former content (%zu bytes) nor the regenerated one (%zu bytes)", now ? now->size() : 0, o ? o->size() : 0, get(*want, k) ? get(*want, k)->size() : 0); R.badwhy = b; };
  while (p + 32 <= j.size()) { struct { char k[8]; uint64_t la, off, n; } h; memcpy(&h, &j[p], sizeof h); p += sizeof h; string a = j.substr(p, h.la); p += h.la; const char* d = j.data() + p; if (h.k[0] == 'W' || h.k[0] == 'R') p += h.n;
    switch (h.k[0]) {
      case 'T': w[a] = ""; look(a); break;
      case 'W': { if (!w.count(a)) { Blob b = get(R.after, a); w[a] = b ? *b : ""; } string& s = w[a]; if (s.size() < h.off + h.n) s.resize(h.off + h.n); memcpy(&s[h.off], d, h.n); look(a); break; }
      case 'U': w.erase(a); R.after[a] = nullptr; look(a); break;
      case 'R': { string b(d, h.n); Blob x = w.count(a) ? std::make_shared<const string>(w[a]) : get(R.after, a); w.erase(a); w.erase(b); R.after[a] = nullptr; R.after[b] = x; look(a); look(b); break; }
      case 'K': R.killed = true; R.died = false; break;
      case 'E': R.died = false; R.code = (int)h.off; break;
      case '#': R.ops = h.off; break;
      case 'N': R.per[a] = h.off; break;
      case 'F': R.fired = h.off; break;
      case 'A': R.allocs = h.off; break; } }
  for (auto& x : w) R.after[x.first] = std::make_shared<const string>(std::move(x.second));
  R.touched.assign(tch.begin(), tch.end()); return R;
}
// ---------------------------------------------------------------- the world: a source tree, developers, runs of the generator
vector<string> lines(const string& s) { vector<string> v; size_t b = 0; while (b < s.size()) { size_t e = s.find('\n', b); e = e == string::npos ? s.size() : e + 1; v.push_back(s.substr(b, e - b)); b = e; } return v; }
string join(const vector<string>& v) { string s; for (auto& x : v) s += x; return s; }
string trim(const string& l) { size_t b = l.find_first_not_of(" \t\r\n"); return b == string::npos ? "" : l.substr(b); }
bool is_start(const string& l) { return !trim(l).compare(0, 27, "/**** START GENCODE SECTION"); }
bool is_end(const string& l) { return !trim(l).compare(0, 25, "/**** END GENCODE SECTION"); }
bool is_edit(const string& l) { return l.find("simedit_") != string::npos; }
string src_of(const string& fn) { if (fn == "ta_defs.h") return "c/include/ta_defs.h"; return "c/src/ta_func/ta_" + fn + ".c"; }
struct World {
  string prop; vector<string> fns; Tree t1, cur; bool have = false; std::map<string, vector<string>> edits; // t1: what the generator makes of the untouched tree
  std::set<string> fresh; // functions started anew from the template
  Tree want; std::map<string, long> wper; long wops = 0, wallocs = 0; bool known = false;
  static std::map<string, Tree> memo;
  string first_diff(const Tree& a, const Tree& b) { std::set<string> ks; for (auto& x : a) ks.insert(x.first); for (auto& x : b) ks.insert(x.first); for (auto& k : ks) if (target(k) && !same(get(a, k), get(b, k))) return k; return ""; }
  string last_line(const string& o) { auto v = lines(o); for (size_t i = v.size(); i-- > 0;) { string t = trim(v[i]); if (!t.empty()) { while (!t.empty() && t.back() == '\n') t.pop_back(); return t.substr(0, 120); } } return ""; }
  void stray(const RunRes& R, const char* when) { for (auto& x : R.after) if (x.second && ends(x.first, ".tmp") && x.first.compare(0, 7, "c/temp/")) viol("gen-stray", x.first, "%s a temporary file stays behind in the source tree", when); }
  void ok(const RunRes& R, const char* when) { if (R.killed || R.died || R.code || R.out.find("completed with success") == string::npos) viol("gen-fails", "gen_code", "%s the generator ends with %d%s: %s", when, R.code, R.died ? " (died)" : "", last_line(R.out).c_str()); }
  void open_world(const Op& o) {
    fns.clear(); string a = o.gets("fns", "*"); if (a != "*") { size_t b = 0; while (b < a.size()) { size_t e = a.find(',', b); if (e == string::npos) e = a.size(); fns.push_back(a.substr(b, e - b)); b = e + 1; } }
    cur.clear(); edited.clear(); edits.clear(); fresh.clear(); rcrow.clear(); known = false; string key = a;
    if (!memo.count(key)) { RunRes R = run_gen(cur, fns, Flt(), nullptr); ok(R, "on the shipped tree"); for (auto& f : FNS) if (fns.empty() || std::find(fns.begin(), fns.end(), f.name) != fns.end()) { Blob b = get(R.after, src_of(f.name)); check_own(f.name, get(cur, src_of(f.name)), b); check_single(f.name, b); } if (memo.size() > 64) memo.clear(); memo[key] = R.after; }
    t1 = cur = memo[key]; have = true;
  }
  void learn() { // what an undisturbed run makes of the present tree
    if (known) return; RunRes R = run_gen(cur, fns, Flt(), nullptr); ok(R, "undisturbed"); want = R.after; wops = R.ops; wper = R.per; wallocs = R.allocs; known = true; stray(R, "after an undisturbed run"); for (auto& k : R.touched) if (same(get(cur, k), get(want, k))) viol("gen-touch", k, "a run writes the file though nothing in it changes"); STATS["gen.runs"]++; check_model();
  }
  static vector<string> secs(const Blob& x) { vector<string> m; bool in = false; if (x) for (auto& l : lines(*x)) { if (is_end(l)) in = false; if (in) m.back() += l; if (is_start(l)) { in = true; m.push_back(""); } } return m; }
  void check_model() { // the regenerated tree is the one the tables and the developers' lines give
    for (auto& x : want) { const string& k = x.first; if (!target(k)) continue; Blob a = get(want, k), b = get(t1, k); string fn; for (auto& e : edits) if (src_of(e.first) == k) fn = e.first;
      bool fr = false; for (auto& f : fresh) if (src_of(f) == k) fr = true;
      if (fr) { // completed from the template: its generated sections are those of an intact tree, its own part the template's
        auto ma = secs(a), mb = secs(b); if (ma.size() != mb.size() || ma.empty()) viol("gen-lost", k, "a source started from nothing has %zu generated sections, an intact one %zu", ma.size(), mb.size());
        for (size_t i = 0; i + 1 < mb.size(); i++) if (ma[i] != mb[i]) viol("gen-differs", k, "in a source started from nothing the %zu. generated section is another one than in an intact source", i + 1);
        string fnm; for (auto& f : fresh) if (src_of(f) == k) fnm = f; check_single(fnm, a); COMPARED++; continue; }
      for (auto& f : fns) if (src_of(f) == k && a) check_single(f, a);
      if (!rcrow.empty() && a && (ends(k, "/ta_retcode.csv") || ends(k, "/ta_retcode.c"))) { // one row per added return code, in the order of the enumeration
        bool csv = ends(k, ".csv"); string rest; vector<string> rows, wantr; for (auto& l : lines(*a)) if (l.find("TA_SIM_") != string::npos) rows.push_back(l); else rest += l;
        for (auto& l : lines(*get(want, "c/include/ta_defs.h"))) { size_t p = l.find("TA_SIM_"), q = l.find(',', p); if (p == string::npos) continue; auto i = rcrow.find(l.substr(p, q - p)); if (i != rcrow.end()) wantr.push_back(csv ? i->second.first : i->second.second); }
        if (rows != wantr || !b || rest != *b) viol("gen-differs", k, "%zu rows for return codes added to ta_defs.h, %zu wanted, or other content", rows.size(), wantr.size()); COMPARED++; continue; }
      if (fn.empty()) { if (!same(a, b)) { auto la = lines(a ? *a : ""), lb = lines(b ? *b : ""); size_t i = 0; while (i < la.size() && i < lb.size() && la[i] == lb[i]) i++; viol("gen-differs", k, "the regenerated file differs from the one of an intact tree in line %zu (%zu lines instead of %zu)", i + 1, la.size(), lb.size()); } COMPARED++; continue; }
      if (!a) viol("gen-lost", fn, "the source of %s is gone", fn.c_str());
      auto own = lines(*get(edited, k)), got = lines(*a), base = lines(*b); auto cut = [](const vector<string>& v) { size_t c = 0; for (size_t i = 0; i < v.size(); i++) if (is_start(v[i])) c = i; return c; };
      size_t c0 = cut(own), c1 = cut(got), cb = cut(base);
      check_own(fn, get(edited, k), a); auto ma = secs(a), mb = secs(get(t1, k)); if (ma.size() != mb.size()) viol("gen-lost", fn, "the source of %s has %zu generated sections instead of %zu", fn.c_str(), ma.size(), mb.size());
      for (size_t i = 0; i + 1 < mb.size(); i++) if (ma[i] != mb[i]) viol("gen-differs", k, "the %zu. generated section is another one than in an intact source", i + 1);
      vector<string> tail, marks, wantm; for (size_t i = c1; i < got.size(); i++) (is_edit(got[i]) ? marks : tail).push_back(got[i]);
      vector<string> btail(base.begin() + cb, base.end()); for (size_t i = 0; i < tail.size() || i < btail.size(); i++) if (i >= tail.size() || i >= btail.size() || tail[i] != btail[i]) viol("gen-differs", k, "the single precision part differs from that of an intact tree in its line %zu", i + 1);
      bool logic = false; for (size_t i = 0; i < c0; i++) { if (own[i].find("/**** END GENCODE SECTION 3 ") == 0) logic = true; if (own[i].find("/**** START GENCODE SECTION 5 ") == 0) logic = false; if (logic && is_edit(own[i])) wantm.push_back(own[i]); }
      if (marks.size() != wantm.size()) viol("gen-single", fn, "%zu of the %zu lines added to the calculation of %s are in its single precision copy", marks.size(), wantm.size(), fn.c_str());
      for (size_t i = 0; i < marks.size(); i++) if (marks[i].find(core(wantm[i])) == string::npos) viol("gen-single", fn, "a line added to the calculation of %s is altered in its single precision copy", fn.c_str());
      COMPARED++; }
    for (auto& x : t1) if (target(x.first) && x.second && !get(want, x.first)) viol("gen-lost", x.first, "the file is gone after a run");
  }
  static string core(const string& l) { size_t b = l.find("simedit_"), e = l.find_first_of(";/", b); return e == string::npos ? l.substr(b) : l.substr(b, e - b); }
  static string flat(const string& l) { string o; for (char c : l) if (!isspace((unsigned char)c)) o += c; return o; }
  // the single precision part of a source repeats the calculation without its comments
  void check_single(const string& fn, const Blob& b) {
    auto v = lines(*b); size_t s = 0, last = 0; vector<size_t> st; for (size_t i = 0; i < v.size(); i++) { if (v[i].find("/**** END GENCODE SECTION 3 ") == 0) s = i + 1; if (is_start(v[i])) st.push_back(i); } if (!s || st.empty()) return; last = st.back(); size_t e = 0; for (size_t i : st) if (v[i].find("/**** START GENCODE SECTION 5 ") == 0) e = i; if (e < s) return;
    string text; for (size_t i = s; i < e; i++) { if (v[i].find("Proprietary") != string::npos) return; text += v[i]; } string out; for (size_t i = 0; i < text.size();) { if (text[i] == '/' && i + 1 < text.size() && text[i + 1] == '*') { size_t q = text.find("*/", i + 2); size_t z = q == string::npos ? text.size() : q + 2; for (; i < z; i++) if (text[i] == '\n') out += '\n'; } else out += text[i++]; }
    vector<string> want, got; for (auto& l : lines(out)) { string x = flat(l); if (!x.empty()) want.push_back(x); } for (const char* x : {"#ifdefined(_MANAGED)", "}}}//CloseNamespace", "#endif"}) want.push_back(x); want[want.size() - 2] = flat("}}} // Close namespace TicTacTec.TA.Lib");
    for (size_t i = last + 1; i < v.size() && !is_end(v[i]); i++) { string l = trim(v[i]); if (!l.compare(0, 15, "/* Generated */")) l = l.substr(15); string x = flat(l); if (!x.empty()) got.push_back(x); }
    if (got.size() < want.size()) viol("gen-single", fn, "the single precision part of %s has %zu lines, the calculation %zu", fn.c_str(), got.size(), want.size());
    for (size_t i = 0, d = got.size() - want.size(); i < want.size(); i++) if (got[d + i] != want[i]) { if (getenv("DBG")) fprintf(stderr, "got %s want %s (%zu %zu)\n", got[d+i].c_str(), want[i].c_str(), got.size(), want.size()); viol("gen-single", fn, "line %zu of the calculation of %s is another one in its single precision part", i + 1, fn.c_str()); }
    COMPARED++; }
  // what stands outside the generated sections is not the generator's
  void check_own(const string& fn, const Blob& a, const Blob& b) {
    if (!a) return; if (!b) viol("gen-lost", fn, "the source of %s is gone", fn.c_str()); auto own = [](const Blob& x) { vector<string> o; bool in = false; for (auto& l : lines(*x)) { if (is_end(l)) in = false; if (!in) o.push_back(l); if (is_start(l)) in = true; } return o; };
    auto x = own(a), y = own(b); for (size_t i = 0; i < x.size() || i < y.size(); i++) if (i >= x.size() || i >= y.size() || x[i] != y[i]) viol("gen-lost", fn, "line %zu outside the generated sections of %s is not the developer's any more", i + 1, fn.c_str()); COMPARED++; }
  std::map<string, std::pair<string, string>> rcrow; // return codes the developers added
  Tree edited; // the developers' version of every source
  void touch(const string& k, const string& s) { cur[k] = edited[k] = std::make_shared<const string>(s); known = false; }
  void edit(const Op& o) { // a developer adds a line of code outside the generated sections
    string fn = o.gets("fn"), k = src_of(fn); Blob b = get(cur, k); if (!b || fresh.count(fn)) return; auto v = lines(*b); vector<size_t> at; bool gen = false; long cm = 0; size_t lastsec = 0; for (size_t i = 0; i < v.size(); i++) if (is_start(v[i])) lastsec = i;
    for (size_t i = 0; i < lastsec; i++) { if (is_start(v[i])) gen = true; if (is_end(v[i])) gen = false; size_t p = 0; while ((p = v[i].find("/*", p)) != string::npos) { cm = 1; size_t q = v[i].find("*/", p + 2); if (q == string::npos) break; cm = 0; p = q + 2; } if (cm && v[i].find("*/") != string::npos && v[i].rfind("*/") > (v[i].rfind("/*") == string::npos ? 0 : v[i].rfind("/*"))) cm = 0;
      if (!gen && !cm && v[i].size() > 1 && v[i][v[i].size() - 2] == ';' && v[i].find("//") == string::npos && !is_end(v[i])) at.push_back(i); }
    string form = o.gets("form", "stmt"), s = "simedit_" + std::to_string(o.getu("id")), n = std::to_string(o.getu("id") % 97); vector<string> ins;
    if (form == "head" || form == "unhead") { at.clear(); bool c = false; for (size_t i = 0; i < v.size() && !is_start(v[i]); i++) { if (c && v[i].compare(0, 2, " *") == 0 && v[i].find("*/") == string::npos) at.push_back(i); if (v[i].compare(0, 2, "/*") == 0) c = v[i].find("*/") == string::npos; else if (v[i].find("*/") != string::npos) c = false; } }
    if (form == "blank") { at.clear(); bool g = false; for (size_t i = 0; i < lastsec; i++) { if (is_start(v[i])) g = true; if (is_end(v[i])) { g = false; continue; } if (!g && v[i].find_first_not_of(" \t\r\n") == string::npos) at.push_back(i); } }
    if (form == "rc") { at.clear(); bool e = false; for (size_t i = 0; i < v.size(); i++) { if (v[i].find("ENUM_BEGIN( RetCode )") != string::npos) e = true; else if (v[i].find("TA_UNKNOWN_ERR") != string::npos) e = false; else if (e && v[i].find("ENUM_DEFINE(") != string::npos) at.push_back(i); } }
    if (at.empty()) return; size_t i = at[o.getu("at") % at.size()]; uint64_t r = o.getu("id") / 97;
    if (form == "unhead" || (form == "blank" && r % 2)) v.erase(v.begin() + i);
    else { if (form == "rc") { bool info = r % 4, wide = r % 3 == 0; string nm = "TA_SIM_" + std::to_string(o.getu("id")), no = std::to_string(100 + o.getu("id") % 900); ins = {"    /*" + string(wide ? "    " : " ") + no + " */  ENUM_DEFINE( " + nm + ", Sim" + no + " )," + (info ? "  /*  Simulated, no. " + no + string(wide ? "   " : " ") + "*/" : "") + "\n"};
        rcrow[nm] = {no + "," + nm + "," + (info ? "Simulated, no. " + no : "No Info") + "\n", "         {(TA_RetCode)" + no + ",\"" + nm + "\",\"" + (info ? "Simulated, no. " + no : "No Info") + "\"},\n"}; }
      else if (form == "stmt") ins = {"   " + s + " = " + n + ";\n"}; else if (form == "blank") ins = {"\n", "   \t \n"}; else if (form == "head") ins = {" *  112026 SD   Why * and / stand here" + string(r % 3 ? "" : "; *") + "\n"};
      else if (form == "div") ins = {"   " + s + " = a/" + n + "/ 3 /b;\n"}; else if (form == "after") ins = {"   " + s + " = " + n + "; /* was a / 4 **/\n"}; else if (form == "before") ins = {"   /** why * so */ " + s + " = " + n + ";\n"};
      else if (form == "block") ins = {"   /* one;\n", "    * two / three ***\n", r % 2 ? "    */\n" : "    **/\n", "\t" + s + " = " + n + ";\n"}; else if (form == "astride") ins = {"   " + s + " = a /* one\n", "   two / * " + string(r % 2 ? "*" : "") + "*/ ;" + s + " = " + n + "*b/c;\n"};
      else if (form == "twice") ins = {"   " + s + " = a/*x*//b/**/;\n"}; else if (form == "line") ins = {"\n", "   /*-----*/\n", "   /**/\n"}; else { string l = "   " + s + " = a"; for (uint64_t k = 0; k < 20 + r % 1200; k++) l += " + x" + std::to_string(k % 10); ins = {l + ";\n"}; }
      v.insert(v.begin() + i + 1, ins.begin(), ins.end()); }
    touch(k, join(v)); edits[fn].push_back("x"); STATS["gen.edits"]++; LOG.add("edit %s %zu", fn.c_str(), i);
  }
  void damage(const Op& o) { // generated parts are lost or garbled, or a function starts from nothing
    string how = o.gets("how"); uint64_t r = o.getu("at"); known = false; STATS["gen.damage." + how]++; LOG.add("damage %s", how.c_str());
    static const char* G[] = {"c/include/ta_func.h", "ta_func_list.txt", "c/src/ta_common/ta_retcode.c", "c/src/ta_common/ta_retcode.csv", "c/src/ta_abstract/ta_group_idx.c", "c/src/ta_abstract/frames/ta_frame.h", "c/src/ta_abstract/frames/ta_frame.c", "swig/src/interface/ta_func.swg", "ta_func_api.xml", "c/src/ta_abstract/ta_func_api.c", "c/src/ta_func/Makefile.am", "c/src/ta_abstract/ta_java_defs.h", "java/src/com/tictactec/ta/lib/CoreAnnotated.java"};
    if (how == "delete") { const char* g = G[r % 13]; if (get(t1, g)) cur[g] = nullptr; return; }
    if (how == "trunc" || how == "spoil") { string k = G[r % 13]; Blob b = get(cur, k); if (!b) return; auto v = lines(*b); if (v.empty()) return; size_t n = (r >> 6) % v.size(); if (how == "trunc") v.resize((r >> 4) % 3 ? n : v.size() - 1); else v[n] = "spoilt\n"; cur[k] = std::make_shared<const string>(join(v)); return; }
    string fn = o.gets("fn"), k = src_of(fn);
    if (how == "new") { if (!edits.count(fn) && fn != "ta_defs.h") { cur[k] = nullptr; fresh.insert(fn); } return; }
    Blob b = get(cur, k); if (!b || fresh.count(fn)) return; auto v = lines(*b), w = vector<string>(); vector<size_t> st; for (size_t i = 0; i < v.size(); i++) if (is_start(v[i])) st.push_back(i); if (st.empty()) return;
    size_t s = st[r % st.size()]; bool in = false; size_t n = 0; for (size_t i = 0; i < v.size(); i++) { if (is_end(v[i])) in = false; if (!in) w.push_back(v[i]); else { n++; if (how == "garble") w.push_back((r >> 8) % 3 == n % 3 ? "/* Generated */ lost\n" : v[i]); } if (i == s) in = true; }
    cur[k] = std::make_shared<const string>(join(w)); if (!edited.count(k)) edited[k] = b; edits[fn];
  }
  // markers of a generated section are lost: a run cannot bring that file up to date. It says so and leaves the file to the developers
  void marker(const Op& o) {
    string fn = o.gets("fn"), k = src_of(fn); Blob b = get(cur, k); if (!b || fresh.count(fn)) return; auto v = lines(*b); vector<size_t> st; for (size_t i = 0; i < v.size(); i++) if (is_start(v[i])) st.push_back(i); if (st.size() < 2) return;
    uint64_t r = o.getu("at"); size_t s = st[r % st.size()], e = s; while (e < v.size() && !is_end(v[e])) e++; if (e >= v.size()) return;
    int how = (r >> 6) % 3; if (how == 0) v.erase(v.begin() + s, v.begin() + e + 1); else v.erase(v.begin() + (how == 1 ? s : e));
    Tree m = cur; m[k] = std::make_shared<const string>(join(v)); RunRes R = run_gen(m, fns, Flt(), nullptr); STATS["gen.runs"]++; STATS["gen.marker"]++; LOG.add("marker %s %d %d", fn.c_str(), how, R.died ? 999 : R.code);
    if (R.killed || R.died) viol("gen-fails", "gen_code", "the generator dies over a source without a marker: %s", last_line(R.out).c_str());
    if (!same(get(R.after, k), m[k])) viol("gen-lost", fn, "a run over a source that lacks a marker of a generated section alters it"); 
    if (R.code == 0 || R.out.find("completed with success") != string::npos) viol("gen-success", k, "the generator reports success (%d) though the file lacks a marker of a generated section", R.code);
    COMPARED++;
  }
  void run(const Op& o) {
    learn(); Flt f; f.kind = o.gets("fault", "none"); f.keep = o.geti("keep") != 0; long total = f.kind == "alloc" ? wallocs : wops; if (f.kind != "alloc" && f.kind != "tool") { f.on = o.gets("on"); if (!f.on.empty()) { total = 0; for (auto& x : wper) if (x.first.find(f.on) != string::npos) total += x.second; } } f.at = (long)((double)o.geti("at") / 1e6 * (double)total) + (f.kind == "alloc");
    if (f.kind == "none") f = Flt(); RunRes R = run_gen(cur, fns, f, &want); STATS["gen.runs"]++; long fired = R.killed ? 1 : R.fired; LOG.add("run %s at %ld: %d %d fired %ld", f.kind.c_str(), f.at, R.killed, R.died ? 999 : R.code, fired); LOG.addi(R.touched.size());
    bool struck = R.killed || R.died || fired; if (struck) STATS["fault.gen_" + f.kind]++;
    if (!R.bad.empty()) viol("gen-torn", R.bad, "a run of the generator (%s): at some moment the file %s", f.kind.c_str(), R.badwhy.c_str());
    if (!struck) { ok(R, "undisturbed"); if (!first_diff(R.after, want).empty()) viol("gen-unsteady", first_diff(R.after, want), "two undisturbed runs over the same tree differ"); }
    else if (!R.killed && !R.died && (R.code == 0 || R.out.find("completed with success") != string::npos)) {
      for (auto& x : want) if (target(x.first) && !same(get(R.after, x.first), x.second)) { if (f.kind == "tool" && ends(x.first, "/Core.java") && same(get(R.after, x.first), get(cur, x.first))) continue; viol("gen-success", x.first, "the generator reports success (%d) though a fault (%s) kept it from bringing the file up to date", R.code, f.kind.c_str()); }
      if (f.kind != "tool") stray(R, "after a run that reports success"); STATS["gen.survived"]++; }
    COMPARED++; Tree w = want; bool old = known; cur = R.after; known = false; (void)old;
    if (struck) { learn(); string d = first_diff(want, w); if (!d.empty()) viol("gen-heal", d, "a run after the disturbed one (%s) does not make the tree an undisturbed run would have made", f.kind.c_str()); STATS["gen.healed"]++; }
  }
  void finish() {
    if (!have) return; learn(); Tree w = want; cur = want; known = false; RunRes R = run_gen(cur, fns, Flt(), &cur); STATS["gen.runs"]++; ok(R, "on an up-to-date tree");
    string d = first_diff(R.after, cur); if (!d.empty()) viol("gen-drift", d, "a second run changes the file again"); if (!R.touched.empty()) viol("gen-touch", R.touched[0], "a run over an up-to-date tree writes the file"); LOG.addi(R.ops); COMPARED++; STATS["gen.fixpoint"]++;
  }
};
std::map<string, Tree> World::memo;
} // namespace

// ---------------------------------------------------------------- the seam: what the generator's calls are linked to
extern "C" {
FILE* sim_fopen(const char* path, const char* mode) {
  if (!C.on) return fopen(path, mode); if (!path || !mode) { errno = EINVAL; return nullptr; } string k = norm(path); bool wr = mode[0] != 'r' || strchr(mode, '+');
  if (strike(wr ? ":open:openw:" : ":open:openr:", k)) { if (killed()) leave('K', 0); errno = C.f.kind == "openr" ? EIO : EMFILE; return nullptr; }
  if (k.empty()) { errno = ENOENT; return nullptr; } Fh* h = new Fh; h->key = k; h->wr = wr;
  if (!wr) { h->in = cget(k); if (!h->in) { delete h; errno = ENOENT; return nullptr; } }
  else if (mode[0] == 'w') put_trunc(k); else { h->app = mode[0] == 'a'; if (mode[0] == 'r' && !cget(k)) { delete h; errno = ENOENT; return nullptr; } if (!cget(k)) put_trunc(k); else own(k); }
  cookie_io_functions_t io = {wr ? nullptr : f_read, wr ? f_write : nullptr, f_seek, f_close}; FILE* f = fopencookie(h, mode[0] == 'r' && !wr ? "r" : "w", io); if (f) setvbuf(f, nullptr, _IOFBF, 4096); return f;
}
int sim_unlink(const char* p) { if (!C.on) { errno = EPERM; return -1; } string k = norm(p ? p : ""); if (strike("::", k)) leave('K', 0); if (k.empty() || !cget(k)) { errno = ENOENT; return -1; } C.w.erase(k); C.t[k] = nullptr; rec('U', k, nullptr, 0, 0); return 0; }
int sim_rename(const char* a, const char* b) { if (!C.on) { errno = EPERM; return -1; } string x = norm(a ? a : ""), y = norm(b ? b : ""); if (strike(":rename:", x)) { if (killed()) leave('K', 0); errno = EIO; return -1; } Blob d = x.empty() ? nullptr : cget(x); if (!d || y.empty()) { errno = ENOENT; return -1; } C.w.erase(x); C.w.erase(y); C.t[x] = nullptr; C.t[y] = d; rec('R', x, y.data(), 0, y.size()); return 0; }
int sim_system(const char* cmd) { // mcpp ... IN | sed ... >[>] OUT;  javac ...;  java -cp . Main
  if (!C.on) return -1; string c = cmd ? cmd : ""; bool s = strike(":tool:", ""); if (s && killed()) leave('K', 0); C.ops++;
  auto write_all = [](const string& k, const string& d, bool app) { if (!app || !cget(k)) put_trunc(k); own(k); string& t = C.w[k]; rec('W', k, d.data(), t.size(), d.size()); t += d; };
  size_t g = c.rfind('>');
  if (c.find("mcpp") != string::npos && g != string::npos) {
    bool app = g && c[g - 1] == '>'; size_t b = c.find_first_not_of(' ', g + 1), e = c.find(' ', b); string out = norm(c.substr(b, e == string::npos ? e : e - b)); size_t z = c.find(" |"); if (z == string::npos) z = app ? g - 1 : g; string l = c.substr(0, z); while (!l.empty() && l.back() == ' ') l.pop_back(); string in = norm(l.substr(l.rfind(' ') + 1)); Blob d = cget(in);
    string o; if (d && !s) { if (in.compare(0, 14, "c/src/ta_func/") == 0) { uint64_t h = 7; int n = 0; for (auto& x : lines(*d)) if (!is_edit(x)) { n++; } size_t q = in.rfind('/'); for (char ch : in.substr(q)) h = h * 131 + (unsigned char)ch; for (int i = 0; i < 3; i++) { char t[100]; snprintf(t, sizeof t, "   /* %s */ int part%d = %llu;\n", in.substr(q + 1).c_str(), i, (unsigned long long)(h + i)); o += t; } (void)n; } else for (auto& x : lines(*d)) if (x.compare(0, 8, "#include")) o += x; }
    write_all(out, o, app); return c.find('|') != string::npos ? 0 : d && !s ? 0 : 256; // a pipeline returns the status of sed
  }
  if (c.find("javac") != string::npos) return s ? 256 : 0;
  if (c.find("java ") != string::npos) { Blob d = cget("c/temp/CoreJavaUnformated.tmp"); if (s || !d) return 256; write_all("c/temp/CoreJavaPretty.tmp", *d, false); write_all("c/temp/java_success", "OK", false); return 0; }
  return 32512;
}
void sim_exit(int code) { if (!C.on) exit(code); if (A.op_fired) C.fired = A.op_fired; fflush(nullptr); leave('E', code); }
FILE* sim_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
int sim_access(const char* p, int) { string k = norm(p ? p : ""); if (C.on && !k.empty() && cget(k)) return 0; errno = ENOENT; return -1; }
int sim_remove(const char* p) { return sim_unlink(p); }
void sim__exit(int c) { sim_exit(c); }
#define CLOSED(T, n, v) T sim_##n(...) { errno = EPERM; return v; } // ways to the real system that lead nowhere
CLOSED(int, gc_open, -1)
CLOSED(int, open64, -1)
CLOSED(int, creat, -1)
CLOSED(int, mkstemp, -1)
CLOSED(int, truncate, -1)
CLOSED(int, fork, -1)
CLOSED(int, execv, -1)
CLOSED(int, link, -1)
CLOSED(int, symlink, -1)
CLOSED(void*, popen, nullptr)
CLOSED(void*, freopen, nullptr)
TA_RetCode sim_foreach(TA_CallForEachFunc f, void* d) {
  struct Ctx { TA_CallForEachFunc f; void* d; } x{f, d};
  return TA_ForEachFunc([](const TA_FuncInfo* i, void* p) { Ctx* c = (Ctx*)p; if (SUBSET.empty() || std::find(SUBSET.begin(), SUBSET.end(), i->name) != SUBSET.end()) c->f(i, c->d); }, &x);
}
}
void run_gencode(const Scenario& sc) {
  World w; w.prop = sc.prop;
  for (auto& o : sc.ops) { if (o.name == "world") w.open_world(o); else if (!w.have) continue; else if (o.name == "edit") w.edit(o); else if (o.name == "damage") w.damage(o); else if (o.name == "run") w.run(o); else if (o.name == "marker") w.marker(o); }
  w.finish();
}
