// Choice-tape property based testing engine: exploration in worker processes,
// crash capture, shrinking, replay, evidence.
#include "pbt.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

uint64_t* spy = nullptr;
uint64_t spy_cap = 0;
static G* current = nullptr;
static std::string g_desc_file;
std::vector<Finding>& findings() { static std::vector<Finding> r; return r; }
std::vector<Facet>& registry() { static std::vector<Facet> r; return r; }

static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}
static uint64_t case_seed(uint64_t seed, const std::string& facet, uint64_t idx) {
  uint64_t h = fnv(facet.data(), facet.size());
  h ^= seed * 0x9E3779B97F4A7C15ull; Rng r(h); h = r.next() ^ (idx * 0xD1B54A32D192ED03ull);
  Rng r2(h); return r2.next();
}
static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
enum Outcome { PASS = 0, DISCARD = 1, FAILED = 2 };

static Outcome run_case(const Facet& f, G& g, std::string& msg) {
  current = &g;
  struct Cl { ~Cl() { current = nullptr; } } cl;
  setup_case();
  try { f.fn(g); return PASS; }
  catch (const Fail& e) { msg = e.msg; return FAILED; }
  catch (const Discard&) { return DISCARD; }
  catch (const std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return FAILED; }
}

static const int CPU_LIMIT = 40;  // CPU seconds one case may take before it counts as not terminating
static void arm_cpu(int sec) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void quiet(const char* path) {
  int fd = open(path, O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); close(fd); }
}

// ---- single case in a fresh child ---------------------------------------
struct Single { Outcome out; std::string msg, desc; std::vector<uint64_t> tape; bool nontrivial=false; std::map<std::string,long> labels; };

static void write_str(FILE* f, const std::string& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
static bool read_str(FILE* f, std::string& s) { uint64_t n; if (fread(&n, 8, 1, f) != 1 || n > (1ull<<31)) return false; s.resize(n); return fread(&s[0], 1, n, f) == n; }

static std::string g_scratch;
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_death() {
  if (!current || g_desc_file.empty()) return;
  std::string d = current->desc.str();
  int fd = open(g_desc_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { if (write(fd, d.data(), d.size())) {} close(fd); }
}

static std::string describe_status(int st) {
  std::ostringstream o;
  if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGPROF) o << "does not terminate (" << CPU_LIMIT << " s of CPU time used)";
    else o << "process killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
  } else o << "process ended with status " << WEXITSTATUS(st) << " (sanitizer report or exit)";
  return o.str();
}
static std::string sanitizer_summary(const std::string& log) {
  std::ifstream in(log); std::string l, out; int n = 0;
  while (std::getline(in, l) && n < 6) {
    if (l.find("runtime error:") != std::string::npos || l.find("ERROR: AddressSanitizer") != std::string::npos || l.find("WARNING: ThreadSanitizer") != std::string::npos ||
        l.find("SUMMARY:") != std::string::npos || l.find("terminate called") != std::string::npos) { out += " | " + l; n++; }
  }
  return out;
}

static Single run_single(const Facet& f, G&& g, bool seeded_history = false, const std::function<void()>& before = nullptr) {
  (void)seeded_history;
  std::string res = g_scratch + "/single.res", log = g_scratch + "/single.log";
  unlink(res.c_str()); unlink(log.c_str()); unlink((g_scratch + "/single.desc").c_str()); unlink((g_scratch + "/single.tape").c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    quiet(log.c_str());
    if (before) before();
    arm_cpu(CPU_LIMIT);
    g_desc_file = g_scratch + "/single.desc";
    static uint64_t* mem = nullptr;
    int tf = open((g_scratch + "/single.tape").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    const uint64_t cap = 1 << 18;
    if (ftruncate(tf, (cap + 1) * 8) == 0) {
      void* m = mmap(nullptr, (cap + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, tf, 0);
      if (m != MAP_FAILED) { mem = (uint64_t*)m; mem[0] = 0; spy = mem; spy_cap = cap; }
    }
    std::string msg;
    Outcome o = run_case(f, g, msg);
    FILE* out = fopen(res.c_str(), "wb");
    uint64_t oc = o; fwrite(&oc, 8, 1, out);
    write_str(out, msg); write_str(out, g.desc.str());
    uint64_t n = g.tape.size(); fwrite(&n, 8, 1, out); if (n) fwrite(g.tape.data(), 8, n, out);
    uint64_t nt = g.nontrivial_; fwrite(&nt, 8, 1, out);
    n = g.labels.size(); fwrite(&n, 8, 1, out); for (auto& l : g.labels) write_str(out, l.first);
    fclose(out);
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  Single s; s.out = FAILED;
  bool ok = false;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
    if (FILE* in = fopen(res.c_str(), "rb")) {
      uint64_t oc, n;
      if (fread(&oc, 8, 1, in) == 1 && read_str(in, s.msg) && read_str(in, s.desc) && fread(&n, 8, 1, in) == 1) {
        s.tape.resize(n); if (!n || fread(s.tape.data(), 8, n, in) == n) { s.out = (Outcome)oc; ok = true; }
        uint64_t nt=0; if (fread(&nt,8,1,in)==1) s.nontrivial = nt; if (fread(&n,8,1,in)==1) while (n--) { std::string l; if(!read_str(in,l)) break; s.labels[l]++; }
      }
      fclose(in);
    }
    if (!ok) s.msg = "process exited without finishing the case";
  } else {
    s.msg = describe_status(st) + sanitizer_summary(log);
    if (FILE* in = fopen((g_scratch + "/single.tape").c_str(), "rb")) {
      uint64_t n; if (fread(&n, 8, 1, in) == 1 && n < (1u << 20)) { s.tape.resize(n); if (n && fread(s.tape.data(), 8, n, in) != n) s.tape.clear(); }
      fclose(in);
    }
    std::ifstream d(g_scratch + "/single.desc"); std::stringstream ds; ds << d.rdbuf(); s.desc = ds.str();
  }
  return s;
}

// ---- exploration ----------------------------------------------------------
struct Stats {
  long cases = 0, discards = 0, nontrivial = 0;
  std::unordered_set<uint64_t> distinct;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
  double wall = 0;
};
struct Shared { volatile int64_t idx[64]; volatile int32_t stop; };

struct Found { bool yes = false; int64_t idx = -1; int worker = 0; std::string msg; };

static Found explore(const Facet& f, uint64_t seed, long n, int W, double deadline, Stats& st) {
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->stop = 0; for (int i = 0; i < 64; i++) sh->idx[i] = -1;
  double t0 = now();
  std::map<pid_t, int> pids;
  for (int w = 0; w < W; w++) {
    std::string res = g_scratch + "/w" + std::to_string(w), log = res + ".log";
    unlink(res.c_str()); unlink(log.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      quiet(log.c_str());
      Stats s; int code = 0; std::string fmsg;
      uint64_t logcheck = 0;
      for (long i = w; i < n; i += W) {
        if (sh->stop || now() > deadline) break;
        sh->idx[w] = i;
        G g(case_seed(seed, f.name, i));
        std::string msg; Outcome o;
        if (f.isolate) {
          std::string keep = g_scratch; g_scratch = keep + "/iso" + std::to_string(w); mkdir(g_scratch.c_str(), 0755);
          Single r = run_single(f, std::move(g)); g_scratch = keep;
          o = r.out; msg = r.msg; g.tape = r.tape; g.desc.str(r.desc); g.nontrivial_ = r.nontrivial; g.labels = r.labels;
        } else {
          arm_cpu(CPU_LIMIT);
          o = run_case(f, g, msg);
        }
        s.cases++;
        if (o == DISCARD) { s.discards++; continue; }
        for (auto& l : g.labels) s.labels[l.first]++;
        if (g.nontrivial_) {
          s.nontrivial++;
          s.distinct.insert(fnv(g.tape.data(), g.tape.size() * 8));
          if (s.samples.size() < 3 || (s.samples.size() < 6 && i > n / 2)) s.samples.push_back(g.desc.str());
        }
        if (o == FAILED) { fmsg = msg; code = 10; sh->stop = 1; break; }
        if ((++logcheck & 255) == 0) { if (ftruncate(1, 0) != 0) {} }
      }
      arm_cpu(0);
      if (code == 0) sh->idx[w] = -1;
      FILE* out = fopen(res.c_str(), "wb");
      int64_t hd[3] = {s.cases, s.discards, s.nontrivial}; fwrite(hd, 8, 3, out);
      uint64_t k = s.distinct.size(); fwrite(&k, 8, 1, out); for (uint64_t h : s.distinct) fwrite(&h, 8, 1, out);
      k = s.labels.size(); fwrite(&k, 8, 1, out); for (auto& l : s.labels) { write_str(out, l.first); int64_t v = l.second; fwrite(&v, 8, 1, out); }
      k = s.samples.size(); fwrite(&k, 8, 1, out); for (auto& x : s.samples) write_str(out, x);
      write_str(out, fmsg);
      fclose(out);
      _exit(code);
    }
    pids[pid] = w;
  }
  Found found;
  std::vector<std::pair<int,std::string>> failed;
  while (!pids.empty()) {
    int stt; pid_t p = wait(&stt);
    if (p < 0) break;
    if (!pids.count(p)) continue;
    int w = pids[p]; pids.erase(p);
    std::string res = g_scratch + "/w" + std::to_string(w), fmsg;
    bool crashed = !WIFEXITED(stt) || (WEXITSTATUS(stt) != 0 && WEXITSTATUS(stt) != 10);
    if (!crashed) {
      if (FILE* in = fopen(res.c_str(), "rb")) {
        int64_t hd[3]; uint64_t k;
        if (fread(hd, 8, 3, in) == 3) { st.cases += hd[0]; st.discards += hd[1]; st.nontrivial += hd[2]; }
        if (fread(&k, 8, 1, in) == 1) while (k--) { uint64_t h; if (fread(&h, 8, 1, in) != 1) break; st.distinct.insert(h); }
        if (fread(&k, 8, 1, in) == 1) while (k--) { std::string l; int64_t v; if (!read_str(in, l) || fread(&v, 8, 1, in) != 1) break; st.labels[l] += v; }
        if (fread(&k, 8, 1, in) == 1) while (k--) { std::string x; if (!read_str(in, x)) break; if (st.samples.size() < 5) st.samples.push_back(x); }
        read_str(in, fmsg);
        fclose(in);
      }
    } else { fmsg = describe_status(stt) + sanitizer_summary(res + ".log"); sh->stop = 1; st.cases += sh->idx[w] / W + 1; }
    if (crashed || WEXITSTATUS(stt) == 10) {
      int64_t idx = sh->idx[w];
      if (!found.yes || idx < found.idx) { found.yes = true; found.idx = idx; found.worker = w; found.msg = fmsg; }
    }
  }
  st.wall += now() - t0;
  munmap(sh, sizeof(Shared));
  return found;
}

// ---- shrinking --------------------------------------------------------------
static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}
static std::vector<uint64_t> strip(std::vector<uint64_t> t) { while (!t.empty() && t.back() == 0) t.pop_back(); return t; }

static Single shrink(const Facet& f, Single best, double budget, long& tries) {
  double end = now() + budget;
  std::vector<uint64_t> cur = strip(best.tape);
  auto attempt = [&](const std::vector<uint64_t>& cand_) -> bool {
    if (now() > end) return false;
    std::vector<uint64_t> cand = strip(cand_);
    if (!simpler(cand, cur)) return false;
    tries++;
    Single s = run_single(f, G(cand));
    if (s.out == FAILED) { cur = cand; best = s; best.tape = cand; return true; }
    return false;
  };
  best.tape = cur;
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, cur.size() / 2); chunk >= 1 && now() < end; chunk /= 2) {
      for (size_t i = 0; i + chunk <= cur.size() && now() < end;) {       // delete
        std::vector<uint64_t> c = cur; c.erase(c.begin() + i, c.begin() + i + chunk);
        if (attempt(c)) progress = true; else i += chunk;
      }
      for (size_t i = 0; i + chunk <= cur.size() && now() < end; i += chunk) {  // zero
        std::vector<uint64_t> c = cur; bool any = false;
        for (size_t k = i; k < i + chunk; k++) { any |= c[k] != 0; c[k] = 0; }
        if (any && attempt(c)) progress = true;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < cur.size() && now() < end; i++) {  // minimise values
      uint64_t lo = 0, hi = i < cur.size() ? cur[i] : 0;
      while (lo < hi && i < cur.size() && now() < end) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> c = cur; c[i] = mid;
        if (attempt(c)) { progress = true; hi = i < cur.size() ? std::min(mid, cur[i]) : 0; } else lo = mid + 1;
      }
    }
  }
  return best;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
}  // namespace pbt

using namespace pbt;

static int do_replay(const std::string& path) {
  std::ifstream in(path); if (!in.good()) { fprintf(stderr, "cannot open %s\n", path.c_str()); return 2; }
  std::string line, facet, kind = "tape"; std::vector<uint64_t> tape; uint64_t seed = 0; long start = 0, idx = 0, stride = 1;
  while (std::getline(in, line)) {
    std::istringstream ls(line); std::string k; ls >> k;
    if (k == "facet") ls >> facet;
    else if (k == "tape") { uint64_t v; while (ls >> v) tape.push_back(v); }
    else if (k == "history") { kind = "history"; ls >> seed >> start >> idx >> stride; }
  }
  for (auto& f : registry()) if (f.name == facet) {
    Single s;
    if (kind == "tape") s = run_single(f, G(tape));
    else s = run_single(f, G(case_seed(seed, f.name, idx)), true, [&] {
      for (long i = start; i < idx; i += stride) { G g(case_seed(seed, f.name, i)); std::string m; run_case(f, g, m); } });
    printf("facet %s: %s\n%s\n%s\n", facet.c_str(), s.out == FAILED ? "FAILED" : s.out == PASS ? "passed" : "discarded", s.msg.c_str(), s.desc.c_str());
    std::ifstream lg(g_scratch + "/single.log"); std::string l; int n = 0;
    if (s.out == FAILED) while (std::getline(lg, l) && n++ < 60) printf("  %s\n", l.c_str());
    return s.out == FAILED ? 1 : 0;
  }
  fprintf(stderr, "unknown facet %s\n", facet.c_str());
  return 2;
}

int main(int argc, char** argv) {
  std::string property = "C00", tier = "quick", out, replaydir = ".", only, variant = "main", replay, finding;
  uint64_t seed = 1; long cases = -1; double budget = 300; double scale = 1; int W = 8;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--property") property = v; else if (a == "--tier") tier = v; else if (a == "--out") out = v;
    else if (a == "--replaydir") replaydir = v; else if (a == "--facet") only = v; else if (a == "--variant") variant = v;
    else if (a == "--seed") seed = strtoull(v.c_str(), 0, 10); else if (a == "--cases") cases = atol(v.c_str());
    else if (a == "--budget") budget = atof(v.c_str()); else if (a == "--scale") scale = atof(v.c_str());
    else if (a == "--workers") W = atoi(v.c_str()); else if (a == "--replay") replay = v; else if (a == "--finding") finding = v;
  }
  char tmpl[] = "/tmp/pbt.XXXXXX"; g_scratch = mkdtemp(tmpl);
  std::string scratch_root = g_scratch;
  setenv("PBT_SCRATCH", g_scratch.c_str(), 1);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  // keep the library's start-up chatter away from our protocol
  int so = dup(1), se = dup(2); quiet((g_scratch + "/init.log").c_str());
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
  setup_process(); std::cout.flush(); std::cerr.flush();
  dup2(so, 1); dup2(se, 2);
  auto cleanup = [&] { std::string c = "rm -rf '" + scratch_root + "'"; if (scratch_root.compare(0, 9, "/tmp/pbt.") == 0) if (system(c.c_str())) {} };
  if (!replay.empty()) { int r = do_replay(replay); cleanup(); return r; }

  if (!finding.empty()) {  // 10: the recorded defect is still there
    int r = 2; for (auto& f : findings()) if (f.name == finding) r = f.fn() ? 10 : 0;
    cleanup(); return r;
  }

  double t0 = now(), deadline = t0 + budget;
  int rc = 0; std::ostringstream js; long evals = 0; long distinct = 0; bool first = true;
  js << "[";
  for (auto& f : registry()) {
    if (!only.empty() && f.name != only) continue;
    long n = cases > 0 ? cases : (long)((tier == "thorough" ? f.thorough : f.quick) * scale);
    if (n <= 0) continue;
    Stats st; Found fd = explore(f, seed, n, W, deadline, st);
    evals += st.cases; distinct += (long)st.distinct.size();
    if (!first) js << ","; first = false;
    js << "{\"facet\":\"" << f.name << "\",\"variant\":\"" << variant << "\",\"planned\":" << n << ",\"evaluations\":" << st.cases << ",\"discarded\":" << st.discards
       << ",\"nontrivial\":" << st.nontrivial << ",\"distinct_nontrivial\":" << st.distinct.size() << ",\"wall_s\":" << st.wall
       << ",\"rule\":\"" << jesc(f.rule) << "\",\"labels\":{";
    bool fl = true; for (auto& l : st.labels) { if (!fl) js << ","; fl = false; js << "\"" << jesc(l.first) << "\":" << l.second; }
    js << "},\"samples\":[";
    for (size_t i = 0; i < st.samples.size(); i++) js << (i ? "," : "") << "\"" << jesc(st.samples[i].substr(0, 1500)) << "\"";
    js << "]}";
    fprintf(stderr, "[%s/%s] %s: %ld cases, %ld discarded, %zu distinct non-trivial, %.1f s%s\n", property.c_str(), variant.c_str(), f.name.c_str(), st.cases, st.discards, st.distinct.size(), st.wall, fd.yes ? "  -- FAILURE" : "");
    if (fd.yes) {
      // Confirm in a fresh process, shrink, and replay three times.
      std::string body; Single s = run_single(f, G(case_seed(seed, f.name, fd.idx))); long tries = 0; bool confirmed = false;
      if (s.out == FAILED) {
        std::vector<uint64_t> t0v = s.tape;
        Single orig = s;
        s = shrink(f, s, getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : tier == "thorough" ? 90 : 40, tries);
        int again = 0; for (int k = 0; k < 3; k++) again += run_single(f, G(s.tape)).out == FAILED;
        if (again < 3) { s = orig; again = 0; for (int k = 0; k < 3; k++) again += run_single(f, G(s.tape)).out == FAILED; }
        confirmed = again == 3;
        std::ostringstream b; b << "facet " << f.name << "\ntape"; for (uint64_t v : s.tape) b << " " << v; b << "\n"; body = b.str();
      }
      if (!confirmed) {
        // the failure may need the cases before it in the same process
        auto hist = [&](long from) { return run_single(f, G(case_seed(seed, f.name, fd.idx)), true, [&] {
          for (long i = from; i < fd.idx; i += W) { G g(case_seed(seed, f.name, i)); std::string m; run_case(f, g, m); } }); };
        long from = fd.worker;
        s = hist(from);
        if (s.out == FAILED) {
          for (long back = 1; back <= 64; back *= 4) { long fr = fd.idx - back * W; if (fr <= from) break; Single q = hist(fr); if (q.out == FAILED) { from = fr; s = q; break; } }
          int again = 0; for (int k = 0; k < 3; k++) again += hist(from).out == FAILED;
          confirmed = again == 3;
          std::ostringstream b; b << "facet " << f.name << "\nhistory " << seed << " " << from << " " << fd.idx << " " << W << "\n"; body = b.str();
        }
      }
      if (!confirmed) {
        fprintf(stderr, "[%s] %s: case %ld failed once (%s) but does not replay; not reported\n", property.c_str(), f.name.c_str(), (long)fd.idx, fd.msg.c_str());
        rc = rc ? rc : 3;
      } else {
        std::string full = "# property " + property + " variant " + variant + " seed " + std::to_string(seed) + " case " + std::to_string(fd.idx) + "\nvariant " + variant + "\n" + body;
        std::istringstream ms(s.msg); std::string l; while (std::getline(ms, l)) full += "# failure: " + l + "\n";
        std::istringstream dsx(s.desc); while (std::getline(dsx, l)) full += "# " + l + "\n";
        char nm[64]; snprintf(nm, sizeof nm, "%016llx", (unsigned long long)fnv(body.data(), body.size()));
        std::string path = replaydir + "/" + property + "-" + f.name + "-" + nm + ".replay";
        std::ofstream(path) << full;
        printf("failure in facet %s (%s build), shrunk in %ld attempts: %s\n%s\n", f.name.c_str(), variant.c_str(), tries, s.msg.substr(0, 2000).c_str(), s.desc.substr(0, 3000).c_str());
        printf("VIOLATION property=%s replay=%s\n", property.c_str(), path.c_str());
        fflush(stdout);
        rc = 1;
        break;
      }
    }
  }
  js << "]";
  if (!out.empty()) {
    std::ofstream(out) << "{\"facets\":" << js.str() << ",\"evaluations\":" << evals << ",\"distinct_nontrivial\":" << distinct << ",\"wall_s\":" << now() - t0 << ",\"rc\":" << rc << "}";
  }
  cleanup();
  return rc;
}
