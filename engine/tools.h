// Running the command line tools in a scratch directory.
#pragma once
#include "cn.h"
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>

namespace cn {
// a directory of this case's own, removed with everything in it
struct Dir {
  std::string path; explicit Dir(const std::string& tag) : path(tmpfile(tag)) { wipe(path); mkdir(path.c_str(), 0700); }
  ~Dir() { wipe(path); }
  std::string operator/(const std::string& n) const { return path + "/" + n; }
  static void wipe(const std::string& p) { struct stat s; if (lstat(p.c_str(), &s)) return; if (S_ISDIR(s.st_mode)) { if (DIR* d = opendir(p.c_str())) { while (auto* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") wipe(p + "/" + n); } closedir(d); } rmdir(p.c_str()); } else unlink(p.c_str()); }
};
inline void write_file(const std::string& p, const std::string& s) { std::ofstream o(p, std::ios::binary); o.write(s.data(), (std::streamsize)s.size()); REQUIRE(o.good(), "harness: cannot write " << p); }
inline bool file_exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
inline std::string read_file(const std::string& p) { std::ifstream i(p, std::ios::binary); REQUIRE(i.good(), p << " does not exist"); return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
struct Ran { int code = -1; bool timeout = false; std::string out; std::string tail() const { return out.size() > 1500 ? "..." + out.substr(out.size() - 1500) : out; } };
// input: what the tool reads from its standard input; room: bytes that fit into any file it writes
inline Ran run_tool(const std::string& tool, const std::vector<std::string>& args, const std::string& cwd, const std::string& input = "", double limit = 60, long room = -1) {
  const char* base = getenv("CN24_TOOLS"); REQUIRE(base, "harness: CN24_TOOLS is not set"); std::string exe = std::string(base) + "/" + tool, in = cwd + "/.stdin", log = cwd + "/.log"; write_file(in, input);
  std::vector<char*> av; av.push_back((char*)exe.c_str()); for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
  int pp[2] = {-1, -1}; if (room >= 0) { REQUIRE(pipe(pp) == 0 && fcntl(pp[1], F_SETPIPE_SZ, 1 << 20) > 0, "harness: pipe"); fcntl(pp[0], F_SETFL, O_NONBLOCK); }
  pid_t p = fork(); if (p < 0) FAILMSG("harness: fork");
  if (p == 0) { int i = open(in.c_str(), O_RDONLY), o = room < 0 ? open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600) : pp[1]; if (room >= 0) { signal(SIGXFSZ, SIG_IGN); struct rlimit rl = {(rlim_t)room, (rlim_t)room}; if (setrlimit(RLIMIT_FSIZE, &rl)) _exit(126); } dup2(i, 0); dup2(o, 1); dup2(o, 2); for (int f = 3; f < 64; f++) close(f); if (chdir(cwd.c_str())) _exit(126); execv(exe.c_str(), av.data()); _exit(127); }
  Ran r; struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0); int st = 0; long us = 500;
  for (;;) {
    pid_t w = waitpid(p, &st, WNOHANG); if (w == p) break; clock_gettime(CLOCK_MONOTONIC, &t); struct stat sb; bool flood = room < 0 && stat(log.c_str(), &sb) == 0 && sb.st_size > (64 << 20);
    if ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 > limit || flood) { kill(p, SIGKILL); waitpid(p, &st, 0); r.timeout = true; break; } usleep((useconds_t)us); if (us < 5000) us += us / 2;
  }
  r.code = r.timeout ? -1 : WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); if (room >= 0) { char b[65536]; ssize_t k; while ((k = read(pp[0], b, sizeof b)) > 0) r.out.append(b, (size_t)k); close(pp[0]); close(pp[1]); return r; } std::ifstream i(log, std::ios::binary); r.out.resize(1 << 20); i.read(&r.out[0], 1 << 20); r.out.resize((size_t)i.gcount()); return r;
}
inline void require_ok(const Ran& r, const std::string& tool) { REQUIRE(!r.timeout, tool << " does not end: " << r.tail()); REQUIRE(r.code == 0, tool << " ends with " << r.code << ": " << r.tail()); }
inline void require_refused(const Ran& r, const std::string& tool) { REQUIRE(!r.timeout, tool << " does not end: " << r.tail()); REQUIRE(r.out.find("AddressSanitizer: heap") == std::string::npos && r.out.find("AddressSanitizer: stack") == std::string::npos && r.out.find("AddressSanitizer: SEGV") == std::string::npos && r.out.find("runtime error") == std::string::npos, tool << " breaks: " << r.tail()); }
// the tensors of an uncompressed stream
inline std::vector<Arr> parse_stream(const std::string& f, const std::string& what) {
  std::vector<Arr> v; size_t p = 0; while (p < f.size()) { REQUIRE(f.size() - p >= 32, what << ": incomplete header at " << p); uint64_t h[4]; memcpy(h, f.data() + p, 32); p += 32; REQUIRE(h[0] < 1000000 && h[1] < 1000000 && h[2] < 1000000 && h[3] < 1000000, what << ": header at " << p - 32); size_t n = h[0] * h[1] * h[2] * h[3]; REQUIRE((f.size() - p) / 4 >= n, what << ": incomplete tensor at " << p); Arr a(h[0], h[1], h[2], h[3]); if (n) memcpy(a.d.data(), f.data() + p, n * 4); p += n * 4; v.push_back(a); }
  return v;
}
}  // namespace cn
