// C18: statistics record exactly the updates made while recording.
#include "stats.h"
#include "CSVStatSink.h"
#include "NetStatus.h"
#include <dirent.h>
#include <chrono>
using namespace cn;
using Conv::Stat; using Conv::StatDescriptor; using Conv::HardcodedStats;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

// what a statistic is made of
struct Def { int kind; bool is_static; };
static StatDescriptor* make(int kind, const std::string& name) {
  auto* d = new StatDescriptor; d->description = name; d->unit = "u"; d->nullable = true; d->init_function = [](Stat& s) { s.is_null = true; s.value = 0; };
  switch (kind) {
    case 0: d->update_function = [](Stat& s, double v) { s.is_null = false; s.value = v; }; break;          // the last one
    case 1: d->update_function = [](Stat& s, double v) { s.is_null = false; s.value += v; }; break;         // the sum
    case 2: d->update_function = [](Stat& s, double v) { s.is_null = false; s.value = std::fmod(s.value * 3 + v, 1000003.0); }; break;  // the order
    case 3: d->update_function = [](Stat& s, double v) { (void)v; s.is_null = false; s.value += 1; }; d->output_function = [](HardcodedStats&, Stat& s) -> Stat { Stat r = s; r.value = 2 * s.value + 1; return r; }; break;  // the number, converted
    default: d->init_function = [](Stat& s) { s.is_null = false; s.value = -7; }; d->update_function = [](Stat& s, double v) { s.value = std::max(s.value, v); };  // the largest, never absent
  }
  return d;
}
static Stat expect(int kind, const std::vector<double>& u) {
  Stat s; s.is_null = u.empty() && kind < 4; s.value = kind == 4 ? -7 : 0;
  for (double v : u) switch (kind) { case 0: s.value = v; break; case 1: s.value += v; break; case 2: s.value = std::fmod(s.value * 3 + v, 1000003.0); break; case 3: s.value += 1; break; default: s.value = std::max(s.value, v); }
  if (kind == 3) s.value = 2 * s.value + 1; return s;
}
static double any_value(G& g) { switch (g.below(6)) { case 0: return (double)g.below(10); case 1: return -(double)g.below(1000) / 8; case 2: return (double)g.below(1000000) / 3; case 3: return 1e-9 * (double)(1 + g.below(1000)) / 7; case 4: return 1e12 * (double)g.below(1000) / 7; default: return (double)g.below(100) / 100; } }

FACET(history, 10000, 200000, "updates were made while recording and while not, over several reports") {
  auto& agg = fresh_aggregator(); size_t n = g.chance(1, 6) ? 5 + g.below(25) : g.below(5); std::vector<int> kinds; std::vector<StatDescriptor*> desc; std::vector<std::vector<double>> rec; KeepSink s[4]; size_t sinks = g.below(3) + g.chance(1, 10), known = 0; for (size_t k = 0; k < sinks; k++) REQUIRE(agg.RegisterSink(&s[k]) == k, "sink number");
  auto add = [&]() { int kind = (int)g.below(5); kinds.push_back(kind); desc.push_back(make(kind, "stat" + std::to_string(kinds.size()))); rec.emplace_back(); unsigned id = agg.RegisterStat(desc.back()); REQUIRE(id == kinds.size() - 1 && desc.back()->stat_id == id, "statistic number " << kinds.size() - 1 << " is registered as " << id); };
  for (size_t k = 0; k < n; k++) add(); int state = -1; size_t reports = 0, in = 0, out = 0; std::string exp = "unnamed"; size_t exps = 0; bool elapsed = false; g.note() << n << " statistics, " << sinks << " sinks:";
  size_t ops = 4 + g.below(40); bool init_early = g.chance(4, 5); using Clock = std::chrono::system_clock; Clock::time_point s0, s1; double lo = 0, hi = 0, lo1 = 0, hi1 = 0; auto secs = [](Clock::time_point a, Clock::time_point b) { return std::chrono::duration<double>(b - a).count(); };
  for (size_t q = 0; q < ops; q++) {
    size_t op = q == 0 && init_early ? 6 : g.weighted({8, 3, 3, 2, 2, 3, 1, 1, 1}); size_t before = reports; bool snap = false; Clock::time_point a = Clock::now();
    switch (op) {
      case 0: { unsigned id = (unsigned)g.below(kinds.size() + 1); double v = any_value(g); if (g.chance(1, 40)) id = UINT_MAX; g.note() << " u" << id; agg.Update(id, v); if (id < kinds.size()) { if (state == 1) { rec[id].push_back(v); in++; } else out++; } break; }
      case 1: g.note() << " start"; agg.StartRecording(); if (state == 0) { state = 1; s0 = a; s1 = Clock::now(); } break;
      case 2: g.note() << " stop"; agg.StopRecording(); if (state == 1) { state = 0; elapsed = true; lo += secs(s1, a); hi += secs(s0, Clock::now()); } break;
      case 3: g.note() << " reset"; agg.Reset(); if (state == 0) { for (auto& r : rec) r.clear(); elapsed = false; lo = hi = 0; } break;
      case 4: g.note() << " snapshot"; agg.Snapshot(); if (state == 1) { reports++; snap = true; elapsed = true; Clock::time_point b = Clock::now(); lo1 = lo + secs(s1, a); hi1 = hi + secs(s0, b); } break;
      case 5: g.note() << " generate"; agg.Generate(); if (state >= 0) { reports++; lo1 = lo; hi1 = hi; } break;
      case 6: g.note() << " initialize"; agg.Initialize(); if (state < 0) { state = 0; known = kinds.size(); exps++; for (size_t k = 0; k < sinks; k++) { REQUIRE(s[k].inits == 1 && s[k].desc == desc, "sink " << k << " was not told about the statistics"); } } break;
      case 7: if (kinds.size() < 40) { g.note() << " register"; add(); } break;
      default: { std::string e = "exp" + std::to_string(g.below(100)); g.note() << " experiment"; agg.SetCurrentExperiment(e); if (state == 0) { exps++; for (size_t k = 0; k < sinks; k++) REQUIRE(!s[k].experiments.empty() && s[k].experiments.back() == e, "sink " << k << " was not told about the experiment"); } } }
    for (size_t k = 0; k < sinks; k++) {
      REQUIRE(s[k].reports.size() == reports, "sink " << k << " received " << s[k].reports.size() << " reports, expected " << reports); REQUIRE(s[k].inits == (state >= 0), "sink " << k << " was initialized " << s[k].inits << " times"); REQUIRE(s[k].experiments.size() == exps, "sink " << k << " was told about " << s[k].experiments.size() << " experiments, expected " << exps);
      if (reports == before) continue; auto& r = s[k].reports.back(); REQUIRE(r.stats.size() == kinds.size(), "a report of " << r.stats.size() << " statistics"); REQUIRE(r.hc.seconds_elapsed >= lo1 - 1e-4 && r.hc.seconds_elapsed <= hi1 + 1e-4, "a report says that recording took " << r.hc.seconds_elapsed << " s, it took between " << lo1 << " and " << hi1 << " s"); REQUIRE(elapsed ? r.hc.seconds_elapsed >= 0 : r.hc.seconds_elapsed == 0, "elapsed time " << r.hc.seconds_elapsed);
      for (size_t i = 0; i < kinds.size(); i++) { Stat e = expect(kinds[i], rec[i]); REQUIRE(r.stats[i].is_null == e.is_null && (e.is_null || r.stats[i].value == e.value), "statistic " << i << " is reported as " << (r.stats[i].is_null ? std::string("absent") : std::to_string(r.stats[i].value)) << ", expected " << (e.is_null ? std::string("absent") : std::to_string(e.value))); }
    }
    if (reports > 1 && in && out && sinks) g.nontrivial(); if (snap) { for (auto& r : rec) r.clear(); elapsed = false; lo = hi = 0; s0 = a; s1 = Clock::now(); }
  }
  for (auto* d : desc) d->init_function = [](Stat&) {}; (void)known;
}
// ---- the CSV log -----------------------------------------------------------------
static std::vector<std::string> split(const std::string& l) { std::vector<std::string> v(1); for (char c : l) if (c == ',') v.emplace_back(); else v.back() += c; return v; }
static bool number(const std::string& s, double& v) { char* e = nullptr; v = strtod(s.c_str(), &e); return !s.empty() && *e == 0; }
struct Row { bool training; std::vector<Stat> v; bool timed; };
static void check_csv(const std::string& file, const std::vector<std::string>& cols, const std::vector<Row>& rows, const std::string& what) {
  std::ifstream in(file); REQUIRE(in.good(), what << ": there is no file"); std::string all((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); std::vector<std::string> lines; std::istringstream ls(all); for (std::string l; std::getline(ls, l);) lines.push_back(l); REQUIRE(lines.size() == rows.size() + 1, what << ": " << lines.size() << " lines for " << rows.size() << " reports"); REQUIRE(all.back() == '\n', what << ": the last line is incomplete");
  auto head = split(lines[0]); std::vector<std::string> want = {"IsTraining", "Epoch", "Iterations", "SecondsElapsed"}; want.insert(want.end(), cols.begin(), cols.end()); if (cols.empty()) want.push_back(""); REQUIRE(head == want, what << ": the header is " << lines[0]);
  for (size_t k = 0; k < rows.size(); k++) { auto f = split(lines[k + 1]); REQUIRE(f.size() == want.size(), what << ": row " << k << " has " << f.size() << " columns, the header has " << want.size() << ": " << lines[k + 1]); REQUIRE(f[0] == (rows[k].training ? "1" : "0"), what << ": row " << k << ": " << lines[k + 1]); double sec; REQUIRE(number(f[3], sec) && (rows[k].timed ? sec >= 0 : sec == 0), what << ": row " << k << " elapsed " << f[3]); for (size_t i = 0; i < cols.size(); i++) { auto& c = f[4 + i]; if (rows[k].v[i].is_null) { REQUIRE(c.empty(), what << ": row " << k << " has '" << c << "' for a statistic that was not updated"); continue; } double v; REQUIRE(number(c, v) && std::fabs(v - rows[k].v[i].value) <= 1e-15 * std::fabs(rows[k].v[i].value) * 1.2, what << ": row " << k << " has '" << c << "' for " << std::to_string(rows[k].v[i].value)); } }
}
FACET(csv, 5000, 80000, "some experiment has several rows, there is an absent value and a present one, and the experiment was changed") {
  std::string dir = tmpfile("csv"), old; { char b[4096]; old = getcwd(b, sizeof b) ? b : "/"; } mkdir(dir.c_str(), 0700); bool nodir = g.chance(1, 20); if (!nodir) mkdir((dir + "/csv").c_str(), 0700); REQUIRE(chdir(dir.c_str()) == 0, "harness"); struct Back { std::string o, d; ~Back() { (void)!chdir(o.c_str()); if (DIR* p = opendir((d + "/csv").c_str())) { while (auto* e = readdir(p)) unlink((d + "/csv/" + e->d_name).c_str()); closedir(p); } rmdir((d + "/csv").c_str()); rmdir(d.c_str()); } } back{old, dir};
  auto& agg = fresh_aggregator(); Conv::CSVStatSink csv; KeepSink keep; bool order = g.coin(); if (order) agg.RegisterSink(&csv); agg.RegisterSink(&keep); if (!order) agg.RegisterSink(&csv); size_t n = g.chance(1, 5) ? 5 + g.below(20) : g.below(5); std::vector<std::string> cols; std::vector<StatDescriptor*> desc;
  for (size_t k = 0; k < n; k++) { std::string name = g.pick<std::string>({"Loss", "F1 Value", "a,b", "x-y (z)", "Rate\n", "\"q\"", "%", "a_b", "u+v.w:/"}) + std::to_string(k), c; for (char ch : name) if (isalnum((unsigned char)ch)) c += ch; cols.push_back(c); desc.push_back(make((int)g.below(3), name)); agg.RegisterStat(desc.back()); }
  Conv::NetStatus net; bool training = false; std::map<std::string, std::vector<Row>> files; std::string cur = "unnamed"; bool rec = false, timed = false, absent = false; g.note() << n << " statistics" << (nodir ? ", no directory" : "") << ":"; agg.Initialize(); files[cur]; size_t ops = 3 + g.below(45), switched = 0; bool present = false;
  for (size_t q = 0; q < ops; q++) switch (g.weighted({8, 3, 3, 2, 4, 3, 2, 1})) {
    case 0: if (n) { unsigned id = (unsigned)g.below(n); double v = any_value(g); g.note() << " u" << id; agg.Update(id, v); } break;
    case 1: g.note() << " start"; agg.StartRecording(); rec = true; break;
    case 2: g.note() << " stop"; agg.StopRecording(); timed |= rec; rec = false; break;
    case 3: g.note() << " reset"; agg.Reset(); if (!rec) timed = false; break;
    case 4: { g.note() << " generate"; agg.Generate(); Row r; r.training = training; r.timed = timed; r.v = keep.reports.back().stats; for (auto& s : r.v) (s.is_null ? absent : present) = true; files[cur].push_back(r); break; }
    case 5: if (rec) { g.note() << " snapshot"; agg.Snapshot(); Row r; r.training = training; r.timed = true; r.v = keep.reports.back().stats; for (auto& s : r.v) (s.is_null ? absent : present) = true; files[cur].push_back(r); timed = false; } break;
    case 6: { std::string e = g.pick<std::string>({"a", "b", "run 2", "unnamed"}); g.note() << " experiment " << e; agg.SetCurrentExperiment(e); if (!rec) { switched += cur != e; cur = e; files[e].clear(); } break; }
    default: training = g.coin(); net.SetIsTesting(!training); g.note() << (training ? " training" : " testing"); }
  size_t big = 0; for (auto& f : files) big += f.second.size() > 1; if (big && absent && present && switched) g.nontrivial(); if (nodir) { struct stat sb; REQUIRE(stat((dir + "/csv").c_str(), &sb) != 0, "a directory appeared"); return; }
  for (auto& f : files) check_csv(dir + "/csv/" + f.first + ".csv", cols, f.second, f.first);
}
