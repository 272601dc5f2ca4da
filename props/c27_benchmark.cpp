// C27: the benchmark runs the network it was given, on the number of images it says, and its throughput is what was processed per second.
#include "netdesc.h"
#include "stats.h"
#include "tools.h"
#include "StatAggregator.h"
#include "ConsoleStatSink.h"
#include "GradientTester.h"
#include "NetGraph.h"
#include "NetGraphNode.h"
#include "StatLayer.h"
#include <chrono>
#include <iomanip>

// What the program does with its network is recorded: the passes made while the statistics record are counted by a statistic of the check's own.
struct Bench {
  struct Phase { double fwd = 0, bwd = 0, samples = 0; bool testing_fwd = true, training_fwd = true; } now; std::vector<Phase> phases;
  bool recording = false; size_t evaluate = 0; std::string problem; Conv::StatDescriptor probe; bool probed = false; const Conv::Tensor* data = nullptr; Conv::NetGraph* graph = nullptr;
  size_t checks = 0; bool check_fatal = false, check_graph = false; size_t params = 0; std::vector<std::string> layers; size_t inputs = 0, outputs = 0; uint64_t data_hash = 0; bool in_range = true, varied = false; cn::Dim dim; double slow = 0; bool extra_passes = false;
};
static Bench B;
namespace Conv {
struct CountingGraph : NetGraph {
  void look() {
    B.graph = this; std::vector<NetGraphNode*> in; for (auto* n : GetNodes()) if (n->is_input) in.push_back(n);
    if (in.size() != 1 || in[0]->output_buffers.empty() || !in[0]->output_buffers[0].combined_tensor) { B.problem = "the network has no input"; return; }
    Tensor& t = in[0]->output_buffers[0].combined_tensor->data; B.dim = cn::Dim{t.samples(), t.width(), t.height(), t.maps()};
    if (!B.probed) { B.probed = true; for (auto* n : GetNodes()) B.layers.push_back(n->layer->GetLayerDescription()); float lo = 1e9f, hi = -1e9f; for (size_t e = 0; e < t.elements(); e++) { float v = t.data_ptr_const()[e]; if (!(v >= 0 && v <= 1)) B.in_range = false; lo = std::min(lo, v); hi = std::max(hi, v); } B.varied = hi - lo > 0.5f;
      B.probe.nullable = false; B.probe.description = "passes"; B.probe.unit = ""; B.probe.init_function = [](Stat& s) { s.is_null = false; s.value = 0; B.now = Bench::Phase(); }; B.probe.output_function = [](HardcodedStats&, Stat& s) { return s; };
      B.probe.update_function = [](Stat& s, double v) { s.value += v; B.recording = true; }; System::stat_aggregator->RegisterStat(&B.probe); }
  }
  bool rec() { B.recording = false; System::stat_aggregator->Update(B.probe.stat_id, 1); return B.recording; }
  bool real() { if (!B.evaluate) return false; B.evaluate--; return true; }
  void pause() { if (B.slow > 0) usleep((useconds_t)(B.slow * 1e6)); }
  void FeedForward() { look(); if (rec()) { B.now.fwd++; B.now.samples += (double)B.dim.s; (IsTesting() ? B.now.training_fwd : B.now.testing_fwd) = false; pause(); } if (real()) NetGraph::FeedForward(); }
  void FeedForward(std::vector<NetGraphNode*>& n, bool c = true) { look(); if (rec()) B.extra_passes = true; NetGraph::FeedForward(n, c); }
  void BackPropagate() { look(); if (rec()) { B.now.bwd++; pause(); } if (real()) NetGraph::BackPropagate(); }
  void BackPropagate(std::vector<NetGraphNode*>& n, bool c = true) { look(); if (rec()) B.extra_passes = true; NetGraph::BackPropagate(n, c); }
};
static std::vector<cn::Report> g_reports; static std::vector<std::string> g_desc;
struct RecordingSink : ConsoleStatSink {
  void Initialize(std::vector<StatDescriptor*>& d) override { for (auto* q : d) g_desc.push_back(q->description); ConsoleStatSink::Initialize(d); }
  void Process(HardcodedStats& h, std::vector<Stat*>& s) override { cn::Report r; r.hc = h; for (auto* x : s) r.stats.push_back(*x); g_reports.push_back(r); B.phases.push_back(B.now); ConsoleStatSink::Process(h, s); }
};
struct RecordingTester { static void TestGradient(NetGraph& g, unsigned int = 0, bool fatal = false) { B.checks++; B.check_fatal = fatal; B.check_graph = &g == B.graph; } };
}
#define main benchmark_main
#define NetGraph CountingGraph
#define ConsoleStatSink RecordingSink
#define GradientTester RecordingTester
#include "tools/runBenchmark.cpp"
#undef main
#undef NetGraph
#undef ConsoleStatSink
#undef GradientTester
using namespace cn;
void pbt::setup_process() {}
void pbt::setup_case() {}

struct Out { int rc = 0; bool refused = false; std::string text; double seconds = 0; };
static Out run(std::vector<std::string> args) {
  args.insert(args.begin(), "runBenchmark"); std::vector<char*> av; for (auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
  std::ostringstream o, e; auto *oo = std::cout.rdbuf(o.rdbuf()), *oe = std::cerr.rdbuf(e.rdbuf()); Out r; auto t0 = std::chrono::steady_clock::now();
  try { r.rc = benchmark_main((int)args.size(), av.data()); } catch (const std::runtime_error&) { r.refused = true; } catch (...) { std::cout.rdbuf(oo); std::cerr.rdbuf(oe); throw; }
  r.seconds = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); std::cout.rdbuf(oo); std::cerr.rdbuf(oe); r.text = o.str() + e.str(); return r;
}
static double printed(const std::string& t, const std::string& what) { size_t p = t.find(what); REQUIRE(p != std::string::npos, "nothing is said about \"" << what << "\": " << t); p = t.find(':', p); REQUIRE(p != std::string::npos, "no value of " << what); return strtod(t.c_str() + p + 1, nullptr); }
static void judge(const Out& r, size_t samples, size_t size, bool ci) {
  REQUIRE(!r.refused && r.rc == 0, "the benchmark ended with an error: " << r.text); REQUIRE(B.problem.empty(), B.problem); REQUIRE(!B.extra_passes, "part of the network is evaluated on its own");
  REQUIRE(B.dim.s == samples && B.dim.w == size && B.dim.h == size && B.dim.m == 3, "the input is " << B.dim.s << " images of " << B.dim.w << "x" << B.dim.h << "x" << B.dim.m << ", the description asks for " << samples << " of " << size << "x" << size); REQUIRE(B.in_range && B.varied, "the input is not random values between 0 and 1");
  REQUIRE(printed(r.text, "Parallel inputs") == (double)samples && printed(r.text, "Input width") == (double)size && printed(r.text, "Input height") == (double)size, "the printed size is not " << samples << " images of " << size << ": " << r.text);
  REQUIRE(Conv::g_reports.size() == 2 && B.phases.size() == 2, Conv::g_reports.size() << " reports"); size_t at = 0; for (size_t k = 0; k < 2; k++) {
    auto& ph = B.phases[k]; auto& rep = Conv::g_reports[k]; const Conv::Stat* st = nullptr; for (size_t q = 0; q < Conv::g_desc.size() && q < rep.stats.size(); q++) if (Conv::g_desc[q] == "Throughput") st = &rep.stats[q]; REQUIRE(st && !st->is_null, "report " << k << " has no throughput");
    REQUIRE(ph.fwd >= 1, "no pass is made while recording"); REQUIRE(k ? ph.bwd == ph.fwd : ph.bwd == 0, ph.fwd << " forward and " << ph.bwd << " backward passes are measured in report " << k); REQUIRE(k ? ph.training_fwd : ph.testing_fwd, "report " << k << " measures the wrong mode");
    double frames = st->value * rep.hc.seconds_elapsed; REQUIRE(std::fabs(frames - ph.samples) <= 1e-9 * ph.samples, "report " << k << ": the throughput is that of " << frames << " images, " << ph.samples << " were processed in " << rep.hc.seconds_elapsed << " seconds");
    double least = B.slow * (ph.fwd + ph.bwd); REQUIRE(rep.hc.seconds_elapsed >= least * 0.99 && rep.hc.seconds_elapsed <= r.seconds + 0.001, "report " << k << ": " << rep.hc.seconds_elapsed << " seconds are measured, the passes take at least " << least << " and the program " << r.seconds);
    at = r.text.find("Throughput: ", at); REQUIRE(at != std::string::npos, "the throughput is not printed: " << r.text); double v = strtod(r.text.c_str() + at + 11, nullptr); REQUIRE(std::fabs(v - st->value) <= 1e-4 * std::fabs(st->value), "printed throughput " << v << ", measured " << st->value); at++;
  }
  REQUIRE(B.checks == 1 && B.check_fatal && B.check_graph, "the gradients of the network are not checked once, with errors ending the program"); (void)ci;
}
static std::vector<std::string> names(Conv::NetGraph& g) { std::vector<std::string> v; for (auto* n : g.GetNodes()) v.push_back(n->layer->GetLayerDescription()); return v; }

FACET_ISOLATED(description, 150, 1500, "more than one image at a time") {
  NGen c; c.maxops = 5; c.maxrf = 8; c.maxfactor = 4; c.plain = true; c.prior = false; c.hmax = false; NDesc n = gen_netdesc(g, c); g.assume(n.channels == 3 && 512 % n.fx == 0 && 512 % n.fy == 0);
  size_t p = 1 + g.small(0, 4); std::vector<std::string> extra; bool given = g.chance(5, 6); if (given) extra.push_back("pbatchsize=" + std::to_string(p)); else p = 1; if (g.coin()) extra.push_back("sbatchsize=" + std::to_string(1 + g.below(20))); if (g.chance(1, 4)) extra.push_back("#pbatchsize=7"); if (g.chance(1, 4)) extra.push_back("iterations=" + std::to_string(g.below(9)));
  n.classes = 10; render_all(g, n, extra); B.slow = g.chance(1, 3) ? 0.001 : 0; g.note() << n.text << (B.slow ? "slow passes" : ""); if (p > 1) g.nontrivial(); Dir d("bench"); write_file(d / "n.net", n.text);
  bool valid = true; for (auto& o : n.ops) if (o.k == NOp::CONV && o.gr > 1) valid = false; g.assume(valid);
  Out r = run({d / "n.net"}); judge(r, p, 512, false);
  // the same network as the one the description stands for
  Conv::System::log_level = 0; std::vector<std::string> got = B.layers; FNet ref; ref.build(n, 238238, false, 1, 512, 512, false); std::vector<std::string> want = names(ref.graph); REQUIRE(got.size() == want.size(), "the network has " << got.size() << " nodes, expected " << want.size());
  for (size_t k = 1; k < got.size(); k++) REQUIRE(got[k] == want[k], "node " << k << " is \"" << got[k] << "\", expected \"" << want[k] << "\"");
}

FACET_ISOLATED(hardcoded, 4, 8, "always") { bool ci = g.coin(); std::string a = ci ? g.pick<std::string>({"--ci", "--ci=1"}) : ""; g.note() << "argument \"" << a << "\""; g.nontrivial(); if (ci) B.evaluate = 1 + g.below(4); Out r = run(ci ? std::vector<std::string>{a} : std::vector<std::string>{}); judge(r, 2, ci ? 64 : 512, ci); }

FACET_ISOLATED(refused, 40, 200, "always") {
  NGen c; c.maxops = 4; c.maxrf = 6; c.maxfactor = 4; c.plain = true; c.prior = false; NDesc n = gen_netdesc(g, c); g.assume(n.channels == 3); n.classes = 10; Dir d("bench"); g.nontrivial(); std::string path = d / "n.net";
  if (g.coin()) { std::vector<NOp> o; for (auto& q : n.ops) if (q.k != NOp::OUTPUT && !q.is_output) o.push_back(q); n.ops = o; render_all(g, n); write_file(path, n.text); g.note() << "no output\n" << n.text; } else { g.note() << "no file"; path = d / "m.net"; }
  Out r = run({path}); REQUIRE(r.refused || r.rc != 0, "the benchmark reports success"); REQUIRE(Conv::g_reports.empty(), "a throughput is reported");
}
