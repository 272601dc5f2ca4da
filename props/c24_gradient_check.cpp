// C24: the gradient check counts every tested weight in the right class, fails exactly if it should, and leaves the network as it was.
#include "cn.h"
#include "GradientTester.h"
#include "LossFunctionLayer.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

// the loss is the sum of c*w + d*w*w over all weights; the delivered gradient is the true one divided by a ratio
struct Weight { float w, c, d; double ratio; int kind; double slope() const { return c + 2.0 * d * w; } float delta() const { if (kind == 3) return slope() == 0 ? 1.f : 0.f; return (float)(slope() / ratio); } };
struct WLayer : Conv::Layer {
  std::vector<std::vector<Weight>> sets; bool unsafe; bool delivered = false;
  WLayer(std::vector<std::vector<Weight>> s, bool u) : Conv::Layer(""), sets(std::move(s)), unsafe(u) { for (auto& v : sets) { auto* t = new CombinedTensor(1, v.size(), 1, 1); for (size_t e = 0; e < v.size(); e++) t->data[e] = v[e].w; t->delta.Clear(1e9); parameters_.push_back(t); } }
  ~WLayer() { for (auto* p : parameters_) delete p; }
  bool CreateOutputs(const CTV&, CTV& o) override { o.push_back(new CombinedTensor(1, 1, 1, 1)); return true; }
  bool Connect(const CTV&, const CTV&, const Conv::NetStatus*) override { return true; }
  void CreateBufferDescriptors(std::vector<Conv::NetGraphBuffer>& b) override { b.push_back(Conv::NetGraphBuffer()); }
  void FeedForward() override {}
  void BackPropagate() override { for (size_t p = 0; p < sets.size(); p++) for (size_t e = 0; e < sets[p].size(); e++) parameters_[p]->delta[e] = sets[p][e].delta(); delivered = true; }
  bool IsNotGradientSafe() override { return unsafe; }
  double loss() const { double l = 0; for (size_t p = 0; p < sets.size(); p++) for (size_t e = 0; e < sets[p].size(); e++) { double w = parameters_[p]->data.data_ptr_const()[e]; l += w * (sets[p][e].c + sets[p][e].d * w); } return l; }
};
struct WLoss : Conv::Layer, Conv::LossFunctionLayer {
  std::vector<WLayer*> of; double share; datum value = 0;
  WLoss(std::vector<WLayer*> o, double s) : Conv::Layer(""), of(o), share(s) {}
  bool CreateOutputs(const CTV&, CTV&) override { return true; }
  bool Connect(const CTV&, const CTV&, const Conv::NetStatus*) override { return true; }
  void FeedForward() override { double l = 0; for (auto* q : of) l += q->loss(); value = (datum)(l * share); }
  void BackPropagate() override {}
  datum CalculateLossFunction() override { return value; }
};
// kind: 0 okay, 1 tolerable, 2 failed, 3 failed with a zero on one side, 4 both zero
static Weight gen_weight(G& g, bool quadratic, int worst) {
  Weight x; x.w = (float)((int)g.below(65) - 32) / 32; x.kind = worst == 0 ? (g.chance(1, 6) ? 4 : 0) : worst == 1 ? (int)g.weighted({3, 1}) : (int)g.weighted({6, 2, 2, 1, 1});
  x.c = (float)(1 + g.below(8)) / 4 * (g.coin() ? 1 : -1); x.d = 0; if (quadratic && g.coin()) { x.d = (float)((int)g.below(9) - 4) / 8; if (std::fabs(x.slope()) < 0.25) x.d = 0; }
  x.ratio = x.kind == 0 ? g.pick<double>({1, 1, 1.01, 0.99}) : x.kind == 1 ? g.pick<double>({1.05, 0.95, 1.15, 0.85, 1.19, 0.81}) : g.pick<double>({1.22, 0.78, 2, 0.5, -1, 10});
  if (x.kind == 4 || (x.kind == 3 && g.coin())) x.c = x.d = 0; if (x.kind == 4) x.ratio = 1; return x;
}
static std::string show(int k) { return std::string(1, "otfz0"[k]); }
static long number_before(const std::string& t, const std::string& word, long& of) { size_t e = t.find(word); REQUIRE(e != std::string::npos, "nothing is said about gradients " << word << ": " << t); size_t b = t.rfind("---", e); REQUIRE(b != std::string::npos, "unexpected text " << t); long n = -1; of = -1; std::istringstream f(t.substr(b + 3)); std::string w; f >> n >> w >> of; return n; }

FACET(network, 6000, 100000, "several classes of gradients occur and some weights are skipped") {
  size_t L = 1 + g.below(4); unsigned skip = g.chance(1, 2) ? 0 : (unsigned)g.below(4); bool fatal = g.coin(); int worst = (int)g.below(3); size_t losses = 1 + g.below(2), tip = 0; std::vector<WLayer*> l; std::vector<std::vector<std::vector<float>>> before;
  long want[3] = {0, 0, 0}, total = 0; size_t skipped = 0; g.note() << "skip " << skip << (fatal ? " fatal" : "") << " losses " << losses;
  for (size_t k = 0; k < L; k++) {
    std::vector<std::vector<Weight>> sets(g.below(3)); bool unsafe = g.chance(1, 5); g.note() << " | " << (unsafe ? "not tested:" : ""); before.emplace_back();
    for (auto& v : sets) { size_t n = 1 + g.below(6); g.note() << " ["; before.back().emplace_back(); for (size_t e = 0; e < n; e++) { v.push_back(gen_weight(g, true, worst)); g.note() << show(v.back().kind); before.back().back().push_back(v.back().w); if (unsafe) continue; if (e % (skip + 1)) { skipped++; continue; } total++; want[v.back().kind == 4 ? 0 : std::min(2, v.back().kind)]++; } g.note() << "]"; }
    l.push_back(new WLayer(sets, unsafe));
  }
  Conv::NetGraph graph; std::vector<Conv::NetGraphNode*> n; struct Src : WLayer { Src() : WLayer({}, false) {} }; n.push_back(new Conv::NetGraphNode(new Src)); n[0]->is_input = true;
  for (auto* q : l) n.push_back(new Conv::NetGraphNode(q, Conv::NetGraphConnection(n.back(), 0, true))); n.back()->is_output = true; tip = n.size() - 1;
  for (size_t k = 0; k < losses; k++) n.push_back(new Conv::NetGraphNode(new WLoss(l, losses == 1 ? 1 : k ? 0.75 : 0.25), Conv::NetGraphConnection(n[tip], 0, k == 0)));
  for (auto* q : n) graph.AddNode(q); graph.Initialize();
  std::ostringstream o; std::streambuf *oc = std::cout.rdbuf(o.rdbuf()), *oe; std::ostringstream err; oe = std::cerr.rdbuf(err.rdbuf()); bool threw = false; try { Conv::GradientTester::TestGradient(graph, skip, fatal); } catch (const std::runtime_error&) { threw = true; } std::cout.rdbuf(oc); std::cerr.rdbuf(oe);
  std::string t = o.str(); const char* N[3] = {"okay", "tolerable", "failed"}; for (int k = 0; k < 3; k++) { long of, got = number_before(t, std::string("tested gradients ") + N[k], of); REQUIRE(got == want[k] && of == total, got << " of " << of << " gradients are counted as " << N[k] << ", expected " << want[k] << " of " << total); }
  REQUIRE(threw == (fatal && want[2] > 0), (threw ? "the check failed" : "the check passed") << " with " << want[2] << " bad gradients");
  for (size_t k = 0; k < L; k++) for (size_t p = 0; p < before[k].size(); p++) REQUIRE(same_bits(l[k]->parameters()[p]->data.data_ptr_const(), before[k][p].data(), before[k][p].size()), "the check changed the weights of layer " << k);
  if (skipped && (want[0] > 0) + (want[1] > 0) + (want[2] > 0) > 1) g.nontrivial(); if (threw) g.label("check failed");
  CTV bufs; for (auto* q : graph.GetNodes()) { for (auto& b : q->output_buffers) bufs.push_back(b.combined_tensor); } for (auto* q : graph.GetNodes()) { delete q->layer; delete q; } for (auto* b : bufs) delete b;
}

static WLayer* g_layer;
FACET(layer, 6000, 100000, "both good and bad gradients") {
  size_t n = 1 + g.below(30), good = 0; std::vector<Weight> v; int worst = (int)g.below(3); std::string what; for (size_t e = 0; e < n; e++) { v.push_back(gen_weight(g, true, worst)); if (worst == 2 && v.back().kind >= 2 && v.back().kind < 4 && g.chance(2, 3)) v.back() = gen_weight(g, true, 1); good += v.back().kind < 2 || v.back().kind == 4; what += show(v.back().kind); }
  bool unsafe = g.chance(1, 8); std::vector<float> before; for (auto& x : v) before.push_back(x.w); std::unique_ptr<WLayer> l(new WLayer({v}, unsafe)); g_layer = l.get(); CTV out; CombinedTensor* p = l->parameters()[0]; g.note() << what << (unsafe ? " not gradient safe" : "");
  double rate = (double)good / n; g.assume(std::fabs(rate - 0.85) > 1e-6); if (good && good < n) g.nontrivial(); bool want = unsafe || good == n || rate > 0.85; g.label(want ? "accepted" : "rejected");
  std::ostringstream err; std::streambuf* oe = std::cerr.rdbuf(err.rdbuf()); bool got = Conv::GradientTester::DoGradientTest(l.get(), p->data, p->delta, out, 0.005f, [](const CTV&) {}, [](Conv::Layer* q, const CTV&) -> datum { return (datum) static_cast<WLayer*>(q)->loss(); }); std::cerr.rdbuf(oe);
  REQUIRE(got == want, (got ? "accepted" : "rejected") << " with " << good << " of " << n << " gradients in order"); REQUIRE(same_bits(p->data.data_ptr_const(), before.data(), n), "the check changed the weights");
}
