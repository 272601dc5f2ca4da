// C11: training follows the documented update rule.
#include "netdesc.h"
#include "dataset.h"
#include "DatasetInputLayer.h"
#include "mocknet.h"
using namespace cn;
using Conv::Trainer; using Conv::TrainerSettings;
void pbt::setup_process() { Conv::System::Init(0); }

void pbt::setup_case() { W = World(); }

static void rule(G& g, bool qp) {
  MockNet net(g); TrainerSettings s = gen_settings(g, qp); s.iterations = (unsigned)g.below(6); s.epoch_training_ratio = g.pick<float>({1.f, 0.5f, 2.f, 0.75f}); s.testing_ratio = g.pick<float>({1.f, 0.5f, 2.f});
  W.seed = g.below(1 << 20); W.zero = (unsigned)g.pick<int>({0, 5, 2}); size_t L = net.layers.size(); bool multi = false;
  g.note() << s << " p" << net.in->p << " label " << net.in->lw << "x" << net.in->lh << " batch " << net.in->batch << " it " << s.iterations << " ratio " << s.epoch_training_ratio << " train " << net.in->ntr << " llr"; for (float f : net.llr) g.note() << " " << f;
  Trainer tr(net.graph, s); Rule r; r.s = s; r.N = (double)net.in->lw * net.in->lh * net.in->batch * s.sbatchsize; r.p = net.in->p; r.qp = qp;
  std::vector<std::vector<Rule::St>> st(L); for (size_t l = 0; l < L; l++) { size_t n = 0; for (size_t q : net.sizes[l]) n += q; st[l].resize(n); }
  unsigned epoch = 0; bool first = true; size_t pass = 0, total_it = 0; int ops = 1 + (int)g.below(6);
  for (int op = 0; op < ops; op++) {
    std::vector<float> before = net.all(); unsigned epochs = 0; W.weights.assign(L, {}); W.forwards[0] = W.forwards[1] = 0; W.is_testing_ok = true; bool via_train = true;
    switch (g.weighted({4, 2, 2, 2, 1, 1})) {
      case 0: { epochs = (unsigned)g.below(3); bool snap = g.coin(); g.note() << "; Train(" << epochs << (snap ? ",snapshots)" : ")"); tr.Train(epochs, snap); break; }
      case 1: epochs = 1; via_train = false; g.note() << "; Epoch"; tr.Epoch(); break;
      case 2: { g.note() << "; Test"; tr.Test(); unsigned it = scaled(net.in->nte / net.in->batch + 1, s.testing_ratio); REQUIRE(W.forwards[1] == it && W.forwards[0] == 0, "testing ran " << W.forwards[1] << " forward passes in testing and " << W.forwards[0] << " in training mode, expected " << it << " and 0"); REQUIRE(W.is_testing_ok, "the network was not in testing mode while testing"); REQUIRE(!W.testing, "input layer was left in testing mode"); REQUIRE(W.passes == pass, "testing back-propagated"); g.label("test"); break; }
      case 3: g.note() << "; Reset"; tr.Reset(); for (auto& v : st) v.assign(v.size(), Rule::St()); first = true; if (total_it) g.label("reset after training"); break;
      case 4: epoch = (unsigned)g.below(100); g.note() << "; SetEpoch(" << epoch << ")"; tr.SetEpoch(epoch); for (auto& v : st) v.assign(v.size(), Rule::St()); first = true; break;
      default: g.note() << "; SetStatsDuringTraining"; tr.SetStatsDuringTraining(g.coin());
    }
    std::vector<float> after = net.all(); REQUIRE(tr.epoch() == epoch + epochs, "epoch is " << tr.epoch() << ", expected " << epoch + epochs);
    if (!epochs) { REQUIRE(same_bits(before.data(), after.data(), after.size()), "weights changed without training"); continue; }
    unsigned its = scaled(s.iterations ? s.iterations : net.in->ntr, s.epoch_training_ratio); size_t passes = (size_t)its * s.sbatchsize * epochs;
    REQUIRE(W.passes - pass == passes && W.forwards[0] == passes && W.forwards[1] == 0, "training ran " << W.passes - pass << " backward, " << W.forwards[0] << " forward passes (" << W.forwards[1] << " in testing mode), expected " << passes);
    if (via_train) REQUIRE(W.is_testing_ok, "the network was in testing mode while training");
    if (its > 1 || epochs > 1) multi = true; size_t base = 0;
    for (size_t l = 0; l < L; l++) {
      size_t n = st[l].size(), e = 0; bool f = first;
      auto at = [&](size_t k, size_t e) -> double { return k * s.sbatchsize < passes ? W.weights[l][k * s.sbatchsize * n + e] : after[base + e]; };  // before iteration k
      if (n) REQUIRE(W.weights[l].size() == passes * n, "layer " << l << " was back-propagated " << W.weights[l].size() / n << " times");
      for (size_t k = 0; k < passes && n; k++) for (size_t e = 0; e < n; e++) { float w = W.weights[l][k * n + e], w0 = W.weights[l][k / s.sbatchsize * s.sbatchsize * n + e]; REQUIRE(memcmp(&w, &w0, 4) == 0, "weight changed within an iteration"); }
      for (size_t p = 0; p < net.sizes[l].size(); p++) for (size_t pe = 0; pe < net.sizes[l][p]; pe++, e++) {
        f = first; if (passes) REQUIRE(at(0, e) == before[base + e], "weight changed before the first iteration");
        for (size_t k = 0; k < passes / s.sbatchsize; k++) {
          double gr = 0; for (size_t b = 0; b < s.sbatchsize; b++) gr += W.grad(l, p, pe, pass + k * s.sbatchsize + b);
          bool amb = false; double err = 0, w = at(k, e), step = r.apply(st[l][e], w, gr, net.llr[l], r.lr((epoch + (unsigned)(k / its)) * its + (unsigned)(k % its)), f, amb, err); f = false; if (amb) throw pbt::Discard();
          double got = at(k + 1, e); REQUIRE(std::fabs(got - (w + step)) <= err + 1.5e-7 * (std::fabs(w) + std::fabs(got) + std::fabs(step)) + 1e-30, "iteration " << k << " of the call changed weight " << e << " of layer " << l << " from " << w << " to " << got << ", expected " << w + step);
        }
      }
      base += n;
    }
    if (passes) first = false; pass += passes; epoch += epochs; total_it += passes;
  }
  if (multi) g.nontrivial();
}
FACET(gradient_descent, 15000, 300000, "more than one iteration in a call") { rule(g, false); }
FACET(quickprop, 15000, 300000, "more than one iteration in a call") { rule(g, true); }

// ---- real networks -------------------------------------------------------------
struct TNet {
  MemDataset& data; std::istringstream file; std::unique_ptr<Conv::ConfigurableFactory> factory; Conv::NetGraph graph; Conv::DatasetInputLayer* in;
  TNet(MemDataset& d, const std::string& text, unsigned seed, unsigned batch, float p) : data(d), file(text) {
    factory.reset(new Conv::ConfigurableFactory(file, seed, true)); in = new Conv::DatasetInputLayer(data, batch, p, seed + 5); auto* n = new Conv::NetGraphNode(in); n->is_input = true; graph.AddNode(n);
    factory->AddLayers(graph, Conv::NetGraphConnection(n, 0), data.cls, true); graph.Initialize(); graph.InitializeWeights(); graph.SetIsTesting(false);
  }
  CTV params() { CTV p; graph.GetParameters(p); return p; }
  std::vector<float> all() { std::vector<float> v; for (auto* p : params()) v.insert(v.end(), p->data.data_ptr_const(), p->data.data_ptr_const() + p->data.elements()); return v; }
  void load(const std::vector<float>& v) { size_t k = 0; for (auto* p : params()) for (size_t e = 0; e < p->data.elements(); e++) p->data[e] = v[k++]; }
  ~TNet() { std::vector<Conv::NetGraphNode*> all = graph.GetNodes(); std::set<CombinedTensor*> t; for (auto* n : all) for (auto& b : n->output_buffers) t.insert(b.combined_tensor); for (auto* n : all) { delete n->layer; delete n; } for (auto* c : t) delete c; }
};
struct Setup { MemDataset data; std::string text; unsigned seed, batch; float p; TrainerSettings s; NDesc desc; };
static std::string oneline(std::string s) { for (auto& c : s) if (c == '\n') c = '|'; return s; }
static void gen_setup(G& g, Setup& u, bool qp) {
  NGen c; c.maxops = 5; c.maxrf = 5; c.maxfactor = 4; c.prior = true; u.desc = gen_netdesc(g, c); bool pooled = false; for (auto& o : u.desc.ops) { if (o.k == NOp::DOWN && pooled) throw pbt::Discard(); if (o.k == NOp::MAXPOOL || o.k == NOp::AMAXPOOL) pooled = true; }  // pre-processing only
  bool patch = u.desc.exact && u.desc.patch_ok && !u.desc.count(NOp::UPSCALE) && g.chance(1, 3); 
  if (patch) { g.assume(u.desc.text.empty()); u.data.method = Conv::PATCH; u.data.w = (unsigned)(u.desc.rfx + u.desc.fx); u.data.h = (unsigned)(u.desc.rfy + u.desc.fy); render_all(g, u.desc, {"method=patch"}); }
  else { u.data.w = (unsigned)(u.desc.fx * (1 + g.below(std::max<size_t>(1, 6 / u.desc.fx)))); u.data.h = (unsigned)(u.desc.fy * (1 + g.below(std::max<size_t>(1, 6 / u.desc.fy)))); render_all(g, u.desc); }
  u.text = u.desc.text; u.data.in = (unsigned)u.desc.channels; u.data.cls = (unsigned)u.desc.classes; u.data.ntrain = 1 + (unsigned)g.below(7); u.data.ntest = 1 + (unsigned)g.below(5); u.data.seed = g.below(1 << 20);
  u.seed = 1 + (unsigned)g.below(1000); u.batch = 1 + (unsigned)g.below(3); u.p = patch ? 1.f : g.pick<float>({1.f, 1.f, 0.5f}); u.s = gen_settings(g, qp); u.s.learning_rate = g.pick<float>({0.1f, 0.5f, 0.01f});
  g.note() << (patch ? "patch " : "fcn ") << u.data.w << "x" << u.data.h << " batch " << u.batch << " train " << u.data.ntrain << " test " << u.data.ntest << " p" << u.p << " seed " << u.seed << " " << u.s << ": " << oneline(u.text);
}

// every iteration of a real network follows the rule, gradients being those of
// an identical network driven by hand
FACET(network, 4000, 60000, "momentum or several mini-batches, over several iterations") {
  Setup u; gen_setup(g, u, false); u.s.iterations = 1; TNet a(u.data, u.text, u.seed, u.batch, u.p), b(u.data, u.text, u.seed, u.batch, u.p); std::vector<float> wa = a.all(), wb = b.all(); REQUIRE(wa.size() == wb.size() && same_bits(wa.data(), wb.data(), wa.size()), "networks of the same seed start from different weights"); g.assume(!wa.empty());
  Trainer tr(a.graph, u.s); Rule r; r.s = u.s; r.N = (double)u.data.lw() * u.data.lh() * u.batch * u.s.sbatchsize; r.p = u.p; r.qp = false; std::vector<Rule::St> st(wa.size()); std::vector<double> llr;
  struct Peek : Conv::Layer { static float lr(Conv::Layer* l) { return l->*(&Peek::local_lr_); } };
  for (auto* n : a.graph.GetNodes()) for (auto* p : n->layer->parameters()) for (size_t e = 0; e < p->data.elements(); e++) llr.push_back(Peek::lr(n->layer));
  unsigned its = 1 + (unsigned)g.below(4); if ((u.s.momentum != 0 || u.s.sbatchsize > 1) && its > 1) g.nontrivial();
  for (unsigned k = 0; k < its; k++) {
    if (g.chance(1, 3)) { std::vector<float> q = a.all(); tr.Test(); std::vector<float> t = a.all(); REQUIRE(same_bits(q.data(), t.data(), t.size()), "testing changed a weight"); g.label("test"); g.note() << "; Test"; }
    if (k && g.chance(1, 5)) { unsigned ep = tr.epoch(); tr.SetEpoch(ep); for (auto& q : st) q = Rule::St(); g.label("reset"); g.note() << "; Reset"; }
    std::vector<double> gr(wa.size(), 0), mg(wa.size(), 0);
    for (unsigned q = 0; q < u.s.sbatchsize; q++) { b.graph.FeedForward(); b.graph.BackPropagate(); size_t x = 0; for (auto* p : b.params()) for (size_t e = 0; e < p->delta.elements(); e++, x++) { gr[x] += p->delta[e]; mg[x] += std::fabs(p->delta[e]); } }
    wa = a.all(); tr.Train(1, false); std::vector<float> n = a.all(); g.note() << "; Train";
    for (size_t x = 0; x < n.size(); x++) { g.assume(std::isfinite(n[x]) && std::fabs(n[x]) < 1e4); bool amb = false; double err = 0, step = r.apply(st[x], wa[x], gr[x], llr[x], r.lr(k), k == 0, amb, err); err += 1e-6 * mg[x] / r.N * llr[x] * r.lr(k); st[x].estep = err; REQUIRE(std::fabs(n[x] - (wa[x] + step)) <= 2 * err + 1.5e-7 * (std::fabs(wa[x]) + std::fabs(n[x]) + std::fabs(step)) + 1e-30, "iteration " << k << " changed weight " << x << " from " << wa[x] << " to " << n[x] << ", expected " << wa[x] + step); }
    b.load(n);
  }
}

static void ops(G& g, Trainer& tr, std::vector<int>& h) { for (int o : h) { if (o < 3) tr.Train(o, false); else if (o == 3) tr.Reset(); } (void)g; }
static bool bits(const std::vector<float>& a, const std::vector<float>& b) { return a.size() == b.size() && same_bits(a.data(), b.data(), a.size()); }
// the same run twice gives the same bits, with or without tests in between
FACET(deterministic, 3000, 45000, "weights changed and a test happened in between") {
  Setup u; gen_setup(g, u, g.coin()); u.s.iterations = 1 + (unsigned)g.below(3); std::vector<int> h(1 + g.below(4)); for (auto& o : h) o = (int)g.below(4);
  TNet a(u.data, u.text, u.seed, u.batch, u.p), b(u.data, u.text, u.seed, u.batch, u.p); std::vector<float> start = a.all(); TrainerSettings sb = u.s; sb.stats_during_training = !sb.stats_during_training;
  Trainer ta(a.graph, u.s), tb(b.graph, sb); ops(g, ta, h); bool tested = false;
  for (int o : h) { if (g.coin()) { tb.Test(); tested = true; } if (o < 3) tb.Train(o, false); else tb.Reset(); if (g.chance(1, 4)) { tb.Test(); tested = true; } }
  std::vector<float> wa = a.all(), wb = b.all(); if (tested && !bits(start, wa)) g.nontrivial(); bool nan = false; for (float f : wa) nan |= !std::isfinite(f); if (nan) g.label("not finite");
  for (size_t e = 0; e < wa.size(); e++) REQUIRE(memcmp(&wa[e], &wb[e], 4) == 0 || (wa[e] != wa[e] && wb[e] != wb[e]), "weight " << e << " is " << wa[e] << " after one run and " << wb[e] << " after the same run with testing in between");
}
// after a reset, training goes on like that of a new trainer
FACET(reset, 3000, 45000, "weights changed before and after the reset") {
  Setup u; gen_setup(g, u, g.coin()); u.s.iterations = 1 + (unsigned)g.below(3); unsigned e1 = 1 + (unsigned)g.below(2), e2 = 1 + (unsigned)g.below(2);
  TNet a(u.data, u.text, u.seed, u.batch, u.p), b(u.data, u.text, u.seed, u.batch, u.p); std::vector<float> start = a.all(); Trainer ta(a.graph, u.s), tb(b.graph, u.s);
  ta.Train(e1, false); tb.Train(e1, false); std::vector<float> mid = a.all(); if (g.coin()) ta.Reset(); else ta.SetEpoch(e1); ta.Train(e2, false); Trainer tc(b.graph, u.s); tc.SetEpoch(e1); tc.Train(e2, false);
  std::vector<float> wa = a.all(), wb = b.all(); if (!bits(start, mid) && !bits(mid, wa)) g.nontrivial();
  for (size_t e = 0; e < wa.size(); e++) REQUIRE(memcmp(&wa[e], &wb[e], 4) == 0 || (wa[e] != wa[e] && wb[e] != wb[e]), "weight " << e << " is " << wa[e] << " after resetting the trainer and " << wb[e] << " with a new one");
}
