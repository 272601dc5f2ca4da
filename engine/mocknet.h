// A network whose gradients and losses are scripted, and the update rule for one weight.
#pragma once
#include "cn.h"
#include "Trainer.h"
#include "LossFunctionLayer.h"
#include "TrainingLayer.h"
#include <set>

namespace cn {
using Conv::Trainer; using Conv::TrainerSettings;
// ---- a network whose gradients are scripted ---------------------------------
struct World {  // what the scripted layers saw
  uint64_t seed = 0; unsigned zero = 0; size_t passes = 0, forwards[2] = {0, 0}; bool testing = false, is_testing_ok = true; std::vector<std::vector<float>> weights; std::vector<double> loss;
  float grad(size_t layer, size_t p, size_t e, size_t pass) const { pbt::Rng r(seed * 7919 + layer * 131 + p * 17 + e * 1299721 + pass * 15485863); r.next(); if (zero && r.below(zero) == 0) return 0; if (zero == 1 || r.below(4) == 0) { pbt::Rng q(seed + layer + p * 3 + e * 5); return (float)((int)q.below(33) - 16) / 16; } return (float)((int)r.below(513) - 256) / 64; }
};
inline World& world() { static World w; return w; }
#define W ::cn::world()
inline Conv::NetGraph*& mock_graph() { static Conv::NetGraph* p; return p; }

struct MockInput : Conv::Layer, Conv::TrainingLayer {
  unsigned batch, lw, lh, ntr, nte; float p; CombinedTensor* o = nullptr;
  MockInput() : Conv::Layer("") {}
  bool CreateOutputs(const CTV&, CTV& o) override { o.push_back(new CombinedTensor(1, 1, 1, 1)); return true; }
  bool Connect(const CTV&, const CTV& out, const Conv::NetStatus*) override { o = out[0]; return true; }
  void FeedForward() override { o->data.Clear(); W.forwards[W.testing]++; if (mock_graph()->IsTesting() != W.testing) W.is_testing_ok = false; }
  void BackPropagate() override {}
  void CreateBufferDescriptors(std::vector<Conv::NetGraphBuffer>& b) override { b.push_back(Conv::NetGraphBuffer()); }
  void SetTestingMode(bool t) override { W.testing = t; }
  unsigned GetSamplesInTrainingSet() override { return ntr; }
  unsigned GetSamplesInTestingSet() override { return nte; }
  unsigned GetBatchSize() override { return batch; }
  datum GetLossSamplingProbability() override { return p; }
  unsigned GetLabelWidth() override { return lw; }
  unsigned GetLabelHeight() override { return lh; }
};
struct MockParam : Conv::Layer {
  size_t id, count; bool last;
  MockParam(size_t i, const std::vector<size_t>& sizes, float lr, bool l) : Conv::Layer(""), id(i), last(l) { SetLocalLearningRate(lr); for (size_t n : sizes) parameters_.push_back(new CombinedTensor(1, n, 1, 1)); for (auto* p : parameters_) p->delta.Clear(77); }
  ~MockParam() { for (auto* p : parameters_) delete p; }
  bool CreateOutputs(const CTV&, CTV& o) override { o.push_back(new CombinedTensor(1, 1, 1, 1)); return true; }
  bool Connect(const CTV&, const CTV&, const Conv::NetStatus*) override { return true; }
  void FeedForward() override {}
  void BackPropagate() override {
    if (W.weights.size() <= id) W.weights.resize(id + 1);
    for (size_t p = 0; p < parameters_.size(); p++) for (size_t e = 0; e < parameters_[p]->data.elements(); e++) { W.weights[id].push_back(parameters_[p]->data[e]); parameters_[p]->delta[e] = W.grad(id, p, e, W.passes); }
    if (last) W.passes++;
  }
  void CreateBufferDescriptors(std::vector<Conv::NetGraphBuffer>& b) override { b.push_back(Conv::NetGraphBuffer()); }
};
struct MockLoss : Conv::Layer, Conv::LossFunctionLayer {
  MockLoss() : Conv::Layer("") {}
  bool CreateOutputs(const CTV&, CTV&) override { return true; }
  bool Connect(const CTV&, const CTV&, const Conv::NetStatus*) override { return true; }
  void FeedForward() override {} void BackPropagate() override {}
  size_t id = 0; static size_t& calls(size_t id) { static size_t c[4]; return c[id]; }
  static float scripted(size_t id, size_t call) { pbt::Rng r(W.seed * 31 + id * 1000003 + call * 7919); r.next(); return (float)r.below(4097) / 16; }
  datum CalculateLossFunction() override { return scripted(id, calls(id)++); }
};

inline TrainerSettings gen_settings(G& g, bool qp) {
  TrainerSettings s; s.learning_rate = g.pick<float>({0.1f, 1.f, 0.01f, 0.5f}); s.gamma = g.pick<float>({0.f, 0.0003f, 0.1f, 1.f}); s.exponent = g.pick<float>({0.75f, 0.f, 1.f, 2.f});
  s.l1_weight = g.pick<float>({0.f, 0.001f, 0.125f}); s.l2_weight = g.pick<float>({0.f, 0.0005f, 0.25f}); s.momentum = g.pick<float>({0.f, 0.9f, 0.5f}); s.mu = g.pick<float>({1.75f, 2.f, 1.5f}); s.optimization_method = qp ? Conv::QUICKPROP : Conv::GRADIENT_DESCENT;
  s.sbatchsize = 1 + (unsigned)g.below(3); s.pbatchsize = 1 + (unsigned)g.below(3); s.stats_during_training = g.coin(); s.eta = g.pick<float>({1.5f, 2.f}); return s;
}
inline unsigned scaled(unsigned n, float ratio) { return (unsigned)((double)n * ratio); }

// the rule for one weight
struct Rule {
  TrainerSettings s; double N, p; bool qp;
  double lr(unsigned it) const { return (double)s.learning_rate * std::pow(1.0 + (double)s.gamma * it, -(double)s.exponent); }
  struct St { char kase = 0; double step = 0, estep = 0, slope = 0, eslope = 0; };
  // step to add to the weight
  double apply(St& q, double w, double grad, double llr, double lr, bool first, bool& ambiguous, double& err) const {
    double a = grad / N * p, b = (double)s.l2_weight * w, c = (double)s.l1_weight * ((w > 0) - (w < 0)), cs = llr * (a + b + c), mag = std::fabs(llr) * (std::fabs(a) + std::fabs(b) + std::fabs(c)), ecs = 1e-6 * mag; auto sg = [](double v) { return (v > 0) - (v < 0); };
    double step, e;
    if (!qp) { step = lr * cs + s.momentum * q.step; e = lr * ecs + 1e-6 * lr * std::fabs(cs) + s.momentum * q.estep + 2e-7 * std::fabs(step) + 2e-7 * std::fabs(s.momentum * q.step); q.step = step; q.estep = e; err = e; return -step; }
    auto zero = [&](double v, double ev) { return std::fabs(v) <= ev && v != 0; };
    if (zero(cs, 2 * ecs) || (cs == 0 && mag != 0) || (std::fabs(cs) > 0 && std::fabs(cs) < 1e-12)) ambiguous = true;
    q.kase = 0; if (first) { step = -0.1 * cs; e = 0.1 * ecs + 1e-7 * std::fabs(step); }
    else if (cs == 0) { step = 0; e = 0; q.kase = 'C'; }
    else {
      double d = q.slope - cs, ed = q.eslope + ecs + 1e-7 * std::fabs(d), quad, eq;
      if (zero(d, 50 * ed) || (d == 0 && ed > 0 && (s.l1_weight != 0 || s.l2_weight != 0))) ambiguous = true;
      if (std::fabs(std::fabs(cs) - std::fabs(s.mu * d)) <= 1e-4 * std::fabs(cs) && q.step != 0) ambiguous = true;
      if (zero(q.step, 2 * q.estep) || zero(q.slope, 2 * q.eslope)) ambiguous = true;
      if (std::fabs(cs) < std::fabs(s.mu * d) && sg(q.step) != sg(d)) { q.kase = 'B'; quad = q.step * cs / d; eq = std::fabs(quad) * (ed / std::fabs(d) + ecs / std::fabs(cs) + 1e-6) + q.estep * std::fabs(cs / d); }
      else { q.kase = 'A'; quad = s.mu * q.step; eq = s.mu * q.estep + 2e-7 * std::fabs(quad); }
      if (sg(cs) == sg(q.slope)) { step = quad - lr * cs; e = eq + lr * ecs + 1e-6 * lr * std::fabs(cs) + 2e-7 * std::fabs(step); } else { step = quad; e = eq; }
    }
    q.step = step; q.estep = e; q.slope = cs; q.eslope = ecs; err = e; return step;
  }
};

struct MockNet {
  Conv::NetGraph graph; MockInput* in; std::vector<MockParam*> layers; std::vector<std::vector<size_t>> sizes; std::vector<float> llr;
  MockNet(G& g, size_t losses = 1) {
    mock_graph() = &graph; in = new MockInput; in->batch = 1 + (unsigned)g.below(4); in->lw = 1 + (unsigned)g.below(5); in->lh = 1 + (unsigned)g.below(5); in->ntr = 1 + (unsigned)g.below(6); in->nte = (unsigned)g.below(8); in->p = g.pick<float>({1.f, 0.5f, 0.25f});
    size_t k = 1 + g.below(3); std::vector<Conv::NetGraphNode*> ns{new Conv::NetGraphNode(in)}; if (g.coin()) ns[0]->is_input = true;
    for (size_t l = 0; l < k; l++) { std::vector<size_t> sz(g.below(3)); if (l == 0 && sz.empty()) sz.resize(1); for (auto& n : sz) n = 1 + g.below(4); sizes.push_back(sz); llr.push_back(g.pick<float>({1.f, 0.5f, 2.f, 0.f, 10.f})); layers.push_back(new MockParam(l, sz, llr[l], l == 0)); ns.push_back(new Conv::NetGraphNode(layers[l], Conv::NetGraphConnection(ns.back(), 0, true))); }
    ns.back()->is_output = true; auto* tip = ns.back(); for (size_t n = 0; n < losses; n++) { auto* l = new MockLoss; l->id = n; ns.push_back(new Conv::NetGraphNode(l, Conv::NetGraphConnection(tip, 0, n == 0))); }
    for (size_t n = ns.size(); n > 1; n--) std::swap(ns[n - 1], ns[g.below(n)]);
    for (auto* n : ns) graph.AddNode(n); graph.Initialize();
    for (auto* l : layers) for (auto* p : l->parameters()) for (size_t e = 0; e < p->data.elements(); e++) p->data[e] = (float)((int)g.below(65) - 32) / 16;
  }
  ~MockNet() { std::vector<Conv::NetGraphNode*> all = graph.GetNodes(); std::set<CombinedTensor*> t; for (auto* n : all) for (auto& b : n->output_buffers) t.insert(b.combined_tensor); for (auto* n : all) { delete n->layer; delete n; } for (auto* c : t) delete c; }
  std::vector<float> all() { std::vector<float> v; for (auto* l : layers) for (auto* p : l->parameters()) for (size_t e = 0; e < p->data.elements(); e++) v.push_back(p->data[e]); return v; }
};

}  // namespace cn
