// C07: a network graph computes the composition of its layers.
#include "graph.h"
#include "ErrorLayer.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }

struct Ev { bool fwd; size_t node; };
static std::vector<Ev> g_log;
void pbt::setup_case() { g_log.clear(); }

// forwards to the layer it wraps and records evaluations
struct Probe : Conv::Layer {
  Conv::Layer* in; size_t id;
  Probe(size_t i, Conv::Layer* l) : Conv::Layer(""), in(l), id(i) {}
  ~Probe() { delete in; }
  bool CreateOutputs(const CTV& a, CTV& b) override { return in->CreateOutputs(a, b); }
  bool Connect(const CTV& a, const CTV& b, const Conv::NetStatus* s) override { bool r = in->Connect(a, b, s); parameters_ = in->parameters(); return r; }
  void FeedForward() override { g_log.push_back({true, id}); in->FeedForward(); }
  void BackPropagate() override { g_log.push_back({false, id}); in->SetBackpropagationEnabled(backprop_enabled_); in->BackPropagate(); }
  void OnLayerConnect(const std::vector<Conv::Layer*> n) override { in->OnLayerConnect(n); }
  unsigned int Gain() override { return in->Gain(); }
  std::string GetLayerDescription() override { return in->GetLayerDescription(); }
  void CreateBufferDescriptors(std::vector<Conv::NetGraphBuffer>& b) override { in->CreateBufferDescriptors(b); }
};

static void set_params(const GSpec& s, GNet& net, uint64_t sd, std::vector<DAs>* par = nullptr) {
  if (par) par->assign(s.nodes.size(), DAs());
  for (size_t n = 0; n < s.nodes.size(); n++) for (size_t p = 0; p < net.nodes[n]->layer->parameters().size(); p++) {
    Tensor& t = net.nodes[n]->layer->parameters()[p]->data; fill_generic(t, sd + 50 + n * 3 + p, 0.7);
    if (par) { DA a(t); static_cast<Dim&>(a) = s.nodes[n].l.par[p]; (*par)[n].push_back(a); } }
}
static void set_data(GNet& net, uint64_t sd) { for (size_t i = 0; i < net.data.size(); i++) fill_generic(*net.data[i], sd + i); }
static void set_sinks(const GSpec& s, GNet& net, uint64_t sd, long only = -1) { auto k = s.sinks(); for (size_t i = 0; i < k.size(); i++) { Tensor& d = net.out(k[i])->delta; if (only >= 0 && (long)i != only) d.Clear(); else fill_generic(d, sd + 300 + i); } }
static bool multi(const GSpec& s) { for (int n = 0; n < (int)s.nodes.size(); n++) for (int b = 0; b < (int)s.nodes[n].l.out.size(); b++) if (s.consumers({n, b}) > 1) return true; return false; }
static bool has(const GSpec& s, const char* k) { for (auto& n : s.nodes) if (n.l.kind == k) return true; return false; }
static double mag(const std::vector<float>& v) { double m = 0; for (float x : v) m = std::max(m, (double)std::fabs(x)); return m; }
static std::vector<float> vec(const Tensor& t) { return std::vector<float>(t.data_ptr_const(), t.data_ptr_const() + t.elements()); }
static void close(const std::vector<float>& a, const std::vector<float>& b, double rel, const std::string& what) {
  REQUIRE(a.size() == b.size(), what << ": sizes differ"); double m = std::max(mag(a), mag(b));
  for (size_t e = 0; e < a.size(); e++) REQUIRE(std::fabs(a[e] - b[e]) <= rel * (m + 1e-6), what << ": element " << e << " is " << a[e] << " and " << b[e]);
}
static bool same(const std::vector<float>& a, const std::vector<float>& b) { return a.size() == b.size() && same_bits(a.data(), b.data(), a.size()); }

// every node once and after its inputs, values equal the composition of the
// reference functions, for any order of adding
FACET(composition, 20000, 300000, "an output with several consumers, or nodes added out of order") {
  bool real = g.coin(); GSpec s = gen_graph(g, g.chance(1, 20) ? 24 : 10, true); size_t total = 0; for (auto& n : s.nodes) total += n.l.out[0].n(); g.assume(total < 12000);
  bool shuffle = g.chance(3, 4), probes = g.coin(); g.note() << s << (real ? " real inputs" : "") << (probes ? " probed" : "");
  GNet net; net.build(g, s, shuffle, probes ? [](size_t n, Conv::Layer* l) -> Conv::Layer* { return new Probe(n, l); } : std::function<Conv::Layer*(size_t, Conv::Layer*)>(), real);
  g.note() << " order"; for (size_t n : net.order) g.note() << " " << n;
  if (multi(s) || shuffle) g.nontrivial(); if (multi(s)) g.label("fan-out"); for (auto& n : s.nodes) if (n.in.size() == 2 && n.in[0].node == n.in[1].node && n.in[0].buf == n.in[1].buf) g.label("node reads an output twice");
  for (int round = 0; round < 2; round++) {
    std::vector<DAs> par; uint64_t sd = g.below(1 << 20); set_params(s, net, sd, &par); set_data(net, sd);
    std::vector<DA> data; for (auto& d : net.data) data.emplace_back(*d);
    g_log.clear(); net.graph.FeedForward();
    if (probes) {
      std::vector<long> when(s.nodes.size(), -1);
      for (size_t k = 0; k < g_log.size(); k++) { REQUIRE(g_log[k].fwd, "backward pass during forward pass"); REQUIRE(when[g_log[k].node] < 0, "node " << g_log[k].node << " was evaluated twice"); when[g_log[k].node] = (long)k; }
      for (size_t n = 0; n < s.nodes.size(); n++) { REQUIRE(when[n] >= 0, "node " << n << " was not evaluated"); for (auto& r : s.nodes[n].in) REQUIRE(when[r.node] < when[n], "node " << n << " was evaluated before its input node " << r.node); }
    }
    auto want = s.eval(data, par); double tol = 0;
    for (size_t n = 0; n < s.nodes.size(); n++) { if (s.nodes[n].l.kind == "conv" || s.nodes[n].l.kind == "lrn") tol += 3e-5; else tol += 1e-6;
      for (size_t b = 0; b < want[n].size(); b++) { Tensor& t = net.out({(int)n, (int)b})->data; Dim q = s.nodes[n].l.out[b]; require_shape(t, q.s, q.w, q.h, q.m, "output of node " + std::to_string(n)); double m = 0; for (double v : want[n][b].d) m = std::max(m, std::fabs(v));
        for (size_t e = 0; e < want[n][b].d.size(); e++) REQUIRE(std::fabs(t[e] - want[n][b].d[e]) <= tol * (1 + 4 * m), "node " << n << " output " << b << " element " << e << " is " << t[e] << ", composition is " << want[n][b].d[e]); } }
    if (!real) {
      set_sinks(s, net, sd); g_log.clear(); net.graph.BackPropagate();
      if (probes) {
        std::vector<long> when(s.nodes.size(), -1);
        for (size_t k = 0; k < g_log.size(); k++) { REQUIRE(!g_log[k].fwd, "forward pass during backward pass"); REQUIRE(when[g_log[k].node] < 0, "node " << g_log[k].node << " was back-propagated twice"); when[g_log[k].node] = (long)k; }
        for (size_t n = 0; n < s.nodes.size(); n++) { REQUIRE(when[n] >= 0, "node " << n << " was not back-propagated"); for (auto& r : s.nodes[n].in) REQUIRE(when[r.node] > when[n], "node " << r.node << " was back-propagated before its consumer " << n); }
      }
    }
  }
  std::vector<CombinedTensor*> ps; net.graph.GetParameters(ps); size_t np = 0; std::set<CombinedTensor*> uniq(ps.begin(), ps.end());
  for (auto* n : net.nodes) { np += n->layer->parameters().size(); for (auto* p : n->layer->parameters()) REQUIRE(uniq.count(p), "GetParameters misses a parameter"); }
  REQUIRE(ps.size() == np && uniq.size() == np, "GetParameters returns " << ps.size() << " tensors, the layers have " << np);
  std::ostringstream dot; net.graph.PrintGraph(dot);
}

// errors of several consumers add up: the backward pass is linear in the
// errors at the sinks, and equal for two orders of adding
FACET(backward_sums, 12000, 180000, "an output with several consumers and at least two sinks") {
  GSpec s = gen_graph(g, g.chance(1, 20) ? 18 : 8, true); size_t total = 0; for (auto& n : s.nodes) total += n.l.out[0].n(); g.assume(total < 8000);
  g.note() << s; auto sinks = s.sinks(); uint64_t sd = g.below(1 << 20);
  GNet a, b; a.build(g, s, false); b.build(g, s, true);
  set_params(s, a, sd); set_params(s, b, sd); set_data(a, sd); set_data(b, sd);
  if (multi(s) && sinks.size() > 1) g.nontrivial();
  a.graph.FeedForward(); b.graph.FeedForward();
  for (size_t n = 0; n < s.nodes.size(); n++) for (size_t k = 0; k < s.nodes[n].l.out.size(); k++) close(vec(a.out({(int)n, (int)k})->data), vec(b.out({(int)n, (int)k})->data), 1e-6, "output of node " + std::to_string(n) + " for two orders");
  auto collect = [&](GNet& q) { std::vector<std::vector<float>> r; for (size_t n = 0; n < s.nodes.size(); n++) { if (s.nodes[n].input && s.consumers({(int)n, 0})) r.push_back(vec(q.out({(int)n, 0})->delta)); for (auto* p : q.nodes[n]->layer->parameters()) r.push_back(vec(p->delta)); } return r; };
  set_sinks(s, a, sd); a.graph.BackPropagate(); auto all = collect(a);
  set_sinks(s, b, sd); b.graph.BackPropagate(); auto allb = collect(b);
  for (size_t k = 0; k < all.size(); k++) close(all[k], allb[k], 2e-4, "errors for two orders, tensor " + std::to_string(k));
  if (has(s, "hmax")) return;
  std::vector<std::vector<double>> sum(all.size()), m(all.size()); for (size_t k = 0; k < all.size(); k++) { sum[k].assign(all[k].size(), 0); m[k] = sum[k]; }
  for (size_t q = 0; q < sinks.size(); q++) { set_sinks(s, a, sd, (long)q); a.graph.BackPropagate(); auto one = collect(a); for (size_t k = 0; k < one.size(); k++) for (size_t e = 0; e < one[k].size(); e++) { sum[k][e] += one[k][e]; m[k][e] = std::max(m[k][e], (double)std::fabs(one[k][e])); } }
  for (size_t k = 0; k < all.size(); k++) { double mx = 0; for (double v : m[k]) mx = std::max(mx, v); for (size_t e = 0; e < all[k].size(); e++) REQUIRE(std::fabs(sum[k][e] - all[k][e]) <= 5e-4 * (mx + 1e-3), "tensor " << k << " element " << e << ": error is " << all[k][e] << ", sum over the sinks taken alone is " << sum[k][e]); }
}

// samples of a batch do not see each other
FACET(batch, 12000, 180000, "more than one sample and a layer with parameters or a window") {
  GSpec s = gen_graph(g, g.chance(1, 20) ? 14 : 7, true, 6, g.chance(1, 20) ? 12 : 4); size_t S = s.nodes[0].l.out[0].s; size_t total = 0; for (auto& n : s.nodes) total += n.l.out[0].n(); g.assume(total < 12000);
  g.note() << s; uint64_t sd = g.below(1 << 20); if (S > 1 && (has(s, "conv") || has(s, "lrn") || has(s, "maxpool") || has(s, "amaxpool"))) g.nontrivial();
  GNet a; a.build(g, s, g.coin()); set_params(s, a, sd); set_data(a, sd); a.graph.FeedForward(); set_sinks(s, a, sd); auto sinks = s.sinks(); a.graph.BackPropagate();
  auto slice = [&](const Tensor& t, size_t k) { size_t per = t.elements() / t.samples(); return std::vector<float>(t.data_ptr_const() + k * per, t.data_ptr_const() + (k + 1) * per); };
  std::vector<std::vector<std::vector<float>>> outs(S), dels(S);
  for (size_t k = 0; k < S; k++) for (int n = 0; n < (int)s.nodes.size(); n++) { for (int b = 0; b < (int)s.nodes[n].l.out.size(); b++) outs[k].push_back(slice(a.out({n, b})->data, k)); if (s.nodes[n].input && s.consumers({n, 0})) dels[k].push_back(slice(a.out({n, 0})->delta, k)); }
  // 1. the same network for a single sample
  size_t k = g.below(S);
  if (g.coin()) {
    // rebuild with one sample: the layers' specifications only differ in the sample count
    GSpec one = s; for (auto& n : one.nodes) { for (auto& d : n.l.in) d.s = 1; for (auto& d : n.l.out) d.s = 1; }
    GNet b; b.build(g, one, false); set_params(one, b, sd);
    for (size_t i = 0; i < b.data.size(); i++) { auto v = slice(*a.data[i], k); std::copy(v.begin(), v.end(), b.data[i]->data_ptr()); }
    b.graph.FeedForward(); for (auto& r : sinks) { auto v = slice(a.out(r)->delta, k); std::copy(v.begin(), v.end(), b.out(r)->delta.data_ptr()); } b.graph.BackPropagate();
    size_t q = 0, q2 = 0;
    for (int n = 0; n < (int)s.nodes.size(); n++) { for (int bb = 0; bb < (int)s.nodes[n].l.out.size(); bb++) close(outs[k][q++], vec(b.out({n, bb})->data), 1e-5, "node " + std::to_string(n) + " sample " + std::to_string(k) + " alone and in the batch"); if (s.nodes[n].input && s.consumers({n, 0})) close(dels[k][q2++], vec(b.out({n, 0})->delta), 2e-4, "input error of sample " + std::to_string(k) + " alone and in the batch"); }
    g.label("single sample");
  } else {
    // 2. change every other sample
    for (auto& d : a.data) { size_t per = d->elements() / S; pbt::Rng r(sd + 4); for (size_t e = 0; e < d->elements(); e++) if (e / per != k) (*d)[e] = (float)(4 * r.unit() - 2); }
    a.graph.FeedForward(); for (auto& r : sinks) { Tensor& d = a.out(r)->delta; size_t per = d.elements() / S; for (size_t e = 0; e < d.elements(); e++) if (e / per != k) d[e] = -3 * d[e] + 1; } a.graph.BackPropagate();
    size_t q = 0, q2 = 0;
    for (int n = 0; n < (int)s.nodes.size(); n++) { for (int bb = 0; bb < (int)s.nodes[n].l.out.size(); bb++) close(outs[k][q++], slice(a.out({n, bb})->data, k), 1e-6, "node " + std::to_string(n) + " sample " + std::to_string(k) + " after changing the others"); if (s.nodes[n].input && s.consumers({n, 0})) close(dels[k][q2++], slice(a.out({n, 0})->delta, k), 1e-5, "input error of sample " + std::to_string(k) + " after changing the others"); }
    g.label("others changed");
  }
}

// repeating a pass gives identical results, whatever happened in between
FACET(repeat, 12000, 180000, "something else was evaluated between the two passes") {
  GSpec s = gen_graph(g, g.chance(1, 20) ? 18 : 8, true); size_t total = 0; for (auto& n : s.nodes) total += n.l.out[0].n(); g.assume(total < 8000);
  g.note() << s; uint64_t sd = g.below(1 << 20);
  GNet a; a.build(g, s, g.coin()); set_params(s, a, sd); set_data(a, sd);
  auto snap = [&](bool bp) { std::vector<std::vector<float>> r; for (int n = 0; n < (int)s.nodes.size(); n++) { for (int b = 0; b < (int)s.nodes[n].l.out.size(); b++) r.push_back(vec(a.out({n, b})->data)); if (bp) { if (s.nodes[n].input && s.consumers({n, 0})) r.push_back(vec(a.out({n, 0})->delta)); for (auto* p : a.nodes[n]->layer->parameters()) { r.push_back(vec(p->delta)); } } for (auto* p : a.nodes[n]->layer->parameters()) r.push_back(vec(p->data)); } return r; };
  a.graph.SetIsTesting(g.coin()); a.graph.FeedForward(); set_sinks(s, a, sd); a.graph.BackPropagate(); auto first = snap(true);
  size_t steps = g.below(4); g.note() << " | between:";
  for (size_t k = 0; k < steps; k++) switch (g.below(4)) {
    case 0: g.note() << " fwd"; a.graph.FeedForward(); break;
    case 1: { g.note() << " other-data"; set_data(a, sd + 1000 + k); a.graph.FeedForward(); g.nontrivial(); break; }
    case 2: g.note() << " bp"; set_sinks(s, a, sd + 77 + k); a.graph.BackPropagate(); g.nontrivial(); break;
    default: g.note() << " testing"; a.graph.SetIsTesting(!a.graph.IsTesting()); a.graph.FeedForward(); g.nontrivial();
  }
  set_data(a, sd); a.graph.FeedForward(); set_sinks(s, a, sd); a.graph.BackPropagate(); auto second = snap(true);
  for (size_t k = 0; k < first.size(); k++) REQUIRE(same(first[k], second[k]), "tensor " << k << " differs after repeating the pass");
}

// several loss layers anywhere in the graph: the loss is their sum and the
// gradient is that of the sum
FACET(losses, 6000, 90000, "two or more loss layers, or a loss on an output with other consumers") {
  GSpec s = gen_graph(g, 6, true, 5, 2); size_t total = 0; for (auto& n : s.nodes) total += n.l.out[0].n(); g.assume(total < 4000);
  g.note() << s; uint64_t sd = g.below(1 << 20); size_t nl = upto(g, 3, 6);
  struct Loss { Ref r; float w; std::unique_ptr<Tensor> data, label, helper, weight; Conv::NetGraphNode *in, *node; }; std::vector<Loss> ls(nl);
  std::vector<Ref> cand; for (int n = (int)s.inputs; n < (int)s.nodes.size(); n++) for (int b = 0; b < (int)s.nodes[n].l.out.size(); b++) cand.push_back({n, b});
  GNet net; bool shared = false; std::set<std::pair<int, int>> seen;
  // the graph is built by hand: nodes first, then the losses, in one random order
  std::vector<Conv::NetGraphNode*> all;
  for (size_t n = 0; n < s.nodes.size(); n++) {
    Conv::Layer* l; if (s.nodes[n].input) { Dim q = s.nodes[n].l.out[0]; net.data.emplace_back(new Tensor(q.s, q.w, q.h, q.m)); l = new Conv::InputLayer(*net.data.back()); } else l = s.nodes[n].l.make();
    net.nodes.push_back(new Conv::NetGraphNode(l)); for (auto& r : s.nodes[n].in) net.nodes[n]->input_connections.push_back(Conv::NetGraphConnection(net.nodes[r.node], r.buf, true)); all.push_back(net.nodes[n]);
  }
  for (auto& l : ls) {
    l.r = cand[g.below(cand.size())]; l.w = g.pick<float>({1.0f, 0.5f, 0.25f, 2.0f}); Dim q = s.out(l.r); g.note() << " | loss x" << l.w << " on n" << l.r.node << "." << l.r.buf;
    shared |= s.consumers(l.r) > 0 || !seen.insert({l.r.node, l.r.buf}).second;
    l.data.reset(new Tensor(q.s, 1, 1, 1)); l.helper.reset(new Tensor(q.s, 1, 1, 2)); l.label.reset(new Tensor(q.s, q.w, q.h, q.m)); l.weight.reset(new Tensor(q.s, q.w, q.h, 1));
    fill_generic(*l.label, sd + 500 + l.r.node); fill_generic(*l.weight, sd + 600 + l.r.node); for (size_t e = 0; e < l.weight->elements(); e++) (*l.weight)[e] = std::fabs((*l.weight)[e]);
    l.in = new Conv::NetGraphNode(new Conv::InputLayer(*l.data, *l.label, *l.helper, *l.weight)); l.in->is_input = true;
    l.node = new Conv::NetGraphNode(new Conv::ErrorLayer(l.w)); l.node->input_connections = {Conv::NetGraphConnection(net.nodes[l.r.node], l.r.buf), Conv::NetGraphConnection(l.in, 1), Conv::NetGraphConnection(l.in, 3)};
    all.push_back(l.in); all.push_back(l.node);
  }
  for (size_t n = all.size(); n > 1; n--) std::swap(all[n - 1], all[g.below(n)]);
  for (auto* n : all) net.graph.AddNode(n); net.graph.Initialize();
  if (nl > 1 || shared) g.nontrivial(); if (shared) g.label("loss shares its input");
  REQUIRE(net.graph.GetLossNodes().size() == nl, net.graph.GetLossNodes().size() << " loss nodes");
  std::vector<DAs> par; set_params(s, net, sd, &par); set_data(net, sd); std::vector<DA> data; for (auto& d : net.data) data.emplace_back(*d);
  // sinks without a loss carry no error
  for (auto* n : net.graph.GetNodes()) for (auto& b : n->output_buffers) b.combined_tensor->delta.Clear();
  net.graph.FeedForward(); double loss = net.graph.AggregateLoss(); net.graph.BackPropagate();
  auto L = [&] { auto v = s.eval(data, par); double t = 0; for (auto& l : ls) { auto& o = v[l.r.node][l.r.buf]; for (size_t sm = 0; sm < o.s; sm++) for (size_t m = 0; m < o.m; m++) for (size_t y = 0; y < o.h; y++) for (size_t x = 0; x < o.w; x++) { double d = o.at(x, y, m, sm) - *l.label->data_ptr(x, y, m, sm); t += 0.5 * d * d * *l.weight->data_ptr(x, y, 0, sm) * l.w; } } return t; };
  double base = L(); require_close(loss, base, 1e-4 * (1 + base), "loss");
  pbt::Rng q(sd + 5); auto probe = [&](double* v, double got, const std::string& what) {
    double keep = *v, h = 1e-5; *v = keep + h; double up = L(); *v = keep - h; double dn = L(); *v = keep; double want = (up - dn) / (2 * h), err = std::fabs((up - base) / h - (base - dn) / h);
    if (err > 1e-2 * (std::fabs(want) + 0.1)) { g.label("kink skipped"); return; }
    REQUIRE(std::fabs(got - want) <= 2e-3 * std::fabs(want) + 5e-4 * (1 + base) + 3 * err, what << ": error is " << got << ", derivative of the loss is " << want); };
  for (size_t i = 0, n = 0; n < s.nodes.size(); n++) if (s.nodes[n].input) { if (s.consumers({(int)n, 0})) for (int k = 0; k < 8; k++) { size_t e = q.below(data[i].d.size()); probe(&data[i].d[e], net.out({(int)n, 0})->delta[e], "input " + std::to_string(i) + " element " + std::to_string(e)); } i++; }
  for (size_t n = 0; n < s.nodes.size(); n++) for (size_t p = 0; p < par[n].size(); p++) for (int k = 0; k < 4; k++) { size_t e = q.below(par[n][p].d.size()); probe(&par[n][p].d[e], net.nodes[n]->layer->parameters()[p]->delta[e], "node " + std::to_string(n) + " parameter " + std::to_string(p)); }
}
