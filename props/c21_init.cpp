// C21: initial weights (range, distribution, seeding), biases, dropout.
#include "graph.h"
#include "netdesc.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
static CTV g_owned;
void pbt::setup_case() { for (auto* t : g_owned) delete t; g_owned.clear(); }

// a successor with a gain of our choosing
struct Succ : Conv::Layer {
  unsigned v; Succ(unsigned v_) : Layer(""), v(v_) {}
  unsigned Gain() override { return v; }
  bool CreateOutputs(const CTV&, CTV&) override { return false; } bool Connect(const CTV&, const CTV&, const Conv::NetStatus*) override { return false; }
  void FeedForward() override {} void BackPropagate() override {}
};
static CombinedTensor* own(CombinedTensor* t) { g_owned.push_back(t); return t; }

struct One {  // a connected convolution
  std::unique_ptr<Conv::ConvolutionLayer> l; Conv::NetStatus st; CombinedTensor* in; CTV outs;
  One(Conv::ConvolutionLayer* c, Dim d) : l(c) {
    in = own(new CombinedTensor(d.s, d.w, d.h, d.m)); in->data.Clear(); in->delta.Clear(); Conv::Layer* b = c;
    if (!b->CreateOutputs({in}, outs)) FAILMSG("a valid convolution was refused");
    for (auto* o : outs) { own(o); o->data.Clear(); o->delta.Clear(); }
    REQUIRE(b->Connect({in}, outs, &st), "a valid convolution was refused"); st.SetIsTesting(true);
  }
  Tensor& w() { return l->parameters()[0]->data; }
  Tensor& b() { return l->parameters()[1]->data; }
};
static double range_of(double own_gain, double next) { return std::sqrt(6.0 / (own_gain + next)); }
static void require_range(const Tensor& w, double range, const std::string& what) {
  double mx = 0; for (size_t e = 0; e < w.elements(); e++) { double v = w.data_ptr_const()[e]; REQUIRE(std::isfinite(v) && std::fabs(v) <= range * (1 + 1e-5), what << ": initial weight " << e << " is " << v << ", outside of the range of +-" << range); mx = std::max(mx, std::fabs(v)); }
  // n independent weights all below 0.5^(60/n) of the range have a probability of 2^-60
  double n = (double)w.elements(); if (n >= 24) REQUIRE(mx >= range * std::exp2(-60 / n), what << ": all " << n << " weights are at most " << mx << ", the range is +-" << range);
}
// Kolmogorov-Smirnov against the uniform distribution on +-range
static double ks(const Tensor& w, double range) {
  std::vector<double> v; for (size_t e = 0; e < w.elements(); e++) v.push_back((w.data_ptr_const()[e] / range + 1) / 2); std::sort(v.begin(), v.end());
  double d = 0, n = (double)v.size(); for (size_t i = 0; i < v.size(); i++) d = std::max(d, std::max((i + 1) / n - v[i], v[i] - i / n)); return d * std::sqrt(n);
}
static double corr(const Tensor& w, size_t lag) {  // sqrt(n) times the correlation of weights `lag` apart
  size_t n = w.elements(); if (n <= lag + 20) return 0; const float* p = w.data_ptr_const(); double s = 0, q = 0; for (size_t e = 0; e + lag < n; e++) s += (double)p[e] * p[e + lag]; for (size_t e = 0; e < n; e++) q += (double)p[e] * p[e]; return s / q * std::sqrt((double)n);
}

FACET(weights, 3000, 45000, "more than 200 weights, or several successors") {
  Dim d{1, 1 + g.below(9), 1 + g.below(9), 1 + (size_t)g.small(0, 23)}; size_t kw = 1 + g.below(d.w), kh = 1 + g.below(d.h); std::vector<size_t> grs; for (size_t q = 1; q <= d.m; q++) if (d.m % q == 0) grs.push_back(q);
  size_t gr = g.chance(2, 3) ? 1 : g.pick(grs), om = gr * (1 + g.small(0, 15)); if (om > 64) om = gr; int seed = g.chance(1, 6) ? g.pick<int>({0, 1, -1, 2147483647, -2147483647 - 1}) : (int)g.below(1 << 20); int seed2 = seed == 7 ? 8 : 7;
  std::vector<std::unique_ptr<Conv::Layer>> succ; std::vector<Conv::Layer*> next; double ng = 0; size_t ns = g.small(0, 4);
  for (size_t i = 0; i < ns; i++) { unsigned v = g.coin() ? (unsigned)g.below(4) : (unsigned)g.below(3000); succ.emplace_back(new Succ(v)); next.push_back(succ.back().get()); ng += v; }
  if (ns && g.chance(1, 4)) { next.push_back(next[0]); ng += succ[0]->Gain(); }
  auto mk = [&](int sd) { return new Conv::ConvolutionLayer(kw, kh, om, 1, 1, 0, 0, gr, sd, 0.0); };
  One a(mk(seed), d), b(mk(seed), d), c(mk(seed2), d); double range = range_of((double)kw * kh * d.m, ng); size_t n = a.w().elements();
  g.note() << "convolution of " << d << ", kernels " << om << " of " << kw << "x" << kh << " in " << gr << " groups, seed " << seed << ", " << next.size() << " successors of total gain " << ng; if (n > 200 || next.size() > 1) g.nontrivial();
  for (size_t e = 0; e < a.b().elements(); e++) REQUIRE(a.b().data_ptr()[e] == 0, "bias " << e << " of a new layer is " << a.b().data_ptr()[e]);
  for (int round = 0; round < 2; round++) {
    a.l->OnLayerConnect(next); b.l->OnLayerConnect(next);
    require_range(a.w(), range, "seed " + std::to_string(seed)); REQUIRE(same_bits(a.w().data_ptr(), b.w().data_ptr(), n), "two layers of the same seed have different weights");
    if (n >= 100) { double k = ks(a.w(), range); REQUIRE(k < 3.5, "the weights are not uniform on +-" << range << ": Kolmogorov-Smirnov statistic " << k); g.label("distribution tested");
      for (size_t lag : {(size_t)1, (size_t)2, kw, kw * kh, kw * kh * (d.m / gr), n / om, n / 2}) REQUIRE(std::fabs(corr(a.w(), lag)) < 8, "weights " << lag << " apart are correlated"); }
    // initialising again: a new draw from the same range, biases from zero
    for (auto* t : {&a.b(), &b.b()}) for (size_t e = 0; e < t->elements(); e++) REQUIRE(t->data_ptr()[e] == 0, "bias " << e << " is " << t->data_ptr()[e] << " after initialisation");
    if (!round) { c.l->OnLayerConnect(next); if (n >= 4) REQUIRE(!same_bits(a.w().data_ptr(), c.w().data_ptr(), n), "seeds " << seed << " and " << seed2 << " give the same weights");
      for (auto* t : {&a.w(), &b.w(), &a.b(), &b.b()}) { Vals v{4, 17}; fill(*t, v); } g.label("initialised again"); }
  }
}

// gain of every layer of a graph, computed from its successors only
struct Gains {
  const GSpec& s; std::vector<long long> memo; Gains(const GSpec& q) : s(q), memo(q.nodes.size(), -1) {}
  // what reaches node n from its readers, one term per connection
  long long next(size_t n) { long long v = 0; for (size_t k = 0; k < s.nodes.size(); k++) for (auto& r : s.nodes[k].in) if (r.node == (int)n) v += gain(k); return v; }
  long long gain(size_t n) {
    if (memo[n] >= 0) return memo[n]; auto& l = s.nodes[n].l; long long v;
    if (l.kind == "conv") v = (long long)l.par[0].w * l.par[0].h * l.in[0].m;
    else { v = next(n); if (l.kind == "maxpool" || l.kind == "amaxpool") v /= pool[n]; }
    return memo[n] = v;
  }
  std::vector<long long> pool;
};
// region size of a pooling layer, from its description
static long long region(const std::string& d) { size_t p = d.find("size="); unsigned a = 1, b = 1; if (p != std::string::npos) sscanf(d.c_str() + p, "size=%ux%u", &a, &b); return (long long)a * b; }

FACET(networks, 12000, 180000, "some convolution has several readers, or a pooling layer after it") {
  GSpec s = gen_graph(g, 8, false, 6, 2, 3); size_t total = 0, convs = 0; for (auto& n : s.nodes) { total += n.l.out[0].n(); convs += n.l.kind == "conv"; } g.assume(total < 8000 && convs); g.note() << s;
  Gains gains(s); gains.pool.assign(s.nodes.size(), 1); for (size_t n = 0; n < s.nodes.size(); n++) gains.pool[n] = region(s.nodes[n].l.desc);
  bool real = g.coin(); GNet a, b; a.build(g, s, true, nullptr, real); b.build(g, s, true, nullptr, real); size_t rounds = 1 + g.below(3); g.note() << " | initialised " << rounds << " times";
  for (size_t r = 0; r < rounds; r++) {
    if (r) for (auto* x : {&a, &b}) for (auto* nd : x->nodes) for (auto* p : nd->layer->parameters()) { Vals v{4, r}; fill(p->data, v); p->delta.Clear(); }
    a.graph.InitializeWeights(); b.graph.InitializeWeights();
    for (size_t n = 0; n < s.nodes.size(); n++) {
      auto& pa = a.nodes[n]->layer->parameters(); auto& pb = b.nodes[n]->layer->parameters(); REQUIRE(pa.size() == pb.size(), "parameters of n" << n);
      for (size_t k = 0; k < pa.size(); k++) REQUIRE(same_bits(pa[k]->data.data_ptr(), pb[k]->data.data_ptr(), pa[k]->data.elements()), "initial parameters " << k << " of n" << n << " depend on the order in which the nodes were added");
      if (s.nodes[n].l.kind == "hmax") for (size_t e = 0; e < 2; e++) REQUIRE(pa[0]->data.data_ptr()[e] == 1, "initial parameter " << e << " of n" << n << " is " << pa[0]->data.data_ptr()[e]);
      if (s.nodes[n].l.kind != "conv") continue;
      size_t readers = 0; bool pool = false; for (auto& q : s.nodes) for (auto& x : q.in) if (x.node == (int)n) { readers++; pool |= q.l.kind == "maxpool" || q.l.kind == "amaxpool"; } if (readers > 1 || pool) g.nontrivial();
      require_range(pa[0]->data, range_of((double)gains.gain(n), (double)gains.next(n)), "n" + std::to_string(n));
      for (size_t e = 0; e < pa[1]->data.elements(); e++) REQUIRE(pa[1]->data.data_ptr()[e] == 0, "initial bias " << e << " of n" << n << " is " << pa[1]->data.data_ptr()[e]);
    }
  }
}

// passes with dropout in testing and training mode
FACET(dropout, 8000, 120000, "dropout is not zero") {
  Dim d = gen_dim(g, 7, 3, 5); LSpec l = spec_conv(g, d, true); bool str = g.coin(); float p = g.chance(1, 8) ? 0.f : g.pick<float>({0.5f, 0.25f, 0.75f, 0.125f, 0.1f, 0.9f, 0.3f, 1.0f, 0.001f});
  size_t gr = l.in[0].m / l.par[0].m; unsigned pw = 0, ph = 0, sw = 1, sh = 1; { size_t q = l.desc.find("pad="); if (q != std::string::npos) sscanf(l.desc.c_str() + q, "pad=%ux%u", &pw, &ph); q = l.desc.find("stride="); if (q != std::string::npos) sscanf(l.desc.c_str() + q, "stride=%ux%u", &sw, &sh); }
  std::ostringstream cfg; cfg << "convolution(size=" << l.par[0].w << "x" << l.par[0].h << " kernels=" << l.out[0].m << " stride=" << sw << "x" << sh << " pad=" << pw << "x" << ph << " group=" << gr; if (p != 0 || g.coin()) cfg << " dropout=" << p; cfg << ")";
  auto mk = [&](float q) { return str && q == p ? static_cast<Conv::ConvolutionLayer*>(Conv::LayerFactory::ConstructLayer(cfg.str())) : new Conv::ConvolutionLayer(l.par[0].w, l.par[0].h, l.out[0].m, sw, sh, pw, ph, gr, 1, q); };
  One a(mk(p), d), ref(mk(0), d); g.note() << (str ? "" : "new ") << cfg.str() << " on " << d << ":"; if (p != 0) g.nontrivial();
  size_t passes = 1 + g.below(5);
  for (size_t k = 0; k < passes; k++) {
    bool testing = g.coin(); Vals vx = gen_vals(g), vw = gen_vals(g); fill(a.in->data, vx); ref.in->data.Resize(d.s, d.w, d.h, d.m); fill(ref.in->data, vx); for (auto* x : {&a, &ref}) { fill(x->w(), vw); Vals vb{3, vw.seed + 5}; fill(x->b(), vb); }
    g.note() << (testing ? " test" : " train"); a.st.SetIsTesting(testing); ref.st.SetIsTesting(testing);
    Tensor& o = a.outs[0]->data; Tensor& r = ref.outs[0]->data; o.Clear(99); ref.l->FeedForward(); bool refused = false; try { a.l->FeedForward(); } catch (std::exception&) { refused = true; }
    DA mag = l.f({[&] { DA x(a.in->data); for (auto& v : x.d) v = std::fabs(v); return x; }()}, {[&] { DA x(a.w()); for (auto& v : x.d) v = std::fabs(v); return x; }(), [&] { DA x(a.b()); for (auto& v : x.d) v = std::fabs(v); return x; }()})[0];
    if (testing) {
      REQUIRE(!refused, "testing with dropout was refused");
      for (size_t e = 0; e < o.elements(); e++) require_close(o.data_ptr()[e], (1.0 - p) * r.data_ptr()[e], 1.2e-7 * (l.ulps + 8) * mag.d[e] + 1e-30, "output " + std::to_string(e) + " of a testing pass");
    } else if (p == 0) {
      REQUIRE(!refused, "training without dropout was refused"); REQUIRE(same_bits(o.data_ptr(), r.data_ptr(), o.elements()), "training pass without dropout");
      // the mode makes no difference
      Arr keep(o); a.st.SetIsTesting(true); a.l->FeedForward(); require_same(o, keep, "testing and training pass of a layer without dropout");
    } else if (refused) g.label("training refused");
    else {  // performed: whole maps of single samples are dropped, the rest is unscaled
      for (size_t s = 0; s < o.samples(); s++) for (size_t m = 0; m < o.maps(); m++) { bool zero = true, same = true; for (size_t y = 0; y < o.height(); y++) for (size_t x = 0; x < o.width(); x++) { double v = *o.data_ptr(x, y, m, s), w = *r.data_ptr(x, y, m, s); zero &= v == 0; same &= std::fabs(v - w) <= 1e-5 * (1 + std::fabs(w)); } REQUIRE(zero || same, "map " << m << " of sample " << s << " is neither dropped nor complete"); if (p == 1) REQUIRE(zero, "kept a map although all are dropped"); }
      g.label("training performed");
    }
  }
  if (p != 0) {  // a fraction that matters is never ignored: enough maps see some dropping
    g.label("with dropout");
  }
}

// dropout over a large layer: training is refused, or drops about the fraction asked for
FACET(dropped, 400, 6000, "always") {
  g.nontrivial(); float p = g.pick<float>({0.5f, 0.25f, 0.75f, 0.1f, 0.9f}); size_t om = 40 + g.below(60), n = 20 + g.below(10); Dim d{n, 3, 2, 2}; One a(new Conv::ConvolutionLayer(2, 2, om, 1, 1, 0, 0, 1, 1 + (int)g.below(100), p), d); g.note() << "dropout " << p << ", " << om << " maps, " << n << " samples";
  a.st.SetIsTesting(false); Vals v{5, 3}; fill(a.in->data, v); fill(a.w(), v); bool refused = false; try { a.l->FeedForward(); } catch (std::exception&) { refused = true; }
  g.label(refused ? "training refused" : "training performed"); if (refused) return;
  size_t zero = 0; Tensor& o = a.outs[0]->data; for (size_t s = 0; s < n; s++) for (size_t m = 0; m < om; m++) zero += *o.data_ptr(0, 0, m, s) == 0; double e = p * om * n, sd = std::sqrt(e * (1 - p));
  REQUIRE(std::fabs(zero - e) < 7 * sd, "dropped " << zero << " of " << om * n << " maps, the dropout fraction is " << p);
}

// whole networks without dropout: training and testing compute the same
FACET(modes, 4000, 60000, "the network has three layers or more") {
  GSpec s = gen_graph(g, 6, false, 6, 2, 3); size_t total = 0; for (auto& n : s.nodes) total += n.l.out[0].n(); g.assume(total < 8000); g.note() << s; if (s.nodes.size() > 3) g.nontrivial();
  GNet a; a.build(g, s, false, nullptr, false); a.graph.InitializeWeights(); std::vector<Arr> keep; std::vector<Arr> pk; size_t passes = 2 + g.below(4);
  for (auto& t : a.data) { Vals v = gen_vals(g); fill(*t, v); }
  for (auto* nd : a.nodes) for (auto* p : nd->layer->parameters()) pk.push_back(Arr(p->data));
  for (size_t k = 0; k < passes; k++) {
    bool t = g.coin(); g.note() << (t ? " test" : " train"); a.graph.SetIsTesting(t); a.graph.FeedForward(); size_t i = 0, j = 0;
    for (auto* nd : a.nodes) for (auto& b : nd->output_buffers) { if (!k) keep.push_back(Arr(b.combined_tensor->data)); else require_same(b.combined_tensor->data, keep[i], "output " + std::to_string(i) + " of pass " + std::to_string(k)); i++; }
    for (auto* nd : a.nodes) for (auto* p : nd->layer->parameters()) require_same(p->data, pk[j++], "parameters after a forward pass");
  }
}
