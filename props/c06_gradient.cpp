// C06: back-propagation yields the true gradient.  Oracle: central differences
// of the double precision reference functions (exact for linear layers).
#include "graph.h"
#include "netdesc.h"
#include "ErrorLayer.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static double dot(const DAs& a, const std::vector<DA>& w) { double s = 0; for (size_t o = 0; o < a.size(); o++) for (size_t e = 0; e < a[o].d.size(); e++) s += a[o].d[e] * w[o].d[e]; return s; }

// derivative of L at *v; returns false when the two one-sided slopes disagree (kink)
static bool slope(const std::function<double()>& L, double base, double* v, bool linear, double scale, double& out, double& err) {
  double keep = *v, h = linear ? 1.0 : 1e-5;
  *v = keep + h; double up = L(); *v = keep - h; double dn = L(); *v = keep;
  double f = (up - base) / h, b = (base - dn) / h; out = (up - dn) / (2 * h);
  err = std::fabs(f - b);
  return linear || err <= 1e-3 * (std::fabs(out) + scale);
}

static void check_layer(G& g, const LSpec& l) {
  g.note() << l.desc << " on"; for (auto& d : l.in) g.note() << " " << d; g.label(l.kind);
  Rig rig; rig.layer.reset(l.make()); REQUIRE(rig.layer, "layer was not constructed");
  for (auto& d : l.in) rig.add(d.s, d.w, d.h, d.m);
  REQUIRE(rig.create() && rig.connect(), "refused");
  auto& P = rig.layer->parameters();
  if (g.chance(1, 3)) { float lr = g.pick<float>({2.f, 0.5f, 0.f}); g.note() << " local learning rate " << lr; rig.layer->SetLocalLearningRate(lr); }  // is the trainer's business
  size_t rounds = 1 + g.below(2), checked = 0;
  for (size_t r = 0; r < rounds; r++) {
    bool disabled = l.kind == "conv" && g.chance(1, 6); double scale = g.pick<double>({1, 1, 0.5, 2});
    std::vector<DA> in, w; DAs par; uint64_t sd = g.below(1 << 20); bool ties = g.chance(1, 8); Vals tv{1, sd};
    for (size_t i = 0; i < rig.ins.size(); i++) { if (ties) fill(rig.ins[i]->data, tv); else fill_generic(rig.ins[i]->data, sd + i, scale); in.emplace_back(rig.ins[i]->data); }
    for (size_t p = 0; p < P.size(); p++) { fill_generic(P[p]->data, sd + 100 + p); DA a(P[p]->data); static_cast<Dim&>(a) = l.par[p]; par.push_back(a); }
    rig.layer->SetBackpropagationEnabled(!disabled);
    rig.layer->FeedForward();
    // whatever a previous pass or anybody else left in the errors must not matter
    float junk = g.pick<float>({0.0f, 7.0f, NAN, -3e8f});
    for (auto* t : rig.ins) t->delta.Clear(junk); for (auto* t : P) t->delta.Clear(junk);
    bool sparse = g.chance(1, 5);
    for (size_t o = 0; o < rig.outs.size(); o++) { fill_generic(rig.outs[o]->delta, sd + 200 + o); if (sparse) { pbt::Rng q(sd); for (size_t e = 0; e < rig.outs[o]->delta.elements(); e++) if (q.below(4)) rig.outs[o]->delta[e] = 0; } w.emplace_back(rig.outs[o]->delta); }
    g.note() << " | round " << r << " values#" << sd << " x" << scale << (ties ? " ties" : "") << (disabled ? " input errors off" : "") << " junk " << junk;
    if (g.chance(1, 6)) rig.layer->BackPropagate();  // a repeated pass replaces the first one's result
    rig.layer->BackPropagate();
    auto L = [&] { return dot(l.f(in, par), w); };
    double base = L(); double gscale = 0.05; bool linear = l.linear;
    pbt::Rng pickr(sd + 9);
    auto probe = [&](DA& a, const Tensor& got, const std::string& what, size_t limit, const std::vector<Tensor*>& shadows) {
      size_t n = a.d.size(), step = n > limit ? n / limit : 1, off = step > 1 ? pickr.below(step) : 0; (void)shadows;
      for (size_t e = off; e < n; e += step) {
        double want, err; if (!slope(L, base, &a.d[e], linear, gscale, want, err)) { g.label("kink skipped"); continue; }
        double tol = 2e-4 * gscale + 1e-3 * std::fabs(want) + (linear ? 0 : 2 * err) + 1e-5 * l.ulps * scale;
        REQUIRE(std::fabs(got.data_ptr_const()[e] - want) <= tol, l.kind << ": error of " << what << " element " << e << " is " << got.data_ptr_const()[e] << ", derivative is " << want << " (tolerance " << tol << ", round " << r << ")");
        checked++;
      }
      // one random direction covers every element at once for linear layers
      if (linear) {
        DA keep = a; pbt::Rng q(sd + 77); std::vector<double> dir(n); double gotd = 0, mag = 0; for (size_t e = 0; e < n; e++) { dir[e] = 2 * q.unit() - 1; gotd += dir[e] * got.data_ptr_const()[e]; mag += std::fabs(dir[e] * got.data_ptr_const()[e]); a.d[e] += dir[e]; }
        double want = L() - base; a = keep;
        REQUIRE(std::fabs(gotd - want) <= 1e-5 * l.ulps * mag + 1e-5, l.kind << ": errors of " << what << " along a random direction give " << gotd << ", forward pass changes by " << want);
      }
    };
    if (!disabled) for (size_t i = 0; i < in.size(); i++) probe(in[i], rig.ins[i]->delta, "input " + std::to_string(i), 40, {});
    for (size_t p = 0; p < par.size(); p++) probe(par[p], P[p]->delta, "parameter " + std::to_string(p), 24, {});
    for (size_t i = 0; i < in.size(); i++) for (size_t e = 0; e < in[i].d.size(); e++) REQUIRE(rig.ins[i]->data[e] == (float)in[i].d[e], "back-propagation changed input data");
  }
  if (checked > 0) g.nontrivial();
}

FACET(layers, 6000, 120000, "at least one derivative compared") { Dim d = gen_dim(g, 7, 3, 4); LSpec l = gen_layer(g, d); g.assume(l.grad); check_layer(g, l); }
FACET(conv, 4000, 80000, "at least one derivative compared") { Dim d = gen_dim(g, 8, 3, 5); check_layer(g, spec_conv(g, d)); }
FACET(pool_lrn, 4000, 80000, "at least one derivative compared") {
  Dim d = gen_dim(g, 9, 2, 5); switch (g.below(4)) { case 0: check_layer(g, spec_maxpool(g, d)); break; case 1: check_layer(g, spec_amaxpool(g, d)); break; default: check_layer(g, spec_lrn(g, d)); }
}

// the regularization of the hmax layer (Triesch 2005): its weights descend on sum(y/mu - log(dy/dx)), its input on sum(y log y + y/mu)
FACET(hmax, 6000, 100000, "the regularization has a weight and there are several elements") {
  Dim d = gen_dim(g, 6, 3, 4); float mu = g.pick<float>({1.f, 0.5f, 0.25f, 2.f}), lw = g.pick<float>({0.f, 1.f, 0.5f, 0.125f}); std::string cfg = "hmax(mu=" + numtxt(mu) + " weight=" + numtxt(lw) + ")"; unsigned how = (unsigned)g.below(2); uint64_t sd = g.below(1 << 20); g.note() << cfg << " on " << d << " #" << sd; if (lw && d.n() > 1) g.nontrivial();
  Rig rig; rig.layer.reset(how ? Conv::LayerFactory::ConstructLayer(cfg) : new Conv::HMaxActivationFunction(mu, lw)); REQUIRE(rig.layer, "not constructed"); rig.add(d.s, d.w, d.h, d.m); REQUIRE(rig.create() && rig.connect(), "refused"); auto* p = rig.layer->parameters()[0]; pbt::Rng r(sd); p->data[0] = (float)(0.25 + 1.5 * r.unit()); p->data[1] = (float)(2 * r.unit() - 1); if (g.coin()) rig.layer->SetLocalLearningRate(g.pick<float>({2.f, 0.5f}));
  fill_generic(rig.ins[0]->data, sd + 1, 2); fill_generic(rig.outs[0]->delta, sd + 2); rig.layer->FeedForward(); rig.ins[0]->delta.Clear(NAN); p->delta.Clear(NAN); rig.layer->BackPropagate(); double a = p->data[0], b = p->data[1], wa = 0, wb = 0, ma = 0, mb = 0;
  for (size_t e = 0; e < d.n(); e++) {
    double x = rig.ins[0]->data[e], y = 1 / (1 + std::exp(-(a * x + b))), o = rig.outs[0]->delta[e], q = y * (1 - y); double want = o * a * q + lw * (q * (std::log(y) + 1) + q / mu), mag = std::fabs(o * a * q) + lw * (q * (std::fabs(std::log(y)) + 1) + q / mu);
    if (!(std::fabs(rig.ins[0]->delta[e] - want) <= 1e-5 * mag + 1e-7)) FAILMSG("error of the input at " << e << " is " << rig.ins[0]->delta[e] << ", expected " << want);
    double ra = -1 / a + x * (-(1 - 2 * y) + q / mu), rb = -(1 - 2 * y) + q / mu; wa += o * q * x + lw * ra; wb += o * q + lw * rb; ma += std::fabs(o * q * x) + lw * (1 / a + std::fabs(x) * (3 + 2 / mu)); mb += std::fabs(o * q) + lw * (4 + 2 / mu);
  }
  REQUIRE(std::fabs(p->delta[0] - wa) <= 1e-5 * ma + 1e-6, "gradient of the slope is " << p->delta[0] << ", expected " << wa); REQUIRE(std::fabs(p->delta[1] - wb) <= 1e-5 * mb + 1e-6, "gradient of the offset is " << p->delta[1] << ", expected " << wb);
}

// the loss layer: its error is the derivative of the loss it reports
FACET(loss, 8000, 160000, "more than one element and non-zero weights") {
  Dim d = gen_dim(g, 6, 3, 4); float lw = g.pick<float>({1.0f, 0.5f, 2.0f, 0.01f, 1.0f / 64});
  Conv::ErrorLayer layer(lw); CombinedTensor a(d.s, d.w, d.h, d.m), b(d.s, d.w, d.h, d.m), c(d.s, d.w, d.h, 1); CTV in{&a, &b, &c}, out; Conv::NetStatus st;
  REQUIRE(layer.CreateOutputs(in, out) && out.empty() && layer.Connect(in, out, &st), "refused");
  g.note() << "loss on " << d << " weight " << lw;
  if (d.n() > 1) g.nontrivial();
  for (int r = 0; r < 2; r++) {
    uint64_t sd = g.below(1 << 20); fill_generic(a.data, sd); fill_generic(b.data, sd + 1); fill_generic(c.data, sd + 2); bool zero = g.coin(); for (size_t e = 0; e < c.data.elements(); e++) { c.data[e] = std::fabs(c.data[e]); if (zero && e % 3 == 0) c.data[e] = 0; }
    a.delta.Clear(g.coin() ? NAN : 5.0f);
    layer.FeedForward(); if (g.coin()) layer.CalculateLossFunction(); layer.BackPropagate();
    for (size_t s = 0; s < d.s; s++) for (size_t m = 0; m < d.m; m++) for (size_t y = 0; y < d.h; y++) for (size_t x = 0; x < d.w; x++) {
      double want = ((double)*a.data.data_ptr(x, y, m, s) - *b.data.data_ptr(x, y, m, s)) * *c.data.data_ptr(x, y, 0, s) * lw;
      require_close(*a.delta.data_ptr(x, y, m, s), want, 1e-6 * lw + 1e-6, "error at " + std::to_string(x) + "," + std::to_string(y) + " map " + std::to_string(m) + " sample " + std::to_string(s));
    }
  }
}

// whole networks with fan-out, stacks of layers, sums and concatenations
FACET(network, 3000, 60000, "graph with at least three layers and at least one derivative compared") {
  GSpec s = gen_graph(g, 7, true, 5, 2, 3); g.note() << s;
  size_t total = 0; for (auto& n : s.nodes) total += n.l.out[0].n(); g.assume(total < 6000);
  GNet net; net.build(g, s, g.coin());
  std::vector<DA> data; std::vector<DAs> par(s.nodes.size()); uint64_t sd = g.below(1 << 20);
  for (size_t i = 0; i < net.data.size(); i++) { fill_generic(*net.data[i], sd + i); data.emplace_back(*net.data[i]); }
  for (size_t n = 0; n < s.nodes.size(); n++) for (size_t p = 0; p < net.nodes[n]->layer->parameters().size(); p++) { Tensor& t = net.nodes[n]->layer->parameters()[p]->data; fill_generic(t, sd + 50 + n * 3 + p, 0.7); DA a(t); static_cast<Dim&>(a) = s.nodes[n].l.par[p]; par[n].push_back(a); }
  net.graph.FeedForward();
  auto sinks = s.sinks(); std::vector<DA> w;
  float junk = g.pick<float>({0.0f, 3.0f, NAN});
  for (auto* n : net.graph.GetNodes()) { for (auto& b : n->output_buffers) b.combined_tensor->delta.Clear(junk); for (auto* p : n->layer->parameters()) p->delta.Clear(junk); }
  for (size_t k = 0; k < sinks.size(); k++) { fill_generic(net.out(sinks[k])->delta, sd + 300 + k); w.emplace_back(net.out(sinks[k])->delta); }
  if (g.chance(1, 4)) { net.graph.BackPropagate(); net.graph.FeedForward(); for (size_t k = 0; k < sinks.size(); k++) fill_generic(net.out(sinks[k])->delta, sd + 300 + k); }
  net.graph.BackPropagate();
  auto L = [&] { auto v = s.eval(data, par); double t = 0; for (size_t k = 0; k < sinks.size(); k++) { auto& o = v[sinks[k].node][sinks[k].buf]; for (size_t e = 0; e < o.d.size(); e++) t += o.d[e] * w[k].d[e]; } return t; };
  double base = L(); size_t checked = 0; pbt::Rng q(sd + 5);
  auto probe = [&](double* v, double got, const std::string& what, double mag) {
    double want, err; if (!slope(L, base, v, false, 0.1, want, err)) { g.label("kink skipped"); return; }
    double tol = 1e-3 * std::fabs(want) + 2e-4 * (1 + mag) + 3 * err;
    REQUIRE(std::fabs(got - want) <= tol, what << ": error is " << got << ", derivative is " << want << " (tolerance " << tol << ")"); checked++;
  };
  auto maxabs = [](const Tensor& t) { double m = 0; for (size_t e = 0; e < t.elements(); e++) m = std::max(m, (double)std::fabs(t.data_ptr_const()[e])); return m; };
  for (size_t i = 0, n = 0; n < s.nodes.size(); n++) if (s.nodes[n].input) { Tensor& dl = net.out({(int)n, 0})->delta; double mg = maxabs(dl); size_t ne = data[i].d.size();
      bool consumed = s.consumers({(int)n, 0}) > 0; for (int k = 0; k < 12 && consumed; k++) { size_t e = q.below(ne); probe(&data[i].d[e], dl[e], "input node " + std::to_string(n) + " element " + std::to_string(e), mg); } i++; }
  for (size_t n = 0; n < s.nodes.size(); n++) for (size_t p = 0; p < par[n].size(); p++) { Tensor& dl = net.nodes[n]->layer->parameters()[p]->delta; double mg = maxabs(dl); for (int k = 0; k < 6; k++) { size_t e = q.below(par[n][p].d.size()); probe(&par[n][p].d[e], dl[e], "node " + std::to_string(n) + " parameter " + std::to_string(p) + " element " + std::to_string(e), mg); } }
  if (checked && s.nodes.size() - s.inputs >= 3) g.nontrivial();
}

// networks built from a description: every parameter gets its derivative, whatever lies between it and the outputs
static size_t check_described(G& g, NDesc& n, size_t s, size_t w, size_t h, int probes) {
  bool loss = g.coin(); uint64_t sd = g.below(1 << 20);
  std::string shown = n.text; for (auto& ch : shown) if (ch == '\n') ch = '|'; g.note() << s << "s@" << w << "x" << h << (loss ? " loss: " : ": ") << shown;
  FNet f; f.build(n, 3, g.coin(), s, w, h, loss); REQUIRE(f.complete, "incomplete"); DAs par = f.randomize(sd);
  fill_generic(f.data, sd + 1); fill_generic(f.label, sd + 2); fill_generic(f.helper, sd + 3); for (size_t e = 0; e < f.weight.elements(); e++) f.weight[e] = (float)(1 + (e + sd) % 3) * 0.5f;
  f.graph.SetIsTesting(false);  // the loss layers write their errors in the forward pass
  float junk = g.pick<float>({0.0f, 3.0f, NAN}); for (auto* q : f.graph.GetNodes()) { for (auto& b : q->output_buffers) b.combined_tensor->delta.Clear(junk); for (auto* p : q->layer->parameters()) p->delta.Clear(junk); }
  f.graph.FeedForward(); auto& outs = f.graph.GetOutputNodes();
  std::vector<DA> dl; if (!loss) for (size_t o = 0; o < outs.size(); o++) { auto& t = outs[o]->output_buffers[0].combined_tensor->delta; fill_generic(t, sd + 300 + o); dl.emplace_back(t); }
  f.graph.BackPropagate();
  std::vector<double> lw; for (auto& o : n.ops) if (o.k == NOp::OUTPUT) lw.push_back(o.weight);
  DA data(f.data), helper(f.helper), label(f.label), weight(f.weight); double sc;
  auto L = [&] {
    DAs v = ref_net(n, true, data, helper, par, sc, false); double t = 0; if (!loss) return dot(v, dl);
    for (size_t o = 0; o < v.size(); o++) for (size_t e = 0; e < v[o].d.size(); e++) { size_t hw = w * h, sm = e / (hw * n.classes); double d = v[o].d[e] - label.d[e]; t += 0.5 * lw[o] * d * d * weight.d[sm * hw + e % hw]; }
    return t;
  };
  double base = L(); size_t checked = 0; pbt::Rng q(sd + 5); auto P = f.params();
  for (size_t p = 0; p < par.size(); p++) {
    Tensor& d = P[p]->delta; double mg = 0; for (size_t e = 0; e < d.elements(); e++) mg = std::max(mg, (double)std::fabs(d[e]));
    for (int k = 0; k < probes; k++) {
      size_t e = q.below(par[p].d.size()); double want, err; if (!slope(L, base, &par[p].d[e], false, 0.1, want, err)) { g.label("kink skipped"); continue; }
      REQUIRE(std::fabs(d[e] - want) <= 1e-3 * std::fabs(want) + 2e-4 * (1 + mg) + 3 * err, "error of parameter " << p << " element " << e << " is " << d[e] << ", derivative is " << want); checked++;
    }
    // and all elements at once, along a random direction
    DA keep = par[p]; pbt::Rng dr(sd + 60 + p); std::vector<double> dir(keep.d.size()); double got = 0, mag = 0, t = 0, want, err; for (size_t e = 0; e < dir.size(); e++) { dir[e] = (double)dr.below(3) - 1; got += dir[e] * d[e]; mag += std::fabs(dir[e] * d[e]); }
    auto along = [&] { for (size_t e = 0; e < dir.size(); e++) par[p].d[e] = keep.d[e] + t * dir[e]; return L(); }; bool ok = slope(along, base, &t, false, 0.1, want, err); par[p] = keep; if (!ok) { g.label("kink skipped along a direction"); continue; }
    REQUIRE(std::fabs(got - want) <= 1e-3 * std::fabs(want) + 2e-4 * (1 + mag) + 3 * err, "error of parameter " << p << " along a direction is " << got << ", derivative is " << want); checked++;
  }
  if (n.count(NOp::CONCAT) || n.count(NOp::SUM)) g.label("branches"); if (n.count(NOp::PRIOR)) g.label("prior"); if (outs.size() > 1) g.label("two outputs");
  return checked;
}
FACET(described, 2500, 50000, "at least two convolutions and five operations, and at least one derivative compared") {
  NGen c; c.maxops = 6; c.maxrf = 6; c.maxfactor = 4; NDesc n = gen_netdesc(g, c); render_all(g, n, {}, false);
  { bool first = true; for (auto& o : n.ops) { g.assume(o.k != NOp::DOWN || first); if (o.k != NOp::DOWN && o.k != NOp::FLATTEN && o.k != NOp::PUSH && o.k != NOp::POP) first = false; } }  // input downsampling refuses to back-propagate
  size_t s = 1 + g.below(2), w = n.fx * (1 + g.below(std::max<size_t>(1, 4 / n.fx))), h = n.fy * (1 + g.below(std::max<size_t>(1, 4 / n.fy))); size_t checked = check_described(g, n, s, w, h, 5);
  if (checked && n.ops.size() > 4 && n.count(NOp::CONV) > 1) g.nontrivial();
}

// networks of the size people train
FACET(realistic, 60, 700, "a layer of at least 32 maps and a window of at least five pixels") {
  size_t macs; NDesc n = gen_realistic(g, true, macs); render_all(g, n, {}, false); size_t s = 1 + g.below(3), w = n.fx * (1 + g.below(std::max<size_t>(1, 8 / n.fx))), h = n.fy * (1 + g.below(std::max<size_t>(1, 8 / n.fy))); g.assume(macs * (w + n.rfx) * (h + n.rfy) * s < 8000000); size_t checked = check_described(g, n, s, w, h, 2);
  bool big = false, win = false; for (auto& o : n.ops) { big |= o.k == NOp::CONV && o.om >= 32; win |= o.k == NOp::CONV && o.kw >= 5; } if (checked && big && win) g.nontrivial();
}
