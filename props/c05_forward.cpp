// C05: every layer's forward pass computes its definition.
#include "layers.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static void check_layer(G& g, const LSpec& l, unsigned maxkind) {
  g.note() << l.desc << " on"; for (auto& d : l.in) g.note() << " " << d;
  g.label(l.kind); if (l.in[0].w != l.in[0].h) g.nontrivial();
  Rig rig; rig.layer.reset(l.make()); REQUIRE(rig.layer, "layer was not constructed");
  for (auto& d : l.in) rig.add(d.s, d.w, d.h, d.m);
  REQUIRE(rig.create(), "CreateOutputs refused"); REQUIRE(rig.outs.size() == l.out.size(), rig.outs.size() << " outputs");
  for (size_t o = 0; o < l.out.size(); o++) { require_shape(rig.outs[o]->data, l.out[o].s, l.out[o].w, l.out[o].h, l.out[o].m, "output"); require_shape(rig.outs[o]->delta, l.out[o].s, l.out[o].w, l.out[o].h, l.out[o].m, "output error"); }
  REQUIRE(rig.connect(), "Connect refused");
  auto& P = rig.layer->parameters(); REQUIRE(P.size() == l.par.size(), P.size() << " parameter tensors");
  for (size_t p = 0; p < P.size(); p++) REQUIRE(dim(P[p]->data).n() == l.par[p].n() && dim(P[p]->delta).n() == l.par[p].n(), "parameter " << p << " has shape " << shape(P[p]->data) << ", expected " << l.par[p]);
  if (!l.par.empty() && l.kind == "conv") require_shape(P[0]->data, l.par[0].s, l.par[0].w, l.par[0].h, l.par[0].m, "weights");
  size_t rounds = 1 + g.below(3); bool testing = g.coin();
  rig.status.SetIsTesting(testing); bool copies = l.kind == "maxpool" || l.kind == "amaxpool" || l.kind == "upscale" || l.kind == "resize" || l.kind == "fanout";  // values pass unchanged
  for (size_t r = 0; r < rounds; r++) {
    DAs in, par; std::vector<Arr> keep, pkeep;
    for (auto* t : rig.ins) { Vals v = gen_vals(g, maxkind); g.note() << v; fill(t->data, v); if (copies && g.chance(1, 5)) { float by = g.pick<float>({1e30f, -1e30f, 1e-36f, 3e38f}), off = g.coin() ? -1.f : 0.f; g.note() << "*" << by << (off ? "-" : ""); for (size_t e = 0; e < t->data.elements(); e++) { float q = std::max(-1.f, std::min(1.f, t->data[e] / 4 + off / 2)); t->data[e] = q * by; } g.label("huge or tiny values"); } in.emplace_back(t->data); keep.emplace_back(t->data); }
    for (auto* t : P) { Vals v = gen_vals(g, 3); fill(t->data, v); DA a(t->data); par.push_back(a); pkeep.emplace_back(t->data); }
    for (size_t p = 0; p < par.size(); p++) static_cast<Dim&>(par[p]) = l.par[p];
    if (l.kind != "fanout") for (auto* t : rig.outs) t->data.Clear(NAN);  // anything not written shows
    rig.layer->FeedForward();
    DAs want = l.f(in, par), mag;
    if (l.linear) { DAs ai = in, ap = par; for (auto& a : ai) for (auto& v : a.d) v = std::fabs(v); for (auto& a : ap) for (auto& v : a.d) v = std::fabs(v); mag = l.f(ai, ap); }
    for (size_t o = 0; o < want.size(); o++) { require_shape(rig.outs[o]->data, l.out[o].s, l.out[o].w, l.out[o].h, l.out[o].m, "output after evaluation");
      for (size_t e = 0; e < want[o].d.size(); e++) {
        double w = want[o].d[e], m = l.linear ? mag[o].d[e] : std::fabs(w);
        double tol = l.ulps * 1.2e-7 * m + (l.ulps ? 1e-30 : 0); if (l.kind == "tanh" || l.kind == "sigm" || l.kind == "hmax") tol = 1e-6;
        if (!(std::fabs(rig.outs[o]->data[e] - w) <= tol)) FAILMSG("round " << r << ": output " << o << " element " << e << " (x=" << e % l.out[o].w << ", y=" << e / l.out[o].w % l.out[o].h << ") is " << rig.outs[o]->data[e] << ", expected " << w << " (tolerance " << tol << ")");
      } }
    for (size_t i = 0; i < rig.ins.size(); i++) require_same(rig.ins[i]->data, keep[i], "input after evaluation");
    for (size_t p = 0; p < P.size(); p++) require_same(P[p]->data, pkeep[p], "parameter after evaluation");
    if (g.chance(1, 4) && l.grad) { for (auto* t : rig.outs) fill_generic(t->delta, r); rig.layer->BackPropagate(); g.label("backward pass between forward passes"); }
  }
}

FACET(layers, 40000, 800000, "input not square") { Dim d = gen_dim(g); check_layer(g, gen_layer(g, d), 4); }
FACET(conv, 12000, 240000, "input not square") { Dim d = gen_dim(g, 12, 4, 6); check_layer(g, spec_conv(g, d), 4); }
FACET(pool_lrn, 16000, 320000, "input not square") {
  Dim d = gen_dim(g, 14, 2, 5); switch (g.below(3)) { case 0: check_layer(g, spec_maxpool(g, d), 4); break; case 1: check_layer(g, spec_amaxpool(g, d), 4); break; default: check_layer(g, spec_lrn(g, d), 4); }
}
// the softmax layer normalizes a vector, which lies along the width
FACET(softmax, 8000, 160000, "several samples of several elements") {
  size_t S = upto(g, 5, 40), W = upto(g, 12, 100); Vals v = gen_vals(g, 3); CombinedTensor x(S, W, 1, 1); fill(x.data, v); double scale = g.pick<double>({1, 5, 0.1}); for (size_t e = 0; e < x.data.elements(); e++) x.data[e] = (float)std::max(-30.0, std::min(30.0, x.data[e] * scale)); g.note() << S << " vectors of " << W << " " << v << " times " << scale; if (S > 1 && W > 1) g.nontrivial();
  Conv::SoftmaxLayer l; Conv::Layer& b = l; CTV in = {&x}, out; REQUIRE(b.CreateOutputs(in, out) && out.size() == 1, "refused"); std::unique_ptr<CombinedTensor> own(out[0]); Conv::NetStatus st; REQUIRE(b.Connect(in, out, &st), "refused"); require_shape(out[0]->data, S, W, 1, 1, "output"); Arr keep(x.data); out[0]->data.Clear(NAN); l.FeedForward();
  for (size_t s = 0; s < S; s++) { double sum = 0; for (size_t e = 0; e < W; e++) sum += std::exp((double)x.data[s * W + e]); for (size_t e = 0; e < W; e++) { double want = std::exp((double)x.data[s * W + e]) / sum, got = out[0]->data[s * W + e]; if (!(std::fabs(got - want) <= 3e-6 * want * (1 + W) + 1e-30)) FAILMSG("element " << e << " of vector " << s << " is " << got << ", expected " << want); } }
  require_same(x.data, keep, "input after evaluation");
}
