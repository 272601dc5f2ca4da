// C10: a network description builds the network it describes.
#include <set>
#include "netdesc.h"
#include "ConvolutionLayer.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

struct Peek : Conv::Layer { static float lr(Conv::Layer* l) { return l->*(&Peek::local_lr_); } };
static std::string oneline(std::string s) { for (auto& c : s) if (c == '\n') c = '|'; return s; }
static void check_llr(const NDesc& n, FNet& f) {
  std::vector<float> want, got; for (auto& o : n.ops) if (o.k == NOp::CONV) want.push_back(o.llr);
  for (auto* q : f.graph.GetNodes()) if (dynamic_cast<Conv::ConvolutionLayer*>(q->layer)) got.push_back(Peek::lr(q->layer));
  REQUIRE(want == got, "learning rate factors of the convolutions differ from those written");
}
static void compare(const DAs& want, FNet& f, double scale, double rel = 2e-4) {
  auto& outs = f.graph.GetOutputNodes(); REQUIRE(outs.size() == want.size(), outs.size() << " output nodes, expected " << want.size());
  for (size_t o = 0; o < want.size(); o++) {
    auto& t = outs[o]->output_buffers[0].combined_tensor->data; require_shape(t, want[o].s, want[o].w, want[o].h, want[o].m, "network output " + std::to_string(o));
    for (size_t e = 0; e < want[o].d.size(); e++) require_close(t[e], want[o].d[e], rel * (1 + scale), "network output " + std::to_string(o) + " element " + std::to_string(e));
  }
}
static bool interesting(const NDesc& n) { return n.ops.size() > 4 && n.count(NOp::CONV) > 1; }
static void labels(G& g, const NDesc& n) { if (n.fx > 1 || n.fy > 1) g.label("downsampled"); if (n.count(NOp::CONCAT) || n.count(NOp::SUM)) g.label("branches"); if (n.count(NOp::PRIOR)) g.label("prior"); if (n.count(NOp::OUTPUT) > 1) g.label("two outputs"); if (n.manual) g.label("manual"); }

// fully convolutional networks
FACET(fcn, 12000, 150000, "at least two convolutions and five operations") {
  NGen c; c.dropout = true; NDesc n = gen_netdesc(g, c); if (n.rfx && n.rfy && g.chance(1, 5)) n.manual = true; render_all(g, n);
  size_t s = 1 + g.below(2), w = n.fx * (1 + g.below(std::max<size_t>(1, 8 / n.fx))), h = n.fy * (1 + g.below(std::max<size_t>(1, 8 / n.fy))); bool loss = g.coin(); uint64_t seed = g.below(1000);
  g.note() << s << "s@" << w << "x" << h << " " << n.channels << " channels " << n.classes << " classes: " << oneline(n.text); if (interesting(n)) g.nontrivial(); labels(g, n);
  FNet f; f.build(n, 1 + (unsigned)seed, g.coin(), s, w, h, loss); REQUIRE(f.complete, "the network is reported as incomplete"); REQUIRE(f.factory->method() == Conv::FCN, "method");
  DAs par = f.randomize(seed); check_llr(n, f); fill_generic(f.data, seed + 500); fill_generic(f.label, seed + 600); fill_generic(f.helper, seed + 700); for (size_t e = 0; e < f.weight.elements(); e++) f.weight[e] = (float)((e * 7 + seed) % 5) / 4;
  f.graph.SetIsTesting(true); f.graph.FeedForward(); double scale; DAs want = ref_net(n, true, DA(f.data), DA(f.helper), par, scale);
  for (auto& o : want) REQUIRE(o.w == w && o.h == h && o.m == n.classes, "reference: output of " << o << " for an input of " << w << "x" << h);
  compare(want, f, scale);
  REQUIRE(f.graph.GetLossNodes().size() == (loss ? want.size() : 0) + n.count(NOp::HMAX), f.graph.GetLossNodes().size() << " loss layers");
  if (loss) {
    double l = 0; size_t q = 0; for (auto& o : n.ops) if (o.k == NOp::OUTPUT) { for (size_t e = 0; e < want[q].d.size(); e++) { size_t hw = w * h, px = e % hw, sm = e / (hw * n.classes); double d = want[q].d[e] - f.label[e]; l += 0.5 * o.weight * f.weight[sm * hw + px] * d * d; } q++; }
    require_close(f.graph.AggregateLoss(), l, 1e-3 * (1 + l), "loss");
  }
}

// a receptive field and factors given by hand take the place of the computed ones
FACET(manual, 8000, 100000, "the given numbers differ from the computed ones") {
  NGen c; c.prior = false; NDesc n = gen_netdesc(g, c); size_t rx = n.rfx, ry = n.rfy, fx = n.fx, fy = n.fy; n.manual = true; n.rfx = 1 + (size_t)g.small(0, 11); n.rfy = 1 + (size_t)g.small(0, 11); n.fx = 1 + g.below(4); n.fy = 1 + g.below(4); render_all(g, n); if (n.rfx != rx || n.rfy != ry || n.fx != fx || n.fy != fy) g.nontrivial();
  size_t s = 1 + g.below(2), w = rx + fx * (1 + g.below(4)), h = ry + fy * (1 + g.below(4)); uint64_t seed = g.below(1000); g.note() << s << "s@" << w << "x" << h << " " << n.channels << " channels " << n.classes << " classes: " << oneline(n.text);
  { std::istringstream t("method=patch\n" + n.text); Conv::ConfigurableFactory q(t, 7, true); REQUIRE(q.patchsizex() == (int)(n.rfx + n.fx) && q.patchsizey() == (int)(n.rfy + n.fy), "patch size is " << q.patchsizex() << "x" << q.patchsizey() << ", given " << n.rfx << "+" << n.fx << " x " << n.rfy << "+" << n.fy); }
  FNet f; try { f.build(n, 1 + (unsigned)seed, g.coin(), s, w, h, false); } catch (const std::runtime_error&) { throw pbt::Discard(); } REQUIRE(f.complete, "the network is reported as incomplete");
  DAs par = f.randomize(seed); fill_generic(f.data, seed + 500); f.graph.SetIsTesting(true); f.graph.FeedForward(); double scale; compare(ref_net(n, true, DA(f.data), DA(f.helper), par, scale), f, scale);
}

// patch networks: one patch, one pixel
FACET(patch, 10000, 120000, "at least two convolutions and five operations") {
  NGen c; c.pads = false; c.upscale = false; NDesc n = gen_netdesc(g, c); render_all(g, n, {"method=patch"});
  size_t s = 1 + g.below(4); uint64_t seed = g.below(1000); bool loss = g.coin(); g.note() << s << " patches " << n.channels << " channels " << n.classes << " classes: " << oneline(n.text); if (interesting(n)) g.nontrivial(); labels(g, n);
  FNet f; f.file.str(n.text); f.factory.reset(new Conv::ConfigurableFactory(f.file, 7, true)); REQUIRE(f.factory->method() == Conv::PATCH, "method=patch is not honoured");
  size_t pw = n.rfx + n.fx, ph = n.rfy + n.fy; REQUIRE(f.factory->patchsizex() == (int)pw && f.factory->patchsizey() == (int)ph, "patch size is " << f.factory->patchsizex() << "x" << f.factory->patchsizey() << ", one pixel sees " << pw << "x" << ph);
  f.attach(n.channels, n.classes, s, pw, ph, loss, 1, 1); REQUIRE(f.complete, "the network is reported as incomplete");
  DAs par = f.randomize(seed); check_llr(n, f); fill_generic(f.data, seed + 500); fill_generic(f.helper, seed + 700); f.graph.SetIsTesting(true); f.graph.FeedForward();
  double scale; DAs want = ref_net(n, false, DA(f.data), DA(f.helper), par, scale); for (auto& o : want) REQUIRE(o.w == 1 && o.h == 1, "reference: output " << o);
  compare(want, f, scale);
  std::istringstream again(n.text); Conv::ConfigurableFactory other(again, 7, false); REQUIRE(other.method() == Conv::FCN, "method=patch is honoured outside training");
}

// networks of the size people train
FACET(realistic, 300, 3000, "a layer of at least 32 maps and a window of at least five pixels") {
  bool patch = g.coin(); size_t macs; NDesc n = gen_realistic(g, !patch, macs); if (patch) render_all(g, n, {"method=patch"}); else render_all(g, n); uint64_t seed = g.below(1000); size_t s = 1 + g.below(patch ? 4 : 2), w = n.rfx + n.fx, h = n.rfy + n.fy; if (!patch) { w = n.fx * (1 + g.below(std::max<size_t>(1, 12 / n.fx))); h = n.fy * (1 + g.below(std::max<size_t>(1, 12 / n.fy))); }
  size_t at = patch ? w * h / 4 + 1 : (w + n.rfx) * (h + n.rfy); g.assume(macs * at * s < 40000000); bool big = false, win = false; for (auto& o : n.ops) { big |= o.k == NOp::CONV && o.om >= 32; win |= o.k == NOp::CONV && o.kw >= 5; } if (big && win) g.nontrivial();
  g.note() << (patch ? "patches " : "") << s << "s@" << w << "x" << h << " " << n.channels << " channels " << n.classes << " classes: " << oneline(n.text); FNet f; f.file.str(n.text); f.factory.reset(new Conv::ConfigurableFactory(f.file, 7, true)); REQUIRE(f.factory->method() == (patch ? Conv::PATCH : Conv::FCN), "method"); if (patch) REQUIRE(f.factory->patchsizex() == (int)w && f.factory->patchsizey() == (int)h, "patch size is " << f.factory->patchsizex() << "x" << f.factory->patchsizey());
  f.attach(n.channels, n.classes, s, w, h, false, patch ? 1 : w, patch ? 1 : h); REQUIRE(f.complete, "the network is reported as incomplete"); DAs par = f.randomize(seed); fill_generic(f.data, seed + 500); fill_generic(f.helper, seed + 700); f.graph.SetIsTesting(true); f.graph.FeedForward(); double scale; DAs want = ref_net(n, !patch, DA(f.data), DA(f.helper), par, scale); compare(want, f, scale, 1e-3);
}

// a network trained on patches evaluates whole images
FACET(modes_agree, 5000, 60000, "the receptive field is larger than one pixel") {
  NGen c; c.plain = true; c.pads = false; c.upscale = false; c.prior = false; c.hmax = false; c.maxrf = 8; NDesc n = gen_netdesc(g, c); render_all(g, n, {"method=patch"});
  size_t s = 1 + g.below(2), w = n.fx * (1 + g.below(std::max<size_t>(1, 6 / n.fx))), h = n.fy * (1 + g.below(std::max<size_t>(1, 6 / n.fy))); uint64_t seed = g.below(1000); bool back = g.coin();
  g.note() << s << "s@" << w << "x" << h << " " << n.channels << " channels: " << oneline(n.text); if (n.rfx || n.rfy) g.nontrivial(); labels(g, n);
  FNet f, p; f.build(n, 1, false, s, w, h, false); size_t pw = n.rfx + n.fx, ph = n.rfy + n.fy, px = w / n.fx, py = h / n.fy;
  p.file.str(n.text); p.factory.reset(new Conv::ConfigurableFactory(p.file, 2, true)); p.attach(n.channels, n.classes, s * px * py, pw, ph, false, 1, 1);
  FNet &from = back ? f : p, &to = back ? p : f; from.randomize(seed); std::stringstream file; from.graph.SerializeParameters(file); to.graph.DeserializeParameters(file);
  fill_generic(f.data, seed + 500); for (size_t k = 0; k < s; k++) for (size_t by = 0; by < py; by++) for (size_t bx = 0; bx < px; bx++) for (size_t m = 0; m < n.channels; m++) for (size_t y = 0; y < ph; y++) for (size_t x = 0; x < pw; x++) {
    long ix = (long)(bx * n.fx + x) - (long)(n.rfx / 2), iy = (long)(by * n.fy + y) - (long)(n.rfy / 2); *p.data.data_ptr(x, y, m, (k * py + by) * px + bx) = ix < 0 || iy < 0 || ix >= (long)w || iy >= (long)h ? 0 : *f.data.data_ptr(ix, iy, m, k); }
  f.graph.FeedForward(); p.graph.FeedForward(); REQUIRE(f.graph.GetOutputNodes().size() == p.graph.GetOutputNodes().size(), "number of outputs");
  for (size_t o = 0; o < f.graph.GetOutputNodes().size(); o++) {
    Tensor &a = f.graph.GetOutputNodes()[o]->output_buffers[0].combined_tensor->data, &b = p.graph.GetOutputNodes()[o]->output_buffers[0].combined_tensor->data; require_shape(a, s, w, h, n.classes, "whole image output"); require_shape(b, s * px * py, 1, 1, n.classes, "patch output");
    for (size_t k = 0; k < s; k++) for (size_t m = 0; m < n.classes; m++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) require_close(*a.data_ptr(x, y, m, k), *b.data_ptr(0, 0, m, (k * py + y / n.fy) * px + x / n.fx), 1e-4, "pixel " + std::to_string(x) + "," + std::to_string(y) + " of the image and of its patch");
  }
}

// hyper-parameters
FACET(settings, 20000, 250000, "several settings in shuffled order among layers and comments") {
  struct S { std::string key; double v; bool integer; }; std::vector<S> set; std::vector<std::string> lines; const char* keys[] = {"l1", "l2", "lr", "gamma", "momentum", "exponent", "eta", "mu", "iterations", "sbatchsize", "pbatchsize"};
  for (int k = 0; k < 11; k++) if (g.coin()) { S s; s.key = keys[k]; s.integer = k >= 8; s.v = s.integer ? (double)g.below(100000) : g.pick<double>({0, 1, 0.5, 0.0008, 0.02, 1e-05, 0.003, 0.75, 123.25, 2, 0.125}); set.push_back(s); lines.push_back(s.key + "=" + (s.integer ? std::to_string((unsigned)s.v) : numtxt(s.v))); }
  int opt = (int)g.below(3); if (opt == 1) lines.push_back("optimization=gradient_descent"); if (opt == 2) lines.push_back("optimization=quickprop"); bool patch = g.coin(); if (patch) lines.push_back("method=patch");
  NGen c; c.maxops = 3; NDesc n = gen_netdesc(g, c); render_all(g, n, lines); g.note() << oneline(n.text); if (set.size() > 2) g.nontrivial();
  std::istringstream file(n.text); Conv::ConfigurableFactory f(file, 1, true); f.InitOptimalSettings(); Conv::TrainerSettings t = f.optimal_settings(), d;
  auto want = [&](const char* key, double dflt) { for (auto& s : set) if (s.key == key) return s.v; return dflt; };
  auto chk = [&](const char* key, double got, double dflt) { double w = want(key, dflt); REQUIRE((float)got == (float)w, key << " is " << got << ", written " << w); };
  chk("l1", t.l1_weight, d.l1_weight); chk("l2", t.l2_weight, d.l2_weight); chk("lr", t.learning_rate, d.learning_rate); chk("gamma", t.gamma, d.gamma); chk("momentum", t.momentum, d.momentum); chk("exponent", t.exponent, d.exponent); chk("eta", t.eta, d.eta); chk("mu", t.mu, d.mu);
  chk("iterations", t.iterations, d.iterations); chk("sbatchsize", t.sbatchsize, d.sbatchsize); chk("pbatchsize", t.pbatchsize, d.pbatchsize);
  REQUIRE(t.optimization_method == (opt == 2 ? Conv::QUICKPROP : Conv::GRADIENT_DESCENT), "optimization method"); REQUIRE((f.method() == Conv::PATCH) == patch, "method");
  // reading the settings does not disturb the layers and the other way round
  f.InitOptimalSettings(); t = f.optimal_settings(); chk("lr", t.learning_rate, d.learning_rate);
}

// the same description and seed: the same network
FACET(reproducible, 3000, 40000, "at least two convolutions and five operations") {
  NGen c; c.maxops = 5; NDesc n = gen_netdesc(g, c); render_all(g, n); unsigned seed = 1 + (unsigned)g.below(100000), other = 1 + (unsigned)g.below(100000); bool settings = g.coin(), loss = g.coin();
  g.note() << "seed " << seed << ": " << oneline(n.text); if (interesting(n)) g.nontrivial();
  auto weights = [&](FNet& f) { f.graph.InitializeWeights(); std::vector<float> v; for (auto* p : f.params()) for (size_t e = 0; e < p->data.elements(); e++) v.push_back(p->data[e]); return v; };
  FNet a, b, d; a.build(n, seed, false, 1, n.fx, n.fy, loss); b.file.str(n.text); b.factory.reset(new Conv::ConfigurableFactory(b.file, seed, false)); if (settings) b.factory->InitOptimalSettings(); b.attach(n.channels, n.classes, 2, n.fx * 2, n.fy, false, n.fx * 2, n.fy); d.build(n, other, false, 1, n.fx, n.fy, loss);
  auto x = weights(a), y = weights(b), z = weights(d); if (!loss) REQUIRE(x == y, "two networks of the same description and seed differ"); else REQUIRE(x.size() == y.size(), "number of weights");
  if (other != seed) REQUIRE(x != z, "networks of different seeds start from the same weights");
  // the same factory builds a second network
  FNet e; e.data.Resize(1, n.fx, n.fy, n.channels); e.data.Clear(); e.label.Resize(1, n.fx, n.fy, n.classes); e.helper.Resize(1, n.fx, n.fy, 2); e.weight.Resize(1, n.fx, n.fy, 1); e.input = new Conv::NetGraphNode(new Conv::InputLayer(e.data, e.label, e.helper, e.weight)); e.input->is_input = true; e.graph.AddNode(e.input);
  REQUIRE(a.factory->AddLayers(e.graph, Conv::NetGraphConnection(e.input, 0), n.classes, loss), "incomplete"); e.graph.Initialize(); REQUIRE(weights(e) == x, "a factory builds another network the second time");
}

// stack operations without a counterpart are refused
FACET(stacks, 4000, 50000, "the stack operations are not balanced") {
  std::string t = "?convolutional size=1x1 kernels=2\n"; int d[2] = {0, 0}; bool bad = false; size_t k = g.below(8); int q = g.chance(1, 3) ? (int)g.below(140) : 0; 
  for (size_t i = 0; i < k; i++) { int s = (int)g.below(2); if (g.coin()) { t += s ? "pushb\n" : "pusha\n"; d[s]++; } else { t += s ? "popb\n" : "popa\n"; if (--d[s] < 0) bad = true; } if (bad) break; }
  if (!bad && q) { int s = (int)g.below(2); for (int i = 0; i < q; i++) t += s ? "pushb\n" : "pusha\n"; if (q + d[s] > 64) bad = true; g.note() << "+" << q << " "; }
  t += "?relu\n?output\n"; g.note() << oneline(t.substr(0, 120)); if (bad) g.nontrivial();
  FNet f; f.file.str(t); f.factory.reset(new Conv::ConfigurableFactory(f.file, 1, false)); bool refused = false; try { f.attach(1, 2, 1, 2, 2, false, 2, 2); } catch (std::runtime_error&) { refused = true; }
  if (bad) REQUIRE(refused || !f.complete, "unbalanced stack operations were accepted"); else { REQUIRE(!refused && f.complete, "balanced stack operations were refused"); f.randomize(1); f.graph.FeedForward(); }
}
