// C08: invalid wiring is refused, accepted wiring can be evaluated safely.
// Memory safety is decided by the address/undefined behaviour sanitizers.
#include "graph.h"
#include "ErrorLayer.h"
#include "BinaryStatLayer.h"
#include "ConfusionMatrixLayer.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
static CTV g_owned;
void pbt::setup_case() { for (auto* t : g_owned) delete t; g_owned.clear(); }

enum Verdict { REFUSE, ACCEPT, EITHER };
// a layer with arbitrary, often invalid parameters, and what must happen for given inputs
struct Cand { std::string desc; std::function<Conv::Layer*()> make; size_t nin; std::function<Verdict(const std::vector<Dim>&)> verdict; bool bp = true; };

static size_t tiny(G& g, size_t hi) { return g.chance(1, 12) ? 0 : 1 + g.below(hi); }
static std::string xy(size_t a, size_t b) { return std::to_string(a) + "x" + std::to_string(b); }

static Cand gen_cand(G& g) {
  Cand c; c.nin = 1; bool str = g.coin();
  switch (g.below(17)) {
    case 0: case 1: case 2: {
      size_t kw = tiny(g, 6), kh = tiny(g, 6), om = tiny(g, 6), sw = tiny(g, 4), sh = tiny(g, 4), pw = g.chance(1, 2) ? g.below(4) : 0, ph = g.chance(1, 2) ? g.below(4) : 0, gr = g.coin() ? 1 : tiny(g, 4);
      if (g.chance(1, 30)) kw = g.pick<size_t>({4294967295u, 2147483647u, 65536}); if (g.chance(1, 30)) kh = g.pick<size_t>({4294967295u, 2147483648u, 1000});
      c.desc = "convolution(size=" + xy(kw, kh) + " kernels=" + std::to_string(om) + " stride=" + xy(sw, sh) + " pad=" + xy(pw, ph) + " group=" + std::to_string(gr) + " seed=3)"; std::string d = c.desc; if (kw > 4294967294u || kh > 2147483647u) str = false;
      c.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(d); return new Conv::ConvolutionLayer(kw, kh, om, sw, sh, pw, ph, gr, 3, 0.0); };
      c.verdict = [=](const std::vector<Dim>& in) { if (!kw || !kh || !sw || !sh || !gr || om % gr) return REFUSE; if (in[0].m % gr || kw > in[0].w + 2 * pw || kh > in[0].h + 2 * ph) return REFUSE; return om ? ACCEPT : EITHER; };
      break; }
    case 3: case 4: { size_t rw = tiny(g, 5), rh = tiny(g, 5); c.desc = "maxpooling(size=" + xy(rw, rh) + ")"; std::string d = c.desc; c.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(d); return new Conv::MaxPoolingLayer(rw, rh); };
      c.verdict = [=](const std::vector<Dim>& in) { return !rw || !rh || in[0].w % rw || in[0].h % rh ? REFUSE : ACCEPT; }; break; }
    case 5: { size_t rw = tiny(g, 5), rh = tiny(g, 5), sw = tiny(g, 4), sh = tiny(g, 4); c.desc = "amaxpooling(size=" + xy(rw, rh) + " stride=" + xy(sw, sh) + ")"; std::string d = c.desc; c.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(d); return new Conv::AdvancedMaxPoolingLayer(rw, rh, sw, sh); };
      c.verdict = [=](const std::vector<Dim>& in) { return !rw || !rh || !sw || !sh || rw > in[0].w || rh > in[0].h ? REFUSE : ACCEPT; }; break; }
    case 6: { size_t rw = tiny(g, 4), rh = tiny(g, 4); c.desc = "downsample " + xy(rw, rh); c.bp = false; c.make = [=]() -> Conv::Layer* { return new Conv::InputDownSamplingLayer(rw, rh); }; c.verdict = [=](const std::vector<Dim>& in) { return !rw || !rh || in[0].w % rw || in[0].h % rh ? REFUSE : ACCEPT; }; break; }
    case 7: { size_t rw = tiny(g, 4), rh = tiny(g, 4); c.desc = "upscale " + xy(rw, rh); c.make = [=]() -> Conv::Layer* { return new Conv::UpscaleLayer(rw, rh); }; c.verdict = [=](const std::vector<Dim>&) { return !rw || !rh ? REFUSE : ACCEPT; }; break; }
    case 8: { size_t bx = g.below(5), by = g.below(5); c.desc = "resize(border=" + xy(bx, by) + ")"; std::string d = c.desc; c.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(d); return new Conv::ResizeLayer(bx, by); }; c.verdict = [](const std::vector<Dim>&) { return ACCEPT; }; break; }
    case 9: { int sz = (int)g.below(8); bool ac = g.coin(); c.desc = "lrn size " + std::to_string(sz); c.make = [=]() -> Conv::Layer* { return new Conv::LocalResponseNormalizationLayer(sz, 1, 0.75, ac ? Conv::LocalResponseNormalizationLayer::ACROSS_CHANNELS : Conv::LocalResponseNormalizationLayer::WITHIN_CHANNELS); }; c.verdict = [=](const std::vector<Dim>&) { return sz ? ACCEPT : EITHER; }; break; }
    case 10: { c.desc = g.pick<std::string>({"tanh", "sigm", "relu", "hmax(mu=1 weight=0.5)", "spatialprior"}); std::string d = c.desc; c.make = [=]() -> Conv::Layer* { if (d == "spatialprior") return new Conv::SpatialPriorLayer(); return Conv::LayerFactory::ConstructLayer(d); }; c.verdict = [](const std::vector<Dim>&) { return ACCEPT; }; break; }
    case 11: c.desc = "concat"; c.nin = 2; c.make = []() -> Conv::Layer* { return new Conv::ConcatenationLayer(); }; c.verdict = [](const std::vector<Dim>& in) { return in[0].s != in[1].s || in[0].w != in[1].w || in[0].h != in[1].h ? REFUSE : ACCEPT; }; break;
    case 12: c.desc = "sum"; c.nin = 2; c.make = []() -> Conv::Layer* { return new Conv::SumLayer(); }; c.verdict = [](const std::vector<Dim>& in) { return !(in[0] == in[1]) ? REFUSE : ACCEPT; }; break;
    case 13: { size_t n = g.below(4); c.desc = "gradientaccumulation(outputs=" + std::to_string(n) + ")"; std::string d = c.desc; c.make = [=]() -> Conv::Layer* { if (str) return Conv::LayerFactory::ConstructLayer(d); return new Conv::GradientAccumulationLayer((unsigned)n); }; c.verdict = [](const std::vector<Dim>&) { return ACCEPT; }; break; }
    case 14: c.desc = "loss"; c.nin = 3; c.make = []() -> Conv::Layer* { return new Conv::ErrorLayer(1.0); }; c.verdict = [](const std::vector<Dim>& in) { if (!(in[0] == in[1]) || in[0].s != in[2].s || in[0].w != in[2].w || in[0].h != in[2].h) return REFUSE; return ACCEPT; }; break;
    case 15: { size_t k = 2 + g.below(3); c.desc = "confusion matrix of " + std::to_string(k); c.nin = 3; c.make = [=]() -> Conv::Layer* { std::vector<std::string> names; for (size_t i = 0; i < k; i++) names.push_back("c" + std::to_string(i)); return new Conv::ConfusionMatrixLayer(names, (unsigned)k); };
      c.verdict = [=](const std::vector<Dim>& in) { if (!(in[0] == in[1]) || in[0].s != in[2].s || in[0].w != in[2].w || in[0].h != in[2].h) return REFUSE; if (in[0].m != k) return in[0].m > k ? REFUSE : EITHER; return ACCEPT; }; break; }
    default: { unsigned th = 1 + (unsigned)g.below(6); c.desc = "binary statistics"; c.nin = 3; c.make = [=]() -> Conv::Layer* { return new Conv::BinaryStatLayer(th, -0.5, 0.5); }; c.verdict = [](const std::vector<Dim>& in) { if (!(in[0] == in[1]) || in[0].s != in[2].s || in[0].w != in[2].w || in[0].h != in[2].h) return REFUSE; return in[0].m == 1 && in[2].m == 1 ? ACCEPT : in[2].m < in[0].m ? REFUSE : EITHER; }; }
  }
  return c;
}

static CombinedTensor* own(CombinedTensor* t) { g_owned.push_back(t); return t; }
static CombinedTensor* input(Dim d) { CombinedTensor* t = own(new CombinedTensor(d.s, d.w, d.h, d.m)); fill_generic(t->data, d.n() + 3); t->delta.Clear(); return t; }

FACET(layers, 60000, 900000, "the wiring must be refused") {
  Cand c = gen_cand(g); g.note() << c.desc << " with"; g.label(c.desc.substr(0, c.desc.find_first_of("( ")));
  size_t n = c.nin; bool wrongcount = g.chance(1, 8); if (wrongcount) { n = g.below(5); if (n == c.nin) n = c.nin + 1; }
  Dim base = gen_dim(g, 9, 3, 5); std::vector<Dim> in; bool null = false; CTV ins;
  for (size_t i = 0; i < n; i++) {
    Dim d = base;
    if (i == 2 && n == 3) d.m = g.chance(1, 6) ? 1 + g.below(4) : 1;
    if (i > 0 && g.chance(1, 4)) switch (g.below(6)) { case 0: d.s = 1 + g.below(4); break; case 1: d.w = 1 + g.below(9); break; case 2: d.h = 1 + g.below(9); break; case 3: if (i < 2) d.m = 1 + g.below(5); break; case 4: std::swap(d.w, d.h); break; default: std::swap(d.s, d.w); }
    if (i == 1 && g.chance(1, 12)) { std::swap(d.m, d.w); }
    if (g.chance(1, 25)) { ins.push_back(nullptr); in.push_back(d); null = true; g.note() << " null"; continue; }
    if (i > 0 && ins[0] && d == in[0] && g.chance(1, 6)) { ins.push_back(ins[0]); in.push_back(d); g.note() << " same"; continue; }
    ins.push_back(input(d)); in.push_back(d); g.note() << " " << d;
  }
  Verdict v = wrongcount || null ? REFUSE : EITHER;
  if (v == EITHER) v = c.verdict(in);
  if (v == REFUSE) g.nontrivial(); g.label(v == REFUSE ? "must be refused" : v == ACCEPT ? "must be accepted" : "either");
  bool accepted = false; std::unique_ptr<Conv::Layer> layer; CTV outs; Conv::NetStatus status; std::string why;
  try {
    layer.reset(c.make()); if (layer) { accepted = layer->CreateOutputs(ins, outs); for (auto* o : outs) own(o); if (accepted) { for (auto* o : outs) { o->data.Clear(); o->delta.Clear(); } accepted = layer->Connect(ins, outs, &status); } }
  } catch (std::exception& e) { accepted = false; why = e.what(); }
  if (v == REFUSE) REQUIRE(!accepted, "invalid wiring was accepted");
  if (v == ACCEPT) REQUIRE(accepted, "valid wiring was refused " << why);
  if (!accepted) return;
  status.SetIsTesting(g.coin());
  for (int r = 0; r < 2; r++) {
    layer->FeedForward(); for (auto* o : outs) fill_generic(o->delta, r + 1);
    if (c.bp) { layer->SetBackpropagationEnabled(!g.chance(1, 4)); layer->BackPropagate(); }
    if (auto* l = dynamic_cast<Conv::LossFunctionLayer*>(layer.get())) l->CalculateLossFunction();
    if (auto* s = dynamic_cast<Conv::StatLayer*>(layer.get())) { s->UpdateAll(); if (g.coin()) s->Reset(); }
  }
  g.label("evaluated");
}

// connecting an accepted layer to too few, too many or missing tensors
FACET(connect, 20000, 300000, "the connection must be refused") {
  Cand c = gen_cand(g); Dim base = gen_dim(g, 9, 3, 5); std::vector<Dim> in(c.nin, base); if (c.nin == 3) in[2].m = 1; CTV ins, outs; for (auto& d : in) ins.push_back(input(d));
  Conv::NetStatus status; std::unique_ptr<Conv::Layer> layer; bool ok = false;
  try { layer.reset(c.make()); ok = layer && layer->CreateOutputs(ins, outs); } catch (std::exception&) { ok = false; } for (auto* o : outs) own(o);
  g.assume(ok); g.note() << c.desc << " with " << base << ":"; CTV i2 = ins, o2 = outs;
  switch (g.below(4)) {
    case 0: i2.pop_back(); g.note() << " an input too few"; break;
    case 1: i2.push_back(input(base)); g.note() << " an input too many"; break;
    case 2: if (o2.empty()) { o2.push_back(input(base)); g.note() << " an output too many"; } else { o2.pop_back(); g.note() << " an output too few"; } break;
    default: o2.push_back(input(base)); g.note() << " an output too many";
  }
  if (g.chance(1, 5) && !i2.empty()) { i2[g.below(i2.size())] = nullptr; g.note() << " null input"; }
  if (g.chance(1, 5) && !o2.empty()) { o2[g.below(o2.size())] = nullptr; g.note() << " null output"; }
  g.nontrivial(); bool accepted = false; try { accepted = layer->Connect(i2, o2, &status); } catch (std::exception&) {}
  REQUIRE(!accepted, "the connection was accepted");
}

// graphs with missing, foreign or out-of-range connections, and graphs whose
// layers do not fit: reported by IsComplete or refused by Initialize
FACET(graphs, 16000, 240000, "the graph has a defect") {
  GSpec s = gen_graph(g, 6, true, 6, 2, 3); g.note() << s; size_t total = 0; for (auto& n : s.nodes) total += n.l.out[0].n(); g.assume(total < 8000);
  Conv::NetGraph graph; std::vector<std::unique_ptr<Tensor>> data; std::vector<Conv::NetGraphNode*> nodes; std::vector<size_t> order;
  for (size_t n = 0; n < s.nodes.size(); n++) {
    Conv::Layer* l; if (s.nodes[n].input) { Dim q = s.nodes[n].l.out[0]; data.emplace_back(new Tensor(q.s, q.w, q.h, q.m)); data.back()->Clear(); l = new Conv::InputLayer(*data.back()); } else l = s.nodes[n].l.make();
    nodes.push_back(new Conv::NetGraphNode(l)); nodes[n]->is_input = s.nodes[n].input; order.push_back(n);
    for (auto& r : s.nodes[n].in) nodes[n]->input_connections.push_back(Conv::NetGraphConnection(nodes[r.node], r.buf, true));
  }
  size_t last = s.nodes.size() - 1; nodes[last]->is_output = true;
  // the defect
  size_t victim = s.inputs + g.below(s.nodes.size() - s.inputs); Conv::NetGraphNode* v = nodes[victim]; std::vector<Conv::NetGraphNode*> extra; bool incomplete = false, refuse = false, foreign = false; size_t ci = g.below(v->input_connections.size());
  switch (g.below(9)) {
    case 0: g.note() << " | no defect"; break;
    case 1: v->input_connections[ci].node = nullptr; incomplete = true; g.note() << " | null connection at n" << victim; break;
    case 2: v->input_connections[ci].buffer = (unsigned)(v->input_connections[ci].node->output_buffers.size() + g.below(3)); incomplete = true; g.note() << " | bad buffer at n" << victim; break;
    case 3: { data.emplace_back(new Tensor(2, 3, 3, 1)); data.back()->Clear(); auto* f = new Conv::NetGraphNode(new Conv::InputLayer(*data.back())); extra.push_back(f); v->input_connections[ci].node = f; v->input_connections[ci].buffer = 0; incomplete = true; foreign = true; g.note() << " | connection to a node outside the graph at n" << victim; break; }
    case 4: v->input_connections.clear(); refuse = true; g.note() << " | no connections at n" << victim; break;
    case 5: { size_t k = 1 + g.below(2); for (size_t i = 0; i < k; i++) v->input_connections.push_back(v->input_connections[0]); refuse = true; g.note() << " | too many connections at n" << victim; break; }
    case 6: nodes[last]->is_output = false; incomplete = true; g.note() << " | no output"; break;
    case 7: for (size_t i = 0; i < s.inputs; i++) nodes[i]->is_input = false; incomplete = true; g.note() << " | no input"; break;
    default: nodes[0]->input_connections.push_back(Conv::NetGraphConnection(nodes[0], 0, false)); nodes[0]->input_connections[0].node = nodes[s.inputs > 1 ? 1 : 0]; nodes[0]->input_connections.clear(); { auto* b = new Conv::NetGraphNode(new Conv::ConvolutionLayer(40, 40, 1, 1, 1, 0, 0, 1, 1, 0.0)); b->input_connections.push_back(Conv::NetGraphConnection(nodes[g.below(nodes.size())], 0, true)); if (b->input_connections[0].node->output_buffers.empty()) b->input_connections[0].node = nodes[0]; nodes.push_back(b); order.push_back(nodes.size() - 1); refuse = true; g.note() << " | kernel larger than its input"; }
  }
  if (incomplete || refuse) g.nontrivial();
  for (size_t n = order.size(); n > 1; n--) std::swap(order[n - 1], order[g.below(n)]);
  bool failed = false; std::string why;
  try { for (size_t n : order) graph.AddNode(nodes[n]); } catch (std::exception& e) { failed = true; why = e.what(); }
  bool complete = !failed && graph.IsComplete();
  if (incomplete) REQUIRE(!complete, "a defective graph is reported as complete");
  else if (!refuse) REQUIRE(complete, "a complete graph is reported as incomplete " << why);
  (void)foreign;
  if (complete) {
    bool ok = true; try { graph.Initialize(); } catch (std::exception&) { ok = false; }
    if (refuse) REQUIRE(!ok, "invalid wiring was accepted"); else REQUIRE(ok, "a valid graph was refused");
    if (ok) { for (auto* n : graph.GetNodes()) for (auto& b : n->output_buffers) b.combined_tensor->delta.Clear(); graph.FeedForward(); graph.BackPropagate(); }
  }
  // buffers of partly initialised graphs are not owned by anybody
  std::set<CombinedTensor*> t; std::vector<Conv::NetGraphNode*> all = graph.GetNodes(); std::set<Conv::NetGraphNode*> uniq(all.begin(), all.end()); uniq.insert(nodes.begin(), nodes.end()); uniq.insert(extra.begin(), extra.end());
  for (auto* n : uniq) for (auto& b : n->output_buffers) if (b.combined_tensor) t.insert(b.combined_tensor);
  for (auto* n : uniq) { delete n->layer; delete n; } for (auto* c : t) delete c;
}
