// C19: saved parameters restore the network.
#include "netdesc.h"
#include "graph.h"
#include "Trainer.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static std::string oneline(std::string s) { for (auto& c : s) if (c == '\n') c = '|'; return s; }
typedef std::vector<Arr> Arrs;
static Arrs copy_of(Conv::NetGraph& n) { CTV p; n.GetParameters(p); Arrs r; for (auto* t : p) r.emplace_back(t->data); return r; }
static std::string save(Conv::NetGraph& n) { std::ostringstream o; n.SerializeParameters(o); return o.str(); }
// what a parameter file is: every parameter tensor in node order, dimensions first
static std::string file_of(const Arrs& p) { std::string f; for (auto& a : p) { uint64_t d[4] = {a.s, a.w, a.h, a.m}; f.append((char*)d, sizeof d); f.append((const char*)a.d.data(), a.d.size() * 4); } return f; }
static void require_params(Conv::NetGraph& n, const Arrs& want, const std::string& what) {
  CTV p; n.GetParameters(p); REQUIRE(p.size() == want.size(), what << ": number of parameters");
  for (size_t k = 0; k < p.size(); k++) require_same(p[k]->data, want[k], what + ": parameter set " + std::to_string(k));
}
// the node every parameter set belongs to
static std::vector<size_t> owners(Conv::NetGraph& n) { std::vector<size_t> o; for (size_t k = 0; k < n.GetNodes().size(); k++) for (size_t q = 0; q < n.GetNodes()[k]->layer->parameters().size(); q++) o.push_back(k); return o; }
static void fill_params(G& g, Conv::NetGraph& n, bool any) {
  CTV p; n.GetParameters(p); uint64_t seed = g.below(1 << 16); pbt::Rng r(seed);
  for (auto* t : p) { double fan = std::sqrt(t->data.elements() / (double)std::max<size_t>(1, t->data.samples())); for (size_t e = 0; e < t->data.elements(); e++) t->data[e] = any ? any_float(r) : (float)((2 * r.unit() - 1) / (t->data.samples() == 1 ? 2 : fan)); }
}
struct Out { std::vector<std::vector<float>> v; double loss; };
static Out run(Conv::NetGraph& n) { Out o; n.SetIsTesting(true); n.FeedForward(); for (auto* q : n.GetOutputNodes()) for (auto& b : q->output_buffers) { auto& t = b.combined_tensor->data; o.v.emplace_back(t.data_ptr_const(), t.data_ptr_const() + t.elements()); } o.loss = n.AggregateLoss(); return o; }
static void require_out(const Out& a, const Out& b, const std::string& what) {
  REQUIRE(a.v.size() == b.v.size(), what << ": number of outputs"); for (size_t k = 0; k < a.v.size(); k++) { REQUIRE(a.v[k].size() == b.v[k].size(), what << ": size of output " << k); for (size_t e = 0; e < a.v[k].size(); e++) REQUIRE(memcmp(&a.v[k][e], &b.v[k][e], 4) == 0, what << ": output " << k << " element " << e << " is " << b.v[k][e] << ", was " << a.v[k][e]); }
  REQUIRE(memcmp(&a.loss, &b.loss, sizeof a.loss) == 0 || a.loss == b.loss || (std::isnan(a.loss) && std::isnan(b.loss)), what << ": loss is " << b.loss << ", was " << a.loss);
}
static void same_inputs(FNet& a, FNet& b, uint64_t seed) { for (FNet* f : {&a, &b}) { fill_generic(f->data, seed + 500); fill_generic(f->label, seed + 600); fill_generic(f->helper, seed + 700); } }

// networks described in the configuration language
FACET(restore, 5000, 70000, "at least two layers with parameters") {
  NDesc n; if (g.chance(1, 60)) { size_t macs; n = gen_realistic(g, true, macs); g.assume(macs * (n.rfx + n.fx) * (n.rfy + n.fy) < 3000000); g.label("realistic size"); } else { NGen c; c.dropout = g.coin(); n = gen_netdesc(g, c); } render_all(g, n); size_t s = 1 + g.below(2), w = n.fx * (1 + g.below(std::max<size_t>(1, 6 / n.fx))), h = n.fy * (1 + g.below(std::max<size_t>(1, 6 / n.fy))); bool loss = g.coin(); unsigned seed = 1 + (unsigned)g.below(10000), other = seed + 1 + (unsigned)g.below(10000);
  int how = (int)g.below(3); g.note() << s << "s@" << w << "x" << h << " how " << how << ": " << oneline(n.text); FNet a, b; a.build(n, seed, false, s, w, h, loss); b.build(n, other, false, s, w, h, loss); a.graph.InitializeWeights(); b.graph.InitializeWeights();
  if (how) fill_params(g, a.graph, how == 2); same_inputs(a, b, seed); Arrs p = copy_of(a.graph); std::string f = save(a.graph); require_params(a.graph, p, "saving"); REQUIRE(f == file_of(p), "the file is not the sequence of parameter tensors"); if (p.size() > 3) g.nontrivial();
  Out x = run(a.graph); if (g.coin()) run(b.graph); if (g.coin()) f += "trailing"; std::istringstream in(f); b.graph.DeserializeParameters(in); require_params(b.graph, p, "loading"); require_out(x, run(b.graph), "the loaded network"); REQUIRE(save(b.graph) == file_of(p), "saving after loading gives another file");
  require_out(x, run(a.graph), "the saved network");
  // and again, into the network that was saved after it changed
  a.graph.InitializeWeights(); std::istringstream in2(f); a.graph.DeserializeParameters(in2); require_params(a.graph, p, "loading after a reset"); require_out(x, run(a.graph), "the network after a reset and loading");
}

// only the parameters up to a layer
FACET(partial, 12000, 150000, "parameters on both sides of the limit") {
  NGen c; c.dropout = g.coin(); NDesc n = gen_netdesc(g, c); render_all(g, n); bool loss = g.coin(); FNet a, b; a.build(n, 3, false, 1, n.fx, n.fy, loss); b.build(n, 5, false, 1, n.fx, n.fy, loss); fill_params(g, a.graph, true); fill_params(g, b.graph, true);
  size_t nodes = a.graph.GetNodes().size(), last = g.below(nodes + 3); bool explicit0 = g.coin(); g.note() << "up to " << last << " of " << nodes << ": " << oneline(n.text); Arrs p = copy_of(a.graph), q = copy_of(b.graph), want = q; auto own = owners(b.graph); size_t in_ = 0, out_ = 0; for (size_t k = 0; k < p.size(); k++) if (last == 0 || own[k] <= last) { want[k] = p[k]; in_++; } else out_++;
  if (in_ && out_) g.nontrivial(); std::istringstream in(save(a.graph)); if (last || explicit0) b.graph.DeserializeParameters(in, (unsigned)last); else b.graph.DeserializeParameters(in); require_params(b.graph, want, "loading up to layer " + std::to_string(last)); REQUIRE(save(b.graph) == file_of(want), "saving after loading gives another file");
}

// graphs built by hand, their nodes in any order
FACET(graphs, 3000, 40000, "at least two layers with parameters") {
  GSpec s = gen_graph(g, 10, false); uint64_t perm = g.below(1000); auto build = [&](GNet& n) { G gg(perm); n.build(gg, s, true, nullptr, true); };
  GNet a, b; build(a); build(b); bool any = g.coin(); fill_params(g, a.graph, any); fill_params(g, b.graph, false); for (size_t k = 0; k < a.data.size(); k++) { fill_generic(*a.data[k], perm + k); fill_generic(*b.data[k], perm + k); }
  g.note() << s; Arrs p = copy_of(a.graph), q = copy_of(b.graph), want = q; if (p.size() > 3) g.nontrivial(); auto own = owners(a.graph); size_t last = g.coin() ? 0 : g.below(s.nodes.size() + 1); std::string f = save(a.graph); REQUIRE(f == file_of(p), "the file is not the sequence of parameter tensors"); std::istringstream in(f); b.graph.DeserializeParameters(in, (unsigned)last);
  for (size_t k = 0; k < p.size(); k++) if (last == 0 || own[k] <= last) want[k] = p[k]; require_params(b.graph, want, "loading"); if (last && last < s.nodes.size() - 1) { std::istringstream rest(f); b.graph.DeserializeParameters(rest); }
  require_params(b.graph, p, "loading all"); a.graph.FeedForward(); b.graph.FeedForward(); for (size_t k = 0; k < s.nodes.size(); k++) for (size_t o = 0; o < s.nodes[k].l.out.size(); o++) { auto &x = a.out({(int)k, (int)o})->data, &y = b.out({(int)k, (int)o})->data; REQUIRE(same_bits(x.data_ptr_const(), y.data_ptr_const(), x.elements()), "output " << o << " of node " << k << " differs after loading"); }
}

// networks of the same description but another input size or mode share their parameters
FACET(sizes, 5000, 60000, "at least two layers with parameters") {
  NGen c; c.plain = true; c.pads = false; c.upscale = false; c.prior = false; c.maxrf = 8; NDesc n = gen_netdesc(g, c); render_all(g, n, {"method=patch"}); FNet f, p, q; size_t w = n.fx * (1 + g.below(4)), h = n.fy * (1 + g.below(4)); f.build(n, 1, false, 1 + g.below(3), w, h, false); p.file.str(n.text); p.factory.reset(new Conv::ConfigurableFactory(p.file, 2, true)); p.attach(n.channels, n.classes, 1 + g.below(3), n.rfx + n.fx, n.rfy + n.fy, true, 1, 1); q.build(n, 3, false, 1, n.fx, n.fy, true);
  g.note() << w << "x" << h << ": " << oneline(n.text); FNet* nets[3] = {&f, &p, &q}; for (auto* x : nets) fill_params(g, x->graph, true); size_t from = g.below(3); Arrs want = copy_of(nets[from]->graph); if (want.size() > 3) g.nontrivial(); std::string file = save(nets[from]->graph);
  for (auto* x : nets) { std::istringstream in(file); x->graph.DeserializeParameters(in); require_params(x->graph, want, "loading into a network for another input size"); REQUIRE(save(x->graph) == file, "saving after loading gives another file"); }
}

// a network trained for a while, saved, and restored in a fresh one
FACET(trained, 1500, 20000, "at least two layers with parameters and two steps") {
  NGen c; c.maxops = 4; NDesc n = gen_netdesc(g, c); g.assume(!n.count(NOp::DOWN)); render_all(g, n); size_t s = 1 + g.below(2), w = n.fx * (1 + g.below(2)), h = n.fy * (1 + g.below(2)); FNet a, b; a.build(n, 11, true, s, w, h, true); b.build(n, 12, true, s, w, h, true); a.graph.InitializeWeights(); b.graph.InitializeWeights(); same_inputs(a, b, g.below(1000)); size_t steps = g.below(4); g.note() << steps << " steps: " << oneline(n.text);
  auto step = [&](FNet& f) { f.graph.SetIsTesting(false); f.graph.FeedForward(); f.graph.BackPropagate(); for (auto* p : f.params()) for (size_t e = 0; e < p->data.elements(); e++) p->data[e] -= 0.05f * p->delta[e]; };
  for (size_t k = 0; k < steps; k++) step(a); if (g.coin()) step(b); Arrs p = copy_of(a.graph); if (p.size() > 3 && steps > 1) g.nontrivial(); std::string f = save(a.graph); Out x = run(a.graph); std::istringstream in(f); b.graph.DeserializeParameters(in); require_params(b.graph, p, "loading"); require_out(x, run(b.graph), "the restored network");
  // both go on in the same way
  step(a); step(b); require_params(b.graph, copy_of(a.graph), "a step after loading"); require_out(run(a.graph), run(b.graph), "a step after loading");
}

// files that do not fit
FACET(misfit, 8000, 100000, "the file ends within a later parameter set, or is of another description") {
  NGen c; c.maxops = 5; NDesc n = gen_netdesc(g, c), m; g.assume(!n.count(NOp::DOWN)); render_all(g, n); FNet a, b; a.build(n, 1, false, 1, n.fx, n.fy, true); b.build(n, 1, false, 1, n.fx, n.fy, true); fill_params(g, a.graph, true); fill_params(g, b.graph, true); Arrs p = copy_of(a.graph), q = copy_of(b.graph), want = q; std::string f = save(a.graph), note;
  if (g.coin()) {
    size_t cut = g.coin() ? g.below(f.size() + 1) : (size_t)std::max<int64_t>(0, (int64_t)f.size() - (int64_t)g.below(9)); if (g.chance(1, 3)) { size_t k = g.below(p.size() + 1); cut = file_of(Arrs(p.begin(), p.begin() + k)).size(); if (cut < f.size() && g.coin()) cut += g.below(33); cut = std::min(cut, f.size()); }
    note = "cut at " + std::to_string(cut) + " of " + std::to_string(f.size()); f.resize(cut); size_t pos = 0; for (size_t k = 0; k < p.size(); k++) { pos += 32 + p[k].d.size() * 4; if (pos <= cut) want[k] = p[k]; else { if (k) g.nontrivial(); break; } }
  } else {
    m = gen_netdesc(g, c); render_all(g, m); FNet o; o.build(m, 1, false, 1, m.fx, m.fy, true); fill_params(g, o.graph, true); Arrs r = copy_of(o.graph); f = save(o.graph); note = "file of " + oneline(m.text); for (size_t k = 0; k < r.size() && k < q.size(); k++) if (r[k].d.size() == q[k].d.size()) want[k].d = r[k].d; else g.nontrivial();
  }
  g.note() << note << ": " << oneline(n.text); std::istringstream in(f); b.graph.DeserializeParameters(in); require_params(b.graph, want, "loading a file that does not fit"); fill_params(g, b.graph, false); run(b.graph); b.graph.BackPropagate();
}
