// C26: what the OpenMP builds compute does not depend on how many threads
// there are or how they are scheduled.  Built with -fopenmp and the race
// detector, on the OpenMP runtime of engine/threads.cpp.  Oracle: the same
// operation by a single thread, and the absence of data races.
#include "graph.h"
#include "netdesc.h"
#include "dataset.h"
#include "imageset.h"
#include "stats.h"
#include "threads.h"
#include "TensorMath.h"
#include "Dataset.h"
#include "DatasetInputLayer.h"
#include "BinaryStatLayer.h"
#include "ConfusionMatrixLayer.h"
#include "ErrorLayer.h"
#include "mocknet.h"
using namespace cn; using Conv::TensorMath;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() { W = World(); omp::plan = omp::Plan(); omp::regions = 0; }

// with a generated team, or alone
static omp::Plan gen_plan(G& g) {
  omp::Plan p; p.threads = 2 + (unsigned)g.small(0, 6); p.ordered = g.coin(); p.seed = g.below(1 << 20);
  g.note() << p.threads << " threads " << (p.ordered ? "one after the other #" + std::to_string(p.seed) : "at the same time") << ": "; g.label(p.ordered ? "serial in generated order" : "concurrent"); return p;
}
struct Team { explicit Team(const omp::Plan& p) { omp::plan = p; } ~Team() { omp::plan = omp::Plan(); } };
template <class F> static void with(const omp::Plan& p, F f) { Team t(p); f(); }
static bool teamed() { return omp::regions > 0; }

// sums may be formed in another order
static void same(const Tensor& one, const Tensor& many, const std::string& what, double rel = 1e-4) {
  REQUIRE(one.samples() == many.samples() && one.width() == many.width() && one.height() == many.height() && one.maps() == many.maps(), what << ": shape is " << shape(many) << ", by one thread it is " << shape(one));
  double mx = 0; for (size_t e = 0; e < one.elements(); e++) { double v = std::fabs(one.data_ptr_const()[e]); if (std::isfinite(v) && v > mx) mx = v; }
  for (size_t e = 0; e < one.elements(); e++) {
    float a = one.data_ptr_const()[e], b = many.data_ptr_const()[e];
    if (memcmp(&a, &b, 4) == 0 || (a != a && b != b)) continue;
    REQUIRE(std::fabs((double)a - b) <= rel * mx, what << ": element " << e << " is " << b << ", by one thread it is " << a);
  }
}

// ---- layers --------------------------------------------------------------------
static void check_layer(G& g, const LSpec& l) {
  omp::Plan p = gen_plan(g); g.note() << l.desc << " on"; for (auto& d : l.in) g.note() << " " << d; g.label(l.kind);
  Rig rig[2]; bool testing = g.coin();
  for (auto& r : rig) { r.layer.reset(l.make()); REQUIRE(r.layer, "layer was not constructed"); for (auto& d : l.in) r.add(d.s, d.w, d.h, d.m); REQUIRE(r.create() && r.connect(), "refused"); r.status.SetIsTesting(testing); }
  size_t rounds = 1 + g.below(3), nt = rig[0].ins.size(), no = rig[0].outs.size(), np = rig[0].layer->parameters().size(); bool ref = (bool)l.f;
  for (size_t k = 0; k < rounds; k++) {
    uint64_t sd = g.below(1 << 20); float junk = g.pick<float>({0.0f, NAN, 7.0f}); bool ties = g.chance(1, 6), disabled = l.kind == "conv" && g.chance(1, 8); Vals tv{1, sd};
    g.note() << " | values#" << sd << (ties ? " ties" : "") << (disabled ? " input errors off" : "") << " junk " << junk; std::vector<Arr> keep; DAs in, par;
    for (auto& r : rig) {
      for (size_t i = 0; i < nt; i++) { if (ties) fill(r.ins[i]->data, tv); else fill_generic(r.ins[i]->data, sd + i); r.ins[i]->delta.Clear(junk); }
      for (size_t q = 0; q < np; q++) { auto* t = r.layer->parameters()[q]; fill_generic(t->data, sd + 100 + q); t->delta.Clear(junk); }
      if (l.kind != "fanout") for (auto* t : r.outs) t->data.Clear(NAN); r.layer->SetBackpropagationEnabled(!disabled);
    }
    for (size_t i = 0; i < nt; i++) { keep.emplace_back(rig[0].ins[i]->data); in.emplace_back(rig[0].ins[i]->data); }
    for (size_t q = 0; q < np; q++) { DA a(rig[0].layer->parameters()[q]->data); static_cast<Dim&>(a) = l.par[q]; par.push_back(a); }
    rig[0].layer->FeedForward(); with(p, [&] { rig[1].layer->FeedForward(); });
    for (size_t o = 0; o < no; o++) same(rig[0].outs[o]->data, rig[1].outs[o]->data, "output " + std::to_string(o));
    if (ref) { DAs want = l.f(in, par); for (size_t o = 0; o < no; o++) for (size_t e = 0; e < want[o].d.size(); e++) REQUIRE(std::fabs(rig[1].outs[o]->data[e] - want[o].d[e]) <= 1e-4 * (10 + std::fabs(want[o].d[e])), "output " << o << " element " << e << " is " << rig[1].outs[o]->data[e] << ", expected " << want[o].d[e]); }
    if (l.grad && !testing) {
      for (auto& r : rig) for (size_t o = 0; o < no; o++) fill_generic(r.outs[o]->delta, sd + 200 + o);
      rig[0].layer->BackPropagate(); with(p, [&] { rig[1].layer->BackPropagate(); });
      if (!disabled) for (size_t i = 0; i < nt; i++) same(rig[0].ins[i]->delta, rig[1].ins[i]->delta, "error of input " + std::to_string(i));
      for (size_t q = 0; q < np; q++) same(rig[0].layer->parameters()[q]->delta, rig[1].layer->parameters()[q]->delta, "error of parameter " + std::to_string(q));
    }
    for (size_t i = 0; i < nt; i++) require_same(rig[1].ins[i]->data, keep[i], "input after evaluation");
  }
  if (teamed()) g.nontrivial();
}
FACET(layers, 5000, 90000, "a loop was shared by at least two threads") { Dim d = gen_dim(g, 8, 6, 6); check_layer(g, gen_layer(g, d)); }
FACET(convolution, 2500, 40000, "a loop was shared by at least two threads") {
  Dim d = gen_dim(g, 9, 4, 6); check_layer(g, spec_conv(g, d));
}
FACET(pooling, 2500, 40000, "a loop was shared by at least two threads") { Dim d = gen_dim(g, 12, 5, 6); switch (g.below(4)) { case 0: check_layer(g, spec_maxpool(g, d)); break; case 1: check_layer(g, spec_amaxpool(g, d)); break; case 2: check_layer(g, spec_resize(g, d)); break; default: check_layer(g, spec_lrn(g, d)); } }
FACET(softmax, 800, 15000, "a loop was shared by at least two threads") { Dim d{1 + (size_t)g.small(0, 6), 1 + g.below(9), 1, 1}; LSpec l; l.kind = l.desc = "softmax"; l.in = l.out = {d}; l.grad = g.coin(); l.make = []() -> Conv::Layer* { return new Conv::SoftmaxLayer; }; l.f = [](const DAs& in, const DAs&) { DAs o{in[0]}; for (size_t s = 0; s < in[0].s; s++) { double t = 0; for (size_t e = 0; e < in[0].w; e++) t += std::exp(in[0].d[s * in[0].w + e]); for (size_t e = 0; e < in[0].w; e++) o[0].d[s * in[0].w + e] = std::exp(in[0].d[s * in[0].w + e]) / t; } return o; }; l.grad = false; check_layer(g, l); if (d.s > 1) g.nontrivial(); }
FACET(loss, 1200, 20000, "several samples or maps") {
  omp::Plan p = gen_plan(g); Dim d = gen_dim(g, 6, 5, 4); float lw = g.pick<float>({1.0f, 0.5f, 0.01f}); g.note() << "loss on " << d; std::unique_ptr<Conv::ErrorLayer> l[2]; std::unique_ptr<CombinedTensor> t[2][3]; double got[2]; Conv::NetStatus st; size_t rounds = 1 + g.below(2); if (d.s * d.m > 1) g.nontrivial();
  for (int k = 0; k < 2; k++) { l[k].reset(new Conv::ErrorLayer(lw)); for (int q = 0; q < 3; q++) t[k][q].reset(new CombinedTensor(d.s, d.w, d.h, q == 2 ? 1 : d.m)); CTV in{t[k][0].get(), t[k][1].get(), t[k][2].get()}, out; REQUIRE(l[k]->CreateOutputs(in, out) && l[k]->Connect(in, out, &st), "refused"); }
  for (size_t r = 0; r < rounds; r++) { uint64_t sd = g.below(1 << 20); for (int k = 0; k < 2; k++) { for (int q = 0; q < 3; q++) fill_generic(t[k][q]->data, sd + q); t[k][0]->delta.Clear(NAN); auto run = [&] { l[k]->FeedForward(); got[k] = l[k]->CalculateLossFunction(); l[k]->BackPropagate(); }; if (k) with(p, run); else run(); }
    same(t[0][0]->delta, t[1][0]->delta, "error of the output"); REQUIRE(std::fabs(got[0] - got[1]) <= 1e-4 * (1 + std::fabs(got[0])), "the loss is " << got[1] << ", by one thread it is " << got[0]); }
}

// ---- kernels -------------------------------------------------------------------
FACET(math, 5000, 90000, "a loop was shared by at least two threads") {
  omp::Plan p = gen_plan(g); uint64_t sd = g.below(1 << 20); std::vector<Tensor> a(2), b(2), c(2); auto out = [&](size_t s, size_t w, size_t h, size_t m) { for (auto& t : c) { t.Resize(s, w, h, m); if (sd & 1) fill_generic(t, sd + 9); else t.Clear(3); } };
  auto put = [&](std::vector<Tensor>& v, size_t s, size_t w, size_t h, size_t m, uint64_t k) { for (auto& t : v) { t.Resize(s, w, h, m); fill_generic(t, sd + k); } }; std::function<void(int)> f; size_t s = 1 + g.small(0, 5), w = 1 + g.small(0, 9), h = 1 + g.small(0, 9), m = 1 + g.small(0, 5); const char* what = "";
  switch (g.below(8)) {
    case 0: { what = "GEMM"; int M = 1 + (int)g.small(0, 20), N = 1 + (int)g.small(0, 20), K = 1 + (int)g.small(0, 12); bool ta = g.coin(), tb = g.coin(); float al = g.pick<float>({1, 0.5f, -1}), be = g.pick<float>({0, 1, 0.5f}); put(a, 1, ta ? M : K, ta ? K : M, 1, 0); put(b, 1, tb ? K : N, tb ? N : K, 1, 1); out(1, N, M, 1); g.note() << M << "x" << N << "x" << K << (ta ? " tA" : "") << (tb ? " tB" : "");
      f = [=, &a, &b, &c](int k) { TensorMath::GEMM(true, ta, tb, M, N, K, al, a[k], 0, ta ? M : K, b[k], 0, tb ? K : N, be, c[k], 0, N); }; break; }
    case 1: { what = "GEMV"; int M = 1 + (int)g.small(0, 20), N = 1 + (int)g.small(0, 20); bool ta = g.coin(); float al = g.pick<float>({1, 0.5f, -1}), be = g.pick<float>({0, 1, 0.5f}); put(a, 1, N, M, 1, 0); put(b, 1, ta ? M : N, 1, 1, 1); out(1, ta ? N : M, 1, 1); g.note() << M << "x" << N << (ta ? " tA" : ""); f = [=, &a, &b, &c](int k) { TensorMath::GEMV(true, ta, M, N, al, a[k], 0, N, b[k], 0, 1, be, c[k], 0, 1); }; break; }
    case 2: case 3: { bool im = g.coin(); what = im ? "IM2COL" : "COL2IM"; int pw = (int)g.below(3), ph = (int)g.below(3), kw = 1 + (int)g.below(std::min<size_t>(4, w + 2 * pw)), kh = 1 + (int)g.below(std::min<size_t>(4, h + 2 * ph)), sw = 1 + (int)g.below(3), sh = 1 + (int)g.below(3); size_t ow = (w + 2 * pw - kw) / sw + 1, oh = (h + 2 * ph - kh) / sh + 1; g.note() << " kernel " << kw << "x" << kh << " stride " << sw << "x" << sh << " pad " << pw << "x" << ph;
      if (im) { put(a, s, w, h, m, 0); out(kw * kh * m, ow, oh, s); f = [=, &a, &c](int k) { TensorMath::IM2COL(a[k], w, h, m, s, kw, kh, sw, sh, pw, ph, c[k]); }; } else { put(a, kw * kh * m, ow, oh, s, 0); out(s, w, h, m); f = [=, &a, &c](int k) { TensorMath::COL2IM(c[k], w, h, m, s, kw, kh, sw, sh, pw, ph, a[k]); }; } break; }
    case 4: what = "ADD"; put(a, s, w, h, m, 0); put(b, s, w, h, m, 1); if (g.coin()) { c.clear(); c.resize(2); out(s, w, h, m); f = [&](int k) { TensorMath::ADD(a[k], b[k], c[k]); }; } else { g.note() << " in place"; out(s, w, h, m); f = [&](int k) { TensorMath::ADD(c[k], b[k], c[k]); }; } break;
    case 5: what = "SMS"; put(a, m, w, h, s, 0); out(s, w, h, m); f = [&](int k) { TensorMath::SMS(a[k], c[k]); }; break;
    case 6: { what = "DOWN"; int rw = 1 + (int)g.below(3), rh = 1 + (int)g.below(3); put(a, s, w * rw, h * rh, m, 0); out(s, w, h, m); f = [=, &a, &c](int k) { TensorMath::DOWN(a[k], c[k], rw, rh, 0.5f); }; break; }
    default: { what = "UP"; int rw = 1 + (int)g.below(3), rh = 1 + (int)g.below(3); put(a, s, w, h, m, 0); out(s, w * rw, h * rh, m); f = [=, &a, &c](int k) { TensorMath::UP(a[k], c[k], rw, rh, 0.5f); }; }
  }
  g.note() << what << " " << s << "s@" << w << "x" << h << "x" << m; g.label(what); Arr ka(a[0]), kb(b[0]); int times = 1 + (int)g.below(2);
  for (int t = 0; t < times; t++) { f(0); with(p, [&] { f(1); }); same(c[0], c[1], what); require_same(a[1], ka, "first operand"); require_same(b[1], kb, "second operand"); }
  if (teamed()) g.nontrivial();
}

// ---- statistics ----------------------------------------------------------------
static void same_reports(const KeepSink& a, const KeepSink& b) {
  REQUIRE(a.reports.size() == b.reports.size() && a.desc.size() == b.desc.size(), "the reports differ in number");
  for (size_t k = 0; k < a.reports.size(); k++) for (size_t q = 0; q < a.desc.size(); q++) {
    auto &x = a.reports[k].stats[q], &y = b.reports[k].stats[q]; REQUIRE(x.is_null == y.is_null, a.desc[q]->description << " is " << (y.is_null ? "not " : "") << "reported");
    if (!x.is_null) REQUIRE((x.value != x.value && y.value != y.value) || std::fabs(x.value - y.value) <= 1e-4 * (1 + std::fabs(x.value)), a.desc[q]->description << " is " << y.value << ", by one thread it is " << x.value);
  }
}
FACET(statistics, 2500, 40000, "several batches, counted by a team") {
  omp::Plan p = gen_plan(g); bool bin = g.coin(); unsigned nt = g.pick<unsigned>({13, 2, 5, 24}); size_t n = bin ? 1 : 2 + g.below(4), S = 1 + g.below(4), Wd = 1 + g.below(6), H = 1 + g.below(6); g.note() << (bin ? "binary " : "confusion ") << n << " " << S << "s@" << Wd << "x" << H << ":"; g.label(bin ? "binary" : "confusion");
  std::vector<int> ops(2 + g.below(5)); for (auto& o : ops) { o = g.chance(1, 6) ? 1 : 0; g.note() << " " << (o ? "report" : "batch"); } ops.push_back(1); uint64_t sd = g.below(1 << 20); KeepSink sink[2]; size_t batches = 0; for (int o : ops) batches += !o;
  std::vector<std::string> names; for (size_t k = 0; k < n; k++) names.push_back("c" + std::to_string(k));
  for (int k = 0; k < 2; k++) {
    auto& agg = fresh_aggregator(); agg.RegisterSink(&sink[k]); std::unique_ptr<Conv::Layer> l; Conv::StatLayer* st; if (bin) { auto* q = new Conv::BinaryStatLayer(nt, -1, 1); l.reset(q); st = q; } else { auto* q = new Conv::ConfusionMatrixLayer(names, (unsigned)n); l.reset(q); st = q; }
    CombinedTensor x(S, Wd, H, n), y(S, Wd, H, n), w(S, Wd, H, 1); CTV in = {&x, &y, &w}, out; Conv::NetStatus ns; REQUIRE(l->CreateOutputs(in, out) && l->Connect(in, out, &ns), "refused"); agg.Initialize(); pbt::Rng r(sd);
    if (k) omp::plan = p;
    for (int o : ops) if (!o) { fill_generic(x.data, r.next()); fill_generic(y.data, r.next()); for (size_t e = 0; e < w.data.elements(); e++) w.data[e] = (float)r.below(5) / 4; l->FeedForward(); l->BackPropagate(); } else { agg.StartRecording(); st->UpdateAll(); agg.StopRecording(); agg.Generate(); agg.Reset(); }
    omp::plan = omp::Plan();
  }
  same_reports(sink[0], sink[1]); if (batches > 1 && (teamed() || !bin)) g.nontrivial();
}

// ---- the image dataset ----------------------------------------------------------
FACET(dataset, 1200, 18000, "a loop was shared by at least two threads") {
  omp::Plan p = gen_plan(g); size_t maps = 1 + g.below(3), classes = 1 + g.below(4); std::vector<Pair> set[2]; pbt::Rng r(g.below(1 << 20)); size_t W0 = 0, H0 = 0; FdGuard fd;
  for (auto& v : set) { size_t n = 1 + g.below(2); for (size_t k = 0; k < n; k++) { size_t w = 1 + g.small(0, 63), h = 1 + g.small(0, 63); Pair q; q.data = Arr(1, w, h, maps); q.label = Arr(1, w, h, classes); for (auto& e : q.data.d) e = (float)(2 * r.unit() - 1); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { size_t c = r.below(classes); for (size_t m = 0; m < classes; m++) q.label.at(x, y, m, 0) = label_value(classes, c, m, r, true); } W0 = std::max(W0, w); H0 = std::max(H0, h); v.push_back(q); g.note() << " " << w << "x" << h; } }
  W0 = (W0 + 63) / 64 * 64; H0 = (H0 + 63) / 64 * 64; std::unique_ptr<Conv::TensorStream> st[2]; for (int t = 0; t < 2; t++) { std::string f = tmpfile(t ? "e" : "r"); { std::ofstream o(f, std::ios::binary); write_stream(o, set[t], g.coin()); } st[t].reset(Conv::TensorStream::FromFile(f)); unlink(f.c_str()); }
  std::vector<std::string> names(classes, "c"); std::vector<unsigned> colors(classes, 0); std::vector<datum> cw; for (size_t c = 0; c < classes; c++) cw.push_back((float)g.below(9) / 4); Conv::TensorStreamDataset d(st[0].get(), st[1].get(), (unsigned)classes, names, colors, cw, g.coin() ? odd_error : Conv::DefaultLocalizedErrorFunction);
  size_t batch = 1 + g.below(2), ops = 1 + g.below(3); std::vector<Tensor> a(4), b(4); for (auto* v : {&a, &b}) { size_t ms[] = {maps, classes, 2, 1}; for (int k = 0; k < 4; k++) { (*v)[k].Resize(batch, W0, H0, ms[k]); (*v)[k].Clear(99); } } const char* what[] = {"data", "label", "coordinate", "weight"};
  for (size_t q = 0; q < ops; q++) { bool test = g.coin(); unsigned i = (unsigned)g.below(set[test].size()), slot = (unsigned)g.below(batch); g.note() << (test ? " testing " : " training ") << i << "->" << slot; auto get = [&](std::vector<Tensor>& v) { return test ? d.GetTestingSample(v[0], v[1], v[2], v[3], slot, i) : d.GetTrainingSample(v[0], v[1], v[2], v[3], slot, i); };
    bool x = get(a), y; with(p, [&] { y = get(b); }); REQUIRE(x && y, "a sample is refused"); for (int k = 0; k < 4; k++) same(a[k], b[k], what[k], 0); }
  if (teamed()) g.nontrivial();
}

// ---- networks ------------------------------------------------------------------
FACET(network, 2500, 40000, "at least five operations, and a loop was shared by at least two threads") {
  omp::Plan p = gen_plan(g); NDesc n; bool big = g.chance(1, 40); if (big) { size_t macs; n = gen_realistic(g, true, macs); g.assume(macs * (n.rfx + n.fx) * (n.rfy + n.fy) < 3000000); g.label("realistic size"); } else { NGen c; c.maxops = 7; c.maxrf = 6; c.maxfactor = 4; n = gen_netdesc(g, c); } render_all(g, n, {}, false); { bool first = true; for (auto& o : n.ops) { g.assume(o.k != NOp::DOWN || first); if (o.k != NOp::DOWN && o.k != NOp::FLATTEN && o.k != NOp::PUSH && o.k != NOp::POP) first = false; } }
  size_t s = 1 + g.below(4), w = n.fx * (1 + g.below(std::max<size_t>(1, (big ? 2 : 6) / n.fx))), h = n.fy * (1 + g.below(std::max<size_t>(1, (big ? 2 : 6) / n.fy))); bool loss = g.chance(2, 3); uint64_t sd = g.below(1 << 20); g.note() << s << "s@" << w << "x" << h << (loss ? " loss: " : ": ") << oneline(n.text);
  FNet f[2]; size_t rounds = 1 + g.below(2); bool testing = g.chance(1, 4); for (auto& q : f) { q.build(n, 3, true, s, w, h, loss); REQUIRE(q.complete, "incomplete"); q.randomize(sd); q.graph.SetIsTesting(testing); }
  for (size_t r = 0; r < rounds; r++) {
    float junk = g.pick<float>({0.0f, 3.0f, NAN});
    for (int k = 0; k < 2; k++) {
      FNet& q = f[k]; for (auto* v : q.graph.GetNodes()) for (auto& b : v->output_buffers) b.combined_tensor->delta.Clear(junk); for (auto* t : q.params()) t->delta.Clear(junk); fill_generic(q.data, sd + r * 50 + 1); fill_generic(q.label, sd + r * 50 + 2); fill_generic(q.helper, sd + 3); for (size_t e = 0; e < q.weight.elements(); e++) q.weight[e] = (float)(1 + (e + sd) % 3) * 0.5f;
      auto run = [&] { q.graph.FeedForward(); if (testing) return; if (!loss) { auto& outs = q.graph.GetOutputNodes(); for (size_t o = 0; o < outs.size(); o++) fill_generic(outs[o]->output_buffers[0].combined_tensor->delta, sd + 300 + o); } q.graph.BackPropagate(); }; if (k) with(p, run); else run();
    }
    auto &na = f[0].graph.GetNodes(), &nb = f[1].graph.GetNodes(); REQUIRE(na.size() == nb.size(), "the networks differ");
    for (size_t k = 0; k < na.size(); k++) { for (size_t o = 0; o < na[k]->output_buffers.size(); o++) { auto *x = na[k]->output_buffers[o].combined_tensor, *y = nb[k]->output_buffers[o].combined_tensor; std::string at = "node " + std::to_string(k) + " (" + na[k]->layer->GetLayerDescription() + ")"; same(x->data, y->data, "output of " + at, 1e-3); if (!testing) same(x->delta, y->delta, "error at the output of " + at, 1e-3); } }
    CTV x = f[0].params(), y = f[1].params(); for (size_t k = 0; k < x.size() && !testing; k++) same(x[k]->delta, y[k]->delta, "error of parameter " + std::to_string(k), 1e-3);
    if (loss) REQUIRE(std::fabs(f[0].graph.AggregateLoss() - f[1].graph.AggregateLoss()) <= 1e-3 * (1 + std::fabs(f[0].graph.AggregateLoss())), "the loss is " << f[1].graph.AggregateLoss() << ", by one thread it is " << f[0].graph.AggregateLoss());
  }
  if (n.ops.size() > 4 && teamed()) g.nontrivial();
}
// a whole training run
struct TNet {
  std::istringstream file; std::unique_ptr<Conv::ConfigurableFactory> factory; Conv::NetGraph graph; Conv::DatasetInputLayer* in;
  TNet(MemDataset& d, const std::string& text, unsigned seed, unsigned batch, float p) : file(text) { factory.reset(new Conv::ConfigurableFactory(file, seed, true)); in = new Conv::DatasetInputLayer(d, batch, p, seed + 5); auto* n = new Conv::NetGraphNode(in); n->is_input = true; graph.AddNode(n); factory->AddLayers(graph, Conv::NetGraphConnection(n, 0), d.cls, true); graph.Initialize(); graph.InitializeWeights(); graph.SetIsTesting(false); }
  CTV params() { CTV p; graph.GetParameters(p); return p; }
  ~TNet() { std::vector<Conv::NetGraphNode*> all = graph.GetNodes(); std::set<CombinedTensor*> t; for (auto* n : all) for (auto& b : n->output_buffers) t.insert(b.combined_tensor); for (auto* n : all) { delete n->layer; delete n; } for (auto* c : t) delete c; }
};
FACET(training, 1500, 20000, "weights changed, and a loop was shared by at least two threads") {
  omp::Plan p = gen_plan(g); NGen c; c.maxops = 5; c.maxrf = 5; c.maxfactor = 4; NDesc n = gen_netdesc(g, c); bool pooled = false; for (auto& o : n.ops) { g.assume(o.k != NOp::DOWN || !pooled); if (o.k == NOp::MAXPOOL || o.k == NOp::AMAXPOOL) pooled = true; } render_all(g, n);
  MemDataset d; d.w = (unsigned)(n.fx * (1 + g.below(std::max<size_t>(1, 6 / n.fx)))); d.h = (unsigned)(n.fy * (1 + g.below(std::max<size_t>(1, 6 / n.fy)))); d.in = (unsigned)n.channels; d.cls = (unsigned)n.classes; d.ntrain = 1 + (unsigned)g.below(5); d.ntest = 1 + (unsigned)g.below(3); d.seed = g.below(1 << 20); unsigned seed = 1 + (unsigned)g.below(1000), batch = 1 + (unsigned)g.below(4); float prob = g.pick<float>({1.f, 1.f, 0.5f}); TrainerSettings s = gen_settings(g, false); s.learning_rate = g.pick<float>({0.05f, 0.01f}); s.iterations = 1 + (unsigned)g.below(2); bool test = g.chance(1, 3);
  g.note() << d.w << "x" << d.h << " batch " << batch << " train " << d.ntrain << " p" << prob << " seed " << seed << " " << s << (test ? " test" : "") << ": " << oneline(n.text); TNet a(d, n.text, seed, batch, prob), b(d, n.text, seed, batch, prob); CTV x = a.params(), y = b.params(); g.assume(!x.empty()); std::vector<Arr> start; for (auto* t : x) start.emplace_back(t->data);
  Trainer ta(a.graph, s), tb(b.graph, s); unsigned epochs = 1 + (unsigned)g.below(2); for (unsigned e = 0; e < epochs; e++) { auto run = [&](Trainer& t) { t.Train(1, false); if (test) t.Test(); }; run(ta); with(p, [&] { run(tb); }); }
  bool moved = false; for (size_t k = 0; k < x.size(); k++) { for (size_t e = 0; e < x[k]->data.elements(); e++) { float v = x[k]->data[e]; g.assume(std::isfinite(v) && std::fabs(v) < 1e4); moved |= v != start[k].d[e]; } same(x[k]->data, y[k]->data, "parameter " + std::to_string(k) + " after training", 2e-3); }
  if (moved && teamed()) g.nontrivial();
}
