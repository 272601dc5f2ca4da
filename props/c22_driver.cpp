// Compiled once per build of the library; see c22_device.h.
#include "c22_device.h"
#include "graph.h"
#include "netdesc.h"
#include "dataset.h"
#include "DatasetInputLayer.h"
#include "ConfigurableFactory.h"
#include "Trainer.h"
#include "TensorMath.h"
#include "Init.h"
#ifdef BUILD_OPENCL
#include "CLHelper.h"
#include "../clmock/clmock.h"
#endif
using namespace cn; using namespace c22; using Conv::TensorMath;
namespace {
double jit; pbt::Rng jr(1); Out* O;

void cpu(Tensor& t) {
#ifdef BUILD_OPENCL
  t.MoveToCPU();
#else
  (void)t;
#endif
}
void gpu(Tensor& t) {
#ifdef BUILD_OPENCL
  if (t.elements()) t.MoveToGPU();
#else
  (void)t;
#endif
}
// leave a tensor on either side, possibly after a round trip
void place(G& g, Tensor& t) { switch (g.below(4)) { case 0: break; case 1: gpu(t); break; case 2: gpu(t); cpu(t); break; case 3: cpu(t); gpu(t); } }
void jolt(Tensor& t) { if (jit != 0) for (size_t e = 0; e < t.elements(); e++) t[e] = (float)(t[e] * (1 + jit * (2 * jr.unit() - 1)) + 1e-3 * jit * (2 * jr.unit() - 1)); }
void put(Tensor& t, Vals v) { cpu(t); fill(t, v); jolt(t); }
void put_generic(Tensor& t, uint64_t seed) { cpu(t); fill_generic(t, seed); jolt(t); }
void dump(const std::string& name, Tensor& t, double scale = 0) { cpu(t); O->v.push_back({name, std::vector<float>(t.data_ptr_const(), t.data_ptr_const() + t.elements())}); O->scale.push_back(scale); }
void label(const std::string& l) { O->labels.push_back(l); }

typedef std::unique_ptr<Tensor> TP;
TP mk(size_t s, size_t w, size_t h, size_t m) { return TP(new Tensor(s, w, h, m)); }

// ---- single functions ---------------------------------------------------------
void math(G& g) {
  auto alpha = [&] { return g.pick<float>({1.f, 1.f, 0.f, -0.5f, 2.f, 0.3f}); }; std::ostringstream n;
  // a matrix stored in one sample of a tensor, rows of ld elements
  auto matrix = [&](size_t rows, size_t cols, int& sm, int& ld) { size_t samples = 1 + g.small(0, 2); ld = (int)(cols + (g.chance(1, 3) ? g.below(3) : 0)); sm = (int)g.below(samples); return mk(samples, ld, rows, 1); };
  switch (g.below(9)) {
    case 0: case 1: {
      bool mv = g.chance(1, 3), ta = g.coin(), tb = !mv && g.coin(); int M = 1 + (int)g.small(0, 7), N = 1 + (int)g.small(0, 7), K = 1 + (int)g.small(0, 7), sa, sb, sc, la, lb, lc; float al = alpha(), be = alpha();
      if (!mv) {
        TP A = matrix(ta ? K : M, ta ? M : K, sa, la), B = matrix(tb ? N : K, tb ? K : N, sb, lb), C = matrix(M, N, sc, lc); put(*A, gen_vals(g)); put(*B, gen_vals(g)); put(*C, gen_vals(g)); place(g, *A); place(g, *B); place(g, *C);
        bool hint = be == 0 && g.coin(); C->hint_ignore_content_ = hint; n << "gemm " << M << "x" << N << "x" << K << " t" << ta << tb << " alpha " << al << " beta " << be << " ld " << la << "," << lb << "," << lc << " samples " << sa << "," << sb << "," << sc << (hint ? " hint" : ""); O->note = n.str();
        TensorMath::GEMM(true, ta, tb, M, N, K, al, *A, sa, la, *B, sb, lb, be, *C, sc, lc); if (C->hint_ignore_content_) FAILMSG("the hint to ignore the content outlives the product");
        cpu(*C); if (hint) for (size_t e = 0; e < C->elements(); e++) { size_t s = e / (C->width() * C->height()), r = e / C->width() % C->height(), c = e % C->width(); if ((int)s != sc || (int)c >= N || (int)r >= M) (*C)[e] = 0; }
        dump("C", *C, 8 * K); dump("A", *A); dump("B", *B); O->nontrivial = M * N * K > 1; label("gemm");
      } else {
        int ix = 1 + (int)g.below(2), iy = 1 + (int)g.below(2), sx, sy, lx, ly; TP A = matrix(M, N, sa, la), X = matrix(1, (size_t)(ta ? M : N) * ix, sx, lx), Y = matrix(1, (size_t)(ta ? N : M) * iy, sy, ly); put(*A, gen_vals(g)); put(*X, gen_vals(g)); put(*Y, gen_vals(g)); place(g, *A); place(g, *X); place(g, *Y);
        bool hint = be == 0 && g.coin(); Y->hint_ignore_content_ = hint; n << "gemv " << M << "x" << N << " t" << ta << " alpha " << al << " beta " << be << " ld " << la << " inc " << ix << "," << iy << " samples " << sa << "," << sx << "," << sy << (hint ? " hint" : ""); O->note = n.str();
        TensorMath::GEMV(true, ta, M, N, al, *A, sa, la, *X, sx, ix, be, *Y, sy, iy); if (Y->hint_ignore_content_) FAILMSG("the hint to ignore the content outlives the product");
        cpu(*Y); if (hint) { size_t len = ta ? N : M; for (size_t e = 0; e < Y->elements(); e++) { size_t s = e / Y->width(), c = e % Y->width(); if ((int)s != sy || c % iy || c / iy >= len) (*Y)[e] = 0; } }
        dump("Y", *Y, 8 * (ta ? M : N)); dump("A", *A); dump("X", *X); O->nontrivial = M * N > 1; label("gemv");
      }
      break; }
    case 2: case 3: {
      bool back = g.coin(); Dim d = gen_dim(g, 7, 3, 3); size_t pw = g.below(3), ph = g.below(3), kw = 1 + g.below(std::min<size_t>(4, d.w + 2 * pw)), kh = 1 + g.below(std::min<size_t>(4, d.h + 2 * ph)), sw = 1 + g.below(3), sh = 1 + g.below(3), ow = (d.w + 2 * pw - kw) / sw + 1, oh = (d.h + 2 * ph - kh) / sh + 1;
      TP S = mk(d.s, d.w, d.h, d.m), T = mk(kw * kh * d.m, ow, oh, d.s); put(*S, gen_vals(g)); put(*T, gen_vals(g)); place(g, *S); place(g, *T); (back ? *S : *T).hint_ignore_content_ = g.coin();
      n << (back ? "col2im " : "im2col ") << d << " kernel " << kw << "x" << kh << " stride " << sw << "x" << sh << " pad " << pw << "x" << ph; O->note = n.str();
      if (back) TensorMath::COL2IM(*S, d.w, d.h, d.m, d.s, kw, kh, sw, sh, pw, ph, *T); else TensorMath::IM2COL(*S, d.w, d.h, d.m, d.s, kw, kh, sw, sh, pw, ph, *T);
      dump("image", *S, back ? 4 * kw * kh : 0); dump("columns", *T); O->nontrivial = d.n() > 1 && kw * kh > 1; label(back ? "col2im" : "im2col"); break; }
    case 4: { Dim d = gen_dim(g, 6, 4, 4); TP T = mk(d.s, d.w, d.h, d.m); put(*T, gen_vals(g)); place(g, *T); int s = (int)g.below(d.s + 1) - 1; float v = alpha(); n << "setsample " << d << " sample " << s << " value " << v; O->note = n.str(); TensorMath::SETSAMPLE(*T, s, v); dump("tensor", *T); O->nontrivial = s >= 0 && d.s > 1; label("setsample"); break; }
    case 5: { Dim d = gen_dim(g, 6, 4, 4); TP S = mk(d.m, d.w, d.h, d.s), T = mk(d.s, d.w, d.h, d.m); put(*S, gen_vals(g)); put(*T, gen_vals(g)); place(g, *S); place(g, *T); n << "sms " << d; O->note = n.str(); TensorMath::SMS(*S, *T); dump("source", *S); dump("target", *T); O->nontrivial = d.m > 1 && d.s > 1; label("sms"); break; }
    case 6: case 7: { bool up = g.coin(); Dim d = gen_dim(g, 5, 3, 3); size_t rw = 1 + g.below(4), rh = 1 + g.below(4); float f = alpha(); TP S = mk(d.s, d.w, d.h, d.m), B = mk(d.s, d.w * rw, d.h * rh, d.m); put(*S, gen_vals(g)); put(*B, gen_vals(g)); place(g, *S); place(g, *B); n << (up ? "up " : "down ") << d << " by " << rw << "x" << rh << " factor " << f; O->note = n.str();
      if (up) TensorMath::UP(*S, *B, rw, rh, f); else TensorMath::DOWN(*B, *S, rw, rh, f); dump("small", *S, up ? 0 : 8 * rw * rh); dump("big", *B); O->nontrivial = rw * rh > 1; label(up ? "up" : "down"); break; }
    default: { Dim d = gen_dim(g, 6, 3, 4); TP A = mk(d.s, d.w, d.h, d.m), B = mk(d.s, d.w, d.h, d.m), C = mk(d.s, d.w, d.h, d.m); put(*A, gen_vals(g)); put(*B, gen_vals(g)); put(*C, gen_vals(g)); place(g, *A); place(g, *B); place(g, *C); n << "add " << d; O->note = n.str(); TensorMath::ADD(*A, *B, *C); dump("a", *A); dump("b", *B); dump("sum", *C); O->nontrivial = true; label("add"); }
  }
}

// ---- tensors that move back and forth --------------------------------------------
void tensors(G& g) {
  Dim d = gen_dim(g, 5, 3, 3), dt{d.m, d.w, d.h, d.s}; std::vector<TP> t; std::vector<TP> shadows; std::ostringstream n; n << d << ":"; int moves = 0, sms = 0;
  for (int k = 0; k < 4; k++) { Dim q = k == 3 ? dt : d; t.push_back(mk(q.s, q.w, q.h, q.m)); put(*t.back(), Vals{3, g.below(1 << 20)}); }
  size_t steps = 1 + g.below(14);
  for (size_t k = 0; k < steps; k++) {
    size_t a = g.below(3), b = g.below(3), c = g.below(3); Tensor &A = *t[a], &B = *t[b], &C = *t[c], &X = *t[3];
    switch (g.below(14)) {
      case 0: case 1: gpu(A); moves++; n << " gpu" << a; break;
      case 2: cpu(A); n << " cpu" << a; break;
      case 3: gpu(X); moves++; n << " gpuX"; break;
      case 4: { int s = (int)g.below(d.s + 1) - 1; float v = (float)g.below(5) - 2; A.Clear(v, s); n << " clear" << a << "," << s << "=" << v; break; }
      case 5: { int s = (int)g.below(d.s + 1) - 1; float v = (float)g.below(5) - 2; TensorMath::SETSAMPLE(A, s, v); n << " set" << a << "," << s << "=" << v; break; }
      case 6: TensorMath::ADD(A, B, C); n << " add" << a << b << c; break;
      case 7: if (g.coin()) { TensorMath::SMS(A, X); n << " sms" << a << "X"; } else { TensorMath::SMS(X, A); n << " smsX" << a; } sms++; break;
      case 8: if (a != b) { TensorMath::UP(A, B, 1, 1, 0.5f); n << " half" << a << b; } break;
      case 9: if (a != b) { TensorMath::IM2COL(A, d.w, d.h, d.m, d.s, 1, 1, 1, 1, 0, 0, X); n << " im2col" << a << "X"; } else if (a != c) { TensorMath::COL2IM(A, d.w, d.h, d.m, d.s, 1, 1, 1, 1, 0, 0, X); n << " col2imX" << a; } break;
      case 10: { cpu(A); size_t e = g.below(A.elements()); A[e] = (float)k; n << " write" << a << "[" << e << "]"; break; }
      case 11: { std::stringstream s; A.Serialize(s); B.Deserialize(s); n << " copy" << a << b; break; }
      case 12: { shadows.emplace_back(new Tensor); Tensor& S = *shadows.back(); S.Shadow(A); bool wr = g.coin(); if (wr) { cpu(S); size_t e = g.below(S.elements()); S[e] = 10.f + k; n << " shadowwrite" << a << "[" << e << "]"; } else { place(g, S); if (a != c) TensorMath::UP(S, C, 1, 1, 2.0f); n << " shadowdouble" << a << c; } break; }
      default: { Dim q = gen_dim(g, 5, 3, 3); TP big = mk(q.s, q.w, q.h, q.m); big->Clear(1); place(g, *big); bool other = q.n() != d.n(); big->Resize(d.s, d.w, d.h, d.m); if (other && g.coin()) { for (size_t e = 0; e < big->elements(); e++) (*big)[e] = (float)k; } else big->Clear((float)k); place(g, *big); if (g.coin()) { Tensor moved(std::move(*big)); place(g, moved); TensorMath::ADD(moved, A, A); } else TensorMath::ADD(*big, A, A); n << " resize+" << a; }
    }
    O->note = n.str();
  }
  for (size_t k = 0; k < t.size(); k++) dump("tensor " + std::to_string(k), *t[k]);
  O->nontrivial = moves > 0 && steps > 3; label(sms ? "transposed" : "plain");
}

// ---- layers -------------------------------------------------------------------------
void ready(Rig& r) { if (!r.layer->IsOpenCLAware()) { for (auto* q : r.ins) { cpu(q->data); cpu(q->delta); } for (auto* q : r.outs) { cpu(q->data); cpu(q->delta); } } }
void layers(G& g) {
  LSpec l = gen_layer(g, gen_dim(g)); Rig r; for (auto& d : l.in) r.add(d.s, d.w, d.h, d.m); r.layer.reset(l.make()); O->note = l.desc; REQUIRE(r.create() && r.connect(), "layer refuses its inputs");
  auto params = r.layer->parameters(); bool back = l.grad && g.chance(3, 4); if (back) r.layer->SetBackpropagationEnabled(g.chance(5, 6)); size_t rounds = 1 + g.below(3); double sc = l.linear ? 16 : 4; std::ostringstream n; n << l.desc << " " << l.in[0] << " rounds " << rounds << (back ? " backward" : ""); O->note = n.str(); bool generic = g.chance(2, 3) || (back && l.kind.find("pool") != std::string::npos);  // of several equal maxima, any may be chosen
  r.status.SetIsTesting(g.coin());
  for (size_t k = 0; k < rounds; k++) {
    for (auto* p : params) { put_generic(p->data, g.below(1 << 20)); if (l.kind == "conv") place(g, p->data); }
    for (auto* i : r.ins) { Vals v = gen_vals(g); generic ? put_generic(i->data, v.seed) : put(i->data, v); place(g, i->data); }
    for (auto* o : r.outs) { place(g, o->data); place(g, o->delta); } for (auto* i : r.ins) place(g, i->delta); for (auto* p : params) if (l.kind == "conv") place(g, p->delta);
    ready(r); r.layer->FeedForward(); std::string at = " of round " + std::to_string(k);
    for (size_t o = 0; o < r.outs.size(); o++) dump("output " + std::to_string(o) + at, r.outs[o]->data, sc);
    for (size_t i = 0; i < r.ins.size(); i++) { dump("input " + std::to_string(i) + at, r.ins[i]->data); place(g, r.ins[i]->data); }
    if (back) {
      for (auto* o : r.outs) { put_generic(o->delta, g.below(1 << 20)); place(g, o->delta); place(g, o->data); } for (auto* i : r.ins) place(g, i->delta);
      ready(r); r.layer->BackPropagate();
      for (size_t i = 0; i < r.ins.size(); i++) dump("input error " + std::to_string(i) + at, r.ins[i]->delta, sc * 4);
      for (size_t p = 0; p < params.size(); p++) dump("gradient " + std::to_string(p) + at, params[p]->delta, sc * 16);
    }
  }
  O->nontrivial = l.in[0].n() > 1; label(l.kind);
}

// ---- networks --------------------------------------------------------------------------
void graphs(G& g) {
  bool grad = g.coin(); GSpec s = gen_graph(g, 7, grad); GNet net; net.build(g, s, g.coin()); std::ostringstream n; n << s; size_t rounds = 1 + g.below(3); n << " rounds " << rounds; O->note = n.str(); net.graph.SetIsTesting(g.coin());
  for (size_t k = 0; k < rounds; k++) {
    for (size_t q = 0; q < s.nodes.size(); q++) { for (auto* p : net.nodes[q]->layer->parameters()) { put_generic(p->data, g.below(1 << 20)); if (s.nodes[q].l.kind == "conv") place(g, p->data); } }
    for (auto& d : net.data) { put_generic(*d, g.below(1 << 20)); place(g, *d); }
    for (auto* q : net.graph.GetNodes()) for (auto& b : q->output_buffers) { place(g, b.combined_tensor->data); place(g, b.combined_tensor->delta); }
    net.graph.FeedForward(); std::string at = " of round " + std::to_string(k);
    for (size_t q = 0; q < s.nodes.size(); q++) for (size_t b = 0; b < s.nodes[q].l.out.size(); b++) { Tensor& t = net.out({(int)q, (int)b})->data; dump("node " + std::to_string(q) + "." + std::to_string(b) + at, t, 64); place(g, t); }
    if (grad) {
      for (auto& r : s.sinks()) { Tensor& t = net.out(r)->delta; put_generic(t, g.below(1 << 20)); place(g, t); }
      net.graph.BackPropagate();
      for (size_t q = 0; q < s.nodes.size(); q++) { auto ps = net.nodes[q]->layer->parameters(); for (size_t p = 0; p < ps.size(); p++) dump("gradient of node " + std::to_string(q) + "." + std::to_string(p) + at, ps[p]->delta, 256); }
    }
  }
  O->nontrivial = s.nodes.size() > 3; label(grad ? "backward" : "forward");
}

// ---- training ----------------------------------------------------------------------------
void training(G& g) {
  NDesc desc; bool big = g.chance(1, 20); if (big) { size_t macs; desc = gen_realistic(g, true, macs); g.assume(macs * (desc.fx + desc.rfx) * (desc.fy + desc.rfy) < 1000000); } else { NGen c; c.maxops = 5; c.maxrf = 5; c.maxfactor = 4; desc = gen_netdesc(g, c); } bool pooled = false; for (auto& o : desc.ops) { if (o.k == NOp::DOWN && pooled) throw pbt::Discard(); if (o.k == NOp::MAXPOOL || o.k == NOp::AMAXPOOL) pooled = true; }
  MemDataset data; data.w = (unsigned)(desc.fx * (1 + g.below(std::max<size_t>(1, (big ? 2 : 6) / desc.fx)))); data.h = (unsigned)(desc.fy * (1 + g.below(std::max<size_t>(1, (big ? 2 : 6) / desc.fy)))); render_all(g, desc);
  data.in = (unsigned)desc.channels; data.cls = (unsigned)desc.classes; data.ntrain = 1 + (unsigned)g.below(5); data.ntest = 1 + (unsigned)g.below(3); data.seed = g.below(1 << 20); unsigned seed = 1 + (unsigned)g.below(1000), batch = 1 + (unsigned)g.below(3);
  Conv::TrainerSettings ts; ts.learning_rate = g.pick<float>({0.1f, 0.01f, 0.5f}); ts.l1_weight = g.pick<float>({0.f, 0.001f}); ts.l2_weight = g.pick<float>({0.f, 0.0005f, 0.25f}); ts.momentum = g.pick<float>({0.f, 0.9f}); ts.sbatchsize = 1 + (unsigned)g.below(2); ts.pbatchsize = 1; ts.iterations = 1 + (unsigned)g.below(3); ts.stats_during_training = g.coin();
  std::string text = desc.text; std::string one = text; for (auto& q : one) if (q == '\n') q = '|'; std::ostringstream n; n << data.w << "x" << data.h << " batch " << batch << " train " << data.ntrain << " seed " << seed << " iterations " << ts.iterations << ": " << one; O->note = n.str(); if (big) label("realistic size");
  std::istringstream file(text); Conv::ConfigurableFactory fac(file, seed, true); Conv::NetGraph graph; auto* in = new Conv::DatasetInputLayer(data, batch, 1.f, seed + 5); auto* node = new Conv::NetGraphNode(in); node->is_input = true; graph.AddNode(node); fac.AddLayers(graph, Conv::NetGraphConnection(node, 0), data.cls, true); graph.Initialize(); graph.InitializeWeights(); graph.SetIsTesting(false);
  struct Del { Conv::NetGraph& g; ~Del() { std::vector<Conv::NetGraphNode*> all = g.GetNodes(); std::set<CombinedTensor*> t; for (auto* n : all) for (auto& b : n->output_buffers) t.insert(b.combined_tensor); for (auto* n : all) { delete n->layer; delete n; } for (auto* c : t) delete c; } } del{graph};
  std::map<CombinedTensor*, bool> host; for (auto* q : graph.GetNodes()) { bool conv = dynamic_cast<Conv::ConvolutionLayer*>(q->layer); for (auto* p : q->layer->parameters()) host[p] = !conv; }
  CTV ps; graph.GetParameters(ps); g.assume(!ps.empty()); for (size_t p = 0; p < ps.size(); p++) { dump("initial parameter " + std::to_string(p), ps[p]->data); if (jit != 0) jolt(ps[p]->data); }
  Conv::Trainer tr(graph, ts); size_t epochs = 1 + g.below(3);
  for (size_t k = 0; k < epochs; k++) {
    for (auto* p : ps) if (!host[p]) place(g, p->data);
    if (g.coin()) for (auto* q : graph.GetNodes()) for (auto& b : q->output_buffers) { place(g, b.combined_tensor->data); place(g, b.combined_tensor->delta); }
    if (g.chance(1, 3)) { tr.Test(); label("test"); }
    tr.Train(1, false); std::string at = " after epoch " + std::to_string(k); O->v.push_back({"loss" + at, {graph.AggregateLoss()}}); O->scale.push_back(4096); for (size_t p = 0; p < ps.size(); p++) dump("parameter " + std::to_string(p) + at, ps[p]->data, 1024);
    for (auto& q : O->v) for (float f : q.second) g.assume(std::isfinite(f) && std::fabs(f) < 1e4);
  }
  std::stringstream s; graph.SerializeParameters(s); std::string bytes = s.str(); std::vector<float> img(bytes.size() / 4); memcpy(img.data(), bytes.data(), img.size() * 4);
  { // the parameter file holds the current weights
    std::vector<float> all; for (auto* p : ps) { cpu(p->data); for (size_t e = 0; e < p->data.elements(); e++) all.push_back(p->data[e]); } std::string raw((const char*)all.data(), all.size() * 4); size_t found = 0; (void)raw;
    for (auto* p : ps) { std::string w((const char*)p->data.data_ptr_const(), p->data.elements() * 4); if (bytes.find(w) == std::string::npos) FAILMSG("the parameter file does not hold the current weights"); found++; } }
  for (auto* p : ps) { cpu(p->data); p->data.Clear(3); if (!host[p]) place(g, p->data); }
  graph.DeserializeParameters(s); for (size_t p = 0; p < ps.size(); p++) dump("reloaded parameter " + std::to_string(p), ps[p]->data, 1024);
  O->nontrivial = ts.iterations * epochs > 1; label("trained");
}

#ifdef BUILD_OPENCL
#include "c22_kernels.inc"
#endif

void run(G& g, Scenario s) {
  uint64_t order = g.below(4); bool late = !g.chance(1, 4);
#ifdef BUILD_OPENCL
  clmock::item_order = order; clmock::deferred = late; long before = clmock::errors;
#endif
  O->note = "order " + std::to_string(order) + (late ? "" : " at once");
  switch (s) { case MATH: math(g); break; case TENSORS: tensors(g); break; case LAYERS: layers(g); break; case GRAPHS: graphs(g); break; case TRAINING: training(g); break;
#ifdef BUILD_OPENCL
    case KERNELS: kernels(g); break;
#endif
    default: break; }
#ifdef BUILD_OPENCL
  REQUIRE(clmock::errors == before, "the device refused a command: " << clmock::last_error);
#endif
}
}

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
namespace c22 {
void CAT(init_, C22)() { Conv::System::Init(0); }
void CAT(drive_, C22)(pbt::G& g, Scenario s, double jitter, uint64_t jseed, Out& o) {
  jit = jitter; jr = pbt::Rng(jseed); O = &o;
  try { run(g, s); } catch (std::exception& e) { o.refused = e.what(); if (o.refused.empty()) o.refused = "exception"; }
}
}
