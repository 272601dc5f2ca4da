// C12: every epoch visits every sample exactly once.
#include "dataset.h"
#include "DatasetInputLayer.h"
#include "ErrorLayer.h"
#include "NetGraph.h"
#include "NetGraphNode.h"
#include <algorithm>
#include <set>
using namespace cn;
using Conv::DatasetInputLayer;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

struct Feed {
  MemDataset& d; std::unique_ptr<DatasetInputLayer> l; CTV outs; std::vector<std::unique_ptr<CombinedTensor>> own; unsigned batch; float p; Conv::NetStatus st;
  Feed(MemDataset& d_, unsigned b, float p_, unsigned seed) : d(d_), batch(b), p(p_) {
    l.reset(new DatasetInputLayer(d, b, p, seed)); REQUIRE(l->CreateOutputs({}, outs), "no outputs"); for (auto* o : outs) own.emplace_back(o);
    REQUIRE(outs.size() == 4, outs.size() << " outputs"); require_shape(outs[0]->data, b, d.w, d.h, d.in, "data"); require_shape(outs[1]->data, b, d.lw(), d.lh(), d.cls, "label"); require_shape(outs[2]->data, b, d.lw(), d.lh(), 2, "helper"); require_shape(outs[3]->data, b, d.lw(), d.lh(), 1, "weight");
    for (auto* o : outs) { o->data.Clear(-99); o->delta.Clear(); } REQUIRE(l->Connect({}, outs, &st), "not connected");
    REQUIRE(l->GetBatchSize() == b && l->GetLabelWidth() == d.lw() && l->GetLabelHeight() == d.lh() && l->GetSamplesInTrainingSet() == d.ntrain && l->GetSamplesInTestingSet() == d.ntest && l->GetLossSamplingProbability() == p, "reported sizes");
  }
  // which sample is in a slot (identified by its data); -1: none.  The label and
  // helper must belong to the same sample
  long slot(bool test, unsigned s) {
    for (unsigned i = 0; i < (test ? d.ntest : d.ntrain); i++) {
      auto is = [&](int what) { Tensor& t = outs[what]->data; size_t n = t.width() * t.height() * t.maps(); for (size_t e = 0; e < n; e++) if (t[s * n + e] != d.value(test, i, what, e)) return false; return true; };
      if (!is(0)) continue;
      REQUIRE(is(1), "slot " << s << " holds the data of sample " << i << " but another label"); REQUIRE(is(2), "slot " << s << " holds the data of sample " << i << " but other helper data"); return i;
    }
    return -1;
  }
  // number of pixels: total, kept.  Pixels not kept have weight 0, in blocks
  void weights(bool test, unsigned s, unsigned i, long& blocks, long& kept) {
    Tensor& t = outs[3]->data; unsigned W = t.width(), H = t.height();
    for (unsigned by = 0; by < H; by += 12) for (unsigned bx = 0; bx < W; bx += 12) {
      int state = -1;
      for (unsigned y = by; y < std::min(H, by + 12); y++) for (unsigned x = bx; x < std::min(W, bx + 12); x++) {
        float v = *t.data_ptr(x, y, 0, s), full = d.value(test, i, 3, y * W + x); int q = v == full ? 1 : v == 0 ? 0 : 2; REQUIRE(q != 2, "weight at (" << x << "," << y << ") is " << v << ", expected " << full << " or 0");
        if (state < 0) state = q; REQUIRE(state == q, "loss sampling split the block at (" << bx << "," << by << ")");
      }
      blocks++; kept += state;
    }
  }
};
static void gen_data(G& g, MemDataset& d, unsigned maxn, unsigned maxw = 6) {
  if (g.chance(1, 16)) { maxn *= 8; if (g.coin()) maxw *= 6; }
  if (g.coin()) d.method = Conv::PATCH; d.w = 2 + (unsigned)g.below(maxw - 1); d.h = 1 + (unsigned)g.below(maxw); d.in = 1 + (unsigned)g.below(3); d.cls = 1 + (unsigned)g.below(3); d.seed = g.below(1 << 20); d.ntrain = 1 + (unsigned)g.small(0, maxn - 1); d.ntest = 1 + (unsigned)g.small(0, maxn - 1); d.in += (d.w * d.h * d.in < 8) ? 7 : 0;  // samples distinguishable
}
static std::ostream& operator<<(std::ostream& o, const MemDataset& d) { return o << (d.method == Conv::FCN ? "fcn " : "patch ") << d.w << "x" << d.h << "x" << d.in << " train " << d.ntrain << " test " << d.ntest; }
static void check_passes(const std::vector<unsigned>& seq, unsigned n) {
  for (size_t k = 0; k < seq.size(); k += n) { std::set<unsigned> seen; for (size_t q = k; q < std::min(seq.size(), k + n); q++) REQUIRE(seq[q] < n && seen.insert(seq[q]).second, "sample " << seq[q] << " was delivered twice in pass " << k / n); }
}

// any interleaving of training, testing and switching
FACET(history, 20000, 300000, "more than one pass over the training set and a test in between") {
  MemDataset d; gen_data(g, d, 12); unsigned batch = 1 + (unsigned)g.small(0, 8), seed = (unsigned)g.below(1000); float p = g.pick<float>({1.f, 1.f, 0.5f, 0.f}); g.note() << d << " batch " << batch << " p" << p << " seed " << seed << ":"; d.log = g.coin();
  Feed f(d, batch, p, seed); std::vector<unsigned> train; bool testing = false; unsigned next = 0, tests = 0; size_t ops = 1 + g.below(14);
  for (size_t k = 0; k < ops; k++) {
    if (g.chance(1, 3)) { bool t = g.coin(); g.note() << (t ? " test" : " train"); f.l->SetTestingMode(t); if (t && !testing) next = 0; testing = t; if (t) tests++; }
    unsigned steps = 1 + (unsigned)g.below(4); g.note() << " " << steps;
    for (unsigned q = 0; q < steps; q++) {
      d.asked.clear(); f.l->FeedForward();
      for (auto& a : d.asked) REQUIRE(a.first == testing, "a sample of the wrong set was requested");
      for (unsigned s = 0; s < batch; s++) {
        long i = f.slot(testing, s);
        if (testing) {
          if (next < d.ntest) { REQUIRE(i == (long)next, "slot " << s << " holds testing sample " << i << ", expected " << next); long b = 0, kp = 0; f.weights(true, s, next, b, kp); REQUIRE(b == kp, "testing sample " << next << " lost weight"); next++; }
          else { g.label("surplus"); Tensor& t = f.outs[3]->data; size_t n = t.width() * t.height(); for (size_t e = 0; e < n; e++) REQUIRE(t[s * n + e] == 0, "surplus slot " << s << " has weight " << t[s * n + e]); }
        } else { REQUIRE(i >= 0, "slot " << s << " holds no training sample"); long b = 0, kp = 0; f.weights(false, s, (unsigned)i, b, kp); if (d.method == Conv::PATCH || p == 1) REQUIRE(b == kp, "weight was lost without loss sampling"); if (d.method == Conv::FCN && p == 0) REQUIRE(kp == 0, "pixels survived loss sampling with probability 0"); train.push_back((unsigned)i); }
      }
    }
  }
  check_passes(train, d.ntrain); if (train.size() > d.ntrain && d.ntrain > 1 && tests) g.nontrivial();
}

static std::vector<unsigned> order(G& g, MemDataset& d, unsigned batch, float p, unsigned seed, size_t n, bool interleave) {
  Feed f(d, batch, p, seed); std::vector<unsigned> v;
  while (v.size() < n) {
    if (interleave && g.chance(1, 3)) { f.l->SetTestingMode(true); unsigned k = (unsigned)g.below(4); for (unsigned q = 0; q < k; q++) f.l->FeedForward(); f.l->SetTestingMode(false); }
    f.l->FeedForward(); for (unsigned s = 0; s < batch; s++) { long i = f.slot(false, s); REQUIRE(i >= 0, "slot " << s << " holds no training sample"); v.push_back((unsigned)i); }
  }
  v.resize(n); return v;
}
// the order depends on the seed alone
FACET(order, 10000, 150000, "more than three training samples") {
  MemDataset d; gen_data(g, d, 16, 4); float p = g.pick<float>({1.f, 1.f, 0.5f}); unsigned b1 = 1 + (unsigned)g.small(0, 9), b2 = 1 + (unsigned)g.small(0, 9), seed = (unsigned)g.below(1000); size_t n = d.ntrain * (1 + g.below(4)) + g.below(3);
  g.note() << d << " batches " << b1 << "," << b2 << " p" << p << " seed " << seed; if (d.ntrain > 3) g.nontrivial();
  std::vector<unsigned> a = order(g, d, b1, p, seed, n, false), b = order(g, d, b2, p, seed, n, g.coin());
  REQUIRE(a == b, "the order of the training samples differs"); check_passes(a, d.ntrain);
  if (d.ntrain >= 12 && n >= 2 * d.ntrain) { std::vector<unsigned> c = order(g, d, b1, p, seed + 1 + (unsigned)g.below(50), n, false); REQUIRE(c != a, "another seed gives the same order"); REQUIRE(!std::equal(a.begin(), a.begin() + d.ntrain, a.begin() + d.ntrain), "the second pass has the order of the first"); bool sorted = std::is_sorted(a.begin(), a.begin() + d.ntrain); REQUIRE(!sorted, "the samples are not shuffled"); g.label("shuffled"); }
}
// the fraction of blocks that survive loss sampling
FACET(loss_sampling, 400, 6000, "probability strictly between 0 and 1") {
  MemDataset d; d.w = 12 * (1 + (unsigned)g.below(5)) + (unsigned)g.below(12); d.h = 12 * (1 + (unsigned)g.below(5)) + (unsigned)g.below(12); d.in = 1; d.ntrain = 1 + (unsigned)g.below(4); d.ntest = 1; d.seed = g.below(1000); unsigned batch = 1 + (unsigned)g.below(3); float p = g.pick<float>({0.5f, 0.25f, 0.75f, 0.1f, 0.9f, 1.f, 0.f}); unsigned seed = (unsigned)g.below(1 << 20);
  g.note() << d << " batch " << batch << " p" << p << " seed " << seed; if (p > 0 && p < 1) g.nontrivial(); Feed f(d, batch, p, seed); long blocks = 0, kept = 0; std::vector<unsigned> train;
  while (blocks < 600) { f.l->FeedForward(); for (unsigned s = 0; s < batch; s++) { long i = f.slot(false, s); REQUIRE(i >= 0, "slot " << s << " holds no training sample"); train.push_back((unsigned)i); f.weights(false, s, (unsigned)i, blocks, kept); } }
  check_passes(train, d.ntrain); double sd = std::sqrt(blocks * p * (1 - p)); REQUIRE(std::fabs(kept - blocks * (double)p) <= 7 * sd + 1e-9, kept << " of " << blocks << " blocks kept with probability " << p);
}
// the loss summed over a testing pass counts every testing sample once
FACET(testing_loss, 8000, 120000, "the batch size does not divide the number of testing samples") {
  MemDataset d; gen_data(g, d, 9, 4); d.method = Conv::FCN; d.cls = d.in; unsigned batch = 1 + (unsigned)g.small(0, 11); float p = g.pick<float>({1.f, 0.5f}); if (d.ntest % batch) g.nontrivial(); g.note() << d << " batch " << batch;
  Conv::NetGraph graph; DatasetInputLayer* in = new DatasetInputLayer(d, batch, p, 3); Conv::ErrorLayer* el = new Conv::ErrorLayer(); Conv::NetGraphNode* a = new Conv::NetGraphNode(in); a->is_input = true; Conv::NetGraphNode* e = new Conv::NetGraphNode(el, Conv::NetGraphConnection(a, 0)); e->input_connections.push_back(Conv::NetGraphConnection(a, 1)); e->input_connections.push_back(Conv::NetGraphConnection(a, 3)); graph.AddNode(a); graph.AddNode(e); graph.Initialize();
  double want = 0; for (unsigned i = 0; i < d.ntest; i++) for (size_t m = 0; m < d.in; m++) for (size_t q = 0; q < d.w * d.h; q++) { double df = d.value(true, i, 0, m * d.w * d.h + q) - d.value(true, i, 1, m * d.w * d.h + q); want += 0.5 * d.value(true, i, 3, q) * df * df; }
  int rounds = 1 + (int)g.below(3); struct Clean { Conv::NetGraphNode *a, *e; ~Clean() { for (auto& b : a->output_buffers) delete b.combined_tensor; delete a->layer; delete e->layer; delete a; delete e; } } clean{a, e};
  for (int r = 0; r < rounds; r++) {
    unsigned tr = (unsigned)g.below(3); for (unsigned q = 0; q < tr; q++) graph.FeedForward();
    in->SetTestingMode(true); double got = 0; unsigned its = (d.ntest + batch - 1) / batch + (unsigned)g.below(2); for (unsigned q = 0; q < its; q++) { graph.FeedForward(); got += graph.AggregateLoss(); } in->SetTestingMode(false);
    require_close(got, want, 1e-4 * want + 1e-9, "loss over testing pass " + std::to_string(r));
  }
}
// without samples: refused
FACET(empty, 200, 1000, "a set without samples") {
  MemDataset d; gen_data(g, d, 3); bool train = g.coin(); (train ? d.ntrain : d.ntest) = 0; unsigned batch = 1 + (unsigned)g.below(3); g.note() << d << " batch " << batch; g.nontrivial(); Feed f(d, batch, 1, 1);
  if (!train) f.l->SetTestingMode(true); bool refused = false; try { f.l->FeedForward(); } catch (const std::runtime_error&) { refused = true; }
  if (!refused) { REQUIRE(!train, "training without samples"); Tensor& t = f.outs[3]->data; for (size_t e = 0; e < t.elements(); e++) REQUIRE(t[e] == 0, "a sample out of nothing"); }
  f.l->SetTestingMode(train); f.l->FeedForward(); for (unsigned s = 0; s < batch; s++) { long i = f.slot(train, s); long b, k; if (!train || s < d.ntest) REQUIRE(i >= 0, "the other set is not usable"); }
  CTV few; REQUIRE(!f.l->Connect({}, few, &f.st), "connected without outputs");
}
