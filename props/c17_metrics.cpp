// C17: losses and quality metrics equal their definitions.
#include "stats.h"
#include <algorithm>
#include "dataset.h"
#include "HMaxActivationFunction.h"
using namespace cn;
using Conv::ErrorLayer; using Conv::BinaryStatLayer; using Conv::ConfusionMatrixLayer;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static float weight(pbt::Rng& r, unsigned kind) { switch (kind) { case 0: return 1; case 1: return (float)r.below(2); case 2: return (float)r.below(9) / 4; default: return r.below(3) ? 0 : (float)r.unit() * 3; } }

FACET(loss, 8000, 150000, "several samples or maps and unequal weights") {
  size_t S = upto(g, 4, 24), W = upto(g, 6, 40), H = upto(g, 6, 40), M = upto(g, 4, 24); float lw = g.pick<float>({1.f, 0.5f, 0.f, 3.f, 1e-3f}); Vals a = gen_vals(g, 4), b = gen_vals(g, 4); unsigned wk = (unsigned)g.below(4); pbt::Rng r(g.below(1 << 20)); if (S * M > 1 && wk) g.nontrivial(); g.note() << S << "s@" << W << "x" << H << "x" << M << " loss weight " << lw << " weights " << wk << " " << a << " " << b;
  ErrorLayer l(lw); CombinedTensor x(S, W, H, M), y(S, W, H, M), w(S, W, H, 1); fill(x.data, a); fill(y.data, b); for (size_t e = 0; e < w.data.elements(); e++) w.data[e] = weight(r, wk); CTV in = {&x, &y, &w}, out; REQUIRE(l.CreateOutputs(in, out) && out.empty(), "refused"); Conv::NetStatus st; REQUIRE(l.Connect(in, out, &st), "refused");
  double want = 0; for (size_t s = 0; s < S; s++) for (size_t m = 0; m < M; m++) for (size_t k = 0; k < W * H; k++) { double d = (double)x.data[(s * M + m) * W * H + k] - y.data[(s * M + m) * W * H + k]; want += d * d * w.data[s * W * H + k] * lw; } want /= 2;
  Arr ax(x.data), ay(y.data), aw(w.data); l.FeedForward(); double got = l.CalculateLossFunction(); REQUIRE(std::fabs(got - want) <= 1e-5 * want + 1e-30, "the loss is " << got << ", expected " << want); l.BackPropagate(); require_same(x.data, ax, "the output"); require_same(y.data, ay, "the label"); require_same(w.data, aw, "the weight");
  for (size_t s = 0; s < S; s++) for (size_t m = 0; m < M; m++) for (size_t k = 0; k < W * H; k++) { size_t e = (s * M + m) * W * H + k; double wt = w.data[s * W * H + k], d = ((double)x.data[e] - y.data[e]) * wt * lw; REQUIRE(std::fabs(x.delta[e] - d) <= 1e-5 * ((std::fabs(x.data[e]) + std::fabs(y.data[e])) * wt * lw) + 1e-30, "the gradient at " << e << " is " << x.delta[e] << ", expected " << d); }
  // zero-weight pixels do not count
  for (size_t s = 0; s < S; s++) for (size_t k = 0; k < W * H; k++) if (w.data[s * W * H + k] == 0) for (size_t m = 0; m < M; m++) x.data[(s * M + m) * W * H + k] = (float)(int)r.below(2001) - 1000; l.FeedForward(); double again = l.CalculateLossFunction(); REQUIRE(again == got, "pixels of weight zero change the loss from " << got << " to " << again);
}

// what a classifier should have reported
struct Pixel { size_t pred, actual; float w; };
struct CMRef {
  std::vector<Pixel> px; size_t n;
  double total() const { double t = 0; for (auto& p : px) t += p.w; return t; }
  double orr() const { double r = 0; for (auto& p : px) if (p.pred == p.actual) r += p.w; return 100 * r / total(); }
  double arr() const { double s = 0, k = 0; for (size_t c = 0; c < n; c++) { double t = 0, r = 0; for (auto& p : px) if (p.actual == c) { t += p.w; if (p.pred == c) r += p.w; } if (t > 0) { s += r / t; k++; } } return 100 * s / k; }
  double iou() const { double s = 0; for (size_t c = 0; c < n; c++) { double u = 0, i = 0; for (auto& p : px) { if (p.actual == c || p.pred == c) u += p.w; if (p.actual == c && p.pred == c) i += p.w; } if (u > 0) s += i / u; } return 100 * s / n; }
};
static void check_stat(KeepSink& k, const char* name, bool present, double want, double tol) { const Conv::Stat* s = k.find(name); REQUIRE(s != nullptr, "there is no statistic called " << name); if (!present) { REQUIRE(s->is_null, name << " is reported as " << s->value << " although nothing was processed"); return; } REQUIRE(!s->is_null, name << " is not reported, expected " << want); REQUIRE(std::fabs(s->value - want) <= tol, name << " is reported as " << s->value << ", expected " << want); }
static void check_cm(KeepSink& k, const CMRef& r) { double t = r.total(); if (t > 0 && t < 1 && k.find("Overall Recognition Rate")->is_null) return; check_stat(k, "Overall Recognition Rate", t > 0, t > 0 ? r.orr() : 0, 1e-6); check_stat(k, "Average Recognition Rate", t > 0, t > 0 ? r.arr() : 0, 1e-6); check_stat(k, "Average Intersection over Union", t > 0, t > 0 ? r.iou() : 0, 1e-6); }
// scores whose maximum is unique; returns the winner
static size_t scores(Tensor& t, size_t x, size_t y, size_t s, pbt::Rng& r, bool onehot) { size_t M = t.maps(), c = r.below(M); for (size_t m = 0; m < M; m++) *t.data_ptr(x, y, m, s) = onehot ? (m == c ? 1.f : 0.f) : m == c ? 2.f + (float)r.unit() : (float)(3 * r.unit() - 1.5); return c; }
// what is printed, without the colours
static std::string printed(ConfusionMatrixLayer& l, const std::string& prefix, bool training) {
  std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); l.Print(prefix, training); std::cout.rdbuf(old); std::string t, a = o.str(); for (size_t k = 0; k < a.size(); k++) { if (a[k] == 27) { while (k < a.size() && a[k] != 'm') k++; continue; } t += a[k]; } return t;
}
static double before_percent(const std::string& l) { size_t e = l.rfind('%'); REQUIRE(e != std::string::npos, "no percentage in '" << l << "'"); size_t b = l.find_last_of(" :", e - 1); return strtod(l.substr(b + 1).c_str(), nullptr); }
// the text: the matrix (rows: classified as, columns: actual class), the recognition rates of the classes that occur, the intersection over union of every class and its average
static void check_print(const std::string& text, const CMRef& r) {
  std::vector<double> rr, iu; double avg = -1; std::vector<std::vector<long>> m; std::istringstream in(text); bool head = false;
  for (std::string l; std::getline(in, l);) {
    if (l.find(" RR:") != std::string::npos) { size_t k = rr.size(); (void)k; rr.push_back(before_percent(l)); }
    else if (l.find(" IU:") != std::string::npos) iu.push_back(before_percent(l));
    else if (l.find("intersection over union") != std::string::npos) avg = before_percent(l);
    else if (l.find("ACT>") != std::string::npos) head = true;
    else if (head && m.size() < r.n) { std::istringstream f(l); std::vector<std::string> t; for (std::string q; f >> q;) t.push_back(q); if (t.size() < r.n + 1) continue; std::vector<long> row; for (size_t q = t.size() - r.n; q < t.size(); q++) row.push_back(strtol(t[q].c_str(), nullptr, 10)); m.push_back(row); }
  }
  REQUIRE(m.size() == r.n && iu.size() == r.n && avg >= 0, "the printed report has " << m.size() << " matrix rows and " << iu.size() << " intersections over union for " << r.n << " classes: " << text);
  for (size_t a = 0; a < r.n; a++) for (size_t b = 0; b < r.n; b++) { double t = 0; for (auto& p : r.px) if (p.pred == a && p.actual == b) t += p.w; REQUIRE(m[a][b] <= t + 1e-6 && m[a][b] > t - 1 - 1e-6, "printed " << m[a][b] << " pixels of class " << b << " classified as " << a << ", they weigh " << t); }
  size_t k = 0; for (size_t c = 0; c < r.n; c++) {
    double t = 0, ok = 0, u = 0; for (auto& p : r.px) { if (p.actual == c) { t += p.w; if (p.pred == c) ok += p.w; } if (p.actual == c || p.pred == c) u += p.w; }
    if (t > 0) { REQUIRE(k < rr.size(), "the recognition rate of class " << c << " is not printed: " << text); REQUIRE(std::fabs(rr[k] - 100 * ok / t) <= 1e-3, "printed recognition rate " << rr[k] << " of class " << c << ", expected " << 100 * ok / t); k++; }
    double want = u > 0 ? 100 * ok / u : 0; REQUIRE(std::fabs(iu[c] - want) <= 1e-3, "printed intersection over union " << iu[c] << " of class " << c << ", expected " << want);
  }
  REQUIRE(k == rr.size(), "recognition rates of classes that did not occur are printed: " << text); REQUIRE(std::fabs(avg - r.iou()) <= 1e-3, "printed average intersection over union " << avg << ", expected " << r.iou());
}
struct Flow { bool recording = false, disabled = false; };

FACET(confusion, 3000, 50000, "several batches with wrong answers are reported") {
  auto& agg = fresh_aggregator(); KeepSink sink; agg.RegisterSink(&sink); size_t n = 1 + g.below(5), M = g.chance(1, 6) ? 1 + g.below(n) : n; std::vector<std::string> names; for (size_t k = 0; k < n; k++) names.push_back(g.chance(1, 4) ? "a rather long name" : "c" + std::to_string(k)); size_t S = upto(g, 3, 20), W = upto(g, 5, 40), H = upto(g, 5, 40); ConfusionMatrixLayer l(names, (unsigned)n); CombinedTensor x(S, W, H, M), y(S, W, H, M), w(S, W, H, 1); CTV in = {&x, &y, &w}, out; Conv::NetStatus st; REQUIRE(l.CreateOutputs(in, out) && l.Connect(in, out, &st), "refused"); agg.Initialize(); g.note() << n << " classes " << S << "s@" << W << "x" << H << "x" << M << ":";
  CMRef ref; ref.n = n; pbt::Rng r(g.below(1 << 20)); unsigned wk = (unsigned)g.below(4); bool disabled = false, recording = false, wrong = false; size_t batches = 0, ops = 2 + g.below(12);
  for (size_t q = 0; q < ops + 1; q++) { size_t op = q == ops ? 4 : g.weighted({9, 1, 1, 1, 2}); switch (op) {
    case 0: g.note() << " batch"; for (size_t s = 0; s < S; s++) for (size_t yy = 0; yy < H; yy++) for (size_t xx = 0; xx < W; xx++) { Pixel p; p.pred = scores(x.data, xx, yy, s, r, false); p.actual = scores(y.data, xx, yy, s, r, true); if (r.below(2)) { for (size_t m = 0; m < M; m++) *y.data.data_ptr(xx, yy, m, s) = m == p.pred; p.actual = p.pred; } p.w = weight(r, wk); *w.data.data_ptr(xx, yy, 0, s) = p.w; if (!disabled) { ref.px.push_back(p); wrong |= p.w > 0 && p.pred != p.actual; } } if (!disabled) batches++; l.FeedForward(); l.BackPropagate(); break;
    case 1: g.note() << " reset"; l.Reset(); ref.px.clear(); batches = 0; wrong = false; break;
    case 2: disabled = !disabled; g.note() << (disabled ? " off" : " on"); l.SetDisabled(disabled); break;
    case 3: if (recording) { g.note() << " stop, reset"; agg.StopRecording(); recording = false; } else g.note() << " reset all"; agg.Reset(); ref.px.clear(); batches = 0; wrong = false; break;
    default: { g.note() << " report"; agg.StartRecording(); recording = true; l.UpdateAll(); check_print(printed(l, "p", g.coin()), ref); agg.StopRecording(); recording = false; agg.Generate(); check_cm(sink, ref); if (batches > 1 && wrong) g.nontrivial(); agg.Reset(); ref.px.clear(); batches = 0; wrong = false; } } }
}
struct BinRef {
  struct P { float v, t, w; }; std::vector<P> px; std::vector<float> th;
  struct M { double fpr = -1, fnr = -1, pre = -1, rec = -1, acc = -1, f1 = -1; };
  M at(double th_) const { double tp = 0, fp = 0, tn = 0, fn = 0; for (auto& p : px) { bool s = p.v > (float)th_, e = p.t > 0; (s ? e ? tp : fp : e ? fn : tn) += p.w; } M m; if (tp + fp > 0) m.pre = 100 * tp / (tp + fp); if (tp + fn > 0) { m.rec = 100 * tp / (tp + fn); m.fnr = 100 * fn / (tp + fn); } if (fp + tn > 0) m.fpr = 100 * fp / (fp + tn); if (tp + fp + tn + fn > 0) m.acc = 100 * (tp + tn) / (tp + fp + tn + fn); if (m.pre >= 0 && m.rec >= 0 && m.pre + m.rec > 0) m.f1 = 2 * m.pre * m.rec / (m.pre + m.rec); return m; }
};
static bool same_stat(const Conv::Stat* s, double want, double tol) { return want < 0 ? s->is_null : !s->is_null && std::fabs(s->value - want) <= tol; }
static void check_bin(KeepSink& k, const BinRef& r) {
  static const char* N[] = {"False Positive Rate", "False Negative Rate", "Precision", "Recall", "Accuracy", "F1 Value"}; const Conv::Stat* s[6]; for (int q = 0; q < 6; q++) { s[q] = k.find(N[q]); REQUIRE(s[q] != nullptr, "there is no statistic called " << N[q]); }
  double best = -2; for (float t : r.th) best = std::max(best, r.at(t).f1); std::ostringstream seen; for (int q = 0; q < 6; q++) { seen << " " << N[q] << " "; if (s[q]->is_null) seen << "-"; else seen << s[q]->value; }
  std::ostringstream ex; for (float t : r.th) { auto m = r.at(t); if (m.f1 < best - 1e-4) continue; if (same_stat(s[0], m.fpr, 1e-3) && same_stat(s[1], m.fnr, 1e-3) && same_stat(s[2], m.pre, 1e-3) && same_stat(s[3], m.rec, 1e-3) && same_stat(s[4], m.acc, 1e-3) && same_stat(s[5], m.f1, 1e-3)) return; ex << " [threshold " << t << ":"; for (double v : {m.fpr, m.fnr, m.pre, m.rec, m.acc, m.f1}) ex << " " << v; ex << "]"; }
  FAILMSG("reported" << seen.str() << ", expected the metrics at a threshold of maximal F1:" << ex.str());
}
FACET(binary, 3000, 50000, "several batches with both kinds of error are reported") {
  auto& agg = fresh_aggregator(); KeepSink sink; agg.RegisterSink(&sink); unsigned nt = g.pick<unsigned>({13, 1, 2, 3, 24}); float lo = g.pick<float>({-1.f, -0.5f, 0.f}), hi = g.pick<float>({1.f, 0.5f, 0.25f}); size_t S = upto(g, 3, 20), W = upto(g, 6, 40), H = upto(g, 5, 40); BinaryStatLayer l(nt, lo, hi); CombinedTensor x(S, W, H, 1), y(S, W, H, 1), w(S, W, H, 1); CTV in = {&x, &y, &w}, out; Conv::NetStatus st; REQUIRE(l.CreateOutputs(in, out) && l.Connect(in, out, &st), "refused"); agg.Initialize(); g.note() << nt << " thresholds " << lo << ".." << hi << " " << S << "s@" << W << "x" << H << ":";
  BinRef ref; for (unsigned t = 0; t < nt; t++) ref.th.push_back(nt == 1 ? (lo + hi) / 2 : (float)(lo + (double)(hi - lo) * t / (nt - 1))); pbt::Rng r(g.below(1 << 20)); unsigned wk = (unsigned)g.below(3); double noise = g.pick<double>({0.5, 0.1, 2}), bias = g.pick<double>({0, 0.5, -0.5}); bool disabled = false; size_t batches = 0, ops = 2 + g.below(10); unsigned only = (unsigned)g.below(6);
  for (size_t q = 0; q < ops + 1; q++) { size_t op = q == ops ? 4 : g.weighted({9, 1, 1, 1, 2}); switch (op) {
    case 0: g.note() << " batch"; for (size_t e = 0; e < x.data.elements(); e++) { float t = only == 1 ? 1.f : only == 2 ? -1.f : r.below(2) ? 1.f : -1.f; if (r.below(5) == 0) t *= (float)(1 + r.below(4)) / 4; if (r.below(20) == 0) t = 0; float v; for (;;) { v = (float)(t * 0.5 + bias + noise * (2 * r.unit() - 1)); bool clear = true; for (float h : ref.th) clear &= std::fabs(v - h) > 1e-4; if (clear) break; } BinRef::P p{v, t, weight(r, wk)}; x.data[e] = v; y.data[e] = t; w.data[e] = p.w; if (!disabled) ref.px.push_back(p); } if (!disabled) batches++; l.FeedForward(); l.BackPropagate(); break;
    case 1: g.note() << " reset"; l.Reset(); ref.px.clear(); batches = 0; break;
    case 2: disabled = !disabled; g.note() << (disabled ? " off" : " on"); l.SetDisabled(disabled); break;
    case 3: g.note() << " reset all"; agg.Reset(); ref.px.clear(); batches = 0; break;
    default: { g.note() << " report"; agg.StartRecording(); l.UpdateAll(); l.Print("p", false); agg.StopRecording(); agg.Generate(); check_bin(sink, ref); bool fp = false, fn = false; for (auto& p : ref.px) if (p.w > 0) { fp |= p.v > 0 && p.t <= 0; fn |= p.v < 0 && p.t > 0; } if (batches > 1 && fp && fn) g.nontrivial(); agg.Reset(); ref.px.clear(); batches = 0; } } }
}
// a network's testing run: every testing sample counts once, however they are
// split into batches
FACET_ISOLATED(testing_run, 800, 12000, "the samples do not fill the last batch") {
  auto& agg = fresh_aggregator(); KeepSink sink; agg.RegisterSink(&sink); MemDataset d; d.w = 1 + (unsigned)g.below(6); d.h = 1 + (unsigned)g.below(6); d.in = 1 + (unsigned)g.below(3); d.cls = 1 + (unsigned)g.below(4); d.ntrain = 1 + (unsigned)g.below(4); d.ntest = 1 + (unsigned)g.below(7); d.seed = g.below(1 << 20); unsigned batch = 1 + (unsigned)g.below(4), seed = (unsigned)g.below(1000); float lw = g.pick<float>({1.f, 0.25f}); if (d.ntest % batch) g.nontrivial(); bool during = g.coin(), train_first = g.coin(), both = g.chance(1, 3); g.note() << d.w << "x" << d.h << "x" << d.in << " to " << d.cls << " classes, " << d.ntest << " testing samples in batches of " << batch << (train_first ? ", trained before" : "") << (during ? " with statistics" : "");
  Conv::NetGraph graph; auto* in = new Conv::DatasetInputLayer(d, batch, 1.0f, 1); auto* ni = new Conv::NetGraphNode(in); ni->is_input = true; graph.AddNode(ni); auto* conv = new Conv::ConvolutionLayer(1, 1, d.cls, 1, 1, 0, 0, 1, seed); auto* nc = new Conv::NetGraphNode(conv, Conv::NetGraphConnection(ni, 0)); nc->is_output = true; graph.AddNode(nc);
  auto three = [&](Conv::Layer* l, bool back) { auto* n = new Conv::NetGraphNode(l); n->input_connections.push_back(Conv::NetGraphConnection(nc, 0, back)); n->input_connections.push_back(Conv::NetGraphConnection(ni, 1, false)); n->input_connections.push_back(Conv::NetGraphConnection(ni, 3, false)); graph.AddNode(n); };
  three(new ErrorLayer(lw), true); Conv::Layer* sl; if (d.cls == 1) sl = new BinaryStatLayer(13, -1, 1); else sl = new ConfusionMatrixLayer(d.GetClassNames(), d.cls); three(sl, false); graph.Initialize(); graph.InitializeWeights(); Conv::TrainerSettings ts; ts.learning_rate = 0.01f; ts.iterations = 1 + (unsigned)g.below(3); ts.sbatchsize = 1; ts.pbatchsize = batch; ts.stats_during_training = during; ts.testing_ratio = 1; ts.epoch_training_ratio = 1; Conv::Trainer tr(graph, ts); agg.Initialize();
  if (train_first) { agg.StartRecording(); tr.Train(1, both); agg.StopRecording(); agg.Generate(); agg.Reset(); } size_t runs = 1 + g.below(2);
  for (size_t q = 0; q < runs; q++) {
    CTV ps; graph.GetParameters(ps); Tensor &W = ps[0]->data, &B = ps[1]->data; CMRef cm; cm.n = d.cls; BinRef bin; for (int t = 0; t < 13; t++) bin.th.push_back((float)(-1 + t / 6.0)); double loss = 0; bool close = false; size_t A = (size_t)d.w * d.h;
    for (unsigned i = 0; i < d.ntest; i++) for (size_t k = 0; k < A; k++) { std::vector<double> o(d.cls); float wt = d.value(true, i, 3, k); for (unsigned c = 0; c < d.cls; c++) { o[c] = B[c]; for (unsigned m = 0; m < d.in; m++) o[c] += (double)W[c * d.in + m] * d.value(true, i, 0, m * A + k); double e = o[c] - d.value(true, i, 1, c * A + k); loss += 0.5 * e * e * wt * lw; } Pixel p; p.w = wt; p.pred = std::max_element(o.begin(), o.end()) - o.begin(); p.actual = 0; for (unsigned c = 1; c < d.cls; c++) if (d.value(true, i, 1, c * A + k) > d.value(true, i, 1, p.actual * A + k)) p.actual = c; for (unsigned c = 0; c < d.cls; c++) if (c != p.pred && std::fabs(o[c] - o[p.pred]) < 1e-4) close = true; cm.px.push_back(p); for (float t : bin.th) if (std::fabs(o[0] - t) < 1e-4) close = true; bin.px.push_back({(float)o[0], d.value(true, i, 1, k), wt}); }
    agg.StartRecording(); tr.Test(); agg.StopRecording(); agg.Generate(); unsigned its = d.ntest / batch + 1; check_stat(sink, "Average Aggregate Loss", true, loss / ((double)its * batch * A), 1e-5 * loss / A + 1e-9); if (!close) { if (d.cls == 1) check_bin(sink, bin); else check_cm(sink, cm); } else g.label("near tie"); REQUIRE(!sink.reports.back().hc.is_training, "a testing run is reported as training"); agg.Reset();
  }
}

FACET_ISOLATED(hmax, 600, 8000, "several iterations and the layers were destroyed before the report") {
  auto& agg = fresh_aggregator(); KeepSink sink; agg.RegisterSink(&sink); MemDataset d; d.w = 1 + (unsigned)g.below(3); d.h = 1 + (unsigned)g.below(3); d.in = 1; d.cls = 1; d.ntrain = 1; d.ntest = 1 + (unsigned)g.below(6); d.seed = g.below(1 << 20); size_t n = 1 + g.below(3); double sum[2] = {0, 0}; bool gone = g.coin();
  auto graph = std::make_unique<Conv::NetGraph>(); auto* ni = new Conv::NetGraphNode(new Conv::DatasetInputLayer(d, 1, 1.0f, 1)); ni->is_input = true; graph->AddNode(ni); Conv::NetGraphNode* last = ni; std::vector<Conv::HMaxActivationFunction*> l; std::vector<Conv::NetGraphNode*> nodes{ni};
  for (size_t k = 0; k < n; k++) { l.push_back(new Conv::HMaxActivationFunction(1.0f, 0.5f)); auto* nk = new Conv::NetGraphNode(l[k], Conv::NetGraphConnection(last, 0)); if (k + 1 == n) nk->is_output = true; graph->AddNode(nk); last = nk; nodes.push_back(nk); } graph->Initialize(); graph->InitializeWeights();
  for (auto* q : l) for (int p = 0; p < 2; p++) { float v = (float)((int)g.below(65) - 32) / 8; q->parameters()[0]->data[p] = v; sum[p] += v; }
  Conv::TrainerSettings ts; ts.iterations = 1; ts.sbatchsize = ts.pbatchsize = 1; ts.testing_ratio = 1; ts.epoch_training_ratio = 1; auto tr = std::make_unique<Conv::Trainer>(*graph, ts); agg.Initialize(); size_t its = d.ntest + 1; g.note() << n << " layers, " << its << " passes" << (gone ? ", destroyed before the report" : "");
  agg.StartRecording(); tr->Test(); agg.StopRecording(); tr.reset(); if (gone) { for (auto* k : nodes) { delete k->layer; for (auto& b : k->output_buffers) delete b.combined_tensor; delete k; } graph.reset(); if (its > 1) g.nontrivial(); }
  agg.Generate(); check_stat(sink, "HMaxA", true, sum[0], 1e-6 * its); check_stat(sink, "HMaxB", true, sum[1], 1e-6 * its); REQUIRE(sink.reports.back().hc.iterations == its, "iterations " << sink.reports.back().hc.iterations);
  agg.Reset(); agg.Generate(); check_stat(sink, "HMaxA", false, 0, 0); check_stat(sink, "HMaxB", false, 0, 0);
}
