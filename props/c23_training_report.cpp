// C23: the figures a training or testing run reports about itself describe that run.
#include "mocknet.h"
#include "stats.h"
#include <chrono>
#include <thread>
using namespace cn;

static KeepSink* g_sink; static unsigned long g_epoch;
using Clock = std::chrono::system_clock;
static double secs(Clock::time_point a, Clock::time_point b) { return std::chrono::duration<double>(b - a).count(); }
static Conv::StatAggregator& agg() { return *Conv::System::stat_aggregator; }
static const char* KASE[4] = {"QuickProp Case A Percentage", "QuickProp Case B Percentage", "QuickProp Case C Percentage", "QuickProp Case M Percentage"};

// the statistics of a trainer are registered once in a process, with its first trainer
void pbt::setup_process() { Conv::System::Init(0); W = World(); pbt::Rng r(1); }
void pbt::setup_case() { W = World(); for (size_t n = 0; n < 4; n++) MockLoss::calls(n) = 0; }

struct Model {
  bool recording = false, qp = false; unsigned long iterations = 0, weights = 0; double loss = 0, loss_abs = 0, kase[4] = {0, 0, 0, 0}, pixels = 0, frames = 0, lo = 0, hi = 0; bool has_loss = false, has_perf = false;
  Clock::time_point a0, a1;
  void reset() { iterations = weights = 0; loss = loss_abs = pixels = frames = lo = hi = 0; has_loss = has_perf = qp = false; for (double& k : kase) k = 0; }
};
struct Side { std::unique_ptr<MockNet> net; TrainerSettings s; std::unique_ptr<Trainer> tr; Rule r; std::vector<std::vector<Rule::St>> st; bool first = true; unsigned epoch = 0; unsigned long weights = 0; size_t losses; };

static void check(const Model& m, const Report& rep, const std::string& when, double lo, double hi, unsigned long epoch) {
  KeepSink one; one.desc = g_sink->desc; one.reports.push_back(rep);
  REQUIRE(rep.hc.iterations == m.iterations, when << " reports " << rep.hc.iterations << " iterations, " << m.iterations << " were recorded");
  REQUIRE(rep.hc.weights == m.weights, when << " reports " << rep.hc.weights << " weights, expected " << m.weights);
  REQUIRE(rep.hc.epoch == epoch, when << " reports epoch " << rep.hc.epoch << ", expected " << epoch);
  REQUIRE(rep.hc.seconds_elapsed >= lo - 1e-4 && rep.hc.seconds_elapsed <= hi + 1e-4, when << " reports " << rep.hc.seconds_elapsed << " s of recording, which lasted between " << lo << " and " << hi << " s");
  auto get = [&](const char* name, bool value) -> const Conv::Stat* { const Conv::Stat* x = one.find(name); REQUIRE(x, "there is no statistic \"" << name << "\""); REQUIRE(x->is_null == !value, when << ": \"" << name << "\" is " << (x->is_null ? "absent" : "present") << ", expected the opposite"); return x; };
  auto near = [&](const char* name, double got, double want, double tol) { REQUIRE(std::fabs(got - want) <= tol, when << ": \"" << name << "\" is " << got << ", expected " << want); };
  const Conv::Stat* x = get("Average Aggregate Loss", m.iterations > 0); if (m.iterations) near("Average Aggregate Loss", x->value, m.loss / m.iterations, 1e-5 * m.loss_abs / m.iterations + 1e-9);
  bool pct = m.qp && m.iterations > 0 && m.weights > 0;
  for (int k = 0; k < 4; k++) { x = get(KASE[k], pct); if (pct) { double want = 100.0 * m.kase[k] / ((double)m.iterations * m.weights); near(KASE[k], x->value, want, 1e-9 * (1 + want)); } }
  double s = rep.hc.seconds_elapsed; x = get("Pixel Throughput", m.has_perf); if (m.has_perf && s > 0) near("Pixel Throughput", x->value * s, m.pixels, 1e-9 * (1 + m.pixels));
  x = get("Frame Rate", m.has_perf); if (m.has_perf && s > 0) near("Frame Rate", x->value * s, m.frames, 1e-9 * (1 + m.frames));
}

// what a run prints about itself: one line per epoch and one per loss layer
struct Printed {
  std::ostringstream o; std::streambuf* old; int level; Printed() : old(std::cout.rdbuf(o.rdbuf())), level(Conv::System::log_level) { Conv::System::log_level = 2; }
  void stop() { if (old) { std::cout.rdbuf(old); Conv::System::log_level = level; old = nullptr; } } ~Printed() { stop(); }
  // the numbers that follow each of the words, line by line
  std::vector<std::vector<double>> lines(const std::vector<std::string>& words) const {
    std::vector<std::vector<double>> r; std::istringstream in(o.str()); std::string l;
    while (std::getline(in, l)) { std::vector<double> v; size_t p = 0; for (auto& w : words) { size_t q = l.find(w, p); if (q == std::string::npos) break; p = q + w.size(); v.push_back(atof(l.c_str() + p)); } if (v.size() == words.size()) r.push_back(v); }
    return r;
  }
};
static size_t loss_id(MockNet& net, size_t n) { auto* l = dynamic_cast<MockLoss*>(net.graph.GetLossNodes()[n]->layer); REQUIRE(l, "harness: not a scripted loss"); return l->id; }
static void near_print(double got, double want, const std::string& what) { REQUIRE(std::fabs(got - want) <= 2e-5 * std::fabs(want) + 1e-30, what << " is printed as " << got << ", expected " << want); }

FACET(history, 6000, 100000, "a report after several recorded iterations, with training and another operation") {
  if (!g_sink) { g_sink = new KeepSink; agg().RegisterSink(g_sink); }
  std::vector<Side> sides(1 + g.below(2)); size_t base = g_sink->reports.size();
  W.seed = g.below(1 << 20); W.zero = (unsigned)g.pick<int>({0, 5, 2}); size_t ids = 0;
  for (auto& x : sides) {
    bool qp = g.coin(); x.losses = 1 + g.below(2); x.net.reset(new MockNet(g, x.losses)); x.s = gen_settings(g, qp); x.s.iterations = (unsigned)g.below(5); x.s.epoch_training_ratio = g.pick<float>({1.f, 0.5f, 2.f}); x.s.testing_ratio = g.pick<float>({1.f, 0.5f, 2.f}); x.s.stats_during_training = g.coin();
    g.note() << "[trainer " << ids++ << ": " << x.s << " label " << x.net->in->lw << "x" << x.net->in->lh << " batch " << x.net->in->batch << " p" << x.net->in->p << " it " << x.s.iterations << " ratio " << x.s.epoch_training_ratio << "/" << x.s.testing_ratio << " samples " << x.net->in->ntr << "/" << x.net->in->nte << " losses " << x.losses << "] ";
    mock_graph() = &x.net->graph; x.tr.reset(new Trainer(x.net->graph, x.s)); x.r.s = x.s; x.r.qp = qp; x.r.p = x.net->in->p; x.r.N = (double)x.net->in->lw * x.net->in->lh * x.net->in->batch * x.s.sbatchsize;
    for (auto& l : x.net->sizes) { size_t n = 0; for (size_t q : l) n += q; x.st.emplace_back(n); x.weights += n; }
  }
  agg().Initialize(); agg().StopRecording(); agg().Reset(); Model m; bool trained = false, other = false; size_t nontrivial_reports = 0; int ops = 3 + (int)g.below(12);
  auto start = [&] { g.note() << "; StartRecording"; Clock::time_point a = Clock::now(); agg().StartRecording(); Clock::time_point b = Clock::now(); if (!m.recording) { m.a0 = a; m.a1 = b; m.recording = true; } };
  // seconds of the recording that runs, had it been stopped between a and b
  auto lo = [&](Clock::time_point a) { return m.lo + (m.recording ? secs(m.a1, a) : 0); }; auto hi = [&](Clock::time_point b) { return m.hi + (m.recording ? secs(m.a0, b) : 0); };
  auto one_report = [&](const std::string& when, double l, double h) { REQUIRE(g_sink->reports.size() == base + 1, when << ": " << g_sink->reports.size() - base << " reports were made, expected one"); check(m, g_sink->reports.back(), when, l, h, g_epoch); if (m.iterations > 1 && trained && other) nontrivial_reports++; g_sink->reports.resize(base); };
  if (g.chance(3, 4)) start();
  for (int op = 0; op < ops; op++) {
    W.is_testing_ok = true; Side& x = sides[g.below(sides.size())]; MockNet& net = *x.net; mock_graph() = &net.graph; size_t who = &x - &sides[0];
    switch (g.weighted({6, 3, 2, 1, 2, 4, 1, 1})) {
      case 0: {
        unsigned epochs = (unsigned)g.below(3); bool snap = g.coin(); g.note() << "; " << who << ".Train(" << epochs << (snap ? ",snapshots)" : ")"); size_t L = net.layers.size(), pass = W.passes; W.weights.assign(L, {}); size_t calls[2] = {MockLoss::calls(0), MockLoss::calls(1)};
        Printed pr; Clock::time_point a = Clock::now(); x.tr->Train(epochs, snap); Clock::time_point b = Clock::now(); pr.stop(); REQUIRE(W.is_testing_ok, "the network was in testing mode while training"); std::vector<float> after = net.all();
        unsigned its = scaled(x.s.iterations ? x.s.iterations : net.in->ntr, x.s.epoch_training_ratio); unsigned S = x.s.sbatchsize; size_t passes = (size_t)its * S * epochs; REQUIRE(W.passes - pass == passes, "training ran " << W.passes - pass << " passes, expected " << passes);
        {
          auto ep = pr.lines({"Epoch: ", "it: ", "bsize: ", "current lr: "}), lp = pr.lines({"Training (Epoch ", "node ", "lps: "}); REQUIRE(ep.size() == epochs, ep.size() << " epochs are announced, " << epochs << " were run"); REQUIRE(lp.size() == epochs * x.losses, lp.size() << " losses are printed for " << epochs << " epochs and " << x.losses << " loss layers");
          for (unsigned q = 0; q < epochs; q++) {
            REQUIRE(ep[q][0] == x.epoch + q && ep[q][1] == its && ep[q][2] == (double)net.in->batch * S, "epoch " << x.epoch + q << " is announced as epoch " << ep[q][0] << " of " << ep[q][1] << " iterations with batches of " << ep[q][2]); near_print(ep[q][3], x.r.lr((x.epoch + q) * its), "the learning rate");
            for (size_t n = 0; n < x.losses; n++) { auto& l = lp[q * x.losses + n]; REQUIRE(l[0] == x.epoch + q && l[1] == n, "the loss of epoch " << x.epoch + q << " and node " << n << " is printed as of epoch " << l[0] << " and node " << l[1]); if (!its) continue; double sum = 0; for (size_t k = 0; k < (size_t)its * S; k++) sum += MockLoss::scripted(loss_id(net, n), calls[loss_id(net, n)] + (size_t)q * its * S + k); near_print(l[2], sum / ((double)its * S * net.in->lw * net.in->lh * net.in->batch * x.r.p), "the training loss of node " + std::to_string(n)); }
          }
        }
        // which case every step was in
        std::vector<std::array<double, 4>> kase(epochs * its, {{0, 0, 0, 0}}); size_t off = 0;
        for (size_t l = 0; l < L; l++) { size_t n = x.st[l].size(), e = 0; for (size_t p = 0; p < net.sizes[l].size(); p++) for (size_t pe = 0; pe < net.sizes[l][p]; pe++, e++) { bool f = x.first;
          for (size_t k = 0; k < (size_t)its * epochs; k++) { double gr = 0; for (size_t q = 0; q < S; q++) gr += W.grad(l, p, pe, pass + k * S + q); bool amb = false; double err; x.r.apply(x.st[l][e], W.weights[l][k * S * n + e], gr, net.llr[l], x.r.lr((x.epoch + (unsigned)(k / its)) * its + (unsigned)(k % its)), f, amb, err); f = false; if (amb && x.r.qp) { agg().StopRecording(); g_sink->reports.resize(base); if (epochs) g_epoch = x.epoch + epochs - 1; throw pbt::Discard(); } if (char c = x.st[l][e].kase) kase[k][c - 'A']++; } } off += n; }
        if (passes) x.first = false; m.weights = x.weights;
        double want_pix = (double)net.in->lw * net.in->lh * net.in->batch; size_t made = 0;
        for (unsigned q = 0; q < epochs; q++) {
          g_epoch = x.epoch + q;
          if (m.recording) {
            for (unsigned i = 0; i < its; i++) { double sum = 0; for (unsigned b = 0; b < S; b++) for (size_t n = 0; n < x.losses; n++) sum += MockLoss::scripted(n, calls[n] + ((size_t)q * its + i) * S + b); double v = sum / (x.r.p * x.r.N); m.loss += v; m.loss_abs += std::fabs(v); m.iterations++; if (x.r.qp) { m.qp = true; for (int c = 0; c < 3; c++) m.kase[c] += kase[q * its + i][c]; } }
            m.has_perf = true; m.pixels += want_pix * its * S; m.frames += (double)net.in->batch * its * S;
            if (snap) { REQUIRE(g_sink->reports.size() > base + made, "no report after epoch " << g_epoch << " although snapshots were asked for"); check(m, g_sink->reports[base + made], "the snapshot of epoch " + std::to_string(g_epoch), q == 0 ? lo(a) : 0, q == 0 ? hi(b) : secs(a, b), g_epoch); made++; m.reset(); m.weights = x.weights; m.a0 = a; m.a1 = b; if (its > 1) g.label("snapshots while training"); if (q) g.label("several snapshots in a call"); }
          }
        }
        REQUIRE(g_sink->reports.size() == base + made, "training made " << g_sink->reports.size() - base << " reports, expected " << made); g_sink->reports.resize(base);
        x.epoch += epochs; REQUIRE(x.tr->epoch() == x.epoch, "the trainer is at epoch " << x.tr->epoch() << ", expected " << x.epoch); if (passes && m.recording) { trained = true; if (x.r.qp) g.label("quickprop recorded"); } break; }
      case 1: {
        g.note() << "; " << who << ".Test"; size_t calls[2] = {MockLoss::calls(0), MockLoss::calls(1)}; unsigned its = scaled(net.in->nte / net.in->batch + 1, x.s.testing_ratio); Printed pr; x.tr->Test(); pr.stop(); REQUIRE(W.is_testing_ok, "the network was not in testing mode while testing"); m.weights = x.weights;
        { auto lp = pr.lines({"Testing (Epoch ", "node ", "lps: "}); REQUIRE(lp.size() == x.losses, lp.size() << " losses are printed for " << x.losses << " loss layers"); for (size_t n = 0; n < x.losses; n++) { REQUIRE(lp[n][0] == x.epoch && lp[n][1] == n, "the loss of a test in epoch " << x.epoch << " at node " << n << " is printed as of epoch " << lp[n][0] << " and node " << lp[n][1]); if (!its) continue; double sum = 0; for (unsigned k = 0; k < its; k++) sum += MockLoss::scripted(loss_id(net, n), calls[loss_id(net, n)] + k); near_print(lp[n][2], sum / ((double)its * net.in->lw * net.in->lh * net.in->batch), "the test loss of node " + std::to_string(n)); } }
        if (m.recording) { double N = (double)net.in->lw * net.in->lh * net.in->batch; for (unsigned i = 0; i < its; i++) { double sum = 0; for (size_t n = 0; n < x.losses; n++) sum += MockLoss::scripted(n, calls[n] + i); m.loss += sum / N; m.loss_abs += sum / N; m.iterations++; } m.has_perf = true; m.pixels += N * its; m.frames += (double)net.in->batch * its; other = true; g.label("test recorded"); }
        break; }
      case 2: start(); break;
      case 3: { g.note() << "; StopRecording"; Clock::time_point a = Clock::now(); agg().StopRecording(); Clock::time_point b = Clock::now(); double l = lo(a), h = hi(b); m.lo = l; m.hi = h; m.recording = false; other = true; break; }
      case 4: { g.note() << "; Snapshot"; Clock::time_point a = Clock::now(); agg().Snapshot(); Clock::time_point b = Clock::now(); if (m.recording) { one_report("the snapshot", lo(a), hi(b)); m.reset(); m.a0 = a; m.a1 = b; } else REQUIRE(g_sink->reports.size() == base, "a snapshot was made while not recording"); break; }
      case 5: { if (m.recording) { g.note() << "; StopRecording"; Clock::time_point a = Clock::now(); agg().StopRecording(); Clock::time_point b = Clock::now(); double l = lo(a), h = hi(b); m.lo = l; m.hi = h; m.recording = false; } g.note() << "; Generate"; agg().Generate(); one_report("the report", m.lo, m.hi); other = true; break; }
      case 6: g.note() << "; Reset"; agg().Reset(); if (!m.recording) m.reset(); break;
      default: if (g.chance(1, 4)) { g.note() << "; wait"; std::this_thread::sleep_for(std::chrono::milliseconds(1)); } else { g.note() << "; " << who << ".Reset"; x.tr->Reset(); for (auto& v : x.st) v.assign(v.size(), Rule::St()); x.first = true; }
    }
  }
  agg().StopRecording(); g_sink->reports.resize(base); if (nontrivial_reports) g.nontrivial();
}
