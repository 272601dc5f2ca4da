// C25: what is printed about networks, tensors, settings and data sets is what they are.
#include "graph.h"
#include "imageset.h"
#include "netdesc.h"
#include "tools.h"
#include "Trainer.h"
#include <map>
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static std::string dims(const Tensor& t) { return "(" + std::to_string(t.samples()) + "s@" + std::to_string(t.width()) + "x" + std::to_string(t.height()) + "x" + std::to_string(t.maps()) + "m)"; }

// ---- a reader of drawings (the DOT language as far as graphs of records need it) ----
struct Dot {
  struct Node { std::map<std::string, std::string> attr; std::map<std::string, std::string> port; std::string head; };
  struct Edge { std::string from, fport, to, tport; bool dotted; bool operator<(const Edge& o) const { return std::tie(from, fport, to, tport, dotted) < std::tie(o.from, o.fport, o.to, o.tport, o.dotted); } bool operator==(const Edge& o) const { return !(*this < o) && !(o < *this); } };
  std::map<std::string, Node> nodes; std::vector<std::string> order; std::multiset<Edge> edges;
  std::vector<std::string> tok; size_t p = 0;
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; }
  void lex(const std::string& s) {
    for (size_t i = 0; i < s.size();) {
      if (isspace((unsigned char)s[i])) { i++; continue; }
      if (s[i] == '"') { std::string t = "\""; i++; while (i < s.size() && s[i] != '"') { if (s[i] == '\\') t += s[i++]; REQUIRE(i < s.size(), "the drawing ends inside a string"); t += s[i++]; } REQUIRE(i < s.size(), "the drawing ends inside a string"); i++; tok.push_back(t); continue; }
      if (s.compare(i, 2, "->") == 0) { tok.push_back("->"); i += 2; continue; }
      if (idc(s[i])) { size_t j = i; while (j < s.size() && idc(s[j])) j++; tok.push_back(s.substr(i, j - i)); i = j; continue; }
      REQUIRE(strchr("[]{}=,;:", s[i]), "the drawing contains '" << s[i] << "' at " << i); tok.push_back(std::string(1, s[i++]));
    }
  }
  std::string peek() const { return p < tok.size() ? tok[p] : ""; }
  bool eat(const std::string& t) { if (peek() != t) return false; p++; return true; }
  std::string id() { std::string t = peek(); REQUIRE(!t.empty() && (idc(t[0]) || t[0] == '"'), "the drawing has '" << t << "' in place of a name"); p++; return t[0] == '"' ? t.substr(1) : t; }
  std::map<std::string, std::string> attrs() { std::map<std::string, std::string> a; while (eat("[")) { while (!eat("]")) { REQUIRE(p < tok.size(), "the drawing ends inside an attribute list"); std::string k = id(); REQUIRE(eat("="), "attribute " << k << " has no value"); a[k] = id(); if (!eat(",")) eat(";"); } } return a; }
  // fields of a record label: {a|<p> b|{..}}
  static std::string trim(std::string s) { size_t a = s.find_first_not_of(" \t\n"), b = s.find_last_not_of(" \t\n"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
  void record(Node& n, const std::string& l) {
    int depth = 0; std::string text, port; bool haveport = false, first = true;
    auto flush = [&]() { std::string t = trim(text); text.clear(); if (t.empty() && !haveport) return; if (first) { n.head = t; first = false; if (haveport) n.port[port] = t; } else { REQUIRE(haveport, "field '" << t << "' of " << l << " cannot be connected"); REQUIRE(!n.port.count(port), "two fields " << port << " in " << l); n.port[port] = t; } haveport = false; port.clear(); };
    for (size_t i = 0; i < l.size(); i++) {
      char c = l[i]; if (c == '\\' && i + 1 < l.size()) { text += l[++i]; continue; }
      if (c == '{') { REQUIRE(trim(text).empty() && !haveport, "text before { in " << l); depth++; continue; } if (c == '}') { flush(); REQUIRE(--depth >= 0, "unbalanced " << l); continue; }
      if (c == '|') { flush(); continue; } if (c == '<') { size_t e = l.find('>', i); REQUIRE(e != std::string::npos && !haveport && trim(text).empty(), "field of " << l); port = trim(l.substr(i + 1, e - i - 1)); haveport = true; i = e; continue; }
      REQUIRE(c != '>', "'>' in " << l); text += c;
    }
    flush(); REQUIRE(depth == 0, "unbalanced " << l);
  }
  void statements() {
    while (p < tok.size() && peek() != "}") {
      if (eat(";")) continue; std::string a = id(), ap, bp; if ((a == "graph" || a == "node" || a == "edge") && peek() == "[") { attrs(); continue; }
      if (eat(":")) ap = id();
      if (eat("->")) { std::string b = id(); if (eat(":")) bp = id(); auto at = attrs(); Edge e{a, ap, b, bp, at["style"] == "dotted"}; edges.insert(e); continue; }
      REQUIRE(!nodes.count(a), "node " << a << " is drawn twice"); Node n; n.attr = attrs(); REQUIRE(n.attr.count("label"), "node " << a << " has no label"); record(n, n.attr["label"]); nodes[a] = n; order.push_back(a);
    }
    for (auto& e : edges) { REQUIRE(nodes.count(e.from) && nodes.count(e.to), "a connection from " << e.from << " to " << e.to << ", which are not both drawn"); REQUIRE(nodes[e.from].port.count(e.fport), e.from << " has no field " << e.fport); REQUIRE(nodes[e.to].port.count(e.tport), e.to << " has no field " << e.tport); }
  }
  void read_body(const std::string& s) { lex(s); statements(); REQUIRE(p == tok.size(), "the drawing goes on after its end"); }
  void read(const std::string& s) { lex(s); REQUIRE(eat("digraph"), "no drawing: " << s.substr(0, 60)); if (peek() != "{") id(); REQUIRE(eat("{"), "no drawing: " << s.substr(0, 60)); statements(); REQUIRE(eat("}") && p == tok.size(), "the drawing does not end properly"); }
};
static void check_drawing(const Dot& d, Conv::NetGraph& n) {
  auto all = n.GetNodes(); REQUIRE(d.nodes.size() == all.size(), d.nodes.size() << " nodes are drawn, the network has " << all.size()); std::multiset<Dot::Edge> want;
  for (auto* q : all) {
    auto it = d.nodes.find(q->unique_name); REQUIRE(it != d.nodes.end(), "node " << q->unique_name << " is not drawn"); auto& k = it->second; std::string desc = q->layer->GetLayerDescription();
    REQUIRE(k.head.find(q->unique_name) == 0 && k.head.find(desc) != std::string::npos, "node " << q->unique_name << " (" << desc << ") is labelled " << k.head);
    auto co = k.attr.find("color"); std::string c = co == k.attr.end() ? "" : co->second, wc = q->is_input ? "red" : q->is_output ? "blue" : ""; REQUIRE(c == wc, "node " << q->unique_name << " is drawn in '" << c << "', expected '" << wc << "'");
    size_t outs = 0; for (auto& f : k.port) outs += f.first[0] == 'o'; REQUIRE(outs == q->output_buffers.size(), q->unique_name << " is drawn with " << outs << " outputs, it has " << q->output_buffers.size());
    for (size_t b = 0; b < q->output_buffers.size(); b++) { auto f = k.port.find("o" + std::to_string(b)); REQUIRE(f != k.port.end(), q->unique_name << " is drawn without output " << b); std::string t = dims(q->output_buffers[b].combined_tensor->data); REQUIRE(f->second.find(t) != std::string::npos && f->second.find(Dot::trim(q->output_buffers[b].description)) == 0, "output " << b << " of " << q->unique_name << " is labelled " << f->second << ", expected " << q->output_buffers[b].description << " " << t); }
    for (auto& c2 : q->input_connections) want.insert(Dot::Edge{c2.node->unique_name, "o" + std::to_string(c2.buffer), q->unique_name, "i", !c2.backprop});
  }
  REQUIRE(d.edges == want, d.edges.size() << " connections are drawn, which are not the " << want.size() << " of the network");
}

// any graph, and networks described in the configuration language
FACET(drawing, 4000, 60000, "at least four nodes and an output read by several others") {
  if (g.coin()) {
    GSpec s = gen_graph(g, 6, false); g.note() << s; GNet n; n.build(g, s, g.coin(), nullptr, g.coin()); std::ostringstream o; n.graph.PrintGraph(o); Dot d; d.read_body(o.str()); check_drawing(d, n.graph);
    bool fan = false; for (size_t k = 0; k < s.nodes.size(); k++) for (size_t b = 0; b < s.nodes[k].l.out.size(); b++) fan |= s.consumers({(int)k, (int)b}) > 1; if (fan && s.nodes.size() >= 4) g.nontrivial(); return;
  }
  NGen c; c.dropout = g.coin(); NDesc n = gen_netdesc(g, c); render_all(g, n); g.note() << oneline(n.text); FNet f; f.build(n, 1, false, 1 + g.below(2), (n.rfx + 2 * n.fx) / n.fx * n.fx, (n.rfy + 2 * n.fy) / n.fy * n.fy, g.coin()); std::ostringstream o; f.graph.PrintGraph(o); Dot d; d.read_body(o.str()); check_drawing(d, f.graph); if (n.ops.size() >= 4 && n.count(NOp::PUSH)) g.nontrivial();
}

// ---- figures about tensors -----------------------------------------------------------
struct Stats5 { double v[5]; };
static const char* NAME5[5] = {"Minimum", "Maximum", "Average", "L2 Norm", "Variance"};
static void stats_of(const std::vector<float>& d, double* v, double* tol) {
  double mn = d[0], mx = d[0], s = 0, q = 0, a = 0; for (float x : d) { mn = std::min<double>(mn, x); mx = std::max<double>(mx, x); s += x; q += (double)x * x; a += std::fabs(x); } size_t n = d.size(); double avg = s / n, var = 0; for (float x : d) var += (x - avg) * (x - avg); var /= n; double e = 6e-8 * (n + 3), pr = 6e-6;
  double w[5] = {mn, mx, avg, std::sqrt(q), var}; for (int k = 0; k < 5; k++) { v[k] = w[k]; tol[k] = pr * std::fabs(w[k]) + 1e-30; } double ea = e * a / n; tol[2] += ea; tol[3] += e * std::sqrt(q); tol[4] += 2 * e * var + 2 * std::sqrt(var) * ea + ea * ea + 1e-7 * std::fabs(avg) * std::sqrt(var) + 1e-14 * avg * avg;
}
// the figures printed, in order of appearance
static std::vector<Stats5> read_stats(const std::string& out, const std::string& what) {
  std::vector<Stats5> r; std::istringstream in(out); Stats5 cur; int have = 0;
  for (std::string l; std::getline(in, l);) for (int k = 0; k < 5; k++) { size_t p = l.find(std::string(NAME5[k])); if (p == std::string::npos) continue; size_t c = l.find_first_not_of(' ', p + strlen(NAME5[k])); if (c == std::string::npos || l[c] != ':') continue; char* e = nullptr; double x = strtod(l.c_str() + c + 1, &e); REQUIRE(e != l.c_str() + c + 1, what << ": " << l); REQUIRE(!(have >> k & 1), what << ": " << NAME5[k] << " twice"); cur.v[k] = x; have |= 1 << k; if (have == 31) { r.push_back(cur); have = 0; } }
  REQUIRE(!have, what << ": figures are missing"); return r;
}
static void check_stats(const Stats5& s, const std::vector<float>& d, const std::string& what) { double v[5], t[5]; stats_of(d, v, t); for (int k = 0; k < 5; k++) REQUIRE(std::fabs(s.v[k] - v[k]) <= t[k], what << ": " << NAME5[k] << " is " << s.v[k] << ", expected " << v[k]); }
struct Capture { std::ostringstream o; std::streambuf* old; int lvl; Capture() { old = std::cout.rdbuf(o.rdbuf()); lvl = Conv::System::log_level; Conv::System::log_level = 2; } ~Capture() { std::cout.rdbuf(old); Conv::System::log_level = lvl; } };

FACET(tensor, 20000, 200000, "several different elements, all of one sign") {
  size_t s = g.below(4), w = g.below(7), h = g.below(7), m = g.below(4); if (g.chance(3, 4)) { s += !s; w += !w; h += !h; m += !m; } Tensor t(s, w, h, m); std::vector<float> d; int mode = (int)g.below(5); pbt::Rng r(g.below(1 << 20)); float off = g.pick<float>({0.f, 5.f, -5.f, 100.f, -100.f}), sc = g.pick<float>({1.f, 0.01f, 3.f, 1000.f});
  for (size_t e = 0; e < t.elements(); e++) { float x = mode == 0 ? off : mode == 1 ? -std::fabs(sc * (float)(r.below(1001)) / 1000) - 0.1f : mode == 2 ? std::fabs(sc * (float)r.below(1001) / 1000) + 0.1f : off + sc * ((int)r.below(2001) - 1000) / 1000.f; t[e] = x; d.push_back(x); }
  std::ostringstream o; o << t; g.note() << dims(t) << " mode " << mode << " offset " << off << " scale " << sc; REQUIRE(o.str() == dims(t), "a tensor is printed as " << o.str() << ", expected " << dims(t));
  Conv::CompressedTensor ct; if (t.elements()) { ct.Compress(t); std::ostringstream co; co << ct; REQUIRE(co.str().find(dims(t).substr(0, dims(t).size() - 1)) != std::string::npos, "compressed, it is printed as " << co.str()); }
  if (!t.elements()) return; if (d.size() > 3 && (mode == 1 || mode == 2)) g.nontrivial(); std::string out; { Capture c; t.PrintStats(); out = c.o.str(); } auto v = read_stats(out, "figures"); REQUIRE(v.size() == 1, v.size() << " sets of figures"); check_stats(v[0], d, "figures"); for (size_t e = 0; e < d.size(); e++) REQUIRE(t[e] == d[e], "printing figures changed element " << e);
}

FACET(settings, 20000, 200000, "all values differ from each other") {
  Conv::TrainerSettings s; auto num = [&]() { return (float)(1 + g.below(99999)) / g.pick<float>({1.f, 10.f, 1000.f, 1e5f, 1e7f}); }; s.learning_rate = num(); s.gamma = num(); s.exponent = num(); s.l1_weight = num(); s.l2_weight = num(); s.momentum = num(); s.mu = num(); s.eta = num(); if (g.chance(1, 4)) s.l1_weight = 0; s.sbatchsize = 1 + (unsigned)g.below(5000); s.pbatchsize = 1 + (unsigned)g.below(5000); bool qp = g.coin(); s.optimization_method = qp ? Conv::QUICKPROP : Conv::GRADIENT_DESCENT;
  std::ostringstream o; o << s; std::string t = o.str(); g.note() << t; std::vector<std::pair<const char*, double>> w = {{"LR", s.learning_rate}, {"GM", s.gamma}, {"EX", s.exponent}, {"SB", s.sbatchsize}, {"PB", s.pbatchsize}, {"L1", s.l1_weight}, {"L2", s.l2_weight}, {"MM", s.momentum}, {"MU", s.mu}, {"ET", s.eta}};
  std::set<double> dif; for (auto& k : w) { dif.insert(k.second); size_t p = t.find(std::string(k.first) + ":"); REQUIRE(p != std::string::npos, "no " << k.first << " in " << t); double v = strtod(t.c_str() + p + 3, nullptr); REQUIRE(std::fabs(v - k.second) <= 6e-6 * std::fabs(k.second), k.first << " is printed as " << v << ", it is " << k.second); }
  if (dif.size() == w.size()) g.nontrivial(); size_t c = t.find_last_of(", "); REQUIRE(t.substr(c + 1) == (qp ? "QP" : "GD"), "the method in " << t);
}

// ---- the statistics of a data set ------------------------------------------------------
FACET(data_set, 400, 6000, "several classes with different weights, images of several sizes") {
  size_t classes = 1 + g.below(4), maps = 1 + g.below(3), n = 1 + g.below(3); Dir d("d"); DConf c = gen_conf(g, classes, d / "tr", g.coin() ? d / "te" : d / "tr", false); for (auto& w : c.weights) g.note() << w << " ";
  std::vector<Pair> v; bool sizes = false, hot = g.coin(); for (size_t k = 0; k < n; k++) { Pair p; size_t w = 1 + g.below(9), h = 1 + g.below(9); sizes |= k && (w != v[0].data.w || h != v[0].data.h); p.data = Arr(1, w, h, maps, 1); p.label = Arr(1, w, h, classes); pbt::Rng r(g.below(1 << 20)); size_t lim = 1 + g.below(classes); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { size_t cl = r.below(lim); for (size_t m = 0; m < classes; m++) p.label.at(x, y, m, 0) = label_value(classes, cl, m, r, hot); } v.push_back(p); }
  { std::ofstream o(d / "tr", std::ios::binary); write_stream(o, v, g.coin()); std::ofstream q(d / "te", std::ios::binary); std::vector<Pair> tv(v.begin(), v.begin() + 1); write_stream(q, tv, false); } write_file(d / "set", c.text); g.note() << classes << " classes, " << n << " images: " << oneline(c.text);
  std::vector<double> cnt(classes, 0), wcnt(classes, 0); for (auto& p : v) for (size_t y = 0; y < p.data.h; y++) for (size_t x = 0; x < p.data.w; x++) { size_t k = label_class(p.label, x, y); double e = c.kitti ? kitti_error(x, y, p.data.w, p.data.h) : 1; cnt[k] += c.weights[k] > 0 ? e : 0; wcnt[k] += e * c.weights[k]; }
  bool zero = true; for (double q : wcnt) zero &= q == 0; g.assume(!zero); std::set<float> ws(c.weights.begin(), c.weights.end()); if (classes > 1 && sizes && ws.size() > 1) g.nontrivial();
  Ran r = run_tool("tensorStreamStats", {d / "set"}, d.path); require_ok(r, "tensorStreamStats"); std::vector<std::string> lines; { std::istringstream in(r.out); for (std::string l; std::getline(in, l);) lines.push_back(l); }
  size_t at = 0; auto find = [&](const std::string& t) { while (at < lines.size() && lines[at].find(t) == std::string::npos) at++; REQUIRE(at < lines.size(), "'" << t << "' is not reported: " << r.tail()); return lines[at++]; };
  for (int b = 0; b < 2; b++) {
    auto& q = b ? wcnt : cnt; double total = 0, k = 0, close = 1e-5; for (double x : q) { total += x; k += x > 0; } std::string l = find("Classes counted:"); REQUIRE(atof(l.c_str() + l.find(':') + 1) == k, l << ", expected " << k); l = find("Expected ratio:"); double er = 1 / k, x = atof(l.c_str() + l.find("ratio:") + 6); REQUIRE(std::fabs(x - 100 * er) <= 1e-3, l << ", expected " << 100 * er);
    for (size_t m = 0; m < classes; m++) { l = find(c.names[m] + " |"); std::istringstream f(l.substr(l.rfind('|') + 1)); double n1, ratio, corr, n2; char pc; REQUIRE(f >> n1 >> ratio >> pc >> corr >> n2, "class " << m << ": " << l); REQUIRE(std::fabs(n1 - q[m]) <= 1.001 + close * q[m] && n1 <= q[m] * (1 + close) + 1e-3, "class " << m << " has " << q[m] << " pixels: " << l); REQUIRE(std::fabs(ratio - 100 * q[m] / total) <= 1e-3, "class " << m << " is " << 100 * q[m] / total << " % of the pixels: " << l); double co = q[m] > 0 ? er / (q[m] / total) : 0; REQUIRE(std::fabs(corr - co) <= 1e-5 * co, "class " << m << " needs correction by " << co << ": " << l); REQUIRE(std::fabs(n2 - co * q[m]) <= 1.001 + close * co * q[m], "class " << m << " would have " << co * q[m] << " pixels: " << l); }
  }
}

// ---- what a training session prints -----------------------------------------------------
FACET(session, 200, 3000, "at least two layers with parameters, and patchwise training") {
  bool hybrid = g.coin(); NGen c; c.maxops = 4; c.maxfactor = 4; c.maxrf = 4; if (hybrid) { c.pads = false; c.upscale = false; c.plain = g.coin(); } NDesc n = gen_netdesc(g, c); g.assume(!n.count(NOp::DOWN) && n.fx != 3 && n.fy != 3); std::vector<std::string> extra = {"iterations=1", "pbatchsize=" + std::to_string(1 + g.below(3)), "sbatchsize=1"}; if (hybrid) extra.push_back("method=patch"); render_all(g, n, extra);
  Dir d("d"); mkdir((d / "csv").c_str(), 0700); DConf conf = gen_conf(g, n.classes, d / "tr", d / "te", hybrid); write_file(d / "net", n.text); write_file(d / "set", conf.text); for (int t = 0; t < 2; t++) { Pair p; size_t w = (n.rfx + 2 * n.fx) / n.fx * n.fx, h = (n.rfy + 2 * n.fy) / n.fy * n.fy; p.data = Arr(1, w, h, n.channels, 0.5f); p.label = Arr(1, w, h, n.classes, 0); for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) p.label.at(x, y, 0, 0) = 1; std::ofstream o(d / (t ? "te" : "tr"), std::ios::binary); write_stream(o, {p}, false); }
  g.note() << (hybrid ? "patches " : "") << oneline(n.text); std::string train = g.coin() ? "train" : ""; auto session = [&](const std::string& script) { write_file(d / "script", train + "\n" + script + "q\n"); Ran r = run_tool("trainNetwork", {d / "set", d / "net", d / "script"}, d.path); require_ok(r, "trainNetwork"); return r.out; };
  session("graph file=train.dot\ngraph file=test.dot test\nsave file=par\n"); Dot tr, te; tr.read(read_file(d / "train.dot")); te.read(read_file(d / "test.dot")); if (!hybrid) REQUIRE(tr.edges == te.edges && tr.order.size() == te.order.size(), "the same network is drawn differently for training and testing");
  // the drawings are of the network described
  size_t convs = n.count(NOp::CONV); for (Dot* q : {&tr, &te}) { size_t k = 0, red = 0, blue = 0; for (auto& x : q->nodes) { k += x.second.head.find("Convolution") != std::string::npos; auto a = x.second.attr.find("color"); if (a != x.second.attr.end()) { red += a->second == "red"; blue += a->second == "blue"; } } REQUIRE(k == convs, k << " convolutions are drawn, " << convs << " are described"); REQUIRE(red == 1, red << " inputs are drawn"); REQUIRE(blue >= 1, "no output is drawn"); }
  if (convs > 1 && hybrid) g.nontrivial();
  // weight figures of every node, and those of the file written at the same time
  std::string script; for (auto& u : tr.order) script += "wstat node=" + u + "\n"; script += "wstat node=nosuchnode\n"; std::string out = session(script); auto v = read_stats(out, "wstat"); std::string f = read_file(d / "par"); auto par = parse_stream(f, "the parameters"); REQUIRE(v.size() == 2 * par.size(), v.size() << " sets of figures are printed for " << par.size() << " sets of parameters"); for (size_t k = 0; k < par.size(); k++) check_stats(v[2 * k], par[k].d, "parameter set " + std::to_string(k));
}
