// C09: layer descriptors are parsed faithfully.
#include "layers.h"
#include "private/ConfigParsing.h"
using namespace cn;
using Conv::LayerFactory;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

// ---- an independent parser of the grammar -----------------------------------
struct Desc { bool ok = false; std::string name, conf; std::vector<std::pair<std::string, std::string>> kv; };
static bool lower(char c) { return c >= 'a' && c <= 'z'; }
static bool valch(char c) { return lower(c) || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '.'; }
static Desc parse(const std::string& s) {
  Desc d; size_t i = 0; while (i < s.size() && lower(s[i])) i++;
  if (i == 0) return d; d.name = s.substr(0, i);
  if (i == s.size()) { d.ok = true; return d; }
  if (s[i] != '(' || s.back() != ')' || s.size() < i + 2) return d;
  d.conf = s.substr(i + 1, s.size() - i - 2);
  if (d.conf.empty()) { d.ok = true; return d; }
  size_t p = 0;
  while (true) {
    size_t k = p; while (k < d.conf.size() && lower(d.conf[k])) k++;
    if (k == p || k >= d.conf.size() || d.conf[k] != '=') return d;
    size_t v = k + 1, e = v; while (e < d.conf.size() && valch(d.conf[e])) e++;
    if (e == v) return d;
    d.kv.push_back({d.conf.substr(p, k - p), d.conf.substr(v, e - v)});
    if (e == d.conf.size()) { d.ok = true; return d; }
    if (d.conf[e] != ' ') return d;
    p = e + 1;
  }
}

static const char* NAMES[] = {"convolution", "maxpooling", "amaxpooling", "tanh", "sigm", "relu", "gradientaccumulation", "resize", "hmax"};
static const char* KEYS[] = {"size", "stride", "pad", "kernels", "group", "dropout", "llr", "seed", "border", "outputs", "mu", "weight", "myseed", "reseed", "mysize", "s", "e", "seeds"};
static std::string gen_value(G& g) { switch (g.below(6)) { case 0: return std::to_string(g.below(20)); case 1: return std::to_string(g.below(9)) + "x" + std::to_string(g.below(9)); case 2: return "0." + std::to_string(g.below(100)); case 3: return std::to_string(g.below(1ull << 32)); case 4: return g.pick<std::string>({"abc", "X", ".", "1x", "x2", "1.2.3", "seed", "Seed9", "0x10"}); default: return std::to_string(g.below(5)) + "x" + std::to_string(g.below(5)); } }
static std::string gen_descriptor(G& g, bool seeds = true, size_t maxkv = 6) {
  std::string s = g.chance(1, 5) ? g.pick<std::string>({"foo", "a", "conv", "convolutional", "maxpoolingx", "seed", "zzz"}) : NAMES[g.below(9)];
  switch (g.below(6)) { case 0: return s; case 1: return s + "()"; default: break; }
  size_t n = 1 + g.below(maxkv); bool seed = false; std::string c;
  for (size_t k = 0; k < n; k++) { std::string key = KEYS[g.below(18)]; if (key == "seed") { if (seed || !seeds) continue; seed = true; } c += (c.empty() ? "" : " ") + key + "=" + gen_value(g); }
  return s + "(" + c + ")";
}
static std::string mutate(G& g, std::string s) {
  static const std::string alpha = "()()  ==abzAZ09.x_-,;/\t\n\"{}[]*+?$^|";
  size_t n = 1 + g.below(3);
  for (size_t k = 0; k < n; k++) {
    size_t p = g.below(s.size() + 1); char c = alpha[g.below(alpha.size())];
    switch (g.below(5)) { case 0: s.insert(p, 1, c); break; case 1: if (p < s.size()) s.erase(p, 1); break; case 2: if (p < s.size()) s[p] = c; break; case 3: { size_t q = g.below(s.size() + 1); if (q < p) std::swap(p, q); s.insert(p, s.substr(p, std::min<size_t>(q - p, 12))); break; } default: s += c; }
    if (s.size() > 160) s.resize(160);
  }
  return s;
}

FACET(grammar, 40000, 600000, "rejected although derived from a valid descriptor, or accepted with a parameter list") {
  std::string s = gen_descriptor(g); bool mut = g.chance(2, 3); if (mut) s = mutate(g, s); if (g.chance(1, 60)) s = "";
  g.note() << "\"" << s << "\""; Desc d = parse(s); if (mut ? !d.ok : !d.kv.empty()) g.nontrivial(); g.label(d.ok ? "valid" : "invalid");
  REQUIRE(LayerFactory::IsValidDescriptor(s) == d.ok, "descriptor is " << (d.ok ? "valid" : "invalid"));
  unsigned seed = (unsigned)g.below(1ull << 32);
  if (d.ok) {
    REQUIRE(LayerFactory::ExtractLayerType(s) == d.name, "layer type is \"" << LayerFactory::ExtractLayerType(s) << "\", expected \"" << d.name << "\"");
    REQUIRE(LayerFactory::ExtractConfiguration(s) == d.conf, "configuration is \"" << LayerFactory::ExtractConfiguration(s) << "\", expected \"" << d.conf << "\"");
    bool known = false; for (auto* n : NAMES) known |= d.name == n;
    if (!known) REQUIRE(LayerFactory::ConstructLayer(s) == nullptr, "a layer of an unknown type was constructed");
    else { Conv::Layer* l = nullptr; try { l = LayerFactory::ConstructLayer(s); REQUIRE(l, "no layer was constructed"); REQUIRE(l->GetLayerConfiguration() == d.conf, "layer reports configuration \"" << l->GetLayerConfiguration() << "\""); delete l; } catch (std::runtime_error&) { g.label("parameters refused"); } }
  } else {
    REQUIRE(LayerFactory::ConstructLayer(s) == nullptr, "a layer was constructed from an invalid descriptor");
    REQUIRE(LayerFactory::InjectSeed(s, seed) == s, "injecting a seed changed an invalid descriptor");
  }
}

FACET(inject_seed, 30000, 450000, "the descriptor has other parameters") {
  std::string s = gen_descriptor(g); Desc d = parse(s); unsigned seed = g.coin() ? (unsigned)g.below(100) : (unsigned)g.below(1ull << 32), seed2 = (unsigned)g.below(1ull << 32);
  g.note() << "\"" << s << "\" seed " << seed; std::string r = LayerFactory::InjectSeed(s, seed); Desc q = parse(r);
  bool had = false; auto want = d.kv; for (auto& p : want) if (p.first == "seed") { p.second = std::to_string(seed); had = true; } g.label(had ? "replaced" : "added");
  if (want.size() > (had ? 1u : 0u)) g.nontrivial();
  REQUIRE(q.ok && LayerFactory::IsValidDescriptor(r), "result \"" << r << "\" is not a valid descriptor"); REQUIRE(q.name == d.name, "result \"" << r << "\" names another layer");
  auto strip = [](std::vector<std::pair<std::string, std::string>> v) { std::vector<std::pair<std::string, std::string>> o; for (auto& p : v) if (p.first != "seed") o.push_back(p); std::sort(o.begin(), o.end()); return o; };
  REQUIRE(strip(q.kv) == strip(d.kv), "result \"" << r << "\" has other parameters");
  size_t n = 0; for (auto& p : q.kv) if (p.first == "seed") { n++; REQUIRE(p.second == std::to_string(seed), "result \"" << r << "\" carries seed " << p.second); }
  REQUIRE(n == 1, "result \"" << r << "\" carries " << n << " seeds");
  std::string r2 = LayerFactory::InjectSeed(r, seed2), direct = LayerFactory::InjectSeed(s, seed2);
  REQUIRE(r2 == direct, "injecting " << seed << " then " << seed2 << " gives \"" << r2 << "\", injecting only the latter \"" << direct << "\"");
}

// constructed layers have exactly the parameters written, in any order and
// whatever other parameters stand beside them: decided by what they compute
FACET(construct, 20000, 300000, "parameters not in their usual order or beside others") {
  Dim d = gen_dim(g, 8, 2, 4); LSpec l; std::vector<std::string> kv; bool defaults = g.coin();
  switch (g.below(6)) {
    case 0: case 1: { do { l = spec_conv(g, d); } while (0); break; }
    case 2: l = spec_maxpool(g, d); break; case 3: l = spec_amaxpool(g, d); break; case 4: l = spec_resize(g, d); break; default: l = spec_fanout(g, d);
  }
  std::string s = l.desc; if (s.compare(0, 4, "new ") == 0) s = s.substr(4);
  Desc q = parse(s); REQUIRE(q.ok, "generator: " << s);
  for (auto& p : q.kv) kv.push_back(p.first + "=" + p.second); (void)defaults;
  if (l.kind == "conv" && g.chance(1, 3)) kv.push_back(g.pick<std::string>({"llr=0.5", "llr=2", "llr=0"}));
  size_t extra = g.below(3); for (size_t k = 0; k < extra; k++) { std::string key; for (int t = 0; t < 8; t++) { key = g.pick<std::string>({"mysize", "strides", "xpad", "subkernels", "group2x", "regroup", "foo", "borderline", "reborder", "outputsx", "noutputs", "sizes"}); bool ok = true; for (char c : key) ok &= lower(c); if (ok) break; key = "foo"; } kv.push_back(key + "=" + gen_value(g)); }
  for (size_t n = kv.size(); n > 1; n--) std::swap(kv[n - 1], kv[g.below(n)]);
  std::string out = q.name + "("; for (size_t k = 0; k < kv.size(); k++) out += (k ? " " : "") + kv[k]; out += ")";
  g.note() << out << " on " << d; if (out != s) g.nontrivial(); g.label(l.kind);
  Rig rig; rig.layer.reset(LayerFactory::ConstructLayer(out)); REQUIRE(rig.layer, "no layer was constructed");
  for (auto& x : l.in) rig.add(x.s, x.w, x.h, x.m);
  REQUIRE(rig.create(), "CreateOutputs refused"); REQUIRE(rig.outs.size() == l.out.size(), rig.outs.size() << " outputs, expected " << l.out.size());
  for (size_t o = 0; o < l.out.size(); o++) require_shape(rig.outs[o]->data, l.out[o].s, l.out[o].w, l.out[o].h, l.out[o].m, "output");
  REQUIRE(rig.connect(), "Connect refused"); DAs in, par;
  for (auto* t : rig.ins) { fill_generic(t->data, g.below(1000)); in.emplace_back(t->data); }
  size_t p = 0; for (auto* t : rig.layer->parameters()) { fill_generic(t->data, g.below(1000)); DA a(t->data); REQUIRE(p < l.par.size() && a.n() == l.par[p].n(), "parameter shape " << shape(t->data)); static_cast<Dim&>(a) = l.par[p++]; par.push_back(a); }
  rig.layer->FeedForward(); DAs want = l.f(in, par);
  for (size_t o = 0; o < want.size(); o++) for (size_t e = 0; e < want[o].d.size(); e++) require_close(rig.outs[o]->data[e], want[o].d[e], 1e-4 * (1 + std::fabs(want[o].d[e])), "output element " + std::to_string(e));
}

// hmax and dropout parameters
FACET(numbers, 10000, 150000, "a value with a fractional part") {
  std::string txt; double val; switch (g.below(3)) { case 0: val = (double)g.below(100) / 100; break; case 1: val = (double)g.below(20); break; default: val = (double)g.below(1000) / 8; } { std::ostringstream o; o << val; txt = o.str(); } if (val != std::floor(val)) g.nontrivial();
  if (txt.find('e') != std::string::npos) g.assume(false);
  if (g.coin()) {  // dropout scales the output when testing
    g.assume(val < 1); std::string s = "convolution(kernels=2 dropout=" + txt + " size=1x1)"; g.note() << s;
    Rig rig; rig.layer.reset(LayerFactory::ConstructLayer(s)); REQUIRE(rig.layer, "no layer"); rig.add(1, 3, 2, 1); REQUIRE(rig.create() && rig.connect(), "refused"); rig.status.SetIsTesting(true);
    rig.layer->parameters()[0]->data.Clear(1); rig.layer->parameters()[1]->data.Clear(0.5); rig.ins[0]->data.Clear(3); rig.layer->FeedForward(); require_close(rig.outs[0]->data[0], 3.5 * (1 - val), 1e-5, "output");
  } else {  // hmax: derivative of the regularizer
    std::string s = "hmax(weight=" + txt + " mu=1)"; if (g.coin()) s = "hmax(mu=1 weight=" + txt + ")"; g.note() << s;
    Rig a, b; a.layer.reset(LayerFactory::ConstructLayer(s)); b.layer.reset(new Conv::HMaxActivationFunction(1, (float)val)); for (Rig* r : {&a, &b}) { r->add(1, 3, 2, 1); REQUIRE(r->create() && r->connect(), "refused"); fill_generic(r->ins[0]->data, 5); fill_generic(r->layer->parameters()[0]->data, 6); fill_generic(r->outs[0]->delta, 7); r->layer->FeedForward(); r->layer->BackPropagate(); }
    for (size_t e = 0; e < 6; e++) require_close(a.ins[0]->delta[e], b.ins[0]->delta[e], 1e-5 * (1 + val), "input error"); for (size_t e = 0; e < 2; e++) require_close(a.layer->parameters()[0]->delta[e], b.layer->parameters()[0]->delta[e], 1e-4 * (1 + val), "parameter error");
  }
}

// layers built from the same descriptor are identical; different seeds differ
FACET(reproducible, 10000, 150000, "more than four weights") {
  size_t kw = 1 + g.below(4), kh = 1 + g.below(4), om = 1 + g.below(5), m = 1 + g.below(3); unsigned seed = 1 + (unsigned)g.below(1 << 30), other = 1 + (unsigned)g.below(1 << 30);
  std::ostringstream o; o << "convolution(size=" << kw << "x" << kh << " kernels=" << om << " seed=" << seed << ")"; g.note() << o.str() << " and seed " << other; std::string desc = o.str(); if (kw * kh * om * m > 4) g.nontrivial();
  auto weights = [&](Conv::Layer* l) { Rig r; r.layer.reset(l); r.add(2, 6, 6, m); REQUIRE(r.create() && r.connect(), "refused"); l->OnLayerConnect({}); std::vector<float> v; for (auto* p : l->parameters()) for (size_t e = 0; e < p->data.elements(); e++) v.push_back(p->data[e]); return v; };
  auto a = weights(LayerFactory::ConstructLayer(desc)), b = weights(LayerFactory::ConstructLayer(desc)); REQUIRE(a == b, "two layers of the same descriptor start from different weights");
  auto c = weights(new Conv::ConvolutionLayer(kw, kh, om, 1, 1, 0, 0, 1, seed)), d = weights(new Conv::ConvolutionLayer(kw, kh, om, 1, 1, 0, 0, 1, seed)); REQUIRE(c == d, "two layers of the same parameters and seed start from different weights");
  auto e = weights(new Conv::ConvolutionLayer(kw, kh, om, 1, 1, 0, 0, 1, other)); if (other != seed) REQUIRE(c != e, "two layers of different seeds start from the same weights");
}

// recorded in KNOWN_FINDINGS.txt: the seed of a descriptor is not used
FINDING(string_seed) {
  auto weights = [](const char* d) { Rig r; r.layer.reset(LayerFactory::ConstructLayer(d)); r.add(1, 6, 6, 2); REQUIRE(r.create() && r.connect(), "refused"); r.layer->OnLayerConnect({}); std::vector<float> v; for (auto* p : r.layer->parameters()) for (size_t e = 0; e < p->data.elements(); e++) v.push_back(p->data[e]); return v; };
  return weights("convolution(size=3x3 kernels=4 seed=1)") == weights("convolution(size=3x3 kernels=4 seed=2)");
}

// parameters of configuration lines
FACET(parameters, 30000, 450000, "the parameter stands beside others") {
  std::string key = g.pick<std::string>({"size", "stride", "kernels", "group", "alpha", "llr", "stack", "seed"}); std::vector<std::string> kv; size_t n = g.below(5);
  for (size_t k = 0; k < n; k++) { std::string o = g.pick<std::string>({"size", "stride", "kernels", "group", "alpha", "llr", "stack", "seed", "mysize", "xalpha", "resize", "method"}); if (o == key) o += "x"; kv.push_back(o + "=" + gen_value(g)); }
  unsigned a = (unsigned)g.below(1000), b = (unsigned)g.below(1000); int kind = (int)g.below(5); std::string v; bool present = g.chance(4, 5);
  switch (kind) { case 0: v = std::to_string(a); break; case 1: v = std::to_string(a) + "x" + std::to_string(b); break; case 2: v = std::to_string(a) + "." + std::to_string(b); break; case 3: v = "na" + std::to_string(a); break; default: v = std::to_string(a); }
  if (present) kv.push_back(key + "=" + v); for (size_t k = kv.size(); k > 1; k--) std::swap(kv[k - 1], kv[g.below(k)]);
  std::string line; if (g.coin()) line = g.pick<std::string>({"?convolutional ", "?lrn "}); for (size_t k = 0; k < kv.size(); k++) line += (k ? " " : "") + kv[k]; g.note() << "\"" << line << "\" key " << key; if (present && n) g.nontrivial();
  switch (kind) {
    case 0: { unsigned k = 77777; Conv::ParseCountIfPossible(line, key, k); REQUIRE(k == (present ? a : 77777), "count is " << k); break; }
    case 1: { unsigned x = 77777, y = 88888; Conv::ParseKernelSizeIfPossible(line, key, x, y); REQUIRE(x == (present ? a : 77777) && y == (present ? b : 88888), "size is " << x << "x" << y); break; }
    case 2: { float f = -5; Conv::ParseDatumParamIfPossible(line, key, f); REQUIRE(f == (present ? std::strtof(v.c_str(), nullptr) : -5), "value is " << f); break; }
    case 3: { std::string q = "keep"; Conv::ParseStringParamIfPossible(line, key, q); REQUIRE(q == (present ? v : "keep"), "string is \"" << q << "\""); break; }
    default: { unsigned x = 77777, y = 88888; Conv::ParseKernelSizeIfPossible(line, key, x, y); REQUIRE(!present || x == 77777 || x == a, "size is " << x); REQUIRE(y == 88888, "height was taken from elsewhere: " << y); }
  }
}
// settings of the form name=value at the start of a line
FACET(settings, 10000, 150000, "the line starts with the name") {
  std::string key = g.pick<std::string>({"l1", "l2", "lr", "gamma", "momentum", "exponent", "iterations", "sbatchsize", "pbatchsize", "mu", "eta"}), other = g.pick<std::string>({"l1", "l2", "lr", "gamma", "momentum", "exponent", "iterations", "sbatchsize", "pbatchsize", "mu", "eta"});
  unsigned a = (unsigned)g.below(100000); unsigned b = (unsigned)g.below(1000); std::string v = std::to_string(a), w = v + "." + std::to_string(b); g.note() << other << "=" << w << " key " << key; bool same = key == other; if (same) g.nontrivial();
  unsigned u = 5; Conv::ParseUIntIfPossible(other + "=" + v, key, u); REQUIRE(u == (same ? a : 5), "integer is " << u);
  float f = 5; Conv::ParseDatumIfPossible(other + "=" + w, key, f); REQUIRE(f == (same ? std::strtof(w.c_str(), nullptr) : 5), "value is " << f);
  std::string s = "x"; Conv::ParseStringIfPossible(other + "=" + w, key, s); REQUIRE(s == (same ? w : "x"), "string is " << s);
  REQUIRE(Conv::StartsWithIdentifier(other + "=" + w, key) == same, "StartsWithIdentifier");
}
