// C30: malformed configurations are refused or harmless.
#include "imageset.h"
#include "netdesc.h"
#include "ConvolutionLayer.h"
#include "Trainer.h"

#include "Dataset.h"
#include "ConfigParsing.h"
#include "tools.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

// a machine with little memory (AddressSanitizer's own operator new ends the process)
void* operator new(size_t n) { void* p = n > (160u << 20) ? nullptr : malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
struct Quiet { std::streambuf *e, *o; std::ostringstream err, out; Quiet() { e = std::cerr.rdbuf(err.rdbuf()); o = std::cout.rdbuf(out.rdbuf()); } ~Quiet() { std::cerr.rdbuf(e); std::cout.rdbuf(o); } };
template <class F> static bool refused(F f) { try { f(); return false; } catch (const std::exception&) { return true; } }
// text as people mistype it
static std::string gen_number(G& g) { return g.pick<std::string>({"0", "", "1", "2", "3", "x", "1.5", "-", "64", "1e9", "300", "-1", "-3", "4294967295", "4294967296", "65536", "2147483648", "1073741824", "99999999999999999999", "nan", "07", "0x3", "7", "16", "+2", "--1"}); }
static std::string damage(G& g, std::string t, std::ostringstream& note) {
  size_t k = 1 + g.small(0, 2);
  for (size_t q = 0; q < k; q++) {
    std::vector<std::pair<size_t, size_t>> num, tok; for (size_t p = 0; p < t.size();) { if (isdigit((unsigned char)t[p])) { size_t e = p; while (e < t.size() && (isdigit((unsigned char)t[e]) || t[e] == '.')) e++; num.push_back({p, e - p}); p = e; } else p++; }
    for (size_t p = 0; p < t.size();) { if (isspace((unsigned char)t[p])) { p++; continue; } size_t e = p; while (e < t.size() && !isspace((unsigned char)t[e])) e++; tok.push_back({p, e - p}); p = e; }
    switch (g.below(8)) {
      case 0: case 1: case 2: if (num.empty()) break; { auto n = num[g.below(num.size())]; std::string v = gen_number(g); note << " [" << t.substr(n.first, n.second) << " to " << v << "]"; t.replace(n.first, n.second, v); } break;
      case 3: if (tok.empty()) break; { auto n = tok[g.below(tok.size())]; note << " [without " << t.substr(n.first, n.second) << "]"; t.erase(n.first, n.second); } break;
      case 4: if (tok.size() < 2) break; { auto n = tok[g.below(tok.size())]; std::string s = t.substr(n.first, n.second); auto m = tok[g.below(tok.size())]; note << " [" << s << " also at " << m.first << "]"; t.insert(m.first, s + g.pick<std::string>({" ", "\n"})); } break;
      case 5: if (t.empty()) break; { size_t at = g.below(t.size()); note << " [no character " << at << "]"; t.erase(at, 1); } break;
      case 6: { size_t at = g.below(t.size() + 1); char c = g.pick<char>({' ', '\n', '=', 'x', '?', '#', '(', '-', '.', '0', '9', '\r', '\t', ',', (char)200, 0}); note << " [" << (int)(unsigned char)c << " at " << at << "]"; t.insert(at, 1, c); } break;
      default: { size_t at = g.below(t.size() + 1); note << " [ends at " << at << "]"; t.resize(at); }
    }
  }
  return t;
}
static std::string shown(std::string s) { for (auto& c : s) if (c == '\n') c = '|'; else if ((unsigned char)c < 32 || (unsigned char)c > 126) c = '~'; return s; }

FACET(network, 8000, 120000, "the network was built") {
  NGen c; c.dropout = g.chance(1, 4); c.plain = g.chance(1, 4); NDesc n = gen_netdesc(g, c); if (n.rfx && n.rfy && g.chance(1, 5)) n.manual = true; render_all(g, n, {"lr=0.1", "iterations=3", "momentum=0.5", "gamma=0.003"}); std::ostringstream note; n.text = damage(g, n.text, note); bool training = g.coin(); unsigned seed = (unsigned)g.below(1000);
  size_t s = 1 + g.below(2), w = n.fx * (1 + g.below(3)), h = n.fy * (1 + g.below(3)); if (training) { w = std::max<size_t>(w, 6 + g.below(12)); h = std::max<size_t>(h, 6 + g.below(12)); } g.note() << s << "s@" << w << "x" << h << " " << n.channels << " channels " << n.classes << " classes:" << note.str() << ": " << shown(n.text);
  Quiet quiet; bool built = false, ran = false; FNet f; bool no = refused([&] { f.build(n, seed, training, s, w, h, true); f.factory->InitOptimalSettings(); built = f.complete; if (!built) return; f.graph.InitializeWeights(); f.graph.SetIsTesting(false); f.graph.FeedForward(); ran = true; f.graph.BackPropagate(); f.graph.FeedForward(); f.graph.AggregateLoss(); });
  g.label(no ? ran ? "refused late" : "refused" : built ? "built" : "incomplete"); if (built && !no) g.nontrivial();
}
// data sets described by mistyped text
static std::vector<Pair> gen_pairs(G& g, size_t maps, size_t classes, size_t n, bool fit, std::ostringstream& note) {
  std::vector<Pair> v;
  for (size_t k = 0; k < n; k++) {
    Pair p; size_t w = 1 + g.below(9), h = 1 + g.below(9), lw = w, lh = h, dm = maps, lm = classes, ds = 1, ls = 1;
    if (!fit && g.chance(1, 2)) { switch (g.below(8)) { case 5: case 6: lw = h; lh = w; break; case 0: lm = 1 + g.below(classes + 4); break; case 1: dm = 1 + g.below(maps + 2); break; case 2: lw = 1 + g.below(9); break; case 3: lh = 1 + g.below(9); break; case 4: lw = 1 + g.below(w); lh = 1 + g.below(h); break; default: (g.coin() ? ds : ls) = 2; } note << " [pair " << k << ": " << ds << "s@" << w << "x" << h << "x" << dm << ", label " << ls << "s@" << lw << "x" << lh << "x" << lm << "]"; }
    p.data = Arr(ds, w, h, dm); p.label = Arr(ls, lw, lh, lm); pbt::Rng r(g.below(1 << 20)); for (auto& x : p.data.d) x = (float)r.below(256) / 255; for (auto& x : p.label.d) x = (float)r.below(3) / 2; v.push_back(p);
  }
  return v;
}
template <class D> static std::string visit(D& d, size_t w, size_t h, size_t lw, size_t lh) {
  REQUIRE(d.GetClasses() == d.GetClassNames().size() && d.GetClasses() == d.GetClassColors().size(), d.GetClasses() << " classes, " << d.GetClassNames().size() << " names and " << d.GetClassColors().size() << " colors"); std::ostringstream o; o << d.GetClasses() << " " << d.GetTrainingSamples() << " " << d.GetTestingSamples() << " " << d.GetInputMaps() << " " << d.GetLabelMaps() << " " << w << " " << h; for (auto q : d.GetClassWeights()) { uint32_t b; memcpy(&b, &q, 4); o << " " << b; } for (auto q : d.GetClassColors()) o << " " << q; for (auto& q : d.GetClassNames()) o << " " << q.size();
  size_t im = d.GetInputMaps(), lm = d.GetLabelMaps(); if (!im || !lm || !w || !h) return o.str(); if (w * h * (im + lm) > 4000000) return o.str(); Tensor data(2, w, h, im), label(2, lw, lh, lm), helper(2, lw, lh, 2), weight(2, lw, lh, 1);
  for (int t = 0; t < 2; t++) for (unsigned k = 0; k < (t ? d.GetTestingSamples() : d.GetTrainingSamples()) + 1; k++) { for (auto* x : {&data, &label, &helper, &weight}) x->Clear(0.25); bool ok = t ? d.GetTestingSample(data, label, helper, weight, 1, k) : d.GetTrainingSample(data, label, helper, weight, 1, k); o << " " << ok; if (ok) { uint64_t sum = 0; for (auto* x : {&data, &label, &helper, &weight}) for (size_t e = 0; e < x->elements(); e++) { float v = (*x)[e]; uint32_t b; memcpy(&b, &v, 4); sum = sum * 1000003 + b; } o << ":" << sum; } }
  return o.str();
}
static std::string load_both(const std::string& text, int which, size_t px, size_t py) {
  std::istringstream f(text); FdGuard fd;
  if (which == 0) { std::unique_ptr<Conv::TensorStreamDataset> d(Conv::TensorStreamDataset::CreateFromConfiguration(f, false)); return visit(*d, d->GetWidth(), d->GetHeight(), d->GetWidth(), d->GetHeight()); }
  std::unique_ptr<Conv::TensorStreamPatchDataset> d(Conv::TensorStreamPatchDataset::CreateFromConfiguration(f, false, Conv::LOAD_BOTH, (unsigned)px, (unsigned)py)); return visit(*d, d->GetWidth(), d->GetHeight(), 1, 1);
}
static void write_pairs(const std::string& p, const std::vector<Pair>& v, bool comp, bool odd = false) {
  std::ofstream o(p, std::ios::binary); if (!odd) { write_stream(o, v, comp); return; }
  std::ostringstream all, last; write_stream(all, v, false); std::ostringstream l; raw_tensor(l, v.back().label); o << all.str().substr(0, all.str().size() - l.str().size());
}
// mistakes in data sets that have to be noticed
static std::string mistake(G& g, const std::string& text, size_t classes, std::ostringstream& note) {
  std::vector<std::string> l; std::istringstream i(text); for (std::string s; std::getline(i, s);) l.push_back(s); size_t at = 0; std::string what = g.coin() ? "colors" : "weights"; for (size_t k = classes + 1; k < l.size() && !at; k++) if (l[k] == what) at = k; if (!at) { what = "colors"; for (size_t k = classes + 1; k < l.size() && !at; k++) if (l[k] == what) at = k; }
  size_t k = g.below(classes); if (g.coin()) { l.resize(at + 1 + k); note << " [ends after " << k << " " << what << "]"; } else { l[at + 1 + k] = what == "colors" ? g.pick<std::string>({"100000000", "0x123456789", "-1", "0xFFFFFFFFF"}) : g.pick<std::string>({"x", "", "-", "nothing", "  "}); note << " [" << what << " " << k << " " << l[at + 1 + k] << "]"; }
  std::string r; for (auto& s : l) r += (r.empty() ? "" : "\n") + s; return r;
}
FACET_ISOLATED(data_set, 1500, 24000, "the data set was loaded") {
  size_t maps = 1 + g.below(3), classes = 1 + g.below(4); bool text = g.coin(); int which = (int)g.below(2); std::ostringstream note; Dir dir("d"); bool fit[2], bad = false; size_t pairs = 0; Dim d0, l0;
  for (int t = 0; t < 2; t++) { size_t n = g.below(4); fit[t] = text || g.coin(); auto v = gen_pairs(g, maps, classes, n, fit[t], note); for (auto& p : v) { if (!pairs++) { d0.m = p.data.m; l0.m = p.label.m; } bad |= p.label.m > classes; if (which) bad |= p.data.w != p.label.w || p.data.h != p.label.h || p.data.m != d0.m || p.label.m != l0.m; } bool odd = v.size() && g.chance(1, 12); if (odd) { bad = true; note << " [no last label in " << (t ? "testing" : "training") << "]"; } write_pairs(dir / (t ? "te" : "tr"), v, which == 0 && g.coin(), odd); }
  DConf c = gen_conf(g, classes, dir / "tr", dir / "te", which == 1); std::string s = c.text; if (text) s = damage(g, s, note); else if (g.chance(1, 8)) { s = mistake(g, s, classes, note); bad = true; } size_t px = 1 + g.below(4), py = 1 + g.below(4); std::string sh = shown(s); for (size_t q; (q = sh.find(dir.path)) != std::string::npos;) sh.replace(q, dir.path.size(), "DIR"); g.note() << (which ? "patches:" : "images:") << note.str() << ": " << sh;
  Quiet quiet; std::string a, b; bool no = refused([&] { a = load_both(s, which, px, py); }); if (!text) REQUIRE(no == bad, (no ? "a data set whose tensors fit was refused" : "a data set whose tensors do not fit was loaded")); if (!no && pairs) g.nontrivial(); g.label(no ? "refused" : "loaded"); bool again = refused([&] { b = load_both(s, which, px, py); }); REQUIRE(no == again, "refused once and not the other time"); REQUIRE(a == b, "the data set differs the second time: " << a << " and " << b);
}

// lists of files
struct In { int was; explicit In(const std::string& p) { was = open(".", O_RDONLY); if (was < 0 || chdir(p.c_str())) FAILMSG("harness: chdir"); } ~In() { if (fchdir(was)) {} close(was); } };
FACET(lists, 1500, 24000, "pairs were loaded from lists with a defect") {
  Dir dir("d"); size_t classes = 1 + g.below(3); std::vector<unsigned> colors; for (size_t k = 0; k < classes; k++) colors.push_back((unsigned)g.below(1 << 24)); size_t n = g.below(5); std::ostringstream note; std::string il, ll; mkdir((dir / "i").c_str(), 0700); mkdir((dir / "l").c_str(), 0700); auto v = gen_pairs(g, 3, 3, n, g.coin(), note); int named = (int)g.below(4); std::vector<std::pair<std::string, std::string>> names;
  for (size_t k = 0; k < n; k++) { std::string a = "i" + std::to_string(k) + ".Tensor", b = "l" + std::to_string(k) + ".Tensor"; { std::ofstream o(dir / ("i/" + a), std::ios::binary); raw_tensor(o, v[k].data); } { std::ofstream o(dir / ("l/" + b), std::ios::binary); raw_tensor(o, v[k].label); } if (named == 0) { a = dir / ("i/" + a); b = dir / ("l/" + b); } else if (named == 3) { a = "i/" + a; b = "l/" + b; } il += a + "\n"; ll += b + "\n"; }
  bool hurt = g.coin(); if (hurt) { std::string& s = g.coin() ? il : ll; s = damage(g, s, note); } write_file(dir / "il", il); write_file(dir / "ll", ll); std::string path = "list:" + dir / "il" + ";" + (named == 0 || named == 3 ? "" : dir / (named == 1 ? "i" : "i/")) + ";" + dir / "ll" + ";" + (named == 0 || named == 3 ? "" : dir / (named == 1 ? "l" : "l/")); g.note() << n << " pairs" << note.str();
  In in(named == 3 ? dir.path : "."); Quiet quiet; FdGuard fd; std::string sum[2]; bool no[2]; size_t got = 0;
  for (int t = 0; t < 2; t++) no[t] = refused([&] {
    std::ostringstream o; std::unique_ptr<Conv::TensorStream> s(Conv::TensorStream::FromFile(path, colors)); got = s->GetTensorCount(); o << got; Tensor x(1, 12, 12, 3), y(1, 12, 12, classes); for (unsigned k = 0; k < got + 2; k++) { o << " " << s->GetWidth(k) << " " << s->GetHeight(k) << " " << s->GetMaps(k); for (auto* z : {&x, &y}) { bool ok = s->CopySample(k, 0, *z, 0); o << ok; if (ok) { uint64_t q = 0; for (size_t e = 0; e < z->elements(); e++) { float f = (*z)[e]; uint32_t b; memcpy(&b, &f, 4); q = q * 1000003 + b; } o << ":" << q; } } } sum[t] = o.str(); });
  REQUIRE(no[0] == no[1] && sum[0] == sum[1], "the lists differ the second time"); if (!hurt && !no[0]) { size_t want = 0; for (auto& p : v) want += p.data.w == p.label.w && p.data.h == p.label.h ? 2 : 0; REQUIRE(got == want, got << " tensors, expected " << want); } if (!hurt && note.str().empty()) REQUIRE(!no[0], "lists without a defect were refused"); if (!no[0] && got && (hurt || note.str().size())) g.nontrivial();
}
// parameters of a line
static std::string s3(const std::string& line, const std::string& id) { return line.size() > id.size() ? line.substr(id.size() + 1) : ""; }
FACET(numbers, 40000, 600000, "the line has a value that is no number or out of range") {
  std::string id = g.pick<std::string>({"size", "lr", "a", "kernels", "mu"}), line; size_t parts = g.below(4); for (size_t k = 0; k < parts; k++) line += g.pick<std::string>({"size", "lr", "a", "kernels", "mu", "?x", "mysize"}) + g.pick<std::string>({"=", "=", "", " = ", "=="}) + gen_number(g) + (g.chance(1, 3) ? "x" + gen_number(g) : "") + g.pick<std::string>({" ", "", "  ", "\t"}); g.note() << "\"" << shown(line) << "\" " << id;
  auto read = [&](int) { std::ostringstream o; Conv::datum d = 0.375f, d2 = 0.375f; unsigned k = 7, u = 7, kx = 7, ky = 7; std::string s = "unset", s2 = "unset"; auto bits = [](float f) { uint32_t b; memcpy(&b, &f, 4); return b; };
    Conv::ParseDatumParamIfPossible(line, id, d); bool rk = refused([&] { Conv::ParseCountIfPossible(line, id, k); }), rs = refused([&] { Conv::ParseKernelSizeIfPossible(line, id, kx, ky); }); Conv::ParseStringParamIfPossible(line, id, s); o << rk << rs << bits(d) << " " << k << " " << kx << "x" << ky << " " << s; bool found = false; for (size_t p = line.find(id + "="); p != std::string::npos; p = line.find(id + "=", p + 1)) found |= !p || !(isalnum((unsigned char)line[p - 1]) || line[p - 1] == '_');
    if (!found) REQUIRE(bits(d) == bits(0.375f) && k == 7 && kx == 7 && ky == 7 && s == "unset", "a parameter that is not there was read"); else if (s.find_first_of("0123456789") == std::string::npos) { g.nontrivial(); REQUIRE((d == 0 || std::isnan(d) || std::isinf(d)) && bits(d) != 0xAAAAAAAA && bits(d) != 0xFFFFFFFF && k == 0, "\"" << s << "\" was read as " << d << " and " << k); }
    auto number = [](const std::string& t, unsigned& v, double max = 4294967295.0) { size_t i = 0; bool neg = false; double r = 0; while (i < t.size() && isspace((unsigned char)t[i])) i++; if (i < t.size() && (t[i] == '-' || t[i] == '+')) neg = t[i++] == '-'; while (i < t.size() && isdigit((unsigned char)t[i])) r = r * 10 + (t[i++] - '0'); v = r <= max ? (unsigned)r : 0; return r == 0 || (!neg && r <= max); };
    if (rk || rs) g.nontrivial(); if (found) { unsigned v; bool ok = number(s, v); REQUIRE(ok == !rk, "the count \"" << s << "\" was " << (rk ? "refused" : "accepted")); if (ok) REQUIRE(k == v, "the count \"" << s << "\" was read as " << k); }
    auto plain = [](const std::string& t) { size_t i = t.find_first_not_of(" \t"); if (i != std::string::npos && (t[i] == '-' || t[i] == '+')) i++; return i < t.size() && isdigit((unsigned char)t[i]) && t.find_first_not_of("0123456789.", i) == std::string::npos; };
    if (found && plain(s)) REQUIRE(d == strtof(s.c_str(), nullptr), "\"" << s << "\" was read as " << d); if (found) { size_t p = line.find(id + "="); while (p && (isalnum((unsigned char)line[p - 1]) || line[p - 1] == '_')) p = line.find(id + "=", p + 1); p += id.size() + 1; REQUIRE(s == line.substr(p, line.find(' ', p) - p), "the parameter was read as " << s); }
    if (!rs && kx == 7 && ky == 7) {} else if (!rs) { unsigned vx, vy; size_t x = s.find('x'); bool okx = number(s, vx, 2147483647.0), oky = x != std::string::npos && number(s.substr(x + 1), vy, 2147483647.0); REQUIRE(okx && oky && kx == vx && ky == vy, "the size \"" << s << "\" was read as " << kx << " by " << ky); }
    bool r1 = refused([&] { Conv::ParseDatumIfPossible(line, id, d2); }), r2 = refused([&] { Conv::ParseUIntIfPossible(line, id, u); }), r3 = refused([&] { Conv::ParseStringIfPossible(line, id, s2); }); o << r1 << r2 << r3 << bits(d2) << " " << u << " " << s2; if (line.compare(0, id.size(), id)) REQUIRE(bits(d2) == bits(0.375f) && u == 7 && s2 == "unset", "a setting that is not there was read"); else if (!r1 && line.find_first_of("0123456789") == std::string::npos) REQUIRE(d2 == 0 && bits(d2) != 0xAAAAAAAA, "a setting without a number was read as " << d2); if (!r3 && !line.compare(0, id.size(), id)) REQUIRE(s3(line, id) == s2, "a setting was read as " << s2); if (!r1 && !line.compare(0, id.size(), id) && plain(s3(line, id))) REQUIRE(d2 == strtof(s3(line, id).c_str(), nullptr), "a setting was read as " << d2); if (!r2 && !line.compare(0, id.size(), id)) { unsigned v; bool ok = number(line.substr(id.size() + 1), v); REQUIRE(ok && u == v, "a setting was read as " << u); } return o.str(); };
  std::string a = read(0), b = read(1); REQUIRE(a == b, a << " and then " << b);
}
// training programs with mistyped scripts, networks and data sets
FACET_ISOLATED(script, 150, 2400, "the program ran to its end") {
  NGen c; c.maxops = 3; c.maxfactor = 4; c.maxrf = 4; c.hmax = false; c.plain = true; NDesc n = gen_netdesc(g, c); g.assume(!n.count(NOp::DOWN) && n.fx != 3 && n.fy != 3); render_all(g, n, {"pbatchsize=1", "sbatchsize=1", "iterations=2", "lr=0.01"}); Dir d("d"); mkdir((d / "csv").c_str(), 0700); std::ostringstream note; bool hybrid = g.chance(1, 4); if (hybrid) n.text = "method=patch\n" + n.text;
  for (int t = 0; t < 2; t++) { std::vector<Pair> v; for (size_t k = 0; k < 2; k++) { Pair p; size_t w = 12 + g.below(4), h = 12 + g.below(4); p.data = Arr(1, w, h, n.channels); p.label = Arr(1, w, h, n.classes); pbt::Rng r(g.below(1 << 20)); for (auto& x : p.data.d) x = (float)r.below(256) / 255; for (auto& x : p.label.d) x = (float)r.below(2); v.push_back(p); } write_pairs(d / (t ? "te" : "tr"), v, false); }
  std::string conf = gen_conf(g, n.classes, d / "tr", d / "te", hybrid).text, script, net = n.text; size_t lines = 1 + g.below(6); for (size_t k = 0; k < lines; k++) script += g.pick<std::string>({"train epochs=1", "test", "save file=a", "load file=a", "reset", "set epoch epoch=2", "set experiment name=e", "graph file=g", "wstat node=x", "dstat node=y", "tstat enable=1", "help", "train epochs=1 no_snapshots=1", "load file=a last_layer=1"}) + "\n";
  switch (g.below(3)) { case 0: note << " script"; script = damage(g, script, note); break; case 1: note << " net"; net = damage(g, net, note); break; default: note << " set"; conf = damage(g, conf, note); } g.note() << (hybrid ? "hybrid" : "") << note.str() << ": " << shown(net) << " || " << shown(script); bool big = conf.find("9999999999") != std::string::npos; std::string all = net + " " + script; for (size_t i = 0; i < all.size(); i++) if (isdigit((unsigned char)all[i]) && (!i || !strchr("0123456789./", all[i - 1]))) { double v = atof(all.c_str() + i); if (v >= 64 && v <= 4294967295.0) big = true; } g.assume(!big); // these would only take long
  write_file(d / "net", net); write_file(d / "set", conf); write_file(d / "script", script); Ran r = run_tool("trainNetwork", {d / "set", d / "net", d / "script"}, d.path); require_refused(r, "trainNetwork"); REQUIRE(r.out.find("AddressSanitizer: attempting") == std::string::npos && r.out.find("AddressSanitizer: FPE") == std::string::npos, "trainNetwork breaks: " << r.tail()); if (r.code == 0) g.nontrivial(); g.label(r.code == 0 ? "ends" : "refused");
}
