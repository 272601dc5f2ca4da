// C16: class labels and colours map onto each other.
#include "labels.h"
#include <set>
#include "dataset.h"
#include "imageset.h"
#include "ListTensorStream.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

static std::string descriptor(G& g, const ListSet& s) { return "list:" + s.ilist + ";" + s.images + (g.coin() ? "/" : "") + ";" + s.llist + ";" + s.labels + (g.coin() ? "/" : ""); }
static void check_stream(G& g, Conv::TensorStream& t, ListSet& s, const std::vector<unsigned>& pal) {
  auto v = s.valid(); REQUIRE(t.GetTensorCount() == 2 * v.size(), t.GetTensorCount() << " tensors for " << v.size() << " pairs"); size_t W = 1, H = 1;
  for (unsigned k = 0; k < 2 * v.size(); k++) { Img& im = k % 2 ? v[k / 2]->label : v[k / 2]->image; size_t maps = k % 2 ? pal.size() : im.c; REQUIRE(t.GetSamples(k) == 1 && t.GetWidth(k) == im.w && t.GetHeight(k) == im.h && t.GetMaps(k) == maps, "tensor " << k << " is reported as " << t.GetSamples(k) << "s@" << t.GetWidth(k) << "x" << t.GetHeight(k) << "x" << t.GetMaps(k)); W = std::max(W, im.w); H = std::max(H, im.h); }
  for (unsigned past : {0u, 1u, 7u}) { unsigned k = 2 * (unsigned)v.size() + past; REQUIRE(t.GetSamples(k) == 0 && t.GetWidth(k) == 0 && t.GetHeight(k) == 0 && t.GetMaps(k) == 0, "a tensor beyond the end is reported"); Tensor x(1, 3, 3, 3); REQUIRE(!t.CopySample(k, 0, x, 0), "a tensor beyond the end was copied"); }
  size_t ask = v.empty() ? 0 : 1 + g.below(5);
  for (size_t q = 0; q < ask; q++) { unsigned k = (unsigned)g.below(2 * v.size()); Img& im = k % 2 ? v[k / 2]->label : v[k / 2]->image; Arr a = k % 2 ? label_of(im, pal) : image_of(im); size_t slots = 1 + g.below(2), slot = g.below(slots); size_t tw = im.w + (g.coin() ? g.below(3) : 0), th = im.h + (g.coin() ? g.below(3) : 0); Tensor x(slots, tw, th, a.m); x.Clear(9); REQUIRE(t.CopySample(k, 0, x, slot), "tensor " << k << " was not copied"); Arr full(slots, tw, th, a.m, 9); for (size_t m = 0; m < a.m; m++) for (size_t y = 0; y < th; y++) for (size_t xx = 0; xx < tw; xx++) full.at(xx, y, m, slot) = xx < a.w && y < a.h ? a.at(xx, y, m, 0) : 0; require_near(x, full, k % 2 && label_exact(pal), (k % 2 ? "label " : "image ") + std::to_string(k / 2)); }
}
static bool both(ListSet& s, const std::vector<unsigned>& pal) { for (auto* p : s.valid()) { bool hit = false, miss = false; for (size_t y = 0; y < p->label.h; y++) for (size_t x = 0; x < p->label.w; x++) { bool f = false; for (unsigned c : pal) f |= (c & 0xffffff) == rgb(p->label, x, y); (f ? hit : miss) = true; } if (hit && miss) return true; } return false; }
static std::string show(ListSet& s) { std::ostringstream o; for (auto& p : s.pairs) o << " " << p.image.w << "x" << p.image.h << "x" << p.image.c << "/" << p.label.c << (p.mismatch ? "!" : ""); return o.str(); }

FACET(lists, 3000, 60000, "a label image has pixels in and not in class colours") {
  std::vector<unsigned> pal = gen_palette(g, 1 + g.below(6)); ListSet s; gen_lists(g, s, pal, 4, "a"); g.note() << hex(pal) << "|" << show(s); if (both(s, pal)) g.nontrivial(); std::vector<unsigned> given = pal; if (g.coin()) for (auto& c : given) c |= 0xff000000u; std::unique_ptr<Conv::TensorStream> t;
  if (g.coin()) t.reset(Conv::TensorStream::FromFile(descriptor(g, s), given)); else { auto* l = new Conv::ListTensorStream(given); t.reset(l); unsigned n = g.coin() ? l->LoadFile(descriptor(g, s)) : l->LoadFiles(s.ilist, s.images, s.llist, s.labels); REQUIRE(n == 2 * s.valid().size(), "loading reports " << n << " tensors"); }
  check_stream(g, *t, s, pal);
}
FACET(distance, 4000, 80000, "the colours differ") {
  // one class: the value depends on the distance to the foreground alone
  unsigned fg = g.pick<unsigned>({0xffffffu, 0u, 0xff0000u, 0x808080u}); if (g.coin()) fg = (unsigned)g.below(1 << 24); std::vector<unsigned> pal = {fg}; Img im; im.w = 1 + g.below(5); im.h = 1; im.c = 3; im.color = PNG_COLOR_TYPE_RGB; for (size_t k = 0; k < im.w; k++) { unsigned c = g.coin() ? (unsigned)g.below(1 << 24) : g.coin() ? fg : ~fg & 0xffffff; if (c != fg) g.nontrivial(); for (int q = 16; q >= 0; q -= 8) im.v.push_back((c >> q) & 255); } g.note() << hex(pal) << "against"; for (size_t k = 0; k < im.w; k++) g.note() << " " << std::hex << rgb(im, k, 0) << std::dec;
  ListSet s; s.images = tmpfile("d"); mkdir(s.images.c_str(), 0700); s.ilist = tmpfile("D.txt"); std::string f = s.images + "/image.png"; Bytes b = encode_png(im, PngOpt()); { std::ofstream o(f, std::ios::binary); o.write((const char*)b.data(), b.size()); } { std::ofstream o(s.ilist); o << "image.png\n"; } s.made = {f, s.ilist}; Conv::ListTensorStream l(pal); REQUIRE(l.LoadFiles(s.ilist, s.images, s.ilist, s.images) == 2, "not loaded"); Tensor x(1, im.w, 1, 1); REQUIRE(l.CopySample(1, 0, x, 0), "not copied"); require_near(x, label_of(im, pal), false, "label"); for (size_t k = 0; k < im.w; k++) REQUIRE(x[k] <= 1 && x[k] >= -1.00001f, "value " << x[k]);
}
FACET(unreadable, 800, 10000, "any") {
  g.nontrivial(); std::vector<unsigned> pal = gen_palette(g, 1 + g.below(3)); ListSet s; gen_lists(g, s, pal, 3, "u"); int kind = (int)g.below(5); g.note() << "kind " << kind << show(s); std::string d = descriptor(g, s); bool refused = false;
  if (kind == 0) { unlink(s.ilist.c_str()); } else if (kind == 1) unlink(s.llist.c_str()); else if (kind == 2) { g.assume(!s.pairs.empty()); unlink(s.made[g.below(2 * s.pairs.size())].c_str()); } else if (kind == 3) { d = g.pick<std::string>({"list:", "list:a;b", "list:a;b;c", "lists:a;b;c;d", "list"}); } else { g.assume(!s.pairs.empty()); ListPair& p = s.pairs[0]; g.assume(!p.mismatch); Img im; im.w = p.label.w; im.h = p.label.h; im.c = 4; im.color = PNG_COLOR_TYPE_RGB_ALPHA; im.v.assign(im.w * im.h * 4, 7); Bytes b = encode_png(im, PngOpt()); std::ofstream o(s.made[1], std::ios::binary); o.write((const char*)b.data(), b.size()); }
  try { std::unique_ptr<Conv::TensorStream> t(Conv::TensorStream::FromFile(d, pal)); if (kind == 4) { Tensor x(1, t->GetWidth(1), t->GetHeight(1), pal.size()); if (!t->CopySample(1, 0, x, 0)) throw std::runtime_error("refused"); } } catch (const std::runtime_error&) { refused = true; } REQUIRE(refused, "accepted");
}
static void colour_of(unsigned c, double f, float* o) { for (int q = 0; q < 3; q++) o[q] = (float)(((c >> (16 - 8 * q)) & 255) / 255.0 * f); }
FACET(colorize, 6000, 120000, "several classes, none of which wins everywhere") {
  MemDataset d; size_t n = 1 + g.below(7); d.cls = (unsigned)n; d.colors = gen_palette(g, n); size_t S = upto(g, 3, 20), W = upto(g, 12, 70), H = upto(g, 12, 70); Tensor t(S, W, H, n), o(S, W, H, 3); unsigned kind = (unsigned)g.below(5); pbt::Rng r(g.below(1 << 20)); for (size_t e = 0; e < t.elements(); e++) t[e] = kind == 0 ? (float)r.below(3) - 1 : kind == 1 ? (float)(2 * r.unit() - 1) : kind == 2 ? -(float)r.unit() * 1e6f : kind == 3 ? (float)r.unit() * 1e-6f : (float)(2 * r.unit() - 1) * 1e30f; if (n == 1) for (size_t e = 0; e < t.elements(); e++) t[e] = (float)(2 * r.unit() - 1); o.Clear(7); Arr a(t);
  g.note() << n << " classes " << S << "s@" << W << "x" << H << " kind " << kind << " " << hex(d.colors); d.Colorize(t, o); require_same(t, a, "the scores"); std::vector<size_t> wins(n, 0);
  for (size_t s = 0; s < S; s++) for (size_t y = 0; y < H; y++) for (size_t x = 0; x < W; x++) {
    float want[3]; size_t best = 0; if (n == 1) colour_of(d.colors[0], (1.0 + a.at(x, y, 0, s)) / 2, want); else { for (size_t c = 1; c < n; c++) if (a.at(x, y, c, s) > a.at(x, y, best, s)) best = c; colour_of(d.colors[best], 1, want); } wins[best]++;
    auto painted = [&](const float* w) { for (int q = 0; q < 3; q++) if (!(std::fabs(*o.data_ptr_const(x, y, q, s) - w[q]) <= 1e-5)) return false; return true; };
    bool ok = painted(want); if (!ok && n > 1) for (size_t c = 0; c < n; c++) if (a.at(x, y, c, s) == a.at(x, y, best, s)) { float w[3]; colour_of(d.colors[c], 1, w); ok |= painted(w); }
    REQUIRE(ok, "pixel (" << x << "," << y << ") of sample " << s << " is " << *o.data_ptr_const(x, y, 0, s) << "," << *o.data_ptr_const(x, y, 1, s) << "," << *o.data_ptr_const(x, y, 2, s) << ", expected " << want[0] << "," << want[1] << "," << want[2]);
  }
  size_t k = 0; for (size_t w : wins) k += w > 0; if (n > 1 && k > 1) g.nontrivial();
}
FACET(round_trip, 3000, 60000, "at least two classes are present") {
  size_t n = 2 + g.below(6), W = upto(g, 14, 80), H = upto(g, 14, 80); MemDataset d; d.cls = (unsigned)n; d.colors = gen_palette(g, n); Arr a(1, W, H, n); pbt::Rng r(g.below(1 << 20)); std::vector<size_t> seen(n, 0); for (size_t y = 0; y < H; y++) for (size_t x = 0; x < W; x++) { size_t c = r.below(n); seen[c]++; a.at(x, y, c, 0) = 1; } size_t k = 0; for (size_t s : seen) k += s > 0; if (k > 1) g.nontrivial(); g.note() << n << " classes " << W << "x" << H << " " << hex(d.colors);
  Tensor t(1, W, H, n), o(1, W, H, 3); memcpy(t.data_ptr(), a.d.data(), a.d.size() * 4); d.Colorize(t, o); ListSet s; s.images = tmpfile("r"); mkdir(s.images.c_str(), 0700); s.ilist = tmpfile("R.txt"); std::string f = s.images + g.pick<std::string>({"/image.png", "/image.Tensor"}); o.WriteToFile(f); { std::ofstream q(s.ilist); q << f.substr(s.images.size() + 1) << "\n"; } s.made = {f, s.ilist};
  Conv::ListTensorStream l(d.colors); REQUIRE(l.LoadFiles(s.ilist, s.images, s.ilist, s.images) == 2, "not loaded"); Tensor x(1, W, H, n); x.Clear(5); REQUIRE(l.CopySample(1, 0, x, 0), "not copied"); require_near(x, a, true, "labels read back");
}
FACET_ISOLATED(dataset, 800, 12000, "both sets have pairs") {
  size_t n = 1 + g.below(4); ListSet s[2]; std::string desc[2]; DConf c = gen_conf(g, n, "TRAINHERE", "TESTHERE", false); std::vector<unsigned> pal = c.colors; g.assume(std::set<unsigned>(pal.begin(), pal.end()).size() == n); size_t chan = g.pick<size_t>({3, 1, 4}), maps = 0; for (int t = 0; t < 2; t++) { gen_lists(g, s[t], pal, 3, t ? "e" : "r", chan); for (auto* p : s[t].valid()) { if (!maps) maps = p->image.c; g.assume(p->image.c == maps); } desc[t] = descriptor(g, s[t]); size_t at = c.text.find(t ? "TESTHERE" : "TRAINHERE"); c.text.replace(at, t ? 8 : 9, desc[t]); } g.assume(maps > 0); if (s[0].valid().size() && s[1].valid().size()) g.nontrivial(); g.note() << hex(pal) << "|" << show(s[0]) << "|" << show(s[1]);
  std::istringstream in(c.text); std::unique_ptr<Conv::TensorStreamDataset> d(Conv::TensorStreamDataset::CreateFromConfiguration(in)); check_conf(*d, c); REQUIRE(d->GetTrainingSamples() == s[0].valid().size() && d->GetTestingSamples() == s[1].valid().size(), "the dataset reports " << d->GetTrainingSamples() << " training and " << d->GetTestingSamples() << " testing samples"); size_t W = d->GetWidth(), H = d->GetHeight(); REQUIRE(d->GetInputMaps() == maps && d->GetLabelMaps() == n, "maps");
  for (int t = 0; t < 2; t++) { auto v = s[t].valid(); for (size_t k = 0; k < v.size(); k++) { Tensor a(1, W, H, maps), b(1, W, H, n), h(1, W, H, 2), w(1, W, H, 1); REQUIRE((t ? d->GetTestingSample(a, b, h, w, 0, (unsigned)k) : d->GetTrainingSample(a, b, h, w, 0, (unsigned)k)), "no sample " << k); for (int q = 0; q < 2; q++) { Arr x = q ? label_of(v[k]->label, pal) : image_of(v[k]->image), full(1, W, H, x.m); for (size_t m = 0; m < x.m; m++) for (size_t yy = 0; yy < x.h; yy++) for (size_t xx = 0; xx < x.w; xx++) full.at(xx, yy, m, 0) = x.at(xx, yy, m, 0); require_near(q ? b : a, full, q && n > 1, std::string(t ? "testing " : "training ") + (q ? "label " : "image ") + std::to_string(k)); } } }
}
