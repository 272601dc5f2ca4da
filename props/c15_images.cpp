// C15: image files load and save faithfully.
#include "codec.h"
#include "PNGUtil.h"
#include "JPGUtil.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

// ---- generation and comparison ---------------------------------------------------
static size_t gen_side(G& g) { switch (g.below(6)) { case 0: return 1; case 1: return 1 + g.below(3); case 2: return 7 + g.below(3); case 3: return 1 + g.below(70); default: return 1 + g.below(20); } }
static void gen_pixels(G& g, Img& im) { pbt::Rng r(g.below(1 << 20)); unsigned kind = (unsigned)g.below(4), mx = (1u << im.depth) - 1; im.v.resize(im.w * im.h * im.c); for (size_t k = 0; k < im.v.size(); k++) { size_t ch = k % im.c, x = k / im.c % im.w, y = k / im.c / im.w; im.v[k] = kind == 0 ? (unsigned)r.below(mx + 1) : kind == 1 ? (unsigned)((x * 7 + y * 13 + ch * 71) % (mx + 1)) : kind == 2 ? (r.below(2) ? mx : 0) : (unsigned)((k * 2654435761u >> 7) % (mx + 1)); } }
static Img gen_png(G& g, bool supported) { Img im; im.w = gen_side(g); im.h = gen_side(g); if (supported) { im.color = g.pick<int>({PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_GRAY_ALPHA}); im.depth = g.coin() ? 16 : 8; } else if (g.coin()) { im.color = PNG_COLOR_TYPE_PALETTE; im.depth = g.pick<unsigned>({8, 4, 2, 1}); } else { im.color = PNG_COLOR_TYPE_GRAY; im.depth = g.pick<unsigned>({4, 2, 1}); } im.c = channels(im.color); im.interlace = g.chance(1, 3) ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE; gen_pixels(g, im); return im; }
static PngOpt gen_opt(G& g) { PngOpt o; o.filter = g.pick<int>({PNG_ALL_FILTERS, PNG_FILTER_NONE, PNG_FILTER_SUB, PNG_FILTER_UP, PNG_FILTER_AVG, PNG_FILTER_PAETH}); o.level = g.pick<int>({6, 0, 1, 9}); o.text = (int)g.below(8); o.trns = g.chance(1, 5); return o; }
static bool load(Tensor& t, const std::string& p) { try { t.LoadFromFile(p); return true; } catch (const std::exception&) { return false; } }
static bool save(Tensor& t, const std::string& p) { try { t.WriteToFile(p); return true; } catch (const std::exception&) { return false; } }
static void prefill(G& g, Tensor& t) { if (g.coin()) { t.Resize(1 + g.below(2), 1 + g.below(9), 1 + g.below(9), 1 + g.below(4)); t.Clear(0.25f); } }
static const std::vector<std::string> PNGEXT = {".png", ".PNG"}, JPGEXT = {".jpg", ".jpeg", ".JPG", ".JPEG"};

FACET(png_load, 4000, 80000, "16 bit, interlaced or with an alpha channel") {
  Img im = gen_png(g, true); PngOpt o = gen_opt(g); g.note() << show(im) << " filter " << o.filter << " level " << o.level << (o.trns ? " tRNS" : ""); if (im.depth == 16 || im.interlace || im.c % 2 == 0) g.nontrivial(); std::string p = put(encode_png(im, o), g.pick(PNGEXT)); Tensor t; prefill(g, t);
  int way = (int)g.below(3); bool ok; if (way == 0) ok = load(t, p); else if (way == 1) { std::ifstream in(p, std::ios::binary); ok = Conv::PNGUtil::LoadFromStream(in, t); } else { try { Tensor u(p); t.Resize(u); memcpy(t.data_ptr(), u.data_ptr_const(), u.elements() * 4); ok = true; } catch (const std::exception&) { ok = false; } }
  unlink(p.c_str()); REQUIRE(ok, "a valid image was refused"); compare(t, im, "loaded PNG");
}
FACET(png_unsupported, 1000, 20000, "any") {
  Img im = gen_png(g, false); g.note() << show(im); g.nontrivial(); std::string p = put(encode_png(im, gen_opt(g)), g.pick(PNGEXT)); Tensor t; prefill(g, t); bool ok = load(t, p); unlink(p.c_str()); REQUIRE(!ok, "an unsupported layout was loaded");
}
static Bytes damage(G& g, Bytes b, std::string& how) {
  std::ostringstream o; size_t k = 1 + g.below(3); if (g.chance(1, 3)) { size_t n = g.below(b.size() + 1); b.resize(n); o << " cut to " << n; k = g.below(2); }
  for (size_t q = 0; q < k && !b.empty(); q++) { size_t at = g.below(b.size()); switch (g.below(4)) { case 0: b[at] ^= 1 << g.below(8); o << " bit at " << at; break; case 1: b[at] = (unsigned char)g.below(256); o << " byte at " << at; break; case 2: { size_t n = 1 + g.below(20); if (at + n > b.size()) n = b.size() - at; b.erase(b.begin() + at, b.begin() + at + n); o << " without " << n << " at " << at; break; } default: { size_t n = 1 + g.below(20); pbt::Rng r(g.below(1 << 16)); Bytes x; for (size_t i = 0; i < n; i++) x.push_back((unsigned char)r.next()); b.insert(b.begin() + at, x.begin(), x.end()); o << " " << n << " extra at " << at; } } }
  how = o.str(); return b;
}
FACET(png_damaged, 4000, 80000, "the damage is after the header") {
  Img im = gen_png(g, g.chance(3, 4)); std::string how; Bytes good = encode_png(im, gen_opt(g)), b = damage(g, good, how); if (g.chance(1, 30)) { b.assign(g.below(40), (unsigned char)g.below(256)); how = " no PNG at all"; } g.note() << show(im) << how; if (b.size() > 33 && std::equal(b.begin(), b.begin() + 33, good.begin())) g.nontrivial();
  Img d; int r = decode_png(b, d); g.assume(r >= 0); std::string p = put(b, g.pick(PNGEXT)); Tensor t; prefill(g, t); bool ok = load(t, p); unlink(p.c_str()); bool sup = r && d.color != PNG_COLOR_TYPE_PALETTE && d.depth >= 8; g.label(sup ? "readable" : r ? "unsupported" : "unreadable");
  if (!sup) REQUIRE(!ok, "a file that is not a readable image was loaded as " << shape(t)); if (sup && r == 2) REQUIRE(ok, "a readable image was refused"); if (ok) compare(t, d, "loaded PNG");
}
static uint32_t crc(const unsigned char* d, size_t n) { uint32_t c = 0xffffffffu; for (size_t i = 0; i < n; i++) { c ^= d[i]; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; } return ~c; }
FACET_ISOLATED(png_huge_header, 40, 300, "any") {
  Img im; im.w = 1000 * (1 + g.below(60)); im.h = 1; im.color = g.pick<int>({PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA}); im.c = channels(im.color); im.depth = g.coin() ? 16 : 8; gen_pixels(g, im); Bytes b = encode_png(im, gen_opt(g)); uint64_t bytes = im.w * im.c * (im.depth / 8), h = (0x100000000ull + bytes - 1) / bytes + g.below(2); if (g.coin()) h = 1 + g.below(100000); g.assume(h <= 1000000 && h * bytes <= 5000000000ull); for (int k = 0; k < 4; k++) b[20 + k] = (unsigned char)(h >> (24 - 8 * k)); uint32_t c = crc(&b[12], 17); for (int k = 0; k < 4; k++) b[29 + k] = (unsigned char)(c >> (24 - 8 * k));
  g.note() << show(im) << " claiming height " << h; g.nontrivial(); std::string p = put(b, ".png"); Tensor t; bool ok = load(t, p); unlink(p.c_str()); REQUIRE(!ok || h == 1, "an image with missing rows was loaded");
}
static Tensor gen_tensor(G& g, Img& im, unsigned kinds) {
  im.w = gen_side(g); im.h = gen_side(g); im.c = 3; Tensor t(1, im.w, im.h, 3); unsigned kind = (unsigned)g.below(kinds); pbt::Rng r(g.below(1 << 20)); float base[3], sx[3], sy[3]; float stretch = kind == 6 ? g.pick<float>({3.f, 1.01f, 1000.f, 1e30f}) : 1; for (int k = 0; k < 3; k++) { base[k] = 0.25f + 0.5f * (float)r.unit(); sx[k] = ((float)r.unit() - 0.5f) * 0.2f / (8 + im.w); sy[k] = ((float)r.unit() - 0.5f) * 0.2f / (8 + im.h); }
  for (size_t y = 0; y < im.h; y++) for (size_t x = 0; x < im.w; x++) { float grey = (float)r.unit(); for (size_t k = 0; k < 3; k++) *t.data_ptr(x, y, k, 0) = kind == 0 ? base[k] : kind == 1 ? base[k] + sx[k] * x + sy[k] * y : kind == 2 ? 0.5f + 0.3f * (grey - 0.5f) : kind == 3 ? (float)r.unit() : kind == 4 ? DATUM_FROM_UCHAR(r.below(256)) : kind == 5 ? (float)r.below(2) : ((float)r.unit() - 0.5f) * stretch; }
  g.note() << im.w << "x" << im.h << " kind " << kind; return t;
}
static bool unwritable(G& g, std::string& p, const std::string& ext) { p = scratch() + "/nowhere/x" + ext; (void)g; return true; }
FACET(png_save, 3000, 60000, "more than one pixel") {
  Img im; Tensor t = gen_tensor(g, im, 7); Arr before(t); std::string ext = g.pick(PNGEXT), p = tmpfile("o" + ext); if (im.w * im.h > 1) g.nontrivial();
  if (g.chance(1, 25)) { std::string q; unwritable(g, q, ext); REQUIRE(!save(t, q), "a file that cannot be opened was not reported"); return; }
  if (g.chance(1, 25)) { std::ofstream o("/dev/full", std::ios::binary); bool r; try { r = Conv::PNGUtil::WriteToStream(o, t); } catch (const std::exception&) { r = false; } REQUIRE(!r, "an image that could not be written was reported as saved"); return; }
  if (g.chance(1, 15)) { size_t maps = g.pick<size_t>({1, 2, 4, 5}); Tensor u(1, im.w, im.h, maps); u.Clear(0.5f); bool r = save(u, p); unlink(p.c_str()); REQUIRE(!r, maps << " channels were accepted"); return; }
  if (g.chance(1, 25)) { Tensor u(1 + g.below(2) * 2, 0, 0, 3); bool r = save(u, p); unlink(p.c_str()); REQUIRE(!r, "an empty image was accepted"); return; }
  REQUIRE(save(t, p), "refused"); require_same(t, before, "the saved tensor"); std::ifstream in(p, std::ios::binary); Bytes b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); Img d; int r = decode_png(b, d); REQUIRE(r == 2, "the written file is not an intact PNG"); REQUIRE(d.w == im.w && d.h == im.h && d.c == 3 && d.depth == 8, "the written file is " << show(d));
  for (size_t y = 0; y < im.h; y++) for (size_t x = 0; x < im.w; x++) for (size_t k = 0; k < 3; k++) { double v = 255.0 * std::min(1.f, std::max(0.f, before.at(x, y, k, 0))); REQUIRE(std::fabs(d.at(x, y, k) - v) <= 1.0001, "channel " << k << " at (" << x << "," << y << ") was written as " << d.at(x, y, k) << ", it is " << v << "/255"); }
  Tensor u; prefill(g, u); REQUIRE(load(u, p), "the saved image cannot be loaded"); compare(u, d, "reloaded PNG");
  // an image that consists of 8 bit values is saved exactly from then on
  std::string p2 = tmpfile("o2" + ext); REQUIRE(save(u, p2), "refused"); std::ifstream in2(p2, std::ios::binary); Bytes b2((std::istreambuf_iterator<char>(in2)), std::istreambuf_iterator<char>()); Img d2; REQUIRE(decode_png(b2, d2) == 2, "the written file is not an intact PNG"); REQUIRE(d2.v == d.v, "saving a loaded image changed its values"); unlink(p.c_str()); unlink(p2.c_str());
}
static Img gen_jpgimg(G& g) { Img im; im.w = gen_side(g); im.h = gen_side(g); im.c = g.coin() ? 3 : 1; gen_pixels(g, im); return im; }
static JpgOpt gen_jopt(G& g) { JpgOpt o; o.quality = g.pick<int>({90, 100, 50, 10}); o.progressive = g.chance(1, 3); o.restart = g.chance(1, 4) ? 1 + (int)g.below(4) : 0; o.hs = g.coin() ? 2 : 1; o.vs = g.coin() ? 2 : 1; return o; }
FACET(jpg_load, 3000, 60000, "colour, progressive or with restarts") {
  Img im = gen_jpgimg(g); JpgOpt o = gen_jopt(g); g.note() << show(im) << " quality " << o.quality << (o.progressive ? " progressive" : "") << " restart " << o.restart << " sampling " << o.hs << o.vs; if (im.c == 3 || o.progressive || o.restart) g.nontrivial(); Bytes b = encode_jpg(im, o); Img d; REQUIRE(decode_jpg(b, d) == 2, "harness"); std::string p = put(b, g.pick(JPGEXT)); Tensor t; prefill(g, t); bool ok = load(t, p); unlink(p.c_str()); REQUIRE(ok, "a valid image was refused"); compare(t, d, "loaded JPEG");
}
FACET(jpg_damaged, 4000, 80000, "libjpeg can read the header") {
  Img im = gen_jpgimg(g); std::string how; Bytes b = damage(g, encode_jpg(im, gen_jopt(g)), how); if (g.chance(1, 30)) { b.assign(g.below(40), (unsigned char)g.below(256)); how = " no JPEG at all"; } g.note() << show(im) << how; Img d; int r = decode_jpg(b, d); g.assume(r >= 0); if (r) g.nontrivial(); std::string p = put(b, g.pick(JPGEXT)); Tensor t; prefill(g, t); bool ok = load(t, p); unlink(p.c_str()); g.label(r == 0 ? "unreadable" : r == 1 ? "damaged" : "readable");
  if (r == 0) REQUIRE(!ok, "a file that is not a readable image was loaded as " << shape(t)); if (r == 2) REQUIRE(ok, "a readable image was refused"); if (ok) require_shape(t, 1, d.w, d.h, d.c, "loaded JPEG"); if (ok && r == 2) compare(t, d, "loaded JPEG");
}
FACET(jpg_save, 2500, 50000, "more than one pixel") {
  Img im; Tensor t = gen_tensor(g, im, 3); Arr before(t); std::string ext = g.pick(JPGEXT), p = tmpfile("o" + ext); if (im.w * im.h > 1) g.nontrivial();
  if (g.chance(1, 25)) { std::string q; unwritable(g, q, ext); REQUIRE(!save(t, q), "a file that cannot be opened was not reported"); return; }
  if (g.chance(1, 15)) { size_t maps = g.pick<size_t>({1, 2, 4, 5}); Tensor u(1, im.w, im.h, maps); u.Clear(0.5f); bool r = save(u, p); unlink(p.c_str()); REQUIRE(!r, maps << " channels were accepted"); return; }
  if (g.chance(1, 25)) { Tensor u(1, 0, 0, 3); bool r = save(u, p); unlink(p.c_str()); REQUIRE(!r, "an empty image was accepted"); return; }
  REQUIRE(save(t, p), "refused"); require_same(t, before, "the saved tensor"); Tensor u; prefill(g, u); REQUIRE(load(u, p), "the saved image cannot be loaded"); std::ifstream in(p, std::ios::binary); Bytes b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); Img d; REQUIRE(decode_jpg(b, d) == 2, "the written file is not an intact JPEG"); compare(u, d, "reloaded JPEG"); require_shape(u, 1, im.w, im.h, 3, "reloaded JPEG"); unlink(p.c_str());
  for (size_t e = 0; e < before.d.size(); e++) REQUIRE(std::fabs(u[e] - before.d[e]) <= 0.05, "value " << e << " was " << before.d[e] << " and is reloaded as " << u[e]);
}
FACET(file_type, 1500, 20000, "the name decides against a load") {
  // the extension decides: content of one type under a name of another type is
  // refused, and so are other extensions and missing files
  Img im; im.w = 1 + g.below(9); im.h = 1 + g.below(9); im.c = 3; im.color = PNG_COLOR_TYPE_RGB; gen_pixels(g, im); int content = (int)g.below(3); Bytes b; Tensor src(1, im.w, im.h, 3); { pbt::Rng r(im.w * 31 + im.h); for (size_t e = 0; e < src.elements(); e++) src[e] = (float)r.unit(); }
  if (content == 0) b = encode_png(im, PngOpt()); else if (content == 1) b = encode_jpg(im, JpgOpt()); else { std::ostringstream o; src.Serialize(o); std::string s = o.str(); b.assign(s.begin(), s.end()); }
  int kind = (int)g.below(6); std::string name = kind == 0 ? g.pick(PNGEXT) : kind == 1 ? g.pick(JPGEXT) : kind == 2 ? ".Tensor" : kind == 3 ? g.pick<std::string>({".bmp", ".txt", "", ".Png", ".tensor", ".png.bak", ".jpg~", ".gif"}) : kind == 4 ? g.pick<std::string>({".jpg.png", ".Tensor.png"}) : g.pick<std::string>({".png.jpg", ".png.Tensor"}); int type = kind == 4 ? 0 : kind == 5 ? (name == ".png.jpg" ? 1 : 2) : kind; static const char* T[] = {"PNG", "JPEG", "Tensor", "none"};
  g.note() << T[content] << " content named *" << name; bool expect = type == content; if (!expect) g.nontrivial(); g.assume(!(type == 2 && content != 2)); std::string p = put(b, "t" + name); Tensor t; 
  if (g.chance(1, 10)) { unlink(p.c_str()); expect = false; bool dir = g.coin() && type < 2; if (dir) mkdir(p.c_str(), 0700); g.note() << (dir ? " is a directory" : " is missing"); bool ok = load(t, p); if (dir) rmdir(p.c_str()); REQUIRE(!ok, "a missing file was not reported"); return; }
  bool ok = load(t, p); unlink(p.c_str()); REQUIRE(ok == expect, (ok ? "loaded" : "refused")); if (!ok) return; if (content == 0) compare(t, im, "PNG"); if (content == 1) { Img d; decode_jpg(b, d); compare(t, d, "JPEG"); } if (content == 2) require_same(t, Arr(src), "Tensor");
  // and decides the type that is written
  std::string q = tmpfile("w" + name); g.assume(save(t, q)); std::ifstream in(q, std::ios::binary); Bytes w((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); unlink(q.c_str()); bool isp = w.size() > 8 && !png_sig_cmp(w.data(), 0, 8), isj = w.size() > 2 && w[0] == 0xff && w[1] == 0xd8; REQUIRE(isp == (type == 0) && isj == (type == 1), "written with the wrong type");
}
