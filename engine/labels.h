// Label images: class palettes, pictures drawn with them and the label
// tensors they stand for.
#pragma once
#include "codec.h"

namespace cn {
inline std::vector<unsigned> gen_palette(G& g, size_t n) {
  std::vector<unsigned> v; bool grey = g.chance(1, 4), close = g.chance(1, 3); unsigned base = (unsigned)g.below(1 << 24);
  while (v.size() < n) { unsigned c; if (grey) c = (unsigned)g.below(256) * 0x10101; else if (close) c = (base + (unsigned)g.below(3) + ((unsigned)g.below(3) << 8) + ((unsigned)g.below(3) << 16)) & 0xffffff; else c = g.pick<unsigned>({0u, 0xffffffu, 0xff0000u, 0xff00u, 0xffu, 0x808080u, 0x10000u}) ^ (g.coin() ? (unsigned)g.below(1 << 24) : 0); bool dup = false; for (unsigned o : v) dup |= (o == c); if (dup) { c = (unsigned)(v.size() * 0x050301 + 1); dup = false; for (unsigned o : v) dup |= (o == c); if (dup) continue; } v.push_back(c); }
  return v;
}
// an RGB or grey picture whose pixels are class colours, nearly class colours or something else
inline Img gen_labels(G& g, const std::vector<unsigned>& pal, size_t w, size_t h, bool classes_only) {
  Img im; im.w = w; im.h = h; bool grey = !classes_only && g.chance(1, 5); im.c = grey ? 1 : 3; im.color = grey ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB; im.interlace = g.chance(1, 8); pbt::Rng r(g.below(1 << 20)); im.v.resize(w * h * im.c);
  for (size_t k = 0; k < w * h; k++) { unsigned c = pal[r.below(pal.size())]; if (!classes_only) switch (r.below(5)) { case 0: c = (unsigned)r.below(1 << 24); break; case 1: c = (c + (1u << 8 * r.below(3))) & 0xffffff; break; case 2: c = ((c & 255) << 16) | (c & 0xff00) | (c >> 16); break; default: break; } if (grey) im.v[k] = c & 255; else for (int q = 0; q < 3; q++) im.v[3 * k + q] = (c >> (16 - 8 * q)) & 255; }
  return im;
}
inline unsigned rgb(Img& im, size_t x, size_t y) { if (im.c == 1) return im.at(x, y, 0) * 0x10101; return im.at(x, y, 0) << 16 | im.at(x, y, 1) << 8 | im.at(x, y, 2); }
inline Arr label_of(Img& im, const std::vector<unsigned>& pal) {
  Arr a(1, im.w, im.h, pal.size());
  for (size_t y = 0; y < im.h; y++) for (size_t x = 0; x < im.w; x++) { unsigned c = rgb(im, x, y); if (pal.size() > 1) { for (size_t k = 0; k < pal.size(); k++) a.at(x, y, k, 0) = c == (pal[k] & 0xffffff); } else { double d = 0; for (int q = 0; q < 24; q += 8) { double e = ((int)((c >> q) & 255) - (int)((pal[0] >> q) & 255)) / 255.0; d += e * e; } a.at(x, y, 0, 0) = (float)(1 - 2 * std::sqrt(d) / std::sqrt(3.0)); } }
  return a;
}
inline Arr image_of(Img& im) { Arr a(1, im.w, im.h, im.c); double mx = (1u << im.depth) - 1; for (size_t y = 0; y < im.h; y++) for (size_t x = 0; x < im.w; x++) for (size_t k = 0; k < im.c; k++) a.at(x, y, k, 0) = (float)(im.at(x, y, k) / mx); return a; }
// elementwise within 1e-5; the one-hot labels exactly
inline void require_near(const Tensor& t, const Arr& a, bool exact, const std::string& what) {
  require_shape(t, a.s, a.w, a.h, a.m, what); for (size_t e = 0; e < a.d.size(); e++) { float got = t.data_ptr_const()[e]; bool ok = exact ? got == a.d[e] : std::fabs(got - a.d[e]) <= 1e-5; if (!ok) FAILMSG(what << ": map " << e / (a.w * a.h) % a.m << " at (" << e % a.w << "," << e / a.w % a.h << ") is " << got << ", expected " << a.d[e]); }
}
inline std::string hex(const std::vector<unsigned>& v) { std::ostringstream o; o << std::hex; for (unsigned c : v) o << c << " "; return o.str(); }

// image and label files and the lists naming them
struct ListPair { Img image, label; bool mismatch = false; };
struct ListSet {
  std::vector<ListPair> pairs; std::string images, labels, ilist, llist; std::vector<std::string> made;
  ~ListSet() { for (auto& m : made) unlink(m.c_str()); if (images.size()) rmdir(images.c_str()); if (labels.size()) rmdir(labels.c_str()); }
  std::vector<ListPair*> valid() { std::vector<ListPair*> v; for (auto& p : pairs) if (!p.mismatch) v.push_back(&p); return v; }
};
inline void gen_lists(G& g, ListSet& s, const std::vector<unsigned>& pal, size_t maxn, const std::string& tag, size_t chan = 0) {
  s.images = tmpfile(tag + "i"); s.labels = tmpfile(tag + "l"); mkdir(s.images.c_str(), 0700); mkdir(s.labels.c_str(), 0700); size_t n = g.below(maxn + 1); size_t ic = chan ? chan : g.pick<size_t>({3, 1, 4}); std::string il, ll;
  for (size_t k = 0; k < n; k++) {
    ListPair p; size_t w = 1 + g.below(12), h = 1 + g.below(12); p.image.w = w; p.image.h = h; p.image.c = ic; p.image.color = ic == 3 ? PNG_COLOR_TYPE_RGB : ic == 1 ? PNG_COLOR_TYPE_GRAY : PNG_COLOR_TYPE_RGB_ALPHA; p.image.depth = g.chance(1, 4) ? 16 : 8; pbt::Rng r(g.below(1 << 20)); for (size_t e = 0; e < w * h * ic; e++) p.image.v.push_back((unsigned)r.below(1u << p.image.depth)); p.mismatch = g.chance(1, 6); size_t lw = w, lh = h; if (p.mismatch) { if (g.coin()) lw += 1 + g.below(3); else lh += 1 + g.below(3); } p.label = gen_labels(g, pal, lw, lh, false);
    std::string in = g.pick<std::string>({"i", "image", "a b", "x.y", "pic;"}) + std::to_string(1000 + k) + g.pick<std::string>({".png", ".PNG"}), ln = g.pick<std::string>({"l", "label"}) + std::to_string(1000 + g.below(100) * 100 + k) + ".png";
    for (int q = 0; q < 2; q++) { std::string path = (q ? s.labels + "/" + ln : s.images + "/" + in); Bytes b = encode_png(q ? p.label : p.image, PngOpt()); std::ofstream o(path, std::ios::binary); o.write((const char*)b.data(), b.size()); s.made.push_back(path); }
    il += in + "\n"; ll += ln + "\n"; s.pairs.push_back(p);
  }
  if (n && g.coin()) il.pop_back(); else if (g.chance(1, 3)) il += "\n"; if (n && g.coin()) ll.pop_back(); else if (g.chance(1, 3)) ll += "\n";
  // one list may be longer than the other
  if (g.chance(1, 10)) { if (n && il.back() != '\n') il += "\n"; if (il.size() < 2 || il[il.size() - 2] != '\n') il += "surplus.png\n"; }
  else if (g.chance(1, 10)) { if (n && ll.back() != '\n') ll += "\n"; if (ll.size() < 2 || ll[ll.size() - 2] != '\n') ll += "surplus.png\n"; }
  s.ilist = tmpfile(tag + "I.txt"); s.llist = tmpfile(tag + "L.txt"); { std::ofstream o(s.ilist); o << il; } { std::ofstream o(s.llist); o << ll; } s.made.push_back(s.ilist); s.made.push_back(s.llist);
}
inline bool label_exact(const std::vector<unsigned>& pal) { return pal.size() > 1; }
}  // namespace cn
