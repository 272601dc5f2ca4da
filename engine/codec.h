// Image files encoded and decoded with libpng and libjpeg directly.
#pragma once
#include "cn.h"
#include <csetjmp>
#include <png.h>
#include <jpeglib.h>

namespace cn {
typedef std::vector<unsigned char> Bytes;

// ---- independent codec use ----------------------------------------------------
struct Img { size_t w = 0, h = 0, c = 0; unsigned depth = 8; int color = 0, interlace = 0; std::vector<unsigned> v; unsigned& at(size_t x, size_t y, size_t k) { return v[(y * w + x) * c + k]; } };
inline void png_silent(png_structp p, png_const_charp m) { if (getenv("PBT_PNG")) fprintf(stderr, "libpng: %s\n", m); longjmp(png_jmpbuf(p), 1); }
inline void png_nowarn(png_structp, png_const_charp) {}
struct Src { const Bytes* b; size_t pos; };
inline void png_from(png_structp p, png_bytep d, png_size_t n) { Src* s = (Src*)png_get_io_ptr(p); if (s->pos + n > s->b->size()) png_error(p, "short"); memcpy(d, s->b->data() + s->pos, n); s->pos += n; }
inline void png_to(png_structp p, png_bytep d, png_size_t n) { Bytes* b = (Bytes*)png_get_io_ptr(p); b->insert(b->end(), d, d + n); }
inline void png_noflush(png_structp) {}

struct PngOpt { int filter = PNG_ALL_FILTERS, level = 6, text = 0, trns = 0; };
inline size_t channels(int color) { return color == PNG_COLOR_TYPE_RGB ? 3 : color == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : color == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1; }
inline Bytes encode_png(const Img& im, const PngOpt& o) {
  Bytes out; std::vector<Bytes> rows(im.h); for (size_t y = 0; y < im.h; y++) { Bytes& r = rows[y]; if (im.depth == 16) for (size_t i = 0; i < im.w * im.c; i++) { unsigned v = im.v[y * im.w * im.c + i]; r.push_back(v >> 8); r.push_back(v & 255); } else if (im.depth == 8) for (size_t i = 0; i < im.w * im.c; i++) r.push_back(im.v[y * im.w * im.c + i]); else { r.assign((im.w * im.depth + 7) / 8, 0); for (size_t x = 0; x < im.w; x++) r[x * im.depth / 8] |= im.v[y * im.w + x] << (8 - im.depth - x * im.depth % 8); } }
  std::vector<png_bytep> rp; for (auto& r : rows) rp.push_back(r.data());
  png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, png_silent, png_nowarn); png_infop i = png_create_info_struct(p);
  if (setjmp(png_jmpbuf(p))) { fprintf(stderr, "harness: cannot encode\n"); abort(); }
  png_set_write_fn(p, &out, png_to, png_noflush); png_set_filter(p, 0, o.filter); png_set_compression_level(p, o.level);
  png_set_IHDR(p, i, im.w, im.h, im.depth, im.color, im.interlace, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
  if (im.color == PNG_COLOR_TYPE_PALETTE) { png_color pal[256]; for (int k = 0; k < 256; k++) { pal[k].red = k * 7; pal[k].green = k * 5; pal[k].blue = k; } png_set_PLTE(p, i, pal, 1 << im.depth); }
  if (o.trns) { png_color_16 t; memset(&t, 0, sizeof t); if (im.color == PNG_COLOR_TYPE_GRAY) { t.gray = 1; png_set_tRNS(p, i, nullptr, 0, &t); } else if (im.color == PNG_COLOR_TYPE_RGB) { png_set_tRNS(p, i, nullptr, 0, &t); } }
  if ((o.text & 5) == 1) png_set_gAMA(p, i, 0.5); if (o.text & 2) { png_text t; memset(&t, 0, sizeof t); t.compression = PNG_TEXT_COMPRESSION_NONE; t.key = (char*)"Comment"; t.text = (char*)"generated image"; t.text_length = 15; png_set_text(p, i, &t, 1); } if (o.text & 4) png_set_sRGB(p, i, 0);
  png_write_info(p, i); png_write_image(p, rp.data()); png_write_end(p, i); png_destroy_write_struct(&p, &i); return out;
}
// 0 not decodable, 1 pixels decodable, 2 and the remainder of the file is intact
inline int decode_png(const Bytes& b, Img& im, size_t maxpixels = 4000000) {
  if (b.size() < 8 || png_sig_cmp(b.data(), 0, 8)) return 0;
  static Bytes data; static std::vector<png_bytep> rows; data.clear(); rows.clear(); volatile int ok = 0; Src s{&b, 0};
  png_structp p = png_create_read_struct(PNG_LIBPNG_VER_STRING, nullptr, png_silent, png_nowarn); png_infop i = png_create_info_struct(p);
  if (setjmp(png_jmpbuf(p))) { png_destroy_read_struct(&p, &i, nullptr); return ok; }
  png_set_read_fn(p, &s, png_from); png_read_info(p, i); im.w = png_get_image_width(p, i); im.h = png_get_image_height(p, i); im.c = png_get_channels(p, i); im.depth = png_get_bit_depth(p, i); im.color = png_get_color_type(p, i); if (im.w * im.h > maxpixels) { png_destroy_read_struct(&p, &i, nullptr); return -1; }
  if (im.depth < 8) png_set_packing(p); png_set_interlace_handling(p); png_read_update_info(p, i); size_t rb = png_get_rowbytes(p, i); data.resize(rb * im.h); for (size_t y = 0; y < im.h; y++) rows.push_back(data.data() + y * rb); png_read_image(p, rows.data());
  im.v.clear(); for (size_t y = 0; y < im.h; y++) for (size_t k = 0; k < im.w * im.c; k++) im.v.push_back(im.depth == 16 ? rows[y][2 * k] * 256u + rows[y][2 * k + 1] : rows[y][k]);
  ok = 1; png_read_end(p, nullptr); ok = 2; png_destroy_read_struct(&p, &i, nullptr); return ok;
}
struct JErr { jpeg_error_mgr m; jmp_buf j; }; inline void jexit(j_common_ptr c) { longjmp(((JErr*)c->err)->j, 1); } inline void jquiet(j_common_ptr, int) {} inline void jmsg(j_common_ptr) {}
struct JpgOpt { int quality = 90, progressive = 0, restart = 0, hs = 2, vs = 2; };
inline Bytes encode_jpg(const Img& im, const JpgOpt& o) {
  jpeg_compress_struct c; JErr e; c.err = jpeg_std_error(&e.m); e.m.error_exit = jexit; e.m.emit_message = jquiet; jpeg_create_compress(&c); unsigned char* mem = nullptr; unsigned long n = 0; if (setjmp(e.j)) { fprintf(stderr, "harness: cannot encode\n"); abort(); } jpeg_mem_dest(&c, &mem, &n);
  c.image_width = im.w; c.image_height = im.h; c.input_components = im.c; c.in_color_space = im.c == 3 ? JCS_RGB : JCS_GRAYSCALE; jpeg_set_defaults(&c); jpeg_set_quality(&c, o.quality, true); c.restart_interval = o.restart; if (im.c == 3) { c.comp_info[0].h_samp_factor = o.hs; c.comp_info[0].v_samp_factor = o.vs; } if (o.progressive) jpeg_simple_progression(&c); jpeg_start_compress(&c, true);
  Bytes row(im.w * im.c); while (c.next_scanline < im.h) { for (size_t k = 0; k < row.size(); k++) row[k] = im.v[c.next_scanline * row.size() + k]; JSAMPROW r = row.data(); jpeg_write_scanlines(&c, &r, 1); } jpeg_finish_compress(&c); jpeg_destroy_compress(&c); Bytes out(mem, mem + n); free(mem); return out;
}
// 0 error, 1 decoded (libjpeg warned), 2 decoded without remark
inline int decode_jpg(const Bytes& b, Img& im, size_t maxpixels = 4000000) {
  jpeg_decompress_struct c; JErr e; c.err = jpeg_std_error(&e.m); e.m.error_exit = jexit; e.m.output_message = jmsg; jpeg_create_decompress(&c); static Bytes data; data.clear(); if (setjmp(e.j)) { jpeg_destroy_decompress(&c); return 0; }
  if (b.empty()) { jpeg_destroy_decompress(&c); return 0; } jpeg_mem_src(&c, const_cast<unsigned char*>(b.data()), b.size()); jpeg_read_header(&c, true); jpeg_start_decompress(&c); im.w = c.output_width; im.h = c.output_height; im.c = c.output_components; if (im.w * im.h > maxpixels) { jpeg_destroy_decompress(&c); return -1; } data.resize(im.w * im.h * im.c);
  while (c.output_scanline < c.output_height) { JSAMPROW r = data.data() + c.output_scanline * im.w * im.c; jpeg_read_scanlines(&c, &r, 1); } jpeg_finish_decompress(&c); long w = e.m.num_warnings; jpeg_destroy_decompress(&c); im.v.assign(data.begin(), data.end()); return w ? 1 : 2;
}
inline std::string show(const Img& im) { std::ostringstream o; o << im.w << "x" << im.h << " " << im.c << " channels " << im.depth << " bit colour type " << im.color << (im.interlace ? " interlaced" : ""); return o.str(); }
inline std::string put(const Bytes& b, const std::string& suffix) { std::string p = tmpfile(suffix); std::ofstream o(p, std::ios::binary); o.write((const char*)b.data(), b.size()); return p; }
inline void compare(Tensor& t, Img& im, const std::string& what) {
  require_shape(t, 1, im.w, im.h, im.c, what); double mx = (1u << im.depth) - 1;
  for (size_t y = 0; y < im.h; y++) for (size_t x = 0; x < im.w; x++) for (size_t k = 0; k < im.c; k++) { double got = *t.data_ptr_const(x, y, k, 0), want = im.at(x, y, k) / mx; REQUIRE(std::fabs(got - want) <= 1e-6, what << ": channel " << k << " at (" << x << "," << y << ") is " << got << ", expected " << im.at(x, y, k) << "/" << mx); }
}
}  // namespace cn
