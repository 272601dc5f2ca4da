// C03: tensors behave like plain (sample, map, row, column) arrays under any
// operation sequence.  Model: every pool slot has a shape and a storage; a
// shadow shares the storage of its target.
#include "cn.h"
using namespace cn;
void pbt::setup_process() { Conv::System::Init(0); }
void pbt::setup_case() {}

typedef std::shared_ptr<std::vector<float>> Store;
struct Slot { std::unique_ptr<Tensor> t; size_t s = 0, w = 0, h = 0, m = 0; Store d; bool owner = true;
  size_t n() const { return s * w * h * m; } float& at(size_t x, size_t y, size_t mm, size_t ss) { return (*d)[((ss * m + mm) * h + y) * w + x]; } };
struct Pool {
  std::vector<Slot> p; G& g;
  Pool(G& g_, size_t n) : g(g_) { for (size_t i = 0; i < n; i++) { p.emplace_back(); p.back().t.reset(new Tensor()); } }
  void drop_model(size_t i) { p[i].d.reset(); p[i].s = p[i].w = p[i].h = p[i].m = 0; p[i].owner = true; }
  // storage of slot i is about to be released: shadows of it must go first
  void release_shadows(size_t i) {
    if (!p[i].d || !p[i].owner) return;
    for (size_t k = 0; k < p.size(); k++) if (k != i && p[k].d == p[i].d) { p[k].t->DeleteIfPossible(); drop_model(k); }
  }
  bool shared(size_t i) { for (size_t k = 0; k < p.size(); k++) if (k != i && p[k].d && p[k].d == p[i].d) return true; return false; }
  void check(const std::string& op) {
    for (size_t i = 0; i < p.size(); i++) {
      std::string what = "slot " + std::to_string(i) + " after " + op;
      require_shape(*p[i].t, p[i].s, p[i].w, p[i].h, p[i].m, what);
      REQUIRE(p[i].t->elements() == p[i].n(), what << ": elements " << p[i].t->elements());
      if (!p[i].n()) continue;
      REQUIRE(p[i].t->data_ptr_const() != nullptr && p[i].t->data_ptr_const() == p[i].t->data_ptr(), what << ": no data");
      for (size_t e = 0; e < p[i].n(); e++) REQUIRE(memcmp(&p[i].t->data_ptr_const()[e], &(*p[i].d)[e], 4) == 0, what << ": element " << e << " is " << p[i].t->data_ptr_const()[e] << ", expected " << (*p[i].d)[e]);
    }
    for (size_t i = 0; i < p.size(); i++) for (size_t k = 0; k < i; k++) if (p[i].n() && p[k].n())
      REQUIRE((p[i].t->data_ptr() == p[k].t->data_ptr()) == (p[i].d == p[k].d), "slots " << k << " and " << i << (p[i].d == p[k].d ? " should share" : " should not share") << " storage after " << op);
  }
  // new content for freshly allocated (unspecified) storage
  void refill(size_t i, Vals v) { fill(*p[i].t, v); p[i].d = std::make_shared<std::vector<float>>(p[i].t->data_ptr(), p[i].t->data_ptr() + p[i].t->elements()); p[i].owner = true; }
  void model_resize(size_t i, size_t s, size_t w, size_t h, size_t m) { p[i].s = s; p[i].w = w; p[i].h = h; p[i].m = m; }
};

FACET(histories, 150000, 3000000, "at least eight operations, one of them on a shadow, moved or reshaped tensor") {
  Pool P(g, 4); auto& p = P.p; size_t steps = 2 + g.small(0, 28); bool special = false;
  for (size_t k = 0; k < steps; k++) {
    size_t i = g.below(p.size()), j = g.below(p.size()); std::ostringstream op;
    switch (g.weighted({5, 2, 3, 3, 2, 2, 3, 5, 4, 2, 3, 1})) {
      case 0: {  // resize
        size_t s = upto(g, 4, 20), w = upto(g, 7, 60), h = upto(g, 7, 60), m = upto(g, 4, 20); unsigned how = (unsigned)g.below(4);
        if (how == 0 && p[j].n()) { s = p[j].s; w = p[j].w; h = p[j].h; m = p[j].m; }
        if (how == 1 && g.chance(1, 3)) s = 0;
        Vals v = gen_vals(g, 4); op << "resize(" << i << "," << s << "s@" << w << "x" << h << "x" << m << ")";
        size_t n = s * w * h * m; bool keeps = p[i].d && p[i].n() == n;
        if (!keeps) P.release_shadows(i);
        if (how == 0 && p[j].n()) p[i].t->Resize(*p[j].t); else p[i].t->Resize(s, w, h, m);
        if (keeps) { P.model_resize(i, s, w, h, m); special = true; g.label("resize keeps contents"); }
        else if (n == 0) P.drop_model(i);
        else { P.model_resize(i, s, w, h, m); require_shape(*p[i].t, s, w, h, m, op.str()); P.refill(i, v); }
        break; }
      case 1: {  // transpose
        op << "transpose(" << i << ")";
        p[i].t->Transpose();
        if (p[i].n()) { std::vector<float> o(*p[i].d); size_t w = p[i].w, h = p[i].h;
          for (size_t q = 0; q < p[i].s * p[i].m; q++) for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) (*p[i].d)[q * w * h + x * h + y] = o[q * w * h + y * w + x];
          std::swap(p[i].w, p[i].h); if (w != h && w > 1 && h > 1) g.label("transpose, not square"); }
        break; }
      case 2: {  // reshape, matching or not
        size_t s = p[i].s, w = p[i].w, h = p[i].h, m = p[i].m;
        if (p[i].n()) switch (g.below(5)) {
          case 0: std::swap(w, h); break; case 1: std::swap(s, m); break; case 2: w = w * h; h = 1; break;
          case 3: { size_t a[4] = {s, w, h, m}; size_t x = g.below(4), y = g.below(4); a[x] *= a[y]; if (x != y) a[y] = 1; s = a[0]; w = a[1]; h = a[2]; m = a[3]; break; }
          default: s = 1 + g.below(4); w = 1 + g.below(6); }
        else { s = g.below(2); w = h = m = 1; }
        bool fits = p[i].d && s * w * h * m == p[i].n(); op << "reshape(" << i << "," << s << "s@" << w << "x" << h << "x" << m << ")";
        bool r = p[i].t->Reshape(s, w, h, m);
        REQUIRE(r == fits, op.str() << (r ? " succeeded" : " failed"));
        if (fits) { P.model_resize(i, s, w, h, m); special = true; } g.label(fits ? "reshape ok" : "reshape refused");
        break; }
      case 3: {  // shadow
        if (i == j) continue;
        op << "shadow(" << i << "->" << j << ")";
        if (p[i].d && p[i].d == p[j].d && p[i].owner) continue;  // j sees i's data, which would be released
        P.release_shadows(i);
        if (!p[j].d) { continue; }
        p[i].t->Shadow(*p[j].t); P.model_resize(i, p[j].s, p[j].w, p[j].h, p[j].m); p[i].d = p[j].d; p[i].owner = false; special = true; g.label("shadow");
        break; }
      case 4: {  // move
        op << "move(" << j << "->" << i << ")"; if (i == j) continue;
        P.release_shadows(i);
        // releasing may have emptied j when j was a shadow of i
        std::unique_ptr<Tensor> n(new Tensor(std::move(*p[j].t)));
        p[i].t = std::move(n); P.model_resize(i, p[j].s, p[j].w, p[j].h, p[j].m); p[i].d = p[j].d; p[i].owner = p[j].owner; P.drop_model(j); special = true; g.label("move");
        break; }
      case 5: {  // deep copy
        op << "copy(" << j << "->" << i << ")"; if (i == j) continue;
        std::unique_ptr<Tensor> n(new Tensor(*p[j].t, true));
        bool from_i = p[j].d && p[j].d == p[i].d; Slot sj; sj.s = p[j].s; sj.w = p[j].w; sj.h = p[j].h; sj.m = p[j].m; if (p[j].d) sj.d = std::make_shared<std::vector<float>>(*p[j].d); (void)from_i;
        P.release_shadows(i); p[i].t = std::move(n); P.model_resize(i, sj.s, sj.w, sj.h, sj.m); p[i].d = sj.d; p[i].owner = true;
        break; }
      case 6: {  // clear
        float v = (float)((int)g.below(9) - 4) / 2; int smp = -1; if (p[i].n() && g.coin()) smp = (int)g.below(p[i].s);
        op << "clear(" << i << "," << v << "," << smp << ")";
        if (smp < 0 && v == 0 && g.coin()) p[i].t->Clear(); else p[i].t->Clear(v, smp);
        if (p[i].n()) for (size_t e = 0; e < p[i].n(); e++) if (smp < 0 || e / (p[i].w * p[i].h * p[i].m) == (size_t)smp) (*p[i].d)[e] = v;
        break; }
      case 7: {  // copy sample
        size_t a = g.below(p[i].s + 2), b = g.below(p[j].s + 2); if (p[i].n() && !g.chance(1, 6)) a %= p[i].s; if (p[j].n() && !g.chance(1, 6)) b %= p[j].s;
        op << "copysample(" << i << "[" << a << "]->" << j << "[" << b << "])";
        bool alias = p[i].d && p[i].d == p[j].d && (i != j);
        if (alias && (p[i].s != p[j].s || p[i].w != p[j].w || p[i].h != p[j].h || p[i].m != p[j].m)) continue;  // overlapping different layouts
        bool dims = p[i].m == p[j].m && p[j].w >= p[i].w && p[j].h >= p[i].h; bool ok = dims && ((a < p[i].s && b < p[j].s) || p[i].m == 0);
        bool r = Tensor::CopySample(*p[i].t, a, *p[j].t, b);
        if (p[i].n() && p[j].n()) { REQUIRE(r == ok, op.str() << (r ? " accepted" : " refused")); }
        if (ok && p[i].n() && p[j].n()) { g.label(p[i].w == p[j].w && p[i].h == p[j].h ? "sample copied" : "sample copied and padded");
          for (size_t m = 0; m < p[i].m; m++) for (size_t y = 0; y < p[j].h; y++) for (size_t x = 0; x < p[j].w; x++) p[j].at(x, y, m, b) = x < p[i].w && y < p[i].h ? p[i].at(x, y, m, a) : 0; }
        else g.label("sample copy refused");
        break; }
      case 8: {  // copy map
        if (!p[i].n() || !p[j].n()) continue;
        size_t a = g.below(p[i].s + 1), b = g.below(p[j].s + 1), ma = g.below(p[i].m), mb = g.below(p[j].m);
        op << "copymap(" << i << "[" << a << "," << ma << "]->" << j << "[" << b << "," << mb << "])";
        bool alias = p[i].d == p[j].d && i != j;
        if (alias && (p[i].s != p[j].s || p[i].w != p[j].w || p[i].h != p[j].h || p[i].m != p[j].m)) continue;
        bool ok = p[j].w >= p[i].w && p[j].h >= p[i].h && a < p[i].s && b < p[j].s;
        bool r = Tensor::CopyMap(*p[i].t, a, ma, *p[j].t, b, mb);
        REQUIRE(r == ok, op.str() << (r ? " accepted" : " refused")); g.label(ok ? "map copied" : "map copy refused");
        if (ok) { std::vector<float> src(p[i].w * p[i].h); for (size_t y = 0; y < p[i].h; y++) for (size_t x = 0; x < p[i].w; x++) src[y * p[i].w + x] = p[i].at(x, y, ma, a);
          for (size_t y = 0; y < p[j].h; y++) for (size_t x = 0; x < p[j].w; x++) p[j].at(x, y, mb, b) = x < p[i].w && y < p[i].h ? src[y * p[i].w + x] : 0; }
        break; }
      case 9: {  // element writes through each accessor
        if (!p[i].n()) continue; size_t x = g.below(p[i].w), y = g.below(p[i].h), m = g.below(p[i].m), s = g.below(p[i].s); float v = (float)g.below(100) - 50;
        op << "write(" << i << ")"; size_t off = ((s * p[i].m + m) * p[i].h + y) * p[i].w + x;
        REQUIRE(p[i].t->Offset(x, y, m, s) == off, "offset of (" << x << "," << y << "," << m << "," << s << ") is " << p[i].t->Offset(x, y, m, s));
        switch (g.below(3)) { case 0: *p[i].t->data_ptr(x, y, m, s) = v; break; case 1: (*p[i].t)[off] = v; break; default: (*p[i].t)(off) = v; }
        REQUIRE(*p[i].t->data_ptr_const(x, y, m, s) == v, "value read back");
        p[i].at(x, y, m, s) = v;
        break; }
      case 10: {  // arg max queries
        if (!p[i].n()) continue; op << "max(" << i << ")"; auto& d = *p[i].d; size_t per = p[i].n() / p[i].s, s = g.below(p[i].s);
        size_t q = p[i].t->Maximum(s); REQUIRE(q < per, "Maximum() = " << q);
        for (size_t e = 0; e < per; e++) REQUIRE(d[s * per + e] <= d[s * per + q], "Maximum(" << s << ") = " << q << " holding " << d[s * per + q] << ", but " << d[s * per + e] << " is at " << e);
        q = p[i].t->AbsMaximum(); REQUIRE(q < p[i].n(), "AbsMaximum() = " << q);
        for (size_t e = 0; e < p[i].n(); e++) REQUIRE(std::fabs(d[e]) <= std::fabs(d[q]), "AbsMaximum() = " << q << " holding " << d[q] << ", but " << d[e] << " is at " << e);
        size_t x = g.below(p[i].w), y = g.below(p[i].h); q = p[i].t->PixelMaximum(x, y, s); REQUIRE(q < p[i].m, "PixelMaximum() = " << q);
        for (size_t m = 0; m < p[i].m; m++) REQUIRE(p[i].at(x, y, m, s) <= p[i].at(x, y, q, s), "PixelMaximum(" << x << "," << y << "," << s << ") = " << q << " holding " << p[i].at(x, y, q, s) << ", but map " << m << " holds " << p[i].at(x, y, m, s));
        break; }
      default: {  // release
        op << "delete(" << i << ")"; P.release_shadows(i); p[i].t->DeleteIfPossible(); P.drop_model(i); }
    }
    g.note() << " " << op.str();
    P.check(op.str());
  }
  if (steps >= 8 && special) g.nontrivial();
  for (auto& s : p) if (!s.owner) s.t.reset();  // shadows first
}

FACET(argmax, 150000, 3000000, "all values of the sample are negative, or the maximum is unique and not first") {
  size_t s = upto(g, 3, 20), w = upto(g, 5, 40), h = upto(g, 5, 40), m = upto(g, 4, 30); Tensor t(s, w, h, m);
  unsigned kind = (unsigned)g.below(4); uint64_t sd = g.below(1 << 20); pbt::Rng r(sd * 4 + kind); g.note() << shape(t) << " kind" << kind << "#" << sd;
  for (size_t e = 0; e < t.elements(); e++) switch (kind) {
    case 0: t[e] = (float)-r.unit() - 1e-6f; break; case 1: t[e] = -(float)r.below(3) - 1; break; case 2: t[e] = (float)(2 * r.unit() - 1); break;
    default: { float f; do f = any_float(r); while (!std::isfinite(f)); t[e] = f; } }
  for (size_t k = 0; k < s; k++) {
    size_t per = w * h * m, q = t.Maximum(k); REQUIRE(q < per, "Maximum(" << k << ") = " << q); if (q || kind < 2) g.nontrivial();
    for (size_t e = 0; e < per; e++) REQUIRE(t[k * per + e] <= t[k * per + q], "Maximum(" << k << ") = " << q << " holding " << t[k * per + q] << ", but element " << e << " is " << t[k * per + e]);
    for (size_t y = 0; y < h; y++) for (size_t x = 0; x < w; x++) { q = t.PixelMaximum(x, y, k); REQUIRE(q < m, "PixelMaximum = " << q);
      for (size_t c = 0; c < m; c++) REQUIRE(*t.data_ptr(x, y, c, k) <= *t.data_ptr(x, y, q, k), "PixelMaximum(" << x << "," << y << "," << k << ") = " << q << " holding " << *t.data_ptr(x, y, q, k) << ", but map " << c << " holds " << *t.data_ptr(x, y, c, k)); }
  }
  size_t q = t.AbsMaximum(); for (size_t e = 0; e < t.elements(); e++) REQUIRE(std::fabs(t[e]) <= std::fabs(t[q]), "AbsMaximum() = " << q << " holding " << t[q] << ", but element " << e << " is " << t[e]);
}
