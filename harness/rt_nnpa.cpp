// N01, N02: conversions to and from dlfloat16 and stickified constants.
#include "src/Accelerators/NNPA/Support/Stickify/Convert.hpp"
#include "src/Accelerators/NNPA/Support/Stickify/Stickify.hpp"
#include "pbt.hpp"
#include <cmath>
using namespace pbt;

namespace llvm { // what llvm_unreachable calls
void llvm_unreachable_internal(const char *m, const char *, unsigned) {
  fprintf(stderr, "unreachable reached: %s\n", m ? m : "");
  abort();
}
} // namespace llvm

// ---- dlfloat16: 1 sign, 6 exponent (bias 31), 9 fraction bits -----------
static const double DMAX = ldexp(1 + 510.0 / 512, 32);

static uint16_t refEnc(float f) {
  uint32_t b;
  memcpy(&b, &f, 4);
  uint16_t s = (b >> 31) << 15;
  if (std::isnan(f))
    return s | 0x7fff;
  double a = std::fabs((double)f);
  if (a >= DMAX)
    return s | 0x7ffe;
  // The code for 2^-31 is the code for zero.
  if (a < ldexp(1 + 1.0 / 1024, -31))
    return s;
  int e = std::ilogb(a);
  double m = std::floor((a / ldexp(1, e) - 1) * 512 + 0.5);
  if (m >= 512) {
    m = 0;
    ++e;
  }
  return s | (uint16_t)((e + 31) << 9) | (uint16_t)m;
}
static float refDec(uint16_t u) {
  int e = (u >> 9) & 63, m = u & 511;
  double v;
  if ((u & 0x7fff) == 0)
    v = 0;
  else if ((u & 0x7fff) == 0x7fff)
    return NAN;
  else
    v = ldexp(1 + m / 512.0, e - 31);
  return (float)(u >> 15 ? -v : v);
}
static uint32_t fb(float f) {
  uint32_t b;
  memcpy(&b, &f, 4);
  return b;
}
static float bf(uint32_t b) {
  float f;
  memcpy(&f, &b, 4);
  return f;
}

static float genFloat(Src &s, bool special) {
  switch (s.weighted({4, 4, 3, 2, 1})) {
  case 0:
    return (float)(s.range(-2000, 2000) / 64.0);
  case 1: { // around a code or the middle of two
    uint16_t u = (uint16_t)s.draw(0x7fff);
    double v = refDec(u);
    if (s.chance(60))
      v = (v + (u + 1 >= 0x7fff ? 2 * DMAX : (double)refDec(u + 1))) / 2;
    uint32_t b = fb((float)v) + (int)s.range(-2, 2);
    float f = bf(b & 0x7fffffff);
    if (!std::isfinite(f))
      f = 0;
    return s.chance(50) ? -f : f;
  }
  case 2: { // any finite
    float f = bf((uint32_t)s.bits());
    return std::isfinite(f) ? f : 1;
  }
  case 3: { // the ends of the range
    static const std::vector<float> E = {0.f, -0.f, ldexpf(1, -31),
        ldexpf(1, -32), ldexpf(1, 33), -ldexpf(1, 33), (float)DMAX,
        (float)-DMAX, 3.4028235e38f, -3.4028235e38f, 1e-45f, -1e-45f, 1.f,
        -1.f, ldexpf(1 + 1.f / 512, -31), ldexpf(1 + 1.f / 1024, -31)};
    return s.pick(E);
  }
  default: {
    if (!special)
      return 1;
    static const std::vector<float> E = {
        INFINITY, -INFINITY, NAN, -NAN, bf(0x7f800001), bf(0xffffffff)};
    return s.pick(E);
  }
  }
}

static void prop_dlf16(Src &s) {
  if (s.chance(3)) { // every code
    std::vector<uint16_t> c(65536), d(65536, 0x5555);
    std::vector<float> f(65536);
    for (int i = 0; i < 65536; ++i)
      c[i] = i;
    PCHECK(dlf16_to_fp32(c.data(), f.data(), 65536) == 65536, "count");
    for (int i = 0; i < 65536; ++i) {
      float r = refDec(i);
      PCHECK((std::isnan(r) && std::isnan(f[i])) || fb(r) == fb(f[i]),
          "code 0x%04x is %a, decoded as %a", i, r, f[i]);
    }
    PCHECK(fp32_to_dlf16(f.data(), d.data(), 65536) == 65536, "count");
    for (int i = 0; i < 65536; ++i) {
      PCHECK(d[i] == i || ((i & 0x7fff) == 0x7fff && (d[i] & 0x7fff) == 0x7fff),
          "code 0x%04x (%a) encodes as 0x%04x", i, f[i], d[i]);
    }
    s.nontrivial();
    s.label("all-codes");
    s.countEvals(65536);
    return;
  }
  size_t n = s.draw(70);
  float *f = (float *)malloc(n * 4 + !n);
  uint16_t *d = (uint16_t *)malloc(n * 2 + !n);
  float *back = (float *)malloc(n * 4 + !n);
  std::vector<float> in(n);
  for (size_t i = 0; i < n; ++i)
    in[i] = f[i] = genFloat(s, true);
  s.note("%zu values:", n);
  for (size_t i = 0; i < n && i < 4; ++i)
    s.note(" %a", in[i]);
  if (n > 1)
    s.nontrivial();
  PCHECK(fp32_to_dlf16(f, d, n) == n, "count");
  PCHECK(dlf16_to_fp32(d, back, n) == n, "count");
  for (size_t i = 0; i < n; ++i) {
    PCHECK(fb(f[i]) == fb(in[i]), "input %zu changed", i);
    uint16_t r = refEnc(in[i]);
    bool nan = std::isnan(in[i]);
    PCHECK(nan ? (d[i] & 0x7fff) == 0x7fff : d[i] == r,
        "%a (%zu of %zu) encodes as 0x%04x, expected 0x%04x", in[i], i, n, d[i],
        r);
    float q = refDec(d[i]);
    PCHECK(nan ? std::isnan(back[i]) : fb(q) == fb(back[i]),
        "0x%04x decodes as %a, expected %a", d[i], back[i], q);
  }
  free(f);
  free(d);
  free(back);
  s.countEvals(n);
}

// ---- stickification ------------------------------------------------------
static uint64_t up(uint64_t a, uint64_t b) { return (a + b - 1) / b; }

struct Buf { // 4K aligned, exact size
  char *p = nullptr;
  size_t n;
  Buf(size_t n, int fill) : n(n) {
    PCHECK(posix_memalign((void **)&p, 4096, n) == 0, "memory");
    memset(p, fill, n);
  }
  ~Buf() { free(p); }
};

struct Lay {
  zdnn_data_layouts l;
  const char *name;
  int rank;
  int map[4]; // which pre-transformed axis is e4, e3, e2, e1 (-1: size 1)
};
static const Lay LAY[] = {
    {ZDNN_2D, "2D", 2, {-1, -1, 0, 1}},
    {ZDNN_1D, "1D", 1, {-1, -1, -1, 0}},
    {ZDNN_2DS, "2DS", 2, {0, -1, -1, 1}},
    {ZDNN_3D, "3D", 3, {-1, 0, 1, 2}},
    {ZDNN_3DS, "3DS", 3, {0, -1, 1, 2}},
    {ZDNN_4D, "4D", 4, {0, 1, 2, 3}},
    {ZDNN_NHWC, "NHWC", 4, {0, 1, 2, 3}},
    {ZDNN_NCHW, "NCHW", 4, {0, 2, 3, 1}},
    {ZDNN_HWCK, "HWCK", 4, {0, 1, 2, 3}},
};

static int64_t genDim(Src &s) {
  switch (s.weighted({5, 2, 2})) {
  case 0:
    return 1 + s.draw(5);
  case 1:
    return 1 + s.draw(70);
  default: {
    static const std::vector<int64_t> E = {
        31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 130, 192, 200};
    return s.pick(E);
  }
  }
}

static zdnn_tensor_desc garbageDesc() {
  zdnn_tensor_desc d;
  memset(&d, 0x5a, sizeof d);
  d.layout = ZDNN_NHWC;
  d.format = ZDNN_FORMAT_4DFEATURE;
  d.type = ZDNN_DLFLOAT16;
  return d;
}

static void checkDesc(const char *what, const zdnn_tensor_desc &d,
    zdnn_data_layouts l, zdnn_data_formats f, zdnn_data_types t, uint64_t d4,
    uint64_t d3, uint64_t d2, uint64_t d1) {
  PCHECK(d.layout == l && d.format == f && d.type == t, "%s: layout %d format "
      "%d type %d, expected %d %d %d", what, d.layout, d.format, d.type, l, f,
      t);
  PCHECK(d.dim4 == d4 && d.dim3 == d3 && d.dim2 == d2 && d.dim1 == d1,
      "%s: dims (%u, %u, %u, %u), expected (%d, %d, %d, %d)", what, d.dim4,
      d.dim3, d.dim2, d.dim1, (int)d4, (int)d3, (int)d2, (int)d1);
}

static bool sameDesc(const zdnn_tensor_desc &a, const zdnn_tensor_desc &b) {
  return a.layout == b.layout && a.format == b.format && a.type == b.type &&
         a.dim4 == b.dim4 && a.dim3 == b.dim3 && a.dim2 == b.dim2 &&
         a.dim1 == b.dim1;
}

// The page, stick and cell of an element in 2-byte cells.
static uint64_t cellOf(bool kernel, const uint64_t d[4], const uint64_t e[4]) {
  uint64_t c1 = up(d[3], 64), c2 = up(d[2], 32), page;
  if (kernel)
    page = (((e[3] / 64) * d[0] + e[0]) * d[1] + e[1]) * c2 + e[2] / 32;
  else
    page = ((e[0] * c1 + e[3] / 64) * d[1] + e[1]) * c2 + e[2] / 32;
  return page * 2048 + (e[2] % 32) * 64 + e[3] % 64;
}

// Calls with something wrong are refused and write nothing.
static void refusals(Src &s, zdnn_ztensor &zt, Buf &b, const void *in,
    uint64_t size) {
  zdnn_ztensor w = zt;
  zdnn_tensor_desc pre = *zt.pre_transformed_desc, tf = *zt.transformed_desc;
  w.pre_transformed_desc = &pre;
  w.transformed_desc = &tf;
  zdnn_status want = ZDNN_OK;
  const char *what = "";
  switch (s.draw(8)) {
  case 0:
    w.buffer = nullptr, want = ZDNN_INVALID_BUFFER, what = "no buffer";
    break;
  case 1:
    w.buffer = b.p + (1 << s.draw(12)), want = ZDNN_INVALID_BUFFER,
    what = "misaligned buffer";
    break;
  case 2:
    w.buffer_size = s.chance(50) ? size - 1 : s.draw(size),
    want = ZDNN_INVALID_BUFFER, what = "small buffer";
    break;
  case 3:
    w.is_transformed = true, want = ZDNN_INVALID_STATE,
    what = "already stickified";
    break;
  case 4: {
    static const std::vector<zdnn_data_layouts> L = {ZDNN_FICO, ZDNN_ZRH,
        ZDNN_BIDIR_FICO, ZDNN_BIDIR_ZRH};
    pre.layout = s.pick(L), want = ZDNN_INVALID_LAYOUT,
    what = "pre-transformed layout";
    break;
  }
  case 5: {
    static const std::vector<zdnn_data_types> T = {
        ZDNN_DLFLOAT16, ZDNN_BINARY_FP32, ZDNN_BINARY_INT8, INT32};
    pre.type = s.pick(T), want = ZDNN_INVALID_TYPE, what = "input type";
    break;
  }
  case 6: {
    static const std::vector<zdnn_data_types> T = {FP32, INT8, ZDNN_BINARY_FP32};
    tf.type = s.pick(T), want = ZDNN_INVALID_TYPE, what = "transformed type";
    break;
  }
  default:
    if (tf.layout == ZDNN_HWCK)
      tf.format = s.chance(50) ? ZDNN_FORMAT_4DFEATURE : ZDNN_FORMAT_4DWEIGHTS;
    else if (tf.layout == ZDNN_NHWC)
      tf.format = ZDNN_FORMAT_4DKERNEL;
    else
      tf.format = s.chance(50) ? ZDNN_FORMAT_4DKERNEL : ZDNN_FORMAT_4DWEIGHTS;
    want = ZDNN_INVALID_LAYOUT, what = "format and layout";
    break;
  }
  s.label(std::string("refused: ") + what);
  bool was = w.is_transformed;
  zdnn_status st = stickify(&w, in, in, in, in);
  PCHECK(st == want, "%s: status 0x%x, expected 0x%x", what, st, want);
  PCHECK(w.is_transformed == was, "%s: marked as stickified", what);
  for (size_t i = 0; i < b.n; ++i)
    PCHECK((unsigned char)b.p[i] == 0xab, "%s: buffer written", what);
}

static void plain(Src &s) {
  const Lay &L = LAY[s.draw(9)];
  int64_t sh[4];
  uint64_t n = 1;
  for (int i = 0; i < L.rank; ++i) {
    sh[i] = genDim(s);
    while (n * sh[i] > 30000)
      sh[i] = sh[i] / 2 + (sh[i] == 1 ? 0 : 0);
    if (sh[i] < 1)
      sh[i] = 1;
    n *= sh[i];
  }
  bool kernel = L.l == ZDNN_HWCK;
  uint64_t d[4];
  for (int i = 0; i < 4; ++i)
    d[i] = L.map[i] < 0 ? 1 : sh[L.map[i]];
  uint64_t size = d[0] * d[1] * up(d[2], 32) * up(d[3], 64) * 4096;
  if (size > (4 << 20))
    throw Discard();
  s.note("%s (", L.name);
  for (int i = 0; i < L.rank; ++i)
    s.note("%d%s", (int)sh[i], i + 1 < L.rank ? ", " : ")");
  s.label(L.name);
  if (d[2] > 32 || d[3] > 64)
    s.nontrivial();

  zdnn_tensor_desc pre = garbageDesc(), tf = garbageDesc();
  set_info_pre_transformed_desc(
      &pre, L.l, FP32, llvm::ArrayRef<int64_t>(sh, L.rank));
  PCHECK(pre.layout == L.l && pre.type == FP32, "pre-transformed descriptor");
  for (int i = 0; i < L.rank; ++i)
    PCHECK((&pre.dim4)[4 - L.rank + i] == sh[i], "size of axis %d", i);
  zdnn_tensor_desc pre0 = pre;
  PCHECK(generate_transformed_desc(&pre, &tf) == ZDNN_OK, "descriptor");
  PCHECK(sameDesc(pre, pre0), "pre-transformed descriptor changed");
  checkDesc(L.name, tf, kernel ? ZDNN_HWCK : ZDNN_NHWC,
      kernel ? ZDNN_FORMAT_4DKERNEL : ZDNN_FORMAT_4DFEATURE, ZDNN_DLFLOAT16,
      d[0], d[1], d[2], d[3]);

  zdnn_ztensor zt;
  memset(&zt, 0x5a, sizeof zt);
  init_ztensor(&pre, &tf, &zt);
  PCHECK(zt.pre_transformed_desc == &pre && zt.transformed_desc == &tf &&
             !zt.is_transformed, "init_ztensor");
  if (s.chance(15)) {
    PCHECK(allochelper_ztensor_alloc(&zt) == ZDNN_OK, "allocation");
    PCHECK(zt.buffer && ((uintptr_t)zt.buffer & 4095) == 0, "alignment");
    PCHECK(zt.buffer_size == size, "size %d, expected %d", (int)zt.buffer_size,
        (int)size);
    memset(zt.buffer, 0x77, size);
    allochelper_ztensor_free(&zt);
    PCHECK(!zt.buffer && !zt.buffer_size, "free");
  }
  size_t extra = s.chance(20) ? 4096 : 0;
  Buf b(size + extra, 0xab);
  zt.buffer = b.p;
  zt.buffer_size = size + extra;
  float *in = (float *)malloc(n * 4);
  std::unique_ptr<float, void (*)(void *)> own(in, free);
  unsigned dense = s.draw(3);
  uint32_t r = (uint32_t)s.draw(1 << 16);
  for (uint64_t i = 0; i < n; ++i)
    in[i] = dense || i > 200 ? ((int)((i * 2654435761u + r) >> 16 & 0x3fff) -
                                   8192) / 32.0f
                             : genFloat(s, false);
  std::vector<float> copy(in, in + n);
  if (s.chance(15)) {
    refusals(s, zt, b, in, size);
  }
  zdnn_tensor_desc tf0 = tf;
  PCHECK(stickify(&zt, in) == ZDNN_OK, "stickify refused");
  PCHECK(zt.is_transformed, "not marked as stickified");
  PCHECK(sameDesc(tf, tf0) && sameDesc(pre, pre0), "descriptors changed");
  PCHECK(!memcmp(in, copy.data(), n * 4), "input changed");
  std::vector<uint16_t> want(size / 2, 0);
  uint64_t st[4];
  uint64_t a = 1;
  for (int i = L.rank - 1; i >= 0; --i) {
    st[i] = a;
    a *= sh[i];
  }
  uint64_t e[4];
  for (e[0] = 0; e[0] < d[0]; ++e[0])
    for (e[1] = 0; e[1] < d[1]; ++e[1])
      for (e[2] = 0; e[2] < d[2]; ++e[2])
        for (e[3] = 0; e[3] < d[3]; ++e[3]) {
          uint64_t k = 0;
          for (int i = 0; i < 4; ++i)
            if (L.map[i] >= 0)
              k += e[i] * st[L.map[i]];
          want[cellOf(kernel, d, e)] = refEnc(in[k]);
        }
  const uint16_t *g = (const uint16_t *)b.p;
  for (uint64_t i = 0; i < size / 2; ++i)
    PCHECK(g[i] == want[i],
        "%s: page %d stick %d cell %d is 0x%04x, expected 0x%04x", L.name,
        (int)(i / 2048), (int)(i % 2048 / 64), (int)(i % 64), g[i], want[i]);
  for (size_t i = size; i < b.n; ++i)
    PCHECK((unsigned char)b.p[i] == 0xab, "written past the tensor");
  s.countEvals(n);
}

static void concatenated(Src &s) {
  bool lstm = s.chance(50), bidir = s.chance(40);
  int usage = (int)s.draw(4);
  static const uint32_t U[] = {
      USAGE_WEIGHTS, USAGE_BIASES, USAGE_HIDDEN_WEIGHTS, USAGE_HIDDEN_BIASES};
  zdnn_concat_info info = (lstm ? RNN_TYPE_LSTM : RNN_TYPE_GRU) |
                          (bidir ? PREV_LAYER_BIDIR : PREV_LAYER_UNI) |
                          U[usage];
  bool bias = usage & 1, vert = usage == 0 && bidir;
  int gates = lstm ? 4 : 3;
  int64_t dirs = 1 + s.draw(3), rows = bias ? 1 : genDim(s), h = genDim(s);
  if (vert && s.chance(90))
    rows = (rows + 1) / 2 * 2;
  while (rows * h * dirs > 12000)
    h = (h + 1) / 2;
  std::vector<int64_t> sh;
  if (bias)
    sh = {dirs, h};
  else
    sh = {dirs, rows, h};
  zdnn_data_layouts pl = bias ? ZDNN_2DS : ZDNN_3DS;
  s.note("%s usage %d %s (%d, %d, %d)", lstm ? "lstm" : "gru", usage,
      bidir ? "bidir" : "uni", (int)dirs, (int)rows, (int)h);
  zdnn_tensor_desc pre = garbageDesc(), tf = garbageDesc();
  set_info_pre_transformed_desc(&pre, pl, FP32, sh);
  if (s.chance(8)) {
    // a layout that does not fit
    zdnn_tensor_desc p2 = pre;
    p2.layout = bias ? ZDNN_3DS : ZDNN_2DS;
    p2.dim2 = 2;
    PCHECK(generate_transformed_desc_concatenated(&p2, info, &tf) ==
               ZDNN_INVALID_LAYOUT, "layout that does not fit");
  }
  if (s.chance(4)) {
    PCHECK(generate_transformed_desc_concatenated(
               &pre, info | (4 << 8), &tf) == ZDNN_INVALID_CONCAT_INFO,
        "unknown usage");
  }
  zdnn_status stt = generate_transformed_desc_concatenated(&pre, info, &tf);
  if (vert && rows % 2) {
    PCHECK(stt == ZDNN_INVALID_SHAPE, "odd size: status 0x%x", stt);
    s.label("odd refused");
    return;
  }
  PCHECK(stt == ZDNN_OK, "status 0x%x", stt);
  uint64_t ph = up(h, 64) * 64, prow = up(rows / 2, 64) * 64;
  uint64_t d[4] = {(uint64_t)dirs, 1, vert ? 2 * prow : (uint64_t)rows,
      ph * gates};
  checkDesc("concatenated", tf,
      vert ? (lstm ? ZDNN_BIDIR_FICO : ZDNN_BIDIR_ZRH)
           : (lstm ? ZDNN_FICO : ZDNN_ZRH),
      ZDNN_FORMAT_4DFEATURE, ZDNN_DLFLOAT16, d[0], d[1], d[2], d[3]);
  uint64_t size = d[0] * up(d[2], 32) * (d[3] / 64) * 4096;
  s.label(std::string(lstm ? "lstm" : "gru") + (vert ? " bidir" : ""));
  if (dirs > 1)
    s.nontrivial();
  zdnn_ztensor zt;
  init_ztensor(&pre, &tf, &zt);
  Buf b(size, 0xab);
  zt.buffer = b.p;
  zt.buffer_size = size;
  uint64_t n = (uint64_t)dirs * rows * h;
  std::vector<std::unique_ptr<float, void (*)(void *)>> own;
  float *in[4] = {nullptr, nullptr, nullptr, nullptr};
  for (int g = 0; g < gates; ++g) {
    own.emplace_back((float *)malloc(n * 4), free);
    in[g] = own.back().get();
    for (uint64_t i = 0; i < n; ++i)
      in[g][i] = ((int)((i * 2654435761u + g * 77777) >> 16 & 0x3fff) - 8192) /
                 32.0f;
    if (n < 30)
      for (uint64_t i = 0; i < n; ++i)
        in[g][i] = genFloat(s, false);
  }
  if (s.chance(15))
    refusals(s, zt, b, in[0], size);
  zdnn_tensor_desc tf0 = tf, pre0 = pre;
  stt = lstm ? stickify(&zt, in[0], in[1], in[2], in[3])
             : stickify(&zt, in[0], in[1], in[2]);
  PCHECK(stt == ZDNN_OK, "stickify: 0x%x", stt);
  PCHECK(zt.is_transformed && zt.buffer == b.p && zt.buffer_size == size,
      "ztensor after stickify");
  PCHECK(sameDesc(tf, tf0) && sameDesc(pre, pre0), "descriptors changed");
  std::vector<uint16_t> want(size / 2, 0);
  for (int64_t k = 0; k < dirs; ++k)
    for (int g = 0; g < gates; ++g)
      for (int64_t r = 0; r < rows; ++r)
        for (int64_t j = 0; j < h; ++j) {
          uint64_t row = vert ? (r / (rows / 2)) * prow + r % (rows / 2) : r;
          uint64_t e[4] = {(uint64_t)k, 0, row, g * ph + j};
          want[cellOf(false, d, e)] = refEnc(in[g][(k * rows + r) * h + j]);
        }
  const uint16_t *g = (const uint16_t *)b.p;
  for (uint64_t i = 0; i < size / 2; ++i)
    PCHECK(g[i] == want[i], "page %d stick %d cell %d is 0x%04x, expected "
        "0x%04x", (int)(i / 2048), (int)(i % 2048 / 64), (int)(i % 64), g[i],
        want[i]);
  s.countEvals(n * gates);
}

static void quantized(Src &s) {
  const Lay &L = LAY[s.pick(std::vector<int>{0, 3, 4, 5})];
  int64_t sh[4];
  uint64_t n = 1;
  for (int i = 0; i < L.rank; ++i) {
    sh[i] = genDim(s);
    while (n * sh[i] > 30000)
      sh[i] = (sh[i] + 1) / 2;
    n *= sh[i];
  }
  uint64_t d[4];
  for (int i = 0; i < 4; ++i)
    d[i] = L.map[i] < 0 ? 1 : sh[L.map[i]];
  zdnn_tensor_desc pre = garbageDesc(), tf = garbageDesc();
  set_info_pre_transformed_desc(
      &pre, L.l, INT8, llvm::ArrayRef<int64_t>(sh, L.rank));
  static const zdnn_quantized_transform_types Q[] = {
      QUANTIZED_DLFLOAT16, QUANTIZED_INT8, QUANTIZED_WEIGHTS_INT8};
  for (int q = 0; q < 3; ++q) {
    PCHECK(generate_quantized_transformed_desc(&pre, Q[q], &tf) == ZDNN_OK,
        "quantized descriptor");
    checkDesc("quantized", tf, ZDNN_NHWC,
        q == 2 ? ZDNN_FORMAT_4DWEIGHTS : ZDNN_FORMAT_4DFEATURE,
        q == 0 ? ZDNN_DLFLOAT16 : ZDNN_BINARY_INT8, d[0], d[1], d[2], d[3]);
  }
  uint64_t cp = up(up(d[2], 2), 32), c1 = up(d[3], 64);
  uint64_t size = d[0] * d[1] * cp * c1 * 4096;
  if (size > (4 << 20))
    throw Discard();
  s.note("weights %s (%d, %d, %d, %d)", L.name, (int)d[0], (int)d[1],
      (int)d[2], (int)d[3]);
  s.label("quantized");
  if (d[2] > 2 && d[3] > 64)
    s.nontrivial();
  zdnn_ztensor zt;
  init_ztensor(&pre, &tf, &zt);
  if (s.chance(15)) {
    PCHECK(allochelper_ztensor_alloc(&zt) == ZDNN_OK, "allocation");
    PCHECK(zt.buffer_size == size, "size %d, expected %d", (int)zt.buffer_size,
        (int)size);
    allochelper_ztensor_free(&zt);
  }
  Buf b(size, 0);
  zt.buffer = b.p;
  zt.buffer_size = size;
  std::unique_ptr<int8_t, void (*)(void *)> own((int8_t *)malloc(n), free);
  int8_t *in = own.get();
  uint32_t r = (uint32_t)s.draw(1 << 16);
  for (uint64_t i = 0; i < n; ++i)
    in[i] = (int8_t)((i * 2654435761u + r) >> 13);
  PCHECK(quantized_stickify(&zt, in) == ZDNN_OK, "refused");
  PCHECK(zt.is_transformed, "not marked as stickified");
  std::vector<int8_t> want(size, 0);
  uint64_t k = 0;
  for (uint64_t a = 0; a < d[0]; ++a)
    for (uint64_t c = 0; c < d[1]; ++c)
      for (uint64_t w = 0; w < d[2]; ++w)
        for (uint64_t x = 0; x < d[3]; ++x, ++k) {
          uint64_t p = w / 2;
          uint64_t off =
              ((((a * c1 + x / 64) * d[1] + c) * cp + p / 32) * 32 + p % 32) *
                  128 + (x % 64) * 2;
          want[off + (w & 1)] = in[k];
          if (w + 1 == d[2] && !(w & 1))
            want[off + 1] = in[k];
        }
  for (uint64_t i = 0; i < size; ++i)
    PCHECK(b.p[i] == want[i], "byte %d of page %d is %d, expected %d",
        (int)(i % 4096), (int)(i / 4096), b.p[i], want[i]);
  s.countEvals(n);
}

static void prop_stickify(Src &s) {
  switch (s.weighted({5, 3, 2})) {
  case 0:
    return plain(s);
  case 1:
    return concatenated(s);
  default:
    return quantized(s);
  }
}

int main(int argc, char **argv) {
  return mainFor({{"dlf16", prop_dlf16, nullptr},
                     {"stickify", prop_stickify, nullptr}},
      argc, argv);
}
