// N03: the tiling layer over zDNN. A stand-in accelerator with small limits
// executes tiles of stickified tensors; what zdnnx computes through it must
// equal the same operation on the whole tensors.
#include "pbt.hpp"
#include <dlfcn.h>
#include <unistd.h>
extern "C" {
#include "zdnn.h"
#include "src/Accelerators/NNPA/Runtime/zdnnx/zdnnx.h"
#include "src/Accelerators/NNPA/Runtime/zdnnx/zdnnx_ops.h"
}
#include <atomic>
using namespace pbt;

// ---- the stand-in accelerator -------------------------------------------
static uint32_t gMax[5]; // by dimension number, 1..4
static uint64_t gMaxSize;
static std::atomic<int> gCalls, gFailAt;
static std::atomic<bool> gBad;
static char gWhy[300];
static bool gTelum1;

static zdnn_status bad(zdnn_status st, const char *fmt, ...) {
  if (!gBad.exchange(true)) {
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(gWhy, sizeof gWhy, fmt, ap);
    va_end(ap);
  }
  return st;
}

static uint64_t up(uint64_t a, uint64_t b) { return (a + b - 1) / b; }

struct V { // a stickified 2-byte tensor
  uint16_t *p;
  uint32_t d[4];
  uint64_t c1, c2;
  explicit V(const zdnn_ztensor *t) {
    const zdnn_tensor_desc *x = t->transformed_desc;
    p = (uint16_t *)t->buffer;
    d[0] = x->dim4, d[1] = x->dim3, d[2] = x->dim2, d[3] = x->dim1;
    c1 = up(d[3], 64), c2 = up(d[2], 32);
  }
  uint16_t &at(uint64_t a, uint64_t b, uint64_t c, uint64_t e) const {
    return p[((((a * c1 + e / 64) * d[1] + b) * c2 + c / 32) * 32 + c % 32) *
                 64 +
             e % 64];
  }
  bool same(const V &o) const { return !memcmp(d, o.d, sizeof d); }
};

extern "C" {
void zdnn_init() {}
bool zdnn_is_nnpa_installed() { return true; }
bool zdnn_is_nnpa_parmblk_fmt_installed(int, ...) { return !gTelum1; }
uint32_t zdnn_get_nnpa_max_dim_idx_size() {
  return std::min(std::min(gMax[1], gMax[2]), std::min(gMax[3], gMax[4]));
}
uint64_t zdnn_get_nnpa_max_tensor_size() { return gMaxSize; }
uint32_t zdnn_get_max_for_dim(uint8_t d) {
  return d >= 1 && d <= 4 ? gMax[d] : 0;
}
const char *zdnn_get_status_message(zdnn_status) { return "status"; }
uint64_t zdnn_getsize_ztensor(const zdnn_tensor_desc *t) {
  uint64_t sticks = t->dim2, cells = 64;
  if (t->type == ZDNN_BINARY_INT8) {
    if (t->format == ZDNN_FORMAT_4DWEIGHTS)
      sticks = up(t->dim2, 2);
    else
      cells = 128;
  }
  return (uint64_t)t->dim4 * t->dim3 * up(sticks, 32) * up(t->dim1, cells) *
         4096;
}
zdnn_status zdnn_generate_transformed_desc(
    const zdnn_tensor_desc *p, zdnn_tensor_desc *t) {
  uint32_t d4 = 1, d3 = 1, d2 = 1, d1 = p->dim1;
  zdnn_data_layouts l = ZDNN_NHWC;
  zdnn_data_formats f = ZDNN_FORMAT_4DFEATURE;
  switch (p->layout) {
  case ZDNN_1D: break;
  case ZDNN_2D: d2 = p->dim2; break;
  case ZDNN_2DS: d4 = p->dim2; break;
  case ZDNN_3D: d3 = p->dim3, d2 = p->dim2; break;
  case ZDNN_3DS: d4 = p->dim3, d2 = p->dim2; break;
  case ZDNN_4D:
  case ZDNN_NHWC: d4 = p->dim4, d3 = p->dim3, d2 = p->dim2; break;
  case ZDNN_NCHW:
    d4 = p->dim4, d3 = p->dim2, d2 = p->dim1, d1 = p->dim3;
    break;
  case ZDNN_HWCK:
    d4 = p->dim4, d3 = p->dim3, d2 = p->dim2, l = ZDNN_HWCK,
    f = ZDNN_FORMAT_4DKERNEL;
    break;
  default: return ZDNN_INVALID_LAYOUT;
  }
  t->dim4 = d4, t->dim3 = d3, t->dim2 = d2, t->dim1 = d1;
  t->layout = l, t->format = f, t->type = ZDNN_DLFLOAT16;
  return ZDNN_OK;
}
zdnn_status zdnn_generate_quantized_transformed_desc(const zdnn_tensor_desc *p,
    zdnn_quantized_transform_types q, zdnn_tensor_desc *t) {
  zdnn_status st = zdnn_generate_transformed_desc(p, t);
  if (st != ZDNN_OK)
    return st;
  t->format =
      q == QUANTIZED_WEIGHTS_INT8 ? ZDNN_FORMAT_4DWEIGHTS : ZDNN_FORMAT_4DFEATURE;
  t->type = q == QUANTIZED_DLFLOAT16 ? ZDNN_DLFLOAT16 : ZDNN_BINARY_INT8;
  return ZDNN_OK;
}
zdnn_status zdnn_free_ztensor_buffer(const zdnn_ztensor *t) {
  if (t->buffer)
    free(((void **)t->buffer)[-1]);
  return ZDNN_OK;
}
} // extern "C"

static bool usable(const char *op, const char *arg, const zdnn_ztensor *t) {
  const zdnn_tensor_desc *x = t->transformed_desc;
  if (!t->buffer || ((uintptr_t)t->buffer & 4095))
    return bad(ZDNN_MISALIGNED_TENSOR, "%s: buffer of %s misaligned", op, arg),
           false;
  const uint32_t d[] = {x->dim4, x->dim3, x->dim2, x->dim1};
  for (int i = 0; i < 4; ++i) {
    uint32_t m = gTelum1 ? zdnn_get_nnpa_max_dim_idx_size() : gMax[4 - i];
    if (d[i] == 0 || d[i] > m)
      return bad(ZDNN_EXCEEDS_MDIS,
                 "%s: dim%d of %s is %u, the accelerator's limit is %u", op,
                 4 - i, arg, d[i], m),
             false;
  }
  zdnn_tensor_desc r = *x;
  if (zdnn_generate_transformed_desc(t->pre_transformed_desc, &r) != ZDNN_OK ||
      r.dim4 != d[0] || r.dim3 != d[1] || r.dim2 != d[2] || r.dim1 != d[3])
    return bad(ZDNN_INVALID_SHAPE, "%s: descriptors of %s disagree", op, arg),
           false;
  if (t->buffer_size < zdnn_getsize_ztensor(x))
    return bad(ZDNN_INVALID_BUFFER, "%s: buffer of %s too small", op, arg),
           false;
  return true;
}
static bool failNow() {
  int k = gCalls++;
  return k == gFailAt;
}

// Deterministic functions on 16-bit codes, one per operation.
static uint16_t un(int op, uint32_t par, uint16_t x) {
  return (uint16_t)(x * (2 * op + 3) + 977 * op + par * 31 + (x >> 7));
}
static uint16_t bi(int op, uint16_t a, uint16_t b) {
  return (uint16_t)(a * (2 * op + 3) + b * (4 * op + 9) + 571 * op +
                    ((a ^ b) >> 5));
}
static uint32_t fbits(float f) {
  uint32_t b;
  memcpy(&b, &f, 4);
  return b;
}

static zdnn_status unary(
    const char *n, int op, uint32_t par, const zdnn_ztensor *a, zdnn_ztensor *o) {
  if (failNow())
    return ZDNN_UNSUPPORTED_AIU_EXCEPTION;
  if (!usable(n, "the input", a) || !usable(n, "the output", o))
    return ZDNN_INVALID_SHAPE;
  V x(a), y(o);
  if (!x.same(y))
    return bad(ZDNN_INVALID_SHAPE, "%s: shapes differ", n);
  for (uint32_t i = 0; i < x.d[0]; ++i)
    for (uint32_t j = 0; j < x.d[1]; ++j)
      for (uint32_t k = 0; k < x.d[2]; ++k)
        for (uint32_t l = 0; l < x.d[3]; ++l)
          y.at(i, j, k, l) = un(op, par, x.at(i, j, k, l));
  o->is_transformed = true;
  return ZDNN_OK;
}
static zdnn_status binary(const char *n, int op, const zdnn_ztensor *a,
    const zdnn_ztensor *b, zdnn_ztensor *o) {
  if (failNow())
    return ZDNN_UNSUPPORTED_AIU_EXCEPTION;
  if (!usable(n, "the first input", a) || !usable(n, "the second input", b) ||
      !usable(n, "the output", o))
    return ZDNN_INVALID_SHAPE;
  V x(a), z(b), y(o);
  if (!x.same(y) || !z.same(y))
    return bad(ZDNN_INVALID_SHAPE, "%s: shapes differ", n);
  for (uint32_t i = 0; i < x.d[0]; ++i)
    for (uint32_t j = 0; j < x.d[1]; ++j)
      for (uint32_t k = 0; k < x.d[2]; ++k)
        for (uint32_t l = 0; l < x.d[3]; ++l)
          y.at(i, j, k, l) = bi(op, x.at(i, j, k, l), z.at(i, j, k, l));
  o->is_transformed = true;
  return ZDNN_OK;
}
static void softmaxRow(const uint16_t *in, uint16_t *out, uint32_t n, int act) {
  uint16_t sum = 0;
  for (uint32_t i = 0; i < n; ++i)
    sum += in[i];
  for (uint32_t i = 0; i < n; ++i)
    out[i] = (uint16_t)(in[i] * 3 + sum * 31 + act * 7919);
}
// mode: 0 stacked or unstacked, 1 broadcast, 2 transposed
static zdnn_status matmul(const char *n, int mode, bool ta, bool tb, int op,
    const zdnn_ztensor *a, const zdnn_ztensor *b, const zdnn_ztensor *c,
    zdnn_ztensor *o) {
  if (failNow())
    return ZDNN_UNSUPPORTED_AIU_EXCEPTION;
  if (!usable(n, "A", a) || !usable(n, "B", b) || !usable(n, "C", c) ||
      !usable(n, "Y", o))
    return ZDNN_INVALID_SHAPE;
  V A(a), B(b), C(c), Y(o);
  uint32_t M = A.d[ta ? 3 : 2], K = A.d[ta ? 2 : 3], K2 = B.d[tb ? 3 : 2],
           N = B.d[tb ? 2 : 3];
  bool ok = K == K2 && Y.d[2] == M && Y.d[3] == N && C.d[3] == N &&
            C.d[2] == 1 && Y.d[0] == A.d[0] && A.d[1] == 1 && B.d[1] == 1 &&
            C.d[1] == 1 && Y.d[1] == 1;
  bool full = B.d[0] == A.d[0] && C.d[0] == A.d[0];
  bool bcast = B.d[0] == 1 && C.d[0] == 1;
  if (!ok || (mode == 0 && !full) || (mode == 1 && !bcast) ||
      (mode == 2 && !full && !bcast))
    return bad(ZDNN_INVALID_SHAPE,
        "%s: shapes A (%u, %u, %u) B (%u, %u, %u) C (%u, %u) Y (%u, %u, %u)", n,
        A.d[0], A.d[2], A.d[3], B.d[0], B.d[2], B.d[3], C.d[0], C.d[3], Y.d[0],
        Y.d[2], Y.d[3]);
  std::vector<uint16_t> ar(K);
  for (uint32_t s = 0; s < A.d[0]; ++s) {
    uint32_t s2 = B.d[0] == 1 ? 0 : s, s3 = C.d[0] == 1 ? 0 : s;
    for (uint32_t m = 0; m < M; ++m) {
      for (uint32_t k = 0; k < K; ++k)
        ar[k] = ta ? A.at(s, 0, k, m) : A.at(s, 0, m, k);
      for (uint32_t q = 0; q < N; ++q) {
        uint16_t v = C.at(s3, 0, 0, q) + op * 101 + mode * 7;
        for (uint32_t k = 0; k < K; ++k)
          v += ar[k] * (tb ? B.at(s2, 0, q, k) : B.at(s2, 0, k, q));
        Y.at(s, 0, m, q) = v;
      }
    }
  }
  o->is_transformed = true;
  return ZDNN_OK;
}

enum { OPAdd, OPDiv, OPMax, OPMin, OPMul, OPSub, OPExp, OPGelu, OPInvsqrt,
  OPLog, OPRelu, OPSigmoid, OPSqrt, OPTanh };
#define ZT const zdnn_ztensor *
extern "C" {
zdnn_status zdnn_add(ZT a, ZT b, zdnn_ztensor *o) { return binary("add", OPAdd, a, b, o); }
zdnn_status zdnn_sub(ZT a, ZT b, zdnn_ztensor *o) { return binary("sub", OPSub, a, b, o); }
zdnn_status zdnn_mul(ZT a, ZT b, zdnn_ztensor *o) { return binary("mul", OPMul, a, b, o); }
zdnn_status zdnn_div(ZT a, ZT b, zdnn_ztensor *o) { return binary("div", OPDiv, a, b, o); }
zdnn_status zdnn_min(ZT a, ZT b, zdnn_ztensor *o) { return binary("min", OPMin, a, b, o); }
zdnn_status zdnn_max(ZT a, ZT b, zdnn_ztensor *o) { return binary("max", OPMax, a, b, o); }
zdnn_status zdnn_log(ZT a, zdnn_ztensor *o) { return unary("log", OPLog, 0, a, o); }
zdnn_status zdnn_exp(ZT a, zdnn_ztensor *o) { return unary("exp", OPExp, 0, a, o); }
zdnn_status zdnn_sqrt(ZT a, zdnn_ztensor *o) { return unary("sqrt", OPSqrt, 0, a, o); }
zdnn_status zdnn_invsqrt(ZT a, float e, zdnn_ztensor *o) { return unary("invsqrt", OPInvsqrt, fbits(e) >> 8, a, o); }
zdnn_status zdnn_relu(ZT a, const void *c, zdnn_ztensor *o) { return unary("relu", OPRelu, c ? fbits(*(const float *)c) >> 8 : 1, a, o); }
zdnn_status zdnn_tanh(ZT a, zdnn_ztensor *o) { return unary("tanh", OPTanh, 0, a, o); }
zdnn_status zdnn_sigmoid(ZT a, zdnn_ztensor *o) { return unary("sigmoid", OPSigmoid, 0, a, o); }
zdnn_status zdnn_gelu(ZT a, zdnn_ztensor *o) { return unary("gelu", OPGelu, 0, a, o); }
zdnn_status zdnn_leaky_relu(ZT a, const void *c, float f, zdnn_ztensor *o) {
  return unary("leaky_relu", 20, (fbits(f) >> 8) + (c ? fbits(*(const float *)c) >> 8 : 1), a, o);
}
zdnn_status zdnn_reduce(ZT, void *, int, zdnn_ztensor *) { return ZDNN_UNAVAILABLE_FUNCTION; }
zdnn_status zdnn_quantized_matmul_op(ZT, ZT, ZT, zdnn_matmul_ops, int8_t, int8_t, bool, bool, bool, void *, zdnn_ztensor *) { return ZDNN_UNAVAILABLE_FUNCTION; }
zdnn_status zdnn_matmul_op(ZT a, ZT b, ZT c, zdnn_matmul_ops op, zdnn_ztensor *o) {
  return matmul("matmul", 0, false, false, op, a, b, c, o);
}
zdnn_status zdnn_matmul_bcast_op(ZT a, ZT b, ZT c, zdnn_matmul_bcast_ops op, zdnn_ztensor *o) {
  return matmul("matmul_bcast", 1, false, false, op, a, b, c, o);
}
zdnn_status zdnn_matmul_transpose_op(ZT a, ZT b, ZT c, bool ta, bool tb, int op, zdnn_ztensor *o) {
  return matmul("matmul_transpose", 2, ta, tb, op, a, b, c, o);
}
zdnn_status zdnn_softmax(ZT a, void *, zdnn_softmax_act act, zdnn_ztensor *o) {
  if (failNow())
    return ZDNN_UNSUPPORTED_AIU_EXCEPTION;
  if (!usable("softmax", "the input", a) || !usable("softmax", "the output", o))
    return ZDNN_INVALID_SHAPE;
  V x(a), y(o);
  if (!x.same(y))
    return bad(ZDNN_INVALID_SHAPE, "softmax: shapes differ");
  std::vector<uint16_t> r(x.d[3]), w(x.d[3]);
  for (uint32_t i = 0; i < x.d[0]; ++i)
    for (uint32_t j = 0; j < x.d[1]; ++j)
      for (uint32_t k = 0; k < x.d[2]; ++k) {
        for (uint32_t l = 0; l < x.d[3]; ++l)
          r[l] = x.at(i, j, k, l);
        softmaxRow(r.data(), w.data(), x.d[3], act);
        for (uint32_t l = 0; l < x.d[3]; ++l)
          y.at(i, j, k, l) = w[l];
      }
  o->is_transformed = true;
  return ZDNN_OK;
}
}
#undef ZT

// ---- full tensors -------------------------------------------------------
struct T {
  zdnn_tensor_desc pre, tf, pre0, tf0;
  zdnn_ztensor z, z0;
  char *mem = nullptr;
  uint64_t size;
  std::vector<char> snap;
  T(zdnn_data_layouts l, uint32_t a, uint32_t b, uint32_t c, uint32_t d,
      uint32_t seed, float scale) {
    memset(&pre, 0, sizeof pre);
    memset(&tf, 0, sizeof tf);
    pre.layout = l;
    pre.format = l == ZDNN_HWCK ? ZDNN_FORMAT_4DKERNEL : ZDNN_FORMAT_4DFEATURE;
    pre.type = FP32;
    pre.dim4 = a, pre.dim3 = b, pre.dim2 = c, pre.dim1 = d;
    zdnn_generate_transformed_desc(&pre, &tf);
    memset(&z, 0, sizeof z);
    z.pre_transformed_desc = &pre;
    z.transformed_desc = &tf;
    z.rec_scale = scale;
    z.offset = scale * 2;
    size = z.buffer_size = zdnn_getsize_ztensor(&tf);
    PCHECK(posix_memalign((void **)&mem, 4096, size) == 0, "memory");
    z.buffer = mem;
    z.is_transformed = seed != 0;
    uint32_t x = seed * 2654435761u + 1;
    uint16_t *p = (uint16_t *)mem;
    for (uint64_t i = 0; i < size / 2; ++i) {
      x = x * 1664525u + 1013904223u;
      p[i] = x >> 16;
    }
    pre0 = pre, tf0 = tf, z0 = z;
    snap.assign(mem, mem + size);
  }
  T(const T &) = delete;
  ~T() { free(mem); }
  // What an operation must not change.
  void untouched(const char *what, bool data) {
    PCHECK(!memcmp(&pre, &pre0, sizeof pre) && !memcmp(&tf, &tf0, sizeof tf),
        "%s: descriptors changed to layout %d (%u, %u, %u, %u), transformed "
        "(%u, %u, %u, %u)", what, pre.layout, pre.dim4, pre.dim3, pre.dim2,
        pre.dim1, tf.dim4, tf.dim3, tf.dim2, tf.dim1);
    PCHECK(z.pre_transformed_desc == &pre && z.transformed_desc == &tf &&
               z.buffer == mem && z.buffer_size == size, "%s: ztensor changed",
        what);
    if (data)
      PCHECK(!memcmp(mem, snap.data(), size), "%s: data changed", what);
  }
  V before() {
    V v(&z0);
    v.p = (uint16_t *)snap.data();
    return v;
  }
};

// A fresh copy of the code under test, so that what it caches is per case.
struct Lib {
  void *h;
  Lib(bool omp) {
    const char *d = getenv("ZDNNX_LIBS");
    std::string f = std::string(d) + (omp ? "/libzdnnx_omp.so" : "/libzdnnx_seq.so");
    h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) {
      fprintf(stderr, "%s\n", dlerror());
      abort();
    }
  }
  ~Lib() { dlclose(h); }
  template <class F>
  F *get(F *, const char *n) {
    void *p = dlsym(h, n);
    if (!p) {
      fprintf(stderr, "%s\n", dlerror());
      abort();
    }
    return (F *)p;
  }
};
#define SYM(lib, f) (lib).get((decltype(&f)) nullptr, #f)

static void limits(Src &s) {
  static const std::vector<uint32_t> e43 = {4, 2, 3, 7, 16, 64, 100000};
  static const std::vector<uint32_t> e2 = {64, 32, 96, 256, 100000 * 32};
  static const std::vector<uint32_t> e1 = {128, 64, 192, 256, 100000 * 64};
  gMax[4] = s.pick(e43);
  gMax[3] = s.pick(e43);
  gMax[2] = s.pick(e2);
  gMax[1] = s.pick(e1);
  static const std::vector<uint64_t> sz = {4ull << 30, 8192, 16384, 65536,
      65536 * 3, 1 << 20};
  gMaxSize = s.pick(sz);
  gTelum1 = s.chance(15);
  if (gTelum1) {
    // one limit for every dimension
    gMax[1] = gMax[2] = gMax[3] = gMax[4] = s.pick(std::vector<uint32_t>{
        64, 128, 256, 32768});
  }
  gCalls = 0;
  gFailAt = -1;
  gBad = false;
  unsetenv("ZDNNX_MAX_TILE_SIZE_IN_MB");
  std::string env;
  if (s.chance(25)) {
    static const std::vector<std::string> E = {"0.0625", "0.01", "1", "0.005",
        "1e-2", "9999999", "-1", "abc", "1x", "nan", ""};
    env = s.pick(E);
    setenv("ZDNNX_MAX_TILE_SIZE_IN_MB", env.c_str(), 1);
  }
  s.note("limits (%u, %u, %u, %u) %d bytes%s%s%s; ", gMax[4], gMax[3], gMax[2],
      gMax[1], (int)std::min<uint64_t>(gMaxSize, INT32_MAX),
      gTelum1 ? " telum1" : "", env.empty() ? "" : " env ", env.c_str());
}

static uint32_t dim(Src &s, uint32_t limit, bool small) {
  if (small)
    return 1 + s.draw(4);
  switch (s.weighted({4, 4, 2, 3})) {
  case 0:
    return 1 + s.draw(9);
  case 1: { // around a multiple of the limit
    int64_t v = (int64_t)(1 + s.draw(3)) * std::min(limit, 256u) +
                s.range(-2, 2);
    return v < 1 ? 1 : v;
  }
  case 2:
    return 1 + s.draw(300);
  default: {
    static const std::vector<uint32_t> E = {31, 32, 33, 63, 64, 65, 96, 128,
        129, 160, 192, 193, 256, 257};
    return s.pick(E);
  }
  }
}

static zdnn_data_layouts layout4(Src &s, uint32_t d[4], uint32_t p[4]) {
  // d: e4 e3 e2 e1; p: pre-transformed dims 4..1
  switch (s.weighted({4, 2, 2, 1, 2, 1, 1, 1})) {
  default:
  case 0: p[0] = d[0], p[1] = d[1], p[2] = d[2], p[3] = d[3]; return ZDNN_4D;
  case 1: d[1] = 1; p[0] = p[1] = 1, p[1] = d[0], p[2] = d[2], p[3] = d[3]; return ZDNN_3DS;
  case 2: d[0] = 1; p[0] = 1, p[1] = d[1], p[2] = d[2], p[3] = d[3]; return ZDNN_3D;
  case 3: d[0] = d[1] = 1; p[0] = p[1] = 1, p[2] = d[2], p[3] = d[3]; return ZDNN_2D;
  case 4: p[0] = d[0], p[1] = d[1], p[2] = d[2], p[3] = d[3]; return ZDNN_NHWC;
  case 5: p[0] = d[0], p[1] = d[3], p[2] = d[1], p[3] = d[2]; return ZDNN_NCHW;
  case 6: d[1] = d[2] = 1; p[0] = p[1] = 1, p[2] = d[0], p[3] = d[3]; return ZDNN_2DS;
  case 7: d[0] = d[1] = d[2] = 1; p[0] = p[1] = p[2] = 1, p[3] = d[3]; return ZDNN_1D;
  }
}

static void genShape(Src &s, uint32_t d[4], uint64_t cap) {
  for (int i = 0; i < 4; ++i)
    d[i] = dim(s, gMax[4 - i], s.chance(i < 2 ? 60 : 20));
  while ((uint64_t)d[0] * d[1] * up(d[2], 32) * up(d[3], 64) * 2048 > cap) {
    int b = 0;
    for (int i = 1; i < 4; ++i)
      if ((i < 2 ? d[i] * 32 : d[i]) > (b < 2 ? d[b] * 32 : d[b]))
        b = i;
    d[b] = (d[b] + 1) / 2;
  }
}

static bool useOmp(Src &s) {
  bool omp = s.chance(40);
  unsetenv("OM_NUM_ZAIU_THREADS");
  unsetenv("OMP_NUM_THREADS");
  if (omp) {
    int n = 2 + s.draw(4);
    setenv(s.chance(50) ? "OM_NUM_ZAIU_THREADS" : "OMP_NUM_THREADS",
        std::to_string(n).c_str(), 1);
    s.note("%d threads; ", n);
  }
  return omp;
}

static void initLib(Lib &l) {
  SYM(l, zdnnx_init)();
}

// Elementwise operations and softmax.
static void prop_map(Src &s) {
  limits(s);
  bool omp = useOmp(s);
  bool big = omp && s.chance(15);
  uint32_t d[4], p[4];
  genShape(s, d, big ? 2400000 : 200000);
  if (big) { // at least 3 MB
    if (s.chance(60))
      d[2] = up(d[2], 32) * 32, d[3] = up(d[3], 64) * 64;
    while ((uint64_t)d[0] * d[1] * up(d[2], 32) * up(d[3], 64) * 4096 < 3 << 20)
      d[s.draw(2)] += 1 + s.draw(20);
  }
  zdnn_data_layouts l = layout4(s, d, p);
  bool soft = s.chance(25);
  int op = (int)s.draw(soft ? 2 : 14);
  float scale = (float)s.draw(9) / 4, par = (float)(1 + s.draw(50)) / 8;
  if (soft && gTelum1 ? d[3] > zdnn_get_nnpa_max_dim_idx_size()
                      : soft && d[3] > gMax[1])
    throw Discard(); // softmax is never split along its own axis
  if (soft && omp && d[1] != 1)
    throw Discard(); // softmax has the 3DS layout
  s.note("%s %d on layout %d (%u, %u, %u, %u)", soft ? "softmax" : "op", op, l,
      d[0], d[1], d[2], d[3]);
  Lib lib(omp);
  initLib(lib);
  T a(l, p[0], p[1], p[2], p[3], 1, scale), b(l, p[0], p[1], p[2], p[3], 2, 0),
      y(l, p[0], p[1], p[2], p[3], 0, 0);
  zdnn_status st;
  if (!omp && !soft && s.chance(10)) {
    gFailAt = (int)s.draw(4);
  }
#define B(f) SYM(lib, f)(&a.z, &b.z, &y.z)
#define U(f) SYM(lib, f)(&a.z, &y.z)
  if (soft)
    st = SYM(lib, zdnnx_softmax)(&a.z, nullptr, (zdnn_softmax_act)op, &y.z);
  else
    switch (op) {
    case OPAdd: st = B(zdnnx_add); break;
    case OPDiv: st = B(zdnnx_div); break;
    case OPMax: st = B(zdnnx_max); break;
    case OPMin: st = B(zdnnx_min); break;
    case OPMul: st = B(zdnnx_mul); break;
    case OPSub: st = B(zdnnx_sub); break;
    case OPExp: st = U(zdnnx_exp); break;
    case OPGelu: st = U(zdnnx_gelu); break;
    case OPLog: st = U(zdnnx_log); break;
    case OPSigmoid: st = U(zdnnx_sigmoid); break;
    case OPSqrt: st = U(zdnnx_sqrt); break;
    case OPTanh: st = U(zdnnx_tanh); break;
    case OPInvsqrt: st = SYM(lib, zdnnx_invsqrt)(&a.z, par, &y.z); break;
    default: st = SYM(lib, zdnnx_relu)(&a.z, par < 2 ? nullptr : &par, &y.z);
    }
  int calls = gCalls;
  s.label(soft ? "softmax" : op < 6 ? "binary" : "unary");
  if (calls > 1) {
    s.nontrivial();
    s.label(omp ? "tiled, threads" : "tiled");
  }
  PCHECK(!gBad, "%s", gWhy);
  a.untouched("first input", true);
  b.untouched("second input", true);
  y.untouched("output", false);
  if (gFailAt >= 0 && calls > gFailAt) {
    s.label("accelerator failed");
    PCHECK(st == ZDNN_UNSUPPORTED_AIU_EXCEPTION, "the accelerator failed at "
        "call %d but the status is 0x%x", (int)gFailAt, st);
    return;
  }
  PCHECK(st == ZDNN_OK, "status 0x%x", st);
  PCHECK(calls > 0, "the accelerator was not called");
  V x = a.before(), z = b.before(), o(&y.z);
  std::vector<uint16_t> r(d[3]), w(d[3]);
  uint32_t par32 = op == OPInvsqrt            ? fbits(par) >> 8
                   : op != OPRelu             ? 0
                   : par < 2                  ? 1
                                              : fbits(par) >> 8;
  for (uint32_t i = 0; i < d[0]; ++i)
    for (uint32_t j = 0; j < d[1]; ++j)
      for (uint32_t k = 0; k < d[2]; ++k) {
        for (uint32_t m = 0; m < d[3]; ++m)
          r[m] = x.at(i, j, k, m);
        if (soft)
          softmaxRow(r.data(), w.data(), d[3], op);
        else if (op < 6)
          for (uint32_t m = 0; m < d[3]; ++m)
            w[m] = bi(op, r[m], z.at(i, j, k, m));
        else
          for (uint32_t m = 0; m < d[3]; ++m)
            w[m] = un(op, par32, r[m]);
        for (uint32_t m = 0; m < d[3]; ++m)
          PCHECK(o.at(i, j, k, m) == w[m], "element (%u, %u, %u, %u) of (%u, "
              "%u, %u, %u) is 0x%04x, expected 0x%04x after %d tiles", i, j, k,
              m, d[0], d[1], d[2], d[3], o.at(i, j, k, m), w[m], calls);
      }
  s.countEvals((uint64_t)d[0] * d[1] * d[2] * d[3]);
}

static void prop_matmul(Src &s) {
  limits(s);
  bool omp = useOmp(s);
  int kind = (int)s.draw(3); // unstacked, stacked, broadcast
  bool ta = false, tb = false, tr = s.chance(35);
  if (tr) {
    ta = s.chance(50);
    tb = s.chance(60) || (kind == 2 && !ta);
  }
  uint32_t m1 = gTelum1 ? zdnn_get_nnpa_max_dim_idx_size() : gMax[1],
           m2 = gTelum1 ? m1 : gMax[2];
  uint32_t S = kind == 0 ? 1 : dim(s, gMax[4], s.chance(40)),
           M = dim(s, m2, false), K = 1 + s.draw(s.chance(80) ? 40 : 200),
           N = dim(s, m1, false);
  // Axes that are never split have to be within the limits.
  K = std::min(K, std::min(m1, m2));
  if (ta)
    M = std::min(M, std::min(m1, m2));
  if (tb)
    N = std::min(N, std::min(m1, m2));
  S = std::min(S, 60u);
  while ((uint64_t)S * M * N * K > 1500000) {
    uint32_t &x = S >= 8 ? S : M > N ? M : N;
    x = (x + 1) / 2;
  }
  int op = kind == 2 ? (int)s.draw(2) : (int)s.draw(7);
  s.note("%s%s%s%s op %d S=%u M=%u K=%u N=%u",
      kind == 0 ? "unstacked" : kind == 1 ? "stacked" : "broadcast",
      tr ? " transpose op" : "", ta ? " A'" : "", tb ? " B'" : "", op, S, M, K,
      N);
  Lib lib(omp);
  initLib(lib);
  zdnn_data_layouts la = kind ? ZDNN_3DS : ZDNN_2D,
                    lb = kind == 1 ? ZDNN_3DS : ZDNN_2D,
                    lc = kind == 1 ? ZDNN_2DS : ZDNN_1D;
  T a(la, 1, S, ta ? K : M, ta ? M : K, 1, 0),
      b(lb, 1, kind == 1 ? S : 1, tb ? N : K, tb ? K : N, 2, 0),
      c(lc, 1, 1, kind == 1 ? S : 1, N, 3, 0), y(la, 1, S, M, N, 0, 0);
  zdnn_status st;
  if (tr)
    st = SYM(lib, zdnnx_matmul_transpose_op)(
        &a.z, &b.z, &c.z, ta, tb, op, &y.z);
  else if (kind == 2)
    st = SYM(lib, zdnnx_matmul_bcast_op)(&a.z, &b.z, &c.z, op, &y.z);
  else
    st = SYM(lib, zdnnx_matmul_op)(&a.z, &b.z, &c.z, op, &y.z);
  int calls = gCalls;
  s.label(kind == 0 ? "unstacked" : kind == 1 ? "stacked" : "broadcast");
  if (ta || tb)
    s.label("transposed");
  if (calls > 1) {
    s.nontrivial();
    s.label(omp ? "tiled, threads" : "tiled");
  }
  PCHECK(!gBad, "%s", gWhy);
  PCHECK(st == ZDNN_OK, "status 0x%x", st);
  PCHECK(calls > 0, "the accelerator was not called");
  a.untouched("A", true);
  b.untouched("B", true);
  c.untouched("C", true);
  y.untouched("Y", false);
  V A = a.before(), B_ = b.before(), C = c.before(), Y(&y.z);
  // transpose or a plain op with no transposed operand is the same operation
  int mode = ta || tb ? 2 : (tr ? 0 : kind == 2 ? 1 : 0);
  for (uint32_t i = 0; i < S; ++i)
    for (uint32_t m = 0; m < M; ++m)
      for (uint32_t n = 0; n < N; ++n) {
        uint32_t i2 = kind == 1 ? i : 0;
        uint16_t v = C.at(i2, 0, 0, n) + op * 101;
        for (uint32_t k = 0; k < K; ++k)
          v += (ta ? A.at(i, 0, k, m) : A.at(i, 0, m, k)) *
               (tb ? B_.at(i2, 0, n, k) : B_.at(i2, 0, k, n));
        PCHECK(Y.at(i, 0, m, n) == (uint16_t)(v + mode * 7),
            "element (%u, %u, %u) of (%u, %u, %u) is 0x%04x, expected 0x%04x "
            "after %d tiles", i, m, n, S, M, N, Y.at(i, 0, m, n),
            (uint16_t)(v + mode * 7), calls);
      }
  s.countEvals((uint64_t)S * M * N);
}

// Tiles of any size: each element belongs to one tile, at its place; what is
// copied to the tiles and back is unchanged.
static void prop_tiles(Src &s) {
  limits(s);
  uint32_t d[4], p[4], ts[4];
  genShape(s, d, 300000);
  zdnn_data_layouts l = layout4(s, d, p);
  if (s.chance(10))
    l = l == ZDNN_NHWC ? ZDNN_HWCK : l;
  bool kernel = l == ZDNN_HWCK;
  for (int i = 0; i < 4; ++i) {
    switch (s.weighted({3, 4, 3, 1})) {
    case 0: ts[i] = 0; break;
    case 1: ts[i] = 1 + s.draw(d[i]); break;
    case 2: ts[i] = i == 2 ? 32 * (1 + s.draw(4)) : i == 3 ? 64 * (1 + s.draw(3))
                                                       : 1 + s.draw(3);
      break;
    default: ts[i] = d[i] + s.draw(5); break;
    }
  }
  if (kernel)
    ts[0] = ts[1] = ts[2] = ts[3] = 0;
  s.note("layout %d (%u, %u, %u, %u) tiles (%u, %u, %u, %u)", l, d[0], d[1],
      d[2], d[3], ts[0], ts[1], ts[2], ts[3]);
  Lib lib(false);
  initLib(lib);
  T x(l, p[0], p[1], p[2], p[3], 5, 0.5f), y(l, p[0], p[1], p[2], p[3], 0, 0);
  zdnnx_split_info sx, sy;
  memset(&sx, 0x5a, sizeof sx);
  memset(&sy, 0x5a, sizeof sy);
  auto prep = SYM(lib, zdnnx_prepare_split_info);
  PCHECK(prep(&sx, &x.z, ts[0], ts[1], ts[2], ts[3], "x"), "split refused");
  PCHECK(prep(&sy, &y.z, ts[0], ts[1], ts[2], ts[3], nullptr), "split refused");
  uint32_t n[4], sz[4];
  uint64_t total = 1;
  bool one = true;
  for (int i = 0; i < 4; ++i) {
    sz[i] = ts[i] ? ts[i] : d[i];
    uint32_t unit = i == 2 ? 32 : i == 3 ? 64 : 1;
    if (sz[i] != d[i])
      sz[i] = up(sz[i], unit) * unit;
    n[i] = up(d[i], sz[i]);
    one &= n[i] == 1;
    total *= n[i];
    PCHECK(zdnnx_get_num_tiles(&sx, (zdnnx_axis)i) == n[i],
        "%u tiles along axis %d, expected %u of %u", sx.num_tiles[i], i, n[i],
        sz[i]);
  }
  PCHECK(SYM(lib, zdnnx_has_one_tile)(&sx) == one, "one tile");
  if (total > 1)
    s.nontrivial();
  bool copies = SYM(lib, zdnnx_has_no_buffer_reuse)(&sx);
  s.label(one ? "one tile" : copies ? "copied tiles" : "tiles in place");
  PCHECK(SYM(lib, zdnnx_has_no_buffer_reuse)(&sy) == copies, "reuse differs");
  bool ext = copies && s.chance(50);
  char *bx = nullptr, *by = nullptr;
  if (ext) {
    bx = (char *)SYM(lib, zdnnx_alloc_buffer)(&sx);
    by = (char *)SYM(lib, zdnnx_alloc_buffer)(&sy);
    PCHECK(bx && by && !((uintptr_t)bx & 4095), "tile buffer");
    s.label("external buffer");
  }
  auto set = SYM(lib, zdnnx_set_tile);
  auto toTile = SYM(lib, zdnnx_copy_data_to_tile);
  auto toFull = SYM(lib, zdnnx_copy_data_to_full);
  auto freeT = SYM(lib, zdnnx_free_tile_buffer);
  V X = x.before();
  // The tiles may be visited in any order.
  bool rev = s.chance(40);
  for (uint64_t q0 = 0; q0 < total; ++q0) {
    uint64_t q = rev ? total - 1 - q0 : q0;
    uint32_t ix[4];
    uint64_t r = q;
    for (int i = 3; i >= 0; --i) {
      ix[i] = r % n[i];
      r /= n[i];
    }
    zdnnx_tile tx, ty;
    memset(&tx, 0x5a, sizeof tx);
    memset(&ty, 0x5a, sizeof ty);
    set(&sx, &tx, bx, ix[0], ix[1], ix[2], ix[3]);
    set(&sy, &ty, by, ix[0], ix[1], ix[2], ix[3]);
    uint32_t w[4];
    for (int i = 0; i < 4; ++i)
      w[i] = std::min(sz[i], d[i] - ix[i] * sz[i]);
    for (const zdnn_ztensor *z : {&tx.data, &ty.data}) {
      V v(z);
      PCHECK(!memcmp(v.d, w, sizeof w), "tile (%u, %u, %u, %u) is (%u, %u, %u, "
          "%u), expected (%u, %u, %u, %u)", ix[0], ix[1], ix[2], ix[3], v.d[0],
          v.d[1], v.d[2], v.d[3], w[0], w[1], w[2], w[3]);
      zdnn_tensor_desc g;
      PCHECK(zdnn_generate_transformed_desc(z->pre_transformed_desc, &g) ==
                     ZDNN_OK &&
                 g.dim4 == w[0] && g.dim3 == w[1] && g.dim2 == w[2] &&
                 g.dim1 == w[3] && g.layout == z->transformed_desc->layout &&
                 g.type == z->transformed_desc->type &&
                 g.format == z->transformed_desc->format,
          "descriptors of tile (%u, %u, %u, %u)", ix[0], ix[1], ix[2], ix[3]);
      PCHECK(z->buffer && !((uintptr_t)z->buffer & 4095), "tile buffer");
      PCHECK(z->buffer_size == zdnn_getsize_ztensor(&g),
          "buffer size of tile (%u, %u, %u, %u)", ix[0], ix[1], ix[2], ix[3]);
    }
    PCHECK(tx.data.rec_scale == 0.5f && tx.data.offset == 1.0f, "scale");
    if (ext)
      PCHECK(tx.data.buffer == bx && ty.data.buffer == by, "buffer not used");
    if (!copies)
      PCHECK((char *)tx.data.buffer >= x.mem &&
                 (char *)tx.data.buffer + tx.data.buffer_size <= x.mem + x.size,
          "tile outside the tensor");
    toTile(&tx);
    V A(&tx.data), Y(&ty.data);
    for (uint32_t i = 0; !kernel && i < w[0]; ++i)
      for (uint32_t j = 0; j < w[1]; ++j)
        for (uint32_t k = 0; k < w[2]; ++k)
          for (uint32_t m = 0; m < w[3]; ++m) {
            uint16_t g = A.at(i, j, k, m),
                     e = X.at(ix[0] * sz[0] + i, ix[1] * sz[1] + j,
                         ix[2] * sz[2] + k, ix[3] * sz[3] + m);
            PCHECK(g == e, "element (%u, %u, %u, %u) of tile (%u, %u, %u, %u) "
                "is 0x%04x, expected 0x%04x", i, j, k, m, ix[0], ix[1], ix[2],
                ix[3], g, e);
            Y.at(i, j, k, m) = g ^ 0x1234;
          }
    if (!kernel)
      toFull(&ty);
    if (!ext) {
      freeT(&tx);
      freeT(&ty);
    } else if (s.chance(20)) {
      freeT(&tx);
    }
  }
  if (ext) {
    SYM(lib, zdnnx_free_buffer)(bx);
    SYM(lib, zdnnx_free_buffer)(by);
  }
  x.untouched("x", true);
  y.untouched("y", false);
  if (kernel)
    return;
  V Y(&y.z);
  for (uint32_t i = 0; i < d[0]; ++i)
    for (uint32_t j = 0; j < d[1]; ++j)
      for (uint32_t k = 0; k < d[2]; ++k)
        for (uint32_t m = 0; m < d[3]; ++m)
          PCHECK(Y.at(i, j, k, m) == (X.at(i, j, k, m) ^ 0x1234),
              "element (%u, %u, %u, %u) of the full tensor", i, j, k, m);
  s.countEvals((uint64_t)d[0] * d[1] * d[2] * d[3]);
}

int main(int argc, char **argv) {
  if (!getenv("ZDNNX_LIBS")) {
    // beside this program
    char b[4096];
    ssize_t k = readlink("/proc/self/exe", b, sizeof b - 1);
    b[k > 0 ? k : 0] = 0;
    std::string d(b);
    setenv("ZDNNX_LIBS", d.substr(0, d.rfind('/')).c_str(), 1);
  }
  return mainFor({{"map", prop_map, nullptr}, {"matmul", prop_matmul, nullptr},
                     {"tiles", prop_tiles, nullptr}},
      argc, argv);
}
