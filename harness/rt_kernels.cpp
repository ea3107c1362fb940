// R04-R10, R12: the C kernels that compiled models call at run time, against
// reference implementations.
#include "OnnxMlirRuntime.h"
#include "pbt.hpp"
#include <map>
#include <memory>
#include <sys/stat.h>
extern "C" {
#include "src/Runtime/OMSort.h"
#include "src/Support/SmallFPConversion.h"
void omTensorUnique(OMTensor *total, OMTensor *Y, OMTensor *indices,
    OMTensor *inverse, OMTensor *counts, const OMTensor *input, int64_t axis,
    uint64_t sorted);
void omTensorUniqueCount(
    OMTensor *total, const OMTensor *input, int64_t axis, uint64_t sorted);
void Resize_Scales(OMTensor *, OMTensor *, OMTensor *, char *, char *);
void Resize_Size(OMTensor *, OMTensor *, OMTensor *, char *, char *);
void get_random_normal_value_f64(double *, long long, double, double, double);
void get_random_normal_value_f32(float *, long long, float, float, float);
OMTensor *run_uniform_random(OMTensor *, float, float, float);
bool omLoadConstantData(void **, char *, int64_t, int64_t);
void omGetExternalConstantAddr(void **, void **, int64_t);
bool omUnloadConstantData(void **, int64_t);
}
using namespace pbt;

static std::string vs(const std::vector<int64_t> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i)
    r += (i ? "," : "") + std::to_string(v[i]);
  return r + "]";
}
static int64_t prod(const std::vector<int64_t> &v) {
  int64_t n = 1;
  for (auto x : v)
    n *= x;
  return n;
}
static std::vector<int64_t> rowMajor(const std::vector<int64_t> &sh) {
  std::vector<int64_t> st(sh.size());
  int64_t n = 1;
  for (size_t i = sh.size(); i-- > 0;) {
    st[i] = n;
    n *= sh[i];
  }
  return st;
}

// ---- reference: values of f16/bf16 bits -------------------------------------
static double f16val(uint16_t b) {
  int s = b >> 15, e = (b >> 10) & 31, m = b & 1023;
  double v;
  if (e == 31)
    v = m ? NAN : INFINITY;
  else if (e == 0)
    v = ldexp(m, -24);
  else
    v = ldexp(1024 + m, e - 25);
  return s ? -v : v;
}

// ---- typed elements ---------------------------------------------------------
// An element is stored as a long double key (exact for every supported type:
// 64-bit significand) plus its bits.
struct Ty {
  OM_DATA_TYPE t;
  int size;
  const char *name;
};
static const Ty TYS[] = {{ONNX_TYPE_FLOAT, 4, "f32"}, {ONNX_TYPE_INT64, 8, "i64"},
    {ONNX_TYPE_INT32, 4, "i32"}, {ONNX_TYPE_DOUBLE, 8, "f64"},
    {ONNX_TYPE_UINT8, 1, "u8"}, {ONNX_TYPE_INT8, 1, "i8"},
    {ONNX_TYPE_UINT16, 2, "u16"}, {ONNX_TYPE_INT16, 2, "i16"},
    {ONNX_TYPE_UINT32, 4, "u32"}, {ONNX_TYPE_UINT64, 8, "u64"},
    {ONNX_TYPE_BOOL, 1, "bool"}, {ONNX_TYPE_FLOAT16, 2, "f16"}};
typedef long double LD;
static LD keyOf(OM_DATA_TYPE t, const void *p) {
#define RD(T)                                                                  \
  {                                                                            \
    T x;                                                                       \
    memcpy(&x, p, sizeof x);                                                   \
    return (LD)x;                                                              \
  }
  switch (t) {
  case ONNX_TYPE_FLOAT:
    RD(float)
  case ONNX_TYPE_DOUBLE:
    RD(double)
  case ONNX_TYPE_INT64:
    RD(int64_t)
  case ONNX_TYPE_INT32:
    RD(int32_t)
  case ONNX_TYPE_INT16:
    RD(int16_t)
  case ONNX_TYPE_INT8:
    RD(int8_t)
  case ONNX_TYPE_UINT64:
    RD(uint64_t)
  case ONNX_TYPE_UINT32:
    RD(uint32_t)
  case ONNX_TYPE_UINT16:
    RD(uint16_t)
  case ONNX_TYPE_UINT8:
    RD(uint8_t)
  case ONNX_TYPE_BOOL:
    RD(uint8_t)
  case ONNX_TYPE_FLOAT16: {
    uint16_t x;
    memcpy(&x, p, 2);
    return f16val(x);
  }
  default:
    abort();
  }
}
// One non-NaN value.
static void genElem(Src &s, OM_DATA_TYPE t, void *p, int64_t spread) {
  int64_t small = s.range(0, spread);
  bool special = s.chance(15);
  uint64_t b = special ? s.bits() : 0;
  int which = special ? (int)s.draw(8) : -1;
  if (t == ONNX_TYPE_BOOL) {
    *(uint8_t *)p = small & 1;
    return;
  }
  if (t == ONNX_TYPE_FLOAT) {
    static const float F[] = {0.f, -0.f, INFINITY, -INFINITY, 1e-45f, -1e-45f,
        16777216.f, 16777218.f};
    float f = special ? F[which] : (float)(small - spread / 2) * 0.5f;
    memcpy(p, &f, 4);
    return;
  }
  if (t == ONNX_TYPE_DOUBLE) {
    static const double F[] = {0., -0., INFINITY, -INFINITY, 1.0,
        1.0 + 2.220446049250313e-16, 5e-324, 1e300};
    double f = special ? F[which] : (double)(small - spread / 2) * 0.5;
    memcpy(p, &f, 8);
    return;
  }
  if (t == ONNX_TYPE_FLOAT16) {
    uint16_t h;
    if (special) {
      h = (uint16_t)b;
      if ((h & 0x7c00) == 0x7c00)
        h &= 0xfc00; // infinities, no NaN
    } else {
      static const uint16_t H[] = {0, 0x3c00, 0x4000, 0xbc00, 0xc000, 0x8000,
          0x3c01, 0x0001, 0x7bff, 0xfbff};
      h = H[small % 10];
    }
    memcpy(p, &h, 2);
    return;
  }
  static const uint64_t X[] = {0, ~0ULL, 1ULL << 63, (1ULL << 63) - 1,
      (1ULL << 63) + 1, 0x80808080ULL, 0x7fffffffULL, 0x100000000ULL};
  uint64_t v =
      special ? (s.chance(50) ? X[which] : b) : (uint64_t)(small - spread / 2);
  int sz = (int)getDataTypeSize(t);
  memcpy(p, &v, sz); // little endian
  (void)sz;
}
static std::string showElem(OM_DATA_TYPE t, const void *p) {
  char b[64];
  snprintf(b, sizeof b, "%.20Lg", keyOf(t, p));
  return b;
}

// ---- R04 / R05 --------------------------------------------------------------
struct Sliced {
  const Ty *ty;
  std::vector<int64_t> shape, strides;
  int64_t extent; // elements spanned
  std::vector<unsigned char> data;
  int64_t n; // sorted axis
};
static Sliced genSliced(Src &s, int maxLen) {
  Sliced r;
  r.ty = &TYS[s.draw(12)];
  int rank = 1 + s.weighted({5, 4, 3, 2, 1, 1});
  int64_t outer = 1;
  for (int i = 0; i + 1 < rank; ++i) {
    int64_t d = s.chance(5) ? 0 : s.range(1, 4);
    if (outer * d > 40)
      d = 1;
    outer *= std::max<int64_t>(d, 1);
    r.shape.push_back(d);
  }
  r.n = s.weighted({6, 3, 1}) == 1
            ? s.range(0, 3)
            : s.range(1, 1 + (int64_t)s.draw(s.chance(10) ? maxLen : 24));
  r.shape.push_back(r.n);
  r.strides = rowMajor(r.shape);
  if (rank > 1 && r.n > 0 && s.chance(30)) {
    int64_t pad = s.range(1, 5);
    int64_t st = r.n + pad;
    for (int i = rank - 2; i >= 0; --i) {
      r.strides[i] = st;
      st *= r.shape[i];
      st += s.range(0, 3);
    }
    s.label("padded outer strides");
  }
  r.extent = 1;
  bool empty = prod(r.shape) == 0;
  for (int i = 0; i < rank; ++i)
    if (!empty)
      r.extent += (r.shape[i] - 1) * r.strides[i];
  if (empty)
    r.extent = 0;
  r.data.resize(r.extent * r.ty->size);
  int64_t spread = s.chance(50) ? 3 : s.range(1, 40);
  for (int64_t i = 0; i < r.extent; ++i)
    genElem(s, r.ty->t, &r.data[i * r.ty->size], spread);
  return r;
}
static void forSlices(const Sliced &r, const std::function<void(int64_t)> &f) {
  if (prod(r.shape) == 0)
    return;
  int rank = (int)r.shape.size();
  std::vector<int64_t> idx(rank, 0);
  for (;;) {
    int64_t off = 0;
    for (int i = 0; i + 1 < rank; ++i)
      off += idx[i] * r.strides[i];
    f(off);
    int i = rank - 2;
    for (; i >= 0; --i) {
      if (++idx[i] < r.shape[i])
        break;
      idx[i] = 0;
    }
    if (i < 0)
      return;
  }
}
static std::vector<uint64_t> refOrder(
    const Sliced &r, int64_t off, bool asc) {
  std::vector<uint64_t> o(r.n);
  std::vector<LD> k(r.n);
  for (int64_t i = 0; i < r.n; ++i) {
    o[i] = i;
    k[i] = keyOf(r.ty->t, &r.data[(off + i) * r.ty->size]);
  }
  std::stable_sort(o.begin(), o.end(), [&](uint64_t a, uint64_t b) {
    return asc ? k[a] < k[b] : k[a] > k[b];
  });
  return o;
}
struct Buf { // exactly sized heap copy, so that ASan sees overruns
  void *p;
  explicit Buf(size_t n, const void *src = nullptr) {
    p = malloc(n ? n : 1);
    if (src && n)
      memcpy(p, src, n);
  }
  ~Buf() { free(p); }
  Buf(const Buf &) = delete;
};
static OMTensor *mk(void *p, const std::vector<int64_t> &shape,
    const std::vector<int64_t> &strides, OM_DATA_TYPE t) {
  OMTensor *r = omTensorCreate(p, shape.data(), shape.size(), t);
  omTensorSetStrides(r, strides.data());
  return r;
}
static const uint64_t SENT = 0xdeadbeefcafef00dULL;

static void sortOrTopK(Src &s, bool topk) {
  Sliced r = genSliced(s, 400);
  bool asc = s.chance(50);
  int64_t k = topk ? (s.chance(60) ? s.range(1, std::max<int64_t>(1, r.n))
                                   : s.range(0, r.n))
                   : r.n;
  if (topk && k > r.n)
    k = r.n;
  bool sorted = topk ? !s.chance(25) : true;
  s.note("%s type=%s shape=%s strides=%s asc=%d k=%" PRId64 " sorted=%d data=",
      topk ? "topk" : "sort", r.ty->name, vs(r.shape).c_str(),
      vs(r.strides).c_str(), asc, k, sorted);
  for (int64_t i = 0; i < std::min<int64_t>(r.extent, 40); ++i)
    s.noteStr(showElem(r.ty->t, &r.data[i * r.ty->size]) + " ");
  Buf in(r.data.size(), r.data.data());
  Buf ord(r.extent * 8);
  uint64_t *o = (uint64_t *)ord.p;
  for (int64_t i = 0; i < r.extent; ++i)
    o[i] = SENT;
  forSlices(r, [&](int64_t off) {
    for (int64_t i = 0; i < r.n; ++i)
      o[off + i] = i;
  });
  OMTensor *it = mk(in.p, r.shape, r.strides, r.ty->t);
  OMTensor *ot = mk(ord.p, r.shape, r.strides, ONNX_TYPE_INT64);
  if (topk)
    omTensorTopK(ot, it, r.shape.size() - 1, asc, k, sorted);
  else
    omTensorSort(ot, it, r.shape.size() - 1, asc);
  PCHECK(r.data.empty() || !memcmp(in.p, r.data.data(), r.data.size()),
      "the input was modified");
  std::vector<char> covered(r.extent, 0);
  bool ties = false;
  forSlices(r, [&](int64_t off) {
    for (int64_t i = 0; i < r.n; ++i)
      covered[off + i] = 1;
    std::vector<uint64_t> want = refOrder(r, off, asc);
    std::vector<uint64_t> got(o + off, o + off + r.n);
    for (int64_t i = 1; i < r.n; ++i)
      if (keyOf(r.ty->t, &r.data[(off + want[i]) * r.ty->size]) ==
          keyOf(r.ty->t, &r.data[(off + want[i - 1]) * r.ty->size]))
        ties = true;
    // still a permutation
    std::vector<uint64_t> p = got;
    std::sort(p.begin(), p.end());
    for (int64_t i = 0; i < r.n; ++i)
      PCHECK(p[i] == (uint64_t)i, "order is no longer a permutation at %" PRId64,
          off);
    std::vector<uint64_t> a(want.begin(), want.begin() + k),
        b(got.begin(), got.begin() + k);
    if (!sorted) {
      std::sort(a.begin(), a.end());
      std::sort(b.begin(), b.end());
    }
    for (int64_t i = 0; i < k; ++i)
      PCHECK(a[i] == b[i],
          "slice at %" PRId64 " position %" PRId64 ": index %" PRIu64
          ", expected %" PRIu64,
          off, i, b[i], a[i]);
  });
  for (int64_t i = 0; i < r.extent; ++i)
    if (!covered[i])
      PCHECK(o[i] == SENT, "wrote outside the tensor at %" PRId64, i);
  omTensorDestroy(it);
  omTensorDestroy(ot);
  if (r.extent && r.n > 2 && ties)
    s.nontrivial();
  s.label(std::string("type ") + r.ty->name);
  if (ties)
    s.label("ties");
  if (topk && k < (int64_t)(r.n * 0.9) && k > 1)
    s.label("heap path");
}
static void prop_sort(Src &s) { sortOrTopK(s, false); }
static void prop_topk(Src &s) { sortOrTopK(s, true); }

// The portable sort used where qsort_r does not exist.
static void prop_quicksort(Src &s) {
  Sliced r;
  r.ty = &TYS[s.draw(12)];
  r.n = s.range(1, 1 + (int64_t)s.draw(s.chance(10) ? 2000 : 40));
  r.shape = {r.n};
  r.strides = {1};
  r.extent = r.n;
  r.data.resize(r.n * r.ty->size);
  int64_t spread = s.chance(50) ? 3 : s.range(1, 60);
  for (int64_t i = 0; i < r.n; ++i)
    genElem(s, r.ty->t, &r.data[i * r.ty->size], spread);
  int shapeOf = s.weighted({4, 1, 1});
  if (shapeOf) { // presorted input, worst cases for the stack depth
    std::vector<uint64_t> o = refOrder(r, 0, shapeOf == 1);
    std::vector<unsigned char> d(r.data.size());
    for (int64_t i = 0; i < r.n; ++i)
      memcpy(&d[i * r.ty->size], &r.data[o[i] * r.ty->size], r.ty->size);
    r.data = d;
  }
  bool asc = s.chance(50);
  s.note("quick_sort type=%s n=%" PRId64 " asc=%d presort=%d data=",
      r.ty->name, r.n, asc, shapeOf);
  for (int64_t i = 0; i < std::min<int64_t>(r.extent, 40); ++i)
    s.noteStr(showElem(r.ty->t, &r.data[i * r.ty->size]) + " ");
  srand((unsigned)s.draw(1000));
  Buf in(r.data.size(), r.data.data());
  Buf ord(r.n * 8);
  uint64_t *o = (uint64_t *)ord.p;
  // any initial permutation must lead to the same order
  std::vector<int64_t> p0 = s.chance(30) && r.n < 100
                                ? s.perm(r.n)
                                : std::vector<int64_t>();
  for (int64_t i = 0; i < r.n; ++i)
    o[i] = p0.empty() ? i : p0[i];
  quick_sort_custom(o, r.n, 8, getCompareFunction(asc, r.ty->t), in.p);
  std::vector<uint64_t> want = refOrder(r, 0, asc);
  for (int64_t i = 0; i < r.n; ++i)
    PCHECK(o[i] == want[i], "position %" PRId64 ": %" PRIu64 " expected %" PRIu64,
        i, o[i], want[i]);
  if (r.n > 3)
    s.nontrivial();
}

// ---- R06 --------------------------------------------------------------------
static void prop_unique(Src &s) {
  const Ty *ty = &TYS[s.draw(11)]; // no float16
  int rank = 1 + s.weighted({5, 4, 3, 2, 1, 1});
  std::vector<int64_t> sh;
  int64_t n = 1;
  for (int i = 0; i < rank; ++i) {
    int64_t d = s.chance(4) ? 0 : s.range(1, rank == 1 ? 40 : 5);
    if (n * std::max<int64_t>(d, 1) > 300)
      d = 1;
    n *= std::max<int64_t>(d, 1);
    sh.push_back(d);
  }
  n = prod(sh);
  int64_t axis = s.chance(60) ? s.range(0, rank - 1) : -1;
  bool sorted = !s.chance(40);
  std::vector<unsigned char> data(n * ty->size);
  int64_t spread = s.chance(60) ? 1 : s.range(1, 12);
  for (int64_t i = 0; i < n; ++i)
    genElem(s, ty->t, &data[i * ty->size], spread);
  // Make equal slices likely: copy slices along the axis.
  int64_t dim = axis < 0 ? n : sh[axis];
  std::vector<int64_t> st = rowMajor(sh);
  std::vector<std::vector<int64_t>> sliceIdx(dim);
  std::vector<int64_t> restOfSlice;
  if (axis < 0)
    for (int64_t i = 0; i < n; ++i)
      sliceIdx[i] = {i};
  else
    for (int64_t e = 0; e < n; ++e) // row-major walk: remaining dims in order
      sliceIdx[(e / st[axis]) % sh[axis]].push_back(e);
  if (axis >= 0 && dim > 1) {
    int64_t copies = s.range(0, dim);
    for (int64_t c = 0; c < copies; ++c) {
      int64_t a = s.draw(dim), b = s.draw(dim);
      for (size_t i = 0; i < sliceIdx[a].size(); ++i)
        memcpy(&data[sliceIdx[b][i] * ty->size], &data[sliceIdx[a][i] * ty->size],
            ty->size);
    }
  }
  // Which optional outputs exist, and how an absent one is passed.
  int mode[3];
  for (int &m : mode)
    m = s.weighted({4, 1, 1}); // present, NULL, empty tensor
  s.note("unique type=%s shape=%s axis=%" PRId64
         " sorted=%d outputs(0=present,1=NULL,2=empty)=%d%d%d data=",
      ty->name, vs(sh).c_str(), axis, sorted, mode[0], mode[1], mode[2]);
  for (int64_t i = 0; i < std::min<int64_t>(n, 60); ++i)
    s.noteStr(showElem(ty->t, &data[i * ty->size]) + " ");
  // reference
  auto key = [&](int64_t i) {
    std::vector<LD> k;
    for (int64_t e : sliceIdx[i])
      k.push_back(keyOf(ty->t, &data[e * ty->size]));
    return k;
  };
  std::vector<std::vector<LD>> keys;
  for (int64_t i = 0; i < dim; ++i)
    keys.push_back(key(i));
  std::vector<int64_t> first; // first occurrence of each unique slice
  std::vector<int64_t> cls(dim);
  for (int64_t i = 0; i < dim; ++i) {
    size_t j = 0;
    while (j < first.size() && keys[first[j]] != keys[i])
      ++j;
    if (j == first.size())
      first.push_back(i);
    cls[i] = j;
  }
  std::vector<int64_t> ord(first.size());
  for (size_t i = 0; i < ord.size(); ++i)
    ord[i] = i;
  if (sorted)
    std::stable_sort(ord.begin(), ord.end(),
        [&](int64_t a, int64_t b) { return keys[first[a]] < keys[first[b]]; });
  std::vector<int64_t> pos(ord.size());
  for (size_t i = 0; i < ord.size(); ++i)
    pos[ord[i]] = i;
  int64_t cnt = (int64_t)first.size();

  Buf in(data.size(), data.data());
  OMTensor *X = mk(in.p, sh, st, ty->t);
  int64_t total = -7, total2 = -7;
  OMTensor *T = mk(&total, {}, {}, ONNX_TYPE_INT64);
  OMTensor *T2 = mk(&total2, {}, {}, ONNX_TYPE_INT64);
  omTensorUniqueCount(T, X, axis, sorted);
  PCHECK(total == cnt, "count %" PRId64 " expected %" PRId64, total, cnt);
  std::vector<int64_t> ysh = axis < 0 ? std::vector<int64_t>{cnt} : sh;
  if (axis >= 0)
    ysh[axis] = cnt;
  Buf yb(prod(ysh) * ty->size);
  OMTensor *Y = mk(yb.p, ysh, rowMajor(ysh), ty->t);
  int64_t len[3] = {cnt, dim, cnt};
  std::unique_ptr<Buf> ob[3];
  OMTensor *O[3];
  for (int i = 0; i < 3; ++i) {
    int64_t l = mode[i] == 0 ? len[i] : 0;
    ob[i].reset(new Buf(l * 8));
    memset(ob[i]->p, 0x5a, l * 8);
    O[i] = mode[i] == 1 ? nullptr : mk(ob[i]->p, {l}, {1}, ONNX_TYPE_INT64);
  }
  omTensorUnique(T2, Y, O[0], O[1], O[2], X, axis, sorted);
  PCHECK(total2 == cnt, "total %" PRId64 " expected %" PRId64, total2, cnt);
  PCHECK(data.empty() || !memcmp(in.p, data.data(), data.size()),
      "the input was modified");
  // Y: slices in order; compare by value
  std::vector<int64_t> yst = rowMajor(ysh);
  std::vector<std::vector<int64_t>> ySlice(cnt);
  int64_t yn = prod(ysh);
  for (int64_t e = 0; e < yn; ++e)
    ySlice[axis < 0 ? e : (e / yst[axis]) % cnt].push_back(e);
  for (int64_t i = 0; i < cnt; ++i) {
    const auto &w = keys[first[ord[i]]];
    PCHECK(ySlice[i].size() == w.size() || yn == 0, "internal");
    for (size_t j = 0; j < ySlice[i].size(); ++j) {
      LD g = keyOf(ty->t, (char *)yb.p + ySlice[i][j] * ty->size);
      PCHECK(g == w[j],
          "Y slice %" PRId64 " element %zu: %Lg expected %Lg", i, j, g, w[j]);
    }
  }
  int64_t *I = (int64_t *)ob[0]->p, *V = (int64_t *)ob[1]->p,
          *C = (int64_t *)ob[2]->p;
  for (int64_t i = 0; i < cnt; ++i) {
    if (mode[0] == 0)
      PCHECK(I[i] == first[ord[i]],
          "indices[%" PRId64 "]=%" PRId64 " expected %" PRId64, i, I[i],
          first[ord[i]]);
    if (mode[2] == 0) {
      int64_t c = 0;
      for (int64_t j = 0; j < dim; ++j)
        c += cls[j] == ord[i];
      PCHECK(C[i] == c, "counts[%" PRId64 "]=%" PRId64 " expected %" PRId64, i,
          C[i], c);
    }
  }
  if (mode[1] == 0)
    for (int64_t i = 0; i < dim; ++i)
      PCHECK(V[i] == pos[cls[i]],
          "inverse_indices[%" PRId64 "]=%" PRId64 " expected %" PRId64, i, V[i],
          pos[cls[i]]);
  for (OMTensor *t : {X, T, T2, Y, O[0], O[1], O[2]})
    if (t)
      omTensorDestroy(t);
  if (cnt > 1 && cnt < dim)
    s.nontrivial();
  s.label(axis < 0 ? "flat" : "axis");
  if (mode[0] || mode[1] || mode[2])
    s.label("absent outputs");
}

// ---- R07 --------------------------------------------------------------------
static void prop_resize(Src &s) {
  int rank = 1 + s.weighted({2, 3, 2, 3});
  std::vector<int64_t> sh, osh;
  std::vector<float> scales;
  bool bySize = s.chance(50);
  int mode = s.weighted({4, 4, 2}); // linear, cubic, nearest
  int64_t n = 1, on = 1;
  bool changed = false;
  for (int i = 0; i < rank; ++i) {
    int64_t d = s.range(1, rank == 1 ? 64 : rank == 2 ? 9 : 4);
    int64_t o;
    float sc;
    if (s.chance(25)) {
      o = d;
      sc = 1;
    } else {
      o = s.range(1, rank == 1 ? 130 : rank == 2 ? 17 : 6);
      if (bySize)
        sc = (float)o / d;
      else // never close to the point where the output size changes
        sc = (float)((o + s.range(1, 9) * 0.1) / d);
      changed |= o != d;
    }
    n *= d;
    on *= o;
    sh.push_back(d);
    osh.push_back(o);
    scales.push_back(sc);
  }
  std::vector<float> data(n);
  for (auto &x : data)
    x = (float)s.range(-100, 100) * 0.25f;
  static const char *modes[] = {"linear", "cubic", "nearest"};
  s.note("resize mode=%s by=%s in=%s out=%s scales=", modes[mode],
      bySize ? "size" : "scales", vs(sh).c_str(), vs(osh).c_str());
  for (float f : scales)
    s.note("%.9g ", f);
  Buf in(n * 4, data.data()), out(on * 4);
  OMTensor *X = mk(in.p, sh, rowMajor(sh), ONNX_TYPE_FLOAT);
  OMTensor *Y = mk(out.p, osh, rowMajor(osh), ONNX_TYPE_FLOAT);
  Buf par(8 * rank);
  for (int i = 0; i < rank; ++i)
    if (bySize)
      ((int64_t *)par.p)[i] = osh[i];
    else
      ((float *)par.p)[i] = scales[i];
  OMTensor *P =
      mk(par.p, {rank}, {1}, bySize ? ONNX_TYPE_INT64 : ONNX_TYPE_FLOAT);
  char ms[16], nm[32];
  strcpy(ms, modes[mode]);
  strcpy(nm, "round_prefer_floor");
  if (bySize)
    Resize_Size(Y, X, P, ms, nm);
  else
    Resize_Scales(Y, X, P, ms, nm);
  PCHECK(!memcmp(in.p, data.data(), n * 4), "the input was modified");
  // Reference: separable interpolation, half_pixel coordinates, clamped edges.
  std::vector<int64_t> ist = rowMajor(sh), ost = rowMajor(osh);
  double mx = 0;
  for (float f : data)
    mx = std::max(mx, (double)std::fabs(f));
  for (int64_t e = 0; e < on; ++e) {
    std::vector<std::vector<std::pair<int64_t, double>>> w(rank);
    bool ambiguous = false;
    for (int i = 0; i < rank; ++i) {
      int64_t o = (e / ost[i]) % osh[i];
      double x = ((double)o + 0.5) / (double)scales[i] - 0.5;
      double f = std::floor(x), r = x - f;
      auto add = [&](int64_t at, double c) {
        at = std::max<int64_t>(0, std::min<int64_t>(sh[i] - 1, at));
        w[i].push_back({at, c});
      };
      if (mode == 0) {
        add((int64_t)f, 1 - r);
        add((int64_t)f + 1, r);
      } else if (mode == 1) {
        const double A = -0.75;
        for (int k = -1; k <= 2; ++k) {
          double t = std::fabs(r - k), c;
          if (t <= 1)
            c = ((A + 2) * t - (A + 3)) * t * t + 1;
          else
            c = ((A * t - 5 * A) * t + 8 * A) * t - 4 * A;
          add((int64_t)f + k, c);
        }
      } else {
        if (std::fabs(r - 0.5) < 1e-4)
          ambiguous = true;
        add((int64_t)std::ceil(x - 0.5), 1);
      }
    }
    if (ambiguous)
      continue;
    double acc = 0;
    std::function<void(int, int64_t, double)> go = [&](int i, int64_t off,
                                                       double c) {
      if (i == rank) {
        acc += c * data[off];
        return;
      }
      for (auto &p : w[i])
        go(i + 1, off + p.first * ist[i], c * p.second);
    };
    go(0, 0, 1);
    double got = ((float *)out.p)[e];
    PCHECK(std::fabs(got - acc) <= 2e-4 * (mx + 1),
        "output %" PRId64 ": %g expected %g", e, got, acc);
  }
  omTensorDestroy(X);
  omTensorDestroy(Y);
  omTensorDestroy(P);
  s.label(modes[mode]);
  s.label("rank " + std::to_string(rank));
  if (changed && n > 1)
    s.nontrivial();
}

// ---- R08 --------------------------------------------------------------------
static void prop_random(Src &s) {
  bool dbl = s.chance(50), normal = s.chance(50);
  int64_t n = s.weighted({1, 5, 2}) == 0 ? s.range(0, 2)
              : s.chance(20)             ? 4000
                                         : s.range(1, 400);
  double seed = s.chance(80) ? (double)s.range(0, 1000000)
                             : (double)s.range(0, 1000) * 0.25;
  double a = (double)s.range(-2000, 2000) * 0.125,
         b = (double)s.range(0, 4000) * 0.125;
  double seed2 = seed + 1 + (double)s.range(0, 50);
  size_t es = dbl ? 8 : 4;
  s.note("random %s %s n=%" PRId64 " seed=%g p1=%g p2=%g",
      normal ? "normal(mean,scale)" : "uniform(low,high-low)", dbl ? "f64" : "f32",
      n, seed, a, b);
  const int G = 4;
  auto gen = [&](double sd, std::vector<double> &v, std::string &raw) {
    Buf buf((n + G) * es);
    memset(buf.p, 0x77, (n + G) * es);
    if (normal) {
      if (dbl)
        get_random_normal_value_f64((double *)buf.p, n, a, b, sd);
      else
        get_random_normal_value_f32(
            (float *)buf.p, n, (float)a, (float)b, (float)sd);
    } else {
      std::vector<int64_t> sh{n};
      if (n % 6 == 0 && n)
        sh = {2, n / 6, 3};
      OMTensor *t = mk(
          buf.p, sh, rowMajor(sh), dbl ? ONNX_TYPE_DOUBLE : ONNX_TYPE_FLOAT);
      OMTensor *r = run_uniform_random(t, (float)a, (float)(a + b), (float)sd);
      PCHECK(r == t, "result tensor");
      omTensorDestroy(t);
    }
    for (size_t i = n * es; i < (n + G) * es; ++i)
      PCHECK(((unsigned char *)buf.p)[i] == 0x77, "wrote past the elements");
    raw.assign((char *)buf.p, n * es);
    v.clear();
    for (int64_t i = 0; i < n; ++i)
      v.push_back(dbl ? ((double *)buf.p)[i] : ((float *)buf.p)[i]);
  };
  std::vector<double> v, v2, v3;
  std::string r1, r2, r3;
  gen(seed, v, r1);
  gen(seed2, v3, r3);
  for (int64_t i = (int64_t)s.draw(50); i > 0; --i)
    (void)rand(); // state left behind by other users of the generator
  gen(seed, v2, r2);
  PCHECK(r1 == r2, "the same seed gave two different sequences");
  double sc = std::fabs(a) + b;
  double sum = 0, sq = 0;
  for (double x : v) {
    PCHECK(std::isfinite(x), "not finite: %g", x);
    if (!normal)
      PCHECK(x >= a - 1e-6 * sc && x <= a + b + 1e-6 * sc,
          "%.9g outside [%g, %g]", x, a, a + b);
    sum += x;
    sq += (x - a) * (x - a);
  }
  if (n >= 4000 && b > 0) {
    double mean = sum / n, want = normal ? a : a + b / 2;
    double sd = normal ? b : b / std::sqrt(12.);
    PCHECK(std::fabs(mean - want) <= 6 * sd / std::sqrt((double)n) + 1e-4 * sc,
        "sample mean %g, expected %g (deviation %g)", mean, want, sd);
    double var = sq / n - (normal ? 0 : 0);
    double wvar = normal ? b * b : b * b / 3; // second moment about a
    PCHECK(std::fabs(var - wvar) <= 0.15 * wvar + 1e-3 * sc,
        "second moment %g, expected %g", var, wvar);
    s.label("moments");
  }
  // The seed matters: two seeds giving the same 32 values would be a fault.
  if (n >= 32 && b > sc * 1e-3 && (unsigned)seed != (unsigned)seed2) {
    PCHECK(r1 != r3, "different seeds gave the same sequence");
    std::set<double> d(v.begin(), v.end());
    PCHECK(d.size() > 8, "only %zu distinct values", d.size());
  }
  s.label(normal ? (dbl ? "normal f64" : "normal f32")
                 : (dbl ? "uniform f64" : "uniform f32"));
  if (n > 8)
    s.nontrivial();
}

// ---- R10 --------------------------------------------------------------------
static std::string gDir;
static void extSetup() {
  gDir = tmpDir("ext");
  atexit([] {
    for (const char *f : {"/a.bin", "/b.bin", "/sub/a.bin", "/sub/b.bin"})
      unlink((gDir + f).c_str());
    rmdir((gDir + "/sub").c_str());
    rmdir(gDir.c_str());
  });
}
static void prop_extconst(Src &s) {
  if (gDir.empty())
    extSetup();
  mkdir((gDir + "/sub").c_str(), 0755);
  // Files with known content in two directories.
  struct F {
    std::string rel;
    std::string content;
    bool present;
  };
  std::vector<F> fs;
  for (const char *r : {"a.bin", "b.bin", "sub/a.bin", "sub/b.bin"}) {
    F f;
    f.rel = r;
    f.present = !s.chance(15);
    size_t n = s.chance(20) ? 4096 * s.range(1, 3) : s.range(1, 9000);
    uint64_t k = s.draw(251);
    f.content.resize(n);
    for (size_t i = 0; i < n; ++i)
      f.content[i] = (char)(i * 7 + k * 13 + (i >> 8));
    std::string p = gDir + "/" + f.rel;
    unlink(p.c_str());
    if (f.present) {
      FILE *o = fopen(p.c_str(), "w");
      fwrite(f.content.data(), 1, n, o);
      fclose(o);
    }
    fs.push_back(f);
  }
  struct M { // one model: base address slot and derived constants
    void *base[1] = {nullptr};
    int file = -1;
    int64_t size = 0;
    void *addr[3][1] = {{nullptr}, {nullptr}, {nullptr}};
    int64_t off[3] = {-1, -1, -1};
  };
  std::vector<M> ms(2);
  int ops = (int)s.range(1, 12);
  int dirOf = 0; // 0: unset + absolute names, 1: gDir, 2: gDir/sub
  int loads = 0, fails = 0, unloads = 0;
  unsetenv("OM_CONSTANT_PATH");
  for (int q = 0; q < ops; ++q) {
    M &m = ms[s.draw(2)];
    switch (s.weighted({4, 4, 3, 2})) {
    case 0: { // load
      int which = (int)s.draw(2);
      int idx = dirOf == 2 ? 2 + which : which;
      F &f = fs[idx];
      std::string name = dirOf ? std::string(which ? "b.bin" : "a.bin")
                               : gDir + "/" + f.rel;
      int kind = s.weighted({6, 2, 2, 1, 1});
      int64_t size = (int64_t)f.content.size();
      if (kind == 1)
        size = s.range(1, size);
      else if (kind == 2)
        size += s.range(1, 9000); // the file is shorter than the model expects
      else if (kind == 3)
        size = -(int64_t)s.draw(3);
      int64_t le = !s.chance(10);
      char nm[300];
      snprintf(nm, sizeof nm, "%s", name.c_str());
      void *before = m.base[0];
      bool ok = omLoadConstantData(m.base, nm, size, le);
      bool want;
      if (size <= 0)
        want = false;
      else if (before)
        want = true;
      else
        want = le && f.present && size <= (int64_t)f.content.size();
      s.note("load dir=%d %s size=%" PRId64 "/%zu le=%d present=%d -> %d; ",
          dirOf, f.rel.c_str(), size, f.content.size(), (int)le, f.present, ok);
      PCHECK(ok == want, "load returned %d, expected %d", ok, want);
      if (before || !want)
        PCHECK(m.base[0] == before, "address changed by a %s load",
            before ? "repeated" : "failing");
      else {
        PCHECK(m.base[0] != nullptr, "no address after a successful load");
        m.file = idx;
        m.size = size;
        PCHECK(!memcmp(m.base[0], f.content.data(), size),
            "loaded bytes differ from the file");
        loads++;
      }
      if (!want)
        fails++;
      break;
    }
    case 1: { // constant address
      if (!m.base[0])
        break;
      int k = (int)s.draw(3);
      int64_t off = s.range(0, m.size - 1);
      omGetExternalConstantAddr(m.addr[k], m.base, off);
      if (m.off[k] < 0)
        m.off[k] = off;
      s.note("addr %d +%" PRId64 "; ", k, m.off[k]);
      PCHECK(m.addr[k][0] == (char *)m.base[0] + m.off[k], "constant address");
      PCHECK(*(char *)m.addr[k][0] == fs[m.file].content[m.off[k]],
          "constant value");
      break;
    }
    case 2: { // unload
      bool want = m.base[0] != nullptr;
      bool ok = omUnloadConstantData(m.base, m.size);
      s.note("unload -> %d; ", ok);
      PCHECK(ok == want, "unload returned %d, expected %d", ok, want);
      PCHECK(m.base[0] == nullptr, "address kept after unloading");
      if (want)
        unloads++;
      for (int k = 0; k < 3; ++k) {
        m.addr[k][0] = nullptr;
        m.off[k] = -1;
      }
      m.file = -1;
      break;
    }
    default:
      dirOf = (int)s.draw(3);
      if (dirOf == 0)
        unsetenv("OM_CONSTANT_PATH");
      else
        setenv("OM_CONSTANT_PATH", (dirOf == 1 ? gDir : gDir + "/sub").c_str(),
            1);
      s.note("dir=%d; ", dirOf);
    }
    // every loaded model still sees its file
    for (M &x : ms)
      if (x.base[0]) {
        PCHECK(!memcmp(x.base[0], fs[x.file].content.data(), x.size),
            "constants changed");
      }
  }
  for (M &x : ms)
    if (x.base[0])
      omUnloadConstantData(x.base, x.size);
  PCHECK(!omLoadConstantData(nullptr, (char *)"x", 4, 1), "null slot accepted");
  PCHECK(!omUnloadConstantData(nullptr, 4), "null slot unloaded");
  if (loads && (fails || unloads))
    s.nontrivial();
  if (fails)
    s.label("failing load");
  if (unloads)
    s.label("unload");
  unsetenv("OM_CONSTANT_PATH");
}

// Constants files over 2 and 4 GB (sparse, so that they cost nothing).
static void prop_extbig(Src &s) {
  if (gDir.empty())
    extSetup();
  static const int64_t edge[] = {(int64_t)1 << 31, (int64_t)1 << 32, 4096, 0};
  int64_t size = edge[s.draw(3)] + s.range(-4096, 3 * 4096);
  if (size <= 0)
    size = 1;
  std::string p = gDir + "/big.bin";
  FILE *o = fopen(p.c_str(), "w");
  PCHECK(o && !ftruncate(fileno(o), size), "scratch file");
  std::map<int64_t, unsigned char> mark;
  int n = (int)s.range(1, 8);
  for (int i = 0; i < n; ++i) {
    int64_t off = s.draw(2) ? edge[s.draw(4)] + s.range(-2, 2)
                            : size - 1 - s.range(0, 4096);
    off = std::min(std::max<int64_t>(off, 0), size - 1);
    unsigned char v = 1 + (unsigned char)s.draw(255);
    mark[off] = v;
    fseeko(o, off, SEEK_SET);
    fputc(v, o);
  }
  fclose(o);
  int64_t want = s.chance(20) ? size + s.range(1, 4096) : size;
  s.note("file of %" PRId64 ", expected %" PRId64, size, want);
  void *base[1] = {nullptr};
  setenv("OM_CONSTANT_PATH", gDir.c_str(), 1);
  char nm[] = "big.bin";
  bool ok = omLoadConstantData(base, nm, want, 1);
  unsetenv("OM_CONSTANT_PATH");
  PCHECK(ok == (want == size), "load returned %d", ok);
  if (ok) {
    for (auto &m : mark) {
      void *a[1] = {nullptr};
      omGetExternalConstantAddr(a, base, m.first);
      PCHECK(a[0] == (char *)base[0] + m.first,
          "address of the constant at %" PRId64, m.first);
      PCHECK(*(unsigned char *)a[0] == m.second,
          "constant at %" PRId64 " is %d, expected %d", m.first,
          *(unsigned char *)a[0], m.second);
    }
    PCHECK(omUnloadConstantData(base, size), "unload");
  }
  unlink(p.c_str());
  if (size > (int64_t)1 << 30)
    s.nontrivial();
}

// ---- R12 --------------------------------------------------------------------
static uint32_t f2u(float f) {
  uint32_t u;
  memcpy(&u, &f, 4);
  return u;
}
static float u2f(uint32_t u) {
  float f;
  memcpy(&f, &u, 4);
  return f;
}
// Round to nearest even by searching the ordered magnitudes.
static uint16_t refToF16(float f) {
  uint16_t sign = f2u(f) >> 31 ? 0x8000 : 0;
  double m = std::fabs((double)f);
  // magnitudes 0..0x7c00 are ordered; treat 0x7c00 as 65536 for rounding
  auto val = [](int i) { return i == 0x7c00 ? 65536.0 : f16val((uint16_t)i); };
  int lo = 0, hi = 0x7c00;
  if (m >= 65536.0)
    return sign | 0x7c00;
  while (hi - lo > 1) {
    int mid = (lo + hi) / 2;
    if (val(mid) <= m)
      lo = mid;
    else
      hi = mid;
  }
  double dl = m - val(lo), dh = val(hi) - m;
  int r = dl < dh ? lo : dh < dl ? hi : (lo & 1) ? hi : lo;
  return sign | (uint16_t)r;
}
static uint16_t refToBF16(float f) {
  uint32_t u = f2u(f), sign = u & 0x80000000u, mag = u & 0x7fffffffu;
  uint32_t lo = mag >> 16, rest = mag & 0xffff;
  if (rest > 0x8000 || (rest == 0x8000 && (lo & 1)))
    lo++;
  return (uint16_t)(sign >> 16 | lo);
}
static void prop_smallfp(Src &s) {
  // A block of 512 encodings of each kind, or a block of floats around the
  // rounding boundaries of a generated encoding.
  uint16_t base = (uint16_t)(s.draw(128) * 512);
  s.note("encodings %#x..+511", base);
  for (int i = 0; i < 512; ++i) {
    uint16_t h = (uint16_t)(base + i);
    double w = f16val(h);
    float g = om_f16_to_f32(h);
    if (std::isnan(w)) {
      PCHECK(std::isnan(g), "f16 %#x is NaN, got %g", h, g);
      uint16_t back = om_f32_to_f16(g);
      PCHECK(std::isnan(f16val(back)), "NaN became %#x", back);
    } else {
      PCHECK((double)g == w && std::signbit(g) == std::signbit(w),
          "f16 %#x -> %g expected %g", h, g, w);
      PCHECK(om_f32_to_f16(g) == h, "f16 %#x round trip %#x", h,
          om_f32_to_f16(g));
    }
    uint32_t bu = (uint32_t)h << 16;
    float b = om_bf16_to_f32(h);
    if (std::isnan(u2f(bu)))
      PCHECK(std::isnan(b) && std::isnan(om_bf16_to_f32(om_f32_to_bf16(b))),
          "bf16 NaN %#x", h);
    else {
      PCHECK(f2u(b) == bu, "bf16 %#x -> %g", h, b);
      PCHECK(om_f32_to_bf16(b) == h, "bf16 %#x round trip", h);
    }
  }
  s.countEvals(4 * 512);
  auto one = [&](float f) {
    uint16_t h = om_f32_to_f16(f), b = om_f32_to_bf16(f);
    if (std::isnan(f)) {
      PCHECK(std::isnan(f16val(h)), "f32 NaN %#x -> f16 %#x", f2u(f), h);
      PCHECK(std::isnan(u2f((uint32_t)b << 16)), "f32 NaN %#x -> bf16 %#x",
          f2u(f), b);
    } else {
      PCHECK(h == refToF16(f), "f32 %#x (%g) -> f16 %#x expected %#x", f2u(f), f,
          h, refToF16(f));
      PCHECK(b == refToBF16(f), "f32 %#x (%g) -> bf16 %#x expected %#x", f2u(f),
          f, b, refToBF16(f));
    }
  };
  for (int i = 0; i < 256; ++i) {
    uint32_t u;
    switch (s.draw(4)) {
    case 0: // uniformly random bits
      u = (uint32_t)s.bits();
      break;
    case 1: { // around a f16 value or the midpoint to its neighbour
      uint16_t h = (uint16_t)s.bits();
      float a = (float)f16val(h & 0x7fff), c = (float)f16val((h & 0x7fff) + 1);
      float m = s.chance(60) ? (a + c) / 2 : a;
      u = f2u(m) + (uint32_t)s.draw(5) - 2;
      u ^= (uint32_t)(h & 0x8000) << 16;
      break;
    }
    case 2: // around a bf16 midpoint
      u = ((uint32_t)s.draw(65536) << 16) + 0x8000 + (uint32_t)s.draw(5) - 2;
      break;
    default: { // powers of two and their neighbourhood
      u = ((uint32_t)s.draw(256) << 23) + (uint32_t)s.draw(5) - 2;
      u ^= (uint32_t)s.draw(2) << 31;
    }
    }
    one(u2f(u));
  }
  s.countEvals(512);
  s.nontrivial();
}

int main(int argc, char **argv) {
  return mainFor(
      {
          {"sort", prop_sort, nullptr},
          {"topk", prop_topk, nullptr},
          {"quicksort", prop_quicksort, nullptr},
          {"unique", prop_unique, nullptr},
          {"resize", prop_resize, nullptr},
          {"random", prop_random, nullptr},
          {"extconst", prop_extconst, nullptr},
          {"extbig", prop_extbig, nullptr},
          {"smallfp", prop_smallfp, nullptr},
      },
      argc, argv);
}
