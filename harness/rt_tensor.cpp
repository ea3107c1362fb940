// R01/R02/R03: OMTensor / OMTensorList as a stateful model-based test.
// Built twice: against the C objects that are embedded in every compiled model
// (RT_C) and against the C++ objects used by drivers (RT_CPP).
#include "OnnxMlirRuntime.h"
#include "pbt.hpp"
#include <complex>
#include <memory>
#if defined(RT_CPP)
#include "src/Runtime/OMTensorHelper.hpp"
#endif

using namespace pbt;

#if defined(RT_C)
extern "C" {
OMTensor *omTensorCreateUntyped(int64_t rank);
void omTensorSetDataPtr(
    OMTensor *tensor, int64_t owning, void *allocatedPtr, void *alignedPtr);
}
#endif

// ---- allocation tracking and fault injection -------------------------------
extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void __real_free(void *);
static bool gTrack = false;
static int64_t gFailAt = -1; // fail the k-th tracked allocation
static int64_t gAllocs = 0;
static std::map<void *, size_t> *gLive = nullptr;
static std::vector<std::pair<void *, int>> *gFrees = nullptr;
static void noteAlloc(void *p, size_t n) {
  if (gTrack && p) {
    gTrack = false;
    (*gLive)[p] = n;
    gTrack = true;
  }
}
void *__wrap_malloc(size_t n) {
  if (gTrack && gFailAt >= 0 && gAllocs++ == gFailAt)
    return nullptr;
  void *p = __real_malloc(n);
  noteAlloc(p, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  if (gTrack && gFailAt >= 0 && gAllocs++ == gFailAt)
    return nullptr;
  void *p = __real_calloc(a, b);
  noteAlloc(p, a * b);
  return p;
}
void __wrap_free(void *p) {
  if (gTrack && p) {
    gTrack = false;
    auto it = gLive->find(p);
    gFrees->push_back({p, it != gLive->end()});
    if (it != gLive->end())
      gLive->erase(it);
    gTrack = true;
  }
  __real_free(p);
}
}
struct Tracking {
  Tracking() {
    gLive = new std::map<void *, size_t>;
    gFrees = new std::vector<std::pair<void *, int>>;
    gFailAt = -1;
    gAllocs = 0;
    gTrack = true;
  }
  ~Tracking() {
    gTrack = false;
    delete gLive;
    delete gFrees;
    gLive = nullptr;
    gFrees = nullptr;
  }
  static bool live(void *p) { return gLive->count(p); }
};

// ---- reference facts --------------------------------------------------------
struct TypeRow {
  int id;
  int size;
  const char *name;
};
// From the ONNX standard (TensorProto.DataType) and the documented C names.
static const TypeRow TYPES[] = {{1, 4, "float"}, {2, 1, "uint8_t"},
    {3, 1, "int8_t"}, {4, 2, "uint16_t"}, {5, 2, "int16_t"}, {6, 4, "int32_t"},
    {7, 8, "int64_t"}, {8, 8, "const char *"}, {9, 1, "_Bool"},
    {10, 2, "_Float16"}, {11, 8, "double"}, {12, 4, "uint32_t"},
    {13, 8, "uint64_t"}, {14, 8, "_Complex float"}, {15, 16, "_Complex double"},
    {16, 2, "bfloat16"}, {17, 1, "FLOAT8E4M3FN"}, {18, 1, "FLOAT8E4M3FNUZ"},
    {19, 1, "FLOAT8E5M2"}, {20, 1, "UINT4"}, {21, 1, "INT4"}};
static const TypeRow &typeRow(int id) {
  for (auto &t : TYPES)
    if (t.id == id)
      return t;
  abort();
}

static std::vector<int64_t> genShape(Src &s, int maxRank, int64_t maxElems) {
  int rank = (int)s.weighted({2, 4, 5, 5, 4, 3, 2, 1, 1});
  rank = std::min(rank, maxRank);
  std::vector<int64_t> sh;
  int64_t n = 1;
  for (int i = 0; i < rank; ++i) {
    int64_t d = s.weighted({3, 3, 6, 3, 1}) == 4
                    ? 0
                    : s.range(1, 1 + (int64_t)s.draw(s.chance(20) ? 40 : 6));
    if (n * std::max<int64_t>(d, 1) > maxElems)
      d = 1;
    n *= std::max<int64_t>(d, 1);
    sh.push_back(d);
  }
  return sh;
}
static int64_t prod(const std::vector<int64_t> &v) {
  int64_t n = 1;
  for (auto x : v)
    n *= x;
  return n;
}
static std::vector<int64_t> rowMajor(const std::vector<int64_t> &sh) {
  std::vector<int64_t> st(sh.size());
  int64_t n = 1;
  for (size_t i = sh.size(); i-- > 0;) {
    st[i] = n;
    n *= sh[i];
  }
  return st;
}
static std::string vs(const std::vector<int64_t> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i)
    r += (i ? "," : "") + std::to_string(v[i]);
  return r + "]";
}

// ---- model ------------------------------------------------------------------
struct MT {
  OMTensor *t = nullptr;
  std::vector<int64_t> shape, strides;
  bool stridesSet = true;
  bool shapeSet = true;
  int dtype = 0;
  void *data = nullptr, *alloc = nullptr;
  int64_t owning = 0;
  int lists = 0; // how many live lists hold it
};
struct ML {
  OMTensorList *l = nullptr;
  std::vector<int> items; // indices into the tensor pool
};

static void checkTensor(const MT &m) {
  PCHECK(omTensorGetRank(m.t) == (int64_t)m.shape.size(), "rank");
  PCHECK(omTensorGetDataType(m.t) == (OM_DATA_TYPE)m.dtype, "dtype %d vs %d",
      (int)omTensorGetDataType(m.t), m.dtype);
  PCHECK(omTensorGetDataPtr(m.t) == m.data, "data pointer");
  PCHECK(omTensorGetAllocatedPtr(m.t) == m.alloc, "allocated pointer");
  PCHECK((omTensorGetOwning(m.t) != 0) == (m.owning != 0), "owning flag");
  if (!m.shapeSet)
    return;
  const int64_t *sh = omTensorGetShape(m.t);
  for (size_t i = 0; i < m.shape.size(); ++i)
    PCHECK(sh[i] == m.shape[i], "shape[%zu]=%" PRId64 " want %s", i, sh[i],
        vs(m.shape).c_str());
  int64_t es = m.dtype ? typeRow(m.dtype).size : 0;
  PCHECK(omTensorGetBufferSize(m.t) == prod(m.shape) * es,
      "buffer size %" PRId64 " want %" PRId64, omTensorGetBufferSize(m.t),
      prod(m.shape) * es);
  if (!m.stridesSet)
    return;
  const int64_t *st = omTensorGetStrides(m.t);
  for (size_t i = 0; i < m.strides.size(); ++i)
    PCHECK(st[i] == m.strides[i], "strides[%zu]=%" PRId64 " want %s", i, st[i],
        vs(m.strides).c_str());
  if (m.strides == rowMajor(m.shape))
    PCHECK(omTensorGetNumElems(m.t) == prod(m.shape), "numElems");
}

static void stateProp(Src &s, bool ownership) {
  Tracking trk;
  std::vector<MT> pool;
  std::vector<ML> lists;
  // Buffers the "user" owns (must never be freed by the library) with content.
  std::map<void *, std::vector<unsigned char>> userBufs;
  std::vector<void *> toFree;
  auto liveTensors = [&]() {
    std::vector<int> r;
    for (int i = 0; i < (int)pool.size(); ++i)
      if (pool[i].t)
        r.push_back(i);
    return r;
  };
  auto freeTensors = [&]() { // not held by a list
    std::vector<int> r;
    for (int i = 0; i < (int)pool.size(); ++i)
      if (pool[i].t && !pool[i].lists)
        r.push_back(i);
    return r;
  };
  auto newBuf = [&](size_t n) {
    void *p = malloc(n ? n : 1);
    for (size_t i = 0; i < n; ++i)
      ((unsigned char *)p)[i] = (unsigned char)s.draw(256);
    userBufs[p] = std::vector<unsigned char>(
        (unsigned char *)p, (unsigned char *)p + n);
    return p;
  };
  auto countFrees = [&](void *p) {
    int c = 0;
    for (auto &f : *gFrees)
      c += f.first == p;
    return c;
  };
  // Drop the model's knowledge of a tensor that has just been destroyed and
  // check what happened to its buffer.
  auto afterDestroy = [&](MT &m) {
    if (m.owning && m.alloc) {
      PCHECK(countFrees(m.alloc) == 1,
          "owned buffer freed %d times on destroy", countFrees(m.alloc));
      userBufs.erase(m.alloc);
    } else if (m.alloc) {
      PCHECK(countFrees(m.alloc) == 0, "borrowed buffer freed on destroy");
    }
    m.t = nullptr;
  };
  int steps = 1 + (int)s.draw(s.chance(30) ? 40 : 14);
  int kinds = 0;
  unsigned kindMask = 0;
  auto fault = [&](int pctArm) {
    gAllocs = 0;
    gFailAt = ownership && s.chance(pctArm) ? (int64_t)s.draw(5) : -1;
  };
  for (int step = 0; step < steps; ++step) {
    gFrees->clear();
    int op = s.weighted({6, 5, 4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 2});
    if (op != 0 && liveTensors().empty())
      op = (int)s.draw(2);
    kindMask |= 1u << op;
    switch (op) {
    case 0:
    case 1: { // creation
      if (pool.size() > 12)
        break;
      MT m;
      m.shape = genShape(s, 9, 600);
      m.strides = rowMajor(m.shape);
      m.dtype = TYPES[s.draw(sizeof TYPES / sizeof *TYPES)].id;
      int64_t bytes = prod(m.shape) * typeRow(m.dtype).size;
      int how = s.weighted({3, 3, 3, 3, 1});
      s.note("create%d %s type%d; ", how, vs(m.shape).c_str(), m.dtype);
      size_t liveBefore;
      if (how == 0 || how == 1) {
        m.data = m.alloc = newBuf(bytes);
        m.owning = how == 0 ? 0 : (int64_t)s.draw(2);
        liveBefore = gLive->size();
        fault(25);
        m.t = how == 0 ? omTensorCreate(m.data, m.shape.data(), m.shape.size(),
                             (OM_DATA_TYPE)m.dtype)
                       : omTensorCreateWithOwnership(m.data, m.shape.data(),
                             m.shape.size(), (OM_DATA_TYPE)m.dtype, m.owning);
      } else if (how == 2) {
        liveBefore = gLive->size();
        fault(25);
        m.t = omTensorCreateEmpty(
            m.shape.data(), m.shape.size(), (OM_DATA_TYPE)m.dtype);
        m.owning = 1;
        if (m.t) {
          m.data = m.alloc = omTensorGetDataPtr(m.t);
          PCHECK(m.data, "no data");
          PCHECK(Tracking::live(m.alloc) && (*gLive)[m.alloc] >= (size_t)bytes,
              "buffer too small");
          memset(m.data, 0x5a, bytes);
          userBufs[m.data] = std::vector<unsigned char>(bytes, 0x5a);
        }
      } else if (how == 3) {
#if defined(RT_C)
        // What the generated wrapper of a model does.
        liveBefore = gLive->size();
        fault(25);
        m.t = omTensorCreateUntyped(m.shape.size());
        if (m.t) {
          gFailAt = -1;
          m.stridesSet = m.shapeSet = false;
          int dt = m.dtype;
          m.dtype = 0;
          checkTensor(m);
          m.dtype = dt;
          size_t extra = s.draw(3) * 16;
          char *a = (char *)newBuf(bytes + extra);
          m.owning = (int64_t)s.draw(2);
          bool nullAligned = extra == 0 && s.chance(50);
          omTensorSetDataPtr(
              m.t, m.owning, a, nullAligned ? nullptr : a + extra);
          m.alloc = a;
          m.data = a + extra;
          omTensorSetDataType(m.t, (OM_DATA_TYPE)m.dtype);
          omTensorSetShape(m.t, m.shape.data());
          omTensorSetStrides(m.t, m.strides.data());
          m.stridesSet = m.shapeSet = true;
          ++liveBefore; // the user's buffer
        }
#else
        liveBefore = gLive->size();
        const std::vector<int64_t> &shp = m.shape;
        fault(25);
#define MK(T, ID)                                                              \
  case ID:                                                                     \
    m.t = omTensorCreateWithShape<T>(shp);                                     \
    break;
        switch (m.dtype) {
          MK(bool, 9) MK(int8_t, 3) MK(uint8_t, 2) MK(int16_t, 5)
          MK(uint16_t, 4) MK(int32_t, 6) MK(uint32_t, 12) MK(int64_t, 7)
          MK(uint64_t, 13) MK(float, 1)
        default:
          m.dtype = 11;
          m.t = omTensorCreateWithShape<double>(shp);
        }
        bytes = prod(m.shape) * typeRow(m.dtype).size;
        m.owning = 1;
        if (m.t) {
          m.data = m.alloc = omTensorGetDataPtr(m.t);
          PCHECK(Tracking::live(m.alloc) && (*gLive)[m.alloc] >= (size_t)bytes,
              "buffer too small");
          memset(m.data, 0x33, bytes);
          userBufs[m.data] = std::vector<unsigned char>(bytes, 0x33);
        }
#endif
      } else { // undefined type has no storage: no tensor
        liveBefore = gLive->size();
        OMTensor *t = omTensorCreateEmpty(
            m.shape.data(), m.shape.size(), ONNX_TYPE_UNDEFINED);
        PCHECK(!t, "tensor created for the undefined type");
        PCHECK(gLive->size() == liveBefore, "leak");
        break;
      }
      bool injected = gFailAt >= 0 && gAllocs > gFailAt;
      gFailAt = -1;
      if (!m.t) {
        PCHECK(injected, "creation failed without an allocation failure");
        s.label("alloc-failure");
        s.nontrivial();
        PCHECK(gLive->size() == liveBefore,
            "failed creation leaked or freed memory (%zu live, was %zu)",
            gLive->size(), liveBefore);
        PCHECK(!m.alloc || countFrees(m.alloc) == 0,
            "failed creation freed the caller's buffer");
        break;
      }
      PCHECK(!injected, "creation succeeded although an allocation failed");
      checkTensor(m);
      pool.push_back(m);
      break;
    }
    case 2: { // destroy
      auto c = freeTensors();
      if (c.empty())
        break;
      MT &m = pool[s.pick(c)];
      s.note("destroy; ");
      omTensorDestroy(m.t);
      afterDestroy(m);
      break;
    }
    case 3: { // set shape
      auto &m = pool[s.pick(liveTensors())];
      std::vector<int64_t> p;
      for (auto i : s.perm(m.shape.size()))
        p.push_back(m.shape[i]);
      omTensorSetShape(m.t, p.data());
      m.shape = p;
      s.note("setShape %s; ", vs(p).c_str());
      omTensorSetShape(m.t, nullptr); // ignored
      break;
    }
    case 4: { // set strides
      auto &m = pool[s.pick(liveTensors())];
      std::vector<int64_t> p;
      for (size_t i = 0; i < m.shape.size(); ++i)
        p.push_back(s.range(-3, 50));
      omTensorSetStrides(m.t, p.data());
      m.strides = p;
      s.note("setStrides %s; ", vs(p).c_str());
      omTensorSetStrides(m.t, nullptr); // ignored
      break;
    }
    case 5: { // byte strides, as given by NumPy
      auto &m = pool[s.pick(liveTensors())];
      int64_t es = typeRow(m.dtype).size;
      std::vector<int64_t> el, by;
      for (size_t i = 0; i < m.shape.size(); ++i) {
        el.push_back(s.range(-3, 1000));
        by.push_back(el.back() * es);
      }
      omTensorSetStridesWithPyArrayStrides(m.t, by.data());
      m.strides = el;
      s.note("setByteStrides %s/%d; ", vs(by).c_str(), (int)es);
      omTensorSetStridesWithPyArrayStrides(m.t, nullptr);
      break;
    }
    case 6: { // dtype
      auto &m = pool[s.pick(liveTensors())];
      m.dtype = TYPES[s.draw(sizeof TYPES / sizeof *TYPES)].id;
      omTensorSetDataType(m.t, (OM_DATA_TYPE)m.dtype);
      s.note("setType %d; ", m.dtype);
      break;
    }
    case 7: { // owning
      auto &m = pool[s.pick(liveTensors())];
      m.owning = (int64_t)s.draw(2);
      omTensorSetOwning(m.t, m.owning);
      s.note("setOwning %d; ", (int)m.owning);
      break;
    }
    case 8: { // replace the data pointer
#if defined(RT_C)
      auto &m = pool[s.pick(liveTensors())];
      bool wasOwn = m.owning && m.alloc;
      void *old = m.alloc;
      size_t extra = s.draw(3) * 8;
      char *a = (char *)newBuf(40 + extra);
      int64_t own = (int64_t)s.draw(2);
      bool na = s.chance(40);
      gFrees->clear();
      omTensorSetDataPtr(m.t, own, a, na ? nullptr : a + extra);
      PCHECK(countFrees(old) == (wasOwn ? 1 : 0),
          "old %s buffer freed %d times", wasOwn ? "owned" : "borrowed",
          countFrees(old));
      if (wasOwn)
        userBufs.erase(old);
      m.alloc = a;
      m.data = na ? a : a + extra;
      m.owning = own;
      s.note("setDataPtr own=%d; ", (int)own);
#endif
      break;
    }
    case 9: { // list
      if (lists.size() > 5)
        break;
      ML l;
      auto c = freeTensors();
      std::vector<OMTensor *> arr;
      int n = (int)s.draw(c.size() + 1);
      auto p = s.perm(c.size());
      for (int i = 0; i < n; ++i) {
        l.items.push_back(c[p[i]]);
        arr.push_back(pool[c[p[i]]].t);
      }
      if (n && s.chance(15)) { // holes are legal
        l.items.push_back(-1);
        arr.push_back(nullptr);
      }
      s.note("list %zu; ", arr.size());
      size_t before = gLive->size();
      fault(25);
      l.l = omTensorListCreate(arr.data(), arr.size());
      bool injected = gFailAt >= 0 && gAllocs > gFailAt;
      gFailAt = -1;
      if (!l.l) {
        PCHECK(injected, "list creation failed");
        PCHECK(gLive->size() == before, "failed list creation leaked");
        break;
      }
      PCHECK(!injected, "list creation succeeded although malloc failed");
      // The list keeps a copy: the caller may reuse its array.
      for (auto &x : arr)
        x = (OMTensor *)0x1;
      for (int i : l.items)
        if (i >= 0)
          pool[i].lists++;
      lists.push_back(l);
      s.label("list");
      break;
    }
    case 10: { // destroy a list
      if (lists.empty())
        break;
      int li = (int)s.draw(lists.size());
      ML l = lists[li];
      lists.erase(lists.begin() + li);
      bool shallow = s.chance(50);
      s.note("listDestroy%s; ", shallow ? "Shallow" : "");
      if (shallow) {
        omTensorListDestroyShallow(l.l);
        for (int i : l.items)
          if (i >= 0)
            pool[i].lists--;
      } else {
        omTensorListDestroy(l.l);
        for (int i : l.items)
          if (i >= 0) {
            pool[i].lists--;
            afterDestroy(pool[i]);
          }
      }
      break;
    }
    case 11: { // write through the data pointer
      auto lt = liveTensors();
      auto &m = pool[s.pick(lt)];
      if (!m.alloc)
        break;
      auto &b = userBufs[m.alloc];
      if (b.empty())
        break;
      size_t off = (char *)m.data - (char *)m.alloc;
      if (off >= b.size())
        break;
      size_t i = s.draw(b.size() - off);
      unsigned char v = (unsigned char)s.draw(256);
      ((unsigned char *)omTensorGetDataPtr(m.t))[i] = v;
      b[off + i] = v;
      break;
    }
    case 12: { // null handles are tolerated
      omTensorDestroy(nullptr);
      omTensorListDestroy(nullptr);
      omTensorListDestroyShallow(nullptr);
      PCHECK(!omTensorGetDataPtr(nullptr) && !omTensorGetShape(nullptr) &&
                 !omTensorGetStrides(nullptr) &&
                 !omTensorGetAllocatedPtr(nullptr) &&
                 omTensorGetRank(nullptr) == 0 &&
                 omTensorGetNumElems(nullptr) == 0 &&
                 omTensorGetBufferSize(nullptr) == 0 &&
                 omTensorGetOwning(nullptr) == 0 &&
                 omTensorGetDataType(nullptr) == ONNX_TYPE_UNDEFINED,
          "null tensor accessors");
      PCHECK(!omTensorListGetOmtArray(nullptr) &&
                 omTensorListGetSize(nullptr) == 0 &&
                 !omTensorListGetOmtByIndex(nullptr, 0),
          "null list accessors");
      omTensorSetShape(nullptr, nullptr);
      omTensorSetStrides(nullptr, nullptr);
      omTensorSetOwning(nullptr, 1);
      omTensorSetDataType(nullptr, ONNX_TYPE_BOOL);
      break;
    }
    }
    // Invariants over the whole state after every step.
    for (auto &m : pool)
      if (m.t)
        checkTensor(m);
    for (auto &l : lists) {
      PCHECK(omTensorListGetSize(l.l) == (int64_t)l.items.size(), "list size");
      OMTensor **a = omTensorListGetOmtArray(l.l);
      for (size_t i = 0; i < l.items.size(); ++i) {
        OMTensor *want = l.items[i] < 0 ? nullptr : pool[l.items[i]].t;
        PCHECK(a[i] == want, "list array item %zu", i);
        PCHECK(omTensorListGetOmtByIndex(l.l, i) == want, "list item %zu", i);
      }
      for (int64_t i : {(int64_t)-1, (int64_t)l.items.size(),
               (int64_t)l.items.size() + 3, INT64_MIN, INT64_MAX})
        PCHECK(!omTensorListGetOmtByIndex(l.l, i), "out of range list index");
    }
    for (auto &b : userBufs) {
      PCHECK(Tracking::live(b.first), "a buffer disappeared");
      PCHECK(!memcmp(b.first, b.second.data(), b.second.size()),
          "buffer content changed");
    }
    for (auto &f : *gFrees)
      PCHECK(f.second, "free of an unknown or already freed pointer");
  }
  // Tear down: everything the library allocated is gone, user buffers remain.
  gFrees->clear();
  for (auto &l : lists) {
    omTensorListDestroyShallow(l.l);
  }
  for (auto &m : pool)
    if (m.t) {
      gFrees->clear();
      omTensorDestroy(m.t);
      afterDestroy(m);
    }
  for (auto &b : userBufs) {
    PCHECK(Tracking::live(b.first), "a borrowed buffer was freed");
    free(b.first);
  }
  if (!gLive->empty())
    PFAIL("%zu allocation(s) leaked, first of %zu bytes", gLive->size(),
        gLive->begin()->second);
  kinds = __builtin_popcount(kindMask);
  if (kinds >= 4 && pool.size() >= 2)
    s.nontrivial();
  s.label("ops=" + std::to_string(std::min(steps / 10 * 10, 40)));
}

// ---- printing ---------------------------------------------------------------
static int gCap = -1;
static std::string captureStdout(const std::function<void()> &f) {
  fflush(stdout);
  int saved = dup(1);
  gCap = memfd_create("cap", 0);
  dup2(gCap, 1);
  f();
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  off_t n = lseek(gCap, 0, SEEK_END);
  std::string r(n, 0);
  lseek(gCap, 0, SEEK_SET);
  if (read(gCap, &r[0], n) != n)
    r += "<short read>";
  close(gCap);
  return r;
}

static float f16ref(uint16_t h) {
  int e = (h >> 10) & 31, m = h & 1023;
  float v;
  if (e == 31)
    v = m ? NAN : INFINITY;
  else if (e == 0)
    v = std::ldexp((float)m, -24);
  else
    v = std::ldexp((float)(m | 1024), e - 25);
  return (h & 0x8000) ? -v : v;
}

static std::string fmt(const char *f, ...) {
  char b[512];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}

static void printProp(Src &s) {
  static const int kinds[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13};
  int dt = kinds[s.draw(13)];
  const TypeRow &tr = typeRow(dt);
  auto shape = genShape(s, 6, 200);
  int64_t n = prod(shape);
  int rank = (int)shape.size();
  // Layout: dense, or permuted / padded strides (data only).
  bool dense = s.chance(60);
  std::vector<int64_t> st = rowMajor(shape);
  int64_t cap = n;
  if (!dense) {
    auto p = s.perm(rank);
    int64_t k = 1 + (int64_t)s.draw(2);
    for (int i : p) {
      st[i] = k;
      k *= shape[i] ? shape[i] : 1;
      k += s.draw(2);
    }
    cap = 1;
    for (int i = 0; i < rank; ++i)
      cap += st[i] * std::max<int64_t>(shape[i] - 1, 0);
    dense = st == rowMajor(shape);
  }
  std::vector<unsigned char> buf(std::max<int64_t>(cap, 1) * tr.size);
  std::vector<std::unique_ptr<std::string>> strs;
  int special = (int)s.draw(3);
  for (int64_t i = 0; i < std::max<int64_t>(cap, 1); ++i) {
    unsigned char *e = &buf[i * tr.size];
    if (dt == 8) {
      strs.push_back(std::make_unique<std::string>(
          s.str(6, "ab% \t\"\\nd,][0")));
      const char *c = strs.back()->c_str();
      memcpy(e, &c, 8);
    } else if (dt == 9)
      *e = (unsigned char)s.draw(2);
    else if (dt == 1) {
      float f = special == 0 ? (float)s.range(-1000, 1000) / 8
                             : (float)s.interesting64();
      if (special == 2)
        f = std::vector<float>{0.f, -0.f, INFINITY, -INFINITY, NAN, 1e-30f,
            3.4e38f, -1.17e-38f, 1e20f}[s.draw(9)];
      memcpy(e, &f, 4);
    } else if (dt == 11) {
      double f = special == 0 ? (double)s.range(-1000, 1000) / 8
                              : (double)s.interesting64();
      if (special == 2)
        f = std::vector<double>{0., -0., INFINITY, -INFINITY, NAN, 1e-300,
            1.5e100, 16777217., 4503599627370497.5}[s.draw(9)];
      memcpy(e, &f, 8);
    } else {
      uint64_t v = special ? (uint64_t)s.interesting64() : s.bits();
      memcpy(e, &v, tr.size);
    }
  }
  auto elem = [&](int64_t off) -> std::string {
    unsigned char *e = &buf[off * tr.size];
    uint64_t u = 0;
    memcpy(&u, e, tr.size);
    switch (dt) {
    case 8: {
      const char *c;
      memcpy(&c, e, 8);
      return c;
    }
    case 9:
      return u ? "1" : "0";
    case 2:
    case 4:
    case 12:
    case 13:
      return std::to_string(u);
    case 3:
      return std::to_string((int)(int8_t)u);
    case 5:
      return std::to_string((int)(int16_t)u);
    case 6:
      return std::to_string((int32_t)u);
    case 7:
      return std::to_string((int64_t)u);
    case 10:
      return fmt("%f", (double)f16ref((uint16_t)u));
    case 1: {
      float f;
      memcpy(&f, e, 4);
      return fmt("%f", (double)f);
    }
    default: {
      double f;
      memcpy(&f, e, 8);
      return fmt("%f", f);
    }
    }
  };
  std::function<std::string(int, int64_t)> data = [&](int d, int64_t off) {
    if (d == rank)
      return elem(off);
    std::string r = "[";
    for (int64_t i = 0; i < shape[d]; ++i)
      r += (i ? ", " : "") + data(d + 1, off + i * st[d]);
    return r + "]";
  };
  std::string sShape, sStr, sType;
  for (int i = 0; i < rank; ++i) {
    sShape += "[" + std::to_string(shape[i]) + "]";
    sStr += "[" + std::to_string(st[i]) + "]";
    sType += std::to_string(shape[i]) + "x";
  }
  sType += tr.name;
  std::string sig = "\trank = " + std::to_string(rank) + "\n\tdataType = " +
                    tr.name + "\n\tnumElems = " + std::to_string(n) +
                    "\n\tshape: " + sShape + "\n\tstrides: " + sStr +
                    "\n\ttype: " + sType + "\n";
  // A scalar is printed bare, a 0-element tensor has nothing to point at.
  std::string dat = "\tdata: (" + data(0, 0) + ")\n";
  OMTensor *t = omTensorCreate(
      buf.data(), shape.data(), rank, (OM_DATA_TYPE)dt);
  omTensorSetStrides(t, st.data());
  // Message
  std::string msg, want;
  bool any = false, end = false;
  int parts = (int)s.draw(6);
  for (int i = 0; i < parts && !end; ++i) {
    switch (s.weighted({4, 4, 3, 3, 1})) {
    case 0: {
      std::string x = s.str(8, "abc XYZ=:\n\t09");
      msg += x;
      want += x;
      break;
    }
    case 1:
      msg += "%d";
      want += dat;
      any = true;
      break;
    case 2:
      if (!dense)
        break;
      msg += "%s";
      want += sig;
      any = true;
      break;
    case 3:
      msg += "%t";
      want += sType;
      any = true;
      break;
    case 4:
      msg += "%e junk %d after the end";
      end = true;
      break;
    }
  }
  if (!any && !end) {
    if (!dense) {
      msg += "%d";
      want += dat;
    } else
      want += "\n" + sig + dat + "\n"; // default format
  }
  // The message buffer given by compiled code is not longer than its text.
  char *m = strdup(msg.c_str());
  std::string got = captureStdout([&]() { omTensorPrint(m, t); });
  free(m);
  omTensorDestroy(t);
  s.note("type %s shape %s strides %s msg %s", tr.name, vs(shape).c_str(),
      vs(st).c_str(), jstr(msg).c_str());
  PCHECK(got == want, "printed %s\nexpected %s", jstr(got).c_str(),
      jstr(want).c_str());
  if (any && n > 1)
    s.nontrivial();
  s.label("rank" + std::to_string(rank));
  s.label(std::string("type ") + tr.name);
  if (!dense)
    s.label("strided");
}

// ---- C++ element access helpers ----------------------------------------------
#if defined(RT_CPP)
template <typename T>
static void accessT(Src &s, int dt) {
  auto shape = genShape(s, 6, 300);
  int64_t n = prod(shape);
  int rank = (int)shape.size();
  s.note("shape %s ", vs(shape).c_str());
  OMTensor *t = omTensorCreateWithShape<T>(shape);
  PCHECK(t && omTensorGetDataType(t) == (OM_DATA_TYPE)dt, "dtype");
  PCHECK(omTensorComputeStridesFromShape(t) == rowMajor(shape),
      "computed strides of %s", vs(shape).c_str());
  // Dense or permuted strides within the buffer.
  std::vector<int64_t> st = rowMajor(shape);
  if (s.chance(50) && n) {
    auto p = s.perm(rank);
    int64_t k = 1;
    for (int i : p) {
      st[i] = k;
      k *= shape[i];
    }
    omTensorSetStrides(t, st.data());
    s.label("permuted strides");
  }
  std::vector<T> model(n);
  T *d = (T *)omTensorGetDataPtr(t);
  for (int64_t i = 0; i < n; ++i)
    d[i] = model[i] = (T)s.range(-100, 100);
  auto idx = omTensorComputeIndexSet(t);
  PCHECK((int64_t)idx.size() == n, "index set size %zu want %" PRId64,
      idx.size(), n);
  std::vector<int64_t> cur(rank, 0);
  for (auto &ix : idx) { // row-major enumeration
    PCHECK(ix == cur, "index set is not the row-major enumeration");
    for (int k = rank - 1; k >= 0; --k) {
      if (++cur[k] < shape[k])
        break;
      cur[k] = 0;
    }
    int64_t off = 0;
    for (int k = 0; k < rank; ++k)
      off += ix[k] * st[k];
    PCHECK(omTensorComputeElemOffset(t, ix) == off, "element offset");
    T &r = omTensorGetElem<T>(t, ix);
    PCHECK(&r == d + off, "element reference");
    PCHECK(&omTensorGetElemByOffset<T>(t, off) == d + off, "by offset");
  }
  if (n) {
    auto &ix = idx[s.draw(idx.size())];
    int64_t off = omTensorComputeElemOffset(t, ix);
    omTensorGetElem<T>(t, ix) = model[off] = (T)s.range(-100, 100);
    for (int64_t i = 0; i < n; ++i)
      PCHECK(d[i] == model[i], "write went elsewhere");
  }
  if (rank >= 2 && n > 3)
    s.nontrivial();
  omTensorDestroy(t);
}

template <typename T>
static void closeT(Src &s, bool isInt) {
  auto shape = genShape(s, 4, 60);
  int64_t n = prod(shape);
  OMTensor *a = omTensorCreateWithShape<T>(shape),
           *b = omTensorCreateWithShape<T>(shape);
  T *pa = (T *)omTensorGetDataPtr(a), *pb = (T *)omTensorGetDataPtr(b);
  float rt = isInt ? (float)s.draw(2)
                   : std::vector<float>{0.f, 1e-5f, 0.01f, 0.5f}[s.draw(4)];
  float at = isInt ? (float)s.draw(3)
                   : std::vector<float>{0.f, 1e-5f, 0.01f, 0.5f}[s.draw(4)];
  // Differences are kept well inside or well outside of the tolerance.
  int64_t bad = s.chance(50) && n ? (int64_t)s.draw(n) : -1;
  bool hopeless = false;
  for (int64_t i = 0; i < n; ++i) {
    pb[i] = (T)s.range(-1000, 1000);
    double tol = (double)rt * std::fabs((double)pb[i]) + at;
    double d = i == bad ? tol * 1.5 + (isInt ? 1 : 1e-3) : tol * 0.5;
    if (isInt)
      d = i == bad ? std::floor(d) + 1 : std::floor(d);
    if (s.chance(50))
      d = -d;
    pa[i] = (T)((double)pb[i] + d);
    double real = std::fabs((double)pa[i] - (double)pb[i]);
    if (i == bad ? real <= tol * 1.2 : real > tol * 0.8 && real > 0)
      hopeless = true; // rounding brought it too near to call
  }
  if (hopeless) {
    omTensorDestroy(a);
    omTensorDestroy(b);
    throw Discard{};
  }
  bool got = omTensorAreTwoOmtsClose<T>(a, b, rt, at);
  s.note("close %s bad=%" PRId64 " rtol=%g atol=%g", vs(shape).c_str(), bad, rt,
      at);
  PCHECK(got == (bad < 0), "close=%d but element %" PRId64 " is off", got, bad);
  if (n > 1)
    s.nontrivial();
  if (shape.size()) { // shape mismatch is never close
    auto sh2 = shape;
    sh2[s.draw(sh2.size())] += 1;
    OMTensor *c = omTensorCreateWithShape<T>(sh2);
    memset(omTensorGetDataPtr(c), 0, omTensorGetBufferSize(c));
    PCHECK(!omTensorAreTwoOmtsClose<T>(a, c, 1e9f, 1e9f), "shape mismatch");
    omTensorDestroy(c);
  }
  omTensorDestroy(a);
  omTensorDestroy(b);
}

static void accessProp(Src &s) {
  int t = (int)s.draw(4);
  if (s.chance(30)) {
    s.label("close");
    switch (t) {
    case 0:
      return closeT<int32_t>(s, true);
    case 1:
      return closeT<int64_t>(s, true);
    case 2:
      return closeT<float>(s, false);
    default:
      return closeT<double>(s, false);
    }
  }
  switch (t) {
  case 0:
    return accessT<int32_t>(s, 6);
  case 1:
    return accessT<int64_t>(s, 7);
  case 2:
    return accessT<float>(s, 1);
  default:
    return accessT<double>(s, 11);
  }
}
#endif

int main(int argc, char **argv) {
  return mainFor(
#if defined(RT_C)
      {{"state_c", [](Src &s) { stateProp(s, false); }, {}},
          {"own_c", [](Src &s) { stateProp(s, true); }, {}},
          {"print_c", printProp, {}}},
#else
      {{"state_cpp", [](Src &s) { stateProp(s, false); }, {}},
          {"own_cpp", [](Src &s) { stateProp(s, true); }, {}},
          {"print_cpp", printProp, {}}, {"access_cpp", accessProp, {}}},
#endif
      argc, argv);
}
