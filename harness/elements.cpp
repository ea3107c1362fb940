// E01-E03: constant tensors (DisposableElementsAttr, ElementsAttrBuilder,
// DisposablePool) against a reference that keeps plain vectors of wide
// numbers.
#include "pbt.hpp"

#include <atomic>
#include <mutex>
#include <thread>

#include "src/Dialect/ONNX/ElementsAttr/BType.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp"

#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinOps.h"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/DialectImplementation.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/Verifier.h"
#include "mlir/AsmParser/AsmParser.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/ThreadPool.h"

// libMLIR is not instrumented: memory it hands out may look poisoned.
extern "C" const char *__asan_default_options() {
  return "allow_user_poisoning=0:detect_container_overflow=0:detect_leaks=0";
}

using namespace mlir;
using namespace onnx_mlir;
using pbt::Src;
using std::string;
using std::vector;
using Shape = vector<int64_t>;

// ---------------------------------------------------------------- dialect

class TdDialect : public Dialect {
public:
  explicit TdDialect(MLIRContext *c)
      : Dialect("td", c, TypeID::get<TdDialect>()) {
    addAttributes<DisposableElementsAttr>();
    addInterface<DisposablePool>(c);
  }
  static StringRef getDialectNamespace() { return "td"; }
  Attribute parseAttribute(DialectAsmParser &p, Type type) const override {
    StringRef tag;
    if (p.parseKeyword(&tag))
      return {};
    if (tag == DisposableElementsAttr::getMnemonic()) {
      auto st = mlir::dyn_cast_or_null<ShapedType>(type);
      if (!st)
        return {};
      if (auto mb = DisposableElementsAttr::parse(p, st)) {
        DisposablePool *pool = DisposablePool::get<TdDialect>(getContext());
        return ElementsAttrBuilder(*pool).fromMemoryBuffer(st, std::move(mb));
      }
    }
    return {};
  }
  void printAttribute(Attribute a, DialectAsmPrinter &p) const override {
    if (auto d = mlir::dyn_cast<DisposableElementsAttr>(a))
      d.printWithoutType(p);
  }
};

static llvm::StdThreadPool *tpool;
static void setupPool() {
  tpool = new llvm::StdThreadPool(llvm::hardware_concurrency(3));
}

// ------------------------------------------------------------- reference

static const vector<BType> ALL = {BType::FLOAT, BType::INT64, BType::INT32,
    BType::BOOL, BType::UINT8, BType::DOUBLE, BType::INT8, BType::FLOAT16,
    BType::UINT64, BType::INT16, BType::UINT16, BType::UINT32, BType::BFLOAT16,
    BType::FLOAT8E4M3FN, BType::FLOAT8E4M3FNUZ, BType::FLOAT8E5M2,
    BType::FLOAT8E5M2FNUZ};

enum Kind { DBL, I64, U64 };
static bool isF(BType b) {
  return b == BType::FLOAT || b == BType::DOUBLE || b == BType::FLOAT16 ||
         b == BType::BFLOAT16 || b == BType::FLOAT8E4M3FN ||
         b == BType::FLOAT8E4M3FNUZ || b == BType::FLOAT8E5M2 ||
         b == BType::FLOAT8E5M2FNUZ;
}
static bool isU(BType b) {
  return b == BType::BOOL || b == BType::UINT8 || b == BType::UINT16 ||
         b == BType::UINT32 || b == BType::UINT64;
}
static Kind kind(BType b) { return isF(b) ? DBL : isU(b) ? U64 : I64; }
static unsigned width(BType b) {
  switch (b) {
  case BType::BOOL:
    return 1;
  case BType::INT8:
  case BType::UINT8:
  case BType::FLOAT8E4M3FN:
  case BType::FLOAT8E4M3FNUZ:
  case BType::FLOAT8E5M2:
  case BType::FLOAT8E5M2FNUZ:
    return 8;
  case BType::INT16:
  case BType::UINT16:
  case BType::FLOAT16:
  case BType::BFLOAT16:
    return 16;
  case BType::INT32:
  case BType::UINT32:
  case BType::FLOAT:
    return 32;
  default:
    return 64;
  }
}
static string tname(BType b) {
  switch (b) {
  case BType::BOOL:
    return "i1";
  case BType::FLOAT8E4M3FN:
    return "f8E4M3FN";
  case BType::FLOAT8E4M3FNUZ:
    return "f8E4M3FNUZ";
  case BType::FLOAT8E5M2:
    return "f8E5M2";
  case BType::FLOAT8E5M2FNUZ:
    return "f8E5M2FNUZ";
  case BType::BFLOAT16:
    return "bf16";
  default:
    return (isF(b) ? "f" : isU(b) ? "ui" : "i") + std::to_string(width(b));
  }
}
static Type mtype(MLIRContext *c, BType b) {
  Builder bl(c);
  switch (b) {
  case BType::DOUBLE:
    return bl.getF64Type();
  case BType::FLOAT:
    return bl.getF32Type();
  case BType::FLOAT16:
    return bl.getF16Type();
  case BType::BFLOAT16:
    return bl.getBF16Type();
  case BType::FLOAT8E4M3FN:
    return Float8E4M3FNType::get(c);
  case BType::FLOAT8E4M3FNUZ:
    return Float8E4M3FNUZType::get(c);
  case BType::FLOAT8E5M2:
    return Float8E5M2Type::get(c);
  case BType::FLOAT8E5M2FNUZ:
    return Float8E5M2FNUZType::get(c);
  case BType::BOOL:
    return bl.getI1Type();
  default:
    return isU(b) ? bl.getIntegerType(width(b), false)
                  : bl.getIntegerType(width(b));
  }
}
static const llvm::fltSemantics &sem(BType b) {
  switch (b) {
  case BType::DOUBLE:
    return APFloat::IEEEdouble();
  case BType::FLOAT:
    return APFloat::IEEEsingle();
  case BType::FLOAT16:
    return APFloat::IEEEhalf();
  case BType::BFLOAT16:
    return APFloat::BFloat();
  case BType::FLOAT8E4M3FN:
    return APFloat::Float8E4M3FN();
  case BType::FLOAT8E4M3FNUZ:
    return APFloat::Float8E4M3FNUZ();
  case BType::FLOAT8E5M2:
    return APFloat::Float8E5M2();
  default:
    return APFloat::Float8E5M2FNUZ();
  }
}

// A wide number: the 64 bits of a double, an int64 or a uint64.
typedef uint64_t W;
static double asD(W w) {
  double d;
  memcpy(&d, &w, 8);
  return d;
}
static W ofD(double d) {
  W w;
  memcpy(&w, &d, 8);
  return w;
}
static bool wnan(Kind k, W w) { return k == DBL && std::isnan(asD(w)); }
static bool wsame(Kind k, W a, W b) {
  return a == b || (wnan(k, a) && wnan(k, b));
}
static WideNum toWN(W w) {
  WideNum n;
  n.u64 = w;
  return n;
}

static APFloat narrowF(BType b, W w) {
  double d = asD(w);
  if (b == BType::DOUBLE)
    return APFloat(d);
  APFloat f((float)d);
  bool lost;
  f.convert(sem(b), APFloat::rmNearestTiesToEven, &lost);
  return f;
}
// The value of type b that is read for wide number w, as a wide number.
static W narrow(BType b, W w) {
  if (b == BType::BOOL)
    return w != 0;
  if (isF(b)) {
    if (b == BType::DOUBLE)
      return w;
    if (b == BType::FLOAT)
      return ofD((float)asD(w));
    return ofD(narrowF(b, w).convertToDouble());
  }
  unsigned n = width(b);
  if (n == 64)
    return w;
  if (isU(b))
    return w & ((1ull << n) - 1);
  return (W)((int64_t)(w << (64 - n)) >> (64 - n));
}

struct Ref {
  BType b = BType::FLOAT;
  Shape sh;
  vector<W> w;
};
static int64_t prod(const Shape &s, size_t from = 0) {
  int64_t n = 1;
  for (size_t i = from; i < s.size(); ++i)
    n *= s[i];
  return n;
}
static string shs(const Shape &s) {
  string r = "[";
  for (size_t i = 0; i < s.size(); ++i)
    r += (i ? "," : "") + std::to_string(s[i]);
  return r + "]";
}
static Shape unflat(const Shape &s, int64_t f) {
  Shape r(s.size());
  for (int i = (int)s.size() - 1; i >= 0; --i) {
    r[i] = s[i] ? f % s[i] : 0;
    f = s[i] ? f / s[i] : 0;
  }
  return r;
}
static int64_t flat(const Shape &s, const Shape &idx) {
  int64_t f = 0;
  for (size_t i = 0; i < s.size(); ++i)
    f = f * s[i] + idx[i];
  return f;
}
// position in shape `from` (right aligned, broadcast) of index idx
static int64_t bflat(const Shape &from, const Shape &idx) {
  size_t off = idx.size() - from.size();
  int64_t f = 0;
  for (size_t i = 0; i < from.size(); ++i)
    f = f * from[i] + (from[i] == 1 ? 0 : idx[off + i]);
  return f;
}

static string show(const Ref &r) {
  string s = tname(r.b) + shs(r.sh) + "{";
  for (size_t i = 0; i < r.w.size() && i < 10; ++i) {
    char buf[64];
    if (isF(r.b))
      snprintf(buf, sizeof buf, "%.17g", asD(r.w[i]));
    else if (isU(r.b))
      snprintf(buf, sizeof buf, "%llu", (unsigned long long)r.w[i]);
    else
      snprintf(buf, sizeof buf, "%lld", (long long)r.w[i]);
    s += string(i ? " " : "") + buf;
  }
  return s + (r.w.size() > 10 ? " ...}" : "}");
}

// ------------------------------------------------------------ environment

static std::set<int> *liveBufs; // ids of the buffers not yet destroyed
struct TrackBuf : llvm::MemoryBuffer {
  vector<uint64_t> store; // aligned storage
  int id;
  TrackBuf(const vector<char> &bytes, int id)
      : store((bytes.size() + 7) / 8 + 1), id(id) {
    if (!bytes.empty())
      memcpy(store.data(), bytes.data(), bytes.size());
    init((const char *)store.data(),
        (const char *)store.data() + bytes.size(), false);
    liveBufs->insert(id);
  }
  ~TrackBuf() override {
    memset(store.data(), 0xEE, store.size() * 8);
    liveBufs->erase(id);
  }
  BufferKind getBufferKind() const override { return MemoryBuffer_Malloc; }
};

struct Val {
  ElementsAttr a;
  Ref r;
  std::set<int> bufs; // buffers this was computed from
};

struct Env {
  Src &s;
  std::unique_ptr<MLIRContext> ctx;
  DisposablePool *pool;
  std::unique_ptr<ElementsAttrBuilder> eb;
  vector<Val> vals;
  std::set<string> opsUsed;
  std::set<int> live;
  int nextBuf = 0;
  bool closed = false;
  bool bigUsed = false;

  explicit Env(Src &s) : s(s) {
    liveBufs = &live;
    ctx = std::make_unique<MLIRContext>(MLIRContext::Threading::DISABLED);
    if (tpool)
      ctx->setThreadPool(*tpool);
    ctx->allowUnregisteredDialects();
    ctx->loadDialect<TdDialect>();
    pool = DisposablePool::get<TdDialect>(ctx.get());
    eb = std::make_unique<ElementsAttrBuilder>(*pool);
  }
  ~Env() {
    vals.clear();
    ctx.reset();
    liveBufs = nullptr;
  }

  RankedTensorType rt(BType b, const Shape &sh) {
    return RankedTensorType::get(sh, mtype(ctx.get(), b));
  }

  int64_t dim() {
    switch (s.weighted({4, 5, 4, 3, 2, 1})) {
    case 0:
      return 2;
    case 1:
      return 1;
    case 2:
      return 3;
    case 3:
      return 4;
    case 4:
      return 5;
    default:
      return 0;
    }
  }
  Shape shape(int maxRank = 4) {
    Shape r((size_t)s.range(0, maxRank));
    for (auto &d : r)
      d = dim();
    return r;
  }
  // Sometimes big enough for the parallel paths.
  Shape anyShape() {
    if (!bigUsed && s.chance(4)) {
      bigUsed = true;
      s.label("big");
      switch (s.draw(3)) {
      case 0:
        return {(int64_t)s.range(998, 1010)};
      case 1:
        return {(int64_t)s.range(11, 17), (int64_t)s.range(120, 200)};
      default:
        return {3, (int64_t)s.range(20, 30), (int64_t)s.range(18, 40)};
      }
    }
    return shape();
  }

  W value(BType b, bool small) {
    if (b == BType::BOOL)
      return s.draw(2);
    if (isF(b)) {
      double d;
      if (small)
        d = (double)s.range(-6, 6) / (1 << s.draw(2));
      else
        switch (s.weighted({6, 3, 2, 2})) {
        case 0:
          d = (double)s.range(-20, 20) / (1 << s.draw(4));
          break;
        case 1: {
          static const vector<double> I = {0.0, -0.0, 1.5, 2.5, -2.5, 0.5, -0.5,
              448, 464, 480, 57344, 61440, 65504, 65520, 1e-3, 127.5, 128.5,
              255.5, -128.5, 1e10, -1e10, 9.2e18, 1.8446744073709552e19, 1e300,
              -1e300, 3.4e38, 1e-40, INFINITY, -INFINITY, NAN};
          d = s.pick(I);
          break;
        }
        case 2:
          d = (double)s.range(-100000, 100000) / 64.0;
          break;
        default: {
          uint64_t u = s.bits();
          d = ldexp((double)(u >> 11) / (1ull << 52) - 1.0,
              (int)s.range(-20, 30));
        }
        }
      return narrow(b, ofD(d));
    }
    int64_t v = small ? s.range(-6, 6) : s.interesting64();
    return narrow(b, (W)v);
  }
  Ref ref(BType b, const Shape &sh, bool small = false, bool nonan = false) {
    Ref r;
    r.b = b;
    r.sh = sh;
    int64_t n = prod(sh);
    r.w.resize(n);
    bool splat = s.chance(20);
    if (n > 64) { // cheap: few draws
      vector<W> base;
      for (int i = 0; i < 7; ++i)
        base.push_back(value(b, small));
      for (int64_t i = 0; i < n; ++i) {
        W v = base[(i * 31 + i / 5) % 7];
        if (b == BType::BOOL)
          ;
        else if (isF(b))
          v = narrow(b, ofD(asD(v) + (double)(i % 13)));
        else
          v = narrow(b, v + (W)(i % 113));
        r.w[i] = v;
      }
    } else if (splat && n) {
      W v = value(b, small);
      for (auto &x : r.w)
        x = v;
    } else
      for (auto &x : r.w)
        x = value(b, small);
    if (nonan)
      for (auto &x : r.w)
        if (wnan(kind(b), x))
          x = ofD(1.0);
    return r;
  }

  vector<char> rawBytes(const Ref &r) {
    unsigned bw = std::max(1u, width(r.b) / 8);
    vector<char> out(bw * r.w.size());
    for (size_t i = 0; i < r.w.size(); ++i) {
      uint64_t u;
      if (isF(r.b))
        u = narrowF(r.b, r.w[i]).bitcastToAPInt().getZExtValue();
      else
        u = narrow(r.b, r.w[i]);
      memcpy(&out[i * bw], &u, bw); // little-endian host
    }
    return out;
  }
  DenseElementsAttr dense(const Ref &r) {
    auto ty = rt(r.b, r.sh);
    if (r.b == BType::BOOL) {
      SmallVector<bool> v;
      for (W w : r.w)
        v.push_back(w != 0);
      return DenseElementsAttr::get(ty, ArrayRef<bool>(v));
    }
    auto raw = rawBytes(r);
    return DenseElementsAttr::getFromRawBuffer(ty, ArrayRef<char>(raw));
  }
  // Makes an attribute holding r.
  Val make(const Ref &r) {
    Val v;
    v.r = r;
    for (auto &w : v.r.w)
      w = narrow(r.b, w);
    switch (s.weighted({5, 3, 2, 2})) {
    case 0: {
      int id = nextBuf++;
      v.bufs.insert(id);
      v.a = eb->fromMemoryBuffer(
          rt(r.b, r.sh), std::make_unique<TrackBuf>(rawBytes(r), id));
      break;
    }
    case 1:
      v.a = dense(r);
      break;
    case 2: {
      v.a = eb->toDisposableElementsAttr(dense(r));
      if (closed) {
        PCHECK(!v.a, "a closed pool made a disposable attribute");
        v.a = dense(r);
      }
      break;
    }
    default:
      v.a = eb->fromWideNums(
          rt(r.b, r.sh), [&](MutableArrayRef<WideNum> dst) {
            PCHECK(dst.size() == v.r.w.size(), "filler got the wrong size");
            for (size_t i = 0; i < dst.size(); ++i)
              dst[i] = toWN(v.r.w[i]);
          });
    }
    if (closed)
      PCHECK(mlir::isa<DenseElementsAttr>(v.a), "a closed pool inserted");
    return v;
  }
  Val makeNew(bool small = false) {
    return make(ref(s.pick(ALL), anyShape(), small));
  }
  // An existing attribute (of a certain kind) or a new one.
  Val get() {
    if (!vals.empty() && s.chance(75))
      return vals[s.draw(vals.size())];
    Val v = makeNew();
    add(v, "new");
    return v;
  }
  Val getOf(BType b) {
    vector<int> c;
    for (size_t i = 0; i < vals.size(); ++i)
      if (vals[i].r.b == b)
        c.push_back((int)i);
    if (!c.empty() && s.chance(75))
      return vals[c[s.draw(c.size())]];
    return make(ref(b, anyShape()));
  }

  void add(Val v, const char *op) {
    opsUsed.insert(op);
    s.label(op);
    s.note("%s -> %s; ", op, show(v.r).c_str());
    // Integers wrap around to their type, floats keep the precision of the
    // 64 bits computation until they are read or packed.
    if (mlir::isa<DenseElementsAttr>(v.a) ||
        (!isF(v.r.b) && v.r.b != BType::BOOL))
      for (auto &w : v.r.w)
        w = narrow(v.r.b, w);
    check(v, op);
    if (vals.size() < 8)
      vals.push_back(v);
    else
      vals[s.draw(vals.size())] = v;
  }

  // ------------------------------------------------------------- reading

  void bad(const char *op, const char *how, const Val &v, size_t i, W got) {
    char g[64], w[64];
    if (isF(v.r.b)) {
      snprintf(g, sizeof g, "%.17g", asD(got));
      snprintf(w, sizeof w, "%.17g", asD(v.r.w[i]));
    } else {
      snprintf(g, sizeof g, "%lld", (long long)got);
      snprintf(w, sizeof w, "%lld", (long long)v.r.w[i]);
    }
    PFAIL("%s: %s: element %zu of %s is %s, expected %s", op, how, i,
        show(v.r).c_str(), g, w);
  }

  void checkDense(DenseElementsAttr d, const Val &v, const char *op) {
    PCHECK(d.getType() == rt(v.r.b, v.r.sh), "%s: wrong type of dense", op);
    if (v.r.w.empty())
      return;
    size_t i = 0;
    if (isF(v.r.b)) {
      for (APFloat f : d.getValues<APFloat>()) {
        W g = ofD(f.convertToDouble());
        if (!wsame(DBL, g, narrow(v.r.b, v.r.w[i])))
          bad(op, "as dense", v, i, g);
        ++i;
      }
    } else {
      for (APInt f : d.getValues<APInt>()) {
        W g = isU(v.r.b) ? f.getZExtValue() : (W)f.getSExtValue();
        if (g != narrow(v.r.b, v.r.w[i]))
          bad(op, "as dense", v, i, g);
        ++i;
      }
    }
    PCHECK(i == v.r.w.size(), "%s: dense has %zu elements", op, i);
  }

  template <BType B>
  void checkArray(const Val &v, const char *op) {
    using X = CppType<B>;
    // MLIR's own attribute cannot give splats as these C++ types.
    if (mlir::isa<DenseElementsAttr>(v.a) &&
        (isSmallFPType<X> || v.r.w.empty()))
      return;
    ArrayBuffer<X> buf = getElementsArray<X>(v.a);
    PCHECK(buf.get().size() == v.r.w.size(), "%s: array size", op);
    for (size_t i = 0; i < v.r.w.size(); ++i) {
      W g = WideNum::widen<B>(buf.get()[i]).u64;
      if (!wsame(kind(B), g, narrow(B, v.r.w[i])))
        bad(op, "as array", v, i, g);
    }
  }
  template <BType B>
  void checkIter(const Val &v, const char *op) {
    using X = CppType<B>;
    if (auto d = mlir::dyn_cast<DisposableElementsAttr>(v.a)) {
      if constexpr (B == BType::BOOL || B == BType::DOUBLE ||
                    B == BType::FLOAT || B == BType::INT8 ||
                    B == BType::INT16 || B == BType::INT32 ||
                    B == BType::INT64 || B == BType::UINT8 ||
                    B == BType::UINT32 || B == BType::UINT64 ||
                    B == BType::FLOAT16 || B == BType::BFLOAT16) {
        auto vs = v.a.getValues<X>();
        size_t i = 0;
        for (X x : vs) {
          W g = WideNum::widen<B>(x).u64;
          if (!wsame(kind(B), g, narrow(B, v.r.w[i])))
            bad(op, "by iterator", v, i, g);
          ++i;
        }
        PCHECK(i == v.r.w.size(), "%s: iterated %zu elements", op, i);
      }
    }
  }

  void check(const Val &v, const char *op) {
    PCHECK((bool)v.a, "%s: no result", op);
    Type want = rt(v.r.b, v.r.sh);
    if (v.a.getShapedType() != want) {
      string ts;
      llvm::raw_string_ostream os(ts);
      os << v.a.getShapedType();
      PFAIL("%s: result type is %s, expected %s of %s", op, ts.c_str(),
          tname(v.r.b).c_str(), shs(v.r.sh).c_str());
    }
    size_t n = v.r.w.size();
    PCHECK((size_t)v.a.getNumElements() == n, "%s: size", op);
    Kind k = kind(v.r.b);
    if (n && v.a.isSplat()) {
      for (size_t i = 1; i < n; ++i)
        PCHECK(wsame(k, narrow(v.r.b, v.r.w[i]), narrow(v.r.b, v.r.w[0])),
            "%s: called a splat but elements differ: %s", op,
            show(v.r).c_str());
      W g = getElementsSplatWideNum(v.a).u64;
      if (v.r.b == BType::BOOL)
        g = g != 0;
      if (!wsame(k, narrow(v.r.b, g), narrow(v.r.b, v.r.w[0])))
        bad(op, "splat value", v, 0, g);
    }
    // wide numbers
    {
      ArrayBuffer<WideNum> wn = getElementsWideNums(v.a);
      PCHECK(wn.get().size() == n, "%s: %zu wide numbers, expected %zu", op,
          wn.get().size(), n);
      for (size_t i = 0; i < n; ++i) {
        W g = wn.get()[i].u64;
        if (!wsame(k, g, v.r.w[i]))
          bad(op, "wide", v, i, g);
      }
    }
    switch (s.draw(6)) {
    case 0: {
      checkDense(ElementsAttrBuilder::toDenseElementsAttr(v.a), v, op);
      break;
    }
    case 1: {
      dispatchByBType(v.r.b, [&](auto b) { checkArray<b>(v, op); });
      break;
    }
    case 2: {
      dispatchByBType(v.r.b, [&](auto b) { checkIter<b>(v, op); });
      break;
    }
    case 3: { // random access, APInt / APFloat
      if (!n)
        break;
      for (int t = 0; t < 8; ++t) {
        size_t i = s.draw(n);
        W g;
        if (k == DBL)
          g = ofD(v.a.getValues<APFloat>()[i].convertToDouble());
        else {
          APInt x = v.a.getValues<APInt>()[i];
          PCHECK(x.getBitWidth() == width(v.r.b), "%s: APInt width", op);
          g = k == U64 ? x.getZExtValue() : (W)x.getSExtValue();
        }
        if (!wsame(k, g, narrow(v.r.b, v.r.w[i])))
          bad(op, "random access", v, i, g);
      }
      break;
    }
    case 4: { // attributes
      if (!n || n > 300)
        break;
      size_t i = 0;
      for (Attribute x : v.a.getValues<Attribute>()) {
        W g;
        if (auto f = mlir::dyn_cast<FloatAttr>(x))
          g = ofD(f.getValue().convertToDouble());
        else {
          auto in = mlir::cast<IntegerAttr>(x);
          g = k == U64 ? in.getValue().getZExtValue()
                       : (W)in.getValue().getSExtValue();
        }
        PCHECK(mlir::cast<TypedAttr>(x).getType() == v.a.getElementType(),
            "%s: element attribute type", op);
        if (!wsame(k, g, narrow(v.r.b, v.r.w[i])))
          bad(op, "attribute", v, i, g);
        ++i;
      }
      PCHECK(i == n, "%s: %zu attributes", op, i);
      break;
    }
    default: {
      vector<WideNum> dst(n);
      readElementsWideNums(v.a, dst);
      for (size_t i = 0; i < n; ++i)
        if (!wsame(k, dst[i].u64, v.r.w[i]))
          bad(op, "read wide", v, i, dst[i].u64);
    }
    }
  }
  void checkAll(const char *op) {
    for (auto &v : vals)
      check(v, op);
  }
};

static std::set<int> uni(const std::set<int> &a, const std::set<int> &b) {
  std::set<int> r = a;
  r.insert(b.begin(), b.end());
  return r;
}

// -------------------------------------------------- element functions

// Deterministic functions on wide numbers, defined on all of them.
template <Kind K>
static WideNum fBin(WideNum a, WideNum b) { // not commutative
  WideNum r;
  if (K == DBL)
    r.dbl = 2 * a.dbl - b.dbl;
  else
    r.u64 = 2 * a.u64 - b.u64;
  return r;
}
static WideNum fBinBool(WideNum a, WideNum b) {
  WideNum r;
  r.u64 = (a.u64 != 0) && !(b.u64 != 0);
  return r;
}
template <Kind K>
static WideNum fLess(WideNum a, WideNum b) { // result bool
  WideNum r;
  r.u64 = K == DBL ? a.dbl < b.dbl : K == I64 ? a.i64 < b.i64 : a.u64 < b.u64;
  return r;
}
template <Kind K>
static WideNum fMax(WideNum a, WideNum b) {
  return fLess<K>(a, b).u64 ? b : a;
}
template <Kind K>
static WideNum fSum(WideNum a, WideNum b) {
  WideNum r;
  if (K == DBL)
    r.dbl = a.dbl + b.dbl;
  else
    r.u64 = a.u64 + b.u64;
  return r;
}
typedef WideNum (*Bin)(WideNum, WideNum);
static Bin binFor(BType b) {
  if (b == BType::BOOL)
    return fBinBool;
  switch (kind(b)) {
  case DBL:
    return fBin<DBL>;
  case I64:
    return fBin<I64>;
  default:
    return fBin<U64>;
  }
}
static Bin lessFor(BType b) {
  switch (kind(b)) {
  case DBL:
    return fLess<DBL>;
  case I64:
    return fLess<I64>;
  default:
    return fLess<U64>;
  }
}
static Bin maxFor(BType b) {
  switch (kind(b)) {
  case DBL:
    return fMax<DBL>;
  case I64:
    return fMax<I64>;
  default:
    return fMax<U64>;
  }
}
static Bin sumFor(BType b) {
  switch (kind(b)) {
  case DBL:
    return fSum<DBL>;
  case I64:
    return fSum<I64>;
  default:
    return fSum<U64>;
  }
}

// a shape that `to` broadcasts from
static Shape broadcastFrom(Src &s, const Shape &to) {
  Shape f(to.begin() + s.draw(to.size() + 1), to.end());
  for (auto &d : f)
    if (s.chance(30))
      d = 1;
  return f;
}
static Shape broadcastTo(Env &e, const Shape &from) {
  Shape t = from;
  for (auto &d : t)
    if (d == 1 && e.s.chance(60))
      d = e.dim();
  while (t.size() < 5 && e.s.chance(35))
    t.insert(t.begin(), e.dim());
  if (prod(t) > 3000)
    return from;
  return t;
}
static Shape bshape(const Shape &a, const Shape &b) {
  size_t n = std::max(a.size(), b.size());
  Shape r(n);
  for (size_t i = 0; i < n; ++i) {
    int64_t x = i + a.size() < n ? 1 : a[i + a.size() - n];
    int64_t y = i + b.size() < n ? 1 : b[i + b.size() - n];
    r[i] = x == 1 ? y : x;
  }
  return r;
}

// ------------------------------------------------------------ operations

static void opTransform(Env &e) {
  Val x = e.get();
  Src &s = e.s;
  Val y;
  y.r.sh = x.r.sh;
  y.bufs = x.bufs;
  Kind k = kind(x.r.b);
  if (s.chance(20)) { // to bool: "is greater than one"
    y.r.b = BType::BOOL;
    y.a = e.eb->transform(x.a, mtype(e.ctx.get(), BType::BOOL),
        [k](WideNum n) {
          WideNum r;
          r.u64 = k == DBL ? n.dbl > 1 : k == I64 ? n.i64 > 1 : n.u64 > 1;
          return r;
        });
    for (W w : x.r.w)
      y.r.w.push_back(k == DBL   ? asD(w) > 1
                      : k == I64 ? (int64_t)w > 1
                                 : w > 1);
    e.add(y, "transform_bool");
    return;
  }
  y.r.b = x.r.b;
  if (x.r.b == BType::BOOL) {
    y.a = e.eb->transform(x.a, x.a.getElementType(), [](WideNum n) {
      WideNum r;
      r.u64 = n.u64 == 0;
      return r;
    });
    for (W w : x.r.w)
      y.r.w.push_back(w == 0);
  } else {
    int64_t c = s.range(1, 5);
    y.a = e.eb->transform(x.a, x.a.getElementType(), [k, c](WideNum n) {
      WideNum r;
      if (k == DBL)
        r.dbl = n.dbl * 3 + c;
      else
        r.u64 = n.u64 * 3 + c;
      return r;
    });
    for (W w : x.r.w)
      y.r.w.push_back(k == DBL ? ofD(asD(w) * 3 + c) : w * 3 + c);
  }
  e.add(y, "transform");
}

static void opCombine(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  // the other one: same type, broadcast compatible
  vector<int> c;
  auto compat = [](const Shape &a, const Shape &b) {
    for (size_t i = 1; i <= std::min(a.size(), b.size()); ++i) {
      int64_t p = a[a.size() - i], q = b[b.size() - i];
      if (p != q && p != 1 && q != 1)
        return false;
    }
    return true;
  };
  for (size_t i = 0; i < e.vals.size(); ++i)
    if (e.vals[i].r.b == x.r.b && compat(e.vals[i].r.sh, x.r.sh))
      c.push_back((int)i);
  Val y;
  if (!c.empty() && s.chance(50))
    y = e.vals[c[s.draw(c.size())]];
  else {
    Shape t = s.chance(40) ? broadcastFrom(s, x.r.sh) : broadcastTo(e, x.r.sh);
    if (s.chance(40)) // bidirectional
      for (auto &d : t)
        if (s.chance(25))
          d = 1;
    y = e.make(e.ref(x.r.b, t));
  }
  if (s.chance(50))
    std::swap(x, y);
  Shape out = bshape(x.r.sh, y.r.sh);
  if (prod(out) > 3000)
    return;
  bool less = s.chance(25);
  Bin f = less ? lessFor(x.r.b) : binFor(x.r.b);
  Val z;
  z.bufs = uni(x.bufs, y.bufs);
  z.r.b = less ? BType::BOOL : x.r.b;
  z.r.sh = out;
  for (int64_t i = 0; i < prod(out); ++i) {
    Shape idx = unflat(out, i);
    z.r.w.push_back(f(toWN(x.r.w[bflat(x.r.sh, idx)]),
        toWN(y.r.w[bflat(y.r.sh, idx)]))
                        .u64);
  }
  s.note("combine %s , %s ", show(x.r).c_str(), show(y.r).c_str());
  z.a = e.eb->combine(x.a, y.a, e.rt(z.r.b, out), f);
  e.add(z, less ? "combine_less" : "combine");
}

static void opWhere(Env &e) {
  Src &s = e.s;
  Val c = e.getOf(BType::BOOL);
  Shape out = broadcastTo(e, c.r.sh);
  BType b = s.pick(ALL);
  Val x = e.make(e.ref(b, broadcastFrom(s, out)));
  Val y = e.make(e.ref(b, broadcastFrom(s, out)));
  if (s.chance(30)) {
    Val t = e.getOf(b);
    bool ok = t.r.sh.size() <= out.size();
    for (size_t i = 1; ok && i <= t.r.sh.size(); ++i) {
      int64_t p = t.r.sh[t.r.sh.size() - i];
      ok = p == 1 || p == out[out.size() - i];
    }
    if (ok)
      x = t;
  }
  Val z;
  z.bufs = uni(c.bufs, uni(x.bufs, y.bufs));
  z.r.b = b;
  z.r.sh = out;
  for (int64_t i = 0; i < prod(out); ++i) {
    Shape idx = unflat(out, i);
    z.r.w.push_back(c.r.w[bflat(c.r.sh, idx)] ? x.r.w[bflat(x.r.sh, idx)]
                                              : y.r.w[bflat(y.r.sh, idx)]);
  }
  s.note("where %s ? %s : %s ", show(c.r).c_str(), show(x.r).c_str(),
      show(y.r).c_str());
  z.a = e.eb->where(c.a, x.a, y.a, e.rt(b, out));
  e.add(z, "where");
}

static void opClip(Env &e) {
  Val x = e.get();
  if (x.r.b == BType::BOOL)
    return;
  W lo = e.value(x.r.b, true), hi = e.value(x.r.b, true);
  Kind k = kind(x.r.b);
  if (lessFor(x.r.b)(toWN(hi), toWN(lo)).u64)
    std::swap(lo, hi);
  Val y = x;
  for (auto &w : y.r.w) {
    if (k == DBL)
      w = asD(w) < asD(lo) ? lo : asD(w) > asD(hi) ? hi : w;
    else if (k == I64)
      w = (int64_t)w < (int64_t)lo ? lo : (int64_t)w > (int64_t)hi ? hi : w;
    else
      w = w < lo ? lo : w > hi ? hi : w;
  }
  y.a = e.eb->clip(x.a, toWN(lo), toWN(hi));
  e.add(y, "clip");
}

static void opTranspose(Env &e) {
  Val x = e.get();
  auto p = e.s.perm((int64_t)x.r.sh.size());
  vector<uint64_t> perm(p.begin(), p.end());
  Val y;
  y.bufs = x.bufs;
  y.r.b = x.r.b;
  for (auto i : p)
    y.r.sh.push_back(x.r.sh[i]);
  for (int64_t i = 0; i < prod(y.r.sh); ++i) {
    Shape idx = unflat(y.r.sh, i), src(idx.size());
    for (size_t a = 0; a < p.size(); ++a)
      src[p[a]] = idx[a];
    y.r.w.push_back(x.r.w[flat(x.r.sh, src)]);
  }
  y.a = e.eb->transpose(x.a, perm);
  e.add(y, "transpose");
}

static Shape otherShape(Src &s, const Shape &sh) {
  int64_t n = prod(sh);
  Shape r;
  if (n == 0) {
    r = Shape((size_t)s.range(1, 4), 0);
    size_t z = s.draw(r.size());
    for (size_t i = 0; i < r.size(); ++i)
      r[i] = i == z ? 0 : s.range(0, 3);
    return r;
  }
  if (s.chance(60)) { // merge / split neighbours, insert ones
    r = sh;
    for (int t = 0; t < 3; ++t) {
      int k = (int)s.draw(3);
      if (k == 0 && r.size() >= 2) {
        size_t i = s.draw(r.size() - 1);
        r[i] *= r[i + 1];
        r.erase(r.begin() + i + 1);
      } else if (k == 1 && r.size() < 6) {
        r.insert(r.begin() + s.draw(r.size() + 1), 1);
      } else if (r.size() < 6 && !r.empty()) {
        size_t i = s.draw(r.size());
        for (int64_t f = 2; f <= 5; ++f)
          if (r[i] % f == 0 && r[i] > f) {
            int64_t g = s.chance(50) ? f : r[i] / f;
            r.insert(r.begin() + i, r[i] / g);
            r[i + 1] = g;
            break;
          }
      }
    }
    return r;
  }
  while (n > 1 && r.size() < 5) {
    vector<int64_t> d;
    for (int64_t f = 1; f <= n && f <= 3000; ++f)
      if (n % f == 0)
        d.push_back(f);
    int64_t f = s.pick(d);
    r.push_back(f);
    n /= f;
  }
  if (n > 1)
    r.push_back(n);
  return r;
}

static void opReshape(Env &e) {
  Val x = e.get();
  Val y = x;
  y.r.sh = otherShape(e.s, x.r.sh);
  e.s.note("reshape %s to %s ", shs(x.r.sh).c_str(), shs(y.r.sh).c_str());
  y.a = e.eb->reshape(x.a, y.r.sh);
  e.add(y, "reshape");
}

static void opExpand(Env &e) {
  Val x = e.get();
  Val y;
  y.bufs = x.bufs;
  y.r.b = x.r.b;
  y.r.sh = broadcastTo(e, x.r.sh);
  for (int64_t i = 0; i < prod(y.r.sh); ++i)
    y.r.w.push_back(x.r.w[bflat(x.r.sh, unflat(y.r.sh, i))]);
  y.a = e.eb->expand(x.a, y.r.sh);
  e.add(y, "expand");
}

static Ref sliceRef(const Ref &x, const Shape &sh, const Shape &st,
    const Shape &step) {
  Ref y;
  y.b = x.b;
  y.sh = sh;
  for (int64_t i = 0; i < prod(sh); ++i) {
    Shape idx = unflat(sh, i);
    for (size_t a = 0; a < sh.size(); ++a)
      idx[a] = st[a] + idx[a] * step[a];
    y.w.push_back(x.w[flat(x.sh, idx)]);
  }
  return y;
}

static void opSplit(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  if (x.r.sh.empty())
    return;
  unsigned axis = (unsigned)s.draw(x.r.sh.size());
  vector<int64_t> sizes;
  int64_t left = x.r.sh[axis];
  int parts = (int)s.range(1, 4);
  for (int i = 0; i < parts; ++i) {
    int64_t k = i + 1 == parts ? left : s.range(0, left);
    sizes.push_back(k);
    left -= k;
  }
  auto rs = e.eb->split(x.a, axis, sizes);
  PCHECK(rs.size() == sizes.size(), "split made %zu parts", rs.size());
  int64_t off = 0;
  for (size_t i = 0; i < sizes.size(); ++i) {
    Shape sh = x.r.sh, st(sh.size(), 0), one(sh.size(), 1);
    sh[axis] = sizes[i];
    st[axis] = off;
    off += sizes[i];
    Val y;
    y.bufs = x.bufs;
    y.r = sliceRef(x.r, sh, st, one);
    y.a = rs[i];
    e.add(y, "split");
  }
}

static void opConcat(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  if (x.r.sh.empty())
    return;
  unsigned axis = (unsigned)s.draw(x.r.sh.size());
  vector<Val> in{x};
  int n = (int)s.range(0, 2);
  for (int i = 0; i < n; ++i) {
    vector<int> c;
    for (size_t j = 0; j < e.vals.size(); ++j) {
      const Ref &r = e.vals[j].r;
      if (r.b != x.r.b || r.sh.size() != x.r.sh.size())
        continue;
      bool ok = true;
      for (size_t a = 0; a < r.sh.size(); ++a)
        ok &= a == axis || r.sh[a] == x.r.sh[a];
      if (ok)
        c.push_back((int)j);
    }
    if (!c.empty() && s.chance(60))
      in.push_back(e.vals[c[s.draw(c.size())]]);
    else {
      Shape sh = x.r.sh;
      sh[axis] = e.dim();
      if (prod(sh) > 3000)
        return;
      in.push_back(e.make(e.ref(x.r.b, sh)));
    }
  }
  if (s.chance(50))
    std::swap(in.front(), in.back());
  Val y;
  y.r.b = x.r.b;
  y.r.sh = x.r.sh;
  y.r.sh[axis] = 0;
  SmallVector<ElementsAttr> as;
  for (auto &v : in) {
    y.r.sh[axis] += v.r.sh[axis];
    as.push_back(v.a);
    y.bufs = uni(y.bufs, v.bufs);
  }
  if (prod(y.r.sh) > 6000)
    return;
  for (int64_t i = 0; i < prod(y.r.sh); ++i) {
    Shape idx = unflat(y.r.sh, i);
    for (auto &v : in) {
      if (idx[axis] < v.r.sh[axis]) {
        y.r.w.push_back(v.r.w[flat(v.r.sh, idx)]);
        break;
      }
      idx[axis] -= v.r.sh[axis];
    }
  }
  y.a = e.eb->concat(as, axis);
  e.add(y, "concat");
}

static void opSlice(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  Shape sh, st, step;
  for (int64_t d : x.r.sh) {
    int64_t k = s.chance(70) ? 1 : s.range(1, 3);
    bool neg = s.chance(35);
    if (d == 0) {
      sh.push_back(0);
      st.push_back(0);
      step.push_back(neg ? -k : k);
      continue;
    }
    int64_t a = s.range(0, d - 1);
    int64_t room = neg ? a / k + 1 : (d - 1 - a) / k + 1;
    sh.push_back(s.chance(6) ? 0 : s.range(1, room));
    st.push_back(a);
    step.push_back(neg ? -k : k);
  }
  Val y;
  y.bufs = x.bufs;
  y.r = sliceRef(x.r, sh, st, step);
  s.note("slice %s st %s step %s ", shs(sh).c_str(), shs(st).c_str(),
      shs(step).c_str());
  y.a = e.eb->slice(x.a, sh, st, step);
  e.add(y, "slice");
}

static void opPad(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  size_t n = x.r.sh.size();
  vector<int64_t> pads(2 * n);
  for (auto &p : pads)
    p = s.chance(50) ? 0 : s.range(0, 2);
  W pv = e.value(x.r.b, false);
  Val y;
  y.bufs = x.bufs;
  y.r.b = x.r.b;
  for (size_t i = 0; i < n; ++i)
    y.r.sh.push_back(x.r.sh[i] + pads[i] + pads[n + i]);
  if (prod(y.r.sh) > 6000)
    return;
  for (int64_t i = 0; i < prod(y.r.sh); ++i) {
    Shape idx = unflat(y.r.sh, i);
    bool in = true;
    for (size_t a = 0; a < n; ++a) {
      idx[a] -= pads[a];
      in &= idx[a] >= 0 && idx[a] < x.r.sh[a];
    }
    y.r.w.push_back(in ? x.r.w[flat(x.r.sh, idx)] : pv);
  }
  s.note("pad %s ", shs(pads).c_str());
  y.a = e.eb->pad(x.a, pads, toWN(pv));
  e.add(y, "pad");
}

// indices as an attribute, possibly the result of a view
static Val indexVal(Env &e, const Ref &r) {
  Val v = e.make(r);
  if (r.sh.size() >= 2 && e.s.chance(30)) {
    // same contents through a transposed view
    Ref t;
    t.b = r.b;
    t.sh = Shape(r.sh.rbegin(), r.sh.rend());
    for (int64_t i = 0; i < prod(t.sh); ++i) {
      Shape idx = unflat(t.sh, i);
      t.w.push_back(r.w[flat(r.sh, Shape(idx.rbegin(), idx.rend()))]);
    }
    Val u = e.make(t);
    vector<uint64_t> perm;
    for (size_t i = r.sh.size(); i-- > 0;)
      perm.push_back(i);
    v.a = e.eb->transpose(u.a, perm);
    v.bufs = u.bufs;
  }
  return v;
}

static void opGather(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  if (x.r.sh.empty())
    return;
  unsigned axis = (unsigned)s.draw(x.r.sh.size());
  int64_t d = x.r.sh[axis];
  Ref ix;
  ix.b = s.chance(50) ? BType::INT64 : BType::INT32;
  ix.sh = e.shape(2);
  if (d == 0 && prod(ix.sh) != 0)
    return;
  for (int64_t i = 0; i < prod(ix.sh); ++i)
    ix.w.push_back((W)(s.range(0, 2 * d - 1) - d));
  for (auto &w : ix.w)
    if ((int64_t)w < 0 && s.chance(40))
      w += d;
  Val iv = indexVal(e, ix);
  Val y;
  y.bufs = uni(x.bufs, iv.bufs);
  y.r.b = x.r.b;
  y.r.sh = Shape(x.r.sh.begin(), x.r.sh.begin() + axis);
  y.r.sh.insert(y.r.sh.end(), ix.sh.begin(), ix.sh.end());
  y.r.sh.insert(y.r.sh.end(), x.r.sh.begin() + axis + 1, x.r.sh.end());
  if (prod(y.r.sh) > 6000)
    return;
  for (int64_t i = 0; i < prod(y.r.sh); ++i) {
    Shape idx = unflat(y.r.sh, i);
    Shape q(idx.begin() + axis, idx.begin() + axis + ix.sh.size());
    int64_t k = (int64_t)ix.w[flat(ix.sh, q)];
    Shape src(idx.begin(), idx.begin() + axis);
    src.push_back(k < 0 ? k + d : k);
    src.insert(src.end(), idx.begin() + axis + ix.sh.size(), idx.end());
    y.r.w.push_back(x.r.w[flat(x.r.sh, src)]);
  }
  s.note("gather %s axis %u idx %s ", show(x.r).c_str(), axis,
      show(ix).c_str());
  y.a = e.eb->gather(x.a, iv.a, axis);
  e.add(y, "gather");
}

static void opScatter(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  size_t rank = x.r.sh.size();
  if (!rank)
    return;
  size_t nd = (size_t)s.range(1, (int64_t)rank);
  Shape lead(x.r.sh.begin(), x.r.sh.begin() + nd);
  int64_t total = prod(lead);
  Shape outer;
  if (s.chance(70))
    outer = {s.range(0, std::min<int64_t>(total, 6))};
  else if (total >= 4)
    outer = {2, s.range(1, 2)};
  if (prod(outer) > total)
    return;
  // distinct positions
  std::set<int64_t> used;
  Ref ix;
  ix.b = BType::INT64;
  ix.sh = outer;
  ix.sh.push_back((int64_t)nd);
  vector<int64_t> posn;
  for (int64_t i = 0; i < prod(outer); ++i) {
    int64_t p = (int64_t)s.draw(total);
    while (used.count(p))
      p = (p + 1) % total;
    used.insert(p);
    posn.push_back(p);
    Shape idx = unflat(lead, p);
    for (size_t a = 0; a < nd; ++a)
      ix.w.push_back((W)(s.chance(30) ? idx[a] - lead[a] : idx[a]));
  }
  Val iv = indexVal(e, ix);
  Shape ush = outer;
  ush.insert(ush.end(), x.r.sh.begin() + nd, x.r.sh.end());
  Val u = e.make(e.ref(x.r.b, ush));
  int64_t slice = prod(x.r.sh, nd);
  Val y = x;
  y.bufs = uni(x.bufs, uni(iv.bufs, u.bufs));
  for (size_t i = 0; i < posn.size(); ++i)
    for (int64_t j = 0; j < slice; ++j)
      y.r.w[posn[i] * slice + j] = u.r.w[i * slice + j];
  s.note("scatter %s idx %s upd %s ", show(x.r).c_str(), show(ix).c_str(),
      show(u.r).c_str());
  y.a = e.eb->scatterND(x.a, iv.a, u.a);
  e.add(y, "scatternd");
}

static void opReduce(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  bool max = s.chance(50);
  if (!max || isF(x.r.b) || x.r.w.empty()) {
    BType b = s.pick(ALL);
    Shape sh = e.anyShape();
    for (auto &d : sh)
      d = std::max<int64_t>(d, 1);
    x = e.make(e.ref(b, sh, /*small*/ !max, /*nonan*/ true));
    if (s.chance(40) && sh.size() > 1) { // a view
      auto p = s.perm((int64_t)sh.size());
      Val y;
      y.bufs = x.bufs;
      y.r.b = b;
      for (auto i : p)
        y.r.sh.push_back(sh[i]);
      for (int64_t i = 0; i < prod(sh); ++i) {
        Shape idx = unflat(y.r.sh, i), src(idx.size());
        for (size_t a = 0; a < p.size(); ++a)
          src[p[a]] = idx[a];
        y.r.w.push_back(x.r.w[flat(sh, src)]);
      }
      y.a = e.eb->transpose(x.a, vector<uint64_t>(p.begin(), p.end()));
      x = y;
    } else if (s.chance(30)) {
      Shape t = broadcastTo(e, sh);
      bool pos = true;
      for (auto d : t)
        pos &= d > 0;
      if (pos) {
        Val y;
        y.bufs = x.bufs;
        y.r.b = b;
        y.r.sh = t;
        for (int64_t i = 0; i < prod(t); ++i)
          y.r.w.push_back(x.r.w[bflat(sh, unflat(t, i))]);
        y.a = e.eb->expand(x.a, t);
        x = y;
      }
    }
  }
  vector<unsigned> axes;
  for (size_t a = 0; a < x.r.sh.size(); ++a)
    if (s.chance(50))
      axes.push_back((unsigned)a);
  if (axes.size() > 1 && s.chance(40))
    std::swap(axes[0], axes.back());
  bool keep = s.chance(50);
  Bin f = x.r.b == BType::BOOL || max ? maxFor(x.r.b) : sumFor(x.r.b);
  Val y;
  y.bufs = x.bufs;
  y.r.b = x.r.b;
  Shape full = x.r.sh;
  for (auto a : axes)
    full[a] = 1;
  y.r.w.resize(prod(full));
  vector<char> seen(y.r.w.size());
  for (int64_t i = 0; i < prod(x.r.sh); ++i) {
    Shape idx = unflat(x.r.sh, i);
    for (auto a : axes)
      idx[a] = 0;
    int64_t p = flat(full, idx);
    y.r.w[p] = seen[p] ? f(toWN(y.r.w[p]), toWN(x.r.w[i])).u64 : x.r.w[i];
    seen[p] = 1;
  }
  for (size_t a = 0; a < full.size(); ++a)
    if (keep || std::find(axes.begin(), axes.end(), a) == axes.end())
      y.r.sh.push_back(full[a]);
  // +0 and -0 are interchangeable in sums and maxima
  s.note("reduce %s ", show(x.r).c_str());
  y.a = e.eb->reduce(x.a, axes, keep, f);
  if (isF(y.r.b)) {
    ArrayBuffer<WideNum> wn = getElementsWideNums(y.a);
    for (size_t i = 0; i < y.r.w.size() && i < wn.get().size(); ++i)
      if (asD(y.r.w[i]) == 0 && wn.get()[i].dbl == 0)
        y.r.w[i] = wn.get()[i].u64;
  }
  e.add(y, "reduce");
}

static void opMatMul(Env &e) {
  Src &s = e.s;
  BType b = s.pick(ALL);
  if (b == BType::BOOL)
    b = BType::INT32;
  int64_t M = e.dim(), K = e.dim(), N = e.dim();
  Shape batch;
  int nb = (int)s.range(0, 2);
  for (int i = 0; i < nb; ++i)
    batch.push_back(e.dim());
  bool v1 = s.chance(20), v2 = s.chance(20);
  Shape a, c;
  if (!v1) {
    a = broadcastFrom(s, batch);
    a.push_back(M);
  }
  a.push_back(K);
  if (!v2)
    c = broadcastFrom(s, batch);
  c.push_back(K);
  if (!v2)
    c.push_back(N);
  Val x = e.make(e.ref(b, a, true)), y = e.make(e.ref(b, c, true));
  Shape ba = v1 ? Shape{} : Shape(a.begin(), a.end() - 2);
  Shape bc = v2 ? Shape{} : Shape(c.begin(), c.end() - 2);
  Shape bt = bshape(ba, bc);
  Val z;
  z.bufs = uni(x.bufs, y.bufs);
  z.r.b = b;
  int64_t m = v1 ? 1 : M, n = v2 ? 1 : N;
  z.r.sh = bt;
  if (!v1)
    z.r.sh.push_back(M);
  if (!v2)
    z.r.sh.push_back(N);
  for (int64_t i = 0; i < prod(bt); ++i) {
    Shape idx = unflat(bt, i);
    int64_t pa = bflat(ba, idx) * m * K, pc = bflat(bc, idx) * K * n;
    for (int64_t r = 0; r < m; ++r)
      for (int64_t q = 0; q < n; ++q) {
        double d = 0;
        uint64_t u = 0;
        for (int64_t k = 0; k < K; ++k) {
          W p1 = x.r.w[pa + r * K + k], p2 = y.r.w[pc + k * n + q];
          d += asD(p1) * asD(p2);
          u += p1 * p2;
        }
        z.r.w.push_back(isF(b) ? ofD(d) : u);
      }
  }
  s.note("matmul %s x %s ", show(x.r).c_str(), show(y.r).c_str());
  z.a = e.eb->matMul(x.a, y.a);
  if (isF(b)) {
    ArrayBuffer<WideNum> wn = getElementsWideNums(z.a);
    for (size_t i = 0; i < z.r.w.size() && i < wn.get().size(); ++i)
      if (asD(z.r.w[i]) == 0 && wn.get()[i].dbl == 0)
        z.r.w[i] = wn.get()[i].u64;
  }
  e.add(z, "matmul");
}

static void opRange(Env &e) {
  Src &s = e.s;
  BType b = s.pick(ALL);
  if (b == BType::BOOL)
    b = BType::FLOAT;
  int64_t n = s.range(0, 12);
  W st = e.value(b, true), dl = e.value(b, true);
  Val y;
  y.r.b = b;
  y.r.sh = s.chance(20) ? Shape{2, n} : Shape{n};
  for (int64_t i = 0; i < prod(y.r.sh); ++i)
    y.r.w.push_back(
        isF(b) ? ofD(asD(st) + (double)i * asD(dl)) : st + (W)i * dl);
  y.a = e.eb->range(e.rt(b, y.r.sh), toWN(st), toWN(dl));
  if (isF(b)) {
    ArrayBuffer<WideNum> wn = getElementsWideNums(y.a);
    for (size_t i = 0; i < y.r.w.size() && i < wn.get().size(); ++i)
      if (asD(y.r.w[i]) == 0 && wn.get()[i].dbl == 0)
        y.r.w[i] = wn.get()[i].u64;
  }
  e.add(y, "range");
}

static void opNonZero(Env &e) {
  Val x = e.get();
  Val y;
  y.r.b = BType::INT64;
  vector<Shape> hits;
  for (int64_t i = 0; i < prod(x.r.sh); ++i) {
    W v = narrow(x.r.b, x.r.w[i]);
    bool nz = isF(x.r.b) ? asD(v) != 0 : v != 0;
    if (nz)
      hits.push_back(unflat(x.r.sh, i));
  }
  y.r.sh = {(int64_t)x.r.sh.size(), (int64_t)hits.size()};
  for (size_t a = 0; a < x.r.sh.size(); ++a)
    for (auto &h : hits)
      y.r.w.push_back((W)h[a]);
  e.s.note("nonzero %s ", show(x.r).c_str());
  y.a = e.eb->nonZero(x.a);
  e.add(y, "nonzero");
}

static void opEqual(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  // the same contents in another representation, maybe changed in one place
  Val y;
  y.r = x.r;
  for (auto &w : y.r.w)
    w = narrow(y.r.b, w);
  bool sub = s.chance(30);
  if (sub) {
    y.r = e.ref(x.r.b, broadcastFrom(s, x.r.sh));
    if (s.chance(60) && !x.r.w.empty())
      for (auto &w : y.r.w)
        w = narrow(x.r.b, x.r.w[0]);
  } else if (!y.r.w.empty() && s.chance(50)) {
    y.r.w[s.draw(y.r.w.size())] = e.value(y.r.b, false);
  }
  Ref keep = y.r;
  y = e.make(keep);
  Shape out = bshape(x.r.sh, y.r.sh);
  bool want = true;
  for (int64_t i = 0; i < prod(out); ++i) {
    Shape idx = unflat(out, i);
    W p = narrow(x.r.b, x.r.w[bflat(x.r.sh, idx)]);
    W q = narrow(y.r.b, y.r.w[bflat(y.r.sh, idx)]);
    want &= isF(x.r.b) ? asD(p) == asD(q) : p == q;
  }
  s.note("equal %s , %s ", show(x.r).c_str(), show(y.r).c_str());
  bool got = s.chance(50) ? ElementsAttrBuilder::equal(x.a, y.a)
                          : ElementsAttrBuilder::equal(y.a, x.a);
  PCHECK(got == want, "equal(%s, %s) is %d", show(x.r).c_str(),
      show(y.r).c_str(), (int)got);
  e.opsUsed.insert("equal");
  s.label(want ? "equal_yes" : "equal_no");
}

static void opAllEqual(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  if (x.r.w.empty())
    return;
  if (s.chance(40)) {
    Val y;
    y = e.make(e.ref(x.r.b, x.r.sh));
    W v = y.r.w[0];
    Ref r = y.r;
    for (auto &w : r.w)
      w = v;
    if (s.chance(40))
      r.w[s.draw(r.w.size())] = e.value(r.b, false);
    x = e.make(r);
  }
  W v = narrow(x.r.b, x.r.w[s.draw(x.r.w.size())]);
  bool want = true;
  for (W w : x.r.w) {
    W p = narrow(x.r.b, w);
    want &= isF(x.r.b) ? asD(p) == asD(v) : p == v;
  }
  bool got = ElementsAttrBuilder::allEqual(x.a, toWN(v));
  PCHECK(got == want, "allEqual(%s) is %d", show(x.r).c_str(), (int)got);
  e.opsUsed.insert("allequal");
  s.label(want ? "allequal_yes" : "allequal_no");
}

// ---- casts

static void opCast(Env &e) {
  Src &s = e.s;
  Val x = e.get();
  BType to = s.pick(ALL);
  Val y;
  y.bufs = x.bufs;
  y.r.b = to;
  y.r.sh = x.r.sh;
  Type t = mtype(e.ctx.get(), to);
  bool round = true, sat = false;
  int how = (int)s.draw(2);
  if (how == 1) {
    if (isF(to))
      sat = s.chance(60);
    else
      round = s.chance(40);
  }
  Kind fk = kind(x.r.b), tk = kind(to);
  for (W w : x.r.w) {
    W v = w;
    if (to == x.r.b)
      ;
    else if (to == BType::BOOL)
      v = fk == DBL ? asD(w) != 0 : w != 0;
    else if (!isF(to)) {
      if (fk == DBL) {
        double d = asD(w);
        unsigned n = width(to);
        if (std::isnan(d))
          v = 0;
        else {
          double lo = isU(to) ? 0 : -ldexp(1.0, n - 1);
          double hi = ldexp(1.0, isU(to) ? n : n - 1); // max + 1
          W min = isU(to) ? 0 : (W)INT64_MIN >> 0, max;
          if (!isU(to))
            min = (W)(INT64_MIN >> (64 - n));
          max = isU(to) ? UINT64_MAX >> (64 - n)
                        : (W)(INT64_MAX >> (64 - n));
          double q;
          if (!round)
            q = trunc(d);
          else {
            q = floor(d);
            double f = d - q;
            if (f > 0.5 || (f == 0.5 && fmod(q, 2) != 0))
              q += 1;
          }
          if (q < lo)
            v = min;
          else if (q >= hi)
            v = max;
          else
            v = isU(to) ? (W)q : (W)(int64_t)q;
        }
      }
      // between integers the 64 bits are kept
    } else {
      double d = fk == DBL   ? asD(w)
                 : fk == I64 ? (double)(int64_t)w
                             : (double)w;
      if (sat) {
        double m = APFloat::getLargest(sem(to)).convertToDouble();
        d = d <= -m ? -m : d >= m ? m : d;
      }
      v = ofD(d);
    }
    y.r.w.push_back(v);
  }
  (void)tk;
  s.note("cast %s to %s round %d sat %d ", show(x.r).c_str(),
      tname(to).c_str(), (int)round, (int)sat);
  if (how == 0)
    y.a = e.eb->castElementType(x.a, t);
  else if (isF(to))
    y.a = e.eb->castToFPElementType(x.a, mlir::cast<FloatType>(t), sat);
  else
    y.a = e.eb->castToIntElementType(x.a, mlir::cast<IntegerType>(t), round);
  e.add(y, "cast");
}

typedef void (*OpFn)(Env &);
static const vector<OpFn> OPS = {opTransform, opReshape, opTranspose, opExpand,
    opCombine, opSlice, opConcat, opSplit, opPad, opGather, opScatter, opReduce,
    opMatMul, opWhere, opClip, opRange, opNonZero, opEqual, opAllEqual};

static void propAlgebra(Src &s) {
  Env e(s);
  if (s.chance(5)) {
    e.pool->close();
    e.closed = true;
    s.label("closed");
  }
  e.add(e.makeNew(), "new");
  int n = (int)s.range(1, 12);
  for (int i = 0; i < n; ++i)
    OPS[s.draw(OPS.size())](e);
  e.checkAll("later");
  if (e.opsUsed.size() >= 4)
    s.nontrivial();
}

static void propCast(Src &s) {
  Env e(s);
  e.add(e.makeNew(), "new");
  int n = (int)s.range(1, 6);
  for (int i = 0; i < n; ++i) {
    if (s.chance(70))
      opCast(e);
    else
      OPS[s.draw(5)](e);
  }
  e.checkAll("later");
  if (e.opsUsed.count("cast"))
    s.nontrivial();
}

// ------------------------------------------------- E03: pool and modules

static const vector<std::pair<StringRef, StringRef>> DICT = {
    {"t.const", "value"}, {"t.other", "data"}};

struct Node {
  Operation *op;
  string attr;
  bool listed; // (operation name, attribute name) is in DICT
  Val v;
};

static void propPool(Src &s) {
  Env e(s);
  OpBuilder b(e.ctx.get());
  Location loc = UnknownLoc::get(e.ctx.get());
  OwningOpRef<ModuleOp> mod = ModuleOp::create(loc);
  vector<Node> nodes;
  vector<Operation *> regions; // operations with a region to insert in
  int steps = (int)s.range(4, 16), gcs = 0;
  bool scrubbed = false;

  auto insertPoint = [&]() {
    if (!regions.empty() && s.chance(50)) {
      Operation *r = regions[s.draw(regions.size())];
      b.setInsertionPointToEnd(&r->getRegion(0).front());
    } else
      b.setInsertionPointToEnd(mod->getBody());
  };
  auto addNode = [&](const Val &v) {
    insertPoint();
    int k = s.weighted({6, 3, 1});
    const char *on = k == 0 ? "t.const" : k == 1 ? "t.other" : "t.plain";
    const char *an = k == 0 ? "value" : k == 1 ? "data" : "value";
    // attributes that the dictionary does not list hold ordinary constants
    Val w = v;
    if (k == 2)
      w.a = e.dense(v.r);
    OperationState st(loc, on);
    st.addAttribute(an, w.a);
    if (s.chance(15)) {
      Region *r = st.addRegion();
      r->push_back(new Block());
    }
    Operation *op = b.create(st);
    if (op->getNumRegions())
      regions.push_back(op);
    nodes.push_back({op, an, k != 2, w});
  };
  auto checkNodes = [&](const char *when) {
    for (auto &n : nodes) {
      Val v = n.v;
      v.a = n.op->getAttrOfType<ElementsAttr>(n.attr);
      if (mlir::isa<DenseElementsAttr>(v.a))
        for (auto &w : v.r.w)
          w = narrow(v.r.b, w);
      e.check(v, when);
    }
  };
  // Buffers from which nothing in the module was computed must be gone.
  auto checkFreed = [&](const char *when) {
    std::set<int> need;
    for (auto &n : nodes)
      if (mlir::isa<DisposableElementsAttr>(n.op->getAttr(n.attr)))
        need.insert(n.v.bufs.begin(), n.v.bufs.end());
    for (int id : e.live)
      PCHECK(need.count(id), "%s: buffer %d is still held", when, id);
  };

  e.add(e.makeNew(), "new");
  for (int i = 0; i < steps; ++i) {
    switch (s.weighted({8, 8, 3, 3, 3, 1})) {
    case 0:
      if (s.chance(30))
        e.add(e.makeNew(), "new");
      else
        OPS[s.draw(OPS.size())](e);
      break;
    case 1:
      if (e.vals.empty())
        e.add(e.makeNew(), "new");
      addNode(e.vals[s.draw(e.vals.size())]);
      break;
    case 2: { // erase a leaf operation or change its attribute
      if (nodes.empty())
        break;
      size_t k = s.draw(nodes.size());
      Node &n = nodes[k];
      if (s.chance(40) && !e.vals.empty() && n.listed) {
        n.v = e.vals[s.draw(e.vals.size())];
        n.op->setAttr(n.attr, n.v.a);
        break;
      }
      if (n.op->getNumRegions())
        break;
      n.op->erase();
      nodes.erase(nodes.begin() + k);
      break;
    }
    case 3: { // collect: only what the module holds survives
      e.vals.clear();
      e.pool->garbageCollectUnreachable(*mod, DICT);
      ++gcs;
      s.label("gc");
      checkNodes("after gc");
      checkFreed("after gc");
      for (auto &n : nodes)
        if (n.listed && e.vals.size() < 8)
          e.vals.push_back(
              {n.op->getAttrOfType<ElementsAttr>(n.attr), n.v.r, n.v.bufs});
      for (auto &v : e.vals)
        if (mlir::isa<DenseElementsAttr>(v.a))
          for (auto &w : v.r.w)
            w = narrow(v.r.b, w);
      break;
    }
    case 4: { // print and parse back
      if (nodes.empty())
        break;
      Node &n = nodes[s.draw(nodes.size())];
      ElementsAttr a = n.op->getAttrOfType<ElementsAttr>(n.attr);
      string t;
      llvm::raw_string_ostream os(t);
      a.print(os);
      s.label("print");
      Attribute back = mlir::parseAttribute(t, e.ctx.get());
      PCHECK((bool)back, "cannot parse %s", t.substr(0, 300).c_str());
      Val v;
      v.a = mlir::dyn_cast<ElementsAttr>(back);
      v.r = n.v.r;
      for (auto &w : v.r.w)
        w = narrow(v.r.b, w);
      e.check(v, "parsed back");
      if (auto d = mlir::dyn_cast<DisposableElementsAttr>(a)) {
        PCHECK(mlir::isa<DisposableElementsAttr>(back), "parsed kind");
        if (s.chance(40)) { // damaged text is refused
          size_t q = t.find("0x");
          string u = t;
          int k = (int)s.draw(3);
          if (k == 0)
            u.insert(q + 2, "00");
          else if (k == 1 && u[q + 2] != '"')
            u.erase(q + 2, 1);
          else if (k == 2 && u[q + 2] != '"')
            u[q + 2] = 'g';
          else
            break;
          ScopedDiagnosticHandler h(
              e.ctx.get(), [](Diagnostic &) { return success(); });
          PCHECK(!mlir::parseAttribute(u, e.ctx.get()), "parsed %s",
              u.substr(0, 300).c_str());
        }
      }
      break;
    }
    default: { // scrub
      if (scrubbed)
        break;
      scrubbed = true;
      s.label("scrub");
      e.vals.clear();
      e.pool->scrub(*mod, DICT);
      for (auto &n : nodes)
        PCHECK(mlir::isa<DenseElementsAttr>(n.op->getAttr(n.attr)),
            "an attribute was not scrubbed");
      checkNodes("after scrub");
      PCHECK(e.live.empty(), "%zu buffers are held after scrub",
          e.live.size());
      if (s.chance(50)) {
        PCHECK(e.pool->isActive(), "active before close");
        e.pool->close();
        PCHECK(!e.pool->isActive(), "active after close");
        e.closed = true;
        e.add(e.makeNew(), "new");
        for (auto &v : e.vals)
          PCHECK(!mlir::isa<DisposableElementsAttr>(v.a),
              "a closed pool made a disposable attribute");
      } else
        scrubbed = false;
    }
    }
  }
  checkNodes("at the end");
  if (nodes.size() >= 2 && (gcs || scrubbed))
    s.nontrivial();
}

// Many attributes scrubbed in parallel.
static void propScrub(Src &s) {
  Env e(s);
  OpBuilder b(e.ctx.get());
  Location loc = UnknownLoc::get(e.ctx.get());
  OwningOpRef<ModuleOp> mod = ModuleOp::create(loc);
  b.setInsertionPointToEnd(mod->getBody());
  int n = (int)s.range(1, 60);
  vector<Node> nodes;
  for (int i = 0; i < n; ++i) {
    Val v;
    if (!e.vals.empty() && s.chance(30))
      v = e.vals[s.draw(e.vals.size())];
    else {
      e.bigUsed = !s.chance(10);
      Ref r = e.ref(s.pick(ALL), e.anyShape());
      int id = e.nextBuf++;
      v.r = r;
      v.bufs.insert(id);
      v.a = e.eb->fromMemoryBuffer(
          e.rt(r.b, r.sh), std::make_unique<TrackBuf>(e.rawBytes(r), id));
      if (v.r.sh.size() > 1 && s.chance(30)) {
        e.add(v, "new");
        opTranspose(e);
        v = e.vals.back();
      }
      e.vals.push_back(v);
      if (e.vals.size() > 6)
        e.vals.erase(e.vals.begin());
    }
    OperationState st(loc, "t.const");
    st.addAttribute("value", v.a);
    nodes.push_back({b.create(st), "value", true, v});
  }
  e.vals.clear();
  e.pool->scrub(*mod, DICT);
  for (auto &nd : nodes) {
    auto d = mlir::dyn_cast<DenseElementsAttr>(nd.op->getAttr("value"));
    PCHECK(d, "an attribute was not scrubbed");
    e.checkDense(d, nd.v, "scrubbed");
  }
  PCHECK(e.live.empty(), "%zu buffers are held after scrub", e.live.size());
  e.pool->close();
  if (n > 10)
    s.nontrivial();
}

// Attributes are created from several threads at once.
static void propThreads(Src &s) {
  Env e(s);
  std::mutex m;
  int n = (int)s.range(2, 40);
  vector<Ref> refs;
  vector<vector<char>> raw;
  vector<Val> vals(n), trs(n);
  for (int i = 0; i < n; ++i) {
    e.bigUsed = true;
    refs.push_back(e.ref(s.pick(ALL), e.anyShape()));
    raw.push_back(e.rawBytes(refs.back()));
  }
  // The bookkeeping of buffers is not under test: make them beforehand.
  vector<std::unique_ptr<TrackBuf>> bufs;
  vector<RankedTensorType> types;
  for (int i = 0; i < n; ++i) {
    bufs.push_back(std::make_unique<TrackBuf>(raw[i], e.nextBuf++));
    types.push_back(e.rt(refs[i].b, refs[i].sh));
  }
  int workers = (int)s.range(2, 6);
  std::atomic<int> next{0}, ready{0};
  vector<std::thread> ts;
  for (int w = 0; w < workers; ++w)
    ts.emplace_back([&] {
      ++ready;
      while (ready < workers)
        ;
      for (int i; (i = next++) < n;) {
        vals[i].r = refs[i];
        vals[i].a = e.eb->fromMemoryBuffer(types[i], std::move(bufs[i]));
        trs[i].r = refs[i];
        vector<uint64_t> perm;
        for (size_t a = refs[i].sh.size(); a-- > 0;)
          perm.push_back(a);
        trs[i].a = e.eb->transpose(vals[i].a, perm);
      }
    });
  for (auto &t : ts)
    t.join();
  OpBuilder b(e.ctx.get());
  Location loc = UnknownLoc::get(e.ctx.get());
  OwningOpRef<ModuleOp> mod = ModuleOp::create(loc);
  b.setInsertionPointToEnd(mod->getBody());
  std::set<int> keep;
  vector<Val> kept;
  for (int i = 0; i < n; ++i) {
    e.check(vals[i], "made by a thread");
    Ref t;
    t.b = refs[i].b;
    t.sh = Shape(refs[i].sh.rbegin(), refs[i].sh.rend());
    for (int64_t j = 0; j < prod(t.sh); ++j) {
      Shape idx = unflat(t.sh, j);
      t.w.push_back(
          refs[i].w[flat(refs[i].sh, Shape(idx.rbegin(), idx.rend()))]);
    }
    trs[i].r = t;
    e.check(trs[i], "transposed by a thread");
    if (s.chance(50)) {
      keep.insert(i);
      Val v = s.chance(50) ? vals[i] : trs[i];
      OperationState st(loc, "t.const");
      st.addAttribute("value", v.a);
      b.create(st);
      kept.push_back(v);
    }
  }
  e.pool->garbageCollectUnreachable(*mod, DICT);
  for (auto &v : kept)
    e.check(v, "kept");
  for (int id : e.live)
    PCHECK(keep.count(id), "buffer %d is still held", id);
  s.nontrivial();
}

int main(int argc, char **argv) {
  return pbt::mainFor({{"algebra", propAlgebra, setupPool},
                          {"cast", propCast, setupPool},
                          {"pool", propPool, setupPool},
                          {"scrub", propScrub, setupPool},
                          {"threads", propThreads, setupPool}},
      argc, argv);
}
