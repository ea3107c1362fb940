// S03: input lists made from a signature, against the documented meaning of
// the signature, the shape overrides and the value specifications.
#include "OnnxMlirRuntime.h"
#include "pbt.hpp"
#include "src/Runtime/OMTensorHelper.hpp"
#include "src/Runtime/OMTensorListHelper.hpp"
#include <sanitizer/allocator_interface.h>
using namespace pbt;

struct Ty {
  const char *mlir, *alias, *numpy, *numpy2;
  int onnx; // TensorProto.DataType
  int size;
  char kind; // 'f' float 'h' half 'i' signed 'u' unsigned 'b' bool 's' string
  double lo, hi, tlo, thi;
};
static const double P53 = 9007199254740992.0;
static const Ty T[] = {
    {"f32", "float", "float32", nullptr, 1, 4, 'f', -0.1, 0.1, -1e6, 1e6},
    {"i64", nullptr, "int64", nullptr, 7, 8, 'i', -10, 10, -P53, P53},
    {"f64", "double", "float64", nullptr, 11, 8, 'f', -0.1, 0.1, -1e9, 1e9},
    {"i1", nullptr, "bool_", "bool", 9, 1, 'b', 0, 1, 0, 1},
    {"i8", nullptr, "int8", nullptr, 3, 1, 'i', -10, 10, -128, 127},
    {"i16", nullptr, "int16", nullptr, 5, 2, 'i', -10, 10, -32768, 32767},
    {"i32", nullptr, "int32", nullptr, 6, 4, 'i', -10, 10, -2147483648.0,
        2147483647.0},
    {"ui8", nullptr, "uint8", nullptr, 2, 1, 'u', 0, 10, 0, 255},
    {"ui16", nullptr, "uint16", nullptr, 4, 2, 'u', 0, 10, 0, 65535},
    {"ui32", nullptr, "uint32", nullptr, 12, 4, 'u', 0, 10, 0, 4294967295.0},
    {"ui64", nullptr, "uint64", nullptr, 13, 8, 'u', 0, 10, 0,
        18446744073709549568.0},
    {"f16", nullptr, "float16", nullptr, 10, 2, 'h', -0.1, 0.1, -2000, 2000},
    {"string", nullptr, "str", nullptr, 8, 8, 's', 0, 63, -2147483648.0,
        2147483647.0},
};
static const int NT = 13;

static double f16val(uint16_t b) {
  int s = b >> 15, e = (b >> 10) & 31, m = b & 1023;
  double v = e == 31 ? (m ? NAN : INFINITY)
             : e == 0 ? ldexp(m, -24)
                      : ldexp(1024 + m, e - 25);
  return s ? -v : v;
}
// element as a long double, exact for every type
static long double elem(const Ty &t, OMTensor *x, int64_t i) {
  void *p = omTensorGetDataPtr(x);
  switch (t.onnx) {
  case 1: return ((float *)p)[i];
  case 11: return ((double *)p)[i];
  case 10: return f16val(((uint16_t *)p)[i]);
  case 9: return ((uint8_t *)p)[i];
  case 3: return ((int8_t *)p)[i];
  case 5: return ((int16_t *)p)[i];
  case 6: return ((int32_t *)p)[i];
  case 7: return ((int64_t *)p)[i];
  case 2: return ((uint8_t *)p)[i];
  case 4: return ((uint16_t *)p)[i];
  case 12: return ((uint32_t *)p)[i];
  case 13: return ((uint64_t *)p)[i];
  case 8: {
    const char *c = ((const char **)p)[i];
    char *end;
    long long v = strtoll(c, &end, 10);
    PCHECK(*c && !*end, "string element '%s' is not an integer", c);
    PCHECK(std::to_string(v) == c, "string element '%s' is not canonical", c);
    return v;
  }
  }
  abort();
}

struct In {
  int t;
  std::vector<int64_t> sig, want;
  bool hasMin = false, hasMax = false, hasSoz = false;
  double mn = 0, mx = 0;
  int64_t soz = 0;
};

static std::string ws(Src &s) {
  static const std::vector<std::string> W = {"", " ", "  ", "\n\t"};
  return W[s.weighted({60, 25, 10, 5})];
}
static std::string num(double v) {
  char b[64];
  if (v == floor(v) && fabs(v) < 1e18)
    snprintf(b, sizeof b, "%.0f", v);
  else
    snprintf(b, sizeof b, "%.17g", v);
  return b;
}
// a bound of type t
static double bound(Src &s, const Ty &t, bool upper, double lo) {
  if (t.kind == 'f' || t.kind == 'h') {
    double v = (double)s.range(-40, 40) / 8;
    if (s.chance(20))
      v = (double)s.range(-2000, 2000);
    return upper ? std::max(lo, v) : v;
  }
  if (t.kind == 'b')
    return upper ? std::max(lo, (double)s.draw(2)) : (double)s.draw(2);
  if (upper && s.chance(60))
    return std::min(t.thi, lo + (double)s.draw(4));
  double v;
  switch (s.draw(4)) {
  case 0: v = (double)s.range(t.kind == 'u' ? 0 : -20, 20); break;
  case 1: v = t.tlo + (double)s.draw(4); break;
  case 2: v = t.thi - (double)s.draw(4); break;
  default: v = floor((t.tlo / 2 + t.thi / 2)) + (double)s.draw(100); break;
  }
  v = std::min(std::max(v, t.tlo), t.thi);
  return upper ? std::max(lo, v) : v;
}

// ids: entry index text for one input / a range / all
struct Tgt {
  std::string text;
  int lo, hi;
};
static Tgt target(Src &s, int n) {
  Tgt t;
  int w = s.weighted({60, 20, 20});
  if (w == 2) {
    t.text = "-1";
    t.lo = 0;
    t.hi = n - 1;
  } else {
    t.lo = s.draw(n);
    t.hi = w == 1 ? t.lo + s.draw(n - t.lo) : t.lo;
    t.text = std::to_string(t.lo);
    if (w == 1)
      t.text += (s.chance(20) ? " -" : "-") + std::to_string(t.hi);
  }
  return t;
}

static void prop_fill(Src &s) {
  int n = s.weighted({3, 40, 30, 20, 10});
  std::vector<In> in(n);
  std::string sig = ws(s) + "[";
  bool dynamic = false;
  for (int i = 0; i < n; i++) {
    In &x = in[i];
    x.t = s.draw(NT);
    int rank = s.weighted({10, 30, 30, 20, 10});
    for (int d = 0; d < rank; d++)
      x.sig.push_back(s.chance(25) ? -1
                      : s.chance(5) ? 0
                      : s.chance(10) ? (int64_t)(20 + s.draw(60))
                                     : (int64_t)(1 + s.draw(6)));
    x.want = x.sig;
    std::string ty = "\"type\"" + ws(s) + ":" + ws(s) + "\"" +
                     (T[x.t].alias && s.draw(2) ? T[x.t].alias : T[x.t].mlir) +
                     "\"";
    std::string dm = "\"dims\"" + ws(s) + ":" + ws(s) + "[";
    for (int d = 0; d < rank; d++)
      dm += (d ? ws(s) + "," + ws(s) : "") + std::to_string(x.sig[d]);
    dm += ws(s) + "]";
    std::string nm = "\"name\" : \"" +
                     s.pick(std::vector<std::string>{"x", "image", "a:0",
                         "b,c", "x}y", "[q]"}) +
                     "\"";
    std::vector<std::string> parts = {ty, dm, nm};
    if (s.chance(20))
      std::swap(parts[s.draw(3)], parts[s.draw(3)]);
    if (s.chance(20))
      parts.erase(std::find(parts.begin(), parts.end(), nm));
    sig += (i ? "," : "") + ws(s) + "{" + ws(s);
    for (size_t p = 0; p < parts.size(); p++)
      sig += (p ? ws(s) + "," + ws(s) : "") + parts[p];
    sig += ws(s) + "}";
  }
  sig += ws(s) + "]";
  std::string close = sig;
  sig += ws(s);

  // shapes: entries for one input, a range of inputs or all of them; the last
  // entry that names an input counts for it
  std::string shape;
  std::vector<std::vector<int64_t>> over(n);
  for (int i = 0; i < n; i++)
    for (int64_t d : in[i].sig)
      dynamic |= d < 0;
  bool many = false;
  auto entry = [&](const std::string &ids, int from, int to,
                   const std::vector<int64_t> &dims) {
    shape += (shape.empty() ? "" : "," + ws(s)) + ids + ":";
    for (size_t d = 0; d < dims.size(); d++)
      shape += (d ? "x" : "") + std::to_string(dims[d]);
    for (int i = from; i <= to; i++)
      over[i] = dims;
  };
  // sizes that suit every input of the group, where there are such
  auto group = [&](const Tgt &g) {
    size_t rank = 1;
    for (int i = g.lo; i <= g.hi; i++)
      rank = std::max(rank, in[i].sig.size());
    if (s.chance(10))
      rank = 1 + s.draw(rank + 1);
    std::vector<int64_t> dims;
    for (size_t d = 0; d < rank; d++) {
      int64_t v = -1;
      bool need = false;
      for (int i = g.lo; i <= g.hi; i++)
        if (d < in[i].sig.size()) {
          if (in[i].sig[d] >= 0)
            v = in[i].sig[d];
          else
            need = true;
        }
      if (v < 0)
        v = s.chance(5) ? 0 : 1 + s.draw(6);
      else if (!need && s.draw(2))
        v = -1;
      dims.push_back(v);
    }
    return dims;
  };
  if (n && s.chance(dynamic ? 95 : 25)) {
    int before = s.chance(25) ? 1 + s.draw(2) : 0,
        after = s.chance(25) ? 1 + s.draw(2) : 0;
    for (int k = 0; k < before; k++) {
      Tgt g = target(s, n);
      entry(g.text, g.lo, g.hi, s.draw(2) ? std::vector<int64_t>{77, 77}
                                          : group(g));
      many = true;
    }
    for (int i = 0; i < n; i++) {
      if (in[i].sig.empty())
        continue;
      bool dyn = false;
      for (int64_t d : in[i].sig)
        dyn |= d < 0;
      if (!dyn && !s.chance(20) && over[i].empty())
        continue;
      std::vector<int64_t> dims;
      for (int64_t d : in[i].sig)
        dims.push_back(d < 0 ? s.chance(5) ? 0 : 1 + s.draw(6)
                       : s.draw(2) ? -1
                                   : d);
      entry(std::to_string(i), i, i, dims);
    }
    for (int k = 0; k < after; k++) {
      Tgt g = target(s, n);
      entry(g.text, g.lo, g.hi, group(g));
      many = true;
    }
  }
  bool shapesOk = true;
  for (int i = 0; i < n; i++)
    for (size_t d = 0; d < in[i].sig.size() && d < over[i].size(); d++)
      if (over[i][d] >= 0) {
        if (in[i].sig[d] >= 0 && in[i].sig[d] != over[i][d])
          shapesOk = false;
        in[i].want[d] = over[i][d];
      }
  if (many && shapesOk)
    s.label("several shape entries for an input");
  // defaults per type
  std::map<int, double> lo, hi;
  std::string lbs, ubs;
  if (s.chance(30))
    for (int k = 1 + s.draw(3); k > 0; k--) {
      int t = s.draw(NT);
      if (n && s.chance(70))
        t = in[s.draw(n)].t;
      if (lo.count(t))
        continue;
      lo[t] = bound(s, T[t], false, 0);
      hi[t] = bound(s, T[t], true, lo[t]);
      auto nm = [&]() {
        return std::string(
            T[t].numpy2 && s.draw(2) ? T[t].numpy2 : T[t].numpy);
      };
      lbs += (lbs.empty() ? "" : ",") + ws(s) + nm() + ":" + num(lo[t]);
      ubs += (ubs.empty() ? "" : ",") + ws(s) + nm() + ":" + num(hi[t]);
    }
  // values
  std::string values;
  if (n && s.chance(75))
    for (int k = 1 + s.draw(3); k > 0; k--) {
      Tgt g = target(s, n);
      const Ty &t0 = T[in[g.lo].t];
      bool same = true;
      for (int i = g.lo; i <= g.hi; i++)
        same &= in[i].t == in[g.lo].t;
      In e;
      std::string spec;
      int w = s.weighted({35, 10, 10, 20, 25});
      double a, b;
      if (same) {
        a = bound(s, t0, false, 0);
        b = bound(s, t0, true, a);
      } else { // valid for every type, ordered
        a = 0;
        b = 1;
      }
      auto dl = [&](const Ty &t, bool up) {
        int ti = &t - T;
        return up ? (hi.count(ti) ? hi[ti] : t.hi)
                  : (lo.count(ti) ? lo[ti] : t.lo);
      };
      if (w == 0) {
        e.hasMin = e.hasMax = true;
        e.mn = a;
        e.mx = b;
        std::string sep = s.draw(2) ? " " : "";
        if (s.draw(2))
          spec = "min" + num(a) + sep + "max" + num(b);
        else
          spec = "max" + num(b) + sep + "min" + num(a);
      } else if (w == 1) {
        e.hasMin = true;
        e.mn = a;
        for (int i = g.lo; i <= g.hi; i++)
          e.mn = std::min(e.mn, dl(T[in[i].t], true));
        spec = "min" + num(e.mn);
      } else if (w == 2) {
        e.hasMax = true;
        e.mx = b;
        for (int i = g.lo; i <= g.hi; i++)
          e.mx = std::max(e.mx, dl(T[in[i].t], false));
        spec = "max" + num(e.mx);
      } else if (w == 3) {
        e.hasMin = e.hasMax = true;
        e.mn = e.mx = a;
        spec = "val" + num(a);
      } else {
        e.hasSoz = true;
        e.soz = s.chance(40) ? -1 : (int64_t)s.draw(8);
        spec = "soz" + std::to_string(e.soz);
      }
      if (!same && (w == 1 || w == 2)) // out of the range of some type
        for (int i = g.lo; i <= g.hi; i++)
          if (e.mn < T[in[i].t].tlo || e.mx > T[in[i].t].thi)
            throw Discard();
      values += (values.empty() ? "" : ",") + ws(s) + g.text + ":" +
                (s.chance(20) ? " " : "") + spec;
      for (int i = g.lo; i <= g.hi; i++) {
        in[i].hasMin = e.hasMin;
        in[i].hasMax = e.hasMax;
        in[i].hasSoz = e.hasSoz;
        in[i].mn = e.mn;
        in[i].mx = e.mx;
        in[i].soz = e.soz;
      }
    }
  bool valid = shapesOk;
  for (int i = 0; i < n; i++) {
    for (int64_t d : in[i].want)
      if (d < 0)
        valid = false;
    if (in[i].hasSoz && (in[i].sig.empty() || T[in[i].t].kind == 's')) {
      valid = false;
      for (int64_t d : in[i].want) // nothing to fill: not specified
        if (d == 0)
          throw Discard();
    }
  }
  // One thing wrong, sometimes.
  int bad = s.chance(15) ? 1 + s.draw(9) : 0;
  switch (bad) {
  case 1: // truncated signature
    sig = close.substr(0, s.draw(close.size()));
    break;
  case 2:
    if (!n) {
      bad = 0;
      break;
    }
  {
    // an input that is not there, alone or as the end of a range
    std::string id = std::to_string(n + s.draw(3));
    if (s.draw(2))
      id = std::to_string(s.draw(n)) + "-" + id;
    if (s.draw(2))
      values += (values.empty() ? "" : ",") + id + ":val1";
    else
      shape += (shape.empty() ? "" : ",") + id + ":-1";
    break;
  }
  case 3:
    if (!n) {
      bad = 0;
      break;
    }
    values += (values.empty() ? "" : ",") +
              ("0:" + s.pick(std::vector<std::string>{"avg1", "min", "minx",
                          "soz1 min0", "soz-2", "1", "min1 max"}));
    break;
  case 4: lbs += (lbs.empty() ? "" : ",") + std::string("float31:1"); break;
  case 5: ubs += (ubs.empty() ? "" : ",") + std::string("int8"); break;
  case 6: {
    bool found = false;
    for (int i = 0; i < n && !found; i++)
      for (size_t d = 0; d < in[i].sig.size() && !found; d++)
        if (in[i].sig[d] >= 0) { // contradicts the signature
          found = true;
          shape += (shape.empty() ? "" : ",") + std::to_string(i) + ":";
          for (size_t e = 0; e < in[i].sig.size(); e++)
            shape += (e ? "x" : "") +
                     std::to_string(e == d ? in[i].sig[d] + 1 + s.draw(3)
                                           : in[i].want[e]);
        }
    if (!found)
      bad = 0;
    break;
  }
  case 7: {
    size_t p = sig.find("\"type\"");
    if (p == std::string::npos)
      bad = 0;
    else
      sig.replace(p, 6, "\"tipe\"");
    break;
  }
  case 8:
    if (!n) {
      bad = 0;
      break;
    }
    shape += (shape.empty() ? "" : ",") +
             s.pick(std::vector<std::string>{
                 "0", "0:ax2", "0-:2", "x:2", "0:1:2", "-2:3"});
    break;
  case 9:
    if (n < 2) {
      bad = 0;
      break;
    }
    shape += (shape.empty() ? "" : ",") + std::string("1-0:2");
    break;
  }
  unsigned seed = s.draw(100000);
  s.note("sig=%s shape='%s' values='%s' lb='%s' ub='%s' seed=%u", sig.c_str(),
      shape.c_str(), values.c_str(), lbs.c_str(), ubs.c_str(), seed);
  auto arg = [&](const std::string &x) {
    return x.empty() && s.draw(2) ? (const char *)nullptr : x.c_str();
  };
  size_t mem0 = __sanitizer_get_current_allocated_bytes();
  bool verbose = s.chance(20);
  char *text = nullptr;
  size_t textLen = 0;
  PCHECK(omDefineSeed(seed, 1) == seed, "omDefineSeed returns the seed");
  FILE *so = stdout;
  if (verbose)
    stdout = open_memstream(&text, &textLen);
  OMTensorList *l = omTensorListCreateFromInputSignature(sig.c_str(),
      arg(shape), arg(values), arg(lbs), arg(ubs), verbose);
  if (verbose) {
    fclose(stdout);
    stdout = so;
  }
  std::string out = text ? std::string(text, textLen) : "";
  free(text);
  if (bad || !valid) {
    PCHECK(!l, "an invalid request (%d) made a list", bad);
    s.label(bad ? "malformed request" : "unresolved dimension or soz type");
  } else {
    PCHECK(l, "a valid request was rejected");
    PCHECK(omTensorListGetSize(l) == n, "%ld inputs, expected %d",
        (long)omTensorListGetSize(l), n);
    int64_t total = 0;
    std::string wantOut;
    for (int i = 0; i < n; i++) {
      const In &x = in[i];
      const Ty &t = T[x.t];
      OMTensor *o = omTensorListGetOmtByIndex(l, i);
      PCHECK((int)omTensorGetDataType(o) == t.onnx, "input %d type %d", i,
          (int)omTensorGetDataType(o));
      PCHECK(omTensorGetRank(o) == (int64_t)x.want.size(), "input %d rank", i);
      int64_t m = 1;
      wantOut = "Input " + std::to_string(i) + ": tensor of " + t.mlir +
                " with shape";
      for (size_t d = 0; d < x.want.size(); d++) {
        PCHECK(omTensorGetShape(o)[d] == x.want[d], "input %d dim %zu is %ld",
            i, d, (long)omTensorGetShape(o)[d]);
        m *= x.want[d];
        wantOut += " " + std::to_string(x.want[d]);
      }
      if (verbose)
        PCHECK(out.find(wantOut + ",") != std::string::npos,
            "verbose output '%s' lacks '%s'", out.c_str(), wantOut.c_str());
      PCHECK(omTensorGetBufferSize(o) == m * t.size, "input %d buffer size", i);
      PCHECK(omTensorGetOwning(o), "input %d owns its data", i);
      total += m;
      if (x.hasSoz) {
        int64_t inner = x.want.back();
        for (int64_t r = 0; inner && r < m / inner; r++) {
          int64_t ones = 0;
          while (ones < inner && elem(t, o, r * inner + ones) == 1)
            ones++;
          for (int64_t j = ones; j < inner; j++)
            PCHECK(elem(t, o, r * inner + j) == 0,
                "input %d row %ld is not ones then zeros", i, (long)r);
          if (x.soz >= 0)
            PCHECK(ones == std::min(x.soz, inner), "input %d row %ld has %ld "
                "ones", i, (long)r, (long)ones);
          else
            PCHECK(ones >= 1 && ones <= std::max<int64_t>(1, inner - 1),
                "input %d row %ld has %ld ones of %ld", i, (long)r, (long)ones,
                (long)inner);
        }
        s.label("soz");
        continue;
      }
      double a = x.hasMin ? x.mn : lo.count(x.t) ? lo[x.t] : t.lo;
      double b = x.hasMax ? x.mx : hi.count(x.t) ? hi[x.t] : t.hi;
      if (t.kind == 'b')
        a = a > 0.5, b = b > 0.5;
      if (strchr("ius", t.kind))
        a = trunc(a), b = trunc(b);
      long double la = a, lb = b;
      if (t.onnx == 1)
        la = (float)a, lb = (float)b;
      if (t.kind == 'h') { // rounding to nearest may reach the next half
        long double e = std::max(fabs(a), fabs(b)) / 1024 + 1e-7;
        la -= e;
        lb += e;
      }
      std::map<long double, int> seen;
      for (int64_t j = 0; j < m; j++) {
        long double v = elem(t, o, j);
        PCHECK(v >= la && v <= lb, "input %d (%s) element %ld is %.20Lg, not "
            "in [%.20Lg, %.20Lg]", i, t.mlir, (long)j, v, la, lb);
        if (seen.size() < 8)
          seen[v]++;
      }
      double span = b - a;
      if (strchr("iusb", t.kind) && span >= 1 && span <= 3 && m >= 100) {
        PCHECK((double)seen.size() == span + 1,
            "input %d: %ld elements take %zu of the values %g..%g", i, (long)m,
            seen.size(), a, b);
        s.label("every value of a small range seen");
      }
      if (span > 0.05 && m >= 50)
        PCHECK(seen.size() > 1, "input %d: %ld equal random elements", i,
            (long)m);
    }
    // The same seed makes the same data.
    omDefineSeed(seed, 1);
    OMTensorList *l2 = omTensorListCreateFromInputSignature(sig.c_str(),
        shape.c_str(), values.c_str(), lbs.c_str(), ubs.c_str());
    PCHECK(l2, "second call failed");
    for (int i = 0; i < n; i++) {
      OMTensor *p = omTensorListGetOmtByIndex(l, i),
               *q = omTensorListGetOmtByIndex(l2, i);
      for (int64_t j = 0; j < omTensorGetNumElems(p); j++)
        PCHECK(elem(T[in[i].t], p, j) == elem(T[in[i].t], q, j),
            "input %d differs between two runs with seed %u", i, seed);
    }
    omTensorListDestroy(l2);
    omTensorListDestroy(l);
    if (n >= 1 && total > 3)
      s.nontrivial();
    if (n == 0)
      s.label("no inputs");
  }
  out = std::string();
  (void)mem0;
}

// Element types carry the numbering, sizes and names of the ONNX standard.
struct Std {
  int v, size;
  const char *mlir;
};
static void prop_types(Src &s) {
  static const Std S[] = {{1, 4, "f32"}, {2, 1, "ui8"}, {3, 1, "i8"},
      {4, 2, "ui16"}, {5, 2, "i16"}, {6, 4, "i32"}, {7, 8, "i64"},
      {8, 8, "string"}, {9, 1, "i1"}, {10, 2, "f16"}, {11, 8, "f64"},
      {12, 4, "ui32"}, {13, 8, "ui64"}, {14, 8, "complex64"},
      {15, 16, "complex128"}, {16, 2, "bf16"}, {17, 1, "f8e4m3fn"},
      {18, 1, "f8e4m3fnuz"}, {19, 1, "f8e5m2"}, {20, 1, "f8e5m2fnuz"},
      {21, 1, "ui4"}, {22, 1, "i4"}};
  const Std &t = S[s.draw(22)];
  s.note("type %d (%s) ", t.v, t.mlir);
  s.nontrivial();
  static const int E[] = {ONNX_TYPE_FLOAT, ONNX_TYPE_UINT8, ONNX_TYPE_INT8,
      ONNX_TYPE_UINT16, ONNX_TYPE_INT16, ONNX_TYPE_INT32, ONNX_TYPE_INT64,
      ONNX_TYPE_STRING, ONNX_TYPE_BOOL, ONNX_TYPE_FLOAT16, ONNX_TYPE_DOUBLE,
      ONNX_TYPE_UINT32, ONNX_TYPE_UINT64, ONNX_TYPE_COMPLEX64,
      ONNX_TYPE_COMPLEX128, ONNX_TYPE_BFLOAT16, ONNX_TYPE_FLOAT8E4M3FN,
      ONNX_TYPE_FLOAT8E4M3FNUZ, ONNX_TYPE_FLOAT8E5M2, 20, ONNX_TYPE_UINT4,
      ONNX_TYPE_INT4};
  PCHECK(E[&t - S] == t.v, "enumerator of %s is %d", t.mlir, E[&t - S]);
  PCHECK(OM_DATA_TYPE_SIZE[t.v] == t.size, "size of type %d is %d", t.v,
      OM_DATA_TYPE_SIZE[t.v]);
  int rank = s.draw(5);
  std::vector<int64_t> sh;
  int64_t n = 1;
  for (int i = 0; i < rank; i++) {
    sh.push_back(s.draw(6));
    n *= sh.back();
  }
  OMTensor *x = omTensorCreateEmpty(sh.data(), rank, (OM_DATA_TYPE)t.v);
  PCHECK(x && omTensorGetDataType(x) == t.v, "tensor of type %d", t.v);
  PCHECK(omTensorGetBufferSize(x) == n * t.size, "buffer size of type %d", t.v);
  if (n)
    memset(omTensorGetDataPtr(x), 0x5a, n * t.size);
  omTensorDestroy(x);
}

int main(int argc, char **argv) {
  return mainFor({{"fill", prop_fill, nullptr}, {"types", prop_types, nullptr}},
      argc, argv);
}
