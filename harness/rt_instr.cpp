// R11: the instrumentation report of a history of inference runs.
#include "onnx-mlir/Runtime/OMInstrument.h"
#include "pbt.hpp"
#include <sys/resource.h>
using namespace pbt;

extern "C" {
extern const char *OMCurrentOpName;
extern const char *OMCurrentNodeName;
extern int64_t OMCurrentTag;
FILE *__wrap_popen(const char *, const char *) {
  static char b[] = "  1234\n";
  return fmemopen(b, 7, "r");
}
int __wrap_pclose(FILE *f) { return fclose(f); }
}

struct Ev { // expected report line
  char kind; // S start, C compile info, T time, M memory
  std::string op, node, info;
  bool before = false;
};
struct Point {
  int op;
  bool before, time, mem;
};

static std::string readAll(const std::string &p) {
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
static std::vector<std::string> split(const std::string &l) {
  std::vector<std::string> r;
  size_t i = 0;
  for (;;) {
    size_t j = l.find(", ", i);
    if (j == std::string::npos) {
      r.push_back(l.substr(i));
      return r;
    }
    r.push_back(l.substr(i, j - i));
    i = j + 2;
  }
}
static int64_t usec(const std::string &t) { // "<sec>.<6 digits>"
  size_t d = t.find('.');
  if (d == std::string::npos || t.size() - d != 7)
    return -1;
  for (size_t i = 0; i < t.size(); ++i)
    if (i != d && (t[i] < '0' || t[i] > '9'))
      return -1;
  return strtoll(t.c_str(), 0, 10) * 1000000 + strtoll(&t[d + 1], 0, 10);
}

static void check(const std::string &text, const std::vector<Ev> &want) {
  // Memory lines are printed at once, time lines in batches; each kind keeps
  // its own order within a run and START comes first.
  std::vector<std::string> lines;
  std::istringstream is(text);
  std::string l;
  while (std::getline(is, l))
    lines.push_back(l);
  PCHECK(text.empty() || text.back() == '\n', "incomplete last line");
  size_t wi = 0, li = 0;
  while (wi < want.size()) {
    PCHECK(want[wi].kind == 'S', "internal");
    PCHECK(li < lines.size(), "report of a run is missing (%zu lines)", li);
    PCHECK(lines[li] == "==START-REPORT==", "line %zu is '%s'", li,
        lines[li].c_str());
    ++wi;
    ++li;
    if (wi < want.size() && want[wi].kind == 'C') {
      PCHECK(li < lines.size() &&
                 lines[li] == "==COMPILE-INFO-REPORT==, " + want[wi].info,
          "compile info: '%s'", li < lines.size() ? lines[li].c_str() : "");
      ++wi;
      ++li;
    }
    std::vector<const Ev *> t, m;
    for (; wi < want.size() && want[wi].kind != 'S'; ++wi)
      (want[wi].kind == 'T' ? t : m).push_back(&want[wi]);
    size_t ti = 0, mi = 0;
    int64_t acc = -1;
    for (; li < lines.size() && lines[li] != "==START-REPORT=="; ++li) {
      auto f = split(lines[li]);
      bool isT = f[0] == "==PERF-REPORT==", isM = f[0] == "==MEM-REPORT==";
      PCHECK(isT || isM, "unexpected line '%s'", lines[li].c_str());
      auto &seq = isT ? t : m;
      size_t &i = isT ? ti : mi;
      PCHECK(i < seq.size(), "surplus line '%s' after %zu of its kind",
          lines[li].c_str(), i);
      PCHECK(f.size() == (isT ? 6u : 5u), "fields of '%s'", lines[li].c_str());
      PCHECK(f[1] == seq[i]->op && f[2] == seq[i]->node &&
                 f[3] == (seq[i]->before ? "before" : "after"),
          "%s line %zu is '%s', expected %s, %s, %s", f[0].c_str(), i,
          lines[li].c_str(), seq[i]->op.c_str(), seq[i]->node.c_str(),
          seq[i]->before ? "before" : "after");
      ++i;
      if (isT) {
        int64_t e = usec(f[4]), a = usec(f[5]);
        PCHECK(e >= 0 && a >= 0, "times of '%s'", lines[li].c_str());
        PCHECK(a == e + (acc < 0 ? 0 : acc),
            "'%s': the accumulated time is not the previous one (%" PRId64
            ") plus the elapsed time",
            lines[li].c_str(), acc);
        PCHECK(a < 600 * 1000000LL, "implausible time '%s'", lines[li].c_str());
        acc = a;
      }
    }
    PCHECK(ti == t.size(), "%zu time lines, expected %zu", ti, t.size());
    PCHECK(mi == m.size(), "%zu memory lines, expected %zu", mi, m.size());
  }
  PCHECK(li == lines.size(), "surplus text from line %zu: '%s'", li,
      lines[li].c_str());
}

static void prop_instr(Src &s) {
  std::string dir = tmpDir("ins");
  struct Cleanup {
    std::string d;
    int saved;
    ~Cleanup() {
      fflush(stdout);
      dup2(saved, 1);
      close(saved);
      for (const char *f : {"/out", "/a.log", "/b.log"})
        unlink((d + f).c_str());
      rmdir(d.c_str());
    }
  } cl{dir, dup(1)};
  int ofd = open((dir + "/out").c_str(), O_CREAT | O_RDWR | O_APPEND, 0600);
  dup2(ofd, 1);
  close(ofd);
  rlimit rl;
  getrlimit(RLIMIT_NOFILE, &rl);
  rl.rlim_cur = 64;
  setrlimit(RLIMIT_NOFILE, &rl);

  // Names live as long as the "model". The strings in memory are longer than
  // what the tag declares, as in compiled models.
  int nops = (int)s.range(1, 4);
  std::vector<std::string> op, node, opMem, nodeMem;
  for (int i = 0; i < nops; ++i) {
    std::string alpha = "abcXYZ019._/:-";
    op.push_back(s.chance(5) ? std::string(63, 'q') : "o" + s.str(12, alpha));
    node.push_back(
        s.chance(5) ? std::string(511, 'z') : "n" + s.str(20, alpha));
  }
  for (int i = 0; i < nops; ++i) {
    opMem.push_back(op[i] + (s.chance(30) ? "GARBAGE" : ""));
    nodeMem.push_back(node[i] + (s.chance(30) ? "GARBAGE" : ""));
  }
  std::string info = "{\"v\":\"" + s.str(10, "abc,: ") + "\"}";
  auto tagOf = [&](const Point &p, bool init) {
    // The encoding of the tag is shared with models compiled earlier.
    uint64_t tag = (p.before ? 1 : 2) | (p.time ? 4 : 0) | (p.mem ? 8 : 0) |
                   (init ? 16 : 0) | (uint64_t)op[p.op].size() << 8 |
                   (uint64_t)node[p.op].size() << 24;
    return (int64_t)tag;
  };
  std::map<std::string, std::vector<Ev>> want; // per sink
  int runs = s.chance(10) ? (int)s.range(70, 110) : (int)s.range(1, 5);
  bool big = runs < 6 && s.chance(4);
  omInstrumentPrint(); // whatever the previous case left
  bool configured = false;
  std::string sink;
  bool noT = false, noM = false;
  int nts = 0, nms = 0, repeated = 0, oneSided = 0;
  for (int r = 0; r < runs; ++r) {
    if (!configured || s.chance(30)) {
      // The environment is read at the first run after a print.
      static const char *V[] = {"ONNX_MLIR_NO_INSTRUMENT",
          "ONNX_MLIR_NO_INSTRUMENT_TIME", "ONNX_MLIR_NO_INSTRUMENT_MEMORY"};
      bool on[3];
      for (int i = 0; i < 3; ++i) {
        on[i] = s.chance(12);
        if (on[i])
          setenv(V[i], "1", 1);
        else
          unsetenv(V[i]);
      }
      int where = s.weighted({2, 3, 3, 1});
      std::string p = where == 1   ? dir + "/a.log"
                      : where == 2 ? dir + "/b.log"
                      : where == 3 ? dir + "/nodir/x"
                                   : "";
      if (p.empty())
        unsetenv("ONNX_MLIR_INSTRUMENT_FILE");
      else
        setenv("ONNX_MLIR_INSTRUMENT_FILE", p.c_str(), 1);
      if (!configured) {
        sink = where == 1 || where == 2 ? p : dir + "/out";
        noT = on[0] || on[1];
        noM = on[0] || on[2];
        configured = true;
      }
    }
    // one inference run
    bool newProto = s.chance(50);
    std::vector<Point> pts;
    int n = big ? (int)s.range(8000, 9500) : (int)s.draw(14);
    bool memCase = s.chance(25);
    int style = s.weighted({4, 2, 1, 1}); // paired, one op, before only, after
    for (int i = 0; i < n; ++i) {
      Point p;
      p.op = big || style == 1 ? (int)(i / 2) % nops : (int)s.draw(nops);
      p.time = big || !s.chance(15);
      p.mem = !big && memCase && s.chance(40);
      if (style == 2 || style == 3) {
        p.before = style == 2;
        oneSided++;
        pts.push_back(p);
      } else {
        p.before = true;
        pts.push_back(p);
        bool nested = !big && s.chance(15);
        if (nested) {
          Point q = p;
          q.op = (int)s.draw(nops);
          pts.push_back(q);
          q.before = false;
          pts.push_back(q);
        }
        p.before = false;
        pts.push_back(p);
      }
      if (pts.size() > 2 && pts[pts.size() - 1].op == pts[pts.size() - 3].op)
        repeated++;
    }
    s.note("run%s %zu points style=%d T=%d M=%d sink=%s; ",
        newProto ? "(info)" : "", pts.size(), style, !noT, !noM,
        sink.substr(dir.size()).c_str());
    if (newProto)
      OMInstrumentPointInit(0, info.c_str());
    std::vector<Ev> evs;
    bool inited = newProto;
    for (size_t i = 0; i < pts.size(); ++i) {
      const Point &p = pts[i];
      int64_t tag = tagOf(p, !newProto && i == 0);
      if (!newProto && i == 0)
        inited = true;
      OMInstrumentPoint(opMem[p.op].c_str(), tag, nodeMem[p.op].c_str());
      PCHECK(OMCurrentOpName == opMem[p.op].c_str() &&
                 OMCurrentNodeName == nodeMem[p.op].c_str() &&
                 OMCurrentTag == tag,
          "current op marker");
      if (pts.size() < 40)
        s.note("%s%d%s%s ", p.before ? "B" : "A", p.op, p.time ? "t" : "",
            p.mem ? "m" : "");
      Ev e;
      e.op = op[p.op];
      e.node = node[p.op];
      e.before = p.before;
      if (p.time && !noT) {
        e.kind = 'T';
        evs.push_back(e);
        nts++;
      }
      if (p.mem && !noM) {
        e.kind = 'M';
        evs.push_back(e);
        nms++;
      }
    }
    (void)inited;
    omInstrumentPrint();
    s.note("; ");
    configured = false;
    if (!evs.empty()) {
      auto &w = want[sink];
      Ev st;
      st.kind = 'S';
      w.push_back(st);
      if (newProto) {
        Ev c;
        c.kind = 'C';
        c.info = info;
        w.push_back(c);
      }
      w.insert(w.end(), evs.begin(), evs.end());
    }
  }
  // Everything must be visible now, without exiting the process.
  for (const char *f : {"/out", "/a.log", "/b.log"}) {
    std::string text = readAll(dir + f);
    try {
      check(text, want[dir + f]);
    } catch (Fail &e) {
      s.noteStr("\n" + std::string(f) + ":\n" + text.substr(0, 1500));
      throw;
    }
  }
  for (const char *v :
      {"ONNX_MLIR_NO_INSTRUMENT", "ONNX_MLIR_NO_INSTRUMENT_TIME",
          "ONNX_MLIR_NO_INSTRUMENT_MEMORY", "ONNX_MLIR_INSTRUMENT_FILE"})
    unsetenv(v);
  if (nts + nms > 3)
    s.nontrivial();
  if (repeated)
    s.label("op repeated in a row");
  if (oneSided)
    s.label("one-sided points");
  if (big)
    s.label("more points than the buffer holds");
  if (runs > 60)
    s.label("more runs than open files allowed");
  if (nms)
    s.label("memory lines");
}
int main(int argc, char **argv) {
  return mainFor({{"instr", prop_instr, nullptr}}, argc, argv);
}
