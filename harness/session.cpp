// S01: ExecutionSession against a model of what a session is.
// argv: list of fake model libraries (see fake_model.c), then the pbt options.
#include "src/Runtime/ExecutionSession.hpp"
#include "pbt.hpp"
#include <atomic>
#include <filesystem>
#include <memory>
#include <sanitizer/allocator_interface.h>
#include <thread>
using namespace pbt;
using onnx_mlir::ExecutionSession;
using onnx_mlir::ExecutionSessionException;
using onnx_mlir::OMTensorUniquePtr;
namespace fs = std::filesystem;

// Public face of the protected parts, nothing added.
struct Fix {
  const char *file;  // fixture base name
  const char *tag;   // tag of its symbols, "" = untagged
  int64_t k;         // what run_main_graph adds
  bool main, info, print;
  bool loads; // has all mandatory symbols
};
static const Fix FIX[] = {
    {"MdlA.so", "mdla", 10, true, true, true, true},
    {"mdlb.so", "mdlb", 20, true, false, true, true},
    {"mdld.so", "", 30, true, true, false, true},
    {"mdle.so", "mdle", 40, false, true, true, true},
    {"mdlf.so", "mdlf", 50, true, true, true, false},
    {"mdlg.so", "mdlg", 60, true, true, true, false},
    {"mdlh.so", "mdlh", 70, true, true, true, false},
};
static const int NFIX = 7;
static std::map<std::string, std::string> fixturePath;

struct File { // an installed copy of a fixture
  std::string path;
  const Fix *fix; // null: not a library / missing
  std::string stemTag;
  int live = 0;                 // open sessions
  bool seenSet = false;         // what its constructor must have seen
  std::string seen;
  int runs = 0, prints = 0;     // since it was loaded
};
static std::string root;
static std::vector<File> files;

static void setup() {
  root = tmpDir("sess");
  static std::string keep = root;
  fs::create_directories(root + "/d1/sub");
  fs::create_directories(root + "/d 2");
  if (chdir(root.c_str())) {
  }
  auto put = [&](const std::string &dst, const Fix *f, std::string stem) {
    if (f)
      fs::copy_file(fixturePath.at(f->file), dst);
    File x;
    x.path = dst;
    x.fix = f;
    x.stemTag = stem;
    files.push_back(x);
  };
  for (int i = 0; i < NFIX; i++) {
    std::string b = FIX[i].file, stem = b.substr(0, b.size() - 3);
    for (auto &c : stem)
      c = tolower(c);
    put(root + "/d1/" + b, &FIX[i], stem);
  }
  put(root + "/d1/sub/Other.so", &FIX[0], "other");
  put(root + "/d 2/mdlb", &FIX[1], "mdlb");       // no extension
  put(root + "/d 2/MDLA.Lib", &FIX[0], "mdla");   // other extension
  put("d1/sub/mdlb.so", &FIX[1], "mdlb");         // relative path
  put(root + "/d1/missing.so", nullptr, "missing");
  put(root + "/nodir/mdla.so", nullptr, "mdla");
  put("mdla.so", nullptr, "mdla"); // bare name, the directory is not searched
  {
    std::ofstream o(root + "/d1/garbage.so");
    o << "this is not a library";
  }
  put(root + "/d1/garbage.so", nullptr, "garbage");
}
struct Cleanup {
  pid_t pid = getpid();
  ~Cleanup() {
    if (!root.empty())
      fs::remove_all(root);
  }
};

static const int SIGS[5] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
static void hA(int) {}
static void hB(int) {}
static struct sigaction wantAct[5], origAct[5];

static bool sameAct(const struct sigaction &a, const struct sigaction &b) {
  return a.sa_handler == b.sa_handler &&
         (a.sa_flags & ~0x04000000) == (b.sa_flags & ~0x04000000);
}
static std::string env() {
  const char *e = getenv("OM_CONSTANT_PATH");
  return e ? std::string("=") + e : "unset";
}
// whole-number search, so that 1 is not found in 11
static bool hasNumber(const std::string &m, int n) {
  size_t i = 0;
  while (i < m.size()) {
    if (isdigit((unsigned char)m[i])) {
      size_t j = i;
      while (j < m.size() && isdigit((unsigned char)m[j]))
        j++;
      if (m.substr(i, j - i) == std::to_string(n))
        return true;
      i = j;
    } else
      i++;
  }
  return false;
}

struct Sess {
  std::unique_ptr<ExecutionSession> s;
  int file = -1; // -1: default constructed, not loaded
  std::string tagSuffix;
  bool epValid = false;
  bool second = false;
  bool lenient = false; // after a failed setEntryPoint
};

static OMTensor *tensor(const std::vector<int64_t> &sh,
    const std::vector<int64_t> &v) {
  OMTensor *t = omTensorCreateEmpty(
      const_cast<int64_t *>(sh.data()), sh.size(), ONNX_TYPE_INT64);
  if (!v.empty())
    memcpy(omTensorGetDataPtr(t), v.data(), v.size() * 8);
  return t;
}

struct Req {
  std::vector<std::vector<int64_t>> shapes, vals;
};
static Req genReq(Src &s) {
  Req r;
  int n = 1 + s.draw(3);
  for (int i = 0; i < n; i++) {
    std::vector<int64_t> sh;
    int rank = i ? s.draw(4) : 1;
    int64_t m = 1;
    for (int d = 0; d < rank; d++) {
      sh.push_back(i ? s.draw(4) : 2 + s.draw(4));
      m *= sh.back();
    }
    std::vector<int64_t> v;
    for (int64_t j = 0; j < m; j++)
      v.push_back(100 + (int64_t)s.draw(1000));
    r.shapes.push_back(sh);
    r.vals.push_back(v);
  }
  return r;
}
static void checkOut(const Req &r, OMTensor *const *o, int64_t n, int64_t k) {
  PCHECK(n == (int64_t)r.shapes.size(), "number of outputs %ld", (long)n);
  for (int64_t i = 0; i < n; i++) {
    PCHECK(omTensorGetRank(o[i]) == (int64_t)r.shapes[i].size(), "output rank");
    for (size_t d = 0; d < r.shapes[i].size(); d++)
      PCHECK(omTensorGetShape(o[i])[d] == r.shapes[i][d], "output shape");
    const int64_t *p = (const int64_t *)omTensorGetDataPtr(o[i]);
    for (size_t j = 0; j < r.vals[i].size(); j++)
      PCHECK(p[j] == r.vals[i][j] + k,
          "output %ld element %zu is %ld, expected %ld", (long)i, j, (long)p[j],
          (long)(r.vals[i][j] + k));
  }
}
static OMTensorList *mkList(const Req &r) {
  std::vector<OMTensor *> v;
  for (size_t i = 0; i < r.shapes.size(); i++)
    v.push_back(tensor(r.shapes[i], r.vals[i]));
  return omTensorListCreate(v.data(), v.size());
}
static void checkIn(const Req &r, OMTensorList *l) {
  PCHECK(omTensorListGetSize(l) == (int64_t)r.shapes.size(), "input list kept");
  for (size_t i = 0; i < r.shapes.size(); i++)
    if (!r.vals[i].empty())
      PCHECK(!memcmp(omTensorGetDataPtr(omTensorListGetOmtByIndex(l, i)),
                 r.vals[i].data(), r.vals[i].size() * 8),
          "the run changed input %zu", i);
}

static void prop_session(Src &s) {
  // environment of the case
  for (auto &f : files) {
    f.live = f.runs = f.prints = 0;
  }
  bool userEnv = s.chance(25);
  if (userEnv)
    setenv("OM_CONSTANT_PATH", "/some/where", 1);
  else
    unsetenv("OM_CONSTANT_PATH");
  std::string e0 = env();
  for (int i = 0; i < 5; i++) {
    struct sigaction a;
    memset(&a, 0, sizeof a);
    sigemptyset(&a.sa_mask);
    switch (s.draw(4)) {
    case 0: a.sa_handler = SIG_DFL; break;
    case 1: a.sa_handler = hA; a.sa_flags = SA_NODEFER; break;
    case 2: a.sa_handler = hB; a.sa_flags = SA_RESTART; break;
    case 3: a.sa_handler = SIG_IGN; break;
    }
    sigaction(SIGS[i], &a, &origAct[i]);
    wantAct[i] = a;
  }
  struct Restore {
    ~Restore() {
      for (int i = 0; i < 5; i++)
        sigaction(SIGS[i], &origAct[i], nullptr);
      unsetenv("OM_CONSTANT_PATH");
    }
  } restore;
  sigset_t mask0;
  sigprocmask(SIG_BLOCK, nullptr, &mask0);

  std::vector<Sess> ss;
  std::set<int> kinds;
  bool sawSignal = false, sawErr = false, multi = false;

  auto invariants = [&](const char *op) {
    PCHECK(env() == e0, "OM_CONSTANT_PATH is %s after %s, was %s",
        env().c_str(), op, e0.c_str());
    for (int i = 0; i < 5; i++) {
      struct sigaction a;
      sigaction(SIGS[i], nullptr, &a);
      PCHECK(sameAct(a, wantAct[i]), "action of signal %d changed by %s",
          SIGS[i], op);
    }
    sigset_t m;
    sigprocmask(SIG_BLOCK, nullptr, &m);
    for (int i = 0; i < 5; i++)
      PCHECK(sigismember(&m, SIGS[i]) == sigismember(&mask0, SIGS[i]),
          "signal %d is blocked after %s", SIGS[i], op);
    for (auto &f : files)
      if (f.fix) {
        void *h = dlopen(f.path.c_str(), RTLD_NOLOAD | RTLD_LAZY);
        bool loaded = h != nullptr;
        if (h)
          dlclose(h);
        PCHECK(loaded == (f.live > 0), "after %s, %s is %s with %d sessions",
            op, f.path.c_str(), loaded ? "loaded" : "not loaded", f.live);
      }
  };
  auto expectThrow = [&](const char *op, auto &&fn) -> std::string {
    try {
      fn();
    } catch (const ExecutionSessionException &e) {
      return e.what();
    } catch (const std::exception &e) {
      PFAIL("%s threw %s instead of ExecutionSessionException", op, e.what());
    }
    PFAIL("%s did not throw", op);
  };
  // errno is thread state: keep what the call left before anything else runs
  int left = 0;
  auto ok = [&](const char *op, auto &&fn) {
    try {
      errno = 77;
      fn();
      left = errno;
    } catch (const ExecutionSessionException &e) {
      PFAIL("%s threw '%s'", op, e.what());
    }
    PCHECK(left == 0, "errno is %d after a successful %s", left, op);
  };

  int nops = 1 + s.draw(14);
  for (int o = 0; o < nops; o++) {
    int k = s.weighted({30, 12, 40, 12, 14, 6, 8, 4, 10});
    kinds.insert(k);
    if (k == 0 || ss.empty()) { // construct / load
      int fi = s.chance(70) ? s.draw(4) : s.draw(files.size());
      File &f = files[fi];
      std::string tag;
      bool match;
      int tk = s.weighted({50, 25, 15, 10});
      std::string sym = f.fix ? f.fix->tag : "";
      if (tk == 0)
        tag = "";
      else if (tk == 1)
        tag = sym.empty() ? (s.draw(2) ? "NONE" : "none") : sym;
      else if (tk == 2)
        tag = s.draw(2) ? "NONE" : "nOnE";
      else
        tag = "wrong";
      std::string eff = tag == "" ? f.stemTag : tag;
      if (strcasecmp(eff.c_str(), "none") == 0)
        eff = "";
      match = f.fix && f.fix->loads && eff == sym;
      bool def = s.chance(70);
      bool viaLoad = s.chance(35);
      bool again = viaLoad && s.chance(30);
      s.note("load(%s,'%s',def=%d,viaLoad=%d) ", f.path.c_str(), tag.c_str(),
          def, viaLoad);
      Sess x;
      x.file = fi;
      x.tagSuffix = eff.empty() ? "" : "_" + eff;
      bool good = match && (!def || f.fix->main);
      // What the constructor of the library must see.
      size_t sl = f.path.find_last_of('/');
      bool seenSet = userEnv || sl != std::string::npos;
      std::string seen = userEnv ? "/some/where"
                         : seenSet ? f.path.substr(0, sl)
                                   : "";
      if (!viaLoad) {
        auto make = [&] {
          x.s = std::make_unique<ExecutionSession>(f.path, tag, def);
        };
        if (good)
          ok("constructor", make);
        else {
          expectThrow("constructor", make);
          s.label("failed construction");
        }
      } else {
        x.s = std::make_unique<ExecutionSession>();
        PCHECK(x.s->getSharedLibPath() == "", "path of an empty session");
        expectThrow("signature of an empty session",
            [&] { x.s->inputSignature(); });
        expectThrow("signature of an empty session",
            [&] { x.s->outputSignature(); });
        expectThrow(
            "info of an empty session", [&] { x.s->compilationInfo(); });
        expectThrow("query of an empty session", [&] {
          int64_t n;
          x.s->queryEntryPoints(&n);
        });
        expectThrow("setEntryPoint of an empty session",
            [&] { x.s->setEntryPoint("run_main_graph"); });
        Req r;
        OMTensorList *l = mkList(r);
        expectThrow("run of an empty session", [&] { x.s->run(l); });
        expectThrow("runDebug of an empty session",
            [&] { x.s->runDebug(l, true); });
        omTensorListDestroy(l);
        expectThrow("run of an empty session",
            [&] { x.s->run(std::vector<OMTensorUniquePtr>()); });
        if (again) { // a failed attempt first
          expectThrow("loadModel of a missing file",
              [&] { x.s->loadModel(root + "/d1/nope.so", "", def); });
          // or one that opens and lacks symbols
          File &g = files[4 + s.draw(3)];
          expectThrow("loadModel of an incomplete library",
              [&] { x.s->loadModel(g.path, "", def); });
          // Whether g stays open until the next attempt is not specified.
        }
        if (good)
          ok("loadModel", [&] { x.s->loadModel(f.path, tag, def); });
        else {
          expectThrow(
              "loadModel", [&] { x.s->loadModel(f.path, tag, def); });
          s.label("failed loadModel");
          x.s.reset();
        }
      }
      if (good) {
        if (f.live++ == 0) {
          f.seenSet = seenSet;
          f.seen = seen;
          f.runs = f.prints = 0;
        }
        x.epValid = def;
        PCHECK(x.s->getSharedLibPath() == f.path, "path is '%s'",
            x.s->getSharedLibPath().c_str());
        void *h = x.s->getSharedLibraryHandle();
        auto cp = (const char *(*)())dlsym(h, "verif_const_path");
        const char *c = cp();
        PCHECK((c != nullptr) == f.seenSet && (!c || f.seen == c),
            "while loading, OM_CONSTANT_PATH was %s, expected %s",
            c ? c : "unset", f.seenSet ? f.seen.c_str() : "unset");
        if (viaLoad || s.chance(20)) {
          expectThrow("second loadModel",
              [&] { x.s->loadModel(files[0].path, "", true); });
          PCHECK(x.s->getSharedLibPath() == f.path, "path after 2nd load");
        }
        ss.push_back(std::move(x));
        multi |= ss.size() > 1;
      } else
        PCHECK(!x.s, "session survived");
      invariants("load");
      continue;
    }
    int si = s.draw(ss.size());
    Sess &x = ss[si];
    File &f = files[x.file];
    const Fix &fx = *f.fix;
    int64_t K = fx.k + (x.second ? 1000 : 0);
    std::string ep =
        (x.second ? "run_second" : "run_main_graph") + x.tagSuffix;
    void *h = x.s->getSharedLibraryHandle();
    auto runsFn = (int (*)())dlsym(h, "verif_runs");
    auto printsFn = (int (*)())dlsym(h, "verif_prints");
    switch (k) {
    case 1: { // setEntryPoint
      int w = s.draw(4);
      std::string n;
      bool good = true;
      if (w == 0)
        n = "run_main_graph" + x.tagSuffix, good = fx.main;
      else if (w <= 2)
        n = "run_second" + x.tagSuffix;
      else
        n = "run_nothing" + x.tagSuffix, good = false;
      s.note("ep[%d](%s) ", si, n.c_str());
      if (good) {
        ok("setEntryPoint", [&] { x.s->setEntryPoint(n); });
        x.epValid = true;
        x.lenient = false;
        x.second = w != 0;
      } else {
        std::string m =
            expectThrow("setEntryPoint", [&] { x.s->setEntryPoint(n); });
        PCHECK(m.find(n) != std::string::npos,
            "message '%s' does not name %s", m.c_str(), n.c_str());
        x.lenient = true;
      }
      invariants("setEntryPoint");
      break;
    }
    case 2: { // run
      Req r = genReq(s);
      int how = s.draw(4); // list, vector, debug, debug guarded
      int mode = s.weighted({60, 15, how == 3 ? 20 : 0, 10});
      int code = 0;
      if (mode == 1)
        code = s.pick(std::vector<int>{1, 2, 12, 22, 0, 95});
      if (mode == 2)
        code = SIGS[s.draw(5)];
      if (mode == 3)
        code = s.pick(std::vector<int>{2, 11});
      if (mode) {
        r.vals[0][0] = mode;
        r.vals[0][1] = code;
      }
      s.note("run[%d](how=%d,mode=%d,code=%d,n=%zu) ", si, how, mode, code,
          r.shapes.size());
      bool ready = x.epValid && !x.lenient;
      bool tookEffect = false, threw = false;
      std::string msg;
      int runs0 = f.runs;
      auto once = [&] {
        threw = false;
        if (how == 1) {
          std::vector<OMTensorUniquePtr> in;
          for (size_t i = 0; i < r.shapes.size(); i++)
            in.emplace_back(tensor(r.shapes[i], r.vals[i]), omTensorDestroy);
          try {
            errno = 77;
            auto out = x.s->run(std::move(in));
            left = errno;
            std::vector<OMTensor *> o2;
            for (auto &t : out)
              o2.push_back(t.get());
            if (ready && mode != 1)
              checkOut(r, o2.data(), o2.size(), K);
          } catch (const ExecutionSessionException &e) {
            threw = true;
            msg = e.what();
          }
        } else {
          OMTensorList *l = mkList(r);
          OMTensorList *out = nullptr;
          try {
            errno = 77;
            out = how == 0   ? x.s->run(l)
                  : how == 2 ? x.s->runDebug(l)
                             : x.s->runDebug(l, true);
            left = errno;
            PCHECK(out, "null output without an exception");
          } catch (const ExecutionSessionException &e) {
            threw = true;
            msg = e.what();
          }
          checkIn(r, l);
          if (out) {
            std::vector<OMTensor *> o2;
            for (int64_t i = 0; i < omTensorListGetSize(out); i++)
              o2.push_back(omTensorListGetOmtByIndex(out, i));
            if (ready && mode != 1)
              checkOut(r, o2.data(), o2.size(), K);
            omTensorListDestroy(out);
          }
          omTensorListDestroy(l);
        }
      };
      once();
      int newRuns = runsFn() - runs0;
      f.runs += newRuns;
      tookEffect = newRuns > 0;
      if (!x.epValid && !x.lenient) {
        PCHECK(threw && !tookEffect, "run without an entry point");
      } else if (x.lenient) {
        s.label("run after a failed setEntryPoint");
        PCHECK(threw != tookEffect || mode, "run after failed setEntryPoint");
        f.prints = printsFn();
      } else {
        PCHECK(newRuns == 1, "the model ran %d times", newRuns);
        if (mode == 1) {
          PCHECK(threw, "a failed inference was not reported");
          PCHECK(hasNumber(msg, code) &&
                     msg.find(strerror(code)) != std::string::npos,
              "message '%s' does not report errno %d", msg.c_str(), code);
          sawErr = true;
          f.prints = printsFn();
        } else if (mode == 2) {
          PCHECK(threw, "a signal was not reported");
          PCHECK(hasNumber(msg, code), "message '%s' lacks signal %d",
              msg.c_str(), code);
          sawSignal = true;
          f.prints = printsFn();
        } else {
          PCHECK(!threw, "run threw '%s'", msg.c_str());
          PCHECK(left == 0, "errno is %d after a successful run", left);
          if (fx.print) {
            PCHECK(printsFn() == f.prints + 1,
                "instrumentation printed %d times by one run",
                printsFn() - f.prints);
            f.prints++;
          }
        }
      }
      invariants("run");
      if (ready && s.chance(30)) { // repeated runs keep nothing
        std::vector<int64_t> grow;
        once();
        for (int i = 0; i < 3; i++) {
          size_t a = __sanitizer_get_current_allocated_bytes();
          once();
          grow.push_back(
              (int64_t)__sanitizer_get_current_allocated_bytes() - (int64_t)a);
        }
        f.runs += 4;
        f.prints = printsFn();
        PCHECK(!(grow[0] > 0 && grow[1] > 0 && grow[2] > 0),
            "each run keeps %ld bytes", (long)grow[2]);
        PCHECK(runsFn() == f.runs, "runs counted");
        invariants("repeated run");
        s.label("repeated runs");
      }
      break;
    }
    case 3: { // signatures
      s.note("sig[%d] ", si);
      if (x.lenient)
        break;
      if (!x.epValid) {
        expectThrow("inputSignature", [&] { x.s->inputSignature(); });
        expectThrow("outputSignature", [&] { x.s->outputSignature(); });
        break;
      }
      std::string a, b, nm = std::to_string(fx.k);
      ok("inputSignature", [&] { a = x.s->inputSignature(); });
      ok("outputSignature", [&] { b = x.s->outputSignature(); });
      PCHECK(a.find(x.second ? "\"sec" + nm + "\"" : "\"in" + nm + "\"") !=
                 std::string::npos,
          "input signature %s", a.c_str());
      PCHECK(b.find(x.second ? "\"osec" + nm + "\"" : "\"out" + nm + "\"") !=
                 std::string::npos,
          "output signature %s", b.c_str());
      break;
    }
    case 4: { // info, entry points, path
      s.note("info[%d] ", si);
      std::string i;
      ok("compilationInfo", [&] { i = x.s->compilationInfo(); });
      PCHECK(i == (fx.info ? "{\"k\":" + std::to_string(fx.k) + "}" : "{}"),
          "info '%s'", i.c_str());
      PCHECK(x.s->getSharedLibPath() == f.path, "path");
      int64_t n = -1;
      auto q = reinterpret_cast<const char *const *>(x.s->queryEntryPoints(&n));
      PCHECK(n == (fx.main ? 2 : 1), "%ld entry points", (long)n);
      PCHECK(!strcmp(q[n - 1], ("run_second" + x.tagSuffix).c_str()) && !q[n],
          "entry point names");
      break;
    }
    case 5: { // explicit print
      s.note("print[%d] ", si);
      ok("printInstrumentation", [&] { x.s->printInstrumentation(); });
      if (fx.print) {
        PCHECK(printsFn() == f.prints + 1, "printInstrumentation printed %d "
            "times", printsFn() - f.prints);
        f.prints++;
      }
      break;
    }
    case 6: { // destroy
      s.note("destroy[%d] ", si);
      f.live--;
      ss.erase(ss.begin() + si);
      invariants("destroy");
      break;
    }
    case 7: { // concurrent runs
      std::vector<int> who;
      for (size_t i = 0; i < ss.size(); i++)
        if (ss[i].epValid && !ss[i].lenient)
          who.push_back(i);
      if (who.empty())
        break;
      int nt = 2 + s.draw(3);
      std::vector<Req> rs;
      std::vector<int> tgt;
      for (int t = 0; t < nt; t++) {
        rs.push_back(genReq(s));
        tgt.push_back(s.pick(who));
        if (s.chance(25)) {
          rs[t].vals[0][0] = 1;
          rs[t].vals[0][1] = 10 + t;
        }
      }
      s.note("par(%d) ", nt);
      std::vector<std::string> bad(nt);
      std::vector<std::thread> th;
      for (int t = 0; t < nt; t++)
        th.emplace_back([&, t] {
          try {
            Sess &y = ss[tgt[t]];
            int64_t k2 = files[y.file].fix->k + (y.second ? 1000 : 0);
            for (int i = 0; i < 3; i++) {
              OMTensorList *l = mkList(rs[t]);
              OMTensorList *out = nullptr;
              bool err = rs[t].vals[0][0] == 1, threw = false;
              std::string m;
              try {
                out = y.s->run(l);
              } catch (const ExecutionSessionException &e) {
                threw = true;
                m = e.what();
              }
              if (out) {
                std::vector<OMTensor *> o2;
                for (int64_t i = 0; i < omTensorListGetSize(out); i++)
                  o2.push_back(omTensorListGetOmtByIndex(out, i));
                if (!err)
                  checkOut(rs[t], o2.data(), o2.size(), k2);
                omTensorListDestroy(out);
              }
              omTensorListDestroy(l);
              PCHECK(threw == err, "thread %d: threw=%d '%s'", t, threw,
                  m.c_str());
              if (err)
                PCHECK(hasNumber(m, 10 + t), "thread %d: message '%s'", t,
                    m.c_str());
            }
          } catch (Fail &e) {
            bad[t] = e.msg;
          }
        });
      for (auto &t : th)
        t.join();
      for (auto &b : bad)
        PCHECK(b.empty(), "concurrent run: %s", b.c_str());
      for (auto &y : ss) {
        void *hh = y.s->getSharedLibraryHandle();
        files[y.file].runs = ((int (*)())dlsym(hh, "verif_runs"))();
        files[y.file].prints = ((int (*)())dlsym(hh, "verif_prints"))();
      }
      s.label("concurrent runs");
      invariants("concurrent runs");
      break;
    }
    case 8: { // fillInputDebug
      s.note("fill[%d] ", si);
      if (x.lenient)
        break;
      if (!x.epValid) {
        expectThrow("fillInputDebug", [&] { x.s->fillInputDebug(); });
        break;
      }
      int seed = s.draw(1000);
      OMTensorList *a = nullptr, *b = nullptr;
      try {
        a = x.s->fillInputDebug(nullptr, "0:min-5max5", nullptr, nullptr, seed);
        b = x.s->fillInputDebug(nullptr, "0:min-5max5", nullptr, nullptr, seed);
        PCHECK(a && b && omTensorListGetSize(a) == 1, "filled list");
        OMTensor *ta = omTensorListGetOmtByIndex(a, 0);
        OMTensor *tb = omTensorListGetOmtByIndex(b, 0);
        std::vector<int64_t> sh =
            x.second ? std::vector<int64_t>{4} : std::vector<int64_t>{2, 3};
        PCHECK(omTensorGetRank(ta) == (int64_t)sh.size() &&
                   omTensorGetShape(ta)[0] == sh[0] &&
                   omTensorGetDataType(ta) == ONNX_TYPE_INT64,
            "filled tensor does not match the signature");
        int64_t *pa = (int64_t *)omTensorGetDataPtr(ta);
        int64_t *pb = (int64_t *)omTensorGetDataPtr(tb);
        for (int64_t i = 0; i < omTensorGetNumElems(ta); i++)
          PCHECK(pa[i] >= -5 && pa[i] <= 5 && pa[i] == pb[i],
              "filled value %ld / %ld (seed %d)", (long)pa[i], (long)pb[i],
              seed);
      } catch (const ExecutionSessionException &e) {
        PFAIL("fillInputDebug threw '%s'", e.what());
      }
      omTensorListDestroy(a);
      omTensorListDestroy(b);
      std::string m = expectThrow("fillInputDebug with a bad shape", [&] {
        x.s->fillInputDebug("0:9");
      });
      break;
    }
    }
  }
  while (!ss.empty()) {
    int i = s.draw(ss.size());
    files[ss[i].file].live--;
    ss.erase(ss.begin() + i);
    invariants("final destroy");
  }
  if (kinds.size() >= 3)
    s.nontrivial();
  if (sawSignal)
    s.label("signal caught");
  if (sawErr)
    s.label("inference error reported");
  if (multi)
    s.label("several sessions alive");
  if (userEnv)
    s.label("user constant path");
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.size() > 3 && a.substr(a.size() - 3) == ".so")
      fixturePath[fs::path(a).filename().string()] = a;
  }
  Cleanup c;
  return mainFor({{"session", prop_session, setup}}, argc, argv);
}
