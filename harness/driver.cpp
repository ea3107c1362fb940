// Compiler driver: flag parsing and name prediction, execution of commands,
// compilations in local and container mode over a fake compiler and engine.
#include "pbt.hpp"
#include "src/Compiler/Command.hpp"
#include "src/Compiler/CommandUtils.hpp"
#include "src/Compiler/OMCompile.hpp"
#include <atomic>
#include <dirent.h>
#include <filesystem>
#include <memory>
#include <sys/stat.h>
#include <sys/time.h>
#include <thread>

using namespace pbt;
using namespace onnx_mlir;
namespace fs = std::filesystem;
typedef std::vector<std::string> VS;

static std::string fakecc, root, home;

static std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static void spit(const std::string &p, const std::string &t) {
  std::ofstream f(p, std::ios::binary);
  f << t;
}
static std::string join(const VS &v) {
  std::string r;
  for (auto &x : v)
    r += "[" + x + "]";
  return r;
}

static void setup() {
  root = fs::canonical(tmpDir("drv")).string();
  fs::create_directory(root + "/bin");
  for (const char *n : {"onnx-mlir", "docker", "podman", "tool"})
    fs::create_symlink(fakecc, root + "/bin/" + n);
  fs::create_directory(root + "/state");
  setenv("PATH", (root + "/bin:/usr/bin:/bin").c_str(), 1);
  setenv("FAKE_STATE", (root + "/state").c_str(), 1);
  setenv("OM_DIND_DISABLE", "1", 1);
  unsetenv("container");
  unsetenv("OM_DOCKER_HOST_PATH_PREFIX");
  home = root + "/w";
  fs::create_directory(home);
}
static void fresh() {
  fs::current_path(root);
  std::error_code ec;
  fs::remove_all(home, ec);
  fs::create_directory(home);
  fs::current_path(home);
}

// --- Flag strings ---------------------------------------------------------

static const std::string SPACES = " \t\n\v\f\r";

// One way of writing an argument, as a shell-like word.
static std::string render(Src &s, const std::string &a) {
  std::string r;
  int q = 0; // 0 none, 1 single, 2 double
  for (size_t i = 0; i < a.size(); i++) {
    char c = a[i];
    if (s.draw(4) == 3) {
      int nq = s.draw(3);
      if (nq != q) {
        if (q)
          r += q == 1 ? '\'' : '"';
        if (nq)
          r += nq == 1 ? '\'' : '"';
        q = nq;
      }
    }
    bool must = c == '\\' || (c == '"' && q != 1) || (c == '\'' && q != 2) ||
                (!q && SPACES.find(c) != std::string::npos);
    if (must || s.draw(8) == 7)
      r += '\\';
    r += c;
  }
  if (q)
    r += q == 1 ? '\'' : '"';
  return r;
}
static std::string renderAll(Src &s, const VS &v) {
  std::string r;
  auto sp = [&](int lo) {
    int n = lo + (s.draw(5) == 4 ? s.draw(3) : 0);
    for (int i = 0; i < n; i++)
      r += s.draw(3) == 2 ? SPACES[s.draw(SPACES.size())] : ' ';
  };
  sp(0);
  for (size_t i = 0; i < v.size(); i++) {
    if (i)
      sp(1);
    r += render(s, v[i]);
  }
  sp(0);
  return r;
}

static void prop_flags(Src &s) {
  VS v;
  int n = s.draw(7);
  static const std::string A =
      "abz-=/.0 \t\n\r\v\f\"'\\$`*?~&|;<>(){}[]!#%^,:@+_\xc3\xa9\x80\xff\x01";
  for (int i = 0; i < n; i++) {
    std::string a;
    int k = s.range(1, s.chance(5) ? 300 : 12);
    for (int j = 0; j < k; j++)
      a += A[s.draw(A.size())];
    v.push_back(a);
  }
  std::string f = renderAll(s, v);
  s.note("flags <%s> for %s", f.c_str(), join(v).c_str());
  VS g = parseFlags(f);
  PCHECK(g == v, "parsed as %s", join(g).c_str());
  if (n > 1)
    s.nontrivial();
}

// --- Configurations -------------------------------------------------------

static std::string dirPart(Src &s) {
  switch (s.draw(7)) {
  case 1:
    return "sub/";
  case 5:
    return "sub2/";
  case 6:
    return "sub/in/";
  case 2:
    return "a b/c.d/";
  case 3:
    return "./";
  case 4:
    return home + "/abs dir/";
  default:
    return "";
  }
}
static std::string baseName(Src &s) {
  static const std::string A = "abcxyz019_-. +,='\"\\$#";
  std::string r(1, "mnpq"[s.draw(4)]);
  int n = s.draw(6);
  for (int i = 0; i < n; i++)
    r += s.chance(30) ? A[s.draw(A.size())] : "abc"[s.draw(3)];
  if (s.chance(10))
    r += s.pick(VS{".onnx", ".mlir", ".so", ".v1.2", ".onnxtext"});
  return r;
}

struct Cfg {
  std::string model;     // As given to the compiler.
  bool inFlags = false;  // The model is one of the flags.
  std::string out, outputPath, tag, suffix = ".so";
  VS args;               // The flags, one per argument.
  VS expected;           // The flags the compiler gets.
  std::string flags;     // The flags as one string.
  std::string path() const { return inFlags ? "" : model; }
};

static std::string stripExt(const std::string &m) {
  return m.substr(0, m.rfind('.'));
}
static std::string absolute(const std::string &p) {
  return p[0] == '/' ? p : home + "/" + p;
}

// The output path is used when the name has no directory.
static std::string placed(const Cfg &c, const std::string &name) {
  if (c.outputPath.empty() || name.find('/') != std::string::npos)
    return name;
  return c.outputPath + (c.outputPath.back() == '/' ? "" : "/") + name;
}
static std::string expectedOutput(const Cfg &c) {
  std::string b;
  if (!c.out.empty())
    b = placed(c, c.out);
  else if (!c.outputPath.empty())
    b = placed(c, fs::path(stripExt(c.model)).filename().string());
  else
    b = stripExt(c.model);
  return absolute(b) + c.suffix;
}
static std::string expectedConstants(const Cfg &c) {
  std::string o = expectedOutput(c);
  return o.substr(0, o.size() - c.suffix.size()) + ".constants.bin";
}

static Cfg genCfg(Src &s, const VS &extra = {}) {
  Cfg c;
  c.model = dirPart(s) + baseName(s) +
            s.pick(VS{".onnx", ".mlir", ".onnxtext", ".onnx.mlir"});
  c.inFlags = s.chance(40);
  if (s.chance(50))
    c.outputPath = s.pick(VS{"out", "out/", "o p/q", home + "/absout", ".",
        "sub", "sub2", "sub/in"});
  std::vector<std::pair<std::string, VS>> items;
  auto add = [&](const std::string &k, VS v) { items.push_back({k, v}); };
  for (auto &e : extra)
    add("", {e});
  if (s.chance(60)) {
    c.out = dirPart(s) + baseName(s);
    if (s.chance(50))
      add("o", {"-o", c.out});
    else
      add("o", {"-o=" + c.out});
  }
  int emit = s.weighted({3, 1, 1, 1, 1, 1, 1, 1});
  static const VS E = {"", "EmitLib", "EmitJNI", "EmitObj", "EmitMLIR",
      "EmitLLVMIR", "EmitONNXIR", "EmitONNXBasic"};
  if (emit) {
    add("", {(s.chance(50) ? "--" : "-") + E[emit]});
    c.suffix = emit == 1   ? ".so"
               : emit == 2 ? ".jar"
               : emit == 3 ? ".o"
                           : ".onnx.mlir";
  }
  if (s.chance(40)) {
    c.tag = s.pick(VS{"t1", "my-tag", "NONE", "x=y", "Lib", "-"});
    if (c.tag == "-")
      c.tag = "a" + std::to_string(s.draw(1000));
    std::string d = s.chance(50) ? "--tag" : "-tag";
    if (s.chance(50))
      add("", {d, c.tag});
    else
      add("", {d + "=" + c.tag});
  }
  static const VS decoys = {"-O3", "-onnx-op-stats=TXT", "-opt-report=Simd",
      "--onnx-op-stats=JSON", "-outputs=name", "--mcpu=z16",
      "--shapeInformation=0:1x2", "-Xopt=-o=zz", "--tags=no", "-tagged",
      "--output-name=x.onnx", "--preserveBitcode", "--maccel=NNPA",
      "-v", "--instrument-ops=onnx.*,zlow.* x", "-mtriple=s390x"};
  int nd = s.draw(4);
  for (int i = 0; i < nd; i++)
    add("", {s.pick(decoys)});
  // Values in an argument of their own that only contain a model's suffix (the
  // stand-in for the compiler, told by extra, does not know such flags).
  if (extra.empty() && s.chance(20)) {
    static const std::vector<VS> two = {{"--mcpu", "z16"},
        {"--profile-ir", "m.onnxtext.txt"}, {"--log-to", "a.mlir/x"},
        {"--shapeInformation", "0:1x2"}, {"--note", "x.onnx~"},
        {"-mtriple", "s390x"}};
    add("", two[s.draw(two.size())]);
  }
  if (c.inFlags)
    add("", {c.model});
  for (int64_t i : s.perm(items.size())) {
    for (auto &a : items[i].second) {
      c.args.push_back(a);
      c.expected.push_back(a);
    }
    if (items[i].first == "o") {
      if (items[i].second.size() == 2)
        c.expected.back() = placed(c, c.out);
      else
        c.expected.back() = "-o=" + placed(c, c.out);
    }
  }
  if (c.out.empty() && !c.outputPath.empty()) {
    c.expected.push_back("-o");
    c.expected.push_back(
        placed(c, fs::path(stripExt(c.model)).filename().string()));
  }
  c.flags = renderAll(s, c.args);
  return c;
}

static std::string norm(const std::string &p) {
  return fs::path(p).lexically_normal().string();
}

static void prop_predict(Src &s) {
  Cfg c = genCfg(s);
  s.note("model <%s> flags <%s> outputPath <%s>", c.path().c_str(),
      c.flags.c_str(), c.outputPath.c_str());
  if (fs::current_path().string() != home)
    fs::current_path(home);
  PCHECK(parseFlags(c.flags) == c.args, "parsed as %s",
      join(parseFlags(c.flags)).c_str());
  std::string in = OMCompile::predictInputFilename(c.path(), c.flags);
  PCHECK(in == c.model, "input predicted %s", in.c_str());
  std::string o =
      OMCompile::predictOutputFilename(c.path(), c.flags, c.outputPath);
  PCHECK(norm(o) == norm(expectedOutput(c)) && o[0] == '/',
      "output predicted %s, expected %s", o.c_str(),
      expectedOutput(c).c_str());
  std::string t = OMCompile::predictModelTag(c.flags);
  PCHECK(t == c.tag, "tag predicted '%s', expected '%s'", t.c_str(),
      c.tag.c_str());
  // Without a model.
  if (!c.inFlags) {
    bool threw = false;
    try {
      OMCompile::predictInputFilename("", c.flags);
    } catch (const OMCompileException &) {
      threw = true;
    }
    PCHECK(threw, "a missing model was not reported");
  }
  if (c.args.size() > 2)
    s.nontrivial();
  if (!c.out.empty() && !c.outputPath.empty())
    s.label("-o with an output path");
  if (c.inFlags)
    s.label("model in the flags");
}

// --- Commands -------------------------------------------------------------

static volatile sig_atomic_t alarms;
static void onAlarm(int) { alarms = alarms + 1; }

static int openFds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d))
    n++;
  closedir(d);
  return n;
}
static VS split0(const std::string &t) {
  VS r;
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\0', p);
    r.push_back(t.substr(p, e - p));
    p = e == std::string::npos ? t.size() : e + 1;
  }
  return r;
}
static bool noChildren() {
  int st;
  return waitpid(-1, &st, WNOHANG) == -1 && errno == ECHILD;
}

static void prop_command(Src &s) {
  fresh();
  fs::create_directory("d1");
  fs::create_directory("d1/d 2");
  spit("plain", "not a program");
  spit("buffered", "");
  FILE *buffered = fopen("buffered", "a");
  struct Closer {
    FILE *f;
    ~Closer() { fclose(f); }
  } closer{buffered};
  fputs("once", buffered);
  int how = s.weighted({4, 2, 1, 1}); // absolute, in PATH, missing, plain file
  std::string exe = how == 0   ? root + "/bin/tool"
                    : how == 1 ? "tool"
                    : how == 2 ? s.pick(VS{"no-such-tool", "/none/tool"})
                               : home + "/plain";
  Command c0(exe, false);
  bool moved = s.chance(20);
  Command cm = moved ? std::move(c0) : Command(exe, false);
  Command &c = moved ? cm : c0;
  std::string base = fs::path(exe).filename().string();
  s.note("exe %s ", exe.c_str());
  int runs = s.range(1, 3);
  VS expect = {base};
  PCHECK(c.getArgs() == expect, "fresh: %s", join(c.getArgs()).c_str());
  static const std::string A = "ab-= \t\n\r\"'\\$*;&|\xc3\xa9";
  std::set<std::string> kinds;
  std::string log;
  for (int r = 0; r < runs; r++) {
    if (r && s.chance(50)) {
      c.resetArgs();
      expect = {base};
      s.note("reset ");
    }
    int na = s.draw(5);
    for (int i = 0; i < na; i++) {
      if (s.chance(30)) {
        VS l;
        int k = s.draw(4);
        for (int j = 0; j < k; j++)
          l.push_back(s.str(6, A));
        PCHECK(&c.appendList(l) == &c);
        for (auto &x : l)
          if (!x.empty())
            expect.push_back(x);
      } else {
        std::string x = s.str(8, A);
        PCHECK(&c.appendStr(x) == &c);
        if (!x.empty())
          expect.push_back(x);
      }
    }
    int what = s.weighted({3, 2, 2});
    std::string rep = home + "/report" + std::to_string(r);
    fs::remove(rep);
    auto last = [&](const std::string &x) {
      c.appendStr(x);
      expect.push_back(x);
    };
    // The last of a repeated request counts.
    last("--fake-noout");
    last("--fake-report=" + rep);
    int code = 0, sig = 0;
    if (what == 1) {
      code = s.chance(70) ? s.range(1, 20) : s.range(21, 255);
      last("--fake-exit=" + std::to_string(code));
    } else
      last("--fake-exit=0");
    if (what == 2) {
      sig = s.pick(std::vector<int>{SIGSEGV, SIGABRT, SIGKILL, SIGTERM, SIGINT,
          SIGILL, SIGFPE, SIGBUS, SIGHUP, SIGUSR1});
      last("--fake-signal=" + std::to_string(sig));
    } else
      last("--fake-signal=0");
    std::string msg = s.chance(60) ? s.str(40, "abc def\n") + "." : "";
    last("--fake-msg=" + msg);
    bool timer = s.chance(25) && how < 2;
    last("--fake-sleep=" + std::to_string(timer ? 12 : 0));
    PCHECK(c.getArgs() == expect, "args %s", join(c.getArgs()).c_str());
    if (s.chance(50)) {
      log = home + "/log" + std::to_string(s.draw(2));
      c.redirectExecStreams(log);
      if (s.chance(50))
        spit(log, std::string(200, 'z'));
    } else if (!log.empty() || !msg.empty()) {
      log = home + "/log";
      c.redirectExecStreams(log);
    }
    if (s.chance(30)) {
      char *mem = nullptr;
      size_t ml = 0;
      FILE *f = open_memstream(&mem, &ml);
      std::string wd = s.chance(50) ? "/some dir" : "";
      c.print(f, wd);
      fclose(f);
      std::string got(mem, ml), want = "[" + wd + "] " + exe + ":";
      free(mem);
      for (auto &a : expect) {
        want += " ";
        for (char ch : a) {
          size_t k = std::string("\"\\\n\t\r").find(ch);
          want += k == std::string::npos
                      ? std::string(1, ch)
                      : std::string("\\") + "\"\\ntr"[k];
        }
      }
      PCHECK(got == want + "\n", "printed <%s> expected <%s>", got.c_str(),
          want.c_str());
      kinds.insert("print");
    }
    int wdk = s.weighted({3, 2, 2, 1});
    std::string wd = wdk == 0   ? ""
                     : wdk == 1 ? s.pick(VS{"d1", "d1/d 2", "d1/.."})
                     : wdk == 2 ? home + "/d1"
                                : s.pick(VS{"none", "plain", "/none/x"});
    std::string want = wdk == 3 ? "" : fs::canonical(wd.empty() ? "." : wd).string();
    s.note("run(%s) exit %d sig %d ", wd.c_str(), code, sig);
    // A signal handler without SA_RESTART that interrupts the wait.
    struct sigaction sa = {}, old;
    itimerval it = {{0, 1500}, {0, 1500}}, off = {};
    alarms = 0;
    if (timer) {
      sa.sa_handler = onAlarm;
      sigaction(SIGALRM, &sa, &old);
      setitimer(ITIMER_REAL, &it, nullptr);
    }
    int fds = openFds();
    int rc = -1;
    bool threw = false;
    std::string what_;
    try {
      rc = c.exec(wd);
    } catch (const CommandException &e) {
      threw = true;
      what_ = e.what();
    }
    if (timer) {
      setitimer(ITIMER_REAL, &off, nullptr);
      sigaction(SIGALRM, &old, nullptr);
      if (alarms > 2)
        s.label("interrupted by signals");
    }
    PCHECK(noChildren(), "the command was not waited for");
    PCHECK(openFds() == fds, "%d open files instead of %d", openFds(), fds);
    PCHECK(fs::current_path().string() == home, "left in %s",
        fs::current_path().c_str());
    if (wdk == 3) {
      PCHECK(threw && !fs::exists(rep), "ran in a directory that is missing");
      kinds.insert("bad dir");
      continue;
    }
    if (how == 2) {
      PCHECK(!threw && rc == CommandNotFound, "missing program: rc %d %s", rc,
          what_.c_str());
      kinds.insert("missing");
      continue;
    }
    if (how == 3) {
      PCHECK(!threw && rc == CommandNotExecutable, "plain file: rc %d %s", rc,
          what_.c_str());
      kinds.insert("not executable");
      continue;
    }
    VS got = split0(slurp(rep));
    PCHECK(!got.empty(), "the program did not run (rc %d, %s)", rc,
        what_.c_str());
    PCHECK(got[0] == want, "ran in %s, not %s", got[0].c_str(), want.c_str());
    got.erase(got.begin());
    PCHECK(got == expect, "ran with %s, not %s", join(got).c_str(),
        join(expect).c_str());
    if (sig) {
      PCHECK(threw, "died of signal %d but returned %d", sig, rc);
      PCHECK(what_.find(exe) != std::string::npos, "%s", what_.c_str());
      kinds.insert("signal");
    } else {
      PCHECK(!threw && rc == code, "exit code %d reported as %d %s", code, rc,
          what_.c_str());
      kinds.insert(code ? "failed" : "ok");
    }
    if (!log.empty()) {
      std::string t = slurp(log), w;
      if (!msg.empty())
        w = "out:" + msg + "err:" + msg + "\n";
      PCHECK(t == w, "log <%s> expected <%s>", t.c_str(), w.c_str());
    }
  }
  fflush(buffered);
  PCHECK(slurp("buffered") == "once", "pending output of the caller: <%s>",
      slurp("buffered").c_str());
  for (auto &k : kinds)
    s.label(k);
  if (kinds.size() > 1)
    s.nontrivial();
}

// --- Compilations ---------------------------------------------------------

// Everything one compilation is expected to do.
struct Job {
  Cfg c;
  int code = 0, sig = 0;
  bool noout = false, constants = false, missingModel = false, noCompiler = false,
       noDir = false;
  std::string report, log, msg;
  bool ok() const {
    return !code && !sig && !noout && !missingModel && !noCompiler && !noDir;
  }
};

static Job genJob(Src &s, const std::string &id) {
  Job j;
  switch (s.weighted({5, 1, 1, 1, 1, 1, 1})) {
  case 1:
    j.code = s.range(1, 25);
    break;
  case 2:
    j.sig = s.pick(std::vector<int>{SIGSEGV, SIGABRT, SIGKILL});
    break;
  case 3:
    j.noout = true;
    break;
  case 4:
    j.missingModel = true;
    break;
  case 5:
    j.noCompiler = true;
    break;
  case 6:
    j.noDir = true;
    break;
  }
  j.constants = s.chance(40);
  j.report = home + "/report" + id;
  VS x = {"--fake-report=" + j.report};
  if (j.code)
    x.push_back("--fake-exit=" + std::to_string(j.code));
  if (j.sig)
    x.push_back("--fake-signal=" + std::to_string(j.sig));
  if (j.noout)
    x.push_back("--fake-noout");
  if (j.constants)
    x.push_back("--fake-const");
  if (s.chance(60)) {
    j.log = home + "/log" + id;
    j.msg = s.str(10, "abc de") + ".";
    x.push_back("--fake-msg=" + j.msg);
  }
  j.c = genCfg(s, x);
  return j;
}

// Give the job its model and directories, and nothing it should produce.
static void place(Job &j) {
  std::string out = absolute(expectedOutput(j.c));
  fs::path d = fs::path(out).parent_path();
  if (j.noDir && (fs::exists(d)))
    j.noDir = false;
  fs::create_directories(fs::path(absolute(j.c.model)).parent_path());
  if (!j.missingModel)
    spit(absolute(j.c.model), "model");
  else
    fs::remove(absolute(j.c.model));
  if (!j.noDir)
    fs::create_directories(d);
  else if (fs::exists(d))
    j.noDir = false; // The directory of the model.
  if (norm(out) != norm(absolute(j.c.model)))
    fs::remove(out);
  else if (j.noout)
    j.noout = j.constants = false; // The model itself is found.
  fs::remove(expectedConstants(j.c));
  fs::remove(j.report);
}

struct Outcome {
  bool threw = false;
  std::string what;
};

static Outcome runJob(OMCompile &o, const Job &j, const std::string &compiler) {
  Outcome r;
  try {
    o.compile(j.c.path(), j.c.flags, j.c.outputPath, compiler, j.log);
  } catch (const OMCompileException &e) {
    r.threw = true;
    r.what = e.what();
  }
  return r;
}

// Check the state of the session after the job.
static void checkJob(OMCompile &o, const Job &j, const Outcome &r,
    const VS &expectArgs, const std::string &expectDir) {
  auto throws = [&](std::function<std::string()> f) {
    try {
      f();
    } catch (const OMCompileException &) {
      return true;
    }
    return false;
  };
  bool ran = !j.missingModel && !j.noCompiler;
  VS got = split0(slurp(j.report));
  PCHECK(!got.empty() == ran, "the compiler was %srun: %s",
      got.empty() ? "not " : "", r.what.c_str());
  if (ran) {
    PCHECK(got[0] == expectDir, "ran in %s", got[0].c_str());
    VS a(got.begin() + 2, got.end());
    PCHECK(a == expectArgs, "compiler got %s, expected %s", join(a).c_str(),
        join(expectArgs).c_str());
    if (!j.log.empty()) {
      std::string w = "out:" + j.msg + "err:" + j.msg + "\n";
      PCHECK(slurp(j.log) == w, "log <%s> expected <%s>",
          slurp(j.log).c_str(), w.c_str());
    }
  }
  if (!j.ok()) {
    PCHECK(r.threw, "the failure was not reported");
    PCHECK(!o.isSuccessfullyCompiled() && !o.hasOutputConstantFilename(),
        "success after a failure");
    PCHECK(throws([&] { return o.getOutputFilename(); }) &&
               throws([&] { return o.getOutputConstantFilename(); }) &&
               throws([&] { return o.getModelTag(); }),
        "results after a failure");
    const char *d = nullptr;
    if (j.missingModel || j.noout)
      ;
    else if (j.noCompiler)
      d = "not found";
    else if (j.sig)
      d = getOnnxMlirCompilerErrorDescription(CompilerCrashed);
    else if (j.code)
      d = getOnnxMlirCompilerErrorDescription(j.code);
    else if (j.noDir)
      d = getOnnxMlirCompilerErrorDescription(InvalidOutputFileAccess);
    if (d)
      PCHECK(r.what.find(d) != std::string::npos, "%s does not say %s",
          r.what.c_str(), d);
    return;
  }
  PCHECK(!r.threw, "failed: %s", r.what.c_str());
  PCHECK(o.isSuccessfullyCompiled());
  std::string f = o.getOutputFilename();
  PCHECK(f[0] == '/' && fs::exists(f) && norm(f) == norm(expectedOutput(j.c)),
      "output %s, expected %s", f.c_str(), expectedOutput(j.c).c_str());
  std::string p = OMCompile::predictOutputFilename(
      j.c.path(), j.c.flags, j.c.outputPath);
  PCHECK(p == f, "predicted %s, output %s", p.c_str(), f.c_str());
  std::string k = o.getOutputConstantFilename();
  PCHECK(o.hasOutputConstantFilename() == j.constants, "constants: %s",
      k.c_str());
  if (j.constants)
    PCHECK(k[0] == '/' && norm(k) == norm(expectedConstants(j.c)),
        "constants %s, expected %s", k.c_str(),
        expectedConstants(j.c).c_str());
  else
    PCHECK(k.empty());
  PCHECK(o.getModelTag() == j.c.tag, "tag '%s'", o.getModelTag().c_str());
}

static void noteJob(Src &s, const Job &j) {
  s.note("compile(<%s>, <%s>, <%s>) code %d sig %d%s%s%s%s ",
      j.c.path().c_str(), j.c.flags.c_str(), j.c.outputPath.c_str(), j.code,
      j.sig, j.noout ? " no output" : "", j.missingModel ? " no model" : "",
      j.noCompiler ? " no compiler" : "", j.noDir ? " no directory" : "");
}

static VS localArgs(const Job &j) {
  VS e = j.c.expected;
  if (!j.c.inFlags)
    e.push_back(j.c.model);
  return e;
}

static void silence(Job &j) { // keep the compiler's messages out of ours
  if (j.log.empty())
    j.log = home + "/silent";
}

static void prop_local(Src &s) {
  fresh();
  int kind = s.draw(3);
  std::string given = kind == 0   ? ""
                      : kind == 1 ? root + "/bin/onnx-mlir"
                                  : "tool";
  auto mk = [&] {
    return kind == 0 && s.chance(50) ? std::make_unique<OMCompile>()
                                     : std::make_unique<OMCompile>(given);
  };
  std::vector<std::unique_ptr<OMCompile>> os;
  os.push_back(mk());
  os.push_back(mk());
  std::set<std::string> kinds;
  auto throws = [&](OMCompile &o) {
    try {
      o.getOutputFilename();
    } catch (const OMCompileException &) {
      return true;
    }
    return false;
  };
  PCHECK(throws(*os[0]) && !os[0]->isSuccessfullyCompiled(),
      "results before a compilation");
  PCHECK(os[0]->getMode() == OMCompile::CompilationMode::Local &&
         os[0]->getContainerEngineName().empty());
  int n = s.range(1, 4);
  // What the other session last said must not change.
  std::string kept[2];
  for (int i = 0; i < n; i++) {
    int k = s.draw(2);
    Job j = genJob(s, std::to_string(i));
    place(j);
    bool useLog = !j.log.empty();
    noteJob(s, j);
    std::string comp = j.noCompiler ? "/none/onnx-mlir"
                       : s.chance(30) ? root + "/bin/tool"
                                      : "";
    if (!useLog)
      j.log = home + "/silent";
    Job jj = j;
    Outcome r = runJob(*os[k], j, comp);
    if (!useLog)
      jj.log.clear();
    checkJob(*os[k], jj, r, localArgs(j), home);
    kinds.insert(j.ok() ? "ok" : "failure");
    kept[k] = j.ok() ? os[k]->getOutputFilename() : "";
    if (!kept[1 - k].empty())
      PCHECK(os[1 - k]->isSuccessfullyCompiled() &&
                 os[1 - k]->getOutputFilename() == kept[1 - k],
          "another session changed");
    if (j.constants && j.ok())
      s.label("constants");
    if (j.code || j.sig)
      s.label("compiler failed");
  }
  if (n > 1)
    s.nontrivial();
  for (auto &k : kinds)
    s.label(k);
}

static void prop_threads(Src &s) {
  fresh();
  int n = s.range(2, 5);
  std::vector<Job> js;
  std::vector<std::unique_ptr<OMCompile>> os;
  std::vector<Outcome> rs(n);
  std::set<std::string> outs;
  for (int i = 0; i < n; i++) {
    Job j = genJob(s, std::to_string(i));
    // Names of its own.
    std::string d = "t" + std::to_string(i) + "/";
    j.missingModel = j.noDir = false;
    auto uniq = [&](std::string &x) { x = d + x; };
    Cfg c = genCfg(s, {"--fake-report=" + j.report,
                          "--fake-exit=" + std::to_string(j.code),
                          "--fake-signal=" + std::to_string(j.sig),
                          j.noout ? "--fake-noout" : "--fake-noout-not",
                          j.constants ? "--fake-const" : "--fake-const-not"});
    std::string oldModel = c.model, oldOut = c.out;
    c.model = d + fs::path(c.model).filename().string();
    if (!c.out.empty())
      uniq(c.out = fs::path(c.out).filename().string());
    c.outputPath.clear();
    for (auto &a : c.args) {
      if (c.inFlags && a == oldModel)
        a = c.model;
      else if (!oldOut.empty() && a == oldOut)
        a = c.out;
      else if (!oldOut.empty() && a == "-o=" + oldOut)
        a = "-o=" + c.out;
    }
    if (c.inFlags && oldModel == oldOut)
      throw Discard{};
    c.expected = c.args;
    c.flags = renderAll(s, c.args);
    j.c = c;
    j.log = home + "/log" + std::to_string(i);
    j.msg.clear();
    place(j);
    noteJob(s, j);
    js.push_back(j);
    os.push_back(std::make_unique<OMCompile>());
  }
  std::atomic<int> go(0);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++)
    ts.emplace_back([&, i] {
      go++;
      while (go < n)
        ;
      rs[i] = runJob(*os[i], js[i], js[i].noCompiler ? "/none/x" : "");
    });
  for (auto &t : ts)
    t.join();
  for (int i = 0; i < n; i++) {
    Job j = js[i];
    j.log.clear();
    checkJob(*os[i], j, rs[i], localArgs(j), home);
  }
  s.nontrivial();
}

// --- Containers -----------------------------------------------------------

static void prop_container(Src &s) {
  fresh();
  std::string st = root + "/state";
  fs::remove_all(st);
  fs::create_directory(st);
  // The engines: 0 works, 1 is not installed, 2 does not run.
  int eng[2] = {(int)s.weighted({3, 1, 1}), (int)s.weighted({3, 1, 1})};
  static const char *names[2] = {"docker", "podman"};
  for (int i = 0; i < 2; i++) {
    std::string l = root + "/bin/" + names[i];
    fs::remove(l);
    if (eng[i] != 1)
      fs::create_symlink(fakecc, l);
    if (eng[i] == 2)
      spit(st + "/" + names[i] + ".version", "1");
  }
  int want = s.draw(3);
  int use = want == 1   ? (eng[0] == 0 ? 0 : -1)
            : want == 2 ? (eng[1] == 0 ? 1 : -1)
            : eng[0] == 0 ? 0
            : eng[1] == 0 ? 1
                          : -1;
  OMCompile::ContainerEngine pref =
      want == 1   ? OMCompile::ContainerEngine::Docker
      : want == 2 ? OMCompile::ContainerEngine::Podman
                  : OMCompile::ContainerEngine::Auto;
  static const VS images = {"", "ghcr.io/onnxmlir/onnx-mlir",
      "ghcr.io/onnxmlir/onnx-mlir-dev", "onnxmlir/onnx-mlir-dev",
      "my/image:1.0", "my/other"};
  std::string image = s.pick(images);
  std::string real = image.empty() ? images[1] : image;
  bool knownPath = real[0] != 'm';
  std::string path = s.chance(40) || !knownPath
                         ? (s.chance(20) && !knownPath
                                   ? std::string()
                                   : root + "/bin/onnx-mlir")
                         : std::string();
  bool present = s.chance(60), pullWorks = s.chance(70), autoPull = s.chance(60);
  for (int i = 0; i < 2; i++) {
    spit(st + "/" + names[i] + ".images",
        "other/image\n" + (present ? real + "\n" : ""));
    spit(st + "/" + names[i] + ".pull", pullWorks ? "0" : "1");
  }
  s.note("engines %d %d wanted %d image <%s> path <%s> present %d pull %d/%d ",
      eng[0], eng[1], want, image.c_str(), path.c_str(), present, autoPull,
      pullWorks);
  bool ok = use >= 0 && (present || (autoPull && pullWorks)) &&
            (knownPath || !path.empty());
  // The engine writes to our standard output otherwise.
  fflush(stdout);
  int keep = dup(1), nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  close(nul);
  struct Restore {
    int k;
    ~Restore() {
      fflush(stdout);
      dup2(k, 1);
      close(k);
    }
  } restore{keep};
  std::unique_ptr<OMCompile> o;
  std::string what;
  try {
    o = std::make_unique<OMCompile>(image, path, pref, autoPull, false);
  } catch (const OMCompileException &e) {
    what = e.what();
  }
  PCHECK(!!o == ok, "construction %s: %s", o ? "succeeded" : "failed",
      what.c_str());
  if (use >= 0) {
    std::string l = slurp(st + "/" + names[use] + ".log");
    bool pulled = l.find("pull " + real + "\n") != std::string::npos;
    bool mustPull = !present && autoPull;
    PCHECK(pulled == mustPull, "image %s: %s", present ? "present" : "missing",
        pulled ? "pulled" : "not pulled");
    // The other engine is only asked for its version.
    std::string lo = slurp(st + "/" + names[1 - use] + ".log");
    PCHECK(lo.empty() || lo == "--version\n", "the other engine got %s",
        lo.c_str());
  }
  s.label(o ? "set up" : "refused");
  if (!o)
    return;
  PCHECK(o->getMode() == OMCompile::CompilationMode::Container &&
         o->getContainerEngineName() == names[use]);
  // Inside a container the mounts use the paths of the host.
  bool dind = s.chance(25);
  std::string prefix = dind ? s.pick(VS{"", "/host", home}) : "";
  struct Env {
    ~Env() {
      setenv("OM_DIND_DISABLE", "1", 1);
      unsetenv("container");
      unsetenv("OM_DOCKER_HOST_PATH_PREFIX");
    }
  } env;
  if (dind) {
    unsetenv("OM_DIND_DISABLE");
    setenv("container", "podman", 1);
    setenv("OM_DOCKER_HOST_PATH_PREFIX", prefix.c_str(), 1);
    s.note("in a container, prefix <%s> ", prefix.c_str());
    s.label("in a container");
  }
  int n = s.range(1, 2);
  for (int i = 0; i < n; i++) {
    Job j = genJob(s, std::to_string(i));
    if (j.noCompiler || j.sig) // sh reports these its own way
      j.noCompiler = false, j.sig = 0, j.c = genCfg(s, {"--fake-report=" +
          j.report}), j.code = 0, j.noout = false, j.constants = false,
          j.msg.clear(), j.log.clear();
    place(j);
    // Docker separates the parts of a mount by colons, sh ends at NUL only.
    fs::remove(st + "/mounts");
    noteJob(s, j);
    bool useLog = !j.log.empty();
    Job jj = j;
    if (!useLog)
      j.log = home + "/silent";
    Outcome r = runJob(*o, j, "");
    VS e = jj.c.expected;
    std::string md = fs::absolute(absolute(jj.c.model)).parent_path().string();
    if (!jj.c.inFlags)
      e.push_back((fs::path(fs::absolute(jj.c.model)).parent_path() /
                   fs::path(jj.c.model).filename())
                      .string());
    checkJob(*o, jj, r, e, home);
    if (!jj.missingModel) {
      std::stringstream ms(slurp(st + "/mounts"));
      std::string l;
      std::set<std::string> inside;
      while (std::getline(ms, l)) {
        size_t a = l.find(':'), b = l.find(':', a + 1);
        PCHECK(a != std::string::npos && b != std::string::npos, "mount %s",
            l.c_str());
        std::string h = l.substr(0, a), c = l.substr(a + 1, b - a - 1);
        PCHECK(l.substr(b + 1) == "rw", "mount %s", l.c_str());
        std::string w = c;
        if (dind && !prefix.empty() && c.compare(0, prefix.size(), prefix))
          w = prefix + c;
        PCHECK(h == w, "mount %s, expected host directory %s", l.c_str(),
            w.c_str());
        PCHECK(inside.insert(c).second, "mounted twice: %s", c.c_str());
      }
      auto visible = [&](const std::string &d) {
        for (auto &x : inside) {
          std::string a = norm(x + "/"), b = norm(d + "/");
          if (!b.compare(0, a.size(), a))
            return true;
        }
        return false;
      };
      PCHECK(visible(md), "the model directory %s is not mounted", md.c_str());
      std::string od = fs::path(expectedOutput(jj.c)).parent_path().string();
      PCHECK(visible(od), "the output directory %s is not mounted",
          od.c_str());
      std::string lo = slurp(st + "/" + names[use] + ".log");
      lo = lo.substr(lo.rfind("run "));
      PCHECK(lo.find(" " + real + " -c") != std::string::npos, "image: %s",
          lo.c_str());
      std::string ep = path.empty() ? real == images[1] ? "onnx-mlir"
                                      : "/workdir/onnx-mlir/build/Debug/"
                                        "bin/onnx-mlir"
                                    : path;
      PCHECK(lo.find(" -c " + ep + " ") != std::string::npos, "compiler: %s",
          lo.c_str());
    }
  }
  s.nontrivial();
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.find("fakecc") != std::string::npos)
      fakecc = a;
  }
  struct Done {
    ~Done() {}
  };
  return mainFor({{"flags", prop_flags, setup}, {"predict", prop_predict, setup},
                     {"command", prop_command, setup},
                     {"local", prop_local, setup},
                     {"threads", prop_threads, setup},
                     {"container", prop_container, setup}},
      argc, argv);
}
