// Small property-based-testing engine used by every C++ harness in /verif.
//
// A property is a function `void prop(pbt::Src &s)`. Every random decision is
// drawn through `s`, which records it as an integer; a run is a pure function
// of the recorded sequence. A failing sequence is shrunk (chunks deleted,
// values zeroed / halved / decremented) by re-running the property in forked
// children, so that crashes, aborts and sanitizer reports shrink like ordinary
// assertion failures, and the shrunk sequence is the replay file.
#pragma once
#include <algorithm>
#include <cassert>
#include <cerrno>
#include <cinttypes>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

// A fresh scratch directory (check.py removes its parent when it ends).
inline std::string tmpDir(const char *prefix = "pbt") {
  const char *b = getenv("VERIF_TMP");
  std::string t = std::string(b && *b ? b : "/tmp") + "/" + prefix + "XXXXXX";
  if (!mkdtemp(&t[0]))
    abort();
  return t;
}

struct Fail {
  std::string msg;
};
struct Discard {};

inline uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

class Src {
public:
  explicit Src(uint64_t seed) : state(mix(seed)), replaying(false) {}
  explicit Src(std::vector<uint64_t> r)
      : state(0), replaying(true), in(std::move(r)) {}

  // Uniform in [0, n); n == 0 means the full 64-bit range. 0 is the simplest.
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (replaying) {
      v = pos < in.size() ? in[pos] : 0;
      pos++;
    } else {
      state += 0x9e3779b97f4a7c15ULL;
      v = mix(state);
    }
    if (n)
      v %= n;
    rec.push_back(v);
    return v;
  }
  int64_t range(int64_t lo, int64_t hi) { // inclusive, shrinks towards lo
    return lo + (int64_t)draw((uint64_t)(hi - lo) + 1);
  }
  bool chance(unsigned pct) { return draw(100) >= 100 - pct; } // shrinks false
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[draw(v.size())];
  }
  uint64_t bits() { return draw(0); }
  // weighted choice, index 0 simplest
  int weighted(std::initializer_list<int> w) {
    int tot = 0;
    for (int x : w)
      tot += x;
    int r = (int)draw(tot), i = 0;
    for (int x : w) {
      if (r < x)
        return i;
      r -= x;
      ++i;
    }
    return 0;
  }
  int64_t interesting64() {
    static const std::vector<int64_t> I = {0, 1, -1, 2, 7, 127, 128, -128, 255,
        256, 32767, 32768, -32768, 65535, 65536, 2147483647LL, 2147483648LL,
        -2147483648LL, -2147483649LL, 4294967295LL, 4294967296LL, INT64_MAX,
        INT64_MIN, INT64_MIN + 1, 1LL << 53, (1LL << 53) + 1, -(1LL << 53) - 1};
    switch (weighted({4, 3, 2, 1})) {
    case 0:
      return range(-8, 8) ;
    case 1:
      return range(-1000, 1000);
    case 2:
      return pick(I);
    default:
      return (int64_t)bits();
    }
  }
  std::string str(unsigned maxLen, const std::string &alphabet) {
    std::string r;
    unsigned n = (unsigned)draw(maxLen + 1);
    for (unsigned i = 0; i < n; ++i)
      r += alphabet[draw(alphabet.size())];
    return r;
  }
  std::vector<int64_t> perm(int64_t n) {
    std::vector<int64_t> p(n);
    for (int64_t i = 0; i < n; ++i)
      p[i] = i;
    for (int64_t i = 0; i + 1 < n; ++i)
      std::swap(p[i], p[i + draw(n - i)]);
    return p;
  }

  void label(const std::string &l) { labels.insert(l); }
  void nontrivial() { nontriv = true; }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    noteStr(buf);
  }
  void noteStr(const std::string &x) {
    static FILE *trace =
        getenv("PBT_TRACE") ? fopen(getenv("PBT_TRACE"), "w") : nullptr;
    if (trace) {
      fprintf(trace, "%s\n", x.c_str());
      fflush(trace);
    }
    if (desc.size() < 6000)
      desc += x;
  }
  // Evaluations inside one case (e.g. exhaustive inner loops) may be counted.
  void countEvals(uint64_t n) { evals += n; }

  std::vector<uint64_t> rec;
  std::set<std::string> labels;
  std::string desc;
  bool nontriv = false;
  uint64_t evals = 1;

private:
  uint64_t state;
  bool replaying;
  std::vector<uint64_t> in;
  size_t pos = 0;
};

[[noreturn]] inline void failf(const char *file, int line, const char *cond,
    const char *fmt = "", ...) {
  char buf[8192];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  const char *b = strrchr(file, '/');
  throw Fail{std::string(b ? b + 1 : file) + ":" + std::to_string(line) +
             ": check failed: " + cond + (*buf ? ": " : "") + buf};
}
#define PCHECK(c, ...)                                                         \
  do {                                                                         \
    if (!(c))                                                                  \
      ::pbt::failf(__FILE__, __LINE__, #c, ##__VA_ARGS__);                     \
  } while (0)
#define PFAIL(...) ::pbt::failf(__FILE__, __LINE__, "fail", __VA_ARGS__)

inline bool known(const std::string &id) {
  const char *e = getenv("VERIF_KNOWN");
  std::string s = std::string(",") + (e ? e : "") + ",";
  return s.find("," + id + ",") != std::string::npos;
}

inline double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (c == '\n')
      r += "\\n";
    else if (c < 0x20 || c >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += c;
  }
  return r + "\"";
}

struct Options {
  uint64_t seed = 1;
  uint64_t cases = 1000;
  double maxSeconds = 60; // stop generating after this (never a failure)
  int jobs = 4;
  double caseTimeout = 60; // seconds per case; hit => "hang" (re-verified)
  std::string out, replay, replayOut;
};

struct Property {
  std::string name;
  std::function<void(Src &)> fn;
  // per-process setup (runs once per worker)
  std::function<void()> setup;
};

struct Shared { // per worker, in shared memory
  volatile uint64_t current;
  volatile double started;
  volatile int busy;
  volatile uint64_t first; // first case of the process
  volatile int idle;       // no case left
  volatile int stop;       // asked to end
};

struct RunResult {
  int kind = 0; // 0 ok, 1 fail, 2 crash, 3 hang, 4 discard
  std::string msg, desc;
  std::vector<uint64_t> rec;
};

inline void runInProcess(const Property &p, Src &s, RunResult &r) {
  try {
    p.fn(s);
    r.kind = 0;
  } catch (Fail &f) {
    r.kind = 1;
    r.msg = f.msg;
  } catch (Discard &) {
    r.kind = 4;
  } catch (std::exception &e) {
    r.kind = 1;
    r.msg = std::string("unexpected exception: ") + e.what();
  } catch (const std::string &e) {
    r.kind = 1;
    r.msg = std::string("unexpected exception: ") + e;
  } catch (...) {
    r.kind = 1;
    r.msg = "unexpected exception of unknown type";
  }
}

// Forked execution of one case; captures stderr tail on crash.
inline RunResult runForked(const Property &p, const std::vector<uint64_t> *rep,
    uint64_t seed, double timeout,
    const std::vector<uint64_t> *history = nullptr) {
  RunResult r;
  int pfd[2], efd[2];
  if (pipe(pfd) || pipe(efd)) {
    r.kind = 4;
    return r;
  }
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    close(efd[0]);
    dup2(efd[1], 2);
    setpgid(0, 0);
    if (p.setup)
      p.setup();
    RunResult rr;
    // Cases that ran before in the same process, for a failure that needs the
    // state they left behind.
    if (history)
      for (uint64_t h : *history) {
        Src hs(h);
        runInProcess(p, hs, rr);
      }
    Src s = rep ? Src(*rep) : Src(seed);
    rr = RunResult();
    runInProcess(p, s, rr);
    std::string o;
    o += (char)('0' + rr.kind);
    auto put = [&](const std::string &x) {
      uint64_t n = x.size();
      o.append((char *)&n, 8);
      o += x;
    };
    put(rr.msg);
    put(s.desc);
    std::string rb((char *)s.rec.data(), s.rec.size() * 8);
    put(rb);
    size_t off = 0;
    while (off < o.size()) {
      ssize_t k = write(pfd[1], o.data() + off, o.size() - off);
      if (k <= 0)
        break;
      off += k;
    }
    _exit(0);
  }
  close(pfd[1]);
  close(efd[1]);
  fcntl(pfd[0], F_SETFL, O_NONBLOCK);
  fcntl(efd[0], F_SETFL, O_NONBLOCK);
  std::string o, e;
  double t0 = now();
  bool killed = false;
  int status = 0;
  for (;;) {
    char buf[65536];
    ssize_t k;
    bool any = false;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0) {
      o.append(buf, k);
      any = true;
    }
    while ((k = read(efd[0], buf, sizeof buf)) > 0) {
      if (e.size() < (1 << 20))
        e.append(buf, k);
      any = true;
    }
    pid_t w = waitpid(pid, &status, WNOHANG);
    if (w == pid) {
      while ((k = read(pfd[0], buf, sizeof buf)) > 0)
        o.append(buf, k);
      while ((k = read(efd[0], buf, sizeof buf)) > 0)
        if (e.size() < (1 << 20))
          e.append(buf, k);
      break;
    }
    if (now() - t0 > timeout) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      killed = true;
      waitpid(pid, &status, 0);
      break;
    }
    if (!any)
      usleep(200);
  }
  close(pfd[0]);
  close(efd[0]);
  kill(-pid, SIGKILL); // stragglers of the case
  if (killed) {
    r.kind = 3;
    r.msg = "case did not finish in time";
    return r;
  }
  if (o.size() >= 25 && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
    r.kind = o[0] - '0';
    size_t at = 1;
    auto get = [&]() {
      uint64_t n;
      memcpy(&n, &o[at], 8);
      at += 8;
      std::string x = o.substr(at, n);
      at += n;
      return x;
    };
    r.msg = get();
    r.desc = get();
    std::string rb = get();
    r.rec.resize(rb.size() / 8);
    if (!rb.empty())
      memcpy(r.rec.data(), rb.data(), rb.size());
    return r;
  }
  r.kind = 2;
  char b[128];
  if (WIFSIGNALED(status))
    snprintf(b, sizeof b, "process killed by signal %d", WTERMSIG(status));
  else
    snprintf(b, sizeof b, "process exited with status %d", WEXITSTATUS(status));
  r.msg = b;
  // Keep the informative part of the diagnostics.
  std::istringstream is(e);
  std::string line, keep;
  int n = 0;
  while (std::getline(is, line) && n < 12) {
    if (line.find("ssert") != std::string::npos ||
        line.find("ERROR") != std::string::npos ||
        line.find("SUMMARY") != std::string::npos ||
        line.find("runtime error") != std::string::npos ||
        line.find("terminate") != std::string::npos ||
        line.find("UNREACHABLE") != std::string::npos ||
        line.find("what()") != std::string::npos) {
      keep += " | " + line.substr(0, 300);
      ++n;
    }
  }
  if (keep.empty())
    keep = " | " + e.substr(0, 400);
  r.msg += keep;
  return r;
}

inline bool isBad(int k) { return k == 1 || k == 2 || k == 3; }

inline std::vector<uint64_t> shrink(const Property &p,
    std::vector<uint64_t> best, RunResult &bestR, double budget,
    double caseTimeout) {
  double t0 = now();
  std::set<std::vector<uint64_t>> tried;
  int hangs = bestR.kind == 3 ? 1 : 0;
  auto attempt = [&](const std::vector<uint64_t> &c) {
    if (now() - t0 > budget || hangs > 3)
      return false;
    if (!tried.insert(c).second)
      return false;
    RunResult r = runForked(p, &c, 0, std::min(caseTimeout, 20.0));
    if (r.kind == 3)
      ++hangs;
    if (!isBad(r.kind))
      return false;
    if (bestR.kind != 3 && r.kind == 3)
      return false;
    std::vector<uint64_t> nr = r.rec.empty() ? c : r.rec;
    auto key = [](const std::vector<uint64_t> &v) {
      return std::make_pair(v.size(), v);
    };
    if (!(key(nr) < key(best)) && !(key(c) < key(best)))
      return false;
    best = key(nr) < key(c) ? nr : c;
    bestR = r;
    return true;
  };
  bool progress = true;
  while (progress && now() - t0 < budget) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1;
         len /= 2) {
      for (size_t i = 0; i + len <= best.size();) {
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c))
          progress = true;
        else
          i += std::max<size_t>(1, len / 2);
        if (now() - t0 > budget)
          return best;
      }
      if (len == 1)
        break;
    }
    for (size_t i = 0; i < best.size(); ++i) {
      if (!best[i])
        continue;
      auto c = best;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      uint64_t lo = 0;
      while (i < best.size() && best[i] > lo + 1 && now() - t0 < budget) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        c = best;
        c[i] = mid;
        if (attempt(c))
          progress = true;
        else
          lo = mid;
      }
      if (i < best.size() && best[i]) {
        c = best;
        c[i]--;
        if (attempt(c))
          progress = true;
        // decrement here and delete a following element (counts)
        if (i + 1 < best.size() && best[i]) {
          c = best;
          c[i]--;
          c.erase(c.begin() + i + 1);
          if (attempt(c))
            progress = true;
        }
      }
    }
  }
  return best;
}

inline void writeReplay(
    const std::string &path, const std::string &prop,
    const std::vector<uint64_t> &c, const RunResult &r) {
  std::ofstream f(path);
  f << "# " << prop << ": shrunk failing choice sequence\n";
  std::istringstream is(r.msg + "\n" + r.desc);
  std::string l;
  while (std::getline(is, l))
    f << "# " << l << "\n";
  for (uint64_t v : c)
    f << v << "\n";
}

inline int run(const Property &prop, int argc, char **argv) {
  Options o;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed")
      o.seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--cases")
      o.cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--seconds")
      o.maxSeconds = atof(val().c_str());
    else if (a == "--jobs")
      o.jobs = atoi(val().c_str());
    else if (a == "--case-timeout")
      o.caseTimeout = atof(val().c_str());
    else if (a == "--out")
      o.out = val();
    else if (a == "--replay")
      o.replay = val();
    else if (a == "--replay-out")
      o.replayOut = val();
    else if (a == "--property")
      val();
  }
  if (!o.replay.empty()) {
    std::ifstream f(o.replay);
    std::vector<uint64_t> c, hist;
    std::string l;
    while (std::getline(f, l))
      if (!l.empty() && l[0] == '@')
        hist.push_back(strtoull(l.c_str() + 1, 0, 10));
      else if (!l.empty() && l[0] != '#')
        c.push_back(strtoull(l.c_str(), 0, 10));
    RunResult r;
    if (!hist.empty()) {
      uint64_t last = hist.back();
      hist.pop_back();
      r = runForked(prop, nullptr, last, o.caseTimeout + 120, &hist);
    } else
      r = runForked(prop, &c, 0, o.caseTimeout);
    printf("%s: %s\n%s\n",
        r.kind == 0   ? "PASS"
        : r.kind == 4 ? "DISCARD"
                      : "FAIL",
        r.msg.c_str(), r.desc.c_str());
    return isBad(r.kind) ? 1 : 0;
  }

  double t0 = now();
  int J = std::max(1, o.jobs);
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared) * J,
      PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string dir = tmpDir("pbt");
  struct W {
    pid_t pid = 0;
    uint64_t next = 0;
    int gen = 0;
    bool done = false, failed = false;
  };
  std::vector<W> ws(J);
  std::vector<uint64_t> badCases;
  auto caseSeed = [&](uint64_t i) { return mix(o.seed * 1000003ULL + i); };
  auto spawn = [&](int w) {
    ws[w].gen++;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid) {
      ws[w].pid = pid;
      return;
    }
    setpgid(0, 0);
    std::string outp =
        dir + "/w" + std::to_string(w) + "." + std::to_string(ws[w].gen);
    // Harness noise goes to a file.
    int nfd = open("/dev/null", O_WRONLY);
    dup2(nfd, 1);
    dup2(nfd, 2);
    FILE *f = fopen(outp.c_str(), "w");
    if (prop.setup)
      prop.setup();
    std::map<std::string, uint64_t> labels;
    uint64_t ev = 0, nt = 0, disc = 0, ran = 0;
    std::unordered_set<uint64_t> distinct;
    int samples = 0;
    bool failedHere = false;
    sh[w].first = ws[w].next;
    auto flushStats = [&]() {
      for (auto &l : labels)
        fprintf(f, "L %" PRIu64 " %s\n", l.second, l.first.c_str());
      fprintf(f, "E %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 "\n", ev, nt,
          disc, ran);
      for (uint64_t h : distinct)
        fprintf(f, "H %" PRIu64 "\n", h);
      labels.clear();
      ev = nt = disc = ran = 0;
      distinct.clear();
      fflush(f);
    };
    for (uint64_t i = ws[w].next; i < o.cases; i += J) {
      if (now() - t0 > o.maxSeconds)
        break;
      sh[w].current = i;
      if (sh[w].stop) {
        failedHere = true;
        break;
      }
      sh[w].started = now();
      sh[w].busy = 1;
      Src s(caseSeed(i));
      RunResult r;
      runInProcess(prop, s, r);
      sh[w].busy = 0;
      ran++;
      if (r.kind == 4) {
        disc++;
        continue;
      }
      ev += s.evals;
      for (auto &l : s.labels)
        labels[l]++;
      if (s.nontriv) {
        nt++;
        uint64_t h = 1469598103934665603ULL;
        for (uint64_t v : s.rec)
          h = mix(h ^ v);
        distinct.insert(h);
        if (samples < 4 && r.kind == 0) {
          fprintf(f, "S %s\n", jstr(s.desc.substr(0, 700)).c_str());
          samples++;
        }
      }
      if (r.kind == 1) {
        fprintf(f, "F %" PRIu64 " %s\n", i, jstr(r.msg).c_str());
        fflush(f);
        failedHere = true;
        break; // the parent decides whether to continue
      }
      if ((ran & 255) == 0)
        flushStats();
    }
    sh[w].busy = 0;
    flushStats();
    if (!failedHere)
      sh[w].idle = 1;
    fprintf(f, "D\n");
    fclose(f);
    _exit(0);
  };
  for (int w = 0; w < J; ++w) {
    sh[w].busy = 0;
    ws[w].next = w;
    spawn(w);
  }
  std::string fmsg, fdesc;
  bool violated = false;
  int unconfirmed = 0;
  // A case that fails only after others ran in the same process: find a short
  // history that reproduces it every time.
  auto confirmHistory = [&](uint64_t bi, RunResult &r) {
    uint64_t first = sh[bi % J].first;
    std::vector<uint64_t> all;
    for (uint64_t i = first; i < bi; i += J)
      all.push_back(caseSeed(i));
    double th = now();
    auto fails = [&](const std::vector<uint64_t> &h) {
      RunResult x = runForked(
          prop, nullptr, caseSeed(bi), o.caseTimeout + 60, &h);
      if (isBad(x.kind)) {
        r = x;
        return true;
      }
      return false;
    };
    std::vector<uint64_t> h;
    bool found = false;
    for (size_t n = 1; !all.empty() && now() - th < 90; n *= 8) {
      n = std::min(n, all.size());
      h.assign(all.end() - n, all.end());
      if ((found = fails(h)) || n == all.size())
        break;
    }
    if (!found)
      return false;
    for (size_t chunk = (h.size() + 1) / 2; chunk && now() - th < 150;) {
      bool any = false;
      for (size_t i = 0; i < h.size() && now() - th < 150;) {
        std::vector<uint64_t> c(h.begin(), h.begin() + i);
        c.insert(c.end(), h.begin() + std::min(h.size(), i + chunk), h.end());
        if (c.size() && fails(c)) {
          h = c;
          any = true;
        } else
          i += chunk;
      }
      if (chunk == 1 && !any)
        break;
      chunk = chunk > 1 ? (chunk + 1) / 2 : (any ? 1 : 0);
    }
    for (int i = 0; i < 3; ++i)
      if (!fails(h))
        return false;
    h.push_back(caseSeed(bi));
    if (!o.replayOut.empty()) {
      std::ofstream f(o.replayOut);
      f << "# " << prop.name << ": seeds of cases run one after another in one"
        << " process; the last one fails\n";
      std::istringstream is(r.msg + "\n" + r.desc);
      std::string l;
      while (std::getline(is, l))
        f << "# " << l << "\n";
      for (uint64_t x : h)
        f << "@" << x << "\n";
    }
    r.msg = "after " + std::to_string(h.size() - 1) +
            " other case(s) in the same process: " + r.msg;
    return true;
  };
  for (int round = 0; round < 12; ++round) {
  int live = 0;
  for (auto &x : ws)
    live += !x.done;
  bool stop = false;
  while (live) {
    usleep(2000);
    for (int w = 0; w < J; ++w) {
      if (ws[w].done)
        continue;
      int st;
      pid_t k = waitpid(ws[w].pid, &st, WNOHANG);
      bool hang = false;
      if (k == 0 && sh[w].busy && now() - sh[w].started > o.caseTimeout) {
        kill(-ws[w].pid, SIGKILL);
        kill(ws[w].pid, SIGKILL);
        waitpid(ws[w].pid, &st, 0);
        k = ws[w].pid;
        hang = true;
      }
      if (k != ws[w].pid)
        continue;
      kill(-ws[w].pid, SIGKILL);
      bool clean = !hang && WIFEXITED(st) && WEXITSTATUS(st) == 0;
      bool failed = false, ended = false;
      if (clean) {
        std::ifstream f(
            dir + "/w" + std::to_string(w) + "." + std::to_string(ws[w].gen));
        std::string l;
        while (std::getline(f, l))
          if (l.rfind("F ", 0) == 0) {
            badCases.push_back(strtoull(l.c_str() + 2, 0, 10));
            failed = true;
          } else if (l == "D")
            ended = true;
      }
      if (!failed && !(clean && ended)) {
        badCases.push_back((uint64_t)sh[w].current);
        failed = true;
      }
      if (failed)
        stop = ws[w].failed = true;
      ws[w].done = true;
      --live;
    }
    if (stop) {
      // Let the other workers go on for a moment, then stop them.
      double t1 = now();
      for (int w = 0; w < J; ++w)
        sh[w].stop = 1;
      for (int w = 0; w < J; ++w) {
        if (ws[w].done)
          continue;
        int st;
        while (waitpid(ws[w].pid, &st, WNOHANG) == 0 && now() - t1 < 5)
          usleep(2000);
        if (waitpid(ws[w].pid, &st, WNOHANG) == 0) {
          kill(-ws[w].pid, SIGKILL);
          kill(ws[w].pid, SIGKILL);
          waitpid(ws[w].pid, &st, 0);
        }
        kill(-ws[w].pid, SIGKILL);
        ws[w].done = true;
        --live;
      }
    }
  }
  std::sort(badCases.begin(), badCases.end());
  // Confirm, shrink, replay three times.
  std::vector<uint64_t> best;
  for (uint64_t bi : badCases) {
    RunResult r = runForked(prop, nullptr, caseSeed(bi), o.caseTimeout);
    if (!isBad(r.kind)) {
      if (confirmHistory(bi, r)) {
        violated = true;
        fmsg = r.msg;
        fdesc = r.desc;
        break;
      }
      ++unconfirmed;
      continue;
    }
    std::vector<uint64_t> seq = r.rec;
    if (seq.empty()) {
      // Crashed: regenerate the sequence from the seed in the child is not
      // possible, so draw it lazily: replay by seed with a recorded stream.
      Src g(caseSeed(bi));
      // A raw stream reproduces the draws (values are reduced modulo n on use).
      for (int i = 0; i < 20000; ++i)
        seq.push_back(g.draw(0));
      // find the shortest prefix that still fails
      size_t lo = 0, hi = seq.size();
      while (lo < hi) {
        size_t m = (lo + hi) / 2;
        std::vector<uint64_t> c(seq.begin(), seq.begin() + m);
        if (isBad(runForked(prop, &c, 0, o.caseTimeout).kind))
          hi = m;
        else
          lo = m + 1;
      }
      std::vector<uint64_t> c(seq.begin(), seq.begin() + hi);
      RunResult rr = runForked(prop, &c, 0, o.caseTimeout);
      if (!isBad(rr.kind)) {
        c = seq;
        rr = runForked(prop, &c, 0, o.caseTimeout);
      }
      if (!isBad(rr.kind)) {
        ++unconfirmed;
        continue;
      }
      seq = c;
      r = rr;
    }
    RunResult br = r;
    best = shrink(prop, seq, br, 60, o.caseTimeout);
    int ok = 0;
    for (int i = 0; i < 3; ++i)
      ok += isBad(runForked(prop, &best, 0, o.caseTimeout).kind);
    if (ok < 3) { // fall back to the unshrunk sequence
      best = seq;
      br = r;
      ok = 0;
      for (int i = 0; i < 3; ++i)
        ok += isBad(runForked(prop, &best, 0, o.caseTimeout).kind);
    }
    if (ok < 3) {
      ++unconfirmed;
      continue;
    }
    violated = true;
    fmsg = br.msg;
    fdesc = br.desc;
    if (!o.replayOut.empty())
      writeReplay(o.replayOut, prop.name, best, br);
    break;
  }
  if (violated || badCases.empty() || now() - t0 > o.maxSeconds)
    break;
  // Nothing confirmed: go on with the cases that are left.
  badCases.clear();
  for (int w = 0; w < J; ++w) {
    if (sh[w].idle)
      continue;
    ws[w].next = sh[w].current + (ws[w].failed ? J : 0);
    ws[w].done = ws[w].failed = false;
    sh[w].busy = sh[w].stop = 0;
    spawn(w);
  }
  } // rounds
  // Collect.
  std::map<std::string, uint64_t> labels;
  uint64_t ev = 0, nt = 0, disc = 0, ran = 0;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
  for (int w = 0; w < J; ++w)
    for (int g = 1; g <= ws[w].gen; ++g) {
      std::string pth = dir + "/w" + std::to_string(w) + "." + std::to_string(g);
      std::ifstream f(pth);
      std::string l;
      while (std::getline(f, l)) {
        if (l[0] == 'L') {
          char *e;
          uint64_t n = strtoull(l.c_str() + 2, &e, 10);
          labels[e + 1] += n;
        } else if (l[0] == 'E') {
          uint64_t a, b, c, d;
          if (sscanf(l.c_str() + 2,
                  "%" SCNu64 " %" SCNu64 " %" SCNu64 " %" SCNu64, &a, &b, &c,
                  &d) == 4) {
            ev += a;
            nt += b;
            disc += c;
            ran += d;
          }
        } else if (l[0] == 'H')
          distinct.insert(strtoull(l.c_str() + 2, 0, 10));
        else if (l[0] == 'S')
          samples.push_back(l.substr(2));
      }
      unlink(pth.c_str());
    }
  rmdir(dir.c_str());
  std::ostringstream js;
  js << "{\"evaluations\":" << ev << ",\"cases\":" << ran
     << ",\"discarded\":" << disc << ",\"nontrivial\":" << nt
     << ",\"distinct_nontrivial\":" << distinct.size() << ",\"labels\":{";
  bool first = true;
  for (auto &l : labels) {
    js << (first ? "" : ",") << jstr(l.first) << ":" << l.second;
    first = false;
  }
  js << "},\"samples\":[";
  for (size_t i = 0; i < samples.size() && i < 8; ++i)
    js << (i ? "," : "") << samples[i];
  js << "],\"violated\":" << (violated ? "true" : "false")
     << ",\"unconfirmed\":" << unconfirmed << ",\"message\":" << jstr(fmsg)
     << ",\"case\":" << jstr(fdesc) << ",\"wall_s\":" << now() - t0 << "}\n";
  if (!o.out.empty()) {
    std::ofstream f(o.out);
    f << js.str();
  }
  printf("%s", js.str().c_str());
  return violated ? 1 : 0;
}

inline int mainFor(const std::vector<Property> &props, int argc, char **argv) {
  std::string want;
  for (int i = 1; i + 1 < argc; ++i)
    if (std::string(argv[i]) == "--property")
      want = argv[i + 1];
  for (auto &p : props)
    if (p.name == want)
      return run(p, argc, argv);
  fprintf(stderr, "unknown property '%s'\n", want.c_str());
  return 2;
}

} // namespace pbt
