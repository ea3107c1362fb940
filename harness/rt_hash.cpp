// R09: the perfect hash that the compiler builds for CategoryMapper and the
// lookup that the compiled model performs must agree.
#include "pbt.hpp"
#include "src/Conversion/ONNXToKrnl/PerfectHash.hpp"
using namespace pbt;
using namespace onnx_mlir;
extern "C" {
uint64_t find_index_str(
    const char *str, const int32_t G[], const int32_t V[], int32_t dictSize);
uint64_t find_index_i64(
    int64_t val, const int32_t G[], const int32_t V[], int32_t dictSize);
}

static void prop_i64(Src &s) {
  int n = 1 + (int)s.draw(s.chance(15) ? 300 : 24);
  std::set<int64_t> keys;
  int style = s.weighted({4, 2, 2});
  int64_t start = s.interesting64();
  int64_t step = 1 + (int64_t)s.draw(100);
  for (int i = 0; i < n; ++i) {
    if (style == 0)
      keys.insert(s.interesting64());
    else if (style == 1)
      keys.insert((int64_t)((uint64_t)start + (uint64_t)i * step));
    else // long decimal representations that share a prefix
      keys.insert(-1000000000000000000LL - (int64_t)s.draw(4000));
  }
  n = (int)keys.size();
  std::vector<int64_t> ks(keys.begin(), keys.end()), vals = s.perm(n);
  std::map<int64_t, int32_t> dict;
  for (int i = 0; i < n; ++i)
    dict[ks[i]] = (int32_t)vals[i];
  s.note("int64 dict of %d:", n);
  for (int i = 0; i < n && i < 20; ++i)
    s.note(" %" PRId64 ":%d", ks[i], dict[ks[i]]);
  PerfectHash<int64_t, int32_t> ph(dict);
  std::vector<int32_t> G(ph.getG().begin(), ph.getG().end()),
      V(ph.getV().begin(), ph.getV().end());
  PCHECK((int)G.size() >= n && V.size() == G.size(), "table sizes");
  int len = (int)G.size(); // what the lowering passes to the lookup
  if (len > n)
    s.label("enlarged table");
  for (auto &e : dict) {
    uint64_t r = find_index_i64(e.first, G.data(), V.data(), len);
    PCHECK(r == (uint64_t)e.second,
        "key %" PRId64 ": index %" PRIu64 ", expected %d", e.first, r, e.second);
  }
  for (int i = 0; i < 20; ++i) { // keys that are not in the dictionary
    int64_t k = s.interesting64();
    if (dict.count(k))
      continue;
    PCHECK(find_index_i64(k, G.data(), V.data(), len) < (uint64_t)n,
        "index of an unknown key out of range");
  }
  s.countEvals(n);
  if (n > 2)
    s.nontrivial();
}
static void prop_str(Src &s) {
  int n = 1 + (int)s.draw(s.chance(15) ? 300 : 24);
  std::set<std::string> keys;
  bool bytes = s.chance(25);
  std::string alpha = "ab";
  if (s.chance(50))
    alpha = "abcdefghijklmnopqrstuvwxyz0123456789 _-.ABC";
  if (bytes)
    for (int c = 128; c < 256; ++c)
      alpha += (char)c;
  std::string prefix = s.str(30, alpha);
  for (int i = 0; i < n; ++i)
    keys.insert((s.chance(40) ? prefix : "") + s.str(10, alpha));
  n = (int)keys.size();
  std::vector<std::string> ks(keys.begin(), keys.end());
  std::vector<int64_t> vals = s.perm(n);
  std::map<llvm::StringRef, int32_t> dict;
  for (int i = 0; i < n; ++i)
    dict[ks[i]] = (int32_t)vals[i];
  s.note("string dict of %d:", n);
  for (int i = 0; i < n && i < 20; ++i)
    s.note(" %s:%d", jstr(ks[i]).c_str(), (int)vals[i]);
  PerfectHash<llvm::StringRef, int32_t> ph(dict);
  std::vector<int32_t> G(ph.getG().begin(), ph.getG().end()),
      V(ph.getV().begin(), ph.getV().end());
  PCHECK((int)G.size() >= n && V.size() == G.size(), "table sizes");
  int len = (int)G.size(); // what the lowering passes to the lookup
  if (len > n)
    s.label("enlarged table");
  for (int i = 0; i < n; ++i) {
    uint64_t r = find_index_str(ks[i].c_str(), G.data(), V.data(), len);
    PCHECK(r == (uint64_t)vals[i], "key %s: index %" PRIu64 ", expected %d",
        jstr(ks[i]).c_str(), r, (int)vals[i]);
  }
  for (int i = 0; i < 20; ++i) {
    std::string k = s.str(12, alpha);
    PCHECK(find_index_str(k.c_str(), G.data(), V.data(), len) < (uint64_t)n,
        "index of an unknown key out of range");
  }
  s.countEvals(n);
  if (n > 2)
    s.nontrivial();
}
int main(int argc, char **argv) {
  return mainFor(
      {{"hash_i64", prop_i64, nullptr}, {"hash_str", prop_str, nullptr}}, argc,
      argv);
}
