/* Monitor of C07: dictionaries built by the compiler's PerfectHash, keys looked up by the runtime. */
#include "mon.h"
#include <map>
#include <set>
#include <string>
#include <sys/wait.h>
#include <vector>
#include "src/Conversion/ONNXToKrnl/PerfectHash.cpp"
extern "C" {
#include "src/Runtime/OMIndexLookup.c"
}
using namespace onnx_mlir;
static uint32_t fnv(uint32_t h, const std::string &s) {
  if (!h) h = 0x01000193u;
  for (char c : s) { h *= 0x01000193u; h ^= (uint32_t)(int32_t)(signed char)c; }
  return h;
}
/* independent decimal text (no library conversion) */
static std::string dec(int64_t v) {
  uint64_t u = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
  std::string s;
  do { s.insert(s.begin(), (char)('0' + u % 10)); u /= 10; } while (u);
  return v < 0 ? "-" + s : s;
}
static int64_t ri() {
  static const int64_t pick[] = {0, 1, -1, INT64_MAX, INT64_MIN, INT64_MIN + 1, 999999999999999999ll, -999999999999999999ll, 1000000000000000000ll, -1000000000000000000ll, -1000000000000000001ll, 10, -10, INT32_MIN, INT32_MAX};
  switch (rnd() % 4) { case 0: return pick[rnd() % 15]; case 1: return (int64_t)rnd(); case 2: return (int64_t)rnd() >> (rnd() % 60); default: return rndr(-300, 300); }
}
static std::string rs() {
  std::string s; int n = (int)(rnd() % 8 ? rndr(0, 12) : rndr(0, 300));
  int m = (int)(rnd() % 3);
  for (int i = 0; i < n; ++i) s += m == 0 ? (char)rndr('a', 'z') : m == 1 ? (char)(rndr(1, 255)) : (char)(128 + rndr(0, 127));
  return s;
}
static std::string show(const std::string &s) { std::string o; char b[8]; for (unsigned char c : s) { snprintf(b, 8, "%02x", c); o += b; if (o.size() > 200) break; } return "0x" + o; }
template <typename T> static uint64_t expect(uint32_t (*h)(uint32_t, const T &), const T &k, const std::vector<int32_t> &G, const std::vector<int32_t> &V) {
  int32_t n = (int32_t)G.size();
  int32_t d = G[h(0, k) % (uint32_t)n];
  return d < 0 ? (uint64_t)V[-(int64_t)d - 1] : (uint64_t)V[h((uint32_t)d, k) % (uint32_t)n];
}
static uint32_t hs(uint32_t h, const std::string &k) { return fnv(h, k); }
static uint32_t hi(uint32_t h, const int64_t &k) { return fnv(h, dec(k)); }
/* does the table builder end for this dictionary? (in a child, with a time limit) */
static void builds(std::vector<std::string> keys) {
  std::string names; for (auto &k : keys) names += (names.empty() ? "\"" : ",\"") + k + "\"";
  CUR("building the table of the string dictionary {%s}", names.c_str());
  pid_t pid = fork();
  if (!pid) {
    alarm(3);
    std::map<llvm::StringRef, int32_t> d; int j = 0; for (auto &k : keys) d[llvm::StringRef(k)] = j++;
    PerfectHash<llvm::StringRef, int32_t> ph(d);
    for (auto &e : d) if (find_index_str(e.first.str().c_str(), ph.getG().data(), ph.getV().data(), (int)keys.size()) != (uint64_t)e.second) _exit(3);
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 3), "a key does not map to its index");
  CHECK(!WIFSIGNALED(st), "the table builder does not end");
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the table builder fails");
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  if (mon_arg(argc, argv, "build", 0)) {
    builds({"a"}); builds({"a", "b"}); builds({"x", "y", "z"}); builds({"cat", "dog", "cow"}); builds({"one", "two", "three", "four", "five"});
    builds({"b", "d"});
    return mon_done();
  }
  long n = mon_arg(argc, argv, "n", 2000);
  for (long it = 0; it < n; ++it) {
    { /* arbitrary tables of any size */
      int sz = (int)(rnd() % 5 ? rndr(1, 64) : rndr(1, 5000));
      std::vector<int32_t> G(sz), V(sz);
      for (int i = 0; i < sz; ++i) { V[i] = (int)rndr(0, sz - 1); G[i] = rnd() % 2 ? -(int)rndr(1, sz) : (int)rndr(0, rnd() % 2 ? 100 : INT32_MAX); }
      CUR("arbitrary tables of size %d", sz);
      for (int t = 0; t < 20; ++t) { std::string k = rs(); uint64_t r = find_index_str(k.c_str(), G.data(), V.data(), sz), w = expect<std::string>(hs, k, G, V); CHECK(r == w, "lookup of %s gives %llu, its slot holds %llu", show(k).c_str(), (unsigned long long)r, (unsigned long long)w); }
      for (int t = 0; t < 20; ++t) { int64_t k = ri(); uint64_t r = find_index_i64(k, G.data(), V.data(), sz), w = expect<int64_t>(hi, k, G, V); CHECK(r == w, "lookup of %lld gives %llu, the slot of its decimal text holds %llu", (long long)k, (unsigned long long)r, (unsigned long long)w); }
    }
    /* the builder does not end for many dictionaries of even size (known finding): odd sizes here */
    int size = 1 | (int)(rnd() % 4 == 0 ? rndr(1, 3) : rndr(1, rnd() % 10 ? 40 : 200));
    std::vector<int32_t> val(size);
    for (int i = 0; i < size; ++i) val[i] = i;
    for (int i = size - 1; i > 0; --i) std::swap(val[i], val[rnd() % (i + 1)]);
    if (it % 2) {
      std::set<int64_t> ks; while ((int)ks.size() < size) ks.insert(ri());
      std::map<int64_t, int32_t> d; int j = 0; for (int64_t k : ks) d[k] = val[j++];
      CUR("integer dictionary of %d keys, first %lld", size, (long long)*ks.begin());
      PerfectHash<int64_t, int32_t> ph(d);
      std::vector<int32_t> G(ph.getG().begin(), ph.getG().end()), V(ph.getV().begin(), ph.getV().end());
      CHECK((int)G.size() == size && (int)V.size() == size, "table sizes");
      for (int i = 0; i < size; ++i) CHECK(G[i] >= -size && V[i] >= 0 && V[i] < size, "table entry %d out of range: G=%d V=%d", i, G[i], V[i]);
      std::vector<int32_t> G2 = G, V2 = V;
      for (auto &e : d) { uint64_t r = find_index_i64(e.first, G.data(), V.data(), size); CHECK(r == (uint64_t)e.second, "key %lld of the dictionary maps to %llu, stored index is %d", (long long)e.first, (unsigned long long)r, e.second); }
      for (int t = 0; t < 20; ++t) { int64_t k = ri(); uint64_t r = find_index_i64(k, G.data(), V.data(), size), w = expect<int64_t>(hi, k, G, V); CHECK(r == w, "lookup of %lld gives %llu, the slot of its decimal text holds %llu", (long long)k, (unsigned long long)r, (unsigned long long)w); }
      CHECK(G == G2 && V == V2, "lookup modified the tables");
    } else {
      std::set<std::string> ks; while ((int)ks.size() < size) ks.insert(rs());
      std::vector<std::string> keep(ks.begin(), ks.end());
      std::map<llvm::StringRef, int32_t> d; int j = 0; for (auto &k : keep) d[llvm::StringRef(k)] = val[j++];
      CUR("string dictionary of %d keys, first %s", size, show(keep[0]).c_str());
      PerfectHash<llvm::StringRef, int32_t> ph(d);
      std::vector<int32_t> G(ph.getG().begin(), ph.getG().end()), V(ph.getV().begin(), ph.getV().end());
      CHECK((int)G.size() == size && (int)V.size() == size, "table sizes");
      for (int i = 0; i < size; ++i) CHECK(G[i] >= -size && V[i] >= 0 && V[i] < size, "table entry %d out of range: G=%d V=%d", i, G[i], V[i]);
      std::vector<int32_t> G2 = G, V2 = V;
      for (auto &e : d) { uint64_t r = find_index_str(e.first.str().c_str(), G.data(), V.data(), size); CHECK(r == (uint64_t)e.second, "key %s of the dictionary maps to %llu, stored index is %d", show(e.first.str()).c_str(), (unsigned long long)r, e.second); }
      for (int t = 0; t < 20; ++t) { std::string k = rs(); uint64_t r = find_index_str(k.c_str(), G.data(), V.data(), size), w = expect<std::string>(hs, k, G, V); CHECK(r == w, "lookup of %s gives %llu, its slot holds %llu", show(k).c_str(), (unsigned long long)r, (unsigned long long)w); }
      CHECK(G == G2 && V == V2, "lookup modified the tables");
    }
  }
  return mon_done();
}
