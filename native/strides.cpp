/* Monitor of C13: views of a dense tensor and walks of a shape against explicit enumeration. */
#include "mon.h"
#include "src/Dialect/ONNX/ElementsAttr/Strides.hpp"
#include "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp"
#include <algorithm>
#include <string>
#include <vector>
using namespace onnx_mlir;
using llvm::ArrayRef;
typedef std::vector<int64_t> V;
typedef std::vector<uint64_t> U;
int64_t mlir::ShapedType::getNumElements(ArrayRef<int64_t> s) { int64_t n = 1; for (int64_t d : s) n *= d; return n; }
static std::string T(ArrayRef<int64_t> v) { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + ")"; }
static std::string T(ArrayRef<uint64_t> v) { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + ")"; }
#define S(x) T(x).c_str()
static int64_t num(const V &s) { int64_t n = 1; for (int64_t d : s) n *= d; return n; }
static V coords(const V &s, int64_t k) { V r(s.size()); for (size_t i = s.size(); i--;) { r[i] = k % s[i]; k /= s[i]; } return r; }
static int64_t dot(const V &a, const V &b) { int64_t t = 0; for (size_t i = 0; i < a.size(); ++i) t += a[i] * b[i]; return t; }
static V dflt(const V &s) { V r(s.size()); int64_t m = 1; for (size_t i = s.size(); i--;) { r[i] = s[i] == 1 ? 0 : m; m *= s[i]; } return r; }
static bool same(ArrayRef<int64_t> a, const V &b) { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()); }

template <size_t N> static void walk(const V &s, const std::vector<V> &st) {
  std::array<ArrayRef<int64_t>, N> a;
  for (size_t i = 0; i < N; ++i) a[i] = st[i];
  StridesRange<N> r(s, a);
  int64_t n = num(s), k = 0;
  CHECK((int64_t)r.size() == n && r.empty() == (n == 0), "the range over %s has size %zu, not %ld", S(s), r.size(), (long)n);
  for (auto &p : r) {
    V c = coords(s, k);
    CHECK(k < n && (int64_t)p.flattenedIndex == k, "step %ld of the walk over %s says position %lu", (long)k, S(s), (unsigned long)p.flattenedIndex);
    CHECK(p.index.size() == s.size() && std::equal(c.begin(), c.end(), p.index.begin()), "step %ld of the walk over %s is at %s, not %s", (long)k, S(s), S(ArrayRef<uint64_t>(p.index)), S(c));
    for (size_t i = 0; i < N; ++i) CHECK(p[i] == dot(c, st[i]), "step %ld of the walk over %s: offset %zu under strides %s is %ld, not %ld", (long)k, S(s), i, S(st[i]), (long)p[i], (long)dot(c, st[i]));
    ++k;
  }
  CHECK(k == n, "the walk over %s has %ld steps, not %ld", S(s), (long)k, (long)n);
  if (n > 0) {
    StridesIterator<N> it(s, a), e(s);
    auto old = it++;
    CHECK(old->flattenedIndex == 0 && it->flattenedIndex == 1 && (it == e) == (n == 1) && (it != e) == (n != 1) && old != it, "the iterator over %s does not step by one", S(s));
  }
}

static void positions(const V &s, const V &st, const char *what) {
  int64_t n = num(s);
  for (int64_t k = 0; k < n; ++k) {
    V c = coords(s, k);
    U u(c.begin(), c.end());
    CHECK((int64_t)getStridesPosition(u, st) == dot(c, st), "%s: position of %s under strides %s is %ld, not %ld", what, S(c), S(st), (long)getStridesPosition(u, st), (long)dot(c, st));
  }
}

template <class E> static void copyView(const V &s, const V &st, int64_t total) {
  std::vector<E> src(total), dst(num(s) + 2, (E)0x5a5a5a5a5a5a5a5aull);
  for (int64_t i = 0; i < total; ++i) src[i] = (E)(0x0101010101010101ull * (uint64_t)(i % 251) + ((uint64_t)i << 3));
  V full(s.size() - st.size(), 0);
  full.insert(full.end(), st.begin(), st.end());
  int64_t n = num(s);
  restrideArray(sizeof(E), s, st, ArrayRef<char>((const char *)src.data(), sizeof(E) * total), llvm::MutableArrayRef<char>((char *)(dst.data() + 1), sizeof(E) * n));
  for (int64_t k = 0; k < n; ++k) { int64_t p = dot(coords(s, k), full);
    CHECK(dst[k + 1] == src[p], "copying %zu-byte elements of the view %s with strides %s: element %ld is not source element %ld", sizeof(E), S(s), S(st), (long)k, (long)p); }
  CHECK(dst[0] == (E)0x5a5a5a5a5a5a5a5aull && dst[n + 1] == (E)0x5a5a5a5a5a5a5a5aull, "copying the view %s with strides %s of %zu-byte elements writes outside the destination", S(s), S(st), sizeof(E));
}

static bool wellFormed(const V &s, const V &st) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == 1 && st[i] != 0) return false; return true; }

static void reshape(const V &s, const V &st, const V &to) {
  CUR("reshape of shape %s strides %s to %s", S(s), S(st), S(to));
  auto r = reshapeStrides(s, st, to);
  int64_t n = num(s);
  V want(to.size(), 0);
  int64_t m = 1;
  for (size_t i = to.size(); i--;) { want[i] = to[i] == 1 || n == 0 ? 0 : dot(coords(s, m), st); m *= to[i]; }
  if (n == 0) { CHECK(r && r->size() == to.size(), "strides of an empty tensor refused"); return; }
  bool ok = true;
  for (int64_t k = 0; k < n && ok; ++k) ok = dot(coords(s, k), st) == dot(coords(to, k), want);
  if (r) {
    CHECK(r->size() == to.size(), "%zu strides for rank %zu", r->size(), to.size());
    for (int64_t k = 0; k < n; ++k) { int64_t p = dot(coords(s, k), st), q = dot(coords(to, k), V(r->begin(), r->end()));
      CHECK(p == q, "strides %s: element %ld is at %ld, not %ld", S(ArrayRef<int64_t>(*r)), (long)k, (long)q, (long)p); }
    CHECK(same(*r, want), "strides %s, not %s", S(ArrayRef<int64_t>(*r)), S(want));
  } else
    CHECK(!ok, "refused although strides %s address the same elements", S(want));
}

/* every shape with n elements and at most rank dimensions */
static void shapes(int64_t n, size_t rank, V &cur, std::vector<V> &out) {
  if (n == 1) out.push_back(cur);
  if (cur.size() == rank) return;
  for (int64_t d = 1; d <= n; ++d) if (n % d == 0 && (d > 1 || (cur.empty() || cur.back() != 1 || cur.size() < 2))) { cur.push_back(d); shapes(n / d, rank, cur, out); cur.pop_back(); }
}

static void one(const V &s, const V &st, int64_t total) { /* a view into a buffer of total elements */
  CUR("shape %s strides %s", S(s), S(st));
  V d = dflt(s);
  if (wellFormed(s, st)) CHECK(areStridesContiguous(s, st) == (st == d), "strides reported %scontiguous", st == d ? "not " : "");
  CHECK(same(getDefaultStrides(s), d), "default strides %s, not %s", S(ArrayRef<int64_t>(getDefaultStrides(s))), S(d));
  CHECK(same(getSplatStrides(s), V(s.size(), 0)), "splat strides are not zero");
  CHECK(areStridesSplat(st) == std::all_of(st.begin(), st.end(), [](int64_t x) { return x == 0; }), "splat misreported");
  positions(s, st, "view");
  int64_t n = num(s);
  if (std::all_of(s.begin(), s.end(), [](int64_t x) { return x > 0; })) for (int64_t k = 0; k < n; ++k) {
    V c = coords(s, k);
    auto u = unflattenIndex(s, k);
    CHECK(u.size() == s.size() && std::equal(c.begin(), c.end(), u.begin()), "position %ld is coordinates %s, not %s", (long)k, S(ArrayRef<uint64_t>(u)), S(c));
  }
  /* transposition and its inverse */
  U p(s.size());
  for (size_t i = 0; i < p.size(); ++i) p[i] = i;
  for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[rnd() % i]);
  V ts(s.size()), tt(s.size()), us(s.size());
  for (size_t i = 0; i < p.size(); ++i) { ts[i] = s[p[i]]; tt[i] = st[p[i]]; us[p[i]] = s[i]; }
  CHECK(same(transposeDims(s, p), ts) && same(transposeDims(st, p), tt), "transposition by %s", S(ArrayRef<uint64_t>(p)));
  CHECK(same(untransposeDims(s, p), us) && same(untransposeDims(ts, p), s), "inverse transposition by %s", S(ArrayRef<uint64_t>(p)));
  /* expansion */
  V es(rndr(0, 3), 0), ee;
  for (auto &x : es) x = rndr(1, 3);
  ee = es;
  V want(es.size(), 0);
  want.insert(want.end(), st.begin(), st.end());
  es.insert(es.end(), s.begin(), s.end());
  CHECK(same(expandStrides(st, es), want), "expansion to %s", S(es));
  walk<1>(s, {st}); walk<2>(s, {st, d}); walk<2>(ts, {tt, dflt(ts)}); walk<3>(es, {want, dflt(es), want});
  switch (rnd() % 4) {
  case 0: copyView<uint8_t>(es, st, total); copyView<uint64_t>(ts, tt, total); break;
  case 1: copyView<uint16_t>(es, st, total); copyView<uint32_t>(ts, tt, total); break;
  case 2: copyView<uint32_t>(es, st, total); copyView<uint8_t>(ts, tt, total); break;
  default: copyView<uint64_t>(es, st, total); copyView<uint16_t>(ts, tt, total);
  }
}

/* a random view: the strides of a dense tensor, transposed, with broadcast dimensions */
static void view(int maxrank, int maxdim, V &s, V &st, int64_t &total, bool regular) {
  int r = (int)rndr(0, maxrank);
  V base(r);
  for (auto &x : base) x = rndr(1, maxdim);
  V d = dflt(base);
  total = num(base);
  U p(r);
  for (int i = 0; i < r; ++i) p[i] = i;
  if (rnd() % 3 == 0) for (int i = r; i > 1; --i) std::swap(p[i - 1], p[rnd() % i]);
  s.clear(); st.clear();
  for (int i = 0; i < r; ++i) {
    if (rnd() % 5 == 0 && (int)s.size() < maxrank) { s.push_back(rndr(1, maxdim)); st.push_back(0); }
    if ((int)s.size() == maxrank) break;
    s.push_back(base[p[i]]);
    st.push_back(rnd() % 8 == 0 ? 0 : d[p[i]]);
  }
  if (!regular && rnd() % 4 == 0 && !st.empty()) { size_t i = rnd() % st.size(); int64_t x = rndr(0, 3); st[i] = s[i] == 1 ? 0 : x; }
  int64_t last = 0;
  for (size_t i = 0; i < s.size(); ++i) last += (s[i] - 1) * st[i];
  total = std::max<int64_t>(last + 1, 1);
}

int main(int argc, char **argv) {
  mon_init(argc, argv);
  long n = mon_arg(argc, argv, "n", 2000);
  int64_t big = mon_arg(argc, argv, "big", 24);
  one({}, {}, 1);
  for (V s : {V{0}, V{2, 0, 3}, V{1, 0}, V{0, 1, 1}}) { CUR("empty shape %s", S(s)); CHECK(same(getDefaultStrides(s), dflt(s)) && areStridesContiguous(s, dflt(s)), "default strides"); V st(s.size(), 0); auto r = reshapeStrides(s, dflt(s), V{0, 5}); CHECK(r && r->size() == 2, "reshape of an empty tensor"); }
  for (long k = 0; k < n; ++k) {
    V s, st; int64_t total;
    view(k % 8 == 7 ? 9 : 5, k % 3 ? 4 : 6, s, st, total, false);
    if (num(s) > 3000) continue;
    one(s, st, total);
    one(s, dflt(s), num(s));
  }
  /* every reshaping of small views */
  long m = 0;
  for (long k = 0; k < n; ++k) {
    V s, st; int64_t total;
    view(5, 4, s, st, total, k % 2);
    int64_t e = num(s);
    if (e > big * 4) continue;
    std::vector<V> to; V cur;
    shapes(e, 5, cur, to);
    size_t lim = std::min<size_t>(to.size(), 40);
    for (size_t i = 0; i < lim; ++i, ++m) reshape(s, st, to[lim < to.size() ? rnd() % to.size() : i]);
  }
  /* systematic: every shape of at most 3 dimensions of 1..3 with every stride in 0..6 */
  for (int a = 0; a < 27; ++a) for (int b = 0; b < 343; ++b) {
    if ((a * 343 + b) % mon_parts != mon_part) continue;
    V s{1 + a % 3, 1 + a / 3 % 3, 1 + a / 9}, st{b % 7, b / 7 % 7, b / 49};
    if (!wellFormed(s, st)) continue;
    std::vector<V> to; V cur;
    shapes(num(s), 4, cur, to);
    for (auto &t : to) reshape(s, st, t);
    CUR("shape %s strides %s", S(s), S(st));
    CHECK(areStridesContiguous(s, st) == (st == dflt(s)), "strides misreported");
  }
  return mon_done();
}
