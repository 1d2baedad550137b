/* Monitor of C14 and C15: constants built, viewed lazily and folded by ElementsAttrBuilder against element-by-element enumeration;
   MLIR's own DenseElementsAttr, APInt and APFloat are the independent readers and writers. */
#include "mon.h"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.hpp"
#include "mlir/IR/Builders.h"
#include "mlir/IR/BuiltinTypes.h"
#include "llvm/ADT/APSInt.h"
#include "src/Support/TypeUtilities.hpp"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/MLIRContext.h"
#include "mlir/IR/OwningOpRef.h"
#include <cmath>
#include <functional>
#include <string>
#include <vector>
/* libMLIR is not instrumented: its arenas are not poisoned, its containers not annotated */
extern "C" const char *__asan_default_options() { return "allow_user_poisoning=0:detect_container_overflow=0:detect_leaks=0"; }
using namespace mlir;
using namespace onnx_mlir;
typedef std::vector<int64_t> V;
struct TestDialect : Dialect {
  TestDialect(MLIRContext *c) : Dialect("vt", c, TypeID::get<TestDialect>()) { addAttributes<DisposableElementsAttr>(); addInterface<DisposablePool>(c); allowUnknownOperations(); }
  static StringRef getDialectNamespace() { return "vt"; }
};
struct Ty { const char *n; BType bt; char k; unsigned w; Type t; const llvm::fltSemantics *sem; };
static MLIRContext *ctx;
static DisposablePool *pool;
static ElementsAttrBuilder *B;
static std::vector<Ty> TY;
enum { I1, I8, I16, I32, I64, U8, U16, U32, U64, F16, BF16, F32, F64, E4FN, E4FNUZ, E5, E5FNUZ, NTY };
static void fresh() {
  if (ctx) { delete B; pool->garbageCollectUnreachable(ModuleOp::create(UnknownLoc::get(ctx)), {}); delete ctx; }
  ctx = new MLIRContext; ctx->getOrLoadDialect<TestDialect>(); ctx->allowUnregisteredDialects();
  pool = DisposablePool::get<TestDialect>(ctx);
  B = new ElementsAttrBuilder(*pool);
  auto i = [](unsigned w, bool u) -> Type { return u ? IntegerType::get(ctx, w, IntegerType::Unsigned) : IntegerType::get(ctx, w); };
  auto f = [](const char *n, BType b, FloatType t) { return Ty{n, b, 'f', t.getWidth(), t, &t.getFloatSemantics()}; };
  TY = {{"i1", BType::BOOL, 'u', 1, i(1, 0)}, {"i8", BType::INT8, 's', 8, i(8, 0)}, {"i16", BType::INT16, 's', 16, i(16, 0)}, {"i32", BType::INT32, 's', 32, i(32, 0)}, {"i64", BType::INT64, 's', 64, i(64, 0)},
      {"ui8", BType::UINT8, 'u', 8, i(8, 1)}, {"ui16", BType::UINT16, 'u', 16, i(16, 1)}, {"ui32", BType::UINT32, 'u', 32, i(32, 1)}, {"ui64", BType::UINT64, 'u', 64, i(64, 1)},
      f("f16", BType::FLOAT16, Float16Type::get(ctx)), f("bf16", BType::BFLOAT16, BFloat16Type::get(ctx)), f("f32", BType::FLOAT, Float32Type::get(ctx)), f("f64", BType::DOUBLE, Float64Type::get(ctx)),
      f("f8E4M3FN", BType::FLOAT8E4M3FN, Float8E4M3FNType::get(ctx)), f("f8E4M3FNUZ", BType::FLOAT8E4M3FNUZ, Float8E4M3FNUZType::get(ctx)), f("f8E5M2", BType::FLOAT8E5M2, Float8E5M2Type::get(ctx)),
      f("f8E5M2FNUZ", BType::FLOAT8E5M2FNUZ, Float8E5M2FNUZType::get(ctx))};
}
static void collect() { pool->garbageCollectUnreachable(ModuleOp::create(UnknownLoc::get(ctx)), {}); }
/* one number, in the widened kind of its type */
union N { double d; int64_t s; uint64_t u; };
static N ofd(double d) { N n; n.d = d; return n; }
static N ofs(int64_t s) { N n; n.s = s; return n; }
static N mk(const Ty &t, int64_t v) { return t.k == 'f' ? ofd((double)v) : ofs(v); }
static bool same(char k, N a, N b) { return k == 'f' ? (std::isnan(a.d) ? std::isnan(b.d) : a.d == b.d && (a.d != 0 || std::signbit(a.d) == std::signbit(b.d))) : a.u == b.u; }
static std::string T(char k, N a) { return k == 'f' ? std::to_string(a.d) : k == 's' ? std::to_string(a.s) : std::to_string(a.u); }
static std::string T(const V &v) { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]); return s + ")"; }
#define S(x) (x).c_str()
static N rd(const Ty &, const APFloat &f) { APFloat g = f; bool l; g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return ofd(g.convertToDouble()); }
static N rd(const Ty &t, const APInt &i) { N n; if (t.k == 's') n.s = i.getSExtValue(); else n.u = i.getZExtValue(); return n; }
static APFloat apf(const Ty &t, N n) { APFloat f(n.d); bool l; f.convert(*t.sem, APFloat::rmNearestTiesToEven, &l); return f; }
static APInt api(const Ty &t, N n) { return APInt(t.w, t.w == 64 ? n.u : n.u & ((1ull << t.w) - 1)); }
static WideNum wide(N n) { WideNum w; w.u64 = n.u; return w; }
static N unwide(WideNum w) { N n; n.u = w.u64; return n; }
static int64_t num(const V &s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
static V coords(const V &s, int64_t k) { V r(s.size()); for (size_t i = s.size(); i--;) { r[i] = k % s[i]; k /= s[i]; } return r; }
static int64_t flat(const V &s, const V &c) { int64_t k = 0; for (size_t i = 0; i < s.size(); ++i) k = k * s[i] + c[i]; return k; }
/* c in a bigger shape, read in s */
static int64_t bflat(const V &s, const V &c) { int64_t k = 0; size_t o = c.size() - s.size(); for (size_t i = 0; i < s.size(); ++i) k = k * s[i] + (s[i] == 1 ? 0 : c[o + i]); return k; }
struct X { ElementsAttr a; int ty; V s; std::vector<N> v; std::string d; const Ty &t() const { return TY[ty]; } int64_t n() const { return num(s); } };
static ShapedType type(int ty, const V &s) { return RankedTensorType::get(s, TY[ty].t); }
static std::string txt(const X &x) {
  std::string r = x.d + ":" + x.t().n + T(x.s) + "{";
  for (size_t i = 0; i < x.v.size() && i < 12; ++i) r += (i ? "," : "") + T(x.t().k, x.v[i]);
  return r + "}";
}

static void doing(const X &x, const char *w, const V &p) { snprintf(mon_cur, sizeof mon_cur, "%s of %s to %s", w, txt(x).c_str(), T(p).c_str()); }

/* reads the constant in every way and compares */
static void observe(const X &x, const char *what, bool wideToo = true) {
  const Ty &t = x.t();
  CHECK((bool)x.a, "%s: no constant is made", what);
  auto st = x.a.getShapedType();
  CHECK(st.getElementType() == t.t, "%s: the result has another element type than %s", what, t.n);
  CHECK(V(st.getShape().begin(), st.getShape().end()) == x.s, "%s: the result has shape %s, not %s", what, S(T(V(st.getShape().begin(), st.getShape().end()))), S(T(x.s)));
  int64_t n = x.n();
  auto cmp = [&](const char *how, int64_t i, N got) { CHECK(same(t.k, x.v[i], got), "%s: %s: element %s is %s, not %s", what, how, S(T(coords(x.s, i))), S(T(t.k, got)), S(T(t.k, x.v[i]))); };
  auto dis = dyn_cast<DisposableElementsAttr>(x.a);
  {
    DenseElementsAttr d = ElementsAttrBuilder::toDenseElementsAttr(x.a);
    CHECK((int64_t)d.getNumElements() == n, "%s: dense copy has %ld elements, not %ld", what, (long)d.getNumElements(), (long)n);
    int64_t i = 0;
    if (t.k == 'f') for (APFloat f : d.getValues<APFloat>()) cmp("dense copy", i++, rd(t, f));
    else for (APInt f : d.getValues<APInt>()) cmp("dense copy", i++, rd(t, f));
  }
  if (x.a.isSplat()) {
    CHECK(n >= 0, "splat");
    for (int64_t i = 0; i < n; ++i) cmp("marked as having one value", i, x.v[0]);
    if (wideToo && n) cmp("the one value", 0, unwide(getElementsSplatWideNum(x.a)));
  }
  if (n && dis) {
    for (int q = 0; q < 4; ++q) {
      int64_t i = rndr(0, n - 1);
      if (t.k == 'f') cmp("one element", i, rd(t, *(x.a.getValues<APFloat>().begin() + i)));
      else cmp("one element", i, rd(t, *(x.a.getValues<APInt>().begin() + i)));
      if (wideToo) cmp("one widened element", i, unwide(*(x.a.getValues<WideNum>().begin() + i)));
    }
    auto raw = dis.getRawBytes();
    unsigned bw = (t.w + 7) / 8;
    CHECK((int64_t)raw.get().size() == n * bw, "%s: %zu raw bytes for %ld elements of %u", what, raw.get().size(), (long)n, bw);
    for (int64_t i = 0; i < n; ++i) {
      uint64_t u = 0; memcpy(&u, raw.get().data() + i * bw, bw);
      if (t.w == 1) CHECK(u < 2, "%s: a truth value is stored as %lu", what, (unsigned long)u);
      if (t.k == 'f') cmp("raw bytes", i, rd(t, APFloat(*t.sem, APInt(t.w, u)))); else cmp("raw bytes", i, rd(t, APInt(t.w, u)));
    }
  }
  dispatchByBType(t.bt, [&](auto bt) {
    using C = CppType<bt>;
    if constexpr (!(isSmallFPType<C>)) {
      auto a = getElementsArray<C>(x.a);
      CHECK((int64_t)a.get().size() == n, "%s: array of %zu elements, not %ld", what, a.get().size(), (long)n);
      for (int64_t i = 0; i < n; ++i) { N g; if (t.k == 'f') g.d = (double)a.get()[i]; else if (t.k == 's') g.s = (int64_t)a.get()[i]; else g.u = (uint64_t)a.get()[i]; cmp("array", i, g); }
    }
  });
  if (!wideToo) return;
  {
    auto w = getElementsWideNums(x.a);
    CHECK((int64_t)w.get().size() == n, "%s: %zu widened numbers, not %ld", what, w.get().size(), (long)n);
    for (int64_t i = 0; i < n; ++i) cmp("widened", i, unwide(w.get()[i]));
    std::vector<WideNum> o(n + 2);
    o[0].u64 = o[n + 1].u64 = 0xA5A5A5A5A5A5A5A5ull;
    readElementsWideNums(x.a, MutableArrayRef<WideNum>(o.data() + 1, n));
    for (int64_t i = 0; i < n; ++i) cmp("read widened", i, unwide(o[i + 1]));
    CHECK(o[0].u64 == 0xA5A5A5A5A5A5A5A5ull && o[n + 1].u64 == 0xA5A5A5A5A5A5A5A5ull, "%s: reading writes outside the destination", what);
  }
}

/* values every operation below keeps exact: -4..4, 0..7 or truth values */
static int64_t lo(const Ty &t) { return t.k == 'u' ? 0 : -4; }
static int64_t hi(const Ty &t) { return t.w == 1 ? 1 : t.k == 'u' ? 7 : 4; }
static N value(const Ty &t) { return mk(t, rndr(lo(t), hi(t))); }
/* any bit pattern of the type */
static N wild(const Ty &t) {
  uint64_t u = rnd();
  int q = rndr(0, 5);
  if (q == 0) u = 0; else if (q == 1) u = ~0ull; else if (q == 2) u = 1ull << (t.w - 1); else if (q == 3) u = (1ull << (t.w - 1)) - 1;
  if (t.k != 'f') return rd(t, APInt(t.w, t.w == 64 ? u : u & ((1ull << t.w) - 1)));
  APFloat f(*t.sem, APInt(t.w, t.w == 64 ? u : u & ((1ull << t.w) - 1)));
  if (f.isNaN()) return ofd(NAN);
  return rd(t, f);
}
static V shape(int maxr = 4, int maxd = 3, bool zero = false) { V s(rndr(0, maxr)); for (auto &d : s) d = rndr(zero && rndr(0, 9) == 0 ? 0 : 1, maxd); return s; }

static DenseElementsAttr dense(int ty, const V &s, const std::vector<N> &v) {
  const Ty &t = TY[ty];
  if (t.k == 'f') { std::vector<APFloat> a; for (N n : v) a.push_back(apf(t, n)); return DenseElementsAttr::get(type(ty, s), a); }
  std::vector<APInt> a; for (N n : v) a.push_back(api(t, n)); return DenseElementsAttr::get(type(ty, s), a);
}
static X base(int ty, const V &s, bool any = false) {
  const Ty &t = TY[ty];
  X x{nullptr, ty, s, {}, ""};
  int64_t n = num(s);
  bool one = rndr(0, 4) == 0;
  N c = any ? wild(t) : value(t);
  for (int64_t i = 0; i < n; ++i) x.v.push_back(one ? c : any ? wild(t) : value(t));
  int rep = rndr(0, 4);
  if (n == 0 && rep == 1) rep = 0;
  unsigned bw = (t.w + 7) / 8;
  switch (rep) {
  case 0: x.d = "dense"; x.a = dense(ty, s, x.v); break;
  case 1: { x.d = "view of dense"; auto d = B->toDisposableElementsAttr(dense(ty, s, x.v)); CHECK((bool)d, "a dense constant is not wrapped"); x.a = d; break; }
  case 2: {
    x.d = "buffer";
    auto m = llvm::WritableMemoryBuffer::getNewUninitMemBuffer(n * bw);
    for (int64_t i = 0; i < n; ++i) { uint64_t u = (t.k == 'f' ? apf(t, x.v[i]).bitcastToAPInt() : api(t, x.v[i])).getZExtValue(); memcpy(m->getBufferStart() + i * bw, &u, bw); }
    x.a = B->fromMemoryBuffer(type(ty, s), std::move(m)); break;
  }
  case 3: x.d = "wide numbers"; x.a = B->fromWideNums(type(ty, s), [&](MutableArrayRef<WideNum> d) { CHECK((int64_t)d.size() == n, "the filler is given %zu elements, not %ld", d.size(), (long)n); for (int64_t i = 0; i < n; ++i) d[i] = wide(x.v[i]); }); break;
  default:
    x.d = "array";
    dispatchByBType(t.bt, [&](auto bt) {
      using C = CppType<bt>;
      x.a = B->fromArray<C>(type(ty, s), [&](MutableArrayRef<C> d) {
        CHECK((int64_t)d.size() == n, "the filler is given %zu elements, not %ld", d.size(), (long)n);
        for (int64_t i = 0; i < n; ++i) { uint64_t u = (t.k == 'f' ? apf(t, x.v[i]).bitcastToAPInt() : api(t, x.v[i])).getZExtValue(); memcpy((void *)&d[i], &u, sizeof(C)); }
      });
    });
  }
  return x;
}
/* small one-to-one functions on the small values, one per kind */
static N step(const Ty &t, N n) {
  if (t.k == 'f') return ofd(n.d == 4 ? -4 : n.d + 1);
  if (t.w == 1) return ofs(1 - n.s);
  if (t.k == 's') return ofs(n.s == 4 ? -4 : n.s + 1);
  return ofs(7 - n.s);
}
static X transposed(const X &x) {
  size_t r = x.s.size();
  std::vector<uint64_t> p(r); for (size_t i = 0; i < r; ++i) p[i] = i;
  for (size_t i = r; i > 1; --i) std::swap(p[i - 1], p[rndr(0, i - 1)]);
  doing(x, "transpose", V(p.begin(), p.end()));
  X y{B->transpose(x.a, p), x.ty, V(r), {}, x.d + ".transpose("};
  for (size_t i = 0; i < r; ++i) { y.s[i] = x.s[p[i]]; y.d += (i ? "," : "") + std::to_string(p[i]); }
  y.d += ")";
  for (int64_t k = 0; k < y.n(); ++k) { V c = coords(y.s, k), o(r); for (size_t i = 0; i < r; ++i) o[p[i]] = c[i]; y.v.push_back(x.v[flat(x.s, o)]); }
  return y;
}
static X reshaped(const X &x) {
  int64_t n = x.n();
  V s;
  if (n == 0) { s = x.s; if (rndr(0, 1)) s.push_back(rndr(1, 3)); else s.insert(s.begin(), rndr(1, 3)); }
  else { int64_t m = n; while (m > 1) { V ds; for (int64_t d = 2; d <= m; ++d) if (m % d == 0) ds.push_back(d); int64_t d = ds[rndr(0, ds.size() - 1)]; s.insert(s.begin() + rndr(0, s.size()), d); m /= d; }
    while (rndr(0, 2) == 0) s.insert(s.begin() + rndr(0, s.size()), 1); }
  doing(x, "reshape", s);
  return X{B->reshape(x.a, s), x.ty, s, x.v, x.d + ".reshape" + T(s)};
}
static X expanded(const X &x) {
  V s = x.s;
  for (auto &d : s) if (d == 1) d = rndr(rndr(0, 30) ? 1 : 0, 3);
  while (s.size() < 5 && rndr(0, 2) == 0) s.insert(s.begin(), rndr(1, 3));
  doing(x, "expand", s);
  X y{B->expand(x.a, s), x.ty, s, {}, x.d + ".expand" + T(s)};
  for (int64_t k = 0; k < y.n(); ++k) y.v.push_back(x.v[bflat(x.s, coords(s, k))]);
  return y;
}
static X stepped(const X &x) {
  const Ty *t = &x.t();
  X y{B->transform(x.a, t->t, [t](WideNum n) { return wide(step(*t, unwide(n))); }), x.ty, x.s, {}, x.d + ".step"};
  for (N n : x.v) y.v.push_back(step(*t, n));
  return y;
}
static X cast(const X &x, int to) {
  X y{B->castElementType(x.a, TY[to].t), to, x.s, {}, x.d + ".cast(" + TY[to].n + ")"};
  for (N n : x.v) { int64_t i = x.t().k == 'f' ? (int64_t)n.d : n.s; y.v.push_back(mk(TY[to], TY[to].w == 1 ? i != 0 : i)); }
  return y;
}
static bool fits(const X &x, int to) {
  const Ty &t = TY[to];
  for (N n : x.v) { int64_t i = x.t().k == 'f' ? (int64_t)n.d : n.s; if (t.w != 1 && (i < lo(t) || i > hi(t))) return false; if (x.t().k == 'f' && n.d == 0 && std::signbit(n.d)) return false; }
  return true;
}
/* a constant behind a random chain of views; only moving ones for arbitrary bit patterns */
static X make(int ty, V s, bool any = false, int depth = 3) {
  X x = base(ty, s, any);
  for (int k = rndr(0, depth); k-- > 0;) {
    switch (rndr(0, any ? 3 : 6)) {
    case 0: x = transposed(x); break;
    case 1: x = reshaped(x); break;
    case 2: if (x.n() < 200) x = expanded(x); break;
    case 3: if (rndr(0, 1)) { x.a = ElementsAttrBuilder::toDenseElementsAttr(x.a); x.d += ".dense"; } else { auto d = B->toDisposableElementsAttr(x.a); CHECK((bool)d, "not wrapped"); x.a = d; x.d += ".view"; } break;
    case 4: x = stepped(x); break;
    default: { int to = rndr(0, NTY - 1); if (fits(x, to)) x = cast(x, to); }
    }
  }
  return x;
}
/* a constant of a given type and shape behind views */
static X makeAs(int ty, const V &s) {
  int64_t n = num(s);
  X x = base(ty, s);
  for (int k = rndr(0, 2); k-- > 0;) {
    switch (rndr(0, 3)) {
    case 0: { // transpose there: build it in a permuted shape
      V p = s; for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[rndr(0, i - 1)]);
      X b = base(ty, p);
      for (int q = 0; q < 40; ++q) { X y = transposed(b); if (y.s == s) { x = y; break; } }
      break;
    }
    case 1: { X y = reshaped(x); x = X{B->reshape(y.a, s), ty, s, y.v, y.d + ".reshape" + T(s)}; break; }
    case 2: { V b = s; for (auto &d : b) if (d > 0 && rndr(0, 1)) d = 1; X y = base(ty, b);
      if (rndr(0, 1)) while (!y.s.empty() && y.s[0] == 1 && rndr(0, 1)) { y.s.erase(y.s.begin()); y.a = B->reshape(y.a, y.s); }
      X z{B->expand(y.a, s), ty, s, {}, y.d + T(y.s) + ".expand" + T(s)}; for (int64_t k = 0; k < n; ++k) z.v.push_back(y.v[bflat(y.s, coords(s, k))]); x = z; break; }
    default: x = stepped(x);
    }
  }
  return x;
}
static N pick(char k, N a, N b) { /* not symmetric; stays within the values */
  bool p = k == 'f' ? a.d > 0 : k == 's' ? a.s > 0 : a.u > 0, q = k == 'f' ? b.d > a.d : k == 's' ? b.s > a.s : b.u > a.u;
  return p ? b : q ? a : b;
}
template <char K> static WideNum pickw(WideNum a, WideNum b) { return wide(pick(K, unwide(a), unwide(b))); }
template <char K> static WideNum sumw(WideNum a, WideNum b) { return wide(K == 'f' ? ofd(unwide(a).d + unwide(b).d) : ofs((int64_t)(a.u64 + b.u64))); }
template <char K> static WideNum maxw(WideNum a, WideNum b) { N x = unwide(a), y = unwide(b); return wide((K == 'f' ? x.d < y.d : K == 's' ? x.s < y.s : x.u < y.u) ? y : x); }
typedef WideNum (*Fn)(WideNum, WideNum);
#define KFN(f, k) ((k) == 'f' ? (Fn)f<'f'> : (k) == 's' ? (Fn)f<'s'> : (Fn)f<'u'>)
static V bshape(const V &a, const V &b) { V r(std::max(a.size(), b.size())); for (size_t i = 0; i < r.size(); ++i) { int64_t x = i + a.size() < r.size() ? 1 : a[i + a.size() - r.size()], y = i + b.size() < r.size() ? 1 : b[i + b.size() - r.size()]; r[i] = x == 1 ? y : x; } return r; }
/* a shape that broadcasts to s */
static V part(const V &s) { V r = s; for (auto &d : r) if (rndr(0, 2) == 0) d = 1; while (!r.empty() && rndr(0, 3) == 0) r.erase(r.begin()); return r; }
static int arith() { static const int a[] = {I16, I32, I64, U16, U32, U64, F16, BF16, F32, F64}; return a[rndr(0, 9)]; }

static void one(long it) {
  int ty = rndr(0, NTY - 1);
  int op = it % 21;
  switch (op) {
  case 0: { X x = make(ty, shape(4, 3, true), true); CUR("views %s", S(txt(x))); observe(x, "moved elements"); break; }
  case 1: case 2: { X x = make(ty, shape(4, 3, true), false, 5); CUR("chain %s", S(txt(x))); observe(x, "chain of views"); break; }
  case 3: { // combine
    V s = shape(4, 3, true), a = part(s), b = part(s);
    X x = makeAs(ty, a), y = makeAs(ty, b); s = bshape(a, b);
    if (rndr(0, 3) == 0) { while (s.size() < 4) s.insert(s.begin(), rndr(1, 2)); }
    CUR("combine %s with %s to %s", S(txt(x)), S(txt(y)), S(T(s)));
    X z{B->combine(x.a, y.a, cast<ShapedType>(type(ty, s)), KFN(pickw, x.t().k)), ty, s, {}, ""};
    for (int64_t k = 0; k < num(s); ++k) { V c = coords(s, k); z.v.push_back(pick(x.t().k, x.v[bflat(a, c)], y.v[bflat(b, c)])); }
    observe(z, "combine"); break;
  }
  case 4: { // where
    V s = shape(4, 3, true), q = part(s), a = part(s), b = part(s);
    X c = makeAs(I1, q), x = makeAs(ty, a), y = makeAs(ty, b); s = bshape(bshape(q, a), b);
    CUR("where %s then %s else %s", S(txt(c)), S(txt(x)), S(txt(y)));
    X z{B->where(c.a, x.a, y.a, type(ty, s)), ty, s, {}, ""};
    for (int64_t k = 0; k < num(s); ++k) { V i = coords(s, k); z.v.push_back(c.v[bflat(q, i)].u ? x.v[bflat(a, i)] : y.v[bflat(b, i)]); }
    observe(z, "where"); break;
  }
  case 5: { // conversions of any value to an integer
    int to = rndr(0, U64); const Ty &t = TY[to];
    V s = shape(2);
    X x = base(ty, s, true);
    if (x.t().k == 'f') for (size_t i = 0; i < x.v.size(); ++i) if (rndr(0, 1)) x.v[i] = rd(x.t(), apf(x.t(), ofd(rndr(0, 3) == 0 ? ldexp(rndr(0, 1) ? 1 : 1 + rndr(0, 4095) / 4096.0, rndr(0, 64)) * (rndr(0, 1) ? 1 : -1) : rndr(-40, 40) / 4.0)));
    x.a = rndr(0, 1) ? (ElementsAttr)dense(ty, s, x.v) : (ElementsAttr)B->toDisposableElementsAttr(dense(ty, s, x.v));
    bool round = rndr(0, 1);
    CUR("cast to %s %s of %s", t.n, round ? "rounding" : "truncating", S(txt(x)));
    X z{B->castToIntElementType(x.a, cast<IntegerType>(t.t), round), to, s, {}, ""};
    for (N n : x.v) {
      N r;
      if (t.w == 1) r.u = x.t().k == 'f' ? !(n.d == 0) : n.u != 0;
      else if (x.t().k == 'f') { APSInt a(t.w, t.k == 'u'); bool e; APFloat(n.d).convertToInteger(a, round ? APFloat::rmNearestTiesToEven : APFloat::rmTowardZero, &e); r = rd(t, a); }
      else r = rd(t, api(t, n));
      z.v.push_back(r);
    }
    if (ty != to) observe(z, "conversion to integer", false);
    break;
  }
  case 6: { // conversions to floating point
    int to = rndr(F16, E5FNUZ); const Ty &t = TY[to];
    V s = shape(2);
    X x = base(ty, s, true);
    bool sat = rndr(0, 1);
    double mx = APFloat::getLargest(*t.sem).convertToDouble();
    for (auto &n : x.v) { // numbers a float holds, within the target unless it saturates
      if (x.t().k == 'f') { if (!std::isnan(n.d)) { n.d = (double)(float)n.d; if (!sat && !(fabs(n.d) <= mx)) n = ofd(fmod(n.d, mx / 2)), n.d = std::isnan(n.d) ? 1 : (double)(float)n.d; n = rd(x.t(), apf(x.t(), n)); n.d = (double)(float)n.d; if (!sat && !(fabs(n.d) <= mx)) n.d = 1; if (sat && std::isinf(n.d)) n.d = 1; n = rd(x.t(), apf(x.t(), n)); } }
      else { n = x.t().k == 's' ? ofs(n.s % 4096) : ofs((int64_t)(n.u % 4096)); n = rd(x.t(), api(x.t(), n)); if (!sat && fabs((double)n.s) > mx) n = ofs(1); }
      if (x.t().k == 'f' && std::isnan(n.d) && (to == E4FN || x.t().w == 8)) n.d = NAN;
    }
    x.a = rndr(0, 1) ? (ElementsAttr)dense(ty, s, x.v) : (ElementsAttr)B->toDisposableElementsAttr(dense(ty, s, x.v));
    CUR("cast to %s %s of %s", t.n, sat ? "saturating" : "", S(txt(x)));
    X z{B->castToFPElementType(x.a, cast<FloatType>(t.t), sat), to, s, {}, ""};
    for (N n : x.v) { double d = x.t().k == 'f' ? n.d : x.t().k == 's' ? (double)n.s : (double)n.u; if (sat) d = d <= -mx ? -mx : d >= mx ? mx : d; z.v.push_back(rd(t, apf(t, ofd(d)))); }
    if (ty != to) observe(z, "conversion to floating point", false);
    break;
  }
  case 7: { // clip
    if (ty == I1) ty = I8;
    X x = makeAs(ty, shape());
    N a = value(x.t()), b = value(x.t());
    CUR("clip %s to %s..%s", S(txt(x)), S(T(x.t().k, a)), S(T(x.t().k, b)));
    X z{B->clip(x.a, wide(a), wide(b)), ty, x.s, {}, ""};
    auto lt = [&](N p, N q) { return x.t().k == 'f' ? p.d < q.d : x.t().k == 's' ? p.s < q.s : p.u < q.u; };
    for (N n : x.v) z.v.push_back(lt(n, a) ? a : lt(b, n) ? b : n);
    observe(z, "clip"); break;
  }
  case 8: { // split
    V s = shape(4, 4, true); if (s.empty()) s.push_back(3);
    X x = makeAs(ty, s);
    size_t ax = rndr(0, s.size() - 1); V sz; int64_t left = s[ax];
    if (!left) sz = {0, 0};
    while (left > 0) { int64_t k = rndr(0, left); sz.push_back(k); left -= k; }
    CUR("split %s along %zu into %s", S(txt(x)), ax, S(T(sz)));
    auto r = B->split(x.a, ax, sz);
    CHECK(r.size() == sz.size(), "%zu parts, not %zu", r.size(), sz.size());
    int64_t off = 0;
    for (size_t q = 0; q < sz.size(); ++q) { V o = s; o[ax] = sz[q]; X z{r[q], ty, o, {}, ""}; for (int64_t k = 0; k < num(o); ++k) { V c = coords(o, k); c[ax] += off; z.v.push_back(x.v[flat(s, c)]); } observe(z, "part of a split"); off += sz[q]; }
    break;
  }
  case 9: { // concat
    V s = shape(4, 3, true); if (s.empty()) s.push_back(2);
    size_t ax = rndr(0, s.size() - 1); int m = rndr(1, 4); std::vector<X> xs; std::vector<ElementsAttr> as; V o = s; o[ax] = 0; std::string d;
    for (int q = 0; q < m; ++q) { V p = s; p[ax] = rndr(rndr(0, 5) == 0 ? 0 : 1, 3); xs.push_back(makeAs(ty, p)); as.push_back(xs[q].a); o[ax] += p[ax]; d += txt(xs[q]) + " "; }
    CUR("concat along %zu of %s", ax, S(d));
    X z{B->concat(as, ax), ty, o, {}, ""};
    for (int64_t k = 0; k < num(o); ++k) { V c = coords(o, k); size_t q = 0; while (c[ax] >= xs[q].s[ax]) c[ax] -= xs[q++].s[ax]; z.v.push_back(xs[q].v[flat(xs[q].s, c)]); }
    observe(z, "concat"); break;
  }
  case 10: { // slice
    V s = shape(4, 4); X x = makeAs(ty, s); size_t r = s.size(); V o(r), st(r), sp(r);
    for (size_t i = 0; i < r; ++i) { sp[i] = rndr(1, 3) * (rndr(0, 1) ? 1 : -1); st[i] = rndr(0, s[i] - 1); int64_t room = sp[i] > 0 ? (s[i] - 1 - st[i]) / sp[i] + 1 : st[i] / -sp[i] + 1; o[i] = rndr(rndr(0, 9) == 0 ? 0 : 1, room); }
    CUR("slice %s starts %s steps %s to %s", S(txt(x)), S(T(st)), S(T(sp)), S(T(o)));
    X z{B->slice(x.a, o, st, sp), ty, o, {}, ""};
    for (int64_t k = 0; k < num(o); ++k) { V c = coords(o, k); for (size_t i = 0; i < r; ++i) c[i] = st[i] + c[i] * sp[i]; z.v.push_back(x.v[flat(s, c)]); }
    observe(z, "slice"); break;
  }
  case 11: { // pad
    V s = shape(4, 3, true); size_t r = s.size(); X x = makeAs(ty, s); V p(2 * r), o = s; for (auto &d : p) d = rndr(0, 2);
    for (size_t i = 0; i < r; ++i) o[i] += p[i] + p[i + r];
    N v = value(x.t());
    CUR("pad %s by %s with %s", S(txt(x)), S(T(p)), S(T(x.t().k, v)));
    X z{B->pad(x.a, p, wide(v)), ty, o, {}, ""};
    for (int64_t k = 0; k < num(o); ++k) { V c = coords(o, k); bool in = true; for (size_t i = 0; i < r; ++i) { c[i] -= p[i]; in &= c[i] >= 0 && c[i] < s[i]; } z.v.push_back(in ? x.v[flat(s, c)] : v); }
    observe(z, "pad"); break;
  }
  case 12: { // gather
    V s = shape(3, 4); if (s.empty()) s.push_back(3);
    size_t ax = rndr(0, s.size() - 1); X x = makeAs(ty, s); V is = shape(2, 3, true); int it = rndr(0, 1) ? I32 : I64;
    X ix{nullptr, it, is, {}, "dense"};
    for (int64_t k = 0; k < num(is); ++k) ix.v.push_back(ofs(rndr(-s[ax], s[ax] - 1)));
    ix.a = dense(it, is, ix.v);
    if (rndr(0, 1)) ix.a = B->toDisposableElementsAttr(ix.a);
    if (rndr(0, 2) == 0) ix = transposed(ix), is = ix.s;
    CUR("gather along %zu of %s at %s", ax, S(txt(x)), S(txt(ix)));
    V o(s.begin(), s.begin() + ax); o.insert(o.end(), is.begin(), is.end()); o.insert(o.end(), s.begin() + ax + 1, s.end());
    X z{B->gather(x.a, ix.a, ax), ty, o, {}, ""};
    for (int64_t k = 0; k < num(o); ++k) { V c = coords(o, k), ic(c.begin() + ax, c.begin() + ax + is.size()); int64_t j = ix.v[flat(is, ic)].s; if (j < 0) j += s[ax];
      V q(c.begin(), c.begin() + ax); q.push_back(j); q.insert(q.end(), c.begin() + ax + is.size(), c.end()); z.v.push_back(x.v[flat(s, q)]); }
    observe(z, "gather"); break;
  }
  case 13: { // scatterND
    V s = shape(4, 3); if (s.empty()) s.push_back(3);
    X x = makeAs(ty, s); size_t nd = rndr(1, s.size()); V outer = shape(2, 2), is = outer; is.push_back(nd);
    X ix{nullptr, I64, is, {}, "dense"};
    int64_t m = num(outer);
    for (int64_t k = 0; k < m; ++k) for (size_t i = 0; i < nd; ++i) ix.v.push_back(ofs(rndr(0, s[i] - 1)));
    ix.a = dense(I64, is, ix.v);
    if (rndr(0, 1)) ix.a = B->toDisposableElementsAttr(ix.a);
    V us = outer; us.insert(us.end(), s.begin() + nd, s.end());
    X u = makeAs(ty, us);
    CUR("scatter into %s at %s from %s", S(txt(x)), S(txt(ix)), S(txt(u)));
    X z{B->scatterND(x.a, ix.a, u.a), ty, s, x.v, ""};
    int64_t sl = num(V(s.begin() + nd, s.end()));
    for (int64_t k = 0; k < m; ++k) { int64_t pos = 0; for (size_t i = 0; i < nd; ++i) pos = pos * s[i] + ix.v[k * nd + i].s; for (int64_t j = 0; j < sl; ++j) z.v[pos * sl + j] = u.v[k * sl + j]; }
    observe(z, "scatter"); observe(x, "the source of a scatter"); break;
  }
  case 14: { // reduce
    bool sum = rndr(0, 1); if (sum) ty = arith();
    V s = shape(4, 3); X x = makeAs(ty, s); std::vector<unsigned> ax; V o, keep = s; bool kd = rndr(0, 1);
    for (size_t i = 0; i < s.size(); ++i) if (rndr(0, 1)) { ax.push_back(i); keep[i] = 1; }
    for (size_t i = ax.size(); i > 1; --i) std::swap(ax[i - 1], ax[rndr(0, i - 1)]);
    for (size_t i = 0; i < s.size(); ++i) if (kd || std::find(ax.begin(), ax.end(), i) == ax.end()) o.push_back(keep[i]);
    CUR("reduce by %s %s keep=%d axes %s", sum ? "sum" : "max", S(txt(x)), kd, S(T(V(ax.begin(), ax.end()))));
    Fn f = sum ? KFN(sumw, x.t().k) : KFN(maxw, x.t().k);
    if (x.t().k == 'u' && sum && x.n() > 1000) break;
    X z{B->reduce(x.a, ax, kd, f), ty, ax.empty() ? s : o, std::vector<N>(num(keep)), ""};
    std::vector<char> set(num(keep));
    for (int64_t k = 0; k < x.n(); ++k) { V c = coords(s, k); int64_t q = bflat(keep, c); z.v[q] = set[q] ? unwide(f(wide(z.v[q]), wide(x.v[k]))) : x.v[k]; set[q] = 1; }
    observe(z, "reduce"); break;
  }
  case 15: { // matMul
    ty = arith();
    int64_t M = rndr(1, 3), K = rndr(0, 4), Nn = rndr(1, 3); V bt = shape(2, 2), la = part(bt), lb = part(bt); V a = la, b = lb;
    bool va = rndr(0, 4) == 0, vb = rndr(0, 4) == 0;
    if (va) a = {K}, la = {}; else a.push_back(M), a.push_back(K);
    if (vb) b = {K}, lb = {}; else b.push_back(K), b.push_back(Nn);
    X x = makeAs(ty, a), y = makeAs(ty, b); V o = bshape(la, lb), full = o; size_t nb = o.size();
    CUR("matmul %s by %s", S(txt(x)), S(txt(y)));
    if (!va) o.push_back(M); if (!vb) o.push_back(Nn);
    X z{B->matMul(x.a, y.a), ty, o, {}, ""};
    for (int64_t k = 0; k < num(o); ++k) { V c = coords(o, k), bc(c.begin(), c.begin() + nb); int64_t m = va ? 0 : c[nb], n = vb ? 0 : c[nb + !va]; N acc = mk(x.t(), 0);
      for (int64_t j = 0; j < K; ++j) { V p(bc.end() - la.size(), bc.end()), q(bc.end() - lb.size(), bc.end()); if (!va) p.push_back(m); p.push_back(j); q.push_back(j); if (!vb) q.push_back(n);
        N u = x.v[bflat(a, p)], v = y.v[bflat(b, q)]; if (x.t().k == 'f') acc.d += u.d * v.d; else acc.u += u.u * v.u; }
      z.v.push_back(acc); }
    observe(z, "matmul"); break;
  }
  case 16: { // range
    if (ty == I1) ty = I8;
    const Ty &t = TY[ty]; int64_t n = rndr(0, 5), a = rndr(0, 3), d = t.k == 'u' ? 1 : rndr(-1, 1);
    CUR("range of %ld %s from %ld by %ld", (long)n, t.n, (long)a, (long)d);
    X z{B->range(type(ty, {n}), wide(mk(t, a)), wide(mk(t, d))), ty, {n}, {}, ""};
    for (int64_t k = 0; k < n; ++k) z.v.push_back(mk(t, a + k * d));
    observe(z, "range"); break;
  }
  case 17: { // nonZero
    V s = shape(4, 3, true); X x = makeAs(ty, s);
    CUR("nonzero of %s", S(txt(x)));
    std::vector<V> at;
    for (int64_t k = 0; k < x.n(); ++k) if (x.t().k == 'f' ? x.v[k].d != 0 : x.v[k].u != 0) at.push_back(coords(s, k));
    X z{B->nonZero(x.a), I64, {(int64_t)s.size(), (int64_t)at.size()}, {}, ""};
    for (size_t j = 0; j < s.size(); ++j) for (auto &c : at) z.v.push_back(ofs(c[j]));
    observe(z, "nonzero"); break;
  }
  case 18: { // equality
    V s = shape(), b = part(s); X x = makeAs(ty, s), y = makeAs(ty, b);
    if (rndr(0, 2)) { // almost the same values
      std::vector<N> v; for (int64_t k = 0; k < x.n(); ++k) v.push_back(y.v[bflat(b, coords(s, k))]);
      if (rndr(0, 1)) { auto &n = v[rndr(0, v.size() - 1)]; n = value(x.t()); }
      x.v = v; x.a = rndr(0, 1) ? (ElementsAttr)dense(ty, s, v) : (ElementsAttr)B->toDisposableElementsAttr(dense(ty, s, v)); x.d = "near";
      if (rndr(0, 1)) { X q = transposed(x); std::swap(q.a, x.a); x.a = B->reshape(q.a, x.s); if (q.s != x.s) x.a = q.a; }
    }
    CUR("equal %s and %s", S(txt(x)), S(txt(y)));
    bool eq = true; for (int64_t k = 0; k < x.n(); ++k) eq &= same(x.t().k, x.v[k], y.v[bflat(b, coords(s, k))]);
    CHECK(ElementsAttrBuilder::equal(x.a, y.a) == eq, "equal() says %d", !eq);
    N c = rndr(0, 1) && !x.v.empty() ? x.v[rndr(0, x.v.size() - 1)] : value(x.t());
    bool all = true; for (N n : x.v) all &= same(x.t().k, n, c);
    CHECK(ElementsAttrBuilder::allEqual(x.a, wide(c)) == all, "allEqual() with %s says %d", S(T(x.t().k, c)), !all);
    break;
  }
  case 19: { // constants kept in a module survive collection and scrubbing
    if (it % 5) return;
    std::vector<X> xs; std::string d;
    OwningOpRef<ModuleOp> m(ModuleOp::create(UnknownLoc::get(ctx)));
    OpBuilder ob(m->getBodyRegion());
    X first = make(ty, shape(3, 3));
    int cnt = rndr(1, rndr(0, 3) ? 6 : 24);
    for (int q = 0; q < cnt; ++q) {
      X x = q % 3 == 1 ? transposed(first) : q % 3 == 2 ? stepped(first.ty == I1 ? first : first) : make(rndr(0, NTY - 1), shape(3, 3));
      xs.push_back(x); d += txt(x) + " ";
      OperationState os(UnknownLoc::get(ctx), "vt.constant"); os.addAttribute("value", (Attribute)x.a); ob.create(os);
    }
    for (int q = 0; q < 5; ++q) make(rndr(0, NTY - 1), shape(2, 2));
    CUR("keep in a module %s", S(d));
    DisposablePool::OpAttrPair pr[] = {{"vt.constant", "value"}};
    auto values = [&](const char *w, bool dn) { size_t q = 0; m->walk([&](Operation *o) { if (o->getName().getStringRef() != "vt.constant") return; X z = xs[q++]; z.a = cast<ElementsAttr>(o->getAttr("value")); if (dn) CHECK(isa<DenseElementsAttr>(z.a), "%s: a constant is still not dense", w); observe(z, w); }); };
    if (rndr(0, 1)) { pool->garbageCollectUnreachable(*m, pr); values("after collecting unreachable constants", false); }
    pool->scrub(*m, pr); values("after scrubbing", true);
    m = nullptr;
    if (rndr(0, 7) == 0) {
      pool->close();
      CHECK(!pool->isActive(), "closed but active");
      X z{nullptr, ty, {2, 3}, {}, ""};
      for (int q = 0; q < 6; ++q) z.v.push_back(value(z.t()));
      CHECK(!B->toDisposableElementsAttr(dense(ty, z.s, z.v)), "a closed pool still wraps constants");
      z.a = B->fromWideNums(type(ty, z.s), [&](MutableArrayRef<WideNum> w) { for (int q = 0; q < 6; ++q) w[q] = wide(z.v[q]); });
      CHECK(isa<DenseElementsAttr>(z.a), "a closed pool still holds constants");
      observe(z, "made after the pool is closed"); observe(transposed(z), "a view made after the pool is closed");
      fresh();
    }
    return;
  }
  default: { // big enough for several threads
    if (it / 21 % 6) return;
    int64_t a = rndr(20, 60), b = rndr(30, 80); V s = {a, b};
    X x = base(ty, s), y = stepped(x);
    CUR("big transform of %s%s", x.t().n, S(T(s)));
    observe(y, "transform of many elements");
    ty = rndr(0, 1) ? I64 : F64; X r = base(ty, s); Fn f = KFN(sumw, r.t().k); unsigned ax[] = {(unsigned)rndr(0, 1)};
    X z{B->reduce(r.a, ax, false, f), ty, {ax[0] ? a : b}, std::vector<N>(ax[0] ? a : b, mk(r.t(), 0)), ""};
    for (int64_t k = 0; k < r.n(); ++k) { N &n = z.v[coords(s, k)[1 - ax[0]]]; n = unwide(f(wide(n), wide(r.v[k]))); }
    CUR("big reduce of %s%s", r.t().n, S(T(s)));
    observe(z, "reduction of many elements");
  }
  }
  collect();
}
/* every value of every small type, alone and in a row, through every reader (C14) */
static void widths() {
  for (int ty = 0; ty < NTY; ++ty) {
    const Ty &t = TY[ty];
    CUR("tables for %s", t.n);
    CHECK(btypeOfMlirType(t.t) == t.bt && mlirTypeOfBType(t.bt, ctx) == t.t, "the element type and its tag do not map to each other");
    CHECK(onnxDataTypeOfBType(t.bt) == (int)t.bt && btypeOfOnnxDataType((int)t.bt) == t.bt, "the ONNX number and the tag do not map to each other");
    CHECK(bitwidthOfBType(t.bt) == t.w && bytewidthOfBType(t.bt) == (t.w + 7) / 8 && getIntOrFloatByteWidth(t.t) == (t.w + 7) / 8, "width");
    CHECK(isFloatBType(t.bt) == (t.k == 'f') && isIntBType(t.bt) == (t.k != 'f') && isSignedIntBType(t.bt) == (t.k == 's') && isUnsignedIntBType(t.bt) == (t.k == 'u'), "kind");
    CHECK(wideBTypeOfBType(t.bt) == (t.k == 'f' ? BType::DOUBLE : t.k == 's' ? BType::INT64 : BType::UINT64), "widened kind");
    X x{nullptr, ty, {}, {}, ""};
    for (uint64_t u = 0; u < (t.w > 16 ? 4096 : 1ull << t.w); ++u) {
      if (t.w > 16) x.v.push_back(wild(t));
      else if (t.k == 'f') { APFloat f(*t.sem, APInt(t.w, u)); x.v.push_back(rd(t, f)); }
      else x.v.push_back(rd(t, APInt(t.w, u)));
    }
    x.s = {(int64_t)x.v.size()};
    for (int rep = 0; rep < 3; ++rep) {
      CUR("every %s value, representation %d", t.n, rep);
      x.a = dense(ty, x.s, x.v);
      if (rep == 1) x.a = B->toDisposableElementsAttr(x.a);
      if (rep == 2) x.a = B->fromWideNums(type(ty, x.s), [&](MutableArrayRef<WideNum> d) { for (size_t i = 0; i < d.size(); ++i) d[i] = wide(x.v[i]); });
      observe(x, "every value");
    }
    for (size_t i = 0; i < x.v.size(); ++i) {
      N n = x.v[i];
      if (t.k == 'f') { APFloat f = wide(n).toAPFloat(t.bt); CHECK(&f.getSemantics() == t.sem && same('f', rd(t, f), n) && same('f', unwide(WideNum::fromAPFloat(f)), n), "conversion to and from APFloat of %s", S(T('f', n))); }
      else { APInt f = wide(n).toAPInt(t.bt); CHECK(f.getBitWidth() == t.w && same(t.k, rd(t, f), n) && same(t.k, unwide(WideNum::fromAPInt(f, t.k == 's')), n), "conversion to and from APInt of %s", S(T(t.k, n))); }
      CUR("conversions of the %s %s", t.n, S(T(t.k, n)));
      WideNum w = wide(n);
      double d = t.k == 'f' ? n.d : t.k == 's' ? (double)n.s : (double)n.u;
      CHECK(same('f', ofd(w.to<double>(t.bt)), ofd(d)), "as a double it is %.17g", w.to<double>(t.bt));
      CHECK(w.to<bool>(t.bt) == (d != 0), "as a truth value it is %d", (int)w.to<bool>(t.bt));
      if (t.k != 'f' || std::fabs(d) < 9e18) { int64_t e = t.k == 'f' ? (int64_t)d : n.s; CHECK(w.to<int64_t>(t.bt) == e, "as an int64_t it is %ld", (long)w.to<int64_t>(t.bt)); CHECK(WideNum::from<int64_t>(t.bt, e).u64 == wide(t.k == 'f' ? ofd((double)e) : ofs(e)).u64, "an int64_t is taken as another number"); }
      if (t.k != 'f' || (d > -1 && d < 1.8e19)) { uint64_t e = t.k == 'f' ? (uint64_t)d : n.u; CHECK(w.to<uint64_t>(t.bt) == e, "as an uint64_t it is %lu", (unsigned long)w.to<uint64_t>(t.bt)); CHECK(WideNum::from<uint64_t>(t.bt, e).u64 == wide(t.k == 'f' ? ofd((double)e) : ofs((int64_t)e)).u64, "an uint64_t is taken as another number"); }
      if (t.k == 'f') CHECK(same('f', unwide(WideNum::from<double>(t.bt, d)), n), "a double is taken as another number");
    }
    collect();
  }
}
/* conversions to every integer type at and around every power of two, in halves, and anywhere (C15) */
static void casts() {
  for (int to = 0; to <= U64; ++to) for (int src = F32; src <= F64; ++src) for (int round = 0; round < 2; ++round) {
    const Ty &t = TY[to];
    X x{nullptr, src, {}, {}, ""};
    auto put = [&](double d) { for (double v : {d, -d}) x.v.push_back(src == F64 ? ofd(v) : ofd((double)(float)v)); };
    for (int e = -2; e <= 65; ++e) { double p = ldexp(1, e); put(p); put(nextafter(p, 0)); put(nextafter(p, INFINITY)); put(p * 1.25); put(p * 1.5); put(p * 1.75); put(p - 0.5); put(p + 0.5); put(p - 1); put(p - 1.5); put(p * (1 + rndr(0, 1 << 30) / (double)(1 << 30))); }
    for (int k = 0; k < 64; ++k) put(k / 4.0);
    put(INFINITY); put(NAN); put(1e300); put(5e-324);
    x.s = {(int64_t)x.v.size()};
    CUR("cast to %s %s of %s around powers of two", t.n, round ? "rounding" : "truncating", x.t().n);
    X z{nullptr, to, x.s, {}, ""};
    for (N n : x.v) { N r; if (t.w == 1) r.u = !(n.d == 0); else { APSInt a(t.w, t.k == 'u'); bool e; APFloat(n.d).convertToInteger(a, round ? APFloat::rmNearestTiesToEven : APFloat::rmTowardZero, &e); r = rd(t, a); } z.v.push_back(r); }
    z.a = B->castToIntElementType(dense(src, x.s, x.v), cast<IntegerType>(t.t), round);
    auto w = getElementsWideNums(z.a);
    for (size_t i = 0; i < x.v.size(); ++i) CHECK(same(t.k, unwide(w.get()[i]), z.v[i]), "%.17g becomes %s, not %s", x.v[i].d, S(T(t.k, unwide(w.get()[i]))), S(T(t.k, z.v[i])));
    observe(z, "conversion to integer", false);
    collect();
  }
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  fresh();
  if (mon_part == 0 || mon_parts == 1) widths();
  if (mon_part == 1 || mon_parts == 1) casts();
  long n = mon_arg(argc, argv, "n", 4000);
  for (long i = 0; i < n; ++i) { one(i); if (i % 500 == 499) fresh(); }
  return mon_done();
}
