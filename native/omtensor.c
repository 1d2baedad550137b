/* Monitor of the tensor / tensor list API: C01 (mode=1) and C02 (mode=2). */
#define MON_ALLOC 1
#include "mon.h"
#include "OnnxMlirRuntime.h"
OMTensor *omTensorCreateUntyped(int64_t rank);
void omTensorSetDataPtr(OMTensor *, int64_t, void *, void *);
void omTensorListDestroyShallow(OMTensorList *);
FILE *getInstrumentFile(bool b) { return stdout; }
static const int SZ[] = {0, 4, 1, 1, 2, 2, 4, 8, 8, 1, 2, 8, 4, 8, 8, 16, 2, 1, 1, 1};
static int esize(int t) { return t >= 0 && t < 20 ? SZ[t] : -1; }
struct M { int64_t shape[8], strides[8]; int64_t rank; int dt; int64_t own; void *al, *ag; };
static void compare(const OMTensor *t, const struct M *m, const char *op) {
  CHECK(omTensorGetRank(t) == m->rank, "after %s: rank %lld, expected %lld", op, (long long)omTensorGetRank(t), (long long)m->rank);
  CHECK((int)omTensorGetDataType(t) == m->dt, "after %s: type %d, expected %d", op, (int)omTensorGetDataType(t), m->dt);
  CHECK(omTensorGetOwning(t) == m->own, "after %s: owning %lld, expected %lld", op, (long long)omTensorGetOwning(t), (long long)m->own);
  CHECK(omTensorGetDataPtr(t) == m->ag, "after %s: data pointer %p, expected %p", op, omTensorGetDataPtr(t), m->ag);
  CHECK(!memcmp(omTensorGetShape(t), m->shape, m->rank * 8), "after %s: shape %s, expected %s", op, vec(omTensorGetShape(t), m->rank), vec(m->shape, m->rank));
  CHECK(!memcmp(omTensorGetStrides(t), m->strides, m->rank * 8), "after %s: strides %s, expected %s", op, vec(omTensorGetStrides(t), m->rank), vec(m->strides, m->rank));
  int64_t n = 1, dense = 1, acc = 1;
  for (int i = 0; i < m->rank; ++i) n *= m->shape[i];
  for (int i = m->rank - 1; i >= 0; --i) { if (m->strides[i] != acc) dense = 0; acc *= m->shape[i]; }
  if (dense) CHECK(omTensorGetNumElems(t) == n, "after %s: element count %lld, expected %lld", op, (long long)omTensorGetNumElems(t), (long long)n);
  if (esize(m->dt) >= 0) CHECK(omTensorGetBufferSize(t) == n * esize(m->dt), "after %s: buffer size %lld, expected %lld", op, (long long)omTensorGetBufferSize(t), (long long)(n * esize(m->dt)));
}
static void rowmajor(struct M *m) { int64_t a = 1; for (int i = m->rank - 1; i >= 0; --i) { m->strides[i] = a; a *= m->shape[i]; } }
static void *ext(size_t n) { return mon_malloc(n ? n : 1); }
static OMTensor *mk(int kind, struct M *m) {
  OMTensor *t = 0;
  rowmajor(m);
  int64_t sh[8]; memcpy(sh, m->shape, sizeof sh);
  switch (kind) {
  case 0: m->own = 0; t = omTensorCreate(m->ag, sh, m->rank, (OM_DATA_TYPE)m->dt); break;
  case 1: t = omTensorCreateWithOwnership(m->ag, sh, m->rank, (OM_DATA_TYPE)m->dt, m->own); break;
  case 2: m->own = 1; t = omTensorCreateEmpty(sh, m->rank, (OM_DATA_TYPE)m->dt); if (t) m->al = m->ag = omTensorGetDataPtr(t); break;
  case 3: m->own = 0; m->dt = 0; m->al = m->ag = 0; t = omTensorCreateUntyped(m->rank); if (t) { omTensorSetShape(t, sh); omTensorSetStrides(t, m->strides); } break;
  }
  return t;
}
static void rshape(struct M *m, int maxrank) {
  static const int64_t pick[] = {0, 1, 1, 2, 3, 4, 5, 7, 16};
  m->rank = rndr(0, maxrank);
  for (int i = 0; i < m->rank; ++i) m->shape[i] = pick[rnd() % 9];
}
static void nulls(void) {
  CUR("null tensor / list arguments");
  int64_t a[2] = {1, 2};
  CHECK(omTensorGetDataPtr(0) == 0 && omTensorGetShape(0) == 0 && omTensorGetStrides(0) == 0 && omTensorGetDataType(0) == 0 && omTensorGetBufferSize(0) == 0 && omTensorGetRank(0) == 0 && omTensorGetNumElems(0) == 0 && omTensorGetOwning(0) == 0, "getter on null tensor returned a value");
  omTensorSetShape(0, a); omTensorSetStrides(0, a); omTensorSetStridesWithPyArrayStrides(0, a); omTensorSetDataType(0, (OM_DATA_TYPE)1); omTensorSetOwning(0, 1); omTensorSetDataPtr(0, 1, a, a); omTensorDestroy(0);
  CHECK(omTensorListGetSize(0) == 0 && omTensorListGetOmtArray(0) == 0 && omTensorListGetOmtByIndex(0, 0) == 0, "getter on null list returned a value");
  omTensorListDestroy(0); omTensorListDestroyShallow(0);
}
static void history(int maxops, int lifetimes) {
  struct M m; memset(&m, 0, sizeof m);
  rshape(&m, 6);
  m.dt = (int)rndr(1, 19); m.own = rndr(0, 1);
  int64_t n = 1; for (int i = 0; i < m.rank; ++i) n *= m.shape[i];
  int kind = (int)rndr(0, 3);
  void *buf = ext((size_t)(n * (esize(m.dt) > 0 ? esize(m.dt) : 1)));
  m.al = m.ag = buf;
  char ops[900]; int p = 0;
  p += snprintf(ops + p, 900 - p, "create(kind=%d rank=%lld shape=%s type=%d owning=%lld)", kind, (long long)m.rank, vec(m.shape, m.rank), m.dt, (long long)m.own);
  CUR("%s", ops);
  OMTensor *t = mk(kind, &m);
  CHECK(t, "creation failed although memory was available");
  compare(t, &m, "creation");
  int nops = (int)rndr(0, maxops);
  for (int k = 0; k < nops; ++k) {
    int64_t a[8];
    int op = (int)rndr(0, 8);
    for (int i = 0; i < 8; ++i) a[i] = rndr(0, 9);
    switch (op) {
    case 0: omTensorSetShape(t, a); memcpy(m.shape, a, m.rank * 8); break;
    case 1: omTensorSetStrides(t, a); memcpy(m.strides, a, m.rank * 8); break;
    case 2: if (esize(m.dt) > 0) { for (int i = 0; i < 8; ++i) { m.strides[i] = i < m.rank ? a[i] - 3 : 0; a[i] = (a[i] - 3) * esize(m.dt); } omTensorSetStridesWithPyArrayStrides(t, a); } break;
    case 3: m.dt = (int)rndr(0, 19); omTensorSetDataType(t, (OM_DATA_TYPE)m.dt); break;
    case 4: { if (!m.al && rnd() % 2) break; m.own = m.al ? rndr(0, 1) : 0; omTensorSetOwning(t, m.own); break; }
    case 5: omTensorSetShape(t, 0); omTensorSetStrides(t, 0); omTensorSetStridesWithPyArrayStrides(t, 0); break;
    case 6: rowmajor(&m); omTensorSetStrides(t, m.strides); break;
    case 7: case 8: {
      void *old = m.al; int wasown = m.own != 0;
      void *nb = ext(64); int al = (int)rndr(0, 1);
      m.own = rndr(0, 1); m.al = nb; m.ag = al ? (char *)nb + 16 : nb;
      omTensorSetDataPtr(t, m.own, nb, al ? m.ag : 0);
      if (lifetimes && old) CHECK(mon_islive(old) == !wasown, "replacing the buffer %s the old one (tensor %s it)", wasown ? "did not release" : "released", wasown ? "owned" : "did not own");
      break; }
    }
    p += snprintf(ops + p, p < 860 ? 900 - p : 0, " op%d%s", op, op < 3 ? vec(a, m.rank) : "");
    if (p > 850) p = 850;
    snprintf(mon_cur, sizeof mon_cur, "%s", ops);
    compare(t, &m, "setter");
  }
  const int64_t *sh = omTensorGetShape(t), *st = omTensorGetStrides(t);
  int owned = m.own != 0;
  omTensorDestroy(t);
  if (lifetimes) {
    CHECK(!mon_islive((void *)sh) && !mon_islive((void *)st) && !mon_islive(t), "destroy left the tensor's own blocks allocated");
    if (m.al) CHECK(mon_islive(m.al) == !owned, "destroy %s the data buffer of a tensor that %s it", owned ? "kept" : "freed", owned ? "owns" : "does not own");
  }
}
static void lists(int lifetimes) {
  int64_t n = rndr(0, 9);
  OMTensor *a[10]; void *buf[10]; int own[10]; const int64_t *shp[10];
  for (int i = 0; i < n; ++i) {
    int64_t s[2] = {rndr(1, 3), rndr(1, 4)};
    buf[i] = ext(96); own[i] = (int)rndr(0, 1);
    a[i] = omTensorCreateWithOwnership(buf[i], s, 2, ONNX_TYPE_FLOAT, own[i]);
    if (rnd() % 11 == 0) { if (!own[i]) { omTensorDestroy(a[i]); a[i] = 0; } }
    if (a[i]) shp[i] = omTensorGetShape(a[i]);
  }
  CUR("list of %lld tensors", (long long)n);
  OMTensor *given[10]; memcpy(given, a, sizeof a);
  OMTensorList *l = omTensorListCreate(a, n);
  CHECK(l, "list creation failed although memory was available");
  memset(a, 0x77, sizeof a); /* the list has its own copy */
  CHECK(omTensorListGetSize(l) == n, "list size %lld, expected %lld", (long long)omTensorListGetSize(l), (long long)n);
  for (int64_t i = 0; i < n; ++i) CHECK(omTensorListGetOmtByIndex(l, i) == given[i] && omTensorListGetOmtArray(l)[i] == given[i], "element %lld is not the one given", (long long)i);
  int64_t outs[] = {-1, n, n + 1, -9223372036854775807LL - 1, 9223372036854775807LL};
  for (int i = 0; i < 5; ++i) CHECK(omTensorListGetOmtByIndex(l, outs[i]) == 0, "element at out-of-range index %lld is not null", (long long)outs[i]);
  int shallow = (int)rndr(0, 1);
  OMTensor **arr = omTensorListGetOmtArray(l);
  if (shallow) omTensorListDestroyShallow(l); else omTensorListDestroy(l);
  if (lifetimes) {
    CHECK(!mon_islive(l) && (!arr || !mon_islive(arr)), "list destroy left the list's blocks allocated");
    for (int64_t i = 0; i < n; ++i) if (given[i]) {
      CHECK(mon_islive(given[i]) == shallow, "%s list destroy %s element %lld", shallow ? "shallow" : "deep", shallow ? "destroyed" : "kept", (long long)i);
      CHECK(mon_islive((void *)shp[i]) == shallow, "element %lld shape lifetime", (long long)i);
      CHECK(mon_islive(buf[i]) == (shallow || !own[i]), "data buffer of element %lld (owned=%d) lifetime", (long long)i, own[i]);
    }
  }
  if (shallow) for (int64_t i = 0; i < n; ++i) if (given[i]) omTensorDestroy(given[i]);
}
static void oom(void) {
  for (int kind = 0; kind < 4; ++kind) for (int own = 0; own < 2; ++own) for (int rank = 0; rank < 5; ++rank) for (int f = 1; f <= 5; ++f) {
    mon_reset();
    struct M m; memset(&m, 0, sizeof m); m.rank = rank; for (int i = 0; i < rank; ++i) m.shape[i] = i + 1;
    m.dt = 1; m.own = own; void *buf = ext(4096); m.al = m.ag = buf;
    int before = mon_live();
    mon_fail_at = mon_allocs + f;
    CUR("creation kind=%d rank=%d owning=%d with allocation number %d failing", kind, rank, own, f);
    int failed = 0;
    OMTensor *t = mk(kind, &m);
    failed = mon_allocs >= mon_fail_at;
    mon_fail_at = -1;
    CHECK(mon_islive(buf), "the caller's buffer was freed");
    if (failed) { CHECK(t == 0, "returned a tensor although an allocation failed"); CHECK(mon_live() == before, "%d blocks leaked", mon_live() - before); }
    else CHECK(t, "failed although every allocation succeeded");
  }
  for (int n = 0; n < 4; ++n) for (int f = 1; f <= 3; ++f) {
    mon_reset();
    OMTensor *a[4]; for (int i = 0; i < n; ++i) { int64_t s = 2; a[i] = omTensorCreate(0, &s, 1, ONNX_TYPE_FLOAT); }
    int before = mon_live();
    mon_fail_at = mon_allocs + f;
    CUR("list creation n=%d with allocation number %d failing", n, f);
    OMTensorList *l = omTensorListCreate(a, n);
    int failed = mon_allocs >= mon_fail_at; mon_fail_at = -1;
    if (failed) { CHECK(!l, "returned a list although an allocation failed"); CHECK(mon_live() == before, "%d blocks leaked or freed", mon_live() - before); }
    else CHECK(l, "failed although every allocation succeeded");
  }
  mon_reset();
  for (int ty = -3; ty < 30; ++ty) {
    int64_t s[2] = {2, 3};
    CUR("empty tensor of type %d", ty);
    int before = mon_live();
    OMTensor *t = omTensorCreateEmpty(s, 2, (OM_DATA_TYPE)ty);
    if (ty >= 1 && ty < 20) { CHECK(t, "refused a defined type"); omTensorDestroy(t); CHECK(mon_live() == before, "blocks leaked"); }
    else if (ty <= 0 || ty > 22) { CHECK(!t, "created a tensor of an undefined type"); CHECK(mon_live() == before, "blocks leaked"); }
    else if (t) omTensorDestroy(t);
  }
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long n = mon_arg(argc, argv, "n", 20000), mode = mon_arg(argc, argv, "mode", 1);
  nulls();
  if (mode == 2) oom();
  /* every type, small shapes */
  for (int dt = 1; dt < 20; ++dt) for (int r = 0; r < 5; ++r) for (int kind = 0; kind < 4; ++kind) {
    struct M m; memset(&m, 0, sizeof m); m.rank = r; for (int i = 0; i < r; ++i) m.shape[i] = i + 2;
    m.dt = dt; m.own = 0; m.al = m.ag = ext(16);
    CUR("create(kind=%d rank=%d type=%d)", kind, r, dt);
    OMTensor *t = mk(kind, &m); CHECK(t, "creation failed"); compare(t, &m, "creation"); omTensorDestroy(t); mon_reset();
  }
  for (long i = 0; i < n; ++i) { history(12, mode == 2); if (i % 3 == 0) lists(mode == 2); mon_reset(); }
  return mon_done();
}
