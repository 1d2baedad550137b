/* Monitor of C19: random histories of sessions over libraries compiled here, against a reference of what each library answers.
 * The libraries and everything else lie below the working directory, which the check made for it. */
#include "mon.h"
#include <errno.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
#include "src/Runtime/ExecutionSession.hpp"
#ifdef MON_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif
using namespace onnx_mlir;
typedef std::string S;
namespace fs = std::filesystem;
static const char *MODEL = R"X(
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "OnnxMlirRuntime.h"
char om_seen[512]; int om_prints, om_runs; OMTensorList *om_in;
__attribute__((constructor)) static void init(void) { const char *s = getenv("OM_CONSTANT_PATH"); strncpy(om_seen, s ? s : "(unset)", 511); }
#define N(f) __asm__(f TAG)
#ifndef NOQUERY
const char *names[] = {"run_main_graph" TAG, "run_second" TAG, 0};
const char **q(int64_t *n) N("omQueryEntryPoints"); const char **q(int64_t *n) { if (n) *n = 2; return names; }
#endif
#ifndef NOIN
const char *si(const char *e) N("omInputSignature"); const char *si(const char *e) { static char b[256]; strcpy(b, "in" ID ":"); strncat(b, e, 200); return b; }
#endif
#ifndef NOOUT
const char *so(const char *e) N("omOutputSignature"); const char *so(const char *e) { static char b[256]; strcpy(b, "out" ID ":"); strncat(b, e, 200); return b; }
#endif
#ifndef NOINFO
const char *ci(void) N("omCompilationInfo"); const char *ci(void) { return "{ \"id\" : \"" ID "\" }"; }
void omInstrumentPrint(void) { ++om_prints; }
#endif
static OMTensorList *go(OMTensorList *in, int k) {
  ++om_runs; om_in = in;
  int64_t n = omTensorListGetSize(in); OMTensor **o = malloc(sizeof(OMTensor *) * (n + 1));
  for (int64_t i = 0; i <= n; ++i) {
    int64_t one = 1; float *d = malloc(sizeof(float)); *d = i == n ? (float)(100 * atoi(ID) + k) : 2 * *(float *)omTensorGetDataPtr(omTensorListGetOmtByIndex(in, i));
    o[i] = omTensorCreateWithOwnership(d, &one, 1, ONNX_TYPE_FLOAT, 1);
  }
  OMTensorList *r = omTensorListCreate(o, n + 1); free(o); errno = 5; return r;
}
#ifndef NOMAIN
OMTensorList *e0(OMTensorList *in) N("run_main_graph"); OMTensorList *e0(OMTensorList *in) { return go(in, 0); }
#endif
OMTensorList *e1(OMTensorList *in) N("run_second"); OMTensorList *e1(OMTensorList *in) { return go(in, 1); }
OMTensorList *e2(OMTensorList *in) N("run_null"); OMTensorList *e2(OMTensorList *in) { ++om_runs; errno = 1; return 0; }
OMTensorList *e3(OMTensorList *in) N("run_none"); OMTensorList *e3(OMTensorList *in) { ++om_runs; return 0; }
OMTensorList *c0(OMTensorList *in) N("run_segv"); OMTensorList *c0(OMTensorList *in) { ++om_runs; *(volatile int *)8 = 1; return go(in, 9); }
OMTensorList *c1(OMTensorList *in) N("run_bus"); OMTensorList *c1(OMTensorList *in) { ++om_runs; raise(SIGBUS); return go(in, 9); }
OMTensorList *c2(OMTensorList *in) N("run_fpe"); OMTensorList *c2(OMTensorList *in) { ++om_runs; raise(SIGFPE); return go(in, 9); }
OMTensorList *c3(OMTensorList *in) N("run_ill"); OMTensorList *c3(OMTensorList *in) { ++om_runs; __asm__ volatile("ud2"); return go(in, 9); }
OMTensorList *c4(OMTensorList *in) N("run_abrt"); OMTensorList *c4(OMTensorList *in) { ++om_runs; abort(); return go(in, 9); }
)X";
static const int SIGS[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
static const char *CRASH[] = {"run_segv", "run_bus", "run_fpe", "run_ill", "run_abrt"};
struct Lib { S path, tag, low; int id; int what; /* 0 good, 1 no query, 2 no in, 3 no out, 4 no main, 5 no info, 6 not a library, 7 missing */ };
static std::vector<Lib> libs;
static S root;
static void make() {
  root = fs::current_path().string();
  { std::ofstream f("m.c"); f << MODEL; }
  const char *no[] = {"", "-DNOQUERY", "-DNOIN", "-DNOOUT", "-DNOMAIN", "-DNOINFO"};
  struct { const char *dir, *file, *tag, *low; int what; } L[] = {{"d1", "Model.so", "", "_model", 0}, {"d2", "other.v2.so", "", "_other.v2", 0}, {"d3", "plain.so", "NONE", "", 0}, {"d4", "Custom.so", "My-Tag", "_My-Tag", 0}, {"d 5/in.ner", "LIB", "", "_lib", 0},
    {"d6", "a.so", "", "_a", 1}, {"d7", "a.so", "none", "", 2}, {"d8", "a.so", "T", "_T", 3}, {"d9", "a.so", "", "_a", 4}, {"d10", "a.so", "", "_a", 5}, {"d11", "a.so", "", "_a", 6}, {"d12", "a.so", "", "_a", 7}};
  int id = 0; S all;
  for (auto &l : L) {
    ++id; fs::create_directories(l.dir); S p = S(l.dir) + "/" + l.file;
    if (l.what == 6) { std::ofstream f(p); f << "text"; }
    else if (l.what != 7) all += "(clang -shared -fPIC -w -O0 -Wl,-Bsymbolic -DTAG='\"" + S(l.low) + "\"' -DID='\"" + std::to_string(id) + "\"' " + no[l.what] + " -I" + INCLUDE + " m.c -o '" + p + "' || echo no > failed) & ";
    libs.push_back({p, l.tag, l.low, id, l.what});
  }
  if (system((all + "wait").c_str()) || fs::exists("failed")) { fprintf(stderr, "cannot build the libraries\n"); _exit(3); }
}
/* ---- the surroundings */
static void h1(int) {} static void h2(int) {} static void h3(int, siginfo_t *, void *) {}
struct World { struct sigaction a[32]; sigset_t m; bool set; S val; };
static World look() {
  World w; memset(w.a, 0, sizeof w.a); for (int s = 1; s < 32; ++s) sigaction(s, 0, &w.a[s]);
  sigprocmask(SIG_BLOCK, 0, &w.m); const char *e = getenv("OM_CONSTANT_PATH"); w.set = e; w.val = e ? e : ""; return w;
}
static void same(const World &b) {
  World n = look();
  CHECK(n.set == b.set && n.val == b.val, "OM_CONSTANT_PATH is %s, was %s", n.set ? n.val.c_str() : "unset", b.set ? b.val.c_str() : "unset");
  for (int s = 1; s < 32; ++s) { if (s == SIGKILL || s == SIGSTOP) continue;
    CHECK(n.a[s].sa_sigaction == b.a[s].sa_sigaction, "the action of signal %d is another one afterwards", s);
    CHECK(((n.a[s].sa_flags ^ b.a[s].sa_flags) & ~0x4000000) == 0, "the flags of signal %d are 0x%x, were 0x%x", s, n.a[s].sa_flags, b.a[s].sa_flags);
    for (int k = 1; k < 32; ++k) CHECK(sigismember(&n.a[s].sa_mask, k) == sigismember(&b.a[s].sa_mask, k), "the mask of signal %d is another one afterwards", s); }
  for (int k = 1; k < 32; ++k) CHECK(sigismember(&n.m, k) == sigismember(&b.m, k), "signal %d is %s afterwards", k, sigismember(&n.m, k) ? "blocked" : "no longer blocked");
}
static void shuffle() {
  if (rnd() % 2) { if (rnd() % 2) setenv("OM_CONSTANT_PATH", rnd() % 2 ? "/x/y" : "", 1); else unsetenv("OM_CONSTANT_PATH"); }
  for (int s : SIGS) if (rnd() % 4 == 0) {
    struct sigaction a; memset(&a, 0, sizeof a); sigemptyset(&a.sa_mask);
    switch (rnd() % 4) { case 0: a.sa_handler = h1; break; case 1: a.sa_handler = h2; a.sa_flags = SA_RESTART; sigaddset(&a.sa_mask, SIGUSR1); break; case 2: a.sa_sigaction = h3; a.sa_flags = SA_SIGINFO | SA_NODEFER; break; default: a.sa_handler = SIG_DFL; }
    sigaction(s, &a, 0);
  }
  if (rnd() % 4 == 0) { sigset_t m; sigemptyset(&m); if (rnd() % 2) sigaddset(&m, SIGUSR2); sigprocmask(SIG_SETMASK, &m, 0); }
}
static void *libh(const S &p) { void *h = dlopen(p.c_str(), RTLD_LAZY | RTLD_NOLOAD); return h; }
static bool is_open(const S &p) { void *h = libh(p); if (h) dlclose(h); return h; }
static int counter(const S &p, const char *n) { void *h = libh(p); int *c = (int *)dlsym(h, n); int r = c ? *c : -1; dlclose(h); return r; }
/* ---- one session and what it should be */
struct Sess { ExecutionSession *s; int lib; bool loaded, ctor; S entry; /* without tag; empty: none */ S tag; bool full; };
static std::vector<Sess> ss;
static int uses(int lib) { int n = 0; for (auto &x : ss) n += x.s && x.loaded && x.lib == lib; return n; }
static void opened() { for (size_t i = 0; i < libs.size(); ++i) if (libs[i].what < 6) CHECK(is_open(libs[i].path) == (uses((int)i) > 0), "the library %s is %s with %d sessions on it", libs[i].path.c_str(), is_open(libs[i].path) ? "still open" : "closed", uses((int)i)); }
/* outcome of an operation: "" or the text of the exception */
static S outcome(const std::function<void()> &f) { try { f(); } catch (const ExecutionSessionException &e) { return S("E") + e.what(); } return ""; }
static OMTensor *tensor(float x) { int64_t one = 1; float *d = (float *)malloc(sizeof(float)); *d = x; return omTensorCreateWithOwnership(d, &one, 1, ONNX_TYPE_FLOAT, 1); }
static int destroyed = 0;
static void counting(OMTensor *t) { ++destroyed; omTensorDestroy(t); }
static void outputs(std::vector<OMTensor *> o, const std::vector<float> &in, int id, int k) {
  CHECK(o.size() == in.size() + 1, "%zu outputs, the entry point made %zu", o.size(), in.size() + 1);
  for (size_t i = 0; i < o.size(); ++i) { float v = *(float *)omTensorGetDataPtr(o[i]), w = i == in.size() ? 100.f * id + k : 2 * in[i]; CHECK(v == w, "output %zu is %g, should be %g", i, v, w); }
}
static void history(int steps) {
  ss.assign(3, Sess{nullptr, 0, false, false, "", "", false});
  S story;
  for (int n = 0; n < steps; ++n) {
    int si = (int)(rnd() % 3); Sess &x = ss[si];
    if (rnd() % 3 == 0) shuffle();
    World w = look();
    S what = "session " + std::to_string(si) + ": ";
    auto now = [&](const S &t) { story += "; " + what + t; if (story.size() > 1500) story = story.substr(story.size() - 1200); CUR("%s", story.c_str()); };
    if (!x.s) {
      int li = (int)(rnd() % (libs.size() + 5)); if (li >= (int)libs.size()) li -= (int)libs.size();
      const Lib &l = libs[li]; S path = rnd() % 4 == 0 ? root + "/" + l.path : l.path; S tag = l.tag; bool def = rnd() % 4 != 0;
      S low = l.low;
      if (tag == "NONE" && rnd() % 2) tag = "nOnE";
      if (rnd() % 8 == 0) { tag = "wrong"; low = "_wrong"; }
      bool good = low == l.low && (l.what == 0 || l.what == 5 || (l.what == 4 && !def));
      bool ctor = rnd() % 2;
      now(S(ctor ? "opened on " : "loads ") + path + " tag '" + tag + "'" + (def ? "" : " without default entry point"));
      bool had = li < (int)libs.size() && l.what < 6 && is_open(l.path);
      ExecutionSession *p = nullptr;
      if (!ctor) { void *raw = malloc(sizeof(ExecutionSession)); memset(raw, 0xC5, sizeof(ExecutionSession)); p = new (raw) ExecutionSession(); CHECK(outcome([&] { p->setEntryPoint("run_main_graph"); }) != "", "a session without a model accepts an entry point"); }
      errno = 7;
      S r = outcome([&] { if (ctor) { void *raw = malloc(sizeof(ExecutionSession)); memset(raw, 0xC5, sizeof(ExecutionSession)); try { p = new (raw) ExecutionSession(path, tag, def); } catch (...) { free(raw); throw; } } else p->loadModel(path, tag, def); });
      int e = errno;
      same(w);
      CHECK((r == "") == good, good ? "refused: %s" : "is taken for a model%s", r.c_str());
      if (good) {
        CHECK(e == 0, "errno is %d after a successful load", e);
        x = {p, li, true, ctor, def ? "run_main_graph" : "", low, l.what == 0 || l.what == 4};
        if (!had) { void *h = libh(l.path); S seen = (char *)dlsym(h, "om_seen"); dlclose(h); S want = w.set ? w.val : path.substr(0, path.find_last_of('/')); CHECK(seen == want, "the library saw OM_CONSTANT_PATH %s, should see %s", seen.c_str(), want.c_str()); }
        if (ctor) CHECK(p->getSharedLibPath() == path, "the path is given as %s", p->getSharedLibPath().c_str());
        if (!def) { CHECK(outcome([&] { p->inputSignature(); }) != "" && outcome([&] { p->run((OMTensorList *)nullptr); }) != "", "usable without an entry point"); }
      } else if (!ctor) {
        CHECK(outcome([&] { p->inputSignature(); }) != "" && outcome([&] { p->setEntryPoint("run_main_graph" + low); }) != "" && outcome([&] { p->run((OMTensorList *)nullptr); }) != "" && outcome([&] { p->compilationInfo(); }) != "" && outcome([&] { int64_t k; p->queryEntryPoints(&k); }) != "", "a session whose load failed is usable");
        opened();
        if (rnd() % 2) { now("is used again for " + libs[0].path); S r2 = outcome([&] { p->loadModel(libs[0].path); }); CHECK(r2 == "", "refused: %s", r2.c_str()); same(w); x = {p, 0, true, false, "run_main_graph", libs[0].low, true}; }
        else { p->~ExecutionSession(); free(p); }
      }
      opened();
      continue;
    }
    const Lib &l = libs[x.lib]; ExecutionSession *p = x.s;
    switch (rnd() % 12) {
    case 0: { now("ends"); p->~ExecutionSession(); free(p); x.s = nullptr; x.loaded = false; break; }
    case 1: { now("loads again"); S r = outcome([&] { p->loadModel(libs[rnd() % 3].path, ""); }); CHECK(r != "", "a session loads two models"); break; }
    case 2: case 3: { /* entry points */
      const char *E[] = {"run_main_graph", "run_second", "run_null", "run_none", "run_segv", "run_nothing", "run_abrt", ""}; S e = E[rnd() % 8];
      bool good = e != "run_nothing" && e != "" && !(e == "run_main_graph" && l.what == 4); now("selects " + e); errno = 9;
      S r = outcome([&] { p->setEntryPoint(e + x.tag); }); int er = errno; CHECK((r == "") == good, good ? "refused: %s" : "is taken for an entry point%s", r.c_str());
      if (good) CHECK(er == 0, "errno is %d", er);
      if (!good) { CHECK(outcome([&] { p->run((OMTensorList *)nullptr); }) != "" && outcome([&] { p->outputSignature(); }) != "", "another entry point is used after a failed selection"); if (rnd() % 2) { S e2 = "run_second"; CHECK(outcome([&] { p->setEntryPoint(e2 + x.tag); }) == "", "refused"); x.entry = e2; } else x.entry = ""; }
      else x.entry = e;
      break; }
    case 4: { now("signatures"); 
      if (x.entry == "") { CHECK(outcome([&] { p->inputSignature(); }) != "" && outcome([&] { p->outputSignature(); }) != "", "signatures without an entry point"); }
      else { S a = p->inputSignature(), b = p->outputSignature(), id = std::to_string(l.id); CHECK(a == "in" + id + ":" + x.entry + x.tag, "input signature is %s", a.c_str()); CHECK(b == "out" + id + ":" + x.entry + x.tag, "output signature is %s", b.c_str()); }
      S c = p->compilationInfo(); S wc = l.what == 5 ? "{}" : "{ \"id\" : \"" + std::to_string(l.id) + "\" }"; CHECK(c == wc, "compilation information is %s", c.c_str());
      int64_t k = -1; const char **q = (const char **)p->queryEntryPoints(&k); CHECK(k == 2 && S(q[0]) == "run_main_graph" + x.tag && S(q[1]) == "run_second" + x.tag && !q[2], "entry points are not those of the model");
      if (l.what != 5) { int b = counter(l.path, "om_prints"); p->printInstrumentation(); CHECK(counter(l.path, "om_prints") == b + 1, "instrumentation is not printed once"); }
      break; }
    default: {
      std::vector<float> in; for (int k = (int)rndr(0, 4); k; --k) in.push_back((float)rndr(-9, 9));
      int mode = (int)(rnd() % 4); /* 0 list, 1 vector, 2 guarded, 3 unguarded debug */
      if (mode >= 2 && x.entry != "" && rnd() % 2) { int c = (int)(rnd() % 5); mode = 2; x.entry = CRASH[c]; p->setEntryPoint(x.entry + x.tag); }
      int crash = 0; for (int k = 0; k < 5; ++k) if (x.entry == CRASH[k]) crash = SIGS[k];
      if (crash) mode = 2;
      int times = crash ? (int)rndr(1, 3) : 1;
      for (int t = 0; t < times; ++t) {
        now(S(mode == 0 ? "runs " : mode == 1 ? "runs by vector " : mode == 2 ? "runs guarded " : "runs in debug mode ") + (x.entry == "" ? "(no entry point)" : x.entry) + " on " + std::to_string(in.size()));
        int before = counter(l.path, "om_runs"), bp = l.what == 5 ? 0 : counter(l.path, "om_prints");
        int k = x.entry == "run_main_graph" ? 0 : x.entry == "run_second" ? 1 : -1; S r; int er = 0;
        std::vector<OMTensor *> tin; for (float v : in) tin.push_back(tensor(v));
#ifdef MON_ASAN
        size_t bytes = 0;
#endif
        if (mode == 1) {
          destroyed = 0;
#ifdef MON_ASAN
          for (auto *t : tin) omTensorDestroy(t);
          bytes = __sanitizer_get_current_allocated_bytes();
          for (size_t q = 0; q < tin.size(); ++q) tin[q] = tensor(in[q]);
#endif
          r = outcome([&] {
            std::vector<OMTensorUniquePtr> vi; for (auto *t : tin) vi.emplace_back(OMTensorUniquePtr(t, counting));
            errno = 3; auto vo = p->run(std::move(vi)); er = errno;
            std::vector<OMTensor *> o; for (auto &u : vo) o.push_back(u.get());
            outputs(o, in, l.id, k);
          });
          CHECK(destroyed == (int)in.size(), "%d of %zu inputs released", destroyed, in.size());
#ifdef MON_ASAN
          if (r == "") CHECK(__sanitizer_get_current_allocated_bytes() <= bytes + story.capacity(), "%zu bytes are not released", __sanitizer_get_current_allocated_bytes() - bytes);
#endif
        } else {
          OMTensorList *li = omTensorListCreate(tin.data(), (int64_t)tin.size()), *lo = nullptr;
          errno = 3; r = outcome([&] { lo = mode == 0 ? p->run(li) : p->runDebug(li, mode == 2); er = errno; });
          if (r == "") {
            void *h = libh(l.path); OMTensorList **g = (OMTensorList **)dlsym(h, "om_in"); CHECK(*g == li, "the entry point received another list"); dlclose(h);
            std::vector<OMTensor *> o; for (int64_t q = 0; q < omTensorListGetSize(lo); ++q) o.push_back(omTensorListGetOmtByIndex(lo, q));
            outputs(o, in, l.id, k); omTensorListDestroy(lo);
          }
          for (size_t q = 0; q < in.size(); ++q) { CHECK(omTensorListGetOmtByIndex(li, (int64_t)q) == tin[q], "the input list is changed"); CHECK(*(float *)omTensorGetDataPtr(tin[q]) == in[q], "an input is changed"); }
          omTensorListDestroy(li);
        }
        same(w);
        int ran = counter(l.path, "om_runs") - before;
        CHECK(ran == (x.entry != ""), "the entry point ran %d times", ran);
        CHECK((r == "") == (k >= 0), k >= 0 ? "refused: %s" : "a failure is taken for success%s", r.c_str());
        if (r == "") { CHECK(er == 0, "errno is %d after a successful run", er); if (l.what != 5) CHECK(counter(l.path, "om_prints") == bp + 1, "instrumentation is not printed once"); }
        if (crash) { CHECK(r.find("signal") != S::npos && r.find(std::to_string(crash)) != S::npos, "the report %s does not name signal %d", r.c_str(), crash); CHECK(r.find(strsignal(crash)) != S::npos, "the report %s does not name signal %d", r.c_str(), crash); }
        if (x.entry == "run_null") CHECK(r.find(strerror(1)) != S::npos, "the report %s does not name the error %s", r.c_str(), strerror(1));
      }
      break; }
    }
    same(w); opened();
  }
  for (auto &x : ss) if (x.s) { x.s->~ExecutionSession(); free(x.s); x.s = nullptr; x.loaded = false; }
  opened();
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long n = mon_arg(argc, argv, "n", 20);
  fs::create_directories("w" + std::to_string(mon_part)); fs::current_path("w" + std::to_string(mon_part));
  make();
  for (long i = 0; i < n; ++i) history(60);
  return mon_done();
}
