/* Monitor of C17 and C18: flag strings, derived names, and commands run, against independent definitions.
 * Everything is created below the working directory, which the check made for it. */
#include "mon.h"
#include <climits>
#include <errno.h>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <sys/wait.h>
#include <vector>
#include "src/Compiler/Command.hpp"
#include "src/Compiler/CommandUtils.hpp"
#include "src/Compiler/OMCompile.hpp"
using namespace onnx_mlir;
typedef std::string S;
typedef std::vector<S> V;
namespace fs = std::filesystem;
static S show(const S &s) { S o = "<"; char b[8]; for (unsigned char c : s) { if (c >= 32 && c < 127) o += (char)c; else { snprintf(b, 8, "\\x%02x", c); o += b; } if (o.size() > 300) break; } return o + ">"; }
static S show(const V &v) { S o = "["; for (auto &x : v) o += show(x) + " "; return o + "]"; }
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
/* independent tokenizer: a recursive reading of the text */
static V split(const S &t) {
  V out; size_t p = 0, n = t.size();
  while (p < n) {
    if (blank(t[p])) { ++p; continue; }
    S a;
    while (p < n && !blank(t[p])) {
      char c = t[p];
      if (c == '\\') { if (p + 1 < n) a += t[p + 1]; p += 2; }
      else if (c == '"' || c == '\'') {
        ++p;
        while (p < n && t[p] != c) { if (t[p] == '\\') { if (p + 1 < n) a += t[p + 1]; p += 2; } else a += t[p++]; }
        ++p;
      } else { a += c; ++p; }
    }
    if (!a.empty()) out.push_back(a);
  }
  return out;
}
static S word(int max) {
  static const char set[] = "abz019-_=./ \t\n\"'\\,*";
  S s; int n = (int)rndr(0, max), m = (int)(rnd() % 4);
  for (int i = 0; i < n; ++i) s += m == 0 ? (char)rndr(1, 255) : set[rnd() % (m == 1 ? 10 : sizeof set - 1)];
  return s;
}
static S quote_arg(const S &a) {
  S o; int how = (int)(rnd() % 3);
  if (how == 0) { for (char c : a) { if (blank(c) || c == '"' || c == '\'' || c == '\\' || rnd() % 9 == 0) o += '\\'; o += c; } return o; }
  char q = how == 1 ? '"' : '\'';
  bool in = false;
  for (char c : a) {
    bool need = blank(c) || c == '"' || c == '\'' || c == '\\';
    if (!in && (need || rnd() % 3 == 0)) { o += q; in = true; }
    if (c == q || c == '\\') o += '\\';
    o += c;
    if (in && rnd() % 4 == 0) { o += q; in = false; }
  }
  if (in) o += q;
  return o;
}
static void flags(long n) {
  for (long it = 0; it < n; ++it) {
    if (rnd() % 2) {
      S t = word(rnd() % 10 ? 24 : 400);
      CUR("splitting the flags %s", show(t).c_str());
      V g = parseFlags(t), w = split(t);
      CHECK(g == w, "gives %s, the arguments written are %s", show(g).c_str(), show(w).c_str());
    } else {
      V w; S t; int k = (int)rndr(0, 6);
      for (int i = 0; i < k; ++i) { S a = word(10); if (a.empty()) continue; w.push_back(a); for (int b = (int)rndr(1, 3); b; --b) t += " \t\n"[rnd() % 3]; t += quote_arg(a); }
      if (rnd() % 2) t += ' ';
      CUR("splitting the flags %s written for %s", show(t).c_str(), show(w).c_str());
      V g = parseFlags(t);
      CHECK(g == w, "gives %s", show(g).c_str());
    }
  }
}
static bool begins(const S &s, const S &p) { return s.compare(0, p.size(), p) == 0; }
static bool ends(const S &s, const S &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static S model(const S &in, const V &f) {
  if (!in.empty()) return in;
  for (auto &a : f) if (!begins(a, "-") && (ends(a, ".onnx") || ends(a, ".mlir") || ends(a, ".onnxtext"))) return a;
  return "";
}
static S outbase(const V &f) {
  for (size_t i = 0; i < f.size(); ++i) {
    if (begins(f[i], "-o=")) { if (f[i].size() > 3) return f[i].substr(3); }
    else if (f[i] == "-o" && i + 1 < f.size()) return f[i + 1];
  }
  return "";
}
static S ext(const V &f) {
  for (auto &a : f) for (S d : {"-Emit", "--Emit"}) if (begins(a, d)) { S k = a.substr(d.size()); return k == "Lib" ? ".so" : k == "Obj" ? ".o" : k == "JNI" ? ".jar" : ".onnx.mlir"; }
  return ".so";
}
static S strip(const S &s) { size_t d = s.rfind('.'); return d == S::npos ? s : s.substr(0, d); }
static S outname(const S &in, const V &f) { S b = outbase(f); return (b.empty() ? strip(model(in, f)) : b) + ext(f); }
static S tagof(const V &f) { for (auto &a : f) for (S d : {"--tag=", "-tag="}) if (begins(a, d)) return a.substr(d.size()); return ""; }
static S join(const S &d, const S &n) { return d.back() == '/' ? d + n : d + "/" + n; }
static S last(const S &n) { size_t p = n.rfind('/'); return p == S::npos ? n : n.substr(p + 1); }
static S stem(const S &n) { S l = last(n); size_t d = l.rfind('.'); return d == S::npos || d == 0 ? l : l.substr(0, d); }
static V apply(V f, const S &path, const S &in) {
  if (path.empty()) return f;
  for (size_t i = 0; i < f.size(); ++i) {
    if (begins(f[i], "-o=") && f[i].size() > 3) { S n = f[i].substr(3); if (n.find('/') == S::npos) f[i] = "-o=" + join(path, n); return f; }
    if (f[i] == "-o" && i + 1 < f.size()) { S n = f[i + 1]; if (n.find('/') == S::npos) f[i + 1] = join(path, n); return f; }
  }
  f.push_back("-o"); f.push_back(join(path, stem(in)));
  return f;
}
static S pick(std::initializer_list<const char *> l) { return *(l.begin() + rnd() % l.size()); }
static V randflags() {
  V f; int k = (int)rndr(0, 6);
  for (int i = 0; i < k; ++i)
    f.push_back(pick({"-O3", "-o", "-o=", "-o=out", "-o=d/out", "out.v2", "-onnx-op-stats=TXT", "-o1", "--o", "-EmitLib", "--EmitObj", "-EmitJNI", "--EmitONNXIR", "-EmitLLVMIR", "--EmitMLIR", "-EmitONNXBasic", "m.onnx", "d.x/m.mlir", "t.onnxtext", ".onnx", "-x.onnx", "m.onn", "onnx", "--tag=a b", "-tag=b", "--tag=", "tag=c", "-o=.b", "-ox", "--EmitLib", "x=-o=y", "-mcpu=z16", "-EmitObj", "-o= ", "M.ONNX", "a-o=b", "--maccel=-Emit", "d/-o"}));
  return f;
}
static void names(long n) {
  for (long it = 0; it < n; ++it) {
    V f = randflags();
    S in = rnd() % 2 ? "" : pick({"m.onnx", "dir/m.mlir", "/abs/dir.d/m.v1.onnx", "noext", "m.onnxtext", ".onnx", "d/.x.onnx"}), path = rnd() % 3 ? "" : pick({"out", "/o/p", "o/", "."});
    CUR("names for model %s, flags %s, output path %s", show(in).c_str(), show(f).c_str(), show(path).c_str());
    CHECK(getInputFilename(in, f) == model(in, f), "model taken is %s, should be %s", show(getInputFilename(in, f)).c_str(), show(model(in, f)).c_str());
    CHECK(getOutputFilename(in, f) == outname(in, f), "output name is %s, should be %s", show(getOutputFilename(in, f)).c_str(), show(outname(in, f)).c_str());
    CHECK(getModelTag(f) == tagof(f), "tag is %s, should be %s", show(getModelTag(f)).c_str(), show(tagof(f)).c_str());
    V g = f; applyOutputPath(g, path, in);
    CHECK(g == apply(f, path, in), "with the output path the flags are %s, should be %s", show(g).c_str(), show(apply(f, path, in)).c_str());
    S w = outname(in, f); S cwd = fs::current_path().string();
    S a = getAbsolutePathUsingCurrentDir(w), b = w[0] == '/' ? w : cwd + "/" + w;
    CHECK(a == b, "absolute name of %s is %s", show(w).c_str(), show(a).c_str());
    CHECK(getAbsolutePathUsingCurrentDir("").empty(), "absolute name of an empty name");
    S t; for (auto &x : f) { t += rnd() % 2 ? " " : "  "; t += quote_arg(x); }
    V f2 = split(t), f3 = apply(f2, path, model(in, f2)); S w2 = outname(in, f3);
    bool barelast = !f2.empty() && f2.back() == "-o";
    if (barelast && !path.empty()) continue;
    S p = OMCompile::predictOutputFilename(in, t, path);
    CHECK(p == (w2[0] == '/' ? w2 : cwd + "/" + w2), "predicted output is %s, should be %s", show(p).c_str(), show(w2).c_str());
    CHECK(OMCompile::predictModelTag(t) == tagof(f2), "predicted tag is %s", show(OMCompile::predictModelTag(t)).c_str());
    S m = "(refused)"; try { m = OMCompile::predictInputFilename(in, t); } catch (const OMCompileException &) {}
    S wm = model(in, f2); if (wm.empty()) wm = "(refused)";
    CHECK(m == wm, "predicted model is %s, should be %s", show(m).c_str(), show(wm).c_str());
  }
}
/* ---- running things */
static void put(const S &name, const S &text, int mode = 0644) { { std::ofstream o(name, std::ios::binary); o << text; } chmod(name.c_str(), mode); }
static S slurp(const S &name) { std::ifstream i(name, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static V lines0(const S &t) { V v; S a; for (char c : t) { if (c == 0) { v.push_back(a); a.clear(); } else a += c; } return v; }
static S here() { return fs::current_path().string(); }
/* a program that records its arguments and directory and ends as told by the file "how" */
static const char *REC = "#!/bin/sh\nd=$(dirname \"$0\")\npwd > \"$d/pwd\"\n: > \"$d/argv\"\nfor a in \"$@\"; do printf '%s\\0' \"$a\" >> \"$d/argv\"; done\n[ -n \"$SPEAK\" ] && { echo to-out; echo to-err >&2; }\n. \"$d/how\"\n";
struct Quiet { int o, e; Quiet() { fflush(stdout); fflush(stderr); o = dup(1); e = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); } ~Quiet() { fflush(stdout); fflush(stderr); dup2(o, 1); dup2(e, 2); close(o); close(e); } };
static void nothing(int) {}
static void commands(long n) {
  S root = here(), d = root + "/p";
  fs::create_directories(d); fs::create_directories(root + "/w d");
  S prog = d + "/rec ord"; put(prog, REC, 0755); put(d + "/plain", "text", 0644); put(d + "/bad", "#!/no/such/interpreter\n", 0755);
  setenv("SPEAK", "", 1);
  for (long it = 0; it < n; ++it) {
    V args; int k = (int)rndr(0, 5);
    Command c(prog);
    CUR("a command with %d arguments", k);
    if (rnd() % 8 == 0) { c.appendStr("gone").appendList({"too"}); c.resetArgs(); }
    for (int i = 0; i < k; ++i) {
      if (rnd() % 3 == 0) { V l; for (int j = (int)rndr(0, 4); j; --j) { S a = word(8); l.push_back(a); if (!a.empty()) args.push_back(a); } c.appendList(l); }
      else { S a = rnd() % 5 ? word(12) : ""; c.appendStr(a); if (!a.empty()) args.push_back(a); }
    }
    V ga = c.getArgs();
    V want = args; want.insert(want.begin(), "rec ord");
    CHECK(ga == want, "argument list %s, appended %s", show(ga).c_str(), show(want).c_str());
    int how = (int)(rnd() % 6), code = (int)(rnd() % 3 ? rndr(1, 255) : 0), sig = (int)(rnd() % 2 ? SIGKILL : SIGTERM);
    put(d + "/how", how == 0 ? "kill -" + std::to_string(sig) + " $$\n" : "exit " + std::to_string(code) + "\n");
    S wd = rnd() % 3 == 0 ? "" : rnd() % 2 ? "w d" : root + "/w d"; bool redirect = rnd() % 4 == 0;
    unlink((d + "/argv").c_str()); unlink((root + "/log").c_str());
    bool intr = rnd() % 5 == 0;
    CUR("running with arguments %s in directory %s, the program %s%s%s", show(args).c_str(), show(wd).c_str(), how == 0 ? "is killed" : ("ends with " + std::to_string(code)).c_str(), redirect ? ", output to a file" : "", intr ? ", a timer going off" : "");
    if (redirect) { c.redirectExecStreams(root + "/log"); setenv("SPEAK", "1", 1); } else setenv("SPEAK", "", 1);
    if (intr) {
      put(d + "/how", "sleep 0.05\n" + slurp(d + "/how"));
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = nothing; sigaction(SIGALRM, &sa, 0);
      ualarm(15000, 0);
    }
    int rc = -1; bool threw = false; S what;
    { Quiet q; try { rc = c.exec(wd); } catch (const CommandException &e) { threw = true; what = e.what(); } }
    if (intr) { ualarm(0, 0); while (waitpid(-1, 0, 0) > 0) {} }
    CHECK(here() == root, "the working directory is left at %s", here().c_str());
    if (how == 0) CHECK(threw, "the killed program is reported as ended with %d", rc);
    else CHECK(!threw && rc == code, "the result is %s", threw ? what.c_str() : std::to_string(rc).c_str());
    CHECK(lines0(slurp(d + "/argv")) == args, "the program received %s", show(lines0(slurp(d + "/argv"))).c_str());
    S pwd = slurp(d + "/pwd"); if (!pwd.empty()) pwd.pop_back();
    CHECK(pwd == (wd.empty() ? root : root + "/w d"), "the program ran in %s", pwd.c_str());
    if (redirect) { S l = slurp(root + "/log"); CHECK(l == "to-out\nto-err\n", "the log holds %s", show(l).c_str()); }
    if (it % 4) continue;
    for (S bad : {S("/no/such/program"), S("no-such-program-anywhere"), d + "/plain", d + "/bad", d}) {
      Command b(bad);
      S wd2 = rnd() % 2 ? "" : root + "/w d";
      CUR("running %s, which cannot be run, in %s", bad.c_str(), show(wd2).c_str());
      int r = 0; bool t = false; { Quiet q; try { r = b.exec(wd2); } catch (const CommandException &) { t = true; } }
      CHECK(t || r != 0, "is taken for success");
      CHECK(here() == root, "the working directory is left at %s", here().c_str());
    }
    { CUR("running in a directory that does not exist"); put(d + "/how", "exit 0\n"); unlink((d + "/argv").c_str()); Command b(prog); bool t = false; { Quiet q; try { b.exec(root + "/none"); } catch (const CommandException &) { t = true; } }
      CHECK(t, "is taken for success"); CHECK(!fs::exists(d + "/argv"), "the program was run all the same"); CHECK(here() == root, "the working directory is left at %s", here().c_str()); }
    if (it % 16 == 0) { CUR("running with child signals ignored"); put(d + "/how", "exit 3\n"); signal(SIGCHLD, SIG_IGN); Command b(prog); bool t = false; int r = 0; { Quiet q; try { r = b.exec(); } catch (const CommandException &) { t = true; } } signal(SIGCHLD, SIG_DFL); CHECK(t || r == 3, "a failure is taken for %d", r); }
    bool t = false; try { Command e(""); } catch (const CommandException &) { t = true; } CHECK(t, "a command without a program is accepted");
  }
}
/* a compiler that makes the files onnx-mlir makes */
static const char *COMP = "#!/bin/sh\nd=$(dirname \"$0\")\n: > \"$d/argv\"\nfor a in \"$@\"; do printf '%s\\0' \"$a\" >> \"$d/argv\"; done\nout=; ext=.so; in=; prev=\n"
  "for a in \"$@\"; do\n if [ \"$prev\" = -o ]; then out=$a; prev=; continue; fi\n prev=\n case \"$a\" in -o=?*) out=${a#-o=};; -o) prev=-o;; -EmitObj|--EmitObj) ext=.o;; -EmitJNI|--EmitJNI) ext=.jar;; -EmitLib|--EmitLib) ext=.so;; -Emit*|--Emit*) ext=.onnx.mlir;; -*) ;; *) in=$a;; esac\ndone\n"
  "[ -n \"$out\" ] || out=${in%.*}\n. \"$d/how\"\n[ -n \"$NOFILE\" ] || : > \"$out$ext\"\n[ -z \"$CONSTS\" ] || : > \"$out.constants.bin\"\nexit 0\n";
static void compiles(long n) {
  S root = here(), d = root + "/c";
  fs::create_directories(d); S prog = d + "/onnx-mlir"; put(prog, COMP, 0755);
  for (long it = 0; it < n; ++it) {
    S run = root + "/run"; fs::remove_all(run); fs::create_directories(run + "/sub"); fs::create_directories(run + "/o p"); fs::create_directories(run + "/a.b");
    fs::current_path(run);
    S in = pick({"m.onnx", "sub/m.mlir", "a.b/m.v1.onnx", "ABS"}); if (in == "ABS") in = run + "/sub/q.onnxtext";
    put(in, "model");
    bool given = rnd() % 3 != 0;
    V f; for (int k = (int)rndr(0, 3); k; --k) f.push_back(pick({"-O3", "-EmitLib", "--EmitObj", "-EmitJNI", "--EmitMLIR", "--tag=x y", "-o=x", "-mcpu=z16", "-onnx-op-stats=TXT", "--O2"}));
    if (rnd() % 3 == 0) { f.push_back("-o"); f.push_back(pick({"res", "sub/res", "res.x"})); }
    if (!given) f.insert(f.begin(), in);
    { int emits = 0, outs = 0; V g; for (size_t i = 0; i < f.size(); ++i) { if (f[i].find("Emit") != S::npos && emits++) continue; if (f[i][0] == '-' && f[i][1] == 'o' && (f[i] == "-o" || f[i][2] == '=') && outs++) { if (f[i] == "-o") ++i; continue; } g.push_back(f[i]); } f = g; }
    S path = rnd() % 3 ? "" : pick({"o p", "sub", "ABS"}); if (path == "ABS") path = run + "/o p";
    S t; for (auto &x : f) { t += " "; t += quote_arg(x); }
    int how = (int)(rnd() % 8); bool consts = rnd() % 2; int code = (int)rndr(1, 255);
    put(d + "/how", S("NOFILE=") + (how == 1 ? "1" : "") + "\nCONSTS=" + (consts ? "1" : "") + "\n" + (how == 0 ? "exit " + std::to_string(code) + "\n" : how == 2 ? "kill -9 $$\n" : ""));
    CUR("compiling %s with flags %s, output path %s, the compiler %s", show(given ? in : "").c_str(), show(t).c_str(), show(path).c_str(), how == 0 ? "fails" : how == 1 ? "makes no file" : how == 2 ? "is killed" : "succeeds");
    OMCompile c(rnd() % 2 ? prog : S("/no/such/compiler")); bool threw = false; S what;
    S pred = OMCompile::predictOutputFilename(given ? in : "", t, path);
    V eff = apply(f, path, in); S w = outname(in, eff); if (w[0] != '/') w = run + "/" + w;
    { Quiet q; try { c.compile(given ? in : "", t, path, prog, rnd() % 2 ? "" : run + "/log"); } catch (const OMCompileException &e) { threw = true; what = e.what(); } }
    CHECK(here() == run, "the working directory is left at %s", here().c_str());
    V got = lines0(slurp(d + "/argv")), want = eff; if (given) want.push_back(in);
    CHECK(got == want, "the compiler received %s, should receive %s", show(got).c_str(), show(want).c_str());
    if (how <= 2) { CHECK(threw, "is taken for success"); bool t2 = false; try { c.getOutputFilename(); } catch (const OMCompileException &) { t2 = true; } CHECK(t2, "an output name is given although the compilation failed"); fs::current_path(root); continue; }
    CHECK(!threw, "refused: %s", what.c_str());
    CHECK(pred == w, "predicted output is %s, the compiler makes %s", pred.c_str(), w.c_str());
    CHECK(c.getOutputFilename() == w, "the output name is %s, the compiler made %s", c.getOutputFilename().c_str(), w.c_str());
    S wc = w.substr(0, w.size() - ext(eff).size()) + ".constants.bin", gc = c.getOutputConstantFilename();
    if (!consts) CHECK(gc.empty(), "a file of constants %s is reported, none was made", gc.c_str());
    else if (ext(eff) != ".onnx.mlir") CHECK(!gc.empty() && fs::absolute(gc).lexically_normal() == fs::path(wc).lexically_normal(), "the file of constants reported is %s, the compiler made %s", show(gc).c_str(), wc.c_str());
    CHECK(c.getModelTag() == tagof(eff), "the tag is %s", c.getModelTag().c_str());
    fs::current_path(root);
  }
  fs::current_path(root);
  CUR("compiling a model that is not there"); bool t = false; OMCompile c(prog); { Quiet q; try { c.compile("none.onnx", "", ""); } catch (const OMCompileException &) { t = true; } } CHECK(t, "is taken for success");
  CUR("compiling with a missing compiler"); put("m.onnx", "x"); t = false; OMCompile c2("/no/such/compiler"); { Quiet q; try { c2.compile("m.onnx", "", ""); } catch (const OMCompileException &) { t = true; } } CHECK(t, "is taken for success");
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long f = mon_arg(argc, argv, "flags", 0), e = mon_arg(argc, argv, "exec", 0);
  if (f) { flags(f); names(f / 2); compiles(f / 500); }
  if (e) commands(e);
  return mon_done();
}
