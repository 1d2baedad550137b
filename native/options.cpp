/* Monitor of C20: option patterns against a matcher of its own (wildcards and a subset of regular expressions),
 * over random patterns, names, and orders of queries. */
#include "mon.h"
#include <map>
#include <string>
#include <vector>
#include "src/Compiler/OptionUtils.hpp"
using namespace onnx_mlir;
typedef std::string S;
typedef std::vector<S> V;
static bool in(const S &s, const char *t) { return s.find(t) != S::npos; }
/* a part given with wildcards: '*' stands for any characters */
static bool glob(const S &p, size_t i, const S &n, size_t j) {
  if (i == p.size()) return j == n.size();
  if (p[i] == '*') { for (size_t k = j; k <= n.size(); ++k) if (glob(p, i + 1, n, k)) return true; return false; }
  return j < n.size() && p[i] == n[j] && glob(p, i + 1, n, j + 1);
}
/* a part given as a regular expression: sequence of (set, count) */
struct Atom { S set; bool any; bool neg; char q; };
static std::vector<Atom> parse(const S &p) {
  std::vector<Atom> r;
  for (size_t i = 0; i < p.size();) {
    Atom a = {S(), false, false, 0};
    if (p[i] == '^' || p[i] == '$') { ++i; continue; }
    if (p[i] == '\\') { a.set = p[i + 1]; i += 2; }
    else if (p[i] == '.') { a.any = true; ++i; }
    else if (p[i] == '[') {
      ++i; if (p[i] == '^') { a.neg = true; ++i; }
      for (; p[i] != ']'; ++i) if (i + 2 < p.size() && p[i + 1] == '-' && p[i + 2] != ']') { for (char c = p[i]; c <= p[i + 2]; ++c) a.set += c; i += 2; } else a.set += p[i];
      ++i;
    } else a.set = p[i++];
    if (i < p.size() && (p[i] == '*' || p[i] == '+' || p[i] == '?')) a.q = p[i++];
    r.push_back(a);
  }
  return r;
}
static bool one(const Atom &a, char c) { return a.any ? true : (a.set.find(c) != S::npos) != a.neg; }
static bool rex(const std::vector<Atom> &r, size_t i, const S &n, size_t j) {
  if (i == r.size()) return j == n.size();
  const Atom &a = r[i];
  size_t lo = a.q == '*' || a.q == '?' ? 0 : 1, hi = a.q == '*' || a.q == '+' ? n.size() : 1;
  for (size_t k = 0;; ++k) {
    if (k >= lo && rex(r, i + 1, n, j + k)) return true;
    if (k == hi || j + k >= n.size() || !one(a, n[j + k])) return false;
  }
}
static bool want(bool emptyNone, const S &text, const S &name) {
  if (text.empty()) return !emptyNone;
  V parts; S cur;
  for (char c : text + ",") if (c == ',' || c == ' ' || c == '\t') { if (!cur.empty()) parts.push_back(cur); cur.clear(); } else cur += c;
  for (auto &p : parts) { if (p == "NONE") return false; if (p == "ALL") return true; }
  bool re = in(text, ".*") || in(text, "\\.") || in(text, "^") || in(text, "$") || in(text, "[") || in(text, "+") || in(text, "?");
  for (auto &p : parts) if (re ? rex(parse(p), 0, name, 0) : glob(p, 0, name, 0)) return true;
  return false;
}
static const char *POOL[] = {"onnx.Add", "onnx.MatMul", "onnx.MatMulInteger", "krnl.memcpy", "zlow.stick", "onnxAdd", "/layer/SMALL", "NONEXT", "SMALL", "BALLAST", "a", "ab", "abc", "b", "add", "onnx.", "onnxxAdd", "", "Add", "onnx.Add.1", "/m/Conv_12", "relu-1", "a:b", "ALLOC", "all", "none", "x_y"};
static S name(void) {
  if (rnd() % 2) return POOL[rnd() % (sizeof POOL / sizeof *POOL)];
  S s; for (int i = (int)rndr(0, 6); i > 0; --i) s += "abxAL.N/_1"[rnd() % 10];
  return s;
}
static S part(bool re) {
  S s, b = name();
  if (!re) { for (char c : b) { if (rnd() % 5 == 0 && (s.empty() || s.back() != '.')) { s += '*'; if (rnd() % 2) continue; } s += c; } if (rnd() % 4 == 0 && (s.empty() || s.back() != '.')) s += '*'; if (rnd() % 6 == 0) s = "*" + s; return s; }
  for (char c : b) {
    switch (rnd() % 10) {
    case 0: s += ".*"; break; case 1: s += '.'; break; case 2: s += S("[") + (rnd() % 3 ? "" : "^") + c + "z]"; break; case 3: s += S("[a-c") + c + "]"; break;
    case 4: if (c != '.') { s += S(1, c) + "+"; break; } s += "\\."; break; case 5: if (c != '.') { s += S(1, c) + "?"; break; } s += "\\."; break;
    default: if (c == '.') s += "\\."; else s += c;
    }
  }
  if (rnd() % 8 == 0) s = "^" + s;
  if (rnd() % 8 == 0) s += "$";
  return s;
}
static S pattern(void) {
  switch (rnd() % 12) { case 0: return ""; case 1: return rnd() % 2 ? "ALL" : "NONE"; }
  bool re = rnd() % 3 == 0, special = rnd() % 8 == 0, none = rnd() % 2;
  S t; int n = (int)rndr(1, 5), at = (int)rndr(0, 4);
  for (int i = 0; i < n; ++i) { if (i) t += ","; if (i && rnd() % 6 == 0) t += ' '; if (special && i == at) t += none ? "NONE" : "ALL"; else t += part(re); }
  return t;
}
static void run(long n) {
  for (long it = 0; it < n; ++it) {
    bool e = rnd() % 2, e2 = rnd() % 2, late = rnd() % 2;
    S p = pattern(), p2 = pattern();
    EnableByRegexOption o(e, late ? (rnd() % 2 ? S() : S(pattern())) : p), other(e2, p2);
    if (late) o.setRegexString(p);
    V asked;
    for (int q = (int)rndr(1, it % 50 ? 14 : 200); q > 0; --q) {
      S x = !asked.empty() && rnd() % 3 == 0 ? asked[rnd() % asked.size()] : name();
      asked.push_back(x);
      CUR("pattern \"%s\"%s%s, name \"%s\" after %d other queries", p.c_str(), e ? " (empty means none)" : "", late ? " (given late)" : "", x.c_str(), (int)asked.size() - 1);
      bool g = rnd() % 8 ? o.isEnabled(x) : o.isEnabled(llvm::StringRef(x));
      CHECK(g == want(e, p, x), "is %s", g ? "enabled" : "not enabled");
      EnableByRegexOption fresh(e, p);
      if (rnd() % 4 == 0) CHECK(fresh.isEnabled(x) == g, "a fresh option answers otherwise");
      if (rnd() % 2) { CUR("pattern \"%s\", name \"%s\" (a second option beside \"%s\")", p2.c_str(), x.c_str(), p.c_str()); bool g2 = other.isEnabled(x); CHECK(g2 == want(e2, p2, x), "is %s", g2 ? "enabled" : "not enabled"); }
      if (asked.size() % 5 == 0) { EnableByRegexOption copy(o); CHECK(copy.isEnabled(x) == g, "a copy answers otherwise"); }
    }
  }
}
int main(int argc, char **argv) {
  mon_init(argc, argv);
  long f = mon_arg(argc, argv, "options", 0);
  if (f) run(f);
  return mon_done();
}
