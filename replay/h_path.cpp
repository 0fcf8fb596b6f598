// P01 P02 P03 P04: paths against an oracle that goes character by character
#include "common.h"
#include "FileUtilities/PathName.h"
#include "FileUtilities/FileUtilities.h"
using h::show; using fileutil::PathName; using fileutil::PathList;
static std::string o_tail(const std::string &p) { std::string t; for (char c : p) { if (c == '/') t.clear(); else t += c; } return t; }
static std::string o_dir(const std::string &p) { long k = -1; for (size_t i = 0; i < p.size(); ++i) if (p[i] == '/') k = i; if (k <= 0) return "."; return std::string(p, 0, k); }
static std::string o_ext(const std::string &p) { std::string t = o_tail(p), e; bool any = false; for (char c : t) { if (c == '.') { e.clear(); any = true; } else e += c; } return any ? e : ""; }
static std::string o_join(const std::string &p, const std::string &f) {
  if (p.empty() || (!f.empty() && f[0] == '/')) return f;
  std::string b = p; while (!b.empty() && b.back() == '/') b.pop_back();
  return b + "/" + f;
}
static void parts(const std::string &s) {
  h::begin("path " + show(s));
  const PathName p(s);
  h::sames(p.Tail().GetPathName(), o_tail(s), "Tail");
  h::sames(p.DirectoryName().GetPathName(), o_dir(s), "DirectoryName");
  h::sames(p.Extension(), o_ext(s), "Extension");
  h::same(int(p.GetPathType()), int(!s.empty() && s[0] == '/' ? PathName::Absolute : PathName::Relative), "GetPathType");
  h::sames(p.GetPathName(), s, "the path itself"); h::sames(p.GetNativePathName(), s, "GetNativePathName");
  size_t k = s.rfind('/');
  if (k != std::string::npos && k > 0) h::sames(p.DirectoryName().GetPathName() + "/" + p.Tail().GetPathName(), s, "directory, '/' and last component");
  PathName q(p); q = p; h::sames(q.GetPathName(), s, "a copy");
  if (s.find('\0') == std::string::npos) h::sames(PathName(s.c_str()).GetPathName(), s, "PathName(const char *)");
}
static void all(const std::string &al, size_t n, const std::function<void(const std::string &)> &f) {
  std::string s; std::function<void(size_t)> go = [&](size_t k) { f(s); if (k == n) return; for (char c : al) { s += c; go(k + 1); s.pop_back(); } };
  go(0);
}
static std::string rpath(size_t n) { static const std::string a("/./.ab\0\xff: ", 11); std::string s; size_t m = h::rnd(3); for (size_t i = h::rnd(n + 1); i > 0; --i) s += m == 0 ? a[h::rnd(4)] : m == 1 ? a[h::rnd(a.size())] : char(h::rnd(256)); return s; }
static void p01() { all("/.a", 8, parts); while (h::more()) parts(rpath(h::rnd(30) ? 20 : 3000)); }
static void append(const std::string &a, const std::string &b) {
  h::begin("Append " + show(b) + " to " + show(a));
  PathName p(a); const PathName f(b);
  PathName &r = p.Append(f);
  h::want(&r == &p, "Append returns something else than the path");
  h::sames(p.GetPathName(), o_join(a, b), "joined path"); h::sames(f.GetPathName(), b, "the appended path");
  PathName s(a); s.Append(s); h::sames(s.GetPathName(), o_join(a, a), "a path appended to itself");
  p.Append(f); h::sames(p.GetPathName(), o_join(o_join(a, b), b), "appended twice");
}
static void p02() {
  std::vector<std::string> v; all("/.a", 4, [&](const std::string &s) { v.push_back(s); });
  for (auto &a : v) for (auto &b : v) append(a, b);
  while (h::more()) { std::string a = rpath(40); if (h::rnd(2)) a += std::string(h::rnd(10), '/'); append(a, rpath(40)); }
}
static void p03() {
  std::string base = getenv("CV_SCRATCH") ? getenv("CV_SCRATCH") : ".";
  base += "/p03_" + h::str(getpid()); mkdir(base.c_str(), 0755);
  const char *dirs[] = {"a", "b", "c", "a/s", "b/s", "c/s"};
  for (auto d : dirs) mkdir((base + "/" + d).c_str(), 0755);
  const char *names[] = {"f1", "f2", "f3", "s/f4", "sub"};
  // every name exists as a file, a directory, or not at all, in each directory
  bool first = true;
  while (h::more() || first) {
    first = false;
    std::map<std::string, int> st;
    for (int d = 0; d < 3; ++d) for (auto n : names) {
      std::string p = base + "/" + dirs[d] + "/" + n; int k = h::rnd(4);
      if (k == 1) { std::ofstream(p) << "x"; if (h::rnd(5) == 0) chmod(p.c_str(), 0); } else if (k == 2) mkdir(p.c_str(), 0755); else if (k == 3) symlink(h::rnd(2) ? "f1" : "none", p.c_str());
    }
    for (int r = 0; r < 40; ++r) {
      PathList l; std::vector<std::string> ls;
      for (int i = h::rnd(6); i > 0; --i) { std::string d = h::rnd(8) == 0 ? std::string("/nowhere") : h::rnd(12) == 0 ? std::string("") : base + "/" + dirs[h::rnd(6)] + std::string(h::rnd(3), '/'); l.push_back(PathName(d)); ls.push_back(d); }
      std::string n = h::rnd(15) == 0 ? std::string("") : h::rnd(8) == 0 ? base + "/a/f1" : names[h::rnd(5)];
      std::string tree; 
      std::string want;
      for (auto &d : ls) { std::string j = o_join(d, n); struct stat s; bool reg = !stat(j.c_str(), &s) && S_ISREG(s.st_mode); tree += reg ? "1" : "0"; if (reg) { want = j; break; } }
      h::begin("search " + show(n) + " in " + h::showl(ls) + " regular files: " + tree);
      const PathName p(n); const PathList cl(l);
      h::sames(p.SearchPathList(cl).GetPathName(), want, "path found");
      h::sames(p.GetPathName(), n, "the name searched for");
      h::same(cl.size(), ls.size(), "length of the list"); size_t k = 0; for (auto &e : cl) h::sames(e.GetPathName(), ls[k++], "a path of the list");
    }
    for (int d = 0; d < 3; ++d) for (auto n : names) { std::string p = base + "/" + dirs[d] + "/" + n; if (unlink(p.c_str())) rmdir(p.c_str()); }
  }
  for (int d = 5; d >= 0; --d) rmdir((base + "/" + dirs[d]).c_str());
  rmdir(base.c_str());
}
static void splitted(const PathList &l, const std::string &s, const char *what) {
  std::vector<std::string> w, g;
  if (!s.empty()) { w.push_back(""); for (char c : s) if (c == ':') w.push_back(""); else w.back() += c; }
  for (auto &p : l) g.push_back(p.GetPathName());
  if (g != w) h::fail(std::string(what) + ": got " + h::showl(g) + ", expected " + h::showl(w));
}
static void split(const std::string &s) {
  h::begin("colon separated list " + show(s));
  splitted(fileutil::GetPathListFromColonSeparatedList(s), s, "GetPathListFromColonSeparatedList");
  if (s.find('\0') == std::string::npos && h::rnd(4) == 0) {
    setenv("CV_LIST", s.c_str(), 1); splitted(fileutil::GetPathFromEnviroment("CV_LIST"), s, "GetPathFromEnviroment");
    unsetenv("CV_LIST"); h::same(fileutil::GetPathFromEnviroment("CV_LIST").size(), size_t(0), "GetPathFromEnviroment of an unset variable");
  }
}
static void p04() {
  all(":a/", 8, split);
  while (h::more()) { std::string s; int m = h::rnd(3); for (size_t i = h::rnd(h::rnd(20) ? 40 : 2000); i > 0; --i) s += m == 0 ? ":ab"[h::rnd(3)] : m == 1 ? ":./-;, a"[h::rnd(8)] : char(h::rnd(256)); split(s); }
}
int main(int c, char **v) { return h::run(c, v, {{"P01", p01}, {"P02", p02}, {"P03", p03}, {"P04", p04}}); }
