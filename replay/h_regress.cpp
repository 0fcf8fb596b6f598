// R01 R02 R03 R04 R05 X01 X02: whole runs of a regression test against an oracle on plain values
#include "meas.h"
#include <dirent.h>
#include <expat.h>
#define private public
#define protected public
#include "TestingFramework/tfRegressionTest.h"
#undef private
#undef protected
using h::show;
static std::string dir, slash;
static void put(const std::string &n, const std::string &s) { std::ofstream o(n, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }
static std::string get(const std::string &n) { std::ifstream i(n, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static int open_files() { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }

// ---- what the parser is given, and files without permissions
static std::string fed; static std::vector<int> finals; static std::vector<std::string> noR, noW; static char *pbuf;
static void reset_feed() { fed.clear(); finals.clear(); pbuf = 0; }
extern "C" {
void *__real_XML_GetBuffer(XML_Parser, int); int __real_XML_ParseBuffer(XML_Parser, int, int); int __real_XML_Parse(XML_Parser, const char *, int, int); int __real_access(const char *, int);
void *__wrap_XML_GetBuffer(XML_Parser p, int n) { return pbuf = static_cast<char *>(__real_XML_GetBuffer(p, n)); }
int __wrap_XML_ParseBuffer(XML_Parser p, int n, int f) { if (pbuf && n > 0) fed.append(pbuf, n); finals.push_back(f != 0); return __real_XML_ParseBuffer(p, n, f); }
int __wrap_XML_Parse(XML_Parser p, const char *s, int n, int f) { if (n > 0) fed.append(s, n); finals.push_back(f != 0); return __real_XML_Parse(p, s, n, f); }
int __wrap_access(const char *f, int m) { for (auto &x : noR) if (x == f && (m & R_OK)) return -1; for (auto &x : noW) if (x == f && (m & W_OK)) return -1; return __real_access(f, m); }
}

// ---- a test that plays a list of actions
struct Act { int what = 0; M m; long l = 0; float f = 0; double d = 0; bool b = false, tolerant = false; };   // what: 1..6 a kind, 7 8 9 files
struct R : tu::RegressionTest {
  std::vector<Act> acts; int ret = 0, exc = 0, runs = 0; std::vector<int> got; std::vector<std::string> args; std::vector<size_t> left; std::vector<int> count; std::vector<std::string> reports;
  std::function<void()> in;
  int call(const Act &a) {
    switch (a.what) {
    case 1: return MeasurementTextPlain(a.m.content, a.m.name); case 2: return MeasurementTextString(a.m.content, a.m.name);
    case 3: return MeasurementNumericInteger(a.l, a.m.name, a.tolerant); case 4: return MeasurementNumericFloat(a.f, a.m.name, a.tolerant); case 5: return MeasurementNumericDouble(a.d, a.m.name, a.tolerant);
    case 6: return MeasurementNumericBoolean(a.b, a.m.name, a.tolerant); case 7: return MeasurementFileTextPlain(a.m.content, a.m.name); case 8: return MeasurementFileImagePNG(a.m.content, a.m.name);
    default: return MeasurementFileImageJPEG(a.m.content, a.m.name);
    }
  }
  int Test(int c, char **v) override {
    ++runs; args.assign(v, v + c); if (in) in();
    for (auto &a : acts) { got.push_back(call(a)); left.push_back(Input.size()); count.push_back(inputUnmatched); }
    switch (exc) {
    case 1: throw std::runtime_error("r"); case 2: throw std::logic_error("l"); case 3: throw std::bad_alloc(); case 4: throw std::bad_cast(); case 5: throw std::out_of_range("o"); case 6: throw std::invalid_argument("i");
    case 7: throw 7; case 8: throw std::string("s"); case 9: throw "c"; case 10: throw std::exception(); case 11: throw std::overflow_error("o"); case 12: throw std::underflow_error("u"); case 13: throw std::range_error("r"); case 14: throw std::domain_error("d"); case 15: throw std::length_error("l"); case 16: throw std::bad_exception();
    }
    return ret;
  }
};
static void fix(Act &a) {   // content and kind of the measurement an action makes
  M &m = a.m; m.kind = a.what > 7 ? 7 : a.what; m.enc = m.cmp = "none"; m.esc = true;
  if (a.what == 3) m.content = std::to_string(a.l); if (a.what == 4) m.content = num(a.f, 7); if (a.what == 5) m.content = num(a.d, 16); if (a.what == 6) m.content = a.b ? "1" : "0";
  if (a.what >= 7) m.type = a.what == 7 ? "text/plain" : a.what == 8 ? "image/png" : "image/jpeg";
}
static std::string plain(size_t n, bool nl = true) { static const std::string al = "abcxyz0123 <>&\"'.;/=-_"; std::string s; for (size_t i = h::rnd(n + 1); i > 0; --i) s += nl && h::rnd(12) == 0 ? '\n' : al[h::rnd(al.size())]; return s; }
static double rdbl() { static const double t[] = {0, -0.0, 1, -1, 0.1, 1.001, 0.999, 1e308, -1e308, 1e-20, 5e-324, INFINITY, -INFINITY, NAN, 3.141592653589793, 1e16, 123456789.125}; return h::rnd(3) ? t[h::rnd(17)] : std::ldexp(double(int64_t(h::rnd())), -int(h::rnd(100))); }
static Act ract(const std::string &file = "") {
  Act a; a.what = 1 + h::rnd(file.empty() ? 6 : 9); a.m.name = plain(5, false); a.m.content = a.what >= 7 ? file : plain(h::rnd(20) ? 12 : 1500);
  static const long L[] = {0, 1, -1, 100, 101, 2147483647, 2147483648, -2147483649, 9223372036854775807, -9223372036854775807L - 1}; a.l = h::rnd(4) ? L[h::rnd(10)] : long(h::rnd()); a.f = float(rdbl()); a.d = rdbl(); a.b = h::rnd(2); a.tolerant = h::rnd(2); fix(a); return a;
}
static std::string doc(const std::vector<M> &v) { std::string s = "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n<output>\n"; for (auto &m : v) s += element(m) + "\n"; return s + "</output>\n"; }
static std::string show(const std::vector<Act> &v) { std::string s; for (auto &a : v) s += " {" + a.m.show() + (a.tolerant ? " tolerant" : "") + "}"; return s; }
static int main_(R &r, const std::vector<std::string> &args, std::string *out = 0) {
  std::vector<std::vector<char>> b; std::vector<char *> p; for (auto &a : args) b.emplace_back(a.c_str(), a.c_str() + a.size() + 1); for (auto &x : b) p.push_back(x.data()); p.push_back(0);
  std::ostringstream o; std::streambuf *old = std::cout.rdbuf(o.rdbuf());
  int x; try { x = r.Main(int(args.size()), p.data()); } catch (...) { std::cout.rdbuf(old); h::fail("an exception leaves Main"); }
  std::cout.rdbuf(old); if (out) *out = o.str(); return x;
}
// the verdict for measurements of which files are read (file -> bytes)
static bool agree(const M &b, const M &t, double tol, const std::string &bfile, const std::string &tfile) {
  if (b.name != t.name || b.ty() != t.ty()) return false;
  auto known = [](const std::string &s) { for (int k = 1; k <= 6; ++k) if (s == TYPES[k]) return k; return 0; };
  auto there = [](const std::string &f) { struct stat st; return stat(f.c_str(), &st) == 0 && S_ISREG(st.st_mode); };
  if (t.kind != 7 && b.kind != 7) return verdict(b, t, tol);
  auto val = [&](const M &m, const std::string &f, M &o) { if (m.kind != 7) { o = m; return true; } if (!there(f)) { o = M(); return m.name == "" && m.type == "text/plain"; } o = M(); if (!known(m.type)) return false; o.kind = known(m.type); o.name = m.name; o.content = get(f); return true; };
  M x, y; if (!val(b, bfile, x) || !val(t, tfile, y)) return false;
  if (t.kind >= 3 && t.kind <= 6) return false;
  return equal_mem(x, y);
}

// ---- R02
static void r02() {
  std::string f = dir + "/r02_t", g = dir + "/r02_b", sub = dir + "/r02_sub"; mkdir(sub.c_str(), 0700); bool first = true;
  for (int c = 0; h::more() || first; ++c) {
    if (c > 250) first = false;
    R r; std::vector<M> base; int n = h::rnd(7); std::vector<Act> &acts = r.acts;
    put(f, h::rnd(4) ? "file text" : plain(9)); put(g, h::rnd(3) ? "file text" : plain(9)); bool insub = h::rnd(2); if (insub) put(sub + "/r02_b", h::rnd(2) ? "file text" : plain(6)); else unlink((sub + "/r02_b").c_str());
    bool search = h::rnd(2); if (search) r.PrependInFileSearchPath(sub); double rt = 0; if (h::rnd(2)) { static const double T[] = {0, 0.01, 0.1, 1e-12, 1, -0.5}; rt = T[h::rnd(6)]; r.SetRelativeTolerance(rt); } else rt = r.GetRelativeTolerance();
    for (int i = 0; i < n; ++i) { acts.push_back(ract(h::rnd(2) ? f : "")); }
    for (auto &a : acts) { M m = a.m; if (m.kind == 7) m.content = h::rnd(8) ? "r02_b" : h::rnd(2) ? f : "none";
      switch (h::rnd(9)) { case 0: m = ract("r02_b").m; break; case 1: m.name += "x"; break; case 2: if (m.kind != 6 && (m.kind != 3 || m.content.size() < 12)) m.content += "1"; break; case 3: continue; case 4: base.push_back(ract().m); break; case 5: if (m.kind < 3) { m.enc = "base64"; m.content = enc(m.data(), h::rnd(2)); } break; case 6: if (m.kind == 3) m.content = std::to_string(a.l + (a.l < 1000 ? 1 : 0)); else if (m.kind == 5) m.content = num(a.d * (1 + 1e-9), 16); break; }
      base.push_back(m); }
    std::string d = doc(base); put(dir + "/r02.xml", d);
    h::begin("baseline " + show(d) + (search ? " search path " + sub : "") + " tolerance " + num(rt, 17) + " calls" + show(acts));
    bool out = h::rnd(2); if (out) r.SetOutFileName(dir + "/r02.out"); r.SetInFileName(dir + "/r02.xml"); r.ret = 0; std::vector<size_t> outlen; std::string txt;
    int x = main_(r, {"t"}, &txt); if (out) txt = get(dir + "/r02.out");
    h::same(r.runs, 1, "runs of the test body"); h::same(r.got.size(), acts.size(), "calls made");
    int bad = 0; size_t pos = 0;
    for (size_t i = 0; i < acts.size(); ++i) {
      bool ok = i < base.size(); if (ok) { M b = base[i]; std::string bf = b.content, tail = bf.substr(bf.rfind('/') + 1); struct stat st; if (search && acts[i].m.kind == 7 && b.kind == 7 && stat((sub + "/" + tail).c_str(), &st) == 0) bf = sub + "/" + tail; ok = agree(b, acts[i].m, acts[i].tolerant ? rt : 0, bf, acts[i].m.content); }
      if (!ok) ++bad;
      std::string k = "call " + std::to_string(i + 1) + ": "; h::same(r.got[i] == 0, ok, k + "returns zero"); h::same(r.left[i], base.size() > i + 1 ? base.size() - i - 1 : 0, k + "baseline measurements left"); h::same(r.count[i], bad + 1, k + "count of mismatches (plus one)");
      // a report about the measurement for each mismatch, none for a match
      if (!ok) {
        const M &t = acts[i].m; bool un = i >= base.size() || base[i].name != t.name || base[i].ty() != t.ty(); std::string w;
        if (un) { M u = t; u.name = "Unmatched " + u.name; w = element(u) + "\n"; }
        else { std::string e = t.kind == 1 ? "Difference " : "Test "; w = std::string(t.kind == 7 ? "<DartMeasurementFile" : "<DartMeasurement") + " name=\"" + e + esc(t.name) + "\""; }
        size_t q = txt.find(w, pos); h::want(q != std::string::npos, k + "no report " + show(w) + " in " + show(txt)); pos = q + w.size();
      }
    }
    if (!bad) h::sames(txt, "", "output of a run without a mismatch");
    h::same(x, bad, "result of the run"); h::same(r.Input.size(), size_t(0), "measurements left after the run");
  }
}
// ---- R01
static bool n_last(const std::vector<Act> &v, const Act &a) { return &a == &v.back(); }
static void r01() {
  bool first = true; std::string in = dir + "/r01.xml";
  for (int c = 0; h::more() || first; ++c) {
    if (c > 250) first = false;
    R r; std::string log = "one test object:"; int expected = 0;
    for (int s = 1 + h::rnd(4); s > 0; --s) {
      std::vector<Act> acts; std::vector<M> base; int bad = 0; static const int V[] = {0, 0, 1, -1, 2, 3, 255, 256, 2147483647, -2147483647 - 1};
      r.got.clear(); r.left.clear(); r.count.clear(); r.runs = 0;
      for (int n = h::rnd(5); n > 0; --n) acts.push_back(ract());
      for (auto &a : acts) { M m = a.m; if (h::rnd(4) == 0) m.name += "y"; base.push_back(m); if (h::rnd(10) == 0 && n_last(acts, a)) base.pop_back(); }
      bool cmp = h::rnd(3) != 0; for (size_t i = 0; i < acts.size(); ++i) if (i >= base.size() || !agree(base[i], acts[i].m, acts[i].tolerant ? r.GetRelativeTolerance() : 0, "", "")) ++bad;
      if (!cmp) bad = 0;
      r.acts = acts; r.ret = V[h::rnd(10)]; r.exc = h::rnd(4) ? 0 : 1 + h::rnd(16); int fail = 0;
      if (cmp) put(in, doc(base));
      std::vector<std::string> args = {"prog"}; if (h::rnd(3) == 0) { expected = V[h::rnd(10)]; args.push_back("-R"); args.push_back(std::to_string(expected)); } else if (h::rnd(4) == 0) { expected = h::rnd(2) ? r.ret : V[h::rnd(10)]; r.SetExpectedReturn(expected); }
      r.SetInFileName(cmp ? in : ""); r.SetOutFileName(h::rnd(3) ? dir + "/r01.out" : "");
      switch (h::rnd(12)) { case 0: r.SetInFileName(dir + "/none.xml"); fail = 1; break; case 1: r.SetOutFileName(dir + "/none/x"); fail = 1; break; case 2: if (cmp) { put(in, "<output><x></output>"); fail = 1; } break; case 3: args.insert(args.begin() + 1, {"-I", dir + "/none"}); fail = 1; break; case 4: args.push_back("-I"); args.push_back(dir); fail = 1; break; }
      if (h::rnd(3) == 0) args.push_back("arg");
      log += std::string(" [") + (cmp ? "compare " + show(doc(base)) : std::string("record")) + " body returns " + std::to_string(r.ret) + (r.exc ? " throws " + std::to_string(r.exc) : "") + " expected " + std::to_string(expected) + (fail ? " a file or option is unusable" : "") + " args " + h::showl(args) + " calls" + show(acts) + "]";
      h::begin(log); int x = main_(r, args); if (fail == 1 && args.size() > 2 && args[1] == "-I") expected = r.GetExpectedReturn();
      if (fail) { h::same(r.runs, 0, "runs of the test body"); h::want(x != 0, "the result is 0 although the run failed"); }
      else if (r.exc) { h::same(r.runs, 1, "runs of the test body"); h::want(x != 0, "the result is 0 although the body threw"); }
      else if (r.ret != expected && r.ret != 0) h::same(x, r.ret, "the result");
      else h::same(x, bad, "the result");
      h::want(!r.os && !r.is, "a file stays open");
    }
  }
}
// ---- R03
static void r03() {
  std::string f = dir + "/r03_a", g = dir + "/r03_b", ro = dir + "/r03_ro", hid = dir + "/r03_hid", d1 = dir + "/r03_d", d2 = dir + "/r03_e", dh = dir + "/r03_dh"; for (auto &x : {f, g, ro, hid}) put(x, "x"); for (auto &x : {d1, d2, dh}) mkdir(x.c_str(), 0700);
  noW = {ro}; noR = {hid, dh};
  std::vector<std::string> words = {"-O", "-I", "-R", "-P", "-O", "-I", "-R", "-P", f, g, ro, hid, d1, d2, dh, dir + "/new", dir + "/none/x", "12", "-3", "99999999999", "1x", "010", "-017", "0x1f", "", "x", "--", "-Ofile", "-o", "-I ", "-", "2147483648", " 7"};
  auto isf = [&](const std::string &s) { struct stat st; return stat(s.c_str(), &st) == 0 && S_ISREG(st.st_mode); }; auto isd = [&](const std::string &s) { struct stat st; return stat(s.c_str(), &st) == 0 && S_ISDIR(st.st_mode); };
  auto one = [&](const std::vector<std::string> &args) {
    h::begin("arguments " + h::showl(args));
    R r; r.SetInFileName("in0"); r.SetOutFileName("out0"); r.SetExpectedReturn(5); std::vector<std::string> path = {"p0"}; r.PrependInFileSearchPath(fileutil::PathName("p0"));
    std::string in = "in0", out = "out0", o1, i1; bool ho = false, hi = false; int ret = 5; size_t i = 1; bool rej = false;
    while (i + 1 < args.size()) {
      const std::string &a = args[i], &v = args[i + 1];
      if (a == "-O") { if (!(isf(v) && v == ro)) { ho = true; o1 = v; } } else if (a == "-I") { if (!isf(v) || v == hid) { rej = true; break; } hi = true; i1 = v; }
      else if (a == "-R") ret = (int)strtol(v.c_str(), 0, 10); else if (a == "-P") { if (!isd(v) || v == dh) { rej = true; break; } path.insert(path.begin(), v); } else break;
      i += 2;
    }
    if (ho) out = o1; if (hi) in = i1;
    std::vector<std::vector<char>> b; std::vector<char *> p, q; for (auto &a : args) b.emplace_back(a.c_str(), a.c_str() + a.size() + 1); for (auto &x : b) p.push_back(x.data()); p.push_back(0); q = p;
    int c = int(args.size()); bool threw = false; h::limit(20); try { r.ParseAndRemoveArguments(c, p.data()); } catch (std::exception &) { threw = true; } h::limit(0);
    h::same(threw, rej, "rejected with an exception");
    h::want(p.back() == 0, "the null at the end of the vector was overwritten");
    for (size_t k = 0; k < args.size(); ++k) h::sames(b[k].data(), args[k], "argument text " + std::to_string(k));
    if (rej) return;
    std::vector<char *> w; w.push_back(q[0]); for (size_t k = i; k < args.size(); ++k) w.push_back(q[k]);
    h::same(c, int(w.size()), "number of remaining arguments"); for (int k = 0; k < c; ++k) h::want(p[k] == w[k], "remaining argument " + std::to_string(k) + ": got " + show(p[k] ? p[k] : "(null)") + ", expected " + show(w[k]));
    h::sames(r.GetInFileName(), in, "input file name"); h::sames(r.GetOutFileName(), out, "output file name"); h::same(r.GetExpectedReturn(), ret, "expected return");
    std::vector<std::string> got; for (auto &x : r.GetInFileSearchPath()) got.push_back(x.GetPathName()); h::sames(h::showl(got), h::showl(path), "search path");
  };
  one({"p"}); for (auto &a : words) { one({"p", a}); for (auto &b : words) { one({"p", a, b}); one({"p", "-R", "1", a, b}); one({"p", a, b, "-O", f}); } }
  while (h::more()) { std::vector<std::string> a = {"prog"}; for (int n = h::rnd(h::rnd(10) ? 8 : 30); n > 0; --n) { if (h::rnd(3)) { static const char *o[] = {"-O", "-I", "-R", "-P"}; int k = h::rnd(4); a.push_back(o[k]); a.push_back(k == 0 ? (h::rnd(3) ? dir + "/new" + std::to_string(h::rnd(3)) : ro) : k == 1 ? (h::rnd(2) ? f : g) : k == 2 ? std::to_string(int(h::rnd(20)) - 10) : h::rnd(2) ? d1 : d2); } else a.push_back(words[h::rnd(words.size())]); } one(a); }
  noR.clear(); noW.clear();
}
// ---- R04
static std::string nodouble(std::string g) { size_t p; while ((p = g.find("//")) != std::string::npos) g.erase(p, 1); return g; }
static void r04() {
  std::vector<std::string> ds; for (int k = 0; k < 4; ++k) { ds.push_back(dir + "/r04_" + std::to_string(k)); mkdir(ds[k].c_str(), 0700); } ds.push_back(dir + "/r04_none");
  char cwd[4096]; h::want(getcwd(cwd, sizeof cwd) != 0, "no working directory"); h::want(chdir(ds[0].c_str()) == 0, "no scratch directory"); bool first = true;
  auto base = [](const std::string &n) { M m; m.name = n; m.content = "c"; return doc({m}); };
  for (int c = 0; h::more() || first; ++c) {
    if (c > 250) first = false;
    static const char *N[] = {"b.xml", "x/b.xml", "c.xml"}; std::string name = N[h::rnd(3)]; noR.clear();
    for (int k = 0; k < 4; ++k) { mkdir((ds[k] + "/x").c_str(), 0700); for (auto n : N) { std::string f = ds[k] + "/" + n; unlink(f.c_str()); rmdir(f.c_str()); int w = h::rnd(8); if (w < 3) put(f, base(f)); else if (w == 3) mkdir(f.c_str(), 0700); if (w < 3 && h::rnd(8) == 0) noR.push_back(f); } }
    R r; std::vector<std::string> path; for (int n = h::rnd(5); n > 0; --n) { path.push_back(ds[h::rnd(5)] + (h::rnd(4) ? "" : "/")); }
    fileutil::PathList pl; for (auto &p : path) pl.push_back(fileutil::PathName(p)); bool pre = h::rnd(2); if (pre) for (auto i = path.rbegin(); i != path.rend(); ++i) r.PrependInFileSearchPath(*i); else r.SetInFileSearchPath(pl);
    if (h::rnd(4) == 0) name = ds[1 + h::rnd(3)] + "/" + name; if (h::rnd(10) == 0) name = ""; bool abs = !name.empty() && name[0] == '/';
    auto isf = [](const std::string &s) { struct stat st; return stat(s.c_str(), &st) == 0 && S_ISREG(st.st_mode); };
    // the file: the first search path that has it, else the name itself
    std::string file, key; if (!name.empty()) { for (auto &p : path) { std::string q = abs ? name : p + (p.back() == '/' ? "" : "/") + name; if (isf(q)) { file = q; break; } } if (file.empty()) file = name; }
    auto nor = [&](const std::string &f) { std::string g = f; size_t p; while ((p = g.find("//")) != std::string::npos) g.erase(p, 1); if (!g.empty() && g[0] != '/') g = ds[0] + "/" + g; for (auto &x : noR) if (x == g) return true; return false; };
    // the stand-in for permissions knows exact names only
    if (nor(file)) noR.push_back(file);
    bool there = !file.empty() && isf(file), mode = there && !nor(file); int outw = h::rnd(4); std::string out = outw == 0 ? "" : outw == 1 ? dir + "/none/o" : dir + "/r04.out";
    h::begin("input " + show(name) + " search paths " + h::showl(path) + " output " + show(out) + (file.empty() ? "" : " (the file is " + file + (there ? mode ? ")" : ", not readable)" : ", missing)")));
    if (!name.empty()) r.SetInFileName(name); r.SetOutFileName(out);
    h::same(r.GetCompareMode(), mode, "compare mode"); h::same(r.GetCompareMode(), mode, "compare mode, asked again");
    std::string seen = "none"; int during = 0; bool cm = false; r.in = [&] { seen = r.Input.empty() ? "" : r.Input.front()->GetAttributeName(); during = open_files(); cm = r.GetCompareMode(); };
    int before = open_files(); unlink((dir + "/r04.out").c_str()); int x = main_(r, {"t"}); int after = open_files();
    h::want(!r.os && !r.is, "a stream is left behind"); h::same(after, before, "open files after the run");
    bool dirlike = false; { struct stat st; dirlike = !there && !file.empty() && stat(file.c_str(), &st) == 0; }
    if (outw == 1 || (!name.empty() && !there)) { h::same(r.runs, 0, dirlike ? "runs of the test body (the input is a directory)" : "runs of the test body"); h::want(x != 0, "the result is 0"); continue; }
    h::same(r.runs, 1, "runs of the test body"); h::same(cm, there, "compare mode during the run"); h::same(during, before + (there ? 1 : 0) + (out.empty() ? 0 : 1), "open files during the run");
    if (there) { h::sames(seen, file[0] == '/' ? nodouble(file) : ds[0] + "/" + file, "the baseline that was read"); }
    if (!out.empty()) { std::string o = get(out); if (there) h::sames(o, "", "output of the run"); else h::want(o.find("</output>\n") != std::string::npos, "the output is incomplete: " + show(o)); }
  }
  h::want(chdir(cwd) == 0, "working directory"); noR.clear();
}
// ---- R05
static void r05() {
  bool first = true; std::string out = dir + "/r05.out", head = "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n<!-- created on ";
  for (int c = 0; h::more() || first; ++c) {
    if (c > 250) first = false;
    R r; static const char *F[] = {"/a/b/c.txt", "c.txt", "/", "", "a/", "./x y", "a//b&<>.png", "..", "/abs"}; for (int n = h::rnd(8); n > 0; --n) { Act a = ract("f"); if (a.what < 3 && h::rnd(3) == 0) { a.m.name = rtext(5); a.m.content = rtext(h::rnd(10) ? 10 : 5000); } if (a.what >= 7) a.m.content = h::rnd(3) ? F[h::rnd(9)] : "/x/" + plain(6, false); fix(a); r.acts.push_back(a); }
    h::begin("record calls" + show(r.acts)); bool file = h::rnd(2); if (file) r.SetOutFileName(out); std::string txt; int x = main_(r, {"t", "arg"}, &txt); if (file) { h::sames(txt, "", "standard output"); txt = get(out); }
    h::same(x, 0, "the result"); for (auto g : r.got) h::same(g, 0, "the value of a measurement call");
    std::string want; for (auto &a : r.acts) { M m = a.m; if (m.kind == 7) m.content = m.content.substr(m.content.rfind('/') + 1); want += element(m) + "\n"; }
    h::sames(txt.substr(0, head.size()), head, "the header"); size_t p = txt.find("-->\n", head.size()); h::want(p != std::string::npos && txt.substr(head.size(), p - head.size()).find('<') == std::string::npos, "the comment in the header is not closed"); h::sames(txt.substr(p + 4), "<output>\n" + want + "</output>\n", "the document");
  }
}
// ---- X01 X02
static std::string gap_() { static const char *g[] = {"\n", " ", "", "", "<!-- c <x> -->", "text &amp; more", "<?pi x?>", "<![CDATA[<DartMeasurement>]]>", "\n\t"}; return g[h::rnd(9)]; }
// character data in one of its spellings; the value it stands for
static std::string chars(std::string &val, size_t n) {
  std::string s; for (size_t i = h::rnd(n + 1); i > 0; --i) switch (h::rnd(9)) {
    case 0: s += "&lt;"; val += '<'; break; case 1: s += "&amp;"; val += '&'; break; case 2: s += "&#65;"; val += 'A'; break; case 3: s += "<![CDATA[<&]]>"; val += "<&"; break; case 4: s += "\n"; val += '\n'; break; case 5: s += "<!-- x -->"; break;
    default: { std::string t(1 + h::rnd(h::rnd(30) ? 5 : 1500), char('a' + h::rnd(26))); s += t; val += t; } }
  return s;
}
static std::string attr(const std::string &n, const std::string &v) { return " " + n + "=\"" + esc(v) + "\""; }
static std::string rdoc(std::vector<M> &want, size_t n) {
  std::string s = h::rnd(3) ? "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n" : ""; std::string root = h::rnd(8) ? "output" : "other"; s += "<" + root + (h::rnd(4) ? "" : " a=\"b\"") + ">";
  for (; n > 0; --n) {
    s += gap_(); int w = h::rnd(12); M m; std::string val, body, at; bool nested = false;
    if (w == 0) { s += "<Unknown name=\"u\" type=\"text/plain\">" + chars(val, 3) + (h::rnd(2) ? "<DartMeasurement name=\"deep\" type=\"text/plain\">x</DartMeasurement>" : "") + "</Unknown>"; continue; }
    m.name = plain(6, false); std::vector<std::string> as; bool f = w < 4; static const char *T[] = {"text/plain", "text/string", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean", "image/png", "text", "", "link"};
    if (h::rnd(8)) as.push_back(attr("name", m.name)); else m.name = f ? "unknown" : ""; std::string ty = T[h::rnd(10)]; bool ht = h::rnd(8); if (ht) as.push_back(attr("type", ty));
    if (f) { m.kind = 7; m.type = ht ? ty : "text/plain"; } else { m.kind = 1; if (ht) for (int k = 1; k <= 6; ++k) if (ty == TYPES[k]) m.kind = k; if (h::rnd(4) == 0) { m.enc = h::rnd(2) ? "base64" : plain(4, false); as.push_back(attr("encoding", m.enc)); } if (h::rnd(5) == 0) { m.cmp = h::rnd(2) ? "gzip" : plain(4, false); as.push_back(attr("compression", m.cmp)); } }
    if (h::rnd(6) == 0) as.push_back(attr("extra", "1")); for (size_t i = as.size(); i > 1; --i) std::swap(as[i - 1], as[h::rnd(i)]);
    body = chars(val, h::rnd(3) ? 4 : 1); if (h::rnd(6) == 0) { std::string v2; nested = true; std::string in = h::rnd(2) ? "<DartMeasurement name=\"in\" type=\"text/plain\">" + chars(v2, 2) + (h::rnd(3) ? "" : "<deep><deeper/></deep>") + "</DartMeasurement>" : "<b/>"; body += in + chars(v2, 2) + (h::rnd(3) ? "" : in); }
    std::string el = f ? "DartMeasurementFile" : "DartMeasurement"; s += "<" + el; for (auto &a : as) s += a; s += body.empty() && h::rnd(2) ? "/>" : ">" + body + "</" + el + ">";
    m.content = val; if (!nested) want.push_back(m);
  }
  return s + gap_() + "</" + root + ">" + (h::rnd(3) ? "\n" : h::rnd(2) ? "<!-- end -->" : "");
}
static bool wellformed(const std::string &s) { XML_Parser p = XML_ParserCreate("US-ASCII"); bool ok = __real_XML_Parse(p, s.data(), int(s.size()), 1) != XML_STATUS_ERROR; XML_ParserFree(p); return ok; }
static void check_list(R &r, const std::vector<M> &want) {
  size_t i = 0; for (auto p : r.Input) { if (i >= want.size()) h::fail("one measurement too many: name " + show(p->GetAttributeName()) + " content " + show(p->GetContent())); is(p, want[i], "measurement " + std::to_string(i + 1)); ++i; }
  h::same(i, want.size(), "number of measurements");
}
static void x01() {
  bool first = true; std::string f = dir + "/x01.xml";
  for (int c = 0; h::more() || first; ++c) {
    if (c > 400) first = false;
    std::vector<M> want; std::string s = rdoc(want, h::rnd(h::rnd(10) ? 5 : 40)); if (h::rnd(3) == 0) { std::string pad(h::rnd(1100), ' '); size_t p = s.find('>', s.find("<o")); s.insert(p + 1, pad); }
    h::begin("document " + show(s)); put(f, s); R r; r.SetInFileName(f); int k = open_files(); { std::ostringstream o; r.BeginMeasurement(); } check_list(r, want);
    if (h::rnd(4) == 0) { r.ReadXMLInputFree(); h::same(r.Input.size(), size_t(0), "measurements after they were freed"); }
    r.EndMeasurement(); h::same(open_files(), k, "open files"); h::same(r.Input.size(), size_t(0), "measurements left");
  }
}
struct Bad : std::streambuf {   // fails from some place on
  std::string s; size_t at; Bad(const std::string &t, size_t a) : s(t), at(a) { setg(&s[0], &s[0], &s[0] + a); }
  int_type underflow() override { throw std::runtime_error("device"); }
  pos_type seekoff(off_type o, std::ios::seekdir d, std::ios::openmode) override { size_t p = d == std::ios::beg ? o : d == std::ios::end ? s.size() + o : size_t(gptr() - eback()) + o; setg(&s[0], &s[0] + std::min(p, at), &s[0] + at); return pos_type(off_type(p)); }
  pos_type seekpos(pos_type p, std::ios::openmode m) override { return seekoff(off_type(p), std::ios::beg, m); }
};
static void feed(const std::string &s, const std::vector<M> *want) {
  static const std::string f = dir + "/x02.xml"; put(f, s); R r; r.SetInFileName(f); bool ok = wellformed(s), threw = false; h::begin(h::str(s.size()) + " bytes, " + (ok ? "well formed" : "malformed") + ": " + show(s.substr(0, 300)) + (s.size() > 300 ? "..." + show(s.substr(s.size() - 40)) : ""));
  reset_feed(); h::limit(30); try { r.BeginMeasurement(); } catch (std::exception &) { threw = true; } h::limit(0); delete r.is; r.is = 0;
  h::same(threw, !ok, "ended with an exception");
  if (!ok) { h::same(r.Input.size(), size_t(0), "measurements after a parse error"); h::want(s.compare(0, fed.size(), fed) == 0 && fed.size() <= s.size(), "the parser was not given the beginning of the file"); return; }
  h::want(fed == s, "the parser was given " + h::str(fed.size()) + " bytes that are not those of the file"); h::want(!finals.empty() && finals.back(), "the last piece is not marked as final"); for (size_t k = 0; k + 1 < finals.size(); ++k) h::want(!finals[k], "piece " + h::str(k + 1) + " of " + h::str(finals.size()) + " is marked as final");
  if (want) check_list(r, *want);
}
static void x02() {
  M m; m.name = "n"; m.content = "c"; std::vector<M> one = {m}; std::string d = doc(one);
  for (size_t n = d.size(); n < 4200; n += (n % 1024 > 3 && n % 1024 < 1010 ? 13 : 1)) { std::string s = d; s.insert(s.find("<output>") + 8, n - d.size(), ' '); feed(s, &one); std::string e = d + std::string(n - d.size(), '\n'); feed(e, &one); }
  for (size_t n = 0; n < d.size(); ++n) feed(d.substr(0, n), 0);
  feed("", 0); for (size_t k : {0, 1, 5, 1024, 2048}) feed(std::string(k, ' '), 0);
  for (size_t k : {size_t(0), size_t(10), size_t(1023), size_t(1024), size_t(1500), size_t(2048), size_t(3000)}) {
    std::string s = d; s.insert(s.find("<output>") + 8, 3100 - d.size(), ' '); h::begin("a read error after " + h::str(k) + " of 3100 bytes"); Bad b(s, k); R r; r.is = new std::istream(&b); bool threw = false; reset_feed(); try { r.ReadXMLInput(); } catch (std::exception &) { threw = true; } h::want(threw, "no exception"); h::same(r.Input.size(), size_t(0), "measurements after a read error"); delete r.is; r.is = 0;
  }
  bool first = true;
  for (int c = 0; h::more() || first; ++c) { if (c > 100) first = false; std::vector<M> want; std::string s = rdoc(want, h::rnd(h::rnd(10) ? 6 : 60)); feed(s, &want); std::string t = s; if (h::rnd(2)) t.resize(h::rnd(t.size())); else t[h::rnd(t.size())] = "<>&\"x\x80"[h::rnd(6)]; feed(t, 0); }
}
int main(int c, char **v) {
  std::cerr.rdbuf(nullptr); dir = getenv("CV_SCRATCH") ? getenv("CV_SCRATCH") : "."; if (dir[0] != '/') { char b[4096]; if (getcwd(b, sizeof b)) dir = std::string(b) + "/" + dir; }
  return h::run(c, v, {{"R01", r01}, {"R02", r02}, {"R03", r03}, {"R04", r04}, {"R05", r05}, {"X01", x01}, {"X02", x02}});
}
