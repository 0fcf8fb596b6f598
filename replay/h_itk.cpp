// I01, I03: the measurements and names of itk::Regression against what was asked for
#include "common.h"
#define private public
#define protected public
#include "itktf/itktfRegression.h"
#undef private
#undef protected
#include "itkSize.h"
#include "itkIndex.h"
#include "itkImageRegion.h"
#include "itkPoint.h"
#include "itkVector.h"
#include "itkFixedArray.h"
#include "itkMatrix.h"
struct Call { bool integer; long i; double d; std::string name; bool tolerant; int ret;
  bool operator==(const Call &o) const { return integer == o.integer && name == o.name && tolerant == o.tolerant && (integer ? i == o.i : d == o.d); }
  std::string show() const { return (integer ? "integer " + h::str(i) : "double " + h::str(d)) + " " + h::show(name) + (tolerant ? " tolerant" : ""); } };
static std::vector<Call> made; static int odds;
struct T : itk::Regression {
  std::function<int()> body;
  int Test(int, char **) { return body ? body() : 0; }
  int MeasurementNumericInteger(long i, const std::string &n, bool t) { int r = h::rnd(10) < uint64_t(odds); made.push_back({true, i, 0, n, t, r}); return r; }
  int MeasurementNumericDouble(double d, const std::string &n, bool t) { int r = h::rnd(10) < uint64_t(odds); made.push_back({false, 0, d, n, t, r}); return r; }
};
static std::string rname() { static const std::string al = "abz_ 01<.\n"; std::string s; for (size_t i = h::rnd(8); i > 0; --i) s += al[h::rnd(al.size())]; return s; }
static double rd() { switch (h::rnd(4)) { case 0: return double(h::rnd(7)) - 3; case 1: return 1.0 / (1 + h::rnd(9)); default: return (double(h::rnd()) - 9e18) * 1e-12; } }
template <unsigned D> static void one() {
  T t; std::string n = rname(); bool tol = h::rnd(2); made.clear(); odds = h::rnd(3) ? h::rnd(11) : 0; int r = 0; std::vector<Call> e; std::string what;
  auto ints = [&](auto &v, const std::string &nm) { for (unsigned i = 0; i < D; ++i) { v[i] = h::rnd(4) ? long(h::rnd(1000)) - (std::is_signed<typename std::decay<decltype(v[0])>::type>::value ? 500 : 0) : long(h::rnd() >> 2); e.push_back({true, long(v[i]), 0, nm + "_" + h::str(i), tol, 0}); } };
  auto dbls = [&](auto &v) { for (unsigned i = 0; i < D; ++i) { v[i] = rd(); e.push_back({false, 0, double(v[i]), n + "_" + h::str(i), tol, 0}); } };
  bool def = h::rnd(4) == 0;
#define CALL(f, v) h::begin(what + " of " + h::str(D) + " components, name " + h::show(n)); r = def ? t.f(v, n) : t.f(v, n, tol);
  switch (h::rnd(8)) {
  case 0: { if (def) tol = false; itk::Size<D> v; ints(v, n); what = "a size"; CALL(MeasurementInsightSize, v) break; }
  case 1: { if (def) tol = false; itk::Index<D> v; ints(v, n); what = "an index"; CALL(MeasurementInsightIndex, v) break; }
  case 2: { if (def) tol = false; itk::Index<D> i; itk::Size<D> s; ints(i, n + " Index"); ints(s, n + " Size"); itk::ImageRegion<D> v(i, s); what = "a region"; CALL(MeasurementInsightRegion, v) break; }
  case 3: { if (def) tol = true; itk::Point<double, D> v; dbls(v); what = "a point"; CALL(MeasurementInsightPoint, v) break; }
  case 4: { if (def) tol = true; itk::Vector<float, D> v; dbls(v); what = "a vector"; CALL(MeasurementInsightVector, v) break; }
  case 5: { if (def) tol = true; itk::FixedArray<double, D> v; dbls(v); what = "a fixed array"; CALL(MeasurementInsightFixedArray, v) break; }
  default: { if (def) tol = true; itk::Matrix<double, D, (D * 7) % 5 + 1> v; what = "a matrix";
    for (unsigned i = 0; i < D; ++i) for (unsigned j = 0; j < (D * 7) % 5 + 1; ++j) { v[i][j] = rd(); e.push_back({false, 0, v[i][j], n + "_" + h::str(i) + "_" + h::str(j), tol, 0}); }
    CALL(MeasurementInsightMatrix, v) }
  }
  h::same(made.size(), e.size(), "measurements made");
  int sum = 0; for (size_t i = 0; i < e.size(); ++i) { if (!(made[i] == e[i])) h::fail("measurement " + h::str(i) + " is " + made[i].show() + ", not " + e[i].show()); sum += made[i].ret; }
  h::same(r, sum, "the result");
}
static void i03() { bool first = true; for (int c = 0; h::more() || first; ++c) { if (c > 200) first = false; switch (h::rnd(5)) { case 0: one<1>(); break; case 1: one<2>(); break; case 2: one<3>(); break; case 3: one<4>(); break; default: one<12>(); } } }
static std::string hexof(unsigned n) { std::string s; do { s = "0123456789abcdef"[n % 16] + s; n /= 16; } while (n); return s; }
static std::string rooted(const std::string &r, const std::string &n) {
  if (r.empty() || (!n.empty() && n[0] == '/')) return n;
  size_t i = r.size(); while (i > 0 && r[i - 1] == '/') --i;
  return r.substr(0, i) + "/" + n; }
// the hash between the first argument and the number, or the empty string
static std::string namehash(const std::string &s, const std::string &first, unsigned n, const std::string &ext) {
  std::string a = first + "_", b = "_" + hexof(n) + "." + ext;
  if (s.size() <= a.size() + b.size() || s.substr(0, a.size()) != a || s.substr(s.size() - b.size()) != b) return "";
  std::string m = s.substr(a.size(), s.size() - a.size() - b.size());
  return m.size() <= 4 && m.find_first_not_of("0123456789abcdef") == std::string::npos ? m : ""; }
static void i01() {
  bool first = true;
  for (int c = 0; h::more() || first; ++c) {
    if (c > 100) first = false;
    std::vector<std::string> a(1 + h::rnd(4)); for (auto &x : a) x = h::rnd(3) ? rname() : std::string(1, char(1 + h::rnd(255))) + rname();
    std::string hash; bool run = h::rnd(4) == 0;
    for (int o = 0; o < 2; ++o) {
      T t; unsigned n = 0;
      auto body = [&]() {
        std::set<std::string> seen; std::string ext = rname(), root = h::rnd(2) ? "" : rname() + std::string(h::rnd(3), '/');
        size_t k = h::rnd(5) ? h::rnd(6) : 300;
        if (h::rnd(8) == 0) { n = h::rnd(5) ? h::rnd(100000) : 4294967000u - h::rnd(1000); t.m_FileNameCount = n; }
        for (; k > 0; --k) {
          if (h::rnd(3) == 0) { ext = rname(); root = h::rnd(2) ? "" : rname() + std::string(h::rnd(3), '/'); }
          std::string as; for (auto &x : a) as += " " + h::show(x);
          h::begin("arguments" + as + ", extension " + h::show(ext) + ", root " + h::show(root) + ", call " + h::str(n + 1));
          std::string s = root.empty() && h::rnd(2) ? t.GenerateFileName(ext) : t.GenerateFileName(ext, root), u = s; ++n;
          if (!root.empty()) { std::string p = rooted(root, ""); if (a[0].empty() || a[0][0] != '/') { if (s.substr(0, p.size()) != p) { h::fail("the name " + h::show(s) + " is not under the root"); return 0; } u = s.substr(p.size()); } }
          std::string m = namehash(u, a[0], n, ext);
          if (m.empty()) { h::fail("the name is " + h::show(s)); return 0; }
          if (hash.empty()) hash = m; else if (m != hash) h::fail("the value for the arguments is " + m + " and was " + hash);
          if (!seen.insert(s).second) h::fail("the name " + h::show(s) + " again");
        }
        return 0; };
      if (run) {
        std::vector<char *> v; for (auto &x : a) v.push_back(&x[0]); v.push_back(nullptr);
        if (a.size() > 1 && a[1][0] == '-') a[1][0] = '+';
        t.SetOutFileName("/dev/null"); t.body = nullptr;
        if (h::rnd(2)) { std::vector<std::string> b(1 + h::rnd(4)); for (auto &x : b) x = "e" + rname(); std::vector<char *> w; for (auto &x : b) w.push_back(&x[0]); w.push_back(nullptr); t.Main(int(b.size()), w.data()); }
        t.body = body; std::vector<std::string> keep = a; t.Main(int(a.size()), v.data()); a = keep;
        h::begin("the arguments of a run"); if (t.m_ArgumentList != std::list<std::string>(a.begin(), a.end())) h::fail("not the arguments");
      } else { t.m_ArgumentList.assign(a.begin(), a.end()); body(); }
    }
  }
}
int main(int c, char **v) { std::cerr.rdbuf(nullptr); return h::run(c, v, {{"I01", i01}, {"I03", i03}}); }
