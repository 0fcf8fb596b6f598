// D01 D02 D03: the report of Diff is read back command by command and applied
#include "common.h"
#include "TestingFramework/tfDiff.h"
#include <algorithm>
using h::show; typedef std::vector<std::string> Lines;
static Lines split(const std::string &s) { Lines l(1); for (char c : s) { if (c == '\n') l.push_back(""); else l.back() += c; } return l; }
struct Change { size_t a, da, b, db; };   // lines [a, a+da) of the first text become lines [b, b+db) of the second
static bool num(const std::string &s, size_t &p, size_t &n) { size_t q = p; n = 0; while (p < s.size() && s[p] >= '0' && s[p] <= '9' && p - q < 9) n = n * 10 + (s[p++] - '0'); return p > q && (s[q] != '0' || p == q + 1); }
static bool range(const std::string &s, size_t &p, size_t &x, size_t &y) { if (!num(s, p, x)) return false; y = x; if (p < s.size() && s[p] == ',') { ++p; return num(s, p, y) && y > x; } return true; }
// reads the report; D02 is the exact format
static std::vector<Change> parse(const std::string &out, const Lines &A, const Lines &B) {
  std::vector<Change> v; size_t p = 0;
  auto line = [&](const std::string &l, const char *what) { std::string w = l + "\n"; if (out.compare(p, w.size(), w)) h::fail(std::string("the report has no ") + what + " " + show(l) + " at character " + h::str(p) + ": " + show(out)); p += w.size(); };
  while (p < out.size()) {
    size_t x, y, u, w; size_t s = p; bool ok = range(out, p, x, y) && p < out.size(); char c = ok ? out[p++] : 0;
    ok = ok && (c == 'a' || c == 'c' || c == 'd') && range(out, p, u, w) && p < out.size() && out[p] == '\n';
    h::want(ok, "no command at character " + h::str(s) + " of the report " + show(out)); ++p;
    std::string cmd = out.substr(s, p - s - 1);
    Change e;
    if (c == 'a') { h::want(x == y, "a range before 'a': " + cmd); e.a = x; e.da = 0; } else { h::want(x >= 1, "line 0: " + cmd); e.a = x - 1; e.da = y - x + 1; }
    if (c == 'd') { h::want(u == w && u >= 1, "the place of a deletion: " + cmd); e.b = u - 1; e.db = 0; } else { h::want(u >= 1, "line 0: " + cmd); e.b = u - 1; e.db = w - u + 1; }
    h::want(e.a + e.da <= A.size() && e.b + e.db <= B.size(), "lines outside the texts: " + cmd + " in " + show(out));
    for (size_t i = 0; i < e.da; ++i) line("< " + A[e.a + i], "line");
    if (c == 'c') line("----", "separator");
    for (size_t i = 0; i < e.db; ++i) line("> " + B[e.b + i], "line");
    v.push_back(e);
  }
  return v;
}
static void one(const std::string &s, const std::string &t) {
  h::begin("first text " + show(s) + " second text " + show(t));
  const std::string a(s), b(t); std::ostringstream o; o << "before\n";
  testutil::Diff(a, b, o);
  h::want(a == s && b == t, "a text was changed");
  std::string out = o.str(); h::want(out.compare(0, 7, "before\n") == 0, "earlier output was changed"); out.erase(0, 7);
  Lines A = split(s), B = split(t);
  auto v = parse(out, A, B);
  h::same(out.empty(), s == t, "nothing is reported");
  size_t pa = 0, pb = 0; Lines R; size_t n = 0;
  for (auto &c : v) {
    h::want(c.da + c.db > 0, "an empty change"); h::want(c.a >= pa && c.b >= pb, "the changes overlap or are not in ascending order: " + show(out));
    h::want(n == 0 || c.a > pa, "two changes without a line between them: " + show(out));
    for (; pa < c.a; ++pa) R.push_back(A[pa]);
    pa += c.da; h::want(R.size() == c.b, "line numbers of the second text do not fit: " + show(out));
    for (size_t i = 0; i < c.db; ++i) R.push_back(B[c.b + i]);
    pb = c.b + c.db; ++n;
  }
  for (; pa < A.size(); ++pa) R.push_back(A[pa]);
  h::want(R == B, "the changes applied to the first text do not give the second: " + show(out));
  if (h::prop() == "D03" && !v.empty()) {
    // equal lines at the beginning and the end are treated as equal
    size_t f = 0, g = 0; while (f < A.size() && f < B.size() && A[f] == B[f]) ++f; while (g < A.size() - f && g < B.size() - f && A[A.size() - 1 - g] == B[B.size() - 1 - g]) ++g;
    h::want(v.front().a >= f && v.front().b >= f && v.back().a + v.back().da <= A.size() - g && v.back().b + v.back().db <= B.size() - g, "equal lines at the beginning or the end are reported as different: " + show(out));
    if (f + g == A.size() || f + g == B.size()) { size_t k = 0; for (auto &c : v) k += c.da + c.db; h::same(k, A.size() + B.size() - 2 * (f + g), "lines reported for a text that is a part of the other"); }
  }
}
static std::string rline() {
  // several of these lines have the same hash value (128 * a character + the next one)
  static const char *w[] = {"", "a", "b", "aa", "b\xc0", "a@", "b\xc1", "a\x41", "c\x80", "b", "ab", "x", "A", "a\r", "< ", "----", "> ", "1c1", "ba"};
  if (h::rnd(12) == 0) { std::string s; for (size_t i = h::rnd(h::rnd(10) ? 6 : 90); i > 0; --i) { char c = h::rnd(3) ? char("ab\0\xff"[h::rnd(4)]) : char(h::rnd(256)); if (c != '\n') s += c; } return s; }
  return w[h::rnd(19)];
}
static std::string join(const Lines &l) { std::string s; for (size_t i = 0; i < l.size(); ++i) { if (i) s += '\n'; s += l[i]; } return s; }
static void all() {
  // all pairs of short texts over two lines' characters
  std::vector<std::string> v; const std::string al("a\nb");
  std::function<void(std::string &, size_t)> go = [&](std::string &s, size_t n) { v.push_back(s); if (n == 0) return; for (char c : al) { s += c; go(s, n - 1); s.pop_back(); } };
  std::string s; go(s, 4);
  for (auto &x : v) for (auto &y : v) one(x, y);
  for (int i = 0; i < 400 && (i < 60 || h::more()); ++i) { Lines p(h::rnd(9)), q(h::rnd(14)); int k = 1 + h::rnd(3); for (auto &x : p) x = char('a' + h::rnd(k)); for (auto &x : q) x = char('a' + h::rnd(k)); one(join(p), join(q)); one(join(q), join(p)); }
  bool first = true;
  for (int n = 0; h::more() || first; ++n) {
    if (n > 1500) first = false;
    Lines l; size_t m = h::rnd(4) ? h::rnd(12) : h::rnd(60) ? h::rnd(60) : h::rnd(900); int k = 1 + h::rnd(5), few = h::rnd(2);
    for (size_t i = 0; i < m; ++i) l.push_back(few ? std::string(1, char('a' + h::rnd(k))) : rline());
    Lines r = l;
    if (h::rnd(5) == 0) { r.clear(); for (size_t i = h::rnd(m + 8); i > 0; --i) r.push_back(few ? std::string(1, char('a' + h::rnd(k))) : rline()); }
    else for (int e = h::rnd(h::rnd(3) ? 4 : 12); e > 0; --e) {
      size_t p = h::rnd(r.size() + 1), c = 1 + h::rnd(h::rnd(4) ? 2 : 9);
      switch (h::rnd(4)) {
      case 0: for (; c > 0; --c) r.insert(r.begin() + p, rline()); break;
      case 1: for (; c > 0 && p < r.size(); --c) r.erase(r.begin() + p); break;
      case 2: for (; c > 0 && p < r.size(); --c, ++p) r[p] = rline(); break;
      default: if (r.size() > 1) { size_t a = h::rnd(r.size()), b = h::rnd(r.size()); std::swap(r[a], r[b]); }
      }
    }
    std::string s = join(l), t = join(r); if (h::rnd(6) == 0) s += '\n'; if (h::rnd(6) == 0) t += '\n';
    one(s, t);
  }
}
// lines whose hash values are equal
static void collide() {
  const char *c[][2] = {{"b\xc0", "a@"}, {"b\xc1", "a\x41"}, {"xb\xc0", "xa@"}, {"b\xc0 tail", "a@ tail"}};
  for (auto &p : c) for (int m = 0; m < 64; ++m) for (int n = 0; n < 64; ++n) { std::string s, t; for (int i = 0; i < 3; ++i) { int x = m >> (2 * i) & 3, y = n >> (2 * i) & 3; s += x == 0 ? p[0] : x == 1 ? p[1] : x == 2 ? "z" : ""; t += y == 0 ? p[0] : y == 1 ? p[1] : y == 2 ? "z" : ""; if (i < 2) { s += '\n'; t += '\n'; } } one(s, t); }
  all();
}
int main(int c, char **v) { return h::run(c, v, {{"D01 D02", all}, {"D03", collide}}); }
