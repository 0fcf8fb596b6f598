// T01: commands run through the pipe tool against what they were made to write and how they were made to end
#include "meas.h"
#include <sys/wait.h>
#include "itksys/Process.h"
#define private public
#define protected public
#define main pipe_main
#include "TestingFramework/tfPipeToXML.cxx"
#undef main
#undef private
#undef protected
static std::string dir;
static void put(const std::string &n, const std::string &s) { std::ofstream o(n, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); }
static std::string get(const std::string &n) { std::ifstream i(n, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
static std::string doc(const std::vector<M> &v) { std::string s = "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n<output>\n"; for (auto &m : v) s += element(m) + "\n"; return s + "</output>\n"; }
static std::string word() { static const std::string al = "abz019 _-./\\'\"$`*?;&|<>\t\nOIRP\xc3\xa9"; std::string s; for (size_t i = h::rnd(6); i > 0; --i) s += al[h::rnd(al.size())]; return s; }
static std::string plain(size_t n) { static const std::string al = "abcxyz0123 <>&\"'.;/=-_"; std::string s; for (size_t i = h::rnd(n + 1); i > 0; --i) s += h::rnd(12) == 0 ? '\n' : al[h::rnd(al.size())]; return s; }
static void t01() {
  bool first = true; std::string sc = dir + "/cmd", got = dir + "/args", ox = dir + "/o.xml", in = dir + "/b.xml";
  for (int c = 0; h::more() || first; ++c) {
    if (c > 25) first = false;
    bool cmp = h::rnd(3) == 0; int way = h::rnd(6), code = h::rnd(3) ? h::rnd(256) : 0; std::string all, s = "for a in \"$@\"; do printf '%s\\0' \"$a\"; done > '" + got + "'\n";
    for (int k = 0, n = h::rnd(5); k < n; ++k) {
      std::string p = cmp ? plain(h::rnd(10) ? 40 : 9000) : h::rnd(6) ? rtext(200) : rtext(h::rnd(3) ? 5000 : 150000), f = dir + "/p" + h::str(k); put(f, p); all += p; s += "cat '" + f + "'\n"; if (h::rnd(8) == 0) s += h::rnd(12) ? "sleep 0.01\n" : "sleep 0.7\n";
    }
    bool norm = true; std::string how;
    switch (way) { case 0: how = "kill -KILL $$"; norm = false; break; case 1: how = "kill -TERM $$"; norm = false; break; default: how = "exit " + h::str(code); }
    s += how + "\n"; put(sc, s);
    std::vector<std::string> extra, args = {"tfPipeToXML", "/bin/sh", sc}; for (size_t n = h::rnd(h::rnd(5) ? 4 : 60); n > 0; --n) extra.push_back(word());
    args.insert(args.end(), extra.begin(), extra.end());
    bool start = h::rnd(8) != 0; if (!start) { args[1] = dir + "/none"; all = ""; norm = false; if (h::rnd(4) == 0) { args.resize(1); extra.clear(); } }
    M m; m.name = "stdout"; m.content = all; M b = m; if (cmp && h::rnd(2)) { switch (h::rnd(4)) { case 0: b.content += "x"; break; case 1: if (!b.content.empty()) b.content.erase(h::rnd(b.content.size()), 1); break; case 2: b.name = "other"; break; case 3: b.kind = 2; break; } }
    int want = norm ? code : -1; bool bad = cmp && !equal_mem(b, m);
    h::begin("a command that writes " + h::str(all.size()) + " bytes " + h::show(all.substr(0, 200)) + " and ends by " + (start ? how : "not being found") + ", arguments " + h::showl(extra) + (cmp ? ", baseline " + h::show(doc({b}).substr(0, 400)) : ""));
    unlink(got.c_str()); unlink(ox.c_str()); if (cmp) put(in, doc({b}));
    std::vector<std::vector<char>> bf; std::vector<char *> p; for (auto &a : args) bf.emplace_back(a.c_str(), a.c_str() + a.size() + 1); for (auto &x : bf) p.push_back(x.data()); p.push_back(0);
    tfPipeToXMLRegressionTest t; t.SetOutFileName(ox); if (cmp) t.SetInFileName(in);
    std::ostringstream o; std::streambuf *old = std::cout.rdbuf(o.rdbuf()); h::limit(60);
    bool main = h::rnd(2); int x = 0, un = 0;
    try { if (main) x = t.Main(int(args.size()), p.data()); else { t.inputUnmatched = 0; t.BeginMeasurement(); x = t.Test(int(args.size()), p.data()); un = t.inputUnmatched; t.EndMeasurement(); } } catch (...) { std::cout.rdbuf(old); h::fail("an exception"); }
    h::limit(0); std::cout.rdbuf(old);
    if (!main) { h::same(x, want, "the result"); h::same(un, int(bad), "mismatches"); } else h::same(x, want ? want : int(bad), "the result of Main");
    if (start) { std::string e; for (auto &a : extra) e += a + '\0'; h::sames(get(got), e, "the arguments the command got"); }
    std::string w = get(ox);
    if (!cmp) { std::string e = element(m) + "\n</output>\n"; size_t k = w.find("<output>\n"); h::want(k != std::string::npos, "no document"); h::sames(w.substr(k + 9), e, "the recorded document"); }
    else if (!bad) h::sames(w, "", "output of a comparison without a mismatch");
  }
}
int main(int c, char **v) {
  std::cerr.rdbuf(nullptr); dir = getenv("CV_SCRATCH") ? getenv("CV_SCRATCH") : "."; if (dir[0] != '/') { char b[4096]; if (getcwd(b, sizeof b)) dir = std::string(b) + "/" + dir; }
  return h::run(c, v, {{"T01", t01}});
}
