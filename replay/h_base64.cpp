// B01 B02 B03: Base64 against an oracle that works on single bits
#include "common.h"
#include "b64.h"
#include "TestingFramework/tfBase64.h"
using h::show;
static void check_enc(const std::string &d, bool nl, bool ign) {
  h::begin("Encode newlines=" + h::str(nl) + " data=" + show(d));
  testutil::Base64 b; b.SetIgnoreInvalids(ign); if (nl) b.SetAddNewLines(true); else b.SetAddNewLines(false);
  char *in = new char[d.size()]; if (!d.empty()) memcpy(in, d.data(), d.size());
  std::string t = b.Encode(in, d.size());
  h::want(d.empty() || memcmp(in, d.data(), d.size()) == 0, "the input was changed");
  delete[] in;
  if (h::prop() == "B02") h::sames(t, enc(d, nl), "encoded text");
  if (h::prop() == "B01") {
    char *o = new char[d.size()]; size_t n = 0;
    try { n = b.Decode(t, o); } catch (const std::exception &e) { h::fail(std::string("decoding the encoded text throws: ") + e.what()); }
    h::same(n, d.size(), "number of decoded bytes"); h::sames(std::string(o, n), d, "decoded bytes"); delete[] o;
  }
}
static std::string rbytes(size_t n) { std::string s(n, 0); int m = h::rnd(4); for (auto &c : s) c = m == 0 ? h::rnd(256) : m == 1 ? 0xff : m == 2 ? 0 : "\x00\xff\x80\x7f"[h::rnd(4)]; return s; }
static void encoding() {
  for (int nl = 0; nl < 2; ++nl) {
    check_enc("", nl, false);
    for (int a = 0; a < 256; ++a) check_enc(std::string(1, a), nl, a & 1);
    for (int a = 0; a < 65536; a += (nl ? 7 : 1)) { std::string s; s += char(a >> 8); s += char(a); check_enc(s, nl, a & 1); }
    for (size_t n = 0; n < 450; ++n) check_enc(rbytes(n), nl, n & 1);
    for (int b = 0; b < 3; ++b) for (int a = 0; a < 256; ++a) { std::string s = rbytes(3); s[b] = a; check_enc(s, nl, a & 1); }
  }
  for (size_t n : {1023, 1024, 1025, 4096, 70000, 65535}) for (int nl = 0; nl < 2; ++nl) check_enc(rbytes(n), nl, false);
  while (h::more()) check_enc(rbytes(h::rnd(h::rnd(40) == 0 ? 3000 : 220)), h::rnd(2), h::rnd(2));
}
static void check_dec(const std::string &s, bool ign) {
  h::begin("ignoreInvalids=" + h::str(ign) + " text=" + show(s));
  std::string e; bool ok = dec(s, ign, e);
  testutil::Base64 b; b.SetIgnoreInvalids(ign);
  size_t n = b.IsBase64(s);
  h::same(n, ok ? e.size() : size_t(0), "IsBase64");
  size_t room = ok ? e.size() : s.size();
  unsigned char *o = new unsigned char[room + 8]; memset(o, 0xA5, room + 8);
  bool threw = false; size_t r = 0;
  try { r = b.Decode(s, o); } catch (const std::exception &) { threw = true; }
  h::want(threw == !ok, threw ? "Decode throws on a valid text" : "Decode accepts an invalid text");
  if (ok) { h::same(r, e.size(), "Decode's result"); h::sames(std::string((char *)o, r), e, "decoded bytes"); }
  for (size_t i = room; i < room + 8; ++i) h::want(o[i] == 0xA5, "a byte after the decoded bytes was written");
  delete[] o;
}
static void decoding() {
  const std::string al("Ab9/=\n*\xff ", 9);
  std::function<void(std::string &, size_t)> go = [&](std::string &s, size_t n) {
    if (s.size() == n) { check_dec(s, false); check_dec(s, true); return; }
    for (char c : al) { s += c; go(s, n); s.pop_back(); }
  };
  for (size_t n = 0; n <= 4; ++n) { std::string s; go(s, n); }
  for (int a = 0; a < 256; ++a) for (int p = 0; p < 5; ++p) for (int g = 0; g < 2; ++g) { std::string s("QUJD"); s.insert(p, 1, char(a)); check_dec(s, g); s = "QUJDREU="; s[p + 3] = char(a); check_dec(s, g); }
  while (h::more()) {
    std::string s;
    if (h::rnd(2)) { s = enc(rbytes(h::rnd(200)), h::rnd(2)); for (int k = h::rnd(4); k > 0; --k) { size_t p = h::rnd(s.size() + 1); int w = h::rnd(3); if (w == 0 || p == s.size()) s.insert(p, 1, al[h::rnd(al.size())]); else if (w == 1) s.erase(p, 1); else s[p] = h::rnd(3) ? al[h::rnd(al.size())] : char(h::rnd(256)); } }
    else { size_t n = 4 + h::rnd(9); static const std::string b("AAAbz/==\n*\x80"); for (size_t i = 0; i < n; ++i) s += b[h::rnd(b.size())]; }
    check_dec(s, h::rnd(2));
  }
}
int main(int c, char **v) { return h::run(c, v, {{"B01 B02", encoding}, {"B03", decoding}}); }
