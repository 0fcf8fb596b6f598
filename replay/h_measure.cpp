// E01 E02 M01 M02 C01 C02 C03 F01: measurements against an oracle on plain values
#include "meas.h"
using h::show;
static const std::vector<std::string> ENC = {"none", "base64"};
static std::string stream(const tu::Measurement &m) { std::ostringstream o; o << m; return o.str(); }

// ---- E01
static void escape1(const std::string &s) {
  h::begin("escape " + show(s));
  tu::PlainText p; const std::string c(s);
  std::string e = p.ApplyEscapeSequences(c);
  h::sames(e, esc(s), "escaped text"); h::sames(c, s, "the text itself");
  h::want(e.find_first_of("<>\"") == std::string::npos, "a special character is left in " + show(e));
  std::string b;
  for (size_t i = 0; i < e.size();) {
    if (e[i] != '&') { b += e[i++]; continue; }
    if (e.compare(i, 5, "&amp;") == 0) { b += '&'; i += 5; } else if (e.compare(i, 4, "&lt;") == 0) { b += '<'; i += 4; } else if (e.compare(i, 4, "&gt;") == 0) { b += '>'; i += 4; } else if (e.compare(i, 6, "&quot;") == 0) { b += '"'; i += 6; } else h::fail("an '&' that starts no entity in " + show(e));
  }
  h::sames(b, s, "the escaped text read back");
}
static void e01() {
  const std::string al("&<>\"a;\xff");
  std::function<void(std::string &, size_t)> go = [&](std::string &s, size_t n) { escape1(s); if (s.size() == n) return; for (char c : al) { s += c; go(s, n); s.pop_back(); } };
  std::string s; go(s, 5);
  for (int a = 0; a < 256; ++a) { escape1(std::string(1, char(a))); escape1("x" + std::string(1, char(a)) + "<"); }
  while (h::more()) escape1(rtext(h::rnd(40) ? 30 : 5000));
}
// ---- E02
static M rmeas(int kind, size_t n) {
  M m; m.kind = kind; m.name = rtext(n); m.content = rtext(n); m.esc = h::rnd(4) != 0;
  if (kind == 7) m.type = h::rnd(3) ? rtext(n) : TYPES[1 + h::rnd(6)];
  else { m.enc = h::rnd(3) == 0 ? rtext(n) : ENC[h::rnd(2)]; m.cmp = h::rnd(3) == 0 ? rtext(n) : h::rnd(2) ? "none" : "gzip"; }
  return m;
}
static void print1(const M &m) {
  h::begin("print " + m.show());
  std::unique_ptr<tu::Measurement> p(make(m));
  std::ostringstream o; o << "before"; const tu::Measurement &c = *p;
  std::ostream &r = (o << c); h::want(&r == &o, "<< returns another stream");
  h::sames(o.str(), "before" + element(m), "printed text"); is(p.get(), m, "the measurement after printing");
  std::ostringstream o2; p->Print(o2); h::sames(o2.str(), element(m), "text printed by Print");
  // a measurement can be printed again, after changes
  M m2 = m; m2.name = rtext(6); m2.esc = !m.esc; p->SetAttributeName(m2.name); if (m2.esc) p->ApplyEscapeSequencesOn(); else p->ApplyEscapeSequencesOff();
  h::sames(stream(*p), element(m2), "text printed after changing name and escaping");
  if (kindof(p.get()) != 7) { m2.content = rtext(6); p->SetContent(m2.content); h::sames(stream(*p), element(m2), "text printed after changing the content"); }
}
static void e02() {
  for (int k = 1; k <= 7; ++k) for (int a = 0; a < 256; ++a) for (int w = 0; w < 5; ++w) for (int e = 0; e < 2; ++e) {
    M m; m.kind = k; m.type = "t"; m.name = "n"; m.content = "c"; m.esc = e; std::string x(1, char(a));
    if (w == 0) m.name = x; else if (w == 1) m.content = x; else if (w == 2) { if (k != 7) m.enc = x; else m.type = x; } else if (w == 3) { if (k != 7) m.cmp = x; } else { m.name = x + x; m.content = x; }
    print1(m);
  }
  while (h::more()) print1(rmeas(1 + h::rnd(7), h::rnd(50) ? 12 : 2000));
}
// ---- M01
static std::string content64() {
  std::string s = enc(rbytes(h::rnd(h::rnd(20) ? 8 : 300)), h::rnd(2)); static const std::string al("Ab/=\n* ");
  for (int k = h::rnd(3); k > 0; --k) { size_t p = h::rnd(s.size() + 1); if (h::rnd(2) || p == s.size()) s.insert(p, 1, al[h::rnd(al.size())]); else s[p] = al[h::rnd(al.size())]; }
  return s;
}
static void read_data(tu::DataMeasurement *d, const std::string &want, const std::string &what) {
  size_t n = d->GetContentAsDataSize(); h::same(n, want.size(), what + ": size of the data");
  const void *q = d->GetContentAsData(); h::want(want.empty() || q, what + ": no data");
  h::sames(want.empty() ? std::string() : std::string((const char *)q, want.size()), want, what + ": data");
}
static void m01() {
  bool first = true;
  for (unsigned long long c = 0; h::more() || first; ++c) {
    if (c > 3000) first = false;
    M m; m.kind = 1 + c % 6; m.enc = ENC[c / 6 % 2]; m.name = "n";
    std::unique_ptr<tu::Measurement> pp(make(m)); auto d = static_cast<tu::DataMeasurement *>(pp.get());
    std::string log = std::string(TYPES[m.kind]) + " encoding " + m.enc + ":";
    for (int s = 2 + h::rnd(12); s > 0; --s) {
      switch (h::rnd(6)) {
      case 0: { m.content = h::rnd(2) ? content64() : rtext(20); log += " SetContent(" + show(m.content) + ")"; h::begin(log); d->SetContent(m.content); break; }
      case 1: { std::string b = rbytes(h::rnd(h::rnd(20) ? 10 : 400)); log += " SetContentAsData(" + show(b) + ")"; h::begin(log);
        char *x = new char[b.size()]; if (!b.empty()) memcpy(x, b.data(), b.size());
        d->SetContentAsData(x, b.size()); memset(x, 'Q', b.size()); delete[] x;
        m.content = d->GetContent();
        if (m.enc == "none") h::sames(m.content, b, "content after setting the data");
        else { std::string o; h::want(dec(m.content, false, o), "the content is not valid base64: " + show(m.content)); h::sames(o, b, "the content decoded"); }
        read_data(d, b, "after setting the data"); break; }
      case 2: log += " data"; h::begin(log); { std::string w = m.data(); const void *q = d->GetContentAsData(); h::sames(w.empty() ? std::string() : std::string((const char *)q, w.size()), w, "data"); } break;
      case 3: log += " size"; h::begin(log); h::same(d->GetContentAsDataSize(), m.data().size(), "size of the data"); break;
      case 4: log += " both"; h::begin(log); read_data(d, m.data(), "reading"); break;
      default: { log += " compare"; h::begin(log); M o = m; std::unique_ptr<tu::Measurement> q(make(o)); h::want(*d == *q, "a measurement with the same content is different"); h::want(*q == *d, "a measurement with the same content is different"); }
      }
      is(d, m, "the measurement");
    }
    read_data(d, m.data(), "at the end"); is(d, m, "the measurement at the end");
  }
}
// ---- M02
template <class T> void copies(const M &m, const M &o, bool cached) {
  std::unique_ptr<T> p(static_cast<T *>(make(m)));
  auto cache = [](tu::Measurement *q) { if (kindof(q) != 7) static_cast<tu::DataMeasurement *>(q)->GetContentAsData(); };
  if (cached) cache(p.get());
  T c(*p); is(&c, m, "the copy"); is(p.get(), m, "the one copied");
  if (m.kind != 7) read_data((tu::DataMeasurement *)(void *)dynamic_cast<tu::DataMeasurement *>(static_cast<tu::Measurement *>(&c)), m.data(), "the copy");
  std::unique_ptr<T> a(static_cast<T *>(make(o))); if (cached) cache(a.get());
  T &r = (*a = *p); h::want(&r == a.get(), "assignment returns another object");
  is(a.get(), m, "the one assigned to"); is(p.get(), m, "the one assigned");
  if (m.kind != 7) { read_data(dynamic_cast<tu::DataMeasurement *>(static_cast<tu::Measurement *>(a.get())), m.data(), "the one assigned to"); read_data(dynamic_cast<tu::DataMeasurement *>(static_cast<tu::Measurement *>(p.get())), m.data(), "the one assigned"); }
  h::want(m.kind == 7 || static_cast<tu::Measurement &>(c) == *p, "a copy is different");
  p->SetContent("other"); p->SetAttributeName("other"); is(a.get(), m, "the one assigned to, after changing the other"); is(&c, m, "the copy, after changing the other");
  p.reset(); if (m.kind != 7) read_data(dynamic_cast<tu::DataMeasurement *>(static_cast<tu::Measurement *>(a.get())), m.data(), "the one assigned to, after the end of the other");
}
static void created(const std::string &t) {
  h::begin("CreateDataMeasurement(" + show(t) + ")");
  int k = 0; for (int i = 1; i <= 6; ++i) if (t == TYPES[i]) k = i;
  std::unique_ptr<tu::DataMeasurement> p(tu::CreateDataMeasurement(t));
  if (!k) { h::want(!p, "a measurement for an unknown type"); return; }
  h::want(bool(p), "no measurement for a known type");
  M m; m.kind = k; is(p.get(), m, "the new measurement"); read_data(p.get(), "", "the new measurement");
  h::sames(p->GetDefaultAttributeEncoding(), "none", "default encoding"); h::sames(p->GetDefaultAttributeCompression(), "none", "default compression");
  std::unique_ptr<tu::DataMeasurement> q(tu::CreateDataMeasurement(t)); h::want(q.get() != p.get(), "the same object twice"); p->SetContent("1"); is(q.get(), m, "another new measurement");
}
static void m02() {
  for (int i = 1; i <= 6; ++i) {
    std::string t = TYPES[i]; created(t); created(" " + t); created(t + " "); created(t + std::string(1, 0));
    for (size_t k = 0; k <= t.size(); ++k) { created(t.substr(0, k)); created(t.substr(k)); std::string u = t; for (int c = 0; c < 256; ++c) { if (k < t.size()) { u = t; u[k] = char(c); created(u); } u = t; u.insert(k, 1, char(c)); created(u); } }
  }
  for (auto t : {"", "text", "numeric", "text/", "numeric/", "image/png", "text/xml", "numeric/long", "numeric/bool", "text/html", "Numeric/Double", "TEXT/PLAIN", "integer", "/", "file"}) created(t);
  while (h::more()) {
    if (h::rnd(4) == 0) { created(rtext(20)); continue; }
    int k = 1 + h::rnd(7); M m = rmeas(k, 12), o = rmeas(k, 12);
    if (k != 7) { if (h::rnd(4)) m.enc = ENC[h::rnd(2)]; if (h::rnd(4)) o.enc = ENC[h::rnd(2)]; if (h::rnd(2)) m.content = content64(); if (h::rnd(2)) o.content = content64(); }
    bool cached = h::rnd(2);
    h::begin(std::string("copy") + (cached ? " with cached data: " : ": ") + m.show() + " and assign it to: " + o.show());
    if (k == 1) copies<tu::PlainText>(m, o, cached); if (k == 2) copies<tu::StringText>(m, o, cached); if (k == 3) copies<tu::IntegerNumeric>(m, o, cached); if (k == 4) copies<tu::FloatNumeric>(m, o, cached);
    if (k == 5) copies<tu::DoubleNumeric>(m, o, cached); if (k == 6) copies<tu::BooleanNumeric>(m, o, cached); if (k == 7) copies<tu::MeasurementFile>(m, o, cached);
  }
}
// ---- C01
static bool mod1(std::string &s) {   // a small change
  if (s.empty() || h::rnd(5) == 0) { s += h::rnd(3) ? 'a' : '\0'; return true; }
  size_t p = h::rnd(2) ? s.size() - 1 : h::rnd(s.size()); int w = h::rnd(3);
  if (w == 0) s.erase(p, 1); else if (w == 1) s[p] = char(s[p] ^ (1 << h::rnd(8))); else s.insert(p, 1, s[p]);
  return true;
}
static void c01() {
  bool first = true;
  for (unsigned long long c = 0; h::more() || first; ++c) {
    if (c > 5000) first = false;
    M a; a.kind = 1 + h::rnd(6); a.name = rtext(6); a.enc = ENC[h::rnd(2)]; a.esc = h::rnd(2);
    std::string bytes = h::rnd(2) ? rbytes(h::rnd(h::rnd(30) ? 9 : 300)) : rtext(10);
    if (a.enc == "none") a.content = bytes; else a.content = h::rnd(4) ? enc(bytes, h::rnd(2)) : content64();
    M b = a; b.esc = h::rnd(2);
    int w = h::rnd(8);
    if (w == 1) mod1(b.name); if (w == 2) b.kind = 1 + h::rnd(6); if (w == 3) mod1(b.content);
    if (w == 4) { std::string d = a.data(); mod1(d); b.enc = ENC[h::rnd(2)]; b.content = b.enc == "none" ? d : enc(d, h::rnd(2)); }
    if (w == 5) { std::string d = a.data(); b.enc = ENC[h::rnd(2)]; b.content = b.enc == "none" ? d : enc(d, h::rnd(2)); }
    if (w == 6) { b.content = rtext(3); a.content = h::rnd(2) ? rtext(3) : b.content + std::string(1, 0); } if (w == 7) b.enc = ENC[h::rnd(2)];
    h::begin("compare {" + a.show() + "} and {" + b.show() + "}");
    std::unique_ptr<tu::Measurement> p(make(a)), q(make(b));
    if (h::rnd(3) == 0) static_cast<tu::DataMeasurement *>(p.get())->GetContentAsData(); if (h::rnd(3) == 0) static_cast<tu::DataMeasurement *>(q.get())->GetContentAsDataSize();
    bool want = equal_mem(a, b);
    h::same(*p == *q, want, "first == second"); h::same(*q == *p, want, "second == first");
    h::same(p->IsEqual(*q), want, "first.IsEqual(second)"); h::same(q->IsEqual(*p), want, "second.IsEqual(first)"); h::same(*p == *q, want, "first == second, again");
    h::want(*p == *p, "a measurement is different from itself");
    is(p.get(), a, "the first"); is(q.get(), b, "the second");
  }
}
// ---- C02
static std::vector<double> DV() {
  std::vector<double> v = {0, -0.0, 1, -1, 2, 3, 0.1, 0.3, -0.5, 1e-7, 1e-8, 1e-16, 2e-16, 2.220446049250313e-16, 2.2204460492503128e-16, -2.2204460492503128e-16, 1e-17, 1.1920928955078125e-07, 1.19e-7, -1.1e-7, 1e-300, 5e-324, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 9e307, 100, 101, 99, 1e10, 16777216, 16777217, 3.4028234663852886e38, -3.4028234663852886e38, 1e38, 1e-45, INFINITY, -INFINITY, NAN};
  return v;
}
static std::vector<long> LV() { return {0, 1, -1, 2, 3, 100, 101, 99, -100, 9007199254740992, 9007199254740993, 9007199254740995, -9007199254740993, 9223372036854775807, 9223372036854775806, (-9223372036854775807L - 1), -9223372036854775807, 4611686018427387904, 1000000, 1000001}; }
static std::string ltxt(long v) { return std::to_string(v); }
static void tol1(int k, const std::string &a, const std::string &b, int k2, double e, bool want) {
  h::begin(std::string(TYPES[k]) + " " + a + " and " + TYPES[k2] + " " + b + " with tolerance " + num(e, 17));
  M x, y; x.kind = k; x.content = a; y.kind = k2; y.content = b; x.name = h::rnd(2) ? "n" : "m"; y.name = "n";
  std::unique_ptr<tu::NumericData> p(static_cast<tu::NumericData *>(make(x))), q(static_cast<tu::NumericData *>(make(y)));
  h::same(p->IsEqualTolerant(*q, e), want, "first and second"); h::same(q->IsEqualTolerant(*p, e), want, "second and first");
  is(p.get(), x, "the first"); is(q.get(), y, "the second");
}
static void pairs(double u, double v, double e) {
  bool same = u == v || (std::isnan(u) && std::isnan(v));
  tol1(5, num(u, 17), num(v, 17), 5, e, same || near(u, v, e, std::numeric_limits<double>::epsilon()));
  float a = float(u), b = float(v);
  tol1(4, num(a, 9), num(b, 9), 4, e, a == b || (std::isnan(a) && std::isnan(b)) || near(a, b, e, std::numeric_limits<float>::epsilon()));
}
static void pairl(long u, long v, double e) { tol1(3, ltxt(u), ltxt(v), 3, e, u == v || near(double(u), double(v), e, 0)); }
static double rd() { switch (h::rnd(4)) { case 0: { uint64_t b = h::rnd(); double d; memcpy(&d, &b, 8); return d; } case 1: return double(int64_t(h::rnd())) / (1 << h::rnd(31)); case 2: return std::ldexp(double(h::rnd(1000)) - 500, int(h::rnd(80)) - 60); default: { auto v = DV(); return v[h::rnd(v.size())]; } } }
static double re() { static const double t[] = {0, -0.0, 1e-16, 1e-10, 1e-3, 0.01, 0.1, 0.5, 1, 2, 1e300, 1.7976931348623157e308, INFINITY, NAN, -0.01, -1, 5e-324}; return h::rnd(3) ? t[h::rnd(17)] : std::fabs(rd()); }
static void c02() {
  auto D = DV(); auto L = LV(); const double T[] = {0, 1e-10, 0.01, 1, -0.01, INFINITY, NAN};
  for (double u : D) for (double v : D) for (double e : T) pairs(u, v, e);
  for (long u : L) for (long v : L) for (double e : T) pairl(u, v, e);
  for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (double e : T) { tol1(6, ltxt(a), ltxt(b), 6, e, a == b); tol1(6, a ? "1" : "", ltxt(b), 6, e, a == b); }
  for (int k = 3; k <= 6; ++k) for (int j = 3; j <= 6; ++j) if (j != k) for (double e : T) { tol1(k, "1", "1", j, e, false); tol1(k, "0", "0", j, e, false); }
  bool first = true;
  for (int c = 0; h::more() || first; ++c) {
    if (c > 2000) first = false;
    double u = rd(), v = h::rnd(4) == 0 ? rd() : h::rnd(2) ? std::nextafter(u, h::rnd(2) ? INFINITY : -INFINITY) : u * (1 + (double(h::rnd(2001)) - 1000) * 1e-5), e = re();
    if (h::rnd(3) == 0 && u != 0) e = std::fabs(u - v) / std::fabs(u); else if (h::rnd(4) == 0 && v != 0) e = std::nextafter(std::fabs(u - v) / std::fabs(v), 0);
    pairs(u, v, e);
    long a = h::rnd(), b = h::rnd(2) ? a + long(h::rnd(3)) : long(h::rnd() >> h::rnd(60)); if (h::rnd(2)) { a = long(h::rnd(300)) - 150; b = long(h::rnd(300)) - 150; } pairl(a, b, h::rnd(2) || !a ? re() : std::fabs(double(a) - double(b)) / std::fabs(double(a)));
    // values set as values
    tu::DoubleNumeric x, y; double w = u; x.SetValue(w); y.SetValue(w); h::begin("DoubleNumeric set to " + num(w, 17) + " twice"); h::want(x.IsEqualTolerant(y, 0), "the same value is different");
    tu::IntegerNumeric i, j; i.SetValue(a); j.SetValue(b); h::begin("IntegerNumeric set to " + ltxt(a) + " and " + ltxt(b)); h::same(i.GetValue(), a, "GetValue"); h::same(i.IsEqualTolerant(j, 0), a == b || near(double(a), double(b), 0, 0), "equal with tolerance 0");
    tu::BooleanNumeric o, p; o.SetValue(c & 1); p.SetValue(c & 2); h::begin("BooleanNumeric"); h::same(o.GetValue(), bool(c & 1), "GetValue"); h::same(o.IsEqualTolerant(p, e), bool(c & 1) == bool(c & 2), "booleans");
  }
}
// ---- C03
static void c03() {
  std::string dir = getenv("CV_SCRATCH") ? getenv("CV_SCRATCH") : "."; std::string f = dir + "/c03_file"; { std::ofstream o(f, std::ios::binary); o << "1"; }
  bool first = true;
  for (int c = 0; h::more() || first; ++c) {
    if (c > 1500) first = false;
    tu::CompareVisitor v; double tol = 0; std::string log = "one CompareVisitor:";
    h::begin(log); h::same(v.GetTolerance(), 0.0, "tolerance of a new visitor");
    for (int s = 1 + h::rnd(6); s > 0; --s) {
      if (h::rnd(2)) { double e = h::rnd(3) == 0 ? (h::rnd(2) ? 0.0 : -0.0) : h::rnd(5) == 0 ? NAN : re(); log += " SetTolerance(" + num(e, 17) + ")"; h::begin(log); v.SetTolerance(e); tol = e; }
      else if (h::rnd(6) == 0) { log += " SetToleranceOff"; h::begin(log); v.SetToleranceOff(); tol = 0; }
      double g = v.GetTolerance(); h::want(g == tol || (std::isnan(g) && std::isnan(tol)), "GetTolerance: " + num(g, 17));
      auto val = [&](int k) -> std::string { if (k < 3) return h::rnd(2) ? "1" : h::rnd(2) ? "1.0" : rtext(3); if (k == 6) return h::rnd(2) ? "1" : "0"; if (k == 3) { auto L = LV(); return ltxt(h::rnd(2) ? L[h::rnd(L.size())] : long(h::rnd(3))); } static const char *z[] = {"1", "1.0", "1.001", "0.999", "1e308", "-1e308", "nan", "inf", "0", "-0", "1e-20", "2e-20", "3", "0.1", "1.00"}; return z[h::rnd(15)]; };
      M t, b; t.kind = 1 + h::rnd(6); b.kind = h::rnd(3) ? t.kind : 1 + int(h::rnd(6)); t.name = "n"; b.name = h::rnd(8) ? "n" : "m"; t.content = val(t.kind); b.content = h::rnd(3) == 0 ? t.content : val(b.kind);
      if (h::rnd(10) == 0) { M &x = h::rnd(2) ? t : b, &y = &x == &t ? b : t; x.kind = 7; x.content = f; x.type = h::rnd(3) ? y.ty() : "text/string"; }
      log += " visit test {" + t.show() + "} with baseline {" + b.show() + "}"; h::begin(log);
      // what the file stands for
      M tt = t, bb = b; if (t.kind == 7) { for (int k = 1; k <= 6; ++k) if (t.type == TYPES[k]) tt.kind = k; tt.content = "1"; } if (b.kind == 7) { for (int k = 1; k <= 6; ++k) if (b.type == TYPES[k]) bb.kind = k; bb.content = "1"; }
      bool w; if (t.kind == 7) w = equal_mem(bb, tt); else if (b.kind == 7) w = t.kind >= 3 ? false : equal_mem(bb, t); else w = verdict(b, t, tol);
      std::unique_ptr<tu::Measurement> p(make(t)), q(make(b));
      v.SetBaselineMeasurement(q.get()); p->AcceptVisitor(v); h::same(v.GetResult(), w, "the verdict"); is(p.get(), t, "the test measurement"); is(q.get(), b, "the baseline measurement");
      p->AcceptVisitor(v); h::same(v.GetResult(), w, "the verdict of a second visit");
    }
  }
  unlink(f.c_str());
}
// ---- F01
struct File : tu::MeasurementFile { tu::DataMeasurement *load() { return this->Load(); } };
static void f01() {
  std::string dir = getenv("CV_SCRATCH") ? getenv("CV_SCRATCH") : "."; std::string f = dir + "/f01_a", g = dir + "/f01_b";
  std::string fc, gc;
  auto put = [](const std::string &n, const std::string &s) { std::ofstream o(n, std::ios::binary | std::ios::trunc); o.write(s.data(), s.size()); };
  auto rty = []() -> std::string { switch (h::rnd(4)) { case 0: case 1: return TYPES[1 + h::rnd(6)]; case 2: { static const char *u[] = {"", "image/png", "text", "tex", "text/html", "numeric", "binary"}; return u[h::rnd(7)]; } default: return rtext(8); } };
  auto known = [](const std::string &t) { for (int k = 1; k <= 6; ++k) if (t == TYPES[k]) return k; return 0; };
  auto load = [&](const std::string &type, const std::string &name, const std::string &file, bool there, const std::string &bytes) {
    h::begin("load a file of type " + show(type) + ", name " + show(name) + (there ? " with " + h::str(bytes.size()) + " bytes " + show(bytes.substr(0, 200)) : " that cannot be opened"));
    File m; m.SetAttributeType(type); m.SetAttributeName(name); m.SetFileName(file);
    std::unique_ptr<tu::DataMeasurement> d(m.load()); M w; w.kind = there && known(type) ? known(type) : 1; if (there) { w.name = name; w.content = bytes; }
    is(d.get(), w, "the loaded measurement"); read_data(d.get(), w.content, "the loaded measurement");
    h::sames(m.GetAttributeName(), name, "the name of the file measurement"); h::sames(m.GetAttributeType(), type, "its type"); h::sames(m.GetFileName(), file, "its file name");
  };
  for (size_t n : {0, 1, 2, 3, 7, 8, 255, 256, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65536, 100001}) { std::string b = rbytes(n); put(f, b); for (auto t : {"text/plain", "numeric/double", "image/png", "", "text"}) load(t, "n", f, true, b); }
  for (int c = 0; c < 256; ++c) { std::string b(1, char(c)); b = "a" + b + "b" + std::string(1, char(c)); put(f, b); load("text/string", "n", f, true, b); load("x", "n", f, true, b); }
  bool first = true;
  for (int c = 0; h::more() || first; ++c) {
    if (c > 800) first = false;
    fc = h::rnd(3) ? rtext(12) : rbytes(h::rnd(h::rnd(20) ? 20 : 9000)); gc = fc; if (h::rnd(3) == 0) mod1(gc); put(f, fc); put(g, gc);
    load(rty(), rtext(5), f, true, fc); if (h::rnd(4) == 0) load(rty(), rtext(5), h::rnd(2) ? dir + "/none" : "", false, "");
    auto rfile = [&](M &m, bool &there, std::string &bytes) { m.kind = 7; int w = h::rnd(7); m.content = w == 0 ? dir + "/none" : w < 4 ? f : g; there = w != 0; bytes = w == 0 ? "" : w < 4 ? fc : gc; };
    M a, b; bool ta = true, tb = true; std::string ba, bb; rfile(a, ta, ba); a.type = rty(); a.name = h::rnd(4) ? "n" : h::rnd(2) ? "" : rtext(4); b.name = h::rnd(6) ? a.name : rtext(4);
    if (h::rnd(2)) { rfile(b, tb, bb); b.type = h::rnd(4) ? a.type : rty(); }
    else { b.kind = h::rnd(5) && known(a.type) ? known(a.type) : 1 + int(h::rnd(6)); bb = h::rnd(4) ? ba : h::rnd(2) ? gc : rtext(4); b.enc = ENC[h::rnd(2)]; b.content = b.enc == "none" ? bb : enc(bb, h::rnd(2)); }
    h::begin("compare {" + a.show() + "} holding " + (ta ? show(ba) : "nothing (missing)") + " and {" + b.show() + "}" + (b.kind == 7 ? " holding " + (tb ? show(bb) : "nothing (missing)") : ""));
    // loaded: name, type, bytes
    auto ln = [](const M &m, bool t) { return m.kind != 7 || t ? m.name : std::string(); };
    auto lt = [&](const M &m, bool t) { return m.kind != 7 ? m.ty() : !t || !known(m.type) ? std::string("text/plain") : m.type; };
    bool want = a.name == b.name && a.ty() == b.ty() && ln(a, ta) == a.name && ln(b, tb) == b.name && lt(a, ta) == a.ty() && lt(b, tb) == b.ty() && ba == bb;
    std::unique_ptr<tu::Measurement> p(make(a)), q(make(b));
    h::same(*p == *q, want, "first == second"); h::same(*q == *p, want, "second == first"); is(p.get(), a, "the first"); is(q.get(), b, "the second");
  }
  unlink(f.c_str()); unlink(g.c_str());
}
int main(int c, char **v) {
  std::cerr.rdbuf(nullptr);
  return h::run(c, v, {{"E01", e01}, {"E02", e02}, {"M01", m01}, {"M02", m02}, {"C01", c01}, {"C02", c02}, {"C03", c03}, {"F01", f01}});
}
