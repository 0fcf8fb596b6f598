// what a measurement is, for the oracles: kind, attributes and content as plain values
#pragma once
#include "common.h"
#include "b64.h"
#include "TestingFramework/tfMeasurement.h"
#include "TestingFramework/tfMeasurementVisitor.h"
#include <cmath>
#include <limits>
#include <memory>
namespace tu = testutil;
static const char *TYPES[] = {"", "text/plain", "text/string", "numeric/integer", "numeric/float", "numeric/double", "numeric/boolean"};
struct M {
  int kind = 1;   // 1..6 as TYPES, 7 a file
  std::string type, name, content, enc = "none", cmp = "none"; bool esc = true;
  std::string show() const { return std::string(kind == 7 ? "file" : TYPES[kind]) + (kind == 7 ? " type=" + h::show(type) : "") + " name=" + h::show(name) + " content=" + h::show(content) + (kind == 7 ? "" : " encoding=" + h::show(enc) + " compression=" + h::show(cmp)) + " escaping=" + (esc ? "on" : "off"); }
  std::string ty() const { return kind == 7 ? type : TYPES[kind]; }
  // the bytes an in-memory measurement stands for
  std::string data() const { std::string o; if (enc == "base64" && dec(content, false, o) && !o.empty()) return o; return content; }
};
static tu::Measurement *blank(int kind) {
  switch (kind) {
  case 1: return new tu::PlainText; case 2: return new tu::StringText; case 3: return new tu::IntegerNumeric; case 4: return new tu::FloatNumeric;
  case 5: return new tu::DoubleNumeric; case 6: return new tu::BooleanNumeric; default: return new tu::MeasurementFile;
  }
}
static tu::Measurement *make(const M &m) {
  tu::Measurement *p = blank(m.kind);
  p->SetAttributeName(m.name); p->SetApplyEscapeSequences(m.esc);
  if (m.kind == 7) { auto f = static_cast<tu::MeasurementFile *>(p); f->SetAttributeType(m.type); f->SetFileName(m.content); }
  else { auto d = static_cast<tu::DataMeasurement *>(p); d->SetAttributeEncoding(m.enc); d->SetAttributeCompression(m.cmp); p->SetContent(m.content); }
  return p;
}
static int kindof(tu::Measurement *p) {
  if (dynamic_cast<tu::PlainText *>(p)) return 1; if (dynamic_cast<tu::StringText *>(p)) return 2; if (dynamic_cast<tu::IntegerNumeric *>(p)) return 3;
  if (dynamic_cast<tu::FloatNumeric *>(p)) return 4; if (dynamic_cast<tu::DoubleNumeric *>(p)) return 5; if (dynamic_cast<tu::BooleanNumeric *>(p)) return 6;
  if (dynamic_cast<tu::MeasurementFile *>(p)) return 7; return 0;
}
// the object still is what the model says
static void is(tu::Measurement *p, const M &m, const std::string &what) {
  h::same(kindof(p), m.kind, what + ": its kind");
  h::sames(p->GetAttributeName(), m.name, what + ": its name");
  h::sames(p->GetAttributeType(), m.ty(), what + ": its type");
  h::sames(p->GetContent(), m.content, what + ": its content");
  h::same(p->GetApplyEscapeSequences(), m.esc, what + ": its escaping");
  if (m.kind == 7) h::sames(static_cast<tu::MeasurementFile *>(p)->GetFileName(), m.content, what + ": its file name");
  else { auto d = static_cast<tu::DataMeasurement *>(p); h::sames(d->GetAttributeEncoding(), m.enc, what + ": its encoding"); h::sames(d->GetAttributeCompression(), m.cmp, what + ": its compression"); }
}
static std::string esc(const std::string &s) {
  std::string o;
  for (char c : s) switch (c) { case '&': o += "&amp;"; break; case '<': o += "&lt;"; break; case '>': o += "&gt;"; break; case '"': o += "&quot;"; break; default: o += c; }
  return o;
}
static std::string element(const M &m) {
  auto e = [&](const std::string &s) { return m.esc ? esc(s) : s; };
  std::string el = m.kind == 7 ? "DartMeasurementFile" : "DartMeasurement", o = "<" + el + " name=\"" + e(m.name) + "\" type=\"" + e(m.ty()) + "\"";
  if (m.kind != 7 && m.enc != "none") o += " encoding=\"" + e(m.enc) + "\"";
  if (m.kind != 7 && m.cmp != "none") o += " compression=\"" + e(m.cmp) + "\"";
  return o + ">" + e(m.content) + "</" + el + ">";
}
static std::string rtext(size_t n) {
  static const std::string sp("&<>\"';amp;lt&#\n\r\t \0\x80\xff", 21);
  std::string s; int w = h::rnd(4);
  for (size_t i = h::rnd(n + 1); i > 0; --i) s += w == 0 ? sp[h::rnd(4)] : w == 1 ? sp[h::rnd(sp.size())] : w == 2 ? char('a' + h::rnd(26)) : char(h::rnd(256));
  return s;
}
static std::string rbytes(size_t n) { std::string s(n, 0); int w = h::rnd(4); for (auto &c : s) c = w == 0 ? h::rnd(256) : w == 1 ? 'a' + h::rnd(2) : w == 2 ? 0 : "\x00\xff\x80\x7f"[h::rnd(4)]; return s; }
template <class T> std::string num(T v, int prec) { if (std::isnan(v)) return std::signbit(v) ? "-nan" : "nan"; if (std::isinf(v)) return v < 0 ? "-inf" : "inf"; char b[64]; snprintf(b, sizeof b, "%.*g", prec, double(v)); return b; }
// the verdict of a comparison of two measurements in memory
static bool equal_mem(const M &a, const M &b) { return a.name == b.name && a.ty() == b.ty() && a.data() == b.data(); }
static bool near(double u, double v, double e, double eps) {
  double d = std::fabs(u - v); if (std::isnan(d) || std::isinf(d)) return false;
  e = std::fabs(e); return d <= e * std::fabs(u) || d <= e * std::fabs(v) || (std::fabs(u) < eps && std::fabs(v) < eps);
}
static bool verdict(const M &b, const M &t, double tol) {
  if (t.kind < 3 || t.kind > 6) return equal_mem(b, t);
  if (b.kind < 3 || b.kind > 6) return false;
  if (tol == 0) return equal_mem(b, t);
  if (b.kind != t.kind) return false;
  const char *x = b.content.c_str(), *y = t.content.c_str();
  if (t.kind == 3) { long u = *x ? std::stol(b.content) : 0, v = *y ? std::stol(t.content) : 0; return u == v || near(double(u), double(v), tol, 0); }
  if (t.kind == 4) { float u = strtof(x, 0), v = strtof(y, 0); return u == v || (std::isnan(u) && std::isnan(v)) || near(u, v, tol, std::numeric_limits<float>::epsilon()); }
  if (t.kind == 5) { double u = strtod(x, 0), v = strtod(y, 0); return u == v || (std::isnan(u) && std::isnan(v)) || near(u, v, tol, std::numeric_limits<double>::epsilon()); }
  return (b.content == "1") == (t.content == "1");
}
