// the base64 oracle, working on single bits
#pragma once
#include <string>
#include <vector>
#include <cstring>
static const char *AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string enc(const std::string &d, bool nl) {
  std::string t;
  for (size_t g = 0; g < d.size(); g += 3) {
    size_t n = std::min<size_t>(3, d.size() - g);
    for (size_t k = 0; k < 4; ++k) {
      if (k > n) { t += '='; continue; }
      int v = 0;
      for (int b = 0; b < 6; ++b) { size_t bit = k * 6 + b; int x = bit / 8 < n ? ((unsigned char)d[g + bit / 8] >> (7 - bit % 8)) & 1 : 0; v = v * 2 + x; }
      t += AL[v];
    }
  }
  if (!nl) return t;
  std::string o;
  for (size_t i = 0; i < t.size(); ++i) { if (i && i % 72 == 0) o += '\n'; o += t[i]; }
  return o;
}
static bool dec(const std::string &s, bool ign, std::string &out) {
  std::string data; int pads = 0; out.clear();
  for (unsigned char c : s) {
    if (c && strchr(AL, c)) { if (pads) return false; data += c; }
    else if (c == '=') {
      if ((data.size() + pads) % 4 < 2) return false;
      ++pads;
      if ((data.size() + pads) % 4 == 0) break;
    } else if (c >= 8 && c <= 13) continue;
    else if (!ign) return false;
  }
  if ((data.size() + pads) % 4) return false;
  std::vector<int> bits;
  for (char c : data) { int v = strchr(AL, c) - AL; for (int b = 5; b >= 0; --b) bits.push_back((v >> b) & 1); }
  for (size_t i = 0; i + 8 <= bits.size(); i += 8) { int v = 0; for (int b = 0; b < 8; ++b) v = v * 2 + bits[i + b]; out += char(v); }
  return true;
}
