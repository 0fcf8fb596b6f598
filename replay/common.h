// Shared by the replay harnesses: case recording, time budget, seeded random numbers.
// A harness runs the real code on many inputs against an oracle written from the property.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <list>
#include <set>
#include <map>
#include <iostream>
#include <fstream>
#include <sstream>
#include <functional>
#include <exception>
#include <stdexcept>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/stat.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void));

namespace h {
inline std::string &cur() { static std::string s; return s; }
inline std::string &prop() { static std::string s; return s; }
inline unsigned long long &count() { static unsigned long long n; return n; }
inline std::set<std::string> &samples() { static std::set<std::string> s; return s; }
inline std::set<uint64_t> &distinct() { static std::set<uint64_t> s; return s; }
inline uint64_t &rng() { static uint64_t s = 88172645463325252ull; return s; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double &t0() { static double t = now(); return t; }
inline double &budget() { static double b = 10; return b; }
inline uint64_t rnd() { uint64_t &x = rng(); x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x * 2685821657736338717ull; }
inline uint64_t rnd(uint64_t n) { return n ? (rnd() >> 11) % n : 0; }
inline bool more() { return now() - t0() < budget(); }
inline std::string show(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (o.size() > 4000) { o += "..."; break; }
    if (c == '\n') o += "\\n"; else if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c;
  }
  return o + "\"";
}
template <class L> std::string showl(const L &l) { std::string o = "["; for (auto &x : l) { if (o.size() > 1) o += ", "; o += show(x); } return o + "]"; }
template <class T> std::string str(const T &x) { std::ostringstream o; o.precision(20); o << x; return o.str(); }
inline uint64_t hash(const std::string &s) { uint64_t x = 1469598103934665603ull; for (unsigned char c : s) { x ^= c; x *= 1099511628211ull; } return x; }
// start of a case
inline void begin(const std::string &desc) {
  cur() = desc; ++count();
  if (distinct().size() < 2000000) distinct().insert(hash(desc));
  if (samples().size() < 3 || (samples().size() < 8 && rnd(5000) == 0)) samples().insert(desc.substr(0, 300));
}
[[noreturn]] inline void fail(const std::string &what) {
  fflush(stdout); std::cout.flush();
  fprintf(stderr, "FAIL case: %s\nFAIL what: %s\n", cur().c_str(), what.c_str()); fflush(stderr);
  _exit(1);
}
inline void want(bool ok, const std::string &what) { if (!ok) fail(what); }
template <class A, class B> void same(const A &a, const B &b, const std::string &what) { if (!(a == b)) fail(what + ": got " + str(a) + ", expected " + str(b)); }
inline void sames(const std::string &a, const std::string &b, const std::string &what) { if (a != b) fail(what + ": got " + show(a) + ", expected " + show(b)); }
inline void death() { fprintf(stderr, "FAIL case: %s\nFAIL what: invalid access or undefined behaviour (sanitizer report above)\n", cur().c_str()); fflush(stderr); }
inline void onabort(int s) { fprintf(stderr, "FAIL case: %s\nFAIL what: the program ended by signal %d\n", cur().c_str(), s); fflush(stderr); _exit(1); }
inline void onalarm(int) { fprintf(stderr, "FAIL case: %s\nFAIL what: the call does not return\n", cur().c_str()); fflush(stderr); _exit(1); }
// every case must finish within this many seconds
inline void limit(int s) { alarm(s); }

struct Part { const char *props; void (*run)(); };
inline int run(int argc, char **argv, std::vector<Part> parts) {
  if (argc < 4) { fprintf(stderr, "usage: %s PROPERTY SEED SECONDS\n", argv[0]); return 2; }
  prop() = argv[1];
  uint64_t seed = strtoull(argv[2], nullptr, 10);
  rng() = 88172645463325252ull ^ (seed * 0x9E3779B97F4A7C15ull); if (!rng()) rng() = 1;
  for (int i = 0; i < 20; ++i) rnd();
  budget() = atof(argv[3]);
  __sanitizer_set_death_callback(death);
  signal(SIGABRT, onabort); signal(SIGSEGV, onabort); signal(SIGFPE, onabort); signal(SIGALRM, onalarm);
  double total = budget(); int n = 0;
  for (auto &p : parts) if (strstr(p.props, argv[1])) ++n;
  if (!n) { fprintf(stderr, "no part for %s\n", argv[1]); return 2; }
  for (auto &p : parts) if (strstr(p.props, argv[1])) {
    t0() = now(); budget() = total / n;
    alarm(int(budget() * 6) + 60);
    try { p.run(); }
    catch (const std::exception &e) { fail(std::string("exception: ") + e.what()); }
    catch (...) { fail("exception of an unknown type"); }
  }
  alarm(0);
  std::cout.flush();
  printf("CASES %llu\nDISTINCT %zu\n", count(), distinct().size());
  for (auto &s : samples()) printf("SAMPLE %s\n", s.c_str());
  printf("OK\n"); fflush(stdout);
  _exit(0);
}
}
