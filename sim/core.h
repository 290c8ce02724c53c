// Simulator core: seeded PRNG, hashing, scenario files, run results, command line of every harness.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG (splitmix + xoshiro256**)
struct Rng {
  uint64_t s[4];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t mix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) {
    uint64_t x = seed;
    for (auto &v : s)
      v = mix(x);
    have_g = false;
  }
  uint64_t next() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0], s[3] ^= s[1], s[1] ^= s[2], s[0] ^= s[3], s[2] ^= t, s[3] = rotl(s[3], 45);
    return r;
  }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  int range(int a, int b) { return b <= a ? a : a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool chance(double p) { return uni() < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
  bool have_g = false;
  double g2 = 0;
  double gauss() {
    if (have_g) {
      have_g = false;
      return g2;
    }
    double u = 0;
    while (u <= 1e-300)
      u = uni();
    double v = uni(), r = std::sqrt(-2 * std::log(u));
    g2 = r * std::sin(2 * M_PI * v);
    have_g = true;
    return r * std::cos(2 * M_PI * v);
  }
  // independent stream for one purpose
  static uint64_t derive(uint64_t seed, const char *label) {
    uint64_t h = 1469598103934665603ULL;
    for (const char *c = label; *c; c++)
      h = (h ^ (unsigned char)*c) * 1099511628211ULL;
    uint64_t x = seed ^ h;
    mix(x);
    return mix(x);
  }
};

// ---------------------------------------------------------------- hashing
struct Hash {
  uint64_t h = 1469598103934665603ULL;
  void u64(uint64_t v) {
    h ^= v;
    h *= 0x9FB21C651E98DF25ULL;
    h ^= h >> 29;
    h *= 1099511628211ULL;
  }
  void d(double v) {
    uint64_t u;
    std::memcpy(&u, &v, 8);
    if (v == 0)
      u = 0;
    if (v != v)
      u = 0x7ff8000000000000ULL;
    u64(u);
  }
  void s(const std::string &x) {
    for (char c : x)
      u64((unsigned char)c);
    u64(x.size());
  }
  template <class M> void m(const M &x) {
    u64(x.rows());
    u64(x.cols());
    for (int i = 0; i < x.rows(); i++)
      for (int j = 0; j < x.cols(); j++)
        d((double)x(i, j));
  }
};

// ---------------------------------------------------------------- scenario = parameters + removable items
struct Scenario {
  std::string prop;
  uint64_t seed = 0;
  std::vector<std::pair<std::string, std::string>> params;
  std::vector<std::string> items;

  void set(const std::string &k, const std::string &v) {
    for (auto &p : params)
      if (p.first == k) {
        p.second = v;
        return;
      }
    params.push_back({k, v});
  }
  void set(const std::string &k, double v) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    set(k, std::string(b));
  }
  void set(const std::string &k, int v) { set(k, std::to_string(v)); }
  bool has(const std::string &k) const {
    for (auto &p : params)
      if (p.first == k)
        return true;
    return false;
  }
  std::string str(const std::string &k, const std::string &def = "") const {
    for (auto &p : params)
      if (p.first == k)
        return p.second;
    return def;
  }
  double num(const std::string &k, double def = 0) const {
    for (auto &p : params)
      if (p.first == k)
        return strtod(p.second.c_str(), nullptr);
    return def;
  }
  int in(const std::string &k, int def = 0) const { return (int)std::lround(num(k, def)); }
  void item(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
  std::string text() const;
  static bool parse(const std::string &txt, Scenario &out);
};

// one parsed item line: word + numbers
struct Item {
  std::string op;
  std::vector<double> a;
  double at(size_t i, double def = 0) const { return i < a.size() ? a[i] : def; }
  int in(size_t i, int def = 0) const { return i < a.size() ? (int)std::lround(a[i]) : def; }
};
Item parse_item(const std::string &line);

// ---------------------------------------------------------------- result of one simulated run
struct Result {
  bool violated = false;
  std::string cls, msg;
  Hash hash;
  std::map<std::string, double> stats;  // summed over runs by the driver
  std::map<std::string, double> maxima; // maximum over runs
  std::set<uint64_t> states;            // abstract states reached (distinct measure)
  double simtime = 0;
  bool nontrivial = false;
  std::vector<std::string> trace; // event trace (written to the replay file)
  void fail(const std::string &c, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
  void stat(const std::string &k, double v = 1) { stats[k] += v; }
  void maxi(const std::string &k, double v) {
    auto it = maxima.find(k);
    if (it == maxima.end() || v > it->second)
      maxima[k] = v;
  }
  void ev(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

// ---------------------------------------------------------------- what a harness provides
struct Property {
  std::function<void(Scenario &, Rng &)> gen;            // fills params and items from the seed
  std::function<void(const Scenario &, Result &)> run;   // one deterministic execution
  int cpu_limit_s = 60;
};
void register_property(const std::string &id, Property p);
int harness_main(int argc, char **argv);

// early exit of a run from anywhere (thrown by Result users)
struct Stop {};

} // namespace sim
