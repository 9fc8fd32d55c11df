// Deterministic random numbers, hashing and small helpers.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <cstring>

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int) below((uint64_t)(hi - lo + 1)); }
  bool chance(int percent) { return (int) below(100) < percent; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

struct Hash {
  uint64_t h = 1469598103934665603ull;
  void u8(unsigned char c) { h = (h ^ c) * 1099511628211ull; }
  void u64(uint64_t v) { for (int i = 0; i < 8; i++) u8((unsigned char)(v >> (8 * i))); }
  void str(const std::string& s) { u64(s.size()); for (char c : s) u8((unsigned char) c); }
  void text(const std::u16string& t) { u64(t.size()); for (auto c : t) h = (h ^ c) * 1099511628211ull; }
  void dbl(double d) { uint64_t v; memcpy(&v, &d, 8); u64(v); }
};

// Output as seen or as expected: bytes, plus codes from 0x200 for marks and wildcards.
typedef std::u16string Text;
enum : char16_t { W_ANY = 0x200, W_SOME, W_SOMENL, T_SYS, T_SYSEND };

inline void add(Text& t, const std::string& s) { for (char c : s) t.push_back((unsigned char) c); }
inline Text text_of(const std::string& s) { Text t; add(t, s); return t; }
std::string show(const Text& t, size_t max = 4000);
std::string show(const std::string& s, size_t max = 4000);

// Does the observed text match the expected pattern completely?
bool matches(const Text& pattern, const Text& seen);
