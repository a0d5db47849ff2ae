// Stand-in for the pcg-cpp submodule (absent in this sandbox): the XSL-RR 128/64 member with settable stream.
#pragma once
#include <cstdint>
#include <istream>
#include <ostream>
#include <string>
#include <algorithm>

class pcg64
{
  using u128 = unsigned __int128;
  static constexpr u128 mult() { return (u128(2549297995355413924ULL) << 64) | 4865540595714422341ULL; }
  u128 inc_, state_;
  void bump() { state_ = state_ * mult() + inc_; }

  static std::string dec(u128 v) { std::string s; do { s.push_back(char('0' + int(v % 10))); v /= 10; } while (v); std::reverse(s.begin(), s.end()); return s; }
  static bool undec(std::istream& is, u128& v) {
    std::string s; if (!(is >> s) || s.empty()) return false;
    v = 0; for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + unsigned(c - '0'); }
    return true;
  }

public:
  using result_type = uint64_t;
  explicit pcg64(uint64_t seed = 0xcafef00dd15ea5e5ULL, uint64_t stream = 0x14057b7ef767814fULL) : inc_{(u128(stream) << 1) | 1}, state_{u128(seed) + inc_} { bump(); }
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~uint64_t(0); }
  result_type operator()() {
    bump();
    unsigned rot = unsigned(state_ >> 122);
    uint64_t x = uint64_t(state_ >> 64) ^ uint64_t(state_);
    return (x >> rot) | (x << ((64 - rot) & 63));
  }
  friend bool operator==(const pcg64& a, const pcg64& b) { return a.inc_ == b.inc_ && a.state_ == b.state_; }
  friend bool operator!=(const pcg64& a, const pcg64& b) { return !(a == b); }
  friend std::ostream& operator<<(std::ostream& os, const pcg64& r) { return os << dec(mult()) << ' ' << dec(r.inc_) << ' ' << dec(r.state_); }
  friend std::istream& operator>>(std::istream& is, pcg64& r) {
    u128 m, i, s;
    if (!undec(is, m) || !undec(is, i) || !undec(is, s) || m != mult()) { is.setstate(std::ios::failbit); return is; }
    r.inc_ = i; r.state_ = s; return is;
  }
};
