// Stand-in for the Xoshiro-cpp submodule (absent in this sandbox): xoshiro256++ with the interface Random.h uses.
#pragma once
#include <array>
#include <cstdint>

namespace XoshiroCpp {
class Xoshiro256PlusPlus
{
public:
  using state_type = std::array<uint64_t, 4>;
  using result_type = uint64_t;
  explicit Xoshiro256PlusPlus(uint64_t seed = 1234567890) { for (auto& s : s_) { uint64_t z = (seed += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; s = z ^ (z >> 31); } }
  explicit Xoshiro256PlusPlus(state_type s) : s_{s} {}
  static constexpr result_type min() { return 0; }
  static constexpr result_type max() { return ~uint64_t(0); }
  result_type operator()() {
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t r = rotl(s_[0] + s_[3], 23) + s_[0], t = s_[1] << 17;
    s_[2] ^= s_[0]; s_[3] ^= s_[1]; s_[1] ^= s_[2]; s_[0] ^= s_[3]; s_[2] ^= t; s_[3] = rotl(s_[3], 45);
    return r;
  }
  state_type serialize() const { return s_; }
  void deserialize(state_type s) { s_ = s; }
  friend bool operator==(const Xoshiro256PlusPlus& a, const Xoshiro256PlusPlus& b) { return a.s_ == b.s_; }
private:
  state_type s_;
};
}
