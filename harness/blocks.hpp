// Large contents for byte-sequence specifications: every byte of the specification stands for
// a block of K bytes of the real object, filled with a pattern only that value has. Sizes and
// positions are multiplied by K; what is observed is divided again, and anything that is not
// made of whole, intact blocks comes out as -1.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <algorithm>

namespace blk {

inline std::size_t K = 1;

inline uint8_t pattern(std::size_t j)
{
  uint32_t h = (uint32_t)j * 2654435761u;
  return j == 0 ? 0 : (uint8_t)(h >> 24);
}

inline std::vector<uint8_t>& table()
{
  static std::vector<uint8_t> t;
  if (t.size() != K) { t.resize(K); for (std::size_t j = 0; j < K; ++j) t[j] = pattern(j); }
  return t;
}

inline void fill(uint8_t* p, int v)
{
  if (K == 1) { *p = (uint8_t)v; return; }
  if (v == 0) { std::fill(p, p + K, 0); return; }         // as in the holes of a file
  const uint8_t* t = table().data();
  for (std::size_t j = 0; j < K; ++j) p[j] = t[j] ^ (uint8_t)v;
}

template <class V>
std::vector<uint8_t> expand(const V& v)
{
  std::vector<uint8_t> r(v.size() * K);
  for (std::size_t i = 0; i < v.size(); ++i) fill(r.data() + i * K, v[i]);
  return r;
}

template <class V>
void put(const V& v, uint8_t* to) { for (std::size_t i = 0; i < v.size(); ++i) fill(to + i * K, v[i]); }

// the values of the blocks in [p, p + n); -1 for a block that is not intact
inline std::vector<int> values(const uint8_t* p, std::size_t n)
{
  std::vector<int> r;
  if (K == 1) { r.assign(p, p + n); return r; }
  const uint8_t* t = table().data();
  for (std::size_t i = 0; i + K <= n; i += K) {
    uint8_t v = p[i];
    uint8_t diff = 0;
    for (std::size_t j = 0; j < K; ++j) diff |= (uint8_t)(p[i + j] ^ (v ? t[j] : 0) ^ v);
    r.push_back(diff ? -1 : v);
  }
  if (n % K) r.push_back(-1);
  return r;
}

// a size that has to be a whole number of blocks
inline long long units(std::size_t n) { return n % K ? -1 : (long long)(n / K); }

}
