// The documented frame format of the protobuf codecs, written independently.
#pragma once
#include <stdint.h>
#include <string>
// ---- the documented checksum (XXH32, seed 0) and frame format ----
static inline uint32_t rotl(uint32_t x, int r) { return x << r | x >> (32 - r); }
static inline uint32_t ref_xxh32(std::string const &s)
{
  const uint32_t P1 = 2654435761u, P2 = 2246822519u, P3 = 3266489917u, P4 = 668265263u, P5 = 374761393u;
  const unsigned char *p = (const unsigned char *)s.data(), *e = p + s.size();
  auto rd = [](const unsigned char *q) { return (uint32_t)q[0] | (uint32_t)q[1] << 8 | (uint32_t)q[2] << 16 | (uint32_t)q[3] << 24; };
  uint32_t h;
  if (s.size() >= 16) {
    uint32_t v[4] = {P1 + P2, P2, 0, 0u - P1};
    for (; e - p >= 16; p += 16)
      for (int i = 0; i < 4; ++i) v[i] = rotl(v[i] + rd(p + 4 * i) * P2, 13) * P1;
    h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18);
  } else
    h = P5;
  h += (uint32_t)s.size();
  for (; e - p >= 4; p += 4) h = rotl(h + rd(p) * P3, 17) * P4;
  for (; p < e; ++p) h = rotl(h + *p * P5, 11) * P1;
  h = (h ^ h >> 15) * P2;
  h = (h ^ h >> 13) * P3;
  return h ^ h >> 16;
}
static inline std::string be32(uint32_t x)
{
  std::string s;
  for (int i = 24; i >= 0; i -= 8) s += (char)(x >> i);
  return s;
}
static inline uint32_t rd32(const char *p) { return (uint32_t)(unsigned char)p[0] << 24 | (uint32_t)(unsigned char)p[1] << 16 | (uint32_t)(unsigned char)p[2] << 8 | (unsigned char)p[3]; }
static inline std::string varint(uint32_t v)
{
  std::string s;
  do {
    s += (char)((v & 127) | (v > 127 ? 128 : 0));
    v >>= 7;
  } while (v);
  return s;
}
static inline std::string head(bool v2, uint32_t n) { return v2 ? varint(n) : be32(n); }
static inline std::string frame(std::string const &tag, std::string const &payload, bool v2 = false)
{
  std::string body = tag + payload;
  return head(v2, (uint32_t)body.size() + 4) + body + be32(ref_xxh32(body));
}
