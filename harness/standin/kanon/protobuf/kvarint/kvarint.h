// Stand-in for the header of the kvarint submodule, which is not part of the
// repository: base-128 varints, as used by kanon/protobuf/protobuf_codec2.cc.
#pragma once
#include <stddef.h>
#include <stdint.h>
enum { KVARINT_OK = 0, KVARINT_DECODE_BUF_SHORT, KVARINT_DECODE_BUF_INVALID };
struct kvarint_buf32_t {
  uint8_t buf[5];
  uint8_t len;
};
static inline int kvarint_decode32(void const *buf, size_t n, size_t *used, uint32_t *value)
{
  uint8_t const *p = (uint8_t const *)buf;
  uint64_t v = 0;
  for (size_t i = 0; i < 5; ++i) {
    if (i == n) return KVARINT_DECODE_BUF_SHORT;
    v |= (uint64_t)(p[i] & 127) << (7 * i);
    if (!(p[i] & 128)) {
      if (v >> 32) return KVARINT_DECODE_BUF_INVALID;
      *value = (uint32_t)v;
      *used = i + 1;
      return KVARINT_OK;
    }
  }
  return KVARINT_DECODE_BUF_INVALID;
}
static inline void kvarint_encode32(uint32_t v, kvarint_buf32_t *out)
{
  out->len = 0;
  do {
    out->buf[out->len++] = (uint8_t)((v & 127) | (v > 127 ? 128 : 0));
    v >>= 7;
  } while (v);
}
