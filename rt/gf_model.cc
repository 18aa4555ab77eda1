// Model of the part of libgf_complete that netcode uses (the library is only available as a
// binary).  GF(2^w) with gf_complete's default polynomials; little-endian words in regions; for
// w = 4 both nibbles of each byte are multiplied.  Validated against the real library by
// tools/gf_validate.cc (run by setup and by the C18 check).
extern "C" {
#include <gf_complete.h>
}
#include <cstdint>
#include <cstdlib>
#include "sym.h"

namespace {

uint32_t
gf_poly(unsigned w)
{
  return w == 4 ? 0x3u : w == 8 ? 0x1du : w == 16 ? 0x100bu : 0x400007u;
}

// Branch free in a, so that a symbolic times a concrete stays one linear expression.
uint32_t
gf_mul_const(unsigned w, uint32_t a, uint32_t c)
{
  const uint32_t poly = gf_poly(w);
  const uint32_t mask = w == 32 ? 0xffffffffu : ((1u << w) - 1u);
  uint32_t acc = 0;
  for (unsigned i = 0; i < w; ++i)
  {
    acc ^= (0u - (c & 1u)) & a;
    c >>= 1;
    const uint32_t top = (a >> (w - 1)) & 1u;
    a = ((a << 1) & mask) ^ ((0u - top) & poly);
  }
  return acc & mask;
}

#define OPS(W)                                                                                     \
  gf_val_32_t mul##W(gf_t*, gf_val_32_t a, gf_val_32_t b) { return gf_mul_const(W, a, b); }        \
  gf_val_32_t inv##W(gf_t*, gf_val_32_t b)                                                         \
  {                                                                                                \
    if (sym_is_symbolic(b))                                                                        \
    {                                                                                              \
      /* the only x with b * x = 1 */                                                              \
      const uint32_t x = static_cast<uint32_t>(sym_witness(W));                                    \
      sym_assume((gf_mul_const(W, x, b) == 1) | ((b == 0) & (x == 0)));                            \
      return x;                                                                                    \
    }                                                                                              \
    /* b^(2^W - 2) */                                                                              \
    uint32_t r = 1, s = b;                                                                         \
    for (unsigned i = 1; i < W; ++i) { s = gf_mul_const(W, s, s); r = gf_mul_const(W, r, s); }     \
    return r;                                                                                      \
  }                                                                                                \
  gf_val_32_t div##W(gf_t* g, gf_val_32_t a, gf_val_32_t b)                                        \
  { return a == 1 ? inv##W(g, b) : a == 0 || b == 0 ? 0 : gf_mul_const(W, a, inv##W(g, b)); }
OPS(4) OPS(8) OPS(16) OPS(32)

template <unsigned W>
void
region(gf_t*, void* src, void* dst, gf_val_32_t val, int bytes, int add)
{
  uint8_t* s = static_cast<uint8_t*>(src);
  uint8_t* d = static_cast<uint8_t*>(dst);
  constexpr int word = W <= 8 ? 1 : W / 8;
  // The library aborts on these.
  const uintptr_t sa = reinterpret_cast<uintptr_t>(src), da = reinterpret_cast<uintptr_t>(dst);
  if ((bytes < 0 || bytes % word != 0 || (sa & 15u) != (da & 15u) || sa % word != 0) && val > 1) abort();
  // Multiplying by 1 is a special case in it, which runs away on short regions that do not reach the
  // next 16-byte boundary.
  if (sa % 16 != 0 && sa % 16 == da % 16 && bytes >= 0 && sa % 16 + static_cast<unsigned>(bytes) < 16 && val == 1) abort();
  for (int i = 0; i < bytes; i += word)
  {
    if (W == 4)
    {
      const uint32_t lo = gf_mul_const(4, s[i] & 0xfu, val), hi = gf_mul_const(4, s[i] >> 4, val);
      const uint8_t r = static_cast<uint8_t>(lo | (hi << 4));
      d[i] = add ? static_cast<uint8_t>(d[i] ^ r) : r;
    }
    else
    {
      uint32_t x = 0;
      for (int k = 0; k < word; ++k) x |= static_cast<uint32_t>(s[i + k]) << (8 * k);
      const uint32_t r = gf_mul_const(W, x, val);
      for (int k = 0; k < word; ++k)
      {
        const uint8_t b = static_cast<uint8_t>(r >> (8 * k));
        d[i + k] = add ? static_cast<uint8_t>(d[i + k] ^ b) : b;
      }
    }
  }
}

} // namespace

extern "C" int
gf_init_easy(gf_t* gf, int w)
{
  switch (w)
  {
#define SET(W)                                                                                     \
    case W:                                                                                        \
      gf->multiply.w32 = mul##W; gf->divide.w32 = div##W; gf->inverse.w32 = inv##W;                \
      gf->multiply_region.w32 = region<W>;                                                         \
      break;
    SET(4) SET(8) SET(16) SET(32)
    default: return 0;
  }
  gf->scratch = malloc(8);
  return 1;
}

extern "C" int
gf_free(gf_t* gf, int)
{
  free(gf->scratch);
  gf->scratch = nullptr;
  return 0;
}
