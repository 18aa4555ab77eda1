// Reference models: what a peer may observe of an encoder and of a decoder, written from the
// property statements only.  They are concrete on every path (only payloads are symbolic).
#pragma once
#include "common.hh"
#include "netcode/detail/galois_field.hh"

namespace h {

// ---- reference arithmetic (independent of the library and of rt/gf_model.cc) --------------------
struct rgf
{
  unsigned w;
  uint32_t mul(uint32_t a, uint32_t b) const
  {
    const uint64_t poly = w == 4 ? 0x13ull : w == 8 ? 0x11dull : w == 16 ? 0x1100bull : 0x100400007ull;
    uint64_t r = 0, x = a;
    for (unsigned i = 0; i < w; ++i) r ^= (x << i) & (0ull - ((b >> i) & 1ull));
    for (unsigned i = 2 * w - 1; i >= w; --i) r ^= (poly << (i - w)) & (0ull - ((r >> i) & 1ull));
    return static_cast<uint32_t>(r);
  }
  uint32_t inv(uint32_t a) const
  {
    // a^(2^w - 2)
    uint32_t r = 1, s = a;
    for (unsigned i = 1; i < w; ++i) { s = mul(s, s); r = mul(r, s); }
    return r;
  }
};
// Reference: product of a region of bytes by a coefficient.
inline void ref_region(unsigned w, uint32_t c, const char* src, unsigned n, char* dst)
{
  const rgf f{w};
  if (w == 4)
    for (unsigned i = 0; i < n; ++i)
    {
      const unsigned v = static_cast<unsigned char>(src[i]);
      dst[i] = static_cast<char>(static_cast<unsigned char>(dst[i]) ^ (f.mul(c, v & 15) | f.mul(c, v >> 4) << 4));
    }
  else
  {
    const unsigned u = w / 8;
    uint32_t t[32];      // products by the powers of two: no branch on the bytes
    for (unsigned bit = 0; bit < w; ++bit) t[bit] = f.mul(c, 1u << bit);
    for (unsigned i = 0; i + u <= n; i += u)
    {
      uint32_t v = 0;
      for (unsigned k = 0; k < u; ++k) v |= static_cast<uint32_t>(static_cast<unsigned char>(src[i + k])) << (8 * k);
      uint32_t r = 0;
      for (unsigned bit = 0; bit < w; ++bit) r ^= (0u - ((v >> bit) & 1u)) & t[bit];
      for (unsigned k = 0; k < u; ++k) dst[i + k] = static_cast<char>(static_cast<unsigned char>(dst[i + k]) ^ (r >> (8 * k) & 0xff));
    }
  }
}
inline uint32_t ref_size(unsigned w, uint32_t c, uint32_t size)
{
  char s[4], d[4] = {0, 0, 0, 0};
  for (unsigned k = 0; k < 4; ++k) s[k] = static_cast<char>(size >> (8 * k));
  const unsigned n = w == 32 ? 4 : 2;
  if (w == 4) { const rgf f{4}; uint32_t r = 0; for (unsigned k = 0; k < 4; ++k) r |= f.mul(c, size >> (4 * k) & 15) << (4 * k); return r; }
  ref_region(w, c, s, n, d);
  uint32_t r = 0;
  for (unsigned k = 0; k < n; ++k) r |= static_cast<uint32_t>(static_cast<unsigned char>(d[k])) << (8 * k);
  return r;
}
// ---- what was emitted ---------------------------------------------------------------------------
constexpr unsigned MAXID = 16;     // data ids used by the end-to-end harnesses are below this
struct meta
{
  bool repair;
  unsigned id;        // source id or repair id
  unsigned cover;     // bit set of covered data (repairs)
};

inline unsigned lowest(unsigned m) { return static_cast<unsigned>(__builtin_ctz(m)); }
inline unsigned highest(unsigned m) { return 31u - static_cast<unsigned>(__builtin_clz(m)); }
inline unsigned popcount(unsigned m) { return static_cast<unsigned>(__builtin_popcount(m)); }

// ---- decoder model ------------------------------------------------------------------------------
struct decoder_model
{
  unsigned w;
  bool ordered;
  unsigned known = 0;       // data held and current
  unsigned done = 0;        // data handed over
  unsigned horizon = 0;     // data below are forgotten
  unsigned frontier = 0;    // in order: next datum to hand over
  unsigned neq = 0;         // usable repairs received so far
  uint32_t eq_id[32]; unsigned eq_cover[32];
  // What the current call must hand over.
  unsigned nout = 0; unsigned out[32];
  unsigned recovered = 0;   // data rebuilt from repairs
  unsigned useless = 0;     // repairs that arrived when all they cover was held
  bool solved = false;      // last call used a full decoding
  bool given_up = false;    // last call passed over data

  ntc::detail::galois_field lib;      // only for the coefficients both sides agree on
  uint32_t bs = 0, br = 0;            // identifiers are relative to these

  decoder_model(unsigned w_, bool o) : w(w_), ordered(o), lib(static_cast<uint8_t>(w_)) {}

  void learn(unsigned s)
  {
    known |= 1u << s;
    if (!ordered) { out[nout++] = s; done |= 1u << s; }
  }
  void flush()
  {
    if (!ordered) return;
    while (frontier < MAXID && ((known >> frontier) & 1)) { out[nout++] = frontier; done |= 1u << frontier; ++frontier; }
  }
  unsigned unknown() const
  {
    unsigned u = 0;
    for (unsigned i = 0; i < neq; ++i) u |= eq_cover[i] & ~known;
    return u;
  }
  unsigned rank(unsigned u) const
  {
    const rgf f{w};
    uint32_t m[32][MAXID]; unsigned cols[MAXID], nc = 0;
    for (unsigned s = 0; s < MAXID; ++s) if ((u >> s) & 1) cols[nc++] = s;
    for (unsigned i = 0; i < neq; ++i)
      for (unsigned c = 0; c < nc; ++c)
        m[i][c] = ((eq_cover[i] >> cols[c]) & 1) ? lib.coefficient(br + eq_id[i], bs + cols[c]) : 0;
    unsigned r = 0;
    for (unsigned c = 0; c < nc && r < neq; ++c)
    {
      unsigned p = r;
      while (p < neq && m[p][c] == 0) ++p;
      if (p == neq) continue;
      for (unsigned k = 0; k < nc; ++k) { uint32_t t = m[p][k]; m[p][k] = m[r][k]; m[r][k] = t; }
      for (unsigned j = r + 1; j < neq; ++j)
        if (m[j][c])
        {
          const uint32_t a = m[r][c], b = m[j][c];
          for (unsigned k = 0; k < nc; ++k) m[j][k] = f.mul(a, m[j][k]) ^ f.mul(b, m[r][k]);
        }
      ++r;
    }
    return r;
  }
  void close()
  {
    solved = false;
    for (bool again = true; again;)
    {
      again = false;
      for (unsigned i = 0; i < neq; ++i)
      {
        const unsigned u = eq_cover[i] & ~known;
        if (u && popcount(u) == 1) { learn(lowest(u)); ++recovered; again = true; }
      }
    }
    // Repairs that no longer cover unknown data carry nothing more.
    unsigned n = 0;
    for (unsigned i = 0; i < neq; ++i)
      if (eq_cover[i] & ~known) { eq_cover[n] = eq_cover[i]; eq_id[n] = eq_id[i]; ++n; }
    neq = n;
    const unsigned u = unknown();
    if (u && neq >= popcount(u) && rank(u) == popcount(u))
    {
      solved = true;
      for (unsigned s = 0; s < MAXID; ++s) if ((u >> s) & 1) { learn(s); ++recovered; }
      neq = 0;
    }
  }
  // Returns true if the packet is fresh, i.e. may have an effect.
  bool receive(const meta& p)
  {
    nout = 0; solved = false; given_up = false;
    if (!p.repair)
    {
      if (p.id < horizon || ((known >> p.id) & 1)) return false;
      learn(p.id);
      close();
      flush();
      return true;
    }
    const unsigned lo = lowest(p.cover);
    if (lo < horizon) return false;   // covers data that were forgotten
    // Data below lo are given up by the encoder.
    if (lo > horizon)
    {
      horizon = lo;
      if (ordered)
      {
        for (unsigned s = 0; s < lo; ++s)
          if (((known >> s) & 1) && !((done >> s) & 1)) { out[nout++] = s; done |= 1u << s; }
        if (frontier < lo) { for (unsigned s = frontier; s < lo; ++s) if (!((done >> s) & 1)) given_up = true; frontier = lo; }
        flush();
      }
      unsigned n = 0;
      for (unsigned i = 0; i < neq; ++i)
      {
        const unsigned u = eq_cover[i] & ~known;
        if (u && lowest(u) >= lo) { eq_cover[n] = u; eq_id[n] = eq_id[i]; ++n; }
      }
      neq = n;
      known &= ~((1u << lo) - 1u);
    }
    for (unsigned i = 0; i < neq; ++i) if (eq_id[i] == p.id) return false;   // repeated
    if ((p.cover & ~known) == 0) { ++useless; return true; }
    // Only what is still unknown matters from now on.
    sym_check(neq < 32, "harness: too many repairs");
    eq_cover[neq] = p.cover; eq_id[neq] = p.id; ++neq;
    for (unsigned i = 0; i < neq; ++i) eq_cover[i] &= ~known;
    close();
    flush();
    return true;
  }
};

// ---- encoder model ------------------------------------------------------------------------------
struct encoder_model
{
  unsigned next_source = 0, next_repair = 0, rate = 5, limit = 0xffffffffu;
  bool systematic = true;
  uint32_t bs = 0;            // identifiers are relative to this
  unsigned window = 0;        // bit set
  unsigned n = 0; meta m[MAXP];

  void repair() { m[n++] = meta{true, next_repair++, window}; }
  void add()
  {
    while (popcount(window) >= limit) { evicted |= window & (0u - window); window &= window - 1; }
    window |= 1u << next_source;
    if (systematic) m[n++] = meta{false, next_source, 0}; else repair();
    if ((bs + next_source + 1) % rate == 0) repair();
    ++next_source;
  }
  unsigned evicted = 0;
  void ack(unsigned ids) { window &= ~ids; }
};

} // namespace h
