// Field arithmetic, coefficients and matrix inversion.
//   prop 15: coefficients       16: matrix inversion       18: coding of sizes and symbols
#include "model.hh"
#include "netcode/detail/galois_field.hh"
#include "netcode/detail/invert_matrix.hh"
#include "netcode/detail/packetizer.hh"
#include "netcode/detail/encoder.hh"
#include "netcode/detail/square_matrix.hh"
using namespace h;
using namespace ntc::detail;

namespace {

// ---- C15 ----------------------------------------------------------------------------------------
void coefficient_range(unsigned w)
{
  galois_field g(static_cast<uint8_t>(w));
  const uint32_t r = static_cast<uint32_t>(sym_int("repair", 32)), s = static_cast<uint32_t>(sym_int("source", 32));
  const uint32_t c = g.coefficient(r, s);
  sym_check(c != 0, "a coefficient is zero");
  sym_check(w == 32 || c < (1ull << w), "a coefficient is not an element of the field");
  sym_check(c == g.coefficient(r, s), "two derivations of a coefficient differ");
  galois_field g2(static_cast<uint8_t>(w));
  sym_check(c == g2.coefficient(r, s), "two fields of the same size derive different coefficients");
  sym_trace(c);
}

const uint32_t IDS[] = {0, 1, 253, 254, 255, 256, 65533, 65534, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0xfffffffdu, 0xfffffffeu};
constexpr unsigned NIDS = sizeof IDS / sizeof IDS[0];
const uint32_t RIDS[] = {0, 1, 14, 253, 254, 255, 65534, 65535, 65536, 0x7fffffff, 0xfffffffeu, 0xffffffffu};
constexpr unsigned NRIDS = sizeof RIDS / sizeof RIDS[0];

// Data with large identifiers are coded by one side and recovered by the other.
void coefficient_agreement(unsigned w)
{
  const unsigned u = w <= 8 ? 1 : w / 8, n = 2 * u;
  const unsigned a = sym_choice(NIDS - 1, "s0"), b = a + 1 + sym_choice(NIDS - 1 - a, "s1");
  const uint32_t id[2] = {IDS[a], IDS[b]};
  const unsigned mode = static_cast<unsigned>(sym_param("mode", 0));      // 0: one datum, 1: one of two lost, 2: both lost
  const uint32_t rid[2] = {RIDS[sym_choice(NRIDS, "r0")], 0};
  uint32_t rid1 = rid[0];
  if (mode == 2) { rid1 = RIDS[sym_choice(NRIDS, "r1")]; sym_assume(rid1 != rid[0]); }
  char pay[2][MAXS];
  sym_bytes(pay[0], n, "p0"); sym_bytes(pay[1], n - u, "p1");
  // The identifying byte, as in the end-to-end harness.
  wire t; wire_ref tr{&t};
  packetizer<wire_ref> pk(tr);
  source_list l;
  l.emplace(id[0], ntc::data(pay[0], pay[0] + n));
  if (mode) l.emplace(id[1], ntc::data(pay[1], pay[1] + n - u));
  encoder e(static_cast<uint8_t>(w));
  for (unsigned k = 0; k < (mode == 2 ? 2u : 1u); ++k)
  {
    encoder_repair r(k ? rid1 : rid[0]);
    e(r, l);
    pk.write_repair(r);
  }
  if (mode == 1) pk.write_source(encoder_source(id[1], ntc::data(pay[1], pay[1] + n - u)));
  if (mode == 2)
  {
    // Dependent repairs recover nothing: outside this property.
    galois_field g(static_cast<uint8_t>(w));
    const rgf f{w};
    const uint32_t d = f.mul(g.coefficient(rid[0], id[0]), g.coefficient(rid1, id[1])) ^ f.mul(g.coefficient(rid[0], id[1]), g.coefficient(rid1, id[0]));
    if (d == 0) { sym_cover("dependent"); return; }
  }
  wire acks; sink out;
  ntc::decoder<wire_ref, sink_ref> dec(static_cast<uint8_t>(w), ntc::in_order::no, wire_ref{&acks}, sink_ref{&out});
  dec.set_ack_period(std::chrono::milliseconds{0});
  for (unsigned i = 0; i < t.n; ++i) dec(t.get(i));
  sym_check(out.n == (mode ? 2u : 1u), "a datum is not recovered");
  for (unsigned i = 0; i < out.n; ++i)
  {
    // one lost of two: the source is delivered... before or after the recovered one
    const unsigned want = mode == 1 ? 1 - i : i;
    const unsigned len = want ? n - u : n;
    sym_check(out.len[i] == len, "a recovered datum has another length: the two sides disagree on a coefficient");
    sym_check(out.len[i] != len || eq(out.bytes[i], pay[want], len), "a recovered datum has other bytes: the two sides disagree on a coefficient");
  }
  sym_cover("recovered");
}
// All identifiers at once, in GF(16).
void coefficient_agreement_all()
{
  char pay[2];
  sym_bytes(pay, 2, "p");
  const uint32_t rid = static_cast<uint32_t>(sym_int("repair", 32)), sid = static_cast<uint32_t>(sym_int("source", 32));
  wire t; wire_ref tr{&t};
  packetizer<wire_ref> pk(tr);
  source_list l;
  l.emplace(sid, ntc::data(pay, pay + 2));
  encoder e(4);
  encoder_repair r(rid);
  e(r, l);
  pk.write_repair(r);
  galois_field g(4);
  sym_concrete(g.coefficient(rid, sid));
  wire acks; sink out;
  ntc::decoder<wire_ref, sink_ref> dec(4, ntc::in_order::no, wire_ref{&acks}, sink_ref{&out});
  dec.set_ack_period(std::chrono::milliseconds{0});
  dec(t.get(0));
  sym_check(out.n == 1 && out.len[0] == 2, "a datum is not recovered");
  sym_check(eq(out.bytes[0], pay, 2), "a recovered datum has other bytes: the two sides disagree on a coefficient");
  sym_cover("recovered");
}

// ---- C16 ----------------------------------------------------------------------------------------
// Rank of a matrix (concrete or not: branches on entries), reference arithmetic.
#ifndef NTC_MD
#define NTC_MD 8
#endif
constexpr unsigned MD = NTC_MD;
unsigned ref_rank(unsigned w, unsigned rows, unsigned cols, uint32_t m[MD][MD])
{
  const rgf f{w};
  unsigned r = 0;
  for (unsigned c = 0; c < cols && r < rows; ++c)
  {
    unsigned p = r;
    while (p < rows && m[p][c] == 0) ++p;
    if (p == rows) continue;
    for (unsigned k = 0; k < cols; ++k) { uint32_t t = m[p][k]; m[p][k] = m[r][k]; m[r][k] = t; }
    for (unsigned j = r + 1; j < rows; ++j)
      if (m[j][c])
      {
        const uint32_t a = m[r][c], b = m[j][c];
        for (unsigned k = c; k < cols; ++k) m[j][k] = f.mul(a, m[j][k]) ^ f.mul(b, m[r][k]);
      }
    ++r;
  }
  return r;
}
uint32_t ref_det(unsigned w, unsigned n, const uint32_t m[MD][MD])
{
  const rgf f{w};
  if (n == 1) return m[0][0];
  if (n == 2) return f.mul(m[0][0], m[1][1]) ^ f.mul(m[0][1], m[1][0]);
  return f.mul(m[0][0], f.mul(m[1][1], m[2][2]) ^ f.mul(m[1][2], m[2][1])) ^ f.mul(m[0][1], f.mul(m[1][0], m[2][2]) ^ f.mul(m[1][2], m[2][0]))
       ^ f.mul(m[0][2], f.mul(m[1][0], m[2][1]) ^ f.mul(m[1][1], m[2][0]));
}
void inversion()
{
  const unsigned w = static_cast<unsigned>(sym_param("w", 4)), n = static_cast<unsigned>(sym_param("n", 2));
  const unsigned kind = static_cast<unsigned>(sym_param("kind", 0));
  const rgf f{w};
  galois_field g(static_cast<uint8_t>(w));
  square_matrix a(n), inv(n);
  // Also after the matrices were used with other dimensions.
  if (sym_param("resized", 0)) { a.resize(n + 1); inv.resize(n + 2); for (unsigned i = 0; i < (n + 1) * (n + 1); ++i) a[i] = i + 1; a.resize(n); inv.resize(n); }
  sym_check(a.dimension() == n, "a matrix has another dimension than asked for");
  uint32_t m[MD][MD];      // m[row][col]: row = line (repair), as stored
  // Large ones: a shape and two lines of it are chosen.
  unsigned mode = 0, l1 = 0, l2 = 0;
  if (kind == 4)
  {
    mode = sym_choice(6, "shape");
    const unsigned at[] = {0, 1, n / 2, n - 2, n - 1};
    if (mode != 0 && mode != 3) l1 = at[sym_choice(5, "line")];
    if (mode == 1 || mode == 5) l2 = at[sym_choice(5, "line")];
  }
  for (unsigned c = 0; c < n; ++c)
    for (unsigned r = 0; r < n; ++r)
    {
      uint32_t x;
      if (kind == 4)
      {
        const unsigned line = mode == 1 && c == l2 ? l1 : c;                              // 1: a line repeated
        x = g.coefficient(line + static_cast<unsigned>(sym_param("salt", 0)), r);
        if (mode == 2 && r == l1 && c != n - 1) x = 0;                                    // one column is zero but for the last line
        if (mode == 3 && c + r < n - 1) x = 0;                                            // triangular, backwards
        if (mode == 4 && c == l1 && r != n - 1 - l1) x = 0;                               // one line with one entry
        if (mode == 5 && (r == l1 ? c == l2 || c == n / 3 : c == l2 && r % 2)) x = 0;     // holes
      }
      else
      if (kind == 0) x = static_cast<uint32_t>(sym_int("m", w));                                         // anything
      else if (kind == 1) x = sym_int("b", 1) ? g.coefficient(c, r) : 0;                                  // what decoders build: a coefficient or nothing
      else if (kind == 2) x = sym_choice(2, "b") ? (1u + (c * 5 + r * 3 + static_cast<unsigned>(sym_param("salt", 0))) % ((1u << (w < 16 ? w : 16)) - 1)) : 0;
      else      // some entries are anything, some may be missing, the others are coefficients
      {
        const unsigned long long bit = 1ull << (c * n + r);
        const uint32_t v = g.coefficient(c + static_cast<unsigned>(sym_param("salt", 0)), r);
        x = static_cast<unsigned long long>(sym_param("any", 0)) & bit ? static_cast<uint32_t>(sym_int("m", w)) : static_cast<unsigned long long>(sym_param("opt", 0)) & bit ? (sym_choice(2, "b") ? v : 0) : v;
      }
      a(r, c) = x;
      m[c][r] = x;
    }
  const auto res = invert(g, a, inv);
  if (!res)
  {
    sym_cover("inverted");
    for (unsigned i = 0; i < n; ++i)
      for (unsigned j = 0; j < n; ++j)
      {
        uint32_t x = 0;
        for (unsigned k = 0; k < n; ++k) x ^= f.mul(m[i][k], inv(j, k));
        sym_check(x == (i == j ? 1u : 0u), "the product of a matrix and its inverse is not the identity");
      }
    if (n <= 3) sym_check(ref_det(w, n, m) != 0, "a singular matrix is reported inverted");
  }
  else
  {
    sym_cover("refused");
    const std::size_t line = *res;
    sym_check(line < n, "the reported line is outside of the matrix");
    if (n <= 3) sym_check(ref_det(w, n, m) == 0, "an invertible matrix is refused");
    if (line < n)
    {
      // the rank of the other lines is that of all of them
      uint32_t all[MD][MD], rest[MD][MD];
      unsigned k = 0;
      for (unsigned i = 0; i < n; ++i)
      {
        for (unsigned j = 0; j < n; ++j) { all[i][j] = m[i][j]; if (i != line) rest[k][j] = m[i][j]; }
        if (i != line) ++k;
      }
      const unsigned ra = ref_rank(w, n, n, all), rr = ref_rank(w, n - 1, n, rest);
      sym_check(ra < n, "an invertible matrix is refused");
      sym_check(rr == ra, "the reported line does not depend on the others");
    }
    sym_trace(line);
  }
}

// ---- C18 ----------------------------------------------------------------------------------------
const uint32_t COEFS[] = {1, 2, 3, 7, 8, 15, 16, 17, 127, 128, 129, 254, 255, 256, 257, 511, 1000, 4095, 4096, 0x7fff, 0x8000, 0x8001, 0xaaaa, 0x5555, 0xfffe, 0xffff,
                          0x10000, 0x10001, 0x1234567, 0x7fffffff, 0x80000000u, 0x80000001u, 0xaaaaaaaau, 0x55555555u, 0xdeadbeefu, 0xfffffffeu, 0xffffffffu};
constexpr unsigned NCOEFS = sizeof COEFS / sizeof COEFS[0];
uint32_t pick(unsigned w)
{
  if (w <= 8) return 1 + sym_choice((1u << w) - 1, "c");
  const unsigned all = static_cast<unsigned>(sym_param("all", 0));
  if (w == 16 && all) return 1 + sym_choice(65535, "c");
  return COEFS[sym_choice(w == 16 ? 26 : NCOEFS, "c")];
}
void sizes(unsigned w)
{
  galois_field g(static_cast<uint8_t>(w));
  const uint32_t c = pick(w);
  const uint32_t ci = g.invert(c);
  const rgf f{w};
  sym_check(ci == f.inv(c), "the inverse of a coefficient is wrong");
  const uint32_t a = static_cast<uint32_t>(sym_int("a", 16)), b = static_cast<uint32_t>(sym_int("b", 16));
  const uint32_t ea = g.multiply_size(a, c), eb = g.multiply_size(b, c);
  sym_check(w == 32 || ea < 65536, "a coded size does not fit in the 16 bits of the fields up to 16");
  sym_check(static_cast<uint16_t>(g.multiply_size(ea, ci)) == a, "a coded size multiplied by the inverse is not the size");
  sym_check(g.multiply_size(ea, ci) == a, "a coded size multiplied by the inverse is not the size");
  sym_check(g.multiply_size(a ^ b, c) == (ea ^ eb), "coding of sizes is not additive");
  // A combination of two sizes, one of which is removed.
  sym_check(g.multiply_size(ea ^ eb ^ g.multiply_size(b, c), ci) == a, "removing a size from a combination does not leave the other");
  // Sizes are coded like the symbol which contains them.
  alignas(16) char s[4], d[4];
  const unsigned n = w == 32 ? 4 : 2;
  for (unsigned k = 0; k < n; ++k) s[k] = static_cast<char>(a >> (8 * k));
  g.multiply(s, d, n, c);
  uint32_t v = 0;
  for (unsigned k = 0; k < n; ++k) v |= static_cast<uint32_t>(static_cast<unsigned char>(d[k])) << (8 * k);
  sym_check(v == ea, "a size is not coded like a symbol with the same bytes");
  sym_trace(ea);
}
void regions(unsigned w)
{
  galois_field g(static_cast<uint8_t>(w));
  const uint32_t c = pick(w);
  const uint32_t ci = g.invert(c);
  const unsigned u = w <= 8 ? 1 : w / 8, n = static_cast<unsigned>(sym_param("n", 5)) * u;
  alignas(16) char x[MAXS], y[MAXS], ex[MAXS], ey[MAXS], z[MAXS], t[MAXS];
  sym_bytes(x, n + 1, "x"); sym_bytes(y, n + 1, "y"); sym_bytes(z, n + 1, "z");
  for (unsigned i = 0; i <= n; ++i) { ex[i] = z[i]; ey[i] = z[i]; t[i] = z[i]; }
  g.multiply(x, ex, n, c);
  g.multiply(y, ey, n, c);
  sym_check(ex[n] == z[n], "multiply writes after the region");
  // back
  g.multiply(ex, t, n, ci);
  sym_check(eq(t, x, n), "a coded symbol multiplied by the inverse is not the symbol");
  sym_check(t[n] == z[n], "multiply writes after the region");
  // multiply_add adds the product
  for (unsigned i = 0; i <= n; ++i) t[i] = z[i];
  g.multiply_add(x, t, n, c);
  unsigned d = 0;
  for (unsigned i = 0; i < n; ++i) d |= static_cast<unsigned char>(t[i]) ^ static_cast<unsigned char>(z[i]) ^ static_cast<unsigned char>(ex[i]);
  sym_check(d == 0, "multiply_add does not add the product");
  sym_check(t[n] == z[n], "multiply_add writes after the region");
  g.multiply_add(x, t, n, c);
  sym_check(eq(t, z, n), "adding a product twice does not cancel it");
  // additive
  for (unsigned i = 0; i < n; ++i) t[i] = static_cast<char>(x[i] ^ y[i]);
  alignas(16) char e[MAXS];
  g.multiply(t, e, n, c);
  d = 0;
  for (unsigned i = 0; i < n; ++i) d |= static_cast<unsigned char>(e[i]) ^ static_cast<unsigned char>(ex[i]) ^ static_cast<unsigned char>(ey[i]);
  sym_check(d == 0, "coding of symbols is not additive");
  // zero-padding: the prefix of a longer product
  g.multiply(x, e, n - u, c);
  sym_check(eq(e, ex, n - u), "coding of a symbol depends on its length");
  sym_trace(static_cast<unsigned char>(ex[0]));
}
// Products of coefficients.
void products(unsigned w)
{
  galois_field g(static_cast<uint8_t>(w));
  const rgf f{w};
  const uint32_t c = pick(w);
  // at most 16 bits at a time in the largest field
  uint32_t a = static_cast<uint32_t>(sym_int("a", w > 16 ? 16 : w));
  if (w == 32) a <<= sym_choice(3, "shift") * 8;
  const uint32_t p = g.multiply(a, c);
  sym_check(p == f.mul(a, c), "a product of coefficients is wrong");
  sym_check(g.multiply(c, a) == p, "a product of coefficients depends on their order");
  sym_check(g.multiply(p, g.invert(c)) == a, "a product multiplied by the inverse is not the other factor");
  sym_trace(p);
}
}

extern "C" void harness()
{
  const int p = static_cast<int>(sym_param("prop", 15)), part = static_cast<int>(sym_param("part", 0));
  const unsigned w = static_cast<unsigned>(sym_param("w", 8));
  if (p == 15) { if (part == 0) coefficient_range(w); else if (part == 1) coefficient_agreement(w); else coefficient_agreement_all(); }
  else if (p == 16) inversion();
  else if (part == 0) sizes(w);
  else if (part == 1) regions(w);
  else products(w);
  sym_cover("end");
}
