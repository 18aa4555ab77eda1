// Arbitrary packets (prop 9): an instance in some state of a valid session is given a packet whose
// bytes are arbitrary.  Memory safety and termination are checked by the executor on every path; a
// twin which did not get the packet tells what a rejected packet may not change.
#include "model.hh"
#include "netcode/detail/packetizer.hh"
#include "netcode/errors.hh"
using namespace h;

namespace {
unsigned W, U;
unsigned ruined;                         // an accepted packet may legitimately change what follows

// Data handed over may have any length up to 65535: only the beginning is recorded.
struct hsink
{
  unsigned n = 0;
  unsigned len[MAXD];
  char bytes[MAXD][16];
  void put(const char* d, std::size_t l)
  {
    sym_check(n < MAXD, "harness: data store too small");
    sym_check(sym_ok(d, l), "a datum handed over is not in memory");
    len[n] = static_cast<unsigned>(l);
    volatile char c = 0;
    if (l) c = d[l - 1];
    (void)c;
    for (std::size_t i = 0; i < l && i < 16; ++i) bytes[n][i] = d[i];
    ++n;
  }
};
struct hsink_ref
{
  hsink* s;
  void operator()(const char* d, std::size_t l) { s->put(d, l); }
};

struct session
{
  wire tx, back;
  hsink out;
  ntc::encoder<wire_ref> enc;
  ntc::decoder<wire_ref, hsink_ref> dec;
  session(unsigned w, bool o)
    : enc(static_cast<uint8_t>(w), wire_ref{&tx})
    , dec(static_cast<uint8_t>(w), o ? ntc::in_order::yes : ntc::in_order::no, wire_ref{&back}, hsink_ref{&out})
  {
    enc.set_rate(1000);
    dec.set_ack_nb_packets(100).set_ack_period(std::chrono::milliseconds{0});
  }
};
char pay[8][16];
unsigned psize(unsigned i) { static const unsigned a[8] = {2, 1, 3, 2, 4, 1, 2, 3}; return a[i & 7] * U; }
void add(session& s, unsigned i) { s.enc(ntc::data(pay[i], pay[i] + psize(i))); }
void forget(session& s, unsigned id)
{
  wire t; wire_ref r{&t}; ntc::detail::packetizer<wire_ref> pk(r);
  ntc::detail::source_id_list l; l.insert(id);
  pk.write_ack(ntc::detail::ack{std::move(l), 1});
  s.enc(t.get(0));
}
void prepare(session& s, unsigned state)
{
  add(s, 0); add(s, 1); add(s, 2);                   // packets 0 1 2
  s.enc.generate_repair();                           // 3: {0 1 2}
  s.enc.generate_repair();                           // 4: {0 1 2}
  forget(s, 0);
  add(s, 3);                                         // 5
  s.enc.generate_repair();                           // 6: {1 2 3}
  if (state == 1) s.dec(s.tx.get(0));                // a source
  if (state == 2) { s.dec(s.tx.get(0)); s.dec(s.tx.get(3)); }    // 1 2 unknown, one repair
  if (state == 3) { s.dec(s.tx.get(3)); s.dec(s.tx.get(4)); }    // 0 1 2 unknown, two repairs
  if (state == 4) { s.dec(s.tx.get(5)); s.dec(s.tx.get(6)); }    // 1 2 unknown, 3 known, 0 given up
}
bool same_data(const session& a, const session& b)
{
  if (a.out.n != b.out.n) return false;
  for (unsigned i = 0; i < a.out.n; ++i) if (a.out.len[i] != b.out.len[i]) return false;
  return true;
}
void compare(const session& a, const session& b)
{
  sym_check(same_data(a, b), "after a rejected packet other data are handed over");
  for (unsigned i = 0; i < a.out.n && i < b.out.n; ++i)
    if (a.out.len[i] == b.out.len[i]) sym_check(eq(a.out.bytes[i], b.out.bytes[i], a.out.len[i] < 16 ? a.out.len[i] : 16), "after a rejected packet other data are handed over");
  sym_check(a.enc.window() == b.enc.window(), "after a rejected packet the window differs");
}
uint16_t be16(const char* p) { return static_cast<uint16_t>((static_cast<unsigned char>(p[0]) << 8) | static_cast<unsigned char>(p[1])); }
uint32_t be32(const char* p) { return (static_cast<uint32_t>(be16(p)) << 16) | be16(p + 2); }
void put16(char* p, unsigned v) { p[0] = static_cast<char>(v >> 8); p[1] = static_cast<char>(v); }
void put32(char* p, uint32_t v) { put16(p, v >> 16); put16(p + 2, v & 0xffff); }

// Returns true if the packet was accepted.
bool give(session& s, bool to_enc, const char* bytes, unsigned n)
{
  const unsigned out = s.out.n, tx = s.tx.n, back = s.back.n;
  bool accepted = false, documented = false;
  std::size_t read = 0;
  const std::size_t window = s.enc.window();
  try { read = to_enc ? s.enc(ntc::packet(bytes, bytes + n)) : s.dec(ntc::packet(bytes, bytes + n)); accepted = true; }
  catch (const ntc::packet_type_error&) { documented = true; }
  catch (const ntc::overflow_error&) { documented = true; }
  catch (...) {}
  sym_check(accepted || documented, "a packet makes an undocumented error escape");
  sym_check(s.tx.n == tx && s.tx.open == 0, "a received packet makes the encoder emit something");
  if (accepted)
  {
    sym_check(read <= n, "more bytes are read than the packet has");
    sym_cover("accepted");
  }
  else
  {
    sym_check(s.out.n == out, "a rejected packet hands data over");
    sym_check(s.back.n == back && s.back.open == 0, "a rejected packet is acknowledged");
    sym_check(s.enc.window() == window, "a rejected packet changes the window");
    sym_cover("rejected");
  }
  sym_trace(accepted); sym_trace(read); sym_trace(s.out.n);
  return accepted;
}

// A repair whose list of covered data is hostile.  The identifier, the sizes and the list are
// taken from values that matter (they determine which memory is touched), the rest is symbolic.
unsigned structured(char* t)
{
  static const uint32_t rid[4] = {7, 0, 0xffffffffu, 1};       // 0 and 1 are pending in some states
  static const uint32_t first[7] = {0, 1, 0xffffffffu, 40, 2, 0xfffffffeu, 3};
  static const unsigned run[5] = {1, 0, 255, 2, 254};
  static const unsigned diff[5] = {1, 0, 0xffff, 2, 0x8000};
  static const uint32_t enc[6] = {1, 0xffffu, 0, 4, 2, 0xffffffffu};
  const unsigned fixed = static_cast<unsigned>(sym_param("list", 0));
  unsigned o = 0;
  t[o++] = 1;
  put32(t + o, rid[sym_choice(static_cast<unsigned>(sym_param("rids", 2)), "rid")]); o += 4;
  // Symbol.
  const unsigned ss = sym_choice(static_cast<unsigned>(sym_param("symbols", 3)), "symbol");
  const unsigned n = ss == 0 ? 0 : ss == 1 ? 1 : 5;
  put16(t + o, n); o += 2;
  sym_bytes(t + o, n, "s"); o += n;
  const unsigned pairs = fixed, nf = static_cast<unsigned>(sym_param("firsts", 7)), nd = static_cast<unsigned>(sym_param("diffs", 5)), ne = static_cast<unsigned>(sym_param("codes", 8));
  put16(t + o, 1 + pairs); o += 2;
  put32(t + o, first[sym_choice(nf, "first")]); o += 4;
  for (unsigned i = 0; i < pairs; ++i)
  {
    t[o++] = static_cast<char>(run[sym_choice(static_cast<unsigned>(sym_param("runs", 5)), "run")]);
    put16(t + o, diff[sym_choice(nd, "diff")]); o += 2;
  }
  // Size: those around the symbol's and the extreme ones.
  const unsigned e = pairs ? sym_choice(ne < 6 ? ne : 6, "coded") : sym_choice(ne, "coded");
  uint32_t v;
  if (e < 6) v = enc[e];
  else
  {
    // Such that a single unknown datum gets one of these sizes.
    v = static_cast<uint32_t>(sym_int("coded_size", 32));
    ntc::detail::galois_field gf(static_cast<uint8_t>(W));
    const uint32_t id = be32(t + 1), src = be32(t + 9 + n);
    const auto sz = static_cast<uint16_t>(gf.multiply_size(v, gf.invert(gf.coefficient(id, src))));
    sym_assume(e == 6 ? sz <= 6 : sz >= 65530);
  }
  put32(t + o, v); o += 4;
  if (sym_param("cut", 0)) o = 8 + sym_choice(o - 8, "length");
  return o;
}
}

extern "C" void harness()
{
  W = static_cast<unsigned>(sym_param("w", 8)); U = W <= 8 ? 1 : W / 8;
  const bool ordered = sym_param("ordered", 0) != 0;
  const unsigned state = static_cast<unsigned>(sym_param("state", 0)), kind = static_cast<unsigned>(sym_param("kind", 0));
  const unsigned lo = static_cast<unsigned>(sym_param("lo", 1)), hi = static_cast<unsigned>(sym_param("hi", 12));
  const unsigned R = static_cast<unsigned>(sym_param("run", 2)), K = static_cast<unsigned>(sym_param("k", 2));
  sym_clock_ns = 1000000000;
  for (unsigned i = 0; i < 8; ++i) sym_bytes(pay[i], psize(i), "d");
  session A(W, ordered), B(W, ordered);
  prepare(A, state); prepare(B, state);

  char t[64];
  unsigned n = 0;
  bool to_enc = false;
  if (kind == 0)               // arbitrary type
  {
    n = lo + sym_choice(hi - lo + 1, "length");
    sym_bytes(t, n, "p");
    if (n) sym_assume(static_cast<unsigned char>(t[0]) > 2);
    to_enc = sym_choice(2, "side") != 0;
  }
  else if (kind == 1)          // a source
  {
    n = lo + sym_choice(hi - lo + 1, "length");
    sym_bytes(t, n, "p");
    sym_assume(t[0] == 2);
    if (n >= 7 && be16(t + 5) <= n - 7 && be32(t + 1) < 4) put32(t + 1, static_cast<uint32_t>(sym_concrete(be32(t + 1))));
  }
  else if (kind == 2 || kind == 3)     // a repair, an acknowledgement
  {
    n = lo + sym_choice(hi - lo + 1, "length");
    sym_bytes(t, n, "p");
    sym_assume(t[0] == (kind == 2 ? 1 : 0));
    to_enc = kind == 3;
    unsigned o = 3;
    if (kind == 2)
    {
      o = 7;
      if (n >= 7)
      {
        if (be16(t + 5) <= n - 7) o += static_cast<unsigned>(sym_concrete(be16(t + 5))); else o = n;
      }
    }
    // The list: run lengths are bounded, everything else is arbitrary.
    for (unsigned i = o + 6; i < n; i += 3) sym_assume(static_cast<unsigned char>(t[i]) <= R);
    if (kind == 2 && sym_param("cut", 0))
    {
      // Only packets which end before the repair is complete.
      const unsigned left = n > o ? n - o : 0;
      if (left >= 2)
      {
        const unsigned nb = be16(t + o);
        sym_assume(nb == 0 ? left < 6 : left < 10 || nb - 1u > (left - 10) / 3);
      }
    }
  }
  else n = structured(t);

  const bool accepted = give(A, to_enc, t, n);
  ruined = accepted;
  if (sym_param("twice", 0))         // another one
  {
    n = structured(t);
    ruined |= give(A, false, t, n);
  }
  // From here on valid traffic only.
  if (!ruined) compare(A, B);
  for (unsigned s = 0; s < K; ++s)
  {
    static const unsigned which[7] = {6, 1, 3, 2, 5, 0, 4};
    const unsigned c = which[sym_choice(static_cast<unsigned>(sym_param("which", 3)), "deliver")];
    A.dec(A.tx.get(c));
    if (!ruined) { B.dec(B.tx.get(c)); compare(A, B); }
    sym_check(A.back.n == 0, "harness: no acknowledgement is expected");
  }
  if (to_enc && accepted)
  {
    // The window: what it held, or less.
    sym_check(A.enc.window() <= B.enc.window(), "an acknowledgement enlarges the window");
  }
  A.dec.generate_ack();
  if (!ruined)
  {
    B.dec.generate_ack();
    // The same data are held (the count of packets may differ).
    sym_check(A.back.n == 1 && B.back.n == 1 && A.back.len[0] == B.back.len[0] && eq(A.back.bytes[0] + 3, B.back.bytes[0] + 3, A.back.len[0] - 3), "after a rejected packet other data are acknowledged");
    if (A.enc.window())
    {
      add(A, 4); add(B, 4);
      A.enc.generate_repair(); B.enc.generate_repair();
      const unsigned x = A.tx.n - 1;
      sym_check(A.tx.n == B.tx.n && A.tx.len[x] == B.tx.len[x] && eq(A.tx.bytes[x], B.tx.bytes[x], A.tx.len[x]), "after a rejected packet other repairs are emitted");
      A.enc(A.back.get(0)); B.enc(B.back.get(0));
      sym_check(A.enc.window() == B.enc.window(), "after a rejected packet acknowledgements act differently");
    }
  }
  else A.enc(A.back.get(0));
  sym_trace(A.out.n); sym_trace(A.enc.window());
  sym_cover("end");
}
