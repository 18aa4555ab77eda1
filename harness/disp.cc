// Packets act only on the side they belong to: two identical pairs of encoder and decoder, one of
// which is given a foreign packet (or gets its packets through dispatch), must stay identical.
#include "common.hh"
#include "netcode/dispatch.hh"
#include "netcode/errors.hh"
using namespace h;

namespace {
struct pair
{
  wire tx, back;
  sink out;
  ntc::encoder<wire_ref> enc;
  ntc::decoder<wire_ref, sink_ref> dec;
  pair(unsigned w, bool ordered)
    : enc(static_cast<uint8_t>(w), wire_ref{&tx})
    , dec(static_cast<uint8_t>(w), ordered ? ntc::in_order::yes : ntc::in_order::no, wire_ref{&back}, sink_ref{&out})
  {
    enc.set_rate(3).set_adaptive(true);
    dec.set_ack_nb_packets(static_cast<uint16_t>(sym_param("thr", 3)));
    dec.set_ack_period(std::chrono::milliseconds{50});
  }
};
char pay[8][8];

void add(pair& p, unsigned i) { const unsigned n = 1 + i % 3; p.enc(ntc::data(pay[i], pay[i] + n)); }

int same_wire(const wire& a, const wire& b)
{
  if (a.n != b.n || a.open != b.open) return 0;
  for (unsigned i = 0; i < a.n; ++i) if (a.len[i] != b.len[i] || !eq(a.bytes[i], b.bytes[i], a.len[i])) return 0;
  return 1;
}
void compare(const pair& a, const pair& b, const char* when)
{
  (void)when;
  sym_check(a.enc.window() == b.enc.window() && a.enc.nb_received_acks() == b.enc.nb_received_acks() && a.enc.nb_sent_repairs() == b.enc.nb_sent_repairs()
            && a.enc.nb_sent_sources() == b.enc.nb_sent_sources() && a.enc.rate() == b.enc.rate(), "the encoder's state differs");
  sym_check(a.dec.nb_received_sources() == b.dec.nb_received_sources() && a.dec.nb_received_repairs() == b.dec.nb_received_repairs()
            && a.dec.nb_missing_sources() == b.dec.nb_missing_sources() && a.dec.nb_sent_acks() == b.dec.nb_sent_acks() && a.dec.nb_decoded() == b.dec.nb_decoded()
            && a.dec.nb_useless_repairs() == b.dec.nb_useless_repairs(), "the decoder's state differs");
  sym_check(same_wire(a.tx, b.tx), "the encoder emits other packets");
  sym_check(same_wire(a.back, b.back), "the decoder emits other packets");
  sym_check(a.out.n == b.out.n, "other data are handed over");
  for (unsigned i = 0; i < a.out.n && i < b.out.n; ++i)
    sym_check(a.out.len[i] == b.out.len[i] && eq(a.out.bytes[i], b.out.bytes[i], a.out.len[i]), "other data are handed over");
}

// Give p to a side which has to refuse it.
void refuse(pair& a, unsigned target, const char* bytes, unsigned n)
{
  ntc::packet p(bytes, bytes + n);
  const bool copy = sym_choice(2, "copy") != 0;
  bool refused = false;
  try
  {
    if (target == 0) { if (copy) a.enc(p); else a.enc(std::move(p)); }
    else if (target == 1) { if (copy) a.dec(p); else a.dec(std::move(p)); }
    else ntc::dispatch(a.enc, a.dec, std::move(p));
  }
  catch (const ntc::packet_type_error& e)
  {
    refused = true;
    sym_check(e.error_packet.size() == n, "the error carries a packet of another size");
    sym_check(e.error_packet.size() != n || n == 0 || eq(e.error_packet.data(), bytes, n), "the error carries another packet");
  }
  catch (...) {}
  sym_check(refused, "a packet of a foreign or unknown type is not refused with the packet-type error");
  sym_cover("refused");
}
}

extern "C" void harness()
{
  const unsigned w = static_cast<unsigned>(sym_param("w", 8));
  const unsigned state = static_cast<unsigned>(sym_param("state", 0));
  const unsigned kind = static_cast<unsigned>(sym_param("kind", 0));
  const unsigned L = static_cast<unsigned>(sym_param("len", 12));
  sym_clock_ns = 1000000000;
  pair A(w, sym_param("ordered", 0) != 0), B(w, sym_param("ordered", 0) != 0);
  for (unsigned i = 0; i < 8; ++i) sym_bytes(pay[i], 3, "d");
  unsigned next = 0;
  for (pair* p : {&A, &B})
  {
    next = 0;
    if (state >= 1) { add(*p, 0); add(*p, 1); add(*p, 2); p->dec(p->tx.get(0)); }       // s0 s1 s2 r0; s0 received
    if (state >= 1) next = 3;
    if (state >= 2) { p->dec(p->tx.get(3)); }                                            // a pending repair; the second packet
    if (state >= 3) { p->dec.generate_ack(); p->enc(p->back.get(0)); add(*p, 3); p->enc.generate_repair(); next = 4; }
  }
  compare(A, B, "before");
  // Let a time pass after which any reaction of the decoder would send an acknowledgement.
  sym_clock_ns += 1000000000;

  if (kind == 0)          // unknown type
  {
    const unsigned n = 1 + sym_choice(L, "length");
    char t[64];
    sym_bytes(t, n, "packet");
    sym_assume(static_cast<unsigned char>(t[0]) > 2);
    refuse(A, sym_choice(3, "target"), t, n);
  }
  else if (kind == 1)     // another side's type, any content
  {
    const unsigned n = 1 + sym_choice(L, "length");
    char t[64];
    sym_bytes(t, n, "packet");
    const unsigned target = sym_choice(2, "target");
    sym_assume(target == 0 ? t[0] == 1 || t[0] == 2 : t[0] == 0);
    refuse(A, target, t, n);
  }
  else if (kind == 2)     // packets of the session, given to the wrong side
  {
    if (A.tx.n + A.back.n == 0) { sym_cover("end"); return; }
    const unsigned c = sym_choice(A.tx.n + A.back.n, "which");
    if (c < A.tx.n) refuse(A, 0, A.tx.bytes[c], A.tx.len[c]); else refuse(A, 1, A.back.bytes[c - A.tx.n], A.back.len[c - A.tx.n]);
  }
  else if (kind == 3) refuse(A, sym_choice(3, "target"), nullptr, 0);      // nothing at all
  // From here on both do the same; A's packets may come through dispatch.
  const bool disp = sym_param("disp", 0) != 0;
  const unsigned K = static_cast<unsigned>(sym_param("k", 2));
  compare(A, B, "after");
  auto give = [&](bool to_enc, const ntc::packet& pa, const ntc::packet& pb)
  {
    const std::size_t size = pa.size();
    std::size_t ra, rb;
    if (disp) ra = ntc::dispatch(A.enc, A.dec, ntc::packet(pa)); else ra = to_enc ? A.enc(pa) : A.dec(pa);
    rb = to_enc ? B.enc(pb) : B.dec(pb);
    sym_check(ra == rb, "dispatch does not return what the side returns");
    sym_check(ra == size, "the number of bytes read is not the packet's length");
    sym_trace(ra);
    sym_cover(to_enc ? "ack processed" : "packet processed");
  };
  for (unsigned s = 0; s < K; ++s)
  {
    sym_clock_ns += 20000000;
    unsigned c = sym_choice(3 + A.tx.n + A.back.n, "action");
    if (c == 0) { add(A, next); add(B, next); ++next; }
    else if (c == 1) { if (A.enc.window() == 0 || B.enc.window() == 0) continue; A.enc.generate_repair(); B.enc.generate_repair(); }
    else if (c == 2) { A.dec.generate_ack(); B.dec.generate_ack(); }
    else if ((c -= 3) < A.tx.n) give(false, A.tx.get(c), B.tx.get(c));
    else { c -= A.tx.n; give(true, A.back.get(c), B.back.get(c)); }
    compare(A, B, "later");
  }
  sym_trace(A.tx.n); sym_trace(A.back.n); sym_trace(A.out.n);
  sym_cover("end");
}
