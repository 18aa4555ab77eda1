// Sessions do not influence each other: a session runs alone, then the same session again while
// another one (another field, ordering and settings) works between its steps, comes to life late
// or is destroyed.  Both runs must be the same to the byte, and the other session must work too.
#include "common.hh"
#include <memory>
using namespace h;

namespace {
struct session
{
  wire tx, back;
  sink out;
  ntc::encoder<wire_ref> enc;
  ntc::decoder<wire_ref, sink_ref> dec;
  unsigned next = 0;
  session(unsigned w, bool ordered)
    : enc(static_cast<uint8_t>(w), wire_ref{&tx})
    , dec(static_cast<uint8_t>(w), ordered ? ntc::in_order::yes : ntc::in_order::no, wire_ref{&back}, sink_ref{&out})
  {}
};
char pay[8][16], other_pay[16][16];
unsigned W, W2;
unsigned unit(unsigned w) { return w <= 8 ? 1 : w / 8; }
unsigned size_of(unsigned w, unsigned i) { return (1 + i % 3) * unit(w); }

void configure(session& s)
{
  s.enc.set_rate(3).set_adaptive(true);
  if (sym_param("limit", 0)) s.enc.set_window_size(static_cast<std::size_t>(sym_param("limit", 0)));
  s.dec.set_ack_nb_packets(3);
  s.dec.set_ack_period(std::chrono::milliseconds{50});
}
std::unique_ptr<session> fresh(unsigned w, bool ordered)
{
  std::unique_ptr<session> s(new session(w, ordered));
  configure(*s);
  return s;
}
// One step; the meaning of c depends on the packets emitted so far.
void act(session& s, unsigned c)
{
  if (c == 0) { const unsigned i = s.next++; s.enc(ntc::data(pay[i], pay[i] + size_of(W, i))); }
  else if (c == 1) { if (s.enc.window()) s.enc.generate_repair(); }
  else if (c == 2) s.dec.generate_ack();
  else if ((c -= 3) < s.tx.n) s.dec(s.tx.get(c));
  else { c -= s.tx.n; if (c < s.back.n) s.enc(s.back.get(c)); }
}
int same_wire(const wire& a, const wire& b)
{
  if (a.n != b.n || a.open != b.open) return 0;
  for (unsigned i = 0; i < a.n; ++i) if (a.len[i] != b.len[i] || !eq(a.bytes[i], b.bytes[i], a.len[i])) return 0;
  return 1;
}
void compare(const session& a, const session& b)
{
  sym_check(same_wire(a.tx, b.tx), "the encoder emits other packets when another session works");
  sym_check(same_wire(a.back, b.back), "the decoder emits other acknowledgements when another session works");
  sym_check(a.out.n == b.out.n, "other data are handed over when another session works");
  for (unsigned i = 0; i < a.out.n && i < b.out.n; ++i)
    sym_check(a.out.len[i] == b.out.len[i] && eq(a.out.bytes[i], b.out.bytes[i], a.out.len[i]), "other data are handed over when another session works");
  sym_check(a.enc.window() == b.enc.window() && a.enc.rate() == b.enc.rate() && a.enc.nb_sent_sources() == b.enc.nb_sent_sources()
            && a.enc.nb_sent_repairs() == b.enc.nb_sent_repairs() && a.enc.nb_received_acks() == b.enc.nb_received_acks(), "the encoder's state differs when another session works");
  sym_check(a.dec.nb_missing_sources() == b.dec.nb_missing_sources() && a.dec.nb_decoded() == b.dec.nb_decoded() && a.dec.nb_received_sources() == b.dec.nb_received_sources()
            && a.dec.nb_received_repairs() == b.dec.nb_received_repairs() && a.dec.nb_sent_acks() == b.dec.nb_sent_acks()
            && a.dec.nb_useless_repairs() == b.dec.nb_useless_repairs(), "the decoder's state differs when another session works");
}
// The other session transfers `lost` + 1 data of which only the last one arrives, then repairs.
void round(session& s, unsigned lost, bool ordered)
{
  s.tx.n = 0; s.back.n = 0; s.out.n = 0;
  const unsigned first = s.next;
  for (unsigned i = 0; i <= lost; ++i)
  {
    const unsigned k = s.next++ & 15;
    s.enc(ntc::data(other_pay[k], other_pay[k] + size_of(W2, k)));
  }
  for (unsigned i = 0; i < lost; ++i) s.enc.generate_repair();
  sym_check(s.tx.n == 2 * lost + 1, "the other session emits other packets");
  for (unsigned i = 0; i <= lost; ++i) s.dec(s.tx.get(lost + i));
  sym_check(s.out.n == lost + 1, "the other session does not recover its data");
  for (unsigned i = 0; i < s.out.n; ++i)
  {
    const unsigned k = (first + (ordered ? i : i == 0 ? lost : i - 1)) & 15;
    sym_check(s.out.len[i] == size_of(W2, k) && eq(s.out.bytes[i], other_pay[k], size_of(W2, k)), "the other session hands over other data");
  }
  sym_check(s.back.n == 0, "the other session acknowledges before it has to");
  s.dec.generate_ack();
  s.enc(s.back.get(s.back.n - 1));
  sym_check(s.enc.window() == 0, "the other session's window is not empty although everything is acknowledged");
  sym_cover("other round");
}
}

extern "C" void harness()
{
  W = static_cast<unsigned>(sym_param("w", 8));
  W2 = static_cast<unsigned>(sym_param("w2", 8));
  const bool o = sym_param("ordered", 0) != 0, o2 = sym_param("ordered2", 0) != 0;
  const unsigned K = static_cast<unsigned>(sym_param("k", 4)), pre = static_cast<unsigned>(sym_param("pre", 3));
  for (unsigned i = 0; i < 8; ++i) sym_bytes(pay[i], size_of(W, i), "d");
  for (unsigned i = 0; i < 16; ++i)
  {
    for (unsigned k = 0; k < size_of(W2, i); ++k) other_pay[i][k] = static_cast<char>(i * 16 + k + 1);
    if (i < 3) sym_bytes(other_pay[i], 1, "o");
  }
  sym_clock_ns = 1000000000;
  auto other = [&]
  {
    std::unique_ptr<session> s(new session(W2, o2));
    s->enc.set_rate(1000).set_adaptive(false).set_window_size(5);
    s->dec.set_ack_nb_packets(1000);
    s->dec.set_ack_period(std::chrono::milliseconds{0});
    return s;
  };
  std::unique_ptr<session> B;
  const unsigned late = sym_choice(3, "life");      // the other session: there before, comes later, goes
  if (late == 0) { B = other(); round(*B, 1, o2); }

  // Alone.
  unsigned steps[32], n = 0;
  auto A = fresh(W, o);
  const long long t0 = sym_clock_ns;
  for (unsigned i = 0; i < pre; ++i) { sym_clock_ns += 20000000; act(*A, steps[n++] = 0); }
  for (unsigned i = 0; i < K; ++i)
  {
    sym_clock_ns += 20000000;
    act(*A, steps[n++] = sym_choice(3 + A->tx.n + A->back.n, "action"));
  }
  // Again.
  sym_clock_ns = t0;
  auto A2 = fresh(W, o);
  if (!B) B = other();
  for (unsigned i = 0; i < n; ++i)
  {
    sym_clock_ns += 20000000;
    if (B && (i == 0 || i >= pre)) round(*B, 1 + (i & 1), o2);
    act(*A2, steps[i]);
    if (late == 2 && i + 2 == n) { B.reset(); sym_cover("other gone"); }
  }
  compare(*A, *A2);
  if (B) round(*B, 2, o2);
  sym_trace(A->tx.n); sym_trace(A->back.n); sym_trace(A->out.n);
  for (unsigned i = 0; i < A2->tx.n; ++i) sym_trace(static_cast<unsigned char>(A2->tx.bytes[i][A2->tx.len[i] - 1]));
  if (A->out.n > 2) sym_cover("data handed over");
  sym_cover("end");
}
