// The encoder alone: window, acknowledgements, repairs, emission.
//   prop 10: acknowledgements with arbitrary identifiers     11: window limit
//        12: content of repairs                               13: emission
//        17: adaptive rate
#include "model.hh"
#include "netcode/detail/packetizer.hh"
#include "netcode/detail/galois_field.hh"
using namespace h;
using namespace ntc::detail;

namespace {
int P;
#ifndef NTC_NW
#define NTC_NW 64
#endif
constexpr unsigned NW = NTC_NW;

struct emitted { unsigned type; uint32_t id; source_id_list ids; uint32_t esize; unsigned ssize; const char* sym; };

struct box
{
  wire tx;
  ntc::encoder<wire_ref> enc;
  unsigned w;
  // reference window
  unsigned nwin = 0; uint32_t win[NW];
  uint32_t next = 0, next_repair = 0;
  unsigned len[NW];
  char pay[NW][MAXS];
  unsigned seen = 0;      // packets examined
  unsigned nsrc = 0, nrep = 0, nack = 0;

  explicit box(unsigned w_) : enc(static_cast<uint8_t>(w_), wire_ref{&tx}), w(w_) { enc.set_rate(100000); }

  void submit(unsigned n, bool symbolic = true)
  {
    const unsigned i = next;
    sym_check(i < NW, "harness: too many data");
    len[i] = n;
    if (symbolic && n <= 2000) sym_bytes(pay[i], n, "d"); else for (unsigned k = 0; k < n; ++k) pay[i][k] = static_cast<char>(i * 7 + k);
    if (n > 2000) for (unsigned k : {0u, 255u, 4096u, 32767u, 32768u, n - 1}) if (k < n) sym_bytes(pay[i] + k, 1, "d");
    enc(ntc::data(pay[i], pay[i] + n));
    win[nwin++] = next++;
  }
  void evict(uint64_t limit)       // reference: make room before a new datum
  {
    unsigned k = 0;
    while (nwin - k >= limit) ++k;
    for (unsigned i = k; i < nwin; ++i) win[i - k] = win[i];
    nwin -= k;
  }
  void drop(unsigned pos) { for (unsigned i = pos + 1; i < nwin; ++i) win[i - 1] = win[i]; --nwin; }
  void drop_id(uint32_t id) { for (unsigned i = 0; i < nwin; ++i) if (win[i] == id) { drop(i); return; } }

  // Make the bytes of an acknowledgement.
  ntc::packet ack_packet(const uint32_t* ids, unsigned n, uint16_t nb)
  {
    wire t;
    wire_ref r{&t};
    packetizer<wire_ref> pk(r);
    source_id_list l;
    for (unsigned i = 0; i < n; ++i) l.insert(l.end(), ids[i]);
    pk.write_ack(ack{std::move(l), nb});
    return t.get(0);
  }
  // The next repair covers exactly the reference window.
  void check_window(const char* count, const char* content)
  {
    sym_check(enc.window() == nwin, count);
    if (nwin == 0) return;
    const unsigned at = tx.n;
    enc.generate_repair();
    ++next_repair; ++nrep;
    sym_check(tx.n == at + 1 && tx.type(at) == 1, "generate_repair emits one repair");
    packetizer<wire_ref> pk(enc.packet_handler());
    auto r = pk.read_repair(tx.get(at));
    sym_check(r.first.source_ids().size() == nwin, content);
    unsigned i = 0, d = 0;
    for (auto x : r.first.source_ids()) { if (i < nwin) d |= x ^ win[i]; ++i; }
    sym_check(d == 0, content);
    sym_trace(nwin); sym_trace(r.first.id());
    // Keep the store small.
    tx.n = at;
  }
};

// ---- C10 ----------------------------------------------------------------------------------------
void acks()
{
  const unsigned n = static_cast<unsigned>(sym_param("n", 4));        // data submitted
  const unsigned m = static_cast<unsigned>(sym_param("m", 3));        // identifiers per acknowledgement
  const unsigned rounds = static_cast<unsigned>(sym_param("rounds", 2));
  box b(8);
  if (sym_param("nonsys", 0)) b.enc.set_code_type(ntc::systematic::no);
  if (sym_param("adaptive", 0)) b.enc.set_adaptive(true);
  for (unsigned i = 0; i < n; ++i) b.submit(2, false);
  b.tx.n = 0;
  for (unsigned r = 0; r < rounds; ++r)
  {
    uint32_t ids[8]; uint64_t x = 0;
    const unsigned k = sym_choice(m + 1, "listed");
    for (unsigned i = 0; i < k; ++i)
    {
      ids[i] = static_cast<uint32_t>(sym_int("id", 32));
      if (i) sym_assume(ids[i] > ids[i - 1]);
    }
    (void)x;
    const ntc::packet p = b.ack_packet(ids, k, static_cast<uint16_t>(sym_int("nb", 16)));
    const std::size_t read = b.enc(p);
    sym_check(read == p.size(), "the number of bytes read is not the acknowledgement's length");
    unsigned removed = 0;
    for (unsigned i = 0; i < k; ++i)
      for (unsigned j = 0; j < b.nwin; ++j)
        if (ids[i] == b.win[j]) { b.drop(j); ++removed; break; }
    if (removed == 0 && k) sym_cover("unknown ids only");
    if (removed > 1) sym_cover("several removed");
    b.check_window("the window's size is not the number of data neither acknowledged nor evicted", "another set of data than the unacknowledged ones stays in the window");
    sym_check(b.enc.nb_received_acks() == r + 1, "acknowledgements are not counted");
    if (b.next < n + 2) { b.submit(2, false); b.tx.n = 0; }
  }
  // The order among the remaining data: the oldest leaves first.
  b.enc.set_window_size(b.nwin ? b.nwin : 1);
  b.evict(b.nwin ? b.nwin : 1);
  b.submit(2, false); b.tx.n = 0;
  b.check_window("the window's size is wrong after a datum was added", "the remaining data are not in their order");
}

// ---- C11 ----------------------------------------------------------------------------------------
void limits()
{
  const unsigned k = static_cast<unsigned>(sym_param("k", 5));
  box b(8);
  if (sym_param("nonsys", 0)) b.enc.set_code_type(ntc::systematic::no);
  uint64_t limit = ~0ull;
  const unsigned pre = static_cast<unsigned>(sym_param("pre", 2));
  for (unsigned i = 0; i < pre; ++i) b.submit(1, false);
  b.tx.n = 0;
  for (unsigned s = 0; s < k; ++s)
  {
    const unsigned a = sym_choice(3, "action");
    if (a == 0)
    {
      const unsigned before = b.nwin;
      b.evict(limit);
      if (b.nwin < before) sym_cover("evicted");
      if (b.nwin + 1 < before) sym_cover("several evicted");
      b.submit(1, false);
      sym_check(b.enc.window() <= limit, "the window exceeds its limit after an addition");
      b.check_window("another number of data than the newest that fit is kept", "not the newest data are kept");
    }
    else if (a == 1)
    {
      limit = sym_int("limit", 64);
      sym_assume(limit != 0);
      b.enc.set_window_size(limit);
      sym_check(b.enc.window_size() == limit, "the configured limit is not the one reported");
    }
    else
    {
      // Acknowledge one datum, any.
      if (b.next == 0) continue;
      uint32_t id = sym_choice(b.next, "acked");
      b.enc(b.ack_packet(&id, 1, 1));
      b.drop_id(id);
      sym_check(b.enc.window() == b.nwin, "an acknowledgement changes the number of data kept in another way");
    }
    b.tx.n = 0;
  }
}

// ---- C12 ----------------------------------------------------------------------------------------
void check_repair(galois_field& g, box& b, unsigned at, uint32_t id)
{
  packetizer<wire_ref> pk(b.enc.packet_handler());
  auto r = pk.read_repair(b.tx.get(at));
  const auto& d = r.first;
  sym_check(d.id() == id, "a repair has another identifier");
  sym_check(d.source_ids().size() == b.nwin, "a repair does not list the data of the window");
  unsigned i = 0, diff = 0, longest = 0;
  for (auto x : d.source_ids()) { if (i < b.nwin) diff |= x ^ b.win[i]; ++i; }
  sym_check(diff == 0, "a repair lists other data than those of the window");
  for (unsigned k = 0; k < b.nwin; ++k) if (b.len[b.win[k]] > longest) longest = b.len[b.win[k]];
  sym_check(d.symbol_size() == longest, "a repair's symbol is not as long as the longest datum");
  char want[MAXS];
  std::memset(want, 0, sizeof want);
  uint32_t size = 0;
  for (unsigned k = 0; k < b.nwin; ++k)
  {
    const uint32_t c = g.coefficient(id, b.win[k]);
    ref_region(b.w, c, b.pay[b.win[k]], b.len[b.win[k]], want);
    size ^= ref_size(b.w, c, b.len[b.win[k]]);
  }
  sym_check(d.symbol_size() != longest || eq(d.symbol(), want, longest), "a repair's symbol is not the announced combination of the data");
  sym_check(d.encoded_size() == size, "a repair's encoded size is not the announced combination of the sizes");
  sym_trace(d.encoded_size()); sym_trace(static_cast<unsigned char>(d.symbol()[0]));
}
void repairs()
{
  const unsigned w = static_cast<unsigned>(sym_param("w", 8));
  const unsigned k = static_cast<unsigned>(sym_param("k", 5));
  box b(w);
  galois_field g(static_cast<uint8_t>(w));
  const unsigned u = w <= 8 ? 1 : w / 8;
  static const unsigned sizes[2][3] = {{1, 4, 2}, {9, 1, 17}};
  const unsigned shape = static_cast<unsigned>(sym_param("shape", 0));
  if (shape == 3) { b.submit(40000); b.submit(4); b.submit(65532); b.submit(32768); b.tx.n = 0; }
  if (shape == 2) { b.submit(272); b.submit(3 * u); b.submit(260); b.tx.n = 0; }
  for (unsigned s = 0; s < k; ++s)
  {
    const bool can = b.nwin != 0;
    const unsigned a = sym_choice(can ? 5 : 3, "action");
    if (a < 3) { b.submit((shape < 2 ? sizes[shape][a] : a + 1) * u); b.tx.n = 0; continue; }
    if (a == 3)
    {
      const unsigned at = b.tx.n;
      b.enc.generate_repair();
      sym_check(b.tx.n == at + 1, "generate_repair emits one packet");
      check_repair(g, b, at, b.next_repair++);
      b.tx.n = at;
      sym_cover("repair");
    }
    else
    {
      // the first or the last datum is acknowledged
      const unsigned pos = sym_choice(b.nwin > 1 ? 2 : 1, "end") ? b.nwin - 1 : 0;
      const uint32_t id = b.win[pos];
      b.enc(b.ack_packet(&id, 1, 1));
      b.drop(pos);
    }
  }
  if (b.nwin)
  {
    const unsigned at = b.tx.n;
    b.enc.generate_repair();
    check_repair(g, b, at, b.next_repair++);
  }
}

// ---- C13 ----------------------------------------------------------------------------------------
void emission()
{
  const unsigned k = static_cast<unsigned>(sym_param("k", 5));
  box b(8);
  uint64_t rate = 5;
  b.enc.set_rate(5);
  bool sys = true;
  const bool fixed = sym_param("fixed", 0) != 0;     // the default rate, no other action than additions
  unsigned at = 0;
  for (unsigned s = 0; s < k; ++s)
  {
    const unsigned a = fixed ? 0 : sym_choice(b.nwin ? 6 : 4, "action");
    unsigned want[3], nw = 0;     // types of the packets to come
    if (a == 0 || a == 1)
    {
      b.submit(1 + (s & 1), !fixed);
      want[nw++] = sys ? 2 : 1;
      if (b.next % rate == 0) { want[nw++] = 1; sym_cover("rate"); }
    }
    else if (a == 2)
    {
      rate = sym_int("rate", 64);
      sym_assume(rate != 0);
      b.enc.set_rate(rate);
      sym_check(b.enc.rate() == rate, "the configured rate is not the one reported");
    }
    else if (a == 3)
    {
      sys = !sys;
      b.enc.set_code_type(sys ? ntc::systematic::yes : ntc::systematic::no);
      sym_check(b.enc.code_type() == (sys ? ntc::systematic::yes : ntc::systematic::no), "the configured code type is not the one reported");
    }
    else if (a == 4) { b.enc.generate_repair(); want[nw++] = 1; }
    else
    {
      const uint32_t id = b.win[0];
      b.enc(b.ack_packet(&id, 1, 1));
      b.drop(0);
      ++b.nack;
    }
    sym_check(b.tx.open == 0 && b.tx.empty_ends == 0, "a packet is not terminated, or terminated twice");
    sym_check(b.tx.n == at + nw, "another number of packets than expected is emitted");
    for (unsigned i = 0; i < nw; ++i)
    {
      sym_check(b.tx.type(at + i) == want[i], "packets of other types are emitted");
      packetizer<wire_ref> pk(b.enc.packet_handler());
      if (want[i] == 2)
      {
        auto r = pk.read_source(b.tx.get(at + i));
        const uint32_t id = b.next - 1;
        sym_check(r.first.id() == id, "data do not get consecutive identifiers from 0");
        sym_check(r.first.symbol_size() == b.len[id], "a datum is emitted with another length");
        sym_check(r.first.symbol_size() != b.len[id] || eq(r.first.symbol(), b.pay[id], b.len[id]), "a datum is emitted with other bytes");
        sym_check(r.second == b.tx.len[at + i], "a source packet contains more than the datum");
        ++b.nsrc;
      }
      else
      {
        auto r = pk.read_repair(b.tx.get(at + i));
        sym_check(r.first.id() == b.next_repair, "repairs do not get consecutive identifiers from 0");
        sym_check(r.second == b.tx.len[at + i], "a repair packet contains more than the repair");
        ++b.next_repair; ++b.nrep;
      }
      sym_trace(want[i]);
    }
    sym_check(b.enc.nb_sent_sources() == b.nsrc, "the counter of sources is not the number of emitted sources");
    sym_check(b.enc.nb_sent_repairs() == b.nrep, "the counter of repairs is not the number of emitted repairs");
    sym_check(b.enc.nb_received_acks() == b.nack, "the counter of acknowledgements is not the number of received ones");
    at = b.tx.n;
    if (at + 4 >= MAXP) { b.tx.n = 0; at = 0; }
  }
}
// ---- C17 ----------------------------------------------------------------------------------------
// The rate of a fresh encoder that sent `sent` packets and hears that `nb` arrived.
uint64_t fresh_rate(unsigned sent, uint16_t nb)
{
  box b(8);
  b.enc.set_adaptive(true);
  b.enc.set_window_size(1);
  for (unsigned i = 0; i < sent; ++i) { b.next = 0; b.submit(1, false); b.tx.n = 0; }
  b.enc(b.ack_packet(nullptr, 0, nb));
  return b.enc.rate();
}
void adaptive_range()       // many packets, any count
{
  const unsigned sent = static_cast<unsigned>(sym_param("sent", 100));
  const uint16_t nb = static_cast<uint16_t>(sym_int("nb", 16));
  if (nb < sent) sym_cover("loss");
  const uint64_t r = fresh_rate(sent, nb);
  sym_check(r >= 1 && r <= 50, "the adaptive rate leaves 1..50");
  if (nb >= sent) sym_check(r == 50, "the rate is not the lowest protection although nothing was lost");
}
void adaptive_monotone()
{
  const unsigned s1 = sym_param("s1", -1) >= 0 ? static_cast<unsigned>(sym_param("s1", 0)) : sym_choice(static_cast<unsigned>(sym_param("max", 5)) + 1, "sent");
  const unsigned s2 = sym_param("s1", -1) >= 0 ? s1 : sym_choice(static_cast<unsigned>(sym_param("max", 5)) + 1, "sent2");
  uint16_t n1 = static_cast<uint16_t>(sym_int("nb1", 16)), n2;
  if (sym_param("s1", -1) >= 0) { sym_assume(n1 < 65535); if (n1 < s1) n1 = static_cast<uint16_t>(sym_concrete(n1)); n2 = static_cast<uint16_t>(n1 + 1); }      // the rest by transitivity
  else n2 = static_cast<uint16_t>(sym_int("nb2", 16));
  if (n1 < s1) n1 = static_cast<uint16_t>(sym_concrete(n1));
  if (n2 < s2) n2 = static_cast<uint16_t>(sym_concrete(n2));
  // Packets lost; nothing sent means nothing lost.
  const uint64_t l1 = n1 < s1 ? s1 - n1 : 0, l2 = n2 < s2 ? s2 - n2 : 0;
  const uint64_t d1 = s1 ? s1 : 1, d2 = s2 ? s2 : 1;
  const uint64_t r1 = fresh_rate(s1, n1), r2 = fresh_rate(s2, n2);
  if (l1 * d2 >= l2 * d1) sym_check(r1 <= r2, "more loss lowers the protection");
  if (l1 * d2 == l2 * d1) sym_check(r1 == r2, "the same loss gives another rate");
  if (l1 && l2) sym_cover("two losses");
}
void adaptive_history()
{
  const unsigned k = static_cast<unsigned>(sym_param("k", 6));
  box b(8);
  bool on = sym_param("on", 1) != 0;
  b.enc.set_adaptive(on);
  uint64_t rate = sym_param("first", 2);
  b.enc.set_rate(rate);
  unsigned at = 0;
  for (unsigned s = 0; s < k; ++s)
  {
    const unsigned a = sym_choice(b.nwin ? 5 : 4, "action");
    if (a == 0) b.submit(1, false);
    else if (a == 1)
    {
      uint16_t nb = static_cast<uint16_t>(sym_int("nb", 16));
      const unsigned sent = b.tx.n - at;
      if (nb < sent) nb = static_cast<uint16_t>(sym_concrete(nb));
      const uint32_t id = b.next ? b.next - 1 : 0;
      b.enc(b.ack_packet(&id, 1, nb));
      if (b.next) b.drop_id(id);
      at = b.tx.n;
      if (on)
      {
        rate = b.enc.rate();
        sym_check(rate >= 1 && rate <= 50, "the adaptive rate leaves 1..50");
        sym_check(rate == fresh_rate(sent, nb), "the rate depends on something else than the packets sent since the last acknowledgement and the count it reports");
        sym_cover("adapted");
      }
      else { sym_check(b.enc.rate() == rate, "an acknowledgement changes the rate although adaptation is off"); sym_cover("not adapted"); }
    }
    else if (a == 2) { on = !on; b.enc.set_adaptive(on); sym_check(b.enc.adaptive() == on, "the adaptive mode is not the one set"); }
    else if (a == 3) b.enc.set_code_type(b.enc.code_type() == ntc::systematic::yes ? ntc::systematic::no : ntc::systematic::yes);
    else b.enc.generate_repair();
    sym_check(b.enc.rate() == rate, "the rate changes without acknowledgement");
    sym_trace(rate);
  }
}
}

extern "C" void harness()
{
  P = static_cast<int>(sym_param("prop", 10));
  if (P == 10) acks();
  else if (P == 11) limits();
  else if (P == 12) repairs();
  else if (P == 13) emission();
  else if (sym_param("part", 0) == 0) adaptive_history();
  else if (sym_param("part", 0) == 1) adaptive_monotone();
  else adaptive_range();
  sym_cover("end");
}
