// A real encoder and a real decoder joined by an arbitrary channel: every step of the schedule
// picks any packet emitted so far (loss, reordering and duplication are choices left out, taken
// late or taken again).  Payload bytes are symbolic.
#include "model.hh"
#include "netcode/detail/ack.hh"
#include "netcode/detail/encoder.hh"
#include "netcode/detail/packetizer.hh"
#include "netcode/detail/source_list.hh"
using namespace h;

namespace {
// Which property's assertions are active.
int P;
#define CHECK(p, c, m) do { if (P == (p)) sym_check(c, m); } while (0)

char payload[MAXID][MAXS];
unsigned size_of[MAXID];
unsigned tag_last;

// Sizes per scenario (multiples of the word size are required for w = 16, 32).
unsigned size_for(unsigned i, unsigned w, unsigned shape)
{
  static const unsigned a[7][8] = { {3, 1, 4, 2, 3, 5, 1, 2}, {1, 2, 3, 4, 5, 6, 7, 8}, {4, 3, 2, 1, 4, 3, 2, 1}, {2, 2, 2, 2, 2, 2, 2, 2}
                                  , {1, 17, 2, 16, 3, 15, 18, 1}, {260, 3, 300, 257, 2, 256, 1, 259}
                                  , {40000, 7, 65532, 32768, 4096, 1500, 3, 32767} };
  const unsigned u = w <= 8 ? 1 : w / 8;
  if (shape == 6) return a[6][i & 7] / u * u;
  return a[shape % 7][i & 7] * u;
}
unsigned tag_pos(unsigned i) { return tag_last ? size_of[i] - 1 : 0; }

struct world
{
  const unsigned w;
  const bool ordered;
  wire tx, back;
  sink out;
  ntc::encoder<wire_ref> enc;
  ntc::decoder<wire_ref, sink_ref> dec;
  encoder_model em;
  decoder_model dm;
  unsigned shape;
  unsigned received = 0;      // data the decoder ever got hold of
  // Identifiers start here; forged emission uses the coder and the packetizer directly, so that
  // any identifier is within reach.
  uint32_t bs = 0, br = 0;
  bool forge = false;
  ntc::detail::encoder coder;

  world(unsigned w_, bool o)
    : w(w_), ordered(o), enc(static_cast<uint8_t>(w_), wire_ref{&tx})
    , dec(static_cast<uint8_t>(w_), o ? ntc::in_order::yes : ntc::in_order::no, wire_ref{&back}, sink_ref{&out})
    , dm(w_, o), coder(static_cast<uint8_t>(w_))
  {
    dec.set_ack_period(std::chrono::milliseconds{0});
    shape = static_cast<unsigned>(sym_param("shape", 0));
    rate(1000);
  }
  void add()
  {
    const unsigned i = em.next_source;
    const unsigned n = size_for(i, w, shape);
    size_of[i] = n;
    if (n <= 2000) sym_bytes(payload[i], n, "d");
    else      // long: a few bytes are symbolic
    {
      for (unsigned k = 0; k < n; ++k) payload[i][k] = static_cast<char>(k * 7 + i);
      const unsigned at[] = {1, 2, 15, 16, 255, 256, 1499, 4095, 4096, 32766, 32767, 32768, n - 2, n - 1};
      for (unsigned x : at) if (x < n) sym_bytes(payload[i] + x, 1, "d");
    }
    payload[i][tag_pos(i)] = static_cast<char>(0x11 * (i + 1));     // identifies the datum
    if (!forge)
    {
      ntc::data d(payload[i], payload[i] + n);
      if (i & 1)       // a copy is taken
      {
        enc(static_cast<const ntc::data&>(d));
        CHECK(1, d.size() == n && eq(d.data(), payload[i], n), "the user's datum is changed");
      }
      else enc(std::move(d));
    }
    const unsigned k = em.n;
    em.add();
    if (forge) emit(k);
  }
  void rep()
  {
    const unsigned k = em.n;
    if (!forge) enc.generate_repair();
    em.repair();
    if (forge) emit(k);
  }
  void emit(unsigned k)
  {
    wire_ref tr{&tx};
    ntc::detail::packetizer<wire_ref> pk(tr);
    for (; k < em.n; ++k)
    {
      const meta& m = em.m[k];
      if (!m.repair) { pk.write_source(ntc::detail::encoder_source(bs + m.id, ntc::data(payload[m.id], payload[m.id] + size_of[m.id]))); continue; }
      ntc::detail::source_list l;
      for (unsigned s = 0; s < MAXID; ++s)
        if ((m.cover >> s) & 1) l.emplace(bs + s, ntc::data(payload[s], payload[s] + size_of[s]));
      ntc::detail::encoder_repair r(br + m.id);
      coder(r, l);
      pk.write_repair(r);
    }
  }
  // Moves the identifiers to their start values; afterwards both sides have agreed on one datum.
  void start(uint32_t s, uint32_t r, bool f)
  {
    bs = s; br = r; forge = f;
    em.bs = dm.bs = s; dm.br = r;
    if (!s && !r) return;
    if (!forge)
    {
      sym_check(s > 0 && s < 900, "harness: identifiers out of reach");
      wire_ref br_{&back};
      ntc::detail::packetizer<wire_ref> pk(br_);
      const char x[4] = {1, 2, 3, 4};
      for (uint32_t i = 0; i < s; ++i)
      {
        enc(ntc::data(x, x + 4));
        if (i + 1 == s) for (uint32_t j = 0; j < r; ++j) { enc.generate_repair(); tx.n = 0; }
        pk.write_ack(ntc::detail::ack{ntc::detail::source_id_list{i}, 1});
        enc(back.get(0));
        tx.n = back.n = 0;
      }
      sym_check(enc.window() == 0, "acknowledged data stay in the window");
      sources_before = s; repairs_before = r; acks_before = s;
    }
    add(); rep();
    deliver(1);
    make_ack(); take_ack(0);
    first = tx.n;
  }
  unsigned got_sources = 0, got_repairs = 0, sent_acks = 0, taken_acks = 0;
  uint32_t sources_before = 0, repairs_before = 0, acks_before = 0;     // start()
  void emitted()
  {
    if (P != 26 || forge) return;
    unsigned r = 0, s = 0;
    for (unsigned i = 0; i < em.n; ++i) ++(em.m[i].repair ? r : s);
    sym_check(enc.nb_sent_sources() == s + sources_before && enc.nb_sent_repairs() == r + repairs_before, "the numbers of sent packets are wrong");
    sym_check(dec.nb_sent_acks() == sent_acks && enc.nb_received_acks() == taken_acks + acks_before, "the number of acknowledgements is wrong");
  }
  unsigned first = 0;         // packets before this are not delivered again
  void rate(unsigned r) { enc.set_rate(r); em.rate = r; }
  void limit(unsigned r) { enc.set_window_size(r); em.limit = r; }
  void nonsys() { enc.set_code_type(ntc::systematic::no); em.systematic = false; }

  unsigned ack_ids(unsigned i, bool& big)
  {
    ntc::detail::packetizer<wire_ref> pk(dec.packet_handler());
    auto a = pk.read_ack(back.get(i));
    unsigned ids = 0;
    big = false;
    for (auto x : a.first.source_ids()) { if (x - bs < MAXID) ids |= 1u << (x - bs); else big = true; }
    return ids;
  }
  // The decoder emits an acknowledgement.
  void make_ack()
  {
    const unsigned nb = back.n;
    dec.generate_ack();
    sym_check(back.n == nb + 1, "generate_ack emits one packet");
    ++sent_acks;
    CHECK(26, dec.nb_sent_acks() == sent_acks, "the number of acknowledgements is wrong");
    bool big;
    const unsigned ids = ack_ids(nb, big);
    CHECK(25, !big && (ids & ~received) == 0, "an acknowledgement lists data the decoder never got");
    CHECK(25, (dm.known & ~ids) == 0, "an acknowledgement omits data the decoder holds");
    CHECK(24, !big && (ids & ~dm.known) == 0, "forgotten or unknown data are acknowledged");
    CHECK(24, (dm.known & ~ids) == 0, "current data are dropped (not acknowledged)");
    sym_trace(ids);
  }
  // The encoder receives acknowledgement i.
  void take_ack(unsigned i)
  {
    bool big;
    const unsigned ids = ack_ids(i, big);
    if (!forge) enc(back.get(i));
    ++taken_acks;
    emitted();
    const unsigned before = em.window;
    em.ack(ids);
    CHECK(25, enc.window() == popcount(em.window), "an acknowledgement removes other data than those listed");
    if ((before & ~dm.known) == 0 && i + 1 == back.n && (before & ~ids) == 0)
    {
      CHECK(25, enc.window() == 0, "the window is not empty although everything in it is acknowledged");
      sym_cover("window emptied");
    }
    invariant();
  }
  void invariant()
  {
    if (P != 25) return;
    const unsigned all = em.next_source ? (1u << em.next_source) - 1u : 0;
    sym_check((all & ~(em.window | received | em.evicted)) == 0, "a datum is neither in the window, nor known to the decoder, nor evicted");
    sym_check(enc.window() == popcount(em.window), "the window does not hold the data it has to");
  }
  // Content of the window, through a repair.
  void window_content()
  {
    if (P != 25 || em.window == 0) return;
    const unsigned nb = tx.n;
    rep();
    sym_check(tx.n == nb + 1, "generate_repair emits one packet");
    ntc::detail::packetizer<wire_ref> pk(enc.packet_handler());
    auto r = pk.read_repair(tx.get(nb));
    unsigned ids = 0;
    for (auto x : r.first.source_ids()) if (x - bs < MAXID) ids |= 1u << (x - bs);
    sym_check(ids == em.window, "data not held by the decoder leave the window, or acknowledged ones stay");
  }

  // Packet c reaches the decoder.
  void deliver(unsigned c)
  {
    const unsigned before = out.n;
    const unsigned known_before = dm.known, horizon_before = dm.horizon, done_before = dm.done;
    const std::size_t read = dec(tx.get(c));
    sym_trace(c); sym_trace(read);
    const bool fresh = dm.receive(em.m[c]);
    const meta& p = em.m[c];
    received |= dm.known | dm.done;

    // Identify what was handed over.
    unsigned seen = 0, seq[MAXD], ns = 0;
    for (unsigned i = before; i < out.n; ++i)
    {
      unsigned id = MAXID;
      for (unsigned j = 0; j < em.next_source; ++j)
        if (out.len[i] > tag_pos(j) && (tag_last == 0 || out.len[i] == size_of[j]) && static_cast<unsigned char>(out.bytes[i][tag_pos(j)]) == 0x11 * (j + 1)) id = j;
      CHECK(1, id < MAXID, "a datum is handed over that was never submitted");
      if (id >= MAXID) { seq[ns++] = MAXID; continue; }
      CHECK(1, out.len[i] == size_of[id], "a datum is handed over with another length");
      CHECK(1, out.len[i] != size_of[id] || eq(out.bytes[i], payload[id], size_of[id]), "a datum is handed over with other bytes");
      CHECK(19, out.aligned[i], "a datum is handed over at an address that is not a multiple of 16");
      CHECK(2, !((seen >> id) & 1) && !((done_before >> id) & 1), "a datum is handed over twice");
      seen |= 1u << id;
      seq[ns++] = id;
      sym_trace(id); sym_trace(static_cast<unsigned char>(out.bytes[i][out.len[i] - 1]));
    }
    if (!fresh) CHECK(2, ns == 0, "a repeated packet makes data be handed over");
    unsigned want = 0;
    for (unsigned i = 0; i < dm.nout; ++i) want |= 1u << dm.out[i];

    if (ordered)
    {
      // Strictly increasing, never passing over a datum which may still come.
      for (unsigned i = 0; i < ns; ++i)
        CHECK(3, seq[i] < MAXID && (i == 0 || seq[i] > seq[i - 1]) && (done_before == 0 || seq[i] > highest(done_before)), "data are handed over out of order");
      int same = ns == dm.nout;
      for (unsigned i = 0; same && i < ns; ++i) same = seq[i] == dm.out[i];
      CHECK(3, (seen & ~want) == 0, "a datum is passed over although it may still come");
      CHECK(3, (want & ~seen) == 0, "a known datum is withheld although everything before it is settled");
      CHECK(3, same, "data are not handed over in submission order");
    }
    CHECK(4, (want & ~seen) == 0, "recoverable data are not recovered");
    if (!ordered && !p.repair && p.id >= horizon_before && !((known_before >> p.id) & 1))
      CHECK(5, ns >= 1 && seq[0] == p.id, "a fresh source is not handed over at once and first");

    // What is forgotten and what is held.
    if (P == 24)
    {
      sym_check(fresh || ns == 0, "an outdated or repeated packet has an effect");
      sym_check(dec.nb_missing_sources() == popcount(dm.unknown()), "the number of missing data is not that of current unknown data");
      sym_check((want & ~seen) == 0, "current data are dropped");
      make_ack();
    }
    if (P == 26)
    {
      ++(p.repair ? got_repairs : got_sources);
      sym_check(dec.nb_received_sources() == got_sources && dec.nb_received_repairs() == got_repairs, "the numbers of received packets are wrong");
      sym_check(dec.nb_decoded() == dm.recovered, "the number of decoded data is wrong");
      sym_check(dec.nb_useless_repairs() == dm.useless, "the number of useless repairs is wrong");
      sym_check(dec.nb_missing_sources() == popcount(dm.unknown()), "the number of missing data is wrong");
      if (dm.useless) sym_cover("useless repair");
      emitted();
    }
    invariant();
    if (dm.solved) sym_cover("full decoding");
    if (dm.given_up) sym_cover("datum given up");
    if (!fresh) sym_cover("packet without effect");
    if (p.repair && dm.nout) sym_cover("decoded from a repair");
    if (!p.repair && dm.nout > 1) sym_cover("source triggers more");
  }
};
}

extern "C" void harness()
{
  P = static_cast<int>(sym_param("prop", 1));
  tag_last = static_cast<unsigned>(sym_param("tag", 0));
  const unsigned scn = static_cast<unsigned>(sym_param("scn", 0));
  const unsigned K = static_cast<unsigned>(sym_param("k", 4));
  unsigned nd = static_cast<unsigned>(sym_param("nd", 3));
  unsigned nr = static_cast<unsigned>(sym_param("nr", 2));
  world W(static_cast<unsigned>(sym_param("w", 8)), sym_param("ordered", 0) != 0);
  W.start(static_cast<uint32_t>(sym_param("bs", 0)), static_cast<uint32_t>(sym_param("br", 0)), sym_param("forge", 0) != 0);

  // Emission scripts.
  unsigned skip_lo = 0, skip_hi = 0;      // packets [skip_lo, skip_hi) are always lost
  const unsigned lim = static_cast<unsigned>(sym_param("limit", 0));
  if (lim) W.limit(lim);
  switch (scn)
  {
    case 0:   // nd data, then nr repairs of all of them
      for (unsigned i = 0; i < nd; ++i) W.add();
      for (unsigned i = 0; i < nr; ++i) W.rep();
      break;
    case 1:   // a repair after each datum: growing windows
      W.rate(1);
      for (unsigned i = 0; i < nd; ++i) W.add();
      break;
    case 2:   // sliding window
      W.rate(1);
      W.limit(lim ? lim : 2);
      for (unsigned i = 0; i < nd; ++i) W.add();
      break;
    case 3:   // non systematic
      W.nonsys();
      for (unsigned i = 0; i < nd; ++i) W.add();
      for (unsigned i = 1; i < nr; ++i) W.rep();
      break;
    case 4:   // dependent repairs: with w = 4 coefficients repeat every 15 repairs
      for (unsigned i = 0; i < nd; ++i) W.add();
      W.rep(); W.rep();
      skip_lo = W.tx.n;
      for (unsigned i = 0; i < 13; ++i) W.rep();
      skip_hi = W.tx.n;
      for (unsigned i = 0; i < nr; ++i) W.rep();
      break;
    case 5:   // repairs on a prefix, then on everything
      W.add(); W.add(); W.rep(); W.rep();
      for (unsigned i = 2; i < nd; ++i) W.add();
      for (unsigned i = 1; i < nr; ++i) W.rep();
      break;
    case 6:   // repairs of a prefix then of everything
      W.add(); W.add(); W.rep(); W.rep(); W.rep();
      W.add(); W.add(); W.rep(); W.rep();
      break;
    case 7:   // holes in the window: some data are received and acknowledged, then repairs follow
      W.add(); W.add(); W.add(); W.rep();
      W.deliver(W.first + 1);
      W.make_ack(); W.take_ack(W.back.n - 1);
      W.rep(); W.add(); W.rep();
      break;
    case 8:   // non systematic code and sliding window
      W.nonsys();
      W.limit(lim ? lim : 2);
      for (unsigned i = 0; i < nd; ++i) W.add();
      for (unsigned i = 1; i < nr; ++i) W.rep();
      break;
    case 9:   // only the encoder's window changes: given-up data, then more repairs than needed
      W.add(); W.add(); W.rep(); W.add(); W.rep(); W.limit(2); W.add(); W.rep(); W.rep();
      break;
    case 10:  // everything is a choice
      break;
  }
  if (scn == 10)
  {
    // Every step is any action of either side or of the channel.
    nd += W.em.next_source; nr += W.em.next_repair;
    W.add();
    for (unsigned step = 0; step < K; ++step)
    {
      const bool can_add = W.em.next_source < nd;
      const bool can_rep = W.em.window != 0 && W.em.next_repair < nr;
      const unsigned acks = P == 25 ? W.back.n : 0;                 // late and repeated acknowledgements
      unsigned c = sym_choice(W.tx.n + 1 + acks + (can_add ? 1 : 0) + (can_rep ? 1 : 0), "action");
      if (c < W.tx.n) { W.deliver(c); continue; }
      c -= W.tx.n;
      if (c == 0) { W.make_ack(); W.take_ack(W.back.n - 1); sym_cover("ack exchanged"); continue; }
      c -= 1;
      if (c < acks) { W.take_ack(c); sym_cover("old ack"); continue; }
      c -= acks;
      if (can_add) { if (c == 0) { W.add(); W.invariant(); continue; } c -= 1; }
      W.rep();
    }
    W.window_content();
    sym_cover("end");
    return;
  }
  sym_check(W.tx.n == W.em.n && W.tx.open == 0, "the encoder emits the packets the script asks for");
  const unsigned avail = W.tx.n - W.first - (skip_hi - skip_lo);
  for (unsigned step = 0; step < K; ++step)
  {
    unsigned c = W.first + sym_choice(avail, "packet");
    if (c >= skip_lo) c += skip_hi - skip_lo;
    W.deliver(c);
  }
  W.window_content();
  sym_cover("end");
}
