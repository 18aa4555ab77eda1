// The decoder's acknowledgements (prop 14).
#include "model.hh"
#include "netcode/detail/packetizer.hh"
using namespace h;
using namespace ntc::detail;

namespace {

struct rig
{
  unsigned w; bool ordered;
  wire tx; ntc::encoder<wire_ref> enc; encoder_model em;
  wire acks; sink out;
  ntc::decoder<wire_ref, sink_ref> dec;
  decoder_model dm;
  rig(unsigned w_, bool o) : w(w_), ordered(o), enc(static_cast<uint8_t>(w_), wire_ref{&tx})
    , dec(static_cast<uint8_t>(w_), o ? ntc::in_order::yes : ntc::in_order::no, wire_ref{&acks}, sink_ref{&out}), dm(w_, o)
  { enc.set_rate(1000); em.rate = 1000; }
  void add()
  {
    const unsigned u = w <= 8 ? 1 : w / 8;
    char d[16];
    for (unsigned i = 0; i < u; ++i) d[i] = static_cast<char>(em.next_source + 1);
    enc(ntc::data(d, d + u)); em.add();
  }
  void repair() { enc.generate_repair(); em.repair(); }
  void forget(unsigned id)      // the encoder stops covering a datum
  {
    wire t; wire_ref r{&t}; packetizer<wire_ref> pk(r);
    source_id_list l; l.insert(id);
    pk.write_ack(ack{std::move(l), 1});
    enc(t.get(0)); em.ack(1u << id);
  }
};

// The identifiers and the count of an acknowledgement.
struct parsed { unsigned set; unsigned nb; bool sane; };
parsed parse(rig& g, unsigned at)
{
  packetizer<wire_ref> pk(g.dec.packet_handler());
  sym_check(g.acks.type(at) == 0, "the decoder emits something else than acknowledgements");
  auto a = pk.read_ack(g.acks.get(at));
  parsed p{0, a.first.nb_packets(), a.second == g.acks.len[at]};
  for (auto x : a.first.source_ids()) { if (x < 32) p.set |= 1u << x; else p.sane = false; }
  return p;
}

void run()
{
  const unsigned scn = static_cast<unsigned>(sym_param("scn", 0)), k = static_cast<unsigned>(sym_param("k", 4));
  rig g(static_cast<unsigned>(sym_param("w", 8)), sym_param("ordered", 0) != 0);
  if (scn == 0) { g.add(); g.add(); g.add(); g.repair(); g.repair(); }
  else if (scn == 1) { g.add(); g.add(); g.repair(); g.forget(0); g.add(); g.repair(); }
  else if (scn == 3) { g.add(); g.add(); g.repair(); g.forget(0); g.forget(1); g.add(); g.repair(); }
  else { g.add(); g.repair(); g.forget(0); g.add(); g.add(); g.repair(); g.forget(2); g.repair(); }
  sym_check(g.tx.n == g.em.n, "harness: emission");

  const unsigned mode = static_cast<unsigned>(sym_param("mode", 0));   // what is symbolic: 0 both, 1 defaults, 2 small threshold without period, 3 period
  uint64_t thr = 50, period = 100;
  if (mode == 0 || mode == 2)
  {
    thr = sym_int("threshold", 16);
    sym_assume(thr != 0);
    g.dec.set_ack_nb_packets(static_cast<uint16_t>(thr));
    if (thr > 128) thr = 128;
  }
  else if (mode == 3) { thr = 128; g.dec.set_ack_nb_packets(200); }
  if (mode == 0 || mode == 3)
  {
    period = sym_int("period", 31);
    g.dec.set_ack_period(std::chrono::milliseconds{static_cast<int64_t>(period)});
  }
  else if (mode == 2) { period = 0; g.dec.set_ack_period(std::chrono::milliseconds{0}); }
  sym_check(g.dec.ack_nb_packets() == thr, "the threshold is not the configured one (at most 128)");
  sym_check(static_cast<uint64_t>(g.dec.ack_period().count()) == period, "the period is not the configured one");

  uint64_t last = static_cast<uint64_t>(sym_clock_ns);      // of the construction
  unsigned cnt = 0, forced = 0, total = 0;
  for (unsigned s = 0; s < k; ++s)
  {
    if (mode != 2) sym_clock_ns += static_cast<int64_t>(sym_int("dt", 40));
    const uint64_t now = static_cast<uint64_t>(sym_clock_ns);
    const unsigned before = g.dm.known, at = g.acks.n;
    if (forced < 2 && sym_choice(4, "force") == 0)
    {
      ++forced;
      g.dec.generate_ack();
      ++total;
      sym_check(g.acks.n == at + 1, "asking for an acknowledgement does not emit one");
      const parsed p = parse(g, at);
      sym_check(p.sane && p.set == g.dm.known, "an acknowledgement does not list exactly the data held and current");
      sym_check(p.nb == cnt, "an acknowledgement does not count the packets received since the previous one");
      cnt = 0;
      sym_trace(p.set); sym_trace(p.nb);
      sym_cover("forced");
      continue;
    }
    const unsigned i = sym_choice(g.tx.n, "deliver");
    const unsigned had = g.out.n;
    g.dm.receive(g.em.m[i]);
    g.dec(g.tx.get(i));
    ++cnt;
    sym_check(g.out.n - had == g.dm.nout, "other data are handed over than expected");
    bool due = false;
    if (g.dm.nout)
    {
      if (cnt >= thr) { due = true; sym_cover("threshold"); }
      else if (period != 0 && now - last >= period * 1000000ull) { due = true; sym_cover("period"); }
      else sym_cover("not due");
    }
    else sym_cover("nothing handed over");
    sym_check(g.acks.n == at + (due ? 1u : 0u), due ? "an acknowledgement that is due is not emitted" : "an acknowledgement is emitted although none is due");
    if (due)
    {
      const parsed p = parse(g, at);
      // Data learnt or forgotten during this call may be listed or not.
      const unsigned now_known = g.dm.known;
      if (before & ~now_known) sym_cover("retired");
      sym_check(p.sane && (p.set & ~(now_known | before)) == 0, "an acknowledgement lists data that are not held, or outdated");
      sym_check((before & now_known & ~p.set) == 0, "an acknowledgement misses data that are held");
      sym_check(p.nb == cnt, "an acknowledgement does not count the packets received since the previous one");
      cnt = 0; last = now; ++total;
      sym_trace(p.set); sym_trace(p.nb);
    }
    sym_check(g.acks.open == 0 && g.acks.empty_ends == 0, "an acknowledgement is not terminated, or terminated twice");
    sym_check(g.dec.nb_sent_acks() == total, "the counter of acknowledgements is not the number of emitted ones");
  }
  // The last word: everything held.
  const unsigned at = g.acks.n;
  g.dec.generate_ack();
  const parsed p = parse(g, at);
  sym_check(p.sane && p.set == g.dm.known && p.nb == cnt, "an acknowledgement does not list exactly the data held and current");
  sym_trace(p.set);
}
// Many packets: the default threshold, counts that need both bytes.
void many()
{
  rig g(8, false);
  const unsigned n = static_cast<unsigned>(sym_param("n", 120)), thr = static_cast<unsigned>(sym_param("thr", 50));
  if (thr != 50) g.dec.set_ack_nb_packets(static_cast<uint16_t>(thr));
  g.dec.set_ack_period(std::chrono::milliseconds{0});
  const unsigned lim = thr > 128 ? 128 : thr;
  unsigned cnt = 0, got = 0;
  const bool dup = sym_param("dup", 0) != 0;     // repeated packets hand nothing over: no acknowledgement
  char d[1] = {'x'};
  for (unsigned i = 0; i < n; ++i)
  {
    const bool fresh = !dup || i == 0 || i == n - 1;
    if (fresh) { g.tx.n = 0; g.enc(ntc::data(d, d + 1)); }
    g.out.n = 0;
    g.dec(g.tx.get(0));
    ++cnt;
    const bool due = fresh && cnt >= lim;
    sym_check(g.acks.n == (due ? 1u : 0u), due ? "an acknowledgement that is due is not emitted" : "an acknowledgement is emitted although none is due");
    if (fresh) ++got;
    if (due)
    {
      packetizer<wire_ref> pk(g.dec.packet_handler());
      auto a = pk.read_ack(g.acks.get(0));
      sym_check(a.first.nb_packets() == cnt, "an acknowledgement does not count the packets received since the previous one");
      sym_check(a.first.source_ids().size() == got || a.first.source_ids().size() + 1 == got, "an acknowledgement does not list the data held");
      cnt = 0; g.acks.n = 0;
      sym_cover("threshold");
      sym_trace(i);
    }
  }
}
}

extern "C" void harness()
{
  sym_clock_ns = static_cast<int64_t>(sym_param("mode", 0) == 2 || sym_param("many", 0) ? 0 : sym_int("t0", 40));
  if (sym_param("many", 0)) many(); else run();
  sym_cover("end");
}
