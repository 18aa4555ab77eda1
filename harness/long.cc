// Long transfers: hundreds of data, many of them lost at once.  Which packets are lost is a
// choice, payload bytes are symbolic; the reference decoder works on sets of any size.
#include "common.hh"
#include "model.hh"
#include "netcode/detail/packetizer.hh"
using namespace h;

namespace {
int P;
#define CHECK(p, c, m) do { if (P == (p)) sym_check(c, m); } while (0)

constexpr unsigned N = 1024, MAXE = 48;
typedef unsigned char flag;

char payload[N][24];
unsigned size_of[N];
unsigned param(const char* n, long long d) { return static_cast<unsigned>(sym_param(n, d)); }

struct pkt { bool repair; unsigned id; unsigned cover; };   // cover: index of a recorded window
constexpr unsigned MAXR = 200;
flag window_at[MAXR][N];
unsigned nwin = 0;

struct big_model
{
  bool ordered; unsigned w;
  flag known[N], done[N];
  unsigned horizon = 0, frontier = 0, top = 0;      // top: first identifier not used yet
  struct equation { uint32_t id; unsigned n; unsigned u[MAXE]; } e[MAXE];
  unsigned neq = 0;
  unsigned out[N], nout = 0;
  bool solved = false, gave_up = false;
  unsigned old_horizon = 0;           // before the last call
  unsigned recovered = 0, useless = 0;
  ntc::detail::galois_field lib;
  big_model(unsigned w_, bool o) : ordered(o), w(w_), lib(static_cast<uint8_t>(w_)) { for (unsigned i = 0; i < N; ++i) known[i] = done[i] = 0; }

  void hand(unsigned s) { out[nout++] = s; done[s] = 1; }
  void learn(unsigned s) { known[s] = 1; if (!ordered) hand(s); }
  void flush() { if (ordered) while (frontier < top && known[frontier]) { if (!done[frontier]) hand(frontier); ++frontier; } }
  // Removes what is known from the equations, and the equations without unknowns.
  void reduce()
  {
    unsigned m = 0;
    for (unsigned i = 0; i < neq; ++i)
    {
      unsigned n = 0;
      for (unsigned k = 0; k < e[i].n; ++k) if (!known[e[i].u[k]]) e[i].u[n++] = e[i].u[k];
      e[i].n = n;
      if (n) { if (m != i) e[m] = e[i]; ++m; }
    }
    neq = m;
  }
  unsigned unknowns(unsigned* u) const
  {
    unsigned n = 0;
    for (unsigned i = 0; i < neq; ++i)
      for (unsigned k = 0; k < e[i].n; ++k)
      {
        unsigned j = 0;
        while (j < n && u[j] != e[i].u[k]) ++j;
        if (j == n) { sym_check(n < MAXE, "harness: too many unknown data"); u[n++] = e[i].u[k]; }
      }
    return n;
  }
  unsigned rank(const unsigned* u, unsigned n) const
  {
    const rgf f{w};
    static uint32_t m[MAXE][MAXE];
    for (unsigned i = 0; i < neq; ++i)
      for (unsigned c = 0; c < n; ++c)
      {
        m[i][c] = 0;
        for (unsigned k = 0; k < e[i].n; ++k) if (e[i].u[k] == u[c]) m[i][c] = lib.coefficient(e[i].id, u[c]);
      }
    unsigned r = 0;
    for (unsigned c = 0; c < n && r < neq; ++c)
    {
      unsigned p = r;
      while (p < neq && m[p][c] == 0) ++p;
      if (p == neq) continue;
      for (unsigned k = 0; k < n; ++k) { const uint32_t t = m[p][k]; m[p][k] = m[r][k]; m[r][k] = t; }
      for (unsigned j = r + 1; j < neq; ++j)
        if (m[j][c])
        {
          const uint32_t a = m[r][c], b = m[j][c];
          for (unsigned k = c; k < n; ++k) m[j][k] = f.mul(a, m[j][k]) ^ f.mul(b, m[r][k]);
        }
      ++r;
    }
    return r;
  }
  void close()
  {
    reduce();
    for (bool again = true; again;)
    {
      again = false;
      for (unsigned i = 0; i < neq && !again; ++i) if (e[i].n == 1) { learn(e[i].u[0]); ++recovered; again = true; }
      if (again) reduce();
    }
    unsigned u[MAXE];
    const unsigned n = unknowns(u);
    if (n && neq >= n && rank(u, n) == n)
    {
      solved = true;
      for (unsigned i = 0; i < n; ++i) { learn(u[i]); ++recovered; }
      neq = 0;
    }
  }
  bool receive(const pkt& p)
  {
    nout = 0; solved = gave_up = false; old_horizon = horizon;
    if (!p.repair)
    {
      if (p.id >= top) top = p.id + 1;
      if (p.id < horizon || known[p.id]) return false;
      learn(p.id); close(); flush();
      return true;
    }
    const flag* c = window_at[p.cover];
    unsigned lo = 0;
    while (!c[lo]) ++lo;
    if (lo < horizon) return false;
    if (lo > horizon)
    {
      horizon = lo;
      if (ordered)
      {
        for (unsigned s = frontier; s < lo; ++s) { if (known[s] && !done[s]) hand(s); if (!done[s]) gave_up = true; }
        if (frontier < lo) frontier = lo;
        flush();
      }
      unsigned m = 0;
      for (unsigned i = 0; i < neq; ++i)
      {
        bool old = false;
        for (unsigned k = 0; k < e[i].n; ++k) if (e[i].u[k] < lo) old = true;
        if (!old) { if (m != i) e[m] = e[i]; ++m; }
      }
      neq = m;
      for (unsigned s = 0; s < lo; ++s) known[s] = 0;
    }
    for (unsigned i = 0; i < neq; ++i) if (e[i].id == p.id) return false;
    sym_check(neq < MAXE, "harness: too many repairs");
    equation& q = e[neq];
    q.id = p.id; q.n = 0;
    for (unsigned s = lo; s < N; ++s)
      if (c[s]) { if (s >= top) top = s + 1; if (!known[s]) { sym_check(q.n < MAXE, "harness: too many unknown data"); q.u[q.n++] = s; } }
    if (q.n == 0) { ++useless; return true; }
    ++neq;
    close(); flush();
    return true;
  }
};

struct world
{
  const unsigned w; const bool ordered;
  wire tx, back; sink out;
  ntc::encoder<wire_ref> enc;
  ntc::decoder<wire_ref, sink_ref> dec;
  big_model dm;
  flag window[N]; unsigned wsize = 0, wlow = 0, next = 0, repairs = 0, rate = 100000, limit = 1u << 30;
  bool nonsys = false;
  pkt log[MAXP]; unsigned nlog = 0;
  flag handed[N];
  unsigned last_order = 0; bool any_order = false;
  unsigned got_sources = 0, got_repairs = 0, taken = 0;
  bool sparse = false; flag chosen[N];      // sparse: only chosen data have a symbolic byte

  world(unsigned w_, bool o)
    : w(w_), ordered(o), enc(static_cast<uint8_t>(w_), wire_ref{&tx})
    , dec(static_cast<uint8_t>(w_), o ? ntc::in_order::yes : ntc::in_order::no, wire_ref{&back}, sink_ref{&out}), dm(w_, o)
  {
    dec.set_ack_period(std::chrono::milliseconds{0});
    enc.set_rate(rate);
    for (unsigned i = 0; i < N; ++i) window[i] = handed[i] = chosen[i] = 0;
  }
  void record_repair()
  {
    sym_check(nwin < MAXR, "harness: too many repairs");
    for (unsigned i = 0; i < N; ++i) window_at[nwin][i] = window[i];
    log[nlog++] = pkt{true, repairs++, nwin++};
    if (P == 12) combination(nlog - 1);
  }
  // Packet k is the announced combination of the data of the window.
  void combination(unsigned k)
  {
    sym_check(tx.n > k, "the encoder emits the packets it has to");
    ntc::detail::packetizer<wire_ref> pk(enc.packet_handler());
    auto r = pk.read_repair(tx.get(k));
    const auto& d = r.first;
    unsigned n = 0, longest = 0; bool same = true;
    for (auto x : d.source_ids()) { ++n; if (x >= N || !window[x]) same = false; }
    sym_check(d.id() == log[k].id, "a repair has another identifier");
    sym_check(same && n == wsize, "a repair lists other data than those of the window");
    char want[24];
    for (char& c : want) c = 0;
    uint32_t size = 0;
    for (unsigned i = 0; i < next; ++i)
    {
      if (!window[i]) continue;
      if (size_of[i] > longest) longest = size_of[i];
      const uint32_t c = dm.lib.coefficient(log[k].id, i);
      ref_region(w, c, payload[i], size_of[i], want);
      size ^= ref_size(w, c, size_of[i]);
    }
    sym_check(d.symbol_size() == longest, "a repair's symbol is not as long as the longest datum");
    sym_check(d.symbol_size() != longest || eq(d.symbol(), want, longest), "a repair's symbol is not the announced combination of the data");
    sym_check(d.encoded_size() == size, "a repair's encoded size is not the announced combination of the sizes");
    sym_cover("repair");
  }
  void add()
  {
    const unsigned i = next++;
    sym_check(i < N, "harness: too many data");
    const unsigned u = w <= 8 ? 1 : w / 8;
    const unsigned n = w <= 8 ? 3 + i % 3 : u * (1 + i % 3) < 4 ? 4 : u * (1 + i % 3);
    size_of[i] = n;
    payload[i][0] = static_cast<char>(i); payload[i][1] = static_cast<char>(i >> 8);
    for (unsigned k = 3; k < n; ++k) payload[i][k] = static_cast<char>(i * 7 + k);
    payload[i][2] = static_cast<char>(i * 5 + 1);
    if (!sparse || chosen[i]) sym_bytes(payload[i] + 2, 1, "d");
    enc(ntc::data(payload[i], payload[i] + n));
    while (wsize >= limit) { while (!window[wlow]) ++wlow; window[wlow] = 0; --wsize; }
    window[i] = 1; ++wsize;
    if (nonsys) record_repair(); else log[nlog++] = pkt{false, i, 0};
    if (next % rate == 0) record_repair();
    sym_check(tx.n == nlog && tx.open == 0, "the encoder emits the packets it has to");
    CHECK(26, enc.nb_sent_repairs() == repairs && enc.nb_sent_sources() + repairs == nlog, "the numbers of sent packets are wrong");
  }
  void rep()
  {
    enc.generate_repair();
    record_repair();
    sym_check(tx.n == nlog && tx.open == 0, "the encoder emits the packets it has to");
    CHECK(26, enc.nb_sent_repairs() == repairs && enc.nb_sent_sources() + repairs == nlog, "the numbers of sent packets are wrong");
  }
  void deliver(unsigned c)
  {
    const unsigned before = out.n;
    out.n = 0;
    const pkt& p = log[c];
    const bool was_known = !p.repair && (p.id < dm.horizon || dm.known[p.id]);
    dec(tx.get(c));
    (void)before;
    const bool fresh = dm.receive(p);
    for (unsigned i = 0; i < out.n; ++i)
    {
      const unsigned id = static_cast<unsigned char>(out.bytes[i][0]) | static_cast<unsigned>(static_cast<unsigned char>(out.bytes[i][1])) << 8;
      const bool good = out.len[i] >= 3 && id < next;
      CHECK(1, good, "a datum is handed over that was never submitted");
      if (!good) continue;
      CHECK(1, out.len[i] == size_of[id], "a datum is handed over with another length");
      CHECK(1, out.len[i] != size_of[id] || eq(out.bytes[i], payload[id], size_of[id]), "a datum is handed over with other bytes");
      CHECK(2, !handed[id], "a datum is handed over twice");
      handed[id] = 1;
      if (ordered)
      {
        CHECK(3, !any_order || id > last_order, "data are handed over out of order");
        CHECK(3, i < dm.nout && dm.out[i] == id, "a datum is passed over although it may still come");
        any_order = true; last_order = id;
      }
      if (i == 0 && !ordered && !p.repair && !was_known) CHECK(5, id == p.id, "a fresh source is not handed over at once and first");
    }
    sym_trace(out.n);
    if (!fresh) CHECK(2, out.n == 0, "a repeated packet makes data be handed over");
    if (!ordered && !p.repair && !was_known) CHECK(5, out.n >= 1, "a fresh source is not handed over at once and first");
    if (ordered) CHECK(3, out.n == dm.nout, "a known datum is withheld although everything before it is settled");
    for (unsigned i = 0; i < dm.nout; ++i) CHECK(4, handed[dm.out[i]], "recoverable data are not recovered");
    if (P == 24)
    {
      unsigned u[MAXE];
      sym_check(dec.nb_missing_sources() == dm.unknowns(u), "the number of missing data is not that of current unknown data");
      sym_check(out.n == dm.nout, "current data are dropped, or outdated packets have an effect");
    }
    if (P == 26)
    {
      ++(p.repair ? got_repairs : got_sources);
      unsigned u[MAXE];
      sym_check(dec.nb_received_sources() == got_sources && dec.nb_received_repairs() == got_repairs, "the numbers of received packets are wrong");
      sym_check(dec.nb_decoded() == dm.recovered, "the number of decoded data is wrong");
      sym_check(dec.nb_useless_repairs() == dm.useless, "the number of useless repairs is wrong");
      sym_check(dec.nb_missing_sources() == dm.unknowns(u), "the number of missing data is wrong");
      sym_check(dec.nb_sent_acks() == taken + back.n, "the number of sent acknowledgements is wrong");
    }
    if (dm.solved) sym_cover("full decoding");
    if (dm.gave_up) sym_cover("datum given up");
    if (!fresh) sym_cover("packet without effect");
    if (p.repair && dm.nout) sym_cover("decoded from a repair");
    if (!p.repair && dm.nout > 1) sym_cover("source triggers more");
    if (back.n) take_acks(false);
  }
  // Acknowledgements reach the encoder.
  void take_acks(bool complete)
  {
    for (unsigned k = 0; k < back.n; ++k)
    {
      ntc::detail::packetizer<wire_ref> pk(dec.packet_handler());
      auto a = pk.read_ack(back.get(k));
      unsigned listed = 0;
      static flag in[N];
      for (unsigned i = 0; i < N; ++i) in[i] = 0;
      for (auto x : a.first.source_ids())
      {
        CHECK(25, x < next && (handed[x] || dm.known[x]), "an acknowledgement lists data the decoder never got");
        // What is forgotten during the call that acknowledges may be listed a last time.
        const bool now = x < next && (dm.known[x] || (!complete && x >= dm.old_horizon && x < dm.horizon && handed[x]));
        CHECK(24, now, "forgotten or unknown data are acknowledged");
        CHECK(14, now, "an acknowledgement lists data that are not held, or outdated");
        if (x < N) { in[x] = 1; ++listed; }
      }
      if (complete)
        for (unsigned i = dm.horizon; i < next; ++i)
          if (dm.known[i])
          {
            CHECK(25, in[i], "an acknowledgement omits data the decoder holds");
            CHECK(24, in[i], "current data are dropped (not acknowledged)");
            CHECK(14, in[i], "an acknowledgement misses data that are held");
          }
      enc(back.get(k));
      ++taken;
      CHECK(26, enc.nb_received_acks() == taken && dec.nb_sent_acks() + k + 1 == taken + back.n, "the number of acknowledgements is wrong");
      for (unsigned i = 0; i < next; ++i) if (in[i] && window[i]) { window[i] = 0; --wsize; }
      CHECK(25, enc.window() == wsize, "an acknowledgement removes other data than those listed");
      CHECK(10, enc.window() == wsize, "an acknowledgement does not remove exactly the listed data");
      sym_cover("ack exchanged");
      sym_trace(listed);
    }
    back.n = 0;
  }
  // The window, through a repair.
  void content()
  {
    if ((P != 25 && P != 10 && P != 11) || !wsize) return;
    const unsigned at = tx.n;
    rep();
    ntc::detail::packetizer<wire_ref> pk(enc.packet_handler());
    auto r = pk.read_repair(tx.get(at));
    unsigned n = 0; bool same = true;
    for (auto x : r.first.source_ids()) { ++n; if (x >= N || !window[x]) same = false; }
    sym_check(same && n == wsize, "the window does not hold the data it has to");
  }
  void ack() { dec.generate_ack(); sym_check(back.n == 1, "generate_ack emits one packet"); take_acks(true); }
};

// Where losses are placed.
unsigned place(unsigned n, bool all)
{
  if (all) return sym_choice(n, "lost");
  const unsigned at[] = {0, 1, n / 3, 63, 126, 127, 128, 129, 253, 254, 255, 256, 257, n - 2, n - 1};
  unsigned cand[16], m = 0;
  for (unsigned x : at) if (x < n) { unsigned j = 0; while (j < m && cand[j] != x) ++j; if (j == m) cand[m++] = x; }
  return cand[sym_choice(m, "lost")];
}

// Everything is sent, some data are lost, repairs follow; then the transfer goes on.
void bulk()
{
  const unsigned n = param("n", 300), losses = param("losses", 1), stride = param("stride", 1), extra = param("extra", 0);
  world W(param("w", 8), param("ordered", 0) != 0);
  W.dec.set_ack_nb_packets(128);
  const unsigned lim = param("limit", 0);
  if (lim) { W.limit = lim; W.enc.set_window_size(lim); }
  flag lost[N];
  for (unsigned i = 0; i < N; ++i) lost[i] = 0;
  W.sparse = param("sparse", 0) != 0;
  unsigned first = 0;
  auto choose = [&]
  {
    first = place(n, param("all", 0) != 0);
    for (unsigned i = 0, x = first; i < losses; ++i, x = (x + stride) % n) { while (lost[x]) x = (x + 1) % n; lost[x] = 1; if (i < (losses > 20 ? 4u : 17u)) W.chosen[x] = W.chosen[x + 1] = 1; }
  };
  if (W.sparse) choose();
  for (unsigned i = 0; i < n; ++i) W.add();
  CHECK(11, W.enc.window() == W.wsize, "the window does not hold as many data as it may");
  const unsigned r0 = W.tx.n;
  for (unsigned i = 0; i < losses + extra; ++i) W.rep();
  const unsigned r1 = W.tx.n;
  if (!W.sparse) choose();
  const unsigned order = param("order", 0);       // 1: backwards; 2: repairs first
  // Acknowledgements on the way are lost: repairs were made before.
  W.dec.set_ack_nb_packets(128);
  if (order == 2) for (unsigned i = r0; i < r1; ++i) { W.deliver(i); }
  for (unsigned i = 0; i < n; ++i)
  {
    const unsigned x = order == 1 ? n - 1 - i : i;
    if (!lost[x]) W.deliver(x);
    if (x % 100 == 50 && !lost[x]) W.deliver(x);   // repeated
  }
  if (order != 2) for (unsigned i = r0; i < r1; ++i) { W.deliver(i); if (i + 1 < r1) W.deliver(i); }
  W.ack();
  if (W.wsize == 0) sym_cover("window emptied");
  W.content();
  // Afterwards.
  const unsigned a = W.tx.n;
  for (unsigned i = 0; i < 4; ++i) W.add();
  W.rep();
  W.deliver(a); W.deliver(a + 3); W.deliver(first); W.deliver(r0); W.deliver(a + 1); W.deliver(a + 4);
  W.ack();
  W.content();
}

// A steady stream: every packet is delivered at once or lost, acknowledgements flow back.
void stream()
{
  const unsigned n = param("n", 260), rate = param("rate", 5), q = param("gap", 11), thr = param("thr", 50);
  world W(param("w", 8), param("ordered", 0) != 0);
  W.rate = rate; W.enc.set_rate(rate);
  W.dec.set_ack_nb_packets(static_cast<uint16_t>(thr));
  const unsigned lim = param("limit", 0);
  if (lim) { W.limit = lim; W.enc.set_window_size(lim); }
  if (param("nonsys", 0)) { W.nonsys = true; W.enc.set_code_type(ntc::systematic::no); }
  const unsigned off = sym_choice(param("offs", 6), "phase"), lose_repairs = sym_choice(2, "repairs-lost-too");
  unsigned late = ~0u;
  for (unsigned i = 0, sent = 0, count = 0; i < n; ++i)
  {
    W.add();
    for (; sent < W.tx.n; ++sent, ++count)
    {
      const bool drop = count % q == off && (lose_repairs || !W.log[sent].repair);
      if (drop) { if (late == ~0u) late = sent; continue; }
      W.deliver(sent);
      if (late != ~0u && count % (3 * q) == off + 2) { W.deliver(late); late = ~0u; }     // one in three arrives late
    }
  }
  for (unsigned i = 0; i < 3 && W.wsize; ++i) { const unsigned at = W.tx.n; W.rep(); W.deliver(at); }
  W.ack();
  W.content();
}
}

extern "C" void harness()
{
  P = static_cast<int>(param("prop", 1));
  if (param("kind", 0) == 0) bulk(); else stream();
  sym_cover("end");
}
