// What packetizer writes is what it reads back (sources, repairs, acknowledgements, id lists).
//   kind 0: source   1: repair   2: ack
//   lists: n symbolic identifiers, or runs: (first, len1 x stride1, len2 x stride2, ...)
#include "common.hh"
#include "netcode/detail/packetizer.hh"
using namespace h;
using namespace ntc::detail;

namespace {
constexpr unsigned MAXN = 70000;
uint32_t ids[MAXN];
unsigned nids;

void list_symbolic(unsigned n, bool gaps)
{
  // Strictly increasing, without overflow.
  uint64_t x = 0;
  for (unsigned i = 0; i < n; ++i)
  {
    uint32_t v;
    if (i == 0) v = static_cast<uint32_t>(sym_int("first", 32));
    else if (!gaps) { v = static_cast<uint32_t>(sym_int("small", 2)); sym_assume(v != 0); }
    else if (sym_choice(2, "large"))
    {
      const uint32_t hi = static_cast<uint32_t>(sym_int("hi", 16));
      sym_assume(hi != 0);
      v = hi << 16 | static_cast<uint32_t>(sym_int("lo", 16));
    }
    else { v = static_cast<uint32_t>(sym_int("gap", 16)); sym_assume(v != 0); }
    x += v;
    sym_assume(x <= 0xffffffffull);
    ids[i] = static_cast<uint32_t>(x);
  }
  nids = n;
}
// Runs of equal differences, lengths around what fits in one byte; small or large strides.
void list_runs(unsigned n1, unsigned s1, unsigned n2, unsigned s2)
{
  uint64_t x = sym_int("first", 32);
  sym_assume(x < 0x10000000ull);
  nids = 0;
  ids[nids++] = static_cast<uint32_t>(x);
  for (unsigned i = 0; i < n1; ++i) { x += s1; ids[nids++] = static_cast<uint32_t>(x); }
  for (unsigned i = 0; i < n2; ++i) { x += s2; ids[nids++] = static_cast<uint32_t>(x); }
}
// n pairs: differences alternate.
void list_alternate(unsigned n, unsigned s1, unsigned s2)
{
  uint64_t x = sym_int("first", 32);
  sym_assume(x < 0x1000000ull);
  nids = 0;
  ids[nids++] = static_cast<uint32_t>(x);
  for (unsigned i = 0; i < n; ++i) { x += i & 1 ? s1 : s2; ids[nids++] = static_cast<uint32_t>(x); }
}
source_id_list make_ids()
{
  source_id_list l;
  for (unsigned i = 0; i < nids; ++i) l.insert(l.end(), ids[i]);
  return l;
}
void same_ids(const source_id_list& l)
{
  sym_check(l.size() == nids, "the number of identifiers changes");
  unsigned d = 0, i = 0;
  for (auto x : l) { if (i < nids) d |= x ^ ids[i]; ++i; }
  sym_check(d == 0, "an identifier changes");
}
// The emitted bytes as the receiver gets them; some headers are followed by a second packet's bytes
// in the same datagram buffer (extra).
template <typename W>
ntc::packet as_packet(const W& b, unsigned extra)
{
  ntc::packet p(b.bytes, b.bytes + b.n);
  for (unsigned i = 0; i < extra; ++i) p.push_back(static_cast<char>(0xa5));
  return p;
}
struct buf { unsigned n = 0, ends = 0, after = 0; char bytes[400000]; };
struct buf_ref
{
  buf* b;
  void operator()(const char* d, std::size_t l)
  {
    if (b->ends) ++b->after;
    sym_check(b->n + l <= sizeof b->bytes, "harness: packet store too small");
    for (std::size_t i = 0; i < l; ++i) b->bytes[b->n + i] = d[i];
    b->n += static_cast<unsigned>(l);
  }
  void operator()() { ++b->ends; }
};
buf B;
char pay[70000];
uint32_t be32(const char* p) { uint32_t r = 0; for (int i = 0; i < 4; ++i) r = r << 8 | static_cast<unsigned char>(p[i]); return r; }
uint32_t be16(const char* p) { return static_cast<uint32_t>(static_cast<unsigned char>(p[0])) << 8 | static_cast<unsigned char>(p[1]); }
}

extern "C" void harness()
{
  const unsigned kind = static_cast<unsigned>(sym_param("kind", 0));
  const unsigned size = static_cast<unsigned>(sym_param("size", 0));
  buf_ref h{&B};
  packetizer<buf_ref> pk(h);
  const unsigned extra = static_cast<unsigned>(sym_param("extra", 0));

  // A packetizer is used for many packets: another list goes first through its buffers.
  if (sym_param("before", 1))
  {
    source_id_list l;
    for (uint32_t i = 0; i < 5; ++i) l.insert(l.end(), i * i + (i > 3 ? 100000u : 7u));
    pk.write_ack(ack{std::move(l), 3});
    pk.read_ack(ntc::packet(B.bytes, B.bytes + B.n));
    B.n = 0; B.ends = 0; B.after = 0;
  }
  const unsigned mode = static_cast<unsigned>(sym_param("list", 0));
  const unsigned n = static_cast<unsigned>(sym_param("n", 0));
  if (kind != 0)
  {
    if (mode == 0) list_symbolic(n, true);
    else if (mode == 1) list_symbolic(n, false);
    else if (mode == 2) list_runs(n, static_cast<unsigned>(sym_param("s1", 1)), static_cast<unsigned>(sym_param("n2", 0)), static_cast<unsigned>(sym_param("s2", 2)));
    else list_alternate(n, static_cast<unsigned>(sym_param("s1", 1)), static_cast<unsigned>(sym_param("s2", 2)));
  }
  unsigned sz = size;
  if (size == 0)
  {
    static const unsigned t[] = {1, 2, 3, 8, 9, 10, 16, 17, 33};
    sz = t[sym_choice(9, "size")];
  }

  if (kind == 0)
  {
    const uint32_t id = static_cast<uint32_t>(sym_int("id", 32));
    sym_bytes(pay, sz, "d");
    byte_buffer s(pay, pay + sz);
    pk.write_source(encoder_source{id, std::move(s)});
    sym_check(B.ends == 1 && B.after == 0, "the end of a source packet is not marked once, at its end");
    // The documented layout.
    sym_check(B.n == 7 + sz, "a source packet has another length than header and payload");
    sym_check(B.bytes[0] == 2, "a source packet starts with another type");
    sym_check(be32(B.bytes + 1) == id, "the identifier is not on 4 bytes, big endian");
    sym_check(be16(B.bytes + 5) == sz, "the length is not on 2 bytes, big endian");
    sym_check(eq(B.bytes + 7, pay, sz), "the payload does not follow the header");
    auto r = pk.read_source(as_packet(B, extra));
    sym_check(r.second == B.n, "the number of bytes read is not the packet's length");
    sym_check(r.first.id() == id, "the identifier of a source changes");
    sym_check(r.first.symbol_size() == sz, "the length of a source changes");
    sym_check(eq(r.first.symbol(), pay, sz), "the bytes of a source change");
    sym_trace(r.second); sym_trace(r.first.id());
  }
  else if (kind == 1)
  {
    const uint32_t id = static_cast<uint32_t>(sym_int("id", 32)), es = static_cast<uint32_t>(sym_int("es", 32));
    sym_bytes(pay, sz, "d");
    zero_byte_buffer s(pay, pay + sz);
    pk.write_repair(encoder_repair{id, es, make_ids(), std::move(s)});
    sym_check(B.ends == 1 && B.after == 0, "the end of a repair packet is not marked once, at its end");
    sym_check(B.bytes[0] == 1, "a repair packet starts with another type");
    auto r = pk.read_repair(as_packet(B, extra));
    sym_check(r.second == B.n, "bytes of a repair packet are left unread");
    sym_check(r.first.id() == id, "the identifier of a repair changes");
    sym_check(r.first.encoded_size() == es, "the encoded size of a repair changes");
    sym_check(r.first.symbol_size() == sz, "the size of a repair's symbol changes");
    sym_check(eq(r.first.symbol(), pay, sz), "the symbol of a repair changes");
    same_ids(r.first.source_ids());
    sym_trace(r.second); sym_trace(r.first.encoded_size());
  }
  else
  {
    const uint16_t nb = static_cast<uint16_t>(sym_int("nb", 16));
    pk.write_ack(ack{make_ids(), nb});
    sym_check(B.ends == 1 && B.after == 0, "the end of an acknowledgement is not marked once, at its end");
    sym_check(B.bytes[0] == 0, "an acknowledgement starts with another type");
    auto r = pk.read_ack(as_packet(B, extra));
    sym_check(r.second == B.n, "the number of bytes read is not the acknowledgement's length");
    sym_check(r.first.nb_packets() == nb, "the packet count of an acknowledgement changes");
    same_ids(r.first.source_ids());
    sym_trace(r.second); sym_trace(r.first.nb_packets());
  }
  sym_cover("end");
}
