// Packets written to a dump and read back, through standard streams over a memory buffer.
#include "common.hh"
#include "netcode/detail/serialize_packet.hh"
#include <streambuf>
#include <istream>
#include <ostream>
using namespace h;


namespace {
constexpr unsigned CAP = 140000;
struct memory : std::streambuf
{
  static char store[CAP];
  memory() { setp(store, store + CAP); }
  std::size_t written() const { return static_cast<std::size_t>(pptr() - pbase()); }
  void rewind() { char* e = pptr(); setg(store, store, e); }
};
char memory::store[CAP];
#ifdef NTC_BIG
char bytes[2][65600];
#else
char bytes[4][2048];
#endif
}

extern "C" void harness()
{
  static const unsigned sizes[] = {0, 1, 2, 7, 8, 9, 20, 246, 247, 248, 255, 256, 300, 502, 503, 1500};
  const unsigned k = static_cast<unsigned>(sym_param("k", 2));
  const unsigned pick = static_cast<unsigned>(sym_param("sizes", 16));
  memory mem;
  unsigned len[4];
  {
    std::ostream os(&mem);
    for (unsigned i = 0; i < k; ++i)
    {
      len[i] = i == 0 && sym_param("big", 0) ? static_cast<unsigned>(sym_param("big", 0)) : sizes[sym_choice(pick, "size")];
      sym_bytes(bytes[i], len[i], "b");
      const ntc::packet p(bytes[i], bytes[i] + len[i]);
      ntc::detail::serialize_packet::write(os, p);
      sym_check(p.size() == len[i] && eq(p.data(), bytes[i], len[i]), "dumping changes the packet");
    }
    sym_check(os.good(), "the stream fails while writing");
  }
  mem.rewind();
  {
    std::istream is(&mem);
    for (unsigned i = 0; i < k; ++i)
    {
      const ntc::packet p = ntc::detail::serialize_packet::read(is);
      sym_check(is.good() || (i + 1 == k && !is.fail()), "the stream fails while reading back");
      sym_check(p.size() == len[i], "a packet is read back with another size");
      sym_check(p.size() != len[i] || eq(p.data(), bytes[i], len[i]), "a packet is read back with other bytes");
      sym_check(reinterpret_cast<std::uintptr_t>(p.symbol()) % 16 == 0 && p.symbol() == p.data() + 7, "a packet read back is not laid out as others are");
      sym_trace(p.size());
    }
  }
  sym_cover("end");
}
