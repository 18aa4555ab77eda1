// Shared parts of the harnesses: handlers that record what the library emits.
#pragma once
#include "sym.h"
#include "netcode/data.hh"
#include "netcode/decoder.hh"
#include "netcode/encoder.hh"
#include "netcode/packet.hh"
#include <cstring>
#include <vector>

namespace h {

#ifndef NTC_MAXS
#define NTC_MAXS 96
#endif
#ifndef NTC_MAXN
#define NTC_MAXN 64
#endif
#ifndef NTC_MAXH
#define NTC_MAXH 64
#endif
constexpr unsigned MAXP = NTC_MAXN, MAXS = NTC_MAXS, MAXL = MAXS + NTC_MAXH, MAXD = NTC_MAXN;

// Bytes compared without branching: one solver query per comparison.
inline int eq(const char* a, const char* b, unsigned n)
{
  unsigned d = 0;
  for (unsigned i = 0; i < n; ++i) d |= static_cast<unsigned char>(a[i]) ^ static_cast<unsigned char>(b[i]);
  return d == 0;
}

// Records emitted packets.
struct wire
{
  unsigned n = 0;          // complete packets
  unsigned open = 0;       // bytes of the packet under construction
  unsigned empty_ends = 0;
  unsigned len[MAXP];
  char bytes[MAXP][MAXL];
  void put(const char* d, std::size_t l)
  {
    sym_check(n < MAXP && open + l <= MAXL, "harness: packet store too small");
    for (std::size_t i = 0; i < l; ++i) bytes[n][open + i] = d[i];
    open += static_cast<unsigned>(l);
  }
  void end()
  {
    if (open == 0) ++empty_ends;
    len[n] = open; open = 0; ++n;
  }
  ntc::packet get(unsigned i) const { return ntc::packet(bytes[i], bytes[i] + len[i]); }
  unsigned type(unsigned i) const { return static_cast<unsigned char>(bytes[i][0]); }
};
struct wire_ref
{
  wire* w;
  void operator()(const char* d, std::size_t l) { w->put(d, l); }
  void operator()() { w->end(); }
};

// Records delivered data.
struct sink
{
  unsigned n = 0;
  unsigned len[MAXD];
  unsigned char aligned[MAXD];
  char bytes[MAXD][MAXS];
  void put(const char* d, std::size_t l)
  {
    sym_check(n < MAXD && l <= MAXS, "harness: data store too small");
    len[n] = static_cast<unsigned>(l);
    aligned[n] = reinterpret_cast<std::uintptr_t>(d) % 16 == 0;
    for (std::size_t i = 0; i < l; ++i) bytes[n][i] = d[i];
    ++n;
  }
};
struct sink_ref
{
  sink* s;
  void operator()(const char* d, std::size_t l) { s->put(d, l); }
};

} // namespace h
