// The C interface next to the C++ one: the same calls, compared after each.
#include "common.hh"
#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/error.h"
#include "netcode/c/packet.h"
#include "netcode/errors.hh"
#ifdef NTC_CHECK_ERROR
#include "netcode/c/detail/check_error.hh"
#include <stdexcept>
#endif
using namespace h;

namespace {
struct ctx { uint32_t magic; wire w; sink s; unsigned sends = 0; };
ctx *cx_enc, *cx_dec, *cx_out;
void prep(void* c, const char* d, size_t n)
{
  sym_check(c == cx_enc || c == cx_dec, "a packet callback gets another context than the user's");
  static_cast<ctx*>(c)->w.put(d, n);
}
void send(void* c)
{
  sym_check(c == cx_enc || c == cx_dec, "a packet callback gets another context than the user's");
  static_cast<ctx*>(c)->w.end();
}
void got(void* c, const char* d, size_t n)
{
  sym_check(c == cx_out, "the data callback gets another context than the user's");
  static_cast<ctx*>(c)->s.put(d, n);
}
int same_wire(const wire& a, const wire& b)
{
  if (a.n != b.n || a.open != b.open) return 0;
  for (unsigned i = 0; i < a.n; ++i) if (a.len[i] != b.len[i] || !eq(a.bytes[i], b.bytes[i], a.len[i])) return 0;
  return 1;
}
void message_ok(const ntc_error& e)
{
  if (!e.message) return;
  // Readable up to its end.
  unsigned i = 0;
  while (i < 200 && e.message[i]) ++i;
  sym_check(i < 200, "the error message is not a C string");
}

struct both
{
  ctx ce, cd, co;
  ntc_encoder_t* enc; ntc_decoder_t* dec;
  wire tx, back; sink out;
  ntc::encoder<wire_ref> xenc;
  ntc::decoder<wire_ref, sink_ref> xdec;
  ntc_error err;
  both(unsigned w, bool ordered)
    : xenc(static_cast<uint8_t>(w), wire_ref{&tx})
    , xdec(static_cast<uint8_t>(w), ordered ? ntc::in_order::yes : ntc::in_order::no, wire_ref{&back}, sink_ref{&out})
  {
    cx_enc = &ce; cx_dec = &cd; cx_out = &co;
    enc = ntc_new_encoder(static_cast<uint8_t>(w), ntc_packet_handler{&ce, prep, send});
    dec = ntc_new_decoder(static_cast<uint8_t>(w), ordered ? ntc_in_order_yes : ntc_in_order_no, ntc_packet_handler{&cd, prep, send}, ntc_data_handler{&co, got});
    sym_check(enc && dec, "an instance is not made");
    err.type = ntc_no_error; err.message = nullptr;
  }
  ~both() { ntc_delete_encoder(enc); ntc_delete_decoder(dec); delete[] err.message; }
  // Whatever an earlier call left there.
  void dirty() { err.type = ntc_unknown_error; }

  template <typename C, typename X>
  void call(C c, X x)
  {
    dirty();
    ntc_error_type want = ntc_no_error;
    std::size_t rx = 0;
    try { rx = x(); }
    catch (const ntc::packet_type_error&) { want = ntc_packet_type_error; }
    catch (const ntc::overflow_error&) { want = ntc_overflow_error; }
    catch (...) { want = ntc_unknown_error; }
    const std::size_t rc = c();
    sym_check(err.type == want, "another error code than the error that occurred, or an error code without error");
    sym_check(want != ntc_no_error || rc == rx, "the C call returns another value");
    sym_check(want == ntc_no_error || rc == 0, "a failed call returns a value");
    message_ok(err);
    if (want != ntc_no_error) sym_cover("error");
    sym_trace(rc); sym_trace(static_cast<unsigned>(err.type));
    compare();
  }
  void compare()
  {
    sym_check(ntc_encoder_window(enc) == xenc.window(), "the window sizes differ");
    sym_check(same_wire(ce.w, tx), "the C encoder emits other packets");
    sym_check(same_wire(cd.w, back), "the C decoder emits other packets");
    sym_check(co.s.n == out.n, "the C decoder hands over other data");
    for (unsigned i = 0; i < out.n && i < co.s.n; ++i)
      sym_check(co.s.len[i] == out.len[i] && co.s.aligned[i] && eq(co.s.bytes[i], out.bytes[i], out.len[i]), "the C decoder hands over other data");
  }
  void add(const char* d, unsigned n)
  {
    call([&]() -> std::size_t { ntc_data_t* x = ntc_new_data_from(d, static_cast<uint16_t>(n)); ntc_encoder_add_data(enc, x, &err); ntc_delete_data(x); return 0; },
         [&]() -> std::size_t { xenc(ntc::data(d, d + n)); return 0; });
  }
  void rep()
  {
    call([&]() -> std::size_t { ntc_encoder_generate_repair(enc, &err); return 0; }, [&]() -> std::size_t { xenc.generate_repair(); return 0; });
  }
  void give(bool to_enc, const char* b, unsigned n)
  {
    call([&]() -> std::size_t
         {
           ntc_packet_t* p = ntc_new_packet_from(b, static_cast<uint16_t>(n));
           const std::size_t r = to_enc ? ntc_encoder_add_packet(enc, p, &err) : ntc_decoder_add_packet(dec, p, &err);
           ntc_delete_packet(p);
           return r;
         },
         [&]() -> std::size_t { ntc::packet p(b, b + n); return to_enc ? xenc(std::move(p)) : xdec(std::move(p)); });
  }
  void ack()
  {
    call([&]() -> std::size_t { ntc_decoder_generate_ack(dec, &err); return 0; }, [&]() -> std::size_t { xdec.generate_ack(); return 0; });
  }
};

char pay[8][8];
void mirrored()
{
  const unsigned k = static_cast<unsigned>(sym_param("k", 3));
  const unsigned focus = static_cast<unsigned>(sym_param("focus", 0));
  sym_clock_ns = 1000000000;
  both b(static_cast<unsigned>(sym_param("w", 8)), sym_param("ordered", 0) != 0);
  for (unsigned i = 0; i < 8; ++i) sym_bytes(pay[i], 8, "d");
  unsigned next = 0;
  if (sym_param("pre", 0)) for (; next < 3; ++next) b.add(pay[next], 4 * (1 + next % 2));
  if (sym_param("pre", 0) > 1) { b.rep(); b.give(false, b.tx.bytes[1], b.tx.len[1]); b.ack(); }
  for (unsigned s = 0; s < k; ++s)
  {
    sym_clock_ns += 30000000;
    const unsigned a = sym_choice(6, "action");
    if (a == 0) { b.add(pay[next], 4 * (1 + next % 2)); ++next; }
    else if (a == 1) { if (b.xenc.window()) b.rep(); }
    else if (a == 2) { if (b.tx.n) { const unsigned c = sym_choice(b.tx.n, "packet"); b.give(false, b.tx.bytes[c], b.tx.len[c]); } }
    else if (a == 3) { if (sym_choice(2, "send") && b.back.n) b.give(true, b.back.bytes[b.back.n - 1], b.back.len[b.back.n - 1]); else b.ack(); }
    else if (a == 4)      // configuration
      switch (sym_choice(6, "setting"))
      {
        case 0: { const std::size_t r = sym_choice(2, "rate") ? sym_int("big_rate", 64) | (1ull << 40) : 1; ntc_encoder_set_rate(b.enc, r); b.xenc.set_rate(r); sym_check(b.enc->rate() == r, "the C call sets another rate"); break; }
        case 1: { const std::size_t z = sym_int("window", 64); sym_assume(z != 0); ntc_encoder_set_window_size(b.enc, z); b.xenc.set_window_size(z); sym_check(b.enc->window_size() == z, "the C call sets another window size"); break; }
        case 2: { const bool y = sym_choice(2, "type"); ntc_encoder_set_code_type(b.enc, y ? ntc_systematic_yes : ntc_systematic_no); b.xenc.set_code_type(y ? ntc::systematic::yes : ntc::systematic::no); break; }
        case 3: { const bool y = sym_choice(2, "adaptive"); ntc_encoder_set_adaptive(b.enc, y); b.xenc.set_adaptive(y); sym_check(b.enc->adaptive() == y, "the C call sets another adaptive mode"); break; }
        case 4: { const unsigned c = sym_choice(4, "period"); const std::size_t p = c == 3 ? sym_int("big_period", 40) | 1 : c * 25; ntc_decoder_set_ack_period(b.dec, p); b.xdec.set_ack_period(std::chrono::milliseconds{p}); sym_check(b.dec->ack_period() == b.xdec.ack_period(), "the C call sets another period"); break; }
        default: { const uint16_t n = static_cast<uint16_t>(sym_int("nb", 16)); sym_assume(n != 0); ntc_decoder_set_ack_nb_packets(b.dec, n); b.xdec.set_ack_nb_packets(n); sym_check(b.dec->ack_nb_packets() == b.xdec.ack_nb_packets(), "the C call sets another number of packets"); break; }
      }
    else
    {
      // Any packet, or a truncated one of the session.
      const bool to_enc = sym_choice(2, "side");
      const wire& from = to_enc ? b.back : b.tx;
      if (focus && from.n)
      {
        const unsigned c = from.n - 1, n = 1 + sym_choice(from.len[c], "cut");
        b.give(to_enc, from.bytes[c], n);
      }
      else
      {
        char t[16];
        const unsigned n = 1 + sym_choice(static_cast<unsigned>(sym_param("len", 4)), "length");
        sym_bytes(t, n, "packet");
        b.give(to_enc, t, n);
      }
    }
    b.compare();
  }
}

// ---- buffers --------------------------------------------------------------------------------------
template <typename T, typename New, typename From, typename Buf, typename Size, typename Resize, typename Del>
void buffers(New mk, From from, Buf buf, Size size, Resize resize, Del del)
{
  static const unsigned sz[] = {0, 1, 9, 255, 256, 300, 32767, 32768, 65535};
  const unsigned nsz = static_cast<unsigned>(sym_param("sizes", 6));
  ntc_error err; err.type = ntc_no_error; err.message = nullptr;
  const unsigned n = sz[sym_choice(nsz, "size")];
  static char src[65536];
  sym_bytes(src, n < 600 ? n : 600, "src");
  if (n > 600) { for (unsigned i = 600; i < n; ++i) src[i] = static_cast<char>(i * 11); sym_bytes(src + n - 1, 1, "last"); }
  T* p;
  bool content = true;
  if (sym_choice(2, "from")) p = from(src, static_cast<uint16_t>(n));
  else { p = mk(static_cast<uint16_t>(n)); content = false; }
  sym_check(p != nullptr, "a buffer is not made");
  sym_check(size(p) == n, "a buffer has another size");
  sym_check(n == 0 || sym_ok(buf(p), n), "the buffer is smaller than its size");
  if (!content) for (unsigned i = 0; i < n; ++i) buf(p)[i] = src[i];
  sym_check(size(p) == n && eq(buf(p), src, n), "a buffer has another content");
  const unsigned m = sz[sym_choice(nsz, "new_size")];
  err.type = sym_choice(2, "stale") ? ntc_unknown_error : ntc_no_error;
  resize(p, static_cast<uint16_t>(m), &err);
  sym_check(err.type == ntc_no_error, "an error code without error");
  sym_check(size(p) == m, "a resized buffer has another size");
  sym_check(m == 0 || sym_ok(buf(p), m), "a resized buffer is smaller than its size");
  sym_check(eq(buf(p), src, m < n ? m : n), "a resized buffer loses its content");
  sym_trace(size(p));
  del(p);
}

// ---- allocation failures ----------------------------------------------------------------------------
void failures()
{
  const unsigned what = static_cast<unsigned>(sym_param("what", 0));
  const int64_t limit = sym_param("allocs", 12);
  ntc_error err; err.type = ntc_no_error; err.message = nullptr;
  static const char src[64] = {2, 0, 0, 0, 0, 0, 3, 'a', 'b', 'c'};
  ctx ce, cd, co;
  cx_enc = &ce; cx_dec = &cd; cx_out = &co;
  const ntc_packet_handler pe{&ce, prep, send}, pd{&cd, prep, send};
  const ntc_data_handler dh{&co, got};
  bool failed = false;
  const int64_t n = sym_choice(static_cast<unsigned>(limit), "fails_at");
  auto arm = [&] { err.type = ntc_overflow_error; sym_alloc_fail = n; };
  auto disarm = [&] { failed = sym_alloc_fail < 0; sym_alloc_fail = -1; };
  auto verdict = [&]
  {
    disarm();
    sym_check(err.type == (failed ? ntc_no_memory : ntc_no_error), failed ? "a lack of memory is not reported as such" : "an error code without error");
    message_ok(err);
    if (failed) sym_cover("no memory");
    sym_trace(static_cast<unsigned>(err.type));
  };
  auto made = [&](bool ok) { disarm(); sym_check(ok == !failed, failed ? "an instance that lacks memory is returned" : "an instance is not made"); if (failed) sym_cover("no instance"); };
  switch (what)
  {
    case 0: { arm(); auto* p = ntc_new_data(40); made(p != nullptr); if (p) { arm(); ntc_data_resize(p, 400, &err); verdict(); sym_check(failed || ntc_data_get_size(p) == 400, "resizing has no effect"); ntc_delete_data(p); } break; }
    case 1: { arm(); auto* p = ntc_new_data_from(src, 10); made(p != nullptr); if (p) ntc_delete_data(p); break; }
    case 2: { arm(); auto* p = ntc_new_packet(40); made(p != nullptr); if (p) { arm(); ntc_packet_resize(p, 400, &err); verdict(); ntc_delete_packet(p); } break; }
    case 3: { arm(); auto* p = ntc_new_packet_from(src, 10); made(p != nullptr); if (p) ntc_delete_packet(p); break; }
    case 4: { arm(); auto* e = ntc_new_encoder(8, pe); made(e != nullptr); if (e) ntc_delete_encoder(e); break; }
    case 5: { arm(); auto* d = ntc_new_decoder(8, ntc_in_order_yes, pd, dh); made(d != nullptr); if (d) ntc_delete_decoder(d); break; }
    case 6: case 7: case 8:      // encoder
    {
      auto* e = ntc_new_encoder(8, pe);
      auto* x = ntc_new_data_from(src, 10);
      if (what == 8) ntc_encoder_set_code_type(e, ntc_systematic_no);
      if (what == 7) { ntc_encoder_add_data(e, x, &err); ntc_delete_data(x); x = ntc_new_data_from(src, 60); arm(); ntc_encoder_generate_repair(e, &err); }
      else { arm(); ntc_encoder_add_data(e, x, &err); }
      verdict();
      ntc_delete_data(x); ntc_delete_encoder(e);
      break;
    }
    case 9:                      // acknowledgement
    {
      wire t; wire_ref r{&t};
      ntc::detail::packetizer<wire_ref> pk(r);
      ntc::detail::source_id_list l; l.insert(l.end(), 0); l.insert(l.end(), 1);
      pk.write_ack(ntc::detail::ack{std::move(l), 2});
      auto* e = ntc_new_encoder(8, pe);
      auto* p = ntc_new_packet_from(t.bytes[0], static_cast<uint16_t>(t.len[0]));
      arm();
      const std::size_t rd = ntc_encoder_add_packet(e, p, &err);
      verdict();
      sym_check(rd == (failed ? 0 : t.len[0]), "the number of bytes read is wrong");
      ntc_delete_packet(p); ntc_delete_encoder(e);
      break;
    }
    default:                     // decoder: source; repairs; decoding; acknowledgement
    {
      wire t;
      ntc::encoder<wire_ref> x(8, wire_ref{&t});
      for (unsigned i = 0; i < 3; ++i) x(ntc::data(src, src + 5 + i));
      x.generate_repair(); x.generate_repair();       // t: s0 s1 s2 r0 r1
      auto* d = ntc_new_decoder(8, sym_param("ordered", 0) ? ntc_in_order_yes : ntc_in_order_no, pd, dh);
      static const unsigned order[] = {0, 3, 4};      // the second repair solves for two data
      const unsigned last = what - 10;                // 0..2: at which packet memory lacks; 3: acknowledgement
      for (unsigned i = 0; i < 3 && i <= last; ++i)
      {
        auto* p = ntc_new_packet_from(t.bytes[order[i]], static_cast<uint16_t>(t.len[order[i]]));
        if (i == last) arm();
        const std::size_t rd = ntc_decoder_add_packet(d, p, &err);
        if (i == last) { verdict(); sym_check(rd == (failed ? 0 : t.len[order[i]]), "the number of bytes read is wrong"); }
        ntc_delete_packet(p);
      }
      if (last == 3) { arm(); ntc_decoder_generate_ack(d, &err); verdict(); }
      ntc_delete_decoder(d);
    }
  }
  delete[] err.message;
}

#ifdef NTC_CHECK_ERROR
// ---- every kind of exception -------------------------------------------------------------------------
struct own : std::exception { const char* what() const noexcept override { return "own text"; } };
struct silent : std::exception { const char* what() const noexcept override { return ""; } };
void exceptions()
{
  ntc_error err; err.type = ntc_overflow_error; err.message = nullptr;
  for (unsigned s = 0; s < static_cast<unsigned>(sym_param("k", 2)); ++s)
  {
    const unsigned kind = sym_choice(8, "kind");
    const int64_t fail = static_cast<int64_t>(sym_choice(2, "message_fails")) - 1;     // -1: memory suffices
    const std::size_t r = ntc::detail::check_error([&]() -> std::size_t
    {
      struct armed { int64_t f; ~armed() { sym_alloc_fail = f; } };
      switch (kind)
      {
        case 0: return 7;
        case 1: throw ntc::packet_type_error{ntc::packet{'a', 'b'}};
        case 2: throw ntc::overflow_error{};
        case 3: throw std::bad_alloc{};
        case 4: { armed a{fail}; throw own{}; }
        case 5: { armed a{fail}; throw silent{}; }
        case 6: throw 3;
        default: { armed a{fail}; throw std::runtime_error("a longer text that describes the error"); }
      }
    }, &err);
    const bool hit = sym_alloc_fail < 0 && fail == 0;
    sym_alloc_fail = -1;
    static const ntc_error_type want[] = {ntc_no_error, ntc_packet_type_error, ntc_overflow_error, ntc_no_memory, ntc_unknown_error, ntc_unknown_error, ntc_unknown_error, ntc_unknown_error};
    sym_check(err.type == want[kind], "another error code than the error that occurred");
    sym_check(r == (kind == 0 ? 7u : 0u), "a failed call returns a value");
    message_ok(err);
    const char* text = kind == 4 ? "own text" : kind == 5 ? "" : kind == 7 ? "a longer text that describes the error" : nullptr;
    if (text && err.message)
    {
      unsigned n = 0; while (text[n]) ++n;
      sym_check(eq(err.message, text, n + 1), "the message is not that of the error");
      sym_cover("message");
    }
    sym_check(!text || hit || err.message, "there is no message");
    sym_check(kind != 6 || !err.message, "the message is that of another error");
    sym_trace(static_cast<unsigned>(err.type));
  }
  delete[] err.message;
}
#endif
}

extern "C" void harness()
{
  const int part = static_cast<int>(sym_param("part", 0));
  if (part == 0) mirrored();
  else if (part == 1)
  {
    if (sym_choice(2, "which")) buffers<ntc_data_t>(ntc_new_data, ntc_new_data_from, ntc_data_buffer, ntc_data_get_size, ntc_data_resize, ntc_delete_data);
    else buffers<ntc_packet_t>(ntc_new_packet, ntc_new_packet_from, ntc_packet_buffer, ntc_packet_get_size, ntc_packet_resize, ntc_delete_packet);
  }
  else if (part == 2) failures();
#ifdef NTC_CHECK_ERROR
  else exceptions();
#endif
  sym_cover("end");
}
