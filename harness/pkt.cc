// Packets as containers: every sequence of operations against an array.
#include "common.hh"
using namespace h;

namespace {
constexpr unsigned MAX = 1100;
struct model
{
  unsigned n = 0;
  char b[MAX];
  bool known[MAX];      // resize() does not initialize
  void grow(unsigned m, bool init, char v)
  {
    for (unsigned i = n; i < m; ++i) { b[i] = v; known[i] = init; }
    n = m;
  }
};

void same(const ntc::packet& p, const model& m)
{
  sym_check(p.size() == m.n, "a packet has another size than its operations give");
  sym_check(p.empty() == (m.n == 0), "empty() does not tell whether the size is 0");
  sym_check(static_cast<std::size_t>(p.end() - p.begin()) == m.n && static_cast<std::size_t>(p.cend() - p.cbegin()) == m.n, "the iterators do not enclose the content");
  sym_check(m.n == 0 || &*p.begin() == p.data(), "data() is not where the content starts");
  sym_check(m.n == 0 || sym_ok(p.data(), m.n), "the content lies outside the packet's memory");
  sym_check(p.capacity() >= m.n && p.capacity() < (1u << 20), "the capacity is less than the size");
  sym_check(reinterpret_cast<std::uintptr_t>(p.symbol()) % 16 == 0, "the symbol is not aligned on 16 bytes");
  sym_check(p.symbol() == p.data() + 7, "the symbol does not follow the 7 bytes of the header");
  if (p.size() != m.n) return;
  unsigned d = 0;
  for (unsigned i = 0; i < m.n; ++i) if (m.known[i]) d |= static_cast<unsigned char>(p[i]) ^ static_cast<unsigned char>(m.b[i]);
  sym_check(d == 0, "a packet has another content than its operations give");
}
const unsigned sizes[2][5] = {{0, 1, 8, 20, 70}, {16, 300, 17, 15, 1030}};
unsigned nsizes, set_of;
unsigned some_size() { return sizes[set_of][sym_choice(nsizes, "size")]; }
char byte() { char c; sym_bytes(&c, 1, "v"); return c; }

ntc::packet make(model& m, unsigned kind)
{
  switch (kind)
  {
    case 0: return ntc::packet{};
    case 1: { const unsigned n = some_size(); m.grow(n, false, 0); return ntc::packet(static_cast<std::size_t>(n)); }
    case 2: { const unsigned n = some_size(); const char v = byte(); m.grow(n, true, v); return ntc::packet(static_cast<std::size_t>(n), v); }
    case 3: { const unsigned n = some_size(); char t[MAX]; sym_bytes(t, n, "init"); m.grow(n, true, 0); for (unsigned i = 0; i < n; ++i) m.b[i] = t[i]; return ntc::packet(t, t + n); }
    default: { const char a = byte(), b = byte(), c = byte(); m.grow(3, true, 0); m.b[0] = a; m.b[1] = b; m.b[2] = c; return ntc::packet{a, b, c}; }
  }
}
void set(model& m, const char* t, unsigned n) { m.n = 0; m.grow(n, true, 0); for (unsigned i = 0; i < n; ++i) m.b[i] = t[i]; }

void step(ntc::packet& p, model& m)
{
  switch (sym_choice(12, "operation"))
  {
    case 0: { const char v = byte(); p.push_back(v); m.grow(m.n + 1, true, v); break; }
    case 1: { const unsigned n = some_size(); p.resize(n); m.grow(n, false, 0); break; }
    case 2: { const unsigned n = some_size(); const char v = byte(); p.resize(n, v); m.grow(n, true, v); break; }
    case 3: { const unsigned n = some_size(); const char v = byte(); p.assign(static_cast<std::size_t>(n), v); m.n = 0; m.grow(n, true, v); break; }
    case 4: { const unsigned n = some_size(); char t[MAX]; sym_bytes(t, n, "range"); p.assign(t, t + n); set(m, t, n); break; }
    case 5: { const char t[2] = {byte(), byte()}; p.assign({t[0], t[1]}); set(m, t, 2); break; }
    case 6:
    {
      const unsigned n = static_cast<unsigned>(sym_choice(nsizes, "reserve")) * (set_of ? 299 : 37);
      const std::size_t cap = p.capacity();
      const char* at = p.data();
      p.reserve(n);
      sym_check(p.capacity() >= n, "reserve does not give the capacity asked for");
      sym_check(n > cap || (p.capacity() == cap && p.data() == at), "reserve changes a packet that is large enough");
      // What is reserved can be used without moving the content.
      at = p.data();
      const std::size_t old = p.size();
      if (n >= old) { p.resize(n); sym_check(p.data() == at, "growing up to the reserved capacity moves the content"); p.resize(old); }
      sym_cover("reserve");
      break;
    }
    case 7:
    {
      const std::size_t cap = p.capacity();
      p.clear();
      sym_check(p.capacity() == cap, "clear changes the capacity");
      m.n = 0;
      break;
    }
    case 8: p.shrink_to_fit(); break;
    case 9:      // copies are independent
    {
      ntc::packet q(p);
      same(q, m);
      if (m.n) { q[0] = static_cast<char>(q[0] ^ 1); *(q.end() - 1) = static_cast<char>(q[m.n - 1] ^ 2); }
      q.push_back(1);
      same(p, m);
      ntc::packet r(static_cast<std::size_t>(3), 'x');
      r = p;
      p.clear();
      same(r, m);
      p = r;
      break;
    }
    case 10:     // moves take the content along
    {
      ntc::packet q(std::move(p));
      same(q, m);
      p = std::move(q);
      q.assign(static_cast<std::size_t>(2), 'y');      // a moved-from packet can be given a new content
      model t; t.grow(2, true, 'y');
      same(q, t);
      break;
    }
    default:     // writing through the accessors
      if (m.n == 0) break;
      {
        const unsigned i = sym_choice(3, "where") * (m.n - 1) / 2;
        const char v = byte();
        if (i & 1) p[i] = v; else p.data()[i] = v;
        m.b[i] = v; m.known[i] = true;
        *p.begin() = v; m.b[0] = v; m.known[0] = true;
      }
  }
}
}

extern "C" void harness()
{
  set_of = static_cast<unsigned>(sym_param("set", 0));
  nsizes = static_cast<unsigned>(sym_param("sizes", 4));
  const unsigned k = static_cast<unsigned>(sym_param("k", 2));
  {
    model m;
    ntc::packet p = make(m, static_cast<unsigned>(sym_param("ctor", 0)));
    same(p, m);
    for (unsigned s = 0; s < k; ++s) { step(p, m); same(p, m); }
    sym_trace(p.size());
    if (m.n && m.known[m.n - 1]) sym_trace(static_cast<unsigned char>(p[m.n - 1]));
    // Data given by the user.
    ntc::data d(static_cast<std::size_t>(m.n + 1));
    sym_check(reinterpret_cast<std::uintptr_t>(d.data()) % 16 == 0, "a datum's buffer is not aligned on 16 bytes");
    d.resize(m.n + 100);
    sym_check(reinterpret_cast<std::uintptr_t>(d.data()) % 16 == 0, "a datum's buffer is not aligned on 16 bytes");
  }
  sym_cover("end");
}
