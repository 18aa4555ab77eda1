// Compares rt/gf_model.cc with the real libgf_complete (loaded from its shared library).
#include "../rt/gf_model.cc"
extern "C" { uint64_t sym_witness(unsigned) { abort(); } int sym_is_symbolic(uint64_t) { return 0; } void sym_assume(int) {} }
#include <dlfcn.h>
#include <cstdio>
#include <cstring>
#include <initializer_list>
#include <sys/wait.h>
#include <unistd.h>
static uint64_t rs = 88172645463325252ull;
static uint32_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return static_cast<uint32_t>(rs >> 16); }
static bool aborts(gf_t* g, char* s, char* d, unsigned n, unsigned c)
{
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) { if (!freopen("/dev/null", "w", stderr)) _exit(2); g->multiply_region.w32(g, s, d, c, static_cast<int>(n), 1); _exit(0); }
  int st; waitpid(p, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
int main()
{
  void* h = dlopen("libgf_complete.so.1", RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
  if (!h) h = dlopen("libgf_complete.so", RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND);
  if (!h) { printf("no library: %s\n", dlerror()); return 2; }
  auto real_init = reinterpret_cast<int (*)(gf_t*, int)>(dlsym(h, "gf_init_easy"));
  unsigned long n = 0, bad = 0;
  const int ws[] = {4, 8, 16, 32};
  for (int w : ws)
  {
    gf_t a, b;
    if (!real_init(&a, w) || !gf_init_easy(&b, w)) { printf("init\n"); return 2; }
    const uint32_t m = w == 32 ? 0xffffffffu : (1u << w) - 1;
    auto pair = [&](uint32_t x, uint32_t y)
    {
      x &= m; y &= m;
      ++n; if (a.multiply.w32(&a, x, y) != b.multiply.w32(&b, x, y)) { ++bad; printf("mul w%d %x %x\n", w, x, y); }
      if (y) { ++n; if (a.divide.w32(&a, x, y) != b.divide.w32(&b, x, y)) { ++bad; printf("div w%d %x %x\n", w, x, y); } }
    };
    if (w <= 8) for (uint32_t x = 0; x <= m; ++x) for (uint32_t y = 0; y <= m; ++y) pair(x, y);
    else
    {
      // bilinear in the bits: all pairs of powers of two determine the product
      for (int i = 0; i < w; ++i) for (int j = 0; j < w; ++j) pair(1u << i, 1u << j);
      if (w == 16) for (uint32_t y = 1; y <= m; ++y) pair(1, y);
      for (int i = 0; i < 100000; ++i) pair(rnd(), rnd());
    }
    const int u = w <= 8 ? 1 : w / 8;
    for (int len = 0; len <= 150; len += u)
      for (int off = 0; off < 16; off += 16)
        for (int t = 0; t < 12; ++t)
          for (int add = 0; add < 2; ++add)
          {
            alignas(32) char s[256], d1[256], d2[256];
            for (int i = 0; i < 256; ++i) { s[i] = static_cast<char>(rnd()); d1[i] = d2[i] = static_cast<char>(rnd()); }
            const uint32_t c = (t == 0 ? 0u : t == 1 ? 1u : rnd()) & m;
            if (c == 0 && !add) continue;    // never asked for by netcode
            a.multiply_region.w32(&a, s + off, d1 + off, c, len, add);
            b.multiply_region.w32(&b, s + off, d2 + off, c, len, add);
            ++n;
            if (memcmp(d1, d2, 256)) { ++bad; printf("region w%d len %d c %x add %d\n", w, len, c, add); }
          }
    alignas(32) char s[256], d[256];
    for (int o = 0; o < 16; ++o)
      for (int p = 0; p < 16; ++p)
        for (unsigned len : {0u, 1u, 4u, 32u, 6u, 7u, 15u, 16u}) for (unsigned c : {0u, 1u, 3u})
        {
          ++n;
          if (aborts(&a, s + o, d + p, len, c) != aborts(&b, s + o, d + p, len, c)) { ++bad; printf("abort w%d src%%16=%d dst%%16=%d len=%u c=%u real=%d\n", w, o, p, len, c, aborts(&a, s + o, d + p, len, c)); }
        }
  }
  printf("%lu comparisons, %lu differences\n", n, bad);
  return bad ? 1 : 0;
}
