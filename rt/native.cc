// Native implementation of the harness interface: values come from a file written by the symbolic
// executor (lines "name width count hex..."), in call order.
//   usage: prog <inputs> [-P name=value]...
// Output: "TRACE <hex>" lines, "FAIL <msg>" for a failed check (exit 1), "END" at the end.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <exception>

extern "C" { int64_t sym_clock_ns = 0; int64_t sym_alloc_fail = -1; }
#ifdef NTC_ALLOC_FAIL
#include <new>
#include <dlfcn.h>
static bool alloc_fails() { return sym_alloc_fail >= 0 && sym_alloc_fail-- == 0; }
void* operator new(size_t n) { if (alloc_fails()) throw std::bad_alloc(); if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { if (alloc_fails()) throw std::bad_alloc(); if (void* p = malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc_fails() ? nullptr : malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc_fails() ? nullptr : malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
extern "C" int posix_memalign(void** p, size_t a, size_t n) noexcept
{
  static auto real = reinterpret_cast<int (*)(void**, size_t, size_t)>(dlsym(RTLD_NEXT, "posix_memalign"));
  return alloc_fails() ? 12 : real(p, a, n);
}
#endif
extern "C" {
int64_t rt_steady_now() __asm__("_ZNSt6chrono3_V212steady_clock3nowEv");
int64_t rt_steady_now() { return sym_clock_ns; }
int64_t rt_system_now() __asm__("_ZNSt6chrono3_V212system_clock3nowEv");
int64_t rt_system_now() { return sym_clock_ns; }
}

extern "C" void HARNESS();

namespace {
struct input { std::string name; unsigned width; std::vector<uint64_t> v; };
std::vector<input> inputs;
size_t pos;
std::map<std::string, long long> params;
input* next(const char* name)
{
  if (pos >= inputs.size()) return nullptr;
  if (inputs[pos].name != name) { printf("DIVERGED expected %s got %s\n", inputs[pos].name.c_str(), name); fflush(stdout); _Exit(4); }
  return &inputs[pos++];
}
}

extern "C" {
uint64_t sym_int(const char* name, unsigned bits)
{
  auto* i = next(name);
  uint64_t v = i && !i->v.empty() ? i->v[0] : 0;
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void sym_bytes(void* p, size_t n, const char* name)
{
  auto* in = next(name);
  for (size_t k = 0; k < n; ++k) static_cast<unsigned char*>(p)[k] = in && k < in->v.size() ? static_cast<unsigned char>(in->v[k]) : 0;
}
unsigned sym_choice(unsigned n, const char* name)
{
  auto* i = next(name);
  unsigned v = i && !i->v.empty() ? static_cast<unsigned>(i->v[0]) : 0;
  return n ? v % n : 0;
}
void sym_assume(int c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(5); } }
void sym_check(int c, const char* msg)
{
  if (!c) { printf("FAIL %s\n", msg); fflush(stdout); _Exit(1); }
}
void sym_cover(const char*) {}
void sym_trace(uint64_t v) { printf("TRACE %llx\n", static_cast<unsigned long long>(v)); }
int64_t sym_param(const char* name, int64_t d) { auto it = params.find(name); return it == params.end() ? d : it->second; }
uint64_t sym_concrete(uint64_t v) { return v; }
int sym_ok(const void*, size_t) { return 1; }
uint64_t sym_heap(void) { return 0; }
uint64_t sym_witness(unsigned) { abort(); }
int sym_is_symbolic(uint64_t) { return 0; }
int sym_symbolic(void) { return 0; }
void sym_end(void) { printf("END\n"); fflush(stdout); _Exit(0); }
}

int main(int argc, char** argv)
{
  setvbuf(stdout, nullptr, _IOLBF, 4096);
  for (int a = 2; a + 1 < argc; a += 2)
    if (!strcmp(argv[a], "-P")) { std::string s = argv[a + 1]; auto e = s.find('='); params[s.substr(0, e)] = atoll(s.c_str() + e + 1); }
  std::ifstream f(argv[1]);
  std::string line;
  while (std::getline(f, line))
  {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    input i; size_t n;
    is >> i.name >> i.width >> n;
    std::string h;
    while (is >> h) i.v.push_back(strtoull(h.c_str(), nullptr, 16));
    inputs.push_back(i);
  }
  try { HARNESS(); }
  catch (const std::exception& e) { printf("EXC %s\n", e.what()); fflush(stdout); _Exit(6); }
  catch (...) { printf("EXC ?\n"); fflush(stdout); _Exit(6); }
  printf("END\n");
  fflush(stdout);
  return 0;
}
