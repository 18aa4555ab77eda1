// Standard streams for the symbolic executor: libstdc++'s own templates, instantiated here, over
// stand-ins for what exists only in its binary (locales, ios_base).
#include <bits/c++config.h>
#include <istream>
#include <ostream>
#include <streambuf>

template class std::basic_streambuf<char>;
template class std::basic_ios<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;

static const void* const none[4] = {nullptr, nullptr, nullptr, nullptr};
static const struct { long refs; const void* const* facets; unsigned long size; const void* const* caches; const void* names; } no_facets_impl = {1, none, 0, none, nullptr};
static const void* const no_facets = &no_facets_impl;
extern "C" {
unsigned long rt_id(const void*) __asm__("_ZNKSt6locale2id5_M_idEv");
unsigned long rt_id(const void*) { return 0; }
bool rt_unc() __asm__("_ZSt18uncaught_exceptionv");
bool rt_unc() { return false; }
void rt_loc0(void*) __asm__("_ZNSt6localeC1Ev");
void rt_loc0(void* p) { *static_cast<const void**>(p) = no_facets; }
void rt_loc1(void*, const void*) __asm__("_ZNSt6localeC1ERKS_");
void rt_loc1(void* p, const void*) { *static_cast<const void**>(p) = no_facets; }
void rt_loc2(void*) __asm__("_ZNSt6localeD1Ev");
void rt_loc2(void*) {}
void* rt_loc3(void* p, const void*) __asm__("_ZNSt6localeaSERKS_");
void* rt_loc3(void* p, const void*) { return p; }
}
namespace std {
ios_base::ios_base() noexcept : _M_precision(6), _M_width(0), _M_flags(), _M_exception(), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(0), _M_word(nullptr) {}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
}
