// C library functions the executor has no built-in for.
#include <stddef.h>
#define NB __attribute__((no_builtin))
extern "C" {
void* malloc(size_t); void free(void*); [[noreturn]] void abort();
NB void* memchr(const void* p, int c, size_t n)
{ const unsigned char* s = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) if (s[i] == static_cast<unsigned char>(c)) return const_cast<unsigned char*>(s + i); return nullptr; }
NB int strcmp(const char* a, const char* b) { for (; *a && *a == *b; ++a, ++b) ; return static_cast<unsigned char>(*a) - static_cast<unsigned char>(*b); }
NB int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; ++i) { if (a[i] != b[i]) return static_cast<unsigned char>(a[i]) - static_cast<unsigned char>(b[i]); if (!a[i]) break; } return 0; }
NB char* strcpy(char* d, const char* s) { size_t i = 0; for (;; ++i) { d[i] = s[i]; if (!s[i]) break; } return d; }
NB char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
NB size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) ++i; return i; }
NB char* strchr(const char* s, int c) { for (;; ++s) { if (*s == static_cast<char>(c)) return const_cast<char*>(s); if (!*s) return nullptr; } }
NB char* strdup(const char* s) { size_t n = 0; while (s[n]) ++n; char* d = static_cast<char*>(malloc(n + 1)); for (size_t i = 0; i <= n; ++i) d[i] = s[i]; return d; }
NB void* calloc(size_t n, size_t m) { char* p = static_cast<char*>(malloc(n * m)); for (size_t i = 0; i < n * m; ++i) p[i] = 0; return p; }
NB void* aligned_alloc(size_t, size_t n) { return malloc(n); }      // objects are 16-byte aligned
NB void exit(int) { abort(); }
int printf(const char*, ...) { return 0; }
int fprintf(void*, const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int putchar(int c) { return c; }
int fflush(void*) { return 0; }
void* stderr; void* stdout;
char* getenv(const char*) { return nullptr; }
}
