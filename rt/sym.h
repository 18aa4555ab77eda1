// Harness interface of the symbolic executor (engine/symex.cc).  The same calls are implemented
// natively in rt/native.cc, where they read the values of a counterexample from a file.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_int(const char* name, unsigned bits);            // arbitrary value of `bits` bits
void     sym_bytes(void* p, size_t n, const char* name);      // arbitrary bytes
unsigned sym_choice(unsigned n, const char* name);            // arbitrary value in [0,n), forked
void     sym_assume(int c);
void     sym_check(int c, const char* msg);                   // the assertion
void     sym_cover(const char* name);                         // reachability witness
void     sym_trace(uint64_t v);                               // observable, compared on replay
int64_t  sym_param(const char* name, int64_t dflt);           // bound given by the driver
uint64_t sym_concrete(uint64_t v);                            // enumerate all feasible values
int      sym_ok(const void* p, size_t n);                     // p[0,n) is valid live memory
uint64_t sym_heap(void);                                      // live heap objects
uint64_t sym_witness(unsigned bits);                          // value determined by the assumption that follows
int      sym_is_symbolic(uint64_t v);                         // 0 natively
int      sym_symbolic(void);                                  // 1 in the executor, 0 natively
void     sym_end(void);                                       // end of this path
extern int64_t sym_alloc_fail;                                // n >= 0: the n-th allocation from now fails
extern int64_t sym_clock_ns;                                  // value of steady_clock::now()
}
