// Hash-consed bit-vector expressions with local simplification, and their lowering to z3.
#pragma once
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

namespace sym {

enum K : uint8_t {
  Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
  FAdd, FSub, FMul, FDiv, FOlt, FOle, FOeq, FUno, UIToFP, SIToFP, FPToUI, FPToSI, FCeil
};

struct Expr;
using E = const Expr*;

struct Expr {
  K k;
  uint8_t w;        // width in bits, 1..64
  uint32_t id;
  uint64_t c;       // constant value / variable index / extract low bit
  E a = nullptr, b = nullptr, d = nullptr;
  mutable uint64_t egen = 0, eval = 0;   // evaluation memo
  mutable Z3_ast z = nullptr;
  mutable const std::vector<uint32_t>* vars = nullptr;
};

inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext(uint64_t v, unsigned w) {
  return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w);
}
inline double asD(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
inline uint64_t fromD(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }

uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w);

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(K k, E a, E b);          // arithmetic / logic / comparison
E mkIte(E c, E t, E f);
E mkConcat(E hi, E lo);
E mkExtract(E e, unsigned lo, unsigned w);
E mkZExt(E e, unsigned w);
E mkSExt(E e, unsigned w);
E mkNot(E e);                    // bitwise; logical for width 1
E mkFUn(K k, E a, unsigned w);
const std::string& varName(uint32_t idx);
unsigned varWidth(uint32_t idx);
size_t nbVars();
size_t nbExprs();
const std::vector<uint32_t>& varsOf(E e);

struct Sum { uint64_t c = 0; std::vector<std::pair<E, uint64_t>> t; };
const Sum& sumOf(E e);           // e as a sum of multiples of atoms

using Model = std::vector<uint64_t>;   // indexed by variable index
uint64_t evalExpr(E e, const Model& m, uint64_t gen);   // gen identifies the model
Z3_ast toZ3(Z3_context ctx, E e);
std::string toStr(E e, int depth = 6);
extern bool rawXor;   // keep exclusive ors as they are written (no linear normal form)

} // namespace sym
