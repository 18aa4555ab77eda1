#include "expr.hh"
#include <algorithm>
#include <deque>
#include <unordered_set>

namespace sym {

namespace {
struct Key {
  size_t operator()(E e) const {
    size_t h = e->k * 0x9e3779b97f4a7c15ull + e->w;
    auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
    mix(e->c); mix((uint64_t)e->a); mix((uint64_t)e->b); mix((uint64_t)e->d);
    return h;
  }
};
struct Same {
  bool operator()(E x, E y) const {
    return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d;
  }
};
std::unordered_set<E, Key, Same> table;
std::deque<Expr> arena;
std::vector<std::string> names;
std::vector<unsigned> widths;
std::unordered_map<std::string, uint32_t> byName;

E intern(K k, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr) {
  assert(w >= 1 && w <= 64);
  Expr t; t.k = k; t.w = (uint8_t)w; t.c = c; t.a = a; t.b = b; t.d = d;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  t.id = (uint32_t)arena.size();
  arena.push_back(t);
  E e = &arena.back();
  table.insert(e);
  return e;
}
bool isC(E e) { return e->k == Const; }
bool isC(E e, uint64_t v) { return e->k == Const && e->c == v; }
} // namespace
E mkConst(uint64_t v, unsigned w);

size_t nbVars() { return names.size(); }
size_t nbExprs() { return arena.size(); }
const std::string& varName(uint32_t i) { return names[i]; }
unsigned varWidth(uint32_t i) { return widths[i]; }

uint64_t foldBin(K k, uint64_t a, uint64_t b, unsigned w) {
  const uint64_t m = mask(w);
  switch (k) {
    case Add: return (a + b) & m;
    case Sub: return (a - b) & m;
    case Mul: return (a * b) & m;
    case UDiv: return b == 0 ? m : a / b;
    case URem: return b == 0 ? a : a % b;
    case SDiv: {
      if (b == 0) return sext(a, w) < 0 ? 1 : m;
      int64_t x = sext(a, w), y = sext(b, w);
      if (y == -1) return (0 - a) & m;
      return (uint64_t)(x / y) & m;
    }
    case SRem: {
      if (b == 0) return a;
      int64_t x = sext(a, w), y = sext(b, w);
      if (y == -1) return 0;
      return (uint64_t)(x % y) & m;
    }
    case And: return a & b;
    case Or: return a | b;
    case Xor: return a ^ b;
    case Shl: return b >= w ? 0 : (a << b) & m;
    case LShr: return b >= w ? 0 : a >> b;
    case AShr: return (uint64_t)(sext(a, w) >> (b >= w ? w - 1 : b)) & m;
    case Eq: return a == b;
    case Ult: return a < b;
    case Ule: return a <= b;
    case Slt: return sext(a, w) < sext(b, w);
    case Sle: return sext(a, w) <= sext(b, w);
    case FAdd: return fromD(asD(a) + asD(b));
    case FSub: return fromD(asD(a) - asD(b));
    case FMul: return fromD(asD(a) * asD(b));
    case FDiv: return fromD(asD(a) / asD(b));
    case FOlt: return asD(a) < asD(b);
    case FOle: return asD(a) <= asD(b);
    case FOeq: return asD(a) == asD(b);
    case FUno: return std::isnan(asD(a)) || std::isnan(asD(b));
    default: assert(false); return 0;
  }
}

// ---- linear normal form: every bit as an exclusive or of atom bits ------------------------------
// An atom bit is bit i of a variable or of a non-linear expression.  Equal rows mean equal values,
// so expressions that are equal as GF(2)-linear functions are interned as the same node.
struct Row { bool c = false; std::vector<uint64_t> a; };
using Rows = std::vector<Row>;
static bool operator==(const Row& x, const Row& y) { return x.c == y.c && x.a == y.a; }
static std::unordered_map<E, Rows> linMemo;
static Row rowXor(const Row& x, const Row& y) {
  Row r; r.c = x.c != y.c;
  r.a.reserve(x.a.size() + y.a.size());
  std::set_symmetric_difference(x.a.begin(), x.a.end(), y.a.begin(), y.a.end(), std::back_inserter(r.a));
  return r;
}
static const Rows& lin(E e) {
  auto it = linMemo.find(e);
  if (it != linMemo.end()) return it->second;
  Rows r(e->w);
  auto atom = [&](unsigned i) { r[i].a = {(uint64_t)e->id << 6 | i}; };
  switch (e->k) {
    case Const: for (unsigned i = 0; i < e->w; ++i) r[i].c = (e->c >> i) & 1; break;
    case Xor: { const Rows &x = lin(e->a), &y = lin(e->b); for (unsigned i = 0; i < e->w; ++i) r[i] = rowXor(x[i], y[i]); break; }
    case And: case Or: {
      const Rows &x = lin(e->a), &y = lin(e->b);
      const bool zero = e->k == Or;    // absorbing constant is !zero for Or, neutral is zero
      for (unsigned i = 0; i < e->w; ++i) {
        if (x[i].a.empty()) { if (x[i].c == !zero) r[i] = y[i]; else r[i].c = x[i].c; }
        else if (y[i].a.empty()) { if (y[i].c == !zero) r[i] = x[i]; else r[i].c = y[i].c; }
        else if (x[i] == y[i]) r[i] = x[i];
        else atom(i);
      }
      break;
    }
    case Concat: { const Rows &h = lin(e->a), &l = lin(e->b);
      for (unsigned i = 0; i < e->w; ++i) r[i] = i < e->b->w ? l[i] : h[i - e->b->w];
      break; }
    case Extract: { const Rows& x = lin(e->a); for (unsigned i = 0; i < e->w; ++i) r[i] = x[i + e->c]; break; }
    case ZExt: { const Rows& x = lin(e->a); for (unsigned i = 0; i < e->a->w; ++i) r[i] = x[i]; break; }
    case SExt: { const Rows& x = lin(e->a); for (unsigned i = 0; i < e->w; ++i) r[i] = x[std::min<unsigned>(i, e->a->w - 1)]; break; }
    case Ite:
      if (isC(e->b) && isC(e->d)) {
        const Rows& x = lin(e->a);
        for (unsigned i = 0; i < e->w; ++i) {
          bool t = (e->b->c >> i) & 1, f = (e->d->c >> i) & 1;
          if (t == f) r[i].c = t; else { r[i] = x[0]; r[i].c = r[i].c != f; }
        }
      } else for (unsigned i = 0; i < e->w; ++i) atom(i);
      break;
    default: for (unsigned i = 0; i < e->w; ++i) atom(i);
  }
  return linMemo.emplace(e, std::move(r)).first->second;
}
static std::unordered_map<uint64_t, std::vector<E>> linReps;
bool rawXor = false;
static E mkXorNode(E a, E b) {
  const unsigned w = a->w;
  if (rawXor) {
    if (a == b) return mkConst(0, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b, 0)) return a;
    if (isC(a)) return mkConst(a->c ^ b->c, w);
    return intern(Xor, w, 0, a, b);
  }
  const Rows &x = lin(a), &y = lin(b);
  Rows r(w);
  bool allC = true; uint64_t cv = 0;
  for (unsigned i = 0; i < w; ++i) {
    r[i] = rowXor(x[i], y[i]);
    if (!r[i].a.empty()) allC = false; else if (r[i].c) cv |= 1ull << i;
  }
  if (allC) return mkConst(cv, w);
  bool proj = r[0].a.size() == 1 && !r[0].c;
  for (unsigned i = 1; proj && i < w; ++i) proj = r[i].a.size() == 1 && !r[i].c && r[i].a[0] == r[0].a[0] + i && (r[i].a[0] >> 6) == (r[0].a[0] >> 6);
  if (proj) return mkExtract(&arena[r[0].a[0] >> 6], (unsigned)(r[0].a[0] & 63), w);
  uint64_t h = w;
  for (auto& q : r) { h = (h ^ (q.c ? 0x51ull : 0x17ull)) * 1099511628211ull; for (auto t : q.a) { h = (h ^ t) * 1099511628211ull; h ^= h >> 29; } h *= 0x9e3779b97f4a7c15ull; }
  auto& v = linReps[h];
  for (E e : v) if (e->w == w && lin(e) == r) return e;
  E n = intern(Xor, w, 0, a, b);
  linMemo.emplace(n, std::move(r));
  v.push_back(n);
  return n;
}

E mkConst(uint64_t v, unsigned w) { return intern(Const, w, v & mask(w)); }

// ---- sums: constant plus multiples of atoms, modulo 2^w ------------------------------------------
static std::unordered_map<E, Sum> sumMemo;
const Sum& sumOf(E e) {
  auto it = sumMemo.find(e);
  if (it != sumMemo.end()) return it->second;
  Sum r;
  auto merge = [&](const Sum& x, const Sum& y, uint64_t f) {
    Sum z; z.c = (x.c + f * y.c) & mask(e->w);
    size_t i = 0, j = 0;
    while (i < x.t.size() || j < y.t.size()) {
      if (j == y.t.size() || (i < x.t.size() && x.t[i].first->id < y.t[j].first->id)) z.t.push_back(x.t[i++]);
      else if (i == x.t.size() || y.t[j].first->id < x.t[i].first->id) { uint64_t k = (f * y.t[j].second) & mask(e->w); if (k) z.t.emplace_back(y.t[j].first, k); ++j; }
      else { uint64_t k = (x.t[i].second + f * y.t[j].second) & mask(e->w); if (k) z.t.emplace_back(x.t[i].first, k); ++i; ++j; }
    }
    return z;
  };
  if (e->k == Const) r.c = e->c;
  else if (e->k == Add) r = merge(sumOf(e->a), sumOf(e->b), 1);
  else if (e->k == Sub) r = merge(sumOf(e->a), sumOf(e->b), ~0ull);
  else if (e->k == Mul && isC(e->b)) r = merge(Sum{}, sumOf(e->a), e->b->c);
  else r.t.emplace_back(e, 1);
  return sumMemo.emplace(e, std::move(r)).first->second;
}
static E mkSumNode(K k, E a, E b) {
  const unsigned w = a->w;
  E raw = intern(k, w, 0, a, b);
  Sum s = sumOf(raw);
  if (s.t.size() > 40) return raw;
  E r = nullptr;
  for (int neg = 0; neg < 2; ++neg)
    for (auto& t : s.t) {
      const bool isNeg = t.second == mask(w);
      if (isNeg != (neg == 1)) continue;
      if (isNeg) { r = r ? intern(Sub, w, 0, r, t.first) : intern(Sub, w, 0, mkConst(0, w), t.first); continue; }
      E m = t.second == 1 ? t.first : (t.second & (t.second - 1)) == 0 ? mkBin(Shl, t.first, mkConst((uint64_t)__builtin_ctzll(t.second), w)) : intern(Mul, w, 0, t.first, mkConst(t.second, w));
      r = r ? intern(Add, w, 0, r, m) : m;
    }
  if (!r) return mkConst(s.c, w);
  if (s.c) r = intern(Add, w, 0, r, mkConst(s.c, w));
  if (r->k != Const) sumMemo.emplace(r, std::move(s));
  return r;
}

// ---- comparisons of sums that cannot wrap ---------------------------------------------------------
// a < b over sums is brought to the form  (terms with positive sign) < (terms with negative sign),
// so that x - y >= z and y + z <= x become the same expression when no side can wrap around.
using I128 = __int128;
static uint64_t upper(E e, int depth = 0) {
  if (isC(e)) return e->c;
  if (depth < 6) switch (e->k) {
    case ZExt: return upper(e->a, depth + 1);
    case Concat: return (upper(e->a, depth + 1) << e->b->w) | (isC(e->b) ? e->b->c : mask(e->b->w));
    case And: return isC(e->b) ? e->b->c : std::min(upper(e->a, depth + 1), upper(e->b, depth + 1));
    case Ite: return std::max(upper(e->b, depth + 1), upper(e->d, depth + 1));
    case URem: if (isC(e->b) && e->b->c) return e->b->c - 1; break;
    case UDiv: if (isC(e->b) && e->b->c) return upper(e->a, depth + 1) / e->b->c; break;
    default: break;
  }
  return mask(e->w);
}
struct Lin { I128 c = 0; std::vector<std::pair<E, I128>> t; };
// The exact value of e, if it is a sum that provably stays within [lo, hi].
static bool exactLin(E e, I128 lo, I128 hi, bool sgn, Lin& r) {
  if (isC(e)) { r.c = sgn ? (I128)sext(e->c, e->w) : (I128)e->c; return true; }
  const Sum& s = sumOf(e);
  if (s.t.size() > 12) return false;
  I128 a = sext(s.c, e->w), b = a;
  r.c = a;
  for (auto& t : s.t) {
    const I128 k = sext(t.second, e->w);
    if (k > ((I128)1 << 40) || k < -((I128)1 << 40)) return false;
    const I128 u = (I128)upper(t.first) * k;
    (u > 0 ? b : a) += u;
    r.t.emplace_back(t.first, k);
  }
  return a >= lo && b <= hi;
}
static bool nonNeg(E e) {
  if (upper(e) < (1ull << (e->w - 1))) return true;
  Lin l;
  return (e->k == Add || e->k == Sub || e->k == Mul) && exactLin(e, 0, ((I128)1 << (e->w - 1)) - 1, true, l);
}
static E mkSide(const Lin& l, int sign, unsigned w) {
  E r = nullptr; I128 top = 0;
  for (auto& t : l.t) {
    const I128 k = t.second * sign;
    if (k <= 0) continue;
    top += k * (I128)upper(t.first);
    E m = mkBin(Mul, t.first, mkConst((uint64_t)k, w));
    r = r ? mkBin(Add, r, m) : m;
  }
  const I128 c = l.c * sign;
  if (c > 0) { top += c; E m = mkConst((uint64_t)c, w); r = r ? mkBin(Add, r, m) : m; }
  if (top > (I128)mask(w)) return nullptr;
  return r ? r : mkConst(0, w);
}
static E mkCompareSums(K k, E a, E b) {
  const unsigned w = a->w;
  if ((k == Slt || k == Sle) && w >= 32 && nonNeg(a) && nonNeg(b)) return mkBin(k == Slt ? Ult : Ule, a, b);
  // x / c < p is x < p * c
  if ((k == Ult || k == Ule) && w >= 32) {
    const bool l = a->k == UDiv && isC(a->b) && a->b->c, r = b->k == UDiv && isC(b->b) && b->b->c;
    if (l != r) {
      E q = l ? a : b, p = l ? b : a;
      const bool up = l == (k == Ule);                    // p + 1 is meant
      if (((I128)upper(p) + up) * (I128)q->b->c <= (I128)mask(w)) {
        E m = mkBin(Mul, up ? mkBin(Add, p, mkConst(1, w)) : p, q->b);
        return l ? mkBin(Ult, q->a, m) : mkBin(Ule, m, q->a);
      }
    }
  }
  auto sum = [](E e) { return e->k == Add || e->k == Sub || e->k == Mul; };
  if (w < 32 || (!sum(a) && !sum(b))) return nullptr;
  const bool sgn = k == Slt || k == Sle;
  const I128 lo = sgn ? -((I128)1 << (w - 1)) : 0, hi = sgn ? ((I128)1 << (w - 1)) - 1 : (I128)mask(w);
  Lin x, y, d;
  if (!exactLin(a, lo, hi, sgn, x) || !exactLin(b, lo, hi, sgn, y)) return nullptr;
  d.c = x.c - y.c;
  size_t i = 0, j = 0;
  while (i < x.t.size() || j < y.t.size()) {
    if (j == y.t.size() || (i < x.t.size() && x.t[i].first->id < y.t[j].first->id)) d.t.push_back(x.t[i++]);
    else if (i == x.t.size() || y.t[j].first->id < x.t[i].first->id) { d.t.emplace_back(y.t[j].first, -y.t[j].second); ++j; }
    else { const I128 c = x.t[i].second - y.t[j].second; if (c) d.t.emplace_back(x.t[i].first, c); ++i; ++j; }
  }
  E p = mkSide(d, 1, w), n = mkSide(d, -1, w);
  if (!p || !n) return nullptr;
  const K u = (k == Slt || k == Ult) ? Ult : Ule;
  if (p == a && n == b && u == k) return nullptr;
  return mkBin(u, p, n);
}

E mkVar(const std::string& name, unsigned w) {
  auto it = byName.find(name);
  if (it != byName.end()) {
    assert(widths[it->second] == w);
    return intern(Var, w, it->second);
  }
  uint32_t idx = (uint32_t)names.size();
  names.push_back(name); widths.push_back(w); byName[name] = idx;
  return intern(Var, w, idx);
}

E mkNot(E e) { return mkBin(Xor, e, mkConst(~0ull, e->w)); }

static bool commutes(K k) { return k == Add || k == Mul || k == And || k == Or || k == Xor || k == Eq; }

E mkBin(K k, E a, E b) {
  assert(a->w == b->w);
  const unsigned w = a->w;
  const bool cmp = (k >= Eq && k <= Sle) || (k >= FOlt && k <= FUno);
  const unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) return mkConst(foldBin(k, a->c, b->c, w), rw);
  if (commutes(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);   // constants to the right
  switch (k) {
    case Add:
      if (isC(b, 0)) return a;
      if (w == 1) return mkBin(Xor, a, b);
      return mkSumNode(Add, a, b);
    case Sub:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(Add, a, mkConst(0 - b->c, w));
      if (isC(a, 0) && b->k == ZExt && b->a->w == 1) return mkSExt(b->a, w);
      if (w == 1) return mkBin(Xor, a, b);
      return mkSumNode(Sub, a, b);
    case Mul:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && (b->c & (b->c - 1)) == 0) return mkBin(Shl, a, mkConst((uint64_t)__builtin_ctzll(b->c), w));
      break;
    case UDiv:
      if (isC(b, 1)) return a;
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(LShr, a, mkConst((uint64_t)__builtin_ctzll(b->c), w));
      break;
    case SDiv:
      if (isC(b) && sext(b->c, w) > 0 && w > 1 && nonNeg(a)) return mkBin(UDiv, a, b);
      break;
    case URem:
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(And, a, mkConst(b->c - 1, w));
      break;
    case And:
      if (a == b) return a;
      if (isC(b, 0)) return b;
      if (isC(b, mask(w))) return a;
      if (isC(b) && a->k == And && isC(a->b)) return mkBin(And, a->a, mkConst(a->b->c & b->c, w));
      if (isC(b) && a->k == ZExt) {
        unsigned n = a->a->w;
        return mkZExt(mkBin(And, a->a, mkConst(b->c, n)), w);
      }
      if (isC(b) && a->k == SExt && a->a->w == 1) return mkIte(a->a, b, mkConst(0, w));
      if (isC(b) && a->k == Concat) {
        E lo = mkBin(And, a->b, mkConst(b->c, a->b->w));
        E hi = mkBin(And, a->a, mkConst(b->c >> a->b->w, a->a->w));
        return mkConcat(hi, lo);
      }
      // low mask
      if (isC(b) && (b->c & (b->c + 1)) == 0) return mkZExt(mkExtract(a, 0, (unsigned)__builtin_popcountll(b->c)), w);
      break;
    case Or:
      if (a == b) return a;
      if (isC(b, 0)) return a;
      if (isC(b, mask(w))) return b;
      // disjoint halves: (hi . 0) | zext(lo)
      if (a->k == Concat && b->k == ZExt && isC(a->b, 0) && b->a->w <= a->b->w) return mkConcat(a->a, mkZExt(b->a, a->b->w));
      if (b->k == Concat && a->k == ZExt && isC(b->b, 0) && a->a->w <= b->b->w) return mkConcat(b->a, mkZExt(a->a, b->b->w));
      if (a->k == Concat && b->k == Concat && a->a->w == b->a->w)
        return mkConcat(mkBin(Or, a->a, b->a), mkBin(Or, a->b, b->b));
      break;
    case Xor:
      if (a == b) return mkConst(0, w);
      if (isC(b, 0)) return a;
      if (isC(b) && a->k == Xor && isC(a->b)) return mkBin(Xor, a->a, mkConst(a->b->c ^ b->c, w));
      if (w == 1 && isC(b, 1)) {
        // not(x < y) == y <= x
        if (a->k == Ult) return mkBin(Ule, a->b, a->a);
        if (a->k == Ule) return mkBin(Ult, a->b, a->a);
        if (a->k == Slt) return mkBin(Sle, a->b, a->a);
        if (a->k == Sle) return mkBin(Slt, a->b, a->a);
      }
      if (a->k == ZExt && b->k == ZExt && a->a->w == b->a->w) return mkZExt(mkBin(Xor, a->a, b->a), w);
      if (a->k == Concat && b->k == Concat && a->a->w == b->a->w)
        return mkConcat(mkBin(Xor, a->a, b->a), mkBin(Xor, a->b, b->b));
      if (!isC(b)) {
        if (a->k == Xor && (a->a == b)) return a->b;
        if (a->k == Xor && (a->b == b)) return a->a;
        if (b->k == Xor && (b->a == a)) return b->b;
        if (b->k == Xor && (b->b == a)) return b->a;
      }
      return mkXorNode(a, b);
    case Shl:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkConst(0, (unsigned)b->c));
      }
      break;
    case LShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        return mkZExt(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
      }
      break;
    case AShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        unsigned s = (unsigned)std::min<uint64_t>(b->c, w - 1);
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case Eq:
      if (a == b) return mkConst(1, 1);
      if (w == 1 && isC(b, 1)) return a;
      if (w == 1 && isC(b, 0)) return mkNot(a);
      if (isC(b)) {
        if (a->k == ZExt) {
          if (b->c & ~mask(a->a->w)) return mkConst(0, 1);
          return mkBin(Eq, a->a, mkConst(b->c, a->a->w));
        }
        if (a->k == SExt) {
          uint64_t t = b->c & mask(a->a->w);
          if (((uint64_t)sext(t, a->a->w) & mask(w)) != b->c) return mkConst(0, 1);
          return mkBin(Eq, a->a, mkConst(t, a->a->w));
        }
        if (a->k == And && isC(a->b) && (a->b->c & (a->b->c - 1)) == 0) {   // one bit tested
          if (b->c == 0) return mkNot(mkExtract(a->a, (unsigned)__builtin_ctzll(a->b->c), 1));
          if (b->c == a->b->c) return mkExtract(a->a, (unsigned)__builtin_ctzll(a->b->c), 1);
          return mkConst(0, 1);
        }
        if (a->k == Xor && isC(a->b)) return mkBin(Eq, a->a, mkConst(a->b->c ^ b->c, w));
        if (a->k == Add && isC(a->b)) return mkBin(Eq, a->a, mkConst(b->c - a->b->c, w));
        if (a->k == Ite && isC(a->b) && isC(a->d)) {
          bool t = a->b->c == b->c, f = a->d->c == b->c;
          if (t && f) return mkConst(1, 1);
          if (t) return a->a;
          if (f) return mkNot(a->a);
          return mkConst(0, 1);
        }
        if (a->k == Concat && (isC(a->a) || isC(a->b)))
          return mkBin(And, mkBin(Eq, a->a, mkConst(b->c >> a->b->w, a->a->w)), mkBin(Eq, a->b, mkConst(b->c, a->b->w)));
      }
      if (!rawXor && (a->k == Xor || b->k == Xor)) {
        const Rows &x = lin(a), &y = lin(b);
        bool same = true;
        for (unsigned i = 0; i < w; ++i) {
          if (x[i].a != y[i].a) same = false;
          else if (x[i].c != y[i].c) return mkConst(0, 1);
        }
        if (same) return mkConst(1, 1);
      }
      if (!isC(b)) {
        if (a->k == ZExt && b->k == ZExt && a->a->w == b->a->w) return mkBin(Eq, a->a, b->a);
        if (a->k == Concat && b->k == Concat && a->a->w == b->a->w)
          return mkBin(And, mkBin(Eq, a->a, b->a), mkBin(Eq, a->b, b->b));
      }
      break;
    case Ult:
      if (a == b) return mkConst(0, 1);
      if (isC(b, 0)) return mkConst(0, 1);
      if (isC(b, 1)) return mkBin(Eq, a, mkConst(0, w));
      if (isC(a, 0)) return mkNot(mkBin(Eq, b, mkConst(0, w)));
      if (a->k == ZExt && isC(b)) {
        if (b->c > mask(a->a->w)) return mkConst(1, 1);
        return mkBin(Ult, a->a, mkConst(b->c, a->a->w));
      }
      if (b->k == ZExt && isC(a)) {
        if (a->c > mask(b->a->w)) return mkConst(0, 1);
        return mkBin(Ult, mkConst(a->c, b->a->w), b->a);
      }
      if (a->k == ZExt && b->k == ZExt && a->a->w == b->a->w) return mkBin(Ult, a->a, b->a);
      break;
    case Ule:
      if (a == b) return mkConst(1, 1);
      if (isC(a, 0)) return mkConst(1, 1);
      if (isC(b, mask(w))) return mkConst(1, 1);
      if (a->k == ZExt && isC(b)) {
        if (b->c >= mask(a->a->w)) return mkConst(1, 1);
        return mkBin(Ule, a->a, mkConst(b->c, a->a->w));
      }
      if (b->k == ZExt && isC(a)) {
        if (a->c > mask(b->a->w)) return mkConst(0, 1);
        return mkBin(Ule, mkConst(a->c, b->a->w), b->a);
      }
      if (a->k == ZExt && b->k == ZExt && a->a->w == b->a->w) return mkBin(Ule, a->a, b->a);
      break;
    case Slt:
      if (a == b) return mkConst(0, 1);
      if (isC(b, 0)) return mkExtract(a, w - 1, 1);
      if (isC(a, mask(w))) return mkNot(mkExtract(b, w - 1, 1));   // -1 < b
      if (a->k == ZExt && b->k == ZExt) return mkBin(Ult, a, b);
      if (a->k == ZExt && isC(b) && sext(b->c, w) >= 0) return mkBin(Ult, a, b);
      if (b->k == ZExt && isC(a) && sext(a->c, w) >= 0) return mkBin(Ult, a, b);
      break;
    case Sle:
      if (a == b) return mkConst(1, 1);
      if (isC(a, 0)) return mkNot(mkExtract(b, w - 1, 1));
      if (a->k == ZExt && b->k == ZExt) return mkBin(Ule, a, b);
      if (a->k == ZExt && isC(b) && sext(b->c, w) >= 0) return mkBin(Ule, a, b);
      if (b->k == ZExt && isC(a) && sext(a->c, w) >= 0) return mkBin(Ule, a, b);
      break;
    default: break;
  }
  if (k == Ult || k == Ule || k == Slt || k == Sle)
    if (E e = mkCompareSums(k, a, b)) return e;
  return intern(k, rw, 0, a, b);
}

E mkIte(E c, E t, E f) {
  assert(c->w == 1 && t->w == f->w);
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (t->w == 1) {
    if (isC(t, 1) && isC(f, 0)) return c;
    if (isC(t, 0) && isC(f, 1)) return mkNot(c);
    if (isC(f, 0)) return mkBin(And, c, t);
    if (isC(t, 1)) return mkBin(Or, c, f);
    if (isC(t, 0)) return mkBin(And, mkNot(c), f);
    if (isC(f, 1)) return mkBin(Or, mkNot(c), t);
  }
  return intern(Ite, t->w, 0, c, t, f);
}

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  assert(w <= 64);
  if (isC(hi) && isC(lo)) return mkConst(hi->c << lo->w | lo->c, w);
  if (isC(hi, 0)) return mkZExt(lo, w);
  if (hi->k == Extract && lo->k == Extract && hi->a == lo->a && hi->c == lo->c + lo->w)
    return mkExtract(hi->a, (unsigned)lo->c, w);
  if (hi->k == Extract && lo->k == Concat && lo->a->k == Extract && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w)
    return mkConcat(mkExtract(hi->a, (unsigned)lo->a->c, hi->w + lo->a->w), lo->b);
  // The low part of a sum may have been narrowed.
  if (hi->k == Extract && hi->c == lo->w && (lo->k == Add || lo->k == Sub || lo->k == Mul) && mkExtract(hi->a, 0, lo->w) == lo)
    return mkExtract(hi->a, 0, w);
  if (hi->k == Ite && lo->k == Ite && hi->a == lo->a && lo->w + hi->w > 8)
    return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->d, lo->d));
  if (hi->k == ZExt) return mkZExt(mkConcat(hi->a, lo), w);
  // keep right-nested: concat(concat(a,b),c) -> concat(a,concat(b,c))
  if (hi->k == Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  return intern(Concat, w, 0, hi, lo);
}

E mkExtract(E e, unsigned lo, unsigned w) {
  assert(lo + w <= e->w);
  if (w == e->w) return e;
  switch (e->k) {
    case Const: return mkConst(e->c >> lo, w);
    case Extract: return mkExtract(e->a, (unsigned)e->c + lo, w);
    case Concat: {
      unsigned lw = e->b->w;
      if (lo >= lw) return mkExtract(e->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(e->b, lo, w);
      return mkConcat(mkExtract(e->a, 0, lo + w - lw), mkExtract(e->b, lo, lw - lo));
    }
    case ZExt: {
      unsigned n = e->a->w;
      if (lo >= n) return mkConst(0, w);
      if (lo + w <= n) return mkExtract(e->a, lo, w);
      return mkZExt(mkExtract(e->a, lo, n - lo), w);
    }
    case SExt: {
      unsigned n = e->a->w;
      if (lo + w <= n) return mkExtract(e->a, lo, w);
      if (lo < n) return mkSExt(mkExtract(e->a, lo, n - lo), w);
      return mkSExt(mkExtract(e->a, n - 1, 1), w);
    }
    case And: case Or: case Xor:
      return mkBin(e->k, mkExtract(e->a, lo, w), mkExtract(e->b, lo, w));
    case Ite:
      if (isC(e->b) || isC(e->d) || w <= 8) return mkIte(e->a, mkExtract(e->b, lo, w), mkExtract(e->d, lo, w));
      break;
    case Add: case Sub: case Mul:
      if (lo == 0 && w == 32) return mkBin(e->k, mkExtract(e->a, 0, w), mkExtract(e->b, 0, w));
      break;
    default: break;
  }
  return intern(Extract, w, lo, e);
}

E mkZExt(E e, unsigned w) {
  assert(w >= e->w);
  if (w == e->w) return e;
  if (isC(e)) return mkConst(e->c, w);
  if (e->k == ZExt) return mkZExt(e->a, w);
  return intern(ZExt, w, 0, e);
}

E mkSExt(E e, unsigned w) {
  assert(w >= e->w);
  if (w == e->w) return e;
  if (isC(e)) return mkConst((uint64_t)sext(e->c, e->w), w);
  if (e->k == ZExt) return mkZExt(e->a, w);
  if (e->k == SExt) return mkSExt(e->a, w);
  return intern(SExt, w, 0, e);
}

E mkFUn(K k, E a, unsigned w) {
  if (isC(a)) {
    switch (k) {
      case UIToFP: return mkConst(fromD((double)a->c), 64);
      case SIToFP: return mkConst(fromD((double)sext(a->c, a->w)), 64);
      case FPToUI: return mkConst((uint64_t)asD(a->c), w);
      case FPToSI: return mkConst((uint64_t)(int64_t)asD(a->c), w);
      case FCeil: return mkConst(fromD(std::ceil(asD(a->c))), 64);
      default: assert(false);
    }
  }
  return intern(k, w, 0, a);
}

const std::vector<uint32_t>& varsOf(E e) {
  static const std::vector<uint32_t> none;
  if (e->vars) return *e->vars;
  if (e->k == Const) { e->vars = &none; return none; }
  if (e->k == Var) { e->vars = new std::vector<uint32_t>{(uint32_t)e->c}; return *e->vars; }
  const std::vector<uint32_t>* r = nullptr;
  for (E x : {e->a, e->b, e->d}) {
    if (!x) continue;
    const auto& v = varsOf(x);
    if (!r || r->empty()) { r = &v; continue; }
    if (&v == r || v.empty()) continue;
    std::vector<uint32_t> u;
    std::set_union(r->begin(), r->end(), v.begin(), v.end(), std::back_inserter(u));
    if (u.size() == r->size()) continue;
    if (u.size() == v.size()) { r = &v; continue; }
    r = new std::vector<uint32_t>(std::move(u));
  }
  e->vars = r ? r : &none;
  return *e->vars;
}

uint64_t evalExpr(E e, const Model& m, uint64_t gen) {
  if (e->k == Const) return e->c;
  if (e->egen == gen) return e->eval;
  uint64_t r = 0;
  switch (e->k) {
    case Var: r = e->c < m.size() ? m[e->c] & mask(e->w) : 0; break;
    case Ite: r = evalExpr(e->a, m, gen) ? evalExpr(e->b, m, gen) : evalExpr(e->d, m, gen); break;
    case Concat: r = evalExpr(e->a, m, gen) << e->b->w | evalExpr(e->b, m, gen); break;
    case Extract: r = (evalExpr(e->a, m, gen) >> e->c) & mask(e->w); break;
    case ZExt: r = evalExpr(e->a, m, gen); break;
    case SExt: r = (uint64_t)sext(evalExpr(e->a, m, gen), e->a->w) & mask(e->w); break;
    case UIToFP: case SIToFP: case FPToUI: case FPToSI: case FCeil: {
      E c = mkConst(evalExpr(e->a, m, gen), e->a->w);
      r = mkFUn(e->k, c, e->w)->c; break;
    }
    default: r = foldBin(e->k, evalExpr(e->a, m, gen), evalExpr(e->b, m, gen), e->a->w); break;
  }
  e->egen = gen; e->eval = r;
  return r;
}

static Z3_ast b2bv(Z3_context c, Z3_ast b) {
  Z3_sort s = Z3_mk_bv_sort(c, 1);
  return Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s));
}
static Z3_ast bv2b(Z3_context c, Z3_ast v) {
  Z3_sort s = Z3_mk_bv_sort(c, 1);
  return Z3_mk_eq(c, v, Z3_mk_unsigned_int64(c, 1, s));
}

Z3_ast toZ3(Z3_context c, E e) {
  if (e->z) return e->z;
  if (e->k == Xor && !rawXor) {   // lowered from its linear normal form
    Z3_ast res = nullptr;
    for (const Row& q : lin(e)) {
      Z3_ast b = nullptr;
      for (auto t : q.a) {
        E x = &arena[t >> 6];
        Z3_ast v;
        if (x == e) { b = nullptr; break; }
        v = Z3_mk_extract(c, (unsigned)(t & 63), (unsigned)(t & 63), toZ3(c, x));
        b = b ? Z3_mk_bvxor(c, b, v) : v;
      }
      Z3_ast k = Z3_mk_unsigned_int64(c, q.c, Z3_mk_bv_sort(c, 1));
      b = b ? (q.c ? Z3_mk_bvxor(c, b, k) : b) : k;
      res = res ? Z3_mk_concat(c, b, res) : b;
    }
    e->z = res;
    return res;
  }
  Z3_ast r = nullptr, x = e->a ? toZ3(c, e->a) : nullptr, y = e->b ? toZ3(c, e->b) : nullptr,
         d = e->d ? toZ3(c, e->d) : nullptr;
  auto F = [&](Z3_ast v) { return Z3_mk_fpa_to_fp_bv(c, v, Z3_mk_fpa_sort_double(c)); };
  auto B = [&](Z3_ast v) { return Z3_mk_fpa_to_ieee_bv(c, v); };
  switch (e->k) {
    case Const: r = Z3_mk_unsigned_int64(c, e->c, Z3_mk_bv_sort(c, e->w)); break;
    case Var: r = Z3_mk_const(c, Z3_mk_string_symbol(c, names[e->c].c_str()), Z3_mk_bv_sort(c, e->w)); break;
    case Add: r = Z3_mk_bvadd(c, x, y); break;
    case Sub: r = Z3_mk_bvsub(c, x, y); break;
    case Mul: r = Z3_mk_bvmul(c, x, y); break;
    case UDiv: r = Z3_mk_bvudiv(c, x, y); break;
    case SDiv: r = Z3_mk_bvsdiv(c, x, y); break;
    case URem: r = Z3_mk_bvurem(c, x, y); break;
    case SRem: r = Z3_mk_bvsrem(c, x, y); break;
    case And: r = Z3_mk_bvand(c, x, y); break;
    case Or: r = Z3_mk_bvor(c, x, y); break;
    case Xor: r = Z3_mk_bvxor(c, x, y); break;
    case Shl: r = Z3_mk_bvshl(c, x, y); break;
    case LShr: r = Z3_mk_bvlshr(c, x, y); break;
    case AShr: r = Z3_mk_bvashr(c, x, y); break;
    case Eq: r = b2bv(c, Z3_mk_eq(c, x, y)); break;
    case Ult: r = b2bv(c, Z3_mk_bvult(c, x, y)); break;
    case Ule: r = b2bv(c, Z3_mk_bvule(c, x, y)); break;
    case Slt: r = b2bv(c, Z3_mk_bvslt(c, x, y)); break;
    case Sle: r = b2bv(c, Z3_mk_bvsle(c, x, y)); break;
    case Ite: r = Z3_mk_ite(c, bv2b(c, x), y, d); break;
    case Concat: r = Z3_mk_concat(c, x, y); break;
    case Extract: r = Z3_mk_extract(c, (unsigned)e->c + e->w - 1, (unsigned)e->c, x); break;
    case ZExt: r = Z3_mk_zero_ext(c, e->w - e->a->w, x); break;
    case SExt: r = Z3_mk_sign_ext(c, e->w - e->a->w, x); break;
    case FAdd: r = B(Z3_mk_fpa_add(c, Z3_mk_fpa_rne(c), F(x), F(y))); break;
    case FSub: r = B(Z3_mk_fpa_sub(c, Z3_mk_fpa_rne(c), F(x), F(y))); break;
    case FMul: r = B(Z3_mk_fpa_mul(c, Z3_mk_fpa_rne(c), F(x), F(y))); break;
    case FDiv: r = B(Z3_mk_fpa_div(c, Z3_mk_fpa_rne(c), F(x), F(y))); break;
    case FOlt: r = b2bv(c, Z3_mk_fpa_lt(c, F(x), F(y))); break;
    case FOle: r = b2bv(c, Z3_mk_fpa_leq(c, F(x), F(y))); break;
    case FOeq: r = b2bv(c, Z3_mk_fpa_eq(c, F(x), F(y))); break;
    case FUno: { Z3_ast l[2] = {Z3_mk_fpa_is_nan(c, F(x)), Z3_mk_fpa_is_nan(c, F(y))}; r = b2bv(c, Z3_mk_or(c, 2, l)); break; }
    case UIToFP: r = B(Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), x, Z3_mk_fpa_sort_double(c))); break;
    case SIToFP: r = B(Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), x, Z3_mk_fpa_sort_double(c))); break;
    case FPToUI: r = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), F(x), e->w); break;
    case FPToSI: r = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), F(x), e->w); break;
    case FCeil: r = B(Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), F(x))); break;
  }
  Z3_inc_ref(c, r);
  e->z = r;
  return r;
}

std::string toStr(E e, int depth) {
  static const char* n[] = {"const", "var", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>", "s>>",
    "==", "u<", "u<=", "s<", "s<=", "ite", "concat", "extract", "zext", "sext", "f+", "f-", "f*", "f/", "f<", "f<=",
    "f==", "funo", "u2f", "s2f", "f2u", "f2s", "ceil"};
  if (e->k == Const) return std::to_string(e->c);
  if (e->k == Var) return names[e->c];
  if (depth == 0) return "...";
  std::string s = std::string("(") + n[e->k];
  if (e->k == Extract) s += " " + std::to_string(e->c + e->w - 1) + ":" + std::to_string(e->c);
  for (E x : {e->a, e->b, e->d}) if (x) s += " " + toStr(x, depth - 1);
  return s + ")";
}

} // namespace sym
