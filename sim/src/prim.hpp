// Reference semantics of the scalar operations (poison-aware, UB raises Ub).
#pragma once
#include "machine.hpp"
#include <cmath>
#include <cstring>

namespace sim
{

enum class Bin
{
  Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
  FAdd, FSub, FMul, FDiv, FRem
};
enum class Cmp
{
  Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle
};

inline Val
binInt(Bin op, unsigned w, const Val & a, const Val & b, bool nsw = false, bool nuw = false, bool exact = false, bool disjoint = false)
{
  auto m = maskW(w);
  if (op == Bin::UDiv || op == Bin::SDiv || op == Bin::URem || op == Bin::SRem)
  {
    if (b.p)
      throw Ub{ "division by an undefined value" };
    if ((b.b & m) == 0)
      throw Ub{ "division by zero" };
    if (a.p)
      return Val::poison();
    if (op == Bin::SDiv || op == Bin::SRem)
    {
      if (sx(b.b, w) == -1 && (a.b & m) == (1ull << (w - 1)))
        throw Ub{ "signed division overflow" };
    }
  }
  else if (a.p || b.p)
    return Val::poison();
  uint64_t x = a.b & m, y = b.b & m, r = 0;
  __int128 sX = sx(x, w), sY = sx(y, w);
  unsigned __int128 uX = x, uY = y;
  auto chk = [&](__int128 s, unsigned __int128 u, bool uover)
  {
    if (nsw && s != (__int128)sx((uint64_t)s, w))
      return true;
    if (nuw && (uover || u > (unsigned __int128)m))
      return true;
    return false;
  };
  switch (op)
  {
  case Bin::Add:
    r = x + y;
    if (chk(sX + sY, uX + uY, false))
      return Val::poison();
    break;
  case Bin::Sub:
    r = x - y;
    if (chk(sX - sY, 0, x < y))
      return Val::poison();
    break;
  case Bin::Mul:
    r = x * y;
    if (chk(sX * sY, uX * uY, false))
      return Val::poison();
    break;
  case Bin::UDiv:
    r = x / y;
    if (exact && x % y)
      return Val::poison();
    break;
  case Bin::SDiv:
    r = uint64_t(int64_t(sX / sY));
    if (exact && sX % sY)
      return Val::poison();
    break;
  case Bin::URem:
    r = x % y;
    break;
  case Bin::SRem:
    r = uint64_t(int64_t(sX % sY));
    break;
  case Bin::Shl:
    if (y >= w)
      return Val::poison();
    r = (x << y) & m;
    if (nuw && (r >> y) != x)
      return Val::poison();
    if (nsw && sx(r, w) >> y != sx(x, w))
      return Val::poison();
    break;
  case Bin::LShr:
    if (y >= w)
      return Val::poison();
    r = x >> y;
    if (exact && (r << y) != x)
      return Val::poison();
    break;
  case Bin::AShr:
    if (y >= w)
      return Val::poison();
    r = uint64_t(sx(x, w) >> y);
    if (exact && ((r << y) & m) != x)
      return Val::poison();
    break;
  case Bin::And:
    r = x & y;
    break;
  case Bin::Or:
    if (disjoint && (x & y))
      return Val::poison();
    r = x | y;
    break;
  case Bin::Xor:
    r = x ^ y;
    break;
  default:
    throw Unsupported{ "integer operation" };
  }
  return Val(r & m);
}

inline Val
cmpInt(Cmp c, unsigned w, const Val & a, const Val & b)
{
  if (a.p || b.p)
    return Val::poison();
  uint64_t x = a.b & maskW(w), y = b.b & maskW(w);
  int64_t s = sx(x, w), t = sx(y, w);
  switch (c)
  {
  case Cmp::Eq: return Val(x == y);
  case Cmp::Ne: return Val(x != y);
  case Cmp::Ugt: return Val(x > y);
  case Cmp::Uge: return Val(x >= y);
  case Cmp::Ult: return Val(x < y);
  case Cmp::Ule: return Val(x <= y);
  case Cmp::Sgt: return Val(s > t);
  case Cmp::Sge: return Val(s >= t);
  case Cmp::Slt: return Val(s < t);
  case Cmp::Sle: return Val(s <= t);
  }
  return Val::poison();
}

// pointers are compared as unsigned 64-bit numbers
inline float
asF(const Val & v)
{
  uint32_t b = uint32_t(v.b);
  float f;
  memcpy(&f, &b, 4);
  return f;
}
inline double
asD(const Val & v)
{
  double d;
  memcpy(&d, &v.b, 8);
  return d;
}
inline Val
fromF(float f)
{
  if (f != f)
    return Val(0x7fc00000);
  uint32_t b;
  memcpy(&b, &f, 4);
  return Val(b);
}
inline Val
fromD(double d)
{
  if (d != d)
    return Val(0x7ff8000000000000ull);
  uint64_t b;
  memcpy(&b, &d, 8);
  return Val(b);
}

inline Val
binFp(Bin op, bool dbl, const Val & a, const Val & b)
{
  if (a.p || b.p)
    return Val::poison();
  auto go = [&](auto x, auto y)
  {
    switch (op)
    {
    case Bin::FAdd: return x + y;
    case Bin::FSub: return x - y;
    case Bin::FMul: return x * y;
    case Bin::FDiv: return x / y;
    case Bin::FRem: return decltype(x)(std::fmod(x, y));
    default: throw Unsupported{ "fp operation" };
    }
  };
  return dbl ? fromD(go(asD(a), asD(b))) : fromF(go(asF(a), asF(b)));
}

// LLVM numbering of fcmp predicates: bit0 = eq, bit1 = gt, bit2 = lt, bit3 = unordered
inline Val
cmpFp(unsigned pred, bool dbl, const Val & a, const Val & b)
{
  if (pred == 0)
    return Val(0);
  if (pred == 15)
    return Val(1);
  if (a.p || b.p)
    return Val::poison();
  double x = dbl ? asD(a) : asF(a), y = dbl ? asD(b) : asF(b);
  unsigned rel = x != x || y != y ? 8 : x == y ? 1 : x > y ? 2 : 4;
  return Val((pred & rel) != 0);
}

inline Val
fneg(bool dbl, const Val & a)
{
  if (a.p)
    return a;
  return Val(a.b ^ (dbl ? 1ull << 63 : 1ull << 31));
}

inline Val
fp2int(bool dbl, bool sgn, unsigned w, const Val & a)
{
  if (a.p)
    return a;
  double x = dbl ? asD(a) : asF(a);
  if (x != x)
    return Val::poison();
  x = std::trunc(x);
  if (sgn)
  {
    double lim = std::ldexp(1.0, int(w) - 1);
    if (x < -lim || x >= lim)
      return Val::poison();
    return Val(uint64_t(int64_t(x)) & maskW(w));
  }
  if (x < 0 || x >= std::ldexp(1.0, int(w)))
    return Val::poison();
  return Val(uint64_t(x) & maskW(w));
}

inline Val
int2fp(bool dbl, bool sgn, unsigned w, const Val & a)
{
  if (a.p)
    return a;
  if (sgn)
  {
    auto s = sx(a.b, w);
    return dbl ? fromD(double(s)) : fromF(float(s));
  }
  auto u = a.b & maskW(w);
  return dbl ? fromD(double(u)) : fromF(float(u));
}

inline Val
ctlz(unsigned w, const Val & a, bool zp)
{
  if (a.p)
    return a;
  uint64_t x = a.b & maskW(w);
  if (!x)
    return zp ? Val::poison() : Val(w);
  return Val(__builtin_clzll(x) - (64 - w));
}
inline Val
cttz(unsigned w, const Val & a, bool zp)
{
  if (a.p)
    return a;
  uint64_t x = a.b & maskW(w);
  if (!x)
    return zp ? Val::poison() : Val(w);
  return Val(__builtin_ctzll(x));
}
inline Val
bswap(unsigned w, const Val & a)
{
  if (a.p)
    return a;
  uint64_t r = 0;
  for (unsigned i = 0; i < w / 8; i++)
    r |= ((a.b >> (8 * i)) & 0xff) << (w - 8 - 8 * i);
  return Val(r);
}
inline Val
fshl(unsigned w, const Val & a, const Val & b, const Val & c)
{
  if (a.p || b.p || c.p)
    return Val::poison();
  unsigned s = (c.b & maskW(w)) % w;
  uint64_t x = a.b & maskW(w), y = b.b & maskW(w);
  return Val((s ? (x << s) | (y >> (w - s)) : x) & maskW(w));
}
inline Val
absInt(unsigned w, const Val & a, bool mp)
{
  if (a.p)
    return a;
  auto s = sx(a.b, w);
  if ((a.b & maskW(w)) == 1ull << (w - 1))
    return mp ? Val::poison() : Val(a.b & maskW(w));
  return Val(uint64_t(s < 0 ? -s : s) & maskW(w));
}
enum class Ov { SAdd, UAdd, SSub, USub, SMul, UMul };
inline Val
withOverflow(Ov op, unsigned w, const Val & a, const Val & b)
{
  Val r;
  if (a.p || b.p)
  {
    r.e = { Val::poison(), Val::poison() };
    return r;
  }
  __int128 x = sx(a.b, w), y = sx(b.b, w);
  unsigned __int128 u = a.b & maskW(w), v = b.b & maskW(w);
  __int128 s = 0;
  unsigned __int128 t = 0;
  bool o = false;
  switch (op)
  {
  case Ov::SAdd: s = x + y; break;
  case Ov::SSub: s = x - y; break;
  case Ov::SMul: s = x * y; break;
  case Ov::UAdd: t = u + v; break;
  case Ov::USub: t = u - v; break;
  case Ov::UMul: t = u * v; break;
  }
  if (op == Ov::SAdd || op == Ov::SSub || op == Ov::SMul)
  {
    o = s != (__int128)sx((uint64_t)s, w);
    r.e = { Val(uint64_t(s) & maskW(w)), Val(o) };
  }
  else
  {
    o = (t & ~(unsigned __int128)maskW(w)) != 0;
    r.e = { Val(uint64_t(t) & maskW(w)), Val(o) };
  }
  return r;
}
inline Val
isFpClass(bool dbl, const Val & a, const Val & mask)
{
  if (a.p || mask.p)
    return Val::poison();
  uint64_t b = a.b;
  unsigned mb = dbl ? 52 : 23, eb = dbl ? 11 : 8;
  bool neg = (b >> (mb + eb)) & 1;
  uint64_t e = (b >> mb) & ((1ull << eb) - 1), m = b & ((1ull << mb) - 1);
  unsigned cls;
  if (e == (1ull << eb) - 1)
    cls = m ? ((m >> (mb - 1)) & 1 ? 1 : 0) : neg ? 2 : 9;
  else if (e == 0)
    cls = m ? (neg ? 4 : 7) : (neg ? 5 : 6);
  else
    cls = neg ? 3 : 8;
  return Val((mask.b >> cls) & 1);
}
inline Val
roundFp(int kind, bool dbl, const Val & a) // 0 floor 1 ceil 2 round 3 trunc 4 rint 5 fabs
{
  if (a.p)
    return a;
  if (kind == 5)
    return Val(a.b & (dbl ? ~(1ull << 63) : 0x7fffffffull));
  double x = dbl ? asD(a) : asF(a);
  switch (kind)
  {
  case 0: x = std::floor(x); break;
  case 1: x = std::ceil(x); break;
  case 2: x = std::round(x); break;
  case 3: x = std::trunc(x); break;
  case 4: x = std::nearbyint(x); break;
  }
  return dbl ? fromD(x) : fromF(float(x));
}
inline Val
copysignV(bool dbl, const Val & a, const Val & b)
{
  if (a.p || b.p)
    return Val::poison();
  uint64_t m = dbl ? 1ull << 63 : 1ull << 31;
  return Val((a.b & ~m) | (b.b & m));
}
inline Val
fmulAdd(bool dbl, const Val & a, const Val & b, const Val & c)
{
  return binFp(Bin::FAdd, dbl, binFp(Bin::FMul, dbl, a, b), c);
}

// bit image of a value (for bitcasts); poison granularity: whole value
inline void
toBits(const Ty * t, const Val & v, std::vector<uint8_t> & bits, bool & poison)
{
  if (t->agg())
  {
    for (size_t i = 0; i < t->count(); i++)
      toBits(t->at(i), v.e[i], bits, poison);
    return;
  }
  unsigned w = t->kind == Ty::Int ? t->width : unsigned(t->store * 8);
  if (v.p)
    poison = true;
  for (unsigned i = 0; i < w; i++)
    bits.push_back((v.b >> i) & 1);
}
inline Val
fromBits(const Ty * t, const std::vector<uint8_t> & bits, size_t & pos)
{
  Val v;
  if (t->agg())
  {
    for (size_t i = 0; i < t->count(); i++)
      v.e.push_back(fromBits(t->at(i), bits, pos));
    return v;
  }
  unsigned w = t->kind == Ty::Int ? t->width : unsigned(t->store * 8);
  for (unsigned i = 0; i < w; i++)
    v.b |= uint64_t(bits.at(pos++)) << i;
  return v;
}
inline Val
bitcastV(const Ty * from, const Ty * to, const Val & v)
{
  if (from == to)
    return v;
  std::vector<uint8_t> bits;
  bool poison = false;
  toBits(from, v, bits, poison);
  if (poison)
    return poisonOf(to);
  size_t pos = 0;
  return fromBits(to, bits, pos);
}

}
