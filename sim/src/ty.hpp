// Data types as both interpreters see them, with the x86-64 layout.
#pragma once
#include <cstdint>
#include <string>
#include <vector>

namespace llvm
{
class Type;
}
namespace jlm::rvsdg
{
class Type;
}

namespace sim
{

struct Ty
{
  enum Kind
  {
    Void,
    Int,
    Float,
    Double,
    Ptr,
    Vec,
    Arr,
    Struct,
    State,   // io / memory state
    Ctl,     // control value
    VarArgs, // variadic argument list
    Fn,      // function reference
    Bad
  } kind = Bad;
  unsigned width = 0; // Int
  uint64_t n = 0;     // Vec / Arr
  const Ty * elt = nullptr;
  std::vector<const Ty *> fields;
  std::vector<uint64_t> offs;
  bool packed = false;
  uint64_t size = 0;  // alloc size (store size rounded to alignment)
  uint64_t store = 0; // store size
  uint64_t align = 1;
  bool
  scalar() const
  {
    return kind == Int || kind == Float || kind == Double || kind == Ptr || kind == Ctl
        || kind == Fn;
  }
  bool
  agg() const
  {
    return kind == Vec || kind == Arr || kind == Struct;
  }
  bool
  hasBad() const;
  size_t
  count() const
  {
    return kind == Struct ? fields.size() : n;
  }
  const Ty *
  at(size_t i) const
  {
    return kind == Struct ? fields[i] : elt;
  }
  uint64_t
  offset(size_t i) const;
  std::string
  str() const;
};

const Ty * tyInt(unsigned w);
const Ty * tyFloat();
const Ty * tyDouble();
const Ty * tyPtr();
const Ty * tyVoid();
const Ty * tyVec(const Ty *, uint64_t n);
const Ty * tyArr(const Ty *, uint64_t n);
const Ty * tyStruct(const std::vector<const Ty *> &, bool packed);
const Ty * tyOf(Ty::Kind k);
const Ty * fromLlvm(const ::llvm::Type * t);
const Ty * fromJlm(const jlm::rvsdg::Type & t);

// A value: a scalar (bits, poison flag) or an aggregate of values.
struct Val
{
  uint64_t b = 0;
  bool p = false;
  std::vector<Val> e;
  const Ty * ty = nullptr; // set for the elements of a variadic list only
  Val() = default;
  Val(uint64_t v) : b(v) {}
  static Val
  poison()
  {
    Val v;
    v.p = true;
    return v;
  }
};

Val zeroOf(const Ty * t);
Val poisonOf(const Ty * t);
bool anyPoison(const Val & v);
std::string show(const Val & v);

inline uint64_t
maskW(unsigned w)
{
  return w >= 64 ? ~0ull : ((1ull << w) - 1);
}
inline int64_t
sx(uint64_t v, unsigned w)
{
  if (w >= 64)
    return int64_t(v);
  v &= maskW(w);
  return (v >> (w - 1)) & 1 ? int64_t(v | ~maskW(w)) : int64_t(v);
}

}
