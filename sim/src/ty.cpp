#include "ty.hpp"
#include <jlm/llvm/ir/types.hpp>
#include <jlm/rvsdg/FunctionType.hpp>
#include <jlm/rvsdg/bitstring/type.hpp>
#include <jlm/rvsdg/control.hpp>
#include <llvm/IR/DerivedTypes.h>
#include <map>
#include <memory>

namespace sim
{

static std::map<std::string, std::unique_ptr<Ty>> table;

uint64_t
Ty::offset(size_t i) const
{
  if (kind == Struct)
    return offs[i];
  if (kind == Vec)
    return i * elt->store;
  return i * elt->size;
}

std::string
Ty::str() const
{
  switch (kind)
  {
  case Void:
    return "void";
  case Int:
    return "i" + std::to_string(width);
  case Float:
    return "float";
  case Double:
    return "double";
  case Ptr:
    return "ptr";
  case Vec:
    return "<" + std::to_string(n) + "x" + elt->str() + ">";
  case Arr:
    return "[" + std::to_string(n) + "x" + elt->str() + "]";
  case Struct:
  {
    std::string s = packed ? "<{" : "{";
    for (auto f : fields)
      s += f->str() + ",";
    return s + (packed ? "}>" : "}");
  }
  case State:
    return "state";
  case Ctl:
    return "ctl";
  case VarArgs:
    return "varargs";
  case Fn:
    return "fn";
  default:
    return "bad";
  }
}

bool
Ty::hasBad() const
{
  if (kind == Bad)
    return true;
  if (elt && elt->hasBad())
    return true;
  for (auto f : fields)
    if (f->hasBad())
      return true;
  return false;
}

static const Ty *
intern(Ty t)
{
  auto key = t.str();
  auto it = table.find(key);
  if (it != table.end())
    return it->second.get();
  auto up = [](uint64_t v, uint64_t a)
  {
    return (v + a - 1) / a * a;
  };
  switch (t.kind)
  {
  case Ty::Int:
  {
    uint64_t bytes = (t.width + 7) / 8, a = 1;
    while (a < bytes && a < 16)
      a *= 2;
    t.store = bytes;
    t.align = a;
    t.size = up(bytes, a);
    break;
  }
  case Ty::Float:
    t.store = t.size = t.align = 4;
    break;
  case Ty::Double:
  case Ty::Ptr:
  case Ty::Fn:
    t.store = t.size = t.align = 8;
    break;
  case Ty::Vec:
  {
    uint64_t bits = 0;
    if (t.elt->kind == Ty::Int)
      bits = t.elt->width * t.n;
    else
      bits = t.elt->size * 8 * t.n;
    t.store = (bits + 7) / 8;
    uint64_t a = 1;
    while (a < t.store)
      a *= 2;
    t.align = a;
    t.size = up(t.store, a);
    break;
  }
  case Ty::Arr:
    t.align = t.elt->align;
    t.store = t.size = t.elt->size * t.n;
    break;
  case Ty::Struct:
  {
    uint64_t o = 0, a = 1;
    for (auto f : t.fields)
    {
      uint64_t fa = t.packed ? 1 : f->align;
      o = up(o, fa);
      t.offs.push_back(o);
      o += f->size;
      a = std::max(a, fa);
    }
    t.align = a;
    t.store = t.size = up(o, a);
    break;
  }
  default:
    break;
  }
  auto p = std::make_unique<Ty>(std::move(t));
  auto r = p.get();
  table.emplace(key, std::move(p));
  return r;
}

const Ty *
tyOf(Ty::Kind k)
{
  Ty t;
  t.kind = k;
  return intern(t);
}
const Ty *
tyInt(unsigned w)
{
  Ty t;
  t.kind = w >= 1 && w <= 64 ? Ty::Int : Ty::Bad;
  t.width = w;
  return intern(t);
}
const Ty *
tyFloat()
{
  return tyOf(Ty::Float);
}
const Ty *
tyDouble()
{
  return tyOf(Ty::Double);
}
const Ty *
tyPtr()
{
  return tyOf(Ty::Ptr);
}
const Ty *
tyVoid()
{
  return tyOf(Ty::Void);
}
const Ty *
tyVec(const Ty * e, uint64_t n)
{
  Ty t;
  t.kind = Ty::Vec;
  t.elt = e;
  t.n = n;
  return intern(t);
}
const Ty *
tyArr(const Ty * e, uint64_t n)
{
  Ty t;
  t.kind = Ty::Arr;
  t.elt = e;
  t.n = n;
  return intern(t);
}
const Ty *
tyStruct(const std::vector<const Ty *> & f, bool packed)
{
  Ty t;
  t.kind = Ty::Struct;
  t.fields = f;
  t.packed = packed;
  return intern(t);
}

const Ty *
fromLlvm(const ::llvm::Type * t)
{
  using namespace ::llvm;
  if (t->isVoidTy())
    return tyVoid();
  if (t->isIntegerTy())
    return tyInt(t->getIntegerBitWidth());
  if (t->isFloatTy())
    return tyFloat();
  if (t->isDoubleTy())
    return tyDouble();
  if (t->isPointerTy())
    return tyPtr();
  if (auto v = dyn_cast<FixedVectorType>(t))
    return tyVec(fromLlvm(v->getElementType()), v->getNumElements());
  if (auto a = dyn_cast<::llvm::ArrayType>(t))
    return tyArr(fromLlvm(a->getElementType()), a->getNumElements());
  if (auto s = dyn_cast<::llvm::StructType>(t))
  {
    if (s->isOpaque())
      return tyOf(Ty::Bad);
    std::vector<const Ty *> f;
    for (auto e : s->elements())
      f.push_back(fromLlvm(e));
    return tyStruct(f, s->isPacked());
  }
  return tyOf(Ty::Bad);
}

const Ty *
fromJlm(const jlm::rvsdg::Type & t)
{
  namespace jl = jlm::llvm; namespace rvsdg = jlm::rvsdg;
  if (auto b = dynamic_cast<const rvsdg::BitType *>(&t))
    return tyInt(b->nbits());
  if (auto f = dynamic_cast<const jl::FloatingPointType *>(&t))
    return f->size() == jl::fpsize::flt ? tyFloat()
         : f->size() == jl::fpsize::dbl ? tyDouble()
                                          : tyOf(Ty::Bad);
  if (dynamic_cast<const jl::PointerType *>(&t))
    return tyPtr();
  if (auto v = dynamic_cast<const jl::FixedVectorType *>(&t))
    return tyVec(fromJlm(v->type()), v->size());
  if (auto a = dynamic_cast<const jl::ArrayType *>(&t))
    return tyArr(fromJlm(a->element_type()), a->nelements());
  if (auto s = dynamic_cast<const jl::StructType *>(&t))
  {
    std::vector<const Ty *> f;
    for (size_t n = 0; n < s->numElements(); n++)
      f.push_back(fromJlm(*s->getElementType(n)));
    return tyStruct(f, s->IsPacked());
  }
  if (dynamic_cast<const rvsdg::ControlType *>(&t))
    return tyOf(Ty::Ctl);
  if (dynamic_cast<const jl::VariableArgumentType *>(&t))
    return tyOf(Ty::VarArgs);
  if (dynamic_cast<const rvsdg::FunctionType *>(&t))
    return tyOf(Ty::Fn);
  if (t.Kind() == rvsdg::TypeKind::State)
    return tyOf(Ty::State);
  return tyOf(Ty::Bad);
}

Val
zeroOf(const Ty * t)
{
  Val v;
  if (t->agg())
    for (size_t i = 0; i < t->count(); i++)
      v.e.push_back(zeroOf(t->at(i)));
  return v;
}
Val
poisonOf(const Ty * t)
{
  Val v;
  v.p = true;
  if (t->agg())
  {
    v.p = false;
    for (size_t i = 0; i < t->count(); i++)
      v.e.push_back(poisonOf(t->at(i)));
  }
  return v;
}
bool
anyPoison(const Val & v)
{
  if (v.p)
    return true;
  for (auto & x : v.e)
    if (anyPoison(x))
      return true;
  return false;
}
std::string
show(const Val & v)
{
  if (!v.e.empty())
  {
    std::string s = "{";
    for (auto & x : v.e)
      s += show(x) + ",";
    return s + "}";
  }
  if (v.p)
    return "poison";
  char buf[32];
  snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)v.b);
  return buf;
}

}
