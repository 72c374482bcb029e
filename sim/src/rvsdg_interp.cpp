#include "rvsdg_interp.hpp"
#include "prim.hpp"
#include <algorithm>
#include <jlm/llvm/ir/operators/GetElementPtr.hpp>
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/ir/operators/Load.hpp>
#include <jlm/llvm/ir/operators/MemoryStateOperations.hpp>
#include <jlm/llvm/ir/operators/Store.hpp>
#include <jlm/llvm/ir/operators/alloca.hpp>
#include <jlm/llvm/ir/operators/call.hpp>
#include <jlm/llvm/ir/operators/delta.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/llvm/ir/operators/operators.hpp>
#include <jlm/llvm/ir/operators/AggregateOperations.hpp>
#include <jlm/llvm/ir/operators/ArithmeticWithOverflowIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/BitManipulationIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/ConversionOperations.hpp>
#include <jlm/llvm/ir/operators/FloatingPointMinMaxIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/FloatingPointTestIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/GeneralIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/IOBarrier.hpp>
#include <jlm/llvm/ir/operators/SpecializedArithmeticIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/UnitType.hpp>
#include <jlm/rvsdg/bitstring.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/delta.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <typeindex>

namespace sim
{
using namespace jlm;
using jlm::rvsdg::Node;
using jlm::rvsdg::Output;
using jlm::rvsdg::Region;
using Act = RvsdgInterp::Act;
using NodeC = RvsdgInterp::NodeC;

static const Ty *
tyOfOut(const Output & o)
{
  return fromJlm(*o.Type());
}

static bool
isState(const rvsdg::Type & t)
{
  return rvsdg::is<jlm::llvm::MemoryStateType>(t) || rvsdg::is<jlm::llvm::IOStateType>(t)
      || rvsdg::is<rvsdg::UnitType>(t);
}

RvsdgInterp::RvsdgInterp(
    jlm::llvm::LlvmRvsdgModule & m,
    Mem & me,
    Env & e,
    const ProgMeta & pm,
    uint64_t ms,
    Sched s)
    : mem(me),
      env(e),
      meta(pm),
      maxSteps(ms),
      sched(s),
      rng(mix(s.seed, 4711))
{
  auto & root = m.Rvsdg().GetRootRegion();
  for (size_t i = 0; i < root.narguments(); i++)
  {
    auto imp = dynamic_cast<const jlm::llvm::LlvmGraphImport *>(root.argument(i));
    if (!imp)
      throw Unsupported{ "graph import" };
    Obj * o;
    if (rvsdg::is<rvsdg::FunctionType>(*imp->ValueType()))
    {
      o = mem.alloc(Obj::Func, 1, 16, imp->Name());
      importAt[o->base] = imp;
    }
    else
    {
      auto t = fromJlm(*imp->ValueType());
      if (t->hasBad())
        throw Unsupported{ "import type" };
      o = mem.alloc(Obj::Global, t->size, imp->getAlignment(), imp->Name());
      std::fill(o->p.begin(), o->p.end(), 0);
      o->readonly = imp->isConstant();
    }
    o->site = imp;
    objOf[imp] = o;
  }
  declare(root);
  initDeltas(root);
  // what was visible from outside must still be
  std::set<std::string> exported;
  for (size_t i = 0; i < root.nresults(); i++)
  {
    auto ex = dynamic_cast<const rvsdg::GraphExport *>(root.result(i));
    if (!ex)
      continue;
    auto v = staticVal(*ex->origin());
    auto o = mem.find(v.b);
    if (!o || o->name != ex->Name())
      throw Mismatch{ "graph export " + ex->Name() + " refers to "
                      + (o ? o->name : std::string("nothing")) };
    exported.insert(ex->Name());
  }
  for (auto & [n, fi] : meta.fns)
    if (fi.defined && fi.exported && !fi.discardable && !exported.count(n))
      throw Mismatch{ "exported function @" + n + " is not exported any more" };
  for (auto & g : meta.globals)
    if (g.exported && !g.discardable && !exported.count(g.name))
      throw Mismatch{ "exported global @" + g.name + " is not exported any more" };
}

RvsdgInterp::RvsdgInterp(Mem & me, Env & e, const ProgMeta & pm)
    : mem(me),
      env(e),
      meta(pm),
      maxSteps(0),
      sched{},
      rng(1)
{}

std::function<Val(const std::vector<Val> &)>
RvsdgInterp::pureFunction(const rvsdg::SimpleNode & n)
{
  struct State
  {
    RegionC rc;
    Act act;
    NodeC nc;
    State()
        : act{ rc, {}, nullptr, nullptr, 0, 0 }
    {}
  };
  auto st = std::make_shared<State>();
  st->nc.n = &n;
  st->nc.eval = compileSimple(n, st->nc.cls);
  if (st->nc.cls != 0)
    throw Unsupported{ "memory operation " + n.DebugString() };
  for (size_t i = 0; i < n.ninputs(); i++)
    st->nc.in.push_back(int(i));
  st->nc.out0 = int(n.ninputs());
  st->act.s.resize(n.ninputs() + n.noutputs());
  return [st](const std::vector<Val> & a)
  {
    for (size_t i = 0; i < a.size(); i++)
      st->act.s[i] = a[i];
    st->nc.eval(st->act, st->nc);
    return st->act.s[st->nc.out0];
  };
}

void
RvsdgInterp::declare(const Region & r)
{
  for (auto & node : const_cast<Region &>(r).Nodes())
  {
    if (auto l = dynamic_cast<const rvsdg::LambdaNode *>(&node))
    {
      auto op = dynamic_cast<const jlm::llvm::LlvmLambdaOperation *>(&l->GetOperation());
      if (!op)
        throw Unsupported{ "lambda" };
      auto o = mem.alloc(Obj::Func, 1, 16, op->name());
      o->site = l;
      objOf[l] = o;
      lambdaAt[o->base] = l;
    }
    else if (auto d = dynamic_cast<const rvsdg::DeltaNode *>(&node))
    {
      auto op = dynamic_cast<const jlm::llvm::LlvmDeltaOperation *>(&d->GetOperation());
      if (!op)
        throw Unsupported{ "delta" };
      auto t = fromJlm(*d->Type());
      if (t->hasBad())
        throw Unsupported{ "global type" };
      auto o = mem.alloc(Obj::Global, t->size, op->getAlignment(), op->name());
      o->site = d;
      objOf[d] = o;
    }
    else if (auto p = dynamic_cast<const rvsdg::PhiNode *>(&node))
      declare(*p->subregion());
  }
}

void
RvsdgInterp::initDeltas(const Region & r)
{
  for (auto & node : const_cast<Region &>(r).Nodes())
  {
    if (auto d = dynamic_cast<const rvsdg::DeltaNode *>(&node))
    {
      auto & rc = compile(*d->subregion());
      std::vector<Obj *> frame;
      Act a{ rc, std::vector<Val>(rc.nslots), nullptr, &frame };
      for (size_t i = 0; i < d->subregion()->narguments(); i++)
        a.s[i] = staticVal(*d->subregion()->argument(i));
      exec(a);
      auto o = objOf.at(d);
      auto & dop = *dynamic_cast<const jlm::llvm::LlvmDeltaOperation *>(&d->GetOperation());
      using L = jlm::llvm::Linkage;
      if (dop.linkage() == L::weakAnyLinkage || dop.linkage() == L::linkOnceAnyLinkage)
        std::fill(o->p.begin(), o->p.end(), 0); // linking picks the definition of the environment
      else
        mem.rawStore(o, 0, fromJlm(*d->Type()), a.s[rc.results[0]]);
      o->readonly = d->constant();
    }
    else if (auto p = dynamic_cast<const rvsdg::PhiNode *>(&node))
      initDeltas(*p->subregion());
  }
}

// a value outside of all functions
Val
RvsdgInterp::staticVal(const Output & o)
{
  if (auto imp = dynamic_cast<const jlm::llvm::LlvmGraphImport *>(&o))
    return Val(objOf.at(imp)->base);
  if (auto node = rvsdg::TryGetOwnerNode<Node>(o))
  {
    if (dynamic_cast<const rvsdg::LambdaNode *>(node)
        || dynamic_cast<const rvsdg::DeltaNode *>(node))
      return Val(objOf.at(node)->base);
    if (auto p = dynamic_cast<const rvsdg::PhiNode *>(node))
      return staticVal(*p->MapOutputFixVar(o).result->origin());
    if (auto s = dynamic_cast<const rvsdg::SimpleNode *>(node))
    {
      if (rvsdg::is<jlm::llvm::FunctionToPointerOperation>(s->GetOperation())
          || rvsdg::is<jlm::llvm::PointerToFunctionOperation>(s->GetOperation()))
        return staticVal(*s->input(0)->origin());
    }
    throw Unsupported{ "value at module level: " + node->DebugString() };
  }
  auto region = o.region();
  auto owner = region->node();
  if (auto l = dynamic_cast<const rvsdg::LambdaNode *>(owner))
    return staticVal(*l->MapBinderContextVar(o)->input->origin());
  if (auto d = dynamic_cast<const rvsdg::DeltaNode *>(owner))
    return staticVal(*d->MapBinderContextVar(o).input->origin());
  if (auto p = dynamic_cast<const rvsdg::PhiNode *>(owner))
  {
    auto v = p->MapArgument(o);
    if (auto fix = std::get_if<rvsdg::PhiNode::FixVar>(&v))
      return staticVal(*fix->result->origin());
    return staticVal(*std::get<rvsdg::PhiNode::ContextVar>(v).input->origin());
  }
  throw Unsupported{ "value at module level" };
}

const Node *
RvsdgInterp::functionAt(uint64_t addr) const
{
  auto it = lambdaAt.find(addr);
  return it == lambdaAt.end() ? nullptr : it->second;
}

void
RvsdgInterp::access(NodeC & n, Act & a, int operand, uint64_t addr, uint64_t size, bool w)
{
  if (onAccess && size)
    onAccess(n.n, a, operand, addr, size, w);
}

// ---------------------------------------------------------------------------- simple operations

using Ev = std::function<void(Act &, NodeC &)>;

static Ev
un(std::function<Val(const Val &)> f)
{
  return [f](Act & a, NodeC & n)
  {
    a.s[n.out0] = f(a.s[n.in[0]]);
  };
}
static Ev
bi(std::function<Val(const Val &, const Val &)> f)
{
  return [f](Act & a, NodeC & n)
  {
    a.s[n.out0] = f(a.s[n.in[0]], a.s[n.in[1]]);
  };
}
static Ev
konst(Val v)
{
  return [v](Act & a, NodeC & n)
  {
    a.s[n.out0] = v;
  };
}

static Val
bitsOf(const rvsdg::BitValueRepresentation & r)
{
  if (r.nbits() > 64)
    throw Unsupported{ "wide integer" };
  Val v;
  for (size_t i = 0; i < r.nbits(); i++)
  {
    if (r[i] == '1')
      v.b |= 1ull << i;
    else if (r[i] != '0')
      v.p = true;
  }
  if (v.p)
    v.b = 0;
  return v;
}

static std::function<Val(const Val &, const Val &)>
scalarBin(const rvsdg::SimpleOperation & op)
{
  using namespace jlm::llvm;
  auto t = fromJlm(*op.argument(0));
  unsigned w = t->width;
  static const std::map<std::type_index, Bin> ib = {
    { typeid(IntegerAddOperation), Bin::Add },   { typeid(IntegerSubOperation), Bin::Sub },
    { typeid(IntegerMulOperation), Bin::Mul },   { typeid(IntegerUDivOperation), Bin::UDiv },
    { typeid(IntegerSDivOperation), Bin::SDiv }, { typeid(IntegerURemOperation), Bin::URem },
    { typeid(IntegerSRemOperation), Bin::SRem }, { typeid(IntegerShlOperation), Bin::Shl },
    { typeid(IntegerLShrOperation), Bin::LShr }, { typeid(IntegerAShrOperation), Bin::AShr },
    { typeid(IntegerAndOperation), Bin::And },   { typeid(IntegerOrOperation), Bin::Or },
    { typeid(IntegerXorOperation), Bin::Xor },   { typeid(rvsdg::bitadd_op), Bin::Add },
    { typeid(rvsdg::bitsub_op), Bin::Sub },      { typeid(rvsdg::bitmul_op), Bin::Mul },
    { typeid(rvsdg::bitudiv_op), Bin::UDiv },    { typeid(rvsdg::bitsdiv_op), Bin::SDiv },
    { typeid(rvsdg::bitumod_op), Bin::URem },    { typeid(rvsdg::bitsmod_op), Bin::SRem },
    { typeid(rvsdg::bitshl_op), Bin::Shl },      { typeid(rvsdg::bitshr_op), Bin::LShr },
    { typeid(rvsdg::bitashr_op), Bin::AShr },    { typeid(rvsdg::bitand_op), Bin::And },
    { typeid(rvsdg::bitor_op), Bin::Or },        { typeid(rvsdg::bitxor_op), Bin::Xor }
  };
  static const std::map<std::type_index, Cmp> ic = {
    { typeid(IntegerEqOperation), Cmp::Eq },   { typeid(IntegerNeOperation), Cmp::Ne },
    { typeid(IntegerUgtOperation), Cmp::Ugt }, { typeid(IntegerUgeOperation), Cmp::Uge },
    { typeid(IntegerUltOperation), Cmp::Ult }, { typeid(IntegerUleOperation), Cmp::Ule },
    { typeid(IntegerSgtOperation), Cmp::Sgt }, { typeid(IntegerSgeOperation), Cmp::Sge },
    { typeid(IntegerSltOperation), Cmp::Slt }, { typeid(IntegerSleOperation), Cmp::Sle },
    { typeid(rvsdg::biteq_op), Cmp::Eq },      { typeid(rvsdg::bitne_op), Cmp::Ne },
    { typeid(rvsdg::bitugt_op), Cmp::Ugt },    { typeid(rvsdg::bituge_op), Cmp::Uge },
    { typeid(rvsdg::bitult_op), Cmp::Ult },    { typeid(rvsdg::bitule_op), Cmp::Ule },
    { typeid(rvsdg::bitsgt_op), Cmp::Sgt },    { typeid(rvsdg::bitsge_op), Cmp::Sge },
    { typeid(rvsdg::bitslt_op), Cmp::Slt },    { typeid(rvsdg::bitsle_op), Cmp::Sle }
  };
  if (auto it = ib.find(typeid(op)); it != ib.end())
  {
    auto o = it->second;
    return [o, w](const Val & a, const Val & b) { return binInt(o, w, a, b); };
  }
  if (auto it = ic.find(typeid(op)); it != ic.end())
  {
    auto o = it->second;
    return [o, w](const Val & a, const Val & b) { return cmpInt(o, w, a, b); };
  }
  if (auto p = dynamic_cast<const PtrCmpOperation *>(&op))
  {
    static const std::map<ICmpPredicate, Cmp> pm = {
      { ICmpPredicate::Eq, Cmp::Eq },   { ICmpPredicate::Ne, Cmp::Ne },
      { ICmpPredicate::Ugt, Cmp::Ugt }, { ICmpPredicate::Uge, Cmp::Uge },
      { ICmpPredicate::Ult, Cmp::Ult }, { ICmpPredicate::Ule, Cmp::Ule },
      { ICmpPredicate::Sgt, Cmp::Sgt }, { ICmpPredicate::Sge, Cmp::Sge },
      { ICmpPredicate::Slt, Cmp::Slt }, { ICmpPredicate::Sle, Cmp::Sle }
    };
    auto c = pm.at(p->predicate());
    return [c](const Val & a, const Val & b) { return cmpInt(c, 64, a, b); };
  }
  auto isD = t->kind == Ty::Double;
  if (t->kind == Ty::Double || t->kind == Ty::Float)
  {
    if (auto f = dynamic_cast<const FBinaryOperation *>(&op))
    {
      Bin o = Bin::FAdd;
      switch (f->fpop())
      {
      case jlm::llvm::fpop::add: o = Bin::FAdd; break;
      case jlm::llvm::fpop::sub: o = Bin::FSub; break;
      case jlm::llvm::fpop::mul: o = Bin::FMul; break;
      case jlm::llvm::fpop::div: o = Bin::FDiv; break;
      case jlm::llvm::fpop::mod: o = Bin::FRem; break;
      }
      return [o, isD](const Val & a, const Val & b) { return binFp(o, isD, a, b); };
    }
    if (auto f = dynamic_cast<const FCmpOperation *>(&op))
    {
      unsigned p = 0;
      switch (f->cmp())
      {
      case jlm::llvm::fpcmp::FALSE: p = 0; break;
      case jlm::llvm::fpcmp::oeq: p = 1; break;
      case jlm::llvm::fpcmp::ogt: p = 2; break;
      case jlm::llvm::fpcmp::oge: p = 3; break;
      case jlm::llvm::fpcmp::olt: p = 4; break;
      case jlm::llvm::fpcmp::ole: p = 5; break;
      case jlm::llvm::fpcmp::one: p = 6; break;
      case jlm::llvm::fpcmp::ord: p = 7; break;
      case jlm::llvm::fpcmp::uno: p = 8; break;
      case jlm::llvm::fpcmp::ueq: p = 9; break;
      case jlm::llvm::fpcmp::ugt: p = 10; break;
      case jlm::llvm::fpcmp::uge: p = 11; break;
      case jlm::llvm::fpcmp::ult: p = 12; break;
      case jlm::llvm::fpcmp::ule: p = 13; break;
      case jlm::llvm::fpcmp::une: p = 14; break;
      case jlm::llvm::fpcmp::TRUE: p = 15; break;
      }
      return [p, isD](const Val & a, const Val & b) { return cmpFp(p, isD, a, b); };
    }
    if (rvsdg::is<CopysignOperation>(op))
      return [isD](const Val & a, const Val & b) { return copysignV(isD, a, b); };
  }
  bool lanes = t->kind == Ty::Vec && t->elt->kind == Ty::Int;
  if (t->kind == Ty::Int || lanes)
  {
    auto mm = [&](Cmp c)
    {
      return [c, lw = lanes ? t->elt->width : w](const Val & a, const Val & b)
      {
        auto q = cmpInt(c, lw, a, b);
        return q.p ? q : q.b ? a : b;
      };
    };
    if (rvsdg::is<SMaxOperation>(op))
      return mm(Cmp::Sgt);
    if (rvsdg::is<SMinOperation>(op))
      return mm(Cmp::Slt);
    if (rvsdg::is<UMaxOperation>(op))
      return mm(Cmp::Ugt);
    if (rvsdg::is<UMinOperation>(op))
      return mm(Cmp::Ult);
  }
  return nullptr;
}

static std::function<Val(const Val &)>
scalarUn(const rvsdg::SimpleOperation & op)
{
  using namespace jlm::llvm;
  auto t = fromJlm(*op.argument(0)), r = fromJlm(*op.result(0));
  unsigned w = t->width, rw = r->width;
  bool d = t->kind == Ty::Double, rd = r->kind == Ty::Double;
  if (rvsdg::is<FNegOperation>(op))
    return [d](const Val & a) { return fneg(d, a); };
  if (rvsdg::is<ZExtOperation>(op))
    return [w](const Val & a) { return a.p ? a : Val(a.b & maskW(w)); };
  if (rvsdg::is<SExtOperation>(op))
    return [w, rw](const Val & a) { return a.p ? a : Val(uint64_t(sx(a.b, w)) & maskW(rw)); };
  if (rvsdg::is<TruncOperation>(op))
    return [rw](const Val & a) { return a.p ? a : Val(a.b & maskW(rw)); };
  if (rvsdg::is<PtrToIntOperation>(op))
    return [rw](const Val & a) { return a.p ? a : Val(a.b & maskW(rw)); };
  if (rvsdg::is<IntToPtrOperation>(op))
    return [w](const Val & a) { return a.p ? a : Val(a.b & maskW(w)); };
  if (rvsdg::is<FPExtOperation>(op))
    return [d](const Val & a) { return a.p ? a : fromD(d ? asD(a) : asF(a)); };
  if (rvsdg::is<FPTruncOperation>(op))
    return [d](const Val & a) { return a.p ? a : fromF(d ? float(asD(a)) : asF(a)); };
  if (rvsdg::is<UIToFPOperation>(op))
    return [rd, w](const Val & a) { return int2fp(rd, false, w, a); };
  if (rvsdg::is<SIToFPOperation>(op))
    return [rd, w](const Val & a) { return int2fp(rd, true, w, a); };
  if (rvsdg::is<FPToUIOperation>(op))
    return [d, rw](const Val & a) { return fp2int(d, false, rw, a); };
  if (rvsdg::is<FPToSIOperation>(op))
    return [d, rw](const Val & a) { return fp2int(d, true, rw, a); };
  if (rvsdg::is<FAbsOperation>(op))
    return [d](const Val & a) { return roundFp(5, d, a); };
  if (rvsdg::is<FloorOperation>(op))
    return [d](const Val & a) { return roundFp(0, d, a); };
  if (rvsdg::is<CeilOperation>(op))
    return [d](const Val & a) { return roundFp(1, d, a); };
  if (rvsdg::is<RoundOperation>(op))
    return [d](const Val & a) { return roundFp(2, d, a); };
  if (rvsdg::is<TruncIntrinsicOperation>(op))
    return [d](const Val & a) { return roundFp(3, d, a); };
  if (rvsdg::is<RIntOperation>(op))
    return [d](const Val & a) { return roundFp(4, d, a); };
  if (rvsdg::is<BSwapOperation>(op))
    return [w](const Val & a) { return bswap(w, a); };
  if (rvsdg::is<CtpopOperation>(op))
    return [w](const Val & a) { return a.p ? a : Val(__builtin_popcountll(a.b & maskW(w))); };
  if (rvsdg::is<FreezeOperation>(op))
  {
    struct F
    {
      static Val
      go(const Val & a)
      {
        Val r = a;
        r.p = false;
        if (a.p)
          r.b = 0;
        for (auto & x : r.e)
          x = go(x);
        return r;
      }
    };
    return [](const Val & a) { return F::go(a); };
  }
  if (rvsdg::is<BitCastOperation>(op))
    return [t, r](const Val & a) { return bitcastV(t, r, a); };
  if (rvsdg::is<FunctionToPointerOperation>(op) || rvsdg::is<PointerToFunctionOperation>(op))
    return [](const Val & a) { return a; };
  if (dynamic_cast<const rvsdg::bitnot_op *>(&op))
    return [w](const Val & a) { return a.p ? a : Val(~a.b & maskW(w)); };
  if (dynamic_cast<const rvsdg::bitneg_op *>(&op))
    return [w](const Val & a) { return a.p ? a : Val((0 - a.b) & maskW(w)); };
  return nullptr;
}

Ev
RvsdgInterp::compileSimple(const rvsdg::SimpleNode & node, int & cls)
{
  using namespace jlm::llvm;
  auto & op = node.GetOperation();
  for (size_t i = 0; i < node.noutputs(); i++)
    if (tyOfOut(*node.output(i))->hasBad())
      throw Unsupported{ "type of " + node.DebugString() };
  auto rt = node.noutputs() ? tyOfOut(*node.output(0)) : nullptr;
  auto t0 = node.ninputs() ? fromJlm(*node.input(0)->Type()) : nullptr;

  // ---- constants
  if (auto c = dynamic_cast<const IntegerConstantOperation *>(&op))
    return konst(bitsOf(c->Representation()));
  if (auto c = dynamic_cast<const rvsdg::BitConstantOperation *>(&op))
    return konst(bitsOf(c->value()));
  if (auto c = dynamic_cast<const rvsdg::ControlConstantOperation *>(&op))
    return konst(Val(c->value().alternative()));
  if (auto c = dynamic_cast<const ConstantFP *>(&op))
    return konst(Val(c->constant().bitcastToAPInt().getZExtValue()));
  if (rvsdg::is<ConstantPointerNullOperation>(op))
    return konst(Val(0));
  if (rvsdg::is<UndefValueOperation>(op) || rvsdg::is<PoisonValueOperation>(op))
    return konst(poisonOf(rt));
  if (rvsdg::is<ConstantAggregateZeroOperation>(op))
    return konst(zeroOf(rt));
  if (rvsdg::is<ConstantDataArrayOperation>(op) || rvsdg::is<ConstantArrayOperation>(op)
      || rvsdg::is<ConstantStructOperation>(op) || rvsdg::is<ConstantVectorOperation>(op)
      || rvsdg::is<ConstantDataVectorOperation>(op))
    return [](Act & a, NodeC & n)
    {
      Val v;
      for (auto i : n.in)
        v.e.push_back(a.s[i]);
      a.s[n.out0] = v;
    };

  // ---- pure operations
  if (auto m = dynamic_cast<const rvsdg::MatchOperation *>(&op))
    return un(
        [m](const Val & a) { return a.p ? a : Val(m->alternative(a.b & maskW(unsigned(m->nbits())))); });
  if (rvsdg::is<ControlToIntOperation>(op))
    return un([](const Val & a) { return a; });
  if (rvsdg::is<SelectOperation>(op))
    return [rt](Act & a, NodeC & n)
    {
      auto & c = a.s[n.in[0]];
      a.s[n.out0] = c.p ? poisonOf(rt) : a.s[n.in[c.b & 1 ? 1 : 2]];
    };
  if (rvsdg::is<VectorSelectOperation>(op))
    return [rt](Act & a, NodeC & n)
    {
      auto &c = a.s[n.in[0]], &x = a.s[n.in[1]], &y = a.s[n.in[2]];
      Val v;
      for (size_t i = 0; i < x.e.size(); i++)
        v.e.push_back(c.e[i].p ? Val::poison() : c.e[i].b & 1 ? x.e[i] : y.e[i]);
      a.s[n.out0] = v;
    };
  if (auto v = dynamic_cast<const VectorUnaryOperation *>(&op))
  {
    auto f = scalarUn(v->operation());
    if (!f)
      throw Unsupported{ "operation " + op.debug_string() };
    return un(
        [f](const Val & a)
        {
          Val r;
          for (auto & x : a.e)
            r.e.push_back(f(x));
          return r;
        });
  }
  if (auto v = dynamic_cast<const VectorBinaryOperation *>(&op))
  {
    auto f = scalarBin(v->operation());
    if (!f)
      throw Unsupported{ "operation " + op.debug_string() };
    return bi(
        [f](const Val & a, const Val & b)
        {
          Val r;
          for (size_t i = 0; i < a.e.size(); i++)
            r.e.push_back(f(a.e[i], b.e[i]));
          return r;
        });
  }
  if (rvsdg::is<ExtractElementOperation>(op))
    return [rt](Act & a, NodeC & n)
    {
      auto &v = a.s[n.in[0]], &x = a.s[n.in[1]];
      a.s[n.out0] = x.p || x.b >= v.e.size() ? poisonOf(rt) : v.e[x.b];
    };
  if (rvsdg::is<InsertElementOperation>(op))
    return [rt](Act & a, NodeC & n)
    {
      auto v = a.s[n.in[0]];
      auto & x = a.s[n.in[2]];
      if (x.p || x.b >= v.e.size())
        v = poisonOf(rt);
      else
        v.e[x.b] = a.s[n.in[1]];
      a.s[n.out0] = v;
    };
  if (auto sv = dynamic_cast<const ShuffleVectorOperation *>(&op))
  {
    std::vector<int> mask(sv->Mask().begin(), sv->Mask().end());
    return bi(
        [mask](const Val & a, const Val & b)
        {
          Val r;
          for (int m : mask)
            r.e.push_back(
                m < 0                  ? Val::poison()
                : m < int(a.e.size()) ? a.e[m]
                                      : b.e[m - a.e.size()]);
          return r;
        });
  }
  if (auto x = dynamic_cast<const ExtractValueOperation *>(&op))
  {
    std::vector<unsigned> ix(x->begin(), x->end());
    return un(
        [ix](const Val & a)
        {
          const Val * p = &a;
          for (auto i : ix)
            p = &p->e.at(i);
          return Val(*p);
        });
  }
  if (auto x = dynamic_cast<const InsertValueOperation *>(&op))
  {
    std::vector<unsigned> ix(x->getIndices().begin(), x->getIndices().end());
    return bi(
        [ix](const Val & a, const Val & b)
        {
          Val r = a;
          Val * p = &r;
          for (auto i : ix)
            p = &p->e.at(i);
          *p = b;
          return r;
        });
  }
  if (auto g = dynamic_cast<const GetElementPtrOperation *>(&op))
  {
    auto pt = fromJlm(*g->getPointeeType());
    if (pt->hasBad())
      throw Unsupported{ "getelementptr" };
    std::vector<unsigned> ws;
    for (size_t i = 1; i < node.ninputs(); i++)
      ws.push_back(fromJlm(*node.input(i)->Type())->width);
    if (t0->kind != Ty::Ptr)
      throw Unsupported{ "vector getelementptr" };
    auto in = this;
    return [pt, ws, in](Act & a, NodeC & n)
    {
      Val r = a.s[n.in[0]];
      const Ty * t = pt;
      for (size_t i = 0; i < ws.size(); i++)
      {
        auto & x = a.s[n.in[i + 1]];
        if (x.p)
          r.p = true;
        auto k = sx(x.b, ws[i]);
        if (i == 0)
          r.b += uint64_t(k) * t->size;
        else if (t->kind == Ty::Struct)
        {
          if (x.p || uint64_t(k) >= t->fields.size())
            throw Mismatch{ "getelementptr into a struct with a bad index" };
          r.b += t->offset(k);
          t = t->fields[k];
        }
        else
        {
          t = t->elt;
          if (!t)
            throw Mismatch{ "getelementptr into a scalar" };
          r.b += uint64_t(k) * t->size;
        }
      }
      if (!r.p && in->onAccess)
      {
        // an element outside of the object, computed speculatively, points to nothing
        auto b = a.s[n.in[0]].b;
        auto o = in->mem.find(b);
        if (o && b >= o->base && b <= o->base + o->size && (r.b < o->base || r.b > o->base + o->size))
          r.p = true;
      }
      if (r.p)
        r.b = 0;
      a.s[n.out0] = r;
    };
  }
  if (rvsdg::is<FMulAddIntrinsicOperation>(op))
  {
    bool d = (t0->kind == Ty::Vec ? t0->elt : t0)->kind == Ty::Double;
    return [d](Act & a, NodeC & n)
    {
      auto &x = a.s[n.in[0]], &y = a.s[n.in[1]], &z = a.s[n.in[2]];
      if (x.e.empty())
        a.s[n.out0] = fmulAdd(d, x, y, z);
      else
      {
        Val r;
        for (size_t i = 0; i < x.e.size(); i++)
          r.e.push_back(fmulAdd(d, x.e[i], y.e[i], z.e[i]));
        a.s[n.out0] = r;
      }
    };
  }
  if (rvsdg::is<FShlOperation>(op))
  {
    unsigned w = t0->width;
    if (t0->kind != Ty::Int)
      throw Unsupported{ "vector fshl" };
    return [w](Act & a, NodeC & n)
    {
      a.s[n.out0] = fshl(w, a.s[n.in[0]], a.s[n.in[1]], a.s[n.in[2]]);
    };
  }
  if (rvsdg::is<CtlzOperation>(op) || rvsdg::is<CttzOperation>(op) || rvsdg::is<AbsOperation>(op))
  {
    if (t0->kind != Ty::Int)
      throw Unsupported{ "vector intrinsic" };
    unsigned w = t0->width;
    int k = rvsdg::is<CtlzOperation>(op) ? 0 : rvsdg::is<CttzOperation>(op) ? 1 : 2;
    return bi(
        [w, k](const Val & a, const Val & b)
        {
          bool f = b.b & 1;
          return k == 0 ? ctlz(w, a, f) : k == 1 ? cttz(w, a, f) : absInt(w, a, f);
        });
  }
  {
    int k = rvsdg::is<SAddWithOverflowOperation>(op)   ? 0
          : rvsdg::is<UAddWithOverflowOperation>(op) ? 1
          : rvsdg::is<SSubWithOverflowOperation>(op) ? 2
          : rvsdg::is<SMulWithOverflowOperation>(op) ? 4
          : rvsdg::is<UMulWithOverflowOperation>(op) ? 5
                                                     : -1;
    if (k >= 0)
    {
      if (t0->kind != Ty::Int)
        throw Unsupported{ "vector intrinsic" };
      unsigned w = t0->width;
      return bi([w, k](const Val & a, const Val & b) { return withOverflow(Ov(k), w, a, b); });
    }
  }
  if (rvsdg::is<IsFPClassOperation>(op))
  {
    bool d = t0->kind == Ty::Double;
    if (t0->kind == Ty::Vec)
      throw Unsupported{ "vector is.fpclass" };
    return bi([d](const Val & a, const Val & b) { return isFpClass(d, a, b); });
  }
  if (rvsdg::is<PtrMaskOperation>(op))
    return bi(
        [](const Val & a, const Val & b)
        { return a.p || b.p ? Val::poison() : Val(a.b & b.b); });
  if (rvsdg::is<IsConstantOperation>(op))
    return un([](const Val &) { return Val(0); });
  if (node.ninputs() == 2 && node.noutputs() == 1)
    if (auto f = scalarBin(op))
    {
      if (t0->kind == Ty::Vec)
        return bi(
            [f](const Val & a, const Val & b)
            {
              Val r;
              for (size_t i = 0; i < a.e.size(); i++)
                r.e.push_back(f(a.e[i], b.e[i]));
              return r;
            });
      return bi(f);
    }
  if (node.ninputs() == 1 && node.noutputs() == 1)
    if (auto f = scalarUn(op))
      return un(f);
  if (dynamic_cast<const rvsdg::FlattenedBinaryOperation *>(&op))
  {
    auto & fb = static_cast<const rvsdg::FlattenedBinaryOperation &>(op);
    auto f = scalarBin(fb.bin_operation());
    if (f)
      return [f](Act & a, NodeC & n)
      {
        Val v = a.s[n.in[0]];
        for (size_t i = 1; i < n.in.size(); i++)
          v = f(v, a.s[n.in[i]]);
        a.s[n.out0] = v;
      };
  }

  // ---- tokens
  if (dynamic_cast<const MemoryStateOperation *>(&op))
  {
    return [](Act & a, NodeC & n)
    {
      for (size_t i = 0; i < n.n->noutputs(); i++)
        a.s[n.out0 + i] = Val(0);
    };
  }
  if (rvsdg::is<IOBarrierOperation>(op))
    return un([](const Val & a) { return a; });
  if (rvsdg::is<VariadicArgumentListOperation>(op))
  {
    std::vector<const Ty *> ts;
    for (size_t i = 0; i < node.ninputs(); i++)
      ts.push_back(fromJlm(*node.input(i)->Type()));
    return [ts](Act & a, NodeC & n)
    {
      Val v;
      for (size_t i = 0; i < n.in.size(); i++)
      {
        v.e.push_back(a.s[n.in[i]]);
        v.e.back().ty = ts[i];
      }
      a.s[n.out0] = v;
    };
  }

  // ---- memory
  auto states = [](Act & a, NodeC & n, size_t from)
  {
    for (size_t i = from; i < n.n->noutputs(); i++)
      a.s[n.out0 + i] = Val(0);
  };
  auto & I = *this;
  if (auto l = dynamic_cast<const LoadOperation *>(&op))
  {
    bool vol = rvsdg::is<LoadVolatileOperation>(op);
    cls = vol ? 2 : 1;
    auto t = fromJlm(*l->GetLoadedType());
    auto al = l->GetAlignment();
    return [&I, t, al, vol, states](Act & a, NodeC & n)
    {
      auto & p = a.s[n.in[0]];
      if (p.p)
        throw Ub{ "load through an undefined pointer" };
      I.mem.access(p.b, t->store, false);
      I.mem.checkAlign(p.b, al);
      I.access(n, a, 0, p.b, t->store, false);
      auto addr = p.b;
      a.s[n.out0] = vol ? I.env.volLoad(t, addr) : I.mem.load(t, addr);
      states(a, n, 1);
    };
  }
  if (auto l = dynamic_cast<const StoreOperation *>(&op))
  {
    bool vol = rvsdg::is<StoreVolatileOperation>(op);
    cls = 2;
    auto t = fromJlm(l->GetStoredType());
    auto al = l->GetAlignment();
    return [&I, t, al, vol, states](Act & a, NodeC & n)
    {
      auto & p = a.s[n.in[0]];
      if (p.p)
        throw Ub{ "store through an undefined pointer" };
      I.mem.access(p.b, t->store, true);
      I.mem.checkAlign(p.b, al);
      I.access(n, a, 0, p.b, t->store, true);
      if (vol)
        I.env.volStore(t, p.b, a.s[n.in[1]]);
      else
        I.mem.store(t, p.b, a.s[n.in[1]]);
      states(a, n, 0);
    };
  }
  if (auto al = dynamic_cast<const AllocaOperation *>(&op))
  {
    cls = 2;
    auto t = fromJlm(*al->allocatedType());
    if (t->hasBad())
      throw Unsupported{ "alloca" };
    auto align = al->alignment();
    return [&I, t, align](Act & a, NodeC & n)
    {
      auto & c = a.s[n.in[0]];
      if (c.p)
        throw Ub{ "alloca of undefined size" };
      auto o = I.mem.alloc(Obj::Stack, t->size * c.b, align);
      o->site = n.n;
      a.frame->push_back(o);
      I.maxAllocas = std::max(I.maxAllocas, ++I.frames.back().allocas[n.n]);
      a.s[n.out0] = Val(o->base);
      for (size_t i = 1; i < n.n->noutputs(); i++)
        a.s[n.out0 + i] = Val(0);
    };
  }
  if (rvsdg::is<MallocOperation>(op))
  {
    cls = 2;
    auto w = t0->width;
    return [&I, w, states](Act & a, NodeC & n)
    {
      auto & c = a.s[n.in[0]];
      if (c.p)
        throw Ub{ "malloc of undefined size" };
      a.s[n.out0] = Val(I.env.mallocCall(c.b & maskW(w), n.n));
      states(a, n, 1);
    };
  }
  if (rvsdg::is<FreeOperation>(op))
  {
    cls = 2;
    return [&I, states](Act & a, NodeC & n)
    {
      auto & p = a.s[n.in[0]];
      if (p.p)
        throw Ub{ "free of an undefined pointer" };
      I.mem.free_(p.b);
      states(a, n, 0);
    };
  }
  if (dynamic_cast<const MemCpyOperation *>(&op) || dynamic_cast<const MemMoveOperation *>(&op))
  {
    if (rvsdg::is<MemCpyVolatileOperation>(op))
      throw Unsupported{ "volatile memcpy" };
    cls = 2;
    bool move = dynamic_cast<const MemMoveOperation *>(&op) != nullptr;
    auto w = fromJlm(*node.input(2)->Type())->width;
    return [&I, move, w, states](Act & a, NodeC & n)
    {
      auto &d = a.s[n.in[0]], &s = a.s[n.in[1]], &l = a.s[n.in[2]];
      if (l.p)
        throw Ub{ "memcpy of undefined size" };
      auto len = l.b & maskW(w);
      if (len)
      {
        if (d.p || s.p)
          throw Ub{ "memcpy through an undefined pointer" };
        I.mem.memcpy_(d.b, s.b, len, move);
        I.access(n, a, 0, d.b, len, true);
        I.access(n, a, 1, s.b, len, false);
      }
      states(a, n, 0);
    };
  }
  if (dynamic_cast<const MemSetOperation *>(&op))
  {
    cls = 2;
    auto w = fromJlm(*node.input(2)->Type())->width;
    return [&I, w, states](Act & a, NodeC & n)
    {
      auto &d = a.s[n.in[0]], &v = a.s[n.in[1]], &l = a.s[n.in[2]];
      if (l.p)
        throw Ub{ "memset of undefined size" };
      auto len = l.b & maskW(w);
      if (len)
      {
        if (d.p)
          throw Ub{ "memset through an undefined pointer" };
        I.mem.memset_(d.b, v, len);
        I.access(n, a, 0, d.b, len, true);
      }
      states(a, n, 0);
    };
  }
  if (rvsdg::is<CallOperation>(op))
  {
    cls = 2;
    std::vector<const Ty *> tys;
    std::vector<bool> st;
    for (size_t i = 1; i < node.ninputs(); i++)
    {
      auto & t = *node.input(i)->Type();
      st.push_back(isState(t));
      tys.push_back(isState(t) ? nullptr : fromJlm(t));
    }
    bool hasRet = node.noutputs() && !isState(*node.output(0)->Type());
    auto ret = hasRet ? tyOfOut(*node.output(0)) : tyVoid();
    return [&I, tys, st, hasRet, ret, states](Act & a, NodeC & n)
    {
      auto & f = a.s[n.in[0]];
      if (f.p)
        throw Ub{ "call through an undefined pointer" };
      std::vector<Val> args;
      std::vector<const Ty *> ts;
      for (size_t i = 0; i < tys.size(); i++)
        if (!st[i])
        {
          if (tys[i]->kind == Ty::VarArgs)
          {
            for (auto & x : a.s[n.in[i + 1]].e)
            {
              args.push_back(x);
              ts.push_back(x.ty);
            }
            continue;
          }
          args.push_back(a.s[n.in[i + 1]]);
          ts.push_back(tys[i]);
        }
      auto fb = f.b;
      auto r = I.callNode(a, n.n, fb, args, ts, ret);
      if (hasRet)
        a.s[n.out0] = r;
      states(a, n, hasRet ? 1 : 0);
    };
  }
  throw Unsupported{ "operation " + op.debug_string() };
}

/* The environment has its own definition of such a function. */
static bool
interposable(const rvsdg::LambdaNode & l)
{
  using L = jlm::llvm::Linkage;
  auto op = dynamic_cast<const jlm::llvm::LlvmLambdaOperation *>(&l.GetOperation());
  return op
      && (op->linkage() == L::weakAnyLinkage || op->linkage() == L::linkOnceAnyLinkage);
}
static const std::string &
lambdaName(const rvsdg::LambdaNode & l)
{
  return static_cast<const jlm::llvm::LlvmLambdaOperation &>(l.GetOperation()).name();
}

Val
RvsdgInterp::callNode(
    Act & a,
    const Node * n,
    uint64_t addr,
    const std::vector<Val> & args,
    const std::vector<const Ty *> & tys,
    const Ty * ret)
{
  if (auto it = importAt.find(addr); it != importAt.end())
  {
    auto & name = it->second->Name();
    if (name == "malloc" && args.size() == 1)
    {
      if (args[0].p)
        throw Ub{ "malloc of undefined size" };
      return Val(env.mallocCall(args[0].b, it->second));
    }
    if (name == "free" && args.size() == 1)
    {
      if (args[0].p)
        throw Ub{ "free of an undefined pointer" };
      mem.free_(args[0].b);
      return Val();
    }
    if (name.rfind("llvm.va_start", 0) == 0)
    {
      auto & fr = frames.back();
      if (!fr.variadic)
        throw Ub{ "va_start in a function without variable arguments" };
      auto av = args;
      auto at = tys;
      av.insert(av.end(), fr.varArgs.begin(), fr.varArgs.end());
      at.insert(at.end(), fr.varTys.begin(), fr.varTys.end());
      return env.external(name, ret, av, at);
    }
    return env.external(name, ret, args, tys);
  }
  auto it = lambdaAt.find(addr);
  if (it == lambdaAt.end())
  {
    Val r;
    if (env.foreignCall(addr, args, ret, r))
      return r;
    throw Ub{ "call of something that is not a function" };
  }
  auto l = static_cast<const rvsdg::LambdaNode *>(it->second);
  size_t k = 0;
  for (auto arg : l->GetFunctionArguments())
  {
    if (isState(*arg->Type()))
      continue;
    if (rvsdg::is<jlm::llvm::VariableArgumentType>(arg->Type()))
    {
      k = args.size();
      continue;
    }
    if (k >= args.size() || fromJlm(*arg->Type()) != tys[k])
      throw Ub{ "call through a wrong function type" };
    k++;
  }
  if (k != args.size())
    throw Ub{ "call through a wrong function type" };
  if (interposable(*l))
    return env.external(lambdaName(*l), ret, args, tys);
  return runLambda(l, args, &tys);
}

Val
RvsdgInterp::callAddr(uint64_t addr, const std::vector<Val> & args)
{
  if (auto it = importAt.find(addr); it != importAt.end())
  {
    auto ft = std::dynamic_pointer_cast<const rvsdg::FunctionType>(it->second->ValueType());
    std::vector<const Ty *> tys;
    for (size_t i = 0; i < ft->NumArguments(); i++)
      if (!isState(ft->ArgumentType(i)))
        tys.push_back(fromJlm(ft->ArgumentType(i)));
    auto ret = tyVoid();
    if (ft->NumResults() && !isState(ft->ResultType(0)))
      ret = fromJlm(ft->ResultType(0));
    if (tys.size() != args.size())
      throw Unsupported{ "variadic call from the environment" };
    return env.external(it->second->Name(), ret, args, tys);
  }
  auto it = lambdaAt.find(addr);
  if (it == lambdaAt.end())
  {
    Val r;
    if (env.foreignCall(addr, args, tyVoid(), r))
      return r;
    throw Ub{ "call of something that is not a function" };
  }
  auto l = static_cast<const rvsdg::LambdaNode *>(it->second);
  if (interposable(*l))
  {
    auto & ft = l->GetOperation().type();
    std::vector<const Ty *> tys;
    for (size_t i = 0; i < ft.NumArguments(); i++)
      if (!isState(ft.ArgumentType(i)))
        tys.push_back(fromJlm(ft.ArgumentType(i)));
    auto ret = tyVoid();
    if (ft.NumResults() && !isState(ft.ResultType(0)))
      ret = fromJlm(ft.ResultType(0));
    return env.external(lambdaName(*l), ret, args, tys);
  }
  return runLambda(it->second, args);
}

Val
RvsdgInterp::runLambda(const Node * node, const std::vector<Val> & args, const std::vector<const Ty *> * tys)
{
  if (++depth > 200)
    throw StepLimit{};
  struct Leave
  {
    unsigned & d;
    ~Leave() { d--; }
  } leave{ depth };
  auto l = static_cast<const rvsdg::LambdaNode *>(node);
  auto & rc = compile(*l->subregion());
  std::vector<Obj *> frame;
  Act a{ rc, std::vector<Val>(rc.nslots), nullptr, &frame };
  a.lambdaAct = ++lambdaSerial;
  size_t k = 0;
  LambdaFrame fr;
  for (auto arg : l->GetFunctionArguments())
    if (rvsdg::is<jlm::llvm::VariableArgumentType>(arg->Type()))
    {
      fr.variadic = true;
      for (; tys && k < args.size(); k++)
      {
        fr.varArgs.push_back(args[k]);
        fr.varTys.push_back((*tys)[k]);
      }
    }
    else
      a.s[arg->index()] = isState(*arg->Type()) ? Val(0) : args.at(k++);
  frames.push_back(std::move(fr));
  struct Pop
  {
    std::vector<LambdaFrame> & f;
    ~Pop() { f.pop_back(); }
  } pop{ frames };
  for (auto & cv : l->GetContextVars())
    a.s[cv.inner->index()] = staticVal(*cv.inner);
  exec(a);
  for (auto o : frame)
    o->alive = false;
  auto res = l->GetFunctionResults();
  if (!res.empty() && !isState(*res[0]->Type()))
    return a.s[rc.results[0]];
  return Val();
}

// ---------------------------------------------------------------------------- regions

RvsdgInterp::RegionC &
RvsdgInterp::compile(const Region & r)
{
  auto & slot = compiled[&r];
  if (slot)
    return *slot;
  slot = std::make_unique<RegionC>();
  auto & rc = *slot;
  rc.r = &r;
  rc.nargs = int(r.narguments());
  rc.nslots = rc.nargs;
  for (size_t i = 0; i < r.narguments(); i++)
    rc.slotOf[const_cast<Region &>(r).argument(i)] = int(i);
  std::unordered_map<const Node *, int> idx;
  size_t count = 0;
  for (auto & node : const_cast<Region &>(r).Nodes())
  {
    (void)node;
    count++;
  }
  rc.nodes.reserve(count);
  for (auto & node : const_cast<Region &>(r).Nodes())
  {
    NodeC n;
    n.n = &node;
    n.idx = uint32_t(rc.nodes.size());
    n.out0 = rc.nslots;
    for (size_t i = 0; i < node.noutputs(); i++)
      rc.slotOf[node.output(i)] = n.out0 + int(i);
    rc.nslots += int(node.noutputs());
    idx[&node] = int(n.idx);
    rc.nodes.push_back(std::move(n));
  }
  auto & I = *this;
  for (auto & n : rc.nodes)
  {
    std::set<int> preds;
    for (size_t i = 0; i < n.n->ninputs(); i++)
    {
      auto o = n.n->input(i)->origin();
      auto it = rc.slotOf.find(o);
      if (it == rc.slotOf.end())
        throw Mismatch{ "input " + std::to_string(i) + " of " + n.n->DebugString()
                        + " has an origin in a different region" };
      n.in.push_back(it->second);
      if (auto p = rvsdg::TryGetOwnerNode<Node>(*o))
        preds.insert(idx.at(p));
    }
    n.ndeps = int(preds.size());
    for (auto p : preds)
      rc.nodes[p].succ.push_back(int(n.idx));
    if (auto g = dynamic_cast<const rvsdg::GammaNode *>(n.n))
    {
      n.cls = 2;
      n.eval = [&I, g](Act & a, NodeC & n)
      {
        auto p = a.s[n.in[0]];
        if (p.p)
          throw Ub{ "branch on an undefined value" };
        if (p.b >= g->nsubregions())
          throw Mismatch{ "gamma predicate out of range" };
        auto & sub = *g->subregion(p.b);
        auto & rc = I.compile(sub);
        Act in{ rc, std::vector<Val>(rc.nslots), &a, a.frame };
        in.lambdaAct = a.lambdaAct;
        auto mv = g->GetMatchVar();
        for (auto & mc : mv.matchContent)
          if (mc && mc->region() == &sub)
            in.s[mc->index()] = Val(0);
        for (auto & ev : g->GetEntryVars())
          in.s[ev.branchArgument[p.b]->index()] = a.s[n.in[ev.input->index()]];
        I.exec(in);
        for (auto & xv : g->GetExitVars())
          a.s[n.out0 + int(xv.output->index())] =
              in.s[rc.results[xv.branchResult[p.b]->index()]];
      };
    }
    else if (auto th = dynamic_cast<const rvsdg::ThetaNode *>(n.n))
    {
      n.cls = 2;
      n.eval = [&I, th](Act & a, NodeC & n)
      {
        auto & rc = I.compile(*th->subregion());
        auto lvs = th->GetLoopVars();
        std::vector<Val> cur;
        for (auto & lv : lvs)
          cur.push_back(a.s[n.in[lv.input->index()]]);
        for (uint64_t iter = 0;; iter++)
        {
          Act in{ rc, std::vector<Val>(rc.nslots), &a, a.frame };
          in.lambdaAct = a.lambdaAct;
          in.iteration = iter;
          for (size_t i = 0; i < lvs.size(); i++)
            in.s[lvs[i].pre->index()] = cur[i];
          I.exec(in);
          auto p = in.s[rc.results[th->predicate()->index()]];
          for (size_t i = 0; i < lvs.size(); i++)
            cur[i] = in.s[rc.results[lvs[i].post->index()]];
          if (p.p)
            throw Ub{ "loop on an undefined value" };
          if (p.b == 0)
            break;
        }
        for (size_t i = 0; i < lvs.size(); i++)
          a.s[n.out0 + int(lvs[i].output->index())] = cur[i];
      };
    }
    else if (auto s = dynamic_cast<const rvsdg::SimpleNode *>(n.n))
      n.eval = compileSimple(*s, n.cls);
    else
      throw Unsupported{ "node " + n.n->DebugString() };
  }
  for (auto & n : rc.nodes)
    if (n.ndeps == 0)
      rc.roots.push_back(int(n.idx));
  for (size_t i = 0; i < r.nresults(); i++)
  {
    auto it = rc.slotOf.find(r.result(i)->origin());
    if (it == rc.slotOf.end())
      throw Mismatch{ "region result has an origin in a different region" };
    rc.results.push_back(it->second);
  }
  return rc;
}

void
RvsdgInterp::exec(Act & a)
{
  auto & rc = a.rc;
  rc.activations++;
  auto kind = activationSerial++ < sched.budget ? sched.kind : Sched::Fifo;
  std::vector<int> deps(rc.nodes.size());
  for (size_t i = 0; i < rc.nodes.size(); i++)
    deps[i] = rc.nodes[i].ndeps;
  std::vector<int> ready = rc.roots; // in order of becoming ready
  size_t done = 0;
  std::vector<uint64_t> prio;
  if (kind == Sched::Prio)
    for (size_t i = 0; i < rc.nodes.size(); i++)
      prio.push_back(mix(sched.seed, i));
  while (!ready.empty())
  {
    size_t k = 0;
    if (ready.size() > 1)
      switch (kind)
      {
      case Sched::Random:
        k = rng.next() % ready.size();
        break;
      case Sched::Lifo:
        k = ready.size() - 1;
        break;
      case Sched::Prio:
        for (size_t i = 1; i < ready.size(); i++)
          if (prio[ready[i]] < prio[ready[k]])
            k = i;
        break;
      case Sched::LoadsFirst: // loads and pure operations, then everything else in random order
      case Sched::LoadsLast:
      case Sched::EffectsLast:
      {
        auto rank = [&](int i)
        {
          auto c = rc.nodes[i].cls;
          if (kind == Sched::LoadsFirst)
            return c == 1 ? 0 : c == 0 ? 1 : 2;
          if (kind == Sched::LoadsLast)
            return c == 1 ? 2 : c == 0 ? 0 : 1;
          return c == 2 ? 1 : 0;
        };
        int best = 9;
        size_t cnt = 0;
        for (size_t i = 0; i < ready.size(); i++)
        {
          auto q = rank(ready[i]);
          if (q < best)
          {
            best = q;
            cnt = 0;
          }
          if (q == best && rng.next() % ++cnt == 0)
            k = i;
        }
        break;
      }
      default:
        break;
      }
    if (k)
      reordered++;
    int i = ready[k];
    if (kind == Sched::Fifo || kind == Sched::Lifo)
      ready.erase(ready.begin() + k);
    else
    {
      ready[k] = ready.back();
      ready.pop_back();
    }
    auto & n = rc.nodes[i];
    if (++steps > maxSteps)
      throw StepLimit{};
    if (n.cls)
      scheduleHash = mix(scheduleHash, n.idx + 1);
    n.eval(a, n);
    done++;
    for (auto s : n.succ)
      if (--deps[s] == 0)
        ready.push_back(s);
  }
  if (done != rc.nodes.size())
    throw Mismatch{ "region contains a dependency cycle" };
  if (afterRegion)
    afterRegion(a);
}

}
