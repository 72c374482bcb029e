#include "llvm_interp.hpp"
#include "prim.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>

namespace sim
{
using namespace llvm;

LlvmInterp::LlvmInterp(Module & m, Mem & me, Env & e, uint64_t ms)
    : M(m),
      mem(me),
      env(e),
      maxSteps(ms)
{
  for (auto & f : M)
  {
    if (f.isIntrinsic())
      continue;
    auto o = mem.alloc(Obj::Func, 1, 16, f.getName().str());
    fnAt[o->base] = &f;
  }
  for (auto & g : M.globals())
  {
    auto t = fromLlvm(g.getValueType());
    if (t->hasBad())
      throw Unsupported{ "global type" };
    auto a = g.getAlign().valueOrOne().value();
    if (a == 1 && !g.getAlign())
      a = t->align;
    auto o = mem.alloc(Obj::Global, t->size, a, g.getName().str());
    if (g.isDeclaration() || g.isInterposable())
    {
      std::fill(o->p.begin(), o->p.end(), 0);
    }
    o->readonly = g.isConstant();
    o->exported = !g.hasLocalLinkage();
  }
  for (auto & g : M.globals())
    if (!g.isDeclaration() && !g.isInterposable())
      initMem(mem.byName.at(g.getName().str()), 0, g.getInitializer());
}

void
LlvmInterp::initMem(Obj * o, uint64_t off, const Constant * c)
{
  mem.rawStore(o, off, fromLlvm(c->getType()), constant(c));
}

Val
LlvmInterp::constant(const Constant * c)
{
  auto t = fromLlvm(c->getType());
  if (t->hasBad())
    throw Unsupported{ "constant type" };
  if (auto ci = dyn_cast<ConstantInt>(c))
    return Val(ci->getValue().getZExtValue());
  if (auto cf = dyn_cast<ConstantFP>(c))
    return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantPointerNull>(c))
    return Val(0);
  if (isa<UndefValue>(c))
    return poisonOf(t);
  if (isa<ConstantAggregateZero>(c))
    return zeroOf(t);
  if (auto g = dyn_cast<GlobalValue>(c))
  {
    auto it = mem.byName.find(g->getName().str());
    if (it == mem.byName.end())
      throw Unsupported{ "global value" };
    return Val(it->second->base);
  }
  if (auto cd = dyn_cast<ConstantDataSequential>(c))
  {
    Val v;
    for (unsigned i = 0; i < cd->getNumElements(); i++)
      v.e.push_back(constant(cd->getElementAsConstant(i)));
    return v;
  }
  if (isa<ConstantAggregate>(c))
  {
    Val v;
    for (auto & op : c->operands())
      v.e.push_back(constant(cast<Constant>(&op)));
    return v;
  }
  if (auto ce = dyn_cast<ConstantExpr>(c))
  {
    auto op = [&](unsigned i)
    {
      return constant(ce->getOperand(i));
    };
    switch (ce->getOpcode())
    {
    case Instruction::GetElementPtr:
    {
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(M.getDataLayout(), off))
        throw Unsupported{ "constant gep" };
      auto b = op(0);
      b.b += off.getSExtValue();
      return b;
    }
    case Instruction::PtrToInt:
    {
      auto b = op(0);
      b.b &= maskW(t->width);
      return b;
    }
    case Instruction::IntToPtr:
    case Instruction::BitCast:
      return op(0);
    case Instruction::Add:
      return binInt(Bin::Add, t->width, op(0), op(1));
    case Instruction::Sub:
      return binInt(Bin::Sub, t->width, op(0), op(1));
    case Instruction::Trunc:
    {
      auto b = op(0);
      b.b &= maskW(t->width);
      return b;
    }
    case Instruction::ICmp:
    default:
      throw Unsupported{ "constant expression" };
    }
  }
  throw Unsupported{ "constant" };
}

Val
LlvmInterp::callAddr(uint64_t addr, const std::vector<Val> & args)
{
  auto it = fnAt.find(addr);
  if (it == fnAt.end())
  {
    Val r;
    if (env.foreignCall(addr, args, tyVoid(), r))
      return r;
    throw Ub{ "call of something that is not a function" };
  }
  auto f = it->second;
  if (f->isDeclaration() || f->isInterposable())
  {
    std::vector<const Ty *> tys;
    for (auto & a : f->args())
      tys.push_back(fromLlvm(a.getType()));
    if (args.size() != tys.size())
      throw Unsupported{ "variadic call from the environment" };
    return env.external(f->getName().str(), fromLlvm(f->getReturnType()), args, tys);
  }
  return run(f, args);
}

static Cmp
cmpPred(CmpInst::Predicate p)
{
  switch (p)
  {
  case CmpInst::ICMP_EQ: return Cmp::Eq;
  case CmpInst::ICMP_NE: return Cmp::Ne;
  case CmpInst::ICMP_UGT: return Cmp::Ugt;
  case CmpInst::ICMP_UGE: return Cmp::Uge;
  case CmpInst::ICMP_ULT: return Cmp::Ult;
  case CmpInst::ICMP_ULE: return Cmp::Ule;
  case CmpInst::ICMP_SGT: return Cmp::Sgt;
  case CmpInst::ICMP_SGE: return Cmp::Sge;
  case CmpInst::ICMP_SLT: return Cmp::Slt;
  case CmpInst::ICMP_SLE: return Cmp::Sle;
  default: throw Unsupported{ "compare" };
  }
}

template<class F>
static Val
lanes(const Ty * t, const Val & a, F f)
{
  if (t->kind != Ty::Vec)
    return f(a);
  Val r;
  for (auto & x : a.e)
    r.e.push_back(f(x));
  return r;
}
template<class F>
static Val
lanes2(const Ty * t, const Val & a, const Val & b, F f)
{
  if (t->kind != Ty::Vec)
    return f(a, b);
  Val r;
  for (size_t i = 0; i < a.e.size(); i++)
    r.e.push_back(f(a.e[i], b.e[i]));
  return r;
}

static bool
same(const Val & a, const Val & b)
{
  if (a.b != b.b || a.p != b.p || a.e.size() != b.e.size())
    return false;
  for (size_t i = 0; i < a.e.size(); i++)
    if (!same(a.e[i], b.e[i]))
      return false;
  return true;
}

Val
LlvmInterp::run(Function * f, const std::vector<Val> & args, const std::vector<const Ty *> * argTys)
{
  if (++depth > 60)
    throw StepLimit{};
  struct Leave
  {
    unsigned & d;
    ~Leave() { d--; }
  } leave{ depth };
  std::unordered_map<const Value *, Val> env_;
  std::vector<Obj *> frame;
  size_t i = 0;
  if (f->isVarArg() ? args.size() < f->arg_size() || (args.size() > f->arg_size() && !argTys) : args.size() != f->arg_size())
    throw Ub{ "call with wrong number of arguments" };
  for (auto & a : f->args())
    env_[&a] = args[i++];
  BasicBlock * bb = &f->getEntryBlock();
  BasicBlock * prev = nullptr;
  Instruction * resume = nullptr; // continue behind this call, which has returned once more
  std::unordered_map<const Instruction *, uint32_t> allocas;
  struct Saved // by a call that may return twice
  {
    unsigned serial;
    CallInst * call;
    BasicBlock * bb, *prev;
    std::unordered_map<const Value *, Val> regs;
    std::map<Obj *, std::pair<std::vector<uint8_t>, std::vector<uint8_t>>> stack;
  };
  std::vector<Saved> saved;
  std::unordered_map<const Value *, Val> lost; // what registers held before a longjmp made them indeterminate
  auto get = [&](const Value * v) -> Val
  {
    if (auto c = dyn_cast<Constant>(v))
      return constant(c);
    auto it = env_.find(v);
    if (it == env_.end())
      throw Unsupported{ "operand" };
    return it->second;
  };
  auto ptr = [&](const Value * v, const char * what) -> uint64_t
  {
    auto x = get(v);
    if (x.p)
      throw Ub{ std::string(what) + " through an undefined pointer" };
    return x.b;
  };
  auto kill = [&]()
  {
    for (auto o : frame)
      o->alive = false;
    for (auto & s : saved)
      env.dropContext(s.serial);
  };
  auto execute = [&]() -> Val
  {
  for (;;)
  {
    if (resume)
      goto body;
    if (blockHits)
      (*blockHits)[bb]++;
    {
    // phis evaluate in parallel
    std::vector<std::pair<const Value *, Val>> phis;
    for (auto & phi : bb->phis())
      phis.push_back({ &phi, get(phi.getIncomingValueForBlock(prev)) });
    for (auto & [v, x] : phis)
      env_[v] = std::move(x);
    }
  body:;
    auto it = resume ? std::next(resume->getIterator()) : bb->getFirstNonPHI()->getIterator();
    resume = nullptr;
    BasicBlock * next = nullptr;
    for (; it != bb->end(); ++it)
    {
      if (++steps > maxSteps)
        throw StepLimit{};
      auto & I = *it;
      auto t = fromLlvm(I.getType());
      if (t->hasBad())
        throw Unsupported{ "type" };
      Val r;
      switch (I.getOpcode())
      {
      case Instruction::Ret:
      {
        auto v = I.getNumOperands() ? get(I.getOperand(0)) : Val();
        kill();
        return v;
      }
      case Instruction::Br:
      {
        auto & br = cast<BranchInst>(I);
        if (br.isUnconditional())
          next = br.getSuccessor(0);
        else
        {
          auto c = get(br.getCondition());
          if (c.p)
            throw Ub{ "branch on an undefined value" };
          next = br.getSuccessor(c.b & 1 ? 0 : 1);
        }
        break;
      }
      case Instruction::Switch:
      {
        auto & sw = cast<SwitchInst>(I);
        auto c = get(sw.getCondition());
        if (c.p)
          throw Ub{ "switch on an undefined value" };
        next = sw.getDefaultDest();
        auto w = sw.getCondition()->getType()->getIntegerBitWidth();
        for (auto & cs : sw.cases())
          if (cs.getCaseValue()->getValue().getZExtValue() == (c.b & maskW(w)))
            next = cs.getCaseSuccessor();
        break;
      }
      case Instruction::Unreachable:
        throw Ub{ "unreachable executed" };
      case Instruction::FNeg:
      {
        auto st = t->kind == Ty::Vec ? t->elt : t;
        r = lanes(t, get(I.getOperand(0)), [&](const Val & a) { return fneg(st->kind == Ty::Double, a); });
        break;
      }
      case Instruction::Add:
      case Instruction::Sub:
      case Instruction::Mul:
      case Instruction::UDiv:
      case Instruction::SDiv:
      case Instruction::URem:
      case Instruction::SRem:
      case Instruction::Shl:
      case Instruction::LShr:
      case Instruction::AShr:
      case Instruction::And:
      case Instruction::Or:
      case Instruction::Xor:
      {
        static const std::map<unsigned, Bin> ops = {
          { Instruction::Add, Bin::Add },   { Instruction::Sub, Bin::Sub },
          { Instruction::Mul, Bin::Mul },   { Instruction::UDiv, Bin::UDiv },
          { Instruction::SDiv, Bin::SDiv }, { Instruction::URem, Bin::URem },
          { Instruction::SRem, Bin::SRem }, { Instruction::Shl, Bin::Shl },
          { Instruction::LShr, Bin::LShr }, { Instruction::AShr, Bin::AShr },
          { Instruction::And, Bin::And },   { Instruction::Or, Bin::Or },
          { Instruction::Xor, Bin::Xor }
        };
        auto op = ops.at(I.getOpcode());
        bool nsw = false, nuw = false, ex = false, dj = false;
        if (auto o = dyn_cast<OverflowingBinaryOperator>(&I))
          nsw = o->hasNoSignedWrap(), nuw = o->hasNoUnsignedWrap();
        if (auto o = dyn_cast<PossiblyExactOperator>(&I))
          ex = o->isExact();
        if (auto o = dyn_cast<PossiblyDisjointInst>(&I))
          dj = o->isDisjoint();
        auto st = t->kind == Ty::Vec ? t->elt : t;
        r = lanes2(t, get(I.getOperand(0)), get(I.getOperand(1)), [&](const Val & a, const Val & b) {
          return binInt(op, st->width, a, b, nsw, nuw, ex, dj);
        });
        break;
      }
      case Instruction::FAdd:
      case Instruction::FSub:
      case Instruction::FMul:
      case Instruction::FDiv:
      case Instruction::FRem:
      {
        if (I.getFastMathFlags().any())
          throw Unsupported{ "fast-math" };
        auto op = I.getOpcode() == Instruction::FAdd ? Bin::FAdd
                : I.getOpcode() == Instruction::FSub ? Bin::FSub
                : I.getOpcode() == Instruction::FMul ? Bin::FMul
                : I.getOpcode() == Instruction::FDiv ? Bin::FDiv
                                                     : Bin::FRem;
        auto st = t->kind == Ty::Vec ? t->elt : t;
        r = lanes2(t, get(I.getOperand(0)), get(I.getOperand(1)), [&](const Val & a, const Val & b) {
          return binFp(op, st->kind == Ty::Double, a, b);
        });
        break;
      }
      case Instruction::ICmp:
      {
        auto ot = fromLlvm(I.getOperand(0)->getType());
        auto st = ot->kind == Ty::Vec ? ot->elt : ot;
        auto w = st->kind == Ty::Ptr ? 64 : st->width;
        auto c = cmpPred(cast<ICmpInst>(I).getPredicate());
        r = lanes2(ot, get(I.getOperand(0)), get(I.getOperand(1)), [&](const Val & a, const Val & b) {
          return cmpInt(c, w, a, b);
        });
        break;
      }
      case Instruction::FCmp:
      {
        auto ot = fromLlvm(I.getOperand(0)->getType());
        auto st = ot->kind == Ty::Vec ? ot->elt : ot;
        r = lanes2(ot, get(I.getOperand(0)), get(I.getOperand(1)), [&](const Val & a, const Val & b) {
          return cmpFp(unsigned(cast<FCmpInst>(I).getPredicate()), st->kind == Ty::Double, a, b);
        });
        break;
      }
      case Instruction::Select:
      {
        auto c = get(I.getOperand(0));
        if (I.getOperand(0)->getType()->isVectorTy())
        {
          auto a = get(I.getOperand(1)), b = get(I.getOperand(2));
          for (size_t k = 0; k < c.e.size(); k++)
            r.e.push_back(c.e[k].p ? Val::poison() : c.e[k].b & 1 ? a.e[k] : b.e[k]);
        }
        else
        {
          // becomes a branch in the graph
          if (c.p && env.s)
            throw Ub{ "select on an undefined value" };
          r = c.p ? poisonOf(t) : get(I.getOperand(c.b & 1 ? 1 : 2));
        }
        break;
      }
      case Instruction::Freeze:
      {
        auto v = get(I.getOperand(0));
        if (anyPoison(v))
          throw Unsupported{ "freeze of an undefined value" };
        r = v;
        break;
      }
      case Instruction::Trunc:
        r = lanes(t, get(I.getOperand(0)), [&](const Val & a) {
          auto w = (t->kind == Ty::Vec ? t->elt : t)->width;
          return a.p ? a : Val(a.b & maskW(w));
        });
        break;
      case Instruction::ZExt:
      {
        auto st = fromLlvm(I.getOperand(0)->getType()->getScalarType());
        bool nneg = I.hasNonNeg();
        r = lanes(t, get(I.getOperand(0)), [&](const Val & a) {
          if (a.p || (nneg && sx(a.b, st->width) < 0))
            return Val::poison();
          return Val(a.b & maskW(st->width));
        });
        break;
      }
      case Instruction::SExt:
      {
        auto st = fromLlvm(I.getOperand(0)->getType()->getScalarType());
        r = lanes(t, get(I.getOperand(0)), [&](const Val & a) {
          auto w = (t->kind == Ty::Vec ? t->elt : t)->width;
          return a.p ? a : Val(uint64_t(sx(a.b, st->width)) & maskW(w));
        });
        break;
      }
      case Instruction::FPTrunc:
        r = lanes(t, get(I.getOperand(0)), [&](const Val & a) { return a.p ? a : fromF(float(asD(a))); });
        break;
      case Instruction::FPExt:
        r = lanes(t, get(I.getOperand(0)), [&](const Val & a) { return a.p ? a : fromD(double(asF(a))); });
        break;
      case Instruction::FPToSI:
      case Instruction::FPToUI:
      {
        auto st = fromLlvm(I.getOperand(0)->getType()->getScalarType());
        r = lanes(t, get(I.getOperand(0)), [&](const Val & a) {
          return fp2int(
              st->kind == Ty::Double,
              I.getOpcode() == Instruction::FPToSI,
              (t->kind == Ty::Vec ? t->elt : t)->width,
              a);
        });
        break;
      }
      case Instruction::SIToFP:
      case Instruction::UIToFP:
      {
        auto st = fromLlvm(I.getOperand(0)->getType()->getScalarType());
        bool nneg = I.getOpcode() == Instruction::UIToFP && I.hasNonNeg();
        r = lanes(t, get(I.getOperand(0)), [&](const Val & a) {
          if (nneg && !a.p && sx(a.b, st->width) < 0)
            return Val::poison();
          return int2fp(
              (t->kind == Ty::Vec ? t->elt : t)->kind == Ty::Double,
              I.getOpcode() == Instruction::SIToFP,
              st->width,
              a);
        });
        break;
      }
      case Instruction::PtrToInt:
        r = get(I.getOperand(0));
        if (t->kind != Ty::Int)
          throw Unsupported{ "vector of pointers" };
        r.b &= maskW(t->width);
        break;
      case Instruction::IntToPtr:
        r = get(I.getOperand(0));
        break;
      case Instruction::BitCast:
        r = bitcastV(fromLlvm(I.getOperand(0)->getType()), t, get(I.getOperand(0)));
        break;
      case Instruction::Alloca:
      {
        auto & a = cast<AllocaInst>(I);
        auto et = fromLlvm(a.getAllocatedType());
        auto n = get(a.getArraySize());
        if (n.p)
          throw Ub{ "alloca of undefined size" };
        if (n.b > 1000)
          throw Unsupported{ "big alloca" };
        auto o = mem.alloc(Obj::Stack, et->size * n.b, a.getAlign().value());
        o->site = &I;
        frame.push_back(o);
        maxAllocas = std::max(maxAllocas, ++allocas[&I]);
        r = Val(o->base);
        break;
      }
      case Instruction::Load:
      {
        auto & l = cast<LoadInst>(I);
        auto p = ptr(l.getPointerOperand(), "load");
        mem.access(p, t->store, false);
        mem.checkAlign(p, l.getAlign().value());
        if (l.isAtomic())
          throw Unsupported{ "atomic" };
        r = l.isVolatile() ? env.volLoad(t, p) : mem.load(t, p);
        break;
      }
      case Instruction::Store:
      {
        auto & st = cast<StoreInst>(I);
        auto vt = fromLlvm(st.getValueOperand()->getType());
        auto p = ptr(st.getPointerOperand(), "store");
        mem.access(p, vt->store, true);
        mem.checkAlign(p, st.getAlign().value());
        if (st.isAtomic())
          throw Unsupported{ "atomic" };
        if (st.isVolatile())
          env.volStore(vt, p, get(st.getValueOperand()));
        else
          mem.store(vt, p, get(st.getValueOperand()));
        break;
      }
      case Instruction::GetElementPtr:
      {
        auto & g = cast<GetElementPtrInst>(I);
        if (t->kind != Ty::Ptr)
          throw Unsupported{ "vector gep" };
        auto b = get(g.getPointerOperand());
        r = b;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi)
        {
          auto x = get(gi.getOperand());
          if (x.p)
            r.p = true;
          if (auto stt = gi.getStructTypeOrNull())
            r.b += fromLlvm(stt)->offset(x.b);
          else
          {
            auto w = gi.getOperand()->getType()->getIntegerBitWidth();
            r.b += uint64_t(sx(x.b, w)) * fromLlvm(gi.getIndexedType())->size;
          }
        }
        if (!r.p && g.isInBounds() && g.hasAllConstantIndices() == false)
        {
          // inbounds violations make the result poison
          auto o = mem.find(b.b);
          if (o && (r.b < o->base || r.b > o->base + o->size))
            r = Val::poison();
        }
        if (r.p)
          r = Val::poison();
        break;
      }
      case Instruction::ExtractValue:
      {
        r = get(I.getOperand(0));
        for (auto x : cast<ExtractValueInst>(I).indices())
        {
          auto y = r.e[x];
          r = y;
        }
        break;
      }
      case Instruction::InsertValue:
      {
        r = get(I.getOperand(0));
        Val * p = &r;
        for (auto x : cast<InsertValueInst>(I).indices())
          p = &p->e[x];
        *p = get(I.getOperand(1));
        break;
      }
      case Instruction::ExtractElement:
      {
        auto v = get(I.getOperand(0)), x = get(I.getOperand(1));
        r = x.p || x.b >= v.e.size() ? poisonOf(t) : v.e[x.b];
        break;
      }
      case Instruction::InsertElement:
      {
        r = get(I.getOperand(0));
        auto x = get(I.getOperand(2));
        if (x.p || x.b >= r.e.size())
          r = poisonOf(t);
        else
          r.e[x.b] = get(I.getOperand(1));
        break;
      }
      case Instruction::ShuffleVector:
      {
        auto a = get(I.getOperand(0)), b = get(I.getOperand(1));
        for (int m : cast<ShuffleVectorInst>(I).getShuffleMask())
          r.e.push_back(
              m < 0                  ? Val::poison()
              : m < int(a.e.size()) ? a.e[m]
                                    : b.e[m - a.e.size()]);
        break;
      }
      case Instruction::Call:
      {
        auto & c = cast<CallInst>(I);
        auto callee = dyn_cast<Function>(c.getCalledOperand());
        auto arg = [&](unsigned k)
        {
          return get(c.getArgOperand(k));
        };
        auto at = [&](unsigned k)
        {
          return fromLlvm(c.getArgOperand(k)->getType());
        };
        auto need = [&](unsigned k, const char * what) -> uint64_t
        {
          auto v = arg(k);
          if (v.p)
            throw Ub{ std::string(what) + " of an undefined value" };
          return v.b;
        };
        if (callee && callee->isIntrinsic())
        {
          auto et = t->kind == Ty::Vec ? t->elt : t;
          auto dbl = et->kind == Ty::Double;
          auto un = [&](auto fn)
          {
            r = lanes(t, arg(0), fn);
          };
          auto bi = [&](auto fn)
          {
            r = lanes2(t, arg(0), arg(1), fn);
          };
          switch (callee->getIntrinsicID())
          {
          case Intrinsic::lifetime_start:
          case Intrinsic::lifetime_end:
          case Intrinsic::prefetch:
          case Intrinsic::donothing:
          case Intrinsic::dbg_value:
          case Intrinsic::dbg_declare:
          case Intrinsic::experimental_noalias_scope_decl:
            break;
          case Intrinsic::vastart:
          case Intrinsic::vaend:
          {
            // the environment looks at the list
            std::vector<Val> av{ arg(0) };
            std::vector<const Ty *> tys{ at(0) };
            if (callee->getIntrinsicID() == Intrinsic::vastart)
            {
              if (!f->isVarArg())
                throw Ub{ "va_start in a function without variable arguments" };
              for (size_t k = f->arg_size(); k < args.size(); k++)
              {
                av.push_back(args[k]);
                tys.push_back((*argTys)[k]);
              }
            }
            r = env.external(callee->getName().str(), t, av, tys);
            break;
          }
          case Intrinsic::assume:
          {
            auto v = arg(0);
            if (v.p || !(v.b & 1))
              throw Ub{ "assumption violated" };
            break;
          }
          case Intrinsic::expect:
          case Intrinsic::launder_invariant_group:
            r = arg(0);
            break;
          case Intrinsic::is_constant:
            // an optimizer may answer either way: the program must not depend on it
            throw Unsupported{ "is.constant" };
          case Intrinsic::abs:
            un([&](const Val & a) { return absInt(et->width, a, arg(1).b & 1); });
            break;
          case Intrinsic::bswap:
            un([&](const Val & a) { return bswap(et->width, a); });
            break;
          case Intrinsic::ctlz:
            un([&](const Val & a) { return ctlz(et->width, a, arg(1).b & 1); });
            break;
          case Intrinsic::cttz:
            un([&](const Val & a) { return cttz(et->width, a, arg(1).b & 1); });
            break;
          case Intrinsic::ctpop:
            un([&](const Val & a) { return a.p ? a : Val(__builtin_popcountll(a.b & maskW(et->width))); });
            break;
          case Intrinsic::fshl:
          case Intrinsic::fshr:
          {
            auto a = arg(0), b = arg(1), d = arg(2);
            auto one = [&](const Val & x, const Val & y, const Val & z)
            {
              if (callee->getIntrinsicID() == Intrinsic::fshl)
                return fshl(et->width, x, y, z);
              if (x.p || y.p || z.p)
                return Val::poison();
              unsigned w = et->width, s = (z.b & maskW(w)) % w;
              uint64_t p = x.b & maskW(w), q = y.b & maskW(w);
              return Val((s ? (p << (w - s)) | (q >> s) : q) & maskW(w));
            };
            if (t->kind == Ty::Vec)
              for (size_t k = 0; k < a.e.size(); k++)
                r.e.push_back(one(a.e[k], b.e[k], d.e[k]));
            else
              r = one(a, b, d);
            break;
          }
          case Intrinsic::smax:
          case Intrinsic::smin:
          case Intrinsic::umax:
          case Intrinsic::umin:
            bi([&](const Val & a, const Val & b) {
              auto id = callee->getIntrinsicID();
              auto cc = id == Intrinsic::smax ? Cmp::Sgt
                      : id == Intrinsic::smin ? Cmp::Slt
                      : id == Intrinsic::umax ? Cmp::Ugt
                                              : Cmp::Ult;
              auto q = cmpInt(cc, et->width, a, b);
              return q.p ? q : q.b ? a : b;
            });
            break;
          case Intrinsic::sadd_with_overflow:
          case Intrinsic::uadd_with_overflow:
          case Intrinsic::ssub_with_overflow:
          case Intrinsic::usub_with_overflow:
          case Intrinsic::smul_with_overflow:
          case Intrinsic::umul_with_overflow:
          {
            auto id = callee->getIntrinsicID();
            auto ov = id == Intrinsic::sadd_with_overflow ? Ov::SAdd
                    : id == Intrinsic::uadd_with_overflow ? Ov::UAdd
                    : id == Intrinsic::ssub_with_overflow ? Ov::SSub
                    : id == Intrinsic::usub_with_overflow ? Ov::USub
                    : id == Intrinsic::smul_with_overflow ? Ov::SMul
                                                          : Ov::UMul;
            if (at(0)->kind != Ty::Int)
              throw Unsupported{ "vector overflow intrinsic" };
            r = withOverflow(ov, at(0)->width, arg(0), arg(1));
            break;
          }
          case Intrinsic::fabs:
            un([&](const Val & a) { return roundFp(5, dbl, a); });
            break;
          case Intrinsic::floor:
            un([&](const Val & a) { return roundFp(0, dbl, a); });
            break;
          case Intrinsic::ceil:
            un([&](const Val & a) { return roundFp(1, dbl, a); });
            break;
          case Intrinsic::round:
            un([&](const Val & a) { return roundFp(2, dbl, a); });
            break;
          case Intrinsic::trunc:
            un([&](const Val & a) { return roundFp(3, dbl, a); });
            break;
          case Intrinsic::rint:
            un([&](const Val & a) { return roundFp(4, dbl, a); });
            break;
          case Intrinsic::copysign:
            bi([&](const Val & a, const Val & b) { return copysignV(dbl, a, b); });
            break;
          case Intrinsic::fmuladd:
          {
            auto a = arg(0), b = arg(1), d = arg(2);
            if (t->kind == Ty::Vec)
              for (size_t k = 0; k < a.e.size(); k++)
                r.e.push_back(fmulAdd(dbl, a.e[k], b.e[k], d.e[k]));
            else
              r = fmulAdd(dbl, a, b, d);
            break;
          }
          case Intrinsic::is_fpclass:
          {
            auto ot = at(0);
            if (ot->kind == Ty::Vec)
              throw Unsupported{ "vector is.fpclass" };
            r = isFpClass(ot->kind == Ty::Double, arg(0), arg(1));
            break;
          }
          case Intrinsic::ptrmask:
          {
            r = arg(0);
            auto m = arg(1);
            if (m.p)
              r = Val::poison();
            r.b &= m.b;
            break;
          }
          case Intrinsic::memcpy:
          case Intrinsic::memmove:
          case Intrinsic::memcpy_inline:
          {
            if (need(3, "memcpy flag") & 1)
              throw Unsupported{ "volatile memcpy" };
            auto n = need(2, "memcpy");
            if (n)
              mem.memcpy_(need(0, "memcpy"), need(1, "memcpy"), n, callee->getIntrinsicID() == Intrinsic::memmove);
            break;
          }
          case Intrinsic::memset:
          {
            if (need(3, "memset flag") & 1)
              throw Unsupported{ "volatile memset" };
            auto n = need(2, "memset");
            if (n)
              mem.memset_(need(0, "memset"), arg(1), n);
            break;
          }
          default:
            throw Unsupported{ "intrinsic " + callee->getName().str() };
          }
          break;
        }
        std::vector<Val> av;
        std::vector<const Ty *> tys;
        for (unsigned k = 0; k < c.arg_size(); k++)
        {
          av.push_back(arg(k));
          tys.push_back(at(k));
        }
        auto fa = ptr(c.getCalledOperand(), "call");
        auto fi = fnAt.find(fa);
        if (fi == fnAt.end())
        {
          if (env.foreignCall(fa, av, t, r))
            break;
          throw Ub{ "call of something that is not a function" };
        }
        auto fn = fi->second;
        if (fn->getFunctionType() != c.getFunctionType())
        {
          // structural comparison: identical types are unique, so any difference is real
          throw Ub{ "call through a wrong function type" };
        }
        if (fn->isDeclaration() || fn->isInterposable())
        {
          auto nm = fn->getName();
          if (nm == "malloc" && av.size() == 1)
          {
            if (av[0].p)
              throw Ub{ "malloc of undefined size" };
            r = Val(env.mallocCall(av[0].b, &I));
          }
          else if (nm == "free" && av.size() == 1)
          {
            if (av[0].p)
              throw Ub{ "free of an undefined pointer" };
            mem.free_(av[0].b);
          }
          else
          {
            r = env.external(nm.str(), t, av, tys);
            if (nm == "_setjmp")
            {
              if (!c.hasFnAttr(Attribute::ReturnsTwice))
                throw Mismatch{ "the call of _setjmp is not marked as returning twice" };
              env.saved(av[0].b);
              Saved s{ env.contexts, cast<CallInst>(&I), bb, prev, env_, {} };
              for (auto o : frame)
                s.stack[o] = { o->d, o->p };
              saved.push_back(std::move(s));
            }
          }
        }
        else
          r = run(fn, av, &tys);
        break;
      }
      default:
        throw Unsupported{ std::string("instruction ") + I.getOpcodeName() };
      }
      if (I.isTerminator())
        break;
      if (t->kind != Ty::Void)
        env_[&I] = std::move(r);
    }
    prev = bb;
    bb = next;
  }
  };
  for (;;)
    try
    {
      return execute();
    }
    catch (LongJmpEx & j)
    {
      Saved * s = nullptr;
      for (auto & x : saved)
        if (x.serial == j.serial)
          s = &x;
      if (!s)
      {
        kill();
        throw;
      }
      // What belongs to this activation and has changed since is indeterminate.
      auto old = s->regs;
      for (auto & [v, x] : env_)
        if (!lost.count(v) || !same(x, poisonOf(fromLlvm(v->getType()))))
          lost[v] = x;
      for (auto & [v, x] : old)
        if (auto i = lost.find(v); i == lost.end() || !same(x, i->second))
          x = poisonOf(fromLlvm(v->getType()));
      env_ = std::move(old);
      for (auto o : frame)
      {
        auto i = s->stack.find(o);
        // the stack pointer is restored, which frees what was allocated since
        if (i == s->stack.end() && !cast<AllocaInst>(static_cast<const Value *>(o->site))->isStaticAlloca())
          o->alive = false;
        for (size_t k = 0; k < o->size; k++)
          if (i == s->stack.end() || i->second.first[k] != o->d[k] || i->second.second[k] != o->p[k])
            o->p[k] = 1;
      }
      allocas.clear();
      env_[s->call] = Val(j.value);
      bb = s->bb;
      prev = s->prev;
      resume = s->call;
    }
}

}
