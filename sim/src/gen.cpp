#include "gen.hpp"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/raw_ostream.h>

namespace sim
{
using namespace llvm;

namespace
{

struct Gen
{
  Choices & ch;
  Stream & r;
  LLVMContext & C;
  Module & M;
  ProgMeta & meta;
  IRBuilder<> B;
  Profile prof;

  struct Leaf
  {
    std::vector<unsigned> path;
    Spec sp;
    llvm::Type * ty;
  };
  struct Cls
  {
    llvm::Type * ty;
    std::vector<Leaf> leaves;
    llvm::Type * arrElt = nullptr; // class is an array of scalars
    unsigned arrN = 0;
  };
  std::vector<Cls> cls;
  std::vector<FunctionType *> sigs;
  struct Fun
  {
    Function * f;
    int sig;
    bool defined, recursive = false;
  };
  std::vector<Fun> funs;
  struct Glob
  {
    GlobalVariable * g;
    int cls;
    bool constant;
  };
  std::vector<Glob> globs;

  // per function
  struct Var
  {
    Value * addr;
    llvm::Type * ty;
    Spec sp;
    bool fixed = false;
  };
  struct Local
  {
    Value * addr;
    int cls;
    bool priv = false; // only accessed field by field
  };
  std::vector<Var> vars;
  std::vector<Local> objs;
  std::vector<std::pair<Value *, int>> ptrs; // known non-null pointers (dominating everywhere)
  Function * F = nullptr;
  size_t fi = 0;
  Value * fuel = nullptr;
  int budget = 0, loopDepth = 0, callBudget = 0;
  std::vector<std::pair<BasicBlock *, BasicBlock *>> loops; // break, continue
  Instruction * entryEnd = nullptr;
  unsigned names = 0;

  Gen(Choices & c, LLVMContext & ctx, Module & m, ProgMeta & pm, Profile p)
      : ch(c),
        r(c["prog"]),
        x(c["frames"]),
        C(ctx),
        M(m),
        meta(pm),
        B(ctx),
        prof(p)
  {}

  bool
  is(Profile p) const
  {
    return prof == p;
  }

  // ---- types

  llvm::Type *
  I(unsigned w)
  {
    return IntegerType::get(C, w);
  }
  unsigned
  intWidth()
  {
    static const unsigned w[] = { 32, 64, 8, 16 };
    return w[r.pick({ 8, 4, 2, 1 })];
  }
  Spec
  scalarSpec(bool allowPtr)
  {
    Spec s;
    switch (r.pick({ 10, 1, 1, allowPtr ? 5u : 0u }))
    {
    case 0:
      s.ty = tyInt(intWidth());
      break;
    case 1:
      s.ty = tyDouble();
      break;
    case 2:
      s.ty = tyFloat();
      break;
    case 3:
      s.ty = tyPtr();
      if (!sigs.empty() && r.chance(1, 5))
        s.sig = int(r.draw(sigs.size()));
      else
        s.cls = int(r.draw(cls.size()));
      s.nullable = true;
      break;
    }
    return s;
  }
  llvm::Type *
  llty(const Spec & s)
  {
    switch (s.ty->kind)
    {
    case Ty::Int:
      return I(s.ty->width);
    case Ty::Float:
      return llvm::Type::getFloatTy(C);
    case Ty::Double:
      return llvm::Type::getDoubleTy(C);
    case Ty::Ptr:
      return PointerType::get(C, 0);
    case Ty::Void:
      return llvm::Type::getVoidTy(C);
    default:
      return nullptr;
    }
  }
  void
  addClass(llvm::Type * ty, std::vector<Leaf> leaves)
  {
    Cls c{ ty, leaves };
    ClassInfo ci;
    ci.ty = fromLlvm(ty);
    for (auto & l : leaves)
    {
      const Ty * t = ci.ty;
      uint64_t off = 0;
      for (auto p : l.path)
      {
        off += t->offset(p);
        t = t->at(p);
      }
      ci.fields.push_back({ off, l.sp });
    }
    if (auto at = dyn_cast<ArrayType>(ty))
      if (at->getElementType()->isIntegerTy() || at->getElementType()->isFloatingPointTy())
      {
        c.arrElt = at->getElementType();
        c.arrN = unsigned(at->getNumElements());
      }
    cls.push_back(c);
    meta.classes.push_back(ci);
  }
  void
  makeClasses()
  {
    // scalars and arrays of scalars first: every module has them
    for (unsigned w : { 32u, 64u })
    {
      Spec s;
      s.ty = tyInt(w);
      addClass(I(w), { Leaf{ {}, s, I(w) } });
    }
    {
      unsigned n = 4u << r.draw(2), w = r.draw(3) ? 32 : r.draw(2) ? 64 : 8;
      Spec s;
      s.ty = tyInt(w);
      std::vector<Leaf> ls;
      for (unsigned i = 0; i < n; i++)
        ls.push_back({ { i }, s, I(w) });
      addClass(ArrayType::get(I(w), n), ls);
    }
    unsigned n = 1 + r.draw(3);
    for (unsigned k = 0; k < n; k++)
    {
      std::vector<llvm::Type *> ft;
      std::vector<Leaf> ls;
      unsigned nf = 1 + r.draw(4);
      for (unsigned i = 0; i < nf; i++)
      {
        if (r.chance(1, 5)) // nested array
        {
          unsigned an = 2 + r.draw(3), w = intWidth();
          Spec s;
          s.ty = tyInt(w);
          for (unsigned j = 0; j < an; j++)
            ls.push_back({ { i, j }, s, I(w) });
          ft.push_back(ArrayType::get(I(w), an));
          continue;
        }
        if (cls.size() > 3 && r.chance(1, 6)) // nested struct
        {
          auto & in = cls[3 + r.draw(cls.size() - 3)];
          for (auto l : in.leaves)
          {
            l.path.insert(l.path.begin(), i);
            ls.push_back(l);
          }
          ft.push_back(in.ty);
          continue;
        }
        auto s = scalarSpec(true);
        if (s.cls == int(cls.size()))
          s.cls = int(cls.size()) - 1;
        if (s.cls >= 0 && r.chance(1, 3))
          s.cls = int(cls.size()); // points to its own kind
        ls.push_back({ { i }, s, llty(s) });
        ft.push_back(llty(s));
      }
      bool packed = r.chance(1, 12);
      auto st = StructType::create(C, ft, "c" + std::to_string(k), packed);
      addClass(st, ls);
    }
  }
  void
  makeSigs()
  {
    unsigned n = 2 + r.draw(3);
    for (unsigned k = 0; k < n; k++)
    {
      FnSig s;
      switch (r.pick({ 6, 2, 2 }))
      {
      case 0:
        s.ret.ty = tyInt(r.draw(2) ? intWidth() : 32);
        break;
      case 1:
        s.ret.ty = tyVoid();
        break;
      case 2:
        s.ret = scalarSpec(true);
        break;
      }
      unsigned na = r.draw(4);
      std::vector<llvm::Type *> at;
      for (unsigned i = 0; i < na; i++)
      {
        s.args.push_back(scalarSpec(true));
        if (s.args.back().cls >= 0 && r.chance(3, 4))
          s.args.back().nullable = false;
        at.push_back(llty(s.args.back()));
      }
      sigs.push_back(FunctionType::get(llty(s.ret), at, false));
      meta.sigs.push_back(s);
    }
    // one variadic signature
    if (r.chance(1, 4))
    {
      FnSig s;
      s.ret.ty = tyInt(32);
      Spec a;
      a.ty = tyInt(32);
      s.args = { a };
      s.variadic = true;
      varSig = int(meta.sigs.size());
      meta.sigs.push_back(s);
      varFt = FunctionType::get(I(32), { I(32) }, true);
    }
  }
  int varSig = -1;
  FunctionType * varFt = nullptr;
  Function * varFn = nullptr;
  Function * mallocFn = nullptr;
  Function * freeFn = nullptr;

  void
  makeFunctions()
  {
    unsigned nd = 1 + r.draw(is(Profile::Calls) ? 5 : 3), ne = 1 + r.draw(2);
    for (unsigned k = 0; k < nd + ne; k++)
    {
      bool def = k < nd;
      int sig = int(r.draw(sigs.size()));
      bool exp = !def || k == 0 || r.chance(1, 3);
      auto name = (def ? "f" : "ext") + std::to_string(def ? k : k - nd);
      auto f = Function::Create(
          sigs[sig],
          exp ? GlobalValue::ExternalLinkage : GlobalValue::InternalLinkage,
          name,
          M);
      bool disc = def && exp && k > 0 && r.chance(1, 6);
      if (disc)
        f->setLinkage(GlobalValue::LinkOnceODRLinkage);
      if (!def && r.chance(1, 6))
      {
        // a definition that the environment replaces with its own at link time
        f->setLinkage(r.draw(2) ? GlobalValue::WeakAnyLinkage : GlobalValue::LinkOnceAnyLinkage);
        IRBuilder<> E(BasicBlock::Create(C, "decoy", f));
        auto rt = f->getReturnType();
        if (rt->isVoidTy())
          E.CreateRetVoid();
        else
        {
          llvm::Value * v = Constant::getNullValue(rt);
          for (auto & a : f->args())
            if (a.getType() == rt && r.draw(2))
              v = &a;
          E.CreateRet(v);
        }
      }
      bool rec = def && r.chance(1, 5);
      funs.push_back({ f, sig, def, rec });
      meta.fns[name] = { sig, def, exp, disc };
      meta.fnOrder.push_back(name);
    }
    if (varFt)
    {
      varFn = Function::Create(varFt, GlobalValue::ExternalLinkage, "extv", M);
      meta.fns["extv"] = { varSig, false, true };
      meta.fnOrder.push_back("extv");
    }
    if (r.chance(is(Profile::Memory) || is(Profile::Calls) ? 3 : 1, 4))
    {
      mallocFn = Function::Create(
          FunctionType::get(PointerType::get(C, 0), { I(64) }, false),
          GlobalValue::ExternalLinkage,
          "malloc",
          M);
      freeFn = Function::Create(
          FunctionType::get(llvm::Type::getVoidTy(C), { PointerType::get(C, 0) }, false),
          GlobalValue::ExternalLinkage,
          "free",
          M);
    }
  }

  Constant *
  constInt(unsigned w)
  {
    uint64_t v = 0;
    switch (r.pick({ 10, 3, 1, 1 }))
    {
    case 0:
      v = r.draw(9);
      break;
    case 1:
      v = uint64_t(0) - 1 - r.draw(8);
      break;
    case 2:
      v = 1ull << r.draw(w);
      break;
    case 3:
      v = (uint64_t(r.draw(1u << 30)) << 32) | r.draw(1u << 30);
      break;
    }
    return ConstantInt::get(I(w), v & maskW(w));
  }
  Constant *
  constFp(bool d)
  {
    static const double v[] = { 0.0, 1.0, -1.0, 0.5, 3.0, 100.0, -0.0, 1e30 };
    return ConstantFP::get(d ? llvm::Type::getDoubleTy(C) : llvm::Type::getFloatTy(C), v[r.draw(8)]);
  }
  Constant *
  constInit(const Cls & c, llvm::Type * ty, std::vector<unsigned> path)
  {
    if (auto st = dyn_cast<StructType>(ty))
    {
      std::vector<Constant *> e;
      for (unsigned i = 0; i < st->getNumElements(); i++)
      {
        auto p = path;
        p.push_back(i);
        e.push_back(constInit(c, st->getElementType(i), p));
      }
      return ConstantStruct::get(st, e);
    }
    if (auto at = dyn_cast<ArrayType>(ty))
    {
      std::vector<Constant *> e;
      for (unsigned i = 0; i < at->getNumElements(); i++)
      {
        auto p = path;
        p.push_back(i);
        e.push_back(constInit(c, at->getElementType(), p));
      }
      return ConstantArray::get(at, e);
    }
    if (ty->isIntegerTy())
      return constInt(ty->getIntegerBitWidth());
    if (ty->isDoubleTy() || ty->isFloatTy())
      return constFp(ty->isDoubleTy());
    // pointer: null, a global of the class or a function of the signature
    for (auto & l : c.leaves)
      if (l.path == path)
      {
        if (l.sp.sig >= 0)
        {
          std::vector<Function *> cand;
          for (auto & f : funs)
            if (f.sig == l.sp.sig)
              cand.push_back(f.f);
          if (!cand.empty() && r.chance(3, 4))
            return cand[r.draw(cand.size())];
        }
        else
        {
          std::vector<GlobalVariable *> cand;
          for (auto & g : globs)
            if (g.cls == l.sp.cls && !g.constant)
              cand.push_back(g.g);
          if (!cand.empty() && r.chance(3, 4))
            return cand[r.draw(cand.size())];
        }
      }
    return ConstantPointerNull::get(PointerType::get(C, 0));
  }
  void
  makeGlobals()
  {
    unsigned n = 1 + r.draw(4);
    for (unsigned k = 0; k < n; k++)
    {
      int c = int(r.draw(cls.size()));
      // internal, exported, imported, or weak: the initialiser in the module is a decoy, linking
      // picks another (all zero) definition
      // 4, 5: other modules have the same definition, and any of them may keep or drop it
      unsigned kind = r.pick({ 10, 6, 4, 1, 2, 1 });
      bool konst = r.chance(1, 6);
      auto name = "g" + std::to_string(k);
      auto g = new GlobalVariable(
          M,
          cls[c].ty,
          konst && kind != 2,
          kind == 0   ? GlobalValue::InternalLinkage
          : kind == 3 ? (r.draw(2) ? GlobalValue::LinkOnceAnyLinkage : GlobalValue::WeakAnyLinkage)
          : kind == 4 ? GlobalValue::LinkOnceODRLinkage
          : kind == 5 ? GlobalValue::AvailableExternallyLinkage
                      : GlobalValue::ExternalLinkage,
          nullptr,
          name);
      g->setAlignment(Align(std::max<uint64_t>(meta.classes[c].ty->align, r.draw(2) ? 8 : 1)));
      globs.push_back({ g, c, konst && kind != 2 });
      if (kind != 2)
        g->setInitializer(
            kind >= 4 || r.chance(1, 3) ? Constant::getNullValue(cls[c].ty) : constInit(cls[c], cls[c].ty, {}));
      meta.globals.push_back({ name, c, konst && kind != 2, kind == 2 || kind == 3, kind == 1 || kind >= 4, kind >= 4 });
    }
  }

  // ---- expressions

  AllocaInst *
  entryAlloca(llvm::Type * t, const std::string & n)
  {
    IRBuilder<> E(entryEnd);
    auto a = E.CreateAlloca(t, nullptr, n);
    return a;
  }
  void
  initObject(IRBuilder<> & E, Value * addr, int c, bool constantsOnly)
  {
    auto & k = cls[c];
    for (auto & l : k.leaves)
    {
      Value * v;
      if (l.sp.ty->kind == Ty::Int)
        v = constantsOnly ? (Value *)constInt(l.sp.ty->width) : genInt(l.sp.ty->width, 1);
      else
        v = Constant::getNullValue(l.ty);
      E.CreateAlignedStore(v, gepLeaf(E, addr, c, l), alignOf(l.ty, c));
    }
  }
  MaybeAlign
  alignOf(llvm::Type * t, int c)
  {
    bool packed = false;
    if (auto st = dyn_cast<StructType>(cls[c].ty))
      packed = st->isPacked();
    for (auto & l : cls[c].leaves)
      (void)l;
    return packed || hasPacked(cls[c].ty) ? MaybeAlign(1) : MaybeAlign(fromLlvm(t)->align);
  }
  bool
  hasPacked(llvm::Type * t)
  {
    if (auto st = dyn_cast<StructType>(t))
    {
      if (st->isPacked())
        return true;
      for (auto e : st->elements())
        if (hasPacked(e))
          return true;
    }
    if (auto at = dyn_cast<ArrayType>(t))
      return hasPacked(at->getElementType());
    return false;
  }
  Value *
  gepLeaf(IRBuilder<> & E, Value * p, int c, const Leaf & l)
  {
    if (l.path.empty())
      return p;
    std::vector<Value *> ix{ ConstantInt::get(I(32), 0) };
    for (auto x : l.path)
      ix.push_back(ConstantInt::get(I(32), x));
    return E.CreateInBoundsGEP(cls[c].ty, p, ix);
  }
  Local
  localObj(int c, bool priv = false)
  {
    std::vector<size_t> cand;
    for (size_t i = 0; i < objs.size(); i++)
      if (objs[i].cls == c && objs[i].priv == priv)
        cand.push_back(i);
    if (!cand.empty() && !(cand.size() < 2 && r.chance(1, 3)))
      return objs[cand[r.draw(cand.size())]];
    auto a = entryAlloca(cls[c].ty, "o");
    a->setAlignment(Align(std::max<uint64_t>(meta.classes[c].ty->align, 1)));
    IRBuilder<> E(entryEnd);
    initObject(E, a, c, true);
    objs.push_back({ a, c, priv });
    return objs.back();
  }
  Var *
  findVar(const Ty * t, int c, int sig, bool assignable)
  {
    std::vector<size_t> cand;
    for (size_t i = 0; i < vars.size(); i++)
      if (vars[i].sp.ty == t && vars[i].sp.cls == c && vars[i].sp.sig == sig
          && !(assignable && vars[i].fixed))
        cand.push_back(i);
    if (cand.empty())
      return nullptr;
    return &vars[cand[r.draw(cand.size())]];
  }
  Var
  var(const Spec & s, bool assignable)
  {
    auto v = findVar(s.ty, s.cls, s.sig, assignable);
    if (v && !r.chance(1, 8))
      return *v;
    auto t = llty(s);
    auto a = entryAlloca(t, "v");
    IRBuilder<> E(entryEnd);
    E.CreateStore(t->isIntegerTy() ? constInt(t->getIntegerBitWidth()) : Constant::getNullValue(t), a);
    vars.push_back({ a, t, s });
    return vars.back();
  }
  Value *
  load(llvm::Type * t, Value * p, MaybeAlign a = {})
  {
    return B.CreateAlignedLoad(t, p, a ? a : MaybeAlign(fromLlvm(t)->align));
  }

  // a valid, non-null pointer to an object of the class (writable unless `ro`)
  Value *
  genPtr(int c, int d, bool ro = false)
  {
    std::vector<std::function<Value *()>> cand;
    for (auto & g : globs)
      if (g.cls == c && (ro || !g.constant))
        cand.push_back([&g] { return g.g; });
    for (auto & p : ptrs)
      if (p.second == c)
      {
        auto v = p.first;
        cand.push_back([v] { return v; });
        cand.push_back([v] { return v; });
      }
    cand.push_back([this, c] { return localObj(c).addr; });
    if (d > 0)
    {
      // a nullable pointer with a fallback
      cand.push_back(
          [this, c, d]() -> Value *
          {
            Spec s;
            s.ty = tyPtr();
            s.cls = c;
            s.nullable = true;
            auto p = genNullable(s, d - 1);
            auto q = localObj(c).addr;
            return B.CreateSelect(B.CreateIsNotNull(p), p, q);
          });
      cand.push_back(
          [this, c, d]() -> Value *
          {
            auto x = genBool(d - 1);
            auto p = genPtr(c, d - 1), q = genPtr(c, d - 1);
            return B.CreateSelect(x, p, q);
          });
      // a field or element of a bigger object
      for (size_t k = 0; k < cls.size(); k++)
        if (int(k) != c)
          for (auto & l : cls[k].leaves)
            if (!l.path.empty() && l.ty == cls[c].ty && cls[c].leaves.size() == 1
                && l.sp.cls == cls[c].leaves[0].sp.cls && l.sp.sig == cls[c].leaves[0].sp.sig
                && !hasPacked(cls[k].ty))
            {
              auto lp = &l;
              cand.push_back(
                  [this, k, lp, d]() -> Value *
                  {
                    Leaf l = *lp;
                    return gepLeaf(B, genPtr(int(k), d - 1), int(k), l);
                  });
              break;
            }
    }
    return cand[r.draw(cand.size())]();
  }
  Value *
  genNullable(const Spec & s, int d)
  {
    if (s.sig >= 0)
    {
      switch (r.pick({ 4, 3, 1, d > 0 ? 2u : 0u }))
      {
      case 0:
      {
        std::vector<Function *> cand;
        for (auto & f : funs)
          if (f.sig == s.sig)
            cand.push_back(f.f);
        if (cand.empty())
          return Constant::getNullValue(PointerType::get(C, 0));
        return cand[r.draw(cand.size())];
      }
      case 1:
      {
        auto v = var(s, false);
        return load(v.ty, v.addr);
      }
      case 2:
        return Constant::getNullValue(PointerType::get(C, 0));
      case 3:
        if (auto v = genLeafLoad(s, d))
          return v;
        return Constant::getNullValue(PointerType::get(C, 0));
      }
    }
    switch (r.pick({ 3, 3, 1, d > 0 ? 3u : 0u }))
    {
    case 0:
      return genPtr(s.cls, d > 0 ? d - 1 : 0);
    case 1:
    {
      auto v = var(s, false);
      return load(v.ty, v.addr);
    }
    case 2:
      return Constant::getNullValue(PointerType::get(C, 0));
    case 3:
      if (auto v = genLeafLoad(s, d))
        return v;
    }
    return Constant::getNullValue(PointerType::get(C, 0));
  }
  // load of some field of the wanted kind
  Value *
  genLeafLoad(const Spec & s, int d)
  {
    std::vector<std::pair<int, const Leaf *>> cand;
    for (size_t k = 0; k < cls.size(); k++)
      for (auto & l : cls[k].leaves)
        if (l.sp.ty == s.ty && l.sp.cls == s.cls && l.sp.sig == s.sig)
        {
          cand.push_back({ int(k), &l });
          if (cls[k].arrElt)
            break;
        }
    if (cand.empty())
      return nullptr;
    auto [k, lp] = cand[r.draw(cand.size())];
    Leaf l = *lp;
    auto p = r.chance(1, 4) && privOk(k) ? localObj(k, true).addr : genPtr(k, d - 1, true);
    return load(l.ty, gepLeaf(B, p, k, l), alignOf(l.ty, k));
  }
  bool
  privOk(int k)
  {
    return isa<StructType>(cls[k].ty);
  }
  Value *
  index(unsigned n, int d)
  {
    auto v = genInt(64, d > 0 ? d - 1 : 0);
    if ((n & (n - 1)) == 0)
      return B.CreateAnd(v, ConstantInt::get(I(64), n - 1));
    return B.CreateURem(v, ConstantInt::get(I(64), n));
  }
  Value *
  toWidth(Value * v, unsigned w, bool sgn)
  {
    auto from = v->getType()->getIntegerBitWidth();
    if (from == w)
      return v;
    if (from > w)
      return B.CreateTrunc(v, I(w));
    return sgn ? B.CreateSExt(v, I(w)) : B.CreateZExt(v, I(w));
  }
  Value *
  genInt(unsigned w, int d)
  {
    if (d <= 0)
    {
      if (r.chance(1, 2))
        return constInt(w);
      Spec s;
      s.ty = tyInt(w);
      auto v = var(s, false);
      return load(v.ty, v.addr);
    }
    Spec s;
    s.ty = tyInt(w);
    bool sc = is(Profile::Scalars);
    switch (r.pick({ 2,
                     6,
                     5,
                     8,
                     3,
                     3,
                     2,
                     sc ? 5u : 1u,
                     1,
                     sc ? 2u : 1u,
                     2,
                     sc ? 3u : 1u,
                     sc ? 3u : 1u,
                     sc ? 3u : 1u }))
    {
    case 0:
      return constInt(w);
    case 1:
    {
      auto v = var(s, false);
      return load(v.ty, v.addr);
    }
    case 2:
      if (auto v = genLeafLoad(s, d))
        return v;
      return constInt(w);
    case 3:
    {
      auto a = genInt(w, d - 1), b = genInt(w, d - 1);
      switch (r.pick({ 6, 4, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1 }))
      {
      case 0:
        return B.CreateAdd(a, b);
      case 1:
        return B.CreateSub(a, b);
      case 2:
        return B.CreateMul(a, b);
      case 3:
        return B.CreateAnd(a, b);
      case 4:
        return B.CreateOr(a, b);
      case 5:
        return B.CreateXor(a, b);
      case 6:
        return B.CreateShl(a, B.CreateAnd(b, ConstantInt::get(I(w), w - 1)));
      case 7:
        return B.CreateLShr(a, B.CreateAnd(b, ConstantInt::get(I(w), w - 1)));
      case 8:
        return B.CreateAShr(a, B.CreateAnd(b, ConstantInt::get(I(w), w - 1)));
      case 9:
        return B.CreateUDiv(a, B.CreateOr(b, ConstantInt::get(I(w), 1)));
      case 10:
        return B.CreateURem(a, B.CreateOr(b, ConstantInt::get(I(w), 1)));
      case 11:
        return B.CreateSDiv(
            a,
            B.CreateOr(B.CreateAnd(b, ConstantInt::get(I(w), 63)), ConstantInt::get(I(w), 1)));
      case 12:
        return B.CreateSRem(
            a,
            B.CreateOr(B.CreateAnd(b, ConstantInt::get(I(w), 63)), ConstantInt::get(I(w), 1)));
      }
      return a;
    }
    case 4:
    {
      auto w2 = intWidth();
      auto v = genInt(w2, d - 1);
      return toWidth(v, w, r.draw(2));
    }
    case 5:
      return w == 1 ? genBool(d - 1) : B.CreateZExt(genBool(d - 1), I(w));
    case 6:
    {
      auto c = genBool(d - 1);
      auto a = genInt(w, d - 1), b = genInt(w, d - 1);
      return B.CreateSelect(c, a, b);
    }
    case 7:
    {
      auto a = genInt(w, d - 1);
      static const Intrinsic::ID one[] = { Intrinsic::ctpop, Intrinsic::bswap, Intrinsic::abs,
                                           Intrinsic::ctlz,  Intrinsic::cttz };
      static const Intrinsic::ID two[] = { Intrinsic::smax,
                                           Intrinsic::smin,
                                           Intrinsic::umax,
                                           Intrinsic::umin };
      switch (r.draw(3))
      {
      case 0:
        return B.CreateBinaryIntrinsic(two[r.draw(4)], a, genInt(w, d - 1));
      case 1:
      {
        auto id = one[r.draw(5)];
        if (id == Intrinsic::bswap && w < 16)
          id = Intrinsic::ctpop;
        if (id == Intrinsic::ctpop || id == Intrinsic::bswap)
          return B.CreateUnaryIntrinsic(id, a);
        return B.CreateIntrinsic(id, { I(w) }, { a, ConstantInt::get(I(1), 0) });
      }
      default:
      {
        auto b = genInt(w, d - 1), c = genInt(w, d - 1);
        return B.CreateIntrinsic(Intrinsic::fshl, { I(w) }, { a, b, c });
      }
      }
    }
    case 8:
    {
      int c = int(r.draw(cls.size()));
      auto p = genPtr(c, d - 1, true), q = genPtr(c, d - 1, true);
      auto x = r.draw(2) ? B.CreateICmpEQ(p, q) : B.CreateICmpNE(p, q);
      return w == 1 ? x : B.CreateZExt(x, I(w));
    }
    case 9:
    {
      bool dbl = r.draw(2);
      auto v = genFp(dbl, d - 1);
      auto t = v->getType();
      auto ok = B.CreateAnd(
          B.CreateFCmpOGT(v, ConstantFP::get(t, -100.0)),
          B.CreateFCmpOLT(v, ConstantFP::get(t, 100.0)));
      v = B.CreateSelect(ok, v, ConstantFP::get(t, 7.0));
      return B.CreateFPToSI(v, I(w));
    }
    case 10: // element with a computed index
    {
      int c = int(r.draw(cls.size()));
      if (!cls[c].arrElt || !cls[c].arrElt->isIntegerTy())
        c = 2;
      auto ix = index(cls[c].arrN, d);
      auto p = genPtr(c, d - 1, true);
      auto e = B.CreateInBoundsGEP(cls[c].ty, p, { ConstantInt::get(I(64), 0), ix });
      return toWidth(load(cls[c].arrElt, e), w, r.draw(2));
    }
    case 11: // vectors
    {
      auto n = 2u << r.draw(2);
      auto vt = FixedVectorType::get(I(w), n);
      Value * v = r.draw(2) ? (Value *)Constant::getNullValue(vt)
                            : (Value *)ConstantVector::getSplat(ElementCount::getFixed(n), constInt(w));
      for (unsigned i = 0; i < n; i++)
        if (r.draw(2))
          v = B.CreateInsertElement(v, genInt(w, 0), uint64_t(i));
      if (r.draw(2))
      {
        auto u = B.CreateVectorSplat(n, genInt(w, d - 1));
        switch (r.draw(6))
        {
        case 0: v = B.CreateAdd(v, u); break;
        case 1: v = B.CreateMul(u, v); break;
        case 2: v = B.CreateXor(v, u); break;
        case 3: v = B.CreateSub(v, u); break;
        case 4: v = B.CreateSelect(B.CreateICmpSLT(v, u), v, u); break;
        case 5:
        {
          std::vector<int> m;
          for (unsigned i = 0; i < n; i++)
            m.push_back(int(r.draw(2 * n)));
          v = B.CreateShuffleVector(v, u, m);
          break;
        }
        }
      }
      return B.CreateExtractElement(v, uint64_t(r.draw(n)));
    }
    case 12: // first-class aggregates
    {
      auto st = StructType::get(C, { I(w), I(32), ArrayType::get(I(w), 2) });
      Value * v = Constant::getNullValue(st);
      v = B.CreateInsertValue(v, genInt(w, d - 1), { 0 });
      if (r.draw(2))
        v = B.CreateInsertValue(v, genInt(w, d - 1), { 2, r.draw(2) });
      return r.draw(2) ? B.CreateExtractValue(v, { 2, r.draw(2) }) : B.CreateExtractValue(v, { 0 });
    }
    case 13:
    {
      static const Intrinsic::ID ov[] = { Intrinsic::sadd_with_overflow,
                                          Intrinsic::uadd_with_overflow,
                                          Intrinsic::ssub_with_overflow,
                                          Intrinsic::smul_with_overflow,
                                          Intrinsic::umul_with_overflow };
      auto v = B.CreateBinaryIntrinsic(ov[r.draw(5)], genInt(w, d - 1), genInt(w, d - 1));
      if (r.draw(2))
        return B.CreateExtractValue(v, { 0 });
      return w == 1 ? B.CreateExtractValue(v, { 1 }) : B.CreateZExt(B.CreateExtractValue(v, { 1 }), I(w));
    }
    }
    return constInt(w);
  }
  Value *
  genFp(bool dbl, int d)
  {
    Spec s;
    s.ty = dbl ? tyDouble() : tyFloat();
    auto t = llty(s);
    if (d <= 0)
    {
      if (r.draw(2))
        return constFp(dbl);
      auto v = var(s, false);
      return load(v.ty, v.addr);
    }
    switch (r.pick({ 2, 3, 5, 2, 2, 2, 2 }))
    {
    case 0:
      return constFp(dbl);
    case 1:
    {
      auto v = var(s, false);
      return load(v.ty, v.addr);
    }
    case 2:
    {
      auto a = genFp(dbl, d - 1), b = genFp(dbl, d - 1);
      switch (r.draw(5))
      {
      case 0:
        return B.CreateFAdd(a, b);
      case 1:
        return B.CreateFSub(a, b);
      case 2:
        return B.CreateFMul(a, b);
      case 3:
        return B.CreateFDiv(a, b);
      default:
        return B.CreateFNeg(a);
      }
    }
    case 3:
    {
      auto v = genInt(intWidth(), d - 1);
      return r.draw(2) ? B.CreateSIToFP(v, t) : B.CreateUIToFP(v, t);
    }
    case 4:
    {
      auto v = genFp(!dbl, d - 1);
      return dbl ? B.CreateFPExt(v, t) : B.CreateFPTrunc(v, t);
    }
    case 5:
    {
      static const Intrinsic::ID u[] = { Intrinsic::fabs,  Intrinsic::floor, Intrinsic::ceil,
                                         Intrinsic::round, Intrinsic::trunc, Intrinsic::rint };
      auto a = genFp(dbl, d - 1);
      switch (r.draw(3))
      {
      case 0:
        return B.CreateUnaryIntrinsic(u[r.draw(6)], a);
      case 1:
        return B.CreateBinaryIntrinsic(Intrinsic::copysign, a, genFp(dbl, d - 1));
      default:
      {
        auto b = genFp(dbl, d - 1), c = genFp(dbl, d - 1);
        return B.CreateIntrinsic(Intrinsic::fmuladd, { t }, { a, b, c });
      }
      }
    }
    default:
    {
      auto c = genBool(d - 1);
      auto a = genFp(dbl, d - 1), b = genFp(dbl, d - 1);
      return B.CreateSelect(c, a, b);
    }
    }
  }
  Value *
  genBool(int d)
  {
    switch (d <= 0 ? 0 : r.pick({ 8, 2, 1, 2, 1 }))
    {
    case 0:
    {
      static const CmpInst::Predicate p[] = { CmpInst::ICMP_EQ,  CmpInst::ICMP_SLT, CmpInst::ICMP_NE,
                                              CmpInst::ICMP_UGT, CmpInst::ICMP_SGE, CmpInst::ICMP_ULE,
                                              CmpInst::ICMP_SGT, CmpInst::ICMP_SLE, CmpInst::ICMP_UGE,
                                              CmpInst::ICMP_ULT };
      auto w = intWidth();
      auto a = genInt(w, d - 1), b = genInt(w, d - 2);
      if (isa<Constant>(a) && isa<Constant>(b))
      {
        Spec s;
        s.ty = tyInt(w);
        auto v = var(s, false);
        a = load(v.ty, v.addr);
      }
      return B.CreateICmp(p[r.draw(10)], a, b);
    }
    case 1:
    {
      auto a = genBool(d - 1), b = genBool(d - 1);
      switch (r.draw(3))
      {
      case 0:
        return B.CreateAnd(a, b);
      case 1:
        return B.CreateOr(a, b);
      default:
        return B.CreateXor(a, b);
      }
    }
    case 2:
    {
      bool dbl = r.draw(2);
      auto a = genFp(dbl, d - 1), b = genFp(dbl, d - 1);
      auto p = CmpInst::Predicate(1 + r.draw(14));
      if (r.chance(1, 5))
        return B.CreateIntrinsic(
            Intrinsic::is_fpclass,
            { a->getType() },
            { a, ConstantInt::get(I(32), 1 + r.draw(1022)) });
      return B.CreateFCmp(p, a, b);
    }
    case 3:
    {
      Spec s;
      s.ty = tyPtr();
      s.nullable = true;
      s.cls = int(r.draw(cls.size()));
      auto v = genNullable(s, d - 1);
      return r.draw(2) ? B.CreateIsNull(v) : B.CreateIsNotNull(v);
    }
    default:
      return B.CreateTrunc(genInt(32, d - 1), I(1));
    }
  }
  Value *
  genSpec(const Spec & s, int d)
  {
    switch (s.ty->kind)
    {
    case Ty::Int:
      return genInt(s.ty->width, d);
    case Ty::Float:
    case Ty::Double:
      return genFp(s.ty->kind == Ty::Double, d);
    case Ty::Ptr:
      if (s.nullable || s.sig >= 0)
        return genNullable(s, d);
      return genPtr(s.cls, d);
    default:
      return nullptr;
    }
  }

  // ---- statements

  BasicBlock *
  block(const char * n)
  {
    return BasicBlock::Create(C, n, F);
  }
  int
  depthE()
  {
    return 1 + int(r.draw(3));
  }
  void
  assignResult(Value * v, const Spec & s)
  {
    if (s.ty->kind == Ty::Void)
      return;
    Spec t = s;
    t.nullable = t.ty->kind == Ty::Ptr;
    auto x = var(t, true);
    B.CreateStore(v, x.addr);
  }
  void
  stAssign()
  {
    auto s = scalarSpec(true);
    auto v = genSpec(s, depthE());
    // pointers to locals may live in locals
    auto x = var(s, true);
    B.CreateStore(v, x.addr);
  }
  void
  stStoreField()
  {
    int k = int(r.draw(cls.size()));
    Leaf l = cls[k].leaves[r.draw(cls[k].leaves.size())];
    bool priv = privOk(k) && r.chance(1, is(Profile::Memory) ? 2 : 4);
    Value * v;
    if (l.sp.ty->kind == Ty::Ptr && !priv)
      v = genStorable(l.sp);
    else
      v = genSpec(l.sp, depthE());
    auto p = priv ? localObj(k, true).addr : genPtr(k, 2);
    B.CreateAlignedStore(v, gepLeaf(B, p, k, l), alignOf(l.ty, k));
  }
  // pointers that outlive the function
  Value *
  genStorable(const Spec & s)
  {
    if (s.sig >= 0)
      return genNullable(s, 1);
    std::vector<Value *> cand;
    cand.push_back(Constant::getNullValue(PointerType::get(C, 0)));
    for (auto & g : globs)
      if (g.cls == s.cls && !g.constant)
        cand.push_back(g.g);
    for (auto & p : ptrs)
      if (p.second == s.cls)
        cand.push_back(p.first);
    if (r.chance(1, 10))
      return genNullable(s, 1);
    return cand[r.draw(cand.size())];
  }
  void
  stElement()
  {
    int c = 2;
    auto ix = index(cls[c].arrN, 2);
    auto v = genInt(cls[c].arrElt->getIntegerBitWidth(), depthE());
    auto p = genPtr(c, 2);
    auto e = B.CreateInBoundsGEP(cls[c].ty, p, { ConstantInt::get(I(64), 0), ix });
    B.CreateAlignedStore(v, e, MaybeAlign(fromLlvm(cls[c].arrElt)->align));
  }
  void
  stIf(int d)
  {
    auto c = genBool(depthE());
    auto t = block("then"), j = block("join");
    bool hasElse = r.draw(2);
    auto e = hasElse ? block("else") : j;
    B.CreateCondBr(c, t, e);
    B.SetInsertPoint(t);
    stmts(d - 1, 1 + r.draw(2));
    B.CreateBr(j);
    if (hasElse)
    {
      B.SetInsertPoint(e);
      stmts(d - 1, 1 + r.draw(2));
      B.CreateBr(j);
    }
    B.SetInsertPoint(j);
  }
  // something that is only safe under its guard
  void
  stGuarded(int d)
  {
    auto t = block("guarded"), j = block("join");
    switch (r.draw(4))
    {
    case 0: // division
    {
      auto w = intWidth();
      auto a = genInt(w, 2), b = genInt(w, 1);
      if (isa<Constant>(b))
      {
        Spec s;
        s.ty = tyInt(w);
        auto v = var(s, false);
        b = load(v.ty, v.addr);
      }
      bool sgn = r.draw(2);
      auto c = sgn ? B.CreateICmpSGT(b, ConstantInt::get(I(w), 0))
                   : B.CreateICmpNE(b, ConstantInt::get(I(w), 0));
      B.CreateCondBr(c, t, j);
      B.SetInsertPoint(t);
      auto q = sgn ? (r.draw(2) ? B.CreateSDiv(a, b) : B.CreateSRem(a, b))
                   : (r.draw(2) ? B.CreateUDiv(a, b) : B.CreateURem(a, b));
      Spec s;
      s.ty = tyInt(w);
      B.CreateStore(q, var(s, true).addr);
      break;
    }
    case 1: // null check
    case 3:
    {
      int k = int(r.draw(cls.size()));
      Spec s;
      s.ty = tyPtr();
      s.cls = k;
      s.nullable = true;
      auto p = genNullable(s, 2);
      Leaf l = cls[k].leaves[r.draw(cls[k].leaves.size())];
      B.CreateCondBr(B.CreateIsNotNull(p), t, j);
      B.SetInsertPoint(t);
      if (r.draw(2) || l.sp.ty->kind == Ty::Ptr)
      {
        auto v = load(l.ty, gepLeaf(B, p, k, l), alignOf(l.ty, k));
        assignResult(v, l.sp);
      }
      else
        B.CreateAlignedStore(genSpec(l.sp, 1), gepLeaf(B, p, k, l), alignOf(l.ty, k));
      break;
    }
    case 2: // bounds check
    {
      int c = 2;
      auto ix = genInt(64, 2);
      B.CreateCondBr(B.CreateICmpULT(ix, ConstantInt::get(I(64), cls[c].arrN)), t, j);
      B.SetInsertPoint(t);
      auto p = genPtr(c, 1);
      auto e = B.CreateInBoundsGEP(cls[c].ty, p, { ConstantInt::get(I(64), 0), ix });
      Spec s;
      s.ty = tyInt(cls[c].arrElt->getIntegerBitWidth());
      if (r.draw(2))
        B.CreateStore(load(cls[c].arrElt, e), var(s, true).addr);
      else
        B.CreateAlignedStore(genInt(s.ty->width, 1), e, MaybeAlign(s.ty->align));
      break;
    }
    }
    if (d > 0 && r.chance(1, 3))
      stmts(d - 1, 1);
    B.CreateBr(j);
    B.SetInsertPoint(j);
  }
  void
  stSwitch(int d)
  {
    auto w = r.draw(3) ? 32u : intWidth();
    auto v = genInt(w, 2);
    if (r.draw(2))
      v = B.CreateAnd(v, ConstantInt::get(I(w), 7));
    auto j = block("sjoin"), def = r.chance(3, 4) ? block("sdefault") : j;
    unsigned n = 1 + r.draw(4);
    auto sw = B.CreateSwitch(v, def, n);
    std::set<uint64_t> used;
    BasicBlock * prev = nullptr;
    for (unsigned i = 0; i < n; i++)
    {
      uint64_t k = r.draw(2) ? i : (r.draw(12) - 2ull) & maskW(w);
      if (!used.insert(k).second)
        continue;
      BasicBlock * b = prev && r.chance(1, 4) ? prev : nullptr;
      if (!b)
      {
        b = block("case");
        B.SetInsertPoint(b);
        stmts(d - 1, 1);
        B.CreateBr(j);
        // cases that share a target must share the block itself
        prev = b;
        if (B.GetInsertBlock() != b)
          prev = nullptr;
      }
      sw->addCase(cast<ConstantInt>(ConstantInt::get(I(w), k)), b);
    }
    if (def != j)
    {
      B.SetInsertPoint(def);
      stmts(d - 1, 1);
      B.CreateBr(j);
    }
    B.SetInsertPoint(j);
  }
  Var
  counter(unsigned w)
  {
    auto a = entryAlloca(I(w), "i");
    Spec s;
    s.ty = tyInt(w);
    Var v{ a, I(w), s, true };
    IRBuilder<> E(entryEnd);
    E.CreateStore(ConstantInt::get(I(w), 0), a);
    return v;
  }
  Value *
  bound(unsigned w, unsigned max)
  {
    if (r.draw(2))
      return ConstantInt::get(I(w), r.draw(max + 1));
    auto v = genInt(w, 1);
    unsigned m = 1;
    while (2 * m + 1 <= max)
      m = 2 * m + 1;
    return B.CreateAnd(v, ConstantInt::get(I(w), m));
  }
  void
  stLoop(int d)
  {
    loopDepth++;
    auto w = r.draw(2) ? 64u : r.draw(2) ? 32u : 16u;
    auto i = counter(w);
    unsigned form = r.draw(3); // while, do-while, endless with breaks
    auto body = block("body"), exit = block("exit"), latch = block("latch");
    BasicBlock * head = form == 1 ? body : block("head");
    unsigned maxIter = loopDepth > 1 ? 3 : 7;
    auto n = bound(w, maxIter);
    unsigned step = 1 + (r.chance(1, 4) ? r.draw(3) : 0);
    bool down = r.chance(1, 5);
    auto start = ConstantInt::get(I(w), down ? 0 : (r.chance(1, 4) ? r.draw(3) : 0));
    if (down)
      B.CreateStore(n, i.addr);
    else
      B.CreateStore(start, i.addr);
    auto inv = r.chance(1, is(Profile::Loops) ? 2 : 5) ? genBool(1) : nullptr; // invariant condition
    B.CreateBr(head);
    auto cond = [&]() -> Value *
    {
      auto iv = load(I(w), i.addr);
      if (down)
        return B.CreateICmpSGT(iv, ConstantInt::get(I(w), 0));
      return r.draw(2) ? B.CreateICmpULT(iv, n) : B.CreateICmpSLT(iv, n);
    };
    if (form == 0)
    {
      B.SetInsertPoint(head);
      B.CreateCondBr(cond(), body, exit);
    }
    else if (form == 2)
    {
      B.SetInsertPoint(head);
      B.CreateBr(body);
    }
    B.SetInsertPoint(body);
    loops.push_back({ exit, latch });
    vars.push_back(i);
    if (form == 2)
    {
      auto c = cond();
      auto go = block("go");
      B.CreateCondBr(c, go, exit);
      B.SetInsertPoint(go);
    }
    if (r.chance(is(Profile::Loops) ? 3 : 1, 4)) // walk over an array
    {
      int c = 2;
      auto p = genPtr(c, 1);
      auto iv = toWidth(load(I(w), i.addr), 64, false);
      Value * ix = iv;
      switch (r.draw(4))
      {
      case 0: break;
      case 1: ix = B.CreateAdd(iv, constInt(64)); break;
      case 2: ix = B.CreateMul(iv, constInt(64)); break;
      case 3:
        ix = B.CreateAdd(B.CreateMul(iv, constInt(64)), genInt(64, 0));
        break;
      }
      ix = B.CreateAnd(ix, ConstantInt::get(I(64), cls[c].arrN - 1));
      if (r.chance(1, 2) && cls[c].arrN >= 8 && !down)
        ix = iv; // starts at most at 2, at most 7 iterations: may run out of bounds for big steps
      auto e = B.CreateInBoundsGEP(cls[c].ty, p, { ConstantInt::get(I(64), 0), ix });
      auto ew = cls[c].arrElt->getIntegerBitWidth();
      Spec s;
      s.ty = tyInt(ew);
      auto acc = var(s, true);
      if (r.draw(2))
        B.CreateStore(B.CreateAdd(load(I(ew), acc.addr), load(I(ew), e)), acc.addr);
      else
        B.CreateAlignedStore(B.CreateAdd(toWidth(iv, ew, false), load(I(ew), acc.addr)), e, MaybeAlign(s.ty->align));
    }
    if (r.chance(is(Profile::Loops) ? 3 : 1, 4)) // further induction variables
    {
      auto iw = intWidth();
      Spec s;
      s.ty = tyInt(iw);
      auto x = var(s, true);
      auto xv = load(I(iw), x.addr);
      switch (r.draw(5))
      {
      case 0: B.CreateStore(B.CreateAdd(xv, constInt(iw)), x.addr); break;
      case 1: B.CreateStore(B.CreateAdd(xv, toWidth(load(I(w), i.addr), iw, true)), x.addr); break;
      case 2: B.CreateStore(B.CreateMul(xv, constInt(iw)), x.addr); break;
      case 3: B.CreateStore(B.CreateSub(xv, constInt(iw)), x.addr); break;
      case 4:
      {
        auto y = var(s, true);
        auto yv = load(I(iw), y.addr);
        B.CreateStore(B.CreateAdd(B.CreateMul(toWidth(load(I(w), i.addr), iw, false), constInt(iw)), yv), x.addr);
        break;
      }
      }
    }
    if (inv)
    {
      auto t = block("inv"), e = r.draw(2) ? block("ninv") : nullptr, j = block("invj");
      B.CreateCondBr(inv, t, e ? e : j);
      B.SetInsertPoint(t);
      stmts(d - 1, 1);
      B.CreateBr(j);
      if (e)
      {
        B.SetInsertPoint(e);
        stmts(d - 1, 1);
        B.CreateBr(j);
      }
      B.SetInsertPoint(j);
    }
    stmts(d - 1, 1 + r.draw(2));
    if (r.chance(1, 4))
    {
      auto c = genBool(2);
      auto go = block("nobreak");
      B.CreateCondBr(c, r.draw(2) ? exit : latch, go);
      B.SetInsertPoint(go);
      stmts(d - 1, 1);
    }
    B.CreateBr(latch);
    loops.pop_back();
    B.SetInsertPoint(latch);
    auto iv = load(I(w), i.addr);
    auto stepC = ConstantInt::get(I(w), step);
    auto nx = down ? B.CreateSub(iv, stepC)
                   : B.CreateAdd(iv, stepC, "", r.draw(2), r.draw(2));
    B.CreateStore(nx, i.addr);
    if (form == 1)
      B.CreateCondBr(cond(), body, exit);
    else
      B.CreateBr(head);
    B.SetInsertPoint(exit);
    loopDepth--;
  }
  // irreducible control flow, limited by a counter
  void
  stIrreducible(int d)
  {
    auto i = counter(32);
    auto a = block("irrA"), b = block("irrB"), c = block("irrC"), x = block("irrX");
    B.CreateStore(ConstantInt::get(I(32), 0), i.addr);
    B.CreateCondBr(genBool(2), a, b);
    for (auto bb : { a, b, c })
    {
      B.SetInsertPoint(bb);
      stmts(d - 1, 1);
      auto n = B.CreateAdd(load(I(32), i.addr), ConstantInt::get(I(32), 1));
      B.CreateStore(n, i.addr);
      auto more = B.CreateICmpULT(n, ConstantInt::get(I(32), 3 + r.draw(5)));
      auto go = block("irrgo");
      B.CreateCondBr(more, go, x);
      B.SetInsertPoint(go);
      auto cond = genBool(2);
      BasicBlock * t[] = { a, b, c };
      auto p = t[r.draw(3)], q = t[r.draw(3)];
      B.CreateCondBr(cond, p, q);
    }
    B.SetInsertPoint(x);
  }
  void
  emitCall(Value * callee, FunctionType * ft, const FnSig & sig, bool recursive)
  {
    std::vector<Value *> args;
    for (auto & a : sig.args)
      args.push_back(genSpec(a, 1 + int(r.draw(2))));
    (void)recursive;
    auto c = B.CreateCall(ft, callee, args);
    if (sig.ret.ty->kind != Ty::Void && !r.chance(1, 5))
      assignResult(c, sig.ret);
  }
  void
  stCall()
  {
    if (vaDef && fi < funs.size() && callBudget > 0 && x.chance(1, 4))
    {
      callBudget -= loopDepth + 1;
      std::vector<Value *> args;
      for (auto & a : meta.sigs[vaSig].args)
        args.push_back(genSpec(a, 1));
      unsigned n = 1 + x.draw(3);
      for (unsigned i = 0; i < n; i++)
        switch (x.draw(4))
        {
        case 0: args.push_back(genInt(32, 1)); break;
        case 1: args.push_back(genInt(64, 1)); break;
        case 2: args.push_back(genFp(true, 1)); break;
        case 3: args.push_back(genPtr(int(r.draw(cls.size())), 1)); break;
        }
      auto c = B.CreateCall(vaDef->getFunctionType(), vaDef, args);
      assignResult(c, meta.sigs[vaSig].ret);
      return;
    }
    if (varFn && r.chance(1, 6))
    {
      std::vector<Value *> args{ genInt(32, 1) };
      unsigned n = r.draw(4);
      for (unsigned i = 0; i < n; i++)
        switch (r.draw(4))
        {
        case 0: args.push_back(genInt(32, 1)); break;
        case 1: args.push_back(genInt(64, 1)); break;
        case 2: args.push_back(genFp(true, 1)); break;
        case 3: args.push_back(genPtr(int(r.draw(cls.size())), 1)); break;
        }
      auto c = B.CreateCall(varFt, varFn, args);
      Spec s;
      s.ty = tyInt(32);
      assignResult(c, s);
      return;
    }
    if (callBudget <= 0)
      return stAssign();
    std::vector<size_t> cand;
    for (size_t k = 0; k < funs.size(); k++)
      if (!funs[k].defined || k > fi)
        cand.push_back(k);
    auto k = cand[r.draw(cand.size())];
    if (funs[k].defined)
      callBudget -= loopDepth + 1;
    emitCall(funs[k].f, sigs[funs[k].sig], meta.sigs[funs[k].sig], false);
  }
  // ---- what must stay in a function of its own: variable arguments, saved contexts, allocas

  Stream & x;
  Function * vaDef = nullptr;
  int vaSig = -1;
  Function * setjmpFn = nullptr;
  std::vector<GlobalVariable *> bufs;
  GlobalVariable * jmpG = nullptr;
  Function * jmpHelper = nullptr;
  bool jmpCalled = false;
  Function * allocaHelper = nullptr;
  bool allocaCalled = false;
  bool vaHere = false, blockAllocas = false;

  void
  makeFrames()
  {
    if (x.chance(1, is(Profile::Calls) ? 4 : 12))
    {
      FnSig s;
      s.ret.ty = tyInt(32);
      std::vector<llvm::Type *> at;
      for (unsigned n = x.draw(3); n; n--)
      {
        Spec a;
        a.ty = x.draw(3) ? tyInt(32) : tyPtr();
        if (a.ty->kind == Ty::Ptr)
          a.cls = int(x.draw(cls.size()));
        s.args.push_back(a);
        at.push_back(llty(a));
      }
      s.variadic = true;
      vaSig = int(meta.sigs.size());
      meta.sigs.push_back(s);
      bool exp = x.chance(1, 3);
      vaDef = Function::Create(
          FunctionType::get(I(32), at, true),
          exp ? GlobalValue::ExternalLinkage : GlobalValue::InternalLinkage,
          "fv",
          M);
      meta.fns["fv"] = { vaSig, true, exp, false };
      meta.fnOrder.push_back("fv");
    }
    if (x.chance(1, is(Profile::Calls) ? 3 : 10))
    {
      setjmpFn = Function::Create(
          FunctionType::get(I(32), { PointerType::get(C, 0) }, false),
          GlobalValue::ExternalLinkage,
          "_setjmp",
          M);
      setjmpFn->addFnAttr(Attribute::ReturnsTwice);
      // known to this module only
      jmpG = new GlobalVariable(
          M, I(32), false, GlobalValue::InternalLinkage, ConstantInt::get(I(32), 7), "jg");
      jmpG->setAlignment(Align(4));
      for (unsigned n = 1 + x.draw(2); n; n--)
      {
        auto t = llvm::ArrayType::get(I(64), 4);
        auto g = new GlobalVariable(
            M, t, false, GlobalValue::InternalLinkage, Constant::getNullValue(t), "jb" + std::to_string(n));
        g->setAlignment(Align(16));
        bufs.push_back(g);
      }
    }
    if (setjmpFn && x.chance(2, 3))
      jmpHelper = Function::Create(
          FunctionType::get(I(32), { PointerType::get(C, 0), I(32) }, false),
          GlobalValue::InternalLinkage,
          "js",
          M);
    blockAllocas = x.chance(1, is(Profile::Calls) ? 3 : 10);
    if (blockAllocas && x.chance(2, 3))
      allocaHelper = Function::Create(
          FunctionType::get(I(32), { I(32) }, false), GlobalValue::InternalLinkage, "ba", M);
  }
  // control may come back here out of any later call
  void
  stSetjmp(int d)
  {
    auto b = bufs[x.draw(bufs.size())];
    if (x.chance(1, 3))
      B.CreateAlignedStore(genInt(32, 1), jmpG, Align(4));
    auto c = B.CreateCall(setjmpFn->getFunctionType(), setjmpFn, { b });
    c->addFnAttr(Attribute::ReturnsTwice);
    auto t = block("first"), e = block("again"), j = block("join");
    B.CreateCondBr(B.CreateICmpEQ(c, ConstantInt::get(I(32), 0)), t, e);
    B.SetInsertPoint(t);
    bool priv = x.draw(2);
    auto put = [&]()
    {
      B.CreateAlignedStore(genInt(32, 1), jmpG, Align(4));
    };
    if (priv)
      put();
    for (unsigned n = x.draw(3); n; n--)
      x.draw(2) ? stStoreField() : stmt(d - 1);
    std::vector<size_t> ext;
    for (size_t k = 0; k < funs.size(); k++)
      if (!funs[k].defined)
        ext.push_back(k);
    if (x.chance(3, 4))
    {
      auto & f = funs[ext[x.draw(ext.size())]];
      std::vector<Value *> args;
      for (auto & a : meta.sigs[f.sig].args)
        args.push_back(genSpec(a, 1));
      B.CreateCall(sigs[f.sig], f.f, args);
      if (priv && x.draw(2))
        put();
      if (x.draw(2))
        stStoreField();
    }
    B.CreateBr(j);
    B.SetInsertPoint(e);
    if (priv)
    {
      Spec s;
      s.ty = tyInt(32);
      assignResult(B.CreateAlignedLoad(I(32), jmpG, Align(4)), s);
    }
    else if (x.draw(2))
      stStoreField();
    else
      stmts(d - 1, 1);
    B.CreateBr(j);
    B.SetInsertPoint(j);
  }
  void
  prologue(Function * f)
  {
    F = f;
    fi = funs.size();
    vars.clear();
    objs.clear();
    ptrs.clear();
    loops.clear();
    loopDepth = 0;
    vaHere = false;
    auto entry = block("entry");
    B.SetInsertPoint(entry);
    auto start = block("start");
    entryEnd = BranchInst::Create(start, entry);
    fuel = fuelG;
    B.SetInsertPoint(start);
    budget = 4;
    callBudget = 0;
  }
  // A function with objects of its own, some of which only exist on one of its paths.
  void
  bodyAllocaHelper()
  {
    prologue(allocaHelper);
    auto n = F->getArg(0);
    auto t = block("then"), e = block("else");
    B.CreateCondBr(B.CreateICmpSLT(n, ConstantInt::get(I(32), x.draw(4))), t, e);
    B.SetInsertPoint(e);
    if (x.draw(2))
      stStoreField();
    B.CreateRet(n);
    B.SetInsertPoint(t);
    if (x.draw(2))
      stBlockAlloca();
    else
      stStoreField();
    Spec s;
    s.ty = tyInt(32);
    B.CreateRet(genSpec(s, 2));
  }
  // A function that changes an object of its only caller between setjmp and longjmp.
  void
  bodyJmpHelper()
  {
    prologue(jmpHelper);
    auto p = F->getArg(0), n = F->getArg(1);
    auto add = [&](unsigned k)
    {
      B.CreateAlignedStore(B.CreateAdd(B.CreateAlignedLoad(I(32), p, Align(4)), ConstantInt::get(I(32), k)), p, Align(4));
    };
    auto ret = [&](Value * v)
    {
      B.CreateRet(v);
    };
    if (x.draw(2))
    {
      // only sometimes
      auto t = block("save"), e = block("skip");
      B.CreateCondBr(B.CreateICmpSLT(n, ConstantInt::get(I(32), x.draw(100))), t, e);
      B.SetInsertPoint(e);
      if (x.draw(2))
        add(1);
      ret(n);
      B.SetInsertPoint(t);
    }
    if (x.draw(2))
      add(2);
    auto c = B.CreateCall(setjmpFn->getFunctionType(), setjmpFn, { bufs[x.draw(bufs.size())] });
    c->addFnAttr(Attribute::ReturnsTwice);
    auto t = block("first"), e = block("again");
    B.CreateCondBr(B.CreateICmpEQ(c, ConstantInt::get(I(32), 0)), t, e);
    B.SetInsertPoint(t);
    add(4);
    std::vector<size_t> ext;
    for (size_t k = 0; k < funs.size(); k++)
      if (!funs[k].defined)
        ext.push_back(k);
    auto & f = funs[ext[x.draw(ext.size())]];
    std::vector<Value *> args;
    for (auto & a : meta.sigs[f.sig].args)
      args.push_back(genSpec(a, 1));
    B.CreateCall(sigs[f.sig], f.f, args);
    if (x.draw(2))
      add(8);
    ret(n);
    B.SetInsertPoint(e);
    if (x.draw(2))
      add(16);
    ret(B.CreateAlignedLoad(I(32), p, Align(4)));
  }
  void
  stJmpHelper()
  {
    jmpCalled = true;
    auto a = entryAlloca(I(32), "x");
    B.CreateAlignedStore(genInt(32, 1), a, Align(4));
    auto v = B.CreateCall(jmpHelper->getFunctionType(), jmpHelper, { a, genInt(32, 1) });
    Spec s;
    s.ty = tyInt(32);
    assignResult(B.CreateXor(v, B.CreateAlignedLoad(I(32), a, Align(4))), s);
  }
  void
  stVaStart()
  {
    auto ap = entryAlloca(llvm::ArrayType::get(I(8), 24), "ap");
    ap->setAlignment(Align(16));
    auto p = PointerType::get(C, 0);
    B.CreateCall(Intrinsic::getDeclaration(&M, Intrinsic::vastart), { ap });
    (void)p;
    if (x.draw(2))
      stmt(1);
    B.CreateCall(Intrinsic::getDeclaration(&M, Intrinsic::vaend), { ap });
  }
  void
  stBlockAlloca()
  {
    int c = int(x.draw(cls.size()));
    auto a = B.CreateAlloca(cls[c].ty, nullptr, "b");
    a->setAlignment(Align(std::max<uint64_t>(meta.classes[c].ty->align, 1)));
    initObject(B, a, c, true);
    ptrs.push_back({ a, c });
    for (unsigned n = 1 + x.draw(2); n; n--)
      stStoreField();
    ptrs.pop_back();
    auto & l = cls[c].leaves[x.draw(cls[c].leaves.size())];
    if (l.sp.ty->kind != Ty::Ptr)
    {
      auto v = B.CreateAlignedLoad(l.ty, gepLeaf(B, a, c, l), alignOf(l.ty, c));
      assignResult(v, l.sp);
    }
  }
  bool
  stFrame(int d)
  {
    if (vaHere && x.chance(1, 3))
      return stVaStart(), true;
    if (allocaHelper && !allocaCalled && loopDepth > 0 && fi < funs.size() && x.chance(1, 2))
    {
      allocaCalled = true;
      Spec s;
      s.ty = tyInt(32);
      assignResult(B.CreateCall(allocaHelper->getFunctionType(), allocaHelper, { genInt(32, 1) }), s);
      return true;
    }
    if (jmpHelper && !jmpCalled && fi < funs.size() && x.chance(1, 4))
      return stJmpHelper(), true;
    if (setjmpFn && d > 0 && x.chance(1, 8))
      return stSetjmp(d), true;
    if (blockAllocas && x.chance(1, 6))
      return stBlockAlloca(), true;
    return false;
  }

  void
  stIndirect()
  {
    if (callBudget <= 0)
      return stAssign();
    callBudget -= loopDepth + 1;
    int sig = int(r.draw(sigs.size()));
    Spec s;
    s.ty = tyPtr();
    s.sig = sig;
    s.nullable = true;
    auto p = genNullable(s, 2);
    auto t = block("icall"), j = block("join");
    // dynamic recursion is cut off by the fuel
    auto ok = B.CreateIsNotNull(p);
    if (fuel)
      ok = B.CreateAnd(ok, B.CreateICmpUGT(load(I(32), fuel), ConstantInt::get(I(32), 0)));
    B.CreateCondBr(ok, t, j);
    B.SetInsertPoint(t);
    if (fuel)
      B.CreateStore(B.CreateSub(load(I(32), fuel), ConstantInt::get(I(32), 1)), fuel);
    emitCall(p, sigs[sig], meta.sigs[sig], false);
    B.CreateBr(j);
    B.SetInsertPoint(j);
  }
  void
  stRecurse()
  {
    if (!fuel)
      return stAssign();
    auto t = block("rec"), j = block("join");
    auto f = load(I(32), fuel);
    B.CreateCondBr(B.CreateICmpUGT(f, ConstantInt::get(I(32), 0)), t, j);
    B.SetInsertPoint(t);
    B.CreateStore(B.CreateSub(f, ConstantInt::get(I(32), 1)), fuel);
    std::vector<size_t> cand;
    for (size_t k = 0; k <= fi && k < funs.size(); k++)
      if (funs[k].defined)
        cand.push_back(k);
    auto k = cand[cand.size() - 1 - r.draw(cand.size())];
    emitCall(funs[k].f, sigs[funs[k].sig], meta.sigs[funs[k].sig], true);
    B.CreateBr(j);
    B.SetInsertPoint(j);
  }
  void
  stMalloc(int d)
  {
    if (!mallocFn)
      return stAssign();
    int c = int(r.draw(cls.size()));
    auto p = B.CreateCall(
        mallocFn->getFunctionType(),
        mallocFn,
        { ConstantInt::get(I(64), meta.classes[c].ty->size + (r.chance(1, 6) ? 8 * r.draw(4) : 0)) });
    auto t = block("alloced"), j = block("join");
    B.CreateCondBr(B.CreateIsNotNull(p), t, j);
    B.SetInsertPoint(t);
    initObject(B, p, c, false);
    bool keep = r.draw(2);
    if (keep)
    {
      // hand it to the world
      std::vector<std::pair<int, const Leaf *>> cand;
      for (size_t k = 0; k < cls.size(); k++)
        for (auto & l : cls[k].leaves)
          if (l.sp.ty->kind == Ty::Ptr && l.sp.cls == c)
            cand.push_back({ int(k), &l });
      Spec s;
      s.ty = tyPtr();
      s.cls = c;
      s.nullable = true;
      if (!cand.empty() && r.chance(3, 4))
      {
        auto [k, lp] = cand[r.draw(cand.size())];
        Leaf l = *lp;
        B.CreateAlignedStore(p, gepLeaf(B, genPtr(k, 1), k, l), alignOf(l.ty, k));
      }
      B.CreateStore(p, var(s, true).addr);
      if (d > 0)
        stmts(d - 1, 1);
    }
    else
    {
      ptrs.push_back({ p, c });
      auto np = ptrs.size();
      if (d > 0)
        stmts(d - 1, 1 + r.draw(2));
      ptrs.resize(np - 1);
      if (freeFn && r.chance(2, 3))
        B.CreateCall(freeFn->getFunctionType(), freeFn, { p });
    }
    B.CreateBr(j);
    B.SetInsertPoint(j);
  }
  void
  stMemOp()
  {
    int c = int(r.draw(cls.size()));
    auto sz = meta.classes[c].ty->size;
    auto al = MaybeAlign(hasPacked(cls[c].ty) ? 1 : meta.classes[c].ty->align);
    switch (r.draw(3))
    {
    case 0:
    {
      auto d = genPtr(c, 1), s = genPtr(c, 1, true);
      B.CreateMemMove(d, al, s, al, sz);
      break;
    }
    case 1:
    {
      auto d = genPtr(c, 1);
      auto v = B.CreateTrunc(genInt(32, 0), I(8));
      bool hasPtr = false;
      for (auto & l : cls[c].leaves)
        hasPtr = hasPtr || l.sp.ty->kind == Ty::Ptr;
      Value * len = ConstantInt::get(I(64), sz);
      if (r.chance(1, 3) && !hasPtr)
        len = B.CreateURem(genInt(64, 1), ConstantInt::get(I(64), sz + 1));
      B.CreateMemSet(d, hasPtr ? (Value *)ConstantInt::get(I(8), 0) : v, len, al);
      break;
    }
    case 2:
    {
      auto d = localObj(c).addr;
      Value * s = nullptr;
      for (auto & g : globs)
        if (g.cls == c)
          s = g.g;
      if (!s)
        for (auto & p : ptrs)
          if (p.second == c && p.first != d)
            s = p.first;
      if (!s)
      {
        auto s2 = genPtr(c, 1, true);
        B.CreateMemMove(d, al, s2, al, sz);
        break;
      }
      if (r.draw(2) && s != d && !isa<GlobalVariable>(s))
        B.CreateMemCpy(d, al, s, al, sz);
      else if (isa<GlobalVariable>(s) && (cast<GlobalVariable>(s)->isConstant() || r.draw(2)))
        B.CreateMemCpy(d, al, s, al, sz);
      else
        B.CreateMemMove(s, al, d, al, sz);
      break;
    }
    }
  }
  void
  stVolatile()
  {
    int k = int(r.draw(cls.size()));
    Leaf l = cls[k].leaves[r.draw(cls[k].leaves.size())];
    auto p = gepLeaf(B, genPtr(k, 1), k, l);
    if (r.draw(2) || l.sp.ty->kind == Ty::Ptr)
    {
      auto v = B.CreateAlignedLoad(l.ty, p, alignOf(l.ty, k), true);
      assignResult(v, l.sp);
    }
    else
      B.CreateAlignedStore(genSpec(l.sp, 1), p, alignOf(l.ty, k), true);
  }
  // conditions that decide twice
  void
  stCorrelated(int d)
  {
    auto w = 32u;
    Spec s;
    s.ty = tyInt(w);
    auto c = genBool(2);
    auto flag = var(s, true);
    auto fa = flag.addr;
    auto emit = [&](Value * cond, bool setFlag)
    {
      auto t = block("cT"), e = block("cE"), j = block("cJ");
      B.CreateCondBr(cond, t, e);
      B.SetInsertPoint(t);
      if (setFlag)
        B.CreateStore(ConstantInt::get(I(w), 1), fa);
      if (d > 0)
        stmts(d - 1, 1);
      B.CreateBr(j);
      B.SetInsertPoint(e);
      if (setFlag)
        B.CreateStore(ConstantInt::get(I(w), r.draw(3) ? 0 : 2), fa);
      if (d > 0 && r.draw(2))
        stmts(d - 1, 1);
      B.CreateBr(j);
      B.SetInsertPoint(j);
    };
    bool viaFlag = r.draw(2);
    emit(c, viaFlag);
    if (r.draw(2))
      stmt(0);
    if (viaFlag)
      emit(B.CreateICmpEQ(load(I(w), fa), ConstantInt::get(I(w), r.draw(2))), false);
    else
      emit(c, false);
  }
  // do { ... again = decided by a branch inside } while (again)
  void
  stFlagLoop(int d)
  {
    loopDepth++;
    auto i = counter(32);
    auto again = counter(r.draw(2) ? 1 : 32);
    auto w = again.ty->getIntegerBitWidth();
    auto body = block("fl"), exit = block("flx"), t = block("flT"), e = block("flE"), j = block("flJ");
    B.CreateStore(ConstantInt::get(I(32), 0), i.addr);
    B.CreateBr(body);
    B.SetInsertPoint(body);
    auto n = B.CreateAdd(load(I(32), i.addr), ConstantInt::get(I(32), 1));
    B.CreateStore(n, i.addr);
    auto c = genBool(2);
    auto lim = B.CreateICmpULT(n, ConstantInt::get(I(32), 2 + r.draw(4)));
    // a value selected by the branch that decides, only of interest after the loop (or in it)
    auto pick = r.draw(2) ? counter(32) : Var{};
    Value *pickT = nullptr, *pickE = nullptr;
    if (pick.addr)
    {
      pickT = genInt(32, 1);
      pickE = genInt(32, 1);
    }
    B.CreateCondBr(B.CreateAnd(c, lim), t, e);
    B.SetInsertPoint(t);
    // now and then both branches leave the loop
    unsigned flagT = r.chance(1, 8) ? 0 : 1;
    B.CreateStore(ConstantInt::get(I(w), flagT), again.addr);
    if (pick.addr)
      B.CreateStore(pickT, pick.addr);
    stmts(d - 1, 1);
    auto endT = B.GetInsertBlock();
    B.CreateBr(j);
    B.SetInsertPoint(e);
    if (r.chance(1, 8))
    {
      auto f2 = B.CreateICmpULT(n, ConstantInt::get(I(32), 2 + r.draw(4)));
      B.CreateStore(B.CreateZExtOrTrunc(f2, I(w)), again.addr);
    }
    else
      B.CreateStore(ConstantInt::get(I(w), 0), again.addr);
    if (pick.addr)
      B.CreateStore(pickE, pick.addr);
    if (r.draw(2))
      stmts(d - 1, 1);
    auto endE = B.GetInsertBlock();
    B.CreateBr(j);
    B.SetInsertPoint(j);
    // (a phi that is not folded when both constants are the same)
    PHINode * flag = nullptr;
    if (r.draw(2))
    {
      flag = B.CreatePHI(I(w), 2);
      flag->addIncoming(ConstantInt::get(I(w), flagT), endT);
      flag->addIncoming(ConstantInt::get(I(w), 0), endE);
    }
    if (r.draw(2))
      stmts(d - 1, 1);
    Value * av = flag ? (Value *)flag : load(I(w), again.addr);
    B.CreateCondBr(w == 1 ? av : B.CreateICmpNE(av, ConstantInt::get(I(w), 0)), body, exit);
    B.SetInsertPoint(exit);
    loopDepth--;
    if (pick.addr)
    {
      pick.fixed = false;
      vars.push_back(pick);
    }
  }
  struct Toucher
  {
    Function * f;
    GlobalVariable * g;
  };
  std::vector<Toucher> touchers;
  // small functions whose only effect is to change (or only to read) one global
  void
  makeTouchers()
  {
    std::vector<size_t> cand;
    for (size_t i = 0; i < globs.size(); i++)
      if (!globs[i].constant)
        cand.push_back(i);
    unsigned n = cand.empty() ? 0 : r.draw(3);
    if (!n)
      return;
    FnSig sg;
    sg.ret.ty = tyVoid();
    int sig = int(meta.sigs.size());
    // void (): not used for anything else
    meta.sigs.push_back(sg);
    auto ft = FunctionType::get(llvm::Type::getVoidTy(C), {}, false);
    for (unsigned t = 0; t < n; t++)
    {
      auto gl = globs[cand[r.draw(cand.size())]];
      std::vector<Leaf> ls;
      for (auto & l : cls[gl.cls].leaves)
        if (l.sp.ty->kind == Ty::Int)
          ls.push_back(l);
      if (ls.empty())
        continue;
      auto name = "touch" + std::to_string(t);
      auto f = Function::Create(ft, GlobalValue::InternalLinkage, name, M);
      if (r.draw(2))
        f->addFnAttr(Attribute::NoInline);
      meta.fns[name] = { sig, true, false };
      meta.fnOrder.push_back(name);
      IRBuilder<> E(BasicBlock::Create(C, "entry", f));
      auto l = ls[r.draw(ls.size())];
      auto p = gepLeaf(E, gl.g, gl.cls, l);
      auto al = alignOf(l.ty, gl.cls);
      switch (r.draw(3))
      {
      case 0:
        E.CreateAlignedStore(
            E.CreateAdd(E.CreateAlignedLoad(l.ty, p, al), ConstantInt::get(l.ty, 1)), p, al);
        break;
      case 1:
        E.CreateAlignedStore(constInt(l.sp.ty->width), p, al);
        break;
      case 2:
        if (t)
        {
          if (!touchers.empty())
            E.CreateCall(ft, touchers[0].f);
        }
        else
          E.CreateMemSet(gl.g, ConstantInt::get(I(8), 0), meta.classes[gl.cls].ty->size, MaybeAlign(1));
        break;
      }
      E.CreateRetVoid();
      if (!(t && touchers.empty()))
        touchers.push_back({ f, gl.g });
    }
  }
  // functions that only reach what they access through one or more pointers in memory
  struct PFn
  {
    Function * f;
    unsigned level; // of the first parameter: 1 is a pointer to an integer
    bool link;      // second parameter: a pointer of the level below, stored through the first
  };
  std::vector<PFn> pfns;
  void
  makePointerFns()
  {
    unsigned n = r.chance(1, 2) ? 0 : 1 + r.draw(4);
    auto pt = PointerType::get(C, 0);
    int sigs[2] = { -1, -1 };
    for (unsigned k = 0; k < n; k++)
    {
      PFn pf{ nullptr, unsigned(1 + r.pick({ 2, 4, 2 })), false };
      pf.link = pf.level > 1 && r.chance(1, 3);
      auto & sig = sigs[pf.link];
      if (sig < 0)
      {
        FnSig sg;
        sg.ret.ty = tyVoid();
        Spec a;
        a.ty = tyPtr();
        a.nullable = true;
        sg.args.assign(pf.link ? 2 : 1, a);
        sig = int(meta.sigs.size());
        meta.sigs.push_back(sg);
      }
      std::vector<llvm::Type *> ts(pf.link ? 2 : 1, pt);
      auto name = "deref" + std::to_string(k);
      auto f = Function::Create(
          FunctionType::get(llvm::Type::getVoidTy(C), ts, false),
          GlobalValue::InternalLinkage,
          name,
          M);
      if (r.draw(2))
        f->addFnAttr(Attribute::NoInline);
      meta.fns[name] = { sig, true, false };
      meta.fnOrder.push_back(name);
      IRBuilder<> E(BasicBlock::Create(C, "entry", f));
      Value * a = f->getArg(0);
      unsigned ops = 1 + r.draw(2);
      for (unsigned i = 0; i < ops; i++)
      {
        std::vector<PFn> cand;
        for (auto & q : pfns)
          if (q.level <= pf.level && (!q.link || pf.link))
            cand.push_back(q);
        unsigned what = r.draw(4);
        if (what == 0 && !cand.empty())
        {
          auto & q = cand[r.draw(cand.size())];
          Value *x = a, *y = pf.link ? f->getArg(1) : nullptr;
          for (unsigned l = pf.level; l > q.level; l--)
          {
            x = E.CreateLoad(pt, x);
            if (y && l > 2)
              y = E.CreateLoad(pt, y);
          }
          if (q.link)
            E.CreateCall(q.f, { x, y });
          else
            E.CreateCall(q.f, { x });
        }
        else if (pf.link && what < 3)
          E.CreateStore(f->getArg(1), a);
        else
        {
          Value * x = a;
          for (unsigned l = pf.level; l > 1; l--)
            x = E.CreateLoad(pt, x);
          if (r.draw(2))
            E.CreateStore(E.CreateAdd(E.CreateLoad(I(32), x), ConstantInt::get(I(32), 1)), x);
          else
            E.CreateStore(constInt(32), x);
        }
      }
      E.CreateRetVoid();
      pf.f = f;
      pfns.push_back(pf);
    }
  }
  // cells, pointers to them, pointers to those, and calls that work on them
  void
  stPointers(int d)
  {
    auto pt = PointerType::get(C, 0);
    std::vector<Value *> lv[4];
    for (unsigned l = 1; l <= 3; l++)
    {
      unsigned n = 1 + r.draw(2);
      for (unsigned i = 0; i < n; i++)
      {
        auto a = entryAlloca(l == 1 ? (llvm::Type *)I(32) : pt, "c");
        IRBuilder<> E(entryEnd);
        Value * init = l == 1 ? (Value *)constInt(32) : lv[l - 1][r.draw(lv[l - 1].size())];
        E.CreateStore(init, a);
        lv[l].push_back(a);
      }
    }
    Spec s32;
    s32.ty = tyInt(32);
    auto any = [&](unsigned l) -> Value *
    {
      // an address of the level: of a variable, or read from one of the level above
      if (l < 3 && r.chance(1, 3))
        return B.CreateLoad(pt, lv[l + 1][r.draw(lv[l + 1].size())]);
      auto a = lv[l][r.draw(lv[l].size())];
      if (r.chance(1, 6))
        return B.CreateSelect(genBool(1), a, lv[l][r.draw(lv[l].size())]);
      return a;
    };
    std::function<void(int)> op = [&](int d)
    {
      switch (r.pick({ 5, 2, 2, 3, d > 0 ? 1u : 0u, d > 0 && loopDepth < 2 ? 1u : 0u }))
      {
      case 0:
        if (!pfns.empty())
        {
          auto & q = pfns[r.draw(pfns.size())];
          if (q.link)
          {
            auto x = any(q.level), y = any(q.level - 1);
            B.CreateCall(q.f, { x, y });
          }
          else
            B.CreateCall(q.f, { any(q.level) });
          break;
        }
        [[fallthrough]];
      case 1: // write a cell
        B.CreateStore(genInt(32, 1), any(1));
        break;
      case 2: // change a pointer
      {
        unsigned l = 2 + r.draw(2);
        auto v = any(l - 1);
        B.CreateStore(v, any(l));
        break;
      }
      case 3:
        B.CreateStore(load(I(32), any(1)), var(s32, true).addr);
        break;
      case 4:
      {
        auto t = block("pt"), j = block("pj");
        B.CreateCondBr(genBool(2), t, j);
        B.SetInsertPoint(t);
        op(d - 1);
        B.CreateBr(j);
        B.SetInsertPoint(j);
        break;
      }
      case 5:
      {
        loopDepth++;
        auto c = counter(32);
        auto b = block("pl"), x = block("px");
        auto lim = bound(32, 3);
        B.CreateStore(ConstantInt::get(I(32), 0), c.addr);
        B.CreateBr(b);
        B.SetInsertPoint(b);
        op(d - 1);
        op(d - 1);
        auto nx = B.CreateAdd(load(I(32), c.addr), ConstantInt::get(I(32), 1));
        B.CreateStore(nx, c.addr);
        B.CreateCondBr(B.CreateICmpULT(nx, lim), b, x);
        B.SetInsertPoint(x);
        loopDepth--;
        break;
      }
      }
    };
    unsigned n = 2 + r.draw(5);
    for (unsigned i = 0; i < n; i++)
      op(d);
    for (auto a : lv[1])
      if (r.draw(2))
        B.CreateStore(load(I(32), a), var(s32, true).addr);
  }
  void
  touch(Value * p)
  {
    std::vector<Function *> cand;
    for (auto & t : touchers)
    {
      cand.push_back(t.f);
      if (t.g == p)
        cand.insert(cand.end(), 3, t.f);
    }
    if (cand.empty())
      return stCall();
    auto f = cand[r.draw(cand.size())];
    B.CreateCall(f->getFunctionType(), f);
  }
  // a call, store, loop ... that may or may not change *p
  void
  effect(Value * p, int k, const Leaf & l, int d)
  {
    switch (r.pick({ 4, 3, 2, 2, 1, 2 }))
    {
    case 0:
      if (r.draw(3))
        touch(p);
      else
        stCall();
      break;
    case 1:
    {
      auto q = r.draw(2) ? p : genPtr(k, 1);
      B.CreateAlignedStore(genSpec(l.sp, 1), gepLeaf(B, q, k, l), alignOf(l.ty, k));
      break;
    }
    case 2: // only reads
    {
      auto v = load(l.ty, gepLeaf(B, r.draw(2) ? p : genPtr(k, 1, true), k, l), alignOf(l.ty, k));
      assignResult(v, l.sp);
      break;
    }
    case 3:
      stMemOp();
      break;
    case 4:
      stIndirect();
      break;
    default:
      if (d > 0)
        stmts(d - 1, 1);
      break;
    }
  }
  // accesses of one cell around something that may change it
  void
  stStateRace(int d)
  {
    std::vector<std::pair<int, const Leaf *>> cand;
    for (size_t k = 0; k < cls.size(); k++)
      for (auto & l : cls[k].leaves)
        if (l.sp.ty->kind == Ty::Int)
        {
          cand.push_back({ int(k), &l });
          if (cls[k].arrElt)
            break;
        }
    auto [k, lp] = cand[r.draw(cand.size())];
    Leaf l = *lp;
    Value * base = nullptr;
    if (!touchers.empty() && r.draw(3))
    {
      auto g = touchers[r.draw(touchers.size())].g;
      for (auto & x : globs)
        if (x.g == g)
          for (auto & c : cand)
            if (c.first == x.cls)
            {
              k = x.cls;
              l = *c.second;
              base = g;
              if (r.draw(2))
                break;
            }
    }
    if (!base)
      base = genPtr(k, 1);
    auto cell = gepLeaf(B, base, k, l);
    auto al = alignOf(l.ty, k);
    auto a = var(l.sp, true), b = var(l.sp, true);
    auto access = [&](Var & x)
    {
      if (r.chance(3, 4))
        B.CreateStore(load(l.ty, cell, al), x.addr);
      else
        B.CreateAlignedStore(genSpec(l.sp, 1), cell, al);
    };
    access(a);
    unsigned n = 1 + r.draw(2);
    for (unsigned i = 0; i < n; i++)
      switch (r.pick({ 3, 4, 2, 2 }))
      {
      case 0:
        effect(base, k, l, 0);
        break;
      case 1: // a loop around nothing but the effect
      {
        if (loopDepth >= 2)
        {
          effect(base, k, l, 0);
          break;
        }
        loopDepth++;
        auto c = counter(32);
        auto body = block("rl"), exit = block("rx");
        auto lim = bound(32, 3);
        B.CreateStore(ConstantInt::get(I(32), 0), c.addr);
        B.CreateBr(body);
        B.SetInsertPoint(body);
        effect(base, k, l, d - 1);
        if (r.chance(1, 3))
          effect(base, k, l, 0);
        auto nx = B.CreateAdd(load(I(32), c.addr), ConstantInt::get(I(32), 1));
        B.CreateStore(nx, c.addr);
        B.CreateCondBr(B.CreateICmpULT(nx, lim), body, exit);
        B.SetInsertPoint(exit);
        loopDepth--;
        break;
      }
      case 2:
      {
        auto c = genBool(1);
        auto t = block("rt"), j = block("rj");
        auto e = r.draw(2) ? block("re") : j;
        B.CreateCondBr(c, t, e);
        B.SetInsertPoint(t);
        effect(base, k, l, d - 1);
        B.CreateBr(j);
        if (e != j)
        {
          B.SetInsertPoint(e);
          effect(base, k, l, 0);
          B.CreateBr(j);
        }
        B.SetInsertPoint(j);
        break;
      }
      default:
        access(b);
        break;
      }
    B.CreateStore(load(l.ty, cell, al), b.addr);
    if (r.chance(1, 3))
    {
      effect(base, k, l, 0);
      access(a);
    }
  }
  // an outer loop around parts (inner loops, branches, straight code) that each access one cell
  void
  stNest(int d)
  {
    std::vector<std::pair<int, const Leaf *>> cand;
    for (size_t k = 0; k < cls.size(); k++)
      for (auto & l : cls[k].leaves)
        if (l.sp.ty->kind == Ty::Int)
        {
          cand.push_back({ int(k), &l });
          break;
        }
    auto [k, lp] = cand[r.draw(cand.size())];
    Leaf l = *lp;
    Value * base = nullptr;
    if (!touchers.empty() && r.draw(3))
    {
      auto g = touchers[r.draw(touchers.size())].g;
      for (auto & x : globs)
        if (x.g == g)
          for (auto & c : cand)
            if (c.first == x.cls)
            {
              k = x.cls;
              l = *c.second;
              base = g;
            }
    }
    if (!base)
      base = r.draw(2) ? genPtr(k, 1) : localObj(k).addr;
    auto w = l.sp.ty->width;
    auto al = alignOf(l.ty, k);
    // other cells the parts may use, so that several states are threaded through the same loops
    auto ob = r.draw(2) ? genPtr(k, 1) : localObj(k).addr;
    auto acc = counter(w), i = counter(32);
    auto outerLim = bound(32, 3);
    auto cell = [&](bool other)
    {
      return gepLeaf(B, other ? ob : base, k, l);
    };
    auto part = [&](Value * iv, bool write)
    {
      bool other = r.draw(4) == 0;
      switch (write ? r.pick({ 6, 2, 2, 1 }) : 4)
      {
      case 0:
        B.CreateAlignedStore(
            r.draw(3) ? B.CreateAdd(toWidth(iv, w, false), constInt(w)) : genInt(w, 1),
            cell(other),
            al);
        break;
      case 1:
        B.CreateAlignedStore(
            B.CreateAdd(load(l.ty, cell(other), al), toWidth(iv, w, true)),
            cell(other),
            al);
        break;
      case 2: effect(base, k, l, 0); break;
      case 3:
      {
        auto t = block("nt"), j = block("nj");
        B.CreateCondBr(genBool(1), t, j);
        B.SetInsertPoint(t);
        B.CreateAlignedStore(genInt(w, 1), cell(other), al);
        B.CreateBr(j);
        B.SetInsertPoint(j);
        break;
      }
      default:
        B.CreateStore(
            B.CreateAdd(
                B.CreateMul(load(I(w), acc.addr), ConstantInt::get(I(w), 1 + 2 * r.draw(3))),
                load(l.ty, cell(other), al)),
            acc.addr);
      }
    };
    loopDepth++;
    B.CreateStore(ConstantInt::get(I(w), 0), acc.addr);
    B.CreateStore(ConstantInt::get(I(32), 0), i.addr);
    auto ob1 = block("no"), ox = block("nox");
    B.CreateBr(ob1);
    B.SetInsertPoint(ob1);
    unsigned n = 1 + r.draw(3);
    for (unsigned q = 0; q < n; q++)
    {
      bool write = r.draw(2);
      switch (r.pick({ 5, 2, 2 }))
      {
      case 0:
      {
        loopDepth++;
        auto c = counter(32);
        auto lim = bound(32, 3);
        auto b = block("nl"), x = block("nx");
        B.CreateStore(ConstantInt::get(I(32), 0), c.addr);
        B.CreateBr(b);
        B.SetInsertPoint(b);
        part(load(I(32), r.draw(2) ? c.addr : i.addr), write);
        if (r.draw(5) == 0)
          part(load(I(32), c.addr), r.draw(2));
        auto nx = B.CreateAdd(load(I(32), c.addr), ConstantInt::get(I(32), 1));
        B.CreateStore(nx, c.addr);
        B.CreateCondBr(B.CreateICmpULT(nx, lim), b, x);
        B.SetInsertPoint(x);
        loopDepth--;
        break;
      }
      case 1:
      {
        auto t = block("nt"), j = block("nj");
        auto e = r.draw(2) ? block("ne") : j;
        B.CreateCondBr(
            r.draw(2) ? B.CreateICmpEQ(load(I(32), i.addr), ConstantInt::get(I(32), r.draw(3)))
                      : genBool(1),
            t,
            e);
        B.SetInsertPoint(t);
        part(load(I(32), i.addr), write);
        B.CreateBr(j);
        if (e != j)
        {
          B.SetInsertPoint(e);
          part(load(I(32), i.addr), r.draw(2));
          B.CreateBr(j);
        }
        B.SetInsertPoint(j);
        break;
      }
      default: part(load(I(32), i.addr), write); break;
      }
    }
    if (d > 1 && r.draw(4) == 0)
      stmts(d - 2, 1);
    auto nx = B.CreateAdd(load(I(32), i.addr), ConstantInt::get(I(32), 1));
    B.CreateStore(nx, i.addr);
    B.CreateCondBr(B.CreateICmpULT(nx, outerLim), ob1, ox);
    B.SetInsertPoint(ox);
    loopDepth--;
    Spec sp;
    sp.ty = tyInt(w);
    B.CreateStore(load(I(w), acc.addr), var(sp, true).addr);
  }
  // accesses of different widths to overlapping bytes
  void
  stPun(int)
  {
    std::vector<int> cand;
    for (size_t k = 0; k < cls.size(); k++)
    {
      uint64_t sum = 0;
      bool ok = true;
      for (auto & l : cls[k].leaves)
      {
        ok = ok && l.sp.ty->kind == Ty::Int;
        sum += l.sp.ty->size;
      }
      if (ok && sum == meta.classes[k].ty->size && sum >= 4)
        cand.push_back(int(k));
    }
    int k = cand[r.draw(cand.size())];
    auto size = meta.classes[k].ty->size;
    auto base = r.draw(3) ? genPtr(k, 1) : localObj(k).addr;
    static const unsigned ws[] = { 8, 16, 32, 64 };
    unsigned n = 2 + r.draw(3);
    uint64_t last = 0;
    unsigned lastW = 32;
    for (unsigned i = 0; i < n; i++)
    {
      unsigned w = i && r.chance(1, 3) ? lastW : ws[r.draw(4)];
      while (w / 8 > size)
        w /= 2;
      uint64_t off = r.draw(size - w / 8 + 1);
      if (i && r.chance(1, 2) && last + w / 8 <= size)
        off = last;
      else if (r.draw(2))
        off -= off % (w / 8);
      last = off;
      lastW = w;
      Value * p = base;
      if (off)
        p = B.CreateConstInBoundsGEP1_64(I(8), base, off);
      if (off && r.draw(4) == 0 && off % (w / 8) == 0)
        p = B.CreateConstInBoundsGEP1_64(I(w), base, off / (w / 8));
      Spec s;
      s.ty = tyInt(w);
      if (i + 1 < n ? r.draw(2) : r.draw(4) == 0)
        B.CreateAlignedStore(genInt(w, 1), p, MaybeAlign(1));
      else
        B.CreateStore(load(I(w), p, MaybeAlign(1)), var(s, true).addr);
    }
  }
  // loops over induction variables of all sorts; the number of iterations is known to be small
  void
  stIvLoop(int d)
  {
    loopDepth++;
    unsigned w = intWidth();
    auto K = [&](unsigned wi, uint64_t v) -> Value *
    {
      return ConstantInt::get(I(wi), v & maskW(wi));
    };
    unsigned T = 1 + r.draw(loopDepth > 1 ? 3 : 7);
    static const int64_t steps[] = { 1, 2, -1, 3, 5, -3, 64, 1 };
    int64_t step = steps[r.draw(8)];
    int64_t init = 0;
    switch (r.pick({ 4, 2, 1, 1 }))
    {
    case 0: break;
    case 1: init = r.draw(9); break;
    case 2: init = int64_t(maskW(w) >> 1) - r.draw(6); break; // wraps signed
    case 3: init = -1 - int64_t(r.draw(6)); break;            // wraps unsigned
    }
    struct Iv
    {
      Value * addr;
      unsigned w;
    };
    std::vector<Iv> iv;
    auto i = counter(w);
    B.CreateStore(K(w, init), i.addr);
    iv.push_back({ i.addr, w });
    unsigned nx = r.draw(4);
    for (unsigned j = 0; j < nx; j++)
    {
      unsigned ww = r.chance(1, 2) ? w : intWidth();
      auto x = counter(ww);
      B.CreateStore(
          r.draw(2) ? K(ww, r.draw(7)) : r.draw(3) ? genInt(ww, 0) : K(ww, (maskW(ww) >> 1) - r.draw(4)),
          x.addr);
      iv.push_back({ x.addr, ww });
    }
    std::vector<Value *> inv; // invariant values
    for (unsigned j = 0; j < 2; j++)
      inv.push_back(genInt(r.draw(2) ? w : intWidth(), 1));
    auto ld = [&](unsigned j)
    {
      return load(I(iv[j].w), iv[j].addr);
    };
    auto any = [&](unsigned ww) -> Value *
    {
      switch (r.pick({ 4, 2, 2 }))
      {
      case 0:
      {
        auto j = r.draw(iv.size());
        for (unsigned q = 0; q < 3 && iv[j].w != ww; q++)
          j = r.draw(iv.size());
        return toWidth(ld(j), ww, r.draw(2));
      }
      case 1: return K(ww, r.draw(2) ? r.draw(9) : uint64_t(0) - r.draw(5));
      default: return toWidth(inv[r.draw(2)], ww, r.draw(2));
      }
    };
    auto update = [&](unsigned j)
    {
      auto ww = iv[j].w;
      auto x = ld(j);
      Value * v = x;
      switch (r.pick({ 5, 3, 2, 2, 2, 2, 1, 1, 1 }))
      {
      case 0: v = B.CreateAdd(x, K(ww, r.draw(2) ? 1 + r.draw(5) : uint64_t(0) - 1 - r.draw(3))); break;
      case 1: v = B.CreateAdd(x, toWidth(inv[r.draw(2)], ww, r.draw(2))); break;
      case 2: v = B.CreateSub(x, any(ww)); break;
      case 3: v = B.CreateAdd(x, any(ww)); break;
      case 4: v = B.CreateMul(x, K(ww, 2 + r.draw(3))); break;
      case 5: v = B.CreateMul(B.CreateAdd(x, K(ww, 1)), K(ww, 2)); break;
      case 6: v = any(ww); break;
      case 7: v = B.CreateAdd(any(ww), K(ww, 1)); break;
      case 8: // swap
      {
        auto o = r.draw(iv.size());
        if (o == 0 || iv[o].w != ww)
          break;
        v = ld(o);
        B.CreateStore(x, iv[o].addr);
        break;
      }
      }
      B.CreateStore(v, iv[j].addr);
    };
    std::function<Value *(unsigned, unsigned)> linear = [&](unsigned ww, unsigned depth) -> Value *
    {
      if (depth == 0 || r.draw(5) == 0)
        return any(ww);
      auto c = [&]
      {
        return r.draw(3) ? K(ww, 2 + r.draw(6)) : K(ww, uint64_t(0) - 1 - r.draw(6));
      };
      switch (r.pick({ 5, 3, 2, 2, 5, 1 }))
      {
      case 0:
      {
        auto v = linear(ww, depth - 1);
        return r.draw(2) ? B.CreateMul(v, c()) : B.CreateMul(c(), v);
      }
      case 1:
      {
        auto v = linear(ww, depth - 1);
        return B.CreateAdd(v, linear(ww, depth - 1));
      }
      case 2:
      {
        auto v = linear(ww, depth - 1);
        auto u = toWidth(inv[r.draw(2)], ww, true);
        return r.draw(2) ? B.CreateMul(v, u) : B.CreateMul(u, v);
      }
      case 3: return B.CreateShl(linear(ww, depth - 1), K(ww, 1 + r.draw(3)));
      case 4:
      {
        auto v = linear(ww, depth - 1);
        auto u = r.draw(3) ? linear(ww, depth - 1) : c();
        return r.draw(2) ? B.CreateSub(v, u) : B.CreateSub(u, v);
      }
      default:
      {
        auto v = linear(ww, depth - 1);
        return B.CreateMul(v, linear(ww, depth - 1));
      }
      }
    };
    auto use = [&]()
    {
      auto ww = r.draw(4) ? iv[r.draw(iv.size())].w : intWidth();
      Value * v = linear(ww, 1 + r.draw(3));
      if (r.draw(2))
      {
        int c = 2;
        auto ix = B.CreateAnd(toWidth(v, 64, r.draw(2)), ConstantInt::get(I(64), cls[c].arrN - 1));
        auto e = B.CreateInBoundsGEP(cls[c].ty, genPtr(c, 1), { ConstantInt::get(I(64), 0), ix });
        auto ew = cls[c].arrElt->getIntegerBitWidth();
        Spec s;
        s.ty = tyInt(ew);
        if (r.draw(2))
          B.CreateAlignedStore(any(ew), e, MaybeAlign(s.ty->align));
        else
        {
          auto acc = var(s, true);
          B.CreateStore(B.CreateAdd(load(I(ew), acc.addr), load(I(ew), e)), acc.addr);
        }
      }
      else
      {
        Spec s;
        s.ty = tyInt(ww);
        auto acc = var(s, true);
        B.CreateStore(B.CreateXor(B.CreateMul(load(I(ww), acc.addr), K(ww, 3)), v), acc.addr);
      }
    };
    bool rotated = r.draw(3) != 0;
    auto body = block("ivb"), exit = block("ivx");
    auto head = rotated ? body : block("ivh");
    uint64_t last = uint64_t(init) + uint64_t(step) * T;
    int64_t sl = init + step * int64_t(T);
    int64_t smax = int64_t(maskW(w) >> 1);
    bool nowrap = init >= 0 && sl >= 0 && sl <= smax;
    auto cond = [&]() -> Value *
    {
      auto v = load(I(w), i.addr);
      if (nowrap && r.draw(3))
      {
        if (step > 0)
          switch (r.draw(4))
          {
          case 0: return B.CreateICmpULT(v, K(w, last));
          case 1: return B.CreateICmpSLT(v, K(w, last));
          case 2: return B.CreateICmpSLE(v, K(w, last - 1));
          default: return B.CreateICmpULE(v, K(w, last - 1));
          }
        switch (r.draw(3))
        {
        case 0: return B.CreateICmpSGT(v, K(w, last));
        case 1: return B.CreateICmpUGT(v, K(w, last));
        default: return B.CreateICmpSGE(v, K(w, last + 1));
        }
      }
      return r.draw(4) ? B.CreateICmpNE(v, K(w, last)) : B.CreateNot(B.CreateICmpEQ(v, K(w, last)));
    };
    B.CreateBr(head);
    if (!rotated)
    {
      B.SetInsertPoint(head);
      B.CreateCondBr(cond(), body, exit);
    }
    B.SetInsertPoint(body);
    unsigned at = r.draw(3);
    auto bump = [&]()
    {
      auto v = load(I(w), i.addr);
      bool ns = init >= 0 && step > 0 && nowrap;
      B.CreateStore(
          step < 0 && r.draw(2) ? B.CreateSub(v, K(w, uint64_t(-step)))
                                : B.CreateAdd(v, K(w, uint64_t(step)), "", ns && r.draw(2), ns && r.draw(2)),
          i.addr);
    };
    if (at == 0)
      bump();
    for (unsigned j = 1; j < iv.size(); j++)
      if (r.chance(1, 3))
        update(j);
    for (unsigned q = 1 + r.draw(is(Profile::Loops) ? 4 : 2); q; q--)
      use();
    if (at == 1)
      bump();
    for (unsigned j = 1; j < iv.size(); j++)
      if (r.chance(3, 4))
        update(j);
    if (d > 0 && r.chance(1, 3))
    {
      if (loopDepth < 2 && r.draw(2))
        stIvLoop(d - 1);
      else
        stmts(d - 1, 1);
    }
    if (at == 2)
      bump();
    if (rotated)
      B.CreateCondBr(cond(), body, exit);
    else
      B.CreateBr(head);
    B.SetInsertPoint(exit);
    // the final values matter
    for (auto & x : iv)
      if (r.chance(1, 2))
      {
        Spec s;
        s.ty = tyInt(x.w);
        B.CreateStore(load(I(x.w), x.addr), var(s, true).addr);
      }
    loopDepth--;
  }
  // values that move through the registers of a loop: shifted, rotated, copied, some of them always equal
  void
  stRegs(int d)
  {
    loopDepth++;
    unsigned w = intWidth();
    unsigned k = 2 + r.draw(5);
    unsigned chains = 1 + r.draw(2);
    auto start = genInt(w, 1);
    struct Chain
    {
      std::vector<Value *> x;
    };
    std::vector<Chain> cs(chains);
    std::vector<Value *> all;
    for (auto & c : cs)
      for (unsigned j = 0; j < k; j++)
        c.x.push_back(counter(w).addr), all.push_back(c.x.back());
    uint64_t odd = r.draw(3) ? 0 : 1u << r.draw(k); // registers that start differently
    for (auto & c : cs)
      for (unsigned j = 0; j < k; j++)
        B.CreateStore((odd >> j) & 1 ? constInt(w) : start, c.x[j]);
    auto i = counter(32);
    unsigned T = 1 + r.draw(loopDepth > 1 ? 4 : 9);
    B.CreateStore(ConstantInt::get(I(32), 0), i.addr);
    // what every register takes its next value from: a register, or something else (>= k)
    std::vector<unsigned> from(k);
    switch (r.pick({ 5, 2, 2, 2 }))
    {
    case 0: // shift
      for (unsigned j = 0; j < k; j++)
        from[j] = j + 1;
      break;
    case 1: // rotate
      for (unsigned j = 0; j < k; j++)
        from[j] = (j + 1) % k;
      break;
    case 2: // anything
      for (unsigned j = 0; j < k; j++)
        from[j] = r.draw(k + 1);
      break;
    case 3: // some stay
      for (unsigned j = 0; j < k; j++)
        from[j] = r.draw(2) ? j : r.draw(k + 1);
      break;
    }
    auto inv = genInt(w, 1);
    unsigned srcKind = r.draw(5);
    uint64_t srcConst = r.draw(5);
    auto source = [&](Chain & c) -> Value *
    {
      switch (srcKind)
      {
      case 0: return inv;
      case 1: return toWidth(load(I(32), i.addr), w, false);
      case 2: return B.CreateAdd(load(I(w), c.x[k - 1]), ConstantInt::get(I(w), 1));
      case 3: return B.CreateXor(load(I(w), c.x[0]), inv);
      default: return ConstantInt::get(I(w), srcConst & maskW(w));
      }
    };
    auto use = [&]
    {
      Spec s;
      s.ty = tyInt(w);
      auto acc = var(s, true);
      Value * v = load(I(w), all[r.draw(all.size())]);
      if (r.draw(2))
      {
        auto u = load(I(w), all[r.draw(all.size())]);
        switch (r.draw(3))
        {
        case 0: v = B.CreateSub(v, u); break;
        case 1: v = B.CreateXor(v, u); break;
        case 2: v = B.CreateSelect(B.CreateICmpEQ(v, u), ConstantInt::get(I(w), 1), v); break;
        }
      }
      B.CreateStore(B.CreateXor(B.CreateMul(load(I(w), acc.addr), ConstantInt::get(I(w), 3)), v), acc.addr);
    };
    auto body = block("rgb"), exit = block("rgx");
    B.CreateBr(body);
    B.SetInsertPoint(body);
    unsigned early = r.draw(4);
    while (early--)
      use();
    BasicBlock * join = nullptr;
    if (r.chance(1, 4)) // only sometimes
    {
      auto t = block("rgt");
      join = block("rgj");
      B.CreateCondBr(genBool(2), t, join);
      B.SetInsertPoint(t);
    }
    bool parallel = r.draw(2), backwards = r.draw(4) == 1;
    unsigned differ = chains == 2 && r.draw(2) ? r.draw(k) : k;
    for (unsigned q = 0; q < chains; q++)
    {
      auto & c = cs[q];
      std::vector<Value *> next(k);
      auto src = source(c);
      auto value = [&](unsigned j) -> Value *
      {
        if (q == 1 && j == differ)
          return B.CreateAdd(src, ConstantInt::get(I(w), 1));
        return from[j] >= k ? src : load(I(w), c.x[from[j]]);
      };
      for (unsigned n = 0; n < k; n++)
      {
        unsigned j = backwards ? k - 1 - n : n;
        next[j] = value(j);
        if (!parallel)
          B.CreateStore(next[j], c.x[j]);
      }
      if (parallel)
        for (unsigned j = 0; j < k; j++)
          B.CreateStore(next[j], c.x[j]);
    }
    if (join)
    {
      B.CreateBr(join);
      B.SetInsertPoint(join);
    }
    if (r.draw(3) == 0)
      stmts(d - 1, 1);
    if (r.draw(2))
      use();
    auto nx = B.CreateAdd(load(I(32), i.addr), ConstantInt::get(I(32), 1));
    B.CreateStore(nx, i.addr);
    B.CreateCondBr(B.CreateICmpULT(nx, ConstantInt::get(I(32), T)), body, exit);
    B.SetInsertPoint(exit);
    for (unsigned n = r.draw(4); n; n--)
      use();
    loopDepth--;
  }
  // make the values of the function visible
  void
  sinkVars()
  {
    if (sinks.empty())
      return;
    for (auto & v : std::vector<Var>(vars))
      if (v.ty->isIntegerTy() && v.ty->getIntegerBitWidth() > 1 && r.chance(2, 3))
      {
        auto x = B.CreateZExt(load(v.ty, v.addr), I(64));
        auto s = sinks[r.draw(sinks.size())];
        B.CreateStore(B.CreateAdd(B.CreateMul(load(I(64), s), ConstantInt::get(I(64), 3)), x), s);
      }
  }
  std::vector<GlobalVariable *> sinks;
  void
  stReturnIf()
  {
    auto c = genBool(2);
    auto t = block("ret"), j = block("noret");
    B.CreateCondBr(c, t, j);
    B.SetInsertPoint(t);
    emitReturn();
    B.SetInsertPoint(j);
  }
  void
  emitReturn()
  {
    auto & sig = meta.sigs[fi < funs.size() ? funs[fi].sig : vaSig];
    if (sig.ret.ty->kind == Ty::Void)
      B.CreateRetVoid();
    else if (sig.ret.ty->kind == Ty::Ptr)
      B.CreateRet(genStorable(sig.ret));
    else
      B.CreateRet(genSpec(sig.ret, depthE()));
  }
  // Programs that concentrate on few kinds of statements bring out their combinations
  static constexpr unsigned nKinds = 23;
  uint32_t kindFactor[nKinds];
  void
  drawFocus()
  {
    for (auto & f : kindFactor)
      f = 1;
    if (!r.chance(1, 2))
      return;
    for (auto & f : kindFactor)
      if (r.chance(1, 4))
        f = 0;
    kindFactor[0] = 1;
    for (unsigned n = 1 + r.draw(2); n; n--)
      kindFactor[1 + r.draw(nKinds - 1)] = 8;
  }
  void
  stmts(int d, unsigned n)
  {
    for (unsigned i = 0; i < n; i++)
      stmt(d);
  }
  void
  stmt(int d)
  {
    if (budget-- <= 0)
      return;
    if (stFrame(d))
      return;
    bool nest = d > 0;
    auto P = [&](Profile p, uint32_t in, uint32_t out) -> uint32_t
    {
      return prof == p ? in : out;
    };
    uint32_t N = nest ? 1 : 0;
    uint32_t w[nKinds] = { 6,                                                // 0 assign
                     P(Profile::Memory, 8, 4),                         // 1 store field
                     P(Profile::Memory, 4, 2),                         // 2 element
                     N * P(Profile::Control, 6, 3),                    // 3 if
                     P(Profile::Control, 5, 2),                        // 4 guarded
                     N * P(Profile::Control, 3, 1),                    // 5 switch
                     N * P(Profile::Loops, 8, 3),                      // 6 loop
                     N * P(Profile::Control, 2, 1) * (r.chance(1, 2)), // 7 irreducible
                     P(Profile::Calls, 7, 3),                          // 8 call
                     P(Profile::Calls, 4, 1),                          // 9 indirect
                     P(Profile::Calls, 3, 1),                          // 10 recursion
                     P(Profile::Memory, 3, 1),                         // 11 malloc
                     P(Profile::Memory, 3, 1),                         // 12 memory intrinsics
                     1,                                                // 13 volatile
                     N * P(Profile::Control, 4, 1),                    // 14 correlated
                     N * P(Profile::Control, 3, 1),                    // 15 flag loop
                     N * 1u,                                           // 16 return
                     P(Profile::Memory, 6, 1),                         // 17 accesses around effects
                     P(Profile::Memory, 2, 1),                         // 18 overlapping accesses
                     N * P(Profile::Loops, 6, 1),                      // 19 induction variables
                     N * P(Profile::Memory, 5, 1),                     // 20 nested accesses
                     P(Profile::Memory, 3, 1) * (pfns.empty() ? 1 : 2), // 21 pointers
                     N * P(Profile::Scalars, 3, 1) };                  // 22 registers of a loop
    for (unsigned k = 0; k < nKinds; k++)
      w[k] *= kindFactor[k];
    switch (r.pick(w, w + nKinds))
    {
    case 0: stAssign(); break;
    case 1: stStoreField(); break;
    case 2: stElement(); break;
    case 3: stIf(d); break;
    case 4: stGuarded(d); break;
    case 5: stSwitch(d); break;
    case 6: loopDepth < 2 ? stLoop(d) : stAssign(); break;
    case 7: loopDepth < 1 ? stIrreducible(d) : stAssign(); break;
    case 8: stCall(); break;
    case 9: stIndirect(); break;
    case 10: stRecurse(); break;
    case 11: stMalloc(d); break;
    case 12: stMemOp(); break;
    case 13: stVolatile(); break;
    case 14: stCorrelated(d); break;
    case 15: loopDepth < 2 ? stFlagLoop(d) : stAssign(); break;
    case 16: stReturnIf(); break;
    case 17: stStateRace(d); break;
    case 18: stPun(d); break;
    case 19: loopDepth < 2 ? stIvLoop(d) : stAssign(); break;
    case 20: loopDepth < 1 ? stNest(d) : stAssign(); break;
    case 21: stPointers(d); break;
    case 22: loopDepth < 2 ? stRegs(d) : stAssign(); break;
    }
  }
  GlobalVariable * fuelG = nullptr;

  void
  body(size_t k)
  {
    fi = k;
    F = k < funs.size() ? funs[k].f : vaDef;
    vaHere = k >= funs.size();
    vars.clear();
    objs.clear();
    ptrs.clear();
    loops.clear();
    loopDepth = 0;
    fuel = nullptr;
    auto entry = block("entry");
    B.SetInsertPoint(entry);
    auto start = block("start");
    entryEnd = BranchInst::Create(start, entry);
    auto & sig = meta.sigs[vaHere ? vaSig : funs[k].sig];
    for (size_t i = 0; i < sig.args.size(); i++)
    {
      auto & s = sig.args[i];
      auto a = F->getArg(unsigned(i));
      if (s.ty->kind == Ty::Ptr && !s.nullable)
        ptrs.push_back({ a, s.cls });
      auto v = entryAlloca(a->getType(), "a");
      IRBuilder<> E(entryEnd);
      E.CreateStore(a, v);
      Spec t = s;
      if (t.ty->kind == Ty::Ptr)
        t.nullable = true;
      vars.push_back({ v, a->getType(), t });
    }
    if (fuelG)
      fuel = fuelG;
    B.SetInsertPoint(start);
    budget = 4 + int(r.draw(is(Profile::Scalars) ? 10 : 14));
    callBudget = 4;
    stmts(3, 2 + r.draw(6));
    sinkVars();
    emitReturn();
  }

  void
  run()
  {
    drawFocus();
    makeClasses();
    makeSigs();
    makeFunctions();
    makeGlobals();
    makeFrames();
    if (r.chance(is(Profile::Calls) ? 3 : 1, 4))
    {
      // bounds dynamic recursion over the whole session
      fuelG = new GlobalVariable(
          M,
          I(32),
          false,
          GlobalValue::InternalLinkage,
          ConstantInt::get(I(32), 4 + r.draw(8)),
          "fuel");
      fuelG->setAlignment(Align(4));
      meta.globals.push_back({ "fuel", 0, false, false, false });
    }
    if (r.draw(2))
      for (unsigned i = 0; i < 2; i++)
      {
        auto name = "sink" + std::to_string(i);
        auto g = new GlobalVariable(
            M, I(64), false, GlobalValue::ExternalLinkage, ConstantInt::get(I(64), 0), name);
        g->setAlignment(Align(8));
        sinks.push_back(g);
        meta.globals.push_back({ name, 1, false, false, true });
      }
    makeTouchers();
    makePointerFns();
    for (size_t k = 0; k < funs.size(); k++)
      if (funs[k].defined)
        body(k);
    if (vaDef)
      body(funs.size());
    if (jmpHelper)
      bodyJmpHelper();
    if (allocaHelper)
      bodyAllocaHelper();
  }
};

}

Program
generate(Choices & ch, Profile prof)
{
  Program p;
  p.ctx = std::make_shared<LLVMContext>();
  p.mod = std::make_shared<Module>("sim", *p.ctx);
  p.mod->setDataLayout(
      "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
  p.mod->setTargetTriple("x86_64-unknown-linux-gnu");
  p.mod->setSourceFileName("sim.c");
  Gen g(ch, *p.ctx, *p.mod, p.meta, prof);
  g.run();
  std::string err;
  raw_string_ostream os(err);
  if (verifyModule(*p.mod, &os))
  {
    fprintf(stderr, "generator produced an invalid module: %s\n%s\n", os.str().c_str(), printModule(*p.mod).c_str());
    abort();
  }
  diversify(p, ch["passes"], prof);
  return p;
}

void
diversify(Program & p, Stream & s, Profile prof)
{
  static const char * fp[] = { "mem2reg",      "sroa",    "instcombine<no-verify-fixpoint>", "simplifycfg", "gvn",
                               "early-cse",    "reassociate", "loop-simplify", "dce", "sink",
                               "adce",         "jump-threading", "loop(loop-rotate)",
                               "loop-mssa(licm)", "lowerswitch", "lcssa", "mergereturn" };
  std::vector<std::string> run;
  switch (s.pick({ 2, 6, 3 }))
  {
  case 0:
    break;
  case 1:
    run.push_back("mem2reg");
    break;
  case 2:
    run.push_back("sroa");
    run.push_back("simplifycfg");
    break;
  }
  if (prof == Profile::Loops && s.chance(2, 3))
  {
    run.push_back("loop-simplify");
    run.push_back("loop(loop-rotate)");
  }
  unsigned n = s.pick({ 3, 3, 2, 1, 1 });
  for (unsigned i = 0; i < n; i++)
    run.push_back(fp[s.draw(17)]);
  if (run.empty())
    return;
  std::string pipe = "function(";
  for (size_t i = 0; i < run.size(); i++)
    pipe += (i ? "," : "") + run[i];
  pipe += ")";
  p.passes = pipe;
  runLlvmPasses(*p.mod, pipe);
}

void
runLlvmPasses(Module & m, const std::string & pipe)
{
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CAM;
  ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (auto e = PB.parsePassPipeline(MPM, pipe))
  {
    fprintf(stderr, "pass pipeline %s: %s\n", pipe.c_str(), toString(std::move(e)).c_str());
    abort();
  }
  MPM.run(m, MAM);
}

std::string
printModule(const Module & m)
{
  std::string s;
  raw_string_ostream os(s);
  m.print(os, nullptr);
  return os.str();
}

std::unique_ptr<Module>
cloneInto(const Module & m, LLVMContext & ctx)
{
  SmallVector<char, 0> buf;
  BitcodeWriter w(buf);
  w.writeModule(m);
  w.writeSymtab();
  w.writeStrtab();
  auto mod = parseBitcodeFile(MemoryBufferRef(StringRef(buf.data(), buf.size()), "m"), ctx);
  if (!mod)
  {
    fprintf(stderr, "bitcode round trip failed\n");
    abort();
  }
  return std::move(*mod);
}

}
