// Points-to constraint solving as a scheduled computation: whatever the numbering of the objects, the
// order of the constraints, the offline preprocessing, the work list order and the online techniques,
// the solver has to arrive at the least solution, as computed by a small reference model.
#include "engine.hpp"
#include "gen.hpp"
#include "passes.hpp"
#include "progsim.hpp"

#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/ir/operators/StdLibIntrinsicOperations.hpp>
#include <jlm/llvm/ir/operators/alloca.hpp>
#include <jlm/llvm/ir/operators/call.hpp>
#include <jlm/llvm/ir/operators/delta.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/llvm/ir/operators/operators.hpp>
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/PointerObjectSet.hpp>
#include <jlm/util/Statistics.hpp>

#include <functional>
#include <map>
#include <set>
#include <sstream>

namespace sim
{

namespace jl = jlm::llvm;
namespace aa = jlm::llvm::aa;
namespace rv = jlm::rvsdg;
using Conf = aa::Andersen::Configuration;

namespace
{
// One abstract problem. Objects are numbered 0..n-1; every number below refers to them.
struct Problem
{
  struct Obj
  {
    aa::PointerObjectKind kind;
    bool canPoint = true;
    int entity = 0;    // which function / alloca / call operand ...
    bool output = true; // a register: the value of an output (otherwise an intermediate without one)
  };
  std::vector<Obj> objs;
  struct Fn
  {
    std::vector<int> args; // object of each argument or -1
    int result = -1;
    unsigned nArgs = 0;
    bool hasResult = false;
  };
  std::vector<Fn> fns;
  struct Call
  {
    std::vector<int> args;
    int result = -1;
    bool hasResult = false;
  };
  std::vector<Call> calls;
  enum Kind
  {
    PointsTo,
    External,
    ContentEscapes,
    Escaped,
    StoredScalar,
    LoadedScalar,
    Superset,
    Store,
    Load,
    CallC
  };
  struct Con
  {
    Kind k;
    int a = 0, b = 0;
  };
  std::vector<Con> cons;

  bool
  reg(int o) const
  {
    return objs[o].kind == aa::PointerObjectKind::Register;
  }
};

struct Solution
{
  std::vector<std::set<int>> pts;
  std::vector<bool> escaped, external, contentEscapes;
};

// The least solution, by iterating the meaning of the constraints until nothing changes
Solution
reference(const Problem & p)
{
  int n = int(p.objs.size());
  Solution s;
  s.pts.resize(n);
  s.escaped.assign(n, false);
  s.external.assign(n, false);
  s.contentEscapes.assign(n, false);
  std::vector<bool> storedScalar(n), loadedScalar(n);
  for (int i = 0; i < n; i++)
  {
    if (!p.objs[i].canPoint)
      s.external[i] = s.contentEscapes[i] = true;
    if (p.objs[i].kind == aa::PointerObjectKind::ImportMemoryObject)
      s.escaped[i] = true;
  }
  bool changed = true;
  auto set = [&](std::vector<bool> & v, int i)
  {
    if (!v[i])
    {
      v[i] = true;
      changed = true;
    }
  };
  auto add = [&](int ptr, int to)
  {
    if (s.pts[ptr].insert(to).second)
      changed = true;
  };
  auto superset = [&](int a, int b)
  {
    for (int x : std::set<int>(s.pts[b]))
      add(a, x);
    if (s.external[b])
      set(s.external, a);
  };
  while (changed)
  {
    changed = false;
    for (auto & c : p.cons)
      switch (c.k)
      {
      case Problem::PointsTo: add(c.a, c.b); break;
      case Problem::External: set(s.external, c.a); break;
      case Problem::ContentEscapes: set(s.contentEscapes, c.a); break;
      case Problem::Escaped: set(s.escaped, c.a); break;
      case Problem::StoredScalar: set(storedScalar, c.a); break;
      case Problem::LoadedScalar: set(loadedScalar, c.a); break;
      case Problem::Superset: superset(c.a, c.b); break;
      case Problem::Store:
        for (int x : std::set<int>(s.pts[c.a]))
          superset(x, c.b);
        if (s.external[c.a])
          set(s.contentEscapes, c.b);
        break;
      case Problem::Load:
        for (int x : std::set<int>(s.pts[c.b]))
          superset(c.a, x);
        if (s.external[c.b])
          set(s.external, c.a);
        break;
      case Problem::CallC:
      {
        auto & call = p.calls[c.b];
        auto unknown = [&]
        {
          for (int x : call.args)
            if (x >= 0)
              set(s.contentEscapes, x);
          if (call.result >= 0)
            set(s.external, call.result);
        };
        if (s.external[c.a])
          unknown();
        for (int t : std::set<int>(s.pts[c.a]))
        {
          if (p.objs[t].kind == aa::PointerObjectKind::ImportMemoryObject)
            unknown();
          if (p.objs[t].kind != aa::PointerObjectKind::FunctionMemoryObject)
            continue;
          auto & f = p.fns[p.objs[t].entity];
          for (size_t i = 0; i < f.args.size() && i < call.args.size(); i++)
            if (f.args[i] >= 0 && call.args[i] >= 0)
              superset(f.args[i], call.args[i]);
          if (f.result >= 0 && call.result >= 0)
            superset(call.result, f.result);
        }
        break;
      }
      }
    for (int i = 0; i < n; i++)
    {
      for (int x : std::set<int>(s.pts[i]))
      {
        if (storedScalar[i])
          set(s.external, x);
        if (loadedScalar[i])
          set(s.contentEscapes, x);
        if (s.contentEscapes[i])
          set(s.escaped, x);
      }
      if (s.escaped[i])
      {
        set(s.external, i);
        set(s.contentEscapes, i);
        if (p.objs[i].kind == aa::PointerObjectKind::FunctionMemoryObject)
        {
          auto & f = p.fns[p.objs[i].entity];
          for (int a : f.args)
            if (a >= 0)
              set(s.external, a);
          if (f.result >= 0)
            set(s.contentEscapes, f.result);
        }
      }
    }
  }
  return s;
}

bool
pointsTo(const Solution & s, int a, int b)
{
  return s.pts[a].count(b) || (s.external[a] && s.escaped[b]);
}

Problem
drawProblem(Stream & r)
{
  using K = aa::PointerObjectKind;
  Problem p;
  unsigned nf = r.draw(4), na = 1 + r.draw(5), nm = r.draw(3), ng = r.draw(3), ni = r.draw(3), nc = r.draw(5);
  unsigned nr = 2 + r.draw(14);
  auto obj = [&](K k, bool cp, int e)
  {
    p.objs.push_back({ k, cp, e });
    return int(p.objs.size()) - 1;
  };
  // What registers can be defined by:
  //   plain:  any mixture of copies and loads (gamma, theta, phi, select, and one-operand instructions)
  //   source: an address or something from outside
  //   others: function arguments and call results, which only calls define
  std::vector<int> plain, sources, regs, mems;
  for (unsigned i = 0; i < nr; i++)
  {
    auto o = obj(K::Register, true, -1);
    regs.push_back(o);
    plain.push_back(o);
    p.objs[o].output = r.draw(6) != 1;
  }
  for (unsigned i = 0, ns = 1 + r.draw(8); i < ns; i++)
  {
    auto o = obj(K::Register, true, -1);
    regs.push_back(o);
    sources.push_back(o);
  }
  for (unsigned i = 0; i < na; i++)
    mems.push_back(obj(K::AllocaMemoryObject, r.draw(5) != 1, i));
  for (unsigned i = 0; i < nm; i++)
    mems.push_back(obj(K::MallocMemoryObject, r.draw(5) != 1, i));
  std::vector<int> globals;
  for (unsigned i = 0; i < ng; i++)
  {
    mems.push_back(obj(K::GlobalMemoryObject, r.draw(5) != 1, i));
    globals.push_back(mems.back());
  }
  for (unsigned i = 0; i < ni; i++)
    mems.push_back(obj(K::ImportMemoryObject, r.draw(3) != 1, i));
  auto own = [&]() -> int
  {
    auto o = obj(K::Register, true, -1);
    regs.push_back(o);
    return o;
  };
  for (unsigned i = 0; i < nf; i++)
  {
    mems.push_back(obj(K::FunctionMemoryObject, false, i));
    Problem::Fn f;
    f.nArgs = r.draw(4);
    f.hasResult = r.draw(2);
    for (unsigned j = 0; j < f.nArgs; j++)
      f.args.push_back(r.draw(8) == 1 ? -1 : own());
    p.fns.push_back(f);
  }
  for (unsigned i = 0; i < nc; i++)
  {
    Problem::Call c;
    unsigned n = r.draw(4);
    c.hasResult = r.draw(3);
    c.args.resize(n, -1);
    if (c.hasResult && r.draw(8) != 1)
      c.result = own();
    p.calls.push_back(c);
  }
  auto R = [&]
  {
    return regs[r.draw(regs.size())];
  };
  auto P = [&]
  {
    return plain[r.draw(plain.size())];
  };
  auto M = [&]
  {
    return mems[r.draw(mems.size())];
  };
  for (auto & f : p.fns)
    if (f.hasResult && r.draw(8) != 1)
      f.result = R();
  for (auto & call : p.calls)
    for (auto & a : call.args)
      if (r.draw(8) != 1)
        a = R();
  for (int s : sources)
    switch (r.draw(8))
    {
    case 1: p.cons.push_back({ Problem::External, s }); break;
    case 2:
      p.cons.push_back({ Problem::PointsTo, s, M() });
      p.cons.push_back({ Problem::External, s });
      break;
    default: p.cons.push_back({ Problem::PointsTo, s, M() }); break;
    }
  unsigned n = 2 + r.draw(4 * unsigned(regs.size()));
  // some problems are dominated by few kinds of constraints
  unsigned w[7] = { 2, 1, 1, 12, 6, 6, nc ? 3u : 0u };
  if (r.chance(1, 3))
    w[3] = 30;
  if (r.chance(1, 3))
    w[4] = w[5] = 20;
  if (r.chance(1, 3))
    w[0] = w[1] = w[2] = 0;
  for (unsigned i = 0; i < n; i++)
    switch (r.pick(w, w + 7))
    {
    case 0: p.cons.push_back({ Problem::ContentEscapes, R() }); break;
    case 1: p.cons.push_back({ Problem::StoredScalar, R() }); break;
    case 2: p.cons.push_back({ Problem::LoadedScalar, R() }); break;
    case 3:
    {
      auto a = !globals.empty() && r.draw(12) == 1 ? globals[r.draw(globals.size())] : P();
      auto b = R();
      p.cons.push_back({ Problem::Superset, a, b });
      break;
    }
    case 4:
    {
      auto a = R(), b = R();
      p.cons.push_back({ Problem::Store, a, b });
      break;
    }
    case 5:
    {
      auto a = P(), b = R();
      p.cons.push_back({ Problem::Load, a, b });
      break;
    }
    case 6:
    {
      auto a = R();
      p.cons.push_back({ Problem::CallC, a, int(r.draw(nc)) });
      break;
    }
    }
  return p;
}

// Every pointer that is dereferenced has something to point to
bool
derefsAreReal(const Problem & p, const Solution & s)
{
  for (auto & c : p.cons)
  {
    int ptr = c.k == Problem::Store ? c.a : c.k == Problem::Load ? c.b : -1;
    if (ptr >= 0 && s.pts[ptr].empty() && !s.external[ptr])
      return false;
  }
  return true;
}

// What the problem refers to in a graph
struct World
{
  std::unique_ptr<jl::LlvmRvsdgModule> m = jl::LlvmRvsdgModule::Create(jlm::util::FilePath(""), "", "");
  std::vector<rv::SimpleNode *> allocas, mallocs, calls;
  std::vector<rv::DeltaNode *> deltas;
  std::vector<rv::LambdaNode *> fns;
  std::vector<jl::LlvmGraphImport *> imports;
  std::vector<const rv::Output *> values;

  explicit World(const Problem & p)
  {
    auto & root = m->Rvsdg().GetRootRegion();
    auto ptr = jl::PointerType::Create();
    auto io = jl::IOStateType::Create();
    auto mem = jl::MemoryStateType::Create();
    auto fnType = [&](unsigned n, bool res)
    {
      std::vector<std::shared_ptr<const rv::Type>> a(n, ptr), b(res ? 1 : 0, ptr);
      a.push_back(io);
      a.push_back(mem);
      b.push_back(io);
      b.push_back(mem);
      return rv::FunctionType::Create(a, b);
    };
    unsigned na = 0, nm = 0, ng = 0, ni = 0;
    for (auto & o : p.objs)
      switch (o.kind)
      {
      case aa::PointerObjectKind::AllocaMemoryObject: na++; break;
      case aa::PointerObjectKind::MallocMemoryObject: nm++; break;
      case aa::PointerObjectKind::GlobalMemoryObject: ng++; break;
      case aa::PointerObjectKind::ImportMemoryObject: ni++; break;
      default: break;
      }
    for (unsigned i = 0; i < ni; i++)
      imports.push_back(&jl::LlvmGraphImport::createGlobalImport(
          m->Rvsdg(),
          rv::BitType::Create(32),
          ptr,
          "i" + std::to_string(i),
          jl::Linkage::externalLinkage,
          false,
          4));
    for (unsigned i = 0; i < ng; i++)
    {
      auto d = rv::DeltaNode::Create(
          &root,
          jl::LlvmDeltaOperation::Create(ptr, "g" + std::to_string(i), jl::Linkage::externalLinkage, "", false, 4));
      d->finalize(jl::ConstantPointerNullOperation::createNode(*d->subregion()).output(0));
      deltas.push_back(d);
    }
    for (size_t i = 0; i < p.fns.size(); i++)
    {
      auto & f = p.fns[i];
      auto l = rv::LambdaNode::Create(
          root,
          jl::LlvmLambdaOperation::Create(
              fnType(f.nArgs, f.hasResult),
              "f" + std::to_string(i),
              jl::Linkage::externalLinkage));
      auto args = l->GetFunctionArguments();
      std::vector<rv::Output *> res;
      if (f.hasResult)
        res.push_back(jl::UndefValueOperation::Create(*l->subregion(), ptr));
      res.push_back(args[f.nArgs]);
      res.push_back(args[f.nArgs + 1]);
      l->finalize(res);
      fns.push_back(l);
    }
    auto l = rv::LambdaNode::Create(
        root,
        jl::LlvmLambdaOperation::Create(fnType(0, false), "main", jl::Linkage::externalLinkage));
    rv::Output * ios = l->GetFunctionArguments()[0];
    rv::Output * ms = l->GetFunctionArguments()[1];
    auto one = jl::IntegerConstantOperation::Create(*l->subregion(), { 32, 1 }).output(0);
    for (unsigned i = 0; i < na; i++)
      allocas.push_back(rv::TryGetOwnerNode<rv::SimpleNode>(*jl::AllocaOperation::create(ptr, one, 8)[0]));
    for (unsigned i = 0; i < nm; i++)
    {
      auto & n = jl::MallocOperation::createNode(*one, *ios);
      ios = &jl::MallocOperation::ioStateOutput(n);
      mallocs.push_back(&n);
    }
    for (size_t i = 0; i < p.objs.size(); i++)
      values.push_back(jl::UndefValueOperation::Create(*l->subregion(), ptr));
    for (auto & c : p.calls)
    {
      std::vector<rv::Output *> ops;
      for (size_t i = 0; i < c.args.size(); i++)
        ops.push_back(jl::UndefValueOperation::Create(*l->subregion(), ptr));
      ops.push_back(ios);
      ops.push_back(ms);
      auto ft = fnType(c.args.size(), c.hasResult);
      auto callee = jl::UndefValueOperation::Create(*l->subregion(), ptr);
      auto fp =
          rv::CreateOpNode<jl::PointerToFunctionOperation>({ callee }, ft).output(0);
      auto & n = jl::CallOperation::CreateNode(fp, ft, ops);
      ios = &jl::CallOperation::GetIOStateOutput(n);
      ms = &jl::CallOperation::GetMemoryStateOutput(n);
      calls.push_back(&n);
    }
    l->finalize({ ios, ms });
  }
};

// The problem as the solver sees it, with the objects created and the constraints added in the given orders
struct Instance
{
  aa::PointerObjectSet set;
  aa::PointerObjectConstraintSet cons{ set };
  std::vector<aa::PointerObjectIndex> ix;

  Instance(const Problem & p, World & w, const std::vector<int> & objOrder, const std::vector<int> & conOrder)
  {
    using K = aa::PointerObjectKind;
    ix.resize(p.objs.size());
    // outputs that belong to each register
    std::map<int, std::vector<const rv::Output *>> outs;
    for (size_t i = 0; i < p.fns.size(); i++)
    {
      auto args = w.fns[i]->GetFunctionArguments();
      for (size_t j = 0; j < p.fns[i].args.size(); j++)
        if (p.fns[i].args[j] >= 0)
          outs[p.fns[i].args[j]].push_back(args[j]);
      if (p.fns[i].result >= 0)
        outs[p.fns[i].result].push_back(w.fns[i]->GetFunctionResults()[0]->origin());
    }
    for (size_t i = 0; i < p.calls.size(); i++)
    {
      for (size_t j = 0; j < p.calls[i].args.size(); j++)
        if (p.calls[i].args[j] >= 0)
          outs[p.calls[i].args[j]].push_back(jl::CallOperation::Argument(*w.calls[i], j)->origin());
      if (p.calls[i].result >= 0)
        outs[p.calls[i].result].push_back(w.calls[i]->output(0));
    }
    for (int o : objOrder)
    {
      auto & x = p.objs[o];
      switch (x.kind)
      {
      case K::Register:
      {
        auto it = outs.find(o);
        if (it == outs.end())
          ix[o] = x.output ? set.CreateRegisterPointerObject(*w.values[o]) : set.CreateDummyRegisterPointerObject();
        else
        {
          ix[o] = set.CreateRegisterPointerObject(*it->second[0]);
          for (size_t j = 1; j < it->second.size(); j++)
            set.MapRegisterToExistingPointerObject(*it->second[j], ix[o]);
        }
        break;
      }
      case K::AllocaMemoryObject: ix[o] = set.CreateAllocaMemoryObject(*w.allocas[x.entity], x.canPoint); break;
      case K::MallocMemoryObject: ix[o] = set.CreateMallocMemoryObject(*w.mallocs[x.entity], x.canPoint); break;
      case K::GlobalMemoryObject: ix[o] = set.CreateGlobalMemoryObject(*w.deltas[x.entity], x.canPoint); break;
      case K::ImportMemoryObject: ix[o] = set.CreateImportMemoryObject(*w.imports[x.entity], x.canPoint); break;
      case K::FunctionMemoryObject: ix[o] = set.CreateFunctionMemoryObject(*w.fns[x.entity]); break;
      default: break;
      }
    }
    for (int ci : conOrder)
    {
      auto & c = p.cons[ci];
      switch (c.k)
      {
      case Problem::PointsTo: cons.AddPointerPointeeConstraint(ix[c.a], ix[c.b]); break;
      case Problem::External: cons.AddPointsToExternalConstraint(ix[c.a]); break;
      case Problem::ContentEscapes: cons.AddRegisterContentEscapedConstraint(ix[c.a]); break;
      case Problem::Escaped: set.MarkAsEscaped(ix[c.a]); break;
      case Problem::StoredScalar: set.MarkAsStoringAsScalar(ix[c.a]); break;
      case Problem::LoadedScalar: set.MarkAsLoadingAsScalar(ix[c.a]); break;
      case Problem::Superset: cons.AddConstraint(aa::SupersetConstraint(ix[c.a], ix[c.b])); break;
      case Problem::Store: cons.AddConstraint(aa::StoreConstraint(ix[c.a], ix[c.b])); break;
      case Problem::Load: cons.AddConstraint(aa::LoadConstraint(ix[c.a], ix[c.b])); break;
      case Problem::CallC: cons.AddConstraint(aa::FunctionCallConstraint(ix[c.a], *w.calls[c.b])); break;
      }
    }
  }
};

void
solve(aa::PointerObjectConstraintSet & c, const Conf & conf)
{
  if (conf.IsOfflineVariableSubstitutionEnabled())
    c.PerformOfflineVariableSubstitution(conf.IsHybridCycleDetectionEnabled());
  if (conf.IsOfflineConstraintNormalizationEnabled())
    c.NormalizeConstraints();
  if (conf.GetSolver() == Conf::Solver::Naive)
    c.SolveNaively();
  else
    c.SolveUsingWorklist(
        conf.GetWorklistSoliverPolicy(),
        conf.IsOnlineCycleDetectionEnabled(),
        conf.IsHybridCycleDetectionEnabled(),
        conf.IsLazyCycleDetectionEnabled(),
        conf.IsDifferencePropagationEnabled(),
        conf.IsPreferImplicitPointeesEnabled());
}

std::string
text(const Problem & p)
{
  static const char * kinds[] = { "reg", "alloca", "malloc", "global", "function", "import" };
  static const char * ks[] = { "points-to", "external", "content-escapes", "escaped",        "stored-scalar",
                               "loaded-scalar", "superset", "store",      "load", "call" };
  std::ostringstream o;
  for (size_t i = 0; i < p.objs.size(); i++)
    o << "object " << i << " " << kinds[int(p.objs[i].kind)] << (p.objs[i].canPoint ? "" : " cannot point") << "\n";
  for (size_t i = 0; i < p.fns.size(); i++)
  {
    o << "function " << i << " args";
    for (int a : p.fns[i].args)
      o << " " << a;
    o << " result " << p.fns[i].result << "\n";
  }
  for (size_t i = 0; i < p.calls.size(); i++)
  {
    o << "call " << i << " args";
    for (int a : p.calls[i].args)
      o << " " << a;
    o << " result " << p.calls[i].result << "\n";
  }
  for (auto & c : p.cons)
    o << ks[c.k] << " " << c.a << " " << c.b << "\n";
  return o.str();
}

std::vector<int>
order(Stream & r, int n)
{
  std::vector<int> v(n);
  for (int i = 0; i < n; i++)
    v[i] = i;
  if (r.draw(3))
    for (int i = n - 1; i > 0; i--)
      std::swap(v[i], v[i - int(r.draw(i + 1))]);
  return v;
}

}

void
runSolver(Ctx & c)
{
  static const auto all = Conf::GetAllConfigurations();
  auto & r = c.ch["prog"];
  auto & sch = c.ch["sched"];
  c.stage("harness", Blame::Harness);
  auto p = drawProblem(r);
  World w(p);
  auto want = reference(p);
  if (c.verbose)
    c.note(text(p));
  c.count("objects", p.objs.size());
  c.count("constraints", p.cons.size());
  int n = int(p.objs.size());
  // Offline variable substitution assumes that a dereferenced pointer has some pointee, and may add to the
  // solution where there is none. Nothing may be missing even then.
  bool real = derefsAreReal(p, want);
  c.count(real ? "problems without empty dereferences" : "problems with empty dereferences");
  auto compare = [&](const Instance & in, const aa::PointerObjectSet & got, const std::string & how, bool ovs)
  {
    bool exact = real || !ovs;
    auto say = [&](const std::string & kind, const std::string & what)
    {
      c.fail(kind, how + ": " + what + "\n" + text(p));
    };
    uint64_t h = 0;
    for (int i = 0; i < n; i++)
    {
      if (!p.reg(i) && got.HasEscaped(in.ix[i]) != want.escaped[i] && (exact || want.escaped[i]))
        say("escaped flag differs", "object " + std::to_string(i) + " escaped is " + std::to_string(!want.escaped[i]));
      if (got.IsPointingToExternal(in.ix[i]) != want.external[i] && (exact || want.external[i]))
        say("external flag differs",
            "object " + std::to_string(i) + " points to external is " + std::to_string(!want.external[i]));
      for (int j = 0; j < n; j++)
        if (!p.reg(j))
        {
          bool g = got.IsPointingTo(in.ix[i], in.ix[j]);
          h = mix(h, g);
          if (g != pointsTo(want, i, j) && (exact || !g))
            say(g ? "unnecessary pointee" : "missing pointee",
                "object " + std::to_string(i) + (g ? " points to " : " does not point to ") + std::to_string(j));
        }
    }
    c.digest(h);
  };
  for (unsigned k = 0, rounds = 2 + sch.draw(3); k < rounds; k++)
  {
    auto oo = order(sch, n), co = order(sch, int(p.cons.size()));
    Instance in(p, w, oo, co);
    uint64_t oh = 0;
    for (int x : oo)
      oh = mix(oh, x);
    for (int x : co)
      oh = mix(oh, x);
    for (unsigned q = 0; q < 6; q++)
    {
      auto & conf = all[sch.draw(all.size())];
      auto how = conf.ToString();
      c.note("order " + std::to_string(k) + ": " + how + "\n");
      auto copy = in.cons.Clone();
      c.stage("solving with " + how, Blame::Subject);
      solve(*copy.second, conf);
      c.stage("comparing", Blame::Harness);
      compare(in, *copy.first, how, conf.IsOfflineVariableSubstitutionEnabled());
      c.count("solutions compared");
      c.state(mix(mix(oh, hashStr(how)), hashStr(text(p))));
    }
    // and without copying
    auto & conf = all[sch.draw(all.size())];
    c.stage("solving with " + conf.ToString(), Blame::Subject);
    solve(in.cons, conf);
    c.stage("comparing", Blame::Harness);
    compare(in, in.set, conf.ToString(), conf.IsOfflineVariableSubstitutionEnabled());
  }
  c.sample(text(p));
}

}
