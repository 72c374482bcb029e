#include "passes.hpp"
#include "choice.hpp"
#include <functional>
#include <jlm/llvm/backend/IpGraphToLlvmConverter.hpp>
#include <jlm/llvm/backend/RvsdgToIpGraphConverter.hpp>
#include <jlm/llvm/frontend/InterProceduralGraphConversion.hpp>
#include <jlm/llvm/frontend/LlvmModuleConversion.hpp>
#include <jlm/llvm/ir/ipgraph-module.hpp>
#include <jlm/llvm/ir/operators/IntegerOperations.hpp>
#include <jlm/llvm/ir/operators/ConversionOperations.hpp>
#include <jlm/llvm/opt/AggregateAllocaSplitting.hpp>
#include <jlm/llvm/opt/CommonNodeElimination.hpp>
#include <jlm/llvm/opt/DeadNodeElimination.hpp>
#include <jlm/llvm/opt/IOBarrierElimination.hpp>
#include <jlm/llvm/opt/IfConversion.hpp>
#include <jlm/llvm/opt/InvariantValueRedirection.hpp>
#include <jlm/llvm/opt/LoadChainSeparation.hpp>
#include <jlm/llvm/opt/LoopStrengthReduction.hpp>
#include <jlm/llvm/opt/LoopUnswitching.hpp>
#include <jlm/llvm/opt/NodeReduction.hpp>
#include <jlm/llvm/opt/PredicateCorrelation.hpp>
#include <jlm/llvm/opt/ScalarEvolution.hpp>
#include <jlm/llvm/opt/StoreValueForwarding.hpp>
#include <jlm/llvm/opt/alias-analyses/AgnosticModRefSummarizer.hpp>
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToAnalysisStateEncoder.hpp>
#include <jlm/llvm/opt/alias-analyses/RegionAwareModRefSummarizer.hpp>
#include <jlm/llvm/opt/inlining.hpp>
#include <jlm/llvm/opt/pull.hpp>
#include <jlm/llvm/opt/push.hpp>
#include <jlm/llvm/opt/unroll.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <jlm/rvsdg/control.hpp>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <unordered_map>
#include <unordered_set>

namespace sim
{
namespace rv = jlm::rvsdg;
namespace jl = jlm::llvm;

const char *
passName(Pass p)
{
  static const char * n[] = { "memory-state encoding (agnostic)",
                              "memory-state encoding (region-aware)",
                              "aggregate-alloca splitting",
                              "common-node elimination",
                              "dead-node elimination",
                              "inlining",
                              "if-conversion",
                              "io-barrier elimination",
                              "invariant-value redirection",
                              "load-chain separation",
                              "loop-strength reduction",
                              "loop unrolling",
                              "loop unswitching",
                              "node sinking",
                              "node hoisting",
                              "node reduction",
                              "predicate correlation",
                              "scalar evolution",
                              "store-value forwarding" };
  return n[int(p)];
}

std::shared_ptr<rv::Transformation>
createPass(Pass p)
{
  using A = jl::aa::Andersen;
  switch (p)
  {
  case Pass::AaAgnostic:
    return std::make_shared<jl::aa::PointsToAnalysisStateEncoder<A, jl::aa::AgnosticModRefSummarizer>>();
  case Pass::AaRegionAware:
    return std::make_shared<jl::aa::PointsToAnalysisStateEncoder<A, jl::aa::RegionAwareModRefSummarizer>>();
  case Pass::AllocaSplit:
    return std::make_shared<jl::AggregateAllocaSplitting>();
  case Pass::Cne:
    return std::make_shared<jl::CommonNodeElimination>();
  case Pass::Dne:
    return std::make_shared<jl::DeadNodeElimination>();
  case Pass::Inline:
    return std::make_shared<jl::FunctionInlining>();
  case Pass::IfConv:
    return std::make_shared<jl::IfConversion>();
  case Pass::IoBarrier:
    return std::make_shared<jl::IOBarrierElimination>();
  case Pass::Invariant:
    return std::make_shared<jl::InvariantValueRedirection>(jl::InvariantValueRedirection::Configuration());
  case Pass::LoadChain:
    return std::make_shared<jl::LoadChainSeparation>();
  case Pass::StrengthReduction:
    return std::make_shared<jl::LoopStrengthReduction>();
  case Pass::Unroll:
    return std::make_shared<jl::LoopUnrolling>(4);
  case Pass::Unswitch:
    return std::make_shared<jl::LoopUnswitching>(jl::LoopUnswitchingDefaultHeuristic::create());
  case Pass::Sink:
    return std::make_shared<jl::NodeSinking>();
  case Pass::Hoist:
    return std::make_shared<jl::NodeHoisting>();
  case Pass::Reduce:
    return std::make_shared<jl::NodeReduction>();
  case Pass::PredCorr:
    return std::make_shared<jl::PredicateCorrelation>();
  case Pass::ScalarEvo:
    return std::make_shared<jl::ScalarEvolution>();
  case Pass::StoreForward:
    return std::make_shared<jl::StoreValueForwarding>();
  default:
    abort();
  }
}

rv::Transformation &
PassSet::get(Pass p)
{
  auto & o = objs[p];
  if (!o)
    o = createPass(p);
  return *o;
}

std::unique_ptr<jl::LlvmRvsdgModule>
buildRvsdg(::llvm::Module & m)
{
  jlm::util::StatisticsCollector sc;
  auto ipg = jl::ConvertLlvmModule(m);
  return jl::ConvertInterProceduralGraphModule(*ipg, sc);
}

std::unique_ptr<::llvm::Module>
emitLlvm(jl::LlvmRvsdgModule & m, ::llvm::LLVMContext & ctx)
{
  jlm::util::StatisticsCollector sc;
  auto ipg = jl::RvsdgToIpGraphConverter::CreateAndConvertModule(m, sc);
  return jl::IpGraphToLlvmConverter::CreateAndConvertModule(*ipg, ctx);
}

static void
hideSignExtensions(rv::Region & r)
{
  std::vector<rv::SimpleNode *> sext;
  for (auto & n : r.Nodes())
  {
    if (auto s = dynamic_cast<rv::StructuralNode *>(&n))
      for (auto & sub : s->Subregions())
        hideSignExtensions(sub);
    else if (rv::is<jl::SExtOperation>(n.GetOperation()))
      sext.push_back(static_cast<rv::SimpleNode *>(&n));
  }
  for (auto n : sext)
  {
    auto o = n->input(0)->origin();
    auto t = dynamic_cast<const rv::BitType *>(o->Type().get());
    if (!t)
      continue;
    auto & zero = jl::IntegerConstantOperation::Create(r, t->nbits(), 0);
    auto & x = rv::CreateOpNode<jl::IntegerXorOperation>({ o, zero.output(0) }, t->nbits());
    n->input(0)->divert_to(x.output(0));
  }
}

void
hideSignExtensions(rv::Graph & g)
{
  hideSignExtensions(g.GetRootRegion());
}

// ------------------------------------------------------------------------- structure digest

static std::vector<const rv::Node *>
ordered(const rv::Region & r) // dependency order, by node id where free
{
  std::vector<const rv::Node *> nodes;
  for (auto & n : r.Nodes())
    nodes.push_back(&n);
  std::sort(nodes.begin(), nodes.end(), [](auto a, auto b) { return a->GetNodeId() < b->GetNodeId(); });
  std::unordered_set<const rv::Node *> done;
  std::vector<const rv::Node *> out;
  std::function<void(const rv::Node *)> visit = [&](const rv::Node * n)
  {
    if (!done.insert(n).second)
      return;
    for (size_t i = 0; i < n->ninputs(); i++)
      if (auto p = rv::TryGetOwnerNode<rv::Node>(*n->input(i)->origin()))
        visit(p);
    out.push_back(n);
  };
  for (auto n : nodes)
    visit(n);
  return out;
}

static uint64_t
regionDigest(const rv::Region & r, uint64_t & size)
{
  uint64_t h = mix(r.narguments(), r.nresults());
  std::unordered_map<const rv::Output *, uint64_t> id;
  uint64_t c = 0;
  for (size_t i = 0; i < r.narguments(); i++)
    id[r.argument(i)] = c++;
  for (auto n : ordered(r))
  {
    size++;
    h = mix(h, hashStr(n->DebugString()));
    for (size_t i = 0; i < n->ninputs(); i++)
      h = mix(h, id[n->input(i)->origin()]);
    for (size_t i = 0; i < n->noutputs(); i++)
      id[n->output(i)] = c++;
    if (auto s = dynamic_cast<const rv::StructuralNode *>(n))
      for (size_t i = 0; i < s->nsubregions(); i++)
        h = mix(h, regionDigest(*s->subregion(i), size));
  }
  for (size_t i = 0; i < r.nresults(); i++)
    h = mix(h, id[r.result(i)->origin()]);
  return h;
}

uint64_t
graphDigest(const rv::Graph & g)
{
  uint64_t s = 0;
  return regionDigest(g.GetRootRegion(), s);
}

uint64_t
graphSize(const rv::Graph & g)
{
  uint64_t s = 0;
  regionDigest(g.GetRootRegion(), s);
  return s;
}

static void
regionText(const rv::Region & r, int ind, std::string & out)
{
  std::unordered_map<const rv::Output *, std::string> id;
  std::string pad(ind, ' ');
  auto & name = id;
  static uint64_t serial;
  if (ind == 0)
    serial = 0;
  for (size_t i = 0; i < r.narguments(); i++)
    name[r.argument(i)] = "a" + std::to_string(i);
  for (auto n : ordered(r))
  {
    out += pad;
    for (size_t i = 0; i < n->noutputs(); i++)
    {
      name[n->output(i)] = "o" + std::to_string(serial++);
      out += (i ? ", " : "") + name[n->output(i)];
    }
    out += (n->noutputs() ? " = " : "") + n->DebugString();
    for (size_t i = 0; i < n->ninputs(); i++)
      out += (i ? ", " : " ") + name[n->input(i)->origin()];
    out += "\n";
    if (auto s = dynamic_cast<const rv::StructuralNode *>(n))
      for (size_t i = 0; i < s->nsubregions(); i++)
      {
        out += pad + " region " + std::to_string(i) + ":\n";
        regionText(*s->subregion(i), ind + 4, out);
      }
  }
  out += pad + "results";
  for (size_t i = 0; i < r.nresults(); i++)
    out += (i ? ", " : " ") + name[r.result(i)->origin()];
  out += "\n";
}

std::string
graphText(const rv::Graph & g)
{
  std::string s;
  regionText(g.GetRootRegion(), 0, s);
  return s;
}

// ------------------------------------------------------------------------- well-formedness

static std::string
checkRegion(const rv::Region & r)
{
  auto where = [&](const rv::Node & n)
  {
    return n.DebugString() + " in a region of " + (r.node() ? r.node()->DebugString() : std::string("the root"));
  };
  auto region = [&]()
  {
    return std::string("a region of ") + (r.node() ? r.node()->DebugString() : std::string("the root"));
  };
  std::unordered_set<const rv::Output *> defs;
  std::unordered_set<const rv::Input *> uses;
  std::unordered_set<const rv::Node *> nodes;
  std::unordered_set<uint64_t> ids;
  size_t top = 0, bottom = 0;
  for (size_t i = 0; i < r.narguments(); i++)
  {
    auto a = r.argument(i);
    if (a->index() != i)
      return "argument " + std::to_string(i) + " of " + region() + " has index " + std::to_string(a->index());
    if (a->region() != &r)
      return "argument of " + region() + " thinks it belongs to another region";
    defs.insert(a);
    if (auto in = dynamic_cast<const rv::RegionArgument *>(a)->input())
    {
      if (in->node() != r.node())
        return "argument of " + region() + " is connected to an input of another node";
      if (*in->Type() != *a->Type())
        return "argument and input of " + region() + " differ in type";
    }
  }
  for (auto & n : r.Nodes())
  {
    nodes.insert(&n);
    if (n.region() != &r)
      return where(n) + " thinks it belongs to another region";
    if (!ids.insert(n.GetNodeId()).second)
      return where(n) + " shares its id with another node";
    for (size_t i = 0; i < n.noutputs(); i++)
    {
      if (n.output(i)->index() != i)
        return "output " + std::to_string(i) + " of " + where(n) + " has the wrong index";
      if (rv::TryGetOwnerNode<rv::Node>(*n.output(i)) != &n)
        return "output " + std::to_string(i) + " of " + where(n) + " has the wrong owner";
      defs.insert(n.output(i));
    }
    for (size_t i = 0; i < n.ninputs(); i++)
    {
      if (n.input(i)->index() != i)
        return "input " + std::to_string(i) + " of " + where(n) + " has the wrong index";
      uses.insert(n.input(i));
    }
  }
  for (size_t i = 0; i < r.nresults(); i++)
  {
    auto a = r.result(i);
    if (a->index() != i)
      return "result " + std::to_string(i) + " of " + region() + " has the wrong index";
    uses.insert(a);
    if (auto out = dynamic_cast<const rv::RegionResult *>(a)->output())
    {
      if (out->node() != r.node())
        return "result of " + region() + " is connected to an output of another node";
      if (*out->Type() != *a->Type())
        return "result and output of " + region() + " differ in type";
    }
  }
  for (auto u : uses)
  {
    if (!defs.count(u->origin()))
      return "something in " + region() + " uses a value that is not defined in it";
    if (*u->Type() != *u->origin()->Type())
      return "something in " + region() + " uses a value of another type";
    size_t k = 0;
    for (auto & x : u->origin()->Users())
      k += &x == u;
    if (k != 1)
      return "a use in " + region() + " is recorded " + std::to_string(k) + " times";
  }
  size_t total = 0;
  for (auto d : defs)
  {
    size_t k = 0;
    for (auto & x : d->Users())
    {
      k++;
      if (!uses.count(&x))
        return "a value in " + region() + " has a user that is not in the region";
    }
    if (k != d->nusers())
      return "number of users of a value in " + region() + " is wrong";
    if (d->IsDead() != (k == 0))
      return "liveness of a value in " + region() + " is wrong";
    total += k;
  }
  if (total != uses.size())
    return "uses and users in " + region() + " do not add up";
  std::unordered_set<const rv::Node *> tops, bottoms;
  for (auto & n : r.TopNodes())
    tops.insert(&n);
  for (auto & n : r.BottomNodes())
    bottoms.insert(&n);
  for (auto n : nodes)
  {
    bool dead = true;
    for (size_t i = 0; i < n->noutputs(); i++)
      dead = dead && n->output(i)->nusers() == 0;
    if (dead != (bottoms.count(n) == 1))
      return where(*n) + (dead ? " is missing from" : " is wrongly among") + " the bottom nodes";
    if ((n->ninputs() == 0) != (tops.count(n) == 1))
      return where(*n) + (n->ninputs() == 0 ? " is missing from" : " is wrongly among") + " the top nodes";
    top += n->ninputs() == 0;
    bottom += dead;
  }
  if (r.numNodes() != nodes.size() || r.numTopNodes() != top || r.numBottomNodes() != bottom || tops.size() != top
      || bottoms.size() != bottom)
    return "node counts of " + region() + " are wrong";
  // acyclic
  std::unordered_map<const rv::Node *, size_t> pending;
  std::vector<const rv::Node *> ready;
  for (auto n : nodes)
  {
    size_t c = 0;
    for (size_t i = 0; i < n->ninputs(); i++)
      c += rv::TryGetOwnerNode<rv::Node>(*n->input(i)->origin()) != nullptr;
    pending[n] = c;
    if (!c)
      ready.push_back(n);
  }
  size_t seen = 0;
  while (!ready.empty())
  {
    auto n = ready.back();
    ready.pop_back();
    seen++;
    for (size_t i = 0; i < n->noutputs(); i++)
      for (auto & u : n->output(i)->Users())
        if (auto m = rv::TryGetOwnerNode<rv::Node>(u))
          if (--pending[m] == 0)
            ready.push_back(m);
  }
  if (seen != nodes.size())
    return "cyclic dependencies in " + region();
  for (auto n : nodes)
  {
    if (auto g = dynamic_cast<const rv::GammaNode *>(n))
    {
      auto & ct = dynamic_cast<const rv::ControlType &>(*g->predicate()->Type());
      if (ct.nalternatives() != g->nsubregions())
        return "gamma predicate and number of alternatives differ";
      for (size_t i = 0; i < g->nsubregions(); i++)
      {
        auto s = g->subregion(i);
        if (s->nresults() != g->noutputs() )
          return "gamma alternative with the wrong number of results";
        for (size_t j = 0; j < s->nresults(); j++)
          if (*s->result(j)->Type() != *g->output(j)->Type())
            return "gamma result type differs";
      }
    }
    else if (auto t = dynamic_cast<const rv::ThetaNode *>(n))
    {
      auto s = t->subregion();
      if (t->ninputs() != t->noutputs() || s->narguments() != t->ninputs() || s->nresults() != t->ninputs() + 1)
        return "theta with mismatched loop variables";
      for (size_t j = 0; j < t->ninputs(); j++)
        if (*t->input(j)->Type() != *t->output(j)->Type() || *s->argument(j)->Type() != *t->input(j)->Type()
            || *s->result(j + 1)->Type() != *t->output(j)->Type())
          return "theta loop variable of mixed type";
      auto ct = dynamic_cast<const rv::ControlType *>(s->result(0)->Type().get());
      if (!ct || ct->nalternatives() != 2)
        return "theta predicate is not a two-way control value";
    }
    if (auto s = dynamic_cast<const rv::StructuralNode *>(n))
      for (size_t i = 0; i < s->nsubregions(); i++)
      {
        if (s->subregion(i)->node() != n || s->subregion(i)->index() != i)
          return "subregion with the wrong parent";
        if (s->subregion(i)->graph() != r.graph())
          return "subregion of another graph";
        auto e = checkRegion(*s->subregion(i));
        if (!e.empty())
          return e;
      }
  }
  return "";
}

std::string
checkGraph(const rv::Graph & g)
{
  return checkRegion(g.GetRootRegion());
}

}
