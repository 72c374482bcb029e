// Alias analyses against the addresses that simulated executions really use: two accesses of one
// execution of a region must not contradict what an analysis answered about their pointers, and
// every pointer must point into an object that the points-to graph lists for it.
#include "alloc.hpp"
#include "engine.hpp"
#include "passes.hpp"
#include "progsim.hpp"

#include <jlm/llvm/ir/operators/Load.hpp>
#include <jlm/llvm/ir/operators/Store.hpp>
#include <jlm/llvm/ir/operators/delta.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/llvm/ir/types.hpp>
#include <jlm/llvm/opt/alias-analyses/Andersen.hpp>
#include <jlm/llvm/opt/alias-analyses/LocalAliasAnalysis.hpp>
#include <jlm/llvm/opt/alias-analyses/PointsToGraphAliasAnalysis.hpp>
#include <jlm/rvsdg/MatchType.hpp>
#include <jlm/util/Statistics.hpp>

#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>

#include <algorithm>
#include <map>
#include <set>
#include <sstream>

namespace sim
{

namespace jl = jlm::llvm;
namespace aa = jlm::llvm::aa;
namespace rv = jlm::rvsdg;

namespace
{
struct Access
{
  const rv::Node * node;
  const rv::Output * ptr;
  uint64_t addr, size;
  bool write;
  const rv::Node * child; // node of the region under consideration that the access is part of
  bool stale = false;     // in an iteration that is not the last one of its loop
  bool
  operator<(const Access & o) const
  {
    return std::tie(node, ptr, addr, size) < std::tie(o.node, o.ptr, o.addr, o.size);
  }
};

std::string
place(const rv::Node & n)
{
  return n.DebugString() + " in region of "
       + (n.region()->node() ? n.region()->node()->DebugString() : std::string("the module"));
}

struct Checker
{
  Ctx & c;
  std::vector<std::pair<std::string, std::shared_ptr<aa::AliasAnalysis>>> aas;
  std::shared_ptr<aa::PointsToGraph> ptg;
  std::map<const RvsdgInterp::Act *, std::vector<Access>> events;
  std::map<std::tuple<int, const rv::Output *, uint64_t, const rv::Output *, uint64_t>, int> answers;
  uint64_t answersHash = 0;
  Mem * mem = nullptr;
  RvsdgInterp * in = nullptr;
  std::set<const void *> checkedValues;
  unsigned subSizes = 0;

  int
  ask(int k, const rv::Output & p, uint64_t s, const rv::Output & q, uint64_t t)
  {
    auto key = std::make_tuple(k, &p, s, &q, t);
    auto it = answers.find(key);
    if (it != answers.end())
      return it->second;
    c.stage("alias query (" + aas[k].first + ")", Blame::Subject);
    int a = aas[k].second->Query(p, s, q, t);
    c.stage("execution", Blame::Harness);
    c.count(
        aas[k].first + (a == aa::AliasAnalysis::NoAlias     ? ": no alias"
                        : a == aa::AliasAnalysis::MustAlias ? ": must alias"
                                                            : ": may alias"));
    answersHash = mix(answersHash, uint64_t(k * 3 + a));
    return answers[key] = a;
  }

  void
  pair(const Access & x, const Access & y)
  {
    bool overlap = x.addr < y.addr + y.size && y.addr < x.addr + x.size;
    for (int k = 0; k < int(aas.size()); k++)
      for (int swap = 0; swap < 2; swap++)
      {
        auto & a = swap ? y : x;
        auto & b = swap ? x : y;
        int r = ask(k, *a.ptr, a.size, *b.ptr, b.size);
        auto wrong = [&](const std::string & kind)
        {
          std::ostringstream o;
          o << aas[k].first << ": " << place(*a.node) << " accesses [" << std::hex << a.addr << ", "
            << a.addr + a.size << "), " << place(*b.node) << " accesses [" << b.addr << ", " << b.addr + b.size
            << ") in one execution of their common region";
          c.fail(aas[k].first + ": " + kind, o.str());
        };
        if (r == aa::AliasAnalysis::NoAlias && overlap)
          wrong("claimed not to alias, but overlap");
        if (r == aa::AliasAnalysis::MustAlias && a.addr != b.addr && !a.stale && !b.stale)
          wrong("claimed to be equal, but differ");
      }
  }

  void
  access(const rv::Node * n, RvsdgInterp::Act & a, int operand, uint64_t addr, uint64_t size, bool write)
  {
    auto ptr = n->input(operand)->origin();
    auto & ev = events[&a];
    if (ev.size() < 400)
      ev.push_back({ n, ptr, addr, size, write, n });
    target(*ptr, addr, "the pointer of " + place(*n), true);
    auto o = mem->find(addr);
    if (write && o)
      if (auto t = nodeOf(o); t && ptg->isNodeConstant(*t))
        c.fail(
            "points-to graph: constant memory is written",
            place(*n) + " writes to " + ptg->getNodeDebugString(*t) + ", which is marked as constant");
  }

  std::optional<aa::PointsToGraph::NodeIndex>
  nodeOf(const Obj * o)
  {
    switch (o->kind)
    {
    case Obj::EnvObj: return ptg->getExternalMemoryNode();
    case Obj::Stack:
    {
      auto n = static_cast<const rv::SimpleNode *>(o->site);
      if (n && ptg->hasNodeForAlloca(*n))
        return ptg->getNodeForAlloca(*n);
      return std::nullopt;
    }
    case Obj::Heap:
    {
      auto n = static_cast<const rv::SimpleNode *>(o->site);
      if (n && ptg->hasNodeForMalloc(*n))
        return ptg->getNodeForMalloc(*n);
      return std::nullopt;
    }
    default: break;
    }
    auto it = sites.find(o->site);
    if (!o->site || it == sites.end())
      return std::nullopt;
    return it->second;
  }
  std::map<const void *, aa::PointsToGraph::NodeIndex> sites; // lambdas, deltas, imports

  void
  target(const rv::Output & out, uint64_t addr, const std::string & what, bool accessed)
  {
    auto o = mem->find(addr);
    if (!o || !o->size || addr < o->base || addr >= o->base + o->size)
      return;
    if (!accessed && !o->alive)
      return;
    auto r = ptg->tryGetNodeForRegister(out);
    if (!r)
    {
      if (accessed)
        c.fail("points-to graph: pointer without a node", what + " is not part of the points-to graph");
      return;
    }
    auto t = nodeOf(o);
    if (!t)
      return;
    c.count("pointers compared with their points-to sets");
    // a function that the linker may replace also stands for the external one of that name
    if (ptg->getNodeKind(*t) == aa::PointsToGraph::NodeKind::LambdaNode
        && ptg->isTargetingAllExternallyAvailable(*r))
      if (auto l = dynamic_cast<const jl::LlvmLambdaOperation *>(&ptg->getLambdaForNode(*t).GetOperation());
          l && jl::isInterposable(l->linkage()))
        return;
    if (!ptg->isTargeting(*r, *t))
      c.fail(
          "points-to graph: missing target",
          what + " points to " + (o->kind == Obj::EnvObj ? "external memory" : ptg->getNodeDebugString(*t))
              + " (object " + o->name + "), which is not in its points-to set");
  }

  void
  afterRegion(RvsdgInterp::Act & a)
  {
    // pointer values of this activation
    for (auto & [out, slot] : a.rc.slotOf)
      if (rv::is<jl::PointerType>(out->Type()) && !a.s[slot].p && a.s[slot].b)
        target(*out, a.s[slot].b, "the value " + describe(*out), false);
    auto it = events.find(&a);
    if (it == events.end())
      return;
    auto ev = std::move(it->second);
    events.erase(it);
    for (size_t i = 0; i < ev.size(); i++)
      for (size_t j = i + 1; j < ev.size(); j++)
        if (ev[i].child != ev[j].child && (ev[i].write || ev[j].write || ev[i].ptr != ev[j].ptr))
          pair(ev[i], ev[j]);
        else if (ev[i].node == ev[j].node && ev[i].child == ev[i].node && ev[i].ptr != ev[j].ptr)
          pair(ev[i], ev[j]); // the operands of a memcpy
    if (!a.parent)
      return;
    auto & up = events[a.parent];
    auto self = a.rc.r->node();
    std::map<Access, size_t> have;
    for (size_t i = 0; i < up.size(); i++)
      if (up[i].child == self)
      {
        up[i].stale = true;
        have.insert({ up[i], i });
      }
    for (auto e : ev)
      if (auto h = have.find(e); h != have.end())
        up[h->second].stale = up[h->second].stale && e.stale;
      else if (up.size() < 400)
      {
        have.insert({ e, up.size() });
        e.child = self;
        up.push_back(e);
      }
  }

  static std::string
  describe(const rv::Output & o)
  {
    if (auto n = rv::TryGetOwnerNode<rv::Node>(o))
      return "output " + std::to_string(o.index()) + " of " + place(*n);
    return "argument " + std::to_string(o.index()) + " of the region of "
         + (o.region()->node() ? o.region()->node()->DebugString() : std::string("the module"));
  }
};

}

void
runAlias(Ctx & c)
{
  static const auto all = aa::Andersen::Configuration::GetAllConfigurations();
  static const Profile profs[] = { Profile::Memory, Profile::General, Profile::Calls, Profile::Loops, Profile::Memory };
  auto & cfg = c.ch["cfg"];
  auto & sch = c.ch["sched"];
  auto & pl = c.ch["pipeline"];
  auto prof = profs[cfg.draw(5)];
  uint64_t layout = cfg.draw(4) == 0 ? 0 : 1 + cfg.draw(1 << 16);
  Source s;
  makeSource(c, s, prof);
  ::llvm::LLVMContext ctx;
  auto copy = cloneInto(*s.prog.mod, ctx);
  c.stage("construction", Blame::Setup);
  heapLayout(layout);
  auto m = buildRvsdg(*copy);
  PassSet ps;
  std::string names;
  static const Pass pre[] = { Pass::Reduce,  Pass::Inline,   Pass::Invariant,     Pass::PredCorr,     Pass::Hoist,
                              Pass::IfConv,  Pass::Sink,     Pass::AaRegionAware, Pass::StoreForward, Pass::AllocaSplit,
                              Pass::Cne,     Pass::Dne,      Pass::IoBarrier,     Pass::LoadChain,    Pass::StrengthReduction,
                              Pass::Unswitch };
  for (unsigned n = pl.draw(5); n > 0; n--)
  {
    auto p = pre[pl.draw(sizeof pre / sizeof *pre)];
    names += (names.empty() ? "" : ", ") + std::string(passName(p));
    c.stage(passName(p), Blame::Setup);
    ps.get(p).Run(*m);
    c.stage("walking the resulting graph", Blame::Setup);
    if (!checkGraph(m->Rvsdg()).empty())
      c.discard("setup: malformed graph");
  }
  if (c.verbose)
    c.note("--- after: " + names + "\n" + graphText(m->Rvsdg()));
  // is this graph still the program?
  c.stage("execution before the analyses", Blame::Harness);
  try
  {
    if (!replayRvsdg(c, *m, s, Sched{}, 300, nullptr).empty())
      c.discard("setup: wrong after the preceding passes");
  }
  catch (Unsupported & u)
  {
    c.discard("unsupported in the graph: " + u.what);
  }

  Checker k{ c };
  aa::Andersen andersen;
  auto conf = sch.chance(1, 2) ? aa::Andersen::Configuration::DefaultConfiguration() : all[sch.draw(all.size())];
  andersen.SetConfiguration(conf);
  c.note("analysis: " + conf.ToString() + "\n");
  c.stage("points-to analysis", Blame::Subject);
  k.ptg = std::shared_ptr<aa::PointsToGraph>(andersen.Analyze(*m).release());
  auto & g = *k.ptg;
  for (auto n : g.lambdaNodes())
    k.sites[&g.getLambdaForNode(n)] = n;
  for (auto n : g.deltaNodes())
    k.sites[&g.getDeltaForNode(n)] = n;
  for (auto n : g.importNodes())
    k.sites[&g.getImportForNode(n)] = n;
  static const unsigned traceSizes[] = { 10, 1, 2, 4, 100 };
  auto mk = [&](const std::string & name, std::shared_ptr<aa::AliasAnalysis> a)
  {
    k.aas.emplace_back(name, a);
  };
  auto local = [&]
  {
    auto l = std::make_shared<aa::LocalAliasAnalysis>();
    auto i = sch.draw(6);
    if (i)
      l->setMaxTraceCollectionSize(traceSizes[i - 1]);
    return l;
  };
  mk("local analysis", local());
  mk("points-to graph analysis", std::make_shared<aa::PointsToGraphAliasAnalysis>(k.ptg));
  if (sch.chance(1, 3))
    mk("local analysis", local());
  if (sch.chance(1, 2))
    mk("chained analysis",
       std::make_shared<aa::ChainedAliasAnalysis>(k.aas[0].second, k.aas[1].second));
  else if (sch.chance(1, 2))
    mk("chained analysis",
       std::make_shared<aa::ChainedAliasAnalysis>(k.aas[1].second, k.aas[0].second));
  for (unsigned i = 0; i < 2; i++)
  {
    auto sd = i ? drawSched(sch) : Sched{};
    c.stage("execution", Blame::Harness);
    k.events.clear();
    std::string d;
    try
    {
      d = replayRvsdg(
          c,
          *m,
          s,
          sd,
          400 + cfg.draw(64),
          [&](RvsdgInterp & in, Mem & mem, Env &)
          {
            k.mem = &mem;
            k.in = &in;
            in.onAccess = [&](const rv::Node * n, RvsdgInterp::Act & a, int op, uint64_t addr, uint64_t size, bool w)
            {
              k.access(n, a, op, addr, size, w);
            };
            in.afterRegion = [&](RvsdgInterp::Act & a)
            {
              k.afterRegion(a);
            };
          });
    }
    catch (Unsupported & u)
    {
      c.discard("unsupported in the graph: " + u.what);
    }
    if (!d.empty())
      c.discard("setup: wrong under a schedule after the preceding passes");
  }
  c.digest(k.answersHash);
  c.state(mix(mix(s.trace.hash(), k.answersHash), graphDigest(m->Rvsdg())));
  c.stage("end", Blame::Harness);
  c.sample("passes: " + names + "\n" + s.trace.str().substr(0, 1500) + "\nprogram:\n" + printModule(*s.prog.mod).substr(0, 3000));
}

}
