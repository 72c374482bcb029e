// The program engine: a generated program is executed by the reference interpreter in a simulated,
// fault-injecting environment; the recorded history is then demanded of what jlm makes of it, under
// seeded schedules.
#include <set>
#include <sstream>
#include "alloc.hpp"
#include "engine.hpp"
#include "gen.hpp"
#include "llvm_interp.hpp"
#include "passes.hpp"
#include "progsim.hpp"
#include "rvsdg_interp.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Support/raw_ostream.h>

namespace sim
{

// ------------------------------------------------------------------------------------ source

bool
makeSource(Ctx & c, Source & s, Profile prof)
{
  c.stage("generator", Blame::Harness);
  s.prog = generate(c.ch, prof);
  auto & cfg = c.ch["cfg"];
  auto & env = c.ch["env"];
  Mem mem(1 + cfg.draw(64));
  Env e(mem, s.prog.meta, s.trace, &env);
  // fault mix of this run
  if (cfg.chance(3, 4))
    e.pWrite = 25 * cfg.range(0, 3);
  if (cfg.chance(1, 2))
    e.pCallback = 15 * cfg.range(0, 3);
  if (cfg.chance(1, 4))
    e.pExit = 4 * cfg.range(0, 3);
  if (cfg.chance(1, 2))
    e.pNull = 10 * cfg.range(0, 3);
  if (cfg.chance(1, 2))
    e.pVol = 20 * cfg.range(0, 3);
  if (cfg.chance(1, 4))
    e.pMallocFail = 25 * cfg.range(0, 3);
  e.pJump = 25 * c.ch["jump"].range(0, 3);
  unsigned calls = 1 + cfg.draw(4);
  c.stage("reference execution", Blame::Harness);
  const uint64_t MAX = 30000;
  try
  {
    LlvmInterp in(*s.prog.mod, mem, e, MAX);
    in.blockHits = nullptr;
    e.callFn = [&](uint64_t a, const std::vector<Val> & v)
    {
      return in.callAddr(a, v);
    };
    e.start();
    e.session(calls);
    s.steps = in.steps;
    s.maxAllocas = std::max(1u, in.maxAllocas);
  }
  catch (Unsupported & u)
  {
    c.discard("reference: unsupported: " + u.what);
  }
  catch (Ub & u)
  {
    c.discard("reference: undefined behaviour: " + u.what);
  }
  catch (StepLimit &)
  {
    c.discard("reference: step limit");
  }
  c.digest(s.trace.hash());
  c.count("events", s.trace.events());
  c.count("reference steps", s.steps);
  auto & st = e.stats;
  c.count("fault: write to escaped memory", st.writes);
  c.count("fault: callback into the program", st.callbacks);
  c.count("fault: process exit inside a call", st.exits);
  c.count("fault: null result", st.nullRets);
  c.count("fault: malloc failure", st.mallocFail);
  c.count("fault: device register changed", st.volChange);
  c.count("fault: longjmp out of a call", st.longjmps);
  c.count("external calls", st.extCalls);
  if (c.verbose)
    c.note("--- program (LLVM passes: " + s.prog.passes + ")\n" + printModule(*s.prog.mod) + "\n--- history\n" + s.trace.str());
  return true;
}

// The recorded execution ended inside a call, so nobody knows whether the code after the call is
// defined. Parts of it without effects may run before the call.
static void
afterExit(const Trace & t, const Ub & x)
{
  if ((t.exited || t.jumps()) && x.what.find("undefined value") != std::string::npos)
    throw Unsupported{ "use of an undefined value around a process exit" };
}


static std::string
runLlvm(::llvm::Module & m, const Source & s, uint64_t salt, uint64_t maxSteps, uint64_t * steps)
{
  Mem mem(salt);
  Trace t = s.trace;
  Env e(mem, s.prog.meta, t, nullptr);
  try
  {
    LlvmInterp in(m, mem, e, maxSteps);
    e.callFn = [&](uint64_t a, const std::vector<Val> & v)
    {
      return in.callAddr(a, v);
    };
    // what was visible from outside must still be
    for (auto & [n, fi] : s.prog.meta.fns)
      if (fi.defined && fi.exported && !fi.discardable)
      {
        auto f = m.getFunction(n);
        if (!f || f->isDeclaration() || f->hasLocalLinkage())
          throw Mismatch{ "exported function @" + n + " is gone" };
      }
    e.start();
    e.session(0);
    if (steps)
      *steps = in.steps;
    if (!t.exited && !t.jumps() && in.maxAllocas > s.maxAllocas)
      return "stack: one activation executes an alloca " + std::to_string(in.maxAllocas)
           + " times, no alloca of the source more than " + std::to_string(s.maxAllocas) + " times";
  }
  catch (Mismatch & x)
  {
    return "observable difference: " + x.what;
  }
  catch (Ub & x)
  {
    afterExit(t, x);
    return "undefined behaviour: " + x.what;
  }
  catch (StepLimit &)
  {
    return "does not finish";
  }
  return "";
}

std::string
replayLlvm(::llvm::Module & m, const Source & s, uint64_t salt)
{
  return runLlvm(m, s, salt, s.steps * 60 + 20000, nullptr);
}

std::string
replayRvsdg(
    Ctx & c,
    jlm::llvm::LlvmRvsdgModule & m,
    const Source & s,
    Sched sched,
    uint64_t salt,
    const std::function<void(RvsdgInterp &, Mem &, Env &)> & hook)
{
  Mem mem(salt);
  Trace t = s.trace.jumps() ? s.trace.untilJump() : s.trace;
  Env e(mem, s.prog.meta, t, nullptr);
  try
  {
    RvsdgInterp in(m, mem, e, s.prog.meta, s.steps * 60 + 40000, sched);
    if (hook)
      hook(in, mem, e);
    e.callFn = [&](uint64_t a, const std::vector<Val> & v)
    {
      return in.callAddr(a, v);
    };
    e.start();
    e.session(0);
    c.count("executions");
    c.count(std::string("schedule: ") + Sched::name(sched.kind));
    c.count("simulated steps", in.steps);
    c.count("nodes executed out of order", in.reordered);
    c.state(mix(s.trace.hash(), in.scheduleHash));
    c.digest(mix(in.scheduleHash, in.steps));
    // the stack must not grow with the number of calls made from a loop
    if (!t.exited && !t.jumps() && in.maxAllocas > s.maxAllocas)
      return "stack: one activation executes an alloca " + std::to_string(in.maxAllocas)
           + " times, no alloca of the source more than " + std::to_string(s.maxAllocas) + " times";
  }
  catch (Mismatch & x)
  {
    return "observable difference: " + x.what;
  }
  catch (Ub & x)
  {
    afterExit(t, x);
    return "undefined behaviour: " + x.what;
  }
  catch (StepLimit &)
  {
    return "does not finish";
  }
  return "";
}

Sched
drawSched(Stream & s)
{
  Sched sc;
  sc.kind = Sched::Kind(s.draw(Sched::NKinds));
  sc.seed = s.draw(1 << 20);
  // 0 is the simplest: FIFO; otherwise most runs use the kind throughout, some for a prefix only
  static const uint64_t b[] = { ~0ull, 1, 3, 10, 30, 100, 300, 1000 };
  sc.budget = b[s.pick({ 16, 1, 1, 1, 1, 1, 1, 1 })];
  return sc;
}

std::string
schedText(const Sched & s)
{
  return std::string(Sched::name(s.kind)) + " schedule, seed " + std::to_string(s.seed)
       + (s.budget == ~0ull ? "" : ", first " + std::to_string(s.budget) + " activations");
}

// ------------------------------------------------------------------------------------ engine

struct Cfg
{
  const char * prop;
  std::vector<Profile> profiles;
  std::vector<Pass> subject; // passes under test; empty: construction itself
  unsigned maxPrefix = 0;
  bool roundTrip = false; // subject is construction + code generation
  bool pipeline = false;  // subject is a whole pipeline
  std::vector<Pass> prefix = {}; // preferred preceding passes
  std::vector<std::vector<Pass>> recipes = {}; // sequences that bring out what the subjects look for
};

static const std::vector<Profile> allProfiles = { Profile::General, Profile::Loops,   Profile::Memory,
                                                  Profile::Calls,   Profile::Control, Profile::Scalars };

static const std::vector<Cfg> &
configs()
{
  using P = Pass;
  using Q = Profile;
  static const std::vector<Cfg> c = {
    { "C01", allProfiles, {}, 0, true, false },
    { "C02", allProfiles, {}, 0, false, false },
    { "C03",
      { Q::Memory, Q::General, Q::Calls, Q::Loops },
      { P::AaAgnostic, P::AaRegionAware },
      3,
      false,
      false,
      { P::IoBarrier, P::Inline, P::Reduce, P::AllocaSplit } },
    { "C04",
      allProfiles,
      { P::Cne, P::Dne, P::Invariant, P::Reduce },
      4,
      false,
      false,
      { P::AaRegionAware, P::Reduce, P::Dne, P::Inline } },
    // barriers hide missing memory order
    { "C05",
      { Q::Memory, Q::General, Q::Loops },
      { P::StoreForward, P::LoadChain, P::AllocaSplit },
      4,
      false,
      false,
      { P::AaRegionAware, P::IoBarrier, P::AaAgnostic, P::Reduce, P::Inline, P::Hoist },
      { { P::AaRegionAware, P::IoBarrier },
        { P::Inline, P::Invariant, P::Reduce, P::Dne, P::AaRegionAware },
        { P::PredCorr, P::Invariant, P::Dne, P::AaRegionAware, P::IoBarrier } } },
    { "C06",
      { Q::Loops, Q::Loops, Q::General },
      { P::Unswitch, P::StrengthReduction, P::StrengthReduction, P::Unroll, P::ScalarEvo },
      4,
      false,
      false,
      { P::PredCorr, P::Reduce, P::Invariant, P::Cne, P::AaRegionAware },
      { { P::PredCorr, P::Invariant, P::Dne },
        { P::PredCorr, P::Invariant, P::AaRegionAware, P::Reduce },
        { P::AaRegionAware, P::IoBarrier, P::PredCorr, P::Invariant, P::Dne, P::Hoist } } },
    { "C07",
      { Q::Control, Q::General, Q::Loops, Q::Memory },
      { P::Hoist, P::Sink, P::IfConv, P::PredCorr, P::IoBarrier },
      4,
      false,
      false,
      { P::AaRegionAware, P::AaRegionAware, P::IoBarrier, P::Reduce, P::Invariant, P::Cne, P::Dne } },
    { "C08", { Q::Calls, Q::Calls, Q::General }, { P::Inline }, 4, false, false, { P::AaRegionAware, P::Reduce, P::Dne } },
    { "C09", allProfiles, {}, 0, false, true },
  };
  return c;
}

void
runProg(Ctx & c)
{
  const Cfg * cf = nullptr;
  for (auto & x : configs())
    if (c.prop == x.prop)
      cf = &x;
  auto & cfg = c.ch["cfg"];
  auto & sch = c.ch["sched"];
  auto prof = cf->profiles[cfg.draw(cf->profiles.size())];
  uint64_t layout = cfg.draw(4) == 0 ? 0 : 1 + cfg.draw(1 << 16);
  Source s;
  makeSource(c, s, prof);
  c.stage("self check", Blame::Harness);
  {
    auto d = runLlvm(*s.prog.mod, s, 700 + cfg.draw(64), s.steps + 10, nullptr);
    if (!d.empty())
      c.discard("the source program itself depends on the memory layout: " + d.substr(0, 40));
  }
  bool constr = cf->subject.empty() && !cf->pipeline;
  ::llvm::LLVMContext ctx2;
  auto copy = cloneInto(*s.prog.mod, ctx2);
  c.stage("construction", constr ? Blame::Subject : Blame::Setup);
  heapLayout(layout);
  auto rv = buildRvsdg(*copy);
  c.stage("harness", Blame::Harness);
  c.count("graph nodes", graphSize(rv->Rvsdg()));
  if (c.verbose)
    c.note("--- RVSDG after construction\n" + graphText(rv->Rvsdg()));

  // A listed finding is told apart by its cause: strength reduction takes the evolution of a
  // sign-extended value to be that of the value itself, although the value wraps. Does the failure
  // go away if the analysis does not see what is sign-extended?
  std::vector<Pass> applied;
  auto causedBySignExtension = [&](const Sched & sd)
  {
    if (std::find(applied.begin(), applied.end(), Pass::StrengthReduction) == applied.end())
      return false;
    ::llvm::LLVMContext ctx;
    auto copy = cloneInto(*s.prog.mod, ctx);
    heapLayout(layout);
    auto rv = buildRvsdg(*copy);
    PassSet ps;
    for (auto p : applied)
    {
      if (p == Pass::StrengthReduction)
        hideSignExtensions(rv->Rvsdg());
      ps.get(p).Run(*rv);
    }
    return replayRvsdg(c, *rv, s, sd, 300, nullptr).empty();
  };
  const std::string sextCause = "strength reduction relies on a sign-extended value that wraps";

  auto integrity = [&](const std::string & after, bool subject)
  {
    c.stage(after + ": walking the resulting graph", subject ? Blame::Subject : Blame::Setup);
    auto e = checkGraph(rv->Rvsdg());
    if (!e.empty())
    {
      if (subject)
        c.fail(after + " malformed graph: " + e, "after " + after + " the graph is malformed: " + e);
      c.discard("setup: malformed graph after " + after);
    }
  };
  auto execute = [&](const std::string & after, Sched sd, bool subject)
  {
    c.stage(after + ": execution", Blame::Harness);
    std::string d;
    try
    {
      d = replayRvsdg(c, *rv, s, sd, 300 + cfg.draw(64), nullptr);
    }
    catch (Unsupported & u)
    {
      c.discard("unsupported in the graph: " + u.what);
    }
    if (!d.empty())
    {
      if (subject)
      {
        auto k = d.substr(0, d.find(':'));
        if (causedBySignExtension(sd))
          c.fail(sextCause, "after " + after + ", " + schedText(sd) + ": " + d);
        c.fail(
            after + (sd.kind == Sched::Fifo ? " (in-order): " : " (reordered): ") + k,
            "after " + after + ", " + schedText(sd) + ": " + d);
      }
      c.discard("setup: wrong after " + after);
    }
  };
  auto many = [&](const std::string & after, unsigned n)
  {
    execute(after, Sched{}, true);
    for (unsigned i = 0; i < n; i++)
    {
      auto sd = drawSched(sch);
      c.note("schedule: " + schedText(sd) + "\n");
      execute(after, sd, true);
    }
  };
  auto backend = [&](const std::string & after, bool subject)
  {
    ::llvm::LLVMContext ctx3;
    c.stage(after + ": code generation", subject ? Blame::Subject : Blame::Setup);
    auto out = emitLlvm(*rv, ctx3);
    std::string err;
    ::llvm::raw_string_ostream os(err);
    if (::llvm::verifyModule(*out, &os))
    {
      if (c.verbose)
        c.note("--- emitted module\n" + printModule(*out));
      std::set<std::string> kinds;
      std::istringstream lines(err);
      for (std::string l; std::getline(lines, l);)
        if (!l.empty() && l.back() == '!')
          kinds.insert(l);
      std::string kind;
      for (auto & k : kinds)
        kind += " " + k;
      if (subject)
        c.fail("code generation: invalid module:" + kind, "the emitted LLVM module does not verify: " + os.str());
      c.discard("setup: invalid module");
    }
    if (c.verbose)
      c.note("--- emitted module\n" + printModule(*out));
    c.stage(after + ": emitted code", Blame::Harness);
    std::string d;
    try
    {
      d = replayLlvm(*out, s, 500 + cfg.draw(64));
    }
    catch (Unsupported & u)
    {
      c.discard("unsupported in the emitted module: " + u.what);
    }
    c.count("emitted modules executed");
    c.state(mix(s.trace.hash(), hashStr(printModule(*out))));
    if (!d.empty())
    {
      if (subject)
        c.fail(after + " code generation: " + d.substr(0, d.find(':')), "after " + after + ", the emitted program: " + d);
      c.discard("setup: wrong emitted code");
    }
  };
  auto finish = [&](const std::string & extra)
  {
    c.stage("end", Blame::Harness);
    auto & m = *s.prog.mod;
    c.sample(extra + "\n" + s.trace.str().substr(0, 1500) + "\nprogram:\n" + printModule(m).substr(0, 3000));
  };

  if (constr)
  {
    integrity("construction", true);
    if (cf->roundTrip)
    {
      execute("construction", Sched{}, true);
      backend("round trip", true);
    }
    else
      many("construction", 4);
    finish("construction");
    return;
  }

  PassSet ps;
  std::string names;
  auto & pl = c.ch["pipeline"];
  auto runPass = [&](Pass p, bool subject)
  {
    names += (names.empty() ? "" : ", ") + std::string(passName(p));
    applied.push_back(p);
    auto before = graphDigest(rv->Rvsdg());
    c.stage(passName(p), subject ? Blame::Subject : Blame::Setup);
    ps.get(p).Run(*rv);
    c.stage(std::string(passName(p)) + ": walking the resulting graph", subject ? Blame::Subject : Blame::Setup);
    auto after = graphDigest(rv->Rvsdg());
    bool changed = before != after;
    if (subject)
    {
      c.count(std::string("runs of ") + passName(p));
      if (changed)
        c.count(std::string("graph changed by ") + passName(p));
    }
    if (c.verbose)
      c.note(std::string("--- pass: ") + passName(p) + (changed ? "\n" + graphText(rv->Rvsdg()) : " (no change)\n"));
    integrity(passName(p), subject);
    return changed;
  };

  if (cf->pipeline)
  {
    unsigned n = 1 + pl.draw(10);
    if (pl.chance(1, 3))
    {
      // what `jlc -O3` asks for, possibly disturbed
      static const Pass o3[] = { Pass::Inline,    Pass::Invariant, Pass::Reduce,   Pass::Dne, Pass::AaRegionAware,
                                 Pass::StoreForward, Pass::Reduce, Pass::Cne,      Pass::Dne, Pass::Hoist,
                                 Pass::Invariant, Pass::Dne,       Pass::Reduce,   Pass::Cne, Pass::Dne,
                                 Pass::Sink,      Pass::Invariant, Pass::Dne,      Pass::Unroll, Pass::Invariant };
      for (auto p : o3)
        if (!pl.chance(1, 8))
          runPass(p, true);
    }
    else
      for (unsigned i = 0; i < n; i++)
        runPass(Pass(pl.draw(int(Pass::N))), true);
    c.note("pipeline: " + names + "\n");
    many("the pipeline", 1);
    backend("the pipeline", true);
    finish("pipeline: " + names);
    return;
  }

  unsigned n = pl.draw(cf->maxPrefix + 1);
  if (!cf->recipes.empty() && pl.chance(2, 5))
  {
    for (auto p : cf->recipes[pl.draw(cf->recipes.size())])
      if (!pl.chance(1, 10))
        runPass(p, false);
    n = pl.draw(2);
  }
  for (unsigned i = 0; i < n; i++)
  {
    Pass p;
    if (!cf->prefix.empty() && pl.chance(2, 3))
      p = cf->prefix[pl.draw(cf->prefix.size())];
    else
      p = Pass(pl.draw(int(Pass::N)));
    runPass(p, false);
  }
  if (!applied.empty())
  {
    execute("the preceding passes", Sched{}, false);
    for (int i = 0; i < 2; i++)
      execute("the preceding passes", drawSched(sch), false);
  }
  // a longjmp is only followed in the emitted program
  bool jumps = s.trace.jumps();
  if (jumps)
    backend("the preceding passes", false);
  auto p = cf->subject[pl.draw(cf->subject.size())];
  bool changed = runPass(p, true);
  for (int i = 0; i < 2 && !changed; i++)
    changed = runPass(p = cf->subject[pl.draw(cf->subject.size())], true);
  if (changed || cfg.chance(1, 8))
    many(passName(p), 3);
  if (pl.chance(1, 4))
  {
    runPass(p, true); // the same object again
    many(std::string(passName(p)), 1);
  }
  if (jumps)
    backend(passName(p), true);
  finish("passes: " + names);
}

}
