// The circuit engine: a function is turned into a handshaking circuit by the hardware backend, the
// circuit is simulated cycle by cycle, and the world around it - memory ports, the caller - stalls,
// delays and reorders as a seeded adversary decides. Whatever it does, the circuit has to compute what
// the function computes.
#include "alloc.hpp"
#include "engine.hpp"
#include "gen.hpp"
#include "hlsgen.hpp"
#include "llvm_interp.hpp"
#include "passes.hpp"
#include "rvsdg_interp.hpp"

#include <jlm/hls/HlsDotWriter.hpp>
#include <jlm/hls/backend/rvsdg2rhls/add-buffers.hpp>
#include <jlm/hls/backend/rvsdg2rhls/mem-conv.hpp>
#include <jlm/hls/backend/rvsdg2rhls/rvsdg2rhls.hpp>
#include <jlm/hls/ir/hls.hpp>
#include <jlm/llvm/ir/operators/GetElementPtr.hpp>
#include <jlm/llvm/ir/operators/Load.hpp>
#include <jlm/llvm/ir/operators/MemoryStateOperations.hpp>
#include <jlm/llvm/ir/operators/Store.hpp>
#include <jlm/llvm/ir/operators/alloca.hpp>
#include <jlm/llvm/ir/operators/call.hpp>
#include <jlm/llvm/ir/operators/lambda.hpp>
#include <jlm/llvm/ir/operators/operators.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/util/Statistics.hpp>

#include <llvm/AsmParser/Parser.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <deque>
#include <iostream>
#include <sstream>

namespace sim
{

namespace jl = jlm::llvm;
namespace jh = jlm::hls;
namespace rv = jlm::rvsdg;

namespace
{

enum class K
{
  Simple,
  DMux,
  Sink,
  Trigger,
  ForkConst,
  Fork,
  StateGate,
  LoopConst,
  PredBuf,
  Buffer,
  AddrQueue,
  Mux,
  Branch,
  Load,      // also from local memory
  DLoad,
  Store,
  LocalStore,
  LocalMem,
  MemResp,
  MemReq,
  Arg,
  Res,
  Port // responses of a memory port
};

struct Wire
{
  int prod = -1, pidx = 0, cons = -1, cidx = 0;
  bool v = false, r = false;
  uint64_t d = 0;
};

struct Req
{
  uint64_t addr = 0, data = 0;
  unsigned size = 0, id = 0;
  bool write = false;
};

struct Comp
{
  K k;
  std::string name;
  std::vector<int> in, out;
  // parameters
  std::function<Val(const std::vector<Val> &)> fn;
  std::vector<Val> args;
  unsigned width = 64; // of the result of fn
  size_t capacity = 0;
  size_t under = 0; // requests under way, or responses not yet delivered
  bool flag = false; // pass-through, combinatorial
  size_t nStates = 0, nLoads = 0;
  std::vector<unsigned> sizes; // LocalMem: element size; MemReq: access sizes in id order
  int port = -1;
  // state
  std::vector<uint8_t> reg;  // fired flags, valid flags
  std::deque<uint64_t> q;    // buffers, queues
  bool full = false;
  uint64_t data = 0;
  std::vector<uint64_t> mem; // LocalMem
  int sel = -1;              // granted request of this cycle
};

struct Broken
{
  std::string cls, msg;
};

struct PortEnv
{
  struct Entry
  {
    Req r;
    uint64_t data, due;
  };
  std::vector<Entry> q;
  int presented = -1; // index in q of the response offered until accepted
  bool ready = true;
  uint64_t burst = 0;
  int reqComp = -1, respComp = -1;
};

struct World // what the environment does; 0 everywhere is a prompt, orderly one
{
  unsigned pStall = 0, burst = 0, latency = 0, jitter = 0, outstanding = 64, outDelay = 0, callDelay = 0;
  bool ooo = false;
  uint64_t budget = 0, seed = 0;
};

class Circuit
{
public:
  std::vector<Wire> wires;
  std::vector<Comp> comps;
  std::vector<int> args, results; // Arg and Res components
  std::vector<const rv::Output *> argOf;
  std::vector<PortEnv> ports;
  std::vector<std::pair<int, int>> vorder, rorder; // (component, output) / (component, input)
  bool combV = false, combR = false;
  std::string combText;
  std::unordered_map<const rv::Output *, int> wireOf;
  std::vector<const rv::Input *> pendingIn;

  uint64_t cycle = 0, fired = 0, opStalls = 0;

  // -------------------------------------------------------------------------------- building

  static const rv::Output *
  resolve(const rv::Output * o)
  {
    for (;;)
    {
      if (auto a = dynamic_cast<const jh::BackEdgeArgument *>(o))
        o = const_cast<jh::BackEdgeArgument *>(a)->result()->origin();
      else if (auto a = dynamic_cast<const jh::EntryArgument *>(o))
        o = a->input()->origin();
      else if (auto so = dynamic_cast<const rv::StructuralOutput *>(o))
      {
        if (!dynamic_cast<const jh::LoopNode *>(so->node()))
          return o;
        o = const_cast<rv::StructuralOutput *>(so)->results.begin()->origin();
      }
      else
        return o;
    }
  }
  int
  newWire(int comp, int idx)
  {
    wires.push_back({ comp, idx });
    return int(wires.size()) - 1;
  }
  Comp &
  newComp(K k, const std::string & name, size_t nout)
  {
    comps.push_back({});
    auto & c = comps.back();
    c.k = k;
    c.name = name;
    for (size_t i = 0; i < nout; i++)
      c.out.push_back(newWire(int(comps.size()) - 1, int(i)));
    return c;
  }
  struct Todo
  {
    int comp;
    std::vector<const rv::Output *> origins;
  };
  std::vector<Todo> todo;

  void
  region(const rv::Region & r, RvsdgInterp & ops)
  {
    for (auto & n : const_cast<rv::Region &>(r).Nodes())
    {
      if (auto l = dynamic_cast<const jh::LoopNode *>(&n))
      {
        region(*l->subregion(), ops);
        continue;
      }
      auto s = dynamic_cast<const rv::SimpleNode *>(&n);
      if (!s)
        throw Broken{ "circuit: unconverted node", "the circuit contains " + n.DebugString() };
      simple(*s, ops);
    }
  }
  void
  simple(const rv::SimpleNode & n, RvsdgInterp & ops)
  {
    auto & op = n.GetOperation();
    auto is = [&](auto * p)
    {
      return dynamic_cast<decltype(p)>(&op);
    };
    K k = K::Simple;
    if (auto m = is((const jh::MuxOperation *)nullptr))
      k = m->discarding ? K::DMux : K::Mux;
    else if (is((const jh::SinkOperation *)nullptr))
      k = K::Sink;
    else if (is((const jh::TriggerOperation *)nullptr))
      k = K::Trigger;
    else if (auto f = is((const jh::ForkOperation *)nullptr))
      k = f->IsConstant() ? K::ForkConst : K::Fork;
    else if (is((const jh::StateGateOperation *)nullptr))
      k = K::StateGate;
    else if (is((const jh::LoopConstantBufferOperation *)nullptr))
      k = K::LoopConst;
    else if (is((const jh::PredicateBufferOperation *)nullptr))
      k = K::PredBuf;
    else if (is((const jh::BufferOperation *)nullptr))
      k = K::Buffer;
    else if (is((const jh::AddressQueueOperation *)nullptr))
      k = K::AddrQueue;
    else if (is((const jh::BranchOperation *)nullptr))
      k = K::Branch;
    else if (is((const jh::LoadOperation *)nullptr) || is((const jh::LocalLoadOperation *)nullptr))
      k = K::Load;
    else if (is((const jh::DecoupledLoadOperation *)nullptr))
      k = K::DLoad;
    else if (is((const jh::StoreOperation *)nullptr))
      k = K::Store;
    else if (is((const jh::LocalStoreOperation *)nullptr))
      k = K::LocalStore;
    else if (is((const jh::LocalMemoryOperation *)nullptr))
      k = K::LocalMem;
    else if (is((const jh::LocalMemoryResponseOperation *)nullptr)
             || is((const jh::LocalMemoryRequestOperation *)nullptr))
      return; // part of the memory
    else if (is((const jh::MemoryResponseOperation *)nullptr))
      k = K::MemResp;
    else if (is((const jh::MemoryRequestOperation *)nullptr))
      k = K::MemReq;
    else if (is((const jh::PrintOperation *)nullptr))
      throw Unsupported{ "print operation" };

    if (k == K::LocalMem)
    {
      localMem(n);
      return;
    }
    auto & c = newComp(k, n.DebugString(), n.noutputs());
    int ci = int(comps.size()) - 1;
    for (size_t i = 0; i < n.noutputs(); i++)
      wireOf[n.output(i)] = c.out[i];
    Todo t{ ci, {} };
    for (size_t i = 0; i < n.ninputs(); i++)
      t.origins.push_back(n.input(i)->origin());
    todo.push_back(t);
    switch (k)
    {
    case K::Simple:
    {
      if (n.noutputs() != 1)
        throw Broken{ "circuit: node with several outputs", "no hardware for " + n.DebugString() };
      auto ty = fromJlm(*n.output(0)->Type());
      if (ty->kind == Ty::State)
        break;
      if (!ty->scalar())
        throw Unsupported{ "type " + ty->str() + " in a circuit" };
      c.fn = ops.pureFunction(n);
      c.args.resize(n.ninputs());
      c.width = ty->kind == Ty::Int ? ty->width : unsigned(ty->store * 8);
      if (ty->kind == Ty::Ctl)
        c.width = 8;
      break;
    }
    case K::Fork:
      c.reg.assign(n.noutputs(), 0);
      break;
    case K::StateGate:
      c.reg.assign(n.noutputs(), 0);
      break;
    case K::Buffer:
    {
      auto b = dynamic_cast<const jh::BufferOperation *>(&op);
      c.capacity = b->Capacity();
      c.flag = b->IsPassThrough();
      break;
    }
    case K::DLoad:
      c.capacity = dynamic_cast<const jh::DecoupledLoadOperation *>(&op)->capacity;
      break;
    case K::AddrQueue:
    {
      auto b = dynamic_cast<const jh::AddressQueueOperation *>(&op);
      c.capacity = b->capacity;
      c.flag = b->combinatorial;
      break;
    }
    case K::PredBuf:
      c.full = true;
      c.data = 0;
      break;
    case K::Load:
      c.nStates = n.ninputs() - 2;
      c.reg.assign(c.nStates + 2, 0); // data, states, sent
      break;
    case K::Store:
      c.nStates = n.ninputs() - 3;
      break;
    case K::LocalStore:
      c.nStates = n.ninputs() - 2;
      break;
    case K::MemReq:
    {
      auto m = dynamic_cast<const jh::MemoryRequestOperation *>(&op);
      c.nLoads = m->get_nloads();
      for (auto & t : *m->GetLoadTypes())
        c.sizes.push_back(unsigned(jh::JlmSize(t.get()) / 8));
      for (auto & t : *m->GetStoreTypes())
        c.sizes.push_back(unsigned(jh::JlmSize(t.get()) / 8));
      break;
    }
    case K::MemResp:
      for (size_t i = 0; i < n.noutputs(); i++)
      {
        auto ty = fromJlm(*n.output(i)->Type());
        c.sizes.push_back(ty->kind == Ty::State ? 0 : ty->kind == Ty::Int ? ty->width : unsigned(ty->store * 8));
      }
      break;
    default:
      break;
    }
  }
  void
  localMem(const rv::SimpleNode & n)
  {
    auto at = std::dynamic_pointer_cast<const jl::ArrayType>(n.output(0)->Type());
    const rv::SimpleNode *resp = nullptr, *req = nullptr;
    for (size_t i = 0; i < 2; i++)
      for (auto & u : n.output(i)->Users())
      {
        auto x = rv::TryGetOwnerNode<rv::SimpleNode>(u);
        if (x && rv::is<jh::LocalMemoryResponseOperation>(x->GetOperation()))
          resp = x;
        else if (x && rv::is<jh::LocalMemoryRequestOperation>(x->GetOperation()))
          req = x;
        else
          throw Broken{ "circuit: local memory", "unexpected user of a local memory" };
      }
    if (!req || !resp)
      throw Broken{ "circuit: local memory", "local memory without ports" };
    auto & c = newComp(K::LocalMem, n.DebugString(), resp->noutputs());
    int ci = int(comps.size()) - 1;
    for (size_t i = 0; i < resp->noutputs(); i++)
      wireOf[resp->output(i)] = c.out[i];
    c.mem.assign(at->nelements(), 0x5a5a5a5a5a5a5a5aull);
    c.nLoads = resp->noutputs();
    c.reg.assign(c.nLoads, 0);
    auto et = fromJlm(at->element_type());
    c.width = et->kind == Ty::Int ? et->width : unsigned(et->store * 8);
    Todo t{ ci, {} };
    for (size_t i = 1; i < req->ninputs(); i++)
      t.origins.push_back(req->input(i)->origin());
    todo.push_back(t);
  }

  void
  build(const rv::LambdaNode & l, RvsdgInterp & ops)
  {
    auto & sr = *l.subregion();
    std::vector<const rv::Output *> respArgs;
    for (size_t i = 0; i < sr.narguments(); i++)
    {
      auto a = sr.argument(i);
      if (rv::is<jh::BundleType>(a->Type()))
      {
        respArgs.push_back(a);
        auto & c = newComp(K::Port, "memory port", 1);
        c.port = int(ports.size());
        wireOf[a] = c.out[0];
        ports.emplace_back();
        ports.back().respComp = int(comps.size()) - 1;
      }
      else
      {
        auto & c = newComp(K::Arg, "argument " + std::to_string(i), 1);
        wireOf[a] = c.out[0];
        args.push_back(int(comps.size()) - 1);
        argOf.push_back(a);
      }
    }
    region(sr, ops);
    size_t k = 0;
    for (size_t i = 0; i < sr.nresults(); i++)
    {
      auto r = sr.result(i);
      if (rv::is<jh::BundleType>(r->Type()))
      {
        auto o = resolve(r->origin());
        auto it = wireOf.find(o);
        if (it == wireOf.end() || comps[wires[it->second].prod].k != K::MemReq || k >= ports.size())
          throw Broken{ "circuit: memory port", "a memory port without requests" };
        int rc = wires[it->second].prod;
        ports[k].reqComp = rc;
        comps[rc].port = int(k);
        wires[it->second].cons = -2;
        k++;
      }
      else
      {
        newComp(K::Res, "result " + std::to_string(i), 0);
        results.push_back(int(comps.size()) - 1);
        todo.push_back({ int(comps.size()) - 1, { r->origin() } });
      }
    }
    if (k != ports.size())
      throw Broken{ "circuit: memory port", "memory ports do not match" };
    for (auto & t : todo)
      for (auto o : t.origins)
      {
        auto src = resolve(o);
        auto it = wireOf.find(src);
        if (it == wireOf.end())
          throw Broken{ "circuit: unknown source", comps[t.comp].name + " reads something that is not in the circuit" };
        auto & w = wires[it->second];
        if (w.cons != -1)
          throw Broken{ "circuit: wire with two readers",
                        "an output of " + comps[w.prod].name + " is read by " + comps[w.cons].name + " and "
                            + comps[t.comp].name };
        w.cons = t.comp;
        w.cidx = int(comps[t.comp].in.size());
        comps[t.comp].in.push_back(it->second);
      }
    order();
    // the response of a memory port is told apart by the identity of the request
    for (auto & c : comps)
      if (c.k == K::MemReq)
        c.reg.assign(1, 0);
  }

  // ------------------------------------------------------------- dependencies within a cycle

  std::vector<int>
  vdeps(const Comp & c, int o) const // input indices the validity of output o depends on
  {
    std::vector<int> r;
    auto all = [&](size_t from, size_t to)
    {
      for (size_t i = from; i < to; i++)
        r.push_back(int(i));
    };
    switch (c.k)
    {
    case K::Buffer:
      if (c.flag)
        all(0, 1);
      break;
    case K::AddrQueue:
      all(0, c.flag ? 2 : 1);
      break;
    case K::Load:
      if (o == 0)
        r.push_back(int(c.in.size()) - 1);
      else if (o == int(c.out.size()) - 1)
        all(0, 1 + c.nStates);
      break;
    case K::DLoad:
      r.push_back(o == 0 ? 1 : 0);
      break;
    case K::Store:
      if (o < int(c.nStates))
        r.push_back(int(c.in.size()) - 1);
      else
        all(0, 2 + c.nStates);
      break;
    case K::LocalMem:
    case K::Arg:
    case K::Port:
      break;
    default:
      all(0, c.in.size());
    }
    return r;
  }
  std::vector<int>
  rdeps(const Comp & c, int i) const // output indices on whose readiness that of input i depends
  {
    std::vector<int> r;
    auto all = [&](size_t from, size_t to)
    {
      for (size_t k = from; k < to; k++)
        r.push_back(int(k));
    };
    switch (c.k)
    {
    case K::Sink:
    case K::ForkConst:
    case K::PredBuf:
    case K::Buffer:
    case K::LocalMem:
    case K::Res:
    case K::MemReq:
      break;
    case K::AddrQueue:
      if (i == 0)
        all(0, 1);
      break;
    case K::Load:
      if (i <= int(c.nStates))
        r.push_back(int(c.out.size()) - 1);
      break;
    case K::DLoad:
      if (i == 0)
        r.push_back(1);
      break;
    case K::Store:
      if (i < 2 + int(c.nStates))
        r.push_back(int(c.nStates));
      else
        all(0, c.nStates);
      break;
    default:
      all(0, c.out.size());
    }
    return r;
  }
  void
  order()
  {
    // depth first over wires; a back edge is a combinational cycle
    std::vector<int> mark(wires.size(), 0);
    std::function<void(int)> v = [&](int w)
    {
      if (mark[w])
      {
        if (mark[w] == 1 && !combV)
        {
          combV = true;
          combText = "the validity of " + comps[wires[w].prod].name + " depends on itself";
        }
        return;
      }
      mark[w] = 1;
      auto & c = comps[wires[w].prod];
      for (auto i : vdeps(c, wires[w].pidx))
        v(c.in[i]);
      mark[w] = 2;
      vorder.push_back({ wires[w].prod, wires[w].pidx });
    };
    for (size_t w = 0; w < wires.size(); w++)
      v(int(w));
    std::fill(mark.begin(), mark.end(), 0);
    std::function<void(int)> r = [&](int w)
    {
      if (mark[w])
      {
        if (mark[w] == 1 && !combR)
        {
          combR = true;
          combText = "the readiness of " + comps[wires[w].cons].name + " depends on itself";
        }
        return;
      }
      mark[w] = 1;
      if (wires[w].cons >= 0)
      {
        auto & c = comps[wires[w].cons];
        for (auto o : rdeps(c, wires[w].cidx))
          r(c.out[o]);
        rorder.push_back({ wires[w].cons, wires[w].cidx });
      }
      mark[w] = 2;
    };
    for (size_t w = 0; w < wires.size(); w++)
      r(int(w));
  }

  // -------------------------------------------------------------------------------- one cycle

  bool
  IV(const Comp & c, size_t i) const
  {
    return wires[c.in[i]].v;
  }
  uint64_t
  ID(const Comp & c, size_t i) const
  {
    return wires[c.in[i]].d;
  }
  bool
  OR(const Comp & c, size_t i) const
  {
    return wires[c.out[i]].r;
  }
  bool
  allV(const Comp & c, size_t from, size_t to) const
  {
    for (size_t i = from; i < to; i++)
      if (!IV(c, i))
        return false;
    return true;
  }

  void
  forward(int ci, int o)
  {
    auto & c = comps[ci];
    auto & w = wires[c.out[o]];
    bool v = false;
    uint64_t d = w.d;
    switch (c.k)
    {
    case K::Simple:
    case K::DMux:
      v = allV(c, 0, c.in.size());
      if (v && c.k == K::DMux)
      {
        auto p = ID(c, 0);
        d = p + 1 < c.in.size() ? ID(c, 1 + p) : 0xdeadbeefcafef00dull;
      }
      else if (v && c.fn)
      {
        uint64_t h = uint64_t(ci) + 1;
        for (size_t i = 0; i < c.in.size(); i++)
        {
          c.args[i] = Val(ID(c, i));
          h = mix(h, c.args[i].b);
        }
        Val x;
        try
        {
          x = c.fn(c.args);
        }
        catch (Ub &)
        {
          x = Val::poison();
        }
        d = (x.p ? h : x.b) & maskW(c.width); // in hardware there are always some bits
      }
      break;
    case K::Trigger:
      v = allV(c, 0, 2);
      d = ID(c, 1);
      break;
    case K::ForkConst:
      v = IV(c, 0);
      d = ID(c, 0);
      break;
    case K::Fork:
      v = IV(c, 0) && !c.reg[o];
      d = ID(c, 0);
      break;
    case K::StateGate:
      v = allV(c, 0, c.in.size()) && !c.reg[o];
      d = ID(c, o);
      break;
    case K::LoopConst:
    {
      bool pv = IV(c, 0), p = ID(c, 0) != 0;
      v = pv && (p || IV(c, 1));
      d = p ? c.data : ID(c, 1);
      break;
    }
    case K::PredBuf:
      v = c.full || IV(c, 0);
      d = c.full ? c.data : ID(c, 0);
      break;
    case K::Buffer:
      v = !c.q.empty();
      d = v ? c.q.front() : d;
      if (!v && c.flag)
      {
        v = IV(c, 0);
        d = ID(c, 0);
      }
      break;
    case K::AddrQueue:
    {
      v = IV(c, 0);
      d = ID(c, 0);
      for (auto a : c.q)
        if (a == d)
          v = false;
      if (c.flag && IV(c, 1) && ID(c, 1) == d)
        v = false;
      break;
    }
    case K::Mux:
      if (IV(c, 0))
      {
        auto p = ID(c, 0) + 1;
        if (p < c.in.size())
        {
          v = IV(c, p);
          d = ID(c, p);
        }
      }
      break;
    case K::Branch:
      v = IV(c, 0) && IV(c, 1) && ID(c, 0) == uint64_t(o);
      d = ID(c, 1);
      break;
    case K::Load:
    {
      auto sent = c.reg[c.nStates + 1];
      if (o == 0)
      {
        bool resp = sent && IV(c, c.in.size() - 1);
        v = c.reg[0] || resp;
        d = c.reg[0] ? c.data : ID(c, c.in.size() - 1);
      }
      else if (o <= int(c.nStates))
        v = c.reg[o];
      else
      {
        v = !sent && allV(c, 0, 1 + c.nStates);
        for (size_t i = 0; i <= c.nStates; i++)
          v = v && !c.reg[i];
        d = ID(c, 0);
      }
      break;
    }
    case K::DLoad: // room for capacity responses, and no more requests than there is room for
      if (o == 0)
      {
        v = !c.q.empty() || IV(c, 1);
        d = c.q.empty() ? ID(c, 1) : c.q.front();
      }
      else
      {
        v = IV(c, 0) && c.under < c.capacity;
        d = ID(c, 0);
      }
      break;
    case K::Store:
      if (o < int(c.nStates))
        v = IV(c, c.in.size() - 1);
      else
      {
        v = allV(c, 0, 2 + c.nStates);
        d = ID(c, o - c.nStates);
      }
      break;
    case K::LocalStore: // the states leave when the request is taken
      if (o < int(c.nStates))
      {
        v = allV(c, 0, c.in.size());
      }
      else
      {
        v = allV(c, 0, c.in.size());
        d = ID(c, o - c.nStates);
      }
      break;
    case K::LocalMem:
      v = c.reg[o];
      d = c.data;
      break;
    case K::MemResp:
    {
      auto & p = ports[comps[wires[c.in[0]].prod].port];
      v = IV(c, 0) && p.q[p.presented].r.id == unsigned(o);
      if (v)
        d = c.sizes[o] ? ID(c, 0) & maskW(c.sizes[o]) : 0;
      break;
    }
    case K::MemReq:
    {
      c.sel = -1;
      for (size_t i = 0; i < c.nLoads && c.sel < 0; i++)
        if (IV(c, i))
          c.sel = int(i);
      for (size_t i = c.nLoads; i < c.in.size() && c.sel < 0; i += 2)
        if (IV(c, i) && IV(c, i + 1))
          c.sel = int(i);
      v = c.sel >= 0;
      break;
    }
    case K::Arg:
      v = c.full;
      d = c.data;
      break;
    case K::Port:
    {
      auto & p = ports[c.port];
      v = p.presented >= 0;
      if (v)
        d = p.q[p.presented].data;
      break;
    }
    case K::Sink:
    case K::Res:
      break;
    }
    w.v = v;
    w.d = d;
  }

  void
  backward(int ci, int i)
  {
    auto & c = comps[ci];
    bool r = false;
    switch (c.k)
    {
    case K::Simple:
    case K::DMux:
      r = OR(c, 0) && allV(c, 0, c.in.size());
      break;
    case K::Sink:
      r = true;
      break;
    case K::Trigger:
      r = OR(c, 0) && IV(c, 1 - i);
      break;
    case K::ForkConst:
      r = true;
      break;
    case K::Fork:
      r = IV(c, 0);
      for (size_t o = 0; o < c.out.size(); o++)
        r = r && (c.reg[o] || OR(c, o));
      break;
    case K::StateGate:
      r = allV(c, 0, c.in.size());
      for (size_t o = 0; o < c.out.size(); o++)
        r = r && (c.reg[o] || OR(c, o));
      break;
    case K::LoopConst:
    {
      bool pv = IV(c, 0), p = ID(c, 0) != 0;
      if (i == 0)
        r = OR(c, 0) && pv && (p || IV(c, 1));
      else
        r = OR(c, 0) && pv && !p;
      break;
    }
    case K::PredBuf:
      r = !c.full;
      break;
    case K::Buffer:
      r = c.q.size() < c.capacity;
      break;
    case K::AddrQueue:
      if (i == 0)
        r = OR(c, 0) && wires[c.out[0]].v;
      else if (i == 1)
        r = c.q.size() < c.capacity;
      else
        r = !c.q.empty();
      break;
    case K::Mux:
    {
      auto p = ID(c, 0) + 1;
      if (IV(c, 0) && p < c.in.size())
      {
        if (i == 0)
          r = OR(c, 0) && IV(c, p);
        else
          r = uint64_t(i) == p && OR(c, 0);
      }
      break;
    }
    case K::Branch:
      if (IV(c, 0))
      {
        auto o = ID(c, 0);
        if (o < c.out.size())
          r = OR(c, o) && (i == 1 || IV(c, 1));
      }
      break;
    case K::Load:
      if (i <= int(c.nStates))
        r = OR(c, c.out.size() - 1) && wires[c.out.back()].v;
      else
        r = c.reg[c.nStates + 1];
      break;
    case K::DLoad:
      r = i == 0 ? OR(c, 1) && c.under < c.capacity : true;
      break;
    case K::Store:
      if (i < 2 + int(c.nStates))
        r = OR(c, c.nStates) && wires[c.out[c.nStates]].v;
      else
      {
        r = true;
        for (size_t o = 0; o < c.nStates; o++)
          r = r && OR(c, o);
      }
      break;
    case K::LocalStore:
      r = allV(c, 0, c.in.size());
      for (size_t o = 0; o < c.out.size(); o++)
        r = r && OR(c, o);
      break;
    case K::LocalMem:
    {
      // stores first, one access per cycle
      int sel = -1;
      for (size_t k = c.nLoads; k < c.in.size() && sel < 0; k += 2)
        if (IV(c, k) && IV(c, k + 1))
          sel = int(k);
      for (size_t k = 0; k < c.nLoads && sel < 0; k++)
        if (IV(c, k))
          sel = int(k);
      c.sel = sel;
      r = sel >= 0 && (i == sel || (sel >= int(c.nLoads) && i == sel + 1));
      break;
    }
    case K::MemResp:
    {
      auto & p = ports[comps[wires[c.in[0]].prod].port];
      if (IV(c, 0))
      {
        auto id = p.q[p.presented].r.id;
        r = id < c.out.size() && OR(c, id);
      }
      break;
    }
    case K::MemReq:
      r = c.sel >= 0 && ports[c.port].ready
       && (i == c.sel || (c.sel >= int(c.nLoads) && i == c.sel + 1));
      break;
    case K::Res:
      r = !c.full;
      break;
    case K::Arg:
    case K::Port:
      break;
    }
    wires[c.in[i]].r = r;
  }

  bool
  IF(const Comp & c, size_t i) const // input i is consumed
  {
    return wires[c.in[i]].v && wires[c.in[i]].r;
  }
  bool
  OF(const Comp & c, size_t i) const
  {
    return wires[c.out[i]].v && wires[c.out[i]].r;
  }

  bool // anything changed?
  tick(Comp & c)
  {
    switch (c.k)
    {
    case K::Fork:
    case K::StateGate:
    {
      bool any = false;
      if (IF(c, 0))
      {
        for (auto & f : c.reg)
          f = 0;
        any = true;
      }
      else
        for (size_t o = 0; o < c.out.size(); o++)
          if (OF(c, o))
          {
            c.reg[o] = 1;
            any = true;
          }
      return any;
    }
    case K::LoopConst:
      if (IF(c, 1))
      {
        c.data = ID(c, 1);
        return true;
      }
      return false;
    case K::PredBuf:
    {
      bool i = IF(c, 0), o = OF(c, 0);
      if (i)
      {
        c.full = true;
        c.data = ID(c, 0);
      }
      if (o)
        c.full = false;
      return i || o;
    }
    case K::Buffer:
    {
      bool i = IF(c, 0), o = OF(c, 0), was = c.q.empty();
      if (o && !was)
        c.q.pop_front();
      if (i && !(o && was)) // passed through otherwise
        c.q.push_back(ID(c, 0));
      return i || o;
    }
    case K::AddrQueue:
    {
      bool e = IF(c, 1), q = IF(c, 2);
      if (q)
        c.q.pop_front();
      if (e)
        c.q.push_back(ID(c, 1));
      return e || q;
    }
    case K::Load:
    {
      bool any = false;
      auto & sent = c.reg[c.nStates + 1];
      bool resp = sent && IV(c, c.in.size() - 1);
      if (OF(c, c.out.size() - 1))
      {
        sent = 1;
        for (size_t i = 1; i <= c.nStates; i++)
          c.reg[i] = 1;
        any = true;
      }
      else
        for (size_t i = 1; i <= c.nStates; i++)
          if (OF(c, i))
          {
            c.reg[i] = 0;
            any = true;
          }
      if (resp)
      {
        sent = 0;
        c.reg[0] = 1;
        c.data = ID(c, c.in.size() - 1);
        any = true;
      }
      if (OF(c, 0))
      {
        c.reg[0] = 0;
        any = true;
      }
      return any;
    }
    case K::DLoad:
    {
      bool req = OF(c, 1), resp = IF(c, 1), out = OF(c, 0), was = c.q.empty();
      if (out && !was)
        c.q.pop_front();
      if (resp && !(out && was))
        c.q.push_back(ID(c, 1));
      c.under += size_t(req) - size_t(out);
      return req || resp || out;
    }
    case K::LocalMem:
    {
      bool any = false;
      for (size_t o = 0; o < c.out.size(); o++)
        if (c.reg[o])
        {
          if (!OR(c, o))
            throw Broken{ "circuit: lost response of a local memory", "a response of " + c.name + " is not taken" };
          c.reg[o] = 0;
          any = true;
        }
      if (c.sel >= 0)
      {
        any = true;
        auto a = ID(c, c.sel);
        if (a >= c.mem.size())
          throw Broken{ "circuit: local memory accessed outside its bounds",
                        c.name + " is accessed at index " + std::to_string(a) };
        if (c.sel >= int(c.nLoads))
          c.mem[a] = ID(c, c.sel + 1);
        else
        {
          c.data = c.mem[a] & maskW(c.width);
          c.reg[c.sel] = 1;
        }
      }
      return any;
    }
    case K::Arg:
      if (OF(c, 0))
      {
        c.full = false;
        return true;
      }
      return false;
    case K::Res:
      if (IF(c, 0))
      {
        c.full = true;
        c.data = ID(c, 0);
        return true;
      }
      return false;
    default:
      return false;
    }
  }
  void
  settle()
  {
    if (combV)
    {
      for (auto & w : wires)
        w.v = false;
    }
    for (int k = 0;; k++)
    {
      for (auto & [c, o] : vorder)
        forward(c, o);
      if (!combV || k > 50)
        break;
    }
    if (combR)
      for (auto & w : wires)
        w.r = false;
    for (int k = 0;; k++)
    {
      for (auto & [c, i] : rorder)
        backward(c, i);
      if (!combR || k > 50)
        break;
    }
  }
  std::string
  waiting() const
  {
    std::string s;
    int n = 0;
    for (auto & w : wires)
      if (w.v && !w.r && n++ < 200)
        s += "\n  #" + std::to_string(w.prod) + "." + std::to_string(w.pidx) + " " + comps[w.prod].name + " -> #" + std::to_string(w.cons) + " " + (w.cons >= 0 ? comps[w.cons].name : "outside") + " is valid, not taken";
    return s;
  }
  std::string
  text() const
  {
    std::string s;
    for (size_t i = 0; i < comps.size(); i++)
    {
      auto & c = comps[i];
      s += "  #" + std::to_string(i) + " " + c.name + (c.k == K::Buffer && c.flag ? " (pass-through)" : "") + " <-";
      for (auto w : c.in)
        s += " #" + std::to_string(wires[w].prod) + "." + std::to_string(wires[w].pidx);
      s += "\n";
    }
    return s;
  }
};

// ---------------------------------------------------------------------------------- reference

struct StoreEv
{
  unsigned size;
  uint64_t v;
  bool poison;
};
using StoreLog = std::map<std::pair<std::string, uint64_t>, std::vector<StoreEv>>;

struct CallRec
{
  std::vector<uint64_t> scalars;
  Val ret;
  StoreLog stores;
  std::map<std::string, std::pair<std::vector<uint8_t>, std::vector<uint8_t>>> after;
  uint64_t steps = 0;
};

struct Quiet // the backend reports what it does on the standard output
{
  std::streambuf * old = std::cout.rdbuf(nullptr);
  ~Quiet()
  {
    std::cout.rdbuf(old);
    std::cout.clear();
  }
};

std::string
unsupportedLlvm(::llvm::Module & m)
{
  for (auto & f : m)
    for (auto & i : ::llvm::instructions(f))
    {
      auto bad = [](::llvm::Type * t)
      {
        return t->isVectorTy() || t->isStructTy() || (t->isIntegerTy() && t->getIntegerBitWidth() > 64);
      };
      if (bad(i.getType()))
        return "type";
      if (auto c = ::llvm::dyn_cast<::llvm::CallInst>(&i))
      {
        auto g = c->getCalledFunction();
        if (!g || g->isDeclaration())
          return "call of " + (g ? g->getName().str() : "a pointer");
      }
      if (::llvm::isa<::llvm::UnreachableInst>(i))
        return "unreachable";
      if (auto sel = ::llvm::dyn_cast<::llvm::SelectInst>(&i))
        if (sel->getType()->isPointerTy())
          return "selection of a pointer";
    }
  return "";
}

// does every access of local arrays have the form the backend expects?
std::string
allocaForms(::llvm::Module & m)
{
  for (auto & f : m)
    for (auto & i : ::llvm::instructions(f))
      if (auto a = ::llvm::dyn_cast<::llvm::AllocaInst>(&i))
      {
        auto at = ::llvm::dyn_cast<::llvm::ArrayType>(a->getAllocatedType());
        if (!at)
          return "scalar in memory";
        for (auto u : a->users())
        {
          auto g = ::llvm::dyn_cast<::llvm::GetElementPtrInst>(u);
          if (!g || g->getSourceElementType() != at || g->getNumIndices() != 2)
            return "local array used in another way";
          for (auto v : g->users())
          {
            if (auto l = ::llvm::dyn_cast<::llvm::LoadInst>(v))
            {
              if (l->getType() != at->getElementType())
                return "local array element used as another type";
            }
            else if (auto s = ::llvm::dyn_cast<::llvm::StoreInst>(v))
            {
              if (s->getValueOperand() == g || s->getValueOperand()->getType() != at->getElementType())
                return "local array element used as another type";
            }
            else
              return "address of a local array element";
          }
        }
      }
  return "";
}
}

// the generator of FIRRTL knows undefined values, but not poison
static bool
usesPoison(const rv::Region & r)
{
  for (auto & n : r.Nodes())
  {
    if (auto s = dynamic_cast<const rv::SimpleNode *>(&n))
      if (rv::is<jl::PoisonValueOperation>(s->GetOperation()))
        return true;
    if (auto s = dynamic_cast<const rv::StructuralNode *>(&n))
      for (size_t k = 0; k < s->nsubregions(); k++)
        if (usesPoison(*s->subregion(k)))
          return true;
  }
  return false;
}

void
runHls(Ctx & c)
{
  c.stage("generator", Blame::Harness);
  auto prog = generateHls(c.ch["prog"]);
  auto & cfg = c.ch["cfg"];
  auto & envS = c.ch["env"];
  ::llvm::LLVMContext ctx;
  ::llvm::SMDiagnostic diag;
  auto mod = ::llvm::parseAssemblyString(prog.text, diag, ctx);
  if (!mod)
  {
    fprintf(stderr, "%s\n%s\n", diag.getMessage().str().c_str(), prog.text.c_str());
    abort();
  }
  mod->setDataLayout("e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128");
  mod->setTargetTriple("x86_64-unknown-linux-gnu");
  runLlvmPasses(*mod, "function(mem2reg)");

  // ---- reference execution of a few calls
  const uint64_t salt = 1 + cfg.draw(16);
  unsigned ncalls = 1 + cfg.draw(3);
  ProgMeta meta;
  std::vector<CallRec> calls(ncalls);
  auto fill = [&](Mem & mem, std::vector<Obj *> & objs)
  {
    Rng r(mix(salt, 1234));
    for (size_t i = 0; i < prog.arrayArgs.size(); i++)
    {
      auto [w, n] = prog.arrayArgs[i];
      auto o = mem.alloc(Obj::EnvObj, uint64_t(w / 8) * n, 16, "arg" + std::to_string(i));
      for (auto & b : o->d)
        b = uint8_t(r.next() % 3 ? r.next() % 5 : r.next());
      std::fill(o->p.begin(), o->p.end(), 0);
      objs.push_back(o);
    }
  };
  std::map<std::string, std::pair<std::vector<uint8_t>, std::vector<uint8_t>>> initial;
  std::map<std::string, bool> roGlobal;
  c.stage("reference execution", Blame::Harness);
  uint64_t refSteps = 0;
  {
    Mem mem(salt);
    Trace t;
    Env e(mem, meta, t, nullptr);
    std::vector<Obj *> objs;
    CallRec * cur = nullptr;
    mem.onStore = [&](Obj * o, uint64_t off, const Ty * ty, const Val & v)
    {
      if (cur && o->kind != Obj::Stack)
        cur->stores[{ o->name, off }].push_back({ unsigned(ty->store), v.b, v.p });
    };
    try
    {
      LlvmInterp in(*mod, mem, e, 20000);
      fill(mem, objs);
      for (auto & g : prog.globals)
        objs.push_back(mem.byName.at(g));
      for (auto o : objs)
      {
        initial[o->name] = { o->d, o->p };
        roGlobal[o->name] = o->readonly;
      }
      for (auto & cr : calls)
      {
        cur = &cr;
        std::vector<Val> a;
        for (size_t i = 0; i < prog.arrayArgs.size(); i++)
          a.push_back(Val(objs[i]->base));
        for (auto w : prog.scalarArgs)
        {
          uint64_t v = cfg.chance(1, 3) ? cfg.draw(1u << 30) * 0x9e3779b97f4a7c15ull : cfg.draw(20);
          v &= maskW(w);
          cr.scalars.push_back(v);
          a.push_back(Val(v));
        }
        auto before = in.steps;
        cr.ret = in.callAddr(mem.byName.at("f")->base, a);
        cr.steps = in.steps - before;
        refSteps += cr.steps;
        for (auto o : objs)
          cr.after[o->name] = { o->d, o->p };
      }
    }
    catch (Unsupported & u)
    {
      c.discard("reference: unsupported: " + u.what);
    }
    catch (Ub & u)
    {
      c.discard("reference: undefined behaviour: " + u.what);
    }
    catch (StepLimit &)
    {
      c.discard("reference: step limit");
    }
  }
  c.count("reference steps", refSteps);
  c.digest(mix(refSteps, hashStr(prog.text)));

  // ---- the compiler
  auto & ps = c.ch["passes"];
  std::string pipe;
  {
    static const char * fp[] = { "instcombine<no-verify-fixpoint>", "simplifycfg", "gvn", "early-cse", "loop-simplify",
                                 "loop(loop-rotate)", "loop-mssa(licm)", "lcssa", "jump-threading", "reassociate",
                                 "dce", "sink" };
    unsigned n = ps.pick({ 4, 2, 2, 1, 1 });
    for (unsigned i = 0; i < n; i++)
      pipe += (pipe.empty() ? "" : ",") + std::string(fp[ps.draw(12)]);
    if (!pipe.empty())
      runLlvmPasses(*mod, "function(" + pipe + ")");
  }
  if (auto u = unsupportedLlvm(*mod); !u.empty())
    c.discard("input outside the backend's domain: " + u);
  if (auto u = allocaForms(*mod); !u.empty())
    c.discard("input outside the backend's domain: " + u + (pipe.empty() ? "" : " (after LLVM passes)"));
  if (c.verbose)
    c.note("--- program (LLVM passes: " + pipe + ")\n" + printModule(*mod));
  static const size_t lats[] = { 10, 1, 2, 5, 20, 40 };
  size_t lat = lats[cfg.draw(6)];
  uint64_t layout = cfg.draw(4) == 0 ? 0 : 1 + cfg.draw(1 << 16);
  heapLayout(layout);
  jh::setMemoryLatency(lat);
  std::unique_ptr<jl::LlvmRvsdgModule> hw;
  ::llvm::LLVMContext ctx2;
  {
    Quiet quiet;
    c.stage("construction", Blame::Setup);
    auto rm = buildRvsdg(*mod);
    c.stage("extraction of the function", Blame::Subject);
    auto fm = jh::split_hls_function(*rm, "f");
    c.stage("code generation for the extracted function", Blame::Subject);
    auto lm = emitLlvm(*fm, ctx2);
    std::string err;
    ::llvm::raw_string_ostream os(err);
    if (::llvm::verifyModule(*lm, &os))
      c.fail("extraction: invalid module", "the extracted module does not verify: " + os.str());
    c.stage("mem2reg", Blame::Harness);
    runLlvmPasses(*lm, "function(mem2reg)");
    if (c.verbose)
      c.note("--- extracted function\n" + printModule(*lm));
    if (auto u = allocaForms(*lm); !u.empty())
      c.discard("input outside the backend's domain: " + u + " (after extraction)");
    c.stage("construction", Blame::Setup);
    hw = buildRvsdg(*lm);
    // one base per access
    for (auto & n : hw->Rvsdg().GetRootRegion().Nodes())
      if (auto l = dynamic_cast<rv::LambdaNode *>(&n))
      {
        std::set<rv::Node *> seen;
        for (auto & tp : jh::TracePointerArguments(l))
          for (auto v : { &tp.loadNodes, &tp.storeNodes })
            for (auto x : std::set<rv::Node *>(v->begin(), v->end()))
              if (!seen.insert(x).second)
                c.discard("input outside the backend's domain: access with two bases");
      }
    if (usesPoison(hw->Rvsdg().GetRootRegion()))
      c.discard("input outside the backend's domain: poison");
    if (c.verbose)
      c.note("--- RVSDG\n" + graphText(hw->Rvsdg()));
    // (local arrays are supported in a few forms only, others run into one of many assertions)
    bool locals = false;
    for (auto & f : *lm)
      for (auto & i : ::llvm::instructions(f))
        locals = locals || ::llvm::isa<::llvm::AllocaInst>(i);
    if (locals)
      c.count("programs with local arrays");
    c.stage(locals ? "hardware generation with local arrays" : "hardware generation",
            locals ? Blame::Setup : Blame::Subject);
    jh::HlsDotWriter dw;
    jlm::util::StatisticsCollector sc;
    jh::createTransformationSequence(dw, false)->Run(*hw, sc);
  }
  c.stage("walking the circuit", Blame::Subject);
  const rv::LambdaNode * lambda = nullptr;
  for (auto & n : hw->Rvsdg().GetRootRegion().Nodes())
    if (auto l = dynamic_cast<rv::LambdaNode *>(&n))
      lambda = l;
  if (!lambda)
    c.fail("circuit: no function", "no function is left after hardware generation");
  if (c.verbose)
    c.note("--- circuit graph\n" + graphText(hw->Rvsdg()));

  // ---- the interface of the circuit
  {
    size_t values = 0, results = 0;
    auto isValue = [](const rv::Type & t)
    {
      return !dynamic_cast<const jh::BundleType *>(&t) && fromJlm(t)->kind != Ty::State;
    };
    for (auto a : lambda->GetFunctionArguments())
      values += isValue(*a->Type());
    for (auto r : lambda->GetFunctionResults())
      results += isValue(*r->Type());
    if (values != prog.arrayArgs.size() + prog.scalarArgs.size() || results != (prog.retW ? 1u : 0u))
    {
      // a function that returns a parameter?
      for (size_t i = 0; prog.retW && !results && i < prog.scalarArgs.size(); i++)
      {
        bool same = true;
        for (auto & cr : calls)
          same = same && (cr.ret.p || (cr.ret.b & maskW(prog.retW)) == (cr.scalars[i] & maskW(prog.retW)));
        if (same)
          c.fail("circuit: the result of a function that returns a parameter is lost",
                 "the function returns its scalar parameter " + std::to_string(i) + ", the circuit has "
                     + std::to_string(values) + " parameters and no result");
      }
      c.fail("circuit: interface", "the function has " + std::to_string(prog.arrayArgs.size() + prog.scalarArgs.size())
                                       + " parameters and " + (prog.retW ? "a" : "no") + " result, the circuit "
                                       + std::to_string(values) + " and " + std::to_string(results));
    }
  }

  // ---- executions in hostile environments
  unsigned nexec = 3;
  for (unsigned x = 0; x < nexec; x++)
  {
    World W;
    if (x > 0)
    {
      static const unsigned stall[] = { 0, 10, 30, 50, 80, 95 };
      W.pStall = stall[envS.draw(6)];
      W.burst = envS.pick({ 3, 1, 1 }) * 10;
      static const unsigned ls[] = { 0, 1, 2, 5, 10, 30, 100 };
      W.latency = ls[envS.draw(7)];
      W.jitter = ls[envS.draw(6)];
      W.ooo = envS.chance(1, 3);
      static const unsigned outs[] = { 64, 1, 2, 4, 8 };
      W.outstanding = outs[envS.draw(5)];
      W.outDelay = ls[envS.draw(6)];
      W.callDelay = ls[envS.draw(6)];
      static const unsigned bud[] = { 0, 4000, 4000, 1000, 300, 100, 30, 10 };
      W.budget = bud[envS.draw(8)];
      W.seed = envS.draw(1 << 20);
    }
    std::ostringstream wt;
    wt << "memory stalls " << W.pStall << "% in bursts of " << W.burst + 1 << ", latency " << W.latency << "+0.." << W.jitter
       << (W.ooo ? ", responses out of order" : "") << ", " << W.outstanding << " outstanding, faults for " << W.budget
       << " cycles, seed " << W.seed;
    std::string where = "hardware for memory latency " + std::to_string(lat) + ", " + wt.str();
    c.stage("circuit construction", Blame::Harness);
    Mem mem(salt);
    Trace t;
    Env e(mem, meta, t, nullptr);
    std::vector<Obj *> objs;
    fill(mem, objs);
    for (auto & g : prog.globals)
    {
      auto & in = initial.at(g);
      auto o = mem.alloc(Obj::Global, in.first.size(), 16, g);
      o->d = in.first;
      o->p = in.second;
      o->readonly = roGlobal.at(g);
      objs.push_back(o);
    }
    Circuit C;
    uint64_t cyc = 0;
    std::string history;
    try
    {
      RvsdgInterp ops(mem, e, meta);
      C.build(*lambda, ops);
      if (x == 0)
      {
        c.count("circuit components", C.comps.size());
        c.count("memory ports", C.ports.size());
        for (auto & k : C.comps)
          if (k.k == K::LocalMem || k.k == K::AddrQueue || k.k == K::DLoad || k.k == K::StateGate || k.k == K::DMux
              || k.k == K::Mux || k.k == K::Load || k.k == K::Store)
            c.count("components: " + k.name.substr(0, k.name.find_first_of("[ i", 8)));
        if (c.verbose)
          c.note("--- circuit\n" + C.text());
      }
      if (C.combV || C.combR)
      {
        c.count("circuits with a combinational cycle");
        c.fail("circuit: combinational cycle", "the circuit has a combinational cycle: " + C.combText);
      }
      if (c.verbose)
        c.note("--- execution: " + where + "\n");
      Rng rng(mix(W.seed, 99));
      uint64_t ih = W.seed;
      uint64_t faultCycles = 0;
      auto faulty = [&]
      {
        return cyc < W.budget;
      };
      auto rnd = [&](uint64_t n)
      {
        return rng.next() % n;
      };
      unsigned ci = 0;
      for (auto & cr : calls)
      {
        // present the call
        StoreLog log;
        uint64_t wait = faulty() && W.callDelay ? rnd(W.callDelay + 1) : 0;
        uint64_t limit = cyc + W.budget + cr.steps * 100 + 8000;
        uint64_t outWait = 0;
        bool accepted = false, done = false, outSeen = false;
        uint64_t idle = 0;
        uint64_t retBits = 0;
        uint64_t tail = 0;
        std::string busy;
        while (true)
        {
          // the environment's choices of this cycle
          for (size_t pi = 0; pi < C.ports.size(); pi++)
          {
            auto & p = C.ports[pi];
            if (faulty())
            {
              if (p.burst)
              {
                p.burst--;
                p.ready = false;
              }
              else
              {
                p.ready = !W.pStall || rnd(100) >= W.pStall;
                if (!p.ready && W.burst)
                  p.burst = rnd(W.burst);
              }
              if (!p.ready)
                faultCycles++;
              if (p.q.size() >= W.outstanding)
                p.ready = false;
            }
            else
            {
              p.ready = true;
              p.burst = 0;
            }
            if (p.presented < 0)
            {
              std::vector<int> can;
              std::set<unsigned> ids;
              for (size_t k = 0; k < p.q.size(); k++)
              {
                bool first = ids.insert(p.q[k].r.id).second;
                if (first && (p.q[k].due <= cyc || !faulty()))
                  can.push_back(int(k));
                if (!W.ooo || !faulty())
                  break;
              }
              if (!can.empty())
              {
                auto k = can[can.size() > 1 ? rnd(can.size()) : 0];
                if (k)
                  c.count("fault: response overtakes another");
                p.presented = k;
              }
            }
          }
          if (!accepted)
          {
            bool ready = true;
            for (auto a : C.args)
              ready = ready && !C.comps[a].full;
            if (wait)
              wait--;
            else if (ready)
            {
              size_t ai = 0, si = 0;
              for (size_t k = 0; k < C.args.size(); k++)
              {
                auto & a = C.comps[C.args[k]];
                auto ty = fromJlm(*C.argOf[k]->Type());
                a.full = true;
                a.data = 0;
                if (auto cv = dynamic_cast<const rv::RegionArgument *>(C.argOf[k]); cv->input())
                {
                  // a captured global
                  auto imp = dynamic_cast<const jl::LlvmGraphImport *>(cv->input()->origin());
                  if (!imp || !mem.byName.count(imp->Name()))
                    throw Broken{ "circuit: unknown context", "the circuit captures something unknown" };
                  a.data = mem.byName.at(imp->Name())->base;
                }
                else if (ty->kind == Ty::Ptr)
                  a.data = objs.at(ai++)->base;
                else if (ty->kind != Ty::State)
                  a.data = cr.scalars.at(si++);
              }
              if (ai != prog.arrayArgs.size() || si != prog.scalarArgs.size())
                throw Broken{ "circuit: arguments", "the arguments of the function are not those of the circuit" };
              accepted = true;
              continue;
            }
          }
          C.settle();
          // memory
          bool change = false;
          for (size_t pi = 0; pi < C.ports.size(); pi++)
          {
            auto & p = C.ports[pi];
            auto & rc = C.comps[p.reqComp];
            auto & rw = C.wires[C.comps[p.respComp].out[0]];
            bool taken = rw.v && rw.r;
            if (rw.v && !rw.r)
              C.opStalls++;
            if (rc.sel >= 0 && p.ready)
            {
              change = true;
              bool wr = rc.sel >= int(rc.nLoads);
              Req r;
              r.write = wr;
              r.addr = C.wires[rc.in[rc.sel]].d;
              r.id = wr ? unsigned(rc.nLoads + (rc.sel - rc.nLoads) / 2) : unsigned(rc.sel);
              r.size = rc.sizes.at(r.id);
              auto ty = tyInt(r.size * 8);
              if (r.size == 0)
                ty = tyInt(8);
              auto o = mem.find(r.addr);
              if (!o || r.addr < o->base || r.addr + r.size > o->base + o->size)
                throw Broken{ "circuit: access outside memory",
                              std::string(wr ? "store to" : "load from") + " an address outside all arrays" };
              uint64_t data = 0;
              if (wr)
              {
                r.data = C.wires[rc.in[rc.sel + 1]].d & maskW(r.size * 8);
                if (o->readonly)
                  throw Broken{ "circuit: store to a constant", "store to the constant @" + o->name };
                log[{ o->name, r.addr - o->base }].push_back({ r.size, r.data, false });
                mem.rawStore(o, r.addr - o->base, ty, Val(r.data));
              }
              else
              {
                auto v = mem.rawLoad(o, r.addr - o->base, ty);
                data = v.p ? mix(r.addr, 5) : v.b;
                data |= mix(cyc, 17) & ~maskW(r.size * 8); // the rest of the bus
              }
              uint64_t d = cyc + 1;
              if (faulty())
                d += W.latency + (W.jitter ? rnd(W.jitter + 1) : 0);
              p.q.push_back({ r, data, d });
              ih = mix(ih, mix(cyc, pi * 1000 + r.id));
              c.count(wr ? "memory: stores" : "memory: loads");
              if (c.verbose && history.size() < 20000)
                history += "cycle " + std::to_string(cyc) + ": " + (wr ? "store " : "load ") + o->name + "+"
                         + std::to_string(r.addr - o->base) + " = " + std::to_string(wr ? r.data : data & maskW(r.size * 8))
                         + " (port " + std::to_string(pi) + " id " + std::to_string(r.id) + ")\n";
            }
            if (taken)
            {
              change = true;
              p.q.erase(p.q.begin() + p.presented);
              p.presented = -1;
            }
          }
          for (auto & k : C.comps)
            if (C.tick(k))
            {
              change = true;
              if (cyc > limit - 2)
                busy += "\n  " + k.name + " is active";
            }
          cyc++;
          // the caller
          bool outValid = true;
          for (auto r : C.results)
            outValid = outValid && C.comps[r].full;
          if (outValid && !done)
          {
            if (!outSeen)
            {
              outSeen = true;
              outWait = faulty() && W.outDelay ? rnd(W.outDelay + 1) : 0;
            }
            if (outWait)
              outWait--;
            else
            {
              if (!accepted)
                throw Broken{ "circuit: result without a call", "the circuit delivers a result nobody asked for" };
              done = true;
              for (auto r : C.results)
                C.comps[r].full = false;
              if (prog.retW)
                retBits = C.comps[C.results.at(0)].data & maskW(prog.retW);
              tail = faulty() ? rnd(30) : 0;
              change = true;
              if (&cr == &calls.back())
                tail = 150; // nothing may happen afterwards
            }
          }
          bool memIdle = true;
          for (auto & p : C.ports)
            memIdle = memIdle && (p.q.empty() || p.presented >= 0);
          if (done)
          {
            if (tail == 0)
              break;
            tail--;
            continue;
          }
          idle = change || !memIdle || faulty() || wait || outSeen ? 0 : idle + 1;
          if (idle > 20)
            throw Broken{ "circuit: deadlock",
                          "call " + std::to_string(ci) + " never completes: no progress after cycle "
                              + std::to_string(cyc) + C.waiting() };
          if (cyc > limit)
            throw Broken{ "circuit: does not finish",
                          "call " + std::to_string(ci) + " is not finished after " + std::to_string(cyc) + " cycles"
                              + busy + C.waiting() };
        }
        // compare
        if (prog.retW && !cr.ret.p && retBits != (cr.ret.b & maskW(prog.retW)))
          throw Broken{ "circuit: wrong result", "call " + std::to_string(ci) + " returns " + std::to_string(retBits)
                                                     + ", the function returns "
                                                     + std::to_string(cr.ret.b & maskW(prog.retW)) };
        for (auto & [key, hv] : log)
        {
          auto it = cr.stores.find(key);
          auto at = key.first + "+" + std::to_string(key.second);
          if (it == cr.stores.end())
            throw Broken{ "circuit: spurious store", "the circuit stores to " + at + ", the function does not" };
          size_t k = 0;
          for (auto & s : hv)
          {
            while (k < it->second.size()
                   && !(it->second[k].size == s.size && (it->second[k].poison || it->second[k].v == s.v)))
              k++;
            if (k == it->second.size())
              throw Broken{ "circuit: wrong sequence of stores",
                            "the stores to " + at + " are not those of the function, or in another order" };
            k++;
          }
        }
        for (auto o : objs)
        {
          auto & [d, p] = cr.after.at(o->name);
          for (size_t k = 0; k < d.size(); k++)
            if (!p[k] && o->d[k] != d[k])
              throw Broken{ "circuit: wrong memory", "after call " + std::to_string(ci) + " " + o->name + "["
                                                         + std::to_string(k) + "] is " + std::to_string(o->d[k])
                                                         + " instead of " + std::to_string(d[k]) };
          // undefined bytes have been given some value
        }
        ci++;
      }
      c.count("executions");
      c.count("simulated steps", cyc);
      c.count(x == 0 ? "schedule: benign environment" : "schedule: drawn environment");
      if (W.budget)
      {
        if (W.latency || W.jitter)
          c.count("fault: executions with slow memory");
        if (W.outstanding < 64)
          c.count("fault: executions with a limit on outstanding requests");
        if (W.outDelay)
          c.count("fault: executions with a late consumer of results");
        if (W.callDelay)
          c.count("fault: executions with late callers");
        if (W.budget < 4000)
          c.count("fault: executions in which the faults end early");
      }
      c.count("fault: cycles in which a memory port was stalled", faultCycles);
      c.count("cycles in which the circuit delayed a response", C.opStalls);
      if (W.ooo)
        c.count("executions with out-of-order memory");
      c.state(mix(ih, hashStr(prog.text)));
      c.digest(mix(ih, cyc));
    }
    catch (Unsupported & u)
    {
      c.discard("circuit: " + u.what);
    }
    catch (Broken & b)
    {
      if (c.verbose)
        c.note(history);
      c.fail(b.cls, where + ": " + b.msg);
    }
  }
  c.stage("end", Blame::Harness);
  c.sample("LLVM passes: " + pipe + "\n" + prog.text.substr(0, 3000));
}

}
