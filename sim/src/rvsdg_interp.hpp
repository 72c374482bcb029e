// Interpreter for RVSDG modules in which the order of execution is not fixed by the text of the
// program: within a region any node whose operands are available may execute next, and a seeded
// scheduler picks one.
#pragma once
#include "machine.hpp"
#include <functional>
#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/rvsdg/node.hpp>
#include <unordered_map>

namespace sim
{

struct Sched
{
  enum Kind
  {
    Fifo,
    Random,
    LoadsFirst,
    LoadsLast,
    Lifo,
    Prio,
    EffectsLast,
    NKinds
  } kind = Fifo;
  uint64_t seed = 0;
  uint64_t budget = ~0ull; // number of activations scheduled by `kind`; later ones are FIFO
  static const char *
  name(Kind k)
  {
    static const char * n[] = { "fifo",  "random", "loads-first", "loads-last",
                                "lifo", "prio",   "effects-last" };
    return n[k];
  }
};

class RvsdgInterp
{
public:
  struct Act;
  struct NodeC
  {
    const jlm::rvsdg::Node * n = nullptr;
    std::function<void(Act &, NodeC &)> eval;
    std::vector<int> in;
    int out0 = 0;
    std::vector<int> succ;
    int ndeps = 0;
    int cls = 0; // 0 pure, 1 load, 2 other memory effect
    uint32_t idx = 0;
  };
  struct RegionC
  {
    const jlm::rvsdg::Region * r = nullptr;
    std::vector<NodeC> nodes;
    std::vector<int> roots;
    std::vector<int> results;
    int nslots = 0, nargs = 0;
    uint64_t activations = 0;
    std::unordered_map<const jlm::rvsdg::Output *, int> slotOf;
  };
  struct Act // one activation of a region
  {
    RegionC & rc;
    std::vector<Val> s;
    Act * parent;
    std::vector<Obj *> * frame; // stack objects of the enclosing function activation
    uint64_t iteration = 0;     // theta
    uint64_t lambdaAct = 0;     // serial number of the enclosing function activation
  };

  RvsdgInterp(jlm::llvm::LlvmRvsdgModule & m, Mem & mem, Env & env, const ProgMeta & meta, uint64_t maxSteps, Sched s);
  RvsdgInterp(Mem & mem, Env & env, const ProgMeta & meta); // executes single operations only
  // the function computed by an operation without side effects
  std::function<Val(const std::vector<Val> &)> pureFunction(const jlm::rvsdg::SimpleNode & n);
  Val callAddr(uint64_t addr, const std::vector<Val> & args);
  uint64_t steps = 0;
  uint32_t maxAllocas = 0; // most executions of one alloca in one function activation
  uint64_t scheduleHash = 0; // of the order in which effectful nodes executed
  uint64_t reordered = 0;    // nodes that did not execute in FIFO position

  // observation points
  std::function<void(Act &)> afterRegion;
  std::function<void(const jlm::rvsdg::Node *, Act &, int operand, uint64_t addr, uint64_t size, bool write)> onAccess;

  const jlm::rvsdg::Node * functionAt(uint64_t addr) const;

private:
  friend struct Compiler;
  Mem & mem;
  Env & env;
  const ProgMeta & meta;
  uint64_t maxSteps;
  Sched sched;
  Rng rng;
  struct LambdaFrame
  {
    bool variadic = false;
    std::vector<Val> varArgs;
    std::vector<const Ty *> varTys;
    std::unordered_map<const jlm::rvsdg::Node *, uint32_t> allocas;
  };
  std::vector<LambdaFrame> frames;
  uint64_t lambdaSerial = 0, activationSerial = 0;
  unsigned depth = 0;
  std::unordered_map<const jlm::rvsdg::Region *, std::unique_ptr<RegionC>> compiled;
  std::unordered_map<const void *, Obj *> objOf; // lambda node, delta node, import
  std::unordered_map<uint64_t, const jlm::rvsdg::Node *> lambdaAt;
  std::unordered_map<uint64_t, const jlm::llvm::LlvmGraphImport *> importAt;

  RegionC & compile(const jlm::rvsdg::Region & r);
  void exec(Act & a);
  Val staticVal(const jlm::rvsdg::Output & o);
  void declare(const jlm::rvsdg::Region & r);
  void initDeltas(const jlm::rvsdg::Region & r);
  std::function<void(Act &, NodeC &)> compileSimple(const jlm::rvsdg::SimpleNode & n, int & cls);
  Val callNode(Act & a, const jlm::rvsdg::Node * n, uint64_t addr, const std::vector<Val> & args, const std::vector<const Ty *> & tys, const Ty * ret);
  Val runLambda(const jlm::rvsdg::Node * lambda, const std::vector<Val> & args, const std::vector<const Ty *> * tys = nullptr);
  void access(NodeC & n, Act & a, int operand, uint64_t addr, uint64_t size, bool w);
};

}
