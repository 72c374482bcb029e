#pragma once
#include "machine.hpp"
#include <unordered_map>

namespace llvm
{
class Module;
class Function;
class Value;
class Constant;
}

namespace sim
{

// Strict reference interpreter for LLVM IR.
class LlvmInterp
{
public:
  LlvmInterp(::llvm::Module & m, Mem & mem, Env & env, uint64_t maxSteps);
  Val callAddr(uint64_t addr, const std::vector<Val> & args);
  uint64_t steps = 0;
  std::unordered_map<const void *, uint32_t> * blockHits = nullptr;
  uint32_t maxAllocas = 0; // most executions of one alloca in one function activation

private:
  ::llvm::Module & M;
  Mem & mem;
  Env & env;
  uint64_t maxSteps;
  unsigned depth = 0;
  std::unordered_map<uint64_t, ::llvm::Function *> fnAt;
  Val constant(const ::llvm::Constant * c);
  struct Frame;
  Val run(::llvm::Function * f, const std::vector<Val> & args, const std::vector<const Ty *> * tys = nullptr);
  void initMem(Obj * o, uint64_t off, const ::llvm::Constant * c);
};

}
