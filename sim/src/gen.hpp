// Seeded generator of LLVM modules together with the description of their interface.
#pragma once
#include "machine.hpp"
#include <memory>

namespace llvm
{
class LLVMContext;
class Module;
}

namespace sim
{

struct Program
{
  std::shared_ptr<::llvm::LLVMContext> ctx;
  std::shared_ptr<::llvm::Module> mod;
  ProgMeta meta;
  std::string passes; // LLVM passes applied to diversify the shape
};

enum class Profile
{
  General,
  Loops,
  Memory,
  Calls,
  Control,
  Scalars,
  N
};

Program generate(Choices & ch, Profile p);
// applies a random selection of LLVM passes
void diversify(Program & p, Stream & s, Profile prof);
void runLlvmPasses(::llvm::Module & m, const std::string & pipeline);
std::string printModule(const ::llvm::Module & m);
std::unique_ptr<::llvm::Module> cloneInto(const ::llvm::Module & m, ::llvm::LLVMContext & ctx);

}
