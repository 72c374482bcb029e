#pragma once
#include <jlm/llvm/ir/RvsdgModule.hpp>
#include <jlm/rvsdg/Transformation.hpp>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace llvm
{
class Module;
class LLVMContext;
}

namespace sim
{

enum class Pass
{
  AaAgnostic,
  AaRegionAware,
  AllocaSplit,
  Cne,
  Dne,
  Inline,
  IfConv,
  IoBarrier,
  Invariant,
  LoadChain,
  StrengthReduction,
  Unroll,
  Unswitch,
  Sink,
  Hoist,
  Reduce,
  PredCorr,
  ScalarEvo,
  StoreForward,
  N
};
const char * passName(Pass p);
std::shared_ptr<jlm::rvsdg::Transformation> createPass(Pass p);

// the objects of one pipeline: like the tool, one object per pass, used again when repeated
struct PassSet
{
  std::map<Pass, std::shared_ptr<jlm::rvsdg::Transformation>> objs;
  jlm::rvsdg::Transformation & get(Pass p);
};

std::unique_ptr<jlm::llvm::LlvmRvsdgModule> buildRvsdg(::llvm::Module & m);
std::unique_ptr<::llvm::Module> emitLlvm(jlm::llvm::LlvmRvsdgModule & m, ::llvm::LLVMContext & ctx);

// hides the operands of all sign extensions from the analysis of loops (the values stay the same)
void hideSignExtensions(jlm::rvsdg::Graph & g);

// structure-only digest of a graph
uint64_t graphDigest(const jlm::rvsdg::Graph & g);
uint64_t graphSize(const jlm::rvsdg::Graph & g);
std::string graphText(const jlm::rvsdg::Graph & g);
// empty if the graph is well-formed, otherwise what is wrong
std::string checkGraph(const jlm::rvsdg::Graph & g);

}
