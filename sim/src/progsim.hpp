#pragma once
#include "engine.hpp"
#include "gen.hpp"
#include "rvsdg_interp.hpp"

namespace sim
{

struct Source
{
  Program prog;
  Trace trace;
  uint64_t steps = 0;
  uint32_t maxAllocas = 0;
};

bool makeSource(Ctx & c, Source & s, Profile prof);
// empty: the module shows the recorded history; otherwise the difference
std::string replayLlvm(::llvm::Module & m, const Source & s, uint64_t salt);
std::string replayRvsdg(
    Ctx & c,
    jlm::llvm::LlvmRvsdgModule & m,
    const Source & s,
    Sched sched,
    uint64_t salt,
    const std::function<void(RvsdgInterp &, Mem &, Env &)> & hook);
Sched drawSched(Stream & s);
std::string schedText(const Sched & s);

}
