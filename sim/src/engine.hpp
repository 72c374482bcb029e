// What a simulated run sees of the runner.
#pragma once
#include "choice.hpp"
#include <cstdint>
#include <string>
#include <vector>

namespace sim
{

enum class Blame
{
  Harness, // a crash here is an error of the simulator
  Setup,   // a crash here is not about the property under test: the run is discarded
  Subject  // a crash here violates the property under test
};

struct Violation
{
  std::string cls, msg;
};
struct Discard
{
  std::string why;
};

class Ctx
{
public:
  Choices ch;
  std::string prop;
  bool verbose = false;

  void stage(const std::string & name, Blame b);
  void count(const std::string & key, uint64_t n = 1);
  void state(uint64_t hash); // one distinct interleaving/state reached
  void digest(uint64_t h);   // mixed into the digest that two executions of the run must share
  void note(const std::string & text); // goes to the human-readable trace of the run
  [[noreturn]] void fail(const std::string & cls, const std::string & msg);
  [[noreturn]] void discard(const std::string & why);
  void sample(const std::string & text);
};

struct Engine
{
  const char * prop;
  void (*run)(Ctx &);
};
const std::vector<Engine> & engines();

// directory of files of a run, by its process
std::string scratchOf(int pid);

void runProg(Ctx & c);   // progsim.cpp
void runSolver(Ctx & c); // solversim.cpp
void runHls(Ctx & c);    // hlssim.cpp
void runAlias(Ctx & c);  // aasim.cpp
void runTools(Ctx & c);  // toolsim.cpp
void runGraph(Ctx & c);  // graphsim.cpp

}
