#include "engine.hpp"

namespace sim
{
const std::vector<Engine> &
engines()
{
  static const std::vector<Engine> e = { { "C01", runProg }, { "C02", runProg }, { "C03", runProg },
                                         { "C04", runProg }, { "C05", runProg }, { "C06", runProg },
                                         { "C07", runProg }, { "C08", runProg }, { "C09", runProg },
                                         { "C10", runSolver },
                                         { "C11", runHls },
                                         { "C12", runAlias },
                                         { "C13", runTools },
                                         { "C14", runGraph } };
  return e;
}
}
