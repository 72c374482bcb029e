// Deterministic choice streams: every random decision of a run is a draw from a named stream.
// In generation mode a draw comes from a PRNG and is recorded; in replay mode it comes from the
// recorded sequence (0, the simplest alternative, once the sequence is exhausted).
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim
{

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t
  next()
  {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
};

inline uint64_t
mix(uint64_t a, uint64_t b)
{
  Rng r(a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15);
  r.next();
  return r.next();
}

inline uint64_t
hashStr(const std::string & s)
{
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s)
    h = (h ^ c) * 1099511628211ull;
  return h;
}

class Stream;
// every choice is also written where it survives a crash of the run
void logChoice(const Stream & s, uint32_t v);
int registerStream(const std::string & name);

class Stream
{
public:
  uint8_t id = 0;
  std::vector<uint32_t> in;
  bool replay = false;
  size_t pos = 0;
  Rng rng;

  // uniform in [0,n)
  uint32_t
  draw(uint32_t n)
  {
    uint32_t v;
    if (replay)
      v = pos < in.size() ? in[pos] % (n ? n : 1) : 0;
    else
      v = n <= 1 ? 0 : uint32_t(rng.next() % n);
    pos++;
    logChoice(*this, v);
    return v;
  }
  bool
  chance(uint32_t num, uint32_t den)
  {
    return draw(den) >= den - num;
  } // value 0 => false
  // weighted choice; index 0 should be the simplest
  uint32_t
  pick(const uint32_t * first, const uint32_t * last)
  {
    uint32_t total = 0;
    for (auto x = first; x != last; x++)
      total += *x;
    uint32_t v = draw(total), i = 0;
    for (auto x = first; x != last; x++)
    {
      if (v < *x)
        return i;
      v -= *x;
      i++;
    }
    return 0;
  }
  uint32_t
  pick(std::initializer_list<uint32_t> w)
  {
    return pick(w.begin(), w.end());
  }
  uint32_t
  range(uint32_t lo, uint32_t hi)
  {
    return lo + draw(hi - lo + 1);
  }
};

class Choices
{
public:
  std::map<std::string, Stream> streams;
  uint64_t seed = 0;
  bool replay = false;

  Stream &
  operator[](const std::string & name)
  {
    auto it = streams.find(name);
    if (it == streams.end())
    {
      it = streams.emplace(name, Stream()).first;
      it->second.id = uint8_t(registerStream(name));
      it->second.replay = replay;
      it->second.rng = Rng(mix(seed, hashStr(name)));
    }
    return it->second;
  }
};

}
