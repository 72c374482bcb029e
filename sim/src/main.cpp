// Runner: forks one process per simulated run from a quiet parent, so that a run is a pure function
// of its seed (or of its recorded choices) and of the code, and so that a crash of the code under
// test ends one run only.
#include "alloc.hpp"
#include "engine.hpp"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace sim
{

enum Status
{
  Running = 0,
  Ok = 1,
  Discarded = 2,
  Violated = 3,
  Broken = 4 // the harness itself failed
};

struct Shm
{
  enum
  {
    LOG = 1 << 20,
    HASH = 1 << 14,
    TEXT = 1 << 16,
    NOTE = 1 << 20
  };
  volatile int status;
  volatile int blame;
  char stage[128];
  char cls[512];
  char msg[8192];
  uint64_t dig;
  uint64_t heap;
  uint32_t nstreams;
  char sname[32][16];
  uint32_t nlog;
  uint8_t logS[LOG];
  uint32_t logV[LOG];
  uint32_t nhash;
  uint64_t hashes[HASH];
  uint32_t ntext;
  char text[TEXT]; // counters
  uint32_t nnote;
  char notes[NOTE];
  uint32_t nsample;
  char samples[TEXT];
  char err[4096];
};

static Shm * shm = nullptr; // in a child: its slot
static std::map<std::string, uint64_t> * counters = nullptr;

static void
put(char * dst, size_t cap, const std::string & s)
{
  size_t n = std::min(s.size(), cap - 1);
  memcpy(dst, s.data(), n);
  dst[n] = 0;
}

void
Ctx::stage(const std::string & name, Blame b)
{
  put(shm->stage, sizeof shm->stage, name);
  shm->blame = int(b);
}
void
Ctx::count(const std::string & key, uint64_t n)
{
  (*counters)[key] += n;
}
void
Ctx::state(uint64_t h)
{
  if (shm->nhash < Shm::HASH)
    shm->hashes[shm->nhash++] = h;
}
void
Ctx::digest(uint64_t h)
{
  shm->dig = mix(shm->dig, h);
}
void
Ctx::note(const std::string & t)
{
  size_t n = std::min<size_t>(t.size(), Shm::NOTE - shm->nnote);
  memcpy(shm->notes + shm->nnote, t.data(), n);
  shm->nnote += n;
}
void
Ctx::sample(const std::string & t)
{
  if (shm->nsample)
    return;
  size_t n = std::min<size_t>(t.size(), Shm::TEXT - 1);
  memcpy(shm->samples, t.data(), n);
  shm->nsample = n;
}
void
Ctx::fail(const std::string & cls, const std::string & msg)
{
  throw Violation{ cls, msg };
}
void
Ctx::discard(const std::string & why)
{
  throw Discard{ why };
}

void
logChoice(const Stream & s, uint32_t v)
{
  if (!shm)
    return;
  if (shm->nlog < Shm::LOG)
  {
    shm->logS[shm->nlog] = s.id;
    shm->logV[shm->nlog] = v;
    shm->nlog++;
  }
}

int
registerStream(const std::string & name)
{
  if (!shm)
    return 0;
  if (shm->nstreams >= 32)
    abort();
  put(shm->sname[shm->nstreams], 16, name);
  return shm->nstreams++;
}

// ------------------------------------------------------------------------------------- a run

struct Input
{
  bool replay = false;
  uint64_t seed = 0;
  std::map<std::string, std::vector<uint32_t>> streams;
};

struct Outcome
{
  Status status;
  std::string cls, msg, stage;
  uint64_t dig = 0;
};

static std::string
squash(const std::string & s) // message class: no numbers
{
  std::string r;
  for (size_t i = 0; i < s.size(); i++)
  {
    if (isdigit((unsigned char)s[i]))
    {
      if (r.empty() || r.back() != '#')
        r += '#';
      while (i + 1 < s.size() && isxdigit((unsigned char)s[i + 1]))
        i++;
      continue;
    }
    r += s[i];
  }
  return r.substr(0, 200);
}

static void
childMain(const Engine & e, const Input & in, bool verbose)
{
  // stderr of the code under test goes to the parent
  int fd = memfd_create("err", 0);
  (void)fd;
  static std::map<std::string, uint64_t> cnt;
  counters = &cnt;
  struct rlimit rl = { 0, 0 };
  setrlimit(RLIMIT_CORE, &rl);
  struct itimerval tv = {};
  tv.it_value.tv_sec = 20;
  setitimer(ITIMER_PROF, &tv, nullptr);
  alarm(300);
  heapEnterRun(0);
  {
    auto * c = new Ctx();
    c->prop = e.prop;
    c->verbose = verbose;
    c->ch.seed = in.seed;
    c->ch.replay = in.replay;
    if (in.replay)
      for (auto & [n, v] : in.streams)
        c->ch[n].in = v;
    shm->status = Running;
    int st = Ok;
    try
    {
      e.run(*c);
    }
    catch (Violation & v)
    {
      st = Violated;
      put(shm->cls, sizeof shm->cls, squash(v.cls));
      put(shm->msg, sizeof shm->msg, v.msg);
    }
    catch (Discard & d)
    {
      st = Discarded;
      put(shm->cls, sizeof shm->cls, d.why);
    }
    catch (std::exception & ex)
    {
      st = shm->blame == int(Blame::Subject) ? Violated
         : shm->blame == int(Blame::Setup)   ? Discarded
                                             : Broken;
      std::string m = std::string("exception in ") + shm->stage + ": " + ex.what();
      put(shm->cls, sizeof shm->cls, squash(m));
      put(shm->msg, sizeof shm->msg, m);
    }
    std::string t;
    for (auto & [k, n] : cnt)
      t += k + "\t" + std::to_string(n) + "\n";
    put(shm->text, Shm::TEXT, t);
    shm->ntext = std::min<size_t>(t.size(), Shm::TEXT - 1);
    shm->heap = heapUsed();
    if (st == Violated)
      shm->dig = mix(shm->dig, hashStr(std::string(shm->cls) + "|" + shm->msg));
    shm->status = st;
  }
  _exit(0);
}

struct Slot
{
  Shm * s;
  int errFd;
  pid_t pid = 0;
  uint64_t index = 0;
};

static Slot
newSlot()
{
  Slot k;
  k.s = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (k.s == MAP_FAILED)
  {
    perror("mmap");
    exit(3);
  }
  k.errFd = memfd_create("stderr", MFD_CLOEXEC);
  return k;
}

static void
start(Slot & k, const Engine & e, const Input & in, bool verbose)
{
  Shm & s = *k.s;
  s.status = Running;
  s.blame = int(Blame::Harness);
  s.stage[0] = s.cls[0] = s.msg[0] = 0;
  s.dig = 0;
  s.nstreams = s.nlog = s.nhash = s.ntext = s.nnote = s.nsample = 0;
  if (ftruncate(k.errFd, 0))
  {
  }
  lseek(k.errFd, 0, SEEK_SET);
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p < 0)
  {
    perror("fork");
    exit(3);
  }
  if (p == 0)
  {
    shm = &s;
    dup2(k.errFd, 2);
    childMain(e, in, verbose);
  }
  k.pid = p;
}

static Outcome
harvest(Slot & k, int wst)
{
  Shm & s = *k.s;
  Outcome o;
  o.stage = s.stage;
  k.pid = 0;
  if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0 && s.status != Running)
  {
    o.status = Status(s.status);
    o.cls = s.cls;
    o.msg = s.msg;
    o.dig = s.dig;
    return o;
  }
  std::string err(4096, 0);
  auto n = pread(k.errFd, &err[0], 4096, 0);
  err.resize(n > 0 ? n : 0);
  while (!err.empty() && err.back() == '\n')
    err.pop_back();
  std::string how;
  if (WIFSIGNALED(wst))
  {
    int sg = WTERMSIG(wst);
    if (sg == SIGPROF || sg == SIGALRM)
      how = "does not terminate", err.clear();
    else if (sg == SIGKILL)
      how = "was killed", err.clear();
    else
      how = std::string("crashes (") + (sg == SIGABRT ? "abort" : sg == SIGSEGV ? "segmentation fault" : strsignal(sg)) + ")";
  }
  else
    how = "exits the process with status " + std::to_string(WEXITSTATUS(wst));
  auto first = err.substr(0, err.find('\n'));
  // keep the assertion, drop the location
  auto a = first.find(": Assertion `");
  std::string what = a != std::string::npos ? first.substr(a + 2) : first;
  // (named by the file, not the expression: one of them is a known finding)
  if (a != std::string::npos && first.find("/add-buffers.cpp:") != std::string::npos)
    what = "an assertion on the sizes of loop buffers fails";
  o.status = s.blame == int(Blame::Subject) ? Violated : s.blame == int(Blame::Setup) ? Discarded : Broken;
  if (WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL)
    o.status = Broken;
  o.cls = squash(o.stage + " " + how + (what.empty() ? "" : ": " + what));
  o.msg = o.stage + " " + how + (err.empty() ? "" : ": " + err);
  o.dig = hashStr(o.cls);
  return o;
}

// what a run that crashed left behind
static void
removeScratch(pid_t p)
{
  std::error_code ec;
  std::filesystem::remove_all(scratchOf(p), ec);
}

static Outcome
runOne(Slot & k, const Engine & e, const Input & in, bool verbose = false)
{
  start(k, e, in, verbose);
  int st;
  waitpid(k.pid, &st, 0);
  removeScratch(k.pid);
  return harvest(k, st);
}

static Input
recorded(Slot & k)
{
  Input in;
  in.replay = true;
  for (uint32_t i = 0; i < k.s->nstreams; i++)
    in.streams[k.s->sname[i]];
  for (uint32_t i = 0; i < k.s->nlog; i++)
    in.streams[k.s->sname[k.s->logS[i]]].push_back(k.s->logV[i]);
  return in;
}

static uint64_t
runSeed(uint64_t base, const std::string & prop, uint64_t index)
{
  return mix(mix(base, hashStr(prop)), index);
}

static double
now()
{
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static std::string
jstr(const std::string & s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
      r += '\\', r += c;
    else if (c == '\n')
      r += "\\n";
    else if (c < 32 || c > 126)
    {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    }
    else
      r += c;
  }
  return r + "\"";
}

// ------------------------------------------------------------------------------- replay files

struct Replay
{
  std::string prop, cls, msg;
  uint64_t base = 0, index = 0, dig = 0;
  Input in;
};

static void
writeReplay(const std::string & path, const Replay & r, const std::string & text)
{
  std::ofstream f(path);
  f << "jlmsim-replay 1\nproperty " << r.prop << "\nbase-seed " << r.base << "\nrun " << r.index << "\ndigest "
    << r.dig << "\nclass " << r.cls << "\n";
  for (auto & [n, v] : r.in.streams)
  {
    f << "stream " << n << " " << v.size();
    for (auto x : v)
      f << " " << x;
    f << "\n";
  }
  f << "end\n\n# what this run does, for the reader; everything above decides it\n\n" << text;
}

static bool
readReplay(const std::string & path, Replay & r)
{
  std::ifstream f(path);
  std::string line;
  if (!std::getline(f, line) || line != "jlmsim-replay 1")
    return false;
  r.in.replay = true;
  while (std::getline(f, line) && line != "end")
  {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "property")
      is >> r.prop;
    else if (k == "base-seed")
      is >> r.base;
    else if (k == "run")
      is >> r.index;
    else if (k == "digest")
      is >> r.dig;
    else if (k == "class")
      r.cls = line.substr(6);
    else if (k == "stream")
    {
      std::string n;
      size_t cnt;
      is >> n >> cnt;
      auto & v = r.in.streams[n];
      v.resize(cnt);
      for (auto & x : v)
        is >> x;
    }
  }
  return true;
}

// ---------------------------------------------------------------------------------- minimiser

static size_t
weight(const Input & in)
{
  size_t n = 0;
  for (auto & [k, v] : in.streams)
    n += v.size();
  return n;
}

static Input
minimise(Slot & k, const Engine & e, Input best, const Outcome & want, double seconds, uint64_t & tried)
{
  double until = now() + seconds;
  tried = 0;
  auto ok = [&](const Input & c)
  {
    tried++;
    auto o = runOne(k, e, c);
    return o.status == Violated && o.cls == want.cls;
  };
  auto attempt = [&](Input & c)
  {
    if (now() > until || !ok(c))
      return false;
    // the run may have consumed less than it was given
    auto used = recorded(k);
    best = weight(used) <= weight(c) ? used : c;
    return true;
  };
  bool progress = true;
  while (progress && now() < until)
  {
    progress = false;
    std::vector<std::string> names;
    for (auto & [n, v] : best.streams)
      names.push_back(n);
    for (auto & n : names)
    {
      if (best.streams[n].empty())
        continue;
      { // the whole stream
        auto c = best;
        c.streams[n].clear();
        if (attempt(c))
          progress = true;
      }
      // truncate
      for (size_t cut = best.streams[n].size() / 2; cut >= 1 && now() < until; cut /= 2)
        while (best.streams[n].size() > cut && now() < until)
        {
          auto c = best;
          c.streams[n].resize(c.streams[n].size() - cut);
          auto before = best.streams[n].size();
          if (!attempt(c) || best.streams[n].size() >= before)
            break;
          progress = true;
        }
      // delete or zero chunks
      for (size_t len = std::min<size_t>(64, best.streams[n].size()); len >= 1 && now() < until; len /= 2)
        for (size_t at = 0; at < best.streams[n].size() && now() < until;)
        {
          auto & v = best.streams[n];
          size_t l = std::min(len, v.size() - at);
          auto before = weight(best);
          auto c = best;
          c.streams[n].erase(c.streams[n].begin() + at, c.streams[n].begin() + at + l);
          if (attempt(c) && weight(best) < before)
          {
            progress = true;
            continue;
          }
          bool zero = true;
          for (size_t i = at; i < std::min(at + l, best.streams[n].size()); i++)
            zero = zero && best.streams[n][i] == 0;
          if (!zero)
          {
            c = best;
            for (size_t i = at; i < std::min(at + l, c.streams[n].size()); i++)
              c.streams[n][i] = 0;
            if (attempt(c))
              progress = true;
            else if (len == 1 && at < best.streams[n].size() && best.streams[n][at] > 1)
            {
              c = best;
              c.streams[n][at] /= 2;
              attempt(c);
            }
          }
          at += l;
        }
    }
  }
  return best;
}

// ---------------------------------------------------------------------------------- commands

static const Engine *
find(const std::string & prop)
{
  for (auto & e : engines())
    if (prop == e.prop)
      return &e;
  return nullptr;
}

static int
cmdBatch(std::map<std::string, std::string> & a)
{
  auto e = find(a["prop"]);
  if (!e)
    return fprintf(stderr, "unknown property\n"), 3;
  uint64_t base = std::stoull(a.count("seed") ? a["seed"] : "1");
  uint64_t count = std::stoull(a.count("count") ? a["count"] : "1000000000");
  uint64_t first = std::stoull(a.count("first") ? a["first"] : "0");
  double secs = std::stod(a.count("seconds") ? a["seconds"] : "30");
  unsigned jobs = std::stoul(a.count("jobs") ? a["jobs"] : "8");
  bool keepGoing = a.count("keep-going");
  std::set<std::string> known;
  if (a.count("known"))
  {
    std::ifstream f(a["known"]);
    std::string l;
    while (std::getline(f, l))
      if (!l.empty())
        known.insert(l);
  }
  std::ofstream dl;
  if (a.count("digests"))
    dl.open(a["digests"]);

  std::vector<Slot> slots;
  for (unsigned i = 0; i < jobs; i++)
    slots.push_back(newSlot());
  std::map<std::string, uint64_t> total, discards, classes, knownHits;
  std::map<std::string, std::pair<uint64_t, std::string>> firstOf; // class -> lowest index, message
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
  std::map<uint64_t, uint64_t> digs;
  uint64_t runs = 0, okRuns = 0, broken = 0, nontrivial = 0, maxHeap = 0;
  std::string brokenMsg;
  uint64_t next = first;
  double t0 = now();
  bool stop = false;
  unsigned live = 0;
  while (true)
  {
    while (!stop && live < jobs && next < first + count && now() - t0 < secs)
    {
      for (auto & k : slots)
        if (!k.pid)
        {
          Input in;
          in.seed = runSeed(base, e->prop, next);
          k.index = next++;
          start(k, *e, in, false);
          live++;
          break;
        }
    }
    if (!live)
      break;
    int st;
    pid_t p = waitpid(-1, &st, 0);
    for (auto & k : slots)
      if (k.pid == p)
      {
        live--;
        removeScratch(p);
        auto o = harvest(k, st);
        runs++;
        if (dl.is_open())
          digs[k.index] = mix(o.dig, hashStr(o.cls) + o.status);
        if (o.status == Ok || o.status == Violated)
        {
          std::istringstream is(std::string(k.s->text, k.s->ntext));
          std::string l;
          while (std::getline(is, l))
          {
            auto t = l.find('\t');
            total[l.substr(0, t)] += std::stoull(l.substr(t + 1));
          }
          size_t before = states.size();
          for (uint32_t i = 0; i < k.s->nhash; i++)
            if (states.size() < 20000000)
              states.insert(k.s->hashes[i]);
          if (states.size() > before)
            nontrivial++;
          if (k.s->nsample && samples.size() < 3)
            samples.push_back(std::string(k.s->samples, k.s->nsample));
          maxHeap = std::max<uint64_t>(maxHeap, k.s->heap);
        }
        if (o.status == Ok)
          okRuns++;
        else if (o.status == Discarded)
          discards[o.cls]++;
        else if (o.status == Broken)
        {
          broken++;
          if (brokenMsg.empty())
            brokenMsg = "run " + std::to_string(k.index) + ": " + o.msg;
          discards["harness: " + o.cls]++;
        }
        else
        {
          if (known.count(o.cls))
            knownHits[o.cls]++;
          else
          {
            classes[o.cls]++;
            auto it = firstOf.find(o.cls);
            if (it == firstOf.end() || it->second.first > k.index)
              firstOf[o.cls] = { k.index, o.msg };
            if (!keepGoing)
              stop = true;
          }
        }
      }
  }
  double wall = now() - t0;
  for (auto & [i, d] : digs)
    dl << i << " " << d << "\n";
  std::ostream * os = &std::cout;
  std::ofstream of;
  if (a.count("out"))
  {
    of.open(a["out"]);
    os = &of;
  }
  *os << "{\"property\":" << jstr(e->prop) << ",\"seed\":" << base << ",\"runs\":" << runs << ",\"completed\":" << okRuns
      << ",\"broken\":" << broken << ",\"broken_example\":" << jstr(brokenMsg) << ",\"wall\":" << wall
      << ",\"states\":" << states.size() << ",\"nontrivial\":" << nontrivial << ",\"max_heap\":" << maxHeap;
  auto dump = [&](const char * n, const std::map<std::string, uint64_t> & m)
  {
    *os << ",\"" << n << "\":{";
    bool f = true;
    for (auto & [k, v] : m)
    {
      *os << (f ? "" : ",") << jstr(k) << ":" << v;
      f = false;
    }
    *os << "}";
  };
  dump("counters", total);
  dump("discards", discards);
  dump("known", knownHits);
  *os << ",\"violations\":[";
  bool f = true;
  for (auto & [c, im] : firstOf)
  {
    *os << (f ? "" : ",") << "{\"class\":" << jstr(c) << ",\"run\":" << im.first << ",\"count\":" << classes[c]
        << ",\"message\":" << jstr(im.second) << "}";
    f = false;
  }
  *os << "],\"samples\":[";
  f = true;
  for (auto & s : samples)
  {
    *os << (f ? "" : ",") << jstr(s);
    f = false;
  }
  *os << "]}\n";
  return 0;
}

static int
cmdRun(std::map<std::string, std::string> & a)
{
  auto e = find(a["prop"]);
  if (!e)
    return 3;
  auto k = newSlot();
  Input in;
  in.seed = runSeed(std::stoull(a.count("seed") ? a["seed"] : "1"), e->prop, std::stoull(a["run"]));
  auto o = runOne(k, *e, in, true);
  static const char * names[] = { "running", "ok", "discarded", "VIOLATED", "BROKEN" };
  fwrite(k.s->notes, 1, k.s->nnote, stdout);
  printf("\n%s: %s | %s\n%s\ndigest %llx\n", names[o.status], o.cls.c_str(), o.stage.c_str(), o.msg.c_str(), (unsigned long long)o.dig);
  fwrite(k.s->text, 1, k.s->ntext, stdout);
  return 0;
}

static int
cmdMinimise(std::map<std::string, std::string> & a)
{
  auto e = find(a["prop"]);
  if (!e)
    return 3;
  auto k = newSlot();
  Input in;
  Replay r;
  r.prop = e->prop;
  r.base = std::stoull(a.count("seed") ? a["seed"] : "1");
  r.index = std::stoull(a["run"]);
  in.seed = runSeed(r.base, e->prop, r.index);
  auto o1 = runOne(k, *e, in);
  auto rec = recorded(k);
  auto o2 = runOne(k, *e, in);
  if (o1.status != Violated || o2.status != Violated || o1.dig != o2.dig || o1.cls != o2.cls)
  {
    printf("{\"ok\":false,\"why\":\"the same seed did not reproduce the violation\",\"s1\":%d,\"s2\":%d}\n", o1.status, o2.status);
    return 4;
  }
  auto o3 = runOne(k, *e, rec);
  if (o3.status != Violated || o3.cls != o1.cls)
  {
    printf("{\"ok\":false,\"why\":\"the recorded choices did not reproduce the violation: %d %s\"}\n", o3.status, jstr(o3.cls).c_str());
    return 4;
  }
  auto w0 = weight(rec);
  uint64_t tried;
  auto best = minimise(k, *e, rec, o1, std::stod(a.count("seconds") ? a["seconds"] : "20"), tried);
  auto o = runOne(k, *e, best, true);
  if (o.status != Violated || o.cls != o1.cls)
  {
    best = rec;
    o = runOne(k, *e, best, true);
  }
  r.in = best;
  r.cls = o.cls;
  r.dig = o.dig;
  writeReplay(
      a["out"],
      r,
      "violation: " + o.msg + "\nchoices: " + std::to_string(weight(best)) + " (before minimisation "
          + std::to_string(w0) + ", candidates tried " + std::to_string(tried) + ")\n\n"
          + std::string(k.s->notes, k.s->nnote));
  printf("{\"ok\":true,\"class\":%s,\"message\":%s,\"choices\":%zu,\"from\":%zu,\"tried\":%llu}\n", jstr(o.cls).c_str(), jstr(o.msg).c_str(), weight(best), w0, (unsigned long long)tried);
  return 0;
}

static int
cmdReplay(std::map<std::string, std::string> & a)
{
  Replay r;
  if (!readReplay(a["file"], r))
    return fprintf(stderr, "cannot read replay file\n"), 3;
  auto e = find(r.prop);
  if (!e)
    return fprintf(stderr, "unknown property\n"), 3;
  auto k = newSlot();
  auto o = runOne(k, *e, r.in, true);
  if (a.count("verbose"))
    fwrite(k.s->notes, 1, k.s->nnote, stdout);
  if (o.status == Violated)
  {
    bool same = o.cls == r.cls && o.dig == r.dig;
    printf("reproduced%s: property=%s %s\n", same ? "" : " (differently)", r.prop.c_str(), o.msg.c_str());
    return same ? 1 : 5;
  }
  printf("not reproduced: status %d %s\n", o.status, o.cls.c_str());
  return 0;
}

}

int
main(int argc, char ** argv)
{
  int pers = personality(0xffffffff);
  bool aslr = true;
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE))
  {
    if (!getenv("JLMSIM_REEXEC") && personality(pers | ADDR_NO_RANDOMIZE) != -1)
    {
      setenv("JLMSIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  else
    aslr = false;
  if (aslr)
    fprintf(stderr, "note: address randomisation could not be turned off\n");
  if (argc < 2)
    return 3;
  std::map<std::string, std::string> a;
  for (int i = 2; i < argc; i++)
  {
    std::string s = argv[i];
    if (s.rfind("--", 0) == 0)
    {
      auto eq = s.find('=');
      a[s.substr(2, eq == std::string::npos ? eq : eq - 2)] = eq == std::string::npos ? "1" : s.substr(eq + 1);
    }
  }
  std::string c = argv[1];
  if (c == "batch")
    return sim::cmdBatch(a);
  if (c == "run")
    return sim::cmdRun(a);
  if (c == "minimise")
    return sim::cmdMinimise(a);
  if (c == "replay")
    return sim::cmdReplay(a);
  if (c == "list")
  {
    for (auto & e : sim::engines())
      printf("%s\n", e.prop);
    return 0;
  }
  return 3;
}
