// Simulated operating system for the command-line tools: jlc, jhls and jlm-opt run their real main
// functions as processes of one simulated machine.  Files live in a scratch directory; every open,
// read, write, close, mkdir, process start, wait, clock reading, random device reading, exit and
// abort of the tools goes through the functions below, which the seed makes fail.  clang, llc, opt,
// llvm-link and jlm-hls are stand-ins that record what they were given.
#include "alloc.hpp"
#include "engine.hpp"
#include "gen.hpp"
#include "progsim.hpp"
#include <jlm/tooling/Command.hpp>
#include <jlm/util/Program.hpp>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <filesystem>
#include <fnmatch.h>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <csetjmp>
#include <csignal>
#include <spawn.h>
#include <sstream>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int jlmOptMain(int argc, char ** argv);
int jlcMain(int argc, char ** argv);
int jhlsMain(int argc, char ** argv);

namespace fs = std::filesystem;

namespace sim
{
namespace
{

enum Op
{
  OpenRead,
  OpenWrite,
  Read,
  Write,
  Close,
  Mkdir,
  System,
  Stdout,
  Spawn,
  Wait,
  NOps
};
const char * opNames[] = { "open for reading", "open for writing", "read",  "write", "close",
                           "mkdir",            "subcommand",       "stdout", "spawn", "wait" };

// the harness allocates from its own heap, so that what it does never moves an object of the tools
struct Quiet
{
  int old;
  Quiet() : old(heapArena(0)) {}
  ~Quiet() { heapArena(old); }
};

struct Plan
{
  int mode = 0;       // 0 no fault, 1 one fault at operation `at`, 2 faults at random, 3 small disk,
                      // 4 failing allocation, 5 a process is killed at operation `at`
  uint64_t at = 0;    // operation, bytes or allocation
  bool noise = false; // short reads and writes, interruptions
  Stream * s = nullptr;
};

struct Proc
{
  jmp_buf back;
  std::string name, out, buf;
  bool broken = false; // standard output lost something
};

struct World
{
  bool active = false;
  Plan plan;
  uint64_t ops = 0, written = 0, clock = 0, clockCalls = 0;
  Rng random{ 1 };
  Rng clockRng{ 1 };
  std::map<int, std::pair<std::string, bool>> fds; // path, writing
  std::vector<Proc *> procs;
  std::vector<std::string> log;
  std::vector<std::string> harmful;
  std::map<std::string, uint64_t> kinds;
  std::vector<std::pair<std::string, int>> commands; // and their wait status
  bool lost = false;
};
World * w = nullptr;
std::string lastOut; // standard output of the last process that ended at the top

bool
on()
{
  return w && w->active;
}

template<class F>
F *
real(const char * name)
{
  return (F *)dlsym(RTLD_NEXT, name);
}

void
hurt(const std::string & kind, const std::string & what)
{
  w->harmful.push_back(kind + ": " + what);
  w->log.push_back("FAULT " + kind + ": " + what);
  w->kinds[kind]++;
}

[[noreturn]] void
leave(int status) // of the current process
{
  longjmp(w->procs.back()->back, status + 1);
}

// 0: no fault, otherwise which of the n variants of the fault
unsigned
fault(Op op, unsigned n, const std::string & what)
{
  uint64_t k = w->ops++;
  w->log.push_back(std::string(opNames[op]) + " " + what);
  auto & p = w->plan;
  if (p.mode == 5 && k == p.at && op != System)
  {
    hurt("process killed", what);
    leave(256 + 9);
  }
  if (p.mode == 1 && k == p.at)
    return 1 + p.s->draw(n);
  if (p.mode == 2 && p.s->chance(1, 10))
    return 1 + p.s->draw(n);
  return 0;
}

bool
noise(unsigned den)
{
  return w->plan.noise && w->plan.s && w->plan.s->chance(1, den);
}

// how many of n bytes still fit on the disk
size_t
fits(size_t n)
{
  if (w->plan.mode != 3 || w->written + n <= w->plan.at)
    return n;
  return w->plan.at > w->written ? w->plan.at - w->written : 0;
}

bool
inScope(const char * path)
{
  return on() && path && path[0] != '/';
}

int
simOpen(const char * path, int flags, mode_t mode)
{
  static auto r = real<int(const char *, int, ...)>("open");
  Quiet q;
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  if (auto f = fault(wr ? OpenWrite : OpenRead, 3, path))
  {
    hurt(wr ? "open for writing fails" : "open for reading fails", path);
    errno = f == 1 ? EACCES : f == 2 ? EMFILE : wr ? ENOSPC : EIO;
    return -1;
  }
  int fd = r(path, flags, mode);
  if (fd >= 0)
    w->fds[fd] = { path, wr };
  return fd;
}

ssize_t
simWrite(int fd, const char * p, size_t n, bool whole = false)
{
  static auto r = real<ssize_t(int, const void *, size_t)>("write");
  Quiet q;
  auto path = w->fds[fd].first;
  if (auto f = fault(Write, 2, path))
  {
    size_t part = w->plan.s->draw(3) ? 0 : n / 2;
    hurt(f == 1 ? "disk full" : "write error", path + " after " + std::to_string(part) + " of " + std::to_string(n));
    // what the caller is told: the part that was written first, the error with the next write
    if (part && !whole)
    {
      r(fd, p, part);
      w->plan.mode = 3; // and from now on nothing fits
      w->plan.at = 0;
      return part;
    }
    errno = f == 1 ? ENOSPC : EIO;
    return -1;
  }
  size_t m = fits(n);
  if (m < n)
  {
    hurt("disk full", path);
    if (!m)
    {
      errno = ENOSPC;
      return -1;
    }
  }
  else if (n > 1 && noise(3))
  {
    w->kinds["short write"]++;
    m = 1 + w->plan.s->draw(n - 1);
  }
  else if (!whole && noise(8))
  {
    w->kinds["interrupted write"]++;
    errno = EINTR;
    return -1;
  }
  auto k = r(fd, p, m);
  if (k > 0)
    w->written += k;
  return k;
}

int
simClose(int fd, int (*closeReal)(int))
{
  Quiet q;
  auto it = w->fds.find(fd);
  auto [path, wr] = it->second;
  w->fds.erase(it);
  if (!wr)
    return closeReal(fd);
  if (fault(Close, 1, path))
  {
    // a network or quota file system reports lost data only now
    struct stat st;
    if (fstat(fd, &st) == 0)
      (void)!ftruncate(fd, st.st_size / 2);
    hurt("close fails", path);
    closeReal(fd);
    errno = EIO;
    return -1;
  }
  return closeReal(fd);
}

bool
calledFromLibrary(void * ra)
{
  Dl_info i;
  return dladdr(ra, &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++");
}

// ------------------------------------------------------------------------- standard output

struct Out : std::streambuf
{
  // what a process has not yet flushed is in its buffer
  bool
  drain()
  {
    Quiet q;
    auto & p = *w->procs.back();
    if (p.buf.empty())
      return true;
    auto f = fault(Stdout, 2, std::to_string(p.buf.size()) + " bytes");
    size_t m = f ? 0 : fits(p.buf.size());
    p.out += p.buf.substr(0, m);
    w->written += m;
    bool ok = m == p.buf.size();
    p.buf.clear();
    if (!ok)
    {
      hurt("standard output fails", p.name);
      p.broken = true;
    }
    return ok;
  }
  int
  overflow(int c) override
  {
    if (!on() || w->procs.empty())
      return 0;
    if (c != EOF)
    {
      Quiet q;
      auto & p = *w->procs.back();
      p.buf += char(c);
      if (p.buf.size() >= 4096 && !drain())
        return EOF;
    }
    return 0;
  }
  std::streamsize
  xsputn(const char * s, std::streamsize n) override
  {
    if (!on() || w->procs.empty())
      return n;
    Quiet q;
    auto & p = *w->procs.back();
    p.buf.append(s, n);
    if (p.buf.size() >= 4096 && !drain())
      return 0;
    return n;
  }
  int
  sync() override
  {
    if (!on() || w->procs.empty())
      return 0;
    return drain() ? 0 : -1;
  }
};
Out * out;

// ------------------------------------------------------------------------------- processes

int
runProcess(const std::string & name, int (*mainFn)(int, char **), const std::vector<std::string> & args)
{
  Proc * p;
  std::vector<char *> * argv;
  {
    Quiet q;
    p = new Proc;
    p->name = name;
    argv = new std::vector<char *>;
    for (auto & a : args)
      argv->push_back(strdup(a.c_str()));
    argv->push_back(nullptr);
    w->procs.push_back(p);
    std::cout.clear();
  }
  int arena = heapArena(1);
  int st = setjmp(p->back);
  if (st == 0)
  {
    int rc = 0;
    try
    {
      rc = mainFn(int(argv->size()) - 1, argv->data());
    }
    catch (std::exception & e)
    {
      {
        Quiet q;
        w->log.push_back(std::string("uncaught exception: ") + e.what());
      }
      leave(256 + 6);
    }
    catch (...)
    {
      leave(256 + 6);
    }
    leave(rc & 255);
  }
  st--;
  heapArena(0);
  if (st < 256)
    out->drain(); // the standard streams are flushed when a process exits; nobody looks at the result
  p->buf.clear();
  w->procs.pop_back();
  w->lost |= p->broken;
  if (w->procs.empty())
    lastOut = p->out;
  heapArena(arena);
  return st;
}

std::vector<std::string>
words(const std::string & cmd)
{
  std::vector<std::string> r;
  std::string cur;
  bool any = false, quoted = false;
  char quote = 0;
  auto flush = [&]
  {
    if (any)
    {
      if (!quoted && cur.find('*') != std::string::npos)
      {
        std::set<std::string> hit;
        auto dir = fs::path(cur).parent_path();
        std::error_code ec;
        for (auto & e : fs::directory_iterator(dir.empty() ? "." : dir, ec))
        {
          auto n = (dir / e.path().filename()).string();
          if (fnmatch(cur.c_str(), n.c_str(), FNM_PATHNAME | FNM_PERIOD) == 0)
            hit.insert(n);
        }
        if (hit.empty())
          r.push_back(cur);
        for (auto & h : hit)
          r.push_back(h);
      }
      else
        r.push_back(cur);
    }
    cur.clear();
    any = quoted = false;
  };
  for (size_t i = 0; i < cmd.size(); i++)
  {
    char c = cmd[i];
    if (quote)
    {
      if (c == quote)
        quote = 0;
      else
        cur += c;
    }
    else if (c == '\\' && i + 1 < cmd.size())
    {
      cur += cmd[++i];
      any = true;
    }
    else if (c == '"' || c == '\'')
    {
      quote = c;
      any = quoted = true;
    }
    else if (c == ' ')
      flush();
    else
    {
      cur += c;
      any = true;
    }
  }
  flush();
  return r;
}

bool
slurp(const std::string & path, std::string & s)
{
  bool a = w ? w->active : false;
  if (w)
    w->active = false;
  std::ifstream f(path, std::ios::binary);
  bool ok = bool(f);
  std::ostringstream o;
  if (ok && f.peek() != EOF)
    o << f.rdbuf();
  s = o.str();
  if (w)
    w->active = a;
  return ok;
}

// cut: how much of the text reaches the file, in quarters
bool
spill(const std::string & path, const std::string & text, int quarters = 4)
{
  bool a = w ? w->active : false;
  size_t n = text.size() * quarters / 4, m = n;
  if (w)
  {
    w->active = false;
    m = fits(n);
    w->written += m;
  }
  bool ok;
  {
    std::ofstream f(path, std::ios::binary | std::ios::trunc);
    f << text.substr(0, m);
    f.close();
    ok = bool(f);
  }
  if (m < n)
    hurt("disk full", path);
  if (w)
    w->active = a;
  return ok && m == n;
}

// one of the compilers that are not part of this project
int
standIn(const std::vector<std::string> & a, int quarters)
{
  auto base = fs::path(a[0]).filename().string();
  std::vector<std::string> in;
  std::string o, mf, opt, libs;
  bool parse = false, extract = false;
  for (size_t i = 1; i < a.size(); i++)
  {
    auto & x = a[i];
    if (x == "-o" && i + 1 < a.size())
      o = a[++i];
    else if (x == "-MF" && i + 1 < a.size())
      mf = a[++i];
    else if ((x == "-MT" || x == "-Xclang" || x == "--hls-function") && i + 1 < a.size())
      i++;
    else if (x == "-S" && base == "clang")
      parse = true;
    else if (x == "--extract")
      extract = true;
    else if (x.rfind("-O", 0) == 0)
      opt = x;
    else if (x.rfind("--relocation-model=", 0) == 0)
      opt += " " + x.substr(19);
    else if (x.rfind("-l", 0) == 0)
      libs += " " + x.substr(2);
    else if (x[0] != '-')
      in.push_back(x);
  }
  if (in.empty() || o.empty())
    return 1;
  std::vector<std::string> text(in.size());
  for (size_t i = 0; i < in.size(); i++)
    if (!slurp(in[i], text[i]))
    {
      w->log.push_back("  " + base + ": no such file: " + in[i]);
      return 1;
    }
  std::string r;
  if (base == "clang" && parse)
  {
    if (in.size() != 1 || text[0].rfind("C ", 0) != 0)
      return 1;
    auto id = text[0].substr(2, text[0].find('\n') - 2);
    unsigned k = unsigned(hashStr(text[0]) % 1000);
    std::ostringstream m;
    m << "source_filename = \"" << in[0] << "\"\n@g_" << id << " = global i32 " << k << "\n";
    m << "define i32 @f_" << id << "(i32 %x, ptr %p) {\nentry:\n  %a = alloca i32\n  store i32 " << k
      << ", ptr %a\n  br label %loop\nloop:\n  %i = phi i32 [ 0, %entry ], [ %j, %loop ]\n  %v = load i32, ptr %a\n"
      << "  %s = add i32 %v, %x\n  store i32 %s, ptr %a\n  store i32 %s, ptr @g_" << id
      << "\n  %j = add i32 %i, 1\n  %c = icmp slt i32 %j, " << 1 + k % 7
      << "\n  br i1 %c, label %loop, label %done\ndone:\n  %r = load i32, ptr %a\n  ret i32 %r\n}\n";
    r = m.str();
    if (!mf.empty() && !spill(mf, in[0] + ":\n", quarters))
      return 1;
  }
  else if (base == "clang")
  {
    r = "EXE" + libs + "\n";
    for (auto & t : text)
    {
      if (t.rfind("OBJ", 0) != 0)
        return 1;
      r += "==\n" + t;
    }
  }
  else if (base == "llc")
  {
    if (text[0].find("define") == std::string::npos || text[0].find("}\n") == std::string::npos)
      return 1;
    r = "OBJ " + opt + "\n" + text[0];
  }
  else if (base == "opt" || base == "llvm-link")
  {
    for (auto & t : text)
      r += t;
    r += "; " + base + "\n";
  }
  else if (base == "jlm-hls")
  {
    if (!spill(o + ".rest.ll", text[0] + "; rest\n", quarters))
      return 1;
    if (extract)
      return spill(o + ".function.ll", text[0] + "; function\n", quarters) ? 0 : 1;
    if (!spill(o + ".ref.ll", text[0] + "; ref\n", quarters))
      return 1;
    return spill(o + ".fir", text[0] + "; fir\n", quarters) ? 0 : 1;
  }
  else
    return 127;
  return spill(o, r, quarters) ? 0 : 1;
}

int
runCommand(const std::string & cmd)
{
  Quiet q;
  auto a = words(cmd);
  if (a.empty())
    return 0;
  auto name = fs::path(a[0]).filename().string();
  int status;
  auto f = fault(System, 8, cmd);
  if (f)
    hurt(f == 1 ? "process cannot be started"
         : f <= 3 ? "subcommand fails"
         : f <= 6 ? "subcommand fails after part of its output"
                  : "subcommand killed",
        name);
  if (f == 1)
    status = -1;
  else if (f == 2)
    status = 127 << 8;
  else if (f == 3)
    status = 1 << 8;
  else if (name == "jlm-opt")
  {
    int st = f ? (f & 1 ? 256 + 9 : 1) : runProcess("jlm-opt", jlmOptMain, a);
    status = st >= 256 ? st - 256 : st << 8;
  }
  else
  {
    int st = standIn(a, f ? int(w->plan.s->draw(4)) : 4) << 8;
    status = f == 0                ? st
           : f == 4                ? 1 << 8
           : f == 5                ? 2 << 8
           : f == 6                ? 255 << 8
           : f == 7                ? 9           // killed
                                   : (128 + 11) << 8; // crashed below a shell
  }
  w->log.push_back("  -> " + std::to_string(status));
  w->commands.push_back({ cmd, status });
  return status;
}

}

// ------------------------------------------------------------------------ what a run is made of

namespace
{

using Files = std::map<std::string, std::string>;

struct Result
{
  int status = 0;
  uint64_t ops = 0, written = 0, allocs = 0;
  std::string out;
  Files files;
  std::vector<std::string> log, harmful;
  std::vector<std::pair<std::string, int>> commands;
  std::map<std::string, uint64_t> kinds;
  uint64_t clockCalls = 0;
  bool lost = false, hidden = false;
};

Files
snapshot()
{
  Files r;
  for (auto it = fs::recursive_directory_iterator("."); it != fs::recursive_directory_iterator(); ++it)
  {
    auto n = it->path().lexically_relative(".").string();
    if (it->is_directory())
      r[n + "/"] = "";
    else
      slurp(n, r[n]);
  }
  return r;
}

void
restore(const Files & f)
{
  Files now = snapshot();
  for (auto it = now.rbegin(); it != now.rend(); ++it)
    if (!f.count(it->first))
    {
      auto n = it->first;
      if (n.back() == '/')
        n.pop_back();
      ::remove(n.c_str());
    }
  for (auto & [n, t] : f)
    if (n.back() == '/')
      fs::create_directories(n);
    else if (!now.count(n) || now[n] != t)
      spill(n, t);
}

void
save(std::ostream & o, const std::string & s)
{
  uint64_t n = s.size();
  o.write((char *)&n, 8);
  o.write(s.data(), n);
}
std::string
load(std::istream & i)
{
  uint64_t n = 0;
  i.read((char *)&n, 8);
  std::string s(n, 0);
  i.read(&s[0], n);
  return s;
}

// C++ string streams swallow the failure of an allocation and drop the text
const std::string hiddenClass = "success reported though a string stream dropped text when an allocation failed";

struct Invocation
{
  std::string tool; // jlc, jhls, jlm-opt, script or viewer
  std::vector<std::string> args;
};

std::string
text(const Invocation & v)
{
  std::string r = v.tool;
  for (auto & a : v.args)
    r += (v.tool == "script" ? "\n  $ " : " ") + a;
  return r;
}

// running out of memory may end a process in any way
void
crashed(int)
{
  if (on() && !w->procs.empty() && w->plan.mode == 4)
    leave(256 + 11);
  signal(SIGSEGV, SIG_DFL);
}

Result
perform(const Invocation & v, Plan plan, uint64_t seed)
{
  Quiet q;
  auto * world = new World;
  world->plan = plan;
  world->random = Rng(seed);
  world->clockRng = Rng(seed + 1);
  world->clock = 1000000000ull * (1 + seed % 1000000);
  w = world;
  auto * old = std::cout.rdbuf(out);
  uint64_t before = heapCount();
  if (plan.mode == 4)
  {
    heapFailAt(plan.at);
    struct sigaction sa = {};
    sa.sa_handler = crashed;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
  }
  w->active = true;
  Result r;
  lastOut.clear();
  if (v.tool == "script")
  {
    for (auto & l : v.args)
      if (r.status == 0)
        r.status = runCommand(l);
  }
  else
    r.status = runProcess(
        v.tool,
        v.tool == "jlc"    ? jlcMain
        : v.tool == "jhls" ? jhlsMain
                           : jlmOptMain,
        [&]
        {
          auto a = v.args;
          a.insert(a.begin(), v.tool);
          return a;
        }());
  w->active = false;
  heapFailAt(0);
  for (auto & [fd, x] : w->fds) // of processes that ended
    close(fd);
  std::cout.rdbuf(old);
  r.out = lastOut;
  r.ops = w->ops;
  r.written = w->written;
  r.allocs = heapCount() - before;
  r.log = w->log;
  r.harmful = w->harmful;
  r.commands = w->commands;
  r.kinds = w->kinds;
  r.clockCalls = w->clockCalls;
  r.lost = w->lost;
  r.hidden = plan.mode == 4 && heapFailedInStringStream();
  r.files = snapshot();
  return r;
}

// the same invocation from the same state without any fault, in a copy of this process
Result
reference(const Invocation & v, uint64_t seed, const Files & state)
{
  Quiet q;
  fflush(stdout);
  pid_t p = fork();
  if (p == 0)
  {
    struct itimerval tv = {};
    tv.it_value.tv_sec = 20;
    setitimer(ITIMER_PROF, &tv, nullptr);
    alarm(60);
    auto r = perform(v, Plan(), seed);
    std::ofstream o("../ref", std::ios::binary);
    uint64_t n[4] = { uint64_t(r.status), r.ops, r.written, r.allocs };
    o.write((char *)n, sizeof n);
    save(o, lastOut);
    n[0] = r.files.size();
    o.write((char *)n, 8);
    for (auto & [a, b] : r.files)
      save(o, a), save(o, b);
    n[0] = r.log.size();
    o.write((char *)n, 8);
    for (auto & l : r.log)
      save(o, l);
    n[0] = r.commands.size();
    o.write((char *)n, 8);
    for (auto & [a, b] : r.commands)
      save(o, a), save(o, std::to_string(b));
    o.close();
    _exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR)
    ;
  Result r;
  if (st != 0)
    r.status = 1000;
  else
  {
    std::ifstream i("../ref", std::ios::binary);
    uint64_t n[4];
    i.read((char *)n, sizeof n);
    r.status = int(n[0]);
    r.ops = n[1];
    r.written = n[2];
    r.allocs = n[3];
    r.out = load(i);
    i.read((char *)n, 8);
    for (uint64_t k = n[0]; k--;)
    {
      auto a = load(i);
      r.files[a] = load(i);
    }
    i.read((char *)n, 8);
    for (uint64_t k = n[0]; k--;)
      r.log.push_back(load(i));
    i.read((char *)n, 8);
    for (uint64_t k = n[0]; k--;)
    {
      auto a = load(i);
      r.commands.push_back({ a, std::stoi(load(i)) });
    }
  }
  ::remove("../ref");
  restore(state);
  return r;
}

}

}

// ---------------------------------------------------- the C library as the tools see it

extern "C"
{
int
open(const char * path, int flags, ...)
{
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE))
  {
    va_list l;
    va_start(l, flags);
    mode = va_arg(l, mode_t);
    va_end(l);
  }
  if (sim::inScope(path))
    return sim::simOpen(path, flags, mode);
  static auto r = sim::real<int(const char *, int, ...)>("open");
  return r(path, flags, mode);
}

ssize_t
write(int fd, const void * p, size_t n)
{
  if (sim::on() && sim::w->fds.count(fd))
    return sim::simWrite(fd, (const char *)p, n);
  static auto r = sim::real<ssize_t(int, const void *, size_t)>("write");
  return r(fd, p, n);
}

ssize_t
writev(int fd, const struct iovec * v, int n)
{
  if (sim::on() && sim::w->fds.count(fd))
  {
    std::string all;
    int old = sim::heapArena(0);
    for (int i = 0; i < n; i++)
      all.append((const char *)v[i].iov_base, v[i].iov_len);
    auto k = sim::simWrite(fd, all.data(), all.size());
    int e = errno;
    std::string().swap(all);
    sim::heapArena(old);
    errno = e;
    return k;
  }
  static auto r = sim::real<ssize_t(int, const struct iovec *, int)>("writev");
  return r(fd, v, n);
}

ssize_t
read(int fd, void * p, size_t n)
{
  static auto r = sim::real<ssize_t(int, void *, size_t)>("read");
  if (sim::on() && sim::w->fds.count(fd))
  {
    sim::Quiet q;
    auto path = sim::w->fds[fd].first;
    if (sim::fault(sim::Read, 1, path))
    {
      sim::hurt("read error", path);
      errno = EIO;
      return -1;
    }
    if (n > 1 && sim::noise(3))
    {
      sim::w->kinds["short read"]++;
      n = 1 + sim::w->plan.s->draw(n - 1 < 200 ? n - 1 : 200);
    }
    else if (sim::noise(8))
    {
      sim::w->kinds["interrupted read"]++;
      errno = EINTR;
      return -1;
    }
    return r(fd, p, n);
  }
  return r(fd, p, n);
}

int
close(int fd)
{
  static auto r = sim::real<int(int)>("close");
  if (sim::on() && sim::w->fds.count(fd))
    return sim::simClose(fd, r);
  return r(fd);
}

static ssize_t
cookieWrite(void * c, const char * p, size_t n)
{
  size_t done = 0;
  while (done < n && sim::on()) // like the C library: until everything is written or an error occurs
  {
    auto k = sim::simWrite(int(intptr_t(c)), p + done, n - done, true);
    if (k < 0)
      break;
    done += k;
  }
  return done;
}
static int
cookieClose(void * c)
{
  return close(int(intptr_t(c)));
}

FILE *
fopen(const char * path, const char * mode)
{
  static auto r = sim::real<FILE *(const char *, const char *)>("fopen");
  if (!sim::inScope(path))
    return r(path, mode);
  if (sim::calledFromLibrary(__builtin_return_address(0)))
  {
    // the C++ library goes on with the descriptor
    sim::Quiet q;
    bool wr = mode[0] != 'r';
    if (auto f = sim::fault(wr ? sim::OpenWrite : sim::OpenRead, 3, path))
    {
      sim::hurt(wr ? "open for writing fails" : "open for reading fails", path);
      errno = f == 1 ? EACCES : f == 2 ? EMFILE : wr ? ENOSPC : EIO;
      return nullptr;
    }
    FILE * f = r(path, mode);
    if (f)
      sim::w->fds[fileno(f)] = { path, wr };
    return f;
  }
  if (mode[0] != 'w')
    return r(path, mode);
  int fd = sim::simOpen(path, O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0)
    return nullptr;
  cookie_io_functions_t io = {};
  io.write = cookieWrite;
  io.close = cookieClose;
  return fopencookie((void *)intptr_t(fd), mode, io);
}

static FILE * closing;
static int
closeFile(int)
{
  static auto r = sim::real<int(FILE *)>("fclose");
  return r(closing);
}
int
fclose(FILE * f)
{
  static auto r = sim::real<int(FILE *)>("fclose");
  if (sim::on())
  {
    int fd = fileno(f);
    if (fd >= 0 && sim::w->fds.count(fd))
    {
      closing = f;
      return sim::simClose(fd, closeFile);
    }
  }
  return r(f);
}

int
mkdir(const char * path, mode_t mode) noexcept
{
  static auto r = sim::real<int(const char *, mode_t)>("mkdir");
  if (sim::inScope(path))
  {
    sim::Quiet q;
    if (auto f = sim::fault(sim::Mkdir, 2, path))
    {
      sim::hurt("mkdir fails", path);
      errno = f == 1 ? EACCES : ENOSPC;
      return -1;
    }
  }
  return r(path, mode);
}

int
system(const char * cmd)
{
  if (sim::on())
    return sim::runCommand(cmd);
  static auto r = sim::real<int(const char *)>("system");
  return r(cmd);
}

void
exit(int code) noexcept
{
  if (sim::on() && !sim::w->procs.empty())
    sim::leave(code & 255);
  static auto r = sim::real<void(int)>("exit");
  r(code);
  __builtin_unreachable();
}

void
abort() noexcept
{
  if (sim::on() && !sim::w->procs.empty())
    sim::leave(256 + 6);
  static auto r = sim::real<void()>("abort");
  r();
  __builtin_unreachable();
}

void
__assert_fail(const char * e, const char * f, unsigned l, const char * fn) noexcept
{
  if (sim::on() && !sim::w->procs.empty())
  {
    {
      sim::Quiet q;
      sim::w->log.push_back(std::string("assertion fails: ") + e);
    }
    sim::leave(256 + 6);
  }
  static auto r = sim::real<void(const char *, const char *, unsigned, const char *)>("__assert_fail");
  r(e, f, l, fn);
  __builtin_unreachable();
}

int
clock_gettime(clockid_t id, struct timespec * t) noexcept
{
  static auto r = sim::real<int(clockid_t, struct timespec *)>("clock_gettime");
  if (!sim::on())
    return r(id, t);
  // the clock goes on, stands still, or is set forwards or backwards
  auto v = sim::w->clockRng.next();
  if (v % 16 == 0)
    sim::w->clock -= (v >> 8) % 5000000000ull;
  else if (v % 16 == 1)
    sim::w->clock += (v >> 8) % 3600000000000ull;
  else if (v % 16 != 2)
    sim::w->clock += 1000;
  sim::w->clockCalls++;
  t->tv_sec = sim::w->clock / 1000000000ull;
  t->tv_nsec = sim::w->clock % 1000000000ull;
  return 0;
}

int
posix_spawnp(
    pid_t * pid,
    const char * file,
    const posix_spawn_file_actions_t * fa,
    const posix_spawnattr_t * at,
    char * const argv[],
    char * const env[])
{
  if (sim::on())
  {
    sim::Quiet q;
    std::string cmd = file;
    cmd += ":";
    for (auto a = argv; *a; a++)
      cmd += std::string(" ") + *a;
    sim::w->commands.push_back({ cmd, 0 });
    if (auto f = sim::fault(sim::Spawn, 3, cmd))
    {
      sim::hurt("process cannot be started", cmd);
      return f == 1 ? ENOENT : f == 2 ? EAGAIN : ENOMEM;
    }
    *pid = 4711;
    return 0;
  }
  static auto r = sim::real<
      int(pid_t *,
          const char *,
          const posix_spawn_file_actions_t *,
          const posix_spawnattr_t *,
          char * const *,
          char * const *)>("posix_spawnp");
  return r(pid, file, fa, at, argv, env);
}

pid_t
waitpid(pid_t pid, int * status, int options)
{
  static auto r = sim::real<pid_t(pid_t, int *, int)>("waitpid");
  if (!sim::on())
    return r(pid, status, options);
  sim::Quiet q;
  if (sim::noise(2))
  {
    sim::w->kinds["interrupted wait"]++;
    errno = EINTR;
    return -1;
  }
  auto f = sim::fault(sim::Wait, 3, "");
  *status = f == 0 ? 0 : f == 1 ? 1 << 8 : f == 2 ? 9 : 127 << 8;
  if (f)
    sim::hurt(f == 2 ? "subcommand killed" : "subcommand fails", "status " + std::to_string(*status));
  sim::w->commands.push_back({ "reaped", *status });
  return pid;
}
}

unsigned
std::random_device::_M_getval()
{
  if (sim::on())
    return unsigned(sim::w->random.next());
  static int fd = -1;
  if (fd < 0)
    fd = ::open("/dev/urandom", O_RDONLY);
  unsigned v = 0;
  (void)!::read(fd, &v, sizeof v);
  return v;
}

// --------------------------------------------------------------------------------- scenarios

namespace sim
{

std::string
scratchOf(int pid)
{
  char name[32];
  snprintf(name, sizeof name, "/jlmsim-%010d", pid);
  return (access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp") + std::string(name);
}

namespace
{

struct Scratch
{
  std::string base;
  Scratch()
  {
    base = scratchOf(getpid());
    fs::create_directories(base + "/w/tmp");
    if (chdir((base + "/w").c_str()) != 0)
      throw std::runtime_error("no scratch directory");
    setenv("TMPDIR", "tmp", 1);
  }
  ~Scratch()
  {
    (void)!chdir("/");
    std::error_code ec;
    fs::remove_all(base, ec);
  }
};

struct Unit // one input of the drivers
{
  std::string path, id, content, object;
  bool source = true;
};

std::string
objectOf(const std::string & src)
{
  auto p = fs::path(src);
  auto n = p.filename().string();
  n = n.substr(0, n.find('.')) + ".o";
  return p.has_parent_path() ? (p.parent_path() / n).string() : n;
}

std::string
checkObject(const std::string & o, const std::vector<Unit> & all, const Unit & u, const std::string & level)
{
  if (!u.source)
    return o == u.content ? "" : "object " + u.path + " is not the one given";
  if (o.rfind("OBJ -" + level + " static\n", 0) != 0)
    return "object of " + u.path + " is not compiled with -" + level;
  for (auto & x : all)
    if (x.source && (o.find("@f_" + x.id + "(") != std::string::npos) != (x.path == u.path))
      return x.path == u.path ? "object of " + u.path + " lacks its function"
                              : "object of " + u.path + " contains the function of " + x.path;
  if (o.size() < 2 || o.find("ret i32") == std::string::npos || o.find("}\n") == std::string::npos)
    return "object of " + u.path + " is incomplete";
  return "";
}

std::vector<std::string>
sections(const std::string & exe)
{
  std::vector<std::string> r;
  size_t at = exe.find("==\n");
  while (at != std::string::npos)
  {
    size_t e = exe.find("==\n", at + 3);
    r.push_back(exe.substr(at + 3, e == std::string::npos ? e : e - at - 3));
    at = e;
  }
  return r;
}

const char * passFlags[] = { "AAAndersenAgnostic",   "AAAndersenRegionAware", "AggregateAllocaSplitting",
                             "CommonNodeElimination", "DeadNodeElimination",   "FunctionInlining",
                             "IfConversion",          "InvariantValueRedirection", "IOBarrierElimination",
                             "LoadChainSeparation",   "LoopUnswitching",       "NodePullIn",
                             "NodePushOut",           "NodeReduction",         "PredicateCorrelation",
                             "ScalarEvolution",       "StoreValueForwarding",  "RvsdgTreePrinter" };
const char * statFlags[] = { "print-aggregation-time",  "print-agnostic-mod-ref-summarization", "print-aa-precision-evaluation",
                             "print-andersen-analysis", "print-annotation-time",  "print-cne-stat",
                             "print-cfr-time",          "print-dne-stat",         "print-iln-stat",
                             "printInvariantValueRedirection", "print-jlm-rvsdg-conversion", "print-reduction-stat",
                             "print-mod-ref-summarization", "print-rvsdg-construction", "print-rvsdg-destruction",
                             "print-rvsdg-optimization", "print-rvsdg-tree",       "print-scalar-evolution",
                             "print-store-value-forwarding" };

std::string
tail(const std::vector<std::string> & v, size_t n)
{
  std::string r;
  for (size_t i = v.size() > n ? v.size() - n : 0; i < v.size(); i++)
    r += v[i] + "\n";
  return r;
}

std::string
difference(const Result & want, const Result & got)
{
  for (auto & [n, t] : want.files)
  {
    auto it = got.files.find(n);
    if (it == got.files.end())
      return n + " is missing";
    if (it->second != t && it->second.size() == t.size())
    {
      size_t at = 0;
      while (it->second[at] == t[at])
        at++;
      at = at > 60 ? at - 60 : 0;
      return n + " has ..." + it->second.substr(at, 120) + "... instead of ..." + t.substr(at, 120) + "...";
    }
    if (it->second != t)
      return n + " has " + std::to_string(it->second.size()) + " bytes instead of " + std::to_string(t.size())
           + (it->second.size() == t.size() ? " (other ones)" : "");
  }
  for (auto & [n, t] : got.files)
    if (!want.files.count(n))
      return n + " exists";
  if (want.out != got.out)
    return "standard output has " + std::to_string(got.out.size()) + " bytes instead of " + std::to_string(want.out.size())
         + (want.out.size() == got.out.size() ? " (other ones)" : "");
  return "";
}

const char *
kindOf(const std::string & file)
{
  auto ends = [&](const char * e)
  {
    size_t n = strlen(e);
    return file.size() >= n && file.compare(file.size() - n, n, e) == 0;
  };
  return ends("statistics.log") ? "statistics" : file.find("rvsdgTree") != std::string::npos ? "tree" : "";
}

void
viewer(Ctx & c, Stream & r, Stream & f)
{
  c.stage("starting another program", Blame::Subject);
  std::string prog = "prog" + std::to_string(r.draw(3));
  std::vector<std::string> args;
  for (unsigned n = r.draw(4); n--;)
    args.push_back("arg" + std::to_string(r.draw(10)));
  World world;
  w = &world;
  world.plan.mode = f.draw(3) ? 1 : 0;
  world.plan.at = f.draw(2);
  world.plan.noise = f.draw(2);
  world.plan.s = &f;
  world.active = true;
  int st = jlm::util::executeProgramAndWait(prog, args);
  world.active = false;
  std::string want = prog + ": " + prog;
  for (auto & a : args)
    want += " " + a;
  std::string t = want + "\n" + tail(world.log, 20);
  c.note(t);
  for (auto & [k, n] : world.kinds)
    c.count("fault: " + k, n);
  c.digest(hashStr(t) + st);
  c.state(hashStr(t));
  if (world.commands.empty() || world.commands[0].first != want)
    c.fail("program started with other arguments", t);
  if (world.harmful.empty() && world.commands.size() != 2)
    c.fail("program is not waited for", t);
  if ((st == EXIT_SUCCESS) != world.harmful.empty())
    c.fail(st == EXIT_SUCCESS ? "failure of a program reported as success" : "success of a program reported as failure", t);
  c.sample(t);
}

Plan
drawPlan(Stream & f, const Result & ref)
{
  Plan p;
  p.s = &f;
  p.mode = int(f.pick({ 2, 6, 2, 3, 1, 1 }));
  p.noise = f.draw(3) != 0;
  switch (p.mode)
  {
  case 1:
  case 5: p.at = f.draw(unsigned(ref.ops ? ref.ops : 1)); break;
  case 3: p.at = f.draw(unsigned(ref.written ? ref.written : 1)); break;
  case 4: p.at = 1 + f.draw(unsigned(ref.allocs ? ref.allocs : 1)); break;
  }
  return p;
}

}

void
runTools(Ctx & c)
{
  Quiet q; // only the tools allocate from the heap of the run
  auto & r = c.ch["prog"];
  auto & f = c.ch["fault"];
  c.stage("harness", Blame::Harness);
  Scratch scratch;
  if (!out)
    out = new Out;
  unsigned kind = r.pick({ 4, 3, 4, 1, 1, 1 });
  if (kind == 5)
    return viewer(c, r, f);
  Invocation inv;
  std::vector<Unit> units;
  std::string level = "O0", target, libs;
  bool noLink = false;
  Files inputs;
  if (kind <= 1)
  {
    inv.tool = "jlm-opt";
    fs::create_directories("src");
    fs::create_directories("out");
    std::string m;
    if (kind == 0)
    {
      spill("src/in.c", "C x\n");
      std::vector<std::string> a{ "clang", "-S", "-o", "src/m.ll", "src/in.c" };
      World world;
      w = &world;
      standIn(a, 4);
      w = nullptr;
    }
    else
    {
      auto p = generate(c.ch, Profile(c.ch["prog"].draw(unsigned(Profile::N))));
      diversify(p, c.ch["prog"], Profile::General);
      spill("src/m.ll", printModule(*p.mod));
    }
    for (unsigned n = r.draw(5); n--;)
      inv.args.push_back(std::string("--") + passFlags[r.draw(sizeof passFlags / sizeof *passFlags)]);
    std::set<std::string> once;
    for (unsigned n = r.draw(4) ? 0 : 1 + r.draw(4); n--;)
    {
      auto s = std::string("--") + statFlags[r.draw(sizeof statFlags / sizeof *statFlags)];
      if (once.insert(s).second)
        inv.args.push_back(s);
    }
    if (r.draw(6) == 5)
      inv.args.push_back("--dumpRvsdgGraphs");
    if (r.draw(2))
    {
      inv.args.push_back("-s");
      inv.args.push_back("stats");
    }
    static const char * formats[] = { "llvm", "ascii", "tree", "dot", "json", "jsonTree" };
    inv.args.push_back(std::string("--output-format=") + formats[r.pick({ 6, 2, 2, 2, 2, 2 })]);
    if (r.draw(4))
    {
      inv.args.push_back("-o");
      inv.args.push_back("out/o");
      if (r.draw(3) == 2)
        spill("out/o", "something older\n");
    }
    inv.args.push_back("src/m.ll");
  }
  else
  {
    bool hls = kind == 4;
    inv.tool = hls ? "jhls" : "jlc";
    static const char * names[] = { "a.c", "b.c", "d1/a.c", "d1/b.c", "d2/a.c", "x.y.c", "d2/z.c" };
    std::set<std::string> used;
    unsigned n = 1 + r.draw(4);
    for (unsigned i = 0; i < n; i++)
    {
      Unit u;
      u.path = names[r.draw(sizeof names / sizeof *names)];
      u.id = "u" + std::to_string(i);
      u.source = hls || r.draw(4) != 3;
      u.object = objectOf(u.path);
      if (!u.source)
        u.path = u.object;
      if (!used.insert(u.object).second)
        continue;
      u.content = u.source ? "C " + u.id + "\n" + std::to_string(r.draw(100)) : "OBJ given\n@g_" + u.id + "\n";
      if (fs::path(u.path).has_parent_path())
        fs::create_directories(fs::path(u.path).parent_path());
      spill(u.path, u.content);
      if (u.source && r.draw(3) == 2)
        spill(u.object, "OBJ stale\n");
      units.push_back(u);
    }
    if (r.draw(2))
    {
      level = "O" + std::to_string(r.draw(4));
      inv.args.push_back("-" + level);
    }
    if (r.draw(3) == 2)
      inv.args.push_back("-MD");
    if (r.draw(3) == 2)
      inv.args.push_back("-DM=\"x\"");
    if (r.draw(3) == 2)
      inv.args.push_back("-Wall");
    if (r.draw(3) == 2)
    {
      inv.args.push_back("-lm");
      libs = " m";
    }
    if (hls)
    {
      inv.args.push_back("--hls-function=f_u0");
      target = "out";
      inv.args.push_back("-o");
      inv.args.push_back(target);
    }
    else
    {
      for (unsigned k = r.draw(4); k--;)
      {
        std::string p = passFlags[r.draw(sizeof passFlags / sizeof *passFlags - 1)];
        inv.args.push_back("-J" + p);
      }
      noLink = r.draw(4) == 3;
      target = "a.out";
      if (noLink)
        inv.args.push_back("-c");
      if (r.draw(2) && (!noLink || units.size() == 1))
      {
        target = noLink ? "o.o" : "exe";
        inv.args.push_back("-o");
        inv.args.push_back(target);
        if (noLink && units[0].source)
          units[0].object = target;
      }
    }
    for (auto & u : units)
      inv.args.push_back(u.path);
    if (kind == 3)
      inv.args.insert(inv.args.begin(), "-###");
  }
  uint64_t seed = r.draw(1u << 30);
  inputs = snapshot();
  c.note(text(inv) + "\n");

  auto structure = [&](const Files & files) -> std::string
  {
    auto get = [&](const std::string & n)
    {
      auto it = files.find(n);
      return it == files.end() ? std::string("(missing)") : it->second;
    };
    if (kind == 4)
    {
      auto o = get(target + ".o");
      if (o.rfind("OBJ -O3 pic\n", 0) != 0)
        return "object " + target + ".o is not an object";
      for (auto & u : units)
        if (o.find("@f_" + u.id + "(") == std::string::npos)
          return "function of " + u.path + " is missing";
      return "";
    }
    if (noLink)
    {
      for (auto & u : units)
      {
        auto e = checkObject(get(u.source ? u.object : u.path), units, u, level);
        if (!e.empty())
          return e;
      }
      return "";
    }
    auto exe = get(target);
    if (exe.rfind("EXE" + libs + "\n", 0) != 0)
      return "executable is not linked with the libraries, or missing";
    auto s = sections(exe);
    if (s.size() != units.size())
      return "executable has " + std::to_string(s.size()) + " objects instead of " + std::to_string(units.size());
    for (size_t i = 0; i < s.size(); i++)
    {
      auto e = checkObject(s[i], units, units[i], level);
      if (!e.empty())
        return e;
    }
    return "";
  };

  unsigned rounds = 1 + f.draw(3);
  Files state = inputs;
  for (unsigned k = 0; k < rounds; k++)
  {
    seed++;
    auto ref = reference(inv, seed, state);
    std::string t = "invocation " + std::to_string(k) + ": " + text(inv) + "\n";
    if (ref.status != 0)
    {
      if (kind == 1)
        c.discard("the tool fails without a fault");
      c.fail(k ? "failure without a fault after an earlier failure" : "failure without a fault",
          t + "status " + std::to_string(ref.status) + "\n" + tail(ref.log, 20));
    }
    if (kind == 3)
    {
      // printed, not run: nothing may happen but the printing; then a shell runs what was printed
      if (!ref.commands.empty())
        c.fail("commands run though only printing was asked for", t + ref.commands[0].first);
      Plan p = drawPlan(f, ref);
      c.stage(inv.tool, Blame::Subject);
      auto got = perform(inv, p, seed);
      c.stage("harness", Blame::Harness);
      for (auto & [n, x] : got.kinds)
        c.count("fault: " + n, x);
      if (p.mode == 4)
        c.count("fault: allocation fails");
      if (got.status == 0 && (got.out != ref.out || got.lost))
        c.fail(got.hidden ? hiddenClass : "success reported though standard output is incomplete", t + tail(got.log, 20));
      if (p.mode == 4)
        break;
      Invocation script;
      script.tool = "script";
      std::istringstream is(ref.out);
      for (std::string l; std::getline(is, l);)
        script.args.push_back(l);
      auto done = perform(script, Plan(), seed);
      auto e = done.status ? "a command fails with status " + std::to_string(done.status) : structure(done.files);
      if (!e.empty())
        c.fail("printed commands do not do the job", t + e + "\n" + text(script) + "\n" + tail(done.log, 20));
      c.state(hashStr(text(script)));
      c.digest(hashStr(text(script)));
      c.count("invocations");
      c.sample(t);
      restore(inputs);
      state = inputs;
      continue;
    }
    if (kind >= 2)
    {
      auto e = structure(ref.files);
      if (!e.empty())
        c.fail("wrong result without a fault", t + e + "\n" + tail(ref.log, 40));
    }
    Plan p = drawPlan(f, ref);
    c.stage(inv.tool, Blame::Subject);
    auto got = perform(inv, p, seed);
    c.stage("harness", Blame::Harness);
    c.count("invocations");
    c.count("simulated steps", got.ops);
    c.count("clock readings (each going on, standing still or jumping)", got.clockCalls);
    if (got.status >= 256)
      c.count("invocations that ended abnormally");
    else if (got.status)
      c.count("invocations that reported failure");
    else
      c.count("invocations that reported success");
    for (auto & [n, x] : got.kinds)
      c.count("fault: " + n, x);
    if (p.mode == 4)
      c.count("fault: allocation fails");
    std::string log;
    for (auto & l : got.log)
      log += l + "\n";
    c.note(t + log + "status " + std::to_string(got.status) + "\n");
    c.digest(mix(hashStr(log), got.status));
    c.state(mix(hashStr(log), got.status));
    t += "faults:\n" + tail(got.harmful, 10) + "status " + std::to_string(got.status) + "\n" + tail(got.log, 30);
    bool harmless = got.harmful.empty() && p.mode != 4;
    if (harmless && got.status != 0)
      c.fail("failure without a fault", t);
    if (got.status == 0)
    {
      for (auto & [cmd, st] : got.commands)
        if (st)
          c.fail("success reported though a subcommand failed", t + cmd);
      auto d = difference(ref, got);
      if (!d.empty())
        c.fail(got.hidden ? hiddenClass : std::string("success reported though output is missing or incomplete") + " (" + inv.tool + " "
                   + kindOf(d.substr(0, d.find(' '))) + ")",
            d + "\n" + t);
      if (got.lost)
        c.fail("success reported though standard output is incomplete", t);
    }
    else
    {
      for (size_t i = 0; i + 1 < got.commands.size(); i++)
        if (got.commands[i].second)
          c.fail("commands run after one that failed", t + got.commands[i].first);
      for (auto & [n, x] : got.files)
        if (!ref.files.count(n))
          c.fail("unexpected file " + n, t);
    }
    for (auto & [n, x] : inputs)
      if (n.back() != '/' && (n == "src/m.ll" || std::any_of(units.begin(), units.end(), [&](auto & u) { return u.path == n && (u.source || !noLink); })))
        if (!got.files.count(n) || got.files[n] != x)
          c.fail("input file changed", t + n);
    state = got.files;
    if (p.mode == 4)
      break; // the compiler libraries of this process may be left in any state
  }
  c.sample(text(inv));
}

}
