#include "alloc.hpp"
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace
{
constexpr uint64_t ASIZE = 8ull << 30;
constexpr uint64_t BASE[2] = { 0x5a0000000000ull, 0x5b0000000000ull };
constexpr uint64_t LIMIT = 2ull << 30;
constexpr int NCLS = 128 + 32;

struct Block
{
  uint64_t tag;
  Block * next;
};
struct Arena
{
  uint64_t cur, end;
  Block * free_[NCLS];
  uint64_t layout; // 0: address order
};
Arena arena[2];
int current = 0;
bool ready = false;
uint64_t failIn = 0, allocs = 0;
void * failStack[12];
int failDepth = 0;

void
die(const char * m)
{
  (void)!write(2, m, __builtin_strlen(m));
  abort();
}

void
init()
{
  for (int i = 0; i < 2; i++)
  {
    void * p = mmap(
        (void *)BASE[i],
        ASIZE,
        PROT_READ | PROT_WRITE,
        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE,
        -1,
        0);
    if (p != (void *)BASE[i])
      die("simulator heap: cannot map arena\n");
    arena[i].cur = BASE[i];
    arena[i].end = BASE[i] + ASIZE;
  }
  ready = true;
}

int
classOf(size_t total, size_t & size)
{
  if (total <= 2048)
  {
    int c = int((total + 15) / 16);
    size = size_t(c) * 16;
    return c - 1;
  }
  int b = 64 - __builtin_clzll(total - 1); // 2^b >= total
  size = size_t(1) << b;
  return 128 + (b - 11);
}

uint64_t
next(uint64_t & s)
{
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// The heap of a run is checked: fresh memory holds junk, freed memory holds a pattern that makes no
// valid pointer and must be untouched when it is used again, and guards follow every block.
constexpr unsigned char FRESH = 0xa7, FREED = 0xf5, GUARD = 0xc3;
constexpr uint64_t FREETAG = 0xffffull << 48;
constexpr size_t NGUARD = 8, MAXFILL = 1024;

void *
hand(int w, uint64_t * h, uint64_t c, size_t n)
{
  auto * p = (unsigned char *)h + 16;
  if (w == 1)
  {
    if (h[0] >> 48 == 0xffff)
    {
      size_t m = h[0] & ~FREETAG;
      m = m < MAXFILL ? m : MAXFILL;
      size_t i = 0;
      for (uint64_t x; i + 8 <= m; i += 8)
      {
        memcpy(&x, p + i, 8);
        if (x != 0x0101010101010101ull * FREED)
          die("simulator heap: freed memory was written to\n");
      }
    }
    memset(p, FRESH, n < MAXFILL ? n : MAXFILL);
    memset(p + n, GUARD, NGUARD);
  }
  h[0] = c;
  h[1] = n;
  return p;
}

// block layout: 16 byte header {class, size}, payload, guard
void *
get(size_t n, bool mayFail = true)
{
  if (!ready)
    init();
  size_t size;
  int c = classOf(n + 16 + NGUARD, size);
  if (current == 1)
  {
    allocs++;
    if (mayFail && failIn && --failIn == 0)
    {
      failDepth = backtrace(failStack, 12);
      throw std::bad_alloc();
    }
  }
  Arena & a = arena[current];
  if (Block * b = a.free_[c])
  {
    a.free_[c] = b->next;
    uint64_t * h = (uint64_t *)b;
    return hand(current, h, uint64_t(c), n);
  }
  if (a.cur + size > a.end || a.cur - BASE[current] > LIMIT)
    die("simulator heap: arena exhausted\n");
  if (a.layout && size <= 1024)
  {
    enum
    {
      K = 32
    };
    uint64_t at[K];
    for (int i = 0; i < K; i++)
      at[i] = a.cur + i * size;
    a.cur += K * size + 16 * (next(a.layout) % 8);
    for (int i = K - 1; i > 0; i--)
    {
      int j = int(next(a.layout) % (i + 1));
      auto t = at[i];
      at[i] = at[j];
      at[j] = t;
    }
    for (int i = 1; i < K; i++)
    {
      Block * b = (Block *)at[i];
      b->next = a.free_[c];
      a.free_[c] = b;
    }
    return hand(current, (uint64_t *)at[0], uint64_t(c), n);
  }
  uint64_t * h = (uint64_t *)a.cur;
  a.cur += size;
  return hand(current, h, uint64_t(c), n);
}

void
put(void * p)
{
  if (!p)
    return;
  uint64_t u = (uint64_t)p;
  int w = u >= BASE[1] ? 1 : 0;
  if (u < BASE[w] || u >= BASE[w] + ASIZE)
    die("simulator heap: foreign pointer\n");
  uint64_t * h = (uint64_t *)((char *)p - 16);
  uint64_t c = h[0];
  if (c >= NCLS)
    die("simulator heap: corrupt block (double free or overrun)\n");
  if (w == 1)
  {
    size_t n = h[1];
    for (size_t i = 0; i < NGUARD; i++)
      if (((unsigned char *)p)[n + i] != GUARD)
        die("simulator heap: memory past the end of a block was written to\n");
    memset(p, FREED, n < MAXFILL ? n : MAXFILL);
  }
  h[0] = FREETAG | h[1];
  Block * b = (Block *)h;
  b->next = arena[w].free_[c];
  arena[w].free_[c] = b;
}
}

namespace sim
{
void
heapEnterRun(uint64_t seed)
{
  current = 1;
  arena[1].layout = seed;
}
void
heapLayout(uint64_t seed)
{
  arena[1].layout = seed;
}
void
heapLeaveRun()
{
  current = 0;
}
int
heapArena(int n)
{
  int old = current;
  current = n;
  return old;
}
void
heapFailAt(uint64_t n)
{
  failIn = n;
  if (n)
    failDepth = 0;
}
bool
heapFailedInStringStream()
{
  for (int i = 0; i < failDepth; i++)
  {
    Dl_info d;
    if (dladdr(failStack[i], &d) && d.dli_sname && strstr(d.dli_sname, "basic_stringbuf"))
      return true;
  }
  return false;
}
uint64_t
heapCount()
{
  return allocs;
}
uint64_t
heapUsed()
{
  return arena[1].cur - BASE[1];
}
}

void *
operator new(size_t n)
{
  return get(n);
}
void *
operator new[](size_t n)
{
  return get(n);
}
void *
operator new(size_t n, const std::nothrow_t &) noexcept
{
  return get(n, false);
}
void *
operator new[](size_t n, const std::nothrow_t &) noexcept
{
  return get(n, false);
}
void
operator delete(void * p) noexcept
{
  put(p);
}
void
operator delete[](void * p) noexcept
{
  put(p);
}
void
operator delete(void * p, size_t) noexcept
{
  put(p);
}
void
operator delete[](void * p, size_t) noexcept
{
  put(p);
}
void
operator delete(void * p, const std::nothrow_t &) noexcept
{
  put(p);
}
void
operator delete[](void * p, const std::nothrow_t &) noexcept
{
  put(p);
}
static void *
aligned(size_t n, size_t al)
{
  if (al <= 16)
    return get(n);
  // payload start aligned; remember the real block in the header slot before it
  char * raw = (char *)get(n + al + 16);
  uint64_t p = ((uint64_t)raw + 16 + al - 1) / al * al;
  ((uint64_t *)p)[-1] = (uint64_t)raw;
  return (void *)p;
}
static void
unaligned(void * p, size_t al)
{
  if (!p)
    return;
  if (al <= 16)
    return put(p);
  put((void *)((uint64_t *)p)[-1]);
}
void *
operator new(size_t n, std::align_val_t al)
{
  return aligned(n, size_t(al));
}
void *
operator new[](size_t n, std::align_val_t al)
{
  return aligned(n, size_t(al));
}
void *
operator new(size_t n, std::align_val_t al, const std::nothrow_t &) noexcept
{
  return aligned(n, size_t(al));
}
void *
operator new[](size_t n, std::align_val_t al, const std::nothrow_t &) noexcept
{
  return aligned(n, size_t(al));
}
void
operator delete(void * p, std::align_val_t al) noexcept
{
  unaligned(p, size_t(al));
}
void
operator delete[](void * p, std::align_val_t al) noexcept
{
  unaligned(p, size_t(al));
}
void
operator delete(void * p, size_t, std::align_val_t al) noexcept
{
  unaligned(p, size_t(al));
}
void
operator delete[](void * p, size_t, std::align_val_t al) noexcept
{
  unaligned(p, size_t(al));
}
