// Simulated memory, the simulated environment (everything outside the compiled module) and the
// recorded history that makes two executions comparable.
#pragma once
#include "choice.hpp"
#include "ty.hpp"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim
{

struct Unsupported
{
  std::string what;
};
struct Ub
{
  std::string what;
};
struct ExitEx
{
};
struct LongJmpEx // control returns to where the context was saved
{
  unsigned serial;
  uint64_t value;
};
struct StepLimit
{
};
struct Mismatch
{
  std::string what;
};

struct Obj
{
  enum Kind
  {
    Global,
    Stack,
    Heap,
    Func,
    EnvObj
  } kind = Global;
  int id = -1;
  uint64_t base = 0, size = 0;
  std::string name;
  bool alive = true, readonly = false, exported = false;
  std::vector<uint8_t> d, p; // bytes, poison flags
  const void * site = nullptr; // allocation site (used by the alias-analysis oracle)
};

class Mem
{
public:
  std::vector<std::unique_ptr<Obj>> objs;
  std::map<uint64_t, Obj *> byBase;
  std::map<std::string, Obj *> byName;
  uint64_t cursor;
  Rng layout;
  uint64_t allocBytes = 0;
  std::function<void(Obj *, uint64_t off, const Ty *, const Val &)> onStore;
  std::function<void(Obj *, uint64_t off, uint64_t size, bool write)> onAccess;

  explicit Mem(uint64_t salt)
      : cursor(0x100000000ull * (0x1000 + salt % 0x700)),
        layout(mix(salt, 77))
  {}
  Obj * alloc(Obj::Kind k, uint64_t size, uint64_t align, const std::string & name = "");
  Obj * find(uint64_t addr) const; // object containing addr, one-past-the-end included
  Obj * access(uint64_t addr, uint64_t size, bool write) const; // throws Ub
  Val load(const Ty * t, uint64_t addr);
  void store(const Ty * t, uint64_t addr, const Val & v);
  void checkAlign(uint64_t addr, uint64_t align);
  void memcpy_(uint64_t d, uint64_t s, uint64_t n, bool mayOverlap);
  void memset_(uint64_t d, const Val & byte, uint64_t n);
  void free_(uint64_t a);
  // a store into (or read of) an object regardless of readonly flags
  void rawStore(Obj * o, uint64_t off, const Ty * t, const Val & v);
  Val rawLoad(const Obj * o, uint64_t off, const Ty * t) const;
};

// ---- what the program generator tells the environment about the module's interface -----------

struct Spec // a value crossing the module boundary
{
  const Ty * ty = nullptr;
  int cls = -1; // pointer: class of the pointee
  bool nullable = false;
  int sig = -1; // pointer: to a function of that signature
};
struct Field
{
  uint64_t off;
  Spec spec;
};
struct ClassInfo
{
  const Ty * ty = nullptr;
  std::vector<Field> fields; // leaf fields
};
struct FnSig
{
  Spec ret; // ty Void: none
  std::vector<Spec> args;
  bool variadic = false;
};
struct FnInfo
{
  int sig = -1;
  bool defined = false, exported = false;
  bool discardable = false; // exported, but goes away when the module itself has no use of it
};
struct ProgMeta
{
  std::vector<ClassInfo> classes;
  std::vector<FnSig> sigs;
  std::map<std::string, FnInfo> fns;
  std::vector<std::string> fnOrder;
  struct Glob
  {
    std::string name;
    int cls;
    bool constant, imported, exported, discardable = false;
  };
  std::vector<Glob> globals;
};

// ---- history ---------------------------------------------------------------------------------

struct CVal
{
  enum K
  {
    Poison,
    Bits,
    Ptr,
    Fn,
    Wild,
    Agg,
    Local // address of an object only the program knows
  } k = Wild;
  uint64_t b = 0;
  int obj = -1;
  int64_t off = 0;
  std::string fn;
  std::vector<CVal> e;
  std::string str() const;
};

struct ObjSnap
{
  int obj;
  std::vector<uint8_t> d;
  std::vector<uint8_t> m; // 0 compare, 1 poison, 2 part of a pointer slot
  std::vector<std::pair<uint32_t, CVal>> ptrs;
};

struct Action // what the environment does when it has control
{
  enum K
  {
    Write,
    NewObj,
    Call,
    Return,
    Exit,
    Jump // longjmp: obj is the serial number of the saved context, off the value
  } k;
  int obj = -1;
  uint64_t off = 0;
  const Ty * ty = nullptr;
  CVal v;
  int cls = -1;             // NewObj
  std::string fn;           // Call
  std::vector<CVal> args;   // Call
};

struct Event // control passes to the environment
{
  enum K
  {
    ExtCall,
    FnReturn,
    VolLoad,
    VolStore
  } k;
  std::string name;
  std::vector<CVal> args;
  std::vector<const Ty *> argTys;
  std::vector<ObjSnap> snaps;
  std::string str() const;
};

struct Step
{
  bool isEvent;
  Event ev;
  Action act;
};

struct Trace
{
  std::vector<Step> steps;
  std::map<uint64_t, bool> mallocFails; // by size
  std::map<std::string, int> named; // external-linkage globals: object ids
  std::map<int, size_t> died; // object id -> first event at which the object was found dead
  bool exited = false;
  // what the program reads after the first longjmp and has not written since: it must be in memory
  // by the time of the longjmp
  struct Needed
  {
    std::string global;
    uint64_t off;
    uint8_t byte;
  };
  std::vector<Needed> needed;
  bool jumps() const;
  Trace untilJump() const; // for an executor that cannot follow a longjmp
  size_t events() const;
  std::string str() const;
  uint64_t hash() const;
};

struct EnvStats
{
  uint64_t writes = 0, callbacks = 0, exits = 0, mallocFail = 0, newObjs = 0, volChange = 0,
           extCalls = 0, returns = 0, nullRets = 0, escaped = 0, longjmps = 0;
};

inline uint64_t
rawBits(const Obj * o, uint64_t off)
{
  uint64_t v = 0;
  for (int j = 0; j < 8; j++)
    v |= uint64_t(o->d[off + j]) << (8 * j);
  return v;
}

class Env
{
public:
  Mem & mem;
  const ProgMeta & meta;
  Trace & trace;
  Stream * s; // non-null: record mode
  size_t pos = 0;
  EnvStats stats;
  // fault configuration of the run (record mode)
  uint32_t pWrite = 0, pCallback = 0, pExit = 0, pNull = 0, pVol = 0, pMallocFail = 0, pJump = 0; // of 100
  // contexts saved by _setjmp
  struct Context
  {
    unsigned serial;
    uint64_t buf;
    unsigned depth;
  };
  unsigned contexts = 0;
  std::vector<Context> live;
  void saved(uint64_t buf);
  void dropContext(unsigned serial);
  std::function<Val(uint64_t fn, const std::vector<Val> & args)> callFn;
  std::map<uint64_t, std::string> foreign; // external functions the module does not mention (any more)

  Env(Mem & m, const ProgMeta & pm, Trace & t, Stream * str)
      : mem(m),
        meta(pm),
        trace(t),
        s(str)
  {}

  // called by the interpreters
  Val external(
      const std::string & name,
      const Ty * ret,
      const std::vector<Val> & args,
      const std::vector<const Ty *> & tys);
  Val volLoad(const Ty * t, uint64_t addr);
  void volStore(const Ty * t, uint64_t addr, const Val & v);
  // a call of a function the module does not mention; false if there is no such function
  bool foreignCall(uint64_t fn, const std::vector<Val> & args, const Ty * ret, Val & result);
  uint64_t mallocCall(uint64_t size, const void * site = nullptr);

  // the whole session: creates the imported and environment objects, then runs the entry calls
  void start();
  void session(unsigned maxCalls);
  Obj * importedGlobal(const ProgMeta::Glob & g);

private:
  struct Known
  {
    int cls;
    int64_t off;
  };
  unsigned depth = 0;
  bool sessionReplayDone = false;
  std::vector<Obj *> envObjs;
  std::vector<int> escapedOrder; // record: object ids the environment has seen
  std::set<int> escaped;
  std::map<int, std::vector<Known>> classOf; // record: object id -> classes at offsets
  std::set<std::string> seenFns;
  std::map<int, Obj *> toTgt; // replay: recorded object id -> object
  std::map<Obj *, int> toSrc;

  bool
  recording() const
  {
    return s != nullptr;
  }
  CVal canon(const Ty * t, const Val & v);
  Val uncanon(const Ty * t, const CVal & c);
  void snapshot(Event & ev, bool withMemory);
  void learn(const Spec & sp, const CVal & c);
  void learnObj(int obj, int64_t off, int cls);
  void see(int obj);
  void compare(const Event & want, const std::vector<Val> & args, const std::vector<const Ty *> & tys);
  void cmpVal(const Ty * t, const CVal & c, const Val & v, const std::string & where);
  void cmpAddr(const CVal & c, uint64_t addr, const std::string & where);
  void cmpSnap(const ObjSnap & sn, const std::string & where);
  CVal genVal(const Spec & sp);
  void genWrite();
  void perform(const Action & a);
  Val doCall(const Action & a);
  Val respond(const Spec * ret, const Ty * retTy, bool top, unsigned topCalls);
  void pushEvent(
      Event::K k,
      const std::string & name,
      const std::vector<Val> & args,
      const std::vector<const Ty *> & tys,
      bool withMemory,
      const std::vector<Spec> * specs);
  Obj * newEnvObj(int cls);
  Step & expect(bool isEvent, const std::string & what);
};

}
