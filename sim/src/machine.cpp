#include "machine.hpp"
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim
{

// ---------------------------------------------------------------------------------- memory

Obj *
Mem::alloc(Obj::Kind k, uint64_t size, uint64_t align, const std::string & name)
{
  if (align == 0)
    align = 1;
  allocBytes += size;
  if (size > 65536 || allocBytes > (8u << 20))
    throw Unsupported{ "simulated memory exhausted" };
  auto o = std::make_unique<Obj>();
  o->kind = k;
  o->id = int(objs.size());
  cursor += 256 + 16 * (layout.next() % 16);
  uint64_t base = (cursor + align - 1) / align * align;
  if ((base / align) % 2 == 0) // aligned to what was asked for, not more
    base += align;
  o->base = base;
  o->size = size;
  o->name = name;
  o->d.assign(size, 0);
  o->p.assign(size, 1);
  cursor = base + size;
  auto r = o.get();
  byBase[base] = r;
  if (!name.empty())
    byName[name] = r;
  objs.push_back(std::move(o));
  return r;
}

Obj *
Mem::find(uint64_t addr) const
{
  auto it = byBase.upper_bound(addr);
  if (it == byBase.begin())
    return nullptr;
  --it;
  auto o = it->second;
  return addr <= o->base + o->size ? o : nullptr;
}

Obj *
Mem::access(uint64_t addr, uint64_t size, bool write) const
{
  auto o = find(addr);
  if (!o || addr + size > o->base + o->size || addr + size < addr)
    throw Ub{ write ? "store outside any object" : "load outside any object" };
  if (!o->alive)
    throw Ub{ "access to a dead object" };
  if (o->kind == Obj::Func)
    throw Ub{ "access to a function" };
  if (write && o->readonly)
    throw Ub{ "store to a constant" };
  if (onAccess)
    onAccess(o, addr - o->base, size, write);
  return o;
}

void
Mem::checkAlign(uint64_t addr, uint64_t align)
{
  if (align > 1 && addr % align)
    throw Ub{ "misaligned access" };
}

Val
Mem::rawLoad(const Obj * o, uint64_t off, const Ty * t) const
{
  if (t->agg())
  {
    Val v;
    if (t->kind == Ty::Vec && t->elt->kind == Ty::Int && t->elt->width % 8)
      throw Unsupported{ "vector of odd integers in memory" };
    for (size_t i = 0; i < t->count(); i++)
      v.e.push_back(rawLoad(o, off + t->offset(i), t->at(i)));
    return v;
  }
  if (!t->scalar() || t->kind == Ty::Ctl)
    throw Unsupported{ "load of type " + t->str() };
  Val v;
  for (uint64_t i = 0; i < t->store; i++)
  {
    v.b |= uint64_t(o->d[off + i]) << (8 * i);
    if (o->p[off + i])
      v.p = true;
  }
  if (t->kind == Ty::Int && (v.b & ~maskW(t->width)))
    v.p = true;
  if (v.p)
    v.b = 0;
  return v;
}

void
Mem::rawStore(Obj * o, uint64_t off, const Ty * t, const Val & v)
{
  if (t->agg())
  {
    if (t->kind == Ty::Vec && t->elt->kind == Ty::Int && t->elt->width % 8)
      throw Unsupported{ "vector of odd integers in memory" };
    for (size_t i = 0; i < t->count(); i++)
      rawStore(o, off + t->offset(i), t->at(i), v.e[i]);
    return;
  }
  if (!t->scalar() || t->kind == Ty::Ctl)
    throw Unsupported{ "store of type " + t->str() };
  uint64_t b = v.b;
  if (t->kind == Ty::Int)
    b &= maskW(t->width);
  for (uint64_t i = 0; i < t->store; i++)
  {
    o->d[off + i] = v.p ? 0 : uint8_t(b >> (8 * i));
    o->p[off + i] = v.p;
  }
}

Val
Mem::load(const Ty * t, uint64_t addr)
{
  auto o = access(addr, t->store, false);
  return rawLoad(o, addr - o->base, t);
}

void
Mem::store(const Ty * t, uint64_t addr, const Val & v)
{
  auto o = access(addr, t->store, true);
  if (onStore)
    onStore(o, addr - o->base, t, v);
  rawStore(o, addr - o->base, t, v);
}

void
Mem::memcpy_(uint64_t d, uint64_t s, uint64_t n, bool mayOverlap)
{
  if (n == 0)
    return;
  if (n > 65536)
    throw Ub{ "memcpy outside any object" };
  auto so = access(s, n, false);
  auto dobj = access(d, n, true);
  if (!mayOverlap && d != s && d < s + n && s < d + n)
    throw Ub{ "overlapping memcpy" };
  std::vector<uint8_t> b(so->d.begin() + (s - so->base), so->d.begin() + (s - so->base) + n);
  std::vector<uint8_t> p(so->p.begin() + (s - so->base), so->p.begin() + (s - so->base) + n);
  std::copy(b.begin(), b.end(), dobj->d.begin() + (d - dobj->base));
  std::copy(p.begin(), p.end(), dobj->p.begin() + (d - dobj->base));
}

void
Mem::memset_(uint64_t d, const Val & byte, uint64_t n)
{
  if (n == 0)
    return;
  if (n > 65536)
    throw Ub{ "memset outside any object" };
  auto o = access(d, n, true);
  std::fill_n(o->d.begin() + (d - o->base), n, byte.p ? 0 : uint8_t(byte.b));
  std::fill_n(o->p.begin() + (d - o->base), n, byte.p);
}

void
Mem::free_(uint64_t a)
{
  if (!a)
    return;
  auto o = find(a);
  if (!o || o->kind != Obj::Heap || o->base != a)
    throw Ub{ "free of something not allocated" };
  if (!o->alive)
    throw Ub{ "double free" };
  o->alive = false;
}

// ---------------------------------------------------------------------------------- history

std::string
CVal::str() const
{
  char buf[64];
  switch (k)
  {
  case Poison:
    return "poison";
  case Bits:
    snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)b);
    return buf;
  case Ptr:
    snprintf(buf, sizeof buf, "obj%d%+lld", obj, (long long)off);
    return buf;
  case Fn:
    return "@" + fn;
  case Wild:
    return "dangling";
  case Agg:
  {
    std::string s = "{";
    for (auto & x : e)
      s += x.str() + ",";
    return s + "}";
  }
  }
  return "?";
}

std::string
Event::str() const
{
  static const char * names[] = { "call-out", "return-to-env", "volatile-load", "volatile-store" };
  std::string s = std::string(names[k]) + " " + name + "(";
  for (auto & a : args)
    s += a.str() + ", ";
  s += ")";
  for (auto & sn : snaps)
  {
    s += " obj" + std::to_string(sn.obj) + "=[";
    size_t pi = 0;
    for (size_t i = 0; i < sn.d.size(); i++)
    {
      if (sn.m[i] == 2)
      {
        while (pi < sn.ptrs.size() && sn.ptrs[pi].first < i)
          pi++;
        s += "<" + (pi < sn.ptrs.size() ? sn.ptrs[pi].second.str() : "") + ">";
        i += 7;
      }
      else if (sn.m[i])
        s += "--";
      else
      {
        char b[4];
        snprintf(b, sizeof b, "%02x", sn.d[i]);
        s += b;
      }
    }
    s += "]";
  }
  return s;
}

size_t
Trace::events() const
{
  size_t n = 0;
  for (auto & x : steps)
    n += x.isEvent;
  return n;
}

std::string
Trace::str() const
{
  std::string s;
  for (auto & x : steps)
  {
    if (x.isEvent)
      s += "  program: " + x.ev.str() + "\n";
    else
    {
      auto & a = x.act;
      switch (a.k)
      {
      case Action::Write:
        s += "  env: write " + a.ty->str() + " " + a.v.str() + " to obj" + std::to_string(a.obj) + "+"
           + std::to_string(a.off);
        break;
      case Action::NewObj:
        s += "  env: creates obj" + std::to_string(a.obj);
        break;
      case Action::Call:
        s += "  env: calls @" + a.fn + "(";
        for (auto & v : a.args)
          s += v.str() + ", ";
        s += ")";
        break;
      case Action::Return:
        s += "  env: returns " + a.v.str();
        break;
      case Action::Exit:
        s += "  env: exits the process";
        break;
      case Action::Jump:
        s += "  env: longjmp to context " + std::to_string(a.obj) + ", value " + std::to_string(a.off);
        break;
      }
      s += "\n";
    }
  }
  for (auto & [sz, f] : mallocFails)
    if (f)
      s += "  env: malloc(" + std::to_string(sz) + ") always fails\n";
  return s;
}

uint64_t
Trace::hash() const
{
  return hashStr(str());
}

// ---------------------------------------------------------------------------------- environment

CVal
Env::canon(const Ty * t, const Val & v)
{
  CVal c;
  if (t->agg())
  {
    c.k = CVal::Agg;
    for (size_t i = 0; i < t->count(); i++)
      c.e.push_back(canon(t->at(i), v.e[i]));
    return c;
  }
  if (v.p)
  {
    c.k = CVal::Poison;
    return c;
  }
  if (t->kind == Ty::Ptr || t->kind == Ty::Fn || (t->kind == Ty::Int && t->width == 64))
    if (auto o = mem.find(v.b))
    {
      if (o->kind == Obj::Func && v.b == o->base)
      {
        c.k = CVal::Fn;
        c.fn = o->name;
      }
      else if (!o->alive)
        c.k = CVal::Wild;
      else
      {
        c.k = CVal::Ptr;
        c.obj = o->id;
        c.off = int64_t(v.b - o->base);
      }
      return c;
    }
  c.k = CVal::Bits;
  c.b = t->kind == Ty::Int ? v.b & maskW(t->width) : v.b;
  return c;
}

Val
Env::uncanon(const Ty * t, const CVal & c)
{
  Val v;
  switch (c.k)
  {
  case CVal::Poison:
    return Val::poison();
  case CVal::Bits:
    return Val(c.b);
  case CVal::Ptr:
    if (recording())
      return Val(mem.objs[c.obj]->base + c.off);
    else
    {
      auto it = toTgt.find(c.obj);
      if (it == toTgt.end())
        throw Mismatch{ "internal: environment uses an object the target never revealed" };
      return Val(it->second->base + c.off);
    }
  case CVal::Fn:
  {
    auto it = mem.byName.find(c.fn);
    if (it == mem.byName.end())
    {
      auto fi = meta.fns.find(c.fn);
      if (fi != meta.fns.end() && fi->second.discardable)
        throw Unsupported{ "use of a discarded function" };
      if (fi == meta.fns.end() || fi->second.defined)
        throw Mismatch{ "function @" + c.fn + " does not exist any more" };
      auto o = mem.alloc(Obj::Func, 1, 16, c.fn);
      foreign[o->base] = c.fn;
      return Val(o->base);
    }
    return Val(it->second->base);
  }
  case CVal::Agg:
    for (size_t i = 0; i < t->count(); i++)
      v.e.push_back(uncanon(t->at(i), c.e[i]));
    return v;
  default:
    return Val::poison();
  }
}

void
Env::see(int obj)
{
  auto o = mem.objs[obj].get();
  if (o->kind == Obj::Func || escaped.count(obj))
    return;
  escaped.insert(obj);
  escapedOrder.push_back(obj);
  stats.escaped++;
}

void
Env::learnObj(int obj, int64_t off, int cls)
{
  if (cls < 0)
    return;
  auto o = mem.objs[obj].get();
  auto & ci = meta.classes[cls];
  if (o->kind == Obj::Func || off < 0 || off + ci.ty->size > o->size)
    return;
  for (auto & k : classOf[obj])
    if (k.cls == cls && k.off == off)
      return;
  if (classOf[obj].size() < 8)
    classOf[obj].push_back({ cls, off });
}

void
Env::learn(const Spec & sp, const CVal & c)
{
  if (c.k == CVal::Ptr)
    learnObj(c.obj, c.off, sp.cls);
  if (c.k == CVal::Fn)
    seenFns.insert(c.fn);
}

void
Env::snapshot(Event & ev, bool withMemory)
{
  std::function<void(const CVal &)> roots = [&](const CVal & c)
  {
    if (c.k == CVal::Ptr)
      see(c.obj);
    else if (c.k == CVal::Fn)
      seenFns.insert(c.fn);
    for (auto & x : c.e)
      roots(x);
  };
  for (auto & a : ev.args)
    roots(a);
  if (!withMemory)
    return;
  for (size_t i = 0; i < escapedOrder.size(); i++)
  {
    auto o = mem.objs[escapedOrder[i]].get();
    if (!o->alive)
      continue;
    ObjSnap sn;
    sn.obj = o->id;
    sn.d = o->d;
    sn.m.resize(o->size);
    for (uint64_t b = 0; b < o->size; b++)
      sn.m[b] = o->p[b] ? 1 : 0;
    for (uint64_t b = 0; b + 8 <= o->size; b += 8)
    {
      bool ok = true;
      for (int j = 0; j < 8; j++)
        ok = ok && !o->p[b + j];
      if (!ok)
        continue;
      auto v = rawBits(o, b);
      if (v < 0x100000000ull || !mem.find(v))
        continue;
      auto c = canon(tyPtr(), Val(v));
      for (int j = 0; j < 8; j++)
        sn.m[b + j] = 2;
      roots(c);
      sn.ptrs.push_back({ uint32_t(b), c });
    }
    // learn classes through typed pointer fields
    auto it = classOf.find(o->id);
    if (it != classOf.end())
      for (auto & k : std::vector<Known>(it->second))
        for (auto & f : meta.classes[k.cls].fields)
          if (f.spec.ty->kind == Ty::Ptr)
            for (auto & [po, pc] : sn.ptrs)
              if (po == k.off + f.off)
                learn(f.spec, pc);
    if (!o->readonly)
      ev.snaps.push_back(std::move(sn));
  }
}

Step &
Env::expect(bool isEvent, const std::string & what)
{
  if (pos >= trace.steps.size())
    throw Mismatch{ what + " after the end of the recorded history" };
  auto & st = trace.steps[pos];
  if (st.isEvent != isEvent)
    throw Mismatch{ what + " where the history has "
                    + (st.isEvent ? st.ev.str() : std::string("an environment action")) };
  pos++;
  return st;
}

void
Env::cmpAddr(const CVal & c, uint64_t addr, const std::string & where)
{
  auto it = toTgt.find(c.obj);
  if (it != toTgt.end())
  {
    if (addr != it->second->base + c.off)
      throw Mismatch{ where + ": pointer differs, expected " + c.str() };
    return;
  }
  auto o = mem.find(addr - c.off);
  if (!o)
    o = mem.find(addr);
  if (o && o->kind == Obj::Stack && toSrc.count(o))
  {
    // Stack slots may be merged or reused once the lifetime of what they held is over, e.g., when
    // a called function is inlined into a loop.
    auto d = trace.died.find(toSrc.at(o));
    if (d != trace.died.end() && d->second < pos)
    {
      toTgt.erase(toSrc.at(o));
      toSrc.erase(o);
    }
  }
  if (!o || o->base + c.off != addr || o->kind == Obj::Func || toSrc.count(o))
    throw Mismatch{ where + ": pointer differs, expected new object " + c.str() };
  toTgt[c.obj] = o;
  toSrc[o] = c.obj;
}

static bool
isNan(const Ty * t, uint64_t b)
{
  if (t->kind == Ty::Float)
    return (b & 0x7fffffff) > 0x7f800000;
  if (t->kind == Ty::Double)
    return (b & 0x7fffffffffffffffull) > 0x7ff0000000000000ull;
  return false;
}

void
Env::cmpVal(const Ty * t, const CVal & c, const Val & v, const std::string & where)
{
  switch (c.k)
  {
  case CVal::Poison:
  case CVal::Wild:
  case CVal::Local:
    return;
  case CVal::Agg:
    for (size_t i = 0; i < c.e.size(); i++)
      cmpVal(t->at(i), c.e[i], v.e[i], where + "." + std::to_string(i));
    return;
  case CVal::Bits:
  {
    if (v.p)
      throw Mismatch{ where + ": undefined, expected " + c.str() };
    auto b = t->kind == Ty::Int ? v.b & maskW(t->width) : v.b;
    if (b != c.b && !(isNan(t, b) && isNan(t, c.b)))
      throw Mismatch{ where + ": is " + show(v) + ", expected " + c.str() };
    return;
  }
  case CVal::Fn:
  {
    auto o = v.p ? nullptr : mem.find(v.b);
    if (!o || o->kind != Obj::Func || o->base != v.b || o->name != c.fn)
      throw Mismatch{ where + ": function pointer differs, expected " + c.str() };
    return;
  }
  case CVal::Ptr:
    if (v.p)
      throw Mismatch{ where + ": undefined pointer, expected " + c.str() };
    cmpAddr(c, v.b, where);
    return;
  }
}

void
Env::cmpSnap(const ObjSnap & sn, const std::string & where)
{
  auto it = toTgt.find(sn.obj);
  if (it == toTgt.end())
    throw Mismatch{ where + ": object no longer reachable: obj" + std::to_string(sn.obj) };
  auto o = it->second;
  auto w = where + ", memory of obj" + std::to_string(sn.obj)
         + (o->name.empty() ? "" : " (@" + o->name + ")");
  if (!o->alive)
    throw Mismatch{ w + ": freed" };
  if (o->size < sn.d.size())
    throw Mismatch{ w + ": smaller" };
  for (auto & [po, pc] : sn.ptrs)
  {
    Val v(rawBits(o, po));
    for (int j = 0; j < 8; j++)
      if (o->p[po + j])
        v.p = true;
    cmpVal(tyPtr(), pc, v, w + "+" + std::to_string(po));
  }
  for (size_t i = 0; i < sn.d.size(); i++)
    if (sn.m[i] == 0)
    {
      if (o->p[i])
        throw Mismatch{ w + "+" + std::to_string(i) + ": undefined byte" };
      if (o->d[i] != sn.d[i])
      {
        char b[64];
        snprintf(b, sizeof b, ": byte is %02x, expected %02x", o->d[i], sn.d[i]);
        throw Mismatch{ w + "+" + std::to_string(i) + b };
      }
    }
}

void
Env::compare(const Event & want, const std::vector<Val> & args, const std::vector<const Ty *> & tys)
{
  auto where = want.name;
  if (args.size() != want.args.size())
    throw Mismatch{ where + ": number of arguments differs" };
  for (size_t i = 0; i < args.size(); i++)
  {
    if (tys[i] != want.argTys[i])
      throw Mismatch{ where + ": type of argument " + std::to_string(i) + " differs" };
    cmpVal(tys[i], want.args[i], args[i], where + " arg " + std::to_string(i));
  }
  for (auto & sn : want.snaps)
    cmpSnap(sn, where);
}

void
Env::pushEvent(
    Event::K k,
    const std::string & name,
    const std::vector<Val> & args,
    const std::vector<const Ty *> & tys,
    bool withMemory,
    const std::vector<Spec> * specs)
{
  if (recording())
  {
    if (trace.steps.size() > 600)
      throw StepLimit{};
    Step st;
    st.isEvent = true;
    st.ev.k = k;
    st.ev.name = name;
    st.ev.argTys = tys;
    for (int id : escapedOrder)
      if (!mem.objs[id]->alive)
        trace.died.emplace(id, trace.steps.size());
    for (size_t i = 0; i < args.size(); i++)
      st.ev.args.push_back(canon(tys[i], args[i]));
    if (k == Event::VolLoad || k == Event::VolStore)
    {
      // a volatile access does not tell anybody the address, nor give away what it stores
      for (auto & a : st.ev.args)
        if (a.k == CVal::Ptr && !escaped.count(a.obj))
          a.k = CVal::Local;
      trace.steps.push_back(std::move(st));
      return;
    }
    if (specs)
      for (size_t i = 0; i < args.size() && i < specs->size(); i++)
        learn((*specs)[i], st.ev.args[i]);
    snapshot(st.ev, withMemory);
    trace.steps.push_back(std::move(st));
    return;
  }
  static const char * names[] = { "call to @", "return from @", "volatile load ", "volatile store " };
  auto & st = expect(true, names[k] + name);
  if (st.ev.k != k || st.ev.name != name)
    throw Mismatch{ std::string(names[k]) + name + " where the history has " + st.ev.str() };
  compare(st.ev, args, tys);
}

Obj *
Env::newEnvObj(int cls)
{
  auto & ci = meta.classes[cls];
  auto o = mem.alloc(Obj::EnvObj, ci.ty->size, std::max<uint64_t>(ci.ty->align, 8));
  // fully defined; the interesting fields are then written by Write actions
  std::fill(o->p.begin(), o->p.end(), 0);
  for (size_t i = 0; i < o->size; i++)
    o->d[i] = 0;
  return o;
}

CVal
Env::genVal(const Spec & sp)
{
  CVal c;
  c.k = CVal::Bits;
  auto t = sp.ty;
  auto & r = *s;
  switch (t->kind)
  {
  case Ty::Int:
  {
    switch (r.pick({ 6, 3, 2, 2, 1 }))
    {
    case 0:
      c.b = r.draw(8);
      break;
    case 1:
      c.b = r.draw(256);
      break;
    case 2:
      c.b = uint64_t(0) - r.draw(4) - 1;
      break;
    case 3:
      c.b = (uint64_t(r.draw(1u << 31)) << 33) ^ (uint64_t(r.draw(1u << 31)) << 10)
          ^ r.draw(1u << 16);
      break;
    case 4:
      c.b = r.draw(2) ? 1ull << (t->width - 1) : maskW(t->width) >> 1;
      break;
    }
    c.b &= maskW(t->width);
    return c;
  }
  case Ty::Float:
  {
    static const float vals[] = { 0.0f, 1.0f, -1.0f, 2.5f, 1e10f, -0.0f, 0.1f, INFINITY };
    float f = vals[r.draw(8)];
    uint32_t b;
    memcpy(&b, &f, 4);
    c.b = b;
    return c;
  }
  case Ty::Double:
  {
    static const double vals[] = { 0.0, 1.0, -1.0, 2.5, 1e100, -0.0, 0.1, INFINITY };
    double f = vals[r.draw(8)];
    memcpy(&c.b, &f, 8);
    return c;
  }
  case Ty::Ptr:
  {
    if (sp.sig >= 0)
    {
      std::vector<std::string> cand;
      for (auto & n : meta.fnOrder)
      {
        auto & fi = meta.fns.at(n);
        if (fi.sig == sp.sig && (!fi.defined || fi.exported || seenFns.count(n)))
          cand.push_back(n);
      }
      if (!cand.empty() && !(sp.nullable && r.chance(1, 6)))
      {
        c.k = CVal::Fn;
        c.fn = cand[r.draw(cand.size())];
        if (!mem.byName.count(c.fn)) // never referenced by the module
          c.k = CVal::Bits, c.b = 0;
      }
      return c;
    }
    if (sp.cls < 0 || (sp.nullable && r.chance(pNull, 100)))
    {
      stats.nullRets++;
      return c;
    }
    std::vector<std::pair<int, int64_t>> cand;
    for (auto id : escapedOrder)
    {
      auto it = classOf.find(id);
      if (it == classOf.end() || !mem.objs[id]->alive)
        continue;
      for (auto & k : it->second)
        if (k.cls == sp.cls)
          cand.push_back({ id, k.off });
    }
    // constants are handed out rarely (a store through them would be undefined)
    if (!cand.empty() && !r.chance(1, 5))
    {
      auto [id, off] = cand[r.draw(cand.size())];
      c.k = CVal::Ptr;
      c.obj = id;
      c.off = off;
      return c;
    }
    Action a;
    a.k = Action::NewObj;
    a.cls = sp.cls;
    Step st;
    st.isEvent = false;
    a.obj = int(mem.objs.size());
    st.act = a;
    trace.steps.push_back(st);
    perform(a);
    auto id = a.obj;
    // give its fields values (without creating ever more objects)
    if (depth < 3)
    {
      depth++;
      for (auto & f : meta.classes[sp.cls].fields)
      {
        if (f.spec.ty->kind == Ty::Ptr && f.spec.sig < 0 && r.chance(1, 2))
          continue; // stays null
        if (f.spec.ty->kind == Ty::Ptr && f.spec.cls >= 0 && !f.spec.nullable && false)
          continue;
        Action w;
        w.k = Action::Write;
        w.obj = id;
        w.off = f.off;
        w.ty = f.spec.ty;
        w.v = genVal(f.spec);
        Step ws;
        ws.isEvent = false;
        ws.act = w;
        trace.steps.push_back(ws);
        perform(w);
      }
      depth--;
    }
    c.k = CVal::Ptr;
    c.obj = id;
    c.off = 0;
    return c;
  }
  case Ty::Vec:
  case Ty::Arr:
  case Ty::Struct:
    c.k = CVal::Agg;
    for (size_t i = 0; i < t->count(); i++)
    {
      Spec e;
      e.ty = t->at(i);
      c.e.push_back(genVal(e));
    }
    return c;
  default:
    return c;
  }
}

void
Env::perform(const Action & a)
{
  switch (a.k)
  {
  case Action::NewObj:
  {
    stats.newObjs++;
    auto o = newEnvObj(a.cls);
    if (recording())
    {
      envObjs.push_back(o);
      see(o->id);
      learnObj(o->id, 0, a.cls);
    }
    else
    {
      toTgt[a.obj] = o;
      toSrc[o] = a.obj;
    }
    break;
  }
  case Action::Write:
  {
    stats.writes++;
    Obj * o;
    if (recording())
      o = mem.objs[a.obj].get();
    else
    {
      auto it = toTgt.find(a.obj);
      if (it == toTgt.end())
        throw Mismatch{ "environment cannot write obj" + std::to_string(a.obj)
                        + ": not reachable in the target" };
      o = it->second;
    }
    if (!o->alive)
      throw Mismatch{ "environment cannot write obj" + std::to_string(a.obj) + ": freed" };
    if (o->readonly)
      throw Mismatch{ "environment cannot write obj" + std::to_string(a.obj) + ": constant" };
    mem.rawStore(o, a.off, a.ty, uncanon(a.ty, a.v));
    break;
  }
  default:
    break;
  }
}

void
Env::genWrite()
{
  struct C
  {
    int obj;
    uint64_t off;
    const Field * f;
  };
  std::vector<C> cand;
  for (auto id : escapedOrder)
  {
    auto o = mem.objs[id].get();
    auto it = classOf.find(id);
    if (it == classOf.end() || !o->alive || o->readonly)
      continue;
    for (auto & k : it->second)
      for (auto & f : meta.classes[k.cls].fields)
        cand.push_back({ id, k.off + f.off, &f });
  }
  if (cand.empty())
    return;
  auto c = cand[s->draw(cand.size())];
  Action a;
  a.k = Action::Write;
  a.obj = c.obj;
  a.off = c.off;
  a.ty = c.f->spec.ty;
  a.v = genVal(c.f->spec);
  Step st;
  st.isEvent = false;
  st.act = a;
  trace.steps.push_back(st);
  perform(a);
}

Val
Env::doCall(const Action & a)
{
  stats.callbacks++;
  auto & sig = meta.sigs[meta.fns.at(a.fn).sig];
  auto it = mem.byName.find(a.fn);
  if (it == mem.byName.end() && meta.fns.at(a.fn).discardable)
    throw Unsupported{ "call of a discarded function" };
  if (it == mem.byName.end())
    throw Mismatch{ "function @" + a.fn + " does not exist any more" };
  std::vector<Val> args;
  for (size_t i = 0; i < a.args.size(); i++)
    args.push_back(uncanon(sig.args[i].ty, a.args[i]));
  auto v = callFn(it->second->base, args);
  std::vector<Val> rv;
  std::vector<const Ty *> rt;
  std::vector<Spec> rs;
  if (sig.ret.ty->kind != Ty::Void)
  {
    rv.push_back(v);
    rt.push_back(sig.ret.ty);
    rs.push_back(sig.ret);
  }
  stats.returns++;
  pushEvent(Event::FnReturn, a.fn, rv, rt, true, &rs);
  return v;
}

// The environment has control: it acts until it returns (or exits the process).
Val
Env::respond(const Spec * ret, const Ty * retTy, bool top, unsigned topCalls)
{
  if (!recording())
  {
    for (;;)
    {
      if (top && pos >= trace.steps.size())
        return Val();
      auto act = expect(false, "environment action").act;
      switch (act.k)
      {
      case Action::Call:
        doCall(act);
        break;
      case Action::Return:
        return retTy && retTy->kind != Ty::Void ? uncanon(retTy, act.v) : Val();
      case Action::Exit:
        for (auto & n : trace.jumps() ? std::vector<Trace::Needed>() : trace.needed)
          if (auto it = mem.byName.find(n.global); it != mem.byName.end() && it->second->kind == Obj::Global)
          {
            auto o = it->second;
            if (o->p.at(n.off) || o->d[n.off] != n.byte)
              throw Mismatch{ "memory that is read after a longjmp was not written before it: @" + n.global + "+"
                              + std::to_string(n.off) };
          }
        throw ExitEx{};
      case Action::Jump:
        throw LongJmpEx{ unsigned(act.obj), act.off };
      default:
        perform(act);
      }
    }
  }
  auto & r = *s;
  auto push = [&](const Action & a)
  {
    Step st;
    st.isEvent = false;
    st.act = a;
    trace.steps.push_back(st);
  };
  depth++;
  auto writes = [&]()
  {
    for (int i = 0; i < 3 && r.chance(pWrite, 100); i++)
      genWrite();
  };
  auto call = [&]()
  {
    std::vector<std::string> cand;
    for (auto & n : meta.fnOrder)
    {
      auto & fi = meta.fns.at(n);
      if (fi.defined && !meta.sigs[fi.sig].variadic && (fi.exported || seenFns.count(n))
          && mem.byName.count(n))
        cand.push_back(n);
    }
    if (cand.empty())
      return;
    Action a;
    a.k = Action::Call;
    a.fn = cand[r.draw(cand.size())];
    for (auto & sp : meta.sigs[meta.fns.at(a.fn).sig].args)
      a.args.push_back(genVal(sp));
    push(a);
    doCall(a);
  };
  if (top)
  {
    unsigned n = 1 + r.draw(topCalls);
    for (unsigned i = 0; i < n; i++)
    {
      writes();
      call();
    }
    depth--;
    return Val();
  }
  if (!live.empty() && stats.longjmps < 3 && r.chance(pJump, 100))
  {
    stats.longjmps++;
    Action a;
    a.k = Action::Jump;
    auto x = live[r.draw(live.size())];
    a.obj = int(x.serial);
    a.off = 1 + r.draw(3);
    push(a);
    depth = x.depth;
    if (!mem.onAccess)
    {
      auto seen = std::make_shared<std::set<std::pair<Obj *, uint64_t>>>();
      mem.onAccess = [this, seen](Obj * o, uint64_t off, uint64_t size, bool write)
      {
        for (uint64_t k = off; k < off + size; k++)
        {
          if (o->kind != Obj::Global || o->readonly || o->name.empty() || escaped.count(o->id) || !seen->insert({ o, k }).second || write || o->p[k])
            continue;
          // addresses differ from execution to execution
          auto w = k & ~7ull;
          if (w + 8 <= o->size && mem.find(rawBits(o, w)))
            continue;
          trace.needed.push_back({ o->name, k, o->d[k] });
        }
      };
    }
    throw LongJmpEx{ x.serial, a.off };
  }
  if (r.chance(pExit, 100))
  {
    stats.exits++;
    Action a;
    a.k = Action::Exit;
    push(a);
    trace.exited = true;
    throw ExitEx{};
  }
  writes();
  if (depth <= 3 && r.chance(pCallback, 100))
  {
    call();
    writes();
  }
  Action a;
  a.k = Action::Return;
  Val v;
  if (retTy && retTy->kind != Ty::Void)
  {
    Spec sp;
    if (ret)
      sp = *ret;
    sp.ty = retTy;
    a.v = genVal(sp);
    v = uncanon(retTy, a.v);
  }
  push(a);
  depth--;
  return v;
}

Val
Env::external(
    const std::string & name,
    const Ty * ret,
    const std::vector<Val> & args,
    const std::vector<const Ty *> & tys)
{
  stats.extCalls++;
  const FnSig * sig = nullptr;
  auto it = meta.fns.find(name);
  if (it != meta.fns.end() && it->second.sig >= 0)
    sig = &meta.sigs[it->second.sig];
  pushEvent(Event::ExtCall, name, args, tys, true, sig ? &sig->args : nullptr);
  if (name == "_setjmp")
  {
    // saves the context, nothing else
    if (recording())
    {
      Step st;
      st.isEvent = false;
      st.act.k = Action::Return;
      trace.steps.push_back(st);
    }
    else
      expect(false, "environment action");
    return Val(0);
  }
  return respond(sig ? &sig->ret : nullptr, ret, false, 0);
}

void
Env::saved(uint64_t buf)
{
  contexts++;
  for (size_t i = live.size(); i--;)
    if (live[i].buf == buf)
      live.erase(live.begin() + i);
  live.push_back({ contexts, buf, depth });
}
void
Env::dropContext(unsigned serial)
{
  for (size_t i = live.size(); i--;)
    if (live[i].serial == serial)
      live.erase(live.begin() + i);
}
bool
Trace::jumps() const
{
  for (auto & s : steps)
    if (!s.isEvent && s.act.k == Action::Jump)
      return true;
  return false;
}
Trace
Trace::untilJump() const
{
  Trace t = *this;
  for (size_t i = 0; i < t.steps.size(); i++)
    if (!t.steps[i].isEvent && t.steps[i].act.k == Action::Jump)
    {
      t.steps.resize(i + 1);
      t.steps[i].act = Action();
      t.steps[i].act.k = Action::Exit;
      t.exited = true;
      break;
    }
  return t;
}

Val
Env::volLoad(const Ty * t, uint64_t addr)
{
  if (!t->scalar())
    throw Unsupported{ "volatile aggregate" };
  mem.access(addr, t->store, false);
  pushEvent(Event::VolLoad, t->str(), { Val(addr) }, { tyPtr() }, false, nullptr);
  // a device register may have changed since the program last looked
  if (recording())
  {
    auto o = mem.find(addr);
    Action a;
    a.k = Action::Return;
    if (!o->readonly && escaped.count(o->id) && t->kind != Ty::Ptr && s->chance(pVol, 100))
    {
      stats.volChange++;
      Spec sp;
      sp.ty = t;
      a.k = Action::Write;
      a.obj = o->id;
      a.off = addr - o->base;
      a.ty = t;
      a.v = genVal(sp);
      perform(a);
    }
    Step st;
    st.isEvent = false;
    st.act = a;
    trace.steps.push_back(st);
  }
  else
  {
    auto act = expect(false, "device").act;
    if (act.k == Action::Write)
      perform(act);
  }
  return mem.load(t, addr);
}

void
Env::volStore(const Ty * t, uint64_t addr, const Val & v)
{
  if (!t->scalar())
    throw Unsupported{ "volatile aggregate" };
  mem.access(addr, t->store, true);
  pushEvent(Event::VolStore, t->str(), { Val(addr), v }, { tyPtr(), t }, false, nullptr);
  mem.store(t, addr, v);
}

bool
Env::foreignCall(uint64_t fn, const std::vector<Val> & args, const Ty * ret, Val & result)
{
  auto it = foreign.find(fn);
  if (it == foreign.end())
    return false;
  auto & sig = meta.sigs[meta.fns.at(it->second).sig];
  if (sig.variadic || args.size() != sig.args.size())
    throw Unsupported{ "variadic call of a foreign function" };
  std::vector<const Ty *> tys;
  for (auto & a : sig.args)
    tys.push_back(a.ty);
  result = external(it->second, sig.ret.ty ? sig.ret.ty : ret, args, tys);
  return true;
}

uint64_t
Env::mallocCall(uint64_t size, const void * site)
{
  auto it = trace.mallocFails.find(size);
  if (it == trace.mallocFails.end() && recording())
    it = trace.mallocFails.emplace(size, s->chance(pMallocFail, 100)).first;
  if (it != trace.mallocFails.end() && it->second)
  {
    stats.mallocFail++;
    return 0;
  }
  auto o = mem.alloc(Obj::Heap, size, 16);
  o->site = site;
  return o->base;
}

Obj *
Env::importedGlobal(const ProgMeta::Glob & g)
{
  auto & ci = meta.classes[g.cls];
  auto o = mem.alloc(Obj::Global, ci.ty->size, std::max<uint64_t>(ci.ty->align, 1), g.name);
  std::fill(o->p.begin(), o->p.end(), 0);
  std::fill(o->d.begin(), o->d.end(), 0);
  return o;
}

void
Env::start()
{
  // objects with external linkage are known to the environment from the start, by name
  for (auto & g : meta.globals)
    if (g.imported || g.exported)
    {
      auto it = mem.byName.find(g.name);
      if (it == mem.byName.end())
      {
        if (recording())
          continue; // imported but not referenced
        // fall through: the target may drop unused imports
      }
      if (recording())
      {
        auto o = it->second;
        if (g.constant)
          o->readonly = true;
        trace.named[g.name] = o->id;
        see(o->id);
        learnObj(o->id, 0, g.cls);
      }
      else
      {
        auto nm = trace.named.find(g.name);
        if (nm == trace.named.end())
          continue;
        Obj * o;
        if (it == mem.byName.end())
        {
          if (!g.imported && !g.discardable)
            throw Mismatch{ "exported global @" + g.name + " does not exist any more" };
          o = importedGlobal(g); // still exists in the environment
        }
        else
          o = it->second;
        if (g.constant)
          o->readonly = true;
        toTgt[nm->second] = o;
        toSrc[o] = nm->second;
      }
    }
}

void
Env::session(unsigned maxCalls)
{
  try
  {
    respond(nullptr, nullptr, true, maxCalls);
  }
  catch (ExitEx &)
  {
    // the process is gone; for the target the history must be used up
  }
  catch (LongJmpEx &)
  {
    throw Mismatch{ "longjmp to a context that is not there any more" };
  }
  if (!recording() && pos < trace.steps.size())
    throw Mismatch{ "history ends early: still expected "
                    + (trace.steps[pos].isEvent ? trace.steps[pos].ev.str() : "environment actions") };
}

}
