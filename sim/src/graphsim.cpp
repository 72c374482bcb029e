// C14: a graph edited by a history of public operations while traversers and observers look on.
// The simulator owns the history: which edit comes next, where, which edits are ones the graph
// must reject, when a traverser takes its next step and when an observer comes or goes.  A small
// model of the graph (lists of identities, no incremental counters) is edited alongside; after
// every operation the whole real graph is compared with it, and every traversal and every
// observer is checked against what a traversal and an observer are promised to see.
#include "alloc.hpp"
#include "engine.hpp"
#include <algorithm>
#include <deque>
#include <functional>
#include <jlm/rvsdg/FunctionType.hpp>
#include <jlm/rvsdg/Phi.hpp>
#include <jlm/rvsdg/TestNodes.hpp>
#include <jlm/rvsdg/TestType.hpp>
#include <jlm/rvsdg/control.hpp>
#include <jlm/rvsdg/gamma.hpp>
#include <jlm/rvsdg/graph.hpp>
#include <jlm/rvsdg/lambda.hpp>
#include <jlm/rvsdg/simple-node.hpp>
#include <jlm/rvsdg/structural-node.hpp>
#include <jlm/rvsdg/substitution.hpp>
#include <jlm/rvsdg/theta.hpp>
#include <jlm/rvsdg/traverser.hpp>
#include <map>
#include <set>

namespace sim
{
namespace
{
using namespace jlm::rvsdg;
namespace util = jlm::util;
using Ty = std::shared_ptr<const Type>;

uint64_t nextSerial;

// an operation that can be told apart from every other one, and knows what it was copied from
class SimOp final : public SimpleOperation
{
public:
  uint64_t serial, from;
  SimOp(std::vector<Ty> a, std::vector<Ty> r, uint64_t f)
      : SimpleOperation(std::move(a), std::move(r)),
        serial(++nextSerial),
        from(f)
  {}
  bool
  operator==(const Operation & o) const noexcept override
  {
    return &o == this;
  }
  std::string
  debug_string() const override
  {
    return "op" + std::to_string(serial);
  }
  std::unique_ptr<Operation>
  copy() const override
  {
    std::vector<Ty> a, r;
    for (size_t n = 0; n < narguments(); n++)
      a.push_back(argument(n));
    for (size_t n = 0; n < nresults(); n++)
      r.push_back(result(n));
    return std::make_unique<SimOp>(a, r, serial);
  }
};

enum Kind
{
  KSim,
  KConst, // constant of a control type, made by a theta
  KTest,
  KGamma,
  KTheta,
  KLambda,
  KPhi
};
const char * kindName[] = { "node", "constant", "structural", "gamma", "theta", "lambda", "phi" };

struct MN;
struct MR;
struct MI;
struct MO
{
  Output * p = nullptr;
  MN * node = nullptr;
  MR * reg = nullptr;
  MI * in = nullptr; // of an argument: the input of the surrounding node
  Ty ty;
  bool alive = true;
};
struct MI
{
  Input * p = nullptr;
  MN * node = nullptr;
  MR * reg = nullptr;
  MO * origin = nullptr;
  MO * out = nullptr; // of a result: the output of the surrounding node
  Ty ty;
  bool alive = true;
};
struct MN
{
  int id = 0;
  Node * p = nullptr;
  MR * r = nullptr;
  Kind k = KSim;
  uint64_t serial = 0; // of its operation; until bound, of the operation it is a copy of
  bool copyOf = false;
  std::vector<MI *> in;
  std::vector<MO *> out;
  std::vector<MR *> sub;
  std::vector<Ty> content; // of a gamma
  std::vector<Ty> argTypes, resTypes; // of a lambda
  uint64_t nid = 0;
  bool seen = false, alive = true, done = false /* scratch */;
  bool finalized = false; // of a lambda
};
struct MR
{
  int id = 0;
  Region * p = nullptr;
  MN * parent = nullptr;
  size_t idx = 0;
  std::vector<MO *> args;
  std::vector<MI *> res;
  std::vector<MN *> nodes;
  std::set<uint64_t> ids; // of all nodes it ever had
  bool alive = true;
};

std::shared_ptr<SimpleOperation>
dummy();

struct Sim;

// what an observer was told, from which it must be able to know the region at any time
struct Watcher final : public RegionObserver
{
  Sim & s;
  MR * reg;
  std::set<const Node *> nodes;
  std::map<const Input *, const Output *> inputs;
  uint64_t events = 0;
  Watcher(Sim & s, MR * reg);
  void
  onNodeCreate(Node * n) override;
  void
  onNodeDestroy(Node * n) override;
  void
  onInputCreate(Input * i) override;
  void
  onInputChange(Input * i, Output * o, Output * n) override;
  void
  onInputDestroy(Input * i) override;
};

struct Walk
{
  bool down = true, isConst = false;
  MR * reg = nullptr;
  std::set<MN *> pre, returned, ready; // ready: new nodes all of whose origins were ever done
  std::unique_ptr<TopDownTraverser> td;
  std::unique_ptr<TopDownConstTraverser> tdc;
  std::unique_ptr<BottomUpTraverser> bu;
  std::unique_ptr<BottomUpConstTraverser> buc;
  bool ended = false;
  const Node *
  next()
  {
    return td ? td->next() : tdc ? tdc->next() : bu ? bu->next() : buc->next();
  }
};

struct Sim
{
  Ctx & c;
  Stream & g;
  std::unique_ptr<Graph> graph;
  std::deque<MO> os;
  std::deque<MI> is;
  std::deque<MN> ns;
  std::deque<MR> rs;
  MR * root = nullptr;
  Graph * target = nullptr; // graph the model describes
  std::vector<std::unique_ptr<Walk>> walks;
  std::vector<std::unique_ptr<Watcher>> watchers;
  Ty tv, ts, c2, c3;
  std::string op; // current operation
  size_t nOps = 0;
  int rejected = 0;

  explicit Sim(Ctx & c)
      : c(c),
        g(c.ch["edit"])
  {
    tv = TestType::createValueType();
    ts = TestType::createStateType();
    c2 = ControlType::Create(2);
    c3 = ControlType::Create(3);
  }

  [[noreturn]] void
  bad(const std::string & cls, const std::string & msg)
  {
    c.fail(cls, msg + " (operation " + std::to_string(nOps) + ": " + op + ")");
  }

  void
  note(const std::string & s)
  {
    c.note(s + "\n");
  }
  // observers are called where nothing may be thrown
  std::string laterCls, laterMsg;
  void
  later(const std::string & cls, const std::string & msg)
  {
    if (laterCls.empty())
    {
      laterCls = cls;
      laterMsg = msg;
    }
  }
  void
  raise()
  {
    if (!laterCls.empty())
      bad(laterCls, laterMsg);
  }

  //---------------------------------------------------------------- model

  MO *
  mkO(MN * n, MR * r, Ty t, Output * p = nullptr)
  {
    os.emplace_back();
    auto o = &os.back();
    o->node = n;
    o->reg = r;
    o->ty = std::move(t);
    o->p = p;
    return o;
  }
  MI *
  mkI(MN * n, MR * r, MO * origin, Input * p = nullptr)
  {
    is.emplace_back();
    auto i = &is.back();
    i->node = n;
    i->reg = r;
    i->origin = origin;
    i->ty = origin->ty;
    i->p = p;
    return i;
  }
  MR *
  mkR(MN * parent, size_t idx, Region * p)
  {
    rs.emplace_back();
    auto r = &rs.back();
    r->id = int(rs.size());
    r->parent = parent;
    r->idx = idx;
    r->p = p;
    return r;
  }
  MN *
  mkN(MR * r, Kind k, Node * p, size_t nsub)
  {
    ns.emplace_back();
    auto n = &ns.back();
    n->id = int(ns.size());
    n->p = p;
    n->r = r;
    n->k = k;
    for (size_t i = 0; i < nsub; i++)
      n->sub.push_back(mkR(n, i, nullptr));
    r->nodes.push_back(n);
    return n;
  }
  MO *
  addOut(MN * n, Ty t, Output * p = nullptr)
  {
    auto o = mkO(n, nullptr, t, p);
    n->out.push_back(o);
    return o;
  }
  MI *
  addIn(MN * n, MO * origin, Input * p = nullptr)
  {
    auto i = mkI(n, nullptr, origin, p);
    n->in.push_back(i);
    return i;
  }
  MO *
  addArg(MR * r, Ty t, MI * in, Output * p = nullptr)
  {
    auto o = mkO(nullptr, r, t, p);
    o->in = in;
    r->args.push_back(o);
    return o;
  }
  MI *
  addRes(MR * r, MO * origin, MO * out, Input * p = nullptr)
  {
    auto i = mkI(nullptr, r, origin, p);
    i->out = out;
    r->res.push_back(i);
    return i;
  }
  MR *
  regOf(MO * o)
  {
    return o->reg ? o->reg : o->node->r;
  }
  MR *
  regOf(MI * i)
  {
    return i->reg ? i->reg : i->node->r;
  }
  std::string
  nm(const MO * o)
  {
    auto & v = o->reg ? o->reg->args : o->node->out;
    size_t k = std::find(v.begin(), v.end(), o) - v.begin();
    return (o->reg ? "a" + std::to_string(k) + " of region " + std::to_string(o->reg->id)
                   : "o" + std::to_string(k) + " of " + nm(o->node));
  }
  std::string
  nm(const MI * i)
  {
    auto & v = i->reg ? i->reg->res : i->node->in;
    size_t k = std::find(v.begin(), v.end(), i) - v.begin();
    return (i->reg ? "r" + std::to_string(k) + " of region " + std::to_string(i->reg->id)
                   : "i" + std::to_string(k) + " of " + nm(i->node));
  }
  std::string
  nm(const MN * n)
  {
    return std::string(kindName[n->k]) + " " + std::to_string(n->id);
  }

  using Users = std::map<MO *, std::vector<MI *>>;
  Users
  usersOf(MR * r)
  {
    Users u;
    for (auto n : r->nodes)
      for (auto i : n->in)
        u[i->origin].push_back(i);
    for (auto i : r->res)
      u[i->origin].push_back(i);
    return u;
  }
  size_t
  numUsers(MO * o)
  {
    size_t k = 0;
    auto r = regOf(o);
    for (auto n : r->nodes)
      for (auto i : n->in)
        k += i->origin == o;
    for (auto i : r->res)
      k += i->origin == o;
    return k;
  }
  bool
  isDead(MN * n)
  {
    for (auto o : n->out)
      if (numUsers(o))
        return false;
    return true;
  }
  // nodes that n depends on, including n
  void
  ancestors(MN * n, std::set<MN *> & out)
  {
    if (!out.insert(n).second)
      return;
    for (auto i : n->in)
      if (i->origin->node)
        ancestors(i->origin->node, out);
  }
  void
  kill(MR * r)
  {
    for (auto i : r->res)
      i->alive = false;
    for (auto n : r->nodes)
      killContent(n);
    for (auto o : r->args)
      o->alive = false;
    r->res.clear();
    r->nodes.clear();
    r->args.clear();
    r->alive = false;
  }
  void
  killContent(MN * n)
  {
    for (auto s : n->sub)
      kill(s);
    for (auto i : n->in)
      i->alive = false;
    for (auto o : n->out)
      o->alive = false;
    n->alive = false;
  }
  void
  dropNode(MN * n)
  {
    auto & v = n->r->nodes;
    v.erase(std::find(v.begin(), v.end(), n));
    killContent(n);
  }
  void
  dropDead(MR * r)
  {
    for (bool again = true; again;)
    {
      again = false;
      auto u = usersOf(r);
      for (auto n : std::vector<MN *>(r->nodes))
      {
        bool dead = true;
        for (auto o : n->out)
          dead &= !u.count(o);
        if (dead)
        {
          dropNode(n);
          again = true;
        }
      }
    }
  }
  void
  pruneModel(MR * r, bool recursive)
  {
    dropDead(r);
    if (recursive)
      for (auto n : r->nodes)
        for (auto s : n->sub)
          pruneModel(s, true);
  }
  template<class T>
  void
  eraseAt(std::vector<T *> & v, std::vector<size_t> idx)
  {
    std::sort(idx.rbegin(), idx.rend());
    idx.erase(std::unique(idx.begin(), idx.end()), idx.end());
    for (auto k : idx)
    {
      v[k]->alive = false;
      v.erase(v.begin() + k);
    }
  }

  std::vector<MR *>
  regions()
  {
    std::vector<MR *> out;
    std::function<void(MR *)> rec = [&](MR * r)
    {
      out.push_back(r);
      for (auto n : r->nodes)
        for (auto s : n->sub)
          rec(s);
    };
    rec(root);
    return out;
  }
  std::vector<MO *>
  outputs(MR * r)
  {
    std::vector<MO *> v(r->args);
    for (auto n : r->nodes)
      v.insert(v.end(), n->out.begin(), n->out.end());
    return v;
  }
  bool
  inside(MR * r, MR * anc)
  {
    for (; r; r = r->parent ? r->parent->r : nullptr)
      if (r == anc)
        return true;
    return false;
  }

  //---------------------------------------------------------------- comparison

  static SimOp *
  simOp(Node * n)
  {
    auto s = dynamic_cast<SimpleNode *>(n);
    return s ? const_cast<SimOp *>(dynamic_cast<const SimOp *>(&s->GetOperation())) : nullptr;
  }
  static bool
  isKind(Node * n, Kind k)
  {
    switch (k)
    {
    case KSim:
      return simOp(n);
    case KConst:
    {
      auto s = dynamic_cast<SimpleNode *>(n);
      return s && dynamic_cast<const ControlConstantOperation *>(&s->GetOperation());
    }
    case KTest:
      return dynamic_cast<TestStructuralNode *>(n);
    case KGamma:
      return dynamic_cast<GammaNode *>(n);
    case KTheta:
      return dynamic_cast<ThetaNode *>(n);
    case KLambda:
      return dynamic_cast<LambdaNode *>(n);
    case KPhi:
      return dynamic_cast<PhiNode *>(n);
    }
    return false;
  }
  // what a node that is a copy can be recognised by, besides its place in the graph
  std::string
  signature(MN * n)
  {
    std::string s = kindName[n->k];
    std::vector<std::string> v;
    std::function<void(MN *)> rec = [&](MN * m)
    {
      v.push_back(m->k == KSim ? std::to_string(m->serial) : kindName[m->k]);
      for (auto r : m->sub)
        for (auto x : r->nodes)
          rec(x);
    };
    rec(n);
    std::sort(v.begin(), v.end());
    for (auto & x : v)
      s += "," + x;
    return s;
  }
  std::string
  signature(Node * n)
  {
    auto name = [&](Node * m)
    {
      if (auto o = simOp(m))
        return std::to_string(o->from);
      for (int k = KConst; k <= KPhi; k++)
        if (isKind(m, Kind(k)))
          return std::string(kindName[k]);
      return std::string("?");
    };
    std::vector<std::string> v;
    std::function<void(Node *)> rec = [&](Node * m)
    {
      v.push_back(name(m));
      if (auto st = dynamic_cast<StructuralNode *>(m))
        for (size_t k = 0; k < st->nsubregions(); k++)
          for (auto & x : st->subregion(k)->Nodes())
            rec(&x);
    };
    rec(n);
    std::string s = simOp(n) ? "node" : name(n);
    std::sort(v.begin(), v.end());
    for (auto & x : v)
      s += "," + x;
    return s;
  }
  // whether the copies of r's contents can be told apart
  // (the results are not copied along with the nodes of a region)
  bool
  copyable(MR * r, bool results = true)
  {
    auto u = usersOf(r);
    if (!results)
      for (auto x : r->res)
      {
        auto & v = u[x->origin];
        v.erase(std::find(v.begin(), v.end(), x));
        if (v.empty())
          u.erase(x->origin);
      }
    std::set<std::string> dead;
    for (auto n : r->nodes)
    {
      if (!copyable(n))
        return false;
      if (n->k == KSim)
        continue;
      bool isDead = true;
      for (auto o : n->out)
        isDead &= !u.count(o);
      if (isDead && !dead.insert(signature(n)).second)
        return false;
    }
    return true;
  }
  bool
  copyable(MN * n)
  {
    if (n->k == KLambda && !n->finalized)
      return false;
    if (n->k == KPhi)
      for (size_t k = 0; k < n->out.size(); k++)
        if (n->sub[0]->res[k]->origin == n->sub[0]->args[k])
          return false;
    if (n->k == KTest)
    {
      // the copy of this kind of node makes all inputs and outputs anew, in the order of the
      // arguments and results of the first subregion
      std::vector<MI *> ins;
      std::vector<MO *> outs;
      for (size_t s = 0; s < n->sub.size(); s++)
      {
        std::vector<MI *> in;
        std::vector<MO *> out;
        for (auto a : n->sub[s]->args)
          in.push_back(a->in);
        for (auto r : n->sub[s]->res)
          out.push_back(r->out);
        if (s && (in != ins || out != outs))
          return false;
        for (size_t k = 0; s && k < in.size(); k++)
          if (*n->sub[s]->args[k]->ty != *n->sub[0]->args[k]->ty)
            return false;
        for (size_t k = 0; s && k < out.size(); k++)
          if (*n->sub[s]->res[k]->ty != *n->sub[0]->res[k]->ty)
            return false;
        ins = in;
        outs = out;
      }
      ins.erase(std::remove(ins.begin(), ins.end(), nullptr), ins.end());
      outs.erase(std::remove(outs.begin(), outs.end(), nullptr), outs.end());
      if (ins != n->in || outs != n->out)
        return false;
    }
    for (auto s : n->sub)
      if (!copyable(s))
        return false;
    return true;
  }

  void
  bindNodes(MR * m)
  {
    std::set<Node *> known;
    std::vector<MN *> open;
    for (auto n : m->nodes)
      if (n->p)
        known.insert(n->p);
      else
        open.push_back(n);
    if (open.empty())
      return;
    std::vector<Node *> fresh;
    for (auto & n : m->p->Nodes())
      if (!known.count(&n))
        fresh.push_back(&n);
    auto take = [&](MN * n, Node * p)
    {
      auto it = std::find(fresh.begin(), fresh.end(), p);
      if (it == fresh.end())
        bad("a copied graph is not wired like the original",
            nm(n) + " is found twice, or is not a new node");
      fresh.erase(it);
      open.erase(std::find(open.begin(), open.end(), n));
      n->p = p;
      if (auto o = simOp(p))
        n->serial = o->serial;
      n->copyOf = false;
    };
    for (auto n : std::vector<MN *>(open))
    {
      if (n->k != KSim)
        continue;
      for (auto p : fresh)
        if (simOp(p) && simOp(p)->from == n->serial)
        {
          take(n, p);
          break;
        }
      if (!n->p)
        bad("a node is missing from a copied graph", "no copy of op" + std::to_string(n->serial));
    }
    auto u = usersOf(m);
    for (bool again = true; again;)
    {
      again = false;
      for (auto n : std::vector<MN *>(open))
        for (size_t k = 0; !n->p && k < n->out.size(); k++)
          for (auto i : u[n->out[k]])
          {
            Input * pi = nullptr;
            auto & v = i->reg ? i->reg->res : i->node->in;
            size_t at = std::find(v.begin(), v.end(), i) - v.begin();
            if (i->reg)
              pi = at < m->p->nresults() ? m->p->result(at) : nullptr;
            else if (i->node->p && at < i->node->p->ninputs())
              pi = i->node->p->input(at);
            if (!pi)
              continue;
            auto p = TryGetOwnerNode<Node>(*pi->origin());
            if (!p)
              bad("a copied graph is not wired like the original", nm(i));
            take(n, p);
            again = true;
            break;
          }
    }
    if (open.empty())
      return;
    // one without users leads to more
    for (auto n : std::vector<MN *>(open))
    {
      bool used = false;
      for (auto o : n->out)
        used |= !u[o].empty();
      if (used)
        continue;
      auto sig = signature(n);
      for (auto p : fresh)
        if (p->IsDead() && signature(p) == sig)
        {
          take(n, p);
          break;
        }
      if (!n->p)
        bad("a node is missing from a copied graph", nm(n));
      bindNodes(m);
      return;
    }
    bad("a node is missing from a copied graph", nm(open[0]));
  }

  void
  bindRegion(MR * m)
  {
    auto r = m->p;
    if (r->narguments() != m->args.size())
      bad("the arguments of a region are not those the edits left",
          std::to_string(r->narguments()) + " instead of " + std::to_string(m->args.size())
              + " in region " + std::to_string(m->id));
    if (r->nresults() != m->res.size())
      bad("the results of a region are not those the edits left",
          std::to_string(r->nresults()) + " instead of " + std::to_string(m->res.size())
              + " in region " + std::to_string(m->id));
    for (size_t k = 0; k < m->args.size(); k++)
    {
      auto o = m->args[k];
      if (!o->p)
        o->p = r->argument(k);
      if (o->p != r->argument(k))
        bad("the arguments of a region are not those the edits left", nm(o));
    }
    for (size_t k = 0; k < m->res.size(); k++)
    {
      auto i = m->res[k];
      if (!i->p)
        i->p = r->result(k);
      if (i->p != r->result(k))
        bad("the results of a region are not those the edits left", nm(i));
    }
    bindNodes(m);
    std::set<const Node *> want, have;
    for (auto n : m->nodes)
      want.insert(n->p);
    size_t count = 0;
    for (auto & n : r->Nodes())
    {
      have.insert(&n);
      count++;
    }
    if (want != have || count != want.size())
      bad("the nodes of a region are not those the edits left",
          std::to_string(count) + " instead of " + std::to_string(want.size()) + " in region "
              + std::to_string(m->id));
    for (auto n : m->nodes)
    {
      auto p = n->p;
      if (!isKind(p, n->k))
        bad("a node is of another kind", nm(n));
      if (n->k == KSim && simOp(p)->serial != n->serial)
        bad("a node has another operation", nm(n));
      if (p->ninputs() != n->in.size())
        bad("the inputs of a node are not those the edits left",
            std::to_string(p->ninputs()) + " instead of " + std::to_string(n->in.size()) + " of "
                + nm(n));
      if (p->noutputs() != n->out.size())
        bad("the outputs of a node are not those the edits left",
            std::to_string(p->noutputs()) + " instead of " + std::to_string(n->out.size()) + " of "
                + nm(n));
      for (size_t k = 0; k < n->in.size(); k++)
      {
        if (!n->in[k]->p)
          n->in[k]->p = p->input(k);
        if (n->in[k]->p != p->input(k))
          bad("the inputs of a node are not those the edits left", nm(n->in[k]));
      }
      for (size_t k = 0; k < n->out.size(); k++)
      {
        if (!n->out[k]->p)
          n->out[k]->p = p->output(k);
        if (n->out[k]->p != p->output(k))
          bad("the outputs of a node are not those the edits left", nm(n->out[k]));
      }
      auto st = dynamic_cast<StructuralNode *>(p);
      if ((st ? st->nsubregions() : 0) != n->sub.size())
        bad("a node has another number of subregions", nm(n));
      for (size_t k = 0; k < n->sub.size(); k++)
      {
        if (!n->sub[k]->p)
          n->sub[k]->p = st->subregion(k);
        if (n->sub[k]->p != st->subregion(k))
          bad("a node has another subregion", nm(n));
        bindRegion(n->sub[k]);
      }
    }
  }

  size_t
  checkRegion(MR * m, size_t depth)
  {
    auto r = m->p;
    if (r->graph() != target || r->getDepth() != depth || r->index() != m->idx
        || r->node() != (m->parent ? m->parent->p : nullptr) || r->IsRootRegion() != !m->parent)
      bad("a region does not know its place", "region " + std::to_string(m->id));
    auto u = usersOf(m);
    size_t total = 0;
    auto checkOut = [&](MO * o, size_t k)
    {
      auto p = o->p;
      auto owner = p->GetOwner();
      bool own = o->reg ? std::get_if<Region *>(&owner) && std::get<Region *>(owner) == o->reg->p
                        : std::get_if<Node *>(&owner) && std::get<Node *>(owner) == o->node->p;
      if (p->index() != k || !own || p->region() != r)
        bad("an output does not know its place", nm(o));
      if (*p->Type() != *o->ty)
        bad("an output has another type", nm(o));
      std::set<const Input *> want, have;
      for (auto i : u[o])
        want.insert(i->p);
      size_t n = 0;
      for (auto & i : p->Users())
      {
        have.insert(&i);
        n++;
      }
      size_t n2 = 0;
      for (auto & i : const_cast<const Output *>(p)->Users())
        n2 += have.count(&i);
      if (want != have || n != want.size() || n2 != n || p->nusers() != n
          || p->IsDead() != want.empty())
        bad("the users of an output are not the inputs that originate there",
            nm(o) + ": " + std::to_string(p->nusers()) + " counted, " + std::to_string(n)
                + " listed, " + std::to_string(want.size()) + " exist");
      total += n;
    };
    auto checkIn = [&](MI * i, size_t k)
    {
      auto p = i->p;
      auto owner = p->GetOwner();
      bool own = i->reg ? std::get_if<Region *>(&owner) && std::get<Region *>(owner) == i->reg->p
                        : std::get_if<Node *>(&owner) && std::get<Node *>(owner) == i->node->p;
      if (p->index() != k || !own || p->region() != r)
        bad("an input does not know its place", nm(i));
      if (p->origin() != i->origin->p)
        bad("an input has another origin", nm(i) + " instead of " + nm(i->origin));
      if (*p->Type() != *i->ty || *p->origin()->Type() != *i->ty)
        bad("an input has another type", nm(i));
    };
    for (size_t k = 0; k < m->args.size(); k++)
    {
      checkOut(m->args[k], k);
      auto a = r->argument(k);
      if (a->input() != (m->args[k]->in ? m->args[k]->in->p : nullptr))
        bad("an argument belongs to another input", nm(m->args[k]));
    }
    for (size_t k = 0; k < m->res.size(); k++)
    {
      checkIn(m->res[k], k);
      auto x = r->result(k);
      if (x->output() != (m->res[k]->out ? m->res[k]->out->p : nullptr))
        bad("a result belongs to another output", nm(m->res[k]));
    }
    size_t regions = 1;
    std::set<const Node *> tops, bottoms;
    for (auto n : m->nodes)
    {
      auto p = n->p;
      if (p->region() != r || p->graph() != target)
        bad("a node does not know its place", nm(n));
      if (!n->seen)
      {
        n->seen = true;
        n->nid = p->GetNodeId();
        if (!m->ids.insert(n->nid).second)
          bad("a node has the identifier of another one", nm(n));
      }
      if (p->GetNodeId() != n->nid || n->nid >= r->getNextNodeId())
        bad("a node changed its identifier", nm(n));
      size_t k = 0;
      for (auto & x : p->Inputs())
      {
        if (k >= n->in.size() || &x != n->in[k]->p)
          bad("iterating the inputs of a node gives others", nm(n));
        k++;
      }
      if (k != n->in.size())
        bad("iterating the inputs of a node gives others", nm(n));
      k = 0;
      for (auto & x : p->Outputs())
      {
        if (k >= n->out.size() || &x != n->out[k]->p)
          bad("iterating the outputs of a node gives others", nm(n));
        k++;
      }
      if (k != n->out.size())
        bad("iterating the outputs of a node gives others", nm(n));
      for (size_t j = 0; j < n->in.size(); j++)
        checkIn(n->in[j], j);
      total = 0;
      for (size_t j = 0; j < n->out.size(); j++)
        checkOut(n->out[j], j);
      if (p->numSuccessors() != total || p->IsDead() != (total == 0))
        bad("a node counts other successors than it has",
            nm(n) + ": " + std::to_string(p->numSuccessors()) + " instead of "
                + std::to_string(total));
      if (n->in.empty())
        tops.insert(p);
      if (total == 0)
        bottoms.insert(p);
      checkLinks(n);
      for (auto s : n->sub)
      {
        regions += checkRegion(s, depth + 1);
        if (!Region::isAncestor(*s->p, *r) || Region::isAncestor(*r, *s->p))
          bad("a region does not know its ancestors", "region " + std::to_string(s->id));
      }
    }
    auto same = [&](auto && range, const std::set<const Node *> & want, size_t count)
    {
      std::set<const Node *> have;
      size_t k = 0;
      for (auto & n : range)
      {
        have.insert(&n);
        if (++k > want.size() + 8)
          break;
      }
      return have == want && k == want.size() && count == k;
    };
    auto cr = const_cast<const Region *>(r);
    if (!same(r->TopNodes(), tops, r->numTopNodes()) || !same(cr->TopNodes(), tops, tops.size()))
      bad("the top nodes of a region are not those without inputs",
          "region " + std::to_string(m->id));
    if (!same(r->BottomNodes(), bottoms, r->numBottomNodes())
        || !same(cr->BottomNodes(), bottoms, bottoms.size()))
      bad("the bottom nodes of a region are not those without users",
          "region " + std::to_string(m->id));
    if (r->numNodes() != m->nodes.size())
      bad("a region counts other nodes than it has", "region " + std::to_string(m->id));
    if (Region::NumRegions(*r) != regions)
      bad("the number of regions is not the number of regions", "region " + std::to_string(m->id));
    return regions;
  }
  // links between a structural node and its subregions, and the variables built on them
  void
  checkLinks(MN * n)
  {
    auto st = dynamic_cast<StructuralNode *>(n->p);
    if (!st)
      return;
    for (size_t k = 0; k < n->in.size(); k++)
    {
      std::set<RegionArgument *> want, have;
      for (auto s : n->sub)
        for (auto a : s->args)
          if (a->in == n->in[k])
            want.insert(static_cast<RegionArgument *>(a->p));
      size_t cnt = 0;
      for (auto & a : st->input(k)->arguments)
      {
        have.insert(&a);
        cnt++;
      }
      if (want != have || cnt != want.size())
        bad("the arguments of an input are not those made for it", nm(n->in[k]));
    }
    for (size_t k = 0; k < n->out.size(); k++)
    {
      std::set<RegionResult *> want, have;
      for (auto s : n->sub)
        for (auto a : s->res)
          if (a->out == n->out[k])
            want.insert(static_cast<RegionResult *>(a->p));
      size_t cnt = 0;
      for (auto & a : st->output(k)->results)
      {
        have.insert(&a);
        cnt++;
      }
      if (want != have || cnt != want.size())
        bad("the results of an output are not those made for it", nm(n->out[k]));
    }
    auto wrong = [&](const char * what)
    {
      bad("a variable of a node is not made of the parts that were created for it",
          std::string(what) + " of " + nm(n));
    };
    if (n->k == KGamma)
    {
      auto gm = static_cast<GammaNode *>(n->p);
      if (gm->predicate() != n->in[0]->p || gm->GetMatchVar().input != n->in[0]->p)
        wrong("predicate");
      for (size_t s = 0; s < n->sub.size(); s++)
        if (gm->GetMatchVar().matchContent[s] != n->sub[s]->args[0]->p)
          wrong("match content");
      auto evs = gm->GetEntryVars();
      auto xvs = gm->GetExitVars();
      if (evs.size() != n->in.size() - 1 || xvs.size() != n->out.size())
        wrong("number of variables");
      for (size_t k = 0; k < evs.size(); k++)
      {
        if (evs[k].input != n->in[k + 1]->p || evs[k].branchArgument.size() != n->sub.size())
          wrong("entry variable");
        for (size_t s = 0; s < n->sub.size(); s++)
        {
          auto a = evs[k].branchArgument[s];
          if (a != n->sub[s]->args[k + 1]->p || n->sub[s]->args[k + 1]->in != n->in[k + 1]
              || &gm->mapBranchArgumentToInput(*a) != n->in[k + 1]->p
              || std::get<GammaNode::EntryVar>(gm->MapBranchArgument(*a)).input != n->in[k + 1]->p)
            wrong("entry variable");
        }
      }
      for (size_t k = 0; k < xvs.size(); k++)
      {
        if (xvs[k].output != n->out[k]->p || xvs[k].branchResult.size() != n->sub.size())
          wrong("exit variable");
        for (size_t s = 0; s < n->sub.size(); s++)
        {
          auto a = xvs[k].branchResult[s];
          if (a != n->sub[s]->res[k]->p || n->sub[s]->res[k]->out != n->out[k]
              || &gm->mapBranchResultToOutput(*a) != n->out[k]->p
              || gm->MapBranchResultExitVar(*a).output != n->out[k]->p
              || gm->MapOutputExitVar(*n->out[k]->p).branchResult[s] != a)
            wrong("exit variable");
        }
      }
    }
    else if (n->k == KTheta)
    {
      auto th = static_cast<ThetaNode *>(n->p);
      auto lvs = th->GetLoopVars();
      if (lvs.size() != n->in.size() || th->predicate() != n->sub[0]->res[0]->p)
        wrong("number of loop variables");
      for (size_t k = 0; k < lvs.size(); k++)
      {
        auto & lv = lvs[k];
        auto a = n->sub[0]->args[k];
        auto x = n->sub[0]->res[k + 1];
        if (lv.input != n->in[k]->p || lv.pre != a->p || lv.post != x->p || lv.output != n->out[k]->p
            || a->in != n->in[k] || x->out != n->out[k]
            || th->MapPreLoopVar(*a->p).post != x->p || th->MapPostLoopVar(*x->p).input != lv.input
            || th->MapInputLoopVar(*lv.input).output != lv.output
            || th->MapOutputLoopVar(*lv.output).pre != lv.pre)
          wrong("loop variable");
      }
    }
    else if (n->k == KLambda)
    {
      auto la = static_cast<LambdaNode *>(n->p);
      auto cvs = la->GetContextVars();
      size_t base = n->argTypes.size();
      if (cvs.size() != n->in.size() || la->GetFunctionArguments().size() != base)
        wrong("number of context variables");
      for (size_t k = 0; k < base; k++)
        if (la->GetFunctionArguments()[k] != n->sub[0]->args[k]->p
            || la->MapBinderContextVar(*n->sub[0]->args[k]->p))
          wrong("function argument");
      for (size_t k = 0; k < cvs.size(); k++)
      {
        auto a = n->sub[0]->args[base + k];
        if (cvs[k].input != n->in[k]->p || cvs[k].inner != a->p || a->in != n->in[k]
            || !la->MapBinderContextVar(*a->p) || la->MapBinderContextVar(*a->p)->input != cvs[k].input
            || la->MapInputContextVar(*cvs[k].input).inner != a->p)
          wrong("context variable");
      }
    }
    else if (n->k == KPhi)
    {
      auto ph = static_cast<PhiNode *>(n->p);
      auto fvs = ph->GetFixVars();
      auto cvs = ph->GetContextVars();
      size_t base = n->out.size();
      if (fvs.size() != base || cvs.size() != n->in.size())
        wrong("number of variables");
      for (size_t k = 0; k < base; k++)
      {
        auto a = n->sub[0]->args[k];
        auto x = n->sub[0]->res[k];
        if (fvs[k].recref != a->p || fvs[k].result != x->p || fvs[k].output != n->out[k]->p || a->in
            || x->out != n->out[k] || !ph->MapArgumentFixVar(*a->p)
            || ph->MapArgumentFixVar(*a->p)->output != fvs[k].output
            || ph->MapResultFixVar(*x->p).recref != a->p
            || ph->MapOutputFixVar(*fvs[k].output).result != x->p)
          wrong("recursion variable");
      }
      for (size_t k = 0; k < cvs.size(); k++)
      {
        auto a = n->sub[0]->args[base + k];
        if (cvs[k].input != n->in[k]->p || cvs[k].inner != a->p || a->in != n->in[k]
            || !ph->MapArgumentContextVar(*a->p)
            || ph->MapArgumentContextVar(*a->p)->input != cvs[k].input
            || ph->MapInputContextVar(*cvs[k].input).inner != a->p)
          wrong("context variable");
      }
    }
  }

  void
  compare()
  {
    raise();
    bindRegion(root);
    checkRegion(root, 0);
    updateReady();
    for (auto & w : watchers)
      checkWatcher(*w);
  }

  //---------------------------------------------------------------- observers

  void
  checkWatcher(Watcher & w)
  {
    auto m = w.reg;
    std::set<const Node *> nodes;
    std::map<const Input *, const Output *> ins;
    if (m->alive)
    {
      for (auto n : m->nodes)
      {
        nodes.insert(n->p);
        for (auto i : n->in)
          ins[i->p] = i->origin->p;
      }
      for (auto i : m->res)
        ins[i->p] = i->origin->p;
    }
    if (nodes != w.nodes)
      bad("an observer was not told of the creation or the end of a node",
          "it knows " + std::to_string(w.nodes.size()) + " nodes of region " + std::to_string(m->id)
              + ", which has " + std::to_string(nodes.size()));
    if (ins != w.inputs)
      bad("an observer was not told of a change of the inputs",
          "it knows " + std::to_string(w.inputs.size()) + " inputs in region "
              + std::to_string(m->id) + ", which has " + std::to_string(ins.size()));
  }

  //---------------------------------------------------------------- traversals

  void
  startWalk(MR * r, bool down, bool isConst)
  {
    auto w = std::make_unique<Walk>();
    w->down = down;
    w->isConst = isConst;
    w->reg = r;
    w->pre.insert(r->nodes.begin(), r->nodes.end());
    if (down && isConst)
      w->tdc = std::make_unique<TopDownConstTraverser>(r->p);
    else if (down)
      w->td = std::make_unique<TopDownTraverser>(r->p);
    else if (isConst)
      w->buc = std::make_unique<BottomUpConstTraverser>(r->p);
    else
      w->bu = std::make_unique<BottomUpTraverser>(r->p);
    walks.push_back(std::move(w));
  }
  bool
  doneFor(Walk & w, MN * n)
  {
    return w.pre.count(n) ? w.returned.count(n) : !w.down || w.ready.count(n);
  }
  void
  updateReady()
  {
    for (auto & w : walks)
    {
      if (!w->down || !w->reg->alive)
        continue;
      for (bool again = true; again;)
      {
        again = false;
        for (auto n : w->reg->nodes)
        {
          if (w->pre.count(n) || w->ready.count(n))
            continue;
          // structural nodes begin their life without inputs
          bool all = n->k != KSim && n->k != KConst;
          if (!all)
          {
            all = true;
            for (auto i : n->in)
              all &= !i->origin->node || doneFor(*w, i->origin->node);
          }
          if (all)
          {
            w->ready.insert(n);
            again = true;
          }
        }
      }
    }
  }
  void
  stepWalk(Walk & w)
  {
    auto p = w.next();
    c.count("traversal steps");
    const char * dir = w.down ? "top-down" : "bottom-up";
    if (!p)
    {
      w.ended = true;
      c.count(std::string("traversals: ") + dir);
      if (w.reg->alive)
        for (auto n : w.pre)
          if (n->alive && !w.returned.count(n))
            bad("a traversal ends before it has visited every node",
                std::string(dir) + ": " + nm(n) + " of region " + std::to_string(w.reg->id));
      return;
    }
    MN * n = nullptr;
    if (w.reg->alive)
      for (auto x : w.reg->nodes)
        if (x->p == p)
          n = x;
    if (!n)
      bad("a traversal visits a node that is not there", dir);
    c.digest(n->id);
    note(std::string("    ") + dir + " visits " + nm(n));
    if (!w.pre.count(n))
      bad("a traversal visits a node created after it began",
          std::string(dir) + ": " + nm(n));
    if (!w.returned.insert(n).second)
      bad("a traversal visits a node twice", std::string(dir) + ": " + nm(n));
    if (w.down)
    {
      for (auto i : n->in)
        if (i->origin->node && !doneFor(w, i->origin->node))
          bad("a top-down traversal visits a node before one it depends on",
              nm(n) + " before " + nm(i->origin->node));
    }
    else
    {
      auto u = usersOf(n->r);
      for (auto o : n->out)
        for (auto i : u[o])
          if (i->node && !doneFor(w, i->node))
            bad("a bottom-up traversal visits a node before one of its users",
                nm(n) + " before " + nm(i->node));
    }
    updateReady();
  }

  //---------------------------------------------------------------- operations

  template<class T>
  T
  any(const std::vector<T> & v)
  {
    return v[g.draw(uint32_t(v.size()))];
  }
  MO *
  anyOf(MR * r, const Ty & t)
  {
    std::vector<MO *> v;
    for (auto o : outputs(r))
      if (*o->ty == *t)
        v.push_back(o);
    return v.empty() ? nullptr : any(v);
  }
  MO *
  anyOut(MR * r)
  {
    auto v = outputs(r);
    return v.empty() ? nullptr : any(v);
  }
  Ty
  anyType()
  {
    switch (g.pick({ 6, 2, 2, 1 }))
    {
    case 0:
      return tv;
    case 1:
      return ts;
    case 2:
      return c2;
    default:
      return c3;
    }
  }
  // a value of type t in r, made by a new node if there is none
  MO *
  valueIn(MR * r, const Ty & t)
  {
    if (g.chance(4, 5))
      if (auto o = anyOf(r, t))
        return o;
    return newSimple(r, {}, { t })->out[0];
  }
  MN *
  newSimple(MR * r, const std::vector<MO *> & ins, const std::vector<Ty> & outs)
  {
    std::vector<Ty> at;
    std::vector<Output *> ops;
    for (auto o : ins)
    {
      at.push_back(o->ty);
      ops.push_back(o->p);
    }
    auto so = std::make_unique<SimOp>(at, outs, 0);
    auto serial = so->serial;
    auto & p = SimpleNode::Create(*r->p, std::move(so), ops);
    // a node without inputs is created in a region, all others where their operands are
    auto n = mkN(r, KSim, &p, 0);
    n->serial = serial;
    for (auto o : ins)
      addIn(n, o);
    for (auto & t : outs)
      addOut(n, t);
    compare();
    return n;
  }
  template<class F>
  void
  valid(F && f)
  {
    try
    {
      f();
    }
    catch (const std::exception & e)
    {
      bad("a valid edit is rejected", e.what());
    }
  }
  template<class E, class F>
  void
  invalid(F && f)
  {
    bool thrown = false;
    try
    {
      f();
    }
    catch (const E &)
    {
      thrown = true;
    }
    catch (const std::exception & e)
    {
      bad("an invalid edit is rejected with another error", e.what());
    }
    if (!thrown)
      bad("an invalid edit is accepted", op);
    rejected++;
    c.count("fault: rejected edit: " + op);
  }

  //--- copies

  using Subst = std::map<MO *, MO *>;
  MO *
  sub(const Subst & s, MO * o)
  {
    auto it = s.find(o);
    return it == s.end() ? nullptr : it->second;
  }
  MN *
  cloneNode(MN * n, MR * t, Subst & s)
  {
    auto m = mkN(t, n->k, nullptr, n->sub.size());
    m->serial = n->serial;
    m->copyOf = true;
    m->content = n->content;
    m->argTypes = n->argTypes;
    m->resTypes = n->resTypes;
    m->finalized = n->finalized;
    std::map<MI *, MI *> ins;
    for (auto i : n->in)
      ins[i] = addIn(m, sub(s, i->origin));
    std::map<MO *, MO *> outs;
    for (auto o : n->out)
      outs[o] = s[o] = addOut(m, o->ty);
    for (size_t k = 0; k < n->sub.size(); k++)
    {
      Subst inner;
      for (auto a : n->sub[k]->args)
        inner[a] = addArg(m->sub[k], a->ty, a->in ? ins[a->in] : nullptr);
      cloneBody(n->sub[k], m->sub[k], inner);
      for (auto r : n->sub[k]->res)
        addRes(m->sub[k], sub(inner, r->origin), r->out ? outs[r->out] : nullptr);
    }
    return m;
  }
  void
  cloneBody(MR * from, MR * to, Subst & s)
  {
    std::set<MN *> done;
    auto nodes = from->nodes; // to may be an ancestor, never from itself
    std::function<void(MN *)> rec = [&](MN * n)
    {
      if (!done.insert(n).second)
        return;
      for (auto i : n->in)
        if (i->origin->node)
          rec(i->origin->node);
      cloneNode(n, to, s);
    };
    for (auto n : nodes)
      rec(n);
  }
  void
  checkSubst(const SubstitutionMap & sm, const Subst & s)
  {
    for (auto & [a, b] : s)
      if (!sm.contains(*a->p) || &sm.lookup(*a->p) != b->p)
        bad("a substitution map does not lead to the copy", nm(a));
  }

  size_t
  liveNodes()
  {
    size_t k = 0;
    for (auto r : regions())
      k += r->nodes.size();
    return k;
  }
  void
  step();
  void
  edit(MR * r);
  void
  reject(MR * r);
  void
  editStructural(MN * n);
  void
  newStructural(MR * r);
  void
  copies(MR * r);
  void
  run();
};

Watcher::Watcher(Sim & s, MR * reg)
    : RegionObserver(*reg->p),
      s(s),
      reg(reg)
{
  for (auto n : reg->nodes)
  {
    nodes.insert(n->p);
    for (auto i : n->in)
      inputs[i->p] = i->origin->p;
  }
  for (auto i : reg->res)
    inputs[i->p] = i->origin->p;
}
void
Watcher::onNodeCreate(Node * n)
{
  events++;
  if (!nodes.insert(n).second)
    s.later("an observer is told twice of a node", "creation");
  for (auto & i : n->Inputs())
    if (!inputs.emplace(&i, i.origin()).second)
      s.later("an observer is told twice of an input", "creation of a node");
}
void
Watcher::onNodeDestroy(Node * n)
{
  events++;
  if (!nodes.erase(n))
    s.later("an observer is told of the end of an unknown node", "end");
  for (auto & i : n->Inputs())
  {
    auto it = inputs.find(&i);
    if (it == inputs.end() || it->second != i.origin())
      s.later("an observer was not told of a change of the inputs", "found at the end of a node");
    inputs.erase(it);
  }
}
void
Watcher::onInputCreate(Input * i)
{
  events++;
  if (!inputs.emplace(i, i->origin()).second)
    s.later("an observer is told twice of an input", "creation of an input");
  if (auto n = TryGetOwnerNode<Node>(*i); n && !nodes.count(n))
    s.later("an observer is told of an input of an unknown node", "creation of an input");
}
void
Watcher::onInputChange(Input * i, Output * o, Output * n)
{
  events++;
  auto it = inputs.find(i);
  if (it == inputs.end() || it->second != o || i->origin() != n)
    s.later("an observer is told something else than what changed", "change of an input");
  inputs[i] = n;
}
void
Watcher::onInputDestroy(Input * i)
{
  events++;
  auto it = inputs.find(i);
  if (it == inputs.end() || it->second != i->origin())
    s.later("an observer is told of the end of an unknown input", "end of an input");
  inputs.erase(i);
}

void
Sim::edit(MR * r)
{
  switch (g.pick({ 10, 6, 3, 2, 6, 2, 2, 2, 1 }))
  {
  case 0: // a new simple node
  {
    op = "create a node";
    std::vector<MO *> ins;
    std::vector<Ty> outs;
    for (uint32_t k = g.draw(4); k > 0; k--)
      if (auto o = anyOut(r))
        ins.push_back(o);
    for (uint32_t k = g.pick({ 1, 6, 3 }); k > 0; k--)
      outs.push_back(anyType());
    valid([&] { newSimple(r, ins, outs); });
    break;
  }
  case 1: // redirect an input
  {
    op = "divert an input";
    std::vector<MI *> v(r->res);
    for (auto n : r->nodes)
      v.insert(v.end(), n->in.begin(), n->in.end());
    if (v.empty())
      return;
    auto i = any(v);
    std::vector<MO *> w;
    for (auto o : outputs(r))
    {
      if (*o->ty != *i->ty)
        continue;
      if (i->node && o->node)
      {
        std::set<MN *> anc;
        ancestors(o->node, anc);
        if (anc.count(i->node))
          continue;
      }
      if (i->reg && i->reg->parent && i->reg->parent->k == KPhi && o->reg
          && !o->in) // a recursion variable is never its own value
        continue;
      w.push_back(o);
    }
    if (w.empty())
      return;
    auto o = any(w);
    note("    " + nm(i) + " to " + nm(o));
    valid([&] { i->p->divert_to(o->p); });
    i->origin = o;
    break;
  }
  case 2: // redirect all users
  case 3: // redirect some users
  {
    bool where = g.chance(2, 5);
    op = where ? "divert some users" : "divert all users";
    auto o = anyOut(r);
    if (!o)
      return;
    auto users = usersOf(r)[o];
    std::vector<MO *> w;
    for (auto x : outputs(r))
    {
      if (*x->ty != *o->ty)
        continue;
      std::set<MN *> anc;
      if (x->node)
        ancestors(x->node, anc);
      bool ok = true;
      for (auto i : users)
        ok &= !(i->node && anc.count(i->node))
           && !(i->reg && i->reg->parent && i->reg->parent->k == KPhi && x->reg && !x->in);
      if (ok)
        w.push_back(x);
    }
    if (w.empty())
      return;
    auto x = any(w);
    note("    from " + nm(o) + " to " + nm(x));
    if (where)
    {
      std::set<const Input *> some;
      std::vector<MI *> moved;
      for (auto i : users)
        if (g.chance(1, 2))
        {
          some.insert(i->p);
          moved.push_back(i);
        }
      size_t k = 0;
      valid(
          [&]
          {
            k = o->p->divertUsersWhere(
                *x->p,
                [&](const Input & i)
                {
                  return some.count(&i) != 0;
                });
          });
      if (k != (o == x ? 0 : moved.size()))
        bad("the number of diverted users is wrong", std::to_string(k));
      for (auto i : moved)
        i->origin = x;
    }
    else
    {
      valid([&] { o->p->divert_users(x->p); });
      for (auto i : users)
        i->origin = x;
    }
    break;
  }
  case 4: // remove a node
  {
    op = "remove a node";
    std::vector<MN *> v;
    for (auto n : r->nodes)
      if (isDead(n))
        v.push_back(n);
    if (v.empty())
      return;
    auto n = any(v);
    note("    " + nm(n));
    valid([&] { r->p->removeNode(n->p); });
    dropNode(n);
    break;
  }
  case 5:
  {
    bool rec = g.chance(1, 3);
    op = rec ? "prune all" : "prune a region";
    if (r == root && rec && g.chance(2, 3))
      return;
    valid([&] { r->p->prune(rec); });
    pruneModel(r, rec);
    break;
  }
  case 6: // arguments of regions where nothing else gives them a meaning
  {
    if (r->parent && r->parent->k != KTest)
      return;
    switch (g.pick({ 3, 2, 2, 1 }))
    {
    case 0:
    {
      op = "add an argument";
      MI * in = nullptr;
      if (r->parent && !r->parent->in.empty() && g.chance(1, 2))
        in = any(r->parent->in);
      auto t = in ? in->ty : anyType();
      if (!r->parent && g.chance(1, 2))
      {
        op = "add an import";
        auto & i = GraphImport::Create(*target, t, "x");
        addArg(r, t, nullptr, &i);
        break;
      }
      Output * p = nullptr;
      if (g.chance(1, 2))
      {
        valid([&] { p = &RegionArgument::Create(*r->p, static_cast<StructuralInput *>(in ? in->p : nullptr), t); });
        addArg(r, t, in, p);
      }
      else
      {
        op = "insert an argument";
        size_t at = g.draw(uint32_t(r->args.size() + 1));
        valid(
            [&]
            {
              p = &r->p->insertArgument(
                  at,
                  std::make_unique<RegionArgument>(
                      r->p,
                      static_cast<StructuralInput *>(in ? in->p : nullptr),
                      t));
            });
        auto o = addArg(r, t, in, p);
        r->args.pop_back();
        r->args.insert(r->args.begin() + at, o);
      }
      break;
    }
    case 1:
    {
      op = "remove arguments";
      util::HashSet<size_t> idx;
      std::vector<size_t> gone;
      for (size_t k = 0; k < r->args.size(); k++)
        if (g.chance(1, 2))
        {
          idx.insert(k);
          if (!numUsers(r->args[k]))
            gone.push_back(k);
        }
      if (g.chance(1, 6))
        idx.insert(r->args.size() + 3);
      size_t k = 0;
      valid([&] { k = r->p->RemoveArguments(idx); });
      if (k != gone.size())
        bad("the number of removed arguments is wrong", std::to_string(k));
      eraseAt(r->args, gone);
      break;
    }
    case 2:
    {
      op = "prune arguments";
      std::vector<size_t> gone;
      for (size_t k = 0; k < r->args.size(); k++)
        if (!numUsers(r->args[k]))
          gone.push_back(k);
      size_t k = 0;
      valid([&] { k = r->p->PruneArguments(); });
      if (k != gone.size())
        bad("the number of removed arguments is wrong", std::to_string(k));
      eraseAt(r->args, gone);
      break;
    }
    }
    break;
  }
  case 7: // results
  {
    if (r->parent && r->parent->k != KTest)
      return;
    if (g.chance(2, 3))
    {
      op = "add a result";
      auto o = anyOut(r);
      if (!o)
        return;
      MO * out = nullptr;
      if (r->parent)
        for (auto x : r->parent->out)
          if (*x->ty == *o->ty && g.chance(1, 2))
            out = x;
      Input * p = nullptr;
      valid(
          [&]
          {
            if (!r->parent && g.chance(1, 2))
              p = &GraphExport::Create(*o->p, "y");
            else
              p = &RegionResult::Create(*r->p, *o->p, static_cast<StructuralOutput *>(out ? out->p : nullptr), o->ty);
          });
      addRes(r, o, out, p);
    }
    else
    {
      op = "remove results";
      util::HashSet<size_t> idx;
      std::vector<size_t> gone;
      for (size_t k = 0; k < r->res.size(); k++)
        if (g.chance(1, 2))
        {
          idx.insert(k);
          gone.push_back(k);
        }
      if (g.chance(1, 6))
        idx.insert(r->res.size() + 3);
      size_t k = 0;
      valid([&] { k = r->p->RemoveResults(idx); });
      if (k != gone.size())
        bad("the number of removed results is wrong", std::to_string(k));
      eraseAt(r->res, gone);
    }
    break;
  }
  case 8:
  {
    op = "route a value into a region";
    // from an enclosing region down to r
    std::vector<MR *> chain;
    for (auto x = r; x; x = x->parent ? x->parent->r : nullptr)
    {
      chain.push_back(x);
      if (x->parent && x->parent->k == KTest)
        break;
    }
    auto from = g.draw(uint32_t(chain.size()));
    auto o = anyOut(chain[from]);
    if (!o)
      return;
    if (from && o->node)
    {
      std::set<MN *> anc;
      ancestors(o->node, anc);
      if (anc.count(chain[from - 1]->parent))
        return;
    }
    note("    " + nm(o) + " to region " + std::to_string(r->id));
    Output * p = nullptr;
    valid([&] { p = &RouteToRegion(*o->p, *r->p); });
    auto cur = o;
    for (auto k = from; k-- > 0;)
    {
      auto n = chain[k]->parent;
      auto in = addIn(n, cur);
      MO * arg = nullptr;
      for (auto s : n->sub)
      {
        auto a = addArg(s, cur->ty, in);
        if (s == chain[k])
          arg = a;
      }
      if (n->k == KTheta)
      {
        auto out = addOut(n, cur->ty);
        addRes(n->sub[0], arg, out);
      }
      cur = arg;
    }
    compare();
    if (cur->p != p)
      bad("a routed value is not the argument made for it", nm(cur));
    break;
  }
  }
}

void
Sim::newStructural(MR * r)
{
  switch (g.pick({ 3, 3, 3, 2, 2 }))
  {
  case 0:
  {
    op = "create a structural node";
    size_t subs = 1 + g.draw(3);
    TestStructuralNode * p = nullptr;
    valid([&] { p = TestStructuralNode::create(r->p, subs); });
    mkN(r, KTest, p, subs);
    break;
  }
  case 1:
  {
    op = "create a gamma";
    size_t alts = 2 + g.draw(2);
    MO * pred = nullptr;
    valid([&] { pred = valueIn(r, alts == 2 ? c2 : c3); });
    std::vector<Ty> content;
    if (g.chance(1, 3))
      for (size_t k = 0; k < alts; k++)
        content.push_back(anyType());
    GammaNode * p = nullptr;
    valid([&] { p = &GammaNode::Create(*pred->p, alts, content); });
    auto n = mkN(r, KGamma, p, alts);
    n->content = content;
    addIn(n, pred);
    for (size_t k = 0; k < alts; k++)
      addArg(n->sub[k], p->GetOperation().GetMatchContentType(k), nullptr);
    for (size_t k = 0; k < content.size(); k++)
      if (*content[k] != *n->sub[k]->args[0]->ty)
        bad("a gamma has other match contents than it was created with", std::to_string(k));
    break;
  }
  case 2:
  {
    op = "create a theta";
    ThetaNode * p = nullptr;
    valid([&] { p = ThetaNode::create(r->p); });
    auto n = mkN(r, KTheta, p, 1);
    if (p->subregion()->numNodes() != 1)
      bad("a new theta has another content", "nodes");
    auto k = mkN(n->sub[0], KConst, &*p->subregion()->Nodes().begin(), 0);
    addRes(n->sub[0], addOut(k, c2), nullptr);
    break;
  }
  case 3:
  {
    op = "create a lambda";
    std::vector<Ty> a, b;
    for (uint32_t k = g.draw(3); k > 0; k--)
      a.push_back(anyType());
    for (uint32_t k = g.draw(3); k > 0; k--)
      b.push_back(anyType());
    LambdaNode * p = nullptr;
    valid([&] { p = LambdaNode::Create(*r->p, std::make_unique<LambdaOperation>(FunctionType::Create(a, b))); });
    auto n = mkN(r, KLambda, p, 1);
    n->argTypes = a;
    n->resTypes = b;
    for (auto & t : a)
      addArg(n->sub[0], t, nullptr);
    break;
  }
  case 4:
  {
    op = "create a phi";
    PhiBuilder pb;
    pb.begin(r->p);
    auto & last = *[&]
    {
      Node * x = nullptr;
      for (auto & m : r->p->Nodes())
        x = &m;
      return x;
    }();
    Node * p = pb.subregion()->node();
    (void)last;
    auto n = mkN(r, KPhi, p, 1);
    compare();
    uint32_t steps = 1 + g.draw(4);
    for (uint32_t k = 0; k < steps; k++)
      if (g.chance(1, 2))
      {
        if (auto o = anyOut(r); o && o->node != n)
        {
          PhiNode::ContextVar cv;
          valid([&] { cv = pb.AddContextVar(*o->p); });
          auto i = addIn(n, o, cv.input);
          addArg(n->sub[0], o->ty, i, cv.inner);
          compare();
        }
      }
      else
      {
        auto t = anyType();
        PhiNode::FixVar fv;
        valid([&] { fv = pb.AddFixVar(t); });
        auto o = addOut(n, t, fv.output);
        auto a = addArg(n->sub[0], t, nullptr, fv.recref);
        n->sub[0]->args.pop_back();
        n->sub[0]->args.insert(n->sub[0]->args.begin() + n->sub[0]->res.size(), a);
        addRes(n->sub[0], a, o, fv.result);
        compare();
      }
    for (size_t k = 0; k < n->out.size(); k++)
    {
      std::vector<MO *> ins;
      for (auto a : n->sub[0]->args)
        if (g.chance(1, 3))
          ins.push_back(a);
      MN * body = nullptr;
      valid([&] { body = newSimple(n->sub[0], ins, { n->out[k]->ty }); });
      auto x = n->sub[0]->res[k];
      valid([&] { x->p->divert_to(body->out[0]->p); });
      x->origin = body->out[0];
    }
    valid(
        [&]
        {
          if (pb.end() != p)
            bad("the builder of a phi gives another node", nm(n));
        });
    break;
  }
  }
}

void
Sim::editStructural(MN * n)
{
  auto r = n->r;
  auto before = [&]() -> MO *
  {
    std::vector<MO *> v;
    for (auto o : outputs(r))
    {
      std::set<MN *> anc;
      if (o->node)
        ancestors(o->node, anc);
      if (!anc.count(n))
        v.push_back(o);
    }
    return v.empty() ? nullptr : any(v);
  };
  switch (n->k)
  {
  case KTest:
  {
    auto p = static_cast<TestStructuralNode *>(n->p);
    switch (g.pick({ 4, 1, 1, 4, 1, 1, 3, 3 }))
    {
    case 0:
    case 1:
    {
      bool args = g.chance(2, 3);
      op = args ? "add an input with arguments" : "add an input";
      auto o = before();
      if (!o)
        return;
      valid([&] { args ? (void)p->addInputWithArguments(*o->p) : (void)p->addInputOnly(*o->p); });
      auto i = addIn(n, o);
      if (args)
        for (auto s : n->sub)
          addArg(s, o->ty, i);
      break;
    }
    case 2:
    {
      op = "add arguments";
      auto t = anyType();
      valid([&] { p->addArguments(t); });
      for (auto s : n->sub)
        addArg(s, t, nullptr);
      break;
    }
    case 3:
    {
      op = "add an output with results";
      auto t = anyType();
      std::vector<Output *> v;
      std::vector<MO *> m;
      for (auto s : n->sub)
      {
        valid([&] { m.push_back(valueIn(s, t)); });
        v.push_back(m.back()->p);
      }
      valid([&] { p->addOutputWithResults(v); });
      auto o = addOut(n, t);
      for (size_t k = 0; k < m.size(); k++)
        addRes(n->sub[k], m[k], o);
      break;
    }
    case 4:
    {
      op = "add an output";
      auto t = anyType();
      valid([&] { p->addOutputOnly(t); });
      addOut(n, t);
      break;
    }
    case 5:
    {
      op = "add results";
      std::vector<Output *> v;
      std::vector<MO *> m;
      auto t = anyType();
      for (auto s : n->sub)
      {
        valid([&] { m.push_back(valueIn(s, t)); });
        v.push_back(m.back()->p);
      }
      valid([&] { p->addResults(v); });
      for (size_t k = 0; k < m.size(); k++)
        addRes(n->sub[k], m[k], nullptr);
      break;
    }
    case 6:
    {
      op = "remove inputs and their arguments";
      std::vector<size_t> idx;
      for (size_t k = 0; k < n->in.size(); k++)
      {
        bool ok = true;
        for (auto s : n->sub)
          for (auto a : s->args)
            ok &= a->in != n->in[k] || !numUsers(a);
        if (ok && g.chance(2, 3))
          idx.push_back(k);
      }
      for (auto s : n->sub)
      {
        std::vector<size_t> gone;
        util::HashSet<size_t> hs;
        for (size_t k = 0; k < s->args.size(); k++)
          for (auto x : idx)
            if (s->args[k]->in == n->in[x])
            {
              gone.push_back(k);
              hs.insert(k);
            }
        valid([&] { s->p->RemoveArguments(hs); });
        eraseAt(s->args, gone);
      }
      compare();
      util::HashSet<size_t> hs;
      for (auto x : idx)
        hs.insert(x);
      if (g.chance(1, 6))
        hs.insert(n->in.size() + 2);
      size_t k = 0;
      valid([&] { k = p->RemoveInputs(hs); });
      if (k != idx.size())
        bad("the number of removed inputs is wrong", std::to_string(k));
      eraseAt(n->in, idx);
      break;
    }
    case 7:
    {
      op = "remove outputs and their results";
      std::vector<size_t> idx, gone;
      for (size_t k = 0; k < n->out.size(); k++)
        if (g.chance(1, 2))
        {
          idx.push_back(k);
          if (!numUsers(n->out[k]))
            gone.push_back(k);
        }
      for (auto s : n->sub)
      {
        std::vector<size_t> x;
        util::HashSet<size_t> hs;
        for (size_t k = 0; k < s->res.size(); k++)
          for (auto y : idx)
            if (s->res[k]->out == n->out[y])
            {
              x.push_back(k);
              hs.insert(k);
            }
        valid([&] { s->p->RemoveResults(hs); });
        eraseAt(s->res, x);
      }
      compare();
      util::HashSet<size_t> hs;
      for (auto x : idx)
        hs.insert(x);
      size_t k = 0;
      valid([&] { k = p->RemoveOutputs(hs); });
      if (k != gone.size())
        bad("the number of removed outputs is wrong", std::to_string(k));
      eraseAt(n->out, gone);
      break;
    }
    }
    break;
  }
  case KGamma:
  {
    auto p = static_cast<GammaNode *>(n->p);
    switch (g.pick({ 4, 4, 2, 2, 1 }))
    {
    case 0:
    {
      op = "add an entry variable";
      auto o = before();
      if (!o)
        return;
      GammaNode::EntryVar ev;
      valid([&] { ev = p->AddEntryVar(o->p); });
      auto i = addIn(n, o, ev.input);
      for (size_t k = 0; k < n->sub.size(); k++)
        addArg(n->sub[k], o->ty, i, ev.branchArgument.at(k));
      break;
    }
    case 1:
    {
      op = "add an exit variable";
      auto t = anyType();
      std::vector<Output *> v;
      std::vector<MO *> m;
      for (auto s : n->sub)
      {
        valid([&] { m.push_back(valueIn(s, t)); });
        v.push_back(m.back()->p);
      }
      GammaNode::ExitVar xv;
      valid([&] { xv = p->AddExitVar(v); });
      auto o = addOut(n, t, xv.output);
      for (size_t k = 0; k < m.size(); k++)
        addRes(n->sub[k], m[k], o, xv.branchResult.at(k));
      break;
    }
    case 2:
    {
      op = "remove entry variables";
      std::vector<GammaNode::EntryVar> v;
      std::vector<size_t> idx;
      auto evs = p->GetEntryVars();
      for (size_t k = 1; k < n->in.size(); k++)
      {
        bool ok = true;
        for (auto s : n->sub)
          ok &= !numUsers(s->args[k]);
        if (ok && g.chance(2, 3))
        {
          v.push_back(evs[k - 1]);
          idx.push_back(k);
        }
      }
      valid([&] { p->RemoveEntryVars(v); });
      eraseAt(n->in, idx);
      for (auto s : n->sub)
        eraseAt(s->args, idx);
      break;
    }
    default:
    {
      bool all = g.chance(1, 3);
      op = all ? "prune exit variables" : "remove exit variables";
      std::vector<size_t> idx;
      std::vector<Output *> v;
      for (size_t k = 0; k < n->out.size(); k++)
        if (!numUsers(n->out[k]) && (all || g.chance(2, 3)))
        {
          idx.push_back(k);
          v.push_back(n->out[k]->p);
        }
      valid([&] { all ? p->PruneExitVars() : p->RemoveExitVars(v); });
      eraseAt(n->out, idx);
      for (auto s : n->sub)
        eraseAt(s->res, idx);
      break;
    }
    }
    break;
  }
  case KTheta:
  {
    auto p = static_cast<ThetaNode *>(n->p);
    switch (g.pick({ 4, 2, 2 }))
    {
    case 0:
    {
      op = "add a loop variable";
      auto o = before();
      if (!o)
        return;
      ThetaNode::LoopVar lv;
      valid([&] { lv = p->AddLoopVar(o->p); });
      auto i = addIn(n, o, lv.input);
      auto out = addOut(n, o->ty, lv.output);
      auto a = addArg(n->sub[0], o->ty, i, lv.pre);
      addRes(n->sub[0], a, out, lv.post);
      break;
    }
    case 1:
    {
      op = "remove loop variables";
      std::vector<ThetaNode::LoopVar> v;
      std::vector<size_t> idx, ridx;
      auto lvs = p->GetLoopVars();
      for (size_t k = 0; k < n->in.size(); k++)
      {
        auto a = n->sub[0]->args[k];
        auto x = n->sub[0]->res[k + 1];
        auto u = numUsers(a);
        if (numUsers(n->out[k]) || u > 1 || (u == 1 && x->origin != a) || !g.chance(3, 4))
          continue;
        v.push_back(lvs[k]);
        idx.push_back(k);
        ridx.push_back(k + 1);
      }
      valid([&] { p->RemoveLoopVars(v); });
      eraseAt(n->in, idx);
      eraseAt(n->out, idx);
      eraseAt(n->sub[0]->args, idx);
      eraseAt(n->sub[0]->res, ridx);
      break;
    }
    case 2:
    {
      op = "set the predicate of a theta";
      auto s = n->sub[0];
      MO * o = nullptr;
      valid([&] { o = valueIn(s, c2); });
      auto old = s->res[0]->origin->node;
      valid([&] { p->set_predicate(o->p); });
      s->res[0]->origin = o;
      if (old && isDead(old))
        dropNode(old);
      break;
    }
    }
    break;
  }
  case KLambda:
  {
    auto p = static_cast<LambdaNode *>(n->p);
    switch (g.pick({ 4, 3, 2 }))
    {
    case 0:
    {
      op = "add a context variable";
      auto o = before();
      if (!o)
        return;
      LambdaNode::ContextVar cv;
      valid([&] { cv = p->AddContextVar(*o->p); });
      auto i = addIn(n, o, cv.input);
      addArg(n->sub[0], o->ty, i, cv.inner);
      break;
    }
    case 1:
    {
      op = "finalize a lambda";
      if (n->finalized)
        return;
      std::vector<Output *> v;
      std::vector<MO *> m;
      for (auto & t : n->resTypes)
      {
        valid([&] { m.push_back(valueIn(n->sub[0], t)); });
        v.push_back(m.back()->p);
      }
      Output * o = nullptr;
      valid([&] { o = p->finalize(v); });
      addOut(n, FunctionType::Create(n->argTypes, n->resTypes), o);
      for (auto x : m)
        addRes(n->sub[0], x, nullptr);
      n->finalized = true;
      break;
    }
    case 2:
    {
      bool all = g.chance(1, 3);
      op = all ? "prune context variables" : "remove context variables";
      std::set<const Input *> some;
      std::vector<size_t> idx, aidx;
      for (size_t k = 0; k < n->in.size(); k++)
      {
        if (all || g.chance(1, 2))
        {
          some.insert(n->in[k]->p);
          if (!numUsers(n->sub[0]->args[n->argTypes.size() + k]))
          {
            idx.push_back(k);
            aidx.push_back(n->argTypes.size() + k);
          }
        }
      }
      size_t k = 0;
      valid(
          [&]
          {
            k = all ? p->PruneLambdaInputs()
                    : p->RemoveLambdaInputsWhere(
                          [&](const Input & i)
                          {
                            return some.count(&i) != 0;
                          });
          });
      if (k != idx.size())
        bad("the number of removed inputs is wrong", std::to_string(k));
      eraseAt(n->in, idx);
      eraseAt(n->sub[0]->args, aidx);
      break;
    }
    }
    break;
  }
  case KPhi:
  {
    auto p = static_cast<PhiNode *>(n->p);
    auto s = n->sub[0];
    switch (g.pick({ 3, 2, 2 }))
    {
    case 0:
    {
      op = "add a context variable to a phi";
      auto o = before();
      if (!o)
        return;
      PhiNode::ContextVar cv;
      valid([&] { cv = p->AddContextVar(*o->p); });
      auto i = addIn(n, o, cv.input);
      addArg(s, o->ty, i, cv.inner);
      break;
    }
    case 1:
    {
      op = "remove context variables of a phi";
      std::vector<PhiNode::ContextVar> v;
      std::vector<size_t> idx, aidx;
      auto cvs = p->GetContextVars();
      for (size_t k = 0; k < n->in.size(); k++)
        if (!numUsers(s->args[n->out.size() + k]) && g.chance(2, 3))
        {
          v.push_back(cvs[k]);
          idx.push_back(k);
          aidx.push_back(n->out.size() + k);
        }
      valid([&] { p->RemoveContextVars(v); });
      eraseAt(n->in, idx);
      eraseAt(s->args, aidx);
      break;
    }
    case 2:
    {
      op = "remove recursion variables";
      std::vector<PhiNode::FixVar> v;
      std::vector<size_t> idx;
      auto fvs = p->GetFixVars();
      for (size_t k = 0; k < n->out.size(); k++)
        if (!numUsers(n->out[k]) && !numUsers(s->args[k]) && g.chance(2, 3))
        {
          v.push_back(fvs[k]);
          idx.push_back(k);
        }
      valid([&] { p->RemoveFixVars(v); });
      eraseAt(n->out, idx);
      eraseAt(s->args, idx);
      eraseAt(s->res, idx);
      break;
    }
    }
    break;
  }
  default:
    break;
  }
}

// edits that break a rule of the graph: they are refused, and nothing of them remains
void
Sim::reject(MR * r)
{
  auto rsAll = regions();
  auto other = any(rsAll);
  switch (g.draw(13))
  {
  case 0:
  {
    op = "divert to a value of another region";
    std::vector<MI *> v(r->res);
    for (auto n : r->nodes)
      v.insert(v.end(), n->in.begin(), n->in.end());
    if (v.empty() || other == r)
      return;
    auto i = any(v);
    auto o = anyOf(other, i->ty);
    if (o)
      invalid<util::Error>([&] { i->p->divert_to(o->p); });
    break;
  }
  case 1:
  {
    op = "divert to a value of another type";
    std::vector<MI *> v(r->res);
    for (auto n : r->nodes)
      v.insert(v.end(), n->in.begin(), n->in.end());
    auto o = anyOut(r);
    if (v.empty() || !o)
      return;
    auto i = any(v);
    if (*i->ty != *o->ty)
      invalid<util::TypeError>([&] { i->p->divert_to(o->p); });
    break;
  }
  case 2:
  {
    op = "create a node with a wrong number of operands";
    auto o = anyOut(r);
    if (!o)
      return;
    std::vector<Ty> at(2 + g.draw(2), o->ty);
    invalid<util::Error>([&] { SimpleNode::Create(*r->p, std::make_unique<SimOp>(at, std::vector<Ty>{ tv }, 0), { o->p }); });
    break;
  }
  case 3:
  {
    op = "create a node with an operand of another type";
    auto o = anyOut(r), a = anyOut(r);
    if (!o || !a)
      return;
    Ty wrong = *o->ty == *tv ? ts : tv;
    invalid<util::TypeError>(
        [&]
        {
          SimpleNode::Create(
              *r->p,
              std::make_unique<SimOp>(std::vector<Ty>{ a->ty, wrong }, std::vector<Ty>{ tv }, 0),
              { a->p, o->p });
        });
    break;
  }
  case 4:
  {
    op = "create a node with an operand of another region";
    auto o = anyOut(r);
    auto x = anyOut(other);
    if (!o || !x || other == r)
      return;
    invalid<util::Error>(
        [&]
        {
          SimpleNode::Create(
              *r->p,
              std::make_unique<SimOp>(std::vector<Ty>{ o->ty, x->ty }, std::vector<Ty>{ tv }, 0),
              { o->p, x->p });
        });
    break;
  }
  case 5:
  {
    op = "add a result of another region's value";
    auto x = anyOut(other);
    if (!x || other == r)
      return;
    invalid<util::Error>([&] { RegionResult::Create(*r->p, *x->p, nullptr, x->ty); });
    break;
  }
  case 6:
  {
    op = "add a result to another region";
    auto x = anyOut(other);
    if (!x || other == r)
      return;
    auto res = std::make_unique<RegionResult>(other->p, x->p, nullptr, x->ty);
    invalid<util::Error>([&] { r->p->addResult(std::move(res)); });
    res.reset();
    break;
  }
  case 7:
  {
    op = "add an argument to another region";
    if (other == r)
      return;
    auto a = std::make_unique<RegionArgument>(other->p, nullptr, tv);
    bool ins = g.chance(1, 2);
    invalid<util::Error>([&] { ins ? r->p->insertArgument(0, std::move(a)) : r->p->addArgument(std::move(a)); });
    break;
  }
  case 8:
  {
    op = "insert an argument behind the end";
    auto a = std::make_unique<RegionArgument>(r->p, nullptr, tv);
    invalid<util::Error>([&] { r->p->insertArgument(r->args.size() + 1 + g.draw(3), std::move(a)); });
    break;
  }
  case 9:
  {
    op = "add an argument or result of another node";
    std::vector<MN *> v;
    for (auto n : other->nodes)
      if (!n->sub.empty() && r->parent != n)
        v.push_back(n);
    if (v.empty())
      return;
    auto n = any(v);
    if (!n->in.empty() && g.chance(1, 2))
    {
      auto i = any(n->in);
      invalid<util::Error>([&] { RegionArgument::Create(*r->p, static_cast<StructuralInput *>(i->p), i->ty); });
    }
    else if (!n->out.empty())
    {
      auto o = any(n->out);
      if (auto x = anyOf(r, o->ty))
        invalid<util::Error>([&] { RegionResult::Create(*r->p, *x->p, static_cast<StructuralOutput *>(o->p), o->ty); });
    }
    break;
  }
  case 10:
  {
    op = "route a value of another region into a node";
    std::vector<MN *> v;
    for (auto n : r->nodes)
      if (!n->sub.empty())
        v.push_back(n);
    auto x = anyOut(other);
    if (v.empty() || !x || other == r)
      return;
    auto n = any(v);
    invalid<util::Error>(
        [&]
        {
          switch (n->k)
          {
          case KTest:
            static_cast<TestStructuralNode *>(n->p)->addInputWithArguments(*x->p);
            break;
          case KGamma:
            static_cast<GammaNode *>(n->p)->AddEntryVar(x->p);
            break;
          case KTheta:
            static_cast<ThetaNode *>(n->p)->AddLoopVar(x->p);
            break;
          case KLambda:
            static_cast<LambdaNode *>(n->p)->AddContextVar(*x->p);
            break;
          default:
            static_cast<PhiNode *>(n->p)->AddContextVar(*x->p);
          }
        });
    break;
  }
  case 11:
  {
    op = "finish a node with wrong values";
    for (auto n : r->nodes)
    {
      if (n->k == KGamma)
      {
        invalid<util::Error>([&] { static_cast<GammaNode *>(n->p)->AddExitVar({}); });
        break;
      }
      if (n->k == KLambda && !n->finalized)
      {
        std::vector<Output *> v;
        MO * o = anyOut(r);
        if (!o)
          break;
        for (size_t k = 0; k < n->resTypes.size(); k++)
          v.push_back(o->p);
        if (v.empty())
          v.push_back(o->p);
        invalid<util::Error>([&] { static_cast<LambdaNode *>(n->p)->finalize(v); });
        break;
      }
    }
    break;
  }
  case 12:
  {
    if (g.chance(1, 2))
    {
      op = "create a gamma whose predicate is no choice";
      auto o = anyOut(r);
      if (!o || *o->ty == *c2)
        return;
      invalid<util::TypeError>([&] { GammaNode::create(o->p, 2); });
    }
    else
    {
      op = "create a structural node without subregions";
      invalid<util::Error>([&] { TestStructuralNode::create(r->p, 0); });
    }
    break;
  }
  }
}

void
Sim::copies(MR * r)
{
  if (liveNodes() > 70)
    return;
  switch (g.pick({ 5, 3, 1 }))
  {
  case 0:
  {
    op = "copy a node";
    std::vector<MN *> v;
    for (auto n : r->nodes)
      if (copyable(n))
        v.push_back(n);
    if (v.empty())
      return;
    auto n = any(v);
    MR * t = g.chance(2, 3) ? r : any(regions());
    if (t->parent && (t == r ? false : inside(t, r)))
    {
      // not into the node itself
      for (auto x = t; x && x != r; x = x->parent ? x->parent->r : nullptr)
        if (x->parent == n)
          return;
    }
    Subst s;
    SubstitutionMap sm;
    for (auto i : n->in)
    {
      if (s.count(i->origin))
        continue;
      auto o = t == r && g.chance(1, 2) ? i->origin : anyOf(t, i->ty);
      if (!o)
        return;
      s[i->origin] = o;
      sm.insert(i->origin->p, o->p);
    }
    note("    " + nm(n) + " to region " + std::to_string(t->id));
    bool byOperands = t != r && n->k == KSim && g.chance(1, 2);
    Node * p = nullptr;
    if (byOperands)
    {
      std::vector<Output *> ops;
      for (auto i : n->in)
        ops.push_back(sub(s, i->origin)->p);
      valid([&] { p = n->p->copy(t->p, ops); });
    }
    else
      valid([&] { p = n->p->copy(t->p, sm); });
    auto m = cloneNode(n, t, s);
    compare();
    if (m->p != p)
      bad("the copy of a node is another node", nm(m));
    if (!byOperands)
      checkSubst(sm, s);
    break;
  }
  case 1:
  {
    op = "copy a region";
    auto t = any(regions());
    if (inside(t, r) || !copyable(r, false))
      return;
    Subst s;
    SubstitutionMap sm;
    auto u = usersOf(r);
    for (auto a : r->args)
    {
      auto o = anyOf(t, a->ty);
      if (!o)
      {
        if (u.count(a))
          return;
        continue;
      }
      s[a] = o;
      sm.insert(a->p, o->p);
    }
    note("    " + std::to_string(r->id) + " to " + std::to_string(t->id));
    valid([&] { r->p->copy(t->p, sm); });
    cloneBody(r, t, s);
    compare();
    checkSubst(sm, s);
    break;
  }
  case 2:
  {
    op = "copy the graph";
    if (!copyable(root))
      return;
    std::unique_ptr<Graph> copy;
    valid([&] { copy = target->Copy(); });
    // the copy takes the place of the graph, which is destroyed with everyone looking on
    auto old = root;
    auto oldGraph = std::move(graph);
    root = mkR(nullptr, 0, &copy->GetRootRegion());
    graph = std::move(copy);
    target = graph.get();
    Subst s;
    for (auto a : old->args)
      s[a] = addArg(root, a->ty, nullptr);
    cloneBody(old, root, s);
    for (auto x : old->res)
      addRes(root, sub(s, x->origin), nullptr);
    auto saved = std::move(watchers);
    watchers.clear();
    compare();
    watchers = std::move(saved);
    if (g.chance(1, 2))
    {
      std::swap(root, old);
      std::swap(graph, oldGraph);
      target = graph.get();
    }
    oldGraph.reset();
    kill(old);
    break;
  }
  }
}

void
Sim::step()
{
  nOps++;
  auto rs = regions();
  // the larger regions get more of the edits
  auto r = g.chance(1, 3) ? root : any(rs);
  op = "";
  size_t what = g.pick({ 24, 6, 14, 4, 4, 16, 4, 3, 2, 2 });
  switch (what)
  {
  case 0:
    edit(r);
    break;
  case 1:
    if (liveNodes() < 60)
      newStructural(r);
    break;
  case 2:
  {
    std::vector<MN *> v;
    for (auto x : rs)
      for (auto n : x->nodes)
        if (!n->sub.empty())
          v.push_back(n);
    if (!v.empty())
      editStructural(any(v));
    break;
  }
  case 3:
    copies(r);
    break;
  case 4:
    reject(r);
    break;
  case 5:
    op = "advance a traversal";
    if (!walks.empty())
      for (uint32_t k = 1 + g.draw(3); k > 0; k--)
        stepWalk(*any(std::vector<Walk *>(
            [&]
            {
              std::vector<Walk *> v;
              for (auto & w : walks)
                v.push_back(w.get());
              return v;
            }())));
    break;
  case 6:
    op = "begin a traversal";
    if (walks.size() < 5)
    {
      bool down = g.chance(1, 2);
      startWalk(r, down, g.chance(1, 2));
    }
    break;
  case 7:
    op = "attach an observer";
    if (watchers.size() < 4)
      watchers.push_back(std::make_unique<Watcher>(*this, r));
    break;
  case 8:
    op = "detach an observer";
    if (!watchers.empty())
      watchers.erase(watchers.begin() + g.draw(uint32_t(watchers.size())));
    break;
  case 9:
    op = "abandon a traversal";
    if (!walks.empty())
      walks.erase(walks.begin() + g.draw(uint32_t(walks.size())));
    break;
  }
  if (op.empty())
    return;
  note(std::to_string(nOps) + " " + op + " in region " + std::to_string(r->id));
  c.count("op: " + op);
  c.count("simulated steps");
  compare();
  c.digest(hashStr(op));
  size_t down = 0;
  for (auto & w : walks)
    down += w->down;
  c.state(mix(mix(hashStr(op), regions().size() * 100 + std::min<size_t>(liveNodes(), 40)), walks.size() * 8 + down));
}

void
Sim::run()
{
  nextSerial = 0;
  graph = std::make_unique<Graph>();
  target = graph.get();
  root = mkR(nullptr, 0, &graph->GetRootRegion());
  op = "begin";
  c.stage("edits", Blame::Subject);
  for (uint32_t k = g.draw(4); k > 0; k--)
  {
    auto t = anyType();
    addArg(root, t, nullptr, &GraphImport::Create(*graph, t, "i"));
  }
  compare();
  uint32_t steps = 20 + g.draw(140);
  for (uint32_t k = 0; k < steps; k++)
    step();
  // every traversal still under way comes to its end
  op = "finish traversals";
  while (!walks.empty())
  {
    auto & w = *walks.back();
    for (size_t k = 0; !w.ended || k < 1; k++)
    {
      if (k > 4000)
        bad("a traversal does not end", w.down ? "top-down" : "bottom-up");
      stepWalk(w);
    }
    walks.pop_back();
  }
  compare();
  if (g.chance(1, 2))
  {
    op = "destroy the graph";
    graph.reset();
    kill(root);
    raise();
    for (auto & w : watchers)
      checkWatcher(*w);
    watchers.clear();
  }
  else
  {
    watchers.clear();
    graph.reset();
  }
}
}

void
runGraph(Ctx & c)
{
  c.stage("setup", Blame::Harness);
  heapLayout(c.ch["layout"].draw(1u << 30));
  Sim s(c);
  s.run();
}
}
