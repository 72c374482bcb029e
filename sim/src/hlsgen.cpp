// Seeded generator of functions for the hardware backend: arrays behind pointers and globals, local
// arrays, loops with data-dependent exits, early returns, helper functions to be inlined.
#include "hlsgen.hpp"
#include "choice.hpp"

namespace sim
{
namespace
{

struct Array
{
  std::string base; // pointer to the first element
  unsigned w, lg;   // element width, log2 of the length
  bool local = false, constant = false;
};
struct Var
{
  std::string slot;
  unsigned w;
};

struct Gen
{
  Stream & s;
  HlsProgram & out;
  std::string globals, body, helpers;
  std::vector<Array> arrays, globalArrays;
  std::vector<Var> vars;
  std::vector<std::string> loopVars; // slots of i32 counters in scope
  std::vector<std::pair<std::string, std::string>> loopLabels; // break, continue
  std::string retSlot, exitLabel, entry;
  unsigned retW = 32;
  int tmp = 0, lab = 0, budget = 0, depth = 0, helperCount = 0;
  bool inHelper = false;
  std::vector<std::pair<std::string, std::vector<unsigned>>> hs; // helper name, widths of scalar args
  std::vector<unsigned> hsElt;

  std::string
  t()
  {
    return "%t" + std::to_string(tmp++);
  }
  std::string
  L()
  {
    return "L" + std::to_string(lab++);
  }
  void
  e(const std::string & l)
  {
    body += "  " + l + "\n";
  }
  void
  label(const std::string & l)
  {
    body += l + ":\n";
  }
  static std::string
  ity(unsigned w)
  {
    return "i" + std::to_string(w);
  }
  unsigned
  width()
  {
    static const unsigned ws[] = { 32, 32, 8, 16, 64, 32 };
    return ws[s.draw(6)];
  }

  std::string
  conv(const std::string & v, unsigned from, unsigned to)
  {
    if (from == to)
      return v;
    auto r = t();
    if (from > to)
      e(r + " = trunc " + ity(from) + " " + v + " to " + ity(to));
    else
      e(r + " = " + (s.chance(1, 2) ? "sext " : "zext ") + ity(from) + " " + v + " to " + ity(to));
    return r;
  }
  std::string
  loadVar(const Var & v)
  {
    auto r = t();
    e(r + " = load " + ity(v.w) + ", ptr " + v.slot);
    return r;
  }
  std::string
  constant(unsigned w)
  {
    switch (s.pick({ 4, 2, 1, 1 }))
    {
    case 0:
      return std::to_string(s.draw(4));
    case 1:
      return std::to_string(s.draw(100));
    case 2:
      return "-" + std::to_string(1 + s.draw(20));
    default:
      return w >= 32 ? std::to_string(s.draw(1u << 30)) : std::to_string(s.draw(1u << (w - 1)));
    }
  }
  std::string
  leaf(unsigned w)
  {
    switch (s.pick({ 5, 2, loopVars.empty() ? 0u : 3u }))
    {
    case 0:
    {
      auto & v = vars[s.draw(vars.size())];
      return conv(loadVar(v), v.w, w);
    }
    case 1:
      return constant(w);
    default:
      return conv(loadVar({ loopVars[s.draw(loopVars.size())], 32 }), 32, w);
    }
  }
  std::string
  address(const Array & a, int d)
  {
    // index into the array
    std::string i;
    if (s.chance(1, 6))
      // (the frontend turns the address of the first element of a local array into that of the array,
      // which the backend does not support)
      i = a.local ? std::to_string(1 + s.draw((1u << a.lg) - 1)) : std::to_string(s.draw(1u << a.lg));
    else
    {
      auto x = d > 0 && s.chance(1, 3) ? expr(32, d - 1) : leaf(32);
      auto m = t();
      e(m + " = and i32 " + x + ", " + std::to_string((1u << a.lg) - 1));
      i = t();
      e(i + " = zext i32 " + m + " to i64");
    }
    auto r = t();
    if (a.local)
      e(r + " = getelementptr inbounds [" + std::to_string(1u << a.lg) + " x " + ity(a.w) + "], ptr " + a.base
        + ", i64 0, i64 " + i);
    else
      e(r + " = getelementptr inbounds " + ity(a.w) + ", ptr " + a.base + ", i64 " + i);
    return r;
  }
  std::string
  cond(int d)
  {
    static const char * p[] = { "eq", "ne", "slt", "ult", "sgt", "ugt", "sle", "ule", "sge", "uge" };
    auto w = width();
    auto a = expr(w, d - 1), b = s.chance(1, 2) ? constant(w) : expr(w, d - 1);
    auto r = t();
    e(r + " = icmp " + p[s.draw(10)] + " " + ity(w) + " " + a + ", " + b);
    return r;
  }
  std::string
  expr(unsigned w, int d)
  {
    budget--;
    if (d <= 0 || budget < 0)
      return leaf(w);
    auto T = ity(w);
    switch (s.pick({ 4, 6, 2, 1, 2, arrays.empty() ? 0u : 5u, 1 }))
    {
    case 0:
      return leaf(w);
    case 1:
    {
      static const char * op[] = { "add", "sub", "xor", "and", "or", "mul" };
      auto a = expr(w, d - 1), b = expr(w, d - 1), r = t();
      e(r + " = " + op[s.draw(6)] + " " + T + " " + a + ", " + b);
      return r;
    }
    case 2: // shifts
    {
      static const char * op[] = { "shl", "lshr", "ashr" };
      auto a = expr(w, d - 1);
      std::string b;
      if (s.chance(1, 2))
        b = std::to_string(s.draw(w));
      else
      {
        auto x = expr(w, d - 1);
        b = t();
        e(b + " = and " + T + " " + x + ", " + std::to_string(w - 1));
      }
      auto r = t();
      e(r + " = " + op[s.draw(3)] + " " + T + " " + a + ", " + b);
      return r;
    }
    case 3: // divisions
    {
      static const char * op[] = { "udiv", "urem", "sdiv", "srem" };
      auto a = expr(w, d - 1), x = expr(w, d - 1), b = t(), c = t(), r = t();
      e(b + " = and " + T + " " + x + ", 7");
      e(c + " = or " + T + " " + b + ", 1");
      e(r + " = " + op[s.draw(4)] + " " + T + " " + a + ", " + c);
      return r;
    }
    case 4: // comparison as a number, or a selection
    {
      auto c = cond(d - 1), r = t();
      if (s.chance(1, 2))
        e(r + " = zext i1 " + c + " to " + T);
      else
      {
        auto a = expr(w, d - 1), b = expr(w, d - 1);
        r = t();
        e(r + " = select i1 " + c + ", " + T + " " + a + ", " + T + " " + b);
      }
      return r;
    }
    case 5:
    {
      auto & a = arrays[s.draw(arrays.size())];
      auto p = address(a, d - 1), r = t();
      e(r + " = load " + ity(a.w) + ", ptr " + p);
      return conv(r, a.w, w);
    }
    default:
    {
      auto w2 = width();
      return conv(expr(w2, d - 1), w2, w);
    }
    }
  }
  void
  assign(const Var & v)
  {
    auto x = expr(v.w, 3);
    e("store " + ity(v.w) + " " + x + ", ptr " + v.slot);
  }
  void
  br(const std::string & l)
  {
    e("br label %" + l);
  }
  void
  cbr(const std::string & c, const std::string & a, const std::string & b)
  {
    e("br i1 " + c + ", label %" + a + ", label %" + b);
  }
  std::string
  newSlot(unsigned w, const std::string & init)
  {
    auto n = "%v" + std::to_string(tmp++);
    entry += "  " + n + " = alloca " + ity(w) + "\n";
    if (!init.empty())
      e("store " + ity(w) + " " + init + ", ptr " + n);
    return n;
  }
  std::string
  bound()
  {
    if (s.chance(1, 2))
      return std::to_string(1 + s.draw(5));
    auto x = leaf(32), m = t();
    e(m + " = and i32 " + x + ", " + (s.chance(1, 2) ? "3" : "7"));
    if (s.chance(1, 2))
      return m;
    auto r = t();
    e(r + " = add i32 " + m + ", 1");
    return r;
  }
  void
  store()
  {
    std::vector<const Array *> w;
    for (auto & a : arrays)
      if (!a.constant)
        w.push_back(&a);
    if (w.empty())
    {
      assign(vars[s.draw(vars.size())]);
      return;
    }
    auto a = *w[s.draw(w.size())];
    if (s.chance(1, 3)) // read-modify-write
    {
      auto p = address(a, 1), v = t(), r = t();
      e(v + " = load " + ity(a.w) + ", ptr " + p);
      auto x = expr(a.w, 2);
      static const char * op[] = { "add", "xor", "sub" };
      r = t();
      e(r + " = " + op[s.draw(3)] + " " + ity(a.w) + " " + v + ", " + x);
      e("store " + ity(a.w) + " " + r + ", ptr " + p);
      return;
    }
    auto x = expr(a.w, 3), p = address(a, 2);
    e("store " + ity(a.w) + " " + x + ", ptr " + p);
  }
  void
  stmts(int n)
  {
    for (int i = 0; i < n && budget > 0; i++)
      stmt();
  }
  void
  sub(int n)
  {
    depth++;
    stmts(n);
    depth--;
  }
  void
  stmt()
  {
    bool deep = depth >= 3;
    budget -= 2;
    switch (s.pick({ 4,
                     5,
                     deep ? 0u : 4u,
                     deep ? 0u : 1u,
                     deep ? 0u : 4u,
                     deep ? 0u : 2u,
                     loopLabels.empty() ? 0u : 2u,
                     depth == 0 ? 0u : 1u,
                     hs.empty() ? 0u : 2u,
                     deep ? 0u : 1u }))
    {
    case 0:
      assign(vars[s.draw(vars.size())]);
      break;
    case 1:
      store();
      break;
    case 2: // if
    {
      auto c = cond(2);
      auto a = L(), b = L(), m = L();
      bool els = s.chance(1, 2);
      cbr(c, a, els ? b : m);
      label(a);
      sub(1 + s.draw(3));
      br(m);
      if (els)
      {
        label(b);
        sub(1 + s.draw(3));
        br(m);
      }
      label(m);
      break;
    }
    case 3: // switch
    {
      auto x = expr(32, 2), y = t();
      unsigned n = 2 + s.draw(3);
      e(y + " = and i32 " + x + ", 3");
      auto m = L(), d = L();
      std::vector<std::string> ls;
      std::string sw = "switch i32 " + y + ", label %" + d + " [";
      for (unsigned i = 0; i < n; i++)
      {
        ls.push_back(L());
        sw += " i32 " + std::to_string(i) + ", label %" + ls.back();
      }
      e(sw + " ]");
      for (auto & l : ls)
      {
        label(l);
        sub(1 + s.draw(2));
        br(m);
      }
      label(d);
      sub(s.draw(2));
      br(m);
      label(m);
      break;
    }
    case 4: // loop entered at the bottom or at the top
    {
      bool top = s.chance(1, 2);
      auto n = newSlot(32, bound());
      auto i = newSlot(32, "0");
      auto h = L(), b = L(), c = L(), x = L();
      br(top ? h : b);
      if (top)
      {
        label(h);
        auto iv = loadVar({ i, 32 }), nv = loadVar({ n, 32 }), r = t();
        e(r + " = icmp slt i32 " + iv + ", " + nv);
        if (s.chance(1, 4))
        {
          auto k = cond(2), r2 = t();
          r2 = t();
          e(r2 + " = and i1 " + r + ", " + k);
          r = r2;
        }
        cbr(r, b, x);
      }
      label(b);
      loopVars.push_back(i);
      loopLabels.push_back({ x, c });
      sub(1 + s.draw(4));
      loopVars.pop_back();
      loopLabels.pop_back();
      br(c);
      label(c);
      auto iv = loadVar({ i, 32 }), iw = t();
      e(iw + " = add i32 " + iv + ", " + (s.chance(1, 5) ? "2" : "1"));
      e("store i32 " + iw + ", ptr " + i);
      if (top)
        br(h);
      else
      {
        auto nv = loadVar({ n, 32 }), r = t();
        e(r + " = icmp slt i32 " + iw + ", " + nv);
        cbr(r, b, x);
      }
      label(x);
      break;
    }
    case 5: // walk over an array with a pointer
    {
      std::vector<const Array *> w;
      for (auto & a : arrays)
        if (!a.local)
          w.push_back(&a);
      if (w.empty())
        break;
      auto a = *w[s.draw(w.size())];
      auto p = "%v" + std::to_string(tmp++);
      entry += "  " + p + " = alloca ptr\n";
      e("store ptr " + a.base + ", ptr " + p);
      auto i = newSlot(32, "0");
      auto b = L(), x = L(), c = L();
      br(b);
      label(b);
      auto q = t();
      e(q + " = load ptr, ptr " + p);
      loopVars.push_back(i);
      loopLabels.push_back({ x, c });
      auto v = t();
      e(v + " = load " + ity(a.w) + ", ptr " + q);
      auto cv = conv(v, a.w, 32);
      auto & dst = vars[s.draw(vars.size())];
      if (dst.w == 32 && s.chance(2, 3))
      {
        auto o = loadVar(dst), r = t();
        e(r + " = add i32 " + o + ", " + cv);
        e("store i32 " + r + ", ptr " + dst.slot);
      }
      else if (!a.constant)
      {
        auto y = expr(a.w, 2), r = t();
        r = t();
        e(r + " = xor " + ity(a.w) + " " + v + ", " + y);
        e("store " + ity(a.w) + " " + r + ", ptr " + q);
      }
      sub(s.draw(2));
      loopVars.pop_back();
      loopLabels.pop_back();
      br(c);
      label(c);
      auto q2 = t(), q3 = t();
      e(q2 + " = load ptr, ptr " + p);
      e(q3 + " = getelementptr inbounds " + ity(a.w) + ", ptr " + q2 + ", i64 1");
      e("store ptr " + q3 + ", ptr " + p);
      auto iv = loadVar({ i, 32 }), iw = t(), r = t();
      e(iw + " = add i32 " + iv + ", 1");
      e("store i32 " + iw + ", ptr " + i);
      e(r + " = icmp slt i32 " + iw + ", " + std::to_string(1u << a.lg));
      cbr(r, b, x);
      label(x);
      break;
    }
    case 6: // leave the loop or the iteration
    {
      auto c = cond(2);
      auto m = L();
      auto & ll = loopLabels[s.draw(4) == 0 ? s.draw(loopLabels.size()) : loopLabels.size() - 1];
      cbr(c, s.chance(1, 3) ? ll.second : ll.first, m);
      label(m);
      break;
    }
    case 7: // early return
    {
      auto c = cond(2);
      auto a = L(), m = L();
      cbr(c, a, m);
      label(a);
      if (retW)
        e("store " + ity(retW) + " " + expr(retW, 2) + ", ptr " + retSlot);
      br(exitLabel);
      label(m);
      break;
    }
    case 8: // call of a helper
    {
      auto k = s.draw(hs.size());
      std::vector<const Array *> w;
      for (auto & a : arrays)
        if (!a.local && !a.constant && a.w == hsElt[k] && a.lg >= 2)
          w.push_back(&a);
      if (w.empty())
        break;
      auto a = *w[s.draw(w.size())];
      std::string args = "ptr " + a.base;
      for (auto x : hs[k].second)
      {
        auto v = expr(x, 2);
        args += ", " + ity(x) + " " + v;
      }
      auto r = t();
      e(r + " = call i32 @" + hs[k].first + "(" + args + ")");
      auto & dst = vars[s.draw(vars.size())];
      e("store " + ity(dst.w) + " " + conv(r, 32, dst.w) + ", ptr " + dst.slot);
      break;
    }
    case 9: // several stores of one iteration to nearby places
      store();
      store();
      break;
    }
  }

  std::string
  function(const std::string & name, const std::string & linkage, const std::string & params,
           const std::vector<std::pair<std::string, unsigned>> & scalars, int n)
  {
    body.clear();
    entry.clear();
    vars.clear();
    loopVars.clear();
    loopLabels.clear();
    depth = 0;
    exitLabel = "exit";
    // local arrays
    std::string pre;
    if (!inHelper && s.chance(1, 12))
    {
      unsigned k = s.chance(1, 10) ? 2 : 1;
      for (unsigned i = 0; i < k; i++)
      {
        Array a;
        a.local = true;
        a.w = width();
        a.lg = 1 + s.draw(2);
        a.base = "%loc" + std::to_string(i);
        entry += "  " + a.base + " = alloca [" + std::to_string(1u << a.lg) + " x " + ity(a.w) + "]\n";
        // initialise it
        auto slot = newSlot(32, "0");
        auto top = L(), end = L();
        br(top);
        label(top);
        auto v = loadVar({ slot, 32 }), z = t(), r = t(), n1 = t(), cc = t();
        e(z + " = zext i32 " + v + " to i64");
        e(r + " = getelementptr inbounds [" + std::to_string(1u << a.lg) + " x " + ity(a.w) + "], ptr " + a.base
          + ", i64 0, i64 " + z);
        e("store " + ity(a.w) + " " + (s.chance(1, 2) ? constant(a.w) : conv(v, 32, a.w)) + ", ptr " + r);
        e(n1 + " = add i32 " + v + ", 1");
        e("store i32 " + n1 + ", ptr " + slot);
        e(cc + " = icmp slt i32 " + n1 + ", " + std::to_string(1u << a.lg));
        e("br i1 " + cc + ", label %" + top + ", label %" + end);
        label(end);
        arrays.push_back(a);
      }
    }
    for (auto & [x, w] : scalars)
      vars.push_back({ newSlot(w, x), w });
    unsigned nv = 1 + s.draw(4);
    for (unsigned i = 0; i < nv; i++)
    {
      auto w = width();
      vars.push_back({ newSlot(w, constant(w)), w });
    }
    retSlot = retW ? newSlot(retW, "0") : "";
    stmts(n);
    if (retW)
      e("store " + ity(retW) + " " + expr(retW, 2) + ", ptr " + retSlot);
    br(exitLabel);
    label(exitLabel);
    if (retW)
      e("ret " + ity(retW) + " " + loadVar({ retSlot, retW }));
    else
      e("ret void");
    return "define " + linkage + (retW ? ity(retW) : "void") + " @" + name + "(" + params + ") {\nentry:\n" + entry + body
         + "}\n";
  }

  void
  run()
  {
    unsigned ng = s.pick({ 3, 2, 1 });
    for (unsigned i = 0; i < ng; i++)
    {
      Array a;
      a.w = width();
      a.lg = 1 + s.draw(3);
      a.constant = s.chance(1, 4);
      a.base = "@g" + std::to_string(i);
      globals += a.base + " = " + (a.constant ? "constant" : "global") + " [" + std::to_string(1u << a.lg) + " x "
               + ity(a.w) + "] [";
      for (unsigned j = 0; j < (1u << a.lg); j++)
        globals += std::string(j ? ", " : "") + ity(a.w) + " " + constant(a.w);
      globals += "]\n";
      globalArrays.push_back(a);
      out.globals.push_back(a.base.substr(1));
    }
    std::string text;
    // helpers
    unsigned nh = s.pick({ 5, 2, 1 });
    inHelper = true;
    for (unsigned i = 0; i < nh; i++)
    {
      Array a;
      a.w = width();
      a.lg = 2;
      a.base = "%p";
      arrays = { a };
      if (s.chance(1, 2))
        for (auto & g : globalArrays)
          arrays.push_back(g);
      std::vector<std::pair<std::string, unsigned>> sc;
      std::string params = "ptr %p";
      std::vector<unsigned> ws;
      for (unsigned k = 0, n = s.draw(3); k < n; k++)
      {
        sc.push_back({ "%x" + std::to_string(k), width() });
        ws.push_back(sc.back().second);
        params += ", " + ity(sc.back().second) + " " + sc.back().first;
      }
      retW = 32;
      budget = 15;
      auto name = "h" + std::to_string(i);
      text += function(name, "internal ", params, sc, 1 + s.draw(3));
      hs.push_back({ name, ws });
      hsElt.push_back(a.w);
    }
    inHelper = false;
    arrays = globalArrays;
    std::string params;
    unsigned np = s.pick({ 1, 4, 3, 2 });
    for (unsigned i = 0; i < np; i++)
    {
      Array a;
      a.w = width();
      a.lg = 1 + s.draw(3);
      a.base = "%p" + std::to_string(i);
      params += std::string(params.empty() ? "" : ", ") + "ptr " + a.base;
      arrays.push_back(a);
      out.arrayArgs.push_back({ a.w, 1u << a.lg });
    }
    std::vector<std::pair<std::string, unsigned>> sc;
    for (unsigned k = 0, n = s.draw(4); k < n; k++)
    {
      sc.push_back({ "%a" + std::to_string(k), width() });
      params += std::string(params.empty() ? "" : ", ") + ity(sc.back().second) + " " + sc.back().first;
      out.scalarArgs.push_back(sc.back().second);
    }
    retW = s.chance(1, 5) ? 0 : width();
    out.retW = retW;
    budget = int(20 + 20 * s.pick({ 3, 3, 2, 1 }));
    text += function("f", "", params, sc, 1 + s.draw(6));
    out.text = globals + text;
  }
};
}

HlsProgram
generateHls(Stream & s)
{
  HlsProgram p;
  Gen g{ s, p };
  g.run();
  return p;
}

}
