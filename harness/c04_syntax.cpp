// C04: converted regexes match exactly what the documented syntax says.
#include "ast.h"
#include <reflex/matcher.h>

using namespace pbt;
using ast::Node;
namespace cf = reflex::convert_flag;

static const std::vector<int> pool_u = { 'a', 'b', 'z', 'A', 'B', 'Z', '0', '9', '_', ' ', '-', '.', '*', '(', ')', '[', ']', '{', '}', '|', '^', '$', '\\', '/', '"', '#', '&', '~', '<', '>', '\'', ':', '?', '+', '=', '!', '%', ',', ';', '@', '`', '\t', '\n', '\v', '\f', '\r', 7, 0, 1, 0x1B, 0x7F, 0x80, 0x85, 0xA0, 0xB5, 0xE9, 0xC9, 0xFF, 0x100, 0x3B1, 0x391, 0x7FF, 0x800, 0x4E2D, 0x2028, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF };

static void gen_alphabet(Source& s, bool u, bool ascii, std::vector<int>& alpha)
{
  size_t n = 3 + s.below(6);
  for (size_t i = 0; i < n; ++i)
  {
    int c;
    switch (s.below(4))
    {
      case 0: c = "abcxyzABC"[s.below(9)]; break;
      case 1: c = s.pick(pool_u); break;
      case 2: c = ascii ? static_cast<int>(s.below(128)) : static_cast<int>(s.below(256)); break;
      default: c = u && !ascii ? pool_u[50 + s.below(static_cast<uint32_t>(pool_u.size() - 50))] : "01_ -*."[s.below(7)];
    }
    if ((!u && c > 0xFF) || (ascii && c > 0x7F)) c = 'x';
    alpha.push_back(c);
  }
}

static std::string mutate(Source& s, std::string t, const std::vector<int>& alpha, bool u)
{
  auto ch = [&]() { int c = s.pick(alpha); return u ? ucd::enc(c) : std::string(1, static_cast<char>(c)); };
  // character positions
  std::vector<size_t> at;
  for (size_t i = 0; i < t.size();)
  {
    at.push_back(i);
    int c;
    size_t n = u ? ast::decode(t, i, c) : 1;
    i += n ? n : 1;
  }
  at.push_back(t.size());
  size_t k = s.below(static_cast<uint32_t>(at.size()));
  switch (s.below(5))
  {
    case 0: t.insert(at[k], ch()); break;
    case 1: if (k + 1 < at.size()) t.erase(at[k], at[k + 1] - at[k]); break;
    case 2: if (k + 1 < at.size()) t.replace(at[k], at[k + 1] - at[k], ch()); break;
    case 3: if (k + 1 < at.size() && isalpha(static_cast<unsigned char>(t[at[k]]))) t[at[k]] ^= 0x20; break;
    default: t += ch();
  }
  return t;
}

static void gen_all(Source& s, ast::Gen& g, Node& n, std::string& regex, int& flags, const std::string& sig)
{
  flags = 0;
  if (g.d.utf && s.chance(1, 2)) { flags |= cf::unicode; g.init.u = true; }
  if (s.chance(1, 6)) { flags |= cf::anycase; g.init.i = true; }
  if (s.chance(1, 6)) { flags |= cf::dotall; g.init.s = true; }
  if (s.chance(1, 8)) { flags |= cf::freespace; g.init.x = g.xflag = true; }
  if (s.chance(1, 3)) { flags |= cf::lex; g.lex = true; }
  if (s.chance(1, 8)) { flags |= cf::u4; g.u4 = true; }
  if (s.chance(1, 8)) { flags |= cf::notnewline; g.notnl = true; }
  if (s.chance(1, 8)) { flags |= cf::permissive; }
  if (s.chance(1, 8)) { flags |= cf::recap; }
  if (!g.lex && s.chance(1, 8)) { flags |= cf::basic; g.basic = true; }
  gen_alphabet(s, g.init.u, g.d.ascii, g.alpha);
  (void)sig;
}

static void define(Source& s, ast::Gen& g, std::map<std::string,std::string>& macros, int flags)
{
  if (g.basic || !s.chance(1, 3))
    return;
  ast::Ctx cx = g.init;
  Node n;
  std::string t = g.alt(cx, n, 1);
  std::string name = s.flip() ? "name" : "n_1";
  s.note("macro " + name, t);
  macros[name] = reflex::Matcher::convert(t, flags & ~cf::recap);
  g.macros[name] = std::make_pair(t, n);
  if (s.flip())
  {
    // a list of ASCII characters
    std::vector<int> keep = g.alpha;
    std::string l = "[";
    ucd::Ranges r;
    do
    {
      int c = "abcxyzABCXYZ0189_"[s.below(17)];
      l += static_cast<char>(c);
      r.push_back(std::make_pair(c, c));
    } while (s.more(3));
    l += "]";
    r = ucd::norm(r);
    s.note("macro lst", l);
    macros["lst"] = reflex::Matcher::convert(l, flags & ~cf::recap);
    g.lists["lst"] = std::make_pair(l, r);
  }
}

static void matcher_case(Source& s)
{
  ast::Dialect d;
  ast::Gen g(s, d);
  Node n;
  std::string regex;
  int flags;
  gen_all(s, g, n, regex, flags, "");
  s.note("flags", fmt("%03x", flags));
  std::map<std::string,std::string> macros;
  try
  {
    define(s, g, macros, flags);
  }
  catch (reflex::regex_error& e)
  {
    fail("rejected", fmt("valid macro regex rejected: %s", e.what()));
  }
  ast::Ctx cx = g.init;
  std::string lead;
  bool any = false;
  if (!g.basic && s.chance(1, 4))
  {
    std::string m = g.mods(cx, any);
    if (any) lead = "(?" + m + ")";
  }
  regex = lead + g.alt(cx, n, 2);
  s.note("regex", show(regex));
  if (regex.size() > 1500) discard();
  std::string conv;
  try
  {
    conv = reflex::convert(regex, "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?", flags, macros.empty() ? NULL : &macros);
    if (macros.empty() && conv != reflex::Matcher::convert(regex, flags))
      fail("convert", "Matcher::convert() differs from convert() with the signature of Matcher");
  }
  catch (reflex::regex_error& e)
  {
    fail("rejected", fmt("valid regex %s (flags %x) rejected: %s", show(regex).c_str(), flags, e.what()));
  }
  s.note("converted", show(conv, 300));
  bool wide = (flags & cf::permissive) && conv.size() > 600;
  if (conv.size() > 4000 || ast::Size(120).states(n, wide ? 8 : 80) >= (wide ? 8 : 80))
    discard(); // too large an automaton
  reflex::Pattern *p = NULL;
  try
  {
    p = new reflex::Pattern(conv, "r");
  }
  catch (reflex::regex_error& e)
  {
    if (e.code() == reflex::regex_error::exceeds_limits || e.code() == reflex::regex_error::exceeds_length) discard();
    fail("rejected", fmt("converted regex %s of %s (flags %x) rejected: %s", show(conv).c_str(), show(regex).c_str(), flags, e.what()));
  }
  size_t yes = 0, no = 0;
  uint64_t h = hash_str(regex) + static_cast<uint64_t>(flags);
  size_t inputs = 3 + s.below(4);
  for (size_t i = 0; i < inputs; ++i)
  {
    std::string t;
    switch (s.weighted({ 3, 4, 1 }))
    {
      case 0: ast::sample(s, n, t); break;
      case 1: ast::sample(s, n, t); t = mutate(s, t, g.alpha, g.init.u); if (s.chance(1, 3)) t = mutate(s, t, g.alpha, g.init.u); break;
      default: do t = mutate(s, t, g.alpha, g.init.u); while (s.more(3));
    }
    if (t.empty() || t.size() > 60) continue;
    bool strict = ast::Eval(t, false).matches(n), loose = ast::Eval(t, true).matches(n);
    reflex::Matcher m(*p, reflex::Input(t.data(), t.size()));
    bool got = m.matches() != 0;
    if (strict && !got)
      fail("not-matched", fmt("%s (flags %03x) = %s should match %s", show(regex).c_str(), flags, show(conv).c_str(), show(t).c_str()));
    if (got && !loose)
    {
      bool valid = true;
      int c;
      for (size_t j = 0; j < t.size() && valid;) { size_t k = ast::decode(t, j, c); valid = k > 0; j += k; }
      if (valid || !(flags & cf::permissive))
        fail("matched", fmt("%s (flags %03x) = %s should not match %s", show(regex).c_str(), flags, show(conv).c_str(), show(t).c_str()));
    }
    ++(got ? yes : no);
    h = hash_str(t, h);
  }
  delete p;
  if (g.init.u) s.label("unicode");
  if (g.lex) s.label("lex");
  if (g.basic) s.label("basic");
  if (yes && no && n.k.size() + n.k[0].k.size() > 2)
    s.nontrivial(h);
}

std::vector<Part> pbt::parts() { return { { "matcher", matcher_case, 20000, 1000000, 60 } }; }
PBT_MAIN
