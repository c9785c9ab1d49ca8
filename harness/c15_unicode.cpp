// C15: character categories hold exactly the characters listed in the Unicode data files.
#include "ucd.h"
#include <reflex/matcher.h>
#include <reflex/posix.h>
#include <reflex/unicode.h>

using namespace pbt;

static std::string showr(const ucd::Ranges& r)
{
  std::string s;
  for (size_t i = 0; i < r.size() && i < 20; ++i) s += fmt("%04X-%04X ", r[i].first, r[i].second);
  return s;
}

// ranges as published: pairs ended by 0,0
static void table_case(Source& s)
{
  const std::string& name = ucd::names()[s.cycle(static_cast<uint32_t>(ucd::names().size()))];
  s.note("category", name);
  const ucd::Ranges& want = ucd::tables().at(name);
  const int *w = reflex::Unicode::range(name.c_str());
  if (w == NULL)
    fail("table-missing", fmt("category %s is not defined", name.c_str()));
  ucd::Ranges got;
  int last = -1;
  for (; w[1] != 0; w += 2)
  {
    if (w[0] <= last || w[1] < w[0])
      fail("table-order", fmt("category %s: range %04X-%04X is out of order", name.c_str(), w[0], w[1]));
    last = w[1];
    got.push_back(std::make_pair(w[0], w[1]));
  }
  got = ucd::norm(got);
  if (got != want)
  {
    ucd::Ranges a, b;
    for (auto& p : got) for (int c = p.first; c <= p.second; ++c) if (!ucd::in(want, c)) { a.push_back(std::make_pair(c, c)); break; }
    for (auto& p : want) for (int c = p.first; c <= p.second; ++c) if (!ucd::in(got, c)) { b.push_back(std::make_pair(c, c)); break; }
    fail("table", fmt("category %s: extra %s missing %s", name.c_str(), showr(a).c_str(), showr(b).c_str()));
  }
  s.nontrivial(hash_str(name));
}

static void posix_case(Source& s)
{
  std::vector<std::string> names;
  for (auto& x : ucd::posix()) names.push_back(x.first);
  const std::string& name = names[s.cycle(static_cast<uint32_t>(names.size()))];
  s.note("category", name);
  const int *w = reflex::Posix::range(name.c_str());
  if (w == NULL)
    fail("posix-missing", fmt("category %s is not defined", name.c_str()));
  ucd::Ranges got;
  for (; w[1] != 0; w += 2)
    got.push_back(std::make_pair(w[0], w[1]));
  if (ucd::norm(got) != ucd::posix().at(name))
    fail("posix", fmt("category %s is %s", name.c_str(), showr(ucd::norm(got)).c_str()));
  s.nontrivial(hash_str(name));
}

// a regex with the category matches a character if and only if it is in the category
static void match_case(Source& s)
{
  const std::string& name = ucd::names()[s.cycle(static_cast<uint32_t>(ucd::names().size()))];
  const ucd::Ranges& want = ucd::tables().at(name);
  bool neg = s.flip();
  std::string regex;
  bool esc = name.size() == 1 && islower(static_cast<unsigned char>(name[0]));
  if (esc)
    regex = std::string("\\") + (neg ? static_cast<char>(toupper(name[0])) : name[0]);
  else if (neg)
    regex = s.flip() ? "\\P{" + name + "}" : "\\p{^" + name + "}";
  else
    regex = "\\p{" + name + "}";
  switch (s.below(3))
  {
    case 0: break;
    case 1: regex = "[" + regex + "]"; break;
    default: // complemented list
      regex = "[^" + regex + "]";
      neg = !neg;
  }
  bool permissive = s.chance(1, 3);
  bool directive = s.chance(1, 3);
  reflex::convert_flag_type flags = permissive ? reflex::convert_flag::permissive : reflex::convert_flag::none;
  if (directive)
    regex = "(?u)" + regex;
  else
    flags |= reflex::convert_flag::unicode;
  s.note("regex", regex);
  s.note("flags", fmt("%x", flags));
  // a class without any (non-surrogate) character is an error, skip
  size_t members = 0;
  for (auto& p : want)
    for (int c = p.first; c <= p.second; ++c)
      members += c < 0xD800 || c > 0xDFFF;
  if ((neg && members == 0x110000 - 0x800) || members == 0)
    discard();
  std::vector<int> probe;
  for (size_t i = 0; i < want.size(); ++i)
  {
    if (want.size() > 60 && i > 2 && i + 3 < want.size() && !s.chance(40, static_cast<uint32_t>(want.size())))
      continue;
    for (int d = -1; d <= 1; ++d) { probe.push_back(want[i].first + d); probe.push_back(want[i].second + d); }
  }
  for (int c : { 0, 9, 10, 13, 0x20, 0x41, 0x61, 0x7F, 0x80, 0x85, 0xA0, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFE, 0x10FFFF })
    probe.push_back(c);
  for (int i = 0; i < 60; ++i)
  {
    switch (s.below(3))
    {
      case 0: probe.push_back(static_cast<int>(s.below(0x250))); break;
      case 1: probe.push_back(static_cast<int>(s.below(0x10000))); break;
      default: probe.push_back(static_cast<int>(s.below(0x110000)));
    }
  }
  std::string text;
  std::vector<std::pair<size_t,int> > at;
  for (int c : probe)
    if (c >= 0 && c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF))
    {
      at.push_back(std::make_pair(text.size(), c));
      text += ucd::enc(c);
    }
  std::string conv = reflex::Matcher::convert(regex, flags);
  // second alternative: any valid character
  reflex::Pattern pattern("(?:" + conv + ")|[\\x00-\\x7f]|[\\xc0-\\xff][\\x80-\\xbf]*", "r");
  reflex::Matcher m(pattern, reflex::Input(text.data(), text.size()));
  for (auto& x : at)
  {
    size_t a = m.scan();
    if (a == 0 || m.first() != x.first || m.str() != ucd::enc(x.second))
      fail("category-token", fmt("%s at U+%04X: scan() = %zu %s", regex.c_str(), x.second, a, show(m.str()).c_str()));
    bool in = ucd::in(want, x.second) != neg;
    if ((a == 1) != in)
      fail("category-match", fmt("%s (flags %x) %s U+%04X", regex.c_str(), flags, a == 1 ? "matches" : "does not match", x.second));
  }
  s.label(neg ? "complement" : "plain");
  s.nontrivial(hash_str(regex) + flags);
}

// ASCII categories in byte mode
static void posix_match_case(Source& s)
{
  std::vector<std::string> names;
  for (auto& x : ucd::posix()) names.push_back(x.first);
  const std::string& name = names[s.cycle(static_cast<uint32_t>(names.size()))];
  const ucd::Ranges& want = ucd::posix().at(name);
  bool neg = s.flip();
  std::string regex;
  if (name.size() == 1)
  {
    regex = std::string("\\") + (neg ? static_cast<char>(toupper(name[0])) : name[0]);
    if (s.flip()) regex = "[" + regex + "]";
  }
  else
  {
    std::string low;
    for (char c : name) low += static_cast<char>(tolower(c));
    switch (s.below(4))
    {
      case 0: regex = neg ? "\\P{" + name + "}" : "\\p{" + name + "}"; break;
      case 1: regex = neg ? "[\\P{" + name + "}]" : "[\\p{" + name + "}]"; break;
      case 2: regex = neg ? "[[:^" + low + ":]]" : "[[:" + low + ":]]"; break;
      default: regex = neg ? "[^[:" + low + ":]]" : "[[:" + low + ":]]";
    }
  }
  bool raw = s.flip() && regex.find("[:^") == std::string::npos; // negated names are converted only
  s.note("regex", regex);
  s.note("converted", raw ? "no" : "yes");
  std::string conv = raw ? regex : reflex::Matcher::convert(regex, reflex::convert_flag::none);
  reflex::Pattern pattern("(?:" + conv + ")|[\\x00-\\xff]", "r");
  std::string text;
  for (int c = 0; c < 256; ++c) text += static_cast<char>(c);
  reflex::Matcher m(pattern, reflex::Input(text.data(), text.size()));
  for (int c = 0; c < 256; ++c)
  {
    size_t a = m.scan();
    if (m.size() != 1 || a == 0)
      fail("posix-token", fmt("%s at byte %02x", regex.c_str(), c));
    if ((a == 1) != (ucd::in(want, c) != neg))
      fail("posix-match", fmt("%s %s byte %02x (%s)", regex.c_str(), a == 1 ? "matches" : "does not match", c, raw ? "pattern" : "converted"));
  }
  s.nontrivial(hash_str(regex) + raw);
}

std::vector<Part> pbt::parts()
{
  uint64_t n = ucd::names().size();
  return { { "tables", table_case, n, n, 60 }, { "posix", posix_case, 20, 20, 10 }, { "match", match_case, n * 30, n * 200, 60 }, { "posix-match", posix_match_case, 1000, 8000, 10 } };
}
PBT_MAIN
