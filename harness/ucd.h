// ucd.h - character categories derived from the Unicode data files in the repository
#ifndef UCD_H
#define UCD_H
#include "pbt.h"
#include <algorithm>
#include <fstream>

namespace ucd {

typedef std::vector<std::pair<int,int> > Ranges; // sorted, disjoint, not adjacent

inline Ranges norm(Ranges r)
{
  std::sort(r.begin(), r.end());
  Ranges o;
  for (auto& p : r)
    if (!o.empty() && p.first <= o.back().second + 1)
      o.back().second = std::max(o.back().second, p.second);
    else
      o.push_back(p);
  return o;
}
inline Ranges uni(std::initializer_list<Ranges> l)
{
  Ranges r;
  for (const Ranges& x : l) r.insert(r.end(), x.begin(), x.end());
  return norm(r);
}
inline Ranges complement(const Ranges& r, int hi = 0x10FFFF)
{
  Ranges o;
  int last = 0;
  for (auto& p : r)
  {
    if (p.first > last) o.push_back(std::make_pair(last, std::min(hi, p.first - 1)));
    last = p.second + 1;
  }
  if (last <= hi) o.push_back(std::make_pair(last, hi));
  return o;
}
inline bool in(const Ranges& r, int c)
{
  auto i = std::upper_bound(r.begin(), r.end(), std::make_pair(c, 0x7fffffff));
  return i != r.begin() && c <= (i - 1)->second;
}

// name -> code points, for every documented Unicode category, script, block and identifier class
inline const std::map<std::string,Ranges>& tables()
{
  static std::map<std::string,Ranges> t;
  if (!t.empty())
    return t;
  const char *repo = getenv("VERIF_REPO");
  std::string dir = std::string(repo ? repo : "/repo") + "/unicode/";
  std::ifstream d(dir + "UnicodeData.txt"), sc(dir + "Scripts.txt"), bl(dir + "Blocks.txt");
  std::string line;
  int first = -1;
  while (std::getline(d, line))
  {
    size_t a = line.find(';'), b = line.find(';', a + 1), c = line.find(';', b + 1);
    if (a == std::string::npos || b == std::string::npos || c == std::string::npos)
      continue;
    int code = static_cast<int>(strtol(line.c_str(), NULL, 16));
    std::string name = line.substr(a + 1, b - a - 1), cat = line.substr(b + 1, c - b - 1);
    if (name.size() > 8 && name.compare(name.size() - 8, 8, ", First>") == 0) { first = code; continue; }
    if (first < 0) first = code;
    if (cat != "Cs" && cat != "Co")
      t[cat].push_back(std::make_pair(first, code));
    first = -1;
  }
  while (std::getline(sc, line))
  {
    size_t k = line.find(';');
    if (line.empty() || line[0] == '#' || k == std::string::npos)
      continue;
    int lo = static_cast<int>(strtol(line.c_str(), NULL, 16)), hi = lo;
    size_t dd = line.find("..");
    if (dd < k) hi = static_cast<int>(strtol(line.c_str() + dd + 2, NULL, 16));
    k = line.find_first_not_of(' ', k + 1);
    t[line.substr(k, line.find_first_of(" #", k) - k)].push_back(std::make_pair(lo, hi));
  }
  while (std::getline(bl, line))
  {
    size_t k = line.find(';'), dd = line.find("..");
    if (line.empty() || line[0] == '#' || k == std::string::npos || dd == std::string::npos)
      continue;
    std::string n = "Is";
    for (size_t i = k + 1; i < line.size(); ++i)
      if (isalnum(static_cast<unsigned char>(line[i])) || line[i] == '-' || line[i] == '_')
        n += line[i];
    t[n].push_back(std::make_pair(static_cast<int>(strtol(line.c_str(), NULL, 16)), static_cast<int>(strtol(line.c_str() + dd + 2, NULL, 16))));
  }
  for (auto& x : t)
    x.second = norm(x.second);
  if (t["Lu"].size() < 600 || t["Latin"].size() < 20 || t["IsBasicLatin"].empty())
    pbt::fail("ucd", "cannot read the Unicode data files in " + dir);
  t["L&"] = uni({ t["Ll"], t["Lu"], t["Lt"] });
  t["C"] = uni({ t["Cc"], t["Cf"] });
  t["L"] = uni({ t["L&"], t["Lm"], t["Lo"] });
  t["M"] = uni({ t["Mn"], t["Mc"], t["Me"] });
  t["N"] = uni({ t["Nd"], t["Nl"], t["No"] });
  t["P"] = uni({ t["Pd"], t["Ps"], t["Pe"], t["Pi"], t["Pf"], t["Pc"], t["Po"] });
  t["S"] = uni({ t["Sm"], t["Sc"], t["Sk"], t["So"] });
  t["Z"] = uni({ t["Zs"], t["Zl"], t["Zp"] });
  t["ASCII"] = { { 0, 0x7F } };
  t["Unicode"] = { { 0, 0xD7FF }, { 0xE000, 0x10FFFF } };
  t["Non_ASCII_Unicode"] = { { 0x80, 0xD7FF }, { 0xE000, 0x10FFFF } };
  t["Space"] = uni({ t["Z"], { { 9, 13 }, { 0x85, 0x85 } } });
  t["Word"] = uni({ t["L"], t["Nd"], t["Pc"] });
  t["d"] = t["Nd"]; t["l"] = t["Ll"]; t["u"] = t["Lu"]; t["s"] = t["Space"]; t["w"] = t["Word"];
  Ranges ign = { { 0, 8 }, { 0x0E, 0x1B }, { 0x7F, 0x9F } };
  t["IdentifierIgnorable"] = ign;
  t["UnicodeIdentifierStart"] = uni({ t["L"], t["Nl"] });
  t["UnicodeIdentifierPart"] = uni({ t["L"], t["Nl"], t["Pc"], t["Mn"], t["Mc"], t["Nd"], t["Cf"], ign });
  t["JavaIdentifierStart"] = uni({ t["L"], t["Nl"], t["Sc"], t["Pc"] });
  t["JavaIdentifierPart"] = uni({ t["L"], t["Nl"], t["Sc"], t["Pc"], t["Mn"], t["Mc"], t["Nd"], t["Cf"], ign });
  t["CsIdentifierStart"] = uni({ t["L"], t["Nl"], t["Pc"], { { '@', '@' } } });
  t["CsIdentifierPart"] = uni({ t["L"], t["Nl"], t["Pc"], t["Mn"], t["Mc"], t["Nd"], t["Cf"] });
  t["PythonIdentifierStart"] = uni({ t["L"], t["Nl"], { { 0x1885, 0x1886 }, { 0x2118, 0x2118 }, { 0x212E, 0x212E }, { 0x309B, 0x309C } } });
  t["PythonIdentifierPart"] = uni({ t["L"], t["Nl"], t["Pc"], t["Mn"], t["Mc"], t["Nd"], { { 0xB7, 0xB7 }, { 0x387, 0x387 }, { 0x1369, 0x1371 }, { 0x19DA, 0x19DA } } });
  static const char *alias[][2] = { { "Other", "C" }, { "Letter", "L" }, { "Mark", "M" }, { "Number", "N" }, { "Punctuation", "P" }, { "Symbol", "S" }, { "Separator", "Z" },
    { "Lowercase_Letter", "Ll" }, { "Uppercase_Letter", "Lu" }, { "Titlecase_Letter", "Lt" }, { "Modifier_Letter", "Lm" }, { "Other_Letter", "Lo" }, { "Non_Spacing_Mark", "Mn" },
    { "Spacing_Combining_Mark", "Mc" }, { "Enclosing_Mark", "Me" }, { "Space_Separator", "Zs" }, { "Line_Separator", "Zl" }, { "Paragraph_Separator", "Zp" }, { "Math_Symbol", "Sm" },
    { "Currency_Symbol", "Sc" }, { "Modifier_Symbol", "Sk" }, { "Other_Symbol", "So" }, { "Decimal_Digit_Number", "Nd" }, { "Letter_Number", "Nl" }, { "Other_Number", "No" },
    { "Dash_Punctuation", "Pd" }, { "Open_Punctuation", "Ps" }, { "Close_Punctuation", "Pe" }, { "Initial_Punctuation", "Pi" }, { "Final_Punctuation", "Pf" },
    { "Connector_Punctuation", "Pc" }, { "Other_Punctuation", "Po" }, { "Control", "Cc" }, { "Format", "Cf" } };
  for (auto& a : alias)
    t[a[0]] = t[a[1]];
  return t;
}
inline const std::vector<std::string>& names()
{
  static std::vector<std::string> n;
  if (n.empty())
    for (auto& x : tables()) n.push_back(x.first);
  return n;
}
inline const std::map<std::string,Ranges>& posix()
{
  static const std::map<std::string,Ranges> t = {
    { "Alnum", { { '0', '9' }, { 'A', 'Z' }, { 'a', 'z' } } }, { "Alpha", { { 'A', 'Z' }, { 'a', 'z' } } }, { "ASCII", { { 0, 127 } } }, { "Blank", { { 9, 9 }, { 32, 32 } } },
    { "Cntrl", { { 0, 31 }, { 127, 127 } } }, { "Digit", { { '0', '9' } } }, { "Graph", { { 0x21, 0x7e } } }, { "Lower", { { 'a', 'z' } } }, { "Print", { { 0x20, 0x7e } } },
    { "Punct", { { 0x21, 0x2f }, { 0x3a, 0x40 }, { 0x5b, 0x60 }, { 0x7b, 0x7e } } }, { "Space", { { 9, 13 }, { 32, 32 } } }, { "Upper", { { 'A', 'Z' } } },
    { "Word", { { '0', '9' }, { 'A', 'Z' }, { '_', '_' }, { 'a', 'z' } } }, { "XDigit", { { '0', '9' }, { 'A', 'F' }, { 'a', 'f' } } },
    { "d", { { '0', '9' } } }, { "h", { { 9, 9 }, { 32, 32 } } }, { "l", { { 'a', 'z' } } }, { "s", { { 9, 13 }, { 32, 32 } } }, { "u", { { 'A', 'Z' } } },
    { "w", { { '0', '9' }, { 'A', 'Z' }, { '_', '_' }, { 'a', 'z' } } } };
  return t;
}
inline std::string enc(int c)
{
  std::string s;
  if (c < 0x80) s += static_cast<char>(c);
  else if (c < 0x800) { s += static_cast<char>(0xC0 + c / 64); s += static_cast<char>(0x80 + c % 64); }
  else if (c < 0x10000) { s += static_cast<char>(0xE0 + c / 4096); s += static_cast<char>(0x80 + c / 64 % 64); s += static_cast<char>(0x80 + c % 64); }
  else { s += static_cast<char>(0xF0 + c / 262144); s += static_cast<char>(0x80 + c / 4096 % 64); s += static_cast<char>(0x80 + c / 64 % 64); s += static_cast<char>(0x80 + c % 64); }
  return s;
}

} // namespace ucd
#endif
