// genwild.h - generator of patterns with the whole RE/flex regex syntax (anchors, lookahead, lazy repeats, negative
// patterns, indent markers) together with texts that such patterns are likely to match; for differential checks, no oracle
#ifndef GENWILD_H
#define GENWILD_H
#include "pbt.h"

namespace wild {

struct W { std::string text; std::vector<std::string> ex; int anc = 0; }; // regex, example texts (0 or more), number of anchors

struct Gen {
  pbt::Source& s;
  std::string alpha;
  bool anchors = true, lazy = true, look = true, negative = true, dents = false;
  int size = 12;
  int budget = 2; // anchors per alternative (more in one place are not supported)
  explicit Gen(pbt::Source& s) : s(s)
  {
    static const char *const sets[] = { "ab", "abc", "aA_ .", "ab01\n", "a \n", "ab.-\n", "abAB", "a b\n\t", "xyz,\n", "a\r\n" };
    alpha = sets[s.below(10)];
  }
  static std::string lit(char c)
  {
    switch (c)
    {
      case '\n': return "\\n"; case '\r': return "\\r"; case '\t': return "\\t";
      case '.': case '\\': case '*': case '+': case '?': case '(': case ')': case '[': case ']': case '{': case '}': case '|': case '^': case '$': case '/': case '"': return std::string("\\") + c;
    }
    return std::string(1, c);
  }
  static void cap(std::vector<std::string>& ex)
  {
    if (ex.size() > 5) ex.resize(5);
    for (std::string& e : ex) if (e.size() > 40) e.resize(40);
  }
  static std::vector<std::string> cat(const std::vector<std::string>& a, const std::vector<std::string>& b)
  {
    std::vector<std::string> r;
    size_t n = std::max(a.size(), b.size());
    if (a.empty() || b.empty()) return r;
    for (size_t i = 0; i < n; ++i) r.push_back(a[i % a.size()] + b[(i + i / a.size()) % b.size()]);
    cap(r);
    return r;
  }
  W atom(int depth)
  {
    W w;
    --size;
    switch (s.weighted({ 10, 3, 2, 2, depth > 0 ? 4u : 0u, anchors && budget > 0 ? 3u : 0u, 1 }))
    {
      case 0: { char c = s.pickc(alpha); w.text = lit(c); w.ex = { std::string(1, c) }; break; }
      case 1:
      {
        w.text = "[";
        bool neg = s.chance(1, 4);
        if (neg) w.text += '^';
        std::string in;
        do { char c = s.pickc(alpha); in += c; w.text += c == '.' ? "." : c == '^' || c == '-' ? std::string("\\") + c : lit(c); } while (s.more(2));
        w.text += ']';
        for (char c : neg ? alpha : in)
          if (!neg || in.find(c) == std::string::npos) w.ex.push_back(std::string(1, c));
        if (neg) w.ex.push_back("q");
        break;
      }
      case 2: w.text = "."; w.ex = { std::string(1, s.pickc(alpha)), "q" }; if (w.ex[0] == "\n") w.ex.erase(w.ex.begin()); break;
      case 3:
      {
        static const struct { const char *t; const char *e; } esc[] = { { "\\w", "a_0" }, { "\\d", "01" }, { "\\s", " \n" }, { "\\W", " -" }, { "\\h", " \t" }, { "\\l", "ab" }, { "\\u", "AB" }, { "\\D", "a " } };
        size_t k = s.below(8);
        w.text = esc[k].t;
        for (const char *e = esc[k].e; *e; ++e) w.ex.push_back(std::string(1, *e));
        break;
      }
      case 4:
      {
        W a = alt(depth - 1);
        switch (s.weighted({ 5, 4, 1, 1 }))
        {
          case 0: w.text = "(" + a.text + ")"; break;
          case 1: w.text = "(?:" + a.text + ")"; break;
          case 2: w.text = "(?i:" + a.text + ")"; break;
          default: w.text = "(?s:" + a.text + ")";
        }
        w.ex = a.ex;
        w.anc = a.anc;
        if (w.ex.empty()) w.ex.push_back("");
        break;
      }
      case 5:
      {
        static const char *const an[] = { "^", "$", "\\b", "\\B", "\\<", "\\>", "\\A", "\\z" };
        w.text = an[s.below(8)];
        w.ex = { "" };
        w.anc = 1;
        --budget;
        return w;
      }
      default: { std::string q; do q += s.pickc(alpha); while (s.more(2)); for (char c : q) w.text += lit(c); w.ex = { q }; }
    }
    cap(w.ex);
    return w;
  }
  W rep(int depth)
  {
    W a = atom(depth);
    bool anchor = a.ex.size() == 1 && a.ex[0].empty();
    if (!anchor && s.chance(1, 3))
    {
      if (a.text.size() > 2 || (a.text.size() == 2 && a.text[0] != '\\'))
        if (a.text[0] != '(' && a.text[0] != '[') a.text = "(?:" + a.text + ")";
      std::vector<std::string> two = cat(a.ex, a.ex);
      size_t how = s.below(6);
      if (a.anc > 1) how = 2; // anchors that follow each other in a cycle: not supported
      switch (how)
      {
        case 0: a.text += '*'; two.push_back(""); break;
        case 1: a.text += '+'; break;
        case 2: a.text += '?'; two = a.ex; two.push_back(""); break;
        case 3: a.text += "{2}"; break;
        case 4: a.text += "{1,3}"; break;
        default: a.text += "{2,}"; two = cat(two, a.ex);
      }
      if (lazy && s.chance(1, 5)) { a.text += '?'; if (!two.empty() && !two.back().empty()) two = a.ex; }
      a.ex.insert(a.ex.end(), two.begin(), two.end());
      if (a.text[a.text.size() - 1] == '}' || s.chance(1, 2)) a.ex = two;
      cap(a.ex);
    }
    return a;
  }
  W seq(int depth)
  {
    W w;
    w.ex = { "" };
    do
    {
      W a = rep(depth);
      w.text += a.text;
      w.anc += a.anc;
      w.ex = cat(w.ex, a.ex);
    } while (size > 0 && s.more(3));
    return w;
  }
  W alt(int depth)
  {
    W w = seq(depth);
    while (size > 0 && s.chance(1, 3))
    {
      W a = seq(depth);
      w.text += "|" + a.text;
      w.anc += a.anc;
      std::vector<std::string> e = w.ex;
      w.ex.clear();
      for (size_t i = 0; i < std::max(e.size(), a.ex.size()); ++i)
      {
        if (i < e.size()) w.ex.push_back(e[i]);
        if (i < a.ex.size()) w.ex.push_back(a.ex[i]);
      }
      cap(w.ex);
    }
    return w;
  }
  // one alternative of a pattern
  W rule()
  {
    W w;
    if (dents && s.chance(2, 3))
    {
      static const struct { const char *t; const char *e1; const char *e2; } r[] = {
        { "^[ \\t]+", "\n  ", "\n    " }, { "^[ \\t]*\\i", "\n  ", "\n\t" }, { "^[ \\t]*\\j", "\n", "\n  " }, { "\\j", "", "\n" }, { "^[ \\t]+\\i", "\n   ", "\n     " },
        { "(?^^[ \\t]*\\n)", "\n\n", "\n  \n" }, { "[ \\t]*#\\k?", "\n    #", " #" }, { "^[ \\t]*#\\k", "\n  #", "\n    #" }, { "\\n", "\n", "\n" }, { "[ \\t]+", " ", "\t" }, { "(?^\\\\\\n[ \\t]*)", "\\\n   ", "\\\n" } };
      size_t k = s.below(11);
      w.text = r[k].t;
      w.ex = { r[k].e1, r[k].e2 };
      return w;
    }
    w = seq(2);
    if (look && s.chance(1, 10))
    {
      W l = seq(1);
      w.text += "(?=" + l.text + ")";
      w.ex = cat(w.ex, l.ex);
    }
    if (negative && s.chance(1, 10)) w.text = "(?^" + w.text + ")";
    return w;
  }
};

struct Pat { std::string text; std::vector<std::string> ex; std::string alpha; };

inline Pat gen(pbt::Source& s, int size = 10, int maxrules = 4, bool dents = true)
{
  Gen g(s);
  Pat p;
  p.alpha = g.alpha;
  g.dents = dents && s.chance(1, 5);
  if (g.dents) { p.alpha = "a  \n\t#"; g.alpha = "ab#"; }
  g.anchors = s.flip();
  g.lazy = s.chance(1, 3);
  g.look = s.chance(1, 2);
  g.negative = s.chance(1, 3);
  int n = 1 + static_cast<int>(s.below(static_cast<uint32_t>(maxrules))) + (g.dents ? 2 : 0);
  if (s.chance(1, 6)) p.text = s.flip() ? "(?s)" : "(?i)";
  if (g.anchors || g.dents || s.flip()) p.text = "(?m)" + p.text;
  for (int i = 0; i < n; ++i)
  {
    g.size = size;
    g.budget = 2;
    W w = g.rule();
    if (i) p.text += "|";
    p.text += w.text;
    p.ex.insert(p.ex.end(), w.ex.begin(), w.ex.end());
  }
  return p;
}

inline std::string input(pbt::Source& s, const Pat& p, int avg = 6)
{
  std::string t;
  while (s.more(static_cast<uint32_t>(avg)) && t.size() < 400)
  {
    if (!p.ex.empty() && !s.chance(1, 3)) t += p.ex[s.below(static_cast<uint32_t>(p.ex.size()))];
    else
      switch (s.below(4))
      {
        case 0: t += "\n  ab\n"[s.below(6)]; break;
        case 1: t += static_cast<char>(s.below(256)); break;
        default: t += s.pickc(p.alpha);
      }
  }
  return t;
}

} // namespace wild
#endif
