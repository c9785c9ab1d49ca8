// findpat.h - patterns shaped to reach each search acceleration path
#ifndef FINDPAT_H
#define FINDPAT_H
#include "genpat.h"

inline std::string strlit(pbt::Source& s, rem::Gen& g, const rem::Opts& o, int lo, int hi, std::vector<rem::P>& v)
{
  std::string text;
  int n = lo + static_cast<int>(s.below(static_cast<uint32_t>(hi - lo + 1)));
  for (int i = 0; i < n; ++i)
  {
    rem::Frag f = g.literal(o);
    v.push_back(f.node);
    text += f.text;
  }
  return text;
}

// patterns shaped to reach each acceleration path
inline rem::Pat gen_find_pattern(pbt::Source& s, const std::string *alphabet = NULL)
{
  static const std::vector<std::string> alphas = { "ab", "abc", "abcdefgh", "etaoinshr", "qzjxk", "a1_-. ", "01", "\x80\x81\xbf\xc3\xe2", "aAbB", "a\n", std::string("a\0b", 3) };
  size_t shape = s.weighted({4, 4, 4, 4, 3, 3, 2});
  if (shape == 0)
    return rem::gen_pattern(s, alphabet ? false : s.flip(), alphabet ? 3 : 6, alphabet);
  rem::Pat p;
  rem::Gen g(s);
  g.rich = s.chance(1, 5);
  g.alpha = alphabet ? *alphabet : s.pick(alphas);
  p.alphabet = g.alpha;
  if (s.chance(1, 6))
  {
    p.o.i = true;
    p.options = "i";
  }
  std::vector<rem::P> v;
  switch (shape)
  {
    case 1: // one literal string
      p.text = strlit(s, g, p.o, 1, s.chance(1, 6) ? s.chance(1, 5) ? 300 : 70 : 12, v);
      p.alts.push_back(rem::cat(v));
      break;
    case 2: // literal prefix followed by a regex
    {
      p.text = strlit(s, g, p.o, 1, s.chance(1, 6) ? 40 : 7, v);
      g.size = 1 + static_cast<int>(s.below(6));
      rem::Frag f = g.alternation(p.o, 2, 3);
      p.text += "(?:" + f.text + ")";
      v.push_back(f.node);
      p.alts.push_back(rem::cat(v));
      break;
    }
    case 3: // strings of a minimal length
    {
      int lo = 1 + static_cast<int>(s.below(9));
      int n = 1 + static_cast<int>(s.below(s.chance(1, 4) ? 24 : 5));
      for (int i = 0; i < n; ++i)
      {
        v.clear();
        if (i) p.text += "|";
        p.text += strlit(s, g, p.o, lo, lo + 4, v);
        p.alts.push_back(rem::cat(v));
      }
      break;
    }
    case 4: // sequences of classes of a minimal length
    {
      int n = 1 + static_cast<int>(s.below(3));
      for (int i = 0; i < n; ++i)
      {
        v.clear();
        if (i) p.text += "|";
        int k = 1 + static_cast<int>(s.below(9));
        for (int j = 0; j < k; ++j)
        {
          rem::Frag f = s.flip() ? g.bracket(p.o) : g.literal(p.o);
          p.text += f.text;
          v.push_back(f.node);
        }
        p.alts.push_back(rem::cat(v));
      }
      break;
    }
    case 5: // regex prefix, then a literal, with optional/looping parts in between
    {
      int n = 1 + static_cast<int>(s.below(2));
      for (int i = 0; i < n; ++i)
      {
        v.clear();
        if (i) p.text += "|";
        int k = 1 + static_cast<int>(s.below(4));
        for (int j = 0; j < k; ++j)
        {
          rem::Frag f = s.flip() ? g.bracket(p.o) : g.literal(p.o);
          static const char *q[] = { "", "*", "+", "?", "{2,3}" };
          size_t r = s.below(5);
          p.text += f.text + q[r];
          if (f.text.size() == 2 && f.text[1] == 'u' && r == 4)
            pbt::discard();
          v.push_back(r == 0 ? f.node : r == 1 ? rem::rep(f.node, 0, -1) : r == 2 ? rem::rep(f.node, 1, -1) : r == 3 ? rem::rep(f.node, 0, 1) : rem::rep(f.node, 2, 3));
        }
        p.text += strlit(s, g, p.o, 0, 5, v);
        p.alts.push_back(rem::cat(v));
      }
      break;
    }
    default: // a common literal prefix of several alternatives (prefix + predicted rest)
    {
      std::string pre;
      std::vector<rem::P> pv;
      bool rich = g.rich;
      pre = strlit(s, g, p.o, 1, 5, pv);
      int n = 2 + static_cast<int>(s.below(4));
      int lo = static_cast<int>(s.below(7));
      for (int i = 0; i < n; ++i)
      {
        v = pv;
        if (i) p.text += "|";
        p.text += pre + strlit(s, g, p.o, lo, lo + 3, v);
        p.alts.push_back(rem::cat(v));
      }
      g.rich = rich;
    }
  }
  if (g.ambiguous)
    pbt::discard();
  p.nfa.build(p.alts);
  if (p.nfa.dfa_states(600) >= 600)
    pbt::discard();
  return p;
}

#endif
