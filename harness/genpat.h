// genpat.h - top-level pattern and input generators shared by several checks
#ifndef GENPAT_H
#define GENPAT_H
#include "remodel.h"

namespace rem {

// case fold alphabets etc. are decided here; returns a pattern with options string
inline Pat gen_pattern(pbt::Source& s, bool rich = true, int maxalts = 6, const std::string *alphabet = NULL)
{
  Pat p;
  Gen g(s);
  g.alpha = alphabet ? *alphabet : Gen::pick_alphabet(s);
  p.alphabet = g.alpha;
  g.rich = rich;
  size_t shape = s.weighted({5, 3, 2, 2});
  if (rich)
  {
    switch (s.weighted({12, 2, 2, 2, 2, 1, 1}))
    {
      case 0: break;
      case 1: p.o.i = true; p.options += "i"; break;
      case 2: p.o.s = true; p.options += "s"; break;
      case 3: p.o.x = true; p.options += "x"; break;
      case 4: p.o.q = true; p.options += "q"; break;
      case 5: p.options += "e=%;"; g.esc = '%'; break;
      default: p.options += "b"; g.bracket_esc = false; break;
    }
  }
  // a leading (?i) / (?s) / (?x) turns the mode on for the whole pattern
  std::string prefix;
  if (rich && p.options.empty() && s.chance(1, 8))
  {
    switch (s.below(4))
    {
      case 0: prefix = "(?i)"; p.o.i = true; break;
      case 1: prefix = "(?s)"; p.o.s = true; break;
      case 2: prefix = "(?x)"; p.o.x = true; break;
      default: prefix = "(?q)"; p.o.q = true; break;
    }
  }
  int n = shape == 0 ? 1 + static_cast<int>(s.below(3)) : 1 + static_cast<int>(s.below(static_cast<uint32_t>(maxalts)));
  if (shape == 3)
    n = 1 + static_cast<int>(s.below(static_cast<uint32_t>(3 * maxalts)));
  for (int i = 0; i < n; ++i)
  {
    Frag f;
    bool plain = shape == 3 ? !s.chance(1, 8) : shape == 2 ? s.flip() : s.chance(1, 6);
    if (plain)
      f = g.plain(p.o, shape == 3 ? 10 : 6);
    else
    {
      g.size = 1 + static_cast<int>(s.below(shape == 1 ? 16 : 8));
      f = g.sequence(p.o, 3);
    }
    if (i) p.text += "|";
    p.text += f.text;
    p.pieces.push_back(f.text);
    p.alts.push_back(f.node);
  }
  p.text = prefix + p.text;
  p.pieces[0] = prefix + p.pieces[0];
  if (g.ambiguous)
    pbt::discard();
  size_t w = 0;
  for (const P& a : p.alts) w += weight(a);
  if (w > 600)
    pbt::discard();
  p.nfa.build(p.alts);
  if (p.nfa.dfa_states(400) >= 400) // exponential subset constructions are inherent to DFAs
    pbt::discard();
  return p;
}

// generated input: samples of the language, fragments of samples, and noise over the alphabet
inline std::string gen_input(pbt::Source& s, const Pat& p, const std::string& alpha, int avg = 6)
{
  std::string t;
  bool pure = s.flip(); // mostly concatenated samples
  while (s.more(static_cast<uint32_t>(avg)) && t.size() < 3000)
  {
    switch (pure ? (s.chance(1, 24) ? s.below(5) : 0) : s.weighted({6, 5, 2, 1, 1}))
    {
      case 0: sample(s, s.pick(p.alts), t); break;
      case 1: { int n = 1 + static_cast<int>(s.below(3)); for (int i = 0; i < n; ++i) t.push_back(s.pickc(alpha)); break; }
      case 2:
      {
        std::string u;
        sample(s, s.pick(p.alts), u);
        if (!u.empty())
        {
          size_t k = s.below(static_cast<uint32_t>(u.size()) + 1);
          t += s.flip() ? u.substr(0, k) : u.substr(k);
        }
        break;
      }
      case 3: t.push_back(static_cast<char>(s.below(256))); break;
      default: t.push_back("\n \r\ta_0"[s.below(7)]); break;
    }
  }
  return t;
}

} // namespace rem
#endif
