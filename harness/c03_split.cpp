// C03: split() partitions the input at the leftmost-longest separators; matches() is an exact full match.
#include "genpat.h"
#include <reflex/matcher.h>

using namespace pbt;

static void split_input(Source& s, const rem::Pat& p, const reflex::Pattern& pattern, const std::string& in)
{
  reflex::Matcher m(pattern, reflex::Input(in.data(), in.size()));
  size_t pos = 0, pieces = 0;
  bool empty_piece = false;
  while (true)
  {
    size_t q = pos;
    rem::NFA::Match w = { false, 0, 0 };
    for (; q < in.size(); ++q)
      if ((w = p.nfa.longest(in, q, 1)).ok)
        break;
    size_t got = m.split();
    std::string piece = in.substr(pos, q - pos);
    if (got == 0)
      fail("split-miss", fmt("piece %zu: split() returned 0, expected piece %s", pieces, show(piece).c_str()));
    std::string text(m.begin(), m.size());
    if (text != piece)
      fail("split-text", fmt("piece %zu: split() returned %s, expected %s", pieces, show(text).c_str(), show(piece).c_str()));
    ++pieces;
    if (piece.empty()) empty_piece = true;
    if (!w.ok)
    {
      if (got != reflex::AbstractMatcher::Const::EMPTY)
        fail("split-last", fmt("last piece has accept %zu, not EMPTY", got));
      break;
    }
    if (got != static_cast<size_t>(w.accept) || m.accept() != got)
      fail("split-accept", fmt("piece %zu: split() returned %zu, separator alternative is %d", pieces, got, w.accept));
    pos = w.end;
  }
  for (int i = 0; i < 2; ++i)
    if (m.split() != 0)
      fail("split-extra", fmt("split() returned another piece %s after the last one", show(std::string(m.begin(), m.size())).c_str()));
  s.label(pieces == 1 ? "pieces=1" : pieces < 4 ? "pieces=2-3" : "pieces>=4");
  if (empty_piece) s.label("empty-piece");
  if (pieces > 2)
    s.nontrivial(hash_str("S" + p.text + p.options + in));
}

static void split_case(Source& s)
{
  rem::Pat p = rem::gen_pattern(s);
  for (const rem::P& a : p.alts)
    if (rem::nullable(a))
      discard(); // separators that match empty text are outside this property
  s.note("pattern", show(p.text));
  s.note("options", p.options);
  reflex::Pattern pattern(p.text, "r" + p.options);
  int n = 1 + static_cast<int>(s.below(4));
  for (int i = 0; i < n; ++i)
  {
    std::string in = rem::gen_input(s, p, s.flip() ? p.alphabet : p.alphabet + "xyz", 8);
    s.note("input", show(in));
    split_input(s, p, pattern, in);
  }
}

static void matches_case(Source& s)
{
  rem::Pat p = rem::gen_pattern(s);
  s.note("pattern", show(p.text));
  s.note("options", p.options);
  reflex::Pattern pattern(p.text, "r" + p.options);
  int n = 1 + static_cast<int>(s.below(5));
  for (int i = 0; i < n; ++i)
  {
    std::string in;
    switch (s.weighted({5, 2, 2, 1}))
    {
      case 0: rem::sample(s, s.pick(p.alts), in); break;
      case 1: // mutated sample
        rem::sample(s, s.pick(p.alts), in);
        if (!in.empty())
        {
          size_t k = s.below(static_cast<uint32_t>(in.size()));
          switch (s.below(3))
          {
            case 0: in.erase(k, 1); break;
            case 1: in.insert(k, 1, s.pickc(p.alphabet)); break;
            default: in[k] = s.pickc(p.alphabet); break;
          }
        }
        break;
      case 2: // two samples
        rem::sample(s, s.pick(p.alts), in);
        rem::sample(s, s.pick(p.alts), in);
        break;
      default: in = rem::gen_input(s, p, p.alphabet, 3);
    }
    s.note("input", show(in));
    int want = p.nfa.exact(in, 0, in.size());
    reflex::Matcher m(pattern, reflex::Input(in.data(), in.size()));
    size_t got = m.matches();
    if ((got != 0) != (want != 0))
      fail("matches", fmt("matches() = %zu on %s, first alternative matching the whole input is %d", got, show(in).c_str(), want));
    if (got != static_cast<size_t>(want) || (want != 0 && m.accept() != got) || m.matches() != got)
      fail("matches-accept", fmt("matches() = %zu accept() = %zu on %s, first alternative matching the whole input is %d", got, m.accept(), show(in).c_str(), want));
    s.label(want == 0 ? "no-match" : want == 1 ? "match-1" : "match-n");
    if (in.size() >= 2)
      s.nontrivial(hash_str("M" + p.text + p.options + in));
  }
}

std::vector<Part> pbt::parts()
{
  return { { "split", split_case, 15000, 500000, 8 }, { "matches", matches_case, 15000, 500000, 8 } };
}
PBT_MAIN
