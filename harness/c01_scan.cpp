// C01: scan() tokenises by leftmost-longest match with the lowest-index alternative on ties.
#include "genpat.h"
#include <reflex/matcher.h>
#include <map>

using namespace pbt;

static void scan_input(Source& s, const rem::Pat& p, const reflex::Pattern& pattern, const std::string& in)
{
  reflex::Matcher m(pattern, reflex::Input(in.data(), in.size()));
  size_t pos = 0;
  size_t tokens = 0, ties = 0, longer = 0;
  while (true)
  {
    rem::NFA::Match w = p.nfa.longest(in, pos, 1);
    size_t got = m.scan();
    if (!w.ok)
    {
      if (got != 0)
        fail("scan-extra", fmt("at %zu: scan() returned %zu (text %s) but no non-empty prefix of the rest matches", pos, got, show(std::string(m.begin(), m.size())).c_str()));
      if (m.at_end() != (pos >= in.size()))
        fail("scan-at_end", fmt("at %zu of %zu: scan() returned 0 and at_end() = %d", pos, in.size(), m.at_end()));
      break;
    }
    if (got == 0)
      fail("scan-miss", fmt("at %zu: scan() returned 0 but %s matches alternative %d", pos, show(in.substr(pos, w.end - pos)).c_str(), w.accept));
    std::string text(m.begin(), m.size());
    if (text != in.substr(pos, w.end - pos))
      fail("scan-text", fmt("at %zu: scan() matched %s, longest match is %s", pos, show(text).c_str(), show(in.substr(pos, w.end - pos)).c_str()));
    if (got != static_cast<size_t>(w.accept) || m.accept() != static_cast<size_t>(w.accept))
      fail("scan-accept", fmt("at %zu: text %s accept %zu, lowest matching alternative is %d", pos, show(text).c_str(), got, w.accept));
    if (m.first() != pos || m.last() != w.end)
      fail("scan-pos", fmt("first() %zu last() %zu, expected %zu %zu", m.first(), m.last(), pos, w.end));
    ++tokens;
    if (w.accept > 1) ++ties;
    if (w.end - pos > 1) ++longer;
    pos = w.end;
  }
  s.label(tokens == 0 ? "tokens=0" : tokens < 3 ? "tokens=1-2" : "tokens>=3");
  if (ties) s.label("accept>1");
  if (pos < in.size()) s.label("stopped-before-end");
  if (tokens >= 2 && longer)
    s.nontrivial(hash_str(p.text + "\0" + p.options + "\0" + in));
}

static void scan_case(Source& s)
{
  rem::Pat p = rem::gen_pattern(s);
  s.note("pattern", show(p.text));
  s.note("options", p.options);
  reflex::Pattern pattern(p.text, "r" + p.options);
  int n = 1 + static_cast<int>(s.below(4));
  for (int i = 0; i < n; ++i)
  {
    std::string alpha = s.flip() ? p.alphabet : rem::Gen::pick_alphabet(s);
    std::string in = rem::gen_input(s, p, alpha, 8);
    s.note("input", show(in));
    scan_input(s, p, pattern, in);
  }
}

// patterns with thousands of words: more than 64K opcodes
static void large_case(Source& s)
{
  size_t letters = 3 + s.below(24);
  bool icase = s.chance(1, 4), tail = s.flip(), suffix = s.chance(1, 3);
  size_t words = 1000 + s.below(s.flip() ? 8000 : 60000);
  size_t longest = letters < 6 ? 12 : letters < 12 ? 7 : 6;
  uint64_t x = (static_cast<uint64_t>(s.below(0x7FFFFFFF)) << 20 | s.below(0xFFFFF)) * 2 + 1;
  auto rnd = [&](size_t n) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return static_cast<size_t>(x % n); };
  std::map<std::string,size_t> index;
  std::vector<std::string> list;
  std::string regex;
  for (size_t i = 1; i <= words; ++i)
  {
    std::string w;
    size_t n = 1 + rnd(longest) + (rnd(100) == 0 ? rnd(30) : 0);
    while (n-- > 0) w += static_cast<char>('a' + rnd(letters));
    if (i > 1) regex += '|';
    regex += w;
    std::string key = w;
    if (suffix && rnd(3) == 0)
    {
      // a regex alternative
      regex += "[0-9]";
      for (char c = '0'; c <= '9'; ++c) index.insert(std::make_pair(w + c, i));
      w += static_cast<char>('0' + rnd(10));
    }
    else
      index.insert(std::make_pair(w, i));
    list.push_back(w);
  }
  size_t max = 0;
  for (auto& i : index) max = std::max(max, i.first.size());
  if (tail) regex += "|[a-z]+";
  std::string in;
  size_t n = 50 + s.below(500);
  for (size_t i = 0; i < n; ++i)
    switch (rnd(5))
    {
      case 0: in += list[rnd(words)].substr(0, 1 + rnd(4)); break;
      case 1: in += static_cast<char>(rnd(3) ? 'a' + rnd(26) : rnd(2) ? 'A' + rnd(26) : '0' + rnd(12)); break;
      default: in += list[rnd(words)];
    }
  if (icase) for (char& c : in) if (rnd(4) == 0) c = static_cast<char>(toupper(c));
  s.note("pattern", fmt("%zu words over %zu letters, icase %d, [a-z]+ %d, [0-9] %d: %s...", words, letters, icase, tail, suffix, regex.substr(0, 80).c_str()));
  reflex::Pattern pattern(regex, icase ? "ir" : "r");
  reflex::Matcher m(pattern, in);
  std::string low = in;
  if (icase) for (char& c : low) c = static_cast<char>(tolower(c));
  size_t pos = 0, tokens = 0;
  while (true)
  {
    size_t len = 0, acc = 0;
    for (size_t l = 1; l <= max && pos + l <= low.size(); ++l)
    {
      auto i = index.find(low.substr(pos, l));
      if (i != index.end()) { len = l; acc = i->second; }
    }
    if (tail)
    {
      size_t l = 0;
      while (pos + l < low.size() && islower(low[pos + l])) ++l;
      if (l > len) { len = l; acc = words + 1; }
    }
    size_t got = m.scan();
    if (got != acc || (acc > 0 && (m.size() != len || m.first() != pos)))
      fail("large-scan", fmt("at %zu: scan() returned %zu text %s, expected %zu %s", pos, got, show(m.str()).c_str(), acc, show(in.substr(pos, len)).c_str()));
    if (acc == 0)
    {
      if (pos >= in.size()) break;
      m.input(); // skip the character that does not match
      ++pos;
    }
    else
    {
      pos += len;
      ++tokens;
    }
  }
  if (pattern.words() > 65535) { s.label("over 64K opcodes"); s.nontrivial(hash_str(regex)); }
  else s.label("up to 64K opcodes");
}

std::vector<Part> pbt::parts()
{
  return { { "scan", scan_case, 50000, 1500000, 8 }, { "large", large_case, 100, 2000, 60 } };
}
PBT_MAIN
