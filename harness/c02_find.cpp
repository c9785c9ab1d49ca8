// C02: find() returns exactly the leftmost-longest non-empty matches, however the search is accelerated.
#include "findpat.h"
#include <reflex/matcher.h>

using namespace pbt;

// reference search with a first-byte filter
struct RefFind {
  const rem::NFA& nfa;
  rem::Set first;
  explicit RefFind(const rem::NFA& n) : nfa(n)
  {
    std::string t(1, '\0');
    for (int c = 0; c < 256; ++c)
    {
      t[0] = static_cast<char>(c);
      if (nfa.viable(t, 0))
        first.set(c);
    }
  }
  rem::NFA::Match next(const std::string& t, size_t& pos) const
  {
    for (; pos < t.size(); ++pos)
    {
      if (!first.test(static_cast<unsigned char>(t[pos])))
        continue;
      rem::NFA::Match m = nfa.longest(t, pos, 1);
      if (m.ok)
        return m;
    }
    rem::NFA::Match m = { false, t.size(), 0 };
    return m;
  }
};


// noise, near misses and true samples
static std::string gen_haystack(Source& s, const rem::Pat& p, size_t maxlen)
{
  std::string t;
  std::string rare = s.flip() ? p.alphabet : s.flip() ? "xyz \n" : p.alphabet + "xyz";
  int avg = s.flip() ? 4 : 12;
  while (s.more(static_cast<uint32_t>(avg)) && t.size() < maxlen)
  {
    switch (s.weighted({4, 5, 4, 3, 1}))
    {
      case 0: rem::sample(s, s.pick(p.alts), t); break;
      case 1: // a near miss: one byte changed, dropped or inserted
      {
        std::string u;
        rem::sample(s, s.pick(p.alts), u);
        if (!u.empty())
        {
          size_t k = s.below(static_cast<uint32_t>(u.size()));
          switch (s.below(4))
          {
            case 0: u[k] = s.pickc(rare); break;
            case 1: u.erase(k, 1); break;
            case 2: u.insert(k, 1, s.pickc(rare)); break;
            default: u[k] = static_cast<char>(u[k] ^ (1 << s.below(8))); break;
          }
        }
        t += u;
        break;
      }
      case 2: // truncated
      {
        std::string u;
        rem::sample(s, s.pick(p.alts), u);
        if (!u.empty())
          t += u.substr(0, s.below(static_cast<uint32_t>(u.size())));
        break;
      }
      case 3:
      {
        size_t n = s.chance(1, 3) ? s.below(140) : s.below(20);
        if (s.flip())
          t.append(n, s.pickc(rare));
        else
          for (size_t i = 0; i < n; ++i)
            t.push_back(s.pickc(rare));
        break;
      }
      default: t.push_back(static_cast<char>(s.below(256))); break;
    }
  }
  return t;
}

static void compare(Source& s, const rem::Pat& p, reflex::Matcher& m, const std::string& in, size_t& matches, size_t& skipped)
{
  RefFind ref(p.nfa);
  size_t pos = 0, prev = 0;
  matches = skipped = 0;
  while (true)
  {
    rem::NFA::Match w = ref.next(in, pos);
    size_t got = m.find();
    if (!w.ok)
    {
      if (got != 0)
        fail("find-extra", fmt("after %zu: find() returned %zu at %zu (%s), there is no further match", prev, got, m.first(), show(std::string(m.begin(), m.size()), 80).c_str()));
      break;
    }
    if (got == 0)
      fail("find-miss", fmt("after %zu: find() returned 0, but alternative %d matches at %zu: %s", prev, w.accept, pos, show(in.substr(pos, w.end - pos), 80).c_str()));
    if (m.first() != pos || m.size() != w.end - pos)
      fail("find-span", fmt("after %zu: find() matched [%zu,%zu), leftmost-longest is [%zu,%zu)", prev, m.first(), m.first() + m.size(), pos, w.end));
    if (memcmp(m.begin(), in.data() + pos, w.end - pos) != 0)
      fail("find-text", fmt("find() text %s differs from input %s at %zu", show(std::string(m.begin(), m.size()), 80).c_str(), show(in.substr(pos, w.end - pos), 80).c_str(), pos));
    if (got != static_cast<size_t>(w.accept) || m.accept() != static_cast<size_t>(w.accept))
      fail("find-accept", fmt("at %zu: accept %zu, lowest matching alternative is %d", pos, got, w.accept));
    ++matches;
    if (pos > prev) ++skipped;
    prev = pos = w.end;
  }
}

static void find_case(Source& s)
{
  rem::Pat p = gen_find_pattern(s);
  s.note("pattern", show(p.text, 1000));
  s.note("options", p.options);
  reflex::Pattern pattern(p.text, "r" + p.options);
  int n = 1 + static_cast<int>(s.below(4));
  for (int i = 0; i < n; ++i)
  {
    std::string in = gen_haystack(s, p, 3000);
    size_t blk = s.chance(1, 3) ? 1 + s.below(40) : 0;
    s.note("input", fmt("block %zu ", blk) + show(in, 3000));
    reflex::Matcher m(pattern, reflex::Input(in.data(), in.size()));
    if (blk > 0)
      m.buffer(blk);
    size_t matches, skipped;
    compare(s, p, m, in, matches, skipped);
    s.label(matches == 0 ? "matches=0" : matches < 3 ? "matches=1-2" : "matches>=3");
    if (skipped) s.label("skipped-text");
    if (skipped || (matches == 0 && in.size() >= 8))
      s.nontrivial(hash_str(p.text + p.options + in));
  }
}

// matches around the internal buffer block boundaries
static void big_case(Source& s)
{
  rem::Pat p = gen_find_pattern(s);
  s.note("pattern", show(p.text, 1000));
  s.note("options", p.options);
  reflex::Pattern pattern(p.text, "r" + p.options);
  const size_t B = reflex::AbstractMatcher::Const::BLOCK;
  std::string in;
  int n = 1 + static_cast<int>(s.below(3));
  std::string fill = s.flip() ? p.alphabet : "xyz\n";
  size_t target = 0;
  std::string desc;
  for (int i = 0; i < n; ++i)
  {
    size_t step = s.flip() ? B : 2 * B;
    target += step;
    size_t off = s.below(80);
    size_t upto = target - (off > target ? 0 : off);
    char c = s.pickc(fill), d = s.pickc(fill);
    size_t period = 1 + s.below(97);
    size_t from = in.size();
    {
      // long runs that keep a match attempt going are inherently quadratic: bound them
      std::string probe;
      for (size_t k = 0; k < 700; ++k)
        probe.push_back(k % period == 0 ? d : c);
      for (size_t k = 0; k < 100; ++k)
        if (p.nfa.alive(probe, k) > 300)
          discard();
    }
    while (in.size() < upto)
      in.push_back((in.size() - from) % period == 0 ? d : c);
    std::string h = gen_haystack(s, p, 300);
    desc += fmt("fill '%02x'/'%02x' period %zu up to %zu, then %s; ", c & 255, d & 255, period, upto, show(h, 300).c_str());
    in += h;
  }
  s.note("input", desc);
  reflex::Matcher m(pattern, reflex::Input(in.data(), in.size()));
  size_t matches, skipped;
  compare(s, p, m, in, matches, skipped);
  s.label(matches == 0 ? "matches=0" : "matches>0");
  if (skipped)
    s.nontrivial(hash_str(p.text + p.options + desc));
}

std::vector<Part> pbt::parts()
{
  return { { "find", find_case, 12000, 600000, 10 }, { "big", big_case, 56, 4000, 40 } };
}
PBT_MAIN
