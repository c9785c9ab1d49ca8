// C06: a lazy repetition or optional is iterated as few times as what follows it permits.
#include "pbt.h"
#include <reflex/matcher.h>
#include <algorithm>

using namespace pbt;

typedef std::string Set; // characters
typedef std::vector<Set> Seq;

struct Item {
  bool lazy = false;
  std::vector<Seq> alts;      // of one width when lazy
  size_t lo = 1, hi = 1;      // hi = npos when unbounded
  std::string text;
};
struct Alt { std::vector<Item> items; std::string text; };

static const size_t NONE = static_cast<size_t>(-1);

static bool seq_at(const Seq& q, const std::string& t, size_t i)
{
  if (i + q.size() > t.size()) return false;
  for (size_t k = 0; k < q.size(); ++k) if (q[k].find(t[i + k]) == std::string::npos) return false;
  return true;
}

// end of the match of items k.. at i with the fewest iterations of the lazy repetitions (all parts
// have a fixed length: the shortest match)
static size_t match(const Alt& a, size_t k, const std::string& t, size_t i)
{
  if (k == a.items.size()) return i;
  const Item& x = a.items[k];
  if (!x.lazy)
    return seq_at(x.alts[0], t, i) ? match(a, k + 1, t, i + x.alts[0].size()) : NONE;
  size_t n = 0, w = x.alts[0].size(), found = NONE;
  while (true)
  {
    if (n >= x.lo)
    {
      size_t e = match(a, k + 1, t, i);
      if (e != NONE && (found == NONE || e < found)) found = e;
    }
    if (n == x.hi) return found;
    bool ok = false;
    for (const Seq& q : x.alts) ok = ok || seq_at(q, t, i);
    if (!ok) return found;
    i += w;
    ++n;
  }
}

struct Maker {
  Source& s;
  std::string alpha;
  Maker(Source& src) : s(src) { static const char *A[] = { "ab", "abc", "abcde", "ab\n", "aA*/" }; alpha = A[s.weighted({4, 4, 3, 2, 2})]; }
  static std::string esc(char c)
  {
    if (c == '\n') return "\\n";
    if (strchr("*/", c)) return std::string("\\") + c;
    return std::string(1, c);
  }
  Set set(std::string& text)
  {
    switch (s.weighted({10, 3, 2, 2}))
    {
      case 1:
      {
        Set r;
        text += '[';
        for (char c : alpha) if (s.flip() || r.empty()) { r += c; text += c == '\n' ? "\\n" : c == '*' || c == '/' ? std::string(1, c) : std::string(1, c); }
        text += ']';
        return r;
      }
      case 2: { text += '.'; Set r; for (int c = 0; c < 256; ++c) if (c != '\n') r += static_cast<char>(c); return r; }
      case 3:
      {
        char x = s.pickc(alpha);
        text += "[^"; text += x == '\n' ? std::string("\\n") : std::string(1, x); text += ']';
        Set r;
        for (int c = 0; c < 256; ++c) if (c != static_cast<unsigned char>(x)) r += static_cast<char>(c);
        return r;
      }
      default: { char c = s.pickc(alpha); text += esc(c); return Set(1, c); }
    }
  }
  Seq seq(size_t w, std::string& text) { Seq q; while (w-- > 0) q.push_back(set(text)); return q; }
  Item fixed(size_t w)
  {
    Item x;
    x.alts.push_back(seq(w, x.text));
    return x;
  }
  Item lazy(bool wide)
  {
    Item x;
    x.lazy = true;
    size_t w = wide ? 1 + s.weighted({8, 2, 1}) : 1;
    size_t n = 1 + s.weighted({8, 2, 1});
    std::string b;
    for (size_t i = 0; i < n; ++i) { if (i) b += '|'; x.alts.push_back(seq(w, b)); }
    if (n > 1 || w > 1) b = (s.flip() ? "(?:" : "(") + b + ")";
    switch (s.weighted({6, 4, 2, 2, 2, 1}))
    {
      case 0: x.lo = 0; x.hi = NONE; b += "*?"; break;
      case 1: x.lo = 1; x.hi = NONE; b += "+?"; break;
      case 2: x.lo = 0; x.hi = 1; b += "?"; b += "?"; break;
      case 3: x.lo = s.below(3); x.hi = x.lo + 1 + s.below(3); b += fmt("{%zu,%zu}?", x.lo, x.hi); break;
      case 4: x.lo = s.below(4); x.hi = NONE; b += fmt("{%zu,}?", x.lo); break;
      default: x.lo = 0; x.hi = 1 + s.below(3); b += fmt("{,%zu}?", x.hi); x.lo = NONE; break;
    }
    if (x.lo == NONE) { x.lo = 0; b = b.substr(0, b.rfind("{,")) + fmt("{0,%zu}?", x.hi); }
    x.text = b;
    return x;
  }
  Alt alt(bool want)
  {
    Alt a;
    int lazies = want ? 1 + static_cast<int>(s.weighted({6, 3, 1})) : 0;
    size_t w = s.below(4);
    if (lazies == 0 && w == 0) w = 1;
    if (w) a.items.push_back(fixed(w));
    for (int i = 0; i < lazies; ++i)
    {
      a.items.push_back(lazy(lazies == 1)); // with wider bodies only one
      if (i + 1 < lazies) a.items.push_back(fixed(1 + s.below(2)));
    }
    if (lazies)
      a.items.push_back(fixed(1 + s.below(3)));
    for (const Item& x : a.items) a.text += x.text;
    return a;
  }
};

static void case_(Source& s, bool search)
{
  Maker g(s);
  std::vector<Alt> alts;
  size_t n = 1 + s.weighted({6, 3, 1, 1});
  std::string text, options = "r";
  size_t must = s.below(static_cast<uint32_t>(n));
  for (size_t i = 0; i < n; ++i)
  {
    alts.push_back(g.alt(i == must));
    if (i) text += '|';
    text += n > 1 && s.flip() ? "(" + alts[i].text + ")" : alts[i].text;
  }
  // an alternative that matches nothing but the empty text is not for here
  for (const Alt& a : alts) { size_t lo = 0; for (const Item& i : a.items) lo += i.lo; if (lo == 0) discard(); }
  s.note("pattern", show(text));
  reflex::Pattern pattern(text, options);
  size_t inputs = 1 + s.below(4), more = 0;
  for (size_t k = 0; k < inputs; ++k)
  {
    std::string in;
    while (in.size() < 60 && s.more(8))
    {
      if (s.chance(1, 3)) { in += s.pickc(g.alpha); continue; }
      const Alt& a = alts[s.below(static_cast<uint32_t>(n))];
      for (const Item& i : a.items)
      {
        size_t r = i.lo + (i.lazy ? s.below(4) : 0);
        if (i.hi != NONE && i.lazy) r = std::min(r, i.hi);
        while (r-- > 0)
          for (const Set& c : i.alts[s.below(static_cast<uint32_t>(i.alts.size()))])
          {
            char b = s.pickc(g.alpha);
            in += c.find(b) != std::string::npos ? b : s.chance(1, 6) ? s.pickc(g.alpha) : c[0];
          }
      }
    }
    s.note("input", show(in));
    reflex::Matcher m(pattern, in);
    size_t pos = 0;
    while (true)
    {
      size_t at = pos, end = NONE, acc = 0;
      for (;; ++at)
      {
        for (size_t i = 0; i < n; ++i)
        {
          size_t e = match(alts[i], 0, in, at);
          if (e != NONE && e > at && (end == NONE || e > end)) { end = e; acc = i + 1; }
        }
        if (end != NONE || !search || at >= in.size()) break;
      }
      size_t got = search ? m.find() : m.scan();
      if (got != acc || (acc && (m.first() != at || m.last() != end)))
        fail("lazy", fmt("%s at %zu: accept %zu [%zu,%zu) %s, expected %zu [%zu,%zu) %s", search ? "find()" : "scan()", pos, got, m.first(), m.last(), show(m.str()).c_str(), acc, at, end, acc ? show(in.substr(at, end - at)).c_str() : ""));
      if (!acc) break;
      // would another repetition have given a longer match?
      for (size_t e = end + 1; e <= in.size() && alts[acc - 1].items.back().alts[0].size() > 0; ++e)
      {
        const Item& l = alts[acc - 1].items.back();
        if (!l.lazy && e >= l.alts[0].size() && seq_at(l.alts[0], in, e - l.alts[0].size())) { ++more; break; }
      }
      pos = end;
    }
  }
  s.label(n > 1 ? "several alternatives" : "one alternative");
  if (more) { s.label("the last part occurs again later"); s.nontrivial(hash_str(text)); }
}

std::vector<Part> pbt::parts()
{
  return { { "scan", [](Source& s) { case_(s, false); }, 30000, 800000, 8 }, { "find", [](Source& s) { case_(s, true); }, 30000, 800000, 8 } };
}
PBT_MAIN
