// C22: fuzzy matches are within the permitted number of edits of the pattern, and matches are not missed.
#include "genpat.h"
#include "fuzzy/fuzzymatcher.h"
#include <memory>
using namespace pbt;
using reflex::FuzzyMatcher;

// a pattern: regex over single bytes, or a literal over (multibyte) characters
struct Fz {
  bool literal = false;
  std::string text;                   // regex
  std::vector<std::string> chars;     // literal
  rem::Pat pat;
};

static std::vector<std::string> split_chars(const std::string& t)
{
  std::vector<std::string> v;
  for (size_t i = 0; i < t.size();)
  {
    size_t n = 1;
    while (i + n < t.size() && (static_cast<unsigned char>(t[i]) >= 0xC0) && (t[i + n] & 0xC0) == 0x80) ++n;
    v.push_back(t.substr(i, n));
    i += n;
  }
  return v;
}

struct Lim { int max; bool ins, del, sub; };
static const int INF = 1000;

// minimum number of permitted edits from the pattern to the text, at most INF
static int distance(const Fz& f, const std::string& t, const Lim& l)
{
  const int subc = l.sub ? 1 : INF; // a substitution without SUB is an insertion and a deletion
  if (f.literal)
  {
    std::vector<std::string> T = split_chars(t);
    size_t n = f.chars.size(), m = T.size();
    std::vector<std::vector<int> > d(n + 1, std::vector<int>(m + 1, INF));
    for (size_t i = 0; i <= n; ++i)
      for (size_t j = 0; j <= m; ++j)
      {
        int b = i == 0 && j == 0 ? 0 : INF;
        bool keep = j > 0 && (T[j - 1] == "\n" || T[j - 1] == std::string(1, '\0'));
        if (i > 0 && l.del) b = std::min(b, d[i - 1][j] + 1);
        if (j > 0 && l.ins && !keep) b = std::min(b, d[i][j - 1] + 1);
        if (i > 0 && j > 0) b = std::min(b, d[i - 1][j - 1] + (f.chars[i - 1] == T[j - 1] ? 0 : keep ? INF : subc));
        d[i][j] = std::min(b, INF);
      }
    return d[n][m];
  }
  const rem::NFA& N = f.pat.nfa;
  size_t S = N.st.size();
  std::vector<int> cur(S, INF), nxt;
  auto close = [&](std::vector<int>& c)
  {
    bool more = true;
    while (more)
    {
      more = false;
      auto relax = [&](int q, int v) { if (q >= 0 && v < c[q]) { c[q] = v; more = true; } };
      for (size_t q = 0; q < S; ++q)
      {
        if (c[q] >= INF) continue;
        const rem::NFA::St& s = N.st[q];
        if (s.type == 's') { relax(s.a, c[q]); relax(s.b, c[q]); }
        else if (s.type == 'e') relax(s.a, c[q]);
        else if (s.type == 'c' && l.del) relax(s.a, c[q] + 1);
      }
    }
  };
  cur[N.start] = 0;
  close(cur);
  for (char ch : t)
  {
    nxt.assign(S, INF);
    bool keep = ch == '\n' || ch == '\0';
    for (size_t q = 0; q < S; ++q)
    {
      if (cur[q] >= INF) continue;
      if (l.ins && !keep) nxt[q] = std::min(nxt[q], cur[q] + 1);
      const rem::NFA::St& s = N.st[q];
      if (s.type == 'c')
      {
        int c = N.sets[s.set].test(static_cast<unsigned char>(ch)) ? 0 : keep ? INF : subc;
        nxt[s.a] = std::min(nxt[s.a], cur[q] + c);
      }
    }
    cur.swap(nxt);
    close(cur);
  }
  int b = INF;
  for (size_t q = 0; q < S; ++q) if (N.st[q].type == 'm') b = std::min(b, cur[q]);
  return b;
}

static std::string esc(const std::string& c)
{
  if (c == "\n") return "\\n";
  if (c == " ") return " ";
  return c;
}

static Fz gen(Source& s, const std::string& alpha)
{
  Fz f;
  f.literal = s.chance(1, 2);
  if (f.literal)
  {
    size_t n = 1 + s.below(7);
    bool wide = s.chance(1, 3);
    for (size_t i = 0; i < n; ++i)
    {
      std::string c = wide && s.chance(1, 3) ? (s.flip() ? "\xc3\xb1" : s.flip() ? "\xe2\x82\xac" : "\xf0\x9f\x98\x80") : s.chance(1, 20) ? std::string("\n") : std::string(1, s.pickc(alpha.c_str()));
      f.chars.push_back(c);
      f.text += esc(c);
    }
  }
  else
  {
    f.pat = rem::gen_pattern(s, false, 3, &alpha);
    f.text = f.pat.text;
    for (auto& q : f.pat.nfa.st) if (q.type == 'a') discard();
  }
  return f;
}

static std::string sample(Source& s, const Fz& f, const std::string& alpha)
{
  std::string t;
  if (f.literal) for (auto& c : f.chars) t += c;
  else t = rem::gen_input(s, f.pat, alpha, 1);
  // edits
  std::vector<std::string> v = split_chars(t);
  while (s.more(1))
  {
    size_t i = s.below(static_cast<uint32_t>(v.size() + 1));
    std::string c = f.literal && s.chance(1, 6) ? "\xc3\xa9" : s.chance(1, 20) ? std::string("\n") : std::string(1, s.pickc((alpha + "x").c_str()));
    switch (s.below(3))
    {
      case 0: v.insert(v.begin() + i, c); break;
      case 1: if (i < v.size()) v.erase(v.begin() + i); break;
      default: if (i < v.size()) v[i] = c;
    }
  }
  t.clear();
  for (auto& c : v) t += c;
  return t;
}

static void run(Source& s)
{
  static const char *alphas[] = { "ab", "abc", "abc ", "ab\n", "abcdefgh" };
  std::string alpha = alphas[s.below(5)];
  Fz f = gen(s, alpha);
  Lim l;
  l.max = static_cast<int>(s.below(4));
  int flags = s.chance(1, 2) ? 0 : 1 + static_cast<int>(s.below(7));
  l.ins = flags == 0 || (flags & 1);
  l.del = flags == 0 || (flags & 2);
  l.sub = flags == 0 || (flags & 4);
  uint16_t max = static_cast<uint16_t>(l.max | (flags & 1 ? FuzzyMatcher::INS : 0) | (flags & 2 ? FuzzyMatcher::DEL : 0) | (flags & 4 ? FuzzyMatcher::SUB : 0));
  int mode = static_cast<int>(s.weighted({4, 4, 2, 2})); // matches, find, scan, split
  std::string S;
  if (mode == 0) S = sample(s, f, alpha);
  else
    do
      switch (s.weighted({3, 2, 1}))
      {
        case 0: S += sample(s, f, alpha); break;
        case 1: S += s.pickc((alpha + "xy").c_str()); break;
        default: S += "\n";
      }
    while (s.more(5));
  if (S.size() > 120) discard();
  if (!f.literal) for (char c : S) if (c & 0x80) discard(); // a regex of bytes: multibyte characters count as one edit
  s.note("pattern", f.text);
  s.note("max", fmt("%d%s%s%s", l.max, flags & 1 ? " INS" : "", flags & 2 ? " DEL" : "", flags & 4 ? " SUB" : ""));
  s.note("mode", mode == 0 ? "matches" : mode == 1 ? "find" : mode == 2 ? "scan" : "split");
  s.note("text", S);
  reflex::Pattern p(f.text, "r");
  std::string storage = S;
  std::unique_ptr<FuzzyMatcher> m;
  // a matcher made in one of several ways
  switch (s.weighted({6, 1, 1, 1}))
  {
    case 0: m.reset(new FuzzyMatcher(p, max, reflex::Input(storage))); break;
    case 1: { FuzzyMatcher o(p, max, reflex::Input("abc")); o.find(); m.reset(new FuzzyMatcher(o)); m->input(reflex::Input(storage)); s.note("made", "copy"); break; }
    case 2: { FuzzyMatcher o(p, max, reflex::Input("abc")); o.find(); m.reset(new FuzzyMatcher(p, static_cast<uint16_t>(s.below(3)))); *m = o; m->input(reflex::Input(storage)); s.note("made", "assignment"); break; }
    default: { FuzzyMatcher o(p, max, reflex::Input("abc")); m.reset(o.clone()); m->input(reflex::Input(storage)); s.note("made", "clone"); }
  }
  bool wide = false; // edits inside multibyte characters count per byte, with the cost not determined
  for (char c : S + f.text) wide = wide || (c & 0x80);
  auto sound = [&](const std::string& t)
  {
    int d = distance(f, t, l), e = m->edits();
    if (wide && e > 0) { Lim w = {0, true, true, true}; d = distance(f, t, w) > 4 * e ? INF : 0; }
    if (e > l.max) fail("edits", fmt("edits() is %d, the maximum is %d", e, l.max));
    if (d > e) fail("unsound", d >= INF ? fmt("%s is reported with %d edits, it cannot be made from the pattern", show(t).c_str(), e) : fmt("%s is reported with %d edits, the distance to the pattern is %d", show(t).c_str(), e, d));
    if (e > 0) s.label("fuzzy");
  };
  size_t n = 0, fz = 0;
  if (mode == 0)
  {
    bool r = m->matches() != 0;
    int d = distance(f, S, l);
    if (r)
    {
      if (m->size() != S.size()) fail("text", fmt("matches() with size() %zu of %zu", m->size(), S.size()));
      sound(S);
      ++n; fz += m->edits() > 0;
    }
    else
    {
      if (d == 0) fail("missed", "the text matches the pattern exactly");
      if (f.literal && !wide && !S.empty() && d <= l.max) fail("missed", fmt("the text is %d edits from the pattern", d));
      if (d <= l.max) s.label("missed regex");
    }
    if (d <= l.max) s.label("near");
  }
  else if (mode == 1 || mode == 3)
  {
    size_t p0 = 0;
    std::vector<std::pair<size_t,size_t> > hits;
    if (mode == 1)
    {
      while (m->find())
      {
        size_t a = m->first(), b = a + m->size();
        if (a < p0 || b > S.size() || b <= a) fail("position", fmt("find() reports [%zu,%zu) after %zu", a, b, p0));
        if (S.substr(a, b - a) != std::string(m->begin(), m->size())) fail("text", "text() is not the text at first()");
        sound(S.substr(a, b - a));
        ++n; fz += m->edits() > 0;
        hits.push_back({a, b});
        p0 = b;
        if (n > S.size()) fail("stuck", "more matches than characters");
      }
    }
    else
    {
      // pieces and separators alternate: what lies between two pieces is a match
      size_t last = 0; int e = -1;
      while (true)
      {
        size_t r = m->split();
        if (r == 0) fail("split", "split() ends without a last piece");
        size_t a = m->first(), b = a + m->size();
        if (a < last || b > S.size()) fail("position", fmt("piece [%zu,%zu) after %zu", a, b, last));
        if (S.substr(a, b - a) != std::string(m->begin(), m->size())) fail("text", "text() is not the text at first()");
        if (e >= 0)
        {
          std::string t = S.substr(last, a - last);
          int d = distance(f, t, l);
          if (wide && e > 0) d = 0;
          if (d > e) fail("unsound", fmt("separator %s is taken with %d edits, the distance to the pattern is %d", show(t).c_str(), e, d));
          fz += e > 0; ++n;
        }
        else if (a != 0) fail("split", "the first piece does not begin the text");
        if (r == reflex::AbstractMatcher::Const::EMPTY) { if (b != S.size()) fail("split", "the last piece does not reach the end of the text"); break; }
        last = b;
        e = m->edits();
        if (e > l.max) fail("edits", fmt("edits() is %d, the maximum is %d", e, l.max));
        if (n > 2 * S.size() + 2) fail("stuck", "more pieces than characters");
      }
      if (m->split() != 0) fail("split", "split() does not end");
    }
    if (mode == 1)
    {
      // no exact match lies entirely between two matches; for literals no near match that begins with the right character
      hits.push_back({S.size(), S.size()});
      size_t g = 0;
      for (auto& h : hits)
      {
        for (size_t i = g; i < h.first; ++i)
        {
          if ((S[i] & 0xC0) == 0x80) continue;
          for (size_t j = i + 1; j <= h.first; ++j)
          {
            if (j < S.size() && (S[j] & 0xC0) == 0x80) continue;
            std::string t = S.substr(i, j - i);
            int d = distance(f, t, l);
            if (d == 0) fail("missed", fmt("the exact match %s at %zu is not found", show(t).c_str(), i));
          }
        }
        g = h.second;
      }
    }
  }
  else
  {
    size_t p0 = 0;
    while (p0 < S.size())
    {
      size_t r = m->scan();
      if (r != 0)
      {
        std::string t(m->begin(), m->size());
        if (t.empty() || m->first() != p0 || S.compare(p0, t.size(), t) != 0) fail("position", fmt("scan() at %zu reports %s at %zu", p0, show(t).c_str(), m->first()));
        sound(t);
        p0 += t.size();
        ++n; fz += m->edits() > 0;
      }
      else
      {
        for (size_t j = p0 + 1; j <= S.size(); ++j)
        {
          if (distance(f, S.substr(p0, j - p0), l) == 0) fail("missed", fmt("scan() at %zu does not match %s", p0, show(S.substr(p0, j - p0)).c_str()));
        }
        int c = m->input();
        if (c != static_cast<unsigned char>(S[p0])) fail("input", fmt("input() is %d at %zu", c, p0));
        ++p0;
        while (p0 < S.size() && f.literal && (S[p0] & 0xC0) == 0x80) { (void)m->input(); ++p0; }
      }
    }
  }
  s.label(mode == 0 ? "matches" : mode == 1 ? "find" : mode == 2 ? "scan" : "split");
  s.label(f.literal ? "literal" : "regex");
  if (fz > 0 || (l.max == 0 && n > 0)) s.nontrivial(hash_str(f.text) + 31 * hash_str(S) + max * 4 + mode);
}

std::vector<Part> pbt::parts() { return {{"fuzzy", [](Source& s) { run(s); }, 100000, 1500000, 300}}; }
PBT_MAIN
