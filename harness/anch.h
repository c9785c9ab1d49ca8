// anch.h - patterns whose alternatives have begin/end anchors, word boundaries, lookahead or are negative; with a reference
// matcher over the whole text
#ifndef ANCH_H
#define ANCH_H
#include "genpat.h"
#include <reflex/matcher.h>

namespace anch {

using rem::P;
using pbt::Source;
using pbt::fmt;
using pbt::show;
using pbt::fail;

struct Alt { P full, phi, psi; bool look = false, neg = false, anch = false; };

struct Anch { P node; std::string text; };

struct APat {
  std::vector<Alt> alts;
  std::string text, options, alphabet;
  rem::NFA nfa;                 // all alternatives, with lookahead
  std::vector<rem::NFA> full, phi, psi; // each alternative
  std::vector<P> samples;
  bool anchored = false, looks = false, negs = false;
  bool nestable = false;
};

struct Res { bool ok; bool redo; size_t size, total; int accept; uint64_t ties = 0; /* alternatives that match this text */ };

// the match at position i of the whole text t; sets amb when the limits documented for lookahead apply
inline Res match_at(const APat& p, const std::string& t, size_t i, bool& amb)
{
  Res r = { false, false, 0, 0, 0, 0 };
  rem::NFA::Match m = p.nfa.longest(t, i, 1);
  if (!m.ok)
    return r;
  r.ok = true;
  r.accept = m.accept;
  r.total = r.size = m.end - i;
  for (size_t k = 0; k < p.alts.size(); ++k)
    if (p.full[k].exact(t, i, m.end))
      r.ties |= static_cast<uint64_t>(1) << k;
  // on ties a pattern with an anchor that holds may win over a lower numbered one
  int anch = 0, look = 0, neg = 0, num = 0;
  for (size_t k = 0; k < p.alts.size(); ++k)
    if (r.ties >> k & 1)
    {
      ++num;
      anch += p.alts[k].anch;
      look += p.alts[k].look;
      neg += p.alts[k].neg;
    }
  if (!anch)
    r.ties = 0;
  else if (num > 1 && (look || (neg && neg < num)))
  {
    amb = true;
    return r;
  }
  if (p.negs)
    for (size_t k = 0; k < p.alts.size() && !r.redo; ++k)
      if (p.alts[k].neg && p.full[k].exact(t, i, m.end))
        r.redo = true;
  if (r.redo)
    return r;
  size_t a = static_cast<size_t>(m.accept) - 1;
  if (p.alts[a].look)
  {
    // ambiguous when the first part also ends inside or at the end of the lookahead text
    size_t j = m.end + 1;
    for (size_t k = i + 1; k <= m.end; ++k)
      if (p.phi[a].exact(t, i, k))
        j = k;
    if (j > m.end || !p.psi[a].exact(t, j, m.end))
    {
      amb = true;
      return r;
    }
    r.size = j - i;
  }
  return r;
}

struct Conf { bool anchors, looks, negs; };

inline Anch begin_anchor(Source& s, bool multi)
{
  switch (s.weighted({4, 3, 2, 2, 2, 1}))
  {
    case 0: return { rem::assertion(multi ? rem::A_BOL : rem::A_BOB), "^" };
    case 1: return { rem::assertion(rem::A_WB), "\\b" };
    case 2: return { rem::assertion(rem::A_NWB), "\\B" };
    case 3: return { rem::assertion(rem::A_BOW), "\\<" };
    case 4: return { rem::assertion(rem::A_EOW), "\\>" };
    default: return { rem::assertion(rem::A_BOB), "\\A" };
  }
}

inline Anch end_anchor(Source& s, bool multi)
{
  switch (s.weighted({4, 3, 2, 2, 2, 1}))
  {
    case 0: return { rem::assertion(multi ? rem::A_EOL : rem::A_EOB), "$" };
    case 1: return { rem::assertion(rem::A_WB), "\\b" };
    case 2: return { rem::assertion(rem::A_NWB), "\\B" };
    case 3: return { rem::assertion(rem::A_BOW), "\\<" };
    case 4: return { rem::assertion(rem::A_EOW), "\\>" };
    default: return { rem::assertion(rem::A_EOB), "\\z" };
  }
}

inline rem::Frag body(Source& s, rem::Gen& g, const rem::Opts& o, int size)
{
  rem::Frag f;
  switch (s.weighted({4, 3, 2}))
  {
    case 0: f = g.plain(o, 5); break;
    case 1: g.size = 1 + static_cast<int>(s.below(static_cast<uint32_t>(size))); f = g.sequence(o, 2); break;
    default: g.size = 1 + static_cast<int>(s.below(static_cast<uint32_t>(size))); f = g.alternation(o, 2, 3); f.text = "(" + f.text + ")"; break;
  }
  if (rem::nullable(f.node))
    pbt::discard(); // empty matches are a matter of their own
  return f;
}

inline APat gen(Source& s, const Conf& c)
{
  static const std::vector<std::string> alphas = { "ab-", "a_ ", "ab\n", "a-\r\n", "ab .\n", "aA0_-", "abc", "a \n", "ab0- \n", "x.\n" };
  APat p;
  rem::Gen g(s);
  rem::Opts o;
  g.rich = s.chance(1, 6);
  g.alpha = p.alphabet = s.pick(alphas);
  bool multi = s.chance(3, 4);
  std::string pre;
  if (s.chance(1, 6)) { o.i = true; p.options += "i"; }
  if (s.chance(1, 6)) { o.s = true; p.options += "s"; }
  if (multi) { if (s.flip()) p.options += "m"; else pre = "(?m)"; }
  int n = 1 + static_cast<int>(s.below(s.chance(1, 4) ? 8 : 4));
  // several alternatives with an anchor at both ends, or one next to others with an anchor, are not supported
  int both = c.anchors && s.chance(1, 4) ? static_cast<int>(s.below(static_cast<uint32_t>(n))) : -1;
  for (int i = 0; i < n; ++i)
  {
    Alt a;
    std::string t;
    std::vector<P> v, all;
    rem::Frag f = body(s, g, o, 6);
    std::string b;
    bool nb = false;
    if (c.anchors && (both >= 0 ? i == both : s.chance(1, 3)))
    {
      Anch x = begin_anchor(s, multi);
      v.push_back(x.node);
      b += x.text;
      p.anchored = true;
      nb = true;
    }
    v.push_back(f.node);
    b += f.text;
    if (c.anchors && (both >= 0 ? i == both : !nb && s.chance(1, 2)))
    {
      Anch x = end_anchor(s, multi);
      v.push_back(x.node);
      b += x.text;
      p.anchored = true;
      nb = true;
    }
    else if (c.looks && !nb && s.chance(1, 2))
    {
      rem::Frag h = body(s, g, o, 4);
      // the lookahead begins with a character that may not be part of the first
      if (s.chance(2, 3))
      {
        char d = s.pickc("#;:");
        std::vector<P> w;
        w.push_back(rem::chr(static_cast<unsigned char>(d)));
        w.push_back(h.node);
        h.node = rem::cat(w);
        h.text = std::string(o.x ? "\\" : "") + d + h.text;
      }
      a.psi = h.node;
      a.look = true;
      p.looks = true;
      b += "(?=" + h.text + ")";
    }
    a.anch = nb;
    a.phi = rem::cat(v);
    all = v;
    if (a.look) all.push_back(a.psi);
    a.full = rem::cat(all);
    if (c.negs && !a.look && s.chance(1, 2))
    {
      a.neg = true;
      p.negs = true;
      b = "(?^" + b + ")";
      if (s.chance(1, 6) && !nb)
      {
        // a part before or after a negative part belongs to it
        rem::Frag h = body(s, g, o, 3);
        std::vector<P> w;
        if (s.flip()) { b = h.text + b; w.push_back(h.node); w.push_back(a.full); }
        else { b += h.text; w.push_back(a.full); w.push_back(h.node); }
        a.full = a.phi = rem::cat(w);
      }
    }
    else if (s.chance(1, 4))
      b = (s.flip() ? "(?:" : "(") + b + ")";
    if (i) p.text += "|";
    p.text += b;
    p.alts.push_back(a);
    p.samples.push_back(a.full);
  }
  p.text = pre + p.text;
  if (g.ambiguous)
    pbt::discard();
  std::vector<P> all;
  size_t w = 0;
  for (Alt& a : p.alts)
  {
    all.push_back(a.full);
    w += rem::weight(a.full);
    p.full.push_back(rem::NFA(a.full));
    p.phi.push_back(rem::NFA(a.phi));
    p.psi.push_back(rem::NFA(a.look ? a.psi : rem::eps()));
  }
  if (w > 400)
    pbt::discard();
  p.nfa.build(all);
  if (p.nfa.dfa_states(300) >= 300)
    pbt::discard();
  return p;
}

inline std::string input(Source& s, const APat& p, int avg)
{
  std::string t;
  std::string noise = s.flip() ? p.alphabet : p.alphabet + "a_- \n";
  while (s.more(static_cast<uint32_t>(avg)) && t.size() < 600)
  {
    switch (s.weighted({8, 3, 2, 2, 1, 1, 1}))
    {
      case 0: rem::sample(s, s.pick(p.samples), t); break;
      case 1: t.push_back(s.pickc(noise)); break;
      case 2: { std::string u; rem::sample(s, s.pick(p.samples), u); if (!u.empty()) { size_t k = s.below(static_cast<uint32_t>(u.size()) + 1); t += s.flip() ? u.substr(0, k) : u.substr(k); } break; }
      case 3: t += s.flip() ? "\n" : s.flip() ? "\r\n" : "\r"; break;
      case 4: t.push_back("#;:"[s.below(3)]); break;
      case 5: { size_t k = s.below(80); char c = s.pickc(noise); t.append(k, c); break; }
      default: t.push_back(static_cast<char>(s.below(256)));
    }
  }
  return t;
}

enum { SCAN, FIND, SPLIT, MATCHES };

// compares the matcher with the reference on one input
inline void run(Source& s, const APat& p, const reflex::Pattern& pattern, const std::string& in, size_t blk, int method, bool A)
{
  static const char *const names[] = { "scan", "find", "split", "matches" };
  const size_t REDO = reflex::AbstractMatcher::Const::REDO;
  reflex::Matcher m(pattern, reflex::Input(in.data(), in.size()), A ? "A" : NULL);
  if (blk) m.buffer(blk);
  bool amb = false;
  size_t pos = 0, count = 0, zero = 0, redos = 0, trimmed = 0;
  auto got_str = [&](size_t got) { return fmt("%s() = %zu, %s at %zu", names[method], got, show(std::string(m.begin(), m.size())).c_str(), m.first()); };
  if (method == MATCHES)
  {
    int want = p.nfa.exact(in, 0, in.size());
    bool redo = false;
    for (size_t k = 0; k < p.alts.size(); ++k)
    {
      if (p.alts[k].look) pbt::discard(); // lookahead cannot be followed by the end of the text
      if (p.alts[k].neg && p.full[k].exact(in, 0, in.size())) redo = true;
    }
    if (in.empty()) pbt::discard();
    size_t got = m.matches();
    size_t w = redo ? (A ? REDO : 0) : static_cast<size_t>(want);
    bool tie = false;
    if (!redo && p.anchored)
      tie = got - 1 < p.alts.size() && p.full[got - 1].exact(in, 0, in.size());
    if (redo && p.anchored) pbt::discard();
    if (got != w && !tie)
      fail("matches", fmt("matches() = %zu on %s, should be %zu", got, show(in).c_str(), w));
    s.label(w ? "matches-yes" : "matches-no");
    if (in.size() > 1) s.nontrivial(pbt::hash_str("M" + p.text + p.options + in));
    return;
  }
  while (true)
  {
    size_t begin = pos;
    Res r = { false, false, 0, 0, 0, 0 };
    if (method == SCAN)
    {
      while ((r = match_at(p, in, pos, amb)).ok && r.redo && !A) { pos += r.size; ++redos; begin = pos; }
    }
    else
      for (; pos < in.size(); ++pos)
      {
        r = match_at(p, in, pos, amb);
        if (amb) break;
        if (r.ok && r.redo && !A) { pos += r.size - 1; ++redos; r.ok = false; continue; }
        if (r.ok) break;
      }
    if (amb)
    {
      s.label("ambiguous-lookahead");
      break;
    }
    size_t got = method == SCAN ? m.scan() : method == FIND ? m.find() : m.split();
    if (method == SPLIT)
    {
      std::string piece = in.substr(begin, (r.ok ? pos : in.size()) - begin);
      if (std::string(m.begin(), m.size()) != piece || m.first() != begin)
        fail("split-text", fmt("%s, expected piece %s at %zu", got_str(got).c_str(), show(piece).c_str(), begin));
      size_t w = !r.ok ? static_cast<size_t>(reflex::AbstractMatcher::Const::EMPTY) : r.redo ? REDO : static_cast<size_t>(r.accept);
      if (got != w && !(r.ok && got - 1 < 64 && (r.ties >> (got - 1) & 1)))
        fail("split-accept", fmt("%s, expected %zu", got_str(got).c_str(), w));
      ++count;
      if (!r.ok)
      {
        if (m.split() != 0) fail("split-extra", "split() after the last piece is not 0");
        break;
      }
      pos += r.size;
      continue;
    }
    if (!r.ok)
    {
      if (got != 0)
        fail("extra", fmt("%s, but nothing matches at %s%zu", got_str(got).c_str(), method == FIND ? "or after " : "", begin));
      if (method == FIND)
        break;
      if (m.at_end() != (pos >= in.size()))
        fail("at-end", fmt("at_end() is %d at %zu of %zu", m.at_end(), pos, in.size()));
      if (pos >= in.size())
        break;
      int c = m.input();
      if (c != static_cast<unsigned char>(in[pos]))
        fail("input", fmt("no match at %zu, then input() = %d, expected %d", pos, c, static_cast<unsigned char>(in[pos])));
      ++pos;
      ++zero;
      continue;
    }
    size_t w = r.redo ? REDO : static_cast<size_t>(r.accept);
    if (got == 0)
      fail("miss", fmt("%s, but alternative %zu matches %s at %zu", got_str(got).c_str(), w, show(in.substr(pos, r.size)).c_str(), pos));
    if (m.first() != pos || m.size() != r.size || std::string(m.begin(), m.size()) != in.substr(pos, r.size))
      fail("span", fmt("%s, but alternative %zu matches %s at %zu", got_str(got).c_str(), w, show(in.substr(pos, r.size)).c_str(), pos));
    if ((got != w && !(got - 1 < 64 && (r.ties >> (got - 1) & 1))) || m.accept() != got)
      fail("accept", fmt("%s, expected %zu", got_str(got).c_str(), w));
    if (r.size < r.total) ++trimmed;
    pos += r.size;
    ++count;
  }
  s.label(names[method]);
  if (trimmed) s.label("lookahead-used");
  if (redos) s.label("negative-used");
  if (count >= 2 && (!p.looks || trimmed) && (!p.negs || redos || A))
    s.nontrivial(pbt::hash_str(fmt("%d", method) + p.text + p.options + in));
}

inline void all(Source& s, const Conf& c)
{
  APat p = gen(s, c);
  if ((c.anchors && !c.negs && !p.anchored) || (c.looks && !p.looks && !c.negs) || (c.negs && !p.negs))
    pbt::discard();
  s.note("pattern", show(p.text));
  s.note("options", p.options);
  reflex::Pattern pattern(p.text, "r" + p.options);
  int n = 1 + static_cast<int>(s.below(4));
  for (int i = 0; i < n; ++i)
  {
    int method = static_cast<int>(s.weighted({4, 4, 2, 1}));
    bool A = c.negs && s.chance(1, 4);
    std::string in;
    if (method == MATCHES) rem::sample(s, s.pick(p.samples), in);
    else in = input(s, p, 8);
    size_t blk = s.chance(1, 3) ? 1 + s.below(30) : 0;
    s.note("input", fmt("%d%s block %zu ", method, A ? "A" : "", blk) + show(in));
    run(s, p, pattern, in, blk, method, A);
  }
}

} // namespace anch
#endif
