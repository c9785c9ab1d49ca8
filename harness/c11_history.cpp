// C11: histories of scanning, searching, reading and putting back consume and report exactly the right text.
#include "findpat.h"
#include "inputs.h"
#include <reflex/matcher.h>
using namespace pbt;

// reader without a size that delivers pieces of the text
struct Pieces : public std::streambuf {
  const std::string& t; size_t p, k;
  char c[64];
  Pieces(const std::string& text, size_t piece) : t(text), p(0), k(piece) { }
  int_type underflow() override
  {
    if (p >= t.size()) return traits_type::eof();
    size_t n = std::min(std::min(k, sizeof(c)), t.size() - p);
    memcpy(c, t.data() + p, n);
    p += n;
    setg(c, c, c + n);
    return traits_type::to_int_type(c[0]);
  }
};

// matcher with an overridden reader
struct Custom : public reflex::Matcher {
  std::string t; size_t p, k;
  Custom(const reflex::Pattern& pattern, const std::string& text, size_t piece) : reflex::Matcher(pattern, reflex::Input("")), t(text), p(0), k(piece) { }
  size_t get(char *s, size_t n) override
  {
    n = std::min(std::min(n, k), t.size() - p);
    memcpy(s, t.data() + p, n);
    p += n;
    return n;
  }
};

static std::string utf8_char(const std::string& s, size_t p, int& c)
{
  // the longest prefix that can be a character: lead byte plus the continuation bytes it calls for
  unsigned char b = static_cast<unsigned char>(s[p]);
  size_t n = b < 0xC0 ? 0 : b < 0xE0 ? 1 : b < 0xF0 ? 2 : b < 0xF8 ? 3 : b < 0xFC ? 4 : 5;
  std::string w(1, s[p]);
  while (n > 0 && p + w.size() < s.size() && (s[p + w.size()] & 0xC0) == 0x80) { w += s[p + w.size()]; --n; }
  c = -1;
  if (b < 0x80) c = b;
  else if (n == 0 && w.size() > 1 && w.size() <= 4)
  {
    int v = b & (0x3F >> (w.size() - 1));
    if (w.size() == 2) v = b & 0x1F;
    else if (w.size() == 3) v = b & 0x0F;
    else v = b & 0x07;
    for (size_t i = 1; i < w.size(); ++i) v = v << 6 | (w[i] & 0x3F);
    if (inp::enc(v) == w) c = v;
  }
  return w;
}

static void run(Source& s, bool big)
{
  static const std::string alpha("abc x\n0");
  std::vector<rem::Pat> pats;
  size_t np = 1 + s.below(2);
  const bool finds = s.chance(1, 3); // mostly searching, with accelerated patterns and more text
  for (size_t i = 0; i < np; ++i)
  {
    pats.push_back(finds ? gen_find_pattern(s, &alpha) : rem::gen_pattern(s, false, 3, &alpha));
    s.note("pattern", pats.back().text);
  }
  std::vector<std::unique_ptr<reflex::Pattern> > rps;
  for (auto& p : pats) rps.emplace_back(new reflex::Pattern(p.text, "r" + p.options));
  // text
  std::string S;
  size_t n = 0;
  while (s.more(finds ? 60 : 20)) ++n;
  for (size_t i = 0; i < n; ++i)
    switch (s.weighted({8, 3, 2, 1, 1}))
    {
      case 0: S += s.pickc(alpha.c_str()); break;
      case 1: S += rem::gen_input(s, pats[s.below(np)], alpha, 3); break;
      case 2: S += inp::enc(inp::gen_cp(s)); break;
      case 3: S += static_cast<char>(s.below(256)); break;
      default: S += "abc"; break;
    }
  if (big)
  {
    std::string unit = S + "a b\n";
    size_t want = 140000 + s.below(900000);
    S.clear();
    while (S.size() < want)
    {
      S += unit;
      if (s.chance(1, 8)) S.append(s.below(60), 'c');
      if (unit.size() < 2000) unit += unit;
    }
  }
  inp::short_lines(S);
  s.note("text", S.size() > 400 ? fmt("%zu bytes: %s...", S.size(), show(S.substr(0, 200)).c_str()) : show(S));
  size_t piece = 1 + s.below(big ? 5000 : 5);
  const std::string source(S);
  Pieces pieces(source, piece);
  std::istream is(&pieces);
  std::unique_ptr<reflex::Matcher> mp;
  std::string store = S + std::string(1, '\0');
  int src = static_cast<int>(s.below(4));
  bool inplace = false;
  switch (src)
  {
    case 0: mp.reset(new reflex::Matcher(*rps[0], source)); break;
    case 1: mp.reset(new reflex::Matcher(*rps[0], is)); break;
    case 2: mp.reset(new Custom(*rps[0], S, piece)); break;
    default: mp.reset(new reflex::Matcher(*rps[0])); mp->buffer(&store[0], S.size() + 1); inplace = true; break;
  }
  reflex::Matcher& m = *mp;
  size_t blk = 0;
  if (!inplace)
    switch (s.below(4))
    {
      case 0: blk = 1 + s.below(big ? 4000 : 9); m.buffer(blk); break;
      case 1: blk = 1; m.interactive(); break;
      case 2: if (src != 2) m.buffer(); break;
      default: break;
    }
  s.note("reading", fmt("source %d piece %zu block %zu", src, piece, blk));
  size_t p = 0;            // consumed up to
  size_t t0 = 0, t1 = 0;   // current text
  bool tv = false;         // text is valid
  bool more = false, lines = true;
  size_t cur = 0;          // pattern
  std::string hist;
  size_t ops = 0, kinds = 0;
  auto bad = [&](const char *what, const std::string& got, const std::string& want)
  {
    fail(what, fmt("got %s, expected %s at offset %zu\nhistory: %s", got.c_str(), want.c_str(), p, hist.size() > 600 ? ("..." + hist.substr(hist.size() - 600)).c_str() : hist.c_str()));
  };
  auto h = [&](const std::string& x) { hist += x; hist += "; "; };
  size_t limit = big ? 40 + s.below(160) : 30;
  size_t seen = 0;
  while (ops < limit && (big ? true : s.more(12)))
  {
    ++ops;
    if (big && s.chance(1, 12))
    {
      // move on over a large part of the input
      size_t k = 1 + s.below(60000);
      h(fmt("input() x %zu", k));
      for (size_t i = 0; i < k && p < S.size(); ++i)
      {
        int c = m.input();
        if (c != static_cast<unsigned char>(S[p])) bad("input()", fmt("%d", c), fmt("%d", static_cast<unsigned char>(S[p])));
        ++p;
      }
      tv = false;
      t0 = t1 = p;
      // start a new match here, so that the text between is not kept
    }
    size_t op = finds ? s.weighted({3, 16, 2, 1, 1, 2, 1, 2, 1, 1, 1, 1, 1, 2, 5, 1}) : s.weighted({8, 4, 3, 2, 3, 3, 2, 2, 2, 2, 2, 1, 2, 4, 1, 1});
    seen |= static_cast<size_t>(1) << op;
    switch (op)
    {
      case 0: // scan
      {
        if (more && p != t1) more = false; // not adjacent: handled by the generator below
        rem::NFA::Match w = pats[cur].nfa.longest(S, p, 1);
        if (more && !w.ok) break; // what remains of the text is not specified
        h("scan()");
        size_t a = m.scan();
        if (!w.ok)
        {
          if (a != 0) bad("scan()", fmt("%zu %s", a, show(m.str()).c_str()), "0");
          t0 = t1 = p; tv = false;
          break;
        }
        if (a != static_cast<size_t>(w.accept) || m.accept() != a) bad("scan()", fmt("%zu %s", a, show(m.str()).c_str()), fmt("%d %s", w.accept, show(S.substr(p, w.end - p)).c_str()));
        if (!more) t0 = p;
        more = false;
        t1 = p = w.end;
        tv = true;
        if (m.str() != S.substr(t0, t1 - t0)) bad("scan() text", show(m.str()), show(S.substr(t0, t1 - t0)));
        break;
      }
      case 1: // find
      {
        if (more) break;
        h("find()");
        size_t q = p;
        rem::NFA::Match w = { false, 0, 0 };
        while (q < S.size() && !(w = pats[cur].nfa.longest(S, q, 1)).ok)
        {
          if (big && q > p + 2000) break;
          ++q;
        }
        if (big && !w.ok && q < S.size()) { hist.resize(hist.size() - 8); break; }
        size_t a = m.find();
        if (!w.ok)
        {
          if (a != 0) bad("find()", fmt("%zu %s", a, show(m.str()).c_str()), "0");
          p = S.size(); t0 = t1 = p; tv = false;
          break;
        }
        if (a != static_cast<size_t>(w.accept) || m.str() != S.substr(q, w.end - q)) bad("find()", fmt("%zu %s", a, show(m.str()).c_str()), fmt("%d %s at %zu", w.accept, show(S.substr(q, w.end - q)).c_str(), q));
        t0 = q; t1 = p = w.end; tv = true;
        break;
      }
      case 2: // input
      {
        h("input()");
        if (more) { m.text(); more = false; discard(); }
        int c = m.input(), want = p < S.size() ? static_cast<unsigned char>(S[p]) : EOF;
        if (c != want) bad("input()", fmt("%d", c), fmt("%d", want));
        if (p < S.size())
        {
          ++p;
          if (m.at_bol() != (want == '\n')) bad("at_bol() after input()", m.at_bol() ? "true" : "false", want == '\n' ? "true" : "false");
        }
        break;
      }
      case 3: // winput
      {
        if (more) break;
        h("winput()");
        int want = EOF;
        std::string w;
        if (p < S.size()) w = utf8_char(S, p, want);
        int c = m.winput();
        if (want < 0 && p < S.size())
        {
          // not valid: surrogates and C0 80 are tolerated, anything else is the invalid character
          static const int inval = 0x200000;
          if (c != inval && !(w == std::string("\xc0\x80")) && !(w.size() == 3 && (w[0] & 0xFF) == 0xED && (w[1] & 0x20))) bad("winput() of invalid code", fmt("%d", c), fmt("%d", inval));
          // how many continuation bytes of an invalid sequence are taken is not specified, resynchronize
          int nx = m.peek();
          p = p + w.size();
          int wantp = p < S.size() ? static_cast<unsigned char>(S[p]) : EOF;
          if (nx != wantp) { if ((nx & 0xC0) != 0x80 || nx == EOF) bad("peek() after winput() of invalid code", fmt("%d", nx), fmt("%d", wantp)); discard(); }
        }
        else
        {
          if (c != want) bad("winput()", fmt("%d", c), fmt("%d", want));
          p += w.size();
        }
        break;
      }
      case 4: // peek
      {
        h("peek()");
        int c = m.peek(), want = p < S.size() ? static_cast<unsigned char>(S[p]) : EOF;
        if (c != want) bad("peek()", fmt("%d", c), fmt("%d", want));
        break;
      }
      case 5: // unput
      case 6: // wunput
      {
        if (more) break;
        std::string u;
        int w = 0;
        if (op == 5)
        {
          u = std::string(1, p > 0 && s.flip() ? S[p - 1] : s.flip() ? s.pickc(alpha.c_str()) : static_cast<char>(1 + s.below(255)));
          h("unput(" + show(u) + ")");
        }
        else
        {
          w = inp::gen_cp(s);
          u = inp::enc(w);
          h("wunput(" + show(u) + ")");
        }
        if (p < u.size() && inplace) { hist.resize(hist.size() - 2); h("not done"); break; }
        if (op == 5) m.unput(u[0]);
        else m.wunput(w);
        if (p < u.size()) lines = false; // text is inserted before the begin of the input
        if (p >= u.size()) { p -= u.size(); S.replace(p, u.size(), u); }
        else { S.replace(0, p, u); p = 0; }
        tv = false; t0 = t1 = p;
        if (big) lines = false;
#ifdef REFLEX_VERIF_BLOCK
        lines = false;
#endif
        break;
      }
      case 7: // skip char
      {
        if (more) break;
        char c = s.flip() ? s.pickc(alpha.c_str()) : static_cast<char>(s.below(256));
        h("skip(" + show(std::string(1, c)) + ")");
        bool ok = m.skip(c);
        size_t q = S.find(c, p);
        if (ok != (q != std::string::npos)) bad("skip(char)", ok ? "true" : "false", ok ? "false" : "true");
        p = ok ? q + 1 : S.size();
        t0 = t1 = p; tv = true;
        break;
      }
      case 8: // skip wide char
      {
        if (more) break;
        int c = inp::gen_cp(s);
        std::string u = inp::enc(c);
        h("skip wide " + show(u));
        bool ok = c == 0 ? (m.skip('\0')) : m.skip(static_cast<wchar_t>(c));
        size_t q = S.find(u, p);
        if (ok != (q != std::string::npos)) bad("skip(wchar_t)", ok ? "true" : "false", ok ? "false" : "true");
        p = ok ? q + u.size() : S.size();
        t0 = t1 = p; tv = true;
        break;
      }
      case 9: // skip string
      {
        if (more) break;
        std::string u;
        if (s.chance(2, 3) && p < S.size())
        {
          size_t a = p + s.below(std::min<size_t>(S.size() - p, 40));
          u = S.substr(a, 1 + s.below(5));
        }
        if (u.empty() || s.chance(1, 3)) { u += s.pickc("abc"); if (s.flip()) u += s.pickc("abc"); if (s.flip()) u.insert(u.begin(), 'a'); }
        size_t z = u.find('\0');
        if (z != std::string::npos) u.resize(z);
        if (u.empty()) break;
        h("skip(" + show(u) + ")");
        bool ok = m.skip(u.c_str());
        size_t q = S.find(u, p);
        if (ok != (q != std::string::npos)) bad("skip(char*)", ok ? "true" : "false", ok ? "false" : "true");
        p = ok ? q + u.size() : S.size();
        t0 = t1 = p; tv = true;
        break;
      }
      case 10: // less
      {
        if (!tv || more || t1 == t0) break;
        size_t k = 1 + s.below(t1 - t0 + 1);
        h(fmt("less(%zu)", k));
        m.less(k);
        if (k < t1 - t0) { t1 = t0 + k; p = t1; if (m.at_bol() != (S[p - 1] == '\n')) bad("at_bol() after less()", m.at_bol() ? "true" : "false", m.at_bol() ? "false" : "true"); }
        break;
      }
      case 11: // rest
      {
        if (more || (big && !s.chance(1, 30)) || (!big && !s.chance(1, 3))) break;
        h("rest()");
        const char *r = m.rest();
        if (std::string(r, m.size()) != S.substr(p) || r[m.size()] != '\0') bad("rest()", show(std::string(r, m.size())), show(S.substr(p)));
        t0 = p; t1 = p = S.size(); tv = true;
        break;
      }
      case 12: // more
      {
        if (!tv || t1 == t0 || p != t1) break;
        h("more()");
        m.more();
        more = true;
        break;
      }
      case 13: // look at the text
      {
        if (!tv) break;
        h("text()");
        const char *x = m.text();
        std::string want = S.substr(t0, t1 - t0);
        if (m.size() != want.size() || std::string(x, m.size()) != want || x[m.size()] != '\0') bad("text()", show(std::string(x, m.size())), show(want));
        if (m.str() != want) bad("str()", show(m.str()), show(want));
        break;
      }
      case 14: // use another pattern
      {
        if (np < 2) break;
        cur = 1 - cur;
        h(fmt("pattern %zu", cur));
        m.pattern(*rps[cur]);
        break;
      }
      default: // at end, line
      {
        h("at_end()");
        if (m.at_end() != (p >= S.size())) bad("at_end()", m.at_end() ? "true" : "false", p >= S.size() ? "true" : "false");
        if (tv && lines && (!big || s.chance(1, 8)))
        {
          size_t l = 1 + static_cast<size_t>(std::count(S.begin(), S.begin() + static_cast<long>(t0), '\n'));
          if (m.lineno() != l) bad("lineno()", fmt("%zu", m.lineno()), fmt("%zu", l));
          size_t b = t0 > 0 ? S.rfind('\n', t0 - 1) : std::string::npos;
          b = b == std::string::npos ? 0 : b + 1;
          if (m.border() != t0 - b) bad("border()", fmt("%zu", m.border()), fmt("%zu", t0 - b));
          if (m.first() != t0) bad("first()", fmt("%zu", m.first()), fmt("%zu", t0));
        }
      }
    }
  }
  for (size_t b = seen; b; b &= b - 1) ++kinds;
  if (p >= S.size()) s.label("consumed all");
  if (kinds >= 4 && S.size() >= 2) s.nontrivial(hash_str(pats[0].text) ^ hash_str(hist));
}
static void small_case(Source& s) { run(s, false); }
static void big_case(Source& s) { run(s, true); }

std::vector<Part> pbt::parts()
{
  return { { "small", small_case, 60000, 4000000, 20 }, { "big", big_case, 160, 8000, 120 } };
}
PBT_MAIN
