// C23: matchers backed by Boost, PCRE2 and std::regex report what the regex library reports for the whole text.
#include "pbt.h"
#include <reflex/boostmatcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/stdmatcher.h>
#include <memory>
#include <istream>
using namespace pbt;

struct Pieces : public std::streambuf {
  const std::string& t; const std::vector<size_t>& cuts; size_t p, i;
  char c[4096];
  Pieces(const std::string& text, const std::vector<size_t>& at) : t(text), cuts(at), p(0), i(0) { }
  int_type underflow() override
  {
    if (p >= t.size()) return traits_type::eof();
    while (i < cuts.size() && cuts[i] <= p) ++i;
    size_t n = std::min((i < cuts.size() ? cuts[i] : t.size()) - p, sizeof(c));
    memcpy(c, t.data() + p, n);
    p += n;
    setg(c, c, c + n);
    return traits_type::to_int_type(c[0]);
  }
};

enum Lib { BOOST, BPERL, BPOSIX, PCRE, PCREU, STD, ECMA, AWK };
static const char *lib_name[] = { "BoostMatcher", "BoostPerlMatcher", "BoostPosixMatcher", "PCRE2Matcher", "PCRE2UTFMatcher", "StdMatcher", "StdEcmaMatcher", "StdPosixMatcher" };

struct Hit {
  size_t b = 0, e = 0;
  std::vector<std::pair<long,long> > cap; // groups 1.., -1 when unmatched
  std::vector<std::string> names;
};

// the libraries, used directly on the whole text
struct Oracle {
  Lib lib;
  std::string pat, text;
  boost::regex bre; std::regex sre; pcre2_code *pre = NULL; pcre2_match_data *md = NULL;
  ~Oracle() { if (md) pcre2_match_data_free(md); if (pre) pcre2_code_free(pre); }
  bool compile()
  {
    try
    {
      if (lib <= BPOSIX) bre = boost::regex(pat);
      else if (lib <= PCREU)
      {
        int err; PCRE2_SIZE pos;
        pre = pcre2_compile(reinterpret_cast<PCRE2_SPTR>(pat.data()), pat.size(), lib == PCREU ? PCRE2_UTF | PCRE2_UCP : 0, &err, &pos, NULL);
        if (pre == NULL) return false;
        md = pcre2_match_data_create_from_pattern(pre, NULL);
      }
      else sre = std::regex(pat, lib == AWK ? std::regex::awk : std::regex::ECMAScript);
    }
    catch (std::exception&) { return false; }
    return true;
  }
  boost::match_flag_type bflags() { return boost::regex_constants::match_not_dot_newline | (lib == BPERL ? boost::regex_constants::match_perl : lib == BPOSIX ? boost::regex_constants::match_posix : boost::regex_constants::match_default); }
  template<typename M> Hit hit(const M& m)
  {
    Hit h; h.b = m[0].first - text.data(); h.e = m[0].second - text.data();
    for (size_t i = 1; i < m.size(); ++i)
      if (m[i].matched) h.cap.push_back({ m[i].first - text.data(), m[i].second - text.data() }); else h.cap.push_back({-1, -1});
    return h;
  }
  Hit phit(int rc)
  {
    (void)rc;
    PCRE2_SIZE *o = pcre2_get_ovector_pointer(md);
    Hit h; h.b = o[0]; h.e = o[1];
    for (size_t i = 1; i < pcre2_get_ovector_count(md); ++i)
      if (o[2 * i] != PCRE2_UNSET) h.cap.push_back({ static_cast<long>(o[2 * i]), static_cast<long>(o[2 * i + 1]) }); else h.cap.push_back({-1, -1});
    return h;
  }
  // all matches in the text, empty ones when permitted
  std::vector<Hit> all(bool empty)
  {
    std::vector<Hit> v;
    const char *b = text.data(), *e = b + text.size();
    if (lib <= BPOSIX)
    {
      boost::match_flag_type f = bflags();
      if (!empty) f |= boost::regex_constants::match_not_null;
      for (boost::cregex_iterator i(b, e, bre, f), n; i != n; ++i) v.push_back(hit(*i));
    }
    else if (lib <= PCREU)
    {
      size_t p = 0; uint32_t f = empty ? 0 : PCRE2_NOTEMPTY;
      uint32_t again = 0;
      while (p <= text.size())
      {
        int rc = pcre2_match(pre, reinterpret_cast<PCRE2_SPTR>(b), text.size(), p, f | again, md, NULL);
        if (rc < 0)
        {
          if (rc != PCRE2_ERROR_NOMATCH) discard(); // resource limits
          if (!again) break;
          again = 0;
          ++p;
          if (lib == PCREU) while (p < text.size() && (text[p] & 0xC0) == 0x80) ++p;
          continue;
        }
        v.push_back(phit(rc));
        if (v.back().e < p || v.back().e < v.back().b) discard(); // \K
        p = v.back().e;
        again = v.back().e == v.back().b ? PCRE2_NOTEMPTY_ATSTART | PCRE2_ANCHORED : 0;
      }
    }
    else
    {
      for (std::cregex_iterator i(b, e, sre), n; i != n; ++i)
      {
        if (!empty && (*i)[0].first == (*i)[0].second) discard(); // libstdc++ has no working match_not_null
        v.push_back(hit(*i));
      }
    }
    return v;
  }
  // the match at position p, not searching
  bool at(size_t p, bool empty, Hit& h)
  {
    const char *b = text.data(), *e = b + text.size();
    if (lib <= BPOSIX)
    {
      boost::match_flag_type f = bflags() | boost::regex_constants::match_continuous;
      if (!empty) f |= boost::regex_constants::match_not_null;
      if (p > 0) f |= boost::regex_constants::match_prev_avail;
      boost::cmatch m;
      if (!boost::regex_search(b + p, e, m, bre, f)) return false;
      h = hit(m);
      return true;
    }
    if (lib <= PCREU)
    {
      int rc = pcre2_match(pre, reinterpret_cast<PCRE2_SPTR>(b), text.size(), p, PCRE2_ANCHORED | (empty ? 0 : PCRE2_NOTEMPTY), md, NULL);
      if (rc < 0) { if (rc != PCRE2_ERROR_NOMATCH) discard(); return false; }
      h = phit(rc);
      return true;
    }
    std::cmatch m;
    std::regex_constants::match_flag_type f = std::regex_constants::match_continuous;
    if (p > 0) f |= std::regex_constants::match_prev_avail;
    if (!std::regex_search(b + p, e, m, sre, f)) return false;
    if (!empty && m[0].first == m[0].second) return false;
    h = hit(m);
    return true;
  }
};

struct G {
  Source& s; Lib lib; const char *alpha; int depth = 0; bool anchors; int ngroups = 0; bool loops = false; // the last atom repeats or has alternatives
  std::string atom(bool& nullable)
  {
    nullable = false;
    loops = false;
    switch (s.weighted({10, 3, 2, 5, 1, 1}))
    {
      case 0: { char c = s.pickc(alpha); return c == '\n' ? "\\n" : std::string(1, c); }
      case 1: { static const char *cls[] = { "[ab]", "[^a]", "[a-c0]", "[^\\n]", "[b ]" }; return cls[s.below(5)]; }
      case 2: { static const char *esc[] = { "\\w", "\\d", "\\s" }; return lib == AWK ? "[0-9]" : esc[s.below(3)]; }
      case 3:
        if (depth < 3)
        {
          ++depth;
          bool named = lib <= PCREU && lib >= PCRE && s.chance(1, 4);
          bool nc = !named && lib != AWK && s.chance(1, 4);
          if (!nc) ++ngroups;
          std::string o = named ? "(?<n" + str(ngroups) + ">" : nc ? "(?:" : "(";
          std::string in = alt(nullable), r = o + in + ")";
          --depth;
          loops = in.find_first_of(lib >= STD ? "*+|,?" : "*+,") != std::string::npos; // repeated: exponential time
          return r;
        }
        return "a";
      case 4: return ".";
      default:
        if (!anchors) return "b";
        {
          nullable = true;
          static const char *ba[] = { "^", "$", "\\b", "\\B" };
          if (lib >= STD) return lib == AWK ? "$" : ba[1 + s.below(3)]; // the matcher begins a line after each newline, std::regex has no such ^
          return ba[s.below(4)];
        }
    }
  }
  std::string piece(bool& nullable)
  {
    std::string a = atom(nullable);
    bool anch = a == "^" || a == "$" || a == "\\b" || a == "\\B";
    if (anch || nullable) return a; // no nested empty iterations: the libraries differ from their own documentation
    std::string q;
    if (loops) return s.chance(1, 3) ? nullable = true, a + "?" : a;
    switch (s.weighted({8, 2, 2, 2, 1}))
    {
      case 0: return a;
      case 1: q = "*"; nullable = true; break;
      case 2: q = "+"; break;
      case 3: q = "?"; nullable = true; break;
      default: { size_t n = s.below(3), m = n + s.below(3); if (m == 0) m = 1; q = "{" + str(n) + "," + str(m) + "}"; nullable = n == 0; }
    }
    if (lib != BPOSIX && lib != AWK && s.chance(1, 5)) q += "?";
    return a + q;
  }
  std::string cat(bool& nullable)
  {
    std::string r; nullable = true;
    do { bool n; r += piece(n); nullable = nullable && n; } while (s.more(2));
    return r;
  }
  std::string alt(bool& nullable)
  {
    std::string r = cat(nullable);
    while (s.chance(1, 3)) { bool n; r += "|" + cat(n); nullable = nullable || n; }
    return r;
  }
};

static std::string show_hits(const std::vector<Hit>& v)
{
  std::string r;
  for (auto& h : v)
  {
    r += fmt(" [%zu,%zu", h.b, h.e);
    for (auto& c : h.cap) r += fmt(" (%ld,%ld)", c.first, c.second);
    r += "]";
  }
  return r;
}

struct Checker {
  reflex::AbstractMatcher& m; Oracle& o; const std::string& S; std::string log;
  // the number of a match: the first matched group; with groups none of which matched just nonzero
  static size_t number(const Hit& h, size_t r)
  {
    size_t want = 1;
    while (want <= h.cap.size() && h.cap[want - 1].first < 0) ++want;
    if (h.cap.empty()) return 1;
    return want <= h.cap.size() ? want : r != 0 ? r : 1;
  }
  void hit(const Hit& h, size_t tb, size_t te, size_t accept, bool split)
  {
    // captures, text and position of a match [tb,te) of the text; for split the captures are those of the separator
    size_t want = number(h, accept);
    if (accept != want && accept != 0x7FFFFFFF) fail("accept", fmt("match [%zu,%zu) reported with %zu, the first matched group is %zu:%s", tb, te, accept, want, log.c_str()));
    text(tb, te);
    if (split) return;
    for (size_t i = 0; i < h.cap.size(); ++i)
    {
      std::pair<const char*,size_t> c = m[i + 1];
      std::string got = c.first ? std::string(c.first, c.second) : "-";
      std::string exp = h.cap[i].first >= 0 ? S.substr(h.cap[i].first, h.cap[i].second - h.cap[i].first) : "-";
      if (got != exp || (c.first != NULL) != (h.cap[i].first >= 0)) fail("capture", fmt("match [%zu,%zu) group %zu is %s, the library says %s:%s", tb, te, i + 1, show(got).c_str(), show(exp).c_str(), log.c_str()));
      if (c.first && static_cast<long>(m.first() + (c.first - m.begin())) != h.cap[i].first) fail("capture position", fmt("group %zu at %zu, the library says %ld", i + 1, m.first() + (c.first - m.begin()), h.cap[i].first));
    }
    if (m[h.cap.size() + 1].first != NULL) fail("capture", "group beyond the last");
    // group ids enumerate the matched groups
    if (!h.cap.empty())
    {
      std::vector<size_t> exp, got;
      for (size_t i = 0; i < h.cap.size(); ++i) if (h.cap[i].first >= 0) exp.push_back(i + 1);
      if (!exp.empty())
      {
        std::pair<size_t,const char*> id = m.group_id();
        for (size_t k = 0; k < exp.size(); ++k)
        {
          if (id.first != exp[k]) fail("group id", fmt("group_id number %zu of match [%zu,%zu) is %zu, expected %zu:%s", k + 1, tb, te, id.first, exp[k], log.c_str()));
          if (o.lib == PCRE || o.lib == PCREU)
          {
            std::string name; size_t at = o.pat.find("(?<n" + str(exp[k]) + ">"); if (at != std::string::npos) name = "n" + str(exp[k]);
            if ((id.second ? std::string(id.second) : "") != name) fail("group name", fmt("group %zu named %s, expected %s", exp[k], id.second ? id.second : "(none)", name.c_str()));
          }
          id = m.group_next_id();
        }
        if (o.lib >= PCRE && o.lib <= PCREU && id.first != 0) fail("group id", "group_next_id() after the last group is not 0");
      }
    }
  }
  void text(size_t tb, size_t te)
  {
    std::string got(m.begin(), m.size());
    if (got != S.substr(tb, te - tb)) fail("text", fmt("text() is %s, expected %s at [%zu,%zu):%s", show(got).c_str(), show(S.substr(tb, te - tb)).c_str(), tb, te, log.c_str()));
    if (m.first() != tb || m.last() != te) fail("position", fmt("match at [%zu,%zu), expected [%zu,%zu):%s", m.first(), m.last(), tb, te, log.c_str()));
    size_t line = 1 + std::count(S.begin(), S.begin() + tb, '\n');
    if (m.lineno() != line) fail("line", fmt("lineno() is %zu at %zu, expected %zu:%s", m.lineno(), tb, line, log.c_str()));
    if (S.find('\t') == std::string::npos)
    {
      size_t bol = tb == 0 ? 0 : S.rfind('\n', tb - 1) == std::string::npos ? 0 : S.rfind('\n', tb - 1) + 1;
      size_t col = 0;
      for (size_t i = bol; i < tb; ++i) col += (S[i] & 0xC0) != 0x80;
      if (m.columno() != col) fail("column", fmt("columno() is %zu at %zu, expected %zu:%s", m.columno(), tb, col, log.c_str()));
    }
    std::string z = m.text();
    if (z != got.substr(0, got.find('\0'))) fail("text", "text() differs from begin(), size()");
  }
};

static void run1(Source& s)
{
  Lib lib = static_cast<Lib>(s.weighted({3, 2, 2, 4, 3, 1, 2, 1}));
  int mode = static_cast<int>(s.weighted({5, 3, 3, 3, 1})); // find, find N, scan+input, split, matches
  if (lib >= STD && mode == 1) mode = 0;
  static const char *al[] = { "ab", "abc \n", "ab0\nx", "aab " };
  G g{s, lib, al[s.below(4)], 0, s.chance(1, 3)};
  bool nullable;
  std::string pat = g.alt(nullable);
  if (lib >= STD && nullable && mode != 4) discard();
  // text in pieces
  std::string S;
  while (s.more(12))
    switch (s.weighted({12, lib == PCREU ? 2u : 0u, 1}))
    {
      case 0: S += s.pickc(g.alpha); break;
      case 1: S += s.chance(1, 2) ? "\xc3\xa9" : s.chance(1, 2) ? "\xe2\x82\xac" : "\xf0\x9f\x98\x80"; break;
      default: S += "ab0 \nx-"[s.below(7)];
    }
  std::vector<size_t> cuts;
  bool pieces = s.chance(1, 2);
  if (pieces)
  {
    for (size_t i = 1; i < S.size(); ++i)
      if ((S[i] & 0xC0) != 0x80 && s.chance(1, 4)) cuts.push_back(i);
    if (lib <= BPOSIX && !cuts.empty())
    {
      // Boost has no hard partial matching: only patterns whose matches cannot be extended past the end of a piece
      static const char *toks[] = { "[ab]+", "(a+)|(b+)|( +)", "(\\w+)|(\\s+)", "(a+)|(b)|([0x ]+)", "a|b|(\\n)", "([^\\n]+)", "(?:a|b)+", "((x)|[ab])" };
      pat = toks[s.below(8)];
      nullable = false;
    }
  }
  Oracle o; o.lib = lib; o.pat = pat; o.text = S;
  if (!o.compile()) discard();
  s.note("matcher", lib_name[lib]);
  s.note("pattern", pat);
  s.note("text", S);
  s.note("mode", mode == 0 ? "find" : mode == 1 ? "find with option N" : mode == 2 ? "scan" : mode == 3 ? "split" : "matches");
  { std::string c; for (size_t i : cuts) c += " " + str(i); s.note("pieces", c); }
  Pieces buf(S, cuts);
  std::istream in(&buf);
  reflex::Input input;
  if (pieces) input = reflex::Input(in); else input = reflex::Input(S.data(), S.size());
  const char *opt = mode == 1 ? "N" : NULL;
  std::unique_ptr<reflex::AbstractMatcher> m;
  switch (lib)
  {
    case BOOST: m.reset(new reflex::BoostMatcher(pat, input, opt)); break;
    case BPERL: m.reset(new reflex::BoostPerlMatcher(pat, input, opt)); break;
    case BPOSIX: m.reset(new reflex::BoostPosixMatcher(pat, input, opt)); break;
    case PCRE: m.reset(new reflex::PCRE2Matcher(pat, input, opt)); break;
    case PCREU: m.reset(new reflex::PCRE2UTFMatcher(pat, input, opt)); break;
    case STD: m.reset(new reflex::StdMatcher(pat, input, opt)); break;
    case ECMA: m.reset(new reflex::StdEcmaMatcher(pat, input, opt)); break;
    default: m.reset(new reflex::StdPosixMatcher(pat, input, opt));
  }
  Checker c{*m, o, S, ""};
  size_t hits = 0, caps = 0;
  if (mode <= 1)
  {
    std::vector<Hit> v = o.all(mode == 1);
    while (mode == 1 && !v.empty() && v.back().b == v.back().e && v.back().b == S.size()) v.pop_back(); // not reported at the end
    c.log = " the library finds" + show_hits(v);
    for (auto& h : v)
    {
      size_t r = m->find();
      ++hits; caps += h.cap.size();
      if (r == 0) fail("missed", fmt("find() misses [%zu,%zu):%s", h.b, h.e, c.log.c_str()));
      c.hit(h, h.b, h.e, r, false);
    }
    size_t r = m->find();
    if (r != 0) fail("extra", fmt("find() reports [%zu,%zu) after the last:%s", m->first(), m->last(), c.log.c_str()));
  }
  else if (mode == 2)
  {
    size_t p = 0;
    while (true)
    {
      Hit h;
      bool is = p < S.size() && o.at(p, false, h);
      size_t r = m->scan();
      if (is != (r != 0)) fail("scan", fmt("scan() at %zu returns %zu, the library %s", p, r, is ? fmt("matches up to %zu", h.e).c_str() : "does not match"));
      if (is)
      {
        ++hits; caps += h.cap.size();
        c.hit(h, h.b, h.e, r, false);
        p = h.e;
      }
      else
      {
        if (m->at_end() != (p >= S.size())) fail("at_end", fmt("at_end() is %d at %zu of %zu", m->at_end(), p, S.size()));
        if (p >= S.size()) break;
        int ch = m->input();
        if (ch != static_cast<unsigned char>(S[p])) fail("input", fmt("input() is %d at %zu", ch, p));
        ++p;
      }
    }
  }
  else if (mode == 3)
  {
    std::vector<Hit> v = o.all(true);
    if (nullable) discard(); // splitting on empty matches is up to the library
    size_t p = 0;
    c.log = " the library finds" + show_hits(v);
    for (auto& h : v)
    {
      size_t r = m->split();
      ++hits;
      if (r == 0 || r == reflex::AbstractMatcher::Const::EMPTY) fail("split", fmt("split() ends before the separator [%zu,%zu):%s", h.b, h.e, c.log.c_str()));
      std::string got(m->begin(), m->size());
      if (got != S.substr(p, h.b - p)) fail("split", fmt("piece %s, expected %s before [%zu,%zu):%s", show(got).c_str(), show(S.substr(p, h.b - p)).c_str(), h.b, h.e, c.log.c_str()));
      size_t want = Checker::number(h, r);
      if (r != want) fail("accept", fmt("split() reports %zu, the first matched group is %zu", r, want));
      p = h.e;
    }
    size_t r = m->split();
    std::string got(m->begin(), m->size());
    if (r != reflex::AbstractMatcher::Const::EMPTY || got != S.substr(p)) fail("split", fmt("last piece %zu %s, expected %s:%s", r, show(got).c_str(), show(S.substr(p)).c_str(), c.log.c_str()));
    if (m->split() != 0) fail("split", "split() does not end");
  }
  else
  {
    Hit h;
    bool is = o.at(0, true, h) && h.e == S.size();
    size_t r = m->matches();
    if (is != (r != 0)) fail("matches", fmt("matches() is %zu, the library %s the whole text", r, is ? "matches" : "does not match"));
    if (is) { ++hits; c.hit(h, 0, S.size(), r, false); }
  }
  s.label(lib_name[lib]);
  s.label(mode == 0 ? "find" : mode == 1 ? "find N" : mode == 2 ? "scan" : mode == 3 ? "split" : "matches");
  if (!cuts.empty()) s.label("pieces");
  if (nullable) s.label("nullable");
  if (caps) s.label("captures");
  if (hits > 1 || (hits == 1 && mode == 4)) s.nontrivial(mix(hash_str(pat) + 31 * hash_str(S) + mode * 8 + lib));
}

static void run(Source& s)
{
  try { run1(s); }
  catch (const std::runtime_error&) { discard(); } // the library gives up: too complex
}

std::vector<Part> pbt::parts() { return {{"backends", [](Source& s) { run(s); }, 250000, 4000000, 300}}; }
PBT_MAIN
