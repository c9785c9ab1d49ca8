// C10: line numbers, columns, borders, offsets and lines of matches are those of the text.
#include "genpat.h"
#include "inputs.h"
#include <reflex/matcher.h>

using namespace pbt;

struct Model {
  const std::string& t;
  size_t tab;
  std::vector<size_t> nl; // offsets of newlines
  Model(const std::string& text, size_t tabs) : t(text), tab(tabs)
  {
    for (size_t i = 0; i < t.size(); ++i)
      if (t[i] == '\n') nl.push_back(i);
  }
  size_t lines_before(size_t p) const { return static_cast<size_t>(std::lower_bound(nl.begin(), nl.end(), p) - nl.begin()); }
  size_t bol(size_t p) const { size_t n = lines_before(p); return n ? nl[n - 1] + 1 : 0; }
  size_t eol(size_t p) const { size_t n = lines_before(p); return n < nl.size() ? nl[n] : t.size(); }
  size_t advance(size_t k, char c) const
  {
    if (c == '\t') return k + tab - k % tab;
    return k + ((c & 0xC0) != 0x80);
  }
  size_t col(size_t p) const
  {
    size_t k = 0;
    for (size_t i = bol(p); i < p; ++i) k = advance(k, t[i]);
    return k;
  }
};

// decoder of valid UTF-8; false if not valid
static bool widen(const std::string& s, std::wstring& w)
{
  for (size_t i = 0; i < s.size();)
  {
    unsigned char c = static_cast<unsigned char>(s[i]);
    int n = c < 0x80 ? 0 : c >= 0xC2 && c < 0xE0 ? 1 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xF0 && c < 0xF5 ? 3 : -1;
    if (n < 0 || i + static_cast<size_t>(n) >= s.size()) return false;
    int v = n == 0 ? c : c & (0x3F >> n);
    for (int j = 1; j <= n; ++j)
    {
      if ((s[i + static_cast<size_t>(j)] & 0xC0) != 0x80) return false;
      v = v << 6 | (s[i + static_cast<size_t>(j)] & 0x3F);
    }
    if (inp::enc(v) != s.substr(i, static_cast<size_t>(n) + 1)) return false;
    w += static_cast<wchar_t>(v);
    i += static_cast<size_t>(n) + 1;
  }
  return true;
}

struct Logger : public reflex::AbstractMatcher::Handler {
  std::string log;
  std::string error;
  void operator()(reflex::AbstractMatcher&, const char *buf, size_t len, size_t num) override
  {
    if (num != log.size())
      error = fmt("handler invoked at offset %zu, expected %zu", num, log.size());
    log.append(buf, len);
  }
};

static void run(Source& s, bool big)
{
  static const std::vector<std::pair<const char*, std::string> > fixed = {
    { "[a-z]+", "abcxyz" }, { "[^\\n]+", "" }, { "\\n+", "" }, { "[ \\t]+", " \t" }, { "(?s:.{1,7})", "" }, { "(?s:.)", "" }, { "(?:.|\\n){3}", "" },
    { "x[^y\\n]*y\\n?", "xy" }, { ".*\\n?", "" }, { "\\w+\\s*", "" }, { "\\xc3[\\x80-\\xbf]|\\t", "" }, { "[^a]+", "" }, { "a\\n|b|\\nc", "" }, { "\\r?\\n", "" }
  };
  static const std::string alpha("ab\n\t ");
  std::string regex = s.pick(fixed).first;
  std::unique_ptr<rem::Pat> gp;
  if (s.chance(1, 4) && !big)
  {
    gp.reset(new rem::Pat(rem::gen_pattern(s, false, 3, &alpha)));
    if (gp->nfa.alive("", 0) && gp->text.empty()) discard();
    regex = gp->text;
  }
  static const size_t tabsizes[] = { 1, 2, 4, 8 };
  size_t tab = tabsizes[s.below(4)];
  int method = static_cast<int>(s.weighted({3, 3, 1})); // scan, find, split
  // text
  std::string text;
  if (gp && s.flip())
    text = rem::gen_input(s, *gp, alpha, 8);
  else
  {
    size_t n = 0;
    while (s.more(24)) ++n;
    for (size_t i = 0; i < n; ++i)
      switch (s.weighted({10, 3, 3, 2, 1, 1, 1}))
      {
        case 0: text += s.pickc("abcxyz"); break;
        case 1: text += '\n'; break;
        case 2: text += '\t'; break;
        case 3: text += inp::enc(inp::gen_cp(s)); break;
        case 4: text += static_cast<char>(s.below(256)); break;
        case 5: text += "\r\n"; break;
        default: text.append(s.below(80), s.pickc("a \t\n")); break;
      }
  }
  if (big && !text.empty())
  {
    // grow beyond the internal buffer, keeping lines short
    std::string unit = text + "\n";
    size_t want = 300000 + s.below(1500000);
    text.clear();
    while (text.size() < want)
    {
      text += unit;
      if (s.chance(1, 64)) text.append(s.below(3000), 'z');
      if (unit.size() < 3000) { unit += unit; }
    }
    if (s.flip()) text += "abc";
  }
  inp::short_lines(text);
  s.note("pattern", regex);
  s.note("text", text.size() > 400 ? fmt("%zu bytes: %s...", text.size(), show(text.substr(0, 200)).c_str()) : show(text));
  reflex::Pattern pattern(regex);
  Model m(text, tab);
  // reader
  std::istringstream is(text);
  int src = static_cast<int>(s.below(3));
  std::string name;
  FILE *file = nullptr;
  reflex::Input in;
  if (src == 1) in = reflex::Input(is);
  else if (src == 2)
  {
    if (text.empty() || (text.size() >= 2 && (strchr("\xef\xfe\xff", text[0]) || text[0] == 0)))
      src = 0;
    else
    {
      file = fmemopen(const_cast<char*>(text.data()), text.size(), "r");
      in = reflex::Input(file);
    }
  }
  if (src == 0) in = reflex::Input(text);
  reflex::Matcher x(pattern, in, fmt("T=%zu", tab).c_str());
  if (s.chance(1, 4)) x.tabs(static_cast<char>(tab));
  size_t blk = 0;
  switch (s.below(4))
  {
    case 0: blk = 1 + s.below(big ? 60000 : 30); x.buffer(blk); break;
    case 1: if (!big) x.interactive(); break;
    case 2: if (s.flip()) x.buffer(); break;
    default: break;
  }
  s.note("reading", fmt("source %d block %zu method %d tabs %zu", src, blk, method, tab));
  Logger logger;
  bool log = s.chance(1, 4);
  if (log) x.set_handler(&logger);
  if (!x.at_bob() || !x.at_bol() || x.lineno() != 1 || x.columno() != 0)
    fail("start", fmt("at_bob() %d at_bol() %d lineno() %zu columno() %zu before matching", x.at_bob(), x.at_bol(), x.lineno(), x.columno()));
  int64_t lineshift = 0;
  size_t matches = 0, multi = 0, prev = 0;
  std::string hist;
  auto bad = [&](const char *what, const std::string& got, const std::string& want)
  {
    if (file) fclose(file);
    fail(what, fmt("%s is %s, expected %s\nmatch %zu at offset %zu of %s\nqueries since the match: %s", what, got.c_str(), want.c_str(), matches, x.first(), show(x.str()).c_str(), hist.c_str()));
  };
  auto badn = [&](const char *what, size_t got, size_t want) { if (got != want) bad(what, fmt("%zu", got), fmt("%zu", want)); };
  while (true)
  {
    size_t a = method == 0 ? x.scan() : method == 1 ? x.find() : x.split();
    if (a == 0)
      break;
    ++matches;
    hist.clear();
    size_t f = x.first(), n = x.size();
    if (f + n > text.size() || text.compare(f, n, x.begin(), n) != 0 || x.end() != x.begin() + n)
      bad("text at first()", show(x.str()), f <= text.size() ? show(text.substr(f, n)) : "?");
    if (method == 0 && f != prev)
      badn("first()", f, prev);
    prev = f + n;
    size_t queries = 0;
    if (big ? s.chance(1, 8) && matches < 4000 : true)
      while (queries < 12 && s.more(3)) ++queries;
    bool spanned = false;
    if (text.compare(f, n, std::string(n, 'z')) != 0 && std::count(text.begin() + static_cast<long>(f), text.begin() + static_cast<long>(f + n), '\n')) ++multi;
    for (size_t q = 0; q < queries && !spanned; ++q)
    {
      size_t what = s.below(22);
      hist += fmt("%zu ", what);
      size_t line = m.lines_before(f) + 1, bol = m.bol(f), eol = m.eol(f + n), lines = m.lines_before(f + n) - m.lines_before(f) + 1;
      switch (what)
      {
        case 0: badn("lineno()", x.lineno(), static_cast<size_t>(static_cast<int64_t>(line) + lineshift)); break;
        case 1: badn("columno()", x.columno(), m.col(f)); break;
        case 2: badn("border()", x.border(), f - bol); break;
        case 3: badn("lines()", x.lines(), lines); break;
        case 4: badn("lineno_end()", x.lineno_end(), static_cast<size_t>(static_cast<int64_t>(line + lines - 1) + lineshift)); break;
        case 5: // columns of all lines, newlines not counted
        {
          if (lines > 1 && text.compare(f, n, x.begin(), n) == 0 && text.find('\t', m.eol(f)) < f + n)
            break; // tab stops on following lines are not specified
          size_t k = m.col(f), k0 = k;
          for (size_t i = f; i < f + n; ++i)
            if (text[i] != '\n' && text[i] != '\r') k = m.advance(k, text[i]);
          badn("columns()", x.columns(), k - k0);
          break;
        }
        case 6: // last column, inclusive
        {
          size_t want = m.col(f + n);
          if (n == 0) want = m.col(f);
          else if (want > 0) --want;
          badn("columno_end()", x.columno_end(), want);
          break;
        }
        case 7: badn("first()", x.first(), f); badn("last()", x.last(), f + n); badn("size()", x.size(), n); break;
        case 8: { std::string l = x.line(); if (l != text.substr(bol, eol - bol)) bad("line()", show(l), show(text.substr(bol, eol - bol))); break; }
        case 9:
        {
          std::wstring w;
          if (!widen(text.substr(bol, eol - bol), w)) break;
          if (x.wline() != w) bad("wline()", show(x.line()), show(text.substr(bol, eol - bol)));
          break;
        }
        case 10:
        {
          const char *e = x.eol();
          const char *b = x.bol();
          std::string l = e < b ? std::string("?") : std::string(b, static_cast<size_t>(e - b));
          if (f + n - bol < l.size() && l[f + n - bol] == '\0') l[f + n - bol] = text[f + n]; // text() terminated the match
          if (l != text.substr(bol, eol - bol)) bad("bol()..eol()", fmt("%ld bytes", static_cast<long>(e - b)), show(text.substr(bol, eol - bol)));
          break;
        }
        case 11:
        {
          const char *e = x.eol(true);
          const char *b = x.bol();
          size_t want = eol - bol + (eol < text.size());
          badn("eol(true) - bol()", static_cast<size_t>(e - b), want);
          break;
        }
        case 12: { const char *p = x.text(); if (std::string(p, n) != text.substr(f, n) || p[n] != '\0') bad("text()", show(p), show(text.substr(f, n))); break; }
        case 13: if (x.str() != text.substr(f, n)) bad("str()", show(x.str()), show(text.substr(f, n))); break;
        case 14:
        {
          size_t w = 0;
          for (size_t i = f; i < f + n; ++i) w += (text[i] & 0xC0) != 0x80;
          badn("wsize()", x.wsize(), w);
          break;
        }
        case 15: if (n > 0 && (x.chr() & 0xFF) != static_cast<unsigned char>(text[f])) bad("chr()", fmt("%d", x.chr()), fmt("%d", text[f])); break;
        case 16:
        {
          if (method == 2) break;
          bool want = n == 0 ? f == 0 || text[f - 1] == '\n' : text[f + n - 1] == '\n';
          if (x.at_bol() != want) bad("at_bol()", x.at_bol() ? "true" : "false", want ? "true" : "false");
          if (x.at_bob()) bad("at_bob()", "true", "false");
          break;
        }
        case 17:
          if (method == 2) break;
          if (x.at_end() != (f + n == text.size())) bad("at_end()", x.at_end() ? "true" : "false", f + n == text.size() ? "true" : "false");
          break;
        case 18:
        {
          if (!s.chance(1, 4)) break;
          size_t l = s.below(1000);
          x.lineno(l);
          lineshift = static_cast<int64_t>(l) - static_cast<int64_t>(line);
          break;
        }
        case 19:
        {
          if (method == 2 || !s.chance(1, 3)) break;
          std::string want = text.substr(bol, eol - bol);
          const char *p = x.span();
          if (x.size() != want.size() || std::string(p, want.size()) != want || p[want.size()] != '\0')
            bad("span()", show(x.str()), show(want));
          badn("first() after span()", x.first(), bol);
          badn("lineno() after span()", x.lineno(), static_cast<size_t>(static_cast<int64_t>(line) + lineshift));
          badn("columno() after span()", x.columno(), 0);
          prev = eol;
          spanned = true;
          break;
        }
        case 20:
        {
          std::pair<size_t,std::string> p = x.pair();
          if (p.first != x.accept() || p.second != text.substr(f, n)) bad("pair()", show(p.second), show(text.substr(f, n)));
          if (!(x == text.substr(f, n)) || x != text.substr(f, n) || x == text.substr(f, n) + "x" || !(x != text.substr(f, n) + "x")) bad("==", "false", "true");
          if (text.substr(f, n).find('\0') == std::string::npos)
          {
            if (!(x == text.substr(f, n).c_str()) || x != text.substr(f, n).c_str() || x == (text.substr(f, n) + "x").c_str()) bad("== char*", "false", "true");
          }
          break;
        }
        default:
        {
          std::wstring w;
          if (!widen(text.substr(f, n), w)) break;
          if (x.wstr() != w) bad("wstr()", show(x.str()), show(text.substr(f, n)));
          if (!w.empty() && x.wchr() != w[0]) bad("wchr()", fmt("%d", x.wchr()), fmt("%d", w[0]));
        }
      }
    }
    if (!logger.error.empty())
      bad("buffer shift handler", logger.error, "contiguous pieces");
    if (method == 1 && n == 0 && !spanned)
      bad("find()", "empty", "non-empty");
  }
  if (log && text.compare(0, logger.log.size(), logger.log) != 0)
    bad("buffer shift handler data", "different", "the input");
  if (file) fclose(file);
  s.label(method == 0 ? "scan" : method == 1 ? "find" : "split");
  if (big && !logger.log.empty()) s.label("shifted");
  if (matches > 1 && m.nl.size() > 0)
    s.nontrivial(hash_str(regex) ^ hash_str(text.size() > 4000 ? text.substr(0, 4000) : text) ^ tab ^ blk);
}
static void small_case(Source& s) { run(s, false); }
static void big_case(Source& s) { run(s, true); }

std::vector<Part> pbt::parts()
{
  return { { "small", small_case, 40000, 3000000, 20 }, { "big", big_case, 120, 8000, 90 } };
}
PBT_MAIN
