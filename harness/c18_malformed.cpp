// C18: malformed regexes are rejected with regex_error at a position in the regex, and no regex
// makes the parsers, the converter or the matcher misbehave.
#include "ast.h"
#include <reflex/matcher.h>
#include <reflex/boostmatcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/stdmatcher.h>

using namespace pbt;
using ast::Node;
namespace cf = reflex::convert_flag;

// ---- arbitrary regexes: tokens of the syntax in any order -----------------------------------

static std::string soup(Source& s, int avg)
{
  static const char *tok[] = {
    "a", "b", "ab", "0", " ", "-", "^", "$", "|", "(", ")", "[", "]", "{", "}", "*", "+", "?", ".", "\\", "\"", "/", "#", ",", "=", "!", ":", "<", ">",
    "(?", "(?:", "(?=", "(?!", "(?<=", "(?<!", "(?^", "(?#", "(?i)", "(?i:", "(?s-m:", "(?-q:", "(?x:", "(?q)", "(?u:", "(?z:", "(?<n>", "(?P=n)", "(?P<n>", "(?&n)", "(?1)", "(?R)", "(*X)", "(?|", "(?>", "(?'n'",
    "[^", "[a-z]", "[z-a]", "[]", "[^]", "[]a]", "[a-", "[[:", ":]", "[:alpha:]", "[[:alpha:]]", "[[:bogus:]]", "[[.a.]]", "[[=a=]]", "[[.", "[[=", "||[", "&&[", "--[", "&&", "--", "~~", "[a&&[b]]", "[\\", "[\\]", "[\\w-", "[a-\\d]",
    "{1", "{1,", "{1,2}", "{0}", "{0,0}", "{,2}", "{2,1}", "{3}", "{1,}", "{65535}", "{65536}", "{70000}", "{1,70000}", "{99999999}", "{n}", "{name}", "{name", "{+}", "{-}", "{}", "{ 1 }", "{1}{2}", "{2}?", "{1,3}+",
    "*?", "+?", "??", "**", "*+", "++", "?+", "+*",
    "\\a", "\\b", "\\B", "\\A", "\\z", "\\Z", "\\<", "\\>", "\\i", "\\j", "\\k", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "\\h", "\\H", "\\l", "\\L", "\\u", "\\U", "\\n", "\\N", "\\r", "\\R", "\\x", "\\X", "\\e", "\\E", "\\Q", "\\Qa.b\\E", "\\Q\\E", "\\K", "\\G", "\\g", "\\y", "\\0", "\\1", "\\12", "\\377", "\\400", "\\0777", "\\9", "\\c", "\\cA", "\\c\\", "\\x4", "\\x41", "\\xff", "\\x{", "\\x{}", "\\x{41", "\\x{41}", "\\x{3b1}", "\\x{10FFFF}", "\\x{110000}", "\\x{ffffffffff}", "\\x{d800}", "\\xzz", "\\o", "\\o{", "\\o{101}", "\\o{8}", "\\u{", "\\u{3b1}", "\\u0041", "\\ud83d\\ude00", "\\ud83d", "\\u004", "\\U0001F600", "\\p", "\\p{", "\\p{}", "\\p{L", "\\p{L}", "\\p{Lu}", "\\P{Lu}", "\\p{^Lu}", "\\p{Greek}", "\\p{Space}", "\\P{Alpha}", "\\p{IsGreek}", "\\p{Bogus}", "\\pL", "\\PN", "\\p{Spacex}", "\\_",
    "\xce\xb1", "\xce", "\xb1", "\xf0\x9f\x98\x80", "\xff", "\xc0\x80", "\xed\xa0\x80", "\n", "\t", "\r\n", "\"a", "\"a\"", "\"\"", "\"\\\"\"", "\\\"", "\\/", "a/b", "^a", "a$", "[a-z", "[\"]", "(a", "a)", "a|b", "|a", "a|", "a||b", "()", "(|a)", "(a|)", "{name}*", "[{name}]", "[{lst}]", "[^{lst}||a]"
  };
  std::string r;
  do
  {
    if (s.chance(1, 12))
      r += static_cast<char>(s.flip() ? 1 + s.below(255) : 32 + s.below(95));
    else
      r += tok[s.below(static_cast<uint32_t>(sizeof(tok) / sizeof(tok[0])))];
  } while (s.more(avg));
  if (s.chance(1, 200))
    r.insert(s.below(static_cast<uint32_t>(r.size() + 1)), 1, '\0');
  return r;
}

// a valid regex cut, spliced or with characters changed
static std::string mangled(Source& s)
{
  ast::Dialect d;
  ast::Gen g(s, d);
  for (int i = 0; i < 4; ++i)
    g.alpha.push_back("abcxyzABC01_ -*."[s.below(16)]);
  if (s.flip()) { g.init.u = true; g.alpha.push_back(0x3B1); }
  Node n;
  std::string t = g.alt(g.init, n, 2);
  if (t.size() > 200) t.resize(200);
  unsigned k = 1 + s.below(3);
  while (k--)
  {
    size_t p = s.below(static_cast<uint32_t>(t.size() + 1));
    switch (s.below(5))
    {
      case 0: t.erase(p); break;
      case 1: if (p < t.size()) t.erase(p, 1); break;
      case 2: t.insert(p, 1, "()[]{}\\|*+?^$.\"-/:=!<>#,x"[s.below(25)]); break;
      case 3: t.insert(p, soup(s, 1)); break;
      default: t.erase(0, p);
    }
  }
  return t;
}

static std::string any_regex(Source& s)
{
  std::string r = s.chance(1, 3) ? mangled(s) : soup(s, 5);
  return r;
}

static std::string pattern_options(Source& s, bool& r)
{
  std::string o;
  if (s.chance(1, 5)) o += 'i';
  if (s.chance(1, 5)) o += 'm';
  if (s.chance(1, 5)) o += 's';
  if (s.chance(1, 5)) o += 'x';
  if (s.chance(1, 5)) o += 'q';
  if (s.chance(1, 8)) o += 'b';
  if (s.chance(1, 12)) o += "e=%;";
  r = !s.chance(1, 4);
  if (r) o += 'r';
  return o;
}

// texts with more than 255 lazy repeats or huge repeats are within the documented complexity limits
static bool huge(const std::string& r)
{
  // products of bounds that make large automata (cost only)
  double p = 1;
  for (size_t i = 0; i + 1 < r.size(); ++i)
    if (r[i] == '{' && (isdigit(static_cast<unsigned char>(r[i + 1])) || r[i + 1] == ','))
    {
      long a = strtol(r.c_str() + i + 1, NULL, 10);
      const char *c = strchr(r.c_str() + i + 1, ',');
      const char *e = strchr(r.c_str() + i + 1, '}');
      if (c && e && c < e) { long b = strtol(c + 1, NULL, 10); if (b > a) a = b; }
      if (a > 1 && a <= 65535) p *= static_cast<double>(a);
      if (a > 65535) p *= 1; // rejected
    }
  return p > 300 || p * static_cast<double>(r.size()) > 3000;
}

static void use(const reflex::Pattern& pat, const std::string& text)
{
  static const char *opts[] = { "", "N", "A", "W", "T=4", "AN" };
  for (int k = 0; k < 6; ++k)
  {
    reflex::Matcher m(pat, reflex::Input(text.data(), text.size()), opts[k]);
    size_t n = 0;
    while (m.find() && m.size() + 1 > 0)
    {
      if (m.accept() == 0)
        fail("accept", "find() != 0 with accept() == 0");
      if (m.first() + m.size() > text.size())
        fail("bounds", fmt("match at %zu of size %zu in a text of %zu", m.first(), m.size(), text.size()));
      if (text.compare(m.first(), m.size(), m.begin(), m.size()) != 0)
        fail("text", fmt("match at %zu of size %zu is not the text there", m.first(), m.size()));
      if (++n > 2 * text.size() + 4)
        fail("progress", std::string("find() with options '") + opts[k] + "' does not get to the end of the text");
    }
    m.input(reflex::Input(text.data(), text.size()));
    (void)m.matches();
    m.input(reflex::Input(text.data(), text.size()));
    n = 0;
    while (m.scan() || (!m.at_end() && m.input() != EOF))
      if (++n > 2 * text.size() + 4)
        fail("progress", "scan() does not get to the end of the text");
  }
}

static std::string text_for(Source& s, const std::string& regex)
{
  std::string t;
  unsigned n = 1 + s.below(12);
  while (n--)
    switch (s.below(4))
    {
      case 0: if (!regex.empty()) { t += regex[s.below(static_cast<uint32_t>(regex.size()))]; break; } // fall through
      case 1: t += "ab0 -\n\t.*"[s.below(9)]; break;
      case 2: t += "\xce\xb1"; break;
      default: t += "aab";
    }
  return t;
}

// Pattern with an arbitrary regex
static void pattern_case(Source& s)
{
  bool r;
  std::string o = pattern_options(s, r);
  std::string regex = any_regex(s);
  s.note("options", show(o));
  s.note("regex", show(regex));
  if (huge(regex))
    discard();
  std::string text = text_for(s, regex);
  s.note("text", show(text));
  int res[2] = { -2, -2 };
  std::string code[2];
  for (int k = 0; k < 2; ++k)
  {
    doing() = "constructing the pattern";
    try
    {
      reflex::Pattern pat(regex, o.c_str());
      res[k] = -1;
      doing() = "matching with the pattern";
      if (k == 0)
        use(pat, text);
      code[k] = fmt("%zu %zu %zu", pat.size(), pat.nodes(), pat.words());
    }
    catch (reflex::regex_error& e)
    {
      res[k] = static_cast<int>(e.code());
      if (e.pos() > regex.size())
        fail("error position", fmt("regex_error %d at %zu in a regex of %zu bytes", (int)e.code(), e.pos(), regex.size()));
      if (!r && e.code() != reflex::regex_error::exceeds_limits && e.code() != reflex::regex_error::exceeds_length)
        fail("unasked error", std::string("regex_error thrown without option r: ") + e.what());
      if (*e.what() == '\0')
        fail("message", "regex_error without a message");
      code[k] = fmt("%d at %zu: %s", (int)e.code(), e.pos(), e.what());
    }
  }
  if (res[0] != res[1] || code[0] != code[1])
    fail("not deterministic", "the same regex gives " + code[0] + " and then " + code[1]);
  s.label(res[0] == -1 ? "Pattern: accepted" : fmt("Pattern: error %d", res[0]).c_str());
  s.nontrivial(hash_str(regex + "\x01" + o));
}

// convert() with an arbitrary regex
static void convert_case(Source& s)
{
  static const int flag[] = { cf::unicode, cf::anycase, cf::dotall, cf::freespace, cf::lex, cf::u4, cf::notnewline, cf::permissive, cf::recap, cf::basic, cf::multiline };
  int flags = 0;
  for (size_t i = 0; i < sizeof(flag) / sizeof(flag[0]); ++i)
    if (s.chance(1, i == 0 ? 2 : 5))
      flags |= flag[i];
  std::string regex = any_regex(s);
  int which = static_cast<int>(s.below(6));
  static const char *cls[] = { "Matcher", "BoostMatcher", "BoostPosixMatcher", "PCRE2Matcher", "PCRE2UTFMatcher", "StdMatcher" };
  static const char *sig[] = { "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?", "imPRsx!#<>=&'(0123456789:abcdefghklnrstuvwxzABCDHLNQSUWZ0123456789<>?+", "imsx!#<=:abcdefghlnrstuvwxzABDHLNQSUWZ0<>",
    "imPRsx!#<>=&|'(0123456789*:abcdefghnrstvwxzABCDGHKNQRSVWXZ0123456789?+", "imPRsx!#<>=&|'(0123456789*:abcdefghknprstvwxzABCDGHKNPQRSVWXZ0123456789?+", "!=:bcdfnrstvwxBDSW?" };
  s.note("class", cls[which]);
  s.note("flags", fmt("%x", flags));
  s.note("regex", show(regex));
  std::map<std::string,std::string> macros;
  macros["name"] = "(?:xyz)";
  macros["n"] = "a|b";
  macros["lst"] = "[pqr]";
  bool pass = s.flip();
  std::string res[2];
  bool ok[2] = { false, false };
  for (int k = 0; k < 2; ++k)
  {
    doing() = "converting the regex";
    try
    {
      const std::map<std::string,std::string> *m = pass ? &macros : NULL;
      reflex::convert_flag_type f = flags;
      // in memory of exactly its size
      std::vector<char> exact(regex.c_str(), regex.c_str() + strlen(regex.c_str()) + 1);
      exact.shrink_to_fit();
      const char *rex = exact.data();
      if (m)
        res[k] = reflex::convert(rex, sig[which], f, m);
      else switch (which)
      {
        case 0: res[k] = reflex::Matcher::convert(rex, f); break;
        case 1: res[k] = reflex::BoostMatcher::convert(rex, f); break;
        case 2: res[k] = reflex::BoostPosixMatcher::convert(rex, f); break;
        case 3: res[k] = reflex::PCRE2Matcher::convert(rex, f); break;
        case 4: res[k] = reflex::PCRE2UTFMatcher::convert(rex, f); break;
        default: res[k] = reflex::StdMatcher::convert(rex, f);
      }
      ok[k] = true;
    }
    catch (reflex::regex_error& e)
    {
      // a position in a definition that was expanded is not in the regex
      if (e.pos() > regex.size() && !pass)
        fail("error position", fmt("regex_error %d at %zu in a regex of %zu bytes", (int)e.code(), e.pos(), regex.size()));
      if (*e.what() == '\0')
        fail("message", "regex_error without a message");
      res[k] = fmt("%d at %zu: %s", (int)e.code(), e.pos(), e.what());
      if (k == 0) s.label(fmt("convert: error %d", (int)e.code()).c_str());
    }
  }
  if (ok[0] != ok[1] || res[0] != res[1])
    fail("not deterministic", "the same regex gives " + show(res[0]) + " and then " + show(res[1]));
  if (ok[0])
  {
    s.label("convert: accepted");
    if (which == 0 && !huge(res[0]) && res[0].size() < 500)
    {
      s.note("converted", show(res[0]));
      doing() = "constructing a pattern from the converted regex";
      try
      {
        reflex::Pattern pat(res[0], "r");
        use(pat, text_for(s, regex));
        s.label("convert: accepted by Pattern");
      }
      catch (reflex::regex_error& e)
      {
        if (e.pos() > res[0].size())
          fail("error position", fmt("regex_error %d at %zu in a regex of %zu bytes", (int)e.code(), e.pos(), res[0].size()));
        s.label(fmt("convert: then Pattern error %d", (int)e.code()).c_str());
      }
    }
  }
  s.nontrivial(hash_str(regex + "\x01" + cls[which] + fmt("%x", flags)));
}

// ---- regexes with exactly one error ----------------------------------------------------------

struct Bad { const char *t; const char *codes; int who; }; // who: 1 Pattern, 2 convert
#define E(x) reflex::regex_error::x

static void reject_case(Source& s)
{
  // a valid prefix and suffix that cannot complete or hide the error
  static const char *pre[] = { "", "a", "ab*", "(a|b)c", "[a-z]+", "x{2}", "\\d", "a|b", "(?i:x)y", "\\Qa.b\\E", ".", "\\x41", "(?#note)a", "long text before ", "a+?b", "[^a-z]", "\\(" , "\\[" };
  static const char *post[] = { "", "a", "|b", "b*", "c+d", "(e|f)", " tail of the text" };
  struct B { const char *t; int code; int code2; int who; bool tail; }; // tail: nothing may follow
  static const std::vector<B> bad = {
    { "(a", E(mismatched_parens), -1, 3, true }, { "(?:a", E(mismatched_parens), -1, 3, true }, { "(a|(b)", E(mismatched_parens), -1, 3, true }, { "(?i:a", E(mismatched_parens), -1, 3, true },
    { "a)", E(mismatched_parens), -1, 3, false }, { "(a))", E(mismatched_parens), -1, 3, false },
    { "[a", E(mismatched_brackets), E(invalid_class), 3, true }, { "[^a-z", E(mismatched_brackets), E(invalid_class), 3, true }, { "[", E(mismatched_brackets), E(empty_class), 3, true }, { "[a\\]", E(mismatched_brackets), E(invalid_class), 3, true }, { "[[:alpha:]", E(mismatched_brackets), E(invalid_class), 3, true },
    { "\\Qa", E(mismatched_quotation), -1, 3, true }, { "\\Qa\\", E(mismatched_quotation), -1, 3, true }, { "\\Q", E(mismatched_quotation), -1, 3, true },
    { "[z-a]", E(invalid_class_range), -1, 3, false }, { "[b-a]", E(invalid_class_range), -1, 3, false }, { "[x0-9z-y]", E(invalid_class_range), -1, 3, false }, { "[\\x42-\\x41]", E(invalid_class_range), -1, 3, false }, { "[a-\\d]", E(invalid_class_range), -1, 2, false },
    { "a{2,1}", E(invalid_repeat), -1, 3, false }, { "a{10,9}", E(invalid_repeat), -1, 3, false }, { "(ab){3,0}", E(invalid_repeat), -1, 3, false }, { "a{1", E(invalid_repeat), E(mismatched_braces), 3, true }, { "a{1,2", E(invalid_repeat), E(mismatched_braces), 3, true }, { "a{1;}", E(invalid_repeat), -1, 3, false },
    { "a{65536}", E(exceeds_limits), E(invalid_repeat), 1, false }, { "a{70000}", E(exceeds_limits), E(invalid_repeat), 1, false }, { "a{1,70000}", E(exceeds_limits), E(invalid_repeat), 1, false }, { "a{1,65536}", E(exceeds_limits), E(invalid_repeat), 1, false }, { "a{131073}", E(exceeds_limits), E(invalid_repeat), 1, false }, { "a{2,131075}", E(exceeds_limits), E(invalid_repeat), 1, false },
    { "[[:bogus:]]", E(invalid_class), -1, 3, false }, { "[a[:alph:]]", E(invalid_class), -1, 3, false }, { "\\p{Bogus}", E(invalid_class), -1, 3, false }, { "[\\p{Bogus}]", E(invalid_class), -1, 3, false }, { "\\P{bogus_name}", E(invalid_class), -1, 2, false },
    { "\\p{Alpha", E(invalid_class), E(invalid_escape), 1, true }, { "\\p{Alpha", E(mismatched_braces), -1, 2, true }, { "\\x{41", E(invalid_escape), E(mismatched_braces), 3, true }, { "\\x{zz}", E(invalid_escape), E(invalid_class), 3, false },
    { "(?z:a)", E(invalid_modifier), E(invalid_syntax), 3, false }, { "(?k)", E(invalid_modifier), E(invalid_syntax), 3, false },
        { "\\", E(invalid_escape), E(invalid_syntax), 3, true }, { "a\\", E(invalid_escape), E(invalid_syntax), 3, true },
  };
  const B& b = bad[s.below(static_cast<uint32_t>(bad.size()))];
  std::string p = pre[s.below(sizeof(pre) / sizeof(pre[0]))];
  std::string q = b.tail ? "" : post[s.below(sizeof(post) / sizeof(post[0]))];
  unsigned depth = b.tail ? 0 : s.below(3);
  std::string l, r;
  while (depth--)
    if (s.flip()) { l += "("; r += ")"; } else { l += "(?:x|"; r += ")*"; }
  if (strchr(b.t, ')') && b.code == E(mismatched_parens)) l = r = "";
  std::string regex = l + p + b.t + q + r;
  s.note("regex", show(regex));
  s.note("error", fmt("%s: code %d or %d", b.t, b.code, b.code2));
  std::string did;
  for (int who = 1; who <= 2; who <<= 1)
  {
    if (!(b.who & who))
      continue;
    const char *name = who == 1 ? "Pattern" : "convert()";
    doing() = name;
    bool thrown = false;
    try
    {
      if (who == 1)
        reflex::Pattern pat(regex, "r");
      else
        did = reflex::Matcher::convert(regex, b.t[0] == '{' ? cf::lex : s.flip() ? cf::unicode : cf::none);
    }
    catch (reflex::regex_error& e)
    {
      thrown = true;
      if (e.code() != b.code && e.code() != b.code2)
        fail("other error", std::string(name) + " reports another error: " + e.what());
      if (e.pos() > regex.size())
        fail("error position", fmt("%s: regex_error at %zu in a regex of %zu bytes", name, e.pos(), regex.size()));
      // not before the erroneous part, up to the group that contains it
      if (e.pos() < l.size())
        fail("error position", fmt("%s: the error is reported at %zu, before the group with the error at %zu", name, e.pos(), l.size() + p.size()));
      if (!b.tail && e.pos() > l.size() + p.size() + strlen(b.t) + 1)
        fail("error position", fmt("%s: the error is reported at %zu, beyond the error at %zu", name, e.pos(), l.size() + p.size()));
    }
    if (!thrown)
      fail("accepted", std::string(name) + " does not reject the regex" + (who == 2 ? ": converted to " + show(did) : ""));
  }
  s.label(b.t);
  s.nontrivial(hash_str(regex));
}

std::vector<Part> pbt::parts()
{
  return {
    { "reject", reject_case, 12000, 200000, 10 },
    { "pattern", pattern_case, 40000, 1500000, 20 },
    { "convert", convert_case, 40000, 1500000, 20 },
  };
}
PBT_MAIN
