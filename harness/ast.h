// ast.h - generated regex syntax trees with their text in the documented syntax, and their meaning over bytes
#ifndef AST_H
#define AST_H
#include "ucd.h"
#include <map>
#include <set>

namespace ast {

using pbt::Source;
using ucd::Ranges;

// a node: matches from byte position i to a set of end positions
struct Node {
  enum Type { SET, DOT, ANY, BRK, SEQ, ALT, REP } t = SEQ;
  Ranges r;                 // SET
  bool uni = false;         // SET, DOT: characters are UTF-8 encoded
  bool nl = false;          // DOT matches newline
  int min = 0, max = 0;     // REP, max < 0: no bound
  std::vector<Node> k;
};

// length of the valid UTF-8 character at i (code in c), zero when there is none
inline size_t decode(const std::string& s, size_t i, int& c)
{
  if (i >= s.size()) return 0;
  auto b = [&](size_t k) { return k < s.size() ? static_cast<unsigned char>(s[k]) : 0u; };
  unsigned a = b(i);
  auto cont = [&](size_t k) { return k < s.size() && (b(k) & 0xC0) == 0x80; };
  if (a < 0x80) { c = static_cast<int>(a); return 1; }
  if (a >= 0xC2 && a <= 0xDF && cont(i + 1)) { c = static_cast<int>((a & 0x1F) << 6 | (b(i + 1) & 0x3F)); return 2; }
  if (a >= 0xE0 && a <= 0xEF && cont(i + 1) && cont(i + 2))
  {
    c = static_cast<int>((a & 0xF) << 12 | (b(i + 1) & 0x3F) << 6 | (b(i + 2) & 0x3F));
    return c >= 0x800 && !(c >= 0xD800 && c <= 0xDFFF) ? 3 : 0;
  }
  if (a >= 0xF0 && a <= 0xF4 && cont(i + 1) && cont(i + 2) && cont(i + 3))
  {
    c = static_cast<int>((a & 7) << 18 | (b(i + 1) & 0x3F) << 12 | (b(i + 2) & 0x3F) << 6 | (b(i + 3) & 0x3F));
    return c >= 0x10000 && c <= 0x10FFFF ? 4 : 0;
  }
  return 0;
}

typedef uint64_t Mask; // set of positions, texts of at most 62 bytes

// strict: what must be matched; loose: what may be matched (dot and \X also take invalid UTF-8 and parts of characters)
struct Eval {
  const std::string& s;
  bool loose;
  Eval(const std::string& text, bool l) : s(text), loose(l) { }
  Mask one(const Node& n, size_t i) const
  {
    if (i >= s.size()) return 0;
    unsigned b = static_cast<unsigned char>(s[i]);
    int c = 0;
    size_t len;
    Mask m = 0;
    switch (n.t)
    {
      case Node::SET:
        if (!n.uni) return ucd::in(n.r, static_cast<int>(b)) ? Mask(1) << (i + 1) : 0;
        len = decode(s, i, c);
        return len && ucd::in(n.r, c) ? Mask(1) << (i + len) : 0;
      case Node::DOT:
        if (b == '\n' && !n.nl) return 0;
        if (!n.uni) return Mask(1) << (i + 1);
        len = decode(s, i, c);
        if (len) m = Mask(1) << (i + len);
        if (loose)
        {
          size_t j = i + 1;
          m |= Mask(1) << j;
          while (j < s.size() && (s[j] & 0xC0) == 0x80) m |= Mask(1) << ++j;
        }
        return m;
      case Node::ANY:
        len = decode(s, i, c);
        if (len) m = Mask(1) << (i + len);
        if (loose || !n.uni) m |= Mask(1) << (i + 1);
        return m;
      case Node::BRK:
        if (b == '\r' && i + 1 < s.size() && s[i + 1] == '\n') m |= Mask(1) << (i + 2);
        if (b >= 10 && b <= 13) m |= Mask(1) << (i + 1);
        len = decode(s, i, c);
        if (len && (c == 0x85 || c == 0x2028 || c == 0x2029)) m |= Mask(1) << (i + len);
        return m;
      default:
        return 0;
    }
  }
  Mask ends(const Node& n, Mask from) const
  {
    Mask to = 0;
    switch (n.t)
    {
      case Node::SEQ:
        for (const Node& k : n.k) { from = ends(k, from); if (!from) break; }
        return from;
      case Node::ALT:
        for (const Node& k : n.k) to |= ends(k, from);
        return to;
      case Node::REP:
      {
        Mask cur = from;
        if (n.min == 0) to = from;
        Mask seen = n.min == 0 ? from : 0;
        for (int i = 1; n.max < 0 || i <= n.max; ++i)
        {
          cur = ends(n.k[0], cur);
          if (!cur) break;
          if (i >= n.min) { to |= cur; if (n.max < 0) { cur &= ~seen; seen |= cur; if (!cur) break; } }
          if (i > 200) break;
        }
        return to;
      }
      default:
        for (size_t i = 0; i < s.size(); ++i)
          if (from >> i & 1) to |= one(n, i);
        return to;
    }
  }
  bool matches(const Node& n) const { return ends(n, 1) >> s.size() & 1; }
};

// documented restrictions of a regex library, and converter flags
struct Dialect {
  bool utf = true;        // Unicode mode
  bool setops = true;     // || && -- in lists
  bool modi = true;       // (?i:...) etc.
  bool brk = true;        // \R
  bool any = true;        // \X
  bool quoted = true;     // \Q..\E
  bool comment = true;    // (?#...)
  bool ascii = false;     // only ASCII text
  bool nodot = false;     // no dot
};

struct Ctx { bool i = false, s = false, u = false, x = false; };

struct Gen {
  Source& s;
  const Dialect& d;
  bool spec = false; // in a lexer specification: no spacing outside of lists and quotations, no line breaks
  bool lex = false, u4 = false, basic = false, notnl = false, xflag = false;
  std::vector<int> alpha;      // characters used (bytes when not Unicode)
  std::map<std::string,std::pair<std::string,Node> > macros; // name -> text, node
  std::map<std::string,std::pair<std::string,Ranges> > lists;
  Ctx init;
  Gen(Source& src, const Dialect& dialect) : s(src), d(dialect) { }

  static bool meta(int c) { return c < 0x80 && c > 0 && strchr("$()*+.?[\\]^{|}", c) != NULL; }
  std::string raw(int c, bool u) const { return u ? ucd::enc(c) : std::string(1, static_cast<char>(c)); }
  std::string escaped_code(int c, const Ctx& cx, bool list)
  {
    // all spellings of the code of a character
    switch (s.weighted({ 3, 3, 2, list ? 0u : 2u, 2, 2, 1, 1 }))
    {
      case 0: if (c <= 0xFF) return pbt::fmt(s.flip() ? "\\x%02x" : "\\x%02X", c); return pbt::fmt("\\x{%X}", c);
      case 1: return pbt::fmt(s.flip() ? "\\x{%x}" : "\\x{%04X}", c);
      case 2: return pbt::fmt(s.flip() ? "\\u{%x}" : "\\u{%04X}", c);
      case 3: return pbt::fmt("\\o{%o}", c);
      case 4: if (c <= 0xFF) return pbt::fmt("\\0%03o", c); break;
      case 5: if (lex && c <= 0xFF && c >= 0100) return pbt::fmt("\\%03o", c); break;
      case 6:
        if (u4 && cx.u)
        {
          if (c <= 0xFFFF) return pbt::fmt("\\u%04x", c);
          if (!list) return pbt::fmt("\\u%04x\\u%04x", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + (c & 0x3FF));
        }
        break;
      default:
        if (c >= 1 && c <= 26) return std::string("\\c") + static_cast<char>(c + 64);
        if (c == 0x1B) return "\\e";
    }
    return c <= 0xFF ? pbt::fmt("\\x%02x", c) : pbt::fmt("\\x{%x}", c);
  }
  // text of character c, outside of lists
  std::string spell(int c, const Ctx& cx)
  {
    static const char *ctl = "\a\b\t\n\v\f\r";
    if (c == 0)
      return s.flip() ? "\\x00" : "\\x{0}";
    if (s.chance(1, 4))
      return escaped_code(c, cx, false);
    if (c >= 7 && c <= 13 && c != 8 && s.chance(2, 3))
      return std::string("\\") + "abtnvfr"[strchr(ctl, c) - ctl];
    if (c < 0x20 || c == 0x7F)
      return c == '\n' && !cx.x && !basic && !spec && s.flip() ? "\n" : escaped_code(c, cx, false);
    if (c == ' ')
      return cx.x || spec ? s.flip() ? "[ ]" : "\\x20" : " ";
    if (basic && strchr("+?|(){}", c) && c < 0x80)
      return std::string(1, static_cast<char>(c));
    if (meta(c))
      return std::string("\\") + static_cast<char>(c);
    if (c == '#')
      return cx.x ? (s.flip() ? "\\#" : "[#]") : s.flip() ? "#" : "\\#";
    if (lex && (c == '"' || c == '/'))
      return std::string("\\") + static_cast<char>(c);
    if (c < 0x80 && strchr("!\"%&,-/:;@~", c) && s.chance(1, 3))
      return std::string("\\") + static_cast<char>(c);
    return raw(c, cx.u);
  }
  static void fold(Ranges& r)
  {
    Ranges add;
    for (auto& p : r)
      for (int c = std::max<int>(p.first, 'A'); c <= std::min<int>(p.second, 'z'); ++c)
        if (isalpha(c)) add.push_back(std::make_pair(c ^ 0x20, c ^ 0x20));
    r.insert(r.end(), add.begin(), add.end());
    r = ucd::norm(r);
  }
  static Ranges minus(const Ranges& a, const Ranges& b) { return inter(a, ucd::complement(b)); }
  static Ranges inter(const Ranges& a, const Ranges& b)
  {
    Ranges o;
    for (auto& p : a)
      for (auto& q : b)
      {
        int lo = std::max(p.first, q.first), hi = std::min(p.second, q.second);
        if (lo <= hi) o.push_back(std::make_pair(lo, hi));
      }
    return ucd::norm(o);
  }
  Ranges all(const Ctx& cx) const { if (cx.u) return { { 0, 0xD7FF }, { 0xE000, 0x10FFFF } }; return { { 0, 0xFF } }; }
  Node set(const Ranges& r, const Ctx& cx) const { Node n; n.t = Node::SET; n.r = r; n.uni = cx.u; if (cx.i) fold(n.r); return n; }
  Node lit(int c, const Ctx& cx) const { return set({ { c, c } }, cx); }
  int chr(const Ctx& cx) { int c = s.pick(alpha); return !cx.u && c > 0xFF ? 0xE9 : c; }

  // \d \p{..} etc., text in t
  bool category(const Ctx& cx, std::string& t, Ranges& r)
  {
    static const std::vector<std::string> uninames = { "L", "Lu", "Ll", "Nd", "N", "P", "S", "Z", "Zs", "M", "Greek", "Latin", "Cyrillic", "Han", "IsBasicLatin", "Word", "Space", "Unicode", "Letter", "Uppercase_Letter" };
    static const std::vector<std::string> posnames = { "Alpha", "Alnum", "Digit", "Upper", "Lower", "Punct", "Cntrl", "Graph", "Print", "Blank", "XDigit", "Xdigit", "Space", "Word", "ASCII" };
    bool neg = s.chance(1, 3);
    const std::map<std::string,Ranges>& uni = ucd::tables();
    const std::map<std::string,Ranges>& pos = ucd::posix();
    switch (s.weighted({ 4, 3, 2 }))
    {
      case 0:
      {
        std::string n(1, s.pickc(u4 ? "dwslh" : "dwsluh"));
        r = cx.u && uni.count(n) ? uni.at(n) : pos.at(n);
        t = "\\" + (neg ? std::string(1, static_cast<char>(toupper(n[0]))) : n);
        if (n == "s" && notnl && !neg)
          r = minus(r, { { '\n', '\n' } });
        break;
      }
      case 1:
        if (cx.u)
        {
          std::string n = s.pick(uninames);
          r = uni.at(n);
          if (n.size() == 1 && s.flip())
            t = (neg ? "\\P" : "\\p") + n;
          else
            t = neg ? s.flip() ? "\\P{" + n + "}" : "\\p{^" + n + "}" : "\\p{" + n + "}";
          break;
        }
        // fall through
      default:
      {
        std::string n = s.pick(posnames);
        r = cx.u && uni.count(n) ? uni.at(n) : pos.at(n == "Xdigit" ? "XDigit" : n);
        t = neg ? s.flip() ? "\\P{" + n + "}" : "\\p{^" + n + "}" : "\\p{" + n + "}";
      }
    }
    if (neg)
      r = minus(all(cx), r);
    if (cx.i)
    {
      // whether \\l matches an upper case letter when case is ignored is not defined
      Ranges q = r;
      fold(q);
      if (q != r)
      {
        r = cx.u ? uni.at("Nd") : pos.at("d");
        t = "\\d";
        return false;
      }
    }
    return neg;
  }
  // list item character
  std::string spell_in(int c, const Ctx& cx)
  {
    static const char *ctl = "\a\b\t\n\v\f\r";
    if (c == 0 || s.chance(1, 4))
      return c == 0 ? s.flip() ? "\\x00" : "\\x{0}" : escaped_code(c, cx, true);
    if (c >= 7 && c <= 13 && s.chance(2, 3))
      return std::string("\\") + "abtnvfr"[strchr(ctl, c) - ctl];
    if (c == '\\' || c == ']' || c == '[' || c == '^' || c == '-' || c == '|' || c == '&' || (lex && c == '"'))
      return std::string("\\") + static_cast<char>(c);
    if (c < 0x20 || c == 0x7F)
      return escaped_code(c, cx, true);
    return raw(c, cx.u);
  }
  // list from after [ up to and including ], members in r
  std::string list(const Ctx& cx, Ranges& r, unsigned depth, bool toplevel, bool ops_ok = true)
  {
    static const std::vector<std::string> cls = { "alpha", "alnum", "digit", "upper", "lower", "punct", "space", "cntrl", "graph", "print", "blank", "xdigit", "ascii", "word" };
    for (;;)
    {
      std::string t;
      bool neg = s.chance(1, 4);
      bool first = true;
      r.clear();
      if (neg) t += "^";
      if (s.chance(1, 12)) { t += "]"; r.push_back(std::make_pair(']', ']')); first = false; }
      else if (s.chance(1, 12)) { t += "-"; r.push_back(std::make_pair('-', '-')); first = false; }
      bool last = false;
      if (first || s.flip())
      {
        do
        {
          switch (s.weighted({ 6, 4, 2, 1 }))
          {
            case 0: { int c = chr(cx); t += c == '{' ? "\\x7b" : spell_in(c, cx); r.push_back(std::make_pair(c, c)); break; }
            case 1:
            {
              int a = chr(cx), b = chr(cx);
              if (a > b) std::swap(a, b);
              if (cx.i && b < 0x80 && !((isupper(a) && isupper(b)) || (islower(a) && islower(b)) || (isdigit(a) && isdigit(b)))) b = a;
              if (cx.i && a < 0x80 && b > 0x7F) b = a;
              t += (a == '{' ? "\\x7b" : spell_in(a, cx)) + "-" + spell_in(b, cx);
              r.push_back(std::make_pair(a, b));
              last = true;
              break;
            }
            case 2: { Ranges q; std::string e; category(cx, e, q); t += e; r.insert(r.end(), q.begin(), q.end()); break; }
            default:
            {
              std::string n = s.pick(cls);
              std::string N = n == "ascii" ? "ASCII" : n == "xdigit" ? "XDigit" : std::string(1, static_cast<char>(toupper(n[0]))) + n.substr(1);
              bool ng = s.chance(1, 4);
              Ranges q = ucd::posix().at(N);
              if (ng) q = minus(all(cx), q);
              t += "[:" + std::string(ng ? "^" : "") + n + ":]";
              r.insert(r.end(), q.begin(), q.end());
            }
          }
          first = false;
        } while (s.more(2));
        if (s.chance(1, 12)) { t += "-"; r.push_back(std::make_pair('-', '-')); }
      }
      (void)last;
      r = ucd::norm(r);
      if (cx.u) r = minus(r, { { 0xD800, 0xDFFF } });
      if (d.setops && ops_ok && depth > 0 && t[t.size() - 1] != '-')
        while (s.chance(1, 4))
        {
          Ranges q, f;
          std::string o;
          if (!lists.empty() && s.chance(1, 2) && same(cx, init))
          {
            auto it = lists.begin();
            std::advance(it, s.below(static_cast<uint32_t>(lists.size())));
            o = "{" + it->first + "}";
            q = it->second.second;
          }
          else
            o = "[" + list(cx, q, depth - 1, false);
          // without regard to case only lists that contain both cases have an undisputed meaning
          if (cx.i) { fold(q); fold(r); }
          switch (s.below(3))
          {
            case 0: t += "||" + o; r.insert(r.end(), q.begin(), q.end()); r = ucd::norm(r); break;
            case 1: t += "&&" + o; f = inter(r, q); r = f; break;
            default: t += "--" + o; f = minus(r, q); r = f;
          }
        }
      if (cx.i) fold(r);
      if (neg)
      {
        r = minus(all(cx), r);
        if (notnl) r = minus(r, { { '\n', '\n' } });
      }
      if (r.empty())
        pbt::discard(); // an error
      (void)toplevel;
      return t + "]";
    }
  }
  static bool same(const Ctx& a, const Ctx& b) { return a.i == b.i && a.s == b.s && a.u == b.u && a.x == b.x; }

  std::string ws(const Ctx& cx)
  {
    std::string t;
    if (cx.x)
      while (s.chance(1, 4) && (!spec || xflag))
      {
        if (spec)
        {
          t += s.pickc(" \t");
          continue;
        }
        if (s.chance(1, 4) && !(lex && xflag))
          t += s.flip() ? "# comment\n" : "#(a|[b\n";
        else
          t += s.pickc(" \t\n");
      }
    else if (d.comment && !basic && s.chance(1, 40))
      t += "(?#comment [x)";
    return t;
  }
  std::string mods(Ctx& cx, bool& any)
  {
    std::string on, off;
    any = false;
    for (const char *m = "isux"; *m; ++m)
    {
      if (!s.chance(1, 3) || (*m == 'u' && !d.utf)) continue;
      bool& b = *m == 'i' ? cx.i : *m == 's' ? cx.s : *m == 'u' ? cx.u : cx.x;
      if (*m == 'u' && b != s.flip()) continue;  // mostly keep the mode of the alphabet
      if (s.flip()) { on += *m; b = true; } else { off += *m; b = false; }
      any = true;
    }
    return on + (off.empty() ? "" : "-" + off);
  }
  std::string open() const { return basic ? "\\(" : "("; }
  std::string close() const { return basic ? "\\)" : ")"; }

  std::string atom(Ctx& cx, Node& n, unsigned depth)
  {
    switch (s.weighted({ 10, 5, 3, depth ? 5u : 0u, 2, d.quoted && !basic ? 1u : 0u, lex ? 2u : 0u, d.brk ? 1u : 0u, d.any ? 1u : 0u, macros.empty() ? 0u : 3u }))
    {
      case 0: { int c = chr(cx); n = lit(c, cx); return spell(c, cx); }
      case 1:
      {
        Ranges r;
        std::string t = "[" + list(cx, r, 2, true);
        if (lex && d.setops && !basic && s.chance(1, 5))
          do
          {
            Ranges q;
            std::string o = "[" + list(cx, q, 0, false, false);
            if (cx.i) { fold(q); fold(r); }
            switch (s.below(4))
            {
              case 0: t += "{+}" + o; r.insert(r.end(), q.begin(), q.end()); break;
              case 1: t += "{|}" + o; r.insert(r.end(), q.begin(), q.end()); break;
              case 2: t += "{&}" + o; r = inter(r, q); break;
              default: t += "{-}" + o; r = minus(r, q);
            }
            r = ucd::norm(r);
            if (r.empty()) pbt::discard();
          } while (s.chance(1, 3));
        n = set(r, cx);
        s.label("list");
        return t;
      }
      case 2: { Ranges r; std::string t; category(cx, t, r); if (r.empty()) pbt::discard(); n = set(r, cx); s.label("category"); return t; }
      case 3:
      {
        Ctx in = cx;
        std::string t;
        if (basic)
          return open() + alt(in, n, depth - 1) + close();
        bool any;
        switch (s.weighted({ 3, 2, d.modi ? 3u : 0u, d.modi ? 1u : 0u }))
        {
          case 0: t = "("; break;
          case 1: t = "(?:"; break;
          case 2: t = "(?" + mods(in, any) + ":"; s.label("modified group"); break;
          default:
          {
            std::string m = mods(in, any);
            t = any ? "((?" + m + ")" : "(";
            if (any) s.label("directive in group");
          }
        }
        t += alt(in, n, depth - 1) + ")";
        return t;
      }
      case 4:
        if (d.nodot || s.chance(1, 3))
        {
          n.t = Node::DOT; n.uni = cx.u; n.nl = false;
          return "\\N";
        }
        n.t = Node::DOT; n.uni = cx.u; n.nl = cx.s;
        s.label("dot");
        return ".";
      case 5:
      {
        n.t = Node::SEQ;
        std::string t = "\\Q";
        for (uint32_t k = 1 + s.below(3); k > 0; --k)
        {
          int c = chr(cx);
          if (c == 0 || c == '\\' || (cx.x && c < 0x80 && isspace(c)) || (spec && c < 0x20)) c = 'q';
          n.k.push_back(lit(c, cx));
          t += raw(c, cx.u);
        }
        s.label("quoted \\Q");
        return t + "\\E";
      }
      case 6:
      {
        n.t = Node::SEQ;
        std::string t = "\"";
        for (uint32_t k = 1 + s.below(3); k > 0; --k)
        {
          int c = chr(cx);
          if (c == 0 || c == '\\' || (spec && c < 0x20)) c = 'q';
          n.k.push_back(lit(c, cx));
          t += c == '"' ? "\\\"" : raw(c, cx.u);
        }
        s.label("quoted \"");
        return t + "\"";
      }
      case 7: n.t = Node::BRK; s.label("\\R"); return "\\R";
      case 8: n.t = Node::ANY; n.uni = cx.u; s.label("\\X"); return "\\X";
      default:
      {
        if (!same(cx, init) || basic) { int c = chr(cx); n = lit(c, cx); return spell(c, cx); }
        auto it = macros.begin();
        std::advance(it, s.below(static_cast<uint32_t>(macros.size())));
        n = it->second.second;
        s.label("macro");
        return "{" + it->first + "}";
      }
    }
  }
  static bool nullable(const Node& n)
  {
    switch (n.t)
    {
      case Node::SEQ: for (const Node& k : n.k) if (!nullable(k)) return false; return true;
      case Node::ALT: for (const Node& k : n.k) if (nullable(k)) return true; return false;
      case Node::REP: return n.min == 0 || nullable(n.k[0]);
      default: return false;
    }
  }
  std::string piece(Ctx& cx, Node& n, unsigned depth)
  {
    Node a;
    std::string t = atom(cx, a, depth);
    if (!s.chance(1, 3))
    {
      n = a;
      return t;
    }
    // a repeat of several bytes typed without Unicode repeats the last byte only
    if (a.t == Node::SEQ && (t[0] == '\\' || (!t.empty() && t[0] != '(' && t[0] != '"' && t[0] != '{')))
    {
      n = a;
      return t;
    }
    if (t.size() > 1 && t[0] == '\\' && t[1] == 'Q') { n = a; return t; }
    n.t = Node::REP;
    std::string q;
    std::string b = basic ? "\\" : "";
    switch (s.below(6))
    {
      case 0: n.min = 0; n.max = 1; q = b + "?"; break;
      case 1: n.min = 0; n.max = -1; q = "*"; break;
      case 2: n.min = 1; n.max = -1; q = b + "+"; break;
      case 3: n.min = n.max = static_cast<int>(s.range(1, 4)); q = b + "{" + pbt::str(n.min) + b + "}"; break;
      case 4: n.min = static_cast<int>(s.range(0, 3)); n.max = -1; q = b + "{" + pbt::str(n.min) + "," + b + "}"; break;
      default: n.min = static_cast<int>(s.range(0, 3)); n.max = std::max(1, n.min + static_cast<int>(s.below(4))); q = b + "{" + pbt::str(n.min) + "," + pbt::str(n.max) + b + "}";
    }
    if (t == "\\u" && (q[0] == '{' || q[0] == '\\')) { n.min = 1; n.max = -1; q = b + "+"; } // \u{...} is a code
    n.k.push_back(a);
    // dot with * or +: any bytes
    if (a.t == Node::DOT && a.uni) s.label("dot repeated");
    return t + q;
  }
  std::string seq(Ctx& cx, Node& n, unsigned depth)
  {
    n = Node();
    std::string t;
    do
    {
      n.k.push_back(Node());
      std::string w = ws(cx), p = piece(cx, n.k.back(), depth);
      if (p[0] == '{' && t.size() > 1 && t.compare(t.size() - 2, 2, "\\u") == 0 && w.empty())
        p = basic ? "[{]" + p.substr(1) : "(?:" + p + ")"; // \\u{...} is a code
      t += w + p;
    } while (s.more(depth > 1 ? 2 : 1) && t.size() < 400);
    return t + ws(cx);
  }
  std::string alt(Ctx& cx, Node& n, unsigned depth)
  {
    n = Node();
    n.t = Node::ALT;
    std::string t;
    do
    {
      if (!n.k.empty()) t += basic ? "\\|" : "|";
      n.k.push_back(Node());
      t += seq(cx, n.k.back(), depth);
    } while (s.chance(1, 3));
    return t;
  }
};

// over-approximation of a node over bytes
inline Node bytes(const Node& n)
{
  Node m;
  auto set = [](const Ranges& r) { Node x; x.t = Node::SET; x.r = r; return x; };
  auto two = [&](const Ranges& lead) { Node q; q.t = Node::SEQ; q.k.push_back(set(lead)); q.k.push_back(set({ { 0x80, 0xBF } })); return q; };
  switch (n.t)
  {
    case Node::SET:
    {
      if (!n.uni || n.r.empty() || n.r.back().second < 0x80) return n;
      Ranges a, l;
      for (auto& p : n.r)
      {
        if (p.first < 0x80) a.push_back(std::make_pair(p.first, std::min(p.second, 0x7F)));
        if (p.second >= 0x80)
          l.push_back(std::make_pair(static_cast<int>(static_cast<unsigned char>(ucd::enc(std::max(0x80, p.first))[0])), static_cast<int>(static_cast<unsigned char>(ucd::enc(p.second)[0]))));
      }
      m.t = Node::ALT;
      if (!a.empty()) m.k.push_back(set(a));
      m.k.push_back(two(ucd::norm(l)));
      return m;
    }
    case Node::DOT:
    {
      if (!n.uni) return n;
      m.t = Node::SEQ;
      m.k.push_back(set(n.nl ? Ranges{ { 0, 255 } } : Ranges{ { 0, 9 }, { 11, 255 } }));
      Node r;
      r.t = Node::REP;
      r.max = -1;
      r.k.push_back(set({ { 0x80, 0xBF } }));
      m.k.push_back(r);
      return m;
    }
    case Node::ANY: m.t = Node::ALT; m.k.push_back(set({ { 0, 255 } })); m.k.push_back(two({ { 0xC2, 0xF4 } })); return m;
    case Node::BRK: m.t = Node::ALT; m.k.push_back(set({ { 10, 13 } })); m.k.push_back(two({ { 0xC2, 0xC2 }, { 0xE2, 0xE2 } })); return m;
    default:
      m = n;
      for (Node& k : m.k) k = bytes(k);
      return m;
  }
}

// estimate of the size of the automaton: subset states over representative characters, up to a limit
struct Size {
  struct Frag { std::vector<int> first, last; bool null; };
  std::vector<const Node*> pos;
  std::vector<std::vector<int> > follow;
  size_t maxpos;
  explicit Size(size_t m) : maxpos(m) { }
  static void join(std::vector<int>& a, const std::vector<int>& b)
  {
    a.insert(a.end(), b.begin(), b.end());
    std::sort(a.begin(), a.end());
    a.erase(std::unique(a.begin(), a.end()), a.end());
  }
  void link(const std::vector<int>& l, const std::vector<int>& f) { for (int p : l) join(follow[p], f); }
  Frag cat(Frag a, const Frag& b)
  {
    link(a.last, b.first);
    Frag r;
    r.first = a.first;
    if (a.null) join(r.first, b.first);
    r.last = b.last;
    if (b.null) join(r.last, a.last);
    r.null = a.null && b.null;
    return r;
  }
  Frag build(const Node& n)
  {
    Frag r;
    r.null = true;
    if (pos.size() > maxpos) return r;
    switch (n.t)
    {
      case Node::SEQ: for (const Node& k : n.k) r = cat(r, build(k)); return r;
      case Node::ALT:
        r.null = false;
        for (const Node& k : n.k) { Frag f = build(k); join(r.first, f.first); join(r.last, f.last); r.null |= f.null; }
        return r;
      case Node::REP:
        for (int i = 0; i < n.min; ++i) r = cat(r, build(n.k[0]));
        if (n.max < 0)
        {
          Frag f = build(n.k[0]);
          link(f.last, f.first);
          f.null = true;
          return cat(r, f);
        }
        for (int i = n.min; i < n.max; ++i) { Frag f = build(n.k[0]); f.null = true; r = cat(r, f); }
        return r;
      default:
        r.null = false;
        r.first.push_back(static_cast<int>(pos.size()));
        r.last = r.first;
        pos.push_back(&n);
        follow.push_back(std::vector<int>());
        return r;
    }
  }
  static bool has(const Node& n, int c)
  {
    switch (n.t)
    {
      case Node::SET: return ucd::in(n.r, c);
      case Node::DOT: return c != '\n' || n.nl;
      case Node::BRK: return (c >= 10 && c <= 13) || c == 0x85;
      default: return true;
    }
  }
  size_t states(const Node& n, size_t limit)
  {
    Node b = bytes(n);
    Frag f = build(b);
    if (pos.size() > maxpos) return limit;
    std::vector<int> reps = { 0, 10, 14, 0x85 };
    for (const Node *p : pos)
      if (p->t == Node::SET)
        for (size_t i = 0; i < p->r.size() && i < 12; ++i) { reps.push_back(p->r[i].first); reps.push_back(p->r[i].second + 1); }
    std::sort(reps.begin(), reps.end());
    reps.erase(std::unique(reps.begin(), reps.end()), reps.end());
    std::set<std::vector<int> > seen;
    std::vector<std::vector<int> > todo(1, f.first);
    seen.insert(f.first);
    while (!todo.empty() && seen.size() < limit)
    {
      std::vector<int> q = todo.back();
      todo.pop_back();
      for (int c : reps)
      {
        std::vector<int> t;
        for (int p : q) if (has(*pos[p], c)) join(t, follow[p]);
        if (seen.insert(t).second) todo.push_back(t);
        if (seen.size() >= limit) break;
      }
    }
    return seen.size();
  }
};

inline void sample(Source& s, const Node& n, std::string& out)
{
  if (out.size() > 50) return;
  switch (n.t)
  {
    case Node::SET:
    {
      const std::pair<int,int>& p = n.r[s.below(static_cast<uint32_t>(n.r.size()))];
      int c = s.chance(1, 3) ? p.second : s.chance(1, 2) ? p.first : static_cast<int>(s.range(p.first, p.second));
      if (c >= 0xD800 && c <= 0xDFFF) c = p.first;
      out += n.uni ? ucd::enc(c) : std::string(1, static_cast<char>(c));
      return;
    }
    case Node::DOT:
    {
      static const int u[] = { 'a', 'Z', ' ', 0xE9, 0x3B1, 0x20AC, 0x1F600 };
      if (n.nl && s.chance(1, 4)) out += "\n";
      else if (n.uni) out += ucd::enc(u[s.below(7)]);
      else out += s.pickc("abZ 0\r\x80\xff");
      return;
    }
    case Node::ANY: out += n.uni ? ucd::enc(s.flip() ? 0x20AC : '\n') : std::string(1, s.pickc("a\n\xff")); return;
    case Node::BRK:
    {
      static const char *b[] = { "\n", "\r\n", "\r", "\v", "\f", "\xc2\x85", "\xe2\x80\xa8", "\xe2\x80\xa9" };
      out += b[s.below(8)];
      return;
    }
    case Node::SEQ: for (const Node& k : n.k) sample(s, k, out); return;
    case Node::ALT: sample(s, n.k[s.below(static_cast<uint32_t>(n.k.size()))], out); return;
    case Node::REP:
    {
      int m = n.max < 0 ? n.min + static_cast<int>(s.below(3)) : static_cast<int>(s.range(n.min, n.max));
      for (int i = 0; i < m; ++i) sample(s, n.k[0], out);
      return;
    }
  }
}

} // namespace ast
#endif
