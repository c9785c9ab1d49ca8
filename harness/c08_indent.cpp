// C08: indent, nodent, dedent and undent tokens follow the margins of the text and the stops.
// Oracle: a lockstep model lexer with its own stack of stops.
#include "pbt.h"
#include <reflex/matcher.h>
#include <algorithm>

using namespace pbt;

namespace {

enum { NODENT = 1, INDENT, DEDENT, DEDENTX, COMMENT, TEXT, NL, SPACE, STRING };
const char *const NAME[] = { "end", "nodent", "indent", "dedent", "dedent-extra", "comment", "text", "newline", "space", "string" };

struct Rules {
  std::string text;              // the regex
  std::string opts;              // pattern options
  std::vector<int> kind;         // kind of alternative i (1-based at i-1); 0 negative
  std::string margin;            // margin characters
  bool blank, cont, comment, any;
};

Rules gen_rules(Source& s)
{
  Rules r;
  r.margin = s.weighted({6, 1, 1}) == 0 ? " \t" : s.flip() ? " \t|" : " \t.:";
  std::string h = "[" + r.margin + "]";
  r.blank = s.chance(2, 3);
  r.cont = s.flip();
  r.comment = s.flip();
  r.any = s.flip();
  std::vector<std::pair<std::string,int>> a;
  bool starind = s.chance(1, 3);
  a.push_back({ "^" + h + "+", NODENT });
  a.push_back({ "^" + h + (starind ? "*" : "+") + "\\i", INDENT });
  a.push_back({ "^" + h + "*\\j", DEDENT });
  a.push_back({ "\\j", DEDENTX });
  if (r.blank)
    a.push_back({ "(?^^" + h + "*\\n)", 0 });
  if (r.cont)
    a.push_back({ "(?^\\\\\\n" + h + "+)", 0 });
  if (r.comment)
  {
    if (s.flip())
      a.push_back({ h + "*#\\k?", COMMENT });
    else
    {
      a.push_back({ "^" + h + "*#\\k", COMMENT });
      a.push_back({ h + "*#", COMMENT });
    }
  }
  a.push_back({ "\"[^\"]*\"", STRING });
  if (r.any)
  {
    // one character at a time
    a.push_back({ "[^\\n]", TEXT });
    a.push_back({ "\\n", NL });
  }
  else
  {
    a.push_back({ "[^\\n#\"\\\\" + r.margin + "]+", TEXT });
    a.push_back({ "[#\"\\\\]", TEXT });
    a.push_back({ h + "+", SPACE });
    a.push_back({ "\\n", NL });
  }
  if (s.chance(1, 3))
  {
    // dents last
    std::rotate(a.begin() + 1, a.begin() + 4, a.end());
  }
  r.text = "(?m)";
  for (size_t i = 0; i < a.size(); ++i)
  {
    r.text += (i ? "|" : "") + a[i].first;
    r.kind.push_back(a[i].second);
  }
  return r;
}

struct Model {
  const Rules& r;
  const std::string& in;
  int T;
  std::vector<size_t> stops;
  std::vector<std::vector<size_t>> stack;
  size_t pos, pending;
  size_t width;     // of the last dedent
  bool misaligned;
  int kind;
  std::string text;
  size_t maxlevel, dents, maxded, undents;
  Model(const Rules& r, const std::string& in, int T) : r(r), in(in), T(T), pos(0), pending(0), width(0), misaligned(false), kind(0), maxlevel(0), dents(0), maxded(0), undents(0) { }
  bool is_margin(size_t i) const { return i < in.size() && r.margin.find(in[i]) != std::string::npos; }
  bool bol() const { return pos == 0 || in[pos - 1] == '\n'; }
  size_t top() const { return stops.empty() ? 0 : stops.back(); }
  size_t measure(size_t from, size_t to) const
  {
    size_t w = 0;
    for (size_t i = from; i < to; ++i)
    {
      if (in[i] == '\t')
        w = (w / T + 1) * T;
      else
        ++w;
    }
    return w;
  }
  void emit(int k, size_t to) { kind = k; text = in.substr(pos, to - pos); pos = to; }
  void next()
  {
    if (pending > 0)
    {
      --pending;
      return emit(DEDENT, pos);
    }
    while (true)
    {
      size_t e = pos;
      while (is_margin(e))
        ++e;
      if (bol())
      {
        size_t w = measure(pos, e);
        if (r.blank && e < in.size() && in[e] == '\n')
        {
          pos = e + 1;
          continue;
        }
        if (r.comment && e < in.size() && in[e] == '#')
        {
          if (w != top())
            ++undents;
          return emit(COMMENT, e + 1);
        }
        if (w > top())
        {
          stops.push_back(w);
          maxlevel = std::max(maxlevel, stops.size());
          ++dents;
          return emit(INDENT, e);
        }
        if (w < top())
        {
          size_t n = 0;
          while (!stops.empty() && stops.back() > w)
          {
            stops.pop_back();
            ++n;
          }
          // a margin that is no stop takes the place of the last stop that remains
          if (!stops.empty() && stops.back() != w)
          {
            stops.back() = w;
            misaligned = true;
          }
          else if (stops.empty() && w > 0)
            misaligned = true;
          pending = n - 1;
          maxded = std::max(maxded, n);
          ++dents;
          return emit(DEDENT, e);
        }
        if (e > pos)
          return emit(NODENT, e);
      }
      if (pos >= in.size())
      {
        kind = 0;
        text.clear();
        return;
      }
      if (r.comment && e < in.size() && in[e] == '#')
        return emit(COMMENT, e + 1);
      char c = in[pos];
      if (r.cont && c == '\\' && pos + 1 < in.size() && in[pos + 1] == '\n' && is_margin(pos + 2))
      {
        pos += 2;
        while (is_margin(pos))
          ++pos;
        continue;
      }
      if (c == '"')
      {
        size_t q = in.find('"', pos + 1);
        if (q != std::string::npos)
          return emit(STRING, q + 1);
        return emit(TEXT, pos + 1);
      }
      if (c == '\n')
        return emit(NL, pos + 1);
      if (r.any)
        return emit(TEXT, pos + 1);
      if (e > pos)
        return emit(SPACE, e);
      if (c == '#' || c == '\\')
        return emit(TEXT, pos + 1);
      size_t t = pos;
      while (t < in.size() && in[t] != '\n' && in[t] != '#' && in[t] != '"' && in[t] != '\\' && !is_margin(t))
        ++t;
      return emit(TEXT, t);
    }
  }
};

std::string show_stops(const std::vector<size_t>& v)
{
  std::string r = "{";
  for (size_t i : v)
    r += " " + std::to_string(i);
  return r + " }";
}

void margin_of(Source& s, const Rules& r, int T, size_t w, std::string& out)
{
  // some margin of width w
  size_t col = 0;
  while (col < w)
  {
    size_t t = (col / T + 1) * T;
    if (t <= w && s.chance(1, 2))
    {
      out += '\t';
      col = t;
    }
    else
    {
      out += r.margin.size() > 2 && s.chance(1, 4) ? r.margin[2 + s.below(static_cast<uint32_t>(r.margin.size() - 2))] : ' ';
      ++col;
    }
  }
}

std::string gen_text(Source& s, const Rules& r, int T, bool aligned)
{
  std::string in;
  std::vector<size_t> stops; // approximate, directs generation only
  size_t lines = 1;
  while (s.more(10)) ++lines;
  bool huge = s.chance(1, 12);
  for (size_t i = 0; i < lines; ++i)
  {
    size_t w;
    switch (s.weighted({ 4, 4, 4, 1, aligned ? 0u : 2u }))
    {
      case 0: w = stops.empty() ? 0 : stops.back(); break;
      case 1: w = (stops.empty() ? 0 : stops.back()) + 1 + (huge && s.chance(1, 3) ? s.below(300) : s.below(9)); break;
      case 2: w = stops.empty() ? 0 : s.chance(1, 4) ? 0 : stops[s.below(static_cast<uint32_t>(stops.size()))]; break;
      case 3: w = 0; break;
      default: w = s.below(static_cast<uint32_t>((stops.empty() ? 0 : stops.back()) + 3));
    }
    int kind = static_cast<int>(s.weighted({ 8, r.blank ? 2u : 0u, r.comment ? 2u : 0u, 1, 1 }));
    size_t v = w;
    if ((kind == 1 || kind == 2) && s.flip())
      v = s.below(12); // blank and comment lines take any margin
    margin_of(s, r, T, v, in);
    if (kind != 1 && kind != 2)
    {
      while (!stops.empty() && stops.back() > w)
        stops.pop_back();
      if (w > 0 && (stops.empty() || stops.back() < w))
        stops.push_back(w);
    }
    static const char *const WORD[] = { "a", "if", "else:", "x\xc3\xa9", "pass", "b(c)", "1" };
    if (kind == 2)
      in += "#";
    if (kind != 1)
    {
      size_t n = kind == 0 ? 1 + s.below(3) : s.below(3);
      for (size_t k = 0; k < n; ++k)
      {
        in += WORD[s.below(7)];
        switch (s.weighted({ 4, 2, 1, 1, 1 }))
        {
          case 1: in += s.flip() ? " " : "\t "; break;
          case 2: in += " #"; break;
          case 3: in += s.flip() ? "\"s\n  t\"" : "\"\n\n\""; break;
          case 4: in += s.flip() ? "\\\n " : "\\\n\t\t"; break;
        }
      }
    }
    if (i + 1 < lines || s.chance(3, 4))
      in += '\n';
  }
  return in;
}

void indent_text(Source& s, const Rules& r, const reflex::Pattern& pattern)
{
  static const int TABS[] = { 8, 4, 2, 1 };
  int T = TABS[s.below(4)];
  bool aligned = s.flip();
  std::string in = gen_text(s, r, T, aligned);
  s.note("input", show(in));
  std::string mopts = s.flip() ? "T=" + std::to_string(T) : "";
  reflex::Matcher m(pattern, reflex::Input(in.data(), in.size()), mopts.c_str());
  if (mopts.empty())
    m.tabs(static_cast<char>(T));
  size_t blk = s.flip() ? 1 + s.below(20) : 0;
  if (blk > 0)
    m.buffer(blk);
  bool find = s.chance(1, 4);
  bool edit = s.chance(1, 3);
  s.note("tabs", std::to_string(T));
  s.note("block", std::to_string(blk));
  Model d(r, in, T);
  std::string log;
  size_t saved_at = 0;
  std::vector<size_t> saved;
  bool have_saved = false;
  size_t nops = 0;
  for (size_t n = 0; ; ++n)
  {
    d.next();
    size_t from = d.pos - d.text.size();
    size_t got = find ? m.find() : m.scan();
    std::string text(m.begin(), m.size());
    int k = got == 0 ? 0 : got <= r.kind.size() ? r.kind[got - 1] : -1;
    if (k == DEDENTX)
    {
      if (!text.empty())
        fail("dent-text", fmt("\\j matched %s", show(text).c_str()));
      k = DEDENT;
    }
    if (k != d.kind || text != d.text || (got != 0 && m.first() != from))
      fail("dent-token", fmt("token %zu%s: %s %s (accept %zu) at %zu, expected %s %s at %zu, with stops %s, want %s", n, log.c_str(), k < 0 ? "?" : NAME[k], show(text).c_str(), got, m.first(), NAME[d.kind], show(d.text).c_str(), from, show_stops(m.stops()).c_str(), show_stops(d.stops).c_str()));
    if (m.stops() != d.stops)
      fail("dent-stops", fmt("token %zu %s%s: stops are %s, expected %s", n, NAME[d.kind], log.c_str(), show_stops(m.stops()).c_str(), show_stops(d.stops).c_str()));
    if (m.last_stop() != d.top())
      fail("dent-last", fmt("last_stop() %zu, expected %zu", m.last_stop(), d.top()));
    if (d.kind == 0)
      break;
    if (edit && d.pending == 0 && s.chance(1, 4))
    {
      ++nops;
      size_t x = s.below(14);
      switch (s.below(7))
      {
        case 0: m.push_stops(); d.stack.push_back(d.stops); d.stops.clear(); log += " push"; break;
        case 1: if (d.stack.empty()) break; m.pop_stops(); d.stops = d.stack.back(); d.stack.pop_back(); log += " pop"; break;
        case 2: m.clear_stops(); d.stops.clear(); log += " clear"; break;
        case 3:
          m.insert_stop(x);
          if (x > 0 && std::find(d.stops.begin(), d.stops.end(), x) == d.stops.end())
          {
            d.stops.push_back(x);
            std::sort(d.stops.begin(), d.stops.end());
          }
          log += fmt(" insert(%zu)", x);
          break;
        case 4:
          m.delete_stop(x);
          while (!d.stops.empty() && d.stops.back() >= x)
            d.stops.pop_back();
          log += fmt(" delete(%zu)", x);
          break;
        case 5: saved = m.stops(); have_saved = true; saved_at = n; break;
        default: if (!have_saved) break; m.stops() = saved; d.stops = saved; log += fmt(" restore(%zu)", saved_at); break;
      }
      if (m.stops() != d.stops)
        fail("dent-edit", fmt("after%s stops are %s, expected %s", log.c_str(), show_stops(m.stops()).c_str(), show_stops(d.stops).c_str()));
    }
    if (n > in.size() * 3 + 400)
      fail("dent-endless", "the tokens do not end");
  }
  if (d.maxlevel >= 3) s.label("levels>=3"); else s.label("levels<3");
  if (d.maxded >= 2) s.label("multi-dedent");
  if (d.misaligned) s.label("misaligned");
  if (d.undents) s.label("undent");
  if (nops) s.label("edited-stops");
  if (blk) s.label("small-blocks");
  if (d.dents >= 3)
    s.nontrivial(hash_str(r.text + in + std::to_string(T) + std::to_string(blk) + log));
}

void indent_case(Source& s)
{
  Rules r = gen_rules(s);
  s.note("pattern", show(r.text));
  reflex::Pattern pattern(r.text, "r");
  size_t n = 1 + s.below(5);
  for (size_t i = 0; i < n; ++i)
    indent_text(s, r, pattern);
}

}

std::vector<pbt::Part> pbt::parts() { return { { "indent", indent_case, 16000, 600000, 10 } }; }
PBT_MAIN
