// C09: how the input is delivered and buffered makes no difference to what is matched.
#include "genwild.h"
#include <reflex/matcher.h>
#include <sstream>
#include <memory>
#include <unistd.h>

using namespace pbt;

// a stream that delivers a given number of bytes at a time
struct ChunkBuf : std::streambuf {
  const std::string& t; const std::vector<size_t>& cut; size_t at = 0, k = 0;
  ChunkBuf(const std::string& text, const std::vector<size_t>& c) : t(text), cut(c) { }
  std::vector<char> hold;
  int_type underflow() override
  {
    if (at >= t.size()) return traits_type::eof();
    size_t n = std::min(cut.empty() ? t.size() : cut[k++ % cut.size()], t.size() - at);
    hold.assign(t.begin() + at, t.begin() + at + n);
    at += n;
    setg(hold.data(), hold.data(), hold.data() + n);
    return traits_type::to_int_type(hold[0]);
  }
};

// matchers with their own get() and wrap()
struct GetMatcher : reflex::Matcher {
  const std::string *t = nullptr; const std::vector<size_t> *cut = nullptr; size_t at = 0, k = 0; bool wrapping = false; size_t stop = 0; int wraps = 0;
  using reflex::Matcher::Matcher;
  size_t get(char *s, size_t n) override
  {
    size_t end = wrapping ? stop : t->size();
    if (at >= end) return 0;
    size_t m = wrapping ? end - at : (*cut)[k++ % cut->size()];
    m = std::min(std::min(m, n), end - at);
    memcpy(s, t->data() + at, m);
    at += m;
    return m;
  }
  bool wrap() override
  {
    if (!wrapping || stop >= t->size())
      return false;
    ++wraps;
    stop = std::min(t->size(), stop + (*cut)[k++ % cut->size()]);
    return true;
  }
};

struct Plan { std::vector<int> op; std::vector<int> arg; };

enum { SCAN, FIND, SPLIT };

static void esc(std::string& r, const std::string& t) { if (t.size() > 120) r += fmt("<%zu:%016llx>", t.size(), static_cast<unsigned long long>(hash_str(t))); else r += show(t, 500); }

static std::vector<std::string> run(reflex::Matcher& m, int method, const Plan& plan, size_t len, const reflex::Pattern *other, bool bounded)
{
  std::vector<std::string> v;
  size_t stuck = 0;
  for (size_t i = 0; i < 3 * len + 20 && v.size() < 400; ++i)
  {
    std::string r;
    int op = plan.op[i % plan.op.size()], arg = plan.arg[i % plan.arg.size()];
    if (op == 1) m.more();
    size_t k = method == SCAN ? m.scan() : method == FIND ? m.find() : m.split();
    r = fmt("%zu at %zu size %zu text ", k, m.first(), m.size());
    esc(r, std::string(m.begin(), m.size()));
    if (op & 2) r += fmt(" line %zu-%zu", m.lineno(), m.lineno_end());
    if ((op & 4) && !bounded) r += fmt(" column %zu-%zu", m.columno(), m.columno_end());
    if (m.size() > 1 && op == 8) { m.less(m.size() - 1 - static_cast<size_t>(arg) % (m.size() - 1)); r += " less "; esc(r, m.str()); }
    if (op == 9) { r += " in"; for (int j = 0; j <= arg % 3; ++j) r += fmt(" %d", m.input()); }
    if (op == 10) r += fmt(" peek %d", m.peek());
    if (op == 11) { r += fmt(" skip %d", static_cast<int>(m.skip(static_cast<char>("ab\n "[arg % 4])))); }
    if (op == 12) { r += " text "; esc(r, m.text()); }
    if (op == 13) { r += fmt(" wsize %zu", m.wsize()); std::wstring w = m.wstr(); r += fmt(" %zu", w.size()); }
    if (op == 14) r += fmt(" bol %d eol? %d", m.at_bol() ? 1 : 0, m.at_end() ? 1 : 0);
    if (op == 15 && other) { const reflex::Pattern& p = m.pattern(); m.pattern(*other); size_t z = m.scan(); r += fmt(" other %zu ", z); esc(r, std::string(m.begin(), m.size())); m.pattern(p); }
    bool end = m.at_end();
    r += end ? " end" : "";
    v.push_back(r);
    if (k == 0)
    {
      if (method != SCAN || end) break;
      int c = m.input();
      if (c == EOF) break;
    }
    stuck = m.size() == 0 ? stuck + 1 : 0;
    if (stuck > 12) break;
  }
  return v;
}

static void compare(Source& s, const reflex::Pattern& pat, const reflex::Pattern *other, const std::string& text, const Plan& plan, int method, const std::string& mo, bool big)
{
  // reference: the whole text in place
  std::vector<std::string> want;
  {
    std::unique_ptr<char[]> base(new char[text.size() + 1]);
    memcpy(base.get(), text.data(), text.size());
    base[text.size()] = '\0';
    reflex::Matcher m(pat, reflex::Input(), mo.c_str());
    m.buffer(base.get(), text.size() + 1);
    doing() = "reference run, text in place";
#ifdef REFLEX_VERIF_BLOCK
    bool bounded = true;
#else
    bool bounded = big;
#endif
    want = run(m, method, plan, text.size(), other, bounded);
  }
  bool multi = want.size() > 2;
  unsigned n = big ? 2 : 3;
  for (unsigned d = 0; d < n; ++d)
  {
    std::vector<size_t> cut;
    unsigned nc = 1 + s.below(6);
    for (unsigned i = 0; i < nc; ++i)
      cut.push_back(big ? (s.flip() ? 1 + s.below(300000) : 4096u * (1 + s.below(64)) - 1 + s.below(3)) : 1 + s.below(s.flip() ? 4 : 40));
    int kind = static_cast<int>(s.below(6));
    int buf = static_cast<int>(s.below(4)); // 0 default, 1 buffer(), 2 buffer(blk), 3 interactive
    size_t blk = big ? 1 + s.below(300000) : 1 + s.below(20);
    if (buf == 3 && big) buf = 0;
    static const char *kinds[] = { "string", "stream in pieces", "get() override", "wrap() override", "FILE", "wide string" };
    static const char *bufs[] = { "", ", buffer()", ", buffer(n)", ", interactive()" };
    std::string what = std::string(kinds[kind]) + bufs[buf] + (buf == 2 ? fmt(" n=%zu", blk) : "");
    if (kind == 5)
      for (char c : text) if ((c & 0x80) || c == '\0') // a wide string ends at a NUL
        { kind = 0; what = "string"; buf = 0; break; }
    s.note("delivery", what + (kind >= 1 && kind <= 3 ? " pieces " + [&] { std::string r; for (size_t c : cut) r += str(static_cast<long long>(c)) + " "; return r; }() : std::string()));
    ChunkBuf cb(text, cut);
    std::istream is(&cb);
    FILE *file = NULL;
    struct Close { FILE *&f; ~Close() { if (f) fclose(f); } } close{ file };
    std::wstring wide;
    reflex::Input in;
    switch (kind)
    {
      case 0: in = reflex::Input(text.data(), text.size()); break;
      case 1: in = reflex::Input(is); break;
      case 4:
      {
        std::string name = workdir() + fmt("/c09.%d", getpid());
        FILE *o = fopen(name.c_str(), "w");
        if (!o || fwrite(text.data(), 1, text.size(), o) != text.size()) abort();
        fclose(o);
        file = fopen(name.c_str(), "r");
        unlink(name.c_str());
        in = reflex::Input(file, reflex::Input::file_encoding::plain);
        break;
      }
      case 5: wide.assign(text.begin(), text.end()); in = reflex::Input(wide); break;
    }
    GetMatcher m(pat, in, mo.c_str());
    m.t = &text; m.cut = &cut;
    struct Plain : GetMatcher { };
    std::unique_ptr<reflex::Matcher> plain;
    reflex::Matcher *mp = &m;
    if (kind == 3) { m.wrapping = true; m.stop = std::min(text.size(), cut[m.k++ % cut.size()]); }
    else if (kind != 2) { plain.reset(new reflex::Matcher(pat, in, mo.c_str())); mp = plain.get(); }
    if (buf == 1) mp->buffer();
    else if (buf == 2) mp->buffer(blk);
    else if (buf == 3) mp->interactive();
    doing() = what;
#ifdef REFLEX_VERIF_BLOCK
    bool bounded = true;
#else
    bool bounded = big;
#endif
    std::vector<std::string> got = run(*mp, method, plan, text.size(), other, bounded);
    for (size_t i = 0; i < std::max(got.size(), want.size()); ++i)
    {
      std::string g = i < got.size() ? got[i] : "nothing", w = i < want.size() ? want[i] : "nothing";
      if (g != w)
        fail("delivery", fmt("step %zu, %s: ", i, what.c_str()) + g + "; with the text in place: " + w);
    }
    s.label(what.substr(0, what.find(" n=")).c_str());
  }
  if (multi)
    s.nontrivial(hash_str(text + "\x01" + str(method)));
}

static void gen_plan(Source& s, Plan& plan)
{
  unsigned n = 1 + s.below(6);
  for (unsigned i = 0; i < n; ++i)
  {
    plan.op.push_back(s.flip() ? 0 : static_cast<int>(s.below(16)));
    plan.arg.push_back(static_cast<int>(s.below(5)));
  }
  std::string t;
  for (int o : plan.op) t += str(o) + " ";
  s.note("operations", t);
}

static void mixed_case(Source& s)
{
  wild::Pat w = wild::gen(s, 10, 4);
  wild::Pat w2 = wild::gen(s, 4, 2, false);
  std::string text;
#ifdef REFLEX_VERIF_BLOCK
  text = wild::input(s, w, 16);
#else
  text = wild::input(s, w, 10);
#endif
  int method = static_cast<int>(s.below(3));
  std::string mo = s.chance(1, 2) ? "" : s.flip() ? "N" : s.flip() ? "A" : "T=2,W";
  static const char *methods[] = { "scan", "find", "split" };
  s.note("pattern", show(w.text));
  s.note("second pattern", show(w2.text));
  s.note("text", show(text));
  s.note("method", std::string(methods[method]) + " " + mo);
  Plan plan;
  gen_plan(s, plan);
  std::unique_ptr<reflex::Pattern> p, q;
  try { p.reset(new reflex::Pattern(w.text, "r")); q.reset(new reflex::Pattern(w2.text, "r")); } catch (reflex::regex_error&) { discard(); }
  compare(s, *p, q.get(), text, plan, method, mo, false);
}

// texts larger than the buffer, tokens and lines longer than it
static void big_case(Source& s)
{
  static const char *pats[] = { "[a-y]+|[0-9]+|\\n|.", "a(b|c)*d|\\w+|\\s+", "(?m)^.*$|\\n", "\"[^\"]*\"|\\w+|.|\\n", "/\\*(.|\\n)*?\\*/|\\w+|.|\\n", "abcdef|zz+", "z[a-z]*z|\\n", "[a-z]+(?=[0-9])|[a-z]+|[0-9]+|.|\\n", "x", "\\bq\\w*|needle" };
  std::string rx = s.pick(std::vector<std::string>(pats, pats + sizeof(pats) / sizeof(*pats)));
  std::string text;
  size_t target = 250000 + s.below(600000);
  while (text.size() < target)
  {
    size_t n;
    switch (s.below(5))
    {
      case 0: n = 1 + s.below(40); break;
      case 1: n = 1 + s.below(20000); break;
      case 2: { size_t to = (text.size() / 262144 + 1) * 262144; n = to - text.size() - 3 + s.below(7); if (n > 400000) n = 5; break; }
      default: n = 1 + s.below(300000);
    }
    std::string unit;
    switch (s.below(9))
    {
      case 0: unit = "abcdefgh"; break;
      case 1: unit = "0123456789"; break;
      case 2: unit = "word 12 \"quoted\"\n"; break;
      case 3: unit = "z"; break;
      case 4: unit = "abcbcbd"; break;
      case 5: unit = "\n"; break;
      case 6: unit = "needle q1 "; break;
      case 7: unit = "\xc3\xa9"; break;
      default: unit = "*/ /* x"; break;
    }
    if (s.chance(1, 3)) text += "\"/*z"[s.below(4)];
    size_t from = text.size();
    while (text.size() - from < n) text += unit;
    text.resize(from + n);
    if (s.flip()) text += s.pickc("\n\"*/z a1");
  }
  int method = static_cast<int>(s.below(3));
  static const char *methods[] = { "scan", "find", "split" };
  s.note("pattern", rx);
  s.note("text", fmt("%zu bytes ", text.size()) + show(text, 60));
  s.note("method", methods[method]);
  Plan plan;
  gen_plan(s, plan);
  for (int& o : plan.op) if (o == 4 || o == 5 || o == 6 || o == 7 || o == 15) o = 2;
  reflex::Pattern p(rx, "r");
  compare(s, p, NULL, text, plan, method, "", true);
}

std::vector<Part> pbt::parts()
{
#ifdef REFLEX_VERIF_BLOCK
  return { { "mixed", mixed_case, 30000, 1500000, 30 } };
#else
  return { { "mixed", mixed_case, 30000, 1500000, 30 }, { "big", big_case, 60, 3000, 60 } };
#endif
}
PBT_MAIN
