// C14: regexes produced for code point ranges match exactly the encodings of the range.
#include "pbt.h"
#include <algorithm>
#include <memory>
#include <reflex/utf8.h>

using namespace pbt;

// A byte regex of concatenation, alternation, groups, classes and escapes, parsed by this file's own
// parser into an explicit list of sequences of byte sets ("boxes")
typedef std::vector<bool> Set; // 256
typedef std::vector<Set> Seq;

struct Parser {
  const std::string& r;
  size_t i;
  int esc;
  bool bad;
  std::string why;
  Parser(const std::string& r, int esc) : r(r), i(0), esc(esc), bad(false) { }
  void err(const char *m) { if (!bad) { bad = true; why = fmt("%s at %zu", m, i); } i = r.size(); }
  int chr(bool inset)
  {
    if (i >= r.size()) { err("end"); return 0; }
    unsigned char c = r[i];
    if (c != '\\')
    {
      if (strchr(inset ? "[]^-#" : "[](){}|*+?.^$#", c) || c == ' ' || c < 33 || c > 126) { err("unescaped special"); return 0; }
      ++i;
      return c;
    }
    ++i;
    int v = 0, n = 0, base = 8, digits = 3;
    if (esc == 'x') { if (r[i] != 'x') { err("not \\x"); return 0; } ++i; base = 16; digits = 2; }
    else if (esc == '0') { if (r[i] != '0') { err("not \\0"); return 0; } ++i; }
    for (; n < digits; ++n, ++i)
    {
      if (i >= r.size()) { err("short escape"); return 0; }
      int d = r[i] >= '0' && r[i] <= '9' ? r[i] - '0' : r[i] >= 'a' && r[i] <= 'f' ? r[i] - 'a' + 10 : r[i] >= 'A' && r[i] <= 'F' ? r[i] - 'A' + 10 : 99;
      if (d >= base) { err("digit"); return 0; }
      v = v * base + d;
    }
    if (v > 255) { err("value"); return 0; }
    return v;
  }
  std::vector<Seq> alt()
  {
    std::vector<Seq> res = cat();
    while (i < r.size() && r[i] == '|')
    {
      ++i;
      std::vector<Seq> b = cat();
      res.insert(res.end(), b.begin(), b.end());
    }
    return res;
  }
  std::vector<Seq> cat()
  {
    std::vector<Seq> res(1);
    size_t n = 0;
    while (i < r.size() && r[i] != '|' && r[i] != ')')
    {
      std::vector<Seq> a = atom(), x;
      for (const Seq& p : res)
        for (const Seq& q : a)
        {
          Seq t(p);
          t.insert(t.end(), q.begin(), q.end());
          x.push_back(t);
        }
      res.swap(x);
      if (res.size() > 100000) { err("too big"); return res; }
      ++n;
    }
    if (n == 0)
      err("empty alternative");
    return res;
  }
  std::vector<Seq> atom()
  {
    Set s(256);
    if (r[i] == '(')
    {
      ++i;
      if (r.compare(i, 2, "?:") == 0) i += 2;
      std::vector<Seq> a = alt();
      if (i >= r.size() || r[i] != ')') { err("no )"); return a; }
      ++i;
      return a;
    }
    if (r[i] == '.')
    {
      ++i;
      for (int c = 0; c < 256; ++c) s[c] = c != '\n';
    }
    else if (r[i] == '[')
    {
      ++i;
      while (i < r.size() && r[i] != ']')
      {
        int a = chr(true), b = a;
        if (i + 1 < r.size() && r[i] == '-' && r[i + 1] != ']') { ++i; b = chr(true); }
        if (b < a) err("reversed");
        for (int c = a; c <= b && c < 256; ++c) s[c] = true;
      }
      if (i >= r.size()) err("no ]"); else ++i;
    }
    else
      s[chr(false)] = true;
    return std::vector<Seq>(1, Seq(1, s));
  }
};

static size_t enc(int c, unsigned char *s)
{
  if (c < 0x80) { s[0] = c; return 1; }
  if (c < 0x800) { s[0] = 0xC0 + c / 64; s[1] = 0x80 + c % 64; return 2; }
  if (c < 0x10000) { s[0] = 0xE0 + c / 4096; s[1] = 0x80 + c / 64 % 64; s[2] = 0x80 + c % 64; return 3; }
  s[0] = 0xF0 + c / 262144; s[1] = 0x80 + c / 4096 % 64; s[2] = 0x80 + c / 64 % 64; s[3] = 0x80 + c % 64;
  return 4;
}

// number of distinct byte strings matched, restricted per position to the bytes in mask
static uint64_t count(const std::vector<const Seq*>& act, size_t d)
{
  uint64_t n = 0;
  for (const Seq *q : act)
    if (q->size() == d) { n = 1; break; }
  std::map<std::vector<const Seq*>, uint64_t> groups;
  for (int c = 0; c < 256; ++c)
  {
    std::vector<const Seq*> sub;
    for (const Seq *q : act)
      if (q->size() > d && (*q)[d][c])
        sub.push_back(q);
    if (!sub.empty())
      ++groups[sub];
  }
  for (auto& g : groups)
    n += g.second * count(g.first, d + 1);
  return n;
}

static bool matches(const std::vector<Seq>& l, const unsigned char *s, size_t n)
{
  for (const Seq& q : l)
  {
    if (q.size() != n)
      continue;
    size_t i = 0;
    while (i < n && q[i][s[i]]) ++i;
    if (i == n)
      return true;
  }
  return false;
}

static int gen_code(Source& s)
{
  static const int edge[] = { 0, 1, 0x7E, 0x7F, 0x80, 0xBF, 0xC0, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF };
  int c;
  switch (s.below(6))
  {
    case 0: c = static_cast<int>(s.below(0x80)); break;
    case 1: c = edge[s.below(sizeof(edge) / sizeof(edge[0]))] + static_cast<int>(s.below(5)) - 2; break;
    case 2: c = static_cast<int>(s.below(0x800)); break;
    case 3: c = static_cast<int>(s.below(0x10000)); break;
    case 4: c = static_cast<int>(s.below(0x110000)); break;
    default: // multiples of powers of 64 and their neighbours
    {
      int sh = 6 * (1 + static_cast<int>(s.below(3)));
      c = (static_cast<int>(s.below((0x110000 >> sh) + 1)) << sh) + static_cast<int>(s.below(3)) - 1;
      if (s.flip()) c += static_cast<int>(s.below(64)) << 6;
    }
  }
  return c < 0 ? 0 : c > 0x10FFFF ? 0x10FFFF : c;
}

static const char *PARS[] = { "(", "(?:" };
static const int ESCS[] = { 'x', '0', '\0' };

static void check_range(Source& s, int a, int b, int esc, const char *par, bool strict)
{
  s.note("range", fmt("U+%04X-U+%04X esc=%d par=%s strict=%d", a, b, esc, par, strict));
  std::string r = reflex::utf8(a, b, esc, par, strict);
  s.note("regex", r);
  Parser p(r, esc);
  std::vector<Seq> l = p.alt();
  if (!p.bad && p.i != r.size())
    p.err("trailing text");
  if (p.bad)
    fail("range-syntax", fmt("regex %s for U+%04X-U+%04X: %s", r.c_str(), a, b, p.why.c_str()));
  if (strict)
  {
    for (const Seq& q : l)
    {
      // first and last string of the box
      int lo[8], hi[8];
      size_t n = q.size();
      if (n < 1 || n > 4)
        fail("range-length", fmt("regex %s matches a string of %zu bytes", r.c_str(), n));
      for (size_t i = 0; i < n; ++i)
      {
        int c = 0;
        while (c < 256 && !q[i][c]) ++c;
        lo[i] = c;
        c = 255;
        while (c >= 0 && !q[i][c]) --c;
        hi[i] = c;
        if (i > 0 && (lo[i] < 0x80 || hi[i] > 0xBF))
          fail("range-continuation", fmt("regex %s for U+%04X-U+%04X accepts a byte outside 80-BF as continuation", r.c_str(), a, b));
      }
      static const int lead[5][2] = { { 0, 0 }, { 0, 0x7F }, { 0xC2, 0xDF }, { 0xE0, 0xEF }, { 0xF0, 0xF4 } };
      if (lo[0] < lead[n][0] || hi[0] > lead[n][1])
        fail("range-lead", fmt("regex %s for U+%04X-U+%04X accepts lead byte %02x-%02x for %zu bytes", r.c_str(), a, b, lo[0], hi[0], n));
      static const int mask[5] = { 0, 0x7F, 0x1F, 0x0F, 0x07 };
      int x = lo[0] & mask[n], y = hi[0] & mask[n];
      for (size_t i = 1; i < n; ++i)
        x = x * 64 + (lo[i] & 63), y = y * 64 + (hi[i] & 63);
      unsigned char t[8];
      if (x < a || y > b || enc(x, t) != n)
        fail("range-extra", fmt("regex %s for U+%04X-U+%04X matches encodings of U+%04X-U+%04X in %zu bytes", r.c_str(), a, b, x, y, n));
    }
    std::vector<const Seq*> act;
    for (const Seq& q : l) act.push_back(&q);
    uint64_t n = count(act, 0);
    if (n != static_cast<uint64_t>(b - a + 1))
      fail("range-missing", fmt("regex %s for U+%04X-U+%04X matches %llu strings, not %d", r.c_str(), a, b, (unsigned long long)n, b - a + 1));
  }
  else
  {
    // permissive: every code point in the range, no code point outside it
    std::vector<int> probe = { a, b, a - 1, b + 1, (a + b) / 2, 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFFFF, 0x10000, 0x10FFFF };
    for (int k = 1; k < 64; k += 13)
      for (int sh = 0; sh <= 18; sh += 6)
      {
        probe.push_back(a + (k << sh)); probe.push_back(a - (k << sh)); probe.push_back(b + (k << sh)); probe.push_back(b - (k << sh));
        probe.push_back(((a >> sh) << sh) - 1 + (k & 1)); probe.push_back((((b >> sh) + 1) << sh) - (k & 1));
      }
    for (int i = 0; i < 40; ++i)
      probe.push_back(static_cast<int>(s.below(0x110000)));
    for (int c : probe)
    {
      if (c < 0 || c > 0x10FFFF)
        continue;
      unsigned char t[8];
      size_t n = enc(c, t);
      bool in = c >= a && c <= b;
      if (matches(l, t, n) != in)
        fail("range-lean", fmt("permissive regex %s for U+%04X-U+%04X %s U+%04X", r.c_str(), a, b, in ? "does not match" : "matches", c));
    }
  }
}

static void range_case(Source& s)
{
  int a = gen_code(s);
  int b;
  switch (s.below(4))
  {
    case 0: b = a + static_cast<int>(s.below(70)); break;
    case 1: b = a + static_cast<int>(s.below(5000)); break;
    case 2: b = a; break;
    default: b = gen_code(s);
  }
  if (b > 0x10FFFF) b = 0x10FFFF;
  if (b < a) std::swap(a, b);
  int esc = ESCS[s.below(3)];
  const char *par = PARS[s.below(2)];
  bool strict = !s.chance(1, 3);
  s.label(strict ? "strict" : "permissive");
  unsigned char t[8];
  s.label(fmt("bytes-%zu-%zu", enc(a, t), enc(b, t)).c_str());
  check_range(s, a, b, esc, par, strict);
  s.nontrivial(mix(a * 4ULL + strict) ^ mix(b + 77));
}

// all pairs of edge values
static void edge_case(Source& s)
{
  static std::vector<int> e;
  if (e.empty())
  {
    std::set<int> x;
    for (int v : { 0, 0x80, 0x800, 0x10000, 0x110000, 0xD800, 0xE000, 0x40000, 0x100000, 0x1000, 0x100, 0x40, 0x2000, 0x41000, 0x50000, 0x50040, 0xF041, 0xFC0 })
      for (int d : { -65, -64, -63, -2, -1, 0, 1, 2, 62, 63, 64 })
        if (v + d >= 0 && v + d <= 0x10FFFF)
          x.insert(v + d);
    e.assign(x.begin(), x.end());
  }
  uint32_t i = s.cycle(static_cast<uint32_t>(e.size()));
  for (size_t j = i; j < e.size(); ++j)
  {
    check_range(s, e[i], e[j], 'x', "(", true);
    check_range(s, e[i], e[j], 'x', "(?:", false);
  }
  s.nontrivial(i + 1);
}

static void latin1_case(Source& s)
{
  int a = static_cast<int>(s.cycle(256));
  int esc = ESCS[s.below(3)];
  for (int b = a; b < 256; ++b)
    for (int br = 0; br < 2; ++br)
    {
      std::string r = reflex::latin1(a, b, esc, br != 0);
      s.note("latin1", fmt("%02x-%02x %s", a, b, r.c_str()));
      std::string full = br || a == b ? r : "[" + r + "]";
      Parser p(full, esc);
      std::vector<Seq> l = p.alt();
      if (p.bad || p.i != full.size() || l.size() != 1 || l[0].size() != 1)
        fail("latin1-syntax", fmt("latin1(%02x,%02x) = %s: %s", a, b, r.c_str(), p.why.c_str()));
      for (int c = 0; c < 256; ++c)
        if (l[0][0][c] != (c >= a && c <= b))
          fail("latin1", fmt("latin1(%02x,%02x) = %s: byte %02x", a, b, r.c_str(), c));
    }
  s.nontrivial(a + 1);
}

std::vector<Part> pbt::parts()
{
  return { { "edges", edge_case, 200, 200, 120 }, { "latin1", latin1_case, 256, 768, 20 }, { "ranges", range_case, 150000, 5000000, 8 } };
}
PBT_MAIN
