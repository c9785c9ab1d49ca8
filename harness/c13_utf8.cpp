// C13: UTF-8 encoding and decoding, including conversion to wide strings.
#include "pbt.h"
#include <reflex/matcher.h>
#include <reflex/pattern.h>
#include <reflex/utf8.h>

using namespace pbt;

static const int BAD = 0x200000;

// reference decoder from the Unicode table of well-formed byte sequences (Table 3-7), extended
// with the two documented exceptions: C0 80 for U+0000 and surrogate halves ED A0..BF xx
struct Ref { bool ok; int c; int len; };
static Ref ref_decode(const unsigned char *s, size_t n)
{
  struct Row { int lo, hi, len; int l2, h2; };
  static const Row rows[] = {
    { 0x00, 0x7F, 1, 0, 0 }, { 0xC0, 0xC0, 2, 0x80, 0x80 }, { 0xC2, 0xDF, 2, 0x80, 0xBF }, { 0xE0, 0xE0, 3, 0xA0, 0xBF }, { 0xE1, 0xEF, 3, 0x80, 0xBF },
    { 0xF0, 0xF0, 4, 0x90, 0xBF }, { 0xF1, 0xF3, 4, 0x80, 0xBF }, { 0xF4, 0xF4, 4, 0x80, 0x8F } };
  Ref bad = { false, BAD, 0 };
  for (const Row& r : rows)
    if (n > 0 && s[0] >= r.lo && s[0] <= r.hi)
    {
      if (n < static_cast<size_t>(r.len))
        return bad;
      static const int mask[5] = { 0, 0x7F, 0x1F, 0x0F, 0x07 };
      int c = s[0] & mask[r.len];
      for (int i = 1; i < r.len; ++i)
      {
        if (i == 1 ? (s[1] < r.l2 || s[1] > r.h2) : (s[i] < 0x80 || s[i] > 0xBF))
          return bad;
        c = c * 64 + (s[i] - 0x80);
      }
      Ref ok = { true, c, r.len };
      return ok;
    }
  return bad;
}

static size_t ref_encode(int c, unsigned char *s)
{
  if (c < 0x80) { s[0] = c; return 1; }
  if (c < 0x800) { s[0] = 0xC0 + c / 64; s[1] = 0x80 + c % 64; return 2; }
  if (c < 0x10000) { s[0] = 0xE0 + c / 4096; s[1] = 0x80 + c / 64 % 64; s[2] = 0x80 + c % 64; return 3; }
  s[0] = 0xF0 + c / 262144; s[1] = 0x80 + c / 4096 % 64; s[2] = 0x80 + c / 64 % 64; s[3] = 0x80 + c % 64;
  return 4;
}

static void all_codepoints(Source& s)
{
  // 17 planes
  int plane = static_cast<int>(s.cycle(17));
  s.note("plane", str(plane));
  for (int c = plane << 16; c < (plane + 1) << 16; ++c)
  {
    char b[16];
    memset(b, 0x41, sizeof(b));
    size_t n = reflex::utf8(c, b);
    unsigned char r[8];
    size_t k = ref_encode(c, r);
    if (n != k || memcmp(b, r, k) != 0)
      fail("encode", fmt("utf8(U+%04X) encodes as %s, not %s", c, show(std::string(b, n)).c_str(), show(std::string((char*)r, k)).c_str()));
    for (size_t i = n; i < sizeof(b); ++i)
      if (b[i] != 0x41)
        fail("encode-overrun", fmt("utf8(U+%04X) wrote beyond its %zu bytes", c, n));
    // decode, followed by bytes of every kind
    static const unsigned char tails[] = { 0, 'a', 0x80, 0xBF, 0xC3, 0xFF };
    for (unsigned char t : tails)
    {
      memset(b + n, t, sizeof(b) - n);
      const char *e = NULL;
      int d = reflex::utf8(b, &e);
      if (d != c || e != b + n)
        fail("decode", fmt("%s decodes as U+%04X using %d bytes", show(std::string(b, n + 1)).c_str(), d, (int)(e - b)));
      if (reflex::utf8(b) != c)
        fail("decode", "utf8(s) differs from utf8(s,&r)");
    }
  }
  s.nontrivial(plane + 1);
}

static void out_of_range(Source& s)
{
  int c = 0x110000 + static_cast<int>(s.below(0x7FFFFFFF - 0x110000));
  s.note("code", fmt("%x", c));
  char b[16] = { 0 };
  size_t n = reflex::utf8(c, b);
  const char *e;
  // a single sequence in the UTF-8 style that decodes as invalid
  if (n != 5 || memcmp(b, "\xf8\x88\x80\x80\x80", 5) != 0)
    fail("encode-range", fmt("utf8(%x) encodes as %s", c, show(std::string(b, n)).c_str()));
  if (reflex::utf8(b, &e) != BAD)
    fail("encode-range", "the encoding of an out-of-range code point decodes as valid");
  s.nontrivial(c);
}

static void check_decode(const unsigned char *p, size_t n)
{
  const char *b = reinterpret_cast<const char*>(p), *e = NULL;
  int c = reflex::utf8(b, &e);
  Ref r = ref_decode(p, n);
  if (r.ok)
  {
    if (c != r.c || e != b + r.len)
      fail("decode-valid", fmt("%s decodes as U+%04X using %d bytes, expected U+%04X and %d", show(std::string(b, n)).c_str(), c, (int)(e - b), r.c, r.len));
    return;
  }
  if (c != BAD)
    fail("decode-invalid", fmt("%s is not valid UTF-8 and decodes as U+%04X", show(std::string(b, n)).c_str(), c));
  if (e <= b || e > b + 4)
    fail("decode-progress", fmt("%s: %d bytes consumed", show(std::string(b, n)).c_str(), (int)(e - b)));
  for (const char *q = b + 1; q < e; ++q)
    if ((*q & 0xC0) != 0x80)
      fail("decode-resync", fmt("%s: %d bytes consumed, skips over byte %02x that starts a character", show(std::string(b, n)).c_str(), (int)(e - b), *q & 0xff));
}

// every lead byte with every second and third byte and representative fourth bytes
static void all_sequences(Source& s)
{
  unsigned a = s.cycle(256);
  s.note("lead", fmt("%02x", a));
  static const unsigned char fourth[] = { 0x00, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xBE, 0xBF, 0xC0, 0xC2, 0xE0, 0xF0, 0xFF };
  unsigned char p[8] = { 0 };
  p[0] = static_cast<unsigned char>(a);
  for (unsigned x = 0; x < 256; ++x)
    for (unsigned y = 0; y < 256; ++y)
    {
      p[1] = static_cast<unsigned char>(x);
      p[2] = static_cast<unsigned char>(y);
      if (a < 0xE0)
      {
        p[3] = 0x80;
        check_decode(p, 8);
        continue;
      }
      for (unsigned char z : fourth)
      {
        p[3] = z;
        check_decode(p, 8);
      }
    }
  s.nontrivial(a + 1);
}

static std::string gen_text(Source& s)
{
  std::string t;
  while (s.more(6) && t.size() < 60)
  {
    unsigned char b[8];
    switch (s.below(8))
    {
      case 0: t += static_cast<char>('a' + s.below(26)); break;
      case 1: t += std::string((char*)b, ref_encode(0x80 + s.below(0x780), b)); break;
      case 2: t += std::string((char*)b, ref_encode(0x800 + s.below(0xF800), b)); break;
      case 3: t += std::string((char*)b, ref_encode(0x10000 + s.below(0x100000), b)); break;
      case 4: t += static_cast<char>(s.below(256)); break;
      case 5: t += static_cast<char>(0x80 + s.below(128)); break;
      case 6: // truncated character
      {
        size_t k = ref_encode(0x80 + s.below(0x10FF80), b);
        t.append((char*)b, k - 1 - s.below(static_cast<uint32_t>(k - 1)));
        break;
      }
      default: t += '\0';
    }
  }
  return t;
}

// characters of a text: a maximal run of valid characters is exact; a stretch of invalid bytes is
// at least one and at most as many error characters as it has bytes
static void check_wide(const std::wstring& w, const std::string& t, const char *what)
{
  size_t i = 0, k = 0;
  const unsigned char *p = reinterpret_cast<const unsigned char*>(t.data());
  while (i < t.size())
  {
    Ref r = ref_decode(p + i, t.size() - i);
    if (r.ok)
    {
      if (k >= w.size() || static_cast<int>(w[k]) != r.c)
        fail("wide", fmt("%s: character %zu at byte %zu of %s is U+%04X, expected U+%04X", what, k, i, show(t).c_str(), k < w.size() ? (int)w[k] : -1, r.c));
      ++k;
      i += r.len;
      continue;
    }
    // a stretch of invalid bytes: one error character per byte that starts a sequence, up to one per byte
    size_t lo = 0, n = 0;
    bool first = true;
    while (i < t.size() && !ref_decode(p + i, t.size() - i).ok)
    {
      if (first || (p[i] & 0xC0) != 0x80)
        ++lo;
      first = false;
      ++n;
      ++i;
    }
    size_t got = 0;
    while (k < w.size() && static_cast<int>(w[k]) == BAD)
      ++k, ++got;
    if (got < lo || got > n)
      fail("wide-invalid", fmt("%s: %zu invalid bytes before byte %zu of %s give %zu error characters", what, n, i, show(t).c_str(), got));
  }
  if (k != w.size())
    fail("wide-length", fmt("%s: %s gives %zu characters, expected %zu", what, show(t).c_str(), w.size(), k));
}

static void wide(Source& s)
{
  std::string t = gen_text(s);
  s.note("text", show(t));
  // exactly sized copy so that reading past the text is caught
  char *x = new char[t.size()];
  memcpy(x, t.data(), t.size());
  std::wstring w1;
  std::wstring w = reflex::wcs(x, t.size());
  delete[] x;
  check_wide(w, t, "wcs(s,n)");
  w1 = reflex::wcs(t);
  if (w1 != w)
    fail("wide-overload", fmt("wcs(s) and wcs(s,n) differ on %s", show(t).c_str()));
  // a prefix of a longer text converts as the prefix alone
  std::string u = t + gen_text(s);
  if (reflex::wcs(u.data(), t.size()) != w)
    fail("wide-overread", fmt("wcs(s,%zu) of %s depends on the bytes that follow", t.size(), show(u).c_str()));
  // matched text
  static const reflex::Pattern any("(?s:.+)");
  if (!t.empty() && s.chance(1, 3))
  {
    size_t cut = s.below(static_cast<uint32_t>(t.size())) + 1;
    reflex::Pattern rep(fmt("[\\x00-\\xff]{%zu}", cut));
    reflex::Matcher m(rep, reflex::Input(u.data(), u.size()));
    if (m.scan() == 1)
    {
      std::string head(m.begin(), m.size());
      if (head != t.substr(0, cut))
        fail("wide-match", "unexpected match");
      check_wide(m.wstr(), head, "wstr()");
      Ref r = ref_decode(reinterpret_cast<const unsigned char*>(head.data()), head.size());
      if (r.ok && static_cast<int>(m.wchr()) != r.c)
        fail("wchr", fmt("wchr() is U+%04X of %s", (int)m.wchr(), show(head).c_str()));
    }
    else
      fail("wide-match", "no match");
  }
  if (t.size() > 2)
    s.nontrivial(hash_str(t));
}

std::vector<Part> pbt::parts()
{
  return { { "codepoints", all_codepoints, 17, 17, 60 }, { "sequences", all_sequences, 256, 256, 60 }, { "range", out_of_range, 2000, 20000, 5 }, { "wide", wide, 60000, 1500000, 8 } };
}
PBT_MAIN
