// Generated input sources: contents in some encoding behind a string, wide string, FILE* or stream, with
// the expected normalized UTF-8 text.
#ifndef INPUTS_H
#define INPUTS_H
#include "pbt.h"
#include "cp_tables.h"
#include <reflex/input.h>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <memory>
#include <cstdio>

namespace inp {

using pbt::Source;

// generic UTF-8 encoder, the library's invalid character code when out of range
inline std::string enc(int64_t c)
{
  std::string s;
  if (c < 0 || c > 0x10FFFF) return "\xf8\x88\x80\x80\x80";
  if (c < 0x80) s += static_cast<char>(c);
  else if (c < 0x800) { s += static_cast<char>(0xC0 | c >> 6); s += static_cast<char>(0x80 | (c & 63)); }
  else if (c < 0x10000) { s += static_cast<char>(0xE0 | c >> 12); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
  else { s += static_cast<char>(0xF0 | c >> 18); s += static_cast<char>(0x80 | (c >> 12 & 63)); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
  return s;
}

enum { plain, utf8, utf16be, utf16le, utf32be, utf32le, latin, cp437, custom = 38 };
static const char *enc_name[] = { "plain", "utf8", "utf16be", "utf16le", "utf32be", "utf32le", "latin", "cp437", "cp850", "cp858", "ebcdic", "cp1250", "cp1251", "cp1252", "cp1253", "cp1254", "cp1255", "cp1256", "cp1257", "cp1258", "iso8859_2", "iso8859_3", "iso8859_4", "iso8859_5", "iso8859_6", "iso8859_7", "iso8859_8", "iso8859_9", "iso8859_10", "iso8859_11", "iso8859_13", "iso8859_14", "iso8859_15", "iso8859_16", "macroman", "koi8_r", "koi8_u", "koi8_ru", "custom" };

// reference decoding of 16-bit units
inline std::string from16(const std::vector<unsigned>& u)
{
  std::string s;
  for (size_t i = 0; i < u.size(); ++i)
  {
    if (u[i] >= 0xD800 && u[i] < 0xE000)
    {
      if (u[i] < 0xDC00 && i + 1 < u.size() && u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000)
      {
        s += enc(0x10000 + ((u[i] - 0xD800) << 10) + (u[i + 1] - 0xDC00));
        ++i;
      }
      else
      {
        s += enc(-1);
      }
    }
    else
    {
      s += enc(u[i]);
    }
  }
  return s;
}

// reference decoding of raw file bytes: byte order mark first, then the given encoding; sets the effective encoding
inline std::string decode(const std::string& raw, int& e, const unsigned short *page)
{
  std::string b = raw;
  auto starts = [&](const std::string& p) { return b.compare(0, p.size(), p) == 0; };
  if (starts("\xef\xbb\xbf")) { e = utf8; b.erase(0, 3); }
  else if (starts(std::string("\0\0\xfe\xff", 4))) { e = utf32be; b.erase(0, 4); }
  else if (starts(std::string("\xff\xfe\0\0", 4))) { e = utf32le; b.erase(0, 4); }
  else if (starts("\xfe\xff")) { e = utf16be; b.erase(0, 2); }
  else if (starts("\xff\xfe")) { e = utf16le; b.erase(0, 2); }
  auto at = [&](size_t i) { return static_cast<unsigned>(static_cast<unsigned char>(b[i])); };
  std::string s;
  if (e == plain || e == utf8)
    return b;
  if (e == utf16be || e == utf16le)
  {
    std::vector<unsigned> u;
    for (size_t i = 0; i + 1 < b.size(); i += 2)
      u.push_back(e == utf16be ? at(i) << 8 | at(i + 1) : at(i) | at(i + 1) << 8);
    return from16(u);
  }
  if (e == utf32be || e == utf32le)
  {
    for (size_t i = 0; i + 3 < b.size(); i += 4)
    {
      uint32_t c = e == utf32be ? at(i) << 24 | at(i + 1) << 16 | at(i + 2) << 8 | at(i + 3) : at(i) | at(i + 1) << 8 | at(i + 2) << 16 | at(i + 3) << 24;
      s += enc(static_cast<int64_t>(c));
    }
    return s;
  }
  for (size_t i = 0; i < b.size(); ++i)
  {
    if (e == latin) s += enc(at(i));
    else if (e == custom) s += enc(page[at(i)]);
    else
    {
      int c = cp_tables[e - cp437][at(i)];
      s += enc(c >= 0 ? c : reflex::codepages[e - cp437][at(i)]); // unassigned: whatever the library has
    }
  }
  return s;
}

inline int gen_cp(Source& s)
{
  static const int edges[] = { 0, 0x0A, 0x0D, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF };
  switch (s.weighted({6, 2, 2, 2, 2, 2}))
  {
    case 0: return "abc \n\r\t09"[s.below(9)];
    case 1: return static_cast<int>(0x80 + s.below(0x780));
    case 2: { int c = static_cast<int>(0x800 + s.below(0xF800)); return c >= 0xD800 && c < 0xE000 ? 0xE9 : c; }
    case 3: return static_cast<int>(0x10000 + s.below(0x100000));
    case 4: return edges[s.below(sizeof(edges) / sizeof(*edges))];
    default: return static_cast<int>(s.below(128));
  }
}

inline void put16(std::string& b, unsigned u, bool be)
{
  char hi = static_cast<char>(u >> 8), lo = static_cast<char>(u);
  if (be) { b += hi; b += lo; } else { b += lo; b += hi; }
}
inline void put32(std::string& b, uint32_t u, bool be)
{
  for (int i = 0; i < 4; ++i)
    b += static_cast<char>(u >> (be ? 24 - 8 * i : 8 * i));
}

// break lines that do not fit the small buffer of the REFLEX_VERIF_BLOCK build
inline void short_lines(std::string& text)
{
#ifdef REFLEX_VERIF_BLOCK
  size_t run = 0;
  for (size_t i = 0; i < text.size(); ++i)
  {
    if (text[i] == '\n') run = 0;
    else if (++run >= REFLEX_VERIF_BLOCK / 2) { text[i] = '\n'; run = 0; }
  }
#else
  (void)text;
#endif
}
struct Src {
  int kind = 0;                 // 0 std::string, 1 char*, 2 (char*, size), 3 wchar_t*, 4 std::wstring, 5 FILE*, 6 std::istream
  int how = 0;                  // FILE: 0 disk file, 1 fmemopen, 2 pipe, 3 disk file read from an offset
  std::string desc;
  std::string bytes;            // kinds 0-2, 5, 6
  std::wstring wide;
  int encoding = 0;             // requested
  int effective = 0;            // expected
  unsigned short page[256];
  std::string expect;           // expected text
  FILE *file = nullptr;
  std::unique_ptr<std::istringstream> is;
  std::unique_ptr<std::string> str;
  reflex::Input input;
  Src() {}
  Src(const Src&) = delete;
  ~Src() { if (file) fclose(file); }

  void open()
  {
    switch (kind)
    {
      case 0: input = reflex::Input(bytes); break;
      case 1: input = reflex::Input(bytes.c_str()); break;
      case 2: input = reflex::Input(bytes.data(), bytes.size()); break;
      case 3: input = reflex::Input(wide.c_str()); break;
      case 4: input = reflex::Input(wide); break;
      case 5:
      {
        std::string prefix = how == 3 ? "skipped\n" : "";
        if (how == 1)
        {
          if (bytes.empty())
            pbt::discard();
          file = fmemopen(const_cast<char*>(bytes.data()), bytes.size(), "r");
        }
        else if (how == 2)
        {
          int fd[2];
          if (bytes.size() > 60000 || pipe(fd) != 0)
            pbt::discard();
          if (!bytes.empty() && write(fd[1], bytes.data(), bytes.size()) != static_cast<ssize_t>(bytes.size()))
            abort();
          ::close(fd[1]);
          file = fdopen(fd[0], "r");
        }
        else
        {
          std::string name = pbt::workdir() + pbt::fmt("/in.%d", getpid());
          FILE *o = fopen(name.c_str(), "w");
          if (!o) abort();
          fwrite(prefix.data(), 1, prefix.size(), o);
          fwrite(bytes.data(), 1, bytes.size(), o);
          fclose(o);
          file = fopen(name.c_str(), "r");
          unlink(name.c_str());
          if (!file) abort();
          if (!prefix.empty())
            fseek(file, static_cast<long>(prefix.size()), SEEK_SET);
        }
        if (!file) abort();
        if (encoding == plain)
          input = reflex::Input(file);
        else
          input = reflex::Input(file, static_cast<reflex::Input::file_encoding_type>(encoding), encoding == custom ? page : nullptr);
        break;
      }
      default:
        is.reset(new std::istringstream(bytes));
        input = reflex::Input(*is);
    }
  }
};

// any source with text of about avg characters
inline void gen_source(Source& s, Src& r, int avg, int kind = -1)
{
  static const char *kinds[] = { "std::string", "char*", "char*+size", "wchar_t*", "std::wstring", "FILE*", "std::istream" };
  r.kind = kind >= 0 ? kind : static_cast<int>(s.weighted({1, 1, 1, 2, 2, 10, 1}));
  r.desc = kinds[r.kind];
  size_t n = 0;
  while (s.more(static_cast<uint32_t>(avg))) ++n;
  bool longer = s.chance(1, 40);
  if (longer)
    n += 3000 + s.below(20000);
  std::vector<int> cps; // a repeated stretch when longer
  size_t distinct = longer ? 3 + s.below(20) : n;
  if (r.kind == 3 || r.kind == 4)
  {
    std::vector<unsigned> u;
    for (size_t i = 0; i < distinct; ++i)
    {
      int c = gen_cp(s);
      if (c == 0) c = 'x';
      switch (s.weighted({12, 2, 1, 1, 1}))
      {
        case 0: r.wide += static_cast<wchar_t>(c); break;
        case 1: if (c >= 0x10000) { r.wide += static_cast<wchar_t>(0xD800 + ((c - 0x10000) >> 10)); r.wide += static_cast<wchar_t>(0xDC00 + (c & 0x3FF)); } else r.wide += static_cast<wchar_t>(c); break;
        case 2: r.wide += static_cast<wchar_t>(0xD800 + s.below(0x400)); break;
        case 3: r.wide += static_cast<wchar_t>(0xDC00 + s.below(0x400)); break;
        default: r.wide += static_cast<wchar_t>(s.flip() ? 0x110000 + static_cast<int>(s.below(0x100000)) : s.flip() ? -1 - static_cast<int>(s.below(1000)) : 0x7FFFFFFF);
      }
    }
    if (distinct) while (r.wide.size() < n) r.wide += r.wide.substr(0, n - r.wide.size());
    // reference: pairs of surrogates combine, others are invalid
    for (size_t i = 0; i < r.wide.size(); ++i)
    {
      int64_t c = static_cast<int32_t>(r.wide[i]);
      if (c >= 0xD800 && c < 0xE000)
      {
        int64_t d = i + 1 < r.wide.size() ? static_cast<int32_t>(r.wide[i + 1]) : 0;
        if (c < 0xDC00 && d >= 0xDC00 && d < 0xE000) { r.expect += enc(0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00)); ++i; }
        else r.expect += enc(-1);
      }
      else r.expect += enc(c);
    }
    return;
  }
  if (r.kind == 5)
  {
    r.how = static_cast<int>(s.weighted({5, 2, 2, 1}));
    static const char *hows[] = { "disk", "fmemopen", "pipe", "disk+offset" };
    r.encoding = s.chance(1, 4) ? plain : s.flip() ? static_cast<int>(1 + s.below(6)) : static_cast<int>(7 + s.below(32));
    if (r.encoding == custom)
      for (int i = 0; i < 256; ++i)
        r.page[i] = static_cast<unsigned short>(i < 128 && i != 0 ? i : s.flip() ? s.below(0x10000) : s.below(256));
    int content = r.encoding;
    bool bom = s.chance(1, 2);
    if (bom && content != utf8 && !(content >= utf16be && content <= utf32le))
      content = 1 + static_cast<int>(s.below(5));
    if (bom)
      switch (content)
      {
        case utf8: r.bytes = "\xef\xbb\xbf"; break;
        case utf16be: r.bytes = "\xfe\xff"; break;
        case utf16le: r.bytes = "\xff\xfe"; break;
        case utf32be: r.bytes = std::string("\0\0\xfe\xff", 4); break;
        default: r.bytes = std::string("\xff\xfe\0\0", 4); break;
      }
    for (size_t i = 0; i < distinct; ++i)
    {
      int c = gen_cp(s);
      size_t odd = s.weighted({14, 1, 1, 1});
      bool be = content == utf16be || content == utf32be;
      if (content == utf16be || content == utf16le)
      {
        if (odd == 1) put16(r.bytes, 0xD800 + s.below(0x400), be);
        else if (odd == 2) put16(r.bytes, 0xDC00 + s.below(0x400), be);
        else if (c >= 0x10000) { put16(r.bytes, 0xD800 + ((c - 0x10000) >> 10), be); put16(r.bytes, 0xDC00 + (c & 0x3FF), be); }
        else put16(r.bytes, static_cast<unsigned>(c), be);
      }
      else if (content == utf32be || content == utf32le)
      {
        put32(r.bytes, odd == 1 ? 0xD800 + s.below(0x800) : odd == 2 ? 0x110000 + s.below(0x1000000) : odd == 3 ? 0x80000000u + s.below(0x7FFFFFFF) : static_cast<uint32_t>(c), be);
      }
      else if (content <= utf8)
      {
        if (odd) r.bytes += static_cast<char>(s.below(256));
        else r.bytes += enc(c);
      }
      else
      {
        r.bytes += static_cast<char>(s.flip() ? s.below(256) : c);
      }
    }
    if (s.chance(1, 12)) // stray leading or trailing bytes
    {
      if (s.flip() || bom) { r.bytes += static_cast<char>(s.below(256)); if (s.flip()) r.bytes += static_cast<char>(s.below(256)); }
      else
      {
        std::string p;
        int k = 1 + static_cast<int>(s.below(4));
        for (int i = 0; i < k; ++i) p += s.pickc(std::string("\0\xef\xbb\xbf\xfe\xff" "a", 7));
        r.bytes = p + r.bytes;
      }
    }
    if (distinct) while (r.bytes.size() < n) r.bytes += r.bytes.substr(bom && r.bytes.size() > 4 ? 4 : 0, n - r.bytes.size());
    r.effective = r.encoding;
    r.expect = decode(r.bytes, r.effective, r.page);
    r.desc += pbt::fmt(" (%s, %s%s)", hows[r.how], enc_name[r.encoding], bom ? pbt::fmt(", BOM %s", enc_name[content]).c_str() : "");
    return;
  }
  for (size_t i = 0; i < distinct; ++i)
    if (s.chance(1, 6)) r.bytes += static_cast<char>(s.below(256));
    else r.bytes += enc(gen_cp(s));
  if (distinct) while (r.bytes.size() < n) r.bytes += r.bytes.substr(0, n - r.bytes.size());
  if (r.kind == 1)
    for (char& c : r.bytes) if (c == 0) c = 'x';
  r.expect = r.bytes;
}

} // namespace inp
#endif
