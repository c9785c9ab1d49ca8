// C12: every input source delivers its text in normalized UTF-8, complete and in order, with the right size.
#include "inputs.h"
#include <reflex/matcher.h>

using namespace pbt;

static void read_case(Source& s)
{
  inp::Src r;
  inp::gen_source(s, r, s.flip() ? 4 : 12);
  s.note("source", r.desc);
  s.note("content", r.kind == 3 || r.kind == 4 ? fmt("%zu wide characters", r.wide.size()) : show(r.bytes.substr(0, 200)));
  r.open();
  if (r.kind == 5 && static_cast<int>(r.input.file_encoding()) != r.effective)
    fail("encoding", fmt("file_encoding() is %d, expected %s", r.input.file_encoding(), inp::enc_name[r.effective]));
  std::string got;
  bool sized = !(r.kind == 5 && r.how == 2);
  uint32_t maxn = s.flip() ? 1 + s.below(9) : s.flip() ? 40 : 20000;
  int end = 0;
  size_t steps = 0;
  std::vector<char> buf;
  std::unique_ptr<reflex::Input> copy;
  reflex::Input *in = &r.input;
  while (end < 2 && steps < 30000)
  {
    ++steps;
    bool long_run = steps > 60; // no more interesting choices, just read on
    size_t left = r.expect.size() - got.size();
    bool known = sized && (r.kind != 6 || end == 0);
    if (!long_run && s.chance(1, 4) && known)
    {
      size_t z = in->size();
      // zero when unknown or at the end
      if (z != left && !(r.kind == 6 && left == 0))
        fail("size", fmt("size() is %zu after %zu of %zu bytes", z, got.size(), r.expect.size()));
    }
    if (!long_run && s.chance(1, 4))
    {
      if (left > 0 && in->eof())
        fail("eof", fmt("eof() after %zu of %zu bytes", got.size(), r.expect.size()));
      if (left > 0 && !in->good())
        fail("good", fmt("not good() after %zu of %zu bytes", got.size(), r.expect.size()));
      if (end > 0 && (in->good() || !in->eof()))
        fail("at-end", fmt("good() is %d, eof() is %d at the end", in->good(), in->eof()));
    }
    if (!long_run && s.chance(1, 16)) // continue with a copy of the object
    {
      std::unique_ptr<reflex::Input> c(new reflex::Input(*in));
      if (s.flip()) *c = reflex::Input(*in);
      copy = std::move(c);
      in = copy.get();
    }
    if (!long_run && s.chance(1, 6))
    {
      int c = in->get();
      if (c == EOF)
        ++end;
      else
        got.push_back(static_cast<char>(c));
    }
    else
    {
      size_t n = long_run ? 4096 : 1 + s.below(maxn);
      buf.assign(n + 1, '\x5a');
      size_t k = in->get(buf.data(), n);
      if (k > n || buf[n] != '\x5a')
        fail("overrun", fmt("get(s, %zu) returned %zu", n, k));
      if (k == 0)
        ++end;
      got.append(buf.data(), k);
    }
    if (end && got.size() < r.expect.size())
      fail("lost", fmt("got %zu bytes %s\nexpected %zu bytes %s", got.size(), show(got.substr(0, 200)).c_str(), r.expect.size(), show(r.expect.substr(0, 200)).c_str()));
    if (r.expect.compare(0, got.size(), got) != 0)
    {
      size_t i = 0;
      while (i < got.size() && i < r.expect.size() && got[i] == r.expect[i]) ++i;
      size_t b = i > 8 ? i - 8 : 0;
      fail("text", fmt("wrong text from byte %zu: got %s\nexpected %s", i, show(got.substr(b, 60)).c_str(), show(r.expect.substr(b, 60)).c_str()));
    }
  }
  s.label((r.kind == 5 ? std::string("FILE ") + inp::enc_name[r.effective] : r.desc).c_str());
  if (r.expect.size() > 1 && steps > 2)
    s.nontrivial(hash_str(r.expect) + static_cast<uint64_t>(r.kind * 64 + r.encoding));
}

// the same sources read by a matcher: lines are found in the normalized text
static void match_case(Source& s)
{
  inp::Src r;
  inp::gen_source(s, r, 12);
  s.note("source", r.desc);
  s.note("content", r.kind == 3 || r.kind == 4 ? fmt("%zu wide characters", r.wide.size()) : show(r.bytes.substr(0, 200)));
  r.open();
  static const reflex::Pattern pattern("([^\\n]+)|(\\n)");
  reflex::Matcher m(pattern, r.input);
  uint32_t how = s.below(4);
  if (how == 1) m.buffer(1 + s.below(20));
  if (how == 2) m.interactive();
  if (how == 3 && !m.buffer() && !(r.kind == 6 || r.kind == 5))
    fail("buffer", "buffer() returned false");
  s.note("reading", how == 0 ? "default" : how == 1 ? "block size" : how == 2 ? "interactive" : "buffer()");
  std::string got;
  while (m.scan())
  {
    if (m.first() != got.size())
      fail("first", fmt("first() is %zu, expected %zu", m.first(), got.size()));
    got += m.str();
    if ((m.accept() == 2) != (m.str() == "\n"))
      fail("token", show(m.str()));
  }
  if (got != r.expect)
    fail("matched", fmt("got %zu bytes %s\nexpected %zu bytes %s", got.size(), show(got.substr(0, 200)).c_str(), r.expect.size(), show(r.expect.substr(0, 200)).c_str()));
  if (!m.at_end())
    fail("at-end", "not at_end()");
  if (r.expect.size() > 1)
    s.nontrivial(hash_str(r.expect) + how);
}

// every byte of every code page, every 16-bit unit of UTF-16, code points of UTF-32
static void table_case(Source& s)
{
  int e = 2 + static_cast<int>(s.cycle(37));
  inp::Src r;
  r.kind = 5;
  r.encoding = e;
  for (int i = 0; i < 256; ++i) r.page[i] = static_cast<unsigned short>(i * 257);
  if (e >= inp::latin)
    for (int i = 0; i < 256; ++i) r.bytes += static_cast<char>(i);
  else
    for (int i = 1; i < 0x110000; i += i < 0x10000 ? 1 : 61)
    {
      bool be = e == inp::utf16be || e == inp::utf32be;
      if (e >= inp::utf32be) inp::put32(r.bytes, static_cast<uint32_t>(i), be);
      else if (i < 0x10000) inp::put16(r.bytes, static_cast<unsigned>(i), be);
      else { inp::put16(r.bytes, static_cast<unsigned>(0xD800 + ((i - 0x10000) >> 10)), be); inp::put16(r.bytes, static_cast<unsigned>(0xDC00 + (i & 0x3FF)), be); }
    }
  r.effective = e;
  r.expect = inp::decode(r.bytes, r.effective, r.page);
  r.open();
  s.note("encoding", inp::enc_name[e]);
  size_t z = r.input.size();
  if (z != r.expect.size())
    fail("table-size", fmt("%s: size() is %zu, expected %zu", inp::enc_name[e], z, r.expect.size()));
  std::string got;
  char buf[1000];
  size_t k;
  while ((k = r.input.get(buf, sizeof(buf))) > 0) got.append(buf, k);
  size_t i = 0;
  while (i < got.size() && i < r.expect.size() && got[i] == r.expect[i]) ++i;
  if (got != r.expect)
    fail("table", fmt("%s differs at byte %zu: got %s expected %s", inp::enc_name[e], i, show(got.substr(i, 8)).c_str(), show(r.expect.substr(i, 8)).c_str()));
  s.nontrivial(static_cast<uint64_t>(e));
}

std::vector<Part> pbt::parts()
{
  return { { "tables", table_case, 37, 37, 20 }, { "read", read_case, 400000, 6000000, 20 }, { "match", match_case, 100000, 1500000, 20 } };
}
PBT_MAIN
