// C24: the stream buffers deliver the normalized text of an input; the DOS ones with every CRLF pair as LF.
#include "inputs.h"

using namespace pbt;

static std::string crlf(const std::string& t)
{
  std::string r;
  for (size_t i = 0; i < t.size(); ++i)
    if (!(t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n'))
      r += t[i];
  return r;
}

static void case_(Source& s)
{
  inp::Src r;
  bool buffered = s.flip(), dos = s.flip();
  inp::gen_source(s, r, 14, s.flip() ? 0 : -1);
  if (r.kind == 0 && s.flip()) // CR and LF at the ends and at the edges of the buffers
  {
    r.bytes.clear();
    size_t n = s.below(12);
    if (s.chance(1, 3))
      r.bytes.assign(16384 * (1 + s.below(2)) - s.below(6), 'x');
    for (size_t i = 0; i < n; ++i)
      r.bytes += s.pickc(std::string("\r\r\n\n" "a\xff\x00", 7));
    r.expect = r.bytes;
  }
  std::string expect = dos ? crlf(r.expect) : r.expect;
  s.note("source", r.desc);
  s.note("streambuf", fmt("%s%s", buffered ? "BufferedInput::" : "Input::", dos ? "dos_streambuf" : "streambuf"));
  s.note("content", r.expect.size() > 300 ? fmt("%zu bytes ... %s", r.expect.size(), show(r.expect.substr(r.expect.size() - 20)).c_str()) : show(r.expect));
  r.open();
  std::unique_ptr<std::streambuf> b;
  std::unique_ptr<reflex::BufferedInput> bi;
  if (buffered && s.flip())
  {
    bi.reset(new reflex::BufferedInput(r.input));
    if (s.flip()) { reflex::BufferedInput t; t = *bi; bi.reset(new reflex::BufferedInput(t)); }
    if (dos) b.reset(new reflex::BufferedInput::dos_streambuf(*bi));
    else b.reset(new reflex::BufferedInput::streambuf(*bi));
  }
  else if (buffered)
  {
    if (dos) b.reset(new reflex::BufferedInput::dos_streambuf(r.input));
    else b.reset(new reflex::BufferedInput::streambuf(r.input));
  }
  else
  {
    if (dos) b.reset(new reflex::Input::dos_streambuf(r.input));
    else b.reset(new reflex::Input::streambuf(r.input));
  }
  std::istream is(b.get());
  std::string got;
  size_t steps = 0;
  bool at_end = false;
  while (!at_end && steps < 100000)
  {
    bool more = ++steps > 80;
    size_t left = expect.size() - got.size();
    switch (more ? 3 : s.weighted({3, 2, 3, 3, 2, 1, 1}))
    {
      case 0: // get a character
      {
        int c = is.get();
        if (c == EOF) at_end = true; else got.push_back(static_cast<char>(c));
        break;
      }
      case 1: // peek does not consume
      {
        int c = is.rdbuf()->sgetc();
        int want = left ? static_cast<unsigned char>(expect[got.size()]) : EOF;
        if (c != want)
          fail("peek", fmt("peek is %d, expected %d after %zu of %zu bytes", c, want, got.size(), expect.size()));
        break;
      }
      case 2: // read a block
      {
        size_t n = 1 + s.below(s.chance(1, 8) ? 40000 : 8);
        std::vector<char> v(n + 1, '\x5a');
        std::streamsize k = is.rdbuf()->sgetn(v.data(), static_cast<std::streamsize>(n));
        if (k < 0 || static_cast<size_t>(k) > n || v[n] != '\x5a')
          fail("overrun", fmt("sgetn(%zu) returned %ld", n, static_cast<long>(k)));
        got.append(v.data(), static_cast<size_t>(k));
        if (static_cast<size_t>(k) < n)
          at_end = true;
        break;
      }
      case 3:
      {
        std::vector<char> v(4096);
        is.read(v.data(), more ? 4096 : 100);
        got.append(v.data(), static_cast<size_t>(is.gcount()));
        if (!is.good()) at_end = true;
        break;
      }
      case 4: // a line
      {
        std::string l;
        if (!std::getline(is, l)) { at_end = true; break; }
        got += l;
        if (is.eof()) at_end = true; else got += '\n';
        break;
      }
      case 5:
      {
        std::streamsize k = is.rdbuf()->in_avail();
        if (k > 0 && left == 0)
          fail("avail", fmt("in_avail() is %ld at the end", static_cast<long>(k)));
        if (k < 0 && left > 0)
          fail("avail", fmt("in_avail() is %ld with %zu bytes left", static_cast<long>(k), left));
        if (k > static_cast<std::streamsize>(left) && !dos)
          fail("avail", fmt("in_avail() is %ld with %zu bytes left", static_cast<long>(k), left));
        break;
      }
      default:
      {
        int c = is.rdbuf()->sbumpc();
        if (c == EOF) at_end = true; else got.push_back(static_cast<char>(c));
      }
    }
    if (expect.compare(0, got.size(), got) != 0)
    {
      size_t i = 0;
      while (i < got.size() && i < expect.size() && got[i] == expect[i]) ++i;
      size_t e = i > 8 ? i - 8 : 0;
      fail("text", fmt("wrong text from byte %zu: got %s\nexpected %s", i, show(got.substr(e, 60)).c_str(), show(expect.substr(e, 60)).c_str()));
    }
  }
  if (got != expect)
    fail("lost", fmt("got %zu of %zu bytes", got.size(), expect.size()));
  if (is.rdbuf()->sgetc() != EOF || is.rdbuf()->sbumpc() != EOF || is.rdbuf()->sgetc() != EOF)
    fail("end", "not at the end");
  s.label(dos ? "dos" : "plain");
  if (dos ? expect != r.expect : expect.size() > 1)
    s.nontrivial(hash_str(expect) + dos + 2 * buffered);
}

// BufferedInput as an input of its own
static void buffered_case(Source& s)
{
  inp::Src r;
  inp::gen_source(s, r, 14);
  s.note("source", r.desc);
  s.note("content", show(r.expect.substr(0, 300)));
  r.open();
  reflex::BufferedInput b(r.input);
  std::string got;
  bool sized = !(r.kind == 5 && r.how == 2) && r.kind != 6;
  for (size_t steps = 0; steps < 30000; ++steps)
  {
    bool more = steps > 80;
    size_t left = r.expect.size() - got.size();
    switch (more ? 1 : s.below(5))
    {
      case 0: { int c = b.get(); if (c != (left ? static_cast<unsigned char>(r.expect[got.size()]) : EOF)) fail("get", fmt("get() is %d after %zu of %zu", c, got.size(), r.expect.size())); if (c != EOF) got.push_back(static_cast<char>(c)); break; }
      case 1: { size_t n = more ? 30000 : 1 + s.below(s.chance(1, 8) ? 40000 : 9); std::vector<char> v(n + 1, '\x5a'); size_t k = b.get(v.data(), n); if (v[n] != '\x5a' || k > n) fail("overrun", ""); got.append(v.data(), k); break; }
      case 2: { int c = b.peek(); if (c != (left ? static_cast<unsigned char>(r.expect[got.size()]) : EOF)) fail("peek", fmt("peek() is %d", c)); break; }
      case 3: if (left && (b.eof() || !b.good())) fail("eof", fmt("eof() is %d, good() is %d with %zu bytes left", b.eof(), b.good(), left)); break;
      default: if (sized && b.size() != left) fail("size", fmt("size() is %zu with %zu bytes left", b.size(), left));
    }
    if (r.expect.compare(0, got.size(), got) != 0)
      fail("text", fmt("got %s\nexpected %s", show(got.substr(0, 100)).c_str(), show(r.expect.substr(0, 100)).c_str()));
    if (more && got.size() == r.expect.size())
      break;
  }
  if (got != r.expect)
    fail("lost", fmt("got %zu of %zu bytes", got.size(), r.expect.size()));
  if (b.get() != EOF || b.peek() != EOF || !b.eof() || b.good())
    fail("end", "not at the end");
  if (r.expect.size() > 1)
    s.nontrivial(hash_str(r.expect));
}

std::vector<Part> pbt::parts()
{
  return { { "streambuf", case_, 150000, 3000000, 20 }, { "buffered", buffered_case, 80000, 1500000, 20 } };
}
PBT_MAIN
