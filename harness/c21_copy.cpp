// C21: copies and assignments of patterns and matchers behave like the original, whatever happens to it.
#include "genwild.h"
#include "genpat.h"
#include <reflex/matcher.h>
#include <memory>
#include <new>
#include <unistd.h>

using namespace pbt;

namespace {

struct Tok { size_t cap, first, size; std::string text; bool end; };
bool same(const Tok& a, const Tok& b) { return a.cap == b.cap && a.first == b.first && a.size == b.size && a.text == b.text && a.end == b.end; }

const char *const METHOD[] = { "scan", "find", "split", "matches" };

std::vector<Tok> run(reflex::AbstractMatcher& m, size_t len, int method)
{
  std::vector<Tok> v;
  size_t stuck = 0;
  for (size_t i = 0; i < 3 * len + 20 && v.size() < 100; ++i)
  {
    size_t k = 0;
    switch (method)
    {
      case 0: k = m.scan(); break;
      case 1: k = m.find(); break;
      case 2: k = m.split(); break;
      default: k = m.matches() ? m.accept() : 0;
    }
    Tok t = { k, m.first(), m.size(), std::string(m.begin(), m.size()), m.at_end() };
    v.push_back(t);
    if (method == 3) break;
    if (k == 0)
    {
      if (method != 0 || m.at_end()) break;
      if (m.input() == EOF) break;
    }
    stuck = m.size() == 0 ? stuck + 1 : 0;
    if (stuck > 12) break;
  }
  return v;
}

std::string show_tok(const std::vector<Tok>& v, size_t i)
{
  return i < v.size() ? fmt("(%zu, %s at %zu%s)", v[i].cap, show(v[i].text).c_str(), v[i].first, v[i].end ? ", end" : "") : std::string("nothing");
}

void compare(const char *what, const std::string& log, const std::string& text, const std::string& in, int method, const std::vector<Tok>& a, const std::vector<Tok>& b)
{
  for (size_t k = 0; k < a.size() || k < b.size(); ++k)
    if (k >= a.size() || k >= b.size() || !same(a[k], b[k]))
      fail(what, fmt("after %s: pattern %s: %s() on %s: match %zu is %s, expected %s", log.c_str(), show(text).c_str(), METHOD[method], show(in).c_str(), k + 1, show_tok(b, k).c_str(), show_tok(a, k).c_str()));
}

struct Spec {
  enum Form { NONE, REGEX, TABLE, UNKNOWN } form = NONE;
  std::string text, opts;
  const reflex::Pattern::Opcode *code = NULL;
  const uint8_t *pred = NULL;
};

// one generated regex with its exported table
struct Regex {
  std::string text, opts;
  std::vector<std::string> in;
  std::vector<reflex::Pattern::Opcode> code;
  std::vector<uint8_t> pred;
};

template<typename T> bool numbers(const std::string& s, const std::string& name, std::vector<T>& v)
{
  size_t i = s.find(name);
  if (i == std::string::npos) return false;
  i = s.find('{', i);
  size_t e = s.find("};", i);
  if (i == std::string::npos || e == std::string::npos) return false;
  std::string body = s.substr(i + 1, e - i - 1);
  // drop comments
  std::string t;
  for (size_t k = 0; k < body.size(); ++k)
  {
    if (body.compare(k, 2, "//") == 0) { while (k < body.size() && body[k] != '\n') ++k; }
    if (k < body.size()) t += body[k];
  }
  for (size_t k = 0; k < t.size(); )
  {
    if (isdigit(static_cast<unsigned char>(t[k])))
    {
      char *q;
      v.push_back(static_cast<T>(strtoull(t.c_str() + k, &q, 0)));
      k = static_cast<size_t>(q - t.c_str());
    }
    else ++k;
  }
  return !v.empty();
}

bool gen_regex(Source& s, Regex& r)
{
  if (s.chance(1, 3))
  {
    // a literal or literal prefix, found by vectorized search
    std::string lit;
    size_t n = 2 + s.below(5);
    while (lit.size() < n) lit += s.pickc("abcx");
    r.text = lit + (s.flip() ? "" : "[0-9]*");
    for (int i = 0; i < 2; ++i)
    {
      std::string t;
      for (size_t k = s.below(200); k > 0; --k) t += s.chance(1, 8) ? lit : std::string(1, s.pickc("abcx1"));
      r.in.push_back(t);
    }
  }
  else if (s.flip())
  {
    rem::Pat p = rem::gen_pattern(s, true, 4);
    r.text = p.text;
    r.opts = p.options;
    for (int i = 0; i < 2; ++i) r.in.push_back(rem::gen_input(s, p, p.alphabet, 6));
  }
  else
  {
    wild::Pat w = wild::gen(s, 6, 3);
    r.text = w.text;
    r.opts = s.chance(1, 4) ? "i" : "";
    for (int i = 0; i < 2; ++i) r.in.push_back(wild::input(s, w, 6));
  }
  if (r.text.find('\0') != std::string::npos) return false;
  std::string file = workdir() + fmt("/c21_%d.cpp", static_cast<int>(getpid()));
  try
  {
    reflex::Pattern p(r.text, "r" + r.opts + (r.opts.empty() || r.opts.back() == ';' ? "" : ";") + "p;f=" + file + ";n=x");
  }
  catch (reflex::regex_error&) { unlink(file.c_str()); return false; }
  std::string t;
  if (FILE *f = fopen(file.c_str(), "r")) { char b[65536]; size_t k; while ((k = fread(b, 1, sizeof(b), f)) > 0) t.append(b, k); fclose(f); }
  unlink(file.c_str());
  if (!numbers(t, "reflex_code_x", r.code)) fail("export", "no opcode table in the exported file: " + t.substr(0, 300));
  if (!numbers(t, "reflex_pred_x", r.pred)) r.pred.clear();
  s.note("regex", show(r.text) + " options " + r.opts);
  for (const std::string& i : r.in) s.note("input", show(i));
  return true;
}

struct Slot2 {
  alignas(reflex::Pattern) unsigned char mem[sizeof(reflex::Pattern)];
  reflex::Pattern *p = NULL;
  Spec spec;
  ~Slot2() { drop(); }
  void drop(int fill = 0xA5)
  {
    if (p) p->~Pattern();
    p = NULL;
    memset(mem, fill, sizeof(mem));
  }
};

reflex::Pattern *fresh(const Spec& d, void *mem)
{
  switch (d.form)
  {
    case Spec::REGEX: return new (mem) reflex::Pattern(d.text, "r" + d.opts);
    case Spec::TABLE: return new (mem) reflex::Pattern(d.code, d.pred);
    default: return new (mem) reflex::Pattern();
  }
}

void check(const std::string& log, Slot2& x, const std::vector<Regex>& rs, Source& s)
{
  if (!x.p || x.spec.form == Spec::UNKNOWN) return;
  Slot2 y;
  y.drop(0x5A);
  y.p = fresh(x.spec, y.mem);
  const reflex::Pattern &a = *y.p, &b = *x.p;
  if (a.empty() != b.empty()) fail("pattern-empty", fmt("after %s: empty() is %d, expected %d", log.c_str(), b.empty(), a.empty()));
  if (x.spec.form == Spec::NONE) return;
  if (a.size() != b.size()) fail("pattern-size", fmt("after %s: size() is %u, expected %u", log.c_str(), b.size(), a.size()));
  for (reflex::Pattern::Accept i = 0; i <= a.size() + 1; ++i)
  {
    if (a[i] != b[i]) fail("pattern-part", fmt("after %s: part %u is %s, expected %s", log.c_str(), i, show(b[i]).c_str(), show(a[i]).c_str()));
    if (a.reachable(i) != b.reachable(i)) fail("pattern-reach", fmt("after %s: reachable(%u) is %d, expected %d", log.c_str(), i, b.reachable(i), a.reachable(i)));
  }
  if (a.nodes() != b.nodes() || a.edges() != b.edges() || a.words() != b.words())
    fail("pattern-stats", fmt("after %s: nodes, edges, words are %zu %zu %zu, expected %zu %zu %zu", log.c_str(), b.nodes(), b.edges(), b.words(), a.nodes(), a.edges(), a.words()));
  const Regex& r = rs[s.below(static_cast<uint32_t>(rs.size()))];
  for (const Regex& q : rs)
    if (q.text == x.spec.text || s.chance(1, 4))
      for (const std::string& in : q.in)
      {
        int method = static_cast<int>(s.weighted({ 2, 4, 1, 1 }));
        doing() = fmt("after %s: %s() with %s on %s", log.c_str(), METHOD[method], show(x.spec.text).c_str(), show(in).c_str());
        reflex::Matcher m1(a, reflex::Input(in.data(), in.size())), m2(b, reflex::Input(in.data(), in.size()));
        compare("pattern-match", log, x.spec.text, in, method, run(m1, in.size(), method), run(m2, in.size(), method));
      }
  (void)r;
}

void pattern_case(Source& s)
{
  std::vector<Regex> rs;
  rs.reserve(4);
  size_t nr = 1 + s.below(3);
  for (size_t i = 0; i < nr; ++i)
  {
    Regex r;
    if (!gen_regex(s, r)) discard();
    rs.push_back(r);
  }
  static const char *const BAD[] = { "a(b", "a|*b", "[b-a]", "x{3,1}", "(", "a)b", "abc|d|[", "(?zx)" };
  Slot2 slot[3];
  for (Slot2& x : slot) x.drop();
  std::string log, file = workdir() + fmt("/c21_%d_again.cpp", static_cast<int>(getpid()));
  unlink(file.c_str());
  size_t copies = 0;
  auto gen_spec = [&](bool table)
  {
    const Regex& r = rs[s.below(static_cast<uint32_t>(rs.size()))];
    Spec d;
    d.text = r.text;
    d.opts = r.opts;
    d.form = table ? Spec::TABLE : Spec::REGEX;
    if (table) { d.code = r.code.data(); d.pred = s.flip() && !r.pred.empty() ? r.pred.data() : NULL; }
    return d;
  };
  auto name = [&](const Spec& d)
  {
    return d.form == Spec::NONE ? std::string("none") : d.form == Spec::REGEX ? show(d.text) : d.form == Spec::TABLE ? std::string(d.pred ? "table+pred of " : "table of ") + show(d.text) : std::string("?");
  };
  slot[0].spec = gen_spec(s.chance(1, 3));
  slot[0].p = fresh(slot[0].spec, slot[0].mem);
  log = "p0(" + name(slot[0].spec) + ")";
  size_t n = 1;
  while (s.more(7) && n < 30)
  {
    ++n;
    uint32_t i = s.below(3), j = s.below(3);
    Slot2 &x = slot[i], &y = slot[j];
    switch (s.weighted({ 2, 4, 5, 3, 2, 1, 1, 1, 1 }))
    {
      case 0:
        x.drop(static_cast<int>(s.below(256)));
        x.spec = gen_spec(s.flip());
        log += fmt(" p%u(", i) + name(x.spec) + ")";
        if (x.spec.form == Spec::REGEX && s.chance(1, 3))
        {
          x.p = new (x.mem) reflex::Pattern(x.spec.text, "r" + x.spec.opts + ";f=" + file + ";n=zz");
          log += "*";
          if (unlink(file.c_str()) != 0) fail("export", "no file was written");
        }
        else
          x.p = fresh(x.spec, x.mem);
        break;
      case 1:
        if (!y.p || y.spec.form == Spec::UNKNOWN || i == j) break;
        x.drop(static_cast<int>(s.below(256)));
        log += fmt(" p%u(p%u)", i, j);
        x.p = new (x.mem) reflex::Pattern(*y.p);
        x.spec = y.spec;
        ++copies;
        break;
      case 2:
        if (!x.p || !y.p || y.spec.form == Spec::UNKNOWN) break;
        log += fmt(" p%u=p%u", i, j);
        *x.p = *y.p;
        x.spec = y.spec;
        ++copies;
        break;
      case 3:
        if (!x.p) break;
        x.spec = gen_spec(false);
        log += fmt(" p%u.assign(", i) + name(x.spec) + ")";
        switch (s.below(3))
        {
          case 0: x.p->assign(x.spec.text, "r" + x.spec.opts); break;
          case 1: x.p->assign(x.spec.text.c_str(), ("r" + x.spec.opts).c_str()); break;
          default:
            if (x.spec.opts.empty()) { if (s.flip()) *x.p = x.spec.text; else *x.p = x.spec.text.c_str(); }
            else x.p->assign(x.spec.text.c_str(), "r" + x.spec.opts);
        }
        ++copies;
        break;
      case 4:
        if (!x.p) break;
        x.spec = gen_spec(true);
        log += fmt(" p%u.assign(", i) + name(x.spec) + ")";
        if (x.spec.pred || s.flip()) x.p->assign(x.spec.code, x.spec.pred);
        else *x.p = x.spec.code;
        ++copies;
        break;
      case 5:
        if (!x.p) break;
        log += fmt(" p%u.clear()", i);
        x.p->clear();
        x.spec = Spec();
        break;
      case 6:
        x.drop(static_cast<int>(s.below(256)));
        log += fmt(" p%u()", i);
        x.p = new (x.mem) reflex::Pattern();
        x.spec = Spec();
        break;
      case 7:
        if (!x.p) break;
        {
          const char *bad = BAD[s.below(8)];
          log += fmt(" p%u.assign(", i) + bad + ")";
          try { x.p->assign(bad, "r"); fail("pattern-bad", fmt("%s is not rejected", bad)); }
          catch (reflex::regex_error&) { }
          x.spec.form = Spec::UNKNOWN;
        }
        break;
      default:
        if (!x.p) break;
        log += fmt(" ~p%u", i);
        x.drop();
    }
    if (access(file.c_str(), F_OK) == 0)
    {
      unlink(file.c_str());
      fail("pattern-file", "after " + log + ": the file of an earlier pattern was written again");
    }
    check(log, slot[i], rs, s);
    if (s.chance(1, 3)) check(log, slot[s.below(3)], rs, s);
  }
  if (copies >= 2) s.nontrivial(hash_str(log));
}

// matchers in memory with a chosen content, or from clone()
struct MDelete {
  bool raw = false;
  void operator()(reflex::Matcher *m) const
  {
    if (!raw) { delete m; return; }
    m->~Matcher();
    free(m);
  }
};
typedef std::unique_ptr<reflex::Matcher, MDelete> MPtr;

MPtr raw_copy(const reflex::Matcher& y, uint32_t fill)
{
  uint32_t *mem = static_cast<uint32_t*>(aligned_alloc(64, (sizeof(reflex::Matcher) + 63) / 64 * 64));
  for (size_t i = 0; i < (sizeof(reflex::Matcher) + 63) / 64 * 16; ++i) mem[i] = fill;
  MDelete d;
  d.raw = true;
  return MPtr(new (mem) reflex::Matcher(y), d);
}

struct MSlot {
  MPtr m;
  size_t spec = 0;          // index of the regex
  std::string opts;         // matcher options
  std::vector<size_t> stops;
};

void matcher_case(Source& s)
{
  std::vector<Regex> rs;
  std::vector<std::unique_ptr<reflex::Pattern> > ps;
  size_t nr = 1 + s.below(3);
  for (size_t i = 0; i < nr; ++i)
  {
    Regex r;
    if (!gen_regex(s, r)) discard();
    if (!r.opts.empty()) discard();
    rs.push_back(r);
    ps.emplace_back(new reflex::Pattern(r.text, "r"));
  }
  std::vector<MPtr> keep; // sources may share their own pattern: they outlive all others
  MSlot slot[3];
  static const char *const OPTS[] = { "", "N", "A", "T=2", "W", "AN", "T=4,A" };
  std::string log;
  size_t copies = 0;
  auto input = [&]() -> const std::string& { const Regex& r = rs[s.below(static_cast<uint32_t>(rs.size()))]; return r.in[s.below(static_cast<uint32_t>(r.in.size()))]; };
  auto make = [&](uint32_t i)
  {
    MSlot& x = slot[i];
    if (x.m) keep.emplace_back(std::move(x.m));
    x.spec = s.below(static_cast<uint32_t>(rs.size()));
    x.opts = OPTS[s.below(7)];
    x.stops.clear();
    const std::string& in = input();
    switch (s.below(3))
    {
      case 0: x.m = MPtr(new reflex::Matcher(*ps[x.spec], in, x.opts.c_str())); break;
      case 1: x.m = MPtr(new reflex::Matcher(ps[x.spec].get(), in, x.opts.c_str())); break;
      default: x.m = MPtr(new reflex::Matcher(rs[x.spec].text, in, x.opts.c_str())); break;
    }
    if (s.flip()) x.m->buffer(1 + s.below(6));
    log += fmt(" m%u(", i) + show(rs[x.spec].text) + ", " + x.opts + ")";
  };
  // a copy starts with the input that its original did not read yet
  auto rest = [&](uint32_t i, reflex::Matcher& y)
  {
    if (!y.stops().empty() || s.flip()) return;
    MSlot& x = slot[i];
    reflex::Input in(y.in);
    std::string t;
    char b[64];
    while (size_t k = in.get(b, sizeof(b))) t.append(b, k);
    int method = static_cast<int>(s.weighted({ 2, 4, 1, 1 }));
    doing() = fmt("after %s: m%u.%s() on the rest %s", log.c_str(), i, METHOD[method], show(t).c_str());
    reflex::Matcher m1(*ps[x.spec], t, x.opts.c_str());
    compare("matcher-rest", log + fmt(": m%u", i), rs[x.spec].text + " options " + x.opts, t, method, run(m1, t.size(), method), run(*x.m, t.size(), method));
  };
  // does another matcher use the pattern that this one owns?
  auto shared = [&](uint32_t i)
  {
    MSlot& x = slot[i];
    if (!x.m->own_pattern()) return false;
    for (uint32_t c = 0; c < 3; ++c)
      if (c != i && slot[c].m && &slot[c].m->pattern() == &x.m->pattern()) return true;
    return false;
  };
  make(0);
  size_t n = 1;
  while (s.more(8) && n < 30)
  {
    ++n;
    uint32_t i = s.below(3), j = s.below(3);
    MSlot &x = slot[i], &y = slot[j];
    switch (s.weighted({ 2, 3, 3, 2, 2, 3 }))
    {
      case 0: make(i); break;
      case 1: // copy or clone
        if (!y.m || i == j) break;
        if (x.m) keep.emplace_back(std::move(x.m));
        if (s.flip()) { log += fmt(" m%u(m%u)", i, j); static const uint32_t FILL[] = { 0, 0x00014000, 0x40000001, 0xA5A5A5A5, 0xFFFFFFFF }; x.m = raw_copy(*y.m, FILL[s.below(5)]); }
        else { log += fmt(" m%u=m%u.clone()", i, j); x.m = MPtr(y.m->clone()); }
        x.spec = y.spec;
        x.opts = y.opts;
        ++copies;
        rest(i, *y.m);
        break;
      case 2: // assign
        if (!x.m || !y.m || (i != j && shared(i))) break;
        log += fmt(" m%u=m%u", i, j);
        *x.m = *y.m;
        x.spec = y.spec;
        x.opts = y.opts;
        ++copies;
        if (i != j) rest(i, *y.m);
        break;
      case 3: // another pattern
        if (!x.m) break;
        if (s.chance(1, 3) && y.m && i != j)
        {
          if (shared(i)) break;
          log += fmt(" m%u.pattern(m%u)", i, j);
          x.m->pattern(*y.m);
          x.spec = y.spec;
          x.opts = y.opts;
        }
        else
        {
          if (shared(i)) break;
          x.spec = s.below(static_cast<uint32_t>(rs.size()));
          log += fmt(" m%u.pattern(", i) + show(rs[x.spec].text) + ")";
          switch (s.below(3))
          {
            case 0: x.m->pattern(*ps[x.spec]); break;
            case 1: x.m->pattern(ps[x.spec].get()); break;
            default: x.m->pattern(rs[x.spec].text); break;
          }
        }
        break;
      case 4: // a pattern that is rejected
        if (!x.m || shared(i)) break;
        log += fmt(" m%u.pattern(too large)", i);
        try { x.m->pattern(s.flip() ? std::string("a{70000}") : std::string("((a{300}){300})")); x.m->pattern(*ps[x.spec]); }
        catch (reflex::regex_error&) { s.label("rejected-pattern"); }
        break;
      default: // match part of the input, so that the copies made later are made midway
        if (!x.m) break;
        {
          int k = 1 + static_cast<int>(s.below(3));
          int method = static_cast<int>(s.below(3));
          log += fmt(" m%u.%s()", i, METHOD[method]);
          while (k-- > 0) { if (method == 0) x.m->scan(); else if (method == 1) x.m->find(); else x.m->split(); }
        }
    }
    uint32_t c = s.flip() ? i : s.below(3);
    MSlot& z = slot[c];
    if (!z.m) continue;
    if (!z.m->has_pattern()) fail("matcher-pattern", "after" + log + ": no pattern");
    if (z.m->pattern()[0] != rs[z.spec].text) fail("matcher-pattern", "after" + log + fmt(": m%u has pattern ", c) + show(z.m->pattern()[0]));
    if (s.flip())
    {
      const std::string& in = input();
      int method = static_cast<int>(s.weighted({ 2, 4, 1, 1 }));
      doing() = fmt("after %s: m%u.%s() on %s", log.c_str(), c, METHOD[method], show(in).c_str());
      reflex::Matcher m1(*ps[z.spec], in, z.opts.c_str());
      z.m->input(in);
      compare("matcher-match", log + fmt(": m%u", c), rs[z.spec].text + " options " + z.opts, in, method, run(m1, in.size(), method), run(*z.m, in.size(), method));
    }
  }
  // the matchers that shared patterns go first
  for (MSlot& x : slot) if (x.m && !x.m->own_pattern()) x.m.reset();
  if (copies >= 2) s.nontrivial(hash_str(log));
}

}

std::vector<pbt::Part> pbt::parts()
{
  return { { "pattern", pattern_case, 6000, 250000, 10 }, { "matcher", matcher_case, 6000, 250000, 10 } };
}
PBT_MAIN
