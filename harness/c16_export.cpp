// C16: a pattern exported as an opcode table or as C++ code matches like the pattern itself.
#include "genwild.h"
#include <reflex/matcher.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/stat.h>
#include <atomic>

using namespace pbt;

struct Tok { size_t cap, first, size; std::string text; bool end; };
static bool same(const Tok& a, const Tok& b) { return a.cap == b.cap && a.first == b.first && a.size == b.size && a.text == b.text && a.end == b.end; }
static std::string str(const std::vector<Tok>& v, size_t i)
{
  return i < v.size() ? fmt("(%zu, %s at %zu%s)", v[i].cap, show(v[i].text).c_str(), v[i].first, v[i].end ? ", end" : "") : std::string("nothing");
}

static const char *const names[] = { "scan", "find", "split", "matches" };

static std::vector<Tok> run(const reflex::Pattern& p, const std::string& what, const std::string& in, const std::string& opts, int method)
{
  std::vector<Tok> v;
  doing() = fmt("%s: %s() on %s with matcher options \"%s\"", what.c_str(), names[method], show(in).c_str(), opts.c_str());
  reflex::Matcher m(p, reflex::Input(in.data(), in.size()), opts.c_str());
  size_t stuck = 0;
  for (size_t i = 0; i < 3 * in.size() + 20 && v.size() < 150; ++i)
  {
    size_t k = 0;
    switch (method)
    {
      case 0: k = m.scan(); break;
      case 1: k = m.find(); break;
      case 2: k = m.split(); break;
      default: k = m.matches() ? m.accept() : 0;
    }
    Tok t = { k, m.first(), m.size(), std::string(m.begin(), m.size()), m.at_end() };
    v.push_back(t);
    if (method == 3) break;
    if (k == 0)
    {
      if (method != 0 || m.at_end()) break;
      if (m.input() == EOF) break;
    }
    stuck = m.size() == 0 ? stuck + 1 : 0;
    if (stuck > 12) break;
  }
  return v;
}


static void batch_case(Source& s)
{
  static std::atomic<int> serial(0);
  std::string dir = workdir() + fmt("/c16_%d_%d", static_cast<int>(getpid()), serial++);
  mkdir(dir.c_str(), 0700);
  struct Cleanup { std::string d; void *h = NULL; ~Cleanup() { if (h) dlclose(h); for (const char *f : { "/x.cpp", "/x.so", "/log" }) unlink((d + f).c_str()); rmdir(d.c_str()); } } clean;
  clean.d = dir;
  std::string src = dir + "/x.cpp", so = dir + "/x.so";
  struct P { wild::Pat w; std::string opts; std::vector<std::string> in; std::string mo; reflex::Pattern *p; bool pred; };
  struct All { std::vector<P> v; ~All() { for (P& p : v) delete p.p; } } all;
  int n = 1;
  do
  {
    P p;
    p.w = wild::gen(s, 8, 4);
    p.opts = s.flip() ? "" : "i";
    p.pred = !s.chance(1, 3);
    p.mo = s.chance(1, 2) ? "" : s.flip() ? "N" : s.flip() ? "A" : "T=2,W";
    int k = 1 + static_cast<int>(s.below(3));
    for (int j = 0; j < k; ++j) p.in.push_back(wild::input(s, p.w, 8));
    s.note("pattern", show(p.w.text));
    s.note("options", p.opts + (p.pred ? " pred " : " ") + p.mo);
    for (const std::string& t : p.in) s.note("input", show(t));
    std::string pre = "r" + p.opts + (p.pred ? ";p" : "") + ";f=+" + src + ";n=";
    doing() = "compiling " + show(p.w.text);
    try
    {
      p.p = new reflex::Pattern(p.w.text, pre + fmt("op%d", n)); // opcode table
    }
    catch (reflex::regex_error&)
    {
      s.label("rejected");
      continue;
    }
    reflex::Pattern(p.w.text, pre + fmt("fs%d;o", n)); // C++ code
    all.v.push_back(p);
    ++n;
  } while (n <= 60 && s.more(40));
  if (all.v.empty()) discard();
  std::string cmd = fmt("g++ -std=c++11 -O0 -w -fPIC -shared -I%s/include -o %s %s >%s/log 2>&1", getenv("VERIF_REPO"), so.c_str(), src.c_str(), dir.c_str());
  if (system(cmd.c_str()) != 0)
  {
    std::string log;
    if (FILE *f = fopen((dir + "/log").c_str(), "r")) { char b[600]; size_t k = fread(b, 1, sizeof(b), f); log.assign(b, k); fclose(f); }
    fail("compile", "exported code does not compile: " + log);
  }
  clean.h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!clean.h) { const char *e = dlerror(); fail("load", fmt("exported code does not link: %s", e ? e : "?")); }
  auto sym = [&](const std::string& pat, const char *what, int i, const char *args) -> void*
  {
    void *a = dlsym(clean.h, fmt("reflex_%s_%s%d", what, pat.c_str(), i).c_str());
    if (!a && *args) a = dlsym(clean.h, fmt("_Z%zureflex_%s_%s%d%s", strlen("reflex__") + strlen(what) + pat.size() + fmt("%d", i).size(), what, pat.c_str(), i, args).c_str());
    return a;
  };
  uint64_t h = 0;
  size_t tokens = 0;
  for (size_t i = 0; i < all.v.size(); ++i)
  {
    P& p = all.v[i];
    int id = static_cast<int>(i) + 1;
    void *code = sym("op", "code", id, ""), *fsm = sym("fs", "code", id, "RN6reflex7MatcherE");
    void *pr1 = sym("op", "pred", id, ""), *pr2 = sym("fs", "pred", id, "");
    if (!code || !fsm || (p.pred && (!pr1 || !pr2)))
      fail("symbol", fmt("exported name missing (%d %d %d %d)", code != NULL, fsm != NULL, pr1 != NULL, pr2 != NULL));
    reflex::Pattern po(static_cast<const reflex::Pattern::Opcode*>(code), static_cast<const uint8_t*>(p.pred ? pr1 : NULL));
    reflex::Pattern pf(reinterpret_cast<reflex::Pattern::FSM>(fsm), static_cast<const uint8_t*>(p.pred ? pr2 : NULL));
    for (const std::string& in : p.in)
      for (int method = 0; method < 4; ++method)
      {
        std::vector<Tok> a = run(*p.p, "pattern " + show(p.w.text), in, p.mo, method);
        for (int form = 0; form < 2; ++form)
        {
          std::vector<Tok> b = run(form ? pf : po, (form ? "C++ code of " : "opcode table of ") + show(p.w.text), in, p.mo, method);
          for (size_t k = 0; k < a.size() || k < b.size(); ++k)
            if (k >= a.size() || k >= b.size() || !same(a[k], b[k]))
              fail(form ? "fsm" : "table", fmt("%s(): %s%s: match %zu of pattern %s (matcher options \"%s\") on %s is %s, but exported %s yields %s", names[method], form ? "C++ code" : "opcode table", p.pred ? " with predictor" : "", k + 1, show(p.w.text).c_str(), p.mo.c_str(), show(in).c_str(), str(a, k).c_str(), form ? "code" : "table", str(b, k).c_str()));
        }
        tokens += a.size();
        if (a.size() >= 3) h = hash_str(p.w.text + in, h);
      }
  }
  if (tokens > 20) s.nontrivial(h);
}

// known finding: anchors that follow each other in a cycle
static void cyclic_case(Source& s)
{
  reflex::Pattern pattern("(^\\b)+b");
  std::string in = "bbb";
  doing() = "scanning bbb with (^\\b)+b";
  reflex::Matcher m(pattern, in);
  (void)s;
  m.scan();
}

std::vector<Part> pbt::parts() { return { { "batch", batch_case, 220, 4000, 40 }, { "cyclic", cyclic_case, 0, 0, 2 } }; }
PBT_MAIN
