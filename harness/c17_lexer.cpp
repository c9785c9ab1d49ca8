// C17: a generated scanner does what its specification says.
#include "ast.h"
#include "lexlog.h"
#include <reflex/matcher.h>
#include <dlfcn.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <atomic>
#include <fstream>
#include <sstream>

using namespace pbt;
using ast::Node;
using lexlog::Ev;
using lexlog::Run;

struct Op {
  enum Type { START, PUSH, POP, ECHO_, LESS, MORE, INPUT, UNPUT, PUSHM, STATE, RETURN } t;
  int a = 0;
  std::string text;
};

struct Rule {
  Node first, la;          // pattern and trailing context
  bool eof = false, bol = false, eol = false, look = false, bar = false;
  size_t head = 0;         // length of what precedes the trailing context
  std::set<int> states;
  std::vector<Op> ops;
  int id = 0;
  std::string text;
  bool special() const { return bol || eol || look; }
};

struct Spec {
  int id = 0;
  bool flex = false, find = false, unicode = false, nodefault = false, exception = false, batch = false, wraps = false, uclass = false;
  int tabs = 8;
  std::vector<std::string> states;
  std::vector<bool> exclusive;
  std::vector<Rule> rules;
  std::vector<std::vector<int> > init; // notes of initial code, per state
  std::string l, inc, cli;
  std::vector<std::vector<std::string> > inputs;
  bool uses_more = false, uses_unput = false, uses_input = false, uses_push = false;
};

static std::string cstr(const std::string& t)
{
  std::string o = "\"";
  for (char c : t) o += fmt("\\%03o", static_cast<unsigned char>(c));
  return o + "\"";
}

static std::string cchr(int c) { return c == '\n' ? "'\\n'" : c == '\'' || c == '\\' ? fmt("'\\%c'", c) : fmt("'%c'", c); }

// ---- model -------------------------------------------------------------------------------------------------------

struct Model {
  const Spec& sp;
  const std::vector<std::string>& in;
  std::vector<Ev> ev;
  bool stopped = false;  // nothing is claimed about what follows
  size_t matched = 0, defaults = 0;
  std::set<int> used;
  struct Src { std::string t; size_t pos = 0; bool wild = false; };
  std::vector<Src> src;
  std::vector<int> stack;
  int state = 0, fuel = 0;
  size_t next = 1;
  Model(const Spec& s, const std::vector<std::string>& i) : sp(s), in(i) { }

  void add(Ev::Type t, long id, const std::string& x = "", long l = -1, long f = -1, long c = -1) { Ev e = { t, id, x, l, f, c }; ev.push_back(e); }
  void echo(const std::string& t)
  {
    if (t.empty()) return;
    if (ev.empty() || ev.back().type != Ev::ECHO_) add(Ev::ECHO_, 0);
    ev.back().text += t;
  }
  bool tick() { if (fuel-- > 0) return true; add(Ev::OUT_OF_FUEL, 0); return false; }
  long line(const Src& c, size_t at) const
  {
    if (c.wild) return -1;
    return 1 + std::count(c.t.begin(), c.t.begin() + static_cast<long>(at), '\n');
  }
  long col(const Src& c, size_t at) const
  {
    if (c.wild) return -1;
    size_t b = at;
    while (b > 0 && c.t[b - 1] != '\n') --b;
    long n = 0;
    for (; b < at; ++b)
    {
      unsigned char ch = static_cast<unsigned char>(c.t[b]);
      if (ch == '\t') n += 1 + (~n & (sp.tabs - 1));
      else if (ch < 0x20 || ch > 0x7E) return -1;
      else ++n;
    }
    return n;
  }
  // longest match at p: rule index or -1, token length
  int match(const Src& c, size_t p, size_t& len)
  {
    ast::Eval s(c.t, false), l(c.t, true);
    size_t best = 0;
    int rule = -1, ties = 0;
    bool special = false;
    for (size_t k = 0; k < sp.rules.size(); ++k)
    {
      const Rule& r = sp.rules[k];
      if (r.eof || !r.states.count(state)) continue;
      if (r.bol && !(p == 0 || c.t[p - 1] == '\n')) continue;
      ast::Mask m = s.ends(r.first, ast::Mask(1) << p);
      if (m != l.ends(r.first, ast::Mask(1) << p)) { stopped = true; return -1; }
      if (r.look)
      {
        ast::Mask q = s.ends(r.la, m);
        if (q != l.ends(r.la, m)) { stopped = true; return -1; }
        m = q;
      }
      size_t end = 0;
      for (size_t e = c.t.size(); e > p; --e)
        if (m >> e & 1)
        {
          if (r.eol && !(e == c.t.size() || c.t[e] == '\n' || (c.t[e] == '\r' && e + 1 < c.t.size() && c.t[e + 1] == '\n'))) continue;
          end = e;
          break;
        }
      if (end == 0) continue;
      if (end - p > best) { best = end - p; rule = static_cast<int>(k); ties = 0; special = r.special(); len = r.look ? r.head : best; }
      else if (end - p == best) { ++ties; special |= r.special(); }
    }
    if (ties && special) { stopped = true; return -1; }
    return rule;
  }
  // one call of lex(), false to end
  bool lex()
  {
    for (int n : sp.init[static_cast<size_t>(state)]) add(Ev::NOTE, n);
    std::string more;
    bool have = false;
    while (!stopped)
    {
      Src *c = &src.back();
      size_t p = c->pos, len = 0;
      int k = match(*c, p, len);
      if (stopped) return false;
      if (sp.find)
        while (k < 0 && !stopped && p < c->t.size())
          k = match(*c, ++p, len);
      if (stopped) return false;
      if (k < 0)
      {
        if (have) { stopped = true; return false; }
        if (sp.find) { add(Ev::RET, 0); return false; }
        if (p >= c->t.size())
        {
          const Rule *r = NULL;
          for (const Rule& q : sp.rules) if (q.eof && q.states.count(state)) { r = &q; break; }
          if (!r) { add(Ev::RET, 0); return false; }
          if (!tick()) { add(Ev::RET, -1); return false; }
          add(Ev::END, r->id, "", -1);
          used.insert(r->id);
          int x = eof(*r);
          if (x == 1) { add(Ev::RET, 0); return false; }
          continue;
        }
        ++defaults;
        if (sp.exception || sp.nodefault) { add(Ev::THROW, 0); return false; }
        echo(c->t.substr(p, 1));
        ++c->pos;
        continue;
      }
      size_t i = static_cast<size_t>(k);
      ++matched;
      used.insert(static_cast<int>(1000 + i));
      while (sp.rules[i].bar) ++i;
      const Rule& r = sp.rules[i];
      size_t from = p - more.size();
      std::string text = more + c->t.substr(p, len);
      c->pos = p + len;
      if (!tick()) { add(Ev::RET, -1); return false; }
      if (r.eof)
      {
        // falls through to the action of <<EOF>>
        add(Ev::END, r.id, "", -1);
        if (eof(r) == 1) { add(Ev::RET, 0); return false; }
        more.clear(); have = false;
        continue;
      }
      add(Ev::RULE, r.id, text, line(*c, from), c->wild ? -1 : static_cast<long>(from), col(*c, from));
      used.insert(r.id);
      more.clear();
      have = false;
      for (const Op& o : r.ops)
        switch (o.t)
        {
          case Op::START: state = o.a; break;
          case Op::PUSH: stack.push_back(state); state = o.a; break;
          case Op::POP: if (!stack.empty()) { state = stack.back(); stack.pop_back(); } break;
          case Op::STATE: add(Ev::STATE, state); break;
          case Op::ECHO_: echo(text); break;
          case Op::LESS:
          {
            size_t n = std::min(text.size(), static_cast<size_t>(o.a));
            c->pos -= text.size() - n;
            text.resize(n);
            add(Ev::NOTE, static_cast<long>(n));
            break;
          }
          case Op::MORE: more = text; have = true; break;
          case Op::INPUT: add(Ev::CHAR, c->pos < c->t.size() ? static_cast<unsigned char>(c->t[c->pos]) : sp.flex ? 0 : -1); if (c->pos < c->t.size()) ++c->pos; break;
          case Op::UNPUT: c->wild = true; c->t.insert(c->pos, 1, static_cast<char>(o.a)); if (c->t.size() > 62) { stopped = true; return false; } break;
          case Op::PUSHM:
            if (src.size() < 4)
            {
              src.push_back(Src());
              src.back().t = o.text;
              c = &src.back();
            }
            break;
          case Op::RETURN: add(Ev::RET, o.a); return true;
        }
    }
    return false;
  }
  int eof(const Rule&)
  {
    if (src.size() > 1) { src.pop_back(); return 0; }
    if (!sp.wraps && next < in.size()) { src.back() = Src(); src.back().t = in[next++]; return 0; }
    return 1;
  }
  void run(int f)
  {
    fuel = f;
    src.push_back(Src());
    src.back().t = in[0];
    if (sp.wraps) for (size_t i = 1; i < in.size(); ++i) src.back().t += in[i];
    if (src.back().t.size() > 60) { stopped = true; return; }
    while (lex()) if (ev.size() > 400) { stopped = true; return; }
  }
};

// ---- generation --------------------------------------------------------------------------------------------------

struct SpecGen {
  Source& s;
  Spec& sp;
  ast::Dialect d;
  ast::Gen g;
  bool fsp = false;
  std::vector<Rule *> pending;
  int ids = 1, notes = 1;
  SpecGen(Source& src, Spec& spec) : s(src), sp(spec), g(src, d) { }

  std::string decoy()
  {
    static const char *const t[] = {
      "/* } it's \" a { %} */", "r_->str(\"} { \\\" /* \\\\\");", "r_->chr_('{');", "r_->chr_('\"');", "r_->chr_('\\'');", "if (r_->depth < 0) { r_->str(\"}\"); }", "r_->str(\"//\");", "/* // */", "r_->chr_('}');", "/* \" */", "r_->str(\"'\");", "{ }", "/**/", "/***/", "r_->chr_('\\\\');" };
    return s.chance(1, 4) ? std::string(t[s.below(15)]) + " " : std::string();
  }
  std::string stmts(const Rule& r)
  {
    std::string m = sp.flex ? "yytext, yyleng, yylineno" : "text(), size(), lineno()";
    std::string t = decoy() + "if (!r_->tick()) return -1; ";
    if (r.eof)
    {
      t += fmt("r_->end(%d, 0); if (r_->depth > 0) { --r_->depth; %s; } ", r.id, sp.flex ? "yypop_buffer_state()" : "pop_matcher()");
      if (!sp.wraps) t += fmt("else if (r_->next < r_->inputs.size()) { %s(r_->inputs[r_->next++]); } ", sp.flex && s.flip() ? "yyrestart" : "in");
      t += sp.flex ? "else yyterminate();" : "else return 0;";
      return t + decoy();
    }
    t += fmt("r_->rule(%d, %s, matcher().first(), matcher().columno()); ", r.id, m.c_str());
    for (const Op& o : r.ops)
    {
      std::string n = o.t == Op::START || o.t == Op::PUSH ? sp.states[static_cast<size_t>(o.a)] : "";
      switch (o.t)
      {
        case Op::START: t += sp.flex ? (s.flip() ? "BEGIN(" + n + ");" : "BEGIN " + n + ";") : "start(" + n + ");"; break;
        case Op::PUSH: t += (sp.flex ? "yy_push_state(" : "push_state(") + n + ");"; break;
        case Op::POP: t += sp.flex ? "yy_pop_state();" : "pop_state();"; break;
        case Op::STATE: t += sp.flex ? (s.flip() ? "r_->state(YY_START);" : "r_->state(YYSTATE);") : "r_->state(start());"; break;
        case Op::ECHO_: t += sp.flex ? "ECHO;" : s.chance(1, 3) ? "out() << str();" : "echo();"; break;
        case Op::LESS: t += sp.flex ? fmt("yyless(yyleng < %d ? yyleng : %d); r_->note(yyleng);", o.a, o.a) : fmt("matcher().less(size() < %d ? size() : %d); r_->note(size());", o.a, o.a); break;
        case Op::MORE: t += sp.flex ? "yymore();" : "matcher().more();"; break;
        case Op::INPUT: t += sp.flex ? "r_->chr(yyinput());" : "r_->chr(matcher().input());"; break;
        case Op::UNPUT: t += (sp.flex ? "yyunput(" : "matcher().unput(") + cchr(o.a) + ");"; break;
        case Op::PUSHM:
          t += fmt("if (r_->depth < 3) { ++r_->depth; %s; }", (sp.flex ? "yypush_buffer_state(yy_create_buffer(reflex::Input(" + cstr(o.text) + ", " + str(o.text.size()) + "), YY_BUF_SIZE))" : "push_matcher(new_matcher(reflex::Input(" + cstr(o.text) + ", " + str(o.text.size()) + ")))").c_str());
          break;
        case Op::RETURN: t += fmt("return %d;", o.a); break;
      }
      t += " " + decoy();
    }
    return t;
  }
  static std::string str(size_t n) { return fmt("%zu", n); }
  std::string action(const Rule& r)
  {
    if (r.bar) return s.flip() ? " |\n" : "\t|\n";
    std::string t = stmts(r);
    switch (s.weighted({ fsp ? 0u : 4u, 3, 3, fsp ? 0u : 2u, fsp ? 0u : 1u, 1 }))
    {
      case 0: return (s.flip() ? "  " : "\t") + t + (s.chance(1, 5) ? " // } comment\n" : "\n");
      case 1: return std::string(" { ") + t + (s.chance(1, 5) ? "} // } \" comment\n" : "}\n");
      case 2: return std::string(s.flip() ? " {\n" : " { // { it's\n") + (s.flip() ? "  " : "") + t + "\n" + (s.flip() ? "}\n" : "   }\n");
      case 3: return "\n    " + t + "\n";
      case 4: return "\n%{\n" + t + "\n%}\n";
      default: return std::string(" {\n\n") + "  " + t + (s.flip() ? "\n\n  /* { comment\n     } */\n}\n" : "\n  // }\n}\n");
    }
  }
  // pattern text that can be placed at the start of a line
  static std::string guard(const std::string& t)
  {
    return !t.empty() && (strchr("<}%{/|^", t[0]) || isspace(static_cast<unsigned char>(t[0]))) ? "(?:" + t + ")" : t;
  }
  void alphabet()
  {
    static const std::vector<int> u = { 0xE9, 0xC9, 0x3B1, 0x391, 0x7FF, 0x800, 0x4E2D, 0x20AC, 0x1F600, 0xB5 };
    size_t n = 3 + s.below(4);
    for (size_t i = 0; i < n; ++i)
      switch (s.weighted({ 6, 3, 1, sp.unicode ? 2u : 0u, 1 }))
      {
        case 0: g.alpha.push_back("abcxyzABC"[s.below(9)]); break;
        case 1: g.alpha.push_back("01 _-.*(){}[]|^$\\/\"#<>\'?%+,;:=&~!@`"[s.below(36)]); break;
        case 2: g.alpha.push_back(sp.unicode ? static_cast<int>(s.range(0x20, 0x7E)) : static_cast<int>(s.below(256))); break;
        case 3: g.alpha.push_back(s.pick(u)); break;
        default: g.alpha.push_back("\t\n\r"[s.below(3)]);
      }
  }
  void pattern(Rule& r)
  {
    bool ok_special = !sp.uses_more && !sp.uses_unput;
    ast::Ctx cx = g.init;
    if (!fsp && ok_special && s.chance(1, 8))
    {
      // trailing context after a pattern of fixed length
      r.look = true;
      r.first.t = Node::SEQ;
      std::string t;
      do
      {
        int c = g.chr(cx);
        if (g.init.i && c >= 0x80) c = 'q';
        r.first.k.push_back(g.lit(c, cx));
        t += g.spell(c, cx);
        r.head += cx.u ? ucd::enc(c).size() : 1;
      } while (s.chance(1, 3));
      r.text = guard(t) + "/";
      ast::Ctx c2 = g.init;
      std::string la = g.alt(c2, r.la, 1);
      r.text += r.la.k.size() > 1 || la.empty() ? "(?:" + la + ")" : la;
      if (ast::Gen::nullable(r.la)) discard();
    }
    else
    {
      std::string t = g.alt(cx, r.first, s.chance(1, 3) ? 2 : 1);
      bool many = r.first.k.size() > 1;
      r.text = guard(t);
      if (ok_special && s.chance(1, 8)) { r.bol = true; r.text = "^" + (many ? "(?:" + t + ")" : r.text); }
      if (ok_special && s.chance(1, 8)) { r.eol = true; r.text = (r.bol ? r.text : many ? "(?:" + t + ")" : r.text) + "$"; }
    }
    if (r.text.size() > 700) discard();
    if (s.chance(1, 30)) r.text = "(?#a comment)" + r.text;
    else if (!fsp && s.chance(1, 30) && !r.bol) r.text = "(?:)" + r.text, r.text = r.text.substr(4);
  }
  void ops(Rule& r)
  {
    bool ret = false;
    size_t n = s.below(4);
    int ns = static_cast<int>(sp.states.size());
    bool combined = false;
    for (size_t i = 0; i < n; ++i)
    {
      Op o;
      switch (s.weighted({ ns > 1 ? 4u : 0u, ns > 1 ? 2u : 0u, ns > 1 ? 2u : 0u, 2, combined ? 0u : 1u, sp.uses_more && !combined ? 2u : 0u, sp.uses_input ? 1u : 0u, sp.uses_unput ? 1u : 0u, sp.uses_push && i + 1 == n ? 2u : 0u, 1, i + 1 == n ? 4u : 0u }))
      {
        case 0: o.t = Op::START; o.a = static_cast<int>(s.below(static_cast<uint32_t>(ns))); break;
        case 1: o.t = Op::PUSH; o.a = static_cast<int>(s.below(static_cast<uint32_t>(ns))); break;
        case 2: o.t = Op::POP; break;
        case 3: o.t = Op::ECHO_; break;
        case 4: o.t = Op::LESS; o.a = static_cast<int>(s.weighted({ 1, 6, 4, 2 })); combined = true; break;
        case 5: o.t = Op::MORE; combined = true; n = i + 1; break;
        case 6: o.t = Op::INPUT; combined = true; break;
        case 7: o.t = Op::UNPUT; o.a = "abcx\n\'\\ "[s.below(8)]; combined = true; n = i + 1; break;
        case 8: o.t = Op::PUSHM; o.text = text(2); if (o.text.size() > 20) o.text.resize(0); combined = true; break;
        case 9: o.t = Op::STATE; break;
        default: o.t = Op::RETURN; o.a = static_cast<int>(s.range(1, 9)); ret = true;
      }
      r.ops.push_back(o);
      if (ret) break;
    }
  }
  // some text of the patterns made so far
  std::string text(uint32_t avg)
  {
    std::string t;
    while (t.size() < 50 && s.more(avg))
    {
      std::string w;
      switch (s.weighted({ sp.rules.empty() ? 0u : 6u, 2, 1 }))
      {
        case 0:
        {
          const Rule& r = sp.rules[s.below(static_cast<uint32_t>(sp.rules.size()))];
          if (r.eof) { w = "\n"; break; }
          if (r.bol && s.flip()) w = "\n";
          ast::sample(s, r.first, w);
          if (r.look && !s.chance(1, 4)) ast::sample(s, r.la, w);
          if (r.eol && s.flip()) w += s.chance(1, 3) ? "\r\n" : "\n";
          break;
        }
        case 1: { int c = s.pick(g.alpha); w = sp.unicode ? ucd::enc(c) : std::string(1, static_cast<char>(c)); break; }
        default: w = s.flip() ? " " : "\n";
      }
      if (t.size() + w.size() <= 55) t += w;
    }
    return t;
  }
  std::string prefix(const std::set<int>& scope, std::set<int>& out, bool scoped)
  {
    int ns = static_cast<int>(sp.states.size());
    out = scope;
    std::string t;
    if (s.chance(1, 4)) { t = "<*"; for (int i = 0; i < ns; ++i) out.insert(i); }
    else
    {
      do
      {
        int k = static_cast<int>(s.below(static_cast<uint32_t>(ns)));
        t += (t.empty() ? "<" : ",") + sp.states[static_cast<size_t>(k)];
        out.insert(k);
      } while (s.chance(1, 3));
    }
    if ((scoped || t == "<*") && out.size() > 1 && s.chance(1, 4))
    {
      int k = *out.begin();
      t += (s.chance(1, 4) && t == "<*" ? ",^" : ",^") + sp.states[static_cast<size_t>(k)];
      out.erase(k);
    }
    return t + ">";
  }
  void comment()
  {
    // between rules
    switch (s.weighted({ 12, 1, 1, 1 }))
    {
      case 1: sp.l += "// a comment } { \"\n"; break;
      case 2: sp.l += "/* a comment\n   of two lines } */\n"; break;
      case 3: sp.l += "\n"; break;
      default: break;
    }
  }
  void initial(const std::set<int>& states)
  {
    if (!s.chance(1, 4)) return;
    do
    {
      int k = notes++;
      for (int i : states) sp.init[static_cast<size_t>(i)].push_back(k);
      if (!fsp && s.flip()) sp.l += fmt("  r_->note(%d); %s\n", k, decoy().c_str());
      else sp.l += fmt("%%{\n  r_->note(%d); %s\n%%}\n", k, decoy().c_str());
    } while (s.chance(1, 4));
  }
  void block(const std::set<int>& scope, bool scoped, unsigned depth)
  {
    bool first = true;
    Rule *last = NULL;
    do
    {
      if (!first) comment();
      first = false;
      size_t have = sp.rules.size();
      last = have ? &sp.rules.back() : NULL;
      bool need = last && last->bar;
      if (!need && depth > 0 && sp.states.size() > 1 && s.chance(1, 5))
      {
        std::set<int> in;
        std::string p = prefix(scope, in, scoped);
        sp.l += p + (s.flip() ? "{\n" : " {\n");
        initial(in);
        block(in, true, depth - 1);
        sp.l += "}\n";
        continue;
      }
      Rule r;
      r.id = ids++;
      std::set<int> all, incl;
      for (size_t i = 0; i < sp.states.size(); ++i) { all.insert(static_cast<int>(i)); if (!sp.exclusive[i]) incl.insert(static_cast<int>(i)); }
      r.eof = !sp.find && s.chance(1, 12);
      std::string p;
      bool has = sp.states.size() > 1 && s.chance(1, 3);
      if (has)
        p = prefix(scope, r.states, scoped);
      else if (scoped)
        r.states = scope;
      else
        r.states = r.eof ? all : incl;
      if (need && !std::includes(r.states.begin(), r.states.end(), last->states.begin(), last->states.end()))
      {
        p = "<*>";
        r.states = all;
      }
      if (r.eof) r.text = "<<EOF>>";
      else pattern(r);
      // with a prefix a pattern may start with any character
      std::string t = p + r.text;
      if (!r.eof && s.chance(1, 10) && sp.rules.size() < 12)
        r.bar = true;
      else if (!r.eof)
        ops(r);
      sp.rules.push_back(r);
      sp.l += t + action(r);
    } while (sp.rules.size() < 12 && s.more(scoped ? 2 : 4));
    if (sp.rules.back().bar)
    {
      // the next rule is needed in at least the same states
      Rule r;
      r.id = ids++;
      for (size_t i = 0; i < sp.states.size(); ++i) r.states.insert(static_cast<int>(i));
      pattern(r);
      ops(r);
      sp.rules.push_back(r);
      sp.l += "<*>" + r.text + action(r);
    }
  }
  void gen(int id, bool flex)
  {
    sp.id = id;
    sp.flex = flex;
    std::string defs, opts;
    auto option = [&](const char *spec, const char *cli) // on the command line or in the specification
    {
      if (cli && s.flip()) sp.cli += std::string(" ") + cli;
      else opts += s.chance(1, 3) ? std::string(" ") + spec : std::string("\n%") + (s.chance(1, 3) ? "" : s.flip() ? "o " : "option ") + spec;
    };
    if (s.chance(1, 3)) { sp.unicode = g.init.u = true; option("unicode", s.flip() ? "-u" : "--unicode"); }
    if (s.chance(1, 6)) { g.init.i = true; option("case-insensitive", s.flip() ? "-i" : "--case-insensitive"); }
    if (s.chance(1, 6)) { g.init.s = true; option("dotall", s.flip() ? "-a" : "--dotall"); }
    if (s.chance(1, 6)) { g.init.x = g.xflag = fsp = true; option("freespace", s.flip() ? "-x" : "--freespace"); }
    if (s.chance(1, 6)) { sp.find = true; option("find", s.flip() ? "-S" : "--find"); }
    if (s.chance(1, 3)) { if (s.flip()) option("full", "--full"); else option("fast", "--fast"); }
    if (s.chance(1, 6)) { sp.tabs = 1 << s.below(4); std::string t = fmt("tabs=%d", sp.tabs), u = "--" + t; option(t.c_str(), u.c_str()); }
    if (s.chance(1, 6)) { if (s.flip()) option("batch", "--batch"); else option("interactive", "--interactive"); }
    if (s.chance(1, 10)) { sp.nodefault = true; option("nodefault", "--nodefault"); }
    if (s.chance(1, 10)) { sp.exception = true; option("exception=\"lexlog::Jam()\"", NULL); }
    std::string lexer = flex ? "yyFlexLexer" : "Lexer", method = flex ? "yylex" : "lex", prefixname;
    if (flex && s.chance(1, 4)) { prefixname = fmt("pf%d", id); option(("prefix=" + prefixname).c_str(), NULL); lexer = prefixname + "FlexLexer"; method = prefixname + "lex"; }
    if (!flex && s.chance(1, 4)) { lexer = fmt("My%d", id); option(("lexer=" + lexer).c_str(), ("--lexer=" + lexer).c_str()); }
    if (!flex && s.chance(1, 5)) { method = "scan_it"; option("lex=scan_it", NULL); }
    if (s.chance(1, 4)) option("noline", "--noline");
    sp.cli += fmt(" --namespace=lx%d", id);
    sp.wraps = s.chance(1, 6);
    sp.uses_more = !sp.find && s.chance(1, 4);
    sp.uses_unput = s.chance(1, 6);
    sp.uses_input = s.chance(1, 5) && !sp.uses_more;
    sp.uses_push = !sp.wraps && s.chance(1, 4);
    sp.uclass = s.chance(1, 5);
    std::string cls = lexer;
    if (sp.uclass) { cls = fmt("Tok%d", id); option(((flex ? "yyclass=" : "class=") + cls).c_str(), NULL); }
    g.spec = true;
    g.lex = true;
    alphabet();
    // start conditions
    sp.states.push_back("INITIAL");
    sp.exclusive.push_back(false);
    if (!s.chance(1, 3))
    {
      uint32_t k = 1 + s.below(3);
      std::string cur;
      for (uint32_t i = 0; i < k; ++i)
      {
        bool ex = s.flip();
        std::string n = fmt("%s%d", ex ? "X_" : "S_", static_cast<int>(i) + 10 * id);
        sp.states.push_back(n);
        sp.exclusive.push_back(ex);
        if (i && sp.exclusive[i] == ex && s.flip()) defs.insert(defs.size() - 1, " " + n);
        else defs += std::string("%") + (ex ? s.flip() ? "x" : "xstate" : s.flip() ? "s" : "state") + " " + n + "\n";
      }
    }
    sp.init.resize(sp.states.size());
    // named patterns
    std::string named;
    static const char *const names[] = { "d1", "Name_2", "ws", "X9" };
    for (uint32_t i = 0, k = s.chance(1, 2) ? s.below(4) : 0; i < k; ++i)
    {
      ast::Ctx cx = g.init;
      Node n;
      std::string t = g.alt(cx, n, 1);
      if (t.size() > 200) discard();
      named += std::string(names[i]) + (s.flip() ? " " : "\t  ") + (isspace(static_cast<unsigned char>(t[0])) ? "(?:" + t + ")" : t) + "\n";
      g.macros[names[i]] = std::make_pair(t, n);
      if (s.chance(1, 4)) named += s.flip() ? "// comment\n" : "/* comment\n */\n";
    }
    if (s.chance(1, 5))
    {
      named += "lst [a-cX0-2_]\n";
      g.lists["lst"] = std::make_pair("[a-cX0-2_]", ucd::norm({ { 'a', 'c' }, { 'X', 'X' }, { '0', '2' }, { '_', '_' } }));
    }
    if (!named.empty() && s.chance(1, 4)) { sp.inc = named; named = "%include \"INCFILE\"\n"; }
    std::string wrap = "in(r_->inputs[r_->next++]);";
    std::string members = "public: lexlog::Run *r_;\n";
    if (sp.wraps)
      members += fmt(" virtual int %s() { if (r_->next < r_->inputs.size()) { %s return 0; } return 1; }\n", flex ? "yywrap" : "wrap", wrap.c_str());
    if (flex) members += " virtual void LexerError(const char *) { throw lexlog::Jam(); }\n";
    std::string top = "%top{\n  #include \"lexlog.h\"\n  #include <sstream>\n}\n";
    std::string klass;
    if (sp.uclass)
      klass = "%{\nnamespace " + fmt("lx%d", id) + " {\nclass " + cls + " : public " + lexer + " {\n public:\n " + cls + "(const reflex::Input& i, std::ostream *o) : " + lexer + "(i, " + (flex ? "o" : "*o") + ") { }\n virtual int " + method + "();\n" + members + "};\n}\n%}\n";
    else
      klass = "%class{\n" + members + "}\n";
    std::string code = s.chance(1, 4) ? fmt("%%{\n  namespace { inline int unused%d() { return '}'; } } // }\n%%}\n", id) : s.chance(1, 4) && !fsp ? fmt("  namespace { enum { nothing%d }; }\n", id) : std::string();
    if (!opts.empty() && opts[0] == ' ') opts = "%option" + opts;
    else if (!opts.empty()) opts = opts.substr(1);
    // several options on a line without the keyword option are not defined
    std::string o2;
    std::istringstream is(opts);
    for (std::string ln; std::getline(is, ln);)
    {
      if (ln.compare(0, 3, "%o ") != 0 && ln.compare(0, 8, "%option ") != 0 && std::count(ln.begin(), ln.end(), ' ') > 0)
        ln = "%option " + ln.substr(1);
      o2 += ln + "\n";
    }
    sp.l = top + o2 + klass + defs + code + named + "%%\n";
    std::set<int> incl;
    for (size_t i = 0; i < sp.states.size(); ++i) if (!sp.exclusive[i]) incl.insert(static_cast<int>(i));
    initial(incl);
    block(std::set<int>(), false, 2);
    // size of the automata
    for (size_t i = 0; i < sp.states.size(); ++i)
    {
      Node all;
      all.t = Node::ALT;
      for (const Rule& r : sp.rules)
      {
        if (r.eof || !r.states.count(static_cast<int>(i))) continue;
        Node q;
        q.k.push_back(r.first);
        if (r.look) q.k.push_back(r.la);
        all.k.push_back(q);
      }
      size_t limit = sp.unicode ? 40 : 100;
      if (!all.k.empty() && ast::Size(160).states(all, limit) >= limit) discard();
    }
    // inputs
    size_t runs = 2 + s.below(4);
    for (size_t i = 0; i < runs; ++i)
    {
      std::vector<std::string> v(1, text(7));
      if (sp.wraps) { size_t tot = v[0].size(); while (s.chance(1, 2)) { std::string t = text(2); if (tot + t.size() > 60) break; tot += t.size(); v.push_back(t); } }
      else if (s.chance(1, 4)) while (s.chance(1, 2)) v.push_back(text(4));
      sp.inputs.push_back(v);
    }
    sp.l += "%%\n";
    sp.l += fmt("extern \"C\" void lexrun_%d(lexlog::Run& r)\n{\n  std::ostream os(&r);\n  std::istringstream is(r.inputs[0]);\n"
        "  lx%d::%s lx(r.source == 0 ? reflex::Input(r.inputs[0]) : r.source == 1 ? reflex::Input(is) : reflex::Input(r.inputs[0].data(), r.inputs[0].size()), %sos);\n  lx.r_ = &r;\n  try\n  {\n"
        "    for (int k = 0; k < 300; ++k) { int t = lx.%s(); r.add(lexlog::Ev::RET, t); if (t <= 0) break; }\n  }\n"
        "  catch (lexlog::Jam&) { r.add(lexlog::Ev::THROW, 0); }\n  catch (std::runtime_error&) { r.add(lexlog::Ev::THROW, 0); }\n}\n", id, id, cls.c_str(), flex || sp.uclass ? "&" : "", method.c_str());
  }
};

static std::string slurp(const std::string& f) { std::ifstream i(f.c_str()); std::stringstream o; o << i.rdbuf(); return o.str(); }
static void spit(const std::string& f, const std::string& t) { std::ofstream o(f.c_str()); o << t; }

static const char *const evn[] = { "rule", "end of input rule", "input()", "start()", "note", "output", "return", "throw", "out of fuel" };
static std::string str(const std::vector<Ev>& v, size_t i)
{
  if (i >= v.size()) return "nothing";
  return fmt("%s %ld %s (line %ld, position %ld, column %ld)", evn[v[i].type], v[i].id, show(v[i].text).c_str(), v[i].line, v[i].first, v[i].col);
}

static void batch_case(Source& s)
{
  static std::atomic<int> serial(0);
  std::string dir = workdir() + fmt("/c17_%d_%d", static_cast<int>(getpid()), serial++);
  mkdir(dir.c_str(), 0700);
  struct Cleanup {
    std::string d; void *h = NULL;
    ~Cleanup()
    {
      if (h) dlclose(h);
      if (getenv("C17_KEEP")) return;
      if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(p); }
      rmdir(d.c_str());
    }
  } clean;
  clean.d = dir;
  bool flex = s.chance(1, 3);
  std::vector<Spec> all;
  std::string bin = getenv("REFLEX_BIN");
  std::string tu;
  do
  {
    all.push_back(Spec());
    Spec& sp = all.back();
    int id = static_cast<int>(all.size());
    for (int tries = 0; ; ++tries)
    {
      try
      {
        SpecGen(s, sp).gen(id, flex);
        break;
      }
      catch (pbt::Discard&)
      {
        sp = Spec();
        if (tries > 20) throw;
      }
    }
    std::string f = dir + fmt("/s%d", id);
    size_t at = sp.l.find("INCFILE");
    std::string shown = sp.l.substr(0, sp.l.rfind("%%\n"));
    if (!sp.inc.empty() && at != std::string::npos) { spit(f + ".inc", sp.inc); sp.l.replace(at, 7, f + ".inc"); s.note(fmt("include %d", id), sp.inc); }
    spit(f + ".l", sp.l);
    s.note(fmt("specification %d (reflex%s%s)", id, flex ? " --flex" : "", sp.cli.c_str()), shown);
    for (size_t i = 0; i < sp.inputs.size(); ++i)
      for (const std::string& t : sp.inputs[i])
        s.note(fmt("input %zu", i), show(t));
    bool tables = s.chance(1, 10), header = s.chance(1, 10);
    std::string cmd = "cd " + dir + " && timeout 60 " + bin + (flex ? " --flex" : "") + sp.cli + (tables ? fmt(" --tables-file=%s.tab.cpp", f.c_str()) : "") + (header ? fmt(" --header-file=%s.h", f.c_str()) : "") + " -o " + f + ".cpp " + f + ".l >" + f + ".log 2>&1";
    doing() = "generating from\n" + shown;
    if (system(cmd.c_str()) != 0)
      fail("rejected", fmt("reflex fails on a valid specification: %s\n%s%s", slurp(f + ".log").c_str(), sp.inc.c_str(), shown.c_str()));
    tu += fmt("#include \"%s.cpp\"\n", f.c_str());
    if (tables && access((f + ".tab.cpp").c_str(), R_OK) == 0) tu += fmt("#include \"%s.tab.cpp\"\n", f.c_str());
  } while (all.size() < 24 && s.more(20));
  spit(dir + "/x.cpp", tu);
  std::string so = dir + "/x.so";
  doing() = "compiling";
  std::string cmd = fmt("g++ -std=c++11 -O0 -w -fPIC -shared -I%s/include -I%s -o %s %s/x.cpp >%s/log 2>&1", getenv("VERIF_REPO"), getenv("C17_INC"), so.c_str(), dir.c_str(), dir.c_str());
  if (system(cmd.c_str()) != 0)
    fail("compile", "generated code does not compile: " + slurp(dir + "/log").substr(0, 1500));
  clean.h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!clean.h) { const char *e = dlerror(); fail("load", fmt("generated code does not link: %s", e ? e : "?")); }
  uint64_t h = 0;
  size_t good = 0;
  for (const Spec& sp : all)
  {
    void *a = dlsym(clean.h, fmt("lexrun_%d", sp.id).c_str());
    if (!a) fail("symbol", "name missing");
    void (*run)(Run&) = reinterpret_cast<void (*)(Run&)>(a);
    std::string shown = sp.l.substr(0, sp.l.rfind("%%\n"));
    std::set<int> used;
    size_t matched = 0;
    for (const std::vector<std::string>& in : sp.inputs)
    {
      Model m(sp, in);
      m.run(100);
      std::string what = fmt("scanner of specification %d (reflex%s%s)\n%s%s\non", sp.id, flex ? " --flex" : "", sp.cli.c_str(), sp.inc.c_str(), shown.c_str());
      for (const std::string& t : in) what += " " + show(t);
      doing() = what;
      Run r;
      r.inputs = in;
      r.fuel = 100;
      r.source = static_cast<int>(s.below(3));
      run(r);
      for (size_t i = 0; i < m.ev.size() || (!m.stopped && i < r.ev.size()); ++i)
      {
        bool ok = i < m.ev.size() && i < r.ev.size();
        if (ok)
        {
          const Ev& a1 = m.ev[i], & b = r.ev[i];
          ok = a1.type == b.type && a1.id == b.id && a1.text == b.text && (a1.line < 0 || a1.line == b.line) && (a1.first < 0 || a1.first == b.first) && (a1.col < 0 || a1.col == b.col);
          // output may go on after what is known
          if (!ok && m.stopped && i + 1 == m.ev.size() && a1.type == Ev::ECHO_ && b.type == Ev::ECHO_ && b.text.compare(0, a1.text.size(), a1.text) == 0) ok = true;
        }
        if (!ok)
          fail("differs", fmt("event %zu should be %s but is %s: %s", i + 1, str(m.ev, i).c_str(), str(r.ev, i).c_str(), what.c_str()));
      }
      matched += m.matched;
      used.insert(m.used.begin(), m.used.end());
      if (m.stopped) s.label("stopped");
    }
    if (matched > 5 && used.size() > 2) { ++good; h = hash_str(shown, h); }
    if (sp.states.size() > 1) s.label("start conditions");
    if (sp.find) s.label("find");
    if (sp.wraps) s.label("wrap");
    if (sp.uses_push) s.label("nested inputs");
    if (sp.uses_more) s.label("more");
    if (sp.uses_unput) s.label("unput");
    if (sp.unicode) s.label("unicode");
  }
  if (flex) s.label("flex");
  if (good >= all.size() / 2 && good > 0) s.nontrivial(h);
}

std::vector<Part> pbt::parts() { return { { "batch", batch_case, 100, 3000, 60 } }; }
PBT_MAIN
