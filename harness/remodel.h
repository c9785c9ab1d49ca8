// remodel.h - reference regular-expression model: AST over bytes, Thompson NFA, leftmost-longest
// simulation with zero-width assertions, and a generator that produces a pattern text in RE/flex
// syntax together with the AST it denotes.  Independent of RE/flex code.
#ifndef REMODEL_H
#define REMODEL_H

#include "pbt.h"
#include <algorithm>
#include <bitset>
#include <memory>

namespace rem {

typedef std::bitset<256> Set;

enum Kind { EPS, SET, CAT, ALT, REP, ASSERT };
enum Assert { A_BOL, A_EOL, A_BOB, A_EOB, A_WB, A_NWB, A_BOW, A_EOW };

struct Node;
typedef std::shared_ptr<Node> P;
struct Node {
  Kind kind;
  Set set;
  int lo, hi; // REP
  Assert as;
  std::vector<P> kids;
  Node(Kind k) : kind(k), lo(0), hi(0), as(A_BOL) { }
};

inline P eps() { return std::make_shared<Node>(EPS); }
inline P mkset(const Set& s) { P p = std::make_shared<Node>(SET); p->set = s; return p; }
inline P chr(unsigned char c) { Set s; s.set(c); return mkset(s); }
inline P cat(const std::vector<P>& v) { if (v.size() == 1) return v[0]; P p = std::make_shared<Node>(CAT); p->kids = v; return p; }
inline P alt(const std::vector<P>& v) { if (v.size() == 1) return v[0]; P p = std::make_shared<Node>(ALT); p->kids = v; return p; }
inline P rep(P a, int lo, int hi) { P p = std::make_shared<Node>(REP); p->kids.push_back(a); p->lo = lo; p->hi = hi; return p; }
inline P assertion(Assert a) { P p = std::make_shared<Node>(ASSERT); p->as = a; return p; }
inline P lit(const std::string& s) { std::vector<P> v; for (unsigned char c : s) v.push_back(chr(c)); if (v.empty()) return eps(); return cat(v); }

inline bool nullable(const P& n)
{
  switch (n->kind)
  {
    case EPS: case ASSERT: return true;
    case SET: return false;
    case CAT: for (const P& k : n->kids) if (!nullable(k)) return false; return true;
    case ALT: for (const P& k : n->kids) if (nullable(k)) return true; return false;
    case REP: return n->lo == 0 || nullable(n->kids[0]);
  }
  return false;
}

// number of NFA states after expansion (approximate)
inline size_t weight(const P& n)
{
  size_t w = 1;
  switch (n->kind)
  {
    case EPS: case ASSERT: case SET: return 1;
    case CAT: case ALT: for (const P& k : n->kids) w += weight(k); return w;
    case REP: return 1 + weight(n->kids[0]) * static_cast<size_t>(n->hi < 0 ? n->lo + 1 : n->hi);
  }
  return w;
}

inline bool isword(int c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '_'; }

// does the assertion hold at position i of text[0..n)
inline bool holds(Assert a, const std::string& t, size_t i)
{
  int p = i > 0 ? static_cast<unsigned char>(t[i - 1]) : -1;
  int c = i < t.size() ? static_cast<unsigned char>(t[i]) : -1;
  bool pw = p >= 0 && isword(p), cw = c >= 0 && isword(c);
  switch (a)
  {
    case A_BOL: return p < 0 || p == '\n';
    case A_EOL: return c < 0 || c == '\n' || (c == '\r' && i + 1 < t.size() && t[i + 1] == '\n');
    case A_BOB: return p < 0;
    case A_EOB: return c < 0;
    case A_WB: return pw != cw;
    case A_NWB: return pw == cw;
    case A_BOW: return !pw && cw;
    case A_EOW: return pw && !cw;
  }
  return false;
}

// Thompson NFA of a list of alternatives, each with its own accept index (1-based)
class NFA {
 public:
  struct St { char type; int set; int a, b; int val; }; // type: 'c' char, 's' split, 'a' assert, 'm' match, 'e' epsilon
  std::vector<St> st;
  std::vector<Set> sets;
  int start;
  NFA() : start(0) { }
  explicit NFA(const std::vector<P>& alts) { build(alts); }
  explicit NFA(const P& p) { build(std::vector<P>(1, p)); }
  void build(const std::vector<P>& alts)
  {
    st.clear();
    sets.clear();
    int s = -1;
    for (size_t i = alts.size(); i-- > 0;)
    {
      int m = add('m', 0, -1, -1, static_cast<int>(i) + 1);
      int b = comp(alts[i], m);
      s = s < 0 ? b : add('s', 0, b, s, 0);
    }
    start = s;
    mark_.assign(st.size(), 0);
    gen_ = 0;
  }
  struct Match { bool ok; size_t end; int accept; };
  // longest match starting at i, lowest accept index among the longest; min_len filters shorter matches
  Match longest(const std::string& t, size_t i, size_t min_len = 0) const
  {
    Match m = { false, i, 0 };
    std::vector<int> cur, nxt;
    ++gen_;
    int acc = 0;
    add_state(cur, start, t, i, acc);
    if (acc && min_len == 0)
    {
      m.ok = true;
      m.end = i;
      m.accept = acc;
    }
    size_t k = i;
    while (!cur.empty() && k < t.size())
    {
      unsigned char c = static_cast<unsigned char>(t[k]);
      ++k;
      nxt.clear();
      ++gen_;
      acc = 0;
      for (int q : cur)
        if (sets[st[q].set].test(c))
          add_state(nxt, st[q].a, t, k, acc);
      cur.swap(nxt);
      if (acc && k - i >= min_len)
      {
        m.ok = true;
        m.end = k;
        m.accept = acc;
      }
    }
    return m;
  }
  // does the pattern match t[i..j) exactly; returns lowest accept index or 0
  int exact(const std::string& t, size_t i, size_t j) const
  {
    std::vector<int> cur, nxt;
    ++gen_;
    int acc = 0;
    add_state(cur, start, t, i, acc);
    for (size_t k = i; k < j; ++k)
    {
      unsigned char c = static_cast<unsigned char>(t[k]);
      nxt.clear();
      ++gen_;
      acc = 0;
      for (int q : cur)
        if (sets[st[q].set].test(c))
          add_state(nxt, st[q].a, t, k + 1, acc);
      cur.swap(nxt);
    }
    return acc;
  }
  // number of bytes of t from i that keep the automaton alive
  size_t alive(const std::string& t, size_t i) const
  {
    std::vector<int> cur, nxt;
    ++gen_;
    int acc = 0;
    add_state(cur, start, t, i, acc);
    size_t k = i;
    while (!cur.empty() && k < t.size())
    {
      nxt.clear();
      ++gen_;
      for (int q : cur)
        if (sets[st[q].set].test(static_cast<unsigned char>(t[k])))
          add_state(nxt, st[q].a, t, k + 1, acc);
      ++k;
      cur.swap(nxt);
    }
    return k - i;
  }
  // can a match start with t[i] (one byte consumed leaves live states or accepts)
  bool viable(const std::string& t, size_t i) const
  {
    std::vector<int> cur;
    ++gen_;
    int acc = 0;
    add_state(cur, start, t, i, acc);
    for (int q : cur)
      if (sets[st[q].set].test(static_cast<unsigned char>(t[i])))
        return true;
    return false;
  }
  // set of end positions of matches starting at i
  std::vector<size_t> ends(const std::string& t, size_t i) const
  {
    std::vector<size_t> r;
    std::vector<int> cur, nxt;
    ++gen_;
    int acc = 0;
    add_state(cur, start, t, i, acc);
    if (acc) r.push_back(i);
    for (size_t k = i; k < t.size() && !cur.empty(); ++k)
    {
      unsigned char c = static_cast<unsigned char>(t[k]);
      nxt.clear();
      ++gen_;
      acc = 0;
      for (int q : cur)
        if (sets[st[q].set].test(c))
          add_state(nxt, st[q].a, t, k + 1, acc);
      cur.swap(nxt);
      if (acc) r.push_back(k + 1);
    }
    return r;
  }
  // number of DFA states (assertions taken as always true), counting stops at limit
  size_t dfa_states(size_t limit) const
  {
    // byte equivalence classes
    std::map<std::vector<bool>,int> sig;
    std::vector<int> rep;
    for (int c = 0; c < 256; ++c)
    {
      std::vector<bool> v;
      for (const Set& x : sets) v.push_back(x.test(c));
      if (sig.insert(std::make_pair(v, c)).second) rep.push_back(c);
    }
    std::set<std::vector<int> > seen;
    std::vector<std::vector<int> > work;
    std::vector<int> v;
    closure_all(v, start, true);
    std::sort(v.begin(), v.end());
    seen.insert(v);
    work.push_back(v);
    while (!work.empty() && seen.size() < limit)
    {
      v = work.back();
      work.pop_back();
      for (int c : rep)
      {
        std::vector<int> n;
        ++gen_;
        for (int q : v)
          if (st[q].type == 'c' && sets[st[q].set].test(c))
            closure_all(n, st[q].a, false);
        if (n.empty()) continue;
        std::sort(n.begin(), n.end());
        if (seen.insert(n).second) work.push_back(n);
      }
    }
    return seen.size();
  }
 private:
  void closure_all(std::vector<int>& v, int q, bool fresh) const
  {
    if (fresh) ++gen_;
    std::vector<int> stack(1, q);
    while (!stack.empty())
    {
      int s = stack.back();
      stack.pop_back();
      if (mark_[s] == gen_) continue;
      mark_[s] = gen_;
      const St& x = st[s];
      if (x.type == 's') { stack.push_back(x.b); stack.push_back(x.a); }
      else if (x.type == 'a') stack.push_back(x.a);
      else v.push_back(s);
    }
  }
  mutable std::vector<unsigned> mark_;
  mutable unsigned gen_;
  int add(char type, int set, int a, int b, int val)
  {
    St s = { type, set, a, b, val };
    st.push_back(s);
    return static_cast<int>(st.size()) - 1;
  }
  int comp(const P& n, int next)
  {
    switch (n->kind)
    {
      case EPS:
        return next;
      case SET:
        sets.push_back(n->set);
        return add('c', static_cast<int>(sets.size()) - 1, next, -1, 0);
      case ASSERT:
        return add('a', 0, next, -1, n->as);
      case CAT:
        for (size_t i = n->kids.size(); i-- > 0;)
          next = comp(n->kids[i], next);
        return next;
      case ALT:
      {
        int s = -1;
        for (const P& k : n->kids)
        {
          int b = comp(k, next);
          s = s < 0 ? b : add('s', 0, b, s, 0);
        }
        return s;
      }
      case REP:
      {
        if (n->hi < 0)
        {
          int loop = add('s', 0, -1, next, 0);
          int b = comp(n->kids[0], loop);
          st[loop].a = b;
          next = loop;
        }
        else
        {
          int exit = next;
          for (int i = n->lo; i < n->hi; ++i)
          {
            int b = comp(n->kids[0], next);
            next = add('s', 0, b, exit, 0);
          }
        }
        for (int i = 0; i < n->lo; ++i)
          next = comp(n->kids[0], next);
        return next;
      }
    }
    return next;
  }
  void add_state(std::vector<int>& v, int q, const std::string& t, size_t pos, int& acc) const
  {
    // iterative closure
    std::vector<int>& stack = stack_;
    stack.clear();
    stack.push_back(q);
    while (!stack.empty())
    {
      int s = stack.back();
      stack.pop_back();
      if (mark_[s] == gen_)
        continue;
      mark_[s] = gen_;
      const St& x = st[s];
      switch (x.type)
      {
        case 'c': v.push_back(s); break;
        case 's': stack.push_back(x.b); stack.push_back(x.a); break;
        case 'a': if (holds(static_cast<Assert>(x.val), t, pos)) stack.push_back(x.a); break;
        case 'm': if (acc == 0 || x.val < acc) acc = x.val; break;
      }
    }
  }
  mutable std::vector<int> stack_;
};

// random string in the language of n (assertions ignored)
inline void sample(pbt::Source& s, const P& n, std::string& out, size_t maxlen = 400)
{
  if (out.size() > maxlen)
    return;
  switch (n->kind)
  {
    case EPS: case ASSERT: return;
    case SET:
    {
      size_t cnt = n->set.count();
      if (cnt == 0) return;
      size_t k = s.below(static_cast<uint32_t>(cnt));
      for (int c = 0; c < 256; ++c)
        if (n->set.test(c) && k-- == 0)
        {
          out.push_back(static_cast<char>(c));
          return;
        }
      return;
    }
    case CAT: for (const P& k : n->kids) sample(s, k, out, maxlen); return;
    case ALT: sample(s, n->kids[s.below(static_cast<uint32_t>(n->kids.size()))], out, maxlen); return;
    case REP:
    {
      int c = n->lo;
      if (n->hi < 0) { while (c < n->lo + 6 && s.more(2)) ++c; }
      else if (n->hi > n->lo) c += static_cast<int>(s.below(static_cast<uint32_t>(n->hi - n->lo + 1)));
      for (int i = 0; i < c; ++i)
        sample(s, n->kids[0], out, maxlen);
      return;
    }
  }
}

// ---------------------------------------------------------------------------------------------
// pattern generation

inline Set range_set(int lo, int hi) { Set s; for (int c = lo; c <= hi; ++c) s.set(c); return s; }
inline Set posix_set(const std::string& name)
{
  Set s;
  for (int c = 0; c < 128; ++c)
  {
    bool up = c >= 'A' && c <= 'Z', lw = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
    bool gr = c > 32 && c < 127;
    bool in = false;
    if (name == "alnum") in = up || lw || dg;
    else if (name == "alpha") in = up || lw;
    else if (name == "blank") in = c == ' ' || c == '\t';
    else if (name == "cntrl") in = c < 32 || c == 127;
    else if (name == "digit") in = dg;
    else if (name == "graph") in = gr;
    else if (name == "lower") in = lw;
    else if (name == "print") in = gr || c == ' ';
    else if (name == "punct") in = gr && !(up || lw || dg);
    else if (name == "space") in = c == ' ' || (c >= 9 && c <= 13);
    else if (name == "upper") in = up;
    else if (name == "word") in = up || lw || dg || c == '_';
    else if (name == "xdigit") in = dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
    if (in) s.set(c);
  }
  return s;
}

struct Opts {
  bool i, s, m, x, q;
  Opts() : i(false), s(false), m(false), x(false), q(false) { }
};

struct Frag { P node; std::string text; };

class Gen {
 public:
  pbt::Source& s;
  std::string alpha;   // alphabet literals are drawn from
  char esc;            // escape character
  bool bracket_esc;    // escapes are active in bracket lists
  bool rich;           // use the full set of spellings (escapes, classes, quoting, modifiers)
  bool allow_mod;      // may use (?i:...) etc.
  bool nested_alt;
  int size;            // remaining node budget
  Gen(pbt::Source& src) : s(src), esc('\\'), bracket_esc(true), rich(true), allow_mod(true), nested_alt(true), size(12) { }

  static std::string pick_alphabet(pbt::Source& s)
  {
    switch (s.weighted({10, 6, 4, 4, 4, 3, 3, 2, 2}))
    {
      case 0: return "ab";
      case 1: return "abc";
      case 2: return "abcdefgh";
      case 3: return "aAbB";
      case 4: return "ab \n";
      case 5: return "a1_-. ";
      case 6: { std::string t; int n = 1 + s.below(4); for (int i = 0; i < n; ++i) t.push_back(static_cast<char>(1 + s.below(127))); return t; }
      case 7: { std::string t("a"); int n = 1 + s.below(4); for (int i = 0; i < n; ++i) t.push_back(static_cast<char>(s.below(256))); return t; }
      default: return "\\[]^-{}()|*+?.$/\"";
    }
  }

  static bool special(unsigned char c) { return strchr("\\^$.|?*+()[]{}\"/#- ", c) != NULL || c <= ' ' || c >= 127; }

  // spell literal character c outside of brackets
  std::string spell(unsigned char c, const Opts& o)
  {
    char b[16];
    std::string e(1, esc);
    bool must = strchr("^$.|?*+()[{}", c) != NULL || c == 0 || c == static_cast<unsigned char>(esc) || c == '}' || c == ']';
    if (o.x && (isspace(c) || c == '#')) must = true;
    if (o.q && c == '"') must = true;
    size_t k = rich ? s.weighted({12, 2, 2, 1, 1, 1}) : 0;
    if (k == 0 && !must)
      return std::string(1, static_cast<char>(c));
    if (k <= 1 && c != 0 && !isalnum(c) && c != '<' && c != '>' && c != '_' && c < 127 && (c > 32 || c == static_cast<unsigned char>(esc)))
      return e + static_cast<char>(c);
    if (k <= 2)
    {
      const char *p = c ? strchr("\a\t\n\v\f\r", c) : NULL;
      if (p)
        return e + "atnvfr"[p - "\a\t\n\v\f\r"];
      if (c == 0x1b)
        return e + "e";
      if (c == 0 && k == 2)
        return e + "000";
    }
    if (k == 3)
    {
      snprintf(b, sizeof(b), "%cx{%02X}", esc, c);
      return b;
    }
    if (k == 4)
    {
      snprintf(b, sizeof(b), "%c0%03o", esc, c);
      return b;
    }
    if (k == 5 && c >= 1 && c <= 26)
    {
      snprintf(b, sizeof(b), "%cc%c", esc, 'A' + c - 1);
      return b;
    }
    snprintf(b, sizeof(b), s.flip() ? "%cx%02x" : "%cx%02X", esc, c);
    return b;
  }

  static void fold(Set& t)
  {
    for (int c = 'a'; c <= 'z'; ++c)
      if (t.test(c) || t.test(c - 32)) { t.set(c); t.set(c - 32); }
  }

  Frag literal(const Opts& o)
  {
    unsigned char c = static_cast<unsigned char>(s.pickc(alpha));
    Frag f;
    Set t;
    t.set(c);
    if (o.i) fold(t);
    f.node = mkset(t);
    f.text = spell(c, o);
    return f;
  }

  // one bracket-list item character spelling
  std::string spell_in(unsigned char c, bool first)
  {
    char b[16];
    if (bracket_esc)
    {
      if (c == 0 || c == ']' || c == '[' || c == '^' || c == '-' || c == '&' || c == '|' || c == '{' || c == static_cast<unsigned char>(esc) || c == '\\' || c == ':' || (rich && s.chance(1, 8)))
      {
        if (c > 32 && c < 127 && !isalnum(c) && c != '_' && c != '<' && c != '>' && s.flip())
          return std::string(1, esc) + static_cast<char>(c);
        snprintf(b, sizeof(b), "%cx%02x", esc, c);
        return b;
      }
    }
    (void)first;
    return std::string(1, static_cast<char>(c));
  }

  Frag bracket(const Opts& o)
  {
    static const char *names[] = { "alnum", "alpha", "blank", "cntrl", "digit", "graph", "lower", "print", "punct", "space", "upper", "word", "xdigit" };
    Frag f;
    Set t;
    std::string x = "[";
    bool neg = s.chance(1, 4);
    if (neg) x += '^';
    int n = 1 + static_cast<int>(s.below(4));
    for (int i = 0; i < n; ++i)
    {
      switch (s.weighted({8, 5, rich ? 2u : 0u, rich && bracket_esc ? 2u : 0u}))
      {
        case 0:
        {
          unsigned char c = static_cast<unsigned char>(s.chance(1, 10) ? s.below(256) : s.pickc(alpha));
          if (!bracket_esc && (c == 0 || strchr("]^-[&|\\:", c)))
            c = 'a';
          x += spell_in(c, i == 0);
          t.set(c);
          if (o.i) { Set u; u.set(c); fold(u); t |= u; }
          break;
        }
        case 1:
        {
          unsigned char a = static_cast<unsigned char>(s.pickc(alpha));
          unsigned char b = static_cast<unsigned char>(s.chance(1, 4) ? s.below(256) : s.pickc(alpha));
          if (a > b) std::swap(a, b);
          if (!bracket_esc && (a == 0 || b == 0 || strchr("]^-[&|\\:", a) || strchr("]^-[&|\\:", b)))
            a = 'a', b = 'b';
          x += spell_in(a, i == 0) + "-" + spell_in(b, false);
          Set u = range_set(a, b);
          if (o.i) fold(u);
          t |= u;
          break;
        }
        case 2:
        {
          const char *nm = names[s.below(13)];
          x += std::string("[:") + nm + ":]";
          t |= posix_set(nm); // case-insensitive mode: class itself is not folded unless closed; see below
          if (o.i && (strcmp(nm, "lower") == 0 || strcmp(nm, "upper") == 0))
            ambiguous = true;
          break;
        }
        default:
        {
          static const char *e = "sdwxlhuSDW";
          char c = e[s.below(static_cast<uint32_t>(strlen(e)))];
          if (c == 'x') c = 'd';
          x += std::string(1, esc) + c;
          t |= esc_set(c);
          if (o.i && (c == 'l' || c == 'u'))
            ambiguous = true;
          break;
        }
      }
    }
    x += "]";
    if (neg) t.flip();
    f.node = mkset(t);
    f.text = x;
    return f;
  }
  bool ambiguous = false;

  static Set esc_set(char c)
  {
    switch (c)
    {
      case 's': return posix_set("space");
      case 'S': return ~posix_set("space");
      case 'd': return posix_set("digit");
      case 'D': return ~posix_set("digit");
      case 'w': return posix_set("word");
      case 'W': return ~posix_set("word");
      case 'h': return posix_set("blank");
      case 'H': return ~posix_set("blank");
      case 'l': return posix_set("lower");
      case 'L': return ~posix_set("lower");
      case 'u': return posix_set("upper");
      case 'U': return ~posix_set("upper");
      case 'N': { Set t; t.set(); t.reset('\n'); return t; }
    }
    return Set();
  }

  Frag quoted(const Opts& o)
  {
    // \Q...\E or "..." in q mode
    Frag f;
    std::string body;
    std::vector<P> v;
    bool dq = o.q && s.flip();
    int n = 1 + static_cast<int>(s.below(4));
    for (int i = 0; i < n; ++i)
    {
      unsigned char c = static_cast<unsigned char>(s.chance(1, 3) ? "*+.()[]{}|?^$ #"[s.below(15)] : s.pickc(alpha));
      if (c == 0 || c == static_cast<unsigned char>(esc) || c == '\\' || (dq && c == '"'))
        c = 'a';
      body += static_cast<char>(c);
      Set t;
      t.set(c);
      if (o.i) fold(t);
      v.push_back(mkset(t));
    }
    f.node = cat(v);
    if (dq)
      f.text = "\"" + body + "\"";
    else
      f.text = std::string(1, esc) + "Q" + body + std::string(1, esc) + "E";
    return f;
  }

  Frag atom(const Opts& o, int depth)
  {
    --size;
    bool deep = depth > 0 && size > 1;
    Frag f;
    switch (s.weighted({24, 7, 2, rich ? 3u : 0u, rich ? 2u : 0u, deep ? 8u : 0u, deep && rich && allow_mod ? 3u : 0u}))
    {
      case 0:
        return literal(o);
      case 1:
        return bracket(o);
      case 2:
      {
        Set t;
        t.set();
        if (!o.s) t.reset('\n');
        f.node = mkset(t);
        f.text = ".";
        return f;
      }
      case 3:
      {
        static const char *e = "dwshluDWSHLUN";
        char c = e[s.below(static_cast<uint32_t>(strlen(e)))];
        f.node = mkset(esc_set(c));
        f.text = std::string(1, esc) + c;
        if (o.i && strchr("luLU", c))
          ambiguous = true;
        return f;
      }
      case 4:
        return quoted(o);
      case 5:
      {
        Frag g = alternation(o, depth - 1, nested_alt ? 3 : 1);
        f.node = g.node;
        f.text = (s.flip() ? "(?:" : "(") + g.text + ")";
        return f;
      }
      default:
      {
        Opts p = o;
        std::string on, off;
        switch (s.below(4))
        {
          case 0: p.i = !o.i; (p.i ? on : off) += 'i'; break;
          case 1: p.s = !o.s; (p.s ? on : off) += 's'; break;
          case 2: p.x = !o.x; (p.x ? on : off) += 'x'; break;
          default: p.i = true; p.s = true; on += "is"; break;
        }
        Frag g = alternation(p, depth - 1, nested_alt ? 3 : 1);
        f.node = g.node;
        f.text = "(?" + on + (off.empty() ? "" : "-" + off) + ":" + g.text + ")";
        return f;
      }
    }
  }

  std::string ws(const Opts& o)
  {
    if (!o.x || !s.chance(1, 3))
      return "";
    switch (s.below(4))
    {
      case 0: return " ";
      case 1: return "  \t";
      case 2: return "\n";
      default: return "#c*(\n";
    }
  }

  Frag repeated(const Opts& o, int depth)
  {
    Frag f = atom(o, depth);
    if (!s.chance(2, 5))
      return f;
    bool single = f.node->kind == SET || f.text[0] == '(';
    if (!single || (f.text.size() == 2 && f.text[1] == 'u')) // \\u{ is a hexadecimal escape
    {
      f.text = "(?:" + f.text + ")";
    }
    size_t w = weight(f.node);
    switch (s.weighted({4, 4, 4, 3}))
    {
      case 0: f.node = rep(f.node, 0, -1); f.text += "*"; break;
      case 1: f.node = rep(f.node, 1, -1); f.text += "+"; break;
      case 2: f.node = rep(f.node, 0, 1); f.text += "?"; break;
      default:
      {
        int max = w > 20 ? 2 : w > 6 ? 3 : s.chance(1, 8) ? 20 : 5;
        int lo = static_cast<int>(s.below(static_cast<uint32_t>(max)));
        char b[32];
        switch (s.below(3))
        {
          case 0:
            if (lo == 0) lo = 1;
            snprintf(b, sizeof(b), "{%d}", lo);
            f.node = rep(f.node, lo, lo);
            break;
          case 1:
            snprintf(b, sizeof(b), "{%d,}", lo);
            f.node = rep(f.node, lo, -1);
            break;
          default:
          {
            int hi = lo + static_cast<int>(s.below(3));
            if (hi == 0) hi = 1;
            snprintf(b, sizeof(b), "{%d,%d}", lo, hi);
            f.node = rep(f.node, lo, hi);
          }
        }
        f.text += b;
      }
    }
    return f;
  }

  Frag sequence(const Opts& o, int depth)
  {
    std::vector<P> v;
    std::string t = ws(o);
    do
    {
      Frag f = repeated(o, depth);
      v.push_back(f.node);
      t += f.text + ws(o);
    } while (size > 0 && s.more(3));
    Frag r;
    r.node = cat(v);
    r.text = t;
    return r;
  }

  Frag alternation(const Opts& o, int depth, int max)
  {
    std::vector<P> v;
    std::string t;
    int n = 0;
    do
    {
      Frag f = sequence(o, depth);
      v.push_back(f.node);
      if (n++) t += "|";
      t += f.text;
    } while (n < max && size > 0 && s.more(1));
    Frag r;
    r.node = alt(v);
    r.text = t;
    return r;
  }

  // plain string alternative (exercises the string-pattern representation)
  Frag plain(const Opts& o, int maxlen)
  {
    Frag f;
    std::vector<P> v;
    int n = 1 + static_cast<int>(s.below(static_cast<uint32_t>(maxlen)));
    for (int i = 0; i < n; ++i)
    {
      Frag g = literal(o);
      v.push_back(g.node);
      f.text += g.text;
    }
    f.node = cat(v);
    return f;
  }
};

// a generated pattern: top-level alternatives (accept index = position) and its text
struct Pat {
  std::vector<P> alts;
  std::string text, options, alphabet;
  std::vector<std::string> pieces; // texts of the alternatives
  Opts o;
  NFA nfa;
};

} // namespace rem

#endif
