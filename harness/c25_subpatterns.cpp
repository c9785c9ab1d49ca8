// C25: what a Pattern tells about its alternatives (size, operator[], reachable) is true, and its
// state machine agrees with the reference automaton in every state and on every transition.
#include "genpat.h"
#include <reflex/matcher.h>
#include <map>

using namespace pbt;

// deterministic automaton of a reference NFA without assertions, with a shortest path to each state
struct Ref {
  struct State { int acc; std::string path; std::vector<int> to; int live; unsigned char next; };
  std::vector<State> st;
  std::vector<std::vector<unsigned char> > cls; // equivalence classes of bytes
  const rem::NFA& N;
  explicit Ref(const rem::NFA& nfa) : N(nfa)
  {
    std::map<std::vector<bool>,size_t> sig;
    for (int c = 0; c < 256; ++c)
    {
      std::vector<bool> v;
      for (const rem::Set& x : N.sets) v.push_back(x.test(c));
      auto i = sig.insert(std::make_pair(v, cls.size()));
      if (i.second) cls.push_back(std::vector<unsigned char>());
      cls[i.first->second].push_back(static_cast<unsigned char>(c));
    }
    std::map<std::set<int>,int> index;
    std::vector<std::set<int> > sets;
    std::set<int> s;
    close(s, N.start);
    index[s] = 0;
    sets.push_back(s);
    st.push_back(State{ accept(s), "", std::vector<int>(), -1, 0 });
    for (size_t k = 0; k < sets.size(); ++k)
      for (auto& c : cls)
      {
        std::set<int> n;
        for (int q : sets[k])
          if (N.st[q].type == 'c' && N.sets[N.st[q].set].test(c[0])) close(n, N.st[q].a);
        if (n.empty()) { st[k].to.push_back(-1); continue; }
        auto i = index.insert(std::make_pair(n, static_cast<int>(sets.size())));
        if (i.second)
        {
          sets.push_back(n);
          State x = { accept(n), st[k].path + static_cast<char>(c[k % c.size()]), std::vector<int>(), -1, 0 };
          st.push_back(x);
        }
        st[k].to.push_back(i.first->second);
      }
    // distance to an accepting state
    std::vector<size_t> work;
    for (size_t k = 0; k < st.size(); ++k)
      if (st[k].acc) { st[k].live = 0; work.push_back(k); }
    std::vector<std::vector<std::pair<int,unsigned char> > > from(st.size());
    for (size_t k = 0; k < st.size(); ++k)
      for (size_t c = 0; c < cls.size(); ++c)
        if (st[k].to[c] >= 0) from[st[k].to[c]].push_back(std::make_pair(static_cast<int>(k), cls[c].back()));
    for (size_t w = 0; w < work.size(); ++w)
      for (auto& f : from[work[w]])
        if (st[f.first].live < 0) { st[f.first].live = st[work[w]].live + 1; st[f.first].next = f.second; work.push_back(f.first); }
    for (size_t c = 0; c < cls.size(); ++c)
      for (unsigned char b : cls[c]) of[b] = c;
  }
  size_t of[256];
  void close(std::set<int>& v, int q)
  {
    if (!v.insert(q).second) return;
    if (N.st[q].type == 's') { close(v, N.st[q].a); close(v, N.st[q].b); }
  }
  int accept(const std::set<int>& v)
  {
    int a = 0;
    for (int q : v) if (N.st[q].type == 'm' && (a == 0 || N.st[q].val < a)) a = N.st[q].val;
    return a;
  }
  int run(const std::string& t) const
  {
    int q = 0;
    for (unsigned char c : t) { q = st[q].to[of[c]]; if (q < 0) return 0; }
    return st[q].acc;
  }
  // complete a text that leads to state q to one that is accepted
  std::string finish(int q) const
  {
    std::string t;
    while (st[q].live > 0) { unsigned char c = st[q].next; t += static_cast<char>(c); q = st[q].to[of[c]]; }
    return t;
  }
};

static void info_case(Source& s)
{
  rem::Pat p = rem::gen_pattern(s, true, 10);
  s.note("pattern", show(p.text));
  s.note("options", p.options);
  std::string options = "r" + p.options;
  reflex::Pattern pattern;
  int how = static_cast<int>(s.weighted({3, 2, 2, 1}));
  reflex::Pattern source;
  if (how > 0 && s.flip())
  {
    rem::Pat o = rem::gen_pattern(s, true, 4);
    s.note("assigned before", show(o.text));
    pattern.assign(o.text, "r" + o.options);
  }
  switch (how)
  {
    case 0: pattern.assign(p.text.c_str(), options.c_str()); break;
    case 1: pattern.assign(p.text, options); break;
    case 2: source.assign(p.text, options); pattern = source; break;
    default: source.assign(p.text, options); break;
  }
  reflex::Pattern copied(how == 3 ? source : pattern);
  const reflex::Pattern& P = how == 3 ? copied : pattern;
  source.assign("x");
  if (P.empty()) fail("empty", "empty() of an assigned pattern");
  if (P[0] != p.text) fail("whole", fmt("operator[](0) is %s", show(P[0]).c_str()));
  if (P.size() != p.pieces.size()) fail("size", fmt("size() is %zu with %zu alternatives", (size_t)P.size(), p.pieces.size()));
  for (size_t i = 1; i <= p.pieces.size(); ++i)
    if (P[i] != p.pieces[i - 1]) fail("piece", fmt("operator[](%zu) is %s, expected %s", i, show(P[i]).c_str(), show(p.pieces[i - 1]).c_str()));
  if (P[p.pieces.size() + 1] != "") fail("piece", "operator[] after the last alternative is not empty");
  Ref r(p.nfa);
  std::vector<int> witness(p.pieces.size() + 1, -1);
  for (size_t k = 0; k < r.st.size(); ++k)
    if (r.st[k].acc && witness[r.st[k].acc] < 0) witness[r.st[k].acc] = static_cast<int>(k);
  size_t dead = 0;
  for (size_t i = 1; i <= p.pieces.size(); ++i)
  {
    if (P.reachable(i) != (witness[i] >= 0))
      fail("reachable", fmt("reachable(%zu) is %d, but %s", i, P.reachable(i), witness[i] >= 0 ? ("text " + show(r.st[witness[i]].path) + " is matched by it first").c_str() : "every text it matches is matched by an earlier alternative"));
    dead += witness[i] < 0;
  }
  if (P.reachable(0) || P.reachable(p.pieces.size() + 1)) fail("reachable", "reachable() out of range");
  // every state and every transition of the reference automaton
  reflex::Matcher m(P);
  size_t texts = 0;
  auto ask = [&](const std::string& t)
  {
    ++texts;
    int e = r.run(t);
    size_t got = m.input(reflex::Input(t.data(), t.size())).matches();
    if (got != static_cast<size_t>(e))
      fail("transition", fmt("matches() of %s is %zu, expected %d", show(t).c_str(), got, e));
  };
  size_t room = 3000;
  for (size_t k = 0; k < r.st.size() && texts < room; ++k)
  {
    ask(r.st[k].path);
    for (size_t c = 0; c < r.cls.size() && texts < room; ++c)
    {
      const std::vector<unsigned char>& v = r.cls[c];
      std::string t = r.st[k].path + static_cast<char>(v[(k * 7 + texts) % v.size()]);
      int q = r.st[k].to[c];
      ask(t);
      if (q >= 0 && r.st[q].live > 0)
        ask(t + r.finish(q));
      else if (q < 0 && s.chance(1, 8))
        ask(t + r.finish(static_cast<int>(s.below(static_cast<uint32_t>(r.st.size())))));
    }
  }
  s.label(dead == 0 ? "all reachable" : "some unreachable");
  s.label(r.st.size() < 4 ? "states <4" : r.st.size() < 16 ? "states 4-15" : r.st.size() < 64 ? "states 16-63" : "states 64+");
  if (texts >= room) s.label("transition cover cut off");
  if (p.pieces.size() > 1 && r.st.size() > 3)
    s.nontrivial(hash_str(p.text + "\0" + p.options));
}

std::vector<Part> pbt::parts()
{
  return { { "info", info_case, 25000, 600000, 10 } };
}
PBT_MAIN
