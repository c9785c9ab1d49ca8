// C20: interval sets, open-ended interval sets, bit vectors and set operations against std containers.
#include "pbt.h"
#include <algorithm>
#include <reflex/bits.h>
#include <reflex/ranges.h>
#include <reflex/setop.h>

using namespace pbt;

typedef std::set<int> S;

static std::string shows(const S& x)
{
  std::string r = "{";
  for (int v : x) r += str(v) + " ";
  return r + "}";
}
template<class R> static std::string showr(const R& x)
{
  std::string r = "{";
  for (auto& v : x) r += fmt("[%d,%d] ", static_cast<int>(v.first), static_cast<int>(v.second));
  return r + "}";
}

// ---- ORanges<int> over small values against std::set<int>
typedef reflex::ORanges<int> O;
static void same(const O& o, const S& m, const char *what)
{
  S got;
  int prev = -1000000;
  for (O::const_iterator i = o.begin(); i != o.end(); ++i)
  {
    if (i->first >= i->second)
      fail("oranges-empty", fmt("%s: %s has an empty range", what, showr(o).c_str()));
    if (i->first <= prev)
      fail("oranges-canonical", fmt("%s: ranges %s overlap or touch", what, showr(o).c_str()));
    prev = i->second;
    for (int v = i->first; v < i->second; ++v) got.insert(v);
  }
  if (got != m)
    fail("oranges", fmt("%s: set is %s, expected %s", what, showr(o).c_str(), shows(m).c_str()));
  if (o.any() != !m.empty())
    fail("oranges-any", fmt("%s: any() on %s", what, showr(o).c_str()));
  for (int v = -3; v < 75; ++v)
  {
    O::const_iterator i = o.find(v);
    if ((i != o.end()) != (m.count(v) != 0) || (i != o.end() && (v < i->first || v >= i->second)))
      fail("oranges-find", fmt("%s: find(%d) in %s", what, v, showr(o).c_str()));
  }
  if (!m.empty() && (o.lo() != *m.begin() || o.hi() != *m.rbegin()))
    fail("oranges-lohi", fmt("%s: lo() = %d hi() = %d of %s", what, o.lo(), o.hi(), showr(o).c_str()));
}

static S model_range(int a, int b) { S s; for (int v = a; v <= b; ++v) s.insert(v); return s; }

static void gen_r(Source& s, int& a, int& b)
{
  a = static_cast<int>(s.below(64));
  b = a + (s.flip() ? static_cast<int>(s.below(4)) : static_cast<int>(s.below(20)));
}

static void oranges_case(Source& s)
{
  O o[2];
  S m[2];
  size_t ops = 0;
  while (s.more(14) && ops < 60)
  {
    ++ops;
    int k = static_cast<int>(s.below(2)), a, b;
    gen_r(s, a, b);
    S r = model_range(a, b);
    std::string op;
    switch (s.below(12))
    {
      case 0: case 1:
      {
        op = fmt("o%d.insert(%d,%d)", k, a, b);
        s.note("op", op);
        bool fresh = !std::includes(m[k].begin(), m[k].end(), r.begin(), r.end());
        std::pair<O::iterator,bool> p = o[k].insert(a, b);
        m[k].insert(r.begin(), r.end());
        if (p.second != fresh)
          fail("oranges-insert-flag", fmt("%s reports %d", op.c_str(), p.second));
        if (p.first == o[k].end() || p.first->first > a || p.first->second <= b)
          fail("oranges-insert-iterator", fmt("%s returns an iterator that does not hold the range", op.c_str()));
        break;
      }
      case 2:
        op = fmt("o%d.insert(%d)", k, a);
        s.note("op", op);
        o[k].insert(a);
        m[k].insert(a);
        break;
      case 3: case 4:
      {
        op = fmt("o%d.erase(%d,%d)", k, a, b);
        s.note("op", op);
        bool hit = false;
        for (int v : r) hit |= m[k].erase(v) != 0;
        if (o[k].erase(a, b) != hit)
          fail("oranges-erase-flag", fmt("%s reports %d", op.c_str(), !hit));
        break;
      }
      case 5:
        op = fmt("o%d.erase(%d)", k, a);
        s.note("op", op);
        o[k].erase(a);
        m[k].erase(a);
        break;
      case 6:
      {
        bool plus = s.flip();
        op = fmt("o%d |= o%d", k, 1 - k);
        s.note("op", op);
        if (plus) o[k] += o[1 - k]; else o[k] |= o[1 - k];
        m[k].insert(m[1 - k].begin(), m[1 - k].end());
        break;
      }
      case 7:
      {
        op = fmt("o%d &= o%d", k, 1 - k);
        s.note("op", op);
        o[k] &= o[1 - k];
        S t;
        for (int v : m[k]) if (m[1 - k].count(v)) t.insert(v);
        m[k] = t;
        break;
      }
      case 8:
        op = fmt("o%d -= o%d", k, 1 - k);
        s.note("op", op);
        o[k] -= o[1 - k];
        for (int v : m[1 - k]) m[k].erase(v);
        break;
      case 9: // operators that return a new set
      {
        op = "| & - +";
        s.note("op", op);
        S u(m[0]), x, d(m[0]);
        u.insert(m[1].begin(), m[1].end());
        for (int v : m[0]) if (m[1].count(v)) x.insert(v);
        for (int v : m[1]) d.erase(v);
        same(o[0] | o[1], u, "operator|");
        same(o[0] + o[1], u, "operator+");
        same(o[0] & o[1], x, "operator&");
        same(o[0] - o[1], d, "operator-");
        same(o[k] & o[k], m[k], "operator& with itself");
        same(o[k] | o[k], m[k], "operator| with itself");
        break;
      }
      case 10: // relations
      {
        op = "relations";
        s.note("op", op);
        bool inter = false;
        for (int v : m[0]) inter |= m[1].count(v) != 0;
        if (o[0].intersects(o[1]) != inter || o[1].intersects(o[0]) != inter)
          fail("oranges-intersects", fmt("%s intersects %s is not %d", showr(o[0]).c_str(), showr(o[1]).c_str(), inter));
        bool sub = std::includes(m[k].begin(), m[k].end(), m[1 - k].begin(), m[1 - k].end());
        if (o[k].contains(o[1 - k]) != sub)
          fail("oranges-contains", fmt("%s contains %s is not %d", showr(o[k]).c_str(), showr(o[1 - k]).c_str(), sub));
        if (o[k].contains(O(a, b)) != std::includes(m[k].begin(), m[k].end(), r.begin(), r.end()))
          fail("oranges-contains", fmt("%s contains [%d,%d]", showr(o[k]).c_str(), a, b));
        if ((o[0] == o[1]) != (m[0] == m[1]))
          fail("oranges-equal", "operator==");
        O::const_iterator i = o[k].find(a, b);
        int first = -1;
        for (int v : r) if (first < 0 && m[k].count(v)) first = v;
        if ((i != o[k].end()) != (first >= 0) || (first >= 0 && !(i->first <= first && first < i->second)))
          fail("oranges-find-range", fmt("find(%d,%d) in %s", a, b, showr(o[k]).c_str()));
        break;
      }
      default:
        op = "copy, assign, construct";
        s.note("op", op);
        if (s.flip()) { o[k] = o[1 - k]; m[k] = m[1 - k]; }
        else if (s.flip()) { o[k] = O(a, b); m[k] = r; }
        else { o[k] = a; m[k] = model_range(a, a); }
    }
    same(o[k], m[k], op.c_str());
    same(o[1 - k], m[1 - k], op.c_str());
  }
  s.label(ops < 5 ? "ops<5" : ops < 20 ? "ops<20" : "ops>=20");
  if (ops >= 5 && (o[0].size() > 1 || o[1].size() > 1))
    s.nontrivial(hash_str(showr(o[0]) + showr(o[1])));
}

// ---- Ranges<int>: closed intervals over the reals, modelled at integer and half-integer points (2v, 2v+1)
typedef reflex::Ranges<int> R;
static S pts(const R& r)
{
  S m;
  for (R::const_iterator i = r.begin(); i != r.end(); ++i)
    for (int v = 2 * i->first; v <= 2 * i->second; ++v)
      m.insert(v);
  return m;
}
static void samer(const R& o, const S& m, const char *what)
{
  int prev = -1000000;
  for (R::const_iterator i = o.begin(); i != o.end(); ++i)
  {
    if (i->first > i->second || i->first <= prev)
      fail("ranges-disjoint", fmt("%s: ranges %s are not ordered and disjoint", what, showr(o).c_str()));
    prev = i->second;
  }
  if (pts(o) != m)
    fail("ranges", fmt("%s: ranges are %s, expected (doubled) %s", what, showr(o).c_str(), shows(m).c_str()));
}
static void ranges_case(Source& s)
{
  R o[2];
  S m[2];
  size_t ops = 0;
  while (s.more(12) && ops < 60)
  {
    ++ops;
    int k = static_cast<int>(s.below(2)), a, b;
    a = static_cast<int>(s.below(40));
    b = a + static_cast<int>(s.below(7));
    S r = model_range(2 * a, 2 * b);
    std::string op;
    switch (s.below(8))
    {
      case 0: case 1: case 2:
      {
        op = fmt("r%d.insert(%d,%d)", k, a, b);
        s.note("op", op);
        bool fresh = !std::includes(m[k].begin(), m[k].end(), r.begin(), r.end());
        std::pair<R::iterator,bool> p = o[k].insert(a, b);
        m[k].insert(r.begin(), r.end());
        if (p.second != fresh || p.first->first > a || p.first->second < b)
          fail("ranges-insert-result", fmt("%s reports %d [%d,%d]", op.c_str(), p.second, p.first->first, p.first->second));
        break;
      }
      case 3:
        op = fmt("r%d |= r%d", k, 1 - k);
        s.note("op", op);
        if (s.flip()) o[k] |= o[1 - k]; else o[k] = o[k] + o[1 - k];
        m[k].insert(m[1 - k].begin(), m[1 - k].end());
        break;
      case 4:
      {
        op = fmt("r%d &= r%d", k, 1 - k);
        s.note("op", op);
        S t;
        for (int v : m[k]) if (m[1 - k].count(v)) t.insert(v);
        samer(o[k] & o[1 - k], t, "operator&");
        o[k] &= o[1 - k];
        m[k] = t;
        break;
      }
      case 5:
      {
        op = "relations";
        s.note("op", op);
        bool inter = false;
        for (int v : m[0]) inter |= m[1].count(v) != 0;
        if (o[0].intersects(o[1]) != inter)
          fail("ranges-intersects", fmt("%s intersects %s is not %d", showr(o[0]).c_str(), showr(o[1]).c_str(), inter));
        bool sub = std::includes(m[k].begin(), m[k].end(), m[1 - k].begin(), m[1 - k].end());
        if (o[k].contains(o[1 - k]) != sub)
          fail("ranges-contains", fmt("%s contains %s is not %d", showr(o[k]).c_str(), showr(o[1 - k]).c_str(), sub));
        bool in = m[k].count(2 * a) != 0;
        if ((o[k].find(a) != o[k].end()) != in)
          fail("ranges-find", fmt("find(%d) in %s", a, showr(o[k]).c_str()));
        if (o[k].any() != !m[k].empty() || (o[k].any() && (o[k].lo() * 2 != *m[k].begin() || o[k].hi() * 2 != *m[k].rbegin())))
          fail("ranges-lohi", fmt("any, lo, hi of %s", showr(o[k]).c_str()));
        break;
      }
      case 6: // lexicographic order: a strict total order consistent with equality, as that of the sequences of ranges
      {
        op = "order";
        s.note("op", op);
        std::vector<std::pair<int,int> > x(o[0].begin(), o[0].end()), y(o[1].begin(), o[1].end());
        if ((o[0] < o[1]) != (x < y) || (o[0] > o[1]) != (x > y) || (o[0] <= o[1]) != (x <= y) || (o[0] >= o[1]) != (x >= y))
          fail("ranges-order", fmt("%s and %s compare < %d > %d <= %d >= %d", showr(o[0]).c_str(), showr(o[1]).c_str(), o[0] < o[1], o[0] > o[1], o[0] <= o[1], o[0] >= o[1]));
        break;
      }
      default:
        op = "assign";
        s.note("op", op);
        o[k] = s.flip() ? R(a, b) : R(o[1 - k]);
        m[k] = pts(o[k]);
    }
    samer(o[k], m[k], op.c_str());
    samer(o[1 - k], m[1 - k], op.c_str());
  }
  if (ops >= 5 && (o[0].size() > 1 || o[1].size() > 1))
    s.nontrivial(hash_str(showr(o[0]) + "|" + showr(o[1])));
}

// ---- Bits against std::set<size_t>
typedef reflex::Bits B;
static void sameb(const B& b, const S& m, const char *what)
{
  S got;
  size_t n = 0;
  for (size_t i = b.find_first(); i != B::npos; i = b.find_next(i))
  {
    got.insert(static_cast<int>(i));
    ++n;
    if (n > 5000) fail("bits-find-next", fmt("%s: find_next does not end", what));
  }
  if (got != m || n != m.size())
    fail("bits", fmt("%s: bits are %s, expected %s", what, shows(got).c_str(), shows(m).c_str()));
  if (b.count() != m.size() || b.any() != !m.empty())
    fail("bits-count", fmt("%s: count() = %zu any() = %d of %s", what, b.count(), b.any(), shows(m).c_str()));
  const B& c = b;
  for (size_t i = 0; i < 300; ++i)
    if (c[i] != (m.count(static_cast<int>(i)) != 0))
      fail("bits-index", fmt("%s: bit %zu", what, i));
  if (!m.empty() && b.size() <= static_cast<size_t>(*m.rbegin()))
    fail("bits-size", fmt("%s: size() = %zu with bit %d set", what, b.size(), *m.rbegin()));
  bool all = true;
  for (size_t i = 0; i < b.size(); ++i) all = all && m.count(static_cast<int>(i));
  if (b.all() != all)
    fail("bits-all", fmt("%s: all() = %d", what, b.all()));
}
// numerically least significant word first, zero-extended: the documented order is lexicographic by words
static void bits_case(Source& s)
{
  B o[3];
  S m[3];
  size_t ops = 0;
  while (s.more(14) && ops < 60)
  {
    ++ops;
    int k = static_cast<int>(s.below(3)), j = static_cast<int>(s.below(3));
    static const int edge[] = { 0, 1, 31, 62, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256 };
    int a = s.flip() ? edge[s.below(14)] : static_cast<int>(s.below(260));
    int b = s.flip() ? a + static_cast<int>(s.below(6)) : a + static_cast<int>(s.below(140));
    std::string op;
    switch (s.below(16))
    {
      case 0: op = fmt("b%d.insert(%d)", k, a); s.note("op", op); o[k].insert(a); m[k].insert(a); break;
      case 1: op = fmt("b%d.erase(%d)", k, a); s.note("op", op); o[k].erase(a); m[k].erase(a); break;
      case 2: op = fmt("b%d.flip(%d)", k, a); s.note("op", op); o[k].flip(a); if (!m[k].erase(a)) m[k].insert(a); break;
      case 3: op = fmt("b%d.insert(%d,%d)", k, a, b); s.note("op", op); o[k].insert(a, b); for (int v = a; v <= b; ++v) m[k].insert(v); break;
      case 4: op = fmt("b%d.erase(%d,%d)", k, a, b); s.note("op", op); o[k].erase(a, b); for (int v = a; v <= b; ++v) m[k].erase(v); break;
      case 5: op = fmt("b%d.flip(%d,%d)", k, a, b); s.note("op", op); o[k].flip(a, b); for (int v = a; v <= b; ++v) if (!m[k].erase(v)) m[k].insert(v); break;
      case 6:
        op = fmt("b%d[%d] =", k, a);
        s.note("op", op);
        switch (s.below(5))
        {
          case 0: o[k][a] = true; m[k].insert(a); break;
          case 1: o[k][a] = false; m[k].erase(a); break;
          case 2: o[k][a] |= true; m[k].insert(a); break;
          case 3: o[k][a] &= false; m[k].erase(a); break;
          default: o[k][a] ^= true; if (!m[k].erase(a)) m[k].insert(a);
        }
        break;
      case 7: { op = fmt("b%d |= b%d", k, j); s.note("op", op); S t(m[j]); if (s.flip()) o[k] |= o[j]; else o[k] = o[k] | o[j]; m[k].insert(t.begin(), t.end()); break; }
      case 8: { op = fmt("b%d &= b%d", k, j); s.note("op", op); S t; for (int v : m[k]) if (m[j].count(v)) t.insert(v); if (s.flip()) o[k] &= o[j]; else o[k] = o[k] & o[j]; m[k] = t; break; }
      case 9: { op = fmt("b%d ^= b%d", k, j); s.note("op", op); S t; for (int v : m[k]) if (!m[j].count(v)) t.insert(v); for (int v : m[j]) if (!m[k].count(v)) t.insert(v); if (s.flip()) o[k] ^= o[j]; else o[k] = o[k] ^ o[j]; m[k] = t; break; }
      case 10: { op = fmt("b%d -= b%d", k, j); s.note("op", op); S t; for (int v : m[k]) if (!m[j].count(v)) t.insert(v); if (s.flip()) o[k] -= o[j]; else o[k] = o[k] - o[j]; m[k] = t; break; }
      case 11: { op = fmt("b%d.lshift()", k); s.note("op", op); o[k].lshift(); S t; for (int v : m[k]) t.insert(v + 1); m[k] = t; break; }
      case 12: { op = fmt("b%d.rshift()", k); s.note("op", op); o[k].rshift(); S t; for (int v : m[k]) if (v) t.insert(v - 1); m[k] = t; break; }
      case 13:
        op = fmt("b%d = b%d", k, j);
        s.note("op", op);
        switch (s.below(4))
        {
          case 0: { B c(o[j]); o[k] = c; m[k] = m[j]; break; }
          case 1: o[k] = o[j]; m[k] = m[j]; break;
          case 2: o[k].clear(); m[k].clear(); break;
          default: o[k].swap(o[j]); std::swap(m[k], m[j]);
        }
        break;
      case 14:
      {
        op = fmt("relations b%d b%d", k, j);
        s.note("op", op);
        bool inter = false;
        for (int v : m[k]) inter |= m[j].count(v) != 0;
        bool sub = std::includes(m[k].begin(), m[k].end(), m[j].begin(), m[j].end());
        if (o[k].intersects(o[j]) != inter) fail("bits-intersects", fmt("%s %s", shows(m[k]).c_str(), shows(m[j]).c_str()));
        if (o[k].contains(o[j]) != sub) fail("bits-contains", fmt("%s %s", shows(m[k]).c_str(), shows(m[j]).c_str()));
        if ((o[k] == o[j]) != (m[k] == m[j]) || (o[k] != o[j]) == (m[k] == m[j])) fail("bits-equal", fmt("%s %s", shows(m[k]).c_str(), shows(m[j]).c_str()));
        bool lt = o[k] < o[j], gt = o[k] > o[j], le = o[k] <= o[j], ge = o[k] >= o[j];
        if (lt + gt + (m[k] == m[j]) != 1 || le != !gt || ge != !lt)
          fail("bits-order", fmt("%s %s: < %d > %d <= %d >= %d", shows(m[k]).c_str(), shows(m[j]).c_str(), lt, gt, le, ge));
        // transitivity with the third
        int l = 3 - k - j;
        if (k != j && lt && o[j] < o[l] && !(o[k] < o[l]))
          fail("bits-order", "operator< is not transitive");
        // complement: flips every bit within the current length
        B c = ~o[k];
        S t;
        for (size_t i = 0; i < o[k].size(); ++i) if (!m[k].count(static_cast<int>(i))) t.insert(static_cast<int>(i));
        sameb(c, t, "operator~");
        break;
      }
      default:
        op = fmt("b%d.reserve(%d)", k, b);
        s.note("op", op);
        o[k].reserve(b);
        if (o[k].size() < static_cast<size_t>(b)) fail("bits-reserve", fmt("size() = %zu", o[k].size()));
        if (s.flip()) { o[k] = s.flip() ? B(a, b) : B(a); m[k] = o[k].count() == 1 ? model_range(a, a) : model_range(a, b); }
    }
    for (int i = 0; i < 3; ++i)
      sameb(o[i], m[i], op.c_str());
  }
  if (ops >= 5)
    s.nontrivial(hash_str(shows(m[0]) + shows(m[1]) + shows(m[2])));
}

// ---- generic set operations
static S gen_set(Source& s)
{
  S m;
  while (s.more(5)) m.insert(static_cast<int>(s.below(20)));
  return m;
}
static void setop_case(Source& s)
{
  S a = gen_set(s), b = gen_set(s);
  s.note("sets", shows(a) + " " + shows(b));
  S u(a), x, d(a);
  u.insert(b.begin(), b.end());
  for (int v : a) if (b.count(v)) x.insert(v);
  for (int v : b) d.erase(v);
  if (reflex::is_disjoint(a, b) != x.empty()) fail("setop-disjoint", "is_disjoint");
  if (reflex::is_subset(a, b) != (x.size() == a.size())) fail("setop-subset", "is_subset");
  int v = static_cast<int>(s.below(20));
  if (reflex::is_in_set(v, a) != (a.count(v) != 0)) fail("setop-in", "is_in_set");
  S c(a);
  reflex::set_insert(c, b);
  if (c != u) fail("setop-insert", "set_insert gives " + shows(c));
  c = a;
  reflex::set_delete(c, b);
  if (c != d) fail("setop-delete", "set_delete gives " + shows(c));
  typedef reflex::lazy_intersection<S,S> LI;
  typedef reflex::lazy_union<S,S> LU;
  std::vector<int> got, want(x.begin(), x.end());
  LI li(a, b);
  for (LI::iterator i = li.begin(); i != li.end() && got.size() < 100; ++i) got.push_back(*i);
  if (got != want) fail("setop-lazy-intersection", fmt("lazy_intersection gives %zu elements, expected %zu", got.size(), want.size()));
  got.clear();
  want.assign(u.begin(), u.end());
  LU lu(a, b);
  for (LU::iterator i = lu.begin(); i != lu.end() && got.size() < 100; i++) got.push_back(*i);
  if (got != want)
  {
    std::string g;
    for (int e : got) g += str(e) + " ";
    fail("setop-lazy-union", "lazy_union gives " + g);
  }
  if (!x.empty() && !d.empty())
    s.nontrivial(hash_str(shows(a) + shows(b)));
}

std::vector<Part> pbt::parts()
{
  return { { "oranges", oranges_case, 60000, 3000000, 8 }, { "ranges", ranges_case, 60000, 3000000, 8 }, { "bits", bits_case, 50000, 2000000, 8 }, { "setop", setop_case, 60000, 2000000, 8 } };
}
PBT_MAIN
