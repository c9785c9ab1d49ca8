// C05: anchors, word boundaries and lookahead constrain matches exactly as documented
#include "anch.h"

static void anchors_case(pbt::Source& s) { anch::all(s, { true, false, false }); }
static void look_case(pbt::Source& s) { anch::all(s, { s.flip(), true, false }); }

// known finding: of several anchors that hold at one position only one is followed
static void both_case(pbt::Source& s)
{
  static const struct { const char *regex, *text; size_t accept, size; } k[] = { { "^(bb)$|\\bbb|a|b", "#bb", 2, 2 }, { "-\\B|^.$", "--", 1, 1 } };
  size_t i = s.below(2);
  reflex::Pattern pattern(k[i].regex);
  std::string in = k[i].text;
  reflex::Matcher m(pattern, in);
  if (i == 0) m.input(); else m.scan();
  size_t got = m.scan();
  if (got != k[i].accept || m.size() != k[i].size)
    pbt::fail("both", pbt::fmt("second token of %s for pattern %s: scan() = %zu of size %zu, expected %zu of size %zu", k[i].text, k[i].regex, got, m.size(), k[i].accept, k[i].size));
}

std::vector<pbt::Part> pbt::parts() { return { { "anchors", anchors_case, 20000, 600000, 10 }, { "lookahead", look_case, 15000, 400000, 10 }, { "both", both_case, 0, 0, 5 } }; }
PBT_MAIN
