// C07: negative patterns consume what they match and are never returned
#include "anch.h"

static void neg_case(pbt::Source& s) { anch::all(s, { s.chance(1, 3), s.chance(1, 4), true }); }

std::vector<pbt::Part> pbt::parts() { return { { "negative", neg_case, 20000, 600000, 10 } }; }
PBT_MAIN
