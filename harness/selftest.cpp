// the engine itself: draws stay in their ranges
#include "pbt_main.hpp"
RELATION("ranges", 1, "hi > lo")
{
    const auto lo = s.range(-100, 100);
    const auto hi = lo + s.sized(0, 1000);
    const auto x  = s.range(lo, hi);
    const auto y  = s.sized(lo, hi);
    pbt::require(lo <= x && x <= hi && lo <= y && y <= hi, "draw out of range");
    s.nontrivial(hi > lo);
}
