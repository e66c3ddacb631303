// Makes some texts and sequences long enough to pass the boundaries of small counters.
#ifndef VERIF_GEN_STRETCH_HPP
#define VERIF_GEN_STRETCH_HPP

#include <algorithm>
#include <cstddef>
#include <vector>

#include "../engine/engine.hpp"

namespace gen {

// Once in `rarity` times, makes the whole longer until its size is around a power of two of up to `max`: by repetition, so
// that what it holds is found in all places, or with `filler` before or after it, so that it is found only late or early. At
// most once in each case: a long repetition of something which is itself long would be too much.
template <typename Container>
void stretch (pbt::Source& s, Container& t, typename Container::value_type const& filler, unsigned rarity = 500,
              std::size_t max = 70'000) {
  if (!s.chance (1, rarity) || t.empty ()) {
    return;
  }
  constexpr std::size_t around[] = {256, 256, 256, 128, 64, 512, 1024, 2048, 4096, 8192, 32768, 65536, 65536};
  auto target = s.pick (around) + s.below (12);
  target = std::min (target < 6 ? target : target - 6, max);
  auto const size = t.size ();
  if (target <= size || !s.once ()) {
    return;
  }
  switch (s.weighted ({2, 2, 1})) {
  case 0: {
    Container const unit = t;
    t.reserve (target + size);
    while (t.size () < target) {
      t.insert (t.end (), unit.begin (), unit.end ());
    }
    break;
  }
  case 1:
    // The size may also be that of the filler alone.
    t.insert (t.begin (), s.flip () ? target : target - size, filler);
    break;
  default: t.insert (t.end (), s.flip () ? target : target - size, filler); break;
  }
}

}  // namespace gen
#endif
