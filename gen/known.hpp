// The known finding of P07: U+0060 GRAVE ACCENT is missing from the fragment set.
#ifndef VERIF_GEN_KNOWN_HPP
#define VERIF_GEN_KNOWN_HPP

#include "../engine/engine.hpp"
#include "../ref/codec_ref.hpp"
#include "uri/pctencode.hpp"

namespace known {

// Makes the model of the fragment set agree with the library about this one byte; P07 decides whether that is right.
inline bool fragment_grave () {
  static bool const member = [] {
    bool const m = uri::needs_pctencode (std::uint_least8_t{0x60}, uri::pctencode_set::fragment);
    ref::set_fragment_grave (m);
    return m;
  }();
  return member;
}

}  // namespace known
#endif
