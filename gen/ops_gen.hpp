// Arguments for the operations.
#ifndef VERIF_GEN_OPS_GEN_HPP
#define VERIF_GEN_OPS_GEN_HPP

#include "ops.hpp"
#include "parts_gen.hpp"
#include "text_gen.hpp"
#include "uri_gen.hpp"

namespace ops {

inline std::string text (pbt::Source& s, pbt::Case& c) {
  bool near = false;
  switch (s.weighted ({3, 3, 2, 2, 2, 2, 2, 1})) {
  case 0: return gen::uri_like (s, c, &near);
  case 1: return gen::soup (s, 60);
  case 2: return gen::bytes (s, 60);
  case 3: return gen::escapes (s, 40);
  case 4: return gen::puny_like (s);
  case 5: return gen::utf8_like (s, 30);
  case 6: return gen::encoded_host (s);
  default: {
    std::string r;
    for (auto const u : gen::utf16_like (s, 12)) {
      r += static_cast<char> (u & 0xFFU);
      r += static_cast<char> (u >> 8U);
    }
    return std::string{s.pick ({"\xFF\xFE", "\xFE\xFF", ""})} + r;
  }
  }
}

// Components of which every field is arbitrary, or one is large.
inline ref::Parts components (pbt::Source& s, std::string const& big) {
  auto p = s.flip () ? gen::codec_parts (s, s.flip () ? gen::HostKind::idn : gen::HostKind::encoded) : gen::any_parts (s, s.flip ());
  if (!big.empty ()) {
    switch (s.below (7)) {
    case 0: p.scheme = big; break;
    case 1:
    case 2:
      if (!p.authority) {
        p.authority.emplace ();
      }
      (s.flip () ? p.authority->host : p.authority->userinfo.emplace ()) = big;
      break;
    case 3: p.query = big; break;
    case 4: p.fragment = big; break;
    default:
      // Many segments.
      p.path.segments.clear ();
      for (std::size_t i = 0; i < big.size () && p.path.segments.size () < 4000;) {
        auto const n = 1U + s.below (6);
        p.path.segments.push_back (big.substr (i, n));
        i += n;
      }
    }
  }
  return p;
}

}  // namespace ops
#endif
