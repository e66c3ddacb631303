// Runs a transcoder, in C++17 or later: icubaby supports that, the rest of the library does not.
#ifndef VERIF_PROPS_P24_TRANSCODE_HPP
#define VERIF_PROPS_P24_TRANSCODE_HPP

#include <cstddef>
#include <cstdint>

namespace p24 {

struct Transcode {
  unsigned from;  // 0 bytes, 1 UTF-8, 2 UTF-16, 3 UTF-32
  unsigned to;    // 1 UTF-8, 2 UTF-16, 3 UTF-32
  char32_t const* units;  // reduced to the size of a unit
  std::size_t size;
};
using RunTranscode = void (*) (Transcode const*, void (*take) (void*, char const*, std::size_t), void* context);

}  // namespace p24

#ifdef P24_ICUBABY
#include <algorithm>
#include <iterator>
#include <string>
#include <type_traits>
#include <vector>

namespace p24 {

template <typename From, typename To>
std::string transcode_from_to (Transcode const& q) {
  std::vector<From> in;
  for (std::size_t i = 0; i < q.size; ++i) {
    in.push_back (static_cast<From> (q.units[i]));
  }
  std::string r;
  constexpr auto mask = sizeof (To) == 1 ? std::uint32_t{0xFF} : ~std::uint32_t{0};  // UTF-8 units may be of type char
  std::vector<To> out;
  auto const show = [&] (auto const& t) {
    for (auto const u : out) {
      r += std::to_string (static_cast<std::uint32_t> (u) & mask) + ",";
    }
    r += t.well_formed () ? "good" : "bad";
    if constexpr (std::is_same_v<From, std::byte>) {
      r += std::to_string (static_cast<int> (t.selected_encoding ()));
    }
    out.clear ();
  };
  P24_ICUBABY::transcoder<From, To> t;
  auto it = std::back_inserter (out);
  for (auto const u : in) {
    it = t (u, it);
    r += t.partial () ? 'p' : '.';
  }
  (void)t.end_cp (it);
  show (t);
  P24_ICUBABY::transcoder<From, To> t2;
  auto last = std::copy (in.begin (), in.end (), P24_ICUBABY::iterator{&t2, std::back_inserter (out)});
  (void)t2.end_cp (last.base ());
  show (t2);
  return r;
}

template <typename From>
std::string transcode_from (Transcode const& q) {
  switch (q.to) {
  case 1: return transcode_from_to<From, P24_ICUBABY::char8> (q);
  case 2: return transcode_from_to<From, char16_t> (q);
  default: return transcode_from_to<From, char32_t> (q);
  }
}

inline std::string transcode (Transcode const& q) {
  switch (q.from) {
  case 0: return transcode_from<std::byte> (q);
  case 1: return transcode_from<P24_ICUBABY::char8> (q);
  case 2: return transcode_from<char16_t> (q);
  default: return transcode_from<char32_t> (q);
  }
}

}  // namespace p24
#endif
#endif
