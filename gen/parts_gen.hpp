// Components for the encode/decode checks.
#ifndef VERIF_GEN_PARTS_GEN_HPP
#define VERIF_GEN_PARTS_GEN_HPP

#include <algorithm>
#include <string>
#include <vector>

#include "../ref/codec_ref.hpp"
#include "conv.hpp"
#include "stretch.hpp"
#include "text_gen.hpp"
#include "uri_gen.hpp"

namespace gen {

enum class HostKind { idn, encoded, round_trip };

inline std::string codec_text (pbt::Source& s, std::string (*good) (pbt::Source&)) {
  switch (s.weighted ({4, 3, 3, 1, 2, 1})) {
  case 0: return good (s);
  case 1: return escapes (s, 16);
  case 2: return soup (s, 16);
  case 3: return bytes (s, 16);
  case 4: return ref::utf8 (text (s, 8));
  default: return {};
  }
}

inline ref::Parts codec_parts (pbt::Source& s, HostKind kind) {
  ref::Parts p;
  auto const strip = [&] (std::string t) {
    if (kind == HostKind::round_trip) {
      std::erase (t, '%');
    }
    return t;
  };
  // Mostly like a real URI, sometimes anything at all.
  bool const tame = s.chance (1, 3);
  auto const txt = [&] (std::string (*good) (pbt::Source&)) { return tame && s.chance (3, 4) ? good (s) : codec_text (s, good); };
  if (s.chance (3, 4)) {
    p.scheme = strip (s.chance (3, 4) ? scheme (s) : txt (scheme));
  }
  if (s.chance (3, 4)) {
    ref::Authority a;
    if (s.flip ()) {
      a.userinfo = txt (userinfo);
    }
    if (kind == HostKind::encoded) {
      a.host = s.chance (1, 5) ? host (s) : encoded_host (s);
    } else {
      switch (s.weighted ({6, 2, 1})) {
      case 0: a.host = ref::utf8 (idn_host (s)); break;
      case 1: a.host = host (s); break;
      default: a.host = kind == HostKind::round_trip ? reg_name (s) : utf8_like (s, 8); break;
      }
    }
    if (kind == HostKind::round_trip) {
      // No label may look encoded already.
      for (;;) {
        auto const pos = a.host.starts_with ("xn--") ? 0 : a.host.find (".xn--");
        if (pos == std::string::npos) {
          break;
        }
        a.host.erase (pos == 0 && a.host.front () != '.' ? 0 : pos + 1, 1);
      }
    }
    if (s.flip ()) {
      a.port = strip (s.flip () ? port (s) : txt (port));
    }
    p.authority = a;
  }
  p.path.absolute = s.flip ();
  std::size_t n = s.length (34);
  if (s.chance (1, 8)) {
    n = 20 + s.below (80);
  }
  for (; n > 0; --n) {
    p.path.segments.push_back (n > 20 && s.chance (2, 3) ? std::string{s.pick ({"a", "%41", " ", "b c", "", "?"})}
                                                         : txt (segment));
  }
  stretch (s, p.path.segments, "a", 300, 5'000);
  if (s.flip ()) {
    p.query = txt (query);
  }
  if (s.flip ()) {
    p.fragment = txt (query);
  }
  return p;
}

// As conv::Holder, but an empty text is sometimes a null view, as the parser makes them.
class PartsHolder {
public:
  explicit PartsHolder (pbt::Source& s) : null_segments_{s.chance (1, 3)} {}
  uri::parts make (ref::Parts const& m) {
    auto p = h_.make (m);
    if (null_segments_) {
      for (auto& seg : p.path.segments) {
        if (seg.empty ()) {
          seg = std::string_view{};
        }
      }
      if (p.authority && p.authority->host.empty ()) {
        p.authority->host = std::string_view{};
      }
      if (p.query && p.query->empty ()) {
        p.query = std::string_view{};
      }
    }
    return p;
  }
  bool holds (std::string_view v) const { return h_.holds (v); }

private:
  conv::Holder h_;
  bool null_segments_;
};

// Gives a store some earlier content.
template <typename Store>
void dirty (pbt::Source& s, Store& store) {
  switch (s.below (3)) {
  case 0: break;
  case 1:
    for (auto n = s.below (20); n > 0; --n) {
      store.push_back ('#');
    }
    break;
  default: store.resize (300, '$'); break;
  }
}

template <typename Store>
void check_views (pbt::Case& c, uri::parts const& p, PartsHolder const& h, Store const& store, char const* what) {
  auto const one = [&] (std::string_view v, char const* field) {
    if (v.empty ()) {
      return;
    }
    auto const b = reinterpret_cast<std::uintptr_t> (store.data ());
    auto const d = reinterpret_cast<std::uintptr_t> (v.data ());
    bool const in_store = d >= b && d + v.size () <= b + store.size ();
    c.check (in_store || h.holds (v),
             [&] { return std::string{what} + ": " + field + " is neither in the original text nor in the store"; });
  };
  if (p.scheme) {
    one (*p.scheme, "scheme");
  }
  if (p.authority) {
    if (p.authority->userinfo) {
      one (*p.authority->userinfo, "userinfo");
    }
    one (p.authority->host, "host");
    if (p.authority->port) {
      one (*p.authority->port, "port");
    }
  }
  for (auto const& s : p.path.segments) {
    one (s, "path segment");
  }
  if (p.query) {
    one (*p.query, "query");
  }
  if (p.fragment) {
    one (*p.fragment, "fragment");
  }
}

}  // namespace gen
#endif
