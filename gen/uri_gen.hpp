// Generators of URIs, references, their components and near misses.
#ifndef VERIF_GEN_URI_GEN_HPP
#define VERIF_GEN_URI_GEN_HPP

#include <string>
#include <string_view>

#include "../engine/engine.hpp"
#include "../ref/uri_ref.hpp"

namespace gen {

// Each of these is derivable from the rule of that name.
std::string scheme (pbt::Source& s);
std::string userinfo (pbt::Source& s);
std::string host (pbt::Source& s);
std::string ipv4 (pbt::Source& s);
std::string ipv6 (pbt::Source& s);
std::string reg_name (pbt::Source& s);
std::string port (pbt::Source& s);
std::string segment (pbt::Source& s);
std::string query (pbt::Source& s);

// Text which looks like an IPv4 address, IPv6 address etc. and may or may not be one.
std::string ip_like (pbt::Source& s);

// One to three edits: deletion, insertion, replacement, duplication, transposition, truncation.
std::string mutate (pbt::Source& s, std::string text);
std::string mutate_once (pbt::Source& s, std::string text);

// Arbitrary bytes: from an alphabet of delimiters and interesting characters, or any.
std::string soup (pbt::Source& s, std::size_t max);
std::string bytes (pbt::Source& s, std::size_t max);
// Bytes with many percent escapes, well formed or not, and hex digits.
std::string escapes (pbt::Source& s, std::size_t max);

struct PathOptions {
  bool dots = false;  // prefer dot segments
  std::size_t max = 40;
};
// Segments of a path in which each segment is valid.
std::vector<std::string> segments (pbt::Source& s, PathOptions const& o = {});

// The components of a URI (with scheme) or of a relative reference which compose to a derivable string and come back
// from parsing it unchanged.
ref::Parts parts (pbt::Source& s, bool reference, PathOptions const& o = {});
// Text of the same, sometimes derived from the grammar by a random walk instead.
std::string uri (pbt::Source& s, bool reference);
// Valid, nearly valid or invalid text.
std::string uri_like (pbt::Source& s, pbt::Case& c, bool* near);

// Arbitrary components: each is valid, a near miss or arbitrary, and they need not fit together.
ref::Parts any_parts (pbt::Source& s, bool valid_bias);

}  // namespace gen
#endif
