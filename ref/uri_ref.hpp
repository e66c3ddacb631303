// Reference models for RFC 3986: components, composition, dot segments and reference resolution. They work on owned
// strings and follow the text of the RFC.
#ifndef VERIF_REF_URI_REF_HPP
#define VERIF_REF_URI_REF_HPP

#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

using ostring = std::optional<std::string>;

struct Authority {
  ostring userinfo;
  std::string host;
  ostring port;
  bool operator== (Authority const&) const = default;
};

struct Path {
  bool absolute = false;
  std::vector<std::string> segments;
  bool operator== (Path const&) const = default;
};

struct Parts {
  ostring scheme;
  std::optional<Authority> authority;
  Path path;
  ostring query;
  ostring fragment;
};

std::string show (Authority const& a);
std::string show (Path const& p);
std::string show (Parts const& p);

// The offset of each component in the text given to decompose().
struct Offsets {
  std::size_t scheme = 0, userinfo = 0, host = 0, port = 0, query = 0, fragment = 0;
  std::vector<std::size_t> segments;
};

// Splits a string which is known to be a URI or a relative reference (RFC 3986 Appendix B, then section 3.2).
Parts decompose (std::string_view s, Offsets* offsets = nullptr);

std::string path_string (Path const& p);
// The inverse: a leading slash makes the path absolute; the empty path has no segments.
Path path_from_string (std::string_view s);
std::string authority_string (Authority const& a);
// RFC 3986 section 5.3. The path of a URI with an authority is made to start with a slash.
std::string compose (Parts const& p);

// RFC 3986 section 5.2.4, literally.
std::string remove_dot_segments (std::string_view path);
// The same on segments.
Path remove_dot_segments (Path p);

// RFC 3986 section 5.2.2 on components. If the base path or the result is rooted this follows the string
// algorithms, otherwise it works by segments.
Parts resolve (Parts const& base, Parts const& r, bool strict);

// RFC 3986 for the components of a URI (parts::valid()).
bool valid_authority (Authority const& a);
bool valid_path (Path const& p);
bool valid (Parts const& p);

}  // namespace ref
#endif
