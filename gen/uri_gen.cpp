#include "uri_gen.hpp"

#include <cstdio>

#include "../ref/abnf.hpp"
#include "stretch.hpp"

namespace gen {

using pbt::Source;

namespace {

constexpr std::string_view alpha = "abcxyzABCXYZghGHjkqrstuvwnopmlWV";
constexpr std::string_view digits = "0123456789";
constexpr std::string_view hex = "0123456789abcdefABCDEF";
constexpr std::string_view sub_delims = "!$&'()*+,;=";
constexpr std::string_view marks = "-._~";
constexpr std::string_view structure = ":/?#[]@%.-!;=&+,~_0159aAfFgGvVzZ ";

void unreserved (Source& s, std::string& out) {
  switch (s.weighted ({6, 3, 2, 1})) {
  case 0: out += s.pick_char (alpha); break;
  case 1: out += s.pick_char (digits); break;
  case 2: out += s.pick_char (marks); break;
  default: {
    constexpr std::string_view all = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~";
    out += s.pick_char (all);
  }
  }
}
void pct (Source& s, std::string& out) {
  out += '%';
  out += s.pick_char (hex);
  out += s.pick_char (hex);
}
// unreserved / pct-encoded / sub-delims / extra
std::string chars (Source& s, std::size_t n, std::string_view extra) {
  std::string out;
  for (std::size_t i = 0; i < n; ++i) {
    switch (s.weighted ({6, 1, 2, extra.empty () ? 0U : 2U})) {
    case 0: unreserved (s, out); break;
    case 1: pct (s, out); break;
    case 2: out += s.pick_char (sub_delims); break;
    default: out += s.pick_char (extra); break;
    }
  }
  stretch (s, out, 'a');
  return out;
}

std::string octet (Source& s) {
  switch (s.weighted ({4, 2, 2})) {
  case 0: return std::to_string (s.below (256));
  case 1: return std::string{s.pick ({"0", "9", "10", "99", "100", "199", "200", "249", "250", "255"})};
  default: return std::to_string (s.below (10));
  }
}
std::string octet_like (Source& s) {
  switch (s.weighted ({5, 3, 1})) {
  case 0: return octet (s);
  case 1:
    return std::string{s.pick ({"256", "260", "299", "300", "999", "1000", "00", "01", "007", "0", "", "25", "2", "1",
                                "a", "25a", "-1", "2555", "190", "251", "24", "%32"})};
  default: return std::to_string (s.below (1500));
  }
}
std::string h16 (Source& s) {
  std::string out;
  auto const n = 1 + s.below (4);
  for (std::uint64_t i = 0; i < n; ++i) {
    out += s.pick_char (hex);
  }
  return out;
}

}  // namespace

std::string scheme (Source& s) {
  switch (s.weighted ({3, 3, 1})) {
  case 0:
    return std::string{s.pick ({"http", "s", "file", "ftp", "mailto", "urn", "HTTP", "a", "ldap", "x-y.z+1", "https"})};
  case 1: {
    std::string out (1, s.pick_char (alpha));
    for (auto n = s.length (12); n > 0; --n) {
      out += s.pick_char ("abzABZ019+-.");
    }
    stretch (s, out, 'a');
    return out;
  }
  default: return ref::rfc3986 ().generate ("scheme", s, 6);
  }
}
std::string userinfo (Source& s) {
  if (s.chance (1, 6)) {
    return std::string{s.pick ({"", "user", "user:password", ":", "a:b:c", "1.2.3.4", "%40"})};
  }
  return chars (s, s.length (40), ":");
}
std::string ipv4 (Source& s) {
  return octet (s) + "." + octet (s) + "." + octet (s) + "." + octet (s);
}
std::string ipv6 (Source& s) {
  if (s.chance (1, 3)) {
    return ref::rfc3986 ().generate ("IPv6address", s, 3);
  }
  // `groups` 16-bit groups (an IPv4 tail counts for two), with "::" in place of at least one of eight.
  bool const v4 = s.chance (1, 3);
  bool const elide = s.chance (2, 3);
  unsigned const tail = v4 ? 2 : 0;
  unsigned const total = elide ? static_cast<unsigned> (s.range (tail, 7)) : 8;
  unsigned const plain = total - tail;
  unsigned const at = elide ? static_cast<unsigned> (s.below (plain + 1)) : 99;
  std::string out;
  bool sep = false;
  for (unsigned i = 0; i < plain + 1; ++i) {
    if (i == at) {
      out += "::";
      sep = false;
    }
    if (i == plain) {
      break;
    }
    if (sep) {
      out += ':';
    }
    out += h16 (s);
    sep = true;
  }
  if (v4) {
    if (sep) {
      out += ':';
    }
    out += ipv4 (s);
  }
  return out;
}
std::string reg_name (Source& s) {
  switch (s.weighted ({3, 3, 1, 1})) {
  case 0:
    return std::string{s.pick ({"", "example.com", "localhost", "a", "www.example.org", "xn--mnchen-3ya.de", "1", "1.2.3",
                                "1.2.3.4.5", "127.0.0.1x", "256.1.1.1", "v1.x", "a..b", ".", "%5B", "1.2.3.4.com"})};
  case 1: return chars (s, s.length (40), "");
  case 2: {
    auto t = ip_like (s);
    return ref::rfc3986 ().matches ("reg-name", t) ? t : ipv4 (s);
  }
  default: return ref::rfc3986 ().generate ("reg-name", s, 12);
  }
}
std::string host (Source& s) {
  switch (s.weighted ({5, 2, 3, 1})) {
  case 0: return reg_name (s);
  case 1: return ipv4 (s);
  case 2: return "[" + ipv6 (s) + "]";
  default: {
    std::string out = "[";
    out += s.flip () ? 'v' : 'V';
    for (auto n = 1 + s.below (4); n > 0; --n) {
      out += s.pick_char (hex);
    }
    out += '.';
    for (auto n = 1 + s.below (8); n > 0; --n) {
      switch (s.below (3)) {
      case 0: unreserved (s, out); break;
      case 1: out += s.pick_char (sub_delims); break;
      default: out += ':'; break;
      }
    }
    return out + "]";
  }
  }
}
std::string port (Source& s) {
  std::string out;
  for (auto n = s.length (20); n > 0; --n) {
    out += s.pick_char (digits);
  }
  stretch (s, out, '0');
  return out;
}
std::string segment (Source& s) {
  switch (s.weighted ({3, 2, 3, 1})) {
  case 0: return std::string{s.pick ({"a", "b", "c", "", ".", "..", "...", "g", "a:b", ";x=1", "%2E", ".a", "a."})};
  case 1: return {};
  case 2: return chars (s, s.length (20), ":@");
  default: return ref::rfc3986 ().generate ("segment", s, 6);
  }
}
std::string query (Source& s) {
  if (s.chance (1, 8)) {
    return std::string{s.pick ({"", "?", "/", "a=b&c=d", "?/?", "%00", ":@"})};
  }
  return chars (s, s.length (40), ":@/?");
}

std::string ip_like (Source& s) {
  switch (s.weighted ({3, 3, 2})) {
  case 0: {
    std::string out;
    auto const n = s.weighted ({1, 1, 2, 3, 10, 3, 1});
    for (std::size_t i = 0; i < n; ++i) {
      if (i > 0) {
        out += '.';
      }
      out += octet_like (s);
    }
    if (s.chance (1, 4)) {
      out += s.pick ({".", "a", "%41", "-", "!", "..", "x.y", ":"});
    }
    return out;
  }
  case 1: {
    // Any arrangement of groups, colons and an IPv4 tail.
    std::string out;
    auto const n = s.below (11);
    for (std::uint64_t i = 0; i < n; ++i) {
      switch (s.weighted ({8, 2, 1, 1})) {
      case 0: out += h16 (s) + (s.chance (1, 8) ? "" : ":"); break;
      case 1: out += "::"; break;
      case 2: out += ":"; break;
      default: out += octet_like (s) + "." + octet_like (s) + "." + octet_like (s) + "." + octet_like (s); break;
      }
    }
    if (s.flip ()) {
      out += h16 (s);
    }
    return out;
  }
  default: return mutate_once (s, ipv6 (s));
  }
}

std::string mutate_once (Source& s, std::string t) {
  auto const any = [&s] {
    switch (s.weighted ({8, 1, 1})) {
    case 0: return s.pick_char (structure);
    case 1: return static_cast<char> (s.byte ());
    default: return s.pick_char (hex);
    }
  };
  switch (s.weighted ({4, 4, 4, 2, 2, 1, 1})) {
  case 0:  // insert
    t.insert (t.begin () + static_cast<std::ptrdiff_t> (s.below (t.size () + 1)), any ());
    break;
  case 1:  // delete
    if (!t.empty ()) {
      t.erase (t.begin () + static_cast<std::ptrdiff_t> (s.below (t.size ())));
    }
    break;
  case 2:  // replace
    if (!t.empty ()) {
      t[s.below (t.size ())] = any ();
    }
    break;
  case 3:  // duplicate a piece
    if (!t.empty ()) {
      auto const first = s.below (t.size ());
      auto const piece = t.substr (first, 1 + s.below (6));
      t.insert (s.below (t.size () + 1), piece);
    }
    break;
  case 4:  // transpose
    if (t.size () > 1) {
      auto const p = s.below (t.size () - 1);
      std::swap (t[p], t[p + 1]);
    }
    break;
  case 5:  // truncate
    t.resize (s.below (t.size () + 1));
    break;
  default:  // drop the front
    t.erase (0, s.below (t.size () + 1));
    break;
  }
  return t;
}
std::string mutate (Source& s, std::string t) {
  for (auto n = 1 + s.weighted ({6, 2, 1}); n > 0; --n) {
    t = mutate_once (s, std::move (t));
  }
  return t;
}

std::string soup (Source& s, std::size_t max) {
  std::string out;
  for (auto n = s.length (max); n > 0; --n) {
    out += s.chance (1, 16) ? static_cast<char> (s.byte ()) : s.pick_char (structure);
  }
  stretch (s, out, 'a', 1500, 5'000);
  return out;
}
std::string bytes (Source& s, std::size_t max) {
  std::string out;
  for (auto n = s.length (max); n > 0; --n) {
    out += static_cast<char> (s.byte ());
  }
  stretch (s, out, 'a', 1500);
  return out;
}
std::string escapes (Source& s, std::size_t max) {
  std::string out;
  for (auto n = s.length (max); n > 0; --n) {
    switch (s.weighted ({6, 3, 3, 2, 2, 1})) {
    case 0: pct (s, out); break;
    case 1: out += '%'; break;
    case 2: out += s.pick_char (hex); break;
    case 3: out += s.pick_char ("gG@`:/ xX~"); break;
    case 4: out += s.pick ({"%25", "%2", "%g0", "%0g", "%%41", "%2541", "%4%31", "%", "%ff", "%00", "%FF", "% 41"}); break;
    default: out += static_cast<char> (s.byte ()); break;
    }
  }
  stretch (s, out, 'a', 1500);
  return out;
}

std::vector<std::string> segments (Source& s, PathOptions const& o) {
  std::vector<std::string> r;
  for (auto n = s.length (o.max); n > 0; --n) {
    if (o.dots) {
      switch (s.weighted ({4, 4, 3, 3, 1})) {
      case 0: r.emplace_back (s.pick ({"a", "b", "c", "d"})); break;
      case 1: r.emplace_back (".."); break;
      case 2: r.emplace_back ("."); break;
      case 3: r.emplace_back (); break;
      default: r.push_back (segment (s)); break;
      }
    } else {
      r.push_back (segment (s));
    }
  }
  stretch (s, r, "a", 500, 3'000);
  return r;
}

ref::Parts parts (Source& s, bool reference, PathOptions const& o) {
  ref::Parts p;
  if (!reference || s.chance (2, 5)) {
    p.scheme = scheme (s);
  }
  if (s.flip ()) {
    ref::Authority a;
    if (s.chance (1, 3)) {
      a.userinfo = userinfo (s);
    }
    a.host = host (s);
    if (s.chance (1, 3)) {
      a.port = port (s);
    }
    p.authority = a;
  }
  p.path.segments = segments (s, o);
  p.path.absolute = s.flip ();
  if (p.path.segments.empty ()) {
    p.path.absolute = false;
  } else if (p.authority) {
    p.path.absolute = true;
  } else {
    auto& first = p.path.segments.front ();
    if (first.empty () && (!p.path.absolute || p.path.segments.size () > 1)) {
      first = s.pick ({"a", ".", "..", "%61"});
    }
    if (!p.path.absolute && !p.scheme) {
      // path-noscheme: no colon in the first segment
      for (char& c : first) {
        if (c == ':') {
          c = '@';
        }
      }
    }
  }
  if (s.chance (1, 3)) {
    p.query = query (s);
  }
  if (s.chance (1, 3)) {
    p.fragment = query (s);
  }
  return p;
}

std::string uri (Source& s, bool reference) {
  if (s.chance (1, 5)) {
    return ref::rfc3986 ().generate (reference ? "URI-reference" : "URI", s, 1 + static_cast<unsigned> (s.below (5)));
  }
  return ref::compose (parts (s, reference));
}

std::string uri_like (Source& s, pbt::Case& c, bool* near) {
  *near = true;
  switch (s.weighted ({30, 34, 16, 6, 2, 1})) {
  case 0: c.label ("gen:derivable"); return uri (s, s.flip ());
  case 1: c.label ("gen:mutated"); return mutate (s, uri (s, s.flip ()));
  case 2: {
    // an IP-like host in an otherwise fine URI
    c.label ("gen:ip-like host");
    std::string out = s.chance (3, 4) ? "s:" : "";
    out += "//";
    if (s.chance (1, 4)) {
      out += userinfo (s) + "@";
    }
    bool const brackets = s.chance (3, 5);
    out += (brackets ? "[" : "") + ip_like (s) + (brackets ? "]" : "");
    if (s.chance (1, 4)) {
      out += ":" + port (s);
    }
    if (s.chance (1, 3)) {
      out += "/" + segment (s);
    }
    return out;
  }
  case 3: *near = false; c.label ("gen:soup"); return soup (s, 40);
  case 4: *near = false; c.label ("gen:bytes"); return bytes (s, 40);
  default: {
    // long, made of a repeated piece
    c.label ("gen:long");
    auto t = uri (s, s.flip ());
    auto const first = s.below (t.size () + 1);
    auto piece = t.substr (first, 1 + s.below (8));
    if (piece.empty ()) {
      piece = "/";
    }
    std::string rep;
    for (auto n = s.below (400); n > 0; --n) {
      rep += piece;
    }
    t.insert (first, rep);
    return s.chance (1, 3) ? mutate_once (s, t) : t;
  }
  }
}

ref::Parts any_parts (Source& s, bool valid_bias) {
  auto const text = [&] (std::string (*good) (Source&)) {
    switch (valid_bias ? s.weighted ({40, 2, 1, 1}) : s.weighted ({6, 3, 2, 2})) {
    case 0: return good (s);
    case 1: return mutate_once (s, good (s));
    case 2: return soup (s, 12);
    default: return bytes (s, 12);
    }
  };
  ref::Parts p;
  if (s.chance (14, 15)) {
    p.scheme = text (scheme);
  }
  if (s.flip ()) {
    ref::Authority a;
    if (s.flip ()) {
      a.userinfo = text (userinfo);
    }
    a.host = s.chance (1, 5) ? (s.flip () ? "[" + ip_like (s) + "]" : ip_like (s)) : text (host);
    if (s.flip ()) {
      a.port = text (port);
    }
    p.authority = a;
  }
  p.path.absolute = s.flip ();
  for (auto n = s.length (34); n > 0; --n) {
    p.path.segments.push_back (text (segment));
  }
  stretch (s, p.path.segments, "a", 300, 5'000);
  if (s.flip ()) {
    p.query = text (query);
  }
  if (s.flip ()) {
    p.fragment = text (query);
  }
  return p;
}

}  // namespace gen
