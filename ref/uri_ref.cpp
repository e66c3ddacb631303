#include "uri_ref.hpp"

#include "abnf.hpp"

namespace ref {

namespace {
std::string show (ostring const& s) {
  return s ? pbt::show (*s) : "none";
}
}  // namespace

std::string show (Authority const& a) {
  return "{userinfo=" + show (a.userinfo) + " host=" + pbt::show (a.host) + " port=" + show (a.port) + "}";
}
std::string show (Path const& p) {
  std::string r = p.absolute ? "abs[" : "rel[";
  char const* sep = "";
  std::size_t n = 0;
  for (auto const& s : p.segments) {
    r += sep;
    if (++n > 60) {
      r += "...(" + std::to_string (p.segments.size ()) + ")";
      break;
    }
    r += pbt::show (s);
    sep = " ";
  }
  return r + "]";
}
std::string show (Parts const& p) {
  return "{scheme=" + show (p.scheme) + " authority=" + (p.authority ? show (*p.authority) : "none") +
         " path=" + show (p.path) + " query=" + show (p.query) + " fragment=" + show (p.fragment) + "}";
}

Parts decompose (std::string_view s, Offsets* offsets) {
  Offsets dummy;
  Offsets& off = offsets != nullptr ? *offsets : dummy;
  Parts r;
  std::size_t pos = 0;
  // ^(([^:/?#]+):)?
  auto const delim = s.find_first_of (":/?#");
  if (delim != std::string_view::npos && delim > 0 && s[delim] == ':') {
    r.scheme = s.substr (0, delim);
    off.scheme = 0;
    pos = delim + 1;
  }
  // (//([^/?#]*))?
  if (s.substr (pos, 2) == "//") {
    auto const first = pos + 2;
    auto last = s.find_first_of ("/?#", first);
    if (last == std::string_view::npos) {
      last = s.size ();
    }
    Authority a;
    auto h = first;
    if (auto const at = s.find ('@', first); at < last) {
      a.userinfo = s.substr (first, at - first);
      off.userinfo = first;
      h = at + 1;
    }
    std::size_t colon = std::string_view::npos;
    if (h < last && s[h] == '[') {
      auto const close = s.find (']', h);
      colon = s.find (':', close);
    } else {
      colon = s.find (':', h);
    }
    if (colon < last) {
      a.port = s.substr (colon + 1, last - colon - 1);
      off.port = colon + 1;
    } else {
      colon = last;
    }
    a.host = s.substr (h, colon - h);
    off.host = h;
    r.authority = a;
    pos = last;
  }
  // ([^?#]*)
  auto path_end = s.find_first_of ("?#", pos);
  if (path_end == std::string_view::npos) {
    path_end = s.size ();
  }
  r.path = path_from_string (s.substr (pos, path_end - pos));
  auto o = pos + (r.path.absolute ? 1U : 0U);
  for (auto const& seg : r.path.segments) {
    off.segments.push_back (o);
    o += seg.size () + 1;
  }
  pos = path_end;
  // (\?([^#]*))?
  if (pos < s.size () && s[pos] == '?') {
    auto q_end = s.find ('#', pos);
    if (q_end == std::string_view::npos) {
      q_end = s.size ();
    }
    r.query = s.substr (pos + 1, q_end - pos - 1);
    off.query = pos + 1;
    pos = q_end;
  }
  // (#(.*))?
  if (pos < s.size ()) {
    r.fragment = s.substr (pos + 1);
    off.fragment = pos + 1;
  }
  return r;
}

std::string path_string (Path const& p) {
  std::string r;
  for (std::size_t i = 0; i < p.segments.size (); ++i) {
    if (i > 0 || p.absolute) {
      r += '/';
    }
    r += p.segments[i];
  }
  return r;
}

Path path_from_string (std::string_view s) {
  Path p;
  if (s.empty ()) {
    return p;
  }
  if (s.front () == '/') {
    p.absolute = true;
    s.remove_prefix (1);
  }
  for (;;) {
    auto const slash = s.find ('/');
    p.segments.emplace_back (s.substr (0, slash));
    if (slash == std::string_view::npos) {
      return p;
    }
    s.remove_prefix (slash + 1);
  }
}

std::string authority_string (Authority const& a) {
  std::string r;
  if (a.userinfo) {
    r += *a.userinfo + "@";
  }
  r += a.host;
  if (a.port) {
    r += ":" + *a.port;
  }
  return r;
}

std::string compose (Parts const& p) {
  std::string r;
  if (p.scheme) {
    r += *p.scheme + ":";
  }
  if (p.authority) {
    r += "//" + authority_string (*p.authority);
    if (!p.path.absolute && !p.path.segments.empty ()) {
      r += '/';
    }
  }
  r += path_string (p.path);
  if (p.query) {
    r += "?" + *p.query;
  }
  if (p.fragment) {
    r += "#" + *p.fragment;
  }
  return r;
}

std::string remove_dot_segments (std::string_view path) {
  // 1. The input buffer is initialized with the now-appended path components and the output buffer is initialized to
  //    the empty string.
  std::string in{path};
  std::string out;
  std::size_t pos = 0;  // in[pos..] is the input buffer
  auto const rest = [&] { return std::string_view{in}.substr (pos); };
  // 2. While the input buffer is not empty, loop as follows:
  while (pos < in.size ()) {
    auto const s = rest ();
    if (s.starts_with ("../")) {  // A.
      pos += 3;
    } else if (s.starts_with ("./")) {
      pos += 2;
    } else if (s.starts_with ("/./")) {  // B.
      pos += 2;
    } else if (s == "/.") {
      in.resize (pos + 1);
    } else if (s.starts_with ("/../") || s == "/..") {  // C.
      if (s == "/..") {
        in.resize (pos + 1);
      } else {
        pos += 3;
      }
      auto const slash = out.rfind ('/');
      out.resize (slash == std::string::npos ? 0 : slash);
    } else if (s == "." || s == "..") {  // D.
      pos = in.size ();
    } else {  // E.
      auto const next = s.find ('/', s.front () == '/' ? 1 : 0);
      out += s.substr (0, next);
      pos = next == std::string_view::npos ? in.size () : pos + next;
    }
  }
  return out;
}

Path remove_dot_segments (Path p) {
  Path r;
  r.absolute = p.absolute;
  bool dot = false;
  for (auto const& s : p.segments) {
    dot = s == "." || s == "..";
    if (s == "..") {
      if (!r.segments.empty ()) {
        r.segments.pop_back ();
      }
    } else if (s != ".") {
      r.segments.push_back (s);
    }
  }
  if (dot) {
    r.segments.emplace_back ();
  }
  return r;
}

namespace {

Path dots (Path const& p) {
  if (p.absolute && !p.segments.empty ()) {
    return path_from_string (remove_dot_segments (path_string (p)));
  }
  return remove_dot_segments (p);
}

}  // namespace

Parts resolve (Parts const& base, Parts const& r_in, bool strict) {
  Parts r = r_in;
  if (!strict && r.scheme == base.scheme) {
    r.scheme.reset ();
  }
  Parts t;
  if (r.scheme) {
    t.scheme = r.scheme;
    t.authority = r.authority;
    t.path = dots (r.path);
    t.query = r.query;
  } else {
    if (r.authority) {
      t.authority = r.authority;
      t.path = dots (r.path);
      t.query = r.query;
    } else {
      auto const rp = path_string (r.path);
      if (rp.empty () && r.path.segments.empty ()) {
        t.path = base.path;
        t.query = r.query ? r.query : base.query;
      } else {
        if (r.path.absolute) {
          t.path = dots (r.path);
        } else if (base.authority && base.path.segments.empty ()) {
          t.path = path_from_string (remove_dot_segments ("/" + rp));
        } else if (base.path.absolute) {
          auto const bp = path_string (base.path);
          t.path = path_from_string (remove_dot_segments (bp.substr (0, bp.rfind ('/') + 1) + rp));
        } else {
          Path m = base.path;
          if (!m.segments.empty ()) {
            m.segments.pop_back ();
          }
          m.segments.insert (m.segments.end (), r.path.segments.begin (), r.path.segments.end ());
          t.path = remove_dot_segments (m);
        }
        t.query = r.query;
      }
      t.authority = base.authority;
    }
    t.scheme = base.scheme;
  }
  t.fragment = r.fragment;
  return t;
}

bool valid_authority (Authority const& a) {
  auto const& g = rfc3986 ();
  return (!a.userinfo || g.matches ("userinfo", *a.userinfo)) && g.matches ("host", a.host) &&
         (!a.port || g.matches ("port", *a.port));
}
bool valid_path (Path const& p) {
  for (auto const& s : p.segments) {
    if (!rfc3986 ().matches ("segment", s)) {
      return false;
    }
  }
  return true;
}
bool valid (Parts const& p) {
  auto const& g = rfc3986 ();
  return p.scheme && g.matches ("scheme", *p.scheme) && (!p.authority || valid_authority (*p.authority)) &&
         valid_path (p.path) && (p.authority || !path_string (p.path).starts_with ("//")) &&
         (!p.query || g.matches ("query", *p.query)) && (!p.fragment || g.matches ("fragment", *p.fragment));
}

}  // namespace ref
