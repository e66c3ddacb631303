// Conversions between the library's types and the models.
#ifndef VERIF_GEN_CONV_HPP
#define VERIF_GEN_CONV_HPP

#include <deque>
#include <optional>
#include <string>
#include <string_view>

#include "../engine/engine.hpp"
#include "../ref/uri_ref.hpp"
#include "uri/uri.hpp"

namespace conv {

inline ref::ostring own (std::optional<std::string_view> const& s) {
  return s ? ref::ostring{std::string{*s}} : ref::ostring{};
}
inline ref::Path own (struct uri::parts::path const& p) {
  ref::Path r;
  r.absolute = p.absolute;
  for (auto const& s : p.segments) {
    r.segments.emplace_back (s);
  }
  return r;
}
inline ref::Authority own (struct uri::parts::authority const& a) {
  return {own (a.userinfo), std::string{a.host}, own (a.port)};
}
inline ref::Parts own (uri::parts const& p) {
  ref::Parts r;
  r.scheme = own (p.scheme);
  if (p.authority) {
    r.authority = own (*p.authority);
  }
  r.path = own (p.path);
  r.query = own (p.query);
  r.fragment = own (p.fragment);
  return r;
}

// Keeps the texts of library objects made from models, each in its own heap block.
class Holder {
public:
  std::string_view hold (std::string_view s) {
    blocks_.emplace_back (s);
    return blocks_.back ().view ();
  }
  std::optional<std::string_view> hold (ref::ostring const& s) {
    return s ? std::optional<std::string_view>{hold (std::string_view{*s})} : std::nullopt;
  }
  struct uri::parts::authority make (ref::Authority const& a) {
    struct uri::parts::authority r;
    r.userinfo = hold (a.userinfo);
    r.host = hold (std::string_view{a.host});
    r.port = hold (a.port);
    return r;
  }
  struct uri::parts::path make (ref::Path const& p) {
    struct uri::parts::path r;
    r.absolute = p.absolute;
    for (auto const& s : p.segments) {
      r.segments.push_back (hold (std::string_view{s}));
    }
    return r;
  }
  uri::parts make (ref::Parts const& p) {
    uri::parts r;
    r.scheme = hold (p.scheme);
    if (p.authority) {
      r.authority = make (*p.authority);
    }
    r.path = make (p.path);
    r.query = hold (p.query);
    r.fragment = hold (p.fragment);
    return r;
  }
  bool holds (std::string_view v) const {
    for (auto const& b : blocks_) {
      if (b.holds (v)) {
        return true;
      }
    }
    return false;
  }

private:
  std::deque<pbt::Exact> blocks_;
};

// Checks that components are the expected ones. With `loose_absolute` the absolute flag of the path is not compared.
inline void same (pbt::Case const& c, ref::Parts const& actual, ref::Parts const& expected, char const* what,
                  bool loose_absolute = false) {
  auto const both = [&] {
    return std::string{" (in "} + what + ": expected " + ref::show (expected) + ", got " + ref::show (actual) + ")";
  };
  c.check (actual.scheme == expected.scheme, [&] { return "scheme differs" + both (); });
  c.check (actual.authority.has_value () == expected.authority.has_value (),
           [&] { return "presence of authority differs" + both (); });
  if (actual.authority) {
    c.check (actual.authority->userinfo == expected.authority->userinfo,
             [&] { return "userinfo differs" + both (); });
    c.check (actual.authority->host == expected.authority->host, [&] { return "host differs" + both (); });
    c.check (actual.authority->port == expected.authority->port, [&] { return "port differs" + both (); });
  }
  c.check (loose_absolute || actual.path.absolute == expected.path.absolute,
           [&] { return "absolute flag of path differs" + both (); });
  c.check (actual.path.segments == expected.path.segments, [&] { return "path segments differ" + both (); });
  c.check (actual.query == expected.query, [&] { return "query differs" + both (); });
  c.check (actual.fragment == expected.fragment, [&] { return "fragment differs" + both (); });
}

}  // namespace conv
#endif
