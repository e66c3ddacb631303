// P11: decoding of components.
#include "../gen/parts_gen.hpp"
#include "uri/parts.hpp"

namespace {

using Kind = ref::PunyDecoded::Kind;

template <typename Store>
void check (pbt::Case& c, ref::Parts const& m, ref::Parts const& expected, Kind host, char const* what) {
  gen::PartsHolder h{c.src};
  auto const p = h.make (m);
  Store store;
  gen::dirty (c.src, store);
  for (int round = 0; round < 2; ++round) {
    auto const r = uri::decode (store, p);
    if (auto const* const err = std::get_if<std::error_code> (&r)) {
      c.check (host != Kind::ok, [&] { return std::string{what} + " failed: " + err->message (); });
      bool const bad = *err == uri::punycode::make_error_code (uri::punycode::decode_error_code::bad_input);
      bool const over = *err == uri::punycode::make_error_code (uri::punycode::decode_error_code::overflow);
      c.check (host == Kind::unconstrained || (bad && host != Kind::overflow) || (over && host != Kind::bad_input),
               [&] { return std::string{what} + " gave the wrong error: " + err->message (); });
      continue;
    }
    c.check (host == Kind::ok || host == Kind::unconstrained,
             [&] { return std::string{what} + " succeeded although a host label is not decodable"; });
    auto const& parts = std::get<uri::parts> (r);
    auto const actual = conv::own (parts);
    conv::same (c, actual, expected, what);
    gen::check_views (c, parts, h, store, what);
    conv::same (c, conv::own (p), m, "the components given to decode");
  }
}

void run (pbt::Case& c) {
  auto const m = gen::codec_parts (c.src, gen::HostKind::encoded);
  c.note ("parts", ref::show (m));
  ref::Parts e = m;
  bool changed = false;
  auto const dec = [&] (std::string& s) {
    auto t = ref::pct_decode (s);
    changed = changed || t != s;
    s = std::move (t);
  };
  auto const odec = [&] (ref::ostring& s) {
    if (s) {
      dec (*s);
    }
  };
  odec (e.scheme);
  auto host = Kind::ok;
  if (e.authority) {
    odec (e.authority->userinfo);
    odec (e.authority->port);
    auto const d = ref::host_decode (e.authority->host);
    host = d.kind;
    if (host == Kind::ok || host == Kind::unconstrained) {
      changed = changed || d.text != e.authority->host;
      c.label_if (d.text != e.authority->host, "host changed");
      e.authority->host = d.text;
    }
    c.label_if (host == Kind::unconstrained, "host may be refused");
    c.label_if (host == Kind::bad_input || host == Kind::overflow || host == Kind::either_error, "host not decodable");
  }
  for (auto& seg : e.path.segments) {
    dec (seg);
  }
  odec (e.query);
  odec (e.fragment);
  if (changed || host != Kind::ok) {
    c.nontrivial ();
  }
  c.label_if (m.path.segments.size () > 26, "more than 26 segments");
  if (c.src.flip ()) {
    check<std::vector<char>> (c, m, e, host, "decode into vector");
  } else {
    check<std::string> (c, m, e, host, "decode into string");
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P11",
  "A case is a set of components with escapes (well formed or not) and hosts with correct, damaged and absent \"xn--\" labels, "
  "decoded twice into a vector or string store with earlier content, and compared field by field or error by error with the "
  "models. Non-trivial: at least one component changes or the host is not decodable.",
  run};
