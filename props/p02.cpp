// P02: components are those of RFC 3986, as views of the input.
#include "../gen/conv.hpp"
#include "../gen/uri_gen.hpp"
#include "../ref/abnf.hpp"

namespace {

void check (pbt::Case& c, pbt::Exact const& in, uri::parts const& actual, ref::Parts const& expected,
            ref::Offsets const& off, char const* what) {
  conv::same (c, conv::own (actual), expected, what);
  // The segment of the path "/" has no match of its own and is an empty view without a location. Every other view,
  // empty or not, has one.
  auto const at = [&] (std::string_view v, std::size_t offset, char const* component, bool const located = true) {
    if (v.empty () && (!located || v.data () == in.view ().data () + offset)) {
      return;
    }
    c.check (in.holds (v), [&] { return std::string{what} + ": " + component + " is not a view of the input"; });
    c.check (v.data () == in.view ().data () + offset, [&] {
      return std::string{what} + ": " + component + " is a view of a different part of the input: offset " +
             std::to_string (v.data () - in.view ().data ()) + " instead of " + std::to_string (offset);
    });
  };
  if (actual.scheme) {
    at (*actual.scheme, off.scheme, "scheme");
  }
  if (actual.authority) {
    if (actual.authority->userinfo) {
      at (*actual.authority->userinfo, off.userinfo, "userinfo");
    }
    at (actual.authority->host, off.host, "host");
    if (actual.authority->port) {
      at (*actual.authority->port, off.port, "port");
    }
  }
  for (std::size_t i = 0; i < actual.path.segments.size (); ++i) {
    at (actual.path.segments[i], off.segments[i], "path segment", actual.path.segments.size () > 1);
  }
  if (actual.query) {
    at (*actual.query, off.query, "query");
  }
  if (actual.fragment) {
    at (*actual.fragment, off.fragment, "fragment");
  }
}

void run (pbt::Case& c) {
  std::string text;
  std::optional<ref::Parts> intended;
  switch (c.src.weighted ({10, 5, 5})) {
  case 0:
    intended = gen::parts (c.src, c.src.flip ());
    text = ref::compose (*intended);
    c.label ("gen:composed");
    break;
  case 1: text = gen::uri (c.src, c.src.flip ()); break;
  default: {
    bool near = false;
    text = gen::uri_like (c.src, c, &near);
  }
  }
  c.note ("text", text);
  auto const& g = ref::rfc3986 ();
  bool const is_uri = g.matches ("URI", text);
  if (!g.matches ("URI-reference", text)) {
    c.label ("not derivable");
    c.discard ();
    return;
  }
  c.nontrivial ();
  ref::Offsets off;
  auto const expected = ref::decompose (text, &off);
  if (intended) {
    // The oracle has to agree with how the text was put together.
    conv::same (c, expected, *intended, "internal: oracle");
  }
  c.label_if (expected.authority.has_value (), "authority");
  c.label_if (expected.authority && expected.authority->userinfo, "userinfo");
  c.label_if (expected.authority && expected.authority->port, "port");
  c.label_if (expected.query.has_value (), "query");
  c.label_if (expected.fragment.has_value (), "fragment");
  c.label_if (!expected.path.absolute && !expected.path.segments.empty (), "rootless path");
  pbt::Exact const in{text};
  auto const r = uri::split_reference (in);
  c.check (r.has_value (), "split_reference() rejected a URI reference");
  check (c, in, *r, expected, off, "split_reference");
  auto const u = uri::split (in);
  c.check (u.has_value () == is_uri, "split() disagrees with the grammar");
  if (u) {
    check (c, in, *u, expected, off, "split");
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P02",
  "A case is a string in a heap block of exactly its size, composed from generated components, derived from the RFC 3986 "
  "grammar or an edit of one, parsed by split_reference() and (with a scheme) split() and compared with a decomposition by "
  "RFC 3986 Appendix B, including the address of every view. Non-trivial: derivable from URI-reference (others "
  "are discarded).",
  run};
