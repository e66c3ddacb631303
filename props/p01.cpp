// P01: acceptance agrees with RFC 3986's grammar.
#include "../gen/uri_gen.hpp"
#include "../ref/abnf.hpp"
#include "uri/uri.hpp"

namespace {

void run (pbt::Case& c) {
  bool near = false;
  auto const text = gen::uri_like (c.src, c, &near);
  c.note ("text", text);
  pbt::Exact const in{text};
  auto const& g = ref::rfc3986 ();
  bool const is_uri = g.matches ("URI", text);
  bool const is_ref = g.matches ("URI-reference", text);
  c.label_if (is_uri, "URI");
  c.label_if (is_ref && !is_uri, "relative-ref");
  c.label_if (!is_ref, "rejected");
  c.label_if (text.find ('[') != std::string::npos && is_ref, "accepted IP literal");
  c.label_if (text.size () > 300, "long");
  if (near || is_ref) {
    c.nontrivial ();
  }
  c.check (uri::split (in).has_value () == is_uri, [&] {
    return std::string{"split() "} + (is_uri ? "rejected a string derivable from URI: " : "accepted a string not derivable from URI: ") + pbt::show (text);
  });
  c.check (uri::split_reference (in).has_value () == is_ref, [&] {
    return std::string{"split_reference() "} + (is_ref ? "rejected a string derivable from URI-reference: " : "accepted a string not derivable from URI-reference: ") + pbt::show (text);
  });
}

}  // namespace

pbt::Property const pbt::property{
  "P01",
  "A case is one byte string given to split() and split_reference(), and to an automaton built from the text of RFC 3986 "
  "Appendix A. Non-trivial: derivable from the grammar, made by one to three edits of a derivable string, or containing an "
  "IP-address-like host.",
  run};
