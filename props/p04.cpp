// P04: valid() agrees with the grammar and guarantees composability.
#include "../gen/conv.hpp"
#include "../gen/uri_gen.hpp"

namespace {

void run (pbt::Case& c) {
  auto const m = gen::any_parts (c.src, c.src.chance (2, 3));
  c.note ("parts", ref::show (m));
  conv::Holder h;
  auto const p = h.make (m);
  bool const expected = ref::valid (m);
  c.nontrivial ();
  c.label_if (expected, "valid");
  c.label_if (expected && m.authority, "valid with authority");
  c.label_if (!expected, "invalid");
  auto const answer = [] (bool b) { return std::string{b ? "true" : "false"}; };
  auto const same = [&] (bool actual, bool exp, char const* what) {
    c.check (actual == exp, [&] { return std::string{what} + " is " + answer (actual) + " for " + ref::show (m); });
  };
  same (p.path.valid (), ref::valid_path (m.path), "path.valid()");
  if (p.authority) {
    same (p.authority->valid (), ref::valid_authority (*m.authority), "authority.valid()");
  }
  bool const valid = p.valid ();
  same (valid, expected, "parts.valid()");
  if (!valid) {
    return;
  }
  auto const text = uri::compose (p);
  pbt::Exact const in{text};
  auto const back = uri::split (in);
  c.check (back.has_value (), [&] { return "valid components composed to text that does not parse: " + pbt::show (text); });
  auto e = m;
  if (!m.authority) {
    // The spelling of the path is what comes back.
    e.path = ref::path_from_string (ref::path_string (m.path));
  } else {
    e.path.absolute = !m.path.segments.empty ();
  }
  conv::same (c, conv::own (*back), e, "components parsed from the composition of valid components");
}

}  // namespace

pbt::Property const pbt::property{
  "P04",
  "A case is a set of components put together freely (each one valid, an edit of a valid one, or arbitrary bytes), on which "
  "the three valid() predicates are compared with the RFC 3986 rules; valid ones are composed, parsed and compared. "
  "Every case is non-trivial.",
  run};
