// P03: composing parsed components reproduces the text.
#include <sstream>

#include "../gen/conv.hpp"
#include "../gen/uri_gen.hpp"
#include "../ref/abnf.hpp"

namespace {

// Writing to a stream leaves everything else about it as it was.
void unchanged (pbt::Case& c, std::ostringstream const& os) {
  std::ostringstream const fresh;
  c.check (os.flags () == fresh.flags () && os.precision () == fresh.precision () && os.fill () == fresh.fill () &&
             os.width () == fresh.width () && os.exceptions () == fresh.exceptions () && os.getloc () == fresh.getloc () && os.good (),
           "the formatting or error state of the stream has changed");
}

void check (pbt::Case& c, uri::parts const& p, std::string const& text) {
  c.equal (uri::compose (p), text, "compose(parts)");
  {
    std::ostringstream os;
    os << "before ";
    auto& r = uri::compose (os, p);
    c.check (&r == &os, "compose(ostream, parts) returned another stream");
    os << " after";
    unchanged (c, os);
    c.equal (os.str (), "before " + text + " after", "compose(ostream, parts)");
  }
  {
    std::ostringstream os;
    os << "<" << p << ">" << 1;
    unchanged (c, os);
    c.equal (os.str (), "<" + text + ">1", "ostream << parts");
  }
  auto const expected = ref::decompose (text);
  if (p.authority) {
    std::ostringstream os;
    os << "<" << *p.authority << ">";
    unchanged (c, os);
    c.equal (os.str (), "<" + ref::authority_string (*expected.authority) + ">", "ostream << authority");
  }
  auto const path = ref::path_string (expected.path);
  {
    std::ostringstream os;
    os << "<" << p.path << ">";
    unchanged (c, os);
    c.equal (os.str (), "<" + path + ">", "ostream << path");
  }
  c.equal (static_cast<std::string> (p.path), path, "string (path)");
}

void run (pbt::Case& c) {
  bool near = false;
  auto const text =
    c.src.chance (3, 4) ? gen::uri (c.src, c.src.flip ()) : gen::uri_like (c.src, c, &near);
  c.note ("text", text);
  pbt::Exact const in{text};
  auto const r = uri::split_reference (in);
  auto const u = uri::split (in);
  if (!r && !u) {
    c.label ("not accepted");
    c.discard ();
    return;
  }
  c.nontrivial ();
  c.label_if (u.has_value (), "URI");
  c.label_if (!u, "relative-ref");
  if (r) {
    check (c, *r, text);
  }
  if (u) {
    check (c, *u, text);
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P03",
  "A case is a string derived from the grammar, composed from components or an edit of one; if a parser accepts it, the "
  "components are composed by every output route and compared with the original text. Non-trivial: accepted by a parser "
  "(others are discarded).",
  run};
