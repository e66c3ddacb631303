// P06: remove_dot_segments.
#include "../gen/conv.hpp"
#include "../gen/uri_gen.hpp"

namespace {

void run (pbt::Case& c) {
  ref::Path m;
  m.absolute = c.src.flip ();
  m.segments = gen::segments (c.src, {c.src.chance (5, 6), 60});
  if (c.src.chance (1, 30)) {
    for (auto n = c.src.below (600); n > 0; --n) {
      m.segments.emplace_back (c.src.pick ({"a", "..", ".", "", "b", "..."}));
    }
  }
  c.note ("path", ref::show (m));
  conv::Holder h;
  auto p = h.make (m);
  p.remove_dot_segments ();
  auto const actual = conv::own (p);
  auto const expected = ref::remove_dot_segments (m);
  bool dots = false;
  for (auto const& s : m.segments) {
    dots = dots || s == "." || s == "..";
  }
  if (dots && m.segments.size () > 1) {
    c.nontrivial ();
  }
  c.label_if (m.absolute, "rooted");
  c.label_if (!m.absolute, "rootless");
  c.label_if (dots, "dot segments");
  c.label_if (m.segments.size () > 40, "many segments");
  c.check (actual.absolute == m.absolute, "the absolute flag changed");
  if (m.absolute && !m.segments.empty ()) {
    c.equal (static_cast<std::string> (p), ref::remove_dot_segments (ref::path_string (m)), "RFC 3986 5.2.4");
  }
  c.check (actual == expected,
           [&] { return "expected " + ref::show (expected) + ", got " + ref::show (actual); });
  for (auto const& s : actual.segments) {
    c.check (s != "." && s != "..", "a dot segment is left");
  }
  for (auto const& s : p.segments) {
    c.check (s.empty () || h.holds (s), "a segment is not one of the original texts");
  }
  p.remove_dot_segments ();
  c.check (conv::own (p) == actual, [&] {
    return "not idempotent: " + ref::show (actual) + " then " + ref::show (conv::own (p));
  });
}

}  // namespace

pbt::Property const pbt::property{
  "P06",
  "A case is a list of path segments rich in \".\", \"..\" and empty ones, rooted or not, compared with the literal string "
  "algorithm of RFC 3986 section 5.2.4 and with a segment-wise model. Non-trivial: at least two segments, one of them a dot "
  "segment.",
  run};
