// P05: reference resolution.
#include <cctype>

#include "../gen/conv.hpp"
#include "../gen/uri_gen.hpp"
#include "../ref/abnf.hpp"

namespace {

std::string swap_case (std::string s) {
  for (char& c : s) {
    auto const u = static_cast<unsigned char> (c);
    c = static_cast<char> (std::isupper (u) ? std::tolower (u) : std::toupper (u));
  }
  return s;
}

void label (pbt::Case& c, ref::Parts const& b, ref::Parts const& r, bool strict) {
  c.label (strict ? "strict" : "non-strict");
  c.label_if (!strict && r.scheme && r.scheme == b.scheme, "same scheme, non-strict");
  if (r.scheme) {
    c.label ("ref:scheme");
  } else if (r.authority) {
    c.label ("ref:authority");
  } else if (r.path.segments.empty ()) {
    c.label ("ref:empty path");
  } else if (r.path.absolute) {
    c.label ("ref:absolute path");
  } else {
    c.label ("ref:relative path");
    c.label_if (b.authority && b.path.segments.empty (), "merge: base authority with empty path");
    c.label_if (!b.path.absolute && !b.path.segments.empty (), "merge: rootless base");
    c.label_if (b.path.absolute, "merge: rooted base");
  }
}

ref::Parts any_canonical (pbt::Source& s) {
  auto p = gen::any_parts (s, s.flip ());
  if (s.chance (1, 2)) {
    p.scheme.reset ();
  }
  if (s.chance (1, 2)) {
    p.path.segments = gen::segments (s, {true, 40});
  }
  for (auto& seg : p.path.segments) {
    for (char& ch : seg) {
      if (ch == '/') {
        ch = '_';
      }
    }
  }
  if (p.path.segments.empty ()) {
    p.path.absolute = false;
  } else if (p.authority || p.path.segments.front ().empty ()) {
    p.path.absolute = true;
  }
  return p;
}

void run (pbt::Case& c) {
  auto& s = c.src;
  bool const strict = s.chance (1, 2);
  auto const kind = s.weighted ({12, 3, 4});
  if (kind == 2) {
    // Components which did not come from parsing.
    auto b = any_canonical (s);
    if (!b.scheme) {
      b.scheme = gen::scheme (s);
    }
    auto r = any_canonical (s);
    if (s.chance (1, 3)) {
      r.scheme = s.chance (1, 4) ? swap_case (*b.scheme) : *b.scheme;
    }
    c.note ("base parts", ref::show (b));
    c.note ("reference parts", ref::show (r));
    c.note ("strict", std::uint64_t{strict});
    c.label ("hand-made components");
    label (c, b, r, strict);
    c.nontrivial ();
    conv::Holder h;
    auto const bp = h.make (b);
    auto const rp = h.make (r);
    auto const t = uri::join (bp, rp, strict);
    conv::same (c, conv::own (t), ref::resolve (b, r, strict), "join(parts, parts)");
    conv::same (c, conv::own (bp), b, "base after join");
    conv::same (c, conv::own (rp), r, "reference after join");
    if (strict) {
      conv::same (c, conv::own (uri::join (bp, rp)), ref::resolve (b, r, true), "join(parts, parts), default mode");
    }
    return;
  }
  std::string base_text;
  std::string ref_text;
  if (kind == 0) {
    auto b = gen::parts (s, false, {s.flip (), 12});
    auto r = gen::parts (s, true, {s.chance (3, 4), 12});
    if (r.scheme && s.flip ()) {
      r.scheme = b.scheme;
    } else if (r.scheme && s.chance (1, 3)) {
      // One scheme a prefix of the other.
      r.scheme = *b.scheme + "x";
    } else if (r.scheme && s.chance (1, 3)) {
      r.scheme = swap_case (*b.scheme);
    }
    base_text = ref::compose (b);
    ref_text = ref::compose (r);
  } else {
    bool near = false;
    base_text = gen::uri_like (s, c, &near);
    ref_text = gen::uri_like (s, c, &near);
  }
  c.note ("base", base_text);
  c.note ("reference", ref_text);
  c.note ("strict", std::uint64_t{strict});
  pbt::Exact const bx{base_text};
  pbt::Exact const rx{ref_text};
  auto const& g = ref::rfc3986 ();
  bool const expect = g.matches ("URI", base_text) && g.matches ("URI-reference", ref_text);
  auto const t = uri::join (bx.view (), rx.view (), strict);
  c.check (t.has_value () == expect,
           expect ? "join(string, string) failed for a URI and a reference"
                  : "join(string, string) succeeded although the base is not a URI or the reference not a reference");
  if (!expect) {
    c.label ("not resolvable");
    return;
  }
  auto const b = ref::decompose (base_text);
  auto const r = ref::decompose (ref_text);
  label (c, b, r, strict);
  c.nontrivial ();
  auto const expected = ref::resolve (b, r, strict);
  conv::same (c, conv::own (*t), expected, "join(string, string)");
  auto const t2 = uri::join (*uri::split (bx), *uri::split_reference (rx), strict);
  conv::same (c, conv::own (t2), expected, "join(parts, parts)");
  if (strict) {
    auto const t3 = uri::join (bx.view (), rx.view ());
    c.check (t3.has_value (), "join(string, string) in the default mode failed");
    conv::same (c, conv::own (*t3), expected, "join(string, string), default mode");
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P05",
  "A case is a base and a reference, as strings (valid, or near misses) or as hand-made components, resolved in strict or "
  "non-strict mode and compared with RFC 3986 section 5.2.2 to 5.2.4 executed literally on strings (segment by segment for a "
  "rootless base without authority). Non-trivial: base and reference both valid.",
  run};
