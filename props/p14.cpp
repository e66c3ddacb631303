// P14: lossless transcoding of well-formed text.
#include <algorithm>
#include <string>
#include <vector>

#include "../gen/text_gen.hpp"
#include "../gen/transcode.hpp"

namespace {

struct Text {
  std::u32string const& cps;
  std::size_t kind;
};

template <typename From, typename To>
void pair (pbt::Case& c, Text const& t) {
  auto const in = tc::encode<From> (t.cps);
  auto const out = tc::encode<To> (t.cps);
  // Where code points end in the input and the output.
  std::vector<std::pair<std::size_t, std::size_t>> ends{{0, 0}};
  for (char32_t const cp : t.cps) {
    std::u32string_view const one{&cp, 1};
    ends.emplace_back (ends.back ().first + tc::encode<From> (one).size (), ends.back ().second + tc::encode<To> (one).size ());
  }
  std::size_t next = 1;
  auto const after = [&] (std::size_t n, auto const& transcoder, tc::units<To> const& so_far) {
    bool const complete = ends[next].first == n;
    c.check (transcoder.well_formed (), "well-formed input is reported as ill-formed");
    c.check (transcoder.partial () == !complete, complete ? "partial() is true after a complete code point"
                                                         : "partial() is false in the middle of a code point");
    if (complete) {
      c.equal (so_far.size (), ends[next].second, "number of units written after a complete code point");
      ++next;
    }
  };
  auto const r = tc::run_all<From, To> (c, in, t.kind, after);
  c.check (r.out == out, [&] { return "expected " + tc::show (out) + ", got " + tc::show (r.out); });
  c.check (r.well_formed, "well-formed input is reported as ill-formed");
}

// Something with a code unit in it, for projections.
template <typename Unit>
struct Boxed {
  int before = 0;
  Unit unit{};
};

template <typename Unit>
void counting (pbt::Case& c, std::u32string const& cps) {
  auto const u = tc::encode<Unit> (cps);
  tc::Block<Unit> const block{u};
  auto const in = block.span ();
  using diff = std::ptrdiff_t;
  auto const count = static_cast<diff> (cps.size ());
  c.equal (static_cast<diff> (icubaby::length (in)), count, "length(range)");
  c.equal (static_cast<diff> (icubaby::length (in.begin (), in.end ())), count, "length(first, last)");
  std::vector<Boxed<Unit>> boxed;
  for (auto const x : u) {
    boxed.push_back ({1, x});
  }
  std::list<Unit> const listed (u.begin (), u.end ());
  c.equal (static_cast<diff> (icubaby::length (listed)), count, "length(list)");
  auto check_index = [&] (std::size_t pos, std::size_t offset) {
    auto const expected = static_cast<diff> (offset);
    c.equal (static_cast<diff> (icubaby::index (in, pos) - in.begin ()), expected, "index(range)");
    c.equal (static_cast<diff> (icubaby::index (in.begin (), in.end (), pos) - in.begin ()), expected, "index(first, last)");
    c.equal (static_cast<diff> (icubaby::index (boxed, pos, &Boxed<Unit>::unit) - boxed.begin ()), expected,
             "index with a projection");
    c.equal (static_cast<diff> (std::distance (listed.begin (), icubaby::index (listed, pos))), expected, "index(list)");
  };
  std::size_t offset = 0;
  for (std::size_t i = 0; i < cps.size (); ++i) {
    if (i < 8 || i + 8 >= cps.size ()) {
      check_index (i, offset);
    }
    auto const n = tc::encode<Unit> (std::u32string_view{cps}.substr (i, 1)).size ();
    for (std::size_t k = 0; k < n; ++k) {
      c.equal (icubaby::is_code_point_start (u[offset + k]), k == 0, "is_code_point_start()");
    }
    offset += n;
  }
  check_index (cps.size (), u.size ());
  check_index (cps.size () + 1U + c.src.below (9), u.size ());
}

void run (pbt::Case& c) {
  auto& s = c.src;
  auto const cps = s.chance (1, 40) ? gen::text (s, 600) : gen::text (s, 24);
  c.note ("text", std::u32string_view{cps});
  Text const t{cps, static_cast<std::size_t> (s.below (5))};
  bool lengths[5] = {};
  for (char32_t const cp : cps) {
    lengths[ref::utf8 (std::u32string_view{&cp, 1}).size ()] = true;
  }
  if (lengths[2] || lengths[3] || lengths[4]) {
    c.nontrivial ();
  }
  c.label_if (lengths[1] && lengths[2] && lengths[3] && lengths[4], "UTF-8 sequences of all lengths");
  c.label_if (cps.size () > 100, "more than 100 code points");
  switch (s.below (3)) {
  case 0:
    c.label ("from UTF-8");
    pair<icubaby::char8, icubaby::char8> (c, t);
    pair<icubaby::char8, char16_t> (c, t);
    pair<icubaby::char8, char32_t> (c, t);
    counting<icubaby::char8> (c, cps);
    break;
  case 1:
    c.label ("from UTF-16");
    pair<char16_t, icubaby::char8> (c, t);
    pair<char16_t, char16_t> (c, t);
    pair<char16_t, char32_t> (c, t);
    counting<char16_t> (c, cps);
    break;
  default:
    c.label ("from UTF-32");
    pair<char32_t, icubaby::char8> (c, t);
    pair<char32_t, char16_t> (c, t);
    pair<char32_t, char32_t> (c, t);
    counting<char32_t> (c, cps);
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P14",
  "Sequences of scalar values (encoding boundaries, scripts, mixtures of sequence lengths; up to 600) through all three "
  "destination encodings of one source encoding and all interfaces. Non-trivial: a code point above U+007F.",
  run};
