// P15: ill-formed text.
#include <algorithm>
#include <string>

#include "../gen/text_gen.hpp"
#include "../gen/transcode.hpp"

namespace {

// Runs one pair and returns the code points of its output.
template <typename From, typename To>
std::u32string pair (pbt::Case& c, tc::units<From> const& in, std::size_t kind, bool well_formed) {
  bool seen_error = false;
  auto const after = [&] (std::size_t, auto const& transcoder, auto const&) {
    c.check (!(seen_error && transcoder.well_formed ()), "well_formed() became true again");
    seen_error = !transcoder.well_formed ();
  };
  auto const r = tc::run_all<From, To> (c, in, kind, after);
  c.check (r.well_formed == well_formed, well_formed ? "well-formed input is reported as ill-formed"
                                                     : "ill-formed input is reported as well-formed");
  auto const cps = tc::strict (r.out);
  c.check (cps.has_value (), [&] { return "the output is ill-formed: " + tc::show (r.out); });
  return *cps;
}

template <typename From, typename Check>
void all (pbt::Case& c, tc::units<From> const& in, std::size_t kind, bool well_formed, Check check) {
  check (pair<From, icubaby::char8> (c, in, kind, well_formed));
  check (pair<From, char16_t> (c, in, kind, well_formed));
  check (pair<From, char32_t> (c, in, kind, well_formed));
}

void run (pbt::Case& c) {
  auto& s = c.src;
  auto const kind = static_cast<std::size_t> (s.below (5));
  std::size_t const max = s.chance (1, 30) ? 300 : 12;
  switch (s.weighted ({3, 2, 1})) {
  case 0: {
    c.label ("from UTF-8");
    auto const text = gen::utf8_like (s, max);
    c.note ("utf8", text);
    bool const good = ref::from_utf8 (text).has_value ();
    auto const tokens = tc::tokens (text);
    c.check (good == std::none_of (tokens.begin (), tokens.end (), [] (tc::Token const& t) { return t.error; }),
             "(model) strict decoder and tokens disagree");
    if (!good) {
      c.nontrivial ();
      c.label_if (tokens.back ().error, "ends with an error");
    }
    std::optional<std::u32string> first;
    all (c, tc::to_units (text), kind, good, [&] (std::u32string const& cps) {
      c.check (tc::follows (tokens, cps), [&] { return "the output does not follow from the input: " + pbt::show_units (cps); });
      c.check (!first || *first == cps, "destination encodings disagree");
      first = cps;
    });
    break;
  }
  case 1: {
    c.label ("from UTF-16");
    auto const text = gen::utf16_like (s, max);
    c.note ("utf16", std::u32string (text.begin (), text.end ()));
    bool const good = ref::from_utf16 (text).has_value ();
    if (!good) {
      c.nontrivial ();
    }
    auto const expected = ref::from_utf16_lossy (text);
    all (c, tc::to_units (text), kind, good, [&] (std::u32string const& cps) {
      c.check (cps == expected,
               [&] { return "expected " + pbt::show_units (expected) + ", got " + pbt::show_units (cps); });
    });
    break;
  }
  default: {
    c.label ("from UTF-32");
    auto const text = gen::utf32_like (s, max);
    c.note ("utf32", std::u32string_view{text});
    bool const good = ref::from_utf32 (text).has_value ();
    if (!good) {
      c.nontrivial ();
    }
    auto const expected = ref::from_utf32_lossy (text);
    all (c, tc::to_units (text), kind, good, [&] (std::u32string const& cps) {
      c.check (cps == expected,
               [&] { return "expected " + pbt::show_units (expected) + ", got " + pbt::show_units (cps); });
    });
  }
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P15",
  "Code units mixing well-formed text with stray, truncated, overlong, surrogate and out-of-range ones, through all three "
  "destination encodings and all interfaces. Non-trivial: the input is ill-formed.",
  run};
