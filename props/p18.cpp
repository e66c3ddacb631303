// P18: no input crashes, corrupts memory, leaks exceptions or hangs.
#include <cstring>

#include "../gen/ops_gen.hpp"

namespace {

// Thousands of repetitions of something small.
std::string large (pbt::Source& s) {
  static constexpr std::string_view units[] = {
    "/a",   "/",   "a",    "a.",       ".",      "..",   "/..", "/.",     "%41",  "%",      "%4",  "%2F", "@",    ":", "1",
    "1.",   "a:",  "::",   "\xC3\xA9", "\xF0\x9F\x98\x80", "\x80", "-",   "xn--", "xn--a-", "9",   "?",   "#",    "[", "]",
    "//",   "a/",  "./",   "../",      "a@b",    "é.",   "é", "zz",     "f:",   "\xE1",   " ",   "é/", "%C3%A9", "&", "a1-",
    ".xn--bcher-kva", "/%41", "/é", "/ ", "=&"};
  std::string r{s.pick ({"", "http://", "s:", "s://a@b:1", "//", "s:/", "s://h/", "s:?", "s:#", "s://[", "s://[v1.", "/", "xn--",
                         "s://xn--", "\xFF\xFE", "\xFE\xFF", "s://1.2.3.4", "#", "?"})};
  auto const unit = s.pick (units);
  auto const other = s.pick (units);
  auto const n = 200U + s.below (s.chance (1, 6) ? 20000U : 2500U);
  auto const every = s.flip () ? 0U : 2U + s.below (400U);
  r.reserve (n * 8U);
  for (std::size_t i = 0; i < n; ++i) {
    r += every != 0 && i % every == 0 ? other : unit;
  }
  r += s.pick ({"", "/", "%", "@h", ":80", "]", "?q#f", "\\", " ", "\xC3", "z"});
  return r;
}

void run (pbt::Case& c) {
  auto& s = c.src;
  bool const big = s.chance (1, 150);
  std::string const big_text = big ? large (s) : std::string{};
  auto const a = big ? big_text : ops::text (s, c);
  auto const b = s.chance (1, 4) && big ? a : ops::text (s, c);
  auto cps = gen::utf32_like (s, 30);
  if (big) {
    // Punycode takes quadratic time by its nature.
    auto const n = 500U + s.below (1500U);
    auto const first = gen::scalar (s);
    auto const step = s.below (5);
    for (std::size_t i = 0; i < n; ++i) {
      cps += first + static_cast<char32_t> (i * step);
    }
  }
  auto const pm = ops::components (s, big && s.flip () ? big_text : std::string{});
  auto const qm = ops::components (s, {});
  if (big) {
    c.key (a);
    c.describe ("a", [&] { return pbt::show (a.substr (0, 60)) + "... (" + std::to_string (a.size ()) + " bytes)"; });
  } else {
    c.note ("a", a);
  }
  c.note ("b", b.substr (0, 200));
  c.key (ref::show (pm));
  c.key (ref::show (qm));
  c.label_if (big, "large");
  pbt::Exact const ea{a};
  pbt::Exact const eb{b};
  std::vector<char32_t> const ecps (cps.begin (), cps.end ());
  gen::PartsHolder h{s};
  gen::PartsHolder h2{s};
  auto const p = h.make (pm);
  auto const q = h2.make (qm);
  auto const only = s.flip () ? s.below (static_cast<std::uint64_t> (ops::Kind::last)) : ~std::uint64_t{0};
  bool accepted = false;
  for (std::uint64_t k = 0; k < static_cast<std::uint64_t> (ops::Kind::last); ++k) {
    if (only != ~std::uint64_t{0} && k != only) {
      continue;
    }
    ops::Op op{static_cast<ops::Kind> (k), ea.view (), eb.view (), {ecps.data (), ecps.size ()}, &p, &q,
               static_cast<unsigned> (s.below (24))};
    if (op.kind == ops::Kind::puny_decode && a.size () > 6000) {
      op.a = op.a.substr (0, 6000);
    }
    std::string result;
    try {
      result = ops::run (op) ();
    } catch (std::exception const& ex) {
      c.fail (std::string{"exception from "} + ops::names[k] + ": " + ex.what ());
    } catch (...) {
      c.fail (std::string{"exception from "} + ops::names[k]);
    }
    if (!result.empty () && result != "none") {
      accepted = true;
    }
    c.label (ops::names[k]);
  }
  // What the parser gives goes on into everything else.
  auto const r = uri::split_reference (ea.view ());
  if (r) {
    c.label ("accepted by the parser");
    for (auto const k : {ops::Kind::compose, ops::Kind::valid, ops::Kind::dots, ops::Kind::to_path, ops::Kind::encode_parts,
                         ops::Kind::decode_parts, ops::Kind::join_parts}) {
      ops::Op const op{k, ea.view (), eb.view (), {}, &*r, &*r, static_cast<unsigned> (s.below (2))};
      (void)ops::run (op) ();
    }
  }
  c.equal (ea.view (), a, "the input");
  c.equal (eb.view (), b, "the input");
  if (accepted) {
    c.nontrivial ();
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P18",
  "Every public operation on valid, damaged and arbitrary texts, code points and components in blocks of exactly their size, "
  "and on texts of up to a few hundred thousand bytes, under the sanitizers, with a limit on the CPU time of a case. "
  "Non-trivial: some operation gave a result other than a plain rejection.",
  run};
