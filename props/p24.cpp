// P24: the same results in every build configuration.
#include <dlfcn.h>

#include <algorithm>
#include <cstdlib>
#include <filesystem>

#include "../gen/ops_gen.hpp"
#include "../gen/text_gen.hpp"
#include "../ref/codec_ref.hpp"
#include "p24_side.hpp"
#define P24_ICUBABY icubaby
#include "p24_transcode.hpp"

namespace {

template <typename Run>
struct Config {
  std::string name;
  Run run;
};

template <typename Run>
std::vector<Config<Run>> const& configs (std::string_view prefix, char const* function) {
  static auto const all = [&] {
    std::vector<Config<Run>> v;
    auto const* const dir = std::getenv ("URI_SPLIT_DIR");
    for (auto const& e : std::filesystem::directory_iterator{dir != nullptr ? dir : "."}) {
      auto const file = e.path ().filename ().string ();
      if (!file.starts_with (prefix) || e.path ().extension () != ".so") {
        continue;
      }
      auto* const so = dlopen (e.path ().c_str (), RTLD_NOW | RTLD_LOCAL);
      auto* const f = so != nullptr ? dlsym (so, function) : nullptr;
      if (f == nullptr) {
        std::fprintf (stderr, "%s: %s\n", file.c_str (), dlerror ());
        std::_Exit (2);
      }
      v.push_back ({e.path ().stem ().string ().substr (prefix.size ()), reinterpret_cast<Run> (f)});
    }
    std::sort (v.begin (), v.end (), [] (auto const& a, auto const& b) { return a.name < b.name; });
    return v;
  }();
  return all;
}

template <typename Run, typename Request>
std::string call (Run run, Request const& r) {
  std::string out;
  run (&r, [] (void* context, char const* s, std::size_t n) { static_cast<std::string*> (context)->assign (s, n); }, &out);
  return out;
}

// Transcoders alone, also in versions of the language that the rest of the library does not support.
void transcoders (pbt::Case& c) {
  auto& s = c.src;
  p24::Transcode q{};
  q.from = static_cast<unsigned> (s.below (4));
  q.to = 1U + static_cast<unsigned> (s.below (3));
  std::u32string units;
  auto const append = [&] (auto const& text) {
    for (auto const u : text) {
      units += static_cast<char32_t> (static_cast<std::make_unsigned_t<std::remove_cvref_t<decltype (u)>>> (u));
    }
  };
  switch (q.from) {
  case 0:
    append (s.pick ({"", "", "\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", std::string_view{"\xFF\xFE\0\0", 4}, std::string_view{"\0\0\xFE\xFF", 4}, "\xEF\xBB"}));
    if (s.flip ()) {
      append (gen::utf8_like (s, 12));
    } else {
      append (gen::bytes (s, 24));
    }
    break;
  case 1: append (gen::utf8_like (s, 16)); break;
  case 2: append (gen::utf16_like (s, 16)); break;
  default: append (gen::utf32_like (s, 16));
  }
  q.units = units.data ();
  q.size = units.size ();
  c.note ("from (0: bytes, 1, 2, 3: UTF-8, -16, -32)", q.from);
  c.note ("to", q.to);
  c.note ("units", std::u32string_view{units});
  c.label ("transcoders alone");
  auto const expected = p24::transcode (q);
  for (auto const& other : configs<p24::RunTranscode> ("icubaby-", "p24_transcode")) {
    auto const actual = call (other.run, q);
    c.check (actual == expected, [&] {
      return "a transcoder gives " + pbt::show (actual) + " in the configuration " + other.name + ", but " + pbt::show (expected) + " here";
    });
  }
  if (units.size () > 1) {
    c.nontrivial ();
  }
}

void run (pbt::Case& c) {
  auto& s = c.src;
  if (s.chance (1, 5)) {
    transcoders (c);
    return;
  }
  auto const kind = static_cast<unsigned> (s.below (static_cast<std::uint64_t> (ops::Kind::last)));
  auto const a = ops::text (s, c);
  auto const b = s.chance (1, 4) ? a : ops::text (s, c);
  auto const cps = gen::utf32_like (s, 30);
  bool const parse = s.flip ();
  auto const p = ops::components (s, {});
  auto const q = s.chance (1, 3) ? p : ops::components (s, {});
  auto const n = static_cast<unsigned> (s.below (24));
  c.note ("operation", ops::names[kind]);
  c.note ("a", a);
  c.note ("b", b);
  c.note ("code points", cps);
  c.note ("p", ref::show (p));
  c.note ("q", ref::show (q));
  c.note ("option", n);
  c.label (ops::names[kind]);
  p24::Request const r{kind, a, b, cps, &p, &q, n, parse};
  auto const& all = configs<p24::Run> ("cfg-", "p24_run");
  c.check (all.size () > 1, "fewer than two configurations");
  auto const expected = call (all.front ().run, r);
  for (auto const& other : all) {
    auto const actual = call (other.run, r);
    c.check (actual == expected, [&] {
      return std::string{ops::names[kind]} + " gives " + pbt::show (actual) + " in the configuration " + other.name + ", but " +
             pbt::show (expected) + " in " + all.front ().name;
    });
  }
  if (!expected.empty () && expected != "none" && expected != "parsed none") {
    c.nontrivial ();
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P24",
  "Every operation on valid, damaged and arbitrary texts, code points and components in builds of the library by two compilers, "
  "with and without optimisation and assertions, for two versions of the language, and with signed and unsigned plain char; transcoders also in C++17. "
  "Non-trivial: the operation gave something other than a plain rejection; several units to transcode.",
  run};
