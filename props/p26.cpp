// P26: the locale of the program has no influence.
#include <clocale>
#include <cstdlib>
#include <iostream>
#include <locale>

#include "../gen/ops_gen.hpp"

namespace {

struct Grouping : std::numpunct<char> {
  char do_decimal_point () const override { return ','; }
  char do_thousands_sep () const override { return '.'; }
  std::string do_grouping () const override { return "\1"; }
  std::string do_truename () const override { return "wahr"; }
  std::string do_falsename () const override { return "falsch"; }
};

// Every character is everything.
struct Everything : std::ctype<char> {
  static mask const* table () {
    static auto const& t = *new std::vector<mask> const (table_size, static_cast<mask> (upper | lower | alpha | digit | xdigit | space | print | punct));
    return t.data ();
  }
  Everything () : std::ctype<char>{table ()} {}
  char do_tolower (char c) const override { return static_cast<char> (c ^ 1); }
  char do_toupper (char c) const override { return static_cast<char> (c ^ 1); }
};

struct Locale {
  std::string name;  // of a locale of the C library, or empty
  std::locale global;
};

std::vector<Locale> const& locales () {
  // Never destroyed: other static objects may outlive it.
  static auto const& all = *new std::vector<Locale> const{[] {
    std::vector<Locale> v;
    auto const* const names = std::getenv ("PBT_LOCALES");
    std::string_view rest = names != nullptr ? names : "";
    while (!rest.empty ()) {
      auto const comma = std::min (rest.find (','), rest.size ());
      std::string const name{rest.substr (0, comma)};
      rest.remove_prefix (std::min (comma + 1U, rest.size ()));
      if (std::setlocale (LC_ALL, name.c_str ()) == nullptr) {
        std::fprintf (stderr, "no locale %s\n", name.c_str ());
        std::_Exit (2);
      }
      v.push_back ({name, std::locale{name.c_str ()}});
    }
    (void)std::setlocale (LC_ALL, "C");
    v.push_back ({"", std::locale{std::locale::classic (), new Grouping}});
    v.push_back ({"", std::locale{std::locale{std::locale::classic (), new Everything}, new Grouping}});
    return v;
  }()};
  return all;
}

void run (pbt::Case& c) {
  auto& s = c.src;
  auto const& all = locales ();
  auto const kind = static_cast<ops::Kind> (s.below (static_cast<std::uint64_t> (ops::Kind::last)));
  auto a = ops::text (s, c);
  auto b = s.chance (1, 4) ? a : ops::text (s, c);
  // Letters outside of ASCII in the 8-bit encodings, and those with peculiar cases.
  for (auto* const t : {&a, &b}) {
    if (s.flip () && !t->empty ()) {
      for (auto n = 1U + s.below (3); n > 0; --n) {
        auto const at = s.below (t->size () + 1U);
        char const ch = s.flip () ? s.pick_char ("\xE9\xC9\xFD\xDD\xFF\xAA\xB5\xDF\xB2\xB9\xA0\x85") : s.pick_char ("iIkKsS019aAfF");
        if (s.flip () || at == t->size ()) {
          t->insert (at, 1, ch);
        } else {
          (*t)[at] = ch;
        }
      }
    }
  }
  auto const cps = gen::utf32_like (s, 30);
  bool const parse = s.flip ();
  auto const pm = ops::components (s, {});
  auto const qm = s.chance (1, 3) ? pm : ops::components (s, {});
  auto const n = static_cast<unsigned> (s.below (24));
  auto const& locale = s.pick (all);
  auto const* const name = ops::names[static_cast<std::size_t> (kind)];
  c.note ("operation", name);
  c.note ("locale", locale.name);
  c.note ("a", a);
  c.note ("b", b);
  c.note ("code points", cps);
  c.note ("p", ref::show (pm));
  c.note ("q", ref::show (qm));
  c.note ("option", n);
  c.label (locale.name.empty () ? "C++ facets" : locale.name.c_str ());

  conv::Holder h;
  conv::Holder h2;
  auto p = h.make (pm);
  auto q = h2.make (qm);
  auto const perform = [&] {
    std::string out;
    auto p1 = p;
    auto q1 = q;
    if (parse) {
      if (auto x = uri::split_reference (a)) {
        p1 = *x;
        out += "parsed ";
      }
      if (auto x = uri::split_reference (b)) {
        q1 = *x;
      }
    }
    return out + ops::run (ops::Op{kind, a, b, cps, &p1, &q1, n}) ();
  };
  auto const expected = perform ();
  std::string actual;
  auto const restore = [] {
    (void)std::locale::global (std::locale::classic ());
    (void)std::setlocale (LC_ALL, "C");
  };
  try {
    (void)std::locale::global (locale.global);
    if (!locale.name.empty ()) {
      (void)std::setlocale (LC_ALL, locale.name.c_str ());
    }
    actual = perform ();
  } catch (...) {
    restore ();
    throw;
  }
  restore ();
  c.check (actual == expected, [&] {
    return std::string{name} + " gives " + pbt::show (actual) + " in the locale " + (locale.name.empty () ? "of C++ facets" : locale.name) + ", but " +
           pbt::show (expected) + " in C";
  });
  if (!expected.empty () && expected != "none" && expected != "parsed none") {
    c.nontrivial ();
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P26",
  "Every operation on valid, damaged and arbitrary texts, with letters of 8-bit encodings and letters of peculiar case thrown in, "
  "under locales of the C library (Latin-1, Turkish, Greek and Japanese encodings) and under a global C++ locale with hostile facets, against the "
  "result in the C locale. Non-trivial: the operation gave something other than a plain rejection.",
  run};
