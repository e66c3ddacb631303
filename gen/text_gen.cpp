#include "text_gen.hpp"

#include "../ref/codec_ref.hpp"
#include "stretch.hpp"
#include "uri_gen.hpp"

namespace gen {

using pbt::Source;

namespace {
constexpr char32_t boundaries[] = {0x00,   0x01,   0x2D,   0x2E,   0x7E,   0x7F,   0x80,   0x81,    0xFF,    0x100,
                                   0x3FF,  0x400,  0x7FF,  0x800,  0x801,  0xFFF,  0x1000, 0x7FFF,  0x8000,  0xCFFF,
                                   0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFEFE, 0xFEFF, 0xFFFD, 0xFFFE,  0xFFFF,  0x10000,
                                   0x10001, 0x103FF, 0x10400, 0x1FFFF, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF,
                                   0xFFFC, 0xFFE0, 0xBF, 0xC0, 0x3F, 0x40, 0xFBFF, 0xFC00};
}  // namespace

char32_t scalar (Source& s) {
  switch (s.weighted ({5, 4, 4, 3, 3})) {
  case 0: return static_cast<char32_t> (s.range (0x20, 0x7E));
  case 1: return s.pick (boundaries);
  case 2: return static_cast<char32_t> (s.range (0x80, 0x7FF));
  case 3: {
    auto const c = static_cast<char32_t> (s.range (0x800, 0xFFFF));
    return ref::is_scalar (c) ? c : c - 0x1000;
  }
  default: return static_cast<char32_t> (s.range (0x10000, 0x10FFFF));
  }
}

std::u32string text (Source& s, std::size_t max) {
  std::u32string r;
  auto const n = s.length (max);
  if (s.chance (1, 3)) {
    // Few distinct code points near each other, as in one script.
    auto const first = scalar (s);
    for (std::size_t i = 0; i < n; ++i) {
      auto const c = first + static_cast<char32_t> (s.below (24));
      r += s.chance (1, 4) ? static_cast<char32_t> (s.pick_char ("abc019-x")) : ref::is_scalar (c) ? c : first;
    }
    stretch (s, r, U'a', 1000, 600);
    return r;
  }
  for (std::size_t i = 0; i < n; ++i) {
    if (!r.empty () && s.chance (1, 10)) {
      r += r[s.below (r.size ())];
    } else {
      r += scalar (s);
    }
  }
  stretch (s, r, U'a', 1000, 600);
  return r;
}

std::u32string idn_host (Source& s) {
  std::u32string r;
  for (auto n = s.weighted ({1, 3, 5, 4, 2, 1}); n > 0; --n) {
    switch (s.weighted ({4, 4, 1, 1, 1})) {
    case 0: {
      auto const t = s.pick ({"a", "example", "com", "www", "de", "x", "xn", "xn-", "1", "a-b", "", "-", "x--n", "A-"});
      r.append (t.begin (), t.end ());
      break;
    }
    case 1: r += text (s, 12); break;
    case 2: break;
    case 3:
      for (auto k = s.below (30); k > 0; --k) {
        r += scalar (s);
      }
      break;
    default: {
      auto const t = reg_name (s);
      r.append (t.begin (), t.end ());
    }
    }
    if (n > 1) {
      r += U'.';
    }
  }
  stretch (s, r, U'a', 700, 2'000);
  return r;
}

// Insertions whose distances are at, or just beyond, the limits of code points, of 32 or of 64 bits.
std::string puny_edge (Source& s) {
  std::string const literals (s.below (4), 'a');
  std::vector<std::array<std::uint64_t, 2>> deltas;
  auto len = literals.size ();
  std::uint64_t n = 128;
  for (auto k = s.below (3); k > 0; --k) {
    auto const d = s.below (s.flip () ? 400 : 200'000);
    n += d / (len + 1);
    deltas.push_back ({0, d});
    ++len;
  }
  ++len;
  auto const small = s.below (s.flip () ? 400 : 200'000);
  auto const m = s.flip () ? 1U : 1U + s.below (1000);
  switch (s.below (6)) {
  case 0: deltas.push_back ({0, m * (std::uint64_t{1} << 32U) + small}); break;
  case 1: deltas.push_back ({0, m * (std::uint64_t{1} << 32U) * len + small}); break;
  case 2: deltas.push_back ({m, small}); break;
  case 3: deltas.push_back ({0, ((std::uint64_t{1} << 32U) - n) * len - 3U * len + s.below (6U * len)}); break;
  case 4: deltas.push_back ({0, (0x110000U - std::min<std::uint64_t> (n, 0x10FFF0U)) * len - 2U * len + s.below (4U * len)}); break;
  default: {
    auto const low = 0U - std::uint64_t{1} - s.below (100);
    deltas.push_back ({s.below (2) * m, low});
  }
  }
  for (auto k = s.weighted ({4, 1, 1}); k > 0; --k) {
    deltas.push_back ({0, s.below (400)});
  }
  return ref::puny_write (literals, deltas);
}

std::string puny_like (Source& s) {
  constexpr std::string_view alphabet = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
  std::string r;
  switch (s.weighted ({6, 5, 3, 2, 1, 2})) {
  case 0: {
    r = ref::puny_encode (text (s, 20));
    break;
  }
  case 1: {
    r = ref::puny_encode (text (s, 20));
    for (auto n = 1 + s.weighted ({4, 2, 1}); n > 0; --n) {
      switch (s.below (5)) {
      case 0: r.insert (s.below (r.size () + 1), 1, s.pick_char (alphabet)); break;
      case 1:
        if (!r.empty ()) {
          r.erase (s.below (r.size ()), 1);
        }
        break;
      case 2:
        if (!r.empty ()) {
          r[s.below (r.size ())] = s.chance (1, 3) ? static_cast<char> (s.byte ()) : s.pick_char (alphabet);
        }
        break;
      case 3:
        r.insert (s.below (r.size () + 1), 1, s.pick_char ("-_@[`{/:. \x7F%"));
        break;
      default:
        if (!r.empty ()) {
          char& c = r[s.below (r.size ())];
          if (c >= 'a' && c <= 'z') {
            c = static_cast<char> (c - 'a' + 'A');
          }
        }
      }
    }
    break;
  }
  case 2:
    if (s.flip ()) {
      r = std::string{s.pick ({"a-", "abc-", "b", "A-B-", "--", "a--"})};
    }
    for (auto n = s.length (24); n > 0; --n) {
      r += s.pick_char (alphabet);
    }
    break;
  case 3:
    // Large values
    if (s.flip ()) {
      r = "a-";
    }
    for (auto n = s.below (6); n > 0; --n) {
      r += s.pick_char (alphabet);
    }
    for (auto n = s.below (24); n > 0; --n) {
      r += s.pick_char ("99zZ8ab");
    }
    for (auto n = s.below (4); n > 0; --n) {
      r += s.pick_char (alphabet);
    }
    break;
  case 4: r = bytes (s, 16); break;
  default: r = puny_edge (s);
  }
  return r;
}

std::string encoded_host (Source& s) {
  std::string r;
  for (auto n = 1 + s.weighted ({3, 5, 4, 2, 1}); n > 0; --n) {
    switch (s.weighted ({3, 6, 4, 1, 1})) {
    case 0: r += s.pick ({"a", "example", "com", "www", "xn-", "xn", "", "x", "n", "n--", "1", "a-b", "xnn--a", "xn--", "xn---", "XN--tda", "xN--tda",
                          "Xn--tda", "-xn--tda", "xn--a-"}); break;
    case 1: {
      auto t = text (s, 12);
      for (auto& c : t) {
        if (c == U'.') {
          c = U'-';
        }
      }
      r += "xn--" + ref::puny_encode (t);
      break;
    }
    case 2: {
      auto t = puny_like (s);
      for (auto& c : t) {
        if (c == '.') {
          c = '-';
        }
      }
      r += "xn--" + t;
      break;
    }
    case 3: r += ref::utf8 (text (s, 8)); break;
    default: r += bytes (s, 8);
    }
    if (n > 1) {
      r += '.';
    }
  }
  if (s.flip ()) {
    stretch (s, r, 'a', 700, 2'000);
  } else {
    auto labels = r + '.';
    stretch (s, labels, 'a', 700, 2'000);
    if (labels.size () > r.size () + 1U) {
      r = labels;
    }
  }
  return r;
}

std::string utf8_like (Source& s, std::size_t max) {
  std::string r;
  for (auto n = s.length (max); n > 0; --n) {
    switch (s.weighted ({8, 3, 3, 3, 3, 1})) {
    case 0: r += ref::utf8 (std::u32string (1, scalar (s))); break;
    case 1: r += static_cast<char> (s.range (0x80, 0xBF)); break;
    case 2: r += static_cast<char> (s.range (0xC0, 0xFF)); break;
    case 3: {
      auto t = ref::utf8 (std::u32string (1, scalar (s)));
      t.resize (s.below (t.size () + 1));
      r += t;
      break;
    }
    case 4:
      r += s.pick ({"\xC0\x80", "\xC1\xBF", "\xE0\x80\x80", "\xE0\x9F\xBF", "\xF0\x80\x80\x80", "\xF0\x8F\xBF\xBF",
                    "\xED\xA0\x80", "\xED\xBF\xBF", "\xED\x9F\xBF", "\xF4\x90\x80\x80", "\xF4\x8F\xBF\xBF", "\xF5\x80\x80\x80",
                    "\xF8\x88\x80\x80\x80", "\xFC\x84\x80\x80\x80\x80", "\xFE", "\xFF", "\xE1\x80", "\xF1\x80\x80", "\xC2",
                    "\xEF\xBB\xBF", "\xEF\xBB", "\xE1\x80\xE1\x80\x80", "\xF1\x80\x80\xF1\x80\x80\x80", "\xC2\xC2\x80"});
      break;
    default: r += static_cast<char> (s.byte ()); break;
    }
  }
  stretch (s, r, 'a', 2000, 5'000);
  return r;
}

std::u16string utf16_like (Source& s, std::size_t max) {
  std::u16string r;
  for (auto n = s.length (max); n > 0; --n) {
    switch (s.weighted ({6, 3, 3, 1})) {
    case 0: r += ref::utf16 (std::u32string (1, scalar (s))); break;
    case 1: r += s.chance (1, 3) ? u'\xD800' : static_cast<char16_t> (s.range (0xD800, 0xDBFF)); break;
    case 2: r += s.chance (1, 3) ? u'\xDFFF' : static_cast<char16_t> (s.range (0xDC00, 0xDFFF)); break;
    default: r += static_cast<char16_t> (s.below (0x10000)); break;
    }
  }
  stretch (s, r, u'a', 2000, 5'000);
  return r;
}

std::u32string utf32_like (Source& s, std::size_t max) {
  constexpr char32_t bad[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x110000, 0x110001, 0x1FFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF};
  std::u32string r;
  for (auto n = s.length (max); n > 0; --n) {
    switch (s.weighted ({6, 2, 1, 1})) {
    case 0: r += scalar (s); break;
    case 1: r += s.pick (bad); break;
    case 2: r += static_cast<char32_t> (s.range (0xD800, 0xDFFF)); break;
    default: r += static_cast<char32_t> (s.below (0x100000000ULL)); break;
    }
  }
  stretch (s, r, U'a', 2000, 5'000);
  return r;
}

}  // namespace gen
