// P16: byte streams with or without byte order marks.
#include <algorithm>
#include <string>

#include "../gen/text_gen.hpp"
#include "../gen/transcode.hpp"
#include "../gen/uri_gen.hpp"

namespace {

using icubaby::encoding;

std::string bytes_of (std::u16string_view s, bool big) {
  std::string r;
  for (char16_t const u : s) {
    char const hi = static_cast<char> (u >> 8U);
    char const lo = static_cast<char> (u & 0xFFU);
    r += big ? hi : lo;
    r += big ? lo : hi;
  }
  return r;
}
std::string bytes_of (std::u32string_view s, bool big) {
  std::string r;
  for (char32_t const u : s) {
    for (int i = 0; i < 4; ++i) {
      r += static_cast<char> ((u >> static_cast<unsigned> (big ? 24 - 8 * i : 8 * i)) & 0xFFU);
    }
  }
  return r;
}

struct Model {
  encoding enc = encoding::utf8;
  bool marked = false;
  bool well_formed = true;
  std::string utf8;              // payload, for UTF-8
  std::u32string cps;            // expected code points, otherwise
  bool perhaps_one_less = false; // the last U+FFFD may be missing
};

std::uint8_t at (std::string_view s, std::size_t i) {
  return static_cast<std::uint8_t> (s[i]);
}

Model decode (std::string_view in) {
  using namespace std::string_view_literals;
  Model m;
  auto payload = in;
  if (in.starts_with ("\xFF\xFE\0\0"sv)) {
    m.enc = encoding::utf32le;
    payload.remove_prefix (4);
  } else if (in.starts_with ("\0\0\xFE\xFF"sv)) {
    m.enc = encoding::utf32be;
    payload.remove_prefix (4);
  } else if (in.starts_with ("\xFF\xFE"sv)) {
    m.enc = encoding::utf16le;
    payload.remove_prefix (2);
  } else if (in.starts_with ("\xFE\xFF"sv)) {
    m.enc = encoding::utf16be;
    payload.remove_prefix (2);
  } else if (in.starts_with ("\xEF\xBB\xBF"sv)) {
    payload.remove_prefix (3);
  }
  m.marked = payload.size () != in.size ();
  bool const big = m.enc == encoding::utf16be || m.enc == encoding::utf32be;
  switch (m.enc) {
  case encoding::utf16be:
  case encoding::utf16le: {
    std::u16string u;
    for (std::size_t i = 0; i + 1 < payload.size (); i += 2) {
      auto const a = at (payload, i);
      auto const b = at (payload, i + 1);
      u += static_cast<char16_t> (big ? a << 8U | b : b << 8U | a);
    }
    m.cps = ref::from_utf16_lossy (u);
    m.well_formed = ref::from_utf16 (u).has_value ();
    if (payload.size () % 2 != 0) {
      m.well_formed = false;
      m.perhaps_one_less = !u.empty () && u.back () >= 0xD800 && u.back () <= 0xDBFF;
      m.cps += U'\xFFFD';
    }
    break;
  }
  case encoding::utf32be:
  case encoding::utf32le: {
    std::u32string u;
    for (std::size_t i = 0; i + 3 < payload.size (); i += 4) {
      char32_t v = 0;
      for (std::size_t k = 0; k < 4; ++k) {
        v = v << 8U | at (payload, i + (big ? k : 3 - k));
      }
      u += v;
    }
    m.cps = ref::from_utf32_lossy (u);
    m.well_formed = ref::from_utf32 (u).has_value ();
    if (payload.size () % 4 != 0) {
      m.well_formed = false;
      m.cps += U'\xFFFD';
    }
    break;
  }
  default:
    m.utf8 = std::string{payload};
    m.well_formed = ref::from_utf8 (m.utf8).has_value ();
  }
  return m;
}

template <typename To>
void to (pbt::Case& c, std::string const& in, Model const& m, std::size_t kind) {
  auto const after = [&] (std::size_t n, auto const& t, auto const&) {
    if (n >= 4) {
      c.check (t.selected_encoding () == m.enc, "selected_encoding() is wrong");
    }
    if (n >= 4 && m.well_formed && m.enc != encoding::utf8 && m.marked) {
      auto const unit = m.enc == encoding::utf16be || m.enc == encoding::utf16le ? 2U : 4U;
      if (n % unit != 0) {
        c.check (t.partial (), "partial() is false in the middle of a code unit");
      }
    }
  };
  auto const r = tc::run_all<std::byte, To> (c, tc::to_bytes (in), kind, after);
  c.check (r.well_formed == m.well_formed, m.well_formed ? "a well-formed stream is reported as ill-formed"
                                                         : "an ill-formed stream is reported as well-formed");
  if (!in.empty ()) {
    c.check (r.encoding == m.enc, "selected_encoding() is wrong after the end of the stream");
  }
  auto const cps = tc::strict (r.out);
  c.check (cps.has_value (), [&] { return "the output is ill-formed: " + tc::show (r.out); });
  if (m.enc == encoding::utf8) {
    if (m.well_formed) {
      auto const expected = *ref::from_utf8 (m.utf8);
      c.check (*cps == expected,
               [&] { return "expected " + pbt::show_units (expected) + ", got " + pbt::show_units (*cps); });
    } else {
      c.check (tc::follows (tc::tokens (m.utf8), *cps),
               [&] { return "the output does not follow from the input: " + pbt::show_units (*cps); });
    }
    return;
  }
  bool ok = *cps == m.cps;
  if (!ok && m.perhaps_one_less) {
    ok = *cps == m.cps.substr (0, m.cps.size () - 1U);
  }
  c.check (ok, [&] { return "expected " + pbt::show_units (m.cps) + ", got " + pbt::show_units (*cps); });
}

void run (pbt::Case& c) {
  using namespace std::string_view_literals;
  auto& s = c.src;
  static constexpr std::string_view marks[] = {"\xEF\xBB\xBF"sv, "\xFE\xFF"sv, "\xFF\xFE"sv, "\0\0\xFE\xFF"sv,
                                               "\xFF\xFE\0\0"sv};
  std::string in;
  std::size_t const max = s.chance (1, 40) ? 200 : 8;
  auto const which = s.weighted ({2, 2, 2, 2, 2, 2, 2});
  switch (which) {
  case 0: case 1: case 2: case 3: case 4: {
    in = marks[which];
    if (s.chance (1, 8)) {
      in += marks[which];
    }
    bool const ill = s.chance (1, 3);
    auto const t = gen::text (s, max);
    switch (which) {
    case 0: in += ill ? gen::utf8_like (s, max) : ref::utf8 (t); break;
    case 1: in += bytes_of (ill ? gen::utf16_like (s, max) : ref::utf16 (t), true); break;
    case 2: in += bytes_of (ill ? gen::utf16_like (s, max) : ref::utf16 (t), false); break;
    case 3: in += bytes_of (ill ? gen::utf32_like (s, max) : t, true); break;
    default: in += bytes_of (ill ? gen::utf32_like (s, max) : t, false);
    }
    break;
  }
  case 5:
    // No mark.
    in = s.flip () ? ref::utf8 (gen::text (s, max)) : gen::utf8_like (s, max);
    break;
  default:
    // Bytes that are parts of marks.
    for (auto n = s.length (10); n > 0; --n) {
      in += s.pick_char ("\xEF\xBB\xBF\xFE\xFF\xFF\xFE\0\0\0\x41\xD8\xDC\x80"sv);
    }
  }
  if (s.chance (1, 4)) {
    // A mark with a byte changed.
    auto const n = std::min<std::size_t> (in.size (), 4);
    if (n > 0) {
      in[s.below (n)] = s.pick_char ("\0\xFE\xFF\xEF\xBB\xBF\x41\x80"sv);
    }
  }
  switch (s.weighted ({4, 3, 2})) {
  case 0: break;
  case 1:
    // Cut off at the end.
    in.resize (in.size () - s.below (std::min<std::size_t> (in.size (), 5) + 1U));
    break;
  default: in.resize (std::min<std::size_t> (in.size (), s.below (7)));
  }
  c.note ("bytes", in);
  auto const m = decode (in);
  static constexpr char const* names[] = {"unknown", "UTF-8", "UTF-16BE", "UTF-16LE", "UTF-32BE", "UTF-32LE"};
  c.label (m.enc == encoding::utf8 && m.marked ? "UTF-8 with a mark" : names[static_cast<int> (m.enc)]);
  c.label_if (!m.well_formed, "ill-formed");
  c.label_if (in.size () < 5, "fewer than five bytes");
  bool const near = !in.empty () && !m.marked && "\xEF\xFE\xFF\0"sv.find (in[0]) != std::string_view::npos;
  c.label_if (near, "starts like a mark but is not one");
  if (m.marked || near) {
    c.nontrivial ();
  }
  auto const kind = static_cast<std::size_t> (s.below (5));
  to<icubaby::char8> (c, in, m, kind);
  to<char16_t> (c, in, m, kind);
  to<char32_t> (c, in, m, kind);
}

}  // namespace

pbt::Property const pbt::property{
  "P16",
  "Byte streams of each byte order mark (or none, or one with a byte changed) and well-formed or ill-formed text, often cut "
  "off within the mark, a code unit or a code point, through all destination encodings and interfaces. Non-trivial: the "
  "stream starts with a mark or with the first byte of one.",
  run};
