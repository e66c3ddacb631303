#include "codec_ref.hpp"

#include <algorithm>

namespace ref {

namespace {
bool fragment_grave = true;

bool one_of (unsigned char c, std::string_view s) {
  return s.find (static_cast<char> (c)) != std::string_view::npos;
}
// The sets of https://url.spec.whatwg.org/#percent-encoded-bytes
bool c0_control_set (unsigned char c) {
  return c < 0x20 || c > 0x7E;
}
bool fragment_set (unsigned char c) {
  return c0_control_set (c) || one_of (c, " \"<>") || (c == '`' && fragment_grave);
}
bool query_set (unsigned char c) {
  return c0_control_set (c) || one_of (c, " \"#<>");
}
bool special_query_set (unsigned char c) {
  return query_set (c) || c == '\'';
}
bool path_set (unsigned char c) {
  return query_set (c) || one_of (c, "?`{}");
}
bool userinfo_set (unsigned char c) {
  return path_set (c) || one_of (c, "/:;=@[\\]^|");
}
bool component_set (unsigned char c) {
  return userinfo_set (c) || one_of (c, "$%&+,");
}
bool form_set (unsigned char c) {
  return component_set (c) || one_of (c, "!'()~");
}
int hex_value (char c) {
  if (c >= '0' && c <= '9') {
    return c - '0';
  }
  if (c >= 'a' && c <= 'f') {
    return c - 'a' + 10;
  }
  if (c >= 'A' && c <= 'F') {
    return c - 'A' + 10;
  }
  return -1;
}
}  // namespace

void set_fragment_grave (bool member) {
  fragment_grave = member;
}

bool in_set (unsigned char c, Set s) {
  if (s == Set::none) {
    return c <= 0x20 || c > 0x7E;
  }
  if (c == '%') {
    return true;
  }
  switch (s) {
  case Set::fragment: return fragment_set (c);
  case Set::query: return query_set (c);
  case Set::special_query: return special_query_set (c);
  case Set::path: return path_set (c);
  case Set::userinfo: return userinfo_set (c);
  case Set::component: return component_set (c);
  case Set::form: return form_set (c);
  case Set::none: break;
  }
  return false;
}

std::string pct_encode (std::string_view s, Set set) {
  static constexpr char const hex[] = "0123456789ABCDEF";
  std::string r;
  for (char const ch : s) {
    auto const c = static_cast<unsigned char> (ch);
    if (in_set (c, set)) {
      r += '%';
      r += hex[c / 16];
      r += hex[c % 16];
    } else {
      r += ch;
    }
  }
  return r;
}

std::string pct_decode (std::string_view s) {
  std::string r;
  for (std::size_t i = 0; i < s.size (); ++i) {
    if (s[i] == '%' && s.size () - i >= 3 && hex_value (s[i + 1]) >= 0 && hex_value (s[i + 2]) >= 0) {
      r += static_cast<char> (hex_value (s[i + 1]) * 16 + hex_value (s[i + 2]));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

std::string utf8 (std::u32string_view s) {
  std::string r;
  for (char32_t const c : s) {
    if (c < 0x80) {
      r += static_cast<char> (c);
    } else if (c < 0x800) {
      r += static_cast<char> (0xC0 | (c >> 6));
      r += static_cast<char> (0x80 | (c & 0x3F));
    } else if (c < 0x10000) {
      r += static_cast<char> (0xE0 | (c >> 12));
      r += static_cast<char> (0x80 | ((c >> 6) & 0x3F));
      r += static_cast<char> (0x80 | (c & 0x3F));
    } else {
      r += static_cast<char> (0xF0 | (c >> 18));
      r += static_cast<char> (0x80 | ((c >> 12) & 0x3F));
      r += static_cast<char> (0x80 | ((c >> 6) & 0x3F));
      r += static_cast<char> (0x80 | (c & 0x3F));
    }
  }
  return r;
}

std::u16string utf16 (std::u32string_view s) {
  std::u16string r;
  for (char32_t const c : s) {
    if (c < 0x10000) {
      r += static_cast<char16_t> (c);
    } else {
      r += static_cast<char16_t> (0xD800 + ((c - 0x10000) >> 10));
      r += static_cast<char16_t> (0xDC00 + ((c - 0x10000) & 0x3FF));
    }
  }
  return r;
}

std::optional<std::u32string> from_utf8 (std::string_view s) {
  std::u32string r;
  for (std::size_t i = 0; i < s.size ();) {
    auto const b = static_cast<unsigned char> (s[i]);
    std::size_t n = 0;
    char32_t c = 0;
    char32_t least = 0;
    if (b < 0x80) {
      n = 1;
      c = b;
    } else if (b >= 0xC0 && b < 0xE0) {
      n = 2;
      c = b & 0x1FU;
      least = 0x80;
    } else if (b >= 0xE0 && b < 0xF0) {
      n = 3;
      c = b & 0x0FU;
      least = 0x800;
    } else if (b >= 0xF0 && b < 0xF8) {
      n = 4;
      c = b & 0x07U;
      least = 0x10000;
    } else {
      return {};
    }
    if (s.size () - i < n) {
      return {};
    }
    for (std::size_t k = 1; k < n; ++k) {
      auto const t = static_cast<unsigned char> (s[i + k]);
      if ((t & 0xC0U) != 0x80U) {
        return {};
      }
      c = (c << 6U) | (t & 0x3FU);
    }
    if (c < least || !is_scalar (c)) {
      return {};
    }
    r += c;
    i += n;
  }
  return r;
}

namespace {
bool high (char16_t c) {
  return c >= 0xD800 && c <= 0xDBFF;
}
bool low (char16_t c) {
  return c >= 0xDC00 && c <= 0xDFFF;
}
}  // namespace

std::u32string from_utf16_lossy (std::u16string_view s) {
  std::u32string r;
  for (std::size_t i = 0; i < s.size (); ++i) {
    if (high (s[i]) && i + 1 < s.size () && low (s[i + 1])) {
      r += static_cast<char32_t> (0x10000 + ((s[i] - 0xD800) << 10) + (s[i + 1] - 0xDC00));
      ++i;
    } else if (high (s[i]) || low (s[i])) {
      r += U'\xFFFD';
    } else {
      r += s[i];
    }
  }
  return r;
}
std::optional<std::u32string> from_utf16 (std::u16string_view s) {
  for (std::size_t i = 0; i < s.size (); ++i) {
    if (high (s[i]) && i + 1 < s.size () && low (s[i + 1])) {
      ++i;
    } else if (high (s[i]) || low (s[i])) {
      return {};
    }
  }
  return from_utf16_lossy (s);
}
std::u32string from_utf32_lossy (std::u32string_view s) {
  std::u32string r{s};
  for (auto& c : r) {
    if (!is_scalar (c)) {
      c = U'\xFFFD';
    }
  }
  return r;
}
std::optional<std::u32string> from_utf32 (std::u32string_view s) {
  if (!std::all_of (s.begin (), s.end (), [] (char32_t c) { return is_scalar (c); })) {
    return {};
  }
  return std::u32string{s};
}

namespace {

using wide = unsigned __int128;

// RFC 3492 section 5
constexpr unsigned base = 36;
constexpr unsigned tmin = 1;
constexpr unsigned tmax = 26;
constexpr unsigned skew = 38;
constexpr unsigned damp = 700;
constexpr unsigned initial_bias = 72;
constexpr unsigned initial_n = 128;

// RFC 3492 section 6.1
wide adapt (wide delta, wide numpoints, bool firsttime) {
  delta = firsttime ? delta / damp : delta / 2;
  delta = delta + delta / numpoints;
  wide k = 0;
  while (delta > ((base - tmin) * tmax) / 2) {
    delta = delta / (base - tmin);
    k = k + base;
  }
  return k + ((base - tmin + 1) * delta) / (delta + skew);
}
wide threshold (wide k, wide bias) {
  if (k <= bias + tmin) {
    return tmin;
  }
  if (k >= bias + tmax) {
    return tmax;
  }
  return k - bias;
}
// RFC 3492 section 3.3
void write_vli (std::string& out, wide q, wide bias) {
  static constexpr char const digits[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  for (wide k = base;; k += base) {
    wide const t = threshold (k, bias);
    if (q < t) {
      break;
    }
    out += digits[static_cast<unsigned> (t + (q - t) % (base - t))];
    q = (q - t) / (base - t);
  }
  out += digits[static_cast<unsigned> (q)];
}

}  // namespace

std::string puny_write (std::string_view literals, std::vector<std::array<std::uint64_t, 2>> const& deltas) {
  std::string out{literals};
  if (!literals.empty ()) {
    out += '-';
  }
  wide len = literals.size ();
  wide i = 0;
  wide bias = initial_bias;
  for (auto const& [high, low] : deltas) {
    wide const delta = (wide{high} << 64U) | low;
    write_vli (out, delta, bias);
    ++len;
    bias = adapt (delta, len, i == 0);
    i = (i + delta) % len + 1;
  }
  return out;
}

std::string puny_encode (std::u32string_view in) {
  std::string out;
  for (char32_t const c : in) {
    if (c < 0x80) {
      out += static_cast<char> (c);
    }
  }
  wide const b = out.size ();
  wide h = b;
  if (b > 0) {
    out += '-';
  }
  wide n = initial_n;
  wide delta = 0;
  wide bias = initial_bias;
  while (h < in.size ()) {
    wide m = ~wide{0};
    for (char32_t const c : in) {
      if (c >= n && c < m) {
        m = c;
      }
    }
    delta = delta + (m - n) * (h + 1);
    n = m;
    for (char32_t const c : in) {
      if (c < n) {
        ++delta;
      }
      if (c == n) {
        write_vli (out, delta, bias);
        bias = adapt (delta, h + 1, h == b);
        delta = 0;
        ++h;
      }
    }
    ++delta;
    ++n;
  }
  return out;
}

PunyDecoded puny_decode (std::string_view in) {
  using Kind = PunyDecoded::Kind;
  PunyDecoded r;
  bool unconstrained = false;
  std::size_t pos = 0;
  if (auto const d = in.rfind ('-'); d != std::string_view::npos) {
    for (; pos < d; ++pos) {
      auto const c = static_cast<unsigned char> (in[pos]);
      if (c >= 0x80) {
        return {Kind::bad_input, {}};
      }
      r.text += c;
    }
    // The delimiter is consumed only if there were literal characters.
    pos += d > 0 ? 1 : 0;
  }
  wide n = initial_n;
  wide i = 0;
  wide bias = initial_bias;
  constexpr wide limit = wide{1} << 100U;
  while (pos < in.size ()) {
    wide const oldi = i;
    wide w = 1;
    bool bad = false;
    for (wide k = base;; k += base) {
      unsigned digit = base;
      if (pos < in.size ()) {
        char const c = in[pos++];
        if (c >= 'a' && c <= 'z') {
          digit = static_cast<unsigned> (c - 'a');
        } else if (c >= 'A' && c <= 'Z') {
          digit = static_cast<unsigned> (c - 'A');
        } else if (c >= '0' && c <= '9') {
          digit = static_cast<unsigned> (c - '0') + 26;
        }
      }
      if (digit == base) {
        bad = true;
        break;
      }
      i = std::min (limit, i + digit * w);
      wide const t = threshold (k, bias);
      if (digit < t) {
        break;
      }
      w = std::min (limit, w * (base - t));
    }
    wide const len = r.text.size () + 1;
    // Beyond this a conforming decoder may have stopped before seeing the bad digit.
    bool const big = n + i / len > 0xFFFFFFFFU;
    bool const maybe_big = big || w > 0xFFFFFFFFU;
    if (unconstrained && (bad || big)) {
      return {Kind::either_error, {}};
    }
    if (bad) {
      return {maybe_big ? Kind::either_error : Kind::bad_input, {}};
    }
    if (big) {
      return {Kind::overflow, {}};
    }
    bias = adapt (i - oldi, len, oldi == 0);
    n = n + i / len;
    i = i % len;
    if (!is_scalar (static_cast<std::uint64_t> (n))) {
      unconstrained = true;
    }
    r.text.insert (static_cast<std::size_t> (i), 1, static_cast<char32_t> (n));
    ++i;
  }
  if (unconstrained) {
    r.kind = Kind::unconstrained;
  }
  return r;
}

std::string host_encode (std::u32string_view host) {
  std::string r;
  for (;;) {
    auto const dot = host.find (U'.');
    auto const label = host.substr (0, dot);
    if (std::any_of (label.begin (), label.end (), [] (char32_t c) { return c >= 0x80; })) {
      r += "xn--" + puny_encode (label);
    } else {
      r += utf8 (label);
    }
    if (dot == std::u32string_view::npos) {
      return r;
    }
    r += '.';
    host.remove_prefix (dot + 1);
  }
}

HostDecoded host_decode (std::string_view host) {
  using Kind = PunyDecoded::Kind;
  HostDecoded r;
  bool unconstrained = false;
  for (;;) {
    auto const dot = host.find ('.');
    auto const label = host.substr (0, dot);
    if (label.starts_with ("xn--")) {
      auto const d = puny_decode (label.substr (4));
      if (d.kind != Kind::ok && d.kind != Kind::unconstrained) {
        return {unconstrained ? Kind::either_error : d.kind, {}};
      }
      unconstrained = unconstrained || d.kind == Kind::unconstrained;
      for (auto const cp : d.text) {
        r.text += utf8 (std::u32string (1, is_scalar (cp) ? cp : U'\xFFFD'));
      }
    } else {
      r.text += label;
    }
    if (dot == std::string_view::npos) {
      r.kind = unconstrained ? Kind::unconstrained : Kind::ok;
      return r;
    }
    r.text += '.';
    host.remove_prefix (dot + 1);
  }
}

}  // namespace ref
