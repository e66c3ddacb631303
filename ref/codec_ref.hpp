// Reference models of the codecs: percent-encoding (WHATWG URL), Punycode (RFC 3492) and the UTFs.
#ifndef VERIF_REF_CODEC_REF_HPP
#define VERIF_REF_CODEC_REF_HPP

#include <array>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ref {

// ---- percent encoding
enum class Set { none, fragment, query, special_query, path, userinfo, component, form };

// Is the byte in the set? "%" is a member of all of the named sets, by the library's definition.
bool in_set (unsigned char c, Set s);
// U+0060 is in WHATWG's fragment set but not in the library's (a known finding, see known_findings.txt): the models of
// components take the library's word for this one member.
void set_fragment_grave (bool member);
std::string pct_encode (std::string_view s, Set set);
std::string pct_decode (std::string_view s);

// ---- UTF-8, UTF-16, UTF-32
constexpr bool is_scalar (std::uint64_t c) {
  return c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF);
}
std::string utf8 (std::u32string_view s);
std::u16string utf16 (std::u32string_view s);
// Strict decoders: nothing if ill-formed.
std::optional<std::u32string> from_utf8 (std::string_view s);
std::optional<std::u32string> from_utf16 (std::u16string_view s);
std::optional<std::u32string> from_utf32 (std::u32string_view s);
// Every unpaired surrogate becomes U+FFFD.
std::u32string from_utf16_lossy (std::u16string_view s);
std::u32string from_utf32_lossy (std::u32string_view s);

// ---- Punycode
// RFC 3492 section 6.3, with the delimiter if there is any basic code point.
std::string puny_encode (std::u32string_view s);
// Punycode with the given literal characters and insertions: the distance of each, however large (high and low 64 bits).
std::string puny_write (std::string_view literals, std::vector<std::array<std::uint64_t, 2>> const& deltas);

struct PunyDecoded {
  enum class Kind { ok, bad_input, overflow, either_error, unconstrained } kind = Kind::ok;
  std::u32string text;
};
// RFC 3492 section 6.2 with unbounded integers. Unconstrained: a value which is not a scalar value (but below 2^32) was
// produced; the text may be refused, but if it is accepted the result is the given one.
PunyDecoded puny_decode (std::string_view s);

// ---- Hosts
// Labels are separated by ".". Each with a non-ASCII character becomes "xn--" and its Punycode.
std::string host_encode (std::u32string_view host);

struct HostDecoded {
  PunyDecoded::Kind kind = PunyDecoded::Kind::ok;
  std::string text;
};
HostDecoded host_decode (std::string_view host);

}  // namespace ref
#endif
