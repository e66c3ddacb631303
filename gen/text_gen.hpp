// Generators of Unicode text and of code units.
#ifndef VERIF_GEN_TEXT_GEN_HPP
#define VERIF_GEN_TEXT_GEN_HPP

#include <string>

#include "../engine/engine.hpp"

namespace gen {

// A Unicode scalar value; boundaries of the encodings are common.
char32_t scalar (pbt::Source& s);
// Text of scalar values: mixtures of scripts, boundaries, runs of one code point.
std::u32string text (pbt::Source& s, std::size_t max);
// A host name: labels of ASCII, non-ASCII or mixed text separated by dots.
std::u32string idn_host (pbt::Source& s);
// A host whose labels may start with "xn--", correctly encoded or not.
std::string encoded_host (pbt::Source& s);
// Punycode, or nearly so.
std::string puny_like (pbt::Source& s);

// Code units which may be ill-formed.
std::string utf8_like (pbt::Source& s, std::size_t max);
std::u16string utf16_like (pbt::Source& s, std::size_t max);
std::u32string utf32_like (pbt::Source& s, std::size_t max);

}  // namespace gen
#endif
