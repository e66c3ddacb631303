// P09: Punycode.
#include <list>
#include <vector>

#include "../gen/text_gen.hpp"
#include "../gen/uri_gen.hpp"
#include "../ref/codec_ref.hpp"
#include "uri/punycode.hpp"

namespace {

namespace puny = uri::punycode;
using Kind = ref::PunyDecoded::Kind;

template <typename Result>
void check_decoded (pbt::Case& c, Result const& r, ref::PunyDecoded const& expected, bool at_end, char const* what) {
  auto const* const err = std::get_if<std::error_code> (&r);
  if (expected.kind == Kind::unconstrained && err != nullptr) {
    return;
  }
  auto const bad = puny::make_error_code (puny::decode_error_code::bad_input);
  auto const overflow = puny::make_error_code (puny::decode_error_code::overflow);
  if (expected.kind == Kind::ok || expected.kind == Kind::unconstrained) {
    c.check (err == nullptr, [&] { return std::string{what} + ": decoding failed with " + err->message (); });
    auto const& ok = std::get<1> (r);
    c.check (ok.str == expected.text, [&] {
      return std::string{what} + ": expected " + pbt::show_units (expected.text) + ", got " + pbt::show_units (ok.str);
    });
    c.check (at_end, [&] { return std::string{what} + ": the result's iterator is not the end of the input"; });
    return;
  }
  c.check (err != nullptr, [&] {
    return std::string{what} + ": invalid text was decoded to " + pbt::show_units (std::get<1> (r).str);
  });
  bool const fine = (*err == bad && expected.kind != Kind::overflow) || (*err == overflow && expected.kind != Kind::bad_input);
  c.check (fine, [&] {
    return std::string{what} + ": expected " + (expected.kind == Kind::bad_input ? "bad input" : expected.kind == Kind::overflow ? "overflow" : "bad input or overflow") +
           ", got " + err->message ();
  });
}

void check_decode (pbt::Case& c, std::string const& text, ref::PunyDecoded const& expected) {
  pbt::Exact const in{text};
  auto const v = in.view ();
  {
    auto const r = puny::decode (v);
    auto const* const ok = std::get_if<1> (&r);
    check_decoded (c, r, expected, ok != nullptr && ok->in == v.end (), "decode(string_view)");
  }
  {
    auto const r = puny::decode (v.data (), v.data () + v.size ());
    auto const* const ok = std::get_if<1> (&r);
    check_decoded (c, r, expected, ok != nullptr && ok->in == v.data () + v.size (), "decode(pointers)");
  }
  {
    std::list<char> const l (v.begin (), v.end ());
    auto const r = puny::decode (l);
    auto const* const ok = std::get_if<1> (&r);
    check_decoded (c, r, expected, ok != nullptr && ok->in == l.end (), "decode(list)");
  }
}

void run (pbt::Case& c) {
  auto& s = c.src;
  if (s.flip ()) {
    bool const huge = s.chance (1, 4000);
    auto text = gen::text (s, huge ? 12 : s.chance (1, 40) ? 600 : 40);
    if (huge) {
      // Distances and numbers of characters beyond 16 and 32 bits.
      static constexpr std::size_t around[] = {3900, 4096, 5000, 32'770, 65'530, 70'000};
      auto const size = s.pick (around) + s.below (12);
      static constexpr char32_t fill[] = {U'a', U'a', U'Z', U'-', U'\u00E9', U'\U0010FFFF'};
      text.insert (s.below (text.size () + 1U), size, s.pick (fill));
      c.label ("encode: thousands of characters");
    }
    bool const plain = s.flip ();
    c.note ("encode", std::u32string_view{text});
    c.note ("allow_plain", std::uint64_t{plain});
    bool const non_ascii = std::any_of (text.begin (), text.end (), [] (char32_t ch) { return ch >= 0x80; });
    c.label (non_ascii ? "encode: non-ASCII" : "encode: all ASCII");
    if (non_ascii) {
      c.nontrivial ();
    }
    auto const model = ref::puny_encode (text);
    auto const expected = plain && !non_ascii ? ref::utf8 (text) : model;
    std::vector<char32_t> const vec (text.begin (), text.end ());
    std::list<char32_t> const list (text.begin (), text.end ());
    auto const one = [&] (auto const& range, char const* what) {
      std::string out = "<";
      auto const& [in, o, any] = puny::encode (range, plain, std::back_inserter (out));
      c.equal (out, "<" + expected, what);
      c.check (any == non_ascii, "encode() misreports whether there is any non-ASCII character");
      c.check (in == std::ranges::end (range), "encode() did not return the end of the input");
    };
    one (vec, "encode(vector)");
    one (list, "encode(list)");
    one (std::u32string_view{text}, "encode(u32string_view)");
    {
      std::vector<char> out (expected.size ());
      auto const& [in, o, any] = puny::encode (vec, plain, out.data ());
      c.check (o == out.data () + out.size (), "encode() returned the wrong end of the output");
      c.equal (std::string_view{out.data (), out.size ()}, expected, "encode(vector, pointer)");
    }
    ref::PunyDecoded back;
    back.text = text;
    if (model.find ('-') != 0 || model.rfind ('-') != 0) {  // a single leading delimiter is not constrained
      check_decode (c, model, back);
      std::string upper = model;
      auto const d = upper.rfind ('-');
      for (std::size_t i = d == std::string::npos ? 0 : d + 1; i < upper.size (); ++i) {
        if (upper[i] >= 'a' && upper[i] <= 'z' && s.flip ()) {
          upper[i] = static_cast<char> (upper[i] - 'a' + 'A');
        }
      }
      check_decode (c, upper, back);
    }
    return;
  }
  auto const text = gen::puny_like (s);
  c.note ("decode", text);
  auto const expected = ref::puny_decode (text);
  switch (expected.kind) {
  case Kind::ok: c.label ("decode: ok"); break;
  case Kind::bad_input: c.label ("decode: bad input"); break;
  case Kind::overflow: c.label ("decode: overflow"); break;
  case Kind::either_error: c.label ("decode: either error"); break;
  case Kind::unconstrained: c.label ("decode: unconstrained"); break;
  }
  if (expected.kind != Kind::unconstrained && text.size () > 1) {
    c.nontrivial ();
  }
  check_decode (c, text, expected);
}

}  // namespace

pbt::Property const pbt::property{
  "P09",
  "A case is either text of scalar values to encode (with and without plain output, from several ranges, then decoded again) "
  "or valid, damaged or arbitrary Punycode to decode, compared with RFC 3492 on unbounded integers. Non-trivial: a non-ASCII "
  "character to encode, or at least two bytes to decode whose outcome the RFC determines.",
  run};
