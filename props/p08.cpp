// P08: percent-decoding.
#include <algorithm>
#include <list>
#include <memory>
#include <ranges>
#include <span>
#include <string>
#include <vector>

#include "../gen/uri_gen.hpp"
#include "../ref/codec_ref.hpp"
#include "uri/pctdecode.hpp"

namespace {

template <typename View>
void traverse (pbt::Case& c, View& view, std::string const& expected, char const* what) {
  auto const collect = [&] {
    std::string r;
    for (auto it = view.begin (), end = view.end (); it != end; ++it) {
      r += *it;
    }
    return r;
  };
  c.equal (collect (), expected, what);
  // Again: it is a forward range. This time with repeated dereferencing, copies and post-increment.
  std::string again;
  auto it = view.begin ();
  auto const end = view.end ();
  std::size_t i = 0;
  while (!(it == end)) {
    char const first = *it;
    auto const copy = it;
    c.check (copy == it, "a copy of an iterator is not equal to it");
    char const second = *copy;
    c.check (first == *it && first == second, "dereferencing twice gives different characters");
    char const moved = std::ranges::iter_move (it);
    c.check (moved == first, "iter_move gives another character");
    auto const old = it++;
    c.check (i >= expected.size () || *old == expected[i], "post-increment returned the wrong position");
    c.check (old != it, "post-increment returned the new position");
    again += first;
    ++i;
    c.check (i <= expected.size (), "more characters than expected");
  }
  c.equal (again, expected, what);
}

// Characters of another type: those beyond a byte are never part of an escape, however they look when they are cut off.
template <typename T>
void other_type (pbt::Case& c, std::string const& text, char const* what) {
  auto& s = c.src;
  std::basic_string<T> in;
  for (char const ch : text) {
    in += static_cast<T> (static_cast<unsigned char> (ch));
  }
  if (sizeof (T) > 1 && !in.empty ()) {
    for (auto n = s.below (4); n > 0; --n) {
      auto& unit = in[s.below (in.size ())];
      unit = static_cast<T> (unit + (s.flip () ? 0x100U << s.below (sizeof (T) * 8U - 8U) : 0x100U * (1U + s.below (0xFEU))));
    }
  }
  std::basic_string<T> expected;
  auto const hex = [&] (std::size_t i) -> unsigned {
    auto const u = i < in.size () ? static_cast<std::uint32_t> (in[i]) : 0U;
    return u >= '0' && u <= '9'   ? u - '0'
           : u >= 'A' && u <= 'F' ? u - 'A' + 10U
           : u >= 'a' && u <= 'f' ? u - 'a' + 10U
                                  : 16U;
  };
  for (std::size_t i = 0; i < in.size (); ++i) {
    if (in[i] == static_cast<T> ('%') && hex (i + 1U) < 16U && hex (i + 2U) < 16U) {
      expected += static_cast<T> (hex (i + 1U) * 16U + hex (i + 2U));
      i += 2;
    } else {
      expected += in[i];
    }
  }
  auto const same = [&] (std::basic_string<T> const& got, char const* how) {
    c.check (got == expected, [&] { return std::string{"characters of type "} + what + ", " + how; });
  };
  std::size_t const skip = in.empty () ? 1U : 0U;
  auto const block = std::make_unique<T[]> (in.size () + skip);
  std::copy (in.begin (), in.end (), block.get () + skip);
  auto const* const first = block.get () + skip;
  auto const* const last = first + in.size ();
  std::basic_string<T> got;
  for (auto const ch : std::span<T const>{first, last} | uri::views::pctdecode) {
    got += ch;
  }
  same (got, "views::pctdecode");
  got.clear ();
  std::copy (uri::pctdecode_iterator{first, last}, uri::pctdecode_iterator{last, last}, std::back_inserter (got));
  same (got, "pctdecode_iterator");
  std::list<T> const list (first, last);
  got.clear ();
  std::ranges::copy (list | uri::views::pctdecode, std::back_inserter (got));
  same (got, "list | views::pctdecode");
  auto const d = uri::pctdecoder{in};
  same (std::basic_string<T> (d.begin (), d.end ()), "pctdecoder");
  c.check (uri::needs_pctdecode (first, last) == (in.find (static_cast<T> ('%')) != std::basic_string<T>::npos),
           [&] { return std::string{"needs_pctdecode() for characters of type "} + what; });
}

void run (pbt::Case& c) {
  auto& s = c.src;
  std::string text;
  switch (s.weighted ({6, 2, 1, 2})) {
  case 0: text = gen::escapes (s, 40); break;
  case 1: text = gen::soup (s, 40); break;
  case 2: text = gen::bytes (s, 40); break;
  default: {
    // Every escape there is, in both cases.
    static constexpr char const hex[] = "0123456789abcdef0123456789ABCDEF";
    for (auto n = s.length (60); n > 0; --n) {
      text += '%';
      text += hex[s.below (32)];
      text += hex[s.below (32)];
    }
    if (s.flip ()) {
      text = gen::mutate_once (s, text);
    }
  }
  }
  c.note ("text", text);
  auto const expected = ref::pct_decode (text);
  if (expected != text) {
    c.nontrivial ();
  }
  c.label_if (expected == text && text.find ('%') != std::string::npos, "only malformed escapes");
  c.label_if (text.ends_with ('%') || (text.size () > 1 && text[text.size () - 2] == '%'), "cut off at the end");
  pbt::Exact const in{text};
  auto const v = in.view ();
  c.equal (uri::pctdecode (v), expected, "pctdecode(string_view)");
  {
    std::string r;
    for (auto it = uri::pctdecode_begin (v), end = uri::pctdecode_end (v); it != end; ++it) {
      r += *it;
    }
    c.equal (r, expected, "pctdecode_begin/pctdecode_end (string_view)");
  }
  std::vector<char> const vec (v.begin (), v.end ());
  {
    std::string r;
    auto it = uri::pctdecode_begin (vec);
    auto const end = uri::pctdecode_end (vec);
    while (!(it == end)) {
      auto const old = it++;
      r += *old;
      c.check (*old == *old.operator-> (), "operator-> disagrees with operator*");
    }
    c.equal (r, expected, "pctdecode_begin/pctdecode_end (vector)");
  }
  {
    uri::pctdecode_iterator first{v.data (), v.data () + v.size ()};
    uri::pctdecode_iterator const last{v.data () + v.size (), v.data () + v.size ()};
    c.equal (std::string (first, last), expected, "pctdecode_iterator (pointers)");
  }
  {
    auto const d = uri::pctdecoder{v};
    c.equal (std::string (d.begin (), d.end ()), expected, "pctdecoder(string_view)");
    c.equal (std::string (d.begin (), d.end ()), expected, "pctdecoder(string_view), second time");
    auto const d2 = uri::pctdecoder{v.begin (), v.end ()};
    c.equal (std::string (d2.begin (), d2.end ()), expected, "pctdecoder(iterators)");
  }
  c.check (uri::needs_pctdecode (v.begin (), v.end ()) == (text.find ('%') != std::string::npos),
           "needs_pctdecode() disagrees with the presence of a percent sign");
  {
    auto view = v | uri::views::pctdecode;
    traverse (c, view, expected, "string_view | views::pctdecode");
    auto copy = view;
    traverse (c, copy, expected, "a copy of the view");
    auto moved = std::move (copy);
    traverse (c, moved, expected, "a view moved to");
    decltype (view) assigned{std::string_view{"%41%"}};
    assigned = view;
    traverse (c, assigned, expected, "a view assigned to");
    c.check (view.empty () == expected.empty (), "view.empty() is wrong");
    c.check (static_cast<std::size_t> (std::ranges::distance (view)) == expected.size (), "the view's length is wrong");
    c.check (std::ranges::equal (view, expected), "std::ranges::equal on the view");
    c.check (std::string_view{view.base ()}.data () == v.data (), "base() is not the underlying view");
  }
  {
    std::string mutable_text = text;
    auto view = mutable_text | uri::views::pctdecode;
    traverse (c, view, expected, "string lvalue | views::pctdecode");
    c.equal (mutable_text, text, "the decoded string");
    // The source may change between traversals: nothing is cached.
    mutable_text += "%4A!";
    traverse (c, view, ref::pct_decode (mutable_text), "string lvalue | views::pctdecode after it was changed");
  }
  {
    auto view = uri::views::pctdecode (vec);
    traverse (c, view, expected, "views::pctdecode(vector)");
    auto span = uri::pctdecode_view{std::span<char const>{vec}};
    traverse (c, span, expected, "pctdecode_view{span}");
  }
  {
    std::string out;
    auto const keep = s.below (expected.size () + 2);
    for (char const ch : v | uri::views::pctdecode | std::views::take (static_cast<std::ptrdiff_t> (keep))) {
      out += ch;
    }
    c.equal (out, expected.substr (0, keep), "views::pctdecode | take");
    out.clear ();
    std::ranges::copy (v | std::views::drop (static_cast<std::ptrdiff_t> (std::min<std::uint64_t> (keep, v.size ()))) |
                         uri::views::pctdecode,
                       std::back_inserter (out));
    c.equal (out, ref::pct_decode (text.substr (std::min<std::uint64_t> (keep, v.size ()))), "drop | views::pctdecode");
  }
  switch (s.below (8)) {
  case 0: other_type<char8_t> (c, text, "char8_t"); break;
  case 1: other_type<char16_t> (c, text, "char16_t"); break;
  case 2: other_type<char32_t> (c, text, "char32_t"); break;
  case 3: other_type<wchar_t> (c, text, "wchar_t"); break;
  default: break;
  }
  c.equal (v, text, "the input");
}

}  // namespace

pbt::Property const pbt::property{
  "P08",
  "A case is a byte string rich in well-formed, malformed, overlapping and truncated escapes, decoded by the string function, "
  "iterator pair, container wrapper and range view (over several underlying ranges, copied, moved, traversed repeatedly and "
  "in pipelines; also for wider characters) and compared with a direct model. Non-trivial: decoding changes the text.",
  run};
