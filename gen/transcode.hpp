// Runs icubaby's transcoders through each of their interfaces.
#ifndef VERIF_GEN_TRANSCODE_HPP
#define VERIF_GEN_TRANSCODE_HPP

#include <algorithm>
#include <cstddef>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <vector>

#include "../engine/engine.hpp"
#include "../ref/codec_ref.hpp"
#include "uri/icubaby.hpp"

namespace tc {

template <typename Unit>
using units = std::vector<Unit>;

template <typename To>
struct Result {
  units<To> out;
  bool well_formed = true;
  std::optional<icubaby::encoding> encoding;
  bool operator== (Result const&) const = default;
};

// Units in a heap block of exactly the right size.
template <typename Unit>
class Block {
public:
  explicit Block (units<Unit> const& u) : n_{u.size ()}, skip_{n_ == 0 ? 1U : 0U}, p_{new Unit[n_ + skip_]} {
    std::copy (u.begin (), u.end (), p_.get () + skip_);
  }
  std::span<Unit const> span () const { return {p_.get () + skip_, n_}; }

private:
  std::size_t n_;
  std::size_t skip_;  // a block of no bytes would be taken for one of a single byte
  std::unique_ptr<Unit[]> p_;
};

// ---- conversions
inline units<icubaby::char8> to_units (std::string_view s) {
  units<icubaby::char8> r;
  for (char const c : s) {
    r.push_back (static_cast<icubaby::char8> (c));
  }
  return r;
}
inline units<std::byte> to_bytes (std::string_view s) {
  units<std::byte> r;
  for (char const c : s) {
    r.push_back (static_cast<std::byte> (c));
  }
  return r;
}
inline units<char16_t> to_units (std::u16string_view s) { return {s.begin (), s.end ()}; }
inline units<char32_t> to_units (std::u32string_view s) { return {s.begin (), s.end ()}; }

template <typename Unit>
units<Unit> encode (std::u32string_view s) {
  if constexpr (std::is_same_v<Unit, icubaby::char8>) {
    return to_units (ref::utf8 (s));
  } else if constexpr (std::is_same_v<Unit, char16_t>) {
    return to_units (ref::utf16 (s));
  } else {
    return to_units (s);
  }
}
// Nothing if ill-formed.
template <typename Unit>
std::optional<std::u32string> strict (units<Unit> const& u) {
  if constexpr (std::is_same_v<Unit, icubaby::char8>) {
    std::string s;
    for (auto const c : u) {
      s += static_cast<char> (c);
    }
    return ref::from_utf8 (s);
  } else if constexpr (std::is_same_v<Unit, char16_t>) {
    return ref::from_utf16 (std::u16string (u.begin (), u.end ()));
  } else {
    return ref::from_utf32 (std::u32string (u.begin (), u.end ()));
  }
}

template <typename Unit>
std::string show (units<Unit> const& u) {
  std::u32string r;
  for (auto const c : u) {
    r += static_cast<char32_t> (c);
  }
  return pbt::show_units (r);
}
template <typename To>
std::string show (Result<To> const& r) {
  return show (r.out) + (r.well_formed ? " well-formed" : " ill-formed") +
         (r.encoding ? " encoding " + std::to_string (static_cast<int> (*r.encoding)) : std::string{});
}

// ---- the interfaces

// One unit at a time. `after (n, transcoder, out)` is called after n units.
template <typename From, typename To, typename After>
Result<To> by_unit (std::span<From const> in, After after) {
  icubaby::transcoder<From, To> t;
  Result<To> r;
  auto out = std::back_inserter (r.out);
  std::size_t n = 0;
  for (From const u : in) {
    out = t (u, out);
    after (++n, t, r.out);
  }
  (void)t.end_cp (out);
  r.well_formed = t.well_formed ();
  if constexpr (std::is_same_v<From, std::byte>) {
    r.encoding = t.selected_encoding ();
  }
  return r;
}

// Through the output iterator, into a block which has just as much room as is `expected`.
template <typename From, typename To>
Result<To> by_iterator (pbt::Case const& c, std::span<From const> in, std::size_t expected) {
  icubaby::transcoder<From, To> t;
  constexpr std::size_t slack = 16;
  std::vector<To> buffer (expected + slack, To{0x55});
  auto* const first = buffer.data ();
  icubaby::iterator<icubaby::transcoder<From, To>, To*> it{&t, first};
  for (std::size_t i = 0; i < in.size (); ++i) {
    auto const pos = it.base () - first;
    c.check (pos >= 0 && static_cast<std::size_t> (pos) <= expected, "the output iterator wrote too much");
    if (i % 2 == 0) {
      *it++ = in[i];
    } else {
      *it = in[i];
      ++it;
    }
  }
  c.check (it.transcoder () == &t, "the output iterator has another transcoder");
  it = t.end_cp (it);
  auto const n = it.base () - first;
  c.check (n >= 0 && static_cast<std::size_t> (n) <= expected, "the output iterator wrote too much");
  Result<To> r;
  r.out.assign (first, first + n);
  for (std::size_t i = static_cast<std::size_t> (n); i < buffer.size (); ++i) {
    c.check (buffer[i] == To{0x55}, "written beyond the end of the output");
  }
  r.well_formed = t.well_formed ();
  if constexpr (std::is_same_v<From, std::byte>) {
    r.encoding = t.selected_encoding ();
  }
  return r;
}

// The same, with a standard algorithm and a back inserter.
template <typename From, typename To>
Result<To> by_copy (std::span<From const> in) {
  icubaby::transcoder<From, To> t;
  Result<To> r;
  using out = std::back_insert_iterator<units<To>>;
  auto it = std::copy (in.begin (), in.end (), icubaby::iterator<icubaby::transcoder<From, To>, out>{&t, out{r.out}});
  (void)t.end_cp (it);
  r.well_formed = t.well_formed ();
  if constexpr (std::is_same_v<From, std::byte>) {
    r.encoding = t.selected_encoding ();
  }
  return r;
}

// A sentinel which makes a range that is not common.
template <typename It>
struct End {
  It it{};
  friend bool operator== (It const& a, End const& b) { return a == b.it; }
  friend bool operator== (End const& a, End const& b) { return a.it == b.it; }
};

// The range view over any base view; the result is checked against what is expected.
template <typename From, typename To, typename Base>
void by_view (pbt::Case const& c, Base base, Result<To> const& expected, char const* what) {
  auto const limit = expected.out.size ();
  auto const compare = [&] (units<To> const& got) {
    c.check (got == expected.out, [&] {
      return std::string{what} + ": expected " + show (expected.out) + ", got " + show (got);
    });
  };
  auto const view = base | icubaby::views::transcode<From, To>;
  {
    units<To> got;
    for (auto const u : view) {
      got.push_back (u);
      c.check (got.size () <= limit, [&] { return std::string{what} + ": too many units " + show (got); });
    }
    compare (got);
    c.check (view.well_formed () == expected.well_formed,
             [&] { return std::string{what} + ": well_formed() is wrong after traversal"; });
  }
  // A second pass with copies, post-increment and comparisons.
  units<To> got;
  auto it = view.begin ();
  auto const end = view.end ();
  auto lagging = view.begin ();
  while (!(it == end)) {
    c.check (got.size () < limit, [&] { return std::string{what} + ": too many units in the second pass"; });
    auto const copy = it;
    c.check (copy == it, "a copy of an iterator is not equal to it");
    c.check (lagging == it, "iterators at the same position are not equal");
    auto const value = *it;
    auto const old = it++;
    c.check (*old == value && *copy == value, "the value of an iterator changed when a copy of it was incremented");
    c.check (!(old == it), "an iterator is equal to its successor");
    ++lagging;
    got.push_back (value);
  }
  compare (got);
  c.check (view.well_formed () == expected.well_formed,
           [&] { return std::string{what} + ": well_formed() is wrong after the second pass"; });
  c.check (view.empty () == expected.out.empty (), "empty() is wrong");
}

// What follows the end of a text: nothing is pending, and the transcoder can be used for another text (in the same encoding).
template <typename From, typename To>
void after_the_end (pbt::Case const& c, std::span<From const> in, Result<To> const& first) {
  icubaby::transcoder<From, To> t;
  units<To> out;
  for (From const u : in) {
    (void)t (u, std::back_inserter (out));
  }
  (void)t.end_cp (std::back_inserter (out));
  c.check (!t.partial (), "partial() after the end of the text");
  auto const size = out.size ();
  (void)t.end_cp (std::back_inserter (out));
  c.check (out.size () == size, "the end of the text gives output for a second time");
  static constexpr std::u32string_view more = U"z\u00E9\U00010400\u20AC\uFEFF\U0010FFFF\uD7FF0";
  units<From> next;
  if constexpr (std::is_same_v<From, std::byte>) {
    auto const append = [&] (std::uint32_t value, std::size_t size, bool big) {
      for (std::size_t i = 0; i < size; ++i) {
        next.push_back (static_cast<std::byte> (value >> (8U * (big ? size - 1U - i : i))));
      }
    };
    auto const e = t.selected_encoding ();
    using enum icubaby::encoding;
    switch (e) {
    case unknown: return;
    case utf8: next = to_bytes (ref::utf8 (more)); break;
    case utf16be:
    case utf16le:
      for (auto const u : ref::utf16 (more)) {
        append (u, 2, e == utf16be);
      }
      break;
    case utf32be:
    case utf32le:
      for (auto const u : more) {
        append (u, 4, e == utf32be);
      }
      break;
    }
  } else {
    next = encode<From> (more);
  }
  for (From const u : next) {
    (void)t (u, std::back_inserter (out));
  }
  (void)t.end_cp (std::back_inserter (out));
  auto expected = first.out;
  auto const last = encode<To> (more);
  expected.insert (expected.end (), last.begin (), last.end ());
  c.check (out == expected, [&] { return "a second text with the same transcoder gives " + show (out); });
  c.check (t.well_formed () == first.well_formed && !t.partial (), "a second, well-formed text changes well_formed()");
}

// A transcoder which is told whether the text before was well formed.
template <typename From, typename To>
void continued (pbt::Case const& c, std::span<From const> in, Result<To> const& first) {
  if constexpr (std::is_constructible_v<icubaby::transcoder<From, To>, bool>) {
    for (bool const before : {false, true}) {
      icubaby::transcoder<From, To> t{before};
      c.check (t.well_formed () == before && !t.partial (), "a new transcoder does not report what it was told");
      units<To> out;
      for (From const u : in) {
        (void)t (u, std::back_inserter (out));
        c.check (before || !t.well_formed (), "a transcoder forgot that the text before was ill-formed");
      }
      (void)t.end_cp (std::back_inserter (out));
      c.check (out == first.out, [&] { return "a transcoder which continues a text gives " + show (out); });
      c.check (t.well_formed () == (before && first.well_formed), "well_formed() is wrong for a transcoder which continues a text");
    }
  }
}

// Runs every interface on the input; they must agree with each other. `after`: see by_unit. `kind` selects the base of the
// range view, apart from a contiguous one.
template <typename From, typename To, typename After>
Result<To> run_all (pbt::Case const& c, units<From> const& input, std::size_t kind, After after) {
  Block<From> const block{input};
  auto const in = block.span ();
  auto const first = by_unit<From, To> (in, after);
  auto const agree = [&] (Result<To> const& r, char const* what) {
    c.check (r == first, [&] { return std::string{what} + " gives " + show (r) + ", unit by unit gives " + show (first); });
  };
  agree (by_iterator<From, To> (c, in, first.out.size ()), "output iterator");
  agree (by_copy<From, To> (in), "std::copy");
  by_view<From, To> (c, in, first, "view of contiguous units");
  if (kind % 2U == 0U) {
    after_the_end<From, To> (c, in, first);
  } else {
    continued<From, To> (c, in, first);
  }
  switch (kind % 5U) {
  case 0: {
    std::list<From> const l (input.begin (), input.end ());
    by_view<From, To> (c, std::ranges::subrange (l.begin (), l.end ()), first, "view of a list");
    break;
  }
  case 1: {
    std::forward_list<From> const l (input.begin (), input.end ());
    by_view<From, To> (c, std::views::all (l), first, "view of a forward_list");
    break;
  }
  case 2: {
    std::deque<From> const l (input.begin (), input.end ());
    by_view<From, To> (c, std::views::all (l), first, "view of a deque");
    break;
  }
  case 3: {
    using it = typename std::span<From const>::iterator;
    by_view<From, To> (c, std::ranges::subrange<it, End<it>> (in.begin (), End<it>{in.end ()}), first,
                       "view of a range which is not common");
    break;
  }
  default: {
    std::list<From> const l (input.begin (), input.end ());
    using it = typename std::list<From>::const_iterator;
    by_view<From, To> (c, std::ranges::subrange<it, End<it>> (l.begin (), End<it>{l.end ()}), first,
                       "view of a list which is not common");
  }
  }
  return first;
}

inline constexpr auto no_check = [] (std::size_t, auto const&, auto const&) {};

// ---- the rule for ill-formed UTF-8
struct Token {
  bool error;
  char32_t cp;
  std::size_t bytes;
};

// Well-formed code points and errors; an error is one byte or a truncated sequence.
inline std::vector<Token> tokens (std::string_view s) {
  std::vector<Token> r;
  for (std::size_t i = 0; i < s.size ();) {
    // The longest prefix of a well-formed sequence.
    std::size_t best = 1;
    bool good = false;
    for (std::size_t n = 1; n <= 4 && i + n <= s.size (); ++n) {
      if (auto const v = ref::from_utf8 (s.substr (i, n)); v && v->size () == 1) {
        r.push_back ({false, v->front (), n});
        best = n;
        good = true;
        break;
      }
    }
    if (!good) {
      // A truncated sequence: some completion of it is well formed.
      for (std::size_t n = 2; n <= 3 && i + n <= s.size (); ++n) {
        auto const completes = [&] {
          for (std::size_t k = 1; k <= 4 - n; ++k) {
            for (char const last : {'\x80', '\xBF'}) {
              if (ref::from_utf8 (std::string{s.substr (i, n)} + std::string (k, last))) {
                return true;
              }
            }
          }
          return false;
        };
        if (!completes ()) {
          break;
        }
        best = n;
      }
      r.push_back ({true, 0, best});
    }
    i += best;
  }
  return r;
}

// Does the output follow from the tokens? Everything is kept, except that a run of errors gives one or more U+FFFD (no more
// than it has bytes) and the code point directly after it may be lost (in which case it gives at most one U+FFFD for each of
// its bytes).
inline bool follows (std::vector<Token> const& t, std::u32string_view d) {
  using Positions = std::vector<std::size_t>;  // in d, which may have been reached: ascending and different
  std::size_t const n = d.size ();
  Positions run (n + 1U, 0);  // the number of replacement characters from here on
  for (auto p = n; p > 0; --p) {
    run[p - 1U] = d[p - 1U] == U'\xFFFD' ? run[p] + 1U : 0;
  }
  auto const advance = [&] (Positions const& at, std::size_t lo, std::size_t hi) {
    // lo..hi replacement characters
    Positions next;
    for (auto const p : at) {
      auto const from = next.empty () ? p + lo : std::max (p + lo, next.back () + 1U);
      for (auto q = from; q <= p + std::min (hi, run[p]); ++q) {
        next.push_back (q);
      }
    }
    return next;
  };
  auto const keep = [&] (Positions const& at, char32_t cp) {
    Positions next;
    for (auto const p : at) {
      if (p < n && d[p] == cp) {
        next.push_back (p + 1U);
      }
    }
    return next;
  };
  Positions at{0};
  for (std::size_t i = 0; i < t.size () && !at.empty ();) {
    if (!t[i].error) {
      at = keep (at, t[i].cp);
      ++i;
      continue;
    }
    std::size_t bytes = 0;
    for (; i < t.size () && t[i].error; ++i) {
      bytes += t[i].bytes;
    }
    at = advance (at, 1, bytes);
    if (i < t.size ()) {
      auto const lost = advance (at, 0, t[i].bytes);
      auto const kept = keep (at, t[i].cp);
      Positions both;
      std::set_union (lost.begin (), lost.end (), kept.begin (), kept.end (), std::back_inserter (both));
      at = std::move (both);
      ++i;
    }
  }
  return !at.empty () && at.back () == n;
}

}  // namespace tc
#endif
