// P22: find_last and starts_with.
#include <cassert>  // find_last.hpp needs it where NDEBUG is not defined
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <list>
#include <memory>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <utility>
#include <string>
#include <vector>

#include "../engine/engine.hpp"
#include "../gen/stretch.hpp"
#include "uri/find_last.hpp"
#include "uri/starts_with.hpp"

namespace {

// A value with more than it compares by.
struct Item {
  int key = 0;
  int tag = 0;
  int doubled () const { return key * 2; }
  friend bool operator== (Item const& a, Item const& b) { return a.key == b.key; }
};

// Stops at a value.
struct Until {
  int stop;
  template <std::input_iterator I>
    requires std::is_same_v<std::iter_value_t<I>, int>
  friend bool operator== (I const& it, Until const& u) {
    return *it == u.stop;
  }
};

std::string text (std::vector<int> const& v) {
  std::string r = "[";
  for (int const x : v) {
    r += std::to_string (x) + " ";
  }
  return r + "]";
}

// The position of the last match, or size.
template <typename Function>
std::size_t last (std::vector<int> const& v, Function match) {
  std::size_t r = v.size ();
  for (std::size_t i = 0; i < v.size (); ++i) {
    if (match (v[i])) {
      r = i;
    }
  }
  return r;
}

class FindLast {
public:
  FindLast (pbt::Case& c, std::vector<int> const& v, int value) : c_{c}, v_{v}, value_{value} {}

  template <typename Range>
  void on (Range&& range, char const* what) {
    auto const size = v_.size ();
    auto const plain = last (v_, [&] (int x) { return x == value_; });
    same (range, uri::find_last (range, value_), plain, size, what);
    same (range, uri::find_last (std::ranges::begin (range), std::ranges::end (range), value_), plain, size, what);
    auto const negate = [] (int x) { return -x; };
    auto const negated = last (v_, [&] (int x) { return -x == value_; });
    same (range, uri::find_last (range, value_, negate), negated, size, what);
    same (range, uri::find_last (std::ranges::begin (range), std::ranges::end (range), value_, negate), negated, size, what);
    // Another type of value, and a projection to another type.
    auto const wide = static_cast<long long> (value_);
    same (range, uri::find_last (range, wide), plain, size, what);
    auto const odd = [] (int x) { return x % 2 != 0; };
    same (range, uri::find_last (range, true, odd), last (v_, [] (int x) { return x % 2 != 0; }), size, what);
    // Part of the range.
    if (size > 0) {
      auto const first = std::ranges::next (std::ranges::begin (range));
      auto const r = uri::find_last (first, std::ranges::end (range), value_);
      auto const expected = plain == 0 ? size : plain;
      auto const at = std::ranges::distance (first, r.begin ()) + 1;
      c_.check (static_cast<std::size_t> (at) == expected, [&] { return std::string{what} + ": from the second element"; });
    }
  }

  template <typename Range, typename Result>
  void same (Range&& range, Result const& r, std::size_t expected, std::size_t size, char const* what) {
    auto const begin = std::ranges::begin (range);
    auto const first = static_cast<std::size_t> (std::ranges::distance (begin, r.begin ()));
    auto const length = static_cast<std::size_t> (std::ranges::distance (r.begin (), r.end ()));
    c_.check (first == expected && length == size - expected, [&] {
      return std::string{what} + ": find_last gave [" + std::to_string (first) + ", " + std::to_string (first + length) +
             "), expected [" + std::to_string (expected) + ", " + std::to_string (size) + ")";
    });
    c_.check (std::ranges::next (r.begin (), std::ranges::end (range)) == r.end (), [&] { return std::string{what} + ": the end"; });
  }

private:
  pbt::Case& c_;
  std::vector<int> const& v_;
  int value_;
};

void find (pbt::Case& c, std::vector<int> const& v, int value) {
  auto& s = c.src;
  FindLast f{c, v, value};
  auto const exact = std::make_unique<int[]> (v.size ());
  std::copy (v.begin (), v.end (), exact.get ());
  f.on (std::span<int const>{exact.get (), v.size ()}, "span");
  f.on (v, "vector");
  switch (s.below (7)) {
  case 0: {
    std::list<int> l (v.begin (), v.end ());
    f.on (l, "list");
    f.on (std::as_const (l), "const list");
    break;
  }
  case 1: {
    std::forward_list<int> const l (v.begin (), v.end ());
    f.on (l, "forward_list");
    break;
  }
  case 2: {
    std::deque<int> l (v.begin (), v.end ());
    f.on (l, "deque");
    break;
  }
  case 3: {
    // An end of another type, for random access and for forward iterators.
    auto copy = v;
    constexpr int stop = 99;
    copy.push_back (stop);
    f.on (std::ranges::subrange (copy.cbegin (), Until{stop}), "sentinel");
    std::forward_list<int> const l (copy.begin (), copy.end ());
    f.on (std::ranges::subrange (l.begin (), Until{stop}), "forward sentinel");
    std::list<int> const l2 (copy.begin (), copy.end ());
    f.on (std::ranges::subrange (l2.begin (), Until{stop}), "bidirectional sentinel");
    break;
  }
  case 4: {
    // Views.
    f.on (v | std::views::transform ([] (int x) { return x; }), "transform");
    auto reversed = v;
    std::reverse (reversed.begin (), reversed.end ());
    f.on (reversed | std::views::reverse, "reverse");
    std::list<int> l (v.begin (), v.end ());
    f.on (std::views::counted (l.begin (), static_cast<std::ptrdiff_t> (v.size ())), "counted");
    break;
  }
  case 5: {
    // The value found by a member, of elements which differ otherwise.
    std::vector<Item> items;
    for (int const x : v) {
      items.push_back ({x, static_cast<int> (items.size ())});
    }
    f.same (items, uri::find_last (items, value, &Item::key), last (v, [&] (int x) { return x == value; }), v.size (), "member");
    f.same (items, uri::find_last (items, value, &Item::doubled), last (v, [&] (int x) { return 2 * x == value; }), v.size (),
            "member function");
    f.same (items, uri::find_last (items, Item{value, -1}), last (v, [&] (int x) { return x == value; }), v.size (), "items");
    std::list<Item> const list (items.begin (), items.end ());
    f.same (list, uri::find_last (list, value, &Item::key), last (v, [&] (int x) { return x == value; }), v.size (), "member, list");
    std::forward_list<Item> const flist (items.begin (), items.end ());
    f.same (flist, uri::find_last (flist, value, &Item::key), last (v, [&] (int x) { return x == value; }), v.size (),
            "member, forward_list");
    break;
  }
  default: {
    std::string str;
    for (int const x : v) {
      str += static_cast<char> ('c' + x);
    }
    auto const ch = static_cast<char> ('c' + value);
    pbt::Exact const e{str};
    f.same (e.view (), uri::find_last (e.view (), ch), last (v, [&] (int x) { return x == value; }), v.size (), "string_view");
    auto const upper = [] (char x) { return static_cast<char> (x - 32); };
    f.same (str, uri::find_last (str, 'C', upper), last (v, [] (int x) { return x == 0; }), v.size (), "string");
    // Through the found position the element can be changed.
    if (auto const r = uri::find_last (str, ch); r.begin () != str.end ()) {
      auto const at = static_cast<std::size_t> (r.begin () - str.begin ());
      *r.begin () = '!';
      c.check (str[at] == '!', "the result does not refer to the range");
    }
    break;
  }
  }
}

template <typename Match>
bool prefix (std::vector<int> const& a, std::vector<int> const& b, Match match) {
  if (b.size () > a.size ()) {
    return false;
  }
  for (std::size_t i = 0; i < b.size (); ++i) {
    if (!match (a[i], b[i])) {
      return false;
    }
  }
  return true;
}

class StartsWith {
public:
  StartsWith (pbt::Case& c, std::vector<int> const& a, std::vector<int> const& b) : c_{c}, a_{a}, b_{b} {}

  template <typename R1, typename R2>
  void on (R1&& r1, R2&& r2, char const* what) {
    auto const plain = prefix (a_, b_, std::equal_to{});
    is (uri::starts_with (r1, r2), plain, what);
    is (uri::starts_with (std::ranges::begin (r1), std::ranges::end (r1), std::ranges::begin (r2), std::ranges::end (r2)), plain,
        what);
    // A predicate that is not symmetric.
    is (uri::starts_with (r1, r2, std::ranges::less_equal{}), prefix (a_, b_, std::less_equal{}), what);
    auto const close = [] (int x, int y) { return x + 1 == y; };
    is (uri::starts_with (r1, r2, close), prefix (a_, b_, close), what);
    auto const half = [] (int x) { return x / 2; };
    auto const inc = [] (int x) { return x + 1; };
    is (uri::starts_with (r1, r2, {}, half, {}), prefix (a_, b_, [&] (int x, int y) { return half (x) == y; }), what);
    is (uri::starts_with (r1, r2, {}, {}, half), prefix (a_, b_, [&] (int x, int y) { return x == half (y); }), what);
    is (uri::starts_with (r1, r2, std::ranges::greater{}, inc, half), prefix (a_, b_, [&] (int x, int y) { return inc (x) > half (y); }),
        what);
    is (uri::starts_with (std::ranges::begin (r1), std::ranges::end (r1), std::ranges::begin (r2), std::ranges::end (r2),
                          std::ranges::less{}, half, inc),
        prefix (a_, b_, [&] (int x, int y) { return half (x) < inc (y); }), what);
  }
  void is (bool actual, bool expected, char const* what) {
    c_.check (actual == expected,
              [&] { return std::string{what} + ": starts_with gave " + (actual ? "true" : "false") + " for " + text (a_) + " and " + text (b_); });
  }

private:
  pbt::Case& c_;
  std::vector<int> const& a_;
  std::vector<int> const& b_;
};

std::string words (std::vector<int> const& v) {
  std::string r;
  for (int const x : v) {
    r += std::to_string (x) + " ";
  }
  return r;
}

void starts (pbt::Case& c, std::vector<int> const& a, std::vector<int> const& b) {
  auto& s = c.src;
  StartsWith f{c, a, b};
  auto const ea = std::make_unique<int[]> (a.size ());
  std::copy (a.begin (), a.end (), ea.get ());
  auto const eb = std::make_unique<int[]> (b.size ());
  std::copy (b.begin (), b.end (), eb.get ());
  f.on (std::span<int const>{ea.get (), a.size ()}, std::span<int const>{eb.get (), b.size ()}, "spans");
  switch (s.below (6)) {
  case 0: {
    std::list<int> const la (a.begin (), a.end ());
    std::forward_list<int> const lb (b.begin (), b.end ());
    f.on (la, b, "list, vector");
    f.on (la, lb, "list, forward_list");
    std::forward_list<int> const lc (a.begin (), a.end ());
    f.on (lc, b, "forward_list, vector");
    break;
  }
  case 1: {
    // Single pass.
    auto const plain = prefix (a, b, std::equal_to{});
    {
      std::istringstream i1{words (a)};
      f.is (uri::starts_with (std::views::istream<int> (i1), b), plain, "stream, vector");
    }
    {
      std::istringstream i2{words (b)};
      f.is (uri::starts_with (a, std::views::istream<int> (i2)), plain, "vector, stream");
    }
    {
      std::istringstream i1{words (a)};
      std::istringstream i2{words (b)};
      f.is (uri::starts_with (std::views::istream<int> (i1), std::views::istream<int> (i2)), plain, "streams");
    }
    {
      std::istringstream i1{words (a)};
      std::istringstream i2{words (b)};
      f.is (uri::starts_with (std::istream_iterator<int>{i1}, std::istream_iterator<int>{}, std::istream_iterator<int>{i2},
                              std::istream_iterator<int>{}, std::ranges::less_equal{}),
            prefix (a, b, std::less_equal{}), "stream iterators");
    }
    break;
  }
  case 2: {
    auto ca = a;
    auto cb = b;
    ca.push_back (99);
    cb.push_back (98);
    f.on (std::ranges::subrange (ca.cbegin (), Until{99}), std::ranges::subrange (cb.cbegin (), Until{98}), "sentinels");
    f.on (a, std::ranges::subrange (cb.cbegin (), Until{98}), "vector, sentinel");
    f.on (std::ranges::subrange (ca.cbegin (), Until{99}), b, "sentinel, vector");
    break;
  }
  case 3:
    f.on (a | std::views::transform ([] (int x) { return x; }), b | std::views::filter ([] (int) { return true; }) | std::views::common,
          "views");
    break;
  case 4: {
    std::vector<Item> ia;
    for (int const x : a) {
      ia.push_back ({x, static_cast<int> (ia.size ())});
    }
    f.is (uri::starts_with (ia, b, {}, &Item::key), prefix (a, b, std::equal_to{}), "member");
    f.is (uri::starts_with (b, ia, {}, {}, &Item::doubled), prefix (b, a, [] (int x, int y) { return x == 2 * y; }), "member function");
    f.is (uri::starts_with (ia, ia), true, "itself");
    // Without an end: the elements go on from one to the next.
    auto const count = std::views::iota (0) | std::views::transform ([] (int x) { return x % 3 - 1; });
    std::vector<int> cycle;
    for (int x = 0; x < static_cast<int> (b.size ()); ++x) {
      cycle.push_back (x % 3 - 1);
    }
    f.is (uri::starts_with (count, b), prefix (cycle, b, std::equal_to{}), "infinite, vector");
    f.is (uri::starts_with (count, cycle), true, "infinite, vector");
    f.is (uri::starts_with (count, cycle, std::ranges::less_equal{}), true, "infinite, vector");
    f.is (uri::starts_with (cycle, count), false, "vector, infinite");
    f.is (uri::starts_with (count.begin (), count.end (), b.begin (), b.end ()), prefix (cycle, b, std::equal_to{}),
          "infinite, vector, iterators");
    break;
  }
  default: {
    std::string ta;
    std::string tb;
    for (int const x : a) {
      ta += static_cast<char> ('c' + x);
    }
    for (int const x : b) {
      tb += static_cast<char> ('c' + x);
    }
    pbt::Exact const e1{ta};
    pbt::Exact const e2{tb};
    f.is (uri::starts_with (e1.view (), e2.view ()), ta.starts_with (tb), "string_views");
    f.is (uri::starts_with (ta, e2.view ()), ta.starts_with (tb), "string, string_view");
    f.is (uri::starts_with (std::deque<char> (ta.begin (), ta.end ()), tb), ta.starts_with (tb), "deque, string");
    break;
  }
  }
}

void run (pbt::Case& c) {
  auto& s = c.src;
  std::vector<int> a;
  auto const values = 1U + s.below (4);
  auto n = s.chance (1, 40) ? 30 + s.below (300) : s.length (12);
  for (; n > 0; --n) {
    a.push_back (static_cast<int> (s.below (values)) - 1);
  }
  gen::stretch (s, a, static_cast<int> (s.below (values)) - 1, 60, 5000);
  c.label_if (a.size () > 500, "more than 500 elements");
  if (s.flip ()) {
    auto const value = static_cast<int> (s.below (5)) - 2;
    if (s.chance (1, 4) && !a.empty ()) {
      // At one chosen place only.
      std::erase (a, value);
      a.insert (a.begin () + static_cast<std::ptrdiff_t> (s.below (a.size () + 1)), value);
      c.label ("one occurrence");
    }
    c.note ("range", text (a));
    c.key (static_cast<std::uint64_t> (value + 10));
    c.describe ("value", [&] { return std::to_string (value); });
    auto const n = std::count (a.begin (), a.end (), value);
    c.label (n == 0 ? "absent value" : n == 1 ? "single value" : "repeated value");
    if (!a.empty ()) {
      c.nontrivial ();
    }
    find (c, a, value);
  } else {
    std::vector<int> b (a.begin (), a.begin () + static_cast<std::ptrdiff_t> (s.below (a.size () + 1)));
    switch (s.below (4)) {
    case 0: break;
    case 1: b.push_back (static_cast<int> (s.below (values)) - 1); break;
    case 2:
      if (!b.empty ()) {
        b[s.below (b.size ())] = static_cast<int> (s.below (5)) - 1;
      }
      break;
    default:
      b.clear ();
      for (auto k = s.length (8); k > 0; --k) {
        b.push_back (static_cast<int> (s.below (values)) - 1);
      }
    }
    if (s.chance (1, 6)) {
      std::swap (a, b);
    }
    c.note ("range", text (a));
    c.note ("prefix", text (b));
    if (!a.empty () && !b.empty ()) {
      c.nontrivial ();
    }
    c.label (prefix (a, b, std::equal_to{}) ? "prefix" : "no prefix");
    c.label_if (b.size () > a.size (), "prefix longer than the range");
    starts (c, a, b);
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P22",
  "A case is a range over a few values and a value to find or a possible prefix (a damaged or complete prefix of it, longer, or "
  "anything), as containers and views of each iterator category, with projections and predicates, compared with a loop over "
  "indices. Non-trivial: no empty range.",
  run};
