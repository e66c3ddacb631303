// P27: views and iterators keep the promises of the standard iterator concepts.
#include <array>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <utility>
#include <vector>

#include "../gen/text_gen.hpp"
#include "../gen/transcode.hpp"
#include "../gen/uri_gen.hpp"
#include "../ref/codec_ref.hpp"
#include "uri/icubaby.hpp"
#include "uri/pctdecode.hpp"

namespace {

// What is known of the iterators of a range: the values from begin to end, and the values of the base range if a position
// in it is defined for each.
template <typename Value>
struct Model {
  std::vector<Value> values;
  std::vector<std::size_t> base;  // empty if base() is not looked at
};

template <typename Iterator, typename Sentinel, typename Value, typename Begin, typename End, typename Base>
void history (pbt::Case& c, Model<Value> const& m, Begin begin, End end, Base base) {
  auto& s = c.src;
  constexpr bool common = std::is_same_v<Iterator, Sentinel>;
  c.check (std::forward_iterator<Iterator>, "the iterator does not model std::forward_iterator");
  c.check (std::sentinel_for<Sentinel, Iterator>, "the sentinel does not model std::sentinel_for");
  c.check (std::is_same_v<std::iter_value_t<Iterator>, Value>, "the iterator has another value type than its base");
  auto const n = m.values.size ();
  constexpr std::size_t slots = 4;
  // Value-initialized until they are assigned to.
  std::array<Iterator, slots> it{};
  std::array<std::optional<std::size_t>, slots> pos{};
  auto const valid = [&] (std::size_t i) { return pos[i].has_value (); };
  auto const same = [&] (Iterator const& x, std::size_t at, char const* what) {
    if (at < n) {
      c.check (static_cast<Value> (*x) == m.values[at], [&] {
        return std::string{what} + ": the iterator at position " + std::to_string (at) + " has the value " +
               std::to_string (static_cast<unsigned long> (*x)) + " instead of " + std::to_string (static_cast<unsigned long> (m.values[at]));
      });
    }
    auto const e = end ();
    c.check ((x == e) == (at == n) && (e == x) == (at == n) && (x != e) == (at != n),
             [&] { return std::string{what} + ": wrong comparison of position " + std::to_string (at) + " with the end"; });
    base (x, at);
  };
  for (auto steps = 6U + s.below (40); steps > 0; --steps) {
    auto const i = s.below (slots);
    auto const j = s.below (slots);
    auto const op = s.below (16);
    if (op >= 3 && !valid (i)) {
      it[i] = begin ();
      pos[i] = 0;
    }
    switch (op) {
    case 0:
      it[i] = begin ();
      pos[i] = 0;
      break;
    case 1:
      it[i] = Iterator{};
      pos[i].reset ();
      c.check (it[i] == Iterator{}, "two value-initialized iterators are not equal");
      break;
    case 2: {
      auto const& from = it[j];
      it[i] = from;
      pos[i] = pos[j];
      break;
    }
    case 3:
    case 4:
    case 5:
      if (*pos[i] < n) {
        auto& r = ++it[i];
        c.check (&r == &it[i], "++it does not return the iterator itself");
        ++*pos[i];
        same (it[i], *pos[i], "++it");
      }
      break;
    case 6:
      if (*pos[i] < n) {
        auto const before = *pos[i];
        Iterator const old = it[i]++;
        pos[i] = before + 1U;
        same (old, before, "the result of it++");
        same (it[i], before + 1U, "it++");
        c.check (!(old == it[i]), "the result of it++ is equal to the iterator");
        it[j] = old;
        pos[j] = before;
      }
      break;
    case 7: {
      Iterator copy{it[i]};
      same (copy, *pos[i], "a copy");
      c.check (copy == it[i] && !(copy != it[i]), "a copy is not equal");
      Iterator moved{std::move (copy)};
      same (moved, *pos[i], "moved to");
      it[j] = std::move (moved);
      pos[j] = pos[i];
      break;
    }
    case 8:
      if (valid (j)) {
        bool const equal = *pos[i] == *pos[j];
        c.check ((it[i] == it[j]) == equal && (it[j] == it[i]) == equal && (it[i] != it[j]) != equal, [&] {
          return "wrong comparison of iterators at positions " + std::to_string (*pos[i]) + " and " + std::to_string (*pos[j]);
        });
      }
      break;
    case 9:
      if (valid (j) && i != j) {
        std::ranges::swap (it[i], it[j]);
        std::swap (pos[i], pos[j]);
      }
      break;
    case 10: {
      auto const d = std::ranges::distance (it[i], end ());
      c.check (d == static_cast<decltype (d)> (n - *pos[i]), "wrong distance to the end");
      break;
    }
    case 11: {
      auto const k = s.below (n + 2U);
      it[j] = std::ranges::next (it[i], static_cast<std::iter_difference_t<Iterator>> (k), end ());
      pos[j] = std::min<std::size_t> (n, *pos[i] + k);
      break;
    }
    case 12:
      if (*pos[i] < n) {
        Value const moved = std::ranges::iter_move (it[i]);
        c.check (moved == m.values[*pos[i]], "iter_move gives another value");
        if constexpr (requires { it[i].operator-> (); }) {
          c.check (*it[i].operator-> () == m.values[*pos[i]], "operator-> gives another value");
        }
      }
      break;
    case 13: {
      std::vector<Value> rest;
      std::ranges::copy (std::ranges::subrange (it[i], end ()), std::back_inserter (rest));
      c.check (std::ranges::equal (rest, std::ranges::subrange (m.values.begin () + static_cast<std::ptrdiff_t> (*pos[i]), m.values.end ())),
               "the rest of the range has other values");
      break;
    }
    case 14:
      // What one iterator refers to stays as it is when another is dereferenced.
      if (valid (j) && i != j && *pos[i] < n && *pos[j] < n) {
        auto&& first = *it[i];
        auto&& second = *it[j];
        c.check (static_cast<Value> (first) == m.values[*pos[i]] && static_cast<Value> (second) == m.values[*pos[j]],
                 "two references in use at once do not have the values of their positions");
      }
      break;
    default:
      if constexpr (common) {
        it[i] = end ();
        pos[i] = n;
      } else {
        it[i] = std::ranges::next (it[i], end ());
        pos[i] = n;
      }
    }
    // No operation may affect the other iterators.
    for (std::size_t k = 0; k < slots; ++k) {
      if (valid (k)) {
        same (it[k], *pos[k], "afterwards");
      }
    }
  }
}

// Whatever is said about a view holds for it, its copies and when it is const.
template <typename View, typename Value, typename Base>
void view_history (pbt::Case& c, View view, Model<Value> const& m, Base base) {
  auto& s = c.src;
  c.check (std::ranges::view<View>, "it does not model std::ranges::view");
  c.check (std::ranges::forward_range<View> && std::ranges::forward_range<View const>, "it does not model std::ranges::forward_range");
  using V = View const;
  auto const play = [&] (V& v) {
    auto const b = [&] (std::ranges::iterator_t<V> const& x, std::size_t at) { base (v, x, at); };
    history<std::ranges::iterator_t<V>, std::ranges::sentinel_t<V>> (
      c, m, [&] { return v.begin (); }, [&] { return v.end (); }, b);
    c.check (std::ranges::empty (v) == m.values.empty (), "empty() is wrong");
    c.check (std::ranges::equal (v, m.values), "std::ranges::equal on the view");
  };
  if constexpr (std::copyable<View>) {
    if (s.chance (1, 3)) {
      View const copy = view;
      play (copy);
      return;
    }
  }
  if (s.flip ()) {
    View const moved = std::move (view);
    play (moved);
  } else {
    play (view);
  }
}

inline constexpr auto no_base = [] (auto const&, auto const&, std::size_t) {};

// Some of the ranges which the views can be applied to.
template <typename Unit, typename Function>
void over_some (pbt::Case& c, std::vector<Unit> const& units, Function f) {
  if (c.src.flip ()) {
    c.label ("forward_list");
    std::forward_list<Unit> const l (units.begin (), units.end ());
    f (l);
  } else {
    c.label ("another end: counted part of a list");
    std::list<Unit> const l (units.begin (), units.end ());
    f (std::views::counted (l.begin (), static_cast<std::ptrdiff_t> (units.size ())));
  }
}

// Those and more.
template <typename Unit, typename Function>
void over (pbt::Case& c, std::vector<Unit> const& units, Function f) {
  auto const stop = [last = Unit{0x1F}] (Unit u) { return u != last; };
  switch (c.src.below (10)) {
  case 0:
    c.label ("const vector");
    f (units);
    break;
  case 1: {
    c.label ("vector");
    auto copy = units;
    f (copy);
    break;
  }
  case 2:
    c.label ("rvalue");
    f (std::vector<Unit> (units));
    break;
  case 3: {
    c.label ("span");
    tc::Block<Unit> const block{units};
    f (block.span ());
    break;
  }
  case 4: {
    c.label ("list");
    std::list<Unit> l (units.begin (), units.end ());
    f (l);
    break;
  }
  case 5: {
    c.label ("deque");
    std::deque<Unit> d (units.begin (), units.end ());
    f (d);
    break;
  }
  case 6: {
    c.label ("another end: take_while of a vector");
    auto longer = units;
    if (std::find (units.begin (), units.end (), Unit{0x1F}) == units.end ()) {
      longer.push_back (Unit{0x1F});
      longer.insert (longer.end (), units.begin (), units.end ());
      f (longer | std::views::take_while (stop));
    } else {
      f (longer | std::views::all);
    }
    break;
  }
  case 7: {
    c.label ("values instead of references");
    f (units | std::views::transform ([] (Unit u) { return u; }));
    break;
  }
  case 8: {
    c.label ("reversed");
    std::vector<Unit> const back (units.rbegin (), units.rend ());
    f (back | std::views::reverse);
    break;
  }
  default: over_some (c, units, f);
  }
}

void pct (pbt::Case& c) {
  auto& s = c.src;
  auto const text = s.chance (1, 4) ? gen::soup (s, 12) : gen::escapes (s, 12);
  c.note ("text", text);
  // Where each decoded character comes from.
  Model<char> m;
  for (std::size_t i = 0; i < text.size ();) {
    auto const one = ref::pct_decode (std::string_view{text}.substr (i, 3));
    m.base.push_back (i);
    m.values.push_back (one[0]);
    i += one.size () == 1 && text.size () - i >= 3 ? 3 : 1;
  }
  m.base.push_back (text.size ());
  c.check (std::string (m.values.begin (), m.values.end ()) == ref::pct_decode (text), "(model) the two models disagree");
  if (m.values.size () > 1 && m.values.size () < text.size ()) {
    c.nontrivial ();
  }
  std::vector<char> const units (text.begin (), text.end ());
  auto const no_parent = [] (auto const&, std::size_t) {};
  auto const iterators = [&] (auto const& container) {
    auto const first = uri::pctdecode_begin (container);
    auto const last = uri::pctdecode_end (container);
    using I = std::remove_const_t<decltype (first)>;
    history<I, I> (c, m, [&] { return first; }, [&] { return last; }, no_parent);
  };
  switch (s.below (10)) {
  case 0:
    c.label ("pctdecode_iterator: string_view");
    iterators (std::string_view{text});
    break;
  case 1: {
    c.label ("pctdecode_iterator: pointers");
    tc::Block<char> const block{units};
    auto const d = uri::pctdecoder{block.span ().data (), block.span ().data () + block.span ().size ()};
    using I = std::remove_const_t<decltype (d.begin ())>;
    history<I, I> (c, m, [&] { return d.begin (); }, [&] { return d.end (); }, no_parent);
    break;
  }
  case 2:
    c.label ("pctdecode_iterator: list");
    iterators (std::list<char> (text.begin (), text.end ()));
    break;
  case 3: {
    c.label ("pctdecode twice");
    Model<char> twice;
    auto const t = ref::pct_decode (ref::pct_decode (text));
    twice.values.assign (t.begin (), t.end ());
    if (s.flip ()) {
      auto const once = std::string_view{text} | uri::views::pctdecode;
      view_history (c, uri::views::pctdecode (once), twice, no_base);
    } else {
      std::list<char> const l (text.begin (), text.end ());
      auto const once = l | uri::views::pctdecode;
      view_history (c, uri::pctdecode_view<uri::pctdecode_view<std::views::all_t<std::list<char> const&>>>{once}, twice, no_base);
    }
    break;
  }
  default:
    over (c, units, [&]<typename R> (R&& r) {
      view_history (c, std::forward<R> (r) | uri::views::pctdecode, m, [&] (auto& view, auto const& x, std::size_t at) {
        if constexpr (requires { view.base ().begin (); }) {
          auto const b = view.base ();
          auto const d = std::ranges::distance (b.begin (), x.base ());
          c.check (d == static_cast<std::ptrdiff_t> (m.base[at]), "base() is not the position in the base range");
        }
      });
    });
  }
}

template <typename From>
std::vector<From> other_text (std::u32string const& t) {
  if constexpr (std::is_same_v<From, std::byte>) {
    return tc::to_bytes (ref::utf8 (t));
  } else {
    return tc::encode<From> (t);
  }
}

// Views of one type over different texts are traversed by turns: each knows only of its own text.
template <typename From, typename To>
void several_views (pbt::Case& c, std::vector<From> const& units) {
  auto& s = c.src;
  c.label ("several views by turns");
  // A part of the text is often well-formed when the whole is not, and the other way round.
  auto part = units;
  if (!part.empty ()) {
    part.resize (s.below (part.size () + 1U));
  }
  std::array<std::vector<From>, 3> const texts{units, part, other_text<From> (gen::text (s, 4))};
  using View = decltype (std::declval<std::span<From const>> () | icubaby::views::transcode<From, To>);
  struct One {
    tc::Block<From> block;
    tc::Result<To> expected;
    View view;
    std::optional<std::ranges::iterator_t<View const>> it{};
    std::size_t pos = 0;
    bool ended = false;
  };
  std::vector<std::unique_ptr<One>> all;
  for (auto n = 2U + s.below (3); n > 0; --n) {
    tc::Block<From> block{texts[s.below (texts.size ())]};
    auto expected = tc::by_unit<From, To> (block.span (), tc::no_check);
    auto view = block.span () | icubaby::views::transcode<From, To>;
    all.push_back (std::make_unique<One> (One{std::move (block), std::move (expected), std::move (view)}));
  }
  auto const step = [&] (One& one) {
    auto const& out = one.expected.out;
    if (!one.it) {
      one.it = std::as_const (one.view).begin ();
      one.pos = 0;
    } else if (one.pos < out.size ()) {
      ++*one.it;
      ++one.pos;
    }
    bool const at_end = *one.it == std::as_const (one.view).end ();
    c.check (at_end == (one.pos == out.size ()), "several views: wrong comparison with the end");
    if (!at_end) {
      c.check (**one.it == out[one.pos], "several views: wrong value");
    }
    one.ended = one.ended || at_end;
  };
  auto const verify = [&] {
    for (auto const& one : all) {
      if (one->expected.well_formed) {
        c.check (one->view.well_formed (), "several views: well_formed() is false for a well-formed text");
      } else if (one->ended) {
        c.check (!one->view.well_formed (), "several views: well_formed() is true after traversal of an ill-formed text");
      }
    }
  };
  for (auto n = s.below (60); n > 0; --n) {
    auto& one = *all[s.below (all.size ())];
    if (one.ended && s.chance (1, 6)) {
      one.it.reset ();
    }
    step (one);
    verify ();
  }
  for (auto const& one : all) {
    while (!one->ended) {
      step (*one);
    }
    verify ();
  }
}

template <typename From, typename To>
void transcode (pbt::Case& c, std::vector<From> const& units) {
  c.note ("units", tc::show (units));
  tc::Block<From> const block{units};
  auto const expected = tc::by_unit<From, To> (block.span (), tc::no_check);
  Model<To> const m{expected.out, {}};
  if (m.values.size () > 1 && m.values.size () != units.size ()) {
    c.nontrivial ();
  }
  if (c.src.chance (1, 4)) {
    several_views<From, To> (c, units);
    return;
  }
  auto const apply = [&]<typename R> (R&& r) { view_history (c, std::forward<R> (r) | icubaby::views::transcode<From, To>, m, no_base); };
  if constexpr (std::is_same_v<From, icubaby::char8> && std::is_same_v<To, char16_t>) {
    over (c, units, apply);
  } else {
    over_some (c, units, apply);
  }
}

template <typename From>
void transcode_to (pbt::Case& c, std::vector<From> const& units) {
  switch (c.src.below (3)) {
  case 0: transcode<From, icubaby::char8> (c, units); break;
  case 1: transcode<From, char16_t> (c, units); break;
  default: transcode<From, char32_t> (c, units);
  }
}

void run (pbt::Case& c) {
  auto& s = c.src;
  switch (s.weighted ({5, 2, 2, 1, 2})) {
  case 0:
    c.label ("pctdecode");
    pct (c);
    break;
  case 1:
    c.label ("from UTF-8");
    transcode_to (c, tc::to_units (s.flip () ? gen::utf8_like (s, 8) : ref::utf8 (gen::text (s, 6))));
    break;
  case 2:
    c.label ("from UTF-16");
    transcode_to (c, tc::to_units (s.flip () ? gen::utf16_like (s, 8) : ref::utf16 (gen::text (s, 6))));
    break;
  case 3:
    c.label ("from UTF-32");
    transcode_to (c, tc::to_units (gen::utf32_like (s, 8)));
    break;
  default: {
    c.label ("from bytes");
    std::string bytes{s.pick ({"", "", "\xEF\xBB\xBF", "\xFF\xFE", "\xFE\xFF", std::string_view{"\xFF\xFE\0\0", 4}, std::string_view{"\0\0\xFE\xFF", 4}, "\xEF\xBB"})};
    bytes += s.flip () ? gen::utf8_like (s, 6) : gen::bytes (s, 10);
    transcode_to (c, tc::to_bytes (bytes));
  }
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P27",
  "A history of up to 45 operations (create, copy, move, assign, swap, increment, compare, dereference, measure, traverse the rest) "
  "on four iterators of a percent-decoding or transcoding view or of the percent-decoding iterators, over ranges of every forward "
  "category, with ends of the same and of other types, checked after every operation against positions in the expected text. "
  "Non-trivial: the text has several elements and some of them come from several elements of the base.",
  run};
