// Every public operation as a function of texts, for the robustness and purity checks.
#ifndef VERIF_GEN_OPS_HPP
#define VERIF_GEN_OPS_HPP

#include <cassert>
#include <filesystem>
#include <functional>
#include <iterator>
#include <memory>
#include <optional>
#include <ranges>
#include <sstream>
#include <string>
#include <string_view>
#include <variant>
#include <vector>

#include "conv.hpp"
#include "uri/find_last.hpp"
#include "uri/icubaby.hpp"
#include "uri/parts.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
#include "uri/punycode.hpp"
#include "uri/rule.hpp"
#include "uri/starts_with.hpp"
#include "uri/uri.hpp"

namespace ops {

enum class Kind {
  split,
  split_reference,
  join_text,
  join_parts,
  compose,
  valid,
  equality,
  dots,
  to_path,
  pctencode,
  pctdecode,
  pctdecode_view,
  puny_encode,
  puny_decode,
  encode_parts,
  decode_parts,
  transcode,
  transcode_view,
  bytes,
  rules,
  search,
  errors,
  shared,
  nested,
  counting,
  last
};
constexpr char const* names[] = {"split",       "split_reference", "join (text)", "join (parts)",  "compose",     "valid",
                                 "equality",    "remove dots",     "to path",     "pctencode",     "pctdecode",   "pctdecode_view",
                                 "puny encode", "puny decode",     "encode",      "decode",        "transcode",   "transcode_view",
                                 "byte stream", "rules",           "search",      "error codes",   "shared object", "nested call", "counting"};
static_assert (std::size (names) == static_cast<std::size_t> (Kind::last));

struct Objects;

struct Op {
  Kind kind;
  std::string_view a;               // text
  std::string_view b;               // other text
  std::u32string_view cps;          // code points
  uri::parts const* p = nullptr;    // components
  uri::parts const* q = nullptr;    // other components
  unsigned n = 0;                   // an option
  Objects const* objects = nullptr;  // over the text and the code points; made for the call if there are none
};

// What an operation gave: `show` may be called at any later time (while the arguments are there).
using Kept = std::function<std::string ()>;

inline std::string show (uri::parts const& p) {
  return ref::show (conv::own (p));
}
inline std::string show (std::optional<uri::parts> const& p) {
  return p ? show (*p) : std::string{"none"};
}
inline Kept fixed (std::string s) {
  return [s = std::move (s)] { return s; };
}

template <typename From, typename To, typename In>
std::string transcoded (In const& in) {
  icubaby::transcoder<From, To> t;
  std::basic_string<To> out;
  auto it = std::back_inserter (out);
  std::string r;
  for (auto const u : in) {
    it = t (static_cast<From> (u), it);
    r += t.partial () ? 'p' : '.';
  }
  (void)t.end_cp (it);
  for (auto const u : out) {
    r += std::to_string (static_cast<std::uint32_t> (u)) + ",";
  }
  return r + (t.well_formed () ? "good" : "bad");
}
template <typename From, typename To, typename In>
std::string transcoded_view (In const& in) {
  std::vector<From> units;
  for (auto const u : in) {
    units.push_back (static_cast<From> (u));
  }
  std::string r;
  auto const view = units | icubaby::views::transcode<From, To>;
  for (auto const u : view) {
    r += std::to_string (static_cast<std::uint32_t> (u)) + ",";
  }
  return r + (view.well_formed () ? "good" : "bad");
}

inline constexpr uri::pctencode_set sets[] = {
  uri::pctencode_set::none,     uri::pctencode_set::fragment,  uri::pctencode_set::query, uri::pctencode_set::special_query,
  uri::pctencode_set::path,     uri::pctencode_set::userinfo,  uri::pctencode_set::component,
  uri::pctencode_set::form_urlencoded};

inline auto words (uri::rule const& r) {
  return r.star ([] (uri::rule const& r1) {
            return r1.alternative ([] (uri::rule const& r2) { return r2.star (uri::alpha, 1).matched ("word", r2); },
                                   [] (uri::rule const& r2) { return r2.concat (uri::digit).optional (uri::digit).matched ("n", r2); },
                                   uri::single_char ('-'), uri::char_range ('!', '/'))
              .matched ("item", r1);
          })
    .matched ("words", r);
}

// Objects of the library over one text, which const access may share: each of its users only goes through them.
struct Objects {
  Objects (std::string_view text, std::u32string_view cps)
      : bytes{text.begin (), text.end ()}, utf8{conv (text)}, utf16{narrow (cps)}, utf32{cps.begin (), cps.end ()} {}
  Objects (Objects const&) = delete;
  Objects& operator= (Objects const&) = delete;

  template <typename View>
  static std::string through (View const& view) {
    std::string r;
    for (auto const u : view) {
      // Plain char may be signed.
      r += std::to_string (static_cast<std::uint32_t> (static_cast<std::make_unsigned_t<decltype (u)>> (u))) + ",";
    }
    return r;
  }
  template <typename View>
  static std::string checked (View const& view) {
    auto const r = through (view);
    return r + (view.well_formed () ? "good" : "bad");
  }
  std::string use (unsigned n) const {
    switch (n % 12U) {
    case 0: return through (decoder);
    case 1: return through (decoded);
    case 2: return checked (v8_16);
    case 3: return checked (v8_32);
    case 4: return checked (v8_8);
    case 5: return checked (v16_8);
    case 6: return checked (v32_8);
    case 7: return checked (v32_16);
    case 8: return checked (bytes_8);
    case 9: return parse (start);
    case 10: return parse (later) + (later.done () ? "+" : "-");
    default: {
      std::string r;
      auto const taken = [&r] (std::string_view s) { r += '['; r += s; r += ']'; };
      auto const end = start.star ([&] (uri::rule const& r1) { return r1.alternative (dash, lower, uri::alpha, uri::digit).matched ("item", r1); }, 0U, 9U)
                         .optional (dash, taken).concat (lower, taken);
      return r + (end.done () ? "+" : "-") + std::string{end.tail ().value_or ("none")};
    }
    }
  }
  static std::string parse (uri::rule const& from) {
    std::string r;
    auto const taken = [&r] (std::string_view s) { r += '['; r += s; r += ']'; };
    auto const end = from.concat (words, taken).optional (uri::single_char ('x'), taken);
    return r + (end.done () ? "+" : "-") + std::string{end.tail ().value_or ("none")};
  }

private:
  static std::vector<icubaby::char8> conv (std::string_view text) {
    std::vector<icubaby::char8> r;
    for (char const ch : text) {
      r.push_back (static_cast<icubaby::char8> (ch));
    }
    return r;
  }
  static std::vector<char16_t> narrow (std::u32string_view cps) {
    std::vector<char16_t> r;
    for (char32_t const cp : cps) {
      r.push_back (static_cast<char16_t> (cp));
    }
    return r;
  }
  template <typename From, typename To>
  using Over = icubaby::ranges::transcode_view<From, To, std::ranges::ref_view<std::vector<From> const>>;

  std::string const bytes;
  std::vector<std::byte> const raw = [this] {
    std::vector<std::byte> r;
    for (char const ch : bytes) {
      r.push_back (static_cast<std::byte> (ch));
    }
    return r;
  }();
  std::vector<icubaby::char8> const utf8;
  std::vector<char16_t> const utf16;
  std::vector<char32_t> const utf32;
  uri::pctdecoder<std::string::const_iterator> const decoder{bytes.begin (), bytes.end ()};
  uri::pctdecode_view<std::ranges::ref_view<std::string const>> const decoded{std::ranges::ref_view{bytes}};
  Over<icubaby::char8, char16_t> const v8_16{std::ranges::ref_view{utf8}};
  Over<icubaby::char8, char32_t> const v8_32{std::ranges::ref_view{utf8}};
  Over<icubaby::char8, icubaby::char8> const v8_8{std::ranges::ref_view{utf8}};
  Over<char16_t, icubaby::char8> const v16_8{std::ranges::ref_view{utf16}};
  Over<char32_t, icubaby::char8> const v32_8{std::ranges::ref_view{utf32}};
  Over<char32_t, char16_t> const v32_16{std::ranges::ref_view{utf32}};
  Over<std::byte, icubaby::char8> const bytes_8{std::ranges::ref_view{raw}};
  uri::rule const start{bytes};
  uri::rule const later = start.star (uri::alpha).optional (uri::single_char (':')).optional (uri::single_char ('/'));
  decltype (uri::single_char ('-')) const dash = uri::single_char ('-');
  decltype (uri::char_range ('a', 'z')) const lower = uri::char_range ('a', 'z');
};

// An output iterator which calls a function with each value. Its type is the same whatever the function does, so that calls
// within a call are of the same functions.
class Calling {
public:
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  using Function = std::function<void (std::uint32_t)>;
  explicit Calling (Function& f) : f_{&f} {}
  template <typename T>
    requires std::is_arithmetic_v<T>
  Calling& operator= (T v) {
    (*f_) (static_cast<std::uint32_t> (static_cast<std::make_unsigned_t<T>> (v)));
    return *this;
  }
  Calling& operator* () { return *this; }
  Calling& operator++ () { return *this; }
  Calling operator++ (int) { return *this; }

private:
  Function* f_;
};

// One of the calls which give their results to a function.
inline std::string calling (unsigned kind, std::string_view a, std::u32string_view cps, unsigned set, Calling::Function& f) {
  switch (kind % 6U) {
  case 0: (void)uri::pctencode (a.begin (), a.end (), Calling{f}, sets[set % std::size (sets)]); break;
  case 1: {
    icubaby::transcoder<icubaby::char8, char16_t> t;
    Calling it{f};
    for (char const ch : a) {
      it = t (static_cast<icubaby::char8> (ch), it);
    }
    (void)t.end_cp (it);
    return t.well_formed () ? "good" : "bad";
  }
  case 2: (void)uri::punycode::encode (cps, true, Calling{f}); break;
  case 3: {
    std::string r;
    auto const accept = [&] (std::string_view s) {
      r += '[';
      r += s;
      f (static_cast<std::uint32_t> (s.size ()));
      r += ']';
    };
    return r + (uri::rule{a}.concat (words, accept).optional (uri::single_char ('x'), accept).concat (words, accept).done () ? "+" : "-");
  }
  case 4:
    for (auto const u : a | uri::views::pctdecode) {
      f (static_cast<unsigned char> (u));
    }
    break;
  default: {
    std::vector<icubaby::char8> units;
    for (char const ch : a) {
      units.push_back (static_cast<icubaby::char8> (ch));
    }
    for (auto const u : units | icubaby::views::transcode<icubaby::char8, char32_t>) {
      f (u);
    }
  }
  }
  return {};
}

inline constexpr std::string_view nested_differs = "calls within a call change ";

// Calls of the library which come from within a call of the library. They must give what they give on their own, and so must
// the call they come from.
inline std::string nested (Op const& op) {
  auto const b = op.b.substr (0, 60);
  auto const cps = op.cps.substr (0, 20);
  std::u32string const reversed (cps.rbegin (), cps.rend ());
  auto const inner = [&] (unsigned n) -> std::string {
    switch (n % 9U) {
    case 0: return uri::pctencode (b, sets[n % std::size (sets)]);
    case 1: return show (uri::split_reference (b));
    case 2: return transcoded<icubaby::char8, char16_t> (b);
    case 3: {
      auto const r = uri::punycode::decode (b);
      return std::string{std::holds_alternative<std::error_code> (r) ? "error" : "decoded"};
    }
    case 4: return uri::pctdecode (b);
    case 5: return Objects::parse (uri::rule{b});
    default: {
      // The same as the outer one, with other arguments.
      std::string r;
      Calling::Function into = [&] (std::uint32_t v) { r += std::to_string (v) + ","; };
      r += calling (op.n, b, n % 2U == 0 ? std::u32string_view{reversed} : std::u32string_view{reversed}.substr (reversed.size () / 2U), n, into);
      return r;
    }
    }
  };
  struct Call {
    unsigned at;
    unsigned n;
    std::string result;
  };
  // With the first few values, and now and then later.
  auto const call = [&] (unsigned value) -> std::optional<unsigned> {
    if (value <= 6U || (value < 4000U && value % 97U == 0)) {
      return op.n / 6U + (op.n % 5U == 0 ? value : 0U);
    }
    return {};
  };
  std::string plain;
  std::vector<Call> calls;
  unsigned count = 0;
  Calling::Function take = [&] (std::uint32_t v) {
    plain += std::to_string (v) + ",";
    ++count;
    if (auto const n = call (count)) {
      calls.push_back ({count, *n, {}});
    }
  };
  plain += calling (op.n, op.a, op.cps, op.n / 6U, take);
  for (auto& c : calls) {
    c.result = inner (c.n);
  }
  std::string out;
  std::string bad;
  std::size_t next = 0;
  count = 0;
  take = [&] (std::uint32_t v) {
    out += std::to_string (v) + ",";
    ++count;
    if (next < calls.size () && calls[next].at == count) {
      if (inner (calls[next].n) != calls[next].result) {
        bad = "the inner one";
      }
      ++next;
    }
  };
  out += calling (op.n, op.a, op.cps, op.n / 6U, take);
  if (out != plain) {
    bad = "the outer one from " + plain.substr (0, 200) + " to " + out.substr (0, 200);
  }
  if (!bad.empty ()) {
    return std::string{nested_differs} + bad;
  }
  for (auto const& c : calls) {
    out += '{' + c.result + '}';
  }
  return out;
}

template <typename Unit>
std::string counted (std::vector<Unit> const& v, unsigned n) {
  auto const pos = n / 3U;
  return std::to_string (icubaby::length (v)) + "," + std::to_string (icubaby::length (v.begin (), v.end ())) + "," +
         std::to_string (icubaby::index (v, pos) - v.begin ()) + "," +
         std::to_string (icubaby::index (v.begin (), v.end (), pos + 1U) - v.begin ());
}

inline Kept run (Op const& op) {
  switch (op.kind) {
  case Kind::split: {
    auto r = std::make_shared<std::optional<uri::parts>> (uri::split (op.a));
    return [r] { return show (*r); };
  }
  case Kind::split_reference: {
    auto r = std::make_shared<std::optional<uri::parts>> (uri::split_reference (op.a));
    return [r] { return show (*r); };
  }
  case Kind::join_text: {
    auto r = std::make_shared<std::optional<uri::parts>> (uri::join (op.a, op.b, op.n % 2U == 0));
    return [r] { return show (*r); };
  }
  case Kind::join_parts: {
    auto r = std::make_shared<uri::parts> (uri::join (*op.p, *op.q, op.n % 2U == 0));
    return [r] { return show (*r); };
  }
  case Kind::compose: {
    std::ostringstream os;
    os << op.p->path << '|';
    if (op.p->authority) {
      os << *op.p->authority;
    }
    os << '|' << *op.p << '|';
    uri::compose (os, *op.p);
    return fixed (uri::compose (*op.p) + '|' + os.str () + '|' + static_cast<std::string> (op.p->path));
  }
  case Kind::valid:
    return fixed (std::string{op.p->valid () ? "valid" : "invalid"} + (op.p->path.valid () ? " valid" : " invalid") +
                  (op.p->authority && op.p->authority->valid () ? " valid" : " invalid"));
  case Kind::equality:
    return fixed (std::string{*op.p == *op.q ? "==" : ""} + (*op.p != *op.q ? "!=" : "") +
                  (op.p->path == op.q->path ? "p==" : "p!=") + (op.p->authority == op.q->authority ? "a==" : "a!="));
  case Kind::dots: {
    auto r = std::make_shared<uri::parts> (*op.p);
    r->path.remove_dot_segments ();
    return [r] { return show (*r); };
  }
  case Kind::to_path: {
    // Only for components that come from parsing (or which have no NUL at least).
    return fixed (static_cast<std::filesystem::path> (op.p->path).native ());
  }
  case Kind::pctencode: {
    auto const set = sets[op.n % std::size (sets)];
    std::string out;
    uri::pctencode (op.a.begin (), op.a.end (), std::back_inserter (out), set);
    return fixed (out + (uri::needs_pctencode (op.a, set) ? "|needed" : "|not needed") + uri::pctencode (op.a, set));
  }
  case Kind::pctdecode: {
    auto const d = uri::pctdecoder{op.a};
    return fixed (uri::pctdecode (op.a) + '|' + std::string (d.begin (), d.end ()) +
                  (uri::needs_pctdecode (op.a.begin (), op.a.end ()) ? "|needed" : "|not needed"));
  }
  case Kind::pctdecode_view: {
    std::string out;
    for (char const ch : op.a | uri::views::pctdecode) {
      out += ch;
    }
    return fixed (out);
  }
  case Kind::puny_encode: {
    std::string out;
    auto const& [in, o, any] = uri::punycode::encode (op.cps, op.n % 2U == 0, std::back_inserter (out));
    return fixed (out + (any ? "|non-ASCII" : "|ASCII"));
  }
  case Kind::puny_decode: {
    auto const r = uri::punycode::decode (op.a);
    if (auto const* const err = std::get_if<std::error_code> (&r)) {
      return fixed ("error " + err->message ());
    }
    std::string out;
    for (char32_t const cp : std::get<1> (r).str) {
      out += std::to_string (static_cast<std::uint32_t> (cp)) + ",";
    }
    return fixed (out);
  }
  case Kind::encode_parts: {
    auto store = std::make_shared<std::vector<char>> ();
    auto r = std::make_shared<uri::parts> (uri::encode (*store, *op.p));
    return [r, store] { return show (*r); };
  }
  case Kind::decode_parts: {
    auto store = std::make_shared<std::string> ();
    auto const d = uri::decode (*store, *op.p);
    if (auto const* const err = std::get_if<std::error_code> (&d)) {
      return fixed ("error " + err->message ());
    }
    auto r = std::make_shared<uri::parts> (std::get<uri::parts> (d));
    return [r, store] { return show (*r); };
  }
  case Kind::transcode:
    switch (op.n % 6U) {
    case 0: return fixed (transcoded<icubaby::char8, char16_t> (op.a));
    case 1: return fixed (transcoded<icubaby::char8, char32_t> (op.a));
    case 2: return fixed (transcoded<icubaby::char8, icubaby::char8> (op.a));
    case 3: return fixed (transcoded<char32_t, icubaby::char8> (op.cps));
    case 4: return fixed (transcoded<char32_t, char16_t> (op.cps));
    default: return fixed (transcoded<char16_t, icubaby::char8> (op.cps));
    }
  case Kind::transcode_view:
    switch (op.n % 4U) {
    case 0: return fixed (transcoded_view<icubaby::char8, char16_t> (op.a));
    case 1: return fixed (transcoded_view<icubaby::char8, char32_t> (op.a));
    case 2: return fixed (transcoded_view<char16_t, icubaby::char8> (op.cps));
    default: return fixed (transcoded_view<char32_t, icubaby::char8> (op.cps));
    }
  case Kind::bytes:
    switch (op.n % 4U) {
    case 0: return fixed (transcoded<std::byte, icubaby::char8> (op.a));
    case 1: return fixed (transcoded<std::byte, char16_t> (op.a));
    case 2: return fixed (transcoded<std::byte, char32_t> (op.a));
    default: return fixed (transcoded_view<std::byte, icubaby::char8> (op.a));
    }
  case Kind::rules: {
    auto out = std::make_shared<std::string> ();
    auto const accept = [&out] (std::string_view s) {
      *out += '[';
      *out += s;
      *out += ']';
    };
    uri::rule const start{op.a};
    auto const first = start.concat (words, accept);
    auto const second = first.optional (uri::single_char ('x'), accept);
    auto const third = second.concat (words, accept);
    *out += first.done () ? "+" : "-";
    *out += third.done () ? "+" : "-";
    *out += second.done () ? "+" : "-";
    if (auto const t = third.tail ()) {
      *out += *t;
    }
    return fixed (*out);
  }
  case Kind::search: {
    auto const v = op.b.empty () ? 'a' : op.b.front ();
    auto const r = uri::find_last (op.a, v);
    return fixed (std::to_string (r.begin () - op.a.begin ()) + "," + std::to_string (r.end () - op.a.begin ()) +
                  (uri::starts_with (op.a, op.b) ? " prefix" : " no prefix"));
  }
  case Kind::errors: {
    auto const e1 = uri::punycode::make_error_code (uri::punycode::decode_error_code::bad_input);
    auto const e2 = uri::punycode::make_error_code (uri::punycode::decode_error_code::overflow);
    auto const e3 = uri::punycode::make_error_code (uri::punycode::decode_error_code::overflow);
    return fixed (e1.message () + e2.message () + e1.category ().name () + (e1 == e2 ? "same" : "different") +
                  (e2 == e3 ? "same" : "different") + (&e1.category () == &e2.category () ? "one" : "two") + (e1 && e2 ? "set" : "clear"));
  }
  case Kind::shared:
    return fixed (op.objects != nullptr ? op.objects->use (op.n) : Objects{op.a, op.cps}.use (op.n));
  case Kind::nested: return fixed (nested (op));
  case Kind::counting:
    switch (op.n % 3U) {
    case 0: return fixed (counted (std::vector<icubaby::char8> (op.a.begin (), op.a.end ()), op.n));
    case 1: return fixed (counted (std::vector<char16_t> (op.cps.begin (), op.cps.end ()), op.n));
    default: return fixed (counted (std::vector<char32_t> (op.cps.begin (), op.cps.end ()), op.n));
    }
  case Kind::last: break;
  }
  return fixed ({});
}

}  // namespace ops
#endif
