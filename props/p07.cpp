// P07: percent-encoding.
#include <cstdlib>
#include <cstring>
#include <list>
#include <string>
#include <vector>

#include "../gen/known.hpp"
#include "../gen/stretch.hpp"
#include "../gen/text_gen.hpp"
#include "../gen/uri_gen.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"

namespace {

using uri::pctencode_set;

struct SetInfo {
  pctencode_set set;
  ref::Set model;
  char const* name;
};
constexpr SetInfo sets[] = {
  {pctencode_set::fragment, ref::Set::fragment, "fragment"},
  {pctencode_set::query, ref::Set::query, "query"},
  {pctencode_set::special_query, ref::Set::special_query, "special_query"},
  {pctencode_set::path, ref::Set::path, "path"},
  {pctencode_set::userinfo, ref::Set::userinfo, "userinfo"},
  {pctencode_set::component, ref::Set::component, "component"},
  {pctencode_set::form_urlencoded, ref::Set::form, "form_urlencoded"},
  {pctencode_set::none, ref::Set::none, "none"},
};

template <typename T>
void typed (pbt::Case& c, std::string const& text, pctencode_set set, std::string const& expected) {
  // Input iterators over other character types, and an output iterator other than an inserter.
  std::vector<T> in;
  for (char const ch : text) {
    in.push_back (static_cast<T> (ch));
  }
  std::vector<T> out;
  uri::pctencode (in.begin (), in.end (), std::back_inserter (out), set);
  std::string got;
  for (T const v : out) {
    got += static_cast<char> (v);
  }
  c.equal (got, expected, "pctencode() of another character type");
}

void run (pbt::Case& c) {
  auto& s = c.src;
  auto const& info = s.pick (sets);
  std::string text;
  switch (s.weighted ({4, 3, 3, 2})) {
  case 0: text = gen::bytes (s, 60); break;
  case 1:
    for (auto n = s.length (60); n > 0; --n) {
      text += static_cast<char> (s.range (0x20, 0x7F));
    }
    gen::stretch (s, text, 'a');
    break;
  case 2: text = gen::escapes (s, 30); break;
  default: text = ref::utf8 (gen::text (s, 20)); break;
  }
  c.note ("set", info.name);
  c.note ("text", text);
  c.label (info.name);
  if (!known::fragment_grave () && info.model == ref::Set::fragment && text.find ('`') != std::string::npos) {
    char const* const k = std::getenv ("PBT_KNOWN");
    c.check (k != nullptr && std::strstr (k, "fragment-grave-accent") != nullptr,
             "fragment-grave-accent: U+0060 is not a member of the fragment percent-encode set");
    c.label ("known finding: fragment-grave-accent");
  }
  auto const expected = ref::pct_encode (text, info.model);
  if (expected != text) {
    c.nontrivial ();
  }
  pbt::Exact const in{text};
  auto const v = in.view ();
  c.equal (uri::pctencode (v, info.set), expected, "pctencode(string_view)");
  {
    std::string out = "x";
    uri::pctencode (v.begin (), v.end (), std::back_inserter (out), info.set);
    c.equal (out, "x" + expected, "pctencode(iterators)");
  }
  {
    std::list<char> const l (v.begin (), v.end ());
    // Exactly as much room as is needed.
    std::vector<char> out (expected.size ());
    auto const end = uri::pctencode (l.begin (), l.end (), out.data (), info.set);
    c.check (end == out.data () + out.size (), "pctencode() returned the wrong end of the output");
    c.equal (std::string_view{out.data (), out.size ()}, expected, "pctencode(list iterators, pointer)");
    c.check (uri::needs_pctencode (l.begin (), l.end (), info.set) == (expected != text),
             "needs_pctencode(iterators) disagrees with whether encoding changes the text");
  }
  typed<unsigned char> (c, text, info.set, expected);
  typed<signed char> (c, text, info.set, expected);
  c.check (uri::needs_pctencode (v, info.set) == (expected != text),
           "needs_pctencode(string_view) disagrees with whether encoding changes the text");
  for (char const ch : text) {
    auto const b = static_cast<unsigned char> (ch);
    c.check (uri::needs_pctencode (b, info.set) == ref::in_set (b, info.model), [&] {
      return "needs_pctencode(byte) is wrong for " + pbt::show (std::string_view{&ch, 1}) + " in set " + info.name;
    });
  }
  if (info.set != pctencode_set::none) {
    c.equal (uri::pctdecode (expected), text, "pctdecode(pctencode(text))");
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P07",
  "A case is a byte string and one of the eight encode sets; every form of pctencode() and needs_pctencode() is compared "
  "with the WHATWG sets written out independently, and the encoded text is decoded again. Non-trivial: at least one byte is "
  "escaped.",
  run};
