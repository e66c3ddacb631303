// P19: equality of components.
#include "../gen/parts_gen.hpp"
#include "../ref/abnf.hpp"

namespace {

// The text of the fields, where "present and empty" differs from "absent".
std::string fields (ref::Parts const& p, bool with_absolute) {
  std::string r;
  auto const add = [&r] (ref::ostring const& s) {
    r += s ? "+" + std::to_string (s->size ()) + ":" + *s : std::string{"-"};
  };
  add (p.scheme);
  r += p.authority ? 'A' : 'a';
  if (p.authority) {
    add (p.authority->userinfo);
    add (p.authority->host);
    add (p.authority->port);
  }
  r += !with_absolute ? '?' : p.path.absolute ? '/' : '.';
  for (auto const& s : p.path.segments) {
    add (s);
  }
  r += '|';
  add (p.query);
  add (p.fragment);
  return r;
}

bool equal (ref::Parts const& a, ref::Parts const& b) {
  bool const with_absolute = !(a.authority && b.authority);
  return fields (a, with_absolute) == fields (b, with_absolute);
}

std::string tweak_text (pbt::Source& s, std::string t) {
  switch (s.below (6)) {
  case 0:
    if (!t.empty ()) {
      auto& ch = t[s.below (t.size ())];
      ch = static_cast<char> (static_cast<unsigned char> (ch) ^ 0x20U);
    }
    return t;
  case 1: return {};
  case 2: return t + s.pick_char ("a0/%\0");
  case 3:
    if (!t.empty ()) {
      t.pop_back ();
    }
    return t;
  case 4:
    if (!t.empty ()) {
      t.back () = s.pick_char ("az09%/:@");
    }
    return t;
  default: {
    if (t.size () > 1) {
      std::swap (t.front (), t.back ());
    }
    return t;
  }
  }
}

void tweak_optional (pbt::Source& s, ref::ostring& o) {
  if (!o) {
    o = s.pick ({"", "a", "80"});
  } else if (s.chance (1, 3)) {
    o.reset ();
  } else {
    o = tweak_text (s, *o);
  }
}

// Changes a little of the components, or nothing.
void tweak (pbt::Source& s, ref::Parts& p) {
  switch (s.below (13)) {
  case 0: break;
  case 1: tweak_optional (s, p.scheme); break;
  case 2:
    if (p.authority) {
      p.authority.reset ();
    } else {
      p.authority.emplace ();
    }
    break;
  case 3:
    if (p.authority) {
      tweak_optional (s, p.authority->userinfo);
    }
    break;
  case 4:
    if (p.authority) {
      p.authority->host = tweak_text (s, p.authority->host);
    }
    break;
  case 5:
    if (p.authority) {
      tweak_optional (s, p.authority->port);
    }
    break;
  case 6: p.path.absolute = !p.path.absolute; break;
  case 7:
    if (!p.path.segments.empty ()) {
      auto& g = p.path.segments[s.below (p.path.segments.size ())];
      g = tweak_text (s, g);
    }
    break;
  case 8: p.path.segments.insert (p.path.segments.begin () + static_cast<std::ptrdiff_t> (s.below (p.path.segments.size () + 1)), std::string{s.pick ({"", "a", "."})}); break;
  case 9:
    if (!p.path.segments.empty ()) {
      p.path.segments.erase (p.path.segments.begin () + static_cast<std::ptrdiff_t> (s.below (p.path.segments.size ())));
    }
    break;
  case 10: {
    // The same text divided differently.
    auto& g = p.path.segments;
    if (g.size () > 1) {
      auto const i = s.below (g.size () - 1);
      g[i] += g[i + 1];
      g[i + 1].clear ();
    } else {
      std::swap (p.query, p.fragment);
    }
    break;
  }
  case 11: tweak_optional (s, p.query); break;
  default: tweak_optional (s, p.fragment); break;
  }
}

// The same components elsewhere: other blocks, parts of one larger text, or a null view for what is empty.
class Stored {
public:
  Stored (pbt::Source& s, ref::Parts const& m) : holder_{s}, together_{s.chance (1, 3)} {
    if (!together_) {
      parts = holder_.make (m);
      return;
    }
    std::vector<std::size_t> starts;
    auto const add = [&] (std::string const& t) {
      text_ += s.pick ({"", "#", "x"});
      starts.push_back (text_.size ());
      text_ += t;
    };
    // In an order of its own, so that positions differ.
    if (m.fragment) { add (*m.fragment); }
    if (m.scheme) { add (*m.scheme); }
    for (auto const& g : m.path.segments) { add (g); }
    if (m.query) { add (*m.query); }
    if (m.authority) {
      if (m.authority->port) { add (*m.authority->port); }
      add (m.authority->host);
      if (m.authority->userinfo) { add (*m.authority->userinfo); }
    }
    std::size_t i = 0;
    auto const get = [&] (std::string const& t) { return std::string_view{text_}.substr (starts[i++], t.size ()); };
    if (m.fragment) { parts.fragment = get (*m.fragment); }
    if (m.scheme) { parts.scheme = get (*m.scheme); }
    parts.path.absolute = m.path.absolute;
    for (auto const& g : m.path.segments) { parts.path.segments.push_back (get (g)); }
    if (m.query) { parts.query = get (*m.query); }
    if (m.authority) {
      auto& a = parts.ensure_authority ();
      if (m.authority->port) { a.port = get (*m.authority->port); }
      a.host = get (m.authority->host);
      if (m.authority->userinfo) { a.userinfo = get (*m.authority->userinfo); }
    }
  }
  Stored (Stored const&) = delete;
  uri::parts parts;

private:
  gen::PartsHolder holder_;
  bool together_;
  std::string text_;
};

void compare (pbt::Case& c, uri::parts const& a, uri::parts const& b, ref::Parts const& ma, ref::Parts const& mb) {
  auto const who = [&] { return " of " + ref::show (ma) + " and " + ref::show (mb); };
  bool const e = equal (ma, mb);
  c.check ((a == b) == e, [&] { return std::string{e ? "unequal" : "equal"} + " for ==" + who (); });
  c.check ((b == a) == e, [&] { return "not symmetric" + who (); });
  c.check ((a != b) == !e, [&] { return "!= is not the negation" + who (); });
  c.check ((b != a) == !e, [&] { return "!= is not the negation" + who (); });
  bool const ep = ma.path == mb.path;
  c.check ((a.path == b.path) == ep, [&] { return "paths" + who (); });
  c.check ((a.path != b.path) == !ep, [&] { return "paths with !=" + who (); });
  if (ma.authority && mb.authority) {
    bool const ea = ma.authority == mb.authority;
    c.check ((*a.authority == *b.authority) == ea, [&] { return "authorities" + who (); });
    c.check ((*a.authority != *b.authority) == !ea, [&] { return "authorities with !=" + who (); });
  }
  if (e) {
    c.equal (uri::compose (a), uri::compose (b), "composed texts of equal components");
  }
}

void made (pbt::Case& c) {
  auto& s = c.src;
  auto const first = s.chance (1, 3) ? gen::any_parts (s, s.flip ()) : gen::parts (s, s.flip ());
  ref::Parts m[3] = {first, first, first};
  for (int i = 1; i < 3; ++i) {
    m[i] = m[s.below (static_cast<std::uint64_t> (i))];
    for (auto n = s.length (3); n > 0; --n) {
      tweak (s, m[i]);
    }
  }
  for (auto const& x : m) {
    c.note ("components", ref::show (x));
  }
  Stored const s0{s, m[0]};
  Stored const s1{s, m[1]};
  Stored const s2{s, m[2]};
  Stored const again{s, m[0]};
  uri::parts const* const p[3] = {&s0.parts, &s1.parts, &s2.parts};
  for (int i = 0; i < 3; ++i) {
    for (int j = i; j < 3; ++j) {
      compare (c, *p[i], *p[j], m[i], m[j]);
      c.label (equal (m[i], m[j]) ? "equal" : "different");
      if (i != j && equal (m[i], m[j]) && fields (m[i], true) != fields (m[j], true)) {
        c.label ("equal but for the absolute flag");
      }
    }
  }
  compare (c, again.parts, *p[0], m[0], m[0]);
  compare (c, again.parts, *p[1], m[0], m[1]);
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) {
      for (int k = 0; k < 3; ++k) {
        c.check (!(*p[i] == *p[j] && *p[j] == *p[k]) || *p[i] == *p[k], "not transitive");
      }
    }
  }
  auto const copy = *p[0];
  compare (c, copy, *p[0], m[0], m[0]);
  c.nontrivial ();
}

void parsed (pbt::Case& c) {
  auto& s = c.src;
  bool const reference = s.flip ();
  auto const t1 = gen::uri (s, reference);
  auto t2 = t1;
  if (s.chance (1, 3)) {
    // Edited components give near variants which are still well formed more often.
    auto m = ref::decompose (t1);
    tweak (s, m);
    t2 = ref::compose (m);
  } else if (s.chance (4, 5)) {
    t2 = gen::mutate_once (s, t1);
  }
  c.note ("text", t1);
  c.note ("other text", t2);
  pbt::Exact const e1{t1};
  pbt::Exact const e2{t2};
  auto const p1 = uri::split_reference (e1);
  auto const p2 = uri::split_reference (e2);
  if (!p1 || !p2) {
    c.discard ();
    return;
  }
  c.nontrivial ();
  c.label (t1 == t2 ? "parsed, same text" : "parsed, different text");
  c.check ((*p1 == *p2) == (t1 == t2), [&] {
    return "components of " + pbt::show (t1) + " and " + pbt::show (t2) + (t1 == t2 ? " are unequal" : " are equal");
  });
  c.check ((*p1 != *p2) == (t1 != t2), "!=");
  c.check ((*p2 == *p1) == (t1 == t2), "not symmetric");
  c.check ((uri::compose (*p1) == uri::compose (*p2)) == (*p1 == *p2), "== disagrees with the composed text");
  compare (c, *p1, *p2, ref::decompose (t1), ref::decompose (t2));
  // A component hand-made from the text is equal to the parsed one.
  Stored const hand{s, ref::decompose (t2)};
  c.check (*p2 == hand.parts && hand.parts == *p2, "parsed and hand-made components are unequal");
  // The optional results as well.
  c.check ((p1 == p2) == (t1 == t2), "optional components");
}

void run (pbt::Case& c) {
  if (c.src.chance (1, 3)) {
    parsed (c);
  } else {
    made (c);
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P19",
  "A case is three component sets, each a slightly edited copy of another (or not edited), stored in different ways, compared "
  "pairwise with a model and for the laws of an equivalence; or two texts that parse, one an edit of the other. Non-trivial: all "
  "but the pairs of texts of which one does not parse (discarded).",
  run};
