#include "abnf.hpp"

#include <algorithm>
#include <cctype>
#include <cstdlib>
#include <stdexcept>

namespace ref {

namespace {
std::string lower (std::string_view s) {
  std::string r{s};
  for (char& c : r) {
    if (c >= 'A' && c <= 'Z') {
      c = static_cast<char> (c - 'A' + 'a');
    }
  }
  return r;
}
}  // namespace

struct Abnf::Parser {
  Abnf& g;
  std::string_view s;
  std::size_t pos = 0;

  [[noreturn]] void bad (char const* what) const {
    throw std::logic_error (std::string{"abnf: "} + what + " at: " + std::string{s.substr (pos, 30)});
  }
  bool at_end () const { return pos >= s.size (); }
  char peek () const { return pos < s.size () ? s[pos] : '\0'; }
  void space () {
    while (!at_end ()) {
      if (peek () == ' ' || peek () == '\n') {
        ++pos;
      } else if (peek () == ';') {
        while (!at_end () && peek () != '\n') {
          ++pos;
        }
      } else {
        break;
      }
    }
  }
  static bool name_char (char c) { return std::isalnum (static_cast<unsigned char> (c)) != 0 || c == '-'; }
  std::string name () {
    auto const first = pos;
    while (!at_end () && name_char (peek ())) {
      ++pos;
    }
    if (first == pos) {
      bad ("name expected");
    }
    return lower (s.substr (first, pos - first));
  }
  std::size_t make (Node n) {
    g.nodes_.push_back (std::move (n));
    return g.nodes_.size () - 1;
  }
  bool digit () const { return peek () >= '0' && peek () <= '9'; }
  unsigned number (unsigned base) {
    unsigned v = 0;
    auto const first = pos;
    for (; !at_end (); ++pos) {
      char const c = peek ();
      unsigned d = 99;
      if (c >= '0' && c <= '9') {
        d = static_cast<unsigned> (c - '0');
      } else if (c >= 'A' && c <= 'F') {
        d = static_cast<unsigned> (c - 'A') + 10;
      }
      if (d >= base) {
        break;
      }
      v = v * base + d;
    }
    if (first == pos) {
      bad ("number expected");
    }
    return v;
  }
  // True at the start of the next rule ("name =" at the start of a line).
  bool rule_start () const {
    if (at_end () || pos == 0 || s[pos - 1] != '\n' || !name_char (peek ())) {
      return false;
    }
    return true;
  }
  std::size_t element () {
    char const c = peek ();
    if (c == '(' || c == '[') {
      ++pos;
      auto const n = alternation ();
      space ();
      if (peek () != (c == '(' ? ')' : ']')) {
        bad ("bracket expected");
      }
      ++pos;
      if (c == '[') {
        Node r{Node::Kind::repeat, {}, 0, 1, {n}};
        return make (std::move (r));
      }
      return n;
    }
    if (c == '"') {
      ++pos;
      auto const e = s.find ('"', pos);
      Node n{Node::Kind::literal, lower (s.substr (pos, e - pos)), 0, 0, {}};
      pos = e + 1;
      return make (std::move (n));
    }
    if (c == '%') {
      pos += 2;  // "%x"
      Node n{Node::Kind::range, {}, number (16), 0, {}};
      n.hi = n.lo;
      if (peek () == '-') {
        ++pos;
        n.hi = number (16);
      }
      return make (std::move (n));
    }
    Node n{Node::Kind::ref, name (), 0, 0, {}};
    return make (std::move (n));
  }
  std::size_t repetition () {
    unsigned lo = 1;
    unsigned hi = 1;
    bool rep = false;
    if (digit ()) {
      lo = hi = number (10);
      rep = true;
    }
    if (peek () == '*') {
      ++pos;
      if (!rep) {
        lo = 0;
      }
      hi = digit () ? number (10) : unbounded;
      rep = true;
    }
    auto const e = element ();
    if (!rep) {
      return e;
    }
    Node n{Node::Kind::repeat, {}, lo, hi, {e}};
    return make (std::move (n));
  }
  std::size_t concatenation () {
    Node n{Node::Kind::concat, {}, 0, 0, {}};
    for (;;) {
      space ();
      char const c = peek ();
      if (at_end () || c == '/' || c == ')' || c == ']' || rule_start ()) {
        break;
      }
      n.sub.push_back (repetition ());
    }
    return make (std::move (n));
  }
  std::size_t alternation () {
    Node n{Node::Kind::alt, {}, 0, 0, {}};
    for (;;) {
      n.sub.push_back (concatenation ());
      space ();
      if (peek () != '/' || rule_start ()) {
        break;
      }
      ++pos;
    }
    return make (std::move (n));
  }
  void run () {
    for (;;) {
      space ();
      if (at_end ()) {
        break;
      }
      auto const n = name ();
      space ();
      if (peek () != '=') {
        bad ("= expected");
      }
      ++pos;
      g.rules_[n] = alternation ();
    }
  }
};

Abnf::Abnf (std::string_view text) {
  Parser{*this, text}.run ();
}

std::uint32_t Abnf::Automaton::add () {
  nfa.emplace_back ();
  return static_cast<std::uint32_t> (nfa.size () - 1);
}

// Adds the node's automaton starting at `from`; returns its end.
std::uint32_t Abnf::build (Automaton& a, std::size_t node, std::uint32_t from) const {
  Node const& n = nodes_[node];
  auto const single = [&a] (std::uint32_t f, int lo, int hi) {
    // A state has either one range or empty moves.
    auto const s = a.add ();
    auto const t = a.add ();
    a.nfa[f].eps.push_back (s);
    a.nfa[s].lo = lo;
    a.nfa[s].hi = hi;
    a.nfa[s].next = t;
    return t;
  };
  switch (n.kind) {
  case Node::Kind::literal:
    for (char const c : n.text) {
      if (c >= 'a' && c <= 'z') {
        auto const t1 = single (from, c, c);
        auto const t2 = single (from, c - 'a' + 'A', c - 'a' + 'A');
        a.nfa[t2].eps.push_back (t1);
        from = t1;
      } else {
        from = single (from, c, c);
      }
    }
    return from;
  case Node::Kind::range: return single (from, static_cast<int> (n.lo), static_cast<int> (n.hi));
  case Node::Kind::concat:
    for (auto const s : n.sub) {
      from = build (a, s, from);
    }
    return from;
  case Node::Kind::alt: {
    auto const end = a.add ();
    for (auto const s : n.sub) {
      auto const b = a.add ();
      a.nfa[from].eps.push_back (b);
      auto const e = build (a, s, b);
      a.nfa[e].eps.push_back (end);
    }
    return end;
  }
  case Node::Kind::repeat: {
    for (unsigned i = 0; i < n.lo; ++i) {
      from = build (a, n.sub[0], from);
    }
    if (n.hi == unbounded) {
      auto const loop = a.add ();
      a.nfa[from].eps.push_back (loop);
      auto const e = build (a, n.sub[0], loop);
      a.nfa[e].eps.push_back (loop);
      auto const end = a.add ();
      a.nfa[loop].eps.push_back (end);
      return end;
    }
    auto const end = a.add ();
    for (unsigned i = n.lo; i < n.hi; ++i) {
      a.nfa[from].eps.push_back (end);
      auto const b = a.add ();
      a.nfa[from].eps.push_back (b);
      from = build (a, n.sub[0], b);
    }
    a.nfa[from].eps.push_back (end);
    return end;
  }
  case Node::Kind::ref: {
    auto const pos = rules_.find (n.text);
    if (pos == rules_.end ()) {
      throw std::logic_error ("abnf: no rule " + n.text);
    }
    return build (a, pos->second, from);
  }
  }
  return from;
}

std::int32_t Abnf::Automaton::intern (std::vector<std::uint32_t> work) {
  std::vector<std::uint32_t> closed;
  std::vector<bool> seen (nfa.size ());
  bool acc = false;
  while (!work.empty ()) {
    auto const s = work.back ();
    work.pop_back ();
    if (seen[s]) {
      continue;
    }
    seen[s] = true;
    acc = acc || s == accept;
    if (nfa[s].lo >= 0) {
      closed.push_back (s);
    }
    for (auto const e : nfa[s].eps) {
      work.push_back (e);
    }
  }
  std::sort (closed.begin (), closed.end ());
  if (acc) {
    closed.push_back (accept);
  }
  if (closed.empty ()) {
    return -2;  // dead
  }
  auto const [pos, inserted] = ids.try_emplace (closed, static_cast<std::int32_t> (dfa.size ()));
  if (inserted) {
    auto d = std::make_unique<DState> ();
    d->set = closed;
    d->next.fill (-1);
    d->accept = acc;
    dfa.push_back (std::move (d));
  }
  return pos->second;
}

std::int32_t Abnf::Automaton::step (std::int32_t s, unsigned char c) {
  DState& d = *dfa[static_cast<std::size_t> (s)];
  if (d.next[c] == -1) {
    std::vector<std::uint32_t> out;
    for (auto const n : d.set) {
      if (nfa[n].lo >= 0 && c >= nfa[n].lo && c <= nfa[n].hi) {
        out.push_back (nfa[n].next);
      }
    }
    auto const t = intern (std::move (out));
    d.next[c] = t;
  }
  return d.next[c];
}

Abnf::Automaton& Abnf::automaton (std::string_view rule) const {
  auto pos = automata_.find (rule);
  if (pos == automata_.end ()) {
    auto const r = rules_.find (lower (rule));
    if (r == rules_.end ()) {
      throw std::logic_error ("abnf: no rule " + std::string{rule});
    }
    auto a = std::make_unique<Automaton> ();
    a->start = a->add ();
    a->accept = build (*a, r->second, a->start);
    (void)a->intern ({a->start});  // state 0
    pos = automata_.emplace (std::string{rule}, std::move (a)).first;
  }
  return *pos->second;
}

bool Abnf::matches (std::string_view rule, std::string_view s) const {
  auto& a = automaton (rule);
  std::int32_t state = 0;
  for (char const c : s) {
    state = a.step (state, static_cast<unsigned char> (c));
    if (state < 0) {
      return false;
    }
  }
  return a.dfa[static_cast<std::size_t> (state)]->accept;
}

void Abnf::generate (std::size_t node, pbt::Source& src, unsigned reps, std::string& out) const {
  Node const& n = nodes_[node];
  switch (n.kind) {
  case Node::Kind::literal:
    for (char const c : n.text) {
      bool const upper = c >= 'a' && c <= 'z' && src.flip ();
      out += upper ? static_cast<char> (c - 'a' + 'A') : c;
    }
    break;
  case Node::Kind::range: out += static_cast<char> (src.range (n.lo, n.hi)); break;
  case Node::Kind::concat:
    for (auto const s : n.sub) {
      generate (s, src, reps, out);
    }
    break;
  case Node::Kind::alt: generate (src.pick (n.sub), src, reps, out); break;
  case Node::Kind::repeat: {
    auto const hi = n.hi == unbounded ? n.lo + reps : n.hi;
    auto const count = src.range (n.lo, hi);
    for (std::int64_t i = 0; i < count; ++i) {
      generate (n.sub[0], src, reps, out);
    }
    break;
  }
  case Node::Kind::ref: generate (rules_.find (n.text)->second, src, reps, out); break;
  }
}

std::string Abnf::generate (std::string_view rule, pbt::Source& src, unsigned reps) const {
  std::string out;
  generate (rules_.find (lower (rule))->second, src, reps, out);
  return out;
}

Abnf const& rfc3986 () {
  // RFC 3986, Appendix A. "0<pchar>" is written as "0pchar". ALPHA, DIGIT and HEXDIG are RFC 5234's core rules.
  static Abnf const g{R"abnf(
URI           = scheme ":" hier-part [ "?" query ] [ "#" fragment ]

hier-part     = "//" authority path-abempty
              / path-absolute
              / path-rootless
              / path-empty

URI-reference = URI / relative-ref

absolute-URI  = scheme ":" hier-part [ "?" query ]

relative-ref  = relative-part [ "?" query ] [ "#" fragment ]

relative-part = "//" authority path-abempty
              / path-absolute
              / path-noscheme
              / path-empty

scheme        = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )

authority     = [ userinfo "@" ] host [ ":" port ]
userinfo      = *( unreserved / pct-encoded / sub-delims / ":" )
host          = IP-literal / IPv4address / reg-name
port          = *DIGIT

IP-literal    = "[" ( IPv6address / IPvFuture  ) "]"

IPvFuture     = "v" 1*HEXDIG "." 1*( unreserved / sub-delims / ":" )

IPv6address   =                            6( h16 ":" ) ls32
              /                       "::" 5( h16 ":" ) ls32
              / [               h16 ] "::" 4( h16 ":" ) ls32
              / [ *1( h16 ":" ) h16 ] "::" 3( h16 ":" ) ls32
              / [ *2( h16 ":" ) h16 ] "::" 2( h16 ":" ) ls32
              / [ *3( h16 ":" ) h16 ] "::"    h16 ":"   ls32
              / [ *4( h16 ":" ) h16 ] "::"              ls32
              / [ *5( h16 ":" ) h16 ] "::"              h16
              / [ *6( h16 ":" ) h16 ] "::"

h16           = 1*4HEXDIG
ls32          = ( h16 ":" h16 ) / IPv4address
IPv4address   = dec-octet "." dec-octet "." dec-octet "." dec-octet

dec-octet     = DIGIT                 ; 0-9
              / %x31-39 DIGIT         ; 10-99
              / "1" 2DIGIT            ; 100-199
              / "2" %x30-34 DIGIT     ; 200-249
              / "25" %x30-35          ; 250-255

reg-name      = *( unreserved / pct-encoded / sub-delims )

path          = path-abempty    ; begins with "/" or is empty
              / path-absolute   ; begins with "/" but not "//"
              / path-noscheme   ; begins with a non-colon segment
              / path-rootless   ; begins with a segment
              / path-empty      ; zero characters

path-abempty  = *( "/" segment )
path-absolute = "/" [ segment-nz *( "/" segment ) ]
path-noscheme = segment-nz-nc *( "/" segment )
path-rootless = segment-nz *( "/" segment )
path-empty    = 0pchar

segment       = *pchar
segment-nz    = 1*pchar
segment-nz-nc = 1*( unreserved / pct-encoded / sub-delims / "@" )
              ; non-zero-length segment without any colon ":"

pchar         = unreserved / pct-encoded / sub-delims / ":" / "@"

query         = *( pchar / "/" / "?" )

fragment      = *( pchar / "/" / "?" )

pct-encoded   = "%" HEXDIG HEXDIG

unreserved    = ALPHA / DIGIT / "-" / "." / "_" / "~"
reserved      = gen-delims / sub-delims
gen-delims    = ":" / "/" / "?" / "#" / "[" / "]" / "@"
sub-delims    = "!" / "$" / "&" / "'" / "(" / ")"
              / "*" / "+" / "," / ";" / "="

ALPHA         = %x41-5A / %x61-7A
DIGIT         = %x30-39
HEXDIG        = DIGIT / "A" / "B" / "C" / "D" / "E" / "F"
)abnf"};
  return g;
}

}  // namespace ref
