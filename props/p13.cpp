// P13: the parser combinators against a reference matcher (greedy, ordered choice, no backtracking).
#include <algorithm>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "../engine/engine.hpp"
#include "uri/rule.hpp"

namespace {

constexpr std::string_view alphabet = "abcABC019.-";

char lower (char c) {
  return c >= 'A' && c <= 'Z' ? static_cast<char> (c - 'A' + 'a') : c;
}

struct Expr;
using ExprPtr = std::shared_ptr<Expr const>;

struct Op {
  enum class Kind { concat, optional, star, alternative } kind = Kind::concat;
  std::vector<ExprPtr> args;  // one, except for alternative
  unsigned min = 0;
  std::optional<unsigned> max;
  bool explicit_min = false;
  unsigned many = 0;  // if not 0, the text has about so many repetitions
  int acceptor = -1;  // concat and optional only
};

struct Expr {
  enum class Kind { literal, range, pred, alpha, digit, hexdig, sequence } kind = Kind::literal;
  char a = 'a';
  char b = 'a';
  std::vector<Op> ops;
};

// ---- the model
struct Call {
  int acceptor;
  std::size_t pos;
  std::size_t len;
  bool operator== (Call const&) const = default;
};
struct Match {
  std::size_t end = 0;
  std::vector<Call> calls;
};

std::optional<Match> match (Expr const& e, std::string_view s, std::size_t pos);

bool accepts_char (Expr const& e, char c) {
  switch (e.kind) {
  case Expr::Kind::literal: return lower (c) == lower (e.a);
  case Expr::Kind::range: return lower (c) >= lower (e.a) && lower (c) <= lower (e.b);
  case Expr::Kind::pred: return c == e.a || c == e.b;
  case Expr::Kind::alpha: return lower (c) >= 'a' && lower (c) <= 'z';
  case Expr::Kind::digit: return c >= '0' && c <= '9';
  case Expr::Kind::hexdig: return (c >= '0' && c <= '9') || (lower (c) >= 'a' && lower (c) <= 'f');
  default: return false;
  }
}

void append (std::vector<Call>& to, std::vector<Call> const& from) {
  to.insert (to.end (), from.begin (), from.end ());
}

std::optional<Match> apply (Op const& op, std::string_view s, Match state) {
  switch (op.kind) {
  case Op::Kind::concat:
  case Op::Kind::optional:
    if (auto const m = match (*op.args[0], s, state.end)) {
      append (state.calls, m->calls);
      if (op.acceptor >= 0) {
        state.calls.push_back ({op.acceptor, state.end, m->end - state.end});
      }
      state.end = m->end;
      return state;
    }
    return op.kind == Op::Kind::optional ? std::optional{state} : std::nullopt;
  case Op::Kind::alternative:
    for (auto const& a : op.args) {
      if (auto const m = match (*a, s, state.end)) {
        append (state.calls, m->calls);
        state.end = m->end;
        return state;
      }
    }
    return {};
  case Op::Kind::star: {
    auto count = 0U;
    while (!op.max || count < *op.max) {
      auto const m = match (*op.args[0], s, state.end);
      if (!m) {
        break;
      }
      if (m->end == state.end) {
        return state;  // Any number of repetitions of nothing (such bodies have no acceptors).
      }
      ++count;
      append (state.calls, m->calls);
      state.end = m->end;
    }
    return count < op.min ? std::nullopt : std::optional{state};
  }
  }
  return {};
}

std::optional<Match> match (Expr const& e, std::string_view s, std::size_t pos) {
  if (e.kind != Expr::Kind::sequence) {
    if (pos < s.size () && accepts_char (e, s[pos])) {
      return Match{pos + 1U, {}};
    }
    return {};
  }
  auto m = std::optional<Match>{Match{pos, {}}};
  for (auto const& op : e.ops) {
    m = apply (op, s, std::move (*m));
    if (!m) {
      return {};
    }
  }
  return m;
}

// ---- the library
struct Log {
  std::string_view input;
  std::vector<Call>* calls;
  bool outside = false;
};

using Function = std::function<uri::rule::matched_result (uri::rule const&)>;

struct Acceptor {
  int id;
  Log* log;
  void operator() (std::string_view s) const {
    auto const* const first = log->input.data ();
    if (s.data () < first || s.data () + s.size () > first + log->input.size ()) {
      log->outside = true;
      return;
    }
    log->calls->push_back ({id, static_cast<std::size_t> (s.data () - first), s.size ()});
  }
};

Function function (Expr const& e, Log& log);

uri::rule apply (Op const& op, uri::rule const& r, Log& log) {
  std::vector<Function> f;
  for (auto const& a : op.args) {
    f.push_back (function (*a, log));
  }
  switch (op.kind) {
  case Op::Kind::concat: return op.acceptor >= 0 ? r.concat (f[0], Acceptor{op.acceptor, &log}) : r.concat (f[0]);
  case Op::Kind::optional: return op.acceptor >= 0 ? r.optional (f[0], Acceptor{op.acceptor, &log}) : r.optional (f[0]);
  case Op::Kind::star:
    if (op.max) {
      return r.star (f[0], op.min, *op.max);
    }
    return op.min > 0 || op.explicit_min ? r.star (f[0], op.min) : r.star (f[0]);
  case Op::Kind::alternative:
    switch (f.size ()) {
    case 1: return r.alternative (f[0]);
    case 2: return r.alternative (f[0], f[1]);
    case 3: return r.alternative (f[0], f[1], f[2]);
    default: return r.alternative (f[0], f[1], f[2], f[3]);
    }
  }
  return r;
}

Function function (Expr const& e, Log& log) {
  switch (e.kind) {
  case Expr::Kind::literal: return uri::single_char (e.a);
  case Expr::Kind::range: return uri::char_range (e.a, e.b);
  case Expr::Kind::pred:
    return [a = e.a, b = e.b] (uri::rule const& r) { return r.single_char ([=] (char c) { return c == a || c == b; }); };
  case Expr::Kind::alpha: return [] (uri::rule const& r) { return uri::alpha (r); };
  case Expr::Kind::digit: return [] (uri::rule const& r) { return uri::digit (r); };
  case Expr::Kind::hexdig: return [] (uri::rule const& r) { return uri::hexdig (r); };
  case Expr::Kind::sequence: break;
  }
  return [&e, &log] (uri::rule const& r) {
    // Built step by step like "r.concat(...).star(...).matched ("name", r)".
    auto x = r;
    for (auto const& op : e.ops) {
      x = apply (op, x, log);
    }
    return x.matched ("sequence", r);
  };
}

// ---- generation
struct Gen {
  pbt::Source& s;
  int next_acceptor = 0;
  bool nullable_star = false;
  bool many = false;
  unsigned within_star = 0;

  // `acceptors`: whether acceptors may be attached.
  ExprPtr expr (unsigned depth, bool acceptors) {
    auto e = std::make_shared<Expr> ();
    switch (s.weighted ({8, 3, 1, 1, 1, 1, depth > 0 ? 16U : 0U})) {
    case 0:
      e->a = s.chance (1, 12) ? static_cast<char> (s.byte ()) : s.pick_char (alphabet);
      break;
    case 1: {
      e->kind = Expr::Kind::range;
      static constexpr std::string_view kinds[] = {"abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789",
                                                   "!\"#$%&'()*+,-./", "[\\]^_`"};
      auto const k = s.pick (kinds);
      auto const n = s.chance (2, 3) ? std::min<std::size_t> (k.size (), 4) : k.size ();
      auto const lo = s.below (n);
      e->a = k[lo];
      e->b = k[lo + s.below (n - lo)];
      break;
    }
    case 2:
      e->kind = Expr::Kind::pred;
      e->a = s.pick_char (alphabet);
      e->b = s.pick_char (alphabet);
      break;
    case 3: e->kind = Expr::Kind::alpha; break;
    case 4: e->kind = Expr::Kind::digit; break;
    case 5: e->kind = Expr::Kind::hexdig; break;
    default:
      e->kind = Expr::Kind::sequence;
      for (auto n = s.below (4) + (s.chance (9, 10) ? 1U : 0U); n > 0; --n) {
        e->ops.push_back (op (depth - 1U, acceptors));
      }
    }
    return e;
  }

  Op op (unsigned depth, bool acceptors) {
    Op o;
    o.kind = static_cast<Op::Kind> (s.weighted ({5, 3, 4, 3}));
    if (o.kind == Op::Kind::alternative) {
      for (auto n = 1U + s.below (4); n > 0; --n) {
        o.args.push_back (expr (depth, acceptors));
      }
    } else if (o.kind == Op::Kind::star) {
      ++within_star;
      auto body = expr (depth, acceptors);
      --within_star;
      if (nullable (*body)) {
        nullable_star = true;
        body = strip (*body);
      }
      o.args.push_back (body);
      o.explicit_min = s.flip ();
      if (within_star == 0 && body->kind != Expr::Kind::sequence && s.chance (1, 500) && s.once ()) {
        // More repetitions than small counters have room for. (Within another repetition, they could all be tried from each
        // position.)
        static constexpr unsigned around[] = {64, 128, 256, 256, 256, 512, 1024, 32'768, 65'536, 65'536};
        auto const n = s.pick (around) - 4U + static_cast<unsigned> (s.below (8));
        o.min = s.flip () ? n : static_cast<unsigned> (s.below (4));
        if (s.chance (3, 4)) {
          o.max = s.flip () ? n + static_cast<unsigned> (s.below (4)) : ~0U - static_cast<unsigned> (s.below (2));
          o.max = std::max (*o.max, o.min);
        }
        o.many = n;
        many = true;
        return o;
      }
      o.min = s.chance (1, 2) ? static_cast<unsigned> (s.below (4)) : 0U;
      if (s.chance (1, 2)) {
        o.max = o.min + static_cast<unsigned> (s.below (4));
      }
    } else {
      o.args.push_back (expr (depth, acceptors));
      if (acceptors && s.chance (1, 2)) {
        o.acceptor = next_acceptor++;
      }
    }
    return o;
  }

  static bool nullable (Expr const& e) {
    return e.kind == Expr::Kind::sequence &&
           std::all_of (e.ops.begin (), e.ops.end (), [] (Op const& o) {
             return o.kind == Op::Kind::optional || (o.kind == Op::Kind::star && (o.min == 0 || nullable (*o.args[0]))) ||
                    (o.kind != Op::Kind::star && std::any_of (o.args.begin (), o.args.end (), [] (ExprPtr const& a) {
                       return nullable (*a);
                     }));
           });
  }
  static ExprPtr strip (Expr const& e) {
    auto r = std::make_shared<Expr> (e);
    for (auto& o : r->ops) {
      o.acceptor = -1;
      for (auto& a : o.args) {
        a = strip (*a);
      }
    }
    return r;
  }

  // Text which the expression is likely to match.
  void text (Expr const& e, std::string& out) {
    if (out.size () > 200) {
      return;
    }
    switch (e.kind) {
    case Expr::Kind::literal:
      out += s.chance (1, 4) && lower (e.a) >= 'a' && lower (e.a) <= 'z' ? static_cast<char> (e.a ^ 0x20) : e.a;
      return;
    case Expr::Kind::range:
      out += static_cast<char> (e.a + static_cast<char> (s.below (static_cast<std::uint64_t> (e.b - e.a) + 1U)));
      return;
    case Expr::Kind::pred: out += s.flip () ? e.a : e.b; return;
    case Expr::Kind::alpha: out += s.pick_char ("abcABCzZ"); return;
    case Expr::Kind::digit: out += s.pick_char ("0123456789"); return;
    case Expr::Kind::hexdig: out += s.pick_char ("0189afAF"); return;
    case Expr::Kind::sequence:
      for (auto const& o : e.ops) {
        text (o, out);
      }
    }
  }
  void text (Op const& o, std::string& out) {
    switch (o.kind) {
    case Op::Kind::concat: text (*o.args[0], out); return;
    case Op::Kind::optional:
      if (s.flip ()) {
        text (*o.args[0], out);
      }
      return;
    case Op::Kind::alternative: text (*o.args[s.below (o.args.size ())], out); return;
    case Op::Kind::star:
      if (o.many > 0) {
        // Enough of them, one too few or some too many.
        std::string one;
        for (int i = 0; i < 3; ++i) {
          text (*o.args[0], one);
        }
        for (auto n = o.many - 1U + s.below (5); n > 0; --n) {
          out += one[n % 3U];
        }
        return;
      }
      for (auto n = o.min + s.below ((o.max ? *o.max - o.min : 3U) + 1U); n > 0; --n) {
        text (*o.args[0], out);
      }
    }
  }
};

std::string show (Expr const& e);
std::string show (Op const& o) {
  static constexpr char const* names[] = {"concat", "optional", "star", "alternative"};
  std::string r = names[static_cast<int> (o.kind)];
  r += '(';
  for (auto const& a : o.args) {
    r += show (*a) + ",";
  }
  if (o.kind == Op::Kind::star) {
    r += std::to_string (o.min) + "," + (o.max ? std::to_string (*o.max) : "inf");
  }
  if (o.acceptor >= 0) {
    r += "accept" + std::to_string (o.acceptor);
  }
  return r + ")";
}
std::string show (Expr const& e) {
  switch (e.kind) {
  case Expr::Kind::literal: return pbt::show (std::string_view{&e.a, 1});
  case Expr::Kind::range: return std::string{e.a} + ".." + e.b;
  case Expr::Kind::pred: return std::string{"one of "} + e.a + e.b;
  case Expr::Kind::alpha: return "alpha";
  case Expr::Kind::digit: return "digit";
  case Expr::Kind::hexdig: return "hexdig";
  case Expr::Kind::sequence: break;
  }
  std::string r = "{";
  for (auto const& o : e.ops) {
    r += "." + show (o);
  }
  return r + "}";
}

// A rule object and what the model knows of it.
struct Node {
  uri::rule rule;
  std::optional<Match> model;
};

void verify (pbt::Case& c, Node const& n, std::string_view input) {
  auto const tail = n.rule.tail ();
  c.check (tail.has_value () == n.model.has_value (),
           n.model ? "matching failed although there is a match" : "matching succeeded although there is no match");
  if (tail) {
    c.equal (tail->size (), input.size () - n.model->end, "length of the text left over");
    c.check (tail->data () == input.data () + n.model->end, "the text left over is in the wrong place");
  }
}

std::string show (std::vector<Call> const& calls) {
  std::string r;
  for (auto const& k : calls) {
    r += "accept" + std::to_string (k.acceptor) + "[" + std::to_string (k.pos) + "+" + std::to_string (k.len) + "] ";
  }
  return r;
}

void verify_calls (pbt::Case& c, std::vector<Call> const& actual, std::vector<Call> const& expected) {
  c.check (actual == expected, [&] { return "acceptors called: " + show (actual) + "; expected: " + show (expected); });
}

void run (pbt::Case& c) {
  auto& s = c.src;
  Gen g{s};
  // A history of operations, each applied to any of the rule objects made before.
  struct Step {
    std::size_t from;
    Op op;
  };
  std::vector<Step> steps;
  bool const chain = s.flip ();
  for (auto n = 1U + s.below (6); n > 0; --n) {
    auto const from = chain || s.chance (2, 3) ? steps.size () : s.below (steps.size () + 1U);
    steps.push_back ({from, g.op (static_cast<unsigned> (s.below (4)), true)});
  }
  // An input which fits the operations that lead to one of the objects.
  std::string text;
  {
    std::vector<std::size_t> path;
    for (auto n = chain ? steps.size () : s.below (steps.size ()) + 1U; n > 0; n = steps[n - 1U].from) {
      path.push_back (n - 1U);
    }
    std::reverse (path.begin (), path.end ());
    for (auto const i : path) {
      g.text (steps[i].op, text);
    }
    if (s.chance (1, 3)) {
      for (auto n = 1U + s.below (3); n > 0; --n) {
        auto const at = s.below (text.size () + 1U);
        switch (s.below (3)) {
        case 0: text.insert (at, 1, s.pick_char (alphabet)); break;
        case 1:
          if (at < text.size ()) {
            text.erase (at, 1);
          }
          break;
        default:
          if (at < text.size ()) {
            text[at] = s.chance (1, 8) ? static_cast<char> (s.byte ()) : s.pick_char (alphabet);
          }
        }
      }
    }
  }
  c.note ("text", text);
  for (auto const& st : steps) {
    c.key (show (st.op));
    c.key (st.from);
    c.describe ("step", [&] { return "from object " + std::to_string (st.from) + ": " + show (st.op); });
  }
  pbt::Exact const block{text};
  auto const input = block.view ();
  std::vector<Call> calls;
  Log log{input, &calls};

  std::vector<Node> nodes;
  nodes.reserve (steps.size () + 1U);
  nodes.push_back ({uri::rule{input}, Match{}});
  for (auto const& st : steps) {
    auto const& n = nodes[st.from];
    auto model = n.model ? apply (st.op, input, *n.model) : std::nullopt;
    nodes.push_back ({apply (st.op, n.rule, log), std::move (model)});
    verify (c, nodes.back (), input);
    c.check (calls.empty (), "an acceptor ran before done()");
  }
  bool any_done = false;
  bool any_calls = false;
  bool any_failed = false;
  auto const finish = [&] (Node const& n) {
    verify (c, n, input);
    calls.clear ();
    bool const done = n.model && n.model->end == input.size ();
    c.equal (n.rule.done (), done, "done()");
    verify_calls (c, calls, done ? n.model->calls : std::vector<Call>{});
    any_done = any_done || done;
    any_calls = any_calls || (done && !n.model->calls.empty ());
    any_failed = any_failed || !n.model;
    // What matched() reports of everything since the start.
    calls.clear ();
    auto const m = n.rule.matched ("all", nodes.front ().rule);
    c.equal (m.has_value (), n.model.has_value (), "matched() has a value");
    if (m) {
      c.check (std::get<0> (*m).data () == input.data (), "matched() starts in the wrong place");
      c.equal (std::get<0> (*m).size (), n.model->end, "length of matched()");
      for (auto const& [f, str] : std::get<1> (*m)) {
        f (str);
      }
      verify_calls (c, calls, n.model->calls);
    }
    calls.clear ();
  };
  // Every object, including those that were continued, in any order, perhaps twice, and copies of them.
  for (auto n = nodes.size () + s.below (3); n > 0; --n) {
    auto const& node = nodes[(n - 1U) % nodes.size ()];
    if (s.chance (1, 4)) {
      Node copy{nodes.front ().rule, node.model};
      copy.rule = node.rule;
      finish (copy);
      Node const moved{std::move (copy.rule), node.model};
      finish (moved);
    } else {
      finish (node);
    }
  }
  c.check (!log.outside, "an acceptor was given text outside of the input");
  if (any_calls || (any_done && !text.empty ())) {
    c.nontrivial ();
  }
  c.label_if (any_done, "whole input matched");
  c.label_if (any_calls, "acceptors ran");
  c.label_if (any_failed, "some rule failed");
  c.label_if (g.many && text.size () > 50, "many repetitions");
  c.label_if (!chain, "branching history");
  c.label_if (g.nullable_star, "repetition of a rule which can match nothing");
}

}  // namespace

pbt::Property const pbt::property{
  "P13",
  "A history of concat, optional, star and alternative steps with random nested grammar expressions and acceptors, each "
  "applied to any earlier rule object, over text derived from the expressions and perhaps edited; every object is then "
  "finished (some repeatedly or as copies). Non-trivial: some object matches the whole input, which is not empty or runs acceptors.",
  run};
