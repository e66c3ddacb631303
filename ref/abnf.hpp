// An independent implementation of ABNF (RFC 5234), used as the reference for RFC 3986's grammar.
//
// The grammar is given as the text of the RFC's appendix. Membership is decided by compiling a (non-recursive) rule to
// a nondeterministic automaton which is run through a lazily built subset construction: it is exact, for strings of any
// length, and has nothing in common with the ordered-choice parser combinators under test.
#ifndef VERIF_REF_ABNF_HPP
#define VERIF_REF_ABNF_HPP

#include <array>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>

#include "../engine/engine.hpp"

namespace ref {

class Abnf {
public:
  explicit Abnf (std::string_view text);

  // Is the string derivable from the rule?
  bool matches (std::string_view rule, std::string_view s) const;
  // A string derived from the rule. Repetitions go up to `reps` more than their minimum.
  std::string generate (std::string_view rule, pbt::Source& src, unsigned reps) const;

private:
  struct Node {
    enum class Kind { literal, range, concat, alt, repeat, ref } kind;
    std::string text;              // literal (case-insensitive) or rule name
    unsigned lo = 0, hi = 0;       // range or repeat (hi == unbounded for no limit)
    std::vector<std::size_t> sub;  // indices of nodes
  };
  static constexpr unsigned unbounded = ~0U;

  struct Parser;
  struct Automaton {
    struct State {
      std::vector<std::uint32_t> eps;
      int lo = -1, hi = -1;
      std::uint32_t next = 0;
    };
    std::vector<State> nfa;
    std::uint32_t start = 0, accept = 0;
    // lazily built deterministic automaton
    std::map<std::vector<std::uint32_t>, std::int32_t> ids;
    struct DState {
      std::vector<std::uint32_t> set;
      std::array<std::int32_t, 256> next;
      bool accept;
    };
    std::vector<std::unique_ptr<DState>> dfa;
    std::int32_t dead = -1;

    std::uint32_t add ();
    std::int32_t intern (std::vector<std::uint32_t> seeds);
    std::int32_t step (std::int32_t s, unsigned char c);
  };
  std::uint32_t build (Automaton& a, std::size_t node, std::uint32_t from) const;
  void generate (std::size_t node, pbt::Source& src, unsigned reps, std::string& out) const;
  Automaton& automaton (std::string_view rule) const;

  std::vector<Node> nodes_;
  std::map<std::string, std::size_t, std::less<>> rules_;
  mutable std::map<std::string, std::unique_ptr<Automaton>, std::less<>> automata_;
};

// RFC 3986 Appendix A.
Abnf const& rfc3986 ();

}  // namespace ref
#endif
