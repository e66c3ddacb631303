// A small choice-sequence property-based testing engine.
//
// A property is a function of a stream of choices. The stream is either drawn from a seeded generator (random stage),
// from libFuzzer's input (coverage-guided stage) or from a file (replay, shrinking). Everything a case does is a
// function of its choices, so that any failure, including a crash or a hang, replays from the recorded bytes.
#ifndef VERIF_ENGINE_HPP
#define VERIF_ENGINE_HPP

#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <map>
#include <sstream>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace pbt {

class Source {
public:
  static constexpr std::size_t max_choices = std::size_t{1} << 16U;

  // Draws from a generator; every byte drawn is recorded in `record` (of max_choices bytes) and counted in `count`.
  static Source random (std::uint64_t seed, std::uint8_t* record, std::size_t* count);
  static Source replay (std::uint8_t const* data, std::size_t size);

  std::uint8_t byte ();
  // A value in [0, n). 0 is the "simplest".
  std::uint64_t below (std::uint64_t n);
  // A value in [lo, hi].
  std::int64_t range (std::int64_t lo, std::int64_t hi) {
    return lo + static_cast<std::int64_t> (below (static_cast<std::uint64_t> (hi - lo) + 1U));
  }
  // True with a probability of num/den. A zero choice gives false.
  bool chance (unsigned num, unsigned den) { return below (den) >= den - num; }
  bool flip () { return (byte () & 1U) != 0U; }
  // A length in [0, max] for which short values are much more likely.
  std::size_t length (std::size_t max);
  template <typename Container>
  auto const& pick (Container const& c) {
    return c[below (std::size (c))];
  }
  std::string_view pick (std::initializer_list<std::string_view> l) { return *(l.begin () + below (l.size ())); }
  char pick_char (std::string_view chars) { return chars[below (chars.size ())]; }
  // Picks an index in proportion to the weights.
  std::size_t weighted (std::initializer_list<unsigned> weights);
  // True the first time it is called.
  bool once () {
    bool const r = !once_;
    once_ = true;
    return r;
  }

private:
  bool once_ = false;
  bool random_ = false;
  std::uint64_t state_ = 0;
  std::uint64_t pool_ = 0;
  unsigned pool_bytes_ = 0;
  std::uint8_t* record_ = nullptr;
  std::size_t* count_ = nullptr;
  std::uint8_t const* data_ = nullptr;
  std::size_t size_ = 0;
  std::size_t pos_ = 0;
};

struct Failure {
  std::string message;
};

// Escapes text for reports.
std::string show (std::string_view s);
std::string show_units (std::u32string_view s);

class Case {
public:
  Case (Source& s, bool trace) : src{s}, trace_{trace} {}

  Source& src;

  // Classifies the case.
  void label (char const* l) { labels_.push_back (l); }
  void label_if (bool cond, char const* l) {
    if (cond) {
      labels_.push_back (l);
    }
  }
  // Declares that the case meets the property's rule for a non-trivial case.
  void nontrivial () { nontrivial_ = true; }
  // Excluded from the property's domain: counted separately.
  void discard () { discarded_ = true; }
  // Adds to the identity of the case (used to count distinct cases).
  void key (std::string_view s);
  void key (std::uint64_t v);
  // Adds to the description of the case. Also adds to its identity.
  void note (char const* name, std::string_view value);
  void note (char const* name, std::string const& value) { note (name, std::string_view{value}); }
  void note (char const* name, char const* value) { note (name, std::string_view{value}); }
  void note (char const* name, std::u32string_view value);
  void note (char const* name, std::uint64_t value);
  template <typename Function>
    requires std::is_invocable_r_v<std::string, Function>
  void describe (char const* name, Function f) {
    if (trace_) {
      emit (name, f ());
    }
  }

  [[noreturn]] void fail (std::string const& message) const { throw Failure{message}; }
  void check (bool cond, char const* what) const {
    if (!cond) {
      throw Failure{what};
    }
  }
  template <typename Message>
  void check (bool cond, Message message) const {
    if (!cond) {
      throw Failure{message ()};
    }
  }
  void equal (std::string_view actual, std::string_view expected, char const* what) const {
    if (actual != expected) {
      throw Failure{std::string{what} + ": expected " + show (expected) + ", got " + show (actual)};
    }
  }
  template <typename T>
    requires std::is_integral_v<T>
  void equal (T actual, T expected, char const* what) const {
    if (actual != expected) {
      std::ostringstream os;
      os << what << ": expected " << +expected << ", got " << +actual;
      throw Failure{os.str ()};
    }
  }

  bool trace () const { return trace_; }
  bool is_nontrivial () const { return nontrivial_; }
  bool is_discarded () const { return discarded_; }
  std::uint64_t hash () const { return hash_; }
  std::vector<char const*> const& labels () const { return labels_; }
  std::string const& description () const { return description_; }
  void live (bool b) { live_ = b; }

private:
  void emit (char const* name, std::string const& value);

  bool trace_;
  bool live_ = false;
  bool nontrivial_ = false;
  bool discarded_ = false;
  std::uint64_t hash_ = 0x9E3779B97F4A7C15ULL;
  std::vector<char const*> labels_;
  std::string description_;
};

// A property, defined by each props/*.cpp.
struct Property {
  char const* id;
  char const* rule;  // how cases are made and what makes one non-trivial
  void (*run) (Case&);
};
extern Property const property;

// Runs one case and converts any exception into a failure. Returns an empty string if the case passed.
std::string run_case (Case& c);

// A copy of a string in a heap block of exactly its size (so that an access beyond it is seen by the sanitizer).
class Exact {
public:
  explicit Exact (std::string_view s);
  Exact (Exact const&) = delete;
  Exact& operator= (Exact const&) = delete;
  Exact (Exact&& other) noexcept : base_{std::exchange (other.base_, nullptr)}, p_{other.p_}, n_{other.n_} {}
  ~Exact ();
  std::string_view view () const { return {p_, n_}; }
  operator std::string_view () const { return view (); }
  // True if the view lies inside of this block.
  bool holds (std::string_view v) const;

private:
  char* base_;
  char* p_;
  std::size_t n_;
};

// Statistics of a run, and their output as JSON.
class Stats {
public:
  void add (Case const& c);
  void sample (std::uint64_t hash, std::string const& description);
  bool wants_sample (std::uint64_t hash) const;
  bool write (char const* path, double wall) const;
  std::uint64_t evaluations = 0;
  std::uint64_t discarded = 0;
  std::uint64_t nontrivial = 0;

private:
  std::map<std::string_view, std::uint64_t> labels_;
  std::vector<std::uint64_t> hashes_;
  mutable bool sorted_ = false;
  std::map<std::uint64_t, std::string> samples_;
  void compact ();
  std::size_t compact_at_ = std::size_t{1} << 20U;
};

std::uint64_t mix (std::uint64_t x);
std::string json_string (std::string_view s);

}  // namespace pbt

#endif
