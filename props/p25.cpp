// P25: an operation which runs out of memory says so, and does no harm.
#include <cstdlib>
#include <new>

#include "../gen/ops_gen.hpp"

namespace {

struct Memory {
  bool armed = false;
  bool all = false;           // every allocation from there on fails
  std::uint64_t count = 0;    // allocations since it was armed
  std::uint64_t fail_at = 0;  // 0: never
  std::uint64_t failed = 0;
  std::int64_t live = 0;
};
Memory memory;

void* allocate (std::size_t n) noexcept {
  if (memory.armed) {
    ++memory.count;
    if (memory.fail_at != 0 && (memory.count == memory.fail_at || (memory.all && memory.count > memory.fail_at))) {
      ++memory.failed;
      return nullptr;
    }
  }
  auto* const p = std::malloc (n != 0U ? n : 1U);
  memory.live += p != nullptr;
  return p;
}
void* allocate_or_throw (std::size_t n) {
  auto* const p = allocate (n);
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  return p;
}
void release (void* p) noexcept {
  memory.live -= p != nullptr;
  std::free (p);
}

}  // namespace

void* operator new (std::size_t n) { return allocate_or_throw (n); }
void* operator new[] (std::size_t n) { return allocate_or_throw (n); }
void* operator new (std::size_t n, std::nothrow_t const&) noexcept { return allocate (n); }
void* operator new[] (std::size_t n, std::nothrow_t const&) noexcept { return allocate (n); }
void operator delete (void* p) noexcept { release (p); }
void operator delete[] (void* p) noexcept { release (p); }
void operator delete (void* p, std::size_t) noexcept { release (p); }
void operator delete[] (void* p, std::size_t) noexcept { release (p); }

namespace {

class Armed {
public:
  Armed (std::uint64_t fail_at, bool all) {
    memory.count = 0;
    memory.failed = 0;
    memory.fail_at = fail_at;
    memory.all = all;
    memory.armed = true;
  }
  Armed (Armed const&) = delete;
  Armed& operator= (Armed const&) = delete;
  ~Armed () { memory.armed = false; }
};

// A stream of the harness would swallow the exception, as streams do by default.
ops::Kept perform (ops::Op const& op) {
  if (op.kind == ops::Kind::compose) {
    return ops::fixed (uri::compose (*op.p) + '|' + static_cast<std::string> (op.p->path));
  }
  return ops::run (op);
}

void run (pbt::Case& c) {
  auto& s = c.src;
  // Not the predicate valid() and the transcoders, which are noexcept, and not the conversion to a filesystem path: libstdc++'s own path crashes.
  static constexpr ops::Kind kinds[] = {ops::Kind::split,      ops::Kind::split_reference, ops::Kind::join_text,   ops::Kind::join_parts,
                                        ops::Kind::compose,    ops::Kind::dots,            ops::Kind::pctencode,
                                        ops::Kind::pctdecode,  ops::Kind::puny_encode,     ops::Kind::puny_decode, ops::Kind::encode_parts,
                                        ops::Kind::decode_parts, ops::Kind::rules, ops::Kind::pctdecode_view, ops::Kind::counting};
  auto const kind = s.pick (kinds);
  auto const a = ops::text (s, c);
  auto const b = s.chance (1, 4) ? a : ops::text (s, c);
  auto const cps = gen::utf32_like (s, 30);
  auto const pm = ops::components (s, {});
  auto const qm = ops::components (s, {});
  auto const n = static_cast<unsigned> (s.below (24));
  bool const all = s.flip ();
  auto const pick = s.below (64);
  auto const* const name = ops::names[static_cast<std::size_t> (kind)];
  c.note ("operation", name);
  c.note ("a", a);
  c.note ("b", b);
  c.note ("code points", cps);
  c.note ("p", ref::show (pm));
  c.note ("q", ref::show (qm));
  c.note ("option", n);
  pbt::Exact const ea{a};
  pbt::Exact const eb{b};
  conv::Holder h;
  conv::Holder h2;
  auto p = h.make (pm);
  auto q = h2.make (qm);
  if (s.flip ()) {
    if (auto r = uri::split_reference (ea.view ())) {
      p = *r;
    }
    if (auto r = uri::split_reference (eb.view ())) {
      q = *r;
    }
  }
  auto const p_before = ops::show (p);
  auto const q_before = ops::show (q);
  ops::Op const op{kind, ea.view (), eb.view (), cps, &p, &q, n};

  std::string expected;
  std::uint64_t allocations = 0;
  {
    ops::Kept kept;
    {
      Armed const armed{0, false};
      kept = perform (op);
    }
    allocations = memory.count;
    expected = kept ();
  }
  c.key (allocations);
  c.label (name);
  auto const attempt = [&] (std::uint64_t at) {
    auto const live = memory.live;
    bool threw = false;
    char const* other = nullptr;
    bool same = true;
    {
      ops::Kept kept;
      try {
        Armed const armed{at, all};
        kept = perform (op);
      } catch (std::bad_alloc const&) {
        threw = true;
      } catch (...) {
        other = "another exception than std::bad_alloc";
      }
      if (!threw && other == nullptr) {
        same = kept () == expected;
      }
    }
    auto const leaked = memory.live - live;
    auto const where = [&] { return std::string{name} + " with allocation " + std::to_string (at) + " of " + std::to_string (allocations) + " failing"; };
    c.check (other == nullptr, [&] { return where () + ": " + other; });
    c.check (same, [&] { return where () + " returns a wrong result"; });
    c.check (leaked == 0, [&] { return where () + " leaks " + std::to_string (leaked) + " blocks"; });
    c.equal (ea.view (), a, "the input");
    c.equal (eb.view (), b, "the input");
    c.check (ops::show (p) == p_before && ops::show (q) == q_before, [&] { return where () + " changes its arguments"; });
    c.label_if (threw, "threw std::bad_alloc");
    c.label_if (!threw, "coped");
    return threw;
  };
  bool threw = false;
  for (std::uint64_t at = 1; at <= allocations; ++at) {
    if (allocations <= 24 || at % 16U == pick % 16U || at + 3 > allocations || at < 4) {
      threw = attempt (at) || threw;
    }
  }
  if (kind == ops::Kind::dots) {
    // The only operation that changes an object: it stays as it was if there is no memory.
    for (auto const* const original : {&p, &q}) {
      auto result = *original;
      result.path.remove_dot_segments ();
      auto const before = ops::show (*original);
      auto const after = ops::show (result);
      for (std::uint64_t at = 1; at < 400; ++at) {
        auto copy = *original;
        bool done = true;
        {
          Armed const armed{at, all};
          try {
            copy.path.remove_dot_segments ();
          } catch (std::bad_alloc const&) {
            done = false;
          }
        }
        c.check (ops::show (copy) == (done ? after : before), [&] {
          return "remove_dot_segments() with allocation " + std::to_string (at) + " failing does not leave " + (done ? "the result" : "the original") + " behind";
        });
        if (memory.failed == 0) {
          break;
        }
        threw = threw || !done;
      }
    }
  }
  c.equal (perform (op) (), expected, "the result afterwards");
  if (threw) {
    c.nontrivial ();
  }
}

}  // namespace

pbt::Property const pbt::property{
  "P25",
  "Operations on valid, damaged and arbitrary texts, code points and components, each repeated with one of its memory allocations "
  "failing, or with that one and all later ones: every allocation if there are up to 24, a sample otherwise. Non-trivial: a "
  "failure reached the caller as std::bad_alloc.",
  run};
