// P23: the cost of an operation grows with the size of its arguments only.
//
// The work build counts the basic blocks executed (compiler instrumentation), the bytes moved and the bytes allocated, and
// watches how deep the stack gets. None of that depends on the machine or its load.
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <new>

#include "../gen/ops_gen.hpp"

#define UNCOUNTED __attribute__ ((no_sanitize_coverage))

namespace {

struct Meter {
  std::uint64_t blocks = 0;
  std::uint64_t moved = 0;
  std::uint64_t allocated = 0;
  std::uintptr_t top = 0;
  std::uintptr_t lowest = 0;
};
Meter meter;

UNCOUNTED void start () {
  meter = Meter{};
  meter.top = meter.lowest = reinterpret_cast<std::uintptr_t> (__builtin_frame_address (0));
}

struct Cost {
  std::uint64_t work;
  std::uint64_t stack;
};

UNCOUNTED Cost stop () {
  return {meter.blocks + meter.moved / 16U + meter.allocated / 16U, meter.top - meter.lowest};
}

UNCOUNTED void* allocate (std::size_t n) {
  meter.allocated += n;
  auto* const p = std::malloc (n != 0U ? n : 1U);
  if (p == nullptr) {
    throw std::bad_alloc{};
  }
  return p;
}

}  // namespace

extern "C" {
UNCOUNTED void __sanitizer_cov_trace_pc () {
  ++meter.blocks;
  auto const here = reinterpret_cast<std::uintptr_t> (__builtin_frame_address (0));
  if (here < meter.lowest) {
    meter.lowest = here;
  }
}
void* __real_memcpy (void*, void const*, std::size_t);
void* __real_memmove (void*, void const*, std::size_t);
void* __real_memset (void*, int, std::size_t);
int __real_memcmp (void const*, void const*, std::size_t);
void* __real_memchr (void const*, int, std::size_t);
std::size_t __real_strlen (char const*);
UNCOUNTED void* __wrap_memcpy (void* d, void const* s, std::size_t n) {
  meter.moved += n;
  return __real_memcpy (d, s, n);
}
UNCOUNTED void* __wrap_memmove (void* d, void const* s, std::size_t n) {
  meter.moved += n;
  return __real_memmove (d, s, n);
}
UNCOUNTED void* __wrap_memset (void* d, int c, std::size_t n) {
  meter.moved += n;
  return __real_memset (d, c, n);
}
UNCOUNTED int __wrap_memcmp (void const* a, void const* b, std::size_t n) {
  auto const r = __real_memcmp (a, b, n);
  if (r == 0) {
    meter.moved += n;
  } else {
    auto const* x = static_cast<unsigned char const*> (a);
    auto const* y = static_cast<unsigned char const*> (b);
    for (; *x == *y; ++x, ++y) {
      ++meter.moved;
    }
  }
  return r;
}
UNCOUNTED void* __wrap_memchr (void const* a, int c, std::size_t n) {
  auto* const r = __real_memchr (a, c, n);
  meter.moved += r == nullptr ? n : static_cast<std::size_t> (static_cast<char const*> (r) - static_cast<char const*> (a));
  return r;
}
UNCOUNTED std::size_t __wrap_strlen (char const* s) {
  auto const n = __real_strlen (s);
  meter.moved += n;
  return n;
}
}

UNCOUNTED void* operator new (std::size_t n) { return allocate (n); }
UNCOUNTED void* operator new[] (std::size_t n) { return allocate (n); }
UNCOUNTED void operator delete (void* p) noexcept { std::free (p); }
UNCOUNTED void operator delete[] (void* p) noexcept { std::free (p); }
UNCOUNTED void operator delete (void* p, std::size_t) noexcept { std::free (p); }
UNCOUNTED void operator delete[] (void* p, std::size_t) noexcept { std::free (p); }

namespace {

// A family of texts: the same shape in every size.
struct Family {
  std::string before;
  std::string unit;
  std::string other;  // instead of every `every`th unit
  std::size_t every = 0;
  std::string after;

  std::string body (std::size_t n) const {
    std::string r;
    for (std::size_t i = 0; i < n; ++i) {
      r += every != 0 && i % every == 0 ? other : unit;
    }
    return r;
  }
  std::string operator() (std::size_t n) const { return before + body (n) + after; }
};

struct Place {
  std::string_view before;
  std::vector<std::string_view> units;
  std::vector<std::string_view> after;
};

Family family (pbt::Source& s) {
  static std::vector<Place> const places = {
    {"s:", {"a", "/a", "a/", "a/.", "a/..", "./", "../", "%41", "%4", "@", ":", ";=", "//"}, {"", "?q", "#f", "/", "%", "\\"}},
    {"s:/", {"a/", "./", "../", "a/../", "a/./", "%2e/", "a", "/", "a:", "a//"}, {"", "?q", "#f", "..", "%"}},
    {"s://h", {"/", "/a", "/.", "/..", "/a/..", "/%2E", "/%", "/é", "/ "}, {"", "/", "?q#f", "[", "/.."}},
    {"s://", {"a", "a.", "1", "1.", "%41", "é", "é.", "-", "xn--a.", "xn--bcher-kva.", "~", "a@", ":1", ":", "["}, {"", "/", ":80", "@h", "]"}},
    {"s://u", {"a", ":", "%41", "!", "é", "@", "/"}, {"@h", "@h:1/p", "", "[@h"}},
    {"s://h:", {"1", "0", "a", ":"}, {"", "/p", "@h"}},
    {"s://[", {"1:", ":", "::", "f", "ffff:", "1.", "v1.", "]"}, {"]", "1]", "", "::]"}},
    {"s://[v1.", {"a", ":", "1", "%"}, {"]", "]:1", ""}},
    {"s:?", {"a", "/", "?", "%41", "&=", "é", "#", "%"}, {"", "#f", "%"}},
    {"s:#", {"a", "/", "?", "%41", "é", "#", "`"}, {"", "%", "["}},
    {"", {"a", "a+", "a1.", "a:", "/", "./", "../", "a/", "a/../", "?", "#", "%41", "é", "%", "@", "[", "-", "1"}, {"", ":", ":b", "/", "é", "-", "-a"}},
    {"//", {"a", "a.", "a/", "é.", "/"}, {"", "/", "@", "?"}},
    {"xn--", {"a", "z", "9", "-", "a1", "f:"}, {"", "-", "-a", ".", "é"}},
    {"\xFF\xFE", {"a", "ab", "\xD8", "\xDC", "\xD8\xDC"}, {"", "a"}},
  };
  Family f;
  auto const& p = s.pick (places);
  f.before = p.before;
  f.unit = s.pick (p.units);
  f.other = s.pick (p.units);
  f.every = s.flip () ? 0U : 2U + s.below (9);
  f.after = s.pick (p.after);
  return f;
}

// Components of which one is large.
ref::Parts components (ref::Parts const& base, Family const& f, std::uint64_t field, std::size_t n) {
  auto p = base;
  auto const text = f.body (n);
  if (field >= 1 && field <= 3 && !p.authority) {
    p.authority.emplace ();
  }
  switch (field) {
  case 0: p.scheme = text; break;
  case 1:
  case 2: p.authority->host = text; break;
  case 3: p.authority->userinfo = text; break;
  case 4: p.query = text; break;
  case 5: p.fragment = text; break;
  case 6: p.path.segments = {"a", text, "b"}; break;
  default:
    p.path.segments.clear ();
    for (std::size_t i = 0; i < n; ++i) {
      p.path.segments.push_back (f.every != 0 && i % f.every == 0 ? f.other : f.unit);
    }
  }
  return p;
}

std::size_t longest_label (std::string_view host) {
  std::size_t best = 0;
  while (true) {
    auto const dot = host.find ('.');
    best = std::max (best, std::min (dot, host.size ()));
    if (dot == std::string_view::npos) {
      return best;
    }
    host.remove_prefix (dot + 1U);
  }
}

void run (pbt::Case& c) {
  auto& s = c.src;
  auto const f = family (s);
  auto const g = s.flip () ? f : family (s);
  auto const kind = static_cast<ops::Kind> (s.below (static_cast<std::uint64_t> (ops::Kind::errors)));
  auto const n_option = static_cast<unsigned> (s.below (24));
  auto const base = gen::codec_parts (s, s.flip () ? gen::HostKind::idn : gen::HostKind::encoded);
  auto const field = s.below (10);
  bool const parse = s.flip ();  // the components are those of the text
  // Code points which are all different, or all the same.
  auto const step = static_cast<char32_t> (s.below (5));
  auto first = gen::scalar (s);
  if (step != 0 && (first < 0x80 || (first > 0xD800 - 60000 && first < 0xE000) || first > 0x10FFFF - 60000)) {
    first = 0x10000;
  }
  bool const both = s.flip ();

  auto const* const name = ops::names[static_cast<std::size_t> (kind)];
  bool const punycode = kind == ops::Kind::puny_encode || kind == ops::Kind::puny_decode;
  bool const codec = kind == ops::Kind::encode_parts || kind == ops::Kind::decode_parts;
  auto const size_of_case = s.below (8);
  std::size_t n = size_of_case == 7 ? 400U + s.below (400) : 40U + s.below (120);
  if (punycode || codec) {
    n = 30U + s.below (30);
  }

  if (f.every != 0 || g.every != 0) {
    // The same shape in both sizes: whole numbers of periods.
    auto const period = std::max<std::size_t> (f.every, 1U) * std::max<std::size_t> (g.every, 1U);
    n = (n + period - 1U) / period * period;
  }

  c.note ("operation", name);
  c.note ("prefix", f.before);
  c.note ("unit", f.unit);
  if (f.every != 0) {
    c.note ("other unit", f.other);
    c.note ("every", f.every);
  }
  c.note ("suffix", f.after);
  c.note ("repeated", n);
  c.key (n_option);
  c.key (g (1));
  c.key (parse ? 100U : field);
  c.label (name);

  bool square = punycode;
  bool useful = false;
  auto const measure = [&] (std::size_t size) {
    auto const a = f (size);
    auto const b = both ? g (size) : g (3);
    std::u32string cps;
    for (std::size_t i = 0; i < size; ++i) {
      cps += first + static_cast<char32_t> (i) * step;
    }
    conv::Holder h;
    conv::Holder h2;
    auto p = h.make (components (base, f, field, size));
    auto q = h2.make (components (base, g, field, both ? size : 3U));
    if (parse) {
      if (auto r = uri::split_reference (a)) {
        p = *r;
        c.label ("parsed");
      }
      if (auto r = uri::split_reference (b)) {
        q = *r;
      }
    }
    if (codec && p.authority && longest_label (p.authority->host) > 100U) {
      square = true;
    }
    ops::Op const op{kind, a, b, cps, &p, &q, n_option};
    std::string shown;
    start ();
    {
      auto const kept = ops::run (op);
      auto const cost = stop ();
      shown = kept ();
      if (!shown.empty () && shown != "none") {
        useful = true;
      }
      return cost;
    }
  };
  (void)measure (2);
  auto const small = measure (n);
  auto const large = measure (n * 16U);
  c.describe ("cost", [&] {
    return std::to_string (small.work) + " for " + std::to_string (n) + ", " + std::to_string (large.work) + " for " +
           std::to_string (n * 16U) + " repetitions; stack " + std::to_string (small.stack) + " and " + std::to_string (large.stack);
  });
  c.check (large.work <= (square ? 600U : 40U) * small.work + 30000U || large.work <= 64U * 16U * n, [&] {
    return std::string{name} + " takes " + std::to_string (small.work) + " steps for " + std::to_string (n) + " repetitions but " +
           std::to_string (large.work) + " for 16 times as many";
  });
  c.check (large.stack <= small.stack + 8192U, [&] {
    return std::string{name} + " needs " + std::to_string (small.stack) + " bytes of stack for " + std::to_string (n) +
           " repetitions but " + std::to_string (large.stack) + " for 16 times as many";
  });
  if (useful) {
    c.nontrivial ();
  }
  c.label_if (square, "quadratic allowed");
}

}  // namespace

pbt::Property const pbt::property{
  "P23",
  "Every operation on arguments of one shape in two sizes, one 16 times the other: texts of repeated units in every component, "
  "components with one large field or many segments, and code point sequences. The work (basic blocks executed, bytes moved "
  "and allocated) may grow 40-fold, 600-fold where Punycode handles long labels, and the stack by 8 KiB. Non-trivial: the operation "
  "gave something other than a plain rejection.",
  run};
